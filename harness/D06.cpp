// D06: equivalence of diagrams is decided exactly, in all three strengths, and the listed isomorphisms are all and only the real ones.
#include "pdmodel.hpp"
#include "big.hpp"
extern "C" {
#define new new_
#include "pd_multidx.h"
#undef new
#include "pd_perm.h"
#include "pd_isomorphisms.h"
}
struct Emb { const pd_code_t*pd; Dia D; VI face; /* dart -> face on its left */ };
static Emb emb(const pd_code_t*pd){ Emb E; E.pd=pd; E.D=from_pd(pd); if(pd->ncross==0) return E; std::map<std::pair<int,int>,int> m; for(unsigned f=0;f<pd->nfaces;f++) for(unsigned i=0;i<pd->face[f].nedges;i++) m[{(int)pd->face[f].edge[i],(int)pd->face[f].orient[i]}]=f;
  E.face.resize(4*E.D.n); for(int d=0;d<4*E.D.n;d++) E.face[d]=m[{(int)pd->cross[d/4].edge[d%4],E.D.out[d]?PD_POS_ORIENTATION:PD_NEG_ORIENTATION}]; return E; }
static std::string iso_key(const pd_iso_t*I,bool cross){ std::string s="c"; for(unsigned i=0;i<I->compperm->n;i++) s+=mc_fmt("%u,",I->compperm->map[i]); s+="e"; for(unsigned i=0;i<I->edgemap->perm->n;i++) s+=mc_fmt("%u%c,",I->edgemap->perm->map[i],I->edgemap->orient[i]==PD_POS_ORIENTATION?'+':'-'); if(cross){ s+="x"; for(unsigned i=0;i<I->crossmap->perm->n;i++) s+=mc_fmt("%u,",I->crossmap->perm->map[i]); s+=I->crossmap->orient==PD_POS_ORIENTATION?'+':'-'; s+="f"; for(unsigned i=0;i<I->facemap->perm->n;i++) s+=mc_fmt("%u,",I->facemap->perm->map[i]); s+=I->facemap->orient==PD_POS_ORIENTATION?'+':'-'; } return s; }
// all isomorphisms of the underlying maps
enum { ISO=0, MAPISO=1, ISOTOPY=2 };
static std::set<std::string> model_isos(const Emb&A,const Emb&B,int kind){ std::set<std::string> S; int n=A.D.n; if(n!=B.D.n||A.D.ncomp!=B.D.ncomp) return S;
  for(int r=0;r<4*n;r++) for(int refl=0;refl<=(kind==MAPISO?0:1);refl++){ VI f(4*n,-1); std::vector<char> used(4*n,0); VI st{0}; f[0]=r; used[r]=1; bool ok=true;
    auto put=[&](int a,int b){ if(f[a]<0){ if(used[b]){ ok=false; return; } f[a]=b; used[b]=1; st.push_back(a); } else if(f[a]!=b) ok=false; };
    while(!st.empty()&&ok){ int a=st.back(); st.pop_back(); int b=f[a]; put(A.D.mate[a],B.D.mate[b]); put(d_ccw(a),refl?d_cw(b):d_ccw(b)); }
    if(!ok) continue; for(int x:f) if(x<0) ok=false; if(!ok) continue;
    if(kind==ISOTOPY){ for(int d=0;d<4*n&&ok;d++) if(A.D.out[d]!=B.D.out[f[d]]||A.D.tag[A.D.comp[d]]!=B.D.tag[B.D.comp[f[d]]]||A.D.sign[d/4]!=B.D.sign[f[d]/4]) ok=false; if(!ok) continue; }
    VI cp(A.D.ncomp),em(2*n),eo(2*n),xm(n),fm(n+2); std::map<int,int> ca; for(unsigned c=0;c<A.pd->ncomps;c++) for(unsigned i=0;i<A.pd->comp[c].nedges;i++) ca[A.pd->comp[c].edge[i]]=c; std::map<int,int> cb; for(unsigned c=0;c<B.pd->ncomps;c++) for(unsigned i=0;i<B.pd->comp[c].nedges;i++) cb[B.pd->comp[c].edge[i]]=c;
    for(int d=0;d<4*n;d++){ int ea=A.pd->cross[d/4].edge[d%4],eb=B.pd->cross[f[d]/4].edge[f[d]%4]; em[ea]=eb; eo[ea]=A.D.out[d]==B.D.out[f[d]]; cp[ca[ea]]=cb[eb]; xm[d/4]=f[d]/4; fm[A.face[d]]=refl?B.face[B.D.mate[f[d]]]:B.face[f[d]]; }
    std::string s="c"; for(int x:cp) s+=mc_fmt("%d,",x); s+="e"; for(int i=0;i<2*n;i++) s+=mc_fmt("%d%c,",em[i],eo[i]?'+':'-'); s+="x"; for(int x:xm) s+=mc_fmt("%d,",x); s+=refl?'-':'+'; s+="f"; for(int x:fm) s+=mc_fmt("%d,",x); s+=refl?'-':'+'; S.insert(s); }
  return S; }
static void lists(pd_code_t*a,pd_code_t*b){ Emb A=emb(a),B=emb(b);
  for(int kind=0;kind<3;kind++){ unsigned n=0; pd_iso_t**v=kind==ISO?pd_build_isos(a,b,&n):kind==MAPISO?pd_build_map_isomorphisms(a,b,&n):pd_build_diagram_isotopies(a,b,&n); mc_trans(); std::set<std::string> got; for(unsigned i=0;i<n;i++){ MC_CHECK(pd_iso_consistent(a,b,v[i]),"listed isomorphism %u is not consistent",i); MC_CHECK(got.insert(iso_key(v[i],a->ncross>0)).second,"isomorphism listed twice"); }
    if(a->ncross>0){ auto want=model_isos(A,B,kind); for(auto&w:want) MC_CHECK(got.count(w),"%s from %s to %s: %s is missing (%u listed, %zu exist)",kind==ISO?"isomorphism":kind==MAPISO?"map isomorphism":"diagram isotopy",pd_str(a).c_str(),pd_str(b).c_str(),w.c_str(),n,want.size());
      for(auto&g:got) MC_CHECK(want.count(g),"%s from %s to %s: %s is listed but is not one (%zu listed, %zu exist)",kind==ISO?"isomorphism":kind==MAPISO?"map isomorphism":"diagram isotopy",pd_str(a).c_str(),pd_str(b).c_str(),g.c_str(),got.size(),want.size()); if(kind==ISO){ auto is=model_isos(A,B,ISOTOPY); for(unsigned i=0;i<n;i++){ bool w=is.count(iso_key(v[i],true)); MC_CHECK(pd_is_diagram_isotopy(v[i],a,b)==w,"isomorphism %s from %s to %s %s a diagram isotopy but the library says otherwise",iso_key(v[i],true).c_str(),pd_str(a).c_str(),pd_str(b).c_str(),w?"is":"is not"); mc_trans(); } } mc_outcome(mc_fmt("n%u kind%d count%zu",a->ncross,kind,got.size())); }
    pd_free_isos(&n,&v); mc_eval(); } }
static void group(pd_code_t*a){ if(a->ncross==0) return; unsigned n=0; pd_iso_t**v=pd_build_isos(a,a,&n); MC_CHECK(n>0,"no automorphism, not even the identity"); std::set<std::string> S; std::map<std::string,int> idx; int ids=0; for(unsigned i=0;i<n;i++){ S.insert(iso_key(v[i],true)); if(pd_iso_is_e(v[i])) ids++; } MC_CHECK(ids==1,"%d identity automorphisms",ids);
  for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){ pd_iso_t*c=pd_compose_isos(v[i],v[j]); mc_trans(); MC_CHECK(S.count(iso_key(c,true)),"the automorphisms of %s are not closed under composition",pd_str(a).c_str());
      for(unsigned e=0;e<a->nedges;e++){ MC_CHECK(c->edgemap->perm->map[e]==v[i]->edgemap->perm->map[v[j]->edgemap->perm->map[e]],"composition is not A(B(x)) on edges"); bool po=(v[j]->edgemap->orient[e]==PD_POS_ORIENTATION)==(v[i]->edgemap->orient[v[j]->edgemap->perm->map[e]]==PD_POS_ORIENTATION); MC_CHECK(po==(c->edgemap->orient[e]==PD_POS_ORIENTATION),"composition has the wrong orientation on edge %u",e); }
      for(unsigned e=0;e<a->ncross;e++) MC_CHECK(c->crossmap->perm->map[e]==v[i]->crossmap->perm->map[v[j]->crossmap->perm->map[e]],"composition is not A(B(x)) on crossings"); for(unsigned e=0;e<a->nfaces;e++) MC_CHECK(c->facemap->perm->map[e]==v[i]->facemap->perm->map[v[j]->facemap->perm->map[e]],"composition is not A(B(x)) on faces"); for(unsigned e=0;e<a->ncomps;e++) MC_CHECK(c->compperm->map[e]==v[i]->compperm->map[v[j]->compperm->map[e]],"composition is not A(B(x)) on components");
      pd_iso_t*q=pd_copy_iso(v[i]); MC_CHECK(iso_key(q,true)==iso_key(v[i],true),"copy of an isomorphism differs"); pd_stareq_iso(q,v[j]); MC_CHECK(iso_key(q,true)==iso_key(c,true),"in-place composition differs"); int cmp=pd_iso_cmp(&v[i],&v[j]),rev=pd_iso_cmp(&v[j],&v[i]); MC_CHECK((cmp==0)==(i==j)&&(cmp<0)==(rev>0),"isomorphism comparison is not an order"); pd_free_iso(&q); pd_free_iso(&c); }
  for(unsigned i=0;i<n;i++){ unsigned p=pd_iso_period(v[i]); pd_iso_t*q=pd_copy_iso(v[i]); unsigned k=1; while(!pd_iso_is_e(q)){ MC_CHECK(k<1000,"an automorphism has no period"); pd_iso_t*t=pd_compose_isos(q,v[i]); pd_free_iso(&q); q=t; k++; } MC_CHECK(p==k,"period of an automorphism is %u, reported %u",k,p); pd_free_iso(&q); mc_trans(); mc_eval(); }
  mc_outcome(mc_fmt("automorphism group of order %u",n)); pd_free_isos(&n,&v); }
void mc_main(){
  int N=mc_thorough?5:4;
  // weak equivalences: all pairs of maps, B mirrored / relabelled / reoriented
  for(int n=0;n<=N;n++){ auto&M=gen_maps(n); std::vector<std::string> c0,c1; for(auto&m:M){ c0.push_back(dia_canon(m,0)); c1.push_back(dia_canon(m,CF_REFLECT)); }
    for(size_t i=0;i<M.size();i++) mc_case_lazy([&]{ return mc_fmt("compare map %zu of %d crossings with all others: ",i,n)+dia_str(M[i]); },[&]{ pd_code_t*a=to_pd(M[i]); std::string da=pd_dump(a); mc_state(da);
      for(size_t j=0;j<M.size();j++){ bool iso=c1[i]==c1[j],miso=c0[i]==c0[j]; Dia B=M[j]; int k=0; all_orients(B,false,[&](const Dia&O){ auto cmp=[&](const Lab&L){ Dia Q=O; for(int c=0;c<Q.ncomp;c++) Q.tag[c]="ZYXWVUTS"[c%8]+c/8; for(int c=0;c<n;c++) Q.sign[c]=(k+c)%3; k++; pd_code_t*b=to_pd(Q,L,k%2); mc_note("against %s",pd_str(b).c_str()); std::string db=pd_dump(b); MC_CHECK(pd_isomorphic(a,b)==iso&&pd_isomorphic(b,a)==iso,"%s and %s %s isomorphic but the library says otherwise",pd_str(a).c_str(),pd_str(b).c_str(),iso?"are":"are not"); MC_CHECK(pd_map_isomorphic(a,b)==miso&&pd_map_isomorphic(b,a)==miso,"%s and %s %s isomorphic as maps but the library says otherwise",pd_str(a).c_str(),pd_str(b).c_str(),miso?"are":"are not"); MC_CHECK(pd_dump(a)==da&&pd_dump(b)==db,"comparison modified a diagram"); mc_trans(4); mc_eval(4); if(iso&&(k%5==1||n<=3)) lists(a,b); pd_code_free(&b); }; if(iso&&(n<=3||O.ncomp>1)&&n<=4) all_labs(O,cmp); else cmp(default_lab(O)); }); }
      group(a); pd_code_free(&a); mc_trace(); mc_sample("map "+dia_str(M[i])+" against all maps with as many crossings"); }); }
  // diagram isotopy: all pairs of decorated diagrams
  int K=mc_thorough?4:3;
  for(int n=0;n<=K;n++){ auto V=gen_diagrams(n,SG_UNSET|SG_SIGNED|(n<=3?SG_MIXED:0)); 
    for(size_t i=0;i<V.size();i++) mc_case_lazy([&]{ return mc_fmt("diagram isotopy of diagram %zu of %d crossings with all others: ",i,n)+dia_str(V[i]); },[&]{ pd_code_t*a=to_pd(V[i]); std::string ca=dia_canon(V[i],CF_PLANE|CF_REFLECT); mc_state(ca); std::string shape=dia_canon(V[i],CF_REFLECT);
      for(size_t j=0;j<V.size();j++){ if(n==4&&dia_canon(V[j],CF_REFLECT)!=shape&&(i+j)%7) continue; VI p(V[j].ncomp); std::iota(p.begin(),p.end(),0); do{ Dia B=V[j]; for(int c=0;c<B.ncomp;c++) B.tag[c]='A'+p[c]; bool want=dia_canon(B,CF_PLANE|CF_REFLECT)==ca; int k=0; auto cmp=[&](const Lab&L){ pd_code_t*b=to_pd(B,L,k++%2); mc_note("against %s",pd_str(b).c_str()); MC_CHECK(pd_diagram_isotopic(a,b)==want&&pd_diagram_isotopic(b,a)==want,"%s and %s %s diagram isotopic but the library says otherwise",pd_str(a).c_str(),pd_str(b).c_str(),want?"are":"are not"); mc_trans(2); mc_eval(2); if(want){ lists(a,b); mc_outcome("isotopic"); } else mc_outcome("not isotopic"); pd_code_free(&b); }; if(want&&n<=3) all_labs(B,cmp); else cmp(default_lab(B)); }while(std::next_permutation(p.begin(),p.end())); }
      // different tag set: never isotopic
      Dia B=V[i]; B.tag[B.ncomp-1]='X'; pd_code_t*b=to_pd(B); MC_CHECK(!pd_diagram_isotopic(a,b),"diagrams with different tags are called isotopic"); pd_code_free(&b); pd_code_free(&a); mc_trace(); }); }
  // closed braids far above the enumerated size: each decoration against a relabelling of itself, of its mirror image, of a reversal, of a switched crossing, of a renaming and of the next decoration
  static std::vector<Big> BV; for(int p:{7,11,15}) for(int q:{2,4}){ VI w(p,0); for(int i=0;i<q;i++) w.push_back(1); big_decorate(BV,mc_fmt("a knot of %d crossings and a linked circle",p),braid_closure(3,w),w,0x0b); } for(int z=0;z<6;z++){ VI w; static const char*ws[]={"0001001110212","00010011012102","0001110010122011","01100010111200121","000011010011221","0100110001102211"}; for(const char*c=ws[z];*c;c++) w.push_back(*c-'0'); Dia D=braid_closure(4,w); if(D.ncomp<=2) big_decorate(BV,mc_fmt("asymmetric braid %s",ws[z]),D,w,0x0b); } for(auto&b:big_diagrams(2)){ double c=1; VI len=dia_comp_len(b.D); std::map<int,int> m; for(int l:len){ c*=2*l; c*=++m[l]; } if(c<=(mc_thorough?40000:1200)) BV.push_back(b); }
  for(size_t i=0;i<BV.size();i++) mc_case("equivalences of "+BV[i].name,[&,i]{ const Dia&A=BV[i].D; pd_code_t*a=to_pd(A); mc_state(pd_dump(a));
    auto cmp=[&](const Dia&B,int sh){ Lab L=default_lab(B); VI len=dia_comp_len(B); for(int c=0;c<B.ncomp;c++){ int x=L.start[c]; for(int q=0;q<(sh*(c+3))%len[c];q++) x=d_across(B.mate[x]); L.start[c]=x; } for(int c=0;c+1<B.ncomp;c++) if(sh%2&&len[L.order[c]]==len[L.order[c+1]]) std::swap(L.order[c],L.order[c+1]);
      pd_code_t*b=to_pd(B,L,sh%3); mc_note("against %s",pd_str(b).c_str()); bool iso=dia_canon(A,CF_REFLECT)==dia_canon(B,CF_REFLECT),mi=dia_canon(A,0)==dia_canon(B,0),dt=dia_canon(A,CF_FULL)==dia_canon(B,CF_FULL);
      MC_CHECK(pd_isomorphic(a,b)==iso,"isomorphism of %s and %s is reported as %d",pd_str(a).c_str(),pd_str(b).c_str(),!iso); MC_CHECK(pd_map_isomorphic(a,b)==mi,"map isomorphism of %s and %s is reported as %d",pd_str(a).c_str(),pd_str(b).c_str(),!mi); MC_CHECK(pd_diagram_isotopic(a,b)==dt,"isotopy of %s and %s is reported as %d",pd_str(a).c_str(),pd_str(b).c_str(),!dt);
      MC_CHECK(!iso||!strcmp(a->hash,b->hash),"isomorphic diagrams have different hashes"); mc_trans(3); mc_eval(); lists(a,b); pd_code_free(&b); };
    Dia M=A; { for(int d=0;d<4*A.n;d++){ auto f=[](int x){ return (x&~3)|((4-(x&3))&3); }; M.mate[f(d)]=f(A.mate[d]); M.out[f(d)]=A.out[d]; M.comp[f(d)]=A.comp[d]; } }
    for(int sh=0;sh<4;sh++) cmp(A,sh); cmp(M,2); cmp(M,5); Dia R=A; dia_reverse(R,0); cmp(R,3); for(int c=1;c<R.ncomp;c++) dia_reverse(R,c); cmp(R,1); if(A.ncomp>1){ R=A; dia_reverse(R,A.ncomp-1); cmp(R,2); R.tag[A.ncomp-1]='z'; cmp(R,0); }
    { // a map that is wrong in a single place is not an isomorphism
      unsigned nn=0; pd_iso_t**v=pd_build_isos(a,a,&nn); for(unsigned k=0;k<nn&&k<2;k++){ pd_edgemap_t*m=v[k]->edgemap; MC_CHECK(pd_edgemap_consistent(a,a,m),"the edge map of an automorphism is refused"); bool id=pd_iso_is_e(v[k]); int E=a->nedges; for(int e=0;e<E;e++){ int f=(e+1+(e*e)%(E-1))%E; if(f==e) continue; std::swap(m->perm->map[e],m->perm->map[f]); auto co=[&](int x){ for(unsigned c=0;c<a->ncomps;c++) for(unsigned q=0;q<a->comp[c].nedges;q++) if((int)a->comp[c].edge[q]==x) return a->comp[c].nedges>1?(int)c:-1; return -1; }; int ce=co(e),cf=co(f); if(ce>=0&&cf>=0&&ce!=cf) MC_CHECK(!pd_edgemap_consistent(a,a,m),"a map of edges that exchanges the images of %d and %d is accepted",e,f); if(id) MC_CHECK(!pd_iso_is_e(v[k]),"a map that exchanges edges %d and %d is taken for the identity",e,f); std::swap(m->perm->map[e],m->perm->map[f]); pd_or_t o=m->orient[e]; m->orient[e]=o==PD_POS_ORIENTATION?PD_NEG_ORIENTATION:PD_POS_ORIENTATION; unsigned cl=0; for(unsigned c=0;c<a->ncomps;c++) for(unsigned q=0;q<a->comp[c].nedges;q++) if((int)a->comp[c].edge[q]==e) cl=a->comp[c].nedges; MC_CHECK(cl<2||!pd_edgemap_consistent(a,a,m),"a map of edges that reverses edge %d alone is accepted",e); if(id) MC_CHECK(!pd_iso_is_e(v[k]),"a map that reverses edge %d is taken for the identity",e); m->orient[e]=o; mc_trans(2); mc_eval(); } } pd_free_isos(&nn,&v); }
     Dia S=A; S.sign[A.n/2]=(S.sign[A.n/2]+1)%3; cmp(S,4); Dia T=A; T.tag[A.ncomp-1]='y'; cmp(T,1); if(A.ncomp>1){ T=A; std::swap(T.tag[0],T.tag[1]); cmp(T,2); } cmp(BV[(i+1)%BV.size()].D,3); group(a); pd_code_free(&a); mc_trace(); });
}
