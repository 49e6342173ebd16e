// D18: classification returns exactly the tabulated knot types with the HOMFLY polynomial of the input; knot type text round-trips.
#include "pdmodel.hpp"
#include "geom.hpp"
#include "rngscript.hpp"
#include "rolfsen.hpp"
#include <set>
extern "C" void set_pd_code_from_plCurve_debug(bool val);
typedef std::vector<std::string> Types;        // sorted list of knot type names
static Dia rolf_dia(const char*pd){ std::vector<int> v; int k,o; while(sscanf(pd," %d%n",&k,&o)==1){ v.push_back(k); pd+=o; } Dia D; D.n=v.size()/4; int m=2*D.n; D.mate.assign(4*D.n,-1); D.out.assign(4*D.n,0); D.sign.assign(D.n,PD_POS_ORIENTATION); D.comp.assign(4*D.n,0); D.ncomp=1; D.tag={'A'}; std::map<int,int> at;
  for(int d=0;d<4*D.n;d++){ auto it=at.find(v[d]); if(it==at.end()) at[v[d]]=d; else { D.mate[d]=it->second; D.mate[it->second]=d; } }
  for(int c=0;c<D.n;c++){ D.out[4*c+2]=1; int j=v[4*c+1],l=v[4*c+3]; if(l==j%m+1) D.out[4*c+3]=1; else D.out[4*c+1]=1; int oi,oo,ui,uo; dia_strands(D,c,oi,oo,ui,uo); if(ui!=4*c) D.sign[c]=PD_NEG_ORIENTATION; }
  return D; }
static Dia dmirror(Dia D){ for(auto&s:D.sign) s=s==PD_POS_ORIENTATION?PD_NEG_ORIENTATION:PD_POS_ORIENTATION; return D; }
static Poly pmirror(const Poly&p){ Poly r; for(auto&t:p) r[{-t.first.first,t.first.second}]=t.second; return r; }
static Dia consum(const Dia&A,const Dia&B,int ea,int eb){ Dia D=A; D.n+=B.n; for(int x:B.mate) D.mate.push_back(x+4*A.n); for(char o:B.out) D.out.push_back(o); for(int s:B.sign) D.sign.push_back(s); for(size_t i=0;i<B.comp.size();i++) D.comp.push_back(0); int x1=-1,x2=-1; for(int d=0,k=0;d<4*A.n;d++) if(A.out[d]&&k++==ea) x1=d; for(int d=0,k=0;d<4*B.n;d++) if(B.out[d]&&k++==eb) x2=d+4*A.n; int y1=D.mate[x1],y2=D.mate[x2]; D.mate[x1]=y2; D.mate[y2]=x1; D.mate[x2]=y1; D.mate[y1]=x2; return D; }
struct Ty{ int cr,ind; std::string tag; int k; bool mir; };   // k: index in rolfsen[], mir: polynomial is the mirror of the code's
static std::vector<Ty> types; static std::vector<Dia> RD; static std::vector<Poly> RP; static std::map<Poly,Types> expect; struct Comp{ std::vector<int> t; }; static std::vector<Comp> comps;
static std::string tname(const std::vector<int>&t){ std::vector<std::string> v; for(int i:t) v.push_back(mc_fmt("%d_%d%s",types[i].cr,types[i].ind,types[i].tag.c_str())); std::sort(v.begin(),v.end()); std::string s; for(auto&x:v) s+=(s.empty()?"":"#")+x; return s; }
static Poly tpoly(const std::vector<int>&t){ Poly p; p[{0,0}]=1; for(int i:t) p=p_mul(p,types[i].mir?pmirror(RP[types[i].k]):RP[types[i].k]); return p; }
static void setup(){
  int K=sizeof rolfsen/sizeof*rolfsen; for(int k=0;k<K;k++){ RD.push_back(rolf_dia(rolfsen[k].pd)); if(!dia_planar(RD[k])) mc_fail("bad reference diagram %d",k); RP.push_back(dia_homfly(RD[k])); const char*c=rolfsen[k].types; while(*c){ std::string t; while(*c!=')') t+=*c++; t+=*c++; types.push_back({rolfsen[k].cr,rolfsen[k].ind,t,k,(t[1]=='-')!=(rolfsen[k].flip!=0)}); } }
  Poly one; one[{0,0}]=1; expect[one].push_back("0_1(1,1,e)"); std::vector<int> cur;
  std::function<void(size_t,int)> rec=[&](size_t i,int tot){ if(!cur.empty()){ expect[tpoly(cur)].push_back(tname(cur)); if(cur.size()>1) comps.push_back({cur}); } for(size_t j=i;j<types.size();j++) if(tot+types[j].cr<=12){ cur.push_back(j); rec(j,tot+types[j].cr); cur.pop_back(); } }; rec(0,0);
  for(auto&e:expect) std::sort(e.second.begin(),e.second.end()); }
static std::string join(const Types&t){ std::string s; for(auto&x:t) s+=x+" "; return s.empty()?"(none)":s; }
static Types got(plc_knottype*kt,int n,std::string&why){ Types r; if((kt==NULL)!=(n==0)||n<0){ why=mc_fmt("%d types but %s buffer",n,kt?"a":"no"); return r; } for(int i=0;i<n;i++){ if(kt[i].nf<1||kt[i].nf>MAXPRIMEFACTORS){ why="bad factor count"; return r; } std::vector<std::string> v; for(int j=0;j<kt[i].nf;j++) v.push_back(mc_fmt("%d_%d%s",kt[i].cr[j],kt[i].ind[j],kt[i].sym[j])); std::sort(v.begin(),v.end()); std::string s; for(auto&x:v) s+=(s.empty()?"":"#")+x; r.push_back(s); if(strcmp(kt[i].homfly,kt[0].homfly)) why="types with different polynomials"; } std::sort(r.begin(),r.end()); return r; }
static void check(const Dia&D,const Poly&p,const char*what){ pd_code_t*pd=to_pd(D); std::string b=pd_dump(pd); mc_note("classify %s %s",what,pd_str(pd).c_str()); mc_state(b); int n=-1; plc_knottype*kt=pd_classify(pd,&n); mc_trans(); mc_eval(); std::string why; Types g=got(kt,n,why); MC_CHECK(why.empty(),"classification of %s: %s",pd_str(pd).c_str(),why.c_str()); MC_CHECK(pd_dump(pd)==b,"pd_classify changed its input");
  auto it=expect.find(p); Types w; if(it!=expect.end()) w=it->second; MC_CHECK(g==w,"%s %s was classified as %s, but the tabulated types with its HOMFLY polynomial are %s",what,pd_str(pd).c_str(),join(g).c_str(),join(w).c_str()); mc_outcome(mc_fmt("%zu types",w.size())); free(kt); pd_code_free(&pd); }
static void text(const plc_knottype&k){ char*buf=NULL; size_t sz=0; FILE*f=open_memstream(&buf,&sz); plc_write_knottype(f,k); fclose(f); mc_note("text %s",buf); plc_knottype*r=plc_read_knottype(buf); mc_trans(); mc_eval(); MC_CHECK(r,"plc_read_knottype refused %s",buf); MC_CHECK(r->nf==k.nf,"%s read back with %d factors",buf,r->nf); for(int j=0;j<k.nf;j++) MC_CHECK(r->cr[j]==k.cr[j]&&r->ind[j]==k.ind[j],"factor %d of %s read back as %d_%d",j,buf,r->cr[j],r->ind[j]); free(r); free(buf); }
static const int nprime[]={1,0,0,1,1,2,3,7,21,49,165,552,2176,9988,46972,253293,1388705,8053393,48266466,294130458};
static void texts(){
  int M=mc_thorough?4:3; // every single factor cr -2..22, index around each bound
  auto one=[&](int c,int i){ return c>=0&&c<20&&i>=1&&i<=nprime[c]; };
  std::vector<std::pair<int,int>> f; for(int c=-2;c<=22;c++){ std::set<int> I{-1,0,1,2,3}; if(c>=0&&c<20) for(int d=-1;d<=1;d++) I.insert(nprime[c]+d); for(int i:I) f.push_back({c,i}); }
  auto chk=[&](const std::string&s,const std::vector<std::pair<int,int>>&w,bool ok){ mc_note("read %s",s.c_str()); mc_state(s); plc_knottype*r=plc_read_knottype(s.c_str()); mc_trans(); mc_eval(); MC_CHECK((r!=NULL)==ok,"plc_read_knottype(\"%s\") %s",s.c_str(),r?"accepted it":"refused it"); if(r){ MC_CHECK(r->nf==(int)w.size(),"\"%s\" has %d factors",s.c_str(),r->nf); for(size_t j=0;j<w.size();j++) MC_CHECK(r->cr[j]==w[j].first&&r->ind[j]==w[j].second,"factor %zu of \"%s\" read as %d_%d",j,s.c_str(),r->cr[j],r->ind[j]); free(r); } mc_outcome(ok?"accepted":"refused"); };
  for(auto&a:f) chk(mc_fmt("%d_%d",a.first,a.second),{a},one(a.first,a.second));
  for(auto&a:f) for(auto&b:f) chk(mc_fmt("%d_%d#%d_%d",a.first,a.second,b.first,b.second),{a,b},one(a.first,a.second)&&one(b.first,b.second));
  for(int k=1;k<=13;k++) for(int bad=-1;bad<k;bad++){ std::string s; std::vector<std::pair<int,int>> w; for(int j=0;j<k;j++){ std::pair<int,int> a{3+j%8,1}; if(j==bad) a.second=999; w.push_back(a); s+=mc_fmt("%s%d_%d",j?"#":"",a.first,a.second); } chk(s,w,bad<0&&k<=MAXPRIMEFACTORS); }
  // every short string over a small alphabet: no factor, no crash
  const char al[]="3_1# x"; int A=6; for(int len=0;len<=M+2;len++){ long N=1; for(int i=0;i<len;i++) N*=A; for(long q=0;q<N;q++){ std::string s; long z=q; for(int i=0;i<len;i++){ s+=al[z%A]; z/=A; } mc_note("read '%s'",s.c_str()); plc_knottype*r=plc_read_knottype(s.c_str()); mc_trans(); bool dig=s.find_first_of("31")!=std::string::npos; if(r){ MC_CHECK(dig&&s.find('_')!=std::string::npos&&r->nf>=1,"plc_read_knottype accepted \"%s\"",s.c_str()); for(int j=0;j<r->nf;j++) MC_CHECK(one(r->cr[j],r->ind[j]),"\"%s\" read as a missing knot %d_%d",s.c_str(),r->cr[j],r->ind[j]); free(r); } } }
  mc_trace(); }
static void polygon(const Poly3&L){ Proj R; if(!generic_view(L,R)||R.bare||!R.connected||R.D.n>9){ mc_count("skipped",1); return; } Poly p=R.D.n?proj_homfly(R):Poly{{{0,0},1}}; plCurve*C=to_plc(L); std::string s=p3_str(L); mc_note("plc_classify %s",s.c_str()); mc_state(s); gsl_rng*g=rs_new({},7); int n=-1; plc_knottype*kt=plc_classify(g,C,&n); mc_trans(); mc_eval(); std::string why; Types t=got(kt,n,why); MC_CHECK(why.empty(),"classification of %s: %s",s.c_str(),why.c_str()); auto it=expect.find(p); MC_CHECK(it!=expect.end()&&t==it->second,"polygon %s was classified as %s, but the tabulated types with its polynomial are %s",s.c_str(),join(t).c_str(),it==expect.end()?"?":join(it->second).c_str()); mc_outcome("polygon "+t[0]); free(kt); gsl_rng_free(g); plc_free(C); }
void mc_main(){
  setup(); mc_count("reference types",types.size()+1+comps.size());
  for(size_t k=0;k<RD.size();k++) mc_case(mc_fmt("rolfsen %d_%d",rolfsen[k].cr,rolfsen[k].ind),[=]{ for(int m=0;m<2;m++){ Dia D=m?dmirror(RD[k]):RD[k]; Poly p=m?pmirror(RP[k]):RP[k]; check(D,p,"reference diagram"); Dia E=D; dia_reverse(E,0); check(E,p,"reversed reference diagram"); int st=0; for(int x=0;x<4*D.n;x++) if(D.out[x]&&(mc_thorough||st++%5==0)) for(int l=0;l<2;l++) for(int s=0;s<2;s++) check(m_r1add(D,x,l,s?PD_POS_ORIENTATION:PD_NEG_ORIENTATION),p,"reference diagram with a kink"); } mc_trace(); });
  for(size_t i=0;i<comps.size();i++) mc_case("composite "+tname(comps[i].t),[=]{ const std::vector<int>&t=comps[i].t; for(int v=0;v<(mc_thorough?6:2);v++){ Dia D=types[t[0]].mir?dmirror(RD[types[t[0]].k]):RD[types[t[0]].k]; if(types[t[0]].tag[3]=='-'||types[t[0]].tag[4]=='-') dia_reverse(D,0); for(size_t j=1;j<t.size();j++){ Dia E=types[t[j]].mir?dmirror(RD[types[t[j]].k]):RD[types[t[j]].k]; D=consum(D,E,(3*v+1)%(2*D.n),(v*v+2*v)%(2*E.n)); } check(D,tpoly(t),"connected sum"); } mc_trace(); });
  int N=mc_thorough?6:5; for(int n=0;n<=N;n++){ auto&M=gen_maps(n); for(size_t i=0;i<M.size();i++) if(M[i].ncomp==1) mc_case(mc_fmt("diagrams on map %d:%zu",n,i),[=]{ all_signs(gen_maps(n)[i],SG_SIGNED,[&](const Dia&D){ check(D,n?dia_homfly(D):Poly{{{0,0},1}},"diagram"); }); mc_trace(); }); }
  if(mc_deep) { int n=7; auto&M=gen_maps(n); for(size_t i=0;i<M.size();i++) if(M[i].ncomp==1) mc_case(mc_fmt("diagrams on map %d:%zu",n,i),[=]{ all_signs(gen_maps(n)[i],SG_SIGNED,[&](const Dia&D){ check(D,dia_homfly(D),"diagram"); }); mc_trace(); }); }
  // polygons on points in convex-ish general position with all height orders
  { static const int px[]={0,10,13,6,-5,-8,3},py[]={0,1,9,14,12,5,-6}; int mx=mc_thorough?7:6; for(int k=3;k<=mx;k++){ VI o(k); std::iota(o.begin(),o.end(),0); std::vector<VI> ords; do{ if(o[0]==0&&o[1]<o[k-1]) ords.push_back(o); }while(std::next_permutation(o.begin(),o.end())); for(size_t a=0;a<ords.size();a++) mc_case(mc_fmt("polygon %d:%zu",k,a),[=]{ VI h(k); std::iota(h.begin(),h.end(),0); long q=0; do{ if(k<=5||q++%(k==6?(mc_thorough?5:20):701)==0){ Poly3 L(1); for(int i=0;i<k;i++) L[0].push_back({px[ords[a][i]]*4,py[ords[a][i]]*4,h[i]*h[i]*5+h[i]*3}); polygon(L); } }while(std::next_permutation(h.begin(),h.end())); mc_trace(); }); } }
  mc_case("text of every type",[=]{ auto fill=[&](const std::vector<int>&t){ plc_knottype k; memset(&k,0,sizeof k); k.nf=t.size(); for(size_t j=0;j<t.size();j++){ k.cr[j]=types[t[j]].cr; k.ind[j]=types[t[j]].ind; } strcpy(k.homfly,"[-1 0 [2]]N[0]N[1]N "); text(k); }; for(size_t i=0;i<types.size();i++) fill({(int)i}); for(auto&c:comps) fill(c.t); int n; pd_code_t*pd=pd_build_unknot(3); plc_knottype*kt=pd_classify(pd,&n); MC_CHECK(kt&&n==1,"unknot"); text(kt[0]); free(kt); pd_code_free(&pd); mc_trace(); });
  mc_case("knot type strings",[]{ texts(); });
}
