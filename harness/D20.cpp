// D20: splitting a disconnected diagram returns exactly its connected pieces.
#include "pdmodel.hpp"
#include "big.hpp"
extern "C" {
#include "pd_splitdiagram.h"
}
// disjoint union in one record: crossings interleaved by rotation rot, components in the order given by perm, edges numbered in that order
static void check(const std::vector<const Dia*>&parts,const std::vector<VI>&orders,int rot){
  int n=0,k=0; std::vector<std::pair<int,int>> comps; std::vector<char> tags; int ne=0; for(size_t i=0;i<parts.size();i++){ n+=parts[i]->n; for(int c=0;c<parts[i]->ncomp;c++) comps.push_back({(int)i,c}); ne+=parts[i]->n?2*parts[i]->n:1; } k=comps.size(); (void)tags;
  for(auto&ord:orders){
    pd_code_t*pd=pd_code_new(std::max(n,1)+2*k+2); pd->ncross=n; pd->nedges=ne; pd->ncomps=k; pd->nfaces=0; pd->uid=0;
    VI base(parts.size()); int b=0; for(size_t i=0;i<parts.size();i++){ base[i]=b; b+=parts[i]->n; } auto cidx=[&](int i,int c){ return (base[i]+c+rot)%std::max(n,1); };
    int e=0,ci=0; for(int o:ord){ int i=comps[o].first,c=comps[o].second; const Dia&D=*parts[i]; pd_component_t*C=&pd->comp[ci++]; C->tag='A'+o; 
      if(D.n==0){ C->nedges=1; C->edge=(pd_idx_t*)calloc(1,sizeof(pd_idx_t)); C->edge[0]=e; pd->edge[e].head=pd->edge[e].tail=PD_UNSET_IDX; pd->edge[e].headpos=pd->edge[e].tailpos=PD_UNSET_POS; e++; continue; }
      VI len=dia_comp_len(D); C->nedges=len[c]; C->edge=(pd_idx_t*)calloc(len[c],sizeof(pd_idx_t)); int st=-1; for(int d=0;d<4*D.n;d++) if(D.out[d]&&D.comp[d]==c){ st=d; break; } int x=st; for(int q=0;q<len[c];q++){ C->edge[q]=e; int y=D.mate[x]; pd->edge[e].tail=cidx(i,x/4); pd->edge[e].tailpos=x%4; pd->edge[e].head=cidx(i,y/4); pd->edge[e].headpos=y%4; pd->cross[cidx(i,x/4)].edge[x%4]=e; pd->cross[cidx(i,y/4)].edge[y%4]=e; x=d_across(y); e++; } }
    for(size_t i=0;i<parts.size();i++) for(int c=0;c<parts[i]->n;c++) pd->cross[cidx(i,c)].sign=parts[i]->sign[c];
    Pieces W; int o=0; for(size_t i=0;i<parts.size();i++){ Dia D=*parts[i]; for(int c=0;c<D.ncomp;c++) D.tag[c]='A'+o++; if(D.n) W.d.push_back(D); else W.circles.push_back(D.tag[0]); }
    std::string ds=pd_str(pd),before=pd_dump(pd); mc_note("split %s",ds.c_str()); mc_state(before); pd_code_t**ch=NULL; pd_idx_t nc=pd_split_diagram(pd,&ch); mc_trans(); mc_eval();
    MC_CHECK(nc==parts.size(),"split of %s gave %u pieces, expected %zu",ds.c_str(),nc,parts.size()); MC_CHECK(pd_dump(pd)==before,"split modified its input");
    Pieces G; for(unsigned i=0;i<nc;i++){ CHECK_VALID(ch[i],"split piece %u of %s",i,ds.c_str()); Dia R=from_pd(ch[i]); for(unsigned c=1;c<ch[i]->ncomps;c++) MC_CHECK(ch[i]->comp[c-1].nedges>=ch[i]->comp[c].nedges,"piece %u components are not longest first",i); if(R.n) G.d.push_back(R); else G.circles.push_back(R.tag[0]); }
    MC_CHECK(pieces_canon(G,CF_PLANE)==pieces_canon(W,CF_PLANE),"split of %s returned different pieces",ds.c_str()); mc_outcome(mc_fmt("%zu pieces %zu circles",parts.size(),W.circles.size()));
    for(unsigned i=0;i<nc;i++) pd_code_free(&ch[i]); free(ch); pd_code_free(&pd); }
  mc_trace(); }
static std::vector<VI> perms(int k,int cap){ VI p(k); std::iota(p.begin(),p.end(),0); std::vector<VI> r; do{ r.push_back(p); }while((int)r.size()<cap&&std::next_permutation(p.begin(),p.end())); return r; }
void mc_main(){
  int N=mc_thorough?4:3; std::vector<Dia> S; for(int n=0;n<=N;n++) for(auto&D:gen_diagrams(n,n<=2?(SG_SIGNED|SG_UNSET):SG_SIGNED)) if(n<3||n>3? true: (S.size()<60||mc_thorough)) S.push_back(D); for(auto&M:gen_maps(N+1)) S.push_back(M);
  auto run=[&](std::vector<const Dia*> v){ int k=0,n=0; for(auto p:v){ k+=p->ncomp; n+=p->n; } mc_case_lazy([&]{ std::string s="split "; for(auto p:v) s+=dia_str(*p)+" + "; return s; },[&]{ auto P=perms(k,mc_thorough?720:24); for(int r=0;r<std::min(3,std::max(1,n));r++) check(v,P,r); mc_sample("split of a union of "+mc_fmt("%zu pieces",v.size())); }); };
  for(auto&A:S) run({&A}); size_t lim=mc_thorough?400:120; for(size_t i=0;i<S.size()&&i<lim;i++) for(size_t j=i;j<S.size()&&j<lim;j++) run({&S[i],&S[j]});
  size_t l3=mc_thorough?30:17; for(size_t i=0;i<l3;i++) for(size_t j=i;j<l3;j++) for(size_t k=j;k<l3;k++) run({&S[i],&S[j],&S[k]});
  // closed braids far above the enumerated size
  static std::vector<Big> BV=big_diagrams(mc_thorough?2:1,mc_thorough?31:0x19); static Dia circ; circ.n=0; dia_components(circ);
  auto orders=[](int k){ std::vector<VI> R; VI a(k),b,c; std::iota(a.begin(),a.end(),0); b=a; std::reverse(b.begin(),b.end()); for(int s=0;s<3;s++) for(int i=s;i<k;i+=3) c.push_back(i); R={a,b,c}; std::rotate(c.begin(),c.begin()+c.size()/2,c.end()); R.push_back(c); return R; };
  auto big=[&](std::vector<const Big*> v,int circles){ std::string s="split of"; int k=circles; for(auto b:v){ s+=" + "+b->name; k+=b->D.ncomp; } if(k>50) return; mc_case(s+mc_fmt(" + %d circles",circles),[=]{ std::vector<const Dia*> P; for(auto b:v) P.push_back(&b->D); for(int i=0;i<circles;i++) P.insert(P.begin()+(i%2?P.size():0),&circ); for(int r:{0,1,7}) check(P,orders(k),r); }); };
  // many pieces
  for(int k:{7,12,19,21,30,45}) for(int v=0;v<4;v++) mc_case(mc_fmt("split of %d pieces, kind %d",k,v),[&,k,v]{ std::vector<const Dia*> P; int comps=0; for(int i=0;comps<k;i++){ const Dia*d=v==0?&circ:v==1?&S[(i*5+1)%S.size()]:v==2?(i%4==3?&BV[i%BV.size()].D:&circ):&S[i%7]; if(d->ncomp+comps>50||d->n>40) { d=&circ; } P.push_back(d); comps+=d->ncomp; } for(int r:{0,1,5}) check(P,orders(comps),r); });
  for(size_t i=0;i<BV.size();i++){ big({&BV[i]},0); big({&BV[i]},2); for(size_t j=1;j<=(mc_thorough?8u:3u);j++) big({&BV[i],&BV[(i+j*j)%BV.size()]},0); big({&BV[i],&BV[(i+2)%BV.size()],&BV[(i+5)%BV.size()]},1); big({&BV[i],&BV[(i+3)%BV.size()],&BV[(i+1)%BV.size()],&BV[(i+8)%BV.size()]},3); }
}
