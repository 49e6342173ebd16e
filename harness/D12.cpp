// D12: copying, reorienting and renumbering: every history of these operations up to the bound.
#include "pdmodel.hpp"
#include "big.hpp"
struct Op{ int kind; unsigned c; unsigned k; }; // 0 copy, 1 copy_newsize(+k), 2 reorient NEG, 3 reorient POS, 4 renumber k
static Lab lab_of(const pd_code_t*pd,const Dia&D){ Lab L; L.order.resize(D.ncomp); std::iota(L.order.begin(),L.order.end(),0); L.start.assign(D.ncomp,-1); if(D.n) for(int c=0;c<D.ncomp;c++){ unsigned e=pd->comp[c].edge[0]; L.start[c]=4*pd->edge[e].tail+pd->edge[e].tailpos; } return L; }
static std::string describe(const std::vector<Op>&h){ std::string s; for(auto&o:h) s+=mc_fmt("%s(%u,%u) ",o.kind==0?"copy":o.kind==1?"copy_newsize":o.kind==2?"reverse":o.kind==3?"keep":"renumber",o.c,o.k); return s; }
static void apply(pd_code_t*&pd,const Op&o,const std::vector<Op>&h){
  Dia D=from_pd(pd); Lab L=lab_of(pd,D); std::string before=pd_dump(pd); std::string at=pd_str(pd);
  mc_note("history %s on %s",describe(h).c_str(),at.c_str()); mc_trans(); mc_eval();
  if(o.kind<=1){ pd_code_t*q=o.kind==0?pd_copy(pd):pd_copy_newsize(pd,pd->ncross+o.k-2); CHECK_VALID(q,"copy"); MC_CHECK(pd_dump(pd)==before,"copy modified the original"); MC_CHECK(pd_dump(q)==before,"copy differs: %s vs %s",before.c_str(),pd_dump(q).c_str()); MC_CHECK(memcmp(q->hash,pd->hash,PD_HASHSIZE)==0,"copy hash differs");
    // deep: releasing the original must leave the copy intact
    MC_CHECK(q!=pd&&q->comp!=pd->comp&&q->edge!=pd->edge&&q->face!=pd->face&&(D.n==0||q->cross!=pd->cross),"copy shares memory"); pd_code_free(&pd); MC_CHECK(pd==NULL,"free does not clear the pointer"); MC_CHECK(pd_dump(q)==before,"copy changed when the original was released"); pd=q; mc_outcome("copy"); return; }
  if(o.kind==3){ pd_reorient_component(pd,o.c,PD_POS_ORIENTATION); MC_CHECK(pd_dump(pd)==before,"keeping the orientation of %u changed %s",o.c,at.c_str()); mc_outcome("kept"); return; }
  if(o.kind==2){ pd_reorient_component(pd,o.c,PD_NEG_ORIENTATION); CHECK_VALID(pd,"reorient"); Dia E=D; if(D.n){ dia_reverse(E,o.c); for(int c=0;c<E.n;c++) if(E.sign[c]!=PD_UNSET_ORIENTATION){ bool a=E.comp[4*c]==(int)o.c,b=E.comp[4*c+1]==(int)o.c; if(a!=b) E.sign[c]=E.sign[c]==PD_POS_ORIENTATION?PD_NEG_ORIENTATION:PD_POS_ORIENTATION; } }
    Dia R=from_pd(pd); MC_CHECK(dia_canon(R,CF_PLANE)==dia_canon(E,CF_PLANE),"reversing component %u of %s gave %s expected %s",o.c,at.c_str(),pd_str(pd).c_str(),dia_str(E).c_str());
    for(int c=0;c<D.ncomp;c++) MC_CHECK(R.tag[c]==D.tag[c],"reversing a component moved component %d",c);
    mc_outcome("reversed"); return; }
  pd_renumber_component(pd,o.c,o.k); CHECK_VALID(pd,"renumber"); Lab M=L; if(D.n){ int len=dia_comp_len(D)[o.c]; // edge with offset i gets offset (i+k): the new first edge is the one with old offset -k
    int steps=((-(long)o.k)%len+len)%len; int x=L.start[o.c]; for(int i=0;i<steps;i++) x=d_across(D.mate[x]); M.start[o.c]=x; }
  pd_code_t*want=to_pd(D,M,0,pd->uid); std::string w=pd_dump(want,false),g=pd_dump(pd,false); pd_code_free(&want); MC_CHECK(w==g,"renumbering component %u of %s by %u gave %s expected %s",o.c,at.c_str(),o.k,g.c_str(),w.c_str()); mc_outcome("renumbered"); }
static void explore(const Dia&D,const Lab&L,int depth){
  std::vector<Op> alpha; alpha.push_back({0,0,0}); for(unsigned k=0;k<=3;k++) if(!(D.n<2&&k<2)) alpha.push_back({1,0,k}); VI len=dia_comp_len(D);
  for(int i=0;i<D.ncomp;i++){ int c=i; alpha.push_back({2,(unsigned)c,0}); alpha.push_back({3,(unsigned)c,0}); int l=D.n?len[L.order[c]]:1; for(int k=0;k<=l+1;k++) alpha.push_back({4,(unsigned)c,(unsigned)k}); }
  std::vector<Op> h; std::set<std::string> seen;
  std::function<void(const pd_code_t*,int)> rec=[&](const pd_code_t*pd,int d){ for(auto&o:alpha){ h.push_back(o); pd_code_t*q; { // clone through the model so that the history continues from identical content
        Dia X=from_pd(pd); q=to_pd(X,lab_of(pd,X),0,pd->uid); memcpy(q->hash,pd->hash,PD_HASHSIZE); }
      apply(q,o,h); mc_state(pd_dump(q,false)); if(d>1){ std::string k=mc_fmt("%d",d)+pd_dump(q,false); if(seen.insert(k).second) rec(q,d-1); } pd_code_free(&q); h.pop_back(); } mc_trace(); };
  pd_code_t*pd=to_pd(D,L,0,7); rec(pd,depth); pd_code_free(&pd); }
// uninterrupted histories on one live object (no cloning in between)
static void live(const Dia&D){ pd_code_t*pd=to_pd(D,default_lab(D),1,3); std::vector<Op> h; int s=0; for(int round=0;round<3;round++) for(unsigned c=0;c<pd->ncomps;c++){ for(Op o:{Op{2,c,0},Op{4,c,(unsigned)(1+(s++)%3)},Op{0,0,0},Op{2,c,0},Op{4,c,(unsigned)(s%2)},Op{1,0,3}}){ h.push_back(o); apply(pd,o,h); } } pd_code_free(&pd); mc_trace(); }
void mc_main(){
  int N=mc_thorough?4:3,Nm=mc_thorough?7:6;
  for(int n=0;n<=N;n++) for(auto&D0:gen_diagrams(n,SG_UNSET|SG_SIGNED|(n<=2?SG_MIXED:0))) mc_case_lazy([&]{ return "histories on "+dia_str(D0); },[&]{ Dia D=D0; if(mc_idx%2) for(int i=0;i<D.ncomp;i++) D.tag[i]="QBZKD"[i%5]+(i/5); auto f=[&](const Lab&L){ explore(D,L,n<=2?3:2); }; if(n<=3) all_labs(D,f); else f(default_lab(D)); live(D); mc_sample("histories of copy/reverse/renumber on "+dia_str(D)); });
  for(int n=N+1;n<=Nm;n++) for(auto&M:gen_maps(n)) mc_case_lazy([&]{ return "histories on map "+dia_str(M); },[&]{ Dia D=M; for(int i=0;i<n;i++) D.sign[i]=(i/2+i)%2; explore(D,default_lab(D),1); live(D); });
  static std::vector<Big> BV=big_diagrams(mc_thorough?2:1); for(auto&b:BV) mc_case("histories on "+b.name,[&]{ explore(b.D,default_lab(b.D),1); live(b.D); });
}
