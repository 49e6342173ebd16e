// D02: simplification removes every curl, keeps the link, tags and orientations, and never touches its input.
#include "pdmodel.hpp"
#include "big.hpp"
static bool has_loop(const Dia&D,int&c){ for(c=0;c<D.n;c++) for(int p=0;p<4;p++) if(D.mate[4*c+p]==4*c+(p+1)%4) return true; return false; }
static void check(pd_code_t*pd,bool homfly){
  Dia D=from_pd(pd); std::string before=pd_dump(pd); mc_note("simplify %s",pd_str(pd).c_str()); mc_state(pd_dump(pd,false));
  pd_code_t*r=pd_simplify(pd); mc_trans(); CHECK_VALID(r,"simplify"); MC_CHECK(r!=pd,"simplify returned its input"); MC_CHECK(pd_dump(pd)==before,"simplify modified its input");
  Dia R=from_pd(r); MC_CHECK(R.n<=D.n&&R.ncomp==D.ncomp,"simplify of %s gave %s",pd_str(pd).c_str(),pd_str(r).c_str());
  Pieces P; P.d.push_back(D); if(D.n==0){ P.d.clear(); P.circles.push_back(D.tag[0]); } int c;
  while(!P.d.empty()&&has_loop(P.d[0],c)){ std::vector<char> rm(P.d[0].n,0); rm[c]=1; P=dia_remove(P.d[0],rm); }
  Pieces G; if(R.n) G.d.push_back(R); else G.circles.push_back(R.tag[0]);
  MC_CHECK(pieces_canon(G,CF_PLANE)==pieces_canon(P,CF_PLANE),"simplify of %s gave %s",pd_str(pd).c_str(),pd_str(r).c_str());
  if(homfly&&D.n){ Poly a=dia_homfly(D),b=pieces_homfly(G); MC_CHECK(a==b,"simplify of %s changed the link to %s",pd_str(pd).c_str(),pd_str(r).c_str()); }
  pd_code_t*r2=pd_simplify(r); MC_CHECK(pd_dump(r2)==pd_dump(r)||r->ncross==0,"simplify is not idempotent on %s",pd_str(r).c_str()); mc_trans(); pd_code_free(&r2);
  mc_outcome(mc_fmt("n%d->%d",D.n,R.n)); mc_eval(); pd_code_free(&r); }
void mc_main(){
  int Nf=mc_thorough?5:4,Nm=mc_thorough?7:6;
  for(int n=0;n<=Nf;n++) for(auto&D0:gen_diagrams(n,SG_UNSET|SG_SIGNED|(n<=3?SG_MIXED:0))) mc_case_lazy([&]{ return "simplify "+dia_str(D0); },[&]{ Dia D=D0; if(mc_idx%2) for(int i=0;i<D.ncomp;i++) D.tag[i]="QBZKD"[i%5]+(i/5);
      bool sg=true; for(int s:D.sign) if(s==2) sg=false; auto one=[&](const Lab&L){ pd_code_t*pd=to_pd(D,L,D.n%3); check(pd,sg); pd_code_free(&pd); }; if(n<=3) all_labs(D,one); else one(default_lab(D)); mc_trace(); mc_sample("simplify "+dia_str(D)); });
  for(int n=Nf+1;n<=Nm;n++) for(auto&M:gen_maps(n)) mc_case_lazy([&]{ return "simplify map "+dia_str(M); },[&]{ for(int v=0;v<3;v++){ Dia D=M; for(int i=0;i<n;i++) D.sign[i]=v==0?2:((i*v+1)/2)%2; pd_code_t*pd=to_pd(D); check(pd,v>0&&n<=6); pd_code_free(&pd);} mc_trace(); });
  // long curl chains and trees, far above the enumerated size
  int big=mc_thorough?40:24;
  for(int n=1;n<=(mc_thorough?120:70);n+=n<big?1:n<60?9:23) mc_case(mc_fmt("simplify the %d-crossing curl chain",n),[&]{ pd_code_t*pd=pd_build_unknot(n); CHECK_VALID(pd,"unknot"); check(pd,false); pd_code_free(&pd); mc_trace(); });
  int w=mc_thorough?6:4; for(int a=1;a<=w;a++) for(int b=1;b<=w;b++) for(int c=1;c<=w;c++) mc_case(mc_fmt("simplify the curl tree %d,%d,%d",a,b,c),[&]{ pd_code_t*pd=pd_build_unknot_wye(a,b,c); CHECK_VALID(pd,"wye"); check(pd,false); pd_code_free(&pd); mc_trace(); });
  static std::vector<Big> BV=big_diagrams(mc_thorough?2:1); for(auto&b:BV) mc_case("simplify "+b.name,[&]{ pd_code_t*pd=to_pd(b.D); check(pd,false); pd_code_free(&pd); mc_trace(); });
}
