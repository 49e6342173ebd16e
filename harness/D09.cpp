// D09: the HOMFLY polynomial of every signed diagram equals the one given by the skein relation, in every presentation of the diagram.
#include "pdmodel.hpp"
#include "latexpoly.hpp"
static Poly lib_homfly(pd_code_t*pd,bool simp){ std::string b=pd_dump(pd); mc_note("%s of %s",simp?"pd_homfly":"pd_homfly_timeout",pd_str(pd).c_str()); char*s=simp?pd_homfly(pd):pd_homfly_timeout(pd,600); mc_trans(); MC_CHECK(s,"no polynomial for %s",pd_str(pd).c_str()); MC_CHECK(pd_dump(pd)==b,"computing the polynomial modified the diagram"); Poly p; std::string w; MC_CHECK(parse_latex(s,p,w),"output '%s' is not a polynomial: %s",s,w.c_str()); free(s); return p; }
static void one(const Dia&D,const Lab&L,const Poly&want,bool simp){ pd_code_t*pd=to_pd(D,L,0); Poly got=lib_homfly(pd,simp); MC_CHECK(got==want,"HOMFLY polynomial of %s is %s, expected %s",pd_str(pd).c_str(),p_str(got).c_str(),p_str(want).c_str()); pd_code_free(&pd); mc_eval(); }
// P of the (2,n) torus link, both strands parallel, all crossings of sign s:  l^s P_n + l^-s P_(n-2) + m P_(n-1) = 0
static Poly torus2(int n,int s){ Poly d; d[{1,-1}]=-1; d[{-1,-1}]=-1; Poly one; one[{0,0}]=1; Poly a=d,b=one; for(int k=2;k<=n;k++){ Poly c=p_add(Poly(),a,-1,-2*s,0); c=p_add(c,b,-1,-s,1); a=b; b=c; } return n==0?d:b; }
void mc_main(){
  int N=5;
  for(int n=0;n<=N;n++) for(auto&D:gen_diagrams(n,SG_SIGNED)) mc_case_lazy([&]{ return "homfly of "+dia_str(D); },[&]{ Poly want=dia_homfly(D); mc_state(p_str(want)+dia_canon(D,CF_ORIENT|CF_SIGN)); if(n<=3) all_labs(D,[&](const Lab&L){ one(D,L,want,false); }); else { int k=0; all_labs(D,[&](const Lab&L){ if(k++%(n==5?(mc_thorough?5:29):mc_thorough?1:7)==0) one(D,L,want,false); }); } one(D,default_lab(D),want,true); mc_trace(); mc_outcome(p_str(want)); mc_sample(dia_str(D)+" -> "+p_str(want)); });
  for(int n=N+1;n<=N+2;n++){ int mi=0; for(auto&M:gen_maps(n)){ mi++; if(n==7&&!mc_thorough&&mi%3) continue; mc_case_lazy([&]{ return "homfly of signings of "+dia_str(M); },[&]{ for(int v=0;v<(mc_thorough?24:8);v++){ Dia D=M; if(v&1) dia_reverse(D,D.ncomp-1); // v: alternating-ish, positive, negative and mixed signings
          for(int i=0;i<n;i++) D.sign[i]=v<2?1:v<4?0:((mi*31+v*7+i*i*3+i)>>(v%3))&1; Poly want=dia_homfly(D); one(D,default_lab(D),want,false); mc_state(dia_canon(D,CF_ORIENT|CF_SIGN)); } // and the two alternating signings
        for(int s=0;s<2;s++){ Dia D=M; std::vector<int> over(4*n,-1); // 2-colour strands: over at slot parity along the edges
          VI par(n,-1); bool ok=true; VI st{0}; par[0]=s; while(!st.empty()){ int c=st.back(); st.pop_back(); for(int p=0;p<4;p++){ int d=4*c+p,m=D.mate[d]; int ov=(p%2)==par[c]; int want=!ov; int q=(m%4)%2; int pc=want?q:1-q; if(par[m/4]<0){ par[m/4]=pc; st.push_back(m/4); } else if(par[m/4]!=pc) ok=false; } } if(!ok) continue; for(int c=0;c<n;c++){ D.sign[c]=1; int oi,oo,ui,uo; dia_strands(D,c,oi,oo,ui,uo); if((oo%2)!=par[c]) D.sign[c]=0; } Poly want=dia_homfly(D); one(D,default_lab(D),want,false); mc_outcome("alternating"); mc_state(dia_canon(D,CF_ORIENT|CF_SIGN)); }
        mc_trace(); }); } }
  int big=mc_thorough?34:28; for(int n=2;n<=big;n++) for(int s=0;s<2;s++) mc_case_lazy([&]{ return mc_fmt("(2,%d) torus link, sign %d",n,s); },[&]{ pd_code_t*pd=pd_build_torus_knot(2,n); for(unsigned i=0;i<pd->ncross;i++) pd->cross[i].sign=s; Poly got=lib_homfly(pd,false),want=torus2(n,s?1:-1); MC_CHECK(got==want,"HOMFLY polynomial of the (2,%d) torus link of sign %d is %s",n,s,p_str(got).c_str()); pd_code_free(&pd); mc_trace(); mc_eval(); });
  for(int n=1;n<=(mc_thorough?249:120);n++) mc_case_lazy([&]{ return mc_fmt("%d-crossing unknot",n); },[&]{ for(int k=0;k<4;k++){ pd_code_t*pd=pd_build_unknot(n); for(unsigned i=0;i<pd->ncross;i++) pd->cross[i].sign=k==0?0:k==1?1:k==2?i%2:(i%3==0); Poly one; one[{0,0}]=1; Poly got=lib_homfly(pd,false); MC_CHECK(got==one,"HOMFLY polynomial of the %d-crossing curled unknot is %s",n,p_str(got).c_str()); pd_code_free(&pd); mc_eval(); } mc_trace(); });
  for(int n=2;n<=(mc_thorough?30:16);n++) for(int s=0;s<3;s++) mc_case_lazy([&]{ return mc_fmt("chain of %d rings",n); },[&]{ pd_code_t*pd=pd_build_simple_chain(n); for(unsigned i=0;i<pd->ncross;i++) pd->cross[i].sign=s==0?0:s==1?1:(i/2)%2; // connect sum of Hopf links, signs by pair
      Dia D=from_pd(pd); std::map<std::pair<char,char>,int> lk=dia_linking2(D); bool ok=true; Poly want; want[{0,0}]=1; for(auto&x:lk){ if(x.second==2) want=p_mul(want,torus2(2,1)); else if(x.second==-2) want=p_mul(want,torus2(2,-1)); else ok=false; } if(ok){ Poly got=lib_homfly(pd,false); MC_CHECK(got==want,"HOMFLY polynomial of the chain of %d rings is %s, expected %s",n,p_str(got).c_str(),p_str(want).c_str()); mc_outcome("chain"); } pd_code_free(&pd); mc_trace(); mc_eval(); });
}
