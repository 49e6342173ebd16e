// D13: connect sum of every pair of small diagrams at every pair of edges.
#include "pdmodel.hpp"
#include "big.hpp"
static Dia m_consum(const Dia&A,int x,const Dia&B,int y){ // x,y outgoing darts of the joined edges
  Dia D=A; int n0=4*A.n; D.n=A.n+B.n; for(int m:B.mate) D.mate.push_back(m+n0); for(char o:B.out) D.out.push_back(o); for(int s:B.sign) D.sign.push_back(s);
  int cb=B.comp[y],ca=A.comp[x]; VI map(B.ncomp); int k=A.ncomp; for(int c=0;c<B.ncomp;c++) map[c]=(c==cb)?ca:k++; D.ncomp=k; for(int c:B.comp) D.comp.push_back(map[c]); D.tag.resize(k); for(int i=0;i<k;i++) D.tag[i]=i<26?'A'+i:'a'+i-26;
  int X=A.mate[x],Y=B.mate[y]+n0; y+=n0; D.mate[x]=Y; D.mate[Y]=x; D.mate[y]=X; D.mate[X]=y; return D; }
static void pairs(const Dia&A,const Dia&B){
  pd_code_t*a=to_pd(A),*b=to_pd(B); Dia MA=from_pd(a),MB=from_pd(b); std::string da=pd_dump(a),db=pd_dump(b); bool sg=true,anyset=false; for(int s:A.sign){ if(s==2) sg=false; else anyset=true; } for(int s:B.sign){ if(s==2) sg=false; else anyset=true; }
  if(A.n+B.n>8) sg=false; Poly want; if(sg) want=p_mul(dia_homfly(MA),dia_homfly(MB));
  for(unsigned ea=0;ea<a->nedges;ea++) for(unsigned eb=0;eb<b->nedges;eb++){
    mc_note("connect sum of %s at %u with %s at %u",pd_str(a).c_str(),ea,pd_str(b).c_str(),eb); mc_state(mc_fmt("%u|%u|",ea,eb)+da+db);
    pd_code_t*r=pd_connect_sum(a,ea,b,eb); mc_trans(); mc_eval(); CHECK_VALID(r,"connect sum"); MC_CHECK(pd_dump(a)==da&&pd_dump(b)==db,"connect sum modified an operand");
    MC_CHECK(r->ncross==a->ncross+b->ncross&&r->ncomps==a->ncomps+b->ncomps-1,"connect sum of %s and %s has %u crossings, %u components",pd_str(a).c_str(),pd_str(b).c_str(),r->ncross,r->ncomps);
    Dia R=from_pd(r); Dia E; if(MA.n&&MB.n) E=m_consum(MA,4*a->edge[ea].tail+a->edge[ea].tailpos,MB,4*b->edge[eb].tail+b->edge[eb].tailpos); else E=MA.n?MA:MB;
    // with no crossing signs at all, strand orientations are free; otherwise they are inherited
    int fl=anyset?(CF_ORIENT|CF_SIGN):CF_SIGN; MC_CHECK(dia_canon(R,fl)==dia_canon(E,fl),"connect sum of %s at %u with %s at %u gave %s",pd_str(a).c_str(),ea,pd_str(b).c_str(),eb,pd_str(r).c_str());
    if(sg&&R.n<=7){ Poly h=dia_homfly(R); MC_CHECK(h==want,"connect sum is not multiplicative: %s at %u # %s at %u",pd_str(a).c_str(),ea,pd_str(b).c_str(),eb); }
    mc_outcome(mc_fmt("%d#%d comps %d",MA.n,MB.n,R.ncomp)); pd_code_free(&r); }
  pd_code_free(&a); pd_code_free(&b); mc_trace(); }
void mc_main(){
  int N=mc_thorough?4:3; std::vector<std::vector<Dia>> S(6); for(int n=0;n<=N;n++) S[n]=gen_diagrams(n,SG_UNSET|SG_SIGNED|(n<=2?SG_MIXED:0));
  for(int n=0;n<=N;n++) for(int m=0;m<=N;m++){ if(n+m>(mc_thorough?6:5)) continue; 
    for(auto&A:S[n]) for(auto&B:S[m]) mc_case_lazy([&]{ return "connect sums of "+dia_str(A)+" and "+dia_str(B); },[&]{ pairs(A,B); mc_sample("every edge pair of "+dia_str(A)+" # "+dia_str(B)); }); }
  for(auto&A:gen_maps(4)) for(auto&B:gen_maps(3)) mc_case_lazy([&]{ return "connect sums of maps "+dia_str(A)+" and "+dia_str(B); },[&]{ Dia X=A,Y=B; pairs(X,Y); for(int i=0;i<4;i++) X.sign[i]=(i*i+1)/2%2; for(int i=0;i<3;i++) Y.sign[i]=i%2; pairs(X,Y); pairs(Y,X); });
  // closed braids far above the enumerated size, with small diagrams on either side and with each other
  static std::vector<Big> BV=big_diagrams(mc_thorough?1:0,0x1e); static std::vector<Dia> SM; for(int n=0;n<=3;n++){ auto V=gen_diagrams(n,SG_SIGNED|SG_UNSET); for(size_t i=0;i<V.size();i+=1+V.size()/(mc_thorough?4:2)) SM.push_back(V[i]); }
  for(auto&b:BV) mc_case("connect sums with "+b.name,[&]{ for(auto&s:SM){ pairs(b.D,s); pairs(s,b.D); } });
  for(size_t i=0;i+5<BV.size();i+=3) mc_case("connect sums of "+BV[i].name+" and "+BV[i+5].name,[&,i]{ pairs(BV[i].D,BV[i+5].D); });
}
