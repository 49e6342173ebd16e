// D17: diagrams of polygons: every order and height of small point sets, against exact projection.
#include <cmath>
#include "geom.hpp"
#include "latexpoly.hpp"
#include "rngscript.hpp"
extern "C" { void set_pd_code_from_plCurve_debug(bool); }
static std::vector<int> g_rand; static size_t g_ru=0; static unsigned g_rs=1;
extern "C" int rand(void) throw(){ if(g_ru<g_rand.size()) return g_rand[g_ru++]; g_rs=g_rs*1103515245u+12345u; return (g_rs>>1)&0x7fffffff; }
static pd_code_t*lib(const Poly3&L,double scale,bool debug,const std::vector<double>&script,unsigned cont){ plCurve*P=to_plc(L,scale); std::vector<plc_vector> before; for(int c=0;c<P->nc;c++) for(int v=-1;v<=P->cp[c].nv;v++) before.push_back(P->cp[c].vt[v]); gsl_rng*r=rs_new(script,cont); g_ru=0; g_rs=cont*77+1; set_pd_code_from_plCurve_debug(debug); pd_code_t*pd=pd_code_from_plCurve(r,P); mc_trans(); gsl_rng_free(r); size_t k=0; for(int c=0;c<P->nc;c++) for(int v=-1;v<=P->cp[c].nv;v++,k++) MC_CHECK(!memcmp(&before[k],&P->cp[c].vt[v],sizeof(plc_vector)),"the curve was modified"); plc_free(P); return pd; }
static void exact(const Poly3&L,double scale){ Proj R=project(L); if(!R.generic){ mc_count(("not generic: "+R.why).c_str()); return; } if((L.size()>1&&R.bare)||!R.connected){ mc_count("split projection"); return; } std::string s=p3_str(L); mc_note("%s scale %g",s.c_str(),scale); pd_code_t*pd=lib(L,scale,true,{},1); MC_CHECK(pd,"no diagram for %s",s.c_str()); CHECK_VALID(pd,"diagram of %s",s.c_str()); MC_CHECK(pd->ncomps==L.size(),"%u components for %s",pd->ncomps,s.c_str()); Dia E=from_pd(pd); mc_state(dia_canon(E,CF_ORIENT|CF_SIGN)); mc_eval();
  if(R.bare){ MC_CHECK(E.n==1,"a crossingless curve gave %d crossings",E.n); } else MC_CHECK(dia_canon(E,CF_ORIENT|CF_SIGN)==dia_canon(R.D,CF_ORIENT|CF_SIGN),"the diagram of %s is %s instead of %s",s.c_str(),pd_str(pd).c_str(),dia_str(R.D).c_str()); mc_outcome(mc_fmt("%zu components, %d crossings",L.size(),E.n)); pd_code_free(&pd); }
static Poly big_homfly(const Dia&D){ pd_code_t*pd=to_pd(D); char*h=pd_homfly(pd); Poly p; std::string w; MC_CHECK(h&&parse_latex(h,p,w),"no HOMFLY polynomial"); free(h); pd_code_free(&pd); return p; }
static void topo(const Poly3&L,double scale,const std::vector<double>&script,unsigned cont,bool debug,bool must){ Proj R; if(!generic_view(L,R)){ mc_count("no generic view"); return; } static std::string lastkey; static Poly lastwant; std::string key=dia_canon(R.D,CF_ORIENT|CF_SIGN); if(key!=lastkey||!R.D.n){ lastkey=key; lastwant=R.D.n<=12?proj_homfly(R):big_homfly(R.D); } Poly want=lastwant; std::string s=p3_str(L); mc_note("%s scale %g stream %u%s",s.c_str(),scale,cont,debug?" unrotated":""); pd_code_t*pd=lib(L,scale,debug,script,cont); mc_eval(); if(!pd){ MC_CHECK(!must,"no diagram for %s",s.c_str()); mc_outcome("no diagram"); return; } CHECK_VALID(pd,"diagram of %s",s.c_str()); MC_CHECK(pd->ncomps==L.size(),"%u components for %s",pd->ncomps,s.c_str()); Dia E=from_pd(pd); Poly got; if(E.n<=9) got=dia_homfly(E); else { char*h=pd_homfly(pd); std::string w; MC_CHECK(h&&parse_latex(h,got,w),"no HOMFLY polynomial for %s",pd_str(pd).c_str()); free(h); } MC_CHECK(got==want,"the link type changed: HOMFLY polynomial %s instead of %s for %s, diagram %s",p_str(got).c_str(),p_str(want).c_str(),s.c_str(),pd_str(pd).c_str()); mc_state(dia_canon(E,CF_ORIENT|CF_SIGN)); mc_outcome(p_str(want)); pd_code_free(&pd); }
static const P3 PT[8]={{0,0,0},{61,7,0},{83,59,0},{41,97,0},{-11,73,0},{29,31,0},{57,47,0},{19,-17,0}};
// visiting orders of k points by components of the given sizes
static void orders(const VI&sizes,int k,const std::function<void(const std::vector<VI>&)>&cb){ VI p(k); for(int i=0;i<k;i++) p[i]=i; std::set<std::vector<VI>> seen; do{ std::vector<VI> v; int o=0; bool ok=true; for(int s:sizes){ VI c(p.begin()+o,p.begin()+o+s); o+=s; if(*std::min_element(c.begin(),c.end())!=c[0]) ok=false; v.push_back(c); } for(size_t i=1;i<v.size();i++) if(sizes[i]==sizes[i-1]&&v[i][0]<v[i-1][0]) ok=false; if(ok) cb(v); }while(std::next_permutation(p.begin(),p.end())); }
static const P3 HEX[6]={{20,0,0},{10,20,0},{-10,20,0},{-20,0,0},{-10,-20,0},{10,-20,0}};
static void heights(const std::vector<VI>&ord,int k,int step,const std::function<void(const Poly3&)>&cb,const P3*pt=PT){ VI h(k); for(int i=0;i<k;i++) h[i]=i; int c=0; do{ if(c++%step) continue; Poly3 L; for(auto&v:ord){ std::vector<P3> q; for(int i:v) q.push_back({pt[i].x,pt[i].y,13*h[i]+(h[i]*h[i]*5)%11}); L.push_back(q); } cb(L); }while(std::next_permutation(h.begin(),h.end())); }
static std::string ordstr(const std::vector<VI>&o){ std::string s; for(auto&c:o){ s+="("; for(int i:c) s+=mc_fmt("%d ",i); s+=")"; } return s; }
// lattice polygons (steps along axes): many vertical edges and overlaps
static void lattice(int n,const std::function<void(const Poly3&)>&cb){ static const int S[6][3]={{1,0,0},{0,1,0},{0,0,1},{-1,0,0},{0,-1,0},{0,0,-1}}; std::vector<P3> w{{0,0,0}}; std::set<std::array<LL,3>> seen{{{0,0,0}}}; std::function<void()> rec=[&]{ P3 l=w.back(); int left=n-(int)w.size()+1; if(llabs(l.x)+llabs(l.y)+llabs(l.z)>left) return; if((int)w.size()==n){ if(llabs(l.x)+llabs(l.y)+llabs(l.z)==1){ Poly3 L{w}; cb(L); } return; } for(auto&s:S){ P3 q{l.x+s[0],l.y+s[1],l.z+s[2]}; std::array<LL,3> key{q.x,q.y,q.z}; if(!seen.insert(key).second) continue; w.push_back(q); rec(); w.pop_back(); seen.erase(key); } }; rec(); }
static std::vector<P3> walk(const char*s){ std::vector<P3> v; P3 p{0,0,0}; for(;*s;s++){ int k=1; char c=*s; if(s[1]>='2'&&s[1]<='9'){ k=s[1]-'0'; s++; } for(int i=0;i<k;i++){ v.push_back(p); switch(c){ case 'E': p.x++; break; case 'W': p.x--; break; case 'N': p.y++; break; case 'S': p.y--; break; case 'U': p.z++; break; case 'D': p.z--; break; } } } return v; }
static void turns(const Poly3&L,const std::function<void(const Poly3&)>&cb){ static const int pm[6][3]={{0,1,2},{1,2,0},{2,0,1},{1,0,2},{0,2,1},{2,1,0}}; for(int q=0;q<6;q++) for(int s=0;s<8;s++){ Poly3 M=L; for(auto&c:M) for(auto&p:c){ LL v[3]={p.x,p.y,p.z}; LL w[3]; for(int i=0;i<3;i++) w[i]=((s>>i)&1)?-v[pm[q][i]]:v[pm[q][i]]; p={w[0],w[1],w[2]}; } cb(M); } }
void mc_main(){ bool T=mc_thorough;
  struct G{ VI s; int k,step,tstep; }; for(auto&g:std::vector<G>{{{3},3,1,1},{{4},4,1,1},{{5},5,1,2},{{6},6,T?1:3,7},{{7},7,T?11:199,T?401:1999},{{3,3},6,1,T?3:9},{{3,4},7,T?1:29,T?101:499}}) orders(g.s,g.k,[&](const std::vector<VI>&o){ mc_case_lazy([&]{ return "points in order "+ordstr(o)+mc_fmt(", every %d-th of the heights",g.step); },[&]{ heights(o,g.k,g.step,[&](const Poly3&L){ exact(L,1); }); heights(o,g.k,g.tstep,[&](const Poly3&L){ if(L.size()>1){ Proj R; if(!generic_view(L,R)||R.bare||!R.connected) return; auto lk=dia_linking2(R.D); bool z=true; for(auto&x:lk) if(x.second) z=false; if(z) return; } topo(L,1,{},3,false,true); }); mc_trace(); }); });
  // longer polygons (points of a convex-like curve in every stride order, several height rules) and chains of many rings
  for(int n=7;n<=(T?17:13);n++) for(int st=2;2*st<n+2;st++) mc_case(mc_fmt("%d points with stride %d",n,st),[&]{ for(int hr=0;hr<(T?12:6);hr++) for(int j=0;j<2;j++){ Poly3 L; int g=std::__gcd(n,st); for(int c=0;c<g;c++){ std::vector<P3> q; for(int i=0;i<n/g;i++){ int a=(c+i*st)%n; double t=2*M_PI*a/n; LL r=900+(a*a*37+j*a*53)%170; LL X=(LL)std::floor(r*std::cos(t))+a%3,Y=(LL)std::floor(r*std::sin(t))+a%5,Z=hr==0?(LL)13*i+c*7:hr==1?(LL)(i%2?500+7*i+c:-3*i-c*11):(LL)((a*(hr*2+3)+c*5)%(n+hr))*17+a; q.push_back(P3{X,Y,Z}); } L.push_back(q); } bool deg=false; for(auto&c:L) if(c.size()<3) deg=true; if(deg) continue; exact(L,hr==3?0.01:1); } mc_trace(); });
  for(int nc:{3,6,11,21,24,31}) mc_case(mc_fmt("chains of %d rings",nc),[&]{ for(int hr=0;hr<6;hr++){ Poly3 L; for(int c=0;c<nc;c++){ LL x=70*c; int k=hr<3?c%3:(c*7+hr)%5; LL h=hr==4?c*11:0; if(hr==5&&c%4==3) L.push_back(std::vector<P3>{{x,2+c%2,5+h},{x+97,-41,40+h},{x+101,3,-30+h},{x+91,39,33+h},{x+49,61,-50+h},{x+7,43,20+h}}); else L.push_back(std::vector<P3>{{x,1+c%2,(k==0?60:k==1?-60:10)+h},{x+51+c%3,-47,(k==2?80:-5)+h},{x+103,-1,(k==0?-45:k==3?77:55)+h},{x+47,53+c%5,(k==1?90:k==4?-90:3)+h}}); } exact(L,1); } mc_trace(); });
  // lattice polygons: every projection along an axis is degenerate
  for(int n=4;n<=(T?10:8);n+=2) mc_case(mc_fmt("all lattice polygons of length %d",n),[&]{ int k=0; lattice(n,[&](const Poly3&L){ if(n>=8&&(k++)%(n==8?7:211)) return; topo(L,1,{},k,true,true); }); mc_trace(); });
  // three diagonals of a hexagon through one point: no view along the axis will do
  orders({6},6,[&](const std::vector<VI>&o){ Poly3 L; heights(o,6,1,[&](const Poly3&M){ if(L.empty()) L=M; },HEX); Proj R=project(L); if(R.why!="triple point") return; mc_case_lazy([&]{ return "hexagon with concurrent diagonals in order "+ordstr(o); },[&]{ heights(o,6,T?1:5,[&](const Poly3&M){ topo(M,1,{},5,false,true); },HEX); mc_trace(); }); });
  // knotted and linked lattice polygons in all 48 positions, at several scales, with the first random numbers enumerated
  auto shift=[](std::vector<P3> v,LL x,LL y,LL z){ for(auto&p:v){ p.x+=x; p.y+=y; p.z+=z; } return v; };
  struct K{ const char*name; Poly3 L; }; std::vector<K> ks={{"lattice trefoil",{walk("UNNDEEUNNDEEUSSSDWWWUNNDEEUSSSDWWW")}},{"lattice Hopf link",{walk("E2N2W2S2"),shift(walk("U2N2D2S2"),1,1,-1)}}};
  static const double V[3]={0.02,0.5,0.97}; for(auto&k:ks) for(double sc:{1.0,0.01,100.0,0.0001}) mc_case(mc_fmt("%s in all positions, scale %g",k.name,sc),[&]{ int n=0; turns(k.L,[&](const Poly3&M){ n++; for(unsigned c=1;c<=(T?4u:1u);c++) for(int d=0;d<2;d++) topo(M,sc,{},10*n+c,d,sc>0.001); if(n%(T?1:8)==1) for(int a=0;a<27;a++) topo(M,sc,{V[a%3],V[a/3%3],V[a/9]},7,true,false); }); mc_trace(); });
}
