// C15: every step of the Markov chain on polygons stays on the space it walks, and the drivers average over the polygons they show.
#include "triang.hpp"
#include "rngscript.hpp"
#include <gsl/gsl_randist.h>
#include <functional>
#include <map>
extern "C" {
#include "geyer_estimators.h"
char *tsmcmc_configuration_MathematicaForm(tsmcmc_triangulation_t T,double*,double*,double*);
tsmcmc_run_parameters tsmcmc_default_unconfined_parameters(void); tsmcmc_run_parameters tsmcmc_default_confined_parameters(void);
void tsmcmc_folded_triangle(tsmcmc_triangulation_t T,double**,double**,double**);
bool tsmcmc_edgelengths_obey_ftc(tsmcmc_triangulation_t T,double ftc,double*); bool tsmcmc_equilateral_check(plCurve*); bool tsmcmc_failure_to_close_check(plCurve*,double);
}
static const double E32=1/4294967296.0;
typedef std::vector<double> DV;
struct St { DV e,d,a; };
struct Poly { int n; Chords C; tsmcmc_triangulation_t T; std::vector<std::array<int,3>> tri; std::map<std::array<int,2>,int> ix; };
static std::map<std::pair<int,Chords>,Poly> pool;
static const Poly&poly(int n,const Chords&C){ auto it=pool.find({n,C}); if(it!=pool.end()) return it->second; Poly p; p.n=n; p.C=C; p.T=mk_tri(n,C); for(auto&t:triangles_of(n,C)) p.tri.push_back(t); for(size_t i=0;i<C.size();i++) p.ix[{{std::min(C[i][0],C[i][1]),std::max(C[i][0],C[i][1])}}]=i; return pool[{n,C}]=p; }
static int cid(const Poly&P,int a,int b){ if(a>b) std::swap(a,b); if(b==a+1) return a; if(a==0&&b==P.n-1) return P.n-1; return P.n+P.ix.at({{a,b}}); } // <n: edge, else diagonal
static double clen(const Poly&P,const St&s,int c){ return c<P.n?s.e[c]:s.d[c-P.n]; }
static double slack(const Poly&P,const St&s,double R){ double m=1e9; for(auto&t:P.tri){ double A=clen(P,s,cid(P,t[0],t[1])),B=clen(P,s,cid(P,t[1],t[2])),C=clen(P,s,cid(P,t[0],t[2])); m=std::min({m,A+B-C,B+C-A,C+A-B}); if(!(A>-1e9&&A<1e9&&B>-1e9&&B<1e9&&C>-1e9&&C<1e9)) return -1e9; } if(R>0) for(double x:s.d) m=std::min(m,R-x); return m; }
static std::string sts(const St&s){ std::string r="edges"; for(double x:s.e) r+=mc_fmt(" %.12g",x); r+=" diagonals"; for(double x:s.d) r+=mc_fmt(" %.17g",x); r+=" angles"; for(double x:s.a) r+=mc_fmt(" %.9g",x); return r; }
static std::string ws(const DV&w){ std::string s; for(double x:w) s+=mc_fmt("%.12g ",x); return s; }
static St take(const Poly&P,double*e,double*d,double*a){ St s; s.e.assign(e,e+P.n); s.d.assign(d,d+P.n-3); s.a.assign(a,a+P.n-3); free(e); free(d); free(a); return s; }
static void edges_ok(const Poly&P,const St&s,double ftc,const std::string&w){ for(int i=0;i<P.n;i++) MC_CHECK(std::fabs(s.e[i]-(i==0?ftc:1))<2e-8,"%s: edge %d has length %.12g",w.c_str(),i,s.e[i]); }
static plCurve*emb(const Poly&P,St s,const std::string&w){ s.e.push_back(0); s.d.push_back(0); s.a.push_back(0); plCurve*L=tsmcmc_embed_polygon(P.T,s.e.data(),s.d.data(),s.a.data()); MC_CHECK(L,"%s: cannot be embedded",w.c_str()); return L; }
static void polygon_ok(const plCurve*L,int n,double ftc,double R,const std::string&w){ std::string b=curve_bad(L); if(!b.empty()) mc_fail("%s: %s",w.c_str(),b.c_str()); MC_CHECK(L->nc==1&&L->cp[0].nv==n&&!L->cp[0].open,"%s: wrong shape",w.c_str()); const plc_vector*v=L->cp[0].vt; for(int i=0;i<n;i++){ double x=vdist(vv(v[i]),vv(v[(i+1)%n])); MC_CHECK(std::fabs(x-(i==0?ftc:1))<1e-7,"%s: edge %d has length %.12g",w.c_str(),i,x); if(R>0) MC_CHECK(vdist(vv(v[i]),vv(v[0]))<=R+1e-7,"%s: vertex %d at distance %.12g of vertex 0",w.c_str(),i,vdist(vv(v[i]),vv(v[0]))); } mc_eval(); }
static double*mut(DV&v){ if(v.capacity()<v.size()+1) v.reserve(v.size()+1); return v.data(); }
// one moment polytope step with scripted numbers g (for the gaussians) and u
static St mp(const Poly&P,St s,const DV&g,double u,double R,const std::string&from){ DV w=g; w.push_back(u); std::string what=mc_fmt("%s: moment polytope step from %s with %s",from.c_str(),sts(s).c_str(),ws(w).c_str()); mc_note("%s",what.c_str()); int k=P.n-3; // reference
  gsl_rng*q=rs_new(w,1); DV dir; for(int i=0;i<k;i++) dir.push_back(gsl_ran_ugaussian(q)); bool exact=rs_used==g.size(); gsl_rng_free(q); double nrm=0; for(double x:dir) nrm=std::max(nrm,std::fabs(x)); double lo=-1e300,hi=1e300; auto con=[&](double val,double dd){ if(nrm==0) return; dd/=nrm; val=std::max(val,0.0); if(std::fabs(dd)<1e-6){ if(dd!=0&&val<1e-5) exact=false; return; } if(dd>0) lo=std::max(lo,-val/dd); else hi=std::min(hi,-val/dd); }; auto dv=[&](int c){ return c<P.n?0:dir[c-P.n]; }; for(auto&t:P.tri){ int c[3]={cid(P,t[0],t[1]),cid(P,t[1],t[2]),cid(P,t[0],t[2])}; for(int i=0;i<3;i++) con(clen(P,s,c[i])+clen(P,s,c[(i+1)%3])-clen(P,s,c[(i+2)%3]),dv(c[i])+dv(c[(i+1)%3])-dv(c[(i+2)%3])); } if(R>0) for(int i=0;i<k;i++) con(R-s.d[i],-dir[i]);
  St o=s; gsl_rng*r=rs_new(w,1); if(R>0) tsmcmc_confined_moment_polytope_step(r,P.T,R,mut(s.e),mut(s.d)); else tsmcmc_moment_polytope_step(r,P.T,mut(s.e),mut(s.d)); gsl_rng_free(r); MC_CHECK(s.e==o.e,"%s: edge lengths changed",what.c_str()); double sl=slack(P,s,R); MC_CHECK(sl>-1e-9,"%s: arrives at %s, outside by %.3g",what.c_str(),sts(s).c_str(),-sl); if(exact&&k>0&&nrm>1e-7&&hi<1e299&&lo>-1e299){ double t=lo*(1-u)+hi*u; for(int i=0;i<k;i++) MC_CHECK(std::fabs(s.d[i]-(o.d[i]+t*dir[i]/nrm))<1e-6,"%s: arrives at %s, expected diagonal %d to be %.12g",what.c_str(),sts(s).c_str(),i,o.d[i]+t*dir[i]/nrm); mc_outcome("hit and run"); } else mc_outcome("degenerate direction"); mc_eval(); mc_trans(); return s; }
static St dih(const Poly&P,St s,const DV&u,const std::string&from){ std::string what=mc_fmt("%s: dihedral step with %s",from.c_str(),ws(u).c_str()); mc_note("%s",what.c_str()); St o=s; gsl_rng*r=rs_new(u,1); tsmcmc_dihedrals_step(r,P.T,mut(s.a)); gsl_rng_free(r); for(int i=0;i<P.n-3;i++){ MC_CHECK(s.a[i]>=0&&s.a[i]<2*M_PI,"%s: angle %.17g",what.c_str(),s.a[i]); if(i<(int)u.size()) MC_CHECK(std::fabs(s.a[i]-2*M_PI*u[i])<1e-8,"%s: angle %d is %.12g",what.c_str(),i,s.a[i]); } mc_eval(); mc_trans(); mc_outcome("dihedral step"); return s; }
static std::vector<V3> evec(const plCurve*L){ std::vector<V3> e; int n=L->cp[0].nv; for(int i=0;i<n;i++) e.push_back(vadd(vv(L->cp[0].vt[(i+1)%n]),vv(L->cp[0].vt[i]),-1)); return e; }
static bool congruent(const std::vector<V3>&a,const std::vector<V3>&b,const std::vector<int>&p,double tol){ int n=a.size(); for(int i=0;i<n;i++) for(int j=0;j<=i;j++){ if(std::fabs(vdot(b[i],b[j])-vdot(a[p[i]],a[p[j]]))>tol) return false; } for(int i=0;i<n;i++) for(int j=0;j<i;j++) for(int k=0;k<j;k++) if(std::fabs(vdot(b[i],vcross(b[j],b[k]))-vdot(a[p[i]],vcross(a[p[j]],a[p[k]])))>tol) return false; return true; }
static std::vector<int> shuffled(int n,bool ftc,const DV&w){ std::vector<int> p; for(int i=0;i<n;i++) p.push_back(i); gsl_rng*r=rs_new(w,1); if(ftc) gsl_ran_shuffle(r,p.data()+1,n-1,sizeof(int)); else gsl_ran_shuffle(r,p.data(),n,sizeof(int)); gsl_rng_free(r); return p; }
static St per(const Poly&P,St s,const DV&w,double ftc,const std::string&from,std::map<std::vector<int>,long>*H){ std::string what=mc_fmt("%s: permutation step from %s with %s",from.c_str(),sts(s).c_str(),ws(w).c_str()); mc_note("%s",what.c_str()); plCurve*A=emb(P,s,what); gsl_rng*r=rs_new(w,1); tsmcmc_edgepermute_step(r,P.T,mut(s.e),mut(s.d),mut(s.a)); gsl_rng_free(r); edges_ok(P,s,ftc,what); double sl=slack(P,s,0); MC_CHECK(sl>-1e-8,"%s: outside by %.3g",what.c_str(),-sl); plCurve*B=emb(P,s,what); if(sl<1e-6){ plc_free(A); plc_free(B); mc_eval(); mc_trans(); mc_outcome("permutation to a flat triangle"); return s; } auto a=evec(A),b=evec(B); std::vector<int> p=shuffled(P.n,ftc!=1,w); bool ok=congruent(a,b,p,1e-5); if(!ok||H){ std::vector<int> q; for(int i=0;i<P.n;i++) q.push_back(i); bool any=false; do { if(ftc!=1&&q[0]!=0) break; if(congruent(a,b,q,1e-5)){ any=true; if(H) (*H)[q]++; break; } } while(std::next_permutation(q.begin(),q.end())); ok=any; } MC_CHECK(ok,"%s: the edges of %s are not a permutation of those before",what.c_str(),sts(s).c_str()); plc_free(A); plc_free(B); mc_eval(); mc_trans(); mc_outcome("permutation step"); return s; }
static St regular(const Poly&P){ double*e,*d,*a; tsmcmc_regular_ngon(P.T,&e,&d,&a); return take(P,e,d,a); }
static St folded(const Poly&P){ double*e,*d,*a; tsmcmc_folded_triangle(P.T,&e,&d,&a); return take(P,e,d,a); }
static St ftcgon(const Poly&P,double f){ double*e,*d,*a; tsmcmc_regular_failure_to_close_ngon(P.T,f,&e,&d,&a); return take(P,e,d,a); }
static void words(size_t m,int k,std::function<void(const std::vector<int>&)> cb){ std::vector<int> d(k,0); for(;;){ cb(d); int i=0; while(i<k&&++d[i]==(int)m) d[i++]=0; if(i==k) return; } }
static const std::vector<std::array<double,2>> GP={{{0.6,0.9}},{{0.7,0.13}},{{0.75,0.5}},{{0.75,0.5+E32}},{{0.5+E32,0.5-E32}},{{0.3,0.55}}};
static const DV UU={0,E32,0.3,0.5,1-E32};
static DV gw(const std::vector<int>&q){ DV g; for(int i:q){ g.push_back(GP[i][0]); g.push_back(GP[i][1]); } return g; }
static const Chords fanC(int n){ Chords c; for(int i=2;i<n-1;i++) c.push_back({{0,i}}); return c; }
// starting polygons
static void starts(int n,const Chords&C){ const Poly&P=poly(n,C); std::string w=chords_str(n,C); mc_note("%s",w.c_str()); St s=regular(P); edges_ok(P,s,1,w); MC_CHECK(slack(P,s,0)>-1e-9,"%s: regular polygon",w.c_str()); plCurve*L=emb(P,s,w); polygon_ok(L,n,1,0,w); auto chord=[&](int i,int j){ return std::sin(M_PI*std::abs(i-j)/n)/std::sin(M_PI/n); }; for(int i=0;i<n;i++) for(int j=0;j<i;j++) MC_CHECK(std::fabs(vdist(vv(L->cp[0].vt[i]),vv(L->cp[0].vt[j]))-chord(i,j))<1e-6,"%s: regular polygon: vertices %d and %d at distance %.9g instead of %.9g",w.c_str(),i,j,vdist(vv(L->cp[0].vt[i]),vv(L->cp[0].vt[j])),chord(i,j)); plc_free(L); mc_state("r"+w); mc_trans();
  s=folded(P); edges_ok(P,s,1,w); MC_CHECK(slack(P,s,0)>-1e-9,"%s: folded triangle",w.c_str()); L=emb(P,s,w); polygon_ok(L,n,1,C==fanC(n)?1+1e-9:0,w+" folded triangle"); plc_free(L);
  DV F; for(int i=1;i<8*(n-1);i++) F.push_back(i/8.0); for(double x:{1e-5,1e-3,0.01,0.03,0.06,0.999,1.001,1+1e-6,1-1e-6}) F.push_back(x); for(double x:{0.01,0.03,0.06}) F.push_back(n-1-x); for(size_t i=0;i<F.size();i++){ double f=F[i]; mc_note("%s ftc %g",w.c_str(),f); St q=ftcgon(P,f); edges_ok(P,q,f,w); MC_CHECK(slack(P,q,0)>-1e-9,"%s: polygon with first edge %g",w.c_str(),f); plCurve*M=emb(P,q,w); polygon_ok(M,n,f,0,mc_fmt("%s, first edge %g",w.c_str(),f)); auto e=evec(M); for(size_t x=0;x<e.size();x++) for(size_t y=0;y<x;y++) for(size_t z=0;z<y;z++) MC_CHECK(std::fabs(vdot(e[x],vcross(e[y],e[z])))<1e-5,"%s, first edge %g: not planar",w.c_str(),f); if(n>3) for(int x=0;x+4<=n;x++){ /* inscribed: equal turning angles along the unit edges */ if(x+3<n) MC_CHECK(std::fabs(vdot(e[1],e[2])-vdot(e[x+1],e[x+2]))<1e-5,"%s, first edge %g: not inscribed in a circle",w.c_str(),f); } plc_free(M); mc_state(mc_fmt("f%zu %s",i,w.c_str())); mc_trans(); mc_outcome("starting polygon"); } mc_trace(); }
static std::vector<St> bases(const Poly&P,double ftc){ std::vector<St> v; v.push_back(ftc==1?regular(P):ftcgon(P,ftc)); if(ftc==1&&P.n>3) v.push_back(folded(P)); return v; }
static void steps(int n,const Chords&C,double ftc,double R,bool T){ const Poly&P=poly(n,C); int k=n-3; std::string from=mc_fmt("%s ftc %g R %g",chords_str(n,C).c_str(),ftc,R); std::vector<St> B=bases(P,ftc); if(R>0){ std::vector<St> b2; for(auto&s:B) if(slack(P,s,R)>-1e-9) b2.push_back(s); B=b2; } // a second generation: corners and interior points reached by one step
  std::vector<St> B2; std::set<std::string> seen; for(auto&s:B) words(GP.size(),k,[&](const std::vector<int>&q){ for(double u:UU){ St t=mp(P,s,gw(q),u,R,from); std::string id; for(double x:t.d) id+=mc_fmt("%.6f ",x); if(seen.insert(id).second&&B2.size()<(T?400u:60u)) B2.push_back(t); mc_state(from+id); } }); for(auto&s:B2) words(GP.size(),k,[&](const std::vector<int>&q){ for(double u:UU) mp(P,s,gw(q),u,R,from); }); mc_trace(); }
static DV perw(int n,const std::vector<int>&c){ DV w; for(int i=n-1;i>0;i--) w.push_back((c[n-1-i]+0.5)/(i+1)); return w; }
// all histories of steps up to a depth
static void histories(int n,const Chords&C,double ftc,int depth,bool T){ const Poly&P=poly(n,C); int k=n-3; std::string from=mc_fmt("%s ftc %g",chords_str(n,C).c_str(),ftc); std::vector<std::pair<int,DV>> A; for(int g=0;g<(n==4?5:2);g++) for(double u:n==4?UU:DV{0,0.4,1-E32}){ std::vector<int> q(k,g); for(int i=0;i<k;i++) q[i]=(g+i)%2; if(n==4) q[0]=g; DV w=gw(q); w.push_back(u); A.push_back({0,w}); } for(double u:{0.0,0.3,0.5,1-E32}) A.push_back({1,DV(k,u)}); if(k>1) A.push_back({1,{0.2,0.7,0.9}}); int m=ftc==1?n:n-1; std::vector<std::vector<int>> sh; { std::vector<int> c(m-1,0); for(;;){ sh.push_back(c); int i=0; while(i<m-1&&++c[i]==m-i) c[i++]=0; if(i==m-1) break; } } for(size_t i=0;i<sh.size();i++) if(n==4||i%7==1||i==0) A.push_back({2,perw(m,sh[i])});
  std::function<void(const St&,int)> go=[&](const St&s,int dep){ plCurve*L=emb(P,s,from); polygon_ok(L,n,ftc,0,from); plc_free(L); if(dep==0){ mc_trace(); return; } for(auto&a:A){ St t; if(a.first==0){ DV g(a.second.begin(),a.second.end()-1); t=mp(P,s,g,a.second.back(),0,from); } else if(a.first==1) t=dih(P,s,a.second,from); else t=per(P,s,a.second,ftc,from,NULL); std::string id; for(double x:t.d) id+=mc_fmt("%.5f ",x); for(double x:t.a) id+=mc_fmt("%.4f ",x); mc_state(from+id); go(t,dep-1); } }; for(auto&s:bases(P,ftc)) go(s,depth); }
// the permutation step is uniform over all permutations
static void uniform(int n,double ftc){ const Poly&P=poly(n,fanC(n)); std::string from=mc_fmt("fan %d ftc %g",n,ftc); St s=ftc==1?regular(P):ftcgon(P,ftc); DV g; for(int i=0;i<n-3;i++){ g.push_back(0.6+0.05*i); g.push_back(0.8-0.11*i); } s=mp(P,s,g,0.35,0,from); DV u; for(int i=0;i<n-3;i++) u.push_back(0.17+0.23*i); s=dih(P,s,u,from); std::map<std::vector<int>,long> H; int m=ftc==1?n:n-1; std::vector<int> c(m-1,0); long cnt=0; for(;;){ per(P,s,perw(m,c),ftc,from,&H); cnt++; int i=0; while(i<m-1&&++c[i]==m-i) c[i++]=0; if(i==m-1) break; } long sym=n==4&&ftc==1?4:1; /* a skew rhombus has 4 symmetries */ MC_CHECK((long)H.size()*sym==cnt,"%s: %zu different permutations from %ld shuffles",from.c_str(),H.size(),cnt); for(auto&h:H) MC_CHECK(h.second==sym,"%s: one permutation %ld times",from.c_str(),h.second); mc_trace(); mc_state(from); }
// choice of the step
static void choice(int n,bool T){ const Poly&P=poly(n,fanC(n)); St s0=regular(P); s0=mp(P,s0,n==4?DV{0.6,0.8}:DV{0.6,0.8,0.65,0.7},0.35,0,"choice"); s0=dih(P,s0,{0.3,0.6},"choice"); St c0=folded(P); int G=T?40:20; for(double beta:{0.0,0.25,0.5,0.9,1.0}) for(double delta:{0.0,0.3,0.75,1.0}) for(int rep:{1,2,5}){ long cnt[3]={0,0,0},c2[2]={0,0},c3[2]={0,0}; auto chk=[&](const St&o,const St&s,tsmcmc_step_t t,const char*w){ bool dc=o.d!=s.d,ac=o.a!=s.a; MC_CHECK(s.e.size()==o.e.size()&&(t==permute||s.e==o.e),"%s: edge lengths",w); if(t==moment_polytope) MC_CHECK(!ac&&dc,"%s: a moment polytope step changed the angles or nothing",w); if(t==dihedral) MC_CHECK(!dc&&ac,"%s: a dihedral step changed the diagonals or nothing",w); mc_eval(); mc_trans(); };
    DV tail={0.61,0.77,0.72,0.33,0.4,0.55,0.9,0.8,0.45,0.21,0.66,0.71,0.58,0.92,0.15}; for(double b:{0.0,0.5,1-E32}) for(double d:{0.0,0.5,1-E32}){ DV w={b,d}; w.insert(w.end(),tail.begin(),tail.end()); St s=s0; gsl_rng*r=rs_new(w,1); tsmcmc_step_t t=tsmcmc_dihedral_diagonal_permute_step(r,P.T,mut(s.e),mut(s.d),mut(s.a),beta,delta,rep); gsl_rng_free(r); std::string what=mc_fmt("%d-gon, beta %g delta %g repeat %d, numbers %.10g %.10g",n,beta,delta,rep,b,d); chk(s0,s,t,what.c_str()); if(delta==0) MC_CHECK(t!=permute,"%s: a permutation step although their probability is 0",what.c_str()); if(delta==1) MC_CHECK(t==permute,"%s: another step although the probability of permutations is 1",what.c_str()); if(beta==0) MC_CHECK(t!=moment_polytope,"%s: a moment polytope step although their probability is 0",what.c_str()); if(beta==1) MC_CHECK(t!=dihedral,"%s: a dihedral step although their probability is 0",what.c_str()); if(d==0.5){ DV w1={b}; w1.insert(w1.end(),tail.begin(),tail.end()); for(int k=0;k<2;k++){ St q=k?c0:s0; gsl_rng*r1=rs_new(w1,1); tsmcmc_step_t u=k?tsmcmc_confined_dihedral_diagonal_step(r1,P.T,1.4,mut(q.e),mut(q.d),mut(q.a),beta,rep):tsmcmc_dihedral_diagonal_step(r1,P.T,mut(q.e),mut(q.d),mut(q.a),beta); gsl_rng_free(r1); if(beta==0||beta==1) MC_CHECK(u==(beta==0?dihedral:moment_polytope),"%s: two-step choice",what.c_str()); } } }
    for(int i=0;i<G;i++) for(int j=0;j<G;j++){ double b=(i+0.5)/G,d=(j+0.5)/G; DV w={b,d}; w.insert(w.end(),tail.begin(),tail.end()); St s=s0; gsl_rng*r=rs_new(w,1); tsmcmc_step_t t=tsmcmc_dihedral_diagonal_permute_step(r,P.T,mut(s.e),mut(s.d),mut(s.a),beta,delta,rep); cnt[t]++; std::string what=mc_fmt("%d-gon, beta %g delta %g repeat %d, numbers %g %g",n,beta,delta,rep,b,d); mc_note("%s",what.c_str()); chk(s0,s,t,what.c_str()); gsl_rng_free(r); if(t!=dihedral){ St q=s0; DV w2=tail; gsl_rng*r2=rs_new(w2,1); if(t==permute) tsmcmc_edgepermute_step(r2,P.T,mut(q.e),mut(q.d),mut(q.a)); else for(int x=0;x<rep;x++) tsmcmc_moment_polytope_step(r2,P.T,mut(q.e),mut(q.d)); gsl_rng_free(r2); for(int x=0;x<n-3;x++) MC_CHECK(std::fabs(q.d[x]-s.d[x])<1e-9,"%s: not the same as %d single steps",what.c_str(),t==permute?1:rep); } }
    for(int i=0;i<G;i++){ double b=(i+0.5)/G; DV w={b}; w.insert(w.end(),tail.begin(),tail.end()); std::string what=mc_fmt("%d-gon, beta %g repeat %d, number %g",n,beta,rep,b); { St s=s0; gsl_rng*r=rs_new(w,1); tsmcmc_step_t t=tsmcmc_dihedral_diagonal_step(r,P.T,mut(s.e),mut(s.d),mut(s.a),beta); gsl_rng_free(r); MC_CHECK(t!=permute,"%s: permutation",what.c_str()); chk(s0,s,t,what.c_str()); c2[t==dihedral]++; } { St s=c0; double R=1.4; gsl_rng*r=rs_new(w,1); tsmcmc_step_t t=tsmcmc_confined_dihedral_diagonal_step(r,P.T,R,mut(s.e),mut(s.d),mut(s.a),beta,rep); gsl_rng_free(r); MC_CHECK(t!=permute,"%s: permutation",what.c_str()); MC_CHECK(slack(P,s,R)>-1e-9,"%s: confined step leaves",what.c_str()); chk(c0,s,t,what.c_str()); c3[t==dihedral]++; if(t==moment_polytope){ St q=c0; DV w2=tail; gsl_rng*r2=rs_new(w2,1); for(int x=0;x<rep;x++) tsmcmc_confined_moment_polytope_step(r2,P.T,R,mut(q.e),mut(q.d)); gsl_rng_free(r2); for(int x=0;x<n-3;x++) MC_CHECK(std::fabs(q.d[x]-s.d[x])<1e-9,"%s: not the same as %d single steps",what.c_str(),rep); } } }
    auto near=[&](long a,double f,long N){ return std::fabs(a-f*N)<=1e-9*N+(double)N/G*0.51; }; long N=(long)G*G; MC_CHECK(near(cnt[permute],delta,N)&&std::fabs(cnt[moment_polytope]-(1-delta)*beta*N)<=1.1*N/G&&cnt[0]+cnt[1]+cnt[2]==N,"%d-gon, beta %g delta %g: %ld moment polytope, %ld dihedral, %ld permutation steps of %ld choices",n,beta,delta,cnt[moment_polytope],cnt[dihedral],cnt[permute],N); MC_CHECK(near(c2[0],beta,G)&&near(c3[0],beta,G),"%d-gon, beta %g: %ld and %ld moment polytope steps of %d choices",n,beta,c2[0],c3[0],G); mc_state(mc_fmt("%d %g %g %d",n,beta,delta,rep)); mc_outcome("choice of the step"); } mc_trace(); }
// drivers
static struct Rec { std::vector<double> v; int n; double ftc,R; std::string w; void*args; std::set<std::string>*shapes; } rec;
static double integrand(plCurve*L,void*args){ MC_CHECK(args==(void*)&rec,"%s: integrand called with other arguments",rec.w.c_str()); polygon_ok(L,rec.n,rec.ftc,rec.R,rec.w); const plc_vector*v=L->cp[0].vt; double x=0; for(int i=0;i<rec.n;i++) x+=(i+1)*vdot(vv(v[i]),vv(v[(i+2)%rec.n]))+vdist(vv(v[i]),vv(v[rec.n/2])); if(rec.shapes) rec.shapes->insert(mc_fmt("%.5f",x)); rec.v.push_back(x); return x; }
static void driver(int kind,const Poly&P,double par,int steps,tsmcmc_run_parameters rp,const DV&w,unsigned long cont,bool log,bool wantstats){ int n=P.n; std::string what=mc_fmt("%s, %s %g, %d steps (%d burn-in), beta %g delta %g repeat %d, numbers %s(continuation %lu)",chords_str(n,P.C).c_str(),kind==0?"equilateral":kind==1?"confined":"failure to close",par,steps,rp.burn_in,rp.beta,rp.delta,rp.moment_polytope_repeat,ws(w).c_str(),cont); mc_note("%s",what.c_str()); std::set<std::string> shapes; rec=Rec{{},n,kind==2?par:1.0,kind==1?par:0.0,what,NULL,&shapes}; std::string fn=mc_tmp+"/C15log"; if(log){ rp.logfile=fopen(fn.c_str(),"w"); MC_CHECK(rp.logfile,"no log file"); } tsmcmc_run_stats st; memset(&st,0x55,sizeof st); double err=-1; gsl_rng*r=rs_new(w,cont); double v=kind==0?tsmcmc_equilateral_expectation(r,integrand,&rec,steps,1000,P.T,rp,wantstats?&st:NULL,&err):kind==1?tsmcmc_confined_equilateral_expectation(r,integrand,&rec,par,n,steps,1000,rp,wantstats?&st:NULL,&err):tsmcmc_fixed_ftc_expectation(r,integrand,&rec,par,steps,1000,P.T,rp,wantstats?&st:NULL,&err); gsl_rng_free(r);
  int m=rec.v.size(); MC_CHECK(m==steps-1-rp.burn_in,"%s: %d polygons were averaged",what.c_str(),m); double mean=0; for(double x:rec.v) mean+=x; if(m) mean/=m; MC_CHECK(std::fabs(v-mean)<1e-9*(1+std::fabs(mean)),"%s: returned %.12g, the mean is %.12g",what.c_str(),v,mean); double e2=0; if(m) ips_value(rec.v.data(),m,&e2); { bool ok=std::fabs(err-e2)<1e-6*(1+e2); double var=0; for(double x:rec.v) var+=(x-mean)*(x-mean); double s0=m?1.96*std::sqrt(var/m)/std::sqrt((double)m):0; if(!ok&&(e2<1e-5*(1+s0)||err<1e-5*(1+s0))) ok=true; MC_CHECK(ok,"%s: error %.12g instead of %.12g",what.c_str(),err,e2); }
  if(wantstats){ MC_CHECK(st.dihedral_steps>=0&&st.mp_steps>=0&&st.permute_steps>=0&&st.dihedral_steps+st.mp_steps+st.permute_steps==steps,"%s: %d + %d + %d steps counted",what.c_str(),st.dihedral_steps,st.mp_steps,st.permute_steps); if(kind==1) MC_CHECK(st.permute_steps==0,"%s: permutations in confinement",what.c_str()); MC_CHECK((rp.beta!=0||st.mp_steps==0)&&(rp.beta!=1||st.dihedral_steps==0)&&(kind==1||((rp.delta!=0||st.permute_steps==0)&&(rp.delta!=1||st.permute_steps==steps))),"%s: %d dihedral, %d moment polytope, %d permutation steps",what.c_str(),st.dihedral_steps,st.mp_steps,st.permute_steps); MC_CHECK(st.total_seconds>=0&&st.geyer_ips_seconds>=0&&st.max_lagged_covariance_used>=0&&st.lagged_covariances_available>=st.max_lagged_covariance_used,"%s: statistics",what.c_str()); char*q=tsmcmc_run_stats_MathematicaForm(st); std::string s=q; free(q); for(auto&x:std::vector<std::pair<const char*,int>>{{"\"dihedral steps\" -> ",st.dihedral_steps},{"\"moment polytope steps\" -> ",st.mp_steps},{"\"permute steps\" -> ",st.permute_steps},{"\"max lagged covariance used\" -> ",st.max_lagged_covariance_used},{"\"lagged covariances available\" -> ",st.lagged_covariances_available}}){ std::string t=mc_fmt("%s%d,",x.first,x.second); MC_CHECK(s.find(t)!=std::string::npos,"%s: printed statistics %s",what.c_str(),s.c_str()); } }
  if(log){ fclose(rp.logfile); FILE*f=fopen(fn.c_str(),"r"); char*line=NULL; size_t cap=0; std::vector<int> seen; double run=0; int k=0; while(getline(&line,&cap,f)>0){ int i; MC_CHECK(sscanf(line,"{ \"step number\"->%d, {\"nedges\"->%*d",&i)==1,"%s: log line %s",what.c_str(),line); seen.push_back(i); MC_CHECK(i%rp.log_interval==0&&i>=0&&i<steps,"%s: step %d logged",what.c_str(),i); std::string s=line; size_t p=s.find("\"integrand\"->"); MC_CHECK(p!=std::string::npos,"%s: log line %s",what.c_str(),line); double a,b; MC_CHECK(sscanf(s.c_str()+p,"\"integrand\"->%lf, \"sample mean\"->%lf }",&a,&b)==2,"%s: log line %s",what.c_str(),line); while(k<=i-rp.burn_in-1&&k<m) run+=rec.v[k++]; if(i>rp.burn_in){ MC_CHECK(std::fabs(a-rec.v[i-rp.burn_in-1])<=1e-5*(1e-3+std::fabs(a)),"%s: step %d logs the value %g instead of %g",what.c_str(),i,a,rec.v[i-rp.burn_in-1]); MC_CHECK(std::fabs(b-run/k)<=1e-5*(1e-3+std::fabs(b)),"%s: step %d logs the sample mean %g instead of %g",what.c_str(),i,b,run/k); } else MC_CHECK(a==0&&b==0,"%s: step %d logs %g and %g before sampling",what.c_str(),i,a,b); mc_outcome("log line"); mc_eval(); } free(line); fclose(f); remove(fn.c_str()); std::set<int> ss(seen.begin(),seen.end()); MC_CHECK(ss.size()==seen.size(),"%s: a step is logged twice",what.c_str()); for(int i=rp.burn_in+1;i<steps;i++) MC_CHECK(ss.count(i)==(size_t)(i%rp.log_interval==0),"%s: step %d%s logged",what.c_str(),i,ss.count(i)?"":" not"); }
  if(w.empty()&&m>20&&n>3&&!(kind!=1&&rp.delta==1&&n<5)) MC_CHECK(shapes.size()>=3,"%s: only %zu different polygons",what.c_str(),shapes.size()); mc_trace(); mc_trans(steps); mc_eval(); mc_state(mc_fmt("%d %d %.6f",kind,n,v)); mc_outcome(kind==0?"equilateral":kind==1?"confined":"failure to close"); }
static std::vector<std::string> nums(const std::string&s,const char*key){ std::vector<std::string> r; size_t p=s.find(key); if(p==std::string::npos){ r.push_back("missing"); return r; } p+=strlen(key); MC_CHECK(s[p]=='{',"%s",s.c_str()); p++; std::string cur; for(;p<s.size()&&s[p]!='}';p++){ if(s[p]==','){ r.push_back(cur); cur=""; } else cur+=s[p]; } if(!cur.empty()) r.push_back(cur); return r; }
void mc_main(){ bool T=mc_thorough;
  for(int n=3;n<=(T?9:8);n++) mc_case(mc_fmt("starting polygons %d",n),[=]{ for(auto&C:all_triangulations(n)) starts(n,C); });
  for(int n:{12,20,33,64}) mc_case(mc_fmt("starting polygons %d",n),[=]{ starts(n,fanC(n)); });
  mc_case("long starting polygons",[=]{ for(int n:{12,20,37}) starts(n,fanC(n)); });
  for(int n=3;n<=(T?7:6);n++) for(double ftc:{1.0,0.25,2.0}) if(ftc<n-1) { auto A=all_triangulations(n); for(size_t i=0;i<A.size();i++) mc_case(mc_fmt("steps %d/%zu ftc %g",n,i,ftc),[=]{ steps(n,A[i],ftc,0,T&&n<6); }); }
  for(int n=4;n<=(T?7:6);n++) for(double R:{1.0001,1.3,1.75,2.5,4.0}) mc_case(mc_fmt("confined steps %d R %g",n,R),[=]{ steps(n,fanC(n),1,R,T&&n<6); });
  for(double ftc:{1.0,0.5,2.5}) for(int t=0;t<2;t++) mc_case(mc_fmt("histories 4/%d ftc %g",t,ftc),[=]{ histories(4,all_triangulations(4)[t],ftc,T?3:2,T); }); for(double ftc:{1.0,2.0}) for(int t=0;t<5;t++) mc_case(mc_fmt("histories 5/%d ftc %g",t,ftc),[=]{ histories(5,all_triangulations(5)[t],ftc,T?3:2,T); }); for(int t=0;t<14;t+=T?1:4) mc_case(mc_fmt("histories 6/%d",t),[=]{ histories(6,all_triangulations(6)[t],1,2,T); });
  for(int n=4;n<=(T?7:6);n++) for(double ftc:{1.0,1.5,1.002,0.999,1+1e-6}) mc_case(mc_fmt("permutations %d ftc %.8g",n,ftc),[=]{ uniform(n,ftc); }); mc_case("choice 4",[=]{ choice(4,T); }); mc_case("choice 5",[=]{ choice(5,T); });
  for(int kind=0;kind<3;kind++) for(int n=3;n<=8;n++) mc_case(mc_fmt("driver %d/%d",kind,n),[=]{ std::vector<Chords> TR; if(kind==1) TR={fanC(n)}; else { TR=all_triangulations(n); if(TR.size()>(T?20u:4u)) { std::vector<Chords> q; size_t stp=TR.size()/(T?20:4); for(size_t i=0;i<TR.size();i+=stp) q.push_back(TR[i]); TR=q; } } DV pars=kind==0?DV{1}:kind==1?DV{1.0001,1.5,3}:DV{0.25,1,1.75}; unsigned long c=1; for(auto&C:TR) for(double par:pars) for(double beta:{0.0,0.5,1.0}) for(double delta:{0.0,0.5,1.0}) for(int rep:{1,3}){ tsmcmc_run_parameters rp=kind==1?tsmcmc_default_confined_parameters():tsmcmc_default_unconfined_parameters(); rp.beta=beta; rp.delta=delta; rp.moment_polytope_repeat=rep; for(auto&sb:std::vector<std::array<int,3>>{{{2,1,1}},{{3,1,1}},{{9,2,2}},{{60,5,7}}}){ rp.burn_in=sb[1]; rp.log_interval=sb[2]; const Poly&P=poly(n,C); driver(kind,P,par,sb[0],rp,{},c++,true,c&1); driver(kind,P,par,sb[0],rp,{0,0.7,0,0.3,E32,0.6,1-E32},c++,false,true); } } });
  // extreme numbers at every place of the chain
  for(int kind=0;kind<3;kind++) mc_case(mc_fmt("extreme numbers %d",kind),[=]{ for(int n:{4,5,6}) for(double par:kind==0?DV{1}:kind==1?DV{1.05,1.6,2.0}:DV{0.5,2.0}) { const Poly&P=poly(n,fanC(n)); tsmcmc_run_parameters rp=tsmcmc_default_unconfined_parameters(); rp.burn_in=1; rp.beta=0.7; rp.delta=kind==1?0:0.3; rp.moment_polytope_repeat=1; int LEN=T?60:40; for(int at=0;at<LEN;at++) for(int len:{1,2,3,5,8}) for(double x:{0.0,E32,0.5,0.5+E32,0.5-E32,1-E32}){ DV w; unsigned long s=n*7+at%3; for(int i=0;i<at;i++){ s=s*6364136223846793005UL+1442695040888963407UL; w.push_back((s>>33)/2147483648.0); } for(int i=0;i<len;i++) w.push_back(x==0.5&&i%2==0?0.6:x); driver(kind,P,par,16,rp,w,at+3,false,true); } } });
  for(int kind=0;kind<3;kind++) mc_case(mc_fmt("long runs %d",kind),[=]{ for(int n:{6,10,23}) for(int c=0;c<(T?10:2);c++){ const Poly&P=poly(n,fanC(n)); tsmcmc_run_parameters rp=kind==1?tsmcmc_default_confined_parameters():tsmcmc_default_unconfined_parameters(); driver(kind,P,kind==0?1:kind==1?2.0:1.5,T?4000:1500,rp,{},100+c,false,true); if(n==23){ rp.burn_in=10; driver(kind,P,kind==0?1:kind==1?2.0:1.5,40,rp,{},200+c,true,true); } } for(int n:{60,150}){ const Poly&P=poly(n,fanC(n)); tsmcmc_run_parameters rp=kind==1?tsmcmc_default_confined_parameters():tsmcmc_default_unconfined_parameters(); rp.burn_in=3; rp.log_interval=2; driver(kind,P,kind==0?1:kind==1?2.0:1.5,30,rp,{},300,true,true); } });
  // printed forms and tests
  mc_case("printed forms",[=]{ for(int n:{3,4,5,6,9,40,100,300}){ const Poly&P=poly(n,fanC(n)); St s=regular(P); for(size_t i=0;i<s.d.size();i++){ s.d[i]+=1.0/(7+i); s.a[i]=1e-9/(i+3); } mc_note("configuration of %d edges",n); char*q=tsmcmc_configuration_MathematicaForm(P.T,mut(s.e),mut(s.d),mut(s.a)); std::string t=q; free(q); MC_CHECK(t.find(mc_fmt("{\"nedges\"->%d, \"ntri\"->%d, \"ndiags\"->%d,",n,n-2,n-3))==0&&t.substr(t.size()-2)=="}}","%s",t.c_str()); auto cmp=[&](const char*key,const DV&v){ auto x=nums(t,key); MC_CHECK(x.size()==v.size(),"%d edges: %s: %zu numbers",n,key,x.size()); for(size_t i=0;i<v.size();i++) MC_CHECK(std::fabs(atof(x[i].c_str())-v[i])<=1e-5*std::fabs(v[i]),"%d edges: %s: number %zu is %s",n,key,i,x[i].c_str()); }; cmp("\"edge_lengths\"->",s.e); cmp("\"diagonal_lengths\"->",s.d); cmp("\"dihedral_angles\"->",s.a); mc_eval(); mc_trans(); }
    for(int len:{0,1,10,500,900,1000,1023,1024,2000,4095}){ tsmcmc_run_parameters rp=tsmcmc_default_unconfined_parameters(); rp.burn_in=len+7; rp.beta=0.125; rp.delta=0.375; rp.moment_polytope_repeat=len+3; std::string nm(len,'x'); strcpy(rp.logfile_name,nm.c_str()); mc_note("parameters with a name of %d characters",len); char*q=tsmcmc_run_params_MathematicaForm(rp); std::string s=q; free(q); for(auto&x:{mc_fmt("\"burn in steps\" -> %d,",len+7),mc_fmt("\"delta (permute fraction)\" -> 0.375,"),mc_fmt("\"beta (mp fraction)\" -> 0.125,"),mc_fmt("\"moment polytope repeat\" -> %d,",len+3),"\"log file\"->\""+nm+"\" }"}) MC_CHECK(s.find(x)!=std::string::npos,"printed parameters %s lack %s",s.c_str(),x.c_str()); mc_eval(); mc_trans(); } mc_state("printed"); mc_trace(); });
  mc_case("tests",[=]{ for(int n=3;n<=(T?6:5);n++) for(auto&C:all_triangulations(n)){ const Poly&P=poly(n,C); DV V={0.1,0.4,1,1.5,2,2.01,3}; words(V.size(),n-3,[&](const std::vector<int>&q){ for(double e0:{1.0,0.5,2.2,1+3e-8,1-3e-8}) for(int ne=1;ne<(n>3?2:3);ne++){ St s; s.e=DV(n,1); s.e[0]=e0; if(ne==2) s.e[2]=1.1; for(int x:q) s.d.push_back(V[x]); s.a=DV(n-3,0.5); std::string what=mc_fmt("%s with %s",chords_str(n,C).c_str(),sts(s).c_str()); mc_note("%s",what.c_str()); double sl=slack(P,s,0); if(std::fabs(sl)<1e-12) sl=0; double*e=mut(s.e),*d=mut(s.d); if(sl!=0) MC_CHECK(tsmcmc_diagonals_ok(P.T,e,d)==(sl>0),"%s: triangle inequalities %s",what.c_str(),sl>0?"hold":"fail"); for(double R:{1.2,2.5}){ double s2=slack(P,s,R); if(std::fabs(s2)>1e-12) MC_CHECK(tsmcmc_confined_diagonals_ok(P.T,R,e,d,0)==(s2>0),"%s: confinement to %g %s",what.c_str(),R,s2>0?"holds":"fails"); } MC_CHECK(tsmcmc_edgelengths_equilateral(P.T,e)==(e0==1&&ne==1),"%s: equilateral",what.c_str()); MC_CHECK(tsmcmc_edgelengths_obey_ftc(P.T,e0,e)==(ne==1)&&!tsmcmc_edgelengths_obey_ftc(P.T,e0+0.01,e),"%s: failure to close",what.c_str()); mc_eval(); mc_trans(); mc_outcome(sl>0?"inside":"outside"); } }); } mc_state("tests"); mc_trace(); });
}
