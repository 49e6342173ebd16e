// C13: random polygons have the shape they promise for every sequence of random numbers, and equilateral ones are equidistributed.
#include "curve.hpp"
#include "rngscript.hpp"
#include <functional>
#include <algorithm>
#include <map>
extern "C" { bool plc_is_sap(plCurve*); double plc_xoshiro_uniform(uint64_t*); }
static const double E32=1/4294967296.0;
static double total(const plCurve*L){ double s=0; for(int c=0;c<L->nc;c++){ int n=L->cp[c].nv; for(int i=0;i+1<n;i++) s+=vdist(vv(L->cp[c].vt[i]),vv(L->cp[c].vt[i+1])); if(!L->cp[c].open) s+=vdist(vv(L->cp[c].vt[n-1]),vv(L->cp[c].vt[0])); } return s; }
static void shape(const plCurve*L,int nv,bool open,const char*what){ std::string b=curve_bad(L); if(!b.empty()) mc_fail("%s: %s",what,b.c_str()); MC_CHECK(L->nc==1&&L->cp[0].nv==nv&&L->cp[0].open==open&&L->cst==NULL,"%s: %d components, %d vertices, open %d",what,L->nc,L->cp[0].nv,L->cp[0].open); for(int i=0;i<nv;i++) for(int j=0;j<3;j++) MC_CHECK(std::isfinite(L->cp[0].vt[i].c[j]),"%s: vertex %d is %s",what,i,vstr(vv(L->cp[0].vt[i])).c_str()); mc_eval(); }
static void words(const std::vector<double>&U,int L,std::function<void(const std::vector<double>&)> cb){ std::vector<int> d(L,0); for(;;){ std::vector<double> w; for(int x:d) w.push_back(U[x]); cb(w); int i=0; while(i<L&&++d[i]==(int)U.size()) d[i++]=0; if(i==L) return; } }
static std::string ws(const std::vector<double>&w){ std::string s; for(double x:w) s+=mc_fmt("%.10g ",x); return s; }
enum { SC,SO,PC,PO,EC,EO };
static const char*gn[]={"closed space polygon","open space polygon","closed plane polygon","open plane polygon","equilateral closed polygon","equilateral open polygon"};
static plCurve*gen(int g,gsl_rng*r,int n){ switch(g){ case SC: return plc_random_closed_polygon(r,n); case SO: return plc_random_open_polygon(r,n); case PC: return plc_random_closed_plane_polygon(r,n); case PO: return plc_random_open_plane_polygon(r,n); case EC: return plc_random_equilateral_closed_polygon(r,n); default: return plc_random_equilateral_open_polygon(r,n); } }
static void one(int g,int n,const std::vector<double>&w,unsigned long cont){ std::string what=mc_fmt("%s with %d edges, random numbers %s(continuation %lu)",gn[g],n,ws(w).c_str(),cont); mc_note("%s",what.c_str()); gsl_rng*r=rs_new(w,cont); plCurve*L=gen(g,r,n); bool open=g==SO||g==PO||g==EO; MC_CHECK(L,"%s: nothing returned",what.c_str()); shape(L,open?n+1:n,open,what.c_str()); const plc_vector*v=L->cp[0].vt;
  if(g<EC||g==EO) MC_CHECK(std::fabs(total(L)-2)<1e-9,"%s: length %.17g",what.c_str(),total(L));
  if(g==EC||g==EO) for(int i=0;i<n;i++){ double e=vdist(vv(v[i]),vv(v[(i+1)%L->cp[0].nv])),x=g==EC?1:2.0/n; MC_CHECK(std::fabs(e-x)<1e-7,"%s: edge %d has length %.17g",what.c_str(),i,e); }
  if(g==PC||g==PO){ std::vector<V3> e; for(int i=0;i+1<L->cp[0].nv;i++) e.push_back(vadd(vv(v[i+1]),vv(v[i]),-1)); for(size_t i=0;i<e.size();i++) for(size_t j=0;j<i;j++) for(size_t k=0;k<j;k++) MC_CHECK(std::fabs(vdot(e[i],vcross(e[j],e[k])))<1e-12,"%s: not in a plane",what.c_str()); }
  mc_state(mc_fmt("%d %d %.6f %.6f",g,n,v[n/2].c[0],v[1].c[0])); mc_trans(rs_used<64?rs_used:64); mc_trace(); mc_outcome(gn[g]); plc_free(L); gsl_rng_free(r); }
// distribution: over a full grid of random numbers the accepted equilateral polygons are uniform in diagonals and dihedral angles
static double dihed(const plc_vector*v,int k){ V3 o=vv(v[0]),d=vadd(vv(v[k+1]),o,-1); auto prp=[&](int i){ V3 x=vadd(vv(v[i]),o,-1); return vadd(x,d,-vdot(x,d)/vdot(d,d)); }; V3 a=prp(k),b=prp(k+2); double t=atan2(vdot(vcross(a,b),d)/vnorm(d),vdot(a,b)); return t<0?t+2*M_PI:t; }
static void dist(int n,int ND,int NT){ int k=n-3; std::map<std::vector<int>,long> H; long acc=0; std::vector<int> d(2*k,0); std::vector<int> N; for(int i=0;i<2*k;i++) N.push_back(i<k?ND:NT); const int KD=4,KT=4; // the first k choices are fine
  std::map<std::vector<int>,std::vector<long>> M; // diagonal cell -> counts per angle cell
  std::vector<std::vector<long>> marg(k,std::vector<long>(KT,0));
  for(;;){ std::vector<double> w; for(int i=0;i<2*k;i++) w.push_back((d[i]+0.5)/N[i]+1e-7); gsl_rng*r=rs_new(w,7); plCurve*L=plc_random_equilateral_closed_polygon(r,n); if(rs_used==(size_t)2*k){ acc++; std::vector<int> dc; for(int i=0;i<k;i++) dc.push_back((int)std::min(KD*4-1.0,std::floor(vdist(vv(L->cp[0].vt[i+2]),vv(L->cp[0].vt[0]))*KD))); int tc=0; for(int i=0;i<k;i++){ int c=std::min(KT-1,(int)(dihed(L->cp[0].vt,i+1)/(2*M_PI)*KT)); tc=tc*KT+c; marg[i][c]++; } auto&m=M[dc]; m.resize((long)pow(KT,k)); m[tc]++; H[dc]++; } mc_trans(); plc_free(L); gsl_rng_free(r); int i=0; while(i<2*k&&++d[i]==N[i]) d[i++]=0; if(i==2*k) break; }
  MC_CHECK(acc>0,"no polygon of %d edges was accepted",n); long tcells=(long)pow(KT,k); // reference volume of every diagonal cell by the same grid: d_0=1, |d_i-d_{i-1}|<=1, d_i+d_{i-1}>=1, last in [0,2]
  std::map<std::vector<int>,double> V; double vol=0; int G=k==1?4096:k==2?1024:128; std::vector<int> q(k,0); for(;;){ std::vector<double> x; double p=1; bool ok=true; std::vector<int> dc; for(int i=0;i<k;i++){ double y=(q[i]+0.5)*(i+2.0)/G; if(y>p+1||y<p-1||y+p<1) ok=false; dc.push_back((int)std::floor(y*KD)); p=y; } if(p>2) ok=false; if(ok){ double cell=1; for(int i=0;i<k;i++) cell*=(i+2.0)/G; V[dc]+=cell; vol+=cell; } int i=0; while(i<k&&++q[i]==G) q[i++]=0; if(i==k) break; }
  for(auto&p:H){ double f=(double)p.second/acc,e=V[p.first]/vol; MC_CHECK(std::fabs(f-e)<4.0*k/ND/KD,"%d edges: fraction %.5f of the accepted choices has its diagonals in cell %s, expected %.5f",n,f,vstr(V3{{(double)p.first[0],k>1?(double)p.first[1]:0,k>2?(double)p.first[2]:0}}).c_str(),e); mc_state(mc_fmt("d%d %d %d %d",n,p.first[0],k>1?p.first[1]:0,k>2?p.first[2]:0)); mc_eval(); }
  for(auto&p:V) if(p.second/vol>4.0*k/ND/KD) MC_CHECK(H.count(p.first),"%d edges: an allowed cell of diagonals is never reached",n);
  for(auto&m:M) for(long t=0;t<tcells;t++) MC_CHECK(m.second[t]*tcells==H[m.first],"%d edges: in one cell of diagonals, %ld of %ld choices have dihedral angles in cell %ld",n,m.second[t],H[m.first],t);
  mc_outcome("distribution"); mc_trace(); }
// on longer polygons: the map from random numbers to diagonals and dihedral angles preserves volume up to the constant factor of the uniform density
static void density(int n,int base){ int k=n-3; std::vector<double> w; double sum=0; for(int i=0;i<2*k;i++){ double x=std::fmod((i+1)*0.6180339887498949*(base+1)+0.37*base,1.0)*0.5-0.25; if(sum>0.3) x=-std::fabs(x); if(sum<0) x=std::fabs(x); if(i==k) sum=0; sum+=2*x; w.push_back(0.5+x); } auto coords=[&](const std::vector<double>&u,std::vector<double>&q){ gsl_rng*r=rs_new(u,7); plCurve*L=plc_random_equilateral_closed_polygon(r,n); mc_trans(); size_t used=rs_used; gsl_rng_free(r); q.clear(); MC_CHECK(L,"no polygon"); for(int i=0;i<k;i++) q.push_back(vdist(vv(L->cp[0].vt[0]),vv(L->cp[0].vt[i+2]))); for(int i=0;i<k;i++) q.push_back(dihed(L->cp[0].vt,i+1)); plc_free(L); MC_CHECK(used>=(size_t)2*k,"an equilateral closed polygon of %d edges, which has %d diagonals and dihedral angles, was made from %zu random numbers",n,2*k,used); return used==(size_t)2*k; };
  mc_note("density of %d edges at base point %d",n,base); mc_eval(); std::vector<double> q0,a,b; if(!coords(w,q0)){ mc_outcome("density: other consumption"); return; } int m=2*k; std::vector<std::vector<double>> J(m,std::vector<double>(m)); const double h=ldexp(1,-12); for(int j=0;j<m;j++){ auto u=w; u[j]+=h; bool x=coords(u,a); u[j]-=2*h; bool y=coords(u,b); if(!x||!y){ mc_outcome("density: boundary"); return; } for(int i=0;i<m;i++){ double d=a[i]-b[i]; if(i>=k) d=std::remainder(d,2*M_PI); J[i][j]=d/(2*h); } }
  double lg=0; for(int c=0;c<m;c++){ int p=c; for(int i=c;i<m;i++) if(std::fabs(J[i][c])>std::fabs(J[p][c])) p=i; std::swap(J[p],J[c]); lg+=std::log(std::fabs(J[c][c])+1e-300); for(int i=c+1;i<m;i++) if(J[i][c]){ double f=J[i][c]/J[c][c]; for(int e=c;e<m;e++) J[i][e]-=f*J[c][e]; } }
  MC_CHECK(std::fabs(lg-k*std::log(4*M_PI))<1e-3,"equilateral closed polygons of %d edges: near the random numbers of base point %d the density of diagonals and dihedral angles is %.6g times the uniform one",n,base,std::exp(k*std::log(4*M_PI)-lg)); mc_state(mc_fmt("density %d %d",n,base)); mc_outcome("density: uniform"); mc_trace(); }
// the self-avoiding sampler: its pentagons fill the region of admissible diagonals and dihedral angles, counted on a grid, evenly
static V3 fold5(double d1,double d2,double t1,double t2,V3 v[5]){ auto tri=[](double a,double b){ return (a*a+b*b-1)/(2*a*b); }; v[0]=V3{{0,0,0}}; v[1]=V3{{1,0,0}}; V3 n{{0,0,1}}; double D[4]={1,d1,d2,1},T[3]={0,t1,t2}; for(int i=2;i<5;i++){ double a=D[i-2],b=D[i-1]; V3 f=vadd(V3{{0,0,0}},v[i-1],1/vnorm(v[i-1])); double t=T[i-2]; V3 g=vcross(n,f); V3 n2=vadd(vadd(V3{{0,0,0}},n,cos(t)),g,-sin(t)); V3 h=vcross(n2,f); double c=tri(a,b),s=std::sqrt(std::max(0.0,1-c*c)); v[i]=vadd(vadd(V3{{0,0,0}},f,b*c),h,b*s); n=n2; } return v[4]; }
static void sapfill(int per){ const int C=8,G=40; double ref[4][C]={{0}}; double all=0; for(int a=0;a<G/2;a++) for(int b=0;b<G/2;b++) for(int c=0;c<G;c++) for(int d=0;d<G;d++){ double d1=1+(a+0.5)/(G/2),d2=1+(b+0.5)/(G/2),t1=2*M_PI*(c+0.5)/G,t2=2*M_PI*(d+0.5)/G; if(std::fabs(d1-d2)>1) continue; V3 v[5]; fold5(d1,d2,t1,t2,v); bool ok=true; for(int i=0;i<5&&ok;i++) for(int j=0;j<i;j++) if(vdist(v[i],v[j])<1-1e-9) { ok=false; break; } if(!ok) continue; plc_vector w[5]; for(int i=0;i<5;i++) for(int j=0;j<3;j++) w[i].c[j]=v[i][j]; all++; ref[0][(int)((d1-1)*C)]++; ref[1][(int)((d2-1)*C)]++; ref[2][(int)(dihed(w,1)/(2*M_PI)*C)%C]++; ref[3][(int)(dihed(w,2)/(2*M_PI)*C)%C]++; }
  double got[4][C]={{0}}; double N=0; for(uint64_t seed=0;seed<64;seed++){ uint64_t*x=plc_xoshiro_init(seed*0x9E3779B97F4A7C15ull+1); for(int k=0;k<per;k++){ plCurve*L=plc_random_equilateral_closed_self_avoiding_polygon(x,5); plc_vector*v=L->cp[0].vt; auto cell=[&](double y){ return std::max(0,std::min(C-1,(int)(y*C))); }; got[0][cell(vdist(vv(v[2]),vv(v[0]))-1)]++; got[1][cell(vdist(vv(v[3]),vv(v[0]))-1)]++; got[2][cell(dihed(v,1)/(2*M_PI))]++; got[3][cell(dihed(v,2)/(2*M_PI))]++; N++; mc_trans(); mc_eval(); plc_free(L); } plc_xoshiro_free(x); }
  const char*nm[4]={"first diagonal","second diagonal","first dihedral angle","second dihedral angle"}; for(int q=0;q<4;q++) for(int c=0;c<C;c++){ double e=N*ref[q][c]/all; double slack=8*std::sqrt(e)+0.12*e+0.01*N; MC_CHECK(std::fabs(got[q][c]-e)<slack,"self-avoiding pentagons: of %.0f, %.0f have the %s in cell %d of %d, and %.0f is its share of the admissible region",N,got[q][c],nm[q],c,C,e); if(getenv("C13_SHOW")) fprintf(stderr,"%s %d: %.0f %.0f\n",nm[q],c,got[q][c],e); } mc_outcome("self-avoiding: even"); mc_trace(); }
static void closure(const Curve&C,int cp,int ne,const std::vector<double>&w,unsigned long cont){ plCurve*L=to_plc(C); const std::vector<V3>&v=C[cp].v; int nv=v.size(); double len=total(L),ftc=vdist(v[0],v.back()),slack=2-len; int k=ne-(nv-1); std::string what=mc_fmt("closing component %d of %s to %d edges, random numbers %s",cp,curve_str(C).c_str(),ne,ws(w).c_str()); mc_note("%s",what.c_str()); bool must=slack>ftc+1e-7&&k>=2, may=slack>=ftc-1e-9&&k>=1; gsl_rng*r=rs_new(w,cont); plCurve*R=plc_loop_closure(r,cp,L,ne); CHECK_CURVE(L,C,"%s: original",what.c_str());
  if(R&&ne<3){ plc_free(R); R=NULL; must=false; }
  if(!R){ MC_CHECK(!must,"%s: refused with length %.9g and gap %.9g",what.c_str(),len,ftc); mc_outcome("refused"); } else { MC_CHECK(may,"%s: closed although that is impossible",what.c_str()); std::string b=curve_bad(R); if(!b.empty()) mc_fail("%s: %s",what.c_str(),b.c_str()); Curve D=from_plc(R); MC_CHECK(D.size()==C.size()&&!D[cp].open&&(int)D[cp].v.size()==ne,"%s: result has %zu components, %zu vertices",what.c_str(),D.size(),cp<(int)D.size()?D[cp].v.size():0); for(int i=0;i<nv;i++) MC_CHECK(D[cp].v[i]==v[i],"%s: vertex %d of the arc moved",what.c_str(),i); for(auto&x:D[cp].v) for(double y:x) MC_CHECK(std::isfinite(y),"%s: %s",what.c_str(),vstr(x).c_str()); MC_CHECK(std::fabs(total(R)-2)<1e-6,"%s: length %.17g",what.c_str(),total(R)); MC_CHECK(D[cp].c.size()==(C[cp].c.empty()?0u:C[cp].c.size()==1?1u:(size_t)ne),"%s: %zu colors",what.c_str(),D[cp].c.size()); for(size_t i=0;i<C[cp].c.size();i++) MC_CHECK(D[cp].c[i]==C[cp].c[i],"%s: color %zu",what.c_str(),i); Curve A,B; for(size_t i=0;i<C.size();i++) if((int)i!=cp){ A.push_back(C[i]); B.push_back(D[i]); } std::string df=curve_diff(B,A); if(!df.empty()) mc_fail("%s: other components: %s",what.c_str(),df.c_str()); plc_free(R); mc_outcome("closed"); }
  mc_state(mc_fmt("c%zu %d %d %d %d",C.size(),cp,nv,k,R!=NULL)); mc_trans(); mc_eval(); mc_trace(); plc_free(L); gsl_rng_free(r); }
static bool sapref(const Curve&C){ std::vector<V3> p; for(auto&c:C) for(auto&v:c.v) p.push_back(v); for(size_t i=0;i<p.size();i++) for(size_t j=0;j<i;j++) if(vdist(p[i],p[j])<1-1e-6) return false; return true; }
void mc_main(){ bool T=mc_thorough; std::vector<double> U={0,E32,0.125,0.3,0.47,0.71,0.9,1-E32},U5={0,0.2,0.5,0.8,1-E32};
  for(int g=0;g<6;g++) for(int n=(g==EO||g==SO||g==PO)?1:3;n<=12;n++) mc_case(mc_fmt("%s %d",gn[g],n),[=]{ words(U,T?5:4,[&](const std::vector<double>&w){ one(g,n,w,n); }); for(unsigned long c=0;c<(T?2000:300);c++) one(g,n,{},c); });
  for(int g=0;g<6;g++) mc_case(mc_fmt("%s long",gn[g]),[=]{ for(int n:{20,33,64,100,257}) for(unsigned long c=0;c<(T?100:20);c++) one(g,n,{},c); });
  for(int n=500;n<=3000;n+=500) mc_case(mc_fmt("equilateral closed polygon %d",n),[=]{ for(unsigned long c=0;c<(T?30:6);c++) one(EC,n,{},c+n); });
  // flat triangles: every word over extreme and rational steps
  for(int n=4;n<=7;n++) mc_case(mc_fmt("flat triangles %d",n),[=]{ std::vector<double> F={0,1-E32,E32,0.5}; for(int i=1;i<16;i+=T?1:2) F.push_back(i/16.0+1/48.0); words(F,std::min(n-3,4),[&](const std::vector<double>&w){ for(int s=0;s<2;s++){ std::vector<double> x=w; for(int i=0;i<n-3;i++) x.push_back(s?0.25*i:0); one(EC,n,x,3); } }); });
  for(int n:T?std::vector<int>{4,5,6,7,8,9,10,12,16,20,30,48,80}:std::vector<int>{4,5,6,7,8,12,20,48}) mc_case(mc_fmt("density %d",n),[=]{ for(int b=0;b<(T?30:6);b++) density(n,b); });
  mc_case("distribution 4",[=]{ dist(4,T?4096:1024,16); }); mc_case("distribution 5",[=]{ dist(5,T?256:128,8); }); if(T) mc_case("distribution 6",[]{ dist(6,48,4); });
  // loop closure
  std::vector<std::vector<V3>> arcs; for(double s:{0.1,0.35,0.5,0.6}) { arcs.push_back({{{0,0,0}},{{s,0,0}}}); arcs.push_back({{{0,0,0}},{{s,0,0}},{{s,s,0}}}); arcs.push_back({{{0,0,0}},{{0,s,0}},{{0,0,s}},{{0,0,0}}}); arcs.push_back({{{s,0,0.1}},{{0,0,0}},{{0,-s,0.2}},{{0.3,-s,0.4}}}); } arcs.push_back({{{0,0,0}},{{1,0,0}}}); arcs.push_back({{{0,0,0}},{{2.5,0,0}}}); arcs.push_back({{{0,0,0}},{{0.75,0,0}},{{1.25,0,0}}}); arcs.push_back({{{1,0,0}},{{0,0,0}}}); arcs.push_back({{{0,1,0}},{{0,0,0}}}); arcs.push_back({{{0,0,0}},{{0,0,-0.9}}});
  for(size_t a=0;a<arcs.size();a++) mc_case(mc_fmt("closure of arc %zu",a),[=]{ for(int ne=1;ne<=(int)arcs[a].size()+40;ne+=ne<(int)arcs[a].size()+5?1:7) for(int lay=0;lay<6;lay++) for(int cc=0;cc<3;cc++){ Curve C; Comp k; k.open=true; k.v=arcs[a]; for(size_t i=0;i<(cc==0?0:cc==1?1:k.v.size());i++) k.c.push_back(C4{{0.1*i,0.2,0.3,1}}); Comp o; o.v={{{3,0,0}},{{3.1,0,0}},{{3,0.1,0}}}; o.open=false; Comp p; p.open=true; p.v={{{4,0,0}},{{4.05,0,0}}}; p.c={C4{{1,0,0,1}}}; int cp=0; if(lay==0) C={k}; if(lay==1) C={k,o}; if(lay==2){ C={o,k}; cp=1; } if(lay==3){ C={p,k}; cp=1; } if(lay==4){ C={o,k,p}; cp=1; } if(lay==5){ C={p,o,k}; cp=2; } for(auto&w:std::vector<std::vector<double>>{{},{0,0.5},{0.3,0.9,0.2,0.4}}) for(int c=0;c<(T?10:2);c++) closure(C,cp,ne,w,c+ne); } });
  // gaps pointing back along the x-axis, exactly and within rounding
  mc_case("closure along the axis",[=]{ double u=ldexp(1,-53); for(double len:{0.3,0.7,1/3.0,0.1,0.9}) for(int i=-6;i<=6;i++) for(int j=-6;j<=6;j++) for(double sg:{1.0,-1.0}){ Curve C(1); C[0].open=true; C[0].v={{{0,0,0}},{{sg*len/2,0.01,0}},{{sg*len,j*u*len,i*u*len}}}; closure(C,0,5,{},3); C[0].v[2]={{sg*len,1e-9*i,1e-13*j}}; closure(C,0,6,{},4); } });
  // self-avoiding polygons
  for(int n=5;n<=(T?16:13);n++) mc_case(mc_fmt("self-avoiding %d",n),[=]{ for(uint64_t s=0;s<(uint64_t)(T?1000:n<10?400:n<12?100:25);s++){ uint64_t seed=s<200?s:s<400?~(s-200):s*0x9E3779B97F4A7C15ull; std::string what=mc_fmt("self-avoiding polygon of %d edges, seed %llu",n,(unsigned long long)seed); mc_note("%s",what.c_str()); uint64_t*x=plc_xoshiro_init(seed); plCurve*P=NULL; for(int rep=0;rep<2;rep++){ plCurve*L=plc_random_equilateral_closed_self_avoiding_polygon(x,n); shape(L,n,false,what.c_str()); for(int i=0;i<n;i++){ MC_CHECK(std::fabs(vdist(vv(L->cp[0].vt[i]),vv(L->cp[0].vt[(i+1)%n]))-1)<1e-7,"%s: edge %d",what.c_str(),i); for(int j=0;j<i;j++) MC_CHECK(vdist(vv(L->cp[0].vt[i]),vv(L->cp[0].vt[j]))>1-1e-8,"%s: vertices %d and %d at distance %.12g",what.c_str(),i,j,vdist(vv(L->cp[0].vt[i]),vv(L->cp[0].vt[j]))); } mc_state(mc_fmt("s%d %.6f",n,L->cp[0].vt[2].c[1])); mc_trans(); mc_eval(); mc_trace(); if(rep){ MC_CHECK(curve_diff(from_plc(L),from_plc(P))!="","%s: the same polygon twice",what.c_str()); plc_free(P); } P=L; } plc_free(P); plc_xoshiro_free(x); mc_outcome("self-avoiding"); } });
  mc_case("self-avoiding filling",[=]{ sapfill(T?4000:600); });
  mc_case("self-avoidance of long curves",[=]{ for(int n:T?std::vector<int>{13,30,64,130}:std::vector<int>{13,40}) for(int cut:{0,1,n/3,n/2,n-1}) for(int i=0;i<n;i++) for(int j=0;j<i;j++) for(double r:{0.0,0.999999,1.0,1.000001}){ std::vector<V3> p; for(int k=0;k<n;k++) p.push_back(V3{{1.5*k,k%2*1.5,k%3*1.25}}); p[i]=vadd(p[j],V3{{0,0.6*r,-0.8*r}}); if(r==1&&vdist(p[i],p[j])<1-1e-12) p[i]=vadd(p[j],V3{{0,0,-1}}); Curve C; Comp a,b; a.open=b.open=false; for(int k=0;k<n;k++) (cut&&k>=cut?b:a).v.push_back(p[k]); if(a.v.size()<3) a.open=true; if(b.v.size()<3) b.open=true; C.push_back(a); if(cut) C.push_back(b); bool w=true; for(int k=0;k<n&&w;k++) if(k!=i&&vdist(p[k],p[i])<1-1e-8) w=false; plCurve*L=to_plc(C); MC_CHECK(plc_is_sap(L)==w,"%d vertices cut at %d, vertices %d and %d at distance %.9g: is%s self-avoiding",n,cut,i,j,vdist(p[i],p[j]),w?"":" not"); plc_free(L); mc_outcome(w?"avoiding":"colliding"); mc_eval(); mc_trans(); } mc_trace(); });
  mc_case("self-avoidance test",[=]{ std::vector<V3> P={{{0,0,0}},{{1,0,0}},{{0.9,0,0}},{{0,1.1,0}},{{0.5,0.5,0}},{{1,1,0.2}},{{0,0,-1}},{{2,2,2}}}; int m=P.size(); for(int n=1;n<=(T?5:4);n++){ std::vector<int> d(n,0); for(;;){ for(int cut=0;cut<n;cut++) for(int open=0;open<2;open++){ Curve C; Comp a,b; a.open=b.open=open; for(int i=0;i<n;i++) (cut&&i>=cut?b:a).v.push_back(P[d[i]]); if(a.v.size()<3) a.open=true; if(b.v.size()<3) b.open=true; C.push_back(a); if(cut) C.push_back(b); plCurve*L=to_plc(C); bool w=sapref(C); MC_CHECK(plc_is_sap(L)==w,"%s is%s self-avoiding",curve_str(C).c_str(),w?"":" not"); CHECK_CURVE(L,C,"after the test"); plc_free(L); mc_outcome(w?"avoiding":"colliding"); mc_eval(); mc_trans(); } int i=0; while(i<n&&++d[i]==m) d[i++]=0; if(i==n) break; } } mc_trace(); });
  mc_case("generator",[=]{ std::vector<uint64_t> W={0,1,2,0x8000000000000000ull,~0ull,0x123456789abcdef0ull,0xfffffffffffff000ull,1ull<<45,1ull<<19}; size_t m=W.size(); for(size_t q=0;q<m*m*m*m;q++){ uint64_t s[4]={W[q%m],W[q/m%m],W[q/m/m%m],W[q/m/m/m]},t[4]; memcpy(t,s,sizeof s); for(int i=0;i<24;i++){ uint64_t r=t[0]+t[3],x=t[1]<<17; t[2]^=t[0]; t[3]^=t[1]; t[1]^=t[2]; t[0]^=t[3]; t[2]^=x; t[3]=(t[3]<<45)|(t[3]>>19); double u=plc_xoshiro_uniform(s); MC_CHECK(u>=0&&u<1&&u==ldexp((double)(r>>12),-52)&&!memcmp(s,t,sizeof s),"generator from state %zu at step %d",q,i); mc_trans(); mc_eval(); } } for(uint64_t a:W){ uint64_t*x=plc_xoshiro_init(a),*y=plc_xoshiro_init(a); MC_CHECK(!memcmp(x,y,32)&&(x[0]|x[1]|x[2]|x[3]),"initial state"); for(uint64_t b:W) if(a!=b){ uint64_t*z=plc_xoshiro_init(b); MC_CHECK(memcmp(x,z,32),"two seeds give the same state"); plc_xoshiro_free(z); } plc_xoshiro_free(x); plc_xoshiro_free(y); } mc_trace(); });
}
