// C19: permutations with a given number of ascents and points of hypersimplices: every sequence of random choices, with its exact probability.
#include "curve.hpp"
#include "rngscript.hpp"
#include <gsl/gsl_randist.h>
#include <algorithm>
extern "C" { void random_k_ascent_permutation(int n,int k,int*perm,gsl_rng*rng); void random_k_descent_permutation(int n,int k,int*perm,gsl_rng*rng); double*hypersimplex_sample(int k,int n,gsl_rng*rng); double*hypercube_slice_sample(int n,gsl_rng*rng); double*hypercube_slice_sample_old(int n,gsl_rng*rng); }
// log-free Eulerian ratios: P(n,k)=(n-k)E(n-1,k-1)/E(n,k) from r(n,k)=E(n,k)/n!
static std::vector<std::vector<long double>> EU; static void eu(int N){ if((int)EU.size()>N) return; EU.assign(N+1,{}); EU[1]={1}; for(int n=2;n<=N;n++){ EU[n].assign(n,0); for(int k=0;k<n;k++) EU[n][k]=((k<n-1?(k+1)*EU[n-1][k]:0)+(k>0?(n-k)*EU[n-1][k-1]:0))/n; } }
static long double prob(int n,int k){ return k==0?0:(n-k)*EU[n-1][k-1]/EU[n][k]/n; }
static long double euler(int n,int k){ long double f=EU[n][k]; for(int i=2;i<=n;i++) f*=i; return f; }
// the choices of one run: first whether n, n-1, ... creates an ascent, until the rest is forced; then where each goes in
static std::vector<int> pick,lim; static size_t pos; static int N0,K0,sn,sk; static std::vector<std::pair<int,int>> st; static size_t ins; static long double wgt; static bool extra;
static int salt=-1; static size_t phase2; static int choose(int m){ if(pos==pick.size()) pick.push_back(salt<0?0:(int)((pos*5+salt)%m)); if(lim.size()<=pos) lim.resize(pos+1); lim[pos]=m; return pick[pos++]; }
static double fraction(){ if(ins==(size_t)-1){ long double p=prob(sn,sk); double v; bool up; if(p>=1-1e-15L){ up=true; v=1-1e-9; } else if(p<=1e-15L){ up=false; v=1e-9; } else { up=choose(2)==0; v=up?p-1e-9L*p:p+1e-9L*(1-p); } wgt*=up?p:1-p; if(up) sk--; sn--; st.push_back({sn,sk}); if(sk==sn-1||sk==0) ins=st.size()-1; return v; }
  if(ins==0){ extra=true; return 0.5; } int n=st[ins].first,k=st[ins].second; bool up=st[ins-1].second!=k; if(ins==st.size()-1) phase2=pos; int m=up?n-k:k+1; int c=choose(m); wgt/=m; ins--; return (c+0.5)/m; }
static unsigned long cget(void*){ return (unsigned long)(fraction()*4294967295.0); }
static double cgetd(void*){ return fraction(); }
static void cset(void*,unsigned long){ }
static const gsl_rng_type ctype={"choices",0xffffffffUL,0,8,cset,cget,cgetd};
static void start(int n,int k){ pos=0; N0=n; K0=k; sn=n; sk=k; st.assign(1,{n,k}); ins=(k==0||k==n-1)?0:-1; wgt=1; extra=false; }
extern "C" { __attribute__((weak)) double naptable[999*500]; }
static void table(){ eu(1000); for(int n=2;n<=1000;n++) for(int k=1;k<n;k++) naptable[(2-3*n+n*n)/2+k-1]=prob(n,k); }
static std::string ps(const std::vector<int>&p){ std::string s; for(int x:p) s+=mc_fmt("%d ",x); return s; }
static int ascents(const std::vector<int>&p){ int a=0; for(size_t i=0;i+1<p.size();i++) a+=p[i+1]>p[i]; return a; }
static void isperm(const std::vector<int>&p,int n,int k){ std::vector<int> q=p; std::sort(q.begin(),q.end()); for(int i=0;i<n;i++) MC_CHECK(q[i]==i+1,"%s is not a permutation of 1..%d",ps(p).c_str(),n); MC_CHECK(ascents(p)==k,"%s has %d ascents instead of %d",ps(p).c_str(),ascents(p),k); }
static std::vector<int> perm_of(int n,int k,bool desc,gsl_rng*r){ std::vector<int> b(n+2,-77); if(desc) random_k_descent_permutation(n,n-1-k,b.data()+1,r); else random_k_ascent_permutation(n,k,b.data()+1,r); mc_trans(); mc_eval(); MC_CHECK(b[0]==-77&&b[n+1]==-77,"the buffer was overrun"); return std::vector<int>(b.begin()+1,b.end()-1); }
static void tree(int n,int k,bool desc){ eu(n); gsl_rng*r=gsl_rng_alloc(&ctype); std::map<std::vector<int>,long double> got; pick.clear(); lim.clear();
  for(;;){ start(n,k); mc_note("%d letters with %d ascents, choices %s",n,k,ps(pick).c_str()); std::vector<int> p=perm_of(n,k,desc,r); isperm(p,n,k); got[p]+=wgt; mc_trace(); pick.resize(pos); while(!pick.empty()&&pick.back()+1>=lim[pick.size()-1]) pick.pop_back(); if(pick.empty()) break; pick.back()++; }
  long double E=euler(n,k); MC_CHECK(std::fabs((double)(got.size()-E))<0.5,"%zu of %.0Lf permutations of %d letters with %d ascents can be drawn",got.size(),E,n,k); for(auto&g:got){ mc_state(ps(g.first)); MC_CHECK(std::fabs((double)(g.second*E-1))<1e-9,"%s has probability %.12Lg instead of 1/%.0Lf",ps(g.first).c_str(),g.second,E); } mc_outcome(mc_fmt("%zu permutations",got.size())); gsl_rng_free(r); }
static void thresholds(int n,int k){ eu(n); if(prob(n,k)<1e-12L||prob(n,k)>1-1e-12L) return; gsl_rng*r=gsl_rng_alloc(&ctype); // the first choice on both sides of its threshold, the others fixed
  for(int way=0;way<2;way++){ pick.assign(1,way); lim.clear(); start(n,k); mc_note("%d letters with %d ascents, first choice %d",n,k,way);
    std::vector<int> q=perm_of(n,k,false,r); isperm(q,n,k); std::vector<int> w; for(int x:q) if(x!=n) w.push_back(x); MC_CHECK(ascents(w)==(way==0?k-1:k),"with the first random number just %s %.12Lg, removing %d from %s leaves %d ascents",way?"above":"below",prob(n,k),n,n<30?ps(q).c_str():"the permutation",ascents(w)); mc_state(mc_fmt("%d %d %d",n,k,way)); mc_trace(); }
  gsl_rng_free(r); }
// long permutations: whatever the other choices, the places of one letter give different permutations
static void places(int n,int k,int sa){ eu(n); gsl_rng*r=gsl_rng_alloc(&ctype); salt=sa; pick.clear(); lim.clear(); start(n,k); phase2=0; perm_of(n,k,false,r); std::vector<int> base=pick,bl=lim; size_t f=phase2; salt=-1;
  for(size_t t=f;t<base.size();t++){ std::set<std::vector<int>> seen; for(int c=0;c<bl[t];c++){ pick=base; pick[t]=c; start(n,k); mc_note("%d letters with %d ascents, place %d of choice %zu",n,k,c,t); std::vector<int> p=perm_of(n,k,false,r); isperm(p,n,k); MC_CHECK(seen.insert(p).second,"two places of a letter give the same permutation %s",ps(p).c_str()); mc_trace(); } mc_state(mc_fmt("%d %d %zu %d",n,k,t,sa)); } gsl_rng_free(r); }
static std::vector<double> model_simplex(int k,int n,gsl_rng*r){ std::vector<double> al(n,1.0),th(n),s(n-1),y(n-1); gsl_ran_dirichlet(r,n,al.data(),th.data()); double a=0; for(int i=0;i<n-1;i++){ a+=th[i]; s[i]=a; } std::vector<int> p(n); random_k_descent_permutation(n-1,k-1,p.data(),r); double prev=0; for(int i=0;i<n-1;i++){ double v=s[p[i]-1]; y[i]=i==0||prev<v?v-prev:v-prev+1; prev=v; } return y; }
static std::vector<std::vector<double>> words(int len,const std::vector<double>&al){ std::vector<std::vector<double>> w{{}}; for(int i=0;i<len;i++){ std::vector<std::vector<double>> z; for(auto&x:w) for(double a:al){ auto y=x; y.push_back(a); z.push_back(y); } w=z; } return w; }
static void simplex(int n,int k,int len){ for(auto&w:words(len,{0.01,0.3,0.55,0.8,0.97})) for(int c=1;c<=3;c++){ gsl_rng*r=rs_new(w,c); std::vector<double> want=model_simplex(k,n,r); size_t u=rs_used; gsl_rng_free(r); r=rs_new(w,c); double*x=hypersimplex_sample(k,n,r); mc_trans(); mc_eval(); mc_trace(); mc_note("hypersimplex (%d,%d)",k,n); MC_CHECK(rs_used==u,"hypersimplex_sample used %zu random numbers instead of %zu",rs_used,u); gsl_rng_free(r); double s=0; for(int i=0;i<n-1;i++){ s+=x[i]; MC_CHECK(x[i]>=-1e-12&&x[i]<=1+1e-12,"coordinate %d of a point of hypersimplex (%d,%d) is %.12g",i,k,n,x[i]); MC_CHECK(std::fabs(x[i]-want[i])<1e-9,"coordinate %d of the point of hypersimplex (%d,%d) is %.12g instead of %.12g",i,k,n,x[i],want[i]); } MC_CHECK(s>=k-1-1e-9&&s<=k+1e-9,"the coordinates of a point of hypersimplex (%d,%d) add up to %.12g",k,n,s); mc_state(mc_fmt("%d %d %.9g %.9g",k,n,x[0],s)); free(x); } }
static void slice(int n,int len,const std::vector<double>&al){ for(auto&w:words(len,al)) for(int c=1;c<=2;c++){ gsl_rng*r=rs_new(w,c); std::vector<double> want; int tries=0; for(;;){ want.clear(); double s=0; for(int i=0;i<n-1;i++){ want.push_back(2*gsl_rng_uniform(r)-1); s+=want.back(); } tries++; if(s>=-1&&s<=1){ want.push_back(-s); break; } } size_t u=rs_used; gsl_rng_free(r); r=rs_new(w,c); double*z=hypercube_slice_sample(n,r); mc_trans(); mc_eval(); mc_trace(); mc_note("slice of the %d-cube",n); MC_CHECK(rs_used==u,"hypercube_slice_sample used %zu random numbers instead of %zu",rs_used,u); gsl_rng_free(r); double s=0; for(int i=0;i<n;i++){ s+=z[i]; MC_CHECK(std::fabs(z[i])<=1+1e-12,"coordinate %d is %.12g",i,z[i]); MC_CHECK(std::fabs(z[i]-want[i])<1e-12,"coordinate %d of the slice of the %d-cube is %.12g instead of %.12g",i,n,z[i],want[i]); } MC_CHECK(std::fabs(s)<1e-9,"the coordinates add up to %.12g",s); free(z); mc_state(mc_fmt("%d %zu %d",n,(size_t)(want[0]*1e6),tries)); mc_outcome(mc_fmt("%d tries",std::min(tries,4)));
    r=rs_new(w,c); z=hypercube_slice_sample_old(n,r); gsl_rng_free(r); mc_trans(); mc_eval(); s=0; for(int i=0;i<n;i++){ s+=z[i]; MC_CHECK(std::fabs(z[i])<=1+1e-9,"hypercube_slice_sample_old: coordinate %d is %.12g",i,z[i]); } MC_CHECK(std::fabs(s)<1e-9,"hypercube_slice_sample_old: the coordinates add up to %.12g",s); free(z); } }
void mc_main(){ bool T=mc_thorough; table();
  for(int n=1;n<=(T?9:8);n++) for(int k=0;k<n;k++) for(int d=0;d<2;d++) mc_case(mc_fmt("all %s of %d letters with %d ascents",d?"descent permutations":"permutations",n,k),[&]{ tree(n,k,d); mc_sample(mc_fmt("every sequence of choices, %d letters, %d ascents",n,k)); });
  std::vector<int> big; for(int n=3;n<=(T?120:60);n++) big.push_back(n); for(int n:{100,200,333,500,700,999,1000}) big.push_back(n);
  for(int n:big) mc_case(mc_fmt("probability of a new ascent, %d letters",n),[&]{ for(int k=1;k<n-1;k+=(n<=120?1:T?n/50:n/12)) thresholds(n,k); if(n>2) thresholds(n,n-2); });
  for(int n:{12,24,40,60}) for(int k:{1,2,5,n/3,n/2,n-3,n-2}) mc_case(mc_fmt("places of the letters, %d letters with %d ascents",n,k),[&]{ for(int sa=0;sa<(T?5:2);sa++) places(n,k,sa); });
  for(int n=3;n<=(T?9:7);n++) for(int k=1;k<n;k++) mc_case(mc_fmt("points of hypersimplex (%d,%d)",k,n),[&]{ simplex(n,k,T?5:4); });
  for(int n:{12,20,21,31,60}) for(int k:{1,2,n/2,n-2,n-1}) mc_case(mc_fmt("points of hypersimplex (%d,%d)",k,n),[&]{ simplex(n,k,2); });
  for(int n=3;n<=7;n++) mc_case(mc_fmt("slices of the %d-cube",n),[&]{ slice(n,T?6:4,{0.0,0.02,0.25,0.5,0.75,0.98,0.999999999}); });
  for(int n:{3,4,6,7,21}) mc_case(mc_fmt("slices of the %d-cube after many rejected draws",n),[&]{ std::vector<int> R; for(int i=0;i<=(T?1000:300);i++) R.push_back(i); for(int i:{500,999,1000,1001,5000,65536,100001}) R.push_back(i);
    for(int q:R){ std::vector<double> w; for(int i=0;i<q;i++) for(int j=0;j<n-1;j++) w.push_back(i%3==1?0.02:0.97); for(int j=0;j<n-1;j++) w.push_back(j%2?0.7:0.3); gsl_rng*r=rs_new(w,1); double*z=hypercube_slice_sample(n,r); mc_trans(); mc_eval(); mc_trace(); mc_note("%d rejected draws",q); gsl_rng_free(r); double s=0; for(int i=0;i<n;i++){ s+=z[i]; double want=i<n-1?(i%2?0.4:-0.4):-(s-z[i]); MC_CHECK(std::fabs(z[i]-want)<1e-6&&std::fabs(z[i])<=1,"after %d rejected draws coordinate %d is %.12g instead of %.12g",q,i,z[i],want); } free(z); mc_state(mc_fmt("%d %d rejected",n,q)); } });
  for(int n:{12,20,21,31,60,100}) mc_case(mc_fmt("slices of the %d-cube",n),[&]{ slice(n,2,{0.0,0.25,0.5,0.75,0.999999999}); });
}
