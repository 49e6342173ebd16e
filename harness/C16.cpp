// C16: the mean and the error bar reported for a Markov chain run are those of all its samples, whatever the buffer.
#include "mc.h"
#include <vector>
#include <string>
#include <functional>
#include <cmath>
#include <set>
extern "C" {
#include "geyer_estimators.h"
double lagged_dot(int,int,double*); double split_lagged_dot(int,int,double*,int,double*);
}
typedef std::vector<int> W;
static std::string ws(const W&w,size_t n){ std::string s; for(size_t i=0;i<n&&i<40;i++) s+=mc_fmt("%d ",w[i]); if(n>40) s+=mc_fmt("... (%zu)",n); return s; }
// reference: exact covariances of the prefix of length m (scaled by m^3), the estimates that are possible when only lags < nl are known
struct Ref { double mean; std::vector<__int128> G; __int128 g0,g1; long m; };
struct Cand { double sigma; int N; bool ok; double slack; };
static Ref ref(const W&w,long m){ Ref r; r.m=m; long S=0; for(long i=0;i<m;i++) S+=w[i]; r.mean=(double)S/m; std::vector<long> D(m); for(long i=0;i<m;i++) D[i]=m*(long)w[i]-S; auto g=[&](long k){ __int128 s=0; for(long i=0;i+k<m;i++) s+=(__int128)D[i]*D[i+k]; return s; }; r.g0=g(0); r.g1=m>1?g(1):(__int128)0; r.G.push_back(r.g0+r.g1); for(long k=1;2*k+1<m;k++){ __int128 x=g(2*k)+g(2*k+1); r.G.push_back(x); if(x<0) break; } return r; }
static std::vector<Cand> cands(const Ref&r,long lags){ std::vector<Cand> out; double sc=(double)r.m*r.m*r.m; double g0=(double)r.g0/sc; __int128 sum=-r.g0; auto add=[&](__int128 s,int N,bool ok){ double e=(double)s/sc; if(e>0) out.push_back({std::sqrt(e),N,ok,0}); if(e<=0||e<1e-12*g0+1e-15) out.push_back({std::sqrt(g0),N,ok,0}); if(e==0||std::fabs(e)<1e-9*g0+1e-15) { out.push_back({0,N,ok,std::sqrt(1e-9*g0+1e-9)}); out.push_back({std::sqrt(g0),N,ok,1e-9}); } };
  size_t k=0; bool stopped=false; for(;k<r.G.size();k++){ if(2*(long)k+1>=lags&&k>0) break; if(r.G[k]<0){ add(sum,(int)k,true); stopped=true; break; } if(r.G[k]==0){ add(sum,(int)k,true); } sum+=2*r.G[k]; } if(!stopped) add(sum,(int)k,lags>=r.m); return out; }
static bool match(const std::vector<Cand>&c,double sigma,int N,int ok,bool checkN){ for(auto&x:c){ if(std::fabs(sigma-x.sigma)<=1e-7*(1+x.sigma)+x.slack&&(!checkN||N==x.N)&&(ok<0||ok==(int)x.ok)) return true; } return false; }
static std::string cs(const std::vector<Cand>&c){ std::string s; for(auto&x:c) s+=mc_fmt("[sigma %.12g, %d terms%s] ",x.sigma,x.N,x.ok?"":", out of lags"); return s; }
// plain estimators on one word
static void plain(const W&w){ long m=w.size(); std::vector<double> d(w.begin(),w.end()),z(m); Ref r=ref(w,m); auto C=cands(r,m); std::string what=mc_fmt("data %s",ws(w,m).c_str()); mc_note("%s",what.c_str()); double mu=sample_mean(d.data(),m); MC_CHECK(std::fabs(mu-r.mean)<1e-12*(1+std::fabs(r.mean)),"%s: mean %.17g instead of %.17g",what.c_str(),mu,r.mean); for(long i=0;i<m;i++){ MC_CHECK(d[i]==w[i],"%s: sample_mean changed its data",what.c_str()); z[i]=d[i]-r.mean; }
  double err=-1,v=ips_value(d.data(),m,&err); MC_CHECK(v==mu&&match(C,err*std::sqrt(m)/1.96,0,-1,false),"%s: value %.17g +- %.12g (sigma %.12g), expected %s",what.c_str(),v,err,err*std::sqrt(m)/1.96,cs(C).c_str()); double s=ips_sigma_estimator(z.data(),m); MC_CHECK(match(C,s,0,-1,false),"%s: sigma %.12g, expected %s",what.c_str(),s,cs(C).c_str());
  double g0=-1,g1=-1,*G=NULL; int N=-7; double s2=ips_sigma_estimator_with_gammas(z.data(),m,&g0,&g1,&G,&N); double sc=(double)m*m*m; MC_CHECK(s2==s&&std::fabs(g0-(double)r.g0/sc)<1e-9*(1+g0)&&std::fabs(g1-(double)r.g1/sc)<1e-9*(1+g0),"%s: sigma %.12g, variance %.12g and lag-1 covariance %.12g instead of %.12g, %.12g",what.c_str(),s2,g0,g1,(double)r.g0/sc,(double)r.g1/sc); bool ok=false; for(auto&c:C) if(c.N==N+1||(c.N==0&&N==0)) ok=true; MC_CHECK(ok,"%s: %d covariance sums reported, expected %s",what.c_str(),N+1,cs(C).c_str()); for(int i=0;i<N;i++) MC_CHECK(std::fabs(G[i]-(double)r.G[i+1]/sc)<1e-9*(1+g0),"%s: sum %d is %.12g instead of %.12g",what.c_str(),i+1,G[i],(double)r.G[i+1]/sc); free(G); mc_eval(); mc_trans(); mc_trace(); mc_state(mc_fmt("p%ld %d %.9f",m,N,s)); mc_outcome(N==0?"no positive sum":"positive sums"); }
// the buffered estimator: feed w, evaluate at the chosen prefixes
static void buffered(const W&w,int B,std::function<bool(size_t)> when,std::vector<Ref>*cache){ geyer_ips_t*g=geyer_ips_new(B); MC_CHECK(g,"no estimator"); bool ok=false; double e=-1; int nl=0; for(size_t i=0;i<w.size();i++){ geyer_ips_add(g,w[i]); mc_trans(); if(!when(i+1)) continue; long m=i+1; Ref rr; const Ref*r; if(cache){ r=&(*cache)[i]; } else { rr=ref(w,m); r=&rr; } std::string what=mc_fmt("data %s through a buffer of %d",ws(w,m).c_str(),B); mc_note("%s",what.c_str()); bool all=m<=B; if(!all&&!nl) nl=g->nldots; ok=!ok; e=-1; double v=geyer_ips_value(g,&e,&ok); auto C=cands(*r,all?m:nl);
    MC_CHECK(std::fabs(v-r->mean)<1e-12*(1+std::fabs(r->mean)),"%s: mean %.17g instead of %.17g",what.c_str(),v,r->mean); double sg=e*std::sqrt((double)m)/1.96; MC_CHECK(match(C,sg,0,ok,false),"%s: error %.12g (sigma %.12g, ok %d), expected %s",what.c_str(),e,sg,ok,cs(C).c_str()); MC_CHECK(match(C,g->sigma,g->N,-1,m>1&&r->g0>0),"%s: reported sigma %.12g with %d terms, expected %s",what.c_str(),g->sigma,g->N,cs(C).c_str()); double sc=(double)m*m*m; for(int k=0;k<g->N&&k<(int)r->G.size();k++) MC_CHECK(std::fabs(g->Gamma[k]-(double)r->G[k]/sc)<1e-8*(1+(double)r->g0/sc),"%s: covariance sum %d is %.12g instead of %.12g",what.c_str(),k,g->Gamma[k],(double)r->G[k]/sc);
    bool ok2=false; double v2=geyer_ips_value(g,NULL,&ok2); MC_CHECK(ok2&&v2==v,"%s: value without error %.17g",what.c_str(),v2); mc_eval(); mc_outcome(all?"in the buffer":ok?"beyond the buffer":"out of lags"); mc_state(mc_fmt("b%d %ld %.9f",B,m,g->sigma)); }
  MC_CHECK(!nl||(nl>=2&&nl<=B&&(nl>=50||nl==B)),"%d lags are kept in a buffer of %d",nl,B); geyer_ips_free(&g); MC_CHECK(!g,"the estimator was not released"); geyer_ips_free(&g); mc_trace(); }
// values in another unit (a power of two: no roundoff): the same numbers in that unit
static void unit(const W&w,int B,double sc){ geyer_ips_t*g=geyer_ips_new(B),*h=geyer_ips_new(B); for(size_t i=0;i<w.size();i++){ geyer_ips_add(g,w[i]); geyer_ips_add(h,sc*w[i]); mc_trans(); if(w.size()>40&&i%37&&i+1<w.size()) continue; bool a=false,b=true; double e=-1,f=-1,v=geyer_ips_value(g,&e,&a),u=geyer_ips_value(h,&f,&b); MC_CHECK(a==b&&u==v*sc&&f==e*sc&&g->N==h->N,"data %s through a buffer of %d: %.12g +- %.12g, but in units of %g %.12g +- %.12g",ws(w,i+1).c_str(),B,v,e,sc,u/sc,f/sc); mc_eval(); } geyer_ips_free(&g); geyer_ips_free(&h); size_t m=w.size(); std::vector<double> d,z; for(int x:w){ d.push_back(x); z.push_back(sc*x); } double e=-1,f=-1,v=ips_value(d.data(),m,&e),u=ips_value(z.data(),m,&f); MC_CHECK(u==v*sc&&f==e*sc,"data %s: %.12g +- %.12g, but in units of %g %.12g +- %.12g",ws(w,m).c_str(),v,e,sc,u/sc,f/sc); mc_trace(); mc_outcome("other unit"); }
static void words(const W&A,int n,std::function<void(const W&)> cb){ std::vector<int> d(n,0); for(;;){ W w; for(int x:d) w.push_back(A[x]); cb(w); int i=0; while(i<n&&++d[i]==(int)A.size()) d[i++]=0; if(i==n) return; } }
void mc_main(){ bool T=mc_thorough;
  for(int n=1;n<=(T?10:9);n++) for(int al=0;al<3;al++) for(int part=0;part<(n>6?8:1);part++) mc_case(mc_fmt("words of %d over alphabet %d, part %d",n,al,part),[=]{ long wi=0; W A=al==0?W{0,1,5}:al==1?W{-3,-2,7}:W{0,1,2,-4}; int len=al==2?n-1:n; if(len<1) return; words(A,len,[&](const W&w){ if(n>6&&wi++%8!=part) return; plain(w); std::vector<Ref> R; for(int m=1;m<=len;m++) R.push_back(ref(w,m)); for(int B=2;B<=len+1;B++) buffered(w,B,[](size_t){ return true; },&R); }); });
  for(int n=1;n<=7;n++) mc_case(mc_fmt("units, words of %d",n),[=]{ words({0,1,-4},n,[&](const W&w){ for(int B=2;B<=n+1;B++) for(double sc:{std::ldexp(1,-36),std::ldexp(1,-10),std::ldexp(1,36)}) unit(w,B,sc); }); });
  // evaluation at every subset of the prefixes
  for(int n=1;n<=7;n++) mc_case(mc_fmt("evaluation histories of %d",n),[=]{ words({0,3},n,[&](const W&w){ for(int B=2;B<=n;B++) for(int q=0;q<1<<n;q++) buffered(w,B,[&](size_t i){ return q>>(i-1)&1; },NULL); }); });
  // long structured runs: blocks of length b repeating every word
  for(int n=1;n<=(T?6:5);n++) for(int b:{1,2,3,7,20,45}) mc_case(mc_fmt("periodic %d blocks of %d",n,b),[=]{ words({0,1,-4},n,[&](const W&w){ int L=420; W x; for(int i=0;i<L;i++) x.push_back(w[i/b%n]+(b>1?(i*i%7==3):0)); plain(x); for(int B:{50,53,64,100,129,200,400}){ auto when=[&](size_t m){ return m%B<=1||m%B==(size_t)B-1||m==(size_t)B+20||m==(size_t)L||(B<130&&m%B==49); }; buffered(x,B,when,NULL); } }); });
  // slowly decaying correlation: many covariance sums
  mc_case("slow chains",[=]{ for(int p:{30,60,100,150,300,700}) for(int q=0;q<(T?20:6);q++){ W x; int L=1500; for(int i=0;i<L;i++){ int t=(i+q*17)%(2*p); x.push_back((t<p?t:2*p-t)+(i*7919+q)%3); } plain(x); for(int B:{60,333}) for(double sc:{std::ldexp(1,-36),std::ldexp(1,36)}) unit(x,B,sc); for(int B:{60,200,333,600,1000}) buffered(x,B,[&](size_t m){ return m==(size_t)B||m==(size_t)B+1||m%(size_t)B==(size_t)B/2||m==(size_t)L; },NULL); } });
  mc_case("long sums",[=]{ for(int n:{1,2,3,1000,1023,1024,1025,4099,100003}){ std::vector<double> d; double s=0; for(int i=0;i<n;i++){ d.push_back(i%10); s+=i%10; } MC_CHECK(std::fabs(sample_mean(d.data(),n)-s/n)<1e-12,"mean of %d values",n); mc_eval(); mc_trans(); } // more than 256 covariance sums
    for(int n:{1000,1034,1036,1600,4000}){ W x; for(int i=0;i<n;i++) x.push_back(i); plain(x); } mc_trace(); mc_state("sums"); });
  mc_case("lagged products",[=]{ for(int n=1;n<=9;n++){ std::vector<double> a; for(int i=0;i<n;i++) a.push_back(i*i-3*i+1); for(int l=0;l<=n+2;l++){ double s=0; for(int i=0;i+l<n;i++) s+=a[i]*a[i+l]; MC_CHECK(lagged_dot(l,n,a.data())==s,"lag %d of %d values",l,n); mc_eval(); for(int c=0;c<=n;c++){ double t=0; for(int i=0;i<c;i++) if(i+l>=c&&i+l<n) t+=a[i]*a[i+l]; MC_CHECK(split_lagged_dot(l,c,a.data(),n-c,a.data()+c)==t,"lag %d split %d of %d values",l,c,n); mc_eval(); mc_trans(); } } } mc_state("lags"); mc_trace(); });
  mc_case("empty",[=]{ for(int B:{2,50,1000}){ geyer_ips_t*g=geyer_ips_new(B); for(int e=0;e<2;e++) for(int o=0;o<2;o++){ bool ok=o; double er=3; double v=geyer_ips_value(g,e?&er:NULL,&ok); MC_CHECK(v==0&&ok&&(!e||er==0),"no data: value %g error %g ok %d",v,er,ok); mc_eval(); } geyer_ips_free(&g); mc_trans(); } mc_state("empty"); mc_trace(); });
}
