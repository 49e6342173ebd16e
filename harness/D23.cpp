// D23: HOMFLY polynomial records convert exactly between text forms; products and comparison are those of polynomials.
#include "mc.h"
#include <vector>
#include <set>
#include <algorithm>
extern "C" {
#include "plcTopology.h"
#include "polynomials.h"
}
typedef std::map<std::pair<int,int>,long long> Poly;
#include "latexpoly.hpp"
static std::string ps(const Poly&p){ std::string s; for(auto&t:p) s+=mc_fmt("%+lld l%d m%d ",t.second,t.first.first,t.first.second); return s.empty()?"0":s; }
static std::string lmtext(const Poly&p){ int m0=0,m1=0; for(auto&t:p){ m0=std::min(m0,t.first.second); m1=std::max(m1,t.first.second); } std::string s; for(int m=m0;m<=m1;m++){ int a=0,b=0; for(auto&t:p) if(t.first.second==m){ a=std::min(a,t.first.first); b=std::max(b,t.first.first); } if(m==0) s+="["; for(int l=a;l<=b;l++){ auto it=p.find({l,m}); long long c=it==p.end()?0:it->second; if(l>a) s+=" "; s+=l?mc_fmt("%lld",c):mc_fmt("[%lld]",c); } if(m==0) s+="]"; s+="N"; } return s+" "; }
static bool lmparse(const std::string&t,Poly&p){ // rows separated by N; the row inside outer brackets is m^0
  std::vector<std::string> rows; std::string cur; for(char c:t){ if(c=='N'){ rows.push_back(cur); cur=""; } else cur+=c; } for(char c:cur) if(c!=' ') return false; int z=-1; for(size_t i=0;i<rows.size();i++){ int d=0,mx=0; for(char c:rows[i]){ if(c=='[') mx=std::max(mx,++d); if(c==']') d--; } if(d) return false; if(mx==2){ if(z>=0) return false; z=i; } } if(z<0) return false; p.clear();
  for(size_t i=0;i<rows.size();i++){ std::string r=rows[i]; if((int)i==z){ if(r[0]!='['||r.back()!=']') return false; r=r.substr(1,r.size()-2); } std::vector<std::string> w; std::string x; for(char c:r+" "){ if(c==' '){ if(!x.empty()) w.push_back(x); x=""; } else x+=c; } int l0=-1; for(size_t k=0;k<w.size();k++) if(w[k][0]=='['){ if(l0>=0||w[k].back()!=']') return false; l0=k; w[k]=w[k].substr(1,w[k].size()-2); } if(l0<0) return false; for(size_t k=0;k<w.size();k++){ char*e; long long c=strtoll(w[k].c_str(),&e,10); if(*e||w[k].empty()) return false; if(c) p[{(int)k-l0,(int)i-z}]=c; } } return true; }
static homfly_polynomial_t*rec(const Poly&p,int order){ homfly_polynomial_t*h=(homfly_polynomial_t*)calloc(1,sizeof*h); h->nmonomials=p.size(); h->mono=(monomial_t*)calloc(p.size()+1,sizeof(monomial_t)); int i=0,n=p.size(); for(auto&t:p){ int k=order==0?i:order==1?n-1-i:(i*2<n?i*2:(i*2-n)|1); if(order==2){ k=(i+n/2)%n; } h->mono[k].coeff=t.second; h->mono[k].l=t.first.first; h->mono[k].m=t.first.second; i++; } return h; }
static bool canon(const homfly_polynomial_t*h,Poly&p){ p.clear(); for(int i=0;i<h->nmonomials;i++){ if(!h->mono[i].coeff) return false; auto r=p.insert({{h->mono[i].l,h->mono[i].m},h->mono[i].coeff}); if(!r.second) return false; } return true; }
static bool mathparse(const char*s,Poly&p){ p.clear(); if(!*s) return true; for(;;){ int c,n=0,l=0,m=0; if(sscanf(s,"(%d)%n",&c,&n)!=1||!n) return false; s+=n; if(sscanf(s,"*a^(%d)%n",&l,&n)==1) s+=n; else l=0; if(sscanf(s,"*z^(%d)%n",&m,&n)==1) s+=n; else m=0; if(!p.insert({{l,m},c}).second) return false; if(!*s) return true; if(strncmp(s," + ",3)) return false; s+=3; } }
static void one(const Poly&p){ std::string d=ps(p),t=lmtext(p); mc_note("polynomial %s text %s",d.c_str(),t.c_str()); mc_state(t); Poly g;
  std::string in=t; homfly_polynomial_t*h=lmpoly_to_polynomial(&in[0]); MC_CHECK(h&&canon(h,g)&&g==p,"%s read from \"%s\" as %s",d.c_str(),t.c_str(),ps(g).c_str()); MC_CHECK(in==t,"lmpoly_to_polynomial changed its input"); mc_trans(); mc_eval();
  char*la=poly_to_latex(h); std::string why; Poly q; if(!p.empty()) MC_CHECK(parse_latex(la,q,why)&&q==p,"latex form of %s is \"%s\" (%s)",d.c_str(),la,why.c_str()); char*la2=lmpoly_to_latex(&in[0]); MC_CHECK(!strcmp(la,la2),"latex forms differ"); free(la2); free(la);
  char*ma=poly_to_mathematica(h); MC_CHECK(mathparse(ma,q)&&q==p,"mathematica form of %s is \"%s\"",d.c_str(),ma); char*ma2=lmpoly_to_mathematica(&in[0]); MC_CHECK(!strcmp(ma,ma2),"mathematica forms differ"); free(ma2); free(ma);
  for(int o=0;o<3;o++){ homfly_polynomial_t*r=rec(p,o); char*lm=polynomial_to_lmpoly(r->mono,r->nmonomials); MC_CHECK(lmparse(lm,q)&&q==p,"%s written as \"%s\"",d.c_str(),lm); MC_CHECK(t==lm,"%s written as \"%s\", expected \"%s\"",d.c_str(),lm,t.c_str()); free(lm); Poly u; MC_CHECK(canon(r,u)&&u==p,"polynomial_to_lmpoly changed its input"); MC_CHECK(polynomials_eq(r,h)&&polynomials_eq(h,r),"%s is not equal to itself in another order",d.c_str()); homfly_polynomial_free(&r); MC_CHECK(!r,"free does not clear the pointer"); mc_trans(); }
  char*ck=lmpoly_check(&in[0]); MC_CHECK(t==ck,"\"%s\" checked as \"%s\"",t.c_str(),ck); free(ck);
  if(!p.empty()){ std::string k; for(auto&x:p) k+=(k.empty()?"":" + ")+mc_fmt("%lld a^%d z^%d",x.second,x.first.first,x.first.second); std::string kk=k; homfly_polynomial_t*r=KnotTheory_to_polynomial(&kk[0]); MC_CHECK(r&&canon(r,q)&&q==p&&polynomials_eq(r,h),"KnotTheory form \"%s\" read as %s",k.c_str(),ps(q).c_str()); homfly_polynomial_free(&r); }
  homfly_polynomial_free(&h); mc_outcome(mc_fmt("%zu terms",std::min<size_t>(p.size(),9))); }
static void two(const Poly&a,const Poly&b){ homfly_polynomial_t*A=rec(a,1),*B=rec(b,2); mc_note("product %s times %s",ps(a).c_str(),ps(b).c_str()); Poly w; for(auto&x:a) for(auto&y:b) w[{x.first.first+y.first.first,x.first.second+y.first.second}]+=x.second*y.second; for(auto it=w.begin();it!=w.end();) it=it->second?std::next(it):w.erase(it); homfly_polynomial_t*C=product_polynomial(A,B); mc_trans(); mc_eval(); Poly g; MC_CHECK(C&&canon(C,g)&&g==w,"(%s)(%s) = %s, expected %s",ps(a).c_str(),ps(b).c_str(),ps(g).c_str(),ps(w).c_str()); MC_CHECK(polynomials_eq(A,B)==(a==b),"equality of %s and %s",ps(a).c_str(),ps(b).c_str()); homfly_polynomial_t*D=product_polynomial(B,A); MC_CHECK(polynomials_eq(C,D),"product is not commutative"); homfly_polynomial_free(&A); homfly_polynomial_free(&B); homfly_polynomial_free(&C); homfly_polynomial_free(&D); }
void mc_main(){
  static const int cf[]={1,-1,2,-13,100}; 
  for(int w=0;w<(mc_thorough?3:2);w++) for(int ox=-3;ox<=1;ox++) mc_case(mc_fmt("grid window %d %d",w,ox),[=]{ for(int oy=-3;oy<=1;oy++) for(int S=0;S<512;S++){ Poly p; int k=0; for(int i=0;i<9;i++) if(S>>i&1){ p[{ox+i%3*(w==1?2:1),oy+i/3}]=cf[(k*(w+1)+S)%5]; k++; } one(p); } mc_trace(); });
  // polynomials of many terms
  mc_case("products of long polynomials",[]{ for(int a:{7,19,21,22,33,60}) for(int b:{1,2,20,21,25,60}) for(int t=0;t<6;t++){ Poly p,q; for(int i=0;i<a;i++) p[t%3==0?std::pair<int,int>{i-a/2,0}:t%3==1?std::pair<int,int>{i%5-2,i/5-3}:std::pair<int,int>{0,i-3}]=t<3?1:(i%7-3?i%7-3:5); for(int i=0;i<b;i++) q[t%3==0?std::pair<int,int>{i-1,0}:t%3==1?std::pair<int,int>{i%4,-(i/4)}:std::pair<int,int>{0,2*i}]=t<3?1:(i%5-2?i%5-2:-4); one(p); two(p,q); two(q,p); } mc_trace(); });
  mc_case("spread terms",[]{ static const int e[]={-40,-11,-2,-1,0,1,2,9,10,41}; for(int a:e) for(int b:e) for(int c:{1,-1,2147483647,-2147483647,10,-100}){ Poly p; p[{a,b}]=c; one(p); for(int x:e) for(int y:e) if(x!=a||y!=b){ Poly q=p; q[{x,y}]=-c; one(q); } } mc_trace(); });
  mc_case("columns and rows",[]{ for(int a=-12;a<=12;a++) for(int b=a;b<=12;b++) for(int t=0;t<4;t++){ Poly p; for(int i=a;i<=b;i++) p[{t<2?i:t-2,t<2?t-1:i}]=i%3?i%3:-7; one(p); } mc_trace(); });
  std::vector<Poly> P; static const int sm[]={0,1,-1,2}; int G=mc_thorough?5:4; long T=1; for(int i=0;i<G;i++) T*=4; for(long q=0;q<T;q++){ Poly p; long z=q; for(int i=0;i<G;i++){ int c=sm[z%4]; z/=4; if(c) p[{i%2*2-1,i/2-1}]=c; } P.push_back(p); }
  for(size_t i=0;i<P.size();i+=16) mc_case(mc_fmt("products %zu",i),[=]{ for(size_t k=i;k<i+16&&k<P.size();k++) for(auto&b:P) two(P[k],b); mc_trace(); });
}
