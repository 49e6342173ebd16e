// The brute-force model of struts and minrad: all pairs of edges, all vertices.
#ifndef STRUT_HPP
#define STRUT_HPP
#include "curve.hpp"
#include <cfloat>
static const double DEL=1e-9;
struct Close{ double s,t,d; bool unique; };
// closest points of two segments: the minimum over the interior critical point and the four boundary edges
static Close closest(const V3&a,const V3&b,const V3&c,const V3&d){ std::vector<Close> k; V3 u=vadd(b,a,-1),v=vadd(d,c,-1),w=vadd(a,c,-1); double A=vdot(u,u),B=vdot(u,v),C=vdot(v,v),D=vdot(u,w),E=vdot(v,w); auto add=[&](double s,double t){ k.push_back({s,t,vdist(vadd(a,u,s),vadd(c,v,t)),true}); }; auto cl=[](double x){ return x<0?0.:x>1?1.:x; };
  double den=A*C-B*B; bool par=den<1e-8*A*C; if(!par){ double s=(B*E-C*D)/den,t=(A*E-B*D)/den; if(s>=0&&s<=1&&t>=0&&t<=1) add(s,t); }
  add(0,cl(E/C)); add(1,cl((E+B)/C)); add(cl(-D/A),0); add(cl((B-D)/A),1); Close r=k[0]; for(auto&x:k) if(x.d<r.d) r=x; for(auto&x:k) if(x.d<=r.d+1e-9&&(std::fabs(x.s-r.s)>1e-6||std::fabs(x.t-r.t)>1e-6)) r.unique=false; if(par) r.unique=false; return r; }
struct Strut{ int c[2],e[2]; double s[2],len; bool sure; };
typedef std::array<int,4> Key; // component and edge of both ends, smaller first
static Key key(int c0,int e0,int c1,int e1){ return std::make_pair(c0,e0)<std::make_pair(c1,e1)?Key{{c0,e0,c1,e1}}:Key{{c1,e1,c0,e0}}; }
// 0 no, 1 undecided at this precision, 2 yes: the point at s on edge e of K is a local minimum of the distance to the far point at p+w
static int endok(const Comp&K,int e,double s,const V3&w){ int n=K.v.size(); const V3&a=K.v[e],&b=K.v[(e+1)%n]; V3 u=vadd(b,a,-1); double m=vdot(u,w)/(vnorm(u)*vnorm(w)); if(!(vnorm(w)>1e-9)) return 1;
  if(s>DEL&&s<1-DEL) return 2; bool last=K.open&&e==n-2,first=K.open&&e==0;
  if(s>=1-DEL){ if(last) return std::fabs(m)<DEL?1:2; return std::fabs(m)<DEL||s<1?1:0; } // a non-final edge's end belongs to the next edge
  if(s>0||std::fabs(m)<DEL) return 1; if(first) return 2; const V3&p=K.v[(e+n-1)%n]; V3 r=vadd(p,a,-1); double q=vdot(r,w)/(vnorm(r)*vnorm(w)); return q<-DEL?2:q>DEL?0:1; }
static std::vector<Strut> model(const Curve&C){ std::vector<Strut> R; struct E{ int c,e; }; std::vector<E> es; for(size_t c=0;c<C.size();c++){ int n=C[c].v.size(); for(int e=0;e<n-(C[c].open?1:0);e++) es.push_back({(int)c,e}); }
  for(size_t i=0;i<es.size();i++) for(size_t j=i+1;j<es.size();j++){ E x=es[i],y=es[j]; const Comp&X=C[x.c],&Y=C[y.c]; int n=X.v.size(); if(x.c==y.c){ int d=y.e-x.e; if(d<2||(!X.open&&n-d<2)) continue; }
    V3 a=X.v[x.e],b=X.v[(x.e+1)%n],c=Y.v[y.e],d=Y.v[(y.e+1)%Y.v.size()]; Close k=closest(a,b,c,d); V3 p=vadd(a,vadd(b,a,-1),k.s),q=vadd(c,vadd(d,c,-1),k.t); V3 w=vadd(q,p,-1); int ok=std::min(endok(X,x.e,k.s,w),endok(Y,y.e,k.t,vscale(-1,w))); if(!k.unique&&ok==2) ok=1; if(!k.unique) ok=std::max(ok,1); if(!ok) continue; Strut S; S.c[0]=x.c; S.c[1]=y.c; S.e[0]=x.e; S.e[1]=y.e; S.s[0]=k.s; S.s[1]=k.t; S.len=k.d; S.sure=ok==2; R.push_back(S); }
  return R; }
struct Mr{ int c,v,sv; double r; };
static std::vector<Mr> mrmodel(const Curve&C){ std::vector<Mr> R; for(size_t c=0;c<C.size();c++){ int n=C[c].v.size(); for(int j=C[c].open?1:0;j<n-(C[c].open?1:0);j++){ V3 a=C[c].v[(j+n-1)%n],b=C[c].v[j],d=C[c].v[(j+1)%n]; V3 in=vadd(b,a,-1),out=vadd(d,b,-1); double x=vnorm(vcross(in,out)); if(x<1e-12) continue; double th=std::atan2(x,vdot(in,out)); double f=1/(2*std::tan(th/2)); R.push_back({(int)c,j,j-1,vnorm(in)*f}); R.push_back({(int)c,j,j+1,vnorm(out)*f}); } } return R; }
#endif
