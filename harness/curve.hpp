// Curves for the C-series harnesses: an independent value model of a plCurve and conversions.
#ifndef CURVE_HPP
#define CURVE_HPP
#include "mc.h"
#include <cmath>
extern "C" {
#include "plCurve.h"
}
#include <array>
typedef std::array<double,3> V3;
typedef std::array<double,4> C4;
struct Cst{ int kind=0; V3 a{{0,0,0}},b{{0,0,0}}; bool operator==(const Cst&o)const{ return kind==o.kind&&(kind==0||(a==o.a&&b==o.b)); } };
struct Comp{ bool open=false; std::vector<V3> v; std::vector<C4> c; std::vector<Cst> cst; }; // cst: one per vertex
typedef std::vector<Comp> Curve;
static inline plc_vector pv(const V3&v){ plc_vector r; r.c[0]=v[0]; r.c[1]=v[1]; r.c[2]=v[2]; return r; }
static inline V3 vv(const plc_vector&v){ return V3{{v.c[0],v.c[1],v.c[2]}}; }
static inline V3 vadd(V3 a,const V3&b,double s=1){ for(int i=0;i<3;i++) a[i]+=s*b[i]; return a; }
static inline double vdot(const V3&a,const V3&b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static inline V3 vcross(const V3&a,const V3&b){ return V3{{a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}}; }
static inline double vnorm(const V3&a){ return std::sqrt(vdot(a,a)); }
static inline double vdist(const V3&a,const V3&b){ return vnorm(vadd(a,b,-1)); }
static inline V3 vscale(double s,V3 a){ for(auto&x:a) x*=s; return a; }
static std::string vstr(const V3&a){ return mc_fmt("(%.17g,%.17g,%.17g)",a[0],a[1],a[2]); }
// the constraint list of the curve, built without the library: maximal runs, fixed ones per vertex
static void set_csts(plCurve*L,const Curve&C,bool merge=true){
  plc_constraint**p=&L->cst;
  for(size_t c=0;c<C.size();c++){ if(C[c].cst.empty()) continue; for(size_t i=0;i<C[c].v.size();){ const Cst&k=C[c].cst[i]; if(!k.kind){ i++; continue; } size_t j=i+1; if(merge&&k.kind!=1) while(j<C[c].v.size()&&C[c].cst[j]==k) j++;
    plc_constraint*q=(plc_constraint*)calloc(1,sizeof *q); q->kind=(plc_cst_kind)k.kind; q->vect[0]=pv(k.a); q->vect[1]=pv(k.b); q->cmp=c; q->vert=i; q->num_verts=j-i; *p=q; p=&q->next; i=j; } } }
static plCurve*to_plc(const Curve&C){
  std::vector<int> nv,cc; std::vector<char> op; for(auto&k:C){ nv.push_back(k.v.size()); cc.push_back(k.c.size()); op.push_back(k.open); }
  bool*o=(bool*)malloc(C.size()); for(size_t i=0;i<C.size();i++) o[i]=op[i];
  plCurve*L=plc_new(C.size(),nv.data(),o,cc.data()); free(o);
  for(size_t i=0;i<C.size();i++){ for(size_t j=0;j<C[i].v.size();j++) L->cp[i].vt[j]=pv(C[i].v[j]); for(size_t j=0;j<C[i].c.size();j++) L->cp[i].clr[j]=plc_build_color(C[i].c[j][0],C[i].c[j][1],C[i].c[j][2],C[i].c[j][3]); }
  set_csts(L,C); plc_fix_wrap(L); return L; }
// reads a plCurve back, checking its structural invariants: sorted disjoint in-range constraints, wraparound vertices
static std::string curve_bad(const plCurve*L,bool wrap=true){
  if(!L) return "no curve"; if(L->nc<0) return "negative component count";
  for(int i=0;i<L->nc;i++){ const plc_strand&s=L->cp[i]; if(s.nv<1) return mc_fmt("component %d has %d vertices",i,s.nv); if(!s.vt) return "no vertex buffer"; if(s.cc<0||s.cc>s.nv) return mc_fmt("component %d has %d colors for %d vertices",i,s.cc,s.nv); if(s.cc>0&&!s.clr) return "no color buffer";
    if(s.nv<3&&!s.open) return "a component with fewer than 3 vertices is not open";
    if(wrap&&s.nv>=2){ V3 a=vv(s.vt[-1]),b=vv(s.vt[s.nv]); V3 wa=vv(s.open?s.vt[1]:s.vt[s.nv-1]),wb=vv(s.open?s.vt[s.nv-2]:s.vt[0]); if(memcmp(&a,&wa,sizeof a)||memcmp(&b,&wb,sizeof b)) return mc_fmt("wraparound vertices of component %d are stale",i); } }
  int pc=-1,pe=0,guard=0; for(const plc_constraint*q=L->cst;q;q=q->next){ if(++guard>100000) return "constraint list is cyclic"; if(q->kind!=fixed&&q->kind!=line&&q->kind!=plane) return mc_fmt("constraint of kind %d in the list",(int)q->kind); if(q->cmp<0||q->cmp>=L->nc) return mc_fmt("constraint on component %d",q->cmp); if(q->num_verts<1||q->vert<0||q->vert+q->num_verts>L->cp[q->cmp].nv) return mc_fmt("constraint on vertices %d..%d of component %d",q->vert,q->vert+q->num_verts-1,q->cmp); if(q->kind==fixed&&q->num_verts!=1) return "fixed constraint on several vertices";
    if(q->cmp<pc||(q->cmp==pc&&q->vert<pe)) return "constraints are not sorted and disjoint"; pc=q->cmp; pe=q->vert+q->num_verts; }
  return ""; }
static Curve from_plc(const plCurve*L){ Curve C(L->nc); for(int i=0;i<L->nc;i++){ Comp&k=C[i]; k.open=L->cp[i].open; for(int j=0;j<L->cp[i].nv;j++) k.v.push_back(vv(L->cp[i].vt[j])); for(int j=0;j<L->cp[i].cc;j++){ plc_color q=L->cp[i].clr[j]; k.c.push_back(C4{{q.r,q.g,q.b,q.alpha}}); } k.cst.resize(k.v.size()); }
  for(const plc_constraint*q=L->cst;q;q=q->next) for(int j=q->vert;j<q->vert+q->num_verts;j++){ Cst&t=C[q->cmp].cst[j]; t.kind=q->kind; t.a=vv(q->vect[0]); t.b=vv(q->vect[1]); if(t.kind==fixed) t.b=V3{{0,0,0}}; if(t.kind==plane){ t.b[1]=t.b[2]=0; } }
  return C; }
static std::string curve_str(const Curve&C,bool full=true){ std::string s=mc_fmt("%zu{",C.size()); for(auto&k:C){ s+=k.open?"o[":"c["; for(size_t i=0;i<k.v.size();i++){ if(full) s+=vstr(k.v[i]); else s+="."; if(i<k.cst.size()&&k.cst[i].kind) s+=mc_fmt("%c%g,%g,%g|%g,%g,%g ","uFLP"[k.cst[i].kind],k.cst[i].a[0],k.cst[i].a[1],k.cst[i].a[2],k.cst[i].b[0],k.cst[i].b[1],k.cst[i].b[2]); } s+=mc_fmt("]%zu",k.c.size()); if(full) for(auto&c:k.c) s+=mc_fmt("<%g %g %g %g>",c[0],c[1],c[2],c[3]); } return s+"}"; }
static bool near3(const V3&a,const V3&b,double tol){ for(int i=0;i<3;i++) if(!(std::fabs(a[i]-b[i])<=tol)) return false; return true; }
// same curve, coordinates within tol (0: exactly)
static std::string curve_diff(const Curve&A,const Curve&B,double tol=0,double ctol=0){
  if(A.size()!=B.size()) return mc_fmt("%zu components instead of %zu",A.size(),B.size());
  for(size_t c=0;c<A.size();c++){ const Comp&a=A[c],&b=B[c]; if(a.open!=b.open) return mc_fmt("component %zu is %s",c,a.open?"open":"closed"); if(a.v.size()!=b.v.size()) return mc_fmt("component %zu has %zu vertices instead of %zu",c,a.v.size(),b.v.size());
    for(size_t i=0;i<a.v.size();i++) if(!near3(a.v[i],b.v[i],tol)) return mc_fmt("vertex %zu of component %zu is %s instead of %s",i,c,vstr(a.v[i]).c_str(),vstr(b.v[i]).c_str());
    if(a.c.size()!=b.c.size()) return mc_fmt("component %zu has %zu colors instead of %zu",c,a.c.size(),b.c.size());
    for(size_t i=0;i<a.c.size();i++) for(int j=0;j<4;j++) if(!(std::fabs(a.c[i][j]-b.c[i][j])<=tol)) return mc_fmt("color %zu of component %zu",i,c);
    for(size_t i=0;i<a.v.size();i++){ Cst x,y; if(i<a.cst.size()) x=a.cst[i]; if(i<b.cst.size()) y=b.cst[i]; if(x.kind!=y.kind) return mc_fmt("vertex %zu of component %zu has constraint kind %d instead of %d",i,c,x.kind,y.kind); if(x.kind&&(!near3(x.a,y.a,ctol)||!near3(x.b,y.b,ctol))) return mc_fmt("constraint vectors at vertex %zu of component %zu: %s %s instead of %s %s",i,c,vstr(x.a).c_str(),vstr(x.b).c_str(),vstr(y.a).c_str(),vstr(y.b).c_str()); } }
  return ""; }
#define CHECK_CURVE(L,C,...) do{ std::string b_=curve_bad(L); if(!b_.empty()) mc_fail("%s: %s",mc_fmt(__VA_ARGS__).c_str(),b_.c_str()); b_=curve_diff(from_plc(L),C); if(!b_.empty()) mc_fail("%s: %s",mc_fmt(__VA_ARGS__).c_str(),b_.c_str()); }while(0)
#define CHECK_CURVE_TOL(L,C,tol,...) do{ std::string b_=curve_bad(L); if(!b_.empty()) mc_fail("%s: %s",mc_fmt(__VA_ARGS__).c_str(),b_.c_str()); b_=curve_diff(from_plc(L),C,tol,tol); if(!b_.empty()) mc_fail("%s: %s",mc_fmt(__VA_ARGS__).c_str(),b_.c_str()); }while(0)
#endif
