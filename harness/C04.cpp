// C04: histories of structural edits of a curve against a value model.
#include "curve.hpp"
static double tagc=0;
static V3 freshv(){ tagc+=1; return V3{{tagc,0.5*tagc*tagc,std::fmod(7*tagc,5)}}; }
static C4 freshc(){ tagc+=1; return C4{{std::fmod(tagc*0.13,1),std::fmod(tagc*0.31,1),std::fmod(tagc*0.57,1),tagc}}; }
static void settle(Curve&C){ for(auto&k:C){ if(k.v.size()<3) k.open=true; k.cst.resize(k.v.size()); } }
struct Op{ std::string name; std::function<void(Curve&)> model; std::function<plCurve*(plCurve*)> real; double tol=0; bool nocst=false; };
static Comp cut(const Comp&k,size_t from,size_t n){ Comp r; r.open=true; size_t N=k.v.size(); for(size_t i=0;i<n;i++) r.v.push_back(k.v[(from+i)%N]); if(k.c.size()==N) for(size_t i=0;i<n;i++) r.c.push_back(k.c[(from+i)%N]); else if(k.c.size()==1) r.c=k.c; r.cst.resize(n); return r; }
static void m_delete(Curve&C,int cp,int a,int b){ for(auto&k:C) for(auto&c:k.cst) c=Cst(); Comp k=C[cp]; int N=k.v.size(); std::vector<Comp> put;
  if(k.open){ if(a>b) return; if(a>0) put.push_back(cut(k,0,a)); if(b<N-1) put.push_back(cut(k,b+1,N-1-b)); }
  else { int del=b>=a?b-a+1:N-(a-b-1); if(del<N) put.push_back(cut(k,(b+1)%N,N-del)); }
  C.erase(C.begin()+cp); C.insert(C.begin()+cp,put.begin(),put.end()); }
static V3 lerp(double s,const V3&a,const V3&b){ return vadd(vscale(1-s,a),b,s); }
static void m_double(Curve&C){ for(auto&k:C){ int n=k.v.size(); Comp r; r.open=k.open; r.cst.resize(2*n);
    for(int i=0;i<n;i++){ V3 v1=k.v[i]; if(k.open&&i==0){ r.v.push_back(v1); r.v.push_back(lerp(0.25,v1,k.v[1])); continue; } if(k.open&&i==n-1){ r.v.push_back(lerp(0.25,v1,k.v[i-1])); r.v.push_back(v1); continue; }
      V3 v0=k.v[(i+n-1)%n],v2=k.v[(i+1)%n],in=vadd(v1,v0,-1),out=vadd(v2,v1,-1); double a=vnorm(in),b=vnorm(out); if(a<1e-12||b<1e-12){ r.v.push_back(v1); r.v.push_back(v1); continue; }
      double th=std::atan2(vnorm(vcross(in,out)),vdot(in,out)),m=std::min(a,b); double mr=(m/2)/std::tan(th/2); if(!(mr<1000)) mr=1000; double d=m/2-mr*std::tan(std::atan2(m/2,mr)/2); r.v.push_back(lerp(d/a,v1,v0)); r.v.push_back(lerp(d/b,v1,v2)); }
    if(k.c.size()==1) r.c=k.c; else for(auto&c:k.c){ r.c.push_back(c); r.c.push_back(c); }
    for(int i=0;i<n;){ const Cst&c=k.cst[i]; if(!c.kind){ i++; continue; } int j=i+1; if(c.kind!=1) while(j<n&&k.cst[j]==c) j++; int at=2*i; if(c.kind==3&&i==n-1) at++; for(int q=0;q<2*(j-i)-1;q++) r.cst[at+q]=c; i=j; }
    k=r; } }
static std::vector<Op> ops(const Curve&C,int lvl){
  std::vector<Op> o; auto inpl=[](std::function<void(plCurve*)> f){ return [f](plCurve*L){ f(L); return L; }; };
  int nc=C.size(),tot=0; bool one=false; for(auto&k:C){ tot+=k.v.size(); one|=k.v.size()<2; }
  for(int at=0;at<=nc&&nc<3;at++) for(int nv:{1,3}) for(int open=nv<3;open<2;open++) for(int cc:{0,1,3}) if(cc<=nv&&(lvl>1||cc!=1||nv==1)){ Comp k; k.open=open; for(int i=0;i<nv;i++) k.v.push_back(freshv()); for(int i=0;i<cc;i++) k.c.push_back(freshc()); k.cst.resize(nv);
    o.push_back({mc_fmt("add component %d (%d vertices, %s, %d colors)",at,nv,open?"open":"closed",cc),[=](Curve&D){ D.insert(D.begin()+at,k); },inpl([=](plCurve*L){ std::vector<plc_vector> v; std::vector<plc_color> c; for(auto&x:k.v) v.push_back(pv(x)); for(auto&x:k.c) c.push_back(plc_build_color(x[0],x[1],x[2],x[3])); plc_add_component(L,at,nv,open,cc,v.data(),cc?c.data():NULL); })}); }
  if(nc>1) for(int i=0;i<nc;i++) o.push_back({mc_fmt("drop component %d",i),[=](Curve&D){ D.erase(D.begin()+i); },inpl([=](plCurve*L){ plc_drop_component(L,i); })});
  for(int i=0;i<nc;i++) for(int a=0;a<(int)C[i].v.size();a++) for(int b=0;b<(int)C[i].v.size();b++){ if(C[i].c.size()>1&&C[i].c.size()<C[i].v.size()) continue; { int n=C[i].v.size(); auto far=[n](int x){ return n>=20&&x>1&&x<n-2&&x!=n/3&&x!=n/2&&x!=n/2+1; }; if(far(a)||far(b)) continue; } Curve t=C; m_delete(t,i,a,b); if(t.empty()) continue; o.push_back({mc_fmt("delete arc %d:%d-%d",i,a,b),[=](Curve&D){ m_delete(D,i,a,b); },[=](plCurve*L){ plCurve*K=plc_delete_arc(L,i,a,b); return K; }}); }
  for(int i=0;i<nc;i++) for(int cc:std::set<int>{0,1,std::min(2,(int)C[i].v.size()),(int)C[i].v.size()}) o.push_back({mc_fmt("resize colors of %d to %d",i,cc),[=](Curve&D){ auto&k=D[i]; size_t old=k.c.size(); C4 z{{0,0,0,0}}; C4 f=old==1?k.c[0]:z; k.c.resize(cc,f); },inpl([=](plCurve*L){ plc_resize_colorbuf(L,i,cc); })});
  { C4 c=freshc(); o.push_back({"set color",[=](Curve&D){ for(auto&k:D) for(auto&x:k.c) x=c; },inpl([=](plCurve*L){ plc_set_color(L,plc_build_color(c[0],c[1],c[2],c[3])); })}); }
  for(int i=0;i<nc;i++){ int n=C[i].v.size(); V3 p=freshv(),q=freshv();
    o.push_back({mc_fmt("fix last vertex of %d",i),[=](Curve&D){ Cst c; c.kind=1; c.a=p; D[i].cst[n-1]=c; },inpl([=](plCurve*L){ plc_set_fixed(L,i,n-1,pv(p)); })});
    o.push_back({mc_fmt("constrain all of %d to a line",i),[=](Curve&D){ Cst c; c.kind=2; c.a=p; c.b=q; for(auto&x:D[i].cst) x=c; },inpl([=](plCurve*L){ plc_constrain_to_line(L,i,0,n,pv(p),pv(q)); })});
    o.push_back({mc_fmt("constrain vertex 0 of %d to a plane",i),[=](Curve&D){ Cst c; c.kind=3; c.a=p; c.b=V3{{0.5,0,0}}; D[i].cst[0]=c; },inpl([=](plCurve*L){ plc_constrain_to_plane(L,i,0,1,pv(p),0.5); })});
    if(lvl>1) o.push_back({mc_fmt("move the ends of %d",i),[=](Curve&D){ D[i].v[0]=p; D[i].v[n-1]=q; },inpl([=](plCurve*L){ L->cp[i].vt[0]=pv(p); L->cp[i].vt[n-1]=pv(q); plc_fix_wrap(L); })}); 
    if(n>=3) o.push_back({mc_fmt("toggle open of %d",i),[=](Curve&D){ D[i].open=!D[i].open; },inpl([=](plCurve*L){ L->cp[i].open=!L->cp[i].open; plc_fix_wrap(L); })}); }
  bool partial=false; for(auto&k:C) if(k.c.size()>1&&k.c.size()<k.v.size()) partial=true; if(!one&&!partial&&(tot<=6||tot>=20)) o.push_back({"double vertices",m_double,[](plCurve*L){ return plc_double_verts(L); },1e-6});
  o.push_back({"copy",[](Curve&){},[](plCurve*L){ return plc_copy(L); }});
  return o; }
static void check(plCurve*L,const Curve&C,double tol,const std::string&what){ std::string b=curve_bad(L); if(b.empty()) b=curve_diff(from_plc(L),C,tol,0); if(!b.empty()) mc_fail("%s: %s",what.c_str(),b.c_str()); }
static void walk(plCurve*L,const Curve&C,int depth,const std::string&hist){
  if(depth==0){ mc_trace(); return; } double t0=tagc; auto O=ops(C,depth);
  for(auto&o:O){ double t1=tagc; std::string h=hist+" ; "+o.name; mc_note("%s",h.c_str()); Curve D=C; o.model(D); settle(D); plCurve*K=plc_copy(L); plCurve*R=o.real(K); mc_trans(); mc_eval(); check(R,D,o.tol,h); if(R!=K){ check(K,C,0,h+": the input curve"); plc_free(K); } check(L,C,0,h+": the curve the copy was made from"); Curve E=from_plc(R); mc_state(curve_str(E)); mc_outcome(mc_fmt("%zu components, %s",E.size(),o.name.substr(0,o.name.find(' ')).c_str())); walk(R,E,depth-1,h); plc_free(R); tagc=t1; }
  tagc=t0; }
// the vertices doubling inserts, over all small lattice triples
static void dbl(){ const double co[]={0,1,3}; std::vector<V3> P; for(double x:co) for(double y:co) for(double z:{0.0,2.0}) P.push_back(V3{{x,y,z}}); 
  for(size_t a=0;a<P.size();a++) for(size_t b=0;b<P.size();b++) for(size_t c=0;c<P.size();c++) for(int open=0;open<2;open++){ Curve C(1); C[0].open=open; C[0].v={P[a],P[b],P[c]}; C[0].cst.resize(3); if((a+b+c)%5==0){ C[0].c.push_back(C4{{1,2,3,4}}); } plCurve*L=to_plc(C); Curve D=C; m_double(D); mc_note("%s",curve_str(C).c_str()); plCurve*K=plc_double_verts(L); mc_trans(); mc_eval(); check(K,D,1e-9,"doubling "+curve_str(C)); check(L,C,0,"doubled curve"); mc_state(curve_str(C)); mc_outcome("doubled"); plc_free(K); plc_free(L); }
  mc_trace(); }
void mc_main(){ bool T=mc_thorough;
  std::vector<Curve> S; auto comp=[&](int nv,bool open,int cc){ Comp k; k.open=open; for(int i=0;i<nv;i++) k.v.push_back(freshv()); for(int i=0;i<cc;i++) k.c.push_back(freshc()); k.cst.resize(nv); return k; };
  for(int nv=1;nv<=5;nv++) for(int open=nv<3;open<2;open++) for(int cc:{0,1,nv}) S.push_back({comp(nv,open,cc)});
  S.push_back({comp(3,false,0),comp(4,true,4)}); S.push_back({comp(4,true,1),comp(1,true,0),comp(3,false,3)}); S.push_back({comp(2,true,2),comp(2,true,0)}); 
  { Curve C{comp(4,false,4),comp(4,true,0)}; Cst c; c.kind=2; c.a=V3{{1,2,3}}; c.b=V3{{0,1,0}}; C[0].cst[1]=C[0].cst[2]=c; c.kind=3; c.b=V3{{1,0,0}}; C[1].cst[3]=c; C[1].cst[0]=c; c.kind=1; c.b=V3{{0,0,0}}; C[0].cst[3]=c; S.push_back(C); }
  size_t small=S.size(); for(int nv:{20,31,67}) for(int open=0;open<2;open++) for(int cc:{0,1,7,nv}) if(nv<60||cc==nv) S.push_back({comp(nv,open,cc)});
  for(int nc:{8,25,40}) for(int v=0;v<2;v++){ Curve C; for(int c=0;c<nc;c++){ int nv=2+(c*5+v)%4; C.push_back(comp(nv,nv<3||(c+v)%2,(c+v)%3==0?0:(c+v)%3==1?1:nv)); if(v){ Cst q; q.kind=1+c%3; q.a=V3{{1.0+c,2,3}}; q.b=q.kind==1?V3{{0,0,0}}:q.kind==2?V3{{0,1,0.5*c}}:V3{{0.25*c,0,0}}; C.back().cst[c%nv]=q; } } S.push_back(C); }
  int k=0; for(auto&C:S){ k++; int n0=0; for(auto&q:C) n0+=q.v.size(); int depth=(size_t)k>small?1:T?3:(n0<=4?3:2); { double t=tagc; auto O=ops(C,depth); tagc=t; for(size_t i=0;i<O.size();i++) mc_case(mc_fmt("history of depth %d from curve %d starting with %s",depth,k,O[i].name.c_str()),[&]{ plCurve*L=to_plc(C); check(L,C,0,"initial curve"); std::string h=curve_str(C,false)+" ; "+O[i].name; mc_note("%s",h.c_str()); Curve D=C; O[i].model(D); settle(D); plCurve*R=O[i].real(L); mc_trans(); mc_eval(); check(R,D,O[i].tol,h); if(R!=L){ check(L,C,0,h+": the input"); plc_free(L); } walk(R,from_plc(R),depth-1,h); plc_free(R); mc_sample(h); }); } }
  mc_case("doubling every lattice triangle",[&]{ dbl(); });
  // deleting everything leaves an empty curve
  for(int open=0;open<2;open++) for(int nv=3;nv<=6;nv++) mc_case(mc_fmt("deleting a whole %s component of %d vertices",open?"open":"closed",nv),[&]{ for(int a=0;a<nv;a++) for(int b=0;b<nv;b++){ Curve C{comp(nv,open,0)},D=C; m_delete(D,0,a,b); plCurve*L=to_plc(C); plCurve*K=plc_delete_arc(L,0,a,b); mc_trans(); mc_eval(); MC_CHECK(K->nc==(int)D.size(),"deleting %d-%d leaves %d components instead of %zu",a,b,K->nc,D.size()); if(!D.empty()) check(K,D,0,"deleted"); mc_state(mc_fmt("del %d %d %d %d",open,nv,a,b)); plc_free(K); plc_free(L); } mc_trace(); });
}
