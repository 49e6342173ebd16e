// C02: VECT files written and read back.
#include "curve.hpp"
static std::string write_str(plCurve*L){ char*b=NULL; size_t n=0; FILE*f=open_memstream(&b,&n); plc_write(f,L); fclose(f); std::string s(b,n); free(b); return s; }
static plCurve*read_str(const std::string&s,int&err,std::string&msg){ FILE*f=fmemopen((void*)(s.empty()?"":s.data()),std::max<size_t>(s.size(),1),"r"); if(s.empty()) fgetc(f); char es[256]="x"; err=-1; plCurve*L=plc_read(f,&err,es,sizeof es); es[255]=0; msg=es; fclose(f); return L; }
static double rel(double a,double b){ return std::fabs(a-b)-1.2e-15*std::fabs(b); }
static void same(const Curve&A,const Curve&B,const char*what){ // A read, B written: 16 significant digits
  auto n3=[&](const V3&a,const V3&b){ for(int i=0;i<3;i++) if(!(rel(a[i],b[i])<=0)) return false; return true; };
  MC_CHECK(A.size()==B.size(),"%s: %zu components instead of %zu",what,A.size(),B.size());
  for(size_t c=0;c<A.size();c++){ const Comp&a=A[c],&b=B[c]; MC_CHECK(a.open==b.open&&a.v.size()==b.v.size()&&a.c.size()==b.c.size(),"%s: component %zu is %s with %zu vertices and %zu colors, not %s with %zu and %zu",what,c,a.open?"open":"closed",a.v.size(),a.c.size(),b.open?"open":"closed",b.v.size(),b.c.size());
    for(size_t i=0;i<a.v.size();i++){ MC_CHECK(n3(a.v[i],b.v[i]),"%s: vertex %zu of component %zu is %s instead of %s",what,i,c,vstr(a.v[i]).c_str(),vstr(b.v[i]).c_str()); MC_CHECK(a.cst[i].kind==b.cst[i].kind,"%s: vertex %zu of component %zu has constraint kind %d instead of %d",what,i,c,a.cst[i].kind,b.cst[i].kind); if(a.cst[i].kind) MC_CHECK(n3(a.cst[i].a,b.cst[i].a)&&n3(a.cst[i].b,b.cst[i].b),"%s: constraint at vertex %zu of component %zu is %s %s instead of %s %s",what,i,c,vstr(a.cst[i].a).c_str(),vstr(a.cst[i].b).c_str(),vstr(b.cst[i].a).c_str(),vstr(b.cst[i].b).c_str()); }
    for(size_t i=0;i<a.c.size();i++) for(int j=0;j<4;j++) MC_CHECK(rel(a.c[i][j],b.c[i][j])<=0,"%s: color %zu of component %zu",what,i,c); } }
static void trip(const Curve&C){
  plCurve*L=to_plc(C); Curve B=from_plc(L); mc_state(curve_str(B)); std::string t=write_str(L); mc_trans(); CHECK_CURVE(L,B,"after plc_write");
  int e; std::string m; plCurve*R=read_str(t,e,m); mc_trans(); mc_eval(); MC_CHECK(R&&e==0,"plc_read refused what plc_write wrote (error %d, %s):\n%s",e,m.c_str(),t.substr(0,800).c_str()); std::string bad=curve_bad(R); MC_CHECK(bad.empty(),"plc_read: %s",bad.c_str()); same(from_plc(R),B,"round trip");
  std::string t2=write_str(R); mc_trans(); int e2; plCurve*R2=read_str(t2,e2,m); mc_trans(); MC_CHECK(R2&&e2==0,"second round trip failed"); std::string t3=write_str(R2); MC_CHECK(t2==t3,"the text is not stable under a round trip"); plc_free(R2);
  // comments and blank space wherever a newline is allowed
  for(int v=0;v<4;v++){ std::string u; for(char ch:t){ u+=ch; if(ch=='\n') u+=v==0?"\n  \n":v==1?"# a remark\n":v==2?"   ":"\t\n"; else if(ch==' '&&v==3) u+="  "; } int e3; plCurve*Q=read_str(u,e3,m); mc_trans(); MC_CHECK(Q&&e3==0,"with added %s plc_read failed (error %d, %s):\n%s",v==1?"comments":"space",e3,m.c_str(),u.substr(0,800).c_str()); bad=curve_bad(Q); MC_CHECK(bad.empty(),"plc_read: %s",bad.c_str()); same(from_plc(Q),B,v==1?"with added comments":"with added space"); plc_free(Q); }
  mc_outcome(mc_fmt("%zu components%s%s",C.size(),t.find("Constraint")!=std::string::npos?", constrained":"",B[0].c.empty()?"":", colored")); plc_free(R); plc_free(L); mc_trace(); }
static const double EXT[]={0,1,-1,0.1,-1.0/3,3.141592653589793,1e-300,-1.2345678901234567e-100,-9.8765432109876543e+300,1e16,123456789.12345678,-0.0,5e-324,1.5e308,2.2250738585072014e-308,-1e-5};
static V3 pt(int k){ return V3{{EXT[k%16],EXT[(k*5+3)%16],EXT[(k*7+k/16+6)%16]}}; }
static V3 nicep(int k){ return V3{{0.5*k+0.1,1.0/(k+3),-2.0*k}}; }
static void shapes(int nc,int maxnv,std::function<void(const Curve&)> cb){ std::vector<int> nv(nc,1),op(nc,0),cc(nc,0);
  std::function<void(int)> rec=[&](int i){ if(i==nc){ Curve C; int k=0; for(int c=0;c<nc;c++){ Comp m; m.open=op[c]; for(int j=0;j<nv[c];j++) m.v.push_back(pt(k++*3+c)); for(int j=0;j<cc[c];j++) m.c.push_back(C4{{EXT[(j+k)%6],0.25*j,1,1.0/(j+1)}}); C.push_back(m); } cb(C); return; }
    for(nv[i]=1;nv[i]<=maxnv;nv[i]++) for(op[i]=nv[i]<3;op[i]<2;op[i]++) for(cc[i]=0;cc[i]<=nv[i];cc[i]++) rec(i+1); }; rec(0); }
void mc_main(){ bool T=mc_thorough;
  for(int nc=1;nc<=3;nc++) shapes(nc,nc==1?6:nc==2?(T?5:4):(T?3:2)+1,[&](const Curve&C){ mc_case_lazy([&]{ return "shape "+curve_str(C,false); },[&]{ trip(C); }); });
  for(int n=1;n<=64;n++) mc_case(mc_fmt("extreme coordinates %d",n),[&]{ Curve C(1); C[0].open=n%2; for(int i=0;i<4;i++) C[0].v.push_back(pt(n*11+i*7)); trip(C); C[0].cst.resize(4); for(int i=0;i<4;i++){ Cst c; c.kind=1+(n+i)%3; c.a=pt(n+i*3); c.b=c.kind==2?pt(n*2+i):c.kind==3?V3{{EXT[(n+i)%16],0,0}}:V3{{0,0,0}}; C[0].cst[i]=c; } trip(C); mc_sample("extreme coordinates and constraint vectors: "+curve_str(C)); });
  // every assignment of constraints
  std::vector<Cst> al; { Cst c; c.kind=1; c.a=nicep(1); al.push_back(c); c.a=nicep(2); al.push_back(c); c.kind=2; c.a=nicep(3); c.b=nicep(4); al.push_back(c); c.b=nicep(5); al.push_back(c); c.kind=3; c.b=V3{{1.0/7,0,0}}; al.push_back(c); c.a=nicep(6); al.push_back(c); }
  std::vector<std::vector<int>> sh={{3},{4},{2,2},{1,3},{1,1,1}}; if(T){ sh.push_back({5}); sh.push_back({3,2}); }
  for(auto&s:sh){ int N=0; for(int n:s) N+=n; long tot=1; for(int i=0;i<N;i++) tot*=al.size()+1; for(long z=0;z<tot;z++) mc_case_lazy([&]{ return mc_fmt("constraints %ld on %zu components, %d vertices",z,s.size(),N); },[&]{ Curve C; long q=z; int k=0; for(size_t c=0;c<s.size();c++){ Comp m; m.open=s[c]<3||(z&1); for(int i=0;i<s[c];i++){ m.v.push_back(nicep(10+k++)); int d=q%(al.size()+1); q/=al.size()+1; m.cst.push_back(d?al[d-1]:Cst()); } if(c==0&&z%3==0) m.c.push_back(C4{{1,0.5,0.25,1}}); C.push_back(m); } trip(C); }); }
  // many constraints: the numbering passes 9, 19, 99
  for(int n:{8,9,10,11,18,19,20,21,39,60,99,100,101,130}) for(int kind=1;kind<=3;kind++) mc_case(mc_fmt("%d constraints of kind %d",n,kind),[&]{ Curve C(2); C[1].open=true; for(int i=0;i<n;i++){ C[0].v.push_back(nicep(i)); Cst c; c.kind=kind; c.a=nicep(i+1); c.b=kind==2?nicep(i):kind==3?V3{{0.125*i,0,0}}:V3{{0,0,0}}; C[0].cst.push_back(c); } for(int i=0;i<3;i++) C[1].v.push_back(nicep(i)); trip(C); });
  // long components and many of them, in every way of coloring
  for(int nc:{1,2,9,10,11,24,40,100}) for(int nv:{1,2,3,17,33,65,130}) if(nc*nv<=4000) for(int op=nv<3;op<3;op++) for(int cm=0;cm<5;cm++) mc_case(mc_fmt("%d components of %d vertices, %s, coloring %d",nc,nv,op==0?"closed":op==1?"open":"mixed",cm),[&]{ Curve C; for(int c=0;c<nc;c++){ Comp m; int n=nv+(c%3==2?1:0); m.open=n<3||(op==1||(op==2&&c%2)); int cc=cm==0?0:cm==1?1:cm==2?n:cm==3?(c==nc-1?n:0):(c%2?n/2:n); for(int j=0;j<n;j++) m.v.push_back(pt(c*5+j*3)); for(int j=0;j<cc;j++) m.c.push_back(C4{{1.0/(j+2),0.25*(j%4),1.0/(c+1),1.0/(j+1)}}); m.cst.resize(n); if(cm==1){ Cst q; q.kind=1+c%3; q.a=nicep(c+1); q.b=q.kind==2?nicep(c):q.kind==3?V3{{0.125*c,0,0}}:V3{{0,0,0}}; m.cst[n-1]=q; } C.push_back(m); } trip(C); });
}
