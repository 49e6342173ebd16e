// C10: spline interpolation and resampling against an independently solved clamped cubic spline.
#include "curve.hpp"
struct Sp{ std::vector<double> s; std::vector<V3> y,m; }; // knots, values, slopes
// slopes of the C2 cubic interpolant with given end slopes (dense elimination on the slopes)
static Sp solve(const std::vector<V3>&pts,const V3&d0,const V3&d1){ Sp r; r.y=pts; int n=pts.size(); r.s.push_back(0); for(int i=1;i<n;i++) r.s.push_back(r.s[i-1]+vdist(pts[i],pts[i-1])); std::vector<std::vector<double>> A(n,std::vector<double>(n,0)); std::vector<V3> b(n); A[0][0]=1; b[0]=d0; A[n-1][n-1]=1; b[n-1]=d1; for(int i=1;i<n-1;i++){ double h0=r.s[i]-r.s[i-1],h1=r.s[i+1]-r.s[i]; A[i][i-1]=1/h0; A[i][i]=2/h0+2/h1; A[i][i+1]=1/h1; b[i]=vadd(vscale(3/(h0*h0),vadd(pts[i],pts[i-1],-1)),vadd(pts[i+1],pts[i],-1),3/(h1*h1)); }
  for(int c=0;c<n;c++){ int p=c; for(int i=c;i<n;i++) if(std::fabs(A[i][c])>std::fabs(A[p][c])) p=i; std::swap(A[p],A[c]); std::swap(b[p],b[c]); for(int i=0;i<n;i++) if(i!=c&&A[i][c]){ double f=A[i][c]/A[c][c]; for(int k=c;k<n;k++) A[i][k]-=f*A[c][k]; b[i]=vadd(b[i],b[c],-f); } } for(int i=0;i<n;i++) r.m.push_back(vscale(1/A[i][i],b[i])); return r; }
static int seg(const Sp&p,double s){ int k=0; while(k+2<(int)p.s.size()&&p.s[k+1]<=s) k++; return k; }
static V3 val(const Sp&p,double s){ int k=seg(p,s); double h=p.s[k+1]-p.s[k],t=(s-p.s[k])/h; double a=(1+2*t)*(1-t)*(1-t),b=t*(1-t)*(1-t)*h,c=t*t*(3-2*t),d=t*t*(t-1)*h; return vadd(vadd(vscale(a,p.y[k]),p.m[k],b),vadd(vscale(c,p.y[k+1]),p.m[k+1],d)); }
static V3 der(const Sp&p,double s){ int k=seg(p,s); double h=p.s[k+1]-p.s[k],t=(s-p.s[k])/h; double a=(6*t*t-6*t)/h,b=3*t*t-4*t+1,d=3*t*t-2*t; return vadd(vadd(vscale(a,p.y[k]),p.m[k],b),vadd(vscale(-a,p.y[k+1]),p.m[k+1],d)); }
static V3 unit(const V3&v){ return vscale(1/vnorm(v),v); }
// false: the curve has no spline (a repeated vertex or an undefined end tangent)
static bool model(const Comp&k,Sp&p){ int n=k.v.size(); if(n<2) return false; std::vector<V3> pts=k.v; if(!k.open) pts.push_back(k.v[0]); for(size_t i=1;i<pts.size();i++) if(vdist(pts[i],pts[i-1])<1e-6) return false; V3 a,b; if(k.open){ a=vadd(k.v[1],k.v[0],-1); b=vadd(k.v[n-1],k.v[n-2],-1); } else { a=b=vadd(k.v[1],k.v[n-1],-1); } if(vnorm(a)<1e-6||vnorm(b)<1e-6) return false; p=solve(pts,unit(a),unit(b)); return true; }
static C4 col(const Comp&k,const Sp&p,double s){ int i=seg(p,s); double t=(s-p.s[i])/(p.s[i+1]-p.s[i]); int n=k.v.size(); int j=(i+1)%n; C4 r; for(int q=0;q<4;q++) r[q]=(1-t)*k.c[i][q]+t*k.c[j][q]; return r; }
static std::string same_cst(const Cst&a,const Cst&b){ return a.kind==b.kind&&a.a==b.a&&a.b==b.b?"":"x"; }
// the constraints after resampling: well formed, nothing invented, end and whole-component constraints kept, each run near where it was
static void cst_check(const Comp&o,const Sp&p,const Comp&r,const char*what){ int n=o.v.size(),m=r.v.size(); double L=p.s.back(); struct Run{ int a,b; Cst c; }; std::vector<Run> runs; for(int i=0;i<n;){ if(!o.cst[i].kind){ i++; continue; } int j=i+1; if(o.cst[i].kind!=1) while(j<n&&o.cst[j]==o.cst[i]) j++; runs.push_back({i,j,o.cst[i]}); i=j; }
  double step=o.open?(m>1?L/(m-1):L):L/m; auto spos=[&](int i){ return i*step; }; auto kpos=[&](int i){ return i<(int)p.s.size()?p.s[i]:L; };
  for(int i=0;i<m;i++) if(r.cst[i].kind){ bool ok=false; for(auto&q:runs) if(q.c==r.cst[i]){ double lo=kpos(q.a)-step*1.001,hi=kpos(q.b)+step*1.001; if(spos(i)>=lo-1e-9&&spos(i)<=hi+1e-9) ok=true; } MC_CHECK(ok,"%s: vertex %d of %d carries a constraint that no nearby original vertex had",what,i,m); }
  if(runs.size()==1){ auto&q=runs[0]; int cnt=0; for(int i=0;i<m;i++) cnt+=r.cst[i].kind!=0; MC_CHECK(cnt>=1,"%s: the constraint was lost",what); if(q.b-q.a==1) MC_CHECK(cnt==1,"%s: a constraint on one vertex applies to %d after resampling",what,cnt); if(q.b-q.a==n&&n>1) MC_CHECK(cnt==m,"%s: a constraint on the whole component applies to %d of %d vertices",what,cnt,m); }
  if(runs.size()&&runs[0].a==0&&runs[0].b==1&&(m>1||runs.size()==1)) MC_CHECK(r.cst[0]==runs[0].c,"%s: the constraint of the first vertex was lost",what); if(o.open&&m>2*(int)runs.size()&&runs.size()&&runs.back().b==n&&runs.back().a==n-1) MC_CHECK(r.cst[m-1]==runs.back().c,"%s: the constraint of the last vertex was lost",what);
  if(m>=4*n){ bool regular=true; for(int i=0;i+1<(int)p.s.size();i++) regular&=p.s[i+1]-p.s[i]>2.2*step; if(regular) for(auto&q:runs){ int cnt=0; for(int i=0;i<m;i++) cnt+=r.cst[i]==q.c; MC_CHECK(cnt>0,"%s: a constraint was lost in refining",what); } } }
static void run(const Curve&C,const std::vector<int>&targets,bool csts,int samples){ std::vector<Sp> P(C.size()); for(size_t c=0;c<C.size();c++) if(!model(C[c],P[c])){ mc_outcome("no spline"); return; } std::string ctx=curve_str(C); mc_note("%s",ctx.substr(0,3500).c_str()); mc_state(ctx); plCurve*L=to_plc(C); bool ok=true; plc_spline*S=plc_convert_to_spline(L,&ok); mc_trans(); mc_eval(); MC_CHECK(S&&ok,"plc_convert_to_spline failed"); CHECK_CURVE(L,C,"curve after plc_convert_to_spline"); MC_CHECK(S->nc==(int)C.size(),"component count");
  for(size_t c=0;c<C.size();c++){ const Sp&p=P[c]; double len=p.s.back(); double sc=1; for(auto&m:p.m) sc=std::max(sc,vnorm(m)); for(auto&m:p.y) sc=std::max(sc,vnorm(m)); double tol=1e-8*sc; MC_CHECK(S->cp[c].ns==(int)C[c].v.size()&&S->cp[c].open==C[c].open,"spline structure");
    std::vector<double> q; for(size_t i=0;i+1<p.s.size();i++){ double h=p.s[i+1]-p.s[i]; q.push_back(p.s[i]); for(int j=1;j<samples;j++) q.push_back(p.s[i]+h*j/samples); q.push_back(p.s[i]+h*1e-7); q.push_back(p.s[i+1]-h*1e-7); } if(C[c].open){ q.push_back(len); } 
    for(double s:q){ V3 v=vv(plc_sample_spline(S,c,s)),w=val(p,s); mc_trans(2); MC_CHECK(near3(v,w,tol),"component %zu at s=%.12g of %.12g: %s instead of %s",c,s,len,vstr(v).c_str(),vstr(w).c_str()); V3 d=vv(plc_spline_tangent(S,c,s)),e=der(p,s); MC_CHECK(near3(d,e,tol*100),"tangent of component %zu at s=%.12g of %.12g: %s instead of %s",c,s,len,vstr(d).c_str(),vstr(e).c_str()); }
    if(C[c].open) for(double o:{-0.5*len,-1e-9*len}) for(int e=0;e<2;e++){ double s=e?len-o:o; V3 v=vv(plc_sample_spline(S,c,s)),d=vv(plc_spline_tangent(S,c,s)); mc_trans(2); double q=e?len:0; MC_CHECK(near3(v,val(p,q),tol)&&near3(d,der(p,q),tol*100),"open component %zu at s=%.12g outside [0,%.12g]: %s instead of the end %s",c,s,len,vstr(v).c_str(),vstr(val(p,q)).c_str()); }
    if(!C[c].open) for(double s:{0.3*len,0.77*len}) for(int k=-4;k<=4;k++){ V3 v=vv(plc_sample_spline(S,c,s+k*len)),d=vv(plc_spline_tangent(S,c,s+k*len)); mc_trans(2); MC_CHECK(near3(v,val(p,s),tol*10)&&near3(d,der(p,s),tol*1000),"closed component %zu at s=%.12g%+d periods: %s instead of %s",c,s,k,vstr(v).c_str(),vstr(val(p,s)).c_str()); } }
  for(int t:targets){ std::vector<int> nv; Curve E; for(size_t c=0;c<C.size();c++){ int m=std::max(1,t+(int)c*(t%2?1:2)); if(!C[c].open) m=std::max(3,m); nv.push_back(m); } plCurve*R=plc_convert_from_spline(S,nv.data()); mc_trans(); mc_eval(); std::string b=curve_bad(R); MC_CHECK(b.empty(),"resampling to %d vertices: %s",t,b.c_str()); MC_CHECK(R->nc==(int)C.size(),"components"); Curve A=from_plc(R); for(size_t c=0;c<C.size();c++){ const Sp&p=P[c]; double sc=1; for(auto&m:p.m) sc=std::max(sc,vnorm(m)); int m=nv[c]; double len=p.s.back(); MC_CHECK(A[c].open==(C[c].open||m<3)&&(int)A[c].v.size()==m,"resampled component %zu has %zu vertices",c,A[c].v.size()); size_t wc=C[c].c.size()<=1?C[c].c.size():(size_t)m; MC_CHECK(A[c].c.size()==wc,"resampled component %zu has %zu colors instead of %zu",c,A[c].c.size(),wc); for(int i=0;i<m;i++){ double s=C[c].open?(m>1?len*i/(m-1):0):len*i/m; V3 w=val(p,s); MC_CHECK(near3(A[c].v[i],w,1e-8*sc*(1+len)),"vertex %d of %d of component %zu is %s instead of %s",i,m,c,vstr(A[c].v[i]).c_str(),vstr(w).c_str()); if(wc>1){ C4 k=col(C[c],p,s); for(int q=0;q<4;q++) MC_CHECK(std::fabs(k[q]-A[c].c[i][q])<1e-8,"color %d channel %d of component %zu is %.12g instead of %.12g",i,q,c,A[c].c[i][q],k[q]); } } if(wc==1) MC_CHECK(A[c].c[0]==C[c].c[0],"the color of component %zu changed",c); if(csts) cst_check(C[c],p,A[c],mc_fmt("component %zu resampled to %d",c,m).c_str()); } plc_free(R); mc_outcome(mc_fmt("resampled %s",C[0].open?"open":"closed")); }
  plc_spline_free(S); plc_free(L); mc_trace(); }
void mc_main(){ bool T=mc_thorough; std::vector<V3> Q; for(int x=0;x<2;x++) for(int y=0;y<2;y++) for(int z=0;z<2;z++) Q.push_back(V3{{(double)x,1.5*y,z-0.25*x}}); std::vector<V3> S5={Q[0],Q[1],Q[6],Q[7],Q[3]};
  auto all=[&](const std::vector<V3>&B,int n,std::function<void(const std::vector<V3>&)> cb){ std::vector<int> d(n,0); for(;;){ std::vector<V3> v; for(int x:d) v.push_back(B[x]); cb(v); int i=0; while(i<n&&++d[i]==(int)B.size()) d[i++]=0; if(i==n) break; } };
  std::vector<int> tg={1,2,3,4,5,7,10}; std::vector<int> few={4,9};
  for(int n=2;n<=4;n++) for(int a=0;a<8;a++) mc_case(mc_fmt("one component of %d vertices, first vertex %d",n,a),[&]{ all(Q,n-1,[&](const std::vector<V3>&r){ for(int open=n<3;open<2;open++) for(int cc:{0,1,n}){ if(cc&&n==4&&!T&&r[0][0]>0) continue; Curve C(1); C[0].open=open; C[0].v={Q[a]}; for(auto&p:r) C[0].v.push_back(p); C[0].cst.resize(n); for(int i=0;i<cc;i++) C[0].c.push_back(C4{{0.1*i,0.9-0.2*i,0.3*(i%2),1-0.05*i}}); run(C,tg,false,4); } }); mc_sample(mc_fmt("components of %d vertices",n)); });
  for(int n=5;n<=(T?7:6);n++) for(int a=0;a<5;a++) mc_case(mc_fmt("one component of %d vertices from 5 points, first vertex %d",n,a),[&]{ all(S5,n-1,[&](const std::vector<V3>&r){ for(int open=0;open<2;open++){ Curve C(1); C[0].open=open; C[0].v={S5[a]}; for(auto&p:r) C[0].v.push_back(p); C[0].cst.resize(n); run(C,few,false,3); } }); });
  // sizes at which the arithmetic of the sample positions rounds up or down
  for(int open=0;open<2;open++) mc_case(mc_fmt("every refinement up to 400 vertices, %s",open?"open":"closed"),[&]{ for(int k=0;k<12;k++){ Comp c; c.open=open; int n=3+k%4; for(int i=0;i<n;i++) c.v.push_back(V3{{cos(1.0*i+0.1*k)*(1+0.3*k),sin(2.0*i+k)*1.1,0.1*i*k+0.3*(i%2)}}); c.cst.resize(n); Curve C{c}; std::vector<int> t; for(int i=1;i<=(T?1200:400);i++) t.push_back(i); run(C,t,false,7); } });
  // long components and other scales
  for(int open=0;open<2;open++) for(double f:{1e-3,1.0,1e4}) mc_case(mc_fmt("long components at scale %g, %s",f,open?"open":"closed"),[&]{ for(int n:T?std::vector<int>{17,33,45,64,100,129,200,257}:std::vector<int>{17,33,64,129}) for(int k=0;k<4;k++){ Comp c; c.open=open; for(int i=0;i<n;i++){ double t=2*M_PI*i/n; c.v.push_back(vscale(f,V3{{cos(t)*(3+0.3*sin(7*t))+0.05*(i*k%3),sin(t)*3+0.02*(i%(k+2)),0.4*cos((k+2)*t)}})); c.c.push_back(C4{{(i%5)*0.2,(i%3)*0.3,0.5,1-0.001*i}}); } c.cst.resize(n); Cst K; K.kind=2; K.a=V3{{1,0,1}}; K.b=V3{{0,1,0.5}}; for(int i=n/3;i<n/3+k;i++) c.cst[i]=K; K.kind=1; for(int i=n-k;i<n;i++){ K.a=V3{{(double)i,0,0}}; K.b=V3{{0,0,0}}; c.cst[i]=K; } Curve C{c}; run(C,{3,n/2,n-1,n,n+1,3*n+1},true,3); mc_outcome(mc_fmt("long component, %s",open?"open":"closed")); } });
  // constraints: every assignment on 2..5 vertices
  for(int n=2;n<=(T?6:5);n++) for(int open=n<3;open<2;open++) for(int shape=0;shape<3;shape++) mc_case(mc_fmt("every constraint assignment on %d vertices, %s, spacing %d",n,open?"open":"closed",shape),[&]{ Cst K[5]; K[1].kind=1; K[1].a=V3{{1,2,3}}; K[2].kind=2; K[2].a=V3{{1,0,1}}; K[2].b=V3{{0,1,0.5}}; K[3].kind=3; K[3].a=V3{{0,1,2}}; K[3].b=V3{{0.75,0,0}}; K[4].kind=3; K[4].a=V3{{1,0,0}}; K[4].b=V3{{-2,0,0}}; long tot=1; for(int i=0;i<n;i++) tot*=5; for(long h=0;h<tot;h++){ Comp c; c.open=open; long r=h; double x=0; for(int i=0;i<n;i++,r/=5){ double w=shape==0?1:shape==1?(i%2?0.2:3):(i==n-1?0.05:1+0.5*i); x+=w; c.v.push_back(V3{{x,0.4*(i%2)*w,0.1*i*i}}); c.cst.push_back(K[r%5]); if(K[r%5].kind==1) c.cst.back().a=V3{{(double)i,2,3}}; } Curve C{c}; run(C,{1,2,3,4,5,6,8,13,40},true,2); } });
  // many components
  for(int nc:{6,13,24,41}) for(int k=0;k<3;k++) mc_case(mc_fmt("%d components, kind %d",nc,k),[&]{ Curve C(nc); for(int c=0;c<nc;c++){ int n=3+(c*c+k)%4; C[c].open=(c+k)%3==0; for(int i=0;i<n;i++) C[c].v.push_back(vadd(Q[(i*3+c+i*k)%8],V3{{0.1*i,0,(double)c+0.2*i}})); int m=(k+c)%3==0?0:(k+c)%3==1?1:n; for(int i=0;i<m;i++) C[c].c.push_back(C4{{0.1*i,0.2*c,0.3,1}}); C[c].cst.resize(n); Cst f; f.kind=3; f.a=V3{{1,(double)c,0}}; f.b=V3{{0.5,0,0}}; if(k) C[c].cst[n-1]=f; } run(C,{2,5,9},true,3); });
  // several components
  for(int o=0;o<8;o++) mc_case(mc_fmt("three components, kinds %d",o),[&]{ for(int n1=2+!(o&1);n1<5;n1++) for(int n2=2+!(o&2);n2<5;n2++) for(int n3=2+!(o&4);n3<5;n3++) for(int cc=0;cc<3;cc++) for(int k=0;k<4;k++){ int nn[3]={n1,n2,n3}; Curve C(3); int q=0; for(int c=0;c<3;c++){ C[c].open=o>>c&1; for(int i=0;i<nn[c];i++) C[c].v.push_back(vadd(Q[(q++*3+c+i*k)%8],V3{{0.1*i,0,(double)c+0.2*i}})); int m=(cc+c)%3==0?0:(cc+c)%3==1?1:nn[c]; for(int i=0;i<m;i++) C[c].c.push_back(C4{{0.1*i,0.2*c,0.3,1}}); C[c].cst.resize(nn[c]); Cst f; f.kind=3; f.a=V3{{1,(double)c,0}}; f.b=V3{{0.5,0,0}}; if(k) for(int i=k-1;i<nn[c];i++) C[c].cst[i]=f; } run(C,{1,2,3,6,9,17},true,3); } });
}
