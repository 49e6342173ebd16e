// C05: measurements of curves against their definitions, on every small lattice curve.
#include "curve.hpp"
static bool close_(double a,double b,double s=1){ return std::fabs(a-b)<=1e-9*(s+std::fabs(b)); }
static double ang(const V3&a,const V3&b){ double c=vnorm(vcross(a,b)),d=vdot(a,b); return (c==0&&d==0)?0:std::atan2(c,d); }
static V3 at(const Comp&k,int i){ int n=k.v.size(); return k.v[((i%n)+n)%n]; }
static void measure(const Curve&C0,double scale,bool heavy){
  Curve C=C0; for(auto&k:C){ for(auto&v:k.v) v=vscale(scale,v); if(k.v.size()<3) k.open=true; }
  plCurve*L=to_plc(C); C=from_plc(L); mc_state(curve_str(C)); mc_note("%s",curve_str(C).c_str()); double u=scale; int nc=C.size();
  // counts and numbering
  int E=0,V=0; std::vector<int> ce(nc,-7); for(auto&k:C){ V+=k.v.size(); E+=k.open?k.v.size()-1:k.v.size(); } MC_CHECK(plc_num_edges(L)==E&&plc_edges(L,ce.data())==E&&plc_edges(L,NULL)==E,"the curve has %d edges, not %d",E,plc_num_edges(L)); MC_CHECK(plc_num_verts(L)==V,"the curve has %d vertices, not %d",V,plc_num_verts(L)); for(int c=0;c<nc;c++) MC_CHECK(ce[c]==(int)C[c].v.size()-(C[c].open?1:0),"component %d edge count %d",c,ce[c]);
  { int w=0; for(int c=0;c<nc;c++){ int n=C[c].v.size(); for(int v=-2*n-1;v<=3*n;v++){ int x=C[c].open?std::min(std::max(v,0),n-1):((v%n)+n)%n; int got=plc_vertex_num(L,c,v); MC_CHECK(got==w+x,"plc_vertex_num(%d,%d) is %d instead of %d",c,v,got,w+x); } for(int v=0;v<n;v++) MC_CHECK(plc_cp_num(L,w+v)==c&&plc_vt_num(L,w+v)==v,"vertex number %d is (%d,%d) instead of (%d,%d)",w+v,plc_cp_num(L,w+v),plc_vt_num(L,w+v),c,v); w+=n; } } mc_trans(4); mc_eval();
  // lengths
  double tot=0,lo=1e300,hi=0,m2=0,pos=0; std::vector<double> cl(nc,-1); std::vector<std::vector<double>> el(nc); for(int c=0;c<nc;c++){ auto&k=C[c]; int n=k.v.size(),e=k.open?n-1:n; double s=0; for(int i=0;i<e;i++){ double d=vdist(k.v[i],at(k,i+1)); el[c].push_back(d); s+=d; lo=std::min(lo,d); hi=std::max(hi,d); m2+=d*d; } double got=-1; for(int v=0;v<n;v++){ got=plc_s(L,c,v); double w=pos; for(int i=0;i<v;i++) w+=el[c][i]; MC_CHECK(close_(got,w,u),"plc_s(%d,%d) is %.12g instead of %.12g",c,v,got,w); } pos+=s; tot+=s;
    for(int a=0;a<n;a++) for(int b=0;b<n;b++){ double f=0; for(int i=std::min(a,b);i<std::max(a,b);i++) f+=el[c][i]; double w=k.open?f:std::min(f,s-f); double g=plc_subarc_length(L,c,a,b); MC_CHECK(close_(g,w,u),"plc_subarc_length(%d,%d,%d) is %.12g instead of %.12g",c,a,b,g,w); } }
  double g=plc_arclength(L,cl.data()); MC_CHECK(close_(g,tot,u)&&close_(plc_arclength(L,NULL),tot,u),"plc_arclength is %.12g instead of %.12g",g,tot); for(int c=0;c<nc;c++){ double s=0; for(double d:el[c]) s+=d; MC_CHECK(close_(cl[c],s,u),"plc_arclength of component %d is %.12g instead of %.12g",c,cl[c],s); } mc_trans(3);
  if(E>0){ double a=-1,b=-1,m=-1,q=-1; plc_edgelength_stats(L,&a,&b,&m,&q); MC_CHECK(close_(a,hi,u)&&close_(b,lo,u)&&close_(m,tot/E,u)&&close_(q,m2/E,u*u),"edge length statistics are %.12g %.12g %.12g %.12g instead of %.12g %.12g %.12g %.12g",a,b,m,q,hi,lo,tot/E,m2/E); plc_edgelength_stats(L,NULL,NULL,NULL,NULL); mc_trans(); }
  // curvature and torsion
  double tk=0; std::vector<double> ck(nc,-1),wk(nc,0),ct(nc,-1),wt(nc,0); for(int c=0;c<nc;c++){ auto&k=C[c]; int n=k.v.size(); for(int v=-3*n-1;v<=3*n+1;v++){ bool in=k.open?(v>0&&v<n-1):true; double w=0; bool wok=true; if(in){ V3 l=vadd(at(k,v),at(k,v-1),-1),r=vadd(at(k,v+1),at(k,v),-1); wok=vnorm(l)>0&&vnorm(r)>0; w=wok?ang(l,r):0; } if(v>=0&&v<n) wk[c]+=w; bool ok=!wok; double got=plc_turning_angle(L,c,v,&ok); MC_CHECK(ok==wok&&close_(got,w),"plc_turning_angle(%d,%d) is %.12g (%s) instead of %.12g",c,v,got,ok?"ok":"not ok",w); }
    for(int v=0;v<n;v++){ V3 l=vadd(at(k,v),at(k,v-1),-1),r=vadd(at(k,v+1),at(k,v),-1); bool end=k.open&&(v==0||v==n-1); if(n==1) continue; double a=vnorm(l),b=vnorm(r); if(!end&&(a==0||b==0||(vnorm(vcross(l,r))<1e-9*a*b&&vdot(l,r)<0))) continue; double w=end?0:2*std::tan(ang(l,r)/2)/std::min(a,b); double got=plc_MR_curvature(L,c,v); MC_CHECK(close_(got,w,1/u),"plc_MR_curvature(%d,%d) is %.12g instead of %.12g",c,v,got,w); }
    int ne=k.open?n-3:n; for(int i=0;i<ne;i++){ V3 e0=vadd(at(k,i+1),at(k,i),-1),e1=vadd(at(k,i+2),at(k,i+1),-1),e2=vadd(at(k,i+3),at(k,i+2),-1); wt[c]+=ang(vcross(e0,e1),vcross(e1,e2)); } tk+=wk[c]; 
    for(int v=0;v<n&&n>1;v++){ V3 w=k.open&&v==0?vadd(k.v[1],k.v[0],-1):k.open&&v==n-1?vadd(k.v[n-1],k.v[n-2],-1):vadd(at(k,v+1),at(k,v-1),-1); bool ok=false; plc_vector t=plc_mean_tangent(L,c,v,&ok); if(vnorm(w)==0){ MC_CHECK(!ok,"plc_mean_tangent found a tangent where there is none"); } else { MC_CHECK(ok&&near3(vv(t),vscale(1/vnorm(w),w),1e-9),"plc_mean_tangent(%d,%d) is %s",c,v,vstr(vv(t)).c_str()); } } mc_trans(3*n); }
  g=plc_totalcurvature(L,ck.data()); MC_CHECK(close_(g,tk)&&close_(plc_totalcurvature(L,NULL),tk),"plc_totalcurvature is %.12g instead of %.12g",g,tk); double tt=0; for(double x:wt) tt+=x; g=plc_totaltorsion(L,ct.data()); MC_CHECK(close_(g,tt)&&close_(plc_totaltorsion(L,NULL),tt),"plc_totaltorsion is %.12g instead of %.12g",g,tt); for(int c=0;c<nc;c++) MC_CHECK(close_(ck[c],wk[c])&&close_(ct[c],wt[c]),"component %d has curvature %.12g, torsion %.12g instead of %.12g, %.12g",c,ck[c],ct[c],wk[c],wt[c]); mc_trans(4);
  // point set measurements
  std::vector<V3> P; for(auto&k:C) for(auto&v:k.v) P.push_back(v); double dia=0,msd=0; V3 com{{0,0,0}}; for(auto&p:P){ com=vadd(com,p,1.0/P.size()); for(auto&q:P){ dia=std::max(dia,vdist(p,q)); msd+=vdist(p,q)*vdist(p,q); } } msd/=P.size()*P.size();
  g=plc_pointset_diameter(L); MC_CHECK(close_(g,dia,u),"plc_pointset_diameter is %.12g instead of %.12g",g,dia); MC_CHECK(near3(vv(plc_center_of_mass(L)),com,1e-9*u),"plc_center_of_mass is %s instead of %s",vstr(vv(plc_center_of_mass(L))).c_str(),vstr(com).c_str()); g=plc_gyradius(L); MC_CHECK(close_(g,msd/2,u*u),"plc_gyradius is %.12g, half the mean squared distance is %.12g",g,msd/2); mc_trans(3);
  for(int c=0;c<nc;c++){ auto&k=C[c]; int n=k.v.size(); std::vector<int> sk; for(int s=n-1;s>=0;s--) sk.push_back(s); if(n>1) sk.push_back(1); double*m=plc_mean_squared_chordlengths(L,c,sk.data(),sk.size()); for(size_t i=0;i<sk.size();i++){ double w=0; int cnt=0; for(int a=0;a<n;a++){ if(k.open&&a+sk[i]>=n) continue; double d=vdist(k.v[a],at(k,a+sk[i])); w+=d*d; cnt++; } w/=cnt; MC_CHECK(close_(m[i],w,u*u),"mean squared chord length at skip %d of component %d is %.12g instead of %.12g",sk[i],c,m[i],w); } free(m); mc_trans(); }
  if(heavy){ auto&k=C[0]; int n=k.v.size(); std::vector<double> w; auto nor=[&](int a,int b,int c){ return vcross(vadd(k.v[b],k.v[a],-1),vadd(k.v[c],k.v[a],-1)); }; auto dih=[&](V3 a,V3 b){ return vnorm(a)<1e-14*u*u||vnorm(b)<1e-14*u*u?-1:ang(a,b); }; for(int a=0;a<n;a++) for(int b=a+1;b<n;b++) for(int c=b+1;c<n;c++) for(int d=c+1;d<n;d++){ w.push_back(dih(nor(a,b,d),nor(b,c,d))); w.push_back(dih(nor(a,b,c),nor(c,d,a))); }
    for(unsigned cap=0;cap<=w.size()+3;cap++){ unsigned nd=cap; float*f=plc_dihedral_angles(L,&nd); mc_trans(); unsigned want=cap==0?w.size():std::min<size_t>(cap,w.size()); MC_CHECK(f,"plc_dihedral_angles returned nothing"); MC_CHECK(nd==want,"plc_dihedral_angles with cap %u gave %u angles instead of %u",cap,nd,want); for(unsigned i=0;i<nd;i++) MC_CHECK(std::fabs(f[i]-w[i])<1e-5,"dihedral angle %u of %u is %g instead of %g",i,nd,f[i],w[i]); free(f); } }
  CHECK_CURVE(L,C,"measuring changed the curve"); mc_outcome(mc_fmt("%d components%s, curvature %.2f",nc,C[0].open?", open":"",std::floor(tk))); plc_free(L); mc_trace(); }
void mc_main(){ bool T=mc_thorough;
  std::vector<V3> P; for(int x=0;x<3;x++) for(int y=0;y<2;y++) for(int z=0;z<2;z++) P.push_back(V3{{(double)x,1.5*y,z-0.25*x}}); int M=P.size(); std::vector<V3> S={P[0],P[1],P[6],P[11],P[3]}; int m=S.size();
  auto all=[&](const std::vector<V3>&Q,int n,std::function<void(const std::vector<V3>&)> cb){ std::vector<int> d(n,0); for(;;){ std::vector<V3> v; for(int x:d) v.push_back(Q[x]); cb(v); int i=0; while(i<n&&++d[i]==(int)Q.size()) d[i++]=0; if(i==n) break; } };
  for(int n=1;n<=4;n++) for(int a=0;a<M;a++) mc_case(mc_fmt("one component of %d vertices, first vertex %d",n,a),[&]{ auto one=[&](const std::vector<V3>&r){ for(int open=n<3;open<2;open++){ Curve C(1); C[0].open=open; C[0].v={P[a]}; for(auto&p:r) C[0].v.push_back(p); C[0].cst.resize(n); measure(C,1,n==4&&open); if(n==3){ measure(C,1e-3,false); measure(C,1e4,false); } } }; if(n==1) one({}); else all(P,n-1,one); });
  for(int n=5;n<=(mc_deep?8:T?7:6);n++) for(int a=0;a<m;a++) mc_case(mc_fmt("one component of %d vertices from 5 points, first vertex %d",n,a),[&]{ long z=0; all(S,n-1,[&](const std::vector<V3>&r){ for(int open=0;open<2;open++){ Curve C(1); C[0].open=open; C[0].v={S[a]}; for(auto&p:r) C[0].v.push_back(p); C[0].cst.resize(n); measure(C,1,z++%29==0); } }); });
  if(T) for(int a=0;a<M;a++) mc_case(mc_fmt("one component of 5 vertices, first vertex %d",a),[&]{ all(P,4,[&](const std::vector<V3>&r){ Curve C(1); C[0].v={P[a]}; for(auto&p:r) C[0].v.push_back(p); C[0].cst.resize(5); measure(C,1,false); C[0].open=true; measure(C,1,false); }); });
  // several components of every open/closed mixture
  for(int n1=1;n1<=3;n1++) for(int n2=1;n2<=3;n2++) for(int o=0;o<4;o++) mc_case(mc_fmt("components of %d and %d vertices, kind %d",n1,n2,o),[&]{ std::vector<V3> Q={S[0],S[1],S[2],S[4]}; if(n1+n2>5&&!T) Q.pop_back(); if((n1<3&&!(o&1))||(n2<3&&!(o&2))) return; all(Q,n1+n2,[&](const std::vector<V3>&v){ Curve C(2); C[0].open=o&1; C[1].open=o&2; for(int i=0;i<n1+n2;i++) C[i>=n1].v.push_back(i>=n1?vadd(v[i],V3{{0.5,0.25,2}}):v[i]); for(auto&k:C) k.cst.resize(k.v.size()); measure(C,1,false); }); });
  // long components and many of them
  for(int n:{9,14,21,34,65,130}) for(int open=0;open<2;open++) for(int w=1;w<=4;w++) mc_case(mc_fmt("one component of %d vertices, %s, winding %d",n,open?"open":"closed",w),[&]{ Curve C(1); C[0].open=open; for(int i=0;i<n;i++){ double t=2*M_PI*w*i/n; C[0].v.push_back(V3{{cos(t)*(2+cos(3*t/w)),sin(t)*(2+0.5*sin(2*t)),sin(5*t/w)+0.01*i}}); } C[0].cst.resize(n); measure(C,1,n<=14&&open&&w==1); measure(C,0.01,false); });
  for(int nc:{4,7,12,25,40}) for(int o=0;o<5;o++) mc_case(mc_fmt("%d components, kind %d",nc,o),[&]{ Curve C(nc); for(int c=0;c<nc;c++){ int n=o==0?3:o==1?1+c%4:o==2?5:o==3?(c==nc-1?30:3):(c==0?30:2+c%3); C[c].open=n<3||(o>0&&(c*c+o)%3==0); for(int i=0;i<n;i++) C[c].v.push_back(vadd(P[(i*5+c*c)%M],V3{{0.25*c,0.125*i,(double)(c%5)}})); C[c].cst.resize(n); } measure(C,1,false); measure(C,100,false); });
  for(int o=0;o<8;o++) mc_case(mc_fmt("three components, kind %d",o),[&]{ std::vector<V3> Q={S[0],S[2],S[4]}; for(int n1=1+2*!(o&1);n1<4;n1++) for(int n2=1+2*!(o&2);n2<4;n2++) for(int n3=1+2*!(o&4);n3<4;n3++){ int nn[3]={n1,n2,n3}; Curve C(3); int q=0; for(int c=0;c<3;c++){ C[c].open=o>>c&1; for(int i=0;i<nn[c];i++) C[c].v.push_back(vadd(P[(q++*5+c)%M],V3{{0,0,(double)c}})); C[c].cst.resize(nn[c]); } measure(C,1,false); measure(C,0.01,false); } });
}
