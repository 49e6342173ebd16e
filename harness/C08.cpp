// C08: nearest neighbor queries against the definition, on small buffers, on the sorted search used for large ones, and in query histories.
#include "curve.hpp"
typedef std::vector<plc_vector> Buf;
typedef struct plc_nearest_neighbor_pc_data NN;
typedef struct plc_nearest_vertex_pc_data NV;
static double sq(const plc_vector&a,const plc_vector&b){ double s=0; for(int i=0;i<3;i++) s+=(a.c[i]-b.c[i])*(a.c[i]-b.c[i]); return s; }
static double best(const plc_vector&q,const Buf&b){ double m=1e300; for(auto&v:b) m=std::min(m,sq(q,v)); return m; }
static std::vector<V3> grid(int lo,int hi,double step){ std::vector<V3> r; for(int x=lo;x<=hi;x++) for(int y=lo;y<=hi;y++) for(int z=lo;z<=hi;z++) r.push_back(V3{{x*step,y*step,z*step}}); return r; }
static std::string bstr(const Buf&b){ std::string s; for(size_t i=0;i<b.size()&&i<6;i++) s+=vstr(vv(b[i])); return s+mc_fmt(" (%zu points)",b.size()); }
// one query through an optional precomputation handle; want: the smallest squared distance
static void ask(const V3&q,Buf&b,NN**pc,double want,bool stale){ int err=0; plc_vector Q=pv(q); int i=plc_nearest_neighbor(Q,b.size(),b.data(),pc,&err); mc_trans(); mc_eval(); MC_CHECK(i>=0&&i<(int)b.size(),"index %d for %s in %s",i,vstr(q).c_str(),bstr(b).c_str()); MC_CHECK(std::fabs(sq(Q,b[i])-want)<=1e-12*(1+want),"nearest to %s in %s is point %d at distance %.15g, but one at distance %.15g exists",vstr(q).c_str(),bstr(b).c_str(),i,sqrt(sq(Q,b[i])),sqrt(want)); MC_CHECK((err==PLC_E_STALE_PCDATA)==stale&&(err==0||stale),"error number %d for %s data",err,stale?"stale":"good"); if(pc) MC_CHECK(*pc!=NULL,"no precomputed data returned"); }
static Buf clean(const Buf&b){ return b; }
static void untouched(const Buf&a,const Buf&b){ MC_CHECK(a.size()==b.size()&&memcmp(a.data(),b.data(),a.size()*sizeof a[0])==0,"the query changed the buffer"); }
// large buffers
static Buf big(int n,int shape){ Buf b; for(int i=0;i<n;i++){ double t=(double)i/n; V3 v; switch(shape){ case 0: v=V3{{cos(2*M_PI*t)*3,sin(2*M_PI*t)*3,0.5*sin(6*M_PI*t)}}; break; case 1: v=V3{{(double)(i%17),(double)(i/17%17),(double)(i/289)}}; break; case 2: v=V3{{0,0,(double)(n-i)}}; break; case 3: v=V3{{(double)(i%3),5.0,5.0}}; break; case 4: v=V3{{1,1,1}}; break; case 5: v=V3{{(double)((i*7919)%n),(double)((i*104729)%11),0}}; break; case 6: v=V3{{0,(double)(i%2?1:-1)*(i/2),0.25*(i%5)}}; break; default: v=V3{{(2+cos(14*M_PI*t))*cos(4*M_PI*t)*40,(2+cos(14*M_PI*t))*sin(4*M_PI*t)*40,sin(14*M_PI*t)*40}}; } b.push_back(pv(v)); } return b; }
void mc_main(){ bool T=mc_thorough;
  // every buffer of up to three (four) lattice points, every lattice query
  { auto G=grid(0,2,1); auto Q=grid(-1,5,0.5); std::vector<V3> Q2; for(auto&q:Q) if(T||((int)(2*(q[0]+q[1]+q[2])+30))%3==0) Q2.push_back(q);
    for(size_t a=0;a<G.size();a++) mc_case(mc_fmt("small buffers starting with %s",vstr(G[a]).c_str()),[&]{ auto run=[&](Buf b){ mc_state(bstr(b)); Buf o=clean(b); NN*pc=NULL; for(auto&q:Q2){ double w=best(pv(q),b); ask(q,b,NULL,w,false); ask(q,b,&pc,w,false); } mc_trace(); untouched(o,b); plc_nearest_neighbor_pc_data_free(&pc); MC_CHECK(pc==NULL,"freeing did not clear the pointer"); plc_nearest_neighbor_pc_data_free(&pc); };
      run({pv(G[a])}); for(size_t b=0;b<G.size();b++){ run({pv(G[a]),pv(G[b])}); for(size_t c=0;c<G.size();c++) if(T||(a+2*b+3*c)%5==0) run({pv(G[a]),pv(G[b]),pv(G[c])}); } mc_outcome("small buffer"); }); }
  // every placement of three points in a neighborhood inside a large buffer, through the sorted search
  for(int dim=0;dim<3;dim++) for(int fill=0;fill<4;fill++) for(int p0=0;p0<9;p0++) mc_case(mc_fmt("three points in a large buffer sorted along axis %d, filler %d, first point %d",dim,fill,p0),[&]{ int n=T?5003:5000; int d1=(dim+1)%3,d2=(dim+2)%3; Buf base(n); for(int i=0;i<n;i++){ V3 v{{0,0,0}}; double r=100+i*0.01; v[dim]=fill==0?r:fill==1?-r:fill==2?(i%2?r:-r):(i%7?r:-r); base[i]=pv(v); }
      for(int p1=0;p1<9;p1++) for(int p2=0;p2<9;p2++){ Buf b=base; int where[3]={0,n/2+1,n-1}; int ps[3]={p0,p1,p2}; for(int k=0;k<3;k++){ V3 v{{0,0,0}}; v[dim]=ps[k]%3; v[d1]=ps[k]/3; v[d2]=k==1?0.5:0; b[where[k]]=pv(v); } mc_state(mc_fmt("%d %d %d %d %d",dim,fill,p0,p1,p2)); NN*pc=NULL; Buf sp={b[where[0]],b[where[1]],b[where[2]]}; for(int qx=-1;qx<=5;qx++) for(int qy=-1;qy<=5;qy++){ V3 q{{0,0,0}}; q[dim]=qx*0.5; q[d1]=qy*0.5; q[d2]=0.125*(qx&1); ask(q,b,&pc,best(pv(q),sp),false); } V3 far{{0,0,0}}; for(double f:{-400.,-120.,120.,400.}){ far[dim]=f; ask(far,b,&pc,best(pv(far),b),false); } plc_nearest_neighbor_pc_data_free(&pc); mc_trace(); } mc_outcome("sorted search"); mc_sample(mc_fmt("axis %d filler %d",dim,fill)); });
  // shaped large buffers with ties, constant coordinates, unsorted order, just around the size at which the sorted search starts
  for(int n:{4999,5000,5001,7001}) for(int s=0;s<8;s++) mc_case(mc_fmt("shape %d with %d points",s,n),[&]{ Buf b=big(n,s),o=clean(b); NN*pc=NULL; auto Q=grid(-2,2,T?1:2); if(s==1||s==5||s==7) for(auto&q:Q) for(auto&x:q) x*=2.5; for(int i=0;i<n;i+=T?61:331){ Q.push_back(vv(b[i])); Q.push_back(vadd(vv(b[i]),V3{{0.3,-0.2,0.1}})); } for(auto&q:Q){ double w=best(pv(q),b); ask(q,b,&pc,w,false); mc_state(mc_fmt("%d %d ",n,s)+vstr(q)); } for(size_t i=0;i<Q.size();i+=9) ask(Q[i],b,NULL,best(pv(Q[i]),b),false); untouched(o,b); plc_nearest_neighbor_pc_data_free(&pc); mc_trace(); mc_outcome("shaped buffer"); });
  // query histories: one handle used on several buffers in every order
  { static Buf B[4]; B[0]=big(5000,7); B[1]=big(5200,6); B[2]=big(12,0); B[3]=big(1,4); std::vector<V3> Q={{{1,2,3}},{{-50,7,0.5}},{{0,0,0}}}; int len=mc_deep?8:T?6:5; long tot=1; for(int i=0;i<len;i++) tot*=4; for(int first=0;first<16;first++) mc_case(mc_fmt("query histories over four buffers, prefix %d",first),[&]{ double w[4][3]; for(int i=0;i<4;i++) for(int j=0;j<3;j++) w[i][j]=best(pv(Q[j]),B[i]); for(long h=first;h<tot;h+=16){ NN*pc=NULL; long r=h; int last=-1; for(int i=0;i<len;i++,r/=4){ int k=r%4; mc_note("history %ld step %d buffer %d",h,i,k); ask(Q[i%3],B[k],&pc,w[k][i%3],last>=0&&last!=k); last=k; } plc_nearest_neighbor_pc_data_free(&pc); mc_trace(); mc_state(mc_fmt("hist %ld",h)); } mc_outcome("buffer history"); }); }
  // vertices of curves: every pair of layouts, one handle, alternating queries
  { std::vector<Curve> C; auto comp=[&](int n,int shape,bool open){ Comp k; k.open=open; for(auto&v:big(n,shape)) k.v.push_back(vv(v)); k.cst.resize(n); return k; }; C.push_back({comp(1,4,true)}); C.push_back({comp(4,0,false),comp(3,6,true)}); C.push_back({comp(3,1,false),comp(3,1,false),comp(5,2,true)}); C.push_back({comp(5,3,true),comp(5001,7,false)}); C.push_back({comp(5000,1,false),comp(2,2,true),comp(7,0,false)}); auto Q=grid(-1,1,2.5); Q.push_back(V3{{40,2,-30}}); Q.push_back(V3{{100,-80,20}});
    for(size_t x=0;x<C.size();x++) for(size_t y=0;y<C.size();y++) mc_case(mc_fmt("vertex queries on curves %zu and %zu",x,y),[&]{ plCurve*L[2]={to_plc(C[x]),to_plc(C[y])}; const Curve*K[2]={&C[x],&C[y]}; NV*pc=NULL; int last=-1; int steps=T?6:4; for(int h=0;h<1<<steps;h++) { for(int i=0;i<steps;i++){ int k=h>>i&1; V3 q=Q[(h*3+i)%Q.size()]; int cp=-1,vt=-1,err=0; bool usepc=i%3!=2; mc_note("history %d step %d",h,i); plc_vector r=plc_nearest_vertex(pv(q),L[k],&cp,&vt,usepc?&pc:NULL,&err); mc_trans(); mc_eval(); double w=1e300; for(auto&c:*K[k]) for(auto&v:c.v) w=std::min(w,sq(pv(q),pv(v))); MC_CHECK(cp>=0&&cp<L[k]->nc&&vt>=0&&vt<L[k]->cp[cp].nv,"plc_nearest_vertex returned vertex %d:%d",cp,vt); MC_CHECK(vv(r)==(*K[k])[cp].v[vt],"the returned position is not that of the returned vertex"); MC_CHECK(std::fabs(sq(pv(q),r)-w)<=1e-12*(1+w),"nearest vertex to %s at distance %.15g, but one at %.15g exists",vstr(q).c_str(),sqrt(sq(pv(q),r)),sqrt(w)); if(usepc){ bool stale=last>=0&&last!=k; MC_CHECK((err==PLC_E_STALE_PCDATA)==stale,"error number %d for %s data",err,stale?"stale":"good"); last=k; } else MC_CHECK(err==0,"error number %d",err); } mc_trace(); }
      for(int k=0;k<2;k++) CHECK_CURVE(L[k],*K[k],"curve after queries"); plc_nearest_vertex_pc_data_free(&pc); MC_CHECK(pc==NULL,"freeing did not clear the pointer"); plc_free(L[0]); plc_free(L[1]); mc_state(mc_fmt("%zu %zu",x,y)); mc_outcome("vertex history"); }); }
}
