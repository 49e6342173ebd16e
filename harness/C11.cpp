// C11: struts, minrad, thickness and ropelength against a brute-force model over all pairs of edges.
#include "strut.hpp"
#include <cfloat>
extern "C" {
#include "octrope.h"
void find_poca(plc_vector edgeA[2],plc_vector edgeB[2],double*t,double*u,double*dist);
}
static bool eq(double a,double b,double tol=1e-9){ return a==b||std::fabs(a-b)<=tol*(1+std::fabs(b)); }
static void check_list(plCurve*L,const Curve&C,const std::vector<Strut>&M,const octrope_strut*st,int n,double bound,const char*what){ std::map<Key,const Strut*> by; for(auto&m:M) by[key(m.c[0],m.e[0],m.c[1],m.e[1])]=&m; std::set<Key> seen; for(int i=0;i<n;i++){ const octrope_strut&S=st[i]; for(int k=0;k<2;k++){ MC_CHECK(S.component[k]>=0&&S.component[k]<(int)C.size(),"%s: strut %d on component %d",what,i,S.component[k]); const Comp&K=C[S.component[k]]; int ne=K.v.size()-(K.open?1:0); MC_CHECK(S.lead_vert[k]>=0&&S.lead_vert[k]<ne,"%s: strut %d on edge %d of component %d",what,i,S.lead_vert[k],S.component[k]); MC_CHECK(S.position[k]>=0&&S.position[k]<=1,"%s: strut %d has position %.17g",what,i,S.position[k]); }
    Key q=key(S.component[0],S.lead_vert[0],S.component[1],S.lead_vert[1]); MC_CHECK(seen.insert(q).second,"%s: edges %d.%d and %d.%d are listed twice",what,q[0],q[1],q[2],q[3]); auto it=by.find(q); MC_CHECK(it!=by.end(),"%s: edges %d.%d and %d.%d at positions %.12g, %.12g (length %.12g) are not a local minimum of distance",what,S.component[0],S.lead_vert[0],S.component[1],S.lead_vert[1],S.position[0],S.position[1],S.length); const Strut&m=*it->second; bool sw=!(S.component[0]==m.c[0]&&S.lead_vert[0]==m.e[0]); MC_CHECK(eq(S.length,m.len,1e-7),"%s: strut length %.12g instead of %.12g",what,S.length,m.len); if(m.sure) MC_CHECK(std::fabs(S.position[0]-m.s[sw])<1e-6&&std::fabs(S.position[1]-m.s[!sw])<1e-6,"%s: strut of edges %d.%d and %d.%d at positions %.12g, %.12g instead of %.12g, %.12g",what,q[0],q[1],q[2],q[3],S.position[0],S.position[1],m.s[sw],m.s[!sw]);
    MC_CHECK(S.length<=bound*(1+1e-12),"%s: a strut of length %.12g exceeds the bound %.12g",what,S.length,bound); plc_vector se[2]; octrope_strut_ends(L,&S,se); V3 a=vv(se[0]),b=vv(se[1]); MC_CHECK(eq(vdist(a,b),S.length,1e-7),"%s: octrope_strut_ends are %.12g apart, the strut is %.12g long",what,vdist(a,b),S.length); for(int k=0;k<2;k++){ const Comp&K=C[S.component[k]]; V3 p=K.v[S.lead_vert[k]],r=K.v[(S.lead_vert[k]+1)%K.v.size()]; V3 z=vadd(p,vadd(r,p,-1),S.position[k]); MC_CHECK(near3(k?b:a,z,1e-9*(1+vnorm(z))),"%s: strut end %d is %s instead of %s",what,k,vstr(k?b:a).c_str(),vstr(z).c_str()); } } }
static void struts(plCurve*L,const Curve&C,const std::vector<Strut>&M,double lo,double hi,double cutoff,double eps,int size,void*mem,int memsize,const char*what){ std::vector<octrope_strut> buf(size+1); for(auto&b:buf) memset(&b,0x5a,sizeof b); octrope_strut guard=buf[size]; double sh=-7; int n=octrope_struts(L,cutoff,eps,size?buf.data():NULL,size,&sh,mem,memsize); mc_trans(); mc_eval(); std::string w=mc_fmt("octrope_struts(cutoff %.6g, epsilon %.6g, size %d, %s)",cutoff,eps,size,what); MC_CHECK(octrope_error_num==0,"%s: error %d %s",w.c_str(),octrope_error_num,octrope_error_str); MC_CHECK(n>=0&&n<=size,"%s returned %d",w.c_str(),n); MC_CHECK(!memcmp(&guard,&buf[size],sizeof guard),"%s wrote past the list",w.c_str());
  if(cutoff==0) MC_CHECK((sh<=hi||eq(sh,hi))&&(sh>=lo||eq(sh,lo)),"%s: shortest strut %.12g, not in %.12g..%.12g",w.c_str(),sh,lo,hi); else { double l=DBL_MAX,h=DBL_MAX; for(auto&m:M) if(m.len<=cutoff){ l=std::min(l,m.len); if(m.sure) h=std::min(h,m.len); } MC_CHECK(((sh<=h||eq(sh,h))&&(sh>=l||eq(sh,l)))||(sh!=DBL_MAX&&h==DBL_MAX&&l==DBL_MAX&&sh>=lo&&sh<=hi),"%s: shortest strut %.12g instead of %.12g",w.c_str(),sh,h); }
  double bound=cutoff>0?cutoff:(sh==DBL_MAX?DBL_MAX:sh+eps); check_list(L,C,M,buf.data(),n,bound,w.c_str()); std::set<Key> got; for(int i=0;i<n;i++) got.insert(key(buf[i].component[0],buf[i].lead_vert[0],buf[i].component[1],buf[i].lead_vert[1])); int sure=0,all=0; for(auto&m:M){ if(m.len<=bound*(1-1e-9)-1e-12){ if(m.sure) sure++; } if(m.len<=bound*(1+1e-9)+1e-12) all++; } if(n<size){ if(cutoff>0||size>=(int)M.size()) for(auto&m:M) if(m.sure&&m.len<=bound*(1-1e-9)-1e-12) MC_CHECK(got.count(key(m.c[0],m.e[0],m.c[1],m.e[1])),"%s: the strut of edges %d.%d and %d.%d at %.9g, %.9g of length %.12g is missing",w.c_str(),m.c[0],m.e[0],m.c[1],m.e[1],m.s[0],m.s[1],m.len); } if(cutoff>0) MC_CHECK(n>=std::min(size,sure)&&n<=all,"%s returned %d of %d struts",w.c_str(),n,sure); else if(size>0&&sure>0) MC_CHECK(n>0,"%s returned no strut",w.c_str()); }
static void minrads(plCurve*L,const std::vector<Mr>&M,double mr,double cutoff,double eps,int size){ std::vector<octrope_mrloc> b(size+1); for(auto&x:b) memset(&x,0x5a,sizeof x); octrope_mrloc guard=b[size]; int n=-5; double r=octrope_minrad(L,cutoff,eps,b.data(),size,&n); mc_trans(); mc_eval(); std::string w=mc_fmt("octrope_minrad(cutoff %.6g, epsilon %.6g, size %d)",cutoff,eps,size); MC_CHECK(eq(r,mr),"%s is %.12g instead of %.12g",w.c_str(),r,mr); MC_CHECK(n>=0&&n<=size,"%s stored %d",w.c_str(),n); MC_CHECK(!memcmp(&guard,&b[size],sizeof guard),"%s wrote past the list",w.c_str()); double bound=cutoff>0?cutoff:r==DBL_MAX?DBL_MAX:r+eps; std::map<std::array<int,3>,double> by; for(auto&m:M) by[{{m.c,m.v,m.sv}}]=m.r; std::set<std::array<int,3>> got; for(int i=0;i<n;i++){ std::array<int,3> k={{b[i].component,b[i].vert,b[i].svert}}; MC_CHECK(got.insert(k).second,"%s: vertex %d of component %d with %d listed twice",w.c_str(),k[1],k[0],k[2]); MC_CHECK(by.count(k)&&eq(by[k],b[i].mr),"%s: vertex %d of component %d with %d has minrad %.12g, not %.12g",w.c_str(),k[1],k[0],k[2],by.count(k)?by[k]:-1.,b[i].mr); MC_CHECK(b[i].mr<=bound*(1+1e-12),"%s lists %.12g",w.c_str(),b[i].mr); }
  int tot=0,loose=0; for(auto&m:M){ if(m.r<=bound*(1-1e-9)) tot++; if(m.r<=bound*(1+1e-9)) loose++; } if(n<size&&(cutoff>0||size>=(int)M.size())) for(auto&m:M) if(m.r<=bound*(1-1e-9)) MC_CHECK(got.count({{m.c,m.v,m.sv}}),"%s: vertex %d of component %d with %d (%.12g) is missing",w.c_str(),m.v,m.c,m.sv,m.r); if(cutoff>0) MC_CHECK(n>=std::min(size,tot)&&n<=loose,"%s stored %d of %d",w.c_str(),n,tot); else if(size&&tot) MC_CHECK(n>0,"%s stored nothing",w.c_str()); }
// level of detail: 0 values only, 1 lists, 2 everything
static void run(const Curve&C,int detail){ for(auto&k:C){ int n=k.v.size(); for(int i=0;i<n-(k.open?1:0);i++) if(vdist(k.v[i],k.v[(i+1)%n])<1e-6) return; } std::string ctx=curve_str(C); mc_note("%s",ctx.substr(0,3800).c_str()); mc_state(ctx); plCurve*L=to_plc(C); auto M=model(C); auto R=mrmodel(C); double lo=DBL_MAX,hi=DBL_MAX,mr=DBL_MAX,len=0; for(auto&m:M){ lo=std::min(lo,m.len); if(m.sure) hi=std::min(hi,m.len); else mc_count("undecided pairs"); } mc_count("struts",M.size()); for(auto&m:R) mr=std::min(mr,m.r); int ne=0; for(auto&k:C){ int n=k.v.size(); for(int i=0;i<n-(k.open?1:0);i++,ne++) len+=vdist(k.v[i],k.v[(i+1)%n]); }
  MC_CHECK(eq(octrope_curvelength(L),len),"octrope_curvelength %.12g instead of %.12g",octrope_curvelength(L),len); MC_CHECK(eq(octrope_minradval(L),mr),"octrope_minradval %.12g instead of %.12g",octrope_minradval(L),mr); mc_trans(2);
  int est=octrope_est_mem(ne); MC_CHECK(est>0,"octrope_est_mem(%d)=%d",ne,est); std::vector<int> lv={0}; if(detail>=1) lv={0,1,2,3,-2,7}; if(detail>=2) lv={0,1,2,3,4,5,6,9,20,-3};
  for(int l:lv){ octrope_set_levels(l); for(int mem:{0,1,2,3}){ if(mem&&detail<1&&mem!=1) continue; int sz=mem==0?0:mem==1?est:mem==2?est/2:40; void*p=mem?malloc(sz):NULL; double d=octrope_poca(L,p,sz); mc_trans(); mc_eval(); MC_CHECK(octrope_error_num==0,"octrope_poca: %s",octrope_error_str); MC_CHECK((d<=hi||eq(d,hi))&&(d>=lo||eq(d,lo)),"octrope_poca with %d levels and %d bytes: %.12g, not in %.12g..%.12g",l,sz,d,lo,hi);
      for(double la:{0.,0.5,1.,2.}){ double th=octrope_thickness(L,p,sz,la),rl=octrope_ropelength(L,p,sz,la); mc_trans(2); double a=lo/2,b=hi/2; if(la>0){ a=std::min(a,mr/la); b=std::min(b,mr/la); } MC_CHECK((th<=b||eq(th,b))&&(th>=a||eq(th,a)),"octrope_thickness(lambda %g) with %d levels and %d bytes: %.12g, not in %.12g..%.12g",la,l,sz,th,a,b); MC_CHECK(th==0?rl==DBL_MAX:eq(rl,len/th),"octrope_ropelength(lambda %g): %.12g instead of %.12g",la,rl,len/th); } free(p); } }
  if(detail>=1){ std::vector<double> ls; for(auto&m:M) ls.push_back(m.len); std::sort(ls.begin(),ls.end()); std::vector<double> cuts; if(ls.size()){ cuts.push_back(ls[0]/2); for(size_t i=0;i+1<ls.size();i++) if(ls[i+1]-ls[i]>1e-6*(1+ls[i])) cuts.push_back((ls[i]+ls[i+1])/2); cuts.push_back(ls.back()*1.5); } else cuts.push_back(1); size_t st=detail>=2?1:std::max<size_t>(1,cuts.size()/4); int big=M.size()+3;
    for(int l:detail>=2?std::vector<int>{0,1,3,9}:std::vector<int>{0,2}){ octrope_set_levels(l); std::string w=mc_fmt("%d levels",l); for(size_t i=0;i<cuts.size();i+=st) for(int size:{big,(int)M.size(),1,3,0}){ if(size==0&&i) continue; struts(L,C,M,lo,hi,cuts[i],0.25,size,NULL,0,w.c_str()); if(hi==lo&&lo<DBL_MAX) struts(L,C,M,lo,hi,0,std::max(0.,cuts[i]-lo),size,NULL,0,w.c_str()); } struts(L,C,M,lo,hi,0,0,big,NULL,0,w.c_str()); void*p=malloc(est); struts(L,C,M,lo,hi,cuts.back(),0,big,p,est,"buffer"); free(p); }
    std::vector<double> rs; for(auto&m:R) rs.push_back(m.r); std::sort(rs.begin(),rs.end()); std::vector<double> rc; if(rs.size()){ rc.push_back(rs[0]/2); for(size_t i=0;i+1<rs.size();i++) if(rs[i+1]-rs[i]>1e-6*(1+rs[i])) rc.push_back((rs[i]+rs[i+1])/2); rc.push_back(rs.back()+1); } else rc.push_back(2); for(double c:rc) for(int size:{(int)R.size()+2,(int)R.size(),1,2,0}){ if(c>0) minrads(L,R,mr,c,0.5,size); minrads(L,R,mr,0,std::max(0.,mr<DBL_MAX?c-mr:c),size); } }
  if(detail>=2){ octrope_set_levels(0); double th0=std::min(lo/2,mr),th1=std::min(hi/2,mr); double cut=lo<DBL_MAX?lo*1.2:1; for(int mask=0;mask<128;mask++){ double rl=-1,th=-1,cl=-1,mrr=-1,ms=-1; int nm=-1,ns=-1; std::vector<octrope_mrloc> ml(R.size()+1); std::vector<octrope_strut> sl(M.size()+1); for(int md=0;md<2;md++){ octrope(L,mask&1?&rl:NULL,mask&2?&th:NULL,mask&4?&cl:NULL,mask&8?&mrr:NULL,mask&16?&ms:NULL,md?mr+1:0,0.25,mask&32?ml.data():NULL,mask&32?R.size():0,mask&32?&nm:NULL,md?cut:0,0.25,mask&64?sl.data():NULL,mask&64?M.size()+1:0,mask&64?&ns:NULL,NULL,0,1.0); mc_trans(); MC_CHECK(octrope_error_num==0,"octrope: %s",octrope_error_str); if(mask&2) MC_CHECK((th<=th1||eq(th,th1))&&(th>=th0||eq(th,th0)),"octrope (outputs %#x): thickness %.12g not in %.12g..%.12g",mask,th,th0,th1); if((mask&1)&&(mask&2)&&th>0) MC_CHECK(eq(rl,len/th),"octrope (outputs %#x): ropelength %.12g, length %.12g, thickness %.12g",mask,rl,len,th); if((mask&1)&&th0==th1&&th0>0) MC_CHECK(eq(rl,len/th0),"octrope (outputs %#x): ropelength %.12g instead of %.12g",mask,rl,len/th0); if(mask&4) MC_CHECK(eq(cl,len),"octrope: length %.12g",cl); if(mask&8) MC_CHECK(eq(mrr,mr),"octrope: minrad %.12g instead of %.12g",mrr,mr); if((mask&16)&&!md) MC_CHECK((ms<=hi||eq(ms,hi))&&(ms>=lo||eq(ms,lo)),"octrope: shortest %.12g",ms); if(mask&64){ check_list(L,C,M,sl.data(),ns,md?cut:lo==DBL_MAX?DBL_MAX:hi+0.25,"octrope"); } if(mask&32){ int w=0; double bd=md?mr+1:mr+0.25; bool amb=false; for(auto&m:R){ if(m.r<=bd) w++; if(std::fabs(m.r-bd)<1e-9*(1+bd)) amb=true; } if(!amb) MC_CHECK(nm==w,"octrope: %d minrad locations instead of %d",nm,w); } } } 
    double z=-1; int q=-1; octrope(L,NULL,NULL,NULL,&z,NULL,0,0,NULL,0,&q,0,0,NULL,0,NULL,NULL,0,0); MC_CHECK(z==DBL_MAX&&q==0,"octrope with lambda 0: minrad %.12g and %d locations",z,q); octrope_struts(L,0,-1,NULL,0,NULL,NULL,0); MC_CHECK(octrope_error_num!=0,"a negative epsilon is not an error"); octrope_struts(L,-1,0,NULL,0,NULL,NULL,0); MC_CHECK(octrope_error_num!=0,"a negative cutoff is not an error"); octrope_struts(L,0,0,NULL,3,NULL,NULL,0); MC_CHECK(octrope_error_num!=0,"a missing list is not an error"); octrope_ropelength(L,NULL,0,-1); MC_CHECK(octrope_error_num!=0,"a negative lambda is not an error"); octrope_struts(NULL,0,0,NULL,0,NULL,NULL,0); MC_CHECK(octrope_error_num!=0,"a missing link is not an error"); double x=octrope_poca(L,NULL,0); MC_CHECK(octrope_error_num==0&&x>=lo-1e-9,"an error is still reported after a good call"); mc_trans(6); }
  octrope_set_levels(0); CHECK_CURVE(L,C,"curve after the queries"); plc_free(L); mc_trace(); mc_outcome(mc_fmt("%s",lo==DBL_MAX?"no strut":hi==lo?"exact":"within bounds")); }
static double frac(unsigned k){ return std::fmod(k*0.6180339887498949+std::fmod(k*k*0.7548776662466927,1.0),1.0); }
void mc_main(){ bool T=mc_thorough,D=mc_deep; std::vector<V3> P; for(int i=0;i<8;i++) P.push_back(V3{{(i&1)+0.17*frac(3*i+1),(i>>1&1)*1.3+0.17*frac(3*i+2),(i>>2&1)*0.9+0.17*frac(3*i+3)}});
  auto perm=[&](int n,int k,int first,std::function<void(const std::vector<int>&)> cb){ std::vector<int> v; if(first>=0) v.push_back(first); std::function<void()> rec=[&]{ if((int)v.size()==k){ cb(v); return; } for(int i=0;i<n;i++) if(std::find(v.begin(),v.end(),i)==v.end()){ v.push_back(i); rec(); v.pop_back(); } }; rec(); };
  for(int n=2;n<=5;n++) for(int a=0;a<8;a++) mc_case(mc_fmt("one component of %d vertices from 8 points, first vertex %d",n,a),[&]{ perm(8,n,a,[&](const std::vector<int>&v){ for(int o=n<3;o<2;o++){ Comp c; c.open=o; for(int i:v) c.v.push_back(P[i]); c.cst.resize(n); run(Curve{c},n<=4?2:1); } }); mc_sample(mc_fmt("%d-vertex components",n)); });
  for(int a=0;a<8;a++) for(int b=0;b<8;b++) if(a!=b) mc_case(mc_fmt("one component of 6%s vertices, starting %d %d",T?" or 7":"",a,b),[&]{ for(int n=6;n<=(D?8:T?7:6);n++) perm(8,n,a,[&](const std::vector<int>&v){ if(v[1]!=b) return; for(int o=0;o<2;o++){ Comp c; c.open=o; for(int i:v) c.v.push_back(P[i]); c.cst.resize(n); run(Curve{c},n==6&&v[2]==(a+b)%8?1:0); } }); });
  for(int a=0;a<8;a++) for(int kind=0;kind<6;kind++) mc_case(mc_fmt("two components, kind %d, first vertex %d",kind,a),[&]{ static const int N1[]={3,3,2,2,4,4},N2[]={3,2,2,4,3,3}; int n1=N1[kind],n2=N2[kind]; bool o1=kind==2||kind==3||kind==5,o2=kind==1||kind==2; perm(8,n1+n2,a,[&](const std::vector<int>&v){ if(n1+n2==7&&!T&&v[1]>v[2]) return; Comp c,d; c.open=o1; d.open=o2; for(int i=0;i<n1;i++) c.v.push_back(P[v[i]]); for(int i=0;i<n2;i++) d.v.push_back(P[v[n1+i]]); c.cst.resize(n1); d.cst.resize(n2); run(Curve{c,d},n1+n2<=5||(n1+n2==6&&v[1]==(a+1)%8)?1:0); }); });
  // three components
  mc_case("three components",[&]{ perm(8,8,0,[&](const std::vector<int>&v){ if(v[1]>v[2]||v[3]>v[4]) return; Curve C(3); C[0].open=false; C[1].open=false; C[2].open=true; for(int i=0;i<8;i++) C[i<3?0:i<6?1:2].v.push_back(P[v[i]]); for(auto&c:C) c.cst.resize(c.v.size()); run(C,v[5]==7&&v[1]<4?1:0); }); });
  // finely sampled curves: the turning-angle and octree prunings take effect
  std::vector<int> ns; for(int n=7;n<=(D?90:T?60:34);n+=(n<20?1:3)) ns.push_back(n);
  for(int fam=0;fam<9;fam++) mc_case(mc_fmt("family %d at every size",fam),[&]{ for(int n:ns) for(int j=0;j<(T?12:4);j++){ double am=j%4==0?1e-4:j%4==1?0.01:j%4==2?0.05:0.15; auto jit=[&](int k){ return V3{{am*(frac(7*k+j)-0.5),am*(frac(11*k+3+j)-0.5),am*(frac(13*k+5+j)-0.5)}}; }; Curve C; auto loop=[&](std::function<V3(double)> f,bool open,int m,int off){ Comp c; c.open=open; for(int i=0;i<m;i++) c.v.push_back(vadd(f(open?(double)i/(m-1):(double)i/m),jit(i+off))); c.cst.resize(m); C.push_back(c); }; double w=2*M_PI;
      switch(fam){ case 0: loop([&](double t){ return V3{{cos(w*t),sin(w*t),0}}; },false,n,0); break; case 1: loop([&](double t){ return V3{{(2+cos(3*w*t))*cos(2*w*t),(2+cos(3*w*t))*sin(2*w*t),sin(3*w*t)}}; },false,n,0); break; case 2: loop([&](double t){ return V3{{cos(w*t),sin(w*t),0}}; },false,n,0); loop([&](double t){ return V3{{1+cos(w*t),0,sin(w*t)}}; },false,n/2+2,n); break; case 3: loop([&](double t){ return V3{{cos(3*w*t),sin(3*w*t),1.7*t}}; },true,n,0); break; case 4: loop([&](double t){ return V3{{3*t,0.1*t*t,0}}; },true,n,0); loop([&](double t){ return V3{{3*t,0.3+t*(1-t),0.2}}; },true,n,n); break; case 5: loop([&](double t){ return V3{{3*cos(w*t),0.3*sin(w*t),0}}; },false,n,0); break; case 6: loop([&](double t){ return V3{{t<0.5?4*t:4-4*t,t<0.5?0:0.4,0.1*t}}; },false,n,0); break; case 7: for(int q=0;q<3;q++) loop([&](double t){ return V3{{q+cos(w*t)*0.8,sin(w*t)*0.8*(q%2),sin(w*t)*0.8*(1-q%2)}}; },false,n/3+3,q*n); break; case 8: loop([&](double t){ return V3{{sin(w*t),sin(2*w*t),0.2*cos(3*w*t)}}; },false,n,0); break; }
      run(C,j<2?1:0); } });
  // one sharp feature on a finely sampled curve, at every index and on either component
  for(int fam=0;fam<5;fam++) mc_case(mc_fmt("a sharp feature %d at every index",fam),[&]{ for(int m:T?std::vector<int>{24,31,48,60}:std::vector<int>{24,36}) { std::vector<V3> b; auto jit=[&](int k){ return V3{{1e-3*(frac(7*k+fam)-0.5),1e-3*(frac(11*k+3)-0.5),1e-3*(frac(13*k+5)-0.5)}}; };
      // a big arc of m edges, then a feature reaching in
      for(int i=0;i<=m;i++){ double t=0.15+(2*M_PI-0.3)*i/m; b.push_back(vadd(V3{{10*cos(t),10*sin(t),0}},jit(i))); }
      if(fam==0){ b.push_back(V3{{7,-0.3,0.01}}); b.push_back(V3{{3,0.02,0}}); b.push_back(V3{{7,0.33,-0.01}}); } // a spike
      else if(fam==1){ for(double x:{9.0,7.0,5.0}) b.push_back(V3{{x,-0.2-0.01*x,0.02*x}}); b.push_back(V3{{5.1,0.2,0.05}}); for(double x:{7.2,9.1}) b.push_back(V3{{x,0.2+0.013*x,-0.01*x}}); } // a hairpin with a short cap
      else if(fam==2){ b.push_back(V3{{9,-0.6,0}}); b.push_back(V3{{8,-0.1,0.1}}); b.push_back(V3{{6.5,-0.9,0}}); b.push_back(V3{{5,0.1,0.3}}); b.push_back(V3{{6.4,1.0,0.05}}); b.push_back(V3{{8.1,0.12,-0.15}}); b.push_back(V3{{9,0.7,0}}); } // a bulb behind a neck
      else { b.push_back(V3{{8,-1,0.2}}); b.push_back(V3{{7.5,0.6,0.6}}); b.push_back(V3{{8.2,1.1,-0.5}}); b.push_back(V3{{8.9,0.1,0.15}}); } // a tight curl
      if(fam==4){ // one corner, every other turn at most ten degrees, a neck close to the corner
        b.clear(); std::vector<V3> up; V3 x{{0,0,0}}; double l=m/24.0; auto go=[&](double h,double w){ x=vadd(x,V3{{cos(h*M_PI/180),sin(h*M_PI/180),0}},w); up.push_back(x); }; for(double h:{40.,30.,20.,10.,0.,-10.,-15.,-5.,5.,15.,25.,35.}) go(h,h==40?l*1.1:l); for(double h:{45.,55.,65.,70.,70.,70.}) go(h,l*1.5); for(double h=62;h>=-90;h-=8) go(h,l*1.5); while(x[1]>l*2.2) go(-90,l*1.5); double y=x[1]; MC_CHECK(y>l*0.1,"the neck curve is wrong: %g",y); up.push_back(V3{{x[0],y*0.3,0}}); b.push_back(V3{{0,0,0}}); for(size_t i=0;i<up.size();i++) b.push_back(vadd(up[i],jit(i))); for(size_t i=up.size();i-->0;) b.push_back(vadd(V3{{up[i][0],-up[i][1],0.3*up[i][0]/l*1e-2}},jit(i+50))); }
      int n=b.size(); for(int sh=0;sh<n;sh++) for(int rev=0;rev<2;rev++) for(int where=0;where<2;where++){ if(where&&sh%5) continue; Comp c; c.open=false; for(int i=0;i<n;i++) c.v.push_back(b[rev?(2*n-1-i-sh)%n:(i+sh)%n]); c.cst.resize(n); Curve C{c}; if(where){ Comp d; d.open=false; for(int i=0;i<m;i++){ double t=2*M_PI*i/m; d.v.push_back(vadd(V3{{30+8*cos(t),8*sin(t),1}},jit(i+77))); } d.cst.resize(m); C.insert(C.begin(),d); } run(C,sh%9==0?1:0); } } });
  // an edge touching the far corner of a large box, small edges next to the end of a long one: both orders, all corners
  for(int cr=0;cr<8;cr++) mc_case(mc_fmt("contact at box corner %d",cr),[&]{ V3 sg{{cr&1?1.:-1.,cr&2?1.:-1.,cr&4?1.:-1.}}; auto q=[&](double x,double y,double z){ return V3{{sg[0]*x,sg[1]*y,sg[2]*z}}; }; int k=0; for(double big:{4.0,20.0}) for(int ax=0;ax<8;ax++) for(double gap:{0.02,0.3}) for(int dir=0;dir<7;dir++) for(int kind=0;kind<(T?6:3);kind++){ k++; if(!T&&(k+cr)%2) continue; auto J=[&](int i){ return V3{{1e-3*(frac(5*i+k)-0.5),1e-3*(frac(7*i+2*k)-0.5),1e-3*(frac(9*i+3*k)-0.5)}}; };
      // A: a long edge from the corner to a point with some coordinates opposite, and back along another route
      V3 far=q(ax&1?-big:big*0.9,ax&2?-big:big*0.9,ax&4?-big:big*0.9); Comp A; A.open=kind%3==1; A.v={vadd(far,J(1)),q(big,big,big),vadd(vadd(vscale(0.55,far),q(-big*0.2,-big*0.7,-big*0.4)),J(2))}; if(kind%3==2){ A.v.push_back(vadd(vscale(0.9,far),J(9))); A.v.push_back(vadd(vadd(far,q(-1,-2,-1.5)),J(10))); }
      int dm=dir+1; V3 off=q(dm&1?gap:0,dm&2?gap:0,dm&4?gap:0); V3 o=vadd(q(big,big,big),off); double e=kind>=3?0.3:0.05; Comp B; B.open=kind%2; V3 d=vscale(1/vnorm(off),off); V3 u=vcross(d,V3{{0.3,-0.8,0.52}}); u=vscale(1/vnorm(u),u); V3 w=vcross(d,u); B.v={vadd(vadd(o,u,e),J(3)),vadd(vadd(o,d,0.1*e),J(4)),vadd(vadd(vadd(o,u,-e),w,0.3*e),J(5)),vadd(vadd(o,d,3*e),J(6)),vadd(vadd(vadd(o,d,2*e),w,2*e),J(7))};
      if(vdist(A.v[0],A.v[1])<0.1) continue; A.cst.resize(A.v.size()); B.cst.resize(B.v.size()); Curve C=(k/2)%2?Curve{A,B}:Curve{B,A}; run(C,1); mc_outcome("corner contact"); } });
  // distances of segments on a lattice, degenerate positions included
  for(int a=0;a<27;a++) mc_case(mc_fmt("segment distances from lattice point %d",a),[&]{ auto pt=[&](int i){ return V3{{(double)(i%3),(double)(i/3%3),(double)(i/9)}}; }; int lim=T?27:18; for(int b=0;b<27;b++) if(b!=a) for(int c=0;c<lim;c++) for(int d=0;d<27;d++) if(d!=c){ if(!T&&(b+c+d)%2) continue; plc_vector A[2]={pv(pt(a)),pv(pt(b))},B[2]={pv(pt(c)),pv(pt(d))}; double s,t,dist; find_poca(A,B,&s,&t,&dist); mc_trans(); Close k=closest(pt(a),pt(b),pt(c),pt(d)); bool ok=s>=0&&s<=1&&t>=0&&t<=1&&std::fabs(dist-k.d)<1e-9; V3 p=vadd(pt(a),vadd(pt(b),pt(a),-1),s),q=vadd(pt(c),vadd(pt(d),pt(c),-1),t); if(!ok||std::fabs(vdist(p,q)-dist)>1e-9) mc_fail("segments %s%s and %s%s: distance %.12g at %.9g, %.9g instead of %.12g",vstr(pt(a)).c_str(),vstr(pt(b)).c_str(),vstr(pt(c)).c_str(),vstr(pt(d)).c_str(),dist,s,t,k.d); } mc_trace(); });
  // a long lattice (parallel and collinear edges with gaps), at several scales; and the same as two one-edge curves
  for(int a=0;a<24;a++) mc_case(mc_fmt("segment distances on a long lattice from point %d",a),[&]{ static const double SC[4]={1,1e-3,1e3,7.3}; for(int k=0;k<(T?4:2);k++){ auto pt=[&](int i){ return V3{{SC[k]*(i%6),SC[k]*(i/6%2),SC[k]*(i/12)}}; };
    for(int b=0;b<24;b++) if(b!=a) for(int c=0;c<24;c++) for(int d=0;d<24;d++) if(d!=c){ plc_vector A[2]={pv(pt(a)),pv(pt(b))},B[2]={pv(pt(c)),pv(pt(d))}; double s,t,dist; find_poca(A,B,&s,&t,&dist); mc_trans(); Close q=closest(pt(a),pt(b),pt(c),pt(d)); bool ok=s>=0&&s<=1&&t>=0&&t<=1&&std::fabs(dist-q.d)<1e-9*SC[k];
      V3 x=vadd(pt(a),vadd(pt(b),pt(a),-1),s),y=vadd(pt(c),vadd(pt(d),pt(c),-1),t); if(!ok||std::fabs(vdist(x,y)-dist)>1e-9*SC[k]) mc_fail("segments %s%s and %s%s: distance %.12g at %.9g, %.9g instead of %.12g",vstr(pt(a)).c_str(),vstr(pt(b)).c_str(),vstr(pt(c)).c_str(),vstr(pt(d)).c_str(),dist,s,t,q.d);
      if(k==0&&q.d>0){ int nv[2]={2,2},cc[2]={0,0}; bool op[2]={true,true}; plCurve*L=plc_new(2,nv,op,cc); L->cp[0].vt[0]=A[0]; L->cp[0].vt[1]=A[1]; L->cp[1].vt[0]=B[0]; L->cp[1].vt[1]=B[1]; plc_fix_wrap(L); double g=octrope_poca(L,NULL,0); mc_trans(); mc_eval(); MC_CHECK(std::fabs(g-q.d)<1e-9,"two edges %s%s and %s%s: shortest strut %.12g, distance %.12g",vstr(pt(a)).c_str(),vstr(pt(b)).c_str(),vstr(pt(c)).c_str(),vstr(pt(d)).c_str(),g,q.d); plc_free(L); } } } mc_trace(); });
  // curves with parallel, collinear and perpendicular edges: the shortest strut and the thickness do not depend on the position in space
  auto turned=[&](const Curve&C,int nr,bool strict){ auto go=[&](const Curve&K,double&p,double&t,double&m){ plCurve*L=to_plc(K); p=octrope_poca(L,NULL,0); t=octrope_thickness(L,NULL,0,1.0); m=octrope_minradval(L); mc_trans(3); plc_free(L); }; double p0,t0,m0; go(C,p0,t0,m0); mc_state(mc_fmt("%.9g %.9g",p0,t0));
    for(int r=0;r<nr;r++){ double a=0.37+0.61*r,b=0.21+1.17*r,ca=cos(a),sa=sin(a),cb=cos(b),sb=sin(b); Curve K=C; for(auto&k:K) for(auto&v:k.v){ V3 x=v; double X=ca*x[0]-sa*x[1],Y=sa*x[0]+ca*x[1]; v=V3{{X+0.3*r,cb*Y-sb*x[2]-1.1,sb*Y+cb*x[2]}}; } double p,t,m; go(K,p,t,m); mc_eval(); bool same=!strict||std::fabs(p-p0)<1e-9||(p>1e300&&p0>1e300); // the thickness is a continuous function of the curve, the shortest strut alone is not
      if(!same||std::fabs(t-t0)>1e-9) mc_fail("turning %s (turn %d) changes the shortest strut from %.12g to %.12g, the thickness from %.12g to %.12g",curve_str(C).c_str(),r,p0,p,t0,t); } mc_trace(); };
  { static const double W[12][2]={{0,0},{10,0},{10.5,-.5},{11.5,-.5},{12.25,.125},{11.5,.75},{10.5,.75},{10,.25},{0,.25},{-.5,.75},{-1.5,.125},{-.5,-.5}}; for(int sh=0;sh<12;sh++) mc_case(mc_fmt("a neck with parallel edges turned, start %d",sh),[&]{ Comp k; k.open=false; for(int i=0;i<12;i++) k.v.push_back(V3{{W[(i+sh)%12][0],W[(i+sh)%12][1],0}}); turned({k},T?200:40,true); }); }
  for(int n=4;n<=(T?24:16);n+=2) mc_case(mc_fmt("equiangular polygons of %d sides turned",n),[&]{ for(int fl=0;fl<4;fl++){ Comp k; k.open=false; V3 x{{0,0,0}}; for(int i=0;i<n;i++){ k.v.push_back(x); double l=fl==0?1:(i%(n/2)==0?(fl==1?0.4:fl==2?4.0:9.0):(fl==2&&i%(n/2)==1?0.3:1)); x=vadd(x,V3{{cos(2*M_PI*i/n),sin(2*M_PI*i/n),0}},l); } double big=0; for(auto&v:k.v) big=std::max(big,vnorm(v)); turned({k},T?100:30,true); } });
  for(int a=0;a<12;a++) mc_case(mc_fmt("lattice curves from point %d turned",a),[&]{ auto pt=[&](int i){ return V3{{(double)(i%3),(double)(i/3%2),(double)(i/6)}}; }; int nr=T?12:3;
    for(int b=0;b<12;b++) for(int c=0;c<12;c++) for(int d=0;d<12;d++) if(b!=a&&c!=b&&d!=c&&c!=a&&d!=b){ if(d!=a){ for(int op=0;op<2;op++){ Comp k; k.open=op; k.v={pt(a),pt(b),pt(c),pt(d)}; turned({k},nr,false); } }
      Comp x,y; x.open=y.open=true; x.v={pt(a),pt(b),pt(c)}; for(int e=0;e<12;e++) if(e!=d&&d!=a&&e!=a&&e!=b&&e!=c){ y.v={pt(d),pt(e)}; turned({x,y},nr,false); } } });
}
