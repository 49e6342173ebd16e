// C06: rigid motions, scaling, folds, projection, perturbation and the Whitten group, in histories, against a value model.
#include "curve.hpp"
static std::vector<int> rscript; static size_t rpos; static unsigned rstate;
extern "C" int rand(void) throw(){ if(rpos<rscript.size()) return rscript[rpos++]; rstate=rstate*1103515245u+12345u; return (int)(rstate>>1)&RAND_MAX; }
extern "C" void srand(unsigned) throw(){}
static V3 rot(V3 v,V3 ax,double t){ ax=vscale(1/vnorm(ax),ax); V3 c=vcross(ax,v); double d=vdot(ax,v); return vadd(vadd(vscale(cos(t),v),c,sin(t)),ax,d*(1-cos(t))); }
struct Op{ std::string name; std::function<void(Curve&)> model; std::function<void(plCurve*)> real; };
static void map_all(Curve&C,std::function<V3(V3)> pt,std::function<V3(V3)> dir,std::function<double(const Cst&)> pd){ for(auto&k:C){ for(auto&v:k.v) v=pt(v); for(auto&c:k.cst){ if(c.kind==1) c.a=pt(c.a); else if(c.kind==2){ c.a=dir(c.a); c.b=pt(c.b); } else if(c.kind==3){ double d=pd(c); c.a=dir(c.a); c.b[0]=d; } } } }
static void reverse(Comp&k){ std::reverse(k.v.begin(),k.v.end()); if(k.c.size()==k.v.size()) std::reverse(k.c.begin(),k.c.end()); std::reverse(k.cst.begin(),k.cst.end()); }
// every way to write a permutation in closed cycle notation, padded to 2n
static std::vector<std::vector<int>> notations(const std::vector<int>&p,bool all){ int n=p.size(); std::vector<std::vector<int>> cyc; std::vector<char> seen(n,0); for(int i=0;i<n;i++) if(!seen[i]){ std::vector<int> c; for(int j=i;!seen[j];j=p[j]){ seen[j]=1; c.push_back(j); } cyc.push_back(c); }
  std::vector<std::vector<int>> out; std::vector<int> ord; for(size_t i=0;i<cyc.size();i++) ord.push_back(i);
  do{ std::function<void(size_t,std::vector<int>)> rec=[&](size_t i,std::vector<int> s){ if(i==ord.size()){ std::vector<int> t=s; while((int)t.size()<2*n) t.push_back(t.back()); out.push_back(t); t=s; while((int)t.size()<2*n) t.push_back(-1); out.push_back(t); return; } auto&c=cyc[ord[i]]; for(size_t r=0;r<c.size();r++){ std::vector<int> t=s; for(size_t q=0;q<=c.size();q++) t.push_back(c[(q+r)%c.size()]); rec(i+1,t); if(!all) break; } if(c.size()==1) rec(i+1,s.empty()&&i+1==ord.size()?std::vector<int>{c[0],c[0]}:s); }; rec(0,{}); if(!all) break; } while(std::next_permutation(ord.begin(),ord.end()));
  return out; }
static std::vector<Op> rigid(const Curve&C,int lvl){ std::vector<Op> o;
  std::vector<V3> axes={V3{{1,0,0}},V3{{0,-2,0}},V3{{0,0,3}},V3{{1,2,-2}}}; if(lvl<2) axes.resize(2); std::vector<double> an={0.7,-M_PI/2,M_PI}; if(lvl>2) an.push_back(0);
  for(auto&a:axes) for(double t:an) o.push_back({mc_fmt("rotate %s by %g",vstr(a).c_str(),t),[=](Curve&D){ auto r=[=](V3 v){ return rot(v,a,t); }; map_all(D,r,r,[](const Cst&c){ return c.b[0]; }); },[=](plCurve*L){ plc_rotate(L,pv(a),t); }});
  o.push_back({"rotate about the zero axis",[](Curve&){},[](plCurve*L){ plc_rotate(L,plc_build_vect(0,0,0),1.0); }});
  for(V3 t:{V3{{1,-2,0.5}},V3{{0,0,1e-3}},V3{{0,0,0}},V3{{-100,0,7}}}) o.push_back({"translate "+vstr(t),[=](Curve&D){ map_all(D,[=](V3 v){ return vadd(v,t); },[](V3 v){ return v; },[=](const Cst&c){ return c.b[0]+vdot(c.a,t); }); },[=](plCurve*L){ plc_translate(L,pv(t)); }});
  for(double s:{2.0,0.25,-1.0}) o.push_back({mc_fmt("scale %g",s),[=](Curve&D){ map_all(D,[=](V3 v){ return vscale(s,v); },[](V3 v){ return v; },[=](const Cst&c){ return s*c.b[0]; }); },[=](plCurve*L){ plc_scale(L,s); }});
  for(int cp=0;cp<(int)C.size();cp++){ int n=C[cp].v.size(); int lo=C[cp].open?0:-1,hi=C[cp].open?n-1:n; auto at=[&](int i){ return C[cp].v[((i%n)+n)%n]; }; for(int a=lo;a<=hi;a++) for(int b=lo;b<=hi;b++){ if(n>8&&((a>1&&a<n-2&&a!=n/2&&a!=n/2+1)||(b>1&&b<n-2&&b!=n/2))) continue; if(a==b||vdist(at(a),at(b))<1e-6) continue; if(lvl<2&&(a>b)) continue; double t=0.9+0.3*a-0.2*b; o.push_back({mc_fmt("fold %d:%d-%d by %g",cp,a,b,t),[=](Curve&D){ auto&k=D[cp]; int x=std::min(a,b),y=std::max(a,b),n=k.v.size(); V3 p=k.v[((x%n)+n)%n],q=k.v[((y%n)+n)%n],ax=vadd(q,p,-1); auto v=k.v; for(int i=x+1;i<y;i++) v[((i%n)+n)%n]=vadd(p,rot(vadd(k.v[((i%n)+n)%n],p,-1),ax,t)); k.v=v; },[=](plCurve*L){ plc_pfm(L,cp,a,b,t); }}); } }
  for(V3 N:{V3{{0,0,2}},V3{{1,1,1}}}) o.push_back({"project along "+vstr(N),[=](Curve&D){ V3 u=vscale(1/vnorm(N),N); for(auto&k:D) for(auto&v:k.v) v=vadd(v,u,-vdot(u,v)); },[=](plCurve*L){ plc_project(L,pv(N)); }});
  int nc=C.size(); std::vector<int> p(nc); for(int i=0;i<nc;i++) p[i]=i; if(nc>3) return o; do{ for(int e=0;e<1<<nc;e++) for(int m=1;m>=-1;m-=2){ if(lvl<2&&nc>1&&(e&(e-1))) continue; auto q=p; auto nt=notations(q,false)[0]; o.push_back({mc_fmt("Whitten mirror %d reverse %d perm %d%d%d",m,e,p[0],nc>1?p[1]:0,nc>2?p[2]:0),[=](Curve&D){ Curve E; for(int i=0;i<(int)D.size();i++) E.push_back(D[q[i]]); for(int i=0;i<(int)E.size();i++) if(e>>i&1) reverse(E[i]); if(m<0){ auto f=[](V3 v){ v[2]=-v[2]; return v; }; map_all(E,f,f,[](const Cst&c){ return c.b[0]; }); } D=E; },[=](plCurve*L){ std::vector<int> eps,pp=nt; for(int i=0;i<L->nc;i++) eps.push_back(e>>i&1?-1:1); plc_whitten(L,m,eps.data(),pp.data()); }}); } } while(std::next_permutation(p.begin(),p.end()));
  return o; }
static void walk(plCurve*L,const Curve&C,int depth,const std::string&hist){ if(depth==0){ mc_trace(); return; } auto O=rigid(C,depth); for(auto&o:O){ std::string h=hist+" ; "+o.name; mc_note("%s",h.c_str()); Curve D=C; o.model(D); plCurve*K=plc_copy(L); o.real(K); mc_trans(); mc_eval(); double big=1; for(auto&k:D) for(auto&v:k.v) big=std::max(big,vnorm(v)); CHECK_CURVE_TOL(K,D,1e-10*big*big,"%s",h.c_str()); mc_outcome(o.name.substr(0,o.name.find(' '))); Curve E=from_plc(K); mc_state(curve_str(E)); walk(K,E,depth-1,h); plc_free(K); } }
static std::vector<Curve> starts(){ std::vector<Curve> S; static const V3 T[]={{{0,0,0}},{{1,0,0}},{{1,2,0.5}},{{-1,1,2}},{{0.5,-1,1}},{{2,2,-1}},{{0,0,2}},{{3,1,1}}}; Cst F,Ln,Pl; F.kind=1; F.a=V3{{1,2,3}}; Ln.kind=2; Ln.a=V3{{1,0,1}}; Ln.b=V3{{0,1,0.5}}; Pl.kind=3; Pl.a=V3{{0,1,2}}; Pl.b=V3{{0.75,0,0}};
  auto comp=[&](int n,bool open,int cc,int off){ Comp k; k.open=open; for(int i=0;i<n;i++) k.v.push_back(vadd(T[(i+off)%8],V3{{0,0,0.25*off}})); for(int i=0;i<cc;i++) k.c.push_back(C4{{0.1*i,0.2,0.3*off,1}}); k.cst.resize(n); return k; };
  S.push_back({comp(4,false,4,0)}); S.push_back({comp(4,true,0,3)}); S.back()[0].cst={F,Pl,Pl,Ln}; S.push_back({comp(3,false,0,1),comp(4,true,4,4)}); S.back()[0].cst[1]=F; S.back()[1].cst={Ln,Ln,Cst(),Pl}; S.push_back({comp(2,true,1,2),comp(3,false,3,5),comp(1,true,0,0)}); S.back()[1].cst={Pl,Pl,F}; S.back()[0].cst[1]=Ln; S.push_back({comp(5,false,0,6)}); S.back()[0].cst={Pl,Cst(),Ln,Ln,F};
  return S; }
static void measure_invariants(plCurve*L,const Curve&B,double scale,const char*what){ Curve A=from_plc(L); std::vector<V3> p,q; for(auto&k:A) for(auto&v:k.v) p.push_back(v); for(auto&k:B) for(auto&v:k.v) q.push_back(v); for(size_t i=0;i<p.size();i++) for(size_t j=0;j<i;j++) MC_CHECK(std::fabs(vdist(p[i],p[j])-scale*vdist(q[i],q[j]))<1e-9*(1+vdist(q[i],q[j])),"%s changed the distance of vertices %zu and %zu",what,i,j); }
void mc_main(){ bool T=mc_thorough; auto S=starts();
  for(size_t s=0;s<S.size();s++){ int depth=T?3:2; auto O=rigid(S[s],depth); for(size_t i=0;i<O.size();i++) mc_case(mc_fmt("history of depth %d from curve %zu starting with %s",depth,s,O[i].name.c_str()),[&]{ plCurve*L=to_plc(S[s]); std::string h=mc_fmt("curve %zu ; ",s)+O[i].name; mc_note("%s",h.c_str()); Curve D=S[s]; O[i].model(D); O[i].real(L); mc_trans(); mc_eval(); CHECK_CURVE_TOL(L,D,1e-8,"%s",h.c_str()); walk(L,from_plc(L),depth-1,h); plc_free(L); mc_sample(h); }); }
  // the Whitten group: every permutation of up to 4 components in every cycle notation, and the action law
  for(int nc=1;nc<=4;nc++) mc_case(mc_fmt("every Whitten element on %d components",nc),[&]{ Curve C; Cst F,Pl; F.kind=1; F.a=V3{{1,2,3}}; Pl.kind=3; Pl.a=V3{{0,1,2}}; Pl.b=V3{{0.75,0,0}}; for(int c=0;c<nc;c++){ Comp k; k.open=c%2; for(int i=0;i<3+c;i++) k.v.push_back(V3{{(double)c,i+0.5*c,(double)i*i}}); for(int i=0;i<(c%3==0?0:c%3==1?1:3+c);i++) k.c.push_back(C4{{0.1*i,0.2*c,1,1}}); k.cst.resize(3+c); k.cst[0]=k.cst[1]=Pl; k.cst[2]=F; C.push_back(k); }
    std::vector<int> p(nc); for(int i=0;i<nc;i++) p[i]=i; do{ for(auto&nt:notations(p,true)) for(int e=0;e<1<<nc;e++) for(int m=1;m>=-1;m-=2){ mc_note("perm %d mirror %d eps %d",p[0],m,e); plCurve*L=to_plc(C); std::vector<int> eps,pp=nt; for(int i=0;i<nc;i++) eps.push_back(e>>i&1?-1:1); auto e0=eps; plc_whitten(L,m,eps.data(),pp.data()); mc_trans(); mc_eval(); MC_CHECK(pp==nt&&eps==e0,"plc_whitten changed its arguments"); Curve E; for(int i=0;i<nc;i++){ E.push_back(C[p[i]]); if(e>>i&1) reverse(E[i]); } if(m<0){ auto f=[](V3 v){ v[2]=-v[2]; return v; }; map_all(E,f,f,[](const Cst&c){ return c.b[0]; }); } CHECK_CURVE(L,E,"Whitten element"); mc_state(curve_str(E)); plc_free(L); } } while(std::next_permutation(p.begin(),p.end())); mc_trace(); });
  // many components: transpositions, rotations, reversals of the order and products of cycles
  for(int nc:{5,9,12,24,40}) mc_case(mc_fmt("Whitten elements on %d components",nc),[&]{ Curve C; Cst F,Pl; F.kind=1; F.a=V3{{1,2,3}}; Pl.kind=3; Pl.a=V3{{0,1,2}}; Pl.b=V3{{0.75,0,0}}; for(int c=0;c<nc;c++){ Comp k; int n=3+c%4+(c==nc-2?30:0); k.open=c%2; for(int i=0;i<n;i++) k.v.push_back(V3{{(double)c,i+0.5*c,(double)i*i}}); for(int i=0;i<(c%3==0?0:c%3==1?1:n);i++) k.c.push_back(C4{{0.1*i,0.2*c,1,1}}); k.cst.resize(n); k.cst[0]=k.cst[1]=Pl; k.cst[2]=F; C.push_back(k); }
    std::vector<std::vector<int>> perms; std::vector<int> id(nc); for(int i=0;i<nc;i++) id[i]=i; perms.push_back(id); for(int s=1;s<nc;s+=nc>12?5:1){ auto p=id; for(int i=0;i<nc;i++) p[i]=(i+s)%nc; perms.push_back(p); p=id; std::swap(p[nc-1],p[s-1]); perms.push_back(p); p=id; std::reverse(p.begin(),p.begin()+s+1); perms.push_back(p); p=id; for(int i=s;i<nc-2;i+=3){ p[i]=i+1; p[i+1]=i+2; p[i+2]=i; } perms.push_back(p); }
    for(auto&p:perms){ std::vector<std::vector<int>> ntn(2); { std::vector<char> seen(nc,0); for(int i=0;i<nc;i++) if(!seen[i]){ std::vector<int> c; for(int j=i;!seen[j];j=p[j]){ seen[j]=1; c.push_back(j); } for(int w=0;w<2;w++) if(c.size()>1||w==0||p==id){ for(int x:c) ntn[w].push_back(x); ntn[w].push_back(c[0]); } } for(int w=0;w<2;w++) while((int)ntn[w].size()<2*nc) ntn[w].push_back(w?-1:ntn[w].back()); } for(auto&nt:ntn) for(int e=0;e<6;e++) for(int m=1;m>=-1;m-=2){ plCurve*L=to_plc(C); std::vector<int> eps,pp=nt; for(int i=0;i<nc;i++) eps.push_back(e==0?1:e==1?-1:e==2?(i%2?-1:1):e==3?(i==nc-1?-1:1):e==4?(i==0?-1:1):(i*i%7<3?-1:1)); mc_note("perm %d.. mirror %d eps %d",p[0],m,e); plc_whitten(L,m,eps.data(),pp.data()); mc_trans(); mc_eval(); Curve E; for(int i=0;i<nc;i++){ E.push_back(C[p[i]]); if(eps[i]<0) reverse(E[i]); } if(m<0){ auto f=[](V3 v){ v[2]=-v[2]; return v; }; map_all(E,f,f,[](const Cst&c){ return c.b[0]; }); } CHECK_CURVE(L,E,"Whitten element"); mc_state(curve_str(E)); plc_free(L); } } mc_trace(); });
  // long curves and many components under every rigid operation
  { Cst F,Ln,Pl; F.kind=1; F.a=V3{{1,2,3}}; Ln.kind=2; Ln.a=V3{{1,0,1}}; Ln.b=V3{{0,1,0.5}}; Pl.kind=3; Pl.a=V3{{0,1,2}}; Pl.b=V3{{0.75,0,0}};
    for(int v=0;v<6;v++){ int nc=v<3?1:v==3?2:v==4?25:40; Curve C; for(int c=0;c<nc;c++){ int n=v==0?22:v==1?35:v==2?67:v==3?30:2+c%4; Comp k; k.open=n<3||(v+c)%2; for(int i=0;i<n;i++) k.v.push_back(V3{{cos(0.7*i+c)*(2+0.1*i),sin(0.7*i+c)+0.3*c,sin(0.31*i)+0.05*i}}); for(int i=0;i<((v+c)%3==0?0:(v+c)%3==1?1:n);i++) k.c.push_back(C4{{0.1*i,0.2*c,1,1}}); k.cst.resize(n); k.cst[n-1]=(c+v)%4==0?F:(c+v)%4==1?Ln:(c+v)%4==2?Pl:Cst(); if(n>20) k.cst[n-2]=k.cst[21]=Pl; C.push_back(k); } S.push_back(C);
      auto O=rigid(C,2); for(size_t i=0;i<O.size();i++) mc_case(mc_fmt("large curve %d under %s",v,O[i].name.c_str()),[&]{ plCurve*L=to_plc(C); Curve D=C; O[i].model(D); O[i].real(L); mc_trans(); mc_eval(); CHECK_CURVE_TOL(L,D,1e-8,"large curve, %s",O[i].name.c_str()); mc_state(curve_str(from_plc(L))); plc_free(L); mc_trace(); }); } }
  // pointing an axis up
  mc_case("pointing every axis up",[&]{ std::vector<V3> ax; int n=T?24:12; for(int i=0;i<=n;i++) for(int j=0;j<2*n;j++){ double a=M_PI*i/n,b=M_PI*j/n; ax.push_back(V3{{sin(a)*cos(b),sin(a)*sin(b),cos(a)}}); } for(double e:{1e-3,1e-5,1e-7}) for(int s=-1;s<=1;s+=2){ ax.push_back(V3{{e,0,s*sqrt(1-e*e)}}); ax.push_back(V3{{0,-e,s*sqrt(1-e*e)}}); } ax.push_back(V3{{0,0,1}}); ax.push_back(V3{{0,0,-1}}); ax.push_back(V3{{1,0,0}}); ax.push_back(V3{{0,1,0}});
    for(auto&C:S) for(auto&a:ax){ plCurve*L=to_plc(C); mc_note("axis %s",vstr(a).c_str()); plc_random_rotate(L,pv(a)); mc_trans(); mc_eval(); std::string b=curve_bad(L); MC_CHECK(b.empty(),"plc_random_rotate: %s",b.c_str()); Curve A=from_plc(L); for(size_t c=0;c<C.size();c++) for(size_t i=0;i<C[c].v.size();i++){ double tol=std::hypot(a[0],a[1])<1e-4&&std::hypot(a[0],a[1])>0?1e-6:1e-9; MC_CHECK(std::fabs(A[c].v[i][2]-vdot(a,C[c].v[i]))<tol,"axis %s does not point up: height %.12g of vertex %s instead of %.12g",vstr(a).c_str(),A[c].v[i][2],vstr(C[c].v[i]).c_str(),vdot(a,C[c].v[i])); }
      std::vector<V3> p,q; for(auto&k:A) for(auto&v:k.v) p.push_back(v); for(auto&k:C) for(auto&v:k.v) q.push_back(v); double small=std::hypot(a[0],a[1]); double tol=small<1e-4&&small>0?1e-2:1e-8; for(size_t i=0;i<p.size();i++) for(size_t j=0;j<i;j++) MC_CHECK(std::fabs(vdist(p[i],p[j])-vdist(q[i],q[j]))<tol,"axis %s: a distance changed from %.12g to %.12g",vstr(a).c_str(),vdist(q[i],q[j]),vdist(p[i],p[j])); if(p.size()>=4){ auto det=[](const std::vector<V3>&x){ return vdot(vcross(vadd(x[1],x[0],-1),vadd(x[2],x[0],-1)),vadd(x[3],x[0],-1)); }; MC_CHECK(std::fabs(det(p)-det(q))<(tol>1e-3?1:1e-8),"axis %s: not a rotation (volume %.12g became %.12g)",vstr(a).c_str(),det(q),det(p)); } mc_state(curve_str(A)); plc_free(L); } mc_trace(); });
  // perturbation under enumerated random numbers
  for(size_t s=0;s<S.size();s++) for(double rad:{0.0,0.1,5.0}) mc_case(mc_fmt("perturbing curve %zu by %g",s,rad),[&]{ const int vals[]={0,RAND_MAX/8,RAND_MAX/2,RAND_MAX-1,RAND_MAX}; int len=T?6:4; std::vector<int> d(len,0); std::map<std::pair<size_t,size_t>,int> mv; for(;;){ rscript.clear(); for(int x:d) rscript.push_back(vals[x]); rpos=0; rstate=7; const Curve&C=S[s]; plCurve*L=to_plc(C); plc_perturb(L,rad); mc_trans(); mc_eval(); std::string b=curve_bad(L); MC_CHECK(b.empty(),"plc_perturb: %s",b.c_str()); Curve A=from_plc(L); for(size_t c=0;c<C.size();c++) for(size_t i=0;i<C[c].v.size();i++){ double m=vdist(A[c].v[i],C[c].v[i]); if(C[c].cst[i].kind) MC_CHECK(m==0,"plc_perturb moved a constrained vertex"); else { MC_CHECK(m<=rad+1e-9,"plc_perturb moved vertex %zu:%zu by %.12g, more than %.12g",c,i,m,rad); mc_outcome(m>0?"moved":"stayed"); mv[{c,i}]+=m>0; } A[c].v[i]=C[c].v[i]; } Curve B=from_plc(L); for(size_t c=0;c<C.size();c++) B[c].v=C[c].v; std::string df=curve_diff(B,C); MC_CHECK(df.empty(),"plc_perturb changed more than vertices: %s",df.c_str()); mc_state(mc_fmt("%zu %g %d%d%d%d",s,rad,d[0],d[1],d[2],d[3])); plc_free(L); int i=0; while(i<len&&++d[i]==5) d[i++]=0; if(i==len) break; } rscript.clear(); for(auto&x:mv) MC_CHECK(rad==0||x.second||S[s][x.first.first].v.size()<2,"plc_perturb never moved vertex %zu:%zu",x.first.first,x.first.second); mc_trace(); });
}
