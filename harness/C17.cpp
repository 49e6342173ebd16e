// C17: polygonal curves in any dimension (libnplCurve): vectors, curves, counts, lengths and the n-dimensional VECT format.
#include "mc.h"
extern "C" {
#include "nplCurve.h"
}
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <functional>
#include <set>
typedef std::vector<double> V; struct Cp{ bool open; std::vector<V> v; std::vector<std::array<double,4>> c; }; typedef std::vector<Cp> NC;
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static size_t used(){ return __sanitizer_get_current_allocated_bytes(); }
static nplc_vector mk(const V&a){ nplc_vector r=nplc_vect_new(a.size()); for(size_t i=0;i<a.size();i++) r.c[i]=a[i]; return r; }
static V un(nplc_vector a){ return V(a.c,a.c+a.n); }
static V take(nplc_vector a){ V r=un(a); nplc_vect_free(&a); MC_CHECK(a.c==NULL&&a.n==0,"nplc_vect_free left the vector allocated"); return r; }
static std::string vs(const V&a){ std::string s; for(double x:a) s+=mc_fmt("%.17g ",x); return s; }
static nplCurve*build(const NC&C,int dim,bool wrap=true){ std::vector<int> nv,cc; bool op[64]; for(size_t i=0;i<C.size();i++){ nv.push_back(C[i].v.size()); cc.push_back(C[i].c.size()); op[i]=C[i].open; }
  nplCurve*L=nplc_new(dim,C.size(),nv.data(),op,cc.data()); for(size_t i=0;i<C.size();i++){ for(size_t j=0;j<C[i].v.size();j++) for(int k=0;k<dim;k++) L->cp[i].vt[j].c[k]=C[i].v[j][k]; for(size_t j=0;j<C[i].c.size();j++){ L->cp[i].clr[j].r=C[i].c[j][0]; L->cp[i].clr[j].g=C[i].c[j][1]; L->cp[i].clr[j].b=C[i].c[j][2]; L->cp[i].clr[j].alpha=C[i].c[j][3]; } }
  if(wrap) nplc_fix_wrap(L); return L; }
static NC read(nplCurve*L,int dim){ NC C(L->nc); for(int i=0;i<L->nc;i++){ C[i].open=L->cp[i].open; for(int j=0;j<L->cp[i].nv;j++){ MC_CHECK(L->cp[i].vt[j].n==dim,"vertex %d:%d has dimension %d instead of %d",i,j,L->cp[i].vt[j].n,dim); C[i].v.push_back(un(L->cp[i].vt[j])); } for(int j=0;j<L->cp[i].cc;j++) C[i].c.push_back({L->cp[i].clr[j].r,L->cp[i].clr[j].g,L->cp[i].clr[j].b,L->cp[i].clr[j].alpha}); } return C; }
static std::string str(const NC&C){ std::string s; for(auto&k:C){ s+=k.open?"open[":"closed["; for(auto&v:k.v) s+="("+vs(v)+")"; for(auto&c:k.c) s+=mc_fmt("{%.17g %.17g %.17g %.17g}",c[0],c[1],c[2],c[3]); s+="] "; } return s; }
static bool beq(double a,double b){ return a==b||(std::isnan(a)&&std::isnan(b)); }
static bool same(const NC&A,const NC&B){ if(A.size()!=B.size()) return false; for(size_t i=0;i<A.size();i++){ if(A[i].open!=B[i].open||A[i].v!=B[i].v||A[i].c!=B[i].c) return false; } return true; }
static bool near(double a,double b,double t){ return a==b||(t>=1e-14&&std::fabs(a-b)<1e-140)||std::fabs(a-b)<=t*std::max(std::fabs(a),std::fabs(b)); }
static bool close(const NC&A,const NC&B,double t){ if(A.size()!=B.size()) return false; for(size_t i=0;i<A.size();i++){ if(A[i].open!=B[i].open||A[i].v.size()!=B[i].v.size()||A[i].c.size()!=B[i].c.size()) return false; for(size_t j=0;j<A[i].v.size();j++){ if(A[i].v[j].size()!=B[i].v[j].size()) return false; for(size_t k=0;k<A[i].v[j].size();k++) if(!near(A[i].v[j][k],B[i].v[j][k],t)) return false; } for(size_t j=0;j<A[i].c.size();j++) for(int k=0;k<4;k++) if(!near(A[i].c[j][k],B[i].c[j][k],t)) return false; } return true; }
static NC norm(NC C){ for(auto&k:C) if(k.v.size()<3) k.open=true; return C; }      // a component of fewer than three vertices is open
static void wraps(nplCurve*L,const char*what){ for(int i=0;i<L->nc;i++){ int nv=L->cp[i].nv; if(nv<2) continue; V a=un(L->cp[i].vt[-1]),b=un(L->cp[i].vt[nv]); V wa=un(L->cp[i].vt[L->cp[i].open?1:nv-1]),wb=un(L->cp[i].vt[L->cp[i].open?nv-2:0]); auto ve=[](const V&x,const V&y){ if(x.size()!=y.size()) return false; for(size_t k=0;k<x.size();k++) if(!beq(x[k],y[k])) return false; return true; }; MC_CHECK(ve(a,wa)&&ve(b,wb),"%s: the wraparound vertices of component %d are wrong (%s / %s)",what,i,vs(a).c_str(),vs(b).c_str()); } }
static double dist(const V&a,const V&b){ long double s=0; for(size_t i=0;i<a.size();i++) s+=((long double)a[i]-b[i])*((long double)a[i]-b[i]); return sqrtl(s); }
#define CHK(L,W,what) do{ NC _g=read(L,dim); MC_CHECK(same(_g,W),"%s: the curve is %s instead of %s",what,str(_g).c_str(),str(W).c_str()); }while(0)
static nplCurve*reread(const std::string&text,int*err,char*es,size_t n){ FILE*f=fmemopen((void*)text.data(),text.size()?text.size():1,"r"); if(!text.size()) fgetc(f); *err=-7; es[0]='x'; nplCurve*L=nplc_read(f,err,es,n); fclose(f); return L; }
static std::string wr(nplCurve*L){ char*p=0; size_t n=0; FILE*f=open_memstream(&p,&n); nplc_write(f,L); fclose(f); std::string s(p,n); free(p); return s; }
static void curve(const NC&C0,int dim){
  NC C=norm(C0); mc_note("curve in dimension %d: %s",dim,str(C0).c_str()); mc_state(mc_fmt("%d ",dim)+str(C0)); mc_trace(); size_t u0=used(); { nplCurve*L=build(C0,dim);
  CHK(L,C,"nplc_new and nplc_fix_wrap"); wraps(L,"nplc_fix_wrap"); MC_CHECK(nplc_dim(L)==dim,"nplc_dim is %d instead of %d",nplc_dim(L),dim);
  // counts and lengths
  int ne=0,nv=0; std::vector<int> es; std::vector<double> ls; double tot=0; for(auto&k:C){ int e=k.v.size()-(k.open?1:0); es.push_back(e); ne+=e; nv+=k.v.size(); double l=0; for(int i=0;i<e;i++) l+=dist(k.v[i],k.v[(i+1)%k.v.size()]); ls.push_back(l); tot+=l; }
  std::vector<int> ge(C.size(),-1); std::vector<double> gl(C.size(),-1); MC_CHECK(nplc_num_edges(L)==ne&&nplc_edges(L,NULL)==ne&&nplc_edges(L,ge.data())==ne&&ge==es,"wrong edge counts (%d instead of %d)",nplc_num_edges(L),ne); MC_CHECK(nplc_num_verts(L)==nv,"nplc_num_verts is %d instead of %d",nplc_num_verts(L),nv);
  double a=nplc_arclength(L,NULL),b=nplc_arclength(L,gl.data()); MC_CHECK(near(a,tot,1e-12)&&near(b,tot,1e-12),"nplc_arclength is %.17g instead of %.17g",a,tot); for(size_t i=0;i<C.size();i++) MC_CHECK(near(gl[i],ls[i],1e-12),"the length of component %zu is %.17g instead of %.17g",i,gl[i],ls[i]); mc_trans(6);
  for(size_t c=0;c<C.size();c++) for(size_t p=0;p<C[c].v.size();p++) for(size_t q=0;q<C[c].v.size();q++){ auto&k=C[c]; size_t lo=std::min(p,q),hi=std::max(p,q); double l=0; for(size_t i=lo;i<hi;i++) l+=dist(k.v[i],k.v[i+1]); if(!k.open){ double o=0; for(size_t i=hi;i<lo+k.v.size();i++) o+=dist(k.v[i%k.v.size()],k.v[(i+1)%k.v.size()]); l=std::min(l,o); } double g=nplc_subarc_length(L,c,p,q); mc_trans(); MC_CHECK(near(g,l,1e-12),"nplc_subarc_length(%zu,%zu,%zu) is %.17g instead of %.17g",c,p,q,g,l); }
  CHK(L,C,"after the measurements");
  // copy, component, reverse
  nplCurve*K=nplc_copy(L); CHK(K,C,"nplc_copy"); wraps(K,"nplc_copy"); for(int i=0;i<K->nc;i++){ MC_CHECK(K->cp[i].vt!=L->cp[i].vt&&K->cp[i].vt[0].c!=L->cp[i].vt[0].c,"nplc_copy shares its vertices"); for(int j=0;j<K->cp[i].nv;j++) K->cp[i].vt[j].c[dim-1]+=1; for(int j=0;j<K->cp[i].cc;j++) K->cp[i].clr[j].r+=1; } CHK(L,C,"after changing a copy"); nplc_free(K); CHK(L,C,"after freeing a copy"); mc_trans(2);
  for(size_t c=0;c<C.size();c++){ K=nplc_component(c,L); NC w{C[c]}; CHK(K,w,"nplc_component"); wraps(K,"nplc_component"); MC_CHECK(near(nplc_arclength(K,NULL),ls[c],1e-12),"the component taken out has length %.17g instead of %.17g",nplc_arclength(K,NULL),ls[c]); K->cp[0].vt[0].c[0]+=3; CHK(L,C,"after changing an extracted component"); nplc_free(K); mc_trans(2); }
  K=nplc_copy(L); nplc_reverse(K); NC R=C; for(auto&k:R) std::reverse(k.v.begin(),k.v.end()); { NC g=read(K,dim); for(size_t i=0;i<g.size()&&i<R.size();i++) R[i].c=g[i].c; MC_CHECK(same(g,R),"nplc_reverse gave %s",str(g).c_str()); } wraps(K,"nplc_reverse"); MC_CHECK(near(nplc_arclength(K,NULL),tot,1e-12),"reversing changed the length"); nplc_reverse(K); { NC g=read(K,dim); for(size_t i=0;i<g.size();i++) g[i].c=C[i].c; MC_CHECK(same(g,C),"reversing twice changed the curve"); } nplc_free(K); mc_trans(3);
  // file format
  std::string t=wr(L); CHK(L,C,"after nplc_write"); int err; char es2[200]; K=reread(t,&err,es2,sizeof es2); MC_CHECK(K&&err==0&&!es2[0],"nplc_read refused the output of nplc_write (error %d: %.150s):\n%.1500s",err,es2,t.c_str()); NC G=read(K,dim); MC_CHECK(close(G,C,1e-15),"writing and reading gave %s instead of %s",str(G).c_str(),str(C).c_str()); wraps(K,"nplc_read"); MC_CHECK(K->cst==NULL,"reading invented constraints"); std::string t2=wr(K); MC_CHECK(close(read(K,dim),G,0),"nplc_write changed the curve"); nplCurve*K2=reread(t2,&err,es2,sizeof es2); MC_CHECK(K2&&close(read(K2,dim),G,1e-15),"a second round trip changed the curve"); nplc_free(K); nplc_free(K2); mc_trans(4); mc_eval(4);
  nplc_free(L); } MC_CHECK(used()<=u0,"the curve functions leaked %zu bytes",used()-u0); mc_outcome(mc_fmt("dim %d, %zu components",dim,C.size())); }
// vectors
static void vectors(int dim,const std::vector<double>&al){
  std::vector<V> all; std::vector<int> d(dim,0); for(;;){ V v; for(int i:d) v.push_back(al[i]); all.push_back(v); int i=0; while(i<dim&&++d[i]==(int)al.size()) d[i++]=0; if(i==dim) break; }
  static const double ss[]={0,1,-1,2,0.5,-3.25,1e8}; for(auto&A:all) mc_state(vs(A)); size_t u0=used();
  for(auto&A:all){ nplc_vector a=mk(A); mc_note("A = %s",vs(A).c_str()); long double q=0; for(double x:A) q+=(long double)x*x; double n=sqrtl(q); MC_CHECK(near(nplc_norm(a),n,1e-14),"the norm is %.17g instead of %.17g",nplc_norm(a),n); mc_trans();
    for(double s:ss){ V r=take(nplc_scale_vect(s,a)); for(int i=0;i<dim;i++) MC_CHECK(r[i]==s*A[i],"scaling by %g gave %s",s,vs(r).c_str()); mc_trans(); }
    bool ok; for(int k=0;k<2;k++){ ok=k; V r=take(nplc_normalize_vect(a,&ok)); mc_trans(); MC_CHECK(ok==(n>=DBL_EPSILON),"nplc_normalize_vect said ok=%d for norm %g",ok,n); if(ok) for(int i=0;i<dim;i++) MC_CHECK(near(r[i],A[i]/n,1e-13),"normalizing gave %s",vs(r).c_str()); }
    if(n>=DBL_EPSILON) take(nplc_normalize_vect(a,NULL));
    std::string p=nplc_vect_print(a),w="("; for(int i=0;i<dim;i++) w+=mc_fmt("%s%g",i?",":"",A[i]); w+=")"; MC_CHECK(p==w,"nplc_vect_print gave %s instead of %s",p.c_str(),w.c_str()); std::string c=nplc_vect_clist(a); const char*z=c.c_str(); for(int i=0;i<dim;i++){ char*e; double x=strtod(z,&e); MC_CHECK(e!=z&&near(x,A[i],1e-15),"nplc_vect_clist gave %s",c.c_str()); z=e; } MC_CHECK(strspn(z," ")==strlen(z),"nplc_vect_clist gave more than the coordinates: %s",c.c_str()); mc_trans(2);
    for(auto&B:all){ nplc_vector b=mk(B); auto is=[&](const char*what,nplc_vector g,std::function<double(int)> f,double t){ MC_CHECK(g.n==dim&&g.c!=a.c&&g.c!=b.c,"%s did not return a new vector of dimension %d",what,dim); V r=take(g); for(int i=0;i<dim;i++){ double x=f(i); MC_CHECK(near(r[i],x,1e-15)||std::fabs(r[i]-x)<=t,"%s of %s and %s gave %s (coordinate %d should be %.17g)",what,vs(A).c_str(),vs(B).c_str(),vs(r).c_str(),i,x); } MC_CHECK(un(a)==A&&un(b)==B,"%s changed its arguments",what); mc_trans(); };
      is("nplc_vect_sum",nplc_vect_sum(a,b),[&](int i){ return A[i]+B[i]; },0); is("nplc_vect_diff",nplc_vect_diff(a,b),[&](int i){ return A[i]-B[i]; },0); is("nplc_component_mult",nplc_component_mult(a,b),[&](int i){ return A[i]*B[i]; },0);
      bool can=true; for(double x:B) if(std::fabs(x)<DBL_EPSILON) can=false; for(int k=0;k<2;k++){ ok=k; nplc_vector g=nplc_component_div(a,b,&ok); MC_CHECK(ok==can,"nplc_component_div said ok=%d for divisor %s",ok,vs(B).c_str()); if(can) is("nplc_component_div",g,[&](int i){ return A[i]/B[i]; },0); else nplc_vect_free(&g); }
      for(double s:ss){ double m=1; for(int i=0;i<dim;i++) m=std::max(m,std::max(std::fabs(A[i]),std::fabs(B[i]))); double t=1e-15*(1+std::fabs(s))*m*4; is("nplc_vmadd",nplc_vmadd(a,s,b),[&](int i){ return A[i]+s*B[i]; },t); is("nplc_vweighted",nplc_vweighted(s,a,b),[&](int i){ return (1-s)*A[i]+s*B[i]; },t); for(double q:{-1.0,0.0,0.25,2.0}) is("nplc_vlincomb",nplc_vlincomb(q,a,s,b),[&](int i){ return q*A[i]+s*B[i]; },4*t); }
      long double dt=0,mag=0; for(int i=0;i<dim;i++){ dt+=(long double)A[i]*B[i]; mag+=fabsl((long double)A[i]*B[i]); } MC_CHECK(std::fabs(nplc_dot_prod(a,b)-(double)dt)<=1e-15*8*(double)mag,"the dot product is %.17g instead of %.17g",nplc_dot_prod(a,b),(double)dt); double ds=dist(A,B); MC_CHECK(near(nplc_distance(a,b),ds,1e-14),"nplc_distance is %.17g instead of %.17g (%s / %s)",nplc_distance(a,b),ds,vs(A).c_str(),vs(B).c_str()); MC_CHECK(near(nplc_sq_dist(a,b),ds*ds,1e-13),"nplc_sq_dist is %.17g instead of %.17g (%s / %s)",nplc_sq_dist(a,b),ds*ds,vs(A).c_str(),vs(B).c_str());
      bool eq=true,neq=false; for(int i=0;i<dim;i++){ double e=std::fabs(A[i]-B[i]); if(e>0) eq=false; if(e>1e-15) neq=true; } bool g=nplc_vecteq(a,b); MC_CHECK(!(eq&&!g)&&!(neq&&g),"nplc_vecteq said %d for %s and %s",g,vs(A).c_str(),vs(B).c_str());
      double nb=nplc_norm(b); ok=false; double an=nplc_angle(a,b,&ok); if(n*nb>1e-6){ MC_CHECK(ok,"nplc_angle refused %s and %s",vs(A).c_str(),vs(B).c_str()); // tan(angle/2) = |u-v| / |u+v| for the unit vectors
          long double x=0,y=0; for(int i=0;i<dim;i++){ long double u=(long double)A[i]/n,v=(long double)B[i]/nb; x+=(u-v)*(u-v); y+=(u+v)*(u+v); } double wn=2*atan2l(sqrtl(x),sqrtl(y)); MC_CHECK(std::fabs(an-wn)<=1e-7,"the angle of %s and %s is %.17g instead of %.17g",vs(A).c_str(),vs(B).c_str(),an,wn); } else if(n==0||nb==0) MC_CHECK(!ok,"nplc_angle accepted a zero vector");
      nplc_vector to=mk(V(dim,7)); nplc_vect_copy(to,a); MC_CHECK(un(to)==A&&to.c!=a.c,"nplc_vect_copy gave %s",vs(un(to)).c_str()); nplc_vect_free(&to); mc_trans(6); nplc_vect_free(&b); mc_eval(); }
    nplc_vect_free(&a); mc_trace(); }
  nplc_vector*buf=nplc_vect_buf_new(dim,5); { std::set<double*> ps; for(int i=0;i<5;i++){ MC_CHECK(buf[i].n==dim,"a buffered vector has dimension %d",buf[i].n); for(int k=0;k<dim;k++){ MC_CHECK(buf[i].c[k]==0,"a new vector is not zero"); buf[i].c[k]=i; } ps.insert(buf[i].c); } MC_CHECK(ps.size()==5,"buffered vectors share memory"); } nplc_vect_buf_free(5,buf);
  nplc_vector f=dim==1?nplc_build_vect(1,1.5):dim==2?nplc_build_vect(2,1.5,2.5):dim==3?nplc_build_vect(3,1.5,2.5,3.5):dim==4?nplc_build_vect(4,1.5,2.5,3.5,4.5):nplc_build_vect(5,1.5,2.5,3.5,4.5,5.5); MC_CHECK(f.n==std::min(dim,5),"nplc_build_vect gave dimension %d",f.n); for(int i=0;i<f.n;i++) MC_CHECK(f.c[i]==1.5+i,"nplc_build_vect gave %s",vs(un(f)).c_str()); nplc_vect_free(&f);
  for(int k=0;k<50;k++){ V r=take(nplc_random_vect(dim)); double n=0; for(double x:r) n+=x*x; MC_CHECK((int)r.size()==dim&&std::fabs(n-1)<1e-12,"nplc_random_vect gave %s",vs(r).c_str()); mc_trans(); }
  MC_CHECK(used()<=u0+64,"the vector functions leaked %zu bytes",used()-u0); mc_outcome(mc_fmt("dim %d, %zu vectors",dim,all.size())); }
static const double W[]={0,1,-1,0.5,-2.25,3,1.0/3,-1e-7,12345.678901234567,1e10,-1234567890.0987654,1e-300,-2.2204460492503131e-16,6.02214076e23,M_PI,-987654321.12345678};
static V vt(int dim,int seed){ V v; for(int k=0;k<dim;k++) v.push_back(W[(seed*7+k*(3+seed%5)+k*k)%16]); return v; }
// all damaged versions of a file must be refused with an error, or give a proper curve of the announced shape
static int fate(const std::string&t,const std::string&what){ mc_note("%s:\n%.1500s",what.c_str(),t.c_str()); int err; char es[300]; nplCurve*L=reread(t,&err,es,sizeof es); mc_trans(); if(!L){ MC_CHECK(err>0&&es[0]&&strlen(es)<sizeof es,"nplc_read refused a file without setting the error (%d, '%.50s')",err,es); char e1[1]={'q'}; MC_CHECK(!reread(t,&err,e1,1)&&!e1[0],"nplc_read overran a one-byte error string"); return err; } MC_CHECK(err==0,"nplc_read returned a curve and error %d",err); MC_CHECK(L->nc>=1,"no components"); int dim=nplc_dim(L); NC g=read(L,dim); for(auto&k:g){ MC_CHECK(k.v.size()>=1,"a component has no vertices"); for(auto&v:k.v) for(double x:v) mc_counters["coordinates read"]+=std::isfinite(x); } wraps(L,"nplc_read"); (void)nplc_arclength(L,NULL); nplCurve*K=nplc_copy(L); nplc_free(K); nplc_free(L); return 0; }
static void damaged(const NC&C,int dim){ nplCurve*L=build(C,dim); std::string t=wr(L); nplc_free(L); mc_state(t); MC_CHECK(fate(t,"undamaged")==0,"the undamaged file was refused"); auto tok=[&](const std::string&s){ std::vector<std::pair<size_t,size_t>> r; size_t i=0; bool com=false; while(i<s.size()){ if(s[i]=='#') com=true; if(s[i]=='\n') com=false; if(com||isspace(s[i])){ i++; continue; } size_t j=i; while(j<s.size()&&!isspace(s[j])) j++; r.push_back({i,j-i}); i=j; } return r; };
  auto T=tok(t); auto last=T.back(); size_t data=last.first+last.second; auto kinds=std::map<int,int>(); // every truncation that removes a number must be refused
  for(size_t n=0;n<t.size();n++){ int e=fate(t.substr(0,n),mc_fmt("truncated to %zu characters",n)); kinds[e]++; if(n<=last.first) MC_CHECK(e!=0,"a file cut off after %zu of %zu characters was accepted",n,t.size()); mc_trace(); } (void)data;
  for(size_t k=0;k<T.size();k++) for(const char*r:{"x","","-","0","-1","1","2","-3","5",".","VECT","#","nan","1e400","1e","+","4VECT","0VECT","-2VECT","VEC"}){ std::string s=t; s.replace(T[k].first,T[k].second,r); int e=fate(s,mc_fmt("item %zu replaced by '%s'",k,r)); kinds[e]++; mc_trace(); std::string R=r; bool num=R=="0"||R=="-1"||R=="1"||R=="2"||R=="-3"||R=="5"||R=="nan"||R=="1e400"; if(k==0&&R!="VECT"&&R!="4VECT") MC_CHECK(e!=0,"a file starting with '%s' was accepted",r); if(k==1&&(R=="0"||R=="-1"||R=="-3")) MC_CHECK(e!=0,"a file with %s components was accepted",r); if(k>=4&&k<4+C.size()&&R=="0") MC_CHECK(e!=0,"a component with no vertices was accepted"); if(k>=4+C.size()&&k<4+2*C.size()&&(R=="-1"||R=="-3")) MC_CHECK(e!=0,"a component with %s colors was accepted",r); if(k>0&&!num&&R!=""&&R!="#"&&R!="1e"&&R!="4VECT"&&R!="0VECT"&&R!="-2VECT"&&R!="+"&&R!="-") MC_CHECK(e!=0,"a file with '%s' in place of a number was accepted",r); if(R==""||R=="#") { if(k>=4+2*C.size()) MC_CHECK(e!=0||R=="#","a file lacking item %zu was accepted",k); } }
  for(auto&p:kinds) mc_outcome(mc_fmt("damaged files, error %d",p.first)); }
void mc_main(){
  bool T=mc_thorough;
  // layouts: up to three components of up to four vertices, open and closed, with no, one or all colors
  std::vector<std::vector<int>> lay; int M=T?5:4; for(int a=1;a<=M+3;a++) lay.push_back({a}); for(int a=1;a<=M;a++) for(int b=1;b<=M;b++) lay.push_back({a,b}); for(int a=1;a<=M-1;a++) for(int b=1;b<=M-1;b++) for(int c=1;c<=M-1;c++) lay.push_back({a,b,c});
  std::vector<int> dims={1,2,3,4,5,6,8,12}; if(T){ dims.push_back(7); dims.push_back(17); dims.push_back(40); dims.push_back(200); }
  for(int dim:dims) for(auto&l:lay) mc_case_lazy([&]{ std::string s=mc_fmt("curves in dimension %d with components of",dim); for(int n:l) s+=mc_fmt(" %d",n); return s; },[&]{ int nc=l.size(); for(int op=0;op<(1<<nc);op++) for(int cc=0;cc<3;cc++) for(int seed=0;seed<(T?12:5);seed++){ NC C(nc); int q=seed*11+op; for(int i=0;i<nc;i++){ C[i].open=(op>>i)&1; for(int j=0;j<l[i];j++) C[i].v.push_back(vt(dim,q++)); int m=((cc+i)%3==0)?0:((cc+i)%3==1)?1:l[i]; for(int j=0;j<m;j++) C[i].c.push_back({W[(q+j)%16],W[(q+j*3+1)%16],W[(q+5)%16],W[(j+3)%16]}); } curve(C,dim); } mc_sample(mc_fmt("dimension %d, %d components",dim,nc)); });
  // every polygon on a small grid
  for(int dim:{1,2,3}) for(int open=0;open<2;open++) mc_case(mc_fmt("all grid polygons in dimension %d, %s",dim,open?"open":"closed"),[&]{ int G=dim==1?5:dim==2?3:2; int P=1; for(int k=0;k<dim;k++) P*=G; int n=T?4:3; long N=1; for(int i=0;i<n;i++) N*=P; for(long x=0;x<N;x++){ NC C(1); C[0].open=open; long y=x; for(int i=0;i<n;i++,y/=P){ int z=y%P; V v; for(int k=0;k<dim;k++,z/=G) v.push_back(z%G-0.5); C[0].v.push_back(v); } curve(C,dim); } });
  for(int dim=1;dim<=(T?6:5);dim++){ std::vector<double> al=dim==1?std::vector<double>(W,W+16):dim==2?std::vector<double>{0,1,-1,0.5,-2.25,1.0/3,1e5}:dim==3?std::vector<double>{0,1,-1,0.3,1e4}:dim==4?std::vector<double>{0,1,-2.5}:std::vector<double>{1,-0.5}; mc_case(mc_fmt("vectors of dimension %d",dim),[&]{ vectors(dim,al); }); if(dim>=3) mc_case(mc_fmt("vectors of dimension %d, second alphabet",dim),[&]{ vectors(dim,dim==3?std::vector<double>{-3,0.125,7}:std::vector<double>{0,M_PI}); }); }
  for(int dim:{1,2,3,4,6}) for(int k=0;k<(T?6:3);k++) mc_case(mc_fmt("damaged files, dimension %d, curve %d",dim,k),[&]{ NC C(1+k%2+(k>3)); int q=k; for(size_t i=0;i<C.size();i++){ C[i].open=(k+i)%2; for(int j=0;j<3+((int)i+k)%2;j++) C[i].v.push_back(vt(dim,q++)); for(int j=0;j<(int)((i+k)%3);j++) C[i].c.push_back({0.25,1,0.5,1}); } damaged(C,dim); });
  // many components, with and without colors
  for(int dim:{2,3,5}) for(int nc:{9,21,26,40}) mc_case(mc_fmt("%d components in dimension %d",nc,dim),[&]{ for(int cc=0;cc<3;cc++) for(int w=0;w<2;w++){ NC C(nc); int q=w; for(int i=0;i<nc;i++){ C[i].open=(i*5+w)%3==0; int n=w?(i==nc-2?24:1+i%4):3+i%2; for(int j=0;j<n;j++) C[i].v.push_back(vt(dim,q++)); int m=((cc+i)%3==0)?0:((cc+i)%3==1)?1:n; for(int j=0;j<m;j++) C[i].c.push_back({W[(q+j)%16],W[(q+j*3+1)%16],W[(q+5)%16],W[(j+3)%16]}); } curve(C,dim); } mc_sample(mc_fmt("%d components in dimension %d",nc,dim)); });
  // long curves, and several curves in one file
  for(int dim:{2,3,7}) mc_case(mc_fmt("long curve in dimension %d",dim),[&]{ NC C(2); C[0].open=true; C[1].open=false; for(int j=0;j<(T?200:60);j++){ C[0].v.push_back(vt(dim,j)); C[1].v.push_back(vt(dim,3*j+1)); } curve(C,dim); });
  for(int d1:{1,2,3,4,5}) for(int d2:{1,2,3,4,5}) mc_case(mc_fmt("two curves in one file, dimensions %d and %d",d1,d2),[&]{ NC A(1),B(2); A[0].open=false; B[0].open=true; B[1].open=false; for(int j=0;j<4;j++){ A[0].v.push_back(vt(d1,j)); B[0].v.push_back(vt(d2,j+5)); B[1].v.push_back(vt(d2,2*j+1)); } nplCurve*P=build(A,d1),*Q=build(B,d2); std::string t=wr(P)+wr(Q); FILE*f=fmemopen((void*)t.data(),t.size(),"r"); int e; char es[100]; nplCurve*X=nplc_read(f,&e,es,100); MC_CHECK(X&&e==0,"the first of two curves was refused"); MC_CHECK(close(read(X,d1),A,1e-15),"the first of two curves was misread"); nplCurve*Y=nplc_read(f,&e,es,100); MC_CHECK(Y&&e==0,"the second of two curves was refused (%d)",e); MC_CHECK(close(read(Y,d2),B,1e-15),"the second of two curves was misread: %s",str(read(Y,nplc_dim(Y))).c_str()); fclose(f); nplc_free(P); nplc_free(Q); nplc_free(X); nplc_free(Y); mc_state(t); mc_trace(); mc_trans(2); mc_eval(2); });
}
