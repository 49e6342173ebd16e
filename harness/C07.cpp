// C07: vector, plane, angle and 3x3 matrix algebra on every small lattice input.
#include "curve.hpp"
#include "rngscript.hpp"
extern "C" {
#include "matrix.h"
}
static bool ok0=true; // value of the caller's ok flag before each call: the answer must not depend on it
static std::vector<int> rscript; static size_t rpos; static unsigned rstate;
extern "C" int rand(void) throw(){ if(rpos<rscript.size()) return rscript[rpos++]; rstate=rstate*1103515245u+12345u; return (int)(rstate>>1)&RAND_MAX; }
static bool eqv(const plc_vector&a,const V3&b,double tol=1e-12){ double s=1; for(double x:b) s=std::max(s,std::fabs(x)); return near3(vv(a),b,tol*s); }
static bool eqd(double a,double b,double tol=1e-12){ return std::fabs(a-b)<=tol*(1+std::fabs(b)); }
#define VCHK(expr,want,name) do{ plc_vector r_=(expr); mc_trans(); MC_CHECK(eqv(r_,want),"%s of %s is %s instead of %s",name,ctx.c_str(),vstr(vv(r_)).c_str(),vstr(want).c_str()); }while(0)
#define DCHK(expr,want,name) do{ double r_=(expr); mc_trans(); MC_CHECK(eqd(r_,want),"%s of %s is %.15g instead of %.15g",name,ctx.c_str(),r_,(double)(want)); }while(0)
static double det3(const V3&a,const V3&b,const V3&c){ return vdot(a,vcross(b,c)); }
static V3 rot(V3 v,V3 ax,double t){ ax=vscale(1/vnorm(ax),ax); V3 c=vcross(ax,v); double d=vdot(ax,v); return vadd(vadd(vscale(cos(t),v),c,sin(t)),ax,d*(1-cos(t))); }
static void pairs(const V3&a,const V3&b){ std::string ctx=vstr(a)+" "+vstr(b); mc_state(ctx); mc_note("%s",ctx.c_str()); plc_vector A=pv(a),B=pv(b),R; mc_eval();
  VCHK(plc_vect_sum(A,B),vadd(a,b),"plc_vect_sum"); VCHK(plc_vect_diff(A,B),vadd(a,b,-1),"plc_vect_diff"); VCHK(plc_cross_prod(A,B),vcross(a,b),"plc_cross_prod"); DCHK(plc_dot_prod(A,B),vdot(a,b),"plc_dot_prod"); DCHK(plc_norm(A),vnorm(a),"plc_norm"); DCHK(plc_distance(A,B),vdist(a,b),"plc_distance"); DCHK(plc_sq_dist(A,B),vdist(a,b)*vdist(a,b),"plc_sq_dist");
  R=A; plc_M_add_vect(R,B); VCHK(R,vadd(a,b),"plc_M_add_vect"); R=A; plc_M_sub_vect(R,B); VCHK(R,vadd(a,b,-1),"plc_M_sub_vect"); plc_M_vect_diff(R,A,B); VCHK(R,vadd(a,b,-1),"plc_M_vect_diff"); plc_M_cross(R,A,B); VCHK(R,vcross(a,b),"plc_M_cross"); DCHK(plc_M_dot(A,B),vdot(a,b),"plc_M_dot"); DCHK(plc_M_norm(A),vnorm(a),"plc_M_norm"); { double d=plc_M_distance(A,B); DCHK(d,vdist(a,b),"plc_M_distance"); d=plc_M_sq_dist(A,B); DCHK(d,vdist(a,b)*vdist(a,b),"plc_M_sq_dist"); }
  for(double s:{0.0,1.0,-0.5,3.0}){ VCHK(plc_scale_vect(s,A),vscale(s,a),"plc_scale_vect"); VCHK(plc_vmadd(A,s,B),vadd(a,b,s),"plc_vmadd"); VCHK(plc_vweighted(s,A,B),vadd(vscale(1-s,a),b,s),"plc_vweighted"); for(double t:{0.0,1.0,-2.0}){ VCHK(plc_vlincomb(s,A,t,B),vadd(vscale(s,a),b,t),"plc_vlincomb"); plc_M_vlincomb(R,s,A,t,B); VCHK(R,vadd(vscale(s,a),b,t),"plc_M_vlincomb"); } R=A; plc_M_scale_vect(s,R); VCHK(R,vscale(s,a),"plc_M_scale_vect"); R=A; plc_M_vmadd(R,s,B); VCHK(R,vadd(a,b,s),"plc_M_vmadd"); plc_M_vweighted(R,s,A,B); VCHK(R,vadd(vscale(1-s,a),b,s),"plc_M_vweighted"); }
  VCHK(plc_component_mult(A,B),(V3{{a[0]*b[0],a[1]*b[1],a[2]*b[2]}}),"plc_component_mult"); bool ok=ok0; plc_vector q=plc_component_div(A,B,&ok); bool dv=b[0]&&b[1]&&b[2]; MC_CHECK(ok==dv,"plc_component_div of %s is %s",ctx.c_str(),ok?"ok":"not ok"); if(dv) VCHK(q,(V3{{a[0]/b[0],a[1]/b[1],a[2]/b[2]}}),"plc_component_div");
  MC_CHECK(plc_vecteq(A,B)==(a==b),"plc_vecteq of %s",ctx.c_str()); MC_CHECK(plc_vecteq(A,A),"plc_vecteq of equal vectors"); bool nok=ok0; plc_vector u=plc_normalize_vect(A,&nok); MC_CHECK(nok==(vnorm(a)>0),"plc_normalize_vect ok of %s",ctx.c_str()); if(nok) VCHK(u,vscale(1/vnorm(a),a),"plc_normalize_vect");
  ok=ok0; double an=plc_angle(A,B,&ok); mc_trans(); bool nz=vnorm(a)>0&&vnorm(b)>0; MC_CHECK(ok==nz,"plc_angle ok of %s",ctx.c_str()); if(nz) DCHK(an,std::atan2(vnorm(vcross(a,b)),vdot(a,b)),"plc_angle");
  for(double t:{0.0,0.3,-M_PI/2,M_PI,5.0}){ if(vnorm(b)>0) VCHK(plc_rotate_vect(A,B,t),rot(a,b,t),"plc_rotate_vect"); else VCHK(plc_rotate_vect(A,B,t),a,"plc_rotate_vect about zero"); }
  VCHK(plc_build_vect(a[0],a[1],a[2]),a,"plc_build_vect"); mc_outcome(nz?"angle":"degenerate pair"); }
static void triples(const V3&a,const V3&b,const V3&c){ std::string ctx=vstr(a)+" "+vstr(b)+" "+vstr(c); mc_state(ctx); mc_note("%s",ctx.c_str()); mc_eval(); V3 n=vcross(vadd(b,a,-1),vadd(c,a,-1)); bool ok=ok0; plc_vector N=plc_normal(pv(a),pv(b),pv(c),&ok); mc_trans(); MC_CHECK(ok==(vnorm(n)>1e-9),"plc_normal ok of %s",ctx.c_str()); if(ok) VCHK(N,vscale(1/vnorm(n),n),"plc_normal");
  double r=-1; ok=ok0; V3 x=a,y=b,z=c; x[2]=y[2]=z[2]=0; plc_vector cc=plc_circumcenter(pv(x),pv(y),pv(z),&r,&ok); mc_trans(); double area=(y[0]-x[0])*(z[1]-x[1])-(z[0]-x[0])*(y[1]-x[1]); MC_CHECK(ok==(std::fabs(area)>1e-9),"plc_circumcenter ok of %s",ctx.c_str()); if(ok){ V3 m=vv(cc); MC_CHECK(eqd(vdist(m,x),r,1e-9)&&eqd(vdist(m,y),r,1e-9)&&eqd(vdist(m,z),r,1e-9)&&m[2]==0,"plc_circumcenter of %s is %s with radius %.12g",ctx.c_str(),vstr(m).c_str(),r); bool ok2=ok0; plc_vector c2=plc_circumcenter(pv(x),pv(y),pv(z),NULL,&ok2); MC_CHECK(ok2&&eqv(c2,m),"plc_circumcenter without a radius"); }
  if(a[2]!=0){ ok=ok0; plc_circumcenter(pv(a),pv(y),pv(z),&r,&ok); MC_CHECK(!ok,"plc_circumcenter outside the plane"); }
  // three planes with normals a,b,c through given points
  V3 p{{1,2,-1}},q{{0,1,0.5}},w{{-2,0,3}}; ok=ok0; plc_vector I=plc_3plane_intersection(pv(a),pv(p),pv(b),pv(q),pv(c),pv(w),&ok); mc_trans(); bool reg=vnorm(a)>0&&vnorm(b)>0&&vnorm(c)>0&&std::fabs(det3(a,b,c))>1e-6*vnorm(a)*vnorm(b)*vnorm(c); MC_CHECK(ok==reg,"plc_3plane_intersection ok of %s",ctx.c_str()); if(reg){ V3 i=vv(I); MC_CHECK(std::fabs(vdot(a,vadd(i,p,-1)))<1e-7&&std::fabs(vdot(b,vadd(i,q,-1)))<1e-7&&std::fabs(vdot(c,vadd(i,w,-1)))<1e-7,"plc_3plane_intersection of %s is %s",ctx.c_str(),vstr(i).c_str()); }
  // matrices
  plc_matrix*M=plc_build_matrix(pv(a),pv(b),pv(c)); mc_trans(); for(int i=0;i<3;i++) MC_CHECK((*M)[0][i]==a[i]&&(*M)[1][i]==b[i]&&(*M)[2][i]==c[i],"plc_build_matrix"); V3 mv{{vdot(a,p),vdot(b,p),vdot(c,p)}}; VCHK(plc_matrix_vector_multiply(M,pv(p)),mv,"plc_matrix_vector_multiply"); plc_matrix*MM=plc_matrix_matrix_multiply(M,M); plc_matrix*CP=plc_matrix_copy(M); V3 col[3]; for(int j=0;j<3;j++) col[j]=V3{{a[j],b[j],c[j]}}; V3 row[3]={a,b,c}; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ MC_CHECK(eqd((*MM)[i][j],vdot(row[i],col[j])),"plc_matrix_matrix_multiply of %s",ctx.c_str()); MC_CHECK((*CP)[i][j]==row[i][j],"plc_matrix_copy"); }
  if(std::fabs(det3(a,b,c))>1e-9){ int ix[3]; double d; bool lok=true; plc_matrix*LU=lu_decmp(M,ix,&d,&lok); mc_trans(); MC_CHECK(LU&&lok,"lu_decmp refused the regular matrix %s",ctx.c_str()); V3 s=vv(solve_linear(LU,ix,pv(w))); MC_CHECK(std::fabs(vdot(a,s)-w[0])<1e-8&&std::fabs(vdot(b,s)-w[1])<1e-8&&std::fabs(vdot(c,s)-w[2])<1e-8,"solve_linear with %s gave %s",ctx.c_str(),vstr(s).c_str()); MC_CHECK(eqd(d*(*LU)[0][0]*(*LU)[1][1]*(*LU)[2][2],det3(a,b,c),1e-9),"lu_decmp of %s has determinant %.12g instead of %.12g",ctx.c_str(),d*(*LU)[0][0]*(*LU)[1][1]*(*LU)[2][2],det3(a,b,c)); free(LU); mc_outcome("regular matrix"); } else mc_outcome("singular matrix"); free(M); free(MM); free(CP); }
static void quads(const V3&a,const V3&b,const V3&c,const V3&d){ std::string ctx=vstr(a)+" "+vstr(b)+" "+vstr(c)+" "+vstr(d); mc_state(ctx); mc_note("%s",ctx.c_str()); mc_eval(); double vol=std::fabs(det3(vadd(a,d,-1),vadd(b,d,-1),vadd(c,d,-1)))/6; auto ar=[](const V3&x,const V3&y,const V3&z){ return vnorm(vcross(vadd(y,x,-1),vadd(z,x,-1)))/2; }; double sf=ar(a,b,c)+ar(a,b,d)+ar(a,c,d)+ar(b,c,d); if(sf>1e-9) DCHK(plc_tetrahedron_inradius(pv(a),pv(b),pv(c),pv(d)),3*vol/sf,"plc_tetrahedron_inradius");
  // dihedral at AC: the angle from the half plane of B to the half plane of D, seen along the axis
  V3 u=vadd(c,a,-1); bool ok=ok0; double g=plc_dihedral_angle(pv(a),pv(b),pv(c),pv(d),&ok); mc_trans(); double g2=plc_dihedral_angle(pv(a),pv(b),pv(c),pv(d),NULL); bool w=ar(a,b,c)>1e-9&&ar(a,c,d)>1e-9; MC_CHECK(ok==w,"plc_dihedral_angle ok of %s",ctx.c_str()); MC_CHECK(g==g2,"plc_dihedral_angle depends on the ok pointer"); if(w){ u=vscale(1/vnorm(u),u); V3 pb=vadd(b,a,-1),pd=vadd(d,a,-1); pb=vadd(pb,u,-vdot(pb,u)); pd=vadd(pd,u,-vdot(pd,u)); double t=std::atan2(vdot(u,vcross(pb,pd)),vdot(pb,pd)); /* signed angle from B to D about AC */ double dd=std::fabs(std::remainder(std::fabs(g)-std::fabs(t),2*M_PI)),ee=std::fabs(std::remainder(g+t,2*M_PI)),ff=std::fabs(std::remainder(g-t,2*M_PI)); (void)dd; MC_CHECK(g>=0&&g<2*M_PI+1e-9,"plc_dihedral_angle of %s is %.12g, outside [0,2 pi)",ctx.c_str(),g); static int orient=0; if(ee>1e-6&&ff>1e-6) mc_fail("plc_dihedral_angle of %s is %.12g, the half planes meet at %.12g",ctx.c_str(),g,t); if((ee>1e-6)!=(ff>1e-6)){ int o=ee<=1e-6?-1:1; if(orient==0) orient=o; MC_CHECK(o==orient&&o==-1,"plc_dihedral_angle of %s is %.12g: wrong orientation (signed angle %.12g)",ctx.c_str(),g,t); } mc_outcome(t>0?"positive dihedral":t<0?"negative dihedral":"flat"); } }
// scaled and thin configurations: lattice points times powers of two, so degenerate is still exactly degenerate
static bool rel3(const V3&a,const V3&b,double tol){ return vdist(a,b)<=tol*(vnorm(b)+1e-300); }
static void scaled(double s,double f,const V3&a0,const V3&b0,const V3&c0,const V3&d0){ auto sc=[&](const V3&v){ return V3{{v[0]*s,v[1]*s,v[2]*s*f}}; }; V3 a=sc(a0),b=sc(b0),c=sc(c0),d=sc(d0); std::string ctx=mc_fmt("%g (x,y,%g z) of ",s,f)+vstr(a0)+" "+vstr(b0)+" "+vstr(c0)+" "+vstr(d0); mc_note("%s",ctx.c_str()); mc_state(ctx); mc_eval(); bool ok;
  { ok=ok0; plc_vector u=plc_normalize_vect(pv(a),&ok); mc_trans(); MC_CHECK(ok==(vnorm(a)>0),"plc_normalize_vect ok at %s",ctx.c_str()); if(ok) MC_CHECK(rel3(vv(u),vscale(1/vnorm(a),a),1e-12),"plc_normalize_vect at %s",ctx.c_str()); V3 t=vscale(1e-12,a0); ok=ok0; u=plc_normalize_vect(pv(t),&ok); MC_CHECK(ok==(vnorm(t)>0),"plc_normalize_vect ok of %s times 1e-12",vstr(a0).c_str()); if(ok) MC_CHECK(rel3(vv(u),vscale(1/vnorm(a0),a0),1e-12),"plc_normalize_vect of %s times 1e-12",vstr(a0).c_str()); }
  { double m=vnorm(a)*vnorm(b); ok=ok0; double g=plc_angle(pv(a),pv(b),&ok); mc_trans(); if(m==0) MC_CHECK(!ok,"plc_angle accepts a zero vector at %s",ctx.c_str()); if(m>1e-11){ double w=std::atan2(vnorm(vcross(a,b)),vdot(a,b)); MC_CHECK(ok&&std::fabs(g-w)<1e-12,"plc_angle at %s is %.15g instead of %.15g",ctx.c_str(),g,w); } }
  V3 n=vcross(vadd(b,a,-1),vadd(c,a,-1)); { ok=ok0; plc_vector N=plc_normal(pv(a),pv(b),pv(c),&ok); mc_trans(); MC_CHECK(ok==(vnorm(n)>0),"plc_normal ok at %s",ctx.c_str()); if(ok) MC_CHECK(rel3(vv(N),vscale(1/vnorm(n),n),1e-9),"plc_normal at %s",ctx.c_str()); }
  { auto fl=[&](const V3&v){ return V3{{v[0],v[1]*f,0}}; }; V3 x=fl(a),y=fl(b),z=fl(c); double ar=(y[0]-x[0])*(z[1]-x[1])-(z[0]-x[0])*(y[1]-x[1]); double r=-1; ok=ok0; plc_vector cc=plc_circumcenter(pv(x),pv(y),pv(z),&r,&ok); mc_trans(); MC_CHECK(ok==(ar!=0),"plc_circumcenter ok at %s is %d",ctx.c_str(),(int)ok); if(ok){ V3 m=vv(cc); double t=1e-6*(std::fabs(r)+vnorm(x)); MC_CHECK(r>0&&std::fabs(vdist(m,x)-r)<t&&std::fabs(vdist(m,y)-r)<t&&std::fabs(vdist(m,z)-r)<t&&m[2]==0,"plc_circumcenter at %s is %s with radius %.12g",ctx.c_str(),vstr(m).c_str(),r); }
    for(int w=0;w<3;w++) for(double e:{1.0,-0x1p-30}){ V3 q[3]={x,y,z}; q[w][2]=e; ok=ok0; plc_circumcenter(pv(q[0]),pv(q[1]),pv(q[2]),&r,&ok); mc_trans(); MC_CHECK(!ok,"plc_circumcenter accepts point %d off the plane by %g at %s",w,e,ctx.c_str()); } }
  { double k=vnorm(a)*vnorm(b)*vnorm(c),dt=det3(a,b,c); V3 p=vscale(s,V3{{1,2,-1}}),q=vscale(s,V3{{0,1,0.5}}),w=vscale(s,V3{{-2,0,3}}); ok=ok0; plc_vector I=plc_3plane_intersection(pv(a),pv(p),pv(b),pv(q),pv(c),pv(w),&ok); mc_trans(); if(k==0||dt==0) MC_CHECK(!ok,"plc_3plane_intersection accepts dependent normals at %s",ctx.c_str()); else if(std::fabs(dt/k)>1e-7){ V3 i=vv(I); double t=1e-8*(vnorm(i)+s); auto off=[&](const V3&N,const V3&P){ return std::fabs(vdot(N,vadd(i,P,-1)))/vnorm(N); }; MC_CHECK(ok&&off(a,p)<t&&off(b,q)<t&&off(c,w)<t,"plc_3plane_intersection at %s: ok %d, %s",ctx.c_str(),(int)ok,vstr(i).c_str()); }
    plc_matrix*M=plc_build_matrix(pv(a),pv(b),pv(c)); if(k>0&&std::fabs(dt/k)>1e-7){ int ix[3]; double D; bool lok=true; plc_matrix*LU=lu_decmp(M,ix,&D,&lok); mc_trans(); MC_CHECK(LU&&lok,"lu_decmp refused the regular matrix at %s",ctx.c_str()); V3 S=vv(solve_linear(LU,ix,pv(w))); double sn=vnorm(S); MC_CHECK(std::fabs(vdot(a,S)-w[0])<=1e-9*(vnorm(a)*sn)&&std::fabs(vdot(b,S)-w[1])<=1e-9*vnorm(b)*sn&&std::fabs(vdot(c,S)-w[2])<=1e-9*vnorm(c)*sn,"solve_linear at %s gave %s",ctx.c_str(),vstr(S).c_str()); double P=D*(*LU)[0][0]*(*LU)[1][1]*(*LU)[2][2]; MC_CHECK(std::fabs(P-dt)<=1e-12*k+1e-6*std::fabs(dt),"lu_decmp at %s has determinant %.12g instead of %.12g",ctx.c_str(),P,dt); free(LU); } free(M); }
  { auto ar=[](const V3&x,const V3&y,const V3&z){ return vnorm(vcross(vadd(y,x,-1),vadd(z,x,-1)))/2; }; double sf=ar(a,b,c)+ar(a,b,d)+ar(a,c,d)+ar(b,c,d),vol=std::fabs(det3(vadd(a,d,-1),vadd(b,d,-1),vadd(c,d,-1)))/6; if(sf>0){ double g=plc_tetrahedron_inradius(pv(a),pv(b),pv(c),pv(d)); mc_trans(); MC_CHECK(std::fabs(g-3*vol/sf)<=1e-9*(3*vol/sf)+1e-15*s,"plc_tetrahedron_inradius at %s is %.15g instead of %.15g",ctx.c_str(),g,3*vol/sf); }
    V3 u=vadd(c,a,-1); bool w=ar(a,b,c)>0&&ar(a,c,d)>0; ok=ok0; double g=plc_dihedral_angle(pv(a),pv(b),pv(c),pv(d),&ok); mc_trans(); if(!w) MC_CHECK(!ok,"plc_dihedral_angle accepts a flat triangle at %s",ctx.c_str()); else { double l=vnorm(u); if(l<1e-7) return; u=vscale(1/l,u); V3 pb=vadd(b,a,-1),pd=vadd(d,a,-1); pb=vadd(pb,u,-vdot(pb,u)); pd=vadd(pd,u,-vdot(pd,u)); double t=std::atan2(vdot(u,vcross(pb,pd)),vdot(pb,pd)); MC_CHECK(ok&&g>=0&&g<2*M_PI+1e-9&&std::fabs(std::remainder(g+t,2*M_PI))<1e-7,"plc_dihedral_angle at %s: ok %d, %.15g instead of %.15g",ctx.c_str(),(int)ok,g,-t); mc_outcome(mc_fmt("scaled dihedral, thin %d",f<1)); } } }
static std::vector<V3> grid(std::vector<double> x,std::vector<double> y,std::vector<double> z){ std::vector<V3> r; for(double a:x) for(double b:y) for(double c:z) r.push_back(V3{{a,b,c}}); return r; }
void mc_main(){ bool T=mc_thorough;
  auto G=mc_deep?grid({-7,-2,-0.5,0,1,3,11},{-1,0,0.25,2,5,-6,8},{-3,0,0.1,1,4,9,-0.7}):T?grid({-2,-0.5,0,1,3},{-1,0,0.25,2,5},{-3,0,0.1,1,4}):grid({-2,0,1,3},{-1,0,0.25,2},{-3,0,0.1,1}); for(size_t i=0;i<G.size();i++) mc_case(mc_fmt("pairs with vector %zu",i),[&]{ for(bool z:{true,false}) for(auto&b:G) ok0=z,pairs(G[i],b); mc_trace(); mc_sample("all pairs with "+vstr(G[i])); });
  auto H=mc_deep?grid({-1,0,2,0.5},{0,1,-3,4},{-2,0,1,7}):T?grid({-1,0,2,0.5},{0,1,-3},{-2,0,1}):grid({-1,0,2},{0,1,-3},{-2,0,1}); for(size_t i=0;i<H.size();i++) mc_case(mc_fmt("triples with vector %zu",i),[&]{ for(bool z:{true,false}) for(auto&b:H) for(auto&c:H) ok0=z,triples(H[i],b,c); mc_trace(); });
  auto Q=grid({0,1,2},mc_deep?std::vector<double>{0,1,5,-2}:std::vector<double>{0,1},T?std::vector<double>{0,1,3}:std::vector<double>{0,1}); for(size_t i=0;i<Q.size();i++) mc_case(mc_fmt("quadruples with vector %zu",i),[&]{ for(bool z:{true,false}) for(auto&b:Q) for(auto&c:Q) for(auto&d:Q) ok0=z,quads(Q[i],b,c,d); mc_trace(); });
  { auto S=grid({0,1,2},{0,1},T?std::vector<double>{0,1,-3}:std::vector<double>{0,1}); std::vector<double> sc={0x1p-13,0x1p-10,0x1p10,0x1p17}; for(double s:sc) for(double f:{1.0,0x1p-10}) for(size_t i=0;i<S.size();i++) mc_case(mc_fmt("scale %g thin %g vector %zu",s,f,i),[&]{ for(bool z:{true,false}) for(auto&b:S) for(auto&c:S) for(auto&d:S) ok0=z,scaled(s,f,S[i],b,c,d); mc_trace(); }); }
  mc_case("distances of angles",[&]{ int N=T?200:60; for(int i=-N;i<=N;i++) for(int j=-N;j<=N;j++){ double a=i*0.37,b=j*0.53; double w=std::fabs(std::remainder(a-b,2*M_PI)); double g=plc_angle_dist(a,b); mc_trans(); mc_eval(); MC_CHECK(std::fabs(g-w)<1e-9,"plc_angle_dist(%g,%g) is %.12g instead of %.12g",a,b,g,w); mc_state(mc_fmt("ad %d %d",i,j)); } mc_trace(); });
  mc_case("rotations and reflections as matrices",[&]{ for(auto&a:G){ if(vnorm(a)==0) continue; plc_matrix A; plc_reflection_matrix(pv(a),&A); for(auto&v:H){ V3 u=vscale(1/vnorm(a),a); std::string ctx=vstr(a)+" on "+vstr(v); VCHK(plc_matrix_vector_multiply(&A,pv(v)),vadd(v,u,-2*vdot(u,v)),"plc_reflection_matrix"); } for(double t:{0.0,0.5,-1.25,M_PI/2,M_PI,4.0}){ plc_rotation_matrix(pv(a),t,&A); for(auto&v:H){ std::string ctx=vstr(a)+" on "+vstr(v); VCHK(plc_matrix_vector_multiply(&A,pv(v)),rot(v,a,t),"plc_rotation_matrix"); } } plc_identity_matrix(&A); for(int i=0;i<3;i++) for(int j=0;j<3;j++) MC_CHECK(A[i][j]==(i==j),"plc_identity_matrix"); mc_state("mat"+vstr(a)); mc_eval(); } mc_trace(); });
  mc_case("random directions under enumerated random numbers",[&]{ int N=T?64:24; for(int i=0;i<=N;i++) for(int j=0;j<=N;j++) for(int k=0;k<3;k++){ rscript.clear(); for(int q=0;q<k;q++){ rscript.push_back(q%2?0:RAND_MAX); rscript.push_back(RAND_MAX); } rscript.push_back((int)((double)RAND_MAX*i/N)); rscript.push_back((int)((double)RAND_MAX*j/N)); rpos=0; rstate=3; plc_vector v=plc_random_vect(); mc_trans(); mc_eval(); MC_CHECK(eqd(vnorm(vv(v)),1,1e-9),"plc_random_vect returned %s",vstr(vv(v)).c_str()); mc_state(vstr(vv(v))); } mc_trace(); });
  mc_case("perturbing a vector under enumerated random numbers",[&]{ int N=T?20:10; for(int i=0;i<=N;i++) for(int j=0;j<=N;j++) for(int k=0;k<=N;k++) for(double rad:{0.0,0.5,3.0}){ gsl_rng*r=rs_new({i/(N+0.0),j/(N+0.0),k/(N+0.0)},5); plc_vector v=plc_build_vect(1,-2,0.5); plc_perturb_vect(r,&v,rad); mc_trans(); mc_eval(); V3 d=vadd(vv(v),V3{{1,-2,0.5}},-1); MC_CHECK(vnorm(d)<=rad+1e-9,"plc_perturb_vect moved by %.12g with radius %g",vnorm(d),rad); V3 x{{2.0*i/N-1,2.0*j/N-1,2.0*k/N-1}}; if(vnorm(x)<0.999) MC_CHECK(near3(d,vscale(rad,x),1e-6*(1+rad)),"plc_perturb_vect: unexpected displacement %s",vstr(d).c_str()); gsl_rng_free(r); mc_state(mc_fmt("pv %d %d %d",i,j,k)); } mc_trace(); });
}
