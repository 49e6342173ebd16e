// C09: symmetries and symmetry groups of curves against exact group actions; histories of operations on curves carrying a group.
#include "curve.hpp"
typedef std::array<std::array<double,3>,3> M3;
typedef std::pair<int,int> Loc;
typedef std::vector<std::vector<Loc>> Map;
static M3 mI(){ M3 m; for(int i=0;i<3;i++) for(int j=0;j<3;j++) m[i][j]=i==j; return m; }
static V3 mv(const M3&m,const V3&v){ V3 r; for(int i=0;i<3;i++) r[i]=m[i][0]*v[0]+m[i][1]*v[1]+m[i][2]*v[2]; return r; }
static M3 mm(const M3&a,const M3&b){ M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r[i][j]=a[i][0]*b[0][j]+a[i][1]*b[1][j]+a[i][2]*b[2][j]; return r; }
static M3 mT(const M3&a){ M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r[i][j]=a[j][i]; return r; }
static V3 rotv(V3 v,V3 ax,double t){ ax=vscale(1/vnorm(ax),ax); V3 c=vcross(ax,v); double d=vdot(ax,v); return vadd(vadd(vscale(cos(t),v),c,sin(t)),ax,d*(1-cos(t))); }
static M3 cols(std::function<V3(V3)> f){ M3 m; for(int j=0;j<3;j++){ V3 e{{0,0,0}}; e[j]=1; V3 c=f(e); for(int i=0;i<3;i++) m[i][j]=c[i]; } return m; }
static M3 mrot(V3 ax,double t){ return cols([&](V3 v){ return rotv(v,ax,t); }); }
static M3 mref(V3 n){ n=vscale(1/vnorm(n),n); return cols([&](V3 v){ return vadd(v,n,-2*vdot(v,n)); }); }
static M3 of(plc_matrix*A){ M3 m; for(int i=0;i<3;i++) for(int j=0;j<3;j++) m[i][j]=(*A)[i][j]; return m; }
static bool mnear(const M3&a,const M3&b,double t=1e-9){ for(int i=0;i<3;i++) if(!near3(a[i],b[i],t)) return false; return true; }
struct Grp{ std::vector<M3> m; std::vector<Map> t; std::vector<int> inv; };
// nearest vertex map; ok=false if not a permutation; tie=true when the nearest vertex is not clearly unique
static Map nearest(const Curve&C,const M3&A,bool&perm,bool&tie){ Map r(C.size()); perm=true; tie=false; std::set<Loc> used; for(size_t c=0;c<C.size();c++) for(auto&v:C[c].v){ V3 w=mv(A,v); double b=1e300,b2=1e300; Loc l; for(size_t d=0;d<C.size();d++) for(size_t j=0;j<C[d].v.size();j++){ double x=vdist(w,C[d].v[j]); if(x<b){ b2=b; b=x; l=Loc(d,j); } else if(x<b2) b2=x; } if(b2-b<1e-6) tie=true; r[c].push_back(l); if(!used.insert(l).second) perm=false; } return r; }
static std::string map_diff(const plc_symmetry*s,const plCurve*L,const Map&t){ if(!s) return "no symmetry"; if(s->curve!=L) return "the symmetry belongs to another curve"; for(size_t c=0;c<t.size();c++) for(size_t j=0;j<t[c].size();j++) if(s->target[c][j].cp!=t[c][j].first||s->target[c][j].vt!=t[c][j].second) return mc_fmt("vertex %zu:%zu is sent to %d:%d instead of %d:%d",c,j,s->target[c][j].cp,s->target[c][j].vt,t[c][j].first,t[c][j].second); return ""; }
static std::string grp_diff(const plc_symmetry_group*G,const plCurve*L,const Grp&g){ if(!G) return "no group"; if(G->n!=(int)g.m.size()) return mc_fmt("%d elements instead of %zu",G->n,g.m.size()); for(int i=0;i<G->n;i++){ std::string d=map_diff(G->sym[i],L,g.t[i]); if(!d.empty()) return mc_fmt("element %d: ",i)+d; if(!mnear(of(G->sym[i]->transform),g.m[i])) return mc_fmt("element %d has the wrong matrix",i); if(G->inverse[i]!=g.inv[i]) return mc_fmt("inverse of %d is %d",i,G->inverse[i]); } return ""; }
static Curve avg(const Curve&C,const Grp&g){ Curve D=C; double n=g.m.size(); for(size_t c=0;c<C.size();c++) for(size_t j=0;j<C[c].v.size();j++){ V3 s{{0,0,0}}; for(size_t i=0;i<g.m.size();i++){ Loc l=g.t[i][c][j]; s=vadd(s,mv(mT(g.m[i]),C[l.first].v[l.second]),1/n); } D[c].v[j]=s; } return D; }
static double err(const Curve&C,const M3&m,const Map&t){ double e=0; for(size_t c=0;c<C.size();c++) for(size_t j=0;j<C[c].v.size();j++) e=std::max(e,vdist(mv(m,C[c].v[j]),C[t[c][j].first].v[t[c][j].second])); return e; }
static std::vector<V3> flat(const Curve&C){ std::vector<V3> r; for(auto&k:C) for(auto&v:k.v) r.push_back(v); return r; }
// which: 0 rotation group, 1 reflection group, 2 coordinate planes
struct Which{ int kind; V3 axis; int n; std::string name()const{ return kind==2?"coordinate planes":mc_fmt("%s %s",kind?"reflection over the plane normal to":mc_fmt("%d-fold rotation about",n).c_str(),vstr(axis).c_str()); } };
static std::vector<M3> mats(const Which&w){ std::vector<M3> r; if(w.kind==0) for(int i=0;i<w.n;i++) r.push_back(mrot(w.axis,2*M_PI*i/w.n)); else if(w.kind==1) r={mI(),mref(w.axis)}; return r; }
static plc_symmetry_group*make(plCurve*L,const Which&w){ return w.kind==0?plc_rotation_group(L,pv(w.axis),w.n):w.kind==1?plc_reflection_group(L,pv(w.axis)):plc_coordplanes_reflection_group(L); }
// the closure of the listed elements, used when the order of the elements is the library's choice
static bool is_group(const std::vector<M3>&m){ for(auto&a:m) for(auto&b:m){ bool in=false; for(auto&c:m) in|=mnear(mm(a,b),c); if(!in) return false; } return true; }
// layouts: split the vertex list into components at the given points
static Curve layout(const std::vector<V3>&p,int lay){ Curve C; size_t n=p.size(); std::vector<size_t> cut; if(lay==0) cut={n}; else if(lay==1) cut={n/3,n}; else if(lay==3){ for(size_t i=1+n%3;i<n;i+=1+(cut.size()*5)%3) cut.push_back(i); cut.push_back(n); } else cut={1,1+(n-1)/2,n}; std::vector<V3> q=p; if(lay==1){ for(size_t i=0;i<n;i++) q[i]=p[(i*7+3)%n]; if(n%7==0) q=p; } size_t s=0; for(size_t e:cut){ if(e<=s) continue; Comp k; k.v.assign(q.begin()+s,q.begin()+e); k.open=k.v.size()<3||lay==2; k.cst.resize(k.v.size()); C.push_back(k); s=e; } return C; }
static std::vector<V3> orbits(const std::vector<V3>&seeds,const std::vector<M3>&G){ std::vector<V3> r; for(auto&s:seeds) for(auto&g:G){ V3 v=mv(g,s); bool dup=false; for(auto&x:r) dup|=vdist(x,v)<1e-6; if(!dup) r.push_back(v); } return r; }
static std::vector<V3> frame(const Which&w){ V3 a=w.kind==2?V3{{0,0,1}}:vscale(1/vnorm(w.axis),w.axis); V3 h=std::fabs(a[0])<0.9?V3{{1,0,0}}:V3{{0,1,0}}; V3 u=vcross(a,h); u=vscale(1/vnorm(u),u); V3 v=vcross(a,u); if(w.kind==2){ u=V3{{1,0,0}}; v=V3{{0,1,0}}; } return {u,v,a}; }
static V3 at(const std::vector<V3>&f,double x,double y,double z){ return vadd(vadd(vscale(x,f[0]),f[1],y),f[2],z); }
// builds the group on L and compares with the definition; returns the model group (order of elements read from the library for kind 2)
static bool build_check(plCurve*L,const Curve&C,const Which&w,Grp&g,const char*what){ plc_symmetry_group*G=make(L,w); mc_trans(); mc_eval(); CHECK_CURVE(L,C,"curve after building a group"); std::vector<M3> m=mats(w); if(w.kind==2){ for(int b=0;b<8;b++){ M3 s=mI(); for(int i=0;i<3;i++) if(b>>i&1) s[i][i]=-1; m.push_back(s); } }
  bool all=true,tie=false; std::vector<Map> t; for(auto&x:m){ bool p,ti; t.push_back(nearest(C,x,p,ti)); all&=p; tie|=ti; } if(tie){ if(G) plc_symmetry_group_free(&G); mc_outcome("tie"); return false; }
  if(!all){ MC_CHECK(!G,"%s: %s built although the curve does not have it",what,w.name().c_str()); mc_outcome("refused "+std::string(w.kind==0?"rotation":w.kind==1?"reflection":"planes")); return false; }
  MC_CHECK(G,"%s: %s not built although every vertex has its image",what,w.name().c_str()); MC_CHECK(G->n==(int)m.size(),"%d elements in %s",G->n,w.name().c_str()); g=Grp(); std::vector<int> seen(m.size(),0); for(int i=0;i<G->n;i++){ M3 x=of(G->sym[i]->transform); int k=-1; for(size_t q=0;q<m.size();q++) if(mnear(x,m[q])) k=q; MC_CHECK(k>=0&&!seen[k],"element %d of %s is not one of its transformations, or appears twice",i,w.name().c_str()); seen[k]=1; g.m.push_back(m[k]); g.t.push_back(t[k]); } MC_CHECK(is_group(g.m),"not closed"); for(auto&a:g.m){ int k=-1; for(size_t q=0;q<g.m.size();q++) if(mnear(mm(a,g.m[q]),mI())) k=q; g.inv.push_back(k); } std::string d=grp_diff(G,L,g); MC_CHECK(d.empty(),"%s: %s: %s",what,w.name().c_str(),d.c_str()); MC_CHECK(mnear(g.m[0],mI()),"element 0 is not the identity");
  // composition of every pair: A first, then B
  for(int i=0;i<G->n;i++) for(int j=0;j<G->n;j++){ plc_symmetry*s=plc_compose_symmetries(G->sym[i],G->sym[j]); mc_trans(); Map c=g.t[i]; for(auto&r:c) for(auto&l:r) l=g.t[j][l.first][l.second]; std::string e=map_diff(s,L,c); MC_CHECK(e.empty(),"composition of %d and %d: %s",i,j,e.c_str()); MC_CHECK(mnear(of(s->transform),mm(g.m[j],g.m[i])),"composition of %d and %d has the wrong matrix",i,j); plc_symmetry*q=plc_symmetry_copy(s); plc_symmetry_free(&s); MC_CHECK(s==NULL,"free left the pointer"); e=map_diff(q,L,c); MC_CHECK(e.empty()&&mnear(of(q->transform),mm(g.m[j],g.m[i])),"copy of a composition: %s",e.c_str()); plc_symmetry_free(&q); plc_symmetry_free(&q); }
  plc_symmetry_group*H=plc_symmetry_group_copy(G); plc_symmetry_group_free(&G); MC_CHECK(G==NULL,"free left the pointer"); d=grp_diff(H,L,g); MC_CHECK(d.empty(),"copied group: %s",d.c_str()); L->G=H; mc_outcome("built "+std::string(w.kind==0?"rotation":w.kind==1?"reflection":"planes")); return true; }
static bool action(const Grp&g){ int n=g.m.size(); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ int k=-1; for(int q=0;q<n;q++) if(mnear(mm(g.m[j],g.m[i]),g.m[q])) k=q; if(k<0) return false; for(size_t c=0;c<g.t[i].size();c++) for(size_t v=0;v<g.t[i][c].size();v++){ Loc l=g.t[i][c][v]; if(g.t[j][l.first][l.second]!=g.t[k][c][v]) return false; } } return true; }
static void measure(plCurve*L,const Curve&C,const Grp&g){ double worst=0; for(size_t i=0;i<g.m.size();i++){ double e=err(C,g.m[i],g.t[i]); worst=std::max(worst,e); double r=plc_symmetry_check(L,L->G->sym[i]); MC_CHECK(std::fabs(r-e)<1e-9,"plc_symmetry_check of element %zu is %.12g instead of %.12g",i,r,e); } double r=plc_symmetry_group_check(L); MC_CHECK(std::fabs(r-worst)<1e-9,"plc_symmetry_group_check is %.12g instead of %.12g",r,worst); mc_eval(2); }
static void sym_check(plCurve*L,const Curve&C,const Grp&g,const std::string&h){ if(!action(g)){ mc_outcome("no action"); return; } measure(L,C,g); std::vector<V3> var; { auto f=flat(C); for(size_t i=0;i<f.size();i++) var.push_back(V3{{f[i][1]+0.1*i,1-f[i][0],0.3*(i%4)}}); }
  // a variation is symmetrized like the vertices
  Curve W=C; { size_t k=0; for(auto&c:W) for(auto&v:c.v) v=var[k++]; } Curve WA=avg(W,g); std::vector<plc_vector> buf; for(auto&v:var) buf.push_back(pv(v)); double ve=0; for(size_t i=0;i<g.m.size();i++){ double e=err(W,g.m[i],g.t[i]); ve=std::max(ve,e); double r=plc_symmetry_variation_check(L,buf.data(),L->G->sym[i]); MC_CHECK(std::fabs(r-e)<1e-9,"plc_symmetry_variation_check is %.12g instead of %.12g",r,e); } double vg=plc_symmetry_group_variation_check(L,buf.data()); MC_CHECK(std::fabs(vg-ve)<1e-9,"plc_symmetry_group_variation_check is %.12g instead of %.12g",vg,ve); plc_symmetrize_variation(L,buf.data()); mc_trans(); CHECK_CURVE(L,C,"curve after symmetrizing a variation"); auto fa=flat(WA); for(size_t i=0;i<fa.size();i++) MC_CHECK(near3(vv(buf[i]),fa[i],1e-9),"%s: symmetrized variation at vertex %zu is %s instead of %s",h.c_str(),i,vstr(vv(buf[i])).c_str(),vstr(fa[i]).c_str()); MC_CHECK(plc_symmetry_group_variation_check(L,buf.data())<1e-9,"symmetrized variation is not symmetric");
  plc_symmetrize(L); mc_trans(); mc_eval(); Curve A=avg(C,g); CHECK_CURVE_TOL(L,A,1e-9,"%s: symmetrized curve",h.c_str()); std::string d=grp_diff(L->G,L,g); MC_CHECK(d.empty(),"group after symmetrizing: %s",d.c_str()); MC_CHECK(plc_symmetry_group_check(L)<1e-9,"%s: the symmetrized curve has symmetry error %.12g",h.c_str(),plc_symmetry_group_check(L)); Curve B=from_plc(L); measure(L,B,g); plc_symmetrize(L); CHECK_CURVE_TOL(L,A,1e-9,"%s: symmetrized twice",h.c_str()); mc_trace(); mc_state(curve_str(B)); }
static std::vector<Which> whiches(bool T){ std::vector<Which> w; std::vector<V3> ax={V3{{0,0,1}},V3{{0,-3,0}},V3{{1,2,2}},V3{{-1,0.5,0}}}; for(auto&a:ax){ for(int n=1;n<=(T?7:5);n++) w.push_back({0,a,n}); w.push_back({1,a,2}); } for(int n:T?std::vector<int>{8,9,12,16,21,30,41}:std::vector<int>{8,12,17,25}) w.push_back({0,V3{{1,2,2}},n}); w.push_back({2,V3{{0,0,0}},8}); return w; }
// non-abelian groups, built element by element and collected by the caller
static std::vector<M3> closure(std::vector<M3> g){ for(size_t i=0;i<g.size();i++) for(size_t j=0;j<g.size();j++){ M3 x=mm(g[i],g[j]); bool in=false; for(auto&y:g) in|=mnear(x,y); if(!in) g.push_back(x); if(g.size()>200) return g; } return g; }
static void nonabelian(const std::vector<M3>&G,const std::vector<V3>&seeds,int lay,const std::string&h){ auto p=orbits(seeds,G); Curve C=layout(p,lay); if(C.empty()) return; { int k=0; for(auto&c:C) for(auto&v:c.v){ v=vadd(v,V3{{0.01*(k%3-1),0.008*(k%4-2),0.012*(k%5-2)}}); k++; } } mc_note("%s",h.c_str()); plCurve*L=to_plc(C); int n=G.size(); Grp g; g.m=G; plc_symmetry_group*S=plc_symmetry_group_new(n);
  for(int i=0;i<n;i++){ bool perm,tie; Map t=nearest(C,G[i],perm,tie); if(!perm||tie){ plc_symmetry_group_free(&S); plc_free(L); mc_outcome("non-abelian tie"); return; } g.t.push_back(t); plc_matrix A; for(int a=0;a<3;a++) for(int b=0;b<3;b++) A[a][b]=G[i][a][b]; S->sym[i]=plc_build_symmetry(&A,L); mc_trans(); mc_eval(); std::string d=map_diff(S->sym[i],L,t); MC_CHECK(d.empty()&&mnear(of(S->sym[i]->transform),G[i]),"%s: element %d: %s",h.c_str(),i,d.c_str()); }
  for(int i=0;i<n;i++){ int k=-1; for(int j=0;j<n;j++) if(mnear(mm(G[i],G[j]),mI())) k=j; g.inv.push_back(k); S->inverse[i]=k; }
  for(int i=0;i<n;i++) for(int j=0;j<n;j++){ plc_symmetry*s=plc_compose_symmetries(S->sym[i],S->sym[j]); mc_trans(); mc_eval(); Map c=g.t[i]; for(auto&r:c) for(auto&l:r) l=g.t[j][l.first][l.second]; std::string e=map_diff(s,L,c); MC_CHECK(e.empty()&&mnear(of(s->transform),mm(G[j],G[i])),"%s: composition of %d and %d (first, then second): %s",h.c_str(),i,j,e.empty()?"wrong matrix":e.c_str()); plc_symmetry_free(&s); }
  L->G=S; { plCurve*K=plc_copy(L); std::string d=grp_diff(K->G,K,g); MC_CHECK(d.empty(),"%s: copied curve: %s",h.c_str(),d.c_str()); plc_free(K); } sym_check(L,C,g,h); mc_outcome(mc_fmt("non-abelian group of order %d",n)); plc_free(L); }
struct St{ Curve C; bool has=false; Grp g; };
static void hist(plCurve*L,const St&s,int depth,const std::string&h){ if(depth==0){ mc_trace(); return; }
  for(int op=0;op<13;op++){ St t=s; plCurve*K=plc_copy(L); std::string name; std::string b=curve_diff(from_plc(K),s.C); MC_CHECK(b.empty(),"plc_copy: %s",b.c_str()); mc_note("%s ; %d",h.c_str(),op);
    auto conj=[&](const M3&A){ for(auto&k:t.C) for(auto&v:k.v) v=mv(A,v); for(auto&m:t.g.m) m=mm(mm(A,m),mT(A)); };
    auto drop=[&]{ t.has=false; t.g=Grp(); };
    switch(op){ case 0: name="rotate"; plc_rotate(K,plc_build_vect(1,-2,0.5),0.8); conj(mrot(V3{{1,-2,0.5}},0.8)); break;
      case 1: name="half turn"; plc_rotate(K,plc_build_vect(0,0,2),M_PI); conj(mrot(V3{{0,0,2}},M_PI)); break;
      case 2: name="scale"; plc_scale(K,1.5); for(auto&k:t.C) for(auto&v:k.v) v=vscale(1.5,v); break;
      case 3: name="translate"; plc_translate(K,plc_build_vect(0.25,-1,2)); for(auto&k:t.C) for(auto&v:k.v) v=vadd(v,V3{{0.25,-1,2}}); drop(); break;
      case 4: { name="symmetrize"; if(t.has&&!action(t.g)){ plc_free(K); continue; } plc_symmetrize(K); if(t.has) t.C=avg(t.C,t.g); break; }
      case 5: { name="copy of the copy"; plCurve*M=plc_copy(K); plc_free(K); K=M; break; }
      case 6: { name="add component"; plc_vector v[3]={plc_build_vect(9,9,9),plc_build_vect(9,10,9),plc_build_vect(8,9,9)}; plc_add_component(K,0,3,false,0,v,NULL); Comp k; for(auto&x:v) k.v.push_back(vv(x)); k.cst.resize(3); t.C.insert(t.C.begin(),k); drop(); break; }
      case 7: name="drop component"; if(t.C.size()<2){ plc_free(K); continue; } plc_drop_component(K,0); t.C.erase(t.C.begin()); drop(); break;
      case 8: { name="Whitten"; std::vector<int> e,p; for(size_t i=0;i<t.C.size();i++){ e.push_back(i==0?-1:1); p.push_back(i); p.push_back(i); } plc_whitten(K,1,e.data(),p.data()); std::reverse(t.C[0].v.begin(),t.C[0].v.end()); drop(); break; }
      case 9: name="move a vertex"; K->cp[0].vt[0].c[0]+=0.01; plc_fix_wrap(K); t.C[0].v[0][0]+=0.01; break;
      case 10: name="move the last vertex"; { plc_strand&q=K->cp[K->nc-1]; q.vt[q.nv-1].c[2]-=0.01; plc_fix_wrap(K); t.C.back().v.back()[2]-=0.01; } break;
      case 11: { name="rotate about zero"; plc_rotate(K,plc_build_vect(0,0,0),1); break; }
      default: { name="fix wraparound"; plc_fix_wrap(K); } }
    std::string hh=h+" ; "+name; mc_note("%s",hh.c_str()); mc_trans(); mc_eval(); CHECK_CURVE_TOL(K,t.C,1e-9,"%s",hh.c_str()); t.C=from_plc(K); MC_CHECK(t.has==(K->G!=NULL),"%s: the curve %s a symmetry group",hh.c_str(),K->G?"kept":"lost"); if(t.has){ std::string d=grp_diff(K->G,K,t.g); MC_CHECK(d.empty(),"%s: %s",hh.c_str(),d.c_str()); measure(K,t.C,t.g); } else MC_CHECK(plc_symmetry_group_check(K)==0,"symmetry error without a group"); mc_state(curve_str(t.C)+(t.has?"G":"")); mc_outcome(name+(t.has?" with group":" without group")); hist(K,t,depth-1,hh); plc_free(K); } }
void mc_main(){ bool T=mc_thorough; auto W=whiches(T);
  // matrices
  mc_case("matrices",[&]{ for(int x=-2;x<=2;x++) for(int y=-2;y<=2;y++) for(int z=-2;z<=2;z++) if(x||y||z) { V3 a{{(double)x,(double)y,(double)z}}; plc_matrix A; for(int k=-8;k<=8;k++){ plc_rotation_matrix(pv(a),k*M_PI/4+0.01*(k%3),&A); mc_trans(); mc_eval(); MC_CHECK(mnear(of(&A),mrot(a,k*M_PI/4+0.01*(k%3)),1e-12),"rotation matrix about %s",vstr(a).c_str()); mc_state(mc_fmt("%d %d %d %d",x,y,z,k)); } plc_reflection_matrix(pv(a),&A); mc_trans(); mc_eval(); MC_CHECK(mnear(of(&A),mref(a),1e-12),"reflection matrix normal to %s",vstr(a).c_str()); } plc_matrix I; plc_identity_matrix(&I); MC_CHECK(mnear(of(&I),mI(),0),"identity matrix"); });
  // every group on every union of orbits, layout and perturbation pattern
  for(auto&w:W) for(int lay=0;lay<4;lay++) mc_case(mc_fmt("%s, layout %d",w.name().c_str(),lay),[&]{ auto f=frame(w); std::vector<M3> G=mats(w); if(w.kind==2) for(int b=0;b<8;b++){ M3 s=mI(); for(int i=0;i<3;i++) if(b>>i&1) s[i][i]=-1; G.push_back(s); } std::vector<V3> seeds={at(f,2,0.3,0.7),at(f,3.1,1.7,-1.2),at(f,0,0,1.9),at(f,4.3,0,0),at(f,5.5,2.1,0)}; int ns=seeds.size(); for(int sub=1;sub<1<<ns;sub++){ if(!T&&__builtin_popcount(sub)>2) continue; std::vector<V3> s; for(int i=0;i<ns;i++) if(sub>>i&1) s.push_back(seeds[i]); auto p=orbits(s,G); Curve C=layout(p,lay); size_t tot=p.size();
      const V3 moves[]={V3{{0.05,0.02,-0.03}},V3{{-0.04,0.06,0.01}},V3{{0,0,0.07}}}; std::vector<std::pair<size_t,int>> none; int k1=std::min<size_t>(tot,T?6:4);
      auto run=[&](std::vector<std::pair<size_t,int>> pert){ Curve D=C; for(auto&q:pert){ size_t i=q.first; for(auto&k:D){ if(i<k.v.size()){ k.v[i]=vadd(k.v[i],moves[q.second]); break; } i-=k.v.size(); } } D[0].cst[0].kind=1; D[0].cst[0].a=V3{{1,2,3}}; plCurve*L=to_plc(D); std::string h=mc_fmt("%s, orbits %d, layout %d, %zu moved",w.name().c_str(),sub,lay,pert.size()); mc_note("%s",h.c_str()); Grp g; if(build_check(L,D,w,g,h.c_str())) sym_check(L,D,g,h); plc_free(L); };
      run({}); for(int i=0;i<k1;i++) for(int m=0;m<3;m++){ size_t vi=(i*tot)/k1; run({{vi,m}}); for(int j=i+1;j<k1;j++) for(int n=0;n<3;n++) if(T||(i+j+m+n)%3==0) run({{vi,m},{(j*tot)/k1,n}}); }
      // not symmetric: one vertex missing, or doubled nearby
      for(size_t i=0;i<p.size()&&p.size()>1;i++){ auto q=p; q.erase(q.begin()+i); Curve D=layout(q,lay); plCurve*L=to_plc(D); Grp g; mc_note("%s with vertex %zu removed",w.name().c_str(),i); if(build_check(L,D,w,g,"vertex removed")) sym_check(L,D,g,"vertex removed"); plc_free(L); q=p; q.push_back(vadd(p[i],V3{{0.3,0.1,0.2}})); D=layout(q,lay); L=to_plc(D); mc_note("%s with vertex %zu doubled",w.name().c_str(),i); if(build_check(L,D,w,g,"vertex doubled")) sym_check(L,D,g,"vertex doubled"); plc_free(L); } } mc_sample(w.name()); });
  { M3 q4=mrot(V3{{0,0,1}},M_PI/2),q3=mrot(V3{{0,0,1}},2*M_PI/3),h=mrot(V3{{1,0,0}},M_PI),rx=mref(V3{{1,0,0}}),rz=mref(V3{{0,0,1}}),d3=mrot(V3{{1,1,1}},2*M_PI/3),q5=mrot(V3{{1,2,2}},2*M_PI/5),h5=mrot(V3{{0,1,-1}},M_PI); struct NA{ const char*n; std::vector<M3> g; }; std::vector<NA> N={{"dihedral 4",{mI(),q4,rx}},{"dihedral 3 of half turns",{mI(),q3,h}},{"prism 4",{mI(),q4,rx,rz}},{"tetrahedral",{mI(),d3,h}},{"oblique dihedral 5",{mI(),q5,h5}},{"octahedral",{mI(),q4,d3}}}; if(T) N.push_back({"full octahedral",{mI(),q4,d3,rx}});
    for(auto&x:N) for(int lay=0;lay<4;lay++) mc_case(mc_fmt("%s, layout %d",x.n,lay),[&]{ auto G=closure(x.g); std::vector<V3> seeds={V3{{2,0.6,1.1}},V3{{3.5,0,0}},V3{{1.3,2.9,0.4}},V3{{0,0,4.5}}}; for(int sub=1;sub<16;sub++){ std::vector<V3> s; for(int i=0;i<4;i++) if(sub>>i&1) s.push_back(seeds[i]); nonabelian(G,s,lay,mc_fmt("%s, orbits %d, layout %d",x.n,sub,lay)); } mc_trace(); mc_sample(x.n); }); }
  // histories on curves carrying a group
  for(auto&w:W) mc_case(mc_fmt("histories with %s",w.name().c_str()),[&]{ auto f=frame(w); std::vector<M3> G=mats(w); if(w.kind==2) for(int b=0;b<8;b++){ M3 s=mI(); for(int i=0;i<3;i++) if(b>>i&1) s[i][i]=-1; G.push_back(s); } auto p=orbits({at(f,2,0.3,0.7),at(f,0,0,1.9),at(f,3.1,1.7,-1.2)},G); St s; s.C=layout(p,1); s.has=true; plCurve*L=to_plc(s.C); if(!build_check(L,s.C,w,s.g,"history start")){ plc_free(L); return; } hist(L,s,T?3:2,w.name()); plc_free(L); });
  mc_case("group constructors refuse sizes below one",[&]{ MC_CHECK(plc_symmetry_group_new(0)==NULL&&plc_symmetry_group_new(-3)==NULL,"group of size 0"); plc_symmetry_group*G=NULL; plc_symmetry_group_free(&G); plc_symmetry_group_free(NULL); MC_CHECK(plc_symmetry_group_copy(NULL)==NULL&&plc_symmetry_copy(NULL)==NULL,"copy of nothing"); mc_trans(5); mc_eval(); });
}
