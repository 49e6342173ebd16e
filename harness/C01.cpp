// C01: the constraint list as a map from vertices to constraints: closure of the reachable lists under every operation.
#include "curve.hpp"
static const V3 VA{{1,2,3}},VB{{0,0.5,-1}},Z{{0,0,0}};
static std::vector<Cst> ALPHA(){ std::vector<Cst> a; auto C=[&](int k,V3 x,V3 y){ Cst c; c.kind=k; c.a=x; c.b=y; a.push_back(c); };
  C(1,VA,Z); C(1,VB,Z); C(2,VA,VB); C(2,VA,Z); C(3,VA,V3{{2,0,0}}); C(3,VA,Z); return a; }
struct Seg{ int cmp,v,n,k; };            // one list node; k indexes ALPHA
typedef std::vector<Seg> List;
static std::string lkey(const List&l){ std::string s; for(auto&g:l){ s+=(char)('0'+g.cmp); s+=(char)('0'+g.v); s+=(char)('0'+g.n); s+=(char)('a'+g.k); } return s; }
static std::vector<Cst> AL;
static void put(plCurve*L,const List&l){ plc_remove_all_constraints(L); MC_CHECK(L->cst==NULL,"plc_remove_all_constraints left constraints"); plc_constraint**p=&L->cst; for(auto&g:l){ plc_constraint*q=(plc_constraint*)calloc(1,sizeof *q); q->kind=(plc_cst_kind)AL[g.k].kind; q->vect[0]=pv(AL[g.k].a); q->vect[1]=pv(AL[g.k].b); q->cmp=g.cmp; q->vert=g.v; q->num_verts=g.n; *p=q; p=&q->next; } }
static List get(plCurve*L){ List l; for(plc_constraint*q=L->cst;q;q=q->next){ Cst c; c.kind=q->kind; c.a=vv(q->vect[0]); c.b=vv(q->vect[1]); int k=-1; for(size_t i=0;i<AL.size();i++) if(AL[i]==c) k=i; MC_CHECK(k>=0,"the list contains a constraint (kind %d) that was never set",c.kind); l.push_back({q->cmp,q->vert,q->num_verts,k}); } return l; }
typedef std::vector<std::vector<int>> Map;
static Map lmap(const std::vector<int>&nv,const List&l){ Map m; for(int n:nv) m.push_back(std::vector<int>(n,-1)); for(auto&g:l) for(int i=0;i<g.n;i++) m[g.cmp][g.v+i]=g.k; return m; }
static std::string mstr(const Map&m){ std::string s; for(auto&c:m){ for(int k:c) s+=k<0?'.':(char)('a'+k); s+='/'; } return s; }
static void explore(const std::vector<int>&nv,const std::vector<int>&use,bool open,const std::vector<List>*start=NULL){
  AL=ALPHA(); Curve C(nv.size()); for(size_t c=0;c<nv.size();c++){ C[c].open=open; for(int i=0;i<nv[c];i++) C[c].v.push_back(V3{{(double)c,(double)i,0.25*i*i}}); }
  plCurve*L=to_plc(C); std::vector<List> todo{List()}; if(start) todo=*start; std::set<std::string> seen{""}; size_t maps=0; std::set<std::string> mapset;
  for(size_t t=0;t<todo.size();t++){ List l=todo[t]; Map m=lmap(nv,l); if(mapset.insert(mstr(m)).second) maps++; mc_state(lkey(l)+mc_fmt("|%zu%d",nv.size(),nv[0]));
    auto step=[&](const char*what,const Map&want,std::function<void()> op){ put(L,l); op(); mc_trans(); mc_eval(); std::string b=curve_bad(L); MC_CHECK(b.empty(),"%s on [%s]: %s",what,mstr(m).c_str(),b.c_str()); List r=get(L); Map g=lmap(nv,r); MC_CHECK(g==want,"%s on [%s] gave [%s] instead of [%s]",what,mstr(m).c_str(),mstr(g).c_str(),mstr(want).c_str()); if(!start&&seen.insert(lkey(r)).second) todo.push_back(r); };
    for(size_t c=0;c<nv.size();c++) for(int v=0;v<nv[c];v++) for(int n=1;v+n<=nv[c];n++){
      for(int k:use){ const Cst&A=AL[k]; if(A.kind==1&&n>1) continue; Map w=m; for(int i=0;i<n;i++) w[c][v+i]=k; 
        step(mc_fmt("constraining %zu:%d+%d to %c",c,v,n,'a'+k).c_str(),w,[&]{ if(A.kind==1) plc_set_fixed(L,c,v,pv(A.a)); else if(A.kind==2) plc_constrain_to_line(L,c,v,n,pv(A.a),pv(A.b)); else plc_constrain_to_plane(L,c,v,n,pv(A.a),A.b[0]); }); }
      Map w=m; for(int i=0;i<n;i++) w[c][v+i]=-1; step(mc_fmt("unconstraining %zu:%d+%d",c,v,n).c_str(),w,[&]{ plc_unconstrain(L,c,v,n); }); }
    for(int k:use){ Map w=m; int cnt=0; for(auto&c:w) for(int&x:c) if(x==k){ x=-1; cnt++; } plc_vector vec[2]={pv(AL[k].a),pv(AL[k].b)}; int got=-1; step(mc_fmt("removing %c",'a'+k).c_str(),w,[&]{ got=plc_remove_constraint(L,(plc_cst_kind)AL[k].kind,vec); }); MC_CHECK(got==cnt,"plc_remove_constraint reported %d freed vertices instead of %d on [%s]",got,cnt,mstr(m).c_str()); }
    // queries
    put(L,l); for(size_t c=0;c<nv.size();c++) for(int v=0;v<nv[c];v++){ plc_constraint*q=NULL; bool is=plc_is_constrained(L,c,v,&q); mc_trans(); MC_CHECK(is==(m[c][v]>=0)&&plc_is_constrained(L,c,v,NULL)==is,"plc_is_constrained(%zu,%d) is %d on [%s]",c,v,is,mstr(m).c_str()); if(is) MC_CHECK(q&&q->kind==AL[m[c][v]].kind&&vv(q->vect[0])==AL[m[c][v]].a&&(q->kind==fixed||vv(q->vect[1])==AL[m[c][v]].b),"plc_is_constrained(%zu,%d) returned a different constraint on [%s]",c,v,mstr(m).c_str()); }
    plCurve*K=plc_copy(L); MC_CHECK(lkey(get(K))==lkey(l),"plc_copy changed the constraints [%s]",mstr(m).c_str()); plc_remove_all_constraints(K); MC_CHECK(lkey(get(L))==lkey(l),"a copy shares its constraints with the original"); plc_free(K); mc_trans(2);
  }
  double full=1; for(int n:nv) full*=pow(use.size()+1,n); MC_CHECK(start||maps==(size_t)full,"only %zu of %.0f constraint maps are reachable",maps,full);
  plc_remove_all_constraints(L); MC_CHECK(!L->cst,"constraints left"); mc_outcome(mc_fmt("%zu lists, %zu maps",todo.size(),maps)); mc_trace(); plc_free(L); }
// geometry: how far the vertices are from their constraints, and moving them to the nearest points
static V3 nearest(const Cst&c,const V3&p){ if(c.kind==1) return c.a; if(c.kind==2){ double t=vdot(c.a,vadd(p,c.b,-1))/vdot(c.a,c.a); return vadd(c.b,c.a,t); } double t=(vdot(c.a,p)-c.b[0])/vdot(c.a,c.a); return vadd(p,c.a,-t); }
static void geometry(const std::vector<int>&nv,const std::vector<Cst>&al,int salt){
  // every assignment of constraints to the vertices, for positions taken from a fixed table
  static const double co[]={0,1,-2,0.5,3,-0.25,7,1e3}; int N=0; for(int n:nv) N+=n; std::vector<int> d(N,0); 
  for(;;){ Curve C; int p=0; for(size_t c=0;c<nv.size();c++){ Comp k; k.open=(c+salt)%2; for(int i=0;i<nv[c];i++,p++){ int q=p+salt; k.v.push_back(V3{{co[q%8],co[(q*3+1)%8],co[(q*5+2)%8]}}); k.cst.push_back(d[p]?al[d[p]-1]:Cst()); } C.push_back(k); }
    plCurve*L=to_plc(C); Curve B=from_plc(L); double sup=0; Curve W=B; for(auto&k:W) for(size_t i=0;i<k.v.size();i++) if(k.cst[i].kind){ V3 q=nearest(k.cst[i],k.v[i]); sup=std::max(sup,vdist(q,k.v[i])); k.v[i]=q; }
    mc_note("constraints %s",curve_str(C).c_str()); double e=plc_check_cst(L); mc_trans(); mc_eval(); MC_CHECK(std::fabs(e-sup)<=1e-9*(1+sup),"plc_check_cst is %.12g, the vertices are up to %.12g away",e,sup); CHECK_CURVE(L,B,"after plc_check_cst");
    plc_fix_cst(L); mc_trans(); CHECK_CURVE_TOL(L,W,1e-9*1e3,"after plc_fix_cst"); double e2=plc_check_cst(L); MC_CHECK(e2<=1e-9*1e3,"plc_fix_cst left the curve %.12g away from its constraints",e2); Curve X=from_plc(L); for(size_t c=0;c<X.size();c++) for(size_t i=0;i<X[c].v.size();i++) if(!B[c].cst[i].kind) MC_CHECK(X[c].v[i]==B[c].v[i],"plc_fix_cst moved an unconstrained vertex");
    mc_state(curve_str(C)); mc_outcome(sup==0?"satisfied":sup<1?"near":"far"); plc_free(L); mc_trace();
    int i=0; while(i<N&&++d[i]>(int)al.size()) d[i++]=0; if(i==N) break; } }
void mc_main(){
  bool T=mc_thorough; struct K{ std::vector<int> nv,use; };
  std::vector<K> ks={{{3,2},{0,2,4}},{{3,2},{1,3,5}},{{2,3},{0,1,2,4}},{{5},{0,2,4}},{{5},{2,3,5}},{{2,2,1},{0,2,4}},{{1,1,1},{0,1,2,3,4,5}},{{1,4},{2,3}},{{4,1},{2,4}},{{6},{2,3}},{{3,3},{2,5}},{{4},{0,1,2,3,4,5}}};
  if(T){ ks.push_back({{4,3},{0,2,4}}); ks.push_back({{3,4},{2,3,5}}); ks.push_back({{7},{0,2,3}}); ks.push_back({{3,2,2},{0,2,5}}); ks.push_back({{5},{0,1,2,3,4,5}}); ks.push_back({{9},{2,3}}); }
  for(auto&k:ks){ std::string s; for(int n:k.nv) s+=mc_fmt("%d ",n); s+="with"; for(int u:k.use) s+=mc_fmt(" %c",'a'+u); mc_case("constraint histories, components of "+s,[&]{ explore(k.nv,k.use,k.nv.size()%2); mc_sample("closure under all operations, components of "+s); }); }
  // large curves: every single operation on long lists and on many components
  struct G{ const char*nm; std::vector<int> nv,use; }; std::vector<G> gs={{"one component of 24",{24},{0,2,4}},{"components of 3, 22 and 4",{3,22,4},{2,5}},{"eighteen components",std::vector<int>(18,2),{0,3,4}},{"components of 33 and 2",{33,2},{1,3}}}; if(T){ gs.push_back({"components of 21 and 23",{21,23},{0,2,3,5}}); gs.push_back({"forty components",std::vector<int>(40,2),{1,2,4}}); }
  for(auto&g:gs) mc_case(std::string("single operations on large curves, ")+g.nm,[&]{ std::vector<List> st; AL=ALPHA();
    for(int pat=0;pat<6;pat++){ List l; int q=0; for(size_t c=0;c<g.nv.size();c++) for(int v=0;v<g.nv[c];){ int run=pat==0?1:pat==1?2+q%3:pat==2?g.nv[c]:pat==3?1+(q*7)%5:pat==4?(v==0?g.nv[c]-1:1):1+v; run=std::min(run,g.nv[c]-v); int k=pat==5&&q%3==1?-1:g.use[q%g.use.size()]; if(pat==3&&q%4==2) k=-1; q++;
        if(k>=0){ if(AL[k].kind==1) for(int i=0;i<run;i++) l.push_back({(int)c,v+i,1,k}); else if(!l.empty()&&l.back().cmp==(int)c&&l.back().k==k&&l.back().v+l.back().n==v) l.back().n+=run; else l.push_back({(int)c,v,run,k}); } v+=run; } st.push_back(l); }
    explore(g.nv,g.use,g.nv.size()%2,&st); mc_sample(std::string("six constraint lists on ")+g.nm); });
  std::vector<Cst> al=ALPHA(); { Cst c; c.kind=3; c.a=V3{{0,0,2}}; c.b=V3{{-3,0,0}}; al.push_back(c); c.a=V3{{0,-1,0}}; c.b=V3{{4,0,0}}; al.push_back(c); c.a=V3{{5,0,0}}; c.b=V3{{1,0,0}}; al.push_back(c); c.a=V3{{1e-13,1,0}}; al.push_back(c); c.kind=2; c.a=V3{{0,0,-4}}; c.b=V3{{1,1,1}}; al.push_back(c); }
  for(int salt=0;salt<8;salt++){ mc_case(mc_fmt("constraint geometry %d",salt),[&]{ geometry({2,2},al,salt); }); if(T) mc_case(mc_fmt("constraint geometry, five vertices %d",salt),[&]{ geometry({3,2},al,salt); }); else mc_case(mc_fmt("constraint geometry, three vertices %d",salt),[&]{ geometry({3},al,salt); geometry({1,2},al,salt); }); }
}
