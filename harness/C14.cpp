// C14: triangulations of a polygon and the action-angle coordinates they give.
#include "triang.hpp"
#include "rngscript.hpp"
static const double PI=3.14159265358979323846;
static std::string slurp(FILE*f){ std::string s; rewind(f); int c; while((c=fgetc(f))!=EOF) s+=(char)c; return s; }
// printed forms
static void forms(const tsmcmc_triangulation_t&T,int n,const Chords&C){ char*m=tsmcmc_triangulation_MathematicaForm(T); std::string w="{"; for(int i=0;i<n-3;i++) w+=mc_fmt("%s{%d,%d}",i?",":"",T.diags[i].vt[0],T.diags[i].vt[1]); w+="}"; MC_CHECK(w==m,"%s: Mathematica form %s",chords_str(n,C).c_str(),m); free(m);
  FILE*f=tmpfile(); tsmcmc_triangulation_print(f,T); std::string s=slurp(f); fclose(f); w=""; for(int i=0;i<n-3;i++) w+=mc_fmt("%d , %d \n",T.diags[i].vt[0],T.diags[i].vt[1]); MC_CHECK(s==w,"%s: printed as %s",chords_str(n,C).c_str(),s.c_str());
  for(int variant=0;variant<4;variant++){ int integral=variant&1; std::vector<double> el; for(int i=0;i<n;i++) el.push_back(integral?1+i%3:variant?1+i/7.0:1+i/8.0); std::vector<double> given=el; if(variant==3) for(int i=0;i<n;i++) given[i]+=i%2?1e-13:-1e-13; f=tmpfile(); tsmcmc_triangulation_polymake(f,T,given.data(),integral); s=slurp(f); fclose(f); size_t a=s.find("=>["); MC_CHECK(a!=std::string::npos&&s.rfind("new Polytope",0)==0&&(s.find("<Rational>")!=std::string::npos)==(bool)integral&&s.size()>4&&s.substr(s.size()-4)=="]);\n","%s: polymake form %s",chords_str(n,C).c_str(),s.c_str());
    std::multiset<std::vector<double>> got,want; size_t p=a+3; bool first=true; for(;;){ while(p<s.size()&&isspace(s[p])) p++; if(s[p]==']') break; if(!first){ MC_CHECK(s[p]==',',"%s: polymake form %s",chords_str(n,C).c_str(),s.c_str()); p++; while(isspace(s[p])) p++; } first=false; MC_CHECK(s[p]=='[',"%s: polymake form %s",chords_str(n,C).c_str(),s.c_str()); p++; std::vector<double> v; for(;;){ char*e; v.push_back(strtod(s.c_str()+p,&e)); MC_CHECK(e!=s.c_str()+p,"%s: polymake form %s",chords_str(n,C).c_str(),s.c_str()); p=e-s.c_str(); while(isspace(s[p])) p++; if(s[p]==','){ p++; continue; } MC_CHECK(s[p]==']',"%s: polymake form %s",chords_str(n,C).c_str(),s.c_str()); p++; break; } if(!integral) for(double&x:v) x=std::round(x*1e9)/1e9; got.insert(v); }
    for(auto&t:triangles_of(n,C)){ int pr[3][2]={{t[0],t[1]},{t[1],t[2]},{t[0],t[2]}}; for(int neg=0;neg<3;neg++){ std::vector<double> v(n-2,0); for(int j=0;j<3;j++){ int x=pr[j][0],y=pr[j][1],s=j==neg?-1:1; if(y==x+1) v[0]+=s*el[x]; else if(x==0&&y==n-1) v[0]+=s*el[n-1]; else for(int i=0;i<n-3;i++) if((C[i][0]==x&&C[i][1]==y)||(C[i][0]==y&&C[i][1]==x)) v[i+1]+=s; } if(!integral) for(double&x:v) x=std::round(x*1e9)/1e9; want.insert(v); } }
    MC_CHECK(got==want,"%s: polymake form has other inequalities than the moment polytope:\n%s",chords_str(n,C).c_str(),s.c_str()); mc_eval(); } }
static void structure(const tsmcmc_triangulation_t&T,int n,const Chords&C,const char*what){ std::string b=tri_bad(T,n,C); if(!b.empty()) mc_fail("%s of the %s: %s",what,chords_str(n,C).c_str(),b.c_str()); MC_CHECK(tsmcmc_triangulation_ok(T),"%s of the %s: refused by the self-test",what,chords_str(n,C).c_str());
  for(int a=0;a<n;a++) for(int c=0;c<n;c++){ int w=-1; for(int i=0;i<n-3;i++) if((C[i][0]==a&&C[i][1]==c)||(C[i][0]==c&&C[i][1]==a)) w=i; if(a!=c&&n<=20) MC_CHECK(tsmcmc_triangulation_chordnum(T,a,c)==w,"%s: chord %d-%d is number %d",chords_str(n,C).c_str(),a,c,tsmcmc_triangulation_chordnum(T,a,c)); }
  mc_eval(); mc_trans(n); mc_trace(); mc_state(chords_str(n,C)); }
// every single index of a triangulation replaced: the self-test's documented verdict
static std::string selftest(const tsmcmc_triangulation_t&T){ int n=T.nedges; if(T.ntri!=n-2||T.ndiags!=n-3) return "counts"; auto cok=[&](int c,int ty){ if(ty!=edge&&ty!=diagonal) return false; int m=ty==edge?n:n-3; if(c<0||c>=m) return false; for(int i=0;i<2;i++){ int v=(ty==edge?T.edges:T.diags)[c].vt[i]; if(v<0||v>=n) return false; } return true; }; for(int i=0;i<n;i++) if(!cok(i,edge)) return "edge"; for(int i=0;i<n-3;i++) if(!cok(i,diagonal)) return "diagonal";
  std::vector<int> of(n-2,-1); for(int i=0;i<n-2;i++){ auto&k=T.triangles[i]; if(!cok(k.parent_chord,k.parent_type)) return "parent"; for(int j=0;j<2;j++){ if(!cok(k.daughter_chord[j],k.daughter_type[j])) return "daughter"; if(k.daughter_tri[j]<-1||k.daughter_tri[j]>=n-2) return "triangle"; if(k.daughter_tri[j]>=0&&of[k.daughter_tri[j]]++>=0) return "twice"; } auto p=ends(T,k.parent_chord,k.parent_type),a=ends(T,k.daughter_chord[0],k.daughter_type[0]),b=ends(T,k.daughter_chord[1],k.daughter_type[1]); if(i==0) std::swap(p[0],p[1]); if(p[0]!=a[0]||a[1]!=b[0]||p[1]!=b[1]) return "orientation"; } int roots=0; for(int x:of) roots+=x==-1; if(roots>1) return "roots"; return ""; }
static void damage(int n,const Chords&C){ tsmcmc_triangulation_t T=mk_tri(n,C); std::vector<int*> f; for(int i=0;i<n-2;i++){ auto&k=T.triangles[i]; f.push_back(&k.parent_chord); f.push_back((int*)&k.parent_type); for(int j=0;j<2;j++){ f.push_back(&k.daughter_chord[j]); f.push_back((int*)&k.daughter_type[j]); f.push_back(&k.daughter_tri[j]); } } for(int i=0;i<n-3;i++) for(int j=0;j<2;j++) f.push_back(&T.diags[i].vt[j]); for(int i=0;i<n;i++) for(int j=0;j<2;j++) f.push_back(&T.edges[i].vt[j]); f.push_back(&T.ntri); f.push_back(&T.ndiags);
  for(size_t q=0;q<f.size();q++){ int o=*f[q]; for(int v=-2;v<=n+1;v++) if(v!=o){ if((f[q]==&T.ntri||f[q]==&T.ndiags)&&v<0) continue; *f[q]=v; mc_note("%s, field %zu = %d",chords_str(n,C).c_str(),q,v); std::string w=selftest(T); bool g=tsmcmc_triangulation_ok(T); MC_CHECK(g==w.empty(),"%s with field %zu changed from %d to %d: self-test says %d (%s)",chords_str(n,C).c_str(),q,o,v,g,w.c_str()); mc_outcome(g?"damage not visible to the self-test":"damage reported: "+w); mc_trans(); mc_eval(); } *f[q]=o; } MC_CHECK(tsmcmc_triangulation_ok(T),"restored"); tsmcmc_triangulation_free(T); }
// ---- coordinates
static double refdihedral(const V3&A,const V3&B,const V3&C,const V3&D,bool&ok){ V3 n=vadd(C,A,-1); ok=vnorm(n)>1e-6; if(!ok) return vnorm(n)==0?0:-9; n=vscale(1/vnorm(n),n); auto perp=[&](V3 x){ x=vadd(x,A,-1); return vadd(x,n,-vdot(x,n)); }; V3 b=perp(B),d=perp(D); ok=vnorm(b)>1e-4&&vnorm(d)>1e-4; if(!ok) return B==A||B==C||D==A||D==C?0:-9; double t=-atan2(vdot(vcross(b,d),n),vdot(b,d)); return t<0?t+2*PI:t; }
struct Dih{ int a,b,c,d; }; // shared chord c->a in the parent, b the parent's third vertex, d the daughter's
static std::vector<Dih> dihs(const tsmcmc_triangulation_t&T){ std::vector<Dih> r(T.ndiags); for(int t=0;t<T.ntri;t++){ auto&k=T.triangles[t]; for(int j=0;j<2;j++) if(k.daughter_tri[j]>=0){ int x=T.diags[k.daughter_chord[j]].vt[0],y=T.diags[k.daughter_chord[j]].vt[1]; int vs[4]={ends(T,k.daughter_chord[0],k.daughter_type[0])[0],ends(T,k.daughter_chord[0],k.daughter_type[0])[1],ends(T,k.daughter_chord[1],k.daughter_type[1])[1],0}; int z=-1; for(int i=0;i<3;i++) if(vs[i]!=x&&vs[i]!=y) z=vs[i]; auto&e=T.triangles[k.daughter_tri[j]]; r[k.daughter_chord[j]]={y,z,x,ends(T,e.daughter_chord[0],e.daughter_type[0])[1]}; } } return r; }
static double adist(double a,double b){ double d=fmod(std::fabs(a-b),2*PI); return std::min(d,2*PI-d); }
static void check_embedding(const tsmcmc_triangulation_t&T,const std::string&what,plCurve*L,const std::vector<double>&el,const std::vector<double>&dl,const std::vector<double>&th){ int n=T.nedges; std::string b=curve_bad(L); if(!b.empty()) mc_fail("%s: %s",what.c_str(),b.c_str()); MC_CHECK(L->nc==1&&L->cp[0].nv==n&&!L->cp[0].open,"%s: shape",what.c_str()); double sc=1; for(double x:el) sc=std::max(sc,x); auto v=[&](int i){ return vv(L->cp[0].vt[i]); };
  for(int i=0;i<n;i++) MC_CHECK(std::fabs(vdist(v(i),v((i+1)%n))-el[i])<2e-8*sc,"%s: edge %d has length %.12g instead of %.12g",what.c_str(),i,vdist(v(i),v((i+1)%n)),el[i]);
  for(int i=0;i<n-3;i++) MC_CHECK(std::fabs(vdist(v(T.diags[i].vt[0]),v(T.diags[i].vt[1]))-dl[i])<2e-8*sc,"%s: diagonal %d has length %.12g instead of %.12g",what.c_str(),i,vdist(v(T.diags[i].vt[0]),v(T.diags[i].vt[1])),dl[i]);
  auto D=dihs(T); for(int i=0;i<n-3;i++){ bool ok; double t=refdihedral(v(D[i].a),v(D[i].b),v(D[i].c),v(D[i].d),ok); auto h=[&](int p,int q,int r){ V3 x=vcross(vadd(v(q),v(p),-1),vadd(v(r),v(p),-1)); return vnorm(x); }; if(!ok||h(D[i].a,D[i].b,D[i].c)<2e-4||h(D[i].a,D[i].d,D[i].c)<2e-4){ mc_outcome("undefined dihedral"); continue; } MC_CHECK(adist(t,th[i])<1e-7,"%s: dihedral %d is %.12g instead of %.12g",what.c_str(),i,t,th[i]); mc_outcome("dihedral"); } mc_eval(); }
static std::string nums(const std::vector<double>&v){ std::string s; for(double x:v) s+=mc_fmt("%.17g ",x); return s; }
// a polygon given by vertices: coordinates computed, embedded again
static void roundtrip(int n,const Chords&C,const std::vector<V3>&P){ tsmcmc_triangulation_t T=mk_tri(n,C); Curve cv(1); cv[0].v=P; cv[0].open=false; plCurve*L=to_plc(cv); std::vector<double> el(n,-1),dl(n-2,-1),th(n-2,-1); bool*def=(bool*)calloc(n,1); std::string what=chords_str(n,C)+" "+curve_str(cv); mc_note("%s",what.c_str()); tsmcmc_compute_edgelengths(L,T,el.data()); tsmcmc_compute_diagonals(L,T,dl.data()); tsmcmc_compute_dihedral_angles(L,T,th.data(),def); CHECK_CURVE(L,cv,"after computing coordinates");
  for(int i=0;i<n;i++) MC_CHECK(std::fabs(el[i]-vdist(P[i],P[(i+1)%n]))<1e-12,"%s: edge length %d",what.c_str(),i); for(int i=0;i<n-3;i++) MC_CHECK(std::fabs(dl[i]-vdist(P[C[i][0]],P[C[i][1]]))<1e-12,"%s: diagonal %d",what.c_str(),i); auto D=dihs(T); bool all=true; for(int i=0;i<n-3;i++){ bool ok; double t=refdihedral(P[D[i].a],P[D[i].b],P[D[i].c],P[D[i].d],ok); if(ok||t!=-9) MC_CHECK(ok==def[i],"%s: dihedral %d reported as %s",what.c_str(),i,def[i]?"defined":"undefined"); if(ok) MC_CHECK(adist(t,th[i])<1e-7&&th[i]>=0&&th[i]<=2*PI+1e-9,"%s: dihedral %d is %.12g instead of %.12g",what.c_str(),i,th[i],t); else all=false; }
  plCurve*M=tsmcmc_embed_polygon(T,el.data(),dl.data(),th.data()); MC_CHECK(M,"%s: the coordinates of an existing polygon are refused",what.c_str()); check_embedding(T,what,M,el,dl,th); 
  if(all){ for(int i=0;i<n;i++) for(int j=0;j<i;j++) MC_CHECK(std::fabs(vdist(P[i],P[j])-vdist(vv(M->cp[0].vt[i]),vv(M->cp[0].vt[j])))<1e-6,"%s: vertices %d and %d are %.9g apart after embedding",what.c_str(),i,j,vdist(vv(M->cp[0].vt[i]),vv(M->cp[0].vt[j]))); for(int i=0;i<n;i++) for(int j=0;j<i;j++) for(int k=0;k<j;k++) for(int l=0;l<k;l++){ auto vol=[&](V3 a,V3 b,V3 c,V3 d){ return vdot(vadd(a,d,-1),vcross(vadd(b,d,-1),vadd(c,d,-1))); }; double x=vol(P[i],P[j],P[k],P[l]); auto w=[&](int q){ return vv(M->cp[0].vt[q]); }; MC_CHECK(std::fabs(x-vol(w(i),w(j),w(k),w(l)))<1e-4,"%s: embedded as the mirror image",what.c_str()); } mc_outcome("congruent"); } else mc_outcome("degenerate");
  bool flag=tsmcmc_polygon_embedding_ok(L,T,el.data(),dl.data(),th.data()); MC_CHECK(flag,"%s: own coordinates refused",what.c_str()); if(n>3&&dl[0]>0.1){ dl[0]+=1e-6; MC_CHECK(!tsmcmc_polygon_embedding_ok(L,T,el.data(),dl.data(),th.data()),"%s: wrong diagonal accepted",what.c_str()); dl[0]-=1e-6; } el[n/2]+=1e-6; MC_CHECK(!tsmcmc_polygon_embedding_ok(L,T,el.data(),dl.data(),th.data()),"%s: wrong edge accepted",what.c_str()); el[n/2]-=1e-6; if(n>3&&def[n-4]){ th[n-4]+=1e-6; MC_CHECK(!tsmcmc_polygon_embedding_ok(L,T,el.data(),dl.data(),th.data()),"%s: wrong dihedral accepted",what.c_str()); th[n-4]-=1e-6; th[n-4]+=2*PI; MC_CHECK(tsmcmc_polygon_embedding_ok(L,T,el.data(),dl.data(),th.data()),"%s: a dihedral angle given with one more turn refused",what.c_str()); th[n-4]-=4*PI; MC_CHECK(tsmcmc_polygon_embedding_ok(L,T,el.data(),dl.data(),th.data()),"%s: a dihedral angle given with one turn less refused",what.c_str()); }
  mc_trans(); mc_trace(); mc_state(what); plc_free(L); plc_free(M); free(def); tsmcmc_triangulation_free(T); }
// coordinates given: feasible ones are embedded, others refused
static void coords(const tsmcmc_triangulation_t&T,const std::set<std::array<int,3>>&tri,int n,const Chords&C,std::vector<double> el,std::vector<double> dl,std::vector<double> th){ std::string what=chords_str(n,C)+" edges "+nums(el)+"diagonals "+nums(dl)+"angles "+nums(th); mc_note("%s",what.c_str()); auto len=[&](int a,int b){ if((a+1)%n==b) return el[a]; if((b+1)%n==a) return el[b]; for(int i=0;i<n-3;i++) if((C[i][0]==a&&C[i][1]==b)||(C[i][0]==b&&C[i][1]==a)) return dl[i]; return -1.0; }; bool feas=true,flat=false,clear=false; for(auto&t:tri){ double x=len(t[0],t[1]),y=len(t[1],t[2]),z=len(t[0],t[2]); if(x+y<z||y+z<x||z+x<y) feas=false; double mg=std::min(x+y-z,std::min(y+z-x,z+x-y)); if(mg!=0&&std::fabs(mg)<1e-11*(x+y+z)) flat=true; if(mg<-1e-11*(x+y+z)) clear=true; } if(clear) flat=false; for(double d:dl) if(d<0) feas=false; std::vector<double> e0=el,d0=dl,t0=th; dl.push_back(0); th.push_back(0); plCurve*L=tsmcmc_embed_polygon(T,el.data(),dl.data(),th.data()); dl.pop_back(); th.pop_back(); MC_CHECK(el==e0&&dl==d0&&th==t0,"%s: the coordinates were changed",what.c_str()); MC_CHECK(flat||(L!=NULL)==feas,"%s: %s",what.c_str(),L?"embedded although a triangle inequality fails":"refused although every triangle inequality holds"); bool dk=tsmcmc_diagonals_ok(T,el.data(),dl.data()); (void)dk; if(L){ check_embedding(T,what,L,el,dl,th); plc_free(L); mc_outcome("embedded"); } else mc_outcome("refused"); mc_trans(); mc_eval(); mc_trace(); }
static void grid(int n,const Chords&C,const std::vector<double>&EV,const std::vector<double>&DV,const std::vector<double>&TV,size_t tlimit,double unit=1){ tsmcmc_triangulation_t T=mk_tri(n,C); auto tri=triangles_of(n,C); int k=n-3; std::vector<std::vector<double>> els; els.push_back(std::vector<double>(n,unit)); for(double e:EV) for(int i=0;i<n;i++){ std::vector<double> x(n,unit); x[i]=e; els.push_back(x); } for(auto&el:els){ std::vector<int> d(k,0); size_t cnt=0; for(;;){ std::vector<double> dl; for(int x:d) dl.push_back(DV[x]); std::vector<int> t(k,0); size_t c=0; for(;;){ std::vector<double> th; for(size_t i=0;i<t.size();i++) th.push_back(TV[(t[i]+(tlimit==1?cnt*(i+1):0))%TV.size()]); coords(T,tri,n,C,el,dl,th); if(++c>=tlimit) break; int i=0; while(i<k&&++t[i]==(int)TV.size()) t[i++]=0; if(i==k) break; } cnt++; int i=0; while(i<k&&++d[i]==(int)DV.size()) d[i++]=0; if(i==k) break; } } tsmcmc_triangulation_free(T); }
static Chords from_tri(const tsmcmc_triangulation_t&T){ Chords C; for(int i=0;i<T.ndiags;i++) C.push_back({{T.diags[i].vt[0],T.diags[i].vt[1]}}); return C; }
static bool noncrossing(int n,const Chords&C){ for(size_t i=0;i<C.size();i++) for(size_t j=0;j<i;j++){ int a=C[i][0],b=C[i][1],c=C[j][0],d=C[j][1]; if((a==c&&b==d)||(a==d&&b==c)) return false; if(a==c||a==d||b==c||b==d) continue; auto in=[&](int x){ return (x-a+n)%n<(b-a+n)%n; }; if(in(c)!=in(d)) return false; } return true; }
void mc_main(){ bool T_=mc_thorough; int NT=T_?11:9;
  for(int n=3;n<=NT;n++){ auto A=all_triangulations(n); size_t chunk=200; for(size_t s=0;s<A.size();s+=chunk) mc_case(mc_fmt("triangulations of the %d-gon from %zu",n,s),[=]{ for(size_t i=s;i<std::min(A.size(),s+chunk);i++){ std::vector<Chords> var; Chords C=A[i]; var.push_back(C); Chords R=C; std::reverse(R.begin(),R.end()); var.push_back(R); for(auto&c:R) std::swap(c[0],c[1]); var.push_back(R); for(size_t q=0;q<C.size();q+=2) std::swap(C[q][0],C[q][1]); var.push_back(C); for(auto&V:var){ mc_note("%s",chords_str(n,V).c_str()); tsmcmc_triangulation_t T=mk_tri(n,V); structure(T,n,V,"triangulation"); if(n<=7||&V==&var[0]) forms(T,n,V); tsmcmc_triangulation_free(T); } } }); }
  // all orders and all orientations
  for(int n=4;n<=(T_?8:7);n++) mc_case(mc_fmt("chord orders of the %d-gon",n),[=]{ for(auto C:all_triangulations(n)){ std::vector<int> p(n-3); for(int i=0;i<n-3;i++) p[i]=i; do{ for(int m=0;m<1<<(n-3);m++){ Chords V; for(int i=0;i<n-3;i++){ auto c=C[p[i]]; if(m>>i&1) std::swap(c[0],c[1]); V.push_back(c); } tsmcmc_triangulation_t T=mk_tri(n,V); structure(T,n,V,"triangulation"); tsmcmc_triangulation_free(T); } }while(std::next_permutation(p.begin(),p.end())); } });
  for(int n=4;n<=(T_?7:6);n++) mc_case(mc_fmt("damaged %d-gon",n),[=]{ for(auto&C:all_triangulations(n)) damage(n,C); });
  // chord systems
  for(int n=4;n<=(T_?9:8);n++) mc_case(mc_fmt("chord systems of the %d-gon",n),[=]{ Chords ch; for(int a=0;a<n;a++) for(int b=0;b<n;b++) if(a!=b) ch.push_back({{a,b}}); size_t m=ch.size(); int K=n<=6?3:2; for(int k=1;k<=K;k++){ std::vector<size_t> d(k,0); for(;;){ Chords C; std::vector<tsmcmc_chord_t> c(k); for(int i=0;i<k;i++){ C.push_back(ch[d[i]]); c[i].vt[0]=ch[d[i]][0]; c[i].vt[1]=ch[d[i]][1]; } bool w=noncrossing(n,C); MC_CHECK(tsmcmc_chord_system_ok(k,c.data())==w,"chords %s: found %s",chords_str(n,C).c_str(),w?"crossing":"not crossing"); mc_outcome(w?"non-crossing":"crossing"); mc_eval(); mc_trans(); int i=0; while(i<k&&++d[i]==m) d[i++]=0; if(i==k) break; } } mc_trace(); });
  mc_case("long chord systems",[=]{ for(int n:{24,40}) for(int kind=0;kind<3;kind++){ tsmcmc_triangulation_t X=kind==0?tsmcmc_fan_triangulation(n):kind==1?tsmcmc_spiral_triangulation(n):tsmcmc_teeth_triangulation(n); Chords C=from_tri(X); tsmcmc_triangulation_free(X); auto ask=[&](const Chords&D,bool w){ std::vector<tsmcmc_chord_t> c(D.size()); for(size_t i=0;i<D.size();i++){ c[i].vt[0]=D[i][0]; c[i].vt[1]=D[i][1]; } MC_CHECK(tsmcmc_chord_system_ok(D.size(),c.data())==w,"chords of the %s: found %s",chords_str(n,D).c_str(),w?"crossing":"not crossing"); mc_eval(); mc_trans(); mc_outcome(w?"non-crossing":"crossing"); }; ask(C,true); for(size_t i=0;i<C.size();i++) for(size_t j=0;j<C.size();j++) if(i!=j){ Chords D=C; D[i]=C[j]; ask(D,false); std::swap(D[i][0],D[i][1]); ask(D,false); } for(size_t i=0;i<C.size();i++) for(int a=0;a<n;a++) for(int b=0;b<n;b++) if((b-a+n)%n>1&&(a-b+n)%n>1&&(T_||(a+b+i)%5==0)){ Chords D=C; D[i]={{a,b}}; int x=0; for(size_t j=0;j<D.size();j++) if(j!=i){ Chords Y={D[i],D[j]}; if(!noncrossing(n,Y)) x++; } if(x<=1) ask(D,x==0); } } mc_trace(); });
  for(int n=8;n<=9;n++) mc_case(mc_fmt("all random triangulations of the %d-gon",n),[=]{ std::set<Chords> seen; auto A=all_triangulations(n); long k=0; for(;k<(T_?4000000:400000)&&seen.size()<A.size();k++){ gsl_rng*r=rs_new({},1000+k); tsmcmc_triangulation_t T=tsmcmc_random_triangulation(r,n); gsl_rng_free(r); Chords C=from_tri(T); for(auto&c:C) if(c[0]>c[1]) std::swap(c[0],c[1]); std::sort(C.begin(),C.end()); seen.insert(C); tsmcmc_triangulation_free(T); mc_trans(); } MC_CHECK(seen.size()==A.size(),"%zu of the %zu triangulations of the %d-gon were drawn in %ld draws",seen.size(),A.size(),n,k); for(auto&C:seen) mc_state(chords_str(n,C)); mc_outcome("random"); });
  // the named triangulations
  mc_case("named triangulations",[=]{ for(int n=3;n<=60;n++){ tsmcmc_triangulation_t F=tsmcmc_fan_triangulation(n),S=tsmcmc_spiral_triangulation(n),H=tsmcmc_teeth_triangulation(n); Chords fan; for(int i=2;i<n-1;i++) fan.push_back({{0,i}}); structure(F,n,fan,"fan"); forms(F,n,fan); Chords sp; { std::vector<int> poly; for(int i=0;i<n;i++) poly.push_back(i); size_t p=0; while((int)sp.size()<n-3){ size_t m=poly.size(),q=(p+2)%m; sp.push_back({{poly[p],poly[q]}}); int t=poly[q]; poly.erase(poly.begin()+(p+1)%m); p=std::find(poly.begin(),poly.end(),t)-poly.begin(); } } structure(S,n,sp,"spiral"); forms(S,n,sp); Chords te; { int a=n-1,b=1; for(int i=0;i<n-3;i++){ if(i) { if(i%2) b++; else a--; } te.push_back({{a,b}}); } } structure(H,n,te,"teeth"); forms(H,n,te); tsmcmc_triangulation_free(F); tsmcmc_triangulation_free(S); tsmcmc_triangulation_free(H); } });
  for(int n=3;n<=(T_?9:8);n++) mc_case(mc_fmt("random triangulations of the %d-gon",n),[=]{ std::set<Chords> seen; int L=2*(n-3); std::vector<int> d(L,0); int m=n-2; // every sequence of choices, each random number one of m+1 cells
      if(n>7) m=3; for(;;){ std::vector<double> w; for(int x:d) w.push_back((x+0.5)/m); gsl_rng*r=rs_new(w,1); tsmcmc_triangulation_t T=tsmcmc_random_triangulation(r,n); MC_CHECK((int)rs_used<=L,"random triangulation of the %d-gon uses %zu random numbers",n,rs_used); Chords C=from_tri(T); MC_CHECK(noncrossing(n,C),"random triangulation: %s",chords_str(n,C).c_str()); structure(T,n,C,"random triangulation"); for(auto&c:C) if(c[0]>c[1]) std::swap(c[0],c[1]); std::sort(C.begin(),C.end()); seen.insert(C); tsmcmc_triangulation_free(T); gsl_rng_free(r); int i=0; while(i<L&&++d[i]==m) d[i++]=0; if(i==L) break; } auto A=all_triangulations(n); for(auto&C:seen) MC_CHECK(std::binary_search(A.begin(),A.end(),C),"%s is not a triangulation",chords_str(n,C).c_str()); if(n<=7) MC_CHECK(seen.size()==A.size(),"%zu of the %zu triangulations of the %d-gon can be drawn",seen.size(),A.size(),n); mc_outcome("random"); });
  mc_case("random triangulations",[=]{ for(int n=3;n<=60;n++) for(int c=0;c<(T_?100:20);c++){ gsl_rng*r=rs_new(c==0?std::vector<double>(200,0.0):c==1?std::vector<double>(200,1-1/4294967296.0):std::vector<double>(),c); tsmcmc_triangulation_t T=tsmcmc_random_triangulation(r,n); Chords C=from_tri(T); MC_CHECK(noncrossing(n,C),"random triangulation %s",chords_str(n,C).c_str()); structure(T,n,C,"random triangulation"); tsmcmc_triangulation_free(T); gsl_rng_free(r); } });
  // coordinates: every polygon over a small grid of points, every triangulation
  { std::vector<V3> P={{{0,0,0}},{{1,0,0}},{{0,1,0}},{{0.3,0.4,1}},{{0.1,0,0}},{{0.7,0,0}}}; if(T_){ P.push_back({{1,1,0.5}}); P.push_back({{-0.3,0.2,0.9}}); } for(int n=3;n<=5;n++) mc_case(mc_fmt("polygons with %d vertices",n),[=]{ auto A=all_triangulations(n); std::vector<int> d(n,0); for(;;){ std::vector<V3> Q; for(int x:d) Q.push_back(P[x]); for(auto&C:A) roundtrip(n,C,Q); int i=0; while(i<n&&++d[i]==(int)P.size()) d[i++]=0; if(i==n) break; } }); }
  for(int n=6;n<=(T_?9:8);n++) mc_case(mc_fmt("polygons with %d vertices",n),[=]{ auto A=all_triangulations(n); for(int s=0;s<(T_?60:12);s++){ std::vector<V3> Q; unsigned long x=s*7919+n; auto u=[&]{ x=x*6364136223846793005UL+1442695040888963407UL; return ((x>>33)%2001)/1000.0-1; }; for(int i=0;i<n;i++){ V3 v{{u(),u(),s%3==2?0:u()}}; if(s%4==3&&i>1&&i%2) v=vadd(Q[i-1],vadd(Q[i-1],Q[i-2],-1),0.7); Q.push_back(v); } for(auto&C:A) roundtrip(n,C,Q); } });
  mc_case("long polygons",[=]{ for(int n:{12,20,37}) for(int s=0;s<(T_?60:12);s++){ std::vector<V3> Q; unsigned long x=s*31+n; auto u=[&]{ x=x*6364136223846793005UL+1442695040888963407UL; return ((x>>33)%2001)/1000.0-1; }; for(int i=0;i<n;i++) Q.push_back({{u(),u(),u()}}); tsmcmc_triangulation_t X[3]={tsmcmc_fan_triangulation(n),tsmcmc_spiral_triangulation(n),tsmcmc_teeth_triangulation(n)}; for(auto&t:X){ roundtrip(n,from_tri(t),Q); tsmcmc_triangulation_free(t); } } });
  std::vector<double> TV={0,0.5,PI/2,PI,4,2*PI-0.25},DV={0,0.25,0.5,1,1.5,2,2.25,3}; for(int n=4;n<=5;n++) mc_case(mc_fmt("nearly flat triangles of the %d-gon",n),[=]{ for(auto&C:all_triangulations(n)) grid(n,C,{2-1e-6,1e-3},{1e-6,1e-3,5e-3,1-1e-6,1+1e-6,2-1e-3,2-1e-6,2,2+1e-6,2+1e-3},n==4?TV:std::vector<double>{0.5,4},1000); });
  for(int n=4;n<=5;n++) mc_case(mc_fmt("scaled coordinates of the %d-gon",n),[=]{ for(auto&C:all_triangulations(n)) for(double sc:{1e-3,1e3}){ std::vector<double> d; for(double x:{0.0,0.25,1.0,1.75,2.0,2.0002}) d.push_back(x*sc); grid(n,C,{0.5*sc,2*sc},d,{0,0.5,4},9,sc); } });
  for(int n=3;n<=5;n++) mc_case(mc_fmt("coordinates of the %d-gon",n),[=]{ for(auto&C:all_triangulations(n)) grid(n,C,{0.5,2,3},DV,TV,1000); });
  for(int n=6;n<=(T_?7:6);n++) mc_case(mc_fmt("coordinates of the %d-gon",n),[=]{ for(auto&C:all_triangulations(n)) grid(n,C,{0.5,2},{0,0.5,1,1.5,2,3},TV,1); });
}
