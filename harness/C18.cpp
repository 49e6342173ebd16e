// C18: the command-line tools for curves, each run on every curve of a pool with every option.
#include "strut.hpp"
#include <sys/wait.h>
#include <sys/stat.h>
#include <dirent.h>
extern "C" {
#include "octrope.h"
#include "plcTopology.h"
int vt_ropelength_main(int,char**); int vt_struts_main(int,char**); int vt_mrlocs_main(int,char**); int vt_plcurvature_main(int,char**); int vt_randompolygon_main(int,char**);
plc_knottype*vt_classify(gsl_rng*rng,plCurve*L,int*nposs);
}
typedef std::vector<std::string> VS;
typedef int (*Main)(int,char**);
static int g_dirs=0; static std::string g_dir,g_cmd;
static VS ls(const std::string&d){ VS r; DIR*p=opendir(d.c_str()); if(!p) return r; while(auto e=readdir(p)) if(strcmp(e->d_name,".")&&strcmp(e->d_name,"..")) r.push_back(e->d_name); closedir(p); std::sort(r.begin(),r.end()); return r; }
static void enter(){ g_dir=mc_fmt("d%d",g_dirs++); mkdir(g_dir.c_str(),0700); }
static void leave(){ for(auto&f:ls(g_dir)){ std::string p=g_dir+"/"+f; if(unlink(p.c_str())){ for(auto&h:ls(p)) unlink((p+"/"+h).c_str()); rmdir(p.c_str()); } } rmdir(g_dir.c_str()); }
static std::string slurp(const std::string&f){ std::string s; FILE*p=fopen((g_dir+"/"+f).c_str(),"r"); if(!p) return "<no file>"; char b[4096]; size_t n; while((n=fread(b,1,4096,p))>0) s.append(b,n); fclose(p); return s; }
static void put(const std::string&f,const std::string&t){ FILE*p=fopen((g_dir+"/"+f).c_str(),"w"); MC_CHECK(p,"scratch file"); fwrite(t.data(),1,t.size(),p); fclose(p); }
// runs a tool in a process of its own inside the scratch directory, its output in .out; returns its exit code
static int tool(Main m,const VS&a){ g_cmd=""; for(auto&x:a) g_cmd+=x+" "; mc_trans(); fflush(NULL); pid_t p=fork(); if(p==0){ if(chdir(g_dir.c_str())) _exit(99); if(!freopen(".out","w",stdout)) _exit(98); std::vector<char*> v; VS c=a; for(auto&x:c) v.push_back((char*)x.c_str()); v.push_back(NULL); int rc=-1; int k=mc_guarded([&]{ rc=m((int)a.size(),v.data()); }); fflush(NULL); _exit(k==0?rc:k==1?mc_exit_code:90+k); } int st=0; waitpid(p,&st,0); MC_CHECK(WIFEXITED(st),"%sis killed by signal %d",g_cmd.c_str(),WTERMSIG(st)); int rc=WEXITSTATUS(st); MC_CHECK(rc!=66,"%smakes a memory error",g_cmd.c_str()); MC_CHECK(rc!=92&&rc!=93,"%s%s",g_cmd.c_str(),rc==92?"aborts":"fails an assertion"); mc_eval(); return rc; }
static std::string vect(const Curve&C){ plCurve*L=to_plc(C); char*b=0; size_t n=0; FILE*f=open_memstream(&b,&n); plc_write(f,L); fclose(f); plc_free(L); std::string r(b,n); free(b); return r; }
static VS lines(const std::string&s){ VS r; size_t p=0; while(p<s.size()){ size_t e=s.find('\n',p); if(e==std::string::npos) e=s.size(); r.push_back(s.substr(p,e-p)); p=e+1; } return r; }
static std::vector<double> nums(const std::string&s){ std::vector<double> r; const char*p=s.c_str(); while(*p){ char*e; double x=(isdigit((unsigned char)*p)||*p=='-'||*p=='+'||*p=='.'||*p=='i'||*p=='n')?strtod(p,&e):(e=(char*)p,0); if(e!=p){ r.push_back(x); p=e; } else p++; } return r; }
static bool rel(double a,double b,double tol){ return a==b||std::fabs(a-b)<=tol*(1+std::fabs(b)); }
// the number printed after "FILE:...label" in the output
static double after(const std::string&out,const std::string&file,const std::string&label){ for(auto&l:lines(out)){ if(l.compare(0,file.size()+1,file+":")) continue; size_t p=l.find(label); if(p==std::string::npos||(p&&l[p-1]!=':'&&l[p-1]!=' ')) continue; if(label=="Ropelength:"&&l.find("Diameter")!=std::string::npos) continue; if(label=="Thickness:"&&l.find("Diameter")!=std::string::npos) continue; return strtod(l.c_str()+p+label.size(),NULL); } return NAN; }
struct Item{ std::string name; Curve C; std::vector<Strut> M; std::vector<Mr> R; double len,lo,mr; int ne; bool sure; };
static Item item(const std::string&nm,const Curve&C){ Item I; I.name=nm; I.C=C; I.M=model(C); I.R=mrmodel(C); I.len=0; I.ne=0; I.lo=I.mr=DBL_MAX; I.sure=true; for(auto&m:I.M){ I.lo=std::min(I.lo,m.len); if(!m.sure) I.sure=false; } for(auto&m:I.R) I.mr=std::min(I.mr,m.r); for(auto&k:C){ int n=k.v.size(); for(int i=0;i<n-(k.open?1:0);i++){ I.len+=vdist(k.v[i],k.v[(i+1)%n]); I.ne++; } } if(I.M.empty()||I.R.empty()||I.lo<1e-3) I.sure=false; return I; }
static Curve scaled(const Curve&C,double s){ Curve K=C; for(auto&k:K) for(auto&v:k.v) v=vscale(s,v); return K; }
static void rope(const std::vector<const Item*>&V,double lambda,bool quiet,int levels,bool diam){ enter(); VS a={"ropelength"}; std::vector<std::string> fn; for(size_t i=0;i<V.size();i++){ fn.push_back(mc_fmt("knot%zu.vect",i)); put(fn[i],vect(V[i]->C)); } if(lambda!=1||levels){ a.push_back("--lambda"); a.push_back(mc_fmt("%.17g",lambda)); } if(quiet) a.push_back("-q"); if(levels){ a.push_back("-l"); a.push_back(mc_fmt("%d",levels)); } if(diam) a.push_back("--diameter"); for(auto&f:fn) a.push_back(f);
  int rc=tool(vt_ropelength_main,a); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); std::string out=slurp(".out"); VS ln=lines(out); size_t best=0; double br=DBL_MAX; std::vector<double> th(V.size()); for(size_t i=0;i<V.size();i++){ const Item&I=*V[i]; th[i]=lambda>0?std::min(I.lo/2,I.mr/lambda):I.lo/2; double rl=I.len/th[i]; if(rl<br){ br=rl; best=i; }
    auto is=[&](const char*label,double w){ double g=after(out,fn[i],label); MC_CHECK(rel(g,w,2e-6),"%sprints %s %.9g for %s instead of %.9g",g_cmd.c_str(),label,g,I.name.c_str(),w); };
    if(quiet){ MC_CHECK(ln.size()>i,"%sprints %zu lines",g_cmd.c_str(),ln.size()); double g=strtod(ln[i].c_str(),NULL); MC_CHECK(rel(g,rl,1e-9),"%sprints %.17g instead of %.17g",g_cmd.c_str(),g,rl); }
    else { is("Ropelength:",rl); is("Thickness:",th[i]); is("Diameter Ropelength:",rl/2); is("Diameter Thickness:",2*th[i]); is("minStrut:",I.lo); if(lambda>0) is("minRad:",I.mr); is("Edges:",I.ne); is("Average Edgelength:",I.len/I.ne);
      if(diam){ double d=0; for(auto&k:I.C) for(auto&p:k.v) for(auto&l:I.C) for(auto&q:l.v) d=std::max(d,vdist(p,q)); double g=after(out,fn[i],"Pointset Diameter:"); MC_CHECK(rel(g,d,1e-5),"%sprints diameter %.9g instead of %.9g",g_cmd.c_str(),g,d); } } }
  if(quiet&&V.size()==1) MC_CHECK(ln.size()==1,"%sprints %zu lines",g_cmd.c_str(),ln.size());
  if(V.size()>1){ bool tie=false; for(size_t i=0;i<V.size();i++) if(i!=best&&rel(V[i]->len/th[i],br,1e-9)) tie=true; std::string w; for(auto&l:ln) if(l.find(" Rop:")!=std::string::npos) w=l; MC_CHECK(!w.empty(),"%sdoes not name the best file",g_cmd.c_str()); if(!tie){ MC_CHECK(w.compare(0,fn[best].size()+1,fn[best]+" ")==0,"%snames '%s' as the best; it is %s",g_cmd.c_str(),w.c_str(),fn[best].c_str()); double g=strtod(w.c_str()+w.find("Rop:")+4,NULL),h=strtod(w.c_str()+w.find("Thi:")+4,NULL); MC_CHECK(rel(g,br,1e-4)&&rel(h,th[best],1e-4),"%snames '%s' as the best; ropelength %.9g, thickness %.9g",g_cmd.c_str(),w.c_str(),br,th[best]); } }
  for(size_t i=0;i<V.size();i++) MC_CHECK(slurp(fn[i])==vect(V[i]->C),"%schanged its input",g_cmd.c_str()); mc_outcome("ropelength"); leave(); }
// one open component: the curve is scaled to thickness 1, where the excess length is length minus the distance of the ends
static void excess(const Item&I){ int o=-1,no=0; for(size_t c=0;c<I.C.size();c++) if(I.C[c].open){ o=c; no++; } if(no!=1) return; double th=std::min(I.lo/2,I.mr); Curve C=scaled(I.C,1/th); enter(); put("o.vect",vect(C)); int rc=tool(vt_ropelength_main,{"ropelength","--excesslength","o.vect"}); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); double g=after(slurp(".out"),"o.vect","excesslength:"),w=I.len/th-vdist(C[o].v[0],C[o].v.back()); MC_CHECK(rel(g,w,2e-6),"%sprints excess length %.9g instead of %.9g",g_cmd.c_str(),g,w); mc_outcome("excess"); leave(); }
static V3 pt(const Item&I,int c,int e,double s){ auto&v=I.C[c].v; return vadd(v[e],vadd(v[(e+1)%v.size()],v[e],-1),s); }
// mode 0: default, 1: epsilon x, 2: radius x
static void strutset(const Item&I,int mode,double x,int maxst,int fl,const std::string&base,const std::string&ext){ enter(); std::string fn=base+ext; put(fn,vect(I.C)); VS a={"struts"}; bool S=fl&1,st=fl&2,sv=fl&4,nf=fl&8; if(mode){ a.push_back(mode==1?"-e":"-r"); a.push_back(mc_fmt("%.17g",x)); } if(maxst){ a.push_back("-M"); a.push_back(mc_fmt("%d",maxst)); } if(S) a.push_back("-S"); if(st) a.push_back("-s"); if(sv) a.push_back("--sv"); if(nf) a.push_back("-n"); if(fl&16){ a.push_back("-l"); a.push_back("3"); } a.push_back(fn);
  double bound=mode==0?1:mode==1?I.lo+x:2*x; std::vector<const Strut*> w; for(auto&m:I.M) if(m.len<=bound) w.push_back(&m); int full=w.size(),n=maxst?std::min(maxst,full):full; int rc=tool(vt_struts_main,a); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); std::string out=slurp(".out"); bool file=!nf&&!sv; size_t p=out.rfind("struts: "); MC_CHECK(p!=std::string::npos,"%sdoes not report its struts",g_cmd.c_str()); int rep=atoi(out.c_str()+p+8); if(!maxst||mode!=1) MC_CHECK(rep==n,"%sreports %d struts, %d expected",g_cmd.c_str(),rep,n); else MC_CHECK(rep<=maxst&&rep<=full,"%sreports %d struts",g_cmd.c_str(),rep); n=rep;
  auto match=[&](V3 A,V3 B,double tol,std::set<const Strut*>&seen){ for(auto m:w){ V3 P=pt(I,m->c[0],m->e[0],m->s[0]),Q=pt(I,m->c[1],m->e[1],m->s[1]); if((near3(P,A,tol)&&near3(Q,B,tol))||(near3(P,B,tol)&&near3(Q,A,tol))){ if(seen.insert(m).second) return true; } } return false; };
  if(file){ std::string sk=slurp(base+".struts.skel"); VS L=lines(sk); MC_CHECK(L.size()==(size_t)(2+3*n)&&L[0]=="SKEL","%swrote %zu lines for %d struts",g_cmd.c_str(),L.size(),n); auto h=nums(L[1]); MC_CHECK(h.size()==2&&h[0]==2*n&&h[1]==n,"%swrote the header '%s'",g_cmd.c_str(),L[1].c_str()); std::set<const Strut*> seen; for(int i=0;i<n;i++){ auto e=nums(L[2+2*n+i]); MC_CHECK(e.size()==3&&e[0]==2&&e[1]>=0&&e[1]<2*n&&e[2]>=0&&e[2]<2*n,"%swrote the edge '%s'",g_cmd.c_str(),L[2+2*n+i].c_str()); auto P=nums(L[2+(int)e[1]]),Q=nums(L[2+(int)e[2]]); MC_CHECK(P.size()==3&&Q.size()==3,"%swrote a bad vertex",g_cmd.c_str()); MC_CHECK(match(V3{{P[0],P[1],P[2]}},V3{{Q[0],Q[1],Q[2]}},3e-5*(1+std::fabs(P[0])+std::fabs(P[1])+std::fabs(P[2])),seen),"%swrote a strut %s %s which is none (or twice)",g_cmd.c_str(),L[2+(int)e[1]].c_str(),L[2+(int)e[2]].c_str()); } }
  else MC_CHECK(slurp(base+".struts.skel")=="<no file>","%swrote a file",g_cmd.c_str());
  if(sv){ int k=0; std::set<const Strut*> seen; for(auto&l:lines(out)) if(l.find(" to ")!=std::string::npos&&l.find("written")==std::string::npos){ auto q=nums(l); if(q.size()!=6) continue; k++; MC_CHECK(match(V3{{q[0],q[1],q[2]}},V3{{q[3],q[4],q[5]}},1e-8,seen),"%sprints the strut '%s', which is none (or twice)",g_cmd.c_str(),l.c_str()); } MC_CHECK(k==n,"%sprints %d of %d struts",g_cmd.c_str(),k,n); }
  if(S){ int k=0; std::set<const Strut*> seen; for(auto&l:lines(out)){ int c0,v0,c1,v1; double s0,s1; if(sscanf(l.c_str(),"%d:%d - %d:%d %lf %lf",&c0,&v0,&c1,&v1,&s0,&s1)!=6) continue; k++; bool ok=false; for(auto m:w) for(int f=0;f<2;f++) if(m->c[f]==c0&&m->e[f]==v0&&m->c[!f]==c1&&m->e[!f]==v1&&rel(m->s[f],s0,1e-7)&&rel(m->s[!f],s1,1e-7)&&seen.insert(m).second) ok=true; MC_CHECK(ok,"%sprints '%s', which is no strut (or twice)",g_cmd.c_str(),l.c_str()); } MC_CHECK(k==n,"%sprints %d of %d struts",g_cmd.c_str(),k,n); }
  if(st&&n==full){ std::map<std::pair<int,int>,int> cnt; for(auto m:w) for(int f=0;f<2;f++) cnt[{m->c[f],m->e[f]}]++; std::vector<int> top; for(auto&x:cnt) top.push_back(x.second); while((int)top.size()<I.ne) top.push_back(0); std::sort(top.rbegin(),top.rend()); int k=0,kl=0; std::vector<double> len; for(auto m:w) len.push_back(m->len); std::sort(len.begin(),len.end()); std::set<std::pair<int,int>> seen;
    for(auto&l:lines(out)){ int c,v,q; if(sscanf(l.c_str()," Comp: %d Lead Vert: %d # of struts: %d",&c,&v,&q)==3){ MC_CHECK(k<I.ne&&top[k]==q&&(cnt.count({c,v})?cnt[{c,v}]:0)==q&&seen.insert({c,v}).second,"%sprints '%s'; the edge has %d struts, the count in place %d is %d",g_cmd.c_str(),l.c_str(),cnt.count({c,v})?cnt[{c,v}]:0,k,k<I.ne?top[k]:-1); k++; } double L; int c1,v1; double s0,s1; int c0,v0; if(sscanf(l.c_str(),"%lf %d:%d (%lf) - %d:%d (%lf)",&L,&c0,&v0,&s0,&c1,&v1,&s1)==7){ bool ok=kl<(int)len.size()&&rel(L,len[kl],1e-4); bool f2=false; for(auto m:w) for(int f=0;f<2;f++) if(m->c[f]==c0&&m->e[f]==v0&&m->c[!f]==c1&&m->e[!f]==v1&&rel(m->s[f],s0,1e-4)&&rel(m->s[!f],s1,1e-4)&&rel(m->len,L,1e-4)) f2=true; MC_CHECK(ok&&f2,"%sprints '%s' as strut %d by length",g_cmd.c_str(),l.c_str(),kl); kl++; } }
    MC_CHECK(k==std::min(I.ne,10)&&kl==std::min(n,10),"%sprints %d edges and %d struts",g_cmd.c_str(),k,kl); }
  MC_CHECK(slurp(fn)==vect(I.C),"%schanged its input",g_cmd.c_str()); mc_outcome(mc_fmt("struts mode %d",mode)); leave(); }
static void mrset(const Item&I,int mode,double x,int maxmr,int fl,const std::string&base,const std::string&ext){ enter(); std::string fn=base+ext; put(fn,vect(I.C)); VS a={"mrlocs"}; bool st=fl&1,nf=fl&2; if(mode){ a.push_back(mode==1?"-e":"--lambda"); a.push_back(mc_fmt("%.17g",x)); } if(maxmr){ a.push_back("-M"); a.push_back(mc_fmt("%d",maxmr)); } if(st) a.push_back("-s"); if(nf) a.push_back("-n"); if(fl&4){ a.push_back("--levels"); a.push_back("2"); } a.push_back(fn);
  double bound=mode==0?0.5:mode==1?I.mr+x:x/2; std::vector<const Mr*> w; for(auto&m:I.R) if(m.r<=bound) w.push_back(&m); int full=w.size(),n=maxmr?std::min(maxmr,full):full; int rc=tool(vt_mrlocs_main,a); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); std::string out=slurp(".out"); auto num=[&](const char*l){ size_t p=0,q; while((q=out.find("mrlocs: ",p))!=std::string::npos){ p=q+8; if(isdigit(out[p])){ size_t e=out.find('\n',p); if(out.substr(p,e-p).find(l)!=std::string::npos) return atoi(out.c_str()+p); } } return -1; }; int rep=num(nf?"found":"written"); if(!maxmr||mode!=1) MC_CHECK(rep==n,"%sreports %d locations, %d expected",g_cmd.c_str(),rep,n); else MC_CHECK(rep>=0&&rep<=maxmr&&rep<=full,"%sreports %d locations",g_cmd.c_str(),rep); n=rep;
  auto list=[&](const VS&L,size_t from,const char*what,bool sorted){ std::set<const Mr*> seen; double last=-1; int k=0; for(size_t i=from;i<L.size();i++){ auto q=nums(L[i]); if(q.size()!=3) break; k++; bool ok=false; for(auto m:w) if(m->c==q[0]&&m->v==q[1]&&rel(m->r,q[2],1e-8)&&!seen.count(m)){ seen.insert(m); ok=true; break; } MC_CHECK(ok,"%s%s '%s', which is no location below %.9g (or twice)",g_cmd.c_str(),what,L[i].c_str(),bound); if(sorted) MC_CHECK(q[2]>=last,"%s%s '%s' out of order",g_cmd.c_str(),what,L[i].c_str()); last=q[2]; } MC_CHECK(k==n,"%s%s %d of %d locations",g_cmd.c_str(),what,k,n); };
  if(!nf){ VS L=lines(slurp(base+".mrlocs")); MC_CHECK(L.size()==(size_t)n+1&&L[0]=="MRLOCS","%swrote %zu lines for %d locations",g_cmd.c_str(),L.size(),n); list(L,1,"wrote",false); } else { MC_CHECK(slurp(base+".mrlocs")=="<no file>","%swrote a file",g_cmd.c_str()); size_t p=out.find("minrad "); while(p!=std::string::npos&&!isdigit(out[p+7])) p=out.find("minrad ",p+1); MC_CHECK(p!=std::string::npos&&rel(strtod(out.c_str()+p+7,NULL),I.mr,1e-4),"%sdoes not print minrad %.9g",g_cmd.c_str(),I.mr); }
  if(st){ VS L=lines(out); size_t i=0; while(i<L.size()&&L[i].compare(0,5,"-----")) i++; MC_CHECK(i<L.size(),"%sprints no table",g_cmd.c_str()); list(L,i+1,"prints",true); }
  MC_CHECK(slurp(fn)==vect(I.C),"%schanged its input",g_cmd.c_str()); mc_outcome(mc_fmt("mrlocs mode %d",mode)); leave(); }
static void curvature(const Item&I,const std::string&base,const std::string&ext,bool o,bool sub){ enter(); std::string fn=base+ext,arg=fn; if(sub){ mkdir((g_dir+"/in.d").c_str(),0700); arg="in.d/"+fn; } put(arg,vect(I.C)); VS a={"plcurvature",arg}; if(o){ a.push_back("-o"); a.push_back("out.txt"); } int rc=tool(vt_plcurvature_main,a); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); VS L; for(auto&l:lines(slurp(o?"out.txt":base+".curvature.dat"))) if(l.size()&&l[0]!='#') L.push_back(l); size_t i=0; double tot=0; std::vector<double> tk; auto ang=[](const V3&a,const V3&b){ return std::atan2(vnorm(vcross(a,b)),vdot(a,b)); };
  for(size_t c=0;c<I.C.size();c++){ auto&v=I.C[c].v; int n=v.size(); double s=0,t=0; for(int j=0;j<n;j++,i++){ MC_CHECK(i<L.size(),"%swrote %zu lines",g_cmd.c_str(),L.size()); auto q=nums(L[i]); bool end=I.C[c].open&&(j==0||j==n-1); V3 in=vadd(v[j],v[(j+n-1)%n],-1),out=vadd(v[(j+1)%n],v[j],-1); s+=vnorm(out); double th=end?0:ang(in,out),k=end?0:2*std::tan(th/2)/std::min(vnorm(in),vnorm(out)); t+=th; MC_CHECK(q.size()==5&&q[0]==c&&q[1]==j,"%swrote '%s' for vertex %d of component %zu",g_cmd.c_str(),L[i].c_str(),j,c); if(!(I.C[c].open&&j==n-1)) MC_CHECK(rel(q[2],s,2e-5),"%swrote '%s'; the arclength is %.9g",g_cmd.c_str(),L[i].c_str(),s); MC_CHECK(rel(q[3],k,2e-5),"%swrote '%s'; the curvature is %.9g",g_cmd.c_str(),L[i].c_str(),k); MC_CHECK(end?q[4]>1e300:rel(q[4],1/k,2e-5),"%swrote '%s'; the radius is %.9g",g_cmd.c_str(),L[i].c_str(),1/k); } tot+=t; tk.push_back(t); }
  MC_CHECK(i==L.size(),"%swrote %zu lines for %zu vertices",g_cmd.c_str(),L.size(),i); auto val=[&](const char*l){ std::string out=slurp(".out"); size_t p=out.find(l); if(p==std::string::npos) return std::vector<double>(); p+=strlen(l); return nums(out.substr(p,out.find('\n',p)-p)); }; auto A=val("(all components):"),B=val("(by component):"); MC_CHECK(A.size()==2&&rel(A[0],tot,2e-5)&&rel(A[1],tot/M_PI,2e-5),"%sprints a total curvature of %.9g instead of %.9g",g_cmd.c_str(),A.size()?A[0]:-1,tot); MC_CHECK(B.size()==2*tk.size(),"%sprints %zu numbers by component",g_cmd.c_str(),B.size()); for(size_t c=0;c<tk.size();c++) MC_CHECK(rel(B[2*c],tk[c],2e-5)&&rel(B[2*c+1],tk[c]/M_PI,2e-5),"%sprints a total curvature of %.9g instead of %.9g for component %zu",g_cmd.c_str(),B[2*c],tk[c],c); mc_outcome("plcurvature"); leave(); }
// ---- randompolygon
static int g_script=-1; static FILE*g_log; static std::vector<std::vector<VS>> g_answers; // the scripted knot types: a list of possibilities, each a list of factors
plc_knottype*vt_classify(gsl_rng*rng,plCurve*L,int*nposs){ if(g_script<0) return plc_classify(rng,L,nposs); auto&A=g_answers[(size_t)g_script%g_answers.size()]; int idx=g_script++; fprintf(g_log,"%d\n",idx); for(int i=0;i<L->cp[0].nv;i++) fprintf(g_log,"%.17g %.17g %.17g\n",L->cp[0].vt[i].c[0],L->cp[0].vt[i].c[1],L->cp[0].vt[i].c[2]); fflush(g_log); if(A.empty()){ *nposs=0; return NULL; } plc_knottype*r=(plc_knottype*)calloc(A.size(),sizeof *r); for(size_t i=0;i<A.size();i++){ r[i].nf=A[i].size(); for(size_t j=0;j<A[i].size();j++) sscanf(A[i][j].c_str(),"%d_%d",&r[i].cr[j],&r[i].ind[j]); } *nposs=A.size(); return r; }
static std::vector<std::vector<V3>> walks(const std::string&dir,const char*ext,int want){ VS f=ls(g_dir+"/"+dir); MC_CHECK((int)f.size()==want,"%swrote %zu files instead of %d",g_cmd.c_str(),f.size(),want); std::vector<std::vector<V3>> R; for(int i=0;i<want;i++){ std::string nm=mc_fmt("walk-%05d.%s",i,ext); MC_CHECK(std::find(f.begin(),f.end(),nm)!=f.end(),"%sdid not write %s",g_cmd.c_str(),nm.c_str()); std::vector<V3> v; if(!strcmp(ext,"vect")){ FILE*p=fopen((g_dir+"/"+dir+"/"+nm).c_str(),"r"); int e=0; char s[80]; plCurve*L=plc_read(p,&e,s,80); fclose(p); MC_CHECK(L&&e==0&&L->nc==1&&!L->cp[0].open,"%swrote %s, which is not a closed polygon",g_cmd.c_str(),nm.c_str()); for(int j=0;j<L->cp[0].nv;j++) v.push_back(vv(L->cp[0].vt[j])); plc_free(L); } else for(auto&l:lines(slurp(dir+"/"+nm))){ auto q=nums(l); MC_CHECK(q.size()==3,"%swrote the line '%s'",g_cmd.c_str(),l.c_str()); v.push_back(V3{{q[0],q[1],q[2]}}); } R.push_back(v); } return R; }
struct Opt{ int n,s,seed; double r,ftc; bool sap; int skip,burn; double beta,delta; int mpr; };
static VS args(const Opt&o){ VS a={"randompolygon","-n",mc_fmt("%d",o.n),"-s",mc_fmt("%d",o.s),"--seed",mc_fmt("%d",o.seed)}; auto d=[&](const char*k,double x){ a.push_back(k); a.push_back(mc_fmt("%.17g",x)); }; if(o.r>0) d("-r",o.r); if(o.ftc>0) d("--failure-to-close",o.ftc); if(o.sap) a.push_back("--sap"); if(o.skip>=0) d("--skip",o.skip); if(o.burn>=0) d("-b",o.burn); if(o.beta>=0) d("--beta",o.beta); if(o.delta>=0) d("--delta",o.delta); if(o.mpr>=0) d("--moment-polytope-repeat",o.mpr); return a; }
static void shape(const Opt&o,const std::vector<V3>&v){ MC_CHECK((int)v.size()==o.n,"%swrote a polygon with %zu edges",g_cmd.c_str(),v.size()); int odd=0; for(int j=0;j<o.n;j++){ double l=vdist(v[j],v[(j+1)%o.n]); MC_CHECK(std::isfinite(l),"%swrote a vertex that is not finite",g_cmd.c_str()); if(std::fabs(l-1)>1e-6){ odd++; MC_CHECK(o.ftc>0&&std::fabs(l-o.ftc)<1e-6,"%swrote a polygon with an edge of length %.9g",g_cmd.c_str(),l); } if(o.r>0) MC_CHECK(vdist(v[j],v[0])<=o.r+1e-6,"%swrote a vertex at distance %.9g",g_cmd.c_str(),vdist(v[j],v[0])); if(o.sap) for(int k=0;k<j;k++) MC_CHECK(vdist(v[j],v[k])>=1-1e-6,"%swrote a polygon which meets itself (%.9g)",g_cmd.c_str(),vdist(v[j],v[k])); } MC_CHECK(odd==(o.ftc>0&&o.ftc!=1?1:0),"%swrote a polygon with %d special edges",g_cmd.c_str(),odd); }
static void walk(const Opt&o){ enter(); VS a=args(o); VS b=a; b.push_back("-o"); b.push_back("w"); mkdir((g_dir+"/w").c_str(),0700); put("w/stale.vect","stale"); put("keep.vect","mine"); mc_note("randompolygon"); int rc=tool(vt_randompolygon_main,b); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); auto V=walks("w","vect",o.s); mc_state(g_cmd); for(auto&v:V) shape(o,v); for(size_t i=0;i<V.size();i++) for(size_t j=0;j<i;j++) if(o.n>3&&(o.r<=0&&o.ftc<=0)) MC_CHECK(V[i]!=V[j],"%swrote polygon %zu twice",g_cmd.c_str(),i); MC_CHECK(slurp("keep.vect")=="mine","%stouched another file",g_cmd.c_str());
  VS t=slurp("w/walk-00000.vect")=="<no file>"?VS():VS{slurp("w/walk-00000.vect")}; rc=tool(vt_randompolygon_main,b); MC_CHECK(rc==0,"%sexits with %d the second time",g_cmd.c_str(),rc); MC_CHECK(walks("w","vect",o.s)==V,"%swrites other polygons for the same seed",g_cmd.c_str());
  VS c=a; c.push_back("-f"); c.push_back("Mathematica"); c.push_back("-o"); c.push_back("m"); rc=tool(vt_randompolygon_main,c); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); auto W=walks("m","csv",o.s); for(int i=0;i<o.s;i++){ MC_CHECK(W[i].size()==V[i].size(),"%swrote %zu vertices",g_cmd.c_str(),W[i].size()); for(int j=0;j<o.n;j++) MC_CHECK(near3(W[i][j],V[i][j],2e-5*(1+vnorm(V[i][j]))),"%swrote vertex %d of walk %d as %s instead of %s",g_cmd.c_str(),j,i,vstr(W[i][j]).c_str(),vstr(V[i][j]).c_str()); }
  for(int k=-1;k<=o.n;k++){ if(o.n>5&&k>2&&k<o.n-1&&k!=o.n/2) continue; VS d=a; d.push_back("-f"); d.push_back("ChordLength"); if(k>=0){ d.push_back("--chord_skip"); d.push_back(mc_fmt("%d",k)); } d.push_back("-o"); d.push_back("c.csv"); rc=tool(vt_randompolygon_main,d); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); auto q=nums(slurp("c.csv")); MC_CHECK((int)q.size()==o.s,"%swrote %zu lengths",g_cmd.c_str(),q.size()); int kk=k<0?o.n/2:k; for(int i=0;i<o.s;i++){ double w=vdist(V[i][0],V[i][kk%o.n]); MC_CHECK(rel(q[i],w,1e-9),"%swrote the chord length %.12g instead of %.12g",g_cmd.c_str(),q[i],w); } }
  mc_outcome("randompolygon"); mc_trace(); leave(); }
static VS fac(const std::string&s){ VS r; size_t p=0; while(p<s.size()){ size_t e=s.find('#',p); if(e==std::string::npos) e=s.size(); r.push_back(s.substr(p,e-p)); p=e+1; } std::sort(r.begin(),r.end()); return r; }
// a run in which the classifier gives every list of answers in turn: exactly the polygons with a matching answer are kept
static void typed(const std::string&want,const std::vector<std::vector<VS>>&ans){ g_answers=ans; VS w=fac(want); std::vector<char> good; int per=0; for(auto&A:ans){ bool g=false; for(auto f:A){ std::sort(f.begin(),f.end()); if(f==w) g=true; } good.push_back(g); per+=g; } if(!per) return; int s=per+per/2+1; enter(); Opt o={5,s,3,-1,-1,false,-1,-1,-1,-1,-1}; VS a=args(o); a.push_back("-k"); a.push_back(want); a.push_back("-o"); a.push_back("w"); mc_note("randompolygon -k %s",want.c_str()); g_log=fopen((g_dir+"/log").c_str(),"w"); g_script=0; int rc=tool(vt_randompolygon_main,a); g_script=-1; fclose(g_log); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); auto V=walks("w","vect",s); std::vector<std::vector<V3>> keep; VS L=lines(slurp("log")); MC_CHECK(L.empty()||L.size()%(o.n+1)==0,"log"); for(size_t i=0;i+o.n<L.size();i+=o.n+1){ int idx=atoi(L[i].c_str()); if(!good[idx%good.size()]) continue; std::vector<V3> v; for(int j=0;j<o.n;j++){ auto q=nums(L[i+1+j]); v.push_back(V3{{q[0],q[1],q[2]}}); } keep.push_back(v); }
  if(L.size()){ MC_CHECK((int)keep.size()==s,"%skept %d polygons, %zu had the requested type",g_cmd.c_str(),s,keep.size()); for(int i=0;i<s;i++) for(int j=0;j<o.n;j++) MC_CHECK(near3(keep[i][j],V[i][j],1e-9),"%swrote a polygon as walk %d which is not the one of the requested type",g_cmd.c_str(),i); } mc_outcome("knot type "+want); mc_trace(); leave(); }
static double frac(unsigned k){ return std::fmod(k*0.6180339887498949+std::fmod(k*k*0.7548776662466927,1.0),1.0); }
void mc_main(){ bool T=mc_thorough; static std::vector<Item> P; int seed=1; auto add=[&](const std::string&nm,const std::vector<std::pair<int,bool>>&sh,int kind){ for(int tries=0;tries<200;tries++){ Curve C; for(auto&x:sh){ Comp k; k.open=x.second; int n=x.first; double ox=1.3*C.size(); for(int i=0;i<n;i++){ seed++; V3 j{{frac(7*seed),frac(11*seed+3),frac(13*seed+5)}}; double t=2*M_PI*i/n; if(kind==0) k.v.push_back(vadd(j,V3{{ox*0.4,0,0}})); else k.v.push_back(vadd(V3{{ox+(2+cos(3*t))*cos(2*t),(2+cos(3*t))*sin(2*t)+ox*0.3,sin(3*t)}},j,0.15)); } k.cst.resize(n); C.push_back(k); } Item I=item(nm,C); if(!I.sure||I.mr<1e-3) continue; P.push_back(I); return; } MC_CHECK(false,"no curve %s",nm.c_str()); };
  for(int n=4;n<=(T?9:7);n++) for(int o=0;o<2;o++) for(int r=0;r<(T?6:3);r++) add(mc_fmt("%s of %d vertices, no. %d",o?"arc":"polygon",n,r),{{n,(bool)o}},0);
  for(int a=3;a<=5;a++) for(int b=3;b<=4;b++) for(int o=0;o<4;o++) add(mc_fmt("two components %d,%d,%d",a,b,o),{{a,(bool)(o&1)},{b,(bool)(o&2)}},0);
  add("three components",{{4,false},{3,true},{5,false}},0); add("a segment and a polygon",{{2,true},{6,false}},0); for(int n:{14,23,31}) add(mc_fmt("fine knot of %d",n),{{n,false}},1); add("two fine knots",{{19,false},{13,true}},1);
  for(size_t i=0;i<P.size();i++) mc_case("ropelength of "+P[i].name,[&,i]{ mc_state(curve_str(P[i].C)); for(double la:{1.,0.,0.3,2.}) for(int q=0;q<2;q++) for(int lv:{0,1,4}){ if(lv&&q) continue; rope({&P[i]},la,q,lv,!q&&!lv); } excess(P[i]); for(size_t j:{(i+1)%P.size(),(i+7)%P.size()}){ rope({&P[i],&P[j]},1,false,0,false); rope({&P[j],&P[i],&P[(i+3)%P.size()]},0.5,j%2,0,true); } mc_trace(); mc_sample("ropelength of "+P[i].name); });
  for(size_t i=0;i<P.size();i++) mc_case("struts of "+P[i].name,[&,i]{ const Item&I=P[i]; std::vector<double> l; for(auto&m:I.M) l.push_back(m.len); std::sort(l.begin(),l.end()); std::vector<double> cut; for(size_t j=0;j+1<l.size();j++) if(l[j+1]-l[j]>1e-4) cut.push_back((l[j]+l[j+1])/2); cut.push_back(l.back()+1); cut.push_back(l[0]/2); size_t st=1+cut.size()/5; int k=0; static const char*B[3]={"kn","a.b","vect"}; static const char*E[3]={".vect",".vect",""};
    for(size_t j=0;j<cut.size();j+=(j+2*st<cut.size()?st:1)) for(int fl:{3,0,4,15,24+2}){ k++; strutset(I,2,cut[j]/2,0,fl,B[k%3],E[k%3]); if(cut[j]>l[0]) strutset(I,1,cut[j]-l[0],0,fl,B[k%3],E[k%3]); } for(int m:{1,2,(int)l.size()}) for(int fl:{3,12}){ strutset(I,2,(l.back()+1)/2,m,fl,"kn",".vect"); strutset(I,1,l.back()+1-l[0],m,fl,"kn",".vect"); }
    for(auto c:cut){ Item J=item(I.name,scaled(I.C,1/c)); if(J.sure||true) strutset(J,0,0,0,1,"kn",".vect"); if(++k>60) break; } mc_trace(); });
  for(size_t i=0;i<P.size();i++) mc_case("minrad locations and curvature of "+P[i].name,[&,i]{ const Item&I=P[i]; std::vector<double> l; for(auto&m:I.R) l.push_back(m.r); std::sort(l.begin(),l.end()); std::vector<double> cut; for(size_t j=0;j+1<l.size();j++) if(l[j+1]-l[j]>1e-4) cut.push_back((l[j]+l[j+1])/2); cut.push_back(l.back()+1); cut.push_back(l[0]/2); size_t st=1+cut.size()/6; int k=0; static const char*B[3]={"kn","a.b","vect"}; static const char*E[3]={".vect",".vect",""};
    for(size_t j=0;j<cut.size();j+=(j+2*st<cut.size()?st:1)) for(int fl:{0,1,2,7}){ k++; mrset(I,2,cut[j]*2,0,fl,B[k%3],E[k%3]); if(cut[j]>l[0]) mrset(I,1,cut[j]-l[0],0,fl,B[k%3],E[k%3]); } for(int m:{1,3,(int)l.size()}) for(int fl:{1,2}){ mrset(I,2,2*(l.back()+1),m,fl,"kn",".vect"); mrset(I,1,l.back()+1-l[0],m,fl,"kn",".vect"); } k=0; for(auto c:cut){ Item J=item(I.name,scaled(I.C,0.5/c)); mrset(J,0,0,0,k%2?1:2,"kn",".vect"); if(++k>12) break; }
    for(int b=0;b<3;b++) for(int o=0;o<2;o++) for(int s=0;s<2;s++) curvature(I,B[b],E[b],o,s); mc_trace(); });
  // random polygons
  static std::vector<Opt> O; for(int n:T?std::vector<int>{4,5,6,7,8,11,20,40}:std::vector<int>{4,5,7,12,30}) for(int s:{1,4}) for(int sd=1;sd<=(T?4:2);sd++){ O.push_back({n,s,sd,-1,-1,false,-1,-1,-1,-1,-1}); O.push_back({n,s,sd,-1,-1,false,3,7,-1,-1,-1}); if(n>=5&&n<=11) O.push_back({n,s,sd,-1,-1,true,-1,-1,-1,-1,-1}); for(double r:{1.2,2.0,50.0}) for(int k:{-1,0,2}) for(double b:{-1.,0.,1.}) O.push_back({n,s,sd,r,-1,false,k,k==0?0:k==2?9:-1,b,-1,k==2?3:-1}); for(double f:{0.4,1.7,n-1.5}) for(int k:{-1,0,3}) for(double b:{-1.,0.,1.}) for(double de:{-1.,0.,1.}) O.push_back({n,s,sd,-1,f,false,k,k==0?0:-1,b,de,-1}); }
  for(auto&o:O) mc_case(mc_fmt("random polygons n=%d s=%d seed=%d r=%g ftc=%g sap=%d skip=%d burn=%d beta=%g delta=%g",o.n,o.s,o.seed,o.r,o.ftc,o.sap,o.skip,o.burn,o.beta,o.delta),[&]{ walk(o); });
  static const std::vector<VS> types={{"0_1"},{"3_1"},{"4_1"},{"3_1","3_1"},{"3_1","4_1"},{"4_1","3_1"},{"8_5"},{"8_6"},{"3_1","3_1","4_1"}};
  static std::vector<std::vector<VS>> ans; ans.push_back({}); for(auto&a:types){ ans.push_back({a}); for(auto&b:types) if(&a!=&b) ans.push_back({a,b}); } if(T) for(auto&a:types) for(auto&b:types) for(auto&c:types) ans.push_back({a,b,c});
  for(auto&t:types) mc_case("samples of type "+mc_fmt("%s%s%s",t[0].c_str(),t.size()>1?("#"+t[1]).c_str():"",t.size()>2?"#..":""),[&]{ std::string w; for(auto&f:t) w+=(w.empty()?"":"#")+f; typed(w,ans); auto r=ans; std::reverse(r.begin(),r.end()); typed(w,r); });
  mc_case("samples classified by the library",[&]{ enter(); Opt o={8,6,5,-1,-1,false,-1,-1,-1,-1,-1}; VS a=args(o); for(auto&x:VS{"-k","0_1","-o","w"}) a.push_back(x); int rc=tool(vt_randompolygon_main,a); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); for(auto&v:walks("w","vect",o.s)) shape(o,v); leave(); mc_trace(); });
  // command lines and files that cannot be used
  mc_case("unusable input",[&]{ struct B{ Main m; VS a; bool err; }; std::vector<B> bad={{vt_ropelength_main,{"ropelength"},true},{vt_ropelength_main,{"ropelength","none.vect"},true},{vt_ropelength_main,{"ropelength","torn.vect"},true},{vt_ropelength_main,{"ropelength","k.vect","torn.vect"},true},{vt_ropelength_main,{"ropelength","-L","x","k.vect"},true},{vt_struts_main,{"struts"},false},{vt_struts_main,{"struts","torn.vect"},true},{vt_struts_main,{"struts","none.vect"},false},{vt_mrlocs_main,{"mrlocs"},false},{vt_mrlocs_main,{"mrlocs","torn.vect"},true},{vt_mrlocs_main,{"mrlocs","none.vect"},false},{vt_plcurvature_main,{"plcurvature"},true},{vt_plcurvature_main,{"plcurvature","torn.vect"},true},{vt_randompolygon_main,{"randompolygon"},false},{vt_randompolygon_main,{"randompolygon","-n","5"},true}};
    for(const char*x:{"--beta","--delta"}) for(const char*v:{"-0.5","1.5"}) bad.push_back({vt_randompolygon_main,{"randompolygon","-n","5","-s","1","-r","2",x,v},true}); for(const char*v:{"0","5","-1","9"}) bad.push_back({vt_randompolygon_main,{"randompolygon","-n","5","-s","1","--failure-to-close",v},true}); bad.push_back({vt_randompolygon_main,{"randompolygon","-n","5","-s","1","--failure-to-close","1","-r","2"},true}); for(const char*k:{"3_2","x","20_1","8_22","3_1#4_2"}) bad.push_back({vt_randompolygon_main,{"randompolygon","-n","5","-s","0","-k",k},true}); bad.push_back({vt_randompolygon_main,{"randompolygon","-n","5","-s","1","-f","PDF"},true}); for(const char*k:{"-1","6"}) bad.push_back({vt_randompolygon_main,{"randompolygon","-n","5","-s","1","-f","ChordLength","--chord_skip",k},true}); for(const char*k:{"--skip","-b","--moment-polytope-repeat"}) bad.push_back({vt_randompolygon_main,{"randompolygon","-n","5","-s","1","-r","2",k,"-1"},true});
    std::string good=vect(P[0].C); for(auto&b:bad){ enter(); put("k.vect",good); put("torn.vect",good.substr(0,good.size()/2)); VS before=ls(g_dir); mc_note("%s",b.a[0].c_str()); int rc=tool(b.m,b.a); if(b.err) MC_CHECK(rc!=0,"%sexits with 0",g_cmd.c_str()); VS now; for(auto&f:ls(g_dir)) if(f!=".out") now.push_back(f); MC_CHECK(now==before,"%swrites a file although it cannot work",g_cmd.c_str()); mc_outcome("refused"); leave(); mc_trace(); }
    for(auto&h:std::vector<std::pair<Main,VS>>{{vt_ropelength_main,{"ropelength","--help"}},{vt_struts_main,{"struts","--help"}},{vt_mrlocs_main,{"mrlocs","--help"}},{vt_plcurvature_main,{"plcurvature","--help"}},{vt_randompolygon_main,{"randompolygon","--help"}}}){ enter(); int rc=tool(h.first,h.second); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); leave(); } });
}
