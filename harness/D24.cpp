// D24: the command-line tools that work on files of diagrams, each run on every small store with every option.
#include "pdmodel.hpp"
#include <sys/wait.h>
#include <sys/stat.h>
#include <dirent.h>
extern "C" {
#define new new_
#include "pd_multidx.h"
#undef new
#include "pd_perm.h"
#include "pd_isomorphisms.h"
#include "pd_invariants.h"
#include "pd_storage.h"
int vt_joinpd_main(int,char**); int vt_splitpd_main(int,char**); int vt_filterpd_main(int,char**); int vt_computepd_main(int,char**); int vt_connectsum_main(int,char**); int vt_carbonizepd_main(int,char**);
}
typedef std::vector<std::string> VS;
struct Item { std::string dump,iso,full,hash,name; pd_code_t*pd; int nauto; bool sgn; };
static std::map<std::string,const Item*> g_by_dump;
static std::string key_of(const pd_code_t*pd){ pd_code_t*c=pd_copy((pd_code_t*)pd); c->uid=PD_UNSET_UID; std::string s=pd_dump(c); pd_code_free(&c); return s; }
static std::string iso_of(const Dia&E){ return mc_fmt("%d/",E.n)+dia_canon(E,CF_REFLECT); }
static Item mkitem(const Dia&D,const std::string&name){ Item I; I.pd=to_pd(D,default_lab(D)); for(unsigned c=0;c<I.pd->ncomps;c++) I.pd->comp[c].tag='A'+c; Dia E=from_pd(I.pd); I.iso=iso_of(E); I.full=mc_fmt("%d/",E.n)+dia_canon(E,CF_PLANE|CF_REFLECT); I.dump=key_of(I.pd); I.hash=I.pd->hash; I.name=name; I.nauto=E.n?dia_autos(E,CF_REFLECT):-1; I.sgn=true; for(int c=0;c<E.n;c++) if(E.sign[c]==PD_UNSET_ORIENTATION) I.sgn=false; return I; }
typedef std::vector<const Item*> Sto;
static std::string sname(const Sto&s){ std::string r="{"; for(auto i:s) r+=i->name+" "; return r+"}"; }
static int g_dirs=0; static std::string g_dir;
static void enter(){ g_dir=mc_fmt("d%d",g_dirs++); mkdir(g_dir.c_str(),0700); }
static VS files(){ VS r; DIR*d=opendir(g_dir.c_str()); while(auto e=readdir(d)) if(e->d_name[0]!='.') r.push_back(e->d_name); closedir(d); std::sort(r.begin(),r.end()); return r; }
static void leave(){ for(auto&f:files()) unlink((g_dir+"/"+f).c_str()); rmdir(g_dir.c_str()); }
static std::string slurp(const std::string&f){ std::string s; FILE*p=fopen((g_dir+"/"+f).c_str(),"r"); if(!p) return "<no file>"; char b[4096]; size_t n; while((n=fread(b,1,4096,p))>0) s.append(b,n); fclose(p); return s; }
static void put(const std::string&f,const std::string&t){ FILE*p=fopen((g_dir+"/"+f).c_str(),"w"); MC_CHECK(p,"scratch file"); fwrite(t.data(),1,t.size(),p); fclose(p); }
static std::string text_of(const Sto&s){ pd_stor_t*t=pd_new_pdstor(); for(auto i:s){ pd_code_t*c=pd_copy(i->pd); pd_addto_pdstor(t,c,NONE); pd_code_free(&c); } char*b=0; size_t n=0; FILE*f=open_memstream(&b,&n); pd_write_pdstor(f,t); fclose(f); pd_free_pdstor(&t); std::string r(b,n); free(b); return r; }
typedef int (*Main)(int,char**);
static std::string g_cmd;
// runs a tool in a process of its own inside the scratch directory; returns its exit code
static int tool(Main m,VS a){ g_cmd=""; for(auto&x:a) g_cmd+=x+" "; mc_trans(); pid_t p=fork(); if(p==0){ if(chdir(g_dir.c_str())) _exit(99); std::vector<char*> v; for(auto&x:a) v.push_back((char*)x.c_str()); v.push_back(NULL); int rc=-1; int k=mc_guarded([&]{ rc=m((int)a.size(),v.data()); }); fflush(NULL); _exit(k==0?rc:k==1?mc_exit_code:90+k); } int st=0; waitpid(p,&st,0); MC_CHECK(WIFEXITED(st),"%sis killed by signal %d",g_cmd.c_str(),WTERMSIG(st)); int rc=WEXITSTATUS(st); MC_CHECK(rc!=66,"%smakes a memory error",g_cmd.c_str()); MC_CHECK(rc!=92&&rc!=93,"%s%s",g_cmd.c_str(),rc==92?"aborts":"fails an assertion"); return rc; }
struct El { std::string iso,full,dump,hash; pd_uid_t uid; pd_code_t*pd; };
struct Elts { std::vector<El> v; ~Elts(){ for(auto&e:v) pd_code_free(&e.pd); } };
static void load(const std::string&f,Elts&r,bool known=true){ FILE*p=fopen((g_dir+"/"+f).c_str(),"r"); MC_CHECK(p,"%sdid not write %s",g_cmd.c_str(),f.c_str()); pd_stor_t*t=pd_read_pdstor(p,NONE); fclose(p); MC_CHECK(t,"%swrote %s, which cannot be read",g_cmd.c_str(),f.c_str()); for(pd_code_t*q=pd_stor_firstelt(t);q;q=pd_stor_nextelt(t)){ std::string w; MC_CHECK(pd_valid(q,w)&&pd_ok(q),"%swrote an invalid diagram (%s)",g_cmd.c_str(),w.c_str()); El e; e.dump=key_of(q); e.hash=q->hash; e.uid=q->uid; e.pd=q; if(known){ auto it=g_by_dump.find(e.dump); MC_CHECK(it!=g_by_dump.end(),"%swrote %s, which was not in its input",g_cmd.c_str(),pd_str(q).c_str()); e.iso=it->second->iso; e.full=it->second->full; } else e.iso=iso_of(from_pd(q)); r.v.push_back(e); } pd_free_pdstor(&t); mc_eval(); }
static VS keys(const Elts&r,int eq){ VS a; for(auto&e:r.v) a.push_back(eq==1?e.iso:eq==2?e.full:e.dump); std::sort(a.begin(),a.end()); return a; }
static VS want(const Sto&s,int eq){ VS a; for(auto i:s) a.push_back(eq==1?i->iso:eq==2?i->full:i->dump); std::sort(a.begin(),a.end()); if(eq) a.erase(std::unique(a.begin(),a.end()),a.end()); return a; }
static void same(const VS&got,const VS&w,const char*what){ MC_CHECK(got==w,"%sleaves %zu diagrams%s, %zu expected%s",g_cmd.c_str(),got.size(),what,w.size(),got.size()==w.size()?" (other ones)":""); }
static const char*REL[3]={"--no-checking","--isomorphism-checking","--isotopy-checking"};
static void join(const std::vector<Sto>&in,int eq,int how){ enter(); VS a={"joinpd"}; Sto all; std::string n; for(size_t i=0;i<in.size();i++){ put(mc_fmt("in%zu.pdstor",i),text_of(in[i])); a.push_back(mc_fmt("in%zu.pdstor",i)); all.insert(all.end(),in[i].begin(),in[i].end()); n+=sname(in[i]); } std::string out=how==1?"in0.pdstor":"out.pdstor"; if(how==2) a.insert(a.begin()+1,REL[eq]); else a.push_back(REL[eq]); if(how==2) a.push_back("--output="+out); else { a.push_back("-o"); a.push_back(out); } mc_note("joinpd %s %s",n.c_str(),REL[eq]); mc_state("join"+n+REL[eq]); int rc=tool(vt_joinpd_main,a); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); Elts r; load(out,r); same(keys(r,eq),want(all,eq),""); for(size_t i=how==1;i<in.size();i++) MC_CHECK(slurp(mc_fmt("in%zu.pdstor",i))==text_of(in[i]),"%schanged its input",g_cmd.c_str()); mc_outcome(mc_fmt("join%s %zu of %zu",REL[eq],r.v.size(),all.size())); leave(); }
static void split(const Sto&s,int pieces,int size,const char*base,const char*ext){ enter(); std::string in=std::string(base)+ext; put(in,text_of(s)); VS a={"splitpd","--file",in,pieces?"-n":"-s",mc_fmt("%d",pieces?pieces:size)}; mc_note("splitpd %s %s",sname(s).c_str(),(a[3]+a[4]).c_str()); mc_state("split"+sname(s)+a[3]+a[4]+in); int rc=tool(vt_splitpd_main,a); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); int n=s.size(),sz=pieces?(n+pieces-1)/pieces:size,k=n?(n+sz-1)/sz:0; VS fs; for(int i=0;i<k;i++) fs.push_back(mc_fmt("%s-%05d.pdstor",base,i)); VS all=fs; all.push_back(in); std::sort(all.begin(),all.end()); VS have=files(); MC_CHECK(have==all,"%sleaves %zu files instead of %zu (first: %s)",g_cmd.c_str(),have.size(),all.size(),have[0].c_str()); MC_CHECK(slurp(in)==text_of(s),"%schanged its input",g_cmd.c_str()); Elts r; int i=0; for(auto&f:fs){ size_t b=r.v.size(); load(f,r); int w=std::min(sz,n-i*sz); MC_CHECK((int)(r.v.size()-b)==w,"%swrote %zu diagrams to piece %d instead of %d",g_cmd.c_str(),r.v.size()-b,i,w); i++; } same(keys(r,0),want(s,0)," in all pieces"); mc_outcome(mc_fmt("split %d into %d",n,k)); leave(); }
static void filter(const Sto&s,int nc){ enter(); put("in.pdstor",text_of(s)); VS a={"filterpd","--file","in.pdstor","-o","out.pdstor"}; if(nc>=0){ a.push_back("--ncomps"); a.push_back(mc_fmt("%d",nc)); } mc_note("filterpd %s %d",sname(s).c_str(),nc); mc_state("filter"+sname(s)+mc_fmt("%d",nc)); int rc=tool(vt_filterpd_main,a); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); Sto w; for(auto i:s) if(nc<0||(int)i->pd->ncomps==nc) w.push_back(i); Elts r; load("out.pdstor",r); same(keys(r,0),want(w,0),""); MC_CHECK(slurp("in.pdstor")==text_of(s),"%schanged its input",g_cmd.c_str()); mc_outcome(mc_fmt("filter %zu of %zu",w.size(),s.size())); leave(); }
static const char*QN[10]={"hash","uid","ncomps","ncross","nauts","interlacements","unsigned-interlacements","homfly","monogons","bigons"};
static VS value(const Item*I,int q){ pd_code_t*pd=I->pd; VS r; switch(q){ case 0: r={I->hash}; break; case 1: r={"uid"}; break; case 2: r={mc_fmt("%u",(unsigned)pd->ncomps)}; break; case 3: r={mc_fmt("%u",(unsigned)pd->ncross)}; break; case 4: r={mc_fmt("%d",I->nauto)}; break; case 5: { int*v=pd_interlaced_crossings(pd); for(unsigned i=0;i<pd->ncomps;i++) r.push_back(mc_fmt("%d",v[i])); free(v); break; } case 6: { unsigned*v=pd_interlaced_crossings_unsigned(pd); for(unsigned i=0;i<pd->ncomps;i++) r.push_back(mc_fmt("%u",v[i])); free(v); break; } case 7: { char*h=pd_homfly(pd); r={h}; free(h); break; } default: { int n=0; for(unsigned f=0;f<pd->nfaces;f++) n+=(int)pd->face[f].nedges==q-7; r={mc_fmt("%d",n)}; } } return r; }
static void compute(const Sto&s,const VI&qs){ for(int q:qs) for(auto i:s) if((q==7&&!i->sgn)||(q==4&&i->nauto<0)) return; enter(); put("in.pdstor",text_of(s)); VS a={"computepd","--file","in.pdstor"}; std::string n; for(size_t i=0;i<qs.size();i++){ a.push_back(i%2?"-c":"--compute"); a.push_back(QN[qs[i]]); n+=std::string(QN[qs[i]])+" "; } a.push_back("-o"); a.push_back("out.csv"); mc_note("computepd %s %s",sname(s).c_str(),n.c_str()); mc_state("compute"+sname(s)+n); int rc=tool(vt_computepd_main,a); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); std::string t=slurp("out.csv"); VS got,w; std::map<std::string,std::set<std::string>> uids; size_t p=0; int line=0; while(p<t.size()){ size_t e=t.find('\n',p); MC_CHECK(e!=std::string::npos,"%s: unterminated line",g_cmd.c_str()); std::string l=t.substr(p,e-p); p=e+1; VS f; size_t b=0; for(;;){ size_t c=l.find(',',b); std::string x=l.substr(b,c==std::string::npos?c:c-b); size_t u=x.find_first_not_of(' '); x=u==std::string::npos?"":x.substr(u,x.find_last_not_of(' ')-u+1); f.push_back(x); if(c==std::string::npos) break; b=c+1; } MC_CHECK(f[0]==mc_fmt("%d",line),"%s: line %d is numbered %s",g_cmd.c_str(),line,f[0].c_str()); line++; std::string k; int uidcol=-1; if(qs.size()>1) for(size_t i=0;i<qs.size();i++) if(qs[i]==1) uidcol=i; for(size_t i=1;i<f.size();i++) k+=f[i]+"|"; (void)uidcol; got.push_back(k); }
  // uids: those of the elements of the store read back
  pd_stor_t*st; { FILE*fp=fopen((g_dir+"/in.pdstor").c_str(),"r"); st=pd_read_pdstor(fp,NONE); fclose(fp); } for(pd_code_t*q=pd_stor_firstelt(st);q;q=pd_stor_nextelt(st)){ const Item*I=g_by_dump.at(key_of(q)); std::string k; for(int x:qs){ if(x==1) k+=mc_fmt("%lu|",(unsigned long)q->uid); else for(auto&y:value(I,x)) k+=y+"|"; } w.push_back(k); pd_code_free(&q); } pd_free_pdstor(&st); std::sort(got.begin(),got.end()); std::sort(w.begin(),w.end()); if(got!=w){ size_t i=0; while(i<got.size()&&i<w.size()&&got[i]==w[i]) i++; mc_fail("%sgave %zu lines, expected %zu; first difference: %s instead of %s",g_cmd.c_str(),got.size(),w.size(),i<got.size()?got[i].c_str():"-",i<w.size()?w[i].c_str():"-"); } mc_eval(); mc_outcome("compute "+n); leave(); }
static void csum(const Sto&A,const Sto&B){ enter(); put("a.pdstor",text_of(A)); put("b.pdstor",text_of(B)); mc_note("connectsum %s %s",sname(A).c_str(),sname(B).c_str()); mc_state("sum"+sname(A)+sname(B)); int rc=tool(vt_connectsum_main,{"connectsum","-a","a.pdstor","-b","b.pdstor","-o","out.pdstor"}); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); Elts r; load("out.pdstor",r,false); std::set<std::string> w; for(auto i:A) for(auto j:B){ Dia X=from_pd(i->pd),Y=from_pd(j->pd); for(int c=0;c<X.n;c++) X.sign[c]=PD_UNSET_ORIENTATION; for(int c=0;c<Y.n;c++) Y.sign[c]=PD_UNSET_ORIENTATION; for(int sx=0;sx<(1<<X.ncomp);sx++) for(int sy=0;sy<(1<<Y.ncomp);sy++){ Dia P=X,Q=Y; for(int c=0;c<X.ncomp;c++) if((sx>>c)&1) dia_reverse(P,c); for(int c=0;c<Y.ncomp;c++) if((sy>>c)&1) dia_reverse(Q,c);
      if(P.n==0){ w.insert(iso_of(Q)); continue; } if(Q.n==0){ w.insert(iso_of(P)); continue; }
      for(int d=0;d<4*P.n;d++) if(P.out[d]) for(int e=0;e<4*Q.n;e++) if(Q.out[e]){ Dia S=P; int o=4*P.n; S.n=P.n+Q.n; for(int z=0;z<4*Q.n;z++){ S.mate.push_back(o+Q.mate[z]); S.out.push_back(Q.out[z]); int cq=Q.comp[z],ce=Q.comp[e]; S.comp.push_back(cq==ce?P.comp[d]:P.ncomp+(cq>ce?cq-1:cq)); } for(int z=0;z<Q.n;z++) S.sign.push_back(Q.sign[z]); S.ncomp=P.ncomp+Q.ncomp-1; S.tag.clear(); for(int c=0;c<S.ncomp;c++) S.tag.push_back('A'+c); int m=P.mate[d],f=Q.mate[e]; S.mate[d]=o+f; S.mate[o+f]=d; S.mate[o+e]=m; S.mate[m]=o+e; w.insert(iso_of(S)); } } }
  VS got=keys(r,1),ww(w.begin(),w.end()); same(got,ww,""); mc_outcome(mc_fmt("connect sums: %zu classes",ww.size())); leave(); }
static void carbonize(const Sto&s,bool o,bool weak=false){ enter(); put("in.pdstor",text_of(s)); VS a={"carbonizepd","in.pdstor"}; if(o){ a.push_back("-o"); a.push_back("out.c"); } if(weak) a.push_back("--weak-checking"); mc_note("carbonizepd %s",sname(s).c_str()); mc_state("carbonize"+sname(s)+(o?"o":"")); int rc=tool(vt_carbonizepd_main,a); MC_CHECK(rc==0,"%sexits with %d",g_cmd.c_str(),rc); std::string got=slurp(o?"out.c":"in.c"); VS g,w; size_t p=0; std::string tag="pd_create_in_"; // the functions, in any order of the store, each with its number removed
  auto norm=[&](std::string x){ size_t q=0; while((q=x.find(tag,q))!=std::string::npos){ size_t e=q+tag.size(); while(e<x.size()&&isdigit(x[e])) e++; x=x.substr(0,q+tag.size())+x.substr(e); q++; } return x; };
  std::set<std::string> nums; while((p=got.find("*"+tag,p))!=std::string::npos){ size_t e=p+1+tag.size(); std::string d; while(isdigit(got[e])) d+=got[e++]; nums.insert(d); p=e; } MC_CHECK(nums.size()==s.size(),"%swrote %zu functions instead of %zu",g_cmd.c_str(),nums.size(),s.size()); for(size_t i=0;i<s.size();i++) MC_CHECK(nums.count(mc_fmt("%zu",i)),"%s: function %zu is missing",g_cmd.c_str(),i);
  auto one=[&](pd_code_t*pd,const std::string&n){ char*b=0; size_t l=0; FILE*f=open_memstream(&b,&l); pd_write_c(f,pd,(char*)n.c_str()); fclose(f); std::string r(b,l); free(b); return r; };
  FILE*f=fopen((g_dir+"/in.pdstor").c_str(),"r"); char ln[256]; for(int i=0;i<3;i++) if(!fgets(ln,256,f)) break; std::string all; for(size_t i=0;i<s.size();i++){ pd_code_t*pd=pd_read(f); MC_CHECK(pd,"pd_read in the store file"); all+=one(pd,mc_fmt("in_%zu",i)); pd_code_free(&pd); } fclose(f); auto sq=[](const std::string&x){ std::string r; for(char c:x) if(!isspace((unsigned char)c)) r+=c; return r; }; 
  auto asg=[&](const std::string&x0){ std::string x=sq(x0); VS r; size_t q=0; while((q=x.find("pd->",q))!=std::string::npos){ size_t e=x.find_first_of(";,)",q); std::string t=x.substr(q,e-q); size_t eq=t.find('='); if(eq!=std::string::npos&&t[eq+1]!='='&&t[eq-1]!='!') r.push_back(t); q+=4; } return r; };
  if(weak) MC_CHECK(asg(all)==asg(got)&&asg(all).size()>10*s.size(),"%sdoes not record the same diagrams as without --weak-checking",g_cmd.c_str());
  else MC_CHECK(sq(all)==sq(got),"%sdid not write the code of its diagrams in order",g_cmd.c_str()); mc_eval(); mc_outcome(mc_fmt("carbonize %zu",s.size())); leave(); }
static void errors(){ auto none=[&](const char*f,const char*why){ for(auto&x:files()) MC_CHECK(x!=f,"%s: %s, yet %s was written",g_cmd.c_str(),why,f); mc_eval(); }; extern std::vector<Item> POOL; Sto s={&POOL[1],&POOL[4]}; std::string t=text_of(s); size_t end=t.find_last_not_of(" \n\t")+1;
  for(size_t cut=0;cut<=end;cut++){ if(cut>60&&cut<end-1&&cut%37) continue; enter(); put("good.pdstor",t); std::string why; if(cut==end) why="an input is missing"; else { why=mc_fmt("an input is cut after %zu of %zu bytes",cut,end); put("bad.pdstor",t.substr(0,cut)); } mc_note("%s",why.c_str()); mc_state(why); bool header=true; { pd_stor_t*u=NULL; if(cut<end&&cut){ FILE*f=fmemopen((void*)t.data(),cut,"r"); u=pd_read_pdstor(f,NONE); fclose(f); } if(u){ header=false; pd_free_pdstor(&u); } } if(!header){ leave(); continue; }
    for(int pos=0;pos<3;pos++){ VS a={"joinpd","good.pdstor","good.pdstor"}; a.insert(a.begin()+1+pos,"bad.pdstor"); a.push_back("--no-checking"); a.push_back("-o"); a.push_back("out.pdstor"); tool(vt_joinpd_main,a); none("out.pdstor",why.c_str()); } tool(vt_filterpd_main,{"filterpd","--file","bad.pdstor","-o","out.pdstor"}); none("out.pdstor",why.c_str()); tool(vt_computepd_main,{"computepd","--file","bad.pdstor","-c","hash","-o","out.csv"}); none("out.csv",why.c_str()); tool(vt_splitpd_main,{"splitpd","--file","bad.pdstor","-n","2"}); none("bad-00000.pdstor",why.c_str()); tool(vt_connectsum_main,{"connectsum","-a","bad.pdstor","-b","good.pdstor","-o","out.pdstor"}); none("out.pdstor",why.c_str()); tool(vt_connectsum_main,{"connectsum","-b","bad.pdstor","-a","good.pdstor","-o","out.pdstor"}); none("out.pdstor",why.c_str()); mc_outcome("bad input"); leave(); }
  // incomplete or contradictory command lines write nothing
  std::vector<std::pair<Main,VS>> bad={{vt_joinpd_main,{"joinpd","good.pdstor","-o","out.pdstor"}},{vt_joinpd_main,{"joinpd","good.pdstor","--no-checking"}},{vt_joinpd_main,{"joinpd","good.pdstor","--no-checking","--isotopy-checking","-o","out.pdstor"}},{vt_splitpd_main,{"splitpd","--file","good.pdstor"}},{vt_splitpd_main,{"splitpd","--file","good.pdstor","-n","2","-s","1"}},{vt_splitpd_main,{"splitpd","-n","2"}},{vt_filterpd_main,{"filterpd","--file","good.pdstor"}},{vt_filterpd_main,{"filterpd","-o","out.pdstor"}},{vt_filterpd_main,{"filterpd","--file","good.pdstor","--ncomps","x","-o","out.pdstor"}},{vt_computepd_main,{"computepd","--file","good.pdstor","-o","out.csv"}},{vt_computepd_main,{"computepd","--file","good.pdstor","-c","hash"}},{vt_connectsum_main,{"connectsum","-a","good.pdstor","-o","out.pdstor"}},{vt_joinpd_main,{"joinpd","--help"}},{vt_splitpd_main,{"splitpd","--help"}},{vt_filterpd_main,{"filterpd","--help"}},{vt_computepd_main,{"computepd","--help"}},{vt_connectsum_main,{"connectsum","--help"}},{vt_carbonizepd_main,{"carbonizepd","--help"}}};
  for(auto&b:bad){ enter(); put("good.pdstor",t); tool(b.first,b.second); VS f=files(); MC_CHECK(f.size()==1&&slurp("good.pdstor")==t,"%sis incomplete, yet it wrote or changed files",g_cmd.c_str()); mc_state(g_cmd); mc_eval(); mc_outcome("bad command line"); leave(); } }
std::vector<Item> POOL;
static void stores(int pool,int maxlen,const std::function<void(const Sto&)>&f){ for(int len=0;len<=maxlen;len++){ long tot=1; for(int i=0;i<len;i++) tot*=pool; for(long k=0;k<tot;k++){ Sto s; long t=k; bool sorted=true; for(int i=0;i<len;i++){ s.push_back(&POOL[t%pool]); t/=pool; } (void)sorted; f(s); } } }
void mc_main(){ bool T=mc_thorough; auto add=[&](const Dia&D,const std::string&n){ POOL.push_back(mkitem(D,n)); };
  { Dia D=gen_maps(1)[0]; D.sign[0]=1; add(D,"curl+"); D.sign[0]=0; add(D,"curl-"); } { int k=0; for(auto&M:gen_maps(2)) if(M.ncomp==2){ Dia D=M; D.sign={1,1}; add(D,"hopf++"); dia_reverse(D,0); D.sign={0,0}; add(D,"hopf--"); break; } (void)k; } add(gen_maps(0)[0],"unknot0"); { Dia D=gen_maps(1)[0]; add(D,"curl"); } for(auto&M:gen_maps(3)) if(M.ncomp==1&&dia_autos(M,CF_REFLECT)==12){ Dia D=M; D.sign={1,1,1}; add(D,"trefoil"); D.sign={1,1,0}; add(D,"trefoil'"); break; } for(auto&M:gen_maps(3)) if(M.ncomp==2){ Dia D=M; D.sign={1,0,1}; add(D,"link3"); break; } for(auto&M:gen_maps(6)) if(M.ncomp==3){ Dia D=M; add(D,"three"); break; }
  size_t base=POOL.size(); for(int n=0;n<=4;n++) for(auto&D:gen_diagrams(n,n<=3?SG_UNSET|SG_SIGNED:SG_SIGNED)){ if(n==4&&POOL.size()>base+(T?900:300)) break; add(D,mc_fmt("d%zu",POOL.size())); } for(auto&I:POOL) g_by_dump[I.dump]=&I; mc_count("diagrams",POOL.size());
  int L=3; static std::vector<Sto> S3; stores(T?9:6,L,[&](const Sto&s){ S3.push_back(s); }); static Sto ALL; for(size_t i=base;i<POOL.size();i++) ALL.push_back(&POOL[i]); static std::vector<Sto> BIGS={ALL,Sto(ALL.begin(),ALL.begin()+17),Sto(ALL.begin()+5,ALL.begin()+105)}; for(auto&b:BIGS) S3.push_back(b);
  for(size_t i=0;i<S3.size();i++) mc_case_lazy([&]{ return "splitpd, filterpd, computepd and carbonizepd on "+sname(S3[i]).substr(0,300); },[&,i]{ const Sto&s=S3[i]; bool big=s.size()>3; for(int k=1;k<=4;k++){ split(s,big?k*7-6:k,0,"in",".pdstor"); split(s,0,big?k*13-6:k,"st.or",".pdstor"); } if(s.size()==2){ split(s,2,0,"plain",""); split(s,0,1,"in",".dat"==0?"":".pdstor"); } for(int c=-1;c<=3;c++) filter(s,c); VI q(10); std::iota(q.begin(),q.end(),0); compute(s,q); std::reverse(q.begin(),q.end()); compute(s,q); VI p={1,0,2,3,5,6,8,9}; compute(s,p); for(int x=0;x<10;x++) if(!big||x!=4) compute(s,{x}); if(s.size()) for(int o=0;o<2;o++) carbonize(s,o,false),carbonize(s,o,true); mc_trace(); mc_sample("all options on "+sname(s).substr(0,200)); });
  static std::vector<Sto> S2; stores(T?9:6,2,[&](const Sto&s){ S2.push_back(s); }); for(size_t i=0;i<S2.size();i++) mc_case_lazy([&]{ return "joinpd of "+sname(S2[i])+" and every other store"; },[&,i]{ int k=0; for(auto&b:S2) for(int eq=0;eq<3;eq++) join({S2[i],b},eq,k++%4==3?1:k%5==0?2:0); for(int eq=0;eq<3;eq++) join({S2[i]},eq,0); mc_trace(); });
  static std::vector<Sto> S1; stores(6,1,[&](const Sto&s){ S1.push_back(s); }); for(size_t i=0;i<S1.size();i++) mc_case_lazy([&]{ return "joinpd of three and four stores starting with "+sname(S1[i]); },[&,i]{ for(auto&b:S1) for(auto&c:S1) for(int eq=0;eq<3;eq++){ join({S1[i],b,c},eq,0); if(T) join({b,S1[i],c,b},eq,0); } mc_trace(); });
  for(int eq=0;eq<3;eq++) mc_case(mc_fmt("joinpd of large stores %s",REL[eq]),[&,eq]{ join({BIGS[0],BIGS[1],BIGS[2]},eq,0); join({BIGS[1],BIGS[2],BIGS[0]},eq,0); join({Sto{},BIGS[2],BIGS[2]},eq,0); mc_trace(); });
  static std::vector<Sto> CS; for(int n=0;n<=3;n++) for(auto&M:gen_maps(n)){ std::string d=key_of(mkitem(M,"").pd); CS.push_back({g_by_dump.count(d)?g_by_dump[d]:&POOL[0]}); } CS.push_back({&POOL[2],&POOL[6]}); CS.push_back({&POOL[0],&POOL[8],&POOL[0]}); CS.push_back({}); for(size_t i=0;i<CS.size();i++) mc_case_lazy([&]{ return "connectsum of "+sname(CS[i])+" with every other store"; },[&,i]{ for(auto&b:CS) csum(CS[i],b); mc_trace(); });
  mc_case("unreadable inputs and incomplete command lines",[&]{ errors(); mc_trace(); });
}
