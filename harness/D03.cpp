// D03: writing a diagram as text and reading it back (native format, streams of several diagrams, KnotTheory format, generated C).
#include "pdmodel.hpp"
#include "big.hpp"
static std::string slurp(std::function<void(FILE*)> w){ char*b=NULL; size_t n=0; FILE*f=open_memstream(&b,&n); w(f); fclose(f); std::string s(b,n); free(b); return s; }
static FILE*src(const std::string&s){ FILE*f=tmpfile(); fwrite(s.data(),1,s.size(),f); rewind(f); return f; }
struct Txt{ std::string s; };
// independent writer of the native format; opts: 1 omit hash line data, 2 omit tags, 4 odd white space, 8 crossings listed rotated/shuffled
static std::string text(const pd_code_t*pd,int o){ std::string s; const char*sp=(o&4)?"  \t":" "; const char*nl=(o&4)?"\n\n ":"\n";
  if(o&1) s+="pd\n"; else s+=mc_fmt("pd %s %lu\n",pd->hash,(unsigned long)pd->uid);
  unsigned n=pd->ncross; std::vector<unsigned> at(n),rot(n,0); for(unsigned i=0;i<n;i++){ at[i]=(o&8)?(i*1+1)%n:i; rot[i]=(o&8)?(i+1)%4:0; } // crossing i is listed at position at[i], rotated by rot[i]
  std::vector<unsigned> who(n); for(unsigned i=0;i<n;i++) who[at[i]]=i;
  s+=mc_fmt("nv%s%u%s",sp,n,nl); for(unsigned j=0;j<n;j++){ unsigned i=who[j]; for(int p=0;p<4;p++) s+=mc_fmt("%u%s",pd->cross[i].edge[(p+rot[i])%4],sp); if(pd->cross[i].sign!=2) s+=pd->cross[i].sign==1?"+":"-"; s+=nl; }
  s+=mc_fmt("ne%s%u%s",sp,pd->nedges,nl); for(unsigned e=0;e<pd->nedges;e++){ const pd_edge_t&E=pd->edge[e]; if(n) s+=mc_fmt("%u,%u -> %u,%u %s",at[E.tail],(E.tailpos+4-rot[E.tail])%4,at[E.head],(E.headpos+4-rot[E.head])%4,nl); else s+=mc_fmt("%u,%u -> %u,%u %s",E.tail,E.tailpos,E.head,E.headpos,nl); }
  s+=mc_fmt("nc%s%u%s",sp,pd->ncomps,nl); for(unsigned c=0;c<pd->ncomps;c++){ s+=mc_fmt("%u : ",pd->comp[c].nedges); for(unsigned i=0;i<pd->comp[c].nedges;i++) s+=mc_fmt("%u%s",pd->comp[c].edge[i],sp); if(!(o&2)) s+=mc_fmt("tag %c",pd->comp[c].tag); s+=nl; }
  s+=mc_fmt("nf%s%u%s",sp,pd->nfaces,nl); for(unsigned f=0;f<pd->nfaces;f++){ s+=mc_fmt("%u : ",pd->face[f].nedges); for(unsigned i=0;i<pd->face[f].nedges;i++) s+=mc_fmt("%c%s%u%s",pd->face[f].orient[i]==PD_POS_ORIENTATION?'+':'-',sp,pd->face[f].edge[i],sp); s+=nl; }
  return s; }
static void native(const Dia&D,const Lab&L,pd_uid_t uid,bool variants){
  pd_code_t*pd=to_pd(D,L,0,uid); std::string want=pd_dump(pd),at=pd_str(pd); mc_note("native round trip of %s uid %lu",at.c_str(),uid); mc_state("N"+want);
  std::string t=slurp([&](FILE*f){ pd_write(f,pd); }); mc_trans(); MC_CHECK(pd_dump(pd)==want,"writing modified %s",at.c_str());
  { FILE*f=src(t); int err=0; pd_code_t*r=pd_read_err(f,&err); mc_trans(); mc_eval(); MC_CHECK(r&&!err,"written diagram does not read back (error %d):\n%s",err,t.c_str()); CHECK_VALID(r,"read back"); MC_CHECK(pd_dump(r)==want,"read back differs: %s vs %s",pd_dump(r).c_str(),want.c_str()); pd_code_free(&r); err=0; if(D.n){ r=pd_read_err(f,&err); MC_CHECK(!r&&err,"reading past the end did not fail"); } fclose(f); }
  if(variants&&D.n) for(int o=0;o<16;o++){ std::string u=text(pd,o); mc_note("variant %d of %s",o,at.c_str()); FILE*f=src(u); pd_code_t*r=pd_read(f); mc_trans(); mc_eval(); MC_CHECK(r,"variant %d does not read:\n%s",o,u.c_str()); CHECK_VALID(r,"variant %d",o);
    pd_code_t*w=to_pd(D,L,0,(o&1)?PD_UNSET_UID:uid); if(o&2) for(unsigned c=0;c<w->ncomps;c++) w->comp[c].tag='A'+c; MC_CHECK(pd_dump(r)==pd_dump(w),"variant %d reads as %s, expected %s\n%s",o,pd_dump(r).c_str(),pd_dump(w).c_str(),u.c_str()); pd_code_free(&w); pd_code_free(&r); fclose(f); mc_outcome(mc_fmt("variant %d",o)); }
  pd_code_free(&pd); mc_trace(); }
static void stream(const std::vector<const Dia*>&v){ std::vector<pd_code_t*> p; std::vector<std::string> w; int k=0; for(auto d:v){ Dia D=*d; for(int c=0;c<D.ncomp;c++) D.tag[c]='A'+((k*3+c*5)%50); p.push_back(to_pd(D,default_lab(D),0,k++)); w.push_back(pd_dump(p.back())); }
  for(int blank=0;blank<2;blank++){ std::string t=slurp([&](FILE*f){ for(auto q:p){ pd_write(f,q); if(blank) fprintf(f,"\n"); } }); mc_note("stream of %zu diagrams:\n%s",p.size(),t.substr(0,3000).c_str()); mc_state("S"+t); FILE*f=src(t); for(size_t i=0;i<p.size();i++){ int err=0; pd_code_t*r=pd_read_err(f,&err); mc_trans(); mc_eval(); MC_CHECK(r&&!err,"diagram %zu of the stream does not read (error %d)",i,err); CHECK_VALID(r,"stream %zu",i); MC_CHECK(pd_dump(r)==w[i],"diagram %zu of the stream reads as %s, expected %s",i,pd_dump(r).c_str(),w[i].c_str()); pd_code_free(&r); } int err=0; pd_code_t*r=pd_read_err(f,&err); MC_CHECK(!r&&err,"stream yields an extra diagram"); fclose(f); mc_outcome(mc_fmt("stream of %zu",p.size())); }
  for(auto q:p) pd_code_free(&q); mc_trace(); }
static std::string kt_text(const Dia&D,const Lab&L,const char*sep,int rotlist){ VI en=lab_edges(D,L); std::string s="PD["; for(int j=0;j<D.n;j++){ int c=(j+rotlist)%D.n; int oi,oo,ui,uo; dia_strands(D,c,oi,oo,ui,uo); s+=mc_fmt("%sX[",j?(std::string(",")+(sep[0]?" ":"")).c_str():""); for(int p=0;p<4;p++) s+=mc_fmt("%d%s",en[4*c+(ui+p)%4]+1,p<3?(std::string(",")+sep).c_str():"]"); } return s+"]\n"; }
static void knottheory(const Dia&D,const Lab&L,bool sorted){
  std::string at=dia_str(D); if(sorted){ pd_code_t*pd=to_pd(D,L); std::string before=pd_dump(pd); std::string t=slurp([&](FILE*f){ pd_write_KnotTheory(f,pd); }); mc_trans(); mc_eval(); MC_CHECK(pd_dump(pd)==before,"writing modified"); Dia M=from_pd(pd); Lab ML; ML.order.resize(M.ncomp); std::iota(ML.order.begin(),ML.order.end(),0); ML.start.assign(M.ncomp,-1); for(int c=0;c<M.ncomp;c++){ unsigned e=pd->comp[c].edge[0]; ML.start[c]=4*pd->edge[e].tail+pd->edge[e].tailpos; } std::string w=kt_text(M,ML,"",0); MC_CHECK(t==w,"KnotTheory text of %s is %s expected %s",at.c_str(),t.c_str(),w.c_str()); pd_code_free(&pd); }
  VI len=dia_comp_len(D); std::vector<int> amb; for(int c=0;c<D.ncomp;c++) if(len[c]==2){ bool under=false; for(int x=0;x<D.n;x++){ int oi,oo,ui,uo; dia_strands(D,x,oi,oo,ui,uo); if(D.comp[ui]==c) under=true; } if(!under) amb.push_back(c); }
  std::set<std::string> ok; for(int m=0;m<(1<<amb.size());m++){ Dia E=D; for(size_t i=0;i<amb.size();i++) if((m>>i)&1){ dia_reverse(E,amb[i]); for(int x=0;x<E.n;x++){ bool a=E.comp[4*x]==amb[i],b=E.comp[4*x+1]==amb[i]; if(a!=b) E.sign[x]^=1; } } ok.insert(dia_canon(E,CF_ORIENT|CF_SIGN)); }
  for(int v=0;v<2;v++){ std::string t=kt_text(D,L,v?" ":"",v); mc_note("KnotTheory %s",t.c_str()); mc_state("K"+t); FILE*f=src(t); pd_code_t*r=NULL; int g=mc_guarded([&]{ r=pd_read_KnotTheory(f); }); mc_trans(); mc_eval(); MC_CHECK(g==0,"reading %s terminates the program",t.c_str()); MC_CHECK(r,"valid text %s rejected",t.c_str()); CHECK_VALID(r,"KnotTheory %s",t.c_str()); MC_CHECK(ok.count(dia_canon(from_pd(r),CF_ORIENT|CF_SIGN)),"%s was read as %s",t.c_str(),pd_str(r).c_str()); pd_code_free(&r); fclose(f); mc_outcome(mc_fmt("KnotTheory %zu free components",amb.size())); }
  mc_trace(); }
static void gen_c(const Dia&D,const Lab&L){ pd_code_t*pd=to_pd(D,L,0,0); std::string want=pd_dump(pd,false); char nm[]="probe"; std::string t=slurp([&](FILE*f){ pd_write_c(f,pd,nm); }); mc_note("generated C of %s",pd_str(pd).c_str()); mc_state("C"+t); mc_trans(); mc_eval();
  MC_CHECK(t.find("pd_create_probe(")!=std::string::npos,"generated procedure has the wrong name"); pd_code_t*r=NULL; size_t i=0; while(i<t.size()){ size_t e=t.find('\n',i); if(e==std::string::npos) e=t.size(); std::string ln=t.substr(i,e-i); i=e+1; int a,b; long v; char ch;
    if(sscanf(ln.c_str(),"pd = pd_code_new(%ld)",&v)==1) r=pd_code_new(v); if(!r) continue;
    if(sscanf(ln.c_str(),"pd->ncross = %ld",&v)==1) r->ncross=v; else if(sscanf(ln.c_str(),"pd->nedges = %ld",&v)==1) r->nedges=v; else if(sscanf(ln.c_str(),"pd->ncomps = %ld",&v)==1) r->ncomps=v; else if(sscanf(ln.c_str(),"pd->nfaces = %ld",&v)==1) r->nfaces=v;
    else if(sscanf(ln.c_str(),"pd->cross[%d].edge[%d] = %ld",&a,&b,&v)==3) r->cross[a].edge[b]=v; else if(sscanf(ln.c_str(),"pd->cross[%d].sign = %ld",&a,&v)==2) r->cross[a].sign=v;
    else if(sscanf(ln.c_str(),"pd->edge[%d].headpos = %ld",&a,&v)==2) r->edge[a].headpos=v; else if(sscanf(ln.c_str(),"pd->edge[%d].head = %ld",&a,&v)==2) r->edge[a].head=v; else if(sscanf(ln.c_str(),"pd->edge[%d].tailpos = %ld",&a,&v)==2) r->edge[a].tailpos=v; else if(sscanf(ln.c_str(),"pd->edge[%d].tail = %ld",&a,&v)==2) r->edge[a].tail=v;
    else if(sscanf(ln.c_str(),"pd->comp[%d].nedges = %ld",&a,&v)==2){ r->comp[a].nedges=v; } else if(sscanf(ln.c_str(),"pd->comp[%d].tag = '%c'",&a,&ch)==2) r->comp[a].tag=ch; else if(sscanf(ln.c_str(),"pd->comp[%d].edge[%d] = %ld",&a,&b,&v)==3) r->comp[a].edge[b]=v; else if(sscanf(ln.c_str(),"pd->comp[%d].edge = %c",&a,&ch)==2) r->comp[a].edge=(pd_idx_t*)calloc(r->comp[a].nedges,sizeof(pd_idx_t));
    else if(sscanf(ln.c_str(),"pd->face[%d].nedges = %ld",&a,&v)==2) r->face[a].nedges=v; else if(sscanf(ln.c_str(),"pd->face[%d].edge[%d] = %ld",&a,&b,&v)==3) r->face[a].edge[b]=v; else if(sscanf(ln.c_str(),"pd->face[%d].orient[%d] = %ld",&a,&b,&v)==3) r->face[a].orient[b]=v; else if(sscanf(ln.c_str(),"pd->face[%d].edge = %c",&a,&ch)==2) r->face[a].edge=(pd_idx_t*)calloc(r->face[a].nedges,sizeof(pd_idx_t)); else if(sscanf(ln.c_str(),"pd->face[%d].orient = %c",&a,&ch)==2) r->face[a].orient=(pd_or_t*)calloc(r->face[a].nedges,sizeof(pd_or_t)); }
  MC_CHECK(r,"generated C allocates nothing"); CHECK_VALID(r,"generated C"); MC_CHECK(pd_dump(r,false)==want,"generated C recreates %s instead of %s",pd_dump(r,false).c_str(),want.c_str()); pd_code_free(&r); pd_code_free(&pd); mc_trace(); }
void mc_main(){
  int N=mc_thorough?5:4;
  for(int n=0;n<=N;n++) for(auto&D0:gen_diagrams(n,SG_UNSET|SG_SIGNED|(n<=3?SG_MIXED:0))) mc_case_lazy([&]{ return "text of "+dia_str(D0); },[&]{ Dia D=D0; for(int i=0;i<D.ncomp;i++) D.tag[i]="QBzKD"[i%5]+(i/5); pd_uid_t uids[]={0,1,77,PD_UNSET_UID}; int u=0; auto f=[&](const Lab&L){ native(D,L,uids[u++%4],n<=3); gen_c(D,L); }; if(n<=(mc_thorough?4:3)) all_labs(D,f); else f(default_lab(D)); mc_sample("native, KnotTheory and C text of "+dia_str(D)); });
  for(int n=1;n<=N;n++) for(auto&D:gen_diagrams(n,SG_SIGNED)) mc_case_lazy([&]{ return "KnotTheory text of "+dia_str(D); },[&]{ if(n<=(mc_thorough?4:3)) all_labs(D,[&](const Lab&L){ knottheory(D,L,true); }); else knottheory(D,default_lab(D),true);
      // components in any order
      Lab L=default_lab(D); VI p(D.ncomp); std::iota(p.begin(),p.end(),0); do{ L.order=p; knottheory(D,L,false); }while(std::next_permutation(p.begin(),p.end())); });
  for(int n=N+1;n<=N+2;n++) for(auto&M:gen_maps(n)) mc_case_lazy([&]{ return "text of map "+dia_str(M); },[&]{ Dia D=M; native(D,default_lab(D),n,true); for(int k=0;k<(1<<n);k+=3){ for(int i=0;i<n;i++) D.sign[i]=(k>>i)&1; knottheory(D,default_lab(D),true); } });
  std::vector<Dia> S; for(int n=0;n<=2;n++) for(auto&D:gen_diagrams(n,n==2?SG_UNSET:SG_UNSET|SG_SIGNED)) S.push_back(D); S.push_back(gen_diagrams(3,SG_SIGNED)[5]);
  int K=mc_thorough?4:3; std::vector<const Dia*> v; std::function<void()> rec=[&]{ if(!v.empty()) mc_case_lazy([&]{ std::string s="stream"; for(auto d:v) s+=" "+dia_str(*d); return s; },[&]{ stream(v); mc_sample(mc_fmt("stream of %zu diagrams",v.size())); }); if((int)v.size()<K) for(auto&d:S){ v.push_back(&d); rec(); v.pop_back(); } }; rec();
  static std::vector<Big> BV=big_diagrams(mc_thorough?2:1); for(auto&b:BV) mc_case("text of "+b.name,[&]{ native(b.D,default_lab(b.D),7,true); gen_c(b.D,default_lab(b.D)); bool sg=true; for(int s:b.D.sign) if(s==2) sg=false; if(sg) knottheory(b.D,default_lab(b.D),true); mc_trace(); });
}
