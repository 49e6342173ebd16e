// D08: the diagram store behaves as a set of diagrams modulo the requested equivalence under every history of additions, searches,
// iterations and file round trips; a torn file is never read as a different store.
#include "pdmodel.hpp"
#include "big.hpp"
extern "C" {
#define new new_
#include "pd_multidx.h"
#undef new
#include "pd_perm.h"
#include "pd_isomorphisms.h"
#include "pd_storage.h"
}
struct Item { std::string dump,iso,full,hash,name; pd_code_t*pd; int nauto; };
static std::string key_of(const pd_code_t*pd){ pd_code_t*c=pd_copy((pd_code_t*)pd); c->uid=PD_UNSET_UID; std::string s=pd_dump(c); pd_code_free(&c); return s; }
static Item mkitem(const Dia&D,const Lab&L,const std::string&name){ Item I; I.pd=to_pd(D,L); for(unsigned c=0;c<I.pd->ncomps;c++) I.pd->comp[c].tag='A'+c; Dia E=from_pd(I.pd); I.iso=mc_fmt("%d/",E.n)+dia_canon(E,CF_REFLECT); I.full=mc_fmt("%d/",E.n)+dia_canon(E,CF_PLANE|CF_REFLECT); I.dump=key_of(I.pd); I.hash=I.pd->hash; I.name=name; Dia U=E; I.nauto=E.n?dia_autos(U,CF_REFLECT):-1; return I; }
struct El { std::string hash; pd_uid_t uid; std::string dump,iso,full; };
static std::map<std::string,const Item*> g_by_dump;
struct Model { std::vector<El> v; bool iterating=false; std::set<std::pair<std::string,pd_uid_t>> visited; };
static const char*EQN[3]={"none","isomorphism","isotopy"}; static const pd_equivalence_t EQ[3]={NONE,ISOMORPHISM,DIAGRAM_ISOTOPY};
struct H { pd_stor_t*s; Model m;
  H(){ s=pd_new_pdstor(); } ~H(){ if(s) pd_free_pdstor(&s); }
  const El*find(const std::string&h,pd_uid_t u){ for(auto&e:m.v) if(e.hash==h&&e.uid==u) return &e; return nullptr; }
  void counts(){ std::set<std::string> hs; for(auto&e:m.v) hs.insert(e.hash); unsigned nh=77,ne=77; pd_stor_stats(s,&nh,&ne); MC_CHECK(pd_stor_nelts(s)==m.v.size()&&ne==m.v.size()&&nh==hs.size(),"the store counts %u elements (%u by inspection) and %u hashes, it has %zu and %zu",pd_stor_nelts(s),ne,nh,m.v.size(),hs.size()); mc_eval(); }
  void add(const Item&I,int eq){ pd_code_t*pd=pd_copy(I.pd); pd->uid=12345; pd_addto_pdstor(s,pd,EQ[eq]); mc_trans(); MC_CHECK(key_of(pd)==I.dump,"adding modified the diagram"); m.iterating=false; bool match=false,have=false;
    for(auto&e:m.v) if((eq==1&&e.iso==I.iso)||(eq==2&&e.full==I.full)){ have=true; if(e.hash==I.hash&&e.uid==pd->uid) match=true; }
    if(have) MC_CHECK(match,"added an equivalent diagram, uid reported is %lu, which is not that of an equivalent stored one",(unsigned long)pd->uid);
    else { MC_CHECK(!find(I.hash,pd->uid),"a new element got uid %lu, already in use for its hash",(unsigned long)pd->uid); m.v.push_back({I.hash,pd->uid,I.dump,I.iso,I.full}); }
    pd_code_free(&pd); counts(); }
  void check_elt(pd_code_t*pd){ std::string w; MC_CHECK(pd_valid(pd,w)&&pd_ok(pd),"the store returns an invalid diagram (%s)",w.c_str()); const El*e=find(pd->hash,pd->uid); MC_CHECK(e,"the store returns hash %s uid %lu which is not stored",pd->hash,(unsigned long)pd->uid); MC_CHECK(key_of(pd)==e->dump,"element %s/%lu came back as %s",pd->hash,(unsigned long)pd->uid,pd_str(pd).c_str()); MC_CHECK(m.visited.insert({e->hash,e->uid}).second,"iteration visits %s/%lu twice",pd->hash,(unsigned long)pd->uid); }
  void step(pd_code_t*pd){ mc_trans(); if(!pd){ MC_CHECK(m.visited.size()==m.v.size(),"iteration ends after %zu of %zu elements",m.visited.size(),m.v.size()); m.iterating=false; } else { check_elt(pd); pd_code_free(&pd); m.iterating=true; } mc_eval(); }
  void first(){ m.visited.clear(); step(pd_stor_firstelt(s)); }
  void next(){ if(m.iterating) step(pd_stor_nextelt(s)); }
  void all(){ first(); while(m.iterating) next(); counts(); }
  // an iteration abandoned after every number of steps does not affect the next one
  void restarts(){ size_t n=m.v.size(); for(size_t k=1;k<=n;k=n>12&&k>4&&k<n-2?k*2:k+1){ first(); for(size_t i=1;i<k;i++) next(); all(); } }
  void search(const Item&I){ pd_iso_t**isos=(pd_iso_t**)0x1; unsigned n=99; pd_code_t*q=pd_copy(I.pd); pd_code_t*r=pd_search_pdstor_by_isomorphism(s,q,&isos,&n); mc_trans(); MC_CHECK(key_of(q)==I.dump,"searching modified the diagram"); bool have=false; for(auto&e:m.v) if(e.iso==I.iso) have=true; MC_CHECK((r!=NULL)==have,"search for %s returns %s",I.name.c_str(),r?"an element though none is isomorphic":"nothing though an isomorphic diagram is stored");
    if(r){ const El*e=find(r->hash,r->uid); MC_CHECK(e&&e->iso==I.iso&&key_of(r)==e->dump,"search returns %s/%lu, not an isomorphic stored element",r->hash,(unsigned long)r->uid); MC_CHECK(I.nauto<0?n>0:(int)n==I.nauto,"search lists %u isomorphisms, there are %d",n,I.nauto); for(unsigned i=0;i<n;i++) MC_CHECK(pd_iso_consistent(q,r,isos[i]),"listed isomorphism %u does not go from the query to the stored diagram",i); pd_free_isos(&n,&isos); pd_code_free(&r); } else MC_CHECK(isos==NULL&&n==0,"failed search leaves %u isomorphisms",n);
    pd_code_free(&q); mc_eval(); }
  std::vector<El> list(pd_stor_t*t){ std::vector<El> r; for(pd_code_t*p=pd_stor_firstelt(t);p;p=pd_stor_nextelt(t)){ std::string d=key_of(p); auto it=g_by_dump.find(d); MC_CHECK(it!=g_by_dump.end(),"an element came back from the file as %s",pd_str(p).c_str()); for(auto&e:r) MC_CHECK(e.hash!=p->hash||e.uid!=p->uid,"two elements share %s/%lu",p->hash,(unsigned long)p->uid); r.push_back({p->hash,p->uid,d,it->second->iso,it->second->full}); pd_code_free(&p); } return r; }
  void compare(pd_stor_t*t,int eq,const std::vector<El>&want){ MC_CHECK(t,"a written store cannot be read"); auto r=list(t); std::vector<std::string> a,b; for(auto&e:want) a.push_back(eq==1?e.iso:eq==2?e.full:e.dump); for(auto&e:r) b.push_back(eq==1?e.iso:eq==2?e.full:e.dump); std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); if(eq) a.erase(std::unique(a.begin(),a.end()),a.end()); MC_CHECK(a==b,"the file holds %zu elements, %zu were stored (equivalence %s)",b.size(),a.size(),EQN[eq]); mc_eval(); }
  void reread(int eq,int how){ char*buf=0; size_t len=0; FILE*f=open_memstream(&buf,&len); pd_write_pdstor(f,s); fclose(f); mc_trans(2); std::string text(buf,len); free(buf); if(how==1){ size_t p=text.find("nelts"),q=text.find('\n',p); text=text.substr(0,p)+"nelts ?/? (claimed/actual) nhashes ?"+text.substr(q); }
    f=fmemopen((void*)text.data(),text.size(),"r"); pd_stor_t*t=pd_read_pdstor(f,EQ[eq]); fclose(f); compare(t,eq,m.v); pd_free_pdstor(&s); s=t; m.v=list(s); m.iterating=false; counts(); }
  std::string state(){ std::string x; auto v=m.v; std::sort(v.begin(),v.end(),[](const El&a,const El&b){ return std::tie(a.hash,a.uid)<std::tie(b.hash,b.uid); }); for(auto&e:v) x+=mc_fmt("%s/%lu/",e.hash.c_str(),(unsigned long)e.uid)+e.full+";"; if(m.iterating) x+=mc_fmt("@%zu",m.visited.size()); return x; }
};
static std::vector<Item> pool_basic(){ std::vector<Item> P; auto add=[&](const Dia&D,const char*n){ P.push_back(mkitem(D,default_lab(D),n)); };
  add(gen_maps(0)[0],"unknot0"); { Dia D=gen_maps(1)[0]; D.sign[0]=1; add(D,"curl+"); D.sign[0]=0; add(D,"curl-"); D.sign[0]=2; add(D,"curl"); }
  for(auto&M:gen_maps(2)) if(M.ncomp==2){ Dia D=M; D.sign={1,1}; add(D,"hopf++"); dia_reverse(D,0); D.sign={0,0}; add(D,"hopf--"); break; }
  return P; }
static std::vector<std::vector<Dia>> collisions(int n){ std::map<std::string,std::vector<Dia>> m; for(auto&M:gen_maps(n,CF_REFLECT)){ pd_code_t*p=to_pd(M); m[p->hash].push_back(M); pd_code_free(&p); } std::vector<std::vector<Dia>> r; for(auto&x:m) if(x.second.size()>1) r.push_back(x.second); return r; }
static void histories(const std::vector<Item>&P,int depth,const char*name,bool files){ int p=P.size(); int NA=3*p,NS=p; int ops=NA+2+NS+(files?4:0); long tot=1; for(int i=0;i<depth;i++) tot*=ops;
  auto opname=[&](int o){ return o<NA?mc_fmt("add %s(%s)",P[o/3].name.c_str(),EQN[o%3]):o==NA?std::string("first"):o==NA+1?std::string("next"):o<NA+2+NS?"search "+P[o-NA-2].name:mc_fmt("file(%d)",o-NA-2-NS); };
  for(long k=0;k<tot/ops;k++) mc_case_lazy([&]{ std::string s=mc_fmt("%s: ",name); long t=k; for(int i=0;i<depth-1;i++){ s+=opname(t%ops)+", "; t/=ops; } return s+"then every operation"; },[&]{ for(int last=0;last<ops;last++){ H h; long t=k; mc_note("last operation %s",opname(last).c_str()); for(int i=0;i<depth;i++){ int o=i==depth-1?last:t%ops; t/=ops; if(o<NA) h.add(P[o/3],o%3); else if(o==NA) h.first(); else if(o==NA+1) h.next(); else if(o<NA+2+NS) h.search(P[o-NA-2]); else { int q=o-NA-2-NS; if(q==3) h.reread(0,1); else h.reread(q,0); } mc_state(h.state()); } while(h.m.iterating) h.next(); h.all(); h.restarts(); mc_trace(); mc_outcome(mc_fmt("%zu elements",h.m.v.size())); } mc_sample(mc_fmt("%s history %ld with every last operation",name,k)); }); }
static std::string slurp(FILE*f){ rewind(f); std::string s; char b[4096]; size_t n; while((n=fread(b,1,4096,f))>0) s.append(b,n); return s; }
static pd_stor_t*read_str(const std::string&t,int eq=0){ FILE*f; if(t.empty()){ f=fopen("/dev/null","r"); } else f=fmemopen((void*)t.data(),t.size(),"r"); pd_stor_t*s=pd_read_pdstor(f,EQ[eq]); fclose(f); mc_trans(); return s; }
void mc_main(){
  static std::vector<Item> B=pool_basic(); static std::vector<std::vector<Item>> pools; pools.push_back(B);
  for(int n=3;n<=6;n++){ auto C=collisions(n); int k=0; for(auto&c:C){ if(k++>=3) break; std::vector<Item> P; for(size_t i=0;i<c.size()&&i<3;i++){ Dia D=c[i]; P.push_back(mkitem(D,default_lab(D),mc_fmt("n%d#%zu",n,i))); Lab L; bool got=false; int q=0; all_labs(D,[&](const Lab&l){ if(q++==5){ L=l; got=true; } }); if(got&&i==0) P.push_back(mkitem(D,L,mc_fmt("n%d#%zu'",n,i))); Dia S=D; for(int j=0;j<D.n;j++) S.sign[j]=j%2; if(i<2) P.push_back(mkitem(S,default_lab(S),mc_fmt("n%d#%zu~",n,i))); } pools.push_back(P); } }
  for(auto&P:pools) for(auto&I:P) g_by_dump[I.dump]=&I;
  mc_count("groups of non-isomorphic diagrams with equal hash",pools.size()-1);
  histories(B,mc_thorough?4:3,"basic",true);
  static std::vector<Item> S(B.begin()+1,B.begin()+4); S[2]=B[0]; histories(S,mc_thorough?5:4,"small",true);
  for(size_t i=1;i<pools.size();i++) histories(pools[i],mc_thorough?3:2,"equal hashes",true);
  // whole families in one store
  for(int eq=0;eq<3;eq++) for(int order=0;order<3;order++) mc_case_lazy([&]{ return mc_fmt("all diagrams in one store, equivalence %s, order %d",EQN[eq],order); },[&]{ H h; static std::vector<Item> V; if(V.empty()){ for(int n=0;n<=3;n++) for(auto&D:gen_diagrams(n,SG_UNSET|SG_SIGNED)) V.push_back(mkitem(D,default_lab(D),"d")); if(mc_thorough) for(auto&D:gen_maps(5)) V.push_back(mkitem(D,default_lab(D),"d")); for(auto&D:gen_maps(4)) V.push_back(mkitem(D,default_lab(D),"d")); for(auto&I:V) g_by_dump[I.dump]=&I; } VI ix(V.size()); std::iota(ix.begin(),ix.end(),0); if(order==1) std::reverse(ix.begin(),ix.end()); if(order==2) std::sort(ix.begin(),ix.end(),[](int a,int b){ return (a*7919)%10007<(b*7919)%10007; }); for(int i:ix) h.add(V[i],eq); h.all(); for(int i:ix){ h.search(V[i]); h.add(V[i],eq?eq:1); } h.all(); mc_state(h.state()); h.reread(eq,0); h.all(); for(int i:ix) h.add(V[i],eq?eq:2); h.restarts(); mc_trace(); mc_outcome(mc_fmt("%zu elements",h.m.v.size())); });
  // closed braids far above the enumerated size, with a relabelled copy of each
  static std::vector<Item> BG; for(auto&b:big_diagrams(1,27)){ double c=1; VI len=dia_comp_len(b.D); std::map<int,int> m; for(int l:len){ c*=2*l; c*=++m[l]; } if(c>1200) continue; BG.push_back(mkitem(b.D,default_lab(b.D),b.name)); Lab L=default_lab(b.D); for(int k=0;k<b.D.ncomp;k++) for(int q=0;q<5+k;q++) L.start[k]=d_across(b.D.mate[L.start[k]]); BG.push_back(mkitem(b.D,L,b.name+"'")); } for(auto&I:BG) g_by_dump[I.dump]=&I;
  for(int eq=0;eq<3;eq++) for(int order=0;order<3;order++) mc_case(mc_fmt("large diagrams in one store, equivalence %s, order %d",EQN[eq],order),[=]{ H h; VI ix(BG.size()); std::iota(ix.begin(),ix.end(),0); if(order==1) std::reverse(ix.begin(),ix.end()); if(order==2) std::sort(ix.begin(),ix.end(),[](int a,int b){ return (a*7919)%10007<(b*7919)%10007; }); for(int i:ix) h.add(BG[i],eq); h.all(); for(int i:ix){ h.search(BG[i]); h.add(BG[i],eq?eq:1); } h.all(); mc_state(h.state()); h.reread(eq,0); h.all(); for(int i:ix) h.add(BG[i],eq?eq:2); h.restarts(); mc_trace(); mc_outcome(mc_fmt("%zu elements",h.m.v.size())); });
  // incremental files: every split of a sequence of additions into batches; every torn write
  int K=mc_thorough?5:4; for(int len=0;len<=K;len++) for(int split=0;split<(1<<std::max(len,1));split++) for(int sh=0;sh<3;sh++) mc_case_lazy([&]{ return mc_fmt("incremental file of %d diagrams, batches %x, selection %d",len,split,sh); },[&]{ FILE*f=tmpfile(); MC_CHECK(f,"tmpfile"); pd_start_incremental_pdstor(f); fflush(f); std::string before; H h; std::vector<El> want; unsigned th=0,te=0; 
    auto flush=[&]{ pd_addto_incremental_pdstor(f,h.s,&th,&te); mc_trans(); for(auto&e:h.m.v) want.push_back(e); pd_free_pdstor(&h.s); h.s=pd_new_pdstor(); h.m=Model(); }; for(int i=0;i<len;i++){ h.add(B[(i*(sh+1)+sh)%B.size()],0); if((split>>i)&1) flush(); } flush(); if(split&1) flush();
    before=slurp(f); pd_finish_incremental_pdstor(f,th,te); std::string after=slurp(f); fclose(f); MC_CHECK(te==want.size(),"the incremental writer counted %u elements of %zu",te,want.size()); MC_CHECK(after.size()==before.size(),"finishing changed the length of the file"); pd_stor_t*t=read_str(after); h.compare(t,0,want); pd_free_pdstor(&t);
    auto same=[&](pd_stor_t*u){ if(pd_stor_nelts(u)!=want.size()) return false; auto r=h.list(u); std::vector<std::string> a,b; for(auto&e:want) a.push_back(e.dump); for(auto&e:r) b.push_back(e.dump); std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); return a==b; };
    // crash before or inside finish: the file either cannot be read or holds exactly what was written
    for(size_t k=0;k<=after.size()&&k<200;k++){ std::string torn=after.substr(0,k)+before.substr(k); if(torn==after) break; pd_stor_t*u=read_str(torn); if(u){ MC_CHECK(same(u),"a file torn %zu bytes into the final header reads as a store of %u elements, not %zu",k,pd_stor_nelts(u),want.size()); pd_free_pdstor(&u); } mc_eval(); }
    // crash while the finished file is being copied
    size_t end=after.find_last_not_of(" \n\t")+1; for(size_t k=0;k<end;k++){ std::string torn=after.substr(0,k); pd_stor_t*u=read_str(torn); if(u){ MC_CHECK(same(u),"a file cut after %zu of %zu bytes reads as a store of %u elements, not %zu",k,after.size(),pd_stor_nelts(u),want.size()); pd_free_pdstor(&u); } mc_eval(); }
    mc_state(after); mc_trace(); mc_outcome(mc_fmt("incremental %zu",want.size())); });
}
