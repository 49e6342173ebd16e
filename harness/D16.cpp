// D16: every small diagram rebuilt from nothing but crossings (or crossings, edges and signs) under every naming.
#include "pdmodel.hpp"
#include "big.hpp"
struct Naming{ VI en; VI slot; VI rot; };   // dart -> edge name; crossing -> position in the buffer; crossing -> rotation
static pd_code_t*raw(const Dia&D,const Naming&N,bool edges,int slack){ pd_code_t*pd=pd_code_new(D.n+slack); pd->ncross=D.n; auto pos=[&](int d){ return ((d&3)+N.rot[d/4])&3; }; for(int d=0;d<4*D.n;d++){ pd_crossing_t&c=pd->cross[N.slot[d/4]]; c.edge[pos(d)]=N.en[d]; c.sign=D.sign[d/4]; } if(edges){ pd->nedges=2*D.n; for(int d=0;d<4*D.n;d++) if(D.out[d]){ int e=N.en[d],m=D.mate[d]; pd->edge[e].tail=N.slot[d/4]; pd->edge[e].tailpos=pos(d); pd->edge[e].head=N.slot[m/4]; pd->edge[e].headpos=pos(m); } } return pd; }
static std::string nstr(const pd_code_t*pd){ std::string s; for(unsigned i=0;i<pd->ncross;i++) s+=mc_fmt("%d.%d.%d.%d%c ",pd->cross[i].edge[0],pd->cross[i].edge[1],pd->cross[i].edge[2],pd->cross[i].edge[3],"-+u"[pd->cross[i].sign]); return s; }
static void fresh_tags(pd_code_t*pd){ for(unsigned c=0;c<pd->ncomps;c++){ MC_CHECK(pd->comp[c].tag==(pd_tag_t)('A'+c),"component %u has tag %c",c,pd->comp[c].tag); if(c) MC_CHECK(pd->comp[c-1].nedges>=pd->comp[c].nedges,"components are not longest first"); } }
enum { CROSS_ONLY, EDGES, EDGES_UNSET, BAD_EDGES, NO_EDGES_SIGNED, HALF_EDGES };
static void check(const Dia&D,const Naming&N,int mode,int slack,const std::string&want){ pd_code_t*pd=raw(D,N,mode==EDGES||mode==EDGES_UNSET||mode==BAD_EDGES||mode==HALF_EDGES,slack); bool keep=mode==EDGES&&[&]{ for(int s:D.sign) if(s!=PD_UNSET_ORIENTATION) return true; return false; }();
  if(mode==BAD_EDGES) for(unsigned e=0;e<pd->nedges;e++){ pd->edge[e].head=pd->edge[e].tail=PD_UNSET_IDX; pd->edge[e].headpos=pd->edge[e].tailpos=PD_UNSET_POS; }
  if(mode==HALF_EDGES) pd->nedges=D.n;
  std::string s=nstr(pd); mc_note("mode %d %s",mode,s.c_str()); mc_state(mc_fmt("%d|",mode)+s); pd_regenerate(pd); mc_trans(); mc_eval(); CHECK_VALID(pd,"regenerated from %s",s.c_str()); MC_CHECK(pd_ok(pd),"pd_ok rejects the diagram regenerated from %s",s.c_str()); Dia E=from_pd(pd); fresh_tags(pd);
  if(keep){ std::string got=dia_canon(E,CF_ORIENT|CF_SIGN); MC_CHECK(got==want,"regenerating %s with its edges gave %s",s.c_str(),pd_str(pd).c_str()); }
  else { for(int x:E.sign) MC_CHECK(x==PD_UNSET_ORIENTATION,"a crossing without orientation kept sign %d",x); MC_CHECK(dia_canon(E,0)==want,"regenerating %s gave another diagram %s",s.c_str(),pd_str(pd).c_str()); }
  // a second regeneration changes nothing of substance
  std::string before=dia_canon(E,keep?CF_ORIENT|CF_SIGN:0); pd_regenerate(pd); CHECK_VALID(pd,"regenerated twice from %s",s.c_str()); Dia E2=from_pd(pd); MC_CHECK(dia_canon(E2,keep?CF_ORIENT|CF_SIGN:0)==before,"the second regeneration changed the diagram %s",s.c_str()); mc_outcome(mc_fmt("mode %d, %u components",mode,pd->ncomps)); pd_code_free(&pd); }
static void edge_names(const Dia&D,const VI&perm,VI&en){ VI base=lab_edges(D,default_lab(D)); en.resize(4*D.n); for(int d=0;d<4*D.n;d++) en[d]=perm[base[d]]; }
static void all_namings(const Dia&D,int level,const std::function<void(const Naming&)>&cb){ int n=D.n; auto crossings=[&](const VI&perm){ Naming N; edge_names(D,perm,N.en); VI s(n); for(int i=0;i<n;i++) s[i]=i; int k=0; do{ N.slot=s; int rots=1<<(2*n); if(level==2) for(int r=0;r<rots;r++){ N.rot.assign(n,0); for(int i=0;i<n;i++) N.rot[i]=(r>>(2*i))&3; cb(N); } else { N.rot.assign(n,0); for(int i=0;i<n;i++) N.rot[i]=(i*3+k)&3; cb(N); } k++; if(level==0&&k>=4) break; }while(std::next_permutation(s.begin(),s.end())); };
  VI p(2*n); for(int i=0;i<2*n;i++) p[i]=i; if(level>=1&&n<=3){ do crossings(p); while(std::next_permutation(p.begin(),p.end())); return; }
  for(int r=0;r<2*n;r++) for(int rev=0;rev<2;rev++){ VI q(2*n); for(int i=0;i<2*n;i++) q[i]=rev?(4*n-1-i-r)%(2*n):(i+r)%(2*n); crossings(q); } for(int i=0;i<2*n;i++) for(int j=i+1;j<2*n;j++){ VI q=p; std::swap(q[i],q[j]); crossings(q); } for(int m=3;m<2*n;m+=2) if(std::__gcd(m,2*n)==1){ VI q(2*n); for(int i=0;i<2*n;i++) q[i]=i*m%(2*n); crossings(q); } }
static void one(const Dia&M,int level,int modes,bool orients,int signs){ std::string want0=dia_canon(M,0); Dia U=M; U.sign.assign(M.n,PD_UNSET_ORIENTATION); int k=0; all_namings(U,level,[&](const Naming&N){ check(U,N,CROSS_ONLY,(k++)%3,want0); if(modes&1) check(U,N,EDGES_UNSET,0,want0); }); mc_trace();
  auto go=[&](const Dia&O){ all_signs(O,signs,[&](const Dia&S){ bool any=false; for(int x:S.sign) any|=x!=PD_UNSET_ORIENTATION; if(!any) return; std::string want=dia_canon(S,CF_ORIENT|CF_SIGN); all_namings(S,std::min(level,M.n<=2?level:level-1),[&](const Naming&N){ check(S,N,EDGES,(k++)%3,want); if(modes&2){ check(S,N,BAD_EDGES,0,want0); check(S,N,NO_EDGES_SIGNED,0,want0); check(S,N,HALF_EDGES,0,want0); } }); mc_trace(); }); }; if(orients) all_orients(M,false,go); else go(M); }
void mc_main(){ bool T=mc_thorough;
  for(int n=1;n<=2;n++) for(auto&M:gen_maps(n)) mc_case_lazy([&]{ return "every naming of "+dia_str(M); },[&]{ one(M,2,3,true,SG_SIGNED|SG_MIXED); mc_sample("every naming of "+dia_str(M)); });
  for(auto&M:gen_maps(3)) mc_case_lazy([&]{ return "every edge and crossing naming of "+dia_str(M); },[&]{ one(M,1,mc_deep?2:0,true,SG_SIGNED|SG_MIXED); });
  for(auto&M:gen_maps(4)) mc_case_lazy([&]{ return "shifted, reversed and transposed namings of "+dia_str(M); },[&]{ one(M,T,0,T,SG_SIGNED); });
  for(auto&M:gen_maps(5)) mc_case_lazy([&]{ return "shifted, reversed and transposed namings of "+dia_str(M); },[&]{ one(M,0,0,mc_deep,T?SG_SIGNED:SG_UNSET); });
  for(auto&M:gen_maps(6,T?0:CF_REFLECT)) mc_case_lazy([&]{ return "shifted, reversed and transposed namings of "+dia_str(M); },[&]{ one(M,0,0,false,mc_deep?SG_SIGNED:SG_UNSET); });
  static std::vector<Big> BV=big_diagrams(T?2:1,2); for(auto&b:BV) mc_case("namings of "+b.name,[&]{ one(b.D,0,0,false,SG_UNSET); });
}
