// D14: every tangle of every small diagram is regenerated from its boundary; damaged boundaries are refused.
#include "tangle.hpp"
#include "big.hpp"
static void check(pd_code_t*pd,const Dia&D,const VI&en,const VI&df,const VI&w,const TangleModel&M,bool again){ pd_tangle_t*t=build_tangle(pd,D,en,w,df); if(again){ t->ninterior_cross=1; t->interior_cross=(pd_idx_t*)calloc(1,sizeof(pd_idx_t)); t->ninterior_edges=1; t->interior_edge=(pd_idx_t*)calloc(1,sizeof(pd_idx_t)); } int err=PD_NO_ERROR; pd_regenerate_tangle_err(pd,t,&err); mc_trans(); mc_eval(); MC_CHECK(err==PD_NO_ERROR,"regenerating a tangle set error %d",err); size_t k=w.size(); MC_CHECK(t->nedges==k&&t->nstrands==k/2,"the tangle has %u edges and %u strands",t->nedges,t->nstrands);
  for(size_t i=0;i<k;i++){ MC_CHECK((int)t->edge[i]==en[w[i]]&&(int)t->face[i]==df[D.mate[w[i]]],"the boundary changed at %zu",i); MC_CHECK(t->edge_bdy_or[i]==(M.in[i]?in:out),"boundary edge %zu (%d) is marked %d",i,en[w[i]],(int)t->edge_bdy_or[i]); MC_CHECK(pd_tangle_bdy_or(pd,t,t->edge[i])==t->edge_bdy_or[i],"pd_tangle_bdy_or(%u)",t->edge[i]); }
  MC_CHECK(M.strand.size()==k/2,"model"); for(size_t i=0;i<k/2;i++){ auto&s=t->strand[i]; auto&m=M.strand[i]; MC_CHECK((int)s.start_edge==m.start&&(int)s.end_edge==m.end&&(int)s.nedges==m.n&&(int)s.comp==m.comp,"strand %zu runs from %u to %u over %u edges of component %u instead of %d to %d over %d edges of component %d",i,s.start_edge,s.end_edge,s.nedges,s.comp,m.start,m.end,m.n,m.comp); }
  std::set<int> ic(t->interior_cross,t->interior_cross+t->ninterior_cross),ie(t->interior_edge,t->interior_edge+t->ninterior_edges); MC_CHECK(ic.size()==t->ninterior_cross&&std::is_sorted(t->interior_cross,t->interior_cross+t->ninterior_cross),"interior crossings are not a sorted set"); MC_CHECK(ie.size()==t->ninterior_edges&&std::is_sorted(t->interior_edge,t->interior_edge+t->ninterior_edges),"interior edges are not a sorted set"); auto list=[](const std::set<int>&s){ std::string r; for(int x:s) r+=mc_fmt("%d ",x); return r; }; MC_CHECK(ic==M.cross,"interior crossings { %s} instead of { %s}",list(ic).c_str(),list(M.cross).c_str()); MC_CHECK(ie==M.edge,"interior edges { %s} instead of { %s}",list(ie).c_str(),list(M.edge).c_str()); MC_CHECK(pd_tangle_ok(pd,t),"pd_tangle_ok rejects a regenerated tangle");
  mc_outcome(mc_fmt("%zu boundary edges, %zu interior crossings",k,ic.size())); pd_tangle_free(&t); }
// a regenerated tangle with one field damaged fails the consistency check (false, or the documented exit)
static void corrupt(pd_code_t*pd,const Dia&D,const VI&en,const VI&df,const VI&w){ pd_tangle_t*t=build_tangle(pd,D,en,w,df); int err=PD_NO_ERROR; pd_regenerate_tangle_err(pd,t,&err); MC_CHECK(err==PD_NO_ERROR,"regenerating a tangle set error %d",err); size_t k=w.size();
  auto refuse=[&](const char*what,size_t i,long v){ bool ok=false; std::string b=mc_st->note; int r=mc_guarded([&]{ ok=pd_tangle_ok(pd,t); }); mc_trans(); mc_eval(); MC_CHECK(r!=0||!ok,"pd_tangle_ok accepts a tangle whose %s %zu was changed to %ld",what,i,v); };
  auto on=[&](unsigned e,unsigned f){ int c=0; for(unsigned j=0;j<pd->face[f].nedges;j++) c+=pd->face[f].edge[j]==e; return c==1; };
  #define TRY(field,type,val,what,i) do{ auto old_=field; field=(type)(val); if(field!=old_) refuse(what,i,(long)(val)); field=old_; }while(0)
  TRY(t->nstrands,pd_idx_t,t->nstrands+1,"strand count",0); TRY(t->nstrands,pd_idx_t,t->nstrands-1,"strand count",0); TRY(t->nstrands,pd_idx_t,PD_UNSET_IDX,"strand count",0);
  for(size_t i=0;i<k;i++){ for(unsigned e=0;e<pd->nedges;e++) TRY(t->edge[i],pd_idx_t,e,"edge",i); for(unsigned f=0;f<pd->nfaces;f++) if(!on(t->edge[i],f)||!on(t->edge[(i+k-1)%k],f)) TRY(t->face[i],pd_idx_t,f,"face",i); for(int o=0;o<4;o++) TRY(t->edge_bdy_or[i],pd_boundary_or_t,o,"boundary orientation",i); }
  for(size_t i=0;i<k/2;i++){ auto&S=t->strand[i]; for(size_t j=0;j<=k;j++){ TRY(S.start_edge,pd_idx_t,j,"start of strand",i); TRY(S.end_edge,pd_idx_t,j,"end of strand",i); } for(unsigned n=0;n<=pd->nedges+1;n++) TRY(S.nedges,pd_idx_t,n,"length of strand",i); TRY(S.nedges,pd_idx_t,PD_UNSET_IDX,"length of strand",i); for(unsigned c=0;c<pd->ncomps;c++) TRY(S.comp,pd_tag_t,c,"component of strand",i); }
  TRY(t->ninterior_cross,pd_idx_t,PD_UNSET_IDX,"number of interior crossings",0); TRY(t->ninterior_edges,pd_idx_t,PD_UNSET_IDX,"number of interior edges",0); TRY(t->ninterior_cross,pd_idx_t,pd->ncross+1,"number of interior crossings",0); TRY(t->ninterior_edges,pd_idx_t,pd->nedges+1,"number of interior edges",0);
  auto list=[&](pd_idx_t*a,pd_idx_t n,unsigned lim,const char*what){ for(pd_idx_t i=0;i<n;i++) for(unsigned v=0;v<=lim;v++) if(v==lim||(i>0&&v<=a[i-1])||(i+1<n&&v>=a[i+1])) TRY(a[i],pd_idx_t,v,what,i); };
  list(t->interior_cross,t->ninterior_cross,pd->ncross,"interior crossing"); list(t->interior_edge,t->ninterior_edges,pd->nedges,"interior edge");
  MC_CHECK(pd_tangle_ok(pd,t),"pd_tangle_ok rejects a regenerated tangle"); mc_outcome("corruptions refused"); pd_tangle_free(&t); }
static void run(const Dia&D0,const Lab&L,int maxlen,bool bad){ pd_code_t*pd=to_pd(D0,L); Dia D=from_pd(pd); VI en=pd_edges(pd),df=pd_dartface(pd); std::string before=pd_dump(pd); all_tangles(D,maxlen,[&](const VI&w0){ TangleModel M; mc_note("%s boundary edges %s",pd_str(pd).c_str(),walk_str(en,w0).c_str()); if(!tangle_model(D,en,w0,M)) mc_fail("harness: the curve does not bound"); mc_state(before+walk_str(en,w0)); for(size_t r=0;r<w0.size();r++){ VI w=w0; std::rotate(w.begin(),w.begin()+r,w.end()); mc_note("%s boundary edges %s",pd_str(pd).c_str(),walk_str(en,w).c_str()); tangle_model(D,en,w,M); check(pd,D,en,df,w,M,r==0); }
      if(bad&&D.n<=4){ mc_note("%s boundary edges %s",pd_str(pd).c_str(),walk_str(en,w0).c_str()); corrupt(pd,D,en,df,w0); }
      if(bad) for(size_t i=0;i<w0.size();i++) for(int kind=0;kind<2;kind++){ pd_tangle_t*t=build_tangle(pd,D,en,w0,df); bool mustfail=false; if(kind==0){ t->edge[i]=t->edge[(i+1)%w0.size()]; mustfail=true; } else { int f=-1; for(unsigned g=0;g<pd->nfaces;g++) if((int)g!=df[w0[i]]&&(int)g!=df[D.mate[w0[i]]]){ f=g; break; } if(f>=0){ t->face[i]=f; mustfail=true; } } mc_note("%s boundary edges %s damaged at %zu (%d)",pd_str(pd).c_str(),walk_str(en,w0).c_str(),i,kind); if(mustfail){ int err=PD_NO_ERROR; pd_regenerate_tangle_err(pd,t,&err); mc_trans(); MC_CHECK(err==PD_TANGLE_ERROR,"a boundary with %s is accepted",kind?"a face that does not touch its edge":"a repeated edge"); mc_outcome("refused"); } pd_tangle_free(&t); } });
  MC_CHECK(pd_dump(pd)==before,"regenerating tangles modified the diagram"); pd_code_free(&pd); mc_trace(); }
void mc_main(){ bool T=mc_thorough; (void)T;
  for(int n=1;n<=(mc_deep?6:5);n++) for(auto&M:gen_maps(n)) mc_case_lazy([&]{ return "all tangles of "+dia_str(M); },[&]{ all_orients(M,false,[&](const Dia&D){ run(D,default_lab(D),n>=5?8:12,true); }); mc_sample("all tangles of "+dia_str(M)); });
  for(int n=6+mc_deep;n<=6+mc_deep;n++) for(auto&M:gen_maps(n,CF_REFLECT)) mc_case_lazy([&]{ return "tangles with up to 8 boundary edges of "+dia_str(M); },[&]{ run(M,default_lab(M),T?8:6,false); });
  for(int n=1;n<=3;n++) for(auto&M:gen_maps(n)) mc_case_lazy([&]{ return "all labellings, all tangles of "+dia_str(M); },[&]{ all_orients(M,false,[&](const Dia&D){ all_labs(D,[&](const Lab&L){ run(D,L,12,false); }); }); });
  // closed braids far above the enumerated size
  static std::vector<Big> BV=big_diagrams(mc_deep?2:T?1:0,0x1a); for(auto&b:BV) mc_case("tangles of "+b.name,[&]{ run(b.D,default_lab(b.D),b.D.n<=12?6:4,b.D.n<=20); });
  // discs with long boundaries
  struct LB{ int k,p; }; for(auto&l:std::vector<LB>{{6,5},{8,7},{12,4},{12,11},{16,5}}) for(int v=0;v<2;v++) mc_case(mc_fmt("tangles with long boundaries of the braid (1..%d)^%d, variant %d",l.k-1,l.p,v),[=]{ VI w; for(int i=0;i<l.p;i++) for(int j=0;j+1<l.k;j++) w.push_back(j); Dia D=braid_closure(l.k,w); for(int i=0;i<D.n;i++) D.sign[i]=i%2; if(v) for(int c=0;c<D.ncomp;c+=2) dia_reverse(D,c); g_tangles=[=](const Dia&E,const std::function<void(const VI&)>&cb){ disc_tangles(E,8,60,mc_thorough?24:6,mc_thorough?400:60,cb); }; run(D,default_lab(D),0,true); g_tangles=nullptr; });
}
