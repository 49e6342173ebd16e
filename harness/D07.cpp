// D07: the hash of a diagram depends only on its isomorphism class.
#include "pdmodel.hpp"
static std::string hash_of(pd_code_t*pd){ memset(pd->hash,0x5a,PD_HASHSIZE); std::string b=pd_dump(pd,false); pd_regenerate_hash(pd); mc_trans(); size_t l=strnlen(pd->hash,PD_HASHSIZE); MC_CHECK(l>0&&l<PD_HASHSIZE,"hash is not a terminated string of at most %d characters",PD_HASHSIZE-1); for(size_t i=0;i<l;i++) MC_CHECK(pd->hash[i]>32&&pd->hash[i]<127,"hash character %zu is %d",i,pd->hash[i]); MC_CHECK(pd_dump(pd,false)==b,"hashing modified the diagram"); std::string h(pd->hash); pd_regenerate_hash(pd); MC_CHECK(h==pd->hash,"hashing twice gives different values"); return h; }
static Dia mirror(const Dia&D){ Dia E=D; auto f=[](int d){ return (d&~3)|((4-(d&3))&3); }; for(int d=0;d<4*D.n;d++){ E.mate[f(d)]=f(D.mate[d]); E.out[f(d)]=D.out[d]; E.comp[f(d)]=D.comp[d]; } return E; }
void mc_main(){
  int N=mc_thorough?7:6;
  for(int n=0;n<=N;n++) for(auto&M:gen_maps(n,CF_REFLECT)) mc_case_lazy([&]{ return "hash of every form of "+dia_str(M); },[&]{ std::string want; int k=0; std::set<std::string> hs;
    auto one=[&](const Dia&O,const Lab&L){ Dia Q=O; k++; for(int c=0;c<n;c++) Q.sign[c]=n<=4?(k*(c+1)+c/2)%3:(k+c)%3; for(int c=0;c<Q.ncomp;c++) Q.tag[c]='A'+((c+k)%Q.ncomp); pd_code_t*pd=to_pd(Q,L,k%3,k); mc_note("%s",pd_str(pd).c_str()); std::string h=hash_of(pd); if(want.empty()) want=h; MC_CHECK(h==want,"isomorphic diagrams have hashes %s and %s: %s",want.c_str(),h.c_str(),pd_str(pd).c_str());
      if(k<=3){ pd_code_t*c=pd_copy(pd); MC_CHECK(want==c->hash,"copy has another hash"); pd_code_free(&c); pd_code_t*r=pd_code_new(pd->MAXVERTS); r->ncross=pd->ncross; memcpy(r->cross,pd->cross,pd->ncross*sizeof(pd_crossing_t)); if(n>0){ for(int i=0;i<n;i++) r->cross[i].sign=PD_UNSET_ORIENTATION; pd_regenerate(r); MC_CHECK(want==r->hash,"the diagram regenerated from its crossings has hash %s, not %s",r->hash,want.c_str()); } pd_code_free(&r); }
      pd_code_free(&pd); mc_eval(); };
    for(int mir=0;mir<2;mir++){ Dia B=mir?mirror(M):M; int K=0; all_orients(B,n>4,[&](const Dia&O){ if(K++>=(n>5?4:64)) return; if(n<=4||(n==5&&!mir)) all_labs(O,[&](const Lab&L){ one(O,L); }); else { Lab L=default_lab(O); one(O,L); for(int d=0;d<4*O.n;d++) if(O.out[d]){ Lab Q=L; Q.start[O.comp[d]]=d; one(O,Q); } } }); }
    mc_state(want); mc_trace(); mc_outcome("class hashed"); mc_sample("all forms of "+dia_str(M)+" hash to "+want); });
  // large diagrams: every reorientation/renumbering of the standard families
  int big=mc_thorough?120:60;
  for(int n=2;n<=big;n++) mc_case_lazy([&]{ return mc_fmt("standard diagrams of size %d",n); },[&]{ pd_code_t*v[4]={pd_build_unknot(n),pd_build_torus_knot(2,n),n<=30?pd_build_simple_chain(n):NULL,pd_build_twist_knot(n)}; for(auto pd:v) if(pd){ std::string want=hash_of(pd); mc_state(want); for(unsigned c=0;c<pd->ncomps&&c<3;c++) for(int r=0;r<2;r++){ pd_reorient_component(pd,c,PD_NEG_ORIENTATION); MC_CHECK(hash_of(pd)==want,"reversing component %u changes the hash of %s",c,pd_str(pd).c_str()); for(unsigned o=1;o<pd->comp[c].nedges&&o<8;o++){ pd_code_t*q=pd_copy(pd); pd_renumber_component(q,c,o); MC_CHECK(hash_of(q)==want,"renumbering component %u changes the hash of %s",c,pd_str(pd).c_str()); pd_code_free(&q); mc_eval(); } } pd_code_free(&pd); } mc_trace(); });
}
