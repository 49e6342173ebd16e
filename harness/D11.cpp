// D11: navigation queries agree with the geometry of the diagram.
#include "pdmodel.hpp"
#include "big.hpp"
static void check(pd_code_t*pd){
  Dia D=from_pd(pd); std::string before=pd_dump(pd); mc_state(pd_dump(pd,false));
  for(int c=0;c<D.n;c++){ int oi,oo,ui,uo; dia_strands(D,c,oi,oo,ui,uo); pd_idx_t a,b,x,y;
    mc_note("strands at crossing %d of %s",c,pd_str(pd).c_str());
    pd_overstrand_pos(pd,c,&a,&b); MC_CHECK((int)a==oi%4&&(int)b==oo%4,"overstrand positions at %d of %s: %u,%u expected %d,%d",c,pd_str(pd).c_str(),a,b,oi%4,oo%4);
    pd_understrand_pos(pd,c,&x,&y); MC_CHECK((int)x==ui%4&&(int)y==uo%4,"understrand positions at %d of %s: %u,%u expected %d,%d",c,pd_str(pd).c_str(),x,y,ui%4,uo%4);
    pd_idx_t ea,eb,ex,ey; pd_overstrand(pd,c,&ea,&eb); pd_understrand(pd,c,&ex,&ey); mc_trans(4);
    MC_CHECK(ea==pd->cross[c].edge[oi%4]&&eb==pd->cross[c].edge[oo%4]&&ex==pd->cross[c].edge[ui%4]&&ey==pd->cross[c].edge[uo%4],"over/under edges at %d of %s: %u>%u %u>%u",c,pd_str(pd).c_str(),ea,eb,ex,ey); mc_outcome(mc_fmt("over %d>%d sign %d",oi%4,oo%4,D.sign[c])); }
  for(unsigned e=0;e<pd->nedges;e++){ pd_idx_t c,p; pd_component_and_pos(pd,e,&c,&p); mc_trans(); MC_CHECK(c<pd->ncomps&&p<pd->comp[c].nedges&&pd->comp[c].edge[p]==e,"component of edge %u",e);
    unsigned ne=pd->comp[c].nedges; pd_idx_t nx=pd_next_edge(pd,e),pv=pd_previous_edge(pd,e); mc_trans(2); MC_CHECK(nx==pd->comp[c].edge[(p+1)%ne],"next edge of %u in %s is %u",e,pd_str(pd).c_str(),nx); MC_CHECK(pv==pd->comp[c].edge[(p+ne-1)%ne],"previous edge of %u in %s is %u",e,pd_str(pd).c_str(),pv);
    if(D.n){ pd_idx_t pf,pp,nf,np; mc_note("faces of edge %u of %s",e,pd_str(pd).c_str()); pd_face_and_pos(pd,e,&pf,&pp,&nf,&np); mc_trans(); MC_CHECK(pf<pd->nfaces&&nf<pd->nfaces&&pp<pd->face[pf].nedges&&np<pd->face[nf].nedges&&pd->face[pf].edge[pp]==e&&pd->face[pf].orient[pp]==PD_POS_ORIENTATION&&pd->face[nf].edge[np]==e&&pd->face[nf].orient[np]==PD_NEG_ORIENTATION,"faces of edge %u of %s: %u.%u %u.%u",e,pd_str(pd).c_str(),pf,pp,nf,np); mc_outcome("faces found");
      for(unsigned f=0;f<pd->nfaces;f++) MC_CHECK(pd_edge_on_face(pd,e,f)==(f==pf||f==nf),"edge %u on face %u of %s misreported",e,f,pd_str(pd).c_str());
      pd_edge_t E=pd->edge[e],P=pd_oriented_edge(E,PD_POS_ORIENTATION),N=pd_oriented_edge(E,PD_NEG_ORIENTATION); MC_CHECK(P.head==E.head&&P.headpos==E.headpos&&P.tail==E.tail&&P.tailpos==E.tailpos&&N.head==E.tail&&N.headpos==E.tailpos&&N.tail==E.head&&N.tailpos==E.headpos,"oriented edge %u",e); } }
  MC_CHECK(pd_dump(pd)==before,"a query modified the diagram"); mc_eval(); mc_trace(); }
void mc_main(){
  int N=mc_thorough?5:4,Nm=mc_thorough?7:6;
  for(int n=0;n<=N;n++) for(auto&D:gen_diagrams(n,SG_UNSET|SG_SIGNED|(n<=3?SG_MIXED:0))) mc_case_lazy([&]{ return "queries on "+dia_str(D); },[&]{ auto one=[&](const Lab&L){ pd_code_t*pd=to_pd(D,L,n%2); check(pd); pd_code_free(&pd); }; if(n<=4) all_labs(D,one); else one(default_lab(D)); mc_sample("all queries on "+dia_str(D)); });
  for(int n=N+1;n<=Nm;n++) for(auto&M:gen_maps(n)) mc_case_lazy([&]{ return "queries on map "+dia_str(M); },[&]{ all_orients(M,true,[&](const Dia&O){ Dia D=O; for(int v=0;v<2;v++){ for(int i=0;i<n;i++) D.sign[i]=(i+v)%2; pd_code_t*pd=to_pd(D); check(pd); pd_code_free(&pd);} }); });
  static std::vector<Big> BV=big_diagrams(mc_thorough?2:1); for(auto&b:BV) mc_case("queries on "+b.name,[&]{ pd_code_t*pd=to_pd(b.D); check(pd); pd_code_free(&pd); });
}
