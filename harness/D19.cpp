// D19: the standard diagrams are what they are named after, for every size.
#include "pdmodel.hpp"
extern "C" bool pd_isomorphic(pd_code_t *pdA,pd_code_t *pdB);
static Dia mk(int n){ Dia D; D.n=n; D.mate.assign(4*n,-1); D.out.assign(4*n,0); D.comp.assign(4*n,-1); D.sign.assign(n,PD_POS_ORIENTATION); return D; }
static void jn(Dia&D,int a,int b){ D.mate[a]=b; D.mate[b]=a; }
enum{ SW,SE,NE,NW };
static Dia m_torus(int q){ Dia D=mk(q); for(int i=0;i<q;i++){ int j=(i+1)%q; jn(D,4*i+NE,4*j+NW); jn(D,4*i+SE,4*j+SW); } dia_components(D); if(D.ncomp==2){ // parallel strands
    int a=-1,b=-1; for(int d: {(int)NE,(int)SE}){ if(D.comp[d]==0) a=d; else b=d; } if(D.out[a]!=D.out[b]) dia_reverse(D,1); } return D; }
static Dia m_twist(int n){ Dia D=mk(n+2); int a=n,b=n+1; for(int i=0;i+1<n;i++){ jn(D,4*i+NE,4*(i+1)+NW); jn(D,4*i+SE,4*(i+1)+SW); } jn(D,4*a+SW,4*b+NW); jn(D,4*a+SE,4*b+NE); jn(D,4*(n-1)+NE,4*a+NW); jn(D,4*(n-1)+SE,4*b+SW); jn(D,NW,4*a+NE); jn(D,SW,4*b+SE); dia_components(D); return D; }
static Dia m_chain(int k){ int n=2*(k-1); Dia D=mk(n); // ring j meets ring j+1 at crossings 2j (top) and 2j+1 (bottom); ring j's right part there
  // at both crossings: darts 0 and 2 belong to ring j, darts 1 and 3 to ring j+1.  Right arc of ring j joins top and bottom inside ring j+1 and vice versa.
  for(int j=0;j+1<k;j++){ int t=4*(2*j),b=t+4; // top: 0=W(j arrives from left) 1=S(j+1's left arc) 2=... placed ccw
    // top crossing, ccw from the left: W=0 (ring j, outer side), S... use positions: 0: ring j towards the left, 1: ring j+1 down (inside j), 2: ring j down (inside j+1), 3: ring j+1 towards the right
    // bottom crossing ccw: 0: ring j towards the left, 1: ring j+1 towards the right, 2: ring j up, 3: ring j+1 up
    jn(D,t+2,b+2); jn(D,t+1,b+3);
    if(j==0) jn(D,t+0,b+0); else { int pt=4*(2*(j-1)),pb=pt+4; jn(D,pt+3,t+0); jn(D,pb+1,b+0); }
    if(j==k-2) jn(D,t+3,b+1); }
  dia_components(D); return D; }
static bool alternating(const Dia&D){ for(int d=0;d<4*D.n;d++) if(D.out[d]){ int y=D.mate[d]; int oi,oo,ui,uo; dia_strands(D,d/4,oi,oo,ui,uo); bool ov=d==oo; dia_strands(D,y/4,oi,oo,ui,uo); if((y==oi)==ov) return false; } return true; }
static int r1reduce(Dia D){ // remove monogons while there are any; crossings left
  for(;;){ int m=-1; for(int d=0;d<4*D.n;d++) if(D.mate[d]==d_ccw(d)||D.mate[d]==d_cw(d)){ m=d; break; } if(m<0||D.n<=1) return m<0?D.n:0; std::vector<char> rm(D.n,0); rm[m/4]=1; int x=-1,y=-1; for(int p=0;p<4;p++){ int d=4*(m/4)+p; if(d!=m&&d!=D.mate[m]){ if(x<0) x=d; else y=d; } } int X=D.mate[x],Y=D.mate[y]; if(X==y) return 0; jn(D,X,Y); Dia E=mk(D.n-1); auto mv=[&](int d){ int c=d/4; return 4*(c-(c>m/4))+d%4; }; for(int d=0;d<4*D.n;d++) if(d/4!=m/4) E.mate[mv(d)]=mv(D.mate[d]); D=E; } }
static pd_code_t*chk(pd_code_t*pd,int n,int nc,const char*w){ MC_CHECK(pd,"%s is NULL",w); mc_state(pd_dump(pd)); mc_trans(); mc_eval(); CHECK_VALID(pd,"%s",w); MC_CHECK((int)pd->ncross==n,"%s has %u crossings, not %d",w,pd->ncross,n); MC_CHECK((int)pd->ncomps==nc,"%s has %u components, not %d",w,pd->ncomps,nc); for(int c=0;c<n;c++) MC_CHECK(pd->cross[c].sign==PD_POS_ORIENTATION||pd->cross[c].sign==PD_NEG_ORIENTATION,"%s crossing %d has no sign",w,c); pd_code_t*cp=pd_copy(pd); pd_regenerate_hash(cp); MC_CHECK(!strcmp(cp->hash,pd->hash),"%s has a stale hash",w); pd_code_free(&cp); return pd; }
static void allpos(pd_code_t*pd,const char*w){ for(unsigned c=0;c<pd->ncross;c++) MC_CHECK(pd->cross[c].sign==PD_POS_ORIENTATION,"%s crossing %u is not positive",w,c); }
void mc_main(){
  int N=mc_thorough?240:100;
  for(int q=2;q<=N;q++) mc_case(mc_fmt("torus 2 %d",q),[=]{ std::string w=mc_fmt("torus link (2,%d)",q); pd_code_t*pd=chk(pd_build_torus_knot(2,q),q,q%2?1:2,w.c_str()); allpos(pd,w.c_str()); Dia D=from_pd(pd); MC_CHECK(dia_canon(D,CF_REFLECT|CF_ORIENT)==dia_canon(m_torus(q),CF_REFLECT|CF_ORIENT)||[&]{ Dia E=m_torus(q); for(int k=0;k<E.ncomp;k++) dia_reverse(E,k); return dia_canon(D,CF_REFLECT|CF_ORIENT)==dia_canon(E,CF_REFLECT|CF_ORIENT); }(),"%s is not the closed two-strand braid: %s",w.c_str(),pd_str(pd).c_str()); mc_outcome("torus"); mc_trace(); pd_code_free(&pd); });
  for(int n=1;n<=N;n++) mc_case(mc_fmt("twist %d",n),[=]{ std::string w=mc_fmt("twist knot %d",n); pd_code_t*pd=chk(pd_build_twist_knot(n),n+2,1,w.c_str()); Dia D=from_pd(pd); MC_CHECK(dia_canon(D,CF_REFLECT)==dia_canon(m_twist(n),CF_REFLECT),"%s does not have the twist knot's shadow: %s",w.c_str(),pd_str(pd).c_str()); MC_CHECK(alternating(D),"%s is not alternating: %s",w.c_str(),pd_str(pd).c_str()); int np=0; for(unsigned c=0;c<pd->ncross;c++) np+=pd->cross[c].sign==PD_POS_ORIENTATION; MC_CHECK(np==(n%2?n+2:2),"%s has %d positive crossings",w.c_str(),np); mc_outcome("twist"); mc_trace(); pd_code_free(&pd); });
  for(int k=2;k<=std::min(N,52);k++) mc_case(mc_fmt("chain %d",k),[=]{ std::string w=mc_fmt("chain of %d links",k); pd_code_t*pd=chk(pd_build_simple_chain(k),2*k-2,k,w.c_str()); allpos(pd,w.c_str()); Dia D=from_pd(pd); MC_CHECK(dia_canon(D,CF_REFLECT)==dia_canon(m_chain(k),CF_REFLECT),"%s has the wrong shadow: %s",w.c_str(),pd_str(pd).c_str()); VI deg(k,0); int tot=0; for(int i=0;i<k;i++) for(int j=0;j<i;j++){ int l=pd_linking_number(pd,i,j); MC_CHECK(l==0||l==1,"%s components %d and %d have linking number %d",w.c_str(),i,j,l); deg[i]+=l; deg[j]+=l; tot+=l; } MC_CHECK(tot==k-1,"%s has total linking %d",w.c_str(),tot); for(int i=0;i<k;i++) MC_CHECK(deg[i]<=2,"%s component %d links %d others",w.c_str(),i,deg[i]); mc_outcome("chain"); mc_trace(); pd_code_free(&pd); });
  mc_case("chain 1",[=]{ pd_code_t*pd=chk(pd_build_simple_chain(1),0,1,"chain of one link"); mc_trace(); pd_code_free(&pd); });
  for(int n=0;n<=N;n++) mc_case(mc_fmt("unknot %d",n),[=]{ std::string w=mc_fmt("unknot with %d crossings",n); pd_code_t*pd=chk(pd_build_unknot(n),n,1,w.c_str()); allpos(pd,w.c_str()); if(n){ Dia D=from_pd(pd); MC_CHECK(r1reduce(D)==0,"%s is not undone by removing loops: %s",w.c_str(),pd_str(pd).c_str()); int mono=0; for(unsigned f=0;f<pd->nfaces;f++) mono+=pd->face[f].nedges==1; MC_CHECK(mono==2,"%s has %d loops",w.c_str(),mono); } mc_outcome("unknot"); mc_trace(); pd_code_free(&pd); });
  int W=mc_thorough?14:9; for(int s=0;s<=W;s++) mc_case(mc_fmt("wyes with %d twists",s),[=]{ std::vector<pd_code_t*> P; std::vector<std::vector<int>> id; for(int a=0;a<=s;a++) for(int b=0;a+b<=s;b++){ int c=s-a-b; std::string w=mc_fmt("wye %d %d %d",a,b,c); pd_code_t*pd=chk(pd_build_unknot_wye(a,b,c),s+3,1,w.c_str()); allpos(pd,w.c_str()); MC_CHECK(r1reduce(from_pd(pd))==0,"%s is not an unknot: %s",w.c_str(),pd_str(pd).c_str()); int mono=0; for(unsigned f=0;f<pd->nfaces;f++) mono+=pd->face[f].nedges==1; MC_CHECK(mono==3,"%s has %d loops",w.c_str(),mono); if(!P.empty()) for(unsigned f=0;f<pd->nfaces;f++) MC_CHECK(P[0]->face[f].nedges==pd->face[f].nedges,"%s has different faces",w.c_str()); P.push_back(pd); std::vector<int> k{a,b,c}; std::sort(k.begin(),k.end()); id.push_back(k); }
    for(size_t i=0;i<P.size();i++) for(size_t j=0;j<=i;j++){ mc_note("wye isomorphism %zu %zu",i,j); bool g=pd_isomorphic(P[i],P[j]); mc_trans(); mc_eval(); MC_CHECK(g==(id[i]==id[j]),"wyes %s and %s are%s isomorphic",pd_str(P[i]).c_str(),pd_str(P[j]).c_str(),g?"":" not"); mc_outcome(g?"isomorphic":"not isomorphic"); }
    for(auto p:P) pd_code_free(&p); mc_trace(); });
}
