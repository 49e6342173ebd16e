// D21: the iterators visit every element exactly once, and the permutation operations are the group operations.
#include "mc.h"
#include <vector>
#include <set>
#include <algorithm>
#include <numeric>
#define new new_
extern "C" {
#include "plcTopology.h"
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_dihedral.h"
#include "pd_cyclic.h"
#include "pd_orientation.h"
}
#undef new
typedef std::vector<int> VI;
static VI mp(const pd_idx_t*m,int n){ return VI(m,m+n); }
static std::string vs(const VI&v){ std::string s="("; for(int x:v) s+=mc_fmt("%d ",x); return s+")"; }
struct Val{ VI v; int o; bool operator<(const Val&b)const{ return o!=b.o? o>b.o : v<b.v; } bool operator==(const Val&b)const{ return o==b.o&&v==b.v; } }; // positive orientation sorts first
enum Kind{ PERM,DIH,CYC,ORI };
static const char*kn[]={"permutation","dihedral","cyclic","orientation"};
static pd_iterops_t ops(Kind k){ return k==PERM?perm_ops:k==DIH?dihedral_ops:k==CYC?cyclic_ops:orientation_ops; }
static Val val(Kind k,void*p){ if(k==PERM){ auto q=(pd_perm_t*)p; return {mp(q->map,q->n),1}; } if(k==DIH){ auto q=(pd_dihedral_t*)p; return {mp(q->map,q->n),q->orient==PD_POS_ORIENTATION?1:q->orient==PD_NEG_ORIENTATION?0:-1}; } if(k==CYC){ auto q=(pd_cyclic_t*)p; return {mp(q->map,q->n),1}; } auto q=(pd_orientation_t*)p; return {VI(),q->orient==PD_POS_ORIENTATION?1:q->orient==PD_NEG_ORIENTATION?0:-1}; }
static std::vector<Val> elements(Kind k,int n){ std::vector<Val> r; VI id(n); std::iota(id.begin(),id.end(),0); if(k==PERM){ do r.push_back({id,1}); while(std::next_permutation(id.begin(),id.end())); } else if(k==ORI){ r={{VI(),1},{VI(),0}}; } else for(int o=1;o>=(k==DIH?0:1);o--) for(int s=0;s<n;s++){ VI v(n); for(int i=0;i<n;i++) v[i]=o?(i+s)%n:(s-i+n)%n; r.push_back({v,o}); } std::sort(r.begin(),r.end()); return r; }
static int sgn(int x){ return (x>0)-(x<0); }
static void cycle(Kind k,int n,bool allcmp){ pd_iterops_t O=ops(k); pd_idx_t N=n; void*p=O.new_(&N); std::vector<Val> E=elements(k,n); MC_CHECK(O.nvals(p)==E.size(),"%s group on %d elements has %u values, expected %zu",kn[k],n,O.nvals(p),E.size());
  Val id=val(k,p); { VI e(k==ORI?0:n); std::iota(e.begin(),e.end(),0); MC_CHECK(id.v==e&&id.o==1,"new %s is not the identity",kn[k]); }
  std::vector<void*> all; std::vector<Val> seen; for(size_t t=0;t<E.size();t++){ Val v=val(k,p); mc_note("%s n %d step %zu %s",kn[k],n,t,vs(v.v).c_str()); seen.push_back(v); mc_state(mc_fmt("%d %d %d ",k,n,v.o)+vs(v.v)); MC_CHECK(O.ok(p),"%s %s is not ok",kn[k],vs(v.v).c_str()); void*c=O.copy(p); MC_CHECK(val(k,c)==v&&O.ok(c),"copy of %s %s differs",kn[k],vs(v.v).c_str()); MC_CHECK(O.cmp(&c,&p)==0,"copy of a %s does not compare equal",kn[k]); if(E.size()<=5100) all.push_back(c); else O.free(&c); char*s=O.print(p); MC_CHECK(s&&*s&&strlen(s)<256,"no printed form"); free(s); if(k==PERM&&t) MC_CHECK(seen[t-1]<v,"permutations are not in increasing order at %s",vs(v.v).c_str()); O.incr(p); mc_trans(); }
  MC_CHECK(val(k,p)==id,"%s on %d elements does not return to the start",kn[k],n); std::vector<Val> S=seen; std::sort(S.begin(),S.end()); MC_CHECK(S==E,"%s iteration on %d elements does not visit every element once",kn[k],n);
  if(allcmp) for(size_t i=0;i<all.size();i++) for(size_t j=0;j<all.size();j++){ int want=seen[i]<seen[j]?-1:seen[j]<seen[i]?1:0; MC_CHECK(sgn(O.cmp(&all[i],&all[j]))==want,"%s compare %s %s",kn[k],vs(seen[i].v).c_str(),vs(seen[j].v).c_str()); mc_eval(); }
  if(!all.empty()){ auto uniq=[&](std::vector<void*> b){ b.reserve(b.size()+1); return k==PERM?pd_perms_unique(b.size(),(pd_perm_t**)b.data()):k==DIH?pd_dihedrals_unique(b.size(),(pd_dihedral_t**)b.data()):k==CYC?pd_cyclics_unique(b.size(),(pd_cyclic_t**)b.data()):pd_orientations_unique(b.size(),(pd_orientation_t**)b.data()); }; MC_CHECK(uniq(all),"distinct %ss are reported to repeat",kn[k]); if(all.size()<=24) for(size_t i=0;i<all.size();i++) for(size_t at=0;at<=all.size();at++){ void*d=O.copy(all[i]); auto b=all; b.insert(b.begin()+at,d); MC_CHECK(!uniq(b),"a repeated %s is not noticed",kn[k]); mc_eval(); O.free(&d); } MC_CHECK(uniq({}),"empty list"); }
  // continue from a copy: iteration state is carried by the copy
  for(size_t i=0;i<all.size()&&all.size()<=720;i+=all.size()>60?7:1){ void*c=O.copy(all[i]); O.incr(c); MC_CHECK(val(k,c)==seen[(i+1)%seen.size()],"incrementing a copy of %s %s",kn[k],vs(seen[i].v).c_str()); O.free(&c); MC_CHECK(c==NULL,"free does not clear the pointer"); }
  for(auto c:all) O.free(&c); O.free(&p); mc_outcome(kn[k]); mc_trace(); }
static void group(int n){ std::vector<Val> E=elements(PERM,n); pd_idx_t N=n; std::vector<pd_perm_t*> P; pd_perm_t*p=(pd_perm_t*)pd_new_perm(&N); for(size_t i=0;i<E.size();i++){ P.push_back((pd_perm_t*)pd_copy_perm(p)); pd_increment_perm(p); } void*v=p; pd_free_perm(&v);
  for(size_t i=0;i<P.size();i++){ pd_perm_t*I=pd_inverse_perm(P[i]); MC_CHECK(pd_perm_ok(I),"inverse not ok"); for(int x=0;x<n;x++) MC_CHECK((int)I->map[P[i]->map[x]]==x,"inverse of %s",vs(E[i].v).c_str()); int per=1; VI w=E[i].v; auto isid=[&](const VI&u){ for(int x=0;x<n;x++) if(u[x]!=x) return false; return true; }; while(!isid(w)){ VI u(n); for(int x=0;x<n;x++) u[x]=E[i].v[w[x]]; w=u; per++; } MC_CHECK(pd_perm_is_e(P[i])==(i==0),"identity test of %s",vs(E[i].v).c_str()); MC_CHECK((int)pd_perm_period(P[i])==per,"period of %s is %u, expected %d",vs(E[i].v).c_str(),pd_perm_period(P[i]),per); void*q=I; pd_free_perm(&q); mc_eval(); mc_trans();
    for(size_t j=0;j<P.size();j++){ pd_perm_t*C=pd_compose_perms(P[i],P[j]); pd_perm_t*D=(pd_perm_t*)pd_copy_perm(P[i]); pd_stareq_perm(D,P[j]); MC_CHECK(pd_perm_ok(C)&&pd_perm_ok(D),"product %s * %s is not ok",vs(E[i].v).c_str(),vs(E[j].v).c_str()); for(int x=0;x<n;x++) MC_CHECK(C->map[x]==P[i]->map[P[j]->map[x]]&&D->map[x]==C->map[x],"product %s * %s",vs(E[i].v).c_str(),vs(E[j].v).c_str()); MC_CHECK(pd_perms_eq(C,D)&&(pd_perms_eq(C,P[i])==(j==0)),"equality"); size_t at=std::lower_bound(E.begin(),E.end(),Val{mp(C->map,n),1})-E.begin(); pd_increment_perm(C); MC_CHECK(mp(C->map,n)==E[(at+1)%E.size()].v,"incrementing the product %s * %s",vs(E[i].v).c_str(),vs(E[j].v).c_str()); mc_trans(); mc_eval(); void*q=C; pd_free_perm(&q); q=D; pd_free_perm(&q); } }
  for(auto x:P){ void*q=x; pd_free_perm(&q); } mc_outcome("group law"); mc_trace(); }
static void oks(int n){ // ok accepts exactly the group elements: every map into 0..n
  long T=1; for(int i=0;i<n;i++) T*=n+1; auto Ed=elements(DIH,n),Ec=elements(CYC,n),Ep=elements(PERM,n); pd_idx_t N=n;
  for(long q=0;q<T;q++){ VI v(n); long z=q; for(int i=0;i<n;i++){ v[i]=z%(n+1); z/=n+1; } mc_note("ok %s",vs(v).c_str()); auto in=[&](const std::vector<Val>&E,int o){ return std::binary_search(E.begin(),E.end(),Val{v,o}); };
    pd_cyclic_t*c=(pd_cyclic_t*)pd_new_cyclic(&N); for(int i=0;i<n;i++) c->map[i]=v[i]; MC_CHECK(pd_cyclic_ok(c)==in(Ec,1),"pd_cyclic_ok %s",vs(v).c_str()); char*s=pd_print_cyclic(c); free(s); void*x=c; pd_free_cyclic(&x);
    for(int o:{(int)PD_POS_ORIENTATION,(int)PD_NEG_ORIENTATION,(int)PD_UNSET_ORIENTATION}){ pd_dihedral_t*d=(pd_dihedral_t*)pd_new_dihedral(&N); for(int i=0;i<n;i++) d->map[i]=v[i]; d->orient=o; bool w=o==PD_UNSET_ORIENTATION?false:in(Ed,o==PD_POS_ORIENTATION); MC_CHECK(pd_dihedral_ok(d)==w,"pd_dihedral_ok %s orientation %d",vs(v).c_str(),o); if(o!=PD_UNSET_ORIENTATION){ s=pd_print_dihedral(d); free(s); } x=d; pd_free_dihedral(&x); mc_trans(); }
    bool w=in(Ep,1); int fact=n>6?0:(int)Ep.size(); for(int pc=0;pc<=(fact?fact+1:0);pc+=(fact>130?37:1)){ pd_perm_t*p=(pd_perm_t*)pd_new_perm(&N); for(int i=0;i<n;i++) p->map[i]=v[i]; p->pc_idx=pc; bool ww=w&&(!fact||(pc<fact&&Ep[pc].v==v)); MC_CHECK(pd_perm_ok(p)==ww,"pd_perm_ok %s with index %d",vs(v).c_str(),pc); if(w&&fact&&pc==0){ pd_regenerate_pcidx(p); MC_CHECK(pd_perm_ok(p),"index of %s",vs(v).c_str()); } x=p; pd_free_perm(&x); mc_trans(); } mc_eval(); }
  mc_outcome("ok"); mc_trace(); }
static void multi(Kind k,const VI&sz){ pd_iterops_t O=ops(k); std::vector<pd_idx_t> n(sz.begin(),sz.end()); std::vector<void*> init; for(auto&x:n) init.push_back(&x); pd_multidx_t*m=pd_new_multidx(n.size(),k==ORI?NULL:init.data(),O); std::vector<std::vector<Val>> seqs; size_t T=1; for(int s:sz){ pd_idx_t S=s; void*p=O.new_(&S); std::vector<Val> q; for(unsigned i=0;i<O.nvals(p);i++){ q.push_back(val(k,p)); O.incr(p); } O.free(&p); T*=q.size(); seqs.push_back(q); }
  std::string nm=mc_fmt("%s multi-index ",kn[k])+vs(sz); MC_CHECK(pd_multidx_nvals(m)==T,"%s has %u values, expected %zu",nm.c_str(),pd_multidx_nvals(m),T); std::vector<pd_multidx_t*> cp; std::vector<size_t> dig(sz.size(),0);
  for(size_t t=0;t<T;t++){ mc_note("%s step %zu",nm.c_str(),t); size_t z=t; for(int j=(int)sz.size()-1;j>=0;j--){ dig[j]=z%seqs[j].size(); z/=seqs[j].size(); } for(size_t j=0;j<sz.size();j++) MC_CHECK(val(k,m->obj[j])==seqs[j][dig[j]]&&m->i[j]==dig[j],"%s at step %zu: object %zu is in the wrong state",nm.c_str(),t,j); MC_CHECK(pd_multidx_ok(m),"%s not ok at step %zu",nm.c_str(),t); pd_multidx_t*c=pd_copy_multidx(m); MC_CHECK(pd_multidx_ok(c)&&pd_multidx_cmp(&c,&m)==0,"copy of %s",nm.c_str()); if(T<=200) cp.push_back(c); else { pd_increment_multidx(c); if(t+1<T){ size_t y=t+1; for(int j=(int)sz.size()-1;j>=0;j--){ MC_CHECK(val(k,c->obj[j])==seqs[j][y%seqs[j].size()],"incremented copy of %s",nm.c_str()); y/=seqs[j].size(); } } pd_free_multidx(&c); } pd_increment_multidx(m); mc_trans(); mc_eval(); }
  for(size_t j=0;j<sz.size();j++) MC_CHECK(val(k,m->obj[j])==seqs[j][0]&&m->i[j]==0,"%s does not return to the start",nm.c_str());
  if(!cp.empty()){ MC_CHECK(pd_multidxs_unique(cp.size(),cp.data()),"%s values are reported to repeat",nm.c_str()); if(cp.size()<=40) for(size_t i=0;i<cp.size();i++){ pd_multidx_t*d=pd_copy_multidx(cp[i]); auto b=cp; b.push_back(d); MC_CHECK(!pd_multidxs_unique(b.size(),b.data()),"a repeated %s is not noticed",nm.c_str()); pd_free_multidx(&d); } for(size_t i=0;i<cp.size();i++) for(size_t j=0;j<cp.size();j++) MC_CHECK((pd_multidx_cmp(&cp[i],&cp[j])==0)==(i==j)&&sgn(pd_multidx_cmp(&cp[i],&cp[j]))==-sgn(pd_multidx_cmp(&cp[j],&cp[i])),"comparison of %s",nm.c_str()); }
  for(auto c:cp) pd_free_multidx(&c); pd_free_multidx(&m); MC_CHECK(m==NULL,"free does not clear the pointer"); mc_outcome(mc_fmt("%s multi-index",kn[k])); mc_trace(); }
void mc_main(){
  int NP=mc_thorough?9:8; for(int n=1;n<=NP;n++) mc_case(mc_fmt("permutations of %d",n),[=]{ cycle(PERM,n,n<=5); });
  int ND=mc_thorough?120:60; for(int n=1;n<=ND;n++){ mc_case(mc_fmt("dihedral %d",n),[=]{ cycle(DIH,n,true); }); mc_case(mc_fmt("cyclic %d",n),[=]{ cycle(CYC,n,true); }); }
  mc_case("orientation",[]{ cycle(ORI,1,true); });
  for(int n=1;n<=(mc_thorough?6:5);n++) mc_case(mc_fmt("group law %d",n),[=]{ group(n); });
  // comparisons and the validity test look at every position
  mc_case("permutations of different sizes are never equal",[]{ for(int n=1;n<=8;n++) for(int m=1;m<=8;m++){ pd_idx_t a=n,b=m; pd_perm_t*P=(pd_perm_t*)pd_new_perm(&a),*Q=(pd_perm_t*)pd_new_perm(&b); mc_trans(2); mc_eval(2); MC_CHECK(pd_perms_eq(P,Q)==(n==m)&&pd_perms_eq(Q,P)==(n==m),"the identities on %d and %d points compare %s",n,m,n==m?"different":"equal"); pd_free_perm((void**)&P); pd_free_perm((void**)&Q); } mc_trace(); });
  mc_case("long permutations differing in one place",[]{ for(int n:{7,12,20,21,22,31,64,100}) for(int i=0;i<n;i++) for(int j=i+1;j<n;j+=(n>31&&j>i+3&&j<n-6?5:1)){ pd_idx_t N=n; pd_perm_t*p=(pd_perm_t*)pd_new_perm(&N),*q=(pd_perm_t*)pd_new_perm(&N); mc_note("transposition %d %d of %d",i,j,n); MC_CHECK(pd_perms_eq(p,q)&&pd_perm_is_e(q),"two identity permutations of %d",n); std::swap(q->map[i],q->map[j]); pd_regenerate_pcidx(q); MC_CHECK(pd_perm_ok(q),"a transposition is refused"); MC_CHECK(!pd_perms_eq(p,q)&&!pd_perms_eq(q,p)&&!pd_perm_is_e(q),"the transposition (%d %d) of %d is taken for the identity",i,j,n); int a=pd_perm_cmp(&p,&q),b=pd_perm_cmp(&q,&p); MC_CHECK(a<0&&b>0,"order of the identity and (%d %d) of %d: %d %d",i,j,n,a,b); MC_CHECK(pd_perm_period(q)==2,"period of a transposition"); q->map[i]=q->map[j]; MC_CHECK(!pd_perm_ok(q),"a repeated value is accepted"); q->map[i]=n; MC_CHECK(!pd_perm_ok(q),"a value out of range is accepted"); void*v=p; pd_free_perm(&v); v=q; pd_free_perm(&v); mc_trans(6); mc_eval(); } mc_trace(); });
  mc_case("long permutations",[]{ for(int n=7;n<=400;n++){ pd_idx_t N=n; pd_perm_t*p=(pd_perm_t*)pd_new_perm(&N); for(int s=0;s<4;s++){ mc_note("long permutation %d %d",n,s); MC_CHECK(pd_perm_ok(p),"permutation of %d",n); char*t=pd_print_perm(p); MC_CHECK(t&&strlen(t)<256,"printed form"); free(t); VI w=mp(p->map,n); pd_perm_t*I=pd_inverse_perm(p),*C=pd_compose_perms(p,I); MC_CHECK(pd_perm_is_e(C),"inverse of a permutation of %d",n); void*v=I; pd_free_perm(&v); v=C; pd_free_perm(&v); std::next_permutation(w.begin(),w.end()); pd_increment_perm(p); MC_CHECK(mp(p->map,n)==w,"successor of a permutation of %d",n); mc_trans(); mc_eval(); } for(int i=0;i<n;i++) p->map[i]=n-1-i; MC_CHECK(pd_perm_ok(p),"reversal"); pd_increment_perm(p); MC_CHECK(pd_perm_is_e(p),"last permutation of %d does not return to the identity",n); void*v=p; pd_free_perm(&v); } mc_trace(); });
  for(int n=1;n<=(mc_thorough?6:5);n++) mc_case(mc_fmt("ok %d",n),[=]{ oks(n); });
  mc_case("precomputed data",[]{ MC_CHECK(pd_perm_pcdata_ok(false),"precomputed permutations"); mc_trace(); });
  int M=mc_thorough?5:4; for(Kind k:{PERM,DIH,CYC}){ std::function<void(VI)> rec=[&](VI v){ mc_case(mc_fmt("multi %d ",k)+vs(v),[=]{ multi(k,v); }); if(v.size()<4) for(int s=1;s<=M-(v.size()>2);s++){ VI w=v; w.push_back(s); rec(w); } }; rec({}); }
  for(int n=0;n<=(mc_thorough?14:11);n++) mc_case(mc_fmt("orientations %d",n),[=]{ multi(ORI,VI(n,1)); });
}
