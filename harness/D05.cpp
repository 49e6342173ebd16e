// D05: the packed form of a diagram unpacks to the same diagram; the bit-level codecs are exact inverses.
#include "pdmodel.hpp"
extern "C" {
#include "pd_pack.h"
}
static std::string dump_notags(const pd_code_t*pd){ pd_code_t*c=pd_copy((pd_code_t*)pd); for(unsigned i=0;i<c->ncomps;i++) c->comp[i].tag='A'+i; c->uid=PD_UNSET_UID; std::string s=pd_dump(c); pd_code_free(&c); return s; }
static void roundtrip(pd_code_t*pd){
  std::string before=pd_dump(pd); mc_note("pack %s",pd_str(pd).c_str()); mc_state(pd_dump(pd,false)); unsigned len=0; unsigned*b=pd_pack(pd,&len); mc_trans(); MC_CHECK(b,"pack returned NULL"); MC_CHECK(pd_dump(pd)==before,"packing modified the diagram");
  bool sg=pd->ncross&&pd->cross[0].sign!=PD_UNSET_ORIENTATION; MC_CHECK(std::abs((int)b[0])==(int)pd->ncross&&(pd->ncross==0||((int)b[0]<0)==sg),"first word of the packed form is %d for %u %s crossings",(int)b[0],pd->ncross,sg?"signed":"unsigned");
  unsigned nb=pd->ncross?pd_packbits(pd->ncross,sg?SIGNED_CROSSINGS:UNSIGNED_CROSSINGS):0; int ib=0; while((1u<<ib)<2*pd->ncross) ib++; MC_CHECK(pd->ncross==0||nb==pd->ncross*(4+4*ib+(sg?1:0)),"packbits is %u",nb); MC_CHECK(len>=1+(nb+31)/32,"packed length %u cannot hold %u bits",len,nb);
  // the packed form lives in exactly len words
  std::vector<unsigned> copy(b,b+len); free(b); unsigned*h=(unsigned*)malloc(len*sizeof(unsigned)); memcpy(h,copy.data(),len*sizeof(unsigned));
  pd_code_t*u=pd_unpack(h); mc_trans(); CHECK_VALID(u,"unpack"); MC_CHECK(!memcmp(h,copy.data(),len*sizeof(unsigned)),"unpacking modified the packed form");
  MC_CHECK(dump_notags(u)==dump_notags(pd),"%s unpacks as %s",pd_str(pd).c_str(),pd_str(u).c_str()); for(unsigned i=0;i<u->ncomps;i++) MC_CHECK(u->comp[i].tag==(char)('A'+i),"unpacked component %u has tag %d",i,u->comp[i].tag);
  unsigned l2=0; unsigned*b2=pd_pack(u,&l2); mc_trans(); MC_CHECK(l2==len&&!memcmp(b2,copy.data(),len*sizeof(unsigned)),"packing the unpacked diagram gives different bits"); free(b2); free(h); pd_code_free(&u); mc_eval(); mc_outcome(mc_fmt("n%u c%u %s len%u",pd->ncross,pd->ncomps,sg?"signed":"unsigned",len)); }
void mc_main(){
  int N=mc_thorough?5:4;
  for(int n=0;n<=N;n++) for(auto&D0:gen_diagrams(n,SG_UNSET|SG_SIGNED)) mc_case_lazy([&]{ return "pack "+dia_str(D0); },[&]{ Dia D=D0; for(int i=0;i<D.ncomp;i++) D.tag[i]="QBzKD"[i%5]+(i/5); int s=0; auto f=[&](const Lab&L){ pd_code_t*pd=to_pd(D,L,s++%3,s); roundtrip(pd); pd_code_free(&pd); }; if(n<=(mc_thorough?4:3)) all_labs(D,f); else f(default_lab(D)); mc_trace(); mc_sample("pack/unpack "+dia_str(D)); });
  for(int n=N+1;n<=N+2;n++) for(auto&M:gen_maps(n)) mc_case_lazy([&]{ return "pack map "+dia_str(M); },[&]{ Dia D=M; for(int v=0;v<3;v++){ for(int i=0;i<n;i++) D.sign[i]=v==0?2:((i*v+1)/2)%2; pd_code_t*pd=to_pd(D); roundtrip(pd); pd_code_free(&pd); } mc_trace(); });
  // every index width: long diagrams around all powers of two
  int big=mc_thorough?300:140;
  for(int n=1;n<=big;n++) mc_case_lazy([&]{ return mc_fmt("pack diagrams with %d crossings",n); },[&]{ pd_code_t*v[3]={pd_build_unknot(n),n>=2?pd_build_torus_knot(2,n):NULL,n>=2?pd_build_simple_chain(std::min(63,std::max(2,n/2))):NULL}; for(auto pd:v) if(pd){ for(int k=0;k<4;k++){ for(unsigned i=0;i<pd->ncross;i++) pd->cross[i].sign=k==0?2:k==1?1:k==2?0:(i%3==0); roundtrip(pd); } pd_code_free(&pd); } mc_trace(); });
  // bit codecs
  int B=mc_thorough?20:15; for(int n=1;n<=B;n++) mc_case_lazy([&]{ return mc_fmt("all bit strings of length %d",n); },[&]{ std::vector<unsigned> v(n); for(unsigned k=0;k<(1u<<n);k++){ for(int i=0;i<n;i++) v[i]=(k>>i)&1; unsigned pl=0; unsigned*p=pd_packbitstring(v.data(),n,&pl); MC_CHECK(pl==(unsigned)(n+31)/32,"packed into %u words",pl); MC_CHECK(p[0]==k,"bit string %x packed as %x",k,p[0]); unsigned*q=pd_unpackbitstring(p,n); for(int i=0;i<n;i++) MC_CHECK(q[i]==v[i],"bit %d of %x lost",i,k); free(p); free(q); mc_trans(2); mc_eval(); } });
  for(int n=16;n<=200;n++) mc_case_lazy([&]{ return mc_fmt("walking bits in strings of length %d",n); },[&]{ std::vector<unsigned> v(n); for(int k=0;k<n;k++) for(int inv=0;inv<2;inv++){ for(int i=0;i<n;i++) v[i]=(i==k)^inv; unsigned pl=0; unsigned*p=pd_packbitstring(v.data(),n,&pl); MC_CHECK(pl==(unsigned)(n+31)/32,"packed into %u words",pl); unsigned*q=pd_unpackbitstring(p,n); for(int i=0;i<n;i++) MC_CHECK(q[i]==v[i]&&((p[i/32]>>(i%32))&1)==v[i],"bit %d lost",i); free(p); free(q); mc_trans(2); mc_eval(); } });
  for(int n=1;n<=(mc_thorough?3000:600);n++) mc_case_lazy([&]{ return mc_fmt("all edge indices with %d crossings",n); },[&]{ int ib=0; while((1<<ib)<2*n) ib++; MC_CHECK((int)pd_indexbits(n)==ib,"indexbits(%d)=%u",n,pd_indexbits(n)); for(int i=0;i<2*n;i++){ unsigned*b=pd_idx_bitencode(i,n); MC_CHECK((int)pd_idx_bitdecode(b,n)==i,"index %d of %d decodes as %u",i,n,pd_idx_bitdecode(b,n)); free(b); mc_trans(2); mc_eval(); } });
}
