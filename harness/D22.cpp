// D22: containers and sorted index buffers behave as a stack and a set under every history.
#include "mc.h"
#include <vector>
#include <set>
#include <algorithm>
extern "C" {
#include "ordie.h"
#include "pd_container.h"
#include "plcTopology.h"
#include "pd_sortedbuf.h"
int pd_idx_cmp(const void*,const void*);
}
static long nfreed; static std::vector<long> freedval;
static void efree(void**p){ nfreed++; freedval.push_back(*(long*)*p); free(*p); *p=NULL; }
struct M{ std::vector<long> v; pd_container_t*c; long next=1;
  void ck(bool full){ MC_CHECK(pd_container_ok(c),"container with %zu elements is not ok",v.size()); MC_CHECK(pd_container_nelts(c)==v.size(),"%u elements, expected %zu",pd_container_nelts(c),v.size()); size_t n=v.size(); for(size_t i=0;i<n;i+=(full||i+3>=n||i<2)?1:7){ long*p=(long*)pd_container_elt(c,i); MC_CHECK(v[i]==0?p==NULL:p&&*p==v[i],"element %zu of %zu",i,n); } mc_eval(); }
  void add(bool null){ long*p=NULL; if(!null){ p=(long*)malloc(sizeof(long)); *p=next; v.push_back(next++); } else v.push_back(0); pd_addto_container(c,p); mc_trans(); }
  void pop(){ long*p=(long*)pd_pop_container(c); long w=v.back(); v.pop_back(); MC_CHECK(w==0?p==NULL:p&&*p==w,"popped the wrong element at size %zu",v.size()+1); free(p); mc_trans(); }
  void done(int how){ nfreed=0; freedval.clear(); std::vector<long> w; for(long x:v) if(x) w.push_back(x); pd_free_container(&c,how?efree:NULL); MC_CHECK(c==NULL,"free does not clear the pointer"); if(how){ std::sort(freedval.begin(),freedval.end()); std::sort(w.begin(),w.end()); MC_CHECK(freedval==w,"free called on %ld elements, container held %zu",nfreed,w.size()); } pd_free_container(&c,how?efree:NULL); MC_CHECK(c==NULL,"second free"); mc_trace(); } };
static void hist(unsigned init,const std::vector<int>&targets){ M m; m.c=pd_new_container(init); int k=0; for(int t:targets){ while((int)m.v.size()<t){ m.add((m.v.size()*7+k)%5==3); if((m.v.size()%50)<2) m.ck(false); } while((int)m.v.size()>t) m.pop(); m.ck(true); mc_state(mc_fmt("%u %zu %d",init,m.v.size(),k)); k++; } m.done(targets[0]&1); }
static void words(int L){ for(int w=0;w<(1<<(2*L));w++){ M m; m.c=pd_new_container(0); bool bad=false; for(int i=0;i<L;i++){ int o=(w>>(2*i))&3; if(o<=1) m.add(o); else if(o==2){ if(m.v.empty()){ bad=true; break; } m.pop(); } m.ck(true); mc_state(mc_fmt("w%zu",m.v.size())); } (void)bad; m.done(w&1); } }
static void sorted(const std::vector<pd_idx_t>&A,int L){ long T=1; for(int i=0;i<L;i++) T*=A.size(); for(long q=0;q<T;q++){ pd_idx_t*b=NULL,n=0; std::set<pd_idx_t> S; long z=q; for(int i=0;i<L;i++){ pd_idx_t x=A[z%A.size()]; z/=A.size(); b=pd_sortedbuf_insert(b,&n,x); S.insert(x); MC_CHECK(n==S.size(),"%u entries after inserting %u, expected %zu",n,x,S.size()); MC_CHECK(std::equal(S.begin(),S.end(),b),"buffer is not the sorted set after inserting %u",x); mc_trans(); if(i+1<L&&i+2<L) continue; for(pd_idx_t y:A) for(pd_idx_t d:{0u,1u}){ pd_idx_t w=y+d,at=77; bool in=S.count(w); MC_CHECK(pd_sortedbuf_contains(b,n,w)==in,"search for %u",w); MC_CHECK(pd_buf_contains(b,n,w,&at)==in,"linear search for %u",w); MC_CHECK(in?at<n&&b[at]==w:at==PD_UNSET_IDX,"position of %u",w); mc_eval(); } } if(S.size()<=8){ std::string s; for(auto x:S) s+=mc_fmt("%u ",x); mc_state(s); } free(b); mc_trace(); } mc_outcome("sorted buffer"); }
void mc_main(){
  std::vector<int> W={0,1,97,98,99,100,101,102,197,198,199,200,201,202,299,300,301}; for(unsigned init:{0u,1u,99u,100u,101u,150u,199u,200u,201u}){ std::vector<int> X=W; for(int d=-2;d<=2;d++){ X.push_back(std::max(0,(int)init+d)); X.push_back(2*init+std::max(d,-(int)init)); } std::sort(X.begin(),X.end()); X.erase(std::unique(X.begin(),X.end()),X.end()); if(!mc_thorough) for(size_t i=0;i<X.size();) if(X[i]>215&&init<150) X.erase(X.begin()+i); else i++;
    for(int a:X) mc_case(mc_fmt("container %u %d",init,a),[=]{ for(int b:X) for(int c:X) hist(init,{a,b,c}); mc_outcome("container"); }); }
  mc_case("container words",[]{ words(mc_thorough?8:6); });
  mc_case("every size",[]{ for(int n=0;n<1050;n++){ M m; m.c=pd_new_container(n); for(int i=0;i<n+2;i++) m.add(i%3==0); m.ck(true); m.done(n&1); } M m; m.c=pd_new_container(100); for(int i=0;i<40000;i++){ m.add(i%2); if(i%997<2) m.ck(true); } m.ck(true); m.done(1); });
  for(int L=1;L<=(mc_thorough?7:6);L++) mc_case(mc_fmt("sorted small %d",L),[=]{ sorted({0,1,2,3,4,5,7},L); });
  for(int L=1;L<=5;L++) mc_case(mc_fmt("sorted wide %d",L),[=]{ sorted({0,1,2147483646u,2147483647u,2147483648u,4000000000u,4294967293u},L); });
  mc_case("sorted long",[]{ for(int stepsize:{1,3,7,11,64,255,256}) { pd_idx_t*b=NULL,n=0; std::set<pd_idx_t> S; for(int i=0;i<257;i++){ pd_idx_t x=(i*stepsize)%257; b=pd_sortedbuf_insert(b,&n,x); S.insert(x); MC_CHECK(n==S.size()&&std::equal(S.begin(),S.end(),b),"long buffer step %d",stepsize); mc_trans(); } free(b); mc_trace(); } });
  mc_case("unsorted search",[]{ for(int n=0;n<=5;n++){ long T=1; for(int i=0;i<n;i++) T*=4; for(long q=0;q<T;q++){ std::vector<pd_idx_t> b; long z=q; for(int i=0;i<n;i++){ b.push_back(z%4); z/=4; } for(pd_idx_t x=0;x<5;x++){ pd_idx_t at=9; bool r=pd_buf_contains(b.data(),n,x,&at); auto f=std::find(b.begin(),b.end(),x); MC_CHECK(r==(f!=b.end())&&(r?at<(pd_idx_t)n&&b[at]==x:at==PD_UNSET_IDX),"position of %u",x); mc_eval(); mc_trans(); } } } mc_trace(); });
  mc_case("reallocation",[]{ for(size_t a=1;a<4000;a=a*3+1) for(size_t b=1;b<900000;b=b*4+3){ unsigned char*p=(unsigned char*)malloc_or_die(a); for(size_t i=0;i<a;i++) p[i]=(unsigned char)(i*7+a); unsigned char*blk=(unsigned char*)malloc_or_die(16); p=(unsigned char*)realloc_or_die(p,b); for(size_t i=0;i<std::min(a,b);i++) MC_CHECK(p[i]==(unsigned char)(i*7+a),"byte %zu lost resizing %zu to %zu",i,a,b); for(size_t i=0;i<b;i++) p[i]=1; free(p); free(blk); unsigned char*z=(unsigned char*)calloc_or_die(a,3); for(size_t i=0;i<3*a;i++) MC_CHECK(z[i]==0,"calloc_or_die memory is not zero"); free(z); mc_trans(); mc_eval(); } mc_trace(); });
}
