// Runtime shared by all harnesses: case enumeration, sharding, failure capture, coverage counters.
// A harness defines  void mc_main();  and calls mc_case(description, body) for every case of a
// deterministic enumeration.  Each case runs in exactly one shard.
#ifndef MC_H
#define MC_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>

extern "C" { void __real_exit(int) __attribute__((noreturn)); void __real_abort(void) __attribute__((noreturn));}

struct mc_status_t {
  volatile int64_t case_idx;       // case being run (-1: none)
  volatile int64_t finished;
  volatile int64_t failed;         // 1 when mc_fail wrote the message
  char desc[4096];
  char note[4096];
  char msg[8192];
  char key[512];
};
static mc_status_t *mc_st;
static bool mc_thorough=false, mc_deep=false;
static int mc_shard=0, mc_nshards=1;
static int64_t mc_only=-1, mc_idx=0, mc_limit=120;
static uint64_t mc_ntrans=0, mc_ntraces=0, mc_ncases=0, mc_nevals=0;
static std::unordered_set<uint64_t> mc_states;
static std::map<std::string,uint64_t> mc_outcomes;
static std::map<std::string,uint64_t> mc_counters;
static std::vector<std::string> mc_samples;
static std::set<std::string> mc_known, mc_known_hit;
static std::string mc_out, mc_tmp;
static volatile int mc_ticks=0, mc_rticks=0;
static bool mc_verbose=false;

static inline uint64_t mc_h64(const void *p,size_t n,uint64_t h=1469598103934665603ULL){
  const unsigned char *c=(const unsigned char*)p; for(size_t i=0;i<n;i++){h^=c[i];h*=1099511628211ULL;}
  h^=h>>29; h*=0xbf58476d1ce4e5b9ULL; h^=h>>32; return h;}
static inline bool mc_state(const std::string &s){return mc_states.insert(mc_h64(s.data(),s.size())).second;}
static inline void mc_trans(uint64_t n=1){mc_ntrans+=n;}
static inline void mc_trace(uint64_t n=1){mc_ntraces+=n;}
static inline void mc_eval(uint64_t n=1){mc_nevals+=n;}
static inline void mc_count(const std::string&k,uint64_t n=1){mc_counters[k]+=n;}
static inline void mc_outcome(const std::string &s){ if(mc_outcomes.size()<5000||mc_outcomes.count(s)) mc_outcomes[s]++; }
static inline void mc_sample(const std::string &s,size_t cap=4){ if(mc_samples.size()<cap) mc_samples.push_back(s.substr(0,1500)); }
static std::string mc_fmt(const char*f,...) __attribute__((format(printf,1,2)));
static std::string mc_fmt(const char*f,...){ va_list a; va_start(a,f); char*s=0; int n=vasprintf(&s,f,a); va_end(a); std::string r=n<0?std::string():std::string(s,n); free(s); return r;}
static void mc_note(const char*f,...) __attribute__((format(printf,1,2)));
static void mc_note(const char*f,...){ va_list a; va_start(a,f); vsnprintf(mc_st->note,sizeof mc_st->note,f,a); va_end(a);}

static bool mc_standalone=false;
static void mc_sayfail(){ if(mc_standalone){ fprintf(stderr,"FAIL case %lld [%.700s] note [%.700s]: %.1500s\n",(long long)mc_st->case_idx,mc_st->desc,mc_st->note,mc_st->msg); fflush(stderr);} }
struct mc_stop_case{};   // thrown after a known finding: the rest of the case is skipped

// A violated check.  key identifies the finding for the known-findings file.
static void mc_failk(const std::string&key,const char*f,...) __attribute__((format(printf,2,3)));
static void mc_failk(const std::string&key,const char*f,...){
  if(!key.empty() && mc_known.count(key)){ mc_known_hit.insert(key); throw mc_stop_case(); }
  va_list a; va_start(a,f); vsnprintf(mc_st->msg,sizeof mc_st->msg,f,a); va_end(a);
  snprintf(mc_st->key,sizeof mc_st->key,"%s",key.c_str());
  mc_st->failed=1; mc_sayfail(); _exit(10);
}
#define mc_fail(...) mc_failk("",__VA_ARGS__)
#define MC_CHECK(c,...) do{ if(!(c)) mc_fail(__VA_ARGS__); }while(0)

// --- exits and assertion failures inside the library -------------------------------------------
static sigjmp_buf mc_jb; static volatile int mc_armed=0; static volatile int mc_exit_kind=0; static volatile int mc_exit_code=0;
static void mc_escape(int kind,int code,const char*what){
  if(mc_armed){ mc_armed=0; mc_exit_kind=kind; mc_exit_code=code; siglongjmp(mc_jb,1); }
  snprintf(mc_st->msg,sizeof mc_st->msg,"%s",what); mc_st->failed=1; mc_sayfail(); fflush(stderr); _exit(10);
}
extern "C" void __wrap_exit(int rc){ mc_escape(1,rc,mc_fmt("library called exit(%d)",rc).c_str()); __real_exit(rc); }
extern "C" void __wrap_abort(void){ mc_escape(2,0,"library called abort()"); __real_abort(); }
extern "C" void __wrap___assert_fail(const char*e,const char*f,unsigned l,const char*fn){
  mc_escape(3,0,mc_fmt("library assertion failed: %s (%s:%u %s)",e,f,l,fn).c_str()); _exit(11); }
// Runs body; returns 0 when it returned, 1 exit(), 2 abort(), 3 assertion.
template<class F> static int mc_guarded(F body){
  mc_exit_kind=0;
  if(sigsetjmp(mc_jb,0)==0){ mc_armed=1; body(); mc_armed=0; return 0; }
  mc_armed=0; return mc_exit_kind;
}
static void mc_prof(int){ if(mc_st->case_idx>=0 && ++mc_ticks>mc_limit){ if(mc_standalone) fprintf(stderr,"TIMEOUT [%.300s] [%.300s]\n",mc_st->desc,mc_st->note); _exit(77);} }
static void mc_real(int){ if(mc_st->case_idx>=0 && ++mc_rticks>mc_limit*6){ _exit(77);} }

static bool mc_begin(const std::string &desc){
  int64_t k=mc_idx++;
  if(mc_only>=0){ if(k!=mc_only) return false; }
  else if((int)(k%mc_nshards)!=mc_shard) return false;
  snprintf(mc_st->desc,sizeof mc_st->desc,"%s",desc.c_str()); mc_st->note[0]=0;
  mc_ticks=0; mc_rticks=0; mc_st->case_idx=k; mc_ncases++;
  if((mc_ncases&63)==0){ fflush(stderr); off_t o=lseek(2,0,SEEK_CUR); if(o>(1<<20)){ if(ftruncate(2,0)==0) lseek(2,0,SEEK_SET);} }
  return true;
}
static bool mc_mine(){ // would the next case run here?  (lets enumerators skip building it)
  if(mc_only>=0) return mc_idx==mc_only; return (int)(mc_idx%mc_nshards)==mc_shard; }
template<class F> static void mc_case(const std::string &desc,F body){
  if(!mc_begin(desc)) return;
  try{ body(); }catch(mc_stop_case&){}
  mc_st->case_idx=-1;
}
template<class D,class F> static void mc_case_lazy(D desc,F body){ // desc() only evaluated when the case runs
  if(!mc_mine()){ mc_idx++; return; }
  mc_case(desc(),body);
}
static std::string mc_esc(const std::string&s){ std::string r; for(unsigned char c:s){ if(c=='\n') r+="\\n"; else if(c=='\t') r+="\\t"; else if(c=='\\') r+="\\\\"; else if(c<32||c>126) r+=mc_fmt("\\x%02x",c); else r+=(char)c;} return r; }

void mc_main();
int main(int argc,char**argv){
  std::string st;
  for(int i=1;i<argc;i++){ std::string a=argv[i];
    auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--tier"){ std::string t=nx(); mc_deep=(t=="deep"); mc_thorough=mc_deep||t=="thorough"; }
    else if(a=="--shard") mc_shard=atoi(nx().c_str());
    else if(a=="--nshards") mc_nshards=atoi(nx().c_str());
    else if(a=="--only") mc_only=atoll(nx().c_str());
    else if(a=="--limit") mc_limit=atoll(nx().c_str());
    else if(a=="--status") st=nx();
    else if(a=="--out") mc_out=nx();
    else if(a=="--tmp") mc_tmp=nx();
    else if(a=="--known") mc_known.insert(nx());
    else if(a=="-v") mc_verbose=true;
  }
  if(st.empty()){ mc_st=(mc_status_t*)mmap(0,sizeof(mc_status_t),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);}
  else { int fd=open(st.c_str(),O_RDWR|O_CREAT,0644); if(fd<0||ftruncate(fd,sizeof(mc_status_t))) return 12;
    mc_st=(mc_status_t*)mmap(0,sizeof(mc_status_t),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd);}
  memset((void*)mc_st,0,sizeof *mc_st); mc_st->case_idx=-1;
  mc_standalone=st.empty();
  if(mc_tmp.empty()) mc_tmp="/tmp";
  if(!st.empty()){ int fd=open("/dev/null",O_WRONLY); dup2(fd,1); close(fd); }
  signal(SIGPROF,mc_prof); signal(SIGALRM,mc_real);
  struct itimerval tv={{1,0},{1,0}}; setitimer(ITIMER_PROF,&tv,0); setitimer(ITIMER_REAL,&tv,0);
  mc_main();
  setvbuf(stdout,0,_IONBF,0);
  if(!mc_out.empty()){
    FILE*f=fopen(mc_out.c_str(),"w");
    fprintf(f,"cases\t%llu\ntotal_cases\t%lld\ntrans\t%llu\ntraces\t%llu\nevals\t%llu\n",(unsigned long long)mc_ncases,(long long)mc_idx,(unsigned long long)mc_ntrans,(unsigned long long)mc_ntraces,(unsigned long long)mc_nevals);
    for(auto&o:mc_outcomes) fprintf(f,"outcome\t%llu\t%s\n",(unsigned long long)o.second,mc_esc(o.first).c_str());
    for(auto&o:mc_counters) fprintf(f,"counter\t%llu\t%s\n",(unsigned long long)o.second,mc_esc(o.first).c_str());
    for(auto&s:mc_samples) fprintf(f,"sample\t%s\n",mc_esc(s).c_str());
    for(auto&s:mc_known_hit) fprintf(f,"known\t%s\n",mc_esc(s).c_str());
    fclose(f);
    f=fopen((mc_out+".states").c_str(),"wb"); for(uint64_t h:mc_states) fwrite(&h,8,1,f); fclose(f);
  } else {
    printf("cases %llu trans %llu traces %llu evals %llu states %zu outcomes %zu\n",(unsigned long long)mc_ncases,(unsigned long long)mc_ntrans,(unsigned long long)mc_ntraces,(unsigned long long)mc_nevals,mc_states.size(),mc_outcomes.size());
    for(auto&o:mc_counters) printf("  %s: %llu\n",o.first.c_str(),(unsigned long long)o.second);
    int k=0; for(auto&o:mc_outcomes) if(k++<30) printf("  outcome %s: %llu\n",mc_esc(o.first).substr(0,150).c_str(),(unsigned long long)o.second);
    for(auto&s:mc_samples) printf("  sample %s\n",mc_esc(s).substr(0,300).c_str());
  }
  mc_st->finished=1; fflush(0); _exit(0);
}
#endif
