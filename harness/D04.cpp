// D04: corrupted diagram text: rejected or read as a valid diagram, never a crash, exit, hang or invalid diagram.
#include "pdmodel.hpp"
static std::string slurp(std::function<void(FILE*)> w){ char*b=NULL; size_t n=0; FILE*f=open_memstream(&b,&n); w(f); fclose(f); std::string s(b,n); free(b); return s; }
static FILE*memf(const std::string&s){ static char z[1]; FILE*f=s.empty()?fmemopen(z,1,"r"):fmemopen((void*)s.data(),s.size(),"r"); if(s.empty()) fgetc(f); return f; }
static long n_acc=0,n_rej=0;
static void native(const std::string&t){
  mc_note("text:\n%s",t.c_str()); if(!mc_state("N"+t)) return; 
  for(int mode=0;mode<2;mode++){ FILE*f=memf(t); pd_code_t*r=NULL; int err=0; int g=mc_guarded([&]{ r=mode?pd_read(f):pd_read_err(f,&err); }); mc_trans(); mc_eval();
    MC_CHECK(g==0,"reading terminates the program (%s)",g==1?"exit":g==2?"abort":"assertion");
    if(r){ std::string w; MC_CHECK(pd_valid(r,w),"an invalid diagram was accepted (%s): %s",w.c_str(),pd_str(r).c_str()); MC_CHECK(!err,"a diagram was returned together with error %d",err); n_acc++; mc_outcome("accepted"); pd_code_free(&r); } else { MC_CHECK(mode||err,"rejected without an error code"); n_rej++; mc_outcome(mode?"rejected":mc_fmt("rejected, error %d",err)); } fclose(f); } }
static std::vector<std::pair<size_t,size_t>> toks(const std::string&t){ std::vector<std::pair<size_t,size_t>> v; size_t i=0; while(i<t.size()){ if(isspace((unsigned char)t[i])){ i++; continue; } size_t j=i; if(isdigit((unsigned char)t[i])||isalpha((unsigned char)t[i])||t[i]=='/'){ while(j<t.size()&&(isalnum((unsigned char)t[j])||t[j]=='/'||(j>i&&t[j]=='+'&&isalpha((unsigned char)t[i])))) j++; } else j=i+1; v.push_back({i,j-i}); i=j; } return v; }
static void mutate(const std::string&t,bool pairs){
  auto T=toks(t); static const char*A[]={"0","1","2","3","4","5","6","7","9","-1","4294967295","4294967296","18446744073709551615","99999","x","+","-","tag","A","@","",":","->","nv","0 0"}; 
  auto rep=[&](const std::string&s,size_t k,const char*a){ auto U=toks(s); std::string r=s; if(k<U.size()) r.replace(U[k].first,U[k].second,a); return r; };
  for(size_t k=0;k<T.size();k++) for(auto a:A) native(rep(t,k,a));
  for(size_t k=0;k<T.size();k++){ std::string r=t; r.insert(T[k].first," 1 "); native(r); r=t; r.insert(T[k].first,t.substr(T[k].first,T[k].second)); native(r); if(k+1<T.size()){ r=t.substr(0,T[k].first)+t.substr(T[k+1].first,T[k+1].second)+" "+t.substr(T[k].first,T[k].second)+t.substr(T[k+1].first+T[k+1].second); native(r); } }
  for(size_t i=0;i<=t.size();i++) native(t.substr(0,i)); // torn writes
  for(size_t i=0;i<t.size();i++){ std::string r=t; r.erase(i,1); native(r); }
  std::vector<std::string> L; size_t i=0; while(i<t.size()){ size_t e=t.find('\n',i); L.push_back(t.substr(i,e-i+1)); i=e+1; } auto join=[&](const std::vector<std::string>&v){ std::string s; for(auto&x:v) s+=x; return s; };
  for(size_t a=0;a<L.size();a++){ auto v=L; v.erase(v.begin()+a); native(join(v)); v=L; v.insert(v.begin()+a,L[a]); native(join(v)); for(size_t b=a+1;b<L.size();b++){ v=L; std::swap(v[a],v[b]); native(join(v)); } }
  if(pairs){ static const char*B[]={"0","1","2","3","4","-1"}; for(size_t a=0;a<T.size();a++) for(size_t b=a+1;b<T.size();b++){ if(!isdigit((unsigned char)t[T[a].first])||!isdigit((unsigned char)t[T[b].first])) continue; for(auto x:B) for(auto y:B) native(rep(rep(t,b,y),a,x)); } }
  mc_trace(); }
// consistent changes of several tokens: a crossing slot swap keeps every count right but breaks the diagram
static void swaps(const std::string&t){ auto T=toks(t); for(size_t a=0;a<T.size();a++) for(size_t b=a+1;b<T.size();b++){ if(!isdigit((unsigned char)t[T[a].first])||!isdigit((unsigned char)t[T[b].first])) continue; std::string x=t.substr(T[a].first,T[a].second),y=t.substr(T[b].first,T[b].second); if(x==y) continue; std::string r=t; r.replace(T[b].first,T[b].second,x); r.replace(T[a].first,T[a].second,y); native(r); } mc_trace(); }
// ---- KnotTheory ----
static void kt(const std::string&t,const std::vector<std::array<int,4>>*X){
  mc_note("KnotTheory text %s",t.c_str()); mc_state("K"+t); FILE*f=memf(t); pd_code_t*r=NULL; int g=mc_guarded([&]{ r=pd_read_KnotTheory(f); }); mc_trans(); mc_eval(); fclose(f);
  MC_CHECK(g==0,"reading terminates the program (%s)",g==1?"exit":g==2?"abort":"assertion");
  if(!r){ mc_outcome("KnotTheory rejected"); return; } std::string w; MC_CHECK(pd_valid(r,w),"an invalid diagram was accepted (%s): %s",w.c_str(),pd_str(r).c_str()); mc_outcome("KnotTheory accepted");
  if(X){ // the accepted diagram is the one the text spells
    int n=X->size(); Dia D; D.n=n; D.mate.assign(4*n,-1); std::map<int,std::vector<int>> where; for(int c=0;c<n;c++) for(int p=0;p<4;p++) where[(*X)[c][p]].push_back(4*c+p); for(auto&e:where){ MC_CHECK(e.second.size()==2,"text with edge %d used %zu times accepted",e.first,e.second.size()); D.mate[e.second[0]]=e.second[1]; D.mate[e.second[1]]=e.second[0]; }
    D.sign.assign(n,2); dia_components(D); Dia R=from_pd(r); std::string got=dia_canon(R,CF_ORIENT|CF_SIGN); bool ok=false; all_orients(D,false,[&](const Dia&O){ if(ok) return; Dia E=O; for(int c=0;c<n;c++){ E.sign[c]=1; int oi,oo,ui,uo; dia_strands(E,c,oi,oo,ui,uo); if(((ui%4)&1)!=0) E.sign[c]=0; } if(dia_canon(E,CF_ORIENT|CF_SIGN)==got) ok=true; }); MC_CHECK(ok,"%s was read as %s",t.c_str(),pd_str(r).c_str()); }
  pd_code_free(&r); }
static std::string ktxt(const std::vector<std::array<int,4>>&X){ std::string s="PD["; for(size_t i=0;i<X.size();i++) s+=mc_fmt("%sX[%d,%d,%d,%d]",i?",":"",X[i][0],X[i][1],X[i][2],X[i][3]); return s+"]"; }
void mc_main(){
  std::vector<Dia> S; for(int n=0;n<=3;n++){ auto v=gen_diagrams(n,SG_SIGNED|(n<2?SG_UNSET:0)); size_t step=n<=1?1:n==2?(mc_thorough?1:3):(mc_thorough?5:40); for(size_t i=0;i<v.size();i+=step) S.push_back(v[i]); }
  for(auto&D:S) for(int half=0;half<2;half++) mc_case_lazy([&]{ return "corruptions of the text of "+dia_str(D); },[&]{ pd_code_t*pd=to_pd(D); std::string t=slurp([&](FILE*f){ pd_write(f,pd); }); if(half){ t="pd\n"+t.substr(t.find('\n')+1); } mutate(t,D.n<=1||(mc_thorough&&D.n==2)); if(!half) swaps(t); pd_code_free(&pd); mc_sample("every single-token, line and truncation corruption of\n"+t); });
  for(const char*s:{"","\n","p","pd","pd \n","pd abc 1\nnv 0\n","pd abcdefghijklmnopqrstuvwxyzabcdefghij 1\nnv 1\n","pd @@@ 1\nnv 1\n","pd abc\nnv 1\n","qq\n","pd AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA 1\nnv 0\nne 1\n0,0 -> 0,0\nnc 1\n1 : 0 tag A\n","pd AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA 1\nnv 0\nne 1\n0,0 -> 0,0\nnc 1\n1 : 0 tag A\n","nv 3\n"}) { std::string t=s; mc_case("fragment "+t,[&]{ native(t); }); }
  { std::string lng="pd "+std::string(9000,'a')+" 3\nnv 1\n"; mc_case("overlong first line",[&]{ native(lng); native("pd "+std::string(4090,'b')+" 3\nnv 1\n"); native(std::string(5000,' ')+"pd\n"); }); }
  // every one-crossing KnotTheory code over {0..5}, every two-crossing code over {1..4} (thorough: {0..5})
  for(int a=-1;a<=4;a++) mc_case(mc_fmt("one-crossing KnotTheory codes starting %d",a),[&]{ for(int b=-1;b<=4;b++) for(int c=-1;c<=4;c++) for(int d=-1;d<=4;d++){ std::vector<std::array<int,4>> X{{{a,b,c,d}}}; kt(ktxt(X),&X); } mc_trace(); mc_sample("all one-crossing KnotTheory codes over -1..4"); });
  int lo=mc_thorough?0:1,hi=mc_thorough?5:4; for(int a=lo;a<=hi;a++) for(int b=lo;b<=hi;b++) mc_case(mc_fmt("two-crossing KnotTheory codes starting %d,%d",a,b),[&]{ int k=hi-lo+1; long tot=1; for(int i=0;i<6;i++) tot*=k; for(long m=0;m<tot;m++){ long q=m; std::vector<std::array<int,4>> X(2); X[0][0]=a; X[0][1]=b; for(int i=2;i<8;i++){ X[i/4][i%4]=lo+q%k; q/=k; } kt(ktxt(X),&X); } mc_trace(); });
  // three crossings, every edge exactly twice; first crossing fixed to a few patterns in quick
  auto three=[&](std::array<int,4> first){ mc_case_lazy([&]{ return mc_fmt("three-crossing KnotTheory codes starting %d,%d,%d,%d",first[0],first[1],first[2],first[3]); },[&]{ int left[7]={0,2,2,2,2,2,2}; for(int x:first) left[x]--; std::vector<std::array<int,4>> X(3); X[0]=first; std::function<void(int)> rec=[&](int i){ if(i==12){ kt(ktxt(X),&X); return; } for(int v=1;v<=6;v++) if(left[v]){ left[v]--; X[i/4][i%4]=v; rec(i+1); left[v]++; } }; rec(4); mc_trace(); }); };
  for(int a=1;a<=6;a++) for(int b=1;b<=6;b++) for(int c=1;c<=6;c++) for(int d=1;d<=6;d++){ std::array<int,4> f={a,b,c,d}; std::map<int,int> m; for(int x:f) m[x]++; bool ok=true; for(auto&x:m) if(x.second>2) ok=false; if(!ok) continue; if(!mc_thorough&&!(f==std::array<int,4>{1,4,2,5}||f==std::array<int,4>{1,2,2,3})) continue; three(f); }
  // syntax
  for(std::string t:{"PD[X[1,4,2,5],X[3,6,4,1],X[5,2,6,3]]\n","PD[X[1, 2, 2, 1]]\n","PD[X[4,1,3,2],X[2,3,1,4]]\n"}) mc_case("KnotTheory syntax "+t,[&]{ for(size_t i=0;i<=t.size();i++) kt(t.substr(0,i),nullptr); for(size_t i=0;i<t.size();i++){ std::string r=t; r.erase(i,1); kt(r,nullptr); for(const char*c:{"0","7","-","[","]",","," ","X","\n","99999999999"}){ r=t; r.replace(i,1,c); kt(r,nullptr); r=t; r.insert(i,c); kt(r,nullptr); } } mc_trace(); });
  mc_case("KnotTheory text with a 10001-crossing header",[&]{ std::string s="PD["; for(int i=0;i<10001;i++) s+=mc_fmt("%sX[%d,%d,%d,%d]",i?",":"",2*i+1,2*i+2,2*i+2,2*i+3); kt(s+"]",nullptr); });
}
