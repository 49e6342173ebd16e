// C03: damaged and hostile VECT files.
#include "curve.hpp"
static std::string write_str(plCurve*L){ char*b=NULL; size_t n=0; FILE*f=open_memstream(&b,&n); plc_write(f,L); fclose(f); std::string s(b,n); free(b); return s; }
static void probe(const std::string&s){
  if(!mc_state(s)) return; mc_note("text: %s",s.substr(0,3500).c_str()); FILE*f=fmemopen((void*)(s.empty()?" ":s.data()),std::max<size_t>(s.size(),1),"r"); char es[64]; memset(es,'x',sizeof es); int e=-77; plCurve*L=NULL;
  L=plc_read(f,&e,es,sizeof es); mc_trans(); mc_eval(); fclose(f); MC_CHECK(memchr(es,0,sizeof es),"the error string is not terminated");
  if(!L){ MC_CHECK(e>=1&&e<=13,"plc_read failed with error number %d",e); MC_CHECK(es[0],"plc_read failed without a message"); mc_outcome(mc_fmt("error %d",e)); return; }
  MC_CHECK(e==0,"plc_read returned a curve and error %d",e); size_t w=s.find_first_not_of(" \t\n\v\f\r"); MC_CHECK(w!=std::string::npos&&s.compare(w,4,"VECT")==0,"plc_read accepted a file without the VECT keyword"); std::string b=curve_bad(L); MC_CHECK(b.empty(),"plc_read accepted the file and returned a bad curve: %s",b.c_str());
  // the curve is usable
  plCurve*K=plc_copy(L); MC_CHECK(curve_bad(K).empty()&&curve_str(from_plc(K))==curve_str(from_plc(L)),"the copy of the read curve differs"); std::string t=write_str(K); mc_trans(2); plc_free(K); plc_free(L); mc_outcome("accepted"); }
static const char*TOK[]={"0","-1","1","2","-3","4","7","12","99","-2147483648","2147483647","99999999999999999999","1.5","abc","nan","#","-","1e400","Fixed","Constraint","Cst:","VECT"};
static std::vector<std::pair<size_t,size_t>> tokens(const std::string&s){ std::vector<std::pair<size_t,size_t>> r; for(size_t i=0;i<s.size();){ while(i<s.size()&&isspace((unsigned char)s[i])) i++; size_t j=i; while(j<s.size()&&!isspace((unsigned char)s[j])) j++; if(j>i) r.push_back({i,j-i}); i=j; } return r; }
static std::vector<std::string> lines(const std::string&s){ std::vector<std::string> r; size_t i=0; while(i<s.size()){ size_t j=s.find('\n',i); if(j==std::string::npos) j=s.size()-1; r.push_back(s.substr(i,j-i+1)); i=j+1; } return r; }
static void family(const std::string&t,int depth){
  for(size_t k=0;k<=t.size();k++) probe(t.substr(0,k));                       // torn at every byte
  auto tk=tokens(t); for(auto&p:tk){ probe(t.substr(0,p.first)+t.substr(p.first+p.second)); probe(t.substr(0,p.first)+t.substr(p.first,p.second)+" "+t.substr(p.first)); for(const char*q:TOK) probe(t.substr(0,p.first)+q+t.substr(p.first+p.second)); }
  for(size_t k=0;k<t.size();k++) for(char c:{' ','\n','#','9','x','-','\0'}){ std::string u=t; u[k]=c; probe(u); }
  auto ln=lines(t); auto join=[](const std::vector<std::string>&v){ std::string s; for(auto&x:v) s+=x; return s; };
  for(size_t i=0;i<ln.size();i++){ auto v=ln; v.erase(v.begin()+i); probe(join(v)); v=ln; v.insert(v.begin()+i,ln[i]); probe(join(v)); for(size_t j=i+1;j<ln.size();j++){ v=ln; std::swap(v[i],v[j]); probe(join(v)); } }
  if(depth>1) for(size_t a=0;a<tk.size();a++) for(size_t b=a+1;b<tk.size();b++) for(int x:{0,1,3,5,9,10,13}) for(int y:{0,1,3,5,9,10,13}){ std::string u=t.substr(0,tk[a].first)+TOK[x]+t.substr(tk[a].first+tk[a].second,tk[b].first-tk[a].first-tk[a].second)+TOK[y]+t.substr(tk[b].first+tk[b].second); probe(u); }
  mc_trace(); }
static Curve mk(int id){ Curve C; auto add=[&](int nv,bool open,int cc){ Comp m; m.open=open; for(int i=0;i<nv;i++) m.v.push_back(V3{{0.5*i,1.0+i,-2.0}}); for(int i=0;i<cc;i++) m.c.push_back(C4{{1,0.5,0,1}}); m.cst.resize(nv); C.push_back(m); };
  Cst F,L,P; F.kind=1; F.a=V3{{1,2,3}}; L.kind=2; L.a=V3{{1,0,0}}; L.b=V3{{0,1,0}}; P.kind=3; P.a=V3{{0,0,1}}; P.b=V3{{2,0,0}};
  switch(id){ case 0: add(3,false,0); break; case 1: add(2,true,1); break; case 2: add(3,false,3); C[0].cst[0]=F; C[0].cst[2]=L; break; case 3: add(1,true,0); add(3,false,1); C[1].cst[0]=P; C[1].cst[1]=P; break; case 4: add(4,true,0); for(int i=0;i<4;i++) C[0].cst[i]=i%2?F:L; break; case 5: add(12,false,0); for(int i=0;i<12;i++){ C[0].cst[i]=F; C[0].cst[i].a[0]=i; } break; }
  return C; }
void mc_main(){ bool T=mc_thorough;
  for(int id=0;id<6;id++){ plCurve*L=to_plc(mk(id)); std::string t=write_str(L); plc_free(L);
    // split the mutation family by prefix so that shards share the work
    mc_case(mc_fmt("single corruptions of file %d",id),[&]{ family(t,1); mc_sample(t); }); }
  for(int id=0;id<(T?4:2);id++){ plCurve*L=to_plc(mk(id)); std::string t=write_str(L); plc_free(L); auto tk=tokens(t); for(size_t a=0;a<tk.size();a++) mc_case(mc_fmt("double corruptions of file %d, token %zu",id,a),[&]{ for(size_t b=a+1;b<tk.size();b++) for(const char*x:TOK) for(const char*y:TOK){ probe(t.substr(0,tk[a].first)+x+t.substr(tk[a].first+tk[a].second,tk[b].first-tk[a].first-tk[a].second)+y+t.substr(tk[b].first+tk[b].second)); } mc_trace(); }); }
  // headers: all small count lines for one and two components, with enough numbers following
  std::string nums; for(int i=0;i<40;i++) nums+=mc_fmt("%d ",i%5); 
  for(int n=-1;n<=3;n++) mc_case(mc_fmt("headers with %d components",n),[&]{ const int cs[]={-2147483647-1,-3,-1,0,1,2,3,2147483647}; for(int nv:{0,3,6}) for(int nc:{0,1,3}) for(int a:cs) for(int b:cs) for(int c:cs) for(int d:cs){ probe(mc_fmt("VECT\n%d %d %d\n%d %d\n%d %d\n",n,nv,nc,a,b,c,d)+nums); } mc_trace(); });
  // constraint definitions and uses: all combinations of two definitions and the uses on three vertices
  mc_case("constraint numbers",[&]{ const char*df[]={""," # Constraint 1 Fixed 1 2 3\n","# Constraint 2 Line 1 0 0 0 0 1\n","# Constraint 9 Plane 0 0 1 2\n","# Constraint 10 Fixed 1 1 1\n","# Constraint 0 Fixed 1 2 3\n","# Constraint -4 Fixed 1 2 3\n","# Constraint 2147483647 Fixed 1 2 3\n","# Constraint 19 Fixed 1 2\n","# Constraint 1 Plane 1 2 3 4 \n","# Constraint 1\n","# Constraint 1 Fixed 1 2 3","# Constraint 3 Line 1 2 3 4 5 6"}; const char*us[]={"","# Cst: 1","# Cst: 2","# Cst: 9","# Cst: 10","# Cst: 0","# Cst: -1","# Cst: 3","# Cst: 2147483647","# Cst: x","# Cst: "};
    for(auto a:df) for(auto b:df) for(auto x:us) for(auto y:us) for(auto z:us) probe(std::string("VECT\n1 3 0\n-3\n0\n")+a+b+"0 0 0 "+x+"\n1 0 0 "+y+"\n1 1 0 "+z+"\n"); mc_trace(); });
  // comments of every length around the growth of the comment buffer, ended by the end of the file, a line end or a vertex
  mc_case("comment lengths",[&]{ const char*K[]={"Fixed 1 2 ","Line 1 0 0 0 0 ","Plane 0 0 1 ","Line 1 0 0 0 0 1 # Constraint 2 Fixed 1 2 "}; for(int n=0;n<(T?1100:560);n++) for(auto k:K) for(const char*e:{""," ","\n","\n0 0 0 # Cst: 1\n1 0 0\n"}) probe(std::string("VECT\n1 2 0\n2\n0\n# Constraint 1 ")+k+"0."+std::string(n,'0')+e); for(int n=0;n<(T?1100:560);n++) for(const char*e:{""," ","\n","\n1 0 0 # Cst: 1\n"}){ probe("VECT\n1 2 0\n2\n0\n# Constraint 1 Fixed 1 2 3\n0 0 0 # "+std::string(n,'x')+" Cst: 1"+e); probe("VECT\n1 2 0\n2\n0\n# Constraint 1 Fixed 1 2 3\n0 0 0 # Cst: "+std::string(n,'0')+"1"+e); } mc_trace(); });
  // arbitrary short texts over a small alphabet
  mc_case("short texts",[&]{ const char*A[]={"VECT","1 ","3 ","0 ","-3 ","\n","# Constraint 1 Fixed 1 2 3","# "," Cst: 1","x"}; int D=T?6:5; std::function<void(std::string,int)> rec=[&](std::string s,int d){ probe(s); probe("VECT 1 3 0 -3 0"+s); if(d<D) for(auto q:A) rec(s+q,d+1); }; rec("",0); mc_trace(); });
}
