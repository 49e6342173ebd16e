// C12: strut files: every small list round-trips, every damaged file is refused or read as what it says.
#include "curve.hpp"
extern "C" {
#include "octrope.h"
}
typedef std::vector<octrope_strut> SL; typedef std::vector<octrope_mrloc> ML;
static Curve base(){ Curve C(3); int nv[]={4,3,2}; for(int c=0;c<3;c++){ C[c].open=c==2; for(int i=0;i<nv[c];i++) C[c].v.push_back(V3{{c+0.3*i,1.1*(i%2),0.2*i*c}}); C[c].cst.resize(nv[c]); } return C; }
static octrope_strut S(int c0,int c1,int v0,int v1,double p0,double p1,double l,double k){ octrope_strut s; memset(&s,0,sizeof s); s.component[0]=c0; s.component[1]=c1; s.lead_vert[0]=v0; s.lead_vert[1]=v1; s.position[0]=p0; s.position[1]=p1; s.length=l; s.compression=k; return s; }
static octrope_mrloc R(int c,int v,double m,double k){ octrope_mrloc r; memset(&r,0,sizeof r); r.component=c; r.vert=v; r.svert=v+1; r.mr=m; r.compression=k; return r; }
static std::string path(){ return mc_tmp+"/s"; }
static std::string write(const SL&s,const ML&m){ FILE*f=fopen(path().c_str(),"w"); octrope_strutfile_write(s.size(),(octrope_strut*)s.data(),m.size(),(octrope_mrloc*)m.data(),f); fclose(f); MC_CHECK(octrope_error_num==0,"octrope_strutfile_write: error %d",octrope_error_num); f=fopen(path().c_str(),"r"); std::string r; int c; while((c=fgetc(f))!=EOF) r+=(char)c; fclose(f); return r; }
static bool close6(double a,double b){ if(a!=a||b!=b) return a!=a&&b!=b; return a==b||std::fabs(a-b)<=1.01e-5*std::fabs(b)*0.5+1e-300; }
// reading as the format says: -1 not the file format, 0 refused, 1 read
static bool skip(const char*&p){ bool com=false; for(;*p;p++){ if(*p=='#') com=true; else if(*p=='\n'&&com) com=false; else if(!isspace((unsigned char)*p)&&!com) return true; } return false; }
static bool geti(const char*&p,int&x){ int n=0; if(!skip(p)||sscanf(p,"%d%n",&x,&n)!=1) return false; p+=n; return true; }
static bool getd(const char*&p,double&x){ int n=0; if(!skip(p)||sscanf(p,"%lf%n",&x,&n)!=1) return false; p+=n; return true; }
static bool parse(const std::string&t,const Curve&C,SL&s,ML&m){ const char*p=t.c_str(); while(isspace((unsigned char)*p)) p++; if(strncmp(p,"STRUTS",6)) return false; p+=6; int a,b; if(!geti(p,a)||!geti(p,b)||a<0||b<0||a>1000000||b>1000000) return false; for(int i=0;i<a;i++){ octrope_strut x; memset(&x,0,sizeof x); for(int k=0;k<2;k++) if(!geti(p,x.component[k])) return false; for(int k=0;k<2;k++) if(!geti(p,x.lead_vert[k])) return false; for(int k=0;k<2;k++) if(x.component[k]<0||x.component[k]>=(int)C.size()||x.lead_vert[k]<0||x.lead_vert[k]>=(int)C[x.component[k]].v.size()) return false; if(!getd(p,x.position[0])||!getd(p,x.position[1])||!getd(p,x.length)||!getd(p,x.compression)) return false; s.push_back(x); }
  for(int i=0;i<b;i++){ octrope_mrloc x; memset(&x,0,sizeof x); if(!geti(p,x.component)||!geti(p,x.vert)) return false; if(x.component<0||x.component>=(int)C.size()||x.vert<0||x.vert>=(int)C[x.component].v.size()) return false; if(!getd(p,x.mr)||!getd(p,x.compression)) return false; m.push_back(x); } return true; }
static void read_check(plCurve*L,const Curve&C,const std::string&t,const SL*ws,const ML*wm){ mc_note("%s",t.substr(0,3800).c_str()); mc_state(t); FILE*f=fopen(path().c_str(),"w"); fwrite(t.data(),1,t.size(),f); fclose(f); f=fopen(path().c_str(),"r"); int ns=-3,nm=-3; octrope_strut*sl=NULL; octrope_mrloc*ml=NULL; octrope_strutfile_read(L,&ns,&sl,&nm,&ml,f); int err=octrope_error_num; fclose(f); mc_trans(); mc_eval(); SL s; ML m; bool good=parse(t,C,s,m); if(ws) MC_CHECK(good,"the written file does not follow the format"); if(good){ MC_CHECK(err==0,"a file in the documented format is refused: error %d %s",err,octrope_error_str); MC_CHECK(ns==(int)s.size()&&nm==(int)m.size(),"read %d struts and %d minrad locations instead of %zu and %zu",ns,nm,s.size(),m.size()); auto same=[](double a,double b){ return a==b||(a!=a&&b!=b); }; for(int i=0;i<ns;i++) for(int k=0;k<2;k++) MC_CHECK(sl[i].component[k]==s[i].component[k]&&sl[i].lead_vert[k]==s[i].lead_vert[k]&&same(sl[i].position[k],s[i].position[k])&&same(sl[i].length,s[i].length)&&same(sl[i].compression,s[i].compression),"strut %d differs from the file",i); for(int i=0;i<nm;i++) MC_CHECK(ml[i].component==m[i].component&&ml[i].vert==m[i].vert&&same(ml[i].mr,m[i].mr)&&same(ml[i].compression,m[i].compression),"minrad location %d differs from the file",i);
    if(ws){ MC_CHECK(ws->size()==s.size()&&wm->size()==m.size(),"list sizes changed"); for(int i=0;i<ns;i++) for(int k=0;k<2;k++){ const octrope_strut&x=(*ws)[i]; MC_CHECK(sl[i].component[k]==x.component[k]&&sl[i].lead_vert[k]==x.lead_vert[k]&&close6(sl[i].position[k],x.position[k])&&close6(sl[i].length,x.length)&&close6(sl[i].compression,x.compression),"strut %d changed in the file",i); } for(int i=0;i<nm;i++){ const octrope_mrloc&x=(*wm)[i]; MC_CHECK(ml[i].component==x.component&&ml[i].vert==x.vert&&close6(ml[i].mr,x.mr)&&close6(ml[i].compression,x.compression),"minrad location %d changed in the file",i); } }
  } else MC_CHECK(err!=0,"a damaged file is read without an error"); mc_outcome(good?"read":mc_fmt("refused %d",err)); free(sl); free(ml); mc_trace(); }
void mc_main(){ bool T=mc_thorough; Curve C=base(); double V[]={0,1,0.5,0.123456789,1e-7,3.25e5,-2.5,1e100}; 
  SL pool; for(int c0=0;c0<3;c0++) for(int c1=0;c1<3;c1++) for(int a=0;a<(int)C[c0].v.size();a++) for(int b=0;b<(int)C[c1].v.size();b++) pool.push_back(S(c0,c1,a,b,V[(a+c0)%4],V[(b+c1)%4],V[(a+b+c0*3+c1)%6],V[(a*3+b+c1)%8])); ML mp; for(int c=0;c<3;c++) for(int v=0;v<(int)C[c].v.size();v++) for(int k=0;k<2;k++) mp.push_back(R(c,v,V[(v+3*c+k)%6],V[(v*2+c+k*5)%8]));
  mc_case("round trip of every single strut and value",[&]{ plCurve*L=to_plc(C); for(auto&s:pool){ read_check(L,C,write({s},{}),nullptr,nullptr); SL w{s}; ML e; std::string t=write(w,e); read_check(L,C,t,&w,&e); for(double x:V){ s.length=x; s.compression=-x; w={s}; t=write(w,e); read_check(L,C,t,&w,&e); } } for(auto&m:mp) for(double x:V){ m.mr=x; ML w{m}; SL e; std::string t=write(e,w); read_check(L,C,t,&e,&w); } plc_free(L); mc_sample("one record"); });
  for(int a=0;a<8;a++) mc_case(mc_fmt("round trip of pairs of struts and locations, part %d",a),[&]{ plCurve*L=to_plc(C); for(size_t i=a;i<pool.size();i+=8) for(size_t j=0;j<pool.size();j++) for(int k=0;k<4;k++){ SL w{pool[i]}; if(k&1) w.push_back(pool[j]); ML m; m.push_back(mp[j%mp.size()]); if(k&2) m.push_back(mp[(i+j)%mp.size()]); if(k==3) m.clear(); std::string t=write(w,m); read_check(L,C,t,&w,&m); } plc_free(L); });
  mc_case("round trip of long lists",[&]{ plCurve*L=to_plc(C); for(int ns:{0,1,5,19,20,21,22,40,100,257,1000}) for(int nm:{0,1,20,21,33,128,700}) for(int k=0;k<2;k++){ SL w; ML m; for(int i=0;i<ns;i++) w.push_back(pool[(i*(k?7:1)+k)%pool.size()]); for(int i=0;i<nm;i++) m.push_back(mp[(i*(k?5:1)+k)%mp.size()]); std::string t=write(w,m); read_check(L,C,t,&w,&m); } plc_free(L); });
  SL s2{pool[3],pool[20],pool[41]}; ML m2{mp[2],mp[9]}; std::string chars="0129-.#eS \n"; if(T) chars="0123456789-+.#eExSTR \n\tninf";
  mc_case_lazy([&]{ return std::string("every truncation"); },[&]{ plCurve*L=to_plc(C); for(int k=0;k<3;k++){ std::string t=write(k==2?SL{}:s2,k==1?ML{}:m2); for(size_t i=0;i<=t.size();i++) read_check(L,C,t.substr(0,i),nullptr,nullptr); } plc_free(L); });
  for(size_t ci=0;ci<chars.size();ci++) mc_case(mc_fmt("every byte replaced by or preceded by %#x",(unsigned)chars[ci]),[&]{ plCurve*L=to_plc(C); std::string t=write(s2,m2); for(size_t i=0;i<t.size();i++){ std::string u=t; u[i]=chars[ci]; read_check(L,C,u,nullptr,nullptr); u=t; u.insert(i,1,chars[ci]); read_check(L,C,u,nullptr,nullptr); } plc_free(L); });
  mc_case("every byte or line removed or doubled, every number replaced",[&]{ plCurve*L=to_plc(C); std::string t=write(s2,m2); for(size_t i=0;i<t.size();i++){ std::string u=t; u.erase(i,1); read_check(L,C,u,nullptr,nullptr); } std::vector<std::string> ln; std::string cur; for(char ch:t){ cur+=ch; if(ch=='\n'){ ln.push_back(cur); cur=""; } } for(size_t i=0;i<ln.size();i++) for(int k=0;k<3;k++){ std::string u; for(size_t j=0;j<ln.size();j++){ if(j==i&&k==0) continue; u+=ln[j]; if(j==i&&k==1) u+=ln[j]; if(j==i&&k==2) u+="# a comment 3 4\n"; } read_check(L,C,u,nullptr,nullptr); }
    const char*sub[]={"-1","-2","3","4","5","2","0","1","99","-7","1000000","1000001","2000000000","-2000000000","x","1.5","nan","-inf","1e-320"}; for(size_t i=6;i<t.size();i++) if(!isspace((unsigned char)t[i])&&isspace((unsigned char)t[i-1])){ size_t e=i; while(e<t.size()&&!isspace((unsigned char)t[e])) e++; for(const char*q:sub){ std::string u=t.substr(0,i)+q+t.substr(e); read_check(L,C,u,nullptr,nullptr); for(size_t i2=e;i2<t.size();i2++) if(T&&!isspace((unsigned char)t[i2])&&isspace((unsigned char)t[i2-1])){ size_t e2=i2; while(e2<t.size()&&!isspace((unsigned char)t[e2])) e2++; for(const char*q2:{"-1","2","9"}){ std::string w=t.substr(0,i)+q+t.substr(e,i2-e)+q2+t.substr(e2); read_check(L,C,w,nullptr,nullptr); } } } } plc_free(L); });
  mc_case("illegal arguments of the writer",[&]{ FILE*f=fopen(path().c_str(),"w"); octrope_strutfile_write(1,NULL,0,NULL,f); MC_CHECK(octrope_error_num!=0,"missing strut list"); octrope_strutfile_write(-1,s2.data(),0,NULL,f); MC_CHECK(octrope_error_num!=0,"negative strut count"); octrope_strutfile_write(0,NULL,2,NULL,f); MC_CHECK(octrope_error_num!=0,"missing location list"); octrope_strutfile_write(0,NULL,0,NULL,NULL); MC_CHECK(octrope_error_num!=0,"missing file"); octrope_strutfile_write(0,NULL,0,NULL,f); MC_CHECK(octrope_error_num==0,"empty lists"); fclose(f); mc_trans(5); });
}
