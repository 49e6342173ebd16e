// Exact projection of an integer polygon to a diagram.
#ifndef GEOM_HPP
#define GEOM_HPP
#include "pdmodel.hpp"
typedef long long LL; typedef __int128 I128;
struct P3{ LL x,y,z; };
typedef std::vector<std::vector<P3>> Poly3;
struct Proj{ bool generic=false; std::string why; Dia D; int bare=0; bool connected=false; };   // bare: components without crossings
static P3 shear(P3 p,LL s,LL a,LL b){ return {s*p.x+a*p.z,s*p.y+b*p.z,s*p.z}; }
static Proj project(const Poly3&L){ Proj R; struct X{ int c[2],e[2]; I128 num[2]; I128 den; bool aover; int sign; }; std::vector<X> xs;
  auto cr=[](LL ax,LL ay,LL bx,LL by){ return (I128)ax*by-(I128)ay*bx; };
  for(int ca=0;ca<(int)L.size();ca++) for(int cb=ca;cb<(int)L.size();cb++) for(int i=0;i<(int)L[ca].size();i++) for(int j=(ca==cb?i+1:0);j<(int)L[cb].size();j++){ int na=L[ca].size(),nb=L[cb].size(); P3 a=L[ca][i],b=L[ca][(i+1)%na],c=L[cb][j],d=L[cb][(j+1)%nb]; if(a.x==b.x&&a.y==b.y){ R.why="vertical edge"; return R; } bool adj=ca==cb&&(j==i+1||(i==0&&j==na-1)); if(adj){ if(na<3) { R.why="digon"; return R; } P3 m=j==i+1?b:a,u=j==i+1?a:b,v=j==i+1?d:c; I128 k=cr(u.x-m.x,u.y-m.y,v.x-m.x,v.y-m.y); if(k==0){ I128 dot=(I128)(u.x-m.x)*(v.x-m.x)+(I128)(u.y-m.y)*(v.y-m.y); if(dot>0){ R.why="fold"; return R; } } continue; }
      I128 s1=cr(b.x-a.x,b.y-a.y,c.x-a.x,c.y-a.y),s2=cr(b.x-a.x,b.y-a.y,d.x-a.x,d.y-a.y),s3=cr(d.x-c.x,d.y-c.y,a.x-c.x,a.y-c.y),s4=cr(d.x-c.x,d.y-c.y,b.x-c.x,b.y-c.y); auto sg=[](I128 v){ return (v>0)-(v<0); }; int p=sg(s1)*sg(s2),q=sg(s3)*sg(s4); if(p>0||q>0) continue; if(p==0||q==0){ if(sg(s1)==0&&sg(s2)==0){ // parallel on one line: overlap?
            auto key=[&](P3 t){ return (I128)t.x*(b.x-a.x)+(I128)t.y*(b.y-a.y); }; I128 a0=key(a),b0=key(b),c0=key(c),d0=key(d); if(std::max(c0,d0)<a0||std::min(c0,d0)>b0) continue; } R.why="vertex on an edge"; return R; }
      X x; x.c[0]=ca; x.c[1]=cb; x.e[0]=i; x.e[1]=j; // a + t(b-a) = c + u(d-c)
      I128 den=cr(b.x-a.x,b.y-a.y,d.x-c.x,d.y-c.y); I128 t=cr(c.x-a.x,c.y-a.y,d.x-c.x,d.y-c.y),u=cr(c.x-a.x,c.y-a.y,b.x-a.x,b.y-a.y); int sgn=den>0?1:-1; if(den<0){ den=-den; t=-t; u=-u; } x.num[0]=t; x.num[1]=u; x.den=den; I128 ha=(I128)a.z*den+t*(b.z-a.z),hb=(I128)c.z*den+u*(d.z-c.z); if(ha==hb){ R.why="curve meets itself"; return R; } x.aover=ha>hb; x.sign=x.aover?sgn:-sgn; xs.push_back(x); }
  struct Ev{ int e; I128 num,den; int x,w; }; std::vector<std::vector<Ev>> ev(L.size()); for(int k=0;k<(int)xs.size();k++) for(int w=0;w<2;w++) ev[xs[k].c[w]].push_back({xs[k].e[w],xs[k].num[w],xs[k].den,k,w});
  Dia&D=R.D; D.n=xs.size(); D.mate.assign(4*D.n,-1); D.out.assign(4*D.n,0); D.comp.assign(4*D.n,0); D.sign.assign(D.n,0); D.ncomp=0; for(int k=0;k<D.n;k++) D.sign[k]=xs[k].sign>0?PD_POS_ORIENTATION:PD_NEG_ORIENTATION;
  auto slot=[&](int x,int w,bool out){ bool over=(w==0)==xs[x].aover; if(!over) return 4*x+(out?2:0); return 4*x+((xs[x].sign>0)==out?1:3); };
  D.tag.clear(); for(int c=0;c<(int)L.size();c++){ auto&v=ev[c]; std::sort(v.begin(),v.end(),[](const Ev&a,const Ev&b){ if(a.e!=b.e) return a.e<b.e; return a.num*b.den<b.num*a.den; }); for(size_t i=1;i<v.size();i++) if(v[i].e==v[i-1].e&&v[i].num*v[i-1].den==v[i-1].num*v[i].den){ R.why="triple point"; return R; } if(v.empty()){ R.bare++; continue; } for(size_t i=0;i<v.size();i++){ auto&a=v[i],&b=v[(i+1)%v.size()]; int o=slot(a.x,a.w,true),h=slot(b.x,b.w,false); D.mate[o]=h; D.mate[h]=o; D.out[o]=1; D.out[h]=0; D.comp[o]=D.comp[h]=D.ncomp; } D.ncomp++; D.tag.push_back('A'+c); }
  R.generic=true; R.connected=dia_connected(D); return R; }
static plCurve*to_plc(const Poly3&L,double scale=1){ int nc=L.size(); std::vector<int> nv(nc),cc(nc,0); std::vector<char> o(nc,0); for(int c=0;c<nc;c++) nv[c]=L[c].size(); std::vector<bool> dummy; bool*op=new bool[nc]; for(int c=0;c<nc;c++) op[c]=false; plCurve*P=plc_new(nc,nv.data(),op,cc.data()); for(int c=0;c<nc;c++) for(int v=0;v<nv[c];v++) P->cp[c].vt[v]=plc_build_vect(L[c][v].x*scale,L[c][v].y*scale,L[c][v].z*scale); plc_fix_wrap(P); delete[] op; return P; }
static std::string p3_str(const Poly3&L){ std::string s; for(auto&c:L){ s+="{"; for(auto&p:c) s+=mc_fmt("(%lld %lld %lld)",p.x,p.y,p.z); s+="}"; } return s; }
// a generic view of the same curve in space: the exact link type
static bool generic_view(const Poly3&L,Proj&R){ static const int ab[][2]={{0,0},{7,11},{-13,5},{17,-23},{-29,-31},{3,41}}; for(auto&s:ab){ Poly3 M=L; for(auto&c:M) for(auto&p:c) p=shear(p,1009,s[0],s[1]); R=project(M); if(R.generic) return true; } return false; }
static Poly proj_homfly(const Proj&R){ // caller keeps diagrams small
  Pieces P; if(R.D.n) P=dia_remove(R.D,std::vector<char>(R.D.n,0)); for(int i=0;i<R.bare;i++) P.circles.push_back('A'); return pieces_homfly(P); }
#endif
