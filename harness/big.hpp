// Large structured diagrams (closed braids), far above the exhaustively enumerated sizes: many crossings, many components, faces of many sides, long components.
#ifndef BIG_HPP
#define BIG_HPP
#include "pdmodel.hpp"
// closure of a braid word on k strands (generators 0..k-2, every one used), all strands running the same way
static Dia braid_closure(int k,const VI&w){ Dia D; D.n=w.size(); D.mate.assign(4*D.n,-1); D.sign.assign(D.n,PD_UNSET_ORIENTATION);
  auto jn=[&](int a,int b){ D.mate[a]=b; D.mate[b]=a; }; VI last(k,-1),first(k,-1); // darts ccw: 0=SW 1=SE 2=NE 3=NW
  for(int c=0;c<D.n;c++){ int i=w[c]; auto in=[&](int pos,int d){ if(last[pos]<0) first[pos]=d; else jn(last[pos],d); }; in(i,4*c+0); in(i+1,4*c+3); last[i]=4*c+1; last[i+1]=4*c+2; }
  for(int p=0;p<k;p++) jn(last[p],first[p]); dia_components(D); for(int d=0;d<4*D.n;d++) D.out[d]=(d%4==1||d%4==2); for(int i=0;i<D.ncomp;i++) D.tag[i]=i<26?'A'+i:'a'+i-26; if(!dia_planar(D)) abort(); return D; }
struct Big { std::string name; Dia D; };
// one braid closure under several decorations
static void big_decorate(std::vector<Big>&V,const std::string&nm,const Dia&D,const VI&gen,int mask){
  for(int v=0;v<5;v++) if(mask>>v&1){ Dia E=D; int n=E.n;
    if(v==0) for(int i=0;i<n;i++) E.sign[i]=gen[i]%2;                                                     // alternating
    if(v==2) for(int i=0;i<n;i++) E.sign[i]=i%3;                                                          // signs partly unset
    if(v==3){ for(int i=0;i<n;i++) E.sign[i]=i*7%5%2; for(int c=0;c<E.ncomp;c++) if(c%3!=1) dia_reverse(E,c); }
    if(v==4){ for(int i=0;i<n;i++) E.sign[i]=(i/2)%2; int m=0; for(int d0=0;d0<4*n&&m<4;d0+=1+n/2){ int d=d0; while(!E.out[d]) d=(d+1)%(4*n); E=m_r1add(E,d,m%2,m/2%2); m++; } for(int c=0;c<E.ncomp;c++) E.tag[c]=E.tag[c]<='Z'?'Z'-(E.tag[c]-'A'):E.tag[c]; }
    V.push_back({mc_fmt("%s variant %d (%d crossings, %d components)",nm.c_str(),v,E.n,E.ncomp),E}); } }
// level 0: 8..24 crossings; 1: also the larger ones
static std::vector<Big> big_diagrams(int level,int mask=31){ std::vector<Big> V;
  auto add=[&](const std::string&nm,int k,const VI&w){ big_decorate(V,nm,braid_closure(k,w),w,mask); };
  auto torus=[&](int k,int p){ VI w; for(int i=0;i<p;i++) for(int j=0;j+1<k;j++) w.push_back(j); add(mc_fmt("braid (1..%d)^%d",k-1,p),k,w); };
  auto pure=[&](int k,int p){ VI w; for(int i=0;i<p;i++) for(int j=0;j+1<k;j++){ w.push_back(j); w.push_back(j); } add(mc_fmt("pure braid (11..%d%d)^%d",k-1,k-1,p),k,w); };
  auto up=[&](int k){ VI w; for(int j=0;j+1<k;j++) for(int r=0;r<=j%3;r++) w.push_back(j); for(int j=k-3;j>=0;j--) w.push_back(j); add(mc_fmt("braid up and down on %d strands",k),k,w); };
  torus(2,9); torus(3,4); torus(3,7); torus(4,3); torus(5,4); pure(5,1); pure(3,3); up(4); up(6);
  if(level>=1){ torus(2,24); torus(4,8); torus(6,5); torus(7,6); pure(12,1); pure(4,5); up(9); pure(28,1); }
  if(level>=2){ torus(9,8); torus(3,30); pure(6,6); pure(20,2); up(20); }
  return V; }
#endif
