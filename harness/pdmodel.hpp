// Reference operations on the dart model (see pdgen.hpp)
#ifndef PDMODEL_HPP
#define PDMODEL_HPP
#include "pdgen.hpp"
// Result of an operation that may disconnect the diagram: connected pieces with crossings and bare circles (by tag).
struct Pieces { std::vector<Dia> d; std::vector<char> circles; std::vector<int> piece_of_comp; };

// keep the crossings listed in keep (indices into D), mate map already spliced; components/tags/orientation inherited
static Dia dia_sub(const Dia&D,const VI&mate,const VI&keep){
  Dia E; E.n=keep.size(); VI idx(D.n,-1); for(int i=0;i<E.n;i++) idx[keep[i]]=i;
  E.mate.assign(4*E.n,-1); E.out.assign(4*E.n,0); E.comp.assign(4*E.n,-1); E.sign.resize(E.n);
  std::map<int,int> cm;
  for(int i=0;i<E.n;i++){ int c=keep[i]; E.sign[i]=D.sign[c]; for(int p=0;p<4;p++){ int d=4*c+p,m=mate[d]; E.mate[4*i+p]=4*idx[m/4]+m%4; E.out[4*i+p]=D.out[d]; int k=D.comp[d]; auto it=cm.find(k); if(it==cm.end()){ int q=cm.size(); cm[k]=q; } E.comp[4*i+p]=cm[k]; } }
  E.ncomp=cm.size(); E.tag.resize(E.ncomp); for(auto&q:cm) E.tag[q.second]=D.tag[q.first]; return E; }
// Remove crossings, each strand continuing straight through.
static Pieces dia_remove(const Dia&D,const std::vector<char>&rm){
  VI mate=D.mate; std::vector<char> compalive(D.ncomp,0);
  for(int d=0;d<4*D.n;d++) if(!rm[d/4]){ compalive[D.comp[d]]=1; int y=D.mate[d]; while(rm[y/4]) y=D.mate[d_across(y)]; mate[d]=y; }
  Pieces P; P.piece_of_comp.assign(D.ncomp,-1);
  for(int c=0;c<D.ncomp;c++) if(!compalive[c]) P.circles.push_back(D.tag[c]);
  std::vector<char> seen(D.n,0);
  for(int c=0;c<D.n;c++) if(!rm[c]&&!seen[c]){ VI keep,st{c}; seen[c]=1; while(!st.empty()){ int x=st.back(); st.pop_back(); keep.push_back(x); for(int p=0;p<4;p++){ int y=mate[4*x+p]/4; if(!seen[y]){ seen[y]=1; st.push_back(y);} } } std::sort(keep.begin(),keep.end());
    for(int k:keep) for(int p=0;p<4;p++) P.piece_of_comp[D.comp[4*k+p]]=P.d.size(); P.d.push_back(dia_sub(D,mate,keep)); }
  return P; }
// canonical multiset of the pieces
static std::string pieces_canon(const Pieces&P,int fl){ std::vector<std::string> v; for(auto&d:P.d) v.push_back(dia_canon(d,fl)); for(char t:P.circles){ std::string s="0"; if(fl&CF_TAG) s+=t; v.push_back(s);} std::sort(v.begin(),v.end()); std::string r; for(auto&s:v) r+=s+"/"; return r; }
static Poly pieces_homfly(const Pieces&P){ Poly d; d[{1,-1}]=-1; d[{-1,-1}]=-1; Poly r; r[{0,0}]=1; int k=0; for(auto&x:P.d){ r=p_mul(r,dia_homfly(x)); k++; } k+=P.circles.size(); for(int i=1;i<k;i++) r=p_mul(r,d); return r; }
// split edge with outgoing dart x by a new crossing region: helper to extend arrays
static int dia_addcross(Dia&D,int sign){ int c=D.n++; D.mate.resize(4*D.n,-1); D.out.resize(4*D.n,0); D.comp.resize(4*D.n,-1); D.sign.push_back(sign); return c; }
// R1: a curl on the edge leaving dart x (x outgoing), the monogon lying to the left (or right) of the edge.
static Dia m_r1add(const Dia&D0,int x,bool left,int sign){ Dia D=D0; int y=D.mate[x],k=D.comp[x]; int c=dia_addcross(D,sign);
  // enter at 0, leave straight at 2, come back at 1 or 3, leave opposite
  int back=left?3:1, fin=left?1:3; auto join=[&](int a,int b){ D.mate[a]=b; D.mate[b]=a; };
  join(x,4*c); join(4*c+2,4*c+back); join(4*c+fin,y); D.out[4*c]=0; D.out[4*c+2]=1; D.out[4*c+back]=0; D.out[4*c+fin]=1; for(int p=0;p<4;p++) D.comp[4*c+p]=k; return D; }
// R2: push the edges at darts a and b (face darts: both traverse the face with the face on their left) across each other inside the face.
static Dia m_r2add(const Dia&D0,int a,int b,int s0,int s1){ Dia D=D0; int A=D.mate[a],B=D.mate[b]; int c0=dia_addcross(D,s0),c1=dia_addcross(D,s1);
  // travelling along a the face is on the left; strand a is pushed left across b.  a meets c0 first.
  // b runs on the far side in the opposite direction, meets c1 first.
  // At c0: a enters south(0) leaves north(2). b, coming from c1 (which lies further along a, i.e. after the push), see below.
  // Place a running along the +x direction at the bottom, b along -x at the top; after the move a rises above b between c0 (left) and c1 (right).
  // c0 at the left: a comes from SW goes to NE; b comes from SE?  b travels -x: from c1 dips below: at c0 b goes from SE to NW.  ccw slots: SW=0, SE=1, NE=2, NW=3.
  // c1 at the right: a comes from NW goes to SE; b comes from NE goes to SW.
  auto join=[&](int p,int q){ D.mate[p]=q; D.mate[q]=p; };
  int sa=D.comp[a],sb=D.comp[b]; bool oa=D.out[a],ob=D.out[b];
  if(a==b) { abort(); }
  // original connections: a - A, b - B
  join(a,4*c0+0); join(4*c0+2,4*c1+3); join(4*c1+1,A);
  join(b,4*c1+2); join(4*c1+0,4*c0+1); join(4*c0+3,B);
  // orientations: 'oa' true when the strand runs along a's direction
  D.out[4*c0+0]=!oa; D.out[4*c0+2]=oa; D.out[4*c1+3]=!oa; D.out[4*c1+1]=oa;
  D.out[4*c1+2]=!ob; D.out[4*c1+0]=ob; D.out[4*c0+1]=!ob; D.out[4*c0+3]=ob;
  for(int p:{0,2}){ D.comp[4*c0+p]=sa; D.comp[4*c1+p]=sb; } for(int p:{1,3}){ D.comp[4*c0+p]=sb; D.comp[4*c1+p]=sa; }
  return D; }
// R3 on the triangular face whose boundary darts are t[0..2] (each leaves its crossing along the face)
static bool m_r3(const Dia&D,const int t[3],Dia&E){
  int c[3]={t[0]/4,t[1]/4,t[2]/4}; if(c[0]==c[1]||c[1]==c[2]||c[0]==c[2]) return false;
  E=D; // strand i runs t[i] -> mate(t[i]) between c[i] and c[i+1]; outer ends: across(t[i]) and across(mate)
  VI mate=D.mate; int P[3],Q[3]; for(int i=0;i<3;i++){ P[i]=t[i]; Q[i]=D.mate[t[i]]; }
  // new attachments: the outer edge formerly at across(P) attaches at Q's slot, the one at across(Q) at P's slot, and the inner edge joins across(P)-across(Q)
  std::map<int,int> newat; for(int i=0;i<3;i++){ newat[d_across(P[i])]=Q[i]; newat[d_across(Q[i])]=P[i]; }
  auto tr=[&](int d){ auto it=newat.find(d); return it==newat.end()?d:it->second; };
  std::set<int> inner; for(int i=0;i<3;i++){ inner.insert(P[i]); inner.insert(Q[i]); }
  for(int d=0;d<4*D.n;d++){ if(inner.count(d)) continue; int m=D.mate[d]; E.mate[tr(d)]=tr(m); }
  for(int i=0;i<3;i++){ int a=d_across(P[i]),b=d_across(Q[i]); E.mate[a]=b; E.mate[b]=a; }
  // orientation of slots: through-direction at each crossing is unchanged
  return true; }
static std::string dia_str(const Dia&D){ pd_code_t*pd=to_pd(D); std::string s=pd_str(pd); pd_code_free(&pd); return s; }
// dart of face position: face f, position i of pd -> dart at which the boundary walk leaves
static int face_dart(const pd_code_t*pd,int f,int i){ unsigned e=pd->face[f].edge[i]; return pd->face[f].orient[i]==PD_POS_ORIENTATION? 4*pd->edge[e].tail+pd->edge[e].tailpos : 4*pd->edge[e].head+pd->edge[e].headpos; }
#endif
