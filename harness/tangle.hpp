// All tangles of a diagram: simple closed curves in the sphere crossing distinct edges, as lists of interior darts.
#ifndef TANGLE_HPP
#define TANGLE_HPP
#include "pdmodel.hpp"
struct FaceMap{ VI face,pos; int n=0; };  // dart -> face to its left, and position on the face's boundary walk
static FaceMap face_map(const Dia&D){ FaceMap F; F.face.assign(4*D.n,-1); F.pos.assign(4*D.n,-1); for(int d=0;d<4*D.n;d++) if(F.face[d]<0){ int x=d,k=0; do{ F.face[x]=F.n; F.pos[x]=k++; x=d_cw(D.mate[x]); }while(x!=d); F.n++; } return F; }
// Curves are walked with the interior on the left: crossing the edge of interior dart x leads from face(mate(x)) to face(x).
// Every curve is reported once, starting at its smallest dart.
// boundary walk of a set of crossings, when that is a single closed curve
static VI region_walk(const Dia&D,const std::vector<char>&in){ FaceMap F=face_map(D); std::vector<VI> by(F.n); for(int d=0;d<4*D.n;d++){ auto&v=by[F.face[d]]; if((int)v.size()<=F.pos[d]) v.resize(F.pos[d]+1,-1); v[F.pos[d]]=d; } int nb=0,x0=-1; for(int d=0;d<4*D.n;d++) if(in[d/4]&&!in[D.mate[d]/4]){ nb++; if(x0<0) x0=d; } VI w; if(nb<2) return w; int x=x0; do{ w.push_back(x); if((int)w.size()>nb) return VI(); auto&v=by[F.face[x]]; size_t p=F.pos[x]; int y; do{ p=(p+1)%v.size(); y=v[p]; }while(in[y/4]||!in[D.mate[y]/4]); x=D.mate[y]; }while(x!=x0); if((int)w.size()!=nb) return VI(); return w; }
// growing discs around several crossings, every boundary of at least lo edges
static std::function<void(const Dia&,const std::function<void(const VI&)>&)> g_tangles;
static void disc_tangles(const Dia&D,int lo,int hi,int seeds,int cap,const std::function<void(const VI&)>&cb){ int done=0; std::set<VI> seen; for(int s=0;s<seeds&&s<D.n;s++){ std::vector<char> in(D.n,0); VI q{(s*D.n)/seeds}; in[q[0]]=1; std::vector<char> queued=in; std::fill(in.begin(),in.end(),0); for(size_t i=0;i<q.size();i++){ in[q[i]]=1; for(int p=0;p<4;p++){ int m=D.mate[4*q[i]+p]/4; if(!queued[m]){ queued[m]=1; q.push_back(m); } } for(int co=0;co<2;co++){ auto r=in; if(co) for(auto&b:r) b=!b; VI w=region_walk(D,r); if((int)w.size()<lo||(int)w.size()>hi||done>=cap) continue; auto k=w; std::sort(k.begin(),k.end()); if(!seen.insert(k).second) continue; done++; cb(w); } } } }
static void all_tangles(const Dia&D,int maxlen,const std::function<void(const VI&)>&cb){ if(g_tangles){ g_tangles(D,cb); return; } FaceMap F=face_map(D); VI walk; std::vector<char> used(4*D.n,0);
  auto inter=[&](int a,int b,int c,int d){ // chords a-b and c-d of one face interleave
    if(a>b) std::swap(a,b); bool x=c>a&&c<b,y=d>a&&d<b; return x!=y; };
  struct Ch{ int f,a,b; }; std::vector<Ch> ch; auto fits=[&](int f,int a,int b){ if(a==b) return false; for(auto&c:ch) if(c.f==f&&inter(c.a,c.b,a,b)) return false; return true; };
  std::vector<VI> byface(F.n); for(int d=0;d<4*D.n;d++) byface[F.face[d]].push_back(d);
  // leaving face f through the side of dart y (y has f on its left): the new interior dart is mate(y), whose left face is the next face
  std::function<void()> rec=[&]{ int x0=walk[0],xl=walk.back(); int f=F.face[xl]; if(F.face[D.mate[x0]]==f&&walk.size()>=2&&fits(f,F.pos[xl],F.pos[D.mate[x0]])) cb(walk); if((int)walk.size()>=maxlen) return;
    for(int y:byface[f]){ int x=D.mate[y]; if(x<x0||used[x]||used[y]||!fits(f,F.pos[xl],F.pos[y])) continue; ch.push_back({f,F.pos[xl],F.pos[y]}); used[x]=used[y]=1; walk.push_back(x); rec(); walk.pop_back(); used[x]=used[y]=0; ch.pop_back(); } };
  for(int x=0;x<4*D.n;x++){ walk={x}; used[x]=used[D.mate[x]]=1; rec(); used[x]=used[D.mate[x]]=0; } }
struct TangleModel{ std::set<int> cross; std::set<int> edge; std::vector<char> in; struct St{ int start,end,n,comp; }; std::vector<St> strand; };
// interior by flooding from the interior darts without passing the boundary
static bool tangle_model(const Dia&D,const VI&en,const VI&w,TangleModel&M){ M=TangleModel(); std::vector<char> cut(4*D.n,0); for(int x:w) cut[x]=cut[D.mate[x]]=1; VI st; std::vector<char> in(D.n,0); for(int x:w) if(!in[x/4]){ in[x/4]=1; st.push_back(x/4); } while(!st.empty()){ int c=st.back(); st.pop_back(); for(int p=0;p<4;p++) if(!cut[4*c+p]){ int m=D.mate[4*c+p]/4; if(!in[m]){ in[m]=1; st.push_back(m); } } }
  for(int x:w) if(in[D.mate[x]/4]) return false; for(int c=0;c<D.n;c++) if(in[c]){ M.cross.insert(c); for(int p=0;p<4;p++) if(!cut[4*c+p]) M.edge.insert(en[4*c+p]); }
  for(int x:w) M.in.push_back(!D.out[x]); for(size_t i=0;i<w.size();i++) if(M.in[i]){ int x=w[i],k=1; for(;;){ x=d_across(x); k++; auto it=std::find(w.begin(),w.end(),x); if(it!=w.end()){ M.strand.push_back({(int)i,(int)(it-w.begin()),k,D.comp[x]}); break; } x=D.mate[x]; } } return true; }
static pd_tangle_t*build_tangle(const pd_code_t*pd,const Dia&D,const VI&en,const VI&w,const std::vector<int>&dartface){ pd_tangle_t*t=pd_tangle_new(w.size()); for(size_t i=0;i<w.size();i++){ t->edge[i]=en[w[i]]; t->face[i]=dartface[D.mate[w[i]]]; } return t; }
// pd face number to the left of each dart
static VI pd_dartface(const pd_code_t*pd){ VI r(4*pd->ncross,-1); for(unsigned f=0;f<pd->nfaces;f++) for(unsigned i=0;i<pd->face[f].nedges;i++) r[face_dart(pd,f,i)]=f; return r; }
static VI pd_edges(const pd_code_t*pd){ VI en(4*pd->ncross); for(unsigned c=0;c<pd->ncross;c++) for(int p=0;p<4;p++) en[4*c+p]=pd->cross[c].edge[p]; return en; }
static std::string walk_str(const VI&en,const VI&w){ std::string s; for(int x:w) s+=mc_fmt("%d ",en[x]); return s; }
#endif
