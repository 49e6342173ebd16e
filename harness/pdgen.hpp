// Independent model of link diagrams: a 4-valent planar map given by darts (4*crossing+position, ccw),
// with orientations, crossing signs and component tags.  Generators, validator, canonical forms, oracles.
#ifndef PDGEN_HPP
#define PDGEN_HPP
#include "mc.h"
#include <array>
#include <numeric>
extern "C" {
#include "plCurve.h"
#include "plcTopology.h"
}
typedef std::vector<int> VI;

struct Dia {
  int n=0;                       // crossings
  VI mate;                       // dart -> dart at the other end of the edge
  std::vector<char> out;         // dart -> 1 when the strand leaves the crossing through it
  VI sign;                       // PD_POS/NEG/UNSET per crossing
  VI comp;                       // dart -> component
  std::vector<char> tag;         // component -> tag
  int ncomp=0;
};

static inline int d_across(int d){ return (d&~3)|((d+2)&3); }
static inline int d_ccw(int d){ return (d&~3)|((d+1)&3); }
static inline int d_cw(int d){ return (d&~3)|((d+3)&3); }

// components + default orientation (each component leaves through its lowest dart)
static void dia_components(Dia &D){
  int N=4*D.n; D.comp.assign(N,-1); D.out.assign(N,0); D.ncomp=0; 
  for(int d=0;d<N;d++) if(D.comp[d]<0){ int c=D.ncomp++; int x=d;
    do{ D.comp[x]=c; D.out[x]=1; int y=D.mate[x]; D.comp[y]=c; D.out[y]=0; x=d_across(y);}while(x!=d); }
  D.tag.resize(D.ncomp); for(int i=0;i<D.ncomp;i++) D.tag[i]='A'+i;
  if(D.n==0){ D.ncomp=1; D.tag.assign(1,'A'); }
}
static void dia_reverse(Dia &D,int c){ for(int d=0;d<4*D.n;d++) if(D.comp[d]==c) D.out[d]^=1; }

static bool dia_connected(const Dia&D){ if(D.n==0) return true; VI st{0}; std::vector<char> s(D.n,0); s[0]=1; int k=1;
  while(!st.empty()){int c=st.back();st.pop_back(); for(int p=0;p<4;p++){int e=D.mate[4*c+p]/4; if(!s[e]){s[e]=1;k++;st.push_back(e);}}} return k==D.n; }
static int dia_nfaces(const Dia&D){ if(D.n==0) return 2; std::vector<char> s(4*D.n,0); int f=0; for(int d=0;d<4*D.n;d++) if(!s[d]){ f++; int x=d; do{ s[x]=1; x=d_cw(D.mate[x]); }while(x!=d);} return f; }
static bool dia_planar(const Dia&D){ return dia_connected(D) && dia_nfaces(D)==D.n+2; }

// --- canonical form -------------------------------------------------------------------------
enum { CF_REFLECT=1, CF_ORIENT=2, CF_SIGN=4, CF_TAG=8, CF_REVALL=16 /*orientations up to reversing everything*/ };
static std::string dia_code(const Dia&D,int root,bool refl,int fl,const std::string*best){
  int N=4*D.n; static thread_local VI lab,first,order; lab.assign(D.n,-1); first.assign(D.n,-1); order.clear();
  auto step=[&](int d){ return refl? d_cw(d): d_ccw(d); };
  lab[root/4]=0; first[root/4]=root; order.push_back(root/4);
  std::string s; s.reserve(N*2+D.n*2);
  std::map<int,int> tagseen;
  for(size_t i=0;i<order.size();i++){ int c=order[i]; int d=first[c];
    if(fl&CF_SIGN) s+=(char)('0'+D.sign[c]);
    for(int k=0;k<4;k++,d=step(d)){ int m=D.mate[d]; int e=m/4;
      if(lab[e]<0){ lab[e]=(int)order.size(); first[e]=m; order.push_back(e); }
      int k2=0; int x=first[e]; while(x!=m){ x=step(x); k2++; }
      s+=(char)(33+lab[e]); s+=(char)('0'+k2);
      if(fl&CF_ORIENT) s+=(D.out[d]?'o':'i');
      if(fl&CF_TAG) s+=D.tag[D.comp[d]];
    }
    if(best && !best->empty() && s.size()<=best->size()){ int r=s.compare(0,s.size(),*best,0,s.size()); if(r>0) return std::string(); }
  }
  (void)N; return s;
}
static std::string dia_canon(const Dia&D,int fl){
  if(D.n==0){ std::string s="0"; if(fl&CF_TAG) s+=D.tag[0]; return s; }
  std::string best;
  for(int r=0;r<4*D.n;r++) for(int m=0;m<=((fl&CF_REFLECT)?1:0);m++){
    std::string s=dia_code(D,r,m,fl,&best); if(!s.empty() && (best.empty()||s<best)) best=s; }
  return best;
}
// Number of automorphisms (of the structure selected by fl)
static int dia_autos(const Dia&D,int fl){ std::string b=dia_canon(D,fl); int k=0; for(int r=0;r<4*D.n;r++) for(int m=0;m<=((fl&CF_REFLECT)?1:0);m++) if(dia_code(D,r,m,fl,nullptr)==b) k++; return k; }

// --- generator: all rooted connected 4-regular planar maps by boundary matching ---------------------
static void gen_rooted_rec(int n,int used,std::vector<VI> &regions,VI &mate,std::function<void(const VI&)> &cb){
  while(!regions.empty() && regions.back().empty()) regions.pop_back();
  if(regions.empty()){ if(used==n) cb(mate); return; }
  VI cur=regions.back();
  auto saved=regions;
  int d=cur[0];
  for(size_t j=1;j<cur.size();j++){            // match with another open dart of the region
    if((j-1)&1) continue;
    regions=saved; regions.pop_back();
    regions.push_back(VI(cur.begin()+j+1,cur.end())); regions.push_back(VI(cur.begin()+1,cur.begin()+j));
    mate[d]=cur[j]; mate[cur[j]]=d; gen_rooted_rec(n,used,regions,mate,cb);
    mate[d]=mate[cur[j]]=-1;
  }
  if(used<n){                                 // attach a new crossing
    int c=used; regions=saved; regions.pop_back();
    // open darts are listed so that the region lies between consecutive entries; the new crossing's
    // remaining darts appear in the order that keeps the embedding planar
    VI nr{4*c+1,4*c+2,4*c+3}; nr.insert(nr.end(),cur.begin()+1,cur.end());
    mate[d]=4*c; mate[4*c]=d; regions.push_back(nr);
    gen_rooted_rec(n,used+1,regions,mate,cb); mate[d]=mate[4*c]=-1;
  }
  regions=saved;
}
static void gen_rooted(int n,std::function<void(const VI&)> cb){
  VI mate(4*n,-1); std::vector<VI> reg{VI{0,1,2,3}};
  gen_rooted_rec(n,1,reg,mate,cb);
}
// Unrooted maps; fl=0: up to orientation-preserving equivalence; CF_REFLECT: up to reflection too.
static const std::vector<Dia>& gen_maps(int n,int fl=0){
  static std::map<std::pair<int,int>,std::vector<Dia>> memo; auto key=std::make_pair(n,fl); auto it=memo.find(key); if(it!=memo.end()) return it->second;
  std::vector<Dia>&v=memo[key];
  if(n==0){ Dia D; dia_components(D); v.push_back(D); return v; }
  std::set<std::string> seen;
  gen_rooted(n,[&](const VI&m){ Dia D; D.n=n; D.mate=m; D.sign.assign(n,PD_UNSET_ORIENTATION); std::string c=dia_canon(D,fl); if(seen.insert(c).second){ dia_components(D); v.push_back(D);} });
  return v;
}

// --- model -> pd_code_t ------------------------------------------------------------------------
// Labelling: order of components (must list longest first unless anyorder) and starting dart per component.
struct Lab { VI order; VI start; };
static VI dia_comp_len(const Dia&D){ VI l(D.ncomp,0); for(int d=0;d<4*D.n;d++) if(D.out[d]) l[D.comp[d]]++; return l; }
static Lab default_lab(const Dia&D){
  Lab L; L.order.resize(D.ncomp); std::iota(L.order.begin(),L.order.end(),0); VI len=dia_comp_len(D);
  std::stable_sort(L.order.begin(),L.order.end(),[&](int a,int b){return len[a]>len[b];});
  L.start.assign(D.ncomp,-1); for(int d=4*D.n-1;d>=0;d--) if(D.out[d]) L.start[D.comp[d]]=d; return L; }
// All labellings: permutations of equal-length components x starting edges
static void all_labs(const Dia&D,std::function<void(const Lab&)> cb){
  VI len=dia_comp_len(D); Lab L=default_lab(D); if(D.n==0){ cb(L); return; }
  std::vector<VI> starts(D.ncomp); for(int d=0;d<4*D.n;d++) if(D.out[d]) starts[D.comp[d]].push_back(d);
  VI ord=L.order; std::sort(ord.begin(),ord.end(),[&](int a,int b){return len[a]!=len[b]?len[a]>len[b]:a<b;});
  std::function<void(int,VI&,std::vector<char>&)> perm=[&](int i,VI&o,std::vector<char>&used){
    if(i==D.ncomp){ std::function<void(int)> st=[&](int c){ if(c==D.ncomp){ L.order=o; cb(L); return; } for(int s:starts[c]){ L.start[c]=s; st(c+1);} }; st(0); return; }
    for(int c:ord) if(!used[c] && len[c]==len[ord[i]]){ used[c]=1; o[i]=c; perm(i+1,o,used); used[c]=0; } };
  VI o(D.ncomp); std::vector<char> u(D.ncomp,0); perm(0,o,u);
}
// edge number of every dart under a labelling
static VI lab_edges(const Dia&D,const Lab&L){ VI en(4*D.n,-1); int k=0; for(int c:L.order){ int s=L.start[c],x=s; do{ en[x]=k; en[D.mate[x]]=k; k++; x=d_across(D.mate[x]); }while(x!=s);} return en; }

static pd_code_t *alloc_pd(int maxverts){ return pd_code_new(maxverts); }
static pd_code_t *to_pd(const Dia&D,const Lab&L,int slack=0,pd_uid_t uid=PD_UNSET_UID){
  pd_code_t *pd=alloc_pd(std::max(D.n,1)+slack);
  pd->uid=uid; pd->ncross=D.n;
  if(D.n==0){
    pd->nedges=1; pd->ncomps=1; pd->nfaces=2;
    pd->edge[0].head=pd->edge[0].tail=PD_UNSET_IDX; pd->edge[0].headpos=pd->edge[0].tailpos=PD_UNSET_POS;
    pd->comp[0].nedges=1; pd->comp[0].edge=(pd_idx_t*)calloc(1,sizeof(pd_idx_t)); pd->comp[0].tag=D.tag[0];
    for(int f=0;f<2;f++){ pd->face[f].nedges=1; pd->face[f].edge=(pd_idx_t*)calloc(1,sizeof(pd_idx_t)); pd->face[f].orient=(pd_or_t*)calloc(1,sizeof(pd_or_t)); pd->face[f].orient[0]=f==0?PD_POS_ORIENTATION:PD_NEG_ORIENTATION; }
    pd_regenerate_hash(pd); return pd;
  }
  VI en=lab_edges(D,L); pd->nedges=2*D.n; pd->ncomps=D.ncomp;
  // crossings
  std::vector<std::array<int,6>> cr; // e0..e3, crossing, first dart pos
  for(int c=0;c<D.n;c++){ int lo=0; for(int p=1;p<4;p++) if(en[4*c+p]<en[4*c+lo]) lo=p; if(en[4*c+(lo+3)%4]==en[4*c+lo]) lo=(lo+3)%4;
    cr.push_back({en[4*c+lo],en[4*c+(lo+1)%4],en[4*c+(lo+2)%4],en[4*c+(lo+3)%4],c,lo}); }
  std::sort(cr.begin(),cr.end());
  VI newc(D.n),rot(D.n);
  for(int i=0;i<D.n;i++){ newc[cr[i][4]]=i; rot[cr[i][4]]=cr[i][5]; for(int p=0;p<4;p++) pd->cross[i].edge[p]=cr[i][p]; pd->cross[i].sign=D.sign[cr[i][4]]; }
  for(int d=0;d<4*D.n;d++){ int c=d/4,p=(d%4-rot[c]+4)%4; pd_edge_t*e=&pd->edge[en[d]]; if(D.out[d]){ e->tail=newc[c]; e->tailpos=p; } else { e->head=newc[c]; e->headpos=p; } }
  int k=0,ci=0; VI len=dia_comp_len(D);
  for(int c:L.order){ pd_component_t*C=&pd->comp[ci++]; C->nedges=len[c]; C->edge=(pd_idx_t*)calloc(len[c],sizeof(pd_idx_t)); for(int i=0;i<len[c];i++) C->edge[i]=k++; C->tag=D.tag[c]; }
  // faces: leave dart x along its edge, arrive at mate, turn left: next dart = cw neighbour (next_pos+1 == headpos)
  struct F{ VI e; std::vector<int> o; }; std::vector<F> fs; std::vector<char> seen(4*D.n,0);
  for(int d=0;d<4*D.n;d++) if(!seen[d]){ F f; int x=d; do{ seen[x]=1; f.e.push_back(en[x]); f.o.push_back(D.out[x]?PD_POS_ORIENTATION:PD_NEG_ORIENTATION); x=d_cw(D.mate[x]); }while(x!=d);
    int lo=std::min_element(f.e.begin(),f.e.end())-f.e.begin(); std::rotate(f.e.begin(),f.e.begin()+lo,f.e.end()); std::rotate(f.o.begin(),f.o.begin()+lo,f.o.end()); fs.push_back(f); }
  std::stable_sort(fs.begin(),fs.end(),[](const F&a,const F&b){ if(a.e.size()!=b.e.size()) return a.e.size()>b.e.size(); return a.e<b.e; });
  pd->nfaces=fs.size();
  for(size_t i=0;i<fs.size();i++){ pd_face_t*f=&pd->face[i]; f->nedges=fs[i].e.size(); f->edge=(pd_idx_t*)calloc(f->nedges,sizeof(pd_idx_t)); f->orient=(pd_or_t*)calloc(f->nedges,sizeof(pd_or_t)); for(size_t j=0;j<fs[i].e.size();j++){ f->edge[j]=fs[i].e[j]; f->orient[j]=fs[i].o[j]; } }
  pd_regenerate_hash(pd);
  return pd;
}
static pd_code_t *to_pd(const Dia&D){ return to_pd(D,default_lab(D)); }

// --- validator: the complete meaning of "a valid diagram", written from the header's documentation --------
static std::string pd_str(const pd_code_t*pd);
static bool pd_valid(const pd_code_t*pd,std::string&why){
  if(!pd){ why="NULL diagram"; return false; }
  if(pd->ncross>pd->MAXVERTS||pd->nedges>pd->MAXEDGES||pd->ncomps>pd->MAXCOMPONENTS||pd->nfaces>pd->MAXFACES){ why="counts exceed capacity"; return false; }
  if(pd->ncross==0){
    if(pd->nedges!=1||pd->ncomps!=1||pd->nfaces!=2){ why="bad 0-crossing counts"; return false; }
    const pd_edge_t&e=pd->edge[0]; if(e.head!=PD_UNSET_IDX||e.tail!=PD_UNSET_IDX||e.headpos!=PD_UNSET_POS||e.tailpos!=PD_UNSET_POS){ why="0-crossing edge is attached"; return false; }
    if(pd->comp[0].nedges!=1||!pd->comp[0].edge||pd->comp[0].edge[0]!=0){ why="0-crossing component"; return false; }
    for(int f=0;f<2;f++) if(pd->face[f].nedges!=1||!pd->face[f].edge||pd->face[f].edge[0]!=0){ why="0-crossing face"; return false; }
    return true;
  }
  if(pd->nedges!=2*pd->ncross){ why="nedges != 2 ncross"; return false; }
  if(pd->nfaces!=pd->ncross+2){ why=mc_fmt("nfaces %u != ncross+2 %u",pd->nfaces,pd->ncross+2); return false; }
  unsigned n=pd->ncross; std::vector<int> cnt(pd->nedges,0), slot(4*n,0);
  for(unsigned c=0;c<n;c++){ const pd_crossing_t&x=pd->cross[c]; if(x.sign>2){ why="illegal sign"; return false; } for(int p=0;p<4;p++){ if(x.edge[p]>=pd->nedges){ why=mc_fmt("crossing %u has edge %u",c,x.edge[p]); return false; } cnt[x.edge[p]]++; } 
    for(int p=1;p<4;p++) if(x.edge[p]<x.edge[0]){ why=mc_fmt("crossing %u not rotated lowest edge first",c); return false; }
    if(c){ for(int p=0;p<4;p++){ if(x.edge[p]>pd->cross[c-1].edge[p]) break; if(x.edge[p]<pd->cross[c-1].edge[p]){ why="crossings not sorted"; return false; } } } }
  for(unsigned e=0;e<pd->nedges;e++){ if(cnt[e]!=2){ why=mc_fmt("edge %u occurs %d times",e,cnt[e]); return false; }
    const pd_edge_t&E=pd->edge[e]; if(E.head>=n||E.tail>=n||E.headpos>3||E.tailpos>3){ why=mc_fmt("edge %u out of range",e); return false; }
    if(pd->cross[E.head].edge[E.headpos]!=e||pd->cross[E.tail].edge[E.tailpos]!=e){ why=mc_fmt("edge %u not at its ends",e); return false; }
    slot[4*E.head+E.headpos]++; slot[4*E.tail+E.tailpos]++; }
  for(unsigned i=0;i<4*n;i++) if(slot[i]!=1){ why="a crossing slot has not exactly one edge end"; return false; }
  unsigned k=0; std::set<int> tags;
  for(unsigned c=0;c<pd->ncomps;c++){ const pd_component_t&C=pd->comp[c]; if(C.nedges==0||!C.edge){ why="empty component"; return false; }
    for(unsigned i=0;i<C.nedges;i++){ if(C.edge[i]!=k++){ why=mc_fmt("component %u edges not consecutive",c); return false; }
      if(C.edge[i]>=pd->nedges){ why="component edge range"; return false; }
      const pd_edge_t&a=pd->edge[C.edge[i]]; unsigned nx=C.edge[(i+1)%C.nedges]; if(nx>=pd->nedges){ why="component edge range"; return false; } const pd_edge_t&b=pd->edge[nx];
      if(a.head!=b.tail||(a.headpos+2)%4!=b.tailpos){ why=mc_fmt("component %u edge %u not followed straight through",c,i); return false; } }
    if(C.tag<'A'){ why=mc_fmt("component %u tag %d",c,C.tag); return false; } if(!tags.insert(C.tag).second){ why="duplicate tag"; return false; } }
  if(k!=pd->nedges){ why="components do not cover the edges"; return false; }
  std::vector<std::array<int,2>> side(pd->nedges,{0,0});
  for(unsigned f=0;f<pd->nfaces;f++){ const pd_face_t&F=pd->face[f]; if(F.nedges==0||!F.edge||!F.orient){ why="empty face"; return false; }
    for(unsigned i=0;i<F.nedges;i++){ unsigned e=F.edge[i],g=F.edge[(i+1)%F.nedges]; if(e>=pd->nedges||g>=pd->nedges||F.orient[i]>1){ why="face edge range"; return false; }
      unsigned h,hp,t,tp; const pd_edge_t&E=pd->edge[e],&G=pd->edge[g];
      if(F.orient[i]==PD_POS_ORIENTATION){h=E.head;hp=E.headpos;}else{h=E.tail;hp=E.tailpos;}
      if(F.orient[(i+1)%F.nedges]==PD_POS_ORIENTATION){t=G.tail;tp=G.tailpos;}else{t=G.head;tp=G.headpos;}
      if(h!=t||(tp+1)%4!=hp){ why=mc_fmt("face %u is not a left-turn walk at %u",f,i); return false; }
      side[e][F.orient[i]]++; if(e<F.edge[0]){ why="face not rotated lowest first"; return false; } }
    if(f){ const pd_face_t&P=pd->face[f-1]; if(P.nedges<F.nedges){ why="faces not largest first"; return false; } if(P.nedges==F.nedges) for(unsigned i=0;i<F.nedges;i++){ if(P.edge[i]<F.edge[i]) break; if(P.edge[i]>F.edge[i]){ why="faces not sorted"; return false; } } } }
  for(unsigned e=0;e<pd->nedges;e++) if(side[e][0]!=1||side[e][1]!=1){ why=mc_fmt("edge %u is not on exactly two face sides",e); return false; }
  // connected
  { std::vector<char> s(n,0); std::vector<unsigned> st{0}; s[0]=1; unsigned k2=1; while(!st.empty()){ unsigned c=st.back(); st.pop_back(); for(int p=0;p<4;p++){ const pd_edge_t&E=pd->edge[pd->cross[c].edge[p]]; for(unsigned v:{E.head,E.tail}) if(!s[v]){ s[v]=1;k2++;st.push_back(v);} } } if(k2!=n){ why="diagram is disconnected"; return false; } }
  return true;
}
static std::string pd_str(const pd_code_t*pd){
  if(!pd) return "NULL"; std::string s=mc_fmt("n%u[",pd->ncross); unsigned n=std::min(pd->ncross,40u);
  for(unsigned c=0;c<n;c++){ s+=mc_fmt("%s%u.%u.%u.%u%c",c?" ":"",pd->cross[c].edge[0],pd->cross[c].edge[1],pd->cross[c].edge[2],pd->cross[c].edge[3],pd->cross[c].sign==1?'+':pd->cross[c].sign==0?'-':pd->cross[c].sign==2?'u':'?'); }
  s+="|"; for(unsigned e=0;e<std::min(pd->nedges,80u);e++) s+=mc_fmt("%s%d.%d>%d.%d",e?" ":"",(int)pd->edge[e].tail,(int)pd->edge[e].tailpos,(int)pd->edge[e].head,(int)pd->edge[e].headpos);
  s+="|"; for(unsigned c=0;c<std::min(pd->ncomps,40u);c++) s+=mc_fmt("%s%c%u",c?" ":"",pd->comp[c].tag>32?pd->comp[c].tag:'?',pd->comp[c].nedges);
  return s+"]"; }
// complete content, for "unmodified" comparisons
static std::string pd_dump(const pd_code_t*pd,bool withhash=true){
  std::string s=mc_fmt("uid%lu n%u e%u c%u f%u ",pd->uid,pd->ncross,pd->nedges,pd->ncomps,pd->nfaces); if(withhash) s+=std::string(pd->hash,strnlen(pd->hash,PD_HASHSIZE));
  for(unsigned c=0;c<pd->ncross;c++) s+=mc_fmt("X%u,%u,%u,%u,%d",pd->cross[c].edge[0],pd->cross[c].edge[1],pd->cross[c].edge[2],pd->cross[c].edge[3],pd->cross[c].sign);
  for(unsigned e=0;e<pd->nedges;e++) s+=mc_fmt("E%u,%u,%u,%u",pd->edge[e].head,pd->edge[e].headpos,pd->edge[e].tail,pd->edge[e].tailpos);
  for(unsigned c=0;c<pd->ncomps;c++){ s+=mc_fmt("C%d:",pd->comp[c].tag); for(unsigned i=0;i<pd->comp[c].nedges;i++) s+=mc_fmt("%u,",pd->comp[c].edge[i]); }
  for(unsigned f=0;f<pd->nfaces;f++){ s+="F"; for(unsigned i=0;i<pd->face[f].nedges;i++) s+=mc_fmt("%u/%d,",pd->face[f].edge[i],pd->ncross?pd->face[f].orient[i]:0); }
  return s; }
static Dia from_pd(const pd_code_t*pd){ // assumes pd_valid
  Dia D; D.n=pd->ncross; D.ncomp=pd->ncomps; D.tag.resize(D.ncomp); for(int c=0;c<D.ncomp;c++) D.tag[c]=pd->comp[c].tag;
  if(D.n==0) return D;
  D.mate.assign(4*D.n,-1); D.out.assign(4*D.n,0); D.sign.resize(D.n); D.comp.assign(4*D.n,0);
  for(int c=0;c<D.n;c++) D.sign[c]=pd->cross[c].sign;
  for(unsigned e=0;e<pd->nedges;e++){ int t=4*pd->edge[e].tail+pd->edge[e].tailpos,h=4*pd->edge[e].head+pd->edge[e].headpos; D.mate[t]=h; D.mate[h]=t; D.out[t]=1; D.out[h]=0; }
  for(unsigned c=0;c<pd->ncomps;c++) for(unsigned i=0;i<pd->comp[c].nedges;i++){ unsigned e=pd->comp[c].edge[i]; D.comp[4*pd->edge[e].tail+pd->edge[e].tailpos]=c; D.comp[4*pd->edge[e].head+pd->edge[e].headpos]=c; }
  return D; }
#define CHECK_VALID(pd,...) do{ std::string w_; if(!pd_valid(pd,w_)) mc_fail("%s: invalid diagram (%s): %s",mc_fmt(__VA_ARGS__).c_str(),w_.c_str(),pd?pd_str(pd).c_str():"NULL"); if(!pd_ok(pd)) mc_fail("%s: pd_ok rejects a valid diagram %s",mc_fmt(__VA_ARGS__).c_str(),pd_str(pd).c_str()); }while(0)
static const int CF_FULL=CF_REFLECT|CF_ORIENT|CF_SIGN|CF_TAG;  // diagram isotopy
static const int CF_PLANE=CF_ORIENT|CF_SIGN|CF_TAG;            // orientation-preserving equality

// crossing geometry: incoming/outgoing darts of the over and under strand at crossing c (UNSET read as positive)
static void dia_strands(const Dia&D,int c,int&oi,int&oo,int&ui,int&uo){
  int a=-1; // strand A = positions {0,2}, strand B = {1,3}: outgoing dart of each
  int A=D.out[4*c]?0:2, B=D.out[4*c+1]?1:3; (void)a;
  // travelling directions: A towards position A, B towards position B.  A x B out of the screen iff B is ccw-next of A.
  bool ABpos=((B-A+4)%4==1);
  bool pos=D.sign[c]!=PD_NEG_ORIENTATION;
  bool Aover=(ABpos==pos);
  int o=Aover?A:B,u=Aover?B:A; oo=4*c+o; oi=4*c+(o+2)%4; uo=4*c+u; ui=4*c+(u+2)%4; }

// --- HOMFLY oracle: descending-diagram skein recursion on an abstract oriented crossing list ------------
typedef std::map<std::pair<int,int>,long long> Poly; // (l exponent, m exponent) -> coefficient
static Poly p_mul(const Poly&a,const Poly&b){ Poly r; for(auto&x:a) for(auto&y:b) r[{x.first.first+y.first.first,x.first.second+y.first.second}]+=x.second*y.second; for(auto it=r.begin();it!=r.end();) if(!it->second) it=r.erase(it); else ++it; return r; }
static Poly p_add(const Poly&a,const Poly&b,long long k=1,int dl=0,int dm=0){ Poly r=a; for(auto&y:b){ auto&c=r[{y.first.first+dl,y.first.second+dm}]; c+=k*y.second; } for(auto it=r.begin();it!=r.end();) if(!it->second) it=r.erase(it); else ++it; return r; }
static std::string p_str(const Poly&p){ std::string s; for(auto&t:p) s+=mc_fmt("%+lld l%d m%d ",t.second,t.first.first,t.first.second); return s.empty()?"0":s; }
struct XC{ int oi,oo,ui,uo,sg; };       // edge labels and sign (+1/-1)
struct Lk{ std::vector<XC> x; int circles=0; };
static Lk dia_lk(const Dia&D){ Lk L; if(D.n==0){ L.circles=1; return L; } VI en=lab_edges(D,default_lab(D)); for(int c=0;c<D.n;c++){ int oi,oo,ui,uo; dia_strands(D,c,oi,oo,ui,uo); L.x.push_back({en[oi],en[oo],en[ui],en[uo],D.sign[c]==PD_NEG_ORIENTATION?-1:1}); } return L; }
static void lk_join(Lk&L,int in,int out){ // identify edge arriving (in) with edge leaving (out)
  if(in==out){ L.circles++; return; }
  for(auto&y:L.x){ if(y.oi==out) y.oi=in; else if(y.ui==out) y.ui=in; } }
// "out" is replaced by "in": whoever receives edge out now receives edge in
static Poly homfly_lk(const Lk&L0,std::map<std::string,Poly>&memo){
  Lk L=L0;
  std::map<int,std::pair<int,int>> to; for(size_t i=0;i<L.x.size();i++){ to[L.x[i].oi]={(int)i,1}; to[L.x[i].ui]={(int)i,0}; }
  // canonical-ish key: relabel edges by traversal from the smallest edge of each component
  std::map<int,int> rl; std::vector<int> starts; std::string key=mc_fmt("%d;",L.circles); VI seen(L.x.size(),0); int ncomp=0; int bad=-1; bool badset=false; int ord=0; VI xo(L.x.size(),-1);
  for(auto&t:to) if(!rl.count(t.first)){ ncomp++; int e=t.first; do{ rl[e]=(int)rl.size(); auto q=to[e]; int i=q.first; if(!seen[i]){ seen[i]=1; xo[i]=ord++; if(!q.second && !badset){ bad=i; badset=true; } } key+=mc_fmt("%d%c%c",xo[i],q.second?'o':'u',L.x[i].sg>0?'+':'-'); e=q.second?L.x[i].oo:L.x[i].uo; }while(e!=t.first); key+="|"; }
  auto it=memo.find(key); if(it!=memo.end()) return it->second;
  Poly res;
  if(!badset){ int c=ncomp+L.circles; Poly d; d[{1,-1}]=-1; d[{-1,-1}]=-1; res[{0,0}]=1; for(int i=1;i<c;i++) res=p_mul(res,d); }
  else {
    XC x=L.x[bad];
    Lk S=L; S.x[bad]={x.ui,x.uo,x.oi,x.oo,-x.sg};
    Lk Z=L; Z.x.erase(Z.x.begin()+bad);
    // oriented smoothing: oi->uo, ui->oo
    auto join=[&](int in,int out,int&in2,int&out2){ if(in==out){ Z.circles++; return; } bool f=false; for(auto&y:Z.x){ if(y.oi==out){y.oi=in;f=true;break;} if(y.ui==out){y.ui=in;f=true;break;} } if(!f){ /* out arrives at the removed crossing itself */ if(in2==out) in2=in; } (void)out2; };
    int i2=x.ui,o2=x.oo; join(x.oi,x.uo,i2,o2); { int a=0,b=0; join(i2,o2,a,b); }
    Poly ps=homfly_lk(S,memo), pz=homfly_lk(Z,memo);
    // l P+ + l^-1 P- + m P0 = 0
    if(x.sg>0){ res=p_add(Poly(),ps,-1,-2,0); res=p_add(res,pz,-1,-1,1); }
    else { res=p_add(Poly(),ps,-1,2,0); res=p_add(res,pz,-1,1,1); }
  }
  memo[key]=res; return res;
}
static std::map<std::string,Poly> g_hmemo;
static Poly dia_homfly(const Dia&D){ if(g_hmemo.size()>400000) g_hmemo.clear(); return homfly_lk(dia_lk(D),g_hmemo); }

// linking numbers (doubled) between components by tag
static std::map<std::pair<char,char>,int> dia_linking2(const Dia&D){ std::map<std::pair<char,char>,int> r; for(int c=0;c<D.n;c++){ int a=D.comp[4*c],b=D.comp[4*c+1]; if(a!=b){ char x=D.tag[a],y=D.tag[b]; if(x>y) std::swap(x,y); r[{x,y}]+=D.sign[c]==PD_NEG_ORIENTATION?-1:1; } } return r; }

// --- enumeration of decorated diagrams -----------------------------------------------------------------
enum { SG_UNSET=1, SG_SIGNED=2, SG_MIXED=4 };
// all orientations x sign vectors of a map (sign alphabet by mode)
static void all_signs(const Dia&D,int mode,std::function<void(const Dia&)> cb){
  Dia E=D; 
  if(mode&SG_UNSET){ E.sign.assign(D.n,PD_UNSET_ORIENTATION); cb(E); }
  if(D.n==0) { if(!(mode&SG_UNSET)) cb(E); return; }
  if(mode&SG_SIGNED) for(int s=0;s<(1<<D.n);s++){ for(int i=0;i<D.n;i++) E.sign[i]=(s>>i)&1?PD_POS_ORIENTATION:PD_NEG_ORIENTATION; cb(E); }
  if(mode&SG_MIXED){ long tot=1; for(int i=0;i<D.n;i++) tot*=3; for(long s=0;s<tot;s++){ long t=s; bool u=false,v=false; for(int i=0;i<D.n;i++){ E.sign[i]=t%3; t/=3; if(E.sign[i]==2) u=true; else v=true; } if(u&&v) cb(E); } }
}
static void all_orients(const Dia&D,bool fixfirst,std::function<void(const Dia&)> cb){
  int free=fixfirst?D.ncomp-1:D.ncomp; if(D.n==0) free=0;
  for(int m=0;m<(1<<free);m++){ Dia E=D; for(int c=0;c<free;c++) if((m>>c)&1) dia_reverse(E,c+(fixfirst?1:0)); cb(E); } }
// a family of distinct decorated diagrams (deduplicated up to plane-orientation-preserving isotopy, tags ignored)
static std::vector<Dia> gen_diagrams(int n,int mode,bool orients=true){
  std::vector<Dia> r; std::set<std::string> seen;
  for(auto&M:gen_maps(n)) all_orients(M,!orients,[&](const Dia&O){ all_signs(O,mode,[&](const Dia&S){ if(seen.insert(dia_canon(S,CF_ORIENT|CF_SIGN)).second) r.push_back(S); }); });
  return r; }
#endif
