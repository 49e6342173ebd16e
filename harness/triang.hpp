// Triangulations of polygons: independent enumeration and structure check.
#ifndef TRIANG_HPP
#define TRIANG_HPP
#include "curve.hpp"
extern "C" {
#include "tsmcmc.h"
}
#include <set>
typedef std::vector<std::array<int,2>> Chords;
static void tr_enum(int lo,int hi,std::vector<Chords>&out){ // triangulations of the polygon lo..hi, including the chord (lo,hi) itself when it is one
  out.clear(); if(hi-lo<2){ out.push_back({}); return; }
  for(int m=lo+1;m<hi;m++){ std::vector<Chords> A,B; tr_enum(lo,m,A); tr_enum(m,hi,B); for(auto&a:A) for(auto&b:B){ Chords c=a; c.insert(c.end(),b.begin(),b.end()); if(m-lo>1) c.push_back({{lo,m}}); if(hi-m>1) c.push_back({{m,hi}}); out.push_back(c); } } }
static std::vector<Chords> all_triangulations(int n){ std::vector<Chords> o; tr_enum(0,n-1,o); for(auto&c:o) std::sort(c.begin(),c.end()); std::sort(o.begin(),o.end()); return o; }
static bool is_side(int n,const Chords&C,int a,int b){ if((a+1)%n==b||(b+1)%n==a) return true; for(auto&c:C) if((c[0]==a&&c[1]==b)||(c[0]==b&&c[1]==a)) return true; return false; }
static std::set<std::array<int,3>> triangles_of(int n,const Chords&C){ std::set<std::array<int,3>> s; for(int a=0;a<n;a++) for(int b=a+1;b<n;b++) if(is_side(n,C,a,b)) for(int c=b+1;c<n;c++) if(is_side(n,C,a,c)&&is_side(n,C,b,c)) s.insert({{a,b,c}}); return s; }
static tsmcmc_triangulation_t mk_tri(int n,const Chords&C){ std::vector<tsmcmc_chord_t> c(C.size()+1); for(size_t i=0;i<C.size();i++){ c[i].vt[0]=C[i][0]; c[i].vt[1]=C[i][1]; } return tsmcmc_generate_triangulation(n,c.data()); }
static std::array<int,2> ends(const tsmcmc_triangulation_t&T,int c,chordtype_t t){ auto&k=t==diagonal?T.diags[c]:T.edges[c]; return {{k.vt[0],k.vt[1]}}; }
// what is wrong with T as the triangulation of the n-gon by the chords C (in that order, either way round)
static std::string tri_bad(const tsmcmc_triangulation_t&T,int n,const Chords&C){
  if(T.nedges!=n||T.ntri!=n-2||T.ndiags!=n-3) return mc_fmt("%d edges, %d triangles, %d diagonals",T.nedges,T.ntri,T.ndiags);
  for(int i=0;i<n;i++) if(T.edges[i].vt[0]!=i||T.edges[i].vt[1]!=(i+1)%n) return mc_fmt("edge %d is %d-%d",i,T.edges[i].vt[0],T.edges[i].vt[1]);
  for(int i=0;i<n-3;i++){ int a=T.diags[i].vt[0],b=T.diags[i].vt[1]; if(!((a==C[i][0]&&b==C[i][1])||(b==C[i][0]&&a==C[i][1]))) return mc_fmt("diagonal %d is %d-%d instead of %d-%d",i,a,b,C[i][0],C[i][1]); }
  std::set<std::array<int,3>> want=triangles_of(n,C),got; std::vector<int> par(n-2,-1); std::vector<int> seen(n-2,0);
  std::vector<int> st={0}; int cnt=0; if(T.triangles[0].parent_type!=edge||T.triangles[0].parent_chord!=0) return "the root triangle does not hang on edge 0";
  while(!st.empty()){ int t=st.back(); st.pop_back(); if(seen[t]++) return mc_fmt("triangle %d appears twice",t); cnt++; const tsmcmc_triangle_t&k=T.triangles[t]; auto ok=[&](int c,chordtype_t ty){ return (ty==edge&&c>=0&&c<n)||(ty==diagonal&&c>=0&&c<n-3); }; if(!ok(k.parent_chord,k.parent_type)||!ok(k.daughter_chord[0],k.daughter_type[0])||!ok(k.daughter_chord[1],k.daughter_type[1])) return mc_fmt("triangle %d has an impossible chord",t);
    std::array<int,2> p=ends(T,k.parent_chord,k.parent_type),d0=ends(T,k.daughter_chord[0],k.daughter_type[0]),d1=ends(T,k.daughter_chord[1],k.daughter_type[1]); if(k.parent_type==diagonal) std::swap(p[0],p[1]); if(p[1]!=d0[0]||d0[1]!=d1[0]||d1[1]!=p[0]) return mc_fmt("the chords of triangle %d (%d-%d %d-%d %d-%d) do not run around it",t,p[0],p[1],d0[0],d0[1],d1[0],d1[1]);
    int a=p[0],b=p[1],c=d0[1]; int x=(b-a+n)%n,y=(c-a+n)%n; if(!(x<y)) return mc_fmt("triangle %d runs the wrong way round",t); std::array<int,3> s{{a,b,c}}; std::sort(s.begin(),s.end()); if(!want.count(s)||!got.insert(s).second) return mc_fmt("triangle %d is %d-%d-%d",t,s[0],s[1],s[2]);
    for(int j=0;j<2;j++){ int d=k.daughter_tri[j]; if(k.daughter_type[j]==edge){ if(d!=-1) return mc_fmt("triangle %d has daughter %d on an edge",t,d); } else { if(d<0||d>=n-2) return mc_fmt("triangle %d has daughter %d",t,d); if(T.triangles[d].parent_type!=diagonal||T.triangles[d].parent_chord!=k.daughter_chord[j]) return mc_fmt("daughter %d of triangle %d hangs on another chord",d,t); st.push_back(d); } } }
  if(cnt!=n-2||got!=want) return mc_fmt("%d of %d triangles are in the tree",cnt,n-2); return ""; }
static std::string chords_str(int n,const Chords&C){ std::string s=mc_fmt("%d-gon",n); for(auto&c:C) s+=mc_fmt(" %d-%d",c[0],c[1]); return s; }
#endif
