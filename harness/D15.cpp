// D15: every tangle slide of every small diagram against the dart model.
#include "tangle.hpp"
#include "big.hpp"
// slide the run of edges with outgoing darts o[0..n-1] past the tangle w, crossing boundary edges from position p forwards (left) or backwards
static bool m_slide(const Dia&D,const VI&w,int p,bool left,const VI&o,bool over,Pieces&P){ int k=w.size(),n=o.size(); Dia E=D; std::vector<char> rm; auto join=[&](int a,int b){ E.mate[a]=b; E.mate[b]=a; }; int comp=D.comp[o[0]]; VI order; if(left) for(int i=1;i<=k-(n-1);i++) order.push_back(((p-i)%k+k)%k); else for(int i=1;i<=k-(n-1);i++) order.push_back((p+i)%k);
  int cur=o[0],endd=D.mate[o[n-1]]; for(int q:order){ int x=w[q],y=E.mate[x]; int z=dia_addcross(E,PD_POS_ORIENTATION); join(x,4*z); join(4*z+2,y); E.comp[4*z]=E.comp[4*z+2]=D.comp[x]; E.out[4*z]=!D.out[x]; E.out[4*z+2]=D.out[x]; int si=left?3:1,so=left?1:3; E.comp[4*z+si]=E.comp[4*z+so]=comp; E.out[4*z+si]=0; E.out[4*z+so]=1; join(cur,4*z+si); cur=4*z+so; int oi,oo,ui,uo; dia_strands(E,z,oi,oo,ui,uo); if((oi==4*z+si)!=over) E.sign[z]=PD_NEG_ORIENTATION; }
  join(cur,endd); rm.assign(E.n,0); for(int j=0;j<n-1;j++){ int c=D.mate[o[j]]/4; rm[c]=1; } P=dia_remove(E,rm); return true; }
static uint64_t g_done=0;
static void run(const Dia&D0,int maxlen,int mode){ pd_code_t*pd=to_pd(D0); Dia D=from_pd(pd); VI en=pd_edges(pd),df=pd_dartface(pd); std::string before=pd_dump(pd); VI tail(pd->nedges); for(unsigned e=0;e<pd->nedges;e++) tail[e]=4*pd->edge[e].tail+pd->edge[e].tailpos;
  all_tangles(D,maxlen,[&](const VI&w0){ TangleModel M; if(!tangle_model(D,en,w0,M)) return; VI w=w0; std::rotate(w.begin(),w.begin()+(w0[0]*7+w0.size())%w0.size(),w.end()); tangle_model(D,en,w,M); int k=w.size(); std::map<int,int> outer; for(int i=0;i<k;i++) outer[D.mate[w[i]]]=i; pd_tangle_t*t=NULL;
    for(unsigned e=0;e<pd->nedges;e++) for(int left=0;left<2;left++){ VI o{tail[e]}; int p=-1; std::vector<char> overs;
      for(int n=2;n<=k;n++){ // extend the run by one crossing
        int h=D.mate[o.back()],c=h/4; int side=left?d_cw(h):d_ccw(h); // travelling into h, the left neighbour slot is the clockwise one
        auto it=outer.find(side); if(it==outer.end()) break; int want=p<0?it->second:(left?(p+n-2)%k:((p-(n-2))%k+k)%k); if(it->second!=want) break; if(p<0) p=it->second; int oi,oo,ui,uo; dia_strands(D,c,oi,oo,ui,uo); overs.push_back(oi==h); o.push_back(d_across(h)); if(o.back()==o[0]) break; 
        // conditions of the documentation
        bool ok=true; std::string why; VI es; for(int x:o) es.push_back(en[x]); std::set<int> distinct(es.begin(),es.end()); if((int)distinct.size()!=n) ok=false,why="repeated edges"; for(char b:overs) if(b!=overs[0]) ok=false,why="mixed crossings"; for(int x:es) if(M.edge.count(x)) ok=false,why="interior edge"; for(int i=1;i<n-1;i++) for(int x:w) if(en[x]==es[i]) ok=false,why="boundary edge in the run"; int sa=o[0]/4,ea=D.mate[o[n-1]]/4; if(M.cross.count(sa)||M.cross.count(ea)) ok=false,why="anchor inside the tangle"; std::set<int> mid; for(int i=0;i<n-1;i++) mid.insert(D.mate[o[i]]/4); if(mid.count(sa)||mid.count(ea)) ok=false,why="anchor on the run"; if((int)mid.size()!=n-1) ok=false,why="the run meets a crossing twice"; for(int c2:mid) if(M.cross.count(c2)) ok=false,why="run crosses inside the tangle";
        // faces along the run, and how many places of the boundary they fit
        VI fs; for(int x:o) fs.push_back(df[left?x:D.mate[x]]); VI tf; for(int i=0;i<k;i++) tf.push_back(df[D.mate[w[i]]]); int fits=0; for(int q=0;q<k;q++) for(int d=0;d<2;d++){ bool m=true; for(int j=0;j<n&&m;j++){ m=tf[((d?q+j:q-j)%k+k)%k]==fs[j]; m=m&&df[d?o[j]:D.mate[o[j]]]==fs[j]; } fits+=m; }
        if(!ok&&why=="mixed crossings"&&mode==0) {} 
        if(!t){ t=build_tangle(pd,D,en,w,df); pd_regenerate_tangle(pd,t); }
        std::vector<pd_idx_t> oe(es.begin(),es.end()),bf(fs.begin(),fs.end()); mc_note("%s tangle %s run %s%s (%s, fits %d)",pd_str(pd).c_str(),walk_str(en,w).c_str(),[&]{ std::string s; for(int x:es) s+=mc_fmt("%d ",x); return s; }().c_str(),left?"on the right side":"on the left side",ok?"legal":why.c_str(),fits);
        mc_state(before+walk_str(en,w)+mc_fmt("|%u %d %d",e,n,left)); pd_idx_t np=77; pd_code_t**pc=NULL; int err=PD_NO_ERROR; pd_tangle_slide_err(pd,t,n,oe.data(),bf.data(),&np,&pc,&err); mc_trans(); mc_eval(); MC_CHECK(pd_dump(pd)==before,"the slide modified its diagram");
        if(ok&&fits==1) MC_CHECK(err==PD_NO_ERROR,"a legal slide is refused with error %d",err); if(!ok) MC_CHECK(err==PD_TANGLE_ERROR,"an illegal slide (%s) is accepted",why.c_str());
        if(ok&&err==PD_NO_ERROR){ Pieces P; m_slide(D,w,p,left,o,overs[0],P); std::string want=pieces_canon(P,CF_PLANE); MC_CHECK(np==P.d.size()+P.circles.size(),"the slide gave %u pieces instead of %zu",np,P.d.size()+P.circles.size()); Pieces R; for(unsigned i=0;i<np;i++){ CHECK_VALID(pc[i],"piece %u",i); Dia X=from_pd(pc[i]); if(X.n==0) R.circles.push_back(X.tag[0]); else R.d.push_back(X); } std::string got=pieces_canon(R,CF_PLANE); if(got!=want){ std::string a,b; for(auto&x:P.d) a+=dia_str(x); for(unsigned i=0;i<np;i++) b+=pd_str(pc[i]); mc_fail("the slide gave %s, expected %s",b.c_str(),a.c_str()); } if(mode&1){ int tot=0; for(auto&x:P.d) tot+=x.n; if(tot<=8){ Poly h=pieces_homfly(R),h0=dia_homfly(D); MC_CHECK(h==h0,"the slide changed the HOMFLY polynomial from %s to %s",p_str(h0).c_str(),p_str(h).c_str()); } } for(unsigned i=0;i<np;i++) pd_code_free(&pc[i]); free(pc); g_done++; mc_count("slides"); mc_outcome(mc_fmt("run of %d past %d edges, %u pieces",n,k,np)); }
        else mc_outcome(err?"refused: "+(ok?std::string("ambiguous"):why):"accepted?");
        // every single replaced edge or face of a legal slide: the data no longer describe a run along the boundary
        if(ok&&fits==1&&mode){ for(int j=0;j<n;j++) for(int fld=0;fld<2;fld++){ int lim=fld?(int)pd->nfaces:(int)pd->nedges; for(int v=0;v<=lim;v++){ auto oe2=oe,bf2=bf; if((int)(fld?bf2:oe2)[j]==v) continue; (fld?bf2:oe2)[j]=v==lim?v+(j%2)*5:v; bool cons=true; int f2=0; if(v<lim){ for(int i=0;i+1<n;i++) if(d_across(D.mate[tail[oe2[i]]])!=tail[oe2[i+1]]) cons=false; for(int q=0;q<k;q++) for(int d=0;d<2;d++){ bool m=true; for(int i=0;i<n&&m;i++){ int x=tail[oe2[i]]; m=tf[((d?q+i:q-i)%k+k)%k]==(int)bf2[i]&&df[d?x:D.mate[x]]==(int)bf2[i]; } f2+=m; } if(cons&&f2) continue; }
            mc_note("%s tangle %s run %s with %s %d replaced by %d",pd_str(pd).c_str(),walk_str(en,w).c_str(),[&]{ std::string s; for(int x:es) s+=mc_fmt("%d ",x); return s; }().c_str(),fld?"face":"edge",j,(int)(fld?bf2:oe2)[j]); pd_idx_t np2=77; pd_code_t**pc2=NULL; int err2=PD_NO_ERROR; pd_tangle_slide_err(pd,t,n,oe2.data(),bf2.data(),&np2,&pc2,&err2); mc_trans(); mc_eval(); MC_CHECK(err2==PD_TANGLE_ERROR,"a slide whose edges and faces do not fit the boundary is accepted"); MC_CHECK(pd_dump(pd)==before,"a refused slide modified its diagram"); mc_outcome(v<lim?(fld?"refused: wrong face":"refused: wrong edge"):"refused: index out of range"); } } } } }
    if(t) pd_tangle_free(&t); });
  pd_code_free(&pd); mc_trace(); }
void mc_main(){ bool T=mc_thorough;
  for(int n=1;n<=3;n++) for(auto&M:gen_maps(n)) mc_case_lazy([&]{ return "all slides of diagrams on "+dia_str(M); },[&]{ all_orients(M,false,[&](const Dia&O){ all_signs(O,SG_SIGNED,[&](const Dia&D){ run(D,12,1); }); }); mc_sample("all slides of all signed diagrams on "+dia_str(M)); });
  for(auto&M:gen_maps(4)) mc_case_lazy([&]{ return "all slides of diagrams on "+dia_str(M); },[&]{ all_orients(M,!T,[&](const Dia&O){ all_signs(O,SG_SIGNED,[&](const Dia&D){ run(D,8,1); }); }); });
  for(auto&M:gen_maps(5,T?0:CF_REFLECT)) mc_case_lazy([&]{ return "slides of diagrams on "+dia_str(M); },[&]{ auto go=[&](const Dia&O){ all_signs(O,SG_SIGNED,[&](const Dia&D){ if(D.sign[0]!=PD_POS_ORIENTATION&&!T) return; run(D,T?8:6,0); }); }; if(mc_deep) all_orients(M,false,go); else go(M); });
  if(mc_deep) for(auto&M:gen_maps(6,CF_REFLECT)) mc_case_lazy([&]{ return "slides of diagrams on "+dia_str(M); },[&]{ all_signs(M,SG_SIGNED,[&](const Dia&D){ if(D.sign[0]!=PD_POS_ORIENTATION) return; run(D,6,0); }); });
  // closed braids far above the enumerated size
  static std::vector<Big> BV=big_diagrams(mc_deep?1:0,T?0x19:0x18); for(auto&b:BV) mc_case("slides of "+b.name,[&]{ Dia D=b.D; run(D,D.n<=10?6:4,0); for(int c=0;c<D.n;c++) D.sign[c]=PD_POS_ORIENTATION; run(D,4,0); });
  // many components
  for(int k:{8,22,26}) for(int v=0;v<2;v++) mc_case(mc_fmt("slides in a chain of %d components, variant %d",k,v),[=]{ VI w; for(int r=0;r<2;r++) for(int j=0;j+1<k;j++) if(r==0||j%4==1){ w.push_back(j); w.push_back(j); } Dia D=braid_closure(k,w); for(int i=0;i<D.n;i++) D.sign[i]=v?i%3%2:PD_POS_ORIENTATION; if(v) for(int c=0;c<D.ncomp;c+=3) dia_reverse(D,c); g_tangles=[=](const Dia&E,const std::function<void(const VI&)>&cb){ disc_tangles(E,4,60,T?30:10,T?300:80,cb); }; run(D,0,0); g_tangles=nullptr; });
  // discs with long boundaries
  struct LB{ int k,p; }; for(auto&l:std::vector<LB>{{5,4},{6,5},{8,5},{12,3},{12,6}}) for(int v=0;v<3;v++) mc_case(mc_fmt("slides of tangles with long boundaries of the braid (1..%d)^%d, variant %d",l.k-1,l.p,v),[=]{ VI w; for(int i=0;i<l.p;i++) for(int j=0;j+1<l.k;j++) w.push_back(j); Dia D=braid_closure(l.k,w); for(int i=0;i<D.n;i++) D.sign[i]=v<2?PD_POS_ORIENTATION:(w[i]%4<2); if(v) for(int c=0;c<D.ncomp;c+=2) dia_reverse(D,c); g_tangles=[=](const Dia&E,const std::function<void(const VI&)>&cb){ disc_tangles(E,6,60,T?24:5,T?300:40,cb); }; run(D,0,0); g_tangles=nullptr; });
}
