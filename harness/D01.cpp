// D01: Reidemeister moves on every diagram up to the bound, at every applicable location.
#include "pdmodel.hpp"
#include "big.hpp"
static bool g_shadow(const Dia&D){ for(int s:D.sign) if(s!=PD_UNSET_ORIENTATION) return false; return true; }
static bool g_signed(const Dia&D){ for(int s:D.sign) if(s==PD_UNSET_ORIENTATION) return false; return true; }
static void after(pd_code_t*pd,const std::string&before,const char*op){ std::string b=pd_dump(pd); MC_CHECK(b==before,"%s modified its input: %s -> %s",op,before.c_str(),b.c_str()); }
static std::string key(const Dia&D){ return dia_canon(D,CF_PLANE); }

// every applicable move at every location of pd; results (valid diagrams) go to cb when wanted
static void all_moves(pd_code_t*pd,bool tags,std::function<void(pd_code_t*)> cb){
  Dia D=from_pd(pd); std::string before=pd_dump(pd);
  if(D.n==0){ // adding a curl to the crossingless unknot
    for(int f=0;f<2;f++){ mc_note("R1 addition on face %d of the 0-crossing unknot",f); pd_code_t*r=pd_R1_loop_addition(pd,f,0); mc_trans(); CHECK_VALID(r,"R1 addition"); after(pd,before,"R1 addition"); MC_CHECK(r->ncross==1&&r->ncomps==1,"R1 addition to the 0-crossing unknot gave %s",pd_str(r).c_str()); mc_outcome("R1+ on 0"); cb(r); pd_code_free(&r); }
    return; }
  Poly H; bool sg=g_signed(D)&&D.n<=9; if(sg) H=dia_homfly(D);
  // R1 additions
  for(unsigned f=0;f<pd->nfaces;f++) for(unsigned i=0;i<pd->face[f].nedges;i++){
    mc_note("R1 addition face %u pos %u on %s",f,i,pd_str(pd).c_str());
    pd_code_t*r=pd_R1_loop_addition(pd,f,i); mc_trans(); mc_eval(); CHECK_VALID(r,"R1 addition"); after(pd,before,"R1 addition");
    unsigned e=pd->face[f].edge[i]; int x=4*pd->edge[e].tail+pd->edge[e].tailpos; Dia E=m_r1add(D,x,pd->face[f].orient[i]==PD_POS_ORIENTATION,PD_UNSET_ORIENTATION);
    Dia R=from_pd(r); MC_CHECK(R.ncomp==D.ncomp,"R1 addition changed the number of components");
    MC_CHECK(dia_canon(R,CF_ORIENT|CF_SIGN)==dia_canon(E,CF_ORIENT|CF_SIGN),"R1 addition at face %u pos %u of %s: got %s expected %s",f,i,pd_str(pd).c_str(),pd_str(r).c_str(),dia_str(E).c_str());
    mc_outcome(mc_fmt("R1+ n%d->%d",D.n,R.n)); cb(r); pd_code_free(&r); }
  // R1 deletions
  for(int c=0;c<D.n;c++){ bool loop=false; for(int p=0;p<4;p++) if(D.mate[4*c+p]==4*c+(p+1)%4) loop=true;
    if(!loop){ if(mc_thorough||D.n<=3){ mc_note("R1 deletion at loopless crossing %d of %s",c,pd_str(pd).c_str()); int k=mc_guarded([&]{ pd_code_t*r=pd_R1_loopdeletion(pd,c); (void)r; }); MC_CHECK(k==1,"R1 deletion at a crossing without a loop was not refused (%d) on %s",k,pd_str(pd).c_str()); mc_outcome("R1- refused"); } continue; }
    mc_note("R1 deletion at %d of %s",c,pd_str(pd).c_str());
    pd_code_t*r=pd_R1_loopdeletion(pd,c); mc_trans(); mc_eval(); CHECK_VALID(r,"R1 deletion"); after(pd,before,"R1 deletion");
    std::vector<char> rm(D.n,0); rm[c]=1; Pieces P=dia_remove(D,rm); Dia R=from_pd(r);
    // a 1-crossing diagram becomes the bare circle
    std::string want=pieces_canon(P,CF_PLANE); Pieces G; if(R.n) G.d.push_back(R); else G.circles.push_back(R.tag[0]);
    std::string got=pieces_canon(G,CF_PLANE); if(!tags){ want=pieces_canon(P,CF_ORIENT|CF_SIGN); got=pieces_canon(G,CF_ORIENT|CF_SIGN); }
    MC_CHECK(want==got,"R1 deletion at %d of %s gave %s",c,pd_str(pd).c_str(),pd_str(r).c_str());
    if(sg){ Poly h=dia_homfly(R); MC_CHECK(h==H,"R1 deletion at %d of %s changed the link: %s vs %s",c,pd_str(pd).c_str(),p_str(H).c_str(),p_str(h).c_str()); }
    mc_outcome(mc_fmt("R1- n%d->%d",D.n,R.n)); cb(r); pd_code_free(&r); }
  // R2 eliminations at every bigon face, both argument orders
  for(unsigned f=0;f<pd->nfaces;f++) if(pd->face[f].nedges==2){ int t0=face_dart(pd,f,0),t1=face_dart(pd,f,1); int c0=t0/4,c1=t1/4; if(c0==c1) continue;
    bool shadow=D.sign[c0]==PD_UNSET_ORIENTATION&&D.sign[c1]==PD_UNSET_ORIENTATION, full=D.sign[c0]!=PD_UNSET_ORIENTATION&&D.sign[c1]!=PD_UNSET_ORIENTATION;
    if(!shadow&&!full) continue;
    // over strand at c0 must be the over strand at c1
    bool ok=shadow; int topcomp=-1,botcomp=-1; int oi,oo,ui,uo; dia_strands(D,c0,oi,oo,ui,uo); bool t0over0=(t0==oi||t0==oo); int t0end=D.mate[t0]; int oi1,oo1,ui1,uo1; dia_strands(D,c1,oi1,oo1,ui1,uo1); bool t0over1=(t0end==oi1||t0end==oo1);
    if(full){ ok=(t0over0==t0over1); topcomp=D.comp[t0over0?t0:t1]; botcomp=D.comp[t0over0?t1:t0]; }
    for(int sw=0;sw<2;sw++){ pd_idx_t cr[2]={(pd_idx_t)(sw?c1:c0),(pd_idx_t)(sw?c0:c1)}; pd_idx_t nout=0; pd_code_t**out=NULL;
      mc_note("R2 elimination at crossings %u,%u of %s",cr[0],cr[1],pd_str(pd).c_str());
      if(!ok){ // a clasp: eliminating it would change the link, so it has to be refused.  Only when no second bigon of the same crossings is eliminable.
        int k=mc_guarded([&]{ pd_R2_bigon_elimination(pd,cr,&nout,&out); });
        MC_CHECK(k==1,"R2 elimination of a clasp at %d,%d of %s was not refused",c0,c1,pd_str(pd).c_str()); mc_outcome("R2- refused"); mc_trans(); after(pd,before,"R2 elimination"); continue; }
      pd_R2_bigon_elimination(pd,cr,&nout,&out); mc_trans(); mc_eval(); after(pd,before,"R2 elimination");
      std::vector<char> rm(D.n,0); rm[c0]=rm[c1]=1; Pieces P=dia_remove(D,rm); int np=P.d.size()+P.circles.size();
      MC_CHECK((int)nout==np,"R2 elimination at %d,%d of %s gave %u pieces, expected %d",c0,c1,pd_str(pd).c_str(),nout,np);
      Pieces G; for(int i=0;i<np;i++){ CHECK_VALID(out[i],"R2 elimination piece %d",i); Dia R=from_pd(out[i]); if(R.n) G.d.push_back(R); else G.circles.push_back(R.tag[0]); }
      int fl=tags?CF_PLANE:(CF_ORIENT|CF_SIGN); MC_CHECK(pieces_canon(G,fl)==pieces_canon(P,fl),"R2 elimination at %d,%d of %s gave %s",c0,c1,pd_str(pd).c_str(),pd_str(out[0]).c_str());
      if(np==2&&full&&tags){ // piece 0 carries the strand on top
        bool found=false; for(unsigned k=0;k<out[0]->ncomps;k++) if(out[0]->comp[k].tag==D.tag[topcomp]) found=true; bool fb=false; for(unsigned k=0;k<out[1]->ncomps;k++) if(out[1]->comp[k].tag==D.tag[botcomp]) fb=true;
        MC_CHECK(found&&fb,"R2 elimination at %d,%d of %s: piece 0 does not carry the top strand",c0,c1,pd_str(pd).c_str()); }
      if(sg){ Poly h=pieces_homfly(G); MC_CHECK(h==H,"R2 elimination at %d,%d of %s changed the link",c0,c1,pd_str(pd).c_str()); }
      mc_outcome(mc_fmt("R2- n%d pieces %d circles %zu",D.n,np,P.circles.size()));
      for(int i=0;i<np;i++){ cb(out[i]); pd_code_free(&out[i]); } free(out); } }
  // R2 additions
  for(unsigned f=0;f<pd->nfaces;f++) for(unsigned i=0;i<pd->face[f].nedges;i++) for(unsigned j=0;j<pd->face[f].nedges;j++) if(i!=j){
    mc_note("R2 addition face %u pos %u,%u on %s",f,i,j,pd_str(pd).c_str());
    pd_code_t*r=pd_R2_bigon_addition(pd,f,i,j,(i<j)?PD_POS_ORIENTATION:PD_UNSET_ORIENTATION); mc_trans(); mc_eval(); CHECK_VALID(r,"R2 addition"); after(pd,before,"R2 addition");
    Dia E=m_r2add(D,face_dart(pd,f,i),face_dart(pd,f,j),PD_UNSET_ORIENTATION,PD_UNSET_ORIENTATION); Dia R=from_pd(r);
    MC_CHECK(R.ncomp==D.ncomp&&dia_canon(R,CF_ORIENT|CF_SIGN)==dia_canon(E,CF_ORIENT|CF_SIGN),"R2 addition at face %u pos %u,%u of %s: got %s expected %s",f,i,j,pd_str(pd).c_str(),pd_str(r).c_str(),dia_str(E).c_str());
    mc_outcome(mc_fmt("R2+ n%d->%d",D.n,R.n)); cb(r); pd_code_free(&r); }
  // R3
  for(unsigned f=0;f<pd->nfaces;f++){ 
    if(pd->face[f].nedges!=3){ pd_code_t*r=pd_R3_triangle_flip(pd,f); MC_CHECK(r==NULL,"R3 accepted a face with %u edges",pd->face[f].nedges); continue; }
    int t[3]={face_dart(pd,f,0),face_dart(pd,f,1),face_dart(pd,f,2)}; Dia E; if(!m_r3(D,t,E)) { mc_note("R3 on degenerate face %u of %s",f,pd_str(pd).c_str()); pd_code_t*r=pd_R3_triangle_flip(pd,f); MC_CHECK(r==NULL,"R3 accepted a face that revisits a crossing: face %u of %s",f,pd_str(pd).c_str()); mc_outcome("R3 refused"); continue; }
    mc_note("R3 face %u on %s",f,pd_str(pd).c_str());
    pd_code_t*r=pd_R3_triangle_flip(pd,f); mc_trans(); mc_eval(); CHECK_VALID(r,"R3"); after(pd,before,"R3");
    Dia R=from_pd(r); MC_CHECK(R.ncomp==D.ncomp&&dia_canon(R,CF_ORIENT|CF_SIGN)==dia_canon(E,CF_ORIENT|CF_SIGN),"R3 at face %u of %s: got %s expected %s",f,pd_str(pd).c_str(),pd_str(r).c_str(),dia_str(E).c_str());
    if(sg){ // a genuine R3 site: some strand is over at both its crossings and some strand is under at both
      bool top=false,bot=false; for(int i=0;i<3;i++){ int a=t[i],b=D.mate[t[i]]; int w,x,y,z; dia_strands(D,a/4,w,x,y,z); bool oa=(a==w||a==x); dia_strands(D,b/4,w,x,y,z); bool ob=(b==w||b==x); if(oa&&ob) top=true; if(!oa&&!ob) bot=true; }
      if(top&&bot){ Poly h=dia_homfly(R); MC_CHECK(h==H,"R3 at face %u of %s changed the link: %s vs %s",f,pd_str(pd).c_str(),p_str(H).c_str(),p_str(h).c_str()); mc_count("R3 sites with link check"); } }
    mc_outcome(mc_fmt("R3 n%d",D.n)); cb(r); pd_code_free(&r); }
}
static void explore(pd_code_t*pd,int depth,int maxn,bool tags){ Dia D=from_pd(pd); std::string k=mc_fmt("%d|%s",depth,pd_dump(pd).c_str()); static std::set<uint64_t> seen; if(!seen.insert(mc_h64(k.data(),k.size())).second) return;
  mc_state(pd_dump(pd,false)); all_moves(pd,tags,[&](pd_code_t*r){ if(depth>1&&(int)r->ncross<=maxn) explore(r,depth-1,maxn,true); }); }

void mc_main(){
  int Nfull=mc_thorough?5:4;      // every orientation and every sign vector
  int Nmap=mc_thorough?7:5;       // every map, selected sign vectors
  for(int n=0;n<=Nfull;n++){
    for(auto&D:gen_diagrams(n,SG_UNSET|SG_SIGNED|(n<=3?SG_MIXED:0))){
      mc_case_lazy([&]{ return "all moves on "+dia_str(D); },[&]{
        Dia DT=D; if(mc_idx%2) for(int i=0;i<DT.ncomp;i++) DT.tag[i]="QBZKD"[i%5]+(i/5); auto one=[&](const Lab&L){ pd_code_t*pd=to_pd(DT,L,(D.n%2)); mc_state(pd_dump(pd,false)); all_moves(pd,true,[](pd_code_t*){}); pd_code_free(&pd); };
        if(n<=(mc_thorough?4:3)) all_labs(D,one); else one(default_lab(D)); mc_trace(); mc_sample("all R1/R2/R3 sites of "+dia_str(D)); }); } }
  for(int n=Nfull+1;n<=Nmap;n++) for(auto&M:gen_maps(n)) for(int v=0;v<4;v++) mc_case_lazy([&]{ return mc_fmt("moves on map n=%d variant %d ",n,v)+dia_str(M); },[&]{
      Dia D=M; if(v==1) D.sign.assign(n,PD_POS_ORIENTATION); if(v>=2){ // alternating diagram and its partial switch
        for(int i=0;i<n;i++) D.sign[i]=((i*(v+1)+v)/2)%2; }
      pd_code_t*pd=to_pd(D); mc_state(pd_dump(pd,false)); all_moves(pd,true,[](pd_code_t*){}); pd_code_free(&pd); mc_trace(); });
  // histories: the library's own results are fed back (hidden capacity/labelling state carries over)
  for(int n=0;n<=2;n++) for(auto&D:gen_diagrams(n,SG_UNSET|SG_SIGNED)) mc_case_lazy([&]{ return "move histories from "+dia_str(D); },[&]{
      pd_code_t*pd=to_pd(D); explore(pd,mc_thorough?4:3,mc_thorough?5:4,true); pd_code_free(&pd); mc_trace(); });
  // closed braids far above the enumerated size
  static std::vector<Big> BV=big_diagrams(mc_thorough?2:1,mc_thorough?31:0x1b); for(auto&b:BV) mc_case("all moves on "+b.name,[&]{ pd_code_t*pd=to_pd(b.D); mc_state(pd_dump(pd,false)); all_moves(pd,true,[](pd_code_t*){}); pd_code_free(&pd); mc_trace(); });
}
