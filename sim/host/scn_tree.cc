// Scenarios for the distributed particle tree: sort, decomposition, aggregates, traversal, ghosts, gravity, periodicity.
#include "scn.h"
static string libfor(int dim){ return "hydro"+std::to_string(dim); }
static int draw_ranks(Ctx&C,int lo=1){ // favour awkward rank counts
  int big=C.maxranks; i64 k=C.I("ranks_kind",0,9); if(k==0) return std::max(lo,1); if(k<=6) return (int)C.I("ranks",std::max(lo,2),6); return (int)C.I("ranks_many",2,big); }
// ---------------------------------------------------------------- P01: distributed sort on plain records
struct R3 { u64 key; i64 id; u64 pay; };
SCENARIO(p01_sort,"P01",3,"hydro1"){
  int n=(int)C.I("ranks_kind",0,3)==0? (int)C.I("ranks_many",2,C.maxranks):(int)C.I("ranks",2,6); JobSpec s; s.lib="hydro1"; s.nranks=n; C.net(s);
  int kind=(int)C.I("keys",0,5); int per=(int)C.I("per_rank",1,40); if(C.B("big",.01)) per=(int)C.I("per_rank_big",100,3000); bool even=C.B("uneven",.5)==0; Rng r=C.R("data");
  vector<int> cnt(n); for(int i=0;i<n;++i) cnt[i]= even? per : 1+(int)r.below(2*per); if(!even&&C.B("empty",.4)){ for(int i=0;i<n;++i) if(r.below(3)==0) cnt[i]=0; cnt[r.below(n)]=per; }
  vector<vector<R3>> v(n); i64 id=0; vector<R3> all; int nk=1+(int)C.I("distinct",0,20); int tot=0; for(int c:cnt) tot+=c; int at=0;
  for(int i=0;i<n;++i) for(int j=0;j<cnt[i];++j,++at){ R3 x; x.id=id++; x.pay=mix64(x.id*77+1);
      if(kind==0) x.key=r.next(); else if(kind==1) x.key=r.below(nk); else if(kind==2) x.key=at; else if(kind==3) x.key=tot-at; else if(kind==4) x.key=42; else x.key= r.below(4)? r.below(3) : r.next();
      v[i].push_back(x); }
  if(C.B("shuffle_ids",.5)) { vector<i64> p(tot); for(int i=0;i<tot;++i) p[i]=i; for(int i=tot;i>1;--i) std::swap(p[i-1],p[r.below(i)]); for(auto&w:v) for(auto&x:w) x.id=p[x.id]; }
  for(int i=0;i<n;++i){ s.in["rec"+std::to_string(i)]=C.blob(v[i]); all.insert(all.end(),v[i].begin(),v[i].end()); }
  vector<int> dst=cnt; int want=(int)C.I("want",0,3); if(want==1){ for(int i=0;i<n;++i) dst[i]=tot/n+(i<tot%n?1:0); } else if(want>=2){ int least=want==2&&tot>=n; int rest=tot-least*n; for(int i=0;i<n;++i) dst[i]=least; for(int i=0;i<n&&rest>0;++i){ int q= i==n-1? rest : (int)r.below(rest+1); dst[i]+=q; rest-=q; } for(int i=n;i>1;--i) std::swap(dst[i-1],dst[r.below(i)]); } cnt=dst;
  s.in["dist"]=C.blob(dst); s.workload="sort\n"; JobResult R=C.run(s);
  std::sort(all.begin(),all.end(),[](const R3&a,const R3&b){ return a.key!=b.key? a.key<b.key : a.id<b.id; }); size_t p=0;
  for(int i=0;i<n;++i){ auto*q=R.find(i,"sorted"); if(!q) C.fail("no-result","rank produced nothing"); auto o=q->as<R3>(); if((int)o.size()!=cnt[i]) C.fail("distribution",fmt("rank %d holds %zu records, %d requested",i,o.size(),cnt[i]));
    for(auto&x:o){ C.checks++; if(p>=all.size()||memcmp(&x,&all[p],sizeof x)) C.fail("not-sorted",fmt("rank %d: record (key %llu,id %lld) where (key %llu,id %lld) belongs at position %zu",i,(unsigned long long)x.key,(long long)x.id,(unsigned long long)(p<all.size()?all[p].key:0),(long long)(p<all.size()?all[p].id:0),p)); ++p; } }
  if(p!=all.size()) C.fail("lost-records",fmt("%zu of %zu records after the sort",p,all.size()));
}
// ---------------------------------------------------------------- common set-up of a particle system
struct World { int dim,n,ranks; vector<Part> P; string w; JobSpec s; };
static string tab(const vector<Part>&P){ vector<double> t; t.push_back((double)P[0].id); for(auto&p:P){ for(int d=0;d<3;++d) t.push_back(p.x[d]); for(int d=0;d<3;++d) t.push_back(p.v[d]); t.push_back(p.h); t.push_back(p.m); } return Ctx::blob(t); }
static World world(Ctx&C,int dim,int nmin,int nmax,bool allow_varh,int minper=2,int lo_ranks=1){
  World W; W.dim=dim; W.ranks=draw_ranks(C,lo_ranks); W.n=(int)C.I("n",nmin,nmax); if(C.B("big",.01)){ W.n=(int)C.I("n_big",nmax,C.thorough?3000:2000); W.ranks=std::min(W.ranks,4); W.s.max_steps=60000000; } if(W.n<W.ranks*minper) W.n=W.ranks*minper; 
  GenOpt o; o.dim=dim; o.n=W.n; o.varh=allow_varh&&C.B("varh",.5); o.hscale=C.pick("hscale",{1.3,0.6,2.5}); o.id0=C.I("id0",0,3)*1000; W.P=gen_parts(C,"parts",o); W.n=(int)W.P.size(); if(W.n<W.ranks) W.ranks=1;
  W.s.lib=libfor(dim); W.s.nranks=W.ranks; C.net(W.s); h5_host_write("in.h5part",parts_file(W.P,dim,0,0.)); write_text("sim.par","initial_data_prefix = \"in\"\noutput_h5data_prefix = \"out\"\n");
  W.w="params sim.par\nnew\nread in out 0\n"; return W; }
static void move_parts(Ctx&C,World&W,int it){ Rng r=C.R("move"+std::to_string(it)); int how=(int)C.I("move_kind"+std::to_string(it),0,2); double amp= how==0?.02: how==1?.3:0; if(how==2){ vector<int> p(W.n); for(int i=0;i<W.n;++i) p[i]=i; for(int i=W.n;i>1;--i) std::swap(p[i-1],p[r.below(i)]); vector<Part> q=W.P; for(int i=0;i<W.n;++i) for(int d=0;d<3;++d) W.P[i].x[d]=q[p[i]].x[d]; }
  for(auto&p:W.P){ for(int d=0;d<W.dim;++d){ p.x[d]+=amp*r.range(-1,1); p.v[d]=r.range(-1,1); } p.m=r.range(.5,1.5); } }
// brute force neighbour rule: must contain everything within the mean h (the kernel support), nothing beyond the larger h
static void check_ngb(Ctx&C,const World&W,const JobResult&R,const string&tag,int field,int nth,const map<i64,u64>*expect){
  map<i64,const Part*> by; for(auto&p:W.P) by[p.id]=&p; std::set<i64> seen; map<i64,u64> own;
  for(auto*r:R.all(tag+".own")){ auto v=r->as<i64>(); for(size_t i=0;i+1<v.size();i+=2) own[v[i]]=(u64)v[i+1]; }
  for(auto*r:R.all(tag)){ auto v=r->as<i64>(); size_t i=0; while(i<v.size()){ i64 id=v[i++]; i64 c=v[i++]; if(!by.count(id)) C.fail("alien-particle",fmt("traversal visited unknown particle %lld",(long long)id)); if(!seen.insert(id).second) C.fail("visited-twice",fmt("particle %lld was processed twice in one traversal",(long long)id)); const Part&a=*by[id]; std::set<i64> ns;
      for(i64 k=0;k<c;++k){ i64 j=v[i++]; u64 h=(u64)v[i++]; C.checks++; if(!ns.insert(j).second) C.fail("duplicate-neighbour",fmt("particle %lld received neighbour %lld twice",(long long)id,(long long)j)); if(!by.count(j)) C.fail("alien-particle",fmt("unknown neighbour %lld",(long long)j)); if(own[j]!=h) C.fail("stale-neighbour",fmt("particle %lld (rank %d) saw a copy of neighbour %lld whose data differ from its owner's",(long long)id,r->rank,(long long)j)); }
      for(auto&q:W.P){ double d2=0; for(int d=0;d<W.dim;++d) d2+=(a.x[d]-q.x[d])*(a.x[d]-q.x[d]); double d=std::sqrt(d2),mean=.5*(a.h+q.h); C.checks++;
        if(d<mean*(1-1e-9)&&!ns.count(q.id)) C.fail("missing-neighbour",fmt("particle %lld misses neighbour %lld at distance %.6g (smoothing lengths %.6g %.6g)",(long long)id,(long long)q.id,d,a.h,q.h));
        if(d>mean*(1+1e-9)&&ns.count(q.id)) C.fail("false-neighbour",fmt("particle %lld got neighbour %lld at distance %.6g beyond %.6g",(long long)id,(long long)q.id,d,mean)); } } }
  if(seen.size()!=W.P.size()) C.fail("not-visited",fmt("traversal processed %zu of %zu particles",seen.size(),W.P.size()));
}
static void check_decomposition(Ctx&C,const World&W,const JobResult&R,const string&tag,const string&keytag,int nth,bool values=true){
  map<i64,const Part*> by; for(auto&p:W.P) by[p.id]=&p; std::set<i64> seen; size_t mn=~0ul,mx=0; u64 lk=0; i64 lid=-1; 
  for(int k=0;k<W.ranks;++k){ auto*r=R.find(k,tag); auto*q=R.find(k,keytag); if(!r||!q) C.fail("no-result","missing record"); auto v=rows(*r); mn=std::min(mn,v.size()); mx=std::max(mx,v.size()); auto kv=q->as<i64>();
    for(size_t i=0;i<v.size();++i){ C.checks++; i64 id=v[i].id(); if(!by.count(id)) C.fail("alien-particle",fmt("unknown particle %lld on rank %d",(long long)id,k)); if(!seen.insert(id).second) C.fail("duplicated-particle",fmt("particle %lld exists twice",(long long)id)); const Part&p=*by[id]; const double*o=v[i].v;
      if(values){ bool same=o[3]==p.m&&o[4]==p.h&&o[2]==p.state; for(int d=0;d<W.dim;++d) same=same&&o[9+d]==p.x[d]&&o[12+d]==p.v[d]; if(!same) C.fail("particle-changed",fmt("particle %lld changed while being redistributed",(long long)id)); }
      u64 key=(u64)kv[2*i]; if(kv[2*i+1]!=id) C.fail("no-result","key record mismatch"); if(key<lk||(key==lk&&id<=lid)) C.fail("order",fmt("particle %lld on rank %d breaks the global key order",(long long)id,k)); lk=key; lid=id; } }
  if(seen.size()!=W.P.size()) C.fail("lost-particle",fmt("%zu of %zu particles left",seen.size(),W.P.size()));
  // one box for all ranks, and the order keeps the cells of every halving of that box together
  { vector<double> box; for(auto*r:R.all(keytag+".range")){ auto g=r->as<double>(); if(box.empty()) box=g; if(g!=box) C.fail("range",fmt("rank %d uses another box than rank 0",r->rank)); } if((int)R.all(keytag+".range").size()!=W.ranks) C.fail("no-result","range record missing"); vector<const Part*> seq; for(int k=0;k<W.ranks;++k){ auto kv=R.find(k,keytag)->as<i64>(); for(size_t i=1;i<kv.size();i+=2) seq.push_back(by[kv[i]]); }
    for(auto*p:seq) for(int d=0;d<W.dim;++d) if(p->x[d]<box[d]||p->x[d]>box[3+d]) C.fail("range",fmt("particle %lld lies outside the box of the order",(long long)p->id));
    for(int L=1;L<=6;++L){ std::set<i64> done; i64 cur=-1; for(auto*p:seq){ i64 c=0; bool edge=false; for(int d=0;d<W.dim;++d){ double z=(p->x[d]-box[d])/(box[3+d]-box[d])*(1<<L),f=std::floor(z); if(z-f<1e-6||z-f>1-1e-6) edge=true; c=c*128+(i64)f; } if(edge||c==cur) continue; C.checks++; if(!done.insert(c).second) C.fail("not-compact",fmt("particle %lld returns to a cell of level %d that the order had left",(long long)p->id,L)); cur=c; } } }
  if(mx-mn>1) C.fail("imbalance",fmt("ranks hold between %zu and %zu particles",mn,mx));
}
static void check_root(Ctx&C,const World&W,const JobResult&R,const string&tag){
  double M=0,c[3]={0,0,0},lo[3],hi[3]; for(int d=0;d<3;++d){ lo[d]=1e300; hi[d]=-1e300; }
  for(auto&p:W.P){ M+=p.m; for(int d=0;d<W.dim;++d){ c[d]+=p.m*p.x[d]; lo[d]=std::min(lo[d],p.x[d]-p.h/2); hi[d]=std::max(hi[d],p.x[d]+p.h/2); } } for(int d=0;d<3;++d) c[d]/=M; double ext=0; for(int d=0;d<W.dim;++d) ext=std::max(ext,hi[d]-lo[d]);
  double rad=0,lap=0; for(auto&p:W.P){ double d2=0; for(int d=0;d<W.dim;++d) d2+=(p.x[d]-c[d])*(p.x[d]-c[d]); rad=std::max(rad,std::sqrt(d2)); lap=std::max(lap,std::sqrt(d2)+p.h); }
  auto a=R.all(tag); if((int)a.size()!=W.ranks) C.fail("no-result","root record missing");
  for(auto*r:a){ auto v=r->as<double>(); C.checks++; if((i64)v[1]!=(i64)W.P.size()) C.fail("aggregate",fmt("rank %d: the root node counts %.0f of %zu particles",r->rank,v[1],W.P.size()));
    if(!close_to(v[0],M,1e-11)) C.fail("aggregate",fmt("rank %d: root mass %.17g instead of %.17g",r->rank,v[0],M));
    for(int d=0;d<W.dim;++d){ if(!close_to(v[3+d],c[d],0,1e-11*ext)) C.fail("aggregate",fmt("rank %d: root centre of mass %.17g instead of %.17g",r->rank,v[3+d],c[d])); if(!close_to(v[6+d],lo[d],0,1e-12*ext)||!close_to(v[9+d],hi[d],0,1e-12*ext)) C.fail("aggregate",fmt("rank %d: root bounding box [%.17g,%.17g] instead of [%.17g,%.17g]",r->rank,v[6+d],v[9+d],lo[d],hi[d])); }
    if(v[2]<rad*(1-1e-9)||v[12]<lap*(1-1e-9)) C.fail("aggregate",fmt("rank %d: root radius %.9g / reach %.9g smaller than needed %.9g / %.9g",r->rank,v[2],v[12],rad,lap)); }
}
// ---------------------------------------------------------------- P02/P03: decomposition over several steps, aggregates
static void decomposition(Ctx&C,bool roots){
  int dim=(int)C.I("dim",1,3); World W=world(C,dim,6,C.thorough?220:120,true); int steps=(int)C.I("steps",1,4); vector<World> hist;
  for(int k=0;k<steps;++k){ string K=std::to_string(k); move_parts(C,W,k); W.s.in["pos"+K]=tab(W.P); W.w+="set pos"+K+"\n"; 
    if(C.B("exchange"+K,.4)){ Rng r=C.R("own"+K); vector<int32_t> o; o.push_back((int)W.P[0].id); vector<int> cnt(W.ranks,0); bool even=!C.B("uneven"+K,.5); int i=0; vector<int> perm(W.n); for(int q=0;q<W.n;++q) perm[q]=q%W.ranks; for(int q=W.n;q>1;--q) std::swap(perm[q-1],perm[r.below(q)]); for(auto&p:W.P){ (void)p; o.push_back(even? perm[i] : (i<W.ranks? i : (int)(r.below(W.ranks)*r.below(W.ranks+1)/std::max(1,W.ranks)))); ++i; } W.s.in["own"+K]=C.blob(o); W.w+="exchange own"+K+"\n"; }
    if(C.B("shuffle"+K,.5)) W.w+="shuffle "+std::to_string(C.I("sh"+K,1,9))+"\n";
    W.w+="update\nemit b"+K+"\nkeys k"+K+"\n"; if(roots){ W.w+="root r"+K+"\n"; if(C.B("trav"+K,.5)) W.w+="ngb g"+K+"\n"; if(C.B("reset"+K,.5)) W.w+="reset\nroot s"+K+"\n"; } hist.push_back(W); }
  W.s.workload=W.w; JobResult R=C.run(W.s);
  for(int k=0;k<steps;++k){ string K=std::to_string(k); if(roots){ check_root(C,hist[k],R,"r"+K); if(R.find(0,"s"+K)) check_root(C,hist[k],R,"s"+K); } else check_decomposition(C,hist[k],R,"b"+K,"k"+K,0); }
  for(auto*r:R.all("counts")){ auto v=r->as<i64>(); if(v[0]!=W.n) C.fail("count",fmt("rank %d believes there are %lld particles instead of %d",r->rank,(long long)v[0],W.n)); }
}
SCENARIO(p02_decomp,"P02",1,"hydro1","hydro2","hydro3"){ decomposition(C,false); }
SCENARIO(p03_roots,"P03",1,"hydro1","hydro2","hydro3"){ decomposition(C,true); }
// ---------------------------------------------------------------- P04/P05/P06: traversal, ghosts, liveness
static void traversal(Ctx&C,int mode){
  int dim=(int)C.I("dim",1,3); World W=world(C,dim,10,C.thorough?500:260,true,2,mode==4?1:2); int steps=(int)C.I("steps",1,3); vector<World> hist; int fld=1; vector<std::pair<string,int>> tags;
  for(int k=0;k<steps;++k){ string K=std::to_string(k); move_parts(C,W,k); W.s.in["pos"+K]=tab(W.P); W.w+="set pos"+K+"\nfield "+std::to_string(fld++)+"\nupdate\n"; int rounds=(int)C.I("rounds"+K,1,3);
    for(int r=0;r<rounds;++r){ string T="t"+K+"_"+std::to_string(r); if(r>0||C.B("early_reset"+K,.3)){ W.w+="field "+std::to_string(fld++)+"\nreset\n"; } W.w+="ngb "+T+"\n"; if(mode!=5&&C.B("again"+T,.3)){ W.w+="ngb "+T+"b\n"; tags.push_back({T+"b",k}); } tags.push_back({T,k}); } 
    if(mode==6&&dim==3&&C.B("grav"+K,.5)) W.w+="grav 0.5\n"; hist.push_back(W); }
  W.s.workload=W.w; JobResult R=C.run(W.s); for(auto&t:tags) check_ngb(C,hist[t.second],R,t.first,0,0,nullptr);
}
SCENARIO(p04_trav,"P04",1,"hydro1","hydro2","hydro3"){ traversal(C,4); }
SCENARIO(p05_ghost,"P05",1,"hydro1","hydro2","hydro3"){ traversal(C,5); }
SCENARIO(p06_live,"P06",1,"hydro1","hydro2","hydro3"){ traversal(C,6); }
// ---------------------------------------------------------------- P07: gravity
SCENARIO(p07_grav,"P07",1,"newton3"){
  World W=world(C,3,8,C.thorough?200:110,false,2); W.s.lib="newton3"; double mac=C.pick("mac",{0,0,0.02,0.1,0.4,0.05});
  if(mac>0&&C.B("tight",.6)){ Rng r=C.R("cl"); int nc=2+(int)r.below(4); vector<double> c(3*nc); for(auto&x:c) x=r.range(-1,1); double eps=mac*C.pick("eps",{.01,.1,.3}); int i=0; for(auto&p:W.P){ int k=i++%nc; for(int d=0;d<3;++d) p.x[d]=c[3*k+d]+eps*r.range(-.5,.5); } W.s.in["pos"]=tab(W.P); W.w+="set pos\n"; }
  W.w+="update\ngrav "+fmt("%.3f",mac)+"\nemit g\n"; bool twice=C.B("twice",.4); if(twice) W.w+="reset\ngrav "+fmt("%.3f",mac)+"\nemit g2\n"; bool sph=C.B("sph_before",.3); if(sph){ size_t p=W.w.find("grav "); W.w.insert(p,"ngb q\n"); }
  double G=C.pick("G",{1.0,6.67408e-8,3.5}); write_text("sim.par","initial_data_prefix = \"in\"\noutput_h5data_prefix = \"out\"\nenable_fmm = yes\ngravitational_constant = "+fmt("%.10g",G)+"\n"); W.s.workload=W.w; JobResult R=C.run(W.s);
  for(int pass=0;pass<(twice?2:1);++pass){ map<i64,Row> got; for(auto*r:R.all(pass?"g2":"g")) for(auto&x:rows(*r)) got[x.id()]=x; if(got.size()!=W.P.size()) C.fail("lost-particle","gravity output incomplete");
    for(auto&p:W.P){ double a[3]={0,0,0},pot=0,bound=0,ab[3]={0,0,0}; for(auto&q:W.P) if(q.id!=p.id){ double r[3],d2=0; for(int d=0;d<3;++d){ r[d]=p.x[d]-q.x[d]; d2+=r[d]*r[d]; } double d=std::sqrt(d2); pot-=G*q.m/d; bound+=G*q.m/d2; for(int k=0;k<3;++k){ a[k]-=G*q.m*r[k]/(d2*d); ab[k]+=std::fabs(G*q.m*r[k]/(d2*d)); } }
      const double*o=got[p.id].v; C.checks++; double i3=std::pow(1-mac,3); // expansion to first order about both centres of mass: remainder of second order in the opening angle for the potential, of first order for the acceleration
      double tolp= mac==0? 1e-9 : std::min(std::max((1+mac)*(1+mac)-1,1-(1-mac)*(1-mac)),mac*mac*(1+mac)/i3)*1.0001+1e-9; if(!(std::fabs(o[21]-pot)<=tolp*std::fabs(pot))) C.fail("gravity-potential",fmt("particle %lld: potential %.12g, direct sum %.12g (mac %.3f)",(long long)p.id,o[21],pot,mac));
      double q=mac; double tola= mac==0? 1e-9*bound : bound*std::min(std::pow((1+q)/(1-std::min(q,.9)),3)-1+q,2*q*(1+q)*(1+q)/i3)*1.01+1e-9*bound; double e=0; for(int k=0;k<3;++k) e+=(o[18+k]-a[k])*(o[18+k]-a[k]); if(!(std::sqrt(e)<=tola)) C.fail("gravity-acceleration",fmt("particle %lld: acceleration error %.6g exceeds %.6g (mac %.3f)",(long long)p.id,std::sqrt(e),tola,mac)); } }
}
