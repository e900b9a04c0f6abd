// Scenarios for the snapshot files: round trips, identifiers, crashes, restarts, clean-up, disk errors.
#include "ref.h"
#include <sys/stat.h>
#include <unistd.h>
#include "drv.h"
static int nranks(Ctx&C,const string&nm){ i64 k=C.I(nm+"_kind",0,9); if(k==0) return 1; if(k<=7) return (int)C.I(nm,2,6); return (int)C.I(nm+"_many",2,C.maxranks); }
static string ptab(const vector<Part>&P){ vector<double> t; t.push_back((double)P[0].id); for(auto&p:P){ for(int d=0;d<3;++d) t.push_back(p.x[d]); for(int d=0;d<3;++d) t.push_back(p.v[d]); t.push_back(p.h); t.push_back(p.m); } return Ctx::blob(t); }
static string lib(int dim){ return "hydro"+std::to_string(dim); }
static string iopar(const string&in,const string&out,i64 it,bool sep){ return "initial_data_prefix = \""+in+"\"\noutput_h5data_prefix = \""+out+"\"\n"+fmt("initial_iteration = %lld\nfinal_iteration = 1000\n",(long long)it)+"out_h5data_separate_iterations = "+(sep?"yes":"no")+"\n"; }
static vector<Part> particles(Ctx&C,int dim,int n,bool types=true){ GenOpt o; o.dim=dim; o.n=n; o.kind=0; o.varh=true; o.id0=(i64)C.pick("id0",{0,1,5000}); vector<Part> P=gen_parts(C,"parts",o); Rng r=C.R("extra"); for(auto&p:P){ p.state=(int)r.below(1000); p.rho=r.range(.1,5); p.P=r.range(.1,5); p.u=r.range(.1,5); p.dt=r.range(.001,.1); p.m=r.range(.1,2); if(types) p.type=(int)r.below(2); } return P; }
// ---------------------------------------------------------------- P13: what is written is what is read, on any number of ranks
typedef map<i64,Row> Rows;
// directories of short and of long names: prefixes may be as long as parameters can be (510 characters)
static string subname(Ctx&C){ i64 L=C.B("long_name",.3)? C.pick("name_length",{60,108,114,125,200,235,250}) : 3; string s="sub"; while((i64)s.size()<L) s+=(char)('a'+s.size()%26); return s; }
static Rows gather(Ctx&C,const JobResult&R,const string&tag,int n){ Rows m; for(int k=0;k<n;++k){ auto*r=R.find(k,tag); if(!r) C.fail("no-result","missing record "+tag); for(auto&q:rows(*r)) if(!m.insert({q.id(),q}).second) C.fail("duplicated-particle",fmt("particle %lld exists twice",(long long)q.id())); } return m; }
SCENARIO(p13_roundtrip,"P13",1,"hydro1","hydro2","hydro3"){
  int dim=(int)C.I("dim",1,3); int N=nranks(C,"wr"),M=nranks(C,"rd"); int n=(int)C.I("n",1,C.thorough?120:60); if(C.B("big",.01)) n=(int)C.I("n_big",100,3000); if(!C.B("few",.15)) n=std::max(n,2*std::max(N,M)); bool sep=C.B("separate",.5); int K=(int)C.I("steps",1,4); bool ids=true; auto P=particles(C,dim,n); bool own=C.B("uneven",.6); string pre=C.B("subdir",.3)?subname(C)+"/out":"out"; if(pre[0]=='s') mkdir(pre.substr(0,pre.size()-4).c_str(),0755);
  JobSpec s; s.lib=lib(dim); s.nranks=N; C.net(s); HContent in=parts_file(P,dim,0,0.,ids); if(C.B("lacking",.3)){ static const char*opt[]={"vx","vy","vz","m","rho","h","P","u","dt","type","state"}; for(int i=0;i<11;++i) if(C.B(string("lacks_")+opt[i],.35)){ in.o.erase(string("Step#0/")+opt[i]); for(auto&p:P) switch(i){ case 0: case 1: case 2: p.v[i]=0; break; case 3: p.m=0; break; case 4: p.rho=0; break; case 5: p.h=0; break; case 6: p.P=0; break; case 7: p.u=0; break; case 8: p.dt=0; break; case 9: p.type=0; break; default: p.state=0; } } }
  h5_host_write("in.h5part",in); write_text("w.par",iopar("in",pre,0,sep)); string w="params w.par\nnew\nread in "+pre+" 0\nemit w_in\n"; vector<i64> it(K); vector<double> tm(K),dt(K); i64 cur=C.I("it0",0,3);
  for(int k=0;k<K;++k){ string S=std::to_string(k); it[k]=cur; cur+=C.I("gap"+S,1,40); tm[k]=C.U("time"+S,0,9); dt[k]=C.U("dt"+S,.001,.1); if(own&&C.B("exch"+S,.7)){ Rng r=C.R("own"+S); vector<int> o(n+1); o[0]=(int)P[0].id; bool empty=C.B("empty"+S,.2); for(int i=0;i<n;++i) o[i+1]= empty? (int)r.below(std::max(1,N/2)) : (int)r.below(N); s.in["own"+S]=C.blob(o); w+="exchange own"+S+"\n"; }
    if(C.B("shuf"+S,.3)) w+="shuffle "+S+"7\n"; w+="field "+S+"\n"; if(C.B("af"+S,.7)) w+="afield "+S+"\n"; w+=fmt("settime %lld %.17g %.17g\nwrite %s %lld %.17g\nemit w_%d\n",(long long)it[k],tm[k],dt[k],pre.c_str(),(long long)it[k],tm[k],k); }
  s.workload=w; JobResult J=C.run(s); vector<Rows> W; { Rows m=gather(C,J,"w_in",N); for(auto&p:P){ C.checks++; auto i=m.find(p.id); if(i==m.end()) C.fail("lost-particle",fmt("particle %lld not read",(long long)p.id)); const double*o=i->second.v; bool same=o[1]==p.type&&o[2]==p.state&&o[3]==p.m&&o[4]==p.h&&o[5]==p.rho&&o[6]==p.P&&o[7]==p.u&&o[8]==p.dt; for(int d=0;d<dim;++d) same=same&&o[9+d]==p.x[d]&&o[12+d]==p.v[d]; if(!same) C.fail("field",fmt("particle %lld read with other values than the input file holds",(long long)p.id)); } }
  for(int k=0;k<K;++k){ W.push_back(gather(C,J,"w_"+std::to_string(k),N)); HContent c=file(C,sep?pre+fmt("_%05d.h5part",k):pre+".h5part"); string g="Step#"+std::to_string(k); i64 fi=-1,fd=-1; double ft=-1,fdt=-1; if(!h5_get_attri(c,g,"iteration",fi)||!h5_get_attr(c,g,"time",ft)||!h5_get_attr(c,g,"timestep",fdt)||!h5_get_attri(c,"","dimension",fd)) C.fail("no-output",fmt("snapshot %d lacks attributes",k)); if(fi!=it[k]||ft!=tm[k]||fdt!=dt[k]||fd!=dim) C.fail("attribute",fmt("snapshot %d holds iteration %lld time %g step %g",k,(long long)fi,ft,fdt));
    Snap q=snap(c,k); if(!q.ok||q.p.size()!=W[k].size()) C.fail("no-output",fmt("snapshot %d is incomplete",k)); for(auto&x:W[k]){ auto i=q.p.find(x.first); if(i==q.p.end()) C.fail("lost-particle",fmt("particle %lld not in snapshot %d",(long long)x.first,k)); auto&f=i->second; const double*o=x.second.v; static const char*X[]={"x","y","z"};
      auto ck=[&](const string&nm,double v){ C.checks++; if(f.at(nm)!=v) C.fail("field",fmt("snapshot %d: particle %lld has %s %.17g instead of %.17g",k,(long long)x.first,nm.c_str(),f.at(nm),v)); }; ck("m",o[3]); ck("h",o[4]); ck("rho",o[5]); ck("P",o[6]); ck("u",o[7]); ck("dt",o[8]); ck("type",o[1]); ck("state",o[2]); ck("neighbors",o[22]); for(int d=0;d<3;++d){ ck(X[d],d<dim?o[9+d]:0); ck(string("v")+X[d],d<dim?o[12+d]:0); ck(string("a")+X[d],d<dim?o[15+d]+o[18+d]:0); } double rk=f.at("rank"); if(!(rk>=0&&rk<N)) C.fail("field",fmt("snapshot %d: particle %lld claims rank %g",k,(long long)x.first,rk)); } }
  vector<int> order; for(int k=0;k<K;++k) if(it[k]>0) order.push_back(k); int R=(int)C.I("reads",1,2); for(int q=0;q<R&&order.size();++q){ string S="r"+std::to_string(q); int k=order[(size_t)C.I(S+"pick",0,1000)%order.size()]; JobSpec t; t.lib=lib(dim); t.nranks=M; C.net(t,"rnet."); write_text("r.par",iopar(pre,"other",it[k],sep)); t.workload=fmt("params r.par\nnew\nread %s other %lld\nemit r\n",pre.c_str(),(long long)it[k]); JobResult L=C.run(t); Rows G=gather(C,L,"r",M); if(G.size()!=W[k].size()) C.fail("lost-particle",fmt("%zu of %zu particles read back",G.size(),W[k].size()));
    for(auto*r:L.all("readtime")){ auto v=r->as<double>(); C.checks++; if(v[1]!=tm[k]||v[2]!=dt[k]) C.fail("restart-time",fmt("rank %d restarts at time %.17g step %.17g instead of %.17g, %.17g",r->rank,v[1],v[2],tm[k],dt[k])); } for(auto*r:L.all("readn")){ auto v=r->as<i64>(); if(v[0]!=(i64)n) C.fail("count",fmt("rank %d counts %lld particles",r->rank,(long long)v[0])); }
    for(auto&x:W[k]){ auto i=G.find(x.first); if(i==G.end()) C.fail("lost-particle",fmt("particle %lld not read back",(long long)x.first)); for(int f=0;f<15;++f){ C.checks++; if(i->second.v[f]!=x.second.v[f]) C.fail("field",fmt("particle %lld: field %d read back as %.17g instead of %.17g",(long long)x.first,f,i->second.v[f],x.second.v[f])); } } } }
// ---------------------------------------------------------------- P14: identifiers for files that lack them
SCENARIO(p14_ids,"P14",1,"hydro1","hydro2","hydro3"){ int dim=(int)C.I("dim",1,3); int M=nranks(C,"rd"); int n=(int)C.I("n",1,60); if(C.B("big",.01)) n=(int)C.I("n_big",100,3000); if(!C.B("few",.15)) n=std::max(n,M); auto P=particles(C,dim,n,false); h5_host_write("in.h5part",parts_file(P,dim,0,0.,false)); write_text("r.par",iopar("in","out",0,false)); JobSpec s; s.lib=lib(dim); s.nranks=M; C.net(s); s.workload="params r.par\nnew\nread in out 0\nemit r\n"; JobResult J=C.run(s); Rows G=gather(C,J,"r",M); if((int)G.size()!=n) C.fail("lost-particle","particles lost");
  for(int i=0;i<n;++i){ C.checks++; auto it=G.find(i+1); if(it==G.end()) C.fail("identifier",fmt("no particle got identifier %d of 1..%d",i+1,n)); for(int d=0;d<dim;++d) if(it->second.v[9+d]!=P[i].x[d]) C.fail("identifier",fmt("identifier %d went to another particle of the file",i+1)); } }
// ---------------------------------------------------------------- P16/P17: restart finds the requested iteration; clean-up removes only stale snapshots
struct Disk { map<string,string> f; };
static Disk disk(){ Disk d; for(auto&n:list_dir(".")){ struct stat sb; if(stat(n.c_str(),&sb)) continue; if(S_ISDIR(sb.st_mode)){ for(auto&m:list_dir(n)){ string p=n+"/"+m; if(!stat(p.c_str(),&sb)&&S_ISREG(sb.st_mode)) d.f[p]=read_text(p); } } else d.f[n]=read_text(n); } return d; }
static string sname(const string&p,int k){ return p+fmt("_%05d.h5part",k); }
static void restart_pick(Ctx&C,bool cleanup){
  int dim=(int)C.I("dim",1,3); int M=nranks(C,"rd"); bool insep=C.B("in_separate",.6),outsep=C.B("out_separate",.6); bool insub=C.B("in_sub",.35),outsub=C.B("out_sub",.35); bool same=C.B("same",.4); if(same){ outsep=insep; outsub=insub; } string sub=insub||outsub?subname(C):"sub"; mkdir(sub.c_str(),0755); string ip=insub?sub+"/run":"run", op= same? ip : (outsub?sub+"/new":"new");
  int K=(int)C.I("steps",1,6); int base=(int)C.I("first",0,2)==0?0:(int)C.I("first_step",0,40); if(!insep) base=0; Rng r=C.R("its"); vector<i64> it(K); i64 cur=1+(i64)r.below(5); vector<vector<Part>> S; vector<double> tm; HContent single; vector<int> st; int sk=base;
  for(int k=0;k<K;++k){ it[k]=cur; cur+=1+r.below(20); GenOpt o; o.dim=dim; o.n=std::max(M,(int)(3+r.below(30))); o.kind=0; o.id0=1; S.push_back(gen_parts(C,"p"+std::to_string(k),o)); tm.push_back(r.range(0,9)); st.push_back(sk); sk+= insep&&r.below(3)==0?2:1; if(insep) h5_host_write(sname(ip,st[k]),parts_file(S[k],dim,st[k],tm[k],true,(int)it[k],.01*(k+1))); else put_step(single,S[k],dim,st[k],tm[k],true,(int)it[k],.01*(k+1)); } if(!insep) h5_host_write(ip+".h5part",single);
  // bystanders that resemble snapshots
  vector<string> by={"run2_00001.h5part","xrun_00002.h5part","run_123.h5part","run_0000a.h5part","run_00001.h5part.bak","new2_00003.h5part","anew_00001.h5part","new_00001.h5part.old","new_1.h5part","new-00004.h5part","newx00005.h5part","run-00006.h5part","run300004.h5part","new300001.h5part",sub+"/new-00002.h5part",sub+"/run-00009.h5part","notes.txt",sub+"/run2_00001.h5part",sub+"/new_1.h5part",sub+"/anew_00001.h5part",sub+"/notes.txt","new.dat"}; for(size_t i=0;i<by.size();++i) if(r.below(2)) write_text(by[i],fmt("bystander %zu",i));
  // stale output of an earlier run, also in the directory that is not used now
  if(!same){ for(string d:{string(),sub+"/"}) for(int k=0;k<4;++k) if(r.below(2)) h5_host_write(sname(d+"new",k*3),parts_file(S[0],dim,k*3,0,true,k)); for(string d:{string(),sub+"/"}) if(r.below(2)) h5_host_write(d+"new.h5part",parts_file(S[0],dim,0,0,true,0)); } else if(insep&&insub) for(int k=0;k<K;++k) if(r.below(2)) h5_host_write(sname("run",st[k]),parts_file(S[0],dim,st[k],0,true,7000+k));
  bool absent=C.B("absent",insep?.25:.04); bool nofile=C.B("nofile",.08); if(nofile) absent=true; int pick=(int)(r.below(K)); if(same&&!insep) pick=K-1; i64 want=it[pick]; if(absent){ want=5000+(i64)r.below(50); if(r.below(2)&&K>1){ i64 w=it[0]+1; bool used=false; for(i64 q:it) used|=q==w; if(!used) want=w; } }
  if(nofile){ if(r.below(2)) want=0; if(insep) for(int k=0;k<K;++k) unlink(sname(ip,st[k]).c_str()); else unlink((ip+".h5part").c_str()); if(want==0){ unlink((ip+".h5part").c_str()); } }
  bool notlast=same&&!insep&&!absent&&K>1&&C.B("notlast",.3); if(notlast){ pick=(int)r.below(K-1); want=it[pick]; }
  // a damaged file: cut short, holding a step of another number, or without its iteration
  if(insep&&C.B("torn",.45)){ int tk=sk+(int)r.below(3); if(C.B("torn_early",.4)) for(int q=0;q<sk;++q){ int z=(int)r.below(sk); if(std::find(st.begin(),st.end(),z)==st.end()){ tk=z; break; } } int kind=(int)C.I("torn_kind",0,3); HContent h=parts_file(S[0],dim,kind==2?tk+1:tk,0,true,kind>=2?(int)want:9000); if(kind==3) h.o["Step#"+std::to_string(tk)].attrs.erase("iteration"); string z=h5_serialize(h); if(kind<2) z.resize(kind==1?0:r.below(z.size())); write_text(sname(ip,tk),z); }
  write_text("r.par",iopar(ip,op,want,outsep)); Disk before=disk(); JobSpec s; s.lib=lib(dim); s.nranks=M; C.net(s); s.allow_exit=true; s.workload=fmt("params r.par\nnew\nread %s %s %lld\nemit r\n",ip.c_str(),op.c_str(),(long long)want); JobResult J=C.run(s); Disk after=disk();
  auto diff=[&](std::set<string> gone){ for(auto&f:before.f){ C.checks++; auto q=after.f.find(f.first); bool g=gone.count(f.first); if(!g&&q==after.f.end()) C.fail("file-removed","file "+f.first+" was removed"); if(!g&&q->second!=f.second) C.fail("file-changed","file "+f.first+" was changed"); if(g&&q!=after.f.end()) C.fail("stale-file","stale snapshot "+f.first+" was left in place"); } for(auto&f:after.f) if(!before.f.count(f.first)) C.fail("file-created","file "+f.first+" was created by reading"); };
  if(absent||notlast){ if(!cleanup&&!J.exited) C.fail("wrong-restart",fmt("the run went on although iteration %lld %s",(long long)want,absent?"is not there":"is not the last one of the file to be continued")); diff({}); return; }
  if(J.exited) C.fail("no-restart",fmt("the run stopped (code %d) although iteration %lld is there: ",J.exit_code,(long long)want)+J.errtext.substr(J.errtext.size()>200?J.errtext.size()-200:0));
  if(!cleanup){ Rows G=gather(C,J,"r",M); auto&P=S[pick]; if(G.size()!=P.size()) C.fail("wrong-restart",fmt("%zu instead of %zu particles",G.size(),P.size())); for(auto&p:P){ auto i=G.find(p.id); C.checks++; if(i==G.end()||i->second.v[9]!=p.x[0]||i->second.v[12]!=p.v[0]) C.fail("wrong-restart",fmt("particle %lld is not that of iteration %lld",(long long)p.id,(long long)want)); } for(auto*q:J.all("readtime")){ auto v=q->as<double>(); if(v[1]!=tm[pick]||v[2]!=.01*(pick+1)) C.fail("restart-time",fmt("rank %d: time %.17g step %.17g instead of %.17g, %.17g",q->rank,v[1],v[2],tm[pick],.01*(pick+1))); } }
  else { std::set<string> gone; for(auto&f:before.f){ const string&n=f.first; if(!outsep){ if(!same&&n==op+".h5part") gone.insert(n); continue; } if(n.size()!=op.size()+13||n.compare(0,op.size(),op)||n[op.size()]!='_'||n.substr(n.size()-7)!=".h5part") continue; string d=n.substr(op.size()+1,5); if(d.find_first_not_of("0123456789")!=string::npos) continue; if(!same||atoi(d.c_str())>st[pick]) gone.insert(n); } diff(gone); } }
SCENARIO(p16_pick,"P16",1,"hydro1","hydro2","hydro3"){ restart_pick(C,false); }
SCENARIO(p17_cleanup,"P17",1,"hydro1","hydro2","hydro3"){ restart_pick(C,true); }
// ---------------------------------------------------------------- P18: an interrupted and restarted run equals an uninterrupted one
static Cfg restartable(Ctx&C,bool newton,int itmin,bool&exact){ exact=C.B("exact",.5); Want w; w.newton=newton; w.simple=exact; w.itmax=itmin+4; Cfg G=draw(C,w); G.iters=std::max(G.iters,itmin); if(exact){ G.r.alpha=G.r.beta=0; G.r.cullen=false; G.r.evolve=G.r.thermo=false; } return G; }
static vector<Part> from_snap(const Snap&s){ vector<Part> v; for(auto&x:s.p){ auto&q=x.second; Part p; p.id=x.first; p.type=(int)q.at("type"); p.state=(int)q.at("state"); const char*X[]={"x","y","z"}; for(int d=0;d<3;++d){ p.x[d]=q.at(X[d]); p.v[d]=q.at(string("v")+X[d]); } p.m=q.at("m"); p.h=q.at("h"); p.rho=q.at("rho"); p.P=q.at("P"); p.u=q.at("u"); p.dt=q.at("dt"); v.push_back(p); } return v; }
static map<i64,Snap> by_iter(Ctx&C,const string&pre,bool sep,int from,int n){ map<i64,Snap> m; HContent c; if(!sep) c=file(C,pre+".h5part"); for(int k=from;k<from+n;++k){ if(sep) c=file(C,sname(pre,k)); Snap s=snap(c,k); if(!s.ok) C.fail("no-output",fmt("snapshot %d of %s missing or incomplete",k,pre.c_str())); if(m.count(s.iter)) C.fail("repeated-output",fmt("iteration %lld written twice",(long long)s.iter)); m[s.iter]=s; } if(sep){ struct stat sb; if(!stat(sname(pre,from+n).c_str(),&sb)) C.fail("extra-output","unexpected file "+sname(pre,from+n)); } else if(c.o.count("Step#"+std::to_string(from+n))) C.fail("extra-output","unexpected step in "+pre); return m; }
static void restart_eq(Ctx&C,bool newton){ bool exact; Cfg G=restartable(C,newton,2,exact); if(!stable(C,G)){ C.note="unstable input skipped"; return; } G.sep=C.B("restart_separate",.5); bool same=C.B("same_prefix",.5); int e1=(int)C.I("every1",1,2),e2=(int)C.I("every2",1,3); int k=e1*(int)C.I("cut",1,std::max(1,(G.iters-1)/e1)); if(k>=G.iters){ C.note="nothing to restart"; return; } int M=nranks(C,"ranks2"); if((int)G.P.size()<2*M) M=1;
  write_in(G,"in.h5part"); G.every=1; write_text("u.par",partext(G,"in","U",0,G.iters)); G.every=e1; write_text("a.par",partext(G,"in","A",0,k)); G.every=e2; string o=same?"A":"B"; write_text("b.par",partext(G,"A",o,k,G.iters));
  JobSpec U=G.s; if(exact){ quiet_net(U); U.workload="driver u.par\n"; C.run(U); } JobSpec A=G.s; A.workload="driver a.par\n"; C.run(A); auto a=by_iter(C,"A",G.sep,0,k/e1+1); if(!a.count(k)) C.fail("lost-snapshot",fmt("no snapshot of iteration %d",k)); JobSpec B=G.s; B.nranks=M; C.net(B,"net2."); B.workload="driver b.par\n"; C.run(B);
  vector<i64> ex; if(same) for(int i=0;i<=k;i+=e1) ex.push_back(i); for(int i=same?k+1:k;i<=G.iters;++i) if(i%e2==0) ex.push_back(i); if(ex.empty()) return; map<i64,Snap> u; if(exact) u=by_iter(C,"U",G.sep,0,G.iters+1); auto b=by_iter(C,o,G.sep,0,(int)ex.size());
  for(i64 i:ex){ if(!b.count(i)) C.fail("lost-snapshot",fmt("no snapshot of iteration %lld after restarting from %d with output every %d iterations",(long long)i,k,e2)); std::set<string> skip={"dt"}; if(same&&i<=k) cmp_snaps(C,a[i],b[i],0,"before and after the restart"); if(exact) cmp_snaps(C,u[i],b[i],1e-7,fmt("uninterrupted and restarted at %d",k),skip); }
  if(!exact){ RefPar q=G.r; q.it0=k; q.t0=a[k].time; q.dt=a[k].dt; Ref R(q,from_snap(a[k])); for(int i=k;i<=G.iters;++i){ R.step(); if(b.count(i)&&(i>k||!same)) cmp(C,R,b[i],1e-7,fmt("snapshot after restart at %d",k)); R.advance(); } } }
SCENARIO(p18_hydro,"P18",3,"hydro1","hydro2","hydro3"){ restart_eq(C,false); }
SCENARIO(p18_newton,"P18",1,"newton3"){ restart_eq(C,true); }
// ---------------------------------------------------------------- P15: a crash never costs more than the snapshot being written
static void crash(Ctx&C,bool newton){ Want w; w.newton=newton; w.simple=true; w.itmax=6; w.nmax=40; Cfg G=draw(C,w); G.iters=std::max(G.iters,2); G.r.alpha=G.r.beta=0; G.r.cullen=false; G.r.evolve=G.r.thermo=false; G.sep=true; G.every=(int)C.I("every",1,2); if(!stable(C,G)){ C.note="unstable input skipped"; return; } int e=G.every,last=G.iters/e; string dirp=C.B("subdir",.3)?"sub/A":"A"; if(dirp.size()>1) mkdir("sub",0755);
  write_in(G,"in.h5part"); write_text("u.par",partext(G,"in","U",0,G.iters)); JobSpec U=G.s; U.workload="driver u.par\n"; JobResult JU=C.run(U); auto u=by_iter(C,"U",true,0,last+1); i64 ops=JU.diskops; int from=0; int crashes=(int)C.I("crashes",1,3); bool done=false; int ranks=G.ranks;
  for(int c=0;c<=crashes&&!done;++c){ string S=std::to_string(c); JobSpec A=G.s; A.nranks=ranks; if(c){ C.net(A,"net"+S+"."); A.nranks=ranks=std::min((int)G.P.size()/2,nranks(C,"ranks"+S)); if(ranks<1) A.nranks=ranks=1; } write_text("a.par",partext(G,from?dirp:"in",dirp,from,G.iters)); A.workload="driver a.par\n"; if(!from) for(int k=0;k<=last;++k) unlink(sname(dirp,k).c_str()); bool inject=c<crashes; if(inject){ i64 left=std::max<i64>(1,ops*(G.iters-from+1)/(G.iters+1)); if(C.B("between"+S,.4)) A.crash_step=1+(i64)(C.U("step"+S,0,1)*JU.steps*left/ops); else A.crash_at=1+(i64)(C.U("at"+S,0,1)*left); A.crash_kind=(int)C.I("kind"+S,0,4); }
    unlink("scalar_reductions.dat"); JobResult J=C.run(A); if(!J.crashed){ if(!J.ok) C.fail("no-restart",fmt("the run restarted at iteration %d stopped (code %d): ",from,J.exit_code)+J.errtext.substr(J.errtext.size()>200?J.errtext.size()-200:0)); done=true; }
    int top=-1; for(int k=0;k<=last;++k){ struct stat sb; if(!stat(sname(dirp,k).c_str(),&sb)) top=k; } i64 reached=-1; for(auto&r:table("scalar_reductions.dat")) if(r.size()) reached=std::max(reached,(i64)r[0]); // a report of a later iteration: all snapshots before it are finished
    for(int k=top+1;k<=last;++k) if(k*e<reached&&k*e>from) C.fail("lost-snapshot",fmt("iteration %lld was reported before the crash but snapshot %d of iteration %d does not exist",(long long)reached,k,k*e));
    int good=-1; for(int k=0;k<=top;++k){ HContent h; bool ok=false; Snap s; if(h5_host_read(sname(dirp,k),h)){ s=snap(h,k); ok=s.ok; } bool must=done||k<top||k*e<reached||(from>0&&k*e<=from); C.checks++; if(!ok&&must) C.fail("lost-snapshot",fmt("snapshot %d was complete before the %s but is missing or damaged now (newest file %d)",k,done?"end":"crash",top)); if(!ok) continue; if(must){ std::set<string> skip={"dt"}; cmp_snaps(C,u[k*e],s,1e-7,fmt("snapshot %d after crash",k),skip); good=k; } else { try{ std::set<string> skip={"dt"}; u64 cc=C.checks; cmp_snaps(C,u[k*e],s,1e-7,"x",skip); (void)cc; good=k; } catch(Fail&){} } }
    if(done&&good!=last) C.fail("lost-snapshot",fmt("the run ended but only %d of %d snapshots exist",good+1,last+1)); from=good>0?good*e:0; } if(!done) C.fail("no-restart","the last run without a crash did not finish"); }
SCENARIO(p15_crash,"P15",3,"hydro1","hydro2","hydro3"){ crash(C,false); }
SCENARIO(p15_newton,"P15",1,"newton3"){ crash(C,true); }
// ---------------------------------------------------------------- P19: disk errors are reported and cost only the snapshots they hit
static bool reports(string t){ for(auto&c:t) c=(char)tolower((unsigned char)c); for(const char*w:{"error","incomplete","unable","fail","cannot","could not"}) if(t.find(w)!=string::npos) return true; return false; }
static void disk_errors(Ctx&C,bool newton){ Want w; w.newton=newton; w.simple=true; w.itmax=6; w.nmax=40; Cfg G=draw(C,w); G.iters=std::max(G.iters,2); G.sep=C.B("sep",.7); G.every=1; if(!stable(C,G)){ C.note="unstable input skipped"; return; } write_in(G,"in.h5part"); write_text("u.par",partext(G,"in","U",0,G.iters)); write_text("a.par",partext(G,"in","A",0,G.iters));
  JobSpec U=G.s; U.h5_err_from=1ll<<40; U.workload="driver u.par\n"; JobResult JU=C.run(U); C.checks++; if(reports(JU.errtext)) C.fail("false-report","an error is reported although nothing failed: "+JU.errtext.substr(0,300)); auto u=by_iter(C,"U",G.sep,0,G.iters+1); i64 ops=std::max<i64>(1,JU.diskops);
  JobSpec A=G.s; A.allow_exit=true; if(C.B("window",.7)){ A.h5_err_from=(i64)(C.U("from",0,1)*ops); A.h5_err_to=C.B("forever",.2)?-1:A.h5_err_from+C.I("len",1,1+ops/4); } else A.h5_err_p=C.pick("p",{.002,.01,.05}); A.workload="driver a.par\n"; JobResult J=C.run(A); std::set<string> hit; for(auto&r:J.recs) if(r.key=="ioerr") hit.insert(r.data); bool rep=reports(J.errtext); int damaged=0; string which;
  HContent one; if(!G.sep) h5_host_read("A.h5part",one); for(int k=0;k<=G.iters;++k){ HContent c; string f="A.h5part"; if(G.sep){ f=sname("A",k); h5_host_read(f,c); } Snap s=snap(G.sep?c:one,k); bool may=hit.count(f)>0||J.exited; C.checks++; bool bad=!s.ok; if(!bad) try{ cmp_snaps(C,u[k],s,1e-7,fmt("snapshot %d of a run with disk errors elsewhere",k)); } catch(Fail&e){ if(!may) throw; bad=true; } if(bad&&!may) C.fail("lost-snapshot",fmt("snapshot %d is missing or damaged although its file %s met no error",k,f.c_str())); if(bad){ ++damaged; which=f; } }
  if(damaged&&!rep) C.fail("silent-error",fmt("%d snapshots are damaged (%s) and the run reported no error",damaged,which.c_str())); if(hit.empty()&&rep) C.fail("false-report","an error is reported although nothing failed"); if(J.exited&&hit.empty()) C.fail("exit","the run stopped although nothing failed"); }
SCENARIO(p19_disk,"P19",3,"hydro1","hydro2","hydro3"){ disk_errors(C,false); }
SCENARIO(p19_newton,"P19",1,"newton3"){ disk_errors(C,true); }
