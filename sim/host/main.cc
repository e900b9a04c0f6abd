// Simulator main program: exploration with parallel workers, single runs, replay and minimisation.
#include "scn.h"
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <poll.h>
static string g_libdir,g_scratch; static int g_maxranks=8; static bool g_thorough=false;
static double wall(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void wipe(const string&d,bool self){ for(auto&n:list_dir(d)){ string p=d+"/"+n; struct stat s; if(lstat(p.c_str(),&s)) continue; if(S_ISDIR(s.st_mode)) wipe(p,true); else unlink(p.c_str()); } if(self) rmdir(d.c_str()); }
struct Outcome { bool failed=false; string cls,msg; u64 hash=0; bool nontriv=false; u64 checks=0; map<string,double> vals,benign; vector<string> order; vector<std::pair<u64,u32>> taken; string note; };
static Outcome run_once(const string&prop,u64 seed,const map<string,double>&ov,bool replay,const map<u64,u32>&fixed,u64 chseed=0){
  static string dir; if(dir.empty()||dir.find("/w"+std::to_string(getpid()))==string::npos){ dir=g_scratch+"/w"+std::to_string(getpid()); mkdir(dir.c_str(),0700); }
  wipe(dir,false); if(chdir(dir.c_str())){ perror("chdir"); _exit(2); }
  Ctx C; C.seed=seed; C.prop=prop; C.ov=ov; C.thorough=g_thorough; C.maxranks=g_maxranks;
  g_ch=Chooser(); g_ch.rng=Rng(mix64(seed+77)+chseed); g_ch.replay=replay; g_ch.fixed=fixed;
  vector<const Scn*> s; int tot=0; for(auto&x:g_scn) if(prop==x.prop){ s.push_back(&x); tot+=x.weight; }
  if(s.empty()){ fprintf(stderr,"no scenario for %s\n",prop.c_str()); _exit(2); }
  Rng r(C.key("scenario")); i64 pos=r.below(tot); int pick=0; for(size_t i=0;i<s.size();++i){ if(pos<s[i]->weight){ pick=i; break; } pos-=s[i]->weight; }
  pick=(int)C.rec("scenario",pick,pick);
  Outcome o;
  try { s[pick]->fn(C); } catch(Fail&f){ o.failed=true; o.cls=f.cls; o.msg=f.msg; }
  C.hash=mix64(C.hash*31+hash_str(o.cls)); 
  o.hash=C.hash; o.nontriv=C.nontriv; o.checks=C.checks; o.vals=C.vals; o.benign=C.benign; o.order=C.order; o.taken=g_ch.taken; o.note=C.note;
  return o;
}
static u64 run_seed(u64 base,const string&prop,u64 i){ return mix64(base*0x9E3779B97F4A7C15ULL+hash_str(prop)+i*0x2545F4914F6CDD1DULL); }
static string esc(const string&s){ string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32||c>126) o+=' '; else o+=c; } return o; }
static bool load_for(const string&prop){ std::set<string> l; for(auto&x:g_scn) if(prop==x.prop) for(auto&y:x.libs) l.insert(y); for(auto&y:l) if(!load_libs(y,g_libdir+"/"+y+".so",g_maxranks,g_scratch)) return false; return true; }
// ---- replay files ------------------------------------------------------------
struct Replay { string prop; u64 seed=0; bool thorough=false; map<string,double> ov; map<u64,u32> fixed; bool replay=false; string cls; u64 hash=0; };
static bool read_replay(const string&p,Replay&R){ FILE*f=fopen(p.c_str(),"r"); if(!f) return false; char b[4096]; while(fgets(b,sizeof b,f)){ string l=b; while(l.size()&&(l.back()=='\n')) l.pop_back(); if(l.empty()||l[0]=='#') continue; size_t sp=l.find(' '); string k=l.substr(0,sp),v=sp==string::npos?"":l.substr(sp+1);
    if(k=="property") R.prop=v; else if(k=="seed") R.seed=strtoull(v.c_str(),0,10); else if(k=="tier") R.thorough=v=="thorough"; else if(k=="config"){ size_t q=v.rfind(' '); R.ov[v.substr(0,q)]=strtod(v.c_str()+q,0); } else if(k=="choice"){ u64 a; unsigned c; sscanf(v.c_str(),"%llu %u",(unsigned long long*)&a,&c); R.fixed[a]=c; } else if(k=="mode") R.replay=v=="choices"; else if(k=="class") R.cls=v; else if(k=="hash") R.hash=strtoull(v.c_str(),0,16); }
  fclose(f); return R.prop.size(); }
static void write_replay(const string&p,const Replay&R,const string&msg,const Outcome&o){ FILE*f=fopen(p.c_str(),"w"); if(!f){ perror(p.c_str()); _exit(2);} fprintf(f,"# %s\n",esc(msg).c_str()); fprintf(f,"property %s\nseed %llu\ntier %s\nmode %s\nclass %s\nhash %016llx\n",R.prop.c_str(),(unsigned long long)R.seed,R.thorough?"thorough":"quick",R.replay?"choices":"seed",R.cls.c_str(),(unsigned long long)R.hash);
  for(auto&n:o.order) fprintf(f,"config %s %.17g\n",n.c_str(),o.vals.at(n)); for(auto&c:R.fixed) fprintf(f,"choice %llu %u\n",(unsigned long long)c.first,c.second); fclose(f); }
static Outcome run_replay(const Replay&R){ g_thorough=R.thorough; return run_once(R.prop,R.seed,R.ov,R.replay,R.fixed); }
static void minimise(Replay&R,Outcome&o,double budget){
  double t0=wall(); int tried=0;
  auto left=[&]{ return wall()-t0<budget; };
  // 1. configuration: move each draw to its benign value (schedule choices are re-drawn from the same seed)
  bool changed=true; int pass=0;
  while(changed&&left()&&pass++<3){ changed=false;
    for(auto&n:o.order){ if(!left()) break; if(n=="scenario") continue; double b=o.benign[n],v=o.vals[n]; if(v==b) continue; 
      vector<double> c={b}; if(v==std::floor(v)&&b==std::floor(b)&&std::fabs(v-b)>2){ c.push_back(b+std::floor((v-b)/2)); c.push_back(v-(v>b?1:-1)); }
      for(double x:c){ if(!left()) break; auto ov=R.ov; for(auto&q:o.order) ov[q]=o.vals[q]; ov[n]=x; bool hit=false; for(u64 cs=0;cs<2&&!hit;++cs){ Outcome t=run_once(R.prop,R.seed,ov,false,{},0); tried++; if(t.failed&&t.cls==o.cls){ R.ov=ov; o=t; hit=true; changed=true; } break; } if(hit) break; } }
  }
  // 2. schedule and fault choices: ddmin over the non-default ones
  map<string,double> ov; for(auto&q:o.order) ov[q]=o.vals[q]; R.ov=ov;
  auto test=[&](const vector<std::pair<u64,u32>>&c,Outcome&out){ map<u64,u32> f(c.begin(),c.end()); out=run_once(R.prop,R.seed,ov,true,f); tried++; return out.failed&&out.cls==o.cls; };
  vector<std::pair<u64,u32>> cur=o.taken; Outcome t; 
  if(test(cur,t)){ o=t; R.replay=true; 
    if(test({},t)){ cur.clear(); o=t; }
    size_t n=2; while(cur.size()>=1&&left()){ size_t ch=(cur.size()+n-1)/n; bool red=false; for(size_t s=0;s<cur.size()&&left();s+=ch){ vector<std::pair<u64,u32>> c(cur.begin(),cur.begin()+s); c.insert(c.end(),cur.begin()+std::min(cur.size(),s+ch),cur.end()); if(test(c,t)){ cur=c; o=t; red=true; n=std::max<size_t>(2,n-1); break; } } if(!red){ if(ch<=1) break; n=std::min(cur.size(),n*2); } }
    R.fixed=map<u64,u32>(cur.begin(),cur.end()); }
  else R.replay=false;
  fprintf(stderr,"minimised: %d runs, %zu schedule/fault choices left, %s\n",tried,R.fixed.size(),R.replay?"choice replay":"seed replay");
}
// ---- exploration ---------------------------------------------------------------
struct FailRec { u64 idx,seed,hash; string cls,msg; };
int main(int argc,char**argv){
  if(!(personality(0xffffffff)&ADDR_NO_RANDOMIZE)&&!getenv("SIM_NOASLR")){ setenv("SIM_NOASLR","1",1); if(personality(ADDR_NO_RANDOMIZE)!=-1) execv("/proc/self/exe",argv); }
  signal(SIGPIPE,SIG_IGN);
  map<string,string> a; string cmd=argc>1?argv[1]:""; for(int i=2;i+1<argc;i+=2) a[argv[i]]=argv[i+1];
  g_libdir=a.count("--libs")?a["--libs"]:"."; g_thorough=a["--tier"]=="thorough"; if(a.count("--maxranks")) g_maxranks=atoi(a["--maxranks"].c_str());
  string base=access("/dev/shm",W_OK)==0?"/dev/shm":"/tmp"; if(getenv("SIM_SCRATCH")) base=getenv("SIM_SCRATCH"); { string t=base+"/flecsph_sim.XXXXXX"; vector<char> b(t.begin(),t.end()); b.push_back(0); if(!mkdtemp(b.data())){ perror("mkdtemp"); return 2;} g_scratch=b.data(); }
  auto fin=[&](int c){ if(chdir("/")){} wipe(g_scratch,true); fflush(stdout); return c; };
  if(cmd=="props"){ std::set<string> s; for(auto&x:g_scn) s.insert(x.prop); for(auto&p:s) printf("%s\n",p.c_str()); return fin(0); }
  if(cmd=="libs"){ std::set<string> l; for(auto&x:g_scn) if(a["--prop"]==x.prop||a["--prop"]=="all") for(auto&y:x.libs) l.insert(y); for(auto&y:l) printf("%s\n",y.c_str()); return fin(0); }
  if(cmd=="replay"||cmd=="one"||cmd=="minimise"){
    Replay R; char cwd[4096]; if(!getcwd(cwd,sizeof cwd)) return fin(2); auto absp=[&](string p){ return p.size()&&p[0]=='/'?p:string(cwd)+"/"+p; };
    if(cmd=="replay"){ if(!read_replay(absp(a["--file"]),R)){ fprintf(stderr,"cannot read replay file\n"); return fin(2);} }
    else { R.prop=a["--prop"]; R.thorough=g_thorough; if(a.count("--seed")) R.seed=strtoull(a["--seed"].c_str(),0,10); else R.seed=run_seed(strtoull(a["--base"].c_str(),0,10),R.prop,strtoull(a["--index"].c_str(),0,10)); 
      string ov=a["--set"]; size_t p=0; while(p<ov.size()){ size_t e=ov.find(',',p); if(e==string::npos) e=ov.size(); string kv=ov.substr(p,e-p); size_t q=kv.find('='); R.ov[kv.substr(0,q)]=strtod(kv.c_str()+q+1,0); p=e+1; } }
    if(!load_for(R.prop)) return fin(2);
    Outcome o=run_replay(R); 
    if(cmd=="minimise"){ if(!o.failed){ printf("no failure\n"); return fin(0); } string cls=o.cls; Outcome m=o; double bud=a.count("--budget")?atof(a["--budget"].c_str()):60; minimise(R,m,bud); R.cls=m.cls; R.hash=m.hash; write_replay(absp(a["--out"]),R,m.msg,m); printf("class %s\nmsg %s\nhash %016llx\n",m.cls.c_str(),esc(m.msg).c_str(),(unsigned long long)m.hash); return fin(1); }
    printf("failed %d\nclass %s\nmsg %s\nhash %016llx\n",o.failed,o.cls.c_str(),esc(o.msg).c_str(),(unsigned long long)o.hash); 
    if(a.count("--show")) for(auto&n:o.order) printf("config %s %.10g\n",n.c_str(),o.vals[n]);
    if(cmd=="replay"&&(o.failed&&(o.cls!=R.cls||o.hash!=R.hash))) printf("note: recorded class %s hash %016llx\n",R.cls.c_str(),(unsigned long long)R.hash);
    return fin(o.failed?1:0);
  }
  if(cmd!="explore"){ fprintf(stderr,"usage: sim explore|replay|one|minimise|props|libs ...\n"); return fin(2); }
  string prop=a["--prop"]; u64 seed=strtoull(a["--base"].c_str(),0,10); u64 runs=strtoull(a["--runs"].c_str(),0,10); double limit=a.count("--time")?atof(a["--time"].c_str()):1e9; int W=a.count("--workers")?atoi(a["--workers"].c_str()):8; int maxfail=a.count("--maxfail")?atoi(a["--maxfail"].c_str()):3;
  vector<string> known; { FILE*f=a.count("--known")?fopen(a["--known"].c_str(),"r"):nullptr; char b[4096]; if(f){ while(fgets(b,sizeof b,f)){ string l=b; while(l.size()&&l.back()=='\n') l.pop_back(); if(l.size()) known.push_back(l);} fclose(f);} } // lines: class<TAB>substring of message
  if(!load_for(prop)) return fin(2);
  double t0=wall(); vector<pid_t> pid(W); vector<int> fd(W); 
  for(int w=0;w<W;++w){ int p[2]; if(pipe(p)) return fin(2); fflush(stdout); pid[w]=fork(); if(pid[w]==0){ close(p[0]); FILE*o=fdopen(p[1],"w"); 
      for(u64 i=w;i<runs;i+=W){ if(wall()-t0>limit) break; u64 s=run_seed(seed,prop,i); Outcome r=run_once(prop,s,{},false,{}); 
        string d; if(i<3||r.failed) for(auto&n:r.order) d+=n+"="+fmt("%.6g",r.vals[n])+" ";
        string m=r.msg; for(char&c:m) if(c=='\n'||c=='\t') c=' '; string c=r.cls; for(char&x:c) if(x=='\n'||x=='\t') x=' ';
        fprintf(o,"R\t%llu\t%llu\t%llx\t%d\t%d\t%llu\t%s\t%s\t%s\t%s\n",(unsigned long long)i,(unsigned long long)s,(unsigned long long)r.hash,(int)r.failed,(int)r.nontriv,(unsigned long long)r.checks,c.c_str(),m.c_str(),d.c_str(),r.note.c_str()); fflush(o); if(ferror(o)) break; }
      for(auto&s:g_st.c) fprintf(o,"S\t%s\t%.17g\n",s.first.c_str(),s.second); fprintf(o,"E\n"); fflush(o); fclose(o); _exit(0); }
    close(p[1]); fd[w]=p[0]; }
  vector<string> buf(W); vector<char> open_(W,1),ended(W,0); map<string,double> st; std::set<u64> hashes; u64 done=0,nontriv=0,checks=0; vector<FailRec> fails; map<string,u64> knownhits,notes; vector<string> samples; bool stop=false; vector<u64> allh;
  FILE*hf=a.count("--hashes")?fopen(a["--hashes"].c_str(),"w"):nullptr;
  int live=W; while(live>0){ vector<pollfd> pf; vector<int> ix; for(int w=0;w<W;++w) if(open_[w]){ pf.push_back({fd[w],POLLIN,0}); ix.push_back(w);} poll(pf.data(),pf.size(),1000);
    for(size_t k=0;k<pf.size();++k) if(pf[k].revents){ int w=ix[k]; char b[65536]; ssize_t n=read(fd[w],b,sizeof b); if(n<=0){ open_[w]=0; close(fd[w]); --live; continue; } buf[w].append(b,n);
      size_t e; while((e=buf[w].find('\n'))!=string::npos){ string l=buf[w].substr(0,e); buf[w].erase(0,e+1); vector<string> f; size_t p=0; for(;;){ size_t q=l.find('\t',p); f.push_back(l.substr(p,q==string::npos?q:q-p)); if(q==string::npos) break; p=q+1; }
        if(f[0]=="E") ended[w]=1; else if(f[0]=="S") st[f[1]]+=atof(f[2].c_str());
        else if(f[0]=="R"){ done++; u64 h=strtoull(f[3].c_str(),0,16); if(hf) fprintf(hf,"%s %s %s\n",f[1].c_str(),f[3].c_str(),f[7].c_str()); if(f[5]=="1"){ nontriv++; hashes.insert(h);} checks+=strtoull(f[6].c_str(),0,10); if(strtoull(f[1].c_str(),0,10)<3) samples.push_back("run "+f[1]+" seed "+f[2]+": "+f[9]); if(f[10].size()) notes[f[10]]++;
          if(f[4]=="1"){ bool kn=false; for(auto&x:known){ size_t t=x.find('\t'); string kc=x.substr(0,t),ks=t==string::npos?"":x.substr(t+1); if(f[7]==kc&&(ks.empty()||f[8].find(ks)!=string::npos)){ knownhits[x]++; kn=true; break; } }
            if(!kn){ fails.push_back({strtoull(f[1].c_str(),0,10),strtoull(f[2].c_str(),0,10),h,f[7],f[8]}); if((int)fails.size()>=maxfail) stop=true; } } } } }
    if(stop){ for(int w=0;w<W;++w) kill(pid[w],SIGKILL); } }
  bool bad=false; for(int w=0;w<W;++w){ int s; waitpid(pid[w],&s,0); if(!stop&&!ended[w]) bad=true; }
  if(hf) fclose(hf);
  std::sort(fails.begin(),fails.end(),[](const FailRec&x,const FailRec&y){ return x.idx<y.idx; });
  string out=a["--out"]; FILE*o=out.size()?fopen(out.c_str(),"w"):stdout; if(!o) return fin(2);
  fprintf(o,"{\"property\":\"%s\",\"runs\":%llu,\"planned\":%llu,\"distinct\":%zu,\"nontrivial\":%llu,\"checks\":%llu,\"wall\":%.3f,\"workers\":%d,\"worker_lost\":%s,\"stats\":{",prop.c_str(),(unsigned long long)done,(unsigned long long)runs,hashes.size(),(unsigned long long)nontriv,(unsigned long long)checks,wall()-t0,W,bad?"true":"false");
  bool first=true; for(auto&s:st){ fprintf(o,"%s\"%s\":%.10g",first?"":",",s.first.c_str(),s.second); first=false; } fprintf(o,"},\"notes\":{"); first=true; for(auto&s:notes){ fprintf(o,"%s\"%s\":%llu",first?"":",",esc(s.first).c_str(),(unsigned long long)s.second); first=false; } fprintf(o,"},\"samples\":["); first=true; for(auto&s:samples){ fprintf(o,"%s\"%s\"",first?"":",",esc(s).c_str()); first=false; }
  fprintf(o,"],\"known\":{"); first=true; for(auto&s:knownhits){ fprintf(o,"%s\"%s\":%llu",first?"":",",esc(s.first).c_str(),(unsigned long long)s.second); first=false; }
  fprintf(o,"},\"fails\":["); first=true; for(auto&f:fails){ fprintf(o,"%s{\"index\":%llu,\"seed\":\"%llu\",\"hash\":\"%016llx\",\"class\":\"%s\",\"msg\":\"%s\"}",first?"":",",(unsigned long long)f.idx,(unsigned long long)f.seed,(unsigned long long)f.hash,esc(f.cls).c_str(),esc(f.msg).c_str()); first=false; } fprintf(o,"]}\n"); if(o!=stdout) fclose(o);
  return fin(bad?2:(fails.empty()?0:1));
}
