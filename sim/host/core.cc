#include "core.h"
#include "../include/sim.h"
#include <algorithm>
#include <cxxabi.h>
#include <deque>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <queue>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

void h5_unlinked(const string&); void heap_prepare(); void heap_start(); void heap_stop();
Chooser g_ch; Stats g_st;

// ---------------------------------------------------------------- fibers
extern "C" void sim_switch(void** from, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");
struct EhGlobals { void* caught; unsigned int uncaught; };
struct Fiber {
  void* sp=nullptr; char* stack=nullptr; bool done=false; bool started=false;
  std::function<bool()> pred; const char* what=""; EhGlobals eh{nullptr,0};
  u64 stall_until=0; bool polled=false; int prio=0; u64 steps=0; i64 skew=0; u64 last_wt=0;
};
static const size_t STK=4u<<20;

struct Lib { vector<void*> h; vector<void(*)(const char*)> fn; };
static map<string,Lib> g_libs;

namespace sim {
JobSpec job; u64 now=0; int cur=-1; u64 ehash=0; i64 diskops=0;
static vector<Fiber> F; static void* sched_sp=nullptr; static EhGlobals sched_eh{nullptr,0};
struct Event { u64 t,seq; std::function<void()> f; };
struct EvCmp { bool operator()(const Event&a,const Event&b)const{ return a.t!=b.t? a.t>b.t : a.seq>b.seq; } };
static std::priority_queue<Event,vector<Event>,EvCmp> Q; static u64 evseq=0;
static u64 steps=0, idle_polls=0; static u64 recseq=0; static vector<Rec> recs;
static int outfd=-1; static bool in_job=false;
static i64 clock_off=0;

bool in_fiber(){ return in_job && cur>=0; }
static FILE*trace=nullptr;
void ev(u64 a,u64 b,u64 c,u64 d){ if(trace) fprintf(trace,"%llu %llu %llx %llx\n",(unsigned long long)a,(unsigned long long)b,(unsigned long long)c,(unsigned long long)d); ehash=mix64(ehash*0x9E3779B97F4A7C15ULL ^ (a+0x1000003*b) ^ (c<<20) ^ (d<<40) ^ (d>>24)); }
void at(u64 t,std::function<void()> f){ Q.push(Event{t,evseq++,std::move(f)}); }
void progress(){ idle_polls=0; }
static void switch_to_sched(){
  int me=cur; EhGlobals*g=(EhGlobals*)__cxxabiv1::__cxa_get_globals(); F[me].eh=*g; *g=sched_eh;
  sim_switch(&F[me].sp,sched_sp);
}
void yield(){ if(cur>=0) switch_to_sched(); }
void block(std::function<bool()> pred,const char*what){ Fiber&f=F[cur]; if(pred()) { switch_to_sched(); return; } f.pred=std::move(pred); f.what=what; switch_to_sched(); }
void poll_failed(){ idle_polls++; F[cur].polled=true; switch_to_sched(); }

// ---------------------------------------------------------------- results
static void wr(string&o,const void*p,size_t n){ o.append((const char*)p,n); }
static void ws(string&o,const string&s){ u64 n=s.size(); wr(o,&n,8); o+=s; }
static void send_result(int kind,int code,const string&cls,const string&msg){
  string o; i64 k=kind,c=code; wr(o,"SIMR",4); wr(o,&k,8); wr(o,&c,8); ws(o,cls); ws(o,msg);
  u64 n=recs.size(); wr(o,&n,8); for(auto&r:recs){ i64 rk=r.rank; wr(o,&rk,8); ws(o,r.key); ws(o,r.data); wr(o,&r.seq,8); }
  wr(o,&ehash,8); wr(o,&steps,8); double st=now*1e-9; wr(o,&st,8); wr(o,&diskops,8);
  wr(o,&g_ch.pos,8); wr(o,&g_ch.rng.s,8); n=g_ch.taken.size(); wr(o,&n,8); for(auto&t:g_ch.taken){ wr(o,&t.first,8); wr(o,&t.second,4); }
  n=g_st.c.size(); wr(o,&n,8); for(auto&t:g_st.c){ ws(o,t.first); wr(o,&t.second,8); }
  wr(o,"DONE",4);
  size_t off=0; while(off<o.size()){ ssize_t w=syscall(SYS_write,outfd,o.data()+off,o.size()-off); if(w<=0) break; off+=w; }
  fflush(stdout); fflush(stderr); if(trace) fflush(trace);
  syscall(SYS_exit_group,0);
}
enum { K_OK=0,K_VIOL=1,K_CRASH=2,K_EXIT=3 };
void violation(const string&cls,const string&msg){ in_job=false; send_result(K_VIOL,0,cls,msg); _exit(0); }
void finish_job(int kind,int code){ in_job=false; send_result(kind,code,"",""); _exit(0); }
void fault_point(){
  diskops++;
  if(job.crash_at>=0 && diskops-1==job.crash_at){ g_st.add("fault.crash"); h5_crash(); ev(99,diskops); finish_job(K_CRASH,0); }
}
static string state_dump(){ string s; for(size_t i=0;i<F.size();++i){ s+=" rank"+std::to_string(i)+":"; s+= F[i].done?"done":(F[i].pred? string("blocked in ")+F[i].what+" "+mpi_where(i) : (F[i].polled?"polling":"runnable")); } return s; }

static void trampoline(){
  int me=cur;
  try { 
    auto&L=g_libs[job.lib]; L.fn[me](job.workload.c_str());
  } catch(std::exception&e){ violation("exception",string("rank ")+std::to_string(me)+" threw: "+e.what()); }
  catch(...){ violation("exception","rank threw"); }
  F[me].done=true; ev(7,me);
  for(;;) switch_to_sched();
}
static void prep(Fiber&f,int i){
  f.stack=(char*)mmap((void*)(0x380000000000ULL+i*(STK+65536)),STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
  mprotect(f.stack,4096,PROT_NONE);
  memset(f.stack+STK-(96<<10),0xA7,96<<10); // make uninitialised reads deterministic and unattractive
  u64*sp=(u64*)(f.stack+STK-64); *--sp=0; // alignment / fake return
  *--sp=(u64)(void*)&trampoline; for(int i=0;i<6;++i) *--sp=0;
  --sp; u32 mx=0x1f80; unsigned short cw=0x37f; memcpy(sp,&mx,4); memcpy((char*)sp+4,&cw,2);
  f.sp=sp;
}
static void run_fiber(int i){
  Fiber&f=F[i]; cur=i; f.polled=false; f.steps++; steps++;
  EhGlobals*g=(EhGlobals*)__cxxabiv1::__cxa_get_globals(); sched_eh=*g; *g=f.eh;
  sim_switch(&sched_sp,f.sp);
  cur=-1;
}
static void scheduler(){
  int n=F.size(); int last=n-1; u64 consec=0;
  if(job.policy==2) for(auto&f:F) f.prio=g_ch.below(64);
  for(auto&f:F) f.skew=0;
  for(;;){
    while(!Q.empty()&&Q.top().t<=now){ auto f=Q.top().f; Q.pop(); f(); }
    static vector<int> run; run.clear(); bool all=true;
    for(int k=0;k<n;++k){ int i=(last+k)%n; Fiber&f=F[i]; if(f.done) continue; all=false;
      if(f.stall_until>now) continue;
      if(f.pred){ if(!f.pred()) continue; f.pred=nullptr; progress(); }
      run.push_back(i); }
    if(all) return;
    u64 nextt=~0ULL; if(!Q.empty()) nextt=Q.top().t; for(auto&f:F) if(!f.done&&f.stall_until>now) nextt=std::min(nextt,f.stall_until);
    if(run.empty()){
      if(nextt==~0ULL) violation("deadlock","no rank can make progress:"+state_dump());
      now=std::max(now+1,nextt); continue;
    }
    if(idle_polls>=(u64)run.size()*3+4 && nextt!=~0ULL && nextt>now){ now=nextt; idle_polls=0; continue; } // everybody polls in vain: let time pass
    if(idle_polls>400000) violation("livelock","ranks poll without progress:"+state_dump());
    if(job.crash_step>=0&&(i64)steps>=job.crash_step){ g_st.add("fault.crash_between_disk_accesses"); h5_crash(); ev(98,steps); finish_job(K_CRASH,0); }
    if(steps>job.max_steps) violation("livelock","step bound exceeded:"+state_dump());
    int pick=run[0];
    // default: keep running the same rank unless it just polled in vain or ran too long
    size_t d=0; if(run[0]==last && run.size()>1 && (F[last].polled||consec>200)) d=1; 
    size_t nr=run.size();
    if(job.policy==0){ pick=run[(d+g_ch.below(nr))%nr]; }
    else if(job.policy==1){ pick=run[(d+g_ch.rare(job.preempt,nr))%nr]; }
    else if(job.policy==2){ if(g_ch.rare(0.02)) F[run[d]].prio=g_ch.below(64); 
      int best=-1; for(size_t k=0;k<nr;++k){ int i=run[(d+k)%nr]; int pr=F[i].prio-(F[i].polled?1000:0)-((i==last&&consec>200)?2000:0); if(best<0||pr>F[best].prio-(F[best].polled?1000:0)-((best==last&&consec>200)?2000:0)) best=i; } pick=best; }
    else { pick=run[(run[0]==last&&nr>1)?1:0]; }
    if(job.stall_p>0 && g_ch.rare(job.stall_p)){ F[pick].stall_until=now+1000*(1+g_ch.below(16))*std::max<u64>(1,job.stall_max/16000); g_st.add("fault.rank_stall"); if(nr>1||nextt!=~0ULL) continue; F[pick].stall_until=0; }
    if(pick==last) consec++; else { consec=0; if(nr>1) g_st.add("sched.switches"); }
    last=pick; now+=200; ev(1,pick);
    run_fiber(pick);
  }
}
static void on_signal(int s){ 
  const char*nm= s==SIGSEGV?"SIGSEGV": s==SIGFPE?"SIGFPE": s==SIGBUS?"SIGBUS": s==SIGILL?"SIGILL": s==SIGXCPU?"cpu-time":"signal";
  string w= s==SIGXCPU? "hang":"crash-signal";
  violation(w,string(nm)+" in rank "+std::to_string(cur)+" (last "+(cur>=0?string(mpi_where(cur)):string("-"))+")");
}
static void child_main(int fd){
  outfd=fd; if(const char*tf=getenv("SIM_TRACE")) trace=fopen(tf,"a"); // event dump, for debugging the simulator
  heap_start();
  stack_t ss{}; ss.ss_size=256<<10; ss.ss_sp=mmap(nullptr,ss.ss_size,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); sigaltstack(&ss,nullptr);
  struct sigaction sa{}; sa.sa_handler=on_signal; sa.sa_flags=SA_ONSTACK|SA_NODEFER; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGXCPU}) sigaction(s,&sa,nullptr);
  struct rlimit rl{40,45}; setrlimit(RLIMIT_CPU,&rl); rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
  now=1000000; cur=-1; ehash=0; diskops=0; steps=0; idle_polls=0; recs.clear(); recseq=0; evseq=0; clock_off=0;
  F=vector<Fiber>(job.nranks); mpi_reset(job.nranks); h5_reset();
  for(int i=0;i<job.nranks;++i) prep(F[i],i);
  in_job=true; scheduler(); in_job=false;
  if(!job.allow_leftover){ string l=mpi_leftover(); if(l.size()) violation("leftover-message",l); }
  send_result(K_OK,0,"","");
}
} // namespace sim

static string rdall(int fd){ string s; char b[65536]; for(;;){ ssize_t n=read(fd,b,sizeof b); if(n<=0) break; s.append(b,n);} return s; }
struct Rd { const string&s; size_t p=0; bool bad=false; void r(void*d,size_t n){ if(p+n>s.size()){bad=true; memset(d,0,n); return;} memcpy(d,s.data()+p,n); p+=n; } string str(){ u64 n=0; r(&n,8); if(bad||p+n>s.size()){bad=true; return "";} string t=s.substr(p,n); p+=n; return t; } };

JobResult run_job(const JobSpec& spec){
  JobResult R; heap_prepare(); sim::job=spec; Stats before=g_st;
  int p[2]; if(pipe(p)) abort();
  int efd=syscall(SYS_memfd_create,"out",0);
  fflush(stdout); fflush(stderr);
  pid_t pid=fork();
  if(pid==0){ close(p[0]); if(!getenv("SIM_VERBOSE")){ dup2(efd,1); dup2(efd,2);} sim::child_main(p[1]); _exit(0); }
  close(p[1]); string o=rdall(p[0]); close(p[0]); int st=0; waitpid(pid,&st,0);
  { off_t e=lseek(efd,0,SEEK_END); off_t cap=(spec.keep_output||spec.h5_err_from>=0||spec.h5_err_p>0)?(1<<20):4000; off_t b=e>cap?e-cap:0; lseek(efd,b,SEEK_SET); R.errtext=rdall(efd); close(efd); }
  if(o.size()<8||o.compare(o.size()-4,4,"DONE")!=0){ R.viol="killed"; R.msg="job process died: status "+std::to_string(st); return R; }
  Rd r{o}; r.p=4; i64 k,c; r.r(&k,8); r.r(&c,8); R.viol=r.str(); R.msg=r.str();
  u64 n; r.r(&n,8); for(u64 i=0;i<n;++i){ Rec x; i64 rk; r.r(&rk,8); x.rank=rk; x.key=r.str(); x.data=r.str(); r.r(&x.seq,8); R.recs.push_back(std::move(x)); }
  r.r(&R.ehash,8); r.r(&R.steps,8); r.r(&R.simtime,8); r.r(&R.diskops,8);
  r.r(&g_ch.pos,8); r.r(&g_ch.rng.s,8); r.r(&n,8); g_ch.taken.clear(); for(u64 i=0;i<n;++i){ u64 a; u32 b; r.r(&a,8); r.r(&b,4); g_ch.taken.push_back({a,b}); }
  g_st.c.clear(); r.r(&n,8); for(u64 i=0;i<n;++i){ string s=r.str(); double v; r.r(&v,8); g_st.c[s]=v; }
  if(r.bad){ R.viol="killed"; R.msg="short result"; return R; }
  R.ok=(k==sim::K_OK); R.crashed=(k==sim::K_CRASH); R.exited=(k==sim::K_EXIT); R.exit_code=c;
  if(R.exited && !spec.allow_exit && R.viol.empty()){ R.viol="exit"; R.msg="a rank called exit("+std::to_string(c)+"): "+R.errtext.substr(R.errtext.size()>300?R.errtext.size()-300:0); }
  g_st.add("jobs"); g_st.add("steps",R.steps); g_st.add("simtime",R.simtime);
  return R;
}
bool load_libs(const string& lib,const string& path,int maxranks,const string& copydir){
  string data; { FILE*f=fopen(path.c_str(),"rb"); if(!f){ fprintf(stderr,"cannot read %s\n",path.c_str()); return false;} char b[65536]; size_t n; while((n=fread(b,1,sizeof b,f))>0) data.append(b,n); fclose(f); }
  Lib L;
  for(int i=0;i<maxranks;++i){
    string p=copydir+"/"+lib+"."+std::to_string(getpid())+"."+std::to_string(i)+".so"; FILE*f=fopen(p.c_str(),"wb"); if(!f||fwrite(data.data(),1,data.size(),f)!=data.size()){ fprintf(stderr,"cannot write %s\n",p.c_str()); return false; } fclose(f);
    void*h=dlopen(p.c_str(),RTLD_NOW|RTLD_LOCAL); syscall(SYS_unlink,p.c_str());
    if(!h){ fprintf(stderr,"dlopen: %s\n",dlerror()); return false; }
    auto fn=(void(*)(const char*))dlsym(h,"sim_rank_main"); if(!fn){ fprintf(stderr,"no sim_rank_main\n"); return false; }
    L.h.push_back(h); L.fn.push_back(fn);
  }
  if(maxranks>1 && L.fn[0]==L.fn[1]) { fprintf(stderr,"library copies are not distinct\n"); return false; }
  g_libs[lib]=L; return true;
}

// ---------------------------------------------------------------- services for rank code
extern "C" {
int sim_rank(void){ return sim::cur; }
int sim_nranks(void){ return sim::job.nranks; }
const void* sim_in(const char*key,size_t*bytes){ auto it=sim::job.in.find(key); if(it==sim::job.in.end()){ if(bytes)*bytes=0; return nullptr; } if(bytes)*bytes=it->second.size(); return it->second.data(); }
double sim_inf(const char*key,double d){ auto it=sim::job.inf.find(key); return it==sim::job.inf.end()?d:it->second; }
void sim_emit(const char*key,const void*p,size_t n){ Rec r; r.rank=sim::cur; r.key=key; r.data.assign((const char*)p,n); r.seq=sim::recseq++; sim::ev(5,sim::cur,hash_str(r.key),hash_bytes(p,n)); sim::recs.push_back(std::move(r)); }
void sim_fail(const char*c,const char*m){ sim::violation(c,m); }
void sim_yield(void){ sim::yield(); }
double sim_wtime(void){
  if(!sim::in_fiber()) return 0;
  auto&f=sim::F[sim::cur];
  if(sim::job.clock_jump_p>0 && g_ch.rare(sim::job.clock_jump_p)){ i64 j=((i64)g_ch.below(2001)-1000)*1000000LL; f.skew+=j; g_st.add("fault.clock_jump"); }
  return (double)((i64)sim::now+f.skew)*1e-9;
}
// ---- interposed libc: process end, assertions -----------------------------
[[noreturn]] void __assert_fail(const char*e,const char*f,unsigned l,const char*fn) noexcept {
  const char*b=strrchr(f,'/'); b=b?b+1:f; string cls=string("assert:")+b+":"+e; 
  if(sim::in_job) sim::violation(cls,string("rank ")+std::to_string(sim::cur)+" line "+std::to_string(l)+": assertion failed: "+e);
  fprintf(stderr,"assertion %s:%u %s\n",b,l,e); _exit(3);
}
[[noreturn]] void abort(void) noexcept { if(sim::in_job) sim::violation("abort","rank "+std::to_string(sim::cur)+" aborted"); fprintf(stderr,"host abort\n"); _exit(3); }
[[noreturn]] void exit(int c) noexcept { if(sim::in_job){ g_st.add("rank_exit"); sim::ev(8,sim::cur,c); sim::finish_job(sim::K_EXIT,c);} fflush(stdout); fflush(stderr); _exit(c); }
// ---- interposed libc: file system, contained in the scratch directory -----
static bool contained(const char*p){ if(p[0]=='/') return false; int depth=0; const char*s=p; while(*s){ const char*e=strchr(s,'/'); size_t n=e?e-s:strlen(s); if(n==2&&s[0]=='.'&&s[1]=='.') { if(--depth<0) return false; } else if(n>0&&!(n==1&&s[0]=='.')) depth++; s+=n; while(*s=='/') s++; } return true; }
static void fs_rec(const char*op,const char*p,int rc){ string s=string(op)+" "+p+" "+std::to_string(rc); sim_emit("fs",s.data(),s.size()); }
int unlink(const char*p) noexcept { if(sim::in_fiber()){ if(!contained(p)) sim::violation("escape",string("unlink outside scratch: ")+p); sim::yield(); sim::fault_point(); } int rc=syscall(SYS_unlink,p); if(sim::in_fiber()){ if(rc==0) h5_unlinked(p); fs_rec("unlink",p,rc);} return rc; }
int rmdir(const char*p) noexcept { if(sim::in_fiber()){ if(!contained(p)) sim::violation("escape",string("rmdir outside scratch: ")+p);} return syscall(SYS_rmdir,p); }
int remove(const char*p) noexcept { struct stat s; if(lstat(p,&s)==0&&S_ISDIR(s.st_mode)) return rmdir(p); return unlink(p); }
int rename(const char*a,const char*b) noexcept { if(sim::in_fiber()){ if(!contained(a)||!contained(b)) sim::violation("escape",string("rename outside scratch: ")+a); sim::yield(); sim::fault_point(); } int rc=syscall(SYS_rename,a,b); if(sim::in_fiber()) fs_rec("rename",b,rc); return rc; }
int unlinkat(int d,const char*p,int fl) noexcept { if(sim::in_fiber()){ if(!contained(p)) sim::violation("escape",string("unlinkat outside scratch: ")+p);} return syscall(SYS_unlinkat,d,p,fl); }
static int (*r_system)(const char*);
int system(const char*c){ if(sim::in_fiber()) sim::violation("escape",string("system() called: ")+(c?c:"")); if(!r_system) r_system=(int(*)(const char*))dlsym(RTLD_NEXT,"system"); return r_system(c); }
struct SDir { vector<dirent> e; size_t i=0; };
static DIR*(*r_opendir)(const char*); static dirent*(*r_readdir)(DIR*); static int(*r_closedir)(DIR*);
static map<void*,SDir*> g_dirs;
DIR* opendir(const char*p){
  if(!r_opendir){ r_opendir=(DIR*(*)(const char*))dlsym(RTLD_NEXT,"opendir"); r_readdir=(dirent*(*)(DIR*))dlsym(RTLD_NEXT,"readdir"); r_closedir=(int(*)(DIR*))dlsym(RTLD_NEXT,"closedir"); }
  if(sim::in_fiber()) sim::yield();
  DIR*d=r_opendir(p); if(!d||!sim::in_fiber()) return d;
  SDir*s=new SDir; while(dirent*e=r_readdir(d)) s->e.push_back(*e); r_closedir(d);
  std::sort(s->e.begin(),s->e.end(),[](const dirent&a,const dirent&b){ return strcmp(a.d_name,b.d_name)<0; });
  if(sim::job.dirseed){ u64 k=sim::job.dirseed; if(k==3) k+=sim::cur*101; // 3: every process sees its own order
    std::sort(s->e.begin(),s->e.end(),[k](const dirent&a,const dirent&b){ u64 x=hash_bytes(a.d_name,strlen(a.d_name),k),y=hash_bytes(b.d_name,strlen(b.d_name),k); return x!=y? x<y : strcmp(a.d_name,b.d_name)<0; }); g_st.add("fault.readdir_order"); }
  g_dirs[s]=s; return (DIR*)s;
}
dirent* readdir(DIR*d){ auto it=g_dirs.find(d); if(it==g_dirs.end()) return r_readdir?r_readdir(d):nullptr; SDir*s=it->second; return s->i<s->e.size()? &s->e[s->i++]:nullptr; }
dirent64* readdir64(DIR*d){ return (dirent64*)readdir(d); }
int closedir(DIR*d){ auto it=g_dirs.find(d); if(it==g_dirs.end()){ if(!r_closedir) r_closedir=(int(*)(DIR*))dlsym(RTLD_NEXT,"closedir"); return r_closedir(d);} delete it->second; g_dirs.erase(it); return 0; }
// ---- interposed libc: real time and randomness -----------------------------
static u64 vclock(){ sim::now+=100; return sim::now+1700000000ull*1000000000ull; }
static long sysret(long r){ return r; }
int clock_gettime(clockid_t c,struct timespec*t) noexcept { if(sim::in_fiber()){ u64 v=vclock(); t->tv_sec=v/1000000000ull; t->tv_nsec=v%1000000000ull; return 0;} return sysret(syscall(SYS_clock_gettime,c,t)); }
time_t time(time_t*t) noexcept { if(sim::in_fiber()){ time_t v=vclock()/1000000000ull; if(t)*t=v; return v;} struct timespec ts; syscall(SYS_clock_gettime,0,&ts); if(t)*t=ts.tv_sec; return ts.tv_sec; }
int gettimeofday(struct timeval*tv,void*) noexcept { u64 v; if(sim::in_fiber()) v=vclock(); else { struct timespec ts; syscall(SYS_clock_gettime,0,&ts); v=ts.tv_sec*1000000000ull+ts.tv_nsec; } tv->tv_sec=v/1000000000ull; tv->tv_usec=(v%1000000000ull)/1000; return 0; }
unsigned int sleep(unsigned int s){ if(sim::in_fiber()){ u64 t=sim::now+s*1000000000ull; sim::at(t,[]{}); sim::block([t]{return sim::now>=t;},"sleep"); return 0;} struct timespec ts{(time_t)s,0}; syscall(SYS_nanosleep,&ts,nullptr); return 0; }
int usleep(useconds_t u){ if(sim::in_fiber()){ u64 t=sim::now+u*1000ull; sim::at(t,[]{}); sim::block([t]{return sim::now>=t;},"usleep"); return 0;} struct timespec ts{(time_t)(u/1000000),(long)(u%1000000)*1000}; syscall(SYS_nanosleep,&ts,nullptr); return 0; }
}
