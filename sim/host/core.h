// Deterministic simulator core: seeded choices, fibers (one per simulated rank), event queue,
// job execution in forked children, recorded history.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;
using std::string; using std::vector; using std::map;

static inline u64 mix64(u64 x){ x^=x>>30; x*=0xbf58476d1ce4e5b9ULL; x^=x>>27; x*=0x94d049bb133111ebULL; return x^(x>>31); }
struct Rng {
  u64 s; explicit Rng(u64 seed=0):s(mix64(seed+0x9e3779b97f4a7c15ULL)){}
  u64 next(){ s+=0x9e3779b97f4a7c15ULL; return mix64(s); }
  u64 below(u64 n){ return n? next()%n:0; }
  double u01(){ return (next()>>11)*(1.0/9007199254740992.0); }
  double range(double a,double b){ return a+(b-a)*u01(); }
};
static inline u64 hash_bytes(const void*p,size_t n,u64 h=0x51ed270b9f1c3ULL){
  const unsigned char*c=(const unsigned char*)p; size_t m=n;
  while(n>=8){ u64 w; memcpy(&w,c,8); h=(h^w)*0x9E3779B97F4A7C15ULL; h^=h>>29; c+=8;n-=8; }
  while(n){ h=(h^*c)*0x100000001b3ULL; c++;n--; } return mix64(h^m);
}
static inline u64 hash_str(const string&s){ return hash_bytes(s.data(),s.size()); }

// ---- choices: every nondeterministic decision is one draw; 0 is always the benign default ----
struct Chooser {
  Rng rng{0}; bool replay=false; u64 pos=0;
  map<u64,u32> fixed;               // replay: non-default values by position
  vector<std::pair<u64,u32>> taken; // recorded non-default values
  bool quiet=false;                 // no faults, default schedule
  u32 raw(u32 n,u64 r){ // r: candidate value from the PRNG (already reduced)
    u64 p=pos++; u32 v=0;
    if(replay){ auto it=fixed.find(p); if(it!=fixed.end()) v=it->second%n; }
    else if(!quiet) v=(u32)r;
    if(v) taken.push_back({p,v});
    return v;
  }
  u32 below(u32 n){ if(n<2) return 0; u64 r=(replay||quiet)?0:rng.below(n); return raw(n,r); }
  // 0 with probability 1-p, otherwise uniform in 1..n-1
  u32 rare(double p,u32 n=2){ if(n<2||p<=0) return 0; u64 r=0; if(!replay&&!quiet){ if(rng.u01()<p) r=1+rng.below(n-1);} return raw(n,r); }
};
extern Chooser g_ch;

// ---- statistics ---------------------------------------------------------
struct Stats { map<string,double> c; void add(const char*k,double v=1){ c[k]+=v; } };
extern Stats g_st;

// ---- history records -----------------------------------------------------
struct Rec { int rank; string key; string data; u64 seq;
  template<class T> vector<T> as() const { vector<T> v(data.size()/sizeof(T)); if(v.size()) memcpy(v.data(),data.data(),v.size()*sizeof(T)); return v; } };

// ---- job -------------------------------------------------------------------
struct JobSpec {
  string lib; string workload; int nranks=1;
  map<string,string> in; map<string,double> inf;
  int policy=0;               // scheduling policy
  double preempt=0.3;         // preemption probability
  double delay_p=0.3;         // probability that a message is delayed beyond the minimum
  u64 delay_max=2000;         // ns-ish simulated units x1000
  double rndv_p=0.3;          // probability that a plain send is rendezvous
  double probe_lie=0.1;       // Iprobe false negative
  double test_lie=0.1;        // MPI_Test false negative / late completion
  double stall_p=0.0;         // per-step probability that a rank stalls
  u64 stall_max=20000;
  double early_exit_p=0.5;    // rooted collectives may return early
  int reduce_perm=0;          // reduction combination order
  double clock_jump_p=0.0;    // wtime jumps
  i64 crash_at=-1;            // kill the job at this fault point (-1: never)
  i64 crash_step=-1;          // kill the job at this scheduling step (-1: never)
  int crash_kind=0;           // what of the unflushed data survives
  double h5_err_p=0.0;        // failing dataset writes (disk full)
  i64 h5_err_from=-1;         // from this disk operation on, writes fail
  i64 h5_err_to=-1;
  u64 dirseed=0;              // directory order
  u64 max_steps=3000000;
  bool allow_leftover=false;
  bool keep_output=false;     // hand back the whole program output
  bool allow_exit=false;      // exit() by a rank is an outcome, not a violation
};
struct JobResult {
  bool ok=false;              // every rank returned normally
  bool crashed=false;         // injected crash happened
  bool exited=false; int exit_code=0; // a rank called exit() / MPI_Abort
  string viol, msg;           // violation class and text
  vector<Rec> recs; u64 ehash=0; u64 steps=0; double simtime=0; i64 diskops=0;
  string errtext;             // captured stderr/stdout tail
  const Rec* find(int rank,const string&key,int nth=0) const { for(auto&r:recs) if(r.rank==rank&&r.key==key&&nth--==0) return &r; return nullptr; }
  vector<const Rec*> all(const string&key) const { vector<const Rec*> v; for(auto&r:recs) if(r.key==key) v.push_back(&r); return v; }
};
JobResult run_job(const JobSpec&);
bool load_libs(const string& lib, const string& path, int maxranks, const string& copydir);

// ---- in-simulation services ----------------------------------------------
namespace sim {
extern JobSpec job; extern u64 now; extern int cur; extern u64 ehash; extern i64 diskops;
void ev(u64 a,u64 b=0,u64 c=0,u64 d=0); // event log hash
void at(u64 t,std::function<void()> f); // schedule an event
void block(std::function<bool()> pred,const char*what); // block the current fiber
void yield(); // scheduling point
void progress(); // something happened
void poll_failed(); // an unsuccessful poll
[[noreturn]] void violation(const string&cls,const string&msg);
[[noreturn]] void finish_job(int kind,int code); // exit paths
void fault_point(); // possible crash point (disk related)
bool in_fiber();
}
void mpi_reset(int nranks); string mpi_leftover(); string mpi_where(int rank);
void h5_reset(); void h5_crash();
// generic collective used by MPI and HDF5 layers
#include "coll.h"
