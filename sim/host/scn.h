// Scenario support: named configuration draws, job execution with swarm faults, violations.
#pragma once
#include "core.h"
#include "h5.h"
#include <cmath>
#include <set>
#include <algorithm>
struct Fail { string cls, msg; };
struct Ctx {
  u64 seed=0; string prop; map<string,double> ov; map<string,double> vals; map<string,double> benign; vector<string> order;
  u64 hash=0x1234; bool nontriv=false; u64 checks=0; string note; bool thorough=false; int maxranks=8;
  u64 key(const string&n) const { return mix64(seed*0x9E3779B97F4A7C15ULL ^ hash_str(n)); }
  double rec(const string&n,double v,double b){ auto it=ov.find(n); if(it!=ov.end()) v=it->second; if(!vals.count(n)) order.push_back(n); vals[n]=v; benign[n]=b; return v; }
  double U(const string&n,double lo,double hi){ Rng r(key(n)); return rec(n,r.range(lo,hi),lo); }
  i64 I(const string&n,i64 lo,i64 hi){ Rng r(key(n)); return (i64)rec(n,(double)(lo+(i64)r.below(hi-lo+1)),(double)lo); }
  bool B(const string&n,double p){ Rng r(key(n)); return rec(n,r.u01()<p?1:0,0)!=0; }
  double pick(const string&n,const vector<double>&v){ Rng r(key(n)); return rec(n,v[r.below(v.size())],v[0]); }
  Rng R(const string&n) const { return Rng(key("rng."+n)); }
  [[noreturn]] void fail(const string&c,const string&m){ throw Fail{c,m}; }
  void net(JobSpec&s,const string&pre="net."){ // swarm of scheduling and network faults
    s.policy=(int)I(pre+"policy",0,3); if(s.policy==3) s.policy=1; s.preempt=pick(pre+"preempt",{0.0,0.02,0.2,0.6});
    s.delay_p=pick(pre+"delay_p",{0.0,0.05,0.3,0.9}); s.delay_max=(u64)pick(pre+"delay_max",{5,50,2000,100000}); s.rndv_p=pick(pre+"rndv",{0.0,0.3,1.0}); s.probe_lie=pick(pre+"probe_lie",{0.0,0.1,0.5}); s.test_lie=pick(pre+"test_lie",{0.0,0.1,0.5});
    s.stall_p=pick(pre+"stall_p",{0.0,0.0,0.0005,0.005}); s.stall_max=(u64)pick(pre+"stall_max",{16000,1000000}); s.early_exit_p=pick(pre+"early",{0.0,0.5,1.0}); s.reduce_perm=(int)I(pre+"reduce",0,3); s.clock_jump_p=pick(pre+"clock",{0.0,0.0,0.05}); s.dirseed=(u64)I(pre+"dir",0,3);
  }
  JobResult run(const JobSpec&s);
  template<class T> static string blob(const vector<T>&v){ return string((const char*)v.data(),v.size()*sizeof(T)); }
};
typedef void(*ScnFn)(Ctx&);
struct Scn { const char*prop; ScnFn fn; vector<string> libs; int weight; };
extern vector<Scn> g_scn; // per property: several scenarios, drawn by weight
struct RegScn { RegScn(const char*p,ScnFn f,vector<string> l,int w=1){ g_scn.push_back({p,f,l,w}); } };
#define SCENARIO(name,prop,weight,...) static void name(Ctx&); static RegScn reg_##name(prop,name,{__VA_ARGS__},weight); static void name(Ctx&C)
// ---- particles --------------------------------------------------------------
struct Part { i64 id=0; int type=0,state=0; double x[3]={0,0,0},v[3]={0,0,0},h=1,m=1,rho=1,P=1,u=1,dt=0; };
struct GenOpt { int dim=3,n=100; int kind=-1; bool varh=false; double hscale=1.3; i64 id0=0; bool walls=false; double scale=1; };
vector<Part> gen_parts(Ctx&C,const string&nm,const GenOpt&o);
HContent parts_file(const vector<Part>&p,int dim,int step,double time,bool ids=true,int iteration=-1,double dt=0.001);
void put_step(HContent&c,const vector<Part>&p,int dim,int step,double time,bool ids=true,int iteration=-1,double dt=0.001);
struct Row { double v[24]; i64 id() const { return (i64)v[0]; } };
vector<Row> rows(const Rec&r); // decoded "emit" records
bool write_text(const string&path,const string&s); string read_text(const string&path);
vector<string> list_dir(const string&d);
static inline bool close_to(double a,double b,double rel,double abs_=0){ if(std::isnan(a)||std::isnan(b)) return std::isnan(a)&&std::isnan(b); double d=std::fabs(a-b); return d<=abs_+rel*std::max(std::fabs(a),std::fabs(b)); }
string fmt(const char*f,...) __attribute__((format(printf,1,2)));
static inline u64 hx_mix(u64 x){ return mix64(x); }
static inline double hx_field(i64 id,int k,int j){ u64 h=mix64(mix64((u64)id*1000003ULL+(u64)(k*7919ULL))+(u64)j*104729ULL); return 0.5+(double)(h>>12)*(1.0/4503599627370496.0); }
static inline u64 hx_hash(const double*p,int n,i64 type){ u64 h=0x12345; for(int i=0;i<n;++i){ u64 w; memcpy(&w,&p[i],8); h=mix64(h*31+w); } return mix64(h+type); }
