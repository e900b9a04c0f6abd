// Simulated MPI: reliable, per-pair FIFO messages with seeded delays; eager or rendezvous sends; collectives with legal early exits.
#include "core.h"
#include "../include/mpi.h"
#include <deque>
#include <set>
#include <algorithm>
#include <unistd.h>
using namespace sim;
namespace {
struct Seg { ptrdiff_t off; int kind; };
struct DT { vector<Seg> m; ptrdiff_t ext; size_t size; bool dense; bool builtin; bool freed=false; };
vector<DT> T; 
struct UOp { MPI_User_function*f; bool commute; };
vector<UOp> UO;
struct Comm { vector<int> world; map<int,int> idx; vector<u64> next; map<u64,std::shared_ptr<CollOp>> ops; bool freed=false; };
std::deque<Comm> C;
struct Msg { u64 seq; int src,dst,tag,comm; string data; size_t bytes; const void*sbuf; int scount; int sdt; bool eager; int sreq; u64 sum; bool visible=false; bool matched=false; };
typedef std::shared_ptr<Msg> MsgP;
struct Req { int owner; int kind; bool done=false; u64 done_at=0; MPI_Status st{}; void*buf=nullptr; int count=0; int dt=0; int src=0,tag=0,comm=0; bool active=true; int lies=0; MsgP msg; };
std::deque<Req> RQ; // index = handle
vector<std::deque<MsgP>> unexpected; // visible unmatched per dst, in arrival order
vector<std::deque<int>> posted; // per dst
map<std::pair<int,int>,u64> lastvis; // (src,dst) last visibility time
u64 msgseq; vector<int> lies; vector<string> where_; vector<char> inited,finaled;
int nr;
const size_t bsz[SIM_T_LAST]={0,1,1,1,1,2,2,4,4,8,8,8,8,4,8,16,1,2,4,8,1,2,4,8,1,16,8,1};
void W(const char*f){ if(cur>=0) where_[cur]=f; if(cur>=0&&finaled[cur]) violation("mpi-misuse",string(f)+" called after MPI_Finalize on rank "+std::to_string(cur)); }
Comm& comm(int c){ if(c<=0||c>=(int)C.size()||C[c].freed) violation("mpi-misuse","invalid communicator in "+where_[cur]); return C[c]; }
DT& dt(int t){ if(t<=0||t>=(int)T.size()||T[t].freed) violation("mpi-misuse","invalid datatype in "+where_[cur]); return T[t]; }
string pack(const void*b,int count,int t){ DT&d=dt(t); string s; if(count<=0) return s; if(d.dense){ s.assign((const char*)b,d.size*(size_t)count); return s; } s.reserve(d.size*count); for(int i=0;i<count;++i) for(auto&g:d.m) s.append((const char*)b+i*d.ext+g.off,bsz[g.kind]); return s; }
void unpack(void*b,const char*p,size_t n,int t){ DT&d=dt(t); if(d.dense){ if(n) memcpy(b,p,n); return; } size_t o=0; for(int i=0;o<n;++i) for(auto&g:d.m){ if(o>=n) break; memcpy((char*)b+i*d.ext+g.off,p+o,bsz[g.kind]); o+=bsz[g.kind]; } }
int newreq(int kind){ Req r; r.owner=cur; r.kind=kind; RQ.push_back(r); return RQ.size()-1; }
void set_status(MPI_Status*st,const MPI_Status&v){ if(st){ int e=st->MPI_ERROR; *st=v; st->MPI_ERROR=e; st->MPI_ERROR=0; } }
void complete_send(int sreq){ if(sreq<0) return; Req&r=RQ[sreq]; u64 d=0; if(g_ch.rare(job.test_lie)) { d=1000*(1+g_ch.below(50)); g_st.add("fault.late_ack"); } r.done_at=now+d; r.done=true; if(d) at(r.done_at,[]{ progress(); }); progress(); }
void deliver(MsgP m,int rq){ // match message m with receive request rq
  Req&r=RQ[rq]; m->matched=true; size_t cap=dt(r.dt).size*(size_t)std::max(0,r.count);
  if(!m->eager){ string now_=pack(m->sbuf,m->scount,m->sdt); if(hash_bytes(now_.data(),now_.size())!=m->sum) violation("send-buffer-modified","rank "+std::to_string(m->src)+" changed the buffer of a pending send to rank "+std::to_string(m->dst)+" tag "+std::to_string(m->tag)); m->data.swap(now_); }
  if(m->bytes>cap) violation("truncation","message of "+std::to_string(m->bytes)+" bytes from rank "+std::to_string(m->src)+" tag "+std::to_string(m->tag)+" received into "+std::to_string(cap)+" bytes on rank "+std::to_string(m->dst));
  unpack(r.buf,m->data.data(),m->bytes,r.dt);
  r.done=true; r.done_at=now; r.st.MPI_SOURCE=C[m->comm].idx[m->src]; r.st.MPI_TAG=m->tag; r.st.sim_bytes=m->bytes; r.st.MPI_ERROR=0;
  ev(3,m->src,m->dst,m->seq*64+m->tag); complete_send(m->sreq); progress();
}
bool fits(const Req&r,const Msg&m){ return r.comm==m.comm && (r.src==MPI_ANY_SOURCE||C[r.comm].world[r.src]==m.src) && (r.tag==MPI_ANY_TAG||r.tag==m.tag); }
void become_visible(MsgP m){
  m->visible=true; progress(); ev(4,m->src,m->dst,m->seq);
  auto&P=posted[m->dst]; for(auto it=P.begin();it!=P.end();++it) if(fits(RQ[*it],*m)){ int rq=*it; P.erase(it); deliver(m,rq); return; }
  unexpected[m->dst].push_back(m);
}
int post_send(const void*buf,int count,int t,int dest,int tag,int c,bool sync,bool can_eager,bool blocking){
  Comm&cm=comm(c); if(dest<0||dest>=(int)cm.world.size()) violation("mpi-misuse","invalid destination "+std::to_string(dest));
  if(count<0) violation("mpi-misuse","negative count");
  MsgP m=std::make_shared<Msg>(); m->seq=msgseq++; m->src=cur; m->dst=cm.world[dest]; m->tag=tag; m->comm=c;
  string d=pack(buf,count,t); m->bytes=d.size(); m->sbuf=buf; m->scount=count; m->sdt=t;
  m->eager=false; if(!sync&&can_eager){ m->eager=!g_ch.rare(job.rndv_p); if(!m->eager) g_st.add("fault.rendezvous"); }
  if(m->eager) m->data.swap(d); else m->sum=hash_bytes(d.data(),d.size());
  int rq=newreq(0); if(m->eager){ m->sreq=-1; RQ[rq].done=true; RQ[rq].done_at=now; } else m->sreq=rq;
  u64 lat=1000; if(g_ch.rare(job.delay_p)){ u64 k=1+g_ch.below(64); lat+=k*job.delay_max*1000/64; g_st.add("fault.msg_delay"); }
  u64 vis=now+lat; u64&lv=lastvis[{m->src,m->dst}]; if(vis<=lv) vis=lv+1; else { } lv=vis;
  g_st.add("messages"); ev(2,m->src,m->dst,m->seq*64+tag);
  at(vis,[m]{ become_visible(m); });
  return rq;
}
int post_recv(void*buf,int count,int t,int src,int tag,int c){
  Comm&cm=comm(c); if(src!=MPI_ANY_SOURCE&&(src<0||src>=(int)cm.world.size())) violation("mpi-misuse","invalid source "+std::to_string(src));
  dt(t); int rq=newreq(1); Req&r=RQ[rq]; r.buf=buf; r.count=count; r.dt=t; r.src=src; r.tag=tag; r.comm=c;
  auto&U=unexpected[cur]; for(auto it=U.begin();it!=U.end();++it) if(fits(r,**it)){ MsgP m=*it; U.erase(it); deliver(m,rq); return rq; }
  posted[cur].push_back(rq); return rq;
}
bool rdone(int h){ return RQ[h].done && RQ[h].done_at<=now; }
int null_req(){ int h=newreq(2); RQ[h].done=true; RQ[h].done_at=now; RQ[h].st.MPI_SOURCE=MPI_PROC_NULL; RQ[h].st.MPI_TAG=MPI_ANY_TAG; return h; }
Req& rq(int h){ if(h<=0||h>=(int)RQ.size()) violation("mpi-misuse","invalid request handle in "+where_[cur]); if(RQ[h].owner!=cur) violation("mpi-misuse","request of another rank in "+where_[cur]); return RQ[h]; }
void wait1(MPI_Request*q,MPI_Status*st){ if(*q==MPI_REQUEST_NULL) return; rq(*q); int h=*q; block([h]{return rdone(h);},"wait"); set_status(st,RQ[h].st); *q=MPI_REQUEST_NULL; }
bool test_ready(int h){ return rdone(h); }
template<class A> void red(int op,A*a,const A*b,size_t n){ for(size_t i=0;i<n;++i) switch(op){ case MPI_SUM:a[i]=a[i]+b[i];break; case MPI_PROD:a[i]=a[i]*b[i];break; case MPI_MAX: a[i]=a[i]<b[i]?b[i]:a[i];break; case MPI_MIN:a[i]=b[i]<a[i]?b[i]:a[i];break; case MPI_LAND:a[i]=a[i]&&b[i];break; case MPI_LOR:a[i]=a[i]||b[i];break; case MPI_LXOR:a[i]=(!a[i])!=(!b[i]);break; default: violation("mpi-misuse","reduction operator not valid for this type"); } }
template<class A> void redi(int op,A*a,const A*b,size_t n){ if(op==MPI_BAND) for(size_t i=0;i<n;++i) a[i]&=b[i]; else if(op==MPI_BOR) for(size_t i=0;i<n;++i) a[i]|=b[i]; else if(op==MPI_BXOR) for(size_t i=0;i<n;++i) a[i]^=b[i]; else red(op,a,b,n); }
struct DI { double v; int i; }; struct II { int v; int i; };
void reduce_into(int op,string&acc,const string&x,int t,int count){ // acc = acc op x
  if(op>=SIM_OP_LAST){ string y=x; MPI_Datatype tt=t; int n=count; string a=acc; UO[op-SIM_OP_LAST].f((void*)a.data(),(void*)y.data(),&n,&tt); acc=y; return; }
  DT&d=dt(t); size_t n=(size_t)count; int k=d.m.empty()?0:d.m[0].kind; n*=d.m.size(); for(auto&g:d.m) if(g.kind!=k) violation("mpi-misuse","predefined reduction on a mixed derived type");
  void*a=(void*)acc.data(); const void*b=x.data();
  switch(k){ case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: redi(op,(signed char*)a,(const signed char*)b,n);break; case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: case MPI_C_BOOL: redi(op,(unsigned char*)a,(const unsigned char*)b,n);break;
   case MPI_SHORT: case MPI_INT16_T: redi(op,(short*)a,(const short*)b,n);break; case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: redi(op,(unsigned short*)a,(const unsigned short*)b,n);break;
   case MPI_INT: case MPI_INT32_T: redi(op,(int*)a,(const int*)b,n);break; case MPI_UNSIGNED: case MPI_UINT32_T: redi(op,(unsigned*)a,(const unsigned*)b,n);break;
   case MPI_LONG: case MPI_LONG_LONG_INT: case MPI_INT64_T: redi(op,(i64*)a,(const i64*)b,n);break; case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: redi(op,(u64*)a,(const u64*)b,n);break;
   case MPI_FLOAT: red(op,(float*)a,(const float*)b,n);break; case MPI_DOUBLE: red(op,(double*)a,(const double*)b,n);break; case MPI_LONG_DOUBLE: red(op,(long double*)a,(const long double*)b,n);break;
   case MPI_DOUBLE_INT: { DI*p=(DI*)a; const DI*q=(const DI*)b; for(size_t i=0;i<n;++i){ bool tk=op==MPI_MAXLOC? q[i].v>p[i].v : q[i].v<p[i].v; if(tk) p[i]=q[i]; else if(q[i].v==p[i].v&&q[i].i<p[i].i) p[i].i=q[i].i; } break; }
   case MPI_2INT: { II*p=(II*)a; const II*q=(const II*)b; for(size_t i=0;i<n;++i){ bool tk=op==MPI_MAXLOC? q[i].v>p[i].v : q[i].v<p[i].v; if(tk) p[i]=q[i]; else if(q[i].v==p[i].v&&q[i].i<p[i].i) p[i].i=q[i].i; } break; }
   default: violation("mpi-misuse","reduction on an unsupported type"); }
}
string reduce_all(CollOp&o,int op,int t,int count,int upto){ // members 0..upto-1; combination order is a legal nondeterminism
  int n=upto; vector<int> ord(n); for(int i=0;i<n;++i) ord[i]=i;
  if(job.reduce_perm&&op<SIM_OP_LAST&&n>2){ u64 k=job.reduce_perm; std::stable_sort(ord.begin(),ord.end(),[k](int a,int b){ return mix64(a*977+k)<mix64(b*977+k); }); g_st.add("fault.reduce_order"); }
  string acc=o.contrib[ord[0]]; for(int i=1;i<n;++i) reduce_into(op,acc,o.contrib[ord[i]],t,count); return acc;
}
string num(long v){ return std::to_string(v); }
} // namespace
int comm_size_of(int c){ return comm(c).world.size(); } int comm_index(int c){ return comm(c).idx[cur]; }
std::shared_ptr<CollOp> coll_enter(int c,const string&name,const string&sig,const string&contrib,int complete,int root,std::function<void(CollOp&)> when_all){
  Comm&cm=comm(c); int me=cm.idx[cur]; int n=cm.world.size(); u64 k=cm.next[me]++;
  auto&p=cm.ops[k]; if(!p){ p=std::make_shared<CollOp>(); p->sig=sig; p->name=name; p->here.assign(n,0); p->contrib.resize(n); p->extra.assign(n,0); }
  auto o=p; ev(6,cur,k,hash_str(name));
  if(o->sig!=sig) violation("collective-mismatch","collective #"+num(k)+": rank "+num(cur)+" entered "+sig+" while another rank entered "+o->sig);
  o->here[me]=1; o->contrib[me]=contrib; o->arrived++; progress(); g_st.add("collectives");
  if(o->arrived==n){ if(when_all) when_all(*o); o->done=true; cm.ops.erase(k); }
  CollOp*q=o.get();
  int mode=complete; if((mode==1||mode==2||mode==3)&&!g_ch.rare(job.early_exit_p)) mode=0;
  if(mode==0) block([q,n]{return q->arrived==n;},q->name.c_str());
  else if(mode==1){ g_st.add("fault.coll_early_exit"); block([q,root]{return (bool)q->here[root];},q->name.c_str()); }
  else if(mode==3){ g_st.add("fault.coll_early_exit"); block([q,me]{ for(int i=0;i<=me;++i) if(!q->here[i]) return false; return true;},q->name.c_str()); }
  else { g_st.add("fault.coll_early_exit"); yield(); }
  return o;
}
int comm_clone(int c){ Comm n=C[c]; n.ops.clear(); n.next.assign(n.world.size(),0); C.push_back(n); return C.size()-1; }
void mpi_reset(int n){
  nr=n; T.clear(); T.resize(SIM_T_LAST); for(int i=1;i<SIM_T_LAST;++i){ T[i].m={{0,i}}; T[i].ext=bsz[i]; T[i].size=bsz[i]; T[i].dense=true; T[i].builtin=true; }
  UO.clear(); C.clear(); C.resize(3); for(int i=0;i<n;++i){ C[1].world.push_back(i); C[1].idx[i]=i; } C[1].next.assign(n,0);
  // MPI_COMM_SELF is handled as one communicator per rank, allocated lazily: index 3+rank
  C.resize(3+n); for(int i=0;i<n;++i){ C[3+i].world={i}; C[3+i].idx[i]=0; C[3+i].next.assign(1,0); }
  C[2].world={0};
  RQ.clear(); RQ.resize(1); unexpected.assign(n,{}); posted.assign(n,{}); lastvis.clear(); msgseq=1; lies.assign(n,0); where_.assign(n,""); inited.assign(n,0); finaled.assign(n,0);
}
string mpi_where(int r){ return r>=0&&r<(int)where_.size()?where_[r]:""; }
string mpi_leftover(){ for(int r=0;r<nr;++r) for(auto&m:unexpected[r]) return "message from rank "+num(m->src)+" to rank "+num(r)+" tag "+num(m->tag)+" ("+num(m->bytes)+" bytes) was never received";
  for(int r=0;r<nr;++r) for(int q:posted[r]) { (void)q; return "receive posted on rank "+num(r)+" never completed"; } 
  for(auto&c:C) if(c.ops.size()) return "collective "+c.ops.begin()->second->sig+" was not entered by every rank"; return ""; }
#define SELF(c) if((c)==MPI_COMM_SELF) c=3+cur
extern "C" {
int MPI_Init(int*,char***){ inited[cur]=1; W("MPI_Init"); yield(); return 0; }
int MPI_Init_thread(int*,char***,int r,int*p){ inited[cur]=1; W("MPI_Init_thread"); if(p)*p=r; yield(); return 0; }
int MPI_Finalize(void){ W("MPI_Finalize"); coll_enter(1,"MPI_Finalize","MPI_Finalize","",0,0); finaled[cur]=1; return 0; }
int MPI_Initialized(int*f){ *f=1; return 0; } int MPI_Finalized(int*f){ *f=finaled[cur]; return 0; }
int MPI_Abort(MPI_Comm,int c){ W("MPI_Abort"); g_st.add("mpi_abort"); finish_job(3,c?c:1); }
double sim_wtime(void); double MPI_Wtime(void){ return sim_wtime(); } double MPI_Wtick(void){ return 1e-9; }
int MPI_Get_processor_name(char*n,int*l){ strcpy(n,"sim"); *l=3; return 0; } int MPI_Query_thread(int*p){ *p=MPI_THREAD_MULTIPLE; return 0; }
int MPI_Comm_rank(MPI_Comm c,int*r){ SELF(c); *r=comm(c).idx[cur]; return 0; }
int MPI_Comm_size(MPI_Comm c,int*s){ SELF(c); *s=comm(c).world.size(); return 0; }
int MPI_Comm_dup(MPI_Comm c,MPI_Comm*o){ SELF(c); W("MPI_Comm_dup"); auto q=coll_enter(c,"MPI_Comm_dup","MPI_Comm_dup","",0,0,[c](CollOp&op){ Comm n=C[c]; n.ops.clear(); n.next.assign(n.world.size(),0); C.push_back(n); op.result=C.size()-1; }); *o=q->result; return 0; }
int MPI_Comm_split(MPI_Comm c,int color,int key,MPI_Comm*o){ SELF(c); W("MPI_Comm_split"); int kk[2]={color,key}; int me=comm(c).idx[cur];
  auto q=coll_enter(c,"MPI_Comm_split","MPI_Comm_split",string((char*)kk,8),0,0,[c](CollOp&op){ map<int,vector<std::pair<int,int>>> g; int n=op.contrib.size(); for(int i=0;i<n;++i){ int v[2]; memcpy(v,op.contrib[i].data(),8); if(v[0]!=MPI_UNDEFINED) g[v[0]].push_back({v[1],i}); }
    for(auto&x:g){ std::sort(x.second.begin(),x.second.end()); Comm nc; for(auto&y:x.second){ int w=C[c].world[y.second]; nc.idx[w]=nc.world.size(); nc.world.push_back(w); op.extra[y.second]=C.size(); } nc.next.assign(nc.world.size(),0); C.push_back(nc); } });
  *o=q->extra[me]; return 0; }
int MPI_Comm_free(MPI_Comm*c){ *c=MPI_COMM_NULL; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler){ return 0; } int MPI_Error_string(int,char*s,int*l){ strcpy(s,"error"); *l=5; return 0; }
static int snd(const char*nm,const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,bool sync){ SELF(c); W(nm); yield(); if(d==MPI_PROC_NULL) return 0; int h=post_send(b,n,t,d,tag,c,sync,true,true); block([h]{return rdone(h);},nm); return 0; }
int MPI_Send(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return snd("MPI_Send",b,n,t,d,tag,c,false); }
int MPI_Rsend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return snd("MPI_Rsend",b,n,t,d,tag,c,false); }
int MPI_Ssend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return snd("MPI_Ssend",b,n,t,d,tag,c,true); }
int MPI_Bsend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ double s=job.rndv_p; job.rndv_p=0; int r=snd("MPI_Bsend",b,n,t,d,tag,c,false); job.rndv_p=s; return r; }
int MPI_Isend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*r){ SELF(c); W("MPI_Isend"); yield(); *r= d==MPI_PROC_NULL? null_req(): post_send(b,n,t,d,tag,c,false,true,false); return 0; }
int MPI_Issend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*r){ SELF(c); W("MPI_Issend"); yield(); *r= d==MPI_PROC_NULL? null_req(): post_send(b,n,t,d,tag,c,true,false,false); return 0; }
int MPI_Recv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Status*st){ SELF(c); W("MPI_Recv"); yield(); int h= s==MPI_PROC_NULL? null_req(): post_recv(b,n,t,s,tag,c); block([h]{return rdone(h);},"MPI_Recv"); set_status(st,RQ[h].st); return 0; }
int MPI_Irecv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Request*r){ SELF(c); W("MPI_Irecv"); yield(); *r= s==MPI_PROC_NULL? null_req(): post_recv(b,n,t,s,tag,c); return 0; }
int MPI_Sendrecv(const void*sb,int sn,MPI_Datatype stt,int d,int stag,void*rb,int rn,MPI_Datatype rt,int s,int rtag,MPI_Comm c,MPI_Status*st){ SELF(c); W("MPI_Sendrecv"); yield();
  int hr= s==MPI_PROC_NULL? null_req(): post_recv(rb,rn,rt,s,rtag,c); int hs= d==MPI_PROC_NULL? null_req(): post_send(sb,sn,stt,d,stag,c,false,true,true);
  block([hr,hs]{return rdone(hr)&&rdone(hs);},"MPI_Sendrecv"); set_status(st,RQ[hr].st); return 0; }
int MPI_Sendrecv_replace(void*b,int n,MPI_Datatype t,int d,int stag,int s,int rtag,MPI_Comm c,MPI_Status*st){ string tmp=pack(b,n,t); string in(tmp.size(),0); int e=MPI_Sendrecv(tmp.data(),tmp.size(),MPI_BYTE,d,stag,(void*)in.data(),in.size(),MPI_BYTE,s,rtag,c,st); unpack(b,in.data(),in.size(),t); return e; }
static Msg* findu(int s,int tag,int c,int me=-1){ if(me<0) me=cur; Req r; r.comm=c; r.src=s; r.tag=tag; for(auto&m:unexpected[me]) if(fits(r,*m)) return m.get(); return nullptr; }
static void fillst(MPI_Status*st,Msg*m){ if(!st) return; st->MPI_SOURCE=C[m->comm].idx[m->src]; st->MPI_TAG=m->tag; st->MPI_ERROR=0; st->sim_bytes=m->bytes; }
int MPI_Probe(int s,int tag,MPI_Comm c,MPI_Status*st){ SELF(c); W("MPI_Probe"); comm(c); yield(); int me=cur; block([=]{return findu(s,tag,c,me)!=nullptr;},"MPI_Probe"); Msg*m=findu(s,tag,c); if(!m) violation("sim-internal","probe lost message"); fillst(st,m); ev(9,cur,m->seq); return 0; }
int MPI_Iprobe(int s,int tag,MPI_Comm c,int*f,MPI_Status*st){ SELF(c); W("MPI_Iprobe"); comm(c); yield(); Msg*m=findu(s,tag,c);
  if(m&&lies[cur]<6&&g_ch.rare(job.probe_lie)){ lies[cur]++; g_st.add("fault.probe_false_negative"); m=nullptr; } else if(m) lies[cur]=0;
  ev(10,cur,m?m->seq:0); if(m){ *f=1; fillst(st,m); progress(); } else { *f=0; poll_failed(); } return 0; }
int MPI_Get_count(const MPI_Status*st,MPI_Datatype t,int*n){ size_t z=dt(t).size; if(z==0){*n=0;return 0;} *n= st->sim_bytes%z? MPI_UNDEFINED : st->sim_bytes/z; return 0; }
int MPI_Wait(MPI_Request*r,MPI_Status*st){ W("MPI_Wait"); yield(); wait1(r,st); return 0; }
int MPI_Waitall(int n,MPI_Request r[],MPI_Status st[]){ W("MPI_Waitall"); yield(); for(int i=0;i<n;++i) wait1(&r[i],st?&st[i]:nullptr); return 0; }
int MPI_Waitany(int n,MPI_Request r[],int*ix,MPI_Status*st){ W("MPI_Waitany"); yield(); vector<int> v; for(int i=0;i<n;++i) if(r[i]!=MPI_REQUEST_NULL){ rq(r[i]); v.push_back(i);} if(v.empty()){ *ix=MPI_UNDEFINED; return 0; }
  block([=]{ for(int i:v) if(rdone(r[i])) return true; return false; },"MPI_Waitany"); vector<int> d; for(int i:v) if(rdone(r[i])) d.push_back(i); int i=d[g_ch.below(d.size())]; set_status(st,RQ[r[i]].st); r[i]=MPI_REQUEST_NULL; *ix=i; return 0; }
int MPI_Waitsome(int n,MPI_Request r[],int*oc,int ix[],MPI_Status st[]){ W("MPI_Waitsome"); yield(); vector<int> v; for(int i=0;i<n;++i) if(r[i]!=MPI_REQUEST_NULL){ rq(r[i]); v.push_back(i);} if(v.empty()){ *oc=MPI_UNDEFINED; return 0; }
  block([=]{ for(int i:v) if(rdone(r[i])) return true; return false; },"MPI_Waitsome"); *oc=0; for(int i:v) if(rdone(r[i])){ ix[*oc]=i; if(st) set_status(&st[*oc],RQ[r[i]].st); r[i]=MPI_REQUEST_NULL; ++*oc; } return 0; }
static bool tlie(int h){ if(RQ[h].lies<6&&g_ch.rare(job.test_lie)){ RQ[h].lies++; g_st.add("fault.test_false_negative"); return true;} return false; }
int MPI_Test(MPI_Request*r,int*f,MPI_Status*st){ W("MPI_Test"); yield(); if(*r==MPI_REQUEST_NULL){ *f=1; return 0; } rq(*r); int h=*r; if(rdone(h)&&!tlie(h)){ *f=1; set_status(st,RQ[h].st); *r=MPI_REQUEST_NULL; progress(); } else { *f=0; poll_failed(); } return 0; }
int MPI_Testall(int n,MPI_Request r[],int*f,MPI_Status st[]){ W("MPI_Testall"); yield(); for(int i=0;i<n;++i) if(r[i]!=MPI_REQUEST_NULL){ rq(r[i]); if(!rdone(r[i])||tlie(r[i])){ *f=0; poll_failed(); return 0; } } *f=1; progress(); for(int i=0;i<n;++i) if(r[i]!=MPI_REQUEST_NULL){ if(st) set_status(&st[i],RQ[r[i]].st); r[i]=MPI_REQUEST_NULL; } return 0; }
int MPI_Testany(int n,MPI_Request r[],int*ix,int*f,MPI_Status*st){ W("MPI_Testany"); yield(); bool any=false; for(int i=0;i<n;++i) if(r[i]!=MPI_REQUEST_NULL){ any=true; rq(r[i]); if(rdone(r[i])&&!tlie(r[i])){ *f=1; *ix=i; set_status(st,RQ[r[i]].st); r[i]=MPI_REQUEST_NULL; progress(); return 0; } } if(!any){ *f=1; *ix=MPI_UNDEFINED; return 0; } *f=0; *ix=MPI_UNDEFINED; poll_failed(); return 0; }
int MPI_Testsome(int n,MPI_Request r[],int*oc,int ix[],MPI_Status st[]){ W("MPI_Testsome"); yield(); bool any=false; *oc=0; for(int i=0;i<n;++i) if(r[i]!=MPI_REQUEST_NULL){ any=true; rq(r[i]); if(rdone(r[i])&&!tlie(r[i])){ ix[*oc]=i; if(st) set_status(&st[*oc],RQ[r[i]].st); r[i]=MPI_REQUEST_NULL; ++*oc; } } if(!any) *oc=MPI_UNDEFINED; else if(*oc==0) poll_failed(); else progress(); return 0; }
int MPI_Request_free(MPI_Request*r){ *r=MPI_REQUEST_NULL; return 0; } int MPI_Cancel(MPI_Request*){ violation("sim-unsupported","MPI_Cancel"); }
int MPI_Barrier(MPI_Comm c){ SELF(c); W("MPI_Barrier"); yield(); coll_enter(c,"MPI_Barrier","MPI_Barrier","",0,0); return 0; }
int MPI_Ibarrier(MPI_Comm c,MPI_Request*r){ SELF(c); W("MPI_Ibarrier"); yield(); Comm&cm=comm(c); int me=cm.idx[cur],n=cm.world.size(); u64 k=cm.next[me]++; auto&p=cm.ops[k]; if(!p){ p=std::make_shared<CollOp>(); p->sig=p->name="MPI_Ibarrier"; p->here.assign(n,0); p->contrib.resize(n); p->extra.assign(n,0); } if(p->sig!="MPI_Ibarrier") violation("collective-mismatch","MPI_Ibarrier vs "+p->sig);
  int h=newreq(3); p->extra[me]=h; *r=h; if(++p->arrived==n){ for(int q:p->extra){ RQ[q].done=true; RQ[q].done_at=now+1000; } at(now+1000,[]{progress();}); cm.ops.erase(k); } return 0; }
int MPI_Bcast(void*b,int n,MPI_Datatype t,int root,MPI_Comm c){ SELF(c); W("MPI_Bcast"); yield(); int me=comm(c).idx[cur]; size_t z=dt(t).size*(size_t)n; if(root<0||root>=comm_size_of(c)) violation("mpi-misuse","bad root");
  auto o=coll_enter(c,"MPI_Bcast","MPI_Bcast root="+num(root)+" bytes="+num(z), me==root?pack(b,n,t):"", me==root?2:1,root); if(me!=root) unpack(b,o->contrib[root].data(),z,t); return 0; }
int MPI_Allreduce(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ SELF(c); W("MPI_Allreduce"); yield(); const void*b= s==MPI_IN_PLACE? r:s; if(s!=MPI_IN_PLACE&&s==r&&n>0) violation("mpi-misuse","MPI_Allreduce buffers alias");
  auto o=coll_enter(c,"MPI_Allreduce","MPI_Allreduce count="+num(n)+" type="+num(dt(t).builtin?t:-1)+" op="+num(op),pack(b,n,t),0,0); string x=reduce_all(*o,op,t,n,o->contrib.size()); unpack(r,x.data(),x.size(),t); return 0; }
int MPI_Reduce(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,int root,MPI_Comm c){ SELF(c); W("MPI_Reduce"); yield(); int me=comm(c).idx[cur]; const void*b= s==MPI_IN_PLACE? r:s; if(s==MPI_IN_PLACE&&me!=root) violation("mpi-misuse","MPI_IN_PLACE in MPI_Reduce on a non-root rank");
  auto o=coll_enter(c,"MPI_Reduce","MPI_Reduce root="+num(root)+" count="+num(n)+" type="+num(dt(t).builtin?t:-1)+" op="+num(op),pack(b,n,t),me==root?0:2,root); if(me==root){ string x=reduce_all(*o,op,t,n,o->contrib.size()); unpack(r,x.data(),x.size(),t);} return 0; }
int MPI_Scan(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ SELF(c); W("MPI_Scan"); yield(); int me=comm(c).idx[cur]; const void*b= s==MPI_IN_PLACE? r:s; auto o=coll_enter(c,"MPI_Scan","MPI_Scan count="+num(n)+" op="+num(op),pack(b,n,t),3,0); string x=reduce_all(*o,op,t,n,me+1); unpack(r,x.data(),x.size(),t); return 0; }
int MPI_Exscan(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ SELF(c); W("MPI_Exscan"); yield(); int me=comm(c).idx[cur]; const void*b= s==MPI_IN_PLACE? r:s; auto o=coll_enter(c,"MPI_Exscan","MPI_Exscan count="+num(n)+" op="+num(op),pack(b,n,t),3,0); if(me>0){ string x=reduce_all(*o,op,t,n,me); unpack(r,x.data(),x.size(),t);} return 0; }
static void chk(size_t got,size_t want,const char*w){ if(got!=want) violation("collective-mismatch",string(w)+": "+num(got)+" bytes sent where "+num(want)+" are received"); }
int MPI_Gatherv(const void*s,int sn,MPI_Datatype st,void*r,const int*rn,const int*dp,MPI_Datatype rt,int root,MPI_Comm c){ SELF(c); W("MPI_Gatherv"); yield(); int me=comm(c).idx[cur],n=comm_size_of(c); string x= s==MPI_IN_PLACE? pack((char*)r+dp[me]*dt(rt).ext,rn[me],rt) : pack(s,sn,st);
  auto o=coll_enter(c,"MPI_Gatherv","MPI_Gatherv root="+num(root),x,me==root?0:2,root); if(me==root) for(int i=0;i<n;++i){ chk(o->contrib[i].size(),dt(rt).size*(size_t)rn[i],"MPI_Gatherv"); if(i==me&&s==MPI_IN_PLACE) continue; unpack((char*)r+dp[i]*dt(rt).ext,o->contrib[i].data(),o->contrib[i].size(),rt);} return 0; }
int MPI_Gather(const void*s,int sn,MPI_Datatype st,void*r,int rn,MPI_Datatype rt,int root,MPI_Comm c){ SELF(c); W("MPI_Gather"); yield(); int me=comm(c).idx[cur],n=comm_size_of(c); string x= s==MPI_IN_PLACE? pack((char*)r+(ptrdiff_t)me*rn*dt(rt).ext,rn,rt) : pack(s,sn,st);
  auto o=coll_enter(c,"MPI_Gather","MPI_Gather root="+num(root),x,me==root?0:2,root); if(me==root) for(int i=0;i<n;++i){ chk(o->contrib[i].size(),dt(rt).size*(size_t)rn,"MPI_Gather"); if(i==me&&s==MPI_IN_PLACE) continue; unpack((char*)r+(ptrdiff_t)i*rn*dt(rt).ext,o->contrib[i].data(),o->contrib[i].size(),rt);} return 0; }
int MPI_Scatterv(const void*s,const int*sn,const int*dp,MPI_Datatype st,void*r,int rn,MPI_Datatype rt,int root,MPI_Comm c){ SELF(c); W("MPI_Scatterv"); yield(); int me=comm(c).idx[cur],n=comm_size_of(c); string x; if(me==root) for(int i=0;i<n;++i){ string y=pack((const char*)s+dp[i]*dt(st).ext,sn[i],st); u64 z=y.size(); x.append((char*)&z,8); x+=y; }
  auto o=coll_enter(c,"MPI_Scatterv","MPI_Scatterv root="+num(root),x,me==root?2:1,root); const string&q=o->contrib[root]; size_t p=0; for(int i=0;i<=me;++i){ u64 z; memcpy(&z,q.data()+p,8); p+=8; if(i==me&&r!=MPI_IN_PLACE){ chk(z,dt(rt).size*(size_t)rn,"MPI_Scatterv"); unpack(r,q.data()+p,z,rt);} p+=z; } return 0; }
int MPI_Scatter(const void*s,int sn,MPI_Datatype st,void*r,int rn,MPI_Datatype rt,int root,MPI_Comm c){ SELF(c); int n=comm_size_of(c); vector<int> a(n,sn),d(n); for(int i=0;i<n;++i) d[i]=i*sn; return MPI_Scatterv(s,a.data(),d.data(),st,r,rn,rt,root,c); }
int MPI_Allgatherv(const void*s,int sn,MPI_Datatype st,void*r,const int*rn,const int*dp,MPI_Datatype rt,MPI_Comm c){ SELF(c); W("MPI_Allgatherv"); yield(); int me=comm(c).idx[cur],n=comm_size_of(c); string x= s==MPI_IN_PLACE? pack((char*)r+dp[me]*dt(rt).ext,rn[me],rt) : pack(s,sn,st);
  auto o=coll_enter(c,"MPI_Allgatherv","MPI_Allgatherv",x,0,0); for(int i=0;i<n;++i){ chk(o->contrib[i].size(),dt(rt).size*(size_t)rn[i],"MPI_Allgatherv"); unpack((char*)r+dp[i]*dt(rt).ext,o->contrib[i].data(),o->contrib[i].size(),rt);} return 0; }
int MPI_Allgather(const void*s,int sn,MPI_Datatype st,void*r,int rn,MPI_Datatype rt,MPI_Comm c){ SELF(c); W("MPI_Allgather"); yield(); int me=comm(c).idx[cur],n=comm_size_of(c); string x= s==MPI_IN_PLACE? pack((char*)r+(ptrdiff_t)me*rn*dt(rt).ext,rn,rt) : pack(s,sn,st);
  auto o=coll_enter(c,"MPI_Allgather","MPI_Allgather",x,0,0); for(int i=0;i<n;++i){ chk(o->contrib[i].size(),dt(rt).size*(size_t)rn,"MPI_Allgather"); unpack((char*)r+(ptrdiff_t)i*rn*dt(rt).ext,o->contrib[i].data(),o->contrib[i].size(),rt);} return 0; }
int MPI_Alltoallv(const void*s,const int*sn,const int*sd,MPI_Datatype st,void*r,const int*rn,const int*rd,MPI_Datatype rt,MPI_Comm c){ SELF(c); W("MPI_Alltoallv"); yield(); int me=comm(c).idx[cur],n=comm_size_of(c); string x; for(int i=0;i<n;++i){ string y= s==MPI_IN_PLACE? pack((const char*)r+rd[i]*dt(rt).ext,rn[i],rt) : pack((const char*)s+(ptrdiff_t)sd[i]*dt(st).ext,sn[i],st); u64 z=y.size(); x.append((char*)&z,8); x+=y; }
  auto o=coll_enter(c,"MPI_Alltoallv","MPI_Alltoallv",x,0,0); for(int j=0;j<n;++j){ const string&q=o->contrib[j]; size_t p=0; for(int i=0;i<=me;++i){ u64 z; memcpy(&z,q.data()+p,8); p+=8; if(i==me){ chk(z,dt(rt).size*(size_t)rn[j],"MPI_Alltoallv"); unpack((char*)r+(ptrdiff_t)rd[j]*dt(rt).ext,q.data()+p,z,rt);} p+=z; } } return 0; }
int MPI_Alltoall(const void*s,int sn,MPI_Datatype st,void*r,int rn,MPI_Datatype rt,MPI_Comm c){ SELF(c); int n=comm_size_of(c); vector<int> a(n,sn),d(n),b(n,rn),e(n); for(int i=0;i<n;++i){ d[i]=i*sn; e[i]=i*rn; } return MPI_Alltoallv(s,a.data(),d.data(),st,r,b.data(),e.data(),rt,c); }
static int addtype(DT d){ d.builtin=false; d.size=0; bool dn=true; ptrdiff_t p=0; for(auto&g:d.m){ if(g.off!=p) dn=false; p+=bsz[g.kind]; d.size+=bsz[g.kind]; } d.dense=dn&&p==d.ext; T.push_back(d); return T.size()-1; }
int MPI_Type_contiguous(int n,MPI_Datatype t,MPI_Datatype*o){ DT b=dt(t); DT d; d.ext=b.ext*n; for(int i=0;i<n;++i) for(auto g:b.m){ g.off+=i*b.ext; d.m.push_back(g);} *o=addtype(d); return 0; }
int MPI_Type_vector(int n,int bl,int st,MPI_Datatype t,MPI_Datatype*o){ DT b=dt(t); DT d; d.ext=n? ((n-1)*(ptrdiff_t)st+bl)*b.ext:0; for(int i=0;i<n;++i) for(int j=0;j<bl;++j) for(auto g:b.m){ g.off+=((ptrdiff_t)i*st+j)*b.ext; d.m.push_back(g);} *o=addtype(d); return 0; }
int MPI_Type_create_struct(int n,const int bl[],const MPI_Aint dp[],const MPI_Datatype ts[],MPI_Datatype*o){ DT d; ptrdiff_t mx=0; for(int i=0;i<n;++i){ DT b=dt(ts[i]); for(int j=0;j<bl[i];++j) for(auto g:b.m){ g.off+=dp[i]+j*b.ext; d.m.push_back(g);} mx=std::max(mx,dp[i]+bl[i]*b.ext);} ptrdiff_t al=1; for(auto&g:d.m) al=std::max<ptrdiff_t>(al,std::min<size_t>(bsz[g.kind],16)); d.ext=(mx+al-1)/al*al; *o=addtype(d); return 0; }
int MPI_Type_create_resized(MPI_Datatype t,MPI_Aint,MPI_Aint e,MPI_Datatype*o){ DT d=dt(t); d.ext=e; *o=addtype(d); return 0; }
int MPI_Type_commit(MPI_Datatype*){ return 0; } int MPI_Type_free(MPI_Datatype*t){ dt(*t); *t=MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t,int*s){ *s=dt(t).size; return 0; } int MPI_Type_get_extent(MPI_Datatype t,MPI_Aint*l,MPI_Aint*e){ *l=0; *e=dt(t).ext; return 0; }
int MPI_Get_address(const void*p,MPI_Aint*a){ *a=(MPI_Aint)p; return 0; }
int MPI_Op_create(MPI_User_function*f,int cm,MPI_Op*o){ UO.push_back({f,(bool)cm}); *o=SIM_OP_LAST+UO.size()-1; return 0; } int MPI_Op_free(MPI_Op*o){ *o=MPI_OP_NULL; return 0; }
int MPI_Info_create(MPI_Info*i){ *i=1; return 0; } int MPI_Info_set(MPI_Info,const char*,const char*){ return 0; } int MPI_Info_free(MPI_Info*i){ *i=0; return 0; }
}
