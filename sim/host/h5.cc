// Simulated parallel HDF5: every open file is one shared in-memory object, written to the (scratch) disk when it is
// flushed or closed.  Until then its modifications are volatile; what of them survives a crash is the crash kind.
#include "h5.h"
extern "C" void sim_emit(const char*key,const void*p,size_t n);
#include "../include/hdf5.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <deque>
#include <set>
using namespace sim;
int comm_clone(int c);
size_t h5_tsize(int t){ switch(t){ case H5T_NATIVE_INT: case H5T_NATIVE_UINT: case H5T_NATIVE_FLOAT: case H5T_NATIVE_INT32: return 4; case H5T_NATIVE_CHAR: return 1; case H5T_NATIVE_DOUBLE: case H5T_NATIVE_LLONG: case H5T_NATIVE_ULLONG: case H5T_NATIVE_LONG: case H5T_NATIVE_ULONG: case H5T_NATIVE_INT64: case H5T_NATIVE_UINT64: return 8; default: return 0; } }
static int tclass(int t){ return t==H5T_NATIVE_DOUBLE?2: t==H5T_NATIVE_FLOAT?3: (t==H5T_NATIVE_ULLONG||t==H5T_NATIVE_ULONG||t==H5T_NATIVE_UINT64||t==H5T_NATIVE_UINT)?1:0; }
static i64 geti(int t,const void*p){ switch(h5_tsize(t)){ case 1: return *(const signed char*)p; case 4: { if(tclass(t)==1){ unsigned v; memcpy(&v,p,4); return v;} int v; memcpy(&v,p,4); return v; } default: { i64 v; memcpy(&v,p,8); return v; } } }
double h5_get(int t,const void*p){ if(tclass(t)==2){ double v; memcpy(&v,p,8); return v; } if(tclass(t)==3){ float v; memcpy(&v,p,4); return v; } if(tclass(t)==1&&h5_tsize(t)==8){ u64 v; memcpy(&v,p,8); return (double)v; } return (double)geti(t,p); }
static void conv(int ft,const char*f,int mt,char*m,size_t n){
  size_t fs=h5_tsize(ft),ms=h5_tsize(mt); if(tclass(ft)==tclass(mt)&&fs==ms){ if(n) memcpy(m,f,n*fs); return; }
  for(size_t i=0;i<n;++i){ const char*p=f+i*fs; char*q=m+i*ms; if(tclass(mt)==2){ double v=h5_get(ft,p); memcpy(q,&v,8);} else if(tclass(mt)==3){ float v=h5_get(ft,p); memcpy(q,&v,4);} else { i64 v= tclass(ft)>=2? (i64)h5_get(ft,p) : geti(ft,p); if(ms==4){ if(v>2147483647LL) v=2147483647LL; if(v<-2147483648LL) v=-2147483648LL; int w=(int)v; memcpy(q,&w,4);} else if(ms==1) *q=(char)v; else memcpy(q,&v,8); } } }
// ---------------------------------------------------------------- serialisation
static void wn(string&s,u64 v){ s.append((char*)&v,8); } static void wstr(string&s,const string&t){ wn(s,t.size()); s+=t; }
string h5_serialize(const HContent&c){ string s; wn(s,c.o.size()); for(auto&x:c.o){ wstr(s,x.first); wn(s,x.second.dset); wn(s,x.second.type); wn(s,x.second.dims.size()); for(u64 d:x.second.dims) wn(s,d); wstr(s,x.second.data); wn(s,x.second.attrs.size()); for(auto&a:x.second.attrs){ wstr(s,a.first); wn(s,a.second.type); wstr(s,a.second.data);} } return "SIMH5F01"+s+string((const char*)"ENDFILE!",8); }
bool h5_parse(const string&f,HContent&c){
  if(f.size()<24||f.compare(0,8,"SIMH5F01")||f.compare(f.size()-8,8,"ENDFILE!")) return false; size_t p=8; bool bad=false;
  auto rn=[&]{ u64 v=0; if(p+8>f.size()) bad=true; else { memcpy(&v,f.data()+p,8); p+=8; } return v; }; auto rs=[&]{ u64 n=rn(); if(bad||p+n>f.size()){ bad=true; return string(); } string s=f.substr(p,n); p+=n; return s; };
  c.o.clear(); u64 n=rn(); for(u64 i=0;i<n&&!bad;++i){ string k=rs(); HObj o; o.dset=rn(); o.type=rn(); u64 nd=rn(); for(u64 j=0;j<nd&&!bad;++j) o.dims.push_back(rn()); o.data=rs(); u64 na=rn(); for(u64 j=0;j<na&&!bad;++j){ string an=rs(); HAttr a; a.type=rn(); a.data=rs(); o.attrs[an]=a; } c.o[k]=o; } c.o[""]; return !bad; }
static bool readfile(const string&p,string&s){ int fd=open(p.c_str(),O_RDONLY); if(fd<0) return false; char b[65536]; ssize_t n; while((n=read(fd,b,sizeof b))>0) s.append(b,n); close(fd); return true; }
static bool writefile(const string&p,const string&s){ int fd=open(p.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); if(fd<0) return false; size_t o=0; while(o<s.size()){ ssize_t w=write(fd,s.data()+o,s.size()-o); if(w<=0){ close(fd); return false; } o+=w; } close(fd); return true; }
bool h5_host_read(const string&p,HContent&c){ string s; return readfile(p,s)&&h5_parse(s,c); }
bool h5_host_write(const string&p,const HContent&c){ return writefile(p,h5_serialize(c)); }
vector<double> h5_doubles(const HContent&c,const string&p){ vector<double> v; auto it=c.o.find(p); if(it==c.o.end()) return v; size_t z=h5_tsize(it->second.type); if(!z) return v; for(size_t i=0;i+z<=it->second.data.size();i+=z) v.push_back(h5_get(it->second.type,it->second.data.data()+i)); return v; }
vector<i64> h5_ints(const HContent&c,const string&p){ vector<i64> v; auto it=c.o.find(p); if(it==c.o.end()) return v; size_t z=h5_tsize(it->second.type); if(!z) return v; for(size_t i=0;i+z<=it->second.data.size();i+=z) v.push_back(tclass(it->second.type)>=2?(i64)h5_get(it->second.type,it->second.data.data()+i):geti(it->second.type,it->second.data.data()+i)); return v; }
static void mkparents(HContent&c,const string&p){ size_t k=0; while((k=p.find('/',k))!=string::npos){ c.o[p.substr(0,k)]; ++k; } }
void h5_put(HContent&c,const string&p,const vector<double>&v){ mkparents(c,p); HObj&o=c.o[p]; o.dset=true; o.type=H5T_NATIVE_DOUBLE; o.dims={v.size()}; o.data.assign((const char*)v.data(),v.size()*8); }
void h5_puti(HContent&c,const string&p,const vector<i64>&v){ mkparents(c,p); HObj&o=c.o[p]; o.dset=true; o.type=H5T_NATIVE_LLONG; o.dims={v.size()}; o.data.assign((const char*)v.data(),v.size()*8); }
void h5_puti32(HContent&c,const string&p,const vector<i64>&w){ vector<int> v(w.begin(),w.end()); mkparents(c,p); HObj&o=c.o[p]; o.dset=true; o.type=H5T_NATIVE_INT; o.dims={v.size()}; o.data.assign((const char*)v.data(),v.size()*4); }
void h5_attr(HContent&c,const string&ob,const string&n,double v){ HAttr&a=c.o[ob].attrs[n]; a.type=H5T_NATIVE_DOUBLE; a.data.assign((char*)&v,8); }
void h5_attri(HContent&c,const string&ob,const string&n,i64 v){ HAttr&a=c.o[ob].attrs[n]; a.type=H5T_NATIVE_LLONG; a.data.assign((char*)&v,8); }
void h5_attri32(HContent&c,const string&ob,const string&n,int v){ HAttr&a=c.o[ob].attrs[n]; a.type=H5T_NATIVE_INT; a.data.assign((char*)&v,4); }
static const HAttr* fattr(const HContent&c,const string&ob,const string&n){ auto it=c.o.find(ob); if(it==c.o.end()) return nullptr; auto a=it->second.attrs.find(n); return a==it->second.attrs.end()?nullptr:&a->second; }
bool h5_get_attr(const HContent&c,const string&ob,const string&n,double&v){ auto a=fattr(c,ob,n); if(!a||a->data.size()<h5_tsize(a->type)) return false; v=h5_get(a->type,a->data.data()); return true; }
bool h5_get_attri(const HContent&c,const string&ob,const string&n,i64&v){ auto a=fattr(c,ob,n); if(!a||a->data.size()<h5_tsize(a->type)) return false; v=geti(a->type,a->data.data()); return true; }
// ---------------------------------------------------------------- open files
namespace {
struct Op { std::function<void(HContent&)> f; bool data; };
struct OFile { map<string,std::set<int>> pend; /* created, but not yet by these ranks: metadata is cached per process */  string path; HContent c,base; bool base_ok=false; vector<Op> log; int refs=0; bool orphan=false; };
map<string,std::shared_ptr<OFile>> open_files;
struct FH { std::shared_ptr<OFile> f; bool rw; int comm; };
enum { HK_FILE=1,HK_GROUP,HK_DSET,HK_SPACE,HK_ATTR,HK_PLIST };
struct Sp { vector<u64> dims; bool all=true; vector<u64> off,cnt; u64 npts() const { u64 n=1; for(u64 d:(all?dims:cnt)) n*=d; return dims.empty()?1:n; } };
struct HH { int kind=0; int owner; std::shared_ptr<FH> f; string path,attr; Sp sp; int comm=0; bool coll=false; int pclass=0; };
std::deque<HH> H; const hid_t BASE=1000;
HH* get(hid_t id,int kind){ i64 k=id-BASE; if(k<0||k>=(i64)H.size()||H[k].kind==0) return nullptr; if(H[k].owner!=cur) violation("h5-misuse","handle of another rank used"); if(kind&&H[k].kind!=kind) return nullptr; return &H[k]; }
hid_t mk(HH h){ h.owner=cur; H.push_back(h); return BASE+H.size()-1; }
HH* loc(hid_t id){ HH*h=get(id,0); if(!h||(h->kind!=HK_FILE&&h->kind!=HK_GROUP&&h->kind!=HK_DSET)) return nullptr; return h; }
string resolve(HH*h,const char*n){ string s=n; string base=h->path; if(s.size()&&s[0]=='/'){ base=""; } string out=base; size_t i=0; while(i<s.size()){ while(i<s.size()&&s[i]=='/') ++i; size_t j=s.find('/',i); if(j==string::npos) j=s.size(); string t=s.substr(i,j-i); if(t.size()&&t!=".") out+= out.empty()?t:"/"+t; i=j; } return out; }
string parent(const string&p){ size_t k=p.rfind('/'); return k==string::npos?"":p.substr(0,k); }
string norm(const char*p){ string s=p; while(s.compare(0,2,"./")==0) s=s.substr(2); return s; }
bool isgroup(HContent&c,const string&p){ auto it=c.o.find(p); return it!=c.o.end()&&!it->second.dset; }
void apply(OFile&f,bool data,std::function<void(HContent&)> op){ op(f.c); f.log.push_back({op,data}); }
void flush(OFile&f){ if(f.orphan) return; if(f.log.empty()&&f.base_ok) return; f.base=f.c; f.base_ok=true; f.log.clear(); writefile(f.path,h5_serialize(f.c)); }
bool io_error(const string&path){ // disk full / I/O error on this operation
  i64 op=diskops; bool e=false; if(job.h5_err_from>=0&&op>=job.h5_err_from&&(job.h5_err_to<0||op<job.h5_err_to)) e=true; else if(job.h5_err_p>0&&g_ch.rare(job.h5_err_p)) e=true;
  if(e){ g_st.add("fault.disk_write_error"); ev(77,cur,op); sim_emit("ioerr",path.data(),path.size()); } return e; }
}
void h5_reset(){ open_files.clear(); H.clear(); }
void h5_unlinked(const string&p){ auto it=open_files.find(norm(p.c_str())); if(it!=open_files.end()){ it->second->orphan=true; open_files.erase(it); } }
void h5_crash(){
  Rng r(g_ch.rng.s^0xC0FFEE^(u64)job.crash_at*7919); int kind=job.crash_kind; char nm[64];
  for(auto&x:open_files){ OFile&f=*x.second; if(f.log.empty()&&f.base_ok) continue; if(f.orphan) continue; g_st.add("fault.crash_unflushed_file");
    snprintf(nm,sizeof nm,"fault.crash_kind%d",kind); g_st.add(nm);
    if(kind==0){ if(!f.base_ok) writefile(f.path,""); continue; } // nothing unflushed survives
    if(kind==3){ string s=h5_serialize(f.c); s.resize(r.below(s.size())); writefile(f.path,s); continue; } // torn file, cannot be opened
    HContent c=f.base_ok?f.base:HContent(); size_t upto= kind==1? f.log.size() : r.below(f.log.size()+1); if(kind==2) upto=f.log.size();
    for(size_t i=0;i<upto;++i){ if(kind==2&&f.log[i].data&&r.below(3)==0) continue; f.log[i].f(c); }
    writefile(f.path,h5_serialize(c)); }
}
#define STEP sim::yield()
static bool hid(OFile&f,const string&k){ auto i=f.pend.find(k); return i!=f.pend.end()&&i->second.count(cur); }
static void made(OFile&f,const string&k){ auto&q=f.pend[k]; for(int i=0;i<job.nranks;++i) if(i!=cur) q.insert(i); }
static void seen(OFile&f,const string&k){ auto i=f.pend.find(k); if(i!=f.pend.end()){ i->second.erase(cur); if(i->second.empty()) f.pend.erase(i); } }
extern "C" {
herr_t H5open(void){ return 0; } herr_t H5close(void){ return 0; } herr_t H5Eset_auto2(hid_t,H5E_auto_t,void*){ return 0; }
hid_t H5Pcreate(hid_t k){ HH h; h.kind=HK_PLIST; h.pclass=k; return mk(h); } herr_t H5Pclose(hid_t id){ HH*h=get(id,HK_PLIST); if(!h) return -1; h->kind=0; return 0; }
herr_t H5Pset_fapl_mpio(hid_t p,MPI_Comm c,MPI_Info){ HH*h=get(p,HK_PLIST); if(!h) return -1; h->comm= c==MPI_COMM_SELF?3+cur:c; return 0; }
herr_t H5Pset_dxpl_mpio(hid_t p,H5FD_mpio_xfer_t x){ HH*h=get(p,HK_PLIST); if(!h) return -1; h->coll=(x==H5FD_MPIO_COLLECTIVE); return 0; }
herr_t H5Pset_all_coll_metadata_ops(hid_t,hbool_t){ return 0; } herr_t H5Pset_coll_metadata_write(hid_t,hbool_t){ return 0; }
static std::shared_ptr<OFile> open_content(const string&p){ auto it=open_files.find(p); if(it!=open_files.end()) return it->second; auto f=std::make_shared<OFile>(); f->path=p; if(!h5_host_read(p,f->c)) return nullptr; f->base=f->c; f->base_ok=true; open_files[p]=f; return f; }
static hid_t do_open(const char*name,unsigned flags,hid_t fapl,bool create){
  STEP; string p=norm(name); int c=0; if(HH*h=get(fapl,HK_PLIST)) c=h->comm; bool rw=create||(flags&H5F_ACC_RDWR); g_st.add(create?"h5.create":"h5.open");
  if(create) fault_point();
  int res=0; int newcomm=0;
  if(rw&&!create) for(auto&x:H) if(x.owner==cur&&x.kind==HK_FILE&&x.f&&!x.f->rw&&x.f->f->path==p&&open_files.count(p)&&open_files[p]==x.f->f){ g_st.add("h5.open_refused"); if(c) coll_enter(c,"H5Fopen","H5Fopen "+p+" flags="+std::to_string(flags),"",0,0); return -1; } // already open for reading
  auto body=[&](int&rs){ if(create){ struct stat sb; if((flags&H5F_ACC_EXCL)&&stat(p.c_str(),&sb)==0){ rs=-1; return; } if(io_error(p)){ rs=-1; return; } auto f=std::make_shared<OFile>(); f->path=p; if(!writefile(p,"")){ rs=-1; return; } open_files[p]=f; rs=1; } else rs= open_content(p)?1:-1; };
  if(c){ auto o=coll_enter(c,create?"H5Fcreate":"H5Fopen",string(create?"H5Fcreate ":"H5Fopen ")+p+" flags="+std::to_string(flags),"",0,0,[&,c](CollOp&q){ body(q.result); q.left=comm_clone(c); }); res=o->result; newcomm=o->left; } else body(res);
  if(res<0) return -1; auto it=open_files.find(p); if(it==open_files.end()) return -1; it->second->refs++;
  HH h; h.kind=HK_FILE; h.f=std::make_shared<FH>(); h.f->f=it->second; h.f->rw=rw; h.f->comm=newcomm; return mk(h); }
hid_t H5Fopen(const char*n,unsigned fl,hid_t fapl){ return do_open(n,fl,fapl,false); }
hid_t H5Fcreate(const char*n,unsigned fl,hid_t,hid_t fapl){ return do_open(n,fl,fapl,true); }
static void cl(HH*h,const char*nm,const string&sig,int mode){ if(h->f->comm) coll_enter(h->f->comm,nm,string(nm)+" "+sig,"",mode,0); }
herr_t H5Fflush(hid_t id,H5F_scope_t){ STEP; HH*h=loc(id); if(!h) return -1; auto fh=h->f; fault_point(); bool bad=fh->rw&&io_error(fh->f->path); cl(h,"H5Fflush",fh->f->path,0); if(!bad) flush(*fh->f); return bad?-1:0; }
herr_t H5Fclose(hid_t id){ STEP; HH*h=get(id,HK_FILE); if(!h) return -1; auto fh=h->f; // like the MPI-I/O driver (H5F_CLOSE_SEMI): a file with open objects is not closed
  for(auto&x:H) if(x.owner==cur&&x.f==fh&&(x.kind==HK_GROUP||x.kind==HK_DSET||x.kind==HK_ATTR)){ g_st.add("h5.close_refused"); if(fh->comm) coll_enter(fh->comm,"H5Fclose","H5Fclose "+fh->f->path,"",0,0); return -1; }
  if(fh->rw) fault_point(); bool bad=fh->rw&&io_error(fh->f->path); h->kind=0;
  OFile*f=fh->f.get(); if(fh->comm){ coll_enter(fh->comm,"H5Fclose","H5Fclose "+f->path,bad?"E":"",0,0,[f](CollOp&q){ bool b=false; for(auto&s:q.contrib) if(s.size()) b=true; if(!b) flush(*f); q.result=b; }); } else if(!bad) flush(*f);
  if(--f->refs==0){ auto it=open_files.find(f->path); if(it!=open_files.end()&&it->second.get()==f) open_files.erase(it); } return bad?-1:0; }
htri_t H5Fis_hdf5(const char*n){ STEP; HContent c; if(access(n,F_OK)) return -1; return h5_host_read(n,c)?1:0; }
herr_t H5Gget_objinfo(hid_t id,const char*n,hbool_t,H5G_stat_t*){ HH*h=loc(id); if(!h) return -1; string p=resolve(h,n); return h->f->f->c.o.count(p)&&!hid(*h->f->f,p)?0:-1; }
htri_t H5Lexists(hid_t id,const char*n,hid_t){ HH*h=loc(id); if(!h) return -1; string p=resolve(h,n); if(!h->f->f->c.o.count(parent(p))) return -1; return h->f->f->c.o.count(p)&&!hid(*h->f->f,p)?1:0; }
hid_t H5Gopen2(hid_t id,const char*n,hid_t){ HH*h=loc(id); if(!h) return -1; string p=resolve(h,n); if(!isgroup(h->f->f->c,p)||hid(*h->f->f,p)) return -1; HH g; g.kind=HK_GROUP; g.f=h->f; g.path=p; return mk(g); }
hid_t H5Gcreate2(hid_t id,const char*n,hid_t,hid_t,hid_t){ STEP; HH*h=loc(id); if(!h) return -1; auto fh=h->f; string p=resolve(h,n); fault_point();
  HContent&c=fh->f->c; HH hc=*h; bool mine=true; if(fh->comm){ auto o=coll_enter(fh->comm,"H5Gcreate","H5Gcreate "+p,"",2,0); mine=(o->left++==0); if(!mine&&o->result<0) return -1; if(mine){ o->result=(fh->rw&&!c.o.count(p)&&isgroup(c,parent(p)))?1:-1; if(o->result>0) { apply(*fh->f,false,[p](HContent&c){ c.o[p]; }); made(*fh->f,p); } if(o->result<0) return -1; } seen(*fh->f,p); }
  else { if(!fh->rw||c.o.count(p)||!isgroup(c,parent(p))) return -1; apply(*fh->f,false,[p](HContent&c){ c.o[p]; }); }
  HH g; g.kind=HK_GROUP; g.f=fh; g.path=p; return mk(g); }
herr_t H5Gclose(hid_t id){ HH*h=get(id,HK_GROUP); if(!h) return -1; h->kind=0; return 0; } herr_t H5Oclose(hid_t id){ HH*h=loc(id); if(!h) return -1; h->kind=0; return 0; }
hid_t H5Dopen2(hid_t id,const char*n,hid_t){ HH*h=loc(id); if(!h) return -1; string p=resolve(h,n); auto it=h->f->f->c.o.find(p); if(it==h->f->f->c.o.end()||!it->second.dset||hid(*h->f->f,p)) return -1; HH d; d.kind=HK_DSET; d.f=h->f; d.path=p; return mk(d); }
hid_t H5Dcreate2(hid_t id,const char*n,hid_t type,hid_t sp,hid_t,hid_t,hid_t){ STEP; HH*h=loc(id); HH*s=get(sp,HK_SPACE); if(!h||!s||!h5_tsize(type)) return -1; auto fh=h->f; string p=resolve(h,n); vector<u64> dims=s->sp.dims; fault_point();
  string sig=p+" type="+std::to_string(type)+" dims="; u64 np=1; for(u64 d:dims){ sig+=std::to_string(d)+","; np*=d; }
  auto op=[p,type,dims,np](HContent&c){ HObj&o=c.o[p]; o.dset=true; o.type=type; o.dims=dims; o.data.assign(np*h5_tsize(type),0); };
  auto can=[&]{ HContent&c=fh->f->c; return fh->rw&&!c.o.count(p)&&isgroup(c,parent(p)); };
  if(fh->comm){ auto o=coll_enter(fh->comm,"H5Dcreate","H5Dcreate "+sig,"",2,0); if(o->left++==0){ o->result=can()?1:-1; if(o->result>0){ apply(*fh->f,false,op); made(*fh->f,p); } } if(o->result<0) return -1; seen(*fh->f,p); } else { if(!can()) return -1; apply(*fh->f,false,op); }
  HH d; d.kind=HK_DSET; d.f=fh; d.path=p; return mk(d); }
herr_t H5Dclose(hid_t id){ HH*h=get(id,HK_DSET); if(!h) return -1; h->kind=0; return 0; }
hid_t H5Dget_space(hid_t id){ HH*h=get(id,HK_DSET); if(!h) return -1; auto it=h->f->f->c.o.find(h->path); if(it==h->f->f->c.o.end()) return -1; HH s; s.kind=HK_SPACE; s.sp.dims=it->second.dims; return mk(s); }
hid_t H5Screate_simple(int r,const hsize_t*d,const hsize_t*){ HH s; s.kind=HK_SPACE; for(int i=0;i<r;++i) s.sp.dims.push_back(d[i]); return mk(s); }
herr_t H5Sclose(hid_t id){ HH*h=get(id,HK_SPACE); if(!h) return -1; h->kind=0; return 0; }
herr_t H5Sselect_hyperslab(hid_t id,H5S_seloper_t op,const hsize_t*st,const hsize_t*sd,const hsize_t*ct,const hsize_t*bl){ HH*h=get(id,HK_SPACE); if(!h||op!=H5S_SELECT_SET) return -1; size_t n=h->sp.dims.size(); h->sp.all=false; h->sp.off.assign(n,0); h->sp.cnt.assign(n,0); for(size_t i=0;i<n;++i){ if(sd&&sd[i]!=1&&ct[i]>1) { sim::violation("sim-unsupported","strided hyperslab"); } h->sp.off[i]=st[i]; h->sp.cnt[i]=ct[i]*(bl?bl[i]:1); } return 0; }
herr_t H5Sselect_none(hid_t id){ HH*h=get(id,HK_SPACE); if(!h) return -1; h->sp.all=false; h->sp.off.assign(h->sp.dims.size(),0); h->sp.cnt.assign(h->sp.dims.size(),0); return 0; } herr_t H5Sselect_all(hid_t id){ HH*h=get(id,HK_SPACE); if(!h) return -1; h->sp.all=true; return 0; }
int H5Sget_simple_extent_dims(hid_t id,hsize_t*d,hsize_t*m){ HH*h=get(id,HK_SPACE); if(!h) return -1; for(size_t i=0;i<h->sp.dims.size();++i){ if(d) d[i]=h->sp.dims[i]; if(m) m[i]=h->sp.dims[i]; } return h->sp.dims.size(); }
int H5Sget_simple_extent_ndims(hid_t id){ HH*h=get(id,HK_SPACE); return h?h->sp.dims.size():-1; }
hssize_t H5Sget_simple_extent_npoints(hid_t id){ HH*h=get(id,HK_SPACE); if(!h) return -1; u64 n=1; for(u64 d:h->sp.dims) n*=d; return n; } hssize_t H5Sget_select_npoints(hid_t id){ HH*h=get(id,HK_SPACE); return h?(hssize_t)h->sp.npts():-1; }
// one-dimensional (or whole-extent) selections only: returns offset/count, or false if not representable / out of range
static bool sel(const Sp&s,u64&off,u64&cnt){ if(s.all||s.dims.empty()){ off=0; cnt=s.npts(); return true; } if(s.dims.size()!=1){ u64 n=1; for(u64 d:s.dims) n*=d; if(s.npts()==n){ off=0; cnt=n; return true; } sim::violation("sim-unsupported","multi-dimensional hyperslab"); } off=s.off[0]; cnt=s.cnt[0]; if(cnt==0){ off=0; return true; } return off+cnt<=s.dims[0]; }
static herr_t xfer(hid_t id,hid_t mt,hid_t ms,hid_t fs,hid_t pl,void*rb,const void*wb){
  STEP; HH*h=get(id,HK_DSET); if(!h||!h5_tsize(mt)) return -1; auto fh=h->f; string path=h->path; bool wr=wb!=nullptr||rb==nullptr; auto it=fh->f->c.o.find(path); if(it==fh->f->c.o.end()) return -1;
  Sp fsp; fsp.dims=it->second.dims; if(fs!=H5S_ALL){ HH*s=get(fs,HK_SPACE); if(!s) return -1; fsp=s->sp; } Sp msp=fsp; if(ms!=H5S_ALL){ HH*s=get(ms,HK_SPACE); if(!s) return -1; msp=s->sp; }
  u64 fo,fc,mo,mc; bool ok=sel(fsp,fo,fc); ok=sel(msp,mo,mc)&&ok; if(fc!=mc) ok=false; if(fsp.dims!=it->second.dims) ok=false; if(wr&&!fh->rw) ok=false;
  bool coll=false; if(HH*p=get(pl,HK_PLIST)) coll=p->coll; if(wr){ fault_point(); if(ok&&io_error(fh->f->path)) ok=false; }
  if(ok){ if(wr){ int ft=it->second.type; string b(fc*h5_tsize(ft),0); if(fc) conv(mt,(const char*)wb+mo*h5_tsize(mt),ft,(char*)b.data(),fc); u64 o=fo*h5_tsize(ft); apply(*fh->f,true,[path,b,o](HContent&c){ auto i=c.o.find(path); if(i!=c.o.end()&&o+b.size()<=i->second.data.size()) i->second.data.replace(o,b.size(),b); }); }
    else if(fc) conv(it->second.type,it->second.data.data()+fo*h5_tsize(it->second.type),mt,(char*)rb+mo*h5_tsize(mt),fc); }
  else ev(78,cur); 
  if(coll&&fh->comm) coll_enter(fh->comm,wr?"H5Dwrite":"H5Dread",string(wr?"H5Dwrite ":"H5Dread ")+path,"",2,0);
  return ok?0:-1; }
herr_t H5Dread(hid_t id,hid_t mt,hid_t ms,hid_t fs,hid_t pl,void*b){ static char dummy; return xfer(id,mt,ms,fs,pl,b?b:&dummy,nullptr); }
herr_t H5Dwrite(hid_t id,hid_t mt,hid_t ms,hid_t fs,hid_t pl,const void*b){ return xfer(id,mt,ms,fs,pl,nullptr,b); }
hid_t H5Aopen(hid_t id,const char*n,hid_t){ HH*h=loc(id); if(!h) return -1; auto it=h->f->f->c.o.find(h->path); if(it==h->f->f->c.o.end()||!it->second.attrs.count(n)||hid(*h->f->f,h->path+"@"+n)) return -1; HH a; a.kind=HK_ATTR; a.f=h->f; a.path=h->path; a.attr=n; return mk(a); }
htri_t H5Aexists(hid_t id,const char*n){ HH*h=loc(id); if(!h) return -1; auto it=h->f->f->c.o.find(h->path); return it!=h->f->f->c.o.end()&&it->second.attrs.count(n)&&!hid(*h->f->f,h->path+"@"+n)?1:0; }
hid_t H5Acreate2(hid_t id,const char*n,hid_t t,hid_t sp,hid_t,hid_t){ STEP; HH*h=loc(id); HH*s=get(sp,HK_SPACE); if(!h||!s||!h5_tsize(t)) return -1; auto fh=h->f; string p=h->path,an=n; u64 np=s->sp.npts(); fault_point();
  auto op=[p,an,t,np](HContent&c){ auto i=c.o.find(p); if(i==c.o.end()) return; HAttr&a=i->second.attrs[an]; a.type=t; a.data.assign(np*h5_tsize(t),0); };
  auto can=[&]{ auto i=fh->f->c.o.find(p); return fh->rw&&i!=fh->f->c.o.end()&&!i->second.attrs.count(an); };
  if(fh->comm){ auto o=coll_enter(fh->comm,"H5Acreate","H5Acreate "+p+" "+an,"",2,0); if(o->left++==0){ o->result=can()?1:-1; if(o->result>0){ apply(*fh->f,false,op); made(*fh->f,p+"@"+an); } } if(o->result<0) return -1; seen(*fh->f,p+"@"+an); } else { if(!can()) return -1; apply(*fh->f,false,op); }
  HH a; a.kind=HK_ATTR; a.f=fh; a.path=p; a.attr=an; return mk(a); }
herr_t H5Awrite(hid_t id,hid_t t,const void*b){ STEP; HH*h=get(id,HK_ATTR); if(!h||!h5_tsize(t)) return -1; auto fh=h->f; string p=h->path,an=h->attr; fault_point(); auto i=fh->f->c.o.find(p); if(i==fh->f->c.o.end()||!i->second.attrs.count(an)||!fh->rw) return -1; HAttr&a=i->second.attrs[an]; size_t np=a.data.size()/h5_tsize(a.type); string v(a.data.size(),0); conv(t,(const char*)b,a.type,(char*)v.data(),np);
  auto op=[p,an,v](HContent&c){ auto i=c.o.find(p); if(i!=c.o.end()&&i->second.attrs.count(an)) i->second.attrs[an].data=v; };
  if(fh->comm){ coll_enter(fh->comm,"H5Awrite","H5Awrite "+p+" "+an+" data="+std::to_string(hash_bytes(v.data(),v.size())),"",2,0); } apply(*fh->f,true,op); return 0; }
herr_t H5Aread(hid_t id,hid_t t,void*b){ HH*h=get(id,HK_ATTR); if(!h||!h5_tsize(t)) return -1; auto i=h->f->f->c.o.find(h->path); if(i==h->f->f->c.o.end()) return -1; auto a=i->second.attrs.find(h->attr); if(a==i->second.attrs.end()) return -1; conv(a->second.type,a->second.data.data(),t,(char*)b,a->second.data.size()/h5_tsize(a->second.type)); return 0; }
herr_t H5Aclose(hid_t id){ HH*h=get(id,HK_ATTR); if(!h) return -1; h->kind=0; return 0; }
herr_t H5Adelete(hid_t id,const char*n){ STEP; HH*h=loc(id); if(!h||!h->f->rw) return -1; auto fh=h->f; string p=h->path,an=n; fault_point(); int rs=1; auto go=[&]{ auto i=fh->f->c.o.find(p); if(i==fh->f->c.o.end()||!i->second.attrs.count(an)) return -1; apply(*fh->f,false,[p,an](HContent&c){ c.o[p].attrs.erase(an); }); return 1; }; if(fh->comm){ auto o=coll_enter(fh->comm,"H5Adelete","H5Adelete "+p+" "+an,"",2,0); if(o->left++==0) o->result=go(); rs=o->result; } else rs=go(); return rs<0?-1:0; }
herr_t H5Ldelete(hid_t id,const char*n,hid_t){ STEP; HH*h=loc(id); if(!h||!h->f->rw) return -1; auto fh=h->f; string p=resolve(h,n); fault_point(); int rs=1; auto go=[&]{ if(!fh->f->c.o.count(p)) return -1; apply(*fh->f,false,[p](HContent&c){ for(auto i=c.o.begin();i!=c.o.end();) if(i->first==p||i->first.compare(0,p.size()+1,p+"/")==0) i=c.o.erase(i); else ++i; }); return 1; }; if(fh->comm){ auto o=coll_enter(fh->comm,"H5Ldelete","H5Ldelete "+p,"",2,0); if(o->left++==0) o->result=go(); rs=o->result; } else rs=go(); return rs<0?-1:0; }
}
