#include "scn.h"
#include <stdarg.h>
#include <dirent.h>
vector<Scn> g_scn;
string fmt(const char*f,...){ char b[2000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
JobResult Ctx::run(const JobSpec&s){
  JobResult r=run_job(s); hash=mix64(hash*31+r.ehash); hash=mix64(hash*31+hash_str(r.viol)); if(s.nranks>1&&r.steps>10) nontriv=true;
  if(getenv("SIM_VERBOSE")) fprintf(stderr,"[job %s ranks=%d steps=%llu diskops=%lld viol=%s %s exit=%d/%d crashed=%d]\n",s.lib.c_str(),s.nranks,(unsigned long long)r.steps,(long long)r.diskops,r.viol.c_str(),r.msg.c_str(),r.exited,r.exit_code,r.crashed);
  if(r.viol.size()) throw Fail{r.viol,r.msg+(r.errtext.size()?" | output tail: "+r.errtext.substr(r.errtext.size()>200?r.errtext.size()-200:0):"")};
  return r;
}
bool write_text(const string&p,const string&s){ FILE*f=fopen(p.c_str(),"wb"); if(!f) return false; fwrite(s.data(),1,s.size(),f); fclose(f); return true; }
string read_text(const string&p){ string s; FILE*f=fopen(p.c_str(),"rb"); if(!f) return s; char b[65536]; size_t n; while((n=fread(b,1,sizeof b,f))>0) s.append(b,n); fclose(f); return s; }
vector<string> list_dir(const string&d){ vector<string> v; DIR*D=opendir(d.c_str()); if(!D) return v; while(dirent*e=readdir(D)){ string n=e->d_name; if(n!="."&&n!="..") v.push_back(n);} closedir(D); std::sort(v.begin(),v.end()); return v; }
vector<Row> rows(const Rec&r){ return r.as<Row>(); }
vector<Part> gen_parts(Ctx&C,const string&nm,const GenOpt&o){
  Rng r=C.R(nm); int kind=o.kind>=0?o.kind:(int)C.I(nm+".kind",0,4); vector<Part> v; double L=o.scale; int D=o.dim;
  double cell=L/std::pow((double)o.n,1.0/D);
  auto ok=[&](const double*x){ for(auto&q:v){ double d=0; for(int i=0;i<D;++i) d+=(q.x[i]-x[i])*(q.x[i]-x[i]); if(d<1e-10*L*L) return false; } return true; };
  double cen[4][3]; for(auto&c:cen) for(double&z:c) z=r.range(-.4,.4)*L; int m=1; while(std::pow(m,D)<o.n) ++m;
  for(int i=0,tries=0;i<o.n&&tries<100*o.n;++tries){ Part p; double x[3]={0,0,0};
    if(kind==0) for(int d=0;d<D;++d) x[d]=r.range(-.5,.5)*L;                                     // uniform
    else if(kind==1){ int k=i; for(int d=0;d<D;++d){ x[d]=((k%m+.5)/m-.5)*L+r.range(-.2,.2)*L/m; k/=m; } } // jittered lattice
    else if(kind==2){ int c=r.below(4); double s=std::pow(10,-1-(double)c*.5); for(int d=0;d<D;++d) x[d]=cen[c][d]+(r.u01()+r.u01()+r.u01()-1.5)*s*.3*L; } // clusters of different scale
    else if(kind==3){ double t=r.range(-.5,.5)*L; for(int d=0;d<D;++d) x[d]=t+(d?r.range(-.01,.01)*L:0); } // nearly a diagonal line
    else { double q=std::pow(2.,-(double)r.below(12))*L*.5; for(int d=0;d<D;++d) x[d]=(r.below(2)?1:-1)*q*r.range(.5,1); } // geometric
    if(!ok(x)) continue; ++i; p.id=o.id0+(i64)v.size(); for(int d=0;d<D;++d){ p.x[d]=x[d]; p.v[d]=r.range(-.1,.1); }
    p.h=o.hscale*cell*(o.varh? r.range(.7,1.6):1.); p.m=r.range(.5,1.5)/o.n; p.rho=r.range(.5,1.5); p.u=r.range(.5,1.5); p.P=r.range(.5,1.5); p.dt=r.range(.1,.2); p.state=(int)r.below(4); if(o.walls&&r.u01()<.2) p.type=1; v.push_back(p); }
  return v;
}
void put_step(HContent&c,const vector<Part>&p,int dim,int step,double time,bool ids,int iteration,double dt){
  string g="Step#"+std::to_string(step)+"/"; size_t n=p.size(); vector<double> t(n); vector<i64> k(n);
  c.o["Step#"+std::to_string(step)];
  auto dbl=[&](const char*nm,auto f){ for(size_t i=0;i<n;++i) t[i]=f(p[i]); h5_put(c,g+nm,t); };
  dbl("x",[](const Part&q){return q.x[0];}); dbl("y",[](const Part&q){return q.x[1];}); dbl("z",[](const Part&q){return q.x[2];});
  dbl("vx",[](const Part&q){return q.v[0];}); dbl("vy",[](const Part&q){return q.v[1];}); dbl("vz",[](const Part&q){return q.v[2];});
  dbl("h",[](const Part&q){return q.h;}); dbl("m",[](const Part&q){return q.m;}); dbl("rho",[](const Part&q){return q.rho;}); dbl("u",[](const Part&q){return q.u;}); dbl("P",[](const Part&q){return q.P;}); dbl("dt",[](const Part&q){return q.dt;});
  if(ids){ for(size_t i=0;i<n;++i) k[i]=p[i].id; h5_puti(c,g+"id",k); }
  for(size_t i=0;i<n;++i) k[i]=p[i].type; h5_puti32(c,g+"type",k); for(size_t i=0;i<n;++i) k[i]=p[i].state; h5_puti32(c,g+"state",k);
  string s="Step#"+std::to_string(step); h5_attr(c,s,"time",time); h5_attri(c,s,"iteration",iteration<0?step:iteration); h5_attr(c,s,"timestep",dt);
  h5_attri32(c,"","dimension",dim); (void)dim;
}
HContent parts_file(const vector<Part>&p,int dim,int step,double time,bool ids,int iteration,double dt){ HContent c; put_step(c,p,dim,step,time,ids,iteration,dt); return c; }
