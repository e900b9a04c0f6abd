// Scenario for the time step control and the output times.
#include "ref.h"
#include <sys/stat.h>
#include <unistd.h>
#include "drv.h"
struct Out { string name; int every=1; double D=0; vector<i64> it; vector<double> t; };
// outputs expected of a channel, given the times of all iterations
static void expect(Ctx&C,const Out&o,const vector<double>&T,i64 it0,bool adaptive,const string&what){
  double T0=T[0],eps=1e-9*(std::fabs(T.back())+T.back()-T0)+1e-13; size_t g=0; auto got=[&](size_t k){ return g<o.it.size()&&o.it[g]==it0+(i64)k; };
  double next=T0; for(size_t k=0;k<T.size();++k){ C.checks++; bool want,may=false; if(o.D<=0) want=(it0+(i64)k)%o.every==0; else { want=T[k]>=next-eps; if(!adaptive&&std::fabs(T[k]-next)<eps) may=true; }
    bool has=got(k); if(want&&!has&&!may) C.fail("output-missing",fmt("%s: no %s output at iteration %lld time %.15g (next output due at %.15g)",what.c_str(),o.name.c_str(),(long long)(it0+(i64)k),T[k],o.D>0?next:T[k])); if(has&&!want&&!may) C.fail("output-extra",fmt("%s: %s output at iteration %lld time %.15g, next one due at %.15g",what.c_str(),o.name.c_str(),(long long)(it0+(i64)k),T[k],next));
    if(has){ if(std::fabs(o.t[g]-T[k])>1e-9*std::fabs(T[k])+1e-11) C.fail("output-time",fmt("%s: %s output of iteration %lld carries time %.15g instead of %.15g",what.c_str(),o.name.c_str(),(long long)(it0+(i64)k),o.t[g],T[k])); if(o.D>0&&adaptive&&std::fabs(T[k]-next)>eps) C.fail("output-time",fmt("%s: %s output at time %.15g instead of %.15g",what.c_str(),o.name.c_str(),T[k],next)); ++g; }
    if(o.D>0&&(has||want)) while(next<=T[k]+(has&&may?eps:eps*1e-3)) next+=o.D; }
  if(g<o.it.size()) C.fail("output-extra",fmt("%s: unexpected %s output of iteration %lld",what.c_str(),o.name.c_str(),(long long)o.it[g])); }
static void steps(Ctx&C,bool newton){
  Want w; w.newton=newton; w.simple=true; w.nmin=8; w.nmax=24; Cfg G=draw(C,w); auto&r=G.r; r.adaptive=C.B("adaptive_step",.75); r.varh=C.B("varh",.3); G.iters=(int)C.I("iterations",2,C.thorough?40:24); if(!stable(C,G)){ C.note="unstable input skipped"; return; }
  double cell=1./std::pow((double)G.P.size(),1./r.dim), unit= r.adaptive? r.cfl*cell/4 : r.dt; static const char*nm[]={"screen","scalar","h5data"}; Out o[3]; int probe=1+(int)C.I("probe",0,1); string x;
  for(int c=0;c<3;++c){ o[c].name=nm[c]; bool by=c!=probe&&C.B(string(nm[c])+"_by_time",.75); if(by) o[c].D=unit*std::pow(10.,C.U(string(nm[c])+"_dt",-.7,1.2)); else o[c].every= c==probe?1:(int)C.I(string(nm[c])+"_every",1,3); }
  if(o[1].D>0&&o[2].D==0&&C.B("equal",.2)) o[0].D=o[1].D; if(o[0].D>0&&o[3-probe].D>0&&C.B("multiple",.2)) o[0].D=2*o[3-probe].D;
  for(int c=0;c<3;++c){ x+=fmt("out_%s_dt = %.17g\n",nm[c],o[c].D); if(c) x+=""; } auto every=[&](string s){ for(int c=0;c<3;++c){ string k=fmt("out_%s_every = ",nm[c]); size_t i=s.find(k); size_t e=s.find('\n',i); s.replace(i,e-i,k+std::to_string(o[c].every)); } return s; };
  int runs=C.B("restart",.4)?2:1; i64 it0=0; string in="in"; write_in(G,"in.h5part"); double tprev=0,dtprev=r.dt; double t0=C.pick("initial_time",{0,0,.3}); const double t00=t0; bool ft=C.B("final_time",.3); double tend=0;
  for(int q=0;q<runs;++q){ string out=q?"B":"A",what=q?"restarted run":"run"; JobSpec s=G.s; if(q) C.net(s,"net2."); s.keep_output=true; string y=x; if(ft){ tend=t0+unit*G.iters*.6; y+=fmt("final_time = %.17g\n",tend); } y+=fmt("initial_time = %.17g\n",t00); write_text(out+".par",every(partext(G,in,out,it0,it0+G.iters,y))); s.workload="driver "+out+".par\n"; unlink("scalar_reductions.dat"); JobResult J; if(!run_positive(C,s,q>0||r.adaptive,J)) return;
    // what each channel shows
    for(auto&c:o){ c.it.clear(); c.t.clear(); } auto tab=table("scalar_reductions.dat"); for(auto&row:tab){ if(row.size()<3) C.fail("rows","short row in the scalar report"); o[1].it.push_back((i64)row[0]); o[1].t.push_back(row[1]); }
    { const string&e=J.errtext; size_t p=0; while(p<e.size()){ size_t n=e.find('\n',p); if(n==string::npos) n=e.size(); string l=e.substr(p,n-p); p=n+1; size_t b=l.find_last_of("]m"); (void)b; string clean; for(size_t i=0;i<l.size();++i){ if(l[i]==27){ while(i<l.size()&&l[i]!='m') ++i; continue; } clean+=l[i]; } const char*z=clean.c_str(); size_t at=clean.rfind("] "); if(at!=string::npos) z+=at+2; char*a; long long it=strtoll(z,&a,10); if(a==z||*a!=' ') continue; char*bb; double t=strtod(a,&bb); if(bb==a||!memchr(a,'e',bb-a)) continue; while(*bb==' '||*bb=='\r') ++bb; if(*bb) continue; o[0].it.push_back(it); o[0].t.push_back(t); } }
    vector<Snap> S; { HContent one; if(!G.sep) one=file(C,out+".h5part"); for(int k=0;;++k){ HContent c=one; if(G.sep){ struct stat sb; string f=out+fmt("_%05d.h5part",k); if(stat(f.c_str(),&sb)) break; c=file(C,f); } else if(!one.o.count("Step#"+std::to_string(k))) break; Snap z=snap(c,k); if(!z.ok) C.fail("no-output",fmt("snapshot %d is incomplete",k)); o[2].it.push_back(z.iter); o[2].t.push_back(z.time); S.push_back(z); } }
    // times of all iterations
    Out&P=o[probe]; if(P.it.empty()) C.fail("output-missing",what+": no "+P.name+" output"); vector<double> T; for(size_t k=0;k<P.it.size();++k){ if(P.it[k]!=it0+(i64)k) C.fail("output-missing",fmt("%s: %s output of iteration %lld instead of %lld",what.c_str(),P.name.c_str(),(long long)P.it[k],(long long)(it0+(i64)k))); T.push_back(P.t[k]); }
    if(!close_to(T[0],t0,1e-9,1e-13)) C.fail("time",fmt("%s starts at time %.15g instead of %.15g",what.c_str(),T[0],t0)); for(size_t k=1;k<T.size();++k){ C.checks++; if(!(T[k]>=T[k-1])||(probe==2&&!(T[k]>T[k-1]))) C.fail("time-backwards",fmt("%s: iteration %zu at time %.15g after %.15g",what.c_str(),k,T[k],T[k-1])); if(!r.adaptive&&std::fabs(T[k]-T[k-1]-r.dt)>1e-6*r.dt&&!q) C.fail("timestep",fmt("fixed step of %.15g instead of %.15g",T[k]-T[k-1],r.dt)); }
    if((int)T.size()!=G.iters+1){ if(!ft) C.fail("iterations",fmt("%s: %zu iterations instead of %d",what.c_str(),T.size(),G.iters+1)); } if(ft){ if(T.back()>tend*(1+1e-9)) C.fail("final-time",fmt("%s: iteration at time %.15g beyond the final time %.15g",what.c_str(),T.back(),tend)); if(!r.adaptive&&(int)T.size()!=G.iters+1&&T.back()+r.dt<tend*(1-1e-9)) C.fail("final-time",fmt("%s stopped at %.15g before the final time %.15g",what.c_str(),T.back(),tend)); }
    for(auto&c:o) expect(C,c,T,it0,r.adaptive,what);
    // steps respect the limit of every particle, are positive and consistent
    for(size_t k=0;k<S.size();++k){ auto&z=S[k]; double lim=1e300; for(auto&p:z.p) lim=std::min(lim,p.second.at("dt")); C.checks++; if(!(z.dt>0)) C.fail("timestep",fmt("%s: time step %.15g at iteration %lld",what.c_str(),z.dt,(long long)z.iter)); if(r.adaptive&&(z.iter>0||k>0)&&(!q||k>0)&&z.dt>lim*(1+1e-9)) C.fail("unstable-step",fmt("%s: time step %.15g before iteration %lld exceeds the limit %.15g of a particle",what.c_str(),z.dt,(long long)z.iter,lim)); if(z.iter>it0&&probe==2){ double d=T[z.iter-it0]-T[z.iter-it0-1]; if(std::fabs(d-z.dt)>1e-9*z.dt+1e-14) C.fail("timestep",fmt("%s: iteration %lld reports step %.15g but time advanced by %.15g",what.c_str(),(long long)z.iter,z.dt,d)); } }
    // the limit of a particle is no longer than its motion and its acceleration allow
    if(r.adaptive) for(size_t k=0;k+1<S.size();++k) if(S[k+1].iter==S[k].iter+1) for(auto&x:S[k].p){ auto&a=x.second; auto it=S[k+1].p.find(x.first); if(it==S[k+1].p.end()) C.fail("lost-particle","particle missing from a snapshot"); double v2=0,a2=0; for(auto n:{"vx","vy","vz"}) v2+=a.at(n)*a.at(n); for(auto n:{"ax","ay","az"}) a2+=a.at(n)*a.at(n); double dx=a.at("h")/(r.eta*r.kw()),lim=r.cfl*std::min(dx/(std::sqrt(v2)+1e-24),std::sqrt(dx/(std::sqrt(a2)+1e-24))); C.checks++; if(!(it->second.at("dt")<=lim*(1+1e-9))) C.fail("limit",fmt("%s: limit %.15g of particle %lld at iteration %lld exceeds %.15g, allowed by its speed and acceleration",what.c_str(),it->second.at("dt"),(long long)x.first,(long long)S[k].iter,lim)); }
    // bounded progress: a step is as long as the particles allow, shortened only to meet an output
    if(r.adaptive&&probe==2) for(size_t k=1;k+1<S.size();++k){ double lim=1e300; for(auto&p:S[k+1].p) lim=std::min(lim,p.second.at("dt")); double room=1e300; for(auto&c:o) if(c.D>0){ double n=std::ceil((T[k]-T[0])/c.D*(1+1e-12)+1e-9)*c.D+T[0]-T[k]; room=std::min(room,n); } double big=0; for(size_t j=k>=6?k-6:0;j<=k;++j){ big=std::max(big,S[j].dt); for(auto&p:S[j].p) lim=std::min(lim,p.second.at("dt")); } C.checks++; if(S[k+1].dt<.24*std::min({lim,room,big})&&S[k+1].dt>1e-7*unit) C.fail("slow-step",fmt("%s: step %.15g to iteration %lld although %.15g was allowed, the next output is %.15g away and a recent step was %.15g",what.c_str(),S[k+1].dt,(long long)S[k+1].iter,lim,room,big)); }
    if(runs==2&&!q){ if(S.empty()) return; size_t pick=(size_t)C.I("pick",0,1000)%S.size(); if(S[pick].iter==0) return; it0=S[pick].iter; t0=S[pick].time; in="A"; (void)tprev; (void)dtprev; } } }
SCENARIO(p20_steps,"P20",3,"hydro1","hydro2","hydro3"){ steps(C,false); }
SCENARIO(p20_newton,"P20",1,"newton3"){ steps(C,true); }
