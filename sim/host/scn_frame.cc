// Scenario: results do not depend on the frame of reference, the axes or the units.
#include "drv.h"
static void frame(Ctx&C,bool newton){
  Want w; w.newton=newton; w.nmin=8; Cfg G=draw(C,w); auto&r=G.r; r.ext.clear(); r.relax=0; int D=r.dim,kind=(int)C.I("kind",0,D>1?3:2); if(kind==2&&D==1) r.cullen=false; // its dimensional cut-off of 1e-16 decides there
  if(kind==0){ r.adaptive=false; if(r.thermo) r.passes=1; } if(!stable(C,G)){ C.note="unstable input skipped"; return; }
  Rng q=C.R("frame"); double V[3]={0},X[3]={0},s=1,T=1,M=1; int ax[3]={0,1,2},sg[3]={1,1,1}; string what;
  if(kind==0){ what="uniform motion"; double a=C.pick("speed",{1.,10.,100.}); for(int d=0;d<D;++d) V[d]=a*q.range(-1,1); }
  else if(kind==1){ what="displacement"; double a=C.pick("distance",{1.,100.,.01}); for(int d=0;d<D;++d) X[d]=a*q.range(-1,1); }
  else if(kind==2){ what="units"; s=std::pow(2.,(double)C.I("length",0,12)-6); T=std::pow(2.,(double)C.I("time",0,12)-6); M=std::pow(2.,(double)C.I("mass",0,12)-6); }
  else { what="axes"; for(int d=D-1;d>0;--d) std::swap(ax[d],ax[q.below(d+1)]); for(int d=0;d<D;++d) sg[d]=q.below(2)?1:-1; }
  double vel=s/T,den=M/std::pow(s,D); Cfg H=G; H.P.clear(); for(auto p:G.P){ Part o=p; for(int d=0;d<D;++d){ o.x[d]=s*sg[d]*p.x[ax[d]]+X[d]; o.v[d]=vel*sg[d]*p.v[ax[d]]+V[d]; } o.h=s*p.h; o.m=M*p.m; o.rho=den*p.rho; o.P=den*vel*vel*p.P; o.u=vel*vel*p.u; H.P.push_back(o); }
  H.r.dt*=T; H.r.G*=s*s*s/(M*T*T); H.r.thr*=den; if(D==3) { H.r.G=H.r.G; }
  write_in(G,"inA.h5part"); write_in(H,"inB.h5part"); write_text("a.par",partext(G,"inA","A",0,G.iters)); write_text("b.par",partext(H,"inB","B",0,G.iters)); JobSpec A=G.s; quiet_net(A); A.nranks=1; A.workload="driver a.par\n"; C.run(A); G.s.workload="driver b.par\n"; C.run(G.s);
  auto a=snaps(C,"A",G.sep,0,G.iters+1),b=snaps(C,"B",G.sep,0,G.iters+1);
  for(int k=0;k<=G.iters;++k){ Snap z=a[k]; static const char*x[]={"x","y","z"},*v[]={"vx","vy","vz"},*g[]={"ax","ay","az"}; for(auto&p:z.p){ auto o=p.second; auto&n=p.second; for(int d=0;d<D;++d){ n[x[d]]=s*sg[d]*o[x[ax[d]]]+X[d]+V[d]*a[k].time; n[v[d]]=vel*sg[d]*o[v[ax[d]]]+V[d]; n[g[d]]=vel/T*sg[d]*o[g[ax[d]]]; } n["h"]*=s; n["m"]*=M; n["rho"]*=den; n["P"]*=den*vel*vel; n["u"]*=vel*vel; n["dt"]*=T; } z.time*=T; z.dt*=T;
    // compared in the moved frame, on the scale of the state at rest
    Snap y=b[k]; for(auto*S:{&z,&y}) for(auto&p:S->p) for(int d=0;d<D;++d){ p.second[x[d]]-=X[d]+V[d]*a[k].time; p.second[v[d]]-=V[d]; }
    std::set<string> skip; if(!r.adaptive) skip.insert("dt"); cmp_snaps(C,z,y,1e-6,what,skip); } }
SCENARIO(p25_hydro,"P25",3,"hydro1","hydro2","hydro3"){ frame(C,false); }
SCENARIO(p25_newton,"P25",1,"newton3"){ frame(C,true); }
