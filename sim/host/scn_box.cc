// Scenario for periodic boundaries.
#include "ref.h"
#include <sys/stat.h>
#include <unistd.h>
#include "drv.h"
static void periodic(Ctx&C){
  Want w; w.simple=true; w.itmax=5; Cfg G=draw(C,w); auto&r=G.r; r.varh=C.B("varh",.3); int D=r.dim; if(D==3) G.iters=std::min(G.iters,2); double hs=D==3?1.2:C.pick("hs",{1.3,1.7}); static const char*ax[]={"x","y","z"},*bx[]={"length","width","height"}; int m[3]; bool per[3],any=false; double c=C.pick("cell",{.05,.1,1.}); double L[3]={1,1,1};
  for(int d=0;d<D;++d){ per[d]=C.B(string("periodic_")+ax[d],D==3?.4:.75); any|=per[d]; } if(!any) per[C.I("axis",0,D-1)]=true; double hm=D<3&&C.B("uneven_h",.3)?(D==1?C.pick("h_ratio",{1.6,4.}):1.6):1; int lo=(int)std::ceil(5*hs*std::max(hm,r.varh?1.5:1.)*1.02); for(int d=0;d<D;++d) m[d]= per[d]? lo+(int)C.I(string("more_")+ax[d],0,D==1?20:D==2?3:1) : (int)C.I(string("cells_")+ax[d],1,D==3?2:5);
  Rng q=C.R("box"); G.P.clear(); bool edge=C.B("on_the_edge",.2); int n=1; for(int d=0;d<D;++d){ n*=m[d]; L[d]=m[d]*c; } double v=C.pick("v",{.3,1.,3.}); for(int i=0;i<n;++i){ Part p; int k=i; for(int d=0;d<D;++d){ p.x[d]=((k%m[d])+.5)*c-.5*L[d]+q.range(-.2,.2)*c; if(edge&&per[d]&&k%m[d]==0) p.x[d]=-.5*L[d]*(q.below(2)?1:1-1e-15); k/=m[d]; p.v[d]=v*q.range(-1,1); } p.id=i; p.h=hs*c*(p.x[0]>0?hm:1); p.m=std::pow(c,D)*q.range(.8,1.2); p.rho=1; p.P=q.range(.5,1.5); p.u=q.range(1,2); p.type=0; p.dt=0; G.P.push_back(p); }
  int id0=(int)C.pick("first_id",{0,1,77}); for(auto&p:G.P) p.id+=id0; for(int d=0;d<D;++d) if(per[d]) r.L[d]=L[d]; r.eta=r.varh? hs/r.kw()*C.pick("eta",{.9,1.}) : r.eta; r.dt=C.pick("dtfac",{.02,.1})*c/(v+3); if((int)G.P.size()<2*G.ranks) G.ranks=std::max(1,(int)G.P.size()/2); G.s.nranks=G.ranks;
  { Ref R(r,G.P); for(int k=0;k<=G.iters;++k){ R.step(); for(auto&a:R.b){ if(!(R.umin>.05)||!(a.P>1e-3)||!(a.u>.05)||!(a.rho>0)) { C.note="unstable input skipped"; return; } for(int d=0;d<D;++d) if(per[d]&&5*a.h>L[d]*.999){ C.note="box too small, skipped"; return; } } R.advance(); } }
  string x; for(int d=0;d<D;++d) x+=fmt("periodic_boundary_%s = %s\nbox_%s = %.17g\n",ax[d],per[d]?"yes":"no",bx[d],L[d]);
  write_in(G,"in.h5part"); write_text("a.par",partext(G,"in","A",0,G.iters,x)); G.s.workload="driver a.par\n"; JobResult J=C.run(G.s); auto S=snaps(C,"A",G.sep,0,G.iters+1); Ref R(r,G.P);
  for(int k=0;k<=G.iters;++k){ auto&s=S[k]; if(!s.ok) C.fail("no-output",fmt("snapshot %d missing or incomplete",k)); R.step(); Snap t=s; t.p.clear(); for(auto&p:s.p) if(p.second["type"]==0) t.p.insert(p); double tol=r.cullen?1e-3:1e-7; // images beyond 2.5 h are missing: seen only through the three stages of the switched viscosity
    cmp(C,R,t,tol,"periodic box");
    for(auto&p:t.p) for(int d=0;d<D;++d) if(per[d]&&!(std::fabs(p.second[ax[d]])<=.5*L[d]*(1+1e-12))) C.fail("outside",fmt("iteration %d: particle %lld at %s=%.15g outside the box",k,(long long)p.first,ax[d],p.second[ax[d]])); R.advance(); } }
SCENARIO(p21_periodic,"P21",1,"hydro1","hydro2","hydro3"){ periodic(C); }
