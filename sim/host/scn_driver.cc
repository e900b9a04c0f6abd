// Scenarios for whole driver runs: refinement of the reference equations, conservation, reports, time steps, restarts.
#include "drv.h"
static void refine(Ctx&C,bool newton){ Want w; w.newton=newton; w.strong=true; Cfg G=draw(C,w); if(!stable(C,G)){ C.note="unstable input skipped"; return; } write_in(G,"in.h5part"); write_text("sim.par",partext(G,"in","out",0,G.iters)); G.s.workload="driver sim.par\n"; JobResult J=C.run(G.s);
  Ref R(G.r,G.P); HContent c; if(!G.sep) c=file(C,"out.h5part"); for(int k=0;k<=G.iters;++k){ R.step(); if(G.sep) c=file(C,fmt("out_%05d.h5part",k)); Snap s=snap(c,k); if(!s.ok) C.fail("no-output",fmt("snapshot %d missing or incomplete",k)); cmp(C,R,s,1e-7,"snapshot"); R.advance(); }
  for(auto*r:J.all("end")){ auto v=r->as<double>(); if((i64)v[0]!=G.iters+1||!close_to(v[1],R.t,1e-9)) C.fail("end-state",fmt("rank %d ended at iteration %.0f time %.12g instead of %d, %.12g",r->rank,v[0],v[1],G.iters+1,R.t)); } if(c.o.count("Step#"+std::to_string(G.iters+1))) C.fail("extra-output","more snapshots than iterations"); }
SCENARIO(p08_hydro,"P08",1,"hydro1","hydro2","hydro3"){ refine(C,false); }
SCENARIO(p09_newton,"P09",1,"newton3"){ refine(C,true); }
// ---------------------------------------------------------------- P10: conservation over whole runs, all options
static void conserve(Ctx&C,bool newton){ Want w; w.newton=newton; w.strong=true; w.exact=false; w.itmax=C.thorough?14:8; Cfg G=draw(C,w); G.r.relax=0; bool forced=G.r.forced(); if(!stable(C,G)){ C.note="unstable input skipped"; return; } string par=partext(G,"in","out",0,G.iters);
  write_in(G,"in.h5part"); write_text("sim.par",par); G.s.workload="driver sim.par\n"; JobResult J=C.run(G.s); HContent c; if(!G.sep) c=file(C,"out.h5part"); Tot t0; double scP=0,scJ=0; map<i64,double> mass; for(auto&p:G.P) mass[p.id]=p.m;
  for(int k=0;k<=G.iters;++k){ if(G.sep) c=file(C,fmt("out_%05d.h5part",k)); Snap s=snap(c,k); if(!s.ok) C.fail("no-output",fmt("snapshot %d missing or incomplete",k)); if(s.p.size()!=G.P.size()) C.fail("lost-particle","number of particles changed"); for(auto&x:s.p){ C.checks++; if(!mass.count(x.first)||x.second["m"]!=mass[x.first]) C.fail("mass",fmt("mass of particle %lld changed",(long long)x.first)); }
    if(forced) continue; Tot t=totals(s); if(k==0) t0=t; scP+=t.scP; scJ+=t.scJ; for(int d=0;d<3;++d){ C.checks++; if(!(std::fabs(t.P[d]-t0.P[d])<=1e-12*scP)) C.fail("momentum",fmt("momentum component %d changed from %.15g to %.15g by iteration %d (scale %.6g)",d,t0.P[d],t.P[d],k,scP)); if(!(std::fabs(t.J[d]-t0.J[d])<=1e-12*(scJ+scP))) C.fail("angular-momentum",fmt("angular momentum component %d changed from %.15g to %.15g by iteration %d",d,t0.J[d],t.J[d],k)); } }
  if(G.r.thermo&&!G.r.fmm){ auto T=table("scalar_reductions.dat"); Ref R(G.r,G.P); double es=0; if(forced){ HContent c0=file(C,G.sep?"out_00000.h5part":"out.h5part"); Snap s=snap(c0,0); for(auto&x:s.p){ auto&q=x.second; double X[3]={q["x"],q["y"],q["z"]},g[3]; es+=q["m"]*(std::fabs(R.ext(X,g))+q["u"]+.5*(q["vx"]*q["vx"]+q["vy"]*q["vy"]+q["vz"]*q["vz"])); } } for(auto&r:T){ C.checks++; if(r.size()<5||!close_to(r[4],T[0][4],3e-11,3e-11*es)) C.fail("energy",fmt("total energy changed from %.15g to %.15g at iteration %.0f",T[0][4],r.size()>4?r[4]:0.,r[0])); } } }
SCENARIO(p10_hydro,"P10",3,"hydro1","hydro2","hydro3"){ conserve(C,false); }
SCENARIO(p10_newton,"P10",1,"newton3"){ conserve(C,true); }
// ---------------------------------------------------------------- P11: reports of a run equal totals over its snapshots
static void reports(Ctx&C,bool newton){ Want w; w.newton=newton; w.itmax=6; Cfg G=draw(C,w); if(!stable(C,G)){ C.note="unstable input skipped"; return; } int se=(int)C.I("scalar_every",1,3); bool walls=C.B("walls",.3); if(walls){ Rng q=C.R("walls"); for(auto&p:G.P) p.type=q.below(5)==0; }
  write_in(G,"in.h5part"); write_text("sim.par",partext(G,"in","out",0,G.iters,fmt("out_scalar_every = %d\nout_diagnostic_every = 1\n",se))); G.s.workload="driver sim.par\n"; JobResult J=C.run(G.s); HContent c; if(!G.sep) c=file(C,"out.h5part"); auto T=table("scalar_reductions.dat"); int want=G.iters/se+1; if((int)T.size()!=want) C.fail("rows",fmt("%zu rows of scalar output instead of %d",T.size(),want)); int D=G.r.dim;
  Ref R(G.r,G.P); for(auto&b:R.b){ (void)b; } int row=0;
  for(int k=0;k<=G.iters;++k){ R.step(); if(G.sep) c=file(C,fmt("out_%05d.h5part",k)); Snap s=snap(c,k); if(!s.ok) C.fail("no-output",fmt("snapshot %d missing or incomplete",k)); if(k%se==0){ auto&r=T[row++]; Snap f=s; f.p.clear(); for(auto&x:s.p) if(x.second["type"]==0) f.p.insert(x); Tot t=totals(f,&R); size_t need=D==1?8:D==2?10:16; if(r.size()!=need) C.fail("columns",fmt("%zu columns instead of %zu",r.size(),need));
      double E=0; for(auto&b:R.b) if(b.type==0){ E+=b.m*(G.r.thermo? b.e : .5*R.dot(b.v,b.v)+b.u+R.epot(b)); if(G.r.fmm) E+=.5*b.m*b.pot; } double eg=0; for(auto&b:R.b) if(b.type==0) eg+=.5*b.m*b.pot;
      double es=t.ek+t.ei+std::fabs(t.E)+std::fabs(eg); for(auto&b:R.b) es+=b.m*std::fabs(R.epot(b)); auto ck=[&](int i,double e,double sc,const char*n){ C.checks++; if(!(std::fabs(r[i]-e)<=1e-7*sc)) C.fail(string("scalar-")+n,fmt("iteration %d: %s=%.13g, %.13g over the particles",k,n,r[i],e)); };
      ck(0,k,1e-7,"iteration"); ck(1,s.time,std::fabs(s.time)*1e-4+1e-12,"time"); ck(2,s.dt,s.dt*1e-4,"timestep"); ck(3,t.m,t.m*1e-3,"mass"); ck(4,E,es,"energy"); ck(5,t.ek,t.ek*1e-3,"kinetic"); bool gr=D==3&&G.r.fmm&&!G.r.evolve; if(gr) ck(6,eg,std::fabs(eg),"gravitational"); else ck(6,t.ei,t.ei*1e-3,"internal"); for(int d=0;d<D;++d) ck(7+d,t.P[d],t.scP*1e-3,"momentum"); if(D==2) ck(9,t.J[2],t.scJ*1e-3,"angular"); if(D==3){ for(int d=0;d<3;++d) ck(10+d,t.J[d],t.scJ*1e-3,"angular"); Tot a=totals(s); for(int d=0;d<3;++d){ double cm=0; static const char*X[]={"x","y","z"}; for(auto&q:s.p) cm+=q.second[X[d]]*q.second["m"]; ck(13+d,cm/a.m,1e-3,"centre"); } } }
    R.advance(); } }
SCENARIO(p11_reports,"P11",2,"hydro1","hydro2","hydro3"){ reports(C,false); }
SCENARIO(p11_newton,"P11",1,"newton3"){ reports(C,true); }
// ---------------------------------------------------------------- P12: neither rank count nor timing changes the result, for every option
static void independent(Ctx&C,bool newton){ Want w; w.newton=newton; w.exact=false; w.lo_ranks=2; w.nmin=20; Cfg G=draw(C,w); if(!stable(C,G)){ C.note="unstable input skipped"; return; } string x; if(G.r.fmm) x+=fmt("fmm_macangle = %.2f\n",0.);
  string par=partext(G,"in","A",0,G.iters,x),parB=partext(G,"in","B",0,G.iters,x);
  write_in(G,"in.h5part"); write_text("a.par",par); write_text("b.par",parB); JobSpec A=G.s; quiet_net(A); A.nranks=1; A.workload="driver a.par\n"; JobResult JA=C.run(A); G.s.workload="driver b.par\n"; JobResult JB=C.run(G.s); auto a=snaps(C,"A",G.sep,0,G.iters+1),b=snaps(C,"B",G.sep,0,G.iters+1); std::set<string> skip; for(int k=0;k<=G.iters;++k) cmp_snaps(C,a[k],b[k],1e-7,fmt("1 and %d ranks",G.ranks),skip); }
SCENARIO(p12_hydro,"P12",3,"hydro1","hydro2","hydro3"){ independent(C,false); }
SCENARIO(p12_newton,"P12",1,"newton3"){ independent(C,true); }
// ---------------------------------------------------------------- P22: the diagnostic report equals the extremes and means over all particles
static void diagnostics(Ctx&C,bool newton){ Want w; w.newton=newton; w.strong=true; w.exact=false; w.nmin=6; Cfg G=draw(C,w); if(!stable(C,G)){ C.note="unstable input skipped"; return; } int se=(int)C.I("diag_every",1,3); G.every=1; if(C.B("walls",.2)){ Rng r=C.R("walls"); for(auto&p:G.P) if(r.below(4)==0) p.type=1; }
  write_in(G,"in.h5part"); write_text("sim.par",partext(G,"in","out",0,G.iters,fmt("out_diagnostic_every = %d\n",se))); G.s.workload="driver sim.par\n"; C.run(G.s); auto S=snaps(C,"out",G.sep,0,G.iters+1); auto T=table("diagnostic.dat"); if((int)T.size()!=G.iters/se+1) C.fail("rows",fmt("%zu rows of diagnostic output instead of %d",T.size(),G.iters/se+1)); int row=0;
  for(int k=0;k<=G.iters;k+=se){ auto&s=S[k]; auto&r=T[row++]; if(!s.ok) C.fail("no-output",fmt("snapshot %d missing or incomplete",k)); if(r.size()!=14) C.fail("columns",fmt("%zu columns instead of 14",r.size())); double mn[3]={1e300,1e300,1e300},mx[3]={0,0,0},av[3]={0,0,0}; for(auto&x:s.p){ auto&q=x.second; double z[3]={q["h"],q["neighbors"],std::sqrt(q["vx"]*q["vx"]+q["vy"]*q["vy"]+q["vz"]*q["vz"])}; for(int i=0;i<3;++i){ mn[i]=std::min(mn[i],z[i]); mx[i]=std::max(mx[i],z[i]); av[i]+=z[i]/s.p.size(); } } av[1]=std::floor(av[1]+1e-9);
    auto ck=[&](int i,double e,double tol,const char*n){ C.checks++; if(!(std::fabs(r[i]-e)<=tol*(std::fabs(e)+1e-30))) C.fail(string("diagnostic-")+n,fmt("iteration %d: %s=%.13g, %.13g over the particles",k,n,r[i],e)); }; ck(0,k,0,"iteration"); ck(1,s.time,1e-10,"time"); ck(2,mn[0],1e-10,"h_min"); ck(3,mx[0],1e-10,"h_max"); ck(4,av[0],1e-10,"h_avg"); ck(5,mn[1],0,"N_min"); ck(6,mx[1],0,"N_max"); ck(7,av[1],0,"N_avg"); ck(10,mn[2],1e-10,"V_min"); ck(11,mx[2],1e-10,"V_max"); ck(12,av[2],1e-10,"V_avg"); } }
SCENARIO(p22_diag,"P22",3,"hydro1","hydro2","hydro3"){ diagnostics(C,false); }
SCENARIO(p22_newton,"P22",1,"newton3"){ diagnostics(C,true); }
