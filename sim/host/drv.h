// Helpers for scenarios that run whole drivers: configurations, snapshots, comparisons.
#pragma once
#include "ref.h"
struct Snap { i64 iter=0; double time=0,dt=0; map<i64,map<string,double>> p; bool ok=false; };
[[maybe_unused]] static Snap snap(const HContent&c,int step){ Snap s; string g="Step#"+std::to_string(step); if(!c.o.count(g)) return s; auto id=h5_ints(c,g+"/id"); if(!h5_get_attri(c,g,"iteration",s.iter)||!h5_get_attr(c,g,"time",s.time)||!h5_get_attr(c,g,"timestep",s.dt)) return s;
  static const char*nm[]={"x","y","z","vx","vy","vz","ax","ay","az","h","rho","u","P","m","dt","type","state","neighbors","rank","alpha","divergenceV","dDivVdt"}; for(auto n:nm){ auto v=h5_doubles(c,g+"/"+n); if(v.size()!=id.size()) return s; for(size_t i=0;i<id.size();++i) s.p[id[i]][n]=v[i]; } s.ok=s.p.size()==id.size(); return s; }
[[maybe_unused]] static HContent file(Ctx&C,const string&f){ HContent c; if(!h5_host_read(f,c)) C.fail("no-output","output file "+f+" missing or unreadable"); return c; }
struct Cfg { RefPar r; vector<Part> P; int ranks,iters; bool sep=false; int every=1; JobSpec s; double L=1; string par; };
[[maybe_unused]] static string yes(bool b){ return b?"yes":"no"; }
[[maybe_unused]] static string kname(string k){ for(auto&c:k) if(c==' ') c='_'; return k; }
// a table of a radial profile, exact in single precision; kind: constant or parabolic
[[maybe_unused]] static void write_profile(const string&kind,int variant){ string t="# r rho m drhodr\n"; double c=variant&1?2:.25; for(int i=variant&2?1:0;i<=128;++i){ double x=i/16.,v=kind=="parabolic"?1-x*x:1,w=kind=="parabolic"?-2*x:0; t+=fmt("  %.17g %.17g %.9g   %.17g\n",x,c*v,x*x,c*w); if(i==7) t+="# a remark\n   \n\n"; } write_text("profile.dat",t); }
[[maybe_unused]] static string profile_text(const string&prof,int pfile){ if(!pfile) return "density_profile = \""+prof+"\"\n"; write_profile(prof,pfile); return "density_profile = \"from file\"\ninput_density_file = \"profile.dat\"\n"; }
[[maybe_unused]] static string partext(const Cfg&G,const string&in,const string&out,i64 it0,i64 it1,const string&extra=""){ auto&r=G.r; string k=kname(r.kernel);
  string s="initial_data_prefix = \""+in+"\"\noutput_h5data_prefix = \""+out+"\"\n"; s+=fmt("initial_iteration = %lld\nfinal_iteration = %lld\n",(long long)it0,(long long)it1);
  s+=fmt("initial_dt = %.17g\nsph_kernel = \"%s\"\nsph_eta = %.17g\npoly_gamma = %.17g\nsph_viscosity_alpha = %.17g\nsph_viscosity_beta = %.17g\nsph_viscosity_epsilon = %.17g\ntimestep_cfl_factor = %.17g\n",r.dt,k.c_str(),r.eta,r.gamma,r.alpha,r.beta,r.eps,r.cfl);
  s+="eos_type = \""+string(r.ideal?"ideal_fluid":r.ppt?"ppt":"polytropic")+"\"\nevolve_internal_energy = "+yes(r.evolve)+"\nthermokinetic_formulation = "+yes(r.thermo)+"\nadaptive_timestep = "+yes(r.adaptive)+"\nsph_variable_h = "+yes(r.varh)+"\nsph_update_uniform_h = "+yes(r.uniformh)+"\n";
  s+=fmt("pressure_updates_number = %d\nrelaxation_steps = %d\nrelaxation_beta = %.17g\nrelaxation_gamma = %.17g\nrelaxation_repulsion_radius = %.17g\nrelaxation_repulsion_gamma = %.17g\n",r.passes,r.relax,r.rbeta,r.rgamma,r.rrad,r.rrep);
  if(r.fmm) s+=fmt("enable_fmm = yes\nfmm_macangle = %.1f\n",0.); if(r.fmm||r.forced()) s+=fmt("gravitational_constant = %.17g\n",r.G); if(r.ppt) s+=fmt("poly_gamma2 = %.17g\nppt_density_thr = %.17g\n",r.gamma2,r.thr); if(r.kernel=="sinc ker") s+=fmt("sph_sinc_index = %d\n",r.sinc); if(r.cullen) s+=fmt("sph_viscosity = \"cullen\"\nsph_viscosity_alpha_max = %.17g\nsph_viscosity_delta = %.17g\nsph_viscosity_l = %.17g\n",r.amax,r.adelta,r.al);
  if(r.forced()){ s+="external_force_type = \""+r.ext+"\"\n"+profile_text(r.prof,r.pfile); s+=fmt("gravity_acceleration_constant = %.17g\nextforce_wall_powerindex = %.17g\nextforce_wall_steepness = %.17g\nbox_length = %.17g\nbox_width = %.17g\nbox_height = %.17g\nsphere_radius = %.17g\norbital_separation = %.17g\nmass_neutron_star = %.17g\nmass_white_dwarf = %.17g\nrho_initial = %.17g\npressure_initial = %.17g\nzero_potential_poison_value = %.17g\nmesa_rim_width = %.17g\n",r.gacc,r.wn,r.wa,r.box[0],r.box[1],r.box[2],r.R,r.sep,r.mns,r.mwd,r.rho0,r.P0,r.poison,r.mesaq); s+=fmt("airfoil_size = %.17g\nairfoil_thickness = %.17g\nairfoil_camber = %.17g\nairfoil_anchor_x = %.17g\nairfoil_anchor_y = %.17g\nairfoil_attack_angle = %.17g\n",r.S,r.T,r.cam,r.ax,r.ay,r.ang); }
  s+=fmt("out_screen_every = 0\nout_h5data_every = %d\nout_scalar_every = %d\nout_h5data_separate_iterations = %s\n",G.every,G.every,G.sep?"yes":"no"); return s+extra; }
[[maybe_unused]] static void draw_force(Ctx&C,RefPar&r){ static const char*F[]={"gravity","spherical wall","walls:","spherical density support","airfoil","orbit"}; int n=C.B("two_forces",.3)?2:1; r.gacc=C.pick("gacc",{.5,-1.0,100.}); r.wn=C.pick("wall_power",{2,3,5}); r.wa=C.pick("wall_steepness",{5,50}); for(int d=0;d<3;++d) r.box[d]=C.pick(fmt("box_%d",d),{.8,.6,.94}); r.R=C.pick("sphere",{.4,.3,.55}); r.sep=C.pick("separation",{3.,1.5}); r.mns=C.pick("mass1",{1.3,.5}); r.mwd=C.pick("mass2",{1.,2.}); r.P0=C.pick("P0",{1.,.4}); r.rho0=C.pick("rho0",{1.,1.5}); static const char*P[]={"constant","parabolic","mesa"}; r.prof=P[C.I("profile",0,2)]; r.mesaq=C.pick("mesa_q",{.25,.6}); if(r.prof!="mesa"&&C.B("profile_table",.3)) r.pfile=4+(int)C.I("table_kind",0,3); r.S=C.pick("airfoil_size",{.8,1.1}); r.T=C.pick("airfoil_thickness",{.05,.3}); r.cam=C.pick("camber",{.1,-.05}); r.ax=C.pick("anchor_x",{-.4,-.1}); r.ay=C.pick("anchor_y",{0,.05}); r.ang=C.pick("attack",{0,15,-30}); r.G=C.pick("G_orbit",{1.,.3}); std::set<int> used;
  for(int i=0;i<n;++i){ int k=(int)C.I(fmt("force_%d",i),0,r.dim>1?5:3); if(used.count(k)) continue; used.insert(k); string f=F[k]; if(k==2){ const char*ax="xyz"; for(int d=0;d<r.dim;++d) if(d==0||C.B(fmt("wall_%d",d),.6)) f+=ax[d]; if(r.dim>1&&C.B("no_x_wall",.3)) f="walls:"+string(1,ax[r.dim-1]); if(C.B("upper",.2)) f[6]=toupper(f[6]); } r.ext+=(r.ext.empty()?"":",")+f; } if(C.B("poison",.15)){ r.ext+=",poison"; r.poison=C.pick("poison_value",{.7,-2.}); } }
struct Want { bool exact=true; bool newton=false,energy=true,simple=false; int nmin=12,nmax=90; int lo_ranks=1; int itmax=5; bool strong=false; };
[[maybe_unused]] static Cfg draw(Ctx&C,const Want&w){ Cfg G; auto&r=G.r; r.dim= w.newton?3:(int)C.I("dim",1,3); static const char*ks[]={"wendland c4","wendland c6","wendland c2","cubic spline","quintic spline","gaussian","super gaussian","sinc ker"}; r.kernel=ks[C.I("kernel",0,7)]; r.sinc=(int)C.pick("sinc_index",{4,3,5,8});
  r.gamma=C.pick("gamma",{1.4,5./3,2.0}); r.alpha=C.pick("alpha",{1.0,0.5,0.0}); r.beta=r.alpha==0?0:C.pick("beta",{2.0,1.0}); r.eta=C.pick("eta",{1.5,1.3}); r.ideal=!C.B("polytropic",.4); r.ppt=!r.ideal&&C.B("piecewise",.5); r.gamma2=C.pick("gamma2",{2.5,1.2}); r.thr=C.pick("threshold",{1.,.8}); r.cullen=C.B("cullen",.3); if(r.cullen){ r.amax=C.pick("alpha_max",{1.,2.}); r.adelta=C.pick("delta",{1.,.1}); r.al=C.pick("l",{.05,.3}); } r.evolve=!C.B("no_energy",.2); r.thermo=r.evolve&&C.B("thermo",.5); r.passes=C.B("two_passes",.3)?2:1;
  r.adaptive=!w.simple&&C.B("adaptive",.4); int hm=w.simple?0:(int)C.I("hmode",0,2); r.varh=hm==1; r.uniformh=hm==2; r.cfl=C.pick("cfl",{.25,.1}); if(!w.simple&&C.B("force",.45)) draw_force(C,r); if(!w.simple&&C.B("relax",.2)){ r.relax=(int)C.I("relax_steps",1,3); r.rbeta=C.pick("rbeta",{1e-6,.5}); r.rgamma=C.pick("rgamma",{0,.3}); r.rrep=C.pick("rrep",{0,1e-4}); r.rrad=.25; }
  if(w.newton){ r.fmm=!C.B("no_fmm",.15); if(w.strong) r.G=C.pick("G",{1.0,.05,10.}); else r.G=C.pick("G",{1.0,.05}); }
  G.iters=(int)C.I("iters",1,w.itmax); int big=C.maxranks; i64 k=C.I("ranks_kind",0,9); G.ranks= k==0? std::max(1,w.lo_ranks) : k<=7? (int)C.I("ranks",std::max(2,w.lo_ranks),5) : (int)C.I("ranks_many",2,std::max(2,big));
  GenOpt o; o.dim=r.dim; o.n=(int)C.I("n",w.nmin,C.thorough?w.nmax*2:w.nmax); if(w.nmax>=90&&C.B("big",.01)) { o.n=(int)C.I("n_big",150,300); G.s.max_steps=20000000; } if(o.n<3*G.ranks) o.n=3*G.ranks; o.kind=C.B("lattice",.7)?1:0; o.varh=r.varh&&C.B("varh",.7); o.hscale=C.pick("hscale",{2.0,1.5,3.0}); o.id0=C.I("id0",0,2)*100; G.P=gen_parts(C,"parts",o); double cell=1./std::pow((double)o.n,1./r.dim);
  double vs=C.pick("vscale",{.1,1.,3.}); Rng q=C.R("vel"); for(auto&p:G.P){ for(int d=0;d<r.dim;++d) p.v[d]=vs*q.range(-1,1); p.m=q.range(.8,1.2)/o.n; p.rho=q.range(.8,1.2); p.P=q.range(.5,1.5); p.u=q.range(1,2)*(r.thermo&&(r.forced()||r.fmm)?3:1); p.type=0; p.dt=0; }
  r.dt=C.pick("dtfac",{.02,.1,.3})*cell/(vs+3); if(C.B("fewranks",.0)) G.ranks=1; G.s.lib=(w.newton?"newton":"hydro")+std::to_string(r.dim); G.s.nranks=G.ranks; C.net(G.s); G.sep=C.B("separate",.3); return G; }
[[maybe_unused]] static void write_in(const Cfg&G,const string&name){ h5_host_write(name,parts_file(G.P,G.r.dim,0,0.)); }
// compare one snapshot with the reference state
[[maybe_unused]] static void cmp(Ctx&C,const Ref&R,const Snap&s,double tol,const string&what){
  if(s.iter!=R.it) C.fail("iteration",fmt("%s: iteration %lld instead of %lld",what.c_str(),(long long)s.iter,(long long)R.it)); if(!close_to(s.time,R.t,1e-9,1e-15)) C.fail("time",fmt("%s: time %.15g instead of %.15g",what.c_str(),s.time,R.t)); if(!close_to(s.dt,R.dt,1e-7)) C.fail("timestep",fmt("%s: time step %.15g instead of %.15g",what.c_str(),s.dt,R.dt));
  if(s.p.size()!=R.b.size()) C.fail("lost-particle",fmt("%s: %zu particles instead of %zu",what.c_str(),s.p.size(),R.b.size())); double vs=0,us=0; for(auto&a:R.b){ vs=std::max(vs,std::sqrt(R.dot(a.v,a.v))+a.c); us=std::max(us,a.u+.5*R.dot(a.v,a.v)+std::fabs(R.epot(a))); }
  for(auto&a:R.b){ auto it=s.p.find(a.id); if(it==s.p.end()) C.fail("lost-particle",fmt("%s: particle %lld missing",what.c_str(),(long long)a.id)); const auto&m=it->second; static const char*X[]={"x","y","z"},*V[]={"vx","vy","vz"},*A[]={"ax","ay","az"};
    auto bad=[&](const char*n,double g,double e){ C.fail(string("field-")+n,fmt("%s iteration %lld: particle %lld has %s=%.15g, reference %.15g",what.c_str(),(long long)R.it,(long long)a.id,n,g,e)); };
    auto eq=[&](const char*n,double e,double sc){ C.checks++; double g=m.at(n); if(!(std::fabs(g-e)<=tol*sc)) bad(n,g,e); };
    for(int d=0;d<R.p.dim;++d){ double xe=a.x[d]; if(R.p.L[d]>0) xe+=R.p.L[d]*std::round((m.at(X[d])-xe)/R.p.L[d]); eq(X[d],xe,1); eq(V[d],a.v[d],vs); eq(A[d],a.a[d]+a.g[d],a.scale_a+std::fabs(a.a[d])+1e-30); } for(int d=R.p.dim;d<3;++d) for(auto n:{X[d],V[d],A[d]}) if(m.at(n)!=0) bad(n,m.at(n),0);
    eq("h",a.h,a.h); eq("m",a.m,1e-30); eq("rho",a.rho,a.rho); if(R.p.evolve) eq("u",a.u,us); eq("P",a.P,a.P+us*a.rho); eq("type",a.type,0); eq("state",a.state,0); if(R.p.cullen){ eq("alpha",a.al,R.p.amax); double ds=10*vs/a.h; eq("divergenceV",a.div,ds); if(R.p.dt>0) eq("dDivVdt",a.ddiv,ds/R.dt+ds/R.p.dt); }
    double n=m.at("neighbors"); if(n<a.nn-tol*1e7||n>a.nmax+tol*1e7) bad("neighbors",n,a.nn); int r=(int)m.at("rank"); (void)r; }
}
// the drivers stop by design when density, pressure or energy turn negative; such inputs are left out
[[maybe_unused]] static bool stable(Ctx&C,const Cfg&G){ Ref R(G.r,G.P); for(int k=0;k<=G.iters;++k){ R.step(); if(!(R.umin>1e-3)) return false; for(auto&a:R.b){ if(!(a.rho>0)||!(a.P>1e-4)||(G.r.evolve&&!(a.u>1e-3))||!(a.c>0)||!(std::sqrt(R.dot(a.v,a.v))<1e3)||!std::isfinite(a.P+a.u+a.a[0])) return false; for(int d=0;d<3;++d) if(!(std::fabs(a.x[d])<20)) return false; } R.advance(); } return true; }
// The drivers stop by design when density, pressure or energy become negative. Where the reference model cannot predict that
// (Cullen switch, kernels it lacks) such an input is skipped; everywhere else it is a failure like any other.
[[maybe_unused]] static bool run_positive(Ctx&C,const JobSpec&s,bool may,JobResult&J){ try{ J=C.run(s); return true; } catch(Fail&f){ if(may&&f.cls.find("default_physics.h:passed")!=string::npos&&f.msg.find(": negative ")!=string::npos){ C.note="negative energy input skipped"; return false; } throw; } }
struct Tot { double m=0,P[3]={0,0,0},J[3]={0,0,0},E=0,scP=0,scJ=0,ek=0,ei=0; };
[[maybe_unused]] static Tot totals(const Snap&s,const Ref*R=nullptr){ Tot t; for(auto&x:s.p){ auto&q=x.second; double X[3]={q.at("x"),q.at("y"),q.at("z")},V[3]={q.at("vx"),q.at("vy"),q.at("vz")},m=q.at("m"); t.m+=m; double v2=0,x2=0; for(int d=0;d<3;++d){ t.P[d]+=m*V[d]; v2+=V[d]*V[d]; x2+=X[d]*X[d]; } double a2=0; for(auto n:{"ax","ay","az"}) a2+=q.at(n)*q.at(n); for(int d=0;d<3;++d){ int e=(d+1)%3,f=(d+2)%3; t.J[d]+=m*(X[e]*V[f]-X[f]*V[e]); } t.scP+=m*(std::sqrt(v2)+std::sqrt(a2)*s.dt); t.scJ+=m*(std::sqrt(v2)+std::sqrt(a2)*s.dt)*std::sqrt(x2); t.ek+=.5*m*v2; t.ei+=m*q.at("u"); double g[3]; t.E+=m*(.5*v2+q.at("u")+(R?R->ext(X,g):0)); } return t; }
[[maybe_unused]] static vector<vector<double>> table(const string&f){ vector<vector<double>> T; string s=read_text(f); size_t p=0; while(p<s.size()){ size_t e=s.find('\n',p); if(e==string::npos) break; string l=s.substr(p,e-p); p=e+1; if(l.empty()||l[0]=='#') continue; vector<double> r; const char*c=l.c_str(); char*q; for(;;){ double v=strtod(c,&q); if(q==c) break; r.push_back(v); c=q; } T.push_back(r); } return T; }
[[maybe_unused]] static void cmp_snaps(Ctx&C,const Snap&a,const Snap&b,double tol,const string&what,std::set<string> skip={}){
  if(!a.ok||!b.ok) C.fail("no-output",what+": snapshot missing or incomplete"); if(a.iter!=b.iter||!close_to(a.time,b.time,1e-9)) C.fail("time",fmt("%s: iteration %lld time %.15g and %lld, %.15g",what.c_str(),(long long)a.iter,a.time,(long long)b.iter,b.time)); if(!close_to(a.dt,b.dt,tol*10)) C.fail("timestep",fmt("%s iteration %lld: time step %.15g and %.15g",what.c_str(),(long long)a.iter,a.dt,b.dt)); if(a.p.size()!=b.p.size()) C.fail("lost-particle",fmt("%s iteration %lld: %zu and %zu particles",what.c_str(),(long long)a.iter,a.p.size(),b.p.size()));
  map<string,double> sc; for(auto&x:a.p) for(auto&y:x.second) sc[y.first]=std::max(sc[y.first],std::fabs(y.second)); for(auto g:{"x","v","a"}){ double m=0; string G=g; vector<string> n; for(auto c:{"x","y","z"}) n.push_back(G=="x"?c:G+c); for(auto&q:n) m=std::max(m,sc[q]); for(auto&q:n) sc[q]=m; }
  for(auto&x:a.p){ auto it=b.p.find(x.first); if(it==b.p.end()) C.fail("lost-particle",fmt("%s iteration %lld: particle %lld missing",what.c_str(),(long long)a.iter,(long long)x.first)); for(auto&y:x.second){ const string&f=y.first; if(f=="rank"||f=="alpha"||f=="divergenceV"||f=="dDivVdt"||skip.count(f)) continue; C.checks++; double u=y.second,v=it->second.at(f); if(f=="neighbors"||f=="type"||f=="state"){ if(u!=v) C.fail("field-"+f,fmt("%s iteration %lld: particle %lld has %s %.0f and %.0f",what.c_str(),(long long)a.iter,(long long)x.first,f.c_str(),u,v)); continue; } if(!(std::fabs(u-v)<=tol*sc[f])&&!(u==v)) C.fail("field-"+f,fmt("%s iteration %lld: particle %lld has %s=%.15g and %.15g",what.c_str(),(long long)a.iter,(long long)x.first,f.c_str(),u,v)); } } }
[[maybe_unused]] static void quiet_net(JobSpec&s){ s.policy=0; s.preempt=0; s.delay_p=0; s.rndv_p=0; s.probe_lie=s.test_lie=0; s.stall_p=0; s.early_exit_p=0; s.reduce_perm=0; s.clock_jump_p=0; s.dirseed=0; }
[[maybe_unused]] static vector<Snap> snaps(Ctx&C,const string&out,bool sep,int from,int n){ vector<Snap> v; HContent c; if(!sep) c=file(C,out+".h5part"); for(int k=from;k<n;++k){ if(sep) c=file(C,out+fmt("_%05d.h5part",k)); v.push_back(snap(c,k)); } return v; }
