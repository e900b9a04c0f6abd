// Scenario for the relaxation (weighted Voronoi tessellation) driver, against an all-pairs reference.
#include "ref.h"
#include <sys/stat.h>
#include <unistd.h>
#include "drv.h"
struct WvtRef {
  RefPar p; vector<RP> b; bool diehl,refl,frozen,ngbh,parab,mesa; double mu,ngb,R,rho0; int fin,cool; bool check; double point; bool done=false; double margin=1e300;
  double nrm(const double*x) const { double s=0; for(int d=0;d<p.dim;++d) s+=x[d]*x[d]; return std::sqrt(s); }
  double target(double r) const { double q=r/R; if(mesa){ double z=1-p.mesaq; return rho0*(q<z?1:q<.9999?1-(q-z)*(q-z)/(p.mesaq*p.mesaq):0); } return rho0*(parab? 1-q*q : 1); }
  void neighbours(Ref&K){ for(auto&a:b){ a.rho=0; a.nn=0; for(auto&q:b){ double r[3],d=K.dist(a,q,r),W,dW,h=.5*(a.h+q.h); if(d>=h) continue; K.ker(d,h,W,dW); a.rho+=q.m*W; a.nn++; } } }
  double w1(Ref&K,double r,double h) const { double W,dW; K.ker(r,h,W,dW); return W; }
  void accel(Ref&K){ int D=p.dim; const double e=.3; auto sq=[](double x){ return x*x; }; for(auto&a:b){ double s[3]={0,0,0}; a.scale_a=0; double ra=nrm(a.x); margin=std::min(margin,std::fabs(ra/R-1)); auto add=[&](const double*xb,double f,double r){ for(int d=0;d<D;++d) s[d]+=f*(a.x[d]-xb[d])/r; a.scale_a+=std::fabs(f); }; bool near=ra+a.h>R;
      if(ra<=R){ for(auto&q:b){ double r[3],d=K.dist(a,q,r),h=.5*(a.h+q.h); if(d>=h) continue; if(d>0){ double f= diehl? a.h*std::max(0.,sq(h/(d+e*h))-sq(1/(1+e))) : h*w1(K,d,h)*std::pow(h,D); add(q.x,f,d); }
          double rb=nrm(q.x); if(refl&&near&&rb<R){ double m[3]; for(int k=0;k<D;++k) m[k]=q.x[k]/rb*(2*R-rb); double z=0; for(int k=0;k<D;++k) z+=sq(a.x[k]-m[k]); z=std::sqrt(z); if(z>0){ double f= diehl? a.h*std::max(0.,sq(a.h/(z+e*a.h))-sq(1/(1+e))) : a.h*w1(K,z,h)*std::pow(a.h,D); add(m,f,z); } } }
        if(refl&&near){ double m[3],z=0; for(int k=0;k<D;++k){ m[k]=a.x[k]/ra*(2*R-ra); z+=sq(a.x[k]-m[k]); } z=std::sqrt(z); if(z>0){ double f= diehl? a.h*std::max(0.,sq(a.h/(z+e*a.h))-sq(1/(1+e))) : a.h*w1(K,z,a.h)*std::pow(a.h,D); add(m,f,z); } }
        if(frozen&&near){ double q=0; for(int k=0;k<D;++k) q+=a.x[k]/ra*s[k]; for(int k=0;k<D;++k) s[k]=2*(s[k]-q*a.x[k]/ra); } }
      for(int k=0;k<3;++k) a.a[k]=k<D?s[k]:0; } }
  void move(i64 it){ int D=p.dim; for(auto&a:b){ double m=mu; if(it>fin) m=std::max(-.1*mu/cool*(double)(it-fin)+.1*mu,0.); double x[3]={0,0,0},r; auto put=[&]{ for(int d=0;d<D;++d) x[d]=a.x[d]+m*a.a[d]; r=nrm(x); }; put(); while(r/R>1.01&&m>1e-10){ margin=std::min(margin,std::fabs(r/R-1.01)); m*=.5; put(); } margin=std::min({margin,std::fabs(r/R-1.01),std::fabs(r/R-1)}); if(r/R>=1){ double f=(2*R-r)/r; for(int d=0;d<D;++d) x[d]*=f; r=nrm(x); } if(mesa) margin=std::min(margin,std::fabs(r/R-.9999)); memcpy(a.x,x,sizeof x); a.h=size(a.m,target(r),ngbh); }
    if(p.varh){ double V=0; for(auto&a:b) V+=std::pow(a.h,D); double s=std::pow(std::pow(R,D)*ngb/V,1./D); for(auto&a:b) a.h*=s; } }
  double size(double m,double rho,bool n) const { int D=p.dim; if(rho==0) return R; if(n) return std::pow(ngb*m/((D==2?M_PI:4*M_PI/3)*rho),1./D); return p.eta*2*std::pow(m/rho,1./D); }
};
static void wvt(Ctx&C){
  int D=(int)C.I("dim",2,3); WvtRef w; auto&r=w.p; r.dim=D; static const char*ks[]={"wendland c4","wendland c6","wendland c2","cubic spline"}; r.kernel=ks[C.I("kernel",0,3)]; r.eta=C.pick("eta",{1.5,1.2}); r.varh=C.B("varh",.5); w.diehl=C.B("diehl",.5); int bc=(int)C.I("boundary",0,2); w.refl=bc==0; w.frozen=bc==1; w.ngbh=C.B("ngb_h",.3); w.parab=C.B("parabolic",.3); w.mesa=!w.parab&&C.B("mesa",.3); r.mesaq=C.pick("mesa_q",{.25,.6}); int table=!w.mesa&&C.B("profile_table",.3)?4+(int)C.I("table_kind",0,3):0; w.R=C.pick("radius",{1.,2.5}); w.ngb=C.pick("ngb",{20.,8.}); w.mu=C.pick("mu",{1e-3,1e-2,.1}); w.check=C.B("check",.6); w.point=C.pick("point",{1.,30.,80.}); w.cool=C.B("cooling",.5)?(int)C.I("cool_down",1,4):0; w.fin=(int)C.I("iterations",1,5); w.rho0=C.pick("rho",{1.,.3}); int n=(int)C.I("n",10,C.thorough?160:80); if(C.B("big",.01)) n=(int)C.I("n_big",150,500); int every=(int)C.I("every",1,3); bool sep=C.B("separate",.4); double dt=.01;
  i64 rk=C.I("ranks_kind",0,9); int ranks= rk==0?1: rk<=7?(int)C.I("ranks",2,5):(int)C.I("ranks_many",2,C.maxranks); n=std::max(n,3*ranks); Rng q=C.R("sphere"); vector<Part> P; double vol=(D==2?M_PI:4*M_PI/3)*std::pow(w.R,D); double out=C.B("outside",.15)?1.05:.95;
  for(int i=0;i<n;++i){ Part p; double s; do { s=0; for(int d=0;d<D;++d){ p.x[d]=q.range(-out,out)*w.R; s+=p.x[d]*p.x[d]; } } while(std::sqrt(s)>out*w.R||((w.parab||w.mesa)&&std::sqrt(s)>.93*w.R)); p.id=i+7; p.m=w.rho0*vol/n*q.range(.9,1.1); p.h=r.eta*2*std::pow(p.m/w.rho0,1./D)*.8; p.rho=1; p.P=1; p.u=1; p.dt=0; p.type=0; P.push_back(p); }
  r.dt=dt; Ref K(r,P); w.b=K.b; WvtRef w2=w; Rng eps=C.R("eps"); for(auto&a:w2.b) for(int d=0;d<D;++d) a.x[d]+=1e-12*w.R*eps.range(-1,1); // a twin shows how strongly rounding is amplified
  string kn=kname(r.kernel); string t="initial_data_prefix = \"in\"\noutput_h5data_prefix = \"out\"\n"; t+=fmt("initial_dt = %.17g\nfinal_iteration = %d\nsph_kernel = \"%s\"\nsph_eta = %.17g\nsph_variable_h = %s\nwvt_method = \"%s\"\nwvt_boundary = \"%s\"\nwvt_mu = %.17g\nwvt_ngb = %.17g\nwvt_convergence_check = %s\nwvt_convergence_point = %.17g\nwvt_h_ngb = %s\nwvt_cool_down = %d\nwvt_radius = %.17g\nsphere_radius = %.17g\n%smesa_rim_width = %.17g\nrho_initial = %.17g\nout_screen_every = 0\nout_scalar_every = 1\nout_h5data_every = %d\nout_h5data_separate_iterations = %s\neos_type = \"no eos\"\n",dt,w.fin,kn.c_str(),r.eta,yes(r.varh).c_str(),w.diehl?"diehl":"arth",w.refl?"reflective":w.frozen?"frozen":"none",w.mu,w.ngb,yes(w.check).c_str(),w.point,yes(w.ngbh).c_str(),w.cool,w.R,w.R,profile_text(w.parab?"parabolic":w.mesa?"mesa":"constant",table).c_str(),r.mesaq,w.rho0,every,yes(sep).c_str());
  h5_host_write("in.h5part",parts_file(P,D,0,0.)); write_text("w.par",t); JobSpec s; s.lib="wvt"+std::to_string(D); s.nranks=ranks; C.net(s); s.workload="driver w.par\n"; C.run(s);
  int step=0; HContent one; if(!sep) one=file(C,"out.h5part"); double time=0; const double tol=1e-7;
  for(i64 it=0;;++it,time+=dt){ if(it>0){ w.move(it); w2.move(it); } w.neighbours(K); w.accel(K); w2.neighbours(K); w2.accel(K); { double amp=0; bool other=false; for(size_t i=0;i<w.b.size();++i){ for(int d=0;d<D;++d) amp=std::max(amp,std::fabs(w.b[i].x[d]-w2.b[i].x[d])); if(w.b[i].nn!=w2.b[i].nn) other=true; } if(amp>1e-8*w.R||other){ C.note="rounding amplified, compared up to there"; return; } }  bool conv=false; if(it>0&&it<=w.fin&&w.check){ int c=0; double near=1e300; for(auto&a:w.b){ double d=w.mu*w.nrm(a.a),m=.001*std::pow(1/w.ngb,1./D)*a.h; near=std::min(near,std::fabs(d/m-1)); if(d>m) ++c; } if(near<1e-6){ C.note="convergence decided by rounding, skipped"; return; } conv=c*100./n<w.point; } if(w.margin<1e-9){ C.note="boundary decided by rounding, skipped"; return; }
    bool last=it==w.fin+w.cool; if(conv||last) for(auto*v:{&w,&w2}) for(auto&a:v->b){ a.rho=w.target(w.nrm(a.x)); a.h=w.size(a.m,a.rho,false); }
    if(it%every==0||conv||last){ HContent c=one; if(sep) c=file(C,fmt("out_%05d.h5part",step)); Snap z=snap(c,step++); if(!z.ok) C.fail("no-output",fmt("no snapshot of iteration %lld",(long long)it)); if(z.iter!=it||!close_to(z.time,time,1e-9,1e-12)) C.fail("iteration",fmt("snapshot %d is of iteration %lld time %g, not %lld, %g",step-1,(long long)z.iter,z.time,(long long)it,time)); if((int)z.p.size()!=n) C.fail("lost-particle",fmt("%zu of %d particles",z.p.size(),n));
      for(size_t ia=0;ia<w.b.size();++ia){ auto&a=w.b[ia]; auto&a2=w2.b[ia]; auto f=z.p.find(a.id); if(f==z.p.end()) C.fail("lost-particle",fmt("particle %lld lost",(long long)a.id)); auto&m=f->second; auto eq=[&](const char*nm,double e,double e2,double sc){ C.checks++; double g=m.at(nm); if(!(std::fabs(g-e)<=tol*sc+10*std::fabs(e-e2))) C.fail(string("field-")+nm,fmt("relaxation iteration %lld: particle %lld has %s=%.15g, reference %.15g",(long long)it,(long long)a.id,nm,g,e)); }; static const char*X[]={"x","y","z"},*A[]={"ax","ay","az"}; double rr=0; for(int d=0;d<D;++d){ eq(X[d],a.x[d],a2.x[d],w.R); eq(A[d],a.a[d],a2.a[d],a.scale_a+1e-30); rr+=m.at(X[d])*m.at(X[d]); } eq("h",a.h,a2.h,a.h); eq("rho",a.rho,a2.rho,std::fabs(a.rho)+1e-12); eq("m",a.m,a.m,1e-30); if(a.nn==a2.nn) eq("neighbors",a.nn,a.nn,1e-9); if(it>0&&w.mu<.05&&std::sqrt(rr)>w.R*(1+1e-12)&&out<1) C.fail("outside",fmt("relaxation iteration %lld: particle %lld at radius %.15g outside %.15g",(long long)it,(long long)a.id,std::sqrt(rr),w.R)); } }
    if(conv||last) break; }
  if(sep){ struct stat sb; if(!stat(fmt("out_%05d.h5part",step).c_str(),&sb)) C.fail("extra-output","the run went on after it should have stopped"); } else if(one.o.count("Step#"+std::to_string(step))) C.fail("extra-output","the run went on after it should have stopped"); }
SCENARIO(p23_wvt,"P23",1,"wvt2","wvt3"){ wvt(C); }
