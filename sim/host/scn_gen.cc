// Scenario for the initial data generators: the file they write, from any number of ranks, and what a driver reads from it.
#include "ref.h"
#include <sys/stat.h>
#include <unistd.h>
#include "drv.h"
namespace {
struct Block { double lo[3],hi[3]; double sep,rho; bool sphere=false; double R=0; };
struct GFile { size_t n=0; map<string,vector<double>> f; vector<i64> id; };
}
static GFile gfile(Ctx&C,const string&name,const string&what){ HContent c=file(C,name); GFile g; if(!c.o.count("Step#0")) C.fail("no-step",what+": no first step in the file"); g.id=h5_ints(c,"Step#0/id"); g.n=g.id.size(); for(auto n:{"x","y","z","vx","vy","vz","h","rho","u","P","m"}){ auto v=h5_doubles(c,string("Step#0/")+n); if(v.empty()&&string(n)=="vz"){ v.assign(g.n,0.); } if(v.size()!=g.n) C.fail("dataset-length",fmt("%s: %zu values of %s for %zu identifiers",what.c_str(),v.size(),n,g.n)); g.f[n]=v; } i64 na; if(h5_get_attri(c,"","nparticles",na)&&na!=(i64)g.n) C.fail("count-attribute",fmt("%s: the file announces %lld particles and holds %zu",what.c_str(),(long long)na,g.n)); return g; }
#define SHELL_MIN .85
#define SHELL_HOLE .75
static void generators(Ctx&C){
  static const char*G[]={"sodtube","sedov","noh","implosion","collapse","wtunnel","KH","RT","fluid"}; int k=(int)C.I("generator",0,8); string g=G[k]; int dlo= k<=2?1: k==4?3:2, D=(int)C.I("dim",dlo,3); bool own= g=="sedov"||g=="noh";
  int lat= D==1?0:(int)C.I("lattice",0,2); bool sphere=(g=="sedov"||g=="noh"||g=="implosion"||g=="collapse")&&D>1&&C.B("sphere",.4); if(sphere&&D==3&&C.B("shells",.5)) lat=(int)C.I("shells_kind",3,4); double R=C.pick("radius",{1.,.5});
  string prof="constant"; double mq=C.pick("mesa_q",{.25,.6}); int table=0; if(own&&lat>=3&&C.B("profile",.6)){ int q=(int)C.I("profile_kind",0,3); prof= q==1?"mesa":q==0||q==2?"parabolic":"constant"; if(q>1) table=1+(int)C.B("table_inside",.5); }
  // shape of the profile (1 at the centre), the mass inside a radius as a fraction of the total, total over central density
  auto shape=[&](double q){ return prof=="parabolic"?1-q*q: prof=="mesa"&&q>1-mq?1-(q-1+mq)*(q-1+mq)/(mq*mq):1; }; auto inside=[&](double q){ double z=0,edges[3]={0,std::min(q,prof=="mesa"?1-mq:q),q}; for(int e=0;e<2;++e){ double a=edges[e],b=edges[e+1],w=(b-a)/400; for(int k=0;k<=400&&b>a;++k){ double r=a+k*w; z+=w/3*(k==0||k==400?1:k%2?4:2)*r*r*shape(r); } } return 4*M_PI*z; }; const double norm=inside(1);
  double L=C.pick("length",{1.,3.,2.2}),W=D>1?L*C.pick("width",{1.,.5,.8}):1,H=D>2?L*C.pick("height",{1.,.6}):1; int nmax=D==1?70:D==2?26:(g=="KH"||g=="sodtube"||g=="RT"?12:9); int nx=(int)C.I("nx",D==1?7:g=="KH"||g=="RT"?12:7,nmax+(C.thorough?4:0)); if(D==1&&C.B("fine",.1)) nx=(int)C.I("fine_nx",200,2600); double rho=C.pick("rho",{1.,2.,.3}),pr=C.pick("pressure",{1.,2.5,.1}),gam=C.pick("gamma",{1.4,5./3}),eta=C.pick("eta",{1.5,1.2}); bool eq= g!="sodtube"||C.B("equal_mass",.5); int test=(int)C.I("sodtest",1,6); double vel=C.pick("velocity",{0,.5,2.}),ratio=C.pick("ratio",{2.,1.5,4.}),gacc=C.pick("gacc",{.5,.1}); bool per=C.B("periodic",.3); double blast=C.pick("blast_energy",{1.,.3}),brad=C.pick("blast_radius",{.3,.15,.6}); double amp=(own&&C.B("perturb",.3))?.05:0; static const char*ks[]={"wendland c4","cubic spline","quintic spline","gaussian"}; int kn=(int)C.I("kernel",0,3); double kw=kn>=2?3:2;
  bool mod=own&&C.B("modify",.2); int ranks= own?1: C.B("one_rank",.4)?1:(int)C.I("ranks",2,C.B("many",.15)?C.maxranks:5); bool old=!mod&&C.B("old_file",.3);
  string t="initial_data_prefix = \"in\"\noutput_h5data_prefix = \"out\"\nout_h5data_separate_iterations = no\n"; t+=fmt("lattice_nx = %d\nlattice_type = %d\ndomain_type = %d\nsphere_radius = %.17g\nbox_length = %.17g\nbox_width = %.17g\nbox_height = %.17g\nrho_initial = %.17g\npressure_initial = %.17g\npoly_gamma = %.17g\nsph_eta = %.17g\nequal_mass = %s\nsodtest_num = %d\nflow_velocity = %.17g\ndensity_ratio = %.17g\ngravity_acceleration_constant = %.17g\nsedov_blast_energy = %.17g\nsedov_blast_radius = %.17g\nnoh_infall_velocity = %.17g\nlattice_perturbation_amplitude = %.17g\nsph_kernel = \"%s\"\nmodify_initial_data = %s\n",nx,lat,sphere?1:0,R,L,W,H,rho,pr,gam,eta,yes(eq).c_str(),test,vel,ratio,gacc,blast,brad,vel,amp,kname(ks[kn]).c_str(),yes(mod).c_str()); if(per) for(int d=0;d<D;++d) t+=string("periodic_boundary_")+"xyz"[d]+" = yes\n";
  t+=string("density_profile = \"")+(table?"from file":prof)+"\"\n"+fmt("mesa_rim_width = %.17g\n",mq); if(table){ t+="input_density_file = \"profile.dat\"\n"; string f="# r rho m drho/dr\n"; for(int i=table-1;i<=64;++i){ double q=i/64.; f+=fmt(" %.17g %.17g %.17g %.17g\n",q,shape(q)/norm,prof=="parabolic"?.5*q*q*q*(5-3*q*q):q*q*q,prof=="parabolic"?-2*q/norm:0.); if(i==5) f+="# remark\n  \n"; } write_text("profile.dat",f); }
  const double ptol=table?1e-6:1e-9; write_text("g.par",t); vector<Part> P0; if(mod){ GenOpt o; o.dim=D; o.n=(int)C.I("n",12,60); P0=gen_parts(C,"parts",o); Rng q=C.R("vals"); for(auto&p:P0){ p.m=q.range(.8,1.2)/o.n; p.rho=q.range(.8,1.2); p.P=1; p.u=1; p.type=0; p.dt=0; } h5_host_write("in.h5part",parts_file(P0,D,0,0.)); } else if(old){ GenOpt o; o.dim=D; o.n=15; h5_host_write("in.h5part",parts_file(gen_parts(C,"oldparts",o),D,0,0.)); }
  JobSpec s; s.lib="gen_"+g+std::to_string(D); s.nranks=ranks; C.net(s); s.workload="g.par"; bool adj=per&&((g=="sodtube"&&eq)||g=="RT"); if(adj) s.keep_output=true; JobResult GJ=C.run(s); string what=fmt("%s %dD generator on %d ranks",g.c_str(),D,ranks); GFile F=gfile(C,"in.h5part",what); size_t n=F.n; auto&x=F.f["x"],&y=F.f["y"],&z=F.f["z"]; auto X=[&](size_t i,int d){ return d==0?x[i]:d==1?y[i]:z[i]; };
  C.checks+=n; if(!n) C.fail("empty",what+": no particles"); 
  if(!mod){ for(size_t i=0;i<n;++i) if(F.id[i]!=(i64)i) C.fail("identifiers",fmt("%s: particle %zu of %zu has identifier %lld",what.c_str(),i,n,(long long)F.id[i])); }
  auto&rh=F.f["rho"],&u=F.f["u"],&P=F.f["P"],&m=F.f["m"],&h=F.f["h"]; for(size_t i=0;i<n;++i){ if(!(rh[i]>0&&u[i]>0&&P[i]>0&&m[i]>0&&h[i]>0)||!std::isfinite(rh[i]+u[i]+P[i]+m[i]+h[i]+x[i]+y[i]+z[i]+F.f["vx"][i]+F.f["vy"][i]+F.f["vz"][i])) C.fail("values",fmt("%s: particle %zu of %zu has rho=%g u=%g P=%g m=%g h=%g",what.c_str(),i,n,rh[i],u[i],P[i],m[i],h[i])); if(!close_to(P[i],(gam-1)*rh[i]*u[i],1e-9)&&!(mod&&g=="noh")) C.fail("pressure",fmt("%s: particle %zu has P=%g, (gamma-1) rho u=%g",what.c_str(),i,P[i],(gam-1)*rh[i]*u[i])); if(g!="wtunnel"&&!mod&&!close_to(h[i],eta*kw*std::pow(m[i]/rh[i],1./D),1e-9)) C.fail("smoothing",fmt("%s: particle %zu has h=%g instead of %g",what.c_str(),i,h[i],eta*kw*std::pow(m[i]/rh[i],1./D))); for(int d=D;d<3;++d) if(X(i,d)!=0) C.fail("dimension",what+": a coordinate beyond the dimension is not zero"); }
  // initial state of each problem
  auto vv=[&](size_t i,int d){ return F.f[d==0?"vx":d==1?"vy":"vz"][i]; }; auto rad=[&](size_t i){ double q=0; for(int d=0;d<D;++d) q+=X(i,d)*X(i,d); return std::sqrt(q); }; auto bad=[&](const char*nm,size_t i,double got,double want){ C.fail(string("state-")+nm,fmt("%s: particle %zu at %g %g %g has %s=%.12g instead of %.12g",what.c_str(),i,x[i],y[i],z[i],nm,got,want)); }; auto eqv=[&](const char*nm,size_t i,double got,double want){ if(!close_to(got,want,ptol,1e-12)) bad(nm,i,got,want); };
  double sod[6][6]={{1,.125,1,.1,0,0},{1,1,.4,.4,-2,2},{1,1,1000,.01,0,0},{1,1,.01,100,0,0},{5.99924,5.99242,460.894,46.095,19.5975,-6.19633},{1,1,1e-6,1e-6,1,-1}}; auto&T=sod[test-1]; vector<Block> B; double sep=sphere?2*R/(nx-1):L/(nx-1); double img[3]={0,0,0},shift=0; double tot=0; bool exact_total=false; double cell1=std::pow(sep,D)*((lat==1||lat==2)&&D>1?(D==2?std::sqrt(3.)/2:1/std::sqrt(2.)):1);
  double vol=sphere?(D==2?M_PI:4*M_PI/3)*std::pow(R,D):L*(D>1?W:1)*(D>2?H:1); auto box=[&](double a,double b,double c,double d,double e,double f,double sp,double r0){ Block q; q.lo[0]=a; q.hi[0]=b; q.lo[1]=c; q.hi[1]=d; q.lo[2]=e; q.hi[2]=f; q.sep=sp; q.rho=r0; B.push_back(q); };
  // periodic boxes: adjusted so that the arrangements of both media close across the boundary
  double nd[3]={L,W,H}; auto closing=[&](double sl,bool tube){ static const char*nm[]={"box_length","box_width","box_height"}; double req[3]={L,W,H}; for(int d=0;d<D;++d){ size_t p=GJ.errtext.rfind(string(nm[d])+" = "); if(p==string::npos) C.fail("adjusted-box",what+": the adjusted dimensions are not reported"); nd[d]=std::atof(GJ.errtext.c_str()+p+strlen(nm[d])+3); if(!(nd[d]>0)) C.fail("adjusted-box",fmt("%s: %s is adjusted to %g",what.c_str(),nm[d],nd[d])); if(tube?d==0:d==1) continue; img[d]=nd[d]; double c= d==0||!lat?1:d==1?std::sqrt(3.):lat==1?2*std::sqrt(2./3):std::sqrt(6.),d1=sep*c,d2=sl*c,tol=.05*d2; shift+=tol+2e-5*L; if(nd[d]<req[d]-2*d1-tol-1e-5*req[d]) C.fail("adjusted-box",fmt("%s: %s %g is adjusted to %g, the cell is %g",what.c_str(),nm[d],req[d],nd[d],d1)); int k0=std::max(1,(int)(req[d]/d1*(1+1e-9))); double up=0; for(int side=0;side<2;++side) for(int k=k0;k<100*k0;++k){ double q=k*d1/d2,f=side?std::ceil(q-1e-5)-q:q-std::floor(q+1e-5); if(f<.049){ up=std::max(up,k*d1+tol); break; } } C.checks++; if(nd[d]>up*(1+1e-5)&&up>0) C.fail("adjusted-box",fmt("%s: %s %g is adjusted to %g although both arrangements close at %g",what.c_str(),nm[d],req[d],nd[d],up)); } };
  if(g=="sodtube"){ int n2=((nx-1)/3)*3+1; sep=L/(n2-1); cell1=std::pow(sep,D)*((lat==1||lat==2)&&D>1?(D==2?std::sqrt(3.)/2:1/std::sqrt(2.)):1); double e=1e-5*L; map<int,double> ms; map<int,int> cnt; for(size_t i=0;i<n;++i){ double ax=std::fabs(x[i]); int side=ax<L/6-e?0:ax>L/6+e?1:2; if(side==2) side= x[i]<0?0:1; eqv("rho",i,rh[i],T[side]); eqv("P",i,P[i],T[2+side]); eqv("vx",i,vv(i,0),T[4+side]); eqv("vy",i,vv(i,1),0); int b=side==0?0:x[i]<0?1:2; ms[b]+=m[i]; cnt[b]++; if(eq) eqv("m",i,m[i],T[0]*cell1); } double v3=L/3*(D>1?W:1)*(D>2?H:1); for(auto&q:ms) if(!eq&&!close_to(q.second,T[q.first?1:0]*v3,1e-9)) C.fail("mass",fmt("%s: region %d has mass %.12g, density times volume is %.12g",what.c_str(),q.first,q.second,T[q.first?1:0]*v3)); if(cnt.size()!=3&&!(per&&eq)) C.fail("region-empty",what+": a region of the tube has no particles");
    double sl=eq?sep*std::pow(T[0]/T[1],1./D):sep; if(adj){ closing(sl,true); double nl=nd[0],nw=nd[1],nh=nd[2]; box(-L/6,L/6,-nw/2,nw/2,-nh/2,nh/2,sep,T[0]); box(L/6,nl/2,-nw/2,nw/2,-nh/2,nh/2,sl,T[1]); box(-nl/2,-L/6,-nw/2,nw/2,-nh/2,nh/2,sl,T[1]); } else { box(-L/6,L/6,-W/2,W/2,-H/2,H/2,sep,T[0]); box(L/6,L/2,-W/2,W/2,-H/2,H/2,sl,T[1]); box(-L/2,-L/6,-W/2,W/2,-H/2,H/2,sl,T[1]); } }
  else if(own||g=="implosion"||g=="collapse"||g=="wtunnel"||g=="fluid"){ Block q; q.sep=sep; q.rho=rho; q.sphere=sphere; q.R=R; double hb[3]={L,W,H}; for(int d=0;d<3;++d){ q.lo[d]=sphere?-R:-hb[d]/2; q.hi[d]=-q.lo[d]; } if(g=="wtunnel"){ q.lo[0]=W/2; q.hi[0]=W/2+L; } if(g=="fluid"){ q.lo[0]=-L/2; q.hi[0]=-L/4; q.lo[1]=-W/2; q.hi[1]=0; q.sep*=1-1e-8; vol/=8; if(D==2) vol=L/4*W/2; if(D==3) vol=L/4*W/2*H; } B.push_back(q); exact_total=!mod; tot=rho*vol; if(sphere&&D==3&&own) tot=rho*norm*R*R*R; }
  if(exact_total){ double q=0; for(double v:m) q+=v; if(!close_to(q,tot,ptol)) C.fail("mass",fmt("%s: total mass %.12g, density times volume is %.12g",what.c_str(),q,tot)); for(size_t i=1;i<n;++i) if(m[i]!=m[0]) C.fail("mass","particles of one medium differ in mass"); }
  if(own){ double K0=pr/std::pow(rho,gam),E=0,mb=0; for(size_t i=0;i<n;++i){ double r=mod?0:rad(i); size_t j=i; if(mod){ bool f=false; for(size_t a=0;a<P0.size();++a) if(P0[a].id==F.id[i]){ j=a; f=true; } if(!f||n!=P0.size()) C.fail("modified",what+": particles of the modified file are gone"); r=0; for(int d=0;d<D;++d) r+=P0[j].x[d]*P0[j].x[d]; r=std::sqrt(r); eqv("m",i,m[i],P0[j].m); eqv("rho",i,rh[i],P0[j].rho); if(amp==0) for(int d=0;d<D;++d) eqv("position",i,X(i,d),P0[j].x[d]); } bool known=mod||prof=="constant"||amp==0; double ra=mod?P0[j].rho:rho*(known?shape(r/R):1),ub=K0*std::pow(ra,gam-1)/(gam-1); if(!mod&&known) eqv("rho",i,rh[i],ra); if(!known) ub=u[i]; if(g=="sedov"){ for(int d=0;d<D;++d) eqv("velocity",i,vv(i,d),0); if(amp==0){ if(r<brad*(1-1e-12)){ E+=m[i]*(u[i]-ub); mb+=m[i]; } else if(r>brad*(1+1e-12)) eqv("u",i,u[i],ub); else mb=-1e300; } } else { eqv("u",i,u[i],ub); if(amp==0){ double rr=rad(i); for(int d=0;d<D;++d) eqv("velocity",i,vv(i,d),rr>0?-vel*X(i,d)/rr:0); } } } if(mod&&amp>0&&n*D>=30){ double q=0; for(size_t i=0;i<n;++i) for(auto&p:P0) if(p.id==F.id[i]){ double ha=g=="sedov"?eta*kw*std::pow(p.m/p.rho,1./D):p.h; for(int d=0;d<D;++d) q+=std::pow((X(i,d)-p.x[d])/(ha*amp),2)/(n*D); } C.checks++; if(!(q>.16&&q<3.2)) C.fail("perturbation",fmt("%s: the positions are perturbed by %g times the requested amplitude",what.c_str(),std::sqrt(q))); } if(g=="sedov"&&amp==0&&mb>0&&std::fabs(E-blast)>1e-7*blast+(table?1e-6*mb*K0*std::pow(rho,gam-1)/(gam-1)+1e-6*blast:0)) C.fail("blast-energy",fmt("%s: the blast carries %.12g instead of %.12g",what.c_str(),E,blast)); }
  if(g=="implosion"||g=="collapse") for(size_t i=0;i<n;++i){ for(int d=0;d<D;++d) eqv("velocity",i,vv(i,d),0); eqv("rho",i,rh[i],rho); double r=rad(i); if(g=="collapse"||r<.8*R*(1-1e-9)) eqv("P",i,P[i],pr); else if(r>.8*R*(1+1e-9)){ double sl=(1e4-1)/(.2*R); if(std::fabs(u[i]-(1+sl*(r-.8*R)))>R+1) bad("u",i,u[i],1+sl*(r-.8*R)); } }
  if(g=="wtunnel") for(size_t i=0;i<n;++i){ eqv("vx",i,vv(i,0),-vel); for(int d=1;d<D;++d) eqv("velocity",i,vv(i,d),0); eqv("P",i,P[i],pr); eqv("rho",i,rh[i],rho); }
  if(g=="fluid") for(size_t i=0;i<n;++i){ for(int d=0;d<D;++d) eqv("velocity",i,vv(i,d),0); eqv("rho",i,rh[i],rho); eqv("P",i,P[i],2.5-rho*gacc*y[i]); }
  if(g=="RT"){ double rt=rho*ratio; int nb=0; for(size_t i=0;i<n;++i){ bool top=y[i]>-1e-7*W; nb+=!top; eqv("rho",i,rh[i],top?rt:rho); eqv("m",i,m[i],rho*cell1); eqv("vx",i,vv(i,0),0); eqv("P",i,P[i],2.5+gacc*(top?rt*(W/2-y[i]):rt*W/2-rho*y[i])); if(std::fabs(y[i])>.05+1e-9) eqv("vy",i,vv(i,1),0); } if(!nb||nb==(int)n) C.fail("region-empty",what+": one of the two fluids has no particles"); double dy=sep*(lat?std::sqrt(3.):1),y0=-W/2+W/2-((int)(W/2/dy))*dy; double st=sep*std::pow(1/ratio,1./D); if(adj) closing(st,false); box(-nd[0]/2,nd[0]/2,y0,0,-nd[2]/2,nd[2]/2,sep,rho); box(-nd[0]/2,nd[0]/2,0,W/2,-nd[2]/2,nd[2]/2,st,rt); }
  if(g=="KH"){ int nb=0; for(size_t i=0;i<n;++i){ bool mid=close_to(rh[i],rho*ratio,1e-9); if(!mid) eqv("rho",i,rh[i],rho); nb+=mid; eqv("P",i,P[i],pr); eqv("vx",i,vv(i,0),mid?vel/2:-vel/2); eqv("m",i,m[i],m[0]); if(std::fabs(y[i])>W/2+1e-9) bad("position",i,y[i],W/2); } if(!nb||nb==(int)n) C.fail("region-empty",what+": one of the two fluids has no particles"); double lo[2]={1e9,1e9},hi[2]={-1e9,-1e9}; for(size_t i=0;i<n;++i){ int mid=close_to(rh[i],rho*ratio,1e-9); lo[mid]=std::min(lo[mid],std::fabs(y[i])); hi[mid]=std::max(hi[mid],std::fabs(y[i])); } if(hi[1]>lo[0]) C.fail("region-mixed",what+": the two fluids overlap"); }
  // lattice: inside the domain, no two particles closer than the spacing, no holes
  if(amp==0&&!mod){ for(auto&b:B){ vector<size_t> in; for(size_t i=0;i<n;++i){ bool ok=true; for(int d=0;d<D;++d) if(X(i,d)<b.lo[d]-1e-5*L||X(i,d)>b.hi[d]+1e-5*L) ok=false; if(ok&&B.size()>1&&!close_to(rh[i],b.rho,1e-6)) ok=false; if(ok&&B.size()>1) for(int d=0;d<D;++d) if(X(i,d)>b.hi[d]-1e-6*(b.hi[0]-b.lo[0])*.5) ok=false; if(ok&&b.sphere&&rad(i)>b.R*(1+1e-5)) ok=false; if(ok) in.push_back(i); else if(B.size()==1) C.fail("outside",fmt("%s: particle %zu at %g %g %g lies outside the domain",what.c_str(),i,x[i],y[i],z[i])); }
      if(lat==4&&b.sphere){ size_t want=(size_t)nx*nx*nx; if(in.size()+1<want||in.size()>want+1) C.fail("random-count",fmt("%s: %zu random particles for %d along the diameter",what.c_str(),in.size(),nx)); double half=.5,lo=0,hi=1; for(int q=0;q<60;++q){ double m=.5*(lo+hi); (inside(m)<.5*norm?lo:hi)=m; } half=lo; double c[4]={0,0,0,0}; for(size_t i:in){ c[3]+=rad(i)<half*b.R; for(int d=0;d<3;++d) c[d]+=X(i,d)>0; } for(int d=0;d<4;++d){ C.checks++; if(std::fabs(c[d]-.5*in.size())>3.5*std::sqrt((double)in.size())) C.fail("random-spread",fmt("%s: %g of %zu random particles in a half that should hold every second one",what.c_str(),c[d],in.size())); } }
      if(lat==4) continue; double dmin=1e300; size_t a=0,c=0; for(size_t i=0;i<in.size();++i) for(size_t j=i+1;j<in.size();++j){ double q=0; for(int d=0;d<D;++d){ double e=std::fabs(X(in[i],d)-X(in[j],d)); if(img[d]>0) e=std::min(e,std::fabs(img[d]-e)); q+=e*e; } if(q<dmin){ dmin=q; a=in[i]; c=in[j]; } } dmin=std::sqrt(dmin); C.checks+=in.size(); if(in.size()>1&&dmin<b.sep*(lat==3?.2:1-1e-6)-shift) C.fail("too-close",fmt("%s: particles %zu and %zu are %g apart, spacing is %g",what.c_str(),a,c,dmin,b.sep));
      if(lat==4||lat==3){ C.checks++; }
      if(lat==3&&b.sphere){ // concentric shells of 10 k^2 + 2 particles, each in the layer that holds its share of the mass
        vector<std::pair<double,size_t>> o; for(size_t i:in) o.push_back({rad(i)/b.R,i}); std::sort(o.begin(),o.end()); size_t k=0,at=0,N=in.size(); auto radius=[&](double f){ double lo=0,hi=1; for(int q=0;q<60;++q){ double m=.5*(lo+hi); (inside(m)<f*norm?lo:hi)=m; } return .5*(lo+hi); };
        while(at<N){ size_t cnt=k?10*k*k+2:1,to=at; while(to<N&&o[to].first-o[at].first<1e-9) ++to; if(to-at!=cnt) C.fail("shell",fmt("%s: shell %zu at radius %g has %zu particles instead of %zu",what.c_str(),k,o[at].first,to-at,cnt)); double lo=radius((double)at/N),hi=radius((double)to/N); if(k&&(o[at].first<lo-1e-3||o[at].first>hi+1e-3)) C.fail("shell",fmt("%s: shell %zu lies at %g, its share of the mass between %g and %g",what.c_str(),k,o[at].first,lo,hi)); if(k>1&&to<N&&std::fabs(o[at].first-.5*(lo+hi))>.02*(hi-lo)+1e-3) C.fail("shell",fmt("%s: shell %zu lies at %g, the middle of its layer at %g",what.c_str(),k,o[at].first,.5*(lo+hi))); C.checks++;
          double rs=o[at].first*b.R,unit=std::sqrt(4*M_PI/cnt)*rs,close=1e300; if(k) for(size_t i=at;i<to;++i){ bool opp=false; for(size_t j=at;j<to;++j){ double q=0,w=0; for(int d=0;d<3;++d){ double a=X(o[i].second,d),c=X(o[j].second,d); q+=(a-c)*(a-c); w+=(a+c)*(a+c); } if(i!=j) close=std::min(close,std::sqrt(q)); if(std::sqrt(w)<1e-6*rs) opp=true; } if(!opp) C.fail("shell",fmt("%s: particle %zu of shell %zu has none opposite",what.c_str(),o[i].second,k)); }
          if(k&&close<SHELL_MIN*unit) C.fail("shell",fmt("%s: particles of shell %zu are %g apart, evenly spread ones %g",what.c_str(),k,close,unit)); Rng q=C.R("shell"+std::to_string(k)); double worst=0; if(k) for(int e=0;e<100;++e){ double p[3],s=0; do { s=0; for(int d=0;d<3;++d){ p[d]=q.range(-1,1); s+=p[d]*p[d]; } } while(s>1||s<1e-3); s=std::sqrt(s); double best=1e300; for(size_t i=at;i<to;++i){ double w=0; for(int d=0;d<3;++d){ double f=p[d]/s*rs-X(o[i].second,d); w+=f*f; } best=std::min(best,w); } worst=std::max(worst,std::sqrt(best)); } if(worst>SHELL_HOLE*unit) C.fail("shell",fmt("%s: shell %zu has a hole of radius %g, evenly spread ones are %g apart",what.c_str(),k,worst,unit));
          if(getenv("SHELLS")) fprintf(stderr,"shell %zu close %g hole %g\n",k,close/unit,worst/unit); at=to; ++k; } }
      if(lat==3) continue;
      if(!adj) for(size_t i:in){ bool inner=true; for(int d=0;d<D;++d) if(X(i,d)<b.lo[d]+1.01*b.sep||X(i,d)>b.hi[d]-1.01*b.sep) inner=false; if(b.sphere&&rad(i)>b.R-1.01*b.sep) inner=false; if(!inner) continue; vector<size_t> nb; for(size_t j:in) if(j!=i){ double q=0; for(int d=0;d<D;++d) q+=std::pow(X(i,d)-X(j,d),2); if(q<std::pow(b.sep*1.0001,2)) nb.push_back(j); } int inv=0; for(size_t j:nb) for(size_t k:nb){ double q=0; for(int d=0;d<D;++d) q+=std::pow(X(j,d)+X(k,d)-2*X(i,d),2); if(q<std::pow(b.sep*1e-4,2)){ inv++; break; } } int wn= D==1?2:D==2?(lat?6:4):lat?12:6,wi= D==3&&lat==1?6:wn; C.checks++; if((int)nb.size()!=wn||inv!=wi) C.fail("arrangement",fmt("%s: particle %zu at %g %g %g of lattice %d has %zu neighbours at the spacing, %d with an opposite one",what.c_str(),i,x[i],y[i],z[i],lat,nb.size(),inv)); }
      double hole= D==1?.5: D==2? (lat?1/std::sqrt(3.):std::sqrt(.5)) : (lat?1/std::sqrt(2.):std::sqrt(.75)); Rng q=C.R("holes"); for(int k=0;k<200;++k){ double p[3]={0,0,0}; bool ok=true; for(int d=0;d<D;++d){ double mg=img[d]>0?0:b.sep*1.01; if(b.hi[d]-b.lo[d]<2.5*mg){ ok=false; break; } p[d]=q.range(b.lo[d]+mg,b.hi[d]-mg); } if(!ok) break; if(b.sphere&&std::sqrt(p[0]*p[0]+p[1]*p[1]+p[2]*p[2])>b.R-b.sep*1.01) continue; double best=1e300; for(size_t i:in){ double s=0; for(int d=0;d<D;++d){ double e=std::fabs(X(i,d)-p[d]); if(img[d]>0) e=std::min(e,std::fabs(img[d]-e)); s+=e*e; } best=std::min(best,s); } C.checks++; if(std::sqrt(best)>b.sep*hole*(1+1e-6)+shift) C.fail("hole",fmt("%s: nothing within %g of %g %g %g, spacing is %g",what.c_str(),std::sqrt(best),p[0],p[1],p[2],b.sep)); } } }
  if(g=="KH"||(B.empty()&&(g=="RT"||g=="sodtube"))){ double dmin=1e300; for(size_t i=0;i<n;++i) for(size_t j=i+1;j<n;++j){ double q=0; for(int d=0;d<D;++d) q+=std::pow(X(i,d)-X(j,d),2); dmin=std::min(dmin,q); } if(std::sqrt(dmin)<1e-6*sep) C.fail("too-close",fmt("%s: two particles are %g apart",what.c_str(),std::sqrt(dmin))); }
  // a driver reads the file on any number of ranks
  if(C.B("read_back",.5)){ write_text("d.par","initial_data_prefix = \"in\"\noutput_h5data_prefix = \"out\"\n"); JobSpec r; r.lib="hydro"+std::to_string(D); r.nranks=(int)C.I("read_ranks",1,5); C.net(r,"read."); r.workload="rawparams d.par\nnew\nread in out 0\nemit parts\n"; JobResult J=C.run(r); map<i64,Row> seen; for(auto&e:J.recs) if(e.key=="parts") for(auto&w:rows(e)) if(!seen.emplace(w.id(),w).second) C.fail("read-twice",what+": a particle is read twice"); if(seen.size()!=n) C.fail("read-count",fmt("%s: %zu of %zu particles read",what.c_str(),seen.size(),n)); for(size_t i=0;i<n;++i){ auto f=seen.find(F.id[i]); if(f==seen.end()) C.fail("read-count",what+": an identifier is not read"); auto*v=f->second.v; C.checks++; if(v[3]!=m[i]||v[4]!=h[i]||v[5]!=rh[i]||v[6]!=P[i]||v[7]!=u[i]) C.fail("read-values",fmt("%s: particle %lld read with other values",what.c_str(),(long long)F.id[i])); for(int d=0;d<D;++d) if(v[9+d]!=X(i,d)||v[12+d]!=vv(i,d)) C.fail("read-values",fmt("%s: particle %lld read at another place or speed",what.c_str(),(long long)F.id[i])); } } }
SCENARIO(p24_gen,"P24",1,"gen_sodtube1","gen_sodtube2","gen_sodtube3","gen_sedov1","gen_sedov2","gen_sedov3","gen_noh1","gen_noh2","gen_noh3","gen_implosion2","gen_implosion3","gen_collapse3","gen_wtunnel2","gen_wtunnel3","gen_KH2","gen_KH3","gen_RT2","gen_RT3","gen_fluid2","gen_fluid3","hydro1","hydro2","hydro3"){ generators(C); }
