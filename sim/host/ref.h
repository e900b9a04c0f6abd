// Executable reference model of the drivers: the published SPH equations, evaluated over all pairs, one process, no tree.
#pragma once
#include "scn.h"
struct RefPar {
  int dim=1; string kernel="wendland_c4"; double eta=1.5,gamma=1.4,alpha=1,beta=2,eps=.01,dt=1e-3,cfl=.25; bool ideal=true,evolve=true,thermo=false,adaptive=false,varh=false,uniformh=false,fmm=false; int passes=1; double G=1; i64 it0=0; double t0=0; int relax=0; double rbeta=0,rgamma=0,rrad=.25,rrep=0; double gacc=0; double L[3]={0,0,0};
  bool ppt=false; double gamma2=2.5,thr=5e14; int sinc=4; bool cullen=false; double amax=1,adelta=1,al=.05;
  string ext; double wn=5,wa=1e12,box[3]={3,1,1},R=1,sep=4,mns=1.3,mwd=1,rho0=1,P0=1,poison=0,mesaq=.5,S=2,T=.05,cam=.1,ax=-1,ay=0,ang=0; string prof="constant"; int pfile=0; // external forces; pfile: the profile is read from a table
  double kw() const { return kernel=="quintic spline"||kernel=="gaussian"||kernel=="super gaussian"? 3 : 2; } bool forced() const { return !ext.empty(); }
};
struct RP { i64 id; int type,state; double x[3],v[3],vh[3],a[3],g[3]; double h,m,rho,P,u,c,e,K,vsig,dudt,dedt,dt,pot,al,div,ddiv; int nn,nmax; double scale_a; };
struct Ref {
  RefPar p; vector<RP> b; i64 it=0; double t=0,dt=0,tnext=0; double Ls=1;
  Ref(const RefPar&q,const vector<Part>&P):p(q){ dt=q.dt; it=q.it0; t=q.t0; for(auto&s:P){ RP r; memset(&r,0,sizeof r); r.id=s.id; r.type=s.type; r.state=s.state; for(int d=0;d<q.dim;++d){ r.x[d]=s.x[d]; r.v[d]=s.v[d]; } r.h=s.h; r.m=s.m; r.rho=s.rho; r.P=s.P; r.u=s.u; r.dt=s.dt; b.push_back(r); } }
  // kernel value and derivative in q=r/h; support h
  void ker(double r,double h,double&W,double&dW) const { double q=r/h; W=dW=0; if(q>=1) return; int D=p.dim; double f,g,s;
    auto pw=[](double x,int n){ double y=1; while(n-->0) y*=x; return y; };
    if(p.kernel=="cubic spline"){ double z=2*q; s=D==1?4./3:D==2?40/(7*M_PI):8/M_PI; if(z<1){ f=1-1.5*z*z+.75*z*z*z; g=2*(-3*z+2.25*z*z); } else { f=.25*pw(2-z,3); g=-1.5*pw(2-z,2); } }
    else if(p.kernel=="quintic spline"){ double z=3*q; s=D==1?1./40:D==2?63/(478*M_PI):81/(359*M_PI); f=pw(3-z,5); g=pw(3-z,4); if(z<2){ f-=6*pw(2-z,5); g-=6*pw(2-z,4); } if(z<1){ f+=15*pw(1-z,5); g+=15*pw(1-z,4); } g*=-15; }
    else if(p.kernel=="gaussian"||p.kernel=="super gaussian"){ bool S=p.kernel[0]=='s'; double z=3*q,e=std::exp(-z*z),H=.5*D+1,n=std::pow(3/std::sqrt(M_PI),D),er=std::erf(3.),ex=std::exp(-9.),sp=std::sqrt(M_PI); // normalised over the sphere of radius h
      double i0= D==1? er : D==2? 1-ex : er-6/sp*ex, i1; i1= D==1? .5*er-3/sp*ex : D==2? 1-10*ex : 1.5*er-ex*(9+54)/sp; s= S? n/(H*i0-i1) : n/i0; f= S? e*(H-z*z) : e; g= S? 3*e*(-2*z*(H-z*z)-2*z) : -6*z*e; }
    else if(p.kernel=="sinc ker"){ static const double c[3][4]={{-1.5404568e-2,3.6632876e-1,-4.6519576e-4,7.3658324e-2},{5.2245027e-2,1.3090245e-1,1.9358485e-2,-6.1642906e-3},{2.7012593e-2,2.0410827e-2,3.7451957e-3,4.7013839e-2}}; double n=p.sinc,w=std::sqrt(n); const double*k=c[D-1]; s= D==1? 2*(k[0]+k[1]*w+k[2]*n+k[3]/w) : D==2? 4*(k[0]+k[1]*n+k[2]/n+k[3]/(n*n)) : 8*(k[0]+k[1]*w+k[2]*n+k[3]*w*n);
      double z=M_PI*q,S= z<1e-8?1:std::sin(z)/z,dS= z<1e-4? -z/3 : (std::cos(z)-S)/z; f=std::pow(S,n); g=n*std::pow(S,n-1)*dS*M_PI; }
    else { vector<double> c; int n; if(p.kernel=="wendland c2"){ if(D==1){ n=3; c={1,3}; s=1.25; } else { n=4; c={1,4}; s=D==2?7/M_PI:21/(2*M_PI); } }
      else if(p.kernel=="wendland c4"){ if(D==1){ n=5; c={1,5,8}; s=1.5; } else { n=6; c={1,6,35./3}; s=D==2?9/M_PI:495/(32*M_PI); } }
      else { if(D==1){ n=7; c={1,7,19,21}; s=55./32; } else { n=8; c={1,8,25,32}; s=D==2?78/(7*M_PI):1365/(64*M_PI); } }
      double w=0,d=0; for(int i=(int)c.size()-1;i>=0;--i) w=w*q+c[i]; for(int i=(int)c.size()-1;i>=1;--i) d=d*q+i*c[i]; f=pw(1-q,n)*w; g=-n*pw(1-q,n-1)*w+pw(1-q,n)*d; }
    W=s*f/std::pow(h,D); dW=s*g/std::pow(h,D+1); }
  double dist(const RP&a,const RP&q,double*r) const { double d2=0; for(int d=0;d<p.dim;++d){ r[d]=a.x[d]-q.x[d]; if(p.L[d]>0) r[d]-=p.L[d]*std::round(r[d]/p.L[d]); d2+=r[d]*r[d]; } return std::sqrt(d2); }
  double dot(const double*a,const double*c) const { double s=0; for(int d=0;d<p.dim;++d) s+=a[d]*c[d]; return s; }
  void eos(RP&a){ if(p.ideal){ a.P=(p.gamma-1)*a.rho*a.u; a.c=std::sqrt(p.gamma*(p.gamma-1)*a.u); } else if(p.ppt&&a.rho>=p.thr){ double K2=a.K*std::pow(p.thr,p.gamma-p.gamma2); a.P=K2*std::pow(a.rho,p.gamma2); a.c=std::sqrt(p.gamma2*a.P/a.rho); } else { a.P=a.K*std::pow(a.rho,p.gamma); a.c=std::sqrt(a.K*p.gamma*std::pow(a.rho,p.gamma-1)); } }
  void density(){ for(auto&a:b){ a.rho=0; a.nn=a.nmax=0; for(auto&q:b){ double r[3],d=dist(a,q,r),W,dW; ker(d,.5*(a.h+q.h),W,dW); a.rho+=q.m*W; if(d<=.5*(a.h+q.h)) a.nn++; if(d<=std::max(a.h,q.h)) a.nmax++; } if(p.evolve&&p.thermo) recover(a); eos(a); }
    for(auto&a:b){ a.vsig=0; for(auto&q:b) if(&q!=&a){ double r[3],d=dist(a,q,r); if(d>.5*(a.h+q.h)) continue; double vr=0; for(int k=0;k<p.dim;++k) vr+=(a.v[k]-q.v[k])*r[k]/d; a.vsig=std::max(a.vsig,std::max(a.c,q.c)-std::min(vr,0.)); } } if(p.cullen) for(auto&a:b){ double s=0; for(auto&q:b) if(&q!=&a){ double r[3],d=dist(a,q,r),W,dW; ker(d,.5*(a.h+q.h),W,dW); for(int k=0;k<p.dim;++k) s+=q.m*(q.v[k]-a.v[k])*r[k]/d*dW; } s/=a.rho; a.ddiv=(s-a.div)/dt; a.div=s; } }
  void alpha(){ // Cullen & Dehnen (2010): switch on the rate of change of the velocity divergence, limited by shear
    for(auto&a:b){ double G[9]={0},R=0; for(auto&q:b){ double r[3],d=dist(a,q,r),W,dW; ker(d,.5*(a.h+q.h),W,dW); R+=(q.div>0?1:q.div<0?-1:0)*q.m*W/a.rho; if(&q!=&a) for(int i=0;i<p.dim;++i) for(int j=0;j<p.dim;++j) G[3*i+j]+=q.m*(q.v[i]-a.v[i])*dW*r[j]/d/a.rho; }
      double tr=0; for(int i=0;i<p.dim;++i) for(int j=0;j<p.dim;++j){ double s=.5*(G[3*i+j]+G[3*j+i])-(i==j?a.div/p.dim:0); tr+=s*s; } double y=2*std::pow(1-R,4)*a.div; y*=y; double A=(y<1e-16?0:y/(y+tr))*std::max(-a.ddiv,0.),l=A>0? p.amax*A/(p.adelta*a.vsig*a.vsig/(a.h*a.h)+A):0; if(a.al<=l) a.al=l; else { double tau=a.h/(2*p.al*a.vsig); a.al=l+(a.al-l)*std::exp(-dt/tau); } } }
  // external forces: potential, and acceleration as its negative gradient
  double prof(double x) const { if(p.prof=="parabolic") return 1-x*x; if(p.prof=="mesa"){ double r0=1-p.mesaq; return x<r0?1: x<.9999? 1-(x-r0)*(x-r0)/(p.mesaq*p.mesaq):0; } return 1; }
  double dprof(double x) const { if(p.prof=="parabolic") return -2*x; if(p.prof=="mesa"){ double r0=1-p.mesaq; return x>r0&&x<.9999? -2*(x-r0)/(p.mesaq*p.mesaq):0; } return 0; }
  double ext(const double*x,double*g) const { double f=0; int D=p.dim; for(int k=0;k<3;++k) g[k]=0; double r=0; for(int k=0;k<D;++k) r+=x[k]*x[k]; r=std::sqrt(r); size_t i=0; while(i<=p.ext.size()&&!p.ext.empty()){ size_t e=p.ext.find(',',i); if(e==string::npos) e=p.ext.size(); string n=p.ext.substr(i,e-i); for(auto&c:n) c=tolower(c); i=e+1;
      if(n=="gravity"){ int k=D>1; f+=p.gacc*x[k]; g[k]-=p.gacc; } else if(n=="poison") f+=p.poison;
      else if(n.substr(0,6)=="walls:"){ for(char c:n.substr(6)){ int k=c-'x'; double o=std::fabs(x[k])-.5*p.box[k]; if(o>0){ f+=p.wa*std::pow(o,p.wn); g[k]-=(x[k]>0?1:-1)*p.wa*p.wn*std::pow(o,p.wn-1); } } }
      else { if(n=="spherical density support"){ double K=p.P0/std::pow(p.rho0,p.gamma),z=r/p.R,rho=p.rho0*prof(z); if(rho>0){ f-=K*p.gamma/(p.gamma-1)*std::pow(rho,p.gamma-1); if(z>1e-12) for(int k=0;k<D;++k) g[k]+=K*p.gamma*std::pow(rho,p.gamma-2)*p.rho0/p.R*dprof(z)*x[k]/r; } }
        if(n[0]=='s'&&r>p.R){ f+=p.wa*std::pow(r-p.R,p.wn); for(int k=0;k<D;++k) g[k]-=p.wa*p.wn*std::pow(r-p.R,p.wn-1)*x[k]/r; }
        if(n=="orbit"){ double y[3]={x[0]-p.sep,D>1?x[1]:0,D>2?x[2]:0},d=std::sqrt(y[0]*y[0]+y[1]*y[1]+y[2]*y[2]),M=p.mns+p.mwd,w=p.G*M/(p.sep*p.sep*p.sep),c=p.sep*p.mns/M; f-=p.G*p.mns/d+.5*w*((x[0]-c)*(x[0]-c)+x[1]*x[1]); for(int k=0;k<D;++k) g[k]-=p.G*p.mns*y[k]/(d*d*d); g[0]+=w*(x[0]-c); g[1]+=w*x[1]; }
        if(n=="airfoil"){ double t=p.ang*M_PI/180,X=(x[0]-p.ax)*std::cos(t)+(x[1]-p.ay)*std::sin(t),Y=-(x[0]-p.ax)*std::sin(t)+(x[1]-p.ay)*std::cos(t); if(std::fabs(Y)<5*p.T&&X>-.02*p.S&&X<p.S){ double c=p.cam*std::sin(M_PI*X/2),dc=p.cam*M_PI/2*std::cos(M_PI*X/2),U2=p.T*p.T*X*X*(p.S*p.S-X*X),q=U2-(Y-c)*(Y-c)+.002; if(q>0){ double dX=p.T*p.T*(2*X*p.S*p.S-4*X*X*X)+2*(Y-c)*dc,dY=-2*(Y-c),z=-p.wn*p.wa*std::pow(q,p.wn-1); f+=p.wa*std::pow(q,p.wn); g[0]+=z*(dX*std::cos(t)-dY*std::sin(t)); g[1]+=z*(dX*std::sin(t)+dY*std::cos(t)); } } } } } return f; }
  double epot(const RP&a) const { double g[3]; return ext(a.x,g); }
  double umin=1; // smallest internal energy recovered at any stage
  void recover(RP&a){ a.u=a.e-.5*dot(a.v,a.v)-epot(a); umin=std::min(umin,a.u); }
  double visc(const RP&a,const RP&q,const double*r){ double v[3]; for(int k=0;k<p.dim;++k) v[k]=a.vh[k]-q.vh[k]; double vr=dot(v,r),h=.5*(a.h+q.h); if(vr>=0) return 0; double mu=h*vr/(dot(r,r)+p.eps*h*h); if(p.cullen) return -.5*(a.al+q.al)*(.5*(a.c+q.c)-2*mu)*mu/(.5*(a.rho+q.rho)); return (-p.alpha*.5*(a.c+q.c)+p.beta*mu)*mu/(.5*(a.rho+q.rho)); }
  void accel(){ for(auto&a:b){ double s[3]={0,0,0}; a.scale_a=0; for(auto&q:b) if(&q!=&a){ double r[3],d=dist(a,q,r),W,dW,h=.5*(a.h+q.h); if(d>=h) continue; ker(d,h,W,dW); double f=-q.m*(a.P/(a.rho*a.rho)+q.P/(q.rho*q.rho)+visc(a,q,r))*dW/d; for(int k=0;k<p.dim;++k) s[k]+=f*r[k]; a.scale_a+=std::fabs(f)*d; } for(int k=0;k<3;++k){ a.a[k]=k<p.dim?s[k]:0; a.g[k]=0; } a.pot=0;
      double g[3]; ext(a.x,g); for(int k=0;k<p.dim;++k){ a.a[k]+=g[k]; a.scale_a+=std::fabs(g[k]); } }
    if(p.fmm) for(auto&a:b) for(auto&q:b) if(&q!=&a){ double r[3],d=dist(a,q,r); for(int k=0;k<3;++k) a.g[k]-=p.G*q.m*r[k]/(d*d*d); a.pot-=p.G*q.m/d; a.scale_a+=p.G*q.m/(d*d); }
    if(it<p.relax){ for(auto&a:b){ double vv=dot(a.v,a.v); for(int k=0;k<p.dim;++k) a.a[k]-=(p.rbeta+p.rgamma*vv)*a.v[k]; double s[3]={0,0,0}; for(auto&q:b) if(&q!=&a){ double r[3],d=dist(a,q,r); if(d>.5*(a.h+q.h)*p.rrad) continue; for(int k=0;k<p.dim;++k) s[k]+=q.m*r[k]/(d*d*d); } for(int k=0;k<p.dim;++k) a.a[k]+=p.rrep*s[k]; } } }
  void rates(){ for(int m=0;m<p.passes;++m){ 
      for(auto&a:b){ double s=0,w=0; a.dedt=0; for(auto&q:b) if(&q!=&a){ double r[3],d=dist(a,q,r),W,dW,h=.5*(a.h+q.h); if(d>=h) continue; ker(d,h,W,dW); double pi=visc(a,q,r),va=dot(a.v,r)*dW/d,vb=dot(q.v,r)*dW/d; s+=q.m*(va-vb); w+=q.m*(va-vb)*pi; double A=a.P/(a.rho*a.rho),B=q.P/(q.rho*q.rho); a.dedt-=q.m*(A*vb+B*va+.5*pi*(va+vb)); }
        a.dudt= it<p.relax? 0 : a.P/(a.rho*a.rho)*s+.5*w; a.dedt+=dot(a.g,a.v); if(it<p.relax){ double vv=dot(a.v,a.v),dr=-(p.rbeta+p.rgamma*vv)*vv; a.dudt+=dr; a.dedt+=dr; } }
      for(auto&a:b){ double u,k; if(p.thermo){ double f[3]; ext(a.x,f); u=a.u; k=a.dedt-dot(a.v,a.a)-dot(a.v,a.g)+dot(a.v,f); } else { u=a.u; k=a.dudt; } a.u=u+.5*dt*k; eos(a); a.u=u; } } }
  void mindt(){ double mn=1e24; double eta=p.eta*p.kw(); for(auto&a:b){ double dx=a.h/eta,vn=std::sqrt(dot(a.v,a.v)),ac[3]; for(int k=0;k<3;++k) ac[k]=a.a[k]+a.g[k]; double an=std::sqrt(ac[0]*ac[0]+ac[1]*ac[1]+ac[2]*ac[2]); a.dt=p.cfl*std::min(std::min(dx/(vn+1e-24),std::sqrt(dx/(an+1e-24))),dx/(1e-24+a.vsig*(1+.6*p.alpha)));
      if(p.evolve&&p.thermo){ for(int i=0;i<20;++i){ RP z=a; for(int k=0;k<p.dim;++k) z.x[k]+=a.dt*a.v[k]; if(epot(z)-epot(a)-a.dt*dot(a.v,a.g)<.5*a.u) break; a.dt*=.25; } }
      mn=std::min(mn,a.dt); }
    if(mn<dt) dt=std::min(mn,dt/2); if(mn>2*dt) dt=dt*2; tnext=t+dt; }
  void set_e(){ for(auto&a:b) a.e=a.u+.5*dot(a.v,a.v)+epot(a); }
  void step(){ // one pass of the driver loop up to (not including) the output
    if(it==p.it0){ for(auto&a:b) a.K= p.ppt&&a.rho>=p.thr? a.P/std::pow(a.rho,p.gamma2)*std::pow(p.thr,p.gamma2-p.gamma) : a.P/std::pow(a.rho,p.gamma); if(p.thermo) set_e(); density(); for(auto&a:b) memcpy(a.vh,a.v,sizeof a.v); if(p.cullen) alpha(); accel(); if(p.thermo&&p.fmm) set_e(); if(p.adaptive) mindt(); if(p.evolve) rates(); }
    else { auto kv=[&]{ for(auto&a:b) for(int k=0;k<p.dim;++k) a.v[k]+=.5*dt*(a.a[k]+a.g[k]); }; auto ku=[&]{ if(p.evolve) for(auto&a:b){ if(p.thermo) a.e+=.5*dt*a.dedt; else a.u+=.5*dt*a.dudt; } };
      ku(); kv(); for(auto&a:b){ memcpy(a.vh,a.v,sizeof a.v); for(int k=0;k<p.dim;++k) a.x[k]+=dt*a.v[k]; } density(); if(p.cullen) alpha(); accel(); kv(); if(p.evolve){ rates(); ku(); if(p.thermo) for(auto&a:b) recover(a); } }
    if(p.varh||p.uniformh){ double s=0; for(auto&a:b){ a.h=std::pow(a.m/a.rho,1./p.dim)*p.eta*p.kw(); s+=a.h; } if(!p.varh) for(auto&a:b) a.h=s/b.size(); }
  }
  void advance(){ if(p.adaptive){ mindt(); t=tnext; } else t+=dt; ++it; }
  double total_energy() const { double E=0; for(auto&a:b){ E+=a.m*(p.thermo? a.e : .5*dot(a.v,a.v)+a.u+epot(a)); if(p.fmm) E+=.5*a.m*a.pot; } return E; }
};
