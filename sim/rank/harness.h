// Rank-side harness: interprets a small script of operations on the real FleCSPH classes.
// Included after a driver source file (which pulls in the whole of the code under test).
#include "sim.h"
#include <sstream>
#include <cstring>
static inline uint64_t hx_mix(uint64_t x){ x^=x>>30; x*=0xbf58476d1ce4e5b9ULL; x^=x>>27; x*=0x94d049bb133111ebULL; return x^(x>>31); }
// deterministic payload value of particle id in round k, component j (the host computes the same)
static inline double hx_field(int64_t id,int k,int j){ uint64_t h=hx_mix(hx_mix((uint64_t)id*1000003ULL+k*7919ULL)+j*104729ULL); return 0.5+(double)(h>>12)*(1.0/4503599627370496.0); }
static uint64_t hx_hash(const double*p,int n,int64_t type){ uint64_t h=0x12345; for(int i=0;i<n;++i){ uint64_t w; memcpy(&w,&p[i],8); h=hx_mix(h*31+w); } return hx_mix(h+type); }
// payload of a particle as seen by anybody: position, velocity, velocityhalf, h, mass, rho, P, cs, u, alpha
static int hx_payload(const body&b,double*p){ int n=0; for(size_t d=0;d<gdimension;++d) p[n++]=b.coordinates()[d]; for(size_t d=0;d<gdimension;++d) p[n++]=b.getVelocity()[d]; for(size_t d=0;d<gdimension;++d) p[n++]=b.getVelocityhalf()[d]; p[n++]=b.radius(); p[n++]=b.mass(); p[n++]=b.getDensity(); p[n++]=b.getPressure(); p[n++]=b.getSoundspeed(); p[n++]=b.getInternalenergy(); p[n++]=b.getAlpha(); return n; }
static const int HX_NB=24;
static void hx_rec(body&b,double*o){ memset(o,0,HX_NB*8); o[0]=b.id(); o[1]=b.getType(); o[2]=b.state(); o[3]=b.mass(); o[4]=b.radius(); o[5]=b.getDensity(); o[6]=b.getPressure(); o[7]=b.getInternalenergy(); o[8]=b.getDt(); for(size_t d=0;d<gdimension;++d){ o[9+d]=b.coordinates()[d]; o[12+d]=b.getVelocity()[d]; o[15+d]=b.getAcceleration()[d]; o[18+d]=b.getGAcceleration()[d]; } o[21]=b.getGPotential(); o[22]=b.getNeighbors(); o[23]=b.getSoundspeed(); }
struct HxRun {
  typedef body_system<double,gdimension> BS; std::unique_ptr<BS> bs; int rank,size;
  void emit(const std::string&k,const void*p,size_t n){ sim_emit(k.c_str(),p,n); }
  void emit_bodies(const std::string&tag){ auto&B=bs->getLocalbodies(); std::vector<double> o(B.size()*HX_NB); for(size_t i=0;i<B.size();++i) hx_rec(B[i],&o[i*HX_NB]); emit(tag,o.data(),o.size()*8); }
  void op(const std::string&line){
    std::istringstream s(line); std::string c; s>>c; if(c.empty()) return;
    if(c=="params"){ std::string f; s>>f; param::mpi_read_params(f.c_str()); set_derived_params(); }
    else if(c=="rawparams"){ std::string f; s>>f; param::mpi_read_params(f.c_str()); }
    else if(c=="new"){ bs.reset(); bs.reset(new BS); }
    else if(c=="free"){ bs.reset(); }
    else if(c=="read"){ std::string a,b; int it; s>>a>>b>>it; bs->read_bodies(a.c_str(),b.c_str(),it); double t[3]={(double)physics::iteration,physics::totaltime,physics::dt}; emit("readtime",t,24); int64_t n[2]={bs->getNBodies(),bs->getNLocalBodies()}; emit("readn",n,16); }
    else if(c=="write"){ std::string a; int it; double t; s>>a>>it>>t; bs->write_bodies(a.c_str(),it,t); }
    else if(c=="settime"){ double it,t,dt; s>>it>>t>>dt; physics::iteration=(int64_t)it; physics::totaltime=t; physics::dt=dt; }
    else if(c=="set"){ // per-id table: x3 v3 h m, base id in first entry
      std::string k; s>>k; size_t nb; const double*t=(const double*)sim_in(k.c_str(),&nb); 
      for(auto&b:bs->getLocalbodies()){ if(b.getType()==particle_type_t::WALL) continue; size_t i=(size_t)b.id()-(size_t)t[0]; const double*r=t+1+8*i; if((1+8*(i+1))*8>nb) sim_fail("harness","id outside the table"); point_t x,v; for(size_t d=0;d<gdimension;++d){ x[d]=r[d]; v[d]=r[3+d]; } b.set_coordinates(x); b.setVelocity(v); b.set_radius(r[6]); b.set_mass(r[7]); } }
    else if(c=="exchange"){ // move every particle to the rank given by the table (id-indexed int32)
      std::string k; s>>k; size_t nb; const int32_t*t=(const int32_t*)sim_in(k.c_str(),&nb); auto&B=bs->getLocalbodies(); std::vector<std::vector<body>> o(size); for(auto&b:B) o[t[b.id()-t[0]+1]%size].push_back(b);
      std::vector<int> sc(size),sd(size),rc(size),rd(size); for(int i=0;i<size;++i) sc[i]=o[i].size()*sizeof(body); MPI_Alltoall(sc.data(),1,MPI_INT,rc.data(),1,MPI_INT,MPI_COMM_WORLD); std::vector<body> f; int p=0,q=0; for(int i=0;i<size;++i){ sd[i]=p; p+=sc[i]; rd[i]=q; q+=rc[i]; f.insert(f.end(),o[i].begin(),o[i].end()); }
      B.assign(q/sizeof(body),body()); MPI_Alltoallv(f.data(),sc.data(),sd.data(),MPI_BYTE,B.data(),rc.data(),rd.data(),MPI_BYTE,MPI_COMM_WORLD); }
    else if(c=="shuffle"){ uint64_t seed; s>>seed; auto&B=bs->getLocalbodies(); for(size_t i=B.size();i>1;--i){ seed=hx_mix(seed+i+rank*77); std::swap(B[i-1],B[seed%i]); } }
    else if(c=="update"){ bs->update_iteration(); int64_t n[2]={bs->getNBodies(),bs->getNLocalBodies()}; emit("counts",n,16); }
    else if(c=="reset") bs->reset_ghosts();
    else if(c=="field"){ int k; s>>k; for(auto&b:bs->getLocalbodies()){ int64_t id=b.id(); b.setDensity(hx_field(id,k,0)); b.setPressure(hx_field(id,k,1)); b.setSoundspeed(hx_field(id,k,2)); b.setInternalenergy(hx_field(id,k,3)); b.setAlpha(hx_field(id,k,4)); point_t v,w; for(size_t d=0;d<gdimension;++d){ v[d]=hx_field(id,k,5+d); w[d]=hx_field(id,k,8+d); } b.setVelocity(v); b.setVelocityhalf(w); } }
    else if(c=="afield"){ int k; s>>k; for(auto&b:bs->getLocalbodies()){ int64_t id=b.id(); point_t v,w; for(size_t d=0;d<gdimension;++d){ v[d]=hx_field(id,k,20+d); w[d]=hx_field(id,k,23+d); } b.setAcceleration(v); b.setGAcceleration(w); b.setDt(hx_field(id,k,26)); b.setNeighbors((int)(hx_field(id,k,27)*1000)); b.setType(hx_field(id,k,28)<.7?particle_type_t::WALL:particle_type_t::NORMAL); b.set_state((int)(hx_field(id,k,29)*100)); } }
    else if(c=="ngb"){ std::string tag; s>>tag; std::vector<int64_t> o; int64_t calls=0;
      bs->apply_in_smoothinglength([&](body&b,std::vector<body*>&nb){ ++calls; o.push_back(b.id()); o.push_back(nb.size()); for(auto*n:nb){ double p[32]; int m=hx_payload(*n,p); o.push_back(n->id()); o.push_back((int64_t)hx_hash(p,m,n->getType())); } });
      emit(tag,o.data(),o.size()*8); 
      std::vector<int64_t> w; for(auto&b:bs->getLocalbodies()){ double p[32]; int m=hx_payload(b,p); w.push_back(b.id()); w.push_back((int64_t)hx_hash(p,m,b.getType())); } emit(tag+".own",w.data(),w.size()*8); }
    else if(c=="emit"){ std::string t; s>>t; emit_bodies(t); }
    else if(c=="keys"){ std::string t; s>>t; std::vector<uint64_t> o; for(auto&b:bs->getLocalbodies()){ o.push_back((uint64_t)b.key().value()); o.push_back(b.id()); } emit(t,o.data(),o.size()*8); auto&rg=bs->tree()->range(); double g[6]={}; for(size_t d=0;d<gdimension;++d){ g[d]=rg[0][d]; g[3+d]=rg[1][d]; } emit(t+".range",g,48); }
    else if(c=="root"){ std::string t; s>>t; auto*r=bs->tree()->root_node(); double o[16]={}; o[0]=r->mass(); o[1]=r->sub_entities(); o[2]=r->radius(); for(size_t d=0;d<gdimension;++d){ o[3+d]=r->coordinates()[d]; o[6+d]=r->bmin()[d]; o[9+d]=r->bmax()[d]; } o[12]=r->lap(); emit(t,o,13*8); 
      auto&rg=bs->tree()->range(); double g[6]={}; for(size_t d=0;d<gdimension;++d){ g[d]=rg[0][d]; g[3+d]=rg[1][d]; } emit(t+".range",g,48); }
    else if(c=="grav"){ double mac; s>>mac; bs->setMacangle(mac); for(auto&b:bs->getLocalbodies()){ b.setGAcceleration(point_t{}); b.setGPotential(0); } bs->gravitation_fmm(); }
    else if(c=="barrier") MPI_Barrier(MPI_COMM_WORLD);
    else if(c=="phys"){ std::string f; s>>f;
      if(f=="eosinit") bs->apply_all(eos::init); else if(f=="density") bs->apply_in_smoothinglength(physics::compute_density_pressure_soundspeed);
      else if(f=="accel") bs->apply_in_smoothinglength(physics::compute_acceleration); else if(f=="vhalf") bs->apply_all(integration::save_velocityhalf);
      else if(f=="smooth") bs->get_all(physics::compute_smoothinglength); else if(f=="avgsmooth") bs->get_all(physics::compute_average_smoothinglength,bs->getNBodies());
      else if(f=="dt"){ bs->apply_all(physics::compute_dt); bs->get_all(physics::set_adaptive_timestep); double o[2]={physics::dt,physics::totaltime}; emit("dt",o,16); }
      else if(f=="advance") physics::advance_time();
      else sim_fail("harness",("unknown phys "+f).c_str()); }
    else if(c=="scalar") analysis::scalar_output(*bs,rank);
    else if(c=="diag") diagnostic::output(*bs,rank);
    else if(c=="h5out") analysis::h5data_output(*bs,rank);
    else if(c=="paramdump"){ std::string t; s>>t; std::ostringstream o; o.precision(17); using namespace param; 
      o<<initial_iteration<<' '<<final_iteration<<' '<<initial_time<<' '<<final_time<<' '<<initial_dt<<' '<<adaptive_timestep<<' '<<timestep_cfl_factor<<' '<<sph_eta<<' '<<sph_kernel<<' '<<sph_variable_h<<' '<<sph_update_uniform_h<<' '<<box_length<<' '<<box_width<<' '<<box_height<<' '<<periodic_boundary_x<<periodic_boundary_y<<periodic_boundary_z<<' '<<initial_data_prefix<<' '<<output_h5data_prefix<<' '<<out_screen_every<<' '<<out_scalar_every<<' '<<out_diagnostic_every<<' '<<out_h5data_every<<' '<<out_h5data_dt<<' '<<out_h5data_separate_iterations<<' '<<evolve_internal_energy<<' '<<thermokinetic_formulation<<' '<<sph_viscosity<<' '<<sph_viscosity_alpha<<' '<<poly_gamma<<' '<<enable_fmm<<' '<<fmm_macangle;
      std::string x=o.str(); emit(t,x.data(),x.size()); }
    else if(c=="driver"){ std::string f; s>>f; flecsi::execution::mpi_init_task(f.c_str()); double t[3]={(double)physics::iteration,physics::totaltime,physics::dt}; emit("end",t,24); }
    else if(c=="sort"){ // psort directly on a plain record type: blob rec<rank> of (key,id,payload), dist = blob dist
      struct R{ uint64_t key; int64_t id; uint64_t pay; }; size_t nb; std::string k="rec"+std::to_string(rank); const R*t=(const R*)sim_in(k.c_str(),&nb); std::vector<R> v(t,t+nb/sizeof(R)); const int32_t*dd=(const int32_t*)sim_in("dist",&nb); std::vector<int> dist(dd,dd+size);
      psort::psort(v,[](auto&a,auto&b){ if(a.key<b.key) return true; if(a.key==b.key) return a.id<b.id; return false; },dist.data()); emit("sorted",v.data(),v.size()*sizeof(R)); }
    else sim_fail("harness",("unknown op "+c).c_str());
  }
};
extern "C" void sim_rank_main(const char*w){
  int r; MPI_Init(nullptr,nullptr); log_set_output_rank(0);
  { HxRun h; MPI_Comm_rank(MPI_COMM_WORLD,&h.rank); MPI_Comm_size(MPI_COMM_WORLD,&h.size);
    std::istringstream s(w); std::string line; while(std::getline(s,line,'\n')) h.op(line); }
  (void)r; MPI_Finalize();
}
