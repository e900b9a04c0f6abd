// An initial data generator as a rank program: its main() is called with one parameter file.
#define main gen_main
#include GEN_MAIN
#undef main
#include "sim.h"
extern "C" void sim_rank_main(const char*w){ std::string a="generator",f(w); while(!f.empty()&&(f.back()=='\n'||f.back()==' ')) f.pop_back(); char*v[]={&a[0],&f[0],nullptr}; gen_main(2,v); }
