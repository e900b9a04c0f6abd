// API between rank-side harness code and the simulator host.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
int sim_rank(void); int sim_nranks(void);
const void * sim_in(const char * key, size_t * bytes); // job input blob (NULL if absent)
double sim_inf(const char * key, double dflt);          // scalar job input
void sim_emit(const char * key, const void * p, size_t bytes); // append to the recorded history
void sim_fail(const char * cls, const char * msg);      // rank-side invariant violated
void sim_yield(void);
double sim_wtime(void);
void sim_rank_main(const char * workload);              // provided by the rank library
#ifdef __cplusplus
}
#endif
