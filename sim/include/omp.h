#ifndef SIM_OMP_H
#define SIM_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
double sim_wtime(void);
#ifdef __cplusplus
}
#endif
typedef struct { int v; } omp_lock_t;
static inline double omp_get_wtime(void) { return sim_wtime(); }
static inline double omp_get_wtick(void) { return 1e-9; }
static inline int omp_get_max_threads(void) { return 1; }
static inline int omp_get_num_threads(void) { return 1; }
static inline int omp_get_thread_num(void) { return 0; }
static inline int omp_in_parallel(void) { return 0; }
static inline void omp_set_num_threads(int n) { (void)n; }
static inline void omp_init_lock(omp_lock_t *l) { l->v = 0; }
static inline void omp_destroy_lock(omp_lock_t *l) { (void)l; }
static inline void omp_set_lock(omp_lock_t *l) { l->v = 1; }
static inline void omp_unset_lock(omp_lock_t *l) { l->v = 0; }
#endif
