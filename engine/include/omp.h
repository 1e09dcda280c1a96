// Minimal OpenMP user API for instrumented builds (implemented by ompshim.cpp).
#ifndef SYM_OMP_H
#define SYM_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { void* p; } omp_lock_t;
typedef struct { void* p; } omp_nest_lock_t;
int omp_get_max_threads(void); int omp_get_num_threads(void); int omp_get_thread_num(void); int omp_in_parallel(void);
int omp_get_num_procs(void); void omp_set_num_threads(int); double omp_get_wtime(void); double omp_get_wtick(void);
void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); int omp_test_lock(omp_lock_t*);
int omp_get_level(void); int omp_get_thread_limit(void); void omp_set_nested(int); int omp_get_nested(void); void omp_set_dynamic(int); int omp_get_dynamic(void); int omp_in_final(void);
#ifdef __cplusplus
}
#endif
#endif
