// omp.h of builds with clang, which has no OpenMP runtime here: parallel regions run in one thread
#ifndef VF_SHIM_CLANG_OMP_H_
#define VF_SHIM_CLANG_OMP_H_
#include <stdlib.h>
#include <time.h>
#ifdef __cplusplus
extern "C" {
#endif
static int vf_omp_threads_;
static inline int omp_get_max_threads(void)
{
    const char* e = getenv("OMP_NUM_THREADS");
    return vf_omp_threads_ > 0 ? vf_omp_threads_ : e && atoi(e) > 0 ? atoi(e) : 1;
}
static inline void omp_set_num_threads(int n) { vf_omp_threads_ = n; }
static inline void omp_set_dynamic(int n) { (void)n; }
static inline int omp_get_num_procs(void) { return 8; }
static inline int omp_get_num_threads(void) { return 1; }
static inline int omp_get_thread_num(void) { return 0; }
static inline int omp_get_dynamic(void) { return 0; }
static inline int omp_in_parallel(void) { return 0; }
static inline int omp_get_thread_limit(void) { return 1 << 20; }
static inline int omp_get_level(void) { return 0; }
static inline int omp_get_active_level(void) { return 0; }
static inline int omp_get_max_active_levels(void) { return 1; }
static inline void omp_set_max_active_levels(int n) { (void)n; }
static inline int omp_get_nested(void) { return 0; }
static inline void omp_set_nested(int n) { (void)n; }
static inline int omp_get_cancellation(void) { return 0; }
static inline int omp_get_ancestor_thread_num(int n) { return n ? -1 : 0; }
static inline int omp_get_team_size(int n) { return n ? -1 : 1; }
static inline int omp_get_num_teams(void) { return 1; }
static inline int omp_get_team_num(void) { return 0; }
static inline double omp_get_wtick(void) { return 1e-9; }
static inline double omp_get_wtime(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
typedef enum { omp_sched_static = 1, omp_sched_dynamic = 2, omp_sched_guided = 3, omp_sched_auto = 4 } omp_sched_t;
static inline void omp_set_schedule(omp_sched_t k, int n) { (void)k; (void)n; }
static inline void omp_get_schedule(omp_sched_t* k, int* n) { *k = omp_sched_static; *n = 0; }
typedef int omp_lock_t;
typedef int omp_nest_lock_t;
static inline void omp_init_lock(omp_lock_t* l) { *l = 0; }
static inline void omp_destroy_lock(omp_lock_t* l) { (void)l; }
static inline void omp_set_lock(omp_lock_t* l) { *l = 1; }
static inline void omp_unset_lock(omp_lock_t* l) { *l = 0; }
static inline int omp_test_lock(omp_lock_t* l) { return *l ? 0 : (*l = 1); }
static inline void omp_init_nest_lock(omp_nest_lock_t* l) { *l = 0; }
static inline void omp_destroy_nest_lock(omp_nest_lock_t* l) { (void)l; }
static inline void omp_set_nest_lock(omp_nest_lock_t* l) { ++*l; }
static inline void omp_unset_nest_lock(omp_nest_lock_t* l) { --*l; }
static inline int omp_test_nest_lock(omp_nest_lock_t* l) { return ++*l; }
#ifdef __cplusplus
}
#endif
#endif
