#pragma once
extern "C" { int omp_get_max_threads(); int omp_get_num_threads(); int omp_get_thread_num(); void omp_set_num_threads(int); int omp_get_num_procs(); double omp_get_wtime(); int omp_in_parallel(); typedef int omp_lock_t; void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); inline void omp_init_lock(omp_lock_t*){} inline void omp_destroy_lock(omp_lock_t*){} inline void omp_set_nested(int){} inline void omp_set_dynamic(int){} inline void omp_set_max_active_levels(int){} }
