// Stand-in for the OpenMP header (the runtime is the engine's, or engine/native_omp.cpp)
#ifndef V_OMP_H
#define V_OMP_H
extern "C" {
int omp_get_thread_num(void);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_num_threads(int);
void omp_set_dynamic(int);
}
#endif
