/* minimal <omp.h> for producing IR with clang -fopenmp */
#ifndef VERIF_OMP_H
#define VERIF_OMP_H
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_get_max_threads(void);
void omp_set_num_threads(int);
#endif
