/* Declarations only: lets the clang front end parse the OpenMP sources without libomp's header. */
#ifndef VERIF_OMP_H
#define VERIF_OMP_H
typedef struct { unsigned char _x[4]; } omp_lock_t;
extern void omp_init_lock (omp_lock_t *);
extern void omp_destroy_lock (omp_lock_t *);
extern void omp_set_lock (omp_lock_t *);
extern void omp_unset_lock (omp_lock_t *);
extern int omp_test_lock (omp_lock_t *);
extern int omp_get_num_threads (void);
extern int omp_get_max_threads (void);
extern int omp_get_thread_num (void);
extern int omp_get_num_procs (void);
extern int omp_get_num_devices (void);
extern int omp_is_initial_device (void);
extern void omp_set_num_threads (int);
extern int omp_in_parallel (void);
extern double omp_get_wtime (void);
#endif
