/* Forced into every library and driver source: the process-wide calls go to the simulator. */
char *sim_getenv(const char *);
int sim_atexit(void (*)(void));
void sim_exit(int) __attribute__((noreturn));
#ifdef SIM_THREADS
#include <pthread.h>
int sim_thr_create(void *, const void *, void *(*)(void *), void *);
int sim_mutex_init(void *, const void *);
int sim_mutex_lock(void *);
int sim_mutex_unlock(void *);
int sim_mutex_destroy(void *);
int sim_cond_init(void *, const void *);
int sim_cond_wait(void *, void *);
int sim_cond_signal(void *);
int sim_cond_destroy(void *);
#define pthread_create(t, a, f, x) sim_thr_create(t, a, f, x)
#define pthread_mutex_init sim_mutex_init
#define pthread_mutex_lock sim_mutex_lock
#define pthread_mutex_unlock sim_mutex_unlock
#define pthread_mutex_destroy sim_mutex_destroy
#define pthread_cond_init sim_cond_init
#define pthread_cond_wait sim_cond_wait
#define pthread_cond_signal sim_cond_signal
#define pthread_cond_destroy sim_cond_destroy
#endif
