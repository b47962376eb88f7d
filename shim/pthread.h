/* Wraps <pthread.h>: cancellation clean-up handlers and mutexes become explicit
 * state of the harness (single symbolic thread of control; other threads and
 * cancellation are injected by the stubs). Used by solver and replay build. */
#ifndef VERIF_SHIM_PTHREAD_H
#define VERIF_SHIM_PTHREAD_H
#include_next <pthread.h>
#include <time.h>
#ifdef __cplusplus
extern "C" {
#endif
void vs_cleanup_push(void (*fn)(void *), void * arg);
void vs_cleanup_pop(int run);
int vs_mutex_lock(pthread_mutex_t * m);
int vs_mutex_unlock(pthread_mutex_t * m);
int vs_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a);
int vs_cond_wait(pthread_cond_t * c, pthread_mutex_t * m);
int vs_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m,
	const struct timespec * ts);
int vs_cond_signal(pthread_cond_t * c);
int vs_cond_broadcast(pthread_cond_t * c);
int vs_setcancelstate(int s, int * old);
void vs_testcancel(void);
int vs_create(pthread_t * t, const pthread_attr_t * a, void * (*fn)(void *),
	void * arg);
int vs_join(pthread_t t, void ** ret);
int vs_timedjoin(pthread_t t, void ** ret, const struct timespec * ts);
int vs_cancel(pthread_t t);
int vs_setname(pthread_t t, const char * n);
#ifdef __cplusplus
}
#endif
#undef pthread_cleanup_push
#undef pthread_cleanup_pop
#define pthread_cleanup_push(f, a) do { vs_cleanup_push((f), (a));
#define pthread_cleanup_pop(x) vs_cleanup_pop(x); } while (0)
#define pthread_mutex_lock vs_mutex_lock
#define pthread_mutex_unlock vs_mutex_unlock
#define pthread_mutex_init vs_mutex_init
#define pthread_cond_wait vs_cond_wait
#define pthread_cond_timedwait vs_cond_timedwait
#define pthread_cond_signal vs_cond_signal
#define pthread_cond_broadcast vs_cond_broadcast
#define pthread_setcancelstate vs_setcancelstate
#define pthread_testcancel vs_testcancel
#define pthread_create vs_create
#define pthread_join vs_join
#define pthread_timedjoin_np vs_timedjoin
#define pthread_cancel vs_cancel
#define pthread_setname_np vs_setname
#endif
