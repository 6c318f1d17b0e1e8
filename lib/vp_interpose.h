/*
 * Force-included (-include) when the sources of /repo are compiled for a check,
 * both by goto-cc (symbolic execution) and by gcc/clang (replay). It leaves the
 * code untouched and only redirects the environment: allocation, process exit,
 * diagnostics, time, file reading and POSIX threads go to the stubs in vp_env.c.
 */
#ifndef VP_INTERPOSE_H
#define VP_INTERPOSE_H

#include <stdarg.h>
#include <sched.h>
#include <strings.h>
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <limits.h>
#include <errno.h>
#include <time.h>
#include <sys/types.h>
#include <sys/time.h>
#include <pthread.h>
#include <err.h>
#include <assert.h>

void *vp_malloc(size_t n);
void *vp_calloc(size_t n, size_t m);
void *vp_realloc(void *p, size_t n);
void vp_free(void *p);
void vp_abort(void);
void vp_exit(int code);
int vp_fprintf(FILE *fp, const char *fmt, ...);
void vp_perror(const char *msg);
void vp_err(int code, const char *fmt, ...);
void vp_warn(const char *fmt, ...);
int vp_printf(const char *fmt, ...);
int vp_vfprintf(FILE *fp, const char *fmt, va_list ap);
int vp_dprintf(int fd, const char *fmt, ...);
int vp_fputs(const char *s, FILE *fp);
int vp_fputc(int c, FILE *fp);
int vp_puts(const char *s);
size_t vp_fwrite(const void *p, size_t n, size_t m, FILE *fp);
int vp_fflush(FILE *fp);
char *vp_strerror(int e);
void *vp_reallocarray(void *p, size_t n, size_t m);
void *vp_aligned_alloc(size_t a, size_t n);
char *vp_strdup(const char *s);
char *vp_strndup(const char *s, size_t n);
int vp_sched_yield(void);
int vp_nanosleep(const struct timespec *a, struct timespec *b);
int vp_usleep(useconds_t us);
int vp_pthread_attr(void *a);
int vp_pthread_attr_set(void *a, int v);
ssize_t vp_read(int fd, void *buf, size_t count);
int vp_gettimeofday(struct timeval *tv, void *tz);
int vp_clock_gettime(clockid_t id, struct timespec *ts);
time_t vp_time(time_t *t);
int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a);
int vp_pthread_mutex_destroy(pthread_mutex_t *m);
int vp_pthread_mutex_lock(pthread_mutex_t *m);
int vp_pthread_mutex_trylock(pthread_mutex_t *m);
int vp_pthread_mutex_unlock(pthread_mutex_t *m);
int vp_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a);
int vp_pthread_cond_destroy(pthread_cond_t *c);
int vp_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
int vp_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts);
int vp_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *ts);
int vp_pthread_cond_signal(pthread_cond_t *c);
int vp_pthread_cond_broadcast(pthread_cond_t *c);
int vp_pthread_condattr_init(pthread_condattr_t *a);
int vp_pthread_condattr_destroy(pthread_condattr_t *a);
int vp_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t id);

void *vp_memcpy(void *d, const void *s, size_t n);
void *vp_memmove(void *d, const void *s, size_t n);

#ifndef VP_NO_INTERPOSE
#ifdef VP_MEASURE
void vp_spend(uint64_t n);
#define memcpy(d, s, n) (vp_spend((n) / 8), memcpy(d, s, n))
#define memmove(d, s, n) (vp_spend((n) / 8), memmove(d, s, n))
#define memset(d, c, n) (vp_spend((n) / 8), memset(d, c, n))
#endif
#ifdef VP_OWN_MEM
#define memcpy vp_memcpy
#define memmove vp_memmove
#endif
#define malloc vp_malloc
#define calloc vp_calloc
#define realloc vp_realloc
#define free vp_free
#define abort vp_abort
#define exit vp_exit
#define _exit vp_exit
#define fprintf vp_fprintf
#define perror vp_perror
#define err vp_err
#define errx vp_err
#define warn vp_warn
#define warnx vp_warn
#define printf vp_printf
#define vfprintf vp_vfprintf
#define dprintf vp_dprintf
#define fputs vp_fputs
#define fputc vp_fputc
#define putc vp_fputc
#define puts vp_puts
#define fwrite vp_fwrite
#define fflush vp_fflush
#define strerror vp_strerror
#define reallocarray vp_reallocarray
#define aligned_alloc vp_aligned_alloc
#define strdup vp_strdup
#define strndup vp_strndup
#define quick_exit vp_exit
#define _Exit vp_exit
#define sched_yield vp_sched_yield
#define nanosleep vp_nanosleep
#define usleep vp_usleep
#define pthread_mutexattr_init vp_pthread_attr
#define pthread_mutexattr_destroy vp_pthread_attr
#define pthread_mutexattr_settype vp_pthread_attr_set
#define pthread_mutexattr_setpshared vp_pthread_attr_set
#define pthread_mutexattr_setprotocol vp_pthread_attr_set
#define pthread_mutexattr_setrobust vp_pthread_attr_set
#define pthread_condattr_setpshared vp_pthread_attr_set
#define read vp_read
#define gettimeofday vp_gettimeofday
#define clock_gettime vp_clock_gettime
#define time vp_time
#define pthread_mutex_init vp_pthread_mutex_init
#define pthread_mutex_destroy vp_pthread_mutex_destroy
#define pthread_mutex_lock vp_pthread_mutex_lock
#define pthread_mutex_trylock vp_pthread_mutex_trylock
#define pthread_mutex_unlock vp_pthread_mutex_unlock
#define pthread_cond_init vp_pthread_cond_init
#define pthread_cond_destroy vp_pthread_cond_destroy
#define pthread_cond_wait vp_pthread_cond_wait
#define pthread_cond_timedwait vp_pthread_cond_timedwait
#define pthread_cond_clockwait vp_pthread_cond_clockwait
#define pthread_cond_signal vp_pthread_cond_signal
#define pthread_cond_broadcast vp_pthread_cond_broadcast
#define pthread_condattr_init vp_pthread_condattr_init
#define pthread_condattr_destroy vp_pthread_condattr_destroy
#define pthread_condattr_setclock vp_pthread_condattr_setclock
#endif

#endif
