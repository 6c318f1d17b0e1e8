/* Environment model shared by every harness; see vp_interpose.h and vp.h. */
#define VP_NO_INTERPOSE
#include "vp_interpose.h"
#include <stdarg.h>
#include "vp.h"

long vp_live;
size_t vp_bytes;
unsigned long vp_nalloc;
bool vp_abort_ok;
bool vp_may_fail;
bool vp_failed;

#if defined(VP_VSE)

uint64_t __vse_range(uint64_t lo, uint64_t hi);
uint64_t __vse_conc(uint64_t v);
void __vse_observe(uint64_t v);
void *__vse_alloc(uint64_t n);
void __vse_free(void *p);
uint64_t __vse_size(void *p);
void __vse_kill(void);
void __vse_guard(void *p, uint64_t n, int on);
int __vse_spawn(void (*fn)(void *), void *arg);
void __vse_yield(void);
void __vse_wait(int *flag);
int __vse_self(void);
uint64_t __vse_work(void);
uint64_t __vse_depth(void);

uint64_t vp_u64(void) { return __vse_range(0, UINT64_MAX); }
uint64_t vp_range(uint64_t lo, uint64_t hi) { return __vse_range(lo, hi); }
uint64_t vp_conc(uint64_t v) { return __vse_conc(v); }
void vp_observe(uint64_t v) { __vse_observe(v); }
void vp_guard(void *p, size_t n, bool on) { __vse_guard(p, n, on); }
int vp_spawn(void (*fn)(void *), void *arg) { return __vse_spawn(fn, arg); }
void vp_yield(void) { __vse_yield(); }
void vp_wait(int *flag) { __vse_wait(flag); }
int vp_self(void) { return __vse_self(); }
uint64_t vp_work(void) { return __vse_work(); }
uint64_t vp_depth(void) { return __vse_depth(); }

static void *raw_malloc(size_t n) { return __vse_alloc(n); }
static void raw_free(void *p) { __vse_free(p); }
static void size_note(void *p, size_t n) { (void)p; vp_bytes += n; }
static void size_forget(void *p) { vp_bytes -= __vse_size(p); }

static void *
raw_calloc(size_t n, size_t m)
{
	void *p = __vse_alloc(n * m);
	memset(p, 0, n * m);
	return p;
}

static void *
raw_realloc(void *p, size_t n)
{
	if(!p)
	{
		return __vse_alloc(n);
	}

	size_t old = __vse_size(p);
	void *q = __vse_alloc(n);

	memcpy(q, p, old < n ? old : n);
	__vse_free(p);

	return q;
}

#elif defined(VP_CBMC)

uint64_t nondet_vp_u64(void);
uint64_t vp_in; /* every symbolic input passes through here, which is how a trace is read back */

uint64_t
vp_u64(void)
{
	vp_in = nondet_vp_u64();
	return vp_in;
}

uint64_t
vp_range(uint64_t lo, uint64_t hi)
{
	uint64_t v = vp_u64();
	__CPROVER_assume(v >= lo && v <= hi);
	return v;
}

uint64_t vp_conc(uint64_t v) { return v; }
void vp_observe(uint64_t v) { (void)v; }

static void *raw_malloc(size_t n) { return malloc(n); }
static void *raw_calloc(size_t n, size_t m) { return calloc(n, m); }
static void *raw_realloc(void *p, size_t n) { return realloc(p, n); }
static void raw_free(void *p) { free(p); }
static void size_note(void *p, size_t n) { (void)p; (void)n; }
static void size_forget(void *p) { (void)p; }

#else

#include <ucontext.h>
#include <malloc.h>

#if defined(__SANITIZE_ADDRESS__)
void __asan_poison_memory_region(void const volatile *addr, size_t size);
void __asan_unpoison_memory_region(void const volatile *addr, size_t size);
#endif

static FILE *vp_fp;
static bool vp_eof;

#ifdef VP_MEASURE
static uint64_t spent;
static char *deepest;
void vp_spend(uint64_t n) { spent += n; }
void
__sanitizer_cov_trace_pc(void)
{
	char *here = __builtin_frame_address(0);
	++spent;
	if(here < deepest)
	{
		deepest = here;
	}
}
uint64_t vp_work(void) { return spent; }
uint64_t
vp_depth(void)
{
	char *here = __builtin_frame_address(0);
	uint64_t d = deepest && deepest < here ? (uint64_t)(here - deepest) / 64 : 0;
	deepest = here;
	return d;
}
#else
uint64_t vp_work(void) { return 0; }
uint64_t vp_depth(void) { return 0; }
#endif

uint64_t
vp_u64(void)
{
	unsigned long long v = 0;

	if(!vp_fp && !vp_eof)
	{
		const char *path = getenv("VP_INPUTS");
		vp_fp = path ? fopen(path, "r") : NULL;
	}

	if(!vp_fp || fscanf(vp_fp, "%llu", &v) != 1)
	{
		vp_eof = true;
		v = 0;
	}

	return v;
}

uint64_t
vp_range(uint64_t lo, uint64_t hi)
{
	uint64_t v = vp_u64();

	vp_native_assume(v >= lo && v <= hi);

	return v;
}

uint64_t vp_conc(uint64_t v) { return v; }

void
vp_observe(uint64_t v)
{
	printf("VP-OBS %llu\n", (unsigned long long)v);
}

void
vp_guard(void *p, size_t n, bool on)
{
#if defined(__SANITIZE_ADDRESS__)
	if(on)
	{
		__asan_poison_memory_region(p, n);
	}
	else
	{
		__asan_unpoison_memory_region(p, n);
	}
#else
	(void)p;
	(void)n;
	(void)on;
#endif
}

void
vp_native_assert(int c, const char *msg, const char *file, int line)
{
	if(!c)
	{
		printf("VP-ASSERTION-FAILED: %s (%s:%d)\n", msg, file, line);
		fflush(stdout);
		_exit(99);
	}
}

void
vp_native_assume(int c)
{
	if(!c)
	{
		printf("VP-ASSUMPTION-FAILED%s\n", vp_eof ? " (inputs exhausted)" : "");
		fflush(stdout);
		_exit(77);
	}
}

void
vp_native_end(void)
{
	printf("VP-END\n");
	fflush(stdout);
	_exit(0);
}

/* Coroutines: thread 0 is the harness itself. */
#define VP_MAX_THREADS 8

static struct
{
	ucontext_t ctx;
	int *flag;
	bool done;
	void (*fn)(void *);
	void *arg;
} vp_thr[VP_MAX_THREADS];

static int vp_nthr = 1;
static int vp_cur;

static void
vp_resched(void)
{
	int run[VP_MAX_THREADS];
	int n = 0, me = vp_cur, pick = 0;

	for(int i = 0; i < vp_nthr; ++i)
	{
		if(!vp_thr[i].done && (!vp_thr[i].flag || *vp_thr[i].flag))
		{
			run[n++] = i;
		}
	}

	if(!n)
	{
		printf("VP-ASSERTION-FAILED: deadlock: every unfinished thread is blocked\n");
		fflush(stdout);
		_exit(99);
	}

	if(n > 1)
	{
		uint64_t k = vp_u64();
		vp_native_assume(k < (uint64_t)n);
		pick = (int)k;
	}

	vp_cur = run[pick];
	vp_thr[vp_cur].flag = NULL;

	if(vp_cur != me)
	{
		swapcontext(&vp_thr[me].ctx, &vp_thr[vp_cur].ctx);
	}
}

static void
vp_thread_main(int id)
{
	vp_thr[id].fn(vp_thr[id].arg);
	vp_thr[id].done = true;
	vp_resched();
}

int
vp_spawn(void (*fn)(void *), void *arg)
{
	int id = vp_nthr++;

	if(id >= VP_MAX_THREADS)
	{
		_exit(98);
	}

	getcontext(&vp_thr[id].ctx);
	vp_thr[id].ctx.uc_stack.ss_size = 1 << 18;
	vp_thr[id].ctx.uc_stack.ss_sp = malloc(1 << 18);
	vp_thr[id].ctx.uc_link = NULL;
	vp_thr[id].fn = fn;
	vp_thr[id].arg = arg;
	makecontext(&vp_thr[id].ctx, (void (*)(void))vp_thread_main, 1, id);

	return id;
}

void
vp_yield(void)
{
	vp_resched();
}

void
vp_wait(int *flag)
{
	vp_thr[vp_cur].flag = flag;
	vp_resched();
}

int
vp_self(void)
{
	return vp_cur;
}

static void *raw_malloc(size_t n) { return malloc(n); }
static void *raw_calloc(size_t n, size_t m) { return calloc(n, m); }
static void *
raw_realloc(void *p, size_t n)
{
#ifdef VP_MEASURE
	spent += p ? malloc_usable_size(p) / 8 : 0;
#endif
	return realloc(p, n);
}
static void raw_free(void *p) { free(p); }

/* The sizes asked for, by block. */
#define SIZES 65536
static struct { void *p; size_t n; } sizes[SIZES];
#define SIZES_GONE ((void *)1)

static void
size_note(void *p, size_t n)
{
	size_t i = ((uintptr_t)p >> 4) % SIZES;

	for(size_t k = 0; p && k < SIZES; ++k, i = (i + 1) % SIZES)
	{
		if(!sizes[i].p || sizes[i].p == SIZES_GONE)
		{
			sizes[i].p = p;
			sizes[i].n = n;
			vp_bytes += n;
			return;
		}
	}
}

static void
size_forget(void *p)
{
	size_t i = ((uintptr_t)p >> 4) % SIZES;

	for(size_t k = 0; k < SIZES && sizes[i].p; ++k, i = (i + 1) % SIZES)
	{
		if(sizes[i].p == p)
		{
			sizes[i].p = SIZES_GONE;
			vp_bytes -= sizes[i].n;
			return;
		}
	}
}

#endif

uint64_t
vp_choose(uint64_t lo, uint64_t hi)
{
	return vp_conc(vp_range(lo, hi));
}

bool
vp_bool(void)
{
	return vp_range(0, 1) != 0;
}

int
vp_int(int lo, int hi)
{
	return (int)vp_range(0, (uint64_t)((int64_t)hi - lo)) + lo;
}

static bool
vp_alloc_fails(void)
{
	++vp_nalloc;

	if(vp_may_fail && vp_bool())
	{
		vp_failed = true;
		errno = ENOMEM;
		return true;
	}

	return false;
}

#ifndef VP_OWN_MEM
void *
vp_malloc(size_t n)
{
	if(vp_alloc_fails())
	{
		return NULL;
	}

	void *p = raw_malloc(n);
	++vp_live;
	size_note(p, n);
	return p;
}

void *
vp_calloc(size_t n, size_t m)
{
	if(vp_alloc_fails())
	{
		return NULL;
	}

	void *p = raw_calloc(n, m);
	++vp_live;
	size_note(p, n * m);
	return p;
}

void *
vp_realloc(void *p, size_t n)
{
	if(vp_alloc_fails())
	{
		return NULL;
	}

	if(!p)
	{
		++vp_live;
	}
	else
	{
		size_forget(p);
	}

	p = raw_realloc(p, n);
	size_note(p, n);
	return p;
}

void
vp_free(void *p)
{
	if(p)
	{
		--vp_live;
		size_forget(p);
	}

	raw_free(p);
}
#endif

static void
vp_process_ends(void)
{
	VP_ASSERT(vp_abort_ok || vp_failed, "the process is not ended by the library");
#if defined(VP_VSE)
	__vse_kill();
#elif defined(VP_CBMC)
	__CPROVER_assume(0);
#else
	printf("VP-ABORT\n");
	fflush(stdout);
	_exit(0);
#endif
}

/* assert() in a source compiled without NDEBUG */
void
__assert_fail(const char *expr, const char *file, unsigned int line, const char *fn)
{
	(void)expr;
	(void)file;
	(void)line;
	(void)fn;
	VP_ASSERT(false, "no assertion of the library fails");
	vp_process_ends();
}

void
vp_abort(void)
{
	vp_process_ends();
}

void
vp_exit(int code)
{
	(void)code;
	vp_process_ends();
}

void
vp_err(int code, const char *fmt, ...)
{
	(void)code;
	(void)fmt;
	vp_process_ends();
}

int
vp_fprintf(FILE *fp, const char *fmt, ...)
{
	(void)fp;
	(void)fmt;
	return 0;
}

void
vp_perror(const char *msg)
{
	(void)msg;
}

void vp_warn(const char *fmt, ...) { (void)fmt; }
int vp_printf(const char *fmt, ...) { (void)fmt; return 0; }
int vp_vfprintf(FILE *fp, const char *fmt, va_list ap) { (void)fp; (void)fmt; (void)ap; return 0; }
int vp_dprintf(int fd, const char *fmt, ...) { (void)fd; (void)fmt; return 0; }
int vp_fputs(const char *s, FILE *fp) { (void)s; (void)fp; return 0; }
int vp_fputc(int c, FILE *fp) { (void)fp; return c; }
int vp_puts(const char *s) { (void)s; return 0; }
size_t vp_fwrite(const void *p, size_t n, size_t m, FILE *fp) { (void)p; (void)n; (void)fp; return m; }
int vp_fflush(FILE *fp) { (void)fp; return 0; }
char *vp_strerror(int e) { static char text[] = "error"; (void)e; return text; }
int vp_sched_yield(void) { return 0; }
int vp_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; return 0; }
int vp_usleep(useconds_t us) { (void)us; return 0; }
int vp_pthread_attr(void *a) { (void)a; return 0; }
int vp_pthread_attr_set(void *a, int v) { (void)a; (void)v; return 0; }

void *
vp_reallocarray(void *p, size_t n, size_t m)
{
	if(m && n > SIZE_MAX / m)
	{
		errno = ENOMEM;
		return NULL;
	}
	return vp_realloc(p, n * m);
}

void *vp_aligned_alloc(size_t a, size_t n) { (void)a; return vp_malloc(n); }

char *
vp_strndup(const char *s, size_t max)
{
	size_t n = 0;

	while(n < max && s[n])
	{
		++n;
	}

	char *d = vp_malloc(n + 1);

	for(size_t i = 0; d && i < n; ++i)
	{
		d[i] = s[i];
	}
	if(d)
	{
		d[n] = 0;
	}
	return d;
}

char *vp_strdup(const char *s) { return vp_strndup(s, SIZE_MAX); }

#if !defined(VP_OWN_POSIX) && !defined(VP_OWN_READ)
ssize_t vp_read(int fd, void *buf, size_t n) { (void)fd; (void)buf; (void)n; return 0; }
#endif
#ifndef VP_OWN_POSIX
/* Defaults for harnesses in which these play no part. */
int vp_gettimeofday(struct timeval *tv, void *tz) { (void)tz; tv->tv_sec = 0; tv->tv_usec = 0; return 0; }
int vp_clock_gettime(clockid_t id, struct timespec *ts) { (void)id; ts->tv_sec = 0; ts->tv_nsec = 0; return 0; }
time_t vp_time(time_t *t) { if(t) *t = 0; return 0; }
int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)m; (void)a; return 0; }
int vp_pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int vp_pthread_mutex_lock(pthread_mutex_t *m) { (void)m; return 0; }
int vp_pthread_mutex_trylock(pthread_mutex_t *m) { (void)m; return 0; }
int vp_pthread_mutex_unlock(pthread_mutex_t *m) { (void)m; return 0; }
int vp_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)c; (void)a; return 0; }
int vp_pthread_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
int vp_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { (void)c; (void)m; return 0; }
int vp_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { (void)c; (void)m; (void)ts; return 0; }
int vp_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *ts) { (void)c; (void)m; (void)id; (void)ts; return 0; }
int vp_pthread_cond_signal(pthread_cond_t *c) { (void)c; return 0; }
int vp_pthread_cond_broadcast(pthread_cond_t *c) { (void)c; return 0; }
int vp_pthread_condattr_init(pthread_condattr_t *a) { (void)a; return 0; }
int vp_pthread_condattr_destroy(pthread_condattr_t *a) { (void)a; return 0; }
int vp_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t id) { (void)a; (void)id; return 0; }
#endif
