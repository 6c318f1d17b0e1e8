/*
 * One caller of the asynchronous queue; what other threads do happens while the caller waits or before it
 * gets the lock. Two uses:
 *  C24 (GUARD): every operation, every path, with failing waits and failing lock calls.
 *  C27 (CLOCK): a timed pop under an arbitrary clock and an arbitrary timeout.
 */
#include "async_env.h"

#ifndef OPS
#define OPS 2
#endif
#ifndef WAITS
#define WAITS 2 /* waits that end with neither an element nor a timeout */
#endif

#ifdef GUARD
#define LOCKING_ONLY 1 /* what a pop returns is judged elsewhere */
#else
#define LOCKING_ONLY 0
#endif

static int waits_left = WAITS;
static bool inside;        /* another thread's operation is being played */
static bool time_is_over;  /* a wait ended because its time had come */
static bool wait_error;    /* a wait ended with an error other than a timeout */
static bool lock_error;
static uint64_t ids;

/* The clock, in three parts so that every value it shows is simple to express. */
static uint64_t sec, usec, nrest; /* seconds, microseconds, nanoseconds below them */
#ifdef CLOCK
static uint64_t sec0, usec0, nrest0;
static uint32_t ms;
#endif

static int
fails(void)
{
#ifdef FAILURES
	if(!inside && vp_bool())
	{
		lock_error = true;
		vp_abort_ok = true;
		return EINVAL;
	}
#endif
	return 0;
}

int
vp_pthread_mutex_lock(pthread_mutex_t *m)
{
	VP_ASSERT(m == the_mutex, "the queue's lock is used");
	VP_ASSERT(owner == -1, "a thread does not lock twice");
	int rc = fails();
	if(!rc)
	{
		take_lock();
	}
	return rc;
}

int
vp_pthread_mutex_trylock(pthread_mutex_t *m)
{
	return vp_pthread_mutex_lock(m);
}

int
vp_pthread_mutex_unlock(pthread_mutex_t *m)
{
	VP_ASSERT(m == the_mutex && owner == vp_self(), "a thread unlocks only what it holds");
	release_lock();
	return 0;
}

static void
another_thread_pushes(void)
{
	inside = true;
	async_queue_push(&queue, (void *)(uintptr_t)++ids);
	inside = false;
}

static int
wait_on(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts, clockid_t id)
{
	VP_ASSERT(c == the_cond && m == the_mutex && owner == vp_self(), "a thread waits while it holds the lock");
	VP_ASSERT(!ts || id == CLOCK_REALTIME || id == CLOCK_MONOTONIC, "the deadline is given by a clock");
	VP_ASSERT(!time_is_over || LOCKING_ONLY, "a pop does not wait again once its time is over");

#ifdef CLOCK
	VP_ASSERT(ts != NULL, "a timed pop waits with a deadline");
	VP_ASSERT(ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000, "the deadline is a valid time");

	/* the same question in two forms: each is easy for the solver where it is asked */
#if CLOCK == 3
	/* start + timeout, as seconds and nanoseconds */
	uint64_t want_s = sec0 + ms / 1000;
	uint64_t want_n = usec0 * 1000 + (uint64_t)(ms % 1000) * 1000000;

	if(want_n >= 1000000000)
	{
		want_n -= 1000000000;
		++want_s;
	}

	/* a clock of nanoseconds may be used as well as one of microseconds */
	uint64_t n = ts->tv_nsec, s = ts->tv_sec;
	bool same = s == want_s && n >= want_n && n <= want_n + 1000;
	bool next = s == want_s + 1 && n + 1000000000 <= want_n + 1000;
	VP_ASSERT(same || next, "the deadline is the time of the call plus the timeout");
#else
	/* start + timeout in nanoseconds; a clock of nanoseconds may be used as well as one of microseconds */
	VP_ASSERT(ts->tv_sec >= 0 && (uint64_t)ts->tv_sec < (uint64_t)1 << 34, "the deadline is a valid time");
	uint64_t want = sec0 * 1000000000 + usec0 * 1000 + (uint64_t)ms * 1000000;
	uint64_t have = (uint64_t)ts->tv_sec * 1000000000 + (uint64_t)ts->tv_nsec;
	VP_ASSERT(have >= want && have <= want + 1000, "the deadline is the time of the call plus the timeout");
#endif
#endif

	release_lock();
	sec += vp_range(0, 100000); /* time passes */

	int rc = 0;

	switch(vp_choose(0, ts ? 2 : 1))
	{
		case 0: /* an element arrives */
			another_thread_pushes();
#ifdef FAILURES
			if(vp_bool())
			{
				rc = EINVAL;
				wait_error = true;
			}
#endif
			if(ts && !rc && vp_bool())
			{
				/* the element arrives just when the time is over */
				rc = ETIMEDOUT;
				time_is_over = true;
			}
			break;

		case 1: /* a spurious wakeup, an element that another thread takes, or an error */
			VP_ASSUME(waits_left > 0);
			--waits_left;
#ifdef FAILURES
			if(vp_bool())
			{
				rc = EINVAL;
				wait_error = true;
			}
#endif
			break;

		default:
			rc = ETIMEDOUT;
			time_is_over = true;
	}

	if(time_is_over)
	{
		sec = (uint64_t)ts->tv_sec + 1;
	}

	take_lock();

	return rc;
}

int vp_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return wait_on(c, m, NULL, CLOCK_REALTIME); }
int vp_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return wait_on(c, m, ts, cond_clock); }
int vp_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *ts) { return wait_on(c, m, ts, id); }

int
vp_pthread_cond_signal(pthread_cond_t *c)
{
	VP_ASSERT(c == the_cond, "the queue's condition variable is signalled");
	return 0;
}

int
vp_pthread_cond_broadcast(pthread_cond_t *c)
{
	VP_ASSERT(c == the_cond, "the queue's condition variable is signalled");
	return 0;
}

int vp_gettimeofday(struct timeval *tv, void *tz) { (void)tz; tv->tv_sec = sec; tv->tv_usec = usec; return 0; }
int vp_clock_gettime(clockid_t id, struct timespec *ts) { (void)id; ts->tv_sec = sec; ts->tv_nsec = usec * 1000 + nrest; return 0; }
time_t vp_time(time_t *t) { if(t) *t = sec; return sec; }

static int32_t compare(const void *a, const void *b) { return (a > b) - (a < b); }

#ifdef POOL
static Pool *queue_pool(void) { return guarded_pool(); }
#else
static Pool *queue_pool(void) { return NULL; }
#endif

static void
after_operation(void)
{
	VP_ASSERT(owner == -1 || lock_error, "no lock is held after an operation");
	vp_abort_ok = false;
}

void
harness(void)
{
#ifdef CLOCK
	sec0 = sec = vp_range(0, (uint64_t)1 << 33);
#if CLOCK == 3
	static const uint32_t moments[] = {0, 1, 999, 1000, 499999, 500000, 999000, 999001, 999999};
	usec0 = usec = moments[vp_choose(0, sizeof(moments) / sizeof(*moments) - 1)];
#else
	usec0 = usec = vp_range(0, 999999);
#endif
	nrest0 = nrest = vp_range(0, 999);
#if CLOCK >= 2
	static const uint32_t some[] = {1, 2, 10, 100, 499, 999, 1000, 1001, 1500, 1999, 2000, 2500, 59999, 60000, 86400123, 2147483647, 2147483648u, 4294967295u};
	ms = some[vp_choose(0, sizeof(some) / sizeof(*some) - 1)];
#else
	ms = (uint32_t)vp_range(1, UINT32_MAX);
#endif
	(void)nrest0;
#endif

#ifdef FAILURES
	async_queue_init(&queue, compare, NULL, queue_pool());
#else
	bool heap = vp_bool();
	if(heap)
	{
		AsyncQueue *q = async_queue_new(compare, NULL, queue_pool());
		async_queue_push(q, &queue);
		VP_ASSERT(async_queue_count(q) == 1, "one element pushed, one counted");
		async_queue_destroy(q);
		VP_ASSERT(vp_live == 0 && !the_mutex && !the_cond && owner == -1, "destruction releases everything");
		VP_END();
		return;
	}
	async_queue_init(&queue, compare, NULL, queue_pool());
#endif
	queue_share();

#ifdef CLOCK
	void *p = NULL;
	bool r = async_queue_pop_timeout(&queue, &p, ms);

	after_operation();
	if(r)
	{
		VP_ASSERT(ids == 1 && p == (void *)1, "success means an element");
	}
	else
	{
		VP_ASSERT(time_is_over, "failure is reported only once the time has come");
	}
	vp_observe(r);
#else
	for(int i = 0; i < OPS; ++i)
	{
		void *p = NULL;
		bool r;

		time_is_over = wait_error = false;

		switch(vp_choose(0, 4))
		{
			case 0:
				async_queue_push(&queue, (void *)(uintptr_t)++ids);
				break;
			case 1:
				r = async_queue_pop(&queue, &p);
				VP_ASSERT(r || LOCKING_ONLY, "an untimed pop returns an element");
				break;
			case 2:
				r = async_queue_pop_timeout(&queue, &p, 1500);
				VP_ASSERT(r || time_is_over || LOCKING_ONLY, "a timed pop fails only when its time is over");
				break;
			case 3:
				async_queue_clear(&queue);
				break;
			default:
				vp_observe(async_queue_count(&queue));
		}

		after_operation();
		if(lock_error)
		{
			VP_END();
			return;
		}
	}
#endif

	queue_unshare();
	async_queue_free(&queue);
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
