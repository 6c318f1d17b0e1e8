/*
 * C25, C26 (and C24 with GUARD): PRODUCERS threads push, CONSUMERS threads pop, timed or untimed, under
 * every schedule, with up to SPURIOUS spurious wakeups, timeouts at any moment - also together with a
 * signal - and any choice of the thread a signal wakes.
 */
#include "async_env.h"

#ifndef PRODUCERS
#define PRODUCERS 1
#endif
#ifndef CONSUMERS
#define CONSUMERS 2
#endif
#ifndef PUSHES
#define PUSHES 2 /* each producer */
#endif
#ifndef POPS
#define POPS 1 /* each consumer */
#endif
#ifndef TIMED
#define TIMED 1 /* 0: untimed pops only, 1: either, 2: timed pops only */
#endif
#ifndef SPURIOUS
#define SPURIOUS 1
#endif
#ifndef CLEARS
#define CLEARS 0 /* a further thread clears the queue; timed pops only */
#endif
#ifdef RESCUE
#define TOTAL (PRODUCERS * PUSHES + CONSUMERS * POPS) /* the thread that clears pushes for every pop in the end */
#else
#define TOTAL (PRODUCERS * PUSHES)
#endif
#define THREADS (PRODUCERS + CONSUMERS + (CLEARS ? 1 : 0))

static int spurious = SPURIOUS;
static bool timed_out[MAX_THREADS];
static int done, all_done;
static void *ghost[TOTAL + 1];
static size_t first, last;   /* ghost[first..last) is what the queue holds */
static unsigned char freed[TOTAL + 1];
static uint64_t pushed;

int
vp_pthread_mutex_lock(pthread_mutex_t *m)
{
	VP_ASSERT(m == the_mutex, "the queue's lock is used");
	VP_ASSERT(owner != vp_self(), "a thread does not lock twice");
	vp_yield();
	take_lock();
	return 0;
}

int
vp_pthread_mutex_trylock(pthread_mutex_t *m)
{
	VP_ASSERT(m == the_mutex, "the queue's lock is used");
	vp_yield();
	if(owner != -1)
	{
		return EBUSY;
	}
	take_lock();
	return 0;
}

int
vp_pthread_mutex_unlock(pthread_mutex_t *m)
{
	VP_ASSERT(m == the_mutex && owner == vp_self(), "a thread unlocks only what it holds");
	release_lock();
	return 0;
}

static int
wait_on(pthread_cond_t *c, pthread_mutex_t *m, bool timed)
{
	int me = vp_self();

	VP_ASSERT(c == the_cond && m == the_mutex && owner == me, "a thread waits while it holds the lock");
	in_cond[me] = true;
	signalled[me] = false;
	cond_go[me] = 0;

	bool wake = false; /* may it run again without a signal? */

	if(timed)
	{
		wake = true;
	}
	else if(spurious && vp_bool())
	{
		--spurious;
		wake = true;
	}

	if(wake)
	{
		cond_go[me] = 1;
	}

	release_lock();
	vp_wait(&cond_go[me]);
	in_cond[me] = false;

	int rc = 0;

	if(timed)
	{
		if(!signalled[me])
		{
			rc = ETIMEDOUT;

			if(spurious && vp_bool())
			{
				--spurious;
				rc = 0;
			}
		}
		else if(vp_bool())
		{
			rc = ETIMEDOUT; /* POSIX: a wait that times out may consume a signal */
		}
	}

	timed_out[me] |= rc == ETIMEDOUT;
	take_lock();

	return rc;
}

int vp_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return wait_on(c, m, false); }
int vp_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { (void)ts; return wait_on(c, m, true); }
int vp_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *ts) { (void)id; (void)ts; return wait_on(c, m, true); }

int
vp_pthread_cond_signal(pthread_cond_t *c)
{
	int n = 0, w[MAX_THREADS];

	VP_ASSERT(c == the_cond, "the queue's condition variable is signalled");

	for(int i = 0; i < MAX_THREADS; ++i)
	{
		if(in_cond[i] && !signalled[i])
		{
			w[n++] = i;
		}
	}

	if(n)
	{
		int k = w[n > 1 ? vp_choose(0, n - 1) : 0];
		signalled[k] = true;
		cond_go[k] = 1;
	}

	return 0;
}

int
vp_pthread_cond_broadcast(pthread_cond_t *c)
{
	VP_ASSERT(c == the_cond, "the queue's condition variable is signalled");

	for(int i = 0; i < MAX_THREADS; ++i)
	{
		if(in_cond[i])
		{
			signalled[i] = true;
			cond_go[i] = 1;
		}
	}

	return 0;
}

int vp_gettimeofday(struct timeval *tv, void *tz) { (void)tz; tv->tv_sec = 1000; tv->tv_usec = 0; return 0; }
int vp_clock_gettime(clockid_t id, struct timespec *ts) { (void)id; ts->tv_sec = 1000; ts->tv_nsec = 0; return 0; }
time_t vp_time(time_t *t) { if(t) *t = 1000; return 1000; }

static int32_t compare(const void *a, const void *b) { return (a > b) - (a < b); }

static void
release(void *p)
{
	uint64_t id = (uint64_t)(uintptr_t)p;

	VP_ASSERT(id >= 1 && id <= TOTAL && !freed[id - 1], "an element is released once, by the clear that drops it");
	freed[id - 1] = 1;
}

static void
finished(void)
{
	VP_ASSERT(owner != vp_self(), "no lock is held after an operation");
	if(++done == THREADS)
	{
		all_done = 1;
	}
}

static void
producer(void *arg)
{
	(void)arg;

	for(int i = 0; i < PUSHES; ++i)
	{
		void *p = (void *)(uintptr_t)++pushed;
		async_queue_push(&queue, p);
		ghost[last++] = p;
	}

	finished();
}

static void
consumer(void *arg)
{
	(void)arg;

	for(int i = 0; i < POPS; ++i)
	{
		void *p = &queue;
		timed_out[vp_self()] = false;
		bool timed = TIMED == 2 || (TIMED == 1 && vp_bool());
		bool r = timed ? async_queue_pop_timeout(&queue, &p, 1000) : async_queue_pop(&queue, &p);

		if(r)
		{
			VP_ASSERT(first < last, "no element is invented");
			VP_ASSERT(p == ghost[first], "elements are taken in the order they were pushed");
			++first;
		}
		else
		{
			VP_ASSERT(timed, "an untimed pop returns an element");
			VP_ASSERT(timed_out[vp_self()], "a timed pop fails only when its time is over");
		}
	}

	finished();
}

static void
clearer(void *arg)
{
	(void)arg;

	for(int i = 0; i < CLEARS; ++i)
	{
#ifdef RESCUE
		if(vp_bool())
		{
			VP_ASSERT(async_queue_count(&queue) == last - first, "what is neither taken nor cleared is counted");
			continue;
		}
#endif
		async_queue_clear(&queue);
		while(first < last)
		{
			VP_ASSERT(freed[(uintptr_t)ghost[first] - 1], "clear releases what it drops");
			++first;
		}
	}

#ifdef RESCUE
	for(int i = 0; i < CONSUMERS * POPS; ++i)
	{
		void *p = (void *)(uintptr_t)++pushed;
		async_queue_push(&queue, p);
		ghost[last++] = p;
	}
#endif

	finished();
}

void
harness(void)
{
	async_queue_init(&queue, compare, release, NULL);
	queue_share();

	for(int i = 0; i < CONSUMERS; ++i)
	{
		vp_spawn(consumer, NULL);
	}

	for(int i = 0; i < PRODUCERS; ++i)
	{
		vp_spawn(producer, NULL);
	}

#if CLEARS
	vp_spawn(clearer, NULL);
#endif

	vp_wait(&all_done);

	VP_ASSERT(async_queue_count(&queue) == last - first, "what is neither taken nor cleared is counted");
	vp_observe(last - first);

	while(first < last)
	{
		void *p = NULL;
		VP_ASSERT(!freed[(uintptr_t)ghost[first] - 1], "what is in the queue is not released");
		VP_ASSERT(async_queue_pop(&queue, &p) && p == ghost[first], "what is left is delivered in order");
		++first;
	}

	VP_ASSERT(async_queue_count(&queue) == 0, "nothing is left");
	queue_unshare();
	async_queue_free(&queue);
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
