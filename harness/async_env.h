/*
 * POSIX as the asynchronous queue sees it: one mutex, one condition variable, a clock. Threads are the
 * executor's cooperative threads; a thread can lose the processor whenever it asks for the lock and
 * whenever it waits. Between these points nothing of another thread runs, which is all there is to see
 * as long as shared state is touched only under the lock - and that is what GUARD checks: the queue's
 * memory is inaccessible whenever nobody holds the lock.
 */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"


#define MAX_THREADS 6

static AsyncQueue queue; /* the queue under test */
static pthread_mutex_t *the_mutex;
static pthread_cond_t *the_cond;
static int owner = -1;      /* thread that holds the lock, -1: none */
static int lock_free = 1;   /* what a thread that wants the lock waits for */
static bool open_state = true;
static clockid_t cond_clock = CLOCK_REALTIME;

static bool in_cond[MAX_THREADS];   /* blocked on the condition variable */
static int cond_go[MAX_THREADS];    /* may run again */
static bool signalled[MAX_THREADS]; /* because of a signal */

static void
state_access(bool allow)
{
#ifdef GUARD
	if(open_state || !the_mutex || !the_cond)
	{
		return; /* not yet shared, or no longer */
	}

	unsigned char *base = (unsigned char *)&queue;
	size_t at = 0;

	while(at < sizeof(queue))
	{
		unsigned char *p = base + at;

		if(p == (unsigned char *)the_mutex)
		{
			at += sizeof(pthread_mutex_t);
		}
		else if(p == (unsigned char *)the_cond)
		{
			at += sizeof(pthread_cond_t);
		}
		else
		{
			vp_guard(p, 1, !allow);
			++at;
		}
	}
#else
	(void)allow;
#endif
}

#ifdef POOL
/* The queue's pool, which no other thread may use at the same time. Each item is a block of its own. */
static void *
pool_alloc(Pool *p)
{
	(void)p;
	VP_ASSERT(open_state || owner == vp_self(), "the queue's pool is used only under its lock");
	void *item = malloc(sizeof(QueueItem) + 16);
	return (unsigned char *)item + 16;
}

static void
pool_free(Pool *p, void *item)
{
	(void)p;
	VP_ASSERT(open_state || owner == vp_self(), "the queue's pool is used only under its lock");
	free((unsigned char *)item - 16);
}

static Pool *
guarded_pool(void)
{
	static Pool pool;

	pool.alloc = pool_alloc;
	pool.free = pool_free;

	return &pool;
}
#endif

static void
queue_share(void) /* from here on the queue is used by several threads */
{
	open_state = false;
	state_access(false);
}

static void
queue_unshare(void)
{
	state_access(true);
	open_state = true;
}

static void
release_lock(void)
{
	owner = -1;
	lock_free = 1;
	state_access(false);
}

static void
take_lock(void)
{
	while(owner != -1)
	{
		vp_wait(&lock_free);
	}

	owner = vp_self();
	lock_free = 0;
	state_access(true);
}

int
vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	(void)a;
	VP_ASSERT(!the_mutex, "the queue has one lock");
	the_mutex = m;
	return 0;
}

int
vp_pthread_mutex_destroy(pthread_mutex_t *m)
{
	VP_ASSERT(m == the_mutex && owner == -1, "only the initialised, free lock is destroyed");
	the_mutex = NULL;
	return 0;
}

int
vp_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	(void)a;
	VP_ASSERT(!the_cond, "the queue has one condition variable");
	the_cond = c;
	return 0;
}

int
vp_pthread_cond_destroy(pthread_cond_t *c)
{
	VP_ASSERT(c == the_cond, "only the initialised condition variable is destroyed");
	the_cond = NULL;
	return 0;
}

int vp_pthread_condattr_init(pthread_condattr_t *a) { (void)a; return 0; }
int vp_pthread_condattr_destroy(pthread_condattr_t *a) { (void)a; return 0; }
int vp_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t id) { (void)a; cond_clock = id; return 0; }
ssize_t vp_read(int fd, void *buf, size_t n) { (void)fd; (void)buf; (void)n; return 0; }
