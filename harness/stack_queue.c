/* C15 (QUEUE undefined) and C16 (QUEUE): a history of OPS arbitrary operations on a stack or a queue. */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"
#include "mockpool.h"

#ifndef OPS
#define OPS 6
#endif
#ifndef BUILD
#define BUILD 0
#endif
#define MAX (OPS + BUILD)

#ifdef QUEUE
typedef Queue Q;
#define q_new queue_new
#define q_init queue_init
#define q_destroy queue_destroy
#define q_free queue_free
#define q_push queue_push
#define q_pop queue_pop
#define q_head queue_head
#define q_clear queue_clear
#define q_count queue_count
#else
typedef Stack Q;
#define q_new stack_new
#define q_init stack_init
#define q_destroy stack_destroy
#define q_free stack_free
#define q_push stack_push
#define q_pop stack_pop
#define q_head stack_head
#define q_clear stack_clear
#define q_count stack_count
#endif

static int32_t compare(const void *a, const void *b) { return (a > b) - (a < b); }

static void *ref[MAX + 1];
static size_t lo, hi; /* ref[lo..hi) are the elements, in the order they were pushed */

static void *
next(void)
{
#ifdef QUEUE
	return ref[lo];
#else
	return ref[hi - 1];
#endif
}

static void
push(Q *q)
{
	void *p = (void *)(uintptr_t)vp_u64();
	q_push(q, p);
	ref[hi++] = p;
}

void
harness(void)
{
	Q local, *q = &local;
	Pool *pool = NULL;
#ifdef POOL
	pool = mock_pool(sizeof(SListItem));
#endif
	bool embedded = vp_bool();

	if(embedded)
	{
		q_init(q, compare, NULL, pool);
	}
	else
	{
		q = q_new(compare, NULL, pool);
	}

	long base = vp_live;
	(void)base;

	for(int i = 0; i < BUILD; ++i)
	{
		push(q);
	}

	for(int i = 0; i < OPS; ++i)
	{
		void *const untouched = &local;
		void *p = untouched;

		switch(vp_choose(0, 3))
		{
			case 0:
				push(q);
				break;

			case 1:
				{
					bool r = q_pop(q, &p);
					VP_ASSERT(r == (lo < hi), "pop succeeds exactly when there is an element");
					if(r)
					{
						VP_ASSERT(p == next(), "pop yields the right element");
#ifdef QUEUE
						++lo;
#else
						--hi;
#endif
					}
				}
				break;

			case 2:
				{
					bool r = q_head(q, &p);
					VP_ASSERT(r == (lo < hi), "head succeeds exactly when there is an element");
					VP_ASSERT(!r || p == next(), "head yields the right element");
				}
				break;

			default:
				q_clear(q);
				lo = hi = 0;
		}

		VP_ASSERT(q_count(q) == hi - lo, "the count is the number of elements");
#ifdef POOL
		VP_ASSERT(mock.in_use == hi - lo, "every node is taken from the pool and given back exactly when its element goes");
		VP_ASSERT(vp_live == base, "with a pool no node is taken from the heap");
#endif
	}

	vp_observe(hi - lo);

	if(vp_bool())
	{
		while(lo < hi)
		{
			void *p;
			VP_ASSERT(q_pop(q, &p) && p == next(), "what is left is delivered in order");
#ifdef QUEUE
			++lo;
#else
			--hi;
#endif
		}
		void *p;
		VP_ASSERT(!q_pop(q, &p) && !q_head(q, &p) && q_count(q) == 0, "nothing is left");
	}

	if(embedded)
	{
		q_free(q);
	}
	else
	{
		q_destroy(q);
	}

#ifdef POOL
	VP_ASSERT(mock.in_use == 0, "destruction gives every node back to the pool");
#endif
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
