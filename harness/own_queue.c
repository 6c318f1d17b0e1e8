/*
 * C36: stacks, queues and asynchronous queues with a release function: OPS arbitrary operations. Elements may be NULL.
 */
#define ELEMENTS 16
#include "subject.h"
#include "mockpool.h"

#ifndef OPS
#define OPS 5
#endif
#ifndef BUILD
#define BUILD 0
#endif

static Subject s;
static uint64_t ids;

static void
add(bool null)
{
	s_add(&s, null ? NULL : (void *)(uintptr_t)++ids, NULL);
}

void
harness(void)
{
	static const int kinds[] = {S_STACK, S_QUEUE, S_ASYNC};
	static AsyncQueue place;
	int kind = kinds[vp_choose(0, 2)];
	Pool *pool = NULL;
#ifdef POOL
	pool = mock_pool(s_node_size(kind));
#endif

	s_open(&s, kind, vp_bool() ? &place : NULL, vp_bool(), pool);

	for(int i = 0; i < BUILD; ++i)
	{
		add(false);
	}

	for(int i = 0; i < OPS; ++i)
	{
		switch(vp_choose(0, 2))
		{
			case 0:
				add(vp_bool());
				break;
			case 1:
				VP_ASSUME(s.n > 0);
				s_drop(&s, 0);
				break;
			default:
				s_clear(&s);
		}
		s_check(&s);
#ifdef POOL
		VP_ASSERT(mock.in_use == s.n, "every node is taken from the pool and given back exactly when its element goes");
#endif
	}

	vp_observe(s.n);
	s_close(&s);
	VP_ASSERT(vp_live == 0, "destruction releases every block");
#ifdef POOL
	VP_ASSERT(mock.in_use == 0, "destruction gives every node back");
#endif
	VP_END();
}
