/*
 * C39: elements, keys and values of arbitrary 64 bits (keys and elements other than NULL) are kept bit by bit and
 * never looked into. COUNT of them are added, one is taken out again, all are looked up, as is an arbitrary one.
 */
#define ELEMENTS 6
#include "subject.h"

#ifndef COUNT
#define COUNT 3
#endif

static Subject s;

void
harness(void)
{
#ifdef KINDS
	static const int kinds[] = KINDS;
	int kind = kinds[vp_choose(0, sizeof(kinds) / sizeof(*kinds) - 1)];
#else
	int kind = (int)vp_choose(0, S_BUFFER - 1);
#endif

	s_open(&s, kind, NULL, false, NULL);

#if PREFILL
	s_prefill(&s, 0, vp_choose(0, IS_MAP(kind) ? 2 : 0));
#endif
	for(int i = 0; i < COUNT; ++i)
	{
		void *e = (void *)(uintptr_t)vp_range(1, UINT64_MAX), *v = (void *)(uintptr_t)vp_u64();

		for(size_t k = 0; k < s.n; ++k)
		{
			VP_ASSUME(s.ref[k] != e);
		}
		s_add(&s, e, v);
	}

	s_check(&s);
	if(vp_bool())
	{
		s_drop(&s, s_place(s.n));
		s_check(&s);
	}

	if(IS_LIST(kind) || IS_MAP(kind))
	{
		void *e = (void *)(uintptr_t)vp_range(1, UINT64_MAX);
		bool there = false;

		for(size_t k = 0; k < s.n; ++k)
		{
			there = there || s.ref[k] == e;
		}
		VP_ASSERT(s_has(&s, e) == there, "exactly the elements that were added are found");
	}

	vp_observe(s.n);
	while(s.n)
	{
		s_drop(&s, 0);
	}
	s_close(&s);
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
