/*
 * C35: a table of automatic size receives N keys whose hash values are consecutive (from any of several starts, with
 * any of several steps), before which it was used in several ways; the equality calls of every lookup are counted.
 */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"

#ifndef N
#define N 1300
#endif
#ifndef MORE
#define MORE (4 * N)
#endif
#ifndef LIMIT
#define LIMIT 4
#endif

static uint32_t start, step;
static unsigned calls;

static uint32_t hash(const void *p) { return start + (uint32_t)(uintptr_t)p * step; }

static bool
equal(const void *a, const void *b)
{
	++calls;
	return a == b;
}

static void
check(HashTable *t, uintptr_t upto)
{
	for(uintptr_t k = 1; k <= 2 * upto; ++k)
	{
		calls = 0;
		bool there = hashtable_key_exists(t, (void *)k);
		VP_ASSERT(there == (k <= upto), "exactly the stored keys are found");
		VP_ASSERT(calls <= LIMIT, "asking for a key among evenly spread hash values takes few comparisons");
		calls = 0;
		VP_ASSERT(!!hashtable_lookup(t, (void *)k) == there, "exactly the stored keys are found");
		VP_ASSERT(calls <= LIMIT, "a lookup among evenly spread hash values takes few comparisons");
	}
}

void
harness(void)
{
	static const uint32_t starts[] = {0, 1000000007, UINT32_MAX - 600};
	static const uint32_t steps[] = {1, 3};

	start = starts[vp_choose(0, 2)];
	step = steps[vp_choose(0, 1)];

	HashTable *t = hashtable_new(HASHTABLE_AUTO_RESIZE, hash, equal, NULL, NULL);
	int way = (int)vp_choose(0, 4); /* what happens before the table is filled (again) */
	static const uintptr_t before[] = {0, N, N, 40, 1};

	for(int round = 0; round <= (way > 0); ++round)
	{
		if(round < (way > 0))
		{
			/* filled with some, then cleared, or emptied from the first or the last one on */
			uintptr_t n = before[way];
			for(uintptr_t k = 1; k <= n; ++k)
			{
				hashtable_set(t, (void *)k, NULL, false);
			}
			for(uintptr_t k = 1; way != 1 && k <= n; ++k)
			{
				hashtable_remove(t, (void *)(way == 3 ? n + 1 - k : k));
			}
			if(way == 1)
			{
				hashtable_clear(t);
			}
			continue;
		}
		for(uintptr_t k = 1; k <= N; ++k)
		{
			hashtable_set(t, (void *)k, NULL, false);
			if(k == 257 || k == 520)
			{
				check(t, k);
			}
		}
		check(t, N);
		for(uintptr_t k = 1; k <= N / 2; ++k)
		{
			hashtable_remove(t, (void *)k);
		}
		for(uintptr_t k = 1; k <= N / 2; ++k)
		{
			hashtable_set(t, (void *)k, NULL, false);
		}
		for(uintptr_t k = N + 1; k <= MORE; ++k)
		{
			hashtable_set(t, (void *)k, NULL, false);
		}
		check(t, MORE);
	}

	vp_observe(hashtable_count(t));
	hashtable_destroy(t);
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
