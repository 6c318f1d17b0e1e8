/*
 * C02, C03: a table of automatic size that grows, is nearly emptied and grows again. The hashes of the keys are,
 * by choice, one of several progressions - such that growth moves entries up or down or leaves buckets of low
 * number unused -, and a few further keys share a bucket with one of them in the smaller or in the larger table.
 * Every key is looked up and every iteration is counted, before and after each step.
 */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"

#ifndef SIZES
#define SIZES {250, 258, 259, 300}
#endif
#ifndef MANY
#define MANY 300 /* the largest of them */
#endif
#define EXTRA 3
#define KEYP(i) ((void *)(uintptr_t)((uint64_t)(i) + 0x1000))
#define NUM(p) ((uint64_t)(uintptr_t)(p) - 0x1000)
#define VALUE(i) ((void *)(uintptr_t)((i) * 2 + 1))

static const uint32_t sizes[] = SIZES;
static const uint32_t first[] = {0, 1, 257, 1000, 1031, 50, 7, 4294967295u, 12345};
static const uint32_t step[] = {1, 1, 1, 1, 1, 257, 1031, 4294967295u, 2654435761u};
#define NVARIANTS (sizeof(first) / sizeof(*first))

static unsigned variant;
static uint64_t n;
static uint64_t partner;
static bool present[MANY + EXTRA];
static unsigned char seen[MANY + EXTRA];
static size_t count;
static HashTable *table;

static uint32_t
hash(const void *p)
{
	uint64_t i = NUM(p);

	if(i < MANY)
	{
		return first[variant] + (uint32_t)i * step[variant];
	}

	return first[variant] + (uint32_t)partner * step[variant] + (i == MANY ? 0 : i == MANY + 1 ? 257 : 1031);
}

static bool
equal(const void *a, const void *b)
{
	return a == b;
}

static void
set(uint64_t i)
{
	VP_ASSERT(hashtable_set(table, KEYP(i), VALUE(i), false) == HASHTABLE_INSERT_RESULT_NEW, "a new key is reported as new");
	present[i] = true;
	++count;
}

static void
away(uint64_t i)
{
	hashtable_remove(table, KEYP(i));
	present[i] = false;
	--count;
}

static void
check(void)
{
	VP_ASSERT(hashtable_count(table) == count, "the count is the number of keys");

	for(uint64_t i = 0; i < MANY + EXTRA; ++i)
	{
		HashTablePair *p = hashtable_lookup(table, KEYP(i));

		VP_ASSERT((p != NULL) == present[i], "exactly the keys present are found");
		if(p)
		{
			VP_ASSERT(hashtable_pair_get_key(p) == KEYP(i) && hashtable_pair_get_value(p) == VALUE(i), "with key and value");
		}
		seen[i] = 0;
	}

	HashTableIter it;
	size_t yielded = 0;

	hashtable_iter_init(table, &it);
	while(hashtable_iter_next(&it))
	{
		uint64_t i = NUM(hashtable_iter_get_key(&it));

		VP_ASSERT(i < MANY + EXTRA && present[i] && !seen[i]++, "an iteration yields present entries, each once");
		VP_ASSERT(hashtable_iter_get_value(&it) == VALUE(i), "with their value");
		++yielded;
	}
	VP_ASSERT(yielded == count, "an iteration yields every entry");
}

void
harness(void)
{
	table = hashtable_new(HASHTABLE_AUTO_RESIZE, hash, equal, NULL, NULL);
	variant = vp_choose(0, NVARIANTS - 1);
	n = sizes[vp_choose(0, sizeof(sizes) / sizeof(*sizes) - 1)];
	partner = vp_choose(0, 3) * (n - 1) / 3;

	bool early = vp_bool(); /* the further keys come before or after the growth */

	for(uint64_t i = 0; i < EXTRA && early; ++i)
	{
		set(MANY + i);
	}
	for(uint64_t i = 0; i < n; ++i)
	{
		set(i);
	}
	for(uint64_t i = 0; i < EXTRA && !early; ++i)
	{
		set(MANY + i);
	}

	check();

	/* all but one and the further ones go, then, by choice, some of those */
	bool up = vp_bool();
	for(uint64_t i = 0; i < n; ++i)
	{
		uint64_t k = up ? i : n - 1 - i;
		if(k != partner)
		{
			away(k);
		}
		if(count == 17 || count == 8 || count == 5)
		{
			check();
		}
	}
	check();

	unsigned which = vp_choose(0, EXTRA);
	bool back = present[MANY] && which < EXTRA;
	if(back)
	{
		away(MANY + which);
		check();
		set(MANY + which);
	}

	switch(vp_choose(0, 2))
	{
		case 0:
			hashtable_clear(table);
			for(uint64_t i = 0; i < MANY + EXTRA; ++i)
			{
				present[i] = false;
			}
			count = 0;
			check();
			break;
		case 1:
			for(uint64_t i = 0; i < EXTRA; ++i)
			{
				away(MANY + i);
			}
			away(partner);
			check();
			break;
		default:
			break;
	}

	for(uint64_t i = n; i-- > 0; )
	{
		if(!present[i])
		{
			set(i);
		}
	}
	check();

	hashtable_destroy(table);
	VP_ASSERT(vp_live == 0, "everything is released");
	VP_END();
}
