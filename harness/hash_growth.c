/*
 * C02. A table of automatic or fixed size receives N keys with known hashes; then
 *   SPECIAL: a key with an arbitrary hash is stored and the table grows further (HASHES: its hash is any of
 *            0..HASHES, or any of the HASHES largest);
 *   always:  an arbitrary key is removed or replaced, every key is looked up, an iteration is counted.
 * The hash of key i is, by choice: i, constant, i * 257 (all in one chain at first), i * stride + offset.
 * SMALL (looks inside the table): the table's sizes are replaced by 1, 2, 3, 4, 6, ... while it is empty, so that
 * growth happens after a handful of keys, whose hashes are then all arbitrary 32-bit values.
 */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"

#ifdef SMALL /* the structure looked into; another one is not its business */
_Static_assert(sizeof(HashTable) == 96, "layout");
#endif

#ifndef N
#define N 258
#endif
#ifndef SIZE
#define SIZE HASHTABLE_AUTO_RESIZE
#endif
#ifndef HASHES
#define HASHES 0
#endif
#ifndef VARIANTS
#define VARIANTS 3
#endif
#define KEYP(i) ((void *)(uintptr_t)((uint64_t)(i) + 0x1000))
#define NUM(p) ((uint64_t)(uintptr_t)(p) - 0x1000)
#define VALUE(i) ((void *)(uintptr_t)((i) * 2 + 1))

static unsigned variant;
static uint64_t special_hash;
static uint32_t any_hash[N + 8];

static uint32_t
hash(const void *p)
{
	uint64_t i = NUM(p);

#ifdef SMALL
	return any_hash[i < N + 7 ? i : N + 7];
#endif
	if(i == 100000)
	{
		return (uint32_t)special_hash;
	}

	switch(variant)
	{
		case 0: return (uint32_t)i;
		case 1: return 42;
		case 2: return (uint32_t)(i * 257);
		default: return (uint32_t)(i * 2654435761u + 12345);
	}
}

static bool
equal(const void *a, const void *b)
{
	return a == b;
}

static HashTable *table;
static uint64_t stored;
static uint64_t removed = UINT64_MAX, replaced = UINT64_MAX;

static void
check_all(bool special)
{
	uint64_t present = stored - (removed != UINT64_MAX) + special;

	VP_ASSERT(hashtable_count(table) == present, "the count is the number of keys");

	for(uint64_t i = 0; i < stored; ++i)
	{
		HashTablePair *p = hashtable_lookup(table, KEYP(i));

		if(i == removed)
		{
			VP_ASSERT(!p && !hashtable_key_exists(table, KEYP(i)), "a removed key is gone");
		}
		else
		{
			VP_ASSERT(p != NULL, "every key stored before is found after growing");
			VP_ASSERT(hashtable_pair_get_key(p) == KEYP(i), "with its key");
			VP_ASSERT(hashtable_pair_get_value(p) == (i == replaced ? NULL : VALUE(i)), "with its value");
		}
	}

#ifdef SPECIAL
	HashTablePair *p = hashtable_lookup(table, KEYP(100000));
	VP_ASSERT((p != NULL) == special, "the special key is found");
	if(special)
	{
		VP_ASSERT(hashtable_pair_get_value(p) == VALUE(100000), "with its value");
	}
#endif

#ifndef SMALL
	VP_ASSERT(!hashtable_key_exists(table, KEYP(stored)), "a key never stored is not found");
#endif

	HashTableIter it;
	uint64_t yielded = 0;
	hashtable_iter_init(table, &it);
	while(hashtable_iter_next(&it))
	{
		VP_ASSERT(++yielded <= present, "no entry is duplicated");
	}
	VP_ASSERT(yielded == present, "no entry is lost");
}

static void
store(void)
{
	HashTableInsertResult r = hashtable_set(table, KEYP(stored), VALUE(stored), false);
	VP_ASSERT(r == HASHTABLE_INSERT_RESULT_NEW, "a new key is reported as new");
	++stored;
}

void
harness(void)
{
	table = hashtable_new(SIZE, hash, equal, NULL, NULL);
#ifdef SMALL
	static const size_t sizes[] = {1, 2, 3, 4, 6, 9, 14, 21, 32, 0};
	free(table->buckets);
	table->buckets = calloc(1, sizeof(*table->buckets));
	table->size = 1;
	table->sizeptr = sizes;
	for(int i = 0; i < N + 8; ++i)
	{
		any_hash[i] = (uint32_t)vp_range(0, UINT32_MAX);
	}
#else
	variant = vp_choose(0, VARIANTS);
#endif

#ifdef SPECIAL
	for(int i = 0; i < N - 3; ++i)
	{
		store();
	}

	special_hash = vp_choose(0, HASHES);
	if(vp_bool())
	{
		special_hash = UINT32_MAX - special_hash;
	}

	VP_ASSERT(hashtable_set(table, KEYP(100000), VALUE(100000), false) == HASHTABLE_INSERT_RESULT_NEW, "the special key is new");

	for(int i = 0; i < 4; ++i)
	{
		store();
	}

	check_all(true);
	vp_observe(hashtable_count(table));
	VP_ASSERT(hashtable_set(table, KEYP(100000), NULL, false) == HASHTABLE_INSERT_RESULT_REPLACED, "the special key is replaced");
	hashtable_remove(table, KEYP(100000));
	check_all(false);
#else
	/* something happens to an arbitrary key at an arbitrary moment near the growth */
	unsigned when = vp_choose(0, 3);

	for(int i = 0; i < N - 3; ++i)
	{
		store();
	}

	for(unsigned i = 0; i < 4; ++i)
	{
		if(i == when)
		{
			VP_ASSUME(stored > 0);
			uint64_t k = vp_choose(0, stored - 1);
			if(vp_bool())
			{
				hashtable_remove(table, KEYP(k));
				removed = k;
			}
			else
			{
				VP_ASSERT(hashtable_set(table, KEYP(k), NULL, vp_bool()) == HASHTABLE_INSERT_RESULT_REPLACED, "a present key is replaced");
				replaced = k;
			}
		}

		store();
	}

	store();
	check_all(false);
	vp_observe(hashtable_count(table));

#ifdef AFTER
	hashtable_clear(table);
	stored = 0;
	removed = replaced = UINT64_MAX;
	for(int i = 0; i < AFTER; ++i)
	{
		store();
	}
	check_all(false);
#endif
#endif

	hashtable_destroy(table);
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
