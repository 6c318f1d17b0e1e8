/*
 * C03, C06, C08: iterating a container that a history of BUILD insertions and OPS arbitrary operations
 * has produced. For an arbitrary key ("the probe") it is counted how often the iteration yields it.
 * TREE: the iterator is used on a second tree before or after, and left half-way.
 */
#include "map.h"

#ifndef BUILD
#define BUILD 0
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef KEYS
#define KEYS 255
#endif

#if MAP == MAP_HASH
static uint32_t hashes[KEYS + 1];

static uint32_t
map_hash(const void *p)
{
	return hashes[KV(p)];
}
#endif

static uint64_t probe;
static uint64_t ids;

static uint64_t
any_key(void)
{
#if MAP == MAP_HASH
	return vp_choose(0, KEYS);
#else
	return vp_range(0, KEYS);
#endif
}

static void
change(Map *map, unsigned ops)
{
	for(unsigned i = 0; i < ops; ++i)
	{
		uint64_t op = vp_choose(0, 2);
		void *value = (void *)(uintptr_t)(vp_bool() ? 1000 + i : 0);

		switch(op)
		{
			case 0:
			{
				uint64_t kv = any_key();
				map_set(map, KEY(++ids, kv), value, vp_bool());
				break;
			}
			case 1: map_remove(map, ASK(any_key())); break;
			default:
#ifdef CLEAR
				map_clear(map);
#else
				map_set(map, KEY(++ids, any_key()), value, false);
#endif
		}
	}
}

/* Runs an initialised iterator to the end. */
static void
iterate(Map *map, MapIter *it)
{
	size_t n = map_count(map), yielded = 0, hits = 0;
	MapPair *p = map_lookup(map, ASK(probe));
	void *key = p ? pair_key(p) : NULL, *value = p ? pair_value(p) : NULL;
#if MAP == MAP_ARRAY
	void *last = NULL;
#endif

	while(iter_next(it))
	{
		VP_ASSERT(++yielded <= n, "no more entries are yielded than there are");

		void *k = iter_key(it);
		VP_ASSERT(k != NULL && KV(k) <= KEYS, "a key is yielded");

#if MAP == MAP_HASH
		VP_ASSERT(hashtable_iter_key((*it)) == k && hashtable_iter_value((*it)) == iter_value(it), "the accessor macros agree");
#elif MAP == MAP_TREE
		VP_ASSERT(rbtree_iter_key((*it)) == k && rbtree_iter_value((*it)) == iter_value(it), "the accessor macros agree");
#else
		VP_ASSERT(assoc_array_iter_key((*it)) == k && assoc_array_iter_value((*it)) == iter_value(it), "the accessor macros agree");
		VP_ASSERT(!last || KV(last) < KV(k), "the keys ascend");
		last = k;
#endif
		if(KV(k) == probe)
		{
			++hits;
			VP_ASSERT(p && k == key, "the key yielded is the one a lookup gives");
			VP_ASSERT(iter_value(it) == value, "the value yielded is the one a lookup gives");
		}
	}

	VP_ASSERT(yielded == n, "as many entries are yielded as there are");
	VP_ASSERT(hits == (p ? 1 : 0), "an entry is yielded exactly once, an absent key never");
	VP_ASSERT(!iter_next(it), "the end is final");
#if MAP != MAP_ARRAY
	VP_ASSERT(!iter_next(it), "the end is final");
#endif
	vp_observe(yielded);
}

void
harness(void)
{
	Map *map = map_new(NULL, NULL);
	MapIter it;

	probe = any_key();

#if MAP == MAP_HASH
	for(int i = 0; i <= KEYS; ++i)
	{
		hashes[i] = (uint32_t)vp_range(0, UINT32_MAX);
	}
#endif

#ifdef EXACT
	unsigned build = BUILD;
#else
	unsigned build = vp_choose(0, BUILD);
#endif

	for(unsigned i = 0; i < build; ++i)
	{
		map_set(map, KEY(++ids, any_key()), (void *)(uintptr_t)(i + 1), false);
	}

	change(map, OPS);

#if MAP == MAP_TREE && defined(REUSE)
	/* the iterator served another tree of OTHER entries before, and was left at any point */
	Map *other = map_new(NULL, NULL);
	unsigned others = vp_choose(0, OTHER);

	for(unsigned i = 0; i < others; ++i)
	{
		map_set(other, KEY(++ids, i), (void *)1, false);
	}

	iter_init(other, &it);

	unsigned steps = vp_choose(0, others + 1);
	for(unsigned i = 0; i < steps; ++i)
	{
		bool r = iter_next(&it);
		VP_ASSERT(r == (i < others), "the first use of the iterator yields every entry");
	}

	rbtree_iter_reuse(map, &it);
	iterate(map, &it);
	change(map, REUSE);
	rbtree_iter_reuse(map, &it);
	iterate(map, &it);
	rbtree_iter_reuse(other, &it);
	for(unsigned i = 0; i < others; ++i)
	{
		VP_ASSERT(iter_next(&it), "reused for the first tree again, every entry is yielded");
	}
	VP_ASSERT(!iter_next(&it), "and nothing else");
	rbtree_iter_free(&it);
	map_destroy(other);
#else
	iter_init(map, &it);

	if(vp_bool())
	{
		/* left half-way */
		unsigned steps = vp_choose(0, 2);
		for(unsigned i = 0; i < steps && iter_next(&it); ++i)
		{
		}
		iter_done(&it);
		iter_init(map, &it);
	}

	iterate(map, &it);
	iter_done(&it);
#endif

	map_destroy(map);
	VP_ASSERT(vp_live == 0, "everything is released");
	VP_END();
}
