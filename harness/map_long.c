/*
 * C01, C04, C05, C07 at larger sizes: LOW..HIGH keys are stored in a known order (ascending, descending,
 * alternating ends, scattered), then OPS operations with arbitrary keys - stored ones or ones that belong
 * into any gap - happen; every key is looked up and an iteration is counted. With DRAIN all keys are then
 * removed in any of the orders and the rest looked up in between. With REFILL the container is cleared
 * (or was drained) and the keys are stored again in any of the orders. Lookups in the tree are held to
 * 2*log2(n+1) comparisons.
 */
#include "map.h"

#ifndef LOW
#define LOW 33
#endif
#ifndef HIGH
#define HIGH LOW
#endif
#ifndef OPS
#define OPS 1
#endif
#ifndef ORDERS
#define ORDERS 3
#endif

#if MAP == MAP_HASH
static uint32_t map_hash(const void *p) { return (uint32_t)KV(p) * 2654435761u; }
#endif

static Map *map;
static uint64_t n;                /* keys stored at first: 2, 4, .. 2n */
static void *ref_key[1 << KVBITS];        /* NULL: absent */
static void *ref_value[1 << KVBITS];
static size_t present;

static uint64_t
nth(unsigned order, uint64_t i)
{
	switch(order)
	{
		case 0: return i;
		case 1: return n - 1 - i;
		case 2: return i % 2 ? n - 1 - i / 2 : i / 2;
		default:
			{
				uint64_t step = 7;
				while(n % step == 0 && step < 13)
				{
					step += 4;
				}
				return n % step ? i * step % n : i;
			}
	}
}

static void
set(void *key, void *value, bool overwrite)
{
	int r = map_set(map, key, value, overwrite);

	key = (void *)(uintptr_t)vp_conc((uintptr_t)key); /* by now the path admits one key */
	uint64_t kv = KV(key);

	VP_ASSERT(r == (ref_key[kv] ? R_REPLACED : R_NEW), "set reports truthfully");
	present += !ref_key[kv];
	if(!ref_key[kv] || overwrite)
	{
		ref_key[kv] = key;
	}
	ref_value[kv] = value;
	VP_ASSERT(map_count(map) == present, "the count is the number of keys");
}

static void
rem(uint64_t kv)
{
#if MAP == MAP_TREE
	bool removed = map_remove(map, ASK(kv));
	kv = vp_conc(kv);
	VP_ASSERT(removed == (ref_key[kv] != NULL), "remove reports truthfully");
#else
	map_remove(map, ASK(kv));
	kv = vp_conc(kv);
#endif
	present -= ref_key[kv] != NULL;
	ref_key[kv] = NULL;
	VP_ASSERT(map_count(map) == present, "the count is the number of keys");
}

/* The comparisons since the last call. */
static void
effort(bool begin)
{
#if defined(LOGARITHMIC)
	unsigned digits = 0;
	for(uint64_t d = present; d; d >>= 1)
	{
		++digits;
	}
	VP_ASSERT(begin || map_compares <= 2 * digits, "a lookup takes at most two comparisons for each binary digit of the number of entries");
	map_compares = 0;
#elif MAP == MAP_TREE
	VP_ASSERT(begin || (map_compares < 64 && ((uint64_t)1 << map_compares) <= (present + 1) * (present + 1)), "a lookup takes at most 2*log2(n+1) comparisons");
	map_compares = 0;
#endif
	(void)begin;
}

static void
check_all(void)
{
	effort(true);

	/* before any lookup, which might leave something behind */
	for(uint64_t kv = 1; kv <= 2 * n + 1; ++kv)
	{
		VP_ASSERT(map_exists(map, ASK(kv)) == (ref_key[kv] != NULL), "key_exists finds exactly the present keys");
		effort(false);
	}

	for(uint64_t kv = 1; kv <= 2 * n + 1; ++kv)
	{
		effort(true);
		MapPair *p = map_lookup(map, ASK(kv));
		effort(false);
		VP_ASSERT((p != NULL) == (ref_key[kv] != NULL), "lookup finds exactly the present keys");
		if(p)
		{
			VP_ASSERT(pair_key(p) == ref_key[kv] && pair_value(p) == ref_value[kv], "with their key and value");
		}
	}
}

void
harness(void)
{
	map = map_new(NULL, NULL);
	n = vp_choose(LOW, HIGH);
	unsigned order = vp_choose(0, ORDERS);

	for(uint64_t i = 0; i < n; ++i)
	{
		uint64_t at = nth(order, i);
		set(KEY(1, 2 * (at + 1)), (void *)(uintptr_t)(at + 1), false);
	}

	VP_ASSERT(present == n, "all keys are stored");

	for(unsigned i = 0; i < OPS; ++i)
	{
#if MAP == MAP_HASH
		uint64_t kv = vp_choose(1, 2 * n + 1);
#else
		uint64_t kv = vp_range(1, 2 * n + 1);
#endif
		switch(vp_choose(0, 2))
		{
			case 0: set(KEY(2 + i, kv), NULL, false); break;
			case 1: set(KEY(2 + i, kv), (void *)(uintptr_t)(1000 + i), true); break;
			default: rem(kv); break;
		}
	}

	check_all();

	MapIter it;
	size_t yielded = 0;
#if MAP == MAP_ARRAY
	uint64_t last = 0;
#endif
	iter_init(map, &it);
	while(iter_next(&it))
	{
		uint64_t kv = KV(iter_key(&it));
		VP_ASSERT(++yielded <= present, "no entry is yielded twice");
		VP_ASSERT(ref_key[kv] == iter_key(&it) && ref_value[kv] == iter_value(&it), "the iteration yields the present entries");
#if MAP == MAP_ARRAY
		VP_ASSERT(kv > last, "in ascending order");
		last = kv;
#endif
	}
	VP_ASSERT(yielded == present, "every entry is yielded");
	iter_done(&it);

#ifdef DRAIN
	unsigned away = vp_choose(0, ORDERS);
	for(uint64_t i = 0; i < n; ++i)
	{
		rem(2 * (nth(away, i) + 1));
		if(i % DRAIN == 0 || i + 9 > n)
		{
			check_all();
		}
	}
#endif

#ifdef REFILL
	map_clear(map);
	present = 0;
	for(uint64_t kv = 1; kv <= 2 * n + 1; ++kv)
	{
		ref_key[kv] = NULL;
	}
	VP_ASSERT(map_count(map) == 0, "a cleared container is empty");
	check_all();

	unsigned again = vp_choose(0, ORDERS);
	for(uint64_t i = 0; i < n; ++i)
	{
		uint64_t at = nth(again, i);
		set(KEY(9, 2 * at + 1), (void *)(uintptr_t)(at + 2), false);
	}
	check_all();
#endif

	vp_observe(present);
	map_destroy(map);
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
