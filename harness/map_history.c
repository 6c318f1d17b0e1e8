/*
 * A history of BUILD insertions and then OPS arbitrary operations with arbitrary keys, starting
 * from the empty container. One arbitrary key ("the probe") is followed by a reference: because it
 * is arbitrary, what is shown for it is shown for every key.
 */
#include "map.h"

#ifndef BUILD
#define BUILD 0
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef KEYS
#define KEYS 255 /* key values 0..KEYS */
#endif

#if MAP == MAP_HASH
static uint32_t hashes[KEYS + 1];

static uint32_t
map_hash(const void *p)
{
	return hashes[KV(p)];
}
#endif

static Map *map;
static uint64_t probe;
static bool g_present;
static void *g_key, *g_value;
static uint64_t ids;

static uint64_t
any_key(void)
{
#if MAP == MAP_HASH
	return vp_choose(0, KEYS);
#else
	return vp_range(0, KEYS);
#endif
}

static void
do_set(uint64_t kv, void *value, bool overwrite)
{
	void *key = KEY(++ids, kv);
	size_t n = map_count(map);
	int r = map_set(map, key, value, overwrite);

	VP_ASSERT(r == R_NEW || r == R_REPLACED, "set reports new or replaced");
	VP_ASSERT(map_count(map) == n + (r == R_NEW), "the count grows by one exactly for a new key");

	if(kv == probe)
	{
		VP_ASSERT(r == (g_present ? R_REPLACED : R_NEW), "set reports new exactly for an absent key");

		if(!g_present || overwrite)
		{
			g_key = key;
		}

		g_value = value;
		g_present = true;
	}
}

static void
do_remove(uint64_t kv)
{
	size_t n = map_count(map);
	bool had = map_exists(map, ASK(kv));

#if MAP == MAP_TREE
	bool r = map_remove(map, ASK(kv));
	VP_ASSERT(r == had, "remove reports whether the key was there");
#else
	map_remove(map, ASK(kv));
#endif

	VP_ASSERT(map_count(map) == n - (had ? 1 : 0), "the count shrinks by one exactly for a present key");

	if(kv == probe)
	{
		VP_ASSERT(had == g_present, "presence before removal");
		g_present = false;
	}
}

static void
do_pair_set(uint64_t kv, void *value)
{
	MapPair *p = map_lookup(map, ASK(kv));

	if(p)
	{
		VP_ASSERT(KV(pair_key(p)) == kv, "the found key equals the key asked for");
		pair_set_value(p, value);
		VP_ASSERT(pair_value(p) == value, "a value set through a pair is read back");
	}

	if(kv == probe)
	{
		VP_ASSERT((p != NULL) == g_present, "lookup finds exactly the present keys");
		if(g_present)
		{
			g_value = value;
		}
	}
}

static void
check_probe(void)
{
#ifdef LOGARITHMIC
	map_compares = 0;
#endif
	MapPair *p = map_lookup(map, ASK(probe));

#ifdef LOGARITHMIC
	uint64_t n = map_count(map), digits = 0;
	for(; n; n >>= 1)
	{
		++digits;
	}
	VP_ASSERT(map_compares <= 2 * digits, "a lookup takes at most two comparisons for each binary digit of the number of entries");
#endif
	VP_ASSERT((p != NULL) == g_present, "lookup finds exactly the present keys");
#ifdef LOGARITHMIC
	map_compares = 0;
#endif
	VP_ASSERT(map_exists(map, ASK(probe)) == g_present, "key_exists agrees with the history");
#ifdef LOGARITHMIC
	VP_ASSERT(map_compares <= 2 * digits, "asking for a key takes at most two comparisons for each binary digit of the number of entries");
#endif

	if(p)
	{
		VP_ASSERT(pair_key(p) == g_key, "lookup yields the stored key object");
		VP_ASSERT(pair_value(p) == g_value, "lookup yields the last value set");
	}
}

void
harness(void)
{
	map = map_new(NULL, NULL);
	probe = any_key();

#if MAP == MAP_HASH
	for(int i = 0; i <= KEYS; ++i)
	{
		hashes[i] = (uint32_t)vp_range(0, UINT32_MAX);
	}
#endif

#if BUILD
	uint64_t last = 0;
	(void)last;
#endif
	for(int i = 0; i < BUILD; ++i)
	{
#if defined(ASCENDING)
		uint64_t kv = vp_range(last + 1, KEYS);
		last = kv;
#else
		uint64_t kv = any_key();
#endif
		do_set(kv, (void *)(uintptr_t)(i + 1), false);
	}

	for(int i = 0; i < OPS; ++i)
	{
		uint64_t op = vp_choose(0, 4);
		void *value = (void *)(uintptr_t)(vp_bool() ? 1000 + i : 0);

		switch(op)
		{
			case 0: do_set(any_key(), value, false); break;
			case 1: do_set(any_key(), value, true); break;
			case 2: do_remove(any_key()); break;
			case 3: do_pair_set(any_key(), value); break;
			default:
				map_clear(map);
				VP_ASSERT(map_count(map) == 0, "clear empties the container");
				g_present = false;
		}
	}

	check_probe();
	vp_observe(map_count(map));
	map_destroy(map);
	VP_ASSERT(vp_live == 0, "destroy releases every block");
	VP_END();
}
