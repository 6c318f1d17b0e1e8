/*
 * C09: every release of a key or value, in a history of BUILD insertions and OPS arbitrary operations.
 * Keys and values are small integers with an identity; a reference table knows which are stored.
 * C19: with POOL the tree takes its nodes from the recording pool.
 * With PREFILL, that many keys of known hashes are stored before, and operations choose among a few of them.
 * C33: with LIVE the keys that comparison, equality and hash functions are called with are checked.
 */
#include "map.h"
#include "mockpool.h"

#ifndef BUILD
#define BUILD 0
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef KEYS
#define KEYS 2
#endif
#ifndef PREFILL
#define PREFILL 0
#else
#define BEYOND 1
#undef KEYS
#define KEYS PREFILL /* the last one is not stored */
#endif
#define MAX (PREFILL + BUILD + OPS + 1)

#if MAP == MAP_HASH
static uint32_t hashes[KEYS + 1];

static uint32_t
map_hash(const void *p)
{
	map_sees(p);
	return hashes[KV(p)];
}
#endif

enum { FOREIGN, STORED, DUE, RELEASED }; /* DUE: must be released by the current operation */

static unsigned char key_state[MAX + 1], value_state[MAX + 1]; /* by identity */
static void *ref_key[KEYS + 1];
static uint64_t ref_value[KEYS + 1]; /* 0: NULL */
static uint64_t ids;
static bool frees_keys, frees_values;
static Map *map;

static const void *now; /* the key the caller passes to the current operation */

#ifdef LIVE
static void
map_sees(const void *p)
{
	uint64_t id = (uint64_t)(uintptr_t)p >> KVBITS;

	VP_ASSERT(p != NULL, "no function is called with a key that is NULL");
	VP_ASSERT(p == now || (id >= 1 && id <= MAX && (key_state[id] == STORED || key_state[id] == DUE)),
		"functions are called with stored keys and the caller's argument only");
}
#endif

static void
free_key(void *p)
{
	uint64_t id = (uint64_t)(uintptr_t)p >> KVBITS;

	VP_ASSERT(id >= 1 && id <= MAX && key_state[id] == DUE, "only a key that leaves the container is released, once");
	key_state[id] = RELEASED;
}

static void
free_value(void *p)
{
	uint64_t id = (uint64_t)(uintptr_t)p;

	VP_ASSERT(p != NULL, "no NULL value is released");
	VP_ASSERT(id >= 1 && id <= MAX && value_state[id] == DUE, "only a value that leaves the container is released, once");
	value_state[id] = RELEASED;
}

static void
key_leaves(uint64_t kv)
{
	if(ref_key[kv])
	{
		key_state[(uintptr_t)ref_key[kv] >> KVBITS] = DUE;
		ref_key[kv] = NULL;
	}
}

static void
value_leaves(uint64_t kv)
{
	if(ref_value[kv])
	{
		value_state[ref_value[kv]] = DUE;
		ref_value[kv] = 0;
	}
}

static void
all_leave(void)
{
	for(uint64_t kv = 0; kv <= KEYS; ++kv)
	{
		key_leaves(kv);
		value_leaves(kv);
	}
}

static void
settle(void) /* after an operation: what was due has been released, if anything is */
{
	for(uint64_t id = 1; id <= ids; ++id)
	{
		VP_ASSERT(key_state[id] != DUE || !frees_keys, "a key that leaves the container is released");
		VP_ASSERT(value_state[id] != DUE || !frees_values, "a value that leaves the container is released");
		VP_ASSERT(key_state[id] != RELEASED || frees_keys, "no key is released without a release function");
		VP_ASSERT(value_state[id] != RELEASED || frees_values, "no value is released without a release function");
		if(key_state[id] == DUE)
		{
			key_state[id] = FOREIGN;
		}
		if(value_state[id] == DUE)
		{
			value_state[id] = FOREIGN;
		}
	}
}

static void
do_set(uint64_t kv, bool null, bool overwrite)
{
	uint64_t id = ++ids;
	void *key = KEY(id, kv);
	bool had = ref_key[kv] != NULL;

	if(had && overwrite)
	{
		key_leaves(kv);
	}

	value_leaves(kv);

	now = key;
	int r = map_set(map, key, null ? NULL : (void *)(uintptr_t)id, overwrite);

	VP_ASSERT(r == (had ? R_REPLACED : R_NEW), "set reports truthfully");

	if(!ref_key[kv])
	{
		ref_key[kv] = key;
		key_state[id] = STORED;
	}

	if(!null)
	{
		ref_value[kv] = id;
		value_state[id] = STORED;
	}

	settle();
}

/* Any key, or one of a few of many. */
static uint64_t
any_key(void)
{
#ifdef BEYOND
	static const uint64_t keys[] = {0, 1, PREFILL / 2, PREFILL / 2 + 1, PREFILL - 1, PREFILL};

	return keys[vp_choose(0, sizeof(keys) / sizeof(*keys) - 1)];
#else
	return vp_choose(0, KEYS);
#endif
}

static uint64_t
count(void)
{
	uint64_t n = 0;
	for(uint64_t kv = 0; kv <= KEYS; ++kv)
	{
		n += ref_key[kv] != NULL;
	}
	return n;
}

void
harness(void)
{
	long base = 0;
#ifdef POOL
	Pool *pool = mock_pool(sizeof(RBNode));
	frees_keys = frees_values = vp_bool();
	map = rbtree_new(map_compare, frees_keys ? free_key : NULL, frees_values ? free_value : NULL, pool);
	base = vp_live;
#else
	frees_keys = vp_bool();
	frees_values = vp_bool();
	map = map_new(frees_keys ? free_key : NULL, frees_values ? free_value : NULL);
#endif
	(void)base;

#if MAP == MAP_HASH
	for(int i = 0; i <= KEYS; ++i)
	{
#ifdef BEYOND
		hashes[i] = (uint32_t)i * 0x9e3779b1u;
#else
		hashes[i] = (uint32_t)vp_range(0, UINT32_MAX);
#endif
	}
#endif

#ifdef BEYOND
	uint64_t order = vp_choose(0, 2);
	for(uint64_t i = 0; i < PREFILL; ++i)
	{
		do_set(order == 0 ? i : order == 1 ? PREFILL - 1 - i : i * 77 % PREFILL, false, false);
	}
#endif
	for(int i = 0; i < BUILD; ++i)
	{
		do_set(any_key(), false, false);
	}

	for(int i = 0; i < OPS; ++i)
	{
		uint64_t op = vp_choose(0, 4);
		uint64_t kv = op < 4 ? any_key() : 0;

		void *ask = ASK(kv);
#ifdef LIVE
		if(op >= 2 && op < 4 && ref_key[kv] && vp_choose(0, 1))
		{
			ask = ref_key[kv]; /* the stored key itself */
		}
#endif
		now = ask == ref_key[kv] ? NULL : ask;
		bool null = op != 2 && op != 4 && vp_bool();

		switch(op)
		{
			case 0: do_set(kv, null, false); break;
			case 1: do_set(kv, null, true); break;
			case 2:
				key_leaves(kv);
				value_leaves(kv);
				map_remove(map, ask);
				settle();
				break;
			case 3:
				{
					MapPair *p = map_lookup(map, ask);
					VP_ASSERT((p != NULL) == (ref_key[kv] != NULL), "lookup finds exactly the present keys");
					if(p)
					{
						uint64_t id = ++ids;
						value_leaves(kv);
						pair_set_value(p, null ? NULL : (void *)(uintptr_t)id);
						if(!null)
						{
							ref_value[kv] = id;
							value_state[id] = STORED;
						}
						settle();
					}
				}
				break;
			default:
				all_leave();
				map_clear(map);
				settle();
		}

		VP_ASSERT(map_count(map) == count(), "the count is the number of present keys");
#ifdef POOL
		VP_ASSERT(mock.in_use == count(), "every node is taken from the pool and given back exactly when its entry goes");
		VP_ASSERT(vp_live <= base, "with a pool no node is taken from the heap");
#endif
	}

	for(uint64_t kv = 0; kv <= KEYS; ++kv)
	{
		now = ASK(kv);
		MapPair *p = map_lookup(map, ASK(kv));
		VP_ASSERT(p ? pair_key(p) == ref_key[kv] && (uint64_t)(uintptr_t)pair_value(p) == ref_value[kv] : !ref_key[kv], "what is stored is what was not released");
	}

	vp_observe(count());
	now = NULL;
	all_leave();
	map_destroy(map);
	settle();
#ifdef POOL
	VP_ASSERT(mock.in_use == 0, "destruction gives every node back to the pool");
#endif
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
