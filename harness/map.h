/* One interface over the three associative containers. Select with MAP=1 (hash table), 2 (red-black
 * tree), 3 (associative array). Keys are opaque pointers: the low KVBITS are the key's value, the others
 * the identity (>= 1) of the key object, so that two equal keys can be told apart. */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"

#define MAP_HASH 1
#define MAP_TREE 2
#define MAP_ARRAY 3

#ifndef KVBITS
#define KVBITS 8
#endif
#define KEY(id, kv) ((void *)(uintptr_t)(((uint64_t)(id) << KVBITS) | (uint64_t)(kv)))
#define ASK(kv) KEY(0xffff, kv) /* an equal key that is not the stored object */
#define KV(p) ((uint64_t)(uintptr_t)(p) & ((1u << KVBITS) - 1))

enum { R_NEW, R_REPLACED, R_FAILED };

#ifndef HASH_SIZE
#define HASH_SIZE 3
#endif

#ifdef LIVE
static void map_sees(const void *p); /* what a comparison, an equality or a hash function is called with */
#else
#define map_sees(p) ((void)0)
#endif

#if MAP == MAP_HASH

static uint32_t map_hash(const void *p);

static bool
map_equal(const void *a, const void *b)
{
	map_sees(a);
	map_sees(b);
	return KV(a) == KV(b);
}

typedef HashTable Map;
#define map_new(fk, fv) hashtable_new(HASH_SIZE, map_hash, map_equal, fk, fv)
#define map_set(m, k, v, o) ((int)hashtable_set(m, k, v, o))
#define map_remove(m, k) hashtable_remove(m, k)
#define map_lookup(m, k) hashtable_lookup(m, k)
#define map_exists(m, k) hashtable_key_exists(m, k)
#define map_count(m) hashtable_count(m)
#define map_clear(m) hashtable_clear(m)
#define map_destroy(m) hashtable_destroy(m)
typedef HashTablePair MapPair;
#define pair_key hashtable_pair_get_key
#define pair_value hashtable_pair_get_value
#define pair_set_value hashtable_pair_set_value
typedef HashTableIter MapIter;
#define iter_init hashtable_iter_init
#define iter_next hashtable_iter_next
#define iter_key hashtable_iter_get_key
#define iter_value hashtable_iter_get_value
#define iter_done(i) ((void)0)

#else

#ifdef MAGNITUDE
/* Any result a comparison may give: the sign counts, the magnitude is arbitrary. */
static int32_t
map_compare(const void *a, const void *b)
{
	map_sees(a);
	map_sees(b);
	uint64_t m = vp_range(1, 0x7fffffff);
	return KV(a) < KV(b) ? -(int32_t)m - (m == 0x7fffffff) : KV(a) > KV(b) ? (int32_t)m : 0;
}
#else
static unsigned map_compares;
static int32_t
map_compare(const void *a, const void *b)
{
	++map_compares;
	map_sees(a);
	map_sees(b);

	if(KV(a) == KV(b))
	{
		return 0;
	}

	return KV(a) < KV(b) ? -1 : 1;
}
#endif

#if MAP == MAP_TREE
#ifndef TREE_POOL
#define TREE_POOL NULL
#endif
typedef RBTree Map;
#define map_new(fk, fv) rbtree_new(map_compare, fk, fv, TREE_POOL)
#define map_set(m, k, v, o) ((int)rbtree_set(m, k, v, o))
#define map_remove(m, k) rbtree_remove(m, k)
#define map_lookup(m, k) rbtree_lookup(m, k)
#define map_exists(m, k) rbtree_key_exists(m, k)
#define map_count(m) rbtree_count(m)
#define map_clear(m) rbtree_clear(m)
#define map_destroy(m) rbtree_destroy(m)
typedef RBTreePair MapPair;
#define pair_key rbtree_pair_get_key
#define pair_value rbtree_pair_get_value
#define pair_set_value rbtree_pair_set_value
typedef RBTreeIter MapIter;
#define iter_init rbtree_iter_init
#define iter_next rbtree_iter_next
#define iter_key rbtree_iter_get_key
#define iter_value rbtree_iter_get_value
#define iter_done(i) rbtree_iter_free(i)
#else
typedef AssocArray Map;
#define map_new(fk, fv) assoc_array_new(map_compare, fk, fv)
#define map_set(m, k, v, o) ((int)assoc_array_set(m, k, v, o))
#define map_remove(m, k) assoc_array_remove(m, k)
#define map_lookup(m, k) assoc_array_lookup(m, k)
#define map_exists(m, k) assoc_array_key_exists(m, k)
#define map_count(m) assoc_array_count(m)
#define map_clear(m) assoc_array_clear(m)
#define map_destroy(m) assoc_array_destroy(m)
typedef AssocArrayPair MapPair;
#define pair_key assoc_array_pair_get_key
#define pair_value assoc_array_pair_get_value
#define pair_set_value assoc_array_pair_set_value
typedef AssocArrayIter MapIter;
#define iter_init assoc_array_iter_init
#define iter_next assoc_array_iter_next
#define iter_key assoc_array_iter_get_key
#define iter_value assoc_array_iter_get_value
#define iter_done(i) ((void)0)
#endif
#endif
