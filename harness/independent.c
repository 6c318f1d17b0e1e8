/*
 * C32: two containers of the same kind (with MIXED: of different kinds), OPS arbitrary operations on either of them. With POOLS they share one
 * memory pool.
 * With NESTED the second one is used from within the functions that the first one calls.
 */
#ifndef ELEMENTS
#define ELEMENTS 6
#endif
#include "subject.h"

#ifndef OPS
#define OPS 4
#endif

static Subject s[2];
static uint64_t ids;

#ifdef NESTED
static bool armed, mutating;

static void
s_inside(void)
{
	if(!armed)
	{
		return;
	}

	armed = false;
	s_is_inside = true;
	if(!mutating)
	{
		if(s[1].n && (IS_LIST(s[1].kind) || IS_MAP(s[1].kind)))
		{
			VP_ASSERT(s_has(&s[1], s[1].ref[0]), "an element is found from within a function of another container");
		}
		s_check(&s[1]);
	}
	else if(s[1].n < 3)
	{
		ids += 2;
		s_add(&s[1], (void *)(uintptr_t)ids, (void *)(uintptr_t)(ids + 1));
	}
	else if(ids % 8)
	{
		ids += 2;
		s_drop(&s[1], ids / 2 % s[1].n);
	}
	else
	{
		ids += 2;
		s_clear(&s[1]);
	}
	s_is_inside = false;
	armed = true;
}
#define ARM(x) armed = (x)
#else
#define ARM(x) ((void)0)
#endif

#define BOTH(PAIR, LOOKUP, KEY, VALUE) \
	{ \
		PAIR *p = LOOKUP(s[0].obj, s[0].ref[0]), *q = LOOKUP(s[1].obj, s[1].ref[s[1].n - 1]); \
		VP_ASSERT(p && q && KEY(p) == s[0].ref[0] && VALUE(p) == s[0].val[0], "what was found in one container is not affected by a lookup in the other"); \
		VP_ASSERT(KEY(q) == s[1].ref[s[1].n - 1] && VALUE(q) == s[1].val[s[1].n - 1], "nor the other way round"); \
	}
#define BOTH_ITER(ITER, INIT, NEXT, FREE) \
	{ \
		ITER i, j; \
		size_t n = 0, m = 0; \
		INIT(s[0].obj, &i); \
		INIT(s[1].obj, &j); \
		for(bool a = true, b = true; a || b;) \
		{ \
			n += a = a && NEXT(&i); \
			m += b = b && NEXT(&j); \
			VP_ASSERT(n <= s[0].n && m <= s[1].n, "iterations do not disturb each other"); \
		} \
		VP_ASSERT(n == s[0].n && m == s[1].n, "iterations do not disturb each other"); \
		FREE; \
	}

/* Lookups and iterations of both at the same time. */
static void
interleave(int kind)
{
	if(kind == S_HASH)
	{
		BOTH_ITER(HashTableIter, hashtable_iter_init, hashtable_iter_next, (void)0)
	}
	else if(kind == S_TREE)
	{
		BOTH_ITER(RBTreeIter, rbtree_iter_init, rbtree_iter_next, (rbtree_iter_free(&i), rbtree_iter_free(&j)))
	}
	else if(kind == S_ARRAY)
	{
		BOTH_ITER(AssocArrayIter, assoc_array_iter_init, assoc_array_iter_next, (void)0)
	}
	if(s[0].n && s[1].n)
	{
		if(kind == S_HASH)
		{
			BOTH(HashTablePair, hashtable_lookup, hashtable_pair_get_key, hashtable_pair_get_value)
		}
		else if(kind == S_TREE)
		{
			BOTH(RBTreePair, rbtree_lookup, rbtree_pair_get_key, rbtree_pair_get_value)
		}
		else if(kind == S_ARRAY)
		{
			BOTH(AssocArrayPair, assoc_array_lookup, assoc_array_pair_get_key, assoc_array_pair_get_value)
		}
	}
}

void
harness(void)
{
#ifdef POOLS
	static const int kinds[] = {S_LIST, S_SLIST, S_STACK, S_QUEUE, S_ASYNC, S_TREE};
	int kind = kinds[vp_choose(0, sizeof(kinds) / sizeof(*kinds) - 1)];
	MemoryPool *pool = memory_pool_new(s_node_size(kind), vp_choose(2, 3));
#else
	int kind = (int)vp_choose(0, S_KINDS - 1);
	MemoryPool *pool = NULL;
#endif
	bool owns = vp_bool();

	s_open(&s[0], kind, NULL, owns, (Pool *)pool);
#ifdef MIXED
	int other = (int)vp_choose(0, S_KINDS - 1);
#ifdef POOLS
	VP_ASSUME(other != S_HASH && other != S_ARRAY && other != S_BUFFER && s_node_size(other) <= s_node_size(kind));
#endif
#ifndef NESTED
	VP_ASSUME(other != kind);
#endif
#else
	int other = kind;
#endif
#ifdef NESTED
	mutating = vp_bool();
	s_table_size = vp_choose(0, 1) ? HASHTABLE_AUTO_RESIZE : HASH_SIZE;
	s_open(&s[1], other, NULL, false, (Pool *)pool);
	for(int i = 0; i < 2; ++i)
	{
		ids += 2;
		s_add(&s[1], (void *)(uintptr_t)ids, (void *)(uintptr_t)(ids + 1));
	}
	for(int i = 0; i < BUILD; ++i)
	{
		ids += 2;
		s_add(&s[0], (void *)(uintptr_t)ids, (void *)(uintptr_t)(ids + 1));
	}
#else
	s_open(&s[1], other, NULL, owns, (Pool *)pool);
#endif

#if PREFILL
	ids = s_prefill(&s[0], ids, vp_choose(0, IS_MAP(kind) ? 2 : 0));
	ids = s_prefill(&s[1], ids, 2);
#endif
	for(int i = 0; i < OPS; ++i)
	{
#ifdef NESTED
		Subject *x = &s[0];
		ARM(true);
#else
		Subject *x = &s[vp_choose(0, 1)];
#endif

		switch(vp_choose(0, 2))
		{
			case 0:
				ids += 2;
				s_add(x, (void *)(uintptr_t)ids, (void *)(uintptr_t)(ids + 1));
				break;
			case 1:
				VP_ASSUME(x->n > 0);
				s_drop(x, s_place(x->n));
				break;
			default:
				s_clear(x);
		}
		ARM(false);

		s_check(&s[0]);
		s_check(&s[1]);
		if(kind == other && (IS_LIST(kind) || IS_MAP(kind)))
		{
			for(size_t k = 0; k < x->n; ++k)
			{
				VP_ASSERT(!s_has(&s[x == &s[0]], x->ref[k]), "an element of one container is not found in another");
			}
		}
	}

	if(kind == other)
	{
		interleave(kind);
	}
	vp_observe(s[0].n * 16 + s[1].n);

	size_t last = vp_choose(0, 1);
	ARM(last);
	s_close(&s[!last]);
	ARM(false);
	s_check(&s[last]);
	s_close(&s[last]);
	if(pool)
	{
		memory_pool_destroy(pool);
	}
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
