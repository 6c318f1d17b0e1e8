/*
 * C43: every container with items, pairs or iterators, COUNT elements of any 64 bits (behind PREFILL known ones), one
 * perhaps taken out. The macros that read a pair, an iterator or an item yield what the functions yield; an element replaced
 * through an item is from then on the one the list holds.
 */
#define ELEMENTS 8
#include "subject.h"

#ifndef COUNT
#define COUNT 3
#endif

static Subject s;

/* an element that is not there yet */
static void *
fresh(void)
{
	void *e = (void *)(uintptr_t)vp_range(2 * ROOM + 2, UINT64_MAX);

	for(size_t k = 0; k < s.n; ++k)
	{
		VP_ASSUME(s.ref[k] != e);
	}
	return e;
}

static void
same(void *a, void *b, const char *what)
{
	VP_ASSERT(a == b, what);
	(void)what;
}

#define PAIRS(PAIR, T, I, DONE) \
	for(size_t i = 0; i < s.n; ++i) \
	{ \
		PAIR *p = T##_lookup(s.obj, s.ref[i]); \
		VP_ASSERT(p != NULL, "a present key is found"); \
		same(T##_pair_key(p), s.ref[i], "the macro yields the key of the pair"); \
		same(T##_pair_value(p), s.val[i], "the macro yields the value of the pair"); \
		same(T##_pair_get_key(p), s.ref[i], "the function yields the key of the pair"); \
		same(T##_pair_get_value(p), s.val[i], "the function yields the value of the pair"); \
	} \
	if(s.n) \
	{ \
		size_t at = s_place(s.n); \
		PAIR *p = T##_lookup(s.obj, s.ref[at]); \
		void *v = (void *)(uintptr_t)vp_u64(); \
		if(s.owns) \
		{ \
			v = (void *)(uintptr_t)0x7777; \
		} \
		s_leaves(&s, s.val[at]); \
		T##_pair_set_value(p, v); \
		s.val[at] = v; \
		s_settle(); \
		same(T##_pair_value(p), v, "the macro yields the new value of the pair"); \
		same(T##_pair_get_value(p), v, "the function yields the new value of the pair"); \
	} \
	{ \
		I it; \
		size_t n = 0; \
		T##_iter_init(s.obj, &it); \
		while(n <= s.n && T##_iter_next(&it)) \
		{ \
			void *k = T##_iter_key(it), *v = T##_iter_value(it); \
			size_t at = 0; \
			same(T##_iter_get_key(&it), k, "function and macro yield the same key"); \
			same(T##_iter_get_value(&it), v, "function and macro yield the same value"); \
			while(at < s.n && s.ref[at] != k) \
			{ \
				++at; \
			} \
			VP_ASSERT(at < s.n && s.val[at] == v, "the macros yield an entry"); \
			++n; \
		} \
		VP_ASSERT(n == s.n, "every entry is yielded"); \
		DONE; \
	}

#define ITEMS(ITEM, T) \
	if(s.n) \
	{ \
		size_t at = s_place(s.n), i = 0; \
		ITEM *it = T##_head(s.obj); \
		for(; it && i < at; ++i) \
		{ \
			it = T##_item_next(it); \
		} \
		VP_ASSERT(it && T##_item_get_data(it) == s.ref[at], "the macros walk to the item"); \
		void *e = fresh(), *old = s.ref[at]; \
		bool first = vp_choose(0, 1) != 0; \
		if(first) \
		{ \
			VP_ASSERT(!T##_contains(s.obj, e) && T##_find(s.obj, NULL, e) == NULL, "an element that is not there is not found"); \
		} \
		else \
		{ \
			VP_ASSERT(T##_contains(s.obj, old) && T##_find(s.obj, NULL, old) == it, "the element is found"); \
		} \
		T##_item_set_data(it, e); \
		s.ref[at] = e; \
		same(T##_item_get_data(it), e, "the item holds the new element"); \
		if(first) \
		{ \
			VP_ASSERT(T##_contains(s.obj, e) && T##_find(s.obj, NULL, e) == it, "the new element is found"); \
		} \
		else \
		{ \
			VP_ASSERT(!T##_contains(s.obj, old) && T##_find(s.obj, NULL, old) == NULL, "the former element is not found any more"); \
		} \
	}

static void
check(void)
{
	switch(s.kind)
	{
		case S_LIST: ITEMS(ListItem, list) break;
		case S_SLIST: ITEMS(SListItem, slist) break;
		case S_HASH: PAIRS(HashTablePair, hashtable, HashTableIter, (void)0) break;
		case S_TREE: PAIRS(RBTreePair, rbtree, RBTreeIter, rbtree_iter_free(&it)) break;
		default: PAIRS(AssocArrayPair, assoc_array, AssocArrayIter, (void)0)
	}
	s_check(&s);
}

void
harness(void)
{
	static const int kinds[] = {S_LIST, S_SLIST, S_HASH, S_TREE, S_ARRAY};

	int kind = kinds[vp_choose(0, 4)];
	bool owns = vp_choose(0, 1) != 0;

	s_open(&s, kind, NULL, owns, NULL);

#if PREFILL
	s_prefill(&s, 0, vp_choose(0, IS_MAP(s.kind) ? 2 : 0));
#endif
	for(int i = 0; i < COUNT; ++i)
	{
		void *e = fresh();

		s_add(&s, e, (void *)(uintptr_t)(0x1000 + i));
	}

	check();
	if(s.n && vp_choose(0, 1))
	{
		s_drop(&s, s_place(s.n));
		check();
	}

	vp_observe(s.n);
	s_close(&s);
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
