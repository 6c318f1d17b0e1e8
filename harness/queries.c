/*
 * C40: a container of up to BUILD elements, from which one was perhaps taken. An iteration is begun and left after
 * any number of steps; QUERIES questions of any kind follow - other iterations among them, finished or abandoned -
 * and then the first iteration is continued. Nothing the container shows may depend on the questions.
 */
#define ELEMENTS 12
#include "subject.h"

#ifndef BUILD
#define BUILD 4
#endif
#ifndef QUERIES
#define QUERIES 2
#endif
#ifndef BUILDMIN
#define BUILDMIN 0
#endif
#ifndef WALK
#define WALK(n) vp_choose(0, n)
#endif

static Subject s;
#if PREFILL
#undef WALK
#define WALK(n) s_walk(n)
static size_t s_walk(size_t n);
#endif

typedef struct
{
	bool seen[ROOM + 1];
	size_t n;
	bool ended;
	union { HashTableIter hash; RBTreeIter tree; AssocArrayIter array; ListItem *item; SListItem *sitem; } it;
} Walk;

#if PREFILL
/* at most n, or one of a few */
static size_t
s_walk(size_t n)
{
	size_t w = vp_choose(0, 3);

	return w == 3 ? n : w == 2 ? n / 2 : w < n ? w : n;
}
#endif

static bool
is_walkable(void)
{
	return IS_MAP(s.kind) || IS_LIST(s.kind);
}

static void
walk_begin(Walk *w)
{
	memset(w, 0, sizeof(*w));
	switch(s.kind)
	{
		case S_LIST: w->it.item = list_head(s.obj); break;
		case S_SLIST: w->it.sitem = slist_head(s.obj); break;
		case S_HASH: hashtable_iter_init(s.obj, &w->it.hash); break;
		case S_TREE: rbtree_iter_init(s.obj, &w->it.tree); break;
		case S_ARRAY: assoc_array_iter_init(s.obj, &w->it.array); break;
	}
}

static void
walk_free(Walk *w)
{
	if(s.kind == S_TREE)
	{
		rbtree_iter_free(&w->it.tree);
	}
}

static void
walk_step(Walk *w)
{
	void *k = NULL, *v = NULL;

	switch(s.kind)
	{
		case S_LIST: if(w->it.item) { k = list_item_get_data(w->it.item); w->it.item = list_item_next(w->it.item); } break;
		case S_SLIST: if(w->it.sitem) { k = slist_item_get_data(w->it.sitem); w->it.sitem = slist_item_next(w->it.sitem); } break;
		case S_HASH: if(hashtable_iter_next(&w->it.hash)) { k = hashtable_iter_get_key(&w->it.hash); v = hashtable_iter_get_value(&w->it.hash); } break;
		case S_TREE: if(rbtree_iter_next(&w->it.tree)) { k = rbtree_iter_get_key(&w->it.tree); v = rbtree_iter_get_value(&w->it.tree); } break;
		case S_ARRAY: if(assoc_array_iter_next(&w->it.array)) { k = assoc_array_iter_get_key(&w->it.array); v = assoc_array_iter_get_value(&w->it.array); } break;
	}

	if(!k)
	{
		VP_ASSERT(w->n == s.n, "an iteration yields every element, whatever was asked meanwhile");
		w->ended = true;
		return;
	}

	VP_ASSERT(!w->ended, "an iteration stays at its end");
	size_t at = 0;
	while(at < s.n && s.ref[at] != k)
	{
		++at;
	}
	VP_ASSERT(at < s.n && !w->seen[at], "an iteration yields every element once, whatever was asked meanwhile");
	VP_ASSERT(!IS_MAP(s.kind) || s.val[at] == v, "with its value");
	VP_ASSERT(!IS_LIST(s.kind) || at == w->n, "in order");
	w->seen[at] = true;
	++w->n;
}

/* a key that is there, or one that is not */
static void *
any_key(size_t *at)
{
#if PREFILL
	*at = vp_choose(0, 1) ? s_place(s.n) : s.n;
#else
	*at = vp_choose(0, s.n);
#endif
	return *at < s.n ? s.ref[*at] : (void *)(uintptr_t)(2 * ROOM + 1001);
}

static bool looked_up;

static void
question(void)
{
	size_t at;
	void *e, *p = NULL;
	Walk w;

	looked_up = false;
	switch(vp_choose(0, 3))
	{
		case 0: /* another iteration, perhaps abandoned */
			VP_ASSUME(is_walkable());
			walk_begin(&w);
			for(size_t i = WALK(s.n + 1); i; --i)
			{
				walk_step(&w);
			}
			walk_free(&w);
			break;

		case 1: /* is it there? */
			VP_ASSUME(is_walkable());
			e = any_key(&at);
			VP_ASSERT(s_has(&s, e) == (at < s.n), "what is there is found");
			break;

		case 2: /* where is it? */
			VP_ASSUME(is_walkable());
			looked_up = true;
			e = any_key(&at);
			switch(s.kind)
			{
				case S_LIST:
				{
					ListItem *i = list_find(s.obj, NULL, e);
					VP_ASSERT(!!i == (at < s.n) && (!i || list_item_get_data(i) == e), "what is there is found");
					break;
				}
				case S_SLIST:
				{
					SListItem *i = slist_find(s.obj, NULL, e);
					VP_ASSERT(!!i == (at < s.n) && (!i || slist_item_get_data(i) == e), "what is there is found");
					break;
				}
				case S_HASH: VP_ASSERT(!!hashtable_lookup(s.obj, e) == (at < s.n), "what is there is found"); break;
				case S_TREE: VP_ASSERT(!!rbtree_lookup(s.obj, e) == (at < s.n), "what is there is found"); break;
				case S_ARRAY: VP_ASSERT(!!assoc_array_lookup(s.obj, e) == (at < s.n), "what is there is found"); break;
			}
			break;

		default: /* how many, what is first? */
			VP_ASSERT(s_count(&s) == s.n, "the count is the number of elements");
			switch(s.kind)
			{
				case S_LIST: VP_ASSERT(list_empty(s.obj) == !s.n && !list_head(s.obj) == !s.n && !list_tail(s.obj) == !s.n, "an empty list has no ends"); break;
				case S_SLIST: VP_ASSERT(slist_empty(s.obj) == !s.n && !slist_head(s.obj) == !s.n, "an empty list has no ends"); break;
				case S_STACK: VP_ASSERT(stack_head((Stack *)s.obj, &p) == (s.n > 0), "head reports whether there is an element"); break;
				case S_QUEUE: VP_ASSERT(queue_head((Queue *)s.obj, &p) == (s.n > 0), "head reports whether there is an element"); break;
				case S_ARRAY: VP_ASSERT(assoc_array_size(s.obj) >= s.n, "an array holds its elements"); break;
				case S_BUFFER:
				{
					char *str = NULL;
					size_t len = 0;
					VP_ASSERT(buffer_flush(s.obj, &str, &len) == (s.n > 0), "a buffer that holds something yields it");
					VP_ASSERT(!s.n || str[s.n] == 0, "with a terminator");
					vp_free(str);
					break;
				}
			}
	}
}

void
harness(void)
{
	int kind = (int)vp_choose(0, S_KINDS - 1);
	Walk a;
	uint64_t ids = 0;
	static const uint64_t order[][ELEMENTS] = {{2, 4, 6, 8, 10, 12, 14, 16, 18, 20}, {20, 18, 16, 14, 12, 10, 8, 6, 4, 2}, {10, 2, 14, 6, 18, 4, 20, 8, 12, 16}};
	const uint64_t *o = order[IS_MAP(kind) ? vp_choose(0, 2) : 0];

	s_open(&s, kind, NULL, false, NULL);
#if PREFILL
	s_prefill(&s, 0, IS_MAP(kind) ? vp_choose(0, 2) : 0);
	o = NULL;
#else
	size_t n = vp_choose(BUILDMIN, BUILD);
	for(size_t i = 0; i < n; ++i)
	{
		ids = o[i];
		s_add(&s, (void *)(uintptr_t)ids, (void *)(uintptr_t)(ids + 1));
	}
#endif
	(void)ids;
	(void)o;
	if(s.n && kind != S_BUFFER && vp_choose(0, 1))
	{
		s_drop(&s, s_place(s.n));
	}

	walk_begin(&a);
	for(size_t i = is_walkable() ? WALK(s.n) : 0; i; --i)
	{
		walk_step(&a);
	}

	/* a pair found before */
	void *pair = NULL;
	size_t found = 0;
	if(IS_MAP(kind) && s.n)
	{
		found = WALK(s.n - 1);
		pair = kind == S_HASH ? (void *)hashtable_lookup(s.obj, s.ref[found]) : kind == S_TREE ? (void *)rbtree_lookup(s.obj, s.ref[found]) : (void *)assoc_array_lookup(s.obj, s.ref[found]);
		VP_ASSERT(pair != NULL, "what is there is found");
	}

	bool valid = pair != NULL;
	for(int i = 0; i < QUERIES; ++i)
	{
		question();
		valid = valid && !looked_up;
	}

	if(valid)
	{
		void *k = kind == S_HASH ? hashtable_pair_get_key(pair) : kind == S_TREE ? rbtree_pair_get_key(pair) : assoc_array_pair_get_key(pair);
		void *v = kind == S_HASH ? hashtable_pair_get_value(pair) : kind == S_TREE ? rbtree_pair_get_value(pair) : assoc_array_pair_get_value(pair);
		VP_ASSERT(k == s.ref[found] && v == s.val[found], "a pair that was found stays the one found until the next lookup");
	}

	if(is_walkable())
	{
		while(!a.ended)
		{
			walk_step(&a);
		}
		walk_step(&a);
	}
	walk_free(&a);
	s_check(&s);
	vp_observe(s.n);
	s_close(&s);
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
