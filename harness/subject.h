/*
 * One interface over every container, with a reference beside it: the elements in the order they were added.
 * An element is an opaque pointer; for a map it is the key, and the value is another one. With release
 * functions, everything that leaves a container other than by a pop must be released then, once, and nothing else.
 */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"

#ifndef ELEMENTS
#define ELEMENTS 8
#endif
#ifndef PREFILL
#define PREFILL 0
#endif
#undef ROOM
#define ROOM (ELEMENTS + PREFILL)
#ifndef HASH_SIZE
#define HASH_SIZE 3
#endif

enum { S_LIST, S_SLIST, S_STACK, S_QUEUE, S_ASYNC, S_HASH, S_TREE, S_ARRAY, S_BUFFER, S_KINDS };

#define IS_MAP(k) ((k) == S_HASH || (k) == S_TREE || (k) == S_ARRAY)
#define IS_LIST(k) ((k) == S_LIST || (k) == S_SLIST)

typedef struct
{
	int kind;
	bool heap, owns;
	Pool *pool;
	void *obj;
	void *ref[ROOM + 1], *val[ROOM + 1];
	size_t n;
} Subject;

#ifdef NESTED
static void s_inside(void); /* called from within every function of the caller */
static bool s_is_inside;
#define S_SPREAD 0x10001u /* all 32 bits of a hash value count */
#else
#define s_inside() ((void)0)
#define s_is_inside false
#define S_SPREAD 1u
#endif

static int32_t s_compare(const void *a, const void *b) { s_inside(); return (a > b) - (a < b); }
static bool s_equal(const void *a, const void *b) { s_inside(); return a == b; }
static uint32_t s_hash(const void *p) { s_inside(); return (uint32_t)(uintptr_t)p * S_SPREAD; }

static size_t s_table_size = HASH_SIZE; /* of the next table */

static void *s_due[2 * ROOM + 2]; /* what the current operation must release */
static size_t s_ndue;

static void
s_release(void *p)
{
	bool found = false;

	for(size_t i = 0; i < s_ndue && !found; ++i)
	{
		if(s_due[i] == p)
		{
			s_due[i] = s_due[--s_ndue];
			found = true;
		}
	}

	VP_ASSERT(found, "only what leaves the container is released, once");
	s_inside();
}

static void
s_leaves(Subject *s, void *p)
{
	if(s->owns && p)
	{
		s_due[s_ndue++] = p;
	}
}

static void
s_settle(void)
{
	VP_ASSERT(s_is_inside || s_ndue == 0, "what leaves the container is released");
}

static size_t
s_size(int kind)
{
	switch(kind)
	{
		case S_LIST: return sizeof(List);
		case S_SLIST: return sizeof(SList);
		case S_STACK: return sizeof(Stack);
		case S_QUEUE: return sizeof(Queue);
		case S_ASYNC: return sizeof(AsyncQueue);
		case S_HASH: return sizeof(HashTable);
		case S_TREE: return sizeof(RBTree);
		case S_ARRAY: return sizeof(AssocArray);
		default: return sizeof(Buffer);
	}
}

static size_t
s_node_size(int kind)
{
	return kind == S_LIST ? sizeof(ListItem) : kind == S_TREE ? sizeof(RBNode) : sizeof(SListItem);
}

/* In the memory given, or on the heap if there is none. */
static void
s_open(Subject *s, int kind, void *memory, bool owns, Pool *pool)
{
	FreeFunc release = owns ? s_release : NULL;

	s->kind = kind;
	s->heap = !memory;
	s->owns = owns && kind != S_BUFFER;
	s->pool = pool;
	s->obj = memory;
	s->n = 0;

	switch(kind)
	{
		case S_LIST: if(memory) list_init(memory, s_compare, release, pool); else s->obj = list_new(s_compare, release, pool); break;
		case S_SLIST: if(memory) slist_init(memory, s_compare, release, pool); else s->obj = slist_new(s_compare, release, pool); break;
		case S_STACK: if(memory) stack_init((Stack *)memory, s_compare, release, pool); else s->obj = stack_new(s_compare, release, pool); break;
		case S_QUEUE: if(memory) queue_init((Queue *)memory, s_compare, release, pool); else s->obj = queue_new(s_compare, release, pool); break;
		case S_ASYNC: if(memory) async_queue_init(memory, s_compare, release, pool); else s->obj = async_queue_new(s_compare, release, pool); break;
		case S_HASH: if(memory) hashtable_init(memory, s_table_size, s_hash, s_equal, release, release); else s->obj = hashtable_new(s_table_size, s_hash, s_equal, release, release); break;
		case S_TREE: if(memory) rbtree_init(memory, s_compare, release, release, pool); else s->obj = rbtree_new(s_compare, release, release, pool); break;
		case S_ARRAY: if(memory) assoc_array_init(memory, s_compare, release, release); else s->obj = assoc_array_new(s_compare, release, release); break;
		default: if(memory) buffer_init(memory, 5000); else s->obj = buffer_new(5000);
	}
}

static void
s_all_leave(Subject *s)
{
	for(size_t i = 0; i < s->n; ++i)
	{
		s_leaves(s, s->ref[i]);
		if(IS_MAP(s->kind))
		{
			s_leaves(s, s->val[i]);
		}
	}
	s->n = 0;
}

static void
s_close(Subject *s)
{
	s_all_leave(s);

	switch(s->kind)
	{
		case S_LIST: if(s->heap) list_destroy(s->obj); else list_free(s->obj); break;
		case S_SLIST: if(s->heap) slist_destroy(s->obj); else slist_free(s->obj); break;
		case S_STACK: if(s->heap) stack_destroy((Stack *)s->obj); else stack_free((Stack *)s->obj); break;
		case S_QUEUE: if(s->heap) queue_destroy((Queue *)s->obj); else queue_free((Queue *)s->obj); break;
		case S_ASYNC: if(s->heap) async_queue_destroy(s->obj); else async_queue_free(s->obj); break;
		case S_HASH: if(s->heap) hashtable_destroy(s->obj); else hashtable_free(s->obj); break;
		case S_TREE: if(s->heap) rbtree_destroy(s->obj); else rbtree_free(s->obj); break;
		case S_ARRAY: if(s->heap) assoc_array_destroy(s->obj); else assoc_array_free(s->obj); break;
		default: if(s->heap) buffer_destroy(s->obj); else buffer_free(s->obj);
	}

	s_settle();
}

static void
s_clear(Subject *s)
{
	s_all_leave(s);

	switch(s->kind)
	{
		case S_LIST: list_clear(s->obj); break;
		case S_SLIST: slist_clear(s->obj); break;
		case S_STACK: stack_clear((Stack *)s->obj); break;
		case S_QUEUE: queue_clear((Queue *)s->obj); break;
		case S_ASYNC: async_queue_clear(s->obj); break;
		case S_HASH: hashtable_clear(s->obj); break;
		case S_TREE: rbtree_clear(s->obj); break;
		case S_ARRAY: assoc_array_clear(s->obj); break;
		default: buffer_clear(s->obj);
	}

	s_settle();
}

/* An element that is not there yet. */
static void
s_add(Subject *s, void *e, void *v)
{
	switch(s->kind)
	{
		case S_LIST: VP_ASSERT(list_append(s->obj, e) != NULL, "an insertion yields its item"); break;
		case S_SLIST: VP_ASSERT(slist_append(s->obj, e) != NULL, "an insertion yields its item"); break;
		case S_STACK: stack_push((Stack *)s->obj, e); break;
		case S_QUEUE: queue_push((Queue *)s->obj, e); break;
		case S_ASYNC: async_queue_push(s->obj, e); break;
		case S_HASH: VP_ASSERT(hashtable_set(s->obj, e, v, false) == HASHTABLE_INSERT_RESULT_NEW, "set reports a new key"); break;
		case S_TREE: VP_ASSERT(rbtree_set(s->obj, e, v, false) == RBTREE_INSERT_RESULT_NEW, "set reports a new key"); break;
		case S_ARRAY: VP_ASSERT(assoc_array_set(s->obj, e, v, false) == ASSOCARRAY_INSERT_RESULT_NEW, "set reports a new key"); break;
		default:
			{
				char c = (char)(uintptr_t)e;
				VP_ASSERT(buffer_fill(s->obj, &c, 1), "an append within the limit succeeds");
			}
	}

	s->ref[s->n] = e;
	s->val[s->n++] = v;
}

/* PREFILL elements with even ids from 2 on (and the odd ones behind them as values), in one of three orders. */
static uint64_t
s_prefill(Subject *s, uint64_t ids, size_t order)
{
	for(size_t i = 0; i < PREFILL; ++i)
	{
		uint64_t at = order == 0 ? i : order == 1 ? PREFILL - 1 - i : i * 77 % PREFILL;

		s_add(s, (void *)(uintptr_t)(ids + 2 * at + 2), (void *)(uintptr_t)(ids + 2 * at + 3));
	}

	return ids + 2 * PREFILL;
}

/* Any place below n, or one of a few in a large container. */
static size_t
s_place(size_t n)
{
#if PREFILL
	size_t w = vp_choose(0, 4);

	VP_ASSUME(w < n);
	return w < 2 ? w : w == 2 ? n / 2 : n - (w - 2);
#else
	return vp_choose(0, n - 1);
#endif
}

static void
s_forget(Subject *s, size_t at)
{
	for(--s->n; at < s->n; ++at)
	{
		s->ref[at] = s->ref[at + 1];
		s->val[at] = s->val[at + 1];
	}
}

/* Takes one element out: a given one where the container allows it. */
static void
s_drop(Subject *s, size_t at)
{
	void *e, *got;

	if(s->kind == S_BUFFER)
	{
		s_clear(s);
		return;
	}

	if(s->kind == S_STACK)
	{
		at = s->n - 1;
	}
	else if(s->kind == S_QUEUE || s->kind == S_ASYNC)
	{
		at = 0;
	}
	else
	{
		s_leaves(s, s->ref[at]);
		if(IS_MAP(s->kind))
		{
			s_leaves(s, s->val[at]);
		}
	}

	e = s->ref[at];
	s_forget(s, at);

	switch(s->kind)
	{
		case S_LIST: list_remove_by_data(s->obj, e, false); break;
		case S_SLIST: slist_remove_by_data(s->obj, e, false); break;
		case S_STACK: VP_ASSERT(stack_pop((Stack *)s->obj, &got) && got == e, "a pop yields the right element"); break;
		case S_QUEUE: VP_ASSERT(queue_pop((Queue *)s->obj, &got) && got == e, "a pop yields the right element"); break;
		case S_ASYNC: VP_ASSERT(async_queue_pop(s->obj, &got) && got == e, "a pop yields the right element"); break;
		case S_HASH: hashtable_remove(s->obj, e); break;
		case S_TREE: VP_ASSERT(rbtree_remove(s->obj, e), "remove reports what it did"); break;
		default: assoc_array_remove(s->obj, e);
	}

	s_settle();
}

static size_t
s_count(Subject *s)
{
	switch(s->kind)
	{
		case S_LIST: return list_count(s->obj);
		case S_SLIST: return slist_count(s->obj);
		case S_STACK: return stack_count((Stack *)s->obj);
		case S_QUEUE: return queue_count((Queue *)s->obj);
		case S_ASYNC: return async_queue_count(s->obj);
		case S_HASH: return hashtable_count(s->obj);
		case S_TREE: return rbtree_count(s->obj);
		case S_ARRAY: return assoc_array_count(s->obj);
		default: return buffer_len(s->obj);
	}
}

/* The whole of what can be seen of it. */
static void
s_check(Subject *s)
{
	size_t yielded = 0;
	void *p = NULL;

	VP_ASSERT(s_count(s) == s->n, "the count is the number of elements");

	switch(s->kind)
	{
		case S_LIST:
			{
				ListItem *it = list_head(s->obj);
				for(; it && yielded < s->n; it = list_item_next(it))
				{
					VP_ASSERT(list_item_get_data(it) == s->ref[yielded++], "the list holds the elements in order");
				}
				VP_ASSERT(!it && yielded == s->n && list_empty(s->obj) == !s->n, "and nothing else");
				it = list_tail(s->obj);
				for(; it && yielded; it = list_item_prev(it))
				{
					VP_ASSERT(list_item_get_data(it) == s->ref[--yielded], "the list holds the elements in order, backwards");
				}
				VP_ASSERT(!it && !yielded, "and nothing else");
			}
			break;

		case S_SLIST:
			{
				SListItem *it = slist_head(s->obj);
				for(; it && yielded < s->n; it = slist_item_next(it))
				{
					VP_ASSERT(slist_item_get_data(it) == s->ref[yielded++], "the list holds the elements in order");
				}
				VP_ASSERT(!it && yielded == s->n && slist_empty(s->obj) == !s->n, "and nothing else");
			}
			break;

		case S_STACK:
			VP_ASSERT(stack_head((Stack *)s->obj, &p) == (s->n > 0) && (!s->n || p == s->ref[s->n - 1]), "head yields the element pushed last");
			break;

		case S_QUEUE:
			VP_ASSERT(queue_head((Queue *)s->obj, &p) == (s->n > 0) && (!s->n || p == s->ref[0]), "head yields the element pushed first");
			break;

		case S_ASYNC:
			break;

		case S_HASH:
			for(size_t i = 0; i < s->n; ++i)
			{
				HashTablePair *pair = hashtable_lookup(s->obj, s->ref[i]);
				VP_ASSERT(pair && hashtable_pair_get_key(pair) == s->ref[i] && hashtable_pair_get_value(pair) == s->val[i], "a present key is found with its value");
			}
			break;

		case S_TREE:
			for(size_t i = 0; i < s->n; ++i)
			{
				RBTreePair *pair = rbtree_lookup(s->obj, s->ref[i]);
				VP_ASSERT(pair && rbtree_pair_get_key(pair) == s->ref[i] && rbtree_pair_get_value(pair) == s->val[i], "a present key is found with its value");
			}
			break;

		case S_ARRAY:
			for(size_t i = 0; i < s->n; ++i)
			{
				AssocArrayPair *pair = assoc_array_lookup(s->obj, s->ref[i]);
				VP_ASSERT(pair && assoc_array_pair_get_key(pair) == s->ref[i] && assoc_array_pair_get_value(pair) == s->val[i], "a present key is found with its value");
			}
			break;

		default:
			{
				VP_ASSERT(buffer_is_valid(s->obj) && buffer_is_empty(s->obj) == !s->n, "the buffer is valid");
				char *str = buffer_to_string(s->obj);
				VP_ASSERT((str != NULL) == (s->n > 0), "a buffer that holds something yields a string");
				for(size_t i = 0; i < s->n; ++i)
				{
					VP_ASSERT(str[i] == (char)(uintptr_t)s->ref[i], "of the bytes appended");
				}
				VP_ASSERT(!str || !str[s->n], "and a terminator");
				vp_free(str);
			}
	}
}

static bool
s_has(Subject *s, void *e)
{
	switch(s->kind)
	{
		case S_LIST: return list_contains(s->obj, e);
		case S_SLIST: return slist_contains(s->obj, e);
		case S_HASH: return hashtable_key_exists(s->obj, e);
		case S_TREE: return rbtree_key_exists(s->obj, e);
		default: return assoc_array_key_exists(s->obj, e);
	}
}
