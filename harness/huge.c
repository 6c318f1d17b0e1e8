/*
 * One container of N elements, more than 16 bits can count: filled, looked at, and emptied in one of several ways.
 * The elements (of maps: the values)
 * are base + i for an arbitrary 64-bit base.
 */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"

#ifndef N
#define N 65700
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif

enum { H_LIST = 1, H_SLIST, H_STACK, H_QUEUE, H_ASYNC, H_HASH, H_TREE, H_ARRAY, H_POOL };

static uint64_t base;
static uint64_t released;
static bool owns;

#define VAL(i) ((void *)(uintptr_t)(base + (uint64_t)(i)))
#if KIND == 1 || KIND == 2 || KIND > 5 /* keys are known, so that comparing them is cheap */
#define EL(i) ((void *)(uintptr_t)((uint64_t)N * 2 + (uint64_t)(i)))
#else
#define EL(i) VAL(i)
#endif
#define ID(p) ((uint64_t)(uintptr_t)(p))

static unsigned calls;
static inline int32_t compare(const void *a, const void *b) { ++calls; uint64_t x = ID(a), y = ID(b); return (x > y) - (x < y); }
static inline bool equal(const void *a, const void *b) { ++calls; return ID(a) == ID(b); }
static inline uint32_t hash(const void *p) { return (uint32_t)ID(p); }
static inline void release(void *p) { ++released; }

static void *tab[N];
static size_t count, first; /* elements first .. first + count - 1 are in */

#if KIND == 1 || KIND == 2

#if KIND == 1
#define T List
#define I ListItem
#define F(x) list_##x
#else
#define T SList
#define I SListItem
#define F(x) slist_##x
#endif
static T *t;
static void make(void) { t = F(new)(compare, owns ? release : NULL, NULL); }
static size_t size(void) { return F(count)(t); }
static void add(uint64_t i) { tab[i] = F(append)(t, EL(i)); VP_ASSERT(tab[i] != NULL, "an insertion yields its item"); }
static void
check(void)
{
	size_t n = 0;
	for(I *i = F(head)(t); i && n < count; ++n, i = F(item_next)(i))
	{
		VP_ASSERT((void *)i == tab[first + n] && F(item_get_data)(i) == EL(first + n), "the list holds the elements in order");
	}
	VP_ASSERT(n == count && F(empty)(t) == !count && (count || !F(head)(t)), "and no others");
#if KIND == 1
	for(I *i = F(tail)(t); i && n; i = F(item_prev)(i))
	{
		--n;
		VP_ASSERT((void *)i == tab[first + n], "the list holds the elements in order, backwards");
	}
	VP_ASSERT(n == 0, "and no others");
#endif
	VP_ASSERT(!count || (F(contains)(t, EL(first)) && F(contains)(t, EL(first + count - 1)) && F(contains)(t, EL(first + count / 2))), "what is stored is found");
	VP_ASSERT(!F(contains)(t, EL(first + count)), "what is not stored is not found");
}
static void
take(bool back)
{
	if(back)
	{
#if KIND == 1
		list_remove(t, tab[first + count - 1]);
		released -= owns;
		--count;
		return;
#endif
	}
	VP_ASSERT(F(pop)(t) == EL(first), "a pop yields the first element");
	++first;
	--count;
}
static void clear(void) { F(clear)(t); }
static void unmake(void) { F(destroy)(t); }

#elif KIND == 3 || KIND == 4 || KIND == 5

#if KIND == 3
#define T Stack
#define F(x) stack_##x
#elif KIND == 4
#define T Queue
#define F(x) queue_##x
#else
#define T AsyncQueue
#define F(x) async_queue_##x
#endif
static T *t;
static void make(void) { t = F(new)(compare, owns ? release : NULL, NULL); }
static size_t size(void) { return F(count)(t); }
static void add(uint64_t i) { F(push)(t, EL(i)); }
static void
check(void)
{
#if KIND != 5
	void *p = NULL;
	VP_ASSERT(F(head)(t, &p) == (count > 0), "head reports whether there is an element");
	VP_ASSERT(!count || p == EL(KIND == 3 ? first + count - 1 : first), "head yields the right element");
#endif
}
static void
take(bool back)
{
	void *p = NULL;
	VP_ASSERT(F(pop)(t, &p), "a pop yields an element");
	--count;
#if KIND == 3
	VP_ASSERT(p == EL(first + count), "the one pushed last");
#else
	VP_ASSERT(p == EL(first), "the one pushed first");
	++first;
#endif
}
static void clear(void) { F(clear)(t); }
static void unmake(void) { F(destroy)(t); }

#elif KIND == 9

static MemoryPool *t;
static Pool *pool;
static void make(void) { t = memory_pool_new(16, BLOCK); pool = (Pool *)t; }
static size_t size(void) { return count; }
static void
add(uint64_t i)
{
	uint64_t *p = pool->alloc(pool);
	VP_ASSERT(p != NULL, "an item is handed out");
	tab[i] = p;
	p[0] = base + i;
	p[1] = ~i;
}
static void
check(void)
{
	for(size_t i = 0; i < count; ++i)
	{
		uint64_t *p = tab[first + i];
		VP_ASSERT(p[0] == base + first + i && p[1] == ~(uint64_t)(first + i), "an item keeps its contents");
	}
}
static void
take(bool back)
{
	--count;
	if(back)
	{
		pool->free(pool, tab[first + count]);
	}
	else
	{
		pool->free(pool, tab[first++]);
	}
}
static void clear(void) { while(count) { take(false); } }
static void unmake(void) { memory_pool_destroy(t); }

#else

#if KIND == 6
#define T HashTable
#define P HashTablePair
#define F(x) hashtable_##x
#define RESULT_NEW HASHTABLE_INSERT_RESULT_NEW
#define RESULT_REPLACED HASHTABLE_INSERT_RESULT_REPLACED
#define ITER HashTableIter
#elif KIND == 7
#define T RBTree
#define P RBTreePair
#define F(x) rbtree_##x
#define RESULT_NEW RBTREE_INSERT_RESULT_NEW
#define RESULT_REPLACED RBTREE_INSERT_RESULT_REPLACED
#define ITER RBTreeIter
#else
#define T AssocArray
#define P AssocArrayPair
#define F(x) assoc_array_##x
#define RESULT_NEW ASSOCARRAY_INSERT_RESULT_NEW
#define RESULT_REPLACED ASSOCARRAY_INSERT_RESULT_REPLACED
#define ITER AssocArrayIter
#endif
static T *t;
static void
make(void)
{
#if KIND == 6
	t = hashtable_new(HASHTABLE_AUTO_RESIZE, hash, equal, owns ? release : NULL, NULL);
#elif KIND == 7
	t = rbtree_new(compare, owns ? release : NULL, NULL, NULL);
#else
	t = assoc_array_new(compare, owns ? release : NULL, NULL);
#endif
}
static size_t size(void) { return F(count)(t); }
static void
add(uint64_t i)
{
	VP_ASSERT(F(set)(t, EL(i), VAL(~i), false) == RESULT_NEW, "set reports a new key");
}
static void
check(void)
{
	size_t n = 0;
	for(size_t i = 0; i < count; ++i)
	{
		calls = 0;
		P *p = F(lookup)(t, EL(first + i));
#ifdef COST
		unsigned digits = 0;
		for(uint64_t d = count; d; d >>= 1)
		{
			++digits;
		}
		VP_ASSERT(calls <= (KIND == 6 ? 4 : 2 * digits), "a lookup takes few comparisons");
		calls = 0;
		VP_ASSERT(F(key_exists)(t, EL(first + i)), "a stored key is found");
		VP_ASSERT(calls <= (KIND == 6 ? 4 : 2 * digits), "asking for a key takes few comparisons");
#endif
		VP_ASSERT(p && F(pair_get_key)(p) == EL(first + i) && F(pair_get_value)(p) == VAL(~(uint64_t)(first + i)), "a stored key is found with its value");
	}
	VP_ASSERT(!F(key_exists)(t, EL(first - 1)) && !F(key_exists)(t, EL(first + count)), "keys that are not stored are not found");
	ITER it;
	F(iter_init)(t, &it);
	while(n <= count && F(iter_next)(&it))
	{
		++n;
	}
#if KIND == 7
	rbtree_iter_free(&it);
#endif
	VP_ASSERT(n == count, "the iteration yields each entry once");
}
static void
take(bool back)
{
#if KIND == 8
	back = back || first > 20;
#endif
	uint64_t i = back ? first + count - 1 : first++;
	F(remove)(t, EL(i));
	released -= owns;
	--count;
}
static void clear(void) { F(clear)(t); }
static void unmake(void) { F(destroy)(t); }
#endif

void
harness(void)
{
	base = vp_u64();
	VP_ASSUME(base > N && base < UINT64_MAX - 2 * N);
	unsigned way = (unsigned)vp_choose(0, 2);
#ifdef OWN
	owns = true;
#endif

	make();
	for(int round = 0; round < ROUNDS; ++round)
	{
		/* the second time only a few more than one block or bucket array of the first size */
		size_t n = round ? 70 : N;
		released = 0;
		first = 0;
		for(count = 0; count < n;)
		{
			add(count++);
			VP_ASSERT(size() == count, "the count is the number of elements");
		}
		check();
		if(way == 2)
		{
			uint64_t held = count;
			clear();
			count = 0;
			VP_ASSERT(released == (owns ? held : 0), "every element is released once");
			released = 0;
		}
		while(count)
		{
			take(way == 1);
			VP_ASSERT(size() == count, "the count is the number of elements");
			if(count == n / 2 || count == 3)
			{
				check();
			}
		}
		VP_ASSERT(size() == 0, "the container is empty");
		check();
		VP_ASSERT(released == 0, "an element removed is released once, an element popped never");
	}
	vp_observe(first);
	unmake();
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
