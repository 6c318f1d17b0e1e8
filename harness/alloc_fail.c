/*
 * C30: a fixed history of every container (SUBJECT) that reaches each place where memory is requested, several
 * times, with any one request failing. The process must end at that request.
 */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"

#ifndef SIZE
#define SIZE 40
#endif

#ifndef HASHES
#define HASHES 262
#endif

#define GO(what) do { what; VP_ASSERT(!vp_failed, "no operation goes on after a failed request: " #what); } while(0)
#define P(n) ((void *)(uintptr_t)(n))

static int32_t compare(const void *a, const void *b) { return (a > b) - (a < b); }
static uint32_t hash(const void *p) { return (uint32_t)(uintptr_t)p * 2654435761u; }
static bool equal(const void *a, const void *b) { return a == b; }

/* a permutation of 1..n */
static uintptr_t nth(uintptr_t i, uintptr_t n) { return i % 2 ? n - i / 2 : i / 2 + 1; }

static void
hashtable(void)
{
	HashTable *t;
	HashTableIter iter;

	for(int auto_size = 0; auto_size < 2; ++auto_size)
	{
		GO(t = hashtable_new(auto_size ? HASHTABLE_AUTO_RESIZE : 3, hash, equal, NULL, NULL));

		for(uintptr_t i = 0; i < (auto_size ? HASHES : SIZE); ++i)
		{
			GO(hashtable_set(t, P(i + 1), P(i + 1), i & 1));
		}

		GO(hashtable_set(t, P(2), P(9), false));
		GO(hashtable_lookup(t, P(3)));
		GO(hashtable_iter_init(t, &iter));
		GO(hashtable_iter_next(&iter));
		GO(hashtable_remove(t, P(2)));
		GO(hashtable_set(t, P(2), P(9), true));
		GO(hashtable_clear(t));
		GO(hashtable_set(t, P(2), P(9), true));
		GO(hashtable_destroy(t));
	}
}

static void
rbtree(bool pooled)
{
	RBTree *t, *u;
	RBTreeIter iter;
	MemoryPool *pool = NULL;

	if(pooled)
	{
		GO(pool = memory_pool_new(sizeof(RBNode), 4));
	}

	GO(t = rbtree_new(compare, NULL, NULL, (Pool *)pool));
	GO(u = rbtree_new(compare, NULL, NULL, (Pool *)pool));
	GO(rbtree_iter_init(u, &iter));
	GO(rbtree_iter_reuse(u, &iter));

	for(uintptr_t i = 0; i < SIZE; ++i)
	{
		GO(rbtree_set(t, P(nth(i, SIZE)), P(i + 1), i & 1));

		if(i % 3 == 0)
		{
			GO(rbtree_iter_reuse(t, &iter));
			GO(rbtree_iter_next(&iter));
			GO(rbtree_iter_next(&iter));
		}
	}

	GO(rbtree_iter_free(&iter));
	GO(rbtree_iter_init(t, &iter));
	GO(rbtree_iter_free(&iter));
	GO(rbtree_set(t, P(3), P(7), true));
	GO(rbtree_remove(t, P(3)));
	GO(rbtree_set(t, P(3), P(7), true));
	GO(rbtree_clear(t));
	GO(rbtree_set(t, P(3), P(7), true));
	GO(rbtree_destroy(t));
	GO(rbtree_destroy(u));

	if(pool)
	{
		memory_pool_destroy(pool);
	}
}

static void
assocarray(void)
{
	AssocArray *a;

	GO(a = assoc_array_new(compare, NULL, NULL));

	for(int round = 0; round < 2; ++round)
	{
		for(uintptr_t i = 0; i < SIZE; ++i)
		{
			GO(assoc_array_set(a, P(nth(i, SIZE)), P(i + 1), i & 1));
		}

		GO(assoc_array_remove(a, P(3)));
		GO(assoc_array_set(a, P(3), P(7), true));
		GO(assoc_array_clear(a));
	}

	GO(assoc_array_destroy(a));
}

static void
list(bool pooled)
{
	MemoryPool *pool = NULL;
	List *l;

	if(pooled)
	{
		GO(pool = memory_pool_new(sizeof(ListItem), 3));
	}

	GO(l = list_new(compare, NULL, (Pool *)pool));

	for(uintptr_t i = 0; i < SIZE; ++i)
	{
		switch(i % 3)
		{
			case 0:
				GO(list_append(l, P(i + 1)));
				break;
			case 1:
				GO(list_prepend(l, P(i + 1)));
				break;
			default:
				GO(list_insert_sorted(l, P(i + 1)));
		}
	}

	GO(list_insert_sorted(l, P(SIZE + 5)));
	GO(list_insert_sorted(l, P(1)));
	GO(list_pop(l));
	GO(list_clear(l));
	GO(list_insert_sorted(l, P(1)));
	GO(list_destroy(l));

	if(pool)
	{
		memory_pool_destroy(pool);
	}
}

static void
slist(bool pooled)
{
	MemoryPool *pool = NULL;
	SList *l;

	if(pooled)
	{
		GO(pool = memory_pool_new(sizeof(SListItem), 3));
	}

	GO(l = slist_new(compare, NULL, (Pool *)pool));

	for(uintptr_t i = 0; i < SIZE; ++i)
	{
		switch(i % 3)
		{
			case 0:
				GO(slist_append(l, P(i + 1)));
				break;
			case 1:
				GO(slist_prepend(l, P(i + 1)));
				break;
			default:
				GO(slist_insert_sorted(l, P(i + 1)));
		}
	}

	GO(slist_insert_sorted(l, P(SIZE + 5)));
	GO(slist_insert_sorted(l, P(1)));
	GO(slist_pop(l));
	GO(slist_clear(l));
	GO(slist_insert_sorted(l, P(1)));
	GO(slist_destroy(l));

	if(pool)
	{
		memory_pool_destroy(pool);
	}
}

static void
stack_and_queue(void)
{
	Stack *s;
	Queue *q;
	void *p;

	GO(s = stack_new(compare, NULL, NULL));
	GO(q = queue_new(compare, NULL, NULL));

	for(int round = 0; round < 2; ++round)
	{
		for(uintptr_t i = 0; i < SIZE; ++i)
		{
			GO(stack_push(s, P(i + 1)));
			GO(queue_push(q, P(i + 1)));
		}

		GO(stack_pop(s, &p));
		GO(queue_pop(q, &p));
		GO(stack_clear(s));
		GO(queue_clear(q));
	}

	GO(stack_destroy(s));
	GO(queue_destroy(q));
}

static void
async(void)
{
	AsyncQueue *q;
	void *p;

	GO(q = async_queue_new(compare, NULL, NULL));

	for(uintptr_t i = 0; i < SIZE; ++i)
	{
		GO(async_queue_push(q, P(i + 1)));

		if(i % 3 == 2)
		{
			GO(async_queue_pop(q, &p));
		}
	}

	GO(async_queue_clear(q));
	GO(async_queue_push(q, P(1)));
	GO(async_queue_destroy(q));
}

static void
pool(void)
{
	MemoryPool *m;
	static void *item[SIZE];

	GO(m = memory_pool_new(8, 3));

	for(int round = 0; round < 2; ++round)
	{
		for(int i = 0; i < SIZE; ++i)
		{
			GO(item[i] = ((Pool *)m)->alloc((Pool *)m));
			VP_ASSERT(item[i] != NULL, "an item");
		}

		for(int i = 0; i < SIZE / 2; ++i)
		{
			GO(((Pool *)m)->free((Pool *)m, item[i]));
		}
	}

	memory_pool_destroy(m);
}

ssize_t
vp_read(int fd, void *p, size_t n)
{
	(void)fd;
	memset(p, 'r', n);
	return (ssize_t)n;
}

static void
buffer(void)
{
	Buffer *b;
	static char bytes[100];
	char *dst = NULL;
	size_t len = 0;

	memset(bytes, '\n', sizeof(bytes));
	memset(bytes, 'x', sizeof(bytes) - 40);
	GO(b = buffer_new(100000));

	for(int i = 0; i < 20; ++i)
	{
		GO(buffer_fill(b, bytes, (size_t)i * 4));
		GO(buffer_flush(b, &dst, &len));

		if(i % 4 == 1)
		{
			vp_free(dst);
			dst = NULL;
			len = 0;
			GO(buffer_read_line(b, &dst, &len));
			GO(buffer_read_line(b, &dst, &len));
		}

		if(i % 3 == 1)
		{
			GO(buffer_fill_from_fd(b, 7, (size_t)i * 3));
		}

		char *s;
		GO(s = buffer_to_string(b));
		vp_free(s);
	}

	vp_free(dst);
	GO(buffer_destroy(b));
}

void
harness(void)
{
	vp_may_fail = true;

	switch(vp_choose(0, 11))
	{
		case 0: hashtable(); break;
		case 1: rbtree(false); break;
		case 2: rbtree(true); break;
		case 3: assocarray(); break;
		case 4: list(false); break;
		case 5: list(true); break;
		case 6: slist(false); break;
		case 7: slist(true); break;
		case 8: stack_and_queue(); break;
		case 9: async(); break;
		case 10: pool(); break;
		default: buffer();
	}

	VP_END();
}
