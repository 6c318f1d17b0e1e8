/*
 * C40 (WORK): containers are filled with n and with 8 n elements and emptied again; the effort for the second may be
 * FACTOR times that for the first. Linear effort gives 8, n log n 10, growth in steps up to twice that; quadratic
 * effort gives 64.
 * C41 (DEPTH): a container of N elements is filled, questioned and emptied; the stack stays shallow.
 */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"

#ifndef N
#define N 1500
#endif
#ifndef FACTOR
#define FACTOR 24
#endif
#ifndef FRAMES
#define FRAMES 120
#endif

enum { K_LIST, K_SLIST, K_STACK, K_QUEUE, K_ASYNC, K_HASH, K_TREE, K_ARRAY, K_POOL, K_BUFFER, KINDS };

static int kind;
static bool front, pooled, owns;
static void *t;
static MemoryPool *pool;
static void *item[8 * N + 1];
static size_t count, first;
static uint32_t stride;

#define EL(i) ((void *)(uintptr_t)((uint64_t)(i) + 0x1000))

static int32_t compare(const void *a, const void *b) { return (a > b) - (a < b); }
static bool equal(const void *a, const void *b) { return a == b; }
static uint32_t hash(const void *p) { return (uint32_t)(uintptr_t)p * stride; }

static uint64_t released;
static void release(void *p) { released += p != NULL; }

static void
make(void)
{
	FreeFunc release_key = owns ? release : NULL, release_value = release_key;
	size_t node = kind == K_LIST ? sizeof(ListItem) : kind == K_TREE ? sizeof(RBNode) : kind == K_POOL ? 24 : sizeof(SListItem);
	pool = pooled || kind == K_POOL ? memory_pool_new(node, 64) : NULL;
	Pool *p = (Pool *)pool;

	switch(kind)
	{
		case K_LIST: t = list_new(compare, release_value, p); break;
		case K_SLIST: t = slist_new(compare, release_value, p); break;
		case K_STACK: t = stack_new(compare, release_value, p); break;
		case K_QUEUE: t = queue_new(compare, release_value, p); break;
		case K_ASYNC: t = async_queue_new(compare, release_value, p); break;
		case K_HASH: t = hashtable_new(stride ? HASHTABLE_AUTO_RESIZE : 7, hash, equal, release_key, release_value); break;
		case K_TREE: t = rbtree_new(compare, release_key, release_value, p); break;
		case K_ARRAY: t = assoc_array_new(compare, release_key, release_value); break;
		case K_BUFFER: t = buffer_new(1 << 20); break;
	}
	count = first = 0;
}

static void
add(void)
{
	void *e = EL(count);

	switch(kind)
	{
		case K_LIST: item[count] = front ? list_prepend(t, e) : list_append(t, e); break;
		case K_SLIST: item[count] = front ? slist_prepend(t, e) : slist_append(t, e); break;
		case K_STACK: stack_push((Stack *)t, e); break;
		case K_QUEUE: queue_push((Queue *)t, e); break;
		case K_ASYNC: async_queue_push(t, e); break;
		case K_HASH: hashtable_set(t, e, e, false); break;
		case K_TREE: rbtree_set(t, e, e, false); break;
		case K_ARRAY: assoc_array_set(t, e, e, false); break;
		case K_POOL: item[count] = ((Pool *)pool)->alloc((Pool *)pool); break;
		default: buffer_fill(t, "x", 1);
	}
	++count;
}

/* How the container is emptied. */
enum { W_ONE_BY_ONE, W_OTHER_END, W_CLEAR, W_DESTROY, WAYS };
static int way;

static void
take(void)
{
	void *e = EL(way == W_ONE_BY_ONE && kind != K_ARRAY ? first : first + count - 1), *got;

	switch(kind)
	{
		case K_LIST: if(way == W_ONE_BY_ONE) list_pop(t); else list_remove(t, list_tail(t)); break;
		case K_SLIST: if(way == W_ONE_BY_ONE) slist_pop(t); else slist_remove(t, slist_head(t)); break;
		case K_STACK: stack_pop((Stack *)t, &got); break;
		case K_QUEUE: queue_pop((Queue *)t, &got); break;
		case K_ASYNC: async_queue_pop(t, &got); break;
		case K_HASH: hashtable_remove(t, e); break;
		case K_TREE: rbtree_remove(t, e); break;
		case K_ARRAY: assoc_array_remove(t, e); break;
		case K_POOL: ((Pool *)pool)->free((Pool *)pool, item[way == W_ONE_BY_ONE ? first : first + count - 1]); break;
	}
	first += way == W_ONE_BY_ONE;
	--count;
}

static void
clear(void)
{
	switch(kind)
	{
		case K_LIST: list_clear(t); break;
		case K_SLIST: slist_clear(t); break;
		case K_STACK: stack_clear((Stack *)t); break;
		case K_QUEUE: queue_clear((Queue *)t); break;
		case K_ASYNC: async_queue_clear(t); break;
		case K_HASH: hashtable_clear(t); break;
		case K_TREE: rbtree_clear(t); break;
		case K_ARRAY: assoc_array_clear(t); break;
		case K_BUFFER: buffer_clear(t); break;
	}
	count = 0;
}

static void
unmake(void)
{
	switch(kind)
	{
		case K_LIST: list_destroy(t); break;
		case K_SLIST: slist_destroy(t); break;
		case K_STACK: stack_destroy((Stack *)t); break;
		case K_QUEUE: queue_destroy((Queue *)t); break;
		case K_ASYNC: async_queue_destroy(t); break;
		case K_HASH: hashtable_destroy(t); break;
		case K_TREE: rbtree_destroy(t); break;
		case K_ARRAY: assoc_array_destroy(t); break;
		case K_BUFFER: buffer_destroy(t); break;
	}
	if(pool)
	{
		memory_pool_destroy(pool);
	}
	count = 0;
}

#ifdef DEPTH

static bool
is_deep(void)
{
	return vp_depth() > FRAMES;
}
#define SHALLOW(what) { (void)vp_depth(); what; VP_ASSERT(!is_deep(), "the stack stays shallow"); }

/* A descriptor with a few bytes to give, however many are asked for. */
#define LARGE (1 << 18)

ssize_t
vp_read(int fd, void *p, size_t n)
{
	size_t got = n < 10 ? n : 10;
	VP_ASSERT(fd == 7 && n <= LARGE, "the descriptor given is read");
	memset(p, 'y', got);
	return (ssize_t)got;
}

/* Questions, and changes in the middle, that walk over the elements. */
static void
walk(void)
{
	void *last = EL(count - 1), *absent = EL(count + 5);

	switch(kind)
	{
		case K_LIST:
			SHALLOW(list_contains(t, absent))
			SHALLOW(list_contains(t, EL(front ? 0 : count - 1)))
			SHALLOW(list_find(t, NULL, absent))
			SHALLOW(list_find(t, NULL, EL(front ? 0 : count - 1)))
			SHALLOW(list_remove_by_data(t, absent, true))
			SHALLOW(list_remove_by_data(t, EL(front ? 0 : count - 1), false))
			if(!front)
			{
				SHALLOW(list_insert_sorted(t, EL(count - 3)))
				SHALLOW(list_insert_sorted(t, last))
			}
			break;
		case K_SLIST:
			SHALLOW(slist_contains(t, absent))
			SHALLOW(slist_contains(t, EL(front ? 0 : count - 1)))
			SHALLOW(slist_find(t, NULL, absent))
			SHALLOW(slist_find(t, NULL, EL(front ? 0 : count - 1)))
			SHALLOW(slist_remove_by_data(t, absent, true))
			SHALLOW(slist_remove(t, item[front ? 1 : count - 2]))
			SHALLOW(slist_remove_by_data(t, EL(front ? 0 : count - 1), false))
			if(!front)
			{
				SHALLOW(slist_insert_sorted(t, EL(count - 4)))
				SHALLOW(slist_insert_sorted(t, last))
			}
			break;
		case K_HASH:
		{
			HashTableIter it;
			SHALLOW(hashtable_lookup(t, absent))
			SHALLOW(hashtable_lookup(t, EL(0)))
			SHALLOW(hashtable_lookup(t, last))
			SHALLOW(hashtable_key_exists(t, EL(0)))
			SHALLOW(hashtable_set(t, EL(0), NULL, true))
			SHALLOW(hashtable_iter_init(t, &it))
			SHALLOW(while(hashtable_iter_next(&it)) {})
			SHALLOW(hashtable_remove(t, EL(0)))
			SHALLOW(hashtable_remove(t, last))
			SHALLOW(hashtable_remove(t, absent))
			break;
		}
		case K_TREE:
		{
			RBTreeIter it;
			SHALLOW(rbtree_lookup(t, absent))
			SHALLOW(rbtree_lookup(t, last))
			SHALLOW(rbtree_iter_init(t, &it))
			SHALLOW(while(rbtree_iter_next(&it)) {})
			SHALLOW(rbtree_iter_free(&it))
			break;
		}
		case K_ARRAY:
		{
			AssocArrayIter it;
			SHALLOW(assoc_array_lookup(t, absent))
			SHALLOW(assoc_array_lookup(t, last))
			SHALLOW(assoc_array_iter_init(t, &it))
			SHALLOW(while(assoc_array_iter_next(&it)) {})
			SHALLOW(assoc_array_set(t, EL(-1), NULL, false))
			SHALLOW(assoc_array_remove(t, EL(-1)))
			break;
		}
		case K_BUFFER:
		{
			char *s = NULL;
			size_t len = 0;
			SHALLOW(buffer_fill_from_fd(t, 7, LARGE))
			SHALLOW(buffer_flush(t, &s, &len))
			free(s);
			SHALLOW(s = buffer_to_string(t))
			free(s);
			s = NULL;
			len = 0;
			SHALLOW(buffer_fill(t, "\n", 1))
			SHALLOW(buffer_read_line(t, &s, &len))
			free(s);
			break;
		}
	}
}

void
harness(void)
{
	kind = (int)vp_choose(0, KINDS - 1);
	way = kind == K_BUFFER ? W_CLEAR : (int)vp_choose(0, kind == K_POOL ? W_OTHER_END : WAYS - 1);
	front = kind <= K_SLIST && vp_choose(0, 1);
	pooled = (kind <= K_ASYNC || kind == K_TREE) && vp_choose(0, 1);
	owns = kind < K_POOL && way != W_OTHER_END && vp_choose(0, 1);
	stride = kind == K_HASH && vp_choose(0, 1) ? 0 : 1; /* all in one bucket, or spread */

	size_t n = kind == K_HASH && !stride ? N / 3 : N; /* each key of a bucket is compared with all the others */

	make();
	for(size_t i = 0; i < n; ++i)
	{
		SHALLOW(add())
	}
	walk();
	if(way == W_CLEAR)
	{
		SHALLOW(clear())
	}
	else if(way != W_DESTROY)
	{
		for(size_t i = 0; i < n - 10; ++i)
		{
			SHALLOW(take())
		}
	}
	SHALLOW(unmake())
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}

#else

static uint64_t spent[2][3];

static void
round_of(int r, size_t n)
{
	uint64_t w, *s = spent[r];

	make();
	for(size_t i = 0; i < n; ++i)
	{
		w = vp_work();
		add();
		s[0] += vp_work() - w;
		VP_ASSERT(!r || s[0] <= FACTOR * spent[0][0], "the effort to store an element does not grow with their number");
	}
	if(way == W_CLEAR)
	{
		w = vp_work();
		clear();
		s[1] = vp_work() - w;
	}
	else if(way != W_DESTROY)
	{
		for(size_t i = 0; i < n; ++i)
		{
			w = vp_work();
			take();
			s[1] += vp_work() - w;
			VP_ASSERT(!r || s[1] <= FACTOR * spent[0][1], "the effort to take an element out does not grow with their number");
		}
	}
	w = vp_work();
	unmake();
	s[2] = vp_work() - w;
	VP_ASSERT(!r || (s[1] <= FACTOR * spent[0][1] && s[2] <= FACTOR * spent[0][2] + 1000), "the effort to clear or destroy is proportional to the number of elements");
}

void
harness(void)
{
	kind = (int)vp_choose(0, KINDS - 1);
	way = kind == K_BUFFER ? W_CLEAR : (int)vp_choose(0, kind == K_POOL ? W_OTHER_END : WAYS - 1);
	front = kind <= K_SLIST && vp_choose(0, 1);
	pooled = (kind <= K_ASYNC || kind == K_TREE) && vp_choose(0, 1);
	stride = 1;

	round_of(0, N);
	round_of(1, 8 * N);
	VP_ASSERT(vp_live == 0, "destruction releases every block");
#ifdef SHOW
	for(int i = 0; i < 3; ++i) vp_observe(spent[1][i] * 10 / (spent[0][i] + 1));
#endif
	VP_END();
}
#endif
