/*
 * C38: rounds of filling a container with n elements and emptying it in one of three ways. The first rounds use each
 * way once; what memory they needed at most is enough for all later rounds, whichever ways those use.
 */
#ifndef SIZES
#define SIZES {1, 5, 20}
#endif
#ifndef LARGEST
#define LARGEST 20
#endif
#ifndef ROUNDS
#define ROUNDS 3
#endif
#define ELEMENTS LARGEST
#include "subject.h"

static Subject s;
static size_t peak;
static uint64_t ids;
static char *line;
static size_t line_size;

static void
look(void)
{
	if(vp_bytes > peak)
	{
		peak = vp_bytes;
	}
}

static void
iterate(void)
{
	size_t n = 0;

	if(s.kind == S_TREE)
	{
		RBTreeIter it;
		rbtree_iter_init(s.obj, &it);
		while(rbtree_iter_next(&it))
		{
			++n;
		}
		look();
		rbtree_iter_reuse(s.obj, &it);
		rbtree_iter_free(&it);
		VP_ASSERT(n == s.n, "the iteration yields every entry");
	}
	else if(s.kind == S_HASH)
	{
		HashTableIter it;
		hashtable_iter_init(s.obj, &it);
		while(hashtable_iter_next(&it))
		{
			++n;
		}
		VP_ASSERT(n == s.n, "the iteration yields every entry");
	}
}

static void
round_of(size_t n, unsigned way)
{
	if(s.kind == S_BUFFER)
	{
		for(size_t i = 0; i < n; ++i)
		{
			VP_ASSERT(buffer_fill(s.obj, "ab\nc\n", 5), "an append within the limit succeeds");
			look();
		}
		for(size_t i = 0; i < 2 * n && way < 2; ++i)
		{
			VP_ASSERT(buffer_read_line(s.obj, &line, &line_size), "a line is read");
			look();
		}
		if(way == 2)
		{
			VP_ASSERT(buffer_flush(s.obj, &line, &line_size), "the buffer is flushed");
			look();
			buffer_clear(s.obj);
		}
		VP_ASSERT(buffer_len(s.obj) == 0, "the buffer is empty");
		return;
	}

	for(size_t i = 0; i < n; ++i)
	{
		ids += 2;
		s_add(&s, (void *)(uintptr_t)ids, (void *)(uintptr_t)(ids + 1));
		look();
	}
	iterate();
	if(way == 2)
	{
		s_clear(&s);
		look();
	}
	while(s.n)
	{
		s_drop(&s, way ? s.n - 1 : 0);
		look();
	}
	VP_ASSERT(s_count(&s) == 0, "the container is empty");
}

void
harness(void)
{
	static const size_t sizes[] = SIZES;
	int kind = (int)vp_choose(0, S_KINDS - 1);
	size_t n = sizes[vp_choose(0, sizeof(sizes) / sizeof(*sizes) - 1)];
	MemoryPool *pool = NULL;
	bool pooled = vp_bool();

	if(pooled)
	{
		VP_ASSUME(kind != S_BUFFER && kind != S_HASH && kind != S_ARRAY);
		pool = memory_pool_new(s_node_size(kind), 4);
	}

	s_open(&s, kind, NULL, false, (Pool *)pool);
	round_of(n, 0);
	round_of(n, 1);
	round_of(n, 2);

	size_t enough = peak;

#ifdef LONG
	/* many rounds of one way, or of all in turn */
	unsigned way = (unsigned)vp_choose(0, 3);
#endif

	for(int i = 0; i < ROUNDS; ++i)
	{
#ifdef LONG
		round_of(n, way < 3 ? way : i % 3);
#else
		round_of(n, vp_choose(0, 2));
#endif
		VP_ASSERT(peak <= enough, "later rounds need no more memory than the first ones");
	}

	vp_observe(n);
	s_close(&s);
	vp_free(line);
	if(pool)
	{
		memory_pool_destroy(pool);
	}
	VP_ASSERT(vp_live == 0 && vp_bytes == 0, "destruction releases every block");
	VP_END();
}
