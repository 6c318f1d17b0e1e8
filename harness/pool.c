/*
 * C17, C18: a history of OPS arbitrary operations - take an item, give any item back, write an item - on a
 * pool of arbitrary small item and block sizes. Every byte of every item in use is written and compared.
 */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"

#ifndef OPS
#define OPS 6
#endif
#ifndef BUILD
#define BUILD 0
#endif
#ifndef ITEM_SIZES
#define ITEM_SIZES {2, 8, 12, 24}
#endif
#ifndef BLOCKS
#define BLOCKS 3
#endif
#define MAX (OPS + BUILD)

static MemoryPool *mp;
static Pool *pool;
static size_t item_size;

static unsigned char *item[MAX + 1]; /* in use */
static unsigned char tag[MAX + 1];   /* what all bytes of it hold */
static size_t in_use;
static unsigned char *back[MAX + 1]; /* given back and not handed out again */
static size_t given_back;
static unsigned char tags;

static void
check(void)
{
	for(size_t i = 0; i < in_use; ++i)
	{
		for(size_t k = 0; k < item_size; ++k)
		{
			VP_ASSERT(item[i][k] == tag[i], "an item keeps its contents");
		}
	}
}

static void
fill(size_t i)
{
	tag[i] = ++tags;
#ifdef ANY_BYTES
	tag[i] = (unsigned char)vp_range(0, 255);
#endif
	for(size_t k = 0; k < item_size; ++k)
	{
		item[i][k] = tag[i];
	}
}

static void
take(void)
{
	unsigned long requests = vp_nalloc;
	unsigned char *p = pool->alloc(pool);

	VP_ASSERT(p != NULL, "an item is handed out");

	for(size_t i = 0; i < in_use; ++i)
	{
		VP_ASSERT(p + item_size <= item[i] || item[i] + item_size <= p, "items in use do not overlap");
	}

	if(given_back)
	{
		size_t i = given_back;

		while(i && back[i - 1] != p)
		{
			--i;
		}

		VP_ASSERT(i > 0, "an item given back is handed out again first");
		VP_ASSERT(vp_nalloc == requests, "no memory is requested while there are items given back");
		back[i - 1] = back[--given_back];
	}

	item[in_use++] = p;
	fill(in_use - 1);
}

static void
give(size_t i)
{
	unsigned char *p = item[i];

	item[i] = item[--in_use];
	tag[i] = tag[in_use];
	back[given_back++] = p;
	pool->free(pool, p);
}

void
harness(void)
{
	static const size_t sizes[] = ITEM_SIZES;

	item_size = sizes[vp_choose(0, sizeof(sizes) / sizeof(*sizes) - 1)];
	mp = memory_pool_new(item_size, vp_choose(2, BLOCKS));
	pool = (Pool *)mp;

	for(int i = 0; i < BUILD; ++i)
	{
		take();
	}

	for(int i = 0; i < OPS; ++i)
	{
		switch(vp_choose(0, 1))
		{
			case 0:
				take();
				break;
			default:
				VP_ASSUME(in_use > 0);
				give(vp_choose(0, in_use - 1));
		}

		check();
	}

#ifdef CYCLES
	/* the peak is known: from here on the pool must get by with what it has */
	size_t peak = in_use + given_back;
	long most = 0;

	for(int c = 0; c < CYCLES; ++c)
	{
		while(in_use < peak)
		{
			take();
		}
		check();
		if(c == 0)
		{
			most = vp_live;
		}
		VP_ASSERT(vp_live <= most + 2, "memory use is bounded by the peak number of items");
		bool last_first = c & 1;
		while(in_use > 0)
		{
			give(last_first ? in_use - 1 : 0);
		}
	}
#endif

	vp_observe(in_use);
	memory_pool_destroy(mp);
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
