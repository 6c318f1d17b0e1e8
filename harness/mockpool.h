/* A Pool that keeps a record of every item it handed out. Items lie inside a larger block, so that
 * releasing one to the heap is an invalid release; a returned item is released at once, so that any
 * later use of it is a use of released memory. */
#ifndef MOCK_ITEMS
#define MOCK_ITEMS 64
#endif

typedef struct
{
	Pool base;
	void *item[MOCK_ITEMS];
	size_t taken;  /* items handed out so far */
	size_t in_use; /* items handed out and not yet given back */
} MockPool;

static MockPool mock;
static size_t mock_item_size;

static void *
mock_alloc(Pool *p)
{
	MockPool *m = (MockPool *)p;

	VP_ASSERT(m == &mock, "the pool is handed to its own function");
	VP_ASSERT(m->taken < MOCK_ITEMS, "mock pool exhausted");

	unsigned char *raw = malloc(mock_item_size + 16);
	--vp_live; /* counted by the pool, not as memory of the container */
	--vp_nalloc;
	m->item[m->taken++] = raw + 16;
	++m->in_use;

	return raw + 16;
}

static void
mock_free(Pool *p, void *item)
{
	MockPool *m = (MockPool *)p;
	bool found = false;

	VP_ASSERT(m == &mock, "the pool is handed to its own function");

	for(size_t i = 0; i < m->taken && !found; ++i)
	{
		if(m->item[i] == item)
		{
			m->item[i] = NULL;
			found = true;
		}
	}

	VP_ASSERT(found && item, "only an item of the pool that is in use is given back to it");
	--m->in_use;
	++vp_live;
	free((unsigned char *)item - 16);
}

static Pool *
mock_pool(size_t item_size)
{
	mock_item_size = item_size;
	mock.base.alloc = mock_alloc;
	mock.base.free = mock_free;

	return &mock.base;
}
