/*
 * C12: insertions of arbitrary elements in sorted position, started from the empty list or from a list
 * of BUILD arbitrary ascending elements (with KNOWN: behind that many known ones), mixed with MIX removals by item or pops in between.
 */
#include "lists.h"
#include "mockpool.h"

#ifndef BUILD
#define BUILD 0
#endif
#ifndef INSERTS
#define INSERTS 4
#endif
#ifndef MIX
#define MIX 0
#endif
#ifndef KNOWN
#define KNOWN 0
#endif
#define MAX (KNOWN + BUILD + INSERTS)

static L *list;
static bool there[MAX + 2]; /* by identity */
static size_t n;
static uint64_t ids;

static Item *
walk(void)
{
	Item *it = l_head(list), *last = NULL;
	static bool seen[MAX + 2];
	memset(seen, 0, sizeof(seen));

	VP_ASSERT(l_count(list) == n, "the count is the number of elements");

	for(size_t i = 0; i < n; ++i)
	{
		VP_ASSERT(it != NULL, "walking forwards reaches every element");
		VP_ASSERT(!last || KV(l_data(last)) <= KV(l_data(it)), "the list is sorted");

		uint64_t id = ID(l_data(it));
		VP_ASSERT(id <= MAX && there[id] && !seen[id], "the list holds the same elements, each once");
		seen[id] = true;
		last = it;
		it = l_next(it);
	}

	VP_ASSERT(it == NULL, "the list ends after the last element");

#if LIST == 1
	VP_ASSERT(list_tail(list) == last, "the tail is the last item");

	Item *fwd = last;
	(void)fwd;
	size_t k = 0;
	Item *after = NULL;

	for(it = last; it; it = list_item_prev(it))
	{
		VP_ASSERT(l_next(it) == after, "both directions agree");
		after = it;
		++k;
		VP_ASSERT(k <= n, "walking backwards ends");
	}

	VP_ASSERT(k == n && after == l_head(list), "walking backwards reaches the head");
#endif
	return last;
}

static void
insert(void)
{
	void *p = KEY(++ids, vp_range(0, 255));
	Item *it = l_insert_sorted(list, p);

	VP_ASSERT(it != NULL && l_data(it) == p, "the new item holds the element");
	there[ids] = true;
	++n;
	walk();

	Item *i = l_head(list);
	while(i && i != it)
	{
		i = l_next(i);
	}

	VP_ASSERT(i == it, "the new item is in the list");
}

static void
forget(void *p)
{
	there[ID(p)] = false;
	--n;
}

void
harness(void)
{
#ifdef POOL
	list = l_new(element_compare, NULL, mock_pool(sizeof(Item)));
	long live = vp_live;
#else
	list = l_new(element_compare, NULL, NULL);
	(void)mock_pool;
#endif

	uint64_t last = 0;
	for(int i = 0; i < KNOWN; ++i)
	{
		last = 100 + i * 100 / (KNOWN + 1);
		l_append(list, KEY(++ids, last));
		there[ids] = true;
		++n;
	}
	for(int i = 0; i < BUILD; ++i)
	{
		last = vp_range(last, 255);
		l_append(list, KEY(++ids, last));
		there[ids] = true;
		++n;
	}

	int mix = MIX;

	for(int i = 0; i < INSERTS; ++i)
	{
		insert();

		if(mix && vp_bool())
		{
			--mix;
			size_t at = KNOWN ? vp_choose(0, 1) * (n - 1) : vp_choose(0, n - 1);
			Item *it = l_head(list);

			for(size_t k = 0; k < at; ++k)
			{
				it = l_next(it);
			}

			forget(l_data(it));

			if(!at && vp_bool())
			{
				l_pop(list);
			}
			else
			{
				l_remove(list, it);
			}

			walk();
		}
	}

	/* where the list ends is also where an append lands */
	void *p = KEY(++ids, 255);
	Item *old = walk();
	Item *it = l_append(list, p);
	VP_ASSERT(old ? l_next(old) == it : l_head(list) == it, "an append lands after the last element");

#ifdef POOL
	VP_ASSERT(mock.in_use == l_count(list) && vp_live == live, "every node is taken from the pool and given back exactly when its element goes");
#endif
	vp_observe(l_count(list));
	l_destroy(list);
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
