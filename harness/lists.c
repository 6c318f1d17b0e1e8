/*
 * A history of BUILD insertions and OPS arbitrary operations on a list, followed by a reference
 * sequence. Options: OWN (a release function is configured and every release is checked), POOL (1: the
 * recording pool of mockpool.h, 2: the library's MemoryPool), NULLS (elements may be NULL pointers),
 * FIXED (the BUILD elements have the values i * 7 mod FIXED), EACH (the whole list is checked after every operation and not only at the end),
 * LIVE (C33: the elements a comparison is called with are checked, and more operations that compare; what the
 * caller asks for may be an element of the list itself).
 */
#include "lists.h"
#include "mockpool.h"

#ifndef BUILD
#define BUILD 0
#endif
#ifndef OPS
#define OPS 4
#endif
#ifndef VALUES
#define VALUES 255
#endif
#ifndef POOL
#define POOL 0
#endif
#define MAX (BUILD + OPS)

static L *list;
static void *ref[MAX + 1];
static Item *refitem[MAX + 1];
static size_t n;
static uint64_t ids;

#ifdef OWN
static bool owned[MAX + 2];    /* by identity: stored, or being removed, so it may be released */
static bool released[MAX + 2]; /* by identity */
static bool releasing;         /* may the current operation release anything? */

static void
release(void *p)
{
	VP_ASSERT(p != NULL, "a NULL element is not released");
	VP_ASSERT(releasing, "this operation releases no element");
	uint64_t id = ID(p);
	VP_ASSERT(id >= 1 && id <= MAX && owned[id], "only elements of the list are released");
	VP_ASSERT(!released[id], "no element is released twice");
	released[id] = true;
}

static void
gone(void *p) /* the element has left the list and must have been released by the operation */
{
	if(p)
	{
		VP_ASSERT(released[ID(p)], "an element the list drops is released");
		owned[ID(p)] = false;
	}
}
#define FREE release
#define RELEASING(x) releasing = (x)
#else
#define FREE NULL
#define RELEASING(x) ((void)0)
#define gone(p) ((void)0)
#endif

#ifdef LIVE
static const void *now; /* what the caller passes to the current operation */

static void
element_sees(const void *p)
{
	bool stored = false;

	for(size_t i = 0; i < n; ++i)
	{
		stored = stored || ref[i] == p;
	}

	VP_ASSERT(stored || p == now, "a comparison is called with elements of the list and the caller's argument only");
#ifdef OWN
	VP_ASSERT(!p || p == now || !released[ID(p)], "a comparison is not called with a released element");
#endif
}
#else
static const void *now;
#endif

/* What to look for: any value, with LIVE perhaps an element of the list itself. */
static void *
argument(uint64_t *kv)
{
#ifdef LIVE
	if(n && vp_choose(0, 1))
	{
		void *p = ref[n > 10 ? vp_choose(0, 1) * (n - 1) : vp_choose(0, n - 1)];

		VP_ASSUME(p != NULL);
		*kv = KV(p);
		now = NULL;
		return p;
	}
#endif
	*kv = vp_range(0, VALUES);
	now = ASK(*kv);
	return ASK(*kv);
}

static void *
any_element(void)
{
	uint64_t id = ++ids;
#ifdef NULLS
	if(id > BUILD && vp_bool())
	{
		return NULL;
	}
#endif
#ifdef FIXED /* a long prefix of elements with known values */
	void *p = KEY(id, id <= BUILD ? id * 7 % FIXED : vp_range(0, VALUES));
#else
	void *p = KEY(id, vp_range(0, VALUES));
#endif
#ifdef OWN
	owned[id] = true;
#endif
	now = p;
	return p;
}

static void
ref_insert(size_t at, void *p, Item *item)
{
	VP_ASSERT(item != NULL, "an insertion returns the new item");
	VP_ASSERT(l_data(item) == p, "the new item holds the element");

	for(size_t i = n; i > at; --i)
	{
		ref[i] = ref[i - 1];
		refitem[i] = refitem[i - 1];
	}

	ref[at] = p;
	refitem[at] = item;
	++n;
}

static void
ref_remove(size_t at)
{
	gone(ref[at]);

	for(size_t i = at; i + 1 < n; ++i)
	{
		ref[i] = ref[i + 1];
		refitem[i] = refitem[i + 1];
	}

	--n;
}

static void
check(void)
{
	Item *it = l_head(list);
	Item *last = NULL;

	VP_ASSERT(l_count(list) == n, "the count is the number of elements");
	VP_ASSERT(l_empty(list) == (n == 0), "emptiness agrees with the number of elements");

	for(size_t i = 0; i < n; ++i)
	{
		VP_ASSERT(it != NULL, "walking forwards reaches every element");
		VP_ASSERT(it == refitem[i], "an item stays the one its insertion returned");
		VP_ASSERT(l_data(it) == ref[i], "walking forwards yields the elements in order");
		last = it;
		it = l_next(it);
	}

	VP_ASSERT(it == NULL, "walking forwards ends after the last element");
	(void)last;

#if LIST == 1
	it = list_tail(list);
	VP_ASSERT(it == last, "the tail is the last item");

	for(size_t i = n; i > 0; --i)
	{
		VP_ASSERT(it != NULL, "walking backwards reaches every element");
		VP_ASSERT(l_data(it) == ref[i - 1], "walking backwards yields the elements in reverse");
		it = list_item_prev(it);
	}

	VP_ASSERT(it == NULL, "walking backwards ends before the first element");
#endif

#if POOL == 1
	VP_ASSERT(mock.in_use == n, "every node is taken from the pool and given back exactly when its element goes");
#endif
#ifdef OWN
	for(size_t i = 0; i < n; ++i)
	{
		VP_ASSERT(!ref[i] || !released[ID(ref[i])], "no stored element is released");
	}
#endif
}

static void
op(unsigned what)
{
	void *p;

	RELEASING(what >= 3 && what <= 7);
	now = NULL;

	switch(what)
	{
		case 0:
			p = any_element();
			ref_insert(n, p, l_append(list, p));
			break;

		case 1:
			p = any_element();
			ref_insert(0, p, l_prepend(list, p));
			break;

		case 2:
			p = l_pop(list);
			VP_ASSERT(p == (n ? ref[0] : NULL), "pop yields the first element");
			if(n)
			{
#ifdef OWN
				VP_ASSERT(!p || !released[ID(p)], "a popped element is not released");
				if(p)
				{
					released[ID(p)] = true; /* the caller's from here on */
				}
#endif
				ref_remove(0);
			}
			break;

		case 3:
			VP_ASSUME(n > 0);
			{
				size_t i = vp_choose(0, n - 1);
				l_remove(list, refitem[i]);
				ref_remove(i);
			}
			break;

		case 4:
			{
				/* one match: which one is left to the list (C13 looks closer) */
				uint64_t kv;
				void *what = argument(&kv);
				size_t before = n;
				bool any = false;

				for(size_t i = 0; i < n; ++i)
				{
					any |= KV(ref[i]) == kv;
				}

				l_remove_by_data(list, what, false);

				if(any)
				{
					Item *it = l_head(list);
					size_t i = 0;

					while(i < n && it && it == refitem[i])
					{
						it = l_next(it);
						++i;
					}

					VP_ASSERT(i < n, "an element with the value is removed");
					VP_ASSERT(KV(ref[i]) == kv, "only an element with the value is removed");
					ref_remove(i);
				}

				VP_ASSERT(n == before - (any ? 1 : 0), "one element is removed");
			}
			break;

		case 5:
			{
				uint64_t kv;
				void *what = argument(&kv);

				l_remove_by_data(list, what, true);

				for(size_t i = 0; i < n;)
				{
					if(KV(ref[i]) == kv)
					{
						ref_remove(i);
					}
					else
					{
						++i;
					}
				}
			}
			break;

		case 6:
			l_clear(list);
			while(n)
			{
				ref_remove(n - 1);
			}
			break;

		case 7:
			VP_ASSUME(n > 0);
			{
				size_t i = vp_choose(0, n - 1);
				l_item_free_data(list, refitem[i]);
				gone(ref[i]);
				ref[i] = NULL;
				VP_ASSERT(l_data(refitem[i]) == NULL, "an explicitly released element is gone from its item");
			}
			break;

		case 8: /* sorted, wherever that is in a list that may not be */
			p = any_element();
			{
				Item *item = l_insert_sorted(list, p);
				Item *it = l_head(list);
				size_t i = 0;

				while(i < n && it && it == refitem[i])
				{
					it = l_next(it);
					++i;
				}
				VP_ASSERT(it == item, "a sorted insertion adds its item");
				ref_insert(i, p, item);
			}
			break;

		case 9:
			now = ASK(vp_range(0, VALUES));
			l_contains(list, now);
			break;

		case 10:
			now = ASK(vp_range(0, VALUES));
			l_find(list, n ? refitem[vp_choose(0, n - 1)] : NULL, now);
			break;
	}
}

void
harness(void)
{
	Pool *pool = NULL;
	long live;

#if POOL == 1
	pool = mock_pool(sizeof(Item));
#elif POOL == 2
	MemoryPool *mp = memory_pool_new(sizeof(Item), 2);
	pool = (Pool *)mp;
#endif

	live = vp_live;
	bool embedded = vp_bool();
	L own;

	if(embedded)
	{
		l_init(&own, element_compare, FREE, pool);
		list = &own;
	}
	else
	{
		list = l_new(element_compare, FREE, pool);
	}

#if POOL == 1
	long base = vp_live;
#endif

	for(int i = 0; i < BUILD; ++i)
	{
		op(0);
	}

	for(int i = 0; i < OPS; ++i)
	{
#if defined(LIVE) || POOL
		op(vp_choose(0, 10));
#elif defined(OWN) || defined(NULLS)
		op(vp_choose(0, 7));
#else
		op(vp_choose(0, 6));
#endif
#ifdef EACH
		check();
#endif
#if POOL == 1
		VP_ASSERT(vp_live == base, "with a pool no node is taken from the heap");
#endif
	}

	check();

	for(size_t i = 0; i < n; ++i)
	{
		vp_observe((uint64_t)(uintptr_t)ref[i]);
	}

	RELEASING(true);

	if(embedded)
	{
		l_free(list);
	}
	else
	{
		l_destroy(list);
	}

	while(n)
	{
		ref_remove(n - 1);
	}

#if POOL == 1
	VP_ASSERT(mock.in_use == 0, "destruction gives every node back to the pool");
#elif POOL == 2
	memory_pool_destroy(mp);
	live = 0;
#endif
	VP_ASSERT(vp_live == live, "destruction releases every block");
	VP_END();
}
