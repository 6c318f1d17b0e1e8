/*
 * C13: a list of COUNT arbitrary elements (built by appends and prepends), an arbitrary value and an
 * arbitrary start (with KNOWN: that many known elements before them); what contains, find and removal by value do with them.
 */
#include "lists.h"

#ifndef KNOWN
#define KNOWN 0
#endif
#ifndef COUNT
#define COUNT 4
#endif

static void *ref[KNOWN + COUNT + 1];
static Item *item[KNOWN + COUNT + 1];
static size_t n;

static void
insert(L *list, size_t at, uint64_t id)
{
	void *p = KEY(id, vp_range(0, 255));
	Item *it = at ? l_append(list, p) : l_prepend(list, p);

	for(size_t i = n; i > at; --i)
	{
		ref[i] = ref[i - 1];
		item[i] = item[i - 1];
	}

	ref[at] = p;
	item[at] = it;
	++n;
}

static void
compare_with(L *list, bool *keep)
{
	Item *it = l_head(list), *last = NULL;
	size_t left = 0;

	for(size_t i = 0; i < n; ++i)
	{
		if(keep[i])
		{
			VP_ASSERT(it == item[i] && l_data(it) == ref[i], "every other element stays in place and in order");
			last = it;
			it = l_next(it);
			++left;
		}
	}

	VP_ASSERT(it == NULL, "the list ends after the elements that stay");
	VP_ASSERT(l_count(list) == left, "the count is the number of elements that stay");

#if LIST == 1
	VP_ASSERT(list_tail(list) == last, "the tail is the last element that stays");

	for(size_t i = n; i > 0; --i)
	{
		if(keep[i - 1])
		{
			VP_ASSERT(last == item[i - 1], "walking backwards meets the elements that stay");
			last = list_item_prev(last);
		}
	}

	VP_ASSERT(last == NULL, "walking backwards ends");
#else
	void *p = KEY(0xffff, 1);
	Item *a = l_append(list, p);
	VP_ASSERT(last ? l_next(last) == a : l_head(list) == a, "the next append lands after the last element that stays");
#endif
}

void
harness(void)
{
	L *list = l_new(element_compare, NULL, NULL);
	size_t count = KNOWN + vp_choose(0, COUNT);

	for(size_t i = 0; i < KNOWN; ++i)
	{
		void *p = KEY(i + 1, i * 7 % 101);
		ref[n] = p;
		item[n++] = l_append(list, p);
	}

	for(size_t i = KNOWN; i < count; ++i)
	{
#ifdef PREPEND
		insert(list, vp_bool() ? n : 0, i + 1);
#else
		insert(list, n, i + 1);
#endif
	}

	uint64_t kv = vp_range(0, 255);
	bool keep[KNOWN + COUNT + 1];
	size_t matches = 0;

	switch(vp_choose(0, 2))
	{
		case 0:
			{
				size_t from = KNOWN ? vp_choose(0, 2) * (count - 1) / 2 + vp_choose(0, 1) : vp_choose(0, count); /* 0: no start given */
				Item *start = from ? item[from - 1] : NULL;
				Item *r = l_find(list, start, ASK(kv));
				size_t first = count, at = count;

				for(size_t i = count; i > 0; --i)
				{
					if(KV(ref[i - 1]) == kv)
					{
						++matches;
						if(i >= from)
						{
							first = i - 1;
						}
					}
					if(r == item[i - 1])
					{
						at = i - 1;
					}
				}

				VP_ASSERT((r != NULL) == (first < count), "find finds an element exactly when there is one from the start on");
				if(r)
				{
					VP_ASSERT(at < count && at + 1 >= from, "the element found lies at or after the start");
					VP_ASSERT(KV(ref[at]) == kv, "the element found equals the value");
#if LIST == 2
					VP_ASSERT(at == first, "the first such element is found");
#endif
				}

				VP_ASSERT(l_contains(list, ASK(kv)) == (matches > 0), "contains tells whether some element equals the value");
				vp_observe(r != NULL);

				for(size_t i = 0; i < count; ++i)
				{
					keep[i] = true;
				}
			}
			break;

		case 1:
			l_remove_by_data(list, ASK(kv), true);
			for(size_t i = 0; i < count; ++i)
			{
				keep[i] = KV(ref[i]) != kv;
			}
			break;

		default:
			{
				l_remove_by_data(list, ASK(kv), false);

				Item *it = l_head(list);
				size_t at = 0;

				while(at < count && it && it == item[at])
				{
					it = l_next(it);
					++at;
				}

				for(size_t i = 0; i < count; ++i)
				{
					matches += KV(ref[i]) == kv;
					keep[i] = i != at || !matches;
#if LIST == 2
					if(i == at && at < count)
					{
						VP_ASSERT(matches == 1, "the first element with the value is removed");
					}
#endif
				}

				if(matches)
				{
					VP_ASSERT(at < count && KV(ref[at]) == kv, "an element with the value is removed");
					keep[at] = false;
				}
				else
				{
					keep[count] = true;
					for(size_t i = 0; i < count; ++i)
					{
						keep[i] = true;
					}
				}
			}
			break;
	}

	compare_with(list, keep);
	vp_observe(l_count(list));
	l_destroy(list);
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
