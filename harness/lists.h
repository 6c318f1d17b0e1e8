/* One interface over the two linked lists. LIST=1: doubly-linked, 2: singly-linked. An element is an
 * opaque pointer: low byte the value that is compared, higher bytes its identity (>= 1). */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"

#define KEY(id, kv) ((void *)(uintptr_t)(((uint64_t)(id) << 8) | (uint64_t)(kv)))
#define ASK(kv) KEY(0xffff, kv)
#define KV(p) ((uint64_t)(uintptr_t)(p) & 0xff)
#define ID(p) ((uint64_t)(uintptr_t)(p) >> 8)

#ifdef LIVE
static void element_sees(const void *p); /* what a comparison is called with */
#else
#define element_sees(p) ((void)0)
#endif

#ifdef MAGNITUDE
static int32_t
element_compare(const void *a, const void *b)
{
	element_sees(a);
	element_sees(b);
	uint64_t m = vp_range(1, 0x7fffffff);
	return KV(a) < KV(b) ? -(int32_t)m - (m == 0x7fffffff) : KV(a) > KV(b) ? (int32_t)m : 0;
}
#else
static int32_t
element_compare(const void *a, const void *b)
{
	element_sees(a);
	element_sees(b);

	if(KV(a) == KV(b))
	{
		return 0;
	}

	return KV(a) < KV(b) ? -1 : 1;
}
#endif

#if LIST == 1
typedef List L;
typedef ListItem Item;
#define l_new list_new
#define l_init list_init
#define l_destroy list_destroy
#define l_free list_free
#define l_append list_append
#define l_prepend list_prepend
#define l_insert_sorted list_insert_sorted
#define l_head list_head
#define l_count list_count
#define l_empty list_empty
#define l_remove list_remove
#define l_remove_by_data list_remove_by_data
#define l_pop list_pop
#define l_contains list_contains
#define l_clear list_clear
#define l_find list_find
#define l_item_free_data list_item_free_data
#define l_next list_item_next
#define l_data list_item_get_data
#else
typedef SList L;
typedef SListItem Item;
#define l_new slist_new
#define l_init slist_init
#define l_destroy slist_destroy
#define l_free slist_free
#define l_append slist_append
#define l_prepend slist_prepend
#define l_insert_sorted slist_insert_sorted
#define l_head slist_head
#define l_count slist_count
#define l_empty slist_empty
#define l_remove slist_remove
#define l_remove_by_data slist_remove_by_data
#define l_pop slist_pop
#define l_contains slist_contains
#define l_clear slist_clear
#define l_find slist_find
#define l_item_free_data slist_item_free_data
#define l_next slist_item_next
#define l_data slist_item_get_data
#endif
