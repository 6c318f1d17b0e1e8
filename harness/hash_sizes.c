/*
 * C35. The sizes an automatically growing table goes through, read off the sequence it carries: each is larger than
 * the one before, and not more than sixteen times as large, whichever one the table is at.
 */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"

_Static_assert(sizeof(HashTable) == 96, "layout"); /* another structure is not the business of this job */

#define MAX 64

static uint32_t hash(const void *p) { return (uint32_t)(uintptr_t)p; }
static bool equal(const void *a, const void *b) { return a == b; }

void
harness(void)
{
	HashTable *table = hashtable_new(HASHTABLE_AUTO_RESIZE, hash, equal, NULL, NULL);
	const size_t *sizes = table->sizeptr;
	uint64_t n = 0;

	if(!sizes || *sizes != table->size) /* the member means something else now */
	{
		VP_END();
		return;
	}

	while(n < MAX && sizes[n])
	{
		++n;
	}

	VP_ASSERT(n >= 2 && n < MAX, "the sequence of sizes ends");

	uint64_t i = vp_range(0, n - 2);

	size_t from = sizes[i], to = sizes[i + 1];

	VP_ASSERT(to > from, "a table that grows gets larger");
	VP_ASSERT(to / 16 <= from, "a table does not outgrow its keys");

	hashtable_destroy(table);
	VP_END();
}
