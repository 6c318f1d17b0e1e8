/*
 * C20, C21: appends of arbitrary 64-bit lengths to a buffer with an arbitrary 64-bit limit. No memory of such
 * size exists, so requests and copies go to stand-ins that check and record sizes and positions only.
 * (Compiled with VP_OWN_MEM, which redirects memcpy and memmove in the sources as well.)
 */
#define VP_NO_INTERPOSE
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"

#ifndef APPENDS
#define APPENDS 2
#endif

#define BASE 0x100000u
#define SOURCE 0xc000000000000000u

static size_t capacity;
static size_t total; /* bytes appended */
static size_t wanted; /* by the current append */
static bool seen;    /* the current append was copied to its place */

void *
vp_malloc(size_t n)
{
	capacity = n;
	return (void *)(uintptr_t)BASE;
}

void *vp_calloc(size_t n, size_t m) { return vp_malloc(n * m); }

void *
vp_realloc(void *p, size_t n)
{
	VP_ASSERT(p == (void *)(uintptr_t)BASE || !p, "the buffer's block is resized");
	VP_ASSERT(n >= total, "a block never becomes smaller than its contents");
	capacity = n;
	return (void *)(uintptr_t)BASE;
}

void vp_free(void *p) { (void)p; }

static void
copy(uintptr_t d, uintptr_t s, size_t n)
{
	if(s == SOURCE)
	{
		VP_ASSERT(d - BASE == total, "bytes are appended behind those stored");
		VP_ASSERT(n == wanted, "all bytes are appended");
		seen = true;
	}

	VP_ASSERT(d >= BASE && d - BASE <= capacity && n <= capacity - (d - BASE), "bytes are stored inside the block");
}

void *vp_memcpy(void *d, const void *s, size_t n) { copy((uintptr_t)d, (uintptr_t)s, n); return d; }
void *vp_memmove(void *d, const void *s, size_t n) { copy((uintptr_t)d, (uintptr_t)s, n); return d; }

/*
 * Any 64-bit value, or with MAGNITUDES any value whose number of bits is in that set. The path splits
 * over the magnitude, which only makes the solver's work easier.
 */
static size_t
any_length(void)
{
#ifdef MAGNITUDES
	static const unsigned set[] = MAGNITUDES;
	unsigned bits = set[vp_choose(0, sizeof(set) / sizeof(*set) - 1)];
#else
	unsigned bits = vp_choose(0, 64);
#endif

	return bits ? vp_range((size_t)1 << (bits - 1), (((size_t)1 << (bits - 1)) - 1) * 2 + 1) : 0;
}

void
harness(void)
{
	static Buffer b;
	size_t limit = vp_range(1, SSIZE_MAX - 1);
	bool valid = true;

	buffer_init(&b, limit);

	for(int i = 0; i < APPENDS; ++i)
	{
#ifdef CLEARS
		if(vp_choose(0, 1))
		{
			buffer_clear(&b);
			total = 0;
			valid = true;
		}
#endif
		wanted = any_length();
		seen = false;

		bool ok = buffer_fill(&b, (const char *)(uintptr_t)SOURCE, wanted);

		VP_ASSERT(ok == (valid && wanted <= limit - total), "an append is accepted exactly when it is within the limit");
		VP_ASSERT(ok == buffer_is_valid(&b), "an append over the limit makes the buffer invalid");

		if(ok)
		{
			VP_ASSERT(seen || wanted == 0, "the bytes are copied");
			total += wanted;
			VP_ASSERT(buffer_len(&b) == total, "length");
		}
		else
		{
			valid = false;
			VP_ASSERT(!seen, "nothing is stored");
		}
	}

	VP_END();
}
