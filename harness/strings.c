/*
 * C28: two arbitrary strings of up to LENGTH bytes, each in a block that ends behind its terminator and starts at
 * an arbitrary offset. With THREE a third one, for transitivity of the comparison. With LONG the strings share an
 * arbitrary prefix of up to LONG bytes.
 */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"

#ifndef LENGTH
#define LENGTH 3
#endif
#ifndef LONG
#define LONG 0
#endif
#ifndef OFFSETS
#define OFFSETS 1
#endif

#ifdef KNOWN /* a prefix of known bytes instead: of up to KNOWN, or of one of these lengths */
static const size_t others[] = {1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537};
#define NOTHERS (sizeof(others) / sizeof(*others))
#define MAX (65537 + LENGTH)
#else
#define MAX (LONG + LENGTH)
#endif

typedef struct
{
	unsigned char byte[MAX + 1];
	size_t len;
	char *text;
} String;

static unsigned char prefix[MAX - LENGTH + 1];

static void
make(String *s, size_t shared)
{
	size_t off = vp_choose(0, OFFSETS);
	char *block;

	s->len = shared + vp_choose(0, LENGTH);

	for(size_t i = 0; i < s->len; ++i)
	{
		s->byte[i] = i < shared ? prefix[i] : (unsigned char)vp_range(1, 255);
	}

	block = vp_malloc(off + s->len + 1);
	memset(block, 'p', off);
	s->text = block + off;
	memcpy(s->text, s->byte, s->len);
	s->text[s->len] = '\0';
}

static bool
same(const String *a, const String *b)
{
	bool eq = a->len == b->len;

	for(size_t i = 0; i < a->len && i < b->len; ++i)
	{
		eq &= a->byte[i] == b->byte[i];
	}

	return eq;
}

static int
sign(int32_t n)
{
	return (n > 0) - (n < 0);
}

void
harness(void)
{
	static String a, b;
	CompareFunc compare = str_compare;
#ifdef KNOWN
	size_t shared = vp_choose(0, KNOWN + NOTHERS);

	if(shared > KNOWN)
	{
		shared = others[shared - KNOWN - 1];
	}
	memset(prefix, 'k', shared);
#else
	size_t shared = vp_choose(0, LONG);
#endif

	for(size_t i = 0; i < LONG && i < shared; ++i)
	{
		prefix[i] = (unsigned char)vp_range(1, 255);
	}

	make(&a, shared);
	make(&b, shared);

	bool eq = same(&a, &b);

	VP_ASSERT(str_equal(a.text, b.text) == eq, "strings are equal exactly when their bytes are");
	VP_ASSERT(str_equal(b.text, a.text) == eq, "equality is symmetric");
	VP_ASSERT(str_equal(a.text, a.text), "a string equals itself");

	uint32_t ha = str_hash(a.text), hb = str_hash(b.text);

	VP_ASSERT(!eq || ha == hb, "equal strings have equal hashes");
	VP_ASSERT(str_hash(a.text) == ha, "the hash of a string does not change");

	int ab = sign(compare(a.text, b.text)), ba = sign(compare(b.text, a.text));

	VP_ASSERT((ab == 0) == eq, "the comparison is zero exactly for equal strings");
	VP_ASSERT(ab == -ba, "the comparison is antisymmetric");

#ifdef THREE
	static String c;

	make(&c, shared);

	int bc = sign(compare(b.text, c.text)), ac = sign(compare(a.text, c.text));

	VP_ASSERT(!(ab <= 0 && bc <= 0) || ac <= 0, "the comparison is transitive");
	VP_ASSERT(!(ab < 0 && bc <= 0) || ac < 0, "the comparison is transitive");
#endif

	for(size_t i = 0; i < a.len; ++i)
	{
		VP_ASSERT((unsigned char)a.text[i] == a.byte[i], "strings are not changed");
	}

	vp_observe(ha);
	vp_observe((uint64_t)(ab + 1));
	VP_END();
}
