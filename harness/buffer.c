/*
 * C20, C21, C22, C23: a history of OPS arbitrary operations on a buffer with an arbitrary limit, compared with
 * the byte sequence it stands for. WHICH selects the operations, LENS the lengths appended, LIMITS the limits.
 * The bytes are symbolic (BYTES lists the positions that are; the others are fixed).
 */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"

#define FILL 1
#define CLEAR 2
#define LINE 4
#define FLUSH 8
#define STRING 16
#define FD 32

#ifndef WHICH
#define WHICH (FILL | CLEAR)
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef LENS
#define LENS {0, 1, 2, 3}
#endif
#ifndef LIMITS
#define LIMITS {1000}
#endif
#ifndef DST
#define DST 3 /* the caller's destination holds 0 (none) to DST bytes */
#endif
#ifndef STRIDE
#define STRIDE 1 /* every STRIDE-th byte is symbolic */
#endif
#ifndef START
#define START 0
#endif

static const size_t lens[] = LENS;
static const size_t limits[] = LIMITS;
#define NLENS (sizeof(lens) / sizeof(*lens))
#ifndef CAPACITY
#define CAPACITY 1400
#endif

static Buffer *buf;
static size_t limit;
static unsigned char model[CAPACITY];
static size_t mlen;
static bool mvalid = true;

static char *dst;
static size_t dst_len;

static void
new_bytes(unsigned char *p, size_t n)
{
#ifdef RUNS
	/* equal bytes with one that may be any at some place */
	unsigned char same_byte = vp_bool() ? 'x' : 0;

	for(size_t i = 0; i < n; ++i)
	{
		p[i] = same_byte;
	}

	if(n)
	{
		p[vp_choose(0, n - 1)] = (unsigned char)vp_range(0, 255);
	}

	return;
#endif
	static unsigned count;

	for(size_t i = 0; i < n; ++i, ++count)
	{
		p[i] = count % STRIDE == 0 ? (unsigned char)vp_range(0, 255) : (unsigned char)(32 + count % 200);
	}
}

static void
same(const char *p, size_t n)
{
	for(size_t i = 0; i < n; ++i)
	{
		VP_ASSERT((unsigned char)p[i] == model[i], "the bytes are those appended, in order");
	}
	VP_ASSERT(p[n] == '\0', "the string is terminated");
}

#if WHICH & (LINE | FLUSH)
/* What an operation that copies to the caller's destination must have done. */
static void
copied(char *before, size_t before_len, size_t n)
{
	if(before_len >= n + 1)
	{
		VP_ASSERT(dst == before, "a destination that is large enough stays in place");
	}

	same(dst, n);

	if(dst_len)
	{
		dst[dst_len - 1] ^= 0x55; /* is inside what is allocated */
		dst[dst_len - 1] ^= 0x55;
	}
}

#endif

static void
check(void)
{
	VP_ASSERT(buffer_is_valid(buf) == mvalid, "validity");

	if(!mvalid)
	{
		return;
	}

	VP_ASSERT(buffer_len(buf) == mlen, "length");
	VP_ASSERT(buffer_is_empty(buf) == (mlen == 0), "emptiness");
	VP_ASSERT(buffer_len(buf) <= limit, "the limit");

	char *s = buffer_to_string(buf);

	if(mlen || s)
	{
		VP_ASSERT(s != NULL, "a string");
		same(s, mlen);
	}

	vp_free(s);
	VP_ASSERT(buffer_len(buf) == mlen, "length");
}

static void
fill(void)
{
	size_t n = lens[vp_choose(0, NLENS - 1)];
	unsigned char *block = vp_malloc(n ? n : 1);

	new_bytes(block, n);

	bool ok = buffer_fill(buf, (char *)block, n);

	if(mvalid && n <= limit - mlen)
	{
		VP_ASSERT(ok, "an append within the limit is accepted");
		memcpy(model + mlen, block, n);
		mlen += n;
	}
	else
	{
		VP_ASSERT(!ok, "an append over the limit, or to an invalid buffer, is refused");
		mvalid = false;
	}

	vp_free(block);
}

static void
clear(void)
{
	buffer_clear(buf);
	mlen = 0;
	mvalid = true;
	VP_ASSERT(buffer_is_empty(buf), "a cleared buffer is empty");
}

#if WHICH & LINE
static void
line(void)
{
	char *before = dst;
	size_t before_len = dst_len;
	bool ok = buffer_read_line(buf, &dst, &dst_len);
	size_t n = 0;

	while(n < mlen && model[n] != '\n')
	{
		++n;
	}

	if(mvalid && n < mlen)
	{
		VP_ASSERT(ok, "a line is read");
		copied(before, before_len, n);
		mlen -= n + 1;
		memmove(model, model + n + 1, mlen);
	}
	else
	{
		VP_ASSERT(!ok, "there's no line");
		VP_ASSERT(dst == before && dst_len == before_len, "the destination is left alone");
	}
}
#endif

#if WHICH & FLUSH
static void
flush(void)
{
	char *before = dst;
	size_t before_len = dst_len;
	bool ok = buffer_flush(buf, &dst, &dst_len);

	if(!mvalid)
	{
		VP_ASSERT(!ok, "nothing is copied from an invalid buffer");
	}

	VP_ASSERT(!mvalid || mlen == 0 || ok, "the bytes are copied");

	if(ok)
	{
		copied(before, before_len, mlen);
	}
}
#endif

#if WHICH & STRING
static void
string(void)
{
	char *s = buffer_to_string(buf);

	if(!mvalid)
	{
		VP_ASSERT(s == NULL, "there's no string of an invalid buffer");
	}
	else if(mlen)
	{
		VP_ASSERT(s != NULL, "a string");
	}

	if(s)
	{
		same(s, mlen);
	}

	vp_free(s);
}
#endif

#ifdef VP_OWN_READ
static unsigned char src[CAPACITY];
static size_t delivered;
static bool end_of_file, failing;
static unsigned reads;

ssize_t
vp_read(int fd, void *p, size_t n)
{
	VP_ASSERT(fd == 7, "the descriptor given is read");
	VP_ASSERT(++reads == 1, "there's one read (it could block)");

	switch(vp_choose(0, n ? 2 : 1))
	{
		case 0:
			end_of_file = true;
			return 0;
		case 1:
			failing = true;
			errno = (int)vp_range(1, 133);
			return -1;
	}

#ifdef FEW
	/* a short read of one of a few lengths */
	size_t w = vp_choose(0, 3), k = w == 0 ? 1 : w == 1 ? n / 2 : w == 2 ? n - 1 : n;

	VP_ASSUME(k > 0);
#else
	size_t k = vp_choose(1, n);
#endif

	new_bytes(src, k);
	memcpy(p, src, k);
	delivered = k;

	return (ssize_t)k;
}

static void
from_fd(void)
{
	size_t n = lens[vp_choose(0, NLENS - 1)];

	VP_ASSUME(n <= limit);
	delivered = reads = 0;
	end_of_file = failing = false;

	ssize_t r = buffer_fill_from_fd(buf, 7, n);

	VP_ASSERT(delivered <= n, "at most the given number of bytes is read");

	if(!mvalid)
	{
		VP_ASSERT(r <= 0, "an invalid buffer accepts nothing");
	}
	else if(failing)
	{
		VP_ASSERT(r == -1, "a failure is reported");
	}
	else if(end_of_file || !n)
	{
		VP_ASSERT(r == 0, "the end is reported");
	}
	else
	{
		VP_ASSERT(reads == 1, "the descriptor is read");

		if(delivered > limit - mlen)
		{
			VP_ASSERT(r == -1, "exceeding the limit is reported");
			mvalid = false;
		}
		else
		{
			VP_ASSERT(r == (ssize_t)delivered, "the number of bytes appended is returned");
			memcpy(model + mlen, src, delivered);
			mlen += delivered;
		}
	}
}
#endif

void
harness(void)
{
	static Buffer b;
	bool heap = vp_bool();

	limit = limits[vp_choose(0, sizeof(limits) / sizeof(*limits) - 1)];

	if(heap)
	{
		buf = buffer_new(limit);
	}
	else
	{
		memset(&b, 0xee, sizeof(b));
		buf = &b;
		buffer_init(buf, limit);
	}

	check();

#if START > 0
	new_bytes(model, START);
	mlen = START;
	VP_ASSERT(buffer_fill(buf, (char *)model, START), "the first append");
#endif

#if WHICH & (LINE | FLUSH)
	dst_len = vp_choose(0, DST);
	dst = dst_len ? vp_malloc(dst_len) : NULL;
	if(dst)
	{
		memset(dst, 'x', dst_len);
	}
#endif

	for(int i = 0; i < OPS; ++i)
	{
		unsigned op = 1u << vp_choose(0, 5);

		VP_ASSUME(op & (WHICH));

		switch(op)
		{
			case FILL:
				fill();
				break;
			case CLEAR:
				clear();
				break;
#if WHICH & LINE
			case LINE:
				line();
				break;
#endif
#if WHICH & FLUSH
			case FLUSH:
				flush();
				break;
#endif
#if WHICH & STRING
			case STRING:
				string();
				break;
#endif
#ifdef VP_OWN_READ
			case FD:
				from_fd();
				break;
#endif
		}

		check();
	}

	vp_observe(mlen);
	vp_free(dst);

	if(heap)
	{
		buffer_destroy(buf);
	}
	else
	{
		buffer_free(buf);
	}

	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
