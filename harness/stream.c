/*
 * C37: a stream of BYTES arbitrary bytes reaches the buffer in pieces cut anywhere, by appends or through a descriptor;
 * lines are read whenever the caller likes. The lines and the rest are those of the stream.
 */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"

#ifndef BYTES
#define BYTES 6
#endif
#ifndef PIECES
#define PIECES 3
#endif
#ifndef PREFIX
#define PREFIX 0 /* bytes of the stream that are no newline, before the arbitrary ones */
#endif
#ifdef PREFIXES /* any of these numbers instead; the buffer gets everything in pieces of 1 + PREFIX / 3 bytes */
static const size_t prefixes[] = PREFIXES;
static size_t prefix;
#define MOST 70000
#else
#define prefix PREFIX
#define MOST (PREFIX + BYTES)
#endif
#define TOTAL (prefix + BYTES)

#ifdef PREFIXES
#define EITHER(n) ((n) % 2 == 0)
#else
#define EITHER(n) vp_bool()
#endif

static char stream[MOST + BYTES];
static size_t sent, taken; /* stream[0..sent) was appended, stream[0..taken) was read as lines */

ssize_t
vp_read(int fd, void *buf, size_t n)
{
	VP_ASSERT(fd == 7, "the descriptor is read from");
	memcpy(buf, stream + sent, n);
	return (ssize_t)n;
}

int
main_loop(Buffer *b, char **line, size_t *len)
{
	int lines = 0;

	for(;;)
	{
		size_t end = taken;
		while(end < sent && stream[end] != '\n')
		{
			++end;
		}

		bool r = buffer_read_line(b, line, len);
		VP_ASSERT(r == (end < sent), "a line is read exactly when one is complete");
		if(!r)
		{
			return lines;
		}

		for(size_t i = taken; i < end; ++i)
		{
			VP_ASSERT((*line)[i - taken] == stream[i], "it consists of the bytes of the stream");
		}
		VP_ASSERT((*line)[end - taken] == 0, "and a terminator");
		taken = end + 1;
		++lines;
		if(EITHER(1))
		{
			return lines; /* the caller takes the others later */
		}
	}
}

void
harness(void)
{
#ifdef PREFIXES
	prefix = prefixes[vp_choose(0, sizeof(prefixes) / sizeof(*prefixes) - 1)];
#endif
	Buffer *b = buffer_new(TOTAL + (EITHER(prefix) ? 0 : 100));
	char *line = NULL;
	size_t len = 0;
	int lines = 0;

	for(size_t i = 0; i < TOTAL; ++i)
	{
		stream[i] = i < prefix ? 'a' : (char)vp_range(0, 255);
	}

	for(int piece = 0; piece < PIECES; ++piece)
	{
#ifdef PREFIXES
		size_t n = piece == PIECES - 1 ? TOTAL - sent : 1 + prefix / 3;
#else
		size_t n = piece == PIECES - 1 ? TOTAL - sent : vp_choose(0, TOTAL - sent);
#endif
#if PREFIX
		VP_ASSUME(piece == PIECES - 1 || n % 8 == 1 || n >= PREFIX);
#endif
		if(n && EITHER(piece))
		{
			VP_ASSERT(buffer_fill_from_fd(b, 7, n) == (ssize_t)n, "filling reports what was read");
		}
		else
		{
			VP_ASSERT(buffer_fill(b, stream + sent, n), "an append within the limit succeeds");
		}
		sent += n;
		VP_ASSERT(buffer_len(b) == sent - taken, "the length is what was appended and not yet read");
		if(EITHER(piece))
		{
			lines += main_loop(b, &line, &len);
		}
	}

	lines += main_loop(b, &line, &len);
	VP_ASSERT(buffer_len(b) == sent - taken, "the rest stays");
	char *rest = buffer_to_string(b);
	VP_ASSERT((rest != NULL) == (taken < sent), "the rest is what was not read");
	for(size_t i = taken; i < sent; ++i)
	{
		VP_ASSERT(rest[i - taken] == stream[i], "byte by byte");
	}
	vp_observe((uint64_t)lines);
	vp_free(rest);
	vp_free(line);
	buffer_destroy(b);
	VP_ASSERT(vp_live == 0, "destruction releases every block");
	VP_END();
}
