/*
 * C31: a container in the caller's memory, which holds arbitrary bytes before (or one on the heap). OPS arbitrary
 * operations, release, and - in the same memory, as it was left - the whole once more.
 */
#define ELEMENTS 6
#include "subject.h"

#ifndef OPS
#define OPS 2
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif
#define WORDS 24

static struct
{
	uint64_t before[2];
	uint64_t words[WORDS];
	uint64_t after[2];
} place;

static Subject s;
static uint64_t ids;

void
harness(void)
{
	int kind = (int)vp_choose(0, S_KINDS - 1);
	bool heap = vp_bool();
	bool owns = vp_bool();
	uint64_t a = vp_u64(), b = vp_u64();

	VP_ASSERT(s_size(kind) <= sizeof(place.words), "the container fits into the memory of the harness");

	place.before[0] = place.before[1] = a;
	place.after[0] = place.after[1] = b;
	for(size_t i = 0; i < WORDS; ++i)
	{
		place.words[i] = vp_u64();
	}
	uint64_t behind = s_size(kind) + 8 <= sizeof(place.words) ? place.words[s_size(kind) / 8] : 0;

	for(int round = 0; round < ROUNDS; ++round)
	{
		s_open(&s, kind, heap ? NULL : place.words, owns, NULL);
		s_check(&s);
#if PREFILL
		ids = s_prefill(&s, ids, vp_choose(0, IS_MAP(kind) ? 2 : 0));
		s_check(&s);
#endif

		for(int i = 0; i < OPS; ++i)
		{
			switch(vp_choose(0, 2))
			{
				case 0:
					ids += 2;
					s_add(&s, (void *)(uintptr_t)ids, (void *)(uintptr_t)(ids + 1));
					break;
				case 1:
					VP_ASSUME(s.n > 0);
					s_drop(&s, s_place(s.n));
					break;
				default:
					s_clear(&s);
			}
			s_check(&s);
		}

		vp_observe(s.n);
		s_close(&s);
		VP_ASSERT(vp_live == 0, "freeing a container releases everything it requested");
	}

	VP_ASSERT(place.before[0] == a && place.before[1] == a && place.after[0] == b && place.after[1] == b, "memory around the container is not touched");
	VP_ASSERT(s_size(kind) + 8 > sizeof(place.words) || place.words[s_size(kind) / 8] == behind, "memory behind the container is not touched");
	VP_END();
}
