/* C29: direct comparison, equality and hashing for three arbitrary pointer-sized values. */
#include "vp_interpose.h"
#include "vp.h"
#include "datatypes.h"

static int
sign(int32_t n)
{
	return (n > 0) - (n < 0);
}

void
harness(void)
{
	uintptr_t u = vp_range(1, UINT64_MAX), v = vp_range(1, UINT64_MAX), w = vp_range(1, UINT64_MAX);
	void *a = (void *)u, *b = (void *)v, *c = (void *)w;
	int ab = sign(direct_compare(a, b)), ba = sign(direct_compare(b, a));
	int bc = sign(direct_compare(b, c)), ac = sign(direct_compare(a, c));

	VP_ASSERT((ab == 0) == (u == v), "the comparison is zero exactly for equal values");
	VP_ASSERT(ab == -ba, "the comparison is antisymmetric");
	VP_ASSERT(!(ab <= 0 && bc <= 0) || ac <= 0, "the comparison is transitive");
	VP_ASSERT(!(ab < 0 && bc <= 0) || ac < 0, "the comparison is transitive");
	VP_ASSERT(!(ab <= 0 && bc < 0) || ac < 0, "the comparison is transitive");
	VP_ASSERT(direct_compare(a, a) == 0, "a value equals itself");
	VP_ASSERT(direct_equal(a, b) == (ab == 0), "equality agrees with the comparison");
	VP_ASSERT(direct_equal(a, b) == direct_equal(b, a), "equality is symmetric");
	VP_ASSERT(direct_equal(a, a), "a value equals itself");

	uint32_t ha = direct_hash(a), hb = direct_hash(b);

	VP_ASSERT(u != v || ha == hb, "equal values have equal hashes");
	VP_ASSERT(direct_hash(a) == ha, "the hash of a value does not change");

	vp_observe(ha);
	vp_observe((uint64_t)(ab + 1));
	VP_END();
}
