/*
 * C04, C05: one operation on every valid red-black tree of black height up to BH (with at most REDS red
 * nodes). A valid tree before implies the map's answer, and a valid tree after: an induction step, so that
 * for trees of these sizes the invariant holds after histories of any length. Looks inside the tree.
 */
#define MAP 2
#include "map.h"

/* the structure this job looks into; another one is not its business */
_Static_assert(sizeof(RBNode) == 40 && sizeof(RBTree) == 88, "layout");

#ifndef BH
#define BH 2
#endif
#ifndef BHMIN
#define BHMIN 0
#endif
#ifndef REDS
#define REDS 99
#endif
#define MAXN 64

static RBNode *node[MAXN];
static size_t n;
static int reds = REDS;

static RBNode *
make(RBNode *left, int black, size_t at)
{
	RBNode *x = malloc(sizeof(RBNode));
	x->key = KEY(1, 2 * (at + 1));
	x->value = (void *)(uintptr_t)(at + 1);
	x->black = black;
	x->left = left;
	x->right = NULL;
	return x;
}

/* A subtree of the black height, its keys the next ones in order. */
static RBNode *
grow(unsigned bh, bool red_allowed)
{
	bool red = red_allowed && reds > 0 && vp_choose(0, 1);
	RBNode *x;

	if(red)
	{
		--reds;
		RBNode *left = grow(bh, false);
		x = make(left, 0, n++);
		node[n - 1] = x;
		x->right = grow(bh, false);
		return x;
	}

	if(!bh)
	{
		return NULL;
	}

	RBNode *left = grow(bh - 1, true);
	size_t at = n++;
	x = make(left, 1, at);
	node[at] = x;
	x->right = grow(bh - 1, true);
	return x;
}

static size_t seen;
static uint64_t last;
static uint64_t q;
static bool had, present_after;

static unsigned
inspect(const RBNode *x, unsigned depth)
{
	if(!x)
	{
		return 0;
	}

	VP_ASSERT(depth < 2 * (BH + 2), "no path is more than twice as long as another");

	unsigned l = inspect(x->left, depth + 1);
	uint64_t k = KV(x->key);

	VP_ASSERT(k > last, "keys remain in search order");
	last = k;
	++seen;
	VP_ASSERT(k == q || (k % 2 == 0 && k <= 2 * n), "no key is invented");
	VP_ASSERT(x->black == 0 || x->black == 1, "a node is red or black");

	if(!x->black)
	{
		VP_ASSERT(!x->left || x->left->black, "no red node has a red child");
		VP_ASSERT(!x->right || x->right->black, "no red node has a red child");
	}

	unsigned r = inspect(x->right, depth + 1);

	VP_ASSERT(l == r, "all paths have the same number of black nodes");

	return l + (x->black ? 1 : 0);
}

void
harness(void)
{
	RBTree *tree = rbtree_new(map_compare, NULL, NULL, NULL);
	unsigned bh = vp_choose(BHMIN, BH);

	if(bh)
	{
		RBNode *left = grow(bh - 1, true);
		size_t at = n++;
		RBNode *root = make(left, 1, at);
		node[at] = root;
		root->right = grow(bh - 1, true);
		tree->root = root;
	}

	tree->count = n;
	q = vp_range(1, 2 * n + 1);
	had = q % 2 == 0;

	if(vp_bool())
	{
		bool overwrite = vp_bool();
		int r = rbtree_set(tree, KEY(2, q), (void *)1000, overwrite);
		VP_ASSERT(r == (had ? R_REPLACED : R_NEW), "set reports truthfully");
		present_after = true;
		RBTreePair *p = rbtree_lookup(tree, ASK(q));
		VP_ASSERT(p && rbtree_pair_get_value(p) == (void *)1000, "the key set is found with its value");
		VP_ASSERT(rbtree_pair_get_key(p) == (had && !overwrite ? KEY(1, q) : KEY(2, q)), "the stored key is kept unless told otherwise");
	}
	else
	{
		bool r = rbtree_remove(tree, ASK(q));
		VP_ASSERT(r == had, "remove reports truthfully");
		present_after = false;
		VP_ASSERT(!rbtree_lookup(tree, ASK(q)), "the key removed is not found");
	}

	size_t expected = n - had + present_after;

	VP_ASSERT(rbtree_count(tree) == expected, "the count is the number of keys");
	VP_ASSERT(!tree->root || tree->root->black, "the root is black");
	inspect(tree->root, 0);
	VP_ASSERT(seen == expected, "no other key is lost");

	for(size_t i = 0; i < n; ++i)
	{
		uint64_t k = 2 * (i + 1);
		if(k != q)
		{
			RBTreePair *p = rbtree_lookup(tree, ASK(k));
			VP_ASSERT(p && rbtree_pair_get_key(p) == KEY(1, k) && (uint64_t)(uintptr_t)rbtree_pair_get_value(p) == i + 1, "every other key keeps its value");
		}
	}

	vp_observe(expected);
	rbtree_destroy(tree);
	VP_ASSERT(vp_live == 0, "everything is released");
	VP_END();
}
