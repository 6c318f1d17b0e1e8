"""The jobs behind each property: harness, parameters, bounds.

A job is one harness with one set of parameters: one symbolic exploration. quick/thorough say in which tier it
runs; workers is how many processes share its paths; own names the stubs the harness brings itself; soft marks a
job whose failure to finish is recorded in the evidence but leaves the verdict to the other jobs; whitebox marks a
job that looks inside a structure and is skipped when the structure is declared differently; assert_only marks a
job in which only a failed assertion counts; measure marks a job about the effort spent, whose counterexamples are
replayed with the sources instrumented to count it; debug marks a job with the sources compiled without NDEBUG.
"""

HASH, TREE, ARRAY = 1, 2, 3
LIST, SLIST = 1, 2
JOBS = {}


def job(pids, name, src, bounds, tier="both", w=1, **kw):
    own = {k: kw.pop(k) for k in list(kw) if k in ("own", "soft", "whitebox", "assert_only", "all_abort", "timeout", "max_steps", "replays", "measure", "debug")}
    for pid in pids.split():
        JOBS.setdefault(pid, []).append(dict(name=name, src=src, bounds=bounds, defs=dict(kw), quick=tier in ("both", "quick"),
                                             thorough=tier in ("both", "thorough"), workers=w, **own))


def jobs_for(pid, tier):
    return [j for j in JOBS.get(pid, []) if j[tier]]


def thorough(pids, name, src, bounds, **kw):
    job(pids, name, src, bounds, tier="thorough", **dict({"w": 8, "timeout": 5400}, **kw))


# ---- C01, C04, C07: maps
job("C01", "hist-4", "map_history.c", "4 arbitrary operations, 2 keys with arbitrary 32-bit hashes, 3 buckets", w=8, MAP=HASH, OPS=4, KEYS=1)
job("C01", "hist-3-keys", "map_history.c", "3 stored keys, then 2 arbitrary operations, 4 keys with arbitrary hashes, 3 buckets", w=8, soft=True, timeout=200, MAP=HASH, BUILD=3, OPS=2, KEYS=3)
job("C01", "one-bucket", "map_history.c", "4 stored keys, then 2 arbitrary operations, all in one bucket", w=8, soft=True, timeout=200, MAP=HASH, HASH_SIZE=1, BUILD=4, OPS=2, KEYS=4)
job("C01", "auto-size", "map_history.c", "3 arbitrary operations on a table of automatic size, one key with an arbitrary hash", w=8, MAP=HASH, HASH_SIZE=0, OPS=3, KEYS=0)
job("C01", "long", "map_long.c", "100 stored keys in 4 orders, then 1 operation with any key; all looked up", w=8, MAP=HASH, LOW=100)
job("C01", "drain", "map_long.c", "40 stored keys removed in any of 4 orders", w=4, MAP=HASH, LOW=40, DRAIN=1, OPS=0)
job("C01 C03", "one-bucket-long", "map_long.c", "600 keys in one bucket, in 4 orders, cleared and filled again", w=4, max_steps=200000000, MAP=HASH, KVBITS=12, LOW=600, OPS=0, REFILL=1, HASH_SIZE=1)
job("C01", "one-bucket-drain", "map_long.c", "400 keys in one bucket, removed in any of 4 orders", w=4, max_steps=200000000, MAP=HASH, KVBITS=12, LOW=400, OPS=0, DRAIN=97, HASH_SIZE=1)
job("C01 C03", "fixed-large", "map_long.c", "40 keys in 4 orders in a table of the fixed size 1500, then 1 operation with any key; all looked up and iterated", w=8, MAP=HASH, LOW=40, HASH_SIZE=1500, max_steps=40000000)
job("C01 C03", "fixed-thousand", "map_long.c", "1100 keys in 4 orders in a table of the fixed size 300, cleared and filled again, iterated", w=4, max_steps=40000000, MAP=HASH, KVBITS=12, LOW=1100, OPS=0, REFILL=1, HASH_SIZE=300)
for pid, m, w in (("C01 C03", HASH, "a table"), ("C04 C05 C06", TREE, "a tree"), ("C07 C08", ARRAY, "an array")):
    size = dict(HASH_SIZE=0) if m == HASH else {}
    job(pid, "refill", "map_long.c", "%s of 64..67 keys in 4 orders, cleared and filled again in 4 orders" % w, w=4, MAP=m, LOW=64, HIGH=67, OPS=0, REFILL=1)
    job(pid, "thousand", "map_long.c", "%s of 1100 keys in 4 orders, cleared and filled again in 4 orders, iterated" % w, w=4, max_steps=40000000, MAP=m, KVBITS=12, LOW=1100, OPS=0, REFILL=1, **size)
    job(pid, "thousand-drain", "map_long.c", "%s of 1100 keys stored and removed in 4 orders each" % w, w=4, max_steps=40000000, MAP=m, KVBITS=12, LOW=1100, OPS=0, DRAIN=97, **size)
    thorough(pid, "refill-1", "map_long.c", "%s of 64..67 keys in 4 orders, 1 operation with any key, cleared and filled again in 4 orders" % w, MAP=m, LOW=64, HIGH=67, OPS=1, REFILL=1)
    thorough(pid, "many", "map_long.c", "%s of 6000 keys in 4 orders, cleared and filled again" % w, MAP=m, KVBITS=16, LOW=6000, OPS=0, REFILL=1, max_steps=400000000, **size)
    thorough(pid, "many-1", "map_long.c", "%s of 1000 keys in 4 orders, then 1 operation with any key" % w, MAP=m, KVBITS=13, LOW=1000, max_steps=60000000, **size)
thorough("C01", "hist-5", "map_history.c", "5 arbitrary operations, 2 keys with arbitrary hashes, 3 buckets", MAP=HASH, OPS=5, KEYS=1)
thorough("C01", "hist-4-keys", "map_history.c", "4 arbitrary operations, 3 keys with arbitrary hashes, 3 buckets", MAP=HASH, OPS=4, KEYS=2)
thorough("C01", "build-4", "map_history.c", "4 stored keys, then 2 arbitrary operations, 5 keys with arbitrary hashes, 2 buckets", MAP=HASH, HASH_SIZE=2, BUILD=4, OPS=2, KEYS=4)

job("C04", "hist-4", "map_history.c", "4 arbitrary operations with any of 256 keys", w=8, MAP=TREE, OPS=4)
job("C04", "build-5", "map_history.c", "5 arbitrary insertions, then 1 arbitrary operation", w=8, MAP=TREE, BUILD=5, OPS=1)
job("C04", "magnitude", "map_history.c", "3 arbitrary operations, comparison results of any magnitude", w=4, MAP=TREE, OPS=3, MAGNITUDE=1)
job("C04 C05", "step", "rb_step.c", "every red-black tree of black height 1..2 (up to 15 nodes), one insertion or removal of any key", w=8, whitebox=True, MAP=TREE, BH=2)
job("C04 C05", "step-3", "rb_step.c", "every red-black tree of black height 3 with up to 3 red nodes, one insertion or removal of any key", w=8, whitebox=True, MAP=TREE, BH=3, BHMIN=3, REDS=3)
job("C04 C05", "long", "map_long.c", "100 stored keys in 4 orders, then 1 operation with any key; all looked up", w=8, MAP=TREE, LOW=100)
job("C04 C05", "long-2", "map_long.c", "20 stored keys in 4 orders, then 2 operations with any keys", w=8, MAP=TREE, LOW=20, OPS=2)
job("C04 C05", "drain", "map_long.c", "60 stored keys removed in any of 4 orders", w=4, MAP=TREE, LOW=60, DRAIN=1, OPS=0)
thorough("C04", "hist-5", "map_history.c", "5 arbitrary operations with any of 256 keys", MAP=TREE, OPS=5)
thorough("C04", "build-6", "map_history.c", "6 arbitrary insertions, then 1 arbitrary operation", MAP=TREE, BUILD=6, OPS=1)
thorough("C04", "magnitude-4", "map_history.c", "4 arbitrary operations, comparison results of any magnitude", MAP=TREE, OPS=4, MAGNITUDE=1)
thorough("C04 C05", "step-3-reds-4", "rb_step.c", "every red-black tree of black height 3 with up to 4 red nodes, one insertion or removal of any key", whitebox=True, MAP=TREE, BH=3, BHMIN=3, REDS=4)
thorough("C04 C05", "long-300", "map_long.c", "300 stored keys in 4 orders, then 1 operation with any key", MAP=TREE, LOW=300)
thorough("C04 C05", "long-40", "map_long.c", "40 stored keys in 4 orders, then 2 operations with any keys", MAP=TREE, LOW=40, OPS=2)

job("C05", "hist-checked", "map_history.c", "4 arbitrary operations with any of 256 keys", w=8, MAP=TREE, OPS=4)

job("C07", "hist-4", "map_history.c", "4 arbitrary operations with any of 256 keys", w=8, MAP=ARRAY, OPS=4)
job("C07", "build-5", "map_history.c", "5 arbitrary insertions, then 1 arbitrary operation", w=8, MAP=ARRAY, BUILD=5, OPS=1)
job("C07", "growth", "map_long.c", "7..17 stored keys in 4 orders, then 1 operation with any key (two growths)", w=8, MAP=ARRAY, LOW=7, HIGH=17)
job("C07", "growth-32", "map_long.c", "31..33 stored keys in 4 orders, then 1 operation with any key", w=4, MAP=ARRAY, LOW=31, HIGH=33)
job("C07", "drain", "map_long.c", "66 stored keys removed in any of 4 orders", w=4, MAP=ARRAY, LOW=66, DRAIN=3, OPS=0)
job("C07", "magnitude", "map_history.c", "3 arbitrary operations, comparison results of any magnitude", w=4, MAP=ARRAY, OPS=3, MAGNITUDE=1)
thorough("C07", "hist-5", "map_history.c", "5 arbitrary operations with any of 256 keys", MAP=ARRAY, OPS=5)
thorough("C07", "build-6", "map_history.c", "6 arbitrary insertions, then 1 arbitrary operation", MAP=ARRAY, BUILD=6, OPS=1)
thorough("C07", "growth-64", "map_long.c", "63..65 stored keys in 4 orders, then 1 operation with any key", MAP=ARRAY, LOW=63, HIGH=65)
thorough("C07", "growth-2", "map_long.c", "7..9 stored keys in 4 orders, then 2 operations with any keys", MAP=ARRAY, LOW=7, HIGH=9, OPS=2)

# ---- C02: growth of the hash table
job("C02", "first-growth", "hash_growth.c", "258 known keys, then a key with any 32-bit hash and the first growth; any key removed or replaced", w=8, N=258, VARIANTS=0)
job("C02", "at-growth", "hash_growth.c", "259 known keys; a key with any hash of 0..20 or of the 20 largest", w=8, N=259, SPECIAL=1, HASHES=20)
job("C02", "after-growth", "hash_growth.c", "258 keys, growth, then 262 more", w=8, N=258, VARIANTS=0, AFTER=262)
job("C02", "second-growth", "hash_growth.c", "1033 keys: two growths", w=4, N=1033, VARIANTS=0, SPECIAL=1, HASHES=5)
job("C02", "fixed-size", "hash_growth.c", "20 keys in a table of fixed size 3", SIZE=3, N=20)
job("C02 C03", "shift", "hash_shift.c", "250..300 keys in 9 progressions of hashes and 3 that share buckets, growth, removal of all but 4, then some of these, then all again", w=8)
thorough("C02 C03", "shift-2", "hash_shift.c", "the same with 1025..1034 keys", SIZES="{1025, 1032, 1034}", MANY=1034)
job("C02", "small", "hash_growth.c", "3 keys with arbitrary 32-bit hashes through growths 1, 2, 3, 4, ...", w=8, whitebox=True, soft=True, SMALL=1, N=3)
thorough("C02", "variants", "hash_growth.c", "258 keys with hashes in 3 distributions, growth, any key removed or replaced", N=258, VARIANTS=2)
thorough("C02", "small-4", "hash_growth.c", "4 keys with arbitrary 32-bit hashes through growths 1, 2, 3, 4, ...", whitebox=True, soft=True, SMALL=1, N=4)
thorough("C02", "third-growth", "hash_growth.c", "4129 keys: three growths", soft=True, max_steps=40000000, N=4129, VARIANTS=0, SPECIAL=1, HASHES=2)

# ---- C03, C06, C08: iteration
job("C03", "iter", "map_iter.c", "3 stored keys and 1 arbitrary operation, 3 keys with arbitrary hashes, 3 buckets", w=8, MAP=HASH, KEYS=2, BUILD=3, OPS=1)
job("C03", "iter-ops", "map_iter.c", "2 stored keys and 2 arbitrary operations, 2 keys with arbitrary hashes, 3 buckets", w=8, MAP=HASH, KEYS=1, BUILD=2, OPS=2)
job("C03", "one-bucket", "map_iter.c", "4 stored keys and 1 arbitrary operation in one bucket", w=8, MAP=HASH, HASH_SIZE=1, KEYS=3, BUILD=4, OPS=1)
job("C03", "long", "map_long.c", "100 stored keys in 4 orders, then 1 operation with any key; the iteration is counted", w=8, MAP=HASH, LOW=100)
thorough("C03", "iter-3-2", "map_iter.c", "3 stored keys and 2 arbitrary operations, 3 keys with arbitrary hashes, 3 buckets", MAP=HASH, KEYS=2, BUILD=3, OPS=2)
thorough("C03", "auto-size", "map_iter.c", "2 stored keys and 1 arbitrary operation, table of automatic size", MAP=HASH, HASH_SIZE=0, KEYS=1, BUILD=2, OPS=1)
job("C06", "iter", "map_iter.c", "3 arbitrary insertions and 1 arbitrary operation", w=8, MAP=TREE, BUILD=3, OPS=1)
job("C06", "reuse", "map_iter.c", "a tree of 3 arbitrary insertions, an iterator left at any point and reused on a tree of 2 keys or the other way round", w=8, MAP=TREE, BUILD=3, OPS=0, REUSE=1, OTHER=2)
job("C06", "empty-reuse", "map_iter.c", "an empty tree or one arbitrary operation, an iterator reused on a tree of 6 keys or the other way round", w=4, MAP=TREE, BUILD=0, OPS=1, REUSE=1, OTHER=6)
job("C06", "long", "map_long.c", "100 stored keys in 4 orders, then 1 operation with any key; the iteration is counted", w=8, MAP=TREE, LOW=100)
thorough("C06", "iter-3-2", "map_iter.c", "3 arbitrary insertions and 2 arbitrary operations", MAP=TREE, BUILD=3, OPS=2)
thorough("C06", "reuse-4", "map_iter.c", "4 arbitrary insertions, reuse with a tree of 3 keys", MAP=TREE, BUILD=4, OPS=0, REUSE=1, OTHER=3)
job("C08", "iter", "map_iter.c", "3 arbitrary insertions and 1 arbitrary operation", w=8, MAP=ARRAY, BUILD=3, OPS=1)
job("C08", "iter-4", "map_iter.c", "4 arbitrary insertions", w=8, MAP=ARRAY, BUILD=4, OPS=0)
job("C08", "growth", "map_long.c", "7..17 stored keys in 4 orders, then 1 operation with any key; the iteration is counted and ordered", w=8, MAP=ARRAY, LOW=7, HIGH=17)
thorough("C08", "iter-3-2", "map_iter.c", "3 arbitrary insertions and 2 arbitrary operations", MAP=ARRAY, BUILD=3, OPS=2)

# ---- C09: ownership in maps
for m, n in ((HASH, "hash"), (TREE, "tree"), (ARRAY, "array")):
    job("C09", n + "-3", "map_own.c", "3 arbitrary operations, 3 keys, with or without either release function", w=8 if m == HASH else 4, MAP=m, OPS=3)
    if m != HASH:
        job("C09", n + "-4-1", "map_own.c", "4 stored keys and 1 arbitrary operation", w=4, MAP=m, BUILD=4, OPS=1, KEYS=3)
        job("C09", n + "-4", "map_own.c", "4 arbitrary operations", w=8, MAP=m, OPS=4)
    thorough("C09", n + "-deep", "map_own.c", "5 arbitrary operations (hash table: 4)", MAP=m, OPS=4 if m == HASH else 5)
    job("C09", n + "-long", "map_own.c", "40 stored keys in 3 orders and 2 operations with any of 6 keys", w=8, MAP=m, PREFILL=40, OPS=2)
    job("C09", n + "-long-300", "map_own.c", "300 stored keys in 3 orders and 1 operation with any of 6 keys; a table of automatic size", w=8, MAP=m, KVBITS=10, PREFILL=300, OPS=1, max_steps=40000000, **(dict(HASH_SIZE=0) if m == HASH else {}))
job("C09", "hash-2-1", "map_own.c", "2 stored keys and 2 arbitrary operations in one bucket", w=8, MAP=HASH, HASH_SIZE=1, BUILD=2, OPS=2)
thorough("C09", "hash-4-1", "map_own.c", "4 stored keys and 1 arbitrary operation, 4 keys with arbitrary hashes", MAP=HASH, BUILD=4, OPS=1, KEYS=3)

# ---- C10..C14: lists
for pid, l in (("C10", LIST), ("C11", SLIST)):
    job(pid, "hist-6", "lists.c", "6 arbitrary operations", w=8, LIST=l, OPS=6)
    job(pid, "build-5", "lists.c", "5 insertions, then 2 arbitrary operations, checked after each", w=4, LIST=l, OPS=2, BUILD=5, EACH=1)
    job(pid, "magnitude", "lists.c", "2 insertions and 2 arbitrary operations, comparison results of any magnitude", w=8, LIST=l, OPS=2, BUILD=2, MAGNITUDE=1)
    job(pid, "long", "lists.c", "40 elements, then 2 arbitrary operations", w=8, LIST=l, OPS=2, BUILD=40, FIXED=11)
    job(pid, "long-300", "lists.c", "300 elements, then 1 arbitrary operation", w=8, LIST=l, OPS=1, BUILD=300, FIXED=101)
    thorough(pid, "hist-7", "lists.c", "7 arbitrary operations", LIST=l, OPS=7)
    thorough(pid, "magnitude-3", "lists.c", "2 insertions and 3 arbitrary operations, comparison results of any magnitude", LIST=l, OPS=3, BUILD=2, MAGNITUDE=1)
for l, n in ((LIST, "list"), (SLIST, "slist")):
    job("C12", n + "-5", "list_sorted.c", "5 sorted insertions of arbitrary elements", w=8, LIST=l, INSERTS=5)
    job("C12", n + "-4-2", "list_sorted.c", "2 sorted insertions into 4 arbitrary ascending elements", w=8, LIST=l, INSERTS=2, BUILD=4)
    job("C12", n + "-mixed", "list_sorted.c", "4 sorted insertions mixed with 2 removals", w=4, LIST=l, INSERTS=4, MIX=2)
    job("C12", n + "-long", "list_sorted.c", "2 sorted insertions of arbitrary elements into 40 known ones, with 1 removal", w=8, LIST=l, INSERTS=2, MIX=1, KNOWN=40)
    thorough("C12", n + "-6", "list_sorted.c", "6 sorted insertions", LIST=l, INSERTS=6)
    thorough("C12", n + "-4-3", "list_sorted.c", "3 sorted insertions into 4 arbitrary ascending elements", LIST=l, INSERTS=3, BUILD=4)
    job("C12", n + "-long-300", "list_sorted.c", "1 sorted insertion of an arbitrary element into 300 known ones", w=4, max_steps=40000000, LIST=l, INSERTS=1, KNOWN=300)
    job("C13", n + "-6", "list_search.c", "6 arbitrary elements, any value, any start", w=4, LIST=l, COUNT=6)
    job("C13", n + "-prepend", "list_search.c", "5 arbitrary elements appended or prepended, any value, any start", w=4, LIST=l, COUNT=5, PREPEND=1)
    job("C13", n + "-history", "lists.c", "2 insertions and 3 arbitrary operations", w=4, LIST=l, OPS=3, BUILD=2)
    job("C13", n + "-magnitude", "list_search.c", "4 arbitrary elements, comparison results of any magnitude", w=4, LIST=l, COUNT=4, MAGNITUDE=1)
    job("C13", n + "-long", "list_search.c", "300 known elements and up to 2 arbitrary ones, any value, some starts", w=4, max_steps=40000000, LIST=l, COUNT=2, KNOWN=300)
    thorough("C13", n + "-9", "list_search.c", "9 arbitrary elements, any value, any start", LIST=l, COUNT=9)
    job("C14", n + "-own", "lists.c", "5 arbitrary operations with or without a release function, elements may be NULL", w=8, LIST=l, OPS=5, OWN=1, NULLS=1)
    job("C14", n + "-own-build", "lists.c", "4 insertions and 2 arbitrary operations with or without a release function", w=4, LIST=l, OPS=2, BUILD=4, OWN=1)
    job("C14", n + "-own-long", "lists.c", "300 elements and 1 arbitrary operation with or without a release function", w=4, max_steps=40000000, LIST=l, OPS=1, BUILD=300, FIXED=101, OWN=1)
    thorough("C14", n + "-own-6", "lists.c", "6 arbitrary operations with or without a release function, elements may be NULL", LIST=l, OPS=6, OWN=1, NULLS=1)

# ---- C15, C16: stack and queue
job("C15", "hist-9", "stack_queue.c", "9 arbitrary operations", w=8, OPS=9)
job("C15", "build", "stack_queue.c", "40 pushes and 6 arbitrary operations", w=4, BUILD=40, OPS=6)
thorough("C15", "hist-12", "stack_queue.c", "12 arbitrary operations", OPS=12)
job("C16", "hist-9", "stack_queue.c", "9 arbitrary operations", w=8, QUEUE=1, OPS=9)
job("C16", "build", "stack_queue.c", "40 pushes and 6 arbitrary operations", w=4, QUEUE=1, BUILD=40, OPS=6)
thorough("C16", "hist-12", "stack_queue.c", "12 arbitrary operations", QUEUE=1, OPS=12)

# ---- C17, C18: memory pool
job("C17 C18", "hist-8", "pool.c", "8 operations, items of 2, 8, 12 or 24 bytes, blocks of 2 or 3 items", w=8, OPS=8)
job("C17 C18", "bytes", "pool.c", "7 items taken, 4 operations, arbitrary contents", w=8, OPS=4, BUILD=7, ITEM_SIZES="{16}", ANY_BYTES=1)
job("C17 C18", "cycles", "pool.c", "4 operations, then 5 rounds of taking and returning everything", w=1, OPS=4, CYCLES=5)
job("C17 C18", "cycles-large", "pool.c", "20 items taken, 2 operations, then 4 rounds of taking and returning everything", w=4, OPS=2, BUILD=20, BLOCKS=9, CYCLES=4, ITEM_SIZES="{2, 3, 13, 48}")
job("C17 C18", "cycles-many", "pool.c", "700 items in blocks of 2 or 3, then 2 rounds of taking and returning everything", w=2, OPS=0, BUILD=700, BLOCKS=3, CYCLES=3, ITEM_SIZES="{2}", max_steps=100000000)
thorough("C17 C18", "hist-11", "pool.c", "11 operations, items of 8 bytes", OPS=11, ITEM_SIZES="{8}")
thorough("C17 C18", "sizes", "pool.c", "7 operations, items of 2..33 bytes, blocks of 2..4", OPS=7, BLOCKS=4, ITEM_SIZES="{2, 3, 5, 7, 8, 9, 16, 31, 33}")

# ---- C19: containers with a pool
for l, n in ((LIST, "list"), (SLIST, "slist")):
    job("C19", n + "-mock", "lists.c", "4 arbitrary operations, recording pool", w=4, LIST=l, POOL=1, OPS=4, EACH=1)
    job("C19", n + "-mock-build", "lists.c", "4 insertions and 2 arbitrary operations, recording pool, with or without a release function", w=4, LIST=l, POOL=1, OPS=2, BUILD=4, OWN=1)
    job("C19", n + "-pool", "lists.c", "4 arbitrary operations, the library's pool", w=4, LIST=l, POOL=2, OPS=4, EACH=1)
    job("C19", n + "-sorted", "list_sorted.c", "3 sorted insertions mixed with 2 removals, recording pool", w=4, LIST=l, POOL=1, INSERTS=3, MIX=2)
    job("C19", n + "-long", "lists.c", "40 elements and 1 arbitrary operation, recording pool, with or without a release function", w=4, LIST=l, POOL=1, OPS=1, BUILD=40, FIXED=11, OWN=1, MOCK_ITEMS=200)
    thorough("C19", n + "-mock-6", "lists.c", "6 arbitrary operations, recording pool", LIST=l, POOL=1, OPS=6)
job("C19", "stack", "stack_queue.c", "7 arbitrary operations, recording pool", w=4, OPS=7, POOL=1)
job("C19", "queue", "stack_queue.c", "7 arbitrary operations, recording pool", w=4, QUEUE=1, OPS=7, POOL=1)
job("C19", "tree", "map_own.c", "4 arbitrary operations, recording pool", w=8, MAP=TREE, OPS=4, POOL=1)
job("C19", "tree-build", "map_own.c", "5 stored keys and 1 arbitrary operation, recording pool", w=4, MAP=TREE, BUILD=5, OPS=1, KEYS=4, POOL=1)
job("C19", "tree-long", "map_own.c", "40 stored keys in 3 orders and 2 operations with any of 6 keys, recording pool", w=8, MAP=TREE, PREFILL=40, OPS=2, POOL=1, MOCK_ITEMS=200)
job("C19", "stack-long", "stack_queue.c", "40 pushes and 3 arbitrary operations, recording pool", w=4, BUILD=40, OPS=3, POOL=1, MOCK_ITEMS=200)
job("C19", "queue-long", "stack_queue.c", "40 pushes and 3 arbitrary operations, recording pool", w=4, QUEUE=1, BUILD=40, OPS=3, POOL=1, MOCK_ITEMS=200)

# ---- C20..C23: buffer
job("C20", "lengths", "buffer.c", "3 appends or clears of 0, 1, 63, 64, 65 or 130 bytes", w=4, OPS=3, LENS="{0, 1, 63, 64, 65, 130}")
job("C20", "short", "buffer.c", "5 appends or clears of 0..3 bytes", w=4, OPS=5)
job("C20", "every-length", "buffer.c", "60 bytes, then an append of every length 0..9 or 60..72", w=4, START=60, OPS=2, LENS="{0,1,2,3,4,5,6,7,8,9,60,61,62,63,64,65,66,67,68,69,70,71,72}", STRIDE=7)
job("C20", "large", "buffer.c", "400 bytes, then two appends of 111..113 or 300 bytes", w=4, START=400, OPS=2, LENS="{111, 112, 113, 300}", LIMITS="{5000}", STRIDE=50)
job("C20", "huge", "buffer.c", "9000 bytes, then 3 appends or clears of 1, 7000 or 9000 bytes", w=4, CAPACITY=40000, START=9000, OPS=3, LENS="{1, 7000, 9000}", LIMITS="{40000}", STRIDE=1000)
job("C20", "runs", "buffer.c", "1 arbitrary byte, then 70, 600 or 1000 equal bytes but one, which is arbitrary and at any place", w=4, START=1, OPS=1, RUNS=1, WHICH=1, CAPACITY=1100, LIMITS="{1100}", LENS="{70, 600, 1000}")
job("C20 C21", "any-length-1", "buffer_big.c", "1 append of any 64-bit length, any 64-bit limit", w=8, own="MEM", soft=True, assert_only=True, APPENDS=1)
job("C20 C21", "any-length-2", "buffer_big.c", "2 appends of any length whose number of bits is 0, 1, 6..8, 32, 33 or 61..64, any 64-bit limit", w=8, own="MEM", soft=True, assert_only=True, MAGNITUDES="{0,1,6,7,8,32,33,61,62,63,64}")
thorough("C20 C21", "any-length-full", "buffer_big.c", "2 appends of any 64-bit length, any 64-bit limit", own="MEM", soft=True, assert_only=True)
thorough("C20 C21", "any-length-clear", "buffer_big.c", "2 appends or clears of lengths of 0, 6, 7, 32 or 62..64 bits, any 64-bit limit", own="MEM", soft=True, assert_only=True, CLEARS=1, MAGNITUDES="{0,6,7,32,62,63,64}")
thorough("C20", "lengths-4", "buffer.c", "4 appends or clears of 0, 1, 2, 63..65, 127..130 bytes", OPS=4, LENS="{0, 1, 2, 63, 64, 65, 127, 128, 129, 130}", STRIDE=9)
job("C21", "limits", "buffer.c", "4 appends or clears of 0..6 bytes, limits 1, 2 and 5", w=4, OPS=4, LIMITS="{1, 2, 5}", LENS="{0, 1, 2, 3, 4, 5, 6}")
job("C21", "limits-64", "buffer.c", "3 appends or clears, limits 63..66 and 130", w=4, OPS=3, LIMITS="{63, 64, 65, 66, 130}", LENS="{0, 1, 2, 62, 63, 64, 65, 66, 67}", STRIDE=11)
job("C21", "all-operations", "buffer.c", "3 operations of every kind, limit 2", w=8, WHICH="0x3f", own="READ", OPS=3, LIMITS="{2}", LENS="{1, 2, 3}", DST=2)
thorough("C21", "limits-5", "buffer.c", "6 appends or clears of 0..4 bytes, limits 1..4", OPS=6, LIMITS="{1, 2, 3, 4}", LENS="{0, 1, 2, 3, 4, 5}")
job("C22", "hist", "buffer.c", "3 operations of every kind, appends of 0..3 arbitrary bytes, destination of 0..3 bytes", w=4, WHICH="0x1f", OPS=3)
job("C22", "six-bytes", "buffer.c", "6 arbitrary bytes, 3 readings, destination of 0..8 bytes", w=4, WHICH="0x1c", START=6, OPS=3, DST=8)
job("C22", "long-line", "buffer.c", "66 bytes of which 4 are arbitrary, 3 readings", w=4, WHICH="0x1c", START=66, STRIDE=20, OPS=3)
job("C22", "exact", "buffer.c", "3 arbitrary bytes, two appends or readings, destination of 0..5 bytes", w=4, WHICH="0x1d", START=3, OPS=2, LENS="{1, 2}", DST=5)
job("C22 C37", "very-long", "stream.c", "a line of up to 65536 known bytes (11 lengths) and 2 arbitrary ones, in 2 pieces", w=8, own="READ", max_steps=40000000, PREFIXES="{100, 255, 256, 1023, 1024, 1025, 2048, 4095, 4096, 5000, 65536}", BYTES=2, PIECES=2)
thorough("C22", "hist-4", "buffer.c", "4 operations of every kind, appends of 0..3 arbitrary bytes, destination of 0..4 bytes", WHICH="0x1f", OPS=4, DST=4)
thorough("C22", "ten-bytes", "buffer.c", "10 arbitrary bytes, 3 readings, destination of 0..12 bytes", WHICH="0x1c", START=10, OPS=3, DST=12)
job("C23", "hist", "buffer.c", "3 operations (filling from a descriptor, append, clear), limits 1 and 4, every short read, end of file and error", w=8, WHICH="0x23", own="READ", OPS=3, LIMITS="{1, 4}", LENS="{0, 1, 2, 3, 4}")
job("C23", "large", "buffer.c", "60 bytes, then 2 operations, reads of any length up to 70", w=8, WHICH="0x21", own="READ", START=60, OPS=2, LIMITS="{140}", LENS="{1, 5, 70}", STRIDE=9)
job("C23", "counts", "buffer.c", "1 operation with a count of 1023..1025, 4095..4097, 16384, 65535..65537 or 100000; nothing, 1 byte, half, all but one or all of it is there", w=8, WHICH="0x20", own="READ", FEW=1, CAPACITY=100100, OPS=1, LIMITS="{100000, 100100}", LENS="{1023, 1024, 1025, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 100000}", STRIDE=1000000, max_steps=80000000)
job("C23", "counts-2", "buffer.c", "3000 bytes, then 2 operations with a count of 1024, 4096 or 5000, limit 8096", w=8, WHICH="0x21", own="READ", FEW=1, CAPACITY=20000, START=3000, OPS=2, LIMITS="{8096}", LENS="{1024, 4096, 5000}", STRIDE=1000000, max_steps=80000000)
thorough("C23", "hist-4", "buffer.c", "4 operations, limit 5", WHICH="0x23", own="READ", OPS=4, LIMITS="{5}", LENS="{0, 1, 3, 5}")

# ---- C24..C27: asynchronous queue
A = dict(own="POSIX")
job("C24", "single", "async_single.c", "3 operations of one caller while others change the queue; the queue is guarded outside the lock", w=4, GUARD=1, OPS=3, **A)
job("C24", "failures", "async_single.c", "the same with lock and wait operations that fail", w=4, GUARD=1, FAILURES=1, OPS=3, **A)
job("C24", "pool", "async_single.c", "3 operations of one caller on a queue that has a pool", w=4, GUARD=1, POOL=1, OPS=3, **A)
job("C24 C25 C26", "threads-guard", "async_threads.c", "default threads with the queue guarded outside the lock", w=8, GUARD=1, **A)
job("C25 C26", "untimed", "async_threads.c", "untimed pops, 2 spurious wakeups", w=8, TIMED=0, SPURIOUS=2, **A)
job("C25 C26", "timed", "async_threads.c", "timed pops with any timeouts, one clear", w=8, TIMED=2, SPURIOUS=0, CLEARS=1, **A)
job("C25 C26", "clears", "async_threads.c", "untimed pops of 2 consumers; a thread that clears or asks for the count twice, then pushes an element for each of them", w=8, TIMED=0, SPURIOUS=1, PRODUCERS=0, PUSHES=0, CLEARS=2, RESCUE=1, **A)
job("C25 C26", "clears-2", "async_threads.c", "the same with one clear or count and a further producer of one element", w=8, TIMED=0, SPURIOUS=0, PRODUCERS=1, PUSHES=1, CLEARS=1, RESCUE=1, **A)
job("C25 C27", "single-pop", "async_single.c", "3 operations of one caller", w=4, OPS=3, **A)
job("C27", "clock", "async_single.c", "one wait, any time of the clock, any timeout", w=8, CLOCK=1, WAITS=1, **A)
job("C27", "moments", "async_single.c", "waits on a grid of moments", w=4, CLOCK=3, WAITS=1, **A)
job("C27", "clock-woken", "async_single.c", "one early wakeup, any time of the clock, any timeout", w=8, soft=True, CLOCK=2, WAITS=1, **A)
thorough("C25 C26", "threads-3", "async_threads.c", "2 producers and 3 consumers, untimed", soft=True, TIMED=0, SPURIOUS=0, PRODUCERS=2, CONSUMERS=3, **A)
thorough("C25 C26", "pushes-3", "async_threads.c", "1 producer of 3 elements and 2 consumers of 2", soft=True, TIMED=1, SPURIOUS=1, PRODUCERS=1, PUSHES=3, CONSUMERS=2, POPS=2, **A)
thorough("C24", "single-5", "async_single.c", "4 operations of one caller, failures", GUARD=1, FAILURES=1, OPS=4, **A)
thorough("C27", "moments-2", "async_single.c", "2 early wakeups on a grid of moments", soft=True, CLOCK=3, WAITS=2, **A)

# ---- C28..C30
job("C28", "equal", "strings.c", "2 strings of 0..4 arbitrary bytes at offsets 0..3", w=4, LENGTH=4, OFFSETS=3)
job("C28", "three", "strings.c", "3 strings of 0..2 arbitrary bytes", w=4, LENGTH=2, THREE=1, OFFSETS=0)
job("C28", "long", "strings.c", "2 strings with a common prefix of 0..20 arbitrary bytes, differing behind it", w=4, LENGTH=1, LONG=20, OFFSETS=1)
job("C28", "six", "strings.c", "2 strings of 0..6 arbitrary bytes", w=4, LENGTH=6, OFFSETS=0)
job("C28", "very-long", "strings.c", "2 strings with a common prefix of 0..300 known bytes, or of up to 65537, and 0..1 arbitrary bytes behind it", w=8, max_steps=40000000, LENGTH=1, KNOWN=300, OFFSETS=0)
thorough("C28", "long-70", "strings.c", "common prefix of 0..70 arbitrary bytes", LENGTH=2, LONG=70, OFFSETS=0)
thorough("C28", "nine", "strings.c", "2 strings of 0..9 arbitrary bytes", LENGTH=9, OFFSETS=0)
job("C29", "all", "direct.c", "any three 64-bit values other than NULL", w=1)
job("C30", "one-failure", "alloc_fail.c", "any one request failing in a fixed history of every container of up to 40 elements (262 in hash tables)", own="READ", w=4)
job("C30", "one-failure-large", "alloc_fail.c", "the same with 140 elements (1040 in hash tables)", own="READ", w=4, SIZE=140, HASHES=1040)

# ---- C31..C39: what all containers have in common
job("C31", "any-memory", "lifecycle.c", "every container in memory of arbitrary contents or on the heap, 2 rounds of 3 arbitrary operations", w=8, OPS=3)
job("C31", "prefilled", "lifecycle.c", "the same with 40 elements before, 2 rounds of 1 operation", w=8, OPS=1, PREFILL=40)
job("C31", "prefilled-300", "lifecycle.c", "the same with 300 elements before and a table of automatic size", w=8, OPS=1, PREFILL=300, HASH_SIZE=0, max_steps=40000000)
thorough("C31", "any-memory-4", "lifecycle.c", "every container in memory of arbitrary contents or on the heap, 2 rounds of 4 arbitrary operations", OPS=4)
job("C32", "pairs", "independent.c", "two containers of every kind, 5 arbitrary operations on either", w=8, OPS=5)
job("C32", "shared-pool", "independent.c", "two containers of every kind sharing a memory pool, 5 arbitrary operations on either", w=8, OPS=5, POOLS=1)
job("C32", "mixed", "independent.c", "two containers of different kinds, 4 arbitrary operations on either", w=8, OPS=4, MIXED=1)
job("C32", "mixed-pool", "independent.c", "two containers of different kinds sharing a memory pool, 4 arbitrary operations on either", w=8, OPS=4, POOLS=1, MIXED=1)
job("C32", "prefilled", "independent.c", "two containers of every kind with 40 elements each, 2 arbitrary operations on either", w=8, OPS=2, PREFILL=40, max_steps=40000000)
job("C32", "prefilled-pool", "independent.c", "two containers of every kind with 40 elements each sharing a memory pool, 2 arbitrary operations on either", w=8, OPS=2, PREFILL=40, POOLS=1, max_steps=40000000)
job("C32", "prefilled-300", "independent.c", "two containers of every kind with 300 elements each and tables of automatic size, 1 arbitrary operation", w=8, OPS=1, PREFILL=300, HASH_SIZE=0, max_steps=80000000)
job("C32", "nested", "independent.c", "a container of 3 elements, 2 arbitrary operations, every function it calls uses another container of any kind", w=8, NESTED=1, MIXED=1, BUILD=3, OPS=2, ELEMENTS=20)
job("C32", "nested-pool", "independent.c", "the same with a memory pool that both share", w=8, NESTED=1, MIXED=1, POOLS=1, BUILD=3, OPS=2, ELEMENTS=20)
thorough("C32", "nested-4", "independent.c", "a container of 4 elements, 4 arbitrary operations, every function it calls uses another container of any kind", NESTED=1, MIXED=1, BUILD=4, OPS=4, ELEMENTS=20)
thorough("C32", "mixed-5", "independent.c", "two containers of different kinds, 5 arbitrary operations on either", OPS=5, MIXED=1)
thorough("C32", "pairs-6", "independent.c", "two containers of every kind, 6 arbitrary operations on either", OPS=6)
thorough("C32", "shared-pool-6", "independent.c", "two containers of every kind sharing a memory pool, 6 arbitrary operations on either", OPS=6, POOLS=1)
for m, n in ((HASH, "hash"), (TREE, "tree"), (ARRAY, "array")):
    job("C33", n + "-3", "map_own.c", "3 arbitrary operations, 3 keys, with or without release functions; every key a function is called with is checked", w=8, MAP=m, OPS=3, LIVE=1)
    job("C33", n + "-build", "map_own.c", "%d stored keys and 1 arbitrary operation" % (3 if m == HASH else 4), w=8, MAP=m, BUILD=3 if m == HASH else 4, OPS=1, KEYS=3, LIVE=1)
    job("C33", n + "-long", "map_own.c", "40 stored keys in 3 orders and 2 operations with any of 6 keys", w=8, MAP=m, PREFILL=40, OPS=2, LIVE=1)
    job("C33", n + "-long-300", "map_own.c", "300 stored keys in 3 orders and 1 operation with any of 6 keys; a table of automatic size", w=8, MAP=m, KVBITS=10, PREFILL=300, OPS=1, LIVE=1, max_steps=40000000, **(dict(HASH_SIZE=0) if m == HASH else {}))
    thorough("C33", n + "-4", "map_own.c", "4 arbitrary operations, 3 keys", MAP=m, OPS=4, LIVE=1)
for l, n in ((LIST, "list"), (SLIST, "slist")):
    job("C33", n + "-own", "lists.c", "4 arbitrary operations of eleven kinds, with a release function, elements may be NULL", w=8, LIST=l, OPS=4, OWN=1, NULLS=1, LIVE=1)
    job("C33", n + "-build", "lists.c", "4 insertions and 2 arbitrary operations, no release function", w=8, LIST=l, BUILD=4, OPS=2, LIVE=1)
    job("C33", n + "-long", "lists.c", "100 elements and 1 arbitrary operation, with a release function", w=8, LIST=l, BUILD=100, FIXED=41, OPS=1, OWN=1, LIVE=1, max_steps=40000000)
    thorough("C33", n + "-own-5", "lists.c", "5 arbitrary operations, with a release function", LIST=l, OPS=5, OWN=1, NULLS=1, LIVE=1)
job("C34", "long", "map_long.c", "100 stored keys in 4 orders, then 1 operation with any key; comparisons of all lookups", w=8, MAP=ARRAY, LOW=100, LOGARITHMIC=1)
job("C34", "sizes", "map_long.c", "1..40 stored keys in 4 orders; comparisons of all lookups", w=8, MAP=ARRAY, LOW=1, HIGH=40, OPS=0, LOGARITHMIC=1)
job("C34", "thousand", "map_long.c", "1100 keys in 4 orders; comparisons of all lookups", w=4, max_steps=40000000, MAP=ARRAY, KVBITS=12, LOW=1100, OPS=0, LOGARITHMIC=1)
job("C34", "hist", "map_history.c", "3 arbitrary operations", w=4, MAP=ARRAY, OPS=3, LOGARITHMIC=1)
job("C35", "load", "hash_load.c", "1300, half of them removed and stored again, and then 5200 keys with evenly spaced hash values, 3 starts, 2 steps, 5 ways of prior use", w=8, max_steps=80000000)
job("C35", "sizes", "hash_sizes.c", "any step of the sequence of sizes a growing table goes through", whitebox=True)
thorough("C35", "load-5000", "hash_load.c", "the same with 5000 and 20000 keys", max_steps=400000000, N=5000)
job("C36", "own", "own_queue.c", "6 arbitrary operations, elements may be NULL, with or without a release function", w=8, OPS=6)
job("C36", "own-build", "own_queue.c", "6 elements and 3 arbitrary operations", w=4, OPS=3, BUILD=6)
job("C36", "pool", "own_queue.c", "4 arbitrary operations with a recording pool", w=4, OPS=4, POOL=1)
thorough("C36", "own-7", "own_queue.c", "7 arbitrary operations", OPS=7)
job("C37", "stream", "stream.c", "6 arbitrary bytes in 3 pieces cut anywhere", w=8, own="READ", BYTES=6)
job("C37", "long", "stream.c", "70 bytes followed by 3 arbitrary ones, in 3 pieces cut at every eighth place or within the last bytes", w=8, own="READ", PREFIX=70, BYTES=3)
thorough("C37", "stream-7", "stream.c", "7 arbitrary bytes in 3 pieces cut anywhere", own="READ", BYTES=7)
thorough("C37", "pieces-4", "stream.c", "5 arbitrary bytes in 4 pieces cut anywhere", own="READ", BYTES=5, PIECES=4)
job("C38", "rounds", "bounded.c", "every container, with or without a pool, 1, 5 or 20 elements, 3 + 3 rounds", w=8)
job("C38", "large", "bounded.c", "every container, with or without a pool, 300 elements, 3 + 2 rounds", w=8, SIZES="{300}", LARGEST=300, ROUNDS=2, max_steps=40000000)
job("C38", "many-rounds", "bounded.c", "every container, with or without a pool, 1..3 elements, 3 + 400 rounds of one way or all in turn", w=8, SIZES="{1, 2, 3}", LARGEST=3, ROUNDS=400, LONG=1, max_steps=40000000)
thorough("C38", "rounds-6", "bounded.c", "every container, with or without a pool, 1, 9, 40 or 70 elements, 3 + 6 rounds", SIZES="{1, 9, 40, 70}", LARGEST=70, ROUNDS=6, max_steps=40000000)
job("C39", "any-bits", "opaque.c", "3 elements, keys and values of any 64 bits in every container", w=8, HASH_SIZE=4)
job("C39", "prefilled", "opaque.c", "20 known elements, then 1 with a key and a value of any 64 bits", w=8, HASH_SIZE=4, PREFILL=20, COUNT=1, max_steps=40000000)
thorough("C39", "any-bits-3", "opaque.c", "the same, 3 buckets")
thorough("C39", "any-bits-4", "opaque.c", "4 elements, keys and values of any 64 bits in every container", COUNT=4)

job("C40", "queries", "queries.c", "every container of up to 4 elements in 3 orders, one perhaps removed; 2 questions of any kind during an iteration left anywhere", w=8)
job("C40", "larger", "queries.c", "the same with 7 or 8 elements, one question", w=4, BUILDMIN=7, BUILD=8, QUERIES=1)
job("C40", "prefilled", "queries.c", "every container of 40 elements in 3 orders, one perhaps removed; 1 question during an iteration", w=8, PREFILL=40, QUERIES=1, max_steps=40000000)
job("C40", "prefilled-300", "queries.c", "the same with 300 elements in tables of automatic size, 1 question", w=8, PREFILL=300, QUERIES=1, HASH_SIZE=0, max_steps=40000000)
thorough("C40", "queries-3", "queries.c", "3 questions of any kind, up to 5 elements", QUERIES=3, BUILD=5)
job("C41", "work", "scale.c", "every container filled with 1000 and with 8000 elements and emptied in up to 4 ways", w=8, measure=True, max_steps=400000000, N=1000)
job("C41", "work-from-2000", "scale.c", "the same with 2000 and 16000 elements", w=8, measure=True, max_steps=400000000, N=2000)
thorough("C41", "work-from-9000", "scale.c", "the same with 9000 and 72000 elements", measure=True, max_steps=4000000000, N=9000)
job("C42", "depth", "scale.c", "every container of 4000 elements (a hash table also with 1333 in one bucket), with or without release functions, filled, questioned and emptied in up to 4 ways", w=8, own="READ", measure=True, max_steps=400000000, DEPTH=1, N=4000)
thorough("C42", "depth-20000", "scale.c", "the same with 20000 elements", own="READ", measure=True, max_steps=4000000000, DEPTH=1, N=20000)
job("C43", "macros", "macros.c", "3 elements of any 64 bits in a list or map, one perhaps removed", w=8, HASH_SIZE=4)
job("C43", "prefilled", "macros.c", "40 known elements and 1 of any 64 bits in a list or map, one perhaps removed", w=8, PREFILL=40, COUNT=1, HASH_SIZE=4, max_steps=40000000)
thorough("C43", "macros-4", "macros.c", "4 elements of any 64 bits in a list or map, one perhaps removed", COUNT=4, HASH_SIZE=4)

# ---- C44: builds with assertions
D = dict(debug=True)
for m, n in ((HASH, "table"), (TREE, "tree"), (ARRAY, "array")):
    job("C44", n, "map_own.c", "3 arbitrary operations on a %s, 3 keys, with or without release functions" % n, w=8, MAP=m, OPS=3, **D)
    job("C44", n + "-long", "map_own.c", "40 stored keys in 3 orders and 2 operations with any of 6 keys", w=8, MAP=m, PREFILL=40, OPS=2, **D)
    job("C44", n + "-iter", "map_iter.c", "3 stored keys and 1 arbitrary operation, iterated", w=4, MAP=m, BUILD=3, OPS=1, **dict(D, **(dict(KEYS=2) if m == HASH else {})))
    job("C44", n + "-thousand", "map_long.c", "1100 keys in 4 orders, cleared and filled again in 4 orders, iterated", w=4, max_steps=40000000, MAP=m, KVBITS=12, LOW=1100, OPS=0, REFILL=1, **dict(D, **(dict(HASH_SIZE=0) if m == HASH else {})))
job("C44", "tree-step", "rb_step.c", "every red-black tree of black height 1..2 (up to 15 nodes), one insertion or removal of any key", w=8, whitebox=True, MAP=TREE, BH=2, **D)
job("C44", "tree-reuse", "map_iter.c", "a tree of 3 arbitrary insertions, an iterator left at any point and reused on a tree of 2 keys or the other way round", w=8, MAP=TREE, BUILD=3, OPS=0, REUSE=1, OTHER=2, **D)
for l, n in ((LIST, "list"), (SLIST, "slist")):
    job("C44", n, "lists.c", "5 arbitrary operations with or without a release function, elements may be NULL", w=8, LIST=l, OPS=5, OWN=1, NULLS=1, **D)
    job("C44", n + "-pool", "lists.c", "4 insertions and 2 arbitrary operations, recording pool", w=4, LIST=l, POOL=1, OPS=2, BUILD=4, OWN=1, **D)
    job("C44", n + "-sorted", "list_sorted.c", "4 sorted insertions mixed with 2 removals", w=4, LIST=l, INSERTS=4, MIX=2, **D)
    job("C44", n + "-search", "list_search.c", "5 arbitrary elements appended or prepended, any value, any start", w=4, LIST=l, COUNT=5, PREPEND=1, **D)
job("C44", "stack", "stack_queue.c", "40 pushes and 6 arbitrary operations", w=4, BUILD=40, OPS=6, **D)
job("C44", "queue", "stack_queue.c", "40 pushes and 6 arbitrary operations", w=4, QUEUE=1, BUILD=40, OPS=6, **D)
job("C44", "asyncqueue", "own_queue.c", "5 arbitrary operations on every queue, elements may be NULL, with or without a release function", w=8, OPS=5, **D)
job("C44", "threads", "async_threads.c", "timed pops with any timeouts, one clear", w=8, own="POSIX", TIMED=2, SPURIOUS=0, CLEARS=1, **D)
job("C44", "pool", "pool.c", "8 operations, items of 2, 8, 12 or 24 bytes, blocks of 2 or 3 items", w=8, OPS=8, **D)
job("C44", "buffer", "buffer.c", "3 appends or clears of 0, 1, 63, 64, 65 or 130 bytes", w=4, OPS=3, LENS="{0, 1, 63, 64, 65, 130}", **D)
job("C44", "stream", "stream.c", "6 arbitrary bytes in 3 pieces cut anywhere", w=8, own="READ", BYTES=6, **D)
job("C44", "strings", "strings.c", "2 strings of 0..4 arbitrary bytes at offsets 0..3", w=4, LENGTH=4, OFFSETS=3, **D)
job("C44", "direct", "direct.c", "any three 64-bit values other than NULL", w=1, **D)
job("C44", "growth", "hash_growth.c", "258 known keys, then a key with any 32-bit hash and the first growth; any key removed or replaced", w=8, N=258, VARIANTS=0, **D)
job("C44", "in-place", "lifecycle.c", "every container in memory of arbitrary contents or on the heap, 2 rounds of 2 arbitrary operations", w=8, OPS=2, **D)
job("C44", "prefilled-300", "lifecycle.c", "the same with 300 elements before and a table of automatic size", w=8, OPS=1, PREFILL=300, HASH_SIZE=0, max_steps=40000000, **D)
thorough("C44", "in-place-3", "lifecycle.c", "every container in memory of arbitrary contents or on the heap, 2 rounds of 3 arbitrary operations", OPS=3, **D)

# ---- more elements than 16 bits can count
HUGE = ((LIST, "C10", "C14", "", "a list"), (SLIST, "C10 C11", "C14", "", "a single-linked slist"), (3, "C15", "C36", "", "a stack"), (4, "C16", "C36", "", "a queue"),
        (5, "C26", "C36", "", "an asyncqueue"), (6, "C01 C02 C03", "C09", "C35", "a growing table"), (7, "C04 C06", "C09", "C05", "a tree"),
        (8, "C07 C08", "C09", "C34", "an array"), (9, "C17 C18", "", "", "a pool"))
for k, plain, own, cost, n in HUGE:
    for pids, kw in ((plain, {}), (own, dict(OWN=1)), (cost, dict(COST=1)), ("C44", D)):
        job(pids, "huge-%s" % n.split()[-1], "huge.c", "%s of 65700 elements (arbitrary first one), filled and emptied in 3 ways" % n, w=3, max_steps=800000000, KIND=k, **dict(kw, **(dict(BLOCK=65600) if k == 9 else {})))

ASSUMPTIONS = [
    "an allocation succeeds and yields a fresh block of exactly the requested size (C30: or fails); blocks are never reused, so a use after release is always noticed",
    "callers keep the documented preconditions (non-NULL containers, no container changed while it is iterated, items not used after removal)",
    "the sources are compiled with NDEBUG (C44: without it) and WITH_PTHREAD like the repository's own release build; x86-64 data layout",
    "everything outside the bounds given with each job is not covered",
]
THREADS = ["threads are switched when they lock, unlock, wait or signal; C24 shows that nothing shared is touched outside the lock, so no other switch can matter"]
PROPERTY_ASSUMPTIONS = {"C24": THREADS, "C25": THREADS, "C26": THREADS,
    "C27": THREADS + ["a timeout of 0 ms means waiting without limit and is not covered"],
    "C20": ["in the any-length jobs memory operations are stand-ins that check sizes and positions only"],
    "C21": ["in the any-length jobs memory operations are stand-ins that check sizes and positions only"]}
