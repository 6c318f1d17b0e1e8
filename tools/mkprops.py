import json
P = []
def p(i, title, stmt, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": i, "title": title, "statement": stmt, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe or [], "hook_needed": None}})

p("C01", "The hash table is a finite map under every history and every collision",
  "After any sequence of set, remove, lookup, pair-value update and clear, a lookup of any key finds exactly the value last stored for an equal key, and nothing for a key that is absent or was removed or cleared. Set reports 'new' or 'replaced' truthfully, keeps the stored key unless told to overwrite it, and the count is the number of distinct present keys. This holds for every hash function and table size, including when all keys collide.",
  ["inputs", "histories", "configurations"], "all operation histories, key/value choices, hash values (32 bit) and fixed table sizes",
  "The tests insert a few fixed strings with one hash function; chain removal at head, middle and tail, replacement inside a chain and removal followed by reuse depend on which hashes collide.",
  ["hashtable.c", "hashtable.h"], [("bucket chains, find/insert/unlink", "hashtable.c hashtable_set, hashtable_remove, _hashtable_find_bucket"), ("pair update", "hashtable.c hashtable_pair_set_value")],
  [{"name": "buckets", "meaning": "chains of entries by hash modulo size", "where": "hashtable.h HashTable"}], ["hashtable_lookup", "hashtable_key_exists", "hashtable_count"])
p("C02", "Growing the hash table keeps every entry",
  "An auto-resizing hash table behaves as the same map before, during and after each growth: every entry stored before is found afterwards with its key and value, no entry is duplicated or lost, and the count is unchanged, whatever the hash values of the keys are. A table created with a fixed size never changes its behaviour either, however many entries it holds.",
  ["inputs", "histories", "configurations"], "all hash values of the entries that move, all keys looked up, all operations after growth; several successive growths",
  "Which chain an entry lands in after growth depends on its hash in both table sizes; the tests cross one growth with one hash distribution and look up only what they inserted.",
  ["hashtable.c"], [("rehash into the next prime size", "hashtable.c _hashtable_resize"), ("growth trigger", "hashtable.c hashtable_set")], [{"name": "sizeptr", "meaning": "current position in the table of sizes", "where": "hashtable.h"}], ["hashtable_lookup", "hashtable_count", "hashtable_iter_next"])
p("C03", "Iterating a hash table yields each entry exactly once",
  "An iteration over an unmodified hash table yields every present entry exactly once, with the key and value a lookup would give, yields nothing else, and then keeps reporting the end. This holds for every distribution of entries over the table, including empty tables, long chains and the first and last positions.",
  ["inputs", "histories", "configurations"], "all sets of entries, hash values and table sizes",
  "Chains, gaps and boundary positions depend on hash values the tests do not control.",
  ["hashtable.c"], [("bucket walk", "hashtable.c hashtable_iter_next, _hashtable_iter_get_next_bucket")], [], ["hashtable_iter_next", "hashtable_iter_get_key", "hashtable_iter_get_value"])
p("C04", "The red-black tree is a finite map under every history",
  "After any sequence of set, remove, lookup, pair-value update and clear, a lookup of any key finds exactly the value last stored for an equal key and nothing for absent keys. Set and remove report truthfully what they did, the stored key is kept unless overwriting is asked for, and the count is the number of distinct present keys. This holds for every insertion order, tree size and every result magnitude a comparison function may return.",
  ["inputs", "histories"], "all operation histories, insertion orders and key choices; all valid tree shapes",
  "Rebalancing cases are selected by the shape and colours around the changed node; the tests drive a handful of insertion and removal orders.",
  ["rbtree.c", "rbtree.h"], [("insertion and rebalancing", "rbtree.c _rbtree_insert_child, _rbtree_insert_case2_to_6"), ("removal and rebalancing", "rbtree.c rbtree_remove, _rbtree_remove_case*")],
  [{"name": "stack/sp", "meaning": "path from the root to the current node", "where": "rbtree.h RBTree"}], ["rbtree_lookup", "rbtree_key_exists", "rbtree_count"])
p("C05", "The red-black tree stays balanced and ordered",
  "After any history of insertions and removals every lookup in a tree of n entries, or question whether a key exists, needs at most 2*log2(n+1) comparisons, because no path is more than twice as long as another. Keys remain in search order, so in-order position and lookups agree.",
  ["inputs", "histories"], "every valid tree of bounded height, every key inserted into or removed from it; every short history from the empty tree",
  "Loss of balance does not change any result the tests look at; it shows only as cost after particular sequences.",
  ["rbtree.c"], [("colour and rotation cases", "rbtree.c _rbtree_insert_case1, _rbtree_insert_case2_to_6, _rbtree_remove_case1..6")], [{"name": "black", "meaning": "node colour", "where": "rbtree.h RBNode"}], ["number of calls of the comparison function", "rbtree_lookup"])
p("C06", "Iterating a red-black tree yields each entry exactly once",
  "A tree iterator yields every present entry exactly once with its key and value and then keeps reporting the end. An initialised iterator can be reused for the same or another tree of any size, larger or smaller, and can be released at any time, including when it was initialised on an empty tree.",
  ["inputs", "histories"], "all tree shapes up to a bound, all points of releasing or reusing the iterator, all pairs of trees",
  "The tests iterate over a few trees to the end; early release, reuse across sizes and empty trees are combinations they do not reach.",
  ["rbtree.c"], [("explicit traversal stack", "rbtree.c rbtree_iter_init, rbtree_iter_next"), ("stack growth on reuse", "rbtree.c rbtree_iter_reuse")], [{"name": "RBTreeIter.stack", "meaning": "traversal stack sized from the entry count", "where": "rbtree.h"}], ["rbtree_iter_next", "rbtree_iter_get_key", "rbtree_iter_get_value"])
p("C07", "The associative array is a finite map under every history, across growth",
  "After any sequence of set, remove, lookup, pair-value update and clear, a lookup of any key finds exactly the value last stored for an equal key and nothing for absent keys, set reports truthfully, the stored key is kept unless overwriting is asked for, and the count is the number of distinct present keys. This holds for every insertion order, for every size including each point at which storage grows, and for every result magnitude a comparison function may return.",
  ["inputs", "histories"], "all operation histories, insertion positions, sizes up to several growths",
  "The insertion position relative to the array length and its capacity selects the code path; the tests use a few orders and sizes.",
  ["assocarray.c", "assocarray.h"], [("binary search", "assocarray.c _assoc_array_binary_search"), ("insert/shift/grow", "assocarray.c assoc_array_set, _assoc_array_resize_if_necessary"), ("remove/shift", "assocarray.c assoc_array_remove")], [{"name": "keys/values", "meaning": "parallel sorted arrays", "where": "assocarray.h"}], ["assoc_array_lookup", "assoc_array_count"])
p("C08", "Iterating an associative array yields each entry once in ascending order",
  "An iteration over an unmodified associative array yields every present entry exactly once with its key and value, in strictly ascending key order, and then reports the end. This holds after any history of insertions, replacements and removals.",
  ["inputs", "histories"], "all histories, insertion orders and sizes up to a bound",
  "Order depends on every past insertion and removal position; the tests check a few.",
  ["assocarray.c"], [("sorted insertion", "assocarray.c assoc_array_set"), ("cursor", "assocarray.c assoc_array_iter_next")], [], ["assoc_array_iter_next"])
p("C09", "The maps release owned keys and values exactly once and never what is not theirs",
  "With release functions configured, a hash table, red-black tree or associative array releases each stored key and each stored non-NULL value exactly once: when it is overwritten, removed or cleared, or when the container is destroyed. It never releases a NULL value, a key the caller passed for a replacement that kept the old key, anything still stored, or anything not stored; after destruction no memory the container allocated is left.",
  ["inputs", "histories", "configurations"], "all histories of set (with and without key overwriting), pair-value update, remove, clear, destroy; NULL and non-NULL values; either release function absent",
  "Ownership errors are leaks, double releases or uses after release that appear only for particular histories; the tests check counts for simple ones.",
  ["hashtable.c", "rbtree.c", "assocarray.c"], [("release on replace", "hashtable.c hashtable_set; rbtree.c _rbtree_replace_node; assocarray.c _assoc_array_replace"), ("release on removal/clear/destroy", "hashtable.c _hashtable_free_memory; rbtree.c _rbtree_destroy_node; assocarray.c _assoc_array_free_memory")], [], ["calls of the release functions", "heap blocks outstanding"])
p("C10", "The doubly-linked list is the sequence its history describes, in both directions",
  "After any sequence of append, prepend, pop, item removal, removal by value and clear, walking the list forwards yields exactly the elements of the corresponding sequence in order, and walking backwards yields the same elements in reverse. Head, tail, count and emptiness agree with that sequence, items returned by an insertion stay valid until they are removed, and destruction releases every block.",
  ["inputs", "histories"], "all operation histories, all positions of removal",
  "Backward links, the tail and the count after removing first, last, only or middle items can be wrong while forward walks look right.",
  ["list.c", "list.h"], [("link and unlink", "list.c list_append, list_prepend, list_remove, list_pop")], [{"name": "head/tail/count", "meaning": "ends and length", "where": "list.h List"}], ["list_head", "list_tail", "list_count", "item next/prev"])
p("C11", "The singly-linked list is the sequence its history describes",
  "After any sequence of append, prepend, pop, item removal, removal by value and clear, walking the list yields exactly the elements of the corresponding sequence in order. Count, emptiness and the position at which the next append lands agree with that sequence, items returned by an insertion stay valid until they are removed, and destruction releases every block.",
  ["inputs", "histories"], "all operation histories, all positions of removal",
  "A stale tail after removing the last item shows only when something is appended afterwards.",
  ["slist.c", "slist.h"], [("link and unlink, tail maintenance", "slist.c slist_append, slist_prepend, slist_remove, slist_pop")], [{"name": "head/tail/count", "meaning": "ends and length", "where": "slist.h SList"}], ["slist_head", "slist_count", "item next"])
p("C12", "Sorted insertion keeps both kinds of list sorted",
  "Inserting an element in sorted position into a sorted list yields a sorted list with the same elements plus the new one, for any values, duplicates and any insertion position. Both directions of the doubly-linked list, the ends and the count stay consistent, and the returned item holds the inserted element.",
  ["inputs", "histories"], "all sequences of values, duplicates included, up to a length bound",
  "The tests insert in a few orders; insertion into the middle between given neighbours is one position among many.",
  ["list.c", "slist.c"], [("position search and linking", "list.c list_insert_sorted; slist.c slist_insert_sorted")], [], ["list walk in both directions", "slist walk"])
p("C13", "Searching and removing by value act on exactly the matching elements",
  "Contains reports whether some element compares equal to the given value. Find returns an element equal to the value, at or after the given start, whenever one exists there, and nothing otherwise (in the singly-linked list, the first such element). Removal by value removes one matching element (in the singly-linked list, the first) or all of them as asked, and leaves every other element in place and in order.",
  ["inputs", "histories"], "all contents with any number and position of matching elements, all start items, both removal modes",
  "Runs of adjacent matches, matches at either end and lists made only of matches are combinations the tests sample thinly.",
  ["list.c", "slist.c"], [("search", "list.c list_find, list_contains; slist.c slist_find, slist_contains"), ("removal", "list.c list_remove_by_data; slist.c slist_remove_by_data")], [], ["list_find", "slist_find", "list walk"])
p("C14", "Lists release owned elements exactly once and hand popped ones to the caller",
  "With a release function configured, both lists release each element exactly once when its item is removed, the list is cleared or destroyed, or its item's data is explicitly released; elements obtained by popping belong to the caller and are not released. Without a release function no element is ever released; after destruction no memory of the list is left.",
  ["inputs", "histories", "configurations"], "all histories of insertion, removal, pop, clear, destroy",
  "Leaks, double releases and releases of popped elements appear only for particular histories and are invisible to value checks.",
  ["list.c", "slist.c"], [("release on removal", "list.c list_remove, list_clear, list_free, list_item_free_data; slist.c slist_remove, slist_clear, slist_free, slist_item_free_data")], [], ["calls of the release function", "heap blocks outstanding"])
p("C15", "The stack is last-in first-out",
  "After any sequence of push, pop, head and clear, pop returns and removes the most recently pushed element that is still present, and head returns it without removing it. On an empty stack both report failure and leave the stack unchanged; the count is the number of elements present.",
  ["inputs", "histories"], "all operation histories", "Interleavings of pushes, pops and clears through empty states are unbounded; the tests run a few.",
  ["stack.c", "stack.h", "slist.c"], [("push at the head", "stack.h stack_push, slist.c slist_prepend"), ("pop at the head", "stack.c stack_pop, stack_head")], [], ["stack_pop", "stack_head", "stack_count"])
p("C16", "The queue is first-in first-out",
  "After any sequence of push, pop, head and clear, pop returns and removes the element that has been in the queue longest, and head returns it without removing it. On an empty queue both report failure and leave the queue unchanged, also after it ran empty and was filled again; the count is the number of elements present.",
  ["inputs", "histories"], "all operation histories", "Running empty and refilling is where the ends of the queue go stale; the tests do it in few ways.",
  ["queue.h", "stack.c", "slist.c"], [("push at the tail", "queue.h queue_push, slist.c slist_append"), ("pop at the head", "stack.c stack_pop")], [], ["queue_pop", "queue_head", "queue_count"])
p("C17", "The memory pool never hands out overlapping or foreign memory",
  "Every item obtained from a memory pool is a region of at least the configured item size inside memory the pool owns, disjoint from every other item in use. Writing to an item never changes another item or disturbs the pool, and an item keeps its contents until it is given back, for any item size, any block size and any order of taking and returning items.",
  ["inputs", "histories", "configurations"], "all histories of alloc and free, item sizes and block sizes up to bounds",
  "Overlap needs a particular interleaving of returns and block boundaries; the tests use one size and few orders.",
  ["pool.c", "pool.h"], [("bump allocation in blocks", "pool.c _memory_pool_try_get_current_item and allocation of blocks"), ("free pointer blocks", "pool.c _memory_pool_free and recycling")], [{"name": "block/free_block", "meaning": "current memory block and blocks of returned pointers", "where": "pool.h MemoryPool"}], ["addresses returned by Pool.alloc", "item contents"])
p("C18", "The memory pool recycles returned items and releases everything at the end",
  "Items given back to a pool are handed out again before the pool requests more memory, so memory use is bounded by the peak number of items in use, over any history of any length. Destroying the pool releases every block it requested.",
  ["inputs", "histories", "configurations"], "all histories of alloc and free, item sizes and block sizes up to bounds",
  "Growth without bound or a leaked block changes no value a test looks at.",
  ["pool.c"], [("recycling of returned pointers", "pool.c free block chain"), ("release of all blocks", "pool.c memory_pool_destroy")], [], ["allocation requests", "heap blocks outstanding"])
p("C19", "Containers take every node from their pool and give each back exactly once",
  "A list, singly-linked list, stack, queue or red-black tree created with a pool takes every node from that pool and returns each node to it exactly once, when the element is removed, the container is cleared or destroyed, and not before. It never uses a node after returning it and never mixes pool nodes with ordinary heap memory.",
  ["inputs", "histories", "configurations"], "all histories of insertions and removals with a pool",
  "A node returned twice or not at all is silent until the pool hands it out twice; the tests only check that values are right.",
  ["list.c", "slist.c", "stack.c", "rbtree.c", "pool.h"], [("node creation and disposal", "list.c, slist.c, stack.c, rbtree.c: uses of Pool.alloc and Pool.free")], [], ["calls of Pool.alloc and Pool.free"])
p("C20", "The buffer holds the concatenation of what was appended",
  "After any sequence of appends and clears within the size limit, the buffer's length is the sum of the lengths appended since the last clear and its bytes are their concatenation, whatever the lengths are, including zero-length appends and appends that require several doublings of storage. Storage growth arithmetic never yields less storage than needed and never wraps around.",
  ["inputs", "histories"], "all chunk lengths and contents up to a bound; the growth arithmetic for all 64-bit sizes",
  "Growth boundaries depend on the exact lengths; the tests append a few fixed strings.",
  ["buffer.c", "buffer.h"], [("append and grow", "buffer.c buffer_fill, _buffer_new_realloc_size")], [{"name": "len/msize", "meaning": "stored bytes and allocated bytes", "where": "buffer.h Buffer"}], ["buffer_len", "buffer_flush", "buffer_to_string"])
p("C21", "A buffer over its limit becomes invalid and stays so until cleared",
  "An append that would make the stored bytes exceed the configured maximum is refused and marks the buffer invalid; an append that reaches the maximum exactly is accepted. An invalid buffer accepts no further data until it is cleared, after which it is empty, valid and fully usable, and the stored length never exceeds the maximum.",
  ["inputs", "histories", "configurations"], "all limits and chunk lengths (64 bit for the comparison), all histories of append, read and clear",
  "Off-by-one and overflow at the limit need exact lengths; the tests use one limit.",
  ["buffer.c"], [("limit check", "buffer.c buffer_fill, buffer_fill_from_fd"), ("reset", "buffer.c buffer_clear")], [{"name": "valid/max_size", "meaning": "limit and validity", "where": "buffer.h"}], ["buffer_fill result", "buffer_is_valid", "buffer_len"])
p("C22", "Reading from a buffer returns exactly the right bytes",
  "Reading a line returns the bytes before the first newline, terminated, and removes exactly those bytes and that newline; without a newline nothing changes and failure is reported. Flush and to-string return a terminated copy of all bytes without changing the buffer; the caller's destination is enlarged whenever it is too small, left in place when it is large enough, and its reported size never exceeds what is allocated.",
  ["inputs", "histories"], "all buffer contents up to a bound, all initial destination sizes, all sequences of reads and appends",
  "Line ends at the first and last byte, empty lines and destinations one byte too small are exact boundary cases.",
  ["buffer.c"], [("line extraction", "buffer.c buffer_read_line"), ("copy out", "buffer.c buffer_flush, buffer_to_string")], [], ["buffer_read_line", "buffer_flush", "buffer_to_string"])
p("C23", "Filling a buffer from a descriptor appends exactly what was read",
  "Filling from a file descriptor appends exactly the bytes the system delivered, for every short read, end of file and error, and returns the number of bytes appended. On end of file it returns zero, on an error of the system or when the limit would be exceeded it returns -1, and in these cases nothing is appended; exceeding the limit also marks the buffer invalid.",
  ["inputs", "fault_sequences"], "all results a read may give (short, zero, error), all contents, counts and limits up to a bound",
  "Short reads and errors come from the environment; the tests read from a regular file.",
  ["buffer.c"], [("read and append", "buffer.c buffer_fill_from_fd")], [], ["return value", "buffer_len", "buffer_is_valid"])
p("C24", "The asynchronous queue touches shared state only under its lock",
  "Every operation of the asynchronous queue reads and writes the shared queue, and uses the pool it was given, only while holding the queue's lock, never locks it twice or unlocks it unheld, and holds no lock when it returns. This is so on every path: empty and non-empty, timed out, woken spuriously, or after an error of a wait.",
  ["schedules", "inputs", "fault_sequences"], "all operations from any queue state, all outcomes of waiting",
  "A race or a forgotten unlock on one path is visible only in particular interleavings.",
  ["asyncqueue.c", "asyncqueue.h"], [("lock discipline", "asyncqueue.c: mutex around every access")], [{"name": "queue/waiting", "meaning": "shared state", "where": "asyncqueue.h AsyncQueue"}], ["mutex operations", "accesses to the queue object"])
p("C25", "No consumer sleeps while an element is available",
  "In every interleaving of producers and consumers, including spurious wakeups, timeouts that coincide with a push and consumers that take an element another one was woken for, a consumer blocked on the queue returns once there is an element for it. A push never leaves a consumer asleep while an element it could take stays in the queue, and an untimed pop never returns without an element.",
  ["schedules", "fault_sequences"], "all interleavings of a bounded number of threads and operations, with arbitrary spurious wakeups and timeouts",
  "A lost wakeup needs one precise interleaving; the tests run threads freely with generous timing.",
  ["asyncqueue.c"], [("wait and signal", "asyncqueue.c _async_queue_pop, _async_queue_cond_wait, async_queue_push")], [{"name": "waiting", "meaning": "number of sleeping consumers", "where": "asyncqueue.h"}], ["async_queue_pop result", "deadlock"])
p("C26", "The asynchronous queue delivers each element exactly once, in order",
  "In every interleaving each element pushed is delivered to at most one consumer, none is invented, elements are taken in the order they were pushed, and what is neither taken nor cleared remains counted in the queue. A pop that fails leaves the queue unchanged.",
  ["schedules", "histories"], "all interleavings of a bounded number of producers and consumers",
  "Double delivery or loss needs two consumers in the same window.",
  ["asyncqueue.c", "slist.c", "stack.c"], [("push/pop under the lock", "asyncqueue.c async_queue_push, _async_queue_pop")], [], ["values delivered", "async_queue_count"])
p("C27", "A timed pop waits exactly as long as it was told to",
  "A timed pop on an empty queue asks to be woken at the current time plus the given number of milliseconds, to the precision of the clock, for every current time and every positive timeout; it reports failure only once that time has come and returns early only with an element.",
  ["inputs", "schedules"], "all current times (seconds and microseconds) and all 32-bit positive timeouts, all wakeup outcomes",
  "Carry between fractions and seconds and truncation depend on the exact time; the tests accept any delay.",
  ["asyncqueue.c"], [("deadline computation", "asyncqueue.c _async_queue_cond_wait")], [], ["deadline passed to the timed wait", "async_queue_pop_timeout result"])
p("C28", "Strings that are equal have equal hashes, and only equal strings are equal",
  "The string equality function holds exactly for strings with the same bytes up to the terminator, and the string hash gives the same result for equal strings wherever they are stored, reading nothing beyond the terminator. The string comparison is consistent with it.",
  ["inputs"], "all pairs of strings up to a length bound, all byte values",
  "A hash that depends on the address, on bytes beyond the end or on signedness agrees on most inputs.",
  ["hash.c", "compare.c", "compare.h"], [("hash", "hash.c str_hash"), ("equality", "compare.c str_equal")], [], ["str_hash", "str_equal"])
p("C29", "Direct comparison is a total order consistent with direct equality and hashing",
  "The direct comparison of two pointer-sized values is zero exactly when they are equal, antisymmetric and transitive for all values, direct equality agrees with it, and equal values have equal direct hashes.",
  ["inputs"], "all pairs and triples of 64-bit values",
  "A comparison by subtraction or truncation is right for the small values tests use.",
  ["compare.c", "hash.c"], [("comparison", "compare.c direct_compare, direct_equal"), ("hash", "hash.c direct_hash")], [], ["direct_compare", "direct_equal", "direct_hash"])
p("C30", "A failed allocation always ends the process and is never used",
  "Whenever a memory request made by any operation of the library fails, the process is ended at once; no operation continues with the missing memory, reports success, or corrupts a structure.",
  ["fault_sequences", "histories"], "every allocation request of every operation failing, in all bounded histories",
  "The tests never make an allocation fail.",
  ["pool.c", "buffer.c", "list.c", "slist.c", "rbtree.c", "hashtable.c", "assocarray.c", "asyncqueue.c"], [("checks after malloc/calloc/realloc", "every allocating function")], [], ["process exit", "memory accesses"])
p("C31", "Containers live in the caller's memory and can be set up there again",
  "A container initialised in memory the caller provides is empty and works like one created on the heap, whatever bytes that memory held before. Freeing it releases everything it requested and never the caller's memory, touches nothing around it, and afterwards it can be initialised in the same memory again.",
  ["histories", "configurations"], "all containers, all previous contents of the memory, all bounded histories between initialising and freeing",
  "A field that is not initialised holds zero by luck in a test; a leak or a write next to the container is not noticed there.",
  ["hashtable.c", "rbtree.c", "assocarray.c", "list.c", "slist.c", "stack.c", "queue.h", "asyncqueue.c", "buffer.c"], [("set up in place", "*_init of every container"), ("release", "*_free of every container")], [], ["counts and lookups after init", "memory around the container", "allocations alive after free"])
p("C32", "Containers do not influence each other",
  "What is done with one container is never visible in another one: two containers of the same or of different kinds, with operations interleaved in any way, each behave as if they were alone, also when one is used from within a function that the other one calls (comparison, equality, hash or release). This includes containers that share one memory pool, also when one of them is cleared or destroyed while the other is in use.",
  ["histories", "configurations"], "all bounded interleavings of operations on two containers, separate or sharing a pool",
  "Tests use one container at a time, so state shared by accident is never seen.",
  ["hashtable.c", "rbtree.c", "assocarray.c", "list.c", "slist.c", "stack.c", "pool.c"], [("no state outside the instance", "all containers"), ("items handed out once", "pool.c memory_pool_alloc, memory_pool_free")], [], ["results of operations on both containers"])
p("C33", "The caller's functions only ever see live elements",
  "Comparison, equality and hash functions supplied by the caller are called only with the argument of the operation in progress and with elements stored at that moment: never with an element already handed to its release function, removed, popped or overwritten, and never with a missing key. This holds also while several elements are released in one operation, and when what the caller asks to look up or remove is itself an element of the container.",
  ["inputs", "histories"], "all bounded histories, all comparison results and hash values",
  "Comparing with a stale element goes unnoticed as long as its memory is still readable, which it is in the tests.",
  ["hashtable.c", "rbtree.c", "assocarray.c", "list.c", "slist.c"], [("order of removal and release", "*_remove, *_clear, *_set")], [], ["arguments of compare, equals and hash functions"])
p("C34", "Lookups in an associative array need logarithmically many comparisons",
  "A lookup in an associative array, or the question whether a key exists, calls the comparison function at most twice for each binary digit of the number of entries, for every number of entries, every key, present or not, and every history that led to the entries.",
  ["inputs", "histories"], "all positions of the key looked up, all sizes up to a bound, bounded histories",
  "A search that degenerates to a scan still returns the right answer.",
  ["assocarray.c"], [("binary search", "assocarray.c assoc_array_lookup and helpers")], [{"name": "pairs/size", "meaning": "sorted entries", "where": "assocarray.h AssocArray"}], ["number of compare calls"])
p("C35", "Automatic growth keeps lookups in a hash table short",
  "In a hash table created with automatic growth, entries whose hash values are evenly spread stay evenly spread over the buckets however many are inserted: a lookup, or the question whether a key exists, then needs only a small constant number of equality tests. Each growth makes the table larger, at every size, and growth goes on working after removals, clearing and refilling.",
  ["inputs", "histories"], "any first hash value of a run of consecutive ones, any key looked up, histories of filling, clearing and refilling up to a size bound",
  "A table that has stopped growing still gives right answers, only slowly.",
  ["hashtable.c"], [("growth", "hashtable.c _hashtable_resize and its trigger in hashtable_set")], [{"name": "size/count", "meaning": "buckets and entries", "where": "hashtable.h HashTable"}], ["number of equality calls per lookup"])
p("C36", "Stacks and queues release what they hold exactly once",
  "When a stack, queue or asynchronous queue is cleared, freed or destroyed, its release function is called exactly once for each element still held and for no other. An element that was popped belongs to the caller and is never released; without a release function nothing is released.",
  ["inputs", "histories"], "all bounded histories of push, pop, clear and destroy, with and without a release function",
  "The tests release nothing or do not count how often each element is released.",
  ["stack.c", "queue.h", "asyncqueue.c", "slist.c"], [("release", "stack_clear, stack_free, async_queue_clear, async_queue_free")], [], ["calls of the release function"])
p("C37", "How data is cut into chunks does not change the lines read",
  "The lines read from a buffer are those of the byte stream put into it, however that stream was cut into appends and fills from a descriptor and whenever lines are read in between: each line is delivered once, complete and in order, and a last line without a newline stays in the buffer until its newline arrives.",
  ["inputs", "histories"], "all byte streams up to a length, all ways to cut them into appends and fills, all moments of reading",
  "Tests append whole lines; a newline at the edge of a chunk or a line spread over several fills is a special case.",
  ["buffer.c"], [("append", "buffer.c buffer_fill, buffer_fill_from_fd"), ("line extraction", "buffer.c buffer_read_line")], [{"name": "len/data", "meaning": "bytes not yet read", "where": "buffer.h Buffer"}], ["lines from buffer_read_line", "buffer_to_string"])
p("C38", "Memory use is bounded by the number of elements held at once",
  "A container that is filled and emptied again and again, by removing, popping or clearing in any order, needs no more memory than its largest number of elements at one time required: memory use does not grow from round to round.",
  ["histories"], "all bounded sequences of rounds of filling and emptying, with the way of emptying and the order arbitrary",
  "Memory that is kept but never used again is still released at the end, so leak checkers and tests see nothing.",
  ["hashtable.c", "rbtree.c", "assocarray.c", "list.c", "slist.c", "stack.c", "pool.c", "buffer.c"], [("items given back", "hashtable_remove, rbtree_remove, list_remove and the clear functions"), ("recycling", "pool.c memory_pool_free, memory_pool_alloc")], [], ["bytes allocated after each round"])
p("C39", "Elements, keys and values are opaque to the containers",
  "Containers keep exactly the pointer-sized value they are given and return exactly that value: every bit pattern is accepted (keys of maps must not be NULL), none is dereferenced, changed, or treated as special.",
  ["inputs", "histories"], "all 64-bit values of elements, keys and values, bounded histories",
  "A container that uses spare bits or treats one value as a mark works with the addresses and small numbers tests use.",
  ["hashtable.c", "rbtree.c", "assocarray.c", "list.c", "slist.c", "stack.c", "queue.h", "asyncqueue.c"], [("storing and returning", "all containers")], [], ["values returned by every container"])
p("C40", "Queries change nothing and iterations do not disturb each other",
  "Looking something up, asking whether it is there, counting, reading the first element and iterating leave a container as it was. Any number of iterations over one unmodified container can go on at the same time, with any queries in between and some of them abandoned; each still yields every element exactly once. A key-value pair that was found stays the one found until the next lookup or change.",
  ["inputs", "histories"], "all bounded contents, all moments to leave an iteration, all bounded sequences of queries in between",
  "Tests ask one thing at a time; a query that reorders or caches shows only while something else is in progress.",
  ["hashtable.c", "rbtree.c", "assocarray.c", "list.c", "slist.c", "stack.c", "buffer.c"], [("lookup", "hashtable_lookup, rbtree_lookup, assoc_array_lookup, the key_exists functions"), ("iterators", "hashtable_iter_*, rbtree_iter_*, assoc_array_iter_*, list items"), ("search", "list_find, slist_find, list_contains, slist_contains")], [{"name": "pair", "meaning": "last found key-value pair", "where": "HashTable, AssocArray, RBTree"}], ["elements yielded by each iteration", "key and value of a found pair"])
p("C41", "The effort per element does not grow with the number of elements",
  "Filling a container with n elements and emptying it again takes an effort proportional to n (n log n in red-black trees and, for keys added in ascending and removed in descending order, in associative arrays): appending and prepending to lists, popping, removing a given item of a doubly-linked list, pushing and popping, storing in and removing from a hash table that grows automatically, taking items from a pool and giving them back, appending to a buffer, clearing and destroying.",
  ["inputs", "histories"], "all containers, with and without a pool, all ways of emptying, several sizes up to a bound",
  "A step that walks over everything or copies everything gives right answers; with the few elements of a test it is not even slow.",
  ["hashtable.c", "rbtree.c", "assocarray.c", "list.c", "slist.c", "stack.c", "queue.h", "pool.c", "buffer.c"], [("ends of lists", "list_append, list_prepend, slist_append, slist_prepend, list_remove"), ("growth", "_hashtable_resize, _assoc_array_resize_if_necessary, _buffer_new_realloc_size"), ("recycling", "pool.c")], [], ["instructions executed and words copied"])
p("C42", "The stack stays shallow however many elements there are",
  "No operation of any container uses an amount of stack that grows with the number of its elements, beyond the height of a balanced tree, or with the number of bytes asked for: containers of any size can be filled, searched, iterated, cleared and destroyed, and any number of bytes read, without exhausting the stack.",
  ["inputs", "histories"], "all containers, with and without a pool, all entries of a hash table in one bucket or spread, all operations that walk over elements, all ways of emptying, sizes up to a bound",
  "A recursion per element or an array on the stack works for the few elements and bytes of a test and overflows the stack with many.",
  ["hashtable.c", "rbtree.c", "assocarray.c", "list.c", "slist.c", "stack.c", "queue.h", "pool.c", "buffer.c"], [("reading", "buffer.c buffer_fill_from_fd"), ("release", "list_free, slist_free, _rbtree free of nodes, hashtable_free, hashtable_clear"), ("walking", "list_find, slist_find, remove_by_data, insert_sorted, bucket chains")], [], ["depth of the stack in each operation"])
p("C43", "Macros that read pairs, iterators and items agree with the functions",
  "Wherever an accessor exists as a macro - the key and value of a pair or of an iterator, the data and the neighbours of a list item - the macro yields exactly what the function yields or what the container holds, at every point of every history. An element replaced through list_item_set_data or slist_item_set_data is from then on the element of the list - found, walked to, removed and released as such - and the replacement itself releases nothing.",
  ["inputs", "histories"], "elements, keys and values of any 64 bits, bounded histories of all lists and maps",
  "Macros reach into structures from the caller's code, so a change of the representation that adapts the functions leaves them behind; the tests use few of them and in few states.",
  ["hashtable.h", "rbtree.h", "assocarray.h", "list.h", "slist.h", "hashtable.c", "rbtree.c", "assocarray.c"], [("macros", "*_pair_key, *_pair_value, *_iter_key, *_iter_value, list_item_*, slist_item_*")], [], ["results of macros and functions"])
p("C44", "Builds with assertions behave as builds without",
  "Compiled without NDEBUG, the library behaves exactly as its release build for every permitted use: none of its assertions fails in any history of permitted operations on any container, whatever its size, its elements and the results of the caller's functions, and nothing that an operation has to do depends on an assertion being compiled in or out.",
  ["inputs", "histories"], "all containers, buffers, pools, hash and comparison functions; bounded histories, known large sizes, queues also between threads",
  "The tests link the release build, in which an assertion that is wrong, or that has an effect, cannot be noticed; who develops against the library compiles its assertions in.",
  ["hashtable.c", "rbtree.c", "assocarray.c", "list.c", "slist.c", "stack.c", "asyncqueue.c", "buffer.c", "pool.c", "compare.c", "hash.c"], [("assertions", "every assert() of every source file")], [], ["assertions that fail", "results of all operations"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
