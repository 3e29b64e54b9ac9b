#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the human-readable source of the property list)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

SYNC=("reader/writer lock chosen by the goroutine-safe option","utils/sync/locker.go")
TWHY="Every existing test is single-threaded: no test ever starts a second goroutine, so no schedule is sampled at all."

prop("C01","Goroutine-safe map behaves atomically under concurrency",
 "When a map is created goroutine-safe, concurrent calls to Insert, Get, Erase, Contains, Size, Clear, Find, LowerBound, UpperBound and Traversal from any number of goroutines return results consistent with some order of those calls, each applied indivisibly to a sorted map with unique keys between its invocation and its return. No such mix of calls contains a data race, deadlocks, or fails to finish, and once calls have stopped the map's size, forward and backward iteration and bound searches agree with that order.",
 ["schedules","histories","inputs"],"every interleaving (down to single memory accesses) of every history of calls by several goroutines, over every map size and key order reached by inserts and deletes",
 TWHY+" The sequential tests use a handful of keys and never reach most rebalancing shapes.",
 ["ds/map/map.go","ds/map/iterator.go","ds/rbtree/rbtree.go","ds/rbtree/node.go","utils/sync/locker.go"],
 [SYNC,("lock taken on entry, released by defer","ds/map/map.go"),("find-then-update under one write lock","ds/map/map.go Insert, Erase")],
 [("tree","ordered key/value nodes","ds/map/map.go"),("locker","guards every access to the tree","ds/map/map.go")],
 ["results of each call","full traversal at quiescence"])
prop("C02","Goroutine-safe multimap behaves atomically under concurrency",
 "When a multimap is created goroutine-safe, concurrent calls to Insert, Get, Erase, Contains, Size, Clear, Find, LowerBound, UpperBound and Traversal return results consistent with some order of those calls, each applied indivisibly to a sorted multimap in which entries with equal keys are kept in insertion order, Get returns the first of them and Erase removes all of them. No such mix of calls contains a data race, deadlocks, or fails to finish, and once calls have stopped size, iteration in both directions and bound searches agree with that order.",
 ["schedules","histories","inputs"],"every interleaving of every history of calls by several goroutines, including many duplicates of one key",
 TWHY,
 ["ds/map/multimap.go","ds/map/iterator.go","ds/rbtree/rbtree.go","ds/rbtree/node.go"],
 [SYNC,("erase loop runs inside one write lock","ds/map/multimap.go Erase"),("equal keys are inserted to the right, found leftmost","ds/rbtree/rbtree.go")],
 [("tree","ordered nodes, duplicates allowed","ds/map/multimap.go")],["results of each call","full traversal at quiescence"])
prop("C03","Goroutine-safe set behaves atomically under concurrency",
 "When a set is created goroutine-safe, concurrent calls to Insert, Erase, Contains, Size, Clear, Find, LowerBound, UpperBound, First, Last, Traversal and String return results consistent with some order of those calls, each applied indivisibly to a sorted set without duplicates. No such mix of calls contains a data race, deadlocks, or fails to finish, and once calls have stopped size, iteration in both directions and bound searches agree with that order.",
 ["schedules","histories","inputs"],"every interleaving of every history of calls by several goroutines",
 TWHY,
 ["ds/set/set.go","ds/set/iterator.go","ds/rbtree/rbtree.go"],
 [SYNC,("check-then-insert under one write lock","ds/set/set.go Insert")],
 [("tree","ordered elements","ds/set/set.go")],["results of each call","full traversal at quiescence"])
prop("C04","Goroutine-safe multiset behaves atomically under concurrency",
 "When a multiset is created goroutine-safe, concurrent calls to Insert, Erase (removes one occurrence), EraseAll, Count, Contains, Size, Clear, Find, LowerBound, UpperBound, Traversal and String return results consistent with some order of those calls, each applied indivisibly to a sorted multiset. No such mix of calls contains a data race, deadlocks, or fails to finish, and once calls have stopped size, count, iteration and bound searches agree with that order.",
 ["schedules","histories","inputs"],"every interleaving of every history of calls by several goroutines, with multiplicities above one",
 TWHY,
 ["ds/set/multiset.go","ds/set/iterator.go","ds/rbtree/rbtree.go"],
 [SYNC,("erase loop inside one write lock","ds/set/multiset.go EraseAll")],
 [("tree","ordered elements, duplicates allowed","ds/set/multiset.go")],["results of each call","full traversal at quiescence"])
prop("C05","Set algebra is an atomic snapshot of both operands",
 "Union, Intersect and Diff of two goroutine-safe sets return exactly the union, intersection or difference of the contents both sets had at one single instant during the call, while either set is being modified by other goroutines; the operands are not changed and the result is an independent set. Calls in either operand order, and on a set with itself, never race and never deadlock with each other or with writers.",
 ["schedules","histories","inputs"],"every interleaving of set-algebra calls in both operand orders with inserts, erases and clears on both operands",
 "The tests call each operation once on two fixed unshared sets from one goroutine.",
 ["ds/set/set.go"],
 [("read locks held on the operands during the merge","ds/set/set.go Intersect, Union, Diff"),("ordered merge of two sorted sequences","ds/set/set.go")],
 [("tree","elements of each operand","ds/set/set.go")],["contents of the returned set"])
prop("C06","Skiplist is atomic and independent of its random levels",
 "When a skiplist is created goroutine-safe, concurrent Insert, Get, Remove, Len, Keys and Traversal calls return results consistent with some order of those calls, each applied indivisibly to a sorted map with unique keys, without data races or deadlock. This holds for every maximum level, every outcome of the internal random level choices and every clock reading at creation.",
 ["schedules","histories","inputs","configurations"],"every interleaving of calls, every maximum level, every stream of random levels (including the extreme ones) and every creation time",
 TWHY+" Tests also use whatever levels the wall clock happened to seed, so they neither control nor repeat the tower shapes.",
 ["ds/skiplist/skiplist.go"],
 [SYNC,("predecessors of every level recomputed under the write lock","ds/skiplist/skiplist.go findPrevNodes"),("bounded random level","ds/skiplist/skiplist.go randomLevel")],
 [("head/next","linked levels","ds/skiplist/skiplist.go"),("len","entry count","ds/skiplist/skiplist.go"),("prevNodesCache","scratch shared by writers","ds/skiplist/skiplist.go")],["results of each call","Keys and Traversal at quiescence"])
prop("C07","Hash trie is atomic whatever the hash values",
 "When a hash array mapped trie is created goroutine-safe, concurrent Insert, Get, Erase, Keys, StringKeys and Traversal calls return results consistent with some order of those calls, each applied indivisibly to a map from byte-string keys to values, without data races or deadlock. This holds for every distribution of hash values, including keys whose hashes agree in a long prefix or completely.",
 ["schedules","histories","inputs","configurations"],"every interleaving of calls and every assignment of hash values to keys, from uniform to fully colliding",
 TWHY+" With a 64-bit hash no test ever reaches a deep path or a full collision.",
 ["ds/hamt/hamt.go"],
 [SYNC,("collision list per hash value","ds/hamt/hamt.go insert, find, erase"),("splitting and collapsing of trie nodes","ds/hamt/hamt.go insert, erase")],
 [("root","trie","ds/hamt/hamt.go")],["results of each call","Keys and Traversal at quiescence"],"hash function replaced at build time by a simulator-controlled degradation of the real one")
prop("C08","Goroutine-safe priority queue behaves atomically",
 "When a priority queue is created goroutine-safe, concurrent Push, Pop, Top, Size, Empty and Clear calls return results consistent with some order of those calls, each applied indivisibly to a multiset from which Pop removes, and Top reads, an element that no other element precedes under the comparator; popping or reading an empty queue panics and changes nothing. Every pushed element is popped at most once and none is lost, and no mix of calls races or deadlocks.",
 ["schedules","histories","inputs"],"every interleaving of every history of calls by several goroutines, with ties, including pops that race to the last element",
 TWHY,
 ["ds/priorityqueue/priority_queue.go","ds/heap/heap.go"],
 [SYNC,("sift up and down under the write lock","ds/heap/heap.go")],
 [("elements","binary heap","ds/priorityqueue/priority_queue.go")],["results of each call","drain order at quiescence"])
prop("C09","Goroutine-safe queue is an atomic FIFO on any container",
 "When a queue is created goroutine-safe, concurrent Push, Pop, Front, Back, Size, Empty, Clear and String calls return results consistent with some order of those calls, each applied indivisibly to a first-in-first-out sequence; taking from or looking into an empty queue panics and changes nothing. This holds for the default container, the list container and a container supplied by the caller, at every length, and no mix of calls races or deadlocks.",
 ["schedules","histories","inputs","configurations"],"every interleaving of every history of calls by several goroutines, for each container, at lengths that cross internal block boundaries in both directions",
 TWHY+" The sequential tests push a few hundred items once.",
 ["ds/queue/queue.go","ds/deque/deque.go","ds/deque/segment.go","ds/deque/pool.go","ds/list/bidlist/list.go","ds/container/container.go"],
 [SYNC,("ring of fixed-size segments with a pool","ds/deque/deque.go"),("circular doubly linked list","ds/list/bidlist/list.go")],
 [("container","the queued elements","ds/queue/queue.go")],["results of each call","String and drain order at quiescence"])
prop("C10","Goroutine-safe stack is an atomic LIFO on any container",
 "When a stack is created goroutine-safe, concurrent Push, Pop, Top, Size, Empty, Clear and String calls return results consistent with some order of those calls, each applied indivisibly to a last-in-first-out sequence; popping or reading an empty stack panics and changes nothing. This holds for the default container, the list container and a container supplied by the caller, at every depth, and no mix of calls races or deadlocks.",
 ["schedules","histories","inputs","configurations"],"every interleaving of every history of calls by several goroutines, for each container, at depths that cross internal block boundaries in both directions",
 TWHY,
 ["ds/stack/stack.go","ds/deque/deque.go","ds/deque/segment.go","ds/list/bidlist/list.go"],
 [SYNC,("ring of fixed-size segments","ds/deque/deque.go"),("circular doubly linked list","ds/list/bidlist/list.go")],
 [("container","the stacked elements","ds/stack/stack.go")],["results of each call","String and drain order at quiescence"])
prop("C11","Consistent-hash ring is correct under concurrent membership change",
 "While nodes are added to and removed from a goroutine-safe ring concurrently with lookups, every lookup returns the node that a ring holding exactly the current members would return for that key, whatever order and history of additions and removals led to that membership, in this process or any other (clients that agree on the members agree on every key, a restarted one included), and reports absence only when there is no member. Adding a node moves keys only onto that node, removing one moves only the keys it held, and no lookup panics, races or deadlocks, even when it coincides with the removal of the last node.",
 ["schedules","histories","inputs","fault_sequences"],"every interleaving of Add (several nodes at once included), Remove, Get and Empty, every membership history and every key, every replica count, restarts of the process that holds the ring",
 "The only test logs lookups from one goroutine and asserts nothing.",
 ["ds/ketama/ketama.go","algorithm/hash/hash.go","ds/map/map.go","ds/rbtree/rbtree.go"],
 [SYNC,("ordered map from ring position to node","ds/ketama/ketama.go"),("lower-bound search with wrap-around","ds/ketama/ketama.go Get"),("owner checked before a position is removed","ds/ketama/ketama.go Remove")],
 [("m","ring positions","ds/ketama/ketama.go")],["node returned by each lookup"])
prop("C12","Concurrent bloom filter never forgets an added value",
 "In a goroutine-safe bloom filter, once an Add has returned, every later Contains for that value from any goroutine returns true, whatever other Adds, queries and exports run concurrently, and a filter answers every query exactly as one to which the same values were added one after another. An empty filter contains nothing, and no mix of calls races or deadlocks.",
 ["schedules","histories","inputs","configurations"],"every interleaving of Add, Contains and Data calls by several goroutines, for every filter size and number of hash functions",
 "The only test adds one value from one goroutine.",
 ["ds/bloomfilter/bloom.go","ds/bitmap/bitmap.go","algorithm/hash/hash.go"],
 [SYNC,("bit set and test by read-modify-write of bytes under the lock","ds/bitmap/bitmap.go")],
 [("b","bit array","ds/bloomfilter/bloom.go")],["answers of Contains"])
prop("C13","Exported filters and bitmaps survive crash and restore exactly",
 "The bytes exported from a bloom filter while other goroutines add to it are a snapshot at one instant of the call: after a crash, a filter rebuilt from them in the new process answers every query as the original did at that instant, so it contains every value whose Add returned before the export began. A rebuilt filter, the original, other rebuilds and the exported bytes are independent: adding to one or overwriting the byte buffer changes none of the others; a bitmap rebuilt from a copy of its exported bytes, in the same process or a later one, has the same size and bits.",
 ["crash_points","schedules","fault_sequences","histories"],"every crash point during adds and exports, every interleaving, every number of export/restore generations, buffers reused after export or restore",
 "The only test exports and rebuilds once, from one goroutine, with one value and no crash.",
 ["ds/bloomfilter/bloom.go","ds/bitmap/bitmap.go"],
 [("export under the lock into a fresh buffer","ds/bloomfilter/bloom.go Data"),("rebuild from header and bit data","ds/bloomfilter/bloom.go NewFromData"),("bitmap from exported bytes","ds/bitmap/bitmap.go NewFromData")],
 [("m,k,b","filter parameters and bits","ds/bloomfilter/bloom.go")],["answers of the rebuilt filter or bitmap"])
prop("C14","A panicking call never wedges or corrupts a shared structure",
 "If a call on a goroutine-safe structure panics or its goroutine exits part-way, because the caller's comparator, visitor or container failed or because the structure was empty, the lock is released, every other goroutine's current and later calls complete, and size and contents are as if the call had either not happened or happened completely. For multi-element calls a subset of the elements may have been processed, and after a comparator failure inside a priority queue operation only its ordering, never the conservation of its elements, may be affected until it is next emptied.",
 ["fault_sequences","schedules","histories"],"every call, every comparison, visit or container call within it at which the caller's code fails, and every interleaving with other goroutines",
 "No test makes a comparator, visitor or container fail, or pops an empty structure while others use it.",
 ["ds/map/map.go","ds/map/multimap.go","ds/set/set.go","ds/set/multiset.go","ds/skiplist/skiplist.go","ds/hamt/hamt.go","ds/priorityqueue/priority_queue.go","ds/queue/queue.go","ds/stack/stack.go","ds/rbtree/rbtree.go","ds/heap/heap.go"],
 [("deferred unlock","every locked method"),("caller code is consulted before the structure is modified","ds/rbtree/rbtree.go Insert; ds/skiplist/skiplist.go Insert, Remove")],
 [("size","element count kept beside the structure","ds/rbtree/rbtree.go"),("locker","must be free after a panic","all goroutine-safe types")],["later calls complete","size and contents after the failure"])
prop("C15","Traversal is an atomic snapshot that stops when told",
 "A traversal visits the entries the structure had at one instant of the call, each exactly once and in the structure's documented order, and the moment the visitor returns false no further entry is visited, while other goroutines keep modifying the structure. This holds for map, multimap, set, multiset, skiplist, hash trie, both lists and the red-black tree, and a visitor may freely use other instances, for example to copy the entries into one created with the same options.",
 ["schedules","fault_sequences","histories","inputs"],"every interleaving with writers, every entry at which the visitor stops, every structure size and shape",
 "Tests traverse a few entries to the end, in one goroutine; early stop is tested only on a five-element list.",
 ["ds/map/map.go","ds/map/multimap.go","ds/set/set.go","ds/set/multiset.go","ds/skiplist/skiplist.go","ds/hamt/hamt.go","ds/rbtree/rbtree.go","ds/list/bidlist/list.go","ds/list/simplelist/simplelist.go"],
 [("read lock held for the whole traversal","each Traversal method"),("loop ends on a false return","each Traversal method; ds/hamt/hamt.go traversal is recursive")],
 [],["sequence of entries passed to the visitor"])
prop("C16","Separate instances never affect each other",
 "Instances of any structure in the library, goroutine-safe or not, that share no references can be used by different goroutines at the same time without synchronisation: there is no data race between them and each returns exactly what it would return if it were the only one. This covers construction, options reused for several instances, growth, shrinking, clearing and destruction of array, vector, slice wrapper, deque, queue, stack, both lists, bitmap, bloom filter, heap, priority queue, red-black tree, map, set, skiplist, hash trie and ring.",
 ["schedules","histories","configurations"],"every interleaving of operation histories on separate instances, over all structure types and sizes that cross internal growth and shrink thresholds",
 TWHY+" Hidden shared state (pools, caches, package variables, reused option values) is invisible to tests that use one instance at a time.",
 ["ds/deque/pool.go","ds/deque/deque.go","ds/vector/vector.go","ds/array/array.go","ds/slice/slice_wrapper.go","ds/list/bidlist/list.go","ds/list/simplelist/simplelist.go","ds/bitmap/bitmap.go","ds/heap/heap.go","ds/rbtree/rbtree.go","ds/skiplist/skiplist.go","ds/hamt/hamt.go"],
 [("all mutable state, pools included, is held by the instance","constructors of every package"),("options build a fresh lock or container per use","WithGoroutineSafe in every package")],
 [("pool","per-deque segment pool","ds/deque/pool.go")],["results of every call on every instance"])
prop("C17","Concurrent readers need no lock",
 "While nobody modifies it, any instance of any structure, including one created without goroutine safety, can be read by any number of goroutines at once through its lookups, bounds, iterators, traversals and string form and through the non-modifying and searching algorithms: reads never write shared memory and every reader gets the same correct answer.",
 ["schedules","histories","inputs"],"every interleaving of read-only calls by several goroutines on one shared instance of each structure",
 TWHY,
 ["ds/array/array.go","ds/vector/vector.go","ds/slice/slice_wrapper.go","ds/deque/deque.go","ds/list/bidlist/list.go","ds/list/simplelist/simplelist.go","ds/map/map.go","ds/set/set.go","ds/rbtree/rbtree.go","ds/skiplist/skiplist.go","ds/hamt/hamt.go","ds/ketama/ketama.go","algorithm/const_op.go","algorithm/sort/search.go"],
 [("read methods do not write the structure","every reader"),("each iterator carries its own position","iterator.go of each package"),("algorithms clone the iterators they are given","algorithm/const_op.go, algorithm/sort/search.go")],
 [],["results of each reader","memory accesses made by readers"])
prop("C18","Sequence algorithms conserve elements when interrupted",
 "Sort, Stable, NthElement, NextPermutation and Reverse rearrange only the elements inside the range they are given, so goroutines may run them on disjoint ranges of one container at the same time, and if the comparator panics at any comparison the range still holds exactly the elements it held before. A call that is not interrupted, including a retry after an interruption, finishes with the documented arrangement.",
 ["fault_sequences","schedules","inputs"],"every comparison at which the comparator may fail, every range (empty and tiny ones included) of every random-access container, every interleaving of calls on disjoint ranges",
 "Tests run each algorithm to completion on one whole container in one goroutine, with a comparator that never fails.",
 ["algorithm/sort/sort.go","algorithm/sort/stable_sort.go","algorithm/sort/nth_element.go","algorithm/sort/next_permutation.go","algorithm/op.go"],
 [("elements are moved by swaps with no comparison in between","algorithm/sort/sort.go swapValue"),("merge writes back from private scratch after the last comparison","algorithm/sort/stable_sort.go merge")],
 [],["contents of the container after the call"])
prop("C19","Ordered structures stay balanced after any history",
 "After every history of concurrent, interrupted or sequential calls, the red-black tree under map, multimap, set and multiset is still a valid red-black tree, so a lookup, insertion or removal among n entries needs at most proportional to log n comparisons, and priority queue pushes and pops need at most proportional to log n comparisons. A skiplist with ordinary random levels likewise needs on average a logarithmic number of comparisons per lookup, insertion and removal.",
 ["histories","schedules","fault_sequences"],"every history of inserts and deletes (ascending, descending, alternating, duplicates, interrupted by comparator panics, concurrent), at sizes up to a few thousand",
 "The tree test checks validity after a few random sequences only, never after concurrent or interrupted calls; no test measures comparisons.",
 ["ds/rbtree/rbtree.go","ds/heap/heap.go","ds/skiplist/skiplist.go"],
 [("recolouring and rotation after insert and delete","ds/rbtree/rbtree.go rbInsertFixup, rbDeleteFixup"),("sift along one path","ds/heap/heap.go up, down"),("geometric level choice","ds/skiplist/skiplist.go randomLevel")],
 [("color","node colour","ds/rbtree/node.go")],["validity check of the tree","number of comparator calls per lookup, insertion and removal"])

NA="No schedule, clock, fault or second party takes part."
prop("C20","Comparators are total orders consistent with the operators",
 "Every provided comparator is a total order on its type (NaN sorts first for the float comparators) that returns -1, 0 or 1, and a reversed comparator is the exact inverse.",
 ["inputs"],"every pair and triple of values of each supported type","No test of the comparators exists.",
 ["utils/comparator/comparator.go"],[("three-way comparison functions","utils/comparator/comparator.go")])
prop("C21","Deque positional operations match a sequence",
 "Insert, EraseAt, EraseRange, Set and At on a deque act at the given position exactly as on a plain sequence, at every length and position.",
 ["inputs","histories"],"every operation sequence, length and position","Tests sample a few positions around one block boundary.",
 ["ds/deque/deque.go","ds/deque/segment.go"],[("element shifting across segments","ds/deque/deque.go")])
prop("C22","Vector, array and slice wrapper match a plain slice",
 "Positional reads, writes, insertion, erasure, resizing, copying and iterators of vector, array and slice wrapper behave exactly as the same operations on a plain slice.",
 ["inputs","histories"],"every operation sequence and position","Tests sample a few positions.",
 ["ds/vector/vector.go","ds/array/array.go","ds/slice/slice_wrapper.go"],[("slice operations","ds/vector/vector.go")])
prop("C23","List relinking preserves exactly the listed nodes",
 "Insertion before or after a node, removal, moving a node and appending or prepending a whole list give the documented order in both directions, for every position and including a list applied to itself.",
 ["inputs","histories"],"every operation sequence and choice of nodes","Tests sample short lists.",
 ["ds/list/bidlist/list.go","ds/list/simplelist/simplelist.go"],[("pointer relinking","ds/list/bidlist/list.go")])
prop("C24","Searches and scans return the documented position",
 "Binary search, lower and upper bound, find, count, min, max and the quantifier predicates return the documented result for every range, value and comparator.",
 ["inputs"],"every sorted or unsorted range and value","Tests sample a few values.",
 ["algorithm/sort/search.go","algorithm/const_op.go"],[("bisection and linear scans","algorithm/sort/search.go")])
prop("C25","Hash expansion, ring balance and filter estimates",
 "The expanded hash sequence has the requested length without repeating, ring load is spread in proportion to the replica count, and estimated filter parameters meet the requested error rate.",
 ["inputs","configurations"],"every seed, count, node set, capacity and error rate","No test asserts any of these.",
 ["algorithm/hash/hash.go","ds/ketama/ketama.go","ds/bloomfilter/bloom.go"],[("SHA-512 expansion","algorithm/hash/hash.go")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p)+"\n")
print(len(P))
