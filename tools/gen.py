#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and jobs.py.

Not run by any check: run it by hand after editing.
"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import jobs  # noqa: E402

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe,
         tech, note, state=None):
    P.append(dict(
        d=dict(id=id, title=title, statement=" ".join(statement.split()),
               quantifier=dict(over=over, text=" ".join(quant.split())),
               why_tests_cant=" ".join(why.split()),
               anchors=dict(files=files, state=state or [],
                            mechanism=[dict(name=n, where=w) for n, w in mech],
                            observe_at=observe, hook_needed=None)),
        tech=tech, note=" ".join(note.split())))


I, Q, R = "include/small/", "include/small/quota.h", "include/small/region.h"
SCHED = "cooperative interleaving of instrumented memory accesses; " \
        "linearizability checker over recorded histories"
MODEL = "online reference-model monitor over randomized operation " \
        "histories, under plain, NDEBUG and ASan/UBSan builds"

prop("C01", "A shared quota never exceeds its limit and loses nothing",
     """For any number of threads charging, releasing, re-limiting and reading
     one quota, the outcomes are those of some one-at-a-time order of the
     calls: a charge succeeds exactly when the request, rounded up to the
     accounting unit, fits below the current limit, a release gives back
     exactly its rounded-up amount, and a limit below the current usage is
     refused. Usage never exceeds the limit at any moment, a joint reading of
     limit and usage is consistent, and after any history the usage equals what
     was charged and not released.""",
     ["schedules", "inputs", "histories"],
     """every interleaving, at the granularity of single memory accesses, of
     every program of charges, releases, limit changes and reads with sizes
     anywhere in the domain, including spurious compare-and-swap failures""",
     """The tests run a few threads with small sizes and look at final sums;
     they neither control interleavings nor come near the limits of the
     32-bit packing.""",
     [Q], [("compare-and-swap of the packed limit and usage", Q)],
     ["quota_use", "quota_release", "quota_set", "quota_get_total_and_used"],
     SCHED,
     """Held on the histories explored: 1 to 4 threads, up to 64 operations,
     random-walk and priority schedules over sequentially consistent
     interleavings. Weak memory effects are not simulated.""")

prop("C02", "A lease is granted whenever its source can cover it, never more",
     """What a lessor has taken from its source quota always equals its live
     leases plus a bounded reserve of less than two minimal portions; leases
     and their ends change what is leased by exactly the requested amount. A
     lease is refused only if the source cannot cover the part the reserve
     lacks, and a refused lease changes nothing. Destroying a lessor gives
     everything back to the source, also when several lessors and other users
     share it concurrently.""",
     ["histories", "schedules", "inputs"],
     """every history of leases, partial and full ends of leases and
     destructions, of every size, with any amount of the source used by
     others""",
     """The unit test walks one fixed scenario with one lessor.""",
     [I + "quota_lessor.h", Q],
     [("halving of the portion until the source grants it",
       I + "quota_lessor.h"),
      ("release of the reserve above twice the minimal portion",
       I + "quota_lessor.h")],
     ["quota_lease", "quota_end_lease", "quota_leased", "quota_available"],
     "online conservation monitor over randomized lease histories, "
     "interleaved at memory-access granularity",
     """Held on the histories explored; each lessor is used by one thread,
     as documented, and the source by up to four.""")

prop("C03", "The lock-free LIFO neither loses nor duplicates elements",
     """For any number of threads pushing and popping concurrently, including
     re-pushing what was just popped, the outcomes are those of some
     one-at-a-time order of the calls on a stack: every pushed element is
     popped at most once, a pop returns nothing only if the stack was empty at
     some moment of the call, and after the threads stop the stack holds
     exactly the elements not popped. This holds through wrap-around of
     whatever version counter guards the head. A thread stopped in the middle
     of a call keeps no other from completing theirs.""",
     ["schedules", "histories"],
     """every interleaving of up to four threads over a few elements that are
     reused immediately (the ABA pattern), from every counter phase, and
     stalls of one thread while another does up to 65,000 operations""",
     """The test is single-threaded.""",
     [I + "lf_lifo.h"],
     [("ABA counter in the low bits of the head pointer", I + "lf_lifo.h")],
     ["lf_lifo_push", "lf_lifo_pop", "lf_lifo_is_empty"], SCHED,
     """Held on the histories explored; sequentially consistent interleavings
     of up to four threads. A wrap of the whole counter within one call is out
     of reach by construction of the algorithm and is not exercised.""")

prop("C04", "The arena hands out each slab once, aligned, within the quota",
     """Every slab an arena hands out is mapped memory of the arena's slab
     size, aligned to it, disjoint from every slab in use by any thread, and
     keeps its contents until returned. The quota is charged exactly for slabs
     that exist outside of the free pool's reuse: a slab is refused only if the
     quota has no room or the system refuses memory, a refusal changes nothing,
     and a returned slab can always be obtained again. Preallocation covers the
     size asked for, up to the quota, rounded up to whole slabs, and these
     slabs need no more memory of the system. Destroying the arena unmaps
     everything it mapped.""",
     ["schedules", "histories", "fault_sequences", "configurations"],
     """every interleaving of maps and unmaps of up to four threads on one or
     two arenas over one quota, every preallocation and slab size, every
     pattern of refused or misaligned mappings""",
     """The arena test runs fixed single-threaded sequences plus one stress
     run; no test injects mapping failures or misaligned mappings, or checks
     accounting under concurrency.""",
     ["small/slab_arena.c", I + "slab_arena.h", I + "lf_lifo.h", Q],
     [("lock-free pool of free slabs", "small/slab_arena.c"),
      ("charge before map, release on failure", "small/slab_arena.c"),
      ("over-map and trim for alignment", "small/slab_arena.c")],
     ["slab_map", "slab_unmap", "slab_arena_create", "slab_arena_destroy"],
     "interleaved runs with ownership, content and accounting monitors, "
     "injected mmap failures",
     """Held on the runs explored, over sequentially consistent
     interleavings.""")

prop("C05", "The slab cache gives disjoint blocks and always coalesces them",
     """A block obtained from a slab cache has at least the requested capacity,
     lies in memory its arena gave, is aligned to its own size unless larger
     than an arena slab, overlaps no other live block and keeps its contents
     until put back. Freed buddies merge completely, so that a request is
     served from memory already held whenever a free block can hold it, and
     the cache keeps at most one entirely free arena slab. The usage it reports
     is exactly the total size of live blocks, and destruction returns every
     slab to the arena.""",
     ["histories", "inputs", "configurations", "fault_sequences"],
     """every sequence of gets and puts of every size and order from one or two
     caches on one arena, every slab size, every point of exhaustion""",
     """The test loops over random sizes once with one configuration, checking
     only the internal consistency of counters.""",
     ["small/slab_cache.c", I + "slab_cache.h", I + "slab_list.h"],
     [("buddy split and merge", "small/slab_cache.c"),
      ("one spare arena slab", "small/slab_cache.c")],
     ["slab_get", "slab_put", "slab_get_with_order", "slab_cache_used"],
     "exact buddy-system reference model run online, in plain, NDEBUG and "
     "ASan/UBSan builds",
     """Held on the histories explored, against an exact model of which memory
     is free; which free block serves a request is left open.""")

prop("C06", "A mempool gives distinct, aligned, durable objects; exact counts",
     """Every object of a mempool is writable in its whole size, suitably
     aligned, disjoint from all other live objects, inside memory of the
     underlying cache, and keeps its contents until freed. The count and the
     statistics are exact after every operation, an allocation takes a new
     slab only if the pool has no spare slab and no slab at least an eighth of
     which is free, and it fails only if no free object exists and no new slab
     can be had. Entirely free slabs beyond a spare go
     back to the cache, and destruction returns everything.""",
     ["histories", "inputs", "configurations", "fault_sequences"],
     """every sequence of allocations and frees, for every object size and slab
     order, with several pools sharing a cache, and at every point of
     exhaustion""",
     """The test uses random sizes but checks only the pointer written into
     each object, with ample memory.""",
     ["small/mempool.c", I + "mempool.h"],
     [("per-slab free list and untouched tail", "small/mempool.c"),
      ("hot tree, cold list and spare slab", "small/mempool.c")],
     ["mempool_alloc", "mempool_free", "mempool_count", "mempool_stats"],
     MODEL, "Held on the histories explored.")

prop("C07", "The small-object allocator gives distinct, durable blocks",
     """For every sequence of allocations and frees of mixed sizes, a block has
     the requested size at least, is disjoint from all other live blocks, is
     aligned to the configured granularity (blocks above the largest class: to
     a pointer), and keeps its contents until freed with the same size. Serving
     sizes from pools of larger objects never loses more than a quarter of a
     slab and one object per class, and only a class that has lost that much
     is served from a pool of its own. Its total statistics equal what its
     pools report and return to zero when everything is freed. An allocation
     fails only if memory really cannot be had: what was just freed can be had
     again, and pools that are empty and hardly needed do not keep memory then.
     Destruction returns everything it took.""",
     ["histories", "inputs", "configurations", "fault_sequences"],
     """every size sequence including sizes at class and pool-group borders and
     above the largest class, every growth factor, granularity and minimal
     object size""",
     """The test uses one factor range, bounded sizes, and never exhausts
     memory or changes the mix of sizes to reuse mostly empty pools.""",
     ["small/small.c", I + "small.h", "small/small_class.c",
      "small/mempool.c"],
     [("pool groups and lazy activation of better fitting pools",
       "small/small.c"),
      ("fallback to an active larger pool", "small/small.c")],
     ["smalloc", "smfree", "small_stats"],
     MODEL, "Held on the histories explored.")

prop("C08", "Size classes cover every size, monotonically, tightly",
     """For every configuration accepted and every size, the class chosen for a
     size is the smallest class whose object size is at least that size; class
     sizes strictly increase, are multiples of the granularity if the minimal
     allocation is, and are exact for the class found by their own size. The
     factor reported lies within the square root of the requested one and is
     the one in force: sizes, less a constant, double in as many classes as
     that factor takes to double. Both search methods (branching and
     branchless) agree for every size.""",
     ["inputs", "configurations"],
     """every growth factor in (1, 2], granularity, minimal allocation and every
     size up to the largest class""",
     """The test compares a handful of factors against a simulation in the
     branching mode only.""",
     ["small/small_class.c", I + "small_class.h"],
     [("offset and shift arithmetic on the bits of the size",
       I + "small_class.h")],
     ["small_class_calc_offset_by_size", "small_class_calc_size_by_offset",
      "small_class_create"],
     "exhaustive sweep of sizes per sampled configuration against the "
     "definition, in both search modes",
     """All sizes up to a bound and all class borders for each sampled
     configuration.""")

prop("C09", "Region allocations stay intact; truncation keeps what is older",
     """Memory allocated from a region is disjoint from everything else
     allocated from it, aligned as requested, and keeps its address and
     contents until the region is freed, reset or truncated below it.
     Truncating to a usage recorded earlier releases exactly what was
     allocated since, whatever sizes, alignments and slabs were involved, and
     joining the last allocated bytes yields those bytes in order, contiguously.
     Reserving without allocating never changes the region's contents.""",
     ["histories", "inputs", "fault_sequences"],
     """every sequence of allocations, aligned allocations, reservations,
     joins, nested savepoints and truncations, of all sizes across slab
     borders""",
     """The tests do a few fixed allocations and one truncation; joins and
     nested savepoints across slabs are barely sampled.""",
     ["small/region.c", R],
     [("slabs as a stack, trimmed from the newest", "small/region.c")],
     ["region_alloc", "region_aligned_alloc", "region_truncate",
      "region_join", "region_reserve"],
     MODEL, "Held on the histories explored.")

prop("C10", "Region accounting is exact and every change is announced",
     """The usage a region reports equals the bytes allocated, with their
     alignment padding, since its creation minus what truncation, reset or free
     released; its total equals the memory it holds from its cache, and is zero
     after free. Each successful allocation calls the allocation callback once,
     with a size that accounts for the change of the usage (in the
     AddressSanitizer build the usage counts no padding); each truncation or
     free calls the truncation callback once with the new usage. A join
     allocates only if it has to copy.""",
     ["histories", "inputs"],
     """every sequence of operations, with and without callbacks""",
     """The callback test is one short fixed scenario; totals are only
     compared with zero at the end.""",
     ["small/region.c", R],
     [("usage and total in the list of slabs", R)],
     ["region_used", "region_total", "region_set_callbacks"],
     MODEL, "Held on the histories explored.")

prop("C11", "A log-structured region keeps what is younger than its last GC",
     """Memory allocated from a log-structured region under an identifier
     stays valid, disjoint from others, aligned as requested and unchanged
     until the region is collected up to that identifier or a later one, and
     across changes of the reserved size. Collection frees everything whose
     slab holds only collected identifiers, at most one empty slab being kept
     for reuse; the reported usage and total are exact, and
     destruction returns all memory.""",
     ["histories", "inputs", "fault_sequences"],
     """every sequence of reservations, allocations with non-decreasing
     identifiers, aligned allocations and collections, of all sizes including
     ones larger than an arena slab""",
     """The tests follow fixed scenarios; contents of survivors are not
     checked over mixed histories.""",
     ["small/lsregion.c", I + "lsregion.h"],
     [("highest identifier of each slab", I + "lsregion.h"),
      ("cached empty slab", "small/lsregion.c")],
     ["lsregion_alloc", "lsregion_reserve", "lsregion_gc", "lsregion_used"],
     MODEL, "Held on the histories explored.")

prop("C12", "Flushing a log-structured region yields every byte once, in order",
     """For allocations whose identifiers do not decrease, dumping a
     log-structured region to an I/O vector in steps, from the position where
     the previous step ended, yields exactly the allocated bytes, each
     once and in order of allocation, whatever the length of the vector and
     even if allocations and collections of already dumped identifiers happen
     in between. The identifier reported with a position covers everything
     dumped so far, so that collecting up to it once everything is dumped
     loses nothing that was not dumped.""",
     ["histories", "inputs"],
     """every history of allocations, dumps with vectors of any length, and
     collections""",
     """The tests dump fixed layouts a few times.""",
     [I + "lsregion.h"],
     [("dump position per slab", I + "lsregion.h")],
     ["lsregion_to_iovec", "lsregion_svp_create"],
     MODEL, "Held on the histories explored.")

prop("C13", "An input buffer is a faithful byte queue",
     """The bytes between the read and the write position of an input buffer
     are exactly those written and not yet consumed or discarded, in order,
     through any sequence of reservations, allocations, consumptions,
     truncations, shrinks, resets and reinitializations. A successful
     reservation leaves at least the requested room after the write position,
     taking the room of consumed bytes before taking more memory, which is
     at least half as much again; a failed one changes nothing, and the buffer's memory is returned when it
     is reinitialized or destroyed.""",
     ["histories", "inputs", "fault_sequences"],
     """every operation sequence with every size, start capacity and point of
     memory exhaustion""",
     """The test does a few fixed reservations.""",
     ["small/ibuf.c", I + "ibuf.h"],
     [("move to the front or grow by doubling", "small/ibuf.c")],
     ["ibuf_reserve", "ibuf_alloc", "ibuf_consume", "ibuf_shrink"],
     MODEL, "Held on the histories explored.")

prop("C14", "An output buffer's vector is the bytes written, at any rollback",
     """The concatenation of an output buffer's I/O vectors is at any time
     exactly the bytes appended, allocated, duplicated or copied in since the
     last reset, minus those rolled back; its reported size is their length,
     and memory handed out by an allocation keeps its address until rolled back
     or reset. Rolling back to a savepoint restores exactly the contents at the
     savepoint, whatever happened since, and a failed operation adds nothing
     that is not accounted for in the contents.""",
     ["histories", "inputs", "fault_sequences"],
     """every sequence of reserves, allocations, copies, nested savepoints,
     rollbacks and resets, of every size, at every point of exhaustion""",
     """The tests write a handful of fixed or random blobs with ample memory;
     savepoints are sampled once.""",
     ["small/obuf.c", I + "obuf.h"],
     [("vectors of doubling capacity", "small/obuf.c"),
      ("savepoint: position, length and size", I + "obuf.h")],
     ["obuf_dup", "obuf_alloc", "obuf_iovcnt", "obuf_rollback_to_svp"],
     MODEL, "Held on the histories explored.")

prop("C15", "Arena memory is mapped, shared and dumped as its flags say",
     """All memory of an arena, preallocated or mapped later, aligned at once or
     trimmed, is mapped as its flags say: what a child process writes to a slab
     of a shared arena is seen by its parent and what it writes to a slab of a
     private one is not, and memory is left out of core dumps if, and only if,
     the arena asks for it, for as long as it is mapped. Protecting an arena
     makes exactly its preallocated memory read-only, contents kept. The
     feature test says that memory can be left out of core dumps if, and only
     if, it is, and knows no other feature. Where the system refuses to leave
     memory out of core dumps, the arena hands it out all the same, and what is
     printed names the reason.""",
     ["configurations", "histories", "fault_sequences"],
     """every combination of flags, including the old ones, slab size, quota and
     preallocation, every sequence of maps and unmaps, with mappings that are
     refused or misaligned, and advice that is refused""",
     """The test looks at one slab of one arena per flag; no test uses a child
     process, a mapping that had to be trimmed or a protected arena.""",
     ["small/slab_arena.c", I + "slab_arena.h", "small/small_features.c",
      I + "small_features.h"],
     [("translation of flags, old and new", "small/slab_arena.c"),
      ("advice per mapping", "small/slab_arena.c")],
     ["slab_map", "slab_arena_create", "slab_arena_mprotect",
      "small_test_feature"],
     "monitor of what the kernel reports of each mapping "
     "(/proc/self/smaps) and of what child processes see, over randomized "
     "histories, under plain, NDEBUG and ASan/UBSan builds",
     """Held on the histories explored. The arena of the sanitizer build, which
     maps nothing, is not covered.""")

prop("C16", "A paged block array keeps each identifier's block and contents",
     """Identifiers of a block array are given out densely in order and are the
     inverse of deallocation; looking an identifier up always yields the same
     writable block, disjoint from all others and with the contents last
     written, for every geometry of extents and blocks and any sequence of
     single and ranged allocations and deallocations. The number of extents
     held is exactly what the current blocks need.""",
     ["histories", "inputs", "configurations"],
     """every operation sequence over every geometry""",
     """The tests use two or three geometries and sequential use.""",
     ["small/matras.c", I + "matras.h"],
     [("three-level translation", I + "matras.h")],
     ["matras_alloc", "matras_alloc_range", "matras_dealloc", "matras_get"],
     MODEL, "Held on the histories explored.")

prop("C17", "A read view of a block array never changes",
     """A read view shows forever the number of blocks and the contents that
     the array had when the view was opened, whatever is touched, written,
     allocated or deallocated afterwards, for any number of views opened and
     closed in any order. Writing after announcing it (touching) changes only
     the current version and never another identifier, and a view may be read
     by another thread while the owner keeps modifying the array.""",
     ["histories", "schedules", "inputs"],
     """every history of touches, writes, allocations, deallocations, view
     openings and closings in any order; every timing of concurrent readers""",
     """The tests exercise views mostly in order and with one geometry; no
     test reads a view from another thread.""",
     ["small/matras.c", I + "matras.h"],
     [("copy on write of the path to a block", "small/matras.c"),
      ("list of views that share extents", "small/matras.c")],
     ["matras_create_read_view", "matras_touch", "matras_view_get",
      "matras_destroy_read_view"],
     MODEL + "; ThreadSanitizer with concurrent readers",
     "Held on the histories explored.")

prop("C18", "Block arrays neither leak extents nor change on a failed call",
     """Every extent a block array or its views hold is released exactly once,
     when nothing refers to it any more, so that destroying the array and its
     views in any order releases everything. If an extent cannot be had, the
     failing call reports it, leaves the array and all views as they were, and
     can be repeated later with success. A touch or a deallocation whose
     memory was reserved beforehand does not fail.""",
     ["fault_sequences", "histories"],
     """every point at which an extent allocation fails, in every history""",
     """Extent failures are not injected by the tests except one counter
     limit.""",
     ["small/matras.c"],
     [("rollback of partially allocated paths", "small/matras.c")],
     ["matras_alloc", "matras_touch", "matras_destroy"],
     "fault injection at every extent allocation with conservation and "
     "reference-model monitors", "Held on the fault points explored.")

prop("C19", "Static allocations of a thread stay intact for one round",
     """A static allocation is writable in its whole size, aligned as requested,
     and disjoint from all other allocations the thread made since its buffer
     was last started over, which happens only on a reset or when a request
     with its alignment gap does not fit into the rest. Requests larger than
     the buffer fail and change nothing, a reservation gives the address of
     the next allocation, and allocations of different threads never
     overlap.""",
     ["histories", "inputs", "schedules"],
     """every sequence of allocations, reservations, aligned ones and resets of
     every size, in several threads""",
     """The test does a few fixed allocations in one thread.""",
     ["small/static.c", I + "static.h"],
     [("per-thread cyclic buffer", I + "static.h")],
     ["static_alloc", "static_aligned_alloc", "static_reserve"],
     MODEL, "Held on the histories explored.")

prop("C20", "The red-black tree is an ordered set under any history",
     """After any history of insertions and removals a tree holds exactly the
     inserted and not removed nodes, visits them in order in both directions,
     finds a key if and only if it is present, gives the right first, last,
     next, previous, and nearest nodes (nsearch gives the last match or, without
     one, the successor; psearch the first match or the predecessor), and its height stays logarithmic
     (balanced, no red node with a red child).""",
     ["histories", "inputs", "configurations"],
     """every insertion and removal sequence, including adversarial orders, in
     each supported variant of the tree""",
     """The tests use a few random permutations in one variant.""",
     [I + "rb.h"],
     [("rotations and recoloring on the path", I + "rb.h")],
     ["rb_insert", "rb_remove", "rb_search", "rb_nsearch", "rb_psearch"],
     MODEL, "Held on the histories explored.")

prop("C21", "Tree iterators, partial keys and augmented data stay exact",
     """With keys that match several adjacent nodes, the search functions and
     their iterators return the first or the last match, or the nearest node on
     the documented side, and moving an iterator enumerates the order exactly
     from there. After every insertion and removal the augmented data of every
     node agrees with its subtree, and a full walk visits every node exactly
     once, parents before children.""",
     ["histories", "inputs", "configurations"],
     """every tree shape, key and range of matches""",
     """The tests cover a few shapes of the augmented variant and the iterators
     of one.""",
     [I + "rb.h"],
     [("iterator path", I + "rb.h"), ("bottom-up augmentation", I + "rb.h")],
     ["rb_isearch_le", "rb_isearch_ge", "rb_isearch_lt", "rb_isearch_gt",
      "rb_inext", "rb_iprev", "rb_walk_next"],
     MODEL, "Held on the histories explored.")

prop("C22", "Intrusive lists hold exactly the sequence built",
     """After any sequence of insertions, removals, moves, splices, cuts and
     swaps, forward and backward traversal of each list yields exactly
     the sequence these operations define, on every list involved; a removed
     item no longer belongs to any list, and what a destination of a cut held
     before is discarded. The singly-linked stack returns items
     in the reverse order of pushing.""",
     ["histories", "inputs"],
     """every operation sequence over several lists, including empty and
     single-item ones and items next to each other""",
     """The tests are short and fixed; cut and splice borders are sampled
     once.""",
     [I + "rlist.h", I + "lifo.h"],
     [("circular doubly-linked list", I + "rlist.h")],
     ["rlist_add", "rlist_del", "rlist_move", "rlist_splice",
      "rlist_cut_before", "rlist_swap", "lifo_pop"],
     MODEL, "Held on the histories explored.")

prop("C23", "Alignment and rounding helpers are exact over their domain",
     """Rounding a value up or down to a power-of-two alignment gives the nearest
     multiple on that side; rounding a size up to a power of two gives
     the smallest power of two not below it, and the binary logarithm is its
     exact floor, for every representable argument in the domain.""",
     ["inputs"],
     """all arguments: exhaustive around all powers of two, random elsewhere""",
     """Tests check small arguments.""",
     [I + "util.h", "small/util.c"],
     [("bit tricks", I + "util.h")],
     ["small_align", "small_round", "small_lb"],
     "differential monitoring against the definition over all border values",
     "All borders of powers of two and random values.")

prop("C24", "The sanitizer build flags misuse exactly where memory is not live",
     """In the AddressSanitizer build, every byte a user may access (live
     objects, allocated region and buffer memory, reserved memory) is
     accessible and every byte next to it that the user may not access,
     including alignment and rounding slack, freed or truncated or collected
     objects and consumed reservations, is poisoned at every moment of any
     history. Returning an object to the wrong pool, allocator, cache or
     arena, with a wrong size, from a wrong thread, or after the unpoisonable
     bytes before it were overwritten is reported on the standard error output
     and aborts, unless the user set a handler of his own, which is called
     instead; correct use never does.""",
     ["histories", "inputs"],
     """every history of each allocator, probing bytes at both ends of live and
     dead blocks, and every kind of misuse of one""",
     """The poisoning tests check some fixed sizes per allocator.""",
     ["small/mempool_asan.c", "small/region_asan.c", "small/lsregion_asan.c",
      "small/obuf_asan.c", "small/small_asan.c", "small/util.c",
      "include/small/ibuf.h"],
     [("redzones and explicit poisoning", "small/util.c")],
     ["mempool_alloc", "region_alloc", "lsregion_alloc", "obuf_alloc",
      "ibuf_alloc"],
     "shadow-memory probes at block borders over randomized histories, and "
     "injected misuse with a monitor of the reports",
     "Held on the bytes probed.")

prop("C25", "The sanitizer build behaves like the regular one",
     """Compiled for AddressSanitizer, the slab cache, the mempool, the small
     allocator, the region, the log-structured region and the output buffer
     give the results the regular build gives: the same contents, savepoints,
     truncations, joins, collections, dumps, callbacks and usage figures, with
     alignment as requested and no memory left after destruction.""",
     ["histories", "inputs", "configurations"],
     """every history of each allocator""",
     """The unit tests run against one build at a time and sample short
     histories.""",
     ["small/mempool_asan.c", "small/region_asan.c", "small/lsregion_asan.c",
      "small/obuf_asan.c", "small/small_asan.c", "small/slab_cache_asan.c"],
     [("malloc-backed replacements", "small/util.c")],
     ["all allocation functions"],
     "the reference-model monitors of the regular build run against the "
     "AddressSanitizer build", "Held on the histories explored.")

prop("C26", "An allocator that cannot get memory says so and stays as it was",
     """If at any point the quota or the system refuses memory, the call that
     needed it reports failure, and the allocator, its accounting, its other
     blocks and their contents are as if the call had not been made; when
     memory becomes available the same call succeeds.""",
     ["fault_sequences", "histories"],
     """a refusal at each memory request of each history of the slab cache,
     mempool, small allocator, region, log-structured region, input and output
     buffer""",
     """The tests exhaust memory in one or two places only and never go on
     afterwards.""",
     ["small/slab_cache.c", "small/mempool.c", "small/small.c",
      "small/region.c", "small/lsregion.c", "small/ibuf.c", "small/obuf.c"],
     [("failure paths", "small/")],
     ["every allocation function"],
     "fault injection at malloc and mmap and small quotas, with the "
     "reference-model monitors", "Held on the fault points explored.")

prop("C27", "A request too large to satisfy fails cleanly",
     """A request of any size, up to the largest representable, either yields
     that many usable bytes or reports failure leaving the allocator unchanged;
     it never yields a shorter block, never wraps, never hangs. (The regular
     build; the malloc-backed replacements for AddressSanitizer cannot refuse
     memory.)""",
     ["inputs", "histories"],
     """sizes at and near every power of two, the arena slab size, the quota
     and the largest representable size, at every state of each allocator""",
     """No test asks for more than a few megabytes.""",
     ["small/slab_cache.c", "small/small.c", "small/region.c",
      "small/lsregion.c", "small/ibuf.c", "small/obuf.c",
      I + "static.h", R],
     [("size arithmetic", "small/")],
     ["slab_get", "smalloc", "region_alloc", "lsregion_alloc", "ibuf_reserve",
      "obuf_alloc", "static_alloc"],
     "boundary-value workloads with capacity and model monitors under ASan "
     "and UBSan", "Held on the sizes tried.")

prop("C30", "All memory of all allocators together stays within the quota",
     """With any mix of slab caches, pools, small allocators, regions,
     log-structured regions and buffers living on one arena, the memory obtained
     from the system for them never exceeds the quota beyond the arena's
     preallocation, blocks of different allocators never overlap, and when all
     are destroyed nothing is held from the arena, which can then hand out the
     full quota again.""",
     ["histories", "configurations", "fault_sequences"],
     """every history of a mix of allocators sharing caches and an arena under
     a tight quota""",
     """Tests exercise one allocator at a time.""",
     ["small/slab_arena.c", "small/slab_cache.c", "small/mempool.c",
      "small/small.c", "small/region.c", "small/lsregion.c", "small/ibuf.c",
      "small/obuf.c", Q],
     [("charges of the arena and of large slabs", "small/slab_cache.c")],
     ["quota_used", "interposed malloc and mmap"],
     "system-level conservation monitor with interposed memory functions",
     "Held on the histories explored.")

prop("C31", "Threads with their own allocators may share one arena and quota",
     """Any number of threads, each with slab caches, pools, small allocators,
     regions, log-structured regions, buffers, block arrays, lessors and the
     static buffer of its own, may use one arena, one quota and one lock-free
     list at the same time without further synchronization: none ever sees its
     memory change under it, what is passed through the list or given back to
     the arena arrives complete and in order at the thread that gets it, no
     access conflicts with one of another thread outside the atomic loops of
     the quota and the list, and when all are done nothing is lost: every slab
     is to be had again, the quota is charged for exactly those, and all
     memory goes back to the system. A cache may be taken over by another
     thread.""",
     ["schedules", "histories", "configurations", "fault_sequences"],
     """every number of threads, mix of allocators and histories of theirs,
     every schedule and memory order the processor allows, with requests to
     the system that fail""",
     """Two tests run threads, over the bare arena and the quota, and with
     sanitizers that do not look for races. A missing barrier or a variable
     that became shared goes unnoticed.""",
     ["small/slab_arena.c", "small/slab_cache.c", "small/static.c", Q,
      I + "lf_lifo.h", I + "quota_lessor.h"],
     [("compare-and-swap of the list of free slabs", I + "lf_lifo.h"),
      ("owner of a cache", "small/slab_cache.c"),
      ("buffer of each thread", "small/static.c")],
     ["every allocator call", "lf_lifo_pop", "quota_used",
      "interposed malloc and mmap"],
     "ThreadSanitizer and per-thread content monitors over real threads, "
     "conservation monitor when they are done",
     """Held on the schedules that occurred. The plain reads of the shared word
     in the loops of the quota and the list are data races in the letter of the
     language and are not reported: what they read is verified by the
     compare-and-swap that follows.""")

prop("C32", "Under Valgrind misuse of memory is seen and correct use is not",
     """Built with support for Valgrind (ENABLE_VALGRIND), the allocators tell
     memcheck what their memory is: all of a live block may be accessed; what
     a slab, pool or small object or a slab of the arena holds when it is handed
     out counts as undefined until written, used before or not; a block that
     was given back, by itself or with its region, buffer, pool or small
     allocator, may not be accessed any more (but for the link in it) until it
     is handed out again; an object given back twice is reported. The
     blocks memcheck knows of are the live objects, with their sizes; destroying
     an allocator frees all of its own. Nothing is ever reported of a program
     that uses its memory as it should.""",
     ["histories", "configurations", "inputs"],
     """every history of allocations and releases by all allocators on shared
     caches and a shared arena, with every size""",
     """The tests are built without that support and are not run under
     Valgrind; a missing or wrong annotation changes nothing they see.""",
     ["small/mempool.c", "small/slab_cache.c", "small/slab_arena.c",
      "small/region.c"],
     [("objects of a pool", "small/mempool.c"),
      ("slabs of a cache as a pool of pools", "small/slab_cache.c"),
      ("slabs of the arena", "small/slab_arena.c")],
     ["Valgrind client requests: GET_VBITS, COUNT_ERRORS, FREELIKE_BLOCK"],
     "Valgrind memcheck over randomized histories, with monitors that ask it "
     "about live and dead bytes, its error count and the blocks it knows",
     """Held on the histories explored. Objects of a slab that were never
     handed out may be accessed, as may a block truncated in a region slab
     that stays.""")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["d"]) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["d"]["id"]
        if pid in jobs.PROPS:
            checks.append(dict(
                property=pid,
                quick_cmd="python3 run.py check " + pid,
                thorough_cmd="VERIF_TIER=thorough python3 run.py check " + pid,
                evidence_file="evidence/%s.json" % pid,
                technique="runtime monitoring: " + p["tech"],
                level=jobs.PROPS[pid].get("level", "exploration"),
                level_note=p["note"]))
        else:
            na.append(dict(property=pid, reason="no check built yet"))
    m = dict(version=1, setup_cmd="python3 run.py list",
             hooks=dict(guard="none", enable="no hooks are needed: the checks "
                        "compile /repo's sources as they are, with "
                        "instrumentation by compiler flags, and interpose "
                        "malloc and mmap at link time", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="Checks print what they observed; run.py replay FILE reruns "
                   "the case of a violation.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
