"""What each property's check runs: harness, build configuration, cases."""

ASSUMPTIONS = [
    "x86-64 Linux, 4 KiB pages, the compilers of this sandbox",
    "one execution is decided at a time: nothing is claimed about inputs, "
    "histories and schedules not produced",
]

HARNESSES = {
    "conc": dict(src=["conc.c", "hksched.c", "conc_sut.c"],
                 sut=["conc_sut.c"]),
    "slab": dict(src=["slab.c"]),
    "mapping": dict(src=["mapping.c"]),
    "misuse": dict(src=["misuse.c"]),
    "small": dict(src=["small.c"]),
    "lsregion": dict(src=["lsregion.c"]),
    "obuf": dict(src=["obuf.c"]),
    "giant": dict(src=["giant.c"]),
    "vg": dict(src=["vg.c"], valgrind=["valgrind", "-q", "--error-limit=no",
                                    "--leak-check=no"]),
    "threads": dict(src=["threads.c"]),
    "matras": dict(src=["matras.c"]),
    "mix": dict(src=["mix.c"]),
    "rb": dict(src=["rb.c"]),
    "rb_compact": dict(src=["rb.c"], flags=["-DRB_COMPACT=1"]),
    "rb_arg": dict(src=["rb.c"], flags=["-DRB_CMP_TREE_ARG=1"]),
    "rb_both": dict(src=["rb.c"], flags=["-DRB_COMPACT=1",
                                         "-DRB_CMP_TREE_ARG=1"]),
    "lists": dict(src=["lists.c"]),
    "umath": dict(src=["umath.c"]),
    "static": dict(src=["static.c"]),
    "ibuf": dict(src=["ibuf.c"]),
    "region": dict(src=["region.c", "guard.cc"]),
    "sclass": dict(src=["sclass.c"]),
    "pool": dict(src=["pool.c"]),
}


def j(harness, config, cases, thorough=None, **kw):
    d = dict(harness=harness, config=config, cases=cases,
             opts={k[2:]: v for k, v in kw.items() if k.startswith("o_")})
    d.update({k: v for k, v in kw.items() if not k.startswith("o_")})
    if thorough:
        d["thorough"] = thorough
    return d


MODEL_RULE = (
    "a case is one random history of a few hundred to a few thousand "
    "operations in a random environment (slab size, quota, preallocation, "
    "number of caches and allocators), all checked against a reference model; "
    "non-trivial if it grew beyond a few objects; distinct by the final state "
    "reached")

SCHED_RULE = (
    "a case of the conc harness is a random program of 1-4 threads run under one seeded "
    "interleaving that may switch at every memory access of the code under "
    "test; non-trivial if operations of different threads overlapped (or, "
    "single-threaded, always); distinct by the sequence of scheduling choices")

RB = ("rb", "rb_compact", "rb_arg", "rb_both")
RB_RULE = (
    "a case is one tree of a variant (plain or augmented, node or separate "
    "key), grown and shrunk in ascending, descending, local or random order "
    "and compared with a sorted array; non-trivial if it had more than five "
    "nodes; distinct by the heights gone through")

PROPS = {
    "C01": dict(
        rule=SCHED_RULE,
        jobs=[j("conc", "sched", 200000, o_mode="quota"),
              j("conc", "schedrel", 200000, o_mode="quota"),
              j("threads", "rel", 6000, o_mode="quota")],
        require={"histories": 1000, "threads_quota": 10000, "overlapping_pairs": 1000,
                 "quota_use_ok": 1000, "quota_use_refused": 1000,
                 "quota_set_refused": 100, "quota_set_ok": 1000,
                 "quota_release": 1000, "spurious_cas_failures": 100}),
    "C02": dict(
        rule=SCHED_RULE,
        jobs=[j("conc", "sched", 120000, o_mode="lessor"),
              j("conc", "schedrel", 120000, o_mode="lessor")],
        require={"histories": 1000, "lease_refused": 1000,
                 "lease_from_source": 1000, "lease_from_available": 1000,
                 "lessor_released": 100, "lessor_destroy": 100}),
    "C03": dict(
        rule=SCHED_RULE,
        jobs=[j("conc", "sched", 60000, o_mode="lifo"),
              j("conc", "schedrel", 60000, o_mode="lifo"),
              j("threads", "tsan", 1500, o_mode="lifo"),
              j("threads", "rel", 3000, o_mode="lifo")],
        require={"histories": 1000, "threads_passed": 1000, "overlapping_pairs": 1000,
                 "lifo_stalls": 500, "lifo_counter_wraps": 500}),
    "C04": dict(
        rule=SCHED_RULE,
        jobs=[j("conc", "sched", 120000, o_mode="arena"),
              j("conc", "schedrel", 120000, o_mode="arena"),
              j("threads", "tsan", 1500, o_mode="arena"),
              j("threads", "rel", 3000, o_mode="arena")],
        require={"arena_of_many_slabs": 20,
                 "histories": 1000, "threads_arena": 10000, "arena_map": 1000,
                 "arena_map_null": 1000, "arena_slab_reused": 1000,
                 "arena_mmap_faults": 100, "arena_create_failed": 10,
                 "arena_prealloc_taken": 1000}),
    "C05": dict(
        rule=MODEL_RULE,
        jobs=[j("slab", "plain", 24000), j("slab", "rel", 24000),
              j("slab", "san", 6000), j("slab", "plain", 8000, o_faults=1),
              j("slab", "plain", 300, o_long=1),
              j("slab", "rel", 300, o_long=1),
              j("slab", "san", 60, o_long=1),
              j("giant", "rel", 4000, o_only=0)],
        require={"slab_step_with_many_slabs": 10000,
                 "giant_block": 1000,
                 "slab_get": 10000, "slab_from_free": 10000,
                 "slab_from_spare": 1000, "slab_returned_to_arena": 1000,
                 "slab_large_null": 100, "slab_get_null": 100,
                 "slab_destroy_live": 100, "slab_probe": 1000,
                 "slab_other_thread": 100}),
    "C06": dict(
        rule=MODEL_RULE,
        jobs=[j("pool", "plain", 16000), j("pool", "rel", 16000),
              j("pool", "san", 6000), j("pool", "plain", 6000, o_faults=1),
              j("pool", "plain", 300, o_long=1),
              j("pool", "rel", 300, o_long=1),
              j("pool", "san", 60, o_long=1),
              j("giant", "rel", 4000, o_only=1)],
        require={"pool_step_with_many_slabs": 10000,
                 "giant_block": 1000,
                 "pool_alloc": 100000, "pool_alloc_null": 1000,
                 "pool_new_slab": 1000, "pool_from_spare": 1000,
                 "pool_slab_returned": 1000, "pool_slab_empty": 1000}),
    "C07": dict(
        rule=MODEL_RULE,
        jobs=[j("small", "plain", 12000), j("small", "rel", 12000),
              j("small", "san", 4000), j("small", "plain", 6000, o_faults=1),
              j("giant", "rel", 4000, o_only=2)],
        require={"giant_block": 1000,
                 "small_alloc": 100000, "small_from_larger_pool": 10000,
                 "small_from_best_pool": 10000, "small_alloc_large": 1000,
                 "small_alloc_null": 1000, "small_reused_when_full": 1000,
                 "small_pool_activated": 100, "small_pool_given_up": 100,
                 "small_idle_pool_when_full": 1000}),
    "C08": dict(
        rule="a case is one configuration (granularity, minimal allocation, "
             "growth factor); all sizes up to a bound and the borders of all "
             "classes are evaluated; distinct by configuration reached",
        jobs=[j("sclass", "plain", 6000), j("sclass", "nobranch", 6000),
              j("sclass", "san", 1200)],
        require={"class_sizes": 1000000, "classes": 10000,
                 "class_doubling": 1000, "class_type_end": 100}),
    "C09": dict(
        rule=MODEL_RULE,
        jobs=[j("region", "plain", 16000), j("region", "rel", 16000),
              j("region", "san", 6000), j("region", "plain", 6000, o_faults=1),
              j("giant", "rel", 4000, o_only=3)],
        require={"giant_block": 1000,
                 "region_alloc": 100000, "region_join_copy": 1000,
                 "region_join_in_place": 1000, "region_truncate": 10000,
                 "region_alloc_reserved": 1000, "region_reset": 100,
                 "region_free": 100, "region_null": 100,
                 "region_objects": 10000, "region_guard": 1000}),
    "C10": dict(
        rule=MODEL_RULE,
        jobs=[j("region", "plain", 16000), j("region", "rel", 16000),
              j("region", "san", 6000), j("region", "asan", 6000),
              j("region", "plain", 6000, o_faults=1),
              j("giant", "rel", 4000, o_only=3)],
        require={"giant_block": 1000,
                 "region_alloc": 100000, "region_truncate": 10000,
                 "region_alloc_callback": 10000,
                 "region_truncate_callback": 1000,
                 "region_reset": 100, "region_free": 100,
                 "region_guard": 1000, "region_free_after_none": 1000}),
    "C11": dict(
        rule=MODEL_RULE,
        jobs=[j("lsregion", "plain", 16000), j("lsregion", "rel", 16000),
              j("lsregion", "san", 6000),
              j("lsregion", "plain", 6000, o_faults=1),
              j("lsregion", "plain", 300, o_long=1),
              j("lsregion", "rel", 300, o_long=1),
              j("lsregion", "san", 60, o_long=1),
              j("giant", "rel", 4000, o_only=4)],
        require={"lsregion_dump_of_many_slabs": 20,
                 "giant_block": 1000,
                 "lsregion_alloc": 100000, "lsregion_cached_slab": 1000,
                 "lsregion_large_slab": 1000, "lsregion_gc_freed": 1000,
                 "lsregion_collected": 10000, "lsregion_alloc_reserved": 1000,
                 "lsregion_null": 100, "lsregion_object": 1000}),
    "C12": dict(
        rule=MODEL_RULE,
        jobs=[j("lsregion", "plain", 16000), j("lsregion", "rel", 16000),
              j("lsregion", "san", 6000), j("lsregion", "asan", 6000),
              j("lsregion", "plain", 300, o_long=1),
              j("lsregion", "rel", 300, o_long=1),
              j("lsregion", "san", 60, o_long=1),
              j("lsregion", "asan", 60, o_long=1),
              j("giant", "rel", 4000, o_only=4)],
        require={"lsregion_dump_of_many_slabs": 20,
                 "giant_block": 1000,
                 "lsregion_dump": 10000, "lsregion_dump_partial": 1000,
                 "lsregion_cached_slab": 1000, "lsregion_large_slab": 1000,
                 "lsregion_collected": 10000}),
    "C13": dict(
        rule=MODEL_RULE,
        jobs=[j("ibuf", "plain", 12000), j("ibuf", "rel", 12000),
              j("ibuf", "san", 4000), j("ibuf", "asan", 3000),
              j("ibuf", "plain", 5000, o_faults=1),
              j("ibuf", "plain", 300, o_long=1),
              j("ibuf", "rel", 300, o_long=1),
              j("ibuf", "san", 60, o_long=1),
              j("giant", "rel", 4000, o_only=5)],
        require={"ibuf_grown_megabytes": 20, "ibuf_grown_large": 500,
                 "ibuf_moved_megabytes": 20, "giant_block": 1000,
                 "ibuf_alloc": 10000, "ibuf_reserve": 10000,
                 "ibuf_moved": 1000, "ibuf_grown": 1000, "ibuf_shrunk": 1000,
                 "ibuf_null": 100}),
    "C14": dict(
        rule=MODEL_RULE,
        jobs=[j("obuf", "plain", 12000), j("obuf", "rel", 12000),
              j("obuf", "san", 5000), j("obuf", "asan", 4000),
              j("obuf", "plain", 5000, o_faults=1),
              j("giant", "rel", 4000, o_only=6)],
        require={"obuf_deep_rollback": 20, "giant_block": 1000,
                 "obuf_alloc": 10000, "obuf_dup": 10000, "obuf_reserve": 10000,
                 "obuf_alloc_reserved": 1000, "obuf_rollback": 1000,
                 "obuf_reset": 1000, "obuf_svp_to_ptr": 1000,
                 "obuf_dup_many_vectors": 1000, "obuf_dup_partial": 10,
                 "obuf_all_vectors": 1, "obuf_vectors_grow": 5,
                 "obuf_null": 100}),
    "C15": dict(
        rule="a case is one or two arenas of random flags, slab size, quota "
             "and preallocation, from which slabs are taken and returned, "
             "with what the kernel reports of each mapping compared at "
             "random points; non-trivial if more than two slabs were mapped "
             "or held; distinct by the sequence of counts",
        jobs=[j("mapping", "plain", 3000), j("mapping", "rel", 3000),
              j("mapping", "san", 500)],
        require={"map_checked": 5000, "map_new": 1000, "map_prealloc": 1000,
                 "map_reused": 1000, "map_create_dontdump": 1000,
                 "map_create_old_flags": 500, "map_null": 1000,
                 "map_child_seen": 100, "map_child_not_seen": 100,
                 "map_mprotect": 100, "map_write_refused": 50,
                 "map_advice_refused": 50, "map_test_refused": 50}),
    "C16": dict(
        rule=MODEL_RULE,
        jobs=[j("matras", "plain", 8000), j("matras", "rel", 8000),
              j("matras", "san", 3000), j("matras", "plain", 800, o_big=1),
              j("matras", "san", 400, o_big=1)],
        require={"matras_alloc": 100000, "matras_alloc_range": 1000,
                 "matras_dealloc": 10000, "matras_full": 10,
                 "matras_reset": 100, "matras_big": 10,
                 "matras_all_identifiers": 1}),
    "C17": dict(
        rule=MODEL_RULE + "; or one owner and up to three threads that read "
             "views of it for a while",
        jobs=[j("matras", "plain", 8000), j("matras", "rel", 8000),
              j("matras", "san", 3000),
              j("matras", "plain", 5000, o_threads=1),
              j("matras", "tsan", 120, o_threads=1, o_noget=1, thorough=1000)],
        require={"matras_view": 1000, "matras_view_closed": 1000,
                 "matras_view_empty": 10, "matras_copied": 10000,
                 "matras_not_copied": 1000, "matras_alloc_with_view": 1000,
                 "matras_dealloc_with_view": 1000,
                 "matras_write_untouched": 1000,
                 "matras_thread_reads": 10000, "matras_view_to_thread": 100}),
    "C18": dict(
        rule=MODEL_RULE,
        jobs=[j("matras", "plain", 8000, o_faults=1),
              j("matras", "rel", 8000, o_faults=1),
              j("matras", "san", 3000, o_faults=1),
              j("matras", "plain", 4000), j("matras", "san", 1500),
              j("matras", "plain", 1000, o_dealloc_fault=1)],
        require={"matras_touch_fault": 1000, "matras_alloc_fault": 1000,
                 "matras_reserve_fault": 100, "matras_recovered": 1000,
                 "matras_clean": 1000, "matras_view_closed": 1000,
                 "matras_dealloc_reserved": 100,
                 "matras_reserved_touches": 100, "matras_reset": 100}),
    "C19": dict(
        rule="a case is one history of a thread, or of up to eight threads at "
             "once, checked against the allocations since the buffer was last "
             "started over; distinct by the final state reached",
        jobs=[j("static", "plain", 24000), j("static", "rel", 24000),
              j("static", "san", 8000), j("static", "plain", 4000, o_threads=1),
              j("static", "tsan", 2000, o_threads=1),
              j("static", "vg", 80)],
        require={"static_alloc": 100000, "static_aligned": 10000,
                 "static_recycled": 1000, "static_null": 1000,
                 "static_reset": 1000, "static_reserve": 10000,
                 "static_threads": 1000}),
    "C20": dict(
        rule=RB_RULE,
        jobs=[j(h, c, n) for h in RB for c, n in
              (("plain", 12000), ("rel", 12000), ("san", 5000),
               ("vg", 60))],
        require={"rb_insert": 1000000, "rb_remove": 1000000,
                 "rb_walk": 1000000, "rb_neighbours": 1000000,
                 "rb_search": 1000000, "rb_search_hit": 100000,
                 "rb_emptied": 10000, "rb_higher_than_24": 20}),
    "C21": dict(
        rule=RB_RULE,
        jobs=[j(h, c, n) for h in RB for c, n in
              (("plain", 12000), ("rel", 12000), ("san", 5000),
               ("vg", 60))],
        require={"rb_iterator": 1000000, "rb_iterator_end": 1000000,
                 "rb_iterator_many_matches": 10000, "rb_many_matches": 10000,
                 "rb_iter": 100000, "rb_walk_directed": 100000}),
    "C22": dict(
        rule="a case is one history of operations on several lists and "
             "stacks, compared with arrays after every operation; distinct "
             "by the final contents",
        jobs=[j("lists", "plain", 100000), j("lists", "rel", 100000),
              j("lists", "san", 40000), j("lists", "vg", 200)],
        require={"list_" + n: 1000 for n in (
            "add", "del", "shift", "shift_tail", "move", "splice", "swap",
            "cut", "cut_into_stale", "filter")} | {
            "lifo_push": 1000, "lifo_pop": 1000, "lifo_pop_empty": 100}),
    "C23": dict(
        rule="a case is a batch of arguments, at and around powers of two and "
             "random, evaluated against the definition; distinct by the "
             "batch",
        jobs=[j("umath", "plain", 4000), j("umath", "rel", 4000),
              j("umath", "san", 2000)],
        require={"util_align": 100000, "util_lb": 100000,
                 "util_round": 100000, "util_border": 10000}),
    "C24": dict(
        rule=MODEL_RULE + "; here with looks at the shadow memory after "
             "every operation, and with deliberate misuse",
        jobs=[j(h, "asan", n, o_poison=1) for h, n in (
            ("slab", 2000), ("pool", 6000), ("small", 4000),
            ("region", 6000), ("lsregion", 5000), ("ibuf", 3000),
            ("obuf", 5000))] +
             [j(h, "asanrel", n, o_poison=1) for h, n in (
            ("slab", 500), ("pool", 2000), ("small", 1500),
            ("region", 2000), ("lsregion", 1500), ("ibuf", 1000),
            ("obuf", 1500))] +
             [j("misuse", "asan", 40000), j("misuse", "asanrel", 20000)],
        require={"probe_live": 1000000, "probe_dead": 1000000,
                 "misuse_reported": 10000, "correct_use_quiet": 10000,
                 "misuse_magic": 1000, "misuse_wrong_pool": 1000,
                 "misuse_aborts": 50, "correct_use_goes_on": 10,
                 "misuse_wrong_allocator": 1000, "misuse_wrong_size": 1000,
                 "misuse_wrong_cache": 1000, "misuse_wrong_arena": 1000,
                 "misuse_wrong_thread": 100}),
    "C25": dict(
        rule=MODEL_RULE,
        jobs=[j(h, "asan", n) for h, n in (
            ("slab", 2000), ("pool", 8000), ("small", 6000),
            ("region", 8000), ("lsregion", 6000), ("ibuf", 3000),
            ("obuf", 6000), ("mix", 2000))] +
             [j(h, "asanrel", n) for h, n in (
            ("slab", 500), ("pool", 3000), ("small", 2000),
            ("region", 3000), ("lsregion", 2000), ("ibuf", 1000),
            ("obuf", 2000), ("mix", 700))],
        require={"pool_alloc": 10000, "small_alloc": 10000,
                 "region_alloc": 10000, "region_truncate": 1000,
                 "region_join_copy": 100, "lsregion_alloc": 10000,
                 "lsregion_dump": 1000, "lsregion_collected": 1000,
                 "ibuf_alloc": 1000, "obuf_alloc": 1000, "obuf_dup": 1000,
                 "obuf_rollback": 100, "slab_get": 1000, "mix_alloc": 1000,
                 "env_clean": 10000}),
    "C26": dict(
        rule=MODEL_RULE + "; here with failures injected into malloc and "
             "mmap",
        jobs=[j(h, c, n, o_faults=1) for h, n in (
            ("slab", 6000), ("pool", 5000), ("small", 4000),
            ("region", 6000), ("lsregion", 6000), ("ibuf", 4000),
            ("obuf", 5000), ("mix", 2500))
            for c, n in (("plain", n), ("san", n // 4))],
        require={"slab_get_fault": 100, "pool_fault": 100, "small_fault": 100,
                 "region_fault": 100, "lsregion_fault": 100,
                 "ibuf_fault": 100, "obuf_fault": 100, "mix_fault": 100,
                 "region_recovered": 100, "lsregion_recovered": 100,
                 "ibuf_recovered": 100, "obuf_recovered": 100,
                 "pool_recovered": 100, "small_recovered": 100,
                 "slab_recovered": 100}),
    "C27": dict(
        rule=MODEL_RULE + "; here with sizes up to the largest representable",
        jobs=[j(h, c, n, o_huge=1) for h, n in (
            ("slab", 5000), ("small", 4000), ("region", 6000),
            ("lsregion", 6000), ("ibuf", 4000), ("obuf", 4000),
            ("static", 6000))
            for c, n in (("plain", n), ("rel", n), ("san", n // 4))] +
            [j("giant", "rel", 8000)],
        require={"giant_above_4g": 1000,
                 "slab_get_too_large": 100, "small_too_large": 100,
                 "region_too_large": 100, "lsregion_too_large": 100,
                 "ibuf_too_large": 100, "obuf_too_large": 100,
                 "static_too_large": 100, "region_above_4g": 1}),
    "C30": dict(
        rule=MODEL_RULE,
        jobs=[j("mix", "plain", 10000), j("mix", "rel", 10000),
              j("mix", "san", 3000), j("mix", "plain", 4000, o_faults=1)],
        require={"mix_alloc": 1000000, "mix_free": 1000000,
                 "mix_limit_check": 1000000, "mix_null": 10000,
                 "mix_large": 10000, "mix_create": 10000, "env_clean": 1000,
                 "mix_fault": 1000}),
    "C31": dict(
        rule="a case is two to four real threads, each with a history of "
             "twenty to six hundred operations on allocators of its own, all "
             "on one arena and quota; distinct by how many operations of each "
             "kind took place and messages passed between threads",
        jobs=[j("threads", "plain", 8000), j("threads", "rel", 8000),
              j("threads", "san", 4000), j("threads", "asan", 2000),
              j("threads", "tsan", 3000)],
        require={"threads_small": 10000, "threads_pool": 10000,
                 "threads_region": 10000, "threads_lsregion": 10000,
                 "threads_ibuf": 10000, "threads_obuf": 10000,
                 "threads_slab": 10000, "threads_arena": 10000,
                 "threads_quota": 10000, "threads_matras": 10000,
                 "threads_static": 10000, "threads_message": 10000,
                 "threads_limit": 1000, "threads_cache": 1000,
                 "threads_refused": 10000, "threads_passed": 10000,
                 "threads_injected": 1000,
                 "threads_cache_taken_over": 1000}),
    "C32": dict(
        rule=MODEL_RULE + ", here under Valgrind, which is asked about every "
             "byte; or one of the histories of the other properties, which "
             "must not make it report anything",
        jobs=[j("vg", "vg", 320, thorough=6400)] +
             [j(h, "vg", n, thorough=n * 20) for h, n in
              (("pool", 100), ("small", 100), ("region", 100), ("slab", 100),
               ("ibuf", 60), ("obuf", 60), ("lsregion", 100), ("mix", 60),
               ("matras", 60))],
        require={"vg_live": 10000, "vg_undefined": 10000, "vg_dead": 10000,
                 "vg_dead_later": 1000, "vg_quiet": 10000, "vg_known": 1000, "vg_freed": 1000,
                 "vg_tour": 1000, "vg_misuse": 100, "vg_region_free": 100,
                 "vg_region_cut": 100, "vg_ls_gc": 100,
                 "vg_ibuf_reinit": 50, "vg_obuf_destroy": 50}),
}

# How much of the time a quick check may take is used.
for _p, _f in dict(C01=6, C02=5, C03=2, C04=4, C05=2, C06=2, C07=2, C08=3,
                   C09=2, C10=2, C11=2, C12=1.5, C13=2, C14=2, C15=2, C19=2,
                   C22=4, C23=3, C26=1.5, C27=2, C30=2).items():
    PROPS[_p]["factor"] = _f
