"""What each check builds and runs."""

W = ["-Wl,--wrap=mmap,--wrap=munmap,--wrap=madvise"]


def tree(scn, typ, prof, nq, nops=1500, nt=None, extra=()):
    d = [f"-DTREE_T={typ}", f'-DSCN="{scn}"', f"-DPROF={prof}", f"-DNQ={nq}", f"-DNOPS={nops}"]
    if nt:
        d.append(f"-DNT={nt}")
    return ("bt_case.cpp", d + list(extra))


STR = "std::string"
ENGINE_RULE = (
    "Each case is a random history (1500-3000 operations; phases of growth and shrinkage; random, "
    "ascending, descending, zigzag, hot-window, both-ends and strided keys; universes of 40..10^6 keys "
    "including the type's extreme values) applied to real trees and to std::map; every result, every "
    "returned iterator (with neighbours), size(), and full audits are compared. "
    "distinct_nontrivial counts distinct (operation, net node allocation change, log2 size) events seen "
    "at the allocator boundary, i.e. distinct ways in which an operation changed the tree's structure.")
ENGINE_REQ = ["ops", "lookups", "audits", "node_growth_events", "node_shrink_events", "insert_new", "erased"]
ENGINE_ASSUME = ["std::map of libstdc++ is a correct reference",
                 "comparators are strict weak orders; keys are not NaN",
                 "node sizes are at least 8 (enforced by the library)"]

CHECKS = {}
NOT_APPLICABLE = {}
NOTE = ("Held on the executions explored, as counted in the evidence file; nothing is claimed for paths the workload "
        "does not drive. Trusts the monitors in harness/, the compilers' sanitizers and libstdc++. ")


def engine_check(pid, prof, nq, san, avx, nops=1500, req=()):
    CHECKS[pid] = dict(
        level="exploration", rule=ENGINE_RULE, technique="model-based runtime monitor (std::map oracle) under ASan+UBSan",
        note=NOTE, assumptions=ENGINE_ASSUME,
        required=ENGINE_REQ + list(req),
        exes=[dict(name="san", cfg="san", shards=8,
                   srcs=[tree(s, t, prof, nq, nops) for s, t in san]),
              dict(name="avx", cfg="sanavx", shards=8,
                   srcs=[tree(s, t, prof, nq, nops) for s, t in avx])])


def big(scn, typ, n, nq):
    return ("bt_big.cpp", [f"-DTREE_T={typ}", f'-DSCN="{scn}"', f"-DNQ={nq}", f"-DBIG={n}"])


I64 = "int64_t"
L, B, S = "SearchMode::Linear", "SearchMode::Binary", "SearchMode::SIMD"


def mt(k, v, leaf, inner, cmp=None, mode=L):
    return f"MTree<{k},{v},{leaf},{inner},{cmp or f'std::less<{k}>'},{mode}>"


DEF = "fc::default_leaf_node_size<{0},{1}>(),fc::default_internal_node_size<{0}>()"


def mtdef(k, v, cmp=None, mode=L):
    return f"MTree<{k},{v},{DEF.format(k, v)},{cmp or f'std::less<{k}>'},{mode}>"


engine_check("C01", "p_mixed", 220,
             san=[("i64_8_8", mt(I64, I64, 8, 8)),
                  ("str_16_9_bin", mt(STR, STR, 16, 9, mode=B)),
                  ("pkey_8_8", mt("PKey", "uint32_t", 8, 8, "PKeyLess")),
                  ("coarse_10_8_bin", mt("int32_t", "uint64_t", 10, 8, "Coarse<int32_t>", B)),
                  ("ci_9_8", mt("CIString", STR, 9, 8, "CILess")),
                  ("sci_8_9", mt(STR, STR, 8, 9, "SCI")),
                  ("i64_odd_9_9", mt(I64, "Odd", 9, 9)),
                  ("u16_tiny_10_8", mt("uint16_t", "Tiny3", 10, 8, mode=B))],
             avx=[("u8_al64_8_8_simd", mt("uint8_t", "Al64", 8, 8, mode=S)),
                  ("i32_9_11_simd", mt("int32_t", "Part", 9, 11, mode=S)),
                  ("u64_8_10_desc_simd", mt("uint64_t", "Big", 8, 10, "std::greater<uint64_t>", S)),
                  ("dbl_default_simd", mtdef("double", I64, mode=S))])
CHECKS["C01"]["exes"].append(dict(name="big", cfg="rel", shards=8, srcs=[
    big("big_i64_8_8", mt(I64, I64, 8, 8), 150000, 8),
    big("big_i32_300_300_simd", mt("int32_t", "uint32_t", 300, 300, mode=S), 200000, 4),
    big("big_u64_1000_9_bin", mt("uint64_t", I64, 1000, 9, "std::greater<uint64_t>", B), 150000, 4),
    big("big_str_9_8_bin", mt(STR, I64, 9, 8, mode=B), 80000, 4)]))
CHECKS["C01"]["required"].append("big_cases")
engine_check("C02", "p_lookup", 80,
             san=[("i64_8_9", mt(I64, I64, 8, 9)),
                  ("u32_20_24_bin", mt("uint32_t", STR, 20, 24, mode=B)),
                  ("coarse_8_9", mt("int32_t", I64, 8, 9, "Coarse<int32_t>")),
                  ("sci_9_8_bin", mt(STR, "uint32_t", 9, 8, "SCI", B)),
                  ("str_8_8_lin", mt(STR, "uint32_t", 8, 8)),
                  ("okey_12_10_bin", mt("OKey", "Big", 12, 10, mode=B))],
             avx=[("u32_8_8_simd", mt("uint32_t", I64, 8, 8, mode=S)),
                  ("i64_13_17_simd", mt(I64, "uint32_t", 13, 17, mode=S)),
                  ("flt_24_8_desc_simd", mt("float", "uint64_t", 24, 8, "std::greater<float>", S)),
                  ("u64_default_simd", mtdef("uint64_t", I64, mode=S))],
             req=["full_probes"])
engine_check("C03", "p_iterate", 150,
             san=[("i64_8_8", mt(I64, I64, 8, 8)),
                  ("str_9_8_bin", mt(STR, STR, 9, 8, mode=B)),
                  ("i16_32_12", mt("int16_t", "Big", 32, 12)),
                  ("u64_desc_11_8_bin", mt("uint64_t", "uint32_t", 11, 8, "std::greater<uint64_t>", B))],
             avx=[("i32_8_9_simd", mt("int32_t", "uint64_t", 8, 9, mode=S)),
                  ("dbl_10_16_simd", mt("double", STR, 10, 16, mode=S)),
                  ("i64_default_simd", mtdef(I64, I64, mode=S))],
             req=["iterated"])
engine_check("C04", "p_erase", 220,
             san=[("i64_8_8", mt(I64, I64, 8, 8)),
                  ("str_10_9_bin", mt(STR, STR, 10, 9, mode=B)),
                  ("pkey_9_12", mt("PKey", "Big", 9, 12, "PKeyLess")),
                  ("coarse_8_8", mt("int32_t", "Part", 8, 8, "Coarse<int32_t>")),
                  ("sci_8_8_bin", mt(STR, "uint32_t", 8, 8, "SCI", B)),
                  ("u64_16_11_bin", mt("uint64_t", "uint32_t", 16, 11, mode=B))],
             avx=[("i32_8_8_simd", mt("int32_t", "uint64_t", 8, 8, mode=S)),
                  ("u64_12_9_desc_simd", mt("uint64_t", "Big", 12, 9, "std::greater<uint64_t>", S)),
                  ("flt_default_simd", mtdef("float", I64, mode=S))],
             req=["erased_by_range", "erase_absent"])
engine_check("C05", "p_insert", 200,
             san=[("i64_8_8", mt(I64, I64, 8, 8)),
                  ("str_9_9_bin", mt(STR, STR, 9, 9, mode=B)),
                  ("pkey_8_10_bin", mt("PKey", STR, 8, 10, "PKeyLess", B)),
                  ("ci_10_8_bin", mt("CIString", "uint64_t", 10, 8, "CILess", B)),
                  ("coarse_16_8", mt("int32_t", "Part", 16, 8, "Coarse<int32_t>")),
                  ("sci_9_10", mt(STR, "uint64_t", 9, 10, "SCI"))],
             avx=[("i32_8_8_desc_simd", mt("int32_t", STR, 8, 8, "std::greater<int32_t>", S)),
                  ("dbl_11_8_simd", mt("double", "Part", 11, 8, mode=S)),
                  ("u64_default_simd", mtdef("uint64_t", "Big", mode=S))],
             req=["insert_existing"])
engine_check("C06", "p_whole", 100,
             san=[("i64_8_8", mt(I64, I64, 8, 8)),
                  ("str_9_8_bin", mt(STR, STR, 9, 8, mode=B)),
                  ("pkey_16_16", mt("PKey", "Part", 16, 16, "PKeyLess")),
                  ("coarse_9_8", mt("int32_t", STR, 9, 8, "Coarse<int32_t>")),
                  ("i64_10_9_noprop", "MTree<int64_t,std::string,10,9,std::less<int64_t>,SearchMode::Binary,NoProp>")],
             avx=[("i32_8_8_simd", mt("int32_t", STR, 8, 8, mode=S)),
                  ("u64_default_simd", mtdef("uint64_t", I64, mode=S))],
             req=["whole_container_ops"])


def c07(scn, traits, k, v, leaf, inner, extra=()):
    return ("c07.cpp", [*extra, f"-DTRAITS={traits}", f'-DSCN="{scn}"', f"-DTKEY={k}", f"-DTVAL={v}",
                        f"-DTLEAF={leaf}", f"-DTINNER={inner}", "-DNQ=500"])


# nodes of more than 1000 entries
for _id, _prof in (("C01", "p_mixed"), ("C02", "p_lookup"), ("C03", "p_iterate"), ("C04", "p_erase"), ("C05", "p_insert"), ("C06", "p_whole")):
    CHECKS[_id]["exes"].append(dict(name="wide", cfg="rel", shards=8, srcs=[
        tree("i64_1200_9_bin", mt(I64, I64, 1200, 9, mode=B), _prof, 24, 4000, extra=["-DWIDE"]),
        tree("u32_1030_12_desc_simd", mt("uint32_t", "uint32_t", 1030, 12, "std::greater<uint32_t>", S), _prof, 24, 4000, extra=["-DWIDE"])]))
    CHECKS[_id]["required"] = CHECKS[_id]["required"] + ["wide_cases"]


CHECKS["C07"] = dict(
    level="exploration", technique="allocator-boundary ledger monitor under ASan+UBSan", note=NOTE,
    rule="Each case is a random history of 250 whole-container and element operations over 5 trees on 3 distinct "
         "monitoring allocators, one scenario per combination of the propagation traits; a quarter of the copies and range constructions have an allocation fail midway; the ledger checks every "
         "allocate/deallocate (identity, size, type, once), which allocator each operation touched, and that each "
         "allocator's live blocks are explained by the trees on it. distinct_nontrivial counts distinct (allocator, number of "
         "trees, live blocks) observations.",
    assumptions=["swap of trees with unequal non-propagating allocators is excluded (undefined by the allocator requirements)",
                 "allocator copies compare equal and free each other's blocks"],
    required=["blocks_accounted", "move_assignments", "swaps", "copy_assignments", "destructions",
              "copy_constructions", "move_constructions", "copies_selecting_allocator", "failed_operations"],
    exes=[dict(name="san", cfg="san", shards=8, srcs=[
        c07("none", "false,false,false", "int64_t", "std::string", 8, 8),
        c07("all", "true,true,true", "int64_t", "uint32_t", 9, 8),
        c07("move", "false,true,false", "int32_t", "std::string", 8, 10),
        c07("swap", "false,false,true", "int64_t", "Big", 8, 8),
        c07("movswap", "false,true,true", "std::string", "std::string", 10, 8),
        c07("copy", "true,false,false", "uint64_t", "uint32_t", 8, 8),
        c07("copymove", "true,true,false", "int64_t", "std::string", 12, 9),
        c07("none_select", "false,false,false", "int64_t", "std::string", 8, 8, ["-DSELECT_ON_COPY"]),
        c07("all_select", "true,true,true", "int64_t", "uint32_t", 10, 8, ["-DSELECT_ON_COPY"]),
        c07("copyswap", "true,false,true", "double", "uint64_t", 8, 8)])])

CHECKS["C08"] = dict(
    level="exploration", technique="differential runtime monitor: one history on many configurations, ASan+UBSan", note=NOTE,
    rule="Each case is a random history over key indices applied to a std::map reference and to a random subset of 43 tree "
         "configurations (all SIMD key types in both directions, odd and even node sizes 8..2000, 255..257 included, three search modes, strings and "
         "composite keys), built without and with AVX2 under sanitizers and once as in a release (-O3, -march=haswell); every result is compared. distinct_nontrivial counts distinct "
         "container contents at which full digests of all configurations were compared.",
    assumptions=["std::map of libstdc++ is a correct reference", "node sizes are at least 8 (enforced by the library)"],
    required=["results_compared", "histories", "shapes"],
    exes=[dict(name="scalar", cfg="san", shards=8,
               srcs=[("c08_cfg.cpp", [f"-DGROUP={g}"]) for g in (0, 5, 6, 7, 8)] + ["c08_main.cpp"]),
          dict(name="avx", cfg="sanavx", shards=8,
               srcs=[("c08_cfg.cpp", [f"-DGROUP={g}"]) for g in (0, 1, 2, 3, 4, 7, 8)] + ["c08_main.cpp"]),
          dict(name="release", cfg="relhw", shards=8,
               srcs=[("c08_cfg.cpp", [f"-DGROUP={g}"]) for g in (0, 3)] + ["c08_main.cpp"])])


def c09(scn, key, leaf, inner, mode, nq):
    return ("c09.cpp", [f'-DSCN="{scn}"', f"-DTKEY={key}", f"-DTLEAF={leaf}", f"-DTINNER={inner}",
                        f"-DTMODE={mode}", f"-DNQ={nq}"])


CHECKS["C09"] = dict(
    level="exploration", technique="cost monitors (counting comparator, allocator ledger) on adversarial shapes", note=NOTE,
    rule="Each case builds a tree in one of five orders, thins it adversarially (keep every k-th, from either end, ranges, "
         "random, middle-out), slides a window, inserts and erases the same keys repeatedly and empties it; the comparisons of "
         "every operation and the live nodes are compared with bounds derived from the documented quarter-full occupancy. "
         "distinct_nontrivial counts distinct (elements, live nodes) observations.",
    assumptions=["bounds allow a constant factor over the documented cost; a degradation within that factor is not reported"],
    required=["fills_beside_full", "operations_costed", "comparisons", "node_counts_checked", "internal_counts_checked", "iterations_costed", "emptied"],
    exes=[dict(name="san", cfg="san", shards=8, srcs=[
        c09("bin_64_32", "int64_t", 64, 32, "Binary", 110), c09("bin_8_8", "int64_t", 8, 8, "Binary", 110),
        c09("lin_16_16", "int32_t", 16, 16, "Linear", 110), c09("bin_10_64", "double", 10, 64, "Binary", 110),
        c09("str_32_9", "std::string", 32, 9, "Binary", 50), c09("lin_9_11", "uint64_t", 9, 11, "Linear", 110),
        c09("bin_128_12", "uint32_t", 128, 12, "Binary", 110)])])


def c10(scn, key, leaf, inner, mode, nq):
    return ("c10.cpp", [f'-DSCN="{scn}"', f"-DTKEY={key}", f"-DTLEAF={leaf}", f"-DTINNER={inner}",
                        f"-DTMODE={mode}", f"-DNQ={nq}"])


CHECKS["C10"] = dict(
    level="fault_enumeration", technique="fault injection at every allocation and value construction, contents monitor, ASan+UBSan",
    note=NOTE,
    rule="Each case builds a tree (or dense_map) and runs 40 (120) operations; each operation is repeated with its k-th node "
         "allocation or k-th value construction/copy failing, k = 0, 1, 2, ..., until it completes, with a full comparison of "
         "contents, live values and live nodes after every failure. distinct_nontrivial counts distinct (operation, failing "
         "point, size) triples at which a failure was injected.",
    assumptions=["key copies and moves of keys and values do not throw",
                 "the noexcept operations (move construction and assignment) are excluded: they terminate when allocation fails"],
    required=["allocation_failures", "value_failures", "storm_failures", "copy_failures", "clear_failures", "assign_failures", "dense_failures",
              "operations_completed"],
    exes=[dict(name="san", cfg="san", shards=8, srcs=[
        c10("i64_8_8", "int64_t", 8, 8, "Binary", 200), c10("str_9_8", "std::string", 9, 8, "Linear", 200),
        c10("i32_8_12", "int32_t", 8, 12, "Linear", 200), c10("u64_16_8", "uint64_t", 16, 8, "Binary", 200)]),
          dict(name="avx", cfg="sanavx", shards=8, srcs=[
              c10("i32_8_8_simd", "int32_t", 8, 8, "SIMD", 200), c10("dbl_11_9_simd", "double", 11, 9, "SIMD", 200)])])


def c11(scn, key, leaf, inner, mode, nq, cmp=None):
    return ("c11.cpp", [f'-DSCN="{scn}"', f"-DTKEY={key}", f"-DTLEAF={leaf}", f"-DTINNER={inner}",
                        f"-DTMODE={mode}", f"-DNQ={nq}", f"-DTCMP={cmp or f'std::less<{key}>'}"])


CHECKS["C11"] = dict(
    level="exploration", technique="model-based runtime monitor with arguments referring into the container, ASan+UBSan", note=NOTE,
    rule="Each case is a random history in which key and value arguments are references to keys and values of elements of the same "
         "container, mostly in the node the operation will change; the model receives copies taken before the call. "
         "distinct_nontrivial counts distinct (operation, key existed, size) observations.",
    assumptions=["references are valid when passed; values moved from by the caller (rvalue references into the container) are excluded"],
    required=["aliased_insertions", "aliased_existing", "aliased_erasures", "dense_aliased_insertions"],
    exes=[dict(name="san", cfg="san", shards=8, srcs=[
        c11("i64_8_8", "int64_t", 8, 8, "Binary", 160), c11("str_9_8", "std::string", 9, 8, "Linear", 160),
        c11("pkey_8_9", "PKey", 8, 9, "Binary", 160, "PKeyLess")]),
          dict(name="avx", cfg="sanavx", shards=8, srcs=[
              c11("i32_8_8_simd", "int32_t", 8, 8, "SIMD", 160),
              c11("u64_10_9_simd_desc", "uint64_t", 10, 9, "SIMD", 160, "std::greater<uint64_t>")])])


def c12(scn, key, leaf, inner, mode, nq):
    return ("c12.cpp", [f'-DSCN="{scn}"', f"-DTKEY={key}", f"-DTLEAF={leaf}", f"-DTINNER={inner}",
                        f"-DTMODE={mode}", f"-DNQ={nq}"])


CHECKS["C12"] = dict(
    level="exploration", technique="instrumented value type (liveness and resource tokens) + ASan/LSan", note=NOTE,
    rule="Each case is a random history on three btrees (or dense_maps) of an instrumented value type that owns one heap token per "
         "value; after every operation the live tokens must equal the elements the containers hold, every construction, assignment, "
         "read and destruction checks that its object is alive, and at the end nothing is left; a sixth of the insertions have a construction or copy fail. Built with a value type whose move "
         "assignment releases the old value and with one whose move assignment swaps. distinct_nontrivial counts distinct "
         "(operation, size, live nodes) observations.",
    assumptions=["release by the end of the call is required of value types with a non-throwing move constructor",
                 "dense_map move assignment of swapping value types may leave old values in the source (as for std::vector)"],
    required=["release_checks", "erased", "whole_container_ops", "values_replaced_or_kept", "dense_ops", "failed_operations", "weak_observed_releases"],
    exes=[dict(name="san", cfg="san", shards=8, srcs=[
        c12("i64_8_8", "int64_t", 8, 8, "Binary", 250), c12("str_9_8", "std::string", 9, 8, "Linear", 250),
        c12("u32_16_10", "uint32_t", 16, 10, "Binary", 250)]),
          dict(name="maythrow", cfg="san", shards=8, cflags=["-DTVAL_ASSIGN_MAY_THROW"], srcs=[
              c12("i64_8_9_maythrow", "int64_t", 8, 9, "Binary", 200)]),
          dict(name="swap", cfg="sanavx", shards=8, cflags=["-DTVAL_SWAP_ASSIGN"], srcs=[
              c12("i32_8_8_swap", "int32_t", 8, 8, "SIMD", 250), c12("u64_11_9_swap", "uint64_t", 11, 9, "Binary", 250)])])


POOL_RULE = (
    "Each case drives 1-4 pools with 500-700 random requests (1-7 block sizes 8..150000 plus random and oversized ones, alignments 1..32768, "
    "hugepage and regular regions, LIFO/FIFO/random frees, pools created and destroyed in between), over a simulated "
    "page allocator that records every mapping, guards both ends, refuses mappings according to a fault plan and makes "
    "unmapped memory inaccessible. distinct_nontrivial counts distinct (size, alignment, new/reused/grown, page offset) placements observed.")


def pool_check(pid, mon, nq, tech, level, req, exes=("san", "sanstats")):
    CHECKS[pid] = dict(
        level=level, technique=tech, note=NOTE + "Hugepages are simulated at the mmap boundary (none are available in the sandbox). ",
        rule=POOL_RULE,
        assumptions=["block sizes are at least sizeof(void*) (documented)", "pools are used by one thread at a time (documented)",
                     "the initial size is not zero"],
        required=["allocations", "deallocations", "growths", "stats_checks", "many_block_cases", "giant_cases"] + list(req),
        exes=[dict(name=e, cfg=e, shards=8, ldflags=W, srcs=[("pool.cpp", [f"-DMON={mon}", f"-DNQ={nq}"]), "memwrap.cpp"]) for e in exes])


pool_check("C19", 19, 3000, "shadow map of blocks in use + guard pages + content stamps, ASan+UBSan", "exploration",
           ["blocks_verified", "impossible_requests", "oversized_requests"])
CHECKS["C19"]["exes"].append(dict(name="alloc", cfg="san", shards=8, ldflags=W, srcs=["c19_alloc.cpp", "memwrap.cpp"]))
CHECKS["C19"]["required"] += ["array_blocks", "refused", "zero_requests", "blocks"]
CHECKS["C19"]["rule"] += " The allocators' own requests (single objects, arrays, zero and unrepresentable counts) are monitored the same way."
pool_check("C20", 20, 3000, "shadow map of freed blocks and mappings, quarantined munmap", "exploration",
           ["reused_blocks", "regions_released", "steady_operations", "ownership_cases"])
CHECKS["C20"]["exes"].append(dict(name="above", cfg="san", shards=8, ldflags=W, srcs=[("c20_alloc.cpp", ["-DNQ=300"]), "memwrap.cpp"]))
CHECKS["C20"]["required"] += ["class_cases", "steady_rounds"]
CHECKS["C20"]["rule"] += (" Above the single pool: freed blocks of a size class must serve its next requests, and trees and lists on each allocator "
                          "repeat one history from empty without needing more memory than its first run.")
pool_check("C21", 21, 4000, "fault injection at mmap (regular and hugepage) and operator new", "fault_enumeration",
           ["failed_requests", "failed_constructions", "fallback_at_construction", "fallback_at_growth", "recovered_after_failure",
            "failed_by_bookkeeping"])
CHECKS["C21"]["exes"].append(dict(name="above", cfg="san", shards=8, ldflags=W, srcs=[("c21_alloc.cpp", ["-DNQ=400"]), "memwrap.cpp"]))
CHECKS["C21"]["required"] += ["half_built_pairs", "rebound", "factories", "tree_failures", "erasures_without_memory"]
CHECKS["C21"]["rule"] += (" The multi-size pool, the allocators, the two-pool factory and trees on each allocator are put through page failures the "
                          "same way: a call may fail only if mapping regular pages (or its own bookkeeping) failed, leaves no mapping behind, and "
                          "succeeds once memory is back.")
pool_check("C22", 22, 3000, "reference counters kept from the history of successful calls", "exploration",
           ["failed_requests", "impossible_requests"])
for e in ("san", "sanstats"):
    CHECKS["C22"]["exes"].append(dict(name="alloc_" + e, cfg=e, shards=8, ldflags=W, srcs=[("c22_alloc.cpp", ["-DNQ=160"]), "memwrap.cpp"]))
CHECKS["C22"]["required"] += ["rebound", "refused", "class_cases", "tree_cases"]
CHECKS["C22"]["rule"] += (" The statistics shown by allocators (copies: of the shared pool; rebound: of their own), by every size class and by the "
                          "pools of trees through copies, moves, swaps and destruction are held against the same counters.")

CHECKS["C23"] = dict(
    level="exploration", technique="size-class oracle, per-class memory ownership map, container twins, ASan+UBSan",
    note=NOTE + "Hugepages are simulated at the mmap boundary. ",
    rule="The class of every size up to 72000, around every power of two and of random sizes is compared with the documented scheme; "
         "random requests on one or two multi-size pools are monitored by a map of which class used which memory; seven standard "
         "containers run random histories next to their twins with the default allocator. distinct_nontrivial counts distinct classes "
         "and (size, alignment, reuse) observations.",
    assumptions=["block sizes passed to deallocate equal those passed to allocate"],
    required=["sizes_classified", "allocations", "same_class_reuses", "failed_requests", "impossible_requests", "containers_compared",
              "container_cases"],
    exes=[dict(name="san", cfg="san", shards=8, ldflags=W, srcs=[("c23.cpp", ["-DNQ=2400"]), "memwrap.cpp"])])

CHECKS["C24"] = dict(
    level="exploration", technique="identity model of allocators and pools, shadowed mappings, ASan+UBSan",
    note=NOTE + "Hugepages are simulated at the mmap boundary. ",
    rule="Each case is a random history of copies, moves, assignments, swaps, rebinds and destructions of allocators (and of pool handles "
         "and lists using them); a model of which pool each denotes decides equality, the origin of every block, cross-freeing and "
         "whether each pool's memory must still be mapped. distinct_nontrivial counts distinct (allocators, containers, blocks, operation) "
         "situations.",
    assumptions=["blocks of one pool have one size"],
    required=["allocations", "equality_checks", "blocks_after_assignment", "freed_by_equal_allocator", "rebinds", "container_operations", "growth_sizes_checked"],
    exes=[dict(name="san", cfg="san", shards=8, ldflags=W, srcs=[("c24.cpp", ["-DNQ=1200"]), "memwrap.cpp"])])


CHECKS["C27"] = dict(
    level="exploration", technique="online monitor of every mmap call against the configuration, ASan+UBSan",
    note=NOTE + "Hugepages are simulated at the mmap boundary; first touch is observed with mincore. ",
    rule="Pools, multi-size pools, the three allocators (direct, rebound, from the factories, with default arguments) and trees are configured at random "
         "and put under random requests, boundary-biased to exactly what is left of a region, while every mmap attempt is compared with a model of when a "
         "region may be taken, with which pages and how large. distinct_nontrivial counts distinct (size, alignment, fits, growth size) situations.",
    assumptions=["a freed block of the same size and sufficient alignment counts as room", "the initial size is not zero"],
    required=["giant_worlds", "regions_checked", "requests_within", "growths", "fallbacks", "defaults", "factories", "classes", "two_pool_allocators", "hugepage_allocators",
              "trees", "default_trees"],
    exes=[dict(name="san", cfg="san", shards=8, ldflags=W, srcs=[("c27.cpp", ["-DNQ=1200"]), "memwrap.cpp"]),
          dict(name="stats", cfg="sanstats", shards=8, ldflags=W, srcs=[("c27.cpp", ["-DNQ=300"]), "memwrap.cpp"])])


def pt(src, scn, key, val, leaf, inner, mode, nq):
    return (src, [f'-DSCN="{scn}"', f"-DTKEY={key}", f"-DTVALUE={val}", f"-DTLEAF={leaf}", f"-DTINNER={inner}",
                  f"-DTMODE={mode}", f"-DNQ={nq}"])


CHECKS["C25"] = dict(
    level="exploration", technique="address-to-pool monitor over a simulated page allocator, pool counters, ASan+UBSan",
    note=NOTE + "Hugepages are simulated at the mmap boundary. ",
    rule="Each case runs 60 rounds of copies, moves, swaps, clears and interleaved element operations on four trees sharing two pools, "
         "plus blocks of plain, leaf-like and internal-like types; after every round each element's address is attributed to a pool, the leaves "
         "are counted from the addresses and compared with the pools' counters, and contents with std::map. distinct_nontrivial "
         "counts distinct (leaves, internal nodes, empty trees) situations.",
    assumptions=["std::map of libstdc++ is a correct reference"],
    required=["leaves_located", "usage_checks", "cross_tree_reuse", "other_types_placed", "other_types_freed", "element_ops", "final_usage_checks", "factories"],
    exes=[dict(name="stats", cfg="sanstats", shards=8, ldflags=W, srcs=[
        pt("c25.cpp", "i64_8_8", "int64_t", "std::string", 8, 8, "Binary", 250),
        pt("c25.cpp", "str_10_9", "std::string", "uint32_t", 10, 9, "Linear", 250),
        pt("c25.cpp", "i64_huge_16_8", "int64_t", "Blob<5000>", 16, 8, "Binary", 60), "memwrap.cpp"]),
          dict(name="plain", cfg="sanavx", shards=8, ldflags=W, srcs=[
              pt("c25.cpp", "i32_8_9_simd", "int32_t", "Big", 8, 9, "SIMD", 250), "memwrap.cpp"])])

CHECKS["C26"] = dict(
    level="exploration", technique="model-based monitor over a simulated page allocator (quarantined munmap, pool counters), ASan+UBSan",
    note=NOTE + "Hugepages are simulated at the mmap boundary. ",
    rule="Each case is a random history of 220 copies, moves, assignments, swaps, clears, destructions, page shortages and batches of element "
         "operations on up to six trees of one of the three hugepage allocators with up to several pools, the user's allocators and pool "
         "handles being dropped on the way; contents of all trees are compared with std::map after every transfer, pool usage with "
         "the trees left, and all mappings must be gone at the end. distinct_nontrivial counts distinct (operation, trees, size, mappings) situations.",
    assumptions=["std::map of libstdc++ is a correct reference", "the noexcept operations are not run while memory is unavailable"],
    required=["audits", "element_ops", "transfers", "page_failures_survived", "idle_pool_checks", "pools_released"],
    exes=[dict(name="stats", cfg="sanstats", shards=8, ldflags=W, srcs=[
        pt("c26.cpp", "i64_8_8", "int64_t", "std::string", 8, 8, "Binary", 150),
        pt("c26.cpp", "str_9_12", "std::string", "uint64_t", 9, 12, "Linear", 150), "memwrap.cpp"]),
          dict(name="plain", cfg="sanavx", shards=8, ldflags=W, srcs=[
              pt("c26.cpp", "u32_8_8_simd", "uint32_t", "Big", 8, 8, "SIMD", 150), "memwrap.cpp"])])

CHECKS["C14"] = dict(
    level="exploration", technique="oracle of the documented formula + node-capacity monitor at the allocator boundary, ASan+UBSan",
    note=NOTE,
    rule="The default sizes of ~1100 (key size, value size) pairs and 166 key sizes are compared with the documented rule computed independently; "
         "20 trees with default sizes (entries of 2 to 5008 bytes) are filled while the allocator ledger shows when the first leaf and the "
         "first internal node split, then run a random history against std::map. distinct_nontrivial counts (key size, value size) pairs.",
    assumptions=[],
    required=["leaf_sizes_checked", "internal_sizes_checked", "default_types_checked", "leaf_capacities_observed", "internal_capacities_observed",
              "default_tree_audits"],
    exes=[dict(name="san", cfg="san", shards=8, srcs=[("c14.cpp", [f"-DPART={p}", f'-DSCN="trees_{p}"']) for p in range(7)])])


def dm(src, scn, key, val, cmp, mode, caps, nq):
    return (src, [f'-DSCN="{scn}"', f"-DTKEY={key}", f"-DTVALUE={val}", f"-DTCMP={cmp}", f"-DTMODE={mode}",
                  f"-DTCAPS={caps}", f"-DNQ={nq}"])


CHECKS["C15"] = dict(
    level="exploration", technique="model-based runtime monitor (std::map oracle) under ASan+UBSan", note=NOTE,
    rule="Each case is a random history of 260-460 operations on a dense_map of one of several capacities (1..200) with keys of a universe "
         "up to four times the capacity; every result, returned iterator, size and full audits in all directions are compared with std::map "
         "limited to the capacity. distinct_nontrivial counts distinct (position, size, key existed) insertions.",
    assumptions=["std::map of libstdc++ is a correct reference", "hints and in-place key updates satisfy their documented precondition",
                 "insert, insert_hint and try_emplace of a present key into a full map may throw (as documented) or report it"],
    required=["ops", "full_rejections", "existing_on_full", "insert_new", "insert_existing", "erased", "erase_absent", "present_lookups", "absent_lookups",
              "keys_updated_in_place", "whole_map_ops", "clears", "dm_audits", "large_fills"],
    exes=[dict(name="san", cfg="san", shards=8, srcs=[
        dm("c15.cpp", "i64_lin", "int64_t", "std::string", "std::less<int64_t>", "Linear", "1,2,7,64,256,300", 1700),
        dm("c15.cpp", "i32_odd_bin", "int32_t", "Odd", "std::less<int32_t>", "Binary", "3,12,40", 900),
        dm("c15.cpp", "i32_al64_lin", "int32_t", "Al64", "std::less<int32_t>", "Linear", "3,12,40", 600),
        dm("c15.cpp", "str_bin", "std::string", "std::string", "std::less<std::string>", "Binary", "1,3,16,33", 1500),
        dm("c15.cpp", "pkey_bin", "PKey", "Big", "PKeyLess", "Binary", "2,5,20", 1500),
        dm("c15.cpp", "coarse_lin", "int32_t", "Part", "Coarse<int32_t>", "Linear", "1,9,50", 1500),
        dm("c15.cpp", "sci_lin", "std::string", "uint32_t", "SCI", "Linear", "4,17,60", 900),
        dm("c15.cpp", "ci_bin", "CIString", "uint32_t", "CILess", "Binary", "4,17,200,256,600", 1700),
        dm("c15.cpp", "moveonly", "int64_t", "MoveOnly", "std::greater<int64_t>", "Binary", "1,6,32", 1500)]),
          dict(name="avx", cfg="sanavx", shards=8, srcs=[
              dm("c15.cpp", "i32_simd", "int32_t", "std::string", "std::less<int32_t>", "SIMD", "1,8,13,64,100,256,1030", 1700),
              dm("c15.cpp", "u8_simd", "uint8_t", "uint64_t", "std::less<uint8_t>", "SIMD", "3,32,64,200", 1500),
              dm("c15.cpp", "dbl_desc_simd", "double", "Part", "std::greater<double>", "SIMD", "2,9,31", 1500),
              dm("c15.cpp", "u16_desc_simd", "uint16_t", "std::string", "std::greater<uint16_t>", "SIMD", "5,17,48,256,300", 1700)]),
          dict(name="huge", cfg="rel", shards=8, srcs=[
              dm("c15.cpp", "i32_huge_bin", "int32_t", "uint32_t", "std::less<int32_t>", "Binary", "65536,70000", 24),
              dm("c15.cpp", "u64_huge_simd", "uint64_t", "uint32_t", "std::less<uint64_t>", "SIMD", "33000,65536", 24)])])


def sm(scn, key, caps, nq):
    return ("c16.cpp", [f'-DSCN="{scn}"', f"-DTKEY={key}", f"-DTCAPS={caps}", f"-DNQ={nq}", "-DTSIMD", "-fno-lifetime-dse"])


def sc(scn, key, cmp, caps, nq):
    return ("c16.cpp", [f'-DSCN="{scn}"', f"-DTKEY={key}", f"-DTCMP={cmp}", f"-DTCAPS={caps}", f"-DNQ={nq}", "-fno-lifetime-dse"])


CHECKS["C16"] = dict(
    level="exploration", technique="linear-scan oracle over every fill level and hostile unused slots, ASan+UBSan", note=NOTE,
    rule="For every key type, direction and search mode and each of several capacities, every fill level 0..capacity is built (dense runs, runs across the "
         "sign, boundary values, random keys; ascending, descending and random insertion) over storage whose unused slots hold a chosen byte "
         "pattern, random bytes or stale entries; every entry, its neighbours, extremes and boundary values (all 256 values for 1-byte keys) are "
         "searched. distinct_nontrivial counts distinct (capacity, fill level, kind of unused contents).",
    assumptions=["floating-point keys are not NaN"],
    required=["maps_searched", "fill_levels", "present_probes", "absent_probes"],
    exes=[dict(name="avx", cfg="sanavx", shards=8, srcs=[
        sm("i8", "int8_t", "1,2,31,33,64,97,200", 24), sm("u8", "uint8_t", "3,16,32,63,65,130", 24), sm("char", "char", "7,40,128", 18),
        sm("i16", "int16_t", "1,2,15,17,33,64,100,300", 32), sm("u16", "uint16_t", "3,8,16,31,47,128", 30),
        sm("i32", "int32_t", "1,2,7,9,17,24,64,100,256,299", 40), sm("u32", "uint32_t", "3,8,12,15,16,33,128", 36),
        sm("i64", "int64_t", "1,2,5,8,17,64,100", 36), sm("u64", "uint64_t", "3,4,7,9,16,31,128,255,301", 45),
        sm("flt", "float", "1,2,7,9,16,24,65", 48), sm("dbl", "double", "1,3,4,6,13,17,64", 48)]),
          dict(name="scalar", cfg="san", shards=8, srcs=[
              sm("s_i32", "int32_t", "1,9,33", 18), sm("s_dbl", "double", "1,6,17", 18), sm("s_u8", "uint8_t", "3,33", 18),
              sc("i16", "int16_t", "std::less<int16_t>", "1,8,33,256", 36),
              sc("u64_desc", "uint64_t", "std::greater<uint64_t>", "1,7,40,256", 36),
              sc("dbl", "double", "std::less<double>", "2,5,64", 36),
              sc("coarse", "int32_t", "Coarse<int32_t>", "1,6,30,255,257", 40),
              sc("str", "std::string", "std::less<std::string>", "1,9,40", 36),
              sc("sci", "std::string", "SCI", "5,20", 36),
              sc("ci", "CIString", "CILess", "4,33", 36),
              ("c16.cpp", ['-DSCN="arr16"', "-DTKEY=std::array<uint8_t,16>", "-DTCMP=std::less<std::array<uint8_t,16>>", "-DTCAPS=1,8,50", "-DNQ=36", "-fno-lifetime-dse"]),
              ("c16.cpp", ['-DSCN="arr32"', "-DTKEY=std::array<uint8_t,32>", "-DTCMP=std::greater<std::array<uint8_t,32>>", "-DTCAPS=3,20", "-DNQ=36", "-fno-lifetime-dse"]),
              sc("okey", "OKey", "std::less<OKey>", "1,12,64", 36)])])


def tr(scn, key, val, cmp, mode, nq):
    return ("c17.cpp", [f'-DSCN="{scn}"', f"-DTKEY={key}", f"-DTVALUE={val}", f"-DTCMP={cmp}", f"-DTMODE={mode}", f"-DNQ={nq}"])


CHECKS["C17"] = dict(
    level="exploration", technique="conservation monitor over all counts and positions, instrumented values, ASan+UBSan", note=NOTE,
    rule="For five pairs of small capacities every fill level of both maps, every position and every count (including ones that do not fit) is tried; three "
         "pairs of larger capacities are sampled with boundary-biased levels and counts. After each call both maps are compared with the "
         "model in full and, in a third of the cases, put through a short random history. distinct_nontrivial counts distinct (operation, "
         "levels, count).",
    assumptions=["the documented ordering precondition of the transfers holds", "the two maps are different objects"],
    required=["moved", "rejected", "exhaustive_pairs", "later_histories", "dm_audits"],
    exes=[dict(name="san", cfg="san", shards=8, srcs=[
        tr("i64_bin", "int64_t", "std::string", "std::less<int64_t>", "Binary", 10),
        tr("i32_odd_bin", "int32_t", "Odd", "std::less<int32_t>", "Binary", 8),
        tr("i32_tiny_lin", "int32_t", "Tiny3", "std::less<int32_t>", "Linear", 8),
        tr("str_lin", "std::string", "TVal", "std::less<std::string>", "Linear", 10),
        tr("pkey_bin", "PKey", "MoveOnly", "PKeyLess", "Binary", 10)]),
          dict(name="avx", cfg="sanavx", shards=8, srcs=[
              tr("i32_simd", "int32_t", "TVal", "std::less<int32_t>", "SIMD", 10),
              tr("dbl_desc_simd", "double", "Big", "std::greater<double>", "SIMD", 10),
              tr("u8_simd", "uint8_t", "std::string", "std::less<uint8_t>", "SIMD", 10)])])

CHECKS["C18"] = dict(
    level="exploration", technique="algebraic-law monitor of iterators, algorithms run against an array twin, ASan+UBSan", note=NOTE,
    rule="Each case takes a dense_map through six fill levels; at each one, for the map, a moved-to copy and a move-assigned copy, the laws of the six "
         "iterator kinds are checked on all pairs of positions (150 random pairs above 12 entries) and 18 standard algorithms are run on the map and on "
         "a vector of its entries. distinct_nontrivial counts distinct (capacity, fill level).",
    assumptions=["the standard algorithms of libstdc++ are correct"],
    required=["maps", "pairs_checked", "algorithm_runs", "writes", "dm_audits"],
    exes=[dict(name="san", cfg="san", shards=8, srcs=[
        dm("c18.cpp", "i64_lin", "int64_t", "std::string", "std::less<int64_t>", "Linear", "1,7", 200),
        dm("c18.cpp", "str_bin", "std::string", "uint32_t", "std::less<std::string>", "Binary", "2,16", 200),
        dm("c18.cpp", "pkey_bin", "PKey", "Big", "PKeyLess", "Binary", "5,40", 200),
        dm("c18.cpp", "coarse_lin", "int32_t", "uint32_t", "Coarse<int32_t>", "Linear", "9,200,300", 200),
        dm("c18.cpp", "i32_huge", "int32_t", "uint32_t", "std::less<int32_t>", "Binary", "70000", 6)]),
          dict(name="avx", cfg="sanavx", shards=8, srcs=[
              dm("c18.cpp", "i32_simd", "int32_t", "std::string", "std::less<int32_t>", "SIMD", "8,64", 200),
              dm("c18.cpp", "dbl_desc_simd", "double", "Big", "std::greater<double>", "SIMD", "3,31", 200)])])


def th(scn, key, val, cmp, leaf, inner, mode, nq):
    return ("c13.cpp", [f'-DSCN="{scn}"', f"-DTKEY={key}", f"-DTVALUE={val}", f"-DTCMP={cmp}", f"-DTLEAF={leaf}", f"-DTINNER={inner}",
                        f"-DTMODE={mode}", f"-DNQ={nq}"])


CHECKS["C13"] = dict(
    level="exploration", technique="ThreadSanitizer (happens-before race detection) + per-thread model comparison", note=NOTE,
    rule="Phases of 2-5 threads, started together: either all read one btree or dense_map (17 and 11 kinds of read-only operations, each compared with a "
         "std::map that nobody changes), or each works on its own trees, dense_maps or pools (three pool allocators and the default one), which are handed to "
         "another thread between phases. The race detector sees every access; ordering is only given by thread creation and join. distinct_nontrivial "
         "counts distinct windows of six consecutive (thread, operation) events that involve more than one thread.",
    assumptions=["a pool or pool allocator is used by one thread at a time (documented)"],
    required=["shared_reads", "own_ops", "dense_reads", "dense_separate_ops", "pool_ops", "interleaved_windows", "phases"],
    exes=[dict(name="tsan", cfg="tsan", shards=4, srcs=[
        th("i64_bin", "int64_t", "std::string", "std::less<int64_t>", 8, 8, "Binary", 48),
        th("str_lin", "std::string", "std::string", "std::less<std::string>", 9, 8, "Linear", 48),
        th("i32_simd", "int32_t", "Big", "std::greater<int32_t>", 16, 12, "SIMD", 48),
        th("pkey_bin", "PKey", "uint32_t", "PKeyLess", 10, 9, "Binary", 48)]),
          dict(name="stats", cfg="tsanstats", shards=4, srcs=[
              th("i64_lin", "int64_t", "uint32_t", "std::less<int64_t>", 8, 8, "Linear", 24)])])

import os as _os  # noqa: E402
_REPO = _os.environ.get("VERIF_REPO", "/repo")
_H = _os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), "harness")


def tool(src, name):
    """A program of the repository, its main renamed, with stand-ins for libraries that are absent here."""
    return (_os.path.join(_REPO, src), [f"-Dmain={name}", "-I" + _os.path.join(_H, "stubs")])


def c28(cfg, nq):
    t = tool("src/binary/btree_stress.cpp", "stress_main")
    return dict(name=cfg, cfg=cfg, shards=8,
                srcs=[("c28.cpp", [f"-DNQ={nq}"]),
                      (t[0], t[1] + ["-include", _os.path.join(_H, "faulty_btree.hpp")])])


CHECKS["C28"] = dict(
    level="exploration",
    rule="Each case runs the stress tool with random options, first on correct trees and then up to six times on trees "
         "that misbehave once (dropped insertion, wrong value, ignored erasure, a neighbour erased too or its value altered, a value "
         "lost when its key is inserted again, a wrong find result, an element missing, changed or added during a walk) at a random moment; in a third "
         "of the cases the random numbers the tool draws repeat, so that keys do. It compares its exit status, "
         "output and the operations the trees saw with what the options describe. distinct_nontrivial counts distinct "
         "(sizes, batches) and (kind of misbehaviour, moment) pairs.",
    technique="the real tool run against a fault-injecting tree; monitors over its operations and verdict, under ASan+UBSan",
    note=NOTE + "lyra is not installed here: a stand-in that covers what the tool uses parses the options.",
    assumptions=["the option parser stand-in behaves as lyra does for the options used",
                 "std::mt19937 and the distributions are deterministic"],
    required=["runs", "iterations_checked", "reproduced", "divergences_reported", "rejected_options", "default_seeds"],
    exes=[c28("san", 300)])


def c29(cfg):
    t = tool("src/binary/btree_benchmark.cpp", "main")
    return dict(name=cfg, cfg=cfg, shards=8, py="c29.py", ldflags=["-Wl,--wrap=mmap"],
                srcs=[(t[0], t[1][1:] + ["-include", _os.path.join(_H, "bench_probe.hpp")])])


CHECKS["C29"] = dict(
    level="exploration",
    rule="Each case runs the benchmark program with random benchmarks and options over a clock of the monitor's own and containers that "
         "record every operation and its measured duration, and recomputes from that record the containers, operation counts, totals and "
         "percentiles that its text or JSON output must show. distinct_nontrivial counts distinct (benchmarks, sizes, batches, iterations) runs.",
    technique="the real program run over recording containers and a controlled clock; its output checked against the record, under ASan+UBSan",
    note=NOTE + "lyra, Abseil, unordered_dense and the histogram library are not installed here: stand-ins replace them.",
    assumptions=["the stand-ins behave as the libraries do for what the program uses", "the exact percentile of the stand-in histogram is what the real one approximates"],
    required=["runs", "containers_checked", "json_runs", "text_runs", "percentiles_checked", "seeds_compared", "refusals", "pool_stats_lines"],
    exes=[c29("san"), c29("sanstats")])

CHECKS["C30"] = dict(
    level="exploration",
    rule="Each case runs the script over a scripted benchmark program (random results, failures, truncated or incomplete output) and compares the "
         "order and arguments of the program's runs, every number in the tables, the detailed percentiles, the CSV and JSON files and the exit "
         "status with what the results imply; some cases use the real program. distinct_nontrivial counts distinct shapes of runs.",
    technique="the real script run over a scripted program; calls and reports checked against a recomputation",
    note=NOTE, assumptions=["latencies are positive", "configurations are given once each", "Python's statistics module is correct"],
    required=["script_runs", "calls_checked", "rows_checked", "details_checked", "csv_files", "json_files", "troubles", "real_runs"],
    exes=[dict(c29("sanstats"), py="c30.py", name="script")])
