#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os

TRUST = " Trusts the reference models and the ledger in harness/, and the compilers."
MODEL = "runtime monitoring: online comparison with a reference model over exhaustive small states and random histories"
C = {
    "C01": (MODEL, "exploration", "Every call with every telling argument from every reachable placement at capacities 0-7 (one chunk) and 0-4 (two chunks), and random histories up to capacity 257; debug and release."),
    "C02": (MODEL, "exploration", "Every call from every rotation and length at capacities 0-7 (one buffer) and 0-4 (two buffers), and random histories up to capacity 257; debug and release."),
    "C03": (MODEL, "exploration", "Every inhabited set at capacities 1-7, pairs at 1-5, patterns around bitmap boundaries up to capacity 1024, and random histories."),
    "C04": (MODEL, "exploration", "36 pairings of element and host type, every length up to 9, random histories."),
    "C05": ("sanitizers: Miri (Tree Borrows), AddressSanitizer, guard words and identity stamps, on valid and on hostile programs", "exploration", "What runs is judged for undefined behaviour by Miri on short histories of every call, and by AddressSanitizer, guard words and element stamps on long ones. Aliasing is judged by Tree Borrows. Hostile programs count as safe when the compiler refuses them or Miri finds nothing."),
    "C06": ("runtime monitoring: element ledger (births, deaths, owners) checked online", "exploration", "Each element has an identity; each call and each end of history is checked for lost, duplicated and wrongly dropped elements, including abandoned iterators and refused calls."),
    "C07": ("runtime monitoring with fault injection: panic at the k-th callback, for every k, then ledger and usability checks", "fault_enumeration", "Every callback position of every call from every small state; random histories with injected panics. Leaks are allowed only where the statement says so."),
    "C08": ("runtime monitoring: refusal oracle with before/after comparison", "exploration", "Out-of-range indices, ranges, counts and rooms (just outside, far, wrapping) from every small state and in random histories, in debug and release builds."),
    "C09": ("runtime monitoring: hostile iterators against a prefix oracle", "exploration", "Announced lengths that are right, short, long, absurd or changing, at every insertion point of every small state."),
    "C10": ("runtime monitoring: online check of every iterator step against the model", "exploration", "Every iterator, with many front/back/nth/size_hint/abandon patterns, from every small state."),
    "C11": ("runtime monitoring: slices against an array model of the whole buffer", "exploration", "Every range of every rotation at small capacities, nested slices, splits, writes; in- and out-of-range arguments."),
    "C12": ("runtime monitoring: address distinctness and interleaved writes, and Miri (Stacked Borrows)", "exploration", "All live references compared by address, written in interleaved order and read back; aliasing judged by Miri on short histories and on hostile programs the compiler accepts. One known finding (SliceMut::split_at)."),
    "C13": ("runtime monitoring: relations against those of Vec/BTreeMap, hash digests compared", "exploration", "Pairs of states with equal, prefixed and differing contents in different placements, including NaN."),
    "C14": ("runtime monitoring: clone counts, identities and independence after later mutation", "exploration", "Every copying or converting call from every small state; both sides are used further and compared."),
    "C15": ("runtime monitoring: pool objects against ordinary ones in poisoned and recycled memory", "exploration", "refpool pools with churn, and PoolDefault/PoolClone called directly on memory filled with several patterns."),
    "C16": ("runtime monitoring: byte queue oracle over random and exhaustive read/write interleavings", "exploration", "Every placement and size at small capacities; random streams up to 1 kB capacities; all Read/Write methods."),
    "C17": ("runtime monitoring: layout monitor (sizes, addresses, overlap, moves), and Miri for the known finding", "exploration", "36 pairings against the documented formula; addresses of all elements; contents after moves."),
    "C18": ("runtime monitoring: differential against plain collection from the same bytes", "exploration", "Random and structured byte strings for all containers, several capacities and element types."),
    "C19": ("runtime monitoring: relocations by address, clone and comparison counters against bounds", "exploration", "Each call from every small state and in random histories is charged for the elements it moved, cloned and compared."),
    "C20": ("runtime monitoring: digests of the same histories recorded in four builds and compared", "exploration", "debug/release by std/no_std; outcome, panics and contents of every case are digested and compared."),
    "C21": ("runtime monitoring: cross-view comparison of values and addresses", "exploration", "Every view of every small state, and writes through every mutable view."),
    "C22": ("runtime monitoring: counting allocator around each call, element addresses and sizes, byte-copy moves between calls", "exploration", "Random histories of every call on 59 types in debug, release and no_std builds, with moves after a third of the calls. Sizes are an upper bound."),
    "C23": ("race detection: ThreadSanitizer and Miri over concurrent readers and disjoint writers, results compared with those of one thread; hostile programs for Send and Sync", "exploration", "Three threads make every call a shared reference allows at once and write disjoint parts at once; containers pass from thread to thread. ThreadSanitizer sees the races of the executions it watched; it needs no particular interleaving for accesses that are not ordered."),
}
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": [
        {
            "property": k,
            "quick_cmd": "python3 run.py %s quick" % k,
            "thorough_cmd": "python3 run.py %s thorough" % k,
            "technique": t,
            "level": l,
            "level_note": n + TRUST,
        }
        for k, (t, l, n) in C.items()
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public API, by elements, iterators and compilers that watch. Exit 2 means no verdict (a build or tool failed). Known findings are in known-findings.txt.",
}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
