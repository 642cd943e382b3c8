"""What each check runs: builds, time budgets (ms) and miri (processes, cases per scenario, ms cap)."""

ASSUMPTIONS = [
    "exploration: the property held on the executions that were produced; other schedules and inputs are not covered",
    "the storages and ConcurrentOption of the pinned dependency versions in harness/Cargo.lock are part of the system under test",
    "executions are of x86_64 builds and of miri's interpreter (with its weak memory emulation)",
]

def stage(rel=12000, dbg=5000, miri=(4, 3, 25000), tsan=0, asan=0):
    return {"rel": rel, "dbg": dbg, "miri": miri, "tsan": tsan, "asan": asan}

NOTE = ("Held on the executions observed (counts in the evidence file), of the real code in several instrumented builds; "
        "no statement about schedules and inputs that were not produced. Trusted: the oracles of /verif/harness, rustc, miri, the sanitizers.")

PLAN, RULES, REQUIRED, TECHNIQUE = {}, {}, {}, {}

def prop(id, technique, rule, required=(), quick=None, thorough=None):
    PLAN[id] = {
        "quick": quick or stage(),
        "thorough": thorough or stage(rel=180000, dbg=60000, miri=(24, 20, 240000), tsan=60000, asan=60000),
    }
    RULES[id] = rule
    TECHNIQUE[id] = technique
    REQUIRED[id] = list(required)

prop("C01", "offline checking of recorded concurrent growth histories (ownership partition, real-time order), stress with injected delays, miri",
     "random concurrent growth histories over call kinds, batch sizes, payload types, storages, thread counts and injected delays; "
     "non-trivial: positions switch their owning thread at least twice; distinct: by the sequence of owners along the positions",
     ["growth_calls", "owner_switches", "huge_collections"])

prop("C02", "batch placement and closure index checked against what each call supplied (differential, enumerated over shapes and concurrent), injected delays, miri",
     "batches over call kinds, sizes, iterators longer or shorter than requested, prior fragmentation and concurrent growers; "
     "non-trivial: the batches of several threads interleave; distinct: by batch shapes and the sequence of owners",
     ["batches", "concurrent_batches", "oversupplied_batches", "undersupplied_batches", "huge_collections"])
prop("C03", "online monitor of the length (monotone, exact for a single grower, sandwiched between completed and started growth in recorded histories), stalled growers, miri",
     "length observations by several api routes during growth histories, with elements held busy by readers and updaters; "
     "non-trivial: the length changed between observations; distinct: by the sequence of observed lengths",
     ["length_observations", "exact_length_checks", "stalled_growths", "calls_on_held_elements", "fresh_positions", "unobserved_growths", "huge_collections"])
prop("C04", "self-identifying payloads (position and writer encoded, checksummed, liveness registry) judged at every read against the stores recorded at that position, miri",
     "reads by every api route during growth, updates and stalled growth calls; "
     "non-trivial: values of several writers were read; distinct: by the digest of the values read",
     ["values_verified", "absent_positions_verified", "calls_on_held_elements", "huge_collections"])
prop("C05", "linearizability checking of recorded per-element histories (register with unique values), lost-update counters, value conservation, miri",
     "concurrent histories of set, replace, update, map, cloned and copied on few elements, reached by twelve api routes, during growth; "
     "non-trivial: operations on one element overlap; distinct: by the linearised history",
     ["element_histories", "overlapping_operations", "counter_updates", "calls_on_held_elements"])
prop("C06", "miri (data races, aliasing, uninitialised memory) and thread sanitizer over random programs of all safe methods, self-checking payloads",
     "random concurrent programs over all safe methods, and all pairs of methods on one element; "
     "non-trivial: every program has at least two threads; distinct: by the program",
     ["api_calls", "pair_calls"],
     quick=stage(rel=9000, dbg=5000, miri=(6, 8, 30000), tsan=8000),
     thorough=stage(rel=120000, dbg=60000, miri=(40, 30, 240000), tsan=120000, asan=60000))
prop("C07", "live-instance registry and counting allocator (exactly-once drop, no leak, no double drop) over random histories, miri",
     "sequential and concurrent histories of growth, update, swap, clear, reserve, conversion and partial consumption; "
     "non-trivial: values are handed out or overwritten; distinct: by the history",
     ["heap_balances", "concurrent_values_handed_out", "clones", "values_behind_gaps", "huge_collections"])
prop("C08", "recorded addresses compared over growth, presence of returned pushes by direct access during reads, writes through direct access read back, miri",
     "direct accesses while other threads grow, read and update; "
     "non-trivial: the vec grew between two looks at an address; distinct: by the pattern of accesses",
     ["address_checks", "direct_accesses", "direct_writes", "accesses_behind_a_gap", "huge_collections"])
prop("C09", "conservation of a multiset of unique values under concurrent swaps, atomic snapshots by equality of pairs, watchdog for completion, miri",
     "concurrent swaps of the vec and of overlapping slices with equal, opposite and cyclic indices, with updates, reads and comparisons; "
     "non-trivial: threads swap common elements; distinct: by the final permutation",
     ["concurrent_swaps", "bounds_checked", "snapshots_overlapping_a_swap", "calls_on_held_elements", "swaps_around_gaps", "huge_collections"])
prop("C10", "differential check of slices of slices over all range kinds against index arithmetic and element identity, also during growth, miri",
     "nested random ranges of all kinds on vecs of several lengths and storages, quiescent and during growth; "
     "non-trivial: the window is not empty; distinct: by the composed windows",
     ["slices_checked", "slices_during_growth", "concurrent_slices", "huge_collections"])
prop("C11", "differential check of all partitions against index arithmetic and element identity, also during growth and with one worker per chunk, miri",
     "splits, first/last and chunks of vecs and slices, all lengths up to 20 and random, quiescent, during growth and used after later growth; "
     "distinct: by lengths and cut points",
     ["partitions", "partitions_during_growth", "chunk_workers", "parts_before_growth", "huge_collections"])
prop("C12", "differential testing of all queries against an ordinary vector after random sequential or settled concurrent histories, miri",
     "all read-only queries on vec and slices after random histories; non-trivial: at least two elements; distinct: by history and contents",
     ["queries", "queries_after_concurrency", "queries_of_zero_sized", "queries_before_gaps", "huge_collections"])
prop("C13", "differential testing of conversion chains and clones, interval check of copies taken during growth and updates, miri",
     "chains of conversions with work between, FromIterator with all sorts of size hints, clones during changes; "
     "non-trivial: at least two elements or positions written during the call; distinct: by the chain and contents",
     ["round_trips", "collected", "copies_during_changes", "sent_iterators", "calls_on_held_elements", "huge_collections"])
prop("C14", "differential testing of clear and reserve in random histories and after concurrent growth, capacity promises filled completely, miri",
     "random histories with clear and reserve, repeated concurrent rounds, filling up to the promised maximum; "
     "non-trivial: a clear or reserve with contents; distinct: by the history",
     ["clears", "reserves", "rounds", "promises_filled", "clears_with_gaps", "huge_collections"])
prop("C19", "differential check of fills (order, positions, drops), concurrent fills judged per element, growth during a fill, miri",
     "fills of random windows of vec and slices, sequentially, concurrently on disjoint and overlapping windows, and during growth; "
     "non-trivial: a non-empty window; distinct: by windows and contents",
     ["elements_filled", "concurrent_fills", "contested_elements", "fills_during_growth", "growth_within_a_fill", "calls_on_held_elements", "fills_before_gaps", "huge_collections"])
prop("C15", "differential testing and stress at the capacity limit: refused calls judged against the exact limit, conservation of positions, post-failure differential check, watchdog, miri",
     "filling up to the limit by all means, absurd batch sizes, races of several threads for the last positions, work afterwards; "
     "non-trivial: at least one call is refused; distinct: by limits, sizes and the order of winners",
     ["refused_calls", "races", "positions_won", "absurd_requests", "huge_collections"])
prop("C16", "fault injection: panics in every user callback (closure, iterator, Clone, PartialEq, Debug, Drop), live-instance registry, differential check afterwards, watchdog, miri",
     "each callback of each operation panics at a chosen element, sequentially and in concurrent storms with growth; "
     "non-trivial: the injected panic reached the caller; distinct: by operation, position and history",
     ["panicked_callbacks", "panicked_growths", "panics_in_storms", "positions_behind_panics", "values_behind_gaps"])
prop("C17", "fault injection: callbacks and growth calls stalled at gates while all other operations must complete, watchdog, length and visibility checked at every release, miri",
     "up to four operations are stalled (22 kinds of callbacks holding an element, four kinds of growth calls), further ones wait for the held elements or clone values which no query has counted yet, while workers operate on all other elements and grow; "
     "distinct: by stalled operations and the operations of the workers",
     ["stalled_growths", "stalled_callbacks", "operations_during_stalls", "growths_behind_stalled_ones", "operations_waiting", "queries_of_uncounted"])
prop("C18", "offers of the compiler observed by probes for many element types and storages; whatever is offered is used by threads under payloads that monitor their thread, miri",
     "vec, slice, element, references and iterators over 35 element types and three storages; distinct: by type and storage",
     ["offers_judged", "offers_used_by_threads"])
prop("C20", "online monitor of the storage contract in a delegating pinned storage (in flight growth, bounds, limit, ownership of boundaries), injected delays, greedy and stalled storage growth, miri",
     "concurrent growth within and beyond the limit, queries out of bounds, exclusive requests and conversions, growth requests that stall; "
     "non-trivial: growth was requested; distinct: by the sequence of growth requests and their callers",
     ["growth_requests", "storage_accesses", "slow_growths", "refused_calls", "exclusive_requests", "huge_collections"])
prop("C21", "values that encode position and version, checked for every traversal against the versions recorded around it, during growth and updates, miri",
     "17 kinds of traversals of the vec and of slices, at once or in steps, during updates and (slow) growth; "
     "non-trivial: positions are written or added during the traversal; distinct: by kinds and visited lengths",
     ["traversals", "traversals_during_growth", "positions_written_during_a_traversal", "calls_on_held_elements", "huge_collections"])
prop("C22", "differential testing of all operand types with recorded argument order, snapshot checks of pairs written in lockstep, watchdog for completion, miri",
     "all combinations of operand types under six notions of equality; concurrent comparisons in both orders on one and two vecs with updates and swaps; "
     "non-trivial: pairs are written during comparisons; distinct: by lengths, rules and schedules",
     ["comparisons", "comparisons_of_sizeless", "concurrent_comparisons", "pairs_written_meanwhile", "storm_comparisons", "calls_on_held_elements", "huge_collections"])
prop("C23", "differential testing of nested calls made inside of all callbacks against a model of the own elements, offline check of the growth history, watchdog for completion, miri",
     "30 kinds of operations whose callbacks (closures, iterators, Clone, PartialEq, Debug, Drop) call each other up to depth 3, on one and on several threads; "
     "non-trivial: calls are nested; distinct: by the sequence of operations and depths",
     ["nested_calls", "nested_growths", "deeper_calls"])
prop("C24", "online monitor of capacities on growers and observers (monotone, covering, limited), constructors filled to their limit, histories with clear and reserve, counting allocator, miri",
     "all constructors with random parameters, capacities looked at by all threads during growth, random histories with exclusive operations; "
     "non-trivial: the capacity changes while looked at, or a constructor with contents; distinct: by parameters, storage and observed changes",
     ["looks_at_capacities", "changes_seen", "constructed", "filled_completely", "refused_growth", "reserves", "clears", "huge_collections"])
