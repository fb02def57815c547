"""Per-property harness table used by run.py."""

_COMMON = ["-std=c++17", "-w", "-g1", "-fno-omit-frame-pointer"]
VARIANTS = {
    # The main monitor build: every section runs under ASan + UBSan + checked
    # libstdc++; any report ends the process and is a violation.
    "asan": {"cxx": "g++", "flags": _COMMON + [
        "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]},
    # Race detector build (C22 and others that share values between threads).
    "tsan": {"cxx": "g++", "flags": _COMMON + ["-O1", "-fsanitize=thread"]},
    # Uninstrumented build: statistics over large samples, cross-build digests.
    "plain": {"cxx": "g++", "flags": _COMMON + ["-O2"]},
    # Without sanitizers and with the second compiler (it evaluates arguments in
    # another order): many more cases for the behavioural oracles.
    "fast": {"cxx": "clang++", "flags": _COMMON + ["-O1", "-D_GLIBCXX_ASSERTIONS"]},
    # Second compiler, different evaluation order and UBSan implementation.
    "clang": {"cxx": "clang++", "flags": _COMMON + [
        "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=function,vptr"]},
    # The configuration without run-time type information (RC_ENABLE_RTTI=OFF).
    "nortti": {"cxx": "g++", "flags": _COMMON + [
        "-O1", "-fno-rtti", "-DRC_DONT_USE_RTTI", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
        "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]},
}

TABLE = {}


def prop(pid, harness, rule, **kw):
    TABLE[pid] = dict(harness=harness, rule=rule, **kw)


prop("C13", [dict(fast=400, name="random", src=["C13_random.cpp"])],
     "A case draws a key or seed and a random split path (up to 300 splits, past the 64-bit path refill) and "
     "walks the stream across block boundaries; non-trivial when a new (key, path, position) is compared with the "
     "reference model, restored from bytes, or compared against sibling streams.",
     min={"numbers_compared_with_reference": 2000, "mid_stream_roundtrips": 300, "split_streams_compared": 500, "far_positions_compared": 500, "spine_nodes": 1000})

prop("C03", [dict(fast=30, name="verdict", src=["C03_verdict.cpp", "progs.cpp"])],
     "A case draws test parameters and either a script of outcomes (mixtures, bursts of discards around the give-up "
     "limit, late failures, parameter products beyond 32 bits) or a random property over library generators, runs the "
     "check and replays the accounting in a model; distinct = distinct (outcome script, parameters) or (property, parameters, result).",
     min={"verdict_S": 100, "verdict_F": 100, "verdict_G": 50, "extreme_runs": 100, "public_checks": 50})

prop("C04", [dict(fast=3, name="sizes", src=["C04_sizes.cpp"])],
     "A case is a (max_success, max_size) pair, exhaustive for small max_size and random up to INT_MAX, optionally with "
     "random bursts of discards; the size of every generated case is recorded and the whole sequence checked against "
     "the ramp. Distinct = distinct (max_success, max_size, number of cases).",
     min={"sizes_observed": 100000, "runs_with_discard_boost": 50, "runs_with_spread_rest": 300, "huge_runs": 100})

prop("C05", [dict(fast=10, name="shrink", src=["C05_shrink.cpp", "progs.cpp"])],
     "A case is an explicit random shrink tree (up to 2000 nodes; deep, bushy or random; eager, lazy or recursive) with "
     "random outcomes, or a random failing property over library generators; the trace of tried and adopted shrinks and "
     "the reported result are compared with a greedy descent on the tree. Distinct = distinct traces.",
     min={"shrinks_tried": 20000, "descents_longer_than_one": 300, "real_failures_shrunk": 60})

prop("C01", [dict(fast=2, name="determinism", src=["C01_determinism.cpp", "progs.cpp"])],
     "A case is a random deterministic property over library generators and random parameters, run repeatedly: at once, "
     "after unrelated activity, reusing the property object, nested in another check, in fresh processes with other "
     "preceding activity, and through RC_PARAMS. The complete traces (arguments of every execution, listener events, "
     "examples, result) must be equal. Distinct = distinct traces.",
     min={"runs_compared": 300, "executions_compared": 5000, "nested_runs_compared": 50, "process_runs_compared": 20, "seed_pairs_compared": 100})

prop("C02", [dict(fast=3, name="reproduce", src=["C02_reproduce.cpp", "progs.cpp"])],
     "A case finds a failure of a random property, sends its reproduction data through text, and replays it under a "
     "monitor of executed bodies and listener events (also: wrong names, bad paths, fixed property, noshrink); end-to-end "
     "cases paste the printed RC_PARAMS hint into a fresh process. Distinct = distinct (failure, path) or hints.",
     min={"failures_replayed": 150, "replays_with_nonempty_path": 80, "bad_paths_rejected": 80, "e2e_failures_replayed": 10, "replays_after_discards": 6})

prop("C07", [dict(fast=8, name="scalars", src=["C07_scalars.cpp"])],
     "A case draws a scalar generator (all integral types, ranges with bounds up to the extremes of the type, signs, reals, "
     "characters, strings, durations, optionals, enumerations), a size in 0..INT_MAX and a random state, and walks the shrink "
     "tree by random descents; every node is checked against the domain and its parent. Distinct = distinct (generator, size, value).",
     min={"tree_nodes_checked": 50000, "direct_shrinks": 3000, "full_ranges": 500, "size0_values": 200, "invalid_ranges": 50,
          "sign_trees": 500, "character_trees": 500, "string_trees": 200, "chrono_trees": 100, "maybe_just": 100})

prop("C08", [dict(fast=2, name="select", src=["C08_select.cpp", "progs.cpp"])],
     "A case draws a filtered generator with a random predicate of random density (down to unsatisfiable), or a selection "
     "(containers of every kind incl. empty, weights incl. zero and huge) and walks the shrink tree; calls to the operand "
     "generators are recorded. Distinct = distinct (generator, parameters, value).",
     min={"filtered_trees": 1000, "generation_failures": 40, "retried_generations": 300, "selection_trees": 2000,
          "weighted_selections": 500, "empty_selections": 50, "zero_weight_failures": 20, "discarded_by_generation": 100})

prop("C09", [dict(fast=10, name="containers", src=["C09_containers.cpp"])],
     "A case draws a container kind (16 standard containers, arrays, strings, unique containers, tuples), an element range, a "
     "size and optionally a fixed count; elements carry the identity of their generator call, and every node of random "
     "descents is compared with its parent. Distinct = distinct (kind, size, count, elements).",
     min={"removal_shrinks": 5000, "element_shrinks": 5000, "fixed_containers": 500, "free_containers": 500,
          "multi_element_containers": 800, "impossible_requests": 80, "array_wrong_counts": 100, "tuple_trees": 200})

prop("C10", [dict(fast=40, name="lifetime", src=["C10_lifetime.cpp", "C10_arguments.cpp", "genfam.cpp"])],
     "A case picks one of 42 generator families (stateful functors with heap state) and runs a random script that copies, moves, "
     "overwrites and destroys generators, shrinkables and shrink sequences in between evaluations; each value seen is compared "
     "with the value at the same (random state, size, path) of a fresh generator. Distinct = distinct (family, tree prefix).",
     min={"values_compared": 8000, "sources_destroyed": 2000, "trees_compared": 500, "orphaned_sequences": 200, "sequence_steps": 3000})

prop("C21", [dict(fast=150, name="ownership", src=["C21_ownership.cpp"])],
     "A case runs a random script of constructions, copies, moves, assignments (self and from a part of itself), resets, swaps and "
     "accesses on Maybe, Variant, Any, Seq, Gen or Shrinkable holding registered objects, with copies that throw at random points; "
     "every object's birth and death is tracked and the held value compared with a model. Distinct = distinct scripts.",
     min={"operations": 50000, "operations_that_threw": 300, "part_assignments": 800, "objects_tracked": 50000, "pipelines": 300, "checks_run": 40})

prop("C11", [dict(fast=80, name="seq", src=["C11_seq.cpp"])],
     "A case is a random expression over the sequence combinators (all constructors and transforms, nesting up to 7, sources and "
     "functors that throw, infinite sources), consumed through a pool of copies taken midway, and compared with the list it denotes; "
     "a second family counts evaluated source elements. Distinct = distinct (expression, list).",
     min={"expressions": 3000, "elements_compared": 50000, "copies_taken_midway": 10000, "ends_observed": 3000, "whole_sequence_ops": 2000,
          "infinite_sequences": 300, "lazy_pulls_checked": 10000, "throwing_sources": 500, "range_elements": 10000})

prop("C06", [dict(fast=30, name="outcomes", src=["C06_outcomes.cpp"])],
     "A case is a random body: assertions of every macro over operands of many types (with counted evaluations), unconditional outcomes, "
     "exceptions of many types, results reported without throwing, log writes, picks and nested exec, with every return type; a fold "
     "over what the body did decides type and required texts. Distinct = distinct scripts.",
     min={"assertions_executed": 10000, "exception_assertions": 1000, "results_reported_without_throwing": 1000, "log_writes": 2000,
          "nested_execs": 500, "passes": 500, "failures": 1000, "discards": 1000, "cases_with_several_results": 500, "whole_checks": 500,
          "argument_failures": 1000, "arguments_not_generated": 20, "arguments_generated": 1000})

prop("C12", [dict(fast=5, name="minimal", src=["C12_trees1.cpp", "C12_trees2.cpp", "C12_minimal.cpp"])],
     "A case is a value of one of 48 generators whose shrinks are all enumerated along random descents and compared with a well-founded "
     "measure (every edge strictly smaller, every sequence ends), or a check of a property with a random threshold, length or offending "
     "element whose reported counterexample must be the known minimum. Distinct = distinct values or conditions.",
     min={"edges_checked": 100000, "sequences_ended": 5000, "descents_to_the_bottom": 300, "minimal_counterexamples": 800, "shrinks_tried": 5000, "unique_minimised": 200, "long_element_shrinks": 2})

prop("C14", [dict(name="distribution", src=["C14_distribution.cpp"], variants=["plain"])],
     "A case draws a domain (ranges of all integral types with any bounds, integer types, selections, weights, lengths), a size and a "
     "stream of random states (splits of one root or fresh keys), generates thousands of values and tests support, segment width and a "
     "chi-square statistic with a bound far beyond chance. Distinct = distinct (domain, size).",
     min={"range_distributions": 400, "integer_distributions": 200, "exhaustive_types": 12, "selection_distributions": 300,
          "weighted_distributions": 80, "length_distributions": 100, "independence_tests": 150, "case_states_compared": 50000, "values_observed": 2000000})

prop("C15", [dict(fast=2, name="exec", src=["C15_exec.cpp", "genfam.cpp"])],
     "A case is a random program that picks values (which generator comes next and when it ends depends on the values so far, nested "
     "programs, named picks, 0-2 arguments); its shrink tree, as generator and as property with its listed counterexample, is compared in "
     "lockstep with a model over the operand trees, with random states observed per pick. Distinct = distinct histories.",
     min={"exec_trees": 1200, "property_trees": 700, "nested_programs": 200, "with_arguments": 400, "picks_replayed": 50000,
          "tree_nodes_compared": 50000, "examples_checked": 20000, "partial_runs": 5000, "counterexamples": 100})

prop("C16", [dict(fast=5, name="commands", src=["C16_commands.cpp"])],
     "A case is a random state machine (8 kinds of commands, hashed extra preconditions, states that allow nothing, generators that fail "
     "or discard, copyable and uncopyable models) or commands made by constructors; every node of random descents is validated by the "
     "machine, every edge explained as removal or replacement plus repair, and all expected shrinks are looked up. Distinct = distinct root sequences.",
     min={"nodes_validated": 50000, "removal_edges": 20000, "replacement_edges": 5000, "edges_with_regenerated_commands": 500,
          "edges_with_dropped_commands": 100, "removals_expected": 5000, "command_shrinks_expected": 3000, "sequences_with_retries": 300,
          "ungeneratable_sequences": 5, "exec_trees": 500, "made_Inc": 100, "made_Dec": 100, "made_Lock": 100, "made_Unlock": 100, "made_Move": 50,
          "invalid_sequences_judged": 100})

prop("C17", [dict(fast=10, name="run", src=["C17_run.cpp"])],
     "A case runs a random command sequence with a command that is not allowed, fails, throws, deviates or discards at a random point and "
     "compares the logged calls (with the model state seen) with the machine, or checks a whole system with a random bug, monitoring all "
     "runs and the reported sequence. Distinct = distinct sequences and outcomes.",
     min={"steps_checked": 20000, "passing_runs": 1000, "failing_runs": 200, "discarded_runs": 200, "throwing_runs": 100, "whole_checks": 500,
          "runs_monitored": 20000, "deviations_found": 150, "counterexamples_of_several_commands": 60, "conforming_systems": 100})

prop("C18", [dict(fast=40, name="config", src=["C18_config.cpp"])],
     "A case is a random configuration (extreme numbers, reproduction data with hostile names) written in full, minimally or by an own "
     "writer with random order, spacing, quoting and escapes over random defaults; or one bad value; or damaged and random text; or a child "
     "process run with RC_PARAMS. Distinct = distinct texts.",
     min={"roundtrips": 10000, "written_configurations": 3000, "bad_values_rejected": 3000, "texts_accepted": 1000, "texts_rejected": 1000,
          "maps_roundtripped": 5000, "processes_run": 40})

prop("C19", [dict(fast=30, name="data", src=["C19_data.cpp"])],
     "A case is a random value of 28 kinds of data (all integers plain and compact, ranges, strings, pairs, maps, engines, reproduction "
     "data) encoded, decoded from exactly sized buffers and other iterators, cut at every kind of place; or mutated, random and length-bomb "
     "bytes and texts, with requests for memory watched. Distinct = distinct byte strings.",
     min={"roundtrips": 10000, "truncations": 30000, "hostile_accepted": 3000, "hostile_rejected": 3000, "base64_roundtrips": 5000,
          "texts_decoded": 1000, "texts_rejected": 1000, "reproduce_texts": 4000, "damaged_accepted": 500, "damaged_rejected": 500,
          "damaged_replays": 300, "compact_lengths": 10})

prop("C20", [dict(fast=1, name="reports", src=["C20_reports.cpp", "C20_show.cpp", "progs.cpp"])],
     "A case checks a property that tags by a hashed script (values, conditions, nested generators and checks, discards, early returns) and "
     "recounts the distribution and its printed lines; or prints a made-up result; or fails a property whose body records what it saw; or "
     "runs named and unnamed properties under verbose and hint listeners or in a child process; or shows a random nested value. Distinct = "
     "distinct distributions, texts, hints and shown values.",
     min={"distributions_checked": 1000, "distributions_with_many_entries": 300, "tagged_cases": 20000, "texts_S": 300, "texts_F": 500, "texts_G": 300,
          "texts_E": 300, "counterexamples_checked": 400, "marks_checked": 20000, "hinted_failures": 200, "runs_without_hint": 50,
          "process_reports_checked": 40, "values_shown": 20000, "pointers_shown": 3000})

prop("C24", [dict(fast=4, name="combinators", src=["C24_combinators.cpp", "C24_defaults.cpp", "genfam.cpp"])],
     "A case is a random expression of depth up to 4 over 22 combinators with recorded leaves, whose tree is compared in lockstep with a "
     "model tree over the trees of its leaves (each with the size and random state it was observed to get); or an expression over the "
     "shrinkable combinators and operations on explicit trees; or a functor, monad or default-form identity between whole trees. Distinct = "
     "distinct (expression, size).",
     min={"expressions_checked": 5000, "operand_states_observed": 10000, "operands_regenerated": 10000, "tree_nodes_compared": 200000,
          "shrinkable_expressions": 4000, "paths_walked": 20000, "laws_compared": 10000, "generator_laws_compared": 5000, "default_forms_compared": 5000,
          "node_mapcat": 300, "node_join": 300, "node_tuple3": 300, "node_build": 300, "node_scale": 300, "node_suchThat": 300, "node_noShrink": 300,
          "node_shrink": 300, "node_lazy": 300, "node_withSize": 300, "node_apply": 300, "node_construct": 300, "node_pair": 300})

prop("C25", [dict(fast=5, name="contexts", src=["C25_contexts.cpp"])],
     "A case is a random script of picks, logs, tags, reports, nested generators (also inside pairs and containers), nested checks with "
     "throwing listeners, shrinks run by hand, functors that pick and exceptions at any depth; each operation is booked on the monitor's own "
     "stack of bodies, and results, tags, logs, listed picks, stderr and the state outside are compared with the books. Or a random nesting "
     "of parameter bindings and scopes. Distinct = distinct scripts that nest.",
     min={"cases_checked": 20000, "picks": 20000, "logs": 5000, "tags": 3000, "reports": 2000, "nested_generators": 5000, "nested_checks": 1000,
          "nested_checks_left_by_exception": 50, "throws": 1000, "caught": 300, "shrinks_inside_bodies": 500, "shrunk_cases": 1000,
          "picks_in_functors": 2000, "runs_with_shielded_logs": 300, "runs_deeper_than_three": 500, "outside_checks": 10000,
          "parameter_reads": 20000, "parameter_scopes": 3000, "parameter_throws": 500})

prop("C22", [dict(name="threads", src=["C22_threads.cpp", "genfam.cpp"], variants=["tsan", "plain"])],
     "A case shares a generator of one of 38 families (or its shrinkables and shrink sequences, or handles owning counted objects) "
     "between 2 to 8 threads that evaluate, traverse, copy, move, assign and drop it, first through the same object and then through copies whose "
     "originals are destroyed; every result is compared with that of an independently built generator used by one thread, live objects are "
     "counted, and ThreadSanitizer watches. Distinct = distinct interleavings (order of the threads' operations).",
     min={"thread_results_compared": 10000, "operations_by_threads": 30000, "switches_between_threads": 5000, "shared_handles_dropped": 20000, "contended_copies": 200000},
     technique="runtime monitoring: ThreadSanitizer (happens-before race detector), per-thread tree digests and live-object counts over stress schedules with injected delays")

prop("C23", [dict(name="gtest", src=["C23_gtest.cpp"], libs=["-lgmock", "-lgtest"]),
             dict(name="catch", src=["C23_catch.cpp"], libs=["-L/usr/lib", "-lCatch2"]),
             dict(name="doctest", src=["C23_doctest.cpp"], flags=["-std=c++20"]),
             dict(name="boost", src=["C23_boost.cpp"])],
     "A case runs a real GoogleTest, GoogleMock, Catch2, doctest or Boost.Test program (this harness as its own child process) whose "
     "properties and fixtures follow a random script (pass, fail at a threshold in five ways, give up, discard some, tag) under random parameters or "
     "reproduction data; exit code, printed result, hints, every executed case and every fixture step are compared with what the library alone "
     "does with the same bodies. Distinct = distinct (property, script, result).",
     min={"verdict_S": 150, "verdict_F": 250, "verdict_G": 40, "verdict_E": 10, "fixtures_run": 1000, "whole_programs": 50, "expectation_failures": 30, "reproductions": 75, "distributions_shown": 15})

prop("C26", [dict(fast=2, name="robust", src=["C26_robust.cpp", "C26_extremes.cpp", "progs.cpp"])],
     "A case is a random generator expression in which any mapper, predicate, key function, shrinker, body or generator function throws for some "
     "arguments, walked by hand and run in a check, a container of elements whose copies fail at any point, scalars of all types with bounds and sizes "
     "at the extremes, sequences with extreme positions, checks with extreme parameters, very large values and long chains, or arguments documented to "
     "be rejected; address and undefined-behaviour sanitizers, the watchdog and counts of live objects decide. Distinct = distinct expressions or extremes.",
     min={"expressions": 800, "faults_thrown": 8000, "copy_faults": 150, "extreme_generations": 1500, "rejections": 1500, "extreme_checks": 100, "large_values": 10},
     technique="runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer, watchdog and live-object counts over fault injection in every user callback and extreme arguments")

prop("C27", [dict(fast=3, name="final", src=["C27_final.cpp", "progs.cpp"], libs=["-Wl,--wrap=_ZN2rc21beforeMinimalTestCaseEv"])],
     "A case runs a random property (also stateful, nested in another check, through rc::check, or reproduced from its data) while calls of "
     "rc::beforeMinimalTestCase are intercepted at link time; the monitor counts calls, runs and listener events before and after, and compares the "
     "run that follows with the report. Distinct = distinct reported runs.",
     min={"final_runs_announced": 500, "not_failing": 50, "shrunk": 200, "unshrunk": 30, "reproductions_announced": 300, "reports_of_the_last_run": 300,
          "nested_failures": 100, "entry_point_failures": 15, "stateful_final_runs": 40})

prop("C28", [dict(name="nortti", src=["C28_nortti.cpp"], variants=["nortti"]),
             dict(name="exec", src=["C15_exec.cpp", "genfam.cpp"], variants=["nortti"]),
             dict(name="run", src=["C17_run.cpp"], variants=["nortti"])],
     "Library and monitors are compiled without run-time type information; the oracles of C15 and C17 and monitors of displayed types, stored "
     "values, counterexamples and command displays observe their executions. Distinct = distinct cases of these oracles.",
     min={"type_names_checked": 2000, "anys_checked": 2000, "counterexamples_checked": 200, "reproductions": 100, "command_sequences": 200,
          "exec_trees": 1200, "steps_checked": 20000})
