EV = "eval/src/"
ENOTE = "Held on the executions produced (seeded, counted in the evidence), not proved; runs the eval crate with the compiler and engine its lock file pins; trusts the reference models in evalharness/src."

prop("C24", "Every accumulator behind the common interface is the same LIFO",
 "Every collection offered as an accumulator (cursor sequence, archive stack with or without metadata, plain vector, list, reference-counted list, list of vectors, reference-counted list of vectors) gives back, through the common push/pop/archive interface, exactly what was pushed, last in first out, across archive points; nothing once empty, after which it takes elements again. Archiving, under any name and metadata, never changes the contents. A cloned accumulator keeps its contents whatever happens to the other.",
 ["histories", "configurations"], "all push/pop/archive histories, all eight collections, versions kept and resumed, both engines",
 "No unit test touches these; interchangeability concerns every history on every implementation, especially pops across several archive points and shared versions.",
 [EV + "interface.rs", EV + "accum_lists.rs", RAZ, AS], M(("IFaceSeq/IFaceArchive/IFaceNew", EV + "interface.rs"), ("List, RcList, VecList, RcVecList", EV + "accum_lists.rs")),
 "Each execution is one history on one collection with kept versions drained at the end; non-trivial with at least two archive points and six steps.", ENOTE,
 observe=["every popped value", "kept versions read out"], crate="evalmon", scale=8)

prop("C25", "Test-data harnesses hold exactly the data and archive points asked for",
 "A test-data harness created by size, from data or empty holds exactly the generator's or the given elements in order; creation by size archives after every data-gauge elements, naming every name-gauge-th archive point, and so do all edits together, counting the elements edits have added (as for any sequence, an archive point with nothing after it at an end is dropped), with unused names and levels from 1 up. Every edit adds exactly its batch size of the generator's next elements, in one place (the end when appending; a uniformly drawn position, or a named archive point for the name-indexed harness, when inserting), and leaves all other elements, archive points, levels and names as they were. Equal parameters and seeds give equal sequences.",
 ["histories", "inputs", "configurations"], "all sizes, gauges, seeds and edit sequences, three harnesses, five ways of creation, both engines; inserting needs a non-empty sequence (a named archive point for the name-indexed harness)",
 "The eval crate has no unit tests; a batch that drops or misplaces an element or archive point silently skews every experiment built on it.",
 [EV + "eval_iraz.rs", EV + "eval_raz_name_index.rs", EV + "eval_vec.rs", EV + "actions.rs"],
 M(("inc_init/inc_from/insert/append", EV + "eval_iraz.rs"), ("the same by name", EV + "eval_raz_name_index.rs"), ("the vector baseline", EV + "eval_vec.rs"), ("BatchInsert and other editors", EV + "actions.rs")),
 "Each execution creates one harness and applies up to 13 edits, reading the whole sequence back after each and comparing with a model of the gauge and of the generator; non-trivial with at least two edits and two archive points.", ENOTE,
 observe=["interleaved elements and archive points after creation and every edit"], crate="evalmon", scale=4)

prop("C26", "Computations over edited harnesses equal those over plain data",
 "For every harness, after creation and after every edit, each offered computation (maximum, reverse, the three tree folds, map, left fold, folds over metadata and over archived runs, conversion to each accumulator, two-stage pipelines such as tokenise-then-parse, folding into a finite map) gives what a plain computation over the current contents gives, under the naive and the incremental engine. Functions see the archive points' levels and names in place.",
 ["histories", "inputs", "configurations"], "all edit histories between runs of the same named computations, all computations, three harnesses, both engines",
 "Results under reuse depend on which part was edited since the last run; the eval crate has no tests, and its experiments assert nothing.",
 [EV + "eval_iraz.rs", EV + "eval_raz_name_index.rs", EV + "eval_vec.rs", EV + "actions.rs", RAZ, "src/skiplist.rs"],
 M(("CompFold, CompFoldMeta, CompFoldArchive, CompMap, CompTreeFold…", EV + "eval_iraz.rs"), ("Folder/MFolder/HFolder/Compute2", EV + "actions.rs"), ("memoised folds", RAZ), ("observations of skiplist paths", "src/skiplist.rs")),
 "Each execution runs two to five computations after creation and again after each of up to eight edits; non-trivial with at least two edits and two archive points.", ENOTE,
 observe=["result of every computation after every edit"], crate="evalmon", scale=4)

prop("C27", "Actions and test drivers make exactly the calls they describe",
 "Every action calls the one operation it stands for, once, with the given parameters, functions and coordinate, inside its namespace where it is given a name, and hands back that call's time and result; combined computations run in order on each other's results and report all times. The edit-compute driver creates, computes, then edits and computes exactly as often as asked, each on the latest data, and reports each call's time in order; the build driver builds multiplier^i elements for i from 0 and edits each once. Drivers draw no randomness themselves, the documented example tree has the documented shape, and driver runs over the real structures deliver correct results, equal under both engines.",
 ["inputs", "histories", "configurations"], "all actions and their compositions, creators, edit scripts, seeds, both engines",
 "Nothing tests the drivers; a measurement attributed to the wrong step, a stale version or a skipped edit leaves plausible numbers.",
 [EV + "actions.rs", EV + "test_seq.rs", EV + "test_build.rs", EV + "examples.rs", EV + "primitives.rs"],
 M(("Creator/Editor/Computor implementations", EV + "actions.rs"), ("EditComputeSequence::test", EV + "test_seq.rs"), ("BuildTest::test", EV + "test_build.rs"), ("iraztree_depth_4", EV + "examples.rs")),
 "Each execution runs one driver over a recording collection (or a real one) and compares the recorded event log, times and results with a reference driver making the calls directly; non-trivial with at least two edits.", ENOTE,
 technique="runtime monitoring: event logs of a recording stand-in collection checked against a reference driver's log", observe=["recorded calls, arguments, namespaces, random draws, times"], crate="evalmon", scale=4)

prop("C31", "Sample element types stay in range, spread evenly, compute as numbers",
 "For any random source the sample element types of the evaluation crate draw only values of their range (below 100, below 10000, any number); values drawn from a fair source are spread evenly over the range and neighbouring draws are independent. Conversion and addition are those of the numbers; equality, order and hashing agree with them (equal values hash equally, whatever extra work the hash does), so hash sets and ordered sets of them hold exactly the distinct numbers.",
 ["inputs"], "all random sources (seeded generators and arbitrary word streams), all numbers",
 "The eval crate has no tests for them; skewed or colliding sample data makes every experiment measure something else.",
 [EV + "types.rs"], M(("Rand for GenSmall, Gen10k, GenSetElm", EV + "types.rs"), ("Elm's repeated hash", EV + "types.rs")),
 "Each execution draws from one word stream, or tens of thousands of times from seeded generators (cell counts against the even spread at eight standard deviations), or computes with all pairs of a set of numbers; non-trivial with more than one word or two numbers.", ENOTE,
 observe=["drawn values, comparison, hash and addition results"], crate="evalmon", scale=4)

prop("C35", "Computations over edited test data redo only the edited part",
 "Under the incremental engine, over test data whose archive points are all named (name gauge 1), running a computation again (the three tree folds, map, left fold, fold over metadata, maximum) applies the user's functions again only to the inserted or appended elements and to the subsequences they were put into or split into, at most a few, whatever the size of the data (left folds as long as their accumulator is unaffected; the maximum compares once more per tree level); with nothing edited, to practically nothing. The first run applies them once per element.",
 ["histories", "inputs", "configurations"], "all edit histories between runs, all sizes and data gauges, all of these computations, both incremental harnesses",
 "This is what the crate's experiments are there to show; results alone, and the few sizes run by hand, do not tell an incremental run from one from scratch.",
 [EV + "eval_iraz.rs", EV + "eval_raz_name_index.rs", EV + "actions.rs", RAZ], M(("CompTreeFold*, CompMap, CompFold*, CompMax", EV + "eval_iraz.rs"), ("the same by name", EV + "eval_raz_name_index.rs"), ("TreeFold, Mapper, Folder, MFolder, FindMax", EV + "actions.rs"), ("memoised folds", RAZ)),
 "Each execution creates one harness and runs one computation, then again after each of two to seven edits, counting applications of the user's functions against the batch size and the subsequences present; non-trivial with more than 20 elements and two edits.", ENOTE,
 technique="runtime monitoring: counters in the user's functions between edits, bounded by the batch and the size of the subsequences touched", observe=["user-function applications per run after every edit"], crate="evalmon", scale=4)
