#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl, checks.json and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, rule, level_note, state=(), observe=(), technique=None,
         scale=1.0, crate="mon", assumptions=(), hook=None, **conf):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=list(state), observe=list(observe), rule=rule, level_note=level_note,
                  technique=technique or "runtime monitoring: reference-model oracle over randomized histories of the real code",
                  scale=scale, crate=crate, assumptions=list(assumptions), hook=hook, conf=conf))

M = lambda *a: [dict(name=n, where=w) for n, w in a]
RAZ = "src/raz.rs"; CUR = "src/tree_cursor.rs"; LT = "src/level_tree.rs"; AS = "src/archive_stack.rs"; META = "src/raz_meta.rs"
NOTE = "Held on the executions produced (seeded, counted in the evidence), not proved; trusts the small model in harness/src (model.rs, rsim.rs) and the adapton engine only as far as its results are compared."
HIST = "Each execution is one generated editing history (pushes, pops, peeks, archive points, cursor moves on both sides; random metadata kind, level distribution, naming, engine)"

prop("C01", "RAZ editing behaves as a two-sided list with a cursor",
 "For every history of insertions, removals, peeks, archive points and cursor moves (unfocus then focus), every value returned by pop and peek on either side, and the element sequence of the unfocused form, is exactly what a plain list with a cursor gives: no element is lost, duplicated or reordered, and removing from an exhausted side gives nothing. Inserting reports the number of elements on that side not yet archived. This holds for every metadata type, any archive levels from 1 up and any choice of names, under both engines.",
 ["histories", "inputs", "configurations"], "all editing histories, metadata types, level/name choices, engines",
 "Existing tests run a few fixed edit scripts of under ten elements; the loss or reordering needs particular mixes of archive points, cursor moves and removals across them.",
 [RAZ, CUR, AS, LT], M(("Raz push/pop/peek/archive", RAZ), ("unfocus rebuilding the tree", RAZ), ("RazTree::focus", RAZ), ("Cursor::up/join", CUR)),
 HIST + "; non-trivial when the final sequence has at least two archive points; distinct by the whole generated case.", NOTE,
 state=[dict(name="forests and stacks", meaning="what is left and right of the cursor", where=RAZ)], observe=["push/pop/peek results", "element sequence after every unfocus", "read-out at the end"], scale=8)

prop("C02", "Focusing by position puts the cursor exactly there",
 "For every sequence, however it was produced (editing, mapping, joining, conversion from a stack, from a vector), and every position 0..=n, focusing on that position succeeds and leaves exactly that many elements on the left and the rest on the right; the end marker and focus_left reach the two ends, and a position beyond the end of a sequence with several subsequences yields nothing (with a single one: nothing, or a panic). User-defined search metadata and index types are honoured the same way: each navigation step sees the metadata of the actual branches and decides the branch taken, and the vector split decides the place in the subsequence. Focusing and unfocusing again without edits preserves the sequence.",
 ["inputs", "histories", "configurations"], "all trees, all positions, built-in and user-defined position metadata, both engines",
 "Tests focus on a handful of positions in hand-built trees with the count index; they never sweep positions, nor user-defined indexes, nor trees from map/join/conversion.",
 [RAZ, META], M(("RazTree::focus, focus_left", RAZ), ("Count::navigate/split_vec", META)),
 "Each execution builds a tree (one of six ways) and focuses on every position (up to 40, else 40 sampled plus both ends), checking peeks, read-out, insertion or round trip; non-trivial with at least two archive points.", NOTE,
 observe=["peek/pop on both sides after focus", "where an insertion lands", "focus/unfocus round trip"], scale=5)

prop("C03", "Archive points delimit the subsequences as placed",
 "After any editing history the unfocused sequence contains exactly the archive points that were placed and not removed, each at its place between the same elements, with its level and its name (as derived for the tree); removing an element across an archive point removes that archive point and no other, archiving an empty run adds none, and no empty subsequence ever results. When two archive points meet with nothing between them, exactly one of them is dropped; one that meets an end of the sequence is dropped.",
 ["histories", "inputs", "configurations"], "all editing histories, levels, names, metadata types, engines",
 "Tests look at the data, hardly ever at the positions, levels and names of archive points, and never after multi-step edits around them.",
 [RAZ, AS, CUR], M(("archive_left/right", RAZ), ("AStack::archive/next_archive", AS), ("unfocus pairing vectors, levels and names", RAZ)),
 HIST + "; the interleaved sequence of elements and archive points (level, name) read by fold_lr_meta is compared at every unfocus; non-trivial when at least two archive points remain.", NOTE,
 observe=["fold_lr_meta event sequence"], scale=8)

prop("C04", "Tree structure is determined by the levels alone",
 "Whatever the order of edits that produced it, the balanced tree behind a sequence is the one its levels determine: the archive point of greatest level (leftmost among equals) is at the root, recursively on both sides, so every left subtree has strictly lesser levels and every right subtree lesser or equal ones. Two histories arriving at the same sequence of elements and archive points give trees of the same shape. The level-consistency checker offered for debugging accepts exactly such level orders (left strictly less, right not greater).",
 ["histories", "inputs"], "all editing histories and level assignments (ties, monotone, random), both engines",
 "Tests check one small shape by hand; canonicity concerns every interleaving of edits, and ties matter.",
 [CUR, LT, RAZ], M(("Cursor::join finding the insertion point by level", CUR), ("unfocus joining forests", RAZ), ("good_levels", LT)),
 HIST + "; the shape (levels, names, chunks) observed through fold_up_gauged is compared with the canonical tree at every unfocus; non-trivial when at least two archive points remain.",
 NOTE + " Levels from 1 to u32::MAX-1.", observe=["shape reconstructed by fold_up_gauged"], scale=8)

prop("C05", "Metadata always summarises the actual contents",
 "The metadata of an unfocused sequence, for every metadata type including user-defined ones, equals the one built bottom-up from its actual subsequences and branches: each subsequence summarised from its elements, each branch from its left and right parts in order, with that branch's level and name passed along. During focusing, navigation is shown exactly the metadata of the two real branches. This holds after any editing history, after map, and after join.",
 ["histories", "inputs", "configurations"], "all editing histories and metadata types (built-in, order-sensitive, fully recording), both engines",
 "Tests check a count once or twice; stale or misordered metadata only appears after specific edits, and built-in counts are blind to order, level and name errors.",
 [RAZ, META, CUR], M(("TreeUpdate::rebuild for TreeData", RAZ), ("treetop_meta", RAZ), ("Cursor dirty flags forcing rebuilds", CUR)),
 HIST + "; metadata is compared at every unfocus and at every navigation step with a recording metadata type; non-trivial when at least two archive points remain.", NOTE,
 observe=["RazTree::meta()", "arguments of navigate()"], scale=8)

prop("C06", "Focusing by archive name lands at that archive point",
 "In a sequence with the name index, focusing on the name of any archive point succeeds and puts the cursor just left of that archive point, whatever edits, maps, joins or conversions produced the tree; the end positions are reachable, the name metadata lists exactly the names present, and an unknown name in a sequence with archive points yields nothing.",
 ["inputs", "histories"], "all trees with named, unnamed and mixed archive points, all names present and unknown ones, both engines",
 "Tests look up one or two names in one tree; each name must be reachable from every tree shape.",
 [META, RAZ], M(("Names::navigate and split_vec", META), ("RazTree::focus, Navigation::Here", RAZ)),
 "Each execution builds a named tree and focuses on every name in it (up to 40), both ends and unknown names, checking peeks, read-out, insertion or round trip; non-trivial with at least two named archive points.", NOTE,
 observe=["peek/pop on both sides after focus"], scale=5)

prop("C07", "Tree folds give the sequence fold for associative operations",
 "For every sequence, fold_up with an associative operation equals folding the elements left to right; the variants also pass each archive point's level and name between the results of exactly what lies left and right of it, and the subsequence variant is given exactly the subsequences in order. The empty sequence gives no result. Non-commutative operations see operands in sequence order.",
 ["inputs", "histories", "configurations"], "all sequences, all associative operations (observed with recording, non-commutative ones), both engines",
 "Tests compute a maximum or sum of one sequence, which is blind to order and to archive points.",
 [RAZ, LT], M(("RazTree::fold_up, fold_up_nl, fold_up_gauged", RAZ), ("Tree::fold_up_meta", LT)),
 HIST + " followed by every tree fold with event-recording functions; non-trivial with at least two archive points.", NOTE, observe=["event trace built by the user functions"], scale=8)

prop("C08", "Left-to-right folds visit elements and archive points in order",
 "For every sequence and initial value, the left-to-right folds apply the element function to each element once in order, the metadata function at each archive point with its level and name between the neighbouring elements, and (in the archive variant) the finishing function once at the end of each subsequence with the name of the archive point before it, or the start name for the first. The accumulator is threaded through exactly in that order, and the empty sequence returns the initial value.",
 ["inputs", "histories", "configurations"], "all sequences, initial values and functions (recorded), both engines",
 "Tests check one or two sequences; carried names and accumulators depend on tree shape.",
 [RAZ, LT], M(("RazTree::fold_lr, fold_lr_meta, fold_lr_archive", RAZ), ("Tree::fold_lr_meta carried name", LT)),
 HIST + " followed by every left-to-right fold with event-recording functions; non-trivial with at least two archive points.", NOTE, observe=["event trace built by the user functions"], scale=8)

prop("C09", "map transforms every element and nothing else",
 "Mapping a sequence applies the function to each element and yields a sequence with the mapped elements in the same order, the same archive points (levels, names, places), the same tree structure, and metadata of the target type that is correct for the mapped contents. The source sequence is unchanged, and maps compose with further maps and folds.",
 ["inputs", "histories", "configurations"], "all sequences, functions, element and metadata type pairs, both engines",
 "Tests map one tree and look at its elements; structure and metadata of mapped trees are not observed.",
 [RAZ, LT], M(("RazTree::map", RAZ), ("Tree::map", LT)),
 HIST + " followed by maps, map-of-map and folds of mapped trees; non-trivial with at least two archive points.", NOTE, observe=["elements, archive points, shape and metadata of the result"], scale=8)

prop("C10", "Incremental results equal from-scratch results after every edit",
 "Under the incremental engine, re-running any of the library's computations (all folds, maps and their compositions) after any sequence of edits gives exactly the result of computing from scratch on the edited sequence: no stale result is ever reused. This includes edits that change, add or remove elements, archive points, names and levels, undo earlier edits, or change nothing.",
 ["histories", "inputs"], "all sequences of edit rounds with re-computation between them, named, unnamed and mixed archive points",
 "Tests run one edit and one re-computation; reuse errors need particular combinations of names, edit location and previous results.",
 [RAZ, LT, CUR], M(("memo! by name in Tree folds and maps", LT), ("named cells for tree nodes", LT), ("archive names paired for the tree", RAZ)),
 "Each execution is a history with all computations run (same namespaces) at every unfocus and compared with the model; non-trivial with at least two re-runs after a real change and two archive points.",
 NOTE + " Assumes the documented discipline: names unique, distinct computations in distinct namespaces.", observe=["results of each computation in each round"], scale=4)

prop("C11", "Re-computation after an edit is local",
 "Under the incremental engine with named archive points, re-running a computation after a local edit applies the user functions again only to the subsequences at the edit (a small constant number), plus, for left-to-right folds, what lies to the right of the edit if the accumulator changed; re-running with no change applies them to nothing. The first run applies them once per item.",
 ["histories", "inputs"], "all edit locations and kinds in sequences of tens to a thousand subsequences, each library computation",
 "Tests compare values only; losing all reuse would leave every existing test passing.",
 [LT, RAZ, CUR], M(("memo! keyed by forked node names", LT), ("structure sharing in Cursor::up", CUR), ("archive names kept by focus/unfocus", RAZ)),
 "Each execution builds a balanced named sequence, runs a computation, then measures user-function applications after each of several edits; non-trivial with at least two measured edits.",
 NOTE + " Allowance: five subsequences' worth of applications per edit (at most two or three are observed).", observe=["user-function application counters"], scale=5)

prop("C12", "Converting an archive stack preserves the sequence",
 "Converting an archive stack into an unfocused sequence, from the tail or from the head side, gives the stack's elements and archive points (with their own names and levels) bottom to top, respectively top to bottom, as a level-determined tree with correct metadata, for every stack including empty ones and ones with nothing after the last archive point. Under the incremental engine this stays true when the conversion is re-run after further pushes, archives and pops, and computations over the result agree with from-scratch computation; the stack itself is unchanged.",
 ["histories", "inputs", "configurations"], "all stack editing histories with conversions in between, both directions, metadata types, engines",
 "Tests convert one or two stacks once.",
 [RAZ, AS, "src/memo.rs"], M(("MemoFrom<AtTail/AtHead> for RazTree", RAZ), ("AStack::next_archive", AS)),
 "Each execution edits a stack with conversions (both directions, re-run in the same namespaces) in between, comparing sequence, shape, metadata and computations; non-trivial with at least two archive points.", NOTE, observe=["sequence, shape, metadata of each converted tree"], scale=4)

prop("C13", "Kept versions never change",
 "A clone of a sequence, with or without cursor, kept while other copies are edited, focused, unfocused or used to start further branches of editing, always keeps reading exactly as when it was made, including its metadata; editing may resume from any kept version. (Under the incremental engine with named archive points, edits of another version are made in a separate namespace.)",
 ["histories", "configurations"], "all branching version histories; named and unnamed, both engines",
 "Tests never look back at an older version after editing a newer one.",
 [RAZ, AS, CUR, LT], M(("copy-on-write of stacks", AS), ("persistent tree nodes", LT), ("Cursor clone with forests", CUR)),
 "Each execution branches an editing history at kept versions and re-examines them along the way and at the end; non-trivial with at least two kept versions.", NOTE, observe=["content, shape, metadata of kept versions"], scale=5)

prop("C14", "The engine in use is unobservable in results",
 "The same history of edits, cursor moves and computations, on sequences and on the stacks, lists, trees and maps behind them, gives identical observable results (returned values, sequences, archive points, shapes, metadata, computation results) under the naive engine and under the incremental engine.",
 ["histories", "configurations"], "all histories, run under both engines",
 "Tests run each scenario under one engine.",
 [RAZ, LT, CUR, AS, "src/stack.rs", "src/skiplist.rs"], M(("all data behind engine cells and memo points", LT), ("list cells", "src/stack.rs"), ("map cells", "src/skiplist.rs")),
 "Each execution runs one history under both engines and compares the complete logs of observations (no reference model involved); non-trivial with more than ten observations.",
 "Held on the executions produced; differential, so it is blind to errors both engines share (C01-C10 cover those).", technique="runtime monitoring: differential oracle (same history under both engines), observation logs compared", observe=["observation log"], scale=5)

prop("C15", "Joining and creating trees concatenates exactly",
 "Joining two nonempty unfocused sequences at a level gives the left elements, then an archive point with that level and name, then the right elements, with correct metadata, and the result can be focused and edited like any other; joining with an empty side gives nothing. Creating a sequence from a vector gives that vector as one subsequence, and from an empty vector gives nothing. This holds for any level given, even one that is not above the operands'.",
 ["inputs", "histories"], "all pairs of trees from editing, joining and vectors, all levels and names, both engines",
 "Tests join one pair.",
 [RAZ, CUR], M(("RazTree::join, from_vec", RAZ),),
 "Each execution edits, shelves and joins several trees, editing joined trees further; non-trivial with at least one join.", NOTE, observe=["sequence, metadata, read-out of joined trees"], scale=5)

prop("C16", "The archive stack is a persistent LIFO with archived runs",
 "For every history of push, pop, peek, extend, archive (with metadata and optional name) and reopening archives, the archive stack returns exactly what a list of runs returns: elements last-in first-out across archive boundaries, each archive's metadata and name returned when its run is reopened, archiving an empty run refused, lengths and active data accurate, iteration complete. Clones are independent of later changes, and identity conversion and conversion from a vector preserve contents.",
 ["histories", "configurations"], "all operation histories, metadata types, named/unnamed archives, both engines",
 "Tests run short fixed scripts without clones.",
 [AS], M(("AStack::archive, pop, next_archive", AS), ("IntoIter", AS)),
 "Each execution is an operation history with clones kept and branched; the complete state is compared after every step; non-trivial with at least two archives at once.", NOTE, observe=["every operation's result, iteration, active data"], scale=5)

prop("C17", "The cons list is a persistent LIFO with names",
 "For every history of push and pull on versions sharing tails, each version of the cons list (and its nonempty form) keeps its own contents: peek gives the last pushed element, pull the rest, the name accessor and the iterator give each element with the name it was pushed under, in last-in first-out order.",
 ["histories", "configurations"], "all branching push/pull histories, named/unnamed, both engines",
 "Tests run one short script.",
 ["src/stack.rs"], M(("Stack/Head push, pull, peek, name, iter", "src/stack.rs")),
 "Each execution is a branching history over a population of versions, all compared; non-trivial when a version has at least four elements.", NOTE, observe=["peek, pull, name, iterator"], scale=6)

prop("C18", "Level-tree folds and maps follow the tree definition",
 "For every level tree (any shape, with missing branches; any levels and names), reading it back gives what it was built from; fold_up combines each node with the results of its existing branches; the left-to-right fold visits nodes in order threading the accumulator (a node without branches receives the carried name, others their own); map keeps shape, levels and names and computes each node from its data and mapped branches. Under the incremental engine the same holds when trees are rebuilt with changes and re-run.",
 ["inputs", "histories", "configurations"], "all trees and rebuild histories, named/unnamed/mixed, both engines",
 "Tests use one tree shape.",
 [LT], M(("Tree::fold_up_meta, fold_lr_meta, map", LT), ("good_levels", LT)),
 "Each execution grows and edits a random tree, rebuilding and running all computations in fixed namespaces several times; non-trivial with at least three nodes and two runs.", NOTE, observe=["results of folds and maps, tree read back"], scale=4)

prop("C19", "Tree cursor movement, split and join are exact and canonical",
 "Moving a cursor down and up over a level-ordered tree reaches exactly the branches and nodes of that tree, reports success and direction correctly, and moving up keeps changes (or, with the discarding form, restores what was there when the branch was entered). Splitting at a node gives that node and two cursors holding exactly the nodes left and right of it; joining two cursors around a node with any level gives exactly the concatenation as the tree its levels determine, focused on the new node; discarding movement removes exactly the current node and the branch not taken. Whenever a changed node is rebuilt, its data is recomputed from its actual new branches, level and name, and clones of cursors are unaffected.",
 ["histories", "inputs", "configurations"], "all movement/split/join histories over trees with any level assignment, named or not, both engines",
 "Tests move, split and join once in one hand-built tree.",
 [CUR, LT], M(("Cursor::up, up_discard, down_*_force", CUR), ("Cursor::split, join", CUR), ("dirty flags and TreeUpdate::rebuild", CUR)),
 "Each execution is a history of cursor operations over a canonical tree next to a sequence-and-range model; focused subtree compared after every step, the whole tree where copies may be made; non-trivial with at least three nodes and a split or join.", NOTE, observe=["focused tree, peeks, UpResult, data recording the subtree it was rebuilt for"], scale=5)

prop("C20", "Iterating right of a cursor yields exactly what is there",
 "Turning a cursor into iterators gives the focused tree and an iterator that yields every node to the right of the focused node, in order, exactly once, then ends and stays ended, from any position of any level-ordered tree (including empty branches and cursors produced by splits and joins). Folding the iterator out threads the accumulator over the same nodes in that order, also when re-run incrementally after the sequence changes.",
 ["inputs", "histories", "configurations"], "all trees and cursor positions, named or not, both engines, re-runs after changes",
 "One test iterates from one position of one tree.",
 [CUR], M(("IterR::next", CUR), ("IterR::fold_out", CUR), ("Cursor::into_iters", CUR)),
 "Each execution interleaves cursor operations with iterations and folds from the current position; non-trivial with at least three nodes and one iteration.", NOTE, observe=["iterated ids, fold_out results"], scale=5)

prop("C21", "Generated levels are in range and balance the tree",
 "The level generators (for branches, the crate-level one, and the bounded wrapper) only return levels from 1 to 64 for any random source, each level half as likely as the one below it whatever was drawn before, and the same levels from an equal source, so trees over generated levels of any size are balanced.",
 ["inputs"], "all outputs of the random source; distribution over many draws",
 "Nothing tests the distribution; a skewed generator still passes every functional test while degrading all operations.",
 [LT, "src/lib.rs", "src/trees.rs"], M(("gen_branch_level", LT), ("inc_level", "src/lib.rs"), ("NegBin", "src/trees.rs")),
 "Each execution draws 20000 levels (one in fifty: four million) from one generator (or feeds it chosen extreme random words); range checked on each draw, frequencies of levels 1-8 (1-15), of all greater ones and of consecutive pairs within 8 standard deviations, height of the level-determined tree of 4096 draws bounded; every batch is non-trivial, distinct by seed.",
 "Statistical: a skew below about 8 standard deviations of a 20000-draw batch is not noticed.", technique="runtime monitoring: range assertion and statistical monitor over drawn levels", observe=["drawn levels"], scale=3)

prop("C22", "The skiplist map is a finite map",
 "For every history of put, get, remove and extend with any keys (including keys whose hashes collide) and any hash-path length, the skiplist map returns exactly what a finite map returns: the latest value put under that key, the prior value on removal, nothing for absent keys. Archiving with fresh names never changes contents, and kept versions that are archived before diverging keep theirs. The same holds when the operations run in named computations that are re-run after some of the operations were edited.",
 ["histories", "inputs", "configurations"], "all operation histories, key sets, collision patterns, path lengths, edits between runs of memoised steps, both engines",
 "Tests insert a few keys once; overwrites, removals, collisions and archive points between them are not exercised.",
 ["src/skiplist.rs"], M(("Skiplist put/get/rem/ext/archive", "src/skiplist.rs")),
 "Each execution is an operation history with kept versions (non-trivial with at least two keys present and one overwrite) or, one in three, a chain of memoised steps re-run after one to five edits.", NOTE, observe=["results of every operation, sweep over touched keys"], scale=5)

prop("C23", "Cursor operations cost only what they touch",
 "Inserting, archiving and peeking compute no more than the active subsequence requires; removing crosses one archive point at a time; focusing takes at most one navigation step per tree level and copies at most the one subsequence; unfocusing recomputes metadata only along the paths to the cursor and copies only the subsequences there. None of them does work proportional to the length of the sequence, and moving a tree cursor up calls the data's rebuild only where something below changed.",
 ["inputs", "histories"], "all editing histories over balanced sequences of tens to thousands of subsequences, named or not, both engines",
 "Tests check values only; an operation that rebuilds or copies everything would pass them all.",
 [RAZ, CUR, AS], M(("RazTree::focus", RAZ), ("unfocus", RAZ), ("Cursor::up rebuilding only dirty nodes", CUR)),
 "Each execution measures element copies, metadata computations and navigation steps (or, one in six, rebuild calls of a plain tree cursor over a changing and unchanging walk) (counted in the user's own types) per operation against bounds in tree height and subsequence size; non-trivial with at least two measured moves.",
 NOTE + " Bounds leave a factor of about three over what is observed.", technique="runtime monitoring: work counters in user types checked against logical-step bounds", observe=["clone, metadata and navigation counters"], scale=6)

prop("C28", "Equality and hashing follow contents",
 "Two unfocused sequences compare equal exactly when they hold the same elements and archive points (levels and names), however either was produced; the same holds for sequences focused at the same place, archive stacks (active run and archived runs with their metadata and names), lists with their element names, and level trees. Equal values hash equally, clones are equal to their originals, and the empty sequence equals any sequence emptied by editing. Memoised computations find earlier results by this equality. (Under the incremental engine: unnamed data, since named data is compared by location.)",
 ["histories", "inputs", "configurations"], "all pairs of histories arriving at equal or slightly different contents, metadata types, both engines",
 "No test compares whole structures from different histories; a shortcut in a comparison only shows on particular near-equal pairs.",
 [RAZ, LT, CUR, AS, "src/stack.rs", META], M(("PartialEq/Eq/Hash of RazTree, Raz, TreeData", RAZ), ("Tree equality and hash", LT), ("canonical trees independent of history", CUR), ("AStack equality", AS)),
 "Each execution builds one sequence in up to five ways and up to eight slightly changed ones, comparing all with the first; non-trivial with at least two archive points.", NOTE,
 observe=["==, hash, clone of whole structures"], scale=1.5)

prop("C29", "Stack, list, tree and map operations touch only what is at hand",
 "One operation on an archive stack, a list, a level tree, an unfocused sequence or a skiplist map copies, compares and hashes only the elements at hand: the element itself for pushing, pulling, peeking, making a node, going to a branch and iterating one step; the active or the one reopened run for archiving, popping across an archive point, peeking into it and copying the stack; nothing for copying a list, tree or sequence or asking for name, level, length or emptiness; a constant amount of metadata for joining; the keys of the same hash path for map operations, however many operations came before.",
 ["inputs", "histories"], "all operation histories on structures up to thousands of elements, named, unnamed and mixed, both engines",
 "Tests check values only; a structure that silently copies or accumulates its contents passes them all.",
 [AS, "src/stack.rs", LT, RAZ, "src/skiplist.rs"], M(("AStack", AS), ("Stack", "src/stack.rs"), ("Tree", LT), ("RazTree::join", RAZ), ("Skiplist", "src/skiplist.rs")),
 "Each execution is an operation history on one kind of structure with element, metadata and key types that count their own copies, comparisons and hashings, checked after each operation against the number of elements at hand; non-trivial when the structure has several elements or runs.",
 NOTE + " Bounds leave a factor of three over what is observed.", technique="runtime monitoring: work counters in user types checked against logical-step bounds", observe=["clone, comparison, hash and metadata counters"], scale=5)

prop("C30", "Data is released once no value holds it",
 "Under the naive engine nothing is kept alive that no value holds: an unfocused sequence keeps exactly its own elements, and one metadata value per subsequence and archive point, however it was produced; a cursor sequence at most its own elements and those of the sequence it was focused from; an archive stack, a list and a level tree exactly their own, with no copies of what was removed; kept versions add at most what they hold; a computation leaves nothing but its result; reading a map leaves nothing; and once everything is dropped, nothing is left.",
 ["histories", "inputs"], "all operation histories on each kind of structure with kept versions, up to thousands of elements, named, unnamed and mixed",
 "No test looks at lifetimes; retained or leaked data changes no value.",
 [RAZ, AS, "src/stack.rs", LT, CUR, "src/skiplist.rs"], M(("Raz and RazTree", RAZ), ("AStack", AS), ("Stack", "src/stack.rs"), ("Tree", LT), ("Cursor", CUR), ("Skiplist", "src/skiplist.rs")),
 "Each execution is an operation history on one kind of structure with element and metadata types whose constructors and destructors keep a live count, compared after each operation with what the present values hold; non-trivial with more than ten elements (trees: four nodes).",
 NOTE, technique="runtime monitoring: live counts by constructors and destructors of user types against the held contents", observe=["live elements and metadata values"], scale=5)

prop("C34", "Re-converting stacks and recomputing over trees redoes only what changed",
 "Under the incremental engine, with names: converting an archive stack to a sequence again (from either end) after pushing, archiving, removing across archive points, or changing lower runs under their names, rebuilds only the nodes on the paths to what changed (metadata is computed a number of times bounded by the tree heights and the runs touched, and practically never when nothing changed). Folding or mapping a level tree again applies the user function only at nodes whose subtree or place changed (left-to-right folds and folding out an iterator also from the change on while the accumulator differs), and at most at the topmost node when nothing did; the first run applies it once per node. Results are those from scratch.",
 ["inputs", "histories"], "all histories of stack changes and tree edits between runs, all level distributions, hundreds of archive points or nodes",
 "Tests compare results only; work that is silently redone gives the same ones.",
 [RAZ, LT, CUR, "src/memo.rs"], M(("MemoFrom<AtTail>, MemoFrom<AtHead>", RAZ), ("fold_up, fold_lr, map", LT), ("IterR::fold_out", CUR), ("MemoInto", "src/memo.rs")),
 "Each execution builds a stack or a tree, runs one computation, then edits and re-runs it several times, counting metadata computations or user-function applications against the nodes the model says changed; non-trivial with at least 12 archive points or nodes and two edits.",
 NOTE, technique="runtime monitoring: counters in user functions and metadata between edits, bounded by the model's set of changed subtrees", observe=["metadata and user-function applications per re-run", "results"], scale=3)

prop("C36", "User code may itself use collections, or fail, without lasting effect",
 "Functions, metadata and index types, rebuild functions and element types handed to a collection may use collections themselves while they are called (their own, or under the naive engine the very values being operated on): every operation, outer and inner, gives what it gives without. Under the naive engine, when any call of user code panics, at whichever of its calls and however often in a row, the panic passes through, every value existing before is as it was, and the same operation without the failure then gives the same result as if nothing had happened. This holds for editing, focusing, folding, mapping, joining and converting sequences, stacks, level trees, tree cursors and iterators, maps, lists, comparison and hashing.",
 ["inputs", "histories", "fault_sequences"], "all operation histories, all points at which user code is called, all kinds of inner use; failures only under the naive engine (the incremental engine itself does not survive them); inner use from element comparison, hashing and cloning only under the naive engine (the incremental one calls those while it is locked)",
 "Tests use simple functions; shared scratch state or a guard left set shows only when calls overlap or are cut short.",
 [RAZ, CUR, LT, AS, "src/stack.rs", "src/skiplist.rs", META], M(("focus, unfocus, folds, map", RAZ), ("up, join with rebuild functions", CUR), ("fold_up, fold_lr, map", LT), ("ext, get", "src/skiplist.rs")),
 "Each execution runs one history over all structures, with inner uses at a quarter of the calls of user code (differential against the same history without), or with panics at chosen calls of every step; non-trivial with more than four steps.",
 NOTE, technique="runtime monitoring with fault injection: user types that use collections or panic at chosen calls, differential against undisturbed runs", observe=["inner uses", "injected failures per operation", "values read after each"], scale=3)

ALLF = [RAZ, CUR, LT, AS, "src/stack.rs", META, "src/memo.rs", "src/skiplist.rs", "src/lib.rs"]
EVF = ["eval/src/eval_iraz.rs", "eval/src/eval_raz_name_index.rs", "eval/src/eval_vec.rs", "eval/src/accum_lists.rs", "eval/src/actions.rs", "eval/src/types.rs"]
prop("C32", "No use of the collections corrupts memory",
 "Whatever is done through the safe interface of any of the collections, the evaluation crate's structures or the sample types, under either engine, no operation reads or writes outside its objects, uses memory after it was released or releases it twice, or computes with uninitialised memory; iterators, cursors, kept versions and memoised results that outlive what they came from stay valid.",
 ["inputs", "histories", "configurations"], "all operation histories on every collection, all element and metadata types with their own allocation, both engines",
 "Wrong memory accesses usually return plausible values; tests pass until the allocator happens to reuse the block.",
 ALLF + EVF, M(("subsequence vectors split and copied at the cursor", RAZ), ("split_vec slices", META), ("shared trees and forests", CUR), ("pop moving elements out of shared runs", AS), ("peek handing out a reference", "src/stack.rs")),
 "Each execution is one case of another property's workload run in a build with the address or memory sanitizer (memory: standard library instrumented too) and with the checks debug builds put around unsafe operations; thorough adds the interpreter Miri (aliasing, uninitialised reads) on small cases. Non-trivial as in that property.",
 NOTE + " The dependency adapton is instrumented as well, so a report there would also be seen.",
 technique="compiler sanitizers (address, memory with instrumented std; Miri in thorough) over the randomized workloads of all properties", observe=["sanitizer reports"], sanitizers=["mon-asan", "mon-msan", "evalmon-asan"])

prop("C33", "Threads working on their own collections do not influence one another",
 "Collections used in several threads at once, each thread with its own engine and its own values, behave in each thread exactly as if it were alone, whatever the others do and at any interleaving: same results, names, levels in range, reuse and work; and no memory is shared between them without synchronisation.",
 ["schedules", "histories"], "all interleavings of threads running any of the operation histories, both engines",
 "All tests look at one history; state kept per process (a counter, a cache, a scratch buffer) only shows when another thread changes it in between.",
 ALLF + EVF, M(("level generators", LT), ("inc_level", "src/lib.rs"), ("names derived from element names", RAZ), ("observation counters per map", "src/skiplist.rs"), ("harness coordinates", "eval/src/eval_iraz.rs")),
 "Each process runs four threads with the workloads of three properties, in a build with the thread sanitizer (standard library instrumented too; evaluation crate: no sanitizer), each execution judged by its property's own monitor; an alarm counts when the same executions pass one after another. Non-trivial as in that property.",
 NOTE + " Interleavings are those of eight cores under load, not enumerated; the race detector needs only one execution of the two accesses, in any order.",
 technique="race detector (ThreadSanitizer with instrumented std) and the properties' own monitors in concurrent threads, compared with the same executions alone", observe=["race reports", "results of every thread's monitors"], sanitizers=["mon-tsan", "evalmon"])

exec(open(os.path.join(HERE, "tools", "props_eval.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_eval.py")) else None

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert all(os.path.exists("/repo/" + x) for x in p["files"]), p["files"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=p["state"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=p["hook"]))) + "\n")
    conf = {}
    for p in P:
        c = dict(crate=p["crate"], rule=p["rule"], quick=dict(scale=p["scale"]), thorough=dict(scale=4))
        if p["assumptions"]: c["assumptions"] = p["assumptions"]
        for k, v in p["conf"].items():
            if isinstance(v, dict) and k in c: c[k].update(v)
            else: c[k] = v
        conf[p["id"]] = c
    json.dump(conf, open(os.path.join(HERE, "checks.json"), "w"), indent=1)
    json.dump(dict(version=1, setup_cmd="python3 check.py --build",
        checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                     thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                     technique=p["technique"], level="exploration", level_note=p["level_note"]) for p in P],
        not_applicable=[],
        notes="No hooks: every monitor works through the public API with user-supplied recording types and functions."),
        open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
main()
