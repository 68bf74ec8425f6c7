import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

INS="src/tree/insert.rs"; FIX="src/tree/fix.rs"; NODE="src/tree/node.rs"; MOD="src/tree/mod.rs"; ITER="src/tree/iter.rs"; SR="src/tree/slice_ref.rs"; CUR="src/cursor.rs"

p("C01","Tree contents equal the reference sequence after any insertion history",
"After any history of insertions at any positions, the tree's ordered list of runs (each with its size and value) and its total size and run count are exactly those of a plain ordered sequence to which the same insertions were applied: a run containing the insertion point is split there, everything after it shifts right by the inserted size, and a run joins its new neighbour exactly when the user's join accepts it. Nothing is lost, duplicated, reordered or resized, whichever feature parameter and node size are used.",
["histories","configurations"],
"Every finite history of insertions (any position from start to end of the tree, any positive size, any slice type whose split and join obey the documented contract), for every feature parameter and every minimum-keys value.",
"The repository's tests replay a few dozen recorded histories; the tree has many insertion paths (leaf with room, overflow left/middle/right, key split, neighbour in an ancestor, multi-level root growth, tiny nodes) whose combinations only arise in particular histories.",
[INS,FIX,NODE,MOD],
[("find_insertion_point / do_insert_full*: locate, split, join and place the new run",INS),("insert_rhs: second insertion of the right half of a split run",INS),("do_insert_full_edge_no_join_split(_small_m) and BubbledInsertState::do_upward_step: overflow handling",INS),("PostInsertTraversalState::do_upward_step, shift_keys: propagate sizes and positions",FIX)],
[("Leaf.keys/vals/total_size","relative positions, values and subtree size of a node",NODE),("Root.len","number of runs",MOD)],
["full iteration, size() and run count after each step"])

p("C02","Point lookup returns the one run that covers the index",
"For every index inside the tree, looking it up returns exactly the run of the reference sequence that covers it: the reported range contains the index, starts and ends where the run does, its reported size is the run's size, and the value is the run's value. This holds with or without a path hint.",
["inputs","histories"],
"Every index in bounds, in every tree reachable by an insertion history, for every feature parameter and node size.",
"Tests look up a handful of positions in fixed trees; boundaries between a node's keys and its children's extents differ at every tree shape.",
[MOD,"src/tree/entry.rs",NODE],
[("get_with_cursor: descent accumulating the position",MOD),("search_step: binary search plus hint check",MOD),("SliceEntry::range/size/slice","src/tree/entry.rs")],None,["get / get_with_cursor for all run boundaries and interior points"])

p("C03","Range iteration yields exactly the overlapping runs, from both ends",
"Iterating a range yields exactly the runs that overlap it, in order, each with its own full extent, for any interleaving of steps from the front and from the back; every run is produced once in total and once exhausted the iterator stays exhausted. Ranges that start after their end or reach beyond the tree are refused with a panic, and the empty prefix range yields nothing.",
["inputs","histories"],
"Every range form (unbounded, inclusive, exclusive ends, bounds at, inside and outside run boundaries and beyond the tree), every interleaving of front and back steps, every reachable tree, with and without a path hint, including trees that share nodes with clones.",
"Tests iterate a few fixed trees mostly from the front; the two ends keep independent stacks whose meeting point, excluded ends falling on a key boundary and shared-node parents only matter for particular shapes and interleavings.",
[ITER,MOD,"src/range.rs"],
[("Iter::new: bounds validation and empty special case",ITER),("make_stack: descent to either end",ITER),("IterStack::fwd_step/bkwd_step and the meet test in next/next_back",ITER)],
[("IterStack.stack","nodes whose child points at a different parent (clone-on-write)",ITER)],["iter / iter_with_cursor, next and next_back"])

p("C04","Split and join calls follow the documented contract; runs merge maximally",
"Every insertion splits at most one run, at an offset strictly inside it, and offers the new value to each neighbouring run at most once, always with the left-positioned value as receiver and the value positioned immediately right as argument, and only when the type declares that it may join. Afterwards no two neighbouring runs touched by the insertion that would accept being joined are left separate, and a refused join leaves both values in place unchanged.",
["histories","inputs"],
"Every insertion history over slice types with accepting, refusing, position-dependent and never-joining joins.",
"Tests only observe final contents of a constant-run slice type, for which wrong arguments, swapped operands or repeated offers are invisible.",
[INS,"src/public_traits.rs","src/lib.rs"],
[("do_insert_full_split_key: split plus joins with both halves",INS),("do_insert_full_edge_try_join: joins with keys on either side, possibly in an ancestor",INS),("Slice trait contract","src/public_traits.rs")],None,["instrumented slice type logging every split and join call with its operands"])

p("C05","Path hints never change a result, only its cost",
"Supplying any path hint at all - accurate, stale, for another tree, too long, too short, random or taken from a differently shaped clone - to a lookup, insertion or iteration gives exactly the result and resulting tree of the same call without a hint, and never causes a panic or an invalid access.",
["inputs","histories"],
"Every sequence of hint components (0-255, any length), every operation that accepts a hint, every reachable tree.",
"Tests and fuzz runners only use hints the library itself produced; a wrong hint exercises the validation branch at each level of the descent.",
[MOD,INS,ITER,CUR],
[("search_step: hint validated against child bounds before use",MOD),("find_insertion_point: hint use and discard",INS),("make_stack: hint use on first step",ITER)],None,["differential run of hinted versus unhinted operation on twin trees"])

p("C06","Returned cursors describe the exact path to the run, from every source",
"The cursor returned by an insertion, by asking the tree for a cursor to an index, by an entry and by a slice reference all describe the same exact path from the root to the node holding that run at that moment, and following that path as a hint finds the run with no hint ever rejected. The bounded cursor stores the path exactly when it fits its capacity and otherwise keeps the components nearest the root, in order.",
["histories","inputs"],
"Every reachable tree and every run in it, all feature parameters including trees sharing nodes with clones, every bounded-cursor capacity.",
"Tests never read a cursor's content; a wrong path is silently ignored as a bad hint so nothing else can reveal it.",
[CUR,MOD,INS,FIX,"src/tree/entry.rs",SR],
[("cursor_to with recursion for mismatched parents",MOD),("cursor_to_handle","src/tree/entry.rs"),("CursorBuilder prepends during the upward traversal of an insertion",INS+", "+FIX),("BoundedCursor::prepend_to_path and its iterator",CUR)],None,["user-defined cursor recording every component; structural ground truth from child walks with hints"])

p("C07","A slice reference keeps naming its run through every later insertion",
"A reference made to a run (by lookup or as the result of an insertion) continues, after any later insertions, to report the current value and current range of that same run: if the run is split it names the left part, if it is joined it names the joined run, and otherwise it moves with the run. References are reported valid for as long as the tree lives, copies of a reference behave identically, and an insertion's own reference names the run that contains the inserted value.",
["histories"],
"Every history of insertions, reference creations, copies and drops, every node size, joining and non-joining slice types.",
"The slice-reference tests contain two short scenarios; a reference must be re-pointed at every internal move of its run (shift, overflow split, root growth, join), which only long histories reach.",
[SR,INS,NODE,"src/recycle.rs"],
[("SliceRefStore::update/redirect/suspend on every key move",SR),("collapse_refs",SR),("insert/insert_rhs/split bookkeeping of ref ids",INS),("SliceHandle::range: position from parent links",NODE)],
[("RecycleVec entries","id to location map","src/recycle.rs"),("per-run ref id","back pointer from run to reference entry",NODE)],["range, borrowed value and cursor of every live reference after each step"])

p("C08","Reference and borrow lifecycle obeys its documented state machine",
"Whether a reference is valid, may be borrowed, and what its fallible accessors return follow only from the documented state (tree alive and idle, shared-borrowed, or dropped) in any order of creating, copying and dropping references, borrows, mapped borrows and the tree itself; fallible accessors never panic, the panicking ones panic exactly when the fallible ones return nothing, inserting while a borrow is held panics without altering the tree, and copying or dropping a reference never panics. When the tree is dropped while a borrow is held the contents stay readable through it and are released exactly once when the last borrow ends.",
["histories"],
"Every interleaving of reference, copy, borrow, map, drop-tree, drop-borrow and insertion operations, including operations on references whose tree is gone.",
"Existing tests drop things in one order; the lifecycle is a hand-written count plus state cell in which each order of drops is a separate path.",
[SR,"src/recycle.rs"],
[("BorrowState transitions: borrow_refs, drop_borrow, acquire_mutable, try_acquire_drop",SR),("SliceRef::clone / do_drop weak count",SR),("SliceRefStore::drop and InnerStore::drop",SR)],
[("borrow","borrow state of the tree",SR),("weak_count","references keeping the store allocation alive",SR)],["is_valid, can_borrow, try_*, panicking accessors, drop ledger"])

p("C09","Clones of a clone-on-write tree are fully isolated from each other",
"After a shallow clone, any sequence of insertions into, further clones of and drops of any member of the family changes only the member operated on: every other member keeps exactly the contents, lookups, iteration and cursors it would have had alone. Mutating a member never mutates a value reachable from another member.",
["histories"],
"Every tree of clones with every interleaving of insertions, clones and drops over the members.",
"Tests cover a handful of clone-then-insert scripts; whether a node on a path is shared depends on the whole history of the family, and parent links inside shared nodes are deliberately stale.",
["src/tree/cow.rs",NODE,INS,MOD,ITER],
[("make_unique / shallow clone of a node with child count bumps",NODE),("into_child on mutable handles making the child unique",NODE),("iteration and cursor_to with mismatched parents",ITER+", "+MOD)],
[("strong_count","owners of a node",NODE)],["all family members compared with their own models after each step"])

p("C10","Clone-on-write trees can be used from many threads at once",
"Clones handed to different threads can be read, mutated, cloned again and dropped concurrently with every thread seeing exactly the contents of its own history, and with every stored value dropped exactly once and no data race, whatever the interleaving.",
["schedules","histories"],
"Every interleaving of the threads' operations over shared nodes (sampled: generated per-thread histories, barriers and perturbation, race detection on top).",
"No test in the repository uses threads at all.",
["src/tree/cow.rs",NODE],
[("atomic strong count: increment, is_unique, decrement ordering","src/tree/cow.rs"),("make_unique: reuse-or-copy decision",NODE)],[("strong_count","owners of a node","src/tree/cow.rs")],["per-thread model comparison and global drop ledger; ThreadSanitizer/Miri runs"])

p("C11","A deep clone is an equal, fully independent tree",
"Cloning a tree without sharing features yields a tree with identical contents, size, run count and valid structure, and from then on operations on or drops of either tree never affect the other; each stored value is cloned exactly once.",
["histories"],
"Every reachable tree (any height and node size) and every continuation on both copies.",
"Tests do not clone non-shared trees beyond trivial ones; the copy recurses through every level re-linking parents.",
[NODE,MOD],[("deep_clone: recursive copy and parent re-linking",NODE),("Clone for RleTree without features",MOD)],None,["contents, structure validation and clone counts of both trees"])

p("C12","Every stored value is dropped exactly once and nothing leaks",
"Over any history, every value handed to the tree, produced by a split, a join or a clone is dropped exactly once - when it is replaced by a join, when the last tree holding it goes away, or when it is refused - and no earlier than its last use; after everything is dropped no value and no memory is left over.",
["histories"],
"Every history of insertions, clones, references, borrows and drops in any order, for every feature parameter.",
"Tests use plain copyable values without destructors, so double drops and leaks cannot be observed.",
[NODE,MOD,SR,INS],[("do_drop / try_drop recursive destructors",NODE),("destruct_root, NodeBox",MOD),("InnerStore drop and dealloc",SR),("ManuallyDrop/MaybeUninit moves of keys between nodes",NODE)],None,["drop ledger keyed by token; allocation counter"])

p("C13","A panic in user code never corrupts memory or other trees",
"If a user-supplied operation (split, join, clone, comparison, arithmetic or cursor step) panics during an insertion, lookup, iteration, clone or serialization, the panic reaches the caller, no value is ever dropped twice or used after drop, the affected tree can still be dropped, other clones of it remain intact and usable, and references report unavailability rather than misbehave. After the failed operation, a read-only operation leaves the tree exactly as before.",
["fault_sequences"],
"For every history, a panic at each individual callback invocation of the operation (first, second, ... last).",
"No test injects a panic; the insertion moves values out of nodes between user callbacks, so each callback is a distinct crash point.",
[INS,FIX,NODE,SR],[("key hole marking and NodeBox unwind destructors",NODE+", "+MOD),("mutable borrow state left set after unwinding",SR)],None,["enumerated fault points with drop ledger and address sanitizer"])

p("C14","The tree stays a balanced, correctly linked B-tree",
"After every operation all leaves are at the same depth, every node holds at most twice the minimum number of runs and every node but the root at least the minimum, recorded positions and sizes add up at every level, parent links agree with child positions in unshared trees, and the height stays within the logarithmic bound.",
["histories","configurations"],
"Every insertion history, every feature parameter, minimum-keys values across the allowed range and every insertion pattern.",
"Node-level arithmetic errors often still give right answers to the few queries a test makes and only surface many operations later.",
[INS,FIX,NODE,MOD],[("overflow split, rebalancing and root growth",INS),("make_new_parent and child parent-link updates",NODE)],None,["built-in structural validation plus path shapes recorded by a user cursor"],None)

p("C15","Cost of operations is logarithmic and copying limited to one path",
"Lookups, insertions, cursor requests and reference queries perform at most a logarithmic number of user-visible index operations in the number of runs, an exact hint removes the search cost at inner levels, cloning a shareable tree clones no values, and an insertion into a shared tree clones only values stored in nodes along the path it changes.",
["histories","configurations"],
"Every reachable tree size and shape; counts of user-supplied callbacks instead of time.",
"Tests never measure work; a linear scan or an over-eager copy gives the same results.",
[MOD,INS,FIX,NODE],[("binary search per node with hint shortcut",MOD),("relative positions so only one path is updated",FIX),("path copying",NODE)],None,["callback counters in user-defined index and slice types"])

p("C16","Serialization round-trips and uses the documented sequence form",
"Serializing a tree produces the in-order sequence of (size, value) pairs, one per run, and deserializing such a sequence gives a tree with the same runs (merged where the type joins), for every feature parameter; malformed input is reported as an error without leaking. Serializing a deserialized tree reproduces the sequence.",
["inputs","histories"],
"Every reachable tree, every index type, and arbitrary well-typed or ill-typed sequences.",
"There is no test of the serialization support at all.",
["src/serde.rs","src/tree/entry.rs"],[("collect_seq over entries","src/serde.rs"),("visit_seq re-inserting at the end","src/serde.rs")],None,["serialized text and the tree read back"])

p("C17","Range predicates agree with set semantics of ranges",
"For every range form, containment agrees with the mathematical set the bounds denote, and the emptiness, start-after-end and overlap tests return what that set semantics gives in every case their documentation does not exempt; converting or referencing a range never changes its bounds.",
["inputs"],
"Every pair of range forms and bounds (exhaustive over a small ordered domain, random over wide integers).",
"Only doc examples exist; the predicates are a case analysis over nine bound combinations each.",
["src/range.rs"],[("contains, starts_after_end, is_empty_naive, overlaps_naive","src/range.rs"),("implementations for the standard range types","src/range.rs")],None,["predicate results against brute-force enumeration"])

p("C18","Order-sensitive (non-commutative) index arithmetic gives exact results",
"For any index type satisfying the documented directional arithmetic laws, commutative or not, every run's reported range, size and position in lookups, iteration, references, insertion and serialization equals the order-respecting sum of the sizes before it; operands are never combined out of positional order.",
["inputs","histories","configurations"],
"Every insertion history over a genuinely non-commutative ordered index group, for every feature parameter and node size.",
"All tests use unsigned integers, for which left and right arithmetic coincide, although supporting two-dimensional indexes is the stated reason for the directional interface.",
[INS,FIX,MOD,ITER,NODE,"src/public_traits.rs"],[("add_left/add_right/sub_left/sub_right choice at each position update",FIX+", "+INS+", "+NODE),("SliceEntry::size","src/tree/entry.rs")],None,["non-commutative ordered group index compared with reference prefix products"])

p("C19","Refused calls panic cleanly and leave the tree untouched",
"Calls the documentation declares invalid - inserting past the end or with a non-positive size, looking up or asking a cursor out of bounds, iterating an invalid range, creating a tree with an unsupported node size - panic, and calls it declares valid do not; a refused call leaves contents, references and clones exactly as they were, drops the refused value, and the tree stays fully usable.",
["inputs","histories"],
"Every argument around and far beyond each boundary, on every reachable tree and feature parameter.",
"Tests check a few documented panics on one tiny tree and never look at the state afterwards.",
[MOD,INS,ITER],[("argument checks before any mutation",INS+", "+MOD),("range checks",ITER)],None,["panic/no panic and full state comparison afterwards"])

p("C20","The shipped mock agrees with the reference sequence on every operation",
"The list-backed stand-in shipped for fuzzing reports the same contents, sizes, lookups, iteration results, references and refusals as the reference sequence, and hence as the real tree, for every history both support.",
["histories","inputs"],
"Every history of insertions, lookups, iterations and reference queries.",
"It is the oracle of the project's own fuzzing, so an error in it hides real defects; it has only four unit tests.",
["src/mock.rs"],[("insert with split, join and reference remapping","src/mock.rs"),("iter index computation","src/mock.rs")],None,["every query of the stand-in against the reference sequence"])

p("C21","No operation sequence causes undefined behaviour",
"No sequence of safe API calls, with any well- or ill-behaved user-supplied index, slice or cursor implementation, reads or writes memory out of bounds or after release, reads uninitialised data, or violates aliasing: it either works, panics or returns.",
["histories","inputs"],
"Every history of safe calls over well-behaved and deliberately inconsistent user types, for every feature parameter.",
"Tests run without memory checking on well-behaved types only; the implementation is built on raw pointers and uninitialised arrays.",
[NODE,INS,FIX,SR,ITER,"src/recycle.rs"],[("typed node handles with borrow markers",NODE),("uninitialised key arrays and key holes",NODE),("raw parent pointers",NODE)],None,["address sanitizer and Miri over generated histories"])

p("C22","Draining a range removes and yields exactly that range",
"Draining a range removes exactly the part of the sequence inside it, yields the removed runs (cut at the endpoints) in order from either end, and leaves the remainder joined as the reference sequence would, also when the drain is dropped early.",
["histories","inputs"],
"Every range on every reachable tree and every interleaving of steps and early drop.",
"The operation has no working test: its iteration is not implemented at this commit.",
["src/tree/drain.rs"],[("Drain iteration (unimplemented)","src/tree/drain.rs")],None,["drained items and remaining contents"])

p("C23","The fuzzing command layer predicts the real tree and prints faithful tests",
"No byte string makes the decoder panic, and every byte string it accepts decodes to a command sequence whose predicted outcomes (values, ranges, cursors, panics) the real tree meets when the sequence is run, and the textual form of a sequence is a complete test that compiles, passes on a correct tree and fails when one of its expectations is wrong, performing the same calls with the same expectations.",
["inputs","programs"],
"Every byte string and every feature parameter.",
"Nothing tests the command layer; an error in it either reports defects that do not exist or masks real ones.",
["fuzz-utils/src/lib.rs","src/mock.rs"],[("Arbitrary decoding into commands with stand-in predictions","fuzz-utils/src/lib.rs"),("runner comparing with the real tree","fuzz-utils/src/lib.rs"),("Debug output as a Rust test","fuzz-utils/src/lib.rs")],None,["runner result; compiled and executed printed tests"])

p("C24","Thread-safety markers are granted exactly when documented",
"A tree can be sent to or shared with another thread exactly for the combinations of feature parameter, index and value types the documentation allows, so that no safe program can move or drop a thread-confined value on another thread; entries, iterators, references and borrows grant no more than shared access to the indexes and values they reach allows, and safe code cannot implement the traits that decide any of this.",
["programs","configurations"],
"All combinations of feature parameter and element types over the Send/Sync lattice for each public type.",
"Marker impls are not exercised by any test; a too-permissive bound compiles silently.",
[MOD,"src/param.rs","src/tree/entry.rs",ITER,SR],[("unsafe Send/Sync impls",MOD+", src/tree/entry.rs, "+ITER),("RleTreeIsSend table","src/param.rs")],None,["compile-time trait probes over generated type combinations"])

p("C25","Behaviour does not depend on feature parameter, node size or index width",
"The same history gives the same observable results with every feature parameter, every permitted minimum-keys value from 1 to 127, every built-in unsigned index width wide enough for the sizes, and with or without optional crate features; node sizes outside the permitted range are refused at construction.",
["configurations","histories"],
"All feature parameters, minimum-keys 1..127, index widths u8..u128 and usize, total sizes up to the width's maximum.",
"Tests use node sizes 1, 3 and the default with one or two index widths.",
[MOD,INS,NODE,"src/const_math_hack.rs","src/param.rs"],[("array sizes computed from the node size","src/const_math_hack.rs"),("small-node special case",INS),("construction check",MOD)],None,["differential results across instantiations"])

p("C26","A tree of Constant values is the run-length encoding of a flat array",
"A tree of the shipped Constant values over any built-in unsigned index reads, position by position, like the flat array produced by the same insertions, up to totals of exactly the index type's maximum. Each run reported by a lookup, an iteration or a reference is one maximal stretch of equal values, so the number of runs is the smallest possible; values that are not equal to themselves never merge.",
["histories","inputs"],
"All histories, all built-in index types, all value types that can be compared and cloned.",
"Plain run-length encoding is the advertised use; tests of it use a handful of short histories.",
["src/lib.rs","src/public_traits.rs",INS],[("Constant's split and join","src/lib.rs"),("built-in index arithmetic","src/public_traits.rs"),("merging with neighbours",INS)],None,["entries, ranges and sizes against a flat array"])

p("C27","What is borrowed from a tree never outlives what it is borrowed from",
"Safe code can hold on to an entry, a value of it, an iterator or a borrow only while the tree or reference it came from is neither changed, moved nor dropped, and to a tree, reference or borrow whose destructor uses its values only while everything the values refer to exists; stored types cannot be made longer- or shorter-lived by conversion in a way that would get around this. Programs which keep to that are accepted and read back what they stored, with and without the nightly feature (which accepts more, but nothing unsound).",
["programs","configurations"],
"All safe programs over the public API, all feature parameters, stable and nightly.",
"Lifetimes, variance and drop-check decide about programs that must not compile; no test of an accepted program can see a bound that is too permissive.",
[MOD,"src/tree/entry.rs",ITER,SR,NODE],[("tree destructor with may_dangle",MOD),("lifetimes of entries and iterators","src/tree/entry.rs, "+ITER),("borrows of referenced values",SR)],None,["which generated programs the compiler accepts; what accepted programs read when run"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,sch)
    n=x["statement"].count(". ")+1
    if n>3: print(x["id"],n)
