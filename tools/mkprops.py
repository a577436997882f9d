import json
P=[]
def add(id,title,stmt,over,qt,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
PAR="parallel/parallel.go"; SPEC="speculative/speculative.go"; SEQ="sequential/sequential.go"; INT="internal/internal.go"; MAP="sync/map.go"
QS="sort/quicksort.go"; MS="sort/mergesort.go"; SO="sort/sort.go"
PI="pipeline/pipeline.go"; SRC="pipeline/source.go"; FI="pipeline/filters.go"; F1="pipeline/filter.go"
NODES=["pipeline/seqnode.go","pipeline/parnode.go","pipeline/lparnode.go","pipeline/strictordnode.go"]

add("C01","Range functions split [low,high) into batches that tile it exactly",
"For every low <= high whose size fits in an int and every n >= 0, the sub-ranges that the Range, RangeAnd, RangeOr and RangeReduce functions of packages parallel, sequential and speculative pass to the user function cover [low,high) exactly: no index is missed or passed twice, every sub-range lies inside [low,high), and none is empty unless low == high, in which case there is exactly one call with the empty range. There are at most n calls when n > 0, at most 2*GOMAXPROCS calls when n == 0, and never more calls than indices (when low < high); when n > 0 divides the size, the size is divided by n as documented: there are exactly n calls with sub-ranges of the same size. (The speculative functions, and sequential functions that may stop early, may omit trailing sub-ranges only once an outcome is decided.)",
["inputs","configurations","schedules"],"all 64-bit low, high with representable size, all n (dense small, huge symbolic), all GOMAXPROCS values within the bound, all schedules of the spawned goroutines",
"Tests run RangeReduce on a handful of fixed ranges; rounding of batch sizes and overflow of low+batchSize*half depend on the exact (low, high, n) triple.",
[PAR,SPEC,SEQ,INT],[("ComputeNofBatches","internal/internal.go"),("recur closures halving n and computing mid","parallel/parallel.go, speculative/speculative.go"),("sequential batch loop","sequential/sequential.go")],observe=["arguments of the user function"])
add("C02","Range functions panic exactly on invalid ranges or batch counts",
"Every Range function of packages parallel, sequential and speculative panics, without invoking any user function, if high < low or n < 0, for all integer values including the extremes where high-low overflows. It never panics by itself when low <= high, the size high-low fits in an int, and n >= 0.",
["inputs"],"all 64-bit low, high, n",
"No test passes an invalid range; the interesting values (size overflow, negative n with an empty range) are single points of a 192-bit input space.",
[INT,PAR,SPEC,SEQ],[("ComputeNofBatches argument validation","internal/internal.go")],observe=["panic of the call","calls of the user function"])
add("C03","parallel functions run every function once and return only after all ended",
"When no user function panics, every function of package parallel (Do, And, Or, the Reduce and Range families) invokes each given function, or the range function for each batch, exactly once, and returns only after all of those invocations have terminated. All their memory effects are visible to the caller after the return without further synchronization, in every schedule.",
["schedules","inputs","configurations"],"all schedules of the spawned goroutines, every number of functions up to the bound plus selected large ones, every function of the package",
"Tests observe a few counts under whatever schedule happens to occur; a missing or misplaced Wait only shows when a goroutine is late.",
[PAR],[("sync.WaitGroup Add/Done/Wait around each spawned half","parallel/parallel.go"),("slice halving of the function list","parallel/parallel.go")],observe=["call counts of user functions","happens-before between user functions and the return"])
add("C04","parallel reductions equal the left-to-right fold of the results",
"Reduce and RangeReduce (all result types), the Sum and Product variants, And and Or of package parallel return, for every schedule, the value obtained by combining the results of the functions (or batches) in their left-to-right order with the given associative join (or +, *, &&, ||), including non-commutative joins. The documented neutral element is returned for zero functions where zero functions are allowed.",
["inputs","schedules"],"all result values (symbolic), all numbers of functions and batches in the bound, all schedules",
"Tests use commutative integer sums of fixed sizes, which cannot see swapped operands, a dropped element at an odd split, or overwritten partial results.",
[PAR],[("join(left, right) / left + right / left * right","parallel/parallel.go"),("halving of the function list and of the range","parallel/parallel.go")],observe=["return value","arguments of join"])
add("C05","parallel functions propagate the left-most panic in every schedule",
"If one or more of the functions given to a function of package parallel panic, the call panics as well, in every schedule, with the value of the left-most panicking function; a panic is never lost, never kills the process from a spawned goroutine, and never turns into a normal return. No function is invoked more than once, and the result of a call in which no function panics is never affected.",
["inputs","schedules","fault_sequences"],"every subset of panicking functions, every count in the bound, every schedule",
"No test makes a function panic at all.",
[PAR,INT],[("deferred recover + WrapPanic before wg.Done","parallel/parallel.go"),("if p != nil { panic(p) } after wg.Wait","parallel/parallel.go")],observe=["recovered panic value of the call"])
add("C06","A rethrown panic value keeps its text and its error nature",
"The value rethrown for a panic recovered in a spawned goroutine (by packages parallel, speculative and sync) contains the text of the original value, is an error if and only if the original value was an error, and is a runtime.Error if and only if the original was a runtime.Error, no matter how many goroutine levels it passes through. A function that did not panic produces no panic value, and every non-nil panic value, including zero values such as 0, \"\" or false, is treated as a panic.",
["inputs"],"every kind of panic value (error, runtime.Error, string, other, symbolic zero/non-zero values), nesting depth up to the bound",
"No test exercises WrapPanic; only panic values of unusual type expose a wrong classification.",
[INT,PAR,SPEC],[("WrapPanic","internal/internal.go"),("runtimeError wrapper","internal/internal.go")],observe=["dynamic type and text of the recovered value"])
add("C07","speculative functions return the decision of the left-most deciding function",
"Do, And, Or, the Reduce and Range families of package speculative return, in every schedule, what a left-to-right sequential evaluation with early termination would return: the result of the left-most function (or batch) that decides, or, if none decides, the combination of all results in left-to-right order (with a join that itself may decide). If none decides, every function has been invoked exactly once and has terminated when the call returns.",
["inputs","schedules"],"all vectors of decisions and values (symbolic), all counts in the bound, all schedules",
"speculative has no tests of its own; the result depends on 2^n decision vectors times schedules.",
[SPEC],[("if b0 return left; wg.Wait; if b1 return right; join","speculative/speculative.go")],observe=["return values"])
add("C08","speculative functions do not wait for functions right of the deciding one",
"As soon as the left-most deciding function of a speculative call and everything to its left have terminated, the call returns even if functions to the right of it never terminate, in every schedule; those functions are never invoked more than once and their late termination (normally, deciding, or by panicking) has no effect on the result and does not crash the program.",
["schedules","inputs"],"every position of the deciding function, every count in the bound, every schedule, with all functions to the right blocked until after the return",
"Tests cannot observe waiting with terminating functions; requires right neighbours that never end.",
[SPEC],[("early return before wg.Wait","speculative/speculative.go"),("recover in the spawned goroutine","speculative/speculative.go")],observe=["return of the call while right functions are blocked"])
add("C09","speculative functions propagate the left-most panic unless decided before",
"If no function to the left of the left-most panicking function decides the result, a speculative call panics with that function's panic value, in every schedule; if a function to the left of every panicking function decides, the call returns that decision normally. A panic in a spawned goroutine never crashes the program and is never silently dropped when nothing left of it decided.",
["inputs","schedules","fault_sequences"],"every vector over {normal, deciding, panicking} up to the bound, every schedule",
"No test makes a speculative function panic.",
[SPEC,INT],[("deferred recover + WrapPanic","speculative/speculative.go")],observe=["recovered panic value","return value"])
add("C10","sequential functions are drop-in equivalents of the parallel ones",
"For the same arguments, every function of package sequential returns the same result as its counterpart in package parallel (for associative joins), combining results in left-to-right order, and invokes the functions or batches in order, one after the other, in the calling goroutine. A panic of a user function propagates unchanged and no later function is invoked.",
["inputs"],"all result values (symbolic), all counts and batch numbers in the bound, any panicking position",
"Package sequential has no tests at all.",
[SEQ,PAR],[("fold loops","sequential/sequential.go"),("batch loops in Range functions","sequential/sequential.go")],observe=["return value","order of calls"])
add("C11","Concurrent operations on one sync.Map key are linearizable",
"For any concurrent use of Load, LoadOrStore, LoadOrCompute, Delete, DeleteOrStore, DeleteOrCompute and Modify, the results and the final contents of the map are those of some sequential order of the operations that is consistent with their real-time order, and there are no data races. In particular of several concurrent LoadOrStore/LoadOrCompute calls for an absent key exactly one stores and all return that value, and no Modify update is lost.",
["schedules","histories","inputs"],"all pairs/triples of operations, all schedules, present or absent initial key, equal or colliding keys",
"sync.Map has no tests; atomicity windows between the read-locked lookup and the locked store need a specific interleaving.",
[MAP],[("double lookup under RLock then Lock","sync/map.go LoadOrStore, LoadOrCompute"),("Lock around lookup and update","sync/map.go DeleteOrStore, DeleteOrCompute, Modify")],state=[("splits","the individually locked partial maps","sync/map.go Map")],observe=["results of the operations","final contents"])
add("C12","sync.Map operations return and store what their contract says",
"For every prior content, key and value (including stored nil values), Load, LoadOrStore, LoadOrCompute, Delete, DeleteOrStore, DeleteOrCompute and Modify return exactly the documented value and flag and change exactly the entry of that key as documented. Computers are called only if the key is absent and at most once, the modifier exactly once with the current value and presence, LoadOrCompute holds no lock of the map during its computer while DeleteOrCompute and Modify hold the lock of the key's split.",
["inputs","histories"],"all operation sequences in the bound from all small contents, symbolic hashes, symbolic values and flags, including nil values",
"sync.Map has no tests.",
[MAP],[("method bodies","sync/map.go"),("Split lookup","sync/map.go Split")],observe=["results","contents","lock state seen by callbacks"])
add("C13","Every key lives in exactly one split, for every hash and map size",
"For every hash value (all 64 bits) and every map size, an entry stored under a key is found by all operations under every equal key, is contained in the Map of exactly the split returned by Split for that key and in no other split, and distinct keys never affect each other even if their hashes are equal. NewMap(size) creates size splits for size > 0 and GOMAXPROCS splits otherwise, each usable immediately.",
["inputs","configurations"],"all 64-bit hashes (symbolic), map sizes in the bound including sizes <= 0, colliding and non-colliding keys",
"sync.Map has no tests; hashes with the top bit set or the maximum value are never sampled.",
[MAP],[("key.Hash() % uint64(len(splits))","sync/map.go Split"),("NewMap","sync/map.go")],observe=["Split","Load after store","contents of split maps"])
add("C14","Map traversals visit every entry exactly once under its split lock",
"Range, ParallelRange and SpeculativeRange call the user function exactly once for every entry of an otherwise unmodified map while holding the lock of the entry's split, and return only after that when the function never returns false; no entry is ever visited twice. Once the function returns false, Range makes no further call, SpeculativeRange returns without waiting for calls in other batches, and neither ever blocks forever; concurrent single-key operations on other splits are not blocked.",
["inputs","schedules","configurations"],"all distributions of entries over splits, map sizes and GOMAXPROCS in the bound, all schedules, any entry for which f returns false",
"sync.Map has no tests; partial visits only show for particular split counts and early completion of one batch.",
[MAP,SPEC,PAR],[("srange/parallelRange under Lock","sync/map.go"),("parallel.Range/speculative.Range over splits","sync/map.go")],observe=["calls of f","lock state during f"])
add("C15","Map predicates and reductions fold all splits, each locked, in order",
"And, Or, Reduce* and their Parallel and Speculative variants on sync.Map call the given function at most once per split, with that split's lock held, and return the combination of the per-split results in split order with the given associative join (or &&, ||, +, *); the Reduce, ParallelReduce and non-deciding Speculative variants call it exactly once per split, And and Or variants call it on every split unless an earlier split of the same batch decides, and all but the deciding Speculative variants return only when all calls have terminated. Speculative variants return the left-most decision.",
["inputs","schedules","configurations"],"all per-split results (symbolic), all split counts in the bound, all schedules, all variants",
"sync.Map has no tests; off-by-one halving only shows for particular split counts.",
[MAP,PAR,SPEC],[("recur over split slices","sync/map.go ParallelReduce*, SpeculativeReduce*"),("predicate/reduce helpers under Lock","sync/map.go")],observe=["return value","calls per split","lock state"])
add("C16","A panic in a function given to sync.Map propagates and leaves no lock held",
"If the function given to a traversal, predicate or reduction method of sync.Map panics (on any subset of the splits), the call panics with the left-most such panic (for Speculative variants: unless an earlier split decided), and afterwards no split lock is left held: every later operation on any key completes. The program never crashes from a spawned goroutine. Likewise, if the function given to LoadOrCompute, DeleteOrCompute or Modify panics, that panic propagates, the entry is unchanged, and no lock is left held.",
["inputs","schedules","fault_sequences"],"every subset of panicking splits, all split counts in the bound, all schedules, all variants",
"No test panics inside a map callback.",
[MAP,INT],[("defer split.Unlock()","sync/map.go"),("deferred recover + WrapPanic","sync/map.go")],observe=["recovered panic","subsequent Modify/Load on every split"])
add("C17","Sort yields a sorted permutation for every input and every size",
"For every collection of every size, sort.Sort terminates, only accesses indices inside the collection, and leaves the collection sorted with respect to Less and a permutation of its original contents, in every schedule and without data races, for any data including many equal elements, already sorted and reverse sorted runs. No two goroutines ever access overlapping index ranges concurrently.",
["inputs","schedules"],"all element values (symbolic) for sizes in the bound around scaled-down grain sizes; real grain size with symbolic elements at symbolic positions in adversarial backgrounds",
"Tests sort one random slice far from the boundary cases; partition index errors need equal pivots, extremes at the ends, or sizes next to the grain size.",
[QS,SO],[("three-way pivot choice and partition loop","sort/quicksort.go"),("IsSorted pre-check","sort/quicksort.go Sort"),("SequentialSort base case","sort/sort.go")],observe=["final contents","index arguments of Less/Swap/SequentialSort"])
add("C18","StableSort yields a stably sorted permutation for every input and size",
"For every collection of every size whose SequentialSort is stable, sort.StableSort terminates, leaves the collection sorted with respect to Less, a permutation of its original contents, and with equal elements in their original order, in every schedule and without data races. It accesses only valid indices of the collection and of its temporary copy.",
["inputs","schedules"],"all element values (symbolic) for sizes in the bound around scaled-down grain sizes; real grain size with symbolic elements in adversarial backgrounds",
"Tests check one random input; stability at merge boundaries depends on equal keys straddling a particular split point.",
[MS,SO],[("pMerge/sMerge and the binary searches","sort/mergesort.go"),("quarter splitting and ping-pong between data and temp","sort/mergesort.go StableSort")],observe=["final contents","index arguments"])
add("C19","IsSorted is exact for every input, size and position of disorder",
"sort.IsSorted and its Ints/Float64s/Strings variants return true if and only if no element is Less than its predecessor, for every collection of every size, in every schedule. In particular a single inversion at any position, including around batch boundaries and in the first elements, is detected and never invented.",
["inputs","schedules"],"all element values (symbolic) for sizes in the bound at scaled thresholds; a single symbolic inversion position at the real thresholds",
"Tests only see sorted or thoroughly shuffled data; one missed boundary comparison is invisible to them.",
[SO],[("serial prefix check, pTest halving, speculative.And","sort/sort.go IsSorted"),("done flag","sort/sort.go IsSorted")],observe=["return value"])
add("C20","IntSlice, Float64Slice and StringSlice sort by the standard library's order",
"IntSlice, Float64Slice and StringSlice implement Len, Less, Swap, SequentialSort, NewTemp and Assign consistently, so that sorting any slice of ints, float64s (including NaN, infinities and signed zeros) or strings with Sort or StableSort gives a slice for which the standard library's IntsAreSorted/Float64sAreSorted/StringsAreSorted holds, and Less agrees with the standard library's order. SequentialSort(i, j) sorts exactly [i,j) stably and leaves the rest untouched, NewTemp has the same length and does not alias, and Assign(i, j, len) copies exactly that range from the source.",
["inputs"],"all element values (symbolic, floats including NaN), all index ranges in the bound",
"Tests use random finite values only; NaN and boundary ranges are never sampled.",
[SO],[("Less/SequentialSort/Assign/NewTemp of the slice types","sort/sort.go")],observe=["slice contents","Less results"])
add("C21","A pipeline delivers every batch to every receiver exactly once, in node order",
"In a run that is neither cancelled nor failed, every element of the source is passed in exactly one batch to every receiver of every node, each batch passes the receivers in the order in which filters and nodes were added, each receiver gets what the previous receiver returned for that batch, and all receivers of one batch see the same sequence number, for every mix of Ord, Seq, StrictOrd, Par, LimitedPar nodes (including nodes without receivers, which are optimized away), every source size and batch count, in every schedule. Run returns only after all of this has happened, without data races.",
["schedules","inputs","configurations","programs"],"all node kind sequences up to the bound, batch counts up to the bound, all schedules",
"One word-count example pipeline is tested; node merging, index handling and stashing depend on node combinations and arrival orders.",
[PI,F1]+NODES,[("TryMerge/Begin removal and FeedForward index","pipeline/pipeline.go"),("feed","pipeline/filter.go"),("node goroutines","pipeline/*node.go")],observe=["receiver calls","return of Run"])
add("C22","Ordered nodes receive batches in encounter order, whatever precedes them",
"Receivers of Ord, StrictOrd, Limit and Skip nodes (and of nodes merged into them) are called with sequence numbers 0, 1, 2, ... without gaps and with the data of the source in encounter order, in every schedule, even if preceded by parallel, limited parallel or sequential nodes and even if merging or removal of empty nodes changes the node list. Batch k holds the data that directly follows batch k-1 in the source.",
["schedules","configurations"],"all node sequences containing an ordered node up to the bound, batch counts up to the bound, all arrival orders",
"Order violations need a particular arrival order of batches; the example runs once.",
NODES+[PI],[("stash and run counter of the ordered goroutine","pipeline/seqnode.go"),("cond/run of strict nodes","pipeline/strictordnode.go"),("makeOrdered","pipeline/lparnode.go"),("propagation of order before strict nodes","pipeline/pipeline.go")],observe=["seqNo and data arguments of receivers"])
add("C23","Sequential receivers never overlap; LimitedPar respects its limit",
"The receivers of one Ord, Seq or StrictOrd node are never executed concurrently with each other: every call happens after the previous call for that node has returned and sees its memory effects. A LimitedPar(limit) node with limit >= 1 never executes its receivers in more than limit goroutines at the same time, while Par and LimitedPar nodes do permit concurrency when limit > 1.",
["schedules","configurations"],"all schedules of pipelines in the bound, all limits in the bound",
"Overlap needs two batches in the same node at the same time, which a single test run rarely produces.",
NODES,[("single goroutine per sequential node","pipeline/seqnode.go, pipeline/strictordnode.go"),("limit goroutines","pipeline/lparnode.go")],observe=["overlap and happens-before of receiver calls"])
add("C24","Finalizers run exactly once, after all receivers, before Run returns",
"When a pipeline run ends without an error (whether or not it was cancelled with Cancel), every finalizer of every node has been called exactly once, after every receiver call of its node and of all earlier nodes has terminated, in the order in which filters and nodes were added, and before Run returns. No receiver is called after such a run has returned.",
["schedules","configurations"],"all node sequences in the bound, all schedules, cancellation at any point or not at all",
"A finalizer running too early needs a late receiver; cancellation points are not tested at all.",
NODES+[PI],[("End: close, Wait, finalize","pipeline/*node.go"),("End loop over nodes","pipeline/pipeline.go RunWithContext")],observe=["finalizer calls","receiver calls"])
add("C25","Run always terminates, however and whenever the pipeline is cancelled",
"For every source, every sequence of nodes and every schedule, Run returns (provided that the receivers and the source return and, unless the pipeline is cancelled, the source ends), with no deadlock and no goroutine of the pipeline left blocked forever, also if Cancel or SetErr is called at any moment by any receiver, finalizer, source or outside goroutine, or the context passed to RunWithContext is cancelled at any moment. After a cancellation, the source is soon asked for no further data, even if it is endless. No run panics because of such a cancellation, and it causes no data race.",
["schedules","fault_sequences","configurations"],"cancellation and error at every point of every schedule of the pipelines in the bound",
"No test cancels a pipeline; lost wake-ups and blocked senders need a particular interleaving of cancellation.",
NODES+[PI],[("select on ctx.Done in every Feed and node goroutine","pipeline/*node.go"),("cond broadcast on cancellation","pipeline/strictordnode.go, pipeline/lparnode.go")],observe=["return of Run","goroutines still blocked"])
add("C26","The first error wins, cancels the pipeline, and is reported by Err",
"Of all SetErr calls on a pipeline, in every schedule, exactly the first call (with a non-nil error) on a pipeline without error returns true, sets the value that Err returns from then on, and, once the pipeline runs, cancels its context; all later calls with non-nil errors return false and change nothing. An error of the source is reported by Err after Run and stops the fetching of further batches, and a pipeline that already has an error does not run; a run without any error leaves Err() == nil.",
["schedules","inputs","fault_sequences"],"all schedules of concurrent SetErr/Err calls, source errors at every batch",
"No test uses SetErr or a failing source.",
[PI,SRC],[("SetErr/Err under the RWMutex","pipeline/pipeline.go"),("source.Err checks in RunWithContext","pipeline/pipeline.go")],observe=["SetErr results","Err","Context().Err"])
add("C27","Batch counts and batch sizes respect NofBatches and SetVariableBatchSize",
"With a source of known size, the pipeline requests equal batch sizes such that at most NofBatches batches are needed (the default being a positive value derived from GOMAXPROCS), for every size and every setting. With a source of unknown size, the requested batch sizes start with batchInc and grow by batchInc with each batch but never exceed maxBatchSize and are always positive, for all parameter values, values < 1 selecting the defaults.",
["inputs","configurations"],"all 64-bit batchInc, maxBatchSize, nofBatches, and source sizes; numbers of fetches up to the bound",
"Only default settings are exercised by tests; overflow and inc > max are not.",
[PI],[("NofBatches","pipeline/pipeline.go"),("finalizeVariableBatchSize/nextBatchSize","pipeline/pipeline.go"),("batchSize computation in RunWithContext","pipeline/pipeline.go")],observe=["size arguments of Source.Fetch"])
add("C28","Every source delivers all of its data once, in order, in batches as requested",
"Slices, arrays, strings, channels, Scanner, BytesScanner, Func and SingletonChan used as sources deliver, over successive Fetch calls of any requested sizes, exactly the elements of the underlying source in their original order with none lost or duplicated, report 0 exactly when it is exhausted (or the context is cancelled, for channels), never return more than requested, and Fetch's count equals the length of Data (a SingletonChan fetches one element at a time, which itself is the data). Prepare reports the exact size for slices, arrays and strings and a negative size where it is unknown; batches already delivered are not overwritten by later fetches.",
["inputs","histories","schedules"],"all contents and request sequences in the bound, all schedules of the feeding goroutine",
"The only test reads one scanner input with default batch sizes.",
[SRC,PI],[("Fetch/Data/Prepare of each source type","pipeline/source.go"),("reflectSource","pipeline/source.go")],observe=["Fetch results","Data","Prepare"])
add("C29","Every, NotEvery, Some and NotAny compute their quantifier in every node kind",
"After an uncancelled run the result of Every is true iff the predicate held for every batch, NotEvery iff it failed for some batch, Some iff it held for some batch, and NotAny iff it held for none, in every node kind and every schedule, without data races; with no batches Every and NotAny are true and the others false. With cancelWhenKnown the pipeline is cancelled only when the result is known, the result is still correct for the batches seen, and data always passes through unmodified.",
["inputs","schedules","configurations"],"all predicate outcome vectors (symbolic), all node kinds, all schedules",
"No test uses these filters.",
[FI],[("Every/NotEvery/Some/NotAny receivers and finalizers","pipeline/filters.go")],observe=["*result after Run","data seen downstream"])
add("C30","Slice and Count collect exactly the data that reaches them",
"After an uncancelled run, Slice has appended exactly the elements of all non-nil batches that reached it (in encounter order if its node is ordered, in some order of whole batches otherwise) and Count has set its result to the total number of elements that reach it, in every node kind and every schedule, for sources of known or unknown size, whatever the previous value of the result, and also behind Limit and Skip. Neither modifies the batches or the source, which pass through unchanged. Slice with a pointer to something that is not a settable slice sets the pipeline's error.",
["inputs","schedules","configurations"],"all batch contents, node kinds and previous results in the bound, all schedules",
"The example counts words once in one configuration.",
[FI],[("Slice/Count filters","pipeline/filters.go"),("dataSize propagation through Begin","pipeline/filters.go Limit, Skip")],observe=["*result after Run"])
add("C31","Limit and Skip pass exactly the prefix and the suffix they promise",
"Behind Limit(n) exactly the first min(n, total) elements of the source arrive and behind Skip(n) exactly the elements after the first n, in encounter order, for every n (a negative limit passes everything, a negative skip passes nothing and sets an error), every batch partition, sources of known or unknown size, and any combination of Limit and Skip nodes; with cancelWhenReached at least the receivers of the same node (Limit and Skip nodes are merged with adjacent Ord nodes) still get the whole prefix; no run panics and nothing is delivered twice. The expected size announced to later nodes is never wrong: it is the exact number of elements that will arrive or negative.",
["inputs","configurations","schedules"],"all n (symbolic), all batch partitions in the bound, compositions of up to three Limit/Skip nodes, known and unknown sizes",
"No test uses Limit or Skip.",
[FI],[("Limit/Skip receivers and size updates","pipeline/filters.go")],observe=["data seen downstream","dataSize seen by later filters"])
add("C32","The functions of one parallel or speculative call run in goroutines of their own",
"All functions (or, for the Range families, the range function for all batches) given to one call of a function of package parallel or speculative are started without waiting for any other of them to end, each in a goroutine of its own, as documented: functions that wait for each other all proceed, the call returns once they end, and no goroutine is left behind.",
["schedules","configurations"],"any number of functions and batches in the bound, functions that all wait for all others, all schedules",
"Tests use functions that do not depend on each other, so a sequential fallback or a limit on goroutines is invisible.",
[PAR,SPEC],[("go statement for the right halves","parallel/parallel.go"),("go statement for the right halves","speculative/speculative.go")],observe=["return of the call","functions that have started"])
add("C33","Run sets up its source, filters and nodes once, in order, by their contract",
"Run calls Prepare of the source that was set last exactly once, with the context of the run. Then, before the first Fetch, it calls every filter of every node and Begin of every node of a user program exactly once, in the order in which they were added, with the pipeline, the kind of the node, and the expected size as the source announced it and the filters and nodes before left it, for every integer; a dropped node (Begin returned false, or no receiver and no finalizer) gets no Feed and no End, every other node gets Feed for every batch, with an index from which FeedForward reaches the next node, and then End once, in order. Fetch is called with positive sizes, not again after it has returned 0, and Data once after each successful Fetch. Context returns the context of the run, Cancel calls its cancel function, and ComposeFilters returns exactly the non-nil receivers and finalizers in order.",
["inputs","configurations","schedules"],"all announced sizes (symbolic), all choices of filters to change them, all mixes of nodes in the bound, all schedules",
"No test defines a node or a filter of its own.",
[PI,F1]+NODES,[("RunWithContext, Add, Source, FeedForward","pipeline/pipeline.go"),("ComposeFilters","pipeline/filter.go"),("Begin methods of nodes","pipeline/*node.go")],observe=["calls of Prepare, Fetch, Data, filters, Begin, Feed, End and their arguments"])
add("C34","Calls on independent data do not influence each other",
"Calls of the functions of parallel, sequential, speculative and sort, operations and traversals of sync.Map objects, and runs of pipelines that work on data of their own behave as if each were the only one: in different goroutines at the same time (without a data race), one after the other, nested in functions given to each other to any depth (they always return, for any GOMAXPROCS), and after earlier calls in which a given function has panicked. Filters without a state can be used in several pipelines at once.",
["inputs","configurations","schedules"],"all pairs and sequences of calls in the bound, concurrent, sequential and nested, all values and schedules",
"The tests make one call at a time and look at its result; shared scratch memory, cached state and exhausted limits show only with a second call at the right moment.",
[PAR,SPEC,SEQ,INT,MAP,QS,MS,SO,PI,SRC,FI]+NODES,[("all exported functions; there is no package-level mutable state","*/*.go")],observe=["results of every call","effects on the data of other calls","panics","return of nested calls"])
import sys
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
