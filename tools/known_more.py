fixed("C17", "IsSorted waits", "Sort: a goroutine of IsSorted may still compare elements while Sort already swaps them, as IsSorted returned as soon as one half was found unsorted (data race, e.g. an inversion in the first half of a collection of at least 0x500+10 elements)")
fixed("C20", "Float64Slice.Less", "Float64Slice.Less ignores NaN: Sort of [0, NaN, 0, 0] with the parallel algorithm leaves the slice unsorted in the order of Float64sAreSorted")
fixed("C22", "order the nodes before a strictly", "a StrictOrd node behind Ord/Seq/LimitedPar nodes: Begin had already started their goroutines when the pipeline made them ordered (data race; e.g. Par, Seq, StrictOrd deadlocks when batches arrive out of order)")
fixed("C21", "feed forward by their current index", "nodes that are merged when the pipeline runs, e.g. Par, Ord(Identity), Par, Ord: later nodes fed forward with the index they had before and received batches twice or not at all")
fixed("C25", "wake up waiting Feed calls", "StrictOrd and ordered LimitedPar nodes: lost wake-up, the broadcast on cancellation may happen between the check of ctx.Done and cond.Wait of a Feed call, which then waits for ever")
fixed("C26", "accesses the error of the pipeline with the mutex", "RunWithContext read and wrote the error without the mutex (data race with SetErr in a receiver; the later error of the source replaced the first one)")
fixed("C26", "SetErr does not panic for a pipeline", "SetErr before Run panicked (nil cancel function)")
fixed("C31", "Skip announces", "Skip(n) announced the size n to later nodes instead of size - n: Skip(1) with 5 elements and Count gave 1")
fixed("C31", "accept empty batches that are nil", "Limit and Skip panicked when they received a nil batch, e.g. from another Limit or Skip: Skip(2), Limit(1) with a source of unknown size")
fixed("C30", "Count sets its result in ordered", "Count in an ordered or sequential node with a source of unknown size added to the previous value of its result")
fixed("C30", "Slice sets the error for every result", "Slice of a pointer to something that is not a slice, or of an unexported field, panicked in the receiver instead of setting the error")
fixed("C27", "batch sizes never exceed maxBatchSize", "SetVariableBatchSize(10, 5) requested 10 elements first; SetVariableBatchSize(1<<62, MaxInt) requested a negative number of elements in the second batch")
fixed("C28", "arrays can be sources", "Source([3]int{1, 2, 3}) panicked, as the array in an interface is not addressable")
fixed("C25", "fetch no more batches once", "a cancelled pipeline with an endless source, e.g. Limit(10, true), never returned from Run")
fixed("C16","release the split lock if a computer","DeleteOrCompute and Modify left the lock of the split held when the computer or modifier panicked: every later operation on the split blocked for ever")
