# technique / note per property where they differ from the default, and reasons for not_applicable
T["C13"] = (FLOW + "; lock-protocol rule on the summary under interference", NOTE + " The shared state behind an IO made from a future is havocked at every lock acquisition and every read of the result cell, so the protocol rule covers every interleaving of runs of that IO.")
T["C14"] = ("lock-protocol rule on MIR value-flow summaries with the guarded cache arbitrary at each acquisition; " + FLOW,
            "Covers every interleaving of requests and clears: the cache content is replaced by an unknown value at every lock acquisition, and every path of the summary must find the key absent in the exclusive section in which it computes and stores. Trusted: rustc's MIR, the models of Mutex/RwLock/OnceLock/HashMap. Poisoning after a panicking computation is not covered.")
T["C23"] = ("ownership and type-reachability analysis of the node graph, compiler-checked Send/Sync witnesses",
            "Follows every component type reachable from the vector and its iterators, for all element types: without interior mutability, raw pointers, unsafe code or handed-out mutable views, Rust's aliasing rules make a shared node read-only (Arc::make_mut and get_mut copy or need uniqueness). Trusted: rustc's borrow checker, std's Arc, SmallVec.")
T["C26"] = ("effect query over all typed bodies (unsafe blocks, raw pointers, unsafe impls), compiler-checked Send/Sync witnesses",
            "All bodies, signatures, types and impls of the crate as compiled with its default and full feature sets used here; unsafe code inside dependencies and std is trusted.")
T["C24"] = ("assume-guarantee value-flow comparison: contracts for the vector, tree and node levels over an abstraction function, each contract decided against its body; " + FLOW,
            "Every public operation is decided on a vector of arbitrary contents and representation, using contracts for the levels below; the contracts are decided at vectors held inline and as trees, and at nodes that are leaves or branches of up to three children (some operations of the node level at bounded shapes only: index and split at trees of height two with up to three leaves and lengths across the capacity thresholds). Termination of the recursive descents and trees higher than two in index/split are not covered. Trusted: rustc's MIR, models of Vec/SmallVec/Arc/iterators.")
T["C25"] = ("value-flow comparison of eq/ord/hash over the contents abstraction at every pair of representations with free histories; " + FLOW,
            "Both operands range over arbitrary contents, held inline, as a tree or in an unknown representation, with independent history counters; the result must be the one of the plain sequences and independent of representation and history. Rests on C24 for iteration. Elements are assumed to have lawful Eq/Ord/Hash.")
T["C32"] = ("value-flow comparison of the written text (format templates decoded from MIR, formatter as a growing text); " + FLOW, NOTE + " Texts of type parameters are free; width, precision and pretty-print options are kept symbolic, writers never fail. The text of a PersistentVector (which shows its representation) and serde forms are not covered.")
T["C33"] = ("value-flow comparison of the copy (derived clones are structural by the compiler; hand-written ones are followed) and of what the copy does on free inputs; " + FLOW, NOTE)
T["C29"] = ("panic-gate analysis: the condition under which each public function (and each closure or future it returns) can reach a panic, as a decision tree over facts about its inputs, decided with difference bounds; exact panic conditions of the partial operations by " + FLOW,
            "One obligation per public function. Covers explicit panics, unwrap/expect, indexing and unsigned subtraction. Not covered: overflow of additions and multiplications, allocation failure, lock poisoning, panics inside the functions passed in; the vector's private bookkeeping fields are assumed to satisfy the invariants of C25. Six conversions of a Validated into a Result panic on an Invalid without errors (known findings).")
