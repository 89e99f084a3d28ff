DEFAULT_TECHNIQUE = "static analysis: path-sensitive dataflow (abstract interpretation over a term domain) of the compiler's MIR"
DEFAULT_NOTE = ("Every path of the anchored functions is interpreted over the type-checked MIR of the current tree, loops by "
                "induction, library calls by hand-written summaries; an obligation that is not decided is recorded as such "
                "in the evidence and raises no alarm.")
TECHNIQUE = {}
NOTES = {}
NA = {
    "C40": "needs the semantics of sled's log and of the file system between two syncs; no sound static argument over this "
           "source bounds which of the writes issued before a crash survive (C22 claims the part decided by the order of calls)",
    "C41": "quantifies over the sum of unboundedly many balances held in the store across whole histories of calls by the "
           "embedding program; C10, C11 and C21 claim the per-operation effects",
    "C43": "a statistical property of the mining process over time, not of the source (C19 claims the direction)",
    "C44": "linearizability across sled and the lock-protected heights quantifies over interleavings inside sled; C14 and C24 "
           "claim the lock discipline of this crate",
}
