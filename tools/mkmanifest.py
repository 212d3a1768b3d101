#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "exhaustive enumeration of operation sequences of the real code against a reference model"
SEQF = "exhaustive enumeration of operation sequences and panic points of the real code against a reference model"
INT = "stateless model checking (DPOR with sleep sets) of all interleavings of the real code"
BOTH = "exhaustive operation sequences plus stateless model checking (DPOR) of all interleavings of the real code"
SHAPE = "exhaustive enumeration of input shapes run on the real code against a reference model"
T = {
 "E01": (BOTH, "Every history up to the stated depth on allocator and world (also starting from large, reused and hierarchical-bitset-boundary indexes), and every interleaving of two and three creating threads."),
 "E02": (SEQ, "Every history up to the stated depth; after each step every handle ever returned, every index of a probe set up to u32::MAX, the live set and its iteration are compared with the model."),
 "E03": (SEQ, "Every history up to the stated depth with immediate, deferred and repeated deletions; the merge's report is compared with the model as a multiset."),
 "E04": (INT, "Every inequivalent interleaving of the listed thread programs, without preemption bound, over all listed operation assignments and initial states."),
 "E05": (BOTH, "As E01 with the minimal-index model; a separate space fills all 2^24 indexes."),
 "S01": (SEQ, "Every operation sequence up to the stated depth for all six storage kinds, over adjacent, word-crossing and capacity-edge indexes."),
 "S02": (SEQF, "Counting tokens with poisoned memory observe every construction and drop; a panic is injected at every callback position of every operation."),
 "S03": (SEQ, "Every operation sequence up to the stated depth on the dense storages with the slice compared after every step."),
 "S04": (SEQ, "Every operation sequence up to the stated depth with the complete mark set compared after every step."),
 "S05": (INT, "Every inequivalent interleaving of the listed marking and mutating thread programs."),
 "J01": (SHAPE, "Every assignment of members to positions over the listed member kinds and every membership pattern over the probe indexes."),
 "J02": (INT, "Every way of splitting the work up to the split bound and every interleaving of the workers' accesses; element accesses are checked for races."),
 "J03": (SHAPE, "Every mask expression up to the stated depth against the documented rule; each is also evaluated on two sizes of index space."),
 "R01": (BOTH, "Every sequence of borrow, release, insert, remove and unwinding operations up to the stated depth, and every interleaving of two and three borrowing threads."),
 "R02": (SEQ, "Every pair of read/write sets over the stated resources, built in every order and by every API."),
 "R03": (SHAPE, "Every combination of handles up to the stated tuple size and nesting, declared access compared with what fetching does."),
 "Y01": (BOTH, "Every composition up to the stated size, every subset of failing members and every execution order the pool may choose."),
 "Y02": (SHAPE, "Every composition up to the stated size with every assignment of declared accesses."),
 "Y03": (BOTH, "Every list of systems up to the stated length with every assignment of accesses and every order the pool may choose."),
 "Y04": (INT, "Every composition up to the stated size whose check succeeds, every interleaving of its members' accesses on a parallel pool, compared with the set of sequential outcomes."),
 "W01": (SEQF, "Every history up to the stated depth on worlds with several component types, all handles compared with the model after every step; destructor panics injected at deletion and merge."),
 "W02": (SEQ, "Every history up to the stated depth; every component operation is tried through every dead, reused, unmerged and pending handle."),
 "W03": (SEQ, "Every history of registration, unregistration, resource insertion and removal up to the stated depth, model compared after every step."),
 "W04": (INT, "Every inequivalent interleaving of the listed world programs of two and three threads, followed by a merge compared with the model."),
 "A01": (SEQ, "Every operation sequence up to the stated depth on dynamic sets, and every set applied to every kind of handle."),
 "T01": ("explicit exploration of a model of client programs (live references, thread movement) with every model trace replayed against the implementation through the compiler", "Every program of the bounded grammar is compiled against goggles; the compiler's verdict must agree with the model. Trusts rustc."),
}
COMMON = " Bounds are in each space's rule in the evidence. Memory orderings are not modelled (interleavings are sequentially consistent)."
def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks = []
    for p in props:
        t, n = T[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking",
                       "level_note": n + (COMMON if t in (INT, BOTH) else " Bounds are in each space's rule in the evidence.")})
    m = {"version": 1,
         "setup_cmd": "for d in seq conc client; do (cd harness/$d && cargo build --offline --release --quiet) || exit 1; done",
         "hooks": {"guard": "none", "enable": "no hooks: the checks build /repo's sources unchanged", "source_commits": []},
         "checks": checks, "not_applicable": [],
         "notes": "Defects found and repaired are in known-findings.txt; design, bounds and planted bugs in DESIGN.md."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
