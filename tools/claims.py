CLAIMS = {
 "C01": ("exploration", "random models rendered to XML and SXFM by an independent printer with seeded option order, redundancy and white space, read through the simulated disk with short and interrupted reads; the loaded model is compared with the reference model"),
 "C02": ("exploration", "random models saved through the simulated disk with every kind of write, flush, close and open error; success and failure reports compared with the faults that fired and the reloaded model with the reference"),
 "C03": ("exploration", "histories of saves with crashes at every disk operation (and inside one) and seeded survival of unsynced blocks and metadata; every reload must give a saved model or none"),
 "C04": ("exploration", "structured corruptions of generated files and read errors through the simulated disk under ASan; loaded models are checked for soundness, inconsistent files for rejection"),
 "C12": ("exploration", "the solver's satisfying assignment is chosen by the simulator at every step; the configurations are compared with brute-force evaluation of the reference model"),
 "C13": ("exploration", "as C12 with the solver giving up at seeded checks, once or repeatedly, followed by recovery"),
 "C15": ("exploration", "2-5 caller threads run as real threads one at a time, switched at basic blocks, allocations, libxml2, disk and solver calls by the seeded scheduler; every observation of each thread compared with the same work done alone in a pristine process"),
 "C16": ("exploration", "the same scripted work repeated in fresh processes under other heap layouts, solver answers and declaration orders; all results compared byte for byte"),
 "C17": ("exploration", "several builders interleaved with declarations in seeded orders, seeded conflicts, moves and abandonment; built models compared with the declared reference, finished models with their former state"),
 "C18": ("exploration", "fm-viewer's main run as a program on a simulated disk under seeded read, write, open, close and stat faults, disk-full and damaged inputs; exit status compared with the faults delivered and the graph read back and compared with the model"),
 "C19": ("exploration", "one allocation at a seeded position fails inside every kind of operation of random histories; uninvolved models, sources of copies and files compared with the reference, everything destroyed under ASan, and results that are reported compared with those without the failure"),
 "C20": ("exploration", "config-generator's main run as a program (real loading, solving and writing; only the CSV library is a stand-in) under seeded solver answers, give-ups, storage faults and unusable arguments; exit status compared with the faults delivered, the sample set with brute-force evaluation of the reference model"),
 "C21": ("exploration", "seeded call histories of several constraint builders used alternately, with wrong calls, abandonment and failing allocations at seeded points; built constraints compared with a reference that folds the calls by precedence, with the parsed text of the same steps, and as part of a model"),
 "C32": ("exploration", "seeded histories of several configurations (options set, added, queried, dumped, read from well-formed and damaged text, written as sample sets, destroyed) with failing allocations at seeded points and adversarial heap placement, against a reference map and an independent JSON reader"),
 "C14": ("exploration", "seeded interleavings of several enumerations, queries, additions (admissible or not), model edits and destruction against a reference of the remaining configurations of each enumeration"),
 "C05": ("exploration", "seeded search over interleavings of several copying and modifying transactions, edits of the originals, moves, aborts and heap placements, against a value-semantics reference model"),
 "C06": ("exploration", "seeded search over interleaved modifying transactions on shared models, commits by call and by destruction, moves, aborts and heap placements, against a reference model applied in commit order"),
 "C07": ("exploration", "as C06 with edits that must be refused injected at random positions; error reporting, state and soundness compared after every failed commit"),
 "C08": ("exploration", "structural soundness, traversal order and cross references recomputed after every operation of random histories over all operation kinds"),
 "C09": ("exploration", "clone chains with edits and destruction of source or copy in random order under adversarial heap placement (immediate reuse of freed memory), compared with the reference model"),
 "C10": ("exploration", "random and derived model pairs, both modes, against an independent merge of the reference models; inputs compared and destroyed afterwards"),
 "C11": ("exploration", "random lists (duplicates, names and pointers, nested, unknown, root) in several orders on clones of one model, against the reference removal"),
}
PURE = "pure, sequential function of its argument: no schedule, clock, I/O, solver choice or fault can influence it, so simulation has nothing to decide; "
NOT_APPLICABLE = {
 "C30": PURE + "it needs input-space reasoning (parsing grammar), not fault/schedule search. Its effect on loaded models is covered by C01/C04.",
 "C31": PURE + "expression arithmetic on doubles. Its effect on loading/enumeration is covered by C01/C12.",
 "C33": PURE + "string concatenation over an in-memory list of configurations.",
 "C34": PURE + "each binding forwards one call to the C++ function the other properties check; what is left is comparing two stateless interfaces, which is differential testing, not fault/schedule search.",
}
for i in range(1, 22):
    pid = "C%02d" % i
    if pid not in CLAIMS:
        NOT_APPLICABLE[pid] = "check under construction; not claimed yet"
