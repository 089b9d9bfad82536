#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=hook)))
TX = "include/vara/Feature/FeatureModelTransaction.h"
TXC = "lib/Feature/FeatureModelTransaction.cpp"
FM = "include/vara/Feature/FeatureModel.h"
FMC = "lib/Feature/FeatureModel.cpp"
PAR = "lib/Feature/FeatureModelParser.cpp"
WR = "lib/Feature/FeatureModelWriter.cpp"
Z3 = "lib/Solver/Z3Solver.cpp"
CF = "include/vara/Solver/ConfigurationFactory.h"
SF = "lib/Solver/SolverFactory.cpp"
BLD = "include/vara/Feature/FeatureModelBuilder.h"

p("C01", "Loading a file yields exactly the model the file describes",
  "Loading a valid feature-model file yields a model whose name, path, commit, features (kind, optionality, output flag, values, step function, source locations), parent/child edges, groups and constraints are exactly those the file describes. The result does not depend on the order of options in the file, on redundant parent/children declarations, on white space, or on how the operating system delivers the bytes (short reads, interrupted reads, any chunk sizes).",
  ["inputs", "fault_sequences"], "all valid documents in either supported file format, all delivery patterns of their bytes",
  "Tests load about 30 fixed files once each from an undisturbed disk and check a few fields; they never vary option order, chunking or interruptions and never compare the complete model.",
  [PAR, FMC, BLD, "include/vara/Feature/ConstraintParser.h", "include/vara/Feature/StepFunctionParser.h"],
  [("whole file is read into a buffer, then parsed and DTD-validated", "loadFeatureModel / parseDoc"),
   ("three queued transactions (features, tree, relations) make declaration order irrelevant", "FeatureModelBuilder"),
   ("mutual excludes between mandatory siblings become alternative groups", "detectXMLAlternatives")],
  observe=["loadFeatureModel", "FeatureModelSxfmParser::buildFeatureModel"])

p("C02", "A save that reports success is complete; a failed save is reported",
  "If saving a model to a file reports success, then loading that file yields a model with the same name, path, commit, features, values, step functions, output flags, locations, tree and constraints, including alternative groups of at least two mandatory features that are all the children of their parent (their mutual excludes, which the format uses to describe them, may or may not be listed in addition). If any open, write, flush or close of the save fails for good (disk full, I/O error, permission), the save reports failure; transient conditions (interrupted or partial writes) never change the result. Saving never changes the model, and saving to a string gives the same document as saving to a file.",
  ["inputs", "fault_sequences"], "all models the file format can express, all sequences of storage errors during the save",
  "The existing tests only serialise four fixed models to a string and compare text; the file-writing path is never executed and no storage error is ever injected.",
  [WR, "include/vara/Feature/FeatureModelWriter.h", PAR],
  [("libxml2 text writer return codes are checked after each element", "CHECK_RC in FeatureModelWriter.cpp"),
   ("writeFeatureModel returns a negative code / nullopt on failure", "FeatureModelXmlWriter::writeFeatureModel")],
  observe=["FeatureModelXmlWriter::writeFeatureModel(path)", "FeatureModelXmlWriter::writeFeatureModel()", "loadFeatureModel"])

p("C03", "A crash during a save never yields a wrong model on reload",
  "If the machine or process dies at any instant of a save, then after restart loading the target file yields a model saved earlier to that path, the new model, or no model at all, never a model that was not saved; the same holds for a save that reports failure. A later completed save to the same path is fully effective.",
  ["crash_points", "inputs", "histories"], "all crash instants inside a save and all subsets of not-yet-durable data that survive (torn, lost, zero-filled blocks), all sequences of saves, crashes and reloads",
  "No test crashes a save; the tests never even write a file.",
  [WR, PAR, FMC],
  [("a torn XML document is not well-formed and is rejected by the parser", "FeatureModelXmlParser::parseDoc"),
   ("document order puts the closing root element last", "FeatureModelXmlWriter::writeVm")],
  observe=["loadFeatureModel after simulated restart"])

p("C04", "Damaged or hostile files are rejected or give a sound model, no crash",
  "Loading or verifying any sequence of bytes, including a damaged, truncated or inconsistent feature-model file in either format, or a file whose reading fails part-way, terminates without crashing and returns either no model or a structurally sound model. A read error never yields a model, and a file that names unknown features, gives a feature two parents or makes the parent relation cyclic is rejected.",
  ["inputs", "fault_sequences"], "all byte sequences near valid documents (bit flips, truncation, duplication, splices, semantic mutations), all read faults",
  "Seven fixed error files are tried; no corruption, truncation or read error is exercised.",
  [PAR, "include/vara/Feature/FeatureModelParser.h", "include/vara/Feature/ConstraintParser.h", "include/vara/Feature/StepFunctionParser.h", FMC],
  [("DTD validation", "FeatureModelXmlParser::parseDoc"), ("consistency check at the end of each building transaction", "FeatureModelConsistencyChecker"),
   ("indentation, cardinality and colon checks", "FeatureModelSxfmParser::parseFeatureTree")],
  observe=["loadFeatureModel", "verifyFeatureModel", "FeatureModelSxfmParser::buildFeatureModel"])

p("C05", "Copy transactions are isolated and deliver exactly the requested edits",
  "While a copying transaction is open, and after it commits or aborts, the original model is unchanged by it, and edits made meanwhile to the original or in other transactions do not show in the copy. A successful commit returns a model equal to the original as it was when the transaction was opened plus exactly the transaction's effective edits in order; an edit that is refused has no effect; an aborted transaction yields no model.",
  ["histories", "schedules"], "all edit sequences and all interleavings of any number of open transactions on the same model",
  "Tests open one copying transaction at a time with one or two edits and check one attribute.",
  [TX, FMC], [("transaction works on a deep clone", "FeatureModelCopyTransactionBase"), ("references are translated by name into the clone", "translateFeature")],
  observe=["FeatureModelCopyTransaction"])

p("C06", "Modifying transactions apply their edits only at commit, in order, exactly",
  "Edits requested in a modifying transaction are invisible in the model until it commits; a successful commit makes the model equal to applying exactly those edits, in the order requested, to the model as it is at commit time. An aborted transaction changes nothing, a transaction commits at most once, and interleaved transactions on one model behave as if executed one after the other in commit order.",
  ["histories", "schedules"], "all edit sequences, all interleavings of several open transactions with commits, aborts and moves of the transaction objects",
  "Tests run single transactions with at most a handful of edits; never two open at once, never a move, rarely an abort.",
  [TX, TXC], [("modifications are queued and executed at commit", "FeatureModelModifyTransactionBase::commitImpl"), ("committed or aborted transactions drop the model pointer", "isUncommitted")],
  observe=["FeatureModelModifyTransaction", "addFeature/removeFeature/addRelationship/... helpers"])

p("C07", "A failing commit is reported and leaves no partial effects",
  "If any edit of a transaction cannot be applied (duplicate name, unknown feature, unknown parent, non-leaf removal, removal of the root, a feature becoming its own ancestor, a constraint over unknown features, removing a group that does not exist, a second group or root), the commit reports an error. After a failed commit the model is as it was before the commit, remains structurally sound, and later transactions on it work normally.",
  ["histories", "fault_sequences"], "all edit sequences with an inapplicable edit at any position, on all models",
  "Tests check a few single-edit failures and only look at the return value.",
  [TX], [("each modification returns an error code; commit stops at the first", "FeatureModelModifyTransactionBase::commitImpl"), ("consistency check before reporting success", "ConsistencyCheck::isFeatureModelValid")],
  observe=["FeatureModelModifyTransaction::commit", "FeatureModelCopyTransaction::commit"])

p("C08", "Every reachable model is a sound tree with exact cross-references",
  "After any successful operation (load, build, commit, helper, clone, merge) the features form one rooted tree: exactly one root, every other feature or group has exactly one parent that lists it as a child, every feature is reachable from the root, and traversal visits each exactly once with parents before children and siblings in case-insensitive name order. Every feature named in a constraint is the model's own feature of that name and lists that constraint (in its exclude or imply lists where applicable), and no feature, constraint or group refers to something that was removed.",
  ["histories", "inputs"], "all histories of loads, builds, edits, removals, clones and merges",
  "Tests inspect individual edges after single operations; no test walks whole-model invariants over long histories, and removal of features used in constraints is never tested.",
  [FM, FMC, TX, TXC, BLD, "include/vara/Feature/FeatureTreeNode.h", "include/vara/Feature/Feature.h"],
  [("parent pointer and child edge updated together", "FeatureModelModification subclasses"), ("constraint visitor resolves names and registers constraints", "AddConstraintToModelVisitor"), ("consistency rules", "FeatureModelConsistencyChecker")],
  observe=["all public accessors of the model"])

p("C09", "A clone is a complete, independent copy",
  "Cloning any model gives a model equal in every observable respect: name, path, commit, all features with kind, optionality, output flag, values, step function and locations, tree, groups, and all constraints with kinds and attributes. The two share nothing: any history of edits to, or the destruction of, either one never affects the other.",
  ["histories", "inputs"], "all models, all later edit and destruction histories of clone and original",
  "Tests clone three small models and compare a few names; constraints are explicitly untested (TODO in the code) and later divergence is not exercised.",
  [FMC, "include/vara/Feature/Constraint.h", "lib/Feature/Constraint.cpp"], [("clone rebuilds the model through a builder", "FeatureModel::clone"), ("constraint trees are cloned recursively and re-resolved", "Constraint::clone")],
  observe=["FeatureModel::clone"])

p("C10", "Merging gives the union model, or nothing, and never touches its inputs",
  "Merging two models returns a sound new model containing the first model entirely plus every feature of the second under the parent of the same name with all its properties, with the source locations of shared features united. It returns nothing if the models conflict (a shared feature under differently named parents, different roots, or, in strict mode, a shared feature with differing kind, optionality, values or grouping); in non-strict mode the first model's properties win. Neither input is modified and the result shares nothing with them.",
  ["inputs", "histories"], "all pairs of models, both modes, all subsequent histories of inputs and result",
  "Tests merge four fixed pairs.",
  [TXC], [("merge runs inside a copying transaction", "mergeFeatureModels"), ("recursive subtree comparison", "mergeSubtree / compareProperties")],
  observe=["mergeFeatureModels"])

p("C11", "Batch removal removes exactly the removable features and reports the rest",
  "Removing a list of features deletes exactly those it is allowed to delete: leaves (and features that become leaves because listed descendants are removed in the same batch) or, in recursive mode, whole subtrees. It returns exactly the listed references that name no feature or that may not be deleted; the outcome does not depend on the order of the list, and all other features and constraints stay untouched.",
  ["inputs", "histories", "schedules"], "all models and all lists (any order, ancestors with descendants, repeats, unknown names), both modes, all memory layouts",
  "Tests try eight fixed lists on one model; memory layout, which the implementation orders by, cannot be varied by a unit test.",
  [TXC], [("partition into removable and not yet removable, repeat until stable", "removeFeatures"), ("transitive-children check", "canBeDeletedRecursively")],
  observe=["removeFeatures"])

p("C12", "Configuration enumeration is sound, complete and duplicate-free",
  "For every model over binary and finite-valued numeric features (numeric features outside groups, groups with members, constraints that apply boolean operators to booleans and arithmetic to numbers), enumerating configurations yields every assignment that satisfies the tree, group, optionality, value-domain and cross-tree constraints exactly once and no other assignment, whatever satisfying assignment the underlying solver happens to return at each step. The count, the first-N (simply shorter when there are fewer), the lazy iterator and the is-valid query all agree with that set.",
  ["inputs", "schedules"], "all such models and all choices the solver may make among satisfying assignments",
  "Tests check counts for a few models with the one order in which the pinned solver happens to answer; soundness of each configuration and other answer orders are never checked.",
  [Z3, SF, CF, "include/vara/Solver/Z3Solver.h"], [("each found assignment is excluded by a blocking clause", "Z3Solver::excludeCurrentConfiguration"), ("tree, group and value constraints are asserted per feature", "Z3Solver::addFeature/addRelationship")],
  observe=["ConfigurationFactory::getAllConfigs/getNConfigs/getNumConfigs/getConfigIterator/isValid"])

p("C13", "A solver that gives up is reported, never passed off as an answer",
  "If the underlying solver gives up (time-out, resource limit, cancellation) at any point, the query that met it reports an error: it never returns a made-up configuration, never reports an incomplete list or count as complete, and never claims that a model has configurations; queries with an error channel also never claim that it has none (the plain yes/no is-valid query answers no); a loop over the lazy iterator ends even if the solver never recovers. After the solver recovers, continuing the same enumeration still yields exactly the remaining configurations.",
  ["fault_sequences", "inputs"], "all models and all points at which the solver gives up, once or repeatedly",
  "No test makes the solver give up.",
  [Z3, CF, SF], [("result of each check is mapped to a Result", "Z3Solver::getNextConfiguration / hasValidConfigurations"), ("iterator ends only when the solver reports unsatisfiable", "ConfigurationIterator::operator++")],
  observe=["ConfigurationFactory", "Solver"])

p("C14", "Interrupted, repeated and interleaved solver use never corrupts answers",
  "Reading the current configuration any number of times gives the same one; stopping an enumeration early, running several enumerations of the same or different models alternately, or editing or destroying the model after an enumeration began does not change what each enumeration yields. Features and constraints added to a solver between queries restrict exactly the configurations delivered afterwards, and inadmissible additions (duplicate feature, missing parent) are refused without effect.",
  ["histories", "schedules"], "all interleavings of operations on several solvers and enumerations with edits of the models",
  "Tests use one solver at a time in one fixed order of calls.",
  [Z3, CF], [("each solver owns its own context, variable map and current assignment", "Z3Solver"), ("presence checks before adding", "Z3Solver::addFeature")],
  observe=["Solver", "ConfigurationIterable"])

p("C15", "Independent work in different threads gives the same results as alone",
  "Several threads that each load, edit, clone, merge, save, verify and solve their own models, with any interleaving, obtain exactly the results each would obtain running alone. No operation on one model depends on or disturbs hidden state shared with another.",
  ["schedules"], "all interleavings of any number of threads working on disjoint models",
  "All tests are single-threaded; interleavings cannot be controlled by them.",
  [PAR, WR, Z3, FMC, TX], [("no mutable global state in the library; XML and solver contexts are per call", "FeatureModelXmlParser::parseDoc, Z3Solver"), ],
  observe=["all public entry points"])

p("C16", "Results never depend on memory layout, hashing or construction order",
  "Given the same logical model, everything a user can observe (saved document, traversal order, textual dumps of features and constraints, enumeration set, merge and removal results) is the same whatever addresses the allocator hands out and whatever order the same features and edges were declared in (the order of locations and constraints is part of the model; names are unique ignoring case). Running the same operations twice in different processes gives byte-identical saved documents.",
  ["schedules", "inputs", "histories"], "all heap layouts and all construction orders of the same logical model",
  "Child sets are ordered by address; a unit test sees the single layout its allocator happens to produce.",
  [WR, FM, "lib/Feature/Feature.cpp", "lib/Feature/OrderedFeatureVector.cpp", "include/vara/Feature/FeatureTreeNode.h"],
  [("children sorted by lower-cased name before output and traversal", "OrderedFeatureVector, DFSIterator, Feature::operator<")],
  observe=["FeatureModelXmlWriter", "FeatureModel iterators", "Feature::toString"])

p("C17", "Building is order-independent and all-or-nothing",
  "A model builder yields the same model for every order in which the same features, edges, groups, constraints and meta data were declared, and features without a declared parent hang below the root. It yields no model if the declarations conflict (duplicate feature, edge or constraint naming an undeclared feature, cyclic or self edges, group below an undeclared feature). An abandoned, moved or failed builder affects nothing else.",
  ["histories", "schedules", "inputs"], "all declaration orders, all interleavings of several builders, all conflicting declarations at any position",
  "Tests use builders in one or two fixed orders.",
  [BLD, "lib/Feature/FeatureModelBuilder.cpp"], [("three queued transactions committed in a fixed order", "FeatureModelBuilder::buildFeatureModel")],
  observe=["FeatureModelBuilder"])

p("C18", "The viewer tool reports success only for complete output",
  "When asked to write the graph of a model to a file, the command-line viewer exits with status zero only if the complete graph (every feature and group once, one edge per child, all labels as well-formed label text that shows the name, flag, constraints and locations) was written to the file, whatever storage errors occur. The same holds for the graph file handed to a viewer program (complete by the time the program is started) and for a dump to standard output (one block per feature with its name, optionality, locations, parent, direct children outside groups and values). It exits with non-zero status when the input cannot be read, is not a valid model, or fails verification when verification was requested.",
  ["fault_sequences", "inputs"], "all models and all sequences of read and write faults",
  "The tool has no unit tests at all.",
  ["tools/fm-viewer/FeatureModelViewer.cpp", FM], [("exit status from load/verify/write results", "main"), ("graph writer walks the tree", "GraphWriter<FeatureModel *>")],
  observe=["exit status, output file, dump and started viewer of fm-viewer"])

p("C19", "Running out of memory never corrupts a model or fakes a result",
  "If a memory allocation made by the library fails during any operation (edit, commit, build, clone, merge, load, save, query), the operation either completes correctly or is abandoned with the out-of-memory condition or an error reported to the caller. Models, builders and files not being written by that operation are unaffected, and copying operations leave their source unchanged.",
  ["fault_sequences", "histories"], "all positions of a failing allocation in all operations on all models",
  "No test makes an allocation fail.",
  [TX, TXC, FMC, PAR, WR, Z3], [("resources are held by owning pointers; copies are worked on before being published", "throughout lib/Feature")],
  observe=["all public entry points"])

p("C20", "The configuration generator reports success only for a complete sample set",
  "When asked to write the configurations of a model (all of them, or those of a sample file) to a file, the command-line configuration generator exits with status zero only if the file holds, for every such configuration, exactly the output flags of its selected features in the model's order, with the value appended for numeric ones, whatever satisfying assignments the solver returns and whatever storage errors occur. It exits with non-zero status when the input cannot be read, is not a valid model or has no configuration, when the solver gives up, when the output cannot be written, or when the requested mode is not available.",
  ["fault_sequences", "inputs"], "all models with binary and finite-valued numeric features, all sequences of read, write and solver faults",
  "The tool has no unit tests; the sample set writer is tested on a few fixed models and never writes a file.",
  ["tools/config-generator/ConfigurationGenerator.cpp", "lib/Sampling/SampleSetWriter.cpp", "lib/Sampling/SampleSetParser.cpp", CF, Z3],
  [("exit status from verify/load/enumerate/write results", "main"), ("flags of selected features in traversal order", "SampleSetWriter::writeConfigurations"), ("columns of the sample become configuration options", "SampleSetParser::readConfigurations")],
  observe=["exit status and output file of config-generator"])

# ---- pure functions: recorded, not claimed ---------------------------------
p("C21", "Constraints built step by step mean what was written, malformed steps yield none",
  "A constraint assembled call by call (features, constants, operators, unary operators, parentheses, grouping of everything so far) has exactly the structure that operator precedence, left associativity and parentheses give, the same as the text of these steps has when it is parsed, and is printed fully parenthesised. A history of calls that is not an expression (a missing or surplus operand, operator or parenthesis at any point) yields no constraint, whatever calls follow. This holds for any number of constraint builders used alternately, abandoned at any point or after memory ran out in a call, and a built constraint stays the same when its builder, the constraint it was cloned from or a model with a clone of it is gone.",
  ["histories", "schedules", "fault_sequences"], "all call histories, well-formed or not, of any number of builders in any interleaving, with an allocation failing in any call",
  "Tests build a handful of fixed expressions, one builder at a time, and hardly any malformed history.",
  ["include/vara/Feature/ConstraintBuilder.h", "include/vara/Feature/Constraint.h", "include/vara/Feature/ConstraintParser.h"], [("stack of open frames with precedences", "ConstraintBuilder"), ("precedence climbing", "ConstraintParser::parseConstraint")],
  observe=["ConstraintBuilder::build"])

p("C30", "Constraint text is parsed with the documented precedence and printed back",
  "Every constraint expression in the supported grammar is parsed to the tree given by the operators' precedence and associativity, every malformed expression is rejected, and printing a parsed constraint and parsing it again gives the same tree.",
  ["inputs"], "all expression strings", "Tests try some dozens of expressions out of infinitely many.",
  ["include/vara/Feature/ConstraintParser.h", "include/vara/Feature/Constraint.h"], [("recursive-descent parser with precedence climbing", "ConstraintParser::parseConstraint")])
p("C31", "Step functions are parsed and evaluated as written",
  "Every step function in the supported grammar evaluates to the arithmetic result of its text for every value, and every malformed one is rejected.",
  ["inputs"], "all step-function strings and values", "Tests try about twenty strings.",
  ["include/vara/Feature/StepFunction.h", "include/vara/Feature/StepFunctionParser.h"], [("tokenizer and parser", "StepFunctionParser")])
p("C32", "Configurations keep what they are given, also as text and in sample sets",
  "After any history of options set, added and overwritten in any number of configurations, each holds exactly the last value given for every name: lookup, iteration and the typed accessors (a value in any case of true or false is that boolean, a decimal number of 64 bits that number, anything else that text) say so, its text is a JSON object of precisely these pairs, and a sample set written of such configurations lists for each, in order, exactly the output flags of its selected features. Reading such a text, spelled in any way JSON allows, gives a configuration with these pairs, and a text that is no JSON object of strings gives none. Neither the destruction of other configurations or of the caller's strings, nor a refused text, nor a failing allocation changes any other configuration or option.",
  ["histories", "inputs", "fault_sequences"], "all histories of any number of configurations with any names, values and texts, an allocation failing in any call",
  "Tests set two or three options of one configuration and read four fixed strings; none overwrites by text, destroys configurations, mixes several or fails an allocation.",
  ["lib/Configuration/Configuration.cpp", "include/vara/Configuration/Configuration.h", "lib/Sampling/SampleSetWriter.cpp"], [("map from names to owned options", "Configuration"), ("LLVM JSON", "createConfigurationFromString / dumpToString"), ("YAML map writer", "SampleSetWriter::writeConfigurations")],
  observe=["Configuration::dumpToString", "Configuration::configurationOptionValue", "SampleSetWriter::writeConfigurations"])
p("C33", "A written sample set lists exactly the selected flags of each configuration",
  "For every model and list of configurations, the written sample set contains, per configuration in order, exactly the output flags of its selected features, with the value appended for numeric ones.",
  ["inputs"], "all models and configuration lists", "The tests of this component are not part of the build.",
  ["lib/Sampling/SampleSetWriter.cpp"], [("YAML map writer", "SampleSetWriter::writeConfigurations")])
p("C34", "Python and C++ interfaces agree",
  "Every operation reachable from the Python interface has the same effect and result as its C++ counterpart.",
  ["inputs"], "all calls of the Python interface", "There are no tests of the Python interface in the stable set.",
  ["bindings/python/vara-feature"], [("pybind11 wrappers", "bindings/python/vara-feature/*.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
