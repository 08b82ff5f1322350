#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))


prop("C01", "A DataSet reports exactly the data that was added to it",
     "After any history of adding, overwriting, scaling and freezing data, every way of reading a data set (rows, counts, "
     "fractions, totals, time series, repetition counts, outcome labels, time grouping, iteration, membership, flattening) "
     "agrees with the sequence of (circuit, outcome, time, repetitions) records those operations define. A rejected operation "
     "changes nothing, and collisions follow the data set's declared policy (aggregate, overwrite or keep separate).",
     ["histories", "inputs"],
     "every sequence of add_* / set_row / scale / done operations, for every collision policy, with and without repetition "
     "counts and time stamps, and every read made after each of them",
     "unit tests call each adder once on one or two circuits; the row arrays, the outcome index, the label dictionaries and the "
     "count caches must stay consistent over every order of operations and reads (a cached count read between two writes, a "
     "label first seen in a later row, a collision on a row with idle lines)",
     ["pygsti/objects/dataset.py", "pygsti/objects/labeldicts.py"],
     [("keepseparate tagging, aggregation and overwrite in the adders", "pygsti/objects/dataset.py DataSet.add_raw_series_data"),
      ("count cache and its invalidation", "pygsti/objects/dataset.py _DataSetRow/get_counts"),
      ("outcome label <-> index dictionaries", "pygsti/objects/dataset.py DataSet.olIndex/ol")],
     [("rows", "per circuit: time-ordered (outcome index, time, repetitions)", "pygsti/objects/dataset.py oliData/timeData/repData"),
      ("outcome labels", "ordered outcome dictionary", "pygsti/objects/dataset.py olIndex")],
     ["DataSet public methods after every operation"])

prop("C02", "Derived data sets hold exactly the defined part and never alias",
     "A data set derived from others (copy, non-static copy, truncation, time slice, outcome merge, per-qubit marginalisation, "
     "outcome renaming, circuit processing, removal, insertion in a multi-data-set) contains exactly the records its definition selects. Later changes to "
     "either side are never visible through the other, and the original is unchanged by the derivation.",
     ["histories", "inputs"],
     "every interleaving of derivations and later modifications over a pool of data sets, static and non-static",
     "tests derive from a fresh full data set and look once; index remapping, shared label dictionaries and shared caches only "
     "go wrong on derivations of derivations or after a later write to one side",
     ["pygsti/objects/dataset.py", "pygsti/objects/multidataset.py", "pygsti/construction/datasetconstruction.py"],
     [("copy/copy_nonstatic/truncate/time_slice/merge_outcomes/rename_outcome_labels/process_circuits/remove", "pygsti/objects/dataset.py"),
      ("MultiDataSet container", "pygsti/objects/multidataset.py")],
     [], ["all live data sets projected after every operation"])

prop("C03", "Stored data sets come back as they were",
     "A data set or multi-data-set written by any supported persistence route (binary file, pickle, text file, with plain or "
     "time-stamped format) and read back holds the same circuits, outcomes, times, repetitions and auxiliary information in the "
     "same order. It also behaves identically under every later operation.",
     ["inputs", "histories"],
     "every data set reachable by C01/C02 histories, every route, followed by further operations on the loaded object",
     "tests save one small data set per route; the routes differ for static vs non-static, with vs without repetition counts, "
     "sparse rows, missing outcomes and circuits with idle lines or repeated gates",
     ["pygsti/objects/dataset.py", "pygsti/objects/multidataset.py", "pygsti/io/writers.py", "pygsti/io/loaders.py", "pygsti/io/stdinput.py"],
     [("save/load and __getstate__/__setstate__", "pygsti/objects/dataset.py"),
      ("write_dataset / StdInputParser", "pygsti/io/writers.py, pygsti/io/stdinput.py")],
     [], ["the loaded data set, projected by all reads"])

prop("C04", "Editing a circuit changes exactly the addressed layers and lines",
     "Every editing operation on a circuit (set, insert, append, delete or clear labels, layers and lines, insert or replace a "
     "sub-circuit, idle insertion, label or line renaming) leaves it equal to the circuit defined by applying the edit to its "
     "layer-by-line grid. No two gates come to share a line in one layer unless the inserted label itself makes them, a rejected "
     "edit changes nothing, and the gates of a finished (static) circuit never change (idle lines may be added, removed or reordered).",
     ["histories", "inputs"],
     "every sequence of edits on circuits of several lines and layers, including ranges, negative indices, empty layers and multi-qubit gates",
     "the tests try each editor on a fixed example; the layer/line index arithmetic and the interplay of edits (empty layers, "
     "gates straddling the addressed lines, nested circuits) has unboundedly many cases",
     ["pygsti/objects/circuit.py", "pygsti/objects/label.py"],
     [("index normalisation and label filtering", "pygsti/objects/circuit.py _proc_layers_arg/_proc_lines_arg/set_labels/get_labels"),
      ("static guard", "pygsti/objects/circuit.py assert(not self._static)")],
     [("grid", "per layer, set of (gate, lines)", "pygsti/objects/circuit.py _labels")],
     ["the circuit's layers, lines, static flag after every operation"])

prop("C05", "Circuit transformations preserve the program",
     "Reversing, serialising, parallelising, depth compression, idle-layer removal, tensoring, appending, line mapping, "
     "reordering, repetition and sub-circuit factorisation/expansion each give a circuit whose gates, and the order of gates "
     "on every line, are the ones their definition prescribes. Depth, size, two-qubit and per-line counts agree with the result.",
     ["inputs", "programs"],
     "every circuit within bounds and every transformation, and compositions of them",
     "tests check a few hand-made circuits; commutation constraints and layer packing have to be right for every arrangement",
     ["pygsti/objects/circuit.py", "pygsti/construction/circuitconstruction.py"],
     [("serialize/parallelize/compress_depth/tensor_circuit/map_*", "pygsti/objects/circuit.py")],
     [], ["returned circuits"])

prop("C06", "A circuit and its text, hash, pickle and parsed forms denote the same thing",
     "Printing a circuit or label and parsing the text again gives the same layers and lines (sub-circuits up to writing them "
     "out). Copying, pickling, serialising, compressing, or rebuilding a circuit from its layers gives an equal circuit with an equal "
     "hash, and two circuits are equal exactly when their layers and lines are. The fast and the pure-Python parser accept the "
     "same language with the same meaning, including repetition, nesting, line lists, arguments and times.",
     ["inputs", "programs"],
     "every circuit and every string of the circuit grammar within bounds",
     "tests use a few dozen literal strings; grammar nesting and argument formats are unbounded and the two parsers can drift apart",
     ["pygsti/io/circuitparser/slowcircuitparser.py", "pygsti/io/circuitparser/fastcircuitparser.pyx",
      "pygsti/objects/label.py", "pygsti/objects/circuit.py", "pygsti/io/loaders.py", "pygsti/io/writers.py"],
     [("lexer/grammar", "pygsti/io/circuitparser"), ("__str__/__hash__/__eq__/__reduce__", "pygsti/objects/label.py, circuit.py")],
     [], ["parsed circuits, str(), hash(), ==, <"])

prop("C07", "Model members and the parameter vector always agree",
     "At every moment a model's parameter vector and the parameters of each of its members are one state: setting the vector "
     "changes every member accordingly, changing a member through the model changes the vector, and each parameter belongs to "
     "exactly the members that share it. Adding, replacing, deleting or sharing members, copying and pickling preserve all "
     "other members' values, and a copy never shares state with its original.",
     ["histories", "configurations"],
     "every sequence of member insertion/replacement/deletion, vector updates, direct member updates, re-parameterisation, copies, with shared and nested members",
     "tests set one vector and read it back; index reallocation, lazy rebuild and nested ownership only break over multi-step histories",
     ["pygsti/objects/model.py", "pygsti/objects/modelmember.py", "pygsti/objects/labeldicts.py", "pygsti/objects/explicitmodel.py",
      "pygsti/objects/povm.py", "pygsti/objects/instrument.py", "pygsti/objects/operation.py", "pygsti/objects/spamvec.py"],
     [("gpindices allocation and shifting", "pygsti/objects/modelmember.py, model.py _rebuild_paramvec"),
      ("dirty flag / clean_paramvec", "pygsti/objects/model.py")],
     [("paramvec", "model parameters", "pygsti/objects/model.py"), ("gpindices", "member's parameter indices", "pygsti/objects/modelmember.py")],
     ["to_vector/from_vector, member matrices after every operation"])

prop("C08", "Every simulation route gives the exact outcome probabilities",
     "For any model and any circuit, the probability of each outcome equals the one defined by composing the preparation, the "
     "operations in circuit order and the effect, whichever simulator (matrix or map) and whichever route (single circuit, "
     "bulk, shared-prefix or split evaluation plan, any memory limit) computes it. Intermediate measurements multiply branches and POVM outcomes are "
     "reported under their own labels.",
     ["inputs", "configurations", "programs"],
     "every model with arbitrary operation matrices, every circuit list (repeats, shared prefixes, empty circuits, instruments), every split",
     "tests compare a handful of circuits on standard gate sets; index bookkeeping between plan, split and result arrays must be right for every list",
     ["pygsti/objects/matrixforwardsim.py", "pygsti/objects/mapforwardsim.py", "pygsti/objects/forwardsim.py",
      "pygsti/objects/model.py", "pygsti/objects/simplifierhelper.py", "pygsti/objects/replib"],
     [("evaluation plans and prefix caching", "pygsti/objects/mapevaltree.py, matrixevaltree.py"),
      ("circuit expansion into spam tuples", "pygsti/objects/model.py simplify_circuits")],
     [], ["probabilities from every route on integer-valued models (exact arithmetic)"])

prop("C09", "Reported derivatives are the derivatives of the probabilities",
     "First and second derivatives of outcome probabilities, for any circuit, any subset of parameters and any block layout, "
     "equal the exact derivatives of the probabilities with respect to the model's parameters. They agree between simulators, "
     "single and bulk evaluation, filtered, blocked and split computation.",
     ["inputs", "configurations"],
     "every circuit list, parameter filter and block size, on models with shared and partial parameters",
     "tests compare to finite differences on a few circuits with loose tolerance",
     ["pygsti/objects/matrixforwardsim.py", "pygsti/objects/mapforwardsim.py", "pygsti/objects/forwardsim.py"],
     [("dproduct/hproduct accumulation, wrt filtering", "pygsti/objects/matrixforwardsim.py"),],
     [], ["derivative arrays on integer-valued models"])

prop("C10", "Evaluation plans compute every requested circuit exactly once and in order",
     "For any list of circuits, the plan used for bulk evaluation computes every circuit from operands that were computed "
     "before, yields each requested result exactly once in the requested order, and never writes a cache slot that is still "
     "needed. After any splitting, the pieces together own every requested element exactly once and map it back to its original position.",
     ["inputs", "configurations"],
     "every circuit list, cache size and number/size of splits",
     "plans are only checked for a few lists through their numerical effects",
     ["pygsti/objects/evaltree.py", "pygsti/objects/matrixevaltree.py", "pygsti/objects/mapevaltree.py", "pygsti/objects/termevaltree.py"],
     [("tree construction, splitting and permutation", "pygsti/objects/evaltree.py")],
     [], ["the plan interpreted symbolically"])

prop("C11", "Distributed work covers every element exactly once on any number of processors",
     "For any number of processors and any amount of work, the distribution assigns every item and every parameter block an "
     "owner, no two processors ever disagree about the ownership or group structure, and gathering leaves every processor with the complete result equal to "
     "the serial one. Collective calls are made in the same order by all members of a communicator.",
     ["schedules", "configurations"],
     "every (processors, items, sub-groups, blocks) combination and every interleaving of the processes",
     "the tests are run with a single process",
     ["pygsti/tools/mpitools.py", "pygsti/tools/slicetools.py", "pygsti/objects/evaltree.py", "pygsti/objects/forwardsim.py"],
     [("distribute_indices / distribute_slice / gather_*", "pygsti/tools/mpitools.py")],
     [], ["ranks run against a scheduled stand-in communicator"])

prop("C12", "Stabilizer simulation agrees with quantum mechanics",
     "A stabilizer state propagated through any sequence of Clifford gates assigns to every measurement outcome the probability "
     "quantum mechanics prescribes, with outcomes summing to one. Propagation never changes a state that something else still holds.",
     ["programs", "inputs"],
     "every Clifford circuit within bounds over several qubits and every outcome",
     "tests sample a few circuits; the tableau update, phase and view bookkeeping is only exercised by unusual sequences",
     ["pygsti/objects/stabilizer.py", "pygsti/objects/replib", "pygsti/tools/symplectic.py", "pygsti/objects/operation.py", "pygsti/objects/spamvec.py"],
     [("StabilizerFrame clifford update / measurement probability", "pygsti/objects/stabilizer.py")],
     [], ["probabilities and post-measurement states"])

prop("C13", "Clifford algebra in symplectic form is exact and compilation implements its target",
     "Symplectic representations compose, invert, embed, permute, random-sample and convert to and from circuits as the Clifford operations they "
     "stand for, phases included. A compiled circuit implements exactly the requested Clifford (or stabilizer state or measurement) "
     "using only gates and connections the processor offers.",
     ["inputs", "programs", "configurations"],
     "every Clifford within bounds, every connectivity and native gate set, every compilation algorithm and random seed",
     "tests compile a few random Cliffords; each Gaussian-elimination branch and routing choice needs its own input",
     ["pygsti/tools/symplectic.py", "pygsti/algorithms/compilers.py", "pygsti/objects/compilationlibrary.py", "pygsti/tools/matrixmod2.py", "pygsti/objects/processorspec.py"],
     [("compose/inverse/embed", "pygsti/tools/symplectic.py"), ("compile_clifford", "pygsti/algorithms/compilers.py")],
     [], ["tableaux, circuits"])

prop("C14", "Randomly sampled RB circuits are what the protocol requires",
     "Every circuit sampled for a randomized-benchmarking protocol uses only available gates and connections on the requested "
     "qubits, has the requested benchmark depth, and its recorded ideal outcome is the outcome it deterministically "
     "yields when error free. This holds for every protocol variant, sampler, subset of qubits and seed.",
     ["inputs", "configurations"],
     "every processor, protocol variant, sampler, depth, qubit subset and seed",
     "tests only look at shapes of a few sampled circuits",
     ["pygsti/algorithms/randomcircuit.py", "pygsti/protocols/rb.py"],
     [("clifford/direct/mirror rb circuit construction", "pygsti/algorithms/randomcircuit.py")],
     [], ["sampled circuits and ideal outcomes"])

prop("C15", "GST experiment designs contain exactly the defined circuits",
     "The circuit lists of a long-sequence experiment consist of exactly preparation-fiducial, germ power and measurement-fiducial "
     "combinations within each maximum length, nested over lengths, without duplicates, with every circuit placed at its "
     "(length, germ, fiducial pair) position. Fiducial-pair reduction, random dropping, extra circuits and aliases change "
     "only what they say.",
     ["inputs", "configurations"],
     "every choice of fiducials, germs, lengths, truncation scheme, pair list, and nesting option",
     "tests compare lengths of lists for the standard gate sets only",
     ["pygsti/construction/stdlists.py", "pygsti/construction/circuitconstruction.py", "pygsti/objects/circuitstructure.py", "pygsti/protocols/gst.py"],
     [("make_lsgst_lists/structs", "pygsti/construction/stdlists.py")],
     [], ["lists and structures"])

prop("C16", "Experiment trees, their data and results survive storage and keep their shape",
     "An experiment design tree, with its data and results, that is written to a directory and read back has the same nodes, "
     "circuits, attached data and results. Looking at a node never changes the tree, and a protocol run on a tree stores "
     "its results on exactly the nodes it applies to, with each node seeing exactly its own data.",
     ["histories", "inputs"],
     "every tree of simultaneous/combined/nested designs, every order of writing, reading, viewing and running",
     "tests store one flat design; metadata, aux-file formats and the child/parent caches depend on the tree's shape and history",
     ["pygsti/protocols/protocol.py", "pygsti/protocols/treenode.py", "pygsti/io/metadir.py"],
     [("TreeNode lazily built children", "pygsti/protocols/treenode.py"), ("metadir serialisation", "pygsti/io/metadir.py")],
     [], ["trees projected before and after"])

prop("C17", "Constrained parameterisations can never leave their constraint",
     "Whatever parameter values are set, a trace-preserving operation, preparation or POVM, a complement POVM, a tensor-product POVM and a "
     "trace-preserving instrument keep satisfying their defining constraint, and their reported parameters reproduce them. "
     "Composed, embedded and tensor-product members equal the composition, embedding or tensor product of their factors at all times.",
     ["histories", "inputs"],
     "every parameter vector and every history of updates to the whole and to its factors",
     "tests look at one or two random vectors of each type",
     ["pygsti/objects/operation.py", "pygsti/objects/spamvec.py", "pygsti/objects/povm.py", "pygsti/objects/instrument.py"],
     [("TPDenseOp, TPPOVM, TPInstrument, ComposedOp, EmbeddedOp, TensorProd*", "pygsti/objects")],
     [], ["dense matrices after every update"])

prop("C18", "Gauge transformations never change predictions",
     "Transforming a model by any invertible gauge element, and then by any other, leaves the probabilities of every circuit "
     "unchanged and maps every operation to the conjugated one. Transforming by the inverse restores the model.",
     ["histories", "inputs"],
     "every invertible gauge element and every sequence of them, on models containing every kind of member",
     "tests apply one fixed transformation to a standard model",
     ["pygsti/objects/explicitmodel.py", "pygsti/objects/gaugegroup.py", "pygsti/objects/operation.py", "pygsti/objects/spamvec.py", "pygsti/objects/povm.py", "pygsti/objects/instrument.py"],
     [("transform on every member", "pygsti/objects/explicitmodel.py transform")],
     [], ["member matrices and probabilities with unimodular integer gauges"])

prop("C19", "Exported programs perform the circuit's gates in the circuit's order",
     "A circuit converted to OpenQASM or Quil is a program that applies, on every qubit, exactly the circuit's gates in the "
     "circuit's order with the requested idle handling, block synchronisation and measurements. Custom gate names and qubit "
     "maps are honoured.",
     ["inputs", "programs"],
     "every circuit within bounds with every conversion option",
     "tests compare against a couple of literal program strings",
     ["pygsti/objects/circuit.py", "pygsti/tools/internalgates.py"],
     [("convert_to_openqasm/convert_to_quil", "pygsti/objects/circuit.py")],
     [], ["program text parsed back"])

prop("C20", "Implicit models build each layer from exactly its components",
     "For a local-noise or cloud-noise model, the operation of any circuit layer is the composition of the ideal gates and "
     "noise of exactly the components present in the layer, acting on their own qubits, plus the idle where the model says so. "
     "The preparation and measurement act on all qubits.",
     ["inputs", "configurations"],
     "every processor geometry, layer content, idle option and noise placement",
     "tests construct models and evaluate one circuit",
     ["pygsti/objects/localnoisemodel.py", "pygsti/objects/cloudnoisemodel.py", "pygsti/objects/layerlizard.py", "pygsti/objects/implicitmodel.py", "pygsti/construction/modelconstruction.py"],
     [("layer lizards", "pygsti/objects/layerlizard.py")],
     [], ["layer operations on basis states"])

prop("C21", "Simulated data obey their sampling contract",
     "Generated data contain exactly the requested circuits with exactly the requested number of samples each, only outcomes "
     "of nonzero probability, and exact expected counts in the noiseless modes. The same seed gives the same data.",
     ["inputs", "configurations"],
     "every model, circuit list, sample count, error mode, seed, and previously collected data set",
     "tests check one circuit list for totals",
     ["pygsti/construction/datasetconstruction.py"],
     [("generate_fake_data", "pygsti/construction/datasetconstruction.py")],
     [], ["generated data sets"])

prop("C22", "Multiple-test corrections reject exactly the hypotheses their rule rejects",
     "For any p-values, significance and correction method, including nested hypothesis structures with weights and passing "
     "graphs, the hypotheses reported as rejected are exactly the ones the sequential rule rejects. The result does not depend on the order "
     "of the hypotheses.",
     ["inputs", "configurations"],
     "every assignment of p-values to hypotheses, passing graphs and correction methods",
     "tests check one example per method",
     ["pygsti/objects/hypothesistest.py", "pygsti/tools/hypothesis.py"],
     [("HypothesisTest.implement, Holms/Hochberg/BH/Bonferroni", "pygsti/objects/hypothesistest.py")],
     [], ["rejected flags"])

prop("C23", "Connectivity queries answer for the graph they were asked about",
     "Neighbours, shortest paths, path lengths, connectivity of subsets, connected subgraph enumeration, sub-graphs and derived "
     "cost matrices of a qubit graph agree with its set of edges after any sequence of edge additions and removals.",
     ["histories", "inputs"],
     "every directed or undirected graph within bounds and every history of edits and queries",
     "tests query a few fixed graphs without later edits; cached distances can go stale",
     ["pygsti/objects/qubitgraph.py", "pygsti/objects/processorspec.py"],
     [("lazy shortest-path cache", "pygsti/objects/qubitgraph.py")],
     [], ["query results after every edit"])

prop("C90", "GST fits reach the statistical optimum",
     "The estimate returned by maximum-likelihood or chi-squared gate set tomography maximises the objective over the model's "
     "parameter space up to the optimiser's tolerance.",
     ["inputs"], "every data set and model",
     "a finite sample of data sets says nothing about the others",
     ["pygsti/algorithms/core.py", "pygsti/optimize/customlm.py", "pygsti/objects/objectivefns.py"],
     [("Levenberg-Marquardt", "pygsti/optimize/customlm.py")])

prop("C91", "Numerical metrics and reports are accurate",
     "Reported distances, fidelities, error rates, confidence regions and plots are numerically accurate functions of the estimate and data.",
     ["inputs"], "every estimate",
     "tests compare a few values",
     ["pygsti/tools/optools.py", "pygsti/report/reportables.py", "pygsti/objects/confidenceregionfactory.py"],
     [("metric functions", "pygsti/tools/optools.py")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
