"""Writes /verif/properties.jsonl (one place to edit titles, statements and anchors)."""
import json, pathlib
OUT = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, obs=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "where": w} for n, w in state]
    if obs: a["observe_at"] = obs
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": a})

I, F = "include/tnco/optimize/infinite_memory/", "include/tnco/optimize/finite_width/"

prop("C01", "Incremental costs, widths and indices stay equal to a from-scratch evaluation",
 "After every optimizer update, whatever moves were accepted or rejected, the tree's node links, the indices of each intermediate tensor, the shared (hyper) indices, the per-contraction costs, the accumulated costs up to the root and (with a width limit) the widths are exactly what a from-scratch evaluation of the current tree and slices gives. A move accepted on one path of the code refreshes all of these quantities, a rejected move leaves all of them as they were, and the total cost reported is the one of the current tree.",
 ["histories", "inputs"], "all update histories (every sequence of accepted/rejected moves), all networks, cost models, float types and slice sets",
 "Tests sample a few random networks and rely on debug-only self checks with a tolerance; release builds drop those checks, and a stale cache on a rarely taken branch (hyper-indices, slice changing moves, rejection after tentative swap) only shows for particular trees.",
 [I+"optimizer.hpp", I+"utils.hpp", F+"greedy/optimizer.hpp", F+"utils.hpp"],
 [("Optimizer::update (infinite memory)", I+"optimizer.hpp:update"), ("Optimizer::update (finite width)", F+"greedy/optimizer.hpp:update"), ("CostCache/HyperCache/WidthCache constructors", I+"utils.hpp, "+F+"utils.hpp")],
 [("cost_cache, hyper_cache, width_cache, ctree.inds, ctree.nodes", I+"optimizer.hpp")],
 ["Optimizer.total_cost, Optimizer.ctree, Optimizer.is_valid(atol=...)"])

prop("C02", "The best-so-far record is consistent and only ever improves",
 "The minimum total cost an optimizer reports never increases over its lifetime, is never above the current total cost after an update, and is always the cost of the best tree (and best slices) reported next to it: cost, tree and slices are recorded together, from the same state, and only when the current cost is strictly lower. Nothing else changes the record.",
 ["histories"], "all update histories, with and without slices, from any restored state",
 "A lost or mismatched record needs an update history where the best state is not the last one, and tests compare at most the final values of a few runs.",
 [I+"optimizer.hpp", F+"greedy/optimizer.hpp", "include/tnco/optimize/optimizer.hpp"],
 [("min update at the end of update()", I+"optimizer.hpp:update"), ("min update at the end of update()", F+"greedy/optimizer.hpp:update")],
 [("min_total_cost, min_ctree, min_slices", F+"greedy/optimizer.hpp")],
 ["Optimizer.min_total_cost, min_ctree, min_slices"])

prop("C03", "Moves change state only through the acceptance rule",
 "The current tree and its slices change only when a uniform random draw in [0,1) is strictly below the acceptance probability evaluated for the change of total cost of that very move; so a move of probability 0 never happens and one of probability 1 always does. A move that is not accepted, or is not attempted because it does not fit, leaves tree, indices and slices exactly as they were (the optional re-slicing step keeps a new slice set only if it strictly lowers the current total cost). Under Metropolis-Hastings a change that does not raise the cost has probability 1 and the greedy rule gives 1 to exactly the changes that do not raise the cost and 0 to all others.",
 ["histories", "inputs"], "all moves of all update histories, both optimizers, all probability functions",
 "Draws equal to the boundary have probability about 2^-53 and rollback errors need a rejected slice-changing move: no sampled test meets them.",
 [I+"optimizer.hpp", F+"greedy/optimizer.hpp", "include/tnco/optimize/prob/mh.hpp", "include/tnco/optimize/prob/greedy.hpp", "include/tnco/optimize/prob/base.hpp"],
 [("acceptance comparison", I+"optimizer.hpp:update"), ("acceptance comparisons and rollback", F+"greedy/optimizer.hpp:update"), ("Probability::operator()", "include/tnco/optimize/prob/")],
 None, ["Optimizer.ctree / slices before and after update(prob)"])

prop("C04", "The width limit and protected indices are enforced at every step",
 "In a width-limited optimization no state is ever adopted in which a tensor is wider than the limit after slicing, as measured by the optimizer's own width model (including sparse indices); indices the caller marked as not sliceable are never added to the slices, and at most the allowed number of new slices is added per move. When no sliceable index is left the move is abandoned rather than attempted.",
 ["histories", "inputs"], "all update histories, all networks, limits, protected sets, sparse-index sets and new-slice budgets",
 "The violating situations need protected indices, sparse indices and new-slice budgets combined in one network; the suite exercises them separately on a few random networks.",
 [F+"greedy/optimizer.hpp", F+"greedy/utils.hpp", F+"cost_model/simple.hpp", F+"cost_model/simple_sparse_inds.hpp"],
 [("move acceptance in update()", F+"greedy/optimizer.hpp:update"), ("get_slices_impl", F+"greedy/utils.hpp"), ("is_valid at construction", F+"greedy/optimizer.hpp:is_valid")],
 [("slices, min_slices, skip_slices", F+"greedy/optimizer.hpp")], ["Optimizer.slices, Optimizer.min_slices"])

prop("C05", "Only well-formed trees exist, and moves keep them well formed",
 "No tree or contraction tree object can be built from node links that are out of range, disagree between parent and child, are shared, cyclic or unreachable from the single root (last node), or are not leaves-first; contraction trees additionally need one index set per node, consistent with its children, and non-zero dimensions of the right number. Swapping a node with its neighbour updates both parents and both children consistently, and never touches memory outside the tree whatever position is passed.",
 ["inputs", "histories"], "all node lists, index sets and positions a caller can pass, and all swap sequences",
 "Malformed inputs form an unbounded family; the tests try a handful of wrong lists, and a wrong link only shows up as a hang or crash several moves later.",
 ["include/tnco/tree.hpp", "include/tnco/ctree.hpp", "include/tnco/node.hpp"],
 [("Tree::is_valid / constructor", "include/tnco/tree.hpp"), ("Tree::swap_with_nn", "include/tnco/tree.hpp"), ("ContractionTree::is_valid", "include/tnco/ctree.hpp")],
 [("nodes, inds, dims", "include/tnco/tree.hpp, include/tnco/ctree.hpp")], ["tnco_core.Tree(...), tnco_core.ContractionTree(...)"])

prop("C06", "Release and debug builds of the native core behave the same",
 "Compiling the native core without its assertions changes nothing but the checking: assertion conditions and debug-only blocks have no side effect on any object, random generator or control flow that survives them (other than raising), and no function that a release build promises not to throw can raise one of the core's own exceptions in that build.",
 ["configurations"], "all functions and template instantiations of the native core, with and without assertions",
 "The test-suite is run with one build type only; a side effect inside an assertion is invisible there by construction.",
 ["include/tnco/assert.hpp", I+"optimizer.hpp", F+"greedy/optimizer.hpp", F+"greedy/utils.hpp", "include/tnco/optimize/optimizer.hpp", "include/tnco/tree.hpp"],
 [("ASSERT", "include/tnco/assert.hpp"), ("#ifndef NDEBUG blocks", F+"greedy/optimizer.hpp:update"), ("noexcept under NDEBUG", "include/tnco/**")],
 None, ["any result of a release build compared with a debug build"])

prop("C07", "Costs and widths are computed in the precision the user selected",
 "Every arithmetic step that leads from dimensions and index sets to a contraction cost, a total cost or a width is carried out in the cost (or width) type the model was created with: no intermediate product, power, sum or minimum is evaluated in a floating-point type of smaller range or precision and widened afterwards. A network whose cost fits the selected type therefore never yields infinity, whichever way its dimensions are given.",
 ["inputs", "configurations"], "all networks and dimensions, scalar or per-index, all cost and width types, all cost models",
 "Overflow of a narrower intermediate needs costs beyond 1e308 and the scalar-dimension path at once; tests compare with Python floats on small networks.",
 [I+"cost_model/simple.hpp", I+"cost_model/simple_sparse_inds.hpp", F+"cost_model/simple.hpp", F+"cost_model/simple_sparse_inds.hpp", I+"utils.hpp"],
 [("get_cost", I+"cost_model/simple.hpp"), ("get_width / get_delta_width", F+"cost_model/simple.hpp"), ("CostCache, get_cost", I+"utils.hpp")],
 None, ["CostModel.contraction_cost, Optimizer.total_cost"])

prop("C08", "High-precision floats implement the operation they name",
 "Every operator, in-place operator, reflected operator, comparison and function of the high-precision float computes exactly the operation its name says, on its operands in the right order, in both its native and its Python-visible form (including mixed operands), and queries such as isnan, isinf and signbit answer their own question. Comparisons involving NaN follow IEEE rules (every ordering and equality false, inequality true), and each value owns its storage (initialised once, freed once, never shared).",
 ["inputs"], "all operand values including NaN, infinities and signed zeros, all operand orders and mixes",
 "Each operator is a separate hand-written forwarding function; tests cannot try special values and operand orders on all of them, and cost comparisons use only a few.",
 ["include/tnco/fixed_float.hpp"],
 [("FixedFloat members and friends", "include/tnco/fixed_float.hpp"), ("pybind bindings", "include/tnco/fixed_float.hpp:init")],
 None, ["tnco_core.float1024"])

prop("C09", "Bit sets implement set algebra and reject operands they cannot combine",
 "Bit-set operators and queries (and, or, xor, difference, complement, subset/superset relations, disjointness, membership, positions) agree with set algebra in the native and the Python-visible form, with operands in the right order. From Python, combining or comparing bit sets of different sizes with an operation that needs equal sizes, or asking for a bit out of range, raises an exception instead of aborting the process or reading outside the set.",
 ["inputs"], "all pairs of bit sets, of equal and different sizes, and all positions",
 "Size mismatches abort the interpreter, so a test-suite does not contain them; operand-order errors need asymmetric pairs for each operation.",
 ["include/tnco/bitset.hpp", "tnco/bitset.py"],
 [("Bitset operators and bindings", "include/tnco/bitset.hpp"), ("Bitset constructor", "tnco/bitset.py")],
 None, ["tnco.bitset.Bitset"])

prop("C10", "Cost and width models count the indices they should",
 "A contraction is charged the product of the dimensions of every index of its operands (and of every slice, when slicing), each exactly once, and a tensor's width is the sum of the log-dimensions of its indices; for indices declared sparse the joint contribution is capped by the number of projections. Scalar and per-index dimensions, the sliced and unsliced models, the incremental width change and the full width agree with this one definition.",
 ["inputs"], "all index sets, dimensions, slice sets, sparse sets and projection counts",
 "The definition is implemented several times (scalar/vector, infinite/finite, full/incremental); tests compare a few random samples of some of the pairs.",
 [I+"cost_model/simple.hpp", I+"cost_model/simple_sparse_inds.hpp", F+"cost_model/simple.hpp", F+"cost_model/simple_sparse_inds.hpp"],
 [("contraction_cost overrides", I+"cost_model"), ("width, delta_width overrides", F+"cost_model")],
 None, ["CostModel.contraction_cost, CostModel.width, CostModel.delta_width"])

prop("C11", "The Python layer and the native core agree on names, types and keywords",
 "Every native class, constructor, keyword, attribute and method that the Python layer refers to, for every supported combination of cost and width types, exists in the compiled core under exactly that name and accepts the arguments given; the type name a model reports selects the very native type it was created from.",
 ["configurations"], "all supported cost/width type combinations and all Python call sites into the core",
 "There are dozens of generated class names and the suite instantiates only some combinations; a wrong name or keyword fails only when that combination is first used.",
 ["tnco/optimize/**", "tnco/ctree.py", "tnco/bitset.py", "include/tnco/**/main.hpp", "include/tnco/globals.hpp"],
 [("class-name construction", "tnco/optimize/*/optimizer.py, cost_model.py, prob.py"), ("EXPAND_* registries", "include/tnco/globals.hpp")],
 None, ["creating any cost model, probability or optimizer from Python"])

prop("C12", "Pickling restores everything that determines later behaviour",
 "Every object that supports pickling is rebuilt with all the state its constructor or later behaviour depends on (including options such as slice budgets, protected indices, tolerances, random-generator state and best-so-far records), each value restored to the field it was saved from. Equality of model objects compares all the fields that are saved.",
 ["histories", "inputs"], "all objects in any state, and the continuation of any run after a save/restore",
 "A dropped field restores silently to its default and only changes later behaviour; tests compare a few visible attributes after a round trip.",
 ["tnco/optimize/**", "tnco/ctree.py", "tnco/bitset.py", "tnco/app/tn.py", "include/tnco/**"],
 [("__reduce__ and rebuild helpers", "tnco/**"), ("py::pickle", "include/tnco/**")],
 None, ["pickle.loads(pickle.dumps(x))"])

prop("C13", "Parallel runs release what they acquire on every exit",
 "However a parallel run ends (normally, by an exception in the user's function, in the parallel backend or while setting up, or by keyboard interrupt) every shared-memory block it created is unlinked, its timeout timer is cancelled and its progress thread is let go, so that the calling process keeps no leaked segment and can exit. A failing run still reports the original exception.",
 ["fault_sequences", "schedules"], "all points at which the run, the worker function or the setup can fail",
 "Failures can strike at any statement between the first acquisition and the last release; the suite only runs the successful path.",
 ["tnco/parallel.py"],
 [("Parallel", "tnco/parallel.py:Parallel"), ("Buffer", "tnco/parallel.py:Buffer")],
 [("SharedMemory segments, Timer, updater Thread", "tnco/parallel.py")], ["/dev/shm, threading.enumerate() after a failing run"])

prop("C14", "Arguments documented as iterables may be one-shot iterators",
 "Wherever a public function accepts an iterable, passing a one-shot iterator or generator gives the same result as passing the equivalent list: the function does not iterate such an argument twice, ask for its length or index it before materialising it, and does not lose elements to a preliminary check.",
 ["inputs"], "all public functions and all of their iterable parameters",
 "Tests pass lists and tuples; the failure (an empty second pass) is silent and depends on the kind of object passed.",
 ["tnco/**"],
 [("functions with Iterable parameters", "tnco/ctree.py, tnco/utils/*.py, tnco/app/**, tnco/parallel.py")],
 None, ["ContractionTree(iter(path), ...), utils.tn.contract(iter(path), ...), Optimizer.optimize(betas=iter(...))"])

prop("C15", "A seed fixes every random choice",
 "When a seed is given, every random choice of loading, fusing, decomposing, path finding, optimizing and sampling derives from it (directly or through the seeded generator), never from global random state, the clock, the operating system or hash ordering of unordered collections, and no code path replaces the caller's seed with another source. Retry loops advance the generator instead of restarting it, so they end.",
 ["inputs", "configurations", "schedules"], "all entry points taking a seed, all processes and hash seeds, all numbers of workers",
 "Unseeded draws agree with seeded ones in distribution and hash ordering is fixed in the test environment (PYTHONHASHSEED=0), so the suite cannot see the difference.",
 ["tnco/**", "include/tnco/optimize/optimizer.hpp"],
 [("seed parameters and Random objects", "tnco/utils/*.py, tnco/app/**, tnco/testing/utils.py"), ("PRNG initialisation", "include/tnco/optimize/optimizer.hpp")],
 None, ["results of two processes with the same seed and different PYTHONHASHSEED"])

prop("C16", "Options reach the code they configure, whatever form the input takes",
 "Every option accepted by a loading, decomposing, optimizing or sampling entry point is passed on unchanged under its own meaning wherever that entry point delegates: to itself on a converted input (file, string, JSON, list), to a sibling overload (cirq, qiskit, gate list), to the lower layer or to the factory it wraps. Sibling overloads for different input types lead to the same operation.",
 ["inputs", "configurations"], "all entry points, all input formats and all combinations of options",
 "The number of format/option combinations is large and a dropped option silently means its default; the suite checks defaults on most formats.",
 ["tnco/app/app.py", "tnco/app/tn.py", "tnco/app/circuit/sampling.py", "tnco/utils/circuit.py", "tnco/utils/tensor.py", "tnco/utils/tn.py", "tnco/app/cli.py"],
 [("recursive and dispatched calls", "tnco/app/app.py:load_tn, tnco/utils/circuit.py:load, tnco/app/circuit/sampling.py:sample"), ("factories and CLI", "tnco/app/app.py:Optimizer, tnco/app/cli.py")],
 None, ["load_tn, sample, Sampler, Optimizer, command line"])

prop("C17", "Equal objects hash equally and container views stay immutable",
 "For every hashable class of the library, objects that compare equal (to each other, or to a standard-library object they claim to equal) have equal hashes, and the state that equality and hashing depend on cannot be changed through the object's public interface after construction.",
 ["inputs"], "all pairs of objects of the hashable classes",
 "Hash collisions and orders are sampled by chance only; tests compare objects built in the same order.",
 ["tnco/ordered_frozenset.py", "tnco/app/tn.py", "tnco/ctree.py", "tnco/bitset.py", "tnco/optimize/**"],
 [("__eq__/__hash__ pairs", "tnco/ordered_frozenset.py, tnco/app/tn.py")],
 None, ["dict/set membership"])

prop("C18", "Functions never modify the caller's objects",
 "No public function or method modifies a list, dictionary, set, array, tensor network, tree or path passed to it by the caller, nor returns an internal mutable container whose modification would change a library object that presents itself as immutable.",
 ["inputs"], "all public functions and arguments",
 "A mutated argument is only visible to a caller that reuses it; tests build fresh inputs for each call.",
 ["tnco/**"],
 [("public functions", "tnco/utils/*.py, tnco/app/**, tnco/ctree.py, tnco/ordered_frozenset.py")],
 None, ["arguments compared before and after the call"])

prop("C19", "Output files: refused early, never overwritten without leave",
 "An invalid output request (format, compression, file name, compression without a file, existing file without the overwrite option) is rejected with the documented exception before any optimization work starts and before any file is touched; an existing file is only replaced when overwriting was requested, and nothing is written when only checking. The stored bytes use the compression that was requested or that the extension names, in a form the loader recognises.",
 ["inputs", "configurations"], "all combinations of output options and file-system states",
 "The combinations are many and the failing ones cost a whole optimization before they are noticed; tests exercise the accepted ones.",
 ["tnco/app/app.py", "tnco/app/infinite_memory/sa.py", "tnco/app/finite_width/sa.py"],
 [("dump_results", "tnco/app/app.py:dump_results"), ("BaseOptimizer.__post_init__", "tnco/app/app.py"), ("load_file", "tnco/app/app.py:load_file")],
 None, ["dump_results, Optimizer(...), load_file"])

prop("C20", "JSON output carries every field of the result",
 "The JSON form of a result, tensor network or tensor contains every public field of the object under its own name, for every result class, and every value type that can occur in them is handled by an encoder.",
 ["inputs"], "all result objects and networks",
 "A field missing from the output is invisible to tests that look at the fields that are there.",
 ["tnco/app/app.py", "tnco/app/tn.py", "tnco/app/infinite_memory/sa.py", "tnco/app/finite_width/sa.py"],
 [("JSONEncoder.default", "tnco/app/**"), ("to_json", "tnco/app/**")],
 None, ["to_json(), Optimizer(output_format='json')"])

prop("C21", "Runs honour stop requests and touch only their own slots",
 "Every optimization loop that runs as a parallel job checks its own stop flag before each step, so a timeout ends it within one step; each job writes only the entries of the shared buffers that belong to it, the timeout sets the flag of every job, and a job is marked completed only after its work function has returned.",
 ["schedules", "inputs"], "all numbers of jobs, timeouts and interleavings",
 "Interleavings and timing are not controllable from a test; a wrong slot or a missed check shows only with several jobs or late timeouts.",
 ["tnco/parallel.py", "tnco/app/infinite_memory/sa.py", "tnco/app/finite_width/sa.py"],
 [("core_ loops", "tnco/app/*/sa.py"), ("Parallel.timer_helper / core_", "tnco/parallel.py")],
 [("status, stop, completed, log2_total_cost buffers", "tnco/parallel.py")], ["Optimizer.optimize(timeout=...)"])

prop("C22", "Positions removed from parallel lists are removed safely and together",
 "When tensors at several positions are contracted or merged, the positions are removed from the working list from the largest to the smallest (or otherwise so that no removal shifts a position still to be used), and every list kept in parallel with it (indices, arrays, tags) is changed at the same positions in the same order.",
 ["inputs"], "all contraction paths, including unordered position pairs",
 "Only paths with positions in an unfavourable order reveal a wrong removal, and only when the parallel list is inspected afterwards.",
 ["tnco/utils/tn.py", "tnco/app/app.py", "tnco/ctree.py"],
 [("contract", "tnco/utils/tn.py:contract"), ("fuse", "tnco/utils/tn.py:fuse"), ("tag fusion", "tnco/app/app.py:load_tn")],
 None, ["contract, fuse, load_tn, merge_contraction_paths"])

OUT.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
