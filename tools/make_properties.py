"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os

C = "src/jax_act/core/"
L = "src/jax_act/layers/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(qtext.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


CTRL = C + "controller.py"
prop("C01", "A halted batch element is frozen",
     """Once the cumulative probability of a batch element exceeds 1 - epsilon, committing further iterations leaves
     that element's residual, iteration count and every accumulator slice exactly as they were, whatever updates and halting
     probabilities (finite values) are supplied, and the element stays halted. Elements never influence one another.""",
     ["inputs", "histories"],
     """every controller state with probabilities in [0,1], every batch shape, every accumulator pytree, every finite
     update and halting probability, every epsilon in (0,1) and depression constant >= 0; by induction every later step""",
     """Tests sample one small tensor or constant halting probabilities; the guarantee is per element and for every
     content, including contents that only differ where an element is already halted.""",
     [CTRL, C + "utils.py"],
     [("select on halted_batches when merging accumulators", CTRL + ":_update_accumulator"),
      ("newly_halting mask for residuals", CTRL + ":_process_probabilities"),
      ("select for iterations", CTRL + ":iterate_act")],
     ["ACT_Controller.iterate_act", "ACT_Controller.accumulators/residuals/iterations/halted_batches"],
     [("probabilities", "cumulative halting probability per batch element", CTRL),
      ("epsilon", "halting margin", C + "states.py")])

prop("C02", "Cumulative probability never leaves its budget",
     """For every batch element the cumulative probability stays within [0, 1] and never decreases when an iteration is
     committed. While the element stays unhalted it grows by exactly the supplied halting probability clamped to [0, 1] and
     multiplied by the depression constant; on the step that crosses 1 - epsilon it becomes 1.""",
     ["inputs", "histories"],
     """every halting probability (including outside [0,1]), every prior probability in [0,1], every epsilon in (0,1),
     depression constant >= 0, every batch shape; preserved by every step, hence along every history""",
     """Tests use a few in-range probabilities and depression 1; out-of-range values, values exactly on the threshold and
     depressed values over long histories are not sampled.""",
     [CTRL],
     [("clip of halting probabilities", CTRL + ":iterate_act"),
      ("clamping to the remaining budget", CTRL + ":_process_probabilities")],
     ["ACT_Controller.iterate_act", "ACT_Controller.probabilities"])

prop("C03", "Residual records the budget left at the halting step",
     """A committed iteration changes a batch element's residual only if that iteration moves it from unhalted to halted,
     and then the residual becomes one minus the cumulative probability the element had before the step. Otherwise the residual
     is unchanged, and residuals stay within [0, 1].""",
     ["inputs", "histories"],
     """every prior state, halting probability, epsilon and depression constant as in C02, per batch element""",
     """The relation is between the state before and after the single crossing step, element by element; tests check
     a couple of whole-tensor examples.""",
     [CTRL], [("newly_halting select", CTRL + ":_process_probabilities")],
     ["ACT_Controller.iterate_act", "ACT_Controller.residuals"])

prop("C04", "Accumulators gain update times probability mass",
     """Each committed iteration adds to every accumulator leaf, for each batch element that was not halted before it,
     exactly the cached update of that leaf times the probability mass the batch element gained in that step, the mass being
     broadcast over the leaf's trailing (non batch) dimensions. Structure, shape and dtype of every accumulator stay those of its
     definition, so the weights applied to an element sum to its cumulative probability.""",
     ["inputs", "histories"],
     """every accumulator pytree, leaf rank, batch shape (also when batch and feature sizes coincide), dtype, update and
     halting probability""",
     """Tests use one or two shapes where a wrong broadcast side or a wrong leaf pairing can go unseen, and constants for
     which most weightings give the same result.""",
     [CTRL, C + "utils.py"],
     [("weight-and-add", CTRL + ":_update_accumulator"), ("setup_left_broadcast", C + "utils.py"),
      ("merge_pytrees", C + "utils.py")],
     ["ACT_Controller.iterate_act", "ACT_Controller.accumulators"])

prop("C05", "Iteration counts advance only for running elements",
     """Every committed iteration raises the iteration count of each batch element that was unhalted before the step by
     exactly one and leaves the count of halted elements unchanged, with shape and dtype kept.""",
     ["inputs", "histories"], "every prior state, batch shape, count dtype and halting probability",
     "Tests run one iteration on a uniform batch; mixed halted/unhalted batches over several steps are not exercised.",
     [CTRL], [("iterations select", CTRL + ":iterate_act")],
     ["ACT_Controller.iterate_act", "ACT_Controller.iterations"])

prop("C06", "All halting tests agree",
     """An element counts as halted exactly when its cumulative probability is strictly greater than 1 - epsilon; the
     per-element flag, the "completely halted" flag (all elements) and the "any halted" flag (some element) of a controller and
     the flags of a viewer of the same state are all derived from this one test.""",
     ["inputs"], "every probability tensor (including values exactly at the threshold), every epsilon, every batch shape",
     "Boundary values and disagreement between the controller and its viewer are never sampled.",
     [CTRL, C + "viewer.py"],
     [("halt_threshold / halted_batches", CTRL), ("halt_threshold / halted_batches", C + "viewer.py")],
     ["halted_batches", "is_completely_halted", "is_any_halted", "halt_threshold"])

prop("C07", "Cache-then-commit protocol is enforced",
     """Caching to an accumulator that was never defined raises ValueError and caching twice before a commit raises
     RuntimeError; committing while some accumulator has no update, or with an update whose leaf shapes or count differ or
     halting probabilities not of the batch shape, raises; resetting with updates pending raises RuntimeError. A successful
     commit consumes every pending update, and the ready / has-pending flags report all / any accumulators pending.""",
     ["histories", "inputs"], "every sequence of cache, commit and reset calls over every set of accumulators",
     "Tests try a few sequences on one or two accumulators; partial caching patterns and orders are unbounded.",
     [CTRL],
     [("cache_update guards", CTRL + ":cache_update"), ("commit loop", CTRL + ":iterate_act"),
      ("reset guard", CTRL + ":reset_batches"), ("updates_ready_to_commit / has_cached_updates", CTRL)],
     ["cache_update", "iterate_act", "reset_batches", "updates_ready_to_commit", "has_cached_updates"])

prop("C08", "Reset restores exactly the halted elements",
     """Resetting a controller puts, for each halted element, probability, residual and iteration count to zero and every
     accumulator slice to its default, and leaves every unhalted element and the defaults untouched. Works for every accumulator
     pytree and leaf rank, keeping structure, shape and dtype.""",
     ["inputs", "histories"], "every mixed halted/unhalted state, batch shape, accumulator pytree, default content",
     "Tests reset one flat accumulator; nested accumulators and ranks above the batch rank are not covered (and used to crash).",
     [CTRL], [("unhalted selector and merge", CTRL + ":reset_batches")],
     ["ACT_Controller.reset_batches"])

prop("C09", "Nothing the user holds is ever mutated",
     """Every operation of controllers, viewers, builders, editors and saved states returns a new object and leaves the
     receiver, its state, every dictionary or pytree reachable from it, and every argument exactly as it was; the results do not
     become stale when further operations are applied. Assigning the state or any other public attribute of a controller, viewer,
     builder or editor raises AttributeError.""",
     ["histories", "inputs"], "every public operation, in every state and for every argument; every alias the user keeps",
     "Immutability must hold for every aliasing history; tests compare one field after one call.",
     [CTRL, C + "builder.py", C + "viewer.py", C + "tensoreditor.py", C + "immutable.py", C + "states.py"],
     [("dict copies before editing", CTRL), ("Immutable.__setattr__", C + "immutable.py")],
     ["all public methods"])

prop("C10", "Operations change only the fields they name",
     """Caching, committing, resetting, defining, deleting, editing, viewing, saving, loading and building leave every state
     field they are not documented to change identical (epsilon, depression constant, error mode, defaults, other accumulators
     and their pending updates included); replacing fields of a state sets exactly the given ones. The properties of
     controllers, builders, editors and viewers report the state field of their name, indexing a controller its accumulator.""",
     ["inputs", "histories"], "every public operation, every non-default value of every field",
     "Tests mostly keep default epsilon and depression constant, so dropping a field in a rebuild is invisible.",
     [CTRL, C + "states.py", C + "builder.py", C + "tensoreditor.py", C + "viewer.py"],
     [("ACTStates.replace", C + "states.py")],
     ["save() of every result"])

prop("C11", "Registered classes survive a pytree round trip",
     """Flattening and unflattening a state, controller, viewer, builder, editor or loop metadata object gives an equal
     object of the same class with every field in its place; the leaves are only array-like data in a fixed order and
     configuration such as the error mode travels in the structure; mapping over the leaves reaches each tensor once.
     Where the leaves of a state are named, each is named after its own field.""",
     ["inputs", "programs"], "every accumulator pytree, pending or empty updates, every error mode, every registered class",
     "Tests round-trip one or two hand-made states; field order swaps between same-shaped fields are not visible there.",
     [C + "states.py", CTRL, C + "viewer.py", C + "builder.py", C + "tensoreditor.py", L + "act.py"],
     [("flatten/unflatten pairs and registrations", "module level of each file")],
     ["jax.tree_util.tree_flatten / tree_unflatten", "jax.jit and lax.while_loop boundaries"])

prop("C12", "Core loop operations are traceable",
     """Caching, committing, resetting, viewing, masking, the halting tests and running the layer never let Python control
     flow, Python numbers or container shapes depend on tensor contents (probabilities, accumulators, updates, epsilon or
     depression constant), so the same code can be compiled by jit and run inside a while loop.""",
     ["inputs", "programs"], "every path of every core operation with every tensor input replaced by a tracer",
     "A concretisation on a rare path only shows under jit with that path reached; tests jit two happy paths.",
     [CTRL, C + "viewer.py", C + "utils.py", L + "act.py", L + "core.py"],
     [("lax.select / jnp instead of python if", CTRL)],
     ["jax.jit of each public operation"])

prop("C13", "Builder admits only well formed accumulators",
     """Defining an accumulator directly or by shape succeeds exactly when every leaf is floating and starts with the
     batch shape (TypeError / ValueError otherwise), and by-shape definitions reject trees whose leaves are not lists of ints.
     On success the accumulator and its default hold the given value (or tensors of the given shapes, dtype and fill), its
     pending update is empty, and other definitions are unchanged; deleting removes the name from all three collections.""",
     ["inputs", "configurations"], "every batch shape, pytree, leaf rank/shape/dtype, name, fill value, redefinition history",
     "Tests try a handful of shapes; the accept/reject boundary over ranks, coinciding sizes and later leaves is unbounded.",
     [C + "builder.py"],
     [("_validate_definition_pytree", C + "builder.py"), ("_define / _delete_definition", C + "builder.py"),
      ("define_accumulator_by_shape", C + "builder.py")],
     ["define_accumulator_directly", "define_accumulator_by_shape", "delete_definition", "build"])

prop("C14", "A new builder starts from the documented state",
     """A new builder rejects non floating core dtypes and every epsilon outside the open interval (0, 1) with ValueError;
     otherwise probabilities, residuals and iterations are zeros of the batch shape in the core dtype, there are no accumulators,
     and epsilon and depression constant are the ones given (defaults 1e-4 and 1.0), identically through the layer helper.""",
     ["inputs", "configurations"], "every batch shape (int or list), dtype, epsilon and depression constant",
     "Tests construct a builder with defaults only; boundaries 0 and 1 and forwarding of arguments are not probed.",
     [C + "builder.py", L + "core.py"], [("new_builder", C + "builder.py"), ("new_builder", L + "core.py")],
     ["ControllerBuilder.new_builder", "AbstractControllerContract.new_builder"])

prop("C15", "Editor validates in standard mode only",
     """In standard mode every editor setter raises when the new value is not admissible: different shape or dtype,
     probability outside [0, 1], negative iteration count, epsilon outside [0, 1], unknown accumulator name, different tree
     structure or leaf shape/dtype; admissible values never raise. In silence mode nothing content related raises, and unknown
     error modes are rejected with ValueError.""",
     ["inputs", "configurations"], "every new value (contents, shape, dtype, tree), every field, both modes",
     "Tests use one bad value per rule; a rule missing one bound, one leaf or one field is not seen.",
     [C + "tensoreditor.py"],
     [("_validate_* helpers and _execute_validation", C + "tensoreditor.py")],
     ["TensorEditor.set_*", "TensorEditor.edit_controller / edit_save"])

prop("C16", "Editor sets what was asked and keeps its mode",
     """Every editor setter returns an editor over a state in which exactly the requested field (or the requested name in
     the requested collection) holds the given value, in the same error mode; opening, saving and building an editor carry the
     state over unchanged.""",
     ["inputs", "histories"], "every setter, every admissible value, every chain of edits",
     "A setter writing a sibling field of the same shape, or losing the mode after an edit, passes value-blind tests.",
     [C + "tensoreditor.py"], [("set_*", C + "tensoreditor.py")],
     ["TensorEditor.save", "TensorEditor.build", "TensorEditor.error_mode"])

prop("C17", "Viewer masks and transforms every tensor of the state",
     """Masking keeps exactly the elements where the mask is true and zeroes the others in probabilities, residuals,
     iterations, accumulators, defaults and pending updates, whatever the trailing dimensions; the halted-only and unhalted-only
     views are the masks of the halting test and its negation. A transform applies the given function to each tensor of the state
     exactly once in place, keeping names, tree structure and empty updates; non-boolean or wrong-shaped masks raise ValueError.""",
     ["inputs"], "every mask, batch shape, accumulator pytree, pending update pattern and transform function",
     "Tests mask one state; a field transformed from the wrong source or masked on the wrong side needs distinct contents.",
     [C + "viewer.py"], [("transform / mask_data", C + "viewer.py")],
     ["ACTViewer.transform", "mask_data", "halted_only", "unhalted_only"])

prop("C18", "The layer contract is enforced when checking is on",
     """With checking on, using a layer raises TypeError if making a controller or running an iteration does not return a
     controller (or a tuple), and RuntimeError if the controller has no accumulators, the tuple has not length two, the returned
     controller is the one passed in, or any update was cached and not committed. A conforming layer never raises, what the layer
     returned is passed on unchanged, and with checking off nothing is checked.""",
     ["programs", "inputs"], "every user layer: every kind of return value, every pattern of pending updates",
     "Tests use a few violating layers; which controller is inspected and partially cached cases are not covered.",
     [L + "core.py"], [("ContractValidationWrapper", L + "core.py")],
     ["ContractValidationWrapper.make_controller / run_iteration", "execute_act"])

prop("C19", "execute_act runs the documented bounded loop",
     """Running a layer makes the controller from the initial state, depression constant and extra arguments, then repeats
     the layer's iteration on (controller, state) as long as some element is unhalted and fewer than the maximum number of
     iterations were run, and returns the final controller and state.""",
     ["histories", "inputs"], "every conforming layer, initial state, maximum, depression constant and extra arguments",
     "Whether the bound is off by one or a wrong value is threaded depends on the halting history; tests run one.",
     [L + "act.py", L + "core.py"], [("while loop condition and adapter", L + "act.py")],
     ["AbstractACTTemplate.execute_act"])

U = C + "utils.py"
prop("C20", "Pytree utilities pair the right leaves",
     """Merging applies the function to leaves at equal positions in order and returns the first tree's structure; the binary
     operator does so for operands in the given order, repeating a leaf over the matching subtree of the other operand and
     aligning batch dimensions on the left; broadcasting a tree onto another's structure gives each target leaf the source leaf
     above it; incompatible trees raise (RuntimeError unless an empty container is involved). The structure test holds exactly when the
     trees have the same structure, the equality test exactly when structure, leaf types and contents agree (contents within
     tolerance unless told otherwise), and the right-broadcast test exactly when numpy broadcasting is possible.""",
     ["inputs"], "every pair of pytrees (nesting, empty containers), shapes, ranks and binary functions",
     "Tests use small symmetric examples and commutative operators; pairing and operand order over all trees are unbounded.",
     [U], [("merge_pytrees, execute_binary_operator, broadcast_pytree_shape, setup_left_broadcast", U)],
     ["utils functions"])

prop("C21", "No path ends in a name, attribute or signature error",
     """No statement reachable through the modules of the package refers to a name, module member, method or attribute of a
     package class that does not exist, uses a local variable before assignment, or calls a package function with arguments it
     does not accept; every module imports.""",
     ["programs", "inputs"], "every function of every module, including error paths and rarely used branches",
     "Python only reports these when the line runs; tests execute a fraction of the error paths (several were broken).",
     [C + "*.py", L + "*.py", "src/jax_act/frameworks/flax.py"],
     [("definitions and uses across modules", "whole package")], ["import and call of every function"])

prop("C22", "Lazy parameters are set up once and without trace",
     """Running a layer calls its lazy parameter setup exactly once, with the freshly made controller and the initial state,
     before the loop, and whatever the setup does has no influence on the controller and state the loop starts from. The flax
     layer runs one iteration there exactly when its parameters are mutable and discards the result.""",
     ["programs", "configurations"], "every layer and both flax modes (initialising and applying)",
     "Tests run one flax layer; using the result of the warm-up iteration changes results only in init mode.",
     [L + "act.py", "src/jax_act/frameworks/flax.py"],
     [("setup_lazy_parameters call", L + "act.py"), ("is_mutable_collection guard", "src/jax_act/frameworks/flax.py")],
     ["execute_act", "setup_lazy_parameters"])

prop("C23", "State validation follows the configured error mode",
     """Validating a value against predicates reports an error exactly when some predicate fails: as ValueError in debug
     mode, as a checkify error in checkify mode, and never in any other mode; the value is returned unchanged. Error messages
     contain the context followed by the indented message, and a function wrapped for checkify raises the errors it recorded and
     otherwise returns its output.""",
     ["inputs", "configurations"], "every operand, every list of predicates, every error mode",
     "No test covers state validation in any mode (the code used to raise NameError).",
     [C + "states.py", U],
     [("execute_validation", C + "states.py"), ("format_error_message, jit_and_checkify", U)],
     ["ACTStates.execute_validation / validate_epsilon / validate_iterations", "utils.jit_and_checkify"])

prop("C24", "Floating point accuracy of long accumulations",
     """Over long histories the floating point cumulative probability and accumulators stay within rounding error of the
     exact weighted sums.""",
     ["histories", "inputs"], "every history length, dtype and epsilon",
     "Rounding depends on run time values and lengths no fixed test set bounds.",
     [CTRL], [("probability arithmetic", CTRL + ":_process_probabilities")], ["ACT_Controller.probabilities"])

prop("C25", "Tracing does not change an operation",
     """An operation, a run of a layer or a utility computes the same function of its inputs when it is compiled by jit or
     runs inside a compiled loop as when it runs eagerly: no result, no error and no structure depends on whether tensors
     are traced, and nothing is skipped or added for one of the two. (How XLA evaluates that function is not part of it.)""",
     ["programs", "inputs"], "every operation, layer and utility, eagerly and traced, with arbitrary tensor contents",
     "Tests jit two happy paths and compare them with themselves; a difference shows for particular contents under jit only.",
     [CTRL, C + "viewer.py", U, L + "act.py"], [("every operation", CTRL), ("while loop", L + "act.py")],
     ["jax.jit of each public operation", "execute_act"])

prop("C26", "Progress: halting probabilities lead to halting",
     """Every step brings an element that is not halted closer to one by its clamped halting probability times the depression
     constant, or halts it, and never undoes a halt: a layer that gives every element at least the n-th part of the way at
     each iteration has halted everything, and its loop has ended, after at most n iterations (an iteration limit permitting),
     with the counters at most n. (In exact arithmetic.)""",
     ["histories", "inputs"], "every layer whose halting probabilities have such a bound, every state a step starts from",
     "A liveness claim over user layers: tests run one layer with one fixed probability.",
     [CTRL, L + "act.py"], [("_process_probabilities", CTRL), ("while loop", L + "act.py")], ["iterate_act", "execute_act"])

prop("C27", "No operation loses precision on the way",
     """No operation rounds a floating tensor to a type less precise than its own on the way to a result, and no field of a state
     ends with a less precise type than it had: not in caching, committing, resetting, editing, viewing, building, passing through
     jit or a pytree map, running a layer, or the pytree utilities. (The arguments a caller gives may be of any type.)""",
     ["inputs", "configurations"], "every mixture of core, accumulator and update dtypes, every shape and tree",
     "Tests use float32 throughout and compare with a tolerance; a detour through a narrow type only shows for other dtypes or values.",
     [CTRL, C + "viewer.py", C + "builder.py", C + "tensoreditor.py", C + "states.py", U, L + "act.py"],
     [("_process_probabilities, _update_accumulator", CTRL), ("setup_left_broadcast", U), ("while loop carry", L + "act.py")],
     ["ACT_Controller", "ACTViewer", "ControllerBuilder", "TensorEditor", "execute_act"])

prop("C28", "Derivatives pass through",
     """No operation cuts a result off from the derivative of what it is computed from: the probabilities, residuals,
     accumulators and updates it returns do not pass through stop_gradient, a custom derivative rule, a round trip through
     numpy or a callback, or a loop that cannot be differentiated (the loop of execute_act itself apart).""",
     ["inputs", "programs"], "every composition of operations a user differentiates",
     "Values are the same with and without; only the gradient of a program built on the operations shows the difference.",
     [CTRL, C + "viewer.py", C + "builder.py", C + "tensoreditor.py", U, L + "act.py"],
     [("residual and accumulator arithmetic", CTRL), ("mask_data, transform", C + "viewer.py"), ("leaf operations", U)],
     ["jax.grad of programs using the package"])

prop("C29", "Halting works at every core type",
     """With the default epsilon the halting test tells a cumulative probability of one from the threshold for every floating
     core dtype: one minus epsilon is never computed or compared in a type in which it rounds to one, in the controller and the
     viewer, when committing, resetting, masking and running a layer.""",
     ["configurations", "inputs"], "every floating core dtype, epsilon as Python number or as array",
     "Tests use float32; in float16 or bfloat16 a weakly typed threshold becomes one and nothing ever halts.",
     [CTRL, C + "viewer.py", L + "act.py"],
     [("halt_threshold, halted_batches", CTRL), ("halt_threshold, halted_batches", C + "viewer.py")],
     ["ACT_Controller.halted_batches", "ACTViewer.halted_batches", "iterate_act", "reset_batches", "execute_act"])

prop("C30", "Failures of user code reach the caller",
     """When a function the user supplies raises (a transform, a merge or binary operator, a validation predicate, a function
     wrapped for checkify, a layer's make_controller, lazy setup or run_iteration), the operation it was given to raises too and
     returns nothing: RuntimeError from transforms and binary operators, the user's own exception from layers and wrapped
     functions. A layer that leaves a method of the contract undefined cannot be run.""",
     ["faults", "programs"], "every user function, every kind of exception, every call at which it fails",
     "Tests only use functions that work; a swallowed failure shows as a silently incomplete result.",
     [C + "viewer.py", U, C + "states.py", L + "act.py", L + "core.py"],
     [("transform", C + "viewer.py"), ("execute_binary_operator", U), ("execute_act, wrapper", L + "core.py")],
     ["ACTViewer.transform", "utils", "execute_act"])

prop("C31", "Operations depend on their arguments only",
     """The result of an operation, and whether it raises, is determined by the object it is used on and its arguments: not by
     which objects were made or used before, how often it was called, the clock, random numbers or process state.""",
     ["histories"], "every operation after every history of other operations",
     "Tests use few objects in a fixed order; remembered values only show for particular sequences of objects.",
     [C + "*.py", L + "*.py"], [("every operation", "whole package")],
     ["every public operation of controllers, viewers, builders, editors, states, layers and utilities"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
