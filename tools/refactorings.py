"""The rewrites used by refactor.py.  Each keeps the behaviour of the original."""

R = {}
C = "core/controller.py"
V = "core/viewer.py"
B = "core/builder.py"
E = "core/tensoreditor.py"
S = "core/states.py"
U = "core/utils.py"
I = "core/immutable.py"
A = "layers/act.py"
L = "layers/core.py"
F = "frameworks/flax.py"

# ------------------------------------------------------------------ controller
R["ctl_where"] = {C: [("ACT_Controller._process_probabilities", '''
    def _process_probabilities(self, halting_probabilities):
        previous = self.probabilities
        mass = halting_probabilities*self.depression_constant
        crosses = (previous + mass) > self.halt_threshold
        remaining = 1 - previous
        fresh = jnp.logical_and(crosses, jnp.logical_not(self.halted_batches))
        residuals = jnp.where(fresh, remaining, self.residuals)
        mass = jnp.where(crosses, remaining, mass)
        return mass, residuals, previous + mass
''')]}

R["ctl_helpers"] = {C: [
    ("ACT_Controller.+", '''
    def _crossing(self, proposed):
        return (proposed + self.probabilities) > self.halt_threshold

    def _remaining_budget(self):
        return 1 - self.probabilities

    def _with(self, **fields):
        return ACT_Controller(self.state.replace(**fields))
'''),
    ("ACT_Controller._process_probabilities", '''
    def _process_probabilities(self, halting_probabilities):
        halting_probabilities = self.depression_constant*halting_probabilities
        will_be_halted = self._crossing(halting_probabilities)
        budget = self._remaining_budget()
        halting_probabilities = jax.lax.select(will_be_halted, budget, halting_probabilities)
        residuals = jax.lax.select(will_be_halted & ~self.halted_batches, budget, self.residuals)
        return halting_probabilities, residuals, self.probabilities + halting_probabilities
'''),
    ("ACT_Controller.cache_update", '''
    def cache_update(self, name, item):
        pending = self.state.updates
        if name not in pending:
            raise ValueError(f"Accumulator with name {name} was never setup")
        if pending[name] is not None:
            raise RuntimeError(f"Accumulator with name {name} was already set this iteration!")
        return self._with(updates={**pending, name: item})
''')]}

R["ctl_iterate_split"] = {C: [
    ("ACT_Controller.+", '''
    def _advance_iterations(self):
        return jnp.where(self.halted_batches, self.iterations, self.iterations + 1)

    def _commit_one(self, name, mass):
        pending = self.state.updates[name]
        if pending is None:
            raise RuntimeError("Update tree of name '%s' was never set." % name)

        def leafwise(acc, upd):
            return self._update_accumulator(acc, upd, mass)
        return utils.merge_pytrees(leafwise, self.accumulators[name], pending)
'''),
    ("ACT_Controller.iterate_act", '''
    def iterate_act(self, halting_probabilities):
        if halting_probabilities.shape != self.probabilities.shape:
            raise ValueError("Batch shape and shapes of halting probabilities do not match")
        iterations = self._advance_iterations()
        clamped = jnp.clip(halting_probabilities, 0.0, 1.0)
        mass, residuals, probabilities = self._process_probabilities(clamped)
        accumulators = {}
        for name in self.accumulators:
            try:
                accumulators[name] = self._commit_one(name, mass)
            except Exception as err:
                msg = f"An error occurred regarding accumulator named '{name}': \\n\\n"
                raise RuntimeError(msg).with_traceback(err.__traceback__) from err
        updates = dict.fromkeys(self.state.updates, None)
        state = self.state.replace(iterations=iterations,
                                   residuals=residuals,
                                   probabilities=probabilities,
                                   accumulators=accumulators,
                                   updates=updates)
        return ACT_Controller(state)
''')]}

R["ctl_minmax_update"] = {C: [
    ("sub", ("halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)",
             "halting_probabilities = jnp.minimum(jnp.maximum(halting_probabilities, 0.0), 1.0)")),
    ("ACT_Controller._update_accumulator", '''
    def _update_accumulator(self, accumulator_value, update_value, halting_probabilities):
        if update_value is None:
            raise RuntimeError("There was no cached update stored for this act iteration.")
        if update_value.shape != accumulator_value.shape:
            raise RuntimeError("leaf shapes differ")
        extra = accumulator_value.ndim - self.probabilities.ndim
        trailing = (1,)*extra
        batch = self.probabilities.shape
        frozen = jnp.reshape(self.halted_batches, batch + trailing)
        weights = halting_probabilities.reshape(batch + trailing)
        proposal = (accumulator_value + weights*update_value).astype(accumulator_value.dtype)
        return jnp.where(frozen, accumulator_value, proposal)
''')]}

R["ctl_treemap"] = {C: [
    ("ACT_Controller.reset_batches", '''
    def reset_batches(self):
        if self.has_cached_updates:
            raise RuntimeError("Attempt to reset batches while updates are pending. Finish current iteration.")
        keep = ~self.halted_batches

        def pick(current, default):
            mask = jnp.expand_dims(keep, tuple(range(keep.ndim, current.ndim)))
            return jnp.where(mask, current, default)

        accumulators = {name: jax.tree_util.tree_map(pick, tree, self.state.defaults[name])
                        for name, tree in self.accumulators.items()}
        state = self.state.replace(residuals=jnp.where(keep, self.residuals, 0),
                                   probabilities=jnp.where(keep, self.probabilities, 0),
                                   iterations=jnp.where(keep, self.iterations, 0),
                                   accumulators=accumulators)
        return ACT_Controller(state)
''')]}

R["ctl_flags"] = {C: [
    ("ACT_Controller.updates_ready_to_commit", '''
    @property
    def updates_ready_to_commit(self):
        for value in self.state.updates.values():
            if value is None:
                return False
        return True
'''),
    ("ACT_Controller.has_cached_updates", '''
    @property
    def has_cached_updates(self):
        return not all(value is None for value in self.state.updates.values())
'''),
    ("ACT_Controller.is_completely_halted", '''
    @property
    def is_completely_halted(self):
        return ~jnp.any(~self.halted_batches)
'''),
    ("ACT_Controller.is_any_halted", '''
    @property
    def is_any_halted(self):
        return self.halted_batches.any()
'''),
    ("ACT_Controller.halted_batches", '''
    @property
    def halted_batches(self):
        return jnp.greater(self.probabilities, self.halt_threshold)
''')]}

R["ctl_flags2"] = {C: [
    ("ACT_Controller.updates_ready_to_commit", '''
    @property
    def updates_ready_to_commit(self):
        return None not in [None if v is None else True for v in self.state.updates.values()]
'''),
    ("ACT_Controller.has_cached_updates", '''
    @property
    def has_cached_updates(self):
        pending = [name for name, value in self.state.updates.items() if value is not None]
        return len(pending) > 0
'''),
    ("ACT_Controller.is_completely_halted", '''
    @property
    def is_completely_halted(self):
        return self.halted_batches.all()
'''),
    ("ACT_Controller.halted_batches", '''
    @property
    def halted_batches(self):
        threshold = 1 - self.state.epsilon
        return threshold < self.probabilities
''')]}

R["ctl_partial"] = {C: [
    ("+", "import functools"),
    ("sub", ('''                def update_function(accumulator_leaf: jnp.ndarray,
                                    update_leaf: jnp.ndarray
                                    )->jnp.ndarray:
                    """
                    Accepts a accumulator leaf, and an update
                    leaf. Merges them together using the probabilities.
                    """
                    return self._update_accumulator(accumulator_leaf,
                                                    update_leaf,
                                                    halting_probabilities
                                                    )
''', '''                update_function = functools.partial(self._update_accumulator,
                                                    halting_probabilities=halting_probabilities)
'''))]}

R["ctl_zip_loop"] = {C: [
    ("ACT_Controller.iterate_act", '''
    def iterate_act(self, halting_probabilities):
        expected = self.probabilities.shape
        if not halting_probabilities.shape == expected:
            raise ValueError("Batch shape and shapes of halting probabilities do not match")
        halting_probabilities = halting_probabilities.clip(0.0, 1.0)
        halting_probabilities, residuals, probabilities = self._process_probabilities(halting_probabilities)

        new_accumulators = []
        for name, accumulator_tree in self.accumulators.items():
            try:
                update_tree = self.state.updates[name]
                if update_tree is None:
                    raise RuntimeError(f"Update tree of name '{name}' was never set.")
                leaves, treedef = jax.tree_util.tree_flatten(accumulator_tree)
                update_leaves = jax.tree_util.tree_leaves(update_tree)
                if len(leaves) != len(update_leaves):
                    raise RuntimeError("trees have different numbers of leaves")
                results = [self._update_accumulator(a, u, halting_probabilities)
                           for a, u in zip(leaves, update_leaves)]
                new_accumulators.append((name, treedef.unflatten(results)))
            except Exception as err:
                raise RuntimeError(f"An error occurred regarding accumulator named '{name}'") from err
        step = jnp.where(self.halted_batches, 0, 1)
        state = self.state.replace(
            iterations=self.iterations + step.astype(self.iterations.dtype),
            residuals=residuals,
            probabilities=probabilities,
            accumulators=dict(new_accumulators),
            updates={name: None for name in self.state.updates},
        )
        return ACT_Controller(state)
''')]}

R["ctl_early_gather"] = {C: [
    ("ACT_Controller.iterate_act", '''
    def iterate_act(self, halting_probabilities):
        state = self.state
        if halting_probabilities.shape != state.probabilities.shape:
            raise ValueError("Batch shape and shapes of halting probabilities do not match")
        missing = [name for name, update in state.updates.items() if update is None]
        if missing:
            raise RuntimeError("An error occurred regarding accumulators %s: never set" % ", ".join(map(str, missing)))
        mass, residuals, probabilities = self._process_probabilities(jnp.clip(halting_probabilities, 0.0, 1.0))

        def run(name):
            def leafwise(a, b):
                return self._update_accumulator(a, b, mass)
            try:
                return utils.merge_pytrees(leafwise, state.accumulators[name], state.updates[name])
            except Exception as err:
                raise RuntimeError(f"An error occurred regarding accumulator named '{name}'") from err

        names = list(state.accumulators)
        accumulators = dict(zip(names, [run(name) for name in names]))
        updates = {name: None for name in names}
        iterations = state.iterations + (~self.halted_batches)
        return ACT_Controller(state.replace(iterations=iterations, residuals=residuals, probabilities=probabilities,
                                            accumulators=accumulators, updates=updates))
''')]}

R["ctl_load_classmethod"] = {C: [
    ("sub", ("return ACT_Controller(new_state)", "return self.load(new_state)")),
    ("sub", ("        return ACT_Controller(state)\n\n\n    def reset", "        return type(self)(state)\n\n\n    def reset")),
    ("unflatten_controller", '''
def unflatten_controller(aux, flat_state):
    return ACT_Controller(state=aux.unflatten(flat_state))
'''),
    ("flatten_controller", '''
def flatten_controller(controller):
    return jax.tree_util.tree_flatten(controller.state)
''')]}

R["ctl_keepmask_mult"] = {C: [
    ("ACT_Controller._update_accumulator", '''
    def _update_accumulator(self, accumulator_value, update_value, halting_probabilities):
        if update_value is None:
            raise RuntimeError("missing update")
        shape = accumulator_value.shape
        if shape != update_value.shape:
            raise RuntimeError(f"shape {shape} against {update_value.shape}")
        spread = lambda t: jnp.broadcast_to(utils.setup_left_broadcast(t, accumulator_value), shape)
        gain = spread(halting_probabilities)*update_value
        running = spread(jnp.logical_not(self.halted_batches))
        return jnp.where(running, (accumulator_value + gain).astype(accumulator_value.dtype), accumulator_value)
''')]}

R["ctl_process_class_helper"] = {C: [
    ("+", '''
from typing import NamedTuple


class _Step(NamedTuple):
    """what one committed iteration does to the probabilities"""
    mass: jnp.ndarray
    residuals: jnp.ndarray
    probabilities: jnp.ndarray


def _clamp(values, low=0.0, high=1.0):
    return jnp.clip(values, low, high)
'''),
    ("sub", ("return halting_probabilities, residuals, probabilities\n", "return _Step(halting_probabilities, residuals, probabilities)\n")),
    ("sub", ("halting_probabilities, residuals, probabilities = self._process_probabilities(halting_probabilities)",
             "step = self._process_probabilities(halting_probabilities)\n        halting_probabilities, residuals, probabilities = step.mass, step.residuals, step.probabilities")),
    ("sub", ("halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)", "halting_probabilities = _clamp(halting_probabilities)"))]}

R["comment_noop"] = {p: [("sub", ("\n", "\n# a comment\n"))] for p in (I,)}

R["noop_statements"] = {
    C: [("sub", ("        accumulators = self.accumulators.copy()\n", "        _ = 0\n        pass\n        accumulators = self.accumulators.copy()\n")),
        ("sub", ("        halting_probabilities = self.depression_constant*halting_probabilities\n", "        None\n        halting_probabilities = self.depression_constant*halting_probabilities\n")),
        ("sub", ("        unhalted_batch_selector = ~self.halted_batches\n", "        unhalted_batch_selector = ~self.halted_batches\n        assert True\n"))],
    U: [("sub", ("    new_leaves = []\n", "    0\n    new_leaves = []\n    if False:\n        new_leaves = None\n"))],
    A: [("sub", ("        condition = ~controller.is_completely_halted\n", "        'nothing'\n        condition = ~controller.is_completely_halted\n"))],
    B: [("sub", ("        defaults[name] = definition\n", "        ...\n        defaults[name] = definition\n"))],
}

# ------------------------------------------------------------------ viewer
R["viewer_loop"] = {V: [("ACTViewer.transform", '''
    def transform(self, function):
        def apply(tree):
            return jax.tree_util.tree_map(function, tree)

        def apply_all(collection):
            output = {}
            for name, tree in collection.items():
                output[name] = apply(tree)
            return output
        try:
            fields = dict(iterations=function(self.iterations),
                          residuals=function(self.residuals),
                          probabilities=function(self.probabilities),
                          accumulators=apply_all(self.accumulators),
                          defaults=apply_all(self.defaults),
                          updates=apply_all(self.updates))
        except Exception as err:
            raise RuntimeError("An issue occurred in using the provided function") from err
        return ACTViewer(self.state.replace(**fields))
'''), ("ACTViewer.mask_data", '''
    def mask_data(self, mask):
        if not mask.dtype == jnp.bool_:
            raise ValueError("Mask was not made up of bool dtypes.")
        expected = self.probabilities.shape
        if not (mask.shape == expected):
            raise ValueError(f"Mask of shape {mask.shape} does not match batch shape of {expected}")

        def update_function(tensor):
            shaped = mask.reshape(mask.shape + (1,)*(tensor.ndim - mask.ndim))
            return jnp.where(shaped, tensor, jnp.zeros_like(tensor))
        return self.transform(update_function)
'''), ("ACTViewer.halted_only", '''
    def halted_only(self):
        return self.mask_data(self.halted_batches)
'''), ("ACTViewer.unhalted_only", '''
    def unhalted_only(self):
        return self.mask_data(jnp.logical_not(self.halted_batches))
''')]}

R["viewer_whole_tree"] = {V: [("ACTViewer.transform", '''
    def transform(self, function):
        try:
            tensors = (self.iterations, self.residuals, self.probabilities,
                       self.accumulators, self.defaults, self.updates)
            iterations, residuals, probabilities, accumulators, defaults, updates = jax.tree_util.tree_map(function, tensors)
        except Exception as err:
            msg = "An issue occurred in using the provided function"
            raise RuntimeError(msg) from err
        state = self.state.replace(iterations=iterations, residuals=residuals, probabilities=probabilities,
                                   accumulators=accumulators, defaults=defaults, updates=updates)
        return self.load(state)
'''), ("flatten_viewer", '''
def flatten_viewer(viewer):
    leaves, structure = jax.tree_util.tree_flatten(viewer.state)
    return tuple(leaves), structure
''')]}

R["viewer_mask_call"] = {V: [("ACTViewer.+", '''
    @staticmethod
    def _masker(mask):
        def masker(tensor):
            return utils.setup_left_broadcast(mask, tensor)*tensor
        return masker

    def _check_mask(self, mask):
        problems = []
        if mask.dtype != jnp.bool_:
            problems.append("Mask was not made up of bool dtypes.")
        if mask.shape != self.probabilities.shape:
            problems.append("Mask of wrong shape")
        if problems:
            raise ValueError("\\n".join(problems))
'''), ("ACTViewer.mask_data", '''
    def mask_data(self, mask):
        self._check_mask(mask)
        return self.transform(self._masker(mask))
''')]}

# ------------------------------------------------------------------ immutable
R["immutable"] = {I: [("Immutable", '''
class Immutable:
    def __init__(self):
        self._is_immutable = False

    def make_immutable(self):
        object.__setattr__(self, "_is_immutable", True)

    def _locked(self):
        return getattr(self, "_is_immutable", False)

    def __setattr__(self, key, value):
        if key != "_is_immutable" and self._locked():
            raise AttributeError("Cannot modify immutable object")
        object.__setattr__(self, key, value)
''')]}

R["immutable_dict"] = {I: [("Immutable.__setattr__", '''
    def __setattr__(self, key, value):
        if key == "_is_immutable" or not self.__dict__.get("_is_immutable", False):
            super().__setattr__(key, value)
            return
        raise AttributeError(f"Cannot modify immutable object: {key}")
''')]}

# ------------------------------------------------------------------ builder
R["builder_collections"] = {B: [("ControllerBuilder.+", '''
    def _collections(self):
        return dict(self.defaults), dict(self.accumulators), dict(self.updates)

    def _rebuild(self, defaults, accumulators, updates):
        state = self.state.replace(defaults=defaults, accumulators=accumulators, updates=updates)
        return ControllerBuilder(state)
'''), ("ControllerBuilder._define", '''
    def _define(self, name, definition, context):
        self._validate_definition_pytree(definition, context)
        defaults, accumulators, updates = self._collections()
        for collection, value in ((defaults, definition), (accumulators, definition), (updates, None)):
            collection[name] = value
        return self._rebuild(defaults, accumulators, updates)
'''), ("ControllerBuilder._delete_definition", '''
    def _delete_definition(self, name):
        trio = self._collections()
        for collection in trio:
            del collection[name]
        return self._rebuild(*trio)
''')]}

R["builder_validate"] = {B: [("ControllerBuilder._validate_definition_pytree", '''
    def _validate_definition_pytree(self, pytree, context):
        batch_shape = self.probabilities.shape
        rank = len(batch_shape)

        def fail(kind, message):
            raise kind(utils.format_error_message(message, context))

        for i, leaf in enumerate(jax.tree_util.tree_leaves(pytree)):
            if not jnp.issubdtype(leaf.dtype, jnp.floating):
                fail(TypeError, f"leaf {i} was in fact of dtype {leaf.dtype}")
            if leaf.ndim < rank:
                fail(ValueError, f"leaf '{i}' has only {leaf.ndim} dimensions")
            for have, want in zip(leaf.shape, batch_shape):
                if have != want:
                    fail(ValueError, f"leaf '{i}' had shape {leaf.shape}")
'''), ("ControllerBuilder.define_accumulator_directly", '''
    def define_accumulator_directly(self, name, definition):
        return self._define(name, definition, context="An issue occurred while defining an accumulator directly")
'''), ("ControllerBuilder.build", '''
    def build(self):
        controller = ACT_Controller.load(self.state)
        return controller
''')]}

R["builder_shape"] = {B: [("+", '''
def _is_shape(node):
    """a shape is a list that is filled with ints"""
    return isinstance(node, list) and all(isinstance(item, int) for item in node)
'''), ("ControllerBuilder.define_accumulator_by_shape", '''
    def define_accumulator_by_shape(self, name, shapes, dtype=jnp.float32, fill=0.0):
        if name in self.defaults:
            warnings.warn("Accumulator and defaults are being overwritten")
        context = f"An issue occurred when defining an accumulator named '{name}' directly by shape"
        for leaf in jax.tree_util.tree_leaves(shapes, is_leaf=_is_shape):
            if not _is_shape(leaf):
                raise ValueError(utils.format_error_message(f"corrupt shapes pytree: {type(leaf)}", context))

        def make(shape):
            return jnp.full(shape, fill_value=fill, dtype=dtype)
        definition = jax.tree_util.tree_map(make, shapes, is_leaf=_is_shape)
        return self._define(name, definition, context)
''')]}

R["builder_new"] = {B: [("ControllerBuilder.new_builder", '''
    @classmethod
    def new_builder(cls, batch_shape, core_dtype=None, epsilon=1e-4, depression_constant=1.0):
        context = "An issue occurred while creating a new builder:"
        if core_dtype is not None:
            if not jnp.issubdtype(core_dtype, jnp.floating):
                raise ValueError(utils.format_error_message("dtype of probabilities core must be floating", context))
        if not 0.0 < epsilon < 1.0:
            raise ValueError(utils.format_error_message("epsilon insane: Not between 0 and 1", context))

        def blank():
            return jnp.zeros(batch_shape, dtype=core_dtype)

        state = ACTStates(epsilon, blank(), blank(), blank(), {}, {}, {}, depression_constant)
        return cls(state)
''')], L: [("AbstractControllerContract.new_builder", '''
    def new_builder(self, batch_shape, core_dtype=None, epsilon=1e-4, depression_constant=1.0):
        options = dict(core_dtype=core_dtype, epsilon=epsilon, depression_constant=depression_constant)
        return ControllerBuilder.new_builder(batch_shape, **options)
''')]}

R["builder_new_shared_zeros"] = {B: [
    ("sub", ('''        probabilities = jnp.zeros(batch_shape, core_dtype)
        residuals = jnp.zeros(batch_shape, core_dtype)
        iterations = jnp.zeros(batch_shape, core_dtype)

        accumulators = {}
        defaults = {}
        updates = {}
''', '''        probabilities = jnp.zeros(batch_shape, core_dtype)
        residuals = jnp.zeros_like(probabilities)
        iterations = jnp.full_like(probabilities, 0)

        accumulators, defaults, updates = dict(), dict(), dict()
'''))]}

# ------------------------------------------------------------------ editor
R["editor_helper"] = {E: [("TensorEditor.+", '''
    def _edited(self, **fields):
        return TensorEditor(self.state.replace(**fields), self.error_mode)

    def _check_tensor(self, original, values, context, extra):
        self._validate_same_shape(original, values, context)
        self._validate_same_dtype(original, values, context)
        extra(values, context)

    def _check_tree(self, name, value, context):
        if self._validate_accumulator_exists(name, context):
            self._validate_same_pytree_structure(self.accumulators[name], value, context)
            self._validate_pytree_leaves(self.accumulators[name], value, context)
'''), ("TensorEditor.set_probabilities", '''
    def set_probabilities(self, values):
        context = "An issue occurred while attempting to set probabilities with an Editor: "
        self._execute_validation(lambda: self._check_tensor(self.probabilities, values, context, self._validate_probability))
        return self._edited(probabilities=values)
'''), ("TensorEditor.set_residuals", '''
    def set_residuals(self, values):
        context = "An issue occurred while attempting to set residuals with an Editor: "
        self._execute_validation(lambda: self._check_tensor(self.residuals, values, context, self._validate_probability))
        return self._edited(residuals=values)
'''), ("TensorEditor.set_iterations", '''
    def set_iterations(self, values):
        context = "An error occurred while attempting to set the iterations tensor using an Editor"
        self._execute_validation(lambda: self._check_tensor(self.iterations, values, context, self._validate_is_natural_numbers))
        return self._edited(iterations=values)
'''), ("TensorEditor.set_accumulator", '''
    def set_accumulator(self, name, value):
        context = "An error occurred while setting to an accumulator with an Editor:"
        self._execute_validation(lambda: self._check_tree(name, value, context))
        return self._edited(accumulators={**self.accumulators, name: value})
'''), ("TensorEditor.set_defaults", '''
    def set_defaults(self, name, value):
        context = f"An error occurred while setting to a defaults  named '{name}' with an Editor:"
        self._execute_validation(lambda: self._check_tree(name, value, context))
        return self._edited(defaults=dict(self.defaults, **{name: value}))
'''), ("TensorEditor.set_updates", '''
    def set_updates(self, name, values):
        def check_for_errors():
            context = f"An error occurred while setting to an update entry named '{name}' with an Editor"
            exists = self._validate_accumulator_exists(name, context)
            if values is None or not exists:
                return
            self._validate_same_pytree_structure(self.defaults[name], values, context)
            self._validate_pytree_leaves(self.defaults[name], values, context)
        self._execute_validation(check_for_errors)
        return self._edited(updates=self.state.updates | {name: values})
''')]}

R["editor_validators"] = {E: [("TensorEditor._validate_probability", '''
    @staticmethod
    def _validate_probability(tensor, info):
        checks = [
            (jnp.all(tensor >= 0), "A tensor representing probabilities had elements less than zero"),
            (jnp.all(tensor <= 1.0), "A tensor representing probabilities had elements greater than one"),
        ]
        for ok, text in checks:
            checkify.check(ok, utils.format_error_message(text, info))
'''), ("TensorEditor._validate_is_natural_numbers", '''
    @staticmethod
    def _validate_is_natural_numbers(tensor, context):
        negative = jnp.any(tensor < 0)
        checkify.check(jnp.logical_not(negative), utils.format_error_message("not whole numbers", context))
'''), ("TensorEditor._execute_validation", '''
    def _execute_validation(self, function):
        if self.error_mode != ErrorModes.standard.value:
            return
        error, _ = checkify.checkify(function)()
        checkify.check_error(error)
'''), ("TensorEditor.edit_controller", '''
    @classmethod
    def edit_controller(cls, controller, error_mode=ErrorModes.standard.value):
        return cls.edit_save(controller.save(), error_mode)
'''), ("TensorEditor.edit_save", '''
    @classmethod
    def edit_save(cls, save, error_mode=ErrorModes.standard.value):
        modes = {item.value for item in ErrorModes}
        if error_mode in modes:
            return cls(save, error_mode)
        raise ValueError(f"Error mode must have been within {modes}")
''')]}

R["editor_validators2"] = {E: [("TensorEditor._validate_probability", '''
    @staticmethod
    def _validate_probability(tensor, info):
        low = utils.format_error_message("less than zero", info)
        high = utils.format_error_message("greater than one", info)
        checkify.check(jnp.logical_not(jnp.any(tensor < 0)), low)
        checkify.check(jnp.logical_not((tensor > 1).any()), high)
'''), ("TensorEditor._execute_validation", '''
    def _execute_validation(self, function):
        validating = {ErrorModes.standard.value: True, ErrorModes.silence.value: False}
        if validating[self.error_mode]:
            checked = checkify.checkify(function)
            errors, _ = checked()
            errors.throw()
'''), ("TensorEditor.set_epsilon", '''
    def set_epsilon(self, epsilon):
        def check_for_errors():
            context_message = "An error occurred while setting to an epsilon using an Editor"
            for ok, word in ((epsilon >= 0.0, "low"), (epsilon <= 1.0, "high")):
                msg = f"Epsilon was too {word}, got {epsilon}"
                checkify.check(ok, utils.format_error_message(msg, context_message))
        self._execute_validation(check_for_errors)
        new_state = self.state.replace(epsilon=epsilon)
        return TensorEditor(state=new_state, error_mode=self.error_mode)
''')]}

R["editor_leaves_zip"] = {E: [("TensorEditor._validate_same_pytree_structure", '''
    @staticmethod
    def _validate_same_pytree_structure(original, new, info):
        same = jax.tree_util.tree_structure(jax.tree_util.tree_map(lambda _: 0, original)) == \\
            jax.tree_util.tree_structure(jax.tree_util.tree_map(lambda _: 0, new))
        checkify.check(same, utils.format_error_message("not the same tree structure", info))
'''), ("flatten_editor", '''
def flatten_editor(editor):
    children, structure = jax.tree_util.tree_flatten(editor.save())
    return children, dict_aux(editor.error_mode, structure)
'''), ("unflatten_editor", '''
def unflatten_editor(aux_data, flat_state):
    state = aux_data[1].unflatten(flat_state)
    return TensorEditor(state=state, error_mode=aux_data[0])
'''), ("+", '''
def dict_aux(mode, structure):
    return mode, structure
''')]}

# ------------------------------------------------------------------ states
R["states_replace"] = {S: [("ACTStates.replace", '''
    def replace(self, epsilon=None, iterations=None, residuals=None, probabilities=None, accumulators=None,
                defaults=None, updates=None, depression_constant=None, error_mode=None):
        given = dict(epsilon=epsilon, iterations=iterations, residuals=residuals, probabilities=probabilities,
                     accumulators=accumulators, defaults=defaults, updates=updates,
                     depression_constant=depression_constant, error_mode=error_mode)
        values = {}
        for field in fields(self):
            value = given[field.name]
            values[field.name] = getattr(self, field.name) if value is None else value
        return ACTStates(**values)
''')]}

R["states_dc_replace"] = {S: [
    ("+", "import dataclasses"),
    ("ACTStates.replace", '''
    def replace(self, epsilon=None, iterations=None, residuals=None, probabilities=None, accumulators=None,
                defaults=None, updates=None, depression_constant=None, error_mode=None):
        given = dict(epsilon=epsilon, iterations=iterations, residuals=residuals, probabilities=probabilities,
                     accumulators=accumulators, defaults=defaults, updates=updates,
                     depression_constant=depression_constant, error_mode=error_mode)
        changes = {key: value for key, value in given.items() if value is not None}
        return dataclasses.replace(self, **changes)
'''), ("state_flatten", '''
def state_flatten(state):
    names = [field.name for field in fields(state) if field.name != "error_mode"]
    pairs = [jax.tree_util.tree_flatten(getattr(state, name)) for name in names]
    children = [(name, leaves) for name, (leaves, _) in zip(names, pairs)]
    return children, ([structure for _, structure in pairs], state.error_mode)
'''), ("state_unflatten", '''
def state_unflatten(aux_data, flat_state):
    structures, error_mode = aux_data
    values = [jax.tree_util.tree_unflatten(structure, leaves)
              for leaves, structure in zip(flat_state, structures)]
    return ACTStates(*values, error_mode)
''')]}

R["states_direct_children"] = {S: [("state_flatten", '''
def state_flatten(state):
    data = [("epsilon", state.epsilon),
            ("iterations", state.iterations),
            ("residuals", state.residuals),
            ("probabilities", state.probabilities),
            ("defaults", state.defaults),
            ("accumulators", state.accumulators),
            ("updates", state.updates),
            ("depression_constant", state.depression_constant)]
    return data, state.error_mode
'''), ("state_unflatten", '''
def state_unflatten(aux_data, flat_state):
    return ACTStates(*flat_state, error_mode=aux_data)
''')]}

R["states_validation"] = {S: [("ACTStates.execute_validation", '''
    def execute_validation(self, operand, predicates, context_message):
        mode = self.error_mode
        if mode not in (ErrorModes.checkify, ErrorModes.debug):
            return operand
        for predicate, text in predicates:
            passed = predicate(operand)
            msg = utils.format_error_message(text, context_message)
            if mode == ErrorModes.checkify:
                checkify.check(passed, msg)
            elif not passed:
                raise ValueError(msg)
        return operand
'''), ("ACTStates.validate_epsilon", '''
    def validate_epsilon(self, epsilon, context_msg):
        def not_negative(value):
            return value >= 0.0

        def at_most_one(value):
            return value <= 1.0
        tests = [(not_negative, "Epsilon was not found to be greater than zero. This is not allowed"),
                 (at_most_one, "Epsilon was not found to be less than or equal to 1.0. This is not allowed")]
        return self.execute_validation(epsilon, tests, context_msg)
''')]}

# ------------------------------------------------------------------ utils
R["utils_merge"] = {U: [("merge_pytrees", '''
def merge_pytrees(function, primary_tree, auxilary_tree):
    primary_leaves, treedef = jax.tree_util.tree_flatten(primary_tree)
    auxilary_leaves = jax.tree_util.tree_leaves(auxilary_tree)
    assert len(primary_leaves) == len(auxilary_leaves)
    return treedef.unflatten([function(a, b) for a, b in zip(primary_leaves, auxilary_leaves)])
'''), ("setup_left_broadcast", '''
def setup_left_broadcast(tensor, target):
    if tensor.ndim == 0:
        return tensor
    missing = target.ndim - tensor.ndim
    assert missing >= 0
    return tensor.reshape(tuple(tensor.shape) + (1,)*missing)
'''), ("_count_linked_leaves", '''
def _count_linked_leaves(treedef):
    return treedef.num_leaves
'''), ("_repeat_node", '''
def _repeat_node(source_leaf, num_times):
    return [source_leaf for _ in range(num_times)]
''')]}

R["utils_merge_map"] = {U: [("merge_pytrees", '''
def merge_pytrees(function, primary_tree, auxilary_tree):
    primary_leaves = jax.tree_util.tree_leaves(primary_tree)
    auxilary_leaves = jax.tree_util.tree_leaves(auxilary_tree)
    if len(primary_leaves) != len(auxilary_leaves):
        raise AssertionError("trees of different size")
    output = list(map(function, primary_leaves, auxilary_leaves))
    return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(primary_tree), output)
'''), ("setup_left_broadcast", '''
def setup_left_broadcast(tensor, target):
    if not tensor.ndim:
        return tensor
    assert len(tensor.shape) <= len(target.shape)
    for _ in range(target.ndim - tensor.ndim):
        tensor = jnp.expand_dims(tensor, -1)
    return tensor
'''), ("_count_linked_leaves", '''
def _count_linked_leaves(treedef):
    if jax.tree_util.treedef_is_leaf(treedef):
        return 0 if _is_empty_collection(treedef) else 1
    return sum(_count_linked_leaves(child) for child in jax.tree_util.treedef_children(treedef))
'''), ("can_right_broadcast", '''
def can_right_broadcast(array_a, array_b):
    pairs = zip(reversed(array_a.shape), reversed(array_b.shape))
    return all(a == b or 1 in (a, b) for a, b in pairs)
'''), ("are_pytrees_equal", '''
def are_pytrees_equal(tree_one, tree_two, use_allclose=True):
    if jax.tree_util.tree_structure(tree_one) != jax.tree_util.tree_structure(tree_two):
        return False
    compare = jnp.allclose if use_allclose else jnp.array_equal
    for one, two in zip(jax.tree_util.tree_leaves(tree_one), jax.tree_util.tree_leaves(tree_two)):
        if type(one) != type(two):
            return False
        if isinstance(one, (jnp.ndarray, np.ndarray)):
            same = compare(one, two)
        else:
            same = one == two
        if not same:
            return False
    return True
''')]}

R["utils_binary"] = {U: [("+", '''
def _match_rank(leaf_a, leaf_b):
    """unsqueeze whichever operand has fewer dimensions"""
    if leaf_a.ndim < leaf_b.ndim:
        return setup_left_broadcast(leaf_a, leaf_b), leaf_b
    if leaf_a.ndim > leaf_b.ndim:
        return leaf_a, setup_left_broadcast(leaf_b, leaf_a)
    return leaf_a, leaf_b


def _make_compatible(operand_a, operand_b):
    try:
        return broadcast_pytree_shape(operand_a, operand_b), operand_b
    except RuntimeError:
        return operand_a, broadcast_pytree_shape(operand_b, operand_a)
'''), ("execute_binary_operator", '''
def execute_binary_operator(operator, operand_a, operand_b, context_msg):
    try:
        operand_a, operand_b = _make_compatible(operand_a, operand_b)
    except Exception as err:
        raise RuntimeError(format_error_message("could not be made compatible", context_msg)) from err

    def run(i, leaf_a, leaf_b):
        try:
            return operator(*_match_rank(leaf_a, leaf_b))
        except Exception as err:
            raise RuntimeError(format_error_message(f"failed on leafs '{i}'", context_msg)) from err

    leaves_a, tree_def = jax.tree_util.tree_flatten(operand_a)
    leaves_b = jax.tree_util.tree_leaves(operand_b)
    output = [run(i, a, b) for i, (a, b) in enumerate(zip(leaves_a, leaves_b))]
    return jax.tree_util.tree_unflatten(tree_def, output)
''')]}

R["utils_replicate"] = {U: [("_replicate_leaves", '''
def _replicate_leaves(source_treedef, target_treedef, source_leaves_queue, context_message):
    queue = list(source_leaves_queue)
    if jax.tree_util.treedef_is_leaf(source_treedef):
        if _is_empty_collection(source_treedef):
            return [], queue
        first, rest = queue[0], queue[1:]
        return _repeat_node(first, _count_linked_leaves(target_treedef)), rest
    if jax.tree_util.treedef_is_leaf(target_treedef):
        raise RuntimeError(format_error_message("Source tree was not broadcastable.", context_message))
    _validate_children_descent(source_treedef, target_treedef, context_message)
    output = []
    pairs = zip(source_treedef.children(), target_treedef.children())
    for i, (source_node, target_node) in enumerate(pairs):
        try:
            section, queue = _replicate_leaves(source_node, target_node, queue, context_message)
        except Exception as err:
            msg = format_error_message(f"Issue occurred between trees on child {i}", context_message)
            raise RuntimeError(msg) from err
        output.extend(section)
    return output, queue
'''), ("format_error_message", '''
def format_error_message(message, context):
    body = textwrap.indent(textwrap.dedent(message), " "*4)
    return "\\n".join([textwrap.dedent(context), body])
'''), ("jit_and_checkify", '''
def jit_and_checkify(function):
    compiled = jax.jit(checkify.checkify(function))

    def wrapper(*args, **kwargs):
        outcome = compiled(*args, **kwargs)
        outcome[0].throw()
        return outcome[1]
    return wrapper
''')]}

R["utils_descent"] = {U: [("_validate_children_descent", '''
def _validate_children_descent(source_treenode, target_treenode, context_string):
    source_class, source_keys = source_treenode.node_data()
    target_class, target_keys = target_treenode.node_data()
    message = None
    if source_class is not target_class:
        message = f"mismatched classes {source_class} and {target_class}"
    elif len(source_treenode.children()) != len(target_treenode.children()):
        message = "mismatched number of children"
    elif source_keys is not None:
        mismatched = [(a, b) for a, b in zip(source_keys, target_keys) if a != b]
        if mismatched:
            message = f"mismatched keys {mismatched[0]}"
    if message is not None:
        raise RuntimeError(format_error_message(message, context_string))
'''), ("are_pytree_structure_equal", '''
def are_pytree_structure_equal(tree_one, tree_two):
    def blank(tree):
        return jax.tree_util.tree_structure(jax.tree_util.tree_map(lambda leaf: None, tree))
    return blank(tree_one) == blank(tree_two)
''')]}

# ------------------------------------------------------------------ layers
R["act_lambda_loop"] = {A: [("AbstractACTTemplate.execute_act", '''
    def execute_act(self, initial_state, depression_constant=1.0, max_iterations=10, check_for_errors=True, *args, **kwargs):
        layer = ContractValidationWrapper(self, check_for_errors)
        controller = layer.make_controller(initial_state, depression_constant, *args, **kwargs)
        self.setup_lazy_parameters(controller, initial_state)

        def keep_going(carry):
            running = jnp.logical_not(carry[0].is_completely_halted)
            return running & (carry[2] < max_iterations)

        def body(carry):
            controller, state, count = carry
            controller, state = layer.run_iteration(controller, state)
            return controller, state, count + 1

        result = jax.lax.while_loop(keep_going, body, (controller, initial_state, 0))
        return result[0], result[1]
''')]}

R["act_metadata_namedtuple"] = {A: [
    ("+", "from typing import NamedTuple"),
    ("sub", ('''@dataclass
class ACTMetaData:
    """
    A place for storing metadata
    during iteration.
    """
''', '''class ACTMetaData(NamedTuple):
    """
    A place for storing metadata
    during iteration.
    """
''')),
    ("sub", ('''jax.tree_util.register_pytree_with_keys(ACTMetaData, state_flatten, state_unflatten)
''', ''))]}

R["act_inner_functions"] = {A: [("AbstractACTTemplate._is_act_not_complete", '''
    @staticmethod
    def _is_act_not_complete(combined_state):
        controller, _, metadata = combined_state
        below_limit = metadata.num_iterations < metadata.max_num_iterations
        return jnp.logical_and(below_limit, jnp.logical_not(controller.is_completely_halted))
'''), ("AbstractACTTemplate._while_loop_adapter_factory", '''
    @staticmethod
    def _while_loop_adapter_factory(layer):
        def run_layer_adapter(carry):
            controller, state, metadata = carry
            result = layer.run_iteration(controller, state)
            return (*result, metadata.increase_counter())
        return run_layer_adapter
'''), ("state_flatten", '''
def state_flatten(state):
    children = (("num_iterations", state.num_iterations), ("max_num_iterations", state.max_num_iterations))
    return children, None
'''), ("state_unflatten", '''
def state_unflatten(aux_data, flat_state):
    num_iterations, max_num_iterations = flat_state
    return ACTMetaData(num_iterations=num_iterations, max_num_iterations=max_num_iterations)
''')]}

R["act_replace_meta"] = {A: [
    ("+", "import dataclasses"),
    ("ACTMetaData.increase_counter", '''
    def increase_counter(self):
        return dataclasses.replace(self, num_iterations=self.num_iterations + 1)
'''),
    ("sub", ("        act_layer = ContractValidationWrapper(self, check_for_errors)\n", "        act_layer = self._wrap(check_for_errors)\n")),
    ("AbstractACTTemplate.+", '''
    def _wrap(self, check_for_errors):
        return ContractValidationWrapper(layer=self, check_errors=check_for_errors)
''')]}

R["layers_wrapper"] = {L: [("ContractValidationWrapper.make_controller", '''
    def make_controller(self, initial_state, *args, **kwargs):
        controller = self.layer.make_controller(initial_state, *args, **kwargs)
        if self.check_errors is True:
            context = "An issue occurred while trying to make an act controller using the user layer"
            for validator in (self._validate_is_controller, self._validate_controller_not_empty):
                validator(controller, context)
        return controller
'''), ("ContractValidationWrapper.run_iteration", '''
    def run_iteration(self, controller, state):
        update = self.layer.run_iteration(controller, state)
        self._execute_validation(lambda: self._validate_update(controller, update))
        return update
'''), ("ContractValidationWrapper._validate_all_act_updates_committed", '''
    @staticmethod
    def _validate_all_act_updates_committed(controller, context):
        if controller.updates_ready_to_commit:
            raise RuntimeError(utils.format_error_message("never committed", context))
        if not controller.has_cached_updates:
            return
        raise RuntimeError(utils.format_error_message("uncommitted updates", context))
'''), ("ContractValidationWrapper._validate_length_two", '''
    @staticmethod
    def _validate_length_two(item, context):
        size = len(item)
        if size == 2:
            return
        raise RuntimeError(utils.format_error_message(f"it had length of {size}", context))
'''), ("ContractValidationWrapper.make_controller", '''
    def _validate_update(self, controller, update):
        context = "An issue occurred while validating the execution of run_iteration"
        self._validate_is_tuple(update, context)
        self._validate_length_two(update, context)
        new_controller = update[0]
        self._validate_is_controller(new_controller, context)
        self._validate_is_novel_controller(controller, new_controller, context)
        self._validate_all_act_updates_committed(new_controller, context)

    def make_controller(self, initial_state, *args, **kwargs):
        controller = self.layer.make_controller(initial_state, *args, **kwargs)
        if self.check_errors is True:
            context = "An issue occurred while trying to make an act controller using the user layer"
            self._validate_is_controller(controller, context)
            self._validate_controller_not_empty(controller, context)
        return controller
'''), ("ContractValidationWrapper._validate_controller_not_empty", '''
    @staticmethod
    def _validate_controller_not_empty(item, context):
        if not item.accumulators:
            raise RuntimeError(utils.format_error_message("An empty controller was defined.", context))
''')]}

R["flax_early"] = {F: [("FlaxACTLayer.setup_lazy_parameters", '''
    def setup_lazy_parameters(self, controller, state):
        if not self.is_mutable_collection("params"):
            return
        _ = self.run_iteration(controller, state)
''')]}

R["type_annotations"] = {C: [
    ("sub", ("        halted_batches = self.halted_batches\n        halting", "        halted_batches: jnp.ndarray = self.halted_batches\n        halting")),
    ("sub", ("        new_iterations = self.iterations + 1\n", "        new_iterations: jnp.ndarray = 1 + self.iterations\n"))],
    L: [("sub", ("        update = self.layer.run_iteration(controller, state)\n", "        update: Any = self.layer.run_iteration(state=state, controller=controller)\n"))]}

R["reorder"] = {C: [("sub", ('''        iterators = self.iterations*unhalted_batch_selector
        probabilities = self.probabilities*unhalted_batch_selector
        residuals = self.residuals*unhalted_batch_selector
''', '''        residuals = unhalted_batch_selector*self.residuals
        probabilities, iterators = [t*unhalted_batch_selector for t in (self.probabilities, self.iterations)]
''')), ("sub", ("        accumulators = self.accumulators.copy()\n        updates = self.state.updates.copy()\n",
                 "        updates = dict(self.state.updates)\n        accumulators = {**self.accumulators}\n"))],
    B: [("sub", ("        defaults[name] = definition\n        accumulators[name] = definition\n        updates[name] = None\n",
                 "        updates.update({name: None})\n        accumulators.update({name: definition})\n        defaults[name] = accumulators[name]\n"))]}

R["copy_module"] = {C: [("+", "import copy"),
    ("sub", ("update = state.updates.copy()", "update = copy.copy(state.updates)")),
    ("sub", ("for key, value in self.state.updates.items():\n            if value is not None:\n", "for key in sorted(self.state.updates, key=str):\n            if self.state.updates[key] is not None:\n"))]}

R["walrus_match"] = {C: [("sub", ("        if state.updates[name] is not None:\n", "        if (pending := state.updates[name]) is not None:\n"))],
    E: [("TensorEditor._execute_validation", '''
    def _execute_validation(self, function):
        match self.error_mode:
            case ErrorModes.standard.value:
                errors, _ = checkify.checkify(function)()
                errors.throw()
            case _:
                pass
''')]}
R["viewer_methods_partial"] = {V: [("+", '''
from functools import partial


def _zero_where_false(mask, tensor):
    return utils.setup_left_broadcast(mask, tensor)*tensor
'''), ("sub", ('''        def update_function(tensor: jnp.ndarray)->jnp.ndarray:
            broadcastable_mask = utils.setup_left_broadcast(mask, tensor)
            return broadcastable_mask*tensor

        return self.transform(update_function)
''', '''        return self.transform(partial(_zero_where_false, mask))
'''))]}
R["ctl_cumprob"] = {C: [("ACT_Controller._process_probabilities", '''
    def _process_probabilities(self, halting_probabilities):
        proposed = self.depression_constant*halting_probabilities
        cumulative = self.probabilities + proposed
        over = cumulative > self.halt_threshold
        raw = 1 - self.probabilities
        step = jnp.where(over, raw, proposed)
        new = jnp.where(over, 1, cumulative).astype(self.probabilities.dtype)
        residuals = jnp.where(over & ~self.halted_batches, raw, self.residuals)
        return step, residuals, new
''')]}
R["decorators_generic_props"] = {V: [("+", '''
def _state_field(name):
    def getter(self):
        return getattr(self.state, name)
    getter.__name__ = name
    return property(getter)
'''),
    ("sub", ('''    @property
    def residuals(self)->jnp.ndarray:
        return self.state.residuals
    @property
    def iterations(self)->jnp.ndarray:
        return self.state.iterations
''', '''    residuals = _state_field("residuals")
    iterations = _state_field("iterations")
'''))]}
R["base_class_props"] = {I: [("+", "") ] if False else [("Immutable.make_immutable", '''
    def make_immutable(self):
        self._is_immutable = True

    @property
    def residual_view(self):
        return self.state.residuals
''')]}
