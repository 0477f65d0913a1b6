"""C30 (failures of user code reach the caller) and C31 (operations depend on their arguments only)."""
from . import domain as D
from . import jaxmodel as J
from .harness import *
from .values import *
from .c_layer import Layer
from .c_state import ext, keep, make_viewer, op_table
from .c_num import loop_result
from .c_utils import CONTEXT, X, build, paths, show, tag

KINDS = ["ValueError", "RuntimeError", "TypeError", "AttributeError", "KeyError", "IndexError", "AssertionError", "NotImplementedError",
         "ZeroDivisionError", "NameError"]
SCENES = [Scn("trees", (2, 3), {"z": L(), "a": [L(4), (L(2), {"y": L(), "x": L(7)})]}), Scn("plain", (4,), {"a": L(5), "b": L()}, scal="arr")]
MORE = [Scn("rank0", (), {"a": [L(), L(5)]}), Scn("records", (2,), {"r": named(y=L(2), x=[L(4)]), "n": node(q=L(5), p=L())}),
        Scn("half", (3,), {"a": L(3, dtype="bfloat16"), "b": {"k": L(2)}}, core="bfloat16")]

PARTIAL = '''
from src.jax_act.layers.act import AbstractACTTemplate
from src.jax_act.layers.core import AbstractControllerContract
from src.jax_act.frameworks.flax import FlaxACTLayer


def make(self, initial_state, depression_constant, *args, **kwargs):
    return MADE


def run(self, controller, state):
    return RUN(controller, state)


def setup_lazy(self, controller, state):
    pass


class NoMake(AbstractACTTemplate):
    run_iteration = run
    setup_lazy_parameters = setup_lazy


class NoRun(AbstractACTTemplate):
    make_controller = make
    setup_lazy_parameters = setup_lazy


class NoSetup(AbstractACTTemplate):
    make_controller = make
    run_iteration = run
'''


def failing(name, kind, at, answer):
    """a user function that raises when it is called for the at-th time"""
    n = [0]

    def f(eng, a, k):
        n[0] += 1
        if n[0] == at:
            eng.throw(kind, "raised by the user", fault=False)
        return answer(eng, a, k)
    return OpaqueFn(name, f)


def c30(R, tier):
    for scn in SCENES + (MORE if tier == "thorough" else []):
        R.block(f"{scn.name}, transforms", c30_transform, R, scn)
        for cls in ("GenericLayer", "GenericFlaxLayer"):
            for check in (True, False):
                R.block(f"{scn.name}, {cls}, checking {check}", c30_layer, R, scn, cls, check)
        R.block(f"{scn.name}, incomplete layers", c30_partial, R, scn)
    R.block("utilities", c30_utils, R, tier)
    R.block("predicates", c30_predicates, R)
    R.block("functions wrapped for checkify", c30_checkify, R)


def c30_transform(R, scn):
    for pend in ("all", "none"):
        S = Scene(scn)
        v = make_viewer(S, S.state(pend))
        calls = [0]

        def count(eng, a, k):
            calls[0] += 1
            return J.to_tensor(eng, a[0])
        r = S.run(lambda: S.m(v, "transform", OpaqueFn("T", count)))
        R.no_raise("a transform that does not fail is carried out", r, D.TRUE, "transform")
        for at in range(1, calls[0] + 1):
            for kind in KINDS if at in (1, calls[0]) else KINDS[:1] + ["KeyError"]:
                fn = failing("T", kind, at, lambda e, a, k: J.to_tensor(e, a[0]))
                r = S.run(lambda: S.m(v, "transform", fn))
                R.must_raise("a failing transform raises RuntimeError", r, ["RuntimeError"], D.TRUE, f"{kind} at call {at} of {calls[0]}, pending {pend}")
        R.saw(S)


def layer_cases(kinds):
    for kind in kinds:
        yield kind, "make_controller"
        yield kind, "setup_lazy_parameters"
        for at in (1, 2):
            yield kind, f"run_iteration, call {at}"


def c30_layer(R, scn, cls, check):
    for kind, where in layer_cases(KINDS if check and scn is SCENES[0] else KINDS[(cls == "GenericLayer") + check::3]):
        if where.startswith("setup") and cls != "GenericLayer":
            continue
        S = Scene(scn)
        eng = S.eng
        zero = TensorV(scn.batch, scn.core, D.num(0))
        ly = Layer(S, cls, state=S.state("none", probabilities=zero))
        mutable = eng.boolnode(S.m(ly.layer, "is_mutable_collection", "params")) if cls != "GenericLayer" else D.FALSE
        ly.set("HPF", OpaqueFn("HPF", lambda e, a, k: zero))
        user = ly.get("conforming")
        boom = lambda e, a, k: e.throw(kind, "raised by the user", fault=False)
        # what fails inside the loop must not depend on how often the body is analysed
        if where.startswith("make"):
            S.eng.env_set(ly.mod.env, "record", failing("record", kind, 1, lambda e, a, k: None))
        elif where.startswith("setup"):
            ly.set("SETUP", OpaqueFn("SETUP", boom))
        elif where.endswith("1"):
            ly.set("RUN", OpaqueFn("RUN", boom))
        else:
            # the second operation of an iteration fails
            def second(e, a, k):
                e.call(user, a, k)
                e.throw(kind, "raised by the user", fault=False)
            ly.set("RUN", OpaqueFn("RUN", second))
        J.UNROLL[0], u = 2, J.UNROLL[0]
        try:
            r = S.run(lambda: ly.execute(ly.init, 1.0, 2, check))
        finally:
            J.UNROLL[0] = u
        R.must_raise("a failing layer method raises its own exception through execute_act", r, [kind], D.TRUE, f"{kind} in {where}")
    S = Scene(scn)
    ly = Layer(S, cls)
    J.UNROLL[0], u = 2, J.UNROLL[0]
    try:
        r = S.run(lambda: ly.execute(ly.init, 1.0, 2, check))
    finally:
        J.UNROLL[0] = u
    R.no_raise("a layer that does not fail is run", r, D.TRUE, "execute_act")
    R.saw(S)


def c30_partial(R, scn):
    S = Scene(scn)
    eng = S.eng
    mod = eng.load_source("harness_partial", PARTIAL, "<harness layer>")
    made = S.controller(S.state("none"))
    init = eng.new_dict([("h", S.sym("h", scn.batch, scn.core))])
    eng.env_set(mod.env, "MADE", made)
    eng.env_set(mod.env, "RUN", OpaqueFn("RUN", lambda e, a, k: (S.controller(S.state("none")), a[1])))
    for name in ("NoMake", "NoRun", "NoSetup"):
        for check in (True, False):
            J.UNROLL[0], u = 1, J.UNROLL[0]
            try:
                r = S.run(lambda: S.m(eng.call(eng.module_get(mod, name), [], {}), "execute_act", init, 1.0, 1, check))
            finally:
                J.UNROLL[0] = u
            R.must_raise("a layer that leaves part of the contract undefined cannot be run", r, ["TypeError", "NotImplementedError"], D.TRUE, f"{name}, checking {check}")
    R.saw(S)


def c30_utils(R, tier):
    S = Scene(None)
    eng = S.eng
    S.scn = None
    fam = [X, [X], {"a": X, "b": [X, X]}, ([X, X], {"k": X}), named(b=X, a=[X, X])]
    first = lambda e, a, k: J.to_tensor(e, a[0])
    for t in fam:
        n = len(list(paths(t)))
        a = build(S, t, lambda p: S.sym("a." + tag(p), (2, 3)))
        b = build(S, t, lambda p: S.sym("b." + tag(p), (2,)))
        c = build(S, t, lambda p: S.sym("c." + tag(p), (2, 3)))
        for at in range(1, n + 1):
            for kind in KINDS:
                what = f"{kind} at leaf {at} of {show(t)}"
                r = S.run(lambda: eng.call(S.util("merge_pytrees"), [failing("OP", kind, at, first), a, c], {}))
                R.must_raise("a failing merge raises", r, [], D.TRUE, f"{what}: merge_pytrees")
                for x, y, w in ((a, b, "second smaller"), (b, a, "first smaller"), (a, c, "equal shapes"), (S.sym("whole", (2,)), a, "a tensor and a tree"),
                                (a, S.sym("whole", (2, 3, 4)), "a tree and a tensor")):
                    r = S.run(lambda: eng.call(S.util("execute_binary_operator"), [failing("OP", kind, at, first), x, y, CONTEXT], {}))
                    R.must_raise("a failing binary operator raises RuntimeError", r, ["RuntimeError"], D.TRUE, f"{what}, {w}: execute_binary_operator")
    R.saw(S)


def c30_predicates(R):
    scn = SCENES[1]
    S = Scene(scn)
    st = S.state("all", error_mode="debug")
    x = S.sym("x", (3,))
    ok = lambda e, a, k: BoolV(D.TRUE)
    for kind in KINDS:
        for at in (0, 1, 2):
            preds = S.eng.new_list([(failing("P", kind, 1, ok) if i == at else OpaqueFn("P", ok), f"message {i}") for i in range(3)])
            r = S.run(lambda: S.m(st, "execute_validation", x, preds, CONTEXT))
            R.must_raise("a failing predicate raises", r, [], D.TRUE, f"{kind} in predicate {at}: execute_validation")
    R.saw(S)


def c30_checkify(R):
    S = Scene(None)
    S.scn = None
    x = S.sym("x", (2, 3))
    for kind in KINDS:
        f = OpaqueFn("f", lambda e, a, k: e.throw(kind, "raised by the user", fault=False))
        r = S.run(lambda: S.call(S.call(S.util("jit_and_checkify"), f), x))
        R.must_raise("a failing function raises its own exception", r, [kind], D.TRUE, f"{kind}: jit_and_checkify")
    R.saw(S)


# ---------------------------------------------------------------------- C31


def c31(R, tier):
    for scn in SCENES + (MORE + generated(6, small=True, seed="C31") if tier == "thorough" else []):
        for k, op in enumerate(op_table(Scene(scn), scn)):
            label = op[0]
            R.block(f"{scn.name}, {label}", c31_op, R, scn, k)
            R.block(f"{scn.name}, {label}, first or later", c31_first, R, scn, k)
        R.block(f"{scn.name}, execute_act", c31_loop, R, scn)
    R.block("utilities", c31_utils, R)
    for group in HISTORIES:
        R.block("histories of " + group, c31_history, R, group)
    R.block("containers changed between calls", c31_pairs, R)


# Calls that differ in one argument at a time. T(name, *shape) is an arbitrary tensor.
VARIANTS = '''
import jax
from jax import numpy as jnp
from src.jax_act import ACT_Controller, ControllerBuilder, ACTViewer, TensorEditor
from src.jax_act.core import utils
from src.jax_act.core.states import ACTStates
from src.jax_act.layers.act import AbstractACTTemplate
from src.jax_act.layers.core import ContractValidationWrapper

new = ControllerBuilder.new_builder


class Layer(AbstractACTTemplate):
    def __init__(self, made, answer):
        self.made = made
        self.answer = answer

    def make_controller(self, state, depression_constant, *args, **kwargs):
        return self.made

    def setup_lazy_parameters(self, controller, state):
        pass

    def run_iteration(self, controller, state):
        return self.answer(controller, state)


def two(batch=3, epsilon=0.25, depression=1.0, mode=None):
    state = new(batch, None, epsilon, depression).define_accumulator_directly("a", T("a", 3, 2)).define_accumulator_directly("b", [T("b", 3), T("c", 3, 4)]).state
    return ACT_Controller(state.replace(error_mode=mode))


def pending(controller, tag=""):
    return controller.cache_update("a", T("ua" + tag, 3, 2)).cache_update("b", [T("ub" + tag, 3), T("uc" + tag, 3, 4)])


def step(controller, tag=""):
    return pending(controller, tag).iterate_act(T("h" + tag, 3))


def good(controller, state):
    return step(controller), state


def lazy(controller, state):
    return controller, state


def half(controller, state):
    return controller.cache_update("a", T("ua", 3, 2)), state


def started(epsilon, depression=1.0):
    return TensorEditor.edit_controller(two(3, epsilon, depression), "silence").set_probabilities(T("p", 3)).set_residuals(T("r", 3)).set_iterations(T("i", 3)).build()


def low(x):
    return jnp.all(x >= 0)


def high(x):
    return jnp.all(x <= 1)


def never(x):
    return False


def always(x):
    return True


def mutated(compare):
    one, other = [T("x", 2), T("y", 2)], [T("x", 2), T("y", 2)]
    first = compare(one, other)
    other.append(T("z", 2))
    second = compare(one, other)
    one.append(T("z", 2))
    third = compare(one, other)
    other[0] = {"k": other[0]}
    return first, second, third, compare(one, other)


def together(f):
    one, other = [T("x", 2)], [T("y", 2)]
    first = f(one, other)
    one.append(T("w", 2))
    other.append(T("z", 2))
    return first, f(one, other)


def mutated_left(compare):
    one, other = {"a": T("x", 2), "b": (T("y", 2),)}, {"a": T("x", 2), "b": (T("y", 2),)}
    first = compare(one, other)
    one["a"] = T("other", 2)
    second = compare(one, other)
    one["c"] = T("other", 2)
    return first, second, compare(one, other)


def mutated_definition():
    tree = {"x": T("x", 3)}
    first = new(3).define_accumulator_directly("a", tree)
    tree["y"] = T("y", 3, 2)
    return new(3).define_accumulator_directly("a", tree).build()


def mutated_shapes():
    shapes = {"x": [3, 2]}
    first = new(3).define_accumulator_by_shape("a", shapes)
    shapes["x"] = [3, 5]
    return new(3).define_accumulator_by_shape("a", shapes).build()


def validated(mode, value, *predicates):
    return two(mode=mode).state.execute_validation(value, [(f, "message") for f in predicates], "context")


class Flag:
    value = True


def changing(x):
    return Flag.value


def flipped(mode):
    state = two(mode=mode).state
    Flag.value = True
    state.execute_validation(1, [(changing, "message")], "context")
    Flag.value = False
    return state.execute_validation(1, [(changing, "message")], "context")


class Count:
    n = 0


def counting(controller, state):
    return step(controller, str(state["turn"])), state


def merged_twice(tag):
    return utils.merge_pytrees(lambda a, b: a - b, {"k": T("x" + tag, 2), "l": [T("y" + tag, 3)]}, {"k": T("z" + tag, 2), "l": [T("w" + tag, 3)]})


def pairs(f):
    """a call on a container that was changed after an earlier call, and the same call on a new container"""
    X, Y, Z, W = (lambda: T("x", 2)), (lambda: T("y", 2)), (lambda: T("z", 2)), (lambda: T("w", 2))

    def longer():
        one, other = [X(), Y()], [X(), Y()]
        f(one, other)
        one.append(W())
        other.append(Z())
        return f(one, other)

    def shorter():
        one, other = [X(), Y()], [X(), Y()]
        f(one, other)
        one.pop()
        other.pop()
        return f(one, other)

    def one_sided():
        one, other = [X(), Y()], [X(), Y()]
        f(one, other)
        other.append(Z())
        return f(one, other)

    def replaced():
        one, other = {"a": X(), "b": (Y(),)}, {"a": X(), "b": (Y(),)}
        f(one, other)
        one["a"] = Z()
        return f(one, other)

    def renamed():
        one, other = {"a": X(), "b": (Y(),)}, {"a": X(), "b": (Y(),)}
        f(one, other)
        one["c"] = one.pop("b")
        return f(one, other)

    def deeper():
        one, other = [X(), [Y()]], [X(), [Y()]]
        f(one, other)
        one[1].append(Z())
        return f(one, other)
    return [(longer, lambda: f([X(), Y(), W()], [X(), Y(), Z()])), (shorter, lambda: f([X()], [X()])), (one_sided, lambda: f([X(), Y()], [X(), Y(), Z()])),
            (replaced, lambda: f({"a": Z(), "b": (Y(),)}, {"a": X(), "b": (Y(),)})), (renamed, lambda: f({"a": X(), "c": (Y(),)}, {"a": X(), "b": (Y(),)})),
            (deeper, lambda: f([X(), [Y(), Z()]], [X(), [Y()]]))]


PAIRS = [p for f in (utils.are_pytree_structure_equal, utils.are_pytrees_equal, utils.broadcast_pytree_shape, lambda a, b: utils.merge_pytrees(lambda x, y: x - y, a, b),
                     lambda a, b: utils.execute_binary_operator(lambda x, y: x - y, a, b, "context"), lambda a, b: new(2).define_accumulator_directly("a", a).define_accumulator_directly("b", b),
                     lambda a, b: TensorEditor.edit_controller(new(2).define_accumulator_directly("a", [T("p", 2), T("q", 2)]).build()).set_accumulator("a", a),
                     lambda a, b: TensorEditor.edit_controller(new(2).define_accumulator_directly("a", [T("p", 2), T("q", 2)]).build()).set_updates("a", a),
                     lambda a, b: new(2).define_accumulator_directly("a", [T("p", 2), T("q", 2)]).build().cache_update("a", a),
                     lambda a, b: new(2).define_accumulator_directly("a", [T("p", 2), T("q", 2)]).build().cache_update("a", b).iterate_act(T("r", 2))) for p in pairs(f)]

BUILDERS = [lambda b=b, d=d, e=e, c=c: new(b, d, e, c) for b in (3, (3,), [2, 3], (), 1, (1, 3)) for d, e, c in
            ((None, 0.25, 1.0), (jnp.float16, 0.25, 1.0), (None, 0.5, 1.0), (None, 0.25, 2.0))] + [
    lambda: new(3), lambda: new(3, jnp.int32), lambda: new(3, None, 1.5), lambda: new(3, epsilon=0.0), lambda: new(3, epsilon=1e-4), lambda: new(3, depression_constant=0.0)]

DEFINITIONS = [lambda b=b, n=n, t=t: new(b).define_accumulator_directly(n, t()) for b in (3, [3, 2]) for n in ("a", "b") for t in
               (lambda: T("x", 3, 2), lambda: [T("x", 3, 2)], lambda: T("y", 3, 2, 4), lambda: {"k": T("x", 3, 2)}, lambda: T("z", 2, 3))] + [
    lambda s=s, d=d, f=f: new(3).define_accumulator_by_shape("a", s(), d, f) for s in (lambda: [3, 2], lambda: [3], lambda: {"k": [3, 2]}, lambda: [2, 3]) for d, f in
    ((jnp.float32, 0.0), (jnp.float16, 0.0), (jnp.float32, 1.0))] + [
    lambda: two().state, lambda: TensorEditor.edit_controller(two()).build(), lambda: new(3).define_accumulator_directly("a", T("x", 3)).define_accumulator_directly("a", T("y", 3, 2)),
    lambda: new(3).define_accumulator_by_shape("a", [3, 2]).define_accumulator_by_shape("b", [3, 2]), mutated_definition, mutated_shapes]

EDITS = [lambda m=m, f=f: f(TensorEditor.edit_controller(two(), m)) for m in ("standard", "silence") for f in
         (lambda e: e.set_probabilities(jnp.full([3], 0.5)), lambda e: e.set_probabilities(jnp.full([3], 1.5)), lambda e: e.set_probabilities(jnp.full([2], 0.5)),
          lambda e: e.set_residuals(jnp.full([3], -0.5)), lambda e: e.set_residuals(jnp.full([3], 0.25)), lambda e: e.set_iterations(jnp.full([3], -1.0)), lambda e: e.set_iterations(jnp.full([3], 2.0)),
          lambda e: e.set_epsilon(1.5), lambda e: e.set_epsilon(0.75), lambda e: e.set_epsilon(0.5), lambda e: e.set_accumulator("a", T("x", 3, 2)), lambda e: e.set_accumulator("a", T("x", 3)),
          lambda e: e.set_accumulator("b", T("x", 3, 2)), lambda e: e.set_accumulator("c", T("x", 3)), lambda e: e.set_defaults("a", T("x", 3, 2)), lambda e: e.set_defaults("b", T("x", 3)),
          lambda e: e.set_updates("a", T("x", 3, 2)), lambda e: e.set_updates("a", None), lambda e: e.set_updates("a", T("x", 2)))] + [
    lambda: TensorEditor.edit_controller(two(), "other"), lambda: TensorEditor.edit_save(two().save(), "other"), lambda: TensorEditor.edit_save(two().save()), lambda: TensorEditor.edit_controller(two())]

STEPS = [lambda e=e, d=d, f=f: f(started(e, d)) for e, d in ((0.25, 1.0), (0.5, 1.0), (0.25, 0.5)) for f in
         (lambda c: c.halted_batches, lambda c: c.is_any_halted, lambda c: c.is_completely_halted, lambda c: step(c), lambda c: c.reset_batches(), lambda c: c.make_viewer().halted_only(),
          lambda c: c.make_viewer().unhalted_only(), lambda c: c.make_viewer().transform(lambda x: x + 1), lambda c: c.make_viewer().transform(lambda x: x * 2),
          lambda c: c.make_viewer().mask_data(T("p", 3) > 0.5), lambda c: c.make_viewer().mask_data(T("r", 3) > 0.5), lambda c: c.cache_update("a", T("x", 3, 2)), lambda c: c.cache_update("a", T("x", 3)),
          lambda c: c.cache_update("other", T("x", 3)), lambda c: pending(c).reset_batches(), lambda c: pending(c, "k").iterate_act(T("other", 3)), lambda c: step(step(c, "1"), "2"),
          lambda c: (c.has_cached_updates, c.updates_ready_to_commit), lambda c: (pending(c).has_cached_updates, pending(c).updates_ready_to_commit), lambda c: c["a"], lambda c: c["b"],
          lambda c: jax.tree_util.tree_map(lambda x: x, c), lambda c: step(c).save())]

KEPT = []


def base():
    if not KEPT:
        KEPT.append(started(0.25).save())
    return KEPT[0]


def everything(state):
    """what a controller on the state shows and does"""
    c = ACT_Controller(state)
    view = c.make_viewer()
    e = TensorEditor.edit_save(state, "silence")
    return ((c.halted_batches, c.halt_threshold, c.is_any_halted, c.is_completely_halted, c.probabilities, c.residuals, c.iterations, c["a"], c.depression_constant, c.save()),
            (view.probabilities, view.residuals, view.iterations, view.accumulators, view.updates, view.halted_batches, view.halted_only(), view.unhalted_only(), view.transform(lambda x: x + 1)),
            c.reset_batches(), jax.tree_util.tree_map(lambda x: x, c), e.save(), e.build(), e.set_probabilities(T("r", 3)).build(),
            TensorEditor.edit_controller(c).save(), c.has_cached_updates, c.updates_ready_to_commit)


def committed(state):
    c = ACT_Controller(state)
    return pending(c).iterate_act(T("h", 3)), pending(c).make_viewer().transform(lambda x: x*2), pending(c).updates_ready_to_commit


# states that share all but one of their parts
SIBLINGS = [lambda f=f, g=g: g(f(base())) for f in
            (lambda s: s, lambda s: s.replace(probabilities=T("p", 3)), lambda s: s.replace(residuals=T("h", 3)), lambda s: s.replace(iterations=T("p", 3)), lambda s: s.replace(epsilon=0.5),
             lambda s: s.replace(depression_constant=0.5), lambda s: s.replace(error_mode=None), lambda s: s.replace(accumulators={"a": T("x", 3, 2), "b": s.accumulators["b"]}),
             lambda s: s.replace(defaults={"a": T("x", 3, 2), "b": s.defaults["b"]}), lambda s: s.replace(defaults=dict(s.defaults), iterations=T("r", 3)),
             lambda s: s.replace(accumulators=dict(s.accumulators), probabilities=T("r", 3))) for g in (everything, committed)]

LAYERS = [lambda f=f, k=k: Layer(two(), f).execute_act({"turn": T("s", 3)}, **k) for f in (good, lazy, half, None) for k in
          (dict(), dict(check_for_errors=False), dict(max_iterations=1), dict(max_iterations=2, depression_constant=0.5)) if f is good or not k] + [
    lambda m=m, c=c: Layer(m(), good).execute_act({"turn": T("s", 3)}, check_for_errors=c, max_iterations=1) for m, c in
    ((lambda: None, True), (lambda: new(3).build(), True), (lambda: new(3).build(), False), (lambda: two(3, 0.5), True), (lambda: two(3, 0.5), False))] + [
    lambda f=f, c=c: ContractValidationWrapper(Layer(two(), f), c).run_iteration(two(), T("s", 3)) for f in (good, lazy, half) for c in (True, False)] + [
    lambda: (lambda c: ContractValidationWrapper(Layer(two(), lazy), True).run_iteration(c, 1))(two()), lambda: Layer(two(), good).new_builder(3, None, 0.5), lambda: Layer(two(), good).new_builder(3)]

VALIDATION = [lambda m=m, p=p, v=v: validated(m, v, *p) for m in ("debug", "checkify", None, "standard", "other") for p in ((always,), (never,), (always, never), ()) for v in (1, 2)] + [
    lambda m=m, e=e: two(mode=m).state.validate_epsilon(e, "context") for m in ("debug", None) for e in (0.5, 1.5, -0.5)] + [lambda m=m: flipped(m) for m in ("debug", None)] + [
    lambda m=m: two(mode=m).state.replace(error_mode=n) for m in ("debug", None) for n in ("checkify", None)]

UTILITIES = [lambda f=f, c=c: f(c) for f in (mutated, mutated_left) for c in (utils.are_pytree_structure_equal, utils.are_pytrees_equal)] + [
    lambda: together(utils.broadcast_pytree_shape), lambda: together(lambda a, b: utils.execute_binary_operator(lambda x, y: x + y, a, b, "context")),
    lambda: together(lambda a, b: utils.merge_pytrees(lambda x, y: x - y, a, b)), lambda: merged_twice(""), lambda: merged_twice("1"), lambda: utils.format_error_message("a", "b"),
    lambda: utils.format_error_message("a", "c"), lambda: utils.format_error_message("c", "b"), lambda: utils.can_right_broadcast(T("x", 2, 3), T("y", 3)), lambda: utils.can_right_broadcast(T("x", 2, 3), T("y", 2)),
    lambda: utils.can_right_broadcast(T("x", 2), T("y", 2, 3)), lambda: utils.setup_left_broadcast(T("x", 2), T("y", 2, 3)), lambda: utils.setup_left_broadcast(T("x", 2), T("y", 2, 3, 4)),
    lambda: utils.setup_left_broadcast(T("z", 2), T("y", 2, 3)), lambda: utils.broadcast_pytree_shape(T("x", 2), [T("y", 2), T("z", 2)]), lambda: utils.broadcast_pytree_shape(T("x", 2), (T("y", 2), T("z", 2))),
    lambda: utils.broadcast_pytree_shape(T("w", 2), [T("y", 2), T("z", 2)]), lambda: utils.broadcast_pytree_shape([T("x", 2)], [[T("y", 2), T("z", 2)]]),
    lambda: utils.execute_binary_operator(lambda x, y: x + y, T("x", 2), [T("y", 2, 3)], "context"), lambda: utils.execute_binary_operator(lambda x, y: x - y, T("x", 2), [T("y", 2, 3)], "context"),
    lambda: utils.execute_binary_operator(lambda x, y: x - y, [T("y", 2, 3)], T("x", 2), "context"), lambda: utils.are_pytrees_equal(1, 1), lambda: utils.are_pytrees_equal(1, True), lambda: utils.are_pytrees_equal(1, 2),
    lambda: utils.are_pytrees_equal(T("x", 2), T("y", 2)), lambda: utils.are_pytrees_equal(T("x", 2), T("y", 2), False), lambda: utils.are_pytrees_equal(T("x", 2), T("y", 2), use_allclose=True),
    lambda: utils.jit_and_checkify(lambda x: x + 1)(T("x", 2)), lambda: utils.jit_and_checkify(lambda x: x - 1)(T("x", 2)), lambda: utils.jit_and_checkify(lambda x: x - 1)(T("y", 2))]
'''
HISTORIES = ["BUILDERS", "DEFINITIONS", "EDITS", "STEPS", "SIBLINGS", "LAYERS", "VALIDATION", "UTILITIES"]


def variant_scene(group):
    S = Scene(None)
    S.scn = None
    mod = S.eng.load_source("variants", VARIANTS.replace("T(", "T_("), "<variants>")

    def tensor(e, a, k):
        name, shape = a[0], tuple(a[1:])
        if not isinstance(name, str):
            name = "turn"
        if name in ("p", "r", "h", "h1", "h2"):
            D.declare(name + "." + group, 0, 1)
        return S.sym(name + "." + group, shape)
    S.eng.env_set(mod.env, "T_", OpaqueFn("T", tensor))

    def call(f):
        J.UNROLL[0], u = 2, J.UNROLL[0]
        try:
            return S.run(lambda: S.eng.call(f, [], {}))
        finally:
            J.UNROLL[0] = u
    return S, call


def c31_history(R, group):
    """every call as the first one, and after all the others"""
    def fresh():
        S, call = variant_scene(group)
        return S, [(lambda f=f: call(f)) for f in S.eng.cell(S.eng.module_get(S.eng.modules["variants"], group)).items]
    n = len(fresh()[1])
    alone = []
    for i in range(n):
        S, fs = fresh()
        alone.append((S, fs[i]()))
    for order in (range(n), range(n - 1, -1, -1)):
        S, fs = fresh()
        for i in order:
            same_run(R, S, fs[i](), *alone[i], f"{group.lower()}, call {i}")
        R.saw(S)


def c31_pairs(R):
    def fresh(side):
        S, call = variant_scene("PAIRS")
        return S, [(lambda p=p: call(p[side])) for p in S.eng.cell(S.eng.module_get(S.eng.modules["variants"], "PAIRS")).items]
    n = len(fresh(0)[1])
    for i in range(n):
        (S0, a), (S1, b) = fresh(0), fresh(1)
        same_run(R, S0, a[i](), S1, b[i](), f"containers changed between calls, pair {i}")
    R.saw(S0)


def same_run(R, S, r, S1, r1, label):
    rule = "an operation gives what it would give if it were the first"
    gone = lambda r: D.bor(D.FALSE, *[x.pc for x in r.raises])
    R.equal_nodes(rule, gone(r), gone(r1), D.TRUE, label + ": errors")
    if r.ok != r1.ok:
        R.add(rule, "violated", f"{label} raises {'after other calls' if r1.ok else 'as the first call'} only")
    elif r.ok:
        same_export(R, exported(S, r.value), exported(S1, r1.value), D.band(r.pc, r1.pc), label)


def same_outcome(R, S, r1, r2, label):
    rule = "the same arguments give the same result, whatever happened in between"
    gone = lambda r: D.bor(D.FALSE, *[x.pc for x in r.raises])
    if not r1.ok or not r2.ok:
        R.add(rule, "held" if r1.ok == r2.ok else "violated", f"{label}: {'the first' if r2.ok else 'the second'} of two equal calls raises")
    else:
        R.equal_nodes("an operation raises on equal arguments each time or never", gone(r1), gone(r2), D.TRUE, label)
        R.equal(rule, S, r2.value, r1.value, D.band(r1.pc, r2.pc), label)


def others(S, scn):
    """unrelated objects are used in the same way"""
    eng = S.eng
    saved = S.scn, S.tag, S.same, S.shared, S.__dict__.get("fields")
    for k, other in enumerate((Scn("another", (3,), {"a": L(2), "other": [L(), {"k": L(2, 2)}]}), scn)):
        S.same = {} if k == 0 else saved[2]
        S.scn, S.tag, S.shared = other, f"~{k}", {}
        try:
            S.use_everything()
        except (Undecided, PathDead):
            pass
    S.scn, S.tag, S.same, S.shared = saved[:4]
    if saved[4] is not None:
        S.fields = saved[4]


def kept_numbers(S):
    """the numbers that modules, classes and functions of the package keep between calls: name -> (value, how to set it)"""
    eng = S.eng
    out, seen = {}, set()

    def visit(key, v, put, depth=0):
        if isinstance(v, bool) or depth > 4:
            return
        if isinstance(v, (int, float, Fraction, ScalarV)):
            out[key] = (v, put)
        elif isinstance(v, Ref):
            if v.id in seen:
                return
            seen.add(v.id)
            c = eng.cell(v)
            if isinstance(c, DictCell):
                for h, (k, x) in list(c.items.items()):
                    visit(f"{key}[{k!r}]", x, lambda y, k=k: eng.setitem(v, k, y), depth + 1)
            elif isinstance(c, ListCell):
                for i, x in enumerate(c.items):
                    visit(f"{key}[{i}]", x, lambda y, i=i: eng.setitem(v, i, y), depth + 1)
            elif isinstance(c, ObjCell):
                for n, x in list(c.attrs.items()):
                    visit(f"{key}.{n}", x, lambda y, n=n: eng.setattr_(v, n, y), depth + 1)
        elif isinstance(v, ClassV) and id(v) not in seen and str(getattr(v.module, "name", v.module)).startswith("src"):
            seen.add(id(v))
            for n, x in list(v.ns.items()):
                visit(f"{v.name}.{n}", x, lambda y, n=n: v.ns.__setitem__(n, y), depth + 1)
        elif isinstance(v, FuncV) and id(v) not in seen:
            seen.add(id(v))
            for n, x in list(v.attrs.items()):
                visit(f"{v.name}.{n}", x, lambda y, n=n: v.attrs.__setitem__(n, y), depth + 1)
            for i, x in enumerate(list(v.defaults or []) + list((v.kwdefaults or {}).values())):
                if isinstance(x, Ref):
                    visit(f"{v.name}(default {i})", x, lambda y: None, depth + 1)
    for name, m in sorted(eng.modules.items()):
        if m is not None and m.path is not None and name.startswith("src"):
            for n, v in list(eng.cell(m.env).vars.items()):
                visit(f"{name}.{n}", v, lambda y, m=m, n=n: eng.env_set(m.env, n, y))
    return out


def counted(S, go):
    """numbers that each run of go changes stand for any later value; which ones there are"""
    a = kept_numbers(S)
    S.run(go)
    b = kept_numbers(S)
    S.run(go)
    c = kept_numbers(S)
    names = []
    for key, (v, put) in c.items():
        was = b.get(key, (None,))[0]
        if was is None or isinstance(v, ScalarV) or isinstance(was, ScalarV) or v == was:
            continue
        sym = "count." + key
        D.declare(sym, *((v, None) if v > was else (None, v)))
        put(ScalarV(D.leaf(D.psym(sym)), "int" if isinstance(v, int) else "float"))
        names.append(key)
    return names


def c31_op(R, scn, k):
    S = Scene(scn)
    label, pend, mk, new = op_table(S, scn)[k]
    st = S.state(pend)
    roots, go = mk(st)
    r1 = S.run(go)
    others(S, scn)
    r2 = S.run(go)
    same_outcome(R, S, r1, r2, label)
    names = counted(S, go)
    if names:
        same_outcome(R, S, r1, S.run(go), f"{label}, at any value of {', '.join(names)}")
    # equal arguments, other objects
    S.tag = ""
    st2 = S.state(pend)
    _, go2 = op_table(S, scn)[k][2](st2)
    same_outcome(R, S, r1, S.run(go2), label + " on an equal object")
    R.saw(S)


def exported(S, v, path="result", seen=()):
    """a value as a list of (path, shape of the thing, node or constant), comparable across engines; attributes kept for internal use are left out"""
    eng = S.eng
    if isinstance(v, PhiV):
        return [(path, "alternative", v.cond)] + exported(S, v.a, path + "<then>", seen) + exported(S, v.b, path + "<else>", seen)
    if isinstance(v, TensorV):
        return [(path, ("tensor", v.shape, v.dtype), J.kindnode(v))]
    if isinstance(v, (ScalarV, BoolV)):
        return [(path, type(v).__name__, v.node)]
    if isinstance(v, tuple):
        return [(path, ("tuple", len(v)), None)] + [y for i, x in enumerate(v) for y in exported(S, x, f"{path}[{i}]", seen)]
    if isinstance(v, Ref):
        if v.id in seen:
            return [(path, "again", None)]
        seen = seen + (v.id,)
        c = eng.cell(v)
        if isinstance(c, ListCell):
            return [(path, ("list", len(c.items)), None)] + [y for i, x in enumerate(c.items) for y in exported(S, x, f"{path}[{i}]", seen)]
        if isinstance(c, DictCell):
            return [(path, ("dict", tuple(map(str, c.items))), None)] + [y for k, x in c.items.values() for y in exported(S, x, f"{path}[{k!r}]", seen)]
        if isinstance(c, ObjCell):
            return [(path, ("object", getattr(c.cls, "name", str(c.cls))), None)] + \
                   [y for n in sorted(c.attrs) if not n.startswith("_") for y in exported(S, c.attrs[n], f"{path}.{n}", seen)]
        return [(path, type(c).__name__, None)]
    if v is None or isinstance(v, (int, float, str, bool, Fraction)):
        return [(path, repr(v), None)]
    return [(path, type(v).__name__, None)]


def same_export(R, x, y, pc, what):
    rule = "an operation gives what it would give if it were the first"
    a, b = [e[:2] for e in x], [e[:2] for e in y]
    if a != b:
        i = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
        R.add(rule, "violated", f"{what}: {a[i:i + 1]} after another object was used, {b[i:i + 1]} otherwise")
        return
    for (path, kind, n), (_, _, m) in zip(x, y):
        if isinstance(n, D.Node):
            R.equal_nodes(rule, n, m, pc, f"{what}: {path}")
        else:
            R.add(rule, "held")


TAG = "@later"


def forget(eng):
    """objects that nothing in the package holds are gone: their id numbers may come again"""
    kept = eng.B.reachable(eng)
    eng.ids_free = [(eng.B.kind_of(eng.cell(v)), num) for num, v in eng.ids.values() if isinstance(v, Ref) and v.id not in kept]


def c31_first(R, scn, k):
    """on a second object, in an engine in which the operation was used on another one before and in one where it was not"""
    out = []
    for before in (True, False):
        S = Scene(scn)
        label, pend, mk, new = op_table(S, scn)[k]
        if before:
            S.run(mk(S.state(pend))[1])
            forget(S.eng)
        S.tag = TAG
        for n, lo, hi in (("newp", 0, 1), ("newi", 0, None)):
            D.declare(n + TAG, lo, hi)
        r = S.run(op_table(S, scn)[k][2](S.state(pend))[1])
        out.append((S, r))
        R.saw(S)
    (S1, r1), (S2, r2) = out
    gone = lambda r: D.bor(D.FALSE, *[x.pc for x in r.raises])
    R.equal_nodes("an operation gives what it would give if it were the first", gone(r1), gone(r2), D.TRUE, label + ": errors")
    if r1.ok != r2.ok:
        R.add("an operation gives what it would give if it were the first", "violated", f"{label} raises in one of the two cases")
    elif r1.ok:
        same_export(R, exported(S1, r1.value), exported(S2, r2.value), D.band(r1.pc, r2.pc), label)


def c31_loop(R, scn):
    for cls in ("GenericLayer", "GenericFlaxLayer"):
        S = Scene(scn)
        ly = Layer(S, cls)

        def once():
            J.UNROLL[0], u = 2, J.UNROLL[0]
            try:
                return S.run(lambda: ly.execute(ly.init, 1.0, 2))
            finally:
                J.UNROLL[0] = u
        r1 = once()
        others(S, scn)
        r2 = once()
        same_outcome(R, S, r1, r2, f"execute_act of a {cls}")
        R.saw(S)


def c31_utils(R):
    S = Scene(None)
    eng = S.eng
    S.scn = None
    op = OpaqueFn("OP", lambda e, a, k: J.arith(e, "sub", a[0], a[1]))
    one = lambda: eng.new_dict([("a", S.sym("p", (2, 3))), ("b", (S.sym("q", (2,)),))])
    two = lambda: eng.new_dict([("a", S.sym("r", (2,))), ("b", (S.sym("s", (2, 4)),))])
    lst = lambda: eng.new_list([S.sym("u", (2, 3)), (S.sym("v", ()),)])
    calls = [("setup_left_broadcast", lambda: [S.sym("y", (2,)), S.sym("x", (2, 3))]), ("merge_pytrees", lambda: [op, one(), one()]),
             ("execute_binary_operator", lambda: [op, one(), two(), CONTEXT]), ("execute_binary_operator", lambda: [op, two(), one(), CONTEXT]),
             ("execute_binary_operator", lambda: [op, one(), lst(), CONTEXT]), ("broadcast_pytree_shape", lambda: [S.sym("x", (2, 3)), lst()]),
             ("broadcast_pytree_shape", lambda: [lst(), one()]), ("are_pytree_structure_equal", lambda: [one(), two()]), ("are_pytree_structure_equal", lambda: [one(), lst()]),
             ("are_pytrees_equal", lambda: [one(), one()]), ("are_pytrees_equal", lambda: [lst(), one()]), ("format_error_message", lambda: ["some\n message", CONTEXT]),
             ("can_right_broadcast", lambda: [S.sym("x", (2, 3)), S.sym("y", (3,))]), ("can_right_broadcast", lambda: [S.sym("x", (2, 3)), S.sym("y", (2,))])]
    first = [S.run(lambda: eng.call(S.util(n), mk(), {})) for n, mk in calls]
    for (n, mk), r1 in zip(calls[::-1], first[::-1]):
        same_outcome(R, S, r1, S.run(lambda: eng.call(S.util(n), mk(), {})), n)
    R.saw(S)


# ---------------------------------------------------------------------- C25


def c25(R, tier):
    """an operation is the same function of its inputs whether its tensors are traced or not"""
    from .c_state import C12_MORE, C12_SCENES, traced_ops
    for scn in C12_SCENES + (C12_MORE + generated(8, small=True, seed="C25") if tier == "thorough" else []):
        for k in range(len(traced_ops(Scene(scn), scn))):
            R.block(f"{scn.name}, {traced_ops(Scene(scn), scn)[k][0]}", c25_op, R, scn, k)
    from .c_layer import C19_MORE, C19_SCENES
    for scn in C19_SCENES + (C19_MORE if tier == "thorough" else []):
        for cls in ("GenericLayer", "GenericFlaxLayer"):
            for check in (True, False):
                R.block(f"{scn.name}, {cls}, checking {check}", c25_layer, R, scn, cls, check)
    R.block("utilities", c25_utils, R)


def traced_way(S, way, f, args):
    """f on args eagerly, as the function given to jit, or with the tensors traced by something around it"""
    g = BuiltinV("driver", lambda e, a, k: f(*a))
    if way == "jit":
        return S.run(lambda: S.eng.call(JitV(g, "jit"), list(args), {}))
    return S.run(lambda: f(*args))


def as_data(S, v):
    """what jit hands back: numbers and truth values are arrays without dimensions, dictionaries come in sorted order"""
    out = []
    for path, kind, n in exported(S, v):
        if isinstance(kind, tuple) and kind[0] == "dict":
            kind = ("dict", tuple(sorted(kind[1])))
        if isinstance(kind, tuple) and kind[0] == "tensor" and kind[1] == ():
            kind = "number"
        elif kind in ("ScalarV", "BoolV"):
            kind = "number"
        elif n is None and isinstance(kind, str) and kind in ("True", "False"):
            kind, n = "number", D.TRUE if kind == "True" else D.FALSE
        elif n is None and isinstance(kind, str):
            try:
                n = D.num(Fraction(kind) if "Fraction" not in kind else Fraction(kind[9:-1].replace(", ", "/")))
                kind = "number"
            except (ValueError, ZeroDivisionError):
                pass
        out.append((path, kind, n))
    return sorted(out, key=lambda x: x[0])


def same_traced(R, S0, r0, S1, r1, label):
    rule = "an operation gives traced what it gives eagerly"
    gone = lambda r: D.bor(D.FALSE, *[x.pc for x in r.raises])
    R.equal_nodes("an operation raises traced exactly when it raises eagerly", gone(r1), gone(r0), D.TRUE, label + ": errors")
    if r0.ok != r1.ok:
        R.add(rule, "violated", f"{label} raises {'traced' if r0.ok else 'eagerly'} only")
        return
    if not r0.ok:
        a, b = {r0.exc_name(x) for x in r0.raises}, {r1.exc_name(x) for x in r1.raises}
        R.add("an operation raises the same error traced and eagerly", "held" if a == b else "violated", f"{label}: {sorted(b)} traced, {sorted(a)} eagerly")
        return
    x, y = as_data(S1, r1.value), as_data(S0, r0.value)
    a, b = [e[:2] for e in x], [e[:2] for e in y]
    if a != b:
        i = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
        R.add(rule, "violated", f"{label}: {a[i:i + 1]} traced, {b[i:i + 1]} eagerly")
        return
    g = D.band(r0.pc, r1.pc)
    for (path, kind, n), (_, _, m) in zip(x, y):
        if isinstance(n, D.Node):
            R.equal_nodes(rule, n, m, g, f"{label}: {path}")
        else:
            R.add(rule, "held")


def c25_op(R, scn, k):
    from .c_state import traced_ops
    out = []
    for way in ("eager", "jit"):
        S = Scene(scn)
        label, pend, f, extra = traced_ops(S, scn)[k]
        st = S.state(pend)
        first = S.controller(st) if label in ("controller as argument and result",) else st
        out += [S, traced_way(S, way, f, [first] + [x() for x in extra])]
        R.saw(S)
    same_traced(R, *out, label)


def c25_layer(R, scn, cls, check):
    out = []
    for way in ("eager", "jit"):
        S = Scene(scn)
        ly = Layer(S, cls)

        def f(init, made):
            ly.set("MADE", made)
            return ly.execute(init, 1.0, 2, check)
        u = J.UNROLL[0]
        J.UNROLL[0] = 2
        try:
            out += [S, traced_way(S, way, f, [ly.init, ly.made])]
        finally:
            J.UNROLL[0] = u
        R.saw(S)
    same_traced(R, *out, "execute_act")


def c25_utils(R):
    calls = [("setup_left_broadcast", lambda S: (S.sym("x", (2,)), S.sym("y", (2, 3))), ()),
             ("can_right_broadcast", lambda S: (S.sym("x", (2,)), S.sym("y", (3, 2))), ()),
             ("broadcast_pytree_shape", lambda S: (S.sym("x", (2,)), S.eng.new_list([S.sym("y", (2, 3)), S.sym("z", ())])), ()),
             ("merge_pytrees", lambda S: (S.eng.new_list([S.sym("y", (2,)), S.sym("z", (2,))]), (S.sym("v", (2,)), S.sym("w", (2,)))), ("F",)),
             ("execute_binary_operator", lambda S: (S.sym("y", (2,)), (S.sym("v", (2,)), S.sym("w", (2,)))), ("F", CONTEXT)),
             ("are_pytree_structure_equal", lambda S: (S.sym("y", (2,)), (S.sym("v", (2,)), S.sym("w", (2,)))), ()),
             ("are_pytree_structure_equal", lambda S: ((S.sym("y", (2,)), S.sym("z", (2,))), (S.sym("v", (2,)), S.sym("w", (2,)))), ())]
    for name, mk, extra in calls:
        out = []
        for way in ("eager", "jit"):
            S = Scene(None)
            S.scn = None
            pair = OpaqueFn("F", lambda e, a, k: J.arith(e, "sub", a[0], a[1]))

            def f(*a):
                return S.call(S.util(name), *([pair] if "F" in extra else []), *a, *(["context"] if CONTEXT in extra else []))
            out += [S, traced_way(S, way, f, mk(S))]
            R.saw(S)
        same_traced(R, *out, name)
