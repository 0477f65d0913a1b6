"""Checks of the layers: C18 (contract), C19 (the loop), C22 (lazy parameters) and the traced layer of C12."""
from . import domain as D
from . import jaxmodel as J
from .harness import *
from .c_state import builder_cls, ext, jitted, keep, make_builder, make_viewer, opaque_fn
from .values import *

# A layer of which nothing is known: what it makes, proposes and returns are
# arbitrary functions of what it is given. LOG records the calls it receives.
LAYER = '''
import jax
from typing import NamedTuple
from src.jax_act.core.controller import ACT_Controller
from src.jax_act.layers.act import AbstractACTTemplate
from src.jax_act.frameworks.flax import FlaxACTLayer

LOG = []


def record(*item):
    LOG.append(item)


class GenericLayer(AbstractACTTemplate):
    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        record("make", initial_state, depression_constant, args, kwargs)
        return MADE

    def setup_lazy_parameters(self, controller, state):
        record("setup", controller, state)
        return SETUP(self, controller, state)

    def run_iteration(self, controller, state):
        record("run", controller, state)
        return RUN(controller, state)


class GenericFlaxLayer(FlaxACTLayer):
    def setup(self):
        pass

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        record("make", initial_state, depression_constant, args, kwargs)
        return MADE

    def run_iteration(self, controller, state):
        record("run", controller, state)
        return RUN(controller, state)


def conforming(controller, state):
    for name in NAMES:
        controller = controller.cache_update(name, jax.tree_util.tree_map(UPD, DEFAULTS[name]))
    controller = controller.iterate_act(HPF(state["h"]))
    return controller, jax.tree_util.tree_map(NEXT, state)


def nothing(layer, controller, state):
    pass


def runs_once(layer, controller, state):
    return layer.run_iteration(controller, state)


def answers(layer, controller, state):
    return (None, "something else")


def identity(controller, state):
    return controller, state


class Outcome(NamedTuple):
    controller: object
    state: object


class Pair(tuple):
    pass


class SpecialController(ACT_Controller):
    pass


def named(controller, state):
    return Outcome(*conforming(controller, state))


def named_swapped(controller, state):
    controller, state = conforming(controller, state)
    return Outcome(state=state, controller=controller)


def pair(controller, state):
    return Pair(conforming(controller, state))


def special(controller, state):
    controller, state = conforming(controller, state)
    return SpecialController(controller.save()), state


def rebuilt(controller, state):
    return ACT_Controller(controller.save()), state


def same_state(controller, state):
    controller, _ = conforming(controller, state)
    return controller, state
'''


class Layer:
    """a harness layer in a scene"""

    def __init__(self, S, cls="GenericLayer", setup="nothing", run="conforming", made=None, state=None):
        self.S = S
        eng = S.eng
        self.mod = eng.modules.get("harness_layer")
        if self.mod is None:
            self.mod = eng.load_source("harness_layer", LAYER, "<harness layer>")
            if WARM[0]:
                self.warm_up(S)
        self.set("LOG", eng.new_list([]))
        self.made = made if made is not None else S.controller(S.state("none") if state is None else state)
        self.fields = dict(S.fields) if hasattr(S, "fields") else None
        self.set("MADE", self.made)
        self.set("NAMES", tuple(S.scn.accs))
        self.set("DEFAULTS", S.accs("seed", True))
        self.set("UPD", opaque_fn("UPD"))
        self.set("NEXT", opaque_fn("NEXT"))
        self.set("HPF", opaque_fn("HPF"))
        self.set("SETUP", self.get(setup) if isinstance(setup, str) else setup)
        self.set("RUN", self.get(run) if isinstance(run, str) else run)
        self.layer = eng.call(self.get(cls), [], {})
        self.init = eng.new_dict([("h", S.sym("h", S.scn.batch, S.scn.core)), ("m", (S.sym("m0", S.scn.batch + (3,)), eng.new_list([S.sym("m1", ())])))])

    def warm_up(self, S):
        """layers of the same classes have run before"""
        saved = S.tag, S.shared, S.__dict__.get("fields")
        u = J.UNROLL[0]
        for cls in ("GenericLayer", "GenericFlaxLayer"):
            for check in (True, False):
                S.tag, S.shared = f"~{cls}{check}", {}
                ly = Layer(S, cls)
                J.UNROLL[0] = 1
                try:
                    S.run(lambda: ly.execute(ly.init, 0.5, 1, check, 7, width=3))
                finally:
                    J.UNROLL[0] = u
        S.tag, S.shared = saved[:2]
        if saved[2] is not None:
            S.fields = saved[2]

    def get(self, n):
        return self.S.eng.module_get(self.mod, n)

    def set(self, n, v):
        self.S.eng.env_set(self.mod.env, n, v)

    def log(self):
        """the calls received, when they are the same on every path"""
        v = self.get("LOG")
        c = self.S.eng.cell(v)
        return list(c.items) if isinstance(c, ListCell) else None

    def execute(self, *a, **k):
        return self.S.m(self.layer, "execute_act", *a, **k)


def value_fn(name, v):
    """a function that returns the given value whatever it is given"""
    return OpaqueFn(name, lambda eng, a, k: v(*a) if callable(v) and not isinstance(v, Value) else v)


# ---------------------------------------------------------------------- C18

C18_SCENES = [Scn("two", (2, 3), {"b": L(5), "a": [L(), {"k": L(4)}]}), Scn("one", (4,), {"a": L(4)}, scal="arr")]
C18_SCENES += [Scn("records", (2,), {"r": named(y=L(2), x=[L()]), "n": node(q=L(5), p=L())})]
C18_SCENES += [Scn("leafless", (2,), {"a": {}}), Scn("partly leafless", (1,), {"a": (), "b": L(), "c": [None]})]
C18_MORE = [Scn("three", (2,), {"c": L(2), "a": (L(), L(3)), "b": L(2, 2)}), Scn("rank0", (), {"a": L(2), "b": L()})]


def wrapper(S, layer, check):
    return S.eng.call(S.cls("ContractValidationWrapper", "layers.core"), [layer, check], {})


def c18(R, tier):
    for scn in C18_SCENES + C18_MORE + (generated(12, small=True, seed="C18") if tier == "thorough" else []):
        R.block(f"{scn.name}, making a controller", c18_make, R, scn)
        R.block(f"{scn.name}, running an iteration", c18_run, R, scn)
        R.block(f"{scn.name}, inside execute_act", c18_execute, R, scn)


def oddities(S, st):
    """things that are not a controller"""
    return [("None", None), ("a builder", make_builder(S, st)), ("a viewer", make_viewer(S, st)), ("a state", st), ("a tensor", S.sym("x", S.scn.batch)),
            ("a dict", S.eng.new_dict([])), ("a number", 3), ("a tuple", (S.controller(st),)), ("a pair", (S.controller(st), S.sym("x", S.scn.batch)))]


def c18_make(R, scn):
    S = Scene(scn)
    eng = S.eng
    st = S.state("none")
    ly = Layer(S)
    empty = S.m(S.m(builder_cls(S), "new_builder", eng.new_list(list(scn.batch))), "build")
    good = [("a controller", S.controller(st)), ("a controller of a subclass", S.call(ly.get("SpecialController"), st)), ("a controller with updates pending", S.controller(S.state("all"))), ("the same controller", ly.made)]
    args, kw = (S.sym("extra", (2,)), "flag"), dict(option=3, depression_constant=0.5)
    for label, v in good:
        for check in (True, False):
            ly.set("MADE", v)
            n0 = len(ly.log())
            r = S.run(lambda: S.m(wrapper(S, ly.layer, check), "make_controller", ly.init, *args[:0], **kw))
            if R.no_raise("a conforming layer never raises", r, D.TRUE, f"making {label}"):
                R.add("what the layer made is passed on unchanged", "held" if isinstance(r.value, Ref) and r.value.id == v.id else "violated",
                      f"making {label}, checking {check}: {describe(eng, r.value)}")
                log = ly.log()[n0:]
                R.equal("the layer is given what it was called with, once", S, tuple(log),
                        (("make", ly.init, 0.5, (), eng.new_dict([("option", 3)])),), r.pc, "calls")
            n0 = len(ly.log())
            r = S.run(lambda: S.m(wrapper(S, ly.layer, check), "make_controller", ly.init, 0.25, *args))
            if R.no_raise("a conforming layer never raises", r, D.TRUE, f"making {label}"):
                R.equal("the layer is given what it was called with, once", S, tuple(ly.log()[n0:]),
                        (("make", ly.init, 0.25, args, eng.new_dict([])),), r.pc, "calls")
    for label, v in oddities(S, st):
        ly.set("MADE", v)
        r = S.run(lambda: S.m(wrapper(S, ly.layer, True), "make_controller", ly.init, 1.0))
        R.must_raise("making something that is not a controller raises TypeError", r, ["TypeError"], D.TRUE, f"making {label}")
        r = S.run(lambda: S.m(wrapper(S, ly.layer, False), "make_controller", ly.init, 1.0))
        if R.no_raise("with checking off nothing is checked", r, D.TRUE, f"making {label}"):
            R.equal("what the layer made is passed on unchanged", S, r.value, v, r.pc, label)
    ly.set("MADE", empty)
    r = S.run(lambda: S.m(wrapper(S, ly.layer, True), "make_controller", ly.init, 1.0))
    R.must_raise("making a controller without accumulators raises RuntimeError", r, ["RuntimeError"], D.TRUE, "making an empty controller")
    r = S.run(lambda: S.m(wrapper(S, ly.layer, False), "make_controller", ly.init, 1.0))
    R.no_raise("with checking off nothing is checked", r, D.TRUE, "making an empty controller")
    R.saw(S)


def bad_runs(S, ly, c, st):
    """(label, expected exceptions, what run_iteration returns for (controller, state))"""
    scn, eng = S.scn, S.eng
    x = S.sym("x", scn.batch)
    other = lambda: S.controller(S.state("none"))
    out = [("a list", ["TypeError"], lambda a, b: eng.new_list([other(), b])), ("None", ["TypeError"], lambda a, b: None),
           ("a controller alone", ["TypeError"], lambda a, b: other()), ("a tensor", ["TypeError"], lambda a, b: x),
           ("a dict", ["TypeError"], lambda a, b: eng.new_dict([("controller", other()), ("state", b)])),
           ("an empty tuple", ["RuntimeError"], lambda a, b: ()), ("a tuple of one", ["RuntimeError"], lambda a, b: (other(),)),
           ("a tuple of three", ["RuntimeError"], lambda a, b: (other(), b, x)),
           ("state and controller swapped", ["TypeError"], lambda a, b: (b, other())), ("no controller in the tuple", ["TypeError"], lambda a, b: (None, b)),
           ("a builder in the tuple", ["TypeError"], lambda a, b: (make_builder(S, st), b)),
           ("a viewer in the tuple", ["TypeError"], lambda a, b: (make_viewer(S, st), b)),
           ("a state in the tuple", ["TypeError"], lambda a, b: (st, b)),
           ("the controller passed in", ["RuntimeError"], lambda a, b: (a, b)),
           ("the controller passed in with a new state", ["RuntimeError"], lambda a, b: (a, x))]
    names = list(scn.accs)
    for k in range(1, len(names) + 1):
        for some in ({tuple(names[:k]), tuple(names[-k:])}):
            out.append((f"updates of {list(some)} left uncommitted", ["RuntimeError"], lambda a, b, some=some: (S.controller(S.state(some)), b)))

    def cached(a, b):
        for n in names:
            a = S.m(a, "cache_update", n, S.tree(scn.accs[n], f"late.{n}", True))
        return (a, b)
    out.append(("everything cached, nothing committed", ["RuntimeError"], cached))

    def again(a, b):
        r = eng.call(ly.get("conforming"), [a, b], {})
        a = S.m(r[0], "cache_update", names[-1], S.tree(scn.accs[names[-1]], "late", True))
        return (a, b)
    out.append(("one update cached after the commit", ["RuntimeError"], again))
    return out


def c18_run(R, scn):
    S = Scene(scn)
    eng = S.eng
    st = S.state("none")
    c = S.controller(st)
    ly = Layer(S)
    for check in (True, False):
        n0 = len(ly.log())
        r = S.run(lambda: S.m(wrapper(S, ly.layer, check), "run_iteration", c, ly.init))
        if R.no_raise("a conforming layer never raises", r, D.TRUE, "run_iteration"):
            R.equal("the layer is given what it was called with, once", S, tuple(ly.log()[n0:]), (("run", c, ly.init),), r.pc, "calls")
        for label, v in (("another controller and state", (S.controller(S.state("none")), S.sym("y", scn.batch + (2,)))),
                         ("another controller and a tuple", (S.controller(S.state("none")), (1, 2, 3))),
                         ("another controller and None", (S.controller(S.state("none")), None))):
            ly.set("RUN", value_fn("RUN", v))
            r = S.run(lambda: S.m(wrapper(S, ly.layer, check), "run_iteration", c, ly.init))
            if R.no_raise("a conforming layer never raises", r, D.TRUE, f"returning {label}"):
                ok = isinstance(r.value, tuple) and len(r.value) == 2 and isinstance(r.value[0], Ref) and r.value[0].id == v[0].id
                R.add("what the layer returned is passed on unchanged", "held" if ok else "violated", f"returning {label}: {describe(eng, r.value)}")
                if ok:
                    R.equal("what the layer returned is passed on unchanged", S, r.value[1], v[1], r.pc, label)
        for label in ("named", "named_swapped", "pair", "special", "rebuilt", "same_state"):
            ly.set("RUN", ly.get(label))
            def f():
                out = S.m(wrapper(S, ly.layer, check), "run_iteration", c, ly.init)
                want = S.eng.call(ly.get("identity" if label in ("rebuilt",) else "conforming"), [c, ly.init], {})
                return (S.eng.getitem(out, 0), S.eng.getitem(out, 1), len(S.eng.iterate(out)), want)
            r = S.run(f)
            if R.no_raise("a conforming layer never raises", r, D.TRUE, f"run_iteration returning its result as: {label}"):
                a, b, n, want = r.value
                R.equal("what the layer returned is passed on unchanged", S, (S.get(a, "state"), b, n),
                        (S.get(want[0], "state"), ly.init if label in ("rebuilt", "same_state") else want[1], 2), r.pc, f"result as: {label}")
                cls = "SpecialController" if label == "special" else "ACT_Controller"
                R.add("the controller passed on is the layer's", "held" if S.eng.cell(a).cls.name == cls else "violated", f"result as {label}: {describe(eng, a)}")
        ly.set("RUN", ly.get("conforming"))
    for label, exc, f in bad_runs(S, ly, c, st):
        ly.set("RUN", value_fn("RUN", f))
        r = S.run(lambda: S.m(wrapper(S, ly.layer, True), "run_iteration", c, ly.init))
        R.must_raise("a broken contract is reported", r, exc, D.TRUE, f"returning {label}")
        r = S.run(lambda: S.m(wrapper(S, ly.layer, False), "run_iteration", c, ly.init))
        R.no_raise("with checking off nothing is checked", r, D.TRUE, f"returning {label}")
    R.saw(S)


def c18_execute(R, scn):
    """the same through execute_act, with checking on by default"""
    S = Scene(scn)
    eng = S.eng
    st = S.state("none")
    ly = Layer(S, state=st)
    c = ly.made
    for kw in ({}, dict(check_for_errors=True)):
        for label, exc, f in bad_runs(S, ly, c, st):
            ly.set("RUN", value_fn("RUN", f))
            r = S.run(lambda: ly.execute(ly.init, 1.0, 1, **kw))
            R.must_raise("a broken contract is reported by execute_act", r, exc, D.TRUE, f"run_iteration returning {label}")
        ly.set("RUN", ly.get("conforming"))
        for label, v in oddities(S, st):
            ly.set("MADE", v)
            r = S.run(lambda: ly.execute(ly.init, 1.0, 1, **kw))
            R.must_raise("a broken contract is reported by execute_act", r, ["TypeError"], D.TRUE, f"make_controller returning {label}")
        ly.set("MADE", S.m(S.m(builder_cls(S), "new_builder", eng.new_list(list(scn.batch))), "build"))
        r = S.run(lambda: ly.execute(ly.init, 1.0, 1, **kw))
        R.must_raise("a broken contract is reported by execute_act", r, ["RuntimeError"], D.TRUE, "make_controller returning an empty controller")
        ly.set("MADE", c)
        r = S.run(lambda: ly.execute(ly.init, 1.0, 1, **kw))
        R.no_raise("a conforming layer never raises", r, D.TRUE, "execute_act")
    # with checking off a layer that hands back its controller goes through
    ly.set("RUN", ly.get("identity"))
    r = S.run(lambda: ly.execute(ly.init, 1.0, 2, False))
    R.no_raise("with checking off nothing is checked", r, D.TRUE, "execute_act of a layer returning the controller passed in")
    ly.set("RUN", ly.get("conforming"))
    r = S.run(lambda: ly.execute(ly.init, check_for_errors=False, max_iterations=2))
    R.no_raise("a conforming layer never raises", r, D.TRUE, "execute_act, checking off")
    R.saw(S)


# ---------------------------------------------------------------------- C19

C19_SCENES = [Scn("vector", (4,), {"a": L(5)}), Scn("trees", (2, 3), {"z": L(), "a": [L(4), {"y": L()}]}, scal="arr"),
              Scn("fresh", (3,), {"a": L(2), "b": L(2)}, fresh=True)]
C19_MORE = [Scn("records", (2,), {"r": named(y=L(2), x=[L()]), "n": node(q=L(5), p=L())}), Scn("rank0", (), {"a": [L(), L(5)]}), Scn("single", (1,), {"b": {"k": L(2)}, "a": L()}),
            Scn("half", (3,), {"a": L(3), "b": L()}, core="bfloat16")]


def c19(R, tier):
    for scn in C19_SCENES + (C19_MORE if tier == "thorough" else []):
        for cls in ("GenericLayer", "GenericFlaxLayer"):
            for m in ([0, 1, 2] if tier == "quick" else [0, 1, 2, 3]) + ["any"]:
                for check in (True, False):
                    if not check and m in (0, 1) and tier == "quick":
                        continue
                    R.block(f"{scn.name}, {cls}, max_iterations {m}, checking {check}", c19_scene, R, scn, cls, m, check, 3 if tier == "thorough" else 2)
        R.block(f"{scn.name}, calling conventions", c19_args, R, scn)
    for m in (None, 4, 10, 11, 37) if tier == "quick" else (None, 4, 10, 11, 20, 37, 64, 150):
        for cls in ("GenericLayer", "GenericFlaxLayer"):
            for check in (True, False):
                R.block(f"{cls}, a long run of {m or 'the default number of'} iterations, checking {check}", c19_default, R, cls, m, check)
    for m, p, e, n in ((40, (1, 20), (1, 10), 19), (7, (1, 20), (1, 10), 7), (30, (1, 32), (3, 4), 9), (12, (1, 4), (1, 1000), 4), (100, (1, 50), (1, 25), 49)):
        for cls in ("GenericLayer", "GenericFlaxLayer"):
            R.block(f"{cls}, a run of {n} of at most {m} iterations", c19_default, R, cls, m, True, Fraction(*p), Fraction(*e), n)


def reference(S, ly, c, s, bound, steps):
    """the documented loop, unrolled and gated: (controller, state, condition under which it has ended)"""
    eng = S.eng
    live = D.TRUE
    leaves, td = J.tree_flatten(eng, (c, s))
    for k in range(steps + 1):
        cur = J.tree_unflatten(eng, td, leaves)
        p = S.get(S.get(cur[0], "state"), "probabilities")
        e = numnode(eng, S.get(S.get(cur[0], "state"), "epsilon"))
        running = D.bnot(D.reduce_all(D.gt(J.kindnode(p), D.sub(D.num(1), e))))
        live = D.band(live, running, D.gt(bound, D.num(k)))
        if k == steps or live is D.FALSE:
            break
        r = eng.call(ly.get("conforming"), [cur[0], cur[1]], {})
        new, td2 = J.tree_flatten(eng, r)
        leaves = [merge_leaf(eng, live, b, a) for a, b in zip(leaves, new)]
    return J.tree_unflatten(eng, td, leaves), D.bnot(live)


def merge_leaf(eng, g, a, b):
    x, y = J.to_tensor(eng, a), J.to_tensor(eng, b)
    return TensorV(x.shape, x.dtype, D.ite(g, J.kindnode(x), J.kindnode(y)), x.weak and y.weak, None)


def ctrl_fields(S, c):
    st = S.get(c, "state")
    f = {n: S.get(st, n) for n in ("iterations", "residuals", "probabilities", "defaults", "accumulators", "updates", "error_mode")}
    for n in ("epsilon", "depression_constant"):
        f[n] = Num(numnode(S.eng, S.get(st, n)))
    return Like(S.cls("ACT_Controller", "core.controller"), state=Like(S.cls("ACTStates", "core.states"), **f))


def c19_scene(R, scn, cls, m, check, steps):
    S = Scene(scn)
    eng = S.eng
    ly = Layer(S, cls)
    if m == "any":
        D.declare("maxit", 0)
        bound = D.leaf(D.psym("maxit"))
        arg = TensorV((), "int32", bound, True, None)
    else:
        bound, arg = D.num(m), m
        steps = m
    unroll = J.UNROLL[0]
    J.UNROLL[0] = steps
    try:
        r = S.run(lambda: ly.execute(ly.init, 1.0, arg, check))
    finally:
        J.UNROLL[0] = unroll
    what = f"max_iterations={m}"
    if not R.no_raise("the loop runs without raising", r, D.TRUE, what):
        R.saw(S)
        return
    r2 = S.run(lambda: reference(S, ly, ly.made, ly.init, bound, steps))
    (c, s), ended = r2.value
    g = D.band(r.pc, r2.pc, ended)
    got = r.value
    if not (isinstance(got, tuple) and len(got) == 2):
        R.add("execute_act returns the controller and the state", "violated", f"{what}: {describe(eng, got)}")
        R.saw(S)
        return
    R.add("execute_act returns the controller and the state", "held")
    # the analysed histories are those in which the documented loop has ended
    R.holds("the loop ends no later than the documented one", r.pc, D.band(ended, r2.pc), what)
    R.equal("the final controller is that of the documented loop", S, got[0], ctrl_fields(S, c), g, "controller")
    R.equal("the final state is that of the documented loop", S, got[1], s, g, "state")
    R.saw(S)


def c19_args(R, scn):
    S = Scene(scn)
    eng = S.eng
    D.declare("dep9", 0)
    dep = ScalarV(D.leaf(D.psym("dep9")))
    x = S.sym("extra", scn.batch + (2,))
    cases = [("defaults", (), {}, 1.0, (), {}), ("depression constant", (dep,), {}, dep, (), {}), ("by name", (), dict(depression_constant=dep, max_iterations=1), dep, (), {}),
             ("extra positions", (dep, 1, True, x, "flag", 7), {}, dep, (x, "flag", 7), {}), ("checking off", (dep, 1, False, x), {}, dep, (x,), {}),
             ("extra names", (dep, 1), dict(width=x, mode="m"), dep, (), dict(width=x, mode="m")),
             ("both", (dep, 2, True, 1, x), dict(width=3), dep, (1, x), dict(width=3)),
             ("names only", (), dict(check_for_errors=False, width=3, max_iterations=1), 1.0, (), dict(width=3))]
    for cls in ("GenericLayer", "GenericFlaxLayer"):
        for label, a, k, d, ea, ek in cases:
            S = Scene(scn)
            eng = S.eng
            ly = Layer(S, cls, run="conforming")
            J.UNROLL[0], u = 1, J.UNROLL[0]
            try:
                r = S.run(lambda: ly.execute(ly.init, *a, **k))
            finally:
                J.UNROLL[0] = u
            if not R.no_raise("the loop runs without raising", r, D.TRUE, label):
                continue
            log = ly.log()
            if log is None:
                log = [x for x in both_logs(eng, ly.get("LOG")) if x[0] == "make"]
            made = [y for y in log if y[0] == "make"]
            R.equal("make_controller is given the initial state, the depression constant and the extra arguments, once", S, tuple(made),
                    (("make", ly.init, Num(numnode(eng, d)), ea, eng.new_dict(list(ek.items()))),), r.pc, f"{label}: calls")
    R.saw(S)


def both_logs(eng, v):
    c = eng.cell(v)
    while isinstance(c, AltCell):
        c = c.a if isinstance(c.a, ListCell) else c.b
    return list(c.items)


def c19_default(R, cls, m, check, p=0, e=None, n=None):
    """a layer that never halts runs for exactly the maximum number of iterations, ten by default; one that gains p in each
    iteration for n of them"""
    scn = Scn("default", (2,), {"a": L()})
    S = Scene(scn)
    eng = S.eng
    zero, gain = (TensorV(scn.batch, scn.core, D.num(x)) for x in (0, p))
    st = S.state("none", probabilities=zero, **({} if e is None else dict(epsilon=ScalarV(D.num(e)), depression_constant=ScalarV(D.num(1)))))
    ly = Layer(S, cls, state=st)
    ly.set("HPF", OpaqueFn("HPF", lambda e, a, k: gain))
    ly.set("NEXT", OpaqueFn("NEXT", lambda e, a, k: J.arith(e, "add", a[0], 1)))
    ly.set("UPD", OpaqueFn("UPD", lambda e, a, k: a[0]))
    u = J.UNROLL[0]
    J.UNROLL[0] = (m or 10) + 4
    try:
        r = S.run(lambda: ly.execute(ly.init, check_for_errors=check, **({} if m is None else dict(max_iterations=m))))
    finally:
        J.UNROLL[0] = u
    if R.no_raise("the loop runs without raising", r, D.TRUE, "execute_act"):
        n = n if n is not None else 10 if m is None else m
        exp = TensorV(scn.batch, scn.core, D.add(S.node("h"), D.num(n)))
        R.equal("the loop runs until everything is halted or for the maximum number of iterations, ten by default", S, S.eng.getitem(r.value[1], "h"), exp, r.pc,
                f"max_iterations {'default' if m is None else m}: number of iterations")
        it = S.get(r.value[0], "iterations")
        R.equal("the loop runs until everything is halted or for the maximum number of iterations, ten by default", S, it,
                TensorV(scn.batch, scn.core, D.add(S.node("iter"), D.num(n))), r.pc, "iterations")
    R.saw(S)


# ---------------------------------------------------------------------- C22


def c22(R, tier):
    for scn in C19_SCENES + (C19_MORE if tier == "thorough" else []):
        for m in (0, 1, 2):
            for setup in ("nothing", "runs_once", "answers"):
                for check in (True, False):
                    R.block(f"{scn.name}, setup {setup}, max_iterations {m}, checking {check}", c22_scene, R, scn, setup, m, check)
        R.block(f"{scn.name}, flax setup", c22_flax, R, scn)
        R.block(f"{scn.name}, flax, execute_act", c22_flax_execute, R, scn)


def c22_scene(R, scn, setup, m, check):
    S = Scene(scn)
    eng = S.eng
    ly = Layer(S, setup=setup)
    J.UNROLL[0], u = m, J.UNROLL[0]
    try:
        r = S.run(lambda: ly.execute(ly.init, 1.0, m, check))
    finally:
        J.UNROLL[0] = u
    if not R.no_raise("the layer runs without raising", r, D.TRUE, f"setup {setup}"):
        R.saw(S)
        return
    log = ly.log()
    if log is None:
        raise Undecided("the calls the layer receives differ between paths")
    kinds = [x[0] for x in log]
    n = kinds.count("setup")
    R.add("setup_lazy_parameters is called exactly once", "held" if n == 1 else "violated", f"called {n} times")
    if n:
        i = kinds.index("setup")
        before = kinds[:i]
        R.add("the setup comes after making the controller and before the loop", "held" if before == ["make"] else "violated",
              f"calls before it: {before}")
        for x in log:
            if x[0] == "setup":
                R.equal("the setup is given the controller just made and the initial state", S, x[1:], (ctrl_fields(S, ly.made), ly.init), r.pc, "arguments")
    # the outcome is that of the loop from the controller made and the initial state
    r2 = S.run(lambda: reference(S, ly, ly.made, ly.init, D.num(m), m))
    (c, s), ended = r2.value
    g = D.band(r.pc, r2.pc, ended)
    got = r.value
    R.equal("what the setup does has no influence on the result", S, got, (ctrl_fields(S, c), s), g, "result")
    R.saw(S)


def c22_flax(R, scn):
    S = Scene(scn)
    eng = S.eng
    ly = Layer(S, "GenericFlaxLayer")
    mutable = eng.boolnode(S.m(ly.layer, "is_mutable_collection", "params"))
    c2 = S.controller(S.state("none"))
    s2 = eng.new_dict([("h", S.sym("other", scn.batch, scn.core))])
    frozen = freeze_all(S, {"controller": c2, "state": s2})
    r = S.run(lambda: S.m(ly.layer, "setup_lazy_parameters", c2, s2))
    if R.no_raise("the flax setup does not raise", r, D.TRUE, "setup_lazy_parameters"):
        once = eng.new_list([("run", c2, s2)])
        R.equal("one iteration is run exactly when the parameters are mutable", S, ly.get("LOG"), PhiV(mutable, once, eng.new_list([])), r.pc, "calls")
        check_frozen(R, "the setup changes nothing it is given", S, r, frozen)
    R.saw(S)


def c22_flax_execute(R, scn):
    S = Scene(scn)
    eng = S.eng
    ly = Layer(S, "GenericFlaxLayer")
    mutable = eng.boolnode(S.m(ly.layer, "is_mutable_collection", "params"))
    J.UNROLL[0], u = 1, J.UNROLL[0]
    try:
        r = S.run(lambda: ly.execute(ly.init, 1.0, 1))
    finally:
        J.UNROLL[0] = u
    if R.no_raise("the layer runs without raising", r, D.TRUE, "flax layer"):
        r2 = S.run(lambda: reference(S, ly, ly.made, ly.init, D.num(1), 1))
        (c, s), ended = r2.value
        R.equal("the iteration run for the parameters is discarded", S, r.value, (ctrl_fields(S, c), s), D.band(r.pc, r2.pc, ended), "result")
        # the first iteration is the one of the setup, on the untraced controller
        v = ly.get("LOG")
        for gate, items in log_paths(eng, eng.cell(v), r.pc):
            kinds = [x[0] for x in items]
            for want, g in ((True, D.band(gate, mutable)), (False, D.band(gate, D.bnot(mutable)))):
                if D.sat(g) is None or kinds.count("make") != 1:
                    continue
                runs = [x for x in items if x[0] == "run"]
                first = runs[0] if runs else None
                ref = first is not None and isinstance(first[1], Ref) and first[1].id == ly.made.id
                R.add("one iteration is run before the loop exactly when the parameters are mutable", "held" if ref == want else "violated",
                      f"{'mutable' if want else 'fixed'} parameters: {'an' if ref else 'no'} iteration on the controller just made")
    R.saw(S)


def log_paths(eng, c, g):
    if isinstance(c, AltCell):
        yield from log_paths(eng, c.a, D.band(g, c.cond))
        yield from log_paths(eng, c.b, D.band(g, D.bnot(c.cond)))
    elif isinstance(c, ListCell):
        yield g, list(c.items)


# ------------------------------------------------------- the layer under tracing


def traced_layer(R, tier):
    for scn in C19_SCENES + (C19_MORE if tier == "thorough" else []):
        for cls in ("GenericLayer", "GenericFlaxLayer"):
            for check in (True, False):
                for trace_all in (False, True):
                    for bound in (2, "traced"):
                        R.block(f"{scn.name}, {cls}, checking {check}, bound {bound}{', state and controller traced' if trace_all else ''}",
                                traced_scene, R, scn, cls, check, trace_all, bound)


def traced_scene(R, scn, cls, check, trace_all, bound):
    S = Scene(scn)
    eng = S.eng
    ly = Layer(S, cls)
    args = [ly.init]
    st = S.get(ly.made, "state")
    if trace_all:
        args.append(ly.made)
    if bound == "traced":
        D.declare("maxit", 0)
        args.append(TensorV((), "int32", D.leaf(D.psym("maxit")), True, None))

    def f(init, *rest):
        rest = list(rest)
        if trace_all:
            ly.set("MADE", rest.pop(0))
        return ly.execute(init, 1.0, rest.pop(0) if rest else bound, check)
    J.UNROLL[0], u = 2, J.UNROLL[0]
    try:
        r = jitted(S, f, *args)
    finally:
        J.UNROLL[0] = u
    R.traceable("execute_act can be traced", S, r, D.TRUE, "execute_act")
    R.saw(S)


# ---------------------------------------------------------------------- C26


def c26(R, tier):
    from .c_core import scenes as core_scenes
    for scn in core_scenes(tier):
        R.block(f"{scn.name}, one step", c26_step, R, scn)
    for scn in C19_SCENES + (C19_MORE if tier == "thorough" else []):
        for cls in ("GenericLayer", "GenericFlaxLayer"):
            half, one = Fraction(1, 2), Fraction(1)
            cases = [(1, one, "default"), (2, half, "default"), (2, one, 2), (3, one, 4)] if cls == "GenericLayer" else [(2, one, "default"), (2, half, 3)]
            if tier == "thorough":
                ns = (1, 2, 3, 4) if scn.name == "single" else (1, 2, 3) if scn.name in ("vector", "rank0") else (1, 2)
                cases = [(n, dep, limit) for n in ns for dep in (one, half) for limit in ("default", n)]
            for n, dep, limit in cases:
                check = n % 2 == 0 or limit == n
                R.block(f"{scn.name}, {cls}, {n} steps to go at depression {dep}, limit {limit}", c26_loop, R, scn, cls, n, dep, limit, check)


def c26_step(R, scn):
    """the ranking function: what is missing to one, for an element that is not halted"""
    S = Scene(scn)
    from .c_core import committed
    r, c = committed(S)
    if not R.no_raise("committing does not raise", r, D.TRUE, "iterate_act"):
        R.saw(S)
        return
    n = J.kindnode(S.get(r.value, "probabilities"))
    halted = J.kindnode(S.get(r.value, "halted_batches"))
    h = J.kindnode(S.hp())
    un = D.bnot(S.halted)
    inside = D.band(D.ge(h, D.num(0)), D.ge(D.num(1), h))
    R.holds("an element that is not halted comes closer by its halting probability times the depression constant, or is halted by the step",
            D.bor(halted, D.ge(n, D.add(S.p, D.mul(S.dep, h)))), D.band(r.pc, un, inside), "probabilities")
    R.holds("an element that is halted stays halted", halted, D.band(r.pc, S.halted), "halted_batches")
    R.saw(S)


def c26_loop(R, scn, cls, n, dep, limit, check):
    """a layer that gives every element at least 1/n of the way each time has halted everything after n iterations"""
    S = Scene(scn)
    eng = S.eng
    st = S.state("none", depression_constant=ScalarV(D.num(dep)))
    low = min(Fraction(1), Fraction(1, n) / dep)
    n = -(-1 // (low * dep))
    if limit != "default":
        limit = max(limit, int(n))
    ly = Layer(S, cls, state=st)
    calls = []

    def gain(e, a, k):
        calls.append(None)
        D.declare(f"gain{len(calls)}", low, 1)
        return S.sym(f"gain{len(calls)}", scn.batch, scn.core)
    ly.set("HPF", OpaqueFn("HPF", gain))
    before = {f: J.kindnode(J.to_tensor(eng, S.get(ly.made, f))) for f in ("iterations",)}
    u = J.UNROLL[0]
    J.UNROLL[0] = int(n)
    try:
        r = S.run(lambda: ly.execute(ly.init, 1.0, check_for_errors=check, **({} if limit == "default" else dict(max_iterations=limit))))
    finally:
        J.UNROLL[0] = u
    if not R.no_raise("the loop runs without raising", r, D.TRUE, "execute_act"):
        R.saw(S)
        return
    R.holds("the loop ends after as many iterations as the gain makes necessary", r.pc, D.TRUE, f"gain {low * dep} a step")
    halted = J.kindnode(S.get(r.value[0], "halted_batches"))
    R.holds("everything is halted when the loop ends before its limit", halted, r.pc, "halted_batches")
    it = J.kindnode(J.to_tensor(eng, S.get(r.value[0], "iterations")))
    R.holds("no element takes more iterations than the gain makes necessary", D.le(it, D.add(before["iterations"], D.num(n))), r.pc, "iterations")
    R.saw(S)
