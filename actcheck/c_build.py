"""Checks of construction and editing: C13 (builder definitions), C14 (new builder), C15 and C16 (editor)."""
from . import domain as D
from . import jaxmodel as J
from .harness import *
from .c_core import leaves_of_spec
from .c_state import (FIELDS, any_dict, builder_cls, delete_name, editor_cls, ext, is_state, keep, make_builder, make_editor, make_viewer,
                      state_of)
from .values import *

# ---------------------------------------------------------------------- C13

C13_SCENES = [Scn("matrix batch", (2, 3), {"z": L(), "a": [L(4), (L(2), {"y": L()})]}), Scn("vector batch", (4,), {"a": L(5)}, scal="arr"),
              Scn("no batch", (), {"a": L(2)})]
C13_MORE = [Scn("square batch", (3, 3), {"a": L(3), "b": [L()]}), Scn("single batch", (1,), {"a": L(1)}), Scn("unit batch", (1, 5), {"a": L(5)}),
            Scn("deep batch", (2, 1, 4), {"k": {"u": L(1), "v": (L(), L(2, 2))}}), Scn("empty", (2,), {}),
            Scn("half", (2, 3), {"a": L(1, dtype="float16"), "b": L(dtype="bfloat16")}, core="bfloat16")]

FLOATS = ("float32", "float16", "bfloat16")
OTHERS = ("int32", "bool", "complex64", "uint8")

# skeletons of definitions: a function from a leaf maker to a pytree, and the number of leaves


X = None


def skeletons(S):
    eng = S.eng
    return [("a tensor", 1, lambda f: f(0)),
            ("a list", 2, lambda f: eng.new_list([f(0), f(1)])),
            ("a tuple", 2, lambda f: (f(0), f(1))),
            ("a dict", 2, lambda f: eng.new_dict([("q", f(0)), ("b", f(1))])),
            ("a nested tree", 4, lambda f: eng.new_dict([("n", eng.new_list([f(0), (f(1), eng.new_dict([("z", f(2))]))])), ("m", f(3))])),
            ("a named tuple", 2, lambda f: S.call(S.record(named(q=X, b=X)), f(0), f(1))), ("a registered node", 2, lambda f: S.call(S.record(node(q=X, b=X)), f(0), f(1))),
            ("a tree with empty parts", 1, lambda f: eng.new_list([eng.new_dict([]), (), f(0), None]))]


def bad_shapes(B):
    """shapes that do not start with the batch shape B"""
    out = []
    for k in range(len(B)):
        out += [B[:k], B[:k] + (B[k] + 1,) + B[k + 1:], B[:k] + (B[k] + 1,) + B[k + 1:] + (7,), B[:k] + B[k + 1:] + (9, 9)]
    if B:
        out += [(9,) + B, (1,) + B, tuple(reversed(B)), B[::-1] + (3,), (1,) * (len(B) + 1)]
        if 1 not in B:
            out.append((1,) * len(B))
    return [s for s in dict.fromkeys(out) if s[:len(B)] != B]


def good_trails():
    return ((), (5,), (1,), (2, 3))


def c13(R, tier):
    for scn in C13_SCENES + (C13_MORE + generated(6, small=True, seed="C13") if tier == "thorough" else C13_MORE[:2] + C13_MORE[5:]):
        for name in ("brand new",) + (tuple(scn.accs)[:1]):
            R.block(f"{scn.name}, defining {name!r}", c13_good, R, scn, name, tier)
            R.block(f"{scn.name}, refusing {name!r}", c13_bad, R, scn, name, tier)
            R.block(f"{scn.name}, {name!r} by shape", c13_shape, R, scn, name, tier)
            R.block(f"{scn.name}, refusing {name!r} by shape", c13_shape_bad, R, scn, name, tier)
        R.block(f"{scn.name}, deleting", c13_delete, R, scn)
        R.block(f"{scn.name}, chain", c13_chain, R, scn)


def with_entry(S, d, name, v):
    c = S.eng.cell(d)
    items = [(k, copy_tree(S.eng, x)) for k, x in c.items.values() if k != name]
    return S.eng.new_dict(items + [(name, v)])


def defined(S, R, rule, r, name, acc, what, base=None):
    """the result is a builder over the old state with one more accumulator"""
    F = base or S.fields
    over = dict(accumulators=with_entry(S, F["accumulators"], name, acc), defaults=with_entry(S, F["defaults"], name, copy_tree(S.eng, acc)),
                updates=with_entry(S, F["updates"], name, None))
    R.equal(rule, S, r.value, Like(builder_cls(S), state=Like(S.cls("ACTStates", "core.states"), **keep(S, **over))), r.pc, what)


def c13_good(R, scn, name, tier):
    S = Scene(scn)
    eng = S.eng
    st = S.state("all")
    b = make_builder(S, st)
    trails = good_trails()
    for kind, n, mk in skeletons(S):
        for t in trails:
            for dt in FLOATS:
                if (t or dt != "float32") and kind != "a tensor" and not (tier == "thorough"):
                    continue
                v = mk(lambda i: S.sym(f"def.{i}", scn.batch + trails[(trails.index(t) + i) % 4], FLOATS[(FLOATS.index(dt) + i) % 3]))
                what = f"defining {kind} of trailing shape {list(t)} and {dt}"
                r = S.run(lambda: S.m(b, "define_accumulator_directly", name, v))
                if R.no_raise("a well formed definition is accepted", r, D.TRUE, what):
                    defined(S, R, "a definition sets accumulator, default and empty update of that name only", r, name, copy_tree(eng, v), what)
    for what, v in (("an empty dict", eng.new_dict([])), ("an empty tuple", ())):
        r = S.run(lambda: S.m(b, "define_accumulator_directly", name, v))
        if R.no_raise("a definition without leaves is accepted", r, D.TRUE, what):
            defined(S, R, "a definition sets accumulator, default and empty update of that name only", r, name, copy_tree(eng, v), what)
    R.saw(S)


def c13_bad(R, scn, name, tier):
    S = Scene(scn)
    eng = S.eng
    st = S.state("all")
    b = make_builder(S, st)
    B = scn.batch
    for kind, n, mk in skeletons(S):
        for pos in range(n):
            for sh in bad_shapes(B):
                for dt in FLOATS[:1] if tier == "quick" else FLOATS:
                    v = mk(lambda i: S.sym(f"def.{i}", sh if i == pos else B + (2,), dt))
                    r = S.run(lambda: S.m(b, "define_accumulator_directly", name, v))
                    R.must_raise("a leaf that does not start with the batch shape is refused with ValueError", r, ["ValueError"], D.TRUE,
                                 f"{kind} with leaf {pos} of shape {list(sh)} for batch {list(B)}: define_accumulator_directly")
            for dt in OTHERS:
                v = mk(lambda i: S.sym(f"def.{i}", B + (2,), dt if i == pos else "float32"))
                r = S.run(lambda: S.m(b, "define_accumulator_directly", name, v))
                R.must_raise("a leaf that is not floating is refused with TypeError", r, ["TypeError"], D.TRUE,
                             f"{kind} with leaf {pos} of dtype {dt}: define_accumulator_directly")
    R.saw(S)


def fill_node(S, f):
    return eng_node(S, f)


def eng_node(S, f):
    return S.eng._node(J.scalar_node(f))


def c13_shape(R, scn, name, tier):
    S = Scene(scn)
    eng = S.eng
    st = S.state("all")
    b = make_builder(S, st)
    B = scn.batch
    D.declare("fill")
    sym = ScalarV(D.leaf(D.psym("fill")))
    variants = [({}, "float32", 0.0)]
    for dt in FLOATS:
        variants += [(dict(dtype=dt), dt, 0.0), (dict(dtype=dt, fill=sym), dt, sym)]
    variants += [(dict(fill=sym), "float32", sym), (dict(fill=-2.5), "float32", -2.5), (dict(fill=0.0), "float32", 0.0)]
    for kind, n, mk in skeletons(S):
        for kw, dt, fill in variants if (kind in ("a tensor", "a dict") or tier == "thorough") else variants[3:5]:
            args = {k: (ExtV(f"jax.numpy.{v}") if k == "dtype" else v) for k, v in kw.items()}
            tr = good_trails()
            shapes = mk(lambda i: eng.new_list(list(B + tr[i % 4])))
            exp = mk(lambda i: TensorV(B + tr[i % 4], dt, eng_node(S, fill)))
            what = f"{kind} with {', '.join(kw) or 'defaults'} ({dt}): define_accumulator_by_shape"
            r = S.run(lambda: S.m(b, "define_accumulator_by_shape", name, shapes, **args))
            if R.no_raise("a well formed shape definition is accepted", r, D.TRUE, what):
                defined(S, R, "tensors have the given shapes, dtype and fill", r, name, exp, what)
                unrounded(S, R, r, name, what)
    # the order of the parameters is part of the interface
    r = S.run(lambda: S.m(b, "define_accumulator_by_shape", name, eng.new_list(list(B + (3,))), ExtV("jax.numpy.float16"), 1.5))
    if R.no_raise("a well formed shape definition is accepted", r, D.TRUE, "positional dtype and fill"):
        defined(S, R, "tensors have the given shapes, dtype and fill", r, name, TensorV(B + (3,), "float16", eng_node(S, 1.5)), "positional dtype and fill")
    R.saw(S)


def unrounded(S, R, r, name, what):
    """the fill reaches the tensors without passing through a type less precise than theirs"""
    for f in ("accumulators", "defaults"):
        got = S.run(lambda: S.eng.getitem(S.get(S.get(r.value, "state"), f), name))
        if not got.ok:
            continue
        for t in J.tree_flatten(S.eng, got.value, None)[0]:
            if isinstance(t, TensorV):
                bad = [x for x in t.low if x[3] not in ("cut", "absorbed") and J.narrower(x[1], t.dtype)]
                R.add("the fill is not rounded to a less precise type on its way", "violated" if bad else "held",
                      f"{what}: the {t.dtype} tensor in {f} was rounded from {bad[0][0]} to {bad[0][1]}" if bad else "", bad[0][2] if bad else None)


def c13_shape_bad(R, scn, name, tier):
    S = Scene(scn)
    eng = S.eng
    st = S.state("all")
    b = make_builder(S, st)
    B = scn.batch
    good = lambda: eng.new_list(list(B + (2,)))
    for kind, n, mk in skeletons(S):
        for pos in range(n):
            for sh in bad_shapes(B):
                v = mk(lambda i: eng.new_list(list(sh)) if i == pos else good())
                r = S.run(lambda: S.m(b, "define_accumulator_by_shape", name, v))
                R.must_raise("a shape that does not start with the batch shape is refused with ValueError", r, ["ValueError"], D.TRUE,
                             f"{kind} with leaf {pos} of shape {list(sh)} for batch {list(B)}: define_accumulator_by_shape")
            for what, item in (("an int", 3), ("a string", "shape"), ("a float", 2.5), ("a tuple of ints", tuple(B) + (2,)),
                               ("a list with a string in it", eng.new_list(list(B) + ["x"])),
                               ("a list with a float in it", eng.new_list(list(B) + [2.0])),
                               ("a list starting with a string", eng.new_list(["x"] + list(B))),
                               ("a list with a list in it", eng.new_list(list(B) + [3, eng.new_list(list(B))])),
                               ("a tensor", S.sym("x", B))):
                if item == () + (2,) and False:
                    continue
                v = mk(lambda i: item if i == pos else good())
                r = S.run(lambda: S.m(b, "define_accumulator_by_shape", name, v))
                R.must_raise("a tree with a leaf that is not a list of ints is refused with ValueError", r, ["ValueError"], D.TRUE,
                             f"{kind} with leaf {pos} being {what}: define_accumulator_by_shape")
    for dt in ("int32", "bool_"):
        r = S.run(lambda: S.m(b, "define_accumulator_by_shape", name, good(), ExtV("jax.numpy." + dt)))
        R.must_raise("a dtype that is not floating is refused with TypeError", r, ["TypeError"], D.TRUE, f"dtype {dt}: define_accumulator_by_shape")
    R.saw(S)


def c13_delete(R, scn):
    for name in scn.accs:
        S = Scene(scn)
        for pend in ("all", "none"):
            st = S.state(pend)
            b = make_builder(S, st)
            r = S.run(lambda: S.m(b, delete_name(S, b), name))
            if R.no_raise("a defined name can be deleted", r, D.TRUE, f"deleting {name!r}"):
                over = {f: S.eng.new_dict((k, copy_tree(S.eng, v)) for k, v in S.eng.cell(S.fields[f]).items.values() if k != name)
                        for f in ("accumulators", "defaults", "updates")}
                R.equal("deleting removes the name from all three collections and nothing else", S, r.value,
                        Like(builder_cls(S), state=Like(S.cls("ACTStates", "core.states"), **keep(S, **over))), r.pc, "builder")
        R.saw(S)
    if not scn.accs:
        R.add("nothing to delete", "held")


def c13_chain(R, scn):
    """definitions add up over a chain, whichever way they are made, and end in the controller"""
    S = Scene(scn)
    eng = S.eng
    B = scn.batch
    st = S.state("none")
    b = make_builder(S, st)
    v = eng.new_list([S.sym("v0", B + (2,)), S.sym("v1", B)])

    def go():
        x = S.m(b, "define_accumulator_directly", "p", S.sym("first", B + (8,)))
        x = S.m(x, "define_accumulator_by_shape", "q", eng.new_list(list(B + (6,))))
        x = S.m(x, delete_name(S, x), "p")
        x = S.m(x, "define_accumulator_directly", "r", v)
        x = S.m(x, "define_accumulator_directly", "p", S.sym("second", B + (1,), "float16"))
        return S.m(x, "build")
    r = S.run(go)
    if R.no_raise("a chain of definitions is accepted", r, D.TRUE, "chain"):
        over = {}
        new = [("q", TensorV(B + (6,), "float32", D.num(0))), ("r", copy_tree(eng, v)), ("p", S.sym("second", B + (1,), "float16"))]
        for f in ("accumulators", "defaults", "updates"):
            d = [(k, copy_tree(eng, x)) for k, x in eng.cell(S.fields[f]).items.values()]
            over[f] = eng.new_dict(d + [(k, None if f == "updates" else x) for k, x in new])
        R.equal("a chain of definitions leads to exactly the defined accumulators", S, S.m(r.value, "save"),
                Like(S.cls("ACTStates", "core.states"), **keep(S, **over)), r.pc, "state")
    R.saw(S)


# ---------------------------------------------------------------------- C14

LAYER = '''
from src.jax_act.layers.core import AbstractControllerContract


class HarnessLayer(AbstractControllerContract):
    def make_controller(self, initial_state, *args, **kwargs):
        return self.new_builder(4).build()

    def setup_lazy_parameters(self, controller, state):
        pass

    def run_iteration(self, controller, state, *args, **kwargs):
        return controller, state
'''


def subject(S, R, cls, mod):
    return S.cls(cls, mod)


def c14(R, tier):
    ways = ["builder", "layer"]
    batches = [4, (2, 3), [2, 3], (), (2, 0), [0], 0] if tier == "quick" else [4, 1, (2, 3), [2, 3], (), [], (1,), [2, 1, 4], (5, 5), 17, (2, 0), [0], 0, (0, 3), [1, 0, 2]]
    for way in ways:
        for B in batches:
            R.block(f"{way}, batch {B!r}", c14_scene, R, way, B, tier)
        R.block(f"{way}, independence", c14_twice, R, way)
    R.block("layer and builder agree", c14_positional, R)


def c14_maker(S, way):
    if way == "builder":
        cls = builder_cls(S)
        return lambda *a, **k: S.m(cls, "new_builder", *a, **k)
    mod = S.eng.load_source("harness_layer", LAYER, "<harness layer>")
    layer = S.eng.call(S.eng.module_get(mod, "HarnessLayer"), [], {})
    return lambda *a, **k: S.m(layer, "new_builder", *a, **k)


def initial_state(S, shape, dtype, eps, dep, error_mode=None):
    z = lambda: TensorV(shape, dtype, D.num(0))
    e = S.eng
    return Like(S.cls("ACTStates", "core.states"), epsilon=Num(eps), iterations=z(), residuals=z(), probabilities=z(), defaults=e.new_dict([]),
                accumulators=e.new_dict([]), updates=e.new_dict([]), depression_constant=Num(dep), error_mode=error_mode)


def c14_scene(R, way, B, tier):
    S = Scene(None)
    S.scn = None
    eng = S.eng
    make = c14_maker(S, way)
    shape = (B,) if isinstance(B, int) else tuple(B)
    arg = lambda: eng.new_list(list(B)) if isinstance(B, list) else B
    dts = {n: ExtV(f"jax.numpy.{n}") for n in ("float32", "float16", "bfloat16", "int32", "bool_", "complex64", "uint8", "int8")}
    # defaults
    r = S.run(lambda: make(arg()))
    if R.no_raise("a new builder is made from a batch shape", r, D.TRUE, "new_builder(batch)"):
        R.equal("the documented initial state", S, r.value,
                Like(builder_cls(S), state=initial_state(S, shape, "float32", D.num(1e-4), D.num(1))), r.pc, "defaults")
    # arbitrary epsilon and depression constant
    D.declare("anyeps")
    D.declare("anydep", 0)
    en, dn = D.leaf(D.psym("anyeps")), D.leaf(D.psym("anydep"))
    inside = D.band(D.gt(en, D.num(0)), D.gt(D.num(1), en))
    for dt in (None, "float32", "float16", "bfloat16"):
        for how in ("keywords", "positions"):
            a = [None if dt is None else dts[dt], ScalarV(en), ScalarV(dn)]
            if how == "keywords":
                r = S.run(lambda: make(arg(), core_dtype=a[0], epsilon=a[1], depression_constant=a[2]))
            else:
                r = S.run(lambda: make(arg(), *a))
            what = f"core dtype {dt}, by {how}: new_builder"
            R.must_raise("an epsilon outside the open interval (0, 1) is refused with ValueError", r, ["ValueError"], D.bnot(inside), what)
            if R.no_raise("every epsilon inside (0, 1) is accepted", r, inside, what) and r.ok:
                R.equal("the documented initial state", S, r.value,
                        Like(builder_cls(S), state=initial_state(S, shape, dt or "float32", en, dn)), D.band(r.pc, inside), what)
    for dt in ("int32", "bool_", "complex64", "uint8", "int8"):
        r = S.run(lambda: make(arg(), dts[dt]))
        R.must_raise("a core dtype that is not floating is refused with ValueError", r, ["ValueError"], D.TRUE, f"core dtype {dt}: new_builder")
        r = S.run(lambda: make(arg(), core_dtype=dts[dt], epsilon=0.5))
        R.must_raise("a core dtype that is not floating is refused with ValueError", r, ["ValueError"], D.TRUE, f"core dtype {dt}: new_builder")
    for e in (0, 1, 0.0, 1.0, -1, 2, 1.5, -0.25):
        r = S.run(lambda: make(arg(), epsilon=e))
        R.must_raise("an epsilon outside the open interval (0, 1) is refused with ValueError", r, ["ValueError"], D.TRUE, f"epsilon={e}: new_builder")
    R.saw(S)


def c14_twice(R, way):
    """two builders never share their collections"""
    S = Scene(None)
    S.scn = None
    eng = S.eng
    make = c14_maker(S, way)

    def go():
        a = make(3)
        a2 = S.m(a, "define_accumulator_by_shape", "x", eng.new_list([3, 2]))
        b = make((2, 2), epsilon=0.25, depression_constant=0.5)
        b2 = S.m(b, "define_accumulator_by_shape", "y", eng.new_list([2, 2]))
        c = make(3)
        return (a, b, c, S.m(b2, "build"))
    r = S.run(go)
    if R.no_raise("several builders can be made", r, D.TRUE, "new_builder"):
        a, b, c, d = r.value
        for o, what in ((a, "first"), (c, "third")):
            R.equal("builders are independent of each other", S, o,
                    Like(builder_cls(S), state=initial_state(S, (3,), "float32", D.num(1e-4), D.num(1))), r.pc, what)
        R.equal("builders are independent of each other", S, b,
                Like(builder_cls(S), state=initial_state(S, (2, 2), "float32", D.num(0.25), D.num(0.5))), r.pc, "second")
        z = TensorV((2, 2), "float32", D.num(0))
        st = initial_state(S, (2, 2), "float32", D.num(0.25), D.num(0.5))
        st.attrs.update(accumulators=eng.new_dict([("y", z)]), defaults=eng.new_dict([("y", z)]), updates=eng.new_dict([("y", None)]))
        R.equal("building keeps the state", S, S.m(d, "save"), st, r.pc, "built controller")
    R.saw(S)


def c14_positional(R):
    S = Scene(None)
    S.scn = None
    a = c14_maker(S, "builder")
    b = c14_maker(S, "layer")
    args = [S.eng.new_list([2, 3]), ExtV("jax.numpy.float16"), 0.125, 3.0]
    r1, r2 = S.run(lambda: a(*args)), S.run(lambda: b(*args))
    if R.no_raise("a new builder is made", r1, D.TRUE, "new_builder") and R.no_raise("a new builder is made", r2, D.TRUE, "layer.new_builder"):
        for n in FIELDS:
            R.equal("the layer helper gives the same state", S, S.get(S.get(r2.value, "state"), n), S.get(S.get(r1.value, "state"), n), r2.pc, n)
    R.saw(S)


# ------------------------------------------------------------ C15 and C16

ED_SCENES = [Scn("trees", (2, 3), {"z": L(), "a": [L(4), (L(2), {"y": L(), "x": L(7)})], "h": L(3, dtype="float16")}),
             Scn("plain", (4,), {"a": L(5), "b": L()}, scal="arr"),
             Scn("records", (2,), {"r": named(y=L(2), x=[L(4)]), "n": tagged(q=L(5), p=L())}),
             Scn("fresh", (2,), {"a": L(2), "b": [L(2), {"k": L()}]}, fresh=True)]
ED_MORE = [Scn("rank0", (), {"a": [L(), L(5)]}), Scn("half", (3,), {"a": L(3, dtype="bfloat16"), "b": {"k": L(2)}}, core="bfloat16"),
           Scn("one", (1, 1), {"a": (L(1), L()), "b": [L(1)]}, core="float16")]


def eds(tier):
    return ED_SCENES + ED_MORE + (generated(20, small=True, seed="editors") if tier == "thorough" else [])


def opened(scn, tier):
    """(what the editor is opened on, which updates are pending there)"""
    out = [("save", "all"), ("controller", "none")]
    if tier == "thorough":
        out += [("save", "none"), ("controller", "all")] + ([("save", [list(scn.accs)[0]]), ("controller", [list(scn.accs)[-1]])] if len(scn.accs) > 1 else [])
    return out


def c15(R, tier):
    for scn in eds(tier):
        for src, pend in opened(scn, tier):
            what = f"editor of a {src}, pending {pend}"
            R.block(f"{scn.name}, contents, {what}", c15_contents, R, scn, src, pend)
            R.block(f"{scn.name}, shapes and dtypes, {what}", c15_shapes, R, scn, src, pend)
            R.block(f"{scn.name}, collections, {what}", c15_trees, R, scn, src, pend)
        R.block(f"{scn.name}, error modes", c15_modes, R, scn)
    # the editor's mode is the one asked for, whatever mode the state it is opened on carries
    for own in ("silence", "standard", "checkify", "off", None):
        for src in ("save", "controller"):
            R.block(f"contents, editor of a {src} of mode {own!r}", c15_contents, R, ED_SCENES[1], src, "none", own)


def open_editor(S, st, mode, src):
    if src == "save":
        return S.m(editor_cls(S), "edit_save", st, mode)
    return S.m(editor_cls(S), "edit_controller", S.controller(st), mode)


BOTH = ("standard", "silence")


def c15_contents(R, scn, src, pend, own="debug"):
    S = Scene(scn)
    st = S.state(pend, error_mode=own)
    eds_ = {m: open_editor(S, st, m, src) for m in BOTH}
    D.declare("val")
    v = S.sym("val", scn.batch, scn.core)
    low = D.reduce_all(D.ge(v.node, D.num(0)))
    high = D.reduce_all(D.ge(D.num(1), v.node))
    e = D.leaf(D.psym("anye"))
    D.declare("anye")
    ein = D.band(D.ge(e, D.num(0)), D.ge(D.num(1), e))
    cases = [("set_probabilities", v, D.band(low, high), "elements outside [0, 1]"), ("set_residuals", v, D.band(low, high), "elements outside [0, 1]"),
             ("set_iterations", v, low, "negative elements"),
             ("set_epsilon", ScalarV(e), ein, "a value outside [0, 1]"),
             ("set_epsilon", TensorV((), "float32", e, True, None), ein, "a value outside [0, 1]")]
    for meth, val, ok, bad in cases:
        r = S.run(lambda: S.m(eds_["standard"], meth, val))
        R.must_raise("an inadmissible content is refused in standard mode", r, [], D.bnot(ok), f"{meth} with {bad}")
        R.no_raise("an admissible content is accepted in standard mode", r, ok, meth)
        r = S.run(lambda: S.m(eds_["silence"], meth, val))
        R.no_raise("nothing is refused in silence mode", r, D.TRUE, meth)
    for num, ok in ((-1, False), (2, False), (-3, False), (1.5, False), (-0.25, False), (float("inf"), False), (float("-inf"), False), (0.0, True), (1.0, True), (0.25, True)):
        r = S.run(lambda: S.m(eds_["standard"], "set_epsilon", num))
        if ok:
            R.no_raise("an admissible content is accepted in standard mode", r, D.TRUE, f"set_epsilon({num!r})")
        else:
            R.must_raise("an inadmissible content is refused in standard mode", r, [], D.TRUE, f"set_epsilon({num!r})")
        r = S.run(lambda: S.m(eds_["silence"], "set_epsilon", num))
        R.no_raise("nothing is refused in silence mode", r, D.TRUE, f"set_epsilon({num!r})")
    R.saw(S)


def c15_shapes(R, scn, src, pend):
    S = Scene(scn)
    st = S.state(pend)
    eds_ = {m: open_editor(S, st, m, src) for m in BOTH}
    D.declare("unit", 0, 1)
    B = scn.batch
    shapes = [B + (1,), B + (3,), (1,) + B] + ([()] + bad_shapes(B) if B else [])
    dts = [d for d in ("float32", "float16", "bfloat16", "int32", "bool") if d != scn.core]
    for meth in ("set_probabilities", "set_residuals", "set_iterations"):
        for sh in dict.fromkeys(shapes):
            if sh == B:
                continue
            val = S.sym("unit", sh, scn.core)
            r = S.run(lambda: S.m(eds_["standard"], meth, val))
            R.must_raise("another shape is refused in standard mode", r, [], D.TRUE, f"{meth} with shape {list(sh)} for {list(B)}")
            r = S.run(lambda: S.m(eds_["silence"], meth, val))
            R.no_raise("nothing is refused in silence mode", r, D.TRUE, f"{meth} with shape {list(sh)}")
        for dt in dts:
            val = S.sym("unitb" if dt == "bool" else "unit", B, dt)
            r = S.run(lambda: S.m(eds_["standard"], meth, val))
            R.must_raise("another dtype is refused in standard mode", r, [], D.TRUE, f"{meth} with dtype {dt} for {scn.core}")
            r = S.run(lambda: S.m(eds_["silence"], meth, val))
            R.no_raise("nothing is refused in silence mode", r, D.TRUE, f"{meth} with dtype {dt}")
    R.saw(S)


def alt_structures(S, name, spec, prefix):
    """trees of another structure than the accumulator"""
    eng = S.eng
    B = S.scn.batch
    good = lambda: S.tree(spec, f"{prefix}.{name}")
    x = lambda: S.sym("extra", B + (2,))
    out = [("the tree inside a list", eng.new_list([good()])), ("the tree inside a dict", eng.new_dict([("k", good())])),
           ("the tree inside a tuple", (good(),)), ("an empty list", eng.new_list([])), ("an empty tuple", ()),
           ("one more leaf", eng.new_list([good(), x()])), ("None", None)]
    g = good()
    if isinstance(spec, list):
        c = list(eng.cell(g).items)
        out += [("a tuple instead of a list", tuple(c)), ("the last part missing", eng.new_list(c[:-1])), ("a part added", eng.new_list(c + [x()])),
                ("a dict instead of a list", eng.new_dict((str(i), y) for i, y in enumerate(c)))]
        for i in range(len(c)):
            if isinstance(spec[i], (tuple, list, dict)):
                out.append((f"part {i} replaced by a tensor", eng.new_list(c[:i] + [x()] + c[i + 1:])))
                out += [(f"in part {i}, {w}", eng.new_list(c[:i] + [y] + c[i + 1:])) for w, y in alt_structures(S, f"{name}.{i}", spec[i], prefix)]
            else:
                out.append((f"part {i} replaced by None", eng.new_list(c[:i] + [None] + c[i + 1:])))
                out.append((f"part {i} replaced by a list", eng.new_list(c[:i] + [eng.new_list([c[i]])] + c[i + 1:])))
    elif isinstance(spec, tuple):
        c = list(g)
        out += [("a list instead of a tuple", eng.new_list(c)), ("the last part missing", tuple(c[:-1])), ("a part added", tuple(c) + (x(),))]
        for i in range(len(c)):
            if isinstance(spec[i], (tuple, list, dict)):
                out += [(f"in part {i}, {w}", tuple(c[:i]) + (y,) + tuple(c[i + 1:])) for w, y in alt_structures(S, f"{name}.{i}", spec[i], prefix)]
            else:
                out.append((f"part {i} replaced by None", tuple(c[:i]) + (None,) + tuple(c[i + 1:])))
    elif isinstance(spec, Rec):
        items = record_items(eng, eng.cell(g))
        mk = lambda its, kind=spec.kind: S.call(S.record(Rec(kind, dict.fromkeys(k for k, _ in its))), **dict(its))
        out += [("a tuple instead of a record", tuple(v for _, v in items)), ("a list instead of a record", eng.new_list([v for _, v in items])),
                ("a dict instead of a record", eng.new_dict(items)), ("a record of another class", mk(items, "tagged" if spec.kind != "tagged" else "node")),
                ("a record with a field more", mk(items + [("extra", x())])), ("a record with a field renamed", mk(items[:-1] + [("renamed", items[-1][1])]))]
        for i, (k, v) in enumerate(items):
            out.append((f"field {k!r} replaced by None", mk(items[:i] + [(k, None)] + items[i + 1:])))
            if not isinstance(spec[k], L):
                out += [(f"in field {k!r}, {w}", mk(items[:i] + [(k, y)] + items[i + 1:])) for w, y in alt_structures(S, f"{name}.{k}", spec[k], prefix)]
    elif isinstance(spec, dict):
        items = list(eng.cell(g).items.values())
        if items:
            out += [("a key missing", eng.new_dict(items[:-1])), ("a key renamed", eng.new_dict(items[:-1] + [("renamed", items[-1][1])])),
                    ("a list instead of a dict", eng.new_list([v for _, v in items]))]
            for i, (k, v) in enumerate(items):
                out.append((f"entry {k!r} replaced by None", eng.new_dict(items[:i] + [(k, None)] + items[i + 1:])))
        out.append(("a key added", eng.new_dict(items + [("added", x())])))
    return out


def entry(S, d, name):
    return S.eng.cell(d).items[S.eng.hkey(name)][1]


def own_leaves(S, spec, v):
    """the tensors of a tree, in the order of its spec"""
    eng = S.eng
    if isinstance(spec, L):
        return [v]
    if isinstance(spec, tuple):
        parts = v
    elif isinstance(spec, Rec):
        parts = [x for _, x in record_items(eng, eng.cell(v))]
    elif isinstance(spec, list):
        parts = eng.cell(v).items
    elif isinstance(spec, dict):
        parts = [x for _, x in eng.cell(v).items.values()]
    else:
        return []
    return [y for s, x in zip(spec.values() if isinstance(spec, dict) else spec, parts) for y in own_leaves(S, s, x)]


def c15_trees(R, scn, src, pend):
    S = Scene(scn)
    eng = S.eng
    st = S.state(pend)
    eds_ = {m: open_editor(S, st, m, src) for m in BOTH}
    B = scn.batch
    setters = ("set_accumulator", "set_defaults", "set_updates")

    def refuse(rule, meth, name, val, what):
        r = S.run(lambda: S.m(eds_["standard"], meth, name, val))
        R.must_raise(rule, r, [], D.TRUE, f"{meth}({name!r}) with {what}")
        r = S.run(lambda: S.m(eds_["silence"], meth, name, val))
        R.no_raise("nothing is refused in silence mode", r, D.TRUE, f"{meth}({name!r}) with {what}")

    for meth in setters:
        for name, spec in scn.accs.items():
            r = S.run(lambda: S.m(eds_["standard"], meth, name, S.tree(spec, f"new.{name}")))
            R.no_raise("an admissible value is accepted in standard mode", r, D.TRUE, f"{meth}({name!r})")
            r = S.run(lambda: S.m(eds_["silence"], meth, name, S.tree(spec, f"new.{name}")))
            R.no_raise("nothing is refused in silence mode", r, D.TRUE, f"{meth}({name!r})")
            good = ext(S, "jax.tree_util.tree_structure", S.tree(spec, f"new.{name}"))
            for what, val in alt_structures(S, name, spec, "new"):
                if J.treedef_equal(eng, good, ext(S, "jax.tree_util.tree_structure", val)) is True:
                    continue
                if val is None and meth == "set_updates":
                    r = S.run(lambda: S.m(eds_["standard"], meth, name, None))
                    R.no_raise("an update may be cleared", r, D.TRUE, f"{meth}({name!r}, None)")
                    continue
                refuse("another tree structure is refused in standard mode", meth, name, val, what)
            for path, leaf in leaves_of_spec(spec):
                sh = B + leaf.trail
                dt0 = leaf.dtype or "float32"
                alts = [sh + (2,), sh + (1,), (1,) + sh] + ([sh[:-1], sh[:-1] + (sh[-1] + 1,), (sh[0] + 1,) + sh[1:], ()] if sh else [])
                for a in dict.fromkeys(alts):
                    if a == sh:
                        continue
                    val = S.tree(spec, f"new.{name}", leaf=lambda p, s2, dt, sp: S.sym(p, a if p == f"new.{name}" + path else s2, dt))
                    refuse("another leaf shape is refused in standard mode", meth, name, val, f"leaf {path or '.'} of shape {list(a)} for {list(sh)}")
                for d in ("float32", "float16", "bfloat16", "int32", "bool"):
                    if d == dt0:
                        continue
                    val = S.tree(spec, f"new.{name}", leaf=lambda p, s2, dt, sp: S.sym(p + ("!" if d == "bool" and p == f"new.{name}" + path else ""), s2,
                                                                                       d if p == f"new.{name}" + path else dt))
                    refuse("another leaf dtype is refused in standard mode", meth, name, val, f"leaf {path or '.'} of dtype {d} for {dt0}")
            # trees that share some or all tensors with the object being edited
            for src_field, pre in (("accumulators", "acc"), ("defaults", "def"), ("updates", "upd")):
                if pre == "upd" and (any(x.upd_dtype for _, x in leaves_of_spec(spec)) or entry(S, S.fields[src_field], name) is None):
                    continue
                own = dict(zip((p for p, _ in leaves_of_spec(spec)), own_leaves(S, spec, entry(S, S.fields[src_field], name))))
                at = lambda prefix: prefix[len(f"own.{name}"):]
                r = S.run(lambda: S.m(eds_["standard"], meth, name, S.tree(spec, f"own.{name}", leaf=lambda p, s2, dt, sp: own[at(p)])))
                R.no_raise("an admissible value is accepted in standard mode", r, D.TRUE, f"{meth}({name!r}) with the tensors of {src_field}")
                r = S.run(lambda: S.m(eds_["standard"], meth, name, entry(S, S.fields[src_field], name)))
                R.no_raise("an admissible value is accepted in standard mode", r, D.TRUE, f"{meth}({name!r}) with the object in {src_field}")
                for path, leaf in leaves_of_spec(spec):
                    sh = B + leaf.trail
                    wrong = sh + (2,)
                    val = S.tree(spec, f"own.{name}", leaf=lambda p, s2, dt, sp: S.sym("wrong", wrong, dt) if at(p) == path else own[at(p)])
                    refuse("another leaf shape is refused in standard mode", meth, name, val, f"leaf {path or '.'} of shape {list(wrong)}, the others from {src_field}")
                    val = S.tree(spec, f"own.{name}", leaf=lambda p, s2, dt, sp: S.sym("wrong", s2, "int32") if at(p) == path else own[at(p)])
                    refuse("another leaf dtype is refused in standard mode", meth, name, val, f"leaf {path or '.'} of dtype int32, the others from {src_field}")
        first = next(iter(scn.accs))
        r = S.run(lambda: S.m(eds_["standard"], meth, "never defined", S.tree(scn.accs[first], f"new.{first}")))
        R.must_raise("an unknown name is refused in standard mode", r, [], D.TRUE, f"{meth}('never defined')")
        if meth == "set_updates":
            r = S.run(lambda: S.m(eds_["standard"], meth, "never defined", None))
            R.must_raise("an unknown name is refused in standard mode", r, [], D.TRUE, f"{meth}('never defined', None)")
    R.saw(S)


def c15_modes(R, scn):
    S = Scene(scn)
    st = S.state("all")
    c = S.controller(st)
    for mode in ("bogus", "checkify", "debug", "", "Standard", "standard ", None, 1):
        for meth, arg in (("edit_save", st), ("edit_controller", c)):
            for kw in (False, True):
                r = S.run(lambda: S.m(editor_cls(S), meth, arg, error_mode=mode) if kw else S.m(editor_cls(S), meth, arg, mode))
                R.must_raise("an unknown error mode is refused with ValueError", r, ["ValueError"], D.TRUE, f"{meth}(..., {mode!r})")
    for mode in BOTH:
        for meth, arg in (("edit_save", st), ("edit_controller", c)):
            r = S.run(lambda: S.m(editor_cls(S), meth, arg, mode))
            R.no_raise("a documented error mode is accepted", r, D.TRUE, f"{meth}(..., {mode!r})")
    # without a mode an editor validates
    v = S.sym("val", scn.batch, scn.core)
    D.declare("val")
    for meth, arg in (("edit_save", st), ("edit_controller", c)):
        r = S.run(lambda: S.m(S.m(editor_cls(S), meth, arg), "set_probabilities", v))
        ok = D.band(D.reduce_all(D.ge(v.node, D.num(0))), D.reduce_all(D.ge(D.num(1), v.node)))
        R.must_raise("an editor validates unless told otherwise", r, [], D.bnot(ok), f"{meth}(...).set_probabilities")
    R.saw(S)


def c16(R, tier):
    for scn in eds(tier):
        for mode in BOTH:
            for src, pend in opened(scn, tier):
                R.block(f"{scn.name}, {mode}, editor of a {src}, pending {pend}", c16_scene, R, scn, mode, src, pend)


def c16_scene(R, scn, mode, src, pend):
    S = Scene(scn)
    eng = S.eng
    D.declare("newp", 0, 1)
    D.declare("newr", 0, 1)
    D.declare("newi", 0)
    D.declare("newe", 0, 1)
    ne = D.leaf(D.psym("newe"))
    names = list(scn.accs)
    steps = [("set_probabilities", "probabilities", None, S.sym("newp", scn.batch, scn.core)),
             ("set_residuals", "residuals", None, S.sym("newr", scn.batch, scn.core)),
             ("set_iterations", "iterations", None, S.sym("newi", scn.batch, scn.core)),
             ("set_epsilon", "epsilon", None, ScalarV(ne)), ("set_epsilon", "epsilon", None, TensorV((), "float32", ne, True, None))]
    for nm in names:
        steps += [("set_accumulator", "accumulators", nm, S.tree(scn.accs[nm], f"na.{nm}")), ("set_defaults", "defaults", nm, S.tree(scn.accs[nm], f"nd.{nm}")),
                  ("set_updates", "updates", nm, S.tree(scn.accs[nm], f"nu.{nm}")), ("set_updates", "updates", nm, None)]
    ACT = S.cls("ACTStates", "core.states")
    ECLS = editor_cls(S)
    st = S.state(pend)
    # values that are objects of the state being edited
    f = S.fields
    steps += [("set_probabilities", "probabilities", None, f["residuals"]), ("set_residuals", "residuals", None, f["probabilities"]),
              ("set_iterations", "iterations", None, f["probabilities"]), ("set_probabilities", "probabilities", None, f["probabilities"]),
              ("set_iterations", "iterations", None, f["iterations"])]
    for nm in names[:2]:
        steps += [(meth, field, nm, entry(S, f[other], nm)) for meth, field in (("set_accumulator", "accumulators"), ("set_defaults", "defaults"), ("set_updates", "updates"))
                  for other in ("accumulators", "defaults", "updates") if other != "updates" or not any(x.upd_dtype for _, x in leaves_of_spec(scn.accs[nm]))
                  if entry(S, f[other], nm) is not None]

    def args(s):
        return ([] if s[2] is None else [s[2]]) + [s[3]]

    def expected(ss):
        over = {}
        for meth, field, nm, v in ss:
            if field == "epsilon":
                over[field] = Num(ne)
            elif nm is None:
                over[field] = v
            else:
                over[field] = with_entry(S, over.get(field, S.fields[field]), nm, copy_tree(eng, v))
        return Like(ACT, **keep(S, **over))

    ed = open_editor(S, st, mode, src)
    R.equal("opening an editor keeps the state", S, S.get(ed, "state"), expected([]), D.TRUE, f"edit_{src}")
    r = S.run(lambda: S.m(ed, "save"))
    if R.no_raise("saving does not raise", r, D.TRUE, "save"):
        R.equal("saving keeps the state", S, r.value, expected([]), r.pc, "save")
    r = S.run(lambda: S.m(ed, "build"))
    if R.no_raise("building does not raise", r, D.TRUE, "build"):
        R.equal("building keeps the state", S, r.value, Like(S.cls("ACT_Controller", "core.controller"), state=expected([])), r.pc, "build")
    for n in ("epsilon", "probabilities", "residuals", "iterations", "defaults", "accumulators", "updates"):
        r = S.run(lambda: S.get(ed, n))
        if R.no_raise("the editor's properties can be read", r, D.TRUE, n):
            x = copy_tree(eng, S.fields[n])
            R.equal("the editor's properties report the state", S, r.value, Num(numnode(eng, x)) if n == "epsilon" else x, r.pc, n)
    for i, s in enumerate(steps):
        r = S.run(lambda: S.m(ed, s[0], *args(s)))
        what = f"{s[0]}({s[2]!r})" if s[2] else s[0]
        if R.no_raise("an admissible value is accepted", r, D.TRUE, what):
            R.equal("a setter sets exactly what was asked", S, r.value, Like(ECLS, state=expected([s]), error_mode=S.get(ed, "error_mode")), r.pc, what)
            r1 = S.run(lambda: S.m(r.value, "build"))
            if R.no_raise("building does not raise", r1, D.TRUE, "build"):
                R.equal("building keeps the state", S, r1.value, Like(S.cls("ACT_Controller", "core.controller"), state=expected([s])), r1.pc, what)
        t = steps[(i + 1) % len(steps)]
        u = steps[(i + 5) % len(steps)]
        r = S.run(lambda: S.m(S.m(S.m(ed, s[0], *args(s)), t[0], *args(t)), u[0], *args(u)))
        what = f"{s[0]}, then {t[0]}, then {u[0]}"
        if R.no_raise("admissible values are accepted one after the other", r, D.TRUE, what):
            R.equal("setters add up", S, r.value, Like(ECLS, state=expected([s, t, u]), error_mode=S.get(ed, "error_mode")), r.pc, what)
    # the values may be inadmissible in silence mode: they are set all the same
    if mode == "silence":
        D.declare("val")
        for meth, field in (("set_probabilities", "probabilities"), ("set_residuals", "residuals"), ("set_iterations", "iterations")):
            v = S.sym("val", scn.batch, scn.core)
            r = S.run(lambda: S.m(ed, meth, v))
            if R.no_raise("silence mode accepts everything", r, D.TRUE, meth):
                R.equal("a setter sets exactly what was asked", S, r.value,
                        Like(ECLS, state=Like(ACT, **keep(S, **{field: v})), error_mode=S.get(ed, "error_mode")), r.pc, meth)
        for meth, field in (("set_accumulator", "accumulators"), ("set_defaults", "defaults"), ("set_updates", "updates")):
            for nm in names[:2] + ["never defined"]:
                v = lambda: eng.new_list([S.sym("val", (7,), "int32"), (S.sym("val", scn.batch, "float16"),)])
                r = S.run(lambda: S.m(ed, meth, nm, v()))
                what = f"{meth}({nm!r})"
                if R.no_raise("silence mode accepts everything", r, D.TRUE, what):
                    R.equal("a setter sets exactly what was asked", S, r.value,
                            Like(ECLS, state=Like(ACT, **keep(S, **{field: with_entry(S, S.fields[field], nm, v())})), error_mode=S.get(ed, "error_mode")), r.pc, what)
    R.saw(S)
