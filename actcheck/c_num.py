"""Checks on what happens to numbers on their way: C27 (precision), C28 (derivatives), C29 (halting in narrow types)."""
from fractions import Fraction

from . import domain as D
from . import jaxmodel as J
from .harness import *
from .values import *
from .c_state import op_table
from .c_layer import Layer

NUM_SCENES = [Scn("narrow accumulators", (2, 3), {"z": L(dtype="bfloat16"), "a": [L(4, dtype="float16"), (L(2), {"y": L(dtype="bfloat16"), "x": L(7)})]}),
              Scn("narrow core", (4,), {"a": L(5), "b": L(dtype="bfloat16"), "c": (L(2, 3, dtype="float16"),)}, core="bfloat16"),
              Scn("half core", (3, 2), {"a": {"p": L(), "q": L(4, dtype="float16")}, "b": L()}, core="float16"),
              Scn("wide updates", (4,), {"a": L(dtype="bfloat16", upd_dtype="float32"), "b": [L(3, dtype="float16", upd_dtype="float32")]}, scal="arr")]
NUM_MORE = [Scn("scalar batch", (), {"a": L(4), "b": L(dtype="bfloat16")}), Scn("unit batch", (1,), {"a": L(4), "b": L(1, dtype="float16")}, core="bfloat16", scal="arr"),
            Scn("three", (2, 1, 3), {"a": [L(1), L(2, 2, dtype="float16")]}, scal="arr")]


def num_scenes(tier, seed):
    return NUM_SCENES + (NUM_MORE + generated(10, small=True, seed=seed) if tier == "thorough" else [])


def tensors(S, v, path="result"):
    """(path, tensor) for every tensor that can be reached"""
    eng = S.eng
    out, seen = [], set()

    def cell(c, path):
        if hasattr(c, "cond"):
            cell(c.a, path)
            cell(c.b, path)
        elif isinstance(c, ListCell):
            for i, x in enumerate(c.items):
                go(x, f"{path}[{i}]")
        elif isinstance(c, DictCell):
            for k, x in c.items.values():
                go(x, f"{path}[{k!r}]")
        elif isinstance(c, ObjCell):
            for n, x in c.attrs.items():
                go(x, f"{path}.{n}")

    def go(v, path):
        if isinstance(v, PhiV):
            go(v.a, path)
            go(v.b, path)
        elif isinstance(v, tuple):
            for i, x in enumerate(v):
                go(x, f"{path}[{i}]")
        elif isinstance(v, TensorV):
            out.append((path, v))
        elif isinstance(v, Ref) and v.id not in seen:
            seen.add(v.id)
            cell(eng.cell(v), path)
    go(v, path)
    return out


def loop_result(S, scn, check=True):
    """execute_act of a layer that conforms"""
    ly = Layer(S)
    S.before = S.get(ly.made, "state")
    u = J.UNROLL[0]
    J.UNROLL[0] = 2
    try:
        return S.run(lambda: ly.execute(ly.init, 1.0, 2, check))
    finally:
        J.UNROLL[0] = u


def every_op(R, tier, scenes_, one):
    for scn in scenes_:
        probe = Scene(scn)
        n = len(op_table(probe, scn))
        for k in range(n):
            label = op_table(probe, scn)[k][0]
            R.block(f"{scn.name}, {label}", one, R, scn, k)
        R.block(f"{scn.name}, execute_act", one, R, scn, None)


def run_op(S, scn, k):
    """(label, result, the state before)"""
    if k is None:
        r = loop_result(S, scn)
        return "execute_act", r, S.before
    label, pend, mk, new = op_table(S, scn)[k]
    st = S.state(pend)
    roots, go = mk(st)
    return label, S.run(go), st


# ---------------------------------------------------------------------- C27


def c27(R, tier):
    every_op(R, tier, num_scenes(tier, "C27"), c27_op)
    R.block("utilities", c27_utils, R)


def c27_op(R, scn, k):
    S = Scene(scn)
    label, r, st = run_op(S, scn, k)
    if r.ok:
        precise(R, S, label, r.value, r.pc)
        same_types(R, S, label, st, r, ("updates",) if label.rpartition(".")[2] in ("set_updates", "cache_update") else ())
    else:
        R.add("the operation ends in an error", "held")
    R.saw(S)


def precise(R, S, label, v, pc):
    R.add("the operation can be analysed", "held")
    if D.sat(pc) is None:
        return
    for path, t in tensors(S, v):
        low = rounding(S, t)
        R.add("a value is never rounded to a type less precise than its own on the way", "violated" if low else "held",
              f"{label}: {path} ({t.dtype}) was rounded from {low[0]} to {low[1]}" if low else "", low[2] if low else None)


def field_path(path):
    """the path from the field of the state on, or None"""
    hits = [path.index("." + f) for f in ("probabilities", "residuals", "iterations", "accumulators", "defaults", "updates") if "." + f in path]
    return path[min(hits):] if hits else None


def same_types(R, S, label, st, r, given=()):
    """no field of the result has a less precise type than it had (the fields in `given` are arguments of the operation)"""
    if D.sat(r.pc) is None:
        return
    before = {field_path(p): t for p, t in tensors(S, st)}
    for path, t in tensors(S, r.value):
        f = field_path(path)
        b = before.get(f) if f else None
        if b is None or b.dtype not in J.FLOATS or f[1:].startswith(given):
            continue
        bad = t.dtype not in J.FLOATS or J.narrower(t.dtype, b.dtype)
        R.add("no field gets a less precise type", "violated" if bad else "held", f"{label}: {path} was {b.dtype} and is {t.dtype}" if bad else "", t.loc if bad else None)


def c27_utils(R):
    S = Scene(None)
    eng = S.eng

    def op(e, a, k):
        a = [J.to_tensor(e, x) for x in a]
        sh = J.bshape(e, [x.shape for x in a])
        return J.mk(e, sh, "float32", D.fn("OP", *[D.to_num(J.bnode(x, sh)) for x in a]), False, a)
    pair = OpaqueFn("OP", op)
    for d1, d2 in (("float32", "bfloat16"), ("bfloat16", "float32"), ("float32", "float32"), ("float32", "float16")):
        S.scn = None
        x, y = S.sym(f"x{d1}", (2, 3), d1), S.sym(f"y{d2}", (2,), d2)
        z = S.sym(f"z{d2}", (2, 3, 4), d2)
        one = lambda: eng.new_dict([("a", S.sym(f"p{d1}", (2, 3), d1)), ("b", (S.sym(f"q{d1}", (2,), d1),))])
        two = lambda: eng.new_dict([("a", S.sym(f"r{d2}", (2,), d2)), ("b", (S.sym(f"s{d2}", (2, 4), d2),))])
        for label, f in (("setup_left_broadcast", lambda: S.call(S.util("setup_left_broadcast"), y, x)),
                         ("merge_pytrees", lambda: S.call(S.util("merge_pytrees"), pair, one(), one())),
                         ("execute_binary_operator", lambda: S.call(S.util("execute_binary_operator"), pair, one(), two(), "context")),
                         ("broadcast_pytree_shape", lambda: S.call(S.util("broadcast_pytree_shape"), x, eng.new_list([z, y])))):
            r = S.run(f)
            if r.ok:
                precise(R, S, label, r.value, r.pc)
    R.saw(S)


# ---------------------------------------------------------------------- C28


def c28(R, tier):
    every_op(R, tier, num_scenes(tier, "C28") + [Scn("plain", (4,), {"a": L(5), "b": [L(), L(2)]})], c28_op)
    R.block("utilities", c28_utils, R)


def c28_op(R, scn, k):
    S = Scene(scn)
    label, r, _ = run_op(S, scn, k)
    if r.ok:
        differentiable(R, S, label, r.value, r.pc, ("while_loop",) if k is None else ())
    else:
        R.add("the operation ends in an error", "held")
    R.saw(S)


def differentiable(R, S, label, v, pc, allowed=()):
    R.add("the operation can be analysed", "held")
    if D.sat(pc) is None:
        return
    for path, t in tensors(S, v):
        if ".iterations" in path or t.dtype not in J.FLOATS:
            continue
        c = next((x for x in t.low if x[3] == "cut" and x[0] not in allowed), None)
        R.add("no derivative is cut on the way to a result", "violated" if c else "held",
              f"{label}: {path} passes through {c[0]}" if c else "", c[2] if c else None)


def c28_utils(R):
    S = Scene(None)
    eng = S.eng

    def op(e, a, k):
        a = [J.to_tensor(e, x) for x in a]
        sh = J.bshape(e, [x.shape for x in a])
        return J.mk(e, sh, "float32", D.fn("OP", *[D.to_num(J.bnode(x, sh)) for x in a]), False, a)
    pair = OpaqueFn("OP", op)
    x, y, z = S.sym("x", (2, 3)), S.sym("y", (2,)), S.sym("z", (2, 3, 4))
    one = lambda: eng.new_dict([("a", S.sym("p", (2, 3))), ("b", (S.sym("q", (2,)),))])
    two = lambda: eng.new_dict([("a", S.sym("r", (2,))), ("b", (S.sym("s", (2, 4)),))])
    for label, f in (("setup_left_broadcast", lambda: S.call(S.util("setup_left_broadcast"), y, x)),
                     ("merge_pytrees", lambda: S.call(S.util("merge_pytrees"), pair, one(), one())),
                     ("execute_binary_operator", lambda: S.call(S.util("execute_binary_operator"), pair, one(), two(), "context")),
                     ("execute_binary_operator", lambda: S.call(S.util("execute_binary_operator"), pair, two(), one(), "context")),
                     ("broadcast_pytree_shape", lambda: S.call(S.util("broadcast_pytree_shape"), x, eng.new_list([z, y]))),
                     ("jit_and_checkify", lambda: S.call(S.call(S.util("jit_and_checkify"), OpaqueFn("OP1", lambda e, a, k: J.arith(e, "mul", a[0], a[0]))), x))):
        r = S.run(f)
        if r.ok:
            differentiable(R, S, label, r.value, r.pc)
    R.saw(S)


# ---------------------------------------------------------------------- C29

DEFAULT_EPSILON = Fraction(1, 10000)
LOW_SCENES = [Scn(f"{core}, {scal}", (2, 3) if scal == "py" else (4,), {"a": L(3, dtype=core), "b": [L(dtype=core), L()]}, core=core, scal=scal)
              for core in ("float16", "bfloat16", "float32") for scal in ("py", "arr")]
LOW_MORE = [Scn(f"{core}, batch {list(b)}", b, {"a": L(2, dtype=core)}, core=core, scal=scal)
            for core in ("float16", "bfloat16") for b, scal in (((), "py"), ((1,), "arr"), ((2, 1, 3), "py"))]


def rounded(x, dtype):
    """the nearest number of the type (ties to even)"""
    if x == 0:
        return x
    s, x = (-1 if x < 0 else 1), abs(x)
    bits = J.MANTISSA[dtype]
    e = 0
    while x >= 2 ** (e + 1):
        e += 1
    while x < Fraction(2) ** e:
        e -= 1
    if dtype == "float16":
        e = max(e, -14)
    ulp = Fraction(2) ** (e - bits + 1)
    q, rest = divmod(x, ulp)
    if rest * 2 > ulp or (rest * 2 == ulp and q % 2):
        q += 1
    return s * q * ulp


def absorber(S):
    """does a number, in its type and with a cumulative probability of one, equal what it would be for an epsilon of zero?"""
    eps, prob = "eps" + S.tag, "prob" + S.tag
    memo = {}

    def value(p, e):
        total = Fraction(0)
        for m, c in p.terms.items():
            for a, k in m:
                c = c * e ** k
            total += c
        return total

    def only_eps(p):
        ks = [D.NATOMS[a] for m in p.terms for a, k in m]
        return bool(ks) and all(k[0] == "sym" and k[1] == eps for k in ks)

    def f(node, dtype):
        key = (node.id, dtype)
        if key not in memo:
            n = D.node_subst_sym(node, lambda name, idx: D.num(1) if name == prob else None)
            memo[key] = not D.all_terminals(n, lambda p: not (only_eps(p) and value(p, DEFAULT_EPSILON) != value(p, 0)
                                                               and rounded(value(p, DEFAULT_EPSILON), dtype) == rounded(value(p, Fraction(0)), dtype)))
        return memo[key]
    return f


def c29(R, tier):
    for scn in LOW_SCENES + (LOW_MORE if tier == "thorough" else []):
        R.block(scn.name, c29_flags, R, scn)
        R.block(scn.name, c29_steps, R, scn)


def unabsorbed(R, S, label, v, pc):
    if D.sat(pc) is None:
        return
    for path, t in tensors(S, v):
        a = next((x for x in t.low if x[3] == "absorbed"), None)
        R.add("epsilon is not rounded away in the halting test", "violated" if a else "held",
              f"{label}: {path} depends on a number in {a[1]} in which the default epsilon disappears beside one" if a else "", a[2] if a else None)


def c29_flags(R, scn):
    S = Scene(scn)
    S.eng.absorb = absorber(S)
    st = S.state("all")
    for what, o in (("controller", S.controller(st)), ("viewer", S.m(S.cls("ACTViewer", "core.viewer"), "load", st))):
        for a in ("halted_batches", "is_completely_halted", "is_any_halted"):
            if attr_of(S, o, a) is UNBOUND and what == "viewer":
                continue
            r = S.run(lambda: S.get(o, a))
            if R.no_raise("the halting tests do not raise", r, D.TRUE, f"{what}.{a}"):
                unabsorbed(R, S, f"{what}.{a}", r.value, r.pc)
    R.saw(S)


def c29_steps(R, scn):
    for label, pend, go in (("iterate_act", "all", lambda S, c: S.m(c, "iterate_act", S.hp())),
                            ("reset_batches", "none", lambda S, c: S.m(c, "reset_batches")),
                            ("halted_only", "all", lambda S, c: S.m(S.m(c, "make_viewer"), "halted_only")),
                            ("unhalted_only", "all", lambda S, c: S.m(S.m(c, "make_viewer"), "unhalted_only"))):
        S = Scene(scn)
        S.eng.absorb = absorber(S)
        c = S.controller(S.state(pend))
        r = S.run(lambda: go(S, c))
        if R.no_raise("the operation does not raise", r, D.TRUE, label):
            unabsorbed(R, S, label, r.value, r.pc)
        R.saw(S)
    S = Scene(scn)
    S.eng.absorb = absorber(S)
    r = loop_result(S, scn)
    if R.no_raise("the operation does not raise", r, D.TRUE, "execute_act"):
        unabsorbed(R, S, "execute_act", r.value, r.pc)
    R.saw(S)
