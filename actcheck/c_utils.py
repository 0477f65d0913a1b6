"""Checks of the utilities: C20 (pytrees and broadcasting) and C23 (validation and error reporting)."""
import itertools
from fractions import Fraction
import random
import textwrap

from . import domain as D
from . import jaxmodel as J
from .harness import *
from .c_state import ext, jitted, keep
from .values import *

X = "leaf"


def trees(tier):
    """a family of tree shapes; X is a leaf"""
    out = [X, [X], (X,), {"a": X}, [X, X], (X, X), {"a": X, "b": X}, {"a": X, "c": X}, {"b": X, "a": X}, [X, [X]], [[X], X], [(X, X), {"a": X}],
           {"b": [X, X], "a": X}, {"a": {"a": X}}, ([X, X], [X]), [X, X, X], {"a": [X], "b": (X, X), "c": X},
           named(b=X, a=X), node(b=X, a=X), tagged(b=X, a=[X]), tagged(b=X, c=[X]),
           twin(b=X, a=X), twin(b=X, c=X), cotwin(b=X, a=X), [[X] * 5, X, X], {"a": [X] * 6, "b": (X, [X, X], X), "c": X}]
    if tier == "thorough":
        out += [[[X, X], [X, X]], [(X, (X,)), X], {"k": {"p": X, "q": [X, {"r": X}]}}, {"k": {"p": X, "q": [X, {"s": X}]}}, ((X, X), X, [X]),
                {"a": X, "b": X, "c": X}, [{"a": X}, {"b": X}], [{"a": X}, {"a": X}], {1: X, 2: [X]}, [[[X]]], [[X]],
                named(b=X, c=X), named(b=[X, X], a=X), {"k": named(b=X, a=(X,))}, node(b=named(b=X, a=X), a=X), named(a=X), node(a=X), tagged(a=X),
                (named(b=X, a=X), X), ({"a": X, "b": X}, X), ((X, X), X), [twin(b=X, a=[X, X]), X], [cotwin(b=X, a=[X, X]), X],
                [X] * 12, {f"k{i}": X for i in range(12)}, [[X] * 5, [X] * 5], [X, [X, [X, [X, [X]]]]]]
    return out


def random_pairs(n, seed):
    """(source, target) trees: the source is the target cut at some places, in a third of the cases with something changed"""
    rng = random.Random(f"pairs {seed}")

    def tree(depth, top=False):
        if depth == 0 or (not top and rng.random() < 0.35):
            return X
        m = rng.choice((1, 2, 2, 3, 3, 4, 6))
        k = rng.random()
        if k < 0.3:
            return [tree(depth - 1) for _ in range(m)]
        if k < 0.5:
            return tuple(tree(depth - 1) for _ in range(m))
        names = rng.sample(["a", "b", "c", "d", "k1", "k10", "k2", "zeta", "A"], m)
        if k < 0.8:
            return {x: tree(depth - 1) for x in names}
        return Rec(rng.choice(("named", "node", "tagged", "twin")), {x: tree(depth - 1) for x in names})

    def rebuild(t, kids):
        if isinstance(t, Rec):
            return Rec(t.kind, dict(zip(t, kids)))
        return dict(zip(keys(t), kids)) if isinstance(t, dict) else type(t)(kids)

    def cut(t, p):
        if t is X or rng.random() < p:
            return X
        return rebuild(t, [cut(k, p) for k in kids(t)])

    def change(t):
        if t is X or rng.random() < 0.4:
            if t is not X and rng.random() < 0.5:
                return rng.choice((list, tuple))(kids(t))
            return rng.choice(([X], (X, X), {"b": X}, X, t))
        ks = kids(t)
        i = rng.randrange(len(ks))
        ks[i] = change(ks[i])
        return rebuild(t, ks)
    out = []
    for _ in range(n):
        t = tree(rng.choice((2, 3, 4)), True)
        s = cut(t, rng.choice((0.1, 0.3)))
        k = rng.random()
        out.append((s, change(t)) if k < 0.2 else (change(s), t) if k < 0.35 else (s, t))
    return out


# keys that differ but print alike, keys that only begin alike, keys of other kinds
ALIKE = [{1: X, 2: X}, {"1": X, "2": X}, {"1": X, "2": [X, X]}, {1: [X, X], 2: X}, {2: X, 10: X}, {"2": X, "10": X}, {(1, 2): X}, {"(1, 2)": X},
         {"a": {1: X}}, {"a": {"1": X}}, {"a": X, "A": X}, {"a ": X, "a": X}, {"": X, "a": X}]


def alike():
    return list(itertools.product(ALIKE, ALIKE))


EMPTIES = [[], (), {}, None, [[], X], [X, (), X], {"e": {}, "x": X}, [None, X], named(b=(), a=X), tagged(b=None)]


def build(S, t, make, path=()):
    eng = S.eng
    if t is X:
        return make(path)
    if t is None:
        return None
    if isinstance(t, list):
        return eng.new_list([build(S, x, make, path + (i,)) for i, x in enumerate(t)])
    if isinstance(t, tuple):
        return tuple(build(S, x, make, path + (i,)) for i, x in enumerate(t))
    if isinstance(t, Rec):
        return S.call(S.record(t), **{k: build(S, x, make, path + (k,)) for k, x in t.items()})
    return eng.new_dict((k, build(S, x, make, path + (k,))) for k, x in t.items())


def paths(t, p=()):
    """the leaf paths in flattening order"""
    if t is X:
        yield p
    elif isinstance(t, (list, tuple)):
        for i, x in enumerate(t):
            yield from paths(x, p + (i,))
    elif isinstance(t, dict):
        for k in keys(t):
            yield from paths(t[k], p + (k,))


def same_shape(a, b):
    return kind(a) == kind(b) and (a is X or a is None or (keys(a) == keys(b) and all(same_shape(x, y) for x, y in zip(kids(a), kids(b)))))


def kind(t):
    if isinstance(t, Rec):
        return (t.kind,) + tuple(t)
    return "leaf" if t is X else "none" if t is None else type(t).__name__


def keys(t):
    return list(t) if isinstance(t, Rec) else sorted(t) if isinstance(t, dict) else list(range(len(t)))


def kids(t):
    return [t[k] for k in keys(t)]


def prefix(s, t):
    """s is t cut above some of its parts"""
    if s is X:
        return True
    if kind(s) != kind(t) or s is None:
        return kind(s) == kind(t)
    return keys(s) == keys(t) and all(prefix(x, y) for x, y in zip(kids(s), kids(t)))


def has_empty(t):
    return t is None or (t is not X and (not kids(t) or any(has_empty(k) for k in kids(t))))


def above(s, path):
    """the leaf path of s above a leaf path of t"""
    p = ()
    for k in path:
        if s is X:
            return p
        s = s[k]
        p += (k,)
    return p


def show(t):
    return repr(t).replace("'leaf'", "x")


def tag(path):
    return ".".join(map(str, path))


# ---------------------------------------------------------------------- C20


def c20(R, tier):
    R.block("broadcasting trees", c20_broadcast, R, tier)
    R.block("merging", c20_merge, R, tier)
    R.block("binary operator over trees", c20_operator_trees, R, tier)
    R.block("binary operator over shapes", c20_operator_shapes, R, tier)
    R.block("left alignment", c20_left, R, tier)
    R.block("structure test", c20_structure, R, tier)
    R.block("equality test", c20_equal, R, tier)
    R.block("right broadcasting", c20_right, R, tier)


def c20_broadcast(R, tier):
    S = Scene(None)
    eng = S.eng
    f = S.util("broadcast_pytree_shape")
    fam = trees(tier)
    for s, t in list(itertools.product(fam + EMPTIES, fam + EMPTIES)) + random_pairs(60 if tier == "quick" else 600, "broadcast") + alike():
        src = build(S, s, lambda p: S.sym("s." + tag(p), (2,)))
        tgt = build(S, t, lambda p: S.sym("t." + tag(p), (3, 2)))
        what = f"source {show(s)}, target {show(t)}: broadcast_pytree_shape"
        r = S.run(lambda: eng.call(f, [src, tgt], {}))
        if prefix(s, t):
            if R.no_raise("a prefix of the target can be broadcast onto it", r, D.TRUE, what):
                exp = build(S, t, lambda p: S.sym("s." + tag(above(s, p)), (2,)))
                R.equal("each target leaf gets the source leaf above it", S, r.value, exp, r.pc, what)
        elif not has_empty(s) and not has_empty(t):
            R.must_raise("incompatible trees raise RuntimeError", r, ["RuntimeError"], D.TRUE, what)
        elif len(list(paths(t))) != 0 and any(e for e in [has_empty(s)]) and not compatible_but_empty(s, t):
            R.must_raise("incompatible trees raise", r, [], D.TRUE, what)
    R.saw(S)


def compatible_but_empty(s, t):
    """the only differences are between collections without leaves: nothing is stated for those"""
    if not list(paths(s)) and not list(paths(t)):
        return True
    if s is X:
        return True
    if kind(s) != kind(t) or s is None or keys(s) != keys(t):
        return False
    return all(compatible_but_empty(x, y) for x, y in zip(kids(s), kids(t)))


def recorder(S, name="F"):
    """an arbitrary function of two leaves; the calls it receives are recorded"""
    calls = []

    def h(eng, a, k):
        calls.append(tuple(a))
        xs = [J.to_tensor(eng, x) for x in a]
        big = max(xs, key=lambda x: len(x.shape))
        n = D.leaf(D.patom(("fn", name, tuple(J.kindnode(x) for x in xs))))
        D.declare(name)
        return TensorV(big.shape, "float32", n, False, eng.loc(), any(x.tracer for x in xs))
    return OpaqueFn(name, h), calls


def F2(S, a, b, shape, name="F"):
    D.declare(name)
    return TensorV(shape, "float32", D.leaf(D.patom(("fn", name, (J.kindnode(a), J.kindnode(b))))), False, None)


def c20_merge(R, tier):
    S = Scene(None)
    eng = S.eng
    f = S.util("merge_pytrees")
    fam = trees(tier) + EMPTIES
    for t in fam:
        for u in fam:
            if len(list(paths(t))) != len(list(paths(u))):
                continue
            if tier == "quick" and t is not u and fam.index(u) % 3:
                continue
            a = build(S, t, lambda p: S.sym("a." + tag(p), (2,)))
            b = build(S, u, lambda p: S.sym("b." + tag(p), (2,)))
            fn, calls = recorder(S)
            what = f"{show(t)} with {show(u)}: merge_pytrees"
            r = S.run(lambda: eng.call(f, [fn, a, b], {}))
            if R.no_raise("trees with as many leaves are merged", r, D.TRUE, what):
                pair = dict(zip(paths(t), paths(u)))
                exp = build(S, t, lambda p: F2(S, S.sym("a." + tag(p), (2,)), S.sym("b." + tag(pair[p]), (2,)), (2,)))
                R.equal("leaves at equal positions are merged, in the first tree's structure", S, r.value, exp, r.pc, what)
                order = tuple((S.sym("a." + tag(p), (2,)), S.sym("b." + tag(q), (2,))) for p, q in pair.items())
                R.equal("the function is applied once per leaf, in order", S, tuple(calls), order, r.pc, what + " calls")
    # leaves need not be tensors
    fn, calls = recorder(S)
    pairfn = OpaqueFn("pair", lambda e, a, k: "+".join(map(str, a)))
    r = S.run(lambda: eng.call(f, [pairfn, eng.new_dict([("x", 1), ("a", (2, "three"))]), eng.new_list([10, 20, 30])], {}))
    if R.no_raise("trees with as many leaves are merged", r, D.TRUE, "plain leaves"):
        R.equal("leaves at equal positions are merged, in the first tree's structure", S, r.value,
                eng.new_dict([("x", "1+30"), ("a", ("2+10", "three+20"))]), r.pc, "plain leaves")
    for t, u in (([X], [X, X]), ([X, X], [X]), (X, []), ({"a": X}, {}), ([X, None], [X, X])):
        a = build(S, t, lambda p: S.sym("a." + tag(p), (2,)))
        b = build(S, u, lambda p: S.sym("b." + tag(p), (2,)))
        r = S.run(lambda: eng.call(f, [recorder(S)[0], a, b], {}))
        R.must_raise("trees with different numbers of leaves are not merged", r, [], D.TRUE, f"{show(t)} with {show(u)}: merge_pytrees")
    R.saw(S)


def c20_operator_trees(R, tier):
    S = Scene(None)
    eng = S.eng
    f = S.util("execute_binary_operator")
    fam = trees(tier)
    for t, u in list(itertools.product(fam, fam)) + random_pairs(40 if tier == "quick" else 400, "operator") + alike():
        a = build(S, t, lambda p: S.sym("a." + tag(p), (2, 3)))
        b = build(S, u, lambda p: S.sym("b." + tag(p), (2, 3)))
        fn, calls = recorder(S)
        what = f"{show(t)} with {show(u)}: execute_binary_operator"
        r = S.run(lambda: eng.call(f, [fn, a, b, "context"], {}))
        if not prefix(t, u) and not prefix(u, t):
            R.must_raise("incompatible trees raise RuntimeError", r, ["RuntimeError"], D.TRUE, what)
            continue
        if R.no_raise("compatible trees are combined", r, D.TRUE, what):
            big = u if prefix(t, u) else t
            exp = build(S, big, lambda p: F2(S, S.sym("a." + tag(above(t, p)), (2, 3)), S.sym("b." + tag(above(u, p)), (2, 3)), (2, 3)))
            R.equal("the operator pairs each leaf with the one at or above its place, in the given order", S, r.value, exp, r.pc, what)
            R.add("the operator is called once per leaf", "held" if len(calls) == len(list(paths(big))) else "violated", f"{what}: {len(calls)} calls")
    R.saw(S)


DIMS = (1, 2, 3)


def shapes_upto(n, dims=DIMS):
    for k in range(n + 1):
        yield from itertools.product(dims, repeat=k)


def left_shape(a, b):
    """the shape of the left aligned combination, None when there is none"""
    if a == () or b == ():
        return a or b
    n = max(len(a), len(b))
    a2, b2 = a + (1,) * (n - len(a)), b + (1,) * (n - len(b))
    out = []
    for x, y in zip(a2, b2):
        if x != y and 1 not in (x, y):
            return None
        out.append(y if x == 1 else x)
    return tuple(out)


def c20_operator_shapes(R, tier):
    S = Scene(None)
    eng = S.eng
    f = S.util("execute_binary_operator")
    sub = OpaqueFn("difference", lambda e, a, k: J.arith(e, "sub", a[0], a[1]))
    dims = (1, 2, 3) if tier == "thorough" else (1, 3)
    sh = list(shapes_upto(3, dims))
    for a, b in itertools.product(sh, sh):
        if tier == "quick" and len(a) == len(b) == 3:
            continue
        x, y = S.sym("a", a), S.sym("b", b)
        o = left_shape(a, b)
        what = f"shapes {list(a)} and {list(b)}: execute_binary_operator"
        r = S.run(lambda: eng.call(f, [sub, x, y, "context"], {}))
        if o is None:
            R.must_raise("shapes that do not align on the left raise RuntimeError", r, ["RuntimeError"], D.TRUE, what)
        elif R.no_raise("shapes that align on the left are combined", r, D.TRUE, what):
            R.equal("dimensions are aligned on the left", S, r.value, TensorV(o, "float32", D.sub(J.kindnode(x), J.kindnode(y)), False, None), r.pc, what)
    # broadcasting of trees and of dimensions together
    x = S.sym("w", (2, 3))
    tree = build(S, {"b": [X, X], "a": X}, lambda p: S.sym("t." + tag(p), (2, 3) + {"a": (), 0: (4,), 1: (5, 6)}[p[-1]]))
    for flip in (False, True):
        r = S.run(lambda: eng.call(f, [sub] + ([tree, x] if flip else [x, tree]) + ["context"], {}))
        if R.no_raise("compatible trees are combined", r, D.TRUE, "a tensor with a tree"):
            def leaf(p):
                t = S.sym("t." + tag(p), (2, 3) + {"a": (), 0: (4,), 1: (5, 6)}[p[-1]])
                d = D.sub(J.kindnode(x), J.kindnode(t))
                return TensorV(t.shape, "float32", D.neg(d) if flip else d, False, None)
            R.equal("a tensor is combined with every leaf of a tree, aligned on the left", S, r.value, build(S, {"b": [X, X], "a": X}, leaf), r.pc,
                    "tree" if flip else "tensor")
    # a failing operator
    bad = OpaqueFn("bad", lambda e, a, k: e.throw("ValueError", "no"))
    r = S.run(lambda: eng.call(f, [bad, x, x, "context"], {}))
    R.must_raise("a failing operator is reported as RuntimeError", r, ["RuntimeError"], D.TRUE, "execute_binary_operator")
    R.saw(S)


def c20_left(R, tier):
    S = Scene(None)
    eng = S.eng
    f = S.util("setup_left_broadcast")
    for a in shapes_upto(2):
        for n in range(4):
            x = S.sym("a", a)
            t = S.sym("b", (3,) * n)
            r = S.run(lambda: eng.call(f, [x, t], {}))
            what = f"shape {list(a)} for rank {n}: setup_left_broadcast"
            if len(a) <= n:
                if R.no_raise("a tensor of no higher rank can be aligned", r, D.TRUE, what):
                    R.equal("dimensions are added on the right", S, r.value,
                            TensorV(a + (1,) * (n - len(a)) if a else (), "float32", J.kindnode(x), False, None), r.pc, what)
            elif a:
                R.must_raise("a tensor of higher rank is refused", r, [], D.TRUE, what)
    R.saw(S)


def c20_structure(R, tier):
    S = Scene(None)
    eng = S.eng
    f = S.util("are_pytree_structure_equal")
    fam = trees(tier) + [e for e in EMPTIES if "None" not in repr(e)]
    for t, u in list(itertools.product(fam, fam)) + random_pairs(40 if tier == "quick" else 400, "structure") + alike():
        a = build(S, t, lambda p: S.sym("a." + tag(p), (2,)))
        b = build(S, u, lambda p: S.sym("b." + tag(p), (7, 2), "int32"))
        c = build(S, u, lambda p: len(p))
        for v in (b, c):
            r = S.run(lambda: eng.call(f, [a, v], {}))
            what = f"{show(t)} and {show(u)}: are_pytree_structure_equal"
            if R.no_raise("the structure test does not raise", r, D.TRUE, what):
                R.equal("the structure test holds exactly for trees of the same structure", S, r.value, same_shape(t, u), r.pc, what)
    R.saw(S)


def c20_equal(R, tier):
    S = Scene(None)
    eng = S.eng
    f = S.util("are_pytrees_equal")
    fam = trees(tier) + EMPTIES
    ask = lambda a, b, k: eng.call(f, [a, b] + k, {})
    # the answers are used as truth values
    for t, u in list(itertools.product(fam, fam)) + alike():
        a = build(S, t, lambda p: S.sym("a." + tag(p), (2,)))
        b = build(S, u, lambda p: S.sym("a." + tag(p), (2,)))
        for k in ([], [False]):
            r = S.run(lambda: truth(S, ask(a, b, k)))
            what = f"{show(t)} and {show(u)} with equal leaves: are_pytrees_equal"
            if R.no_raise("the equality test does not raise", r, D.TRUE, what):
                R.equal("trees with equal leaves are equal exactly when their structures are", S, r.value, same_shape(t, u), r.pc, what)
    # contents
    for t in fam[:12]:
        ps = list(paths(t))
        for pos in ps:
            a = build(S, t, lambda p: S.sym("a." + tag(p), (2, 3)))
            b = build(S, t, lambda p: S.sym(("b." if p == pos else "a.") + tag(p), (2, 3)))
            na, nb = J.kindnode(S.sym("a." + tag(pos), (2, 3))), J.kindnode(S.sym("b." + tag(pos), (2, 3)))
            what = f"{show(t)} differing in leaf {tag(pos)}: are_pytrees_equal"
            r = S.run(lambda: truth(S, ask(a, b, [False])))
            if R.no_raise("the equality test does not raise", r, D.TRUE, what):
                R.equal_nodes("without tolerance the test holds exactly for equal contents", eng.boolnode(r.value), D.reduce_all(D.eq(na, nb)), r.pc, what)
            for k in ([], [True]):
                r = S.run(lambda: truth(S, ask(a, b, k)))
                if R.no_raise("the equality test does not raise", r, D.TRUE, what):
                    n = eng.boolnode(r.value)
                    d = D.sub(na, nb)
                    far = D.reduce_any(D.bor(D.gt(d, D.add(D.num(1), nb)), D.gt(D.neg(d), D.add(D.num(1), nb))))
                    R.holds("with tolerance equal contents are equal", n, D.band(r.pc, D.reduce_all(D.eq(na, nb))), what)
                    near = D.reduce_all(D.band(D.ge(nb, D.num(0)), D.ge(d, D.num(0)), D.le(d, D.mul(D.num(Fraction(1, 10 ** 6)), nb))))
                    R.holds("with tolerance contents close to each other are equal", n, D.band(r.pc, near), what)
                    pos_b = D.reduce_all(D.ge(nb, D.num(0)))
                    R.holds("with tolerance contents far apart are not equal", D.bnot(n), D.band(r.pc, pos_b, far), what)
            for other, w in ((3, "a number"), ("x", "a string")):
                c = build(S, t, lambda p: other if p == pos else S.sym("a." + tag(p), (2, 3)))
                for x, y in ((a, c), (c, a)):
                    r = S.run(lambda: truth(S, ask(x, y, [])))
                    if R.no_raise("the equality test does not raise", r, D.TRUE, what):
                        R.equal("leaves of different types are not equal", S, r.value, False, r.pc, f"{show(t)} with {w} for leaf {tag(pos)}: are_pytrees_equal")
    for x, y in ((1, 1), (1, 2), ("a", "a"), ("a", "b"), (True, False), (1.5, 1.5), (1.5, 2.5), (0, 5)):
        a, b = eng.new_list([x, S.sym("a", (2,))]), eng.new_list([y, S.sym("a", (2,))])
        for k in ([], [False]):
            r = S.run(lambda: truth(S, ask(a, b, k)))
            if R.no_raise("the equality test does not raise", r, D.TRUE, f"{x!r} and {y!r}"):
                R.equal("plain leaves are compared with ==", S, r.value, x == y, r.pc, f"leaves {x!r} and {y!r}: are_pytrees_equal")
    R.saw(S)


def truth(S, v):
    if isinstance(v, TensorV) and v.shape == ():
        return BoolV(J.kindnode(v))
    t = S.eng.truth(v)
    return BoolV(t) if isinstance(t, D.Node) else t


def c20_right(R, tier):
    S = Scene(None)
    eng = S.eng
    f = S.util("can_right_broadcast")
    zero = [(0,), (1,), (2,), (), (0, 2), (2, 0), (1, 0), (0, 1), (0, 0)]
    for a, b in list(itertools.product(list(shapes_upto(3)), repeat=2)) + list(itertools.product(zero, repeat=2)):
        if tier == "quick" and len(a) == 3 and len(b) == 3 and (a[0], b[0]) != (2, 2) and a[1:] != b[1:]:
            continue
        exp = all(x == y or 1 in (x, y) for x, y in zip(a[::-1], b[::-1]))
        r = S.run(lambda: truth(S, eng.call(f, [S.sym("a", a), S.sym("b", b)], {})))
        what = f"shapes {list(a)} and {list(b)}: can_right_broadcast"
        if R.no_raise("the broadcast test does not raise", r, D.TRUE, what):
            R.equal("the broadcast test holds exactly when numpy broadcasting is possible", S, r.value, exp, r.pc, what)
    R.saw(S)


# ---------------------------------------------------------------------- C23

C23_SCN = Scn("state", (2,), {"a": L(3)})


def c23(R, tier):
    R.block("message format", c23_format, R)
    for how in ("python", "tensor"):
        for n in (0, 1, 2, 3):
            for mode in ("debug", "checkify", None, "silence", "other"):
                R.block(f"{n} predicates giving {how} booleans, mode {mode}", c23_execute, R, how, n, mode)
    R.block("epsilon and iterations", c23_fields, R)
    R.block("checkify wrapper", c23_wrapper, R)


CONTEXT = "While doing something:"
MESSAGES = ["first\n    second indented", "  only one line", "\n        a\n          b\n        c\n"]
# texts that would be read as instructions by a template
TEMPLATES = ["{message} {context} {} {0}", "100% %s %(message)s %d", "$message ${context} \\1 \\g<0> \\n", "{msg} [message] <message>\n  {{message}}"]


def contains_parts(got, ctx, msg):
    """context first, then every line of the message further in than the context"""
    if not isinstance(got, str):
        return None
    ctx_lines = [x.strip() for x in ctx.splitlines() if x.strip()]
    lines = [x for x in got.splitlines()]
    body = [x for x in lines if x.strip()]
    want = ctx_lines + [x.strip() for x in msg.splitlines() if x.strip()]
    if [x.strip() for x in body] != want:
        return False
    head, tail = body[:len(ctx_lines)], body[len(ctx_lines):]
    ded = [x for x in textwrap.dedent(msg).splitlines() if x.strip()]
    cded = [x for x in textwrap.dedent(ctx).splitlines() if x.strip()]
    return head == cded and all(t.startswith(" ") and len(t) - len(t.lstrip()) > len(d) - len(d.lstrip()) for t, d in zip(tail, ded)) \
        and len({len(t) - len(d) for t, d in zip(tail, ded)}) <= 1


def c23_format(R):
    S = Scene(None)
    f = S.util("format_error_message")
    for ctx in [CONTEXT, "\n    Deep\n      context", "one\ntwo"] + TEMPLATES:
        for msg in MESSAGES + TEMPLATES:
            r = S.run(lambda: S.eng.call(f, [msg, ctx], {}))
            if R.no_raise("formatting does not raise", r, D.TRUE, "format_error_message"):
                ok = contains_parts(r.value, ctx, msg)
                R.add("the message is the context followed by the indented message", "held" if ok else "undecided" if ok is None else "violated",
                      f"format_error_message({msg!r}, {ctx!r}) gives {r.value!r}")
                # where the message stands in the source does not show
                deeper = textwrap.indent(textwrap.dedent(msg), " "*12)
                q = S.run(lambda: S.eng.call(f, [deeper, ctx], {}))
                z = S.run(lambda: S.eng.call(f, [textwrap.dedent(msg), ctx], {}))
                if q.ok and z.ok:
                    ok = isinstance(q.value, str) and isinstance(z.value, str) and q.value.rstrip() == z.value.rstrip()
                    R.add("the indentation the message has in the source does not show", "held" if ok else "violated",
                          f"format_error_message({deeper!r}, {ctx!r}) gives {q.value!r}")
    R.saw(S)


def predicates(S, how, n, seen):
    out = []
    conds = []
    for i in range(n):
        c = D.batom(("bsym", f"pred{i}", ()))
        conds.append(c)

        def h(eng, a, k, i=i, c=c):
            seen.append((i, a[0]))
            return BoolV(c) if how == "python" else TensorV((), "bool", c, False, eng.loc(), False)
        out.append((OpaqueFn(f"pred{i}", h), f"message number {i}\n  of the predicates"))
    return S.eng.new_list(out), conds


def c23_execute(R, how, n, mode):
    S = Scene(C23_SCN)
    eng = S.eng
    st = S.state("none", error_mode=mode)
    modes = [("", mode, st)]
    if mode in ("debug", "checkify"):
        member = S.get(S.cls("ErrorModes", "core.states"), mode)
        modes.append((" (enum member)", mode, S.state("none", error_mode=member)))
    for label, m, s in modes:
        for op_name, op in (("a tensor", S.sym("x", (2,))), ("a string", "operand"), ("a tree", eng.new_list([S.sym("y", (3,)), 1]))):
            seen = []
            preds, conds = predicates(S, how, n, seen)
            ok = D.band(*conds)
            what = f"error_mode {m!r}{label}, {op_name}: execute_validation"
            if m == "checkify":
                # recorded by an enclosing checkify
                n_ev = len(eng.events)
                wrapped = ext(S, "jax.experimental.checkify.checkify", BuiltinV("driver", lambda e, a, k: (S.m(s, "execute_validation", op, preds, CONTEXT), None)[1]))
                r = S.run(lambda: eng.call(wrapped, [], {}))
                if R.no_raise("checkify mode records instead of raising", r, D.TRUE, what):
                    err = r.value[0]
                    R.equal_nodes("an error is recorded exactly when a predicate fails", err.node, D.bnot(ok), r.pc, what)
                for e in eng.events[n_ev:]:
                    if e.kind == "check":
                        i = e.data
                        good = [contains_parts(i, CONTEXT, f"message number {k}\n  of the predicates") for k in range(n)]
                        R.add("the error message is the context followed by the indented message",
                              "undecided" if None in good else "held" if any(good) else "violated", f"{what}: {i!r}", e.loc)
                r = S.run(lambda: S.m(s, "execute_validation", op, preds, CONTEXT), ok)
                if R.no_raise("nothing is reported when every predicate holds", r, D.TRUE, what):
                    R.equal("the value is returned unchanged", S, r.value, op, r.pc, what)
                continue
            r = S.run(lambda: S.m(s, "execute_validation", op, preds, CONTEXT))
            if m == "debug":
                R.must_raise("a failing predicate raises ValueError", r, ["ValueError"], D.bnot(ok), what)
                R.no_raise("nothing is reported when every predicate holds", r, ok, what)
                for x in r.raises:
                    if r.exc_name(x) != "ValueError" or D.sat(x.pc) is None:
                        continue
                    msg = r.exc_msg(x)
                    first = [k for k in range(n) if D.sat(D.band(x.pc, D.bnot(conds[k]), *conds[:k])) is not None]
                    good = [contains_parts(msg, CONTEXT, f"message number {k}\n  of the predicates") for k in range(n)
                            if D.valid(D.bnot(conds[k]), x.pc) is None]
                    R.add("the error message is the context followed by the indented message",
                          "undecided" if None in good or not good else "held" if any(good) else "violated", f"{what}: {msg!r}", x.loc)
            else:
                R.no_raise("nothing is validated in other modes", r, D.TRUE, what)
            if r.ok:
                R.equal("the value is returned unchanged", S, r.value, op, r.pc, what)
                if m == "debug":
                    for i, v in seen:
                        R.equal("the predicates are asked about the value", S, v, op, D.TRUE, what)
    R.saw(S)


def c23_fields(R):
    S = Scene(C23_SCN)
    eng = S.eng
    D.declare("anye")
    e = D.leaf(D.psym("anye"))
    ein = D.band(D.ge(e, D.num(0)), D.ge(D.num(1), e))
    D.declare("val")
    v = S.sym("val", (2,))
    low = D.reduce_all(D.ge(v.node, D.num(0)))
    cases = [("validate_epsilon", ScalarV(e), ein), ("validate_epsilon", TensorV((), "float32", e, True, None), ein), ("validate_iterations", v, low),
             ("validate_iterations", S.sym("val", (2,), "float16"), low), ("validate_iterations", S.sym("vali", (2,), "int32"), D.FALSE)]
    for mode in ("debug", None):
        st = S.state("none", error_mode=mode)
        for meth, val, ok in cases:
            r = S.run(lambda: S.m(st, meth, val, CONTEXT))
            what = f"error_mode {mode!r}: {meth}"
            if mode == "debug":
                R.must_raise("an inadmissible field value raises ValueError", r, ["ValueError"], D.bnot(ok), what)
                R.no_raise("an admissible field value is accepted", r, ok, what)
            else:
                R.no_raise("nothing is validated in other modes", r, D.TRUE, what)
            if r.ok:
                R.equal("the value is returned unchanged", S, r.value, val if isinstance(val, TensorV) else Num(e), r.pc, what)
    st = S.state("none", error_mode="checkify")
    for meth, val, ok in cases:
        if meth == "validate_iterations" and val.dtype == "int32":
            continue
        wrap = S.util("jit_and_checkify")
        f = eng.call(wrap, [BuiltinV("driver", lambda e_, a, k, meth=meth: S.m(st, meth, a[0], CONTEXT))], {})
        r = S.run(lambda: eng.call(f, [val], {}))
        what = f"error_mode 'checkify': {meth} under checkify"
        R.must_raise("an inadmissible field value is recorded", r, ["ValueError"], D.bnot(ok), what)
        R.no_raise("an admissible field value is accepted", r, ok, what)
    R.saw(S)


def c23_wrapper(R):
    S = Scene(None)
    eng = S.eng
    wrap = S.util("jit_and_checkify")
    D.declare("w")
    D.declare("w2")
    outputs = {"a tuple": lambda a, k: (J.arith(eng, "add", a[0], 1), eng.new_dict([("y", k.get("y"))])), "None": lambda a, k: None,
               "a tensor": lambda a, k: J.arith(eng, "add", a[0], 1), "an empty tuple": lambda a, k: (), "an empty dict": lambda a, k: eng.new_dict([]),
               "a list": lambda a, k: eng.new_list([a[0], a[0], None]), "a boolean tensor": lambda a, k: J.tensor_compare(eng, "lt", a[0], 0)}

    def driver(n, out, first=0):
        def h(e, a, k):
            for i in range(first, first + n):
                ext(S, "jax.experimental.checkify.check", J.tensor_compare(e, "lt", a[0], i), f"not below {i}")
            return outputs[out](a, k)
        return BuiltinV("driver", h)

    def expect(x, n, first=0):
        return D.band(*[D.gt(D.num(k), J.kindnode(x)) for k in range(first, first + n)])

    def judge(r, ok, what, value):
        R.must_raise("a recorded error is raised", r, ["JaxRuntimeError"], D.bnot(ok), what)
        R.no_raise("nothing is raised when every check holds", r, ok, what)
        if r.ok:
            R.equal("the output is that of the function", S, r.value, value, D.band(r.pc, ok), what)

    x = S.sym("w", (), "float32")
    x2 = S.sym("w2", (), "float32")
    y = S.sym("v", (3,))
    for n in (0, 1, 2, 3):
        for out in outputs:
            for kw in ({"y": y}, {}):
                if out == "a tuple" and not kw:
                    continue
                r = S.run(lambda: eng.call(eng.call(wrap, [driver(n, out)], {}), [x], dict(kw)))
                judge(r, expect(x, n), f"{n} checks, result {out}, {'a' if kw else 'no'} keyword: jit_and_checkify", outputs[out]([x], kw))
    # a wrapper is used again, and several wrappers exist
    for n, m in ((1, 1), (1, 0), (0, 1), (2, 1)):
        for out, out2 in (("a tensor", "None"), ("None", "a tensor"), ("a tuple", "a tuple")):
            def two_calls():
                f = eng.call(wrap, [driver(n, out)], {})
                return eng.call(f, [x], {"y": y}), eng.call(f, [x2], {"y": y})
            judge(S.run(two_calls), D.band(expect(x, n), expect(x2, n)), f"{n} checks, two calls of one wrapper: jit_and_checkify",
                  (outputs[out]([x], {"y": y}), outputs[out]([x2], {"y": y})))

            def two_wrappers():
                f, g = eng.call(wrap, [driver(n, out)], {}), eng.call(wrap, [driver(m, out2, 5)], {})
                return eng.call(f, [x], {"y": y}), eng.call(g, [x2], {"y": y}), eng.call(f, [x2], {"y": y})
            judge(S.run(two_wrappers), D.band(expect(x, n), expect(x2, m, 5), expect(x2, n)), f"{n} and {m} checks, two wrappers: jit_and_checkify",
                  (outputs[out]([x], {"y": y}), outputs[out2]([x2], {"y": y}), outputs[out]([x2], {"y": y})))
    R.saw(S)
