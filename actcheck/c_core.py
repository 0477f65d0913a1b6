"""Checks of the controller's arithmetic and protocol: C01-C08."""
from . import domain as D
from . import jaxmodel as J
from .harness import *
from .values import *

ONE = D.num(1)


def batch_leaf(S, spec_trail):
    return S.scn.batch + spec_trail


def committed(S, pending="all", hp=None):
    """controller over an arbitrary state, with one commit applied"""
    st = S.state(pending)
    c = S.controller(st)
    return S.run(lambda: S.m(c, "iterate_act", S.hp() if hp is None else hp)), c


def leaves_of_spec(spec, path=""):
    if isinstance(spec, L):
        yield path, spec
    elif isinstance(spec, (list, tuple)):
        for i, s in enumerate(spec):
            yield from leaves_of_spec(s, f"{path}.{i}")
    elif isinstance(spec, dict):
        for k, s in spec.items():
            yield from leaves_of_spec(s, f"{path}.{k}")


def expect_accs(S, f):
    """accumulators with leaf f(name of the leaf, shape, dtype, spec) -> node"""
    def leaf(prefix, sh, dt, spec):
        return TensorV(sh, dt, f(prefix[4:], sh, dt, spec), False, None)
    return S.accs("acc.", leaf=lambda prefix, sh, dt, spec: leaf(prefix, sh, dt, spec))


def sym_node(S, name, sh):
    return S.sym(name, sh).node


def each_leaf(S, v, path=""):
    """(path, tensor) of an abstract pytree without gates; gates are undecided"""
    eng = S.eng
    if isinstance(v, TensorV):
        yield path, v
    elif isinstance(v, tuple):
        for i, x in enumerate(v):
            yield from each_leaf(S, x, f"{path}[{i}]")
    elif isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, ListCell):
            for i, x in enumerate(c.items):
                yield from each_leaf(S, x, f"{path}[{i}]")
        elif isinstance(c, DictCell):
            for k, x in c.items.values():
                yield from each_leaf(S, x, f"{path}[{k!r}]")
        elif isinstance(c, AltCell):
            raise Undecided("alternative containers")
        elif is_record(c):
            for k, x in record_items(eng, c):
                yield from each_leaf(S, x, f"{path}.{k}")


# --------------------------------------------------------------------- C01


def c01(R, tier):
    for scn in scenes(tier):
        R.block(scn.name, c01_scene, R, scn)
        if tier == "thorough":
            R.block(scn.name + " twice", c01_twice, R, scn)


def c01_scene(R, scn):
    S = Scene(scn)
    r, c = committed(S)
    H = S.halted
    if not R.no_raise("committing does not raise", r, H, "iterate_act"):
        R.saw(S)
        return
    n = r.value
    g = D.band(r.pc, H)
    R.equal("residual of a halted element", S, S.get(n, "residuals"), S.sym("res", scn.batch, scn.core), g, "residuals")
    R.equal("iterations of a halted element", S, S.get(n, "iterations"), S.sym("iter", scn.batch, scn.core), g, "iterations")
    R.equal("accumulator slices of a halted element", S, S.get(n, "accumulators"), S.accs("acc"), g, "accumulators")
    hb = S.get(n, "halted_batches")
    if isinstance(hb, TensorV):
        R.holds("a halted element stays halted", J.kindnode(hb), g, "halted_batches", hb.loc)
    independence(R, S, n, r.pc)
    R.saw(S)


def independence(R, S, n, pc):
    """no element of the result depends on another batch element"""
    items = [("probabilities", S.get(n, "probabilities")), ("residuals", S.get(n, "residuals")), ("iterations", S.get(n, "iterations"))]
    items += list(each_leaf(S, S.get(n, "accumulators"), "accumulators"))
    for path, t in items:
        if not isinstance(t, TensorV):
            raise Undecided(f"{path} is gated")
        a, b = foreign_split(J.kindnode(t), S.scn.batch)
        pa, pb = foreign_split(pc, S.scn.batch)
        R.equal_nodes("elements do not influence one another", a, b, D.band(pa, pb), path, t.loc)


def c01_twice(R, scn):
    """two further commits with unrelated updates and probabilities"""
    S = Scene(scn)
    st = S.state("all")
    c = S.controller(st)

    def f():
        c2 = S.m(c, "iterate_act", S.hp())
        for name, spec in scn.accs.items():
            c2 = S.m(c2, "cache_update", name, S.tree(spec, f"upd2.{name}", True))
        return S.m(c2, "iterate_act", S.sym("hp2", scn.batch, scn.core))
    r = S.run(f)
    H = S.halted
    if R.no_raise("committing twice does not raise", r, H, "iterate_act"):
        g = D.band(r.pc, H)
        n = r.value
        R.equal("residual after two commits", S, S.get(n, "residuals"), S.sym("res", scn.batch, scn.core), g, "residuals")
        R.equal("iterations after two commits", S, S.get(n, "iterations"), S.sym("iter", scn.batch, scn.core), g, "iterations")
        R.equal("accumulators after two commits", S, S.get(n, "accumulators"), S.accs("acc"), g, "accumulators")
    R.saw(S)


# --------------------------------------------------------------------- C02


def clamped(S, name="hp"):
    h = S.node(name)
    return D.mul(S.dep, D.vmin(D.vmax(h, D.num(0)), ONE))


def c02(R, tier):
    for scn in scenes(tier):
        R.block(scn.name, c02_scene, R, scn)


def c02_scene(R, scn):
    S = Scene(scn)
    r, c = committed(S)
    if not R.no_raise("committing does not raise", r, D.TRUE, "iterate_act"):
        R.saw(S)
        return
    t = S.get(r.value, "probabilities")
    if not isinstance(t, TensorV):
        raise Undecided("gated probabilities")
    n = J.kindnode(t)
    p, g = S.p, r.pc
    R.add("shape and dtype kept", "held" if (t.shape, t.dtype) == (scn.batch, scn.core) else "violated",
          f"probabilities became {t.dtype}{list(t.shape)}", t.loc)
    R.holds("never decreases", D.ge(n, p), g, "probabilities", t.loc)
    R.holds("never below zero", D.ge(n, D.num(0)), g, "probabilities", t.loc)
    R.holds("never above one", D.le(n, ONE), g, "probabilities", t.loc)
    q = D.add(p, clamped(S))
    th = D.sub(ONE, S.eps)
    un = D.bnot(S.halted)
    R.equal_nodes("grows by the clamped, depressed probability while below the threshold", n, q,
                  D.band(g, un, D.bnot(D.gt(q, th))), "probabilities", t.loc)
    R.equal_nodes("becomes one on the crossing step", n, ONE, D.band(g, un, D.gt(q, th)), "probabilities", t.loc)
    R.saw(S)


# --------------------------------------------------------------------- C03


def c03(R, tier):
    for scn in scenes(tier):
        R.block(scn.name, c03_scene, R, scn)


def c03_scene(R, scn):
    S = Scene(scn)
    r, c = committed(S)
    if not R.no_raise("committing does not raise", r, D.TRUE, "iterate_act"):
        R.saw(S)
        return
    n = r.value
    t, p2 = S.get(n, "residuals"), S.get(n, "probabilities")
    if not isinstance(t, TensorV) or not isinstance(p2, TensorV):
        raise Undecided("gated residuals")
    th = D.sub(ONE, S.eps)
    crossing = D.band(D.bnot(S.halted), D.gt(J.kindnode(p2), th))
    res = S.node("res")
    R.add("shape and dtype kept", "held" if (t.shape, t.dtype) == (scn.batch, scn.core) else "violated",
          f"residuals became {t.dtype}{list(t.shape)}", t.loc)
    v = J.kindnode(t)
    R.equal_nodes("becomes the budget left on the halting step", v, D.sub(ONE, S.p), D.band(r.pc, crossing), "residuals", t.loc)
    R.equal_nodes("unchanged on every other step", v, res, D.band(r.pc, D.bnot(crossing)), "residuals", t.loc)
    R.holds("within [0, 1]", D.band(D.ge(v, D.num(0)), D.le(v, ONE)), r.pc, "residuals", t.loc)
    R.saw(S)


# --------------------------------------------------------------------- C04


def c04(R, tier):
    for scn in scenes(tier):
        R.block(scn.name, c04_scene, R, scn)


def c04_scene(R, scn):
    S = Scene(scn)
    r, c = committed(S)
    if not R.no_raise("committing does not raise", r, D.TRUE, "iterate_act"):
        R.saw(S)
        return
    n = r.value
    p2 = S.get(n, "probabilities")
    if not isinstance(p2, TensorV):
        raise Undecided("gated probabilities")
    gain = D.sub(J.kindnode(p2), S.p)
    live = D.bnot(S.halted)

    def leaf(prefix, sh, dt, spec):
        return TensorV(sh, dt, D.add(S.sym("acc" + prefix, sh).node, D.mul(gain, S.sym("upd" + prefix, sh).node)), False, None)
    exp = S.accs("", leaf=leaf)
    R.equal("accumulator gains update times probability mass", S, S.get(n, "accumulators"), exp, D.band(r.pc, live), "accumulators")
    # structure, shape and dtype hold for every element
    R.equal("structure, shape and dtype of the accumulators are kept", S, shapes_only(S, S.get(n, "accumulators")),
            shapes_only(S, S.accs("acc")), r.pc, "accumulators")
    other_containers(R, S)
    # through the indexing shorthand
    for name in scn.accs:
        a, b = S.m(n, "__getitem__", name), S.eng.getitem(S.get(n, "accumulators"), name)
        R.equal("controller[name] is the accumulator", S, a, b, r.pc, f"[{name!r}]")
    R.saw(S)


def other_containers(R, S):
    """an update whose leaves sit in containers of another kind may be refused, but never changes the accumulator's"""
    eng = S.eng

    def ways(v):
        yield "a list of its leaves", eng.new_list(list(x for _, x in each_leaf(S, v)))
        yield "a tuple of its leaves", tuple(x for _, x in each_leaf(S, v))
        yield "a dictionary of its leaves", eng.new_dict([(f"k{i:03}", x) for i, (_, x) in enumerate(each_leaf(S, v))])
        yield "one more list", eng.new_list([v])
    for name in S.scn.accs:
        spec = S.scn.accs[name]
        if any(True for x in [S.tree(spec, f"upd.{name}", True)] if isinstance(x, Ref) and is_record(eng.cell(x))):
            continue
        try:
            kinds = list(ways(S.tree(spec, f"upd.{name}", True)))
        except Undecided:
            continue
        for what, item in kinds:
            r = S.run(lambda: S.m(S.m(S.controller(S.state([n for n in S.scn.accs if n != name])), "cache_update", name, item), "iterate_act", S.hp()))
            if r.ok:
                R.equal("structure, shape and dtype of the accumulators are kept", S, shapes_only(S, S.get(r.value, "accumulators")),
                        shapes_only(S, S.accs("acc")), r.pc, f"accumulators, updated by {what}")


def shapes_only(S, v):
    def f(x):
        if isinstance(x, TensorV):
            return TensorV(x.shape, x.dtype, D.num(0) if x.dtype != "bool" else D.FALSE, False, x.loc)
        if isinstance(x, PhiV):
            return PhiV(x.cond, shapes_only(S, x.a), shapes_only(S, x.b))
        return x
    return map_tree(S.eng, v, f)


# --------------------------------------------------------------------- C05


def c05(R, tier):
    for scn in scenes(tier):
        R.block(scn.name, c05_scene, R, scn)


def c05_scene(R, scn):
    S = Scene(scn)
    r, c = committed(S)
    if not R.no_raise("committing does not raise", r, D.TRUE, "iterate_act"):
        R.saw(S)
        return
    t = S.get(r.value, "iterations")
    it = S.node("iter")
    R.equal("running elements advance by one", S, t, TensorV(scn.batch, scn.core, D.add(it, ONE)), D.band(r.pc, D.bnot(S.halted)), "iterations")
    R.equal("halted elements do not advance", S, t, TensorV(scn.batch, scn.core, it), D.band(r.pc, S.halted), "iterations")
    R.saw(S)


# --------------------------------------------------------------------- C06


def c06(R, tier):
    for scn in scenes(tier):
        R.block(scn.name, c06_scene, R, scn)


def c06_scene(R, scn):
    S = Scene(scn)
    st = S.state("all")
    c = S.controller(st)
    H = TensorV(scn.batch, "bool", S.halted)
    exp = {"halted_batches": H, "is_completely_halted": BoolV(D.reduce_all(H.node)), "is_any_halted": BoolV(D.reduce_any(H.node)),
           "halt_threshold": Num(D.sub(ONE, S.eps))}
    for a, x in exp.items():
        r = S.run(lambda: S.get(c, a))
        if R.no_raise(f"controller.{a} is available", r, D.TRUE, a):
            R.equal(f"controller.{a} is the one halting test", S, r.value, x, r.pc, a)
    r = S.run(lambda: S.m(c, "make_viewer"))
    if R.no_raise("make_viewer works", r, D.TRUE, "make_viewer"):
        v = r.value
        for a in ("halted_batches", "halt_threshold"):
            r = S.run(lambda: S.get(v, a))
            if R.no_raise(f"viewer.{a} is available", r, D.TRUE, a):
                R.equal(f"viewer.{a} is the one halting test", S, r.value, exp[a], r.pc, "viewer." + a)
    # the flags follow the state after a commit as well
    r = S.run(lambda: S.m(c, "iterate_act", S.hp()))
    if r.ok:
        n = r.value
        p2 = S.get(n, "probabilities")
        if isinstance(p2, TensorV):
            h2 = TensorV(scn.batch, "bool", D.gt(J.kindnode(p2), D.sub(ONE, S.eps)))
            R.equal("the flags of a committed controller follow its probabilities", S, S.get(n, "halted_batches"), h2, r.pc, "halted_batches")
            R.equal("completely halted after a commit", S, S.get(n, "is_completely_halted"), BoolV(D.reduce_all(h2.node)), r.pc,
                    "is_completely_halted")
            R.equal("any halted after a commit", S, S.get(n, "is_any_halted"), BoolV(D.reduce_any(h2.node)), r.pc, "is_any_halted")
    R.saw(S)


# --------------------------------------------------------------------- C07


def subsets(names):
    out = [[]]
    for n in names:
        out += [s + [n] for s in out]
    return out


def c07(R, tier):
    base = [Scn("two", (2, 3), {"b": L(5), "a": [L(), {"k": L(4)}]}), Scn("one", (4,), {"a": L(4)}),
            Scn("empty tree", (3,), {"a": {}, "b": L(2)}), Scn("long leaves", (2,), {"a": L(2, 3), "b": [L(4, 5, 2), L(3, 1)]})]
    if tier == "thorough":
        base += [Scn("three", (2,), {"c": L(2), "a": (L(), L(3)), "b": L(2, 2)}), Scn("rank0", (), {"a": L(2), "b": L()}),
                 Scn("single", (1,), {"a": L(1), "b": [L(1)]}, scal="arr")]
    base += generated(4 if tier == "quick" else 30, small=True, seed="C07")
    for scn in base:
        names = list(scn.accs)
        for pend in subsets(names) if len(names) < 4 else [[], names, names[:-1], names[1:], names[:1], names[-1:]]:
            R.block(f"{scn.name}, pending {pend}", c07_scene, R, scn, pend)
    for scn in base:
        R.block(f"{scn.name}, malformed updates", c07_bad, R, scn)
        R.block(f"{scn.name}, halting probabilities", c07_hp, R, scn)


def c07_scene(R, scn, pend):
    S = Scene(scn)
    st = S.state(pend)
    c = S.controller(st)
    allp, anyp = len(pend) == len(scn.accs), bool(pend)
    # flags
    for a, x in (("updates_ready_to_commit", allp), ("has_cached_updates", anyp)):
        r = S.run(lambda: S.get(c, a))
        if R.no_raise(f"{a} is available", r, D.TRUE, a):
            R.equal(f"{a} reports {'all' if a[0] == 'u' else 'any'} pending", S, r.value, x, r.pc, a)
    # caching
    for name, spec in scn.accs.items():
        item = S.tree(spec, f"new.{name}", True)
        r = S.run(lambda: S.m(c, "cache_update", name, item))
        if name in pend:
            R.must_raise("caching twice raises RuntimeError", r, ["RuntimeError"], D.TRUE, f"cache_update({name!r})")
        elif R.no_raise("caching a free accumulator does not raise", r, D.TRUE, f"cache_update({name!r})"):
            ups = S.eng.new_dict((n, item if n == name else S.tree(sp, f"upd.{n}", True) if n in pend else None)
                                 for n, sp in scn.accs.items())
            R.equal("the update is pending after caching", S, S.get(S.m(r.value, "save"), "updates"), ups, r.pc, "updates")
    r = S.run(lambda: S.m(c, "cache_update", "never defined", S.sym("x", scn.batch)))
    R.must_raise("caching an undefined name raises ValueError", r, ["ValueError"], D.TRUE, "cache_update('never defined')")
    # committing
    r = S.run(lambda: S.m(c, "iterate_act", S.hp()))
    if not allp:
        R.must_raise("committing with a missing update raises", r, [], D.TRUE, "iterate_act")
    elif R.no_raise("committing with every update does not raise", r, D.TRUE, "iterate_act"):
        ups = S.eng.new_dict((n, None) for n in scn.accs)
        R.equal("a commit consumes every update", S, S.get(S.m(r.value, "save"), "updates"), ups, r.pc, "updates")
        for a in ("updates_ready_to_commit", "has_cached_updates"):
            R.equal(f"{a} is false after a commit", S, S.get(r.value, a), False, r.pc, a)
    # resetting
    r = S.run(lambda: S.m(c, "reset_batches"))
    if anyp:
        R.must_raise("resetting with pending updates raises RuntimeError", r, ["RuntimeError"], D.TRUE, "reset_batches")
    else:
        R.no_raise("resetting without pending updates does not raise", r, D.TRUE, "reset_batches")
    R.saw(S)


def c07_bad(R, scn):
    """updates whose leaf count or leaf shapes differ from the accumulator"""
    S = Scene(scn)
    B = scn.batch
    for name, spec in scn.accs.items():
        ls = list(leaves_of_spec(spec))
        variants = []
        for path, leaf in ls:
            sh = B + leaf.trail
            alts = [sh + (2,), sh + (1,), (1,) + sh]
            if leaf.trail:
                alts += [B + leaf.trail[:-1], B + leaf.trail[:-1] + (1,), B + leaf.trail[:-1] + (leaf.trail[-1] + 1,), leaf.trail, B]
            if B:
                alts += [(B[0] + 1,) + sh[1:], (1,) + sh[1:], sh[1:], ()]
            if sh:
                # as many elements, differently arranged
                alts += [sh[::-1], B + leaf.trail[::-1], sh[1:] + sh[:1], sh[:-1] + (1, sh[-1]), (int(np_size(sh)),)]
            if len(sh) > 1:
                alts += [sh[:-2] + (sh[-1], sh[-2]), sh[:-2] + (sh[-1] * sh[-2],), (sh[0] * sh[1],) + sh[2:]]
            alts = [a for a in dict.fromkeys(alts) if a != sh]
            for a in alts:
                variants.append((f"leaf{path} of shape {list(a)} for {list(sh)}", path, a))
        for what, path, a in variants:
            def mk(prefix, s2, dt, sp, path=path, a=a, pre=f"upd.{name}"):
                return S.sym(prefix, a if prefix == pre + path else s2, dt)
            bad_commit(R, S, name, S.tree(spec, f"upd.{name}", True, leaf=mk), what)
        eng = S.eng
        good = S.tree(spec, f"upd.{name}", True)
        extra = S.sym("extra", B)
        counts = [("one leaf too many (list)", eng.new_list([good, extra])), ("one leaf too many (dict)", eng.new_dict([("u", good), ("v", extra)]))]
        if ls:
            counts.append(("no leaf at all", eng.new_list([])))
        if len(ls) > 1:
            counts.append(("one leaf only", S.sym("only", B + ls[0][1].trail)))
            counts.append(("last leaf missing", drop_last(S, good)))
        for what, item in counts:
            bad_commit(R, S, name, item, what)
    R.saw(S)


def np_size(sh):
    n = 1
    for d in sh:
        n *= d
    return n


def drop_last(S, v):
    if isinstance(v, tuple):
        return v[:-1]
    c = S.eng.cell(v)
    if isinstance(c, ListCell):
        return S.eng.new_list(c.items[:-1])
    if isinstance(c, DictCell):
        return S.eng.new_dict(list(c.items.values())[:-1])
    if is_record(c):
        return S.eng.new_list([x for _, x in record_items(S.eng, c)][:-1])
    return v


def bad_commit(R, S, name, item, what):
    scn = S.scn

    def f():
        c = S.controller(S.state([n for n in scn.accs if n != name]))
        return S.m(S.m(c, "cache_update", name, item), "iterate_act", S.hp())
    r = S.run(f)
    R.must_raise("committing a malformed update raises", r, [], D.TRUE, f"update of {name!r} with {what}: iterate_act")


def c07_hp(R, scn):
    S = Scene(scn)
    st = S.state("all")
    c = S.controller(st)
    B = scn.batch
    alts = [B + (1,), B + (2,), (1,) + B]
    if B:
        alts += [(), (1,) * len(B), B[1:], B[:-1], (B[0] + 1,) + B[1:], (1,) + B[1:]]
        if len(B) > 1:
            alts.append(tuple(reversed(B)))
    for a in dict.fromkeys(alts):
        if a == B:
            continue
        r = S.run(lambda: S.m(c, "iterate_act", S.sym("hp", a)))
        R.must_raise("halting probabilities of another shape raise", r, [], D.TRUE, f"iterate_act with shape {list(a)} for batch {list(B)}")
    R.saw(S)


# --------------------------------------------------------------------- C08


def c08(R, tier):
    for scn in scenes(tier):
        R.block(scn.name, c08_scene, R, scn)


def c08_scene(R, scn):
    S = Scene(scn)
    st = S.state("none")
    c = S.controller(st)
    r = S.run(lambda: S.m(c, "reset_batches"))
    if not R.no_raise("resetting does not raise", r, D.TRUE, "reset_batches"):
        R.saw(S)
        return
    n = r.value
    H = S.halted
    for field, sym in (("probabilities", "prob"), ("residuals", "res"), ("iterations", "iter")):
        t = S.get(n, field)
        z = TensorV(scn.batch, scn.core, D.num(0))
        R.equal(f"{field} of a halted element become zero", S, t, z, D.band(r.pc, H), field)
        R.equal(f"{field} of an unhalted element stay", S, t, S.sym(sym, scn.batch, scn.core), D.band(r.pc, D.bnot(H)), field)
    acc = S.get(n, "accumulators")
    R.equal("accumulators of a halted element become the default", S, acc, S.accs("def"), D.band(r.pc, H), "accumulators")
    R.equal("accumulators of an unhalted element stay", S, acc, S.accs("acc"), D.band(r.pc, D.bnot(H)), "accumulators")
    R.equal("defaults stay", S, S.get(S.m(n, "save"), "defaults"), S.accs("def"), r.pc, "defaults")
    R.saw(S)
