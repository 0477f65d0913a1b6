"""Checks over whole objects: C09 (no mutation), C10 (frame), C11 (pytrees), C12 (tracing), C17 (viewer)."""
import itertools
from . import domain as D
from . import jaxmodel as J
from .harness import *
from .c_core import subsets, leaves_of_spec, expect_accs, shapes_only, each_leaf
from .values import *

FIELDS = ("epsilon", "iterations", "residuals", "probabilities", "defaults", "accumulators", "updates", "depression_constant", "error_mode")


def ext(S, path, *args, **kw):
    return S.eng.call(ExtV(path), list(args), kw)


def viewer_cls(S):
    return S.cls("ACTViewer", "core.viewer")


def builder_cls(S):
    return S.cls("ControllerBuilder", "core.builder")


def editor_cls(S):
    return S.cls("TensorEditor", "core.tensoreditor")


def make_viewer(S, st):
    return S.m(viewer_cls(S), "load", st)


def make_builder(S, st):
    return S.eng.call(builder_cls(S), [st], {})


def make_editor(S, st, mode="standard"):
    return S.m(editor_cls(S), "edit_save", st, mode)


def delete_name(S, b):
    for n in ("delete_definition", "_delete_definition"):
        if attr_of(S, b, n) is not UNBOUND:
            return n
    raise AnchorLost("the builder cannot delete a definition")


def opaque_fn(name="F", shape=None):
    """an arbitrary pure elementwise (or shape changing) function of one tensor"""
    def handler(eng, a, k):
        t = J.to_tensor(eng, a[0], "transform")
        D.declare(name)
        n = D.leaf(D.patom(("fn", name, (J.kindnode(t),))))
        return TensorV(t.shape if shape is None else shape(t.shape), t.dtype, n, False, eng.loc(), t.tracer, False, t.low)
    return OpaqueFn(name, handler)


def state_of(S, o):
    return S.m(o, "save") if attr_of(S, o, "save") is not UNBOUND else S.get(o, "state")


# ------------------------------------------------------------- operations
# (name, pending, make(S, st) -> (roots, call), kind)


def op_table(S, scn):
    """name -> (pending, f(st) -> (dict of roots, thunk), receiver must differ from result)"""
    names = list(scn.accs)
    first, last = names[0], names[-1]

    def ctrl(meth, *args, pend="all", new=False, label=None):
        def mk(st):
            c = S.controller(st)
            a = [x() if callable(x) else x for x in args]
            roots = {"controller": c, "state": st}
            roots.update({f"argument {i}": v for i, v in enumerate(a)})
            return roots, lambda: S.m(c, meth, *a)
        return (label or f"controller.{meth}", pend, mk, new)

    def getter(what, cls_mk, attr, pend="all"):
        def mk(st):
            o = cls_mk(S, st)
            return {what: o, "state": st}, lambda: S.get(o, attr)
        return (f"{what}.{attr}", pend, mk, False)

    def on(what, cls_mk, meth, *args, pend="all", new=False, label=None, kw=None):
        def mk(st):
            o = cls_mk(S, st)
            a = [x() if callable(x) else x for x in args]
            k = {n: x() if callable(x) else x for n, x in (kw or {}).items()}
            roots = {what: o, "state": st}
            roots.update({f"argument {i}": v for i, v in enumerate(a)})
            roots.update({f"argument {n}": v for n, v in k.items()})
            return roots, lambda: S.m(o, meth, *a, **k)
        return (label or f"{what}.{meth}", pend, mk, new)

    def tree_like(name, prefix):
        return lambda: S.tree(scn.accs[name], f"{prefix}.{name}")

    others = [n for n in names if n != first]
    ops = [
        ctrl("cache_update", first, tree_like(first, "new"), pend=others, new=True),
        ctrl("iterate_act", S.hp, pend="all", new=True),
        ctrl("reset_batches", pend="none", new=True),
        ctrl("make_viewer"),
        ctrl("save"),
        ctrl("__getitem__", first),
        # operations that must fail leave everything alone too
        ctrl("cache_update", first, tree_like(first, "new"), pend="all", label="controller.cache_update (again)"),
        ctrl("iterate_act", S.hp, pend=others, label="controller.iterate_act (update missing)"),
        ctrl("reset_batches", pend="all", label="controller.reset_batches (updates pending)"),
    ]
    for a in ("probabilities", "residuals", "iterations", "accumulators", "halt_threshold", "halted_batches", "is_completely_halted",
              "is_any_halted", "updates_ready_to_commit", "has_cached_updates", "depression_constant"):
        ops.append(getter("controller", lambda S, st: S.controller(st), a))
    ops += [
        on("viewer", make_viewer, "transform", opaque_fn(), new=True),
        on("viewer", make_viewer, "mask_data", lambda: S.sym("mask", scn.batch, "bool"), new=True),
        on("viewer", make_viewer, "halted_only", new=True),
        on("viewer", make_viewer, "unhalted_only", new=True),
        on("viewer", make_viewer, "save"),
    ]
    ops += [
        on("builder", make_builder, "define_accumulator_directly", "brand new", tree_like(first, "new"), new=True,
           label="builder.define_accumulator_directly (new name)"),
        on("builder", make_builder, "define_accumulator_directly", first, tree_like(first, "new"), new=True,
           label="builder.define_accumulator_directly (again)"),
        on("builder", make_builder, "define_accumulator_by_shape", "brand new", lambda: S.eng.new_list(scn.batch + (3,)), new=True,
           label="builder.define_accumulator_by_shape"),
        on("builder", make_builder, "define_accumulator_directly", "brand new", lambda: S.sym("x", scn.batch + (2,), "int32"),
           label="builder.define_accumulator_directly (bad dtype)"),
        on("builder", make_builder, "build"),
    ]
    def mk_delete(st):
        b = make_builder(S, st)
        n = delete_name(S, b)
        return {"builder": b, "state": st}, lambda: S.m(b, n, first)
    ops.append(("builder.delete", "all", mk_delete, True))
    for mode in ("standard", "silence"):
        ed = lambda S, st, mode=mode: make_editor(S, st, mode)
        w = "editor"
        D.declare("newp", 0, 1)
        D.declare("newe", 0, 1)
        D.declare("newi", 0)
        newp = lambda: S.sym("newp", scn.batch, scn.core)
        ops += [
            on(w, ed, "set_probabilities", newp, new=True, label=f"editor({mode}).set_probabilities"),
            on(w, ed, "set_residuals", newp, new=True, label=f"editor({mode}).set_residuals"),
            on(w, ed, "set_iterations", lambda: S.sym("newi", scn.batch, scn.core), new=True, label=f"editor({mode}).set_iterations"),
            on(w, ed, "set_epsilon", ScalarV(D.leaf(D.psym("newe"))), new=True, label=f"editor({mode}).set_epsilon"),
            on(w, ed, "set_accumulator", first, tree_like(first, "new"), new=True, label=f"editor({mode}).set_accumulator"),
            on(w, ed, "set_defaults", last, tree_like(last, "new"), new=True, label=f"editor({mode}).set_defaults"),
            on(w, ed, "set_updates", first, tree_like(first, "new"), new=True, label=f"editor({mode}).set_updates"),
            on(w, ed, "build", label=f"editor({mode}).build"),
            on(w, ed, "save", label=f"editor({mode}).save"),
        ]
    for what, cls in (("ACT_Controller", lambda: S.cls("ACT_Controller", "core.controller")), ("ACTViewer", lambda: viewer_cls(S))):
        def mk_load(st, cls=cls):
            return {"state": st}, lambda: S.m(cls(), "load", st)
        ops.append((f"{what}.load", "all", mk_load, False))

    def mk_edit_controller(st):
        c = S.controller(st)
        return {"controller": c, "state": st}, lambda: S.m(editor_cls(S), "edit_controller", c)
    ops.append(("TensorEditor.edit_controller", "all", mk_edit_controller, False))

    def mk_edit_save(st):
        return {"state": st}, lambda: S.m(editor_cls(S), "edit_save", st)
    ops.append(("TensorEditor.edit_save", "all", mk_edit_save, False))

    def mk_replace(st):
        u = S.eng.new_dict([])
        p = S.sym("newp", scn.batch, scn.core)
        return {"state": st, "argument updates": u}, lambda: S.m(st, "replace", updates=u, probabilities=p)
    ops.append(("state.replace", "all", mk_replace, True))
    for what, cls_mk in (("state", lambda S, st: st), ("controller", lambda S, st: S.controller(st)), ("viewer", make_viewer),
                         ("builder", make_builder), ("editor", make_editor)):
        def mk_round(st, cls_mk=cls_mk, what=what):
            o = cls_mk(S, st)

            def go():
                leaves, td = ext(S, "jax.tree_util.tree_flatten", o)
                return ext(S, "jax.tree_util.tree_unflatten", td, leaves)
            return {what: o, "state": st}, go
        ops.append((f"pytree round trip of a {what}", "all", mk_round, False))

        def mk_map(st, cls_mk=cls_mk, what=what):
            o = cls_mk(S, st)
            return {what: o, "state": st}, lambda: ext(S, "jax.tree_util.tree_map", opaque_fn(), o)
        ops.append((f"tree_map over a {what}", "all", mk_map, False))
    # what does not depend on the pending updates is analysed with all, none or some of them pending
    turn = sum(map(ord, scn.name))
    mixed = ["all", "none", others or "none"]
    fixed = ("controller.iterate_act", "controller.cache_update", "controller.reset_batches")
    return [(label, pend if pend != "all" or label.startswith(fixed) else mixed[(turn + i) % 3], mk, new) for i, (label, pend, mk, new) in enumerate(ops)]


C09_SCENES = [Scn("trees", (2, 3), {"z": L(), "a": [L(4), (L(2), {"y": L(), "x": L(7)})]}), Scn("plain", (4,), {"a": L(5), "b": L()}, scal="arr"),
              Scn("records", (2,), {"r": named(y=L(2), x=L(4)), "n": [node(q=L(5), p=L())]}),
              Scn("fresh", (2,), {"a": L(2), "b": [L(2), {"k": L()}]}, fresh=True)]
C09_MORE = [Scn("rank0", (), {"a": [L(), L(5)], "b": {"k": L(2)}}), Scn("one", (1,), {"a": {"k": L(1)}}),
            Scn("half", (3,), {"a": L(3, dtype="float16"), "b": (L(2, dtype="bfloat16"),)}, core="bfloat16")]


def c09(R, tier):
    for scn in C09_SCENES + (C09_MORE + generated(8, small=True, seed="C09") if tier == "thorough" else []):
        R.block(scn.name, c09_scene, R, scn)
        R.block(scn.name + ", assignment", c09_assign, R, scn)


def c09_scene(R, scn):
    probe = Scene(scn)
    for k in range(len(op_table(probe, scn))):
        label = op_table(probe, scn)[k][0]
        R.block(f"{scn.name}, {label}", c09_op, R, scn, k)
    R.scene = scn.name
    R.add("operations enumerated", "held")


def c09_op(R, scn, k):
    S = Scene(scn)
    label, pend, mk, new = op_table(S, scn)[k]
    st = S.state(pend)
    roots, go = mk(st)
    frozen = freeze_all(S, roots)
    r = S.run(go)
    check_frozen(R, "nothing reachable from the receiver or the arguments is changed", S, r, frozen)
    if new and r.ok:
        recv = next(iter(roots.values()))
        same = same_ref(S, r.value, recv)
        w = D.sat(D.band(same, r.pc))
        R.verdict("the result is a new object", w, f"{label} returns its receiver")
    if r.ok:
        # the result does not change when a further operation is applied to the receiver
        f2 = freeze_all(S, {"result": r.value})
        r2 = S.run(go)
        check_frozen(R, "a result does not change when the operation is applied again", S, r2, f2)
    R.saw(S)


def same_ref(S, v, ref):
    if isinstance(v, PhiV):
        return D.ite(v.cond, same_ref(S, v.a, ref), same_ref(S, v.b, ref))
    return D.TRUE if isinstance(v, Ref) and v.id == ref.id else D.FALSE


def c09_assign(R, scn):
    S = Scene(scn)
    st = S.state("none")
    other = S.state("none")
    objs = {"controller": S.controller(st), "viewer": make_viewer(S, st), "builder": make_builder(S, st), "editor": make_editor(S, st)}
    objs["loaded controller"] = S.m(S.cls("ACT_Controller", "core.controller"), "load", st)
    objs["viewer of a controller"] = S.m(objs["controller"], "make_viewer")
    objs["reset controller"] = S.m(objs["controller"], "reset_batches")
    objs["built controller"] = S.m(objs["builder"], "build")
    objs["masked viewer"] = S.m(objs["viewer"], "halted_only")
    objs["controller editor"] = S.m(editor_cls(S), "edit_controller", objs["controller"])
    for name in ("controller", "viewer", "builder", "editor"):
        leaves, td = ext(S, "jax.tree_util.tree_flatten", objs[name])
        objs[f"unflattened {name}"] = ext(S, "jax.tree_util.tree_unflatten", td, leaves)
    for name, o in objs.items():
        for attr, v in (("state", other), ("probabilities", S.sym("q", scn.batch)), ("accumulators", S.eng.new_dict([])),
                        ("brand_new", 1), ("error_mode", "silence")):
            fz = freeze_all(S, {name: o})
            r = S.run(lambda: S.eng.setattr_(o, attr, v))
            R.must_raise("assigning an attribute raises AttributeError", r, ["AttributeError"], D.TRUE, f"{name}.{attr} = ...")
            check_frozen(R, "a refused assignment changes nothing", S, r, fz)
    R.saw(S)


# ---------------------------------------------------------------------- C10


def keep(S, **over):
    """expected fields: those of the state as built, except the ones given"""
    f = {k: copy_tree(S.eng, v) for k, v in S.fields.items()}
    for k in ("epsilon", "depression_constant"):
        n = numnode(S.eng, f[k])
        f[k] = Num(n)
    f.update(over)
    return f


def any_dict(S, d, changed):
    """copy of a dict cell with the entries in `changed` unconstrained"""
    c = S.eng.cell(d)
    return S.eng.new_dict((k, ANY if changed == "all" or k in changed else copy_tree(S.eng, v)) for k, v in c.items.values())


def expect_state(S, R, rule, r, obj, what, **over):
    f = keep(S, **over)
    st = state_of(S, obj)
    exp = Like(S.cls("ACTStates", "core.states"), **f)
    R.equal(rule, S, st, exp, r.pc, what)


def c10(R, tier):
    sc = list(C09_SCENES) + (C09_MORE + generated(8, small=True, seed="C10") if tier == "thorough" else [])
    for scn in sc:
        for mode in (("debug", None) if tier == "quick" else ("debug", None, "checkify")):
            R.block(f"{scn.name}, error mode {mode}", c10_scene, R, scn, mode)
        R.block(f"{scn.name}, replace", c10_replace, R, scn)
        R.block(f"{scn.name}, properties", c10_properties, R, scn)


def c10_scene(R, scn, mode):
    S0 = Scene(scn)
    for k, (label, pend, mk, new) in enumerate(op_table(S0, scn)):
        if "(" in label and any(x in label for x in ("missing", "pending", "bad dtype", "controller.cache_update (again)")):
            continue
        R.block(f"{scn.name}, error mode {mode}, {label}", c10_op, R, scn, k, mode)
    R.scene = scn.name
    R.add("operations enumerated", "held")


RESULTS = ("controller.cache_update", "controller.iterate_act", "controller.reset_batches", "controller.make_viewer", "controller.save",
           "viewer.", "builder.", "editor", "ACT_Controller.load", "ACTViewer.load", "TensorEditor.", "pytree round trip")


def c10_op(R, scn, k, mode):
    S = Scene(scn)
    label, pend, mk, new = op_table(S, scn)[k]
    if not label.startswith(RESULTS):
        R.add("not an operation", "held")
        return
    st = S.state(pend, error_mode=mode)
    roots, go = mk(st)
    r = S.run(go)
    if not R.no_raise("the operation does not raise", r, D.TRUE, label):
        R.saw(S)
        return
    F = S.fields
    first, last = list(scn.accs)[0], list(scn.accs)[-1]
    over = {}
    vals = dict(probabilities=ANY, residuals=ANY, iterations=ANY)
    if label == "controller.cache_update":
        over = dict(updates=any_dict(S, F["updates"], [first]))
    elif label == "controller.iterate_act":
        over = dict(vals, accumulators=any_dict(S, F["accumulators"], "all"), updates=any_dict(S, F["updates"], "all"))
    elif label == "controller.reset_batches":
        over = dict(vals, accumulators=any_dict(S, F["accumulators"], "all"))
    elif label in ("viewer.transform", "viewer.mask_data", "viewer.halted_only", "viewer.unhalted_only"):
        over = dict(vals, accumulators=any_dict(S, F["accumulators"], "all"), updates=any_dict(S, F["updates"], "all"),
                    defaults=any_dict(S, F["defaults"], "all"))
    elif label.startswith("builder.define"):
        nm = first if "again" in label else "brand new"
        for f in ("accumulators", "defaults", "updates"):
            d = [(k2, ANY if k2 == nm else copy_tree(S.eng, v)) for k2, v in S.eng.cell(F[f]).items.values()]
            if nm == "brand new":
                d.append((nm, ANY))
            over[f] = S.eng.new_dict(d)
    elif label == "builder.delete":
        for f in ("accumulators", "defaults", "updates"):
            over[f] = S.eng.new_dict((k2, copy_tree(S.eng, v)) for k2, v in S.eng.cell(F[f]).items.values() if k2 != first)
    elif ".set_" in label:
        f = label.split(".set_")[1]
        f, nm = {"accumulator": ("accumulators", first), "defaults": ("defaults", last), "updates": ("updates", first)}.get(f, (f, None))
        over[f] = ANY if nm is None else any_dict(S, F[f], [nm])
    expect_state(S, R, "fields the operation does not name are unchanged", r, r.value if "save" not in label else r.value, label, **over) \
        if not is_state(S, r.value) else R.equal("fields the operation does not name are unchanged", S, r.value,
                                                  Like(S.cls("ACTStates", "core.states"), **keep(S, **over)), r.pc, label)
    R.saw(S)


PROPS = {"controller": ("depression_constant", "probabilities", "residuals", "iterations", "accumulators"),
         "viewer": ("probabilities", "residuals", "iterations", "accumulators", "defaults", "updates"),
         "builder": ("epsilon", "probabilities", "residuals", "iterations", "defaults", "accumulators", "updates"),
         "editor": ("epsilon", "probabilities", "residuals", "iterations", "defaults", "accumulators", "updates")}


def c10_properties(R, scn):
    for pend in ("all", "none"):
        S = Scene(scn)
        eng = S.eng
        st = S.state(pend)
        for kind, names in PROPS.items():
            o = MAKERS[kind](S, st)
            # a second object of the class, so that a value remembered from another object shows
            other = MAKERS[kind](S, S.m(st, "replace", epsilon=0.25, depression_constant=0.5, **{f: S.sym("o" + f, scn.batch, scn.core)
                                        for f in ("probabilities", "residuals", "iterations")}, **{f: S.accs("o" + f) for f in
                                        ("accumulators", "defaults", "updates")}))
            for n in names:
                S.run(lambda: S.get(other, n))
                r = S.run(lambda: S.get(o, n))
                if R.no_raise("a property can be read", r, D.TRUE, f"{kind}.{n}"):
                    x = copy_tree(eng, S.fields[n])
                    R.equal("a property reports the state field of its name", S, r.value,
                            Num(numnode(eng, x)) if n in ("epsilon", "depression_constant") else x, r.pc, f"{kind}.{n}")
            if kind == "controller":
                for n in scn.accs:
                    r = S.run(lambda: S.eng.getitem(o, n))
                    if R.no_raise("a controller can be indexed", r, D.TRUE, f"controller[{n!r}]"):
                        R.equal("indexing a controller gives the accumulator", S, r.value, copy_tree(eng, S.eng.getitem(S.fields["accumulators"], n)),
                                r.pc, f"controller[{n!r}]")
                r = S.run(lambda: S.eng.getitem(o, "never defined"))
                R.must_raise("indexing with an unknown name raises", r, [], D.TRUE, "controller['never defined']")
        R.saw(S)


def is_state(S, v):
    if isinstance(v, Ref):
        c = S.eng.cell(v)
        return isinstance(c, ObjCell) and c.cls is S.cls("ACTStates", "core.states")
    return False


def c10_replace(R, scn):
    S = Scene(scn)
    eng = S.eng
    D.declare("neweps", 0, 1, True, True)
    D.declare("newdep", 0)
    new = dict(epsilon=ScalarV(D.leaf(D.psym("neweps"))), iterations=S.sym("newi", scn.batch, scn.core),
               residuals=S.sym("newr", scn.batch, scn.core), probabilities=S.sym("newp", scn.batch, scn.core),
               defaults=S.accs("newdef"), accumulators=S.accs("newacc"), updates=S.accs("newupd", True),
               depression_constant=ScalarV(D.leaf(D.psym("newdep"))), error_mode="checkify")
    empty = dict(defaults=eng.new_dict([]), accumulators=eng.new_dict([]), updates=eng.new_dict([]), depression_constant=0.0)
    st = S.state("all")
    cases = [{}] + [{f: new[f]} for f in FIELDS] + [{f: v} for f, v in empty.items()]
    fs = list(FIELDS)
    cases += [{fs[i]: new[fs[i]], fs[(i + 1) % 9]: new[fs[(i + 1) % 9]]} for i in range(9)] + [dict(new)]
    # the value is the very object another field of the state holds
    alike = (("epsilon", "depression_constant"), ("iterations", "residuals", "probabilities"), ("accumulators", "defaults"))
    cases += [{f: S.fields[g]} for group in alike for f in group for g in group]
    cases += [{f: S.fields[g], g: S.fields[f]} for group in alike for f, g in itertools.combinations(group, 2)]
    for kw in cases:
        r = S.run(lambda: S.m(st, "replace", **kw))
        what = f"replace({', '.join(f'{k}=...' for k in kw)})"
        if not R.no_raise("replace accepts every field", r, D.TRUE, what):
            continue
        over = {k: copy_tree(eng, v) for k, v in kw.items()}
        for k in ("epsilon", "depression_constant"):
            if k in over:
                over[k] = Num(numnode(eng, over[k]))
        R.equal("replace sets exactly the given fields", S, r.value, Like(S.cls("ACTStates", "core.states"), **keep(S, **over)), r.pc, what)
    R.saw(S)


# ---------------------------------------------------------------------- C11

C11_SCENES = [Scn("trees", (2, 3), {"z": L(), "a": [L(4), (L(2), {"y": L(), "x": L(7)})]}), Scn("plain", (4,), {"b": L(5), "a": L()}, scal="arr"),
              Scn("none", (), {"a": [L(2)]}), Scn("records", (2,), {"r": named(y=L(2), x=node(q=L(4), b=None)), "n": [node(q=L(5), p=L()), named(h=())]}),
              Scn("fresh", (2,), {"a": L(2), "b": [L(2), L()]}, fresh=True),
              Scn("shared", (2,), {"s": {"a": L(2), "b": [L(2, same_as="s.a"), L(2, upd_same_as="s.a")]}, "t": L(2, same_as="s.a")})]
C11_MORE = [Scn("empty", (3,), {}), Scn("nested", (1,), {"b": {"q": [(), L(1)]}, "a": ((L(), L()),), "aa": L(dtype="bfloat16")}, core="float16"),
            Scn("order", (2,), {"k2": L(2), "k10": L(10), "K": L(1), "": L()})]


def c11(R, tier):
    for scn in C11_SCENES + C11_MORE + (generated(20, seed="C11") if tier == "thorough" else []):
        for mode in ("debug", None):
            pends = ["all", "none"] + ([list(scn.accs)[:1]] if len(scn.accs) > 1 else [])
            for pend in pends:
                for what in ("state", "controller", "viewer", "builder", "editor"):
                    R.block(f"{scn.name}, {what}, error mode {mode}, pending {pend}", c11_scene, R, scn, mode, pend, what)
    R.block("ACTMetaData", c11_meta, R)


MAKERS = {"state": lambda S, st: st, "controller": lambda S, st: S.controller(st), "viewer": make_viewer, "builder": make_builder,
          "editor": make_editor}


def obj_like(S, what, o, fields):
    st = Like(S.cls("ACTStates", "core.states"), **fields)
    if what == "state":
        return st
    cls = S.eng.cell(o).cls
    return Like(cls, state=st)


def c11_scene(R, scn, mode, pend, what):
    S = Scene(scn)
    eng = S.eng
    st = S.state(pend, error_mode=mode)
    if what == "editor":
        o = make_editor(S, st, "silence" if mode is None else "standard")
    else:
        o = MAKERS[what](S, st)
    r = S.run(lambda: ext(S, "jax.tree_util.tree_flatten", o))
    if not R.no_raise("flattening does not raise", r, D.TRUE, what):
        R.saw(S)
        return
    leaves, td = r.value
    ls = list(eng.cell(leaves).items)
    for i, x in enumerate(ls):
        ok = isinstance(x, TensorV) or (J.is_number(x) and not isinstance(x, (bool, BoolV)))
        R.add("leaves are array-like data", "held" if ok else "violated", f"leaf {i} is {describe(eng, x)}")
    fields = keep(S)
    # round trip
    r = S.run(lambda: ext(S, "jax.tree_util.tree_unflatten", td, leaves))
    if R.no_raise("unflattening does not raise", r, D.TRUE, what):
        R.equal("the round trip gives an equal object", S, r.value, obj_like(S, what, o, fields), r.pc, what)
        if what == "editor":
            R.equal("the editor keeps its mode", S, S.get(r.value, "error_mode"), S.get(o, "error_mode"), r.pc, "error_mode")
        r2 = S.run(lambda: ext(S, "jax.tree_util.tree_flatten", r.value))
        if R.no_raise("flattening again does not raise", r2, D.TRUE, what):
            R.equal("leaves come in a fixed order", S, r2.value[0], leaves, r2.pc, "leaves")
            e = J.treedef_equal(eng, td, r2.value[1])
            R.add("the structure is a fixed point", "held" if e is True else "undecided" if e not in (True, False) else "violated",
                  "the structure after a round trip differs")
    # another state of the same shape has the same structure and the same leaf positions
    def other():
        same = S.same
        S.tag, S.same = "@2", {}
        try:
            st2 = S.state(pend, error_mode=mode)
            f2 = dict(S.fields)
            o2 = make_editor(S, st2, "silence" if mode is None else "standard") if what == "editor" else MAKERS[what](S, st2)
            return st2, o2, f2
        finally:
            S.tag, S.same = "", same
    keepf = S.fields
    st2, o2, f2 = other()
    S.fields = keepf
    r = S.run(lambda: ext(S, "jax.tree_util.tree_flatten", o2))
    if R.no_raise("flattening does not raise", r, D.TRUE, what):
        e = J.treedef_equal(eng, td, r.value[1])
        R.add("the structure does not depend on tensor contents or identity", "held" if e is True else "undecided" if e not in (True, False) else "violated",
              f"two {what}s that differ in the contents or identity of tensors only have different structures")
        r3 = S.run(lambda: ext(S, "jax.tree_util.tree_unflatten", td, r.value[0]))
        if R.no_raise("unflattening other leaves does not raise", r3, D.TRUE, what):
            S.fields = f2
            ff = keep(S)
            S.fields = keepf
            R.equal("other leaves land in their fields", S, r3.value, obj_like(S, what, o, ff), r3.pc, what)
    if what == "state":
        c11_paths(R, S, o)
    # mapping
    r = S.run(lambda: ext(S, "jax.tree_util.tree_map", opaque_fn("G"), o))
    if R.no_raise("mapping over the leaves does not raise", r, D.TRUE, what):
        g = lambda v: map_expect(S, v)
        mapped = {k: (v if k == "error_mode" else g(v)) for k, v in S.fields.items()}
        R.equal("mapping reaches each tensor once", S, r.value, obj_like(S, what, o, mapped), r.pc, what)
    # configuration is part of the structure
    if mode is not None:
        st3 = S.state(pend, error_mode=None)
        o3 = MAKERS[what](S, st3)
        r = S.run(lambda: ext(S, "jax.tree_util.tree_flatten", o3))
        if r.ok:
            e = J.treedef_equal(eng, td, r.value[1])
            R.add("the error mode travels in the structure", "held" if e is False else "undecided" if e not in (True, False) else "violated",
                  f"{what}s with different error modes have equal structures")
    if what == "editor":
        o4 = make_editor(S, st, "standard" if mode is None else "silence")
        r = S.run(lambda: ext(S, "jax.tree_util.tree_flatten", o4))
        if r.ok:
            e = J.treedef_equal(eng, td, r.value[1])
            R.add("the editor's mode travels in the structure", "held" if e is False else "undecided" if e not in (True, False) else "violated",
                  "editors with different modes have equal structures")
    R.saw(S)


def c11_paths(R, S, o):
    """the path of a leaf begins with the name of the field it belongs to"""
    eng = S.eng
    r = S.run(lambda: ext(S, "jax.tree_util.tree_flatten_with_path", o))
    if not R.no_raise("flattening with paths does not raise", r, D.TRUE, "state"):
        return
    by = {}
    for pair in eng.iterate(r.value[0]):
        path, leaf = eng.iterate(pair)
        k = eng.iterate(path)[0]
        if isinstance(k, Ref):
            c = eng.cell(k)
            at = getattr(c, "attrs", None) or {}
            k = at.get("name", at.get("key"))
        by.setdefault(k, []).append(leaf)
    if not any(isinstance(k, str) for k in by):
        return          # leaves without names: nothing is stated for those
    for n in FIELDS[:-1]:
        ls, _ = J.tree_flatten(eng, copy_tree(eng, S.fields[n]), None)
        got = by.pop(n, by.pop("." + n, []))
        if n in ("epsilon", "depression_constant"):
            ls = [Num(numnode(eng, x)) for x in ls]
        R.equal("the path of a leaf names its field", S, tuple(got), tuple(ls), r.pc, n)
    R.add("the path of a leaf names its field", "violated" if by else "held", f"paths begin with {[str(k) for k in by]}")


def map_expect(S, v, name="G"):
    def f(x):
        if isinstance(x, TensorV):
            return TensorV(x.shape, x.dtype, D.leaf(D.patom(("fn", name, (J.kindnode(x),)))), False, None)
        if J.is_number(x):
            return Num(D.leaf(D.patom(("fn", name, (D.to_num(numnode(S.eng, x)),)))))
        return x
    return map_tree(S.eng, v, f)


def c11_meta(R):
    S = Scene(Scn("meta", (2,), {}))
    cls = S.cls("ACTMetaData", "layers.act")
    a, b = S.sym("n", (), "int32"), S.sym("max", (), "int32")
    for x, y in ((a, b), (0, 10), (a, 7)):
        o = S.call(cls, num_iterations=x, max_num_iterations=y)
        r = S.run(lambda: ext(S, "jax.tree_util.tree_flatten", o))
        if not R.no_raise("flattening does not raise", r, D.TRUE, "ACTMetaData"):
            continue
        leaves, td = r.value
        for i, v in enumerate(S.eng.cell(leaves).items):
            ok = isinstance(v, TensorV) or J.is_number(v)
            R.add("leaves are array-like data", "held" if ok else "violated", f"leaf {i} is {describe(S.eng, v)}")
        r = S.run(lambda: ext(S, "jax.tree_util.tree_unflatten", td, leaves))
        if R.no_raise("unflattening does not raise", r, D.TRUE, "ACTMetaData"):
            R.equal("the round trip gives an equal object", S, r.value,
                    Like(cls, num_iterations=Num(numnode(S.eng, x)), max_num_iterations=Num(numnode(S.eng, y))), r.pc, "ACTMetaData")
    R.saw(S)


# ---------------------------------------------------------------------- C12

C12_SCENES = [Scn("trees", (2, 3), {"z": L(), "a": [L(4), (L(2), {"y": L(), "x": L(7)})]}, scal="arr"), Scn("plain", (4,), {"a": L(5)}, scal="arr"),
              Scn("python scalars", (1,), {"a": L(1), "b": L()}),
              Scn("records", (2, 3), {"r": named(y=L(2), x=L(4)), "n": [node(q=L(5), p=L())]}, scal="arr"),
              Scn("rank0", (), {"a": [L(), L(5)], "b": L()}, scal="arr")]
C12_MORE = [Scn("ones", (1, 1), {"a": {"k": L(1)}, "b": L(dtype="bfloat16")}, scal="arr", core="float16")]


def jitted(S, f, *args):
    """analyse f with every tensor of args traced"""
    j = JitV(BuiltinV("traced driver", lambda eng, a, k: f(*a)), "jit")
    return S.run(lambda: S.eng.call(j, list(args), {}))


def c12(R, tier):
    for scn in C12_SCENES + (C12_MORE + generated(8, small=True, seed="C12") if tier == "thorough" else []):
        for k in range(len(traced_ops(Scene(scn), scn))):
            R.block(f"{scn.name}, {traced_ops(Scene(scn), scn)[k][0]}", c12_op, R, scn, k)
    from .c_layer import traced_layer
    traced_layer(R, tier)


def traced_ops(S, scn):
    C = lambda st: S.controller(st)
    V = lambda st: make_viewer(S, st)
    items = lambda: S.accs("item", True)

    def cache_all(c, it):
        for n in scn.accs:
            c = S.m(c, "cache_update", n, S.eng.getitem(it, n))
        return c
    ops = [
        ("cache_update", "none", lambda st, it: cache_all(C(st), it), [items]),
        ("iterate_act", "all", lambda st, h: S.m(C(st), "iterate_act", h), [S.hp]),
        ("cache, commit and test", "none", lambda st, it, h: S.get(S.m(cache_all(C(st), it), "iterate_act", h), "is_completely_halted"), [items, S.hp]),
        ("reset_batches", "none", lambda st: S.m(C(st), "reset_batches"), []),
        ("make_viewer", "all", lambda st: S.m(C(st), "make_viewer"), []),
        ("viewer.transform", "all", lambda st: S.m(V(st), "transform", opaque_fn()), []),
        ("viewer.mask_data", "all", lambda st, m: S.m(V(st), "mask_data", m), [lambda: S.sym("mask", scn.batch, "bool")]),
        ("viewer.halted_only", "all", lambda st: S.m(V(st), "halted_only"), []),
        ("viewer.unhalted_only", "all", lambda st: S.m(V(st), "unhalted_only"), []),
        ("controller as argument and result", "all", lambda c, h: S.m(c, "iterate_act", h), [S.hp]),
        ("state.replace", "all", lambda st, p: S.m(st, "replace", probabilities=p), [lambda: S.sym("newp", scn.batch, scn.core)]),
    ]
    for a in ("probabilities", "residuals", "iterations", "accumulators", "halt_threshold", "halted_batches", "is_completely_halted",
              "is_any_halted", "updates_ready_to_commit", "has_cached_updates", "depression_constant"):
        ops.append(("controller." + a, "all", lambda st, a=a: S.get(C(st), a), []))
    for a in ("probabilities", "accumulators", "defaults", "updates", "halt_threshold", "halted_batches"):
        ops.append(("viewer." + a, "all", lambda st, a=a: S.get(V(st), a), []))
    for mode in ("silence",):
        ops.append(("editor in silence mode", "all",
                    lambda st, p: S.m(S.m(make_editor(S, st, "silence"), "set_probabilities", p), "build"),
                    [lambda: S.sym("newp", scn.batch, scn.core)]))
    turn = sum(map(ord, scn.name))
    mixed = ["all", "none", list(scn.accs)[1:] or "none"]
    ops = [(label, mixed[(turn + i) % 3] if pend == "all" and "iterate_act" not in label and "argument and result" not in label else pend, f, extra)
           for i, (label, pend, f, extra) in enumerate(ops)]
    # misuse is reported without looking at contents as well
    ops += [
        *((f"{MISUSE}caching {n!r} twice", "all", lambda st, it, n=n: S.m(C(st), "cache_update", n, S.eng.getitem(it, n)), [items]) for n in scn.accs),
        (MISUSE + "committing without updates", "none", lambda st, h: S.m(C(st), "iterate_act", h), [S.hp]),
        (MISUSE + "resetting with updates pending", "all", lambda st: S.m(C(st), "reset_batches"), []),
        (MISUSE + "a mask that is not boolean", "all", lambda st, m: S.m(V(st), "mask_data", m), [S.hp]),
        (MISUSE + "an unknown accumulator", "all", lambda st, m: S.m(C(st), "cache_update", "never defined", m), [S.hp]),
    ]
    return ops


MISUSE = "misuse: "


def c12_op(R, scn, k):
    S = Scene(scn)
    label, pend, f, extra = traced_ops(S, scn)[k]
    st = S.state(pend)
    first = S.controller(st) if label == "controller as argument and result" else st
    args = [x() for x in extra]
    # the eager run fixes what is admissible: it must not raise either
    r = jitted(S, f, first, *args)
    if label.startswith(MISUSE):
        rule = "misuse is reported the same way while traced"
        evs = [e for e in S.eng.events if e.kind == "concretize"]
        for e in evs:
            R.add(rule, "undecided" if tainted(D.sat(e.pc)) else "violated", f"{label} needs the contents of a traced tensor: {e.detail}", e.loc)
        if not evs:
            R.must_raise(rule, r, [], D.TRUE, label)
        R.saw(S)
        return
    R.traceable("no python control flow, number or shape depends on tensor contents", S, r, D.TRUE, label)
    R.saw(S)


# ---------------------------------------------------------------------- C17


def c17(R, tier):
    for scn in scenes(tier):
        for pend in ("all", "none", list(scn.accs)[:1]):
            R.block(f"{scn.name}, pending {pend}", c17_scene, R, scn, pend)
        R.block(f"{scn.name}, refused masks", c17_bad, R, scn)


def masked(S, v, keepnode):
    return map_tree(S.eng, v, lambda x: TensorV(x.shape, x.dtype, D.ite(keepnode, J.kindnode(x), D.num(0)), False, None)
                    if isinstance(x, TensorV) else x)


TENSORS = ("probabilities", "residuals", "iterations", "accumulators", "defaults", "updates")


def c17_scene(R, scn, pend):
    S = Scene(scn)
    eng = S.eng
    st = S.state(pend)
    v = make_viewer(S, st)
    m = S.sym("mask", scn.batch, "bool")
    for label, f, node in (("mask_data", lambda: S.m(v, "mask_data", m), m.node), ("halted_only", lambda: S.m(v, "halted_only"), S.halted),
                           ("unhalted_only", lambda: S.m(v, "unhalted_only"), D.bnot(S.halted))):
        r = S.run(f)
        if not R.no_raise(f"{label} does not raise", r, D.TRUE, label):
            continue
        for t in TENSORS:
            R.equal(f"{label} masks the {t}", S, S.get(r.value, t), masked(S, S.fields[t], node), r.pc, f"{label}().{t}")
    for label, shape in (("transform", None), ("transform to another shape", lambda sh: (7,) + sh)):
        fn = opaque_fn("T", shape)
        r = S.run(lambda: S.m(v, "transform", fn))
        if not R.no_raise(f"{label} does not raise", r, D.TRUE, label):
            continue
        for t in TENSORS:
            e = map_expect(S, S.fields[t], "T")
            if shape is not None:
                e = reshape_expect(S, e, shape)
            R.equal(f"{label} applies the function once to the {t}", S, S.get(r.value, t), e, r.pc, f"{label}().{t}")
    # what a viewer shows before any transform is the state itself
    for t in TENSORS:
        R.equal("a fresh viewer shows the state", S, S.get(v, t), copy_tree(eng, S.fields[t]), D.TRUE, f"viewer.{t}")
    R.saw(S)


def reshape_expect(S, v, f):
    return map_tree(S.eng, v, lambda x: TensorV(f(x.shape), x.dtype, x.node, False, None) if isinstance(x, TensorV) else x)


def c17_bad(R, scn):
    S = Scene(scn)
    st = S.state("all")
    v = make_viewer(S, st)
    B = scn.batch
    for dt in ("float32", "int32", "uint8"):
        r = S.run(lambda: S.m(v, "mask_data", S.sym("fmask", B, dt)))
        R.must_raise("a mask that is not boolean raises ValueError", r, ["ValueError"], D.TRUE, f"mask_data with dtype {dt}")
    alts = [B + (1,), (1,) + B, B + (2,)]
    if B:
        alts += [(), (1,) * len(B), B[1:], B[:-1], (B[0] + 1,) + B[1:]]
    for a in dict.fromkeys(alts):
        if a == B:
            continue
        r = S.run(lambda: S.m(v, "mask_data", S.sym("mask", a, "bool")))
        R.must_raise("a mask of another shape raises ValueError", r, ["ValueError"], D.TRUE, f"mask_data with shape {list(a)} for batch {list(B)}")
    R.saw(S)
