"""
What every check shares: the scenes (families of abstract states the
repository's code is analysed on), the comparison of an abstract result with
its specification, and the record of obligations.
"""
import json
import os
import random
import sys
import time
import traceback
from fractions import Fraction

from . import domain as D
from . import jaxmodel as J
from .interp import Engine, PathDead, Undecided, Result
from .values import *

ROOT = os.environ.get("ACTCHECK_ROOT", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "src.jax_act"


PROBE = [None]      # called with every analysed run (c_names)


class AnchorLost(Exception):
    """a public name the properties are anchored at is gone"""


class L:
    """a tensor leaf: batch shape + trail"""

    def __init__(self, *trail, dtype=None, upd_dtype=None, same_as=None, upd_same_as=None):
        self.trail = tuple(trail)
        self.same_as = same_as              # path of the leaf whose very tensor object this accumulator (and default) leaf is
        self.upd_same_as = upd_same_as      # likewise for the pending update
        self.dtype = dtype
        self.upd_dtype = upd_dtype

    def __repr__(self):
        return "L(" + ",".join(map(str, self.trail)) + (":" + self.dtype if self.dtype else "") + \
            (" is " + self.same_as if self.same_as else "") + (" update is " + self.upd_same_as if self.upd_same_as else "") + ")"


class Rec(dict):
    """a record of subtrees: a NamedTuple, or a class registered with jax as a pytree node"""

    def __init__(self, kind, fields):
        super().__init__(fields)
        self.kind = kind

    def __repr__(self):
        return f"{self.kind}({', '.join(f'{k}={v!r}' for k, v in self.items())})"


def named(**fields):
    return Rec("named", fields)


def node(**fields):
    return Rec("node", fields)


def twin(**fields):
    """NamedTuples that all have the same class name"""
    return Rec("twin", fields)


def cotwin(**fields):
    """another family of NamedTuples of that name"""
    return Rec("cotwin", fields)


def tagged(**fields):
    """records of one class for all lists of fields, told apart by their auxiliary data"""
    return Rec("tagged", fields)


TAGGED = """
from jax import tree_util

class TaggedNode:
    def __init__(self, **kw):
        self.fields = tuple(kw)
        for k, v in kw.items():
            setattr(self, k, v)

def flat(o):
    return tuple(getattr(o, k) for k in o.fields), o.fields

def unflat(aux, children):
    return TaggedNode(**dict(zip(aux, children)))

tree_util.register_pytree_node(TaggedNode, flat, unflat)
"""


RECORDS = """
from typing import Any, NamedTuple
from jax import tree_util

class {name}Named(NamedTuple):
{named}

class {name}Node:
    def __init__(self, {args}):
{inits}

tree_util.register_pytree_node({name}Node, lambda o: (({reads},), ({keys},)), lambda aux, ch: {name}Node(**dict(zip(aux, ch))))
"""


class Scn:
    """the shape of a scene"""

    def __init__(self, name, batch, accs, core="float32", scal="py", thorough=False, fresh=False):
        self.name = name
        self.batch = tuple(batch)
        self.accs = accs
        self.core = core
        self.scal = scal
        self.thorough = thorough
        self.fresh = fresh                  # every accumulator is the tensor object of its default, as after building

    def describe(self):
        return f"{self.name}: batch {list(self.batch)}, accumulators {self.accs}, core {self.core}, epsilon/depression " \
               f"{'python numbers' if self.scal == 'py' else 'rank 0 arrays'}"


SCENES = [
    Scn("vector", (4,), {"a": L(5)}),
    Scn("trees", (2, 3), {"z": L(), "a": [L(4), (L(2, 6), {"y": L(), "x": L(7)})]}),
    Scn("coincide", (3,), {"a": [L(3), L(3, 3)], "b": L(1, 3)}),
    Scn("rank0", (), {"a": [L(), L(5)]}),
    Scn("single", (1,), {"b": {"k": L(2)}, "a": L()}, scal="arr"),
    Scn("mixed", (2, 3), {"m": L(2, 3, dtype="bfloat16"), "n": [L(3, dtype="float16", upd_dtype="float32"), L(2, upd_dtype="int32")]}, scal="arr"),
    Scn("core16", (5,), {"a": L(5, dtype="float32")}, core="float16"),
    Scn("shared", (2,), {"s": {"a": L(2), "b": [L(2, same_as="s.a"), L(2, upd_same_as="s.a")]}, "t": L(2, same_as="s.a")}),
    Scn("fresh", (3,), {"s": {"a": L(2), "b": [L(2), L()]}, "t": L(2)}, fresh=True),
    Scn("records", (2, 3), {"r": named(y=L(2), x=L(4, 2)), "n": [node(q=L(5), p=named(y=L(2), x=L())), named(k=None, h=())]}),
    Scn("many", (2,), {k: L(3) for k in ("f", "b", "e", "a", "c", "d")}),
    Scn("many trees", (3,), {k: [L(), {"u": L(2)}] for k in ("a", "b", "c", "d", "e")}),
    Scn("wide", (2, 2), {"a": [L(2) for _ in range(9)], "b": {f"k{i}": L() for i in range(12)}}),
    Scn("square", (3, 3), {"a": L(3), "b": (L(3, 3), L())}, thorough=True),
    Scn("deep", (2, 1, 4), {"q": {"u": [L(1), [L(4, 1), ()]], "t": (L(2),)}, "a": {}, "k": [L(), None]}, thorough=True),
    Scn("three", (6,), {"c": L(2), "a": L(6), "b": {"b": L(), "a": L(2)}}, scal="arr", thorough=True),
    Scn("onebyone", (1, 1), {"a": [L(1), L(1, 1), L()]}, thorough=True),
    Scn("core-bf16", (2, 2), {"a": L(2, dtype="bfloat16"), "b": L(2, dtype="float32", upd_dtype="bfloat16")}, core="bfloat16", thorough=True),
]


NAMES = ["a", "b", "zeta", "A", "_private", "accumulators", "updates", "defaults", "probabilities", "state", "output", "a long name", "x1", "x10",
         "", "0", "None", "self", "item", "mask", "depression"]
FIELD_NAMES = ["x", "y", "zeta", "count", "index", "data", "k2"]


def generated(n, batches=None, small=False, seed=0):
    """n scenes drawn at random, the same ones on every run"""
    rng = random.Random(f"scenes {seed}")
    floats = ("float32", "float32", "float16", "bfloat16")
    out = []
    for i in range(n):
        batch = tuple(rng.choice((1, 2, 3, 4)) for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4)))) if batches is None else rng.choice(batches)
        mixed = rng.random() < 0.5
        seen = []

        def leaf(path):
            trail = tuple(rng.choice((1, 2, 3, 4, 5, 7) + batch) for _ in range(rng.choice((0, 1, 1, 2, 3, 4) if not small else (0, 1, 2))))
            d = rng.choice(floats) if mixed else None
            u = rng.choice(floats + ("int32",)) if mixed and rng.random() < 0.4 else None
            x = L(*trail, dtype=d, upd_dtype=u)
            twins = [q for q, o in seen if o.trail == trail and o.dtype == d and o.upd_dtype == u]
            if twins and rng.random() < 0.5:
                return L(*trail, dtype=d, upd_dtype=u, **rng.choice(({"same_as": twins[0]}, {"upd_same_as": twins[0]})))
            seen.append((path, x))
            return x

        def tree(path, depth):
            k = rng.random()
            if depth == 0 or k < 0.45:
                return leaf(path)
            if k < 0.5:
                return rng.choice((None, (), {}, []) if "." in path else ((), {}, []))
            m = rng.choice((1, 2, 2, 3))
            if k < 0.6:
                return [tree(f"{path}.{j}", depth - 1) for j in range(m)]
            if k < 0.7:
                return tuple(tree(f"{path}.{j}", depth - 1) for j in range(m))
            if k < 0.82:
                return {x: tree(f"{path}.{x}", depth - 1) for x in rng.sample(NAMES, m)}
            return Rec(rng.choice(("named", "node", "tagged")), {x: tree(f"{path}.{x}", depth - 1) for x in rng.sample(FIELD_NAMES, m)})

        count = rng.choice((1, 1, 2, 2, 3, 4, 6) if not small else (1, 2, 2, 3))
        accs = {x: tree(x, 1 if small else 3) for x in rng.sample(NAMES, count)}
        out.append(Scn(f"generated {seed}.{i}", batch, accs, core=rng.choice(floats) if mixed else "float32", scal=rng.choice(("py", "arr")),
                       fresh=rng.random() < 0.2))
    return out


def scenes(tier):
    return SCENES + generated(12 if tier == "quick" else 120)


# ------------------------------------------------------------------ symbols


def num_sym(name, lo=None, hi=None, lo_strict=False, hi_strict=False):
    D.declare(name, lo, hi, lo_strict, hi_strict)
    return D.leaf(D.psym(name))


WARM = [False]          # other objects were made and used before the scene is analysed
WARM_SCN = Scn("another", (3,), {"a": L(2), "other": [L(), {"k": L(2, 2)}]})


class Scene:
    """An engine with the package loaded and the symbols of one scenario."""

    def __init__(self, scn=None, tag="", modules=(PKG,)):
        self.scn = scn
        self.tag = tag
        self.eng = Engine(ROOT)
        r = self.eng.run(lambda: [self.eng.load_module(m) for m in modules])
        if not r.ok or any(self.eng.modules.get(m) is None for m in modules):
            why = "; ".join(f"{r.exc_name(x)}: {r.exc_msg(x)} at {fmt_loc(x.loc)}" for x in r.raises)
            raise AnchorLost(f"the package cannot be loaded: {why}")
        self.eng.freeze_base()
        self.same = {}
        self.shared = {}
        for name, spec in (scn.accs.items() if scn is not None else ()):
            self._find_shared(name, spec)
            self._find_records(spec)
        self.load_raises = r.raises
        self.load_result = r
        self.eng.pc = D.TRUE
        if WARM[0]:
            self.warm_up()

    def warm_up(self):
        """Use every public operation on objects unrelated to the scene: whatever a class or a module keeps of them is kept by now"""
        eng = self.eng
        events, unknown = list(eng.events), list(eng.unknown_sites)
        saved = self.scn, self.tag, self.same, self.shared
        for k, scn in enumerate((WARM_SCN, self.scn)):
            if scn is None:
                continue
            if k == 0:
                self.same = {}
            else:
                self.same = saved[2]
            self.scn, self.tag, self.shared = scn, f"~{k}", {}
            try:
                self.use_everything()
            except (Undecided, PathDead):
                pass
        self.scn, self.tag, self.same, self.shared = saved
        eng.events[:] = events
        eng.unknown_sites[:] = unknown
        self.__dict__.pop("fields", None)

    def use_everything(self):
        scn, tag = self.scn, self.tag

        def do(f):
            r = self.run(f)
            return r.value if r.ok else None
        try:
            B = self.cls("ControllerBuilder", "core.builder")
            E = self.cls("TensorEditor", "core.tensoreditor")
        except AnchorLost:
            return
        do(lambda: self.m(B, "new_builder", self.eng.new_list(list(scn.batch)), self.eng.new_list([])))
        b = do(lambda: self.m(B, "new_builder", self.eng.new_list(list(scn.batch)), core_dtype=DTypeV(scn.core), epsilon=0.375, depression_constant=0.625))
        if b is not None:
            for n, spec in scn.accs.items():
                b = do(lambda: self.m(b, "define_accumulator_directly", n, self.tree(spec, f"given.{n}"))) or b
            b2 = do(lambda: self.m(b, "define_accumulator_by_shape", "by shape", self.eng.new_list(list(scn.batch) + [2]), 2.5))
            do(lambda: self.m(b2, "_delete_definition", "by shape"))
            do(lambda: self.m(b2, "build"))
        st = do(lambda: self.state("none", error_mode="checkify"))
        c = do(lambda: self.controller(st))
        if c is None:
            return
        c1 = c
        for n, spec in scn.accs.items():
            c1 = do(lambda: self.m(c1, "cache_update", n, self.tree(spec, f"upd.{n}", True))) or c1
        c2 = do(lambda: self.m(c1, "iterate_act", self.hp())) or c
        for x in (c, c1, c2):
            for a in ("halted_batches", "is_completely_halted", "is_any_halted", "halt_threshold", "updates_ready_to_commit", "has_cached_updates",
                      "depression_constant", "probabilities", "residuals", "iterations", "accumulators"):
                do(lambda: self.get(x, a))
        do(lambda: self.m(c2, "reset_batches"))
        for n in scn.accs:
            do(lambda: self.m(c2, "__getitem__", n))
        v = do(lambda: self.m(c1, "make_viewer"))
        if v is not None:
            for a in ("halted_batches", "halt_threshold", "probabilities", "residuals", "iterations", "accumulators", "defaults", "updates"):
                do(lambda: self.get(v, a))
            do(lambda: self.m(v, "halted_only"))
            do(lambda: self.m(v, "unhalted_only"))
            do(lambda: self.m(v, "mask_data", TensorV(scn.batch, "bool", D.gt(self.node("m"), D.num(0)), False, None)))
        for mode in ("standard", "silence"):
            e = do(lambda: self.m(E, "edit_controller", c1, mode))
            if e is None:
                continue
            half = TensorV(scn.batch, scn.core, D.num(Fraction(1, 2)), False, None)
            for setter in ("set_probabilities", "set_residuals", "set_iterations"):
                do(lambda: self.m(e, setter, half))
            do(lambda: self.m(e, "set_epsilon", 0.125))
            for n, spec in scn.accs.items():
                for setter, upd in (("set_accumulator", False), ("set_defaults", False), ("set_updates", True)):
                    do(lambda: self.m(e, setter, n, self.tree(spec, f"edit.{n}", upd)))
            do(lambda: self.m(e, "build"))
        for x in (c1, v, st):
            if x is not None:
                do(lambda: J.tree_unflatten(self.eng, *reversed(J.tree_flatten(self.eng, x))))

    # names

    def cls(self, name, *mods):
        eng = self.eng
        order = [f"{PKG}.{m}" for m in mods] + [PKG, PKG + ".core", PKG + ".layers"] + sorted(eng.modules)
        for m in order:
            mod = eng.modules.get(m)
            if mod is None:
                continue
            v = eng.module_get(mod, name)
            if v is not UNBOUND:
                return v
        raise AnchorLost(f"{name} is not defined anywhere in the package")

    def mod(self, name):
        m = self.eng.modules.get(f"{PKG}.{name}")
        if m is None:
            r = self.eng.run(lambda: self.eng.load_module(f"{PKG}.{name}"))
            m = self.eng.modules.get(f"{PKG}.{name}")
        if m is None:
            raise AnchorLost(f"module {PKG}.{name} is gone")
        return m

    def util(self, name):
        v = self.eng.module_get(self.mod("core.utils"), name)
        if v is UNBOUND:
            raise AnchorLost(f"utils.{name} is gone")
        return v

    def get(self, o, name):
        return self.eng.getattr_(o, name)

    def m(self, o, name, *args, **kw):
        return self.eng.call(self.eng.getattr_(o, name), list(args), kw)

    def call(self, f, *args, **kw):
        return self.eng.call(f, list(args), kw)

    def run(self, f, pc=D.TRUE):
        """Analyse f() from a copy of the current state of the heap"""
        eng = self.eng
        heap, pc0 = dict(eng.heap), eng.pc
        eng.epoch += 1
        r = eng.run(f, pc)
        r.before = heap
        if PROBE[0] is not None:
            PROBE[0](self, r)
        if not r.ok:
            eng.heap, eng.pc = heap, pc0
        else:
            eng.pc = pc0
        return r

    # the abstract state

    def _find_shared(self, path, spec):
        if isinstance(spec, L):
            for k in ("acc", "def") if spec.same_as else ():
                self.same[f"{k}.{path}"] = f"{k}.{spec.same_as}"
            if spec.upd_same_as:
                self.same["upd." + path] = "upd." + spec.upd_same_as
            if self.scn.fresh:
                self.same["acc." + path] = self.same.get("def." + path, "def." + path)
        elif isinstance(spec, (list, tuple)):
            for i, s in enumerate(spec):
                self._find_shared(f"{path}.{i}", s)
        elif isinstance(spec, dict):
            for k, s in spec.items():
                self._find_shared(f"{path}.{k}", s)

    def _find_records(self, spec):
        if isinstance(spec, Rec):
            self.record(spec)
        for s in spec.values() if isinstance(spec, dict) else spec if isinstance(spec, (list, tuple)) else ():
            self._find_records(s)

    def sym(self, name, shape, dtype="float32", **kw):
        name = self.same.get(name, name)
        if name in self.same.values():
            key = name, tuple(shape), dtype         # a deliberately malformed value is another object
            if key not in self.shared:
                self.shared[key] = J.sym_tensor(name + self.tag, shape, dtype, **kw)
            return self.shared[key]
        return J.sym_tensor(name + self.tag, shape, dtype, **kw)

    def scalar(self, name, lo, hi, ls, hs):
        n = name + self.tag
        D.declare(n, lo, hi, ls, hs)
        node = D.leaf(D.psym(n))
        if self.scn.scal == "py":
            return ScalarV(node)
        return TensorV((), "float32", node, True, ("<input>", 0, n))

    def facts(self):
        t = self.tag
        D.declare("prob" + t, 0, 1)
        D.declare("res" + t, 0, 1)
        D.declare("iter" + t, 0)

    def tree(self, spec, prefix, upd=False, leaf=None):
        """value for a tree spec; leaves are inputs named prefix.path"""
        eng = self.eng
        if isinstance(spec, L):
            dt = (spec.upd_dtype if upd and spec.upd_dtype else spec.dtype) or "float32"
            sh = self.scn.batch + spec.trail
            if leaf is not None:
                return leaf(prefix, sh, dt, spec)
            return self.sym(prefix, sh, dt)
        if spec is None:
            return None
        if isinstance(spec, tuple):
            return tuple(self.tree(s, f"{prefix}.{i}", upd, leaf) for i, s in enumerate(spec))
        if isinstance(spec, list):
            return eng.new_list([self.tree(s, f"{prefix}.{i}", upd, leaf) for i, s in enumerate(spec)])
        if isinstance(spec, Rec):
            return self.call(self.record(spec), **{k: self.tree(s, f"{prefix}.{k}", upd, leaf) for k, s in spec.items()})
        return eng.new_dict((k, self.tree(s, f"{prefix}.{k}", upd, leaf)) for k, s in spec.items())

    def record(self, spec):
        """the class of a record spec; one per list of fields"""
        if spec.kind == "tagged":
            m = self.eng.modules.get("harness_R_tagged") or self.eng.load_source("harness_R_tagged", TAGGED, "<harness records>")
            return self.eng.module_get(m, "TaggedNode")
        name = "R_" + "_".join(spec)
        if "twin" in spec.kind:
            full = f"harness_R_{spec.kind}_" + "_".join(spec)
            m = self.eng.modules.get(full)
            if m is None:
                src = "from typing import Any, NamedTuple\n\nclass Pair(NamedTuple):\n" + "\n".join(f"    {k}: Any" for k in spec) + "\n"
                m = self.eng.load_source(full, src, "<harness records>")
            return self.eng.module_get(m, "Pair")
        m = self.eng.modules.get("harness_" + name)
        if m is None:
            src = RECORDS.format(name=name, named="\n".join(f"    {k}: Any" for k in spec), args=", ".join(spec),
                                 inits="\n".join(f"        self.{k} = {k}" for k in spec), reads=", ".join("o." + k for k in spec),
                                 keys=", ".join(map(repr, spec)))
            m = self.eng.load_source("harness_" + name, src, "<harness records>")
        return self.eng.module_get(m, name + ("Named" if spec.kind == "named" else "Node"))

    def accs(self, prefix, upd=False, leaf=None):
        return self.eng.new_dict((n, self.tree(s, f"{prefix}.{n}", upd, leaf)) for n, s in self.scn.accs.items())

    def state(self, pending="all", error_mode="debug", **over):
        """an ACTStates with arbitrary (symbolic) contents; pending: 'all', 'none' or names"""
        eng, s = self.eng, self.scn
        self.facts()
        names = list(s.accs) if pending == "all" else [] if pending == "none" else list(pending)
        ups = eng.new_dict((n, self.tree(sp, f"upd.{n}", True) if n in names else None) for n, sp in s.accs.items())
        defs = self.accs("def")
        # after building, an accumulator is the object its default is
        accs = eng.new_dict(list(eng.cell(defs).items.values())) if s.fresh else self.accs("acc")
        f = dict(epsilon=self.scalar("eps", 0, 1, True, True), iterations=self.sym("iter", s.batch, s.core),
                 residuals=self.sym("res", s.batch, s.core), probabilities=self.sym("prob", s.batch, s.core),
                 defaults=defs, accumulators=accs, updates=ups,
                 depression_constant=self.scalar("dep", 0, None, False, False), error_mode=error_mode)
        f.update(over)
        self.fields = f
        return eng.call(self.cls("ACTStates", "core.states"), [], f)

    def snapshot(self, **over):
        """expected fields of the state as built last, in fresh containers"""
        eng = self.eng
        f = {k: copy_tree(eng, v) for k, v in self.fields.items()}
        f.update(over)
        return f

    def controller(self, state):
        return self.eng.call(self.cls("ACT_Controller", "core.controller"), [state], {})

    def hp(self):
        return self.sym("hp", self.scn.batch, self.scn.core)

    # nodes of the generic element

    def node(self, name, shape=None):
        return self.sym(name, self.scn.batch if shape is None else shape).node

    @property
    def p(self):
        return self.node("prob")

    @property
    def eps(self):
        return D.leaf(D.psym("eps" + self.tag))

    @property
    def dep(self):
        return D.leaf(D.psym("dep" + self.tag))

    @property
    def halted(self):
        return D.gt(self.p, D.sub(D.num(1), self.eps))


def is_record(c):
    return isinstance(c, ObjCell) and isinstance(c.cls, ClassV) and c.cls.module is not None and c.cls.module.name.startswith("harness_R_")


def record_items(eng, c):
    """(field, value) of a record built by the harness"""
    if c.nt is not None:
        return list(zip((f[0] for f in c.cls.dataclass), c.nt))
    return [(k, v) for k, v in c.attrs.items() if k != "fields"]


def map_record(eng, v, c, f):
    return eng.call(c.cls, [], {k: f(x) for k, x in record_items(eng, c)})


def map_tree(eng, v, f):
    """the containers of v rebuilt, with f applied to everything that is not a container"""
    if isinstance(v, tuple):
        return tuple(map_tree(eng, x, f) for x in v)
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, ListCell):
            return eng.new_list([map_tree(eng, x, f) for x in c.items])
        if isinstance(c, DictCell):
            return eng.new_dict((k, map_tree(eng, x, f)) for k, x in c.items.values())
        if is_record(c):
            return map_record(eng, v, c, lambda x: map_tree(eng, x, f))
    return f(v)


def copy_tree(eng, v):
    return map_tree(eng, v, lambda x: x)


# --------------------------------------------------------------- comparison

ANY = object()


class Num:
    """expected numeric value, whatever its representation"""

    def __init__(self, node):
        self.node = node


class Like:
    """expected instance of a package class with these attributes"""

    def __init__(self, cls, **attrs):
        self.cls = cls
        self.attrs = attrs


class Mismatch:
    def __init__(self, path, what, loc=None, witness=None):
        self.path = path
        self.what = what
        self.loc = loc
        self.witness = witness


def tainted(w):
    """the witness rests on a test the analysis could not model"""
    return w is not None and "unknown#" in repr(w)


def numnode(eng, v):
    if isinstance(v, TensorV):
        return J.kindnode(v)
    if J.is_number(v):
        return eng._node(J.scalar_node(v))
    return None


def rounding(S, t):
    """a conversion on the way to the tensor that lost precision its own type would have kept, or None. What is only tested and what comes
    from a Python number may have the type of the probabilities."""
    own = t.dtype if t.dtype in J.FLOATS else "float32"
    core = getattr(S.scn, "core", None) if S is not None and S.scn is not None else None
    for frm, to, where, kind in t.low:
        if kind in ("cut", "absorbed") or not J.narrower(to, own):
            continue
        if (kind != "value" or t.dtype not in J.FLOATS) and core is not None and not J.narrower(to, core):
            continue
        return frm, to, where, own
    return None


def compare(S, got, exp, gate, path="result", loc=None):
    """Mismatches between an abstract value and its specification where gate holds"""
    eng = S.eng
    out = []

    def bad(path, what, gate, loc=None, w=None):
        w = w or D.sat(gate)
        if w is None:
            return
        if tainted(w):
            raise Undecided(f"{path}: {what} only under a test that cannot be modelled", loc)
        out.append(Mismatch(path, what, loc, w))

    def cell_of(v):
        return eng.cell(v)

    def go(got, exp, gate, path, loc):
        if exp is ANY or gate is D.FALSE:
            return
        if isinstance(exp, PhiV):
            go(got, exp.a, D.band(gate, exp.cond), path, loc)
            go(got, exp.b, D.band(gate, D.bnot(exp.cond)), path, loc)
            return
        if isinstance(got, PhiV):
            go(got.a, exp, D.band(gate, got.cond), path, loc)
            go(got.b, exp, D.band(gate, D.bnot(got.cond)), path, loc)
            return
        if isinstance(got, UnknownV):
            if D.sat(gate) is None:
                return
            raise Undecided(f"{path} is unknown: {got.why}", got.loc)
        if isinstance(got, Ref):
            c = cell_of(got)
            if isinstance(c, AltCell):
                saved = eng.heap
                for cc, g in ((c.a, c.cond), (c.b, D.bnot(c.cond))):
                    eng.heap = dict(saved)
                    eng.heap[got.id] = cc
                    try:
                        go(got, exp, D.band(gate, g), path, loc)
                    finally:
                        eng.heap = saved
                return
        if exp is None or got is None:
            if exp is not got:
                bad(path, f"{describe(eng, got)} instead of {describe(eng, exp)}", gate, locof(got, loc))
            return
        if isinstance(exp, Num):
            n = numnode(eng, got)
            if n is None or (isinstance(got, TensorV) and got.shape != ()):
                bad(path, f"{describe(eng, got)} instead of a number", gate, locof(got, loc))
                return
            w = D.differ(n, exp.node, gate)
            if w:
                bad(path, "wrong value", gate, locof(got, loc), w)
            return
        if isinstance(exp, TensorV):
            if exp.shape == () and J.is_number(got):
                got = J.to_tensor(eng, got)
                got = TensorV((), exp.dtype, got.node, False, None)
            if not isinstance(got, TensorV):
                bad(path, f"{describe(eng, got)} instead of {describe(eng, exp)}", gate, locof(got, loc))
                return
            if got.shape != exp.shape:
                bad(path, f"shape {list(got.shape)} instead of {list(exp.shape)}", gate, got.loc)
                return
            if got.dtype != exp.dtype:
                bad(path, f"dtype {got.dtype} instead of {exp.dtype}", gate, got.loc)
                return
            w = D.differ(J.kindnode(got), J.kindnode(exp), gate)
            if w:
                bad(path, "wrong value", gate, got.loc, w)
            elif got.low:
                r = rounding(S, got)
                if r:
                    bad(path, f"the value was rounded to {r[1]} on the way, which is less precise than {r[3]}", gate, r[2])
            return
        if isinstance(exp, Like):
            if not isinstance(got, Ref) or not isinstance(cell_of(got), ObjCell) or not eng.B.is_subclass(eng, cell_of(got).cls, exp.cls):
                bad(path, f"{describe(eng, got)} instead of an instance of {exp.cls.name}", gate, locof(got, loc))
                return
            for n, x in exp.attrs.items():
                v = attr_of(S, got, n)
                if v is UNBOUND:
                    bad(f"{path}.{n}", "missing attribute", gate, loc)
                else:
                    go(v, x, gate, f"{path}.{n}", loc)
            return
        if J.is_number(exp) and not isinstance(exp, bool):
            n = numnode(eng, got)
            if n is None or (isinstance(got, TensorV) and got.shape != ()):
                bad(path, f"{describe(eng, got)} instead of {describe(eng, exp)}", gate, locof(got, loc))
                return
            w = D.differ(n, numnode(eng, exp), gate)
            if w:
                bad(path, "wrong value", gate, locof(got, loc), w)
            return
        if isinstance(exp, (bool, BoolV)):
            if isinstance(got, (bool, BoolV)):
                n = eng.boolnode(got)
            elif isinstance(got, TensorV) and got.shape == () and got.dtype == "bool":
                n = J.kindnode(got)
            else:
                bad(path, f"{describe(eng, got)} instead of {describe(eng, exp)}", gate, locof(got, loc))
                return
            w = D.differ(n, eng.boolnode(exp), gate)
            if w:
                bad(path, "wrong truth value", gate, locof(got, loc), w)
            return
        if isinstance(exp, tuple):
            if not isinstance(got, tuple) or len(got) != len(exp):
                bad(path, f"{describe(eng, got)} instead of {describe(eng, exp)}", gate, locof(got, loc))
                return
            for i, (x, y) in enumerate(zip(got, exp)):
                go(x, y, gate, f"{path}[{i}]", loc)
            return
        if isinstance(exp, Ref):
            ce = cell_of(exp)
            cg = cell_of(got) if isinstance(got, Ref) else None
            if isinstance(ce, ListCell):
                if not isinstance(cg, ListCell) or len(cg.items) != len(ce.items):
                    bad(path, f"{describe(eng, got)} instead of {describe(eng, exp)}", gate, locof(got, loc))
                    return
                for i, (x, y) in enumerate(zip(cg.items, ce.items)):
                    go(x, y, gate, f"{path}[{i}]", loc)
                return
            if isinstance(ce, DictCell):
                if not isinstance(cg, DictCell):
                    bad(path, f"{describe(eng, got)} instead of {describe(eng, exp)}", gate, locof(got, loc))
                    return
                for h, (k, y) in ce.items.items():
                    if h not in cg.items:
                        bad(f"{path}[{k!r}]", "entry is missing", gate, loc)
                    else:
                        go(cg.items[h][1], y, gate, f"{path}[{k!r}]", loc)
                for h, (k, x) in cg.items.items():
                    if h not in ce.items:
                        if isinstance(x, PhiV):
                            continue
                        bad(f"{path}[{k!r}]", "entry should not be there", gate, loc)
                return
            if isinstance(ce, ObjCell):
                if isinstance(got, Ref) and got.id == exp.id:
                    return
                if not isinstance(cg, ObjCell) or cg.cls is not ce.cls:
                    bad(path, f"{describe(eng, got)} instead of {describe(eng, exp)}", gate, locof(got, loc))
                    return
                for n, y in ce.attrs.items():
                    if n not in cg.attrs:
                        bad(f"{path}.{n}", "missing attribute", gate, loc)
                    else:
                        go(cg.attrs[n], y, gate, f"{path}.{n}", loc)
                return
            if isinstance(got, Ref) and got.id == exp.id:
                return
        r = eng._node(eng.run(lambda: eng.equal(got, exp)).value) if not isinstance(got, type(exp)) or got != exp else D.TRUE
        if isinstance(r, (BoolV, bool)):
            r = eng.boolnode(r)
        if not isinstance(r, D.Node):
            raise Undecided(f"comparison of {path}")
        if r is not D.TRUE:
            bad(path, f"{describe(eng, got)} instead of {describe(eng, exp)}", D.band(gate, D.bnot(r)), locof(got, loc))

    go(got, exp, gate, path, loc)
    return out


def attr_of(S, obj, name):
    r = S.eng.run(lambda: S.eng.getattr_(obj, name))
    return r.value if r.ok else UNBOUND


def locof(v, default=None):
    return getattr(v, "loc", None) or default


def describe(eng, v):
    if v is None:
        return "None"
    if isinstance(v, TensorV):
        return f"a {v.dtype}{list(v.shape)} tensor"
    if J.is_number(v):
        return f"the number {D.show_node(eng._node(J.scalar_node(v)))}"
    if isinstance(v, tuple):
        return f"a tuple of {len(v)}"
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, ListCell):
            return f"a list of {len(c.items)}"
        if isinstance(c, DictCell):
            return f"a dict with keys {[k for k, _ in c.items.values()]}"
        if isinstance(c, ObjCell):
            return f"a {c.cls.name} object"
        return f"a {c.kind}"
    if isinstance(v, (Num,)):
        return "a number"
    if isinstance(v, Like):
        return f"a {v.cls.name}"
    return repr(v)


def fmt_loc(loc):
    if not loc or not loc[0]:
        return "?"
    return f"{loc[0]}:{loc[1]} in {loc[2]}" if loc[2] else f"{loc[0]}:{loc[1]}"


# --------------------------------------------------------------- the record


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obs = []
        self.scene = ""
        self.analysed = set()
        self.t0 = time.time()
        self.rules = {}
        self.unknown = set()
        self.notes = []
        self.assumptions = []
        self.samples = []
        self.warmed = {}

    def add(self, rule, status, detail="", loc=None, extra=None):
        self.obs.append(dict(rule=rule, scene=self.scene, status=status, detail=detail, loc=fmt_loc(loc) if loc else "",
                             **(extra or {})))

    def block(self, name, f, *a):
        """run one scene of a check, on its own and for some scenes also after unrelated objects were used"""
        self._block(name, f, *a)
        scn = next((x for x in a if isinstance(x, Scn)), None)
        k = self.warmed.setdefault(f.__name__, {}).setdefault(scn.name if scn is not None else name, len(self.warmed[f.__name__]))
        if k == 0 or self.tier == "thorough" and k % 6 == 0:
            WARM[0] = True
            try:
                self._block(name + ", after other objects", f, *a)
            finally:
                WARM[0] = False

    def _block(self, name, f, *a):
        """what cannot be analysed is undecided, never a pass and never an alarm"""
        self.scene = name
        n0 = len(self.obs)
        try:
            f(*a)
        except AnchorLost:
            raise
        except Undecided as e:
            self.add("analysis", "undecided", e.why, e.loc)
        except PathDead:
            self.add("analysis", "undecided", "no normal continuation while preparing the scene")
        except (D.Blowup, RecursionError, MemoryError) as e:
            self.add("analysis", "undecided", f"{type(e).__name__}: too large to analyse")
        except Exception as e:
            if os.environ.get("ACTCHECK_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.add("analysis", "undecided", f"internal: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})")
        if len(self.obs) == n0:
            self.add("analysis", "undecided", "no obligation was generated")

    def saw(self, S):
        if S.scn is not None and len(self.samples) < 12:
            self.samples.append(S.scn.describe())
        self.analysed |= {a for a in S.eng.analysed if not a[0].startswith("<")}
        for loc, why in S.eng.unknown_sites:
            self.unknown.add((fmt_loc(loc), why))

    # obligations

    def holds(self, rule, node, assume=D.TRUE, detail="", loc=None):
        """node is true wherever assume is"""
        w = D.valid(node, assume)
        self.verdict(rule, w, detail, loc)
        return w is None

    def equal_nodes(self, rule, a, b, assume=D.TRUE, detail="", loc=None):
        w = D.differ(a, b, assume)
        self.verdict(rule, w, detail, loc)
        return w is None

    def verdict(self, rule, w, detail="", loc=None):
        if w is None:
            self.add(rule, "held")
        elif tainted(w):
            self.add(rule, "undecided", f"{detail} depends on a test that cannot be modelled", loc)
        else:
            self.add(rule, "violated", f"{detail}: {w!r}" if detail else repr(w), loc)

    def equal(self, rule, S, got, exp, assume=D.TRUE, path="result"):
        ms = compare(S, got, exp, assume, path)
        if not ms:
            self.add(rule, "held")
        for m in ms:
            self.add(rule, "violated", f"{m.path}: {m.what}" + (f" {m.witness!r}" if m.witness is not None else ""), m.loc)
        return not ms

    def no_raise(self, rule, r, assume=D.TRUE, what="", ignore=()):
        """no exception is raised where assume holds"""
        n = 0
        for x in r.raises:
            g = D.band(x.pc, assume)
            w = D.sat(g)
            if w is None or r.exc_name(x) in ignore:
                continue
            n += 1
            if tainted(w):
                self.add(rule, "undecided", f"{what} may raise {r.exc_name(x)} under a test that cannot be modelled", x.loc)
            else:
                self.add(rule, "violated", f"{what} raises {r.exc_name(x)}: {str(r.exc_msg(x)).strip()[:160]} {w!r}", x.loc,
                         dict(stack=[fmt_loc(s) for s in x.stack]))
        if not n:
            self.add(rule, "held")
        return n == 0

    def must_raise(self, rule, r, names, cond=D.TRUE, what=""):
        """wherever cond holds an exception of one of the classes is raised (names empty: any)"""
        if r.ok:
            w = D.sat(D.band(r.pc, cond))
            if w is not None:
                if tainted(w):
                    self.add(rule, "undecided", f"{what} under a test that cannot be modelled")
                else:
                    self.add(rule, "violated", f"{what} completes without raising {w!r}", self.last_loc(r))
                return False
        good = r.raised(*names) if names else r.raised()
        rest = D.band(cond, D.bnot(good))
        for x in r.raises:
            w = D.sat(D.band(x.pc, rest))
            if w is not None:
                self.add(rule, "undecided" if tainted(w) else "violated",
                         f"{what} raises {r.exc_name(x)} instead of {' or '.join(names)}: {str(r.exc_msg(x)).strip()[:120]} {w!r}", x.loc)
                return False
        if D.sat(D.band(rest, D.bnot(r.pc))) is not None and not r.raises and not r.ok:
            self.add(rule, "undecided", f"{what}: no outcome")
            return False
        self.add(rule, "held")
        return True

    @staticmethod
    def last_loc(r):
        return getattr(r, "loc", None)

    def traceable(self, rule, S, r, assume=D.TRUE, what=""):
        """no exception escapes a traced run; a concretisation recorded on the way explains it"""
        n = 0
        evs = [e for e in S.eng.events if e.kind == "concretize"]
        for x in r.raises:
            w = D.sat(D.band(x.pc, assume))
            if w is None:
                continue
            n += 1
            if tainted(w):
                self.add(rule, "undecided", f"{what} may raise under a test that cannot be modelled", x.loc)
            elif evs:
                self.add(rule, "violated", f"{what} needs the contents of a traced tensor: {evs[-1].detail}", evs[-1].loc)
            else:
                self.add(rule, "violated", f"{what} cannot be traced, it raises {r.exc_name(x)}: {str(r.exc_msg(x)).strip()[:160]}", x.loc)
        if not n:
            self.add(rule, "held")

    # summary

    def finish(self):
        vio = [o for o in self.obs if o["status"] == "violated"]
        und = [o for o in self.obs if o["status"] == "undecided"]
        held = [o for o in self.obs if o["status"] == "held"]
        return vio, und, held


def freeze_all(S, roots):
    """ids of every cell reachable from the values -> description; the cells as they are now"""
    eng = S.eng
    seen = {}

    def go(v, path):
        if isinstance(v, PhiV):
            go(v.a, path)
            go(v.b, path)
        elif isinstance(v, tuple):
            for i, x in enumerate(v):
                go(x, f"{path}[{i}]")
        elif isinstance(v, Ref) and v.id not in seen:
            c = eng.cell(v)
            seen[v.id] = (path, c)
            if isinstance(c, ListCell):
                for i, x in enumerate(c.items):
                    go(x, f"{path}[{i}]")
            elif isinstance(c, DictCell):
                for k, x in c.items.values():
                    go(x, f"{path}[{k!r}]")
            elif isinstance(c, ObjCell):
                for n, x in c.attrs.items():
                    go(x, f"{path}.{n}")
    for name, v in roots.items():
        go(v, name)
    eng.frozen.update({i: p for i, (p, c) in seen.items()})
    return seen


def check_frozen(R, rule, S, r, frozen):
    """every frozen cell is as it was at every exit of the run"""
    eng = S.eng
    bad = []
    exits = ([(r.pc, r.heap, None)] if r.ok else []) + [(x.pc, x.heap, x) for x in r.raises]
    for pc, heap, x in exits:
        if D.sat(pc) is None:
            continue
        for i, (path, c0) in frozen.items():
            c = heap.get(i, eng.base.get(i))
            if c is None or c is c0:
                continue
            d = cell_diff(c0, c, pc)
            if d:
                bad.append((path, d))
    seen = set()
    for path, d in bad:
        if (path, d) in seen:
            continue
        seen.add((path, d))
        ev = [e for e in eng.events if e.kind == "mutate" and e.detail.endswith(" of " + path)]
        R.add(rule, "violated", f"{path} {d} is changed in place", ev[-1].loc if ev else None)
    if not seen:
        R.add(rule, "held")
    return not seen


def same_value(a, b, gate):
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if isinstance(b, PhiV):
        return same_value(a, b.a, D.band(gate, b.cond)) and same_value(a, b.b, D.band(gate, D.bnot(b.cond)))
    if isinstance(a, TensorV) and isinstance(b, TensorV):
        return a.shape == b.shape and a.dtype == b.dtype and D.differ(J.kindnode(a), J.kindnode(b), gate) is None
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y, gate) for x, y in zip(a, b))
    if isinstance(a, ScalarV) and isinstance(b, ScalarV):
        return D.differ(a.node, b.node, gate) is None
    if D.sat(gate) is None:
        return True
    try:
        return type(a) is type(b) and a == b
    except Exception:
        return False


def cell_diff(c0, c, gate):
    if isinstance(c, AltCell):
        return cell_diff(c0, c.a, D.band(gate, c.cond)) or cell_diff(c0, c.b, D.band(gate, D.bnot(c.cond)))
    if D.sat(gate) is None:
        return ""
    if type(c0) is not type(c):
        return "itself"
    if isinstance(c0, ListCell):
        if len(c0.items) != len(c.items):
            return "(its length)"
        for i, (a, b) in enumerate(zip(c0.items, c.items)):
            if not same_value(a, b, gate):
                return f"entry {i}"
        return ""
    if isinstance(c0, DictCell):
        for h, (k, a) in c0.items.items():
            if h not in c.items:
                return f"entry {k!r}"
            if not same_value(a, c.items[h][1], gate):
                return f"entry {k!r}"
        for h, (k, b) in c.items.items():
            if h not in c0.items:
                return f"entry {k!r}"
        return ""
    if isinstance(c0, ObjCell):
        for n, a in c0.attrs.items():
            if n not in c.attrs:
                return f"attribute {n}"
            if not same_value(a, c.attrs[n], gate):
                return f"attribute {n}"
        return ""
    return ""


# ------------------------------------------------- dependence on other elements


def foreign_split(n, batch):
    """
    (m1, m2): the node with every `all` test split into its own-element part and
    the rest, and the same with every symbol of another batch element replaced
    by a fresh one. They agree everywhere iff the element does not depend on
    the other elements.
    """
    own = tuple(f"i{k}" if d != 1 else 0 for k, d in enumerate(batch))
    return _split(n, own, False), _split(n, own, True)


def _idx_foreign(idx, own):
    pre = idx[:len(own)]
    for a, b in zip(pre, own):
        if a != b:
            return True
    return bool(pre) and len(pre) < len(own)


def _split(n, own, rename, memo=None):
    memo = {} if memo is None else memo

    def atom(a):
        k = D.NATOMS[a]
        if k[0] == "sym":
            if rename and _idx_foreign(k[2], own):
                D.SYMINFO.setdefault(k[1] + "~other", D.SYMINFO.get(k[1], dict(lo=None, hi=None, lo_strict=False, hi_strict=False, data=True)))
                return D.patom(("sym", k[1] + "~other", k[2]))
            return D.patom(k)
        if k[0] == "inv":
            return D.patom(("inv", poly(k[1])))
        return D.patom(("fn", k[1], tuple(arg(x) for x in k[2])))

    def arg(x):
        if isinstance(x, D.Poly):
            return poly(x)
        if isinstance(x, D.Node):
            return _split(x, own, rename)
        if isinstance(x, tuple):
            return tuple(arg(y) for y in x)
        return x

    def poly(p):
        out = D.ZERO
        for m, c in p.terms.items():
            t = D.pconst(c)
            for a, e in m:
                q = atom(a)
                for _ in range(e):
                    t = t * q
            out = out + t
        return out

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.atom is None:
            r = D.leaf(poly(x.val)) if isinstance(x.val, D.Poly) else x
        else:
            k = D.BATOMS[x.atom]
            if k[0] == "gt0":
                c = D._n(D.gt0_poly(poly(k[1])))
            elif k[0] == "eq0":
                c = D._n(D.eq0_poly(poly(k[1])))
            elif k[0] == "bsym":
                c = D.batom(("bsym", k[1] + "~other", k[2])) if rename and _idx_foreign(k[2], own) else D.batom(k)
            elif k[0] == "all":
                inner = D.instance(k[1])
                rest = D.batom(("all", _split(k[1], own, rename)))
                c = D.band(_split(inner, own, rename), rest)
            else:
                c = D.batom(("opq", k[1], tuple(arg(y) for y in k[2])))
            r = D.ite(c, go(x.hi), go(x.lo))
        memo[x.id] = r
        return r
    return go(n)
