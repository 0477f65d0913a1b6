"""
Abstract interpreter for the python of the analysed repository.

It walks the syntax tree once over abstract values (values.py, domain.py). At a
branch whose test is not statically known both sides are analysed and the
states are joined at the merge point with a gate; nothing of the repository is
imported or run. What it cannot model becomes UnknownV (top) or Undecided.
"""
import ast
import os

from . import domain as D
from .values import *


class PathDead(Exception):
    """the current abstract path has no normal continuation"""


class Undecided(Exception):
    """the analysis cannot model a construct"""

    def __init__(self, why, loc=None):
        super().__init__(why)
        self.why = why
        self.loc = loc


class Raised:
    __slots__ = ("pc", "heap", "exc", "loc", "stack")

    def __init__(self, pc, heap, exc, loc, stack):
        self.pc = pc
        self.heap = heap
        self.exc = exc
        self.loc = loc
        self.stack = stack


class Event:
    __slots__ = ("kind", "pc", "loc", "detail", "data")

    def __init__(self, kind, pc, loc, detail, data=None):
        self.kind = kind
        self.pc = pc
        self.loc = loc
        self.detail = detail
        self.data = data


class Frame:
    def __init__(self, qual, module, chain, func=None):
        self.qual = qual
        self.module = module
        self.chain = chain            # [(env Ref, names or None, is_class)]
        self.func = func
        self.returns = []
        self.loops = []
        self.line = 0
        self.globals = set()
        self.nonlocals = set()
        self.yields = None            # Ref to a ListCell collecting yields
        self.yield_cb = None
        self.selfcls = None
        self.first = None


class Loop:
    def __init__(self):
        self.breaks = []
        self.continues = []


class Scope:
    def __init__(self):
        self.names = set()
        self.globals = set()
        self.nonlocals = set()
        self.is_gen = False


_scope_cache = {}


def scope_of(node):
    s = _scope_cache.get(node)
    if s is not None:
        return s
    s = Scope()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        s.names.add(x.arg)
    if a.vararg:
        s.names.add(a.vararg.arg)
    if a.kwarg:
        s.names.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]
    for b in body:
        collect_names(b, s)
    s.names -= s.globals
    s.names -= s.nonlocals
    _scope_cache[node] = s
    return s


def collect_names(n, s, in_comp=False):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        s.names.add(n.name)
        for d in n.decorator_list:
            collect_names(d, s, in_comp)
        if not isinstance(n, ast.ClassDef):
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k is not None]:
                collect_names(d, s, in_comp)
        return
    if isinstance(n, ast.Lambda):
        return
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        for c in ast.walk(n):
            if isinstance(c, ast.NamedExpr):
                s.names.add(c.target.id)
        return
    if isinstance(n, ast.Global):
        s.globals.update(n.names)
    elif isinstance(n, ast.Nonlocal):
        s.nonlocals.update(n.names)
    elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
        s.names.add(n.id)
    elif isinstance(n, (ast.Import, ast.ImportFrom)):
        for al in n.names:
            if al.name != "*":
                s.names.add((al.asname or al.name).split(".")[0])
    elif isinstance(n, ast.ExceptHandler) and n.name:
        s.names.add(n.name)
    elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
        s.names.add(n.name)
    elif isinstance(n, ast.MatchMapping) and n.rest:
        s.names.add(n.rest)
    elif isinstance(n, (ast.Yield, ast.YieldFrom)):
        s.is_gen = True
    for c in ast.iter_child_nodes(n):
        collect_names(c, s)


def own_func(fn):
    return bool(fn.module is not None and fn.module.path.startswith("src"))


def is_pyconst(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes, complex)) or v is Ellipsis


BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv", ast.Mod: "mod",
          ast.Pow: "pow", ast.MatMult: "matmul", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor",
          ast.LShift: "lshift", ast.RShift: "rshift"}
CMPOPS = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}
DUNDER = {"add": ("__add__", "__radd__"), "sub": ("__sub__", "__rsub__"), "mul": ("__mul__", "__rmul__"),
          "div": ("__truediv__", "__rtruediv__"), "floordiv": ("__floordiv__", "__rfloordiv__"),
          "mod": ("__mod__", "__rmod__"), "pow": ("__pow__", "__rpow__"), "matmul": ("__matmul__", "__rmatmul__"),
          "and": ("__and__", "__rand__"), "or": ("__or__", "__ror__"), "xor": ("__xor__", "__rxor__"),
          "lshift": ("__lshift__", "__rlshift__"), "rshift": ("__rshift__", "__rrshift__"),
          "eq": ("__eq__", "__eq__"), "ne": ("__ne__", "__ne__"), "lt": ("__lt__", "__gt__"),
          "le": ("__le__", "__ge__"), "gt": ("__gt__", "__lt__"), "ge": ("__ge__", "__le__")}


class Engine:
    MAX_DEPTH = 80
    MAX_STEPS = 4000000

    def __init__(self, root, pkg_roots=("", "src")):
        self.root = root
        self.pkg_roots = pkg_roots
        self.modules = {}
        self.base = {}
        self.heap = {}
        self.pc = D.TRUE
        self.catch = [[]]
        self.frames = []
        self.events = []
        self.exc_stack = []
        self.exc_context = {}     # exception -> the exception being handled when it was raised
        self.faults = {}          # exception -> how python itself came to raise it
        self.trace_depth = 0
        self.absorb = None           # C29: does a value of a narrow type no longer depend on epsilon?
        self.check_stack = []        # checkify contexts: list of [node, locs]
        self.nid = 0
        self.steps = 0
        self.frozen = {}             # ref id -> description
        self.pytrees = {}            # ClassV -> (flatten, unflatten, with_keys)
        self.feas_memo = {}
        self.analysed = set()        # (file, qualname) of functions entered
        self.unknown_sites = []
        self.fresh = 0
        self.loop_live = []
        self.in_module_load = 0
        from . import pybuiltins, jaxmodel
        self.B = pybuiltins
        self.J = jaxmodel
        self.epoch = 0          # which operation this is
        self.ids = {}           # what id() said, and of what
        self.ids_free = []      # the numbers of objects that are gone
        self.builtins = pybuiltins.make_builtins(self)
        jaxmodel.setup(self)

    # ------------------------------------------------------------------ heap

    def new(self, cell):
        self.nid += 1
        self.heap[self.nid] = cell
        return Ref(self.nid)

    def cell(self, ref):
        c = self.heap.get(ref.id)
        if c is None:
            c = self.base.get(ref.id)
            if c is None:
                raise Undecided("reference to a value of another branch", self.loc())
        if type(c) is ViewCell:
            c = self.cell(c.obj)
            if not isinstance(c, ObjCell):
                raise Undecided("attribute dictionary of an object that differs between branches", self.loc())
            c = DictCell({self.hkey(k): (k, v) for k, v in c.attrs.items()})
        return c

    def mutate(self, ref, cell, what=""):
        old = self.heap.get(ref.id, self.base.get(ref.id))
        if type(old) is ViewCell:
            o = self.cell(old.obj)
            if not isinstance(o, ObjCell) or not isinstance(cell, DictCell) or not all(isinstance(k, str) for k, _ in cell.items.values()):
                raise Undecided("unusual write to an attribute dictionary", self.loc())
            return self.mutate(old.obj, ObjCell(o.cls, dict(cell.items.values()), o.extra), what)
        if ref.id in self.frozen:
            self.event("mutate", f"{what} of {self.frozen[ref.id]}")
        self.heap[ref.id] = cell

    def put(self, ref, cell):
        self.heap[ref.id] = cell

    def new_list(self, items):
        return self.new(ListCell(items))

    def new_dict(self, pairs=()):
        d = {}
        for k, v in pairs:
            d[self.hkey(k)] = (k, v)
        return self.new(DictCell(d))

    def new_iter(self, items, name="iterator"):
        return self.new(IterCell(items, 0, name))

    # -------------------------------------------------------------- location

    def loc(self):
        if not self.frames:
            return ("<harness>", 0, "")
        for f in reversed(self.frames):
            if f.module is not None:
                return (f.module.path, f.line, f.qual)
        return ("<harness>", 0, "")

    def stack(self):
        return [(f.module.path, f.line, f.qual) for f in self.frames if f.module is not None]

    def event(self, kind, detail, data=None):
        self.events.append(Event(kind, self.pc, self.loc(), detail, data))

    def unknown(self, why):
        self.unknown_sites.append((self.loc(), why))
        return UnknownV(why, self.loc())

    def fresh_name(self, p):
        self.fresh += 1
        return f"{p}#{self.fresh}"

    # ------------------------------------------------------- paths and joins

    def feasible(self, pc):
        if pc is D.FALSE:
            return False
        if pc is D.TRUE:
            return True
        r = self.feas_memo.get(pc.id)
        if r is None:
            r = self.feas_memo[pc.id] = D.sat(pc) is not None
        return r

    def assume(self, cond):
        cond = self._node(cond)
        self.pc = D.band(self.pc, cond)
        if not self.feasible(self.pc):
            raise PathDead()

    @staticmethod
    def _node(c):
        if c is True:
            return D.TRUE
        if c is False:
            return D.FALSE
        return c

    def fork(self, cond, ft, fe):
        """Analyse ft where cond holds and fe where not, then join."""
        cond = self._node(cond)
        if cond is D.TRUE:
            return ft()
        if cond is D.FALSE:
            return fe()
        pc0, h0 = self.pc, self.heap
        outs = []
        cc = [self.check_stack[-1][0]] if self.check_stack else None
        for p, f in ((D.band(pc0, cond), ft), (D.band(pc0, D.bnot(cond)), fe)):
            if not self.feasible(p):
                continue
            self.pc = p
            self.heap = dict(h0)
            try:
                v = f()
                outs.append((self.pc, self.heap, v))
            except PathDead:
                pass
        self.pc, self.heap = pc0, h0
        if not outs:
            raise PathDead()
        return self.merge(outs)

    def gated(self, v, old):
        """v where this point is reached, old elsewhere: for writes to what is not kept in the heap"""
        if self.pc is D.TRUE or old is UNBOUND:
            return v
        return self.join(self.pc, v, old)

    def merge(self, outs):
        """join a list of (pc, heap, value); sets the current state, returns the value"""
        pc, heap, val = outs[0]
        for p2, h2, v2 in outs[1:]:
            pj = D.bor(pc, p2)
            c = D.restrict(pc, pj)
            heap = self.join_heaps(c, heap, h2)
            val = self.join(c, val, v2)
            pc = pj
        self.pc, self.heap = pc, heap
        return val

    def join_heaps(self, c, a, b):
        if a is b:
            return a
        out = dict(b)
        for k, ca in a.items():
            cb = b.get(k)
            if cb is None:
                cb = self.base.get(k)
                if cb is None:
                    out[k] = ca
                    continue
            if ca is not cb:
                out[k] = self.join_cells(c, ca, cb)
        for k, cb in b.items():
            if k not in a:
                ca = self.base.get(k)
                if ca is not None and ca is not cb:
                    out[k] = self.join_cells(c, ca, cb)
        return out

    def join_cells(self, c, a, b):
        if a is b:
            return a
        if c is D.TRUE:
            return a
        if c is D.FALSE:
            return b
        if type(a) is type(b):
            if isinstance(a, EnvCell):
                out = {}
                for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                    out[k] = self.join(c, a.vars.get(k, UNBOUND), b.vars.get(k, UNBOUND))
                return EnvCell(out)
            if isinstance(a, ListCell) and len(a.items) == len(b.items):
                return ListCell([self.join(c, x, y) for x, y in zip(a.items, b.items)])
            if isinstance(a, DictCell) and list(a.items) == list(b.items):
                return DictCell({k: (kv[0], self.join(c, kv[1], b.items[k][1])) for k, kv in a.items.items()}, a.default)
            if isinstance(a, ObjCell) and a.cls is b.cls and list(a.attrs) == list(b.attrs) and a.extra == b.extra:
                return ObjCell(a.cls, {k: self.join(c, v, b.attrs[k]) for k, v in a.attrs.items()}, a.extra)
            if isinstance(a, IterCell) and a.pos == b.pos and len(a.items) == len(b.items):
                return IterCell([self.join(c, x, y) for x, y in zip(a.items, b.items)], a.pos, a.name)
            if isinstance(a, SetCell) and list(a.items) == list(b.items):
                return a
        return AltCell(c, a, b)

    def join(self, c, a, b):
        if a is b:
            return a
        if c is D.TRUE:
            return a
        if c is D.FALSE:
            return b
        ta, tb = type(a), type(b)
        if ta is tb:
            if ta is Ref and a.id == b.id:
                return a
            if ta is TensorV and a.shape == b.shape and a.dtype == b.dtype and a.weak == b.weak:
                return TensorV(a.shape, a.dtype, D.ite(c, self.J.kindnode(a), self.J.kindnode(b)), a.weak,
                               a.loc if a.loc is not None else b.loc, a.tracer or b.tracer, a.np, lows(a, b))
            if ta is ScalarV and a.kind == b.kind:
                return ScalarV(D.ite(c, D.to_num(a.node), D.to_num(b.node)), a.kind)
            if ta is BoolV:
                return BoolV(D.ite(c, a.node, b.node))
            if is_pyconst(a) and not isinstance(a, bool) and a == b:
                return a
            if ta is tuple and len(a) == len(b):
                return tuple(self.join(c, x, y) for x, y in zip(a, b))
            if ta in (ExtV, DTypeV) and a == b:
                return a
            if ta is TreeDefV and self.treedef_same(a, b):
                return a
            if ta is ErrorV:
                return ErrorV(D.ite(c, a.node, b.node), a.locs + tuple(x for x in b.locs if x not in a.locs))
            if ta is float:
                return ScalarV(D.ite(c, D.numeric(a), D.numeric(b)), "float")
            if ta is BoundV and a.func is b.func and isinstance(a.self, Ref) and isinstance(b.self, Ref) and a.self.id == b.self.id:
                return a
            if ta is UnknownV:
                return a
        if ta in (bool, BoolV) and tb in (bool, BoolV):
            return BoolV(D.ite(c, self.boolnode(a), self.boolnode(b)))
        if ta in (float, ScalarV) and tb in (float, ScalarV) and \
                all(isinstance(x, float) or x.kind == "float" for x in (a, b)):
            return ScalarV(D.ite(c, self.J.scalar_node(a), self.J.scalar_node(b)), "float")
        return PhiV(c, a, b)

    def boolnode(self, v):
        if isinstance(v, bool):
            return D.TRUE if v else D.FALSE
        return v.node

    def treedef_same(self, a, b):
        if a is b:
            return True
        if a.kind != b.kind or len(a.children) != len(b.children):
            return False
        if a.kind == "dict" and a.data != b.data:
            return False
        if a.kind == "custom":
            if a.data[0] is not b.data[0] or a.data[1] is not b.data[1]:
                return False
        return all(self.treedef_same(x, y) for x, y in zip(a.children, b.children))

    def cases(self, vals, f):
        """f(vals) with every gated alternative among vals resolved"""
        for k, v in enumerate(vals):
            if isinstance(v, PhiV):
                return self.fork(v.cond,
                                 lambda: self.cases(vals[:k] + [v.a] + vals[k + 1:], f),
                                 lambda: self.cases(vals[:k] + [v.b] + vals[k + 1:], f))
            if isinstance(v, Ref):
                c = self.heap.get(v.id)
                if c is not None and isinstance(c, AltCell):
                    def side(cc):
                        def g():
                            self.heap[v.id] = cc
                            return self.cases(vals, f)
                        return g
                    return self.fork(c.cond, side(c.a), side(c.b))
        return f(vals)

    # ------------------------------------------------------------ exceptions

    def make_exc(self, cls, args=()):
        if isinstance(cls, str):
            cls = self.B.exc_class(cls)
        return self.new(ObjCell(cls, {}, tuple(args)))

    def push_raise(self, exc):
        if self.exc_stack and isinstance(exc, Ref) and isinstance(self.exc_stack[-1], Ref) and exc.id != self.exc_stack[-1].id:
            self.exc_context.setdefault(exc.id, self.exc_stack[-1].id)
        self.catch[-1].append(Raised(self.pc, self.heap, exc, self.loc(), self.stack()))

    def throw(self, cls, msg="", fault=None):
        """fault: the exception is Python's answer to code that cannot be right (see c_names); False: raised by code outside the repository"""
        exc = self.make_exc(cls, (msg,))
        if fault or fault is None and cls in ("NameError", "UnboundLocalError", "ImportError", "ModuleNotFoundError"):
            self.faults[exc.id] = (cls, msg, self.loc(), self.stack())
        self.push_raise(exc)
        raise PathDead()

    def raise_if(self, cond, cls, msg=""):
        """exception where cond holds, continue elsewhere"""
        cond = self._node(cond)
        if cond is D.FALSE:
            return
        bad = D.band(self.pc, cond)
        if not self.feasible(bad):
            return
        pc0 = self.pc
        self.pc = bad
        h = self.heap
        self.heap = dict(h)
        exc = self.make_exc(cls, (msg,))
        if cls == "UnboundLocalError":
            self.faults[exc.id] = (cls, msg, self.loc(), self.stack())
        self.push_raise(exc)
        self.heap = h
        self.pc = pc0
        self.assume(D.bnot(cond))

    def exc_isinstance(self, exc, cls):
        """cls: class value or tuple"""
        if isinstance(cls, tuple):
            return any(self.exc_isinstance(exc, c) for c in cls)
        return self.B.is_subclass(self, self.cell(exc).cls, cls)

    # --------------------------------------------------------------- modules

    def find_module(self, name):
        parts = name.split(".")
        cands = []
        for r in self.pkg_roots:
            cands.append(os.path.join(self.root, r, *parts))
        for c in cands:
            if os.path.isfile(c + ".py"):
                return c + ".py", False
            if os.path.isfile(os.path.join(c, "__init__.py")):
                return os.path.join(c, "__init__.py"), True
            if os.path.isdir(c) and any(f.endswith(".py") or os.path.isdir(os.path.join(c, f)) for f in os.listdir(c)) \
                    and parts[0] in ("src", "jax_act"):
                return c, True
        return None

    def canonical(self, name):
        """jax_act.x and src.jax_act.x are the same files; the repository imports itself as src.jax_act"""
        return "src." + name if name.split(".")[0] == "jax_act" else name

    def load_module(self, name):
        name = self.canonical(name)
        m = self.modules.get(name)
        if m is not None:
            return m
        found = self.find_module(name)
        if found is None:
            return None
        path, ispkg = found
        parent = None
        if "." in name:
            parent = self.load_module(name.rsplit(".", 1)[0])
        env = self.new(EnvCell({}))
        if os.path.isdir(path):
            src = ""
        else:
            src = open(path, encoding="utf-8").read()
        rel = os.path.relpath(path, self.root)
        m = self.modules.get(name)
        if m is not None:
            return m
        m = ModuleV(name, rel, env, None, ispkg)
        self.modules[name] = m
        try:
            m.tree = ast.parse(src, filename=path)
        except SyntaxError as e:
            del self.modules[name]
            self.throw("SyntaxError", f"{rel}: {e}")
        for k, v in (("__name__", name), ("__file__", rel), ("__doc__", None)):
            self.env_set(env, k, v)
        fr = Frame("<module>", m, [(env, None, False)])
        self.frames.append(fr)
        self.in_module_load += 1
        try:
            self.exec_block(m.tree.body)
        except PathDead:
            m.state = "failed"
            raise
        finally:
            self.in_module_load -= 1
            self.frames.pop()
        m.state = "loaded"
        if parent is not None:
            self.env_set(parent.env, name.rsplit(".", 1)[1], m)
        return m

    def load_source(self, name, source, path):
        """load analysis driver code (part of the checker) as a module"""
        env = self.new(EnvCell({}))
        m = ModuleV(name, path, env, ast.parse(source), False)
        self.modules[name] = m
        self.env_set(env, "__name__", name)
        self.frames.append(Frame("<module>", m, [(env, None, False)]))
        try:
            self.exec_block(m.tree.body)
        finally:
            self.frames.pop()
        m.state = "loaded"
        return m

    def env_set(self, env, name, v):
        c = self.cell(env)
        vars = dict(c.vars)
        vars[name] = v
        self.heap[env.id] = EnvCell(vars)

    def env_del(self, env, name):
        c = self.cell(env)
        vars = dict(c.vars)
        vars.pop(name, None)
        self.heap[env.id] = EnvCell(vars)

    def module_get(self, m, name):
        v = self.cell(m.env).vars.get(name)
        if v is None and name not in self.cell(m.env).vars:
            return UNBOUND
        return v

    def freeze_base(self):
        """everything loaded so far becomes the base every analysis starts from"""
        self.base.update(self.heap)
        self.heap = {}

    # ------------------------------------------------------------- variables

    def frame(self):
        return self.frames[-1]

    def lookup(self, name):
        f = self.frames[-1]
        chain = f.chain
        if name not in f.globals:
            for env, names, is_class in chain:
                if names is not None and name not in names:
                    continue
                v = self.cell(env).vars.get(name, UNBOUND)
                if v is UNBOUND:
                    if names is None or is_class:
                        continue
                    self.throw("UnboundLocalError", f"local variable '{name}' referenced before assignment")
                if isinstance(v, PhiV):
                    return self._resolve_unbound(v, name)
                return v
        if f.module is not None:
            v = self.cell(f.module.env).vars.get(name, UNBOUND)
            if v is not UNBOUND:
                if isinstance(v, PhiV):
                    return self._resolve_unbound(v, name)
                return v
        v = self.builtins.get(name, UNBOUND)
        if v is UNBOUND:
            self.throw("NameError", f"name '{name}' is not defined")
        return v

    def _resolve_unbound(self, v, name):
        def unb(x):
            if x is UNBOUND:
                return D.TRUE
            if isinstance(x, PhiV):
                return D.ite(x.cond, unb(x.a), unb(x.b))
            return D.FALSE

        def strip(x):
            if isinstance(x, PhiV):
                a, b = strip(x.a), strip(x.b)
                if a is UNBOUND:
                    return b
                if b is UNBOUND:
                    return a
                return self.join(x.cond, a, b)
            return x
        u = unb(v)
        if u is not D.FALSE:
            self.raise_if(u, "UnboundLocalError", f"local variable '{name}' referenced before assignment")
        return strip(v)

    def store(self, name, v):
        f = self.frames[-1]
        if name in f.globals:
            self.env_set(f.module.env, name, v)
            return
        skip_first = name in f.nonlocals
        for k, (env, names, is_class) in enumerate(f.chain):
            if names is None or name in names:
                if skip_first and k == 0:
                    continue
                self.env_set(env, name, v)
                return
        env = f.chain[0][0]
        self.env_set(env, name, v)

    def delete_name(self, name):
        f = self.frames[-1]
        for env, names, is_class in f.chain:
            if names is None or name in names:
                self.env_del(env, name)
                return

    # ------------------------------------------------------------ statements

    def exec_block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Undecided("step budget exhausted", self.loc())
        f = self.frames[-1]
        f.line = s.lineno
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(s).__name__}", self.loc())
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        f = self.frames[-1]
        if f.chain[0][2] and isinstance(s.target, ast.Name):   # class body
            c = f.annotations
            c.append((s.target.id, ast.unparse(s.annotation)))
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.eval(s.value)
            self.store(t.id, self.inplace(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr_(o, t.attr)
            v = self.eval(s.value)
            self.setattr_(o, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            cur = self.getitem(o, k)
            v = self.eval(s.value)
            self.setitem(o, k, self.inplace(op, cur, v))

    def inplace(self, op, a, b):
        def f(vs):
            a, b = vs
            if isinstance(a, Ref):
                c = self.cell(a)
                if isinstance(c, ListCell) and op == "add":
                    self.mutate(a, ListCell(c.items + tuple(self.iterate(b))), "in-place +=")
                    return a
                if isinstance(c, DictCell) and op == "or":
                    self.B.dict_update(self, a, [b], {})
                    return a
                if isinstance(c, SetCell) and op in ("or", "sub", "and"):
                    r = self.binop(op, a, b)
                    self.mutate(a, self.cell(r), "in-place set operation")
                    return a
            return self.binop(op, a, b)
        return self.cases([a, b], f)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            self.setitem(o, self.eval(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Undecided("assignment target", self.loc())

    def unpack(self, t, v):
        def f(vs):
            v, = vs
            if isinstance(v, UnknownV):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, self.unknown("part of " + v.why))
                return
            items = self.iterate(v)
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if not star:
                if len(items) != n:
                    self.throw("ValueError", f"cannot unpack {len(items)} values into {n}")
                for e, x in zip(t.elts, items):
                    self.assign(e, x)
            else:
                k = star[0]
                if len(items) < n - 1:
                    self.throw("ValueError", "not enough values to unpack")
                after = n - 1 - k
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x)
                mid = items[k:len(items) - after]
                self.assign(t.elts[k].value, self.new_list(mid))
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x)
        self.cases([v], f)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.lookup(t.id)
                self.delete_name(t.id)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.eval(t.slice)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                self.delattr_(o, t.attr)
            else:
                raise Undecided("del target", self.loc())

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        f = self.func_frame()
        f.returns.append((self.pc, self.heap, v))
        raise PathDead()

    def func_frame(self):
        return self.frames[-1]

    def s_If(self, s):
        c = self.truth(self.eval(s.test))
        if c is True or c is D.TRUE:
            self.exec_block(s.body)
        elif c is False or c is D.FALSE:
            self.exec_block(s.orelse)
        else:
            self.fork(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def s_Assert(self, s):
        c = self.truth(self.eval(s.test))
        if c is True:
            return
        c = self._node(c)
        msg = ""
        if D.bnot(c) is not D.FALSE and self.feasible(D.band(self.pc, D.bnot(c))):
            self.raise_if(D.bnot(c), "AssertionError", "assertion failed")

    def s_Raise(self, s):
        if s.exc is None:
            if not self.exc_stack:
                self.throw("RuntimeError", "No active exception to reraise")
            self.push_raise(self.exc_stack[-1])
            raise PathDead()
        v = self.eval(s.exc)
        if s.cause is not None:
            self.eval(s.cause)
        self.do_raise(v)

    def do_raise(self, v):
        def f(vs):
            v, = vs
            if isinstance(v, (ClassV, ExtClassV)):
                v = self.call(v, [], {})
            if isinstance(v, UnknownV):
                v = self.make_exc("Exception", ("unknown",))
            if not isinstance(v, Ref) or not isinstance(self.cell(v), ObjCell) or \
                    not self.B.is_subclass(self, self.cell(v).cls, self.builtins["BaseException"]):
                self.throw("TypeError", "exceptions must derive from BaseException")
            self.push_raise(v)
            raise PathDead()
        self.cases([v], f)

    def s_Global(self, s):
        self.frames[-1].globals.update(s.names)

    def s_Nonlocal(self, s):
        self.frames[-1].nonlocals.update(s.names)

    def s_Break(self, s):
        self.frames[-1].loops[-1].breaks.append((self.pc, self.heap, None))
        raise PathDead()

    def s_Continue(self, s):
        self.frames[-1].loops[-1].continues.append((self.pc, self.heap, None))
        raise PathDead()

    def run_body(self, lp, body):
        """one pass over a loop body; True when the loop goes on (state merged with continues)"""
        outs = []
        try:
            self.exec_block(body)
            outs.append((self.pc, self.heap, None))
        except PathDead:
            pass
        outs += lp.continues
        lp.continues = []
        if not outs:
            return False
        self.merge(outs)
        return True

    def s_For(self, s):
        it = self.eval(s.iter)

        def f(vs):
            it, = vs
            if isinstance(it, UnknownV):
                raise Undecided("loop over an unknown value: " + it.why, self.loc())
            # a one-shot iterator is advanced item by item
            items = self.iterate(it)
            fr = self.frames[-1]
            lp = Loop()
            fr.loops.append(lp)
            alive = True
            try:
                for x in items:
                    self.assign(s.target, x)
                    alive = self.run_body(lp, s.body)
                    if not alive:
                        break
            except PathDead:
                alive = False
            fr.loops.pop()
            self.finish_loop(s, lp, alive)
        self.cases([it], f)

    def finish_loop(self, s, lp, alive):
        if alive:
            try:
                self.exec_block(s.orelse)
            except PathDead:
                alive = False
        outs = ([(self.pc, self.heap, None)] if alive else []) + lp.breaks
        if not outs:
            raise PathDead()
        self.merge(outs)

    def s_While(self, s):
        fr = self.frames[-1]
        lp = Loop()
        fr.loops.append(lp)
        exits = []
        alive = True
        symbolic = 0
        n = 0
        while True:
            n += 1
            if n > 400:
                fr.loops.pop()
                raise Undecided("while loop does not end in the analysis", self.loc())
            fr.line = s.lineno
            try:
                c = self.truth(self.eval(s.test))
            except PathDead:
                alive = False
                break
            c = self._node(c)
            if c is D.FALSE:
                break
            if c is not D.TRUE:
                pc0 = self.pc
                pt, pe = D.band(pc0, c), D.band(pc0, D.bnot(c))
                if self.feasible(pe):
                    exits.append((pe, dict(self.heap), None))
                if not self.feasible(pt):
                    alive = False
                    break
                self.pc = pt
                symbolic += 1
                if symbolic > 6:
                    fr.loops.pop()
                    raise Undecided("loop bounded by a runtime value", self.loc())
            if not self.run_body(lp, s.body):
                alive = False
                break
        fr.loops.pop()
        if exits:
            outs = exits + ([(self.pc, self.heap, None)] if alive else [])
            self.merge(outs)
            alive = True
        self.finish_loop(s, lp, alive)

    def s_Try(self, s):
        fr = self.frames[-1]
        capture = bool(s.finalbody)
        if capture:
            saved = (fr.returns, fr.loops)
            fr.returns = []
            outer_loops = fr.loops
            caps = [(lp, Loop()) for lp in outer_loops]
            fr.loops = [c for _, c in caps]
            self.catch.append([])        # exceptions leaving handlers
        falls = []
        und = None
        self.catch.append([])
        depth = len(self.frames)
        pc0 = self.pc
        try:
            try:
                self.exec_block(s.body)
                alive = True
            except PathDead:
                alive = False
        finally:
            caught = self.catch.pop()
        if alive:
            try:
                self.exec_block(s.orelse)
                falls.append((self.pc, self.heap, None))
            except PathDead:
                pass
        for r in caught:
            self.pc, self.heap = r.pc, dict(r.heap)
            handled = False
            for h in s.handlers:
                fr.line = h.lineno
                if h.type is None:
                    ok = True
                else:
                    try:
                        t = self.eval(h.type)
                    except PathDead:
                        handled = True
                        break
                    ok = self.exc_isinstance(r.exc, t)
                if not ok:
                    continue
                handled = True
                self.exc_stack.append(r.exc)
                try:
                    if h.name:
                        self.store(h.name, r.exc)
                    self.exec_block(h.body)
                    if h.name:
                        self.delete_name(h.name)
                    falls.append((self.pc, self.heap, None))
                except PathDead:
                    pass
                finally:
                    self.exc_stack.pop()
                break
            if not handled:
                self.catch[-1].append(r)
        if capture:
            exc_out = self.catch.pop()
            rets, fr.returns = fr.returns, saved[0]
            fr.loops = outer_loops

            def final(pc, heap):
                self.pc, self.heap = pc, dict(heap)
                try:
                    self.exec_block(s.finalbody)
                    return True
                except PathDead:
                    return False
            for (p, h, v) in rets:
                if final(p, h):
                    fr.returns.append((self.pc, self.heap, v))
            for r in exc_out:
                if final(r.pc, r.heap):
                    self.catch[-1].append(Raised(self.pc, self.heap, r.exc, r.loc, r.stack))
            for lp, c in caps:
                for (p, h, v) in c.breaks:
                    if final(p, h):
                        lp.breaks.append((self.pc, self.heap, v))
                for (p, h, v) in c.continues:
                    if final(p, h):
                        lp.continues.append((self.pc, self.heap, v))
            out = []
            for (p, h, v) in falls:
                if final(p, h):
                    out.append((self.pc, self.heap, v))
            falls = out
        if not falls:
            raise PathDead()
        self.merge(falls)

    s_TryStar = s_Try

    def s_With(self, s):
        self._with(s.items, s.body)

    def _with(self, items, body):
        if not items:
            self.exec_block(body)
            return
        item, rest = items[0], items[1:]
        cm = self.eval(item.context_expr)
        if isinstance(cm, tuple) and cm and cm[0] == "__suppress__":
            self.catch.append([])
            falls = []
            try:
                self._with(rest, body)
                falls.append((self.pc, self.heap, None))
            except PathDead:
                pass
            finally:
                caught = self.catch.pop()
            for r in caught:
                if self.exc_isinstance(r.exc, cm[1]):
                    falls.append((r.pc, dict(r.heap), None))
                else:
                    self.catch[-1].append(r)
            if not falls:
                raise PathDead()
            self.merge(falls)
            return
        if isinstance(cm, tuple) and cm and cm[0] == "__genctx__":
            _, func, args, kwargs = cm
            outer = list(self.frames)

            def cb(v):
                inner = self.frames
                self.frames = list(outer)
                try:
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, v)
                    self._with(rest, body)
                finally:
                    self.frames = inner
                return None
            self.call_func(func, args, kwargs, yield_cb=cb)
            return
        if isinstance(cm, (UnknownV, ExtV)):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, self.unknown("context value"))
            self._with(rest, body)
            return
        enter = self.getattr_(cm, "__enter__")
        exit_ = self.getattr_(cm, "__exit__")
        v = self.call(enter, [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v)
        fr = self.frames[-1]
        self.catch.append([])
        rets0, fr.returns = fr.returns, []
        falls = []
        try:
            self._with(rest, body)
            falls.append((self.pc, self.heap, None))
        except PathDead:
            pass
        finally:
            caught = self.catch.pop()
            rets, fr.returns = fr.returns, rets0
        out = []
        for p, h, _ in falls:
            self.pc, self.heap = p, dict(h)
            try:
                self.call(exit_, [None, None, None], {})
                out.append((self.pc, self.heap, None))
            except PathDead:
                pass
        for p, h, v in rets:
            self.pc, self.heap = p, dict(h)
            try:
                self.call(exit_, [None, None, None], {})
                fr.returns.append((self.pc, self.heap, v))
            except PathDead:
                pass
        for r in caught:
            self.pc, self.heap = r.pc, dict(r.heap)
            try:
                sup = self.truth(self.call(exit_, [self.cell(r.exc).cls, r.exc, None], {}))
                sup = self._node(sup)
                ps = D.band(self.pc, sup)
                pn = D.band(self.pc, D.bnot(sup))
                if self.feasible(pn):
                    self.catch[-1].append(Raised(pn, self.heap, r.exc, r.loc, r.stack))
                if self.feasible(ps):
                    out.append((ps, dict(self.heap), None))
            except PathDead:
                pass
        if not out:
            raise PathDead()
        self.merge(out)

    # -- definitions

    def s_FunctionDef(self, s):
        v = self.make_func(s, s.name)
        for d in reversed(s.decorator_list):
            dv = self.eval(d)
            self.frames[-1].line = s.lineno
            v = self.call(dv, [v], {})
        self.store(s.name, v)

    def make_func(self, node, name):
        f = self.frames[-1]
        sc = scope_of(node)
        a = node.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = {k.arg: self.eval(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        closure = [e for e in f.chain if not e[2] and e[1] is not None]
        qual = name if f.qual in ("<module>", "") else f.qual + "." + name
        return FuncV(node, name, qual, f.module, closure, defaults, kwd, getattr(f, "defcls", None), sc)

    def e_Lambda(self, e):
        return self.make_func(e, "<lambda>")

    def s_ClassDef(self, s):
        self.B.build_class(self, s)

    def s_Import(self, s):
        for al in s.names:
            v = self.import_name(al.name)
            if al.asname:
                self.store(al.asname, v)
            else:
                self.store(al.name.split(".")[0], self.import_name(al.name.split(".")[0]))

    def import_name(self, name):
        if name.split(".")[0] in ("src", "jax_act"):
            m = self.load_module(name)
            if m is None:
                self.throw("ModuleNotFoundError", f"No module named '{name}'")
            return m
        if not self.J.known_module(name):
            self.throw("ModuleNotFoundError", f"No module named '{name}'")
        return ExtV(name)

    def s_ImportFrom(self, s):
        f = self.frames[-1]
        mod = s.module or ""
        if s.level:
            base = f.module.name.split(".")
            if not f.module.ispkg:
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        if mod.split(".")[0] not in ("src", "jax_act"):
            if mod == "__future__":
                return
            if not self.J.known_module(mod):
                self.throw("ModuleNotFoundError", f"No module named '{mod}'")
            for al in s.names:
                if al.name == "*":
                    raise Undecided(f"star import of {mod}", self.loc())
                self.store(al.asname or al.name, self.J.ext_attr(self, ExtV(mod), al.name, importing=True))
            return
        m = self.load_module(mod)
        if m is None:
            self.throw("ModuleNotFoundError", f"No module named '{mod}'")
        for al in s.names:
            if al.name == "*":
                vars = self.cell(m.env).vars
                names = vars.get("__all__")
                if names is not None:
                    names = self.iterate(names)
                else:
                    names = [n for n in vars if not n.startswith("_")]
                for n in names:
                    if n not in vars:
                        self.throw("AttributeError", f"module '{mod}' has no attribute '{n}'")
                    self.store(n, vars[n])
                continue
            v = self.module_get(m, al.name)
            if v is UNBOUND:
                sub = self.load_module(mod + "." + al.name) if m.ispkg else None
                if sub is None:
                    self.throw("ImportError", f"cannot import name '{al.name}' from '{mod}'")
                v = sub
            self.store(al.asname or al.name, v)

    # -- match

    def s_Match(self, s):
        subj = self.eval(s.subject)

        def go(k):
            if k == len(s.cases):
                return
            case = s.cases[k]
            c = self._node(self.match(case.pattern, subj))

            def body():
                if case.guard is not None:
                    g = self._node(self.truth(self.eval(case.guard)))
                    self.fork(g, lambda: self.exec_block(case.body), lambda: go(k + 1))
                else:
                    self.exec_block(case.body)
            self.fork(c, body, lambda: go(k + 1))
        go(0)

    def match(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("eq", v, self.eval(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                r = self.match(p.pattern, v)
                if r is False:
                    return False
                if p.name:
                    self.store(p.name, v)
                return r
            if p.name:
                self.store(p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            out = D.FALSE
            for q in p.patterns:
                out = D.bor(out, self._node(self.match(q, v)))
            return out
        if isinstance(p, ast.MatchSequence):
            if not (isinstance(v, tuple) or (isinstance(v, Ref) and isinstance(self.cell(v), ListCell))):
                return False
            items = self.iterate(v)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                if len(items) != len(p.patterns):
                    return False
                pairs = list(zip(p.patterns, items))
            else:
                k = star[0]
                after = len(p.patterns) - 1 - k
                if len(items) < len(p.patterns) - 1:
                    return False
                pairs = list(zip(p.patterns[:k], items[:k])) + \
                    list(zip(p.patterns[k + 1:], items[len(items) - after:]))
                if p.patterns[k].name:
                    self.store(p.patterns[k].name, self.new_list(items[k:len(items) - after]))
            out = D.TRUE
            for q, x in pairs:
                r = self._node(self.match(q, x))
                out = D.band(out, r)
                if out is D.FALSE:
                    return False
            return out
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls)
            r = self.B.isinstance_(self, v, cls)
            if r is False:
                return False
            out = self._node(r)
            if p.patterns:
                if len(p.patterns) == 1 and isinstance(cls, ExtClassV):
                    out = D.band(out, self._node(self.match(p.patterns[0], v)))
                else:
                    names = [n for n, *_ in (cls.dataclass or [])]
                    for n, q in zip(names, p.patterns):
                        out = D.band(out, self._node(self.match(q, self.getattr_(v, n))))
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                out = D.band(out, self._node(self.match(q, self.getattr_(v, n))))
            return out
        raise Undecided("match pattern", self.loc())

    # ----------------------------------------------------------- expressions

    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(e).__name__}", self.loc())
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.store(e.target.id, v)
        return v

    def e_Attribute(self, e):
        o = self.eval(e.value)
        self.frames[-1].line = e.lineno
        return self.getattr_(o, e.attr)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval(e.slice)
        self.frames[-1].line = e.lineno
        return self.getitem(o, k)

    def e_Slice(self, e):
        g = lambda x: None if x is None else self.eval(x)
        return slice(g(e.lower), g(e.upper), g(e.step))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                if isinstance(v, (PhiV, UnknownV)):
                    raise Undecided("star of a gated value", self.loc())
                out += self.iterate(v)
            else:
                out.append(self.eval(x))
        return out

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def e_List(self, e):
        return self.new_list(self.elts(e.elts))

    def e_Set(self, e):
        return self.new(SetCell({self.hkey(x): x for x in self.elts(e.elts)}))

    def e_Dict(self, e):
        ref = self.new(DictCell({}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.B.dict_update(self, ref, [self.eval(v)], {})
            else:
                kv = self.eval(k)
                self.setitem(ref, kv, self.eval(v))
        return ref

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)

        def go(k):
            v = self.eval(e.values[k])
            if k == len(e.values) - 1:
                return v
            t = self._node(self.truth(v))
            if is_and:
                return self.fork(t, lambda: go(k + 1), lambda: v)
            return self.fork(t, lambda: v, lambda: go(k + 1))
        return go(0)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            if isinstance(t, bool):
                return not t
            return self.mkbool(D.bnot(t))
        op = {ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "invert"}[type(e.op)]
        self.frames[-1].line = e.lineno
        return self.unop(op, v)

    def mkbool(self, n):
        if n is D.TRUE or n is True:
            return True
        if n is D.FALSE or n is False:
            return False
        return BoolV(n)

    def unop(self, op, v):
        def f(vs):
            v, = vs
            if isinstance(v, UnknownV):
                return self.unknown(v.why)
            if isinstance(v, TensorV):
                return self.J.tensor_unop(self, op, v)
            if isinstance(v, (ScalarV, BoolV)):
                n = v.node
                if op == "neg":
                    return ScalarV(D.neg(D.to_num(n)), getattr(v, "kind", "int"))
                if op == "pos":
                    return v
                if isinstance(v, BoolV):      # ~bool is -1 - bool: always truthy for a python bool
                    return ScalarV(D.sub(D.neg(D.to_num(n)), D.num(1)), "int")
                self.throw("TypeError", "bad operand type for unary ~")
            if isinstance(v, (bool, int, float, complex)):
                try:
                    return {"neg": lambda: -v, "pos": lambda: +v, "invert": lambda: ~v}[op]()
                except TypeError as x:
                    self.throw("TypeError", str(x))
            if isinstance(v, Ref):
                m = self.class_lookup_obj(v, {"neg": "__neg__", "pos": "__pos__", "invert": "__invert__"}[op])
                if m is not UNBOUND:
                    return self.call(m, [v], {})
            self.throw("TypeError", f"bad operand type for unary {op}")
        return self.cases([v], f)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        self.frames[-1].line = e.lineno
        return self.binop(BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        return self.cases([a, b], lambda vs: self._binop(op, vs[0], vs[1]))

    def _binop(self, op, a, b):
        if isinstance(a, UnknownV) or isinstance(b, UnknownV):
            return self.unknown("operand: " + (a if isinstance(a, UnknownV) else b).why)
        # user classes
        for x, y, k in ((a, b, 0), (b, a, 1)):
            if isinstance(x, Ref) and isinstance(self.cell(x), ObjCell):
                m = self.class_lookup_obj(x, DUNDER[op][k])
                if m is not UNBOUND and not isinstance(m, BuiltinV):
                    return self.call(m, [x, y], {})
        if isinstance(a, TensorV) or isinstance(b, TensorV):
            return self.J.tensor_binop(self, op, a, b)
        if isinstance(a, (ScalarV, BoolV)) or isinstance(b, (ScalarV, BoolV)):
            if all(isinstance(x, (ScalarV, BoolV, bool, int, float)) for x in (a, b)):
                return self.J.scalar_binop(self, op, a, b)
        if isinstance(a, EnumV) and isinstance(a.value, str) and a.cls.flags.get("mixin"):
            a = a.value
        if isinstance(b, EnumV) and isinstance(b.value, str) and b.cls.flags.get("mixin"):
            b = b.value
        if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
            return self.B.str_binop(self, op, a, b)
        if is_pyconst(a) and is_pyconst(b):
            import operator as o
            fn = {"add": o.add, "sub": o.sub, "mul": o.mul, "div": o.truediv, "floordiv": o.floordiv, "mod": o.mod,
                  "pow": o.pow, "and": o.and_, "or": o.or_, "xor": o.xor, "lshift": o.lshift, "rshift": o.rshift,
                  "matmul": o.matmul}[op]
            try:
                return fn(a, b)
            except Exception as x:
                self.throw(type(x).__name__, str(x))
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "add":
            return a + b
        if op == "mul" and isinstance(a, tuple) and isinstance(b, int):
            return a * b
        if op == "mul" and isinstance(b, tuple) and isinstance(a, int):
            return b * a
        ca = self.cell(a) if isinstance(a, Ref) else None
        cb = self.cell(b) if isinstance(b, Ref) else None
        if isinstance(ca, ListCell) and isinstance(cb, ListCell) and op == "add":
            return self.new(ListCell(ca.items + cb.items))
        if isinstance(ca, ListCell) and isinstance(b, int) and op == "mul":
            return self.new(ListCell(ca.items * b))
        if isinstance(cb, ListCell) and isinstance(a, int) and op == "mul":
            return self.new(ListCell(cb.items * a))
        if isinstance(ca, DictCell) and isinstance(cb, DictCell) and op == "or":
            d = dict(ca.items)
            d.update(cb.items)
            return self.new(DictCell(d))
        if isinstance(ca, SetCell) and isinstance(cb, SetCell):
            if op == "or":
                return self.new(SetCell({**ca.items, **cb.items}))
            if op == "and":
                return self.new(SetCell({k: v for k, v in ca.items.items() if k in cb.items}))
            if op == "sub":
                return self.new(SetCell({k: v for k, v in ca.items.items() if k not in cb.items}))
            if op == "xor":
                return self.new(SetCell({**{k: v for k, v in ca.items.items() if k not in cb.items},
                                         **{k: v for k, v in cb.items.items() if k not in ca.items}}))
        if op == "or" and all(isinstance(x, (ClassV, ExtClassV, ExtV, tuple)) or x is None for x in (a, b)):
            flat = []
            for x in (a, b):
                flat += list(x) if isinstance(x, tuple) else [self.builtins["__NoneType__"] if x is None else x]
            return tuple(flat)             # X | Y types
        self.throw("TypeError", f"unsupported operand types for {op}: {self.B.type_name(self, a)} and {self.B.type_name(self, b)}")

    def e_Compare(self, e):
        left = self.eval(e.left)

        def go(left, k):
            right = self.eval(e.comparators[k])
            self.frames[-1].line = e.lineno
            op = e.ops[k]
            if isinstance(op, (ast.Is, ast.IsNot)):
                r = self.is_(left, right)
                if isinstance(op, ast.IsNot):
                    r = (not r) if isinstance(r, bool) else D.bnot(r)
                r = self.mkbool(self._node(r))
            elif isinstance(op, (ast.In, ast.NotIn)):
                r = self.contains(right, left)
                if isinstance(op, ast.NotIn):
                    r = self.mkbool(D.bnot(self._node(self.truth(r))))
            else:
                r = self.compare(CMPOPS[type(op)], left, right)
            if k == len(e.ops) - 1:
                return r
            t = self._node(self.truth(r))
            return self.fork(t, lambda: go(right, k + 1), lambda: r)
        return go(left, 0)

    def is_(self, a, b):
        """python bool or bool node"""
        if isinstance(a, PhiV):
            return D.ite(a.cond, self._node(self.is_(a.a, b)), self._node(self.is_(a.b, b)))
        if isinstance(b, PhiV):
            return D.ite(b.cond, self._node(self.is_(a, b.a)), self._node(self.is_(a, b.b)))
        if isinstance(a, UnknownV) or isinstance(b, UnknownV):
            return self.unknown_bool((a if isinstance(a, UnknownV) else b).why)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, BoolV) and isinstance(b, (bool, BoolV)):
            return D.beq(a.node, self.boolnode(b))
        if isinstance(b, BoolV) and isinstance(a, bool):
            return D.beq(b.node, self.boolnode(a))
        if is_pyconst(a) and is_pyconst(b):
            return type(a) is type(b) and a == b
        if isinstance(a, (ExtV, DTypeV)) and a == b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple) and not a and not b:
            return True
        return a is b

    def unknown_bool(self, why):
        self.unknown_sites.append((self.loc(), "branch on unknown: " + why))
        return D.opq(self.fresh_name("unknown"))

    def contains(self, cont, x):
        def f(vs):
            cont, x = vs
            if isinstance(cont, UnknownV) or isinstance(x, UnknownV):
                return BoolV(self.unknown_bool("membership"))
            if isinstance(cont, ExtV) and cont.path == "os.environ":
                return BoolV(self.J.environment(self, x)[0])
            if isinstance(cont, Ref):
                c = self.cell(cont)
                if isinstance(c, (DictCell, SetCell)):
                    return self.hkey(x) in c.items
                if isinstance(c, ObjCell):
                    m = self.class_lookup_obj(cont, "__contains__")
                    if m is not UNBOUND:
                        return self.mkbool(self._node(self.truth(self.call(m, [cont, x], {}))))
            if isinstance(cont, ClassV) and cont.enum:
                if isinstance(x, EnumV):
                    return x.cls is cont
                return any(m.value == x for m in cont.members.values() if is_pyconst(m.value) and is_pyconst(x))
            if isinstance(cont, (str, StrV)):
                if isinstance(cont, str) and isinstance(x, str):
                    return x in cont
                if isinstance(x, (str, StrV)):
                    return BoolV(D.opq("strin", repr(cont), repr(x)))
                self.throw("TypeError", "'in <string>' requires string")
            items = self.iterate(cont)
            out = D.FALSE
            for y in items:
                r = self.is_(y, x)
                if r is not True:
                    r = self._node(self.truth(self.compare("eq", y, x)))
                out = D.bor(out, self._node(r))
                if out is D.TRUE:
                    break
            return self.mkbool(out)
        return self.cases([cont, x], f)

    def compare(self, op, a, b):
        return self.cases([a, b], lambda vs: self._compare(op, vs[0], vs[1]))

    def _compare(self, op, a, b):
        if isinstance(a, UnknownV) or isinstance(b, UnknownV):
            return self.unknown("comparison with unknown: " + (a if isinstance(a, UnknownV) else b).why)
        for x, y, k in ((a, b, 0), (b, a, 1)):
            if isinstance(x, Ref) and isinstance(self.cell(x), ObjCell):
                name = DUNDER[op][k]
                m = self.class_lookup_obj(x, name)
                if m is not UNBOUND and not isinstance(m, BuiltinV):
                    return self.call(m, [x, y], {})
                if op == "ne":
                    m = self.class_lookup_obj(x, "__eq__")
                    if m is not UNBOUND and not isinstance(m, BuiltinV):
                        r = self.truth(self.call(m, [x, y], {}))
                        return self.mkbool(D.bnot(self._node(r)))
        if isinstance(a, TensorV) or isinstance(b, TensorV):
            return self.J.tensor_compare(self, op, a, b)
        if op in ("eq", "ne"):
            r = self.equal(a, b)
            if isinstance(r, TensorV):
                return r
            r = self._node(r)
            return self.mkbool(D.bnot(r) if op == "ne" else r)
        if isinstance(a, (ScalarV, BoolV)) or isinstance(b, (ScalarV, BoolV)):
            if all(isinstance(x, (ScalarV, BoolV, bool, int, float)) for x in (a, b)):
                return self.J.scalar_compare(self, op, a, b)
        if is_pyconst(a) and is_pyconst(b):
            import operator as o
            try:
                return {"lt": o.lt, "le": o.le, "gt": o.gt, "ge": o.ge}[op](a, b)
            except TypeError as x:
                self.throw("TypeError", str(x))
        ca = self.cell(a) if isinstance(a, Ref) else None
        cb = self.cell(b) if isinstance(b, Ref) else None
        if isinstance(ca, SetCell) and isinstance(cb, SetCell):
            A, Bk = set(ca.items), set(cb.items)
            return {"lt": A < Bk, "le": A <= Bk, "gt": A > Bk, "ge": A >= Bk}[op]
        if (isinstance(a, tuple) and isinstance(b, tuple)) or (isinstance(ca, ListCell) and isinstance(cb, ListCell)):
            x, y = list(self.iterate(a)), list(self.iterate(b))
            for p, q in zip(x, y):
                e = self.truth(self.compare("eq", p, q))
                if e is True:
                    continue
                if e is False:
                    return self.compare(op, p, q)
                raise Undecided("ordering of symbolic sequences", self.loc())
            return {"lt": len(x) < len(y), "le": len(x) <= len(y), "gt": len(x) > len(y), "ge": len(x) >= len(y)}[op]
        self.throw("TypeError", f"'{op}' not supported between {self.B.type_name(self, a)} and {self.B.type_name(self, b)}")

    def equal(self, a, b):
        """python bool / bool node / TensorV"""
        if isinstance(a, PhiV):
            return D.ite(a.cond, self._node(self.equal(a.a, b)), self._node(self.equal(a.b, b)))
        if isinstance(b, PhiV):
            return self.equal(b, a)
        if isinstance(a, UnknownV) or isinstance(b, UnknownV):
            return self.unknown_bool("equality")
        for x, y in ((a, b), (b, a)):
            if isinstance(x, EnumV) and x.cls.flags.get("mixin") and not isinstance(y, EnumV):
                return self.equal(x.value, y)
        if isinstance(a, EnumV) or isinstance(b, EnumV):
            return isinstance(a, EnumV) and isinstance(b, EnumV) and a.cls is b.cls and a.name == b.name
        if isinstance(a, TensorV) or isinstance(b, TensorV):
            return self.J.tensor_compare(self, "eq", a, b)
        if is_pyconst(a) and is_pyconst(b):
            return a == b
        num = (ScalarV, BoolV, bool, int, float)
        if isinstance(a, (ScalarV, BoolV)) or isinstance(b, (ScalarV, BoolV)):
            if isinstance(a, num) and isinstance(b, num):
                if isinstance(a, (bool, BoolV)) and isinstance(b, (bool, BoolV)):
                    return D.beq(self.boolnode(a), self.boolnode(b))
                return D.eq(self.J.scalar_node(a), self.J.scalar_node(b))
            return False
        if isinstance(a, StrV) or isinstance(b, StrV):
            if isinstance(a, StrV) and isinstance(b, StrV) and a.parts == b.parts:
                return True
            if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
                return D.opq("streq", repr(a), repr(b))
            return False
        a2, b2 = self.tuple_items(a), self.tuple_items(b)
        if a2 is not None and b2 is not None:
            return self._seq_equal(a2, b2)
        if isinstance(a, TreeDefV) and isinstance(b, TreeDefV):
            return self.J.treedef_equal(self, a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (DTypeV,)) or (isinstance(x, ExtV) and self.J.as_dtype(x)):
                dx, dy = self.J.as_dtype(x), self.J.as_dtype(y)
                if isinstance(x, DTypeV) or isinstance(y, DTypeV):
                    return dx is not None and dx == dy
                return x == y
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return True
            ca, cb = self.cell(a), self.cell(b)
            if isinstance(ca, AltCell) or isinstance(cb, AltCell):
                raise Undecided("equality of gated containers", self.loc())
            if isinstance(ca, ListCell) and isinstance(cb, ListCell):
                return self._seq_equal(ca.items, cb.items)
            if isinstance(ca, DictCell) and isinstance(cb, DictCell):
                if set(ca.items) != set(cb.items):
                    return False
                ks = list(ca.items)
                return self._seq_equal([ca.items[k][1] for k in ks], [cb.items[k][1] for k in ks])
            if isinstance(ca, SetCell) and isinstance(cb, SetCell):
                return set(ca.items) == set(cb.items)
            if isinstance(ca, ObjCell) and isinstance(cb, ObjCell) and ca.cls is cb.cls and isinstance(ca.cls, ClassV) \
                    and ca.cls.dataclass is not None and ca.cls.flags.get("eq", True):
                names = [n for n, *_ in ca.cls.dataclass]
                return self._seq_equal([ca.attrs.get(n) for n in names], [cb.attrs.get(n) for n in names])
            return False
        if isinstance(a, ErrorV) or isinstance(b, ErrorV):
            return a is b
        if isinstance(a, slice) and isinstance(b, slice):
            return (a.start, a.stop, a.step) == (b.start, b.stop, b.step)
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return a.func is b.func and self.is_(a.self, b.self)
        return a is b or (isinstance(a, ExtV) and a == b)

    def tuple_items(self, v):
        """the items of a tuple or of an instance of a tuple subclass"""
        if isinstance(v, tuple):
            return v
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ObjCell):
                return c.nt
        return None

    def _seq_equal(self, xs, ys):
        if len(xs) != len(ys):
            return False
        out = D.TRUE
        for x, y in zip(xs, ys):
            if x is y:
                continue
            r = self.compare("eq", x, y)
            r = self._node(self.truth(r))
            out = D.band(out, r)
            if out is D.FALSE:
                return False
        return True if out is D.TRUE else out

    def truth(self, v):
        """python bool or bool node"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, BoolV):
            return v.node
        if isinstance(v, PhiV):
            if not self._has_obj(v):
                return D.ite(v.cond, self._node(self.truth(v.a)), self._node(self.truth(v.b)))
            r = self.cases([v], lambda vs: self.mkbool(self._node(self.truth(vs[0]))))
            return self._node(r.node if isinstance(r, BoolV) else r)
        if isinstance(v, (int, float, complex, str, bytes)):
            return bool(v)
        if isinstance(v, ScalarV):
            return D.to_bool(v.node)
        if isinstance(v, StrV):
            return True if any(isinstance(p, str) and p for p in v.parts) else D.opq("nonempty", repr(v.parts))
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, TensorV):
            return self.J.concretize_bool(self, v)
        if isinstance(v, UnknownV):
            return self.unknown_bool(v.why)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, AltCell):
                r = self.cases([v], lambda vs: self.mkbool(self._node(self.truth(vs[0]))))
                return self._node(r.node if isinstance(r, BoolV) else r)
            if isinstance(c, (ListCell, DictCell, SetCell)):
                return len(c.items) > 0
            if isinstance(c, ObjCell):
                m = self.class_lookup_obj(v, "__bool__")
                if m is not UNBOUND:
                    return self.truth(self.call(m, [v], {}))
                m = self.class_lookup_obj(v, "__len__")
                if m is not UNBOUND:
                    return self.truth(self.call(m, [v], {}))
                if c.nt is not None:
                    return len(c.nt) > 0
            return True
        if isinstance(v, EnumV) and v.cls.flags.get("mixin"):
            return self.truth(v.value)
        return True

    def _has_obj(self, v):
        if isinstance(v, PhiV):
            return self._has_obj(v.a) or self._has_obj(v.b)
        return isinstance(v, (Ref, TensorV))

    def e_IfExp(self, e):
        c = self._node(self.truth(self.eval(e.test)))
        return self.fork(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.eval(x.value)
                spec = self.eval(x.format_spec) if x.format_spec is not None else ""
                parts.append(self.B.to_str(self, v, "r" if x.conversion == 114 else "s", spec))
        return self.B.str_concat(parts)

    def e_FormattedValue(self, e):
        return self.B.to_str(self, self.eval(e.value))

    def e_Starred(self, e):
        raise Undecided("starred expression", self.loc())

    # -- comprehensions

    def comp_scope(self, gens):
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        return names

    def comprehension(self, e, emit):
        fr = self.frames[-1]
        first = self.eval(e.generators[0].iter)
        env = self.new(EnvCell({}))
        sub = Frame(fr.qual, fr.module, [(env, self.comp_scope(e.generators), False)] + fr.chain, fr.func)
        sub.line = fr.line
        sub.globals = fr.globals
        sub.selfcls = fr.selfcls
        sub.first = fr.first
        if hasattr(fr, "defcls"):
            sub.defcls = fr.defcls
        self.frames.append(sub)
        try:
            def go(k, it=None):
                if k == len(e.generators):
                    emit()
                    return
                g = e.generators[k]
                src = it if it is not None else self.eval(g.iter)

                def f(vs):
                    if isinstance(vs[0], UnknownV):
                        raise Undecided("comprehension over an unknown value: " + vs[0].why, self.loc())
                    for x in self.iterate(vs[0]):
                        self.assign(g.target, x)

                        def conds(j):
                            if j == len(g.ifs):
                                go(k + 1)
                                return
                            c = self._node(self.truth(self.eval(g.ifs[j])))
                            self.fork(c, lambda: conds(j + 1), lambda: None)
                        conds(0)
                self.cases([src], f)
            go(0, first)
        finally:
            self.frames.pop()

    def e_ListComp(self, e):
        ref = self.new(ListCell(()))

        def emit():
            v = self.eval(e.elt)

            def f(vs):
                self.heap[ref.id] = ListCell(self.cell(ref).items + (v,))
            self.cases([ref], f)
        self.comprehension(e, emit)
        return ref

    def e_GeneratorExp(self, e):
        # lazy in python; the elements are analysed at creation
        ref = self.e_ListComp(e)
        return self.cases([ref], lambda vs: self.new_iter(self.cell(vs[0]).items, "generator"))

    def e_SetComp(self, e):
        ref = self.e_ListComp(e)
        return self.cases([ref], lambda vs: self.new(SetCell({self.hkey(x): x for x in self.cell(vs[0]).items})))

    def e_DictComp(self, e):
        ref = self.new(DictCell({}))

        def emit():
            k = self.eval(e.key)
            self.setitem(ref, k, self.eval(e.value))
        self.comprehension(e, emit)
        return ref

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else None
        f = self.frames[-1]
        if f.yield_cb is not None:
            return f.yield_cb(v)
        if f.yields is None:
            raise Undecided("yield outside of a generator call", self.loc())

        def g(vs):
            self.heap[vs[0].id] = ListCell(self.cell(vs[0]).items + (v,))
        self.cases([f.yields], g)
        return None

    def e_YieldFrom(self, e):
        it = self.eval(e.value)
        f = self.frames[-1]

        def g(vs):
            items = self.iterate(vs[0])
            self.heap[vs[1].id] = ListCell(self.cell(vs[1]).items + tuple(items))
        self.cases([it, f.yields], g)
        return None

    # -- calls

    def e_Call(self, e):
        # zero argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = self.frames[-1]
            if f.selfcls is None:
                self.throw("RuntimeError", "super(): no arguments")
            return SuperV(f.selfcls, f.first)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals"):
            raise Undecided(e.func.id + "()", self.loc())
        fn = self.eval(e.func)
        args = []
        gated = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                gated.append(v)
                args.append(("*", v))
            else:
                args.append(("", self.eval(a)))
        kws = []
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                gated.append(v)
            kws.append((k.arg, v))
        self.frames[-1].line = e.lineno

        def f(vs):
            it = iter(vs)
            out, kw = [], {}
            for t, v in args:
                if t:
                    v = next(it)
                    if isinstance(v, UnknownV):
                        raise Undecided("star argument is unknown", self.loc())
                    out += self.iterate(v)
                else:
                    out.append(v)
            for k, v in kws:
                if k is None:
                    v = next(it)
                    for kk, vv in self.B.mapping_items(self, v):
                        if kk in kw:
                            self.throw("TypeError", f"got multiple values for keyword argument '{kk}'")
                        kw[kk] = vv
                else:
                    if k in kw:
                        self.throw("TypeError", f"got multiple values for keyword argument '{k}'")
                    kw[k] = v
            return self.call(fn, out, kw)
        if gated:
            return self.cases(gated, f)
        return f([])

    def call(self, fn, args, kwargs):
        if isinstance(fn, PhiV):
            return self.cases([fn], lambda vs: self.call(vs[0], args, kwargs))
        if isinstance(fn, FuncV):
            return self.call_func(fn, args, kwargs)
        if isinstance(fn, BoundV):
            return self.call(fn.func, [fn.self] + list(args), kwargs)
        if isinstance(fn, BuiltinV):
            return self.lifted(args, kwargs, lambda a, k: fn.fn(self, a, k))
        if isinstance(fn, PartialV):
            kw = dict(fn.kwargs)
            kw.update(kwargs)
            return self.call(fn.func, list(fn.args) + list(args), kw)
        if isinstance(fn, ClassV):
            return self.B.instantiate(self, fn, args, kwargs)
        if isinstance(fn, ExtClassV):
            return self.lifted(args, kwargs, lambda a, k: self.B.call_extclass(self, fn, a, k))
        if isinstance(fn, ExtV):
            return self.lifted(args, kwargs, lambda a, k: self.J.call_ext(self, fn, a, k))
        if isinstance(fn, JitV):
            return self.J.call_jit(self, fn, args, kwargs)
        if isinstance(fn, OpaqueFn):
            return self.lifted(args, kwargs, lambda a, k: fn.handler(self, a, k))
        if isinstance(fn, (StaticV, ClassMethodV)):
            return self.call(fn.func, args, kwargs)
        if isinstance(fn, UnknownV):
            return self.unknown("call of unknown: " + fn.why)
        if isinstance(fn, Ref):
            m = self.class_lookup_obj(fn, "__call__")
            if m is not UNBOUND:
                return self.call(m, [fn] + list(args), kwargs)
        if isinstance(fn, DTypeV):
            return self.J.call_ext(self, ExtV("jax.numpy." + fn.name), args, kwargs)
        self.throw("TypeError", f"{self.B.type_name(self, fn)} object is not callable")

    def lifted(self, args, kwargs, f):
        ks = list(kwargs)
        n = len(args)

        def g(vs):
            return f(vs[:n], dict(zip(ks, vs[n:])))
        return self.cases(list(args) + [kwargs[k] for k in ks], g)

    def bind(self, fn, args, kwargs):
        a = fn.node.args
        pos = a.posonlyargs + a.args
        vars = {}
        kwargs = dict(kwargs)
        args = list(args)
        npos = len(pos)
        for p, v in zip(pos, args):
            vars[p.arg] = v
        extra = args[npos:]
        if extra and not a.vararg:
            self.throw("TypeError", f"{fn.name}() takes {npos} positional arguments but {len(args)} were given", fault=own_func(fn))
        if a.vararg:
            vars[a.vararg.arg] = tuple(extra)
        nd = len(fn.defaults)
        for i, p in enumerate(pos):
            if p.arg in kwargs and p not in a.posonlyargs:
                if p.arg in vars:
                    self.throw("TypeError", f"{fn.name}() got multiple values for argument '{p.arg}'", fault=own_func(fn))
                vars[p.arg] = kwargs.pop(p.arg)
            elif p.arg not in vars:
                k = i - (npos - nd)
                if k >= 0:
                    vars[p.arg] = fn.defaults[k]
                else:
                    self.throw("TypeError", f"{fn.name}() missing required argument '{p.arg}'", fault=own_func(fn))
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                vars[p.arg] = kwargs.pop(p.arg)
            elif p.arg in fn.kwdefaults:
                vars[p.arg] = fn.kwdefaults[p.arg]
            else:
                self.throw("TypeError", f"{fn.name}() missing required keyword argument '{p.arg}'", fault=own_func(fn))
        if a.kwarg:
            vars[a.kwarg.arg] = self.new_dict(kwargs.items())
        elif kwargs:
            self.throw("TypeError", f"{fn.name}() got an unexpected keyword argument '{next(iter(kwargs))}'", fault=own_func(fn))
        return vars

    def call_func(self, fn, args, kwargs, yield_cb=None):
        if "contextmanager" in fn.flags and yield_cb is None:
            return ("__genctx__", fn, list(args), dict(kwargs))
        if len(self.frames) > self.MAX_DEPTH:
            raise Undecided("recursion too deep for the analysis", self.loc())
        vars = self.bind(fn, args, kwargs)
        env = self.new(EnvCell(vars))
        fr = Frame(fn.qual, fn.module, [(env, fn.scope.names, False)] + list(fn.closure), fn)
        fr.line = fn.node.lineno
        fr.globals = set(fn.scope.globals)
        fr.nonlocals = set(fn.scope.nonlocals)
        fr.selfcls = fn.defcls
        fr.defcls = fn.defcls
        ps = fn.node.args.posonlyargs + fn.node.args.args
        if ps:
            fr.first = vars.get(ps[0].arg)
        elif fn.node.args.vararg and vars.get(fn.node.args.vararg.arg):
            fr.first = vars[fn.node.args.vararg.arg][0]
        fr.yield_cb = yield_cb
        if fn.scope.is_gen and yield_cb is None:
            fr.yields = self.new(ListCell(()))
        if fn.module is not None:
            self.analysed.add((fn.module.path, fn.qual))
        self.frames.append(fr)
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(fn.node.body)
                outs = [(self.pc, self.heap, v)]
            else:
                outs = fr.returns
                try:
                    self.exec_block(fn.node.body)
                    outs.append((self.pc, self.heap, None))
                except PathDead:
                    pass
                if not outs:
                    raise PathDead()
            v = self.merge(outs)
        finally:
            self.frames.pop()
        if fr.yields is not None:
            return self.cases([fr.yields], lambda vs: self.new_iter(self.cell(vs[0]).items, "generator"))
        return v

    # ------------------------------------------------------- object protocol

    def class_lookup(self, cls, name, after=None):
        """raw class attribute along the mro"""
        seen = after is None
        for c in cls.mro:
            if not seen:
                seen = c is after
                continue
            if isinstance(c, ClassV):
                if name in c.ns:
                    return c.ns[name]
            else:
                v = self.B.extclass_attr(self, c, name)
                if v is not UNBOUND:
                    return v
        return UNBOUND

    def class_lookup_obj(self, ref, name):
        c = self.cell(ref)
        if isinstance(c, ObjCell):
            return self.class_lookup(c.cls, name)
        return UNBOUND

    def getattr_(self, o, name, default=UNBOUND):
        return self.cases([o], lambda vs: self.B.getattr1(self, vs[0], name, default))

    def setattr_(self, o, name, v):
        return self.cases([o], lambda vs: self.B.setattr1(self, vs[0], name, v))

    def delattr_(self, o, name):
        return self.cases([o], lambda vs: self.B.delattr1(self, vs[0], name))

    def getitem(self, o, k):
        return self.cases([o, k], lambda vs: self.B.getitem1(self, vs[0], vs[1]))

    def setitem(self, o, k, v):
        return self.cases([o, k], lambda vs: self.B.setitem1(self, vs[0], vs[1], v))

    def delitem(self, o, k):
        return self.cases([o, k], lambda vs: self.B.delitem1(self, vs[0], vs[1]))

    def iterate(self, v):
        """items of an iterable whose outer structure is concrete (callers resolve gates)"""
        return self.B.iterate(self, v)

    def hkey(self, v):
        return self.B.hkey(self, v)

    # --------------------------------------------------------------- harness

    def run(self, f, pc=D.TRUE):
        """Analyse f() from the current state; returns a Result."""
        self.catch.append([])
        self.pc = D.band(self.pc, pc)
        try:
            try:
                v = f()
                ok = True
            except PathDead:
                v, ok = None, False
        finally:
            raises = self.catch.pop()
        return Result(self, ok, v, self.pc if ok else D.FALSE, self.heap, raises)


class Result:
    def __init__(self, eng, ok, value, pc, heap, raises):
        self.eng = eng
        self.ok = ok
        self.value = value
        self.pc = pc
        self.heap = heap
        self.raises = raises

    def raised(self, *names):
        """bool node: where an exception of (a subclass of) the given classes is raised"""
        out = D.FALSE
        for r in self.raises:
            c = self.exc_cls(r)
            if not names or any(self.eng.B.is_subclass(self.eng, c, self.eng.B.exc_class(n)) for n in names):
                out = D.bor(out, r.pc)
        return out

    def exc_cls(self, r):
        return r.heap.get(r.exc.id, self.eng.base.get(r.exc.id)).cls

    def exc_name(self, r):
        return self.exc_cls(r).name

    def exc_msg(self, r):
        c = r.heap.get(r.exc.id, self.eng.base.get(r.exc.id))
        return c.extra[0] if c.extra else ""
