"""
C21: no path of the package ends in a name, attribute or signature error.

Deciding method: name, attribute and signature resolution over the syntax trees of every module, plus the abstract
import of every module. Flow sensitive only where it has to be: a local variable is reported when no assignment of it
can reach the use on any path.
"""
import ast
import builtins
import json
import os

from . import domain as D
from . import harness as Hn
from .values import *

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__spec__", "__loader__", "__package__", "__path__", "__annotations__",
                                 "__builtins__", "__cached__", "__dict__", "__debug__"}
OBJECT = set(dir(object)) | {"__dict__", "__module__", "__weakref__", "__slots__", "__annotations__"}
TYPE = set(dir(type)) | OBJECT | {"__dataclass_fields__", "__abstractmethods__", "__match_args__", "__orig_bases__", "__parameters__"}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "libnames.json")) as _f:
    LIB = json.load(_f)
MEMBERS = {k: set(v) for k, v in LIB["members"].items()}
MODNAMES = set(LIB["modules"]) | set(MEMBERS)
SIMPLE_BASES = {"object", "abc.ABC"}
ENUM_BASES = {"enum.Enum", "enum.IntEnum", "enum.Flag", "enum.IntFlag", "enum.StrEnum"}
PKGTOP = ("src", "jax_act")


class Ext:
    def __init__(self, path):
        self.path = path


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.body = {}      # class level names -> list of nodes


class Fn:
    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls


class Inst:
    def __init__(self, cls):
        self.cls = cls


class Mod:
    def __init__(self, name, path, rel, ispkg):
        self.name, self.path, self.rel, self.ispkg = name, path, rel, ispkg
        self.tree = None
        self.binds = {}
        self.open = False
        self.all = None
        self.stars = []


def bind_targets(t, out):
    if isinstance(t, ast.Name):
        out.append((t.id, t))
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            bind_targets(x, out)
    elif isinstance(t, ast.Starred):
        bind_targets(t.value, out)


def pattern_names(p, out):
    for n in ast.walk(p):
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.append((n.name, n))
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.append((n.rest, n))


def scope_bindings(body):
    """names bound directly in a block of one scope (not inside nested functions or classes), with the binding node"""
    out, glob, nonl = [], set(), set()

    def expr(e, comp=False):
        # only walrus targets bind; lambdas are scopes of their own
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.Lambda):
                for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                    expr(ast.Expr(d))
                continue
            if isinstance(n, ast.NamedExpr):
                out.append((n.target.id, n))
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            expr(n)

    def go(stmts):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.append((s.name, s))
                continue
            if isinstance(s, ast.Global):
                glob.update(s.names)
                continue
            if isinstance(s, ast.Nonlocal):
                nonl.update(s.names)
                continue
            if isinstance(s, ast.Import):
                for al in s.names:
                    out.append((al.asname or al.name.split(".")[0], (s, al)))
                continue
            if isinstance(s, ast.ImportFrom):
                for al in s.names:
                    out.append((al.asname or al.name, (s, al)))
                continue
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    bind_targets(t, out)
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name):
                    out.append((s.target.id, s))
            elif isinstance(s, ast.AugAssign):
                bind_targets(s.target, out)
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                bind_targets(s.target, out)
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                for it in s.items:
                    if it.optional_vars is not None:
                        bind_targets(it.optional_vars, out)
            elif isinstance(s, ast.Delete):
                for t in s.targets:
                    bind_targets(t, out)
            elif isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                for h in s.handlers:
                    if h.name:
                        out.append((h.name, h))
            elif isinstance(s, ast.Match):
                for c in s.cases:
                    pattern_names(c.pattern, out)
            elif isinstance(s, getattr(ast, "TypeAlias", ())):
                out.append((s.name.id, s))
            for f, v in ast.iter_fields(s):
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    go(v)
                elif isinstance(v, list):
                    for x in v:
                        if isinstance(x, (ast.ExceptHandler, ast.match_case)):
                            go(x.body)
                            for y in (getattr(x, "guard", None), getattr(x, "type", None)):
                                if y is not None:
                                    expr(ast.Expr(y))
                        elif isinstance(x, ast.AST):
                            expr(ast.Expr(x))
                elif isinstance(v, ast.AST):
                    expr(ast.Expr(v))
    go(body)
    return out, glob, nonl


def own_walk(node):
    """nodes of one function or class body, without descending into nested scopes (comprehensions are included)"""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            stack.extend(ast.iter_child_nodes(n))


def params(a):
    return [x for x in a.posonlyargs + a.args + ([a.vararg] if a.vararg else []) + a.kwonlyargs + ([a.kwarg] if a.kwarg else [])]


class Package:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.files = []
        self.broken = []
        base = os.path.join(root, "src")
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__" and not x.startswith("."))
            relpkg = os.path.relpath(d, root).replace(os.sep, ".")
            self.mods.setdefault(relpkg, Mod(relpkg, None, os.path.relpath(d, root), True))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)
                name = relpkg if f == "__init__.py" else relpkg + "." + f[:-3]
                m = Mod(name, path, rel, f == "__init__.py")
                self.mods[name] = m
                self.files.append(rel)
                try:
                    with open(path, encoding="utf-8") as fh:
                        src = fh.read()
                    m.tree = ast.parse(src, filename=rel)
                    compile_ok(src, rel)
                except SyntaxError as e:
                    m.tree = None
                    m.open = True
                    self.broken.append((m, e))
        for m in list(self.mods.values()):
            if m.tree is not None:
                self.scan(m)
        for m in self.mods.values():
            if m.tree is not None:
                self.expand(m, set())

    def scan(self, m):
        out, _, _ = scope_bindings(m.tree.body)
        for n, b in out:
            if isinstance(b, tuple) and b[1].name == "*":
                m.stars.append(b[0])
                continue
            m.binds.setdefault(n, []).append(b)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                _, glob, _ = scope_bindings(n.body)
                inner, _, _ = scope_bindings(n.body)
                for g in glob:
                    if any(x == g for x, _ in inner):
                        m.binds.setdefault(g, []).append(n)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "exec", "vars", "locals", "setattr"):
                if n.func.id in ("globals", "exec"):
                    m.open = True
        if "__getattr__" in m.binds:
            m.open = True
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets):
                try:
                    m.all = list(ast.literal_eval(s.value))
                except ValueError:
                    m.open = True

    def expand(self, m, busy):
        if m.name in busy:
            return
        busy = busy | {m.name}
        for s in m.stars:
            t = self.target(m, s)
            if t in self.mods:
                tm = self.mods[t]
                if tm.tree is None:
                    m.open = True
                    continue
                self.expand(tm, busy)
                names = tm.all if tm.all is not None else [n for n in tm.binds if not n.startswith("_")]
                if tm.open:
                    m.open = True
                for n in names:
                    m.binds.setdefault(n, []).append((s, ast.alias(name=n, asname=None)))
            elif t in MEMBERS:
                for n in MEMBERS[t]:
                    if not n.startswith("_"):
                        m.binds.setdefault(n, []).append((s, ast.alias(name=n, asname=None)))
            else:
                m.open = True

    def canonical(self, name):
        return "src." + name if name.split(".")[0] == "jax_act" else name

    def target(self, m, s):
        """absolute module name of a from-import"""
        mod = s.module or ""
        if s.level:
            base = m.name.split(".")
            if not m.ispkg:
                base = base[:-1]
            if s.level - 1 > len(base) - 1:
                return "?"
            base = base[:len(base) - (s.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        return self.canonical(mod)

    # what a module level name is: Mod, Cls, Fn, Ext, None (some value), "missing"

    def resolve(self, m, name, depth=0):
        if depth > 12:
            return None
        bs = m.binds.get(name)
        if not bs:
            sub = self.mods.get(m.name + "." + name)
            if sub is not None:
                return sub
            return None if m.open else "missing"
        if len(bs) > 1:
            rs = [self.binding(m, b, name, depth) for b in bs]
            return rs[0] if all(same(r, rs[0]) for r in rs) else None
        return self.binding(m, bs[0], name, depth)

    def binding(self, m, b, name, depth=0):
        if isinstance(b, tuple):
            s, al = b
            if isinstance(s, ast.Import):
                full = self.canonical(al.name if al.asname else al.name.split(".")[0])
                if full in self.mods:
                    return self.mods[full]
                return Ext(full)
            t = self.target(m, s)
            if t in self.mods:
                if self.mods[t] is m:
                    sub = self.mods.get(t + "." + al.name)
                    return sub
                return self.resolve(self.mods[t], al.name, depth + 1)
            return self.ext_member(Ext(t), al.name)
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)) and b.name == name:
            return Fn(m, b)
        if isinstance(b, ast.ClassDef):
            return self.cls(m, b)
        return None

    _classes = None

    def cls(self, m, node):
        if self._classes is None:
            self._classes = {}
        c = self._classes.get(id(node))
        if c is None:
            c = self._classes[id(node)] = Cls(m, node)
            out, _, _ = scope_bindings(node.body)
            for n, b in out:
                c.body.setdefault(n, []).append(b)
        return c

    def ext_member(self, e, name):
        full = e.path + "." + name
        if full in MEMBERS or full in MODNAMES:
            return Ext(full)
        if e.path in MEMBERS:
            if name in MEMBERS[e.path]:
                return Ext(full)
            return "missing"
        if e.path in MODNAMES:
            return None
        # a member of something that is not a module (a class or function of a library)
        return None

    def mro(self, c, seen=None):
        """package classes of the resolution order (good enough for membership) and whether it is completely known"""
        order, known, ext = [c], True, []
        for b in c.node.bases:
            v = self.expr_value(c.mod, b)
            if isinstance(v, Cls) and v is not c:
                o, k, e = self.mro(v)
                order += [x for x in o if x not in order]
                known &= k
                ext += e
            elif isinstance(v, Ext):
                ext.append(v.path)
                if v.path not in SIMPLE_BASES and v.path not in ENUM_BASES:
                    known = False
            elif isinstance(b, ast.Name) and b.id == "object":
                pass
            elif isinstance(b, ast.Name) and v is None and isinstance(getattr(builtins, b.id, None), type):
                ext.append("builtins." + b.id)
            else:
                known = False
        if any(k.arg == "metaclass" and not (isinstance(self.expr_value(c.mod, k.value), Ext)
                                             and self.expr_value(c.mod, k.value).path == "abc.ABCMeta") for k in c.node.keywords):
            known = False
        return order, known, ext

    def expr_value(self, m, e, scope=None):
        """static value of a dotted name at module level"""
        if isinstance(e, ast.Name):
            r = self.resolve(m, e.id)
            return None if r == "missing" else r
        if isinstance(e, ast.Attribute):
            v = self.expr_value(m, e.value)
            return self.member(v, e.attr)
        return None

    def member(self, v, name):
        if isinstance(v, Mod):
            r = self.resolve(v, name)
            return r
        if isinstance(v, Ext):
            return self.ext_member(v, name)
        return None

    def subclasses(self, c):
        out = []
        for m in self.mods.values():
            if m.tree is None:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    d = self.cls(m, n)
                    if d is not c and c in self.mro(d)[0]:
                        out.append(d)
        return out

    def class_names(self, c):
        """attributes found on the class object; None when not all are known"""
        order, known, ext = self.mro(c)
        names = set(TYPE)
        for k in order:
            names |= set(k.body)
            for d in k.node.decorator_list:
                v = self.expr_value(k.mod, d.func if isinstance(d, ast.Call) else d)
                if not (isinstance(v, Ext) and v.path in ("dataclasses.dataclass", "enum.unique", "functools.total_ordering",
                                                          "abc.update_abstractmethods", "typing.final", "typing.runtime_checkable",
                                                          "jax.tree_util.register_pytree_node_class",
                                                          "jax.tree_util.register_pytree_with_keys_class")):
                    known = False
            if "__getattr__" in k.body or "__getattribute__" in k.body:
                known = False
        for x in ext:
            if x in ENUM_BASES:
                names |= {"__members__", "_member_map_", "_value2member_map_", "_member_names_"}
            if x.startswith("builtins."):
                names |= set(dir(getattr(builtins, x[9:])))
            if x == "enum.IntEnum":
                names |= set(dir(int))
            if x == "enum.StrEnum":
                names |= set(dir(str))
        return names if known else None

    def inst_names(self, c, down=False):
        """attributes an instance may have"""
        names = self.class_names(c)
        if names is None:
            return None
        order, _, ext = self.mro(c)
        names = set(names) - {"mro", "__subclasses__", "__mro__", "__bases__", "__name__", "__qualname__"} | {"__class__"}
        if any(x in ENUM_BASES for x in ext):
            names |= {"name", "value", "_name_", "_value_"}
        for k in order + (self.subclasses(c) if down else []):
            if k not in order:
                names |= set(k.body)
                if self.class_names(k) is None and not set(self.mro(k)[2]) <= SIMPLE_BASES | ENUM_BASES and False:
                    return None
            for fn in k.node.body:
                if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)) and fn.args.posonlyargs + fn.args.args:
                    me = (fn.args.posonlyargs + fn.args.args)[0].arg
                    for n in ast.walk(fn):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) \
                                and n.value.id == me:
                            names.add(n.attr)
                        if isinstance(n, ast.Attribute) and n.attr == "__dict__" and isinstance(n.value, ast.Name) and n.value.id == me:
                            return None
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars") and n.args \
                                and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                            if n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                                names.add(n.args[1].value)
                            else:
                                return None
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__setattr__":
                            cs = [a for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                            if cs:
                                names.update(a.value for a in cs)
                            elif isinstance(n.func.value, ast.Name) and n.func.value.id == "object":
                                return None
        # attributes stored on instances from outside (x = cls.__new__(cls); x.attr = ...)
        for m in self.mods.values():
            if m.tree is not None:
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        names.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__setattr__":
                        names.update(a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str))
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
                        if isinstance(n.args[1], ast.Constant):
                            names.add(n.args[1].value)
        return names

    def lookup_method(self, c, name):
        """the binding of a class level name through the resolution order: (class, node) or None when not certain"""
        order, known, ext = self.mro(c)
        for k in order:
            if name in k.body:
                bs = k.body[name]
                if len(bs) == 1:
                    return k, bs[0]
                # property with a setter: the first definition
                if all(isinstance(b, ast.FunctionDef) for b in bs):
                    return k, bs[0]
                return None
        return None

    def is_dataclass(self, c):
        for d in c.node.decorator_list:
            v = self.expr_value(c.mod, d.func if isinstance(d, ast.Call) else d)
            if isinstance(v, Ext) and v.path == "dataclasses.dataclass":
                return d
        return None

    def ann_class(self, m, a):
        """package class an annotation names exactly"""
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(a, (ast.Name, ast.Attribute)):
            v = self.expr_value(m, a)
            return v if isinstance(v, Cls) else None
        return None


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, Ext):
        return a.path == b.path
    if isinstance(a, (Fn,)):
        return a.node is b.node
    return a is b


def compile_ok(src, rel):
    # syntax errors the parser alone does not report (return outside function, nonlocal without binding, ...)
    compile(src, rel, "exec", dont_inherit=True)


DECOR_PLAIN = {"abc.abstractmethod", "typing.final", "typing.override", "typing.no_type_check", "jax.jit", "functools.lru_cache",
               "functools.cache", "functools.wraps", "jax.named_call", "jax.profiler.annotate_function"}


class Scanner:
    """walks one module and reports"""

    def __init__(self, pkg, m, report):
        self.pkg, self.m, self.report = pkg, m, report
        self.n = dict(names=0, attrs=0, calls=0, imports=0, functions=0)
        self.future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names)
                          for s in m.tree.body)

    def loc(self, node, fn):
        return (self.m.rel, getattr(node, "lineno", 0), fn)

    def run(self):
        self.imports()
        self.block(self.m.tree, [dict(kind="module", names=None)], "<module>")

    # imports

    def imports(self):
        guarded = set()
        for n in ast.walk(self.m.tree):
            if isinstance(n, (ast.Try,)):
                for s in n.body:
                    for x in ast.walk(s):
                        guarded.add(id(x))
            if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.dump(n.test):
                for s in n.body:
                    for x in ast.walk(s):
                        guarded.add(id(x))
        for n in ast.walk(self.m.tree):
            if id(n) in guarded:
                continue
            if isinstance(n, ast.Import):
                for al in n.names:
                    self.n["imports"] += 1
                    full = self.pkg.canonical(al.name)
                    if full.split(".")[0] in PKGTOP:
                        if full not in self.pkg.mods:
                            self.bad("imports resolve", n, f"there is no module {al.name}")
                        elif self.pkg.mods[full].tree is None and self.pkg.mods[full].path:
                            self.bad("imports resolve", n, f"module {al.name} does not parse")
                    elif full.split(".")[0] in ("jax", "flax", "numpy") or full in MODNAMES:
                        if full not in MODNAMES and full.split(".")[0] in ("jax", "flax", "numpy") and \
                                ".".join(full.split(".")[:-1]) in MEMBERS and len(full.split(".")) == 2:
                            self.bad("imports resolve", n, f"there is no module {al.name}")
            elif isinstance(n, ast.ImportFrom):
                t = self.pkg.target(self.m, n)
                for al in n.names:
                    self.n["imports"] += 1
                    if t == "?":
                        self.bad("imports resolve", n, "relative import beyond the top level package")
                        continue
                    if t.split(".")[0] in PKGTOP:
                        tm = self.pkg.mods.get(t)
                        if tm is None:
                            self.bad("imports resolve", n, f"there is no module {t}")
                        elif tm.tree is None and tm.path:
                            self.bad("imports resolve", n, f"module {t} does not parse")
                        elif al.name == "*":
                            if tm.all is not None:
                                for x in tm.all:
                                    if self.pkg.resolve(tm, x) == "missing":
                                        self.bad("imports resolve", n, f"__all__ of {t} lists {x}, which it does not define")
                        elif self.pkg.resolve(tm, al.name) == "missing":
                            self.bad("imports resolve", n, f"{t} defines no {al.name}")
                        elif tm is self.m and self.pkg.mods.get(t + "." + al.name) is None:
                            pass
                    elif al.name != "*" and t in MODNAMES:
                        if self.pkg.ext_member(Ext(t), al.name) == "missing":
                            self.bad("imports resolve", n, f"{t} has no member {al.name}")

    def bad(self, rule, node, detail, fn=None):
        self.report(rule, "violated", detail, self.loc(node, fn or self.where(node)))

    _where = None

    def where(self, node):
        if self._where is None:
            self._where = {}

            def go(n, q):
                for c in ast.iter_child_nodes(n):
                    q2 = q
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        q2 = (q + "." if q else "") + c.name
                    self._where[id(c)] = q2
                    go(c, q2)
            go(self.m.tree, "")
        return self._where.get(id(node)) or "<module>"

    # scopes: a scope is dict(kind, names, node, cls, me, types)

    def block(self, node, scopes, qual):
        """node: Module, ClassDef or FunctionDef body analysed in the innermost scope"""
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            self.visit(s, scopes)
        if scopes[-1]["kind"] == "function":
            Assigned(self, node, scopes[-1]).run()

    def visit(self, n, scopes):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                self.visit(d, scopes)
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                self.visit(d, scopes)
            if not self.future:
                for p in params(n.args):
                    if p.annotation is not None:
                        self.visit(p.annotation, scopes)
                if n.returns is not None:
                    self.visit(n.returns, scopes)
            self.function(n, scopes)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                self.visit(d, scopes)
            self.function(n, scopes)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, scopes)
            out, glob, nonl = scope_bindings(n.body)
            c = self.pkg.cls(self.m, n)
            self.block(n, scopes + [dict(kind="class", names={x for x, _ in out} - glob - nonl, cls=c)], n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            names = []
            for g in n.generators:
                bind_targets(g.target, names)
            self.visit(n.generators[0].iter, scopes)
            sc = scopes + [dict(kind="comp", names={x for x, _ in names})]
            for i, g in enumerate(n.generators):
                if i:
                    self.visit(g.iter, sc)
                for t in g.ifs:
                    self.visit(t, sc)
                self.visit(g.target, sc)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.visit(e, sc)
            return
        if isinstance(n, ast.AnnAssign):
            self.visit(n.target, scopes)
            if n.value is not None:
                self.visit(n.value, scopes)
            if not self.future and scopes[-1]["kind"] != "function":
                self.visit(n.annotation, scopes)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.name(n, scopes)
            return
        if isinstance(n, ast.Attribute):
            self.visit(n.value, scopes)
            if isinstance(n.ctx, ast.Load):
                self.attribute(n, scopes)
            return
        if isinstance(n, ast.Call):
            for c in ast.iter_child_nodes(n):
                self.visit(c, scopes)
            self.call(n, scopes)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return
        for c in ast.iter_child_nodes(n):
            self.visit(c, scopes)

    def function(self, n, scopes):
        self.n["functions"] += 1
        ps = params(n.args)
        if isinstance(n, ast.Lambda):
            out, glob, nonl = scope_bindings([ast.Expr(n.body)])
            out = []
        else:
            out, glob, nonl = scope_bindings(n.body)
        names = ({p.arg for p in ps} | {x for x, _ in out}) - glob - nonl
        sc = dict(kind="function", names=names, node=n, globals=glob, params=ps, binds=out, cls=None, me=None, what=None)
        if scopes[-1]["kind"] == "class" and not isinstance(n, ast.Lambda):
            c = scopes[-1]["cls"]
            kind = self.method_kind(c, n)
            pos = n.args.posonlyargs + n.args.args
            if kind in ("method", "classmethod", "property") and pos:
                me = pos[0].arg
                if not any(x == me for x, _ in out):
                    sc.update(cls=c, me=me, what="class" if kind == "classmethod" else "inst")
        self.block(n, scopes + [sc], getattr(n, "name", "<lambda>"))

    def method_kind(self, c, n):
        kind = "method"
        for d in n.decorator_list:
            if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"):
                kind = d.id
                continue
            if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter", "getter"):
                kind = "property"
                continue
            v = self.pkg.expr_value(c.mod, d.func if isinstance(d, ast.Call) else d)
            if isinstance(v, Ext) and v.path in DECOR_PLAIN:
                continue
            return "unknown"
        if n.name in ("__new__",):
            return "static"
        if n.name in ("__init_subclass__", "__class_getitem__"):
            return "classmethod"
        return kind

    # -- names

    def find(self, name, scopes):
        """the scope a name is looked up in: a scope dict, 'module' or 'builtin' or None"""
        for i in range(len(scopes) - 1, -1, -1):
            s = scopes[i]
            if s["kind"] == "module":
                break
            if s["kind"] == "class" and i != len(scopes) - 1:
                continue
            if s["kind"] == "function" and name in s.get("globals", ()):
                break
            if name in s["names"]:
                return s
        if name == "__class__" and any(s["kind"] == "class" for s in scopes):
            return "builtin"
        if name in ("__qualname__", "__module__") and scopes[-1]["kind"] == "class":
            return "builtin"
        if name in self.m.binds:
            return "module"
        if name in BUILTINS:
            return "builtin"
        return None

    def name(self, n, scopes):
        self.n["names"] += 1
        if self.find(n.id, scopes) is None and not self.m.open:
            self.bad("names resolve", n, f"name '{n.id}' is not defined in {self.m.rel} nor built in")

    # -- static value of an expression

    def value(self, e, scopes, depth=0):
        """Mod, Cls, Fn, Ext, Inst, or None when not known for certain"""
        if depth > 8:
            return None
        if isinstance(e, ast.Name):
            s = self.find(e.id, scopes)
            if s == "module":
                r = self.pkg.resolve(self.m, e.id)
                return None if r == "missing" else r
            if isinstance(s, dict) and s["kind"] == "function":
                if e.id == s.get("me"):
                    return Inst(s["cls"]) if s["what"] == "inst" else s["cls"]
                return self.local_value(e.id, s, scopes[:scopes.index(s) + 1], depth)
            return None
        if isinstance(e, ast.Attribute):
            v = self.value(e.value, scopes, depth + 1)
            if isinstance(v, (Mod, Ext)):
                r = self.pkg.member(v, e.attr)
                return None if r == "missing" else r
            if isinstance(v, Cls):
                b = self.pkg.lookup_method(v, e.attr)
                if b is not None and isinstance(b[1], (ast.FunctionDef,)):
                    return Fn(b[0].mod, b[1], b[0])
                return None
            if isinstance(v, Inst):
                b = self.pkg.lookup_method(v.cls, e.attr)
                if b is not None and isinstance(b[1], ast.FunctionDef):
                    kind = Scanner.method_kind(self, b[0], b[1])
                    if kind == "property":
                        c = self.pkg.ann_class(b[0].mod, b[1].returns) if b[1].returns is not None else None
                        return Inst(c) if c is not None else None
                    f = Fn(b[0].mod, b[1], b[0])
                    f.bound = kind
                    f.recv = v.cls
                    return f
                if b is not None and isinstance(b[1], ast.AnnAssign):
                    c = self.pkg.ann_class(b[0].mod, b[1].annotation)
                    return Inst(c) if c is not None else None
                return self.stored_type(v.cls, e.attr)
            return None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
                return None
            f = self.value(e.func, scopes, depth + 1)
            if isinstance(f, Cls):
                if self.pkg.lookup_method(f, "__new__") is None and not any(k.arg == "metaclass" for k in f.node.keywords) and \
                        not any(x in ENUM_BASES for x in self.pkg.mro(f)[2]):
                    return Inst(f)
                return None
            if isinstance(f, Fn) and isinstance(f.node, ast.FunctionDef) and f.node.returns is not None:
                if self.plain(f):
                    c = self.pkg.ann_class(f.mod, f.node.returns)
                    return Inst(c) if c is not None else None
            return None
        return None

    def plain(self, f):
        for d in f.node.decorator_list:
            if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod"):
                continue
            v = self.pkg.expr_value(f.mod, d.func if isinstance(d, ast.Call) else d)
            if isinstance(v, Ext) and v.path in ("abc.abstractmethod", "typing.final", "typing.override"):
                continue
            return False
        for n in own_walk(f.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return False
        return not isinstance(f.node, ast.AsyncFunctionDef)

    def stored_type(self, c, attr):
        """class of an attribute every store of which is an annotated, not reassigned parameter of __init__"""
        found = []
        order, known, _ = self.pkg.mro(c)
        if not known:
            return None
        for k in order + self.pkg.subclasses(c):
            for fn in k.node.body:
                if not isinstance(fn, ast.FunctionDef):
                    continue
                for n in ast.walk(fn):
                    if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                        for t in ts:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Attribute) and x.attr == attr:
                                    ok = None
                                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and t is x:
                                        for p in params(fn.args):
                                            if p.arg == n.value.id and p.annotation is not None and p not in (fn.args.vararg, fn.args.kwarg):
                                                if not any(y == p.arg for y, _ in scope_bindings(fn.body)[0]):
                                                    ok = self.pkg.ann_class(k.mod, p.annotation)
                                    found.append(ok)
        if found and all(f is not None and f is found[0] for f in found):
            return Inst(found[0])
        return None

    def local_value(self, name, s, scopes, depth):
        if s.get("kind") != "function":
            return None
        bs = [b for x, b in s["binds"] if x == name]
        ps = [p for p in s["params"] if p.arg == name]
        a = s["node"].args
        if ps and not bs:
            p = ps[0]
            if p in (a.vararg, a.kwarg) or p.annotation is None or isinstance(s["node"], ast.Lambda):
                return None
            # a default of another type (x: C = None) makes the annotation loose
            pos = a.posonlyargs + a.args
            if p in pos and len(pos) - pos.index(p) <= len(a.defaults):
                return None
            if p in a.kwonlyargs and a.kw_defaults[a.kwonlyargs.index(p)] is not None:
                return None
            c = self.pkg.ann_class(self.m, p.annotation)
            if c is None or self.narrowed(name, s["node"]):
                return None
            return Inst(c)
        if ps or len(bs) != 1:
            return None
        b = bs[0]
        if isinstance(b, tuple):
            return self.pkg.binding(self.m, b, name)
        if isinstance(b, ast.ClassDef):
            return self.pkg.cls(self.m, b)
        if isinstance(b, ast.FunctionDef):
            return Fn(self.m, b)
        # a single assignment "name = expr"
        for n in own_walk(s["node"]):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and n.targets[0] is b:
                if self.narrowed(name, s["node"]):
                    return None
                return self.value(n.value, scopes, depth + 1)
        return None

    def narrowed(self, name, fn):
        """the code asks what the value really is, so its annotation is not taken at face value"""
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "hasattr", "getattr", "type", "issubclass") \
                    and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == name:
                return True
            if isinstance(n, ast.MatchClass):
                return True
        return False

    # -- attributes

    def guarded(self, n, scopes):
        """inside a try whose handlers expect the failure, or next to a hasattr test of the same name"""
        fn = next((s["node"] for s in reversed(scopes) if s["kind"] == "function"), self.m.tree)
        for t in ast.walk(fn):
            if isinstance(t, ast.Try) and any(x is n for s in t.body for x in ast.walk(s)):
                for h in t.handlers:
                    names = ast.dump(h.type) if h.type is not None else "bare"
                    if h.type is None or any(w in names for w in ("AttributeError", "NameError", "TypeError", "'Exception'")):
                        if not any(isinstance(x, ast.Raise) for s in h.body for x in ast.walk(s)):
                            return True
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "hasattr" and len(t.args) == 2:
                if isinstance(n, ast.Attribute) and isinstance(t.args[1], ast.Constant) and t.args[1].value == n.attr:
                    return True
        return False

    def attribute(self, n, scopes):
        v = self.value(n.value, scopes)
        if v is None or v == "missing":
            return
        self.n["attrs"] += 1
        msg = None
        if isinstance(v, Mod):
            if n.attr not in OBJECT and n.attr not in BUILTINS and self.pkg.resolve(v, n.attr) == "missing":
                msg = f"module {v.name} has no member '{n.attr}'"
        elif isinstance(v, Ext):
            if self.pkg.ext_member(v, n.attr) == "missing":
                msg = f"{v.path} has no member '{n.attr}'"
        elif isinstance(v, Cls):
            names = self.pkg.class_names(v)
            down = set()
            if isinstance(n.value, ast.Name) and any(s.get("me") == n.value.id for s in scopes):
                for d in self.pkg.subclasses(v):
                    down |= set(d.body)
            if names is not None and n.attr not in names | down and not self.outside_store(n.attr):
                msg = f"class {v.name} has no attribute '{n.attr}'"
        elif isinstance(v, Inst):
            names = self.pkg.inst_names(v.cls, down=True)
            if names is not None and n.attr not in names:
                msg = f"'{v.cls.name}' has no attribute '{n.attr}'"
        elif isinstance(v, Fn):
            if n.attr not in set(dir(lambda: 0)) | {"__self__", "__func__", "lower", "eval_shape", "trace", "cache_clear", "cache_info", "clear_cache"} \
                    and self.plain(v) and not self.outside_store(n.attr):
                msg = f"function {v.node.name} has no attribute '{n.attr}'"
        if msg and not self.guarded(n, scopes):
            self.bad("attributes resolve", n, msg)

    def outside_store(self, attr):
        for m in self.pkg.mods.values():
            if m.tree is not None:
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr:
                        return True
        return False

    # -- calls

    def call(self, n, scopes):
        f = n.func
        args, skip, name = None, 0, None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" \
                and not f.value.args:
            s = next((x for x in reversed(scopes) if x["kind"] == "function" and x.get("cls") is not None), None)
            if s is None:
                return
            order, known, ext = self.pkg.mro(s["cls"])
            if not known or any(x in ENUM_BASES for x in ext):
                return
            for k in order[1:]:
                if f.attr in k.body and isinstance(k.body[f.attr][0], ast.FunctionDef):
                    kind = self.method_kind(k, k.body[f.attr][0])
                    if kind in ("method", "classmethod"):
                        args, skip, name = k.body[f.attr][0].args, 1, f"{k.name}.{f.attr}"
                    break
            else:
                if f.attr not in OBJECT and not self.pkg.subclasses(s["cls"]):
                    self.n["attrs"] += 1
                    if not self.guarded(f, scopes):
                        self.bad("attributes resolve", f, f"no base class of {s['cls'].name} defines '{f.attr}'")
                return
            if args is None:
                return
        else:
            v = self.value(f, scopes)
            if isinstance(v, Cls):
                sig = self.ctor(v)
                if sig is None:
                    return
                args, skip, name = sig
            elif isinstance(v, Fn) and isinstance(v.node, ast.FunctionDef):
                if v.cls is None:
                    if not self.plain(v):
                        return
                    args, skip, name = v.node.args, 0, v.node.name
                else:
                    kind = self.method_kind(v.cls, v.node)
                    if kind not in ("method", "classmethod", "staticmethod"):
                        return
                    if any(isinstance(self.pkg.expr_value(v.mod, d.func if isinstance(d, ast.Call) else d), Ext) and
                           self.pkg.expr_value(v.mod, d.func if isinstance(d, ast.Call) else d).path == "jax.jit" for d in v.node.decorator_list):
                        return
                    inst = hasattr(v, "bound")
                    skip = {"method": 1 if inst else 0, "classmethod": 1, "staticmethod": 0}[kind]
                    args, name = v.node.args, f"{v.cls.name}.{v.node.name}"
                    # an override in a subclass may take other arguments
                    recv = getattr(v, "recv", None)
                    if recv is not None and any(v.node.name in d.body for d in self.pkg.subclasses(recv)):
                        return
            else:
                return
        self.n["calls"] += 1
        why = mismatch(args, skip, n)
        if why and not self.guarded(n, scopes):
            self.bad("calls agree with signatures", n, f"{name} {why}")

    def ctor(self, c):
        order, known, ext = self.pkg.mro(c)
        if self.pkg.lookup_method(c, "__new__") is not None or any(x in ENUM_BASES for x in ext):
            return None
        for k in order:
            if "__init__" in k.body:
                b = k.body["__init__"][0]
                if isinstance(b, ast.FunctionDef) and not b.decorator_list:
                    return b.args, 1, f"{c.name}()"
                return None
            d = self.pkg.is_dataclass(k)
            if d is not None:
                if isinstance(d, ast.Call) and d.keywords:
                    kws = {x.arg: x.value for x in d.keywords}
                    if not all(x in ("frozen", "eq", "repr", "order", "unsafe_hash", "match_args", "slots") for x in kws):
                        return None
                return self.dataclass_args(k), 0, f"{c.name}()"
        if not known or any(x not in SIMPLE_BASES for x in ext):
            return None
        return ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), 0, f"{c.name}()"

    def dataclass_args(self, c):
        fields = {}
        order, known, ext = self.pkg.mro(c)
        for k in reversed(order):
            if self.pkg.is_dataclass(k) is None:
                continue
            for s in k.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if "ClassVar" in ast.dump(s.annotation):
                        continue
                    has = s.value is not None
                    init = True
                    if isinstance(s.value, ast.Call):
                        v = self.pkg.expr_value(k.mod, s.value.func)
                        if isinstance(v, Ext) and v.path == "dataclasses.field":
                            kw = {x.arg: x.value for x in s.value.keywords}
                            has = "default" in kw or "default_factory" in kw
                            if "init" in kw and isinstance(kw["init"], ast.Constant) and kw["init"].value is False:
                                init = False
                    if init:
                        fields[s.target.id] = has
        args = [ast.arg(arg=x) for x in fields]
        nd = sum(1 for x in fields.values() if x)
        return ast.arguments(posonlyargs=[], args=args, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
                             defaults=[ast.Constant(None)] * nd)


def mismatch(a, skip, call):
    """why the call does not fit the parameters, None when it fits or cannot be told"""
    pos = a.posonlyargs + a.args
    ponly = [p.arg for p in a.posonlyargs]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = sum(1 for x in call.args if not isinstance(x, ast.Starred)) + skip
    names = [p.arg for p in pos]
    if npos > len(pos) and a.vararg is None:
        return f"takes {len(pos) - skip} positional arguments but {npos - skip} are given"
    kwonly = [p.arg for p in a.kwonlyargs]
    given = set(names[:npos])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in names and k.arg not in ponly:
            if k.arg in given:
                return f"gets multiple values for argument '{k.arg}'"
            given.add(k.arg)
        elif k.arg in kwonly:
            given.add(k.arg)
        elif a.kwarg is None:
            return f"gets an unexpected keyword argument '{k.arg}'"
    if not star and not dstar:
        need = names[:len(names) - len(a.defaults)] if a.defaults else names
        miss = [x for x in need if x not in given]
        miss += [p for p, d in zip(kwonly, a.kw_defaults) if d is None and p not in given]
        if miss:
            return f"misses the argument{'s' if len(miss) > 1 else ''} " + ", ".join(repr(x) for x in miss)
    elif star and not dstar:
        miss = [p for p, d in zip(kwonly, a.kw_defaults) if d is None and p not in given]
        if miss:
            return "misses the keyword argument " + ", ".join(repr(x) for x in miss)
    return None


class Assigned:
    """Which local names may have a value: reports a use no assignment reaches on any path.

    The state is the set of names that may be assigned, or None when the point cannot be reached."""

    def __init__(self, sc, node, scope):
        self.sc, self.node = sc, node
        self.params = {p.arg for p in scope["params"]}
        self.locals = set(scope["names"])
        self.bad = {}
        self.loops = []

    def run(self):
        if isinstance(self.node, ast.Lambda):
            return
        # names a nested function rebinds (nonlocal) are assigned at an unknown time
        for n in ast.walk(self.node):
            if isinstance(n, ast.Nonlocal):
                self.locals -= set(n.names)
        self.stmts(self.node.body, set(self.params))
        for key, n in self.bad.items():
            self.sc.bad("locals are assigned before use", n, f"local variable '{n.id}' is used where no assignment of it can have happened")

    def join(self, *xs):
        xs = [x for x in xs if x is not None]
        return set().union(*xs) if xs else None

    def stmts(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def uses(self, e, st):
        if e is None:
            return
        if isinstance(e, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return
        if isinstance(e, ast.NamedExpr):
            self.uses(e.value, st)
            st.add(e.target.id)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            names = []
            for g in e.generators:
                bind_targets(g.target, names)
            own = {x for x, _ in names}
            inner = set(st) | own
            for i, g in enumerate(e.generators):
                self.uses(g.iter, st if i == 0 else inner)
                for t in g.ifs:
                    self.uses(t, inner)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.uses(x, inner)
            st |= inner - own | (st & own)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in st:
                self.bad.setdefault((e.id, e.lineno), e)
            return
        for c in ast.iter_child_nodes(e):
            self.uses(c, st)

    def bindt(self, t, st):
        out = []
        bind_targets(t, out)
        for x, _ in out:
            st.add(x)
        # subscripts and attributes in targets are uses
        for n in ast.walk(t):
            if isinstance(n, (ast.Attribute, ast.Subscript)):
                for c in ast.iter_child_nodes(n):
                    self.uses(c, st)

    def stmt(self, s, st):
        st = set(st)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [d for d in s.args.kw_defaults if d]:
                self.uses(d, st)
            st.add(s.name)
            return st
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases:
                self.uses(d, st)
            st.add(s.name)
            return st
        if isinstance(s, ast.Return):
            self.uses(s.value, st)
            return None
        if isinstance(s, ast.Raise):
            self.uses(s.exc, st)
            self.uses(s.cause, st)
            return None
        if isinstance(s, ast.Assign):
            self.uses(s.value, st)
            for t in s.targets:
                self.bindt(t, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.uses(s.value, st)
                self.bindt(s.target, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                if s.target.id in self.locals and s.target.id not in st:
                    self.bad.setdefault((s.target.id, s.lineno), ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s.target))
                    self.sc.where(s)
                    self.sc._where[id(self.bad[(s.target.id, s.lineno)])] = self.sc.where(s)
            self.uses(s.value, st)
            self.bindt(s.target, st)
            return st
        if isinstance(s, ast.If):
            self.uses(s.test, st)
            a = self.stmts(s.body, set(st))
            b = self.stmts(s.orelse, set(st))
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                self.uses(s.test, st)
            else:
                self.uses(s.iter, st)
            # everything the loop may assign is possibly assigned from the second turn on
            more, _, _ = scope_bindings(s.body)
            dels = {t.id for n in ast.walk(s) if isinstance(n, ast.Delete) for t in n.targets if isinstance(t, ast.Name)}
            inner = set(st)
            if not isinstance(s, ast.While):
                self.bindt(s.target, inner)
            first = set(inner)
            inner |= {x for x, _ in more}
            self.loops.append([])
            # a use in the body is only hopeless when the assignment cannot come from an earlier turn either
            end = self.stmts(s.body, inner)
            brk = self.loops.pop()
            out = self.join(st, first, end, {x for x, _ in more} | st)
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            after = self.stmts(s.orelse, out) if s.orelse and not forever else (None if forever else out)
            return self.join(after, *brk)
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops and isinstance(s, ast.Break):
                self.loops[-1].append(st)
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                self.uses(it.context_expr, st)
                if it.optional_vars is not None:
                    self.bindt(it.optional_vars, st)
            more, _, _ = scope_bindings(s.body)
            end = self.stmts(s.body, st)
            return self.join(end, st | {x for x, _ in more})
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            more, _, _ = scope_bindings(s.body)
            end = self.stmts(s.body, set(st))
            mid = st | {x for x, _ in more}
            outs = [self.stmts(s.orelse, end) if end is not None else None]
            for h in s.handlers:
                h0 = set(mid)
                self.uses(h.type, h0)
                if h.name:
                    h0.add(h.name)
                o = self.stmts(h.body, h0)
                if o is not None and h.name:
                    o.discard(h.name)
                outs.append(o)
            out = self.join(*outs)
            if s.finalbody:
                every = set(mid)
                for part in [s.orelse] + [h.body for h in s.handlers]:
                    every |= {x for x, _ in scope_bindings(part)[0]}
                f = self.stmts(s.finalbody, self.join(every, out))
                if out is None or f is None:
                    return None
                return f
            return out
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if t.id in self.locals and t.id not in st:
                        self.bad.setdefault((t.id, t.lineno), t)
                    st.discard(t.id)
                else:
                    self.uses(t, st)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for al in s.names:
                st.add(al.asname or al.name.split(".")[0])
            return st
        if isinstance(s, ast.Match):
            self.uses(s.subject, st)
            outs = [set(st)]
            for c in s.cases:
                c0 = set(st)
                out = []
                pattern_names(c.pattern, out)
                c0 |= {x for x, _ in out}
                self.uses(c.guard, c0)
                outs.append(self.stmts(c.body, c0))
            return self.join(*outs)
        if isinstance(s, ast.Assert):
            self.uses(s.test, st)
            self.uses(s.msg, set(st))
            return st
        for c in ast.iter_child_nodes(s):
            self.uses(c, st)
        return st


def static(R):
    R.scene = "every module"
    pkg = Package(Hn.ROOT)
    if not pkg.files:
        raise Hn.AnchorLost("no source files below src")
    for m, e in pkg.broken:
        R.add("modules parse", "violated", f"{m.rel} does not parse: {e.msg} (line {e.lineno})", (m.rel, e.lineno or 0, "<module>"))
    tot = {}
    for name in sorted(pkg.mods):
        m = pkg.mods[name]
        if m.tree is None:
            continue
        R.scene = m.rel
        bad = []
        seen = set()

        def report(rule, status, detail, loc):
            if (rule, detail, loc) not in seen:
                seen.add((rule, detail, loc))
                bad.append(rule)
                R.add(rule, status, detail, loc)
        sc = Scanner(pkg, m, report)
        sc.run()
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                R.analysed.add((m.rel, sc.where(n)))
        for rule, k in (("names resolve", "names"), ("attributes resolve", "attrs"), ("calls agree with signatures", "calls"),
                        ("imports resolve", "imports"), ("locals are assigned before use", "functions")):
            tot[k] = tot.get(k, 0) + sc.n[k]
            if rule not in bad:
                R.add(rule, "held")
    R.notes.append("resolved " + ", ".join(f"{v} {k}" for k, v in sorted(tot.items())) + f" in {len(pkg.files)} files")
    return pkg


def load(R, name):
    """the abstract import of a module on its own"""
    try:
        S = Hn.Scene(None, modules=(name,))
    except Hn.AnchorLost as e:
        R.add("every module imports", "violated", f"importing {name}: {e}", (name.replace(".", "/") + ".py", 0, "<module>"))
        return
    R.no_raise("every module imports", S.load_result, what=f"importing {name}")
    R.saw(S)


def probe_one(pid, tier):
    """the faults that escape, or are hidden in the causes of what escapes, in every run another check analyses"""
    from . import run as Rn
    seen = {}
    runs = [0]
    analysed = set()

    def probe(S, r):
        runs[0] += 1
        analysed.update(a for a in S.eng.analysed if a[0].startswith("src"))
        for x in r.raises:
            e, hops = x.exc.id if isinstance(x.exc, Ref) else None, 0
            while e is not None and hops < 8:
                f = S.eng.faults.get(e)
                if f is not None and f[2] and str(f[2][0]).startswith("src"):
                    key = (f[0], f[2])
                    if key not in seen:
                        w = D.sat(x.pc)
                        if w is not None and not Hn.tainted(w):
                            seen[key] = (f, repr(w))
                e, hops = S.eng.exc_context.get(e), hops + 1

    Hn.PROBE[0] = probe
    sub = Hn.Report(pid, tier)
    lost = ""
    try:
        Rn.CHECKS[pid](sub, tier)
    except Hn.AnchorLost as e:
        lost = str(e)
    finally:
        Hn.PROBE[0] = None
    bad = [(f[0], f[1], f[2], [Hn.fmt_loc(x) for x in f[3]], w) for f, w in seen.values()]
    return pid, runs[0], bad, sorted(analysed), lost


def probes(R, tier):
    import multiprocessing as mp
    from . import run as Rn
    ids = [p for p in sorted(Rn.CHECKS) if p != "C21"]
    ids.sort(key=lambda p: p not in ("C12", "C10", "C09", "C13", "C20"))
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for pid, runs, bad, analysed, lost in pool.starmap(probe_one, [(p, tier) for p in ids], chunksize=1):
            R.scene = "runs analysed for " + pid
            R.analysed |= set(map(tuple, analysed))
            rule = "no analysed run faults"
            for name, msg, loc, stack, w in bad:
                R.add(rule, "violated", f"{name}: {msg} {w}", loc, dict(stack=stack))
            if lost:
                R.add(rule, "undecided", lost)
            elif not bad:
                R.add(rule, "held", f"{runs} runs")


def c21(R, tier):
    pkg = static(R)
    broken = {m.name for m, _ in pkg.broken}
    for name in sorted(pkg.mods):
        if pkg.mods[name].path is None or name in broken:
            continue
        R.block("import " + name, load, R, name)
    if not os.environ.get("ACTCHECK_STATIC_ONLY"):      # development only (tools/mutate.py)
        probes(R, tier)
    R.assumptions = ["library members are those of the installed jax, flax and numpy (actcheck/libnames.json)",
                     "annotations naming a package class are trusted where the value is neither reassigned nor tested for its type"]
