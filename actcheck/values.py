"""Abstract values. Python constants (None, bool, int, float, str, bytes, Ellipsis,
tuples of values, slices) stand for themselves; everything else is below."""
from . import domain as D


class Value:
    __slots__ = ()


class TensorV(Value):
    """shape: tuple of ints (representatives), dtype: name, node: generic element."""
    __slots__ = ("shape", "dtype", "weak", "node", "loc", "tracer", "np", "low")

    def __init__(self, shape, dtype, node, weak=False, loc=None, tracer=False, np=False, low=()):
        self.low = low          # what happened to the value on the way, see J.through: (from, to, site, kind)
        self.shape = tuple(shape)
        self.dtype = dtype
        self.node = node
        self.weak = weak
        self.loc = loc
        self.tracer = tracer
        self.np = np

    def __repr__(self):
        return f"Tensor<{self.dtype}{list(self.shape)}>({self.node!r})"


def lows(*vs):
    """the narrowing conversions the values went through"""
    out = ()
    for v in vs:
        x = v.low if isinstance(v, TensorV) else ()
        if x and x != out:
            out += tuple(y for y in x if y not in out)
    return out


class ScalarV(Value):
    """A symbolic python number."""
    __slots__ = ("node", "kind")

    def __init__(self, node, kind="float"):
        self.node = node
        self.kind = kind

    def __repr__(self):
        return f"Scalar<{self.kind}>({self.node!r})"


class BoolV(Value):
    """A symbolic python bool."""
    __slots__ = ("node",)

    def __init__(self, node):
        self.node = node

    def __repr__(self):
        return f"Bool({self.node!r})"


class StrV(Value):
    """A string of which only some parts are known: parts are str or ('opq', key)."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "Str(" + "".join(p if isinstance(p, str) else "{?}" for p in self.parts) + ")"


class Ref(Value):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"Ref({self.id})"


class PhiV(Value):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b

    def __repr__(self):
        return f"Phi({self.cond!r} ? {self.a!r} : {self.b!r})"


class UnknownV(Value):
    __slots__ = ("why", "loc")

    def __init__(self, why, loc=None):
        self.why = why
        self.loc = loc

    def __repr__(self):
        return f"Unknown({self.why})"


class _Unbound(Value):
    __slots__ = ()

    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unbound()


class FuncV(Value):
    __slots__ = ("node", "name", "qual", "module", "closure", "defaults", "kwdefaults", "defcls", "flags", "attrs",
                 "scope")

    def __init__(self, node, name, qual, module, closure, defaults, kwdefaults, defcls, scope):
        self.node = node
        self.name = name
        self.qual = qual
        self.module = module
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.defcls = defcls
        self.flags = set()
        self.attrs = {}
        self.scope = scope

    def __repr__(self):
        return f"<function {self.qual}>"


class BoundV(Value):
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return f"<bound {self.func!r} of {self.self!r}>"


class BuiltinV(Value):
    """fn(eng, args, kwargs) -> value"""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class PropertyV(Value):
    __slots__ = ("fget", "fset", "cached")

    def __init__(self, fget, fset=None, cached=False):
        self.fget = fget
        self.fset = fset
        self.cached = cached


class StaticV(Value):
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ClassMethodV(Value):
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class PartialV(Value):
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = tuple(args)
        self.kwargs = dict(kwargs)


class ClassV(Value):
    __slots__ = ("name", "qual", "module", "bases", "mro", "ns", "node", "dataclass", "enum", "members", "abstract",
                 "annotations", "flags")

    def __init__(self, name, qual, module, bases, ns, node):
        self.name = name
        self.qual = qual
        self.module = module
        self.bases = bases
        self.ns = ns            # dict name -> value (class creation is static; later writes go here too)
        self.node = node
        self.dataclass = None   # list of (name, default or NODEFAULT, factory)
        self.enum = False
        self.members = {}
        self.abstract = set()
        self.annotations = []
        self.flags = {}
        self.mro = c3(self)

    def __repr__(self):
        return f"<class {self.qual}>"


class ExtClassV(Value):
    """A class of the host language or of a library."""
    __slots__ = ("name", "host", "mro_")

    def __init__(self, name, host=None):
        self.name = name
        self.host = host

    @property
    def mro(self):
        return [self]

    def __repr__(self):
        return f"<extclass {self.name}>"


def c3(cls):
    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise TypeError("inconsistent mro")
            out.append(c)
            seqs = [[x for x in t if x is not c] for t in seqs]
            seqs = [t for t in seqs if t]
        return out
    return [cls] + merge([list(b.mro) for b in cls.bases] + [list(cls.bases)])


class EnumV(Value):
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls = cls
        self.name = name
        self.value = value

    def __repr__(self):
        return f"<{self.cls.name}.{self.name}>"


class ModuleV(Value):
    __slots__ = ("name", "path", "env", "tree", "ispkg", "state")

    def __init__(self, name, path, env, tree, ispkg):
        self.name = name
        self.path = path
        self.env = env
        self.tree = tree
        self.ispkg = ispkg
        self.state = "loading"

    def __repr__(self):
        return f"<module {self.name}>"


class ExtV(Value):
    """A module, function or object of a library, by dotted path."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<ext {self.path}>"

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class DTypeV(Value):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, DTypeV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"dtype({self.name})"


class TreeDefV(Value):
    """kind: leaf none tuple list dict custom; data: keys / (cls, aux) ; children: tuple"""
    __slots__ = ("kind", "data", "children")

    def __init__(self, kind, data=None, children=()):
        self.kind = kind
        self.data = data
        self.children = tuple(children)

    def num_leaves(self):
        if self.kind == "leaf":
            return 1
        return sum(c.num_leaves() for c in self.children)

    def num_nodes(self):
        return 1 + sum(c.num_nodes() for c in self.children)

    def __repr__(self):
        if self.kind == "leaf":
            return "*"
        d = "" if self.data is None else f"[{self.data!r}]"
        return f"{self.kind}{d}({', '.join(map(repr, self.children))})"


class SuperV(Value):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class JitV(Value):
    __slots__ = ("func", "static_nums", "static_names", "kind")

    def __init__(self, func, kind, static_nums=(), static_names=()):
        self.func = func
        self.kind = kind         # 'jit' | 'checkify' | 'vmap' | 'custom_jvp' ...
        self.static_nums = static_nums
        self.static_names = static_names


class ErrorV(Value):
    """checkify.Error: node is true where some check failed"""
    __slots__ = ("node", "locs")

    def __init__(self, node, locs=()):
        self.node = node
        self.locs = tuple(locs)


class AtV(Value):
    __slots__ = ("tensor", "idx")

    def __init__(self, tensor, idx=None):
        self.tensor = tensor
        self.idx = idx


class OpaqueFn(Value):
    """An arbitrary pure function supplied by the user: handler(eng, args, kwargs)."""
    __slots__ = ("name", "handler")

    def __init__(self, name, handler):
        self.name = name
        self.handler = handler


# ---------------------------------------------------------------- heap cells


class Cell:
    __slots__ = ()


class ListCell(Cell):
    __slots__ = ("items",)
    kind = "list"

    def __init__(self, items):
        self.items = tuple(items)


class DictCell(Cell):
    __slots__ = ("items", "default")
    kind = "dict"

    def __init__(self, items, default=None):
        self.items = items          # dict hkey -> (key, value), never mutated in place
        self.default = default      # defaultdict factory


class ViewCell(Cell):
    """the attribute dictionary of an object: reads and writes go to the object"""
    __slots__ = ("obj",)
    kind = "dict"

    def __init__(self, obj):
        self.obj = obj


class SetCell(Cell):
    __slots__ = ("items", "fz")
    kind = "set"

    def __init__(self, items, fz=False):
        self.items = items          # dict hkey -> key
        self.fz = fz


class ObjCell(Cell):
    __slots__ = ("cls", "attrs", "extra")
    kind = "obj"

    def __init__(self, cls, attrs, extra=None):
        self.cls = cls
        self.attrs = attrs
        self.extra = extra          # exceptions: args tuple

    @property
    def nt(self):
        """the items of an instance of a tuple subclass"""
        return self.attrs.get("__nt__")


class IterCell(Cell):
    __slots__ = ("items", "pos", "name")
    kind = "iter"

    def __init__(self, items, pos=0, name="iterator"):
        self.items = tuple(items)
        self.pos = pos
        self.name = name


class EnvCell(Cell):
    __slots__ = ("vars",)
    kind = "env"

    def __init__(self, vars):
        self.vars = vars


class AltCell(Cell):
    __slots__ = ("cond", "a", "b")
    kind = "alt"

    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b


class MissingCell(Cell):
    kind = "missing"
    __slots__ = ()
