"""Models of python's built-in types, functions and class machinery."""
import ast
import builtins as hostb
import textwrap as host_textwrap

from . import domain as D
from .values import *

NODEFAULT = object()

EXT = {}


def extcls(name, host=None):
    c = EXT.get(name)
    if c is None:
        c = EXT[name] = ExtClassV(name, host)
    return c


OBJECT = extcls("object", object)
TYPE = extcls("type", type)
NONETYPE = extcls("NoneType", type(None))
for _n in ("int", "float", "bool", "str", "bytes", "complex", "list", "dict", "tuple", "set", "frozenset", "slice",
           "range", "property", "staticmethod", "classmethod", "super", "enumerate", "zip", "map", "filter", "reversed"):
    extcls(_n, getattr(hostb, _n))
for _n in dir(hostb):
    _o = getattr(hostb, _n)
    if isinstance(_o, type) and issubclass(_o, BaseException):
        extcls(_n, _o)


class ConcretizationTypeError(TypeError):
    pass


class JaxRuntimeError(ValueError):
    pass


class FrozenInstanceError(AttributeError):
    pass


extcls("ConcretizationTypeError", ConcretizationTypeError)
extcls("JaxRuntimeError", JaxRuntimeError)
extcls("FrozenInstanceError", FrozenInstanceError)
ARRAY = extcls("ArrayImpl")
TRACER = extcls("DynamicJaxprTracer")
PYTREEDEF = extcls("PyTreeDef")
FUNCTION = extcls("function")
MODULE_T = extcls("module")
FLAX_MODULE = extcls("flax.linen.Module")
GENERIC = extcls("typing.Generic")
NAMEDTUPLE = extcls("typing.NamedTuple")
ENUM = extcls("enum.Enum")
ABC = extcls("abc.ABC")


def exc_class(name):
    return EXT[name]


def is_exc_cls(c):
    return isinstance(c, ExtClassV) and isinstance(c.host, type) and issubclass(c.host, BaseException)


def is_subclass(eng, c, d):
    if isinstance(d, tuple):
        return any(is_subclass(eng, c, x) for x in d)
    if c is d or d is OBJECT:
        return True
    if c is TRACER and d is ARRAY:
        return True
    if isinstance(c, ClassV):
        return any(x is d or (isinstance(x, ExtClassV) and is_subclass(eng, x, d)) for x in c.mro[1:])
    if isinstance(c, ExtClassV) and isinstance(d, ExtClassV):
        if isinstance(c.host, type) and isinstance(d.host, type):
            return issubclass(c.host, d.host)
        return False
    if isinstance(d, ExtV):
        k = eng.J.EXT_CLASSES.get(d.path)
        if k is not None:
            return is_subclass(eng, c, k)
        return False
    if isinstance(c, ExtV):
        k = eng.J.EXT_CLASSES.get(c.path)
        return k is not None and is_subclass(eng, k, d)
    return False


def type_of(eng, v):
    if v is None:
        return NONETYPE
    if isinstance(v, bool) or isinstance(v, BoolV):
        return EXT["bool"]
    if isinstance(v, int):
        return EXT["int"]
    if isinstance(v, float):
        return EXT["float"]
    if isinstance(v, ScalarV):
        return EXT[v.kind]
    if isinstance(v, (str, StrV)):
        return EXT["str"]
    if isinstance(v, bytes):
        return EXT["bytes"]
    if isinstance(v, complex):
        return EXT["complex"]
    if isinstance(v, tuple):
        return EXT["tuple"]
    if isinstance(v, slice):
        return EXT["slice"]
    if isinstance(v, TensorV):
        return extcls("numpy.ndarray") if v.np else TRACER if v.tracer else ARRAY
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, ListCell):
            return EXT["list"]
        if isinstance(c, DictCell):
            return EXT["dict"] if c.default is None else extcls("defaultdict", dict)
        if isinstance(c, SetCell):
            return EXT["frozenset"] if c.fz else EXT["set"]
        if isinstance(c, ObjCell):
            return c.cls
        if isinstance(c, IterCell):
            return extcls(c.name)
    if isinstance(v, EnumV):
        return v.cls
    if isinstance(v, (ClassV, ExtClassV)):
        return TYPE
    if isinstance(v, TreeDefV):
        return PYTREEDEF
    if isinstance(v, (FuncV, BoundV, BuiltinV, PartialV, OpaqueFn, JitV)):
        return FUNCTION
    if isinstance(v, (ModuleV,)):
        return MODULE_T
    if isinstance(v, DTypeV):
        return extcls("dtype")
    if v is Ellipsis:
        return extcls("ellipsis")
    return extcls(type(v).__name__)


def type_name(eng, v):
    if isinstance(v, PhiV):
        return "?"
    t = type_of(eng, v)
    return t.name


def isinstance_(eng, v, cls):
    """python bool or node"""
    if isinstance(v, PhiV):
        return D.ite(v.cond, eng._node(isinstance_(eng, v.a, cls)), eng._node(isinstance_(eng, v.b, cls)))
    if isinstance(v, UnknownV):
        return eng.unknown_bool("isinstance of unknown: " + v.why)
    if isinstance(cls, tuple):
        out = D.FALSE
        for c in cls:
            out = D.bor(out, eng._node(isinstance_(eng, v, c)))
        return out is D.TRUE if out in (D.TRUE, D.FALSE) else out
    if isinstance(cls, UnknownV):
        return eng.unknown_bool("isinstance against unknown")
    if isinstance(cls, ExtV):
        return eng.J.ext_isinstance(eng, v, cls)
    if not isinstance(cls, (ClassV, ExtClassV)):
        eng.throw("TypeError", "isinstance() arg 2 must be a type")
    if cls is extcls("Callable") or cls.name == "Callable":
        return isinstance(v, (FuncV, BoundV, BuiltinV, PartialV, ClassV, OpaqueFn, JitV, ExtV))
    t = type_of(eng, v)
    return is_subclass(eng, t, cls)


# ------------------------------------------------------------------- strings


def to_str(eng, v, conv="s", spec=""):
    """str for known values, ('opq', ..) parts otherwise"""
    if isinstance(v, str):
        try:
            s = repr(v) if conv == "r" else v
            return format(s, spec) if isinstance(spec, str) else s
        except Exception:
            return s
    if v is None or isinstance(v, (bool, int, float, bytes)):
        try:
            return format(v, spec) if spec and isinstance(spec, str) else (repr(v) if conv == "r" else str(v))
        except Exception as x:
            eng.throw(type(x).__name__, str(x))
    if isinstance(v, StrV):
        return v
    if isinstance(v, tuple):
        ps = [to_str(eng, x, "r") for x in v]
        if all(isinstance(p, str) for p in ps):
            return "(" + ", ".join(ps) + ("," if len(ps) == 1 else "") + ")"
    if isinstance(v, DTypeV):
        return v.name
    if isinstance(v, EnumV):
        return f"{v.cls.name}.{v.name}"
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, ObjCell):
            m = eng.class_lookup_obj(v, "__repr__" if conv == "r" else "__str__")
            if m is UNBOUND and conv != "r":
                m = eng.class_lookup_obj(v, "__repr__")
            if m is not UNBOUND and not isinstance(m, BuiltinV):
                return eng.call(m, [v], {})
            if is_subclass(eng, c.cls, EXT["BaseException"]):
                if c.extra and len(c.extra) == 1:
                    return to_str(eng, c.extra[0])
        if isinstance(c, ListCell):
            ps = [to_str(eng, x, "r") for x in c.items]
            if all(isinstance(p, str) for p in ps):
                return "[" + ", ".join(ps) + "]"
    if isinstance(v, (ClassV, ExtClassV)):
        return f"<class '{v.name}'>"
    return StrV([("opq", opq_key(v))])


def opq_key(v):
    if isinstance(v, TensorV):
        return ("tensor", v.shape, v.dtype, v.node.id)
    if isinstance(v, ScalarV):
        return ("scalar", v.node.id)
    return (type(v).__name__, id(v) if not isinstance(v, Ref) else v.id)


def str_concat(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if out and isinstance(out[-1], str):
                out[-1] += p
            elif p:
                out.append(p)
        elif isinstance(p, StrV):
            for q in p.parts:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
        else:
            out.append(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return StrV(out)


def str_binop(eng, op, a, b):
    if op == "add" and isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
        return str_concat([a, b])
    if op == "mul" and isinstance(a, str) and isinstance(b, int):
        return a * b
    if op == "mul" and isinstance(b, str) and isinstance(a, int):
        return a * b
    if op == "mod" and isinstance(a, (str, StrV)):
        vals = list(b) if isinstance(b, tuple) else [b]
        if isinstance(a, str):
            import re
            parts = []
            pos = 0
            k = 0
            for m in re.finditer(r"%(\(\w+\))?[#0\- +]*[\d.]*([sdrfgex%])", a):
                parts.append(a[pos:m.start()])
                pos = m.end()
                if m.group(2) == "%":
                    parts.append("%")
                    continue
                if m.group(1):
                    parts.append(to_str(eng, eng.getitem(b, m.group(1)[1:-1])))
                    continue
                if k >= len(vals):
                    eng.throw("TypeError", "not enough arguments for format string")
                parts.append(to_str(eng, vals[k]))
                k += 1
            parts.append(a[pos:])
            if k < len(vals) and not isinstance(b, Ref):
                eng.throw("TypeError", "not all arguments converted during string formatting")
            return str_concat(parts)
        return StrV([("opq", "format")])
    eng.throw("TypeError", f"unsupported operand types for {op}: {type_name(eng, a)} and {type_name(eng, b)}")


# ---------------------------------------------------------------- containers


def hkey(eng, v):
    if is_const(v):
        return ("c", v) if not isinstance(v, str) else ("s", v)
    if isinstance(v, tuple):
        return ("t",) + tuple(hkey(eng, x) for x in v)
    if isinstance(v, EnumV):
        if v.cls.flags.get("mixin") and isinstance(v.value, str):
            return ("s", v.value)
        return ("e", v.cls.qual, v.name)
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, (ListCell, DictCell)) or (isinstance(c, SetCell) and not c.fz):
            eng.throw("TypeError", "unhashable type")
        if isinstance(c, ObjCell) and isinstance(c.cls, ClassV):
            for k in c.cls.mro:
                if isinstance(k, ClassV):
                    if "__hash__" in k.ns:
                        from .interp import Undecided
                        raise Undecided("hash defined by a class", eng.loc())
                    if "__eq__" in k.ns or k.dataclass is not None and k.flags.get("eq", True) and not k.flags.get("frozen"):
                        eng.throw("TypeError", f"unhashable type: '{c.cls.name}'")
        return ("r", v.id)
    if isinstance(v, TensorV):
        eng.throw("TypeError", "unhashable type: array")
    if isinstance(v, (ClassV, ExtClassV, FuncV, BuiltinV, ModuleV)):
        return ("o", id(v))
    if isinstance(v, (ExtV,)):
        return ("x", v.path)
    if isinstance(v, DTypeV):
        return ("d", v.name)
    if isinstance(v, StrV):
        return ("sv",) + v.parts
    if isinstance(v, ScalarV):
        return ("n", v.node.id)
    if isinstance(v, TreeDefV):
        return ("td", repr(v))
    if isinstance(v, BoundV):
        return ("b", id(v.func), hkey(eng, v.self) if isinstance(v.self, Ref) else id(v.self))
    from .interp import Undecided
    raise Undecided(f"hash of {v!r}", eng.loc())


def is_const(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes, complex)) or v is Ellipsis


def iterate(eng, v):
    from .interp import Undecided
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, str):
        return list(v)
    if isinstance(v, range):
        return list(v)
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, ListCell):
            return list(c.items)
        if isinstance(c, DictCell):
            return [k for k, _ in c.items.values()]
        if isinstance(c, SetCell):
            return list(c.items.values())
        if isinstance(c, IterCell):
            items = list(c.items[c.pos:])
            eng.heap[v.id] = IterCell(c.items, len(c.items), c.name)
            return items
        if isinstance(c, ObjCell):
            m = eng.class_lookup_obj(v, "__iter__")
            if m is not UNBOUND:
                return iterate(eng, eng.call(m, [v], {}))
            if c.nt is not None:
                return list(c.nt)
        if isinstance(c, AltCell):
            raise Undecided("iteration over a gated container", eng.loc())
    if isinstance(v, ClassV) and v.enum:
        return list(v.members.values())
    if isinstance(v, TensorV):
        if not v.shape:
            eng.throw("TypeError", "iteration over a 0-d array")
        return [eng.J.index_static(eng, v, i) for i in range(v.shape[0])]
    if isinstance(v, PhiV):
        raise Undecided("iteration over a gated value", eng.loc())
    if isinstance(v, UnknownV):
        raise Undecided("iteration over an unknown value: " + v.why, eng.loc())
    if isinstance(v, StrV):
        raise Undecided("iteration over an opaque string", eng.loc())
    eng.throw("TypeError", f"{type_name(eng, v)} object is not iterable")


def mapping_items(eng, v):
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, DictCell):
            return [(k, x) for k, x in c.items.values()]
        if isinstance(c, ObjCell):
            m = eng.class_lookup_obj(v, "keys")
            if m is not UNBOUND:
                ks = iterate(eng, eng.call(m, [v], {}))
                return [(k, eng.getitem(v, k)) for k in ks]
    eng.throw("TypeError", "argument must be a mapping")


def norm_index(eng, k, n, what="list"):
    if isinstance(k, bool):
        k = int(k)
    if isinstance(k, TensorV):
        k = eng.J.concretize_int(eng, k)
    if not isinstance(k, int):
        if isinstance(k, (ScalarV, UnknownV)):
            from .interp import Undecided
            raise Undecided("symbolic sequence index", eng.loc())
        eng.throw("TypeError", f"{what} indices must be integers or slices")
    if k < -n or k >= n:
        eng.throw("IndexError", f"{what} index out of range")
    return k


def getitem1(eng, o, k):
    if isinstance(o, UnknownV) or isinstance(k, UnknownV):
        return eng.unknown("item of unknown")
    if isinstance(o, ExtV) and o.path == "os.environ":
        return eng.J.environment(eng, k)[1]
    if isinstance(o, tuple):
        if isinstance(k, slice):
            return o[k]
        return o[norm_index(eng, k, len(o), "tuple")]
    if isinstance(o, str):
        if isinstance(k, slice):
            return o[k]
        return o[norm_index(eng, k, len(o), "string")]
    if isinstance(o, StrV):
        return StrV([("opq", ("item", repr(o), repr(k)))])
    if isinstance(o, TensorV):
        return eng.J.tensor_index(eng, o, k)
    if isinstance(o, AtV):
        return AtV(o.tensor, (k,))
    if isinstance(o, Ref):
        c = eng.cell(o)
        if isinstance(c, ListCell):
            if isinstance(k, slice):
                return eng.new_list(c.items[k])
            return c.items[norm_index(eng, k, len(c.items))]
        if isinstance(c, DictCell):
            h = hkey(eng, k)
            if h in c.items:
                return c.items[h][1]
            if c.default is not None:
                v = eng.call(c.default, [], {})
                setitem1(eng, o, k, v)
                return v
            eng.throw("KeyError", k)
        if isinstance(c, ObjCell):
            m = eng.class_lookup_obj(o, "__getitem__")
            if m is not UNBOUND:
                return eng.call(m, [o, k], {})
            if c.nt is not None:
                return getitem1(eng, c.nt, k)
    if isinstance(o, ClassV):
        if o.enum:
            if isinstance(k, str) and k in o.members:
                return o.members[k]
            eng.throw("KeyError", k)
        m = eng.class_lookup(o, "__class_getitem__")
        return o
    if isinstance(o, (ExtV, ExtClassV)):
        return o if not isinstance(o, ExtV) else eng.J.ext_getitem(eng, o, k)
    if isinstance(o, (range,)):
        return o[k]
    eng.throw("TypeError", f"{type_name(eng, o)} object is not subscriptable")


def setitem1(eng, o, k, v):
    if isinstance(o, UnknownV):
        eng.unknown("store into unknown")
        return
    if isinstance(o, Ref):
        c = eng.cell(o)
        if isinstance(c, DictCell):
            h = hkey(eng, k)
            d = dict(c.items)
            d[h] = (d[h][0] if h in d else k, v)
            eng.mutate(o, DictCell(d, c.default), "item assignment")
            return
        if isinstance(c, ListCell):
            items = list(c.items)
            if isinstance(k, slice):
                items[k] = iterate(eng, v)
            else:
                items[norm_index(eng, k, len(items))] = v
            eng.mutate(o, ListCell(items), "item assignment")
            return
        if isinstance(c, ObjCell):
            m = eng.class_lookup_obj(o, "__setitem__")
            if m is not UNBOUND:
                eng.call(m, [o, k, v], {})
                return
    if isinstance(o, TensorV) and o.np:
        from .interp import Undecided
        raise Undecided("store into a numpy array", eng.loc())
    eng.throw("TypeError", f"'{type_name(eng, o)}' object does not support item assignment")


def delitem1(eng, o, k):
    if isinstance(o, Ref):
        c = eng.cell(o)
        if isinstance(c, DictCell):
            h = hkey(eng, k)
            if h not in c.items:
                eng.throw("KeyError", k)
            d = dict(c.items)
            del d[h]
            eng.mutate(o, DictCell(d, c.default), "item deletion")
            return
        if isinstance(c, ListCell):
            items = list(c.items)
            try:
                del items[k]
            except IndexError:
                eng.throw("IndexError", "list assignment index out of range")
            eng.mutate(o, ListCell(items), "item deletion")
            return
        m = eng.class_lookup_obj(o, "__delitem__")
        if m is not UNBOUND:
            eng.call(m, [o, k], {})
            return
    eng.throw("TypeError", "object doesn't support item deletion")


def dict_update(eng, ref, args, kwargs):
    c = eng.cell(ref)
    d = dict(c.items)
    for a in args:
        if isinstance(a, UnknownV):
            from .interp import Undecided
            raise Undecided("dict update from unknown", eng.loc())
        if isinstance(a, Ref) and (isinstance(eng.cell(a), DictCell) or
                                   eng.class_lookup_obj(a, "keys") is not UNBOUND):
            pairs = mapping_items(eng, a)
        else:
            pairs = [tuple(iterate(eng, p)) for p in iterate(eng, a)]
        for k, v in pairs:
            h = hkey(eng, k)
            d[h] = (d[h][0] if h in d else k, v)
    for k, v in kwargs.items():
        d[("s", k)] = (k, v)
    eng.mutate(ref, DictCell(d, c.default), "update")


# ------------------------------------------------------------ attribute access


def bind_attr(eng, raw, obj, cls):
    """descriptor binding of a class attribute fetched through an instance"""
    if isinstance(raw, (FuncV, BuiltinV, JitV)):
        return BoundV(raw, obj)
    if isinstance(raw, PropertyV):
        v = eng.call(raw.fget, [obj], {})
        return v
    if isinstance(raw, StaticV):
        return raw.func
    if isinstance(raw, ClassMethodV):
        return BoundV(raw.func, cls)
    if isinstance(raw, PartialV) and "partialmethod" in raw.kwargs:
        kw = dict(raw.kwargs)
        kw.pop("partialmethod")
        return PartialV(raw.func, (obj,) + raw.args, kw)
    if isinstance(raw, Ref):
        m = eng.class_lookup_obj(raw, "__get__")
        if m is not UNBOUND:
            return eng.call(m, [raw, obj, cls], {})
    return raw


def missing_attr(eng, o, name, default):
    if default is not UNBOUND:
        return default
    known = isinstance(o, (TensorV, ModuleV, ClassV)) or isinstance(o, Ref) and isinstance(eng.cell(o), ObjCell)
    eng.throw("AttributeError", f"'{type_name(eng, o)}' object has no attribute '{name}'", fault=known)


def getattr1(eng, o, name, default=UNBOUND):
    if isinstance(o, UnknownV):
        return eng.unknown(f"attribute {name} of unknown: {o.why}")
    if isinstance(o, TensorV):
        v = eng.J.tensor_attr(eng, o, name)
        return missing_attr(eng, o, name, default) if v is UNBOUND else v
    if isinstance(o, Ref):
        c = eng.cell(o)
        if isinstance(c, ObjCell):
            if name == "__dict__":
                return eng.new(ViewCell(o))
            if name == "__class__":
                return c.cls
            raw = eng.class_lookup(c.cls, name)
            if isinstance(raw, PropertyV) and not (raw.cached and name in c.attrs):
                v = bind_attr(eng, raw, o, c.cls)
                if raw.cached:
                    cc = eng.cell(o)
                    at = dict(cc.attrs)
                    at[name] = v
                    eng.put(o, ObjCell(cc.cls, at, cc.extra))
                return v
            if name in c.attrs:
                v = c.attrs[name]
                if isinstance(v, PhiV):
                    return eng._resolve_unbound(v, name)
                return v
            if raw is not UNBOUND:
                return bind_attr(eng, raw, o, c.cls)
            if is_subclass(eng, c.cls, EXT["BaseException"]):
                if name == "args":
                    return tuple(c.extra or ())
                if name in ("__traceback__", "__cause__", "__context__"):
                    return c.attrs.get(name)
            if c.nt is not None:
                if name in ("index", "count"):
                    return getattr1(eng, c.nt, name, default)
                if c.cls.flags.get("namedtuple"):
                    fs = [f[0] for f in c.cls.dataclass]
                    if name == "_fields":
                        return tuple(fs)
                    if name == "_asdict":
                        return BuiltinV(name, lambda e, a, k: e.new_dict(zip(fs, c.nt)))
                    if name == "_replace":
                        return BuiltinV(name, lambda e, a, k: instantiate(e, c.cls, [], {**dict(zip(fs, c.nt)), **k}))
            ga = eng.class_lookup(c.cls, "__getattr__")
            if ga is not UNBOUND:
                return eng.call(ga, [o, name], {})
            return missing_attr(eng, o, name, default)
        tab = METHODS.get(c.kind, {})
        if name in tab:
            return BoundV(BuiltinV(name, tab[name]), o)
        if name == "__class__":
            return type_of(eng, o)
        if name == "default_factory" and isinstance(c, DictCell):
            return c.default
        return missing_attr(eng, o, name, default)
    if isinstance(o, (str, StrV)):
        if hasattr(str, name):
            return BuiltinV("str." + name, lambda e, a, k: str_method(e, o, name, a, k))
        return missing_attr(eng, o, name, default)
    if isinstance(o, tuple):
        if name in ("index", "count"):
            return BuiltinV(name, lambda e, a, k: METHODS["list"][name](e, [e.new_list(o)] + a, k))
        return missing_attr(eng, o, name, default)
    if isinstance(o, (bool, int, float, complex)):
        if name in ("real", "imag", "numerator", "denominator"):
            return getattr(o, name)
        if name == "__class__":
            return type_of(eng, o)
        if hasattr(o, name):
            return BuiltinV(name, lambda e, a, k: getattr(o, name)(*a))
        return missing_attr(eng, o, name, default)
    if isinstance(o, (ScalarV, BoolV)):
        if name == "is_integer":
            return BuiltinV(name, lambda e, a, k: BoolV(D.opq("is_integer", o.node)))
        return missing_attr(eng, o, name, default)
    if isinstance(o, ClassV):
        return class_attr(eng, o, name, default)
    if isinstance(o, ModuleV):
        v = eng.module_get(o, name)
        if v is UNBOUND:
            sub = eng.modules.get(o.name + "." + name)
            if sub is not None:
                return sub
            if default is not UNBOUND:
                return default
            eng.throw("AttributeError", f"module '{o.name}' has no attribute '{name}'", fault=True)
        return v
    if isinstance(o, ExtV):
        v = eng.J.ext_attr(eng, o, name)
        return missing_attr(eng, o, name, default) if v is UNBOUND else v
    if isinstance(o, SuperV):
        return super_attr(eng, o, name, default)
    if isinstance(o, EnumV):
        if name in ("value", "_value_"):
            return o.value
        if name in ("name", "_name_"):
            return o.name
        raw = eng.class_lookup(o.cls, name)
        if raw is not UNBOUND:
            return bind_attr(eng, raw, o, o.cls)
        if o.cls.flags.get("mixin") and isinstance(o.value, str):
            return getattr1(eng, o.value, name, default)
        return missing_attr(eng, o, name, default)
    if isinstance(o, FuncV):
        if name in o.attrs:
            return o.attrs[name]
        if name == "__name__":
            return o.name
        if name == "__qualname__":
            return o.qual
        if name in ("__doc__", "__module__", "__annotations__"):
            return None
        if name == "__call__":
            return o
        if name == "__defaults__":
            return tuple(o.defaults)
        return missing_attr(eng, o, name, default)
    if isinstance(o, BoundV):
        if name == "__self__":
            return o.self
        if name == "__func__":
            return o.func
        return getattr1(eng, o.func, name, default)
    if isinstance(o, DTypeV):
        v = eng.J.dtype_attr(eng, o, name)
        return missing_attr(eng, o, name, default) if v is UNBOUND else v
    if isinstance(o, TreeDefV):
        v = eng.J.treedef_attr(eng, o, name)
        return missing_attr(eng, o, name, default) if v is UNBOUND else v
    if isinstance(o, ExtClassV):
        if name in ("__name__", "__qualname__"):
            return o.name
        v = extclass_attr(eng, o, name)
        if v is UNBOUND:
            return missing_attr(eng, o, name, default)
        return v
    if isinstance(o, AtV):
        return eng.J.at_attr(eng, o, name)
    if isinstance(o, ErrorV):
        v = eng.J.error_attr(eng, o, name)
        return missing_attr(eng, o, name, default) if v is UNBOUND else v
    if isinstance(o, PropertyV):
        if name == "setter":
            return BuiltinV("setter", lambda e, a, k: PropertyV(o.fget, a[0]))
        if name == "getter":
            return BuiltinV("getter", lambda e, a, k: PropertyV(a[0], o.fset))
        if name == "deleter":
            return BuiltinV("deleter", lambda e, a, k: o)
        if name == "fget":
            return o.fget
    if isinstance(o, PartialV):
        if name == "func":
            return o.func
        if name == "args":
            return o.args
        if name == "keywords":
            return eng.new_dict(o.kwargs.items())
    if isinstance(o, (JitV,)):
        if name == "__wrapped__":
            return o.func
        if o.kind.startswith("custom") and name in ("defjvp", "defvjp", "defjvps"):
            return BuiltinV(name, lambda e, a, k: a[0] if a else None)
        if name == "lower":
            return BuiltinV("lower", lambda e, a, k: e.unknown("lowered function"))
        return missing_attr(eng, o, name, default)
    if isinstance(o, BuiltinV):
        if name == "__name__":
            return o.name
        if name in o_attrs(o):
            return o_attrs(o)[name]
        return missing_attr(eng, o, name, default)
    if isinstance(o, slice):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
    if isinstance(o, range) and name in ("start", "stop", "step"):
        return getattr(o, name)
    if o is None or o is Ellipsis or isinstance(o, bytes):
        if name == "__class__":
            return type_of(eng, o)
        return missing_attr(eng, o, name, default)
    return missing_attr(eng, o, name, default)


def o_attrs(o):
    return getattr(o.fn, "attrs", {}) if hasattr(o.fn, "attrs") else {}


def class_attr(eng, cls, name, default=UNBOUND):
    if cls.enum and name in cls.members:
        return cls.members[name]
    if name in ("__name__",):
        return cls.name
    if name == "__qualname__":
        return cls.qual
    if name == "__mro__":
        return tuple(cls.mro)
    if name == "__members__" and cls.enum:
        return eng.new_dict(cls.members.items())
    if name in ("__doc__", "__module__"):
        return cls.ns.get(name)
    if name == "__dict__":
        return eng.new_dict(cls.ns.items())
    if name == "__annotations__":
        return eng.new_dict(cls.annotations)
    if name == "__bases__":
        return tuple(cls.bases)
    raw = eng.class_lookup(cls, name)
    if raw is UNBOUND:
        if name == "__dataclass_fields__" and cls.dataclass is not None:
            return eng.new_dict((n, field_obj(eng, n)) for n, *_ in cls.dataclass)
        if default is not UNBOUND:
            return default
        eng.throw("AttributeError", f"type object '{cls.name}' has no attribute '{name}'", fault=True)
    if isinstance(raw, StaticV):
        return raw.func
    if isinstance(raw, ClassMethodV):
        return BoundV(raw.func, cls)
    return raw


def super_attr(eng, s, name, default=UNBOUND):
    obj = s.obj
    if isinstance(obj, Ref):
        cls = eng.cell(obj).cls
    elif isinstance(obj, (EnumV,)):
        cls = obj.cls
    else:
        cls = obj
    raw = eng.class_lookup(cls, name, after=s.cls)
    if raw is UNBOUND:
        raw = extclass_attr(eng, OBJECT, name)
    if raw is UNBOUND:
        if default is not UNBOUND:
            return default
        eng.throw("AttributeError", f"'super' object has no attribute '{name}'")
    if isinstance(raw, (FuncV, BuiltinV)):
        if name == "__new__":
            return raw
        return BoundV(raw, obj)
    return bind_attr(eng, raw, obj, cls)


def obj_setattr(eng, args, kw):
    o, name, v = args
    if not isinstance(o, Ref):
        eng.throw("TypeError", "can't set attributes")
    return raw_setattr(eng, o, name, v)


def raw_setattr(eng, o, name, v):
    c = eng.cell(o)
    raw = eng.class_lookup(c.cls, name)
    if isinstance(raw, PropertyV) and not raw.cached:
        if raw.fset is None:
            eng.throw("AttributeError", f"property '{name}' of '{c.cls.name}' object has no setter")
        eng.call(raw.fset, [o, v], {})
        return
    slots = [k.ns.get("__slots__") for k in c.cls.mro if isinstance(k, ClassV)]
    at = dict(c.attrs)
    at[name] = v
    eng.mutate(o, ObjCell(c.cls, at, c.extra), f"assignment of attribute '{name}'")


def setattr1(eng, o, name, v):
    if isinstance(o, Ref):
        c = eng.cell(o)
        if isinstance(c, ObjCell):
            sa = eng.class_lookup(c.cls, "__setattr__")
            if sa is not UNBOUND and not isinstance(sa, BuiltinV):
                eng.call(sa, [o, name, v], {})
                return
            if isinstance(c.cls, ClassV) and c.cls.flags.get("frozen"):
                eng.throw("FrozenInstanceError", f"cannot assign to field '{name}'")
            raw_setattr(eng, o, name, v)
            return
        eng.throw("AttributeError", f"cannot set '{name}'")
    if isinstance(o, FuncV):
        o.attrs[name] = eng.gated(v, o.attrs.get(name, UNBOUND))
        return
    if isinstance(o, ClassV):
        if not eng.in_module_load:
            eng.event("mutate", f"assignment of class attribute '{o.name}.{name}'")
            v = eng.gated(v, o.ns.get(name, UNBOUND))
        o.ns[name] = v
        return
    if isinstance(o, ModuleV):
        eng.env_set(o.env, name, v)
        return
    if isinstance(o, UnknownV):
        return
    eng.throw("AttributeError", f"'{type_name(eng, o)}' object has no attribute '{name}'")


def delattr1(eng, o, name):
    if isinstance(o, Ref):
        c = eng.cell(o)
        if isinstance(c, ObjCell):
            m = eng.class_lookup(c.cls, "__delattr__")
            if m is not UNBOUND and not isinstance(m, BuiltinV):
                eng.call(m, [o, name], {})
                return
            if name not in c.attrs:
                eng.throw("AttributeError", name)
            at = dict(c.attrs)
            del at[name]
            eng.mutate(o, ObjCell(c.cls, at, c.extra), f"deletion of attribute '{name}'")
            return
    eng.throw("AttributeError", name)


def _noop_init(eng, a, k):
    return None


def _obj_new(eng, a, k):
    return eng.new(ObjCell(a[0], {}))


def _exc_init(eng, a, k):
    o = a[0]
    c = eng.cell(o)
    eng.put(o, ObjCell(c.cls, c.attrs, tuple(a[1:])))


OBJ_ATTRS = {
    "__init__": BuiltinV("__init__", _noop_init),
    "__setattr__": BuiltinV("__setattr__", obj_setattr),
    "__getattribute__": BuiltinV("__getattribute__", lambda e, a, k: getattr1(e, a[0], a[1])),
    "__delattr__": BuiltinV("__delattr__", lambda e, a, k: raw_delattr(e, a[0], a[1])),
    "__new__": BuiltinV("__new__", _obj_new),
    "__init_subclass__": BuiltinV("__init_subclass__", lambda e, a, k: None),
    "__post_init__": UNBOUND,
}


def raw_delattr(eng, o, name):
    c = eng.cell(o)
    if name not in c.attrs:
        eng.throw("AttributeError", name)
    at = dict(c.attrs)
    del at[name]
    eng.mutate(o, ObjCell(c.cls, at, c.extra), f"deletion of attribute '{name}'")


def extclass_attr(eng, c, name):
    """raw attribute of a library class"""
    if c is FLAX_MODULE:
        v = eng.J.flax_attr(eng, name)
        if v is not UNBOUND:
            return v
    if is_exc_cls(c):
        if name == "__init__":
            return BuiltinV("__init__", _exc_init)
        if name == "with_traceback":
            return BuiltinV("with_traceback", lambda e, a, k: a[0])
        if name == "add_note":
            return BuiltinV("add_note", lambda e, a, k: None)
    if c is EXT["dict"]:
        if name == "fromkeys":
            return BuiltinV("fromkeys", lambda e, a, k: e.new_dict((x, a[1] if len(a) > 1 else None) for x in iterate(e, a[0])))
        if name in METHODS["dict"]:
            return BuiltinV(name, METHODS["dict"][name])
    if c is EXT["list"] and name in METHODS["list"]:
        return BuiltinV(name, METHODS["list"][name])
    if c is EXT["str"] and hasattr(str, name):
        return BuiltinV(name, lambda e, a, k: str_method(e, a[0], name, a[1:], k))
    if c is EXT["tuple"] and name == "__new__":
        return UNBOUND
    if c is OBJECT or c in (ABC, GENERIC, FLAX_MODULE) or is_exc_cls(c):
        return OBJ_ATTRS.get(name, UNBOUND)
    return UNBOUND


# --------------------------------------------------------------------- classes


def field_obj(eng, name):
    return eng.new(ObjCell(extcls("dataclasses.Field"), {"name": name}))


def build_class(eng, s):
    fr = eng.frames[-1]
    bases = []
    flags = {}
    for b in s.bases:
        bv = eng.eval(b)
        if isinstance(bv, (ExtV,)):
            k = eng.J.EXT_CLASSES.get(bv.path)
            if k is None:
                k = extcls(bv.path)
            bv = k
        if isinstance(bv, tuple) or isinstance(bv, UnknownV) or not isinstance(bv, (ClassV, ExtClassV)):
            from .interp import Undecided
            raise Undecided("class base", eng.loc())
        bases.append(bv)
    for k in s.keywords:
        if k.arg == "metaclass":
            eng.eval(k.value)
            flags["abc"] = True
        elif k.arg is not None:
            eng.eval(k.value)
    from .interp import Frame, Scope
    sc = Scope()
    env = eng.new(EnvCell({}))
    qual = s.name if fr.qual in ("<module>", "") else fr.qual + "." + s.name
    sub = Frame(qual, fr.module, [(env, None, True)] + fr.chain, fr.func)
    sub.annotations = []
    sub.line = s.lineno
    eng.frames.append(sub)
    try:
        eng.exec_block(s.body)
    finally:
        eng.frames.pop()
    ns = dict(eng.cell(env).vars)
    nb = [b for b in bases if b is not OBJECT] or [OBJECT]
    try:
        cls = ClassV(s.name, qual, fr.module, nb, ns, s)
    except TypeError:
        eng.throw("TypeError", "cannot create a consistent method resolution order")
    cls.flags.update(flags)
    cls.annotations = sub.annotations
    for v in ns.values():
        set_defcls(v, cls)
    # abstract methods
    abs_ = set()
    for b in cls.mro[1:]:
        if isinstance(b, ClassV):
            abs_ |= b.abstract
    cls.abstract = {n for n in abs_ if is_abstract(eng.class_lookup(cls, n))} | \
        {n for n, v in ns.items() if is_abstract(v)}
    if any(c is ENUM or (isinstance(c, ClassV) and c.enum) for c in cls.mro[1:]):
        cls.enum = True
        cls.flags["mixin"] = any(c in (EXT["str"], EXT["int"]) or c.name in ("enum.StrEnum", "enum.IntEnum") for c in cls.mro[1:])
        auto = 0
        for n, v in list(ns.items()):
            if n.startswith("_") or isinstance(v, (FuncV, PropertyV, StaticV, ClassMethodV)):
                continue
            if isinstance(v, tuple) and v and v[0] == "__auto__":
                auto += 1
                v = n.lower() if any(c.name == "enum.StrEnum" for c in cls.mro) else auto
            elif isinstance(v, int):
                auto = v
            dup = [m for m in cls.members.values() if is_const(m.value) and is_const(v) and m.value == v]
            cls.members[n] = dup[0] if dup else EnumV(cls, n, v)
    if FLAX_MODULE in cls.mro:
        make_dataclass(eng, cls, {})
        cls.flags["flax"] = True
    if NAMEDTUPLE in cls.mro:
        make_dataclass(eng, cls, {})
        cls.flags["namedtuple"] = True
        cls.mro[cls.mro.index(NAMEDTUPLE)] = EXT["tuple"]
    elif any(isinstance(b, ClassV) and b.flags.get("namedtuple") for b in cls.mro[1:]):
        cls.flags["namedtuple"] = True
        cls.dataclass = next(b.dataclass for b in cls.mro[1:] if isinstance(b, ClassV) and b.flags.get("namedtuple"))
    for b in cls.mro[1:]:
        if isinstance(b, ClassV) and "__init_subclass__" in b.ns:
            f = b.ns["__init_subclass__"]
            eng.call(f.func if isinstance(f, (ClassMethodV, StaticV)) else f, [cls], {})
            break
    v = cls
    for d in reversed(s.decorator_list):
        dv = eng.eval(d)
        v = eng.call(dv, [v], {})
    eng.store(s.name, v)


def set_defcls(v, cls):
    if isinstance(v, FuncV):
        if v.defcls is None:
            v.defcls = cls
    elif isinstance(v, PropertyV):
        for x in (v.fget, v.fset):
            if x is not None:
                set_defcls(x, cls)
    elif isinstance(v, (StaticV, ClassMethodV, JitV)):
        set_defcls(v.func, cls)
    elif isinstance(v, PartialV):
        set_defcls(v.func, cls)


def is_abstract(v):
    if isinstance(v, FuncV):
        return "abstract" in v.flags
    if isinstance(v, PropertyV):
        return v.fget is not None and is_abstract(v.fget)
    if isinstance(v, (StaticV, ClassMethodV)):
        return is_abstract(v.func)
    return False


def make_dataclass(eng, cls, opts):
    fields = []
    seen = {}
    for b in reversed(cls.mro[1:]):
        if isinstance(b, ClassV) and b.dataclass:
            for f in b.dataclass:
                if f[0] in seen:
                    fields[seen[f[0]]] = f
                else:
                    seen[f[0]] = len(fields)
                    fields.append(f)
    for name, ann in cls.annotations:
        if ann.startswith(("ClassVar", "typing.ClassVar")):
            continue
        default, factory, init = NODEFAULT, None, True
        if name in cls.ns:
            v = cls.ns[name]
            if isinstance(v, tuple) and v and v[0] == "__field__":
                kw = v[1]
                default = kw.get("default", NODEFAULT)
                factory = kw.get("default_factory")
                init = kw.get("init", True)
                if default is not NODEFAULT:
                    cls.ns[name] = default
                else:
                    cls.ns.pop(name)
            else:
                default = v
        f = (name, default, factory, init)
        if name in seen:
            fields[seen[name]] = f
        else:
            seen[name] = len(fields)
            fields.append(f)
    if not opts.get("kw_only"):
        had = False
        for f in fields:
            if f[1] is not NODEFAULT or f[2] is not None:
                had = True
            elif had and f[3] is not False:
                eng.throw("TypeError", f"non-default argument '{f[0]}' follows default argument")
    cls.dataclass = fields
    cls.flags["frozen"] = opts.get("frozen", False)
    cls.flags["eq"] = opts.get("eq", True)
    cls.flags["kw_only"] = opts.get("kw_only", False)


def dataclass_init(eng, cls, obj, args, kwargs):
    kwargs = dict(kwargs)
    names = [f for f in cls.dataclass if f[3] is not False]
    if len(args) > len(names) or (args and cls.flags.get("kw_only")):
        eng.throw("TypeError", f"{cls.name}() takes {len(names)} positional arguments but {len(args)} were given", fault=True)
    vals = {}
    for f, v in zip(names, args):
        vals[f[0]] = v
    for f in names:
        n = f[0]
        if n in kwargs:
            if n in vals:
                eng.throw("TypeError", f"{cls.name}() got multiple values for argument '{n}'", fault=True)
            vals[n] = kwargs.pop(n)
        elif n not in vals:
            if f[1] is not NODEFAULT:
                vals[n] = f[1]
            elif f[2] is not None:
                vals[n] = eng.call(f[2], [], {})
            else:
                eng.throw("TypeError", f"{cls.name}() missing required argument '{n}'", fault=True)
    for f in cls.dataclass:
        if f[3] is False:
            if f[1] is not NODEFAULT:
                vals[f[0]] = f[1]
            elif f[2] is not None:
                vals[f[0]] = eng.call(f[2], [], {})
    if kwargs:
        eng.throw("TypeError", f"{cls.name}() got an unexpected keyword argument '{next(iter(kwargs))}'", fault=True)
    c = eng.cell(obj)
    at = dict(c.attrs)
    at.update({f[0]: vals[f[0]] for f in cls.dataclass if f[0] in vals})
    if cls.flags.get("namedtuple"):
        at["__nt__"] = tuple(vals[f[0]] for f in cls.dataclass)
    eng.put(obj, ObjCell(c.cls, at, c.extra))
    pi = eng.class_lookup(cls, "__post_init__")
    if pi is not UNBOUND and not cls.flags.get("flax"):
        eng.call(pi, [obj], {})


def instantiate(eng, cls, args, kwargs):
    if cls.enum:
        def f(vs):
            x = vs[0]
            if isinstance(x, EnumV):
                x = x.value
            out = []
            for m in cls.members.values():
                r = eng.equal(m.value, x)
                if r is True:
                    return m
                if r is not False:
                    from .interp import Undecided
                    raise Undecided("enum lookup of a symbolic value", eng.loc())
            eng.throw("ValueError", f"not a valid {cls.name}")
        return eng.cases([args[0]], f)
    if cls.abstract and (ABC in cls.mro or any(isinstance(c, ClassV) and c.flags.get("abc") for c in cls.mro)):
        eng.throw("TypeError", f"Can't instantiate abstract class {cls.name} with abstract methods {', '.join(sorted(cls.abstract))}")
    nw = eng.class_lookup(cls, "__new__")
    if nw is not UNBOUND and not isinstance(nw, BuiltinV):
        obj = eng.call(nw.func if isinstance(nw, StaticV) else nw, [cls] + list(args), kwargs)
        if not (isinstance(obj, Ref) and isinstance(eng.cell(obj), ObjCell) and is_subclass(eng, eng.cell(obj).cls, cls)):
            return obj
    else:
        ex = tuple(args) if is_subclass(eng, cls, EXT["BaseException"]) else None
        obj = eng.new(ObjCell(cls, {}, ex))
    # nearest of __init__ and dataclass-generated init along the mro
    for c in cls.mro:
        if isinstance(c, ClassV):
            if "__init__" in c.ns:
                eng.call(c.ns["__init__"], [obj] + list(args), kwargs)
                return obj
            if c.dataclass is not None:
                dataclass_init(eng, c, obj, args, kwargs)
                return obj
        else:
            if is_exc_cls(c):
                return obj
            if c is EXT["tuple"]:
                oc = eng.cell(obj)
                eng.put(obj, ObjCell(oc.cls, {**oc.attrs, "__nt__": tuple(iterate(eng, args[0])) if args else ()}, oc.extra))
                return obj
            if c is OBJECT and (args or kwargs) and (nw is UNBOUND or isinstance(nw, BuiltinV)):
                eng.throw("TypeError", f"{cls.name}() takes no arguments", fault=True)
    return obj


def call_extclass(eng, c, args, kwargs):
    if is_exc_cls(c):
        return eng.new(ObjCell(c, {}, tuple(args)))
    f = CONSTRUCTORS.get(c.name)
    if f is not None:
        return f(eng, args, kwargs)
    if c is FLAX_MODULE:
        return eng.new(ObjCell(c, {}))
    return eng.unknown(f"construction of {c.name}")


# --------------------------------------------------------------------- methods


def list_append(eng, a, k):
    c = eng.cell(a[0])
    eng.mutate(a[0], ListCell(c.items + (a[1],)), "append")


def list_extend(eng, a, k):
    items = iterate(eng, a[1])
    c = eng.cell(a[0])
    eng.mutate(a[0], ListCell(c.items + tuple(items)), "extend")


def list_insert(eng, a, k):
    items = list(eng.cell(a[0]).items)
    items.insert(a[1], a[2])
    eng.mutate(a[0], ListCell(items), "insert")


def list_pop(eng, a, k):
    items = list(eng.cell(a[0]).items)
    if not items:
        eng.throw("IndexError", "pop from empty list")
    i = norm_index(eng, a[1] if len(a) > 1 else -1, len(items))
    v = items.pop(i)
    eng.mutate(a[0], ListCell(items), "pop")
    return v


def list_index(eng, a, k):
    for i, x in enumerate(eng.cell(a[0]).items):
        r = eng.equal(x, a[1])
        if r is True:
            return i
        if r is not False:
            from .interp import Undecided
            raise Undecided("index of a symbolic value", eng.loc())
    eng.throw("ValueError", "not in list")


def list_count(eng, a, k):
    n = 0
    for x in eng.cell(a[0]).items:
        r = eng.equal(x, a[1])
        if r is True:
            n += 1
        elif r is not False:
            from .interp import Undecided
            raise Undecided("count of a symbolic value", eng.loc())
    return n


def list_remove(eng, a, k):
    i = list_index(eng, a, k)
    items = list(eng.cell(a[0]).items)
    items.pop(i)
    eng.mutate(a[0], ListCell(items), "remove")


def sort_items(eng, items, kwargs):
    key = kwargs.get("key")
    rev = kwargs.get("reverse", False)
    ks = [eng.call(key, [x], {}) if key is not None else x for x in items]
    import functools

    def cmp(i, j):
        a, b = ks[i], ks[j]
        r = eng.truth(eng.compare("lt", a, b))
        if r is True:
            return -1
        if r is False:
            r2 = eng.truth(eng.compare("lt", b, a))
            if r2 is True:
                return 1
            if r2 is False:
                return 0
        from .interp import Undecided
        raise Undecided("sorting symbolic values", eng.loc())
    idx = sorted(range(len(items)), key=functools.cmp_to_key(cmp), reverse=bool(rev))
    return [items[i] for i in idx]


def list_sort(eng, a, k):
    eng.mutate(a[0], ListCell(sort_items(eng, list(eng.cell(a[0]).items), k)), "sort")


def dict_get(eng, a, k):
    c = eng.cell(a[0])
    h = hkey(eng, a[1])
    d = a[2] if len(a) > 2 else k.get("default")
    return c.items[h][1] if h in c.items else d


def dict_pop(eng, a, k):
    c = eng.cell(a[0])
    h = hkey(eng, a[1])
    if h not in c.items:
        if len(a) > 2:
            return a[2]
        eng.throw("KeyError", a[1])
    d = dict(c.items)
    v = d.pop(h)[1]
    eng.mutate(a[0], DictCell(d, c.default), "pop")
    return v


def dict_popitem(eng, a, k):
    c = eng.cell(a[0])
    if not c.items:
        eng.throw("KeyError", "dictionary is empty")
    d = dict(c.items)
    h = list(d)[-1]
    kv = d.pop(h)
    eng.mutate(a[0], DictCell(d, c.default), "popitem")
    return tuple(kv)


def dict_setdefault(eng, a, k):
    c = eng.cell(a[0])
    h = hkey(eng, a[1])
    if h in c.items:
        return c.items[h][1]
    v = a[2] if len(a) > 2 else None
    setitem1(eng, a[0], a[1], v)
    return v


def set_add(eng, a, k):
    c = eng.cell(a[0])
    d = dict(c.items)
    d.setdefault(hkey(eng, a[1]), a[1])
    eng.mutate(a[0], SetCell(d), "add")


def set_from(eng, v):
    return {hkey(eng, x): x for x in iterate(eng, v)}


def set_op(op):
    def f(eng, a, k):
        c = dict(eng.cell(a[0]).items)
        for o in a[1:]:
            s = set_from(eng, o)
            if op == "union":
                c.update(s)
            elif op == "difference":
                c = {h: x for h, x in c.items() if h not in s}
            elif op == "intersection":
                c = {h: x for h, x in c.items() if h in s}
            else:
                c = {**{h: x for h, x in c.items() if h not in s}, **{h: x for h, x in s.items() if h not in c}}
        return eng.new(SetCell(c))
    return f


def set_discard(eng, a, k):
    c = eng.cell(a[0])
    d = dict(c.items)
    h = hkey(eng, a[1])
    d.pop(h, None)
    eng.mutate(a[0], SetCell(d), "discard")


def set_remove(eng, a, k):
    c = eng.cell(a[0])
    if hkey(eng, a[1]) not in c.items:
        eng.throw("KeyError", a[1])
    set_discard(eng, a, k)


def it_next(eng, a, k):
    c = eng.cell(a[0])
    if isinstance(c, IterCell):
        if c.pos >= len(c.items):
            if len(a) > 1:
                return a[1]
            eng.throw("StopIteration", "")
        eng.put(a[0], IterCell(c.items, c.pos + 1, c.name))
        return c.items[c.pos]
    m = eng.class_lookup_obj(a[0], "__next__")
    if m is not UNBOUND:
        return eng.call(m, [a[0]], {})
    eng.throw("TypeError", "object is not an iterator")


METHODS = {
    "list": {"append": list_append, "extend": list_extend, "insert": list_insert, "pop": list_pop,
             "index": list_index, "count": list_count, "remove": list_remove, "sort": list_sort,
             "copy": lambda e, a, k: e.new_list(e.cell(a[0]).items),
             "clear": lambda e, a, k: e.mutate(a[0], ListCell(()), "clear"),
             "reverse": lambda e, a, k: e.mutate(a[0], ListCell(e.cell(a[0]).items[::-1]), "reverse"),
             "__len__": lambda e, a, k: len(e.cell(a[0]).items),
             "__getitem__": lambda e, a, k: getitem1(e, a[0], a[1]),
             "__contains__": lambda e, a, k: e.contains(a[0], a[1]),
             "__setitem__": lambda e, a, k: setitem1(e, *a),
             "__iter__": lambda e, a, k: e.new_iter(e.cell(a[0]).items)},
    "dict": {"get": dict_get, "pop": dict_pop, "popitem": dict_popitem, "setdefault": dict_setdefault,
             "keys": lambda e, a, k: e.new_list([x for x, _ in e.cell(a[0]).items.values()]),
             "values": lambda e, a, k: e.new_list([x for _, x in e.cell(a[0]).items.values()]),
             "items": lambda e, a, k: e.new_list([tuple(x) for x in e.cell(a[0]).items.values()]),
             "copy": lambda e, a, k: e.new(DictCell(dict(e.cell(a[0]).items), e.cell(a[0]).default)),
             "update": lambda e, a, k: dict_update(e, a[0], a[1:], k),
             "clear": lambda e, a, k: e.mutate(a[0], DictCell({}), "clear"),
             "__len__": lambda e, a, k: len(e.cell(a[0]).items),
             "__getitem__": lambda e, a, k: getitem1(e, a[0], a[1]),
             "__setitem__": lambda e, a, k: setitem1(e, *a),
             "__delitem__": lambda e, a, k: delitem1(e, *a),
             "__contains__": lambda e, a, k: e.contains(a[0], a[1])},
    "set": {"add": set_add, "discard": set_discard, "remove": set_remove,
            "union": set_op("union"), "difference": set_op("difference"), "intersection": set_op("intersection"),
            "symmetric_difference": set_op("symmetric_difference"),
            "update": lambda e, a, k: e.mutate(a[0], SetCell(e.cell(set_op("union")(e, a, k)).items), "update"),
            "copy": lambda e, a, k: e.new(SetCell(e.cell(a[0]).items)),
            "issubset": lambda e, a, k: set(e.cell(a[0]).items) <= set(set_from(e, a[1])),
            "issuperset": lambda e, a, k: set(e.cell(a[0]).items) >= set(set_from(e, a[1])),
            "isdisjoint": lambda e, a, k: not (set(e.cell(a[0]).items) & set(set_from(e, a[1]))),
            "clear": lambda e, a, k: e.mutate(a[0], SetCell({}), "clear")},
    "iter": {"__next__": it_next, "__iter__": lambda e, a, k: a[0],
             "close": lambda e, a, k: None},
}


def str_method(eng, s, name, a, k):
    if isinstance(s, str):
        if name == "join":
            parts = []
            for i, x in enumerate(iterate(eng, a[0])):
                if i:
                    parts.append(s)
                if not isinstance(x, (str, StrV)):
                    if isinstance(x, (UnknownV, PhiV)):
                        parts.append(StrV([("opq", "?")]))
                        continue
                    eng.throw("TypeError", "sequence item: expected str instance")
                parts.append(x)
            return str_concat(parts)
        if name == "format":
            if all(is_const(x) for x in a) and all(is_const(x) for x in k.values()):
                try:
                    return s.format(*a, **k)
                except Exception as x:
                    eng.throw(type(x).__name__, str(x))
            import string
            parts = []
            n = 0
            for lit, fname, spec, conv in string.Formatter().parse(s):
                parts.append(lit)
                if fname is None:
                    continue
                root = fname.split(".")[0].split("[")[0]
                if root == "":
                    v = a[n] if n < len(a) else eng.throw("IndexError", "format index")
                    n += 1
                elif root.isdigit():
                    v = a[int(root)]
                else:
                    if root not in k:
                        eng.throw("KeyError", root)
                    v = k[root]
                for at in fname.split(".")[1:]:
                    v = eng.getattr_(v, at)
                parts.append(to_str(eng, v))
            return str_concat(parts)
        aa = []
        for x in a:
            if isinstance(x, EnumV):
                x = x.value
            aa.append(x)
        if all(is_const(x) or isinstance(x, tuple) for x in aa):
            try:
                r = getattr(s, name)(*aa, **k)
            except Exception as x:
                eng.throw(type(x).__name__, str(x))
            return eng.new_list(r) if isinstance(r, list) else r
    if name in ("startswith", "endswith", "isidentifier", "isdigit", "isalpha"):
        return BoolV(D.opq("str." + name, repr(s), repr(a)))
    if name in ("split", "splitlines", "rsplit", "partition", "count", "find", "index"):
        return eng.unknown(f"str.{name} of an opaque string")
    parts = s.parts if isinstance(s, StrV) else (s,)
    return StrV([p if not isinstance(p, str) else p for p in parts] + [("opq", name)] if name not in ("strip", "rstrip", "lstrip", "lower") else parts)


# -------------------------------------------------------------------- builtins


def b_len(eng, a, k):
    v = a[0]
    if isinstance(v, (tuple, str, bytes, range)):
        return len(v)
    if isinstance(v, TensorV):
        if not v.shape:
            eng.throw("TypeError", "len() of unsized object")
        return v.shape[0]
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, (ListCell, DictCell, SetCell)):
            return len(c.items)
        m = eng.class_lookup_obj(v, "__len__")
        if m is not UNBOUND:
            return eng.call(m, [v], {})
        if isinstance(c, ObjCell) and c.nt is not None:
            return len(c.nt)
    if isinstance(v, ClassV) and v.enum:
        return len(v.members)
    if isinstance(v, UnknownV):
        return eng.unknown("len of unknown")
    if isinstance(v, StrV):
        return ScalarV(D.leaf(D.psym(eng.fresh_name("strlen"))), "int")
    eng.throw("TypeError", f"object of type '{type_name(eng, v)}' has no len()")


def b_range(eng, a, k):
    vals = [eng.J.concretize_int(eng, x) if isinstance(x, TensorV) else x for x in a]
    if any(not isinstance(x, int) for x in vals):
        if any(isinstance(x, (ScalarV, UnknownV)) for x in vals):
            from .interp import Undecided
            raise Undecided("range over a symbolic bound", eng.loc())
        eng.throw("TypeError", "object cannot be interpreted as an integer")
    return range(*vals)


def b_enumerate(eng, a, k):
    start = k.get("start", a[1] if len(a) > 1 else 0)
    return eng.new_iter([(i + start, x) for i, x in enumerate(iterate(eng, a[0]))], "enumerate")


def b_zip(eng, a, k):
    ls = [iterate(eng, x) for x in a]
    if k.get("strict") and len({len(x) for x in ls}) > 1:
        eng.throw("ValueError", "zip() argument lengths differ")
    return eng.new_iter([tuple(t) for t in zip(*ls)], "zip")


def b_map(eng, a, k):
    ls = [iterate(eng, x) for x in a[1:]]
    return eng.new_iter([eng.call(a[0], list(t), {}) for t in zip(*ls)], "map")


def b_filter(eng, a, k):
    ref = eng.new_list([])
    for x in iterate(eng, a[1]):
        t = eng._node(eng.truth(x if a[0] is None else eng.call(a[0], [x], {})))

        def add():
            def f(vs):
                eng.heap[ref.id] = ListCell(eng.cell(ref).items + (x,))
            eng.cases([ref], f)
        eng.fork(t, add, lambda: None)
    return eng.cases([ref], lambda vs: eng.new_iter(eng.cell(vs[0]).items, "filter"))


def b_all(eng, a, k):
    out = D.TRUE
    for x in iterate(eng, a[0]):
        out = D.band(out, eng._node(eng.truth(x)))
        if out is D.FALSE:
            break
    return eng.mkbool(out)


def b_any(eng, a, k):
    out = D.FALSE
    for x in iterate(eng, a[0]):
        out = D.bor(out, eng._node(eng.truth(x)))
        if out is D.TRUE:
            break
    return eng.mkbool(out)


def b_sum(eng, a, k):
    acc = a[1] if len(a) > 1 else k.get("start", 0)
    for x in iterate(eng, a[0]):
        acc = eng.binop("add", acc, x)
    return acc


def b_minmax(which):
    def f(eng, a, k):
        items = iterate(eng, a[0]) if len(a) == 1 else list(a)
        if not items:
            if "default" in k:
                return k["default"]
            eng.throw("ValueError", "arg is an empty sequence")
        key = k.get("key")
        best = items[0]
        for x in items[1:]:
            kx, kb = (eng.call(key, [x], {}), eng.call(key, [best], {})) if key is not None else (x, best)
            c = eng._node(eng.truth(eng.compare("lt" if which == "min" else "gt", kx, kb)))
            old, new = best, x
            best = eng.fork(c, lambda: new, lambda: old)
        return best
    return f


def b_isinstance(eng, a, k):
    r = isinstance_(eng, a[0], a[1])
    return eng.mkbool(eng._node(r))


def b_issubclass(eng, a, k):
    return is_subclass(eng, a[0], a[1])


def b_type(eng, a, k):
    if len(a) == 1:
        return type_of(eng, a[0])
    return eng.unknown("dynamic type()")


def b_getattr(eng, a, k):
    if not isinstance(a[1], str):
        return eng.unknown("getattr with a symbolic name")
    return eng.getattr_(a[0], a[1], a[2] if len(a) > 2 else UNBOUND)


def b_hasattr(eng, a, k):
    if isinstance(a[0], UnknownV):
        return BoolV(eng.unknown_bool("hasattr of unknown"))
    eng.catch.append([])
    n = len(eng.events)
    try:
        v = eng.getattr_(a[0], a[1], None)
        r = True
        # a default of None hides absence: ask again without running properties
        r = has_attr(eng, a[0], a[1])
    except Exception as x:
        from .interp import PathDead
        if not isinstance(x, PathDead):
            raise
        r = False
    finally:
        eng.catch.pop()
    return r


def has_attr(eng, o, name):
    marker = StrV([("opq", "absent")])
    return getattr1(eng, o, name, marker) is not marker


def b_hasattr2(eng, a, k):
    if isinstance(a[0], UnknownV):
        return BoolV(eng.unknown_bool("hasattr of unknown"))
    marker = StrV([("opq", "absent")])
    from .interp import PathDead
    pc, heap = eng.pc, eng.heap
    eng.catch.append([])
    try:
        v = eng.getattr_(a[0], a[1], marker)
    except PathDead:
        v = marker
        eng.pc, eng.heap = pc, heap
    finally:
        rs = eng.catch.pop()
    if v is marker:
        for r in rs:
            if not is_subclass(eng, eng.cell(r.exc).cls if r.exc.id in eng.heap else r.heap[r.exc.id].cls, EXT["AttributeError"]):
                eng.catch[-1].append(r)
                raise PathDead()
        return False
    if isinstance(v, PhiV):
        from .interp import Undecided
        def isabs(x):
            if x is marker:
                return D.FALSE
            if isinstance(x, PhiV):
                return D.ite(x.cond, isabs(x.a), isabs(x.b))
            return D.TRUE
        return eng.mkbool(isabs(v))
    return True


def b_setattr(eng, a, k):
    eng.setattr_(a[0], a[1], a[2])


def b_print(eng, a, k):
    return None


def c_list(eng, a, k):
    return eng.new_list(iterate(eng, a[0]) if a else [])


def c_tuple(eng, a, k):
    return tuple(iterate(eng, a[0])) if a else ()


def c_dict(eng, a, k):
    r = eng.new(DictCell({}))
    dict_update(eng, r, a, k)
    return r


def c_set(fz):
    def f(eng, a, k):
        return eng.new(SetCell(set_from(eng, a[0]) if a else {}, fz))
    return f


def c_str(eng, a, k):
    return to_str(eng, a[0]) if a else ""


def c_int(eng, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, TensorV):
        return eng.J.concretize_number(eng, v, "int")
    if isinstance(v, (ScalarV, BoolV)):
        if isinstance(v, BoolV) or v.kind == "int":
            return ScalarV(D.to_num(v.node), "int")
        return ScalarV(D.fn("trunc", v.node), "int")
    if isinstance(v, (int, float, str, bool)):
        try:
            return int(v)
        except Exception as x:
            eng.throw(type(x).__name__, str(x))
    if isinstance(v, UnknownV):
        return eng.unknown("int of unknown")
    eng.throw("TypeError", "int() argument")


def c_float(eng, a, k):
    if not a:
        return 0.0
    v = a[0]
    if isinstance(v, TensorV):
        return eng.J.concretize_number(eng, v, "float")
    if isinstance(v, (ScalarV, BoolV)):
        return ScalarV(D.to_num(v.node), "float")
    if isinstance(v, (int, float, str, bool)):
        try:
            return float(v)
        except Exception as x:
            eng.throw(type(x).__name__, str(x))
    if isinstance(v, UnknownV):
        return eng.unknown("float of unknown")
    eng.throw("TypeError", "float() argument must be a string or a real number")


def c_bool(eng, a, k):
    if not a:
        return False
    return eng.mkbool(eng._node(eng.truth(a[0])))


def c_object(eng, a, k):
    return eng.new(ObjCell(OBJECT, {}))


def c_super(eng, a, k):
    return SuperV(a[0], a[1])


def c_property(eng, a, k):
    g = a[0] if a else k.get("fget")
    return PropertyV(g, a[1] if len(a) > 1 else k.get("fset"))


def c_reversed(eng, a, k):
    return eng.new_iter(list(reversed(iterate(eng, a[0]))), "reversed")


def c_slice(eng, a, k):
    return slice(*a)


CONSTRUCTORS = {"list": c_list, "tuple": c_tuple, "dict": c_dict, "set": c_set(False), "frozenset": c_set(True),
                "str": c_str, "int": c_int, "float": c_float, "bool": c_bool, "object": c_object, "super": c_super,
                "property": c_property, "staticmethod": lambda e, a, k: StaticV(a[0]),
                "classmethod": lambda e, a, k: ClassMethodV(a[0]), "enumerate": b_enumerate, "zip": b_zip,
                "map": b_map, "filter": b_filter, "reversed": c_reversed, "slice": c_slice, "range": b_range,
                "type": b_type}


def b_iter(eng, a, k):
    if isinstance(a[0], Ref) and isinstance(eng.cell(a[0]), IterCell):
        return a[0]
    return eng.new_iter(iterate(eng, a[0]))


def b_sorted(eng, a, k):
    return eng.new_list(sort_items(eng, iterate(eng, a[0]), k))


def b_abs(eng, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, ScalarV):
        return ScalarV(D.vmax(v.node, D.neg(v.node)), v.kind)
    if isinstance(v, TensorV):
        return eng.J.call_ext(eng, ExtV("jax.numpy.abs"), [v], {})
    return eng.unknown("abs")


def b_callable(eng, a, k):
    v = a[0]
    if isinstance(v, Ref):
        return eng.class_lookup_obj(v, "__call__") is not UNBOUND
    return isinstance(v, (FuncV, BoundV, BuiltinV, PartialV, ClassV, ExtClassV, OpaqueFn, JitV, ExtV))


def b_vars(eng, a, k):
    return eng.getattr_(a[0], "__dict__")


def b_round(eng, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return round(v, *a[1:])
    return eng.unknown("round of a symbolic value")


def b_id(eng, a, k):
    """numbers of their own for objects; c31 hands numbers of objects that are gone out again"""
    v = a[0]
    key = ("ref", v.id) if isinstance(v, Ref) else ("const", type(v), v) if v is None or isinstance(v, (bool, int, float, str)) else ("host", id(v))
    if key not in eng.ids:
        num = 140000000 + 16*len(eng.ids)
        if isinstance(v, Ref):
            for i, (kind, old) in enumerate(eng.ids_free):
                if kind == kind_of(eng.cell(v)):
                    num = eng.ids_free.pop(i)[1]
                    break
        eng.ids[key] = (num, v)         # v is kept, so that its number is not taken
    return eng.ids[key][0]


def kind_of(c):
    return type(c), getattr(c, "cls", None) if isinstance(c, ObjCell) else None


def reachable(eng):
    """the ids of the objects that the modules of the package, their classes and functions hold"""
    seen, todo = set(), [m.env for n, m in eng.modules.items() if m is not None and m.path is not None and n.startswith("src")]
    while todo:
        v = todo.pop()
        if isinstance(v, Ref):
            if v.id in seen:
                continue
            seen.add(v.id)
            todo.append(eng.cell(v))
        elif isinstance(v, ModuleV):
            todo.append(v.env)
        elif isinstance(v, (Cell, Value)):
            if id(v) in seen and isinstance(v, (FuncV, ClassV)):
                continue
            seen.add(id(v))
            for n in (n for c in type(v).__mro__ for n in getattr(c, "__slots__", ())):
                if n not in ("node", "loc", "low"):
                    todo.append(getattr(v, n, None))
        elif isinstance(v, dict):
            todo += list(v.keys()) + list(v.values())
        elif isinstance(v, (list, tuple, set, frozenset)):
            todo += list(v)
    return seen


def b_divmod(eng, a, k):
    return (eng.binop("floordiv", a[0], a[1]), eng.binop("mod", a[0], a[1]))


def make_builtins(eng):
    b = {}
    for n, c in EXT.items():
        if hasattr(hostb, n):
            b[n] = c
    simple = {"len": b_len, "all": b_all, "any": b_any, "sum": b_sum, "min": b_minmax("min"), "max": b_minmax("max"),
              "isinstance": b_isinstance, "issubclass": b_issubclass, "getattr": b_getattr, "hasattr": b_hasattr2,
              "setattr": b_setattr, "print": b_print, "iter": b_iter, "next": it_next, "sorted": b_sorted,
              "abs": b_abs, "callable": b_callable, "vars": b_vars, "round": b_round, "id": b_id, "divmod": b_divmod,
              "repr": lambda e, a, k: to_str(e, a[0], "r"), "format": lambda e, a, k: to_str(e, a[0]),
              "hash": lambda e, a, k: hash(str(hkey(e, a[0]))),
              "delattr": lambda e, a, k: e.delattr_(a[0], a[1]),
              "pow": lambda e, a, k: e.binop("pow", a[0], a[1]),
              "dir": lambda e, a, k: e.unknown("dir()"),
              "ord": lambda e, a, k: ord(a[0]), "chr": lambda e, a, k: chr(a[0]),
              "bin": lambda e, a, k: bin(a[0]), "hex": lambda e, a, k: hex(a[0]),
              "__import__": lambda e, a, k: e.unknown("__import__"),
              "open": lambda e, a, k: e.unknown("open"), "input": lambda e, a, k: e.unknown("input"),
              "eval": lambda e, a, k: e.unknown("eval"), "exec": lambda e, a, k: e.unknown("exec")}
    for n, f in simple.items():
        b[n] = BuiltinV(n, f)
    b["NotImplemented"] = ExtV("builtins.NotImplemented")
    b["Ellipsis"] = Ellipsis
    b["__NoneType__"] = NONETYPE
    b["__debug__"] = True
    b["__build_class__"] = None
    return b
