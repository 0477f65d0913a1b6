"""
Models of the libraries the repository is written against (jax 0.4.23, the parts
of the standard library and of flax it touches): shapes and dtypes are concrete,
contents are the gated values of domain.py.
"""
import json
import os
import textwrap as host_textwrap

from . import domain as D
from .values import *

HERE = os.path.dirname(os.path.abspath(__file__))
_names = json.load(open(os.path.join(HERE, "libnames.json")))
MEMBERS = {k: set(v) for k, v in _names["members"].items()}
MODULES = set(_names["modules"]) | {"builtins"}

ALIAS_MODULES = {"os.path": "os.path"}


def setup(eng):
    from . import pybuiltins as B
    X = B.extcls
    EXT_CLASSES.update({
        "enum.Enum": B.ENUM, "enum.StrEnum": X("enum.StrEnum"), "enum.IntEnum": X("enum.IntEnum"), "enum.Flag": B.ENUM,
        "abc.ABC": B.ABC, "typing.Generic": B.GENERIC, "typing.Protocol": X("typing.Protocol"),
        "typing.NamedTuple": B.NAMEDTUPLE, "typing.TypedDict": B.EXT["dict"],
        "flax.linen.Module": B.FLAX_MODULE, "jax.numpy.ndarray": B.ARRAY, "jax.Array": B.ARRAY,
        "jax.core.Tracer": B.TRACER, "numpy.ndarray": X("numpy.ndarray"),
        "jax.tree_util.PyTreeDef": B.PYTREEDEF, "jax.experimental.checkify.JaxRuntimeError": B.EXT["JaxRuntimeError"],
        "jax.experimental.checkify.Error": X("checkify.Error"),
        "jax.errors.ConcretizationTypeError": B.EXT["ConcretizationTypeError"],
        "jax.errors.TracerBoolConversionError": B.EXT["ConcretizationTypeError"],
        "jax.errors.TracerIntegerConversionError": B.EXT["ConcretizationTypeError"],
        "jax.errors.TracerArrayConversionError": B.EXT["ConcretizationTypeError"],
        "jax.core.ConcretizationTypeError": B.EXT["ConcretizationTypeError"],
        "dataclasses.FrozenInstanceError": B.EXT["FrozenInstanceError"],
        "collections.abc.Mapping": X("Mapping"), "typing.Mapping": X("Mapping"), "typing.Callable": X("Callable"),
        "collections.abc.Callable": X("Callable"), "collections.abc.Sequence": X("Sequence"),
        "typing.Sequence": X("Sequence"), "typing.List": B.EXT["list"], "typing.Dict": B.EXT["dict"],
        "typing.Tuple": B.EXT["tuple"], "typing.Set": B.EXT["set"], "collections.abc.Iterable": X("Iterable"),
        "typing.Iterable": X("Iterable"), "numbers.Number": X("Number"), "numbers.Real": X("Number"),
        "collections.abc.MutableMapping": X("Mapping"), "collections.abc.Hashable": X("Hashable"),
    })
    for w in ("Warning", "UserWarning", "DeprecationWarning"):
        EXT_CLASSES.setdefault("builtins." + w, B.EXT[w])


EXT_CLASSES = {}


def known_module(name):
    return name in MODULES or name in MEMBERS or name.split(".")[0] in MODULES and "." in name \
        and name.split(".")[0] not in ("jax", "flax", "numpy")


# ------------------------------------------------------------------- dtypes

FLOATS = ("bfloat16", "float16", "float32", "float64")
INTS = ("int8", "int16", "int32", "int64")
UINTS = ("uint8", "uint16", "uint32", "uint64")
COMPLEX = ("complex64", "complex128")
ALLDT = ("bool",) + UINTS + INTS + FLOATS + COMPLEX
CANON = {"float64": "float32", "int64": "int32", "uint64": "uint32", "complex128": "complex64"}
DTNAMES = {n: n for n in ALLDT}
DTNAMES.update({"bool_": "bool", "float_": "float64", "int_": "int64", "double": "float64", "single": "float32",
                "half": "float16", "uint": "uint64", "f4": "float32", "f8": "float64", "f2": "float16", "i4": "int32",
                "i8": "int64", "float": "float64", "int": "int64", "complex_": "complex128", "?": "bool", "bf16": "bfloat16",
                "intc": "int32", "csingle": "complex64", "cdouble": "complex128"})
ABSTRACT_DT = {"floating": FLOATS, "integer": INTS + UINTS, "inexact": FLOATS + COMPLEX,
               "number": FLOATS + COMPLEX + INTS + UINTS, "generic": ALLDT, "complexfloating": COMPLEX,
               "signedinteger": INTS, "unsignedinteger": UINTS}

LATTICE = {"b1": ["i*"], "uint8": ["int16", "uint16"], "uint16": ["int32", "uint32"], "uint32": ["int64", "uint64"],
           "uint64": ["f*"], "i*": ["uint8", "int8"], "int8": ["int16"], "int16": ["int32"], "int32": ["int64"],
           "int64": ["f*"], "f*": ["bfloat16", "float16", "c*"], "bfloat16": ["float32"], "float16": ["float32"],
           "float32": ["float64", "complex64"], "float64": ["complex128"], "c*": ["complex64"],
           "complex64": ["complex128"], "complex128": []}
LATTICE["bool"] = LATTICE.pop("b1")


def _uppers():
    up = {n: {n} for n in LATTICE}
    ch = True
    while ch:
        ch = False
        for n in LATTICE:
            new = set(up[n])
            for m in LATTICE[n]:
                new |= up[m]
            if new != up[n]:
                up[n] = new
                ch = True
    return up


UPPER = _uppers()


def lub(ns):
    common = set(LATTICE)
    for n in ns:
        common &= UPPER[n]
    for c in common:
        if common == UPPER[c] & common and all(x in UPPER[c] for x in common):
            return c
    raise ValueError("no common dtype")


def weak_type_of(dt):
    if dt == "bool":
        return "bool"
    if dt in INTS or dt in UINTS:
        return "i*"
    if dt in FLOATS:
        return "f*"
    return "c*"


STAR = {"i*": "int32", "f*": "float32", "c*": "complex64"}


def promote(ts):
    """ts: list of (dtype, weak) -> (dtype, weak)"""
    dts = [d for d, _ in ts]
    ws = [w for _, w in ts]
    if len(ts) == 1:
        return ts[0]
    if len(set(dts)) == 1 and not all(ws):
        return dts[0], False
    if all(ws):
        d = lub(dts)
        return STAR.get(CANON.get(d, d), CANON.get(d, d)), True
    d = lub([weak_type_of(x) if w else x for x, w in ts])
    weak = d in STAR
    d = STAR.get(d, d)
    return CANON.get(d, d), weak


def as_dtype(v):
    """dtype name or None"""
    if isinstance(v, DTypeV):
        return v.name
    if isinstance(v, ExtV):
        mod, _, n = v.path.rpartition(".")
        if mod in ("jax.numpy", "numpy", "jax.dtypes") and n in DTNAMES and n not in ("float", "int", "?"):
            return CANON.get(DTNAMES[n], DTNAMES[n])
        return None
    if isinstance(v, ExtClassV):
        d = {"float": "float32", "int": "int32", "bool": "bool", "complex": "complex64"}.get(v.name)
        return d
    if isinstance(v, str) and v in DTNAMES:
        return CANON.get(DTNAMES[v], DTNAMES[v])
    return None


def need_dtype(eng, v):
    if v is None:
        return None
    d = as_dtype(v)
    if d is None:
        if isinstance(v, TensorV):
            return v.dtype
        if isinstance(v, UnknownV):
            raise _und(eng, "unknown dtype")
        eng.throw("TypeError", f"Cannot interpret {eng.B.type_name(eng, v)} as a data type")
    return d


def _und(eng, why):
    from .interp import Undecided
    return Undecided(why, eng.loc())


def dtype_attr(eng, o, name):
    if name == "name":
        return o.name
    if name == "type":
        return ExtV("jax.numpy." + ("bool_" if o.name == "bool" else o.name))
    if name == "kind":
        return "b" if o.name == "bool" else "i" if o.name in INTS else "u" if o.name in UINTS else "c" if o.name in COMPLEX else \
            "V" if o.name == "bfloat16" else "f"
    if name == "itemsize":
        import re
        m = re.search(r"\d+", o.name)
        return int(m.group()) // 8 if m else 1
    return UNBOUND


# ------------------------------------------------------------------ tensors


def mk(eng, shape, dtype, node, weak=False, srcs=(), low=None):
    tr = eng.trace_depth > 0 or any(isinstance(s, TensorV) and s.tracer for s in srcs)
    np = bool(srcs) and all(isinstance(s, TensorV) and s.np for s in srcs) and not tr
    if dtype == "bool":
        if not D.is_bool_node(node):
            node = D.to_bool(node)
    else:
        node = D.to_num(node)
    if low is None:
        low = lows(*srcs)
    if low:
        low = () if D.is_constant(node) else through(low, dtype)
    if eng.absorb is not None and dtype in ("float16", "bfloat16") and eng.absorb(node, dtype):
        low += ((dtype, dtype, eng.loc(), "absorbed"),)
    return TensorV(shape, dtype, node, weak, eng.loc(), tr, np, low)


def sym_tensor(name, shape, dtype="float32", weak=False, tracer=False):
    idx = tuple(f"i{k}" if d != 1 else 0 for k, d in enumerate(shape))
    if dtype == "bool":
        node = D.batom(("bsym", name, idx))
    else:
        node = D.leaf(D.psym(name, idx))
    return TensorV(shape, dtype, node, weak, ("<input>", 0, name), tracer)


def kindnode(t):
    if t.dtype == "bool":
        return t.node if D.is_bool_node(t.node) else D.to_bool(t.node)
    return D.to_num(t.node)


def scalar_node(v):
    if isinstance(v, bool):
        return D.TRUE if v else D.FALSE
    if isinstance(v, (int, float)):
        return D.numeric(v)
    return v.node


def is_number(v):
    return isinstance(v, (bool, int, float, ScalarV, BoolV))


def is_arraylike(v):
    return isinstance(v, TensorV) or is_number(v)


def to_tensor(eng, v, what="argument"):
    """array-like -> TensorV (python scalars become weakly typed rank 0)"""
    if isinstance(v, TensorV):
        return v
    if isinstance(v, (bool, BoolV)):
        return TensorV((), "bool", scalar_node(v), False, eng.loc(), eng.trace_depth > 0)
    if isinstance(v, int) or (isinstance(v, ScalarV) and v.kind == "int"):
        return TensorV((), "int32", D.to_num(scalar_node(v)), True, eng.loc(), eng.trace_depth > 0)
    if isinstance(v, (float, ScalarV)):
        return TensorV((), "float32", scalar_node(v), True, eng.loc(), eng.trace_depth > 0)
    if isinstance(v, complex):
        return TensorV((), "complex64", D.leaf(D.psym("complex")), True, eng.loc(), eng.trace_depth > 0)
    if isinstance(v, UnknownV):
        raise _und(eng, "unknown array: " + v.why)
    eng.throw("TypeError", f"{what} requires ndarray or scalar arguments, got {eng.B.type_name(eng, v)}")


def asarray(eng, v, dtype=None):
    """jnp.asarray: nested lists allowed"""
    seq = None
    if isinstance(v, tuple):
        seq = list(v)
    elif isinstance(v, Ref) and isinstance(eng.cell(v), ListCell):
        seq = list(eng.cell(v).items)
    elif isinstance(v, range):
        seq = list(v)
    if seq is not None:
        if not seq:
            t = TensorV((0,), "float32", D.num(0), False, eng.loc())
        else:
            t = stack(eng, [asarray(eng, x) for x in seq], 0)
            t = TensorV(t.shape, t.dtype, t.node, False, t.loc, t.tracer, False, t.low)
    elif v is None:
        eng.throw("TypeError", "None is not a valid value for jnp.array")
    elif isinstance(v, str):
        eng.throw("TypeError", "JAX only supports number and bool dtypes")
    else:
        t = to_tensor(eng, v, "asarray")
    if dtype is not None:
        return astype(eng, t, dtype)
    return t


def base(i):
    """'i3+2' -> ('i3', '+2')"""
    k = i.find("+")
    return (i, "") if k < 0 else (i[:k], i[k:])


def ren(node, m):
    """rename index variables; m: 'ik' -> 'ij' or int"""
    if not m or all(k == v for k, v in m.items()):
        return node

    def f(i):
        b, s = base(i)
        r = m.get(b, b)
        if isinstance(r, int):
            return r + (int(s[1:]) if s else 0)
        if s and "+" in r:
            b2, s2 = base(r)
            return f"{b2}+{int(s[1:]) + int(s2[1:])}"
        return r + s
    return D.node_rename(node, f)


def bshape(eng, shapes, rank_error="ValueError"):
    R = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(R):
        d = 1
        for s in shapes:
            j = k - (R - len(s))
            if j < 0:
                continue
            if s[j] != 1:
                if d != 1 and d != s[j]:
                    eng.throw("TypeError" if len({len(x) for x in shapes}) == 1 else "ValueError",
                              f"Incompatible shapes for broadcasting: {list(map(tuple, shapes))}")
                d = s[j]
        out.append(d)
    return tuple(out)


def bnode(t, shape):
    """generic element of t broadcast (from the right) to shape"""
    off = len(shape) - len(t.shape)
    if off == 0:
        return kindnode(t)
    return ren(kindnode(t), {f"i{k}": f"i{k + off}" for k in range(len(t.shape))})


def broadcast_to(eng, t, shape):
    if len(shape) < len(t.shape) or any(d != 1 and d != shape[k + len(shape) - len(t.shape)] for k, d in enumerate(t.shape)):
        eng.throw("ValueError", f"Incompatible shapes for broadcasting: {t.shape} and requested shape {tuple(shape)}")
    return mk(eng, shape, t.dtype, bnode(t, shape), t.weak, [t])


def astype(eng, t, dtype, weak=False):
    n = kindnode(t)
    if dtype == "bool":
        n = n if D.is_bool_node(n) else D.to_bool(n)
    elif t.dtype == "bool":
        n = D.to_num(n)
    elif t.dtype in FLOATS and (dtype in INTS or dtype in UINTS):
        n = D.apply("trunc", lambda p: p if p.is_const() and p.const().denominator == 1 else D.patom(("fn", "trunc", (p,))), n)
    bits = INT_BITS.get(dtype)
    if bits is not None and bits < 32 and t.dtype in INT_BITS and t.dtype != dtype:
        n = D.apply("wrap " + dtype, lambda p: wrapped(p, dtype), n)
    low = t.low
    if t.dtype in FLOATS and dtype in FLOATS and narrower(dtype, t.dtype) and not D.all_terminals(n, lambda p: p.is_const() and exact_in(p.const(), dtype)):
        kind = "scalar" if t.weak else "value"
        low = t.low + (((t.dtype, dtype, eng.loc(), kind),) if not any((x[0], x[1], x[3]) == (t.dtype, dtype, kind) for x in t.low) else ())
    return mk(eng, t.shape, dtype, n, weak, [t], low)


INT_BITS = {"int8": 8, "uint8": 8, "int16": 16, "uint16": 16, "int32": 32, "uint32": 32}
MANTISSA = {"bfloat16": 8, "float16": 11, "float32": 24, "float64": 53}


def through(low, dtype):
    """marks after an operation whose result has the type: a truth value or an integer has no derivative, and remembers rounding only as
    rounding of what was tested"""
    if dtype in FLOATS:
        return low
    out = ()
    for x in low:
        if x[3] != "cut":
            x = x if x[3] == "absorbed" else x[:3] + ("test",)
            if x not in out:
                out += (x,)
    return out


def meet(eng, d, *ts):
    """weak scalars take the type they meet (only watched by C29)"""
    if eng.absorb is None or d not in ("float16", "bfloat16"):
        return ts
    return tuple(astype(eng, t, d) if t.weak and t.dtype in FLOATS else t for t in ts)


def cut(eng, v, what):
    """the value, without its derivative"""
    def k(vs):
        ls, td = tree_flatten(eng, vs[0])
        out = []
        for t in ls:
            if isinstance(t, TensorV) and t.dtype in FLOATS and not D.is_constant(t.node) and not any(x[3] == "cut" and x[0] == what for x in t.low):
                t = TensorV(t.shape, t.dtype, t.node, t.weak, t.loc, t.tracer, t.np, t.low + ((what, None, eng.loc(), "cut"),))
            out.append(t)
        return tree_unflatten(eng, td, out)
    return with_tree(eng, (v,), k)


def narrower(a, b):
    """type a does not hold every value of type b"""
    return MANTISSA[a] < MANTISSA[b] or (a, b) == ("float16", "bfloat16")


def exact_in(c, dtype):
    """the rational is a number of the floating type (of moderate size)"""
    if c == 0:
        return True
    n, d = abs(c.numerator), c.denominator
    while n % 2 == 0:
        n //= 2
    return d & (d - 1) == 0 and n.bit_length() <= MANTISSA[dtype] and abs(c) < 2 ** 15 and d <= 2 ** 14


def wrapped(p, dtype):
    """an integer put into a narrow integer type"""
    if p.is_const() and p.const().denominator == 1:
        b = INT_BITS[dtype]
        v = int(p.const()) % (1 << b)
        if not dtype.startswith("u") and v >= 1 << (b - 1):
            v -= 1 << b
        return D.pconst(v)
    return D.patom(("fn", "wrap " + dtype, (p,)))


def elementwise(eng, args, f, dtype=None, promo=True):
    """args: array-likes; f(nodes) -> node; result dtype by promotion unless given"""
    ts = [to_tensor(eng, a, "elementwise function") for a in args]
    shape = bshape(eng, [t.shape for t in ts])
    d, w = promote([(t.dtype, t.weak) for t in ts])
    node = f(*[bnode(t, shape) for t in ts])
    if dtype is not None:
        d, w = dtype, False
    return mk(eng, shape, d, node, w, ts)


def redpoly(n):
    """('max', Node) when the node is exactly one reduction atom"""
    if n.atom is None and isinstance(n.val, D.Poly) and len(n.val.terms) == 1:
        (m, c), = n.val.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            k = D.NATOMS[m[0][0]]
            if k[0] == "fn" and k[1] in ("max", "min", "countsum") and len(k[2]) >= 1 and isinstance(k[2][0], D.Node):
                return k[1], k[2]
    return None


def unbind(n):
    return D.node_rename(n, lambda i: "i" + i[1:] if i.startswith("b") else i)


FLIP = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}


def has_red(n):
    """some leaf of the decision diagram is a reduction"""
    if n.atom is None:
        return redpoly(n) is not None
    return has_red(n.hi) or has_red(n.lo)


def cmp_nodes(op, x, y):
    for a, b, swap in ((x, y, False), (y, x, True)):
        if a.atom is not None and not D.is_bool_node(a) and not D.node_has_index(b) and has_red(a):
            hi, lo = (cmp_nodes(op, b, c) if swap else cmp_nodes(op, c, b) for c in (a.hi, a.lo))
            return D.ite(D.mk(a.atom, D.TRUE, D.FALSE), hi, lo)
    for (p, q, o) in ((x, y, op), (y, x, FLIP[op])):
        r = redpoly(p)
        if r is None or D.node_has_index(q):
            continue
        kind, a = r
        body = unbind(a[0])
        if kind == "max" and o in ("gt", "ge"):
            return D.reduce_any(cmp_nodes(o, body, q))
        if kind == "max" and o in ("lt", "le"):
            return D.reduce_all(cmp_nodes(o, body, q))
        if kind == "min" and o in ("gt", "ge"):
            return D.reduce_all(cmp_nodes(o, body, q))
        if kind == "min" and o in ("lt", "le"):
            return D.reduce_any(cmp_nodes(o, body, q))
        if kind == "countsum" and q.atom is None and isinstance(q.val, D.Poly) and q.val.is_const():
            c, size = q.val.const(), a[1].const()
            yes_all, yes_any = D.reduce_all(body), D.reduce_any(body)
            if c == size:
                if o in ("eq", "ge"):
                    return yes_all
                if o in ("ne", "lt"):
                    return D.bnot(yes_all)
            if c == 0:
                if o in ("eq", "le"):
                    return D.bnot(yes_any)
                if o in ("ne", "gt"):
                    return yes_any
    x, y = (x, y) if op in ("eq", "ne") else (D.to_num(x), D.to_num(y))
    return {"lt": D.lt, "le": D.le, "gt": D.gt, "ge": D.ge, "eq": D.eq, "ne": lambda a, b: D.bnot(D.eq(a, b))}[op](x, y)


def pow_node(x, y):
    if y.atom is None and isinstance(y.val, D.Poly) and y.val.is_const():
        c = y.val.const()
        if c.denominator == 1 and 0 <= c <= 8:
            r = D.num(1)
            for _ in range(int(c)):
                r = D.mul(r, x)
            return r
        if c == -1:
            return D.div(D.num(1), x)
    return D.fn("pow", x, y)


def mul_node(x, y):
    return D.mul(x, y)


ARITH = {"add": D.add, "sub": D.sub, "mul": D.mul, "div": D.div, "pow": lambda x, y: pow_node(D.to_num(x), D.to_num(y)),
         "floordiv": lambda x, y: D.fn("floordiv", D.to_num(x), D.to_num(y)),
         "mod": lambda x, y: D.fn("mod", D.to_num(x), D.to_num(y))}


def arith(eng, op, a, b):
    ta, tb = to_tensor(eng, a, op), to_tensor(eng, b, op)
    d, w = promote([(ta.dtype, ta.weak), (tb.dtype, tb.weak)])
    ta, tb = meet(eng, d, ta, tb)
    shape = bshape(eng, [ta.shape, tb.shape])
    x, y = bnode(ta, shape), bnode(tb, shape)
    if d == "bool":
        if op == "sub":
            eng.throw("TypeError", "sub does not accept dtype bool")
        if op == "add":
            return mk(eng, shape, "bool", D.bor(x, y), False, [ta, tb])
        if op == "mul":
            return mk(eng, shape, "bool", D.band(x, y), False, [ta, tb])
        if op == "div":
            d = "float32"
    if op == "div" and d in INTS + UINTS:
        d = "float32"
    return mk(eng, shape, d, ARITH[op](x, y), w, [ta, tb])


def bitop(eng, op, a, b):
    ta, tb = to_tensor(eng, a, op), to_tensor(eng, b, op)
    shape = bshape(eng, [ta.shape, tb.shape])
    d, w = promote([(ta.dtype, ta.weak), (tb.dtype, tb.weak)])
    if d in FLOATS or d in COMPLEX:
        eng.throw("TypeError", f"{op} does not accept dtype {d}")
    x, y = bnode(ta, shape), bnode(tb, shape)
    if d == "bool":
        n = {"and": D.band, "or": D.bor, "xor": D.bxor}[op](x, y) if op in ("and", "or", "xor") else D.opq(op, x, y)
        return mk(eng, shape, "bool", n, False, [ta, tb])
    return mk(eng, shape, d, D.fn("bit" + op, D.to_num(x), D.to_num(y)), w, [ta, tb])


def tensor_binop(eng, op, a, b):
    for x in (a, b):
        if not is_arraylike(x) and not isinstance(x, complex):
            eng.throw("TypeError", f"unsupported operand type(s) for {op}: {eng.B.type_name(eng, a)} and {eng.B.type_name(eng, b)}")
    if op in ("and", "or", "xor", "lshift", "rshift"):
        return bitop(eng, op, a, b)
    if op == "matmul":
        return matmul(eng, a, b)
    return arith(eng, op, a, b)


def tensor_compare(eng, op, a, b):
    for x in (a, b):
        if not is_arraylike(x):
            if op == "eq":
                return False
            if op == "ne":
                return True
            eng.throw("TypeError", f"'{op}' not supported between {eng.B.type_name(eng, a)} and {eng.B.type_name(eng, b)}")
    ta, tb = to_tensor(eng, a), to_tensor(eng, b)
    ta, tb = meet(eng, promote([(ta.dtype, ta.weak), (tb.dtype, tb.weak)])[0], ta, tb)
    shape = bshape(eng, [ta.shape, tb.shape])
    return mk(eng, shape, "bool", cmp_nodes(op, bnode(ta, shape), bnode(tb, shape)), False, [ta, tb])


def tensor_unop(eng, op, t):
    n = kindnode(t)
    if op == "pos":
        return t
    if op == "neg":
        if t.dtype == "bool":
            eng.throw("TypeError", "neg does not accept dtype bool")
        return mk(eng, t.shape, t.dtype, D.neg(n), t.weak, [t])
    if t.dtype == "bool":
        return mk(eng, t.shape, "bool", D.bnot(n), False, [t])
    if t.dtype in FLOATS or t.dtype in COMPLEX:
        eng.throw("TypeError", f"not does not accept dtype {t.dtype}")
    return mk(eng, t.shape, t.dtype, D.fn("bitnot", n), t.weak, [t])


def scalar_binop(eng, op, a, b):
    x, y = scalar_node(a), scalar_node(b)
    if op in ("and", "or", "xor") and all(isinstance(v, (bool, BoolV)) for v in (a, b)):
        return eng.mkbool({"and": D.band, "or": D.bor, "xor": D.bxor}[op](x, y))
    ints = all(isinstance(v, (bool, BoolV, int)) or getattr(v, "kind", "") == "int" for v in (a, b))
    if op in ("and", "or", "xor", "lshift", "rshift"):
        if not ints:
            eng.throw("TypeError", "unsupported operand")
        return ScalarV(D.fn("bit" + op, D.to_num(x), D.to_num(y)), "int")
    if op == "div" and not isinstance(b, (ScalarV, BoolV)) and b == 0:
        eng.throw("ZeroDivisionError", "division by zero")
    if op not in ARITH:
        eng.throw("TypeError", "unsupported operand")
    return ScalarV(ARITH[op](D.to_num(x), D.to_num(y)), "int" if ints and op != "div" else "float")


def scalar_compare(eng, op, a, b):
    return eng.mkbool(cmp_nodes(op, D.to_num(scalar_node(a)), D.to_num(scalar_node(b))))


# ------------------------------------------------------------ concretisation


def concretize_bool(eng, t):
    if size(t.shape) != 1:
        eng.throw("ValueError", "The truth value of an array with more than one element is ambiguous")
    n = kindnode(t)
    if not D.is_bool_node(n):
        n = D.to_bool(n)
    if t.tracer:
        eng.event("concretize", "truth value of a traced array")
        eng.throw("ConcretizationTypeError", "Attempted boolean conversion of traced array")
    if n.atom is not None:
        eng.event("concretize_eager", "truth value of an array")
    return n


def concretize_int(eng, t):
    if t.tracer:
        eng.event("concretize", "integer from a traced array")
        eng.throw("ConcretizationTypeError", "The __index__() method was called on traced array")
    n = kindnode(t)
    if n.atom is None and isinstance(n.val, D.Poly) and n.val.is_const():
        return int(n.val.const())
    return ScalarV(D.to_num(n), "int")


def concretize_number(eng, t, kind):
    if size(t.shape) != 1:
        eng.throw("TypeError", "Only length-1 arrays can be converted to Python scalars")
    if t.tracer:
        eng.event("concretize", f"{kind} from a traced array")
        eng.throw("ConcretizationTypeError", f"{kind}() of a traced array")
    n = D.to_num(kindnode(t))
    if kind == "int" and t.dtype in FLOATS:
        n = D.fn("trunc", n)
    return ScalarV(n, kind)


def size(shape):
    n = 1
    for d in shape:
        n *= d
    return n


def static_int(eng, v, what="size"):
    if isinstance(v, TensorV):
        v = concretize_int(eng, v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, (ScalarV, UnknownV)) and getattr(v, "kind", "int") == "int":
        raise _und(eng, f"symbolic {what}")
    eng.throw("TypeError", f"{what} must be concrete integers")


def shape_arg(eng, v):
    if isinstance(v, (int, TensorV, ScalarV)) and not isinstance(v, bool) or isinstance(v, bool):
        s = (static_int(eng, v, "shape"),)
    else:
        if v is None or isinstance(v, (float, str)):
            eng.throw("TypeError", "Shapes must be 1D sequences of concrete values of integer type")
        s = tuple(static_int(eng, x, "shape") for x in eng.iterate(v))
    if any(d < 0 for d in s):
        eng.throw("TypeError", "shape must have every element be nonnegative")
    return s


# -------------------------------------------------------------- reshaping ops


def reshape(eng, t, shape):
    shape = list(shape)
    if -1 in shape:
        k = shape.index(-1)
        rest = size([d for d in shape if d != -1])
        if rest == 0 or size(t.shape) % rest:
            eng.throw("TypeError", "cannot reshape array")
        shape[k] = size(t.shape) // rest
    shape = tuple(shape)
    if size(shape) != size(t.shape):
        eng.throw("TypeError", f"cannot reshape array of shape {t.shape} into shape {shape}")
    a = [(k, d) for k, d in enumerate(t.shape) if d != 1]
    b = [(k, d) for k, d in enumerate(shape) if d != 1]
    n = kindnode(t)
    if [d for _, d in a] == [d for _, d in b]:
        n = ren(n, {f"i{k}": f"i{j}" for (k, _), (j, _) in zip(a, b)})
    elif D.node_has_index(n):
        n = opaque(eng, t, f"reshape{t.shape}->{shape}", [n], shape)
    return mk(eng, shape, t.dtype, n, t.weak, [t])


def opaque(eng, t, name, nodes, shape, boolean=None):
    """an element that depends on whole arrays in an unmodelled way (a function of the output index)"""
    idx = tuple(D.leaf(D.psym(f"@{k}", (f"i{k}",))) for k, d in enumerate(shape) if d != 1)
    cn = tuple(D._canon_idx(n, 0) for n in nodes)
    if t.dtype == "bool" if boolean is None else boolean:
        return D.batom(("opq", name, cn + idx))
    return D.leaf(D.patom(("fn", name, cn + idx)))


def expand_dims(eng, t, axes):
    r = len(t.shape) + len(axes)
    axes = [a + r if a < 0 else a for a in axes]
    if any(a < 0 or a >= r for a in axes) or len(set(axes)) != len(axes):
        eng.throw("ValueError", "axis out of bounds")
    shape, m, k = [], {}, 0
    for j in range(r):
        if j in axes:
            shape.append(1)
        else:
            m[f"i{k}"] = f"i{j}"
            shape.append(t.shape[k])
            k += 1
    return mk(eng, shape, t.dtype, ren(kindnode(t), m), t.weak, [t])


def squeeze(eng, t, axes=None):
    if axes is None:
        axes = [k for k, d in enumerate(t.shape) if d == 1]
    axes = [a + len(t.shape) if a < 0 else a for a in axes]
    if any(t.shape[a] != 1 for a in axes):
        eng.throw("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
    m, shape = {}, []
    for k, d in enumerate(t.shape):
        if k not in axes:
            m[f"i{k}"] = f"i{len(shape)}"
            shape.append(d)
    return mk(eng, shape, t.dtype, ren(kindnode(t), m), t.weak, [t])


def transpose(eng, t, perm=None):
    r = len(t.shape)
    perm = list(range(r))[::-1] if perm is None else [p % r for p in perm]
    if sorted(perm) != list(range(r)):
        eng.throw("ValueError", "axes don't match array")
    return mk(eng, [t.shape[p] for p in perm], t.dtype, ren(kindnode(t), {f"i{p}": f"i{j}" for j, p in enumerate(perm)}), t.weak, [t])


def norm_axes(eng, axis, r):
    if axis is None:
        return list(range(r))
    ax = [axis] if isinstance(axis, int) else list(eng.iterate(axis))
    out = []
    for a in ax:
        if not isinstance(a, int):
            raise _und(eng, "symbolic axis")
        if a < -r or a >= r:
            eng.throw("ValueError", f"axis {a} is out of bounds for array of dimension {r}")
        out.append(a % r)
    return sorted(out)


def reduce(eng, t, op, axis=None, keepdims=False, dtype=None):
    r = len(t.shape)
    axes = norm_axes(eng, axis, r)
    n = kindnode(t)
    dt, weak = t.dtype, t.weak
    boolean = op in ("all", "any")
    if boolean:
        n = n if D.is_bool_node(n) else D.to_bool(n)
        dt, weak = "bool", False
    isb = D.is_bool_node(n)
    if op in ("sum", "prod") and dt == "bool":
        dt = "int32"
    if op == "mean" and dt not in FLOATS:
        dt = "float32"
    cnt = size([t.shape[a] for a in axes])
    live = [a for a in axes if t.shape[a] != 1 and depends(n, a)]
    mult = size([t.shape[a] for a in axes if a not in live])
    full = len(live) == sum(1 for k, d in enumerate(t.shape) if d != 1 and depends(n, k))
    if boolean:
        if not live:
            pass
        elif full:
            n = D.reduce_all(n) if op == "all" else D.reduce_any(n)
        else:
            n = partial_red(n, op, live, True)
    elif op in ("max", "min"):
        if live:
            if full:
                n = D.leaf(D.patom(("fn", op, (D._canon_idx(D.to_num(n), 0),))))
            else:
                n = partial_red(D.to_num(n), op, live, False)
    elif op in ("sum", "mean"):
        if live:
            if full and isb:
                n = D.leaf(D.patom(("fn", "countsum", (D._canon_idx(n, 0), D.pconst(size([t.shape[a] for a in live]))))))
            else:
                n = partial_red(D.to_num(n), "sum", live, False)
        else:
            n = D.to_num(n)
        if op == "mean":
            n = D.div(D.mul(n, D.num(mult)), D.num(cnt))
        else:
            n = D.mul(n, D.num(mult))
    else:
        if live:
            n = partial_red(D.to_num(n), op, live, False)
    keep, m = [], {}
    for k, d in enumerate(t.shape):
        if k in axes:
            if keepdims:
                keep.append(1)
        else:
            m[f"i{k}"] = f"i{len(keep)}"
            keep.append(d)
    n = ren(n, m)
    if dtype is not None:
        dt = dtype
    return mk(eng, keep, dt, n, weak, [t])


def depends(n, k):
    found = []

    def f(i):
        found.append(base(i)[0])
        return i
    D.node_rename(n, f)
    return f"i{k}" in found


def partial_red(n, op, axes, boolean):
    names = {f"i{a}" for a in axes}
    inner = D.node_rename(n, lambda i: "b" + i[1:] if base(i)[0] in names else i)
    if boolean:
        return D.batom(("opq", op, (inner,)))
    return D.leaf(D.patom(("fn", op, (inner,))))


def stack(eng, ts, axis=0):
    if not ts:
        eng.throw("ValueError", "Need at least one array to stack.")
    if any(t.shape != ts[0].shape for t in ts):
        eng.throw("ValueError", "All input arrays must have the same shape.")
    r = len(ts[0].shape) + 1
    axis = axis % r
    shape = list(ts[0].shape)
    shape.insert(axis, len(ts))
    d, w = promote([(t.dtype, t.weak) for t in ts])
    m = {f"i{k}": f"i{k if k < axis else k + 1}" for k in range(r - 1)}
    ns = [ren(kindnode(astype(eng, t, d)), m) for t in ts]
    if all(n is ns[0] for n in ns):
        n = ns[0]
    elif len(ns) == 1:
        n = ns[0]
    elif d == "bool":
        n = D.FALSE
        for k, x in enumerate(ns):
            n = D.bor(n, D.band(D.batom(("opq", "idx==", (D.leaf(D.psym("@i", (f"i{axis}",))), k))), x))
    else:
        n = D.fn("stack", D.leaf(D.psym("@i", (f"i{axis}",))), *[D.to_num(x) for x in ns])
    return mk(eng, shape, d, n, w, ts)


def concatenate(eng, ts, axis=0):
    if len(ts) == 1:
        return ts[0]
    r = len(ts[0].shape)
    if r == 0:
        eng.throw("ValueError", "Zero-dimensional arrays cannot be concatenated.")
    axis = axis % r
    if any(len(t.shape) != r or any(k != axis and t.shape[k] != ts[0].shape[k] for k in range(r)) for t in ts):
        eng.throw("TypeError", "Cannot concatenate arrays with different shapes")
    shape = list(ts[0].shape)
    shape[axis] = sum(t.shape[axis] for t in ts)
    d, w = promote([(t.dtype, t.weak) for t in ts])
    n = opaque(eng, TensorV((), d, D.num(0)), f"concat{axis}{[t.shape for t in ts]}", [kindnode(t) for t in ts], shape)
    return mk(eng, shape, d, n, w, ts)


def matmul(eng, a, b):
    ta, tb = to_tensor(eng, a), to_tensor(eng, b)
    if not ta.shape or not tb.shape:
        eng.throw("ValueError", "matmul input operand must have ndim at least 1")
    x = ta.shape if len(ta.shape) > 1 else (1,) + ta.shape
    y = tb.shape if len(tb.shape) > 1 else tb.shape + (1,)
    if x[-1] != y[-2]:
        eng.throw("TypeError", "dot_general requires contracting dimensions to have the same shape")
    bs = bshape(eng, [x[:-2], y[:-2]])
    shape = list(bs) + ([x[-2]] if len(ta.shape) > 1 else []) + ([y[-1]] if len(tb.shape) > 1 else [])
    d, w = promote([(ta.dtype, ta.weak), (tb.dtype, tb.weak)])
    n = opaque(eng, TensorV((), d, D.num(0)), "matmul", [kindnode(ta), kindnode(tb)], shape)
    return mk(eng, shape, d, n, w, [ta, tb])


def index_static(eng, t, k):
    return tensor_index(eng, t, k)


def norm_key(eng, t, k):
    if isinstance(k, Ref) and isinstance(eng.cell(k), ListCell):
        k = asarray(eng, k)
    keys = list(k) if isinstance(k, tuple) else [k]
    n = sum(1 for x in keys if x is not None and x is not Ellipsis and not (isinstance(x, TensorV) and x.dtype == "bool")) + \
        sum(len(x.shape) for x in keys if isinstance(x, TensorV) and x.dtype == "bool")
    if n > len(t.shape):
        eng.throw("IndexError", "Too many indices for array")
    ell = [i for i, x in enumerate(keys) if x is Ellipsis]
    if len(ell) > 1:
        eng.throw("IndexError", "an index can only have a single ellipsis")
    fill = [slice(None)] * (len(t.shape) - n)
    if ell:
        keys = keys[:ell[0]] + fill + keys[ell[0] + 1:]
    else:
        keys = keys + fill
    return keys


def tensor_index(eng, t, k):
    keys = norm_key(eng, t, k)
    if any(isinstance(x, str) for x in keys):
        eng.throw("TypeError", "array indices must be integers or slices")
    if any(isinstance(x, TensorV) and x.dtype == "bool" for x in keys):
        x = [x for x in keys if isinstance(x, TensorV) and x.dtype == "bool"][0]
        if x.tracer:
            eng.event("concretize", "boolean mask indexing of traced arrays")
            eng.throw("ConcretizationTypeError", "Array boolean indices must be concrete")
        eng.event("concretize_eager", "boolean mask indexing")
        return eng.unknown("array selected by a boolean mask")
    m, shape, d = {}, [], 0
    n = kindnode(t)
    opq = []
    for x in keys:
        if x is None:
            shape.append(1)
        elif isinstance(x, slice):
            dim = t.shape[d]
            bounds = []
            for q in (x.start, x.stop, x.step):
                if isinstance(q, TensorV):
                    if q.tracer:
                        eng.event("concretize", "slice bound from a traced array")
                        eng.throw("ConcretizationTypeError", "Array slice indices must have static start/stop/step")
                    q = concretize_int(eng, q)
                if isinstance(q, (ScalarV, UnknownV)):
                    raise _und(eng, "symbolic slice")
                bounds.append(q)
            try:
                rg = range(dim)[slice(*bounds)]
            except (TypeError, ValueError) as e:
                eng.throw(type(e).__name__, str(e))
            if len(rg) == 1 and dim != 1:
                m[f"i{d}"] = rg[0]
            elif rg == range(dim):
                m[f"i{d}"] = f"i{len(shape)}"
            elif rg.step == 1:
                m[f"i{d}"] = f"i{len(shape)}+{rg.start}"
            else:
                m[f"i{d}"] = f"i{len(shape)}"
                if depends(n, d):
                    opq.append((d, f"slice{rg}"))
            shape.append(len(rg))
            d += 1
        elif isinstance(x, bool):
            raise _und(eng, "boolean scalar index")
        elif isinstance(x, int):
            dim = t.shape[d]
            if x < 0:
                x += dim
            x = min(max(x, 0), dim - 1)
            m[f"i{d}"] = x
            d += 1
        elif isinstance(x, (TensorV, ScalarV)):
            if isinstance(x, ScalarV):
                x = to_tensor(eng, x)
            if x.dtype in FLOATS:
                eng.throw("TypeError", "Indexer must have integer or boolean type")
            if t.shape[d] == 1 and not x.shape:
                d += 1
                continue
            if len([y for y in keys if isinstance(y, TensorV)]) > 1:
                raise _und(eng, "several array indices")
            off = len(shape)
            xi = ren(D.to_num(kindnode(x)), {f"i{q}": f"i{q + off}" for q in range(len(x.shape))})
            names = f"i{d}"
            if depends(n, d):
                inner = D.node_rename(n, lambda i: "b" + i[1:] if base(i)[0] == names else i)
                n = D.fn("gather", xi) if False else D.leaf(D.patom(("fn", "gather", (inner, xi))))
            shape.extend(x.shape)
            d += 1
        elif x is None:
            pass
        elif isinstance(x, UnknownV):
            return eng.unknown("index by unknown")
        else:
            eng.throw("TypeError", "array indices must be integers or slices")
    if opq:
        n = opaque(eng, t, f"index{[o[1] for o in opq]}", [n], shape)
        return mk(eng, shape, t.dtype, n, t.weak, [t])
    return mk(eng, shape, t.dtype, ren(n, m), t.weak, [t])


def at_attr(eng, o, name):
    if o.idx is None:
        return UNBOUND
    t = o.tensor

    def op(e, a, k):
        if name == "get":
            return tensor_index(e, t, o.idx[0])
        v = to_tensor(e, a[0])
        keys = norm_key(e, t, o.idx[0])
        fns = {"set": lambda x, y: y, "add": D.add, "multiply": D.mul, "mul": D.mul, "divide": D.div, "max": D.vmax, "min": D.vmin,
               "subtract": D.sub, "power": lambda x, y: pow_node(x, y)}
        if name not in fns:
            e.throw("AttributeError", name)
        v = astype(e, v, t.dtype)
        if all(isinstance(x, slice) and x == slice(None) for x in keys):
            v = broadcast_to(e, v, t.shape)
            return mk(e, t.shape, t.dtype, fns[name](kindnode(t), kindnode(v)), t.weak, [t, v])
        masks = [x for x in keys if isinstance(x, TensorV) and x.dtype == "bool"]
        if masks and isinstance(keys[0], TensorV) and len(masks) == 1 and \
                all(isinstance(x, slice) and x == slice(None) for x in keys[1:]):
            mask = masks[0]
            if mask.shape != t.shape[:len(mask.shape)]:
                e.throw("IndexError", "boolean index did not match shape of indexed array")
            if len(v.shape) > len(t.shape) - len(mask.shape):
                if masks[0].tracer:
                    e.event("concretize", "boolean mask scatter of traced arrays")
                    e.throw("ConcretizationTypeError", "Array boolean indices must be concrete")
                raise _und(e, "scatter by a boolean mask")
            v = broadcast_to(e, v, t.shape)
            n = D.ite(kindnode(mask), fns[name](kindnode(t), kindnode(v)), kindnode(t))
            return mk(e, t.shape, t.dtype, n, t.weak, [t, v, mask])
        if all(isinstance(x, (int, slice)) for x in keys):
            n = opaque(e, t, f"scatter-{name}-{keys}", [kindnode(t), kindnode(v)], t.shape)
            return mk(e, t.shape, t.dtype, n, t.weak, [t, v])
        raise _und(e, "indexed update")
    return BuiltinV(name, op)


TENSOR_METHODS = {"sum", "mean", "max", "min", "prod", "all", "any", "reshape", "ravel", "flatten", "squeeze", "copy", "item", "tolist",
                  "transpose", "clip", "astype", "swapaxes", "round", "dot", "take", "cumsum", "repeat", "argmax", "argmin", "std",
                  "var", "block_until_ready", "conj", "nonzero", "view", "sort", "argsort", "diagonal", "trace", "addressable_data",
                  "devices", "device", "is_deleted", "delete", "ptp", "fill", "searchsorted", "choose", "compress", "cumprod", "conjugate",
                  "__array__", "__len__", "__bool__", "__float__", "__int__", "__add__", "__mul__", "__sub__", "__getitem__",
                  "__eq__", "__and__", "__or__", "__invert__", "__neg__", "__gt__", "__lt__", "__ge__", "__le__", "__rmul__", "__radd__"}


def tensor_attr(eng, t, name):
    if name == "shape":
        return t.shape
    if name == "ndim":
        return len(t.shape)
    if name == "dtype":
        return DTypeV(t.dtype)
    if name == "size":
        return size(t.shape)
    if name == "T":
        return transpose(eng, t)
    if name == "at":
        return AtV(t) if not t.np else UNBOUND
    if name == "real":
        return t
    if name == "weak_type":
        return t.weak
    if name == "aval":
        return t
    if name in ("nbytes", "itemsize"):
        return eng.unknown(name)
    if name == "__class__":
        return eng.B.type_of(eng, t)
    if name == "sharding":
        return eng.unknown(name)
    if name in TENSOR_METHODS:
        return BuiltinV("Array." + name, lambda e, a, k: tensor_method(e, t, name, a, k))
    return UNBOUND


def tensor_method(eng, t, name, a, k):
    if name in ("sum", "mean", "max", "min", "prod", "all", "any", "squeeze", "transpose", "clip", "swapaxes", "cumsum", "repeat",
                "argmax", "argmin", "std", "var", "round", "dot", "take", "sort", "argsort", "cumprod", "nonzero", "ravel"):
        if name == "transpose" and a:
            a = [tuple(a) if len(a) > 1 or isinstance(a[0], int) else a[0]]
        if name == "clip":
            k = {{"min": "a_min", "max": "a_max"}.get(n, n): v for n, v in k.items()}
        return call_ext(eng, ExtV("jax.numpy." + name), [t] + list(a), k)
    if name == "flatten":
        return reshape(eng, t, (size(t.shape),))
    if name == "reshape":
        if len(a) == 1 and not isinstance(a[0], int):
            a = eng.iterate(a[0])
        return reshape(eng, t, [static_int(eng, x, "shape") for x in a])
    if name == "astype":
        return astype(eng, t, need_dtype(eng, a[0] if a else k.get("dtype")))
    if name in ("copy", "block_until_ready", "conj", "conjugate"):
        return t
    if name == "item":
        return concretize_number(eng, t, "int" if t.dtype in INTS + UINTS else "float") if t.dtype != "bool" else \
            eng.mkbool(concretize_bool(eng, t))
    if name == "tolist":
        if t.tracer:
            eng.event("concretize", "tolist of a traced array")
            eng.throw("ConcretizationTypeError", "tolist of a traced array")
        eng.event("concretize_eager", "tolist")
        return eng.unknown("tolist of an array")
    if name == "__array__":
        return np_array(eng, t)
    if name.startswith("__"):
        op = {"__add__": "add", "__mul__": "mul", "__sub__": "sub", "__and__": "and", "__or__": "or", "__rmul__": "mul", "__radd__": "add"}
        if name in op:
            return tensor_binop(eng, op[name], t, a[0])
        if name in ("__gt__", "__lt__", "__ge__", "__le__", "__eq__"):
            return tensor_compare(eng, name[2:4], t, a[0])
        if name == "__getitem__":
            return tensor_index(eng, t, a[0])
        if name == "__invert__":
            return tensor_unop(eng, "invert", t)
        if name == "__neg__":
            return tensor_unop(eng, "neg", t)
        if name == "__bool__":
            return eng.mkbool(concretize_bool(eng, t))
        if name == "__float__":
            return concretize_number(eng, t, "float")
        if name == "__int__":
            return concretize_number(eng, t, "int")
        if name == "__len__":
            return eng.B.b_len(eng, [t], {})
    return eng.unknown(f"array method {name}")


def np_array(eng, v, dtype=None):
    if isinstance(v, TensorV) and v.tracer:
        eng.event("concretize", "numpy conversion of a traced array")
        eng.throw("ConcretizationTypeError", "The numpy.ndarray conversion method __array__() was called on traced array")
    t = asarray(eng, v, dtype)
    return cut(eng, TensorV(t.shape, t.dtype, t.node, False, eng.loc(), False, True, t.low), "numpy")


# -------------------------------------------------------------------- pytrees


def find_phi(eng, v, path=(), seen=None):
    """path to a gated alternative inside a container, or None"""
    if isinstance(v, PhiV):
        return path
    if isinstance(v, tuple):
        for i, x in enumerate(v):
            p = find_phi(eng, x, path + (("t", i),), seen)
            if p is not None:
                return p
        return None
    if isinstance(v, Ref):
        seen = seen or set()
        if v.id in seen:
            return None
        seen = seen | {v.id}
        c = eng.cell(v)
        if isinstance(c, AltCell):
            return path
        if isinstance(c, ListCell):
            for i, x in enumerate(c.items):
                p = find_phi(eng, x, path + (("l", i),), seen)
                if p is not None:
                    return p
        elif isinstance(c, DictCell):
            for h, (k, x) in c.items.items():
                p = find_phi(eng, x, path + (("d", h),), seen)
                if p is not None:
                    return p
        elif isinstance(c, ObjCell):
            for n, x in c.attrs.items():
                p = find_phi(eng, x, path + (("o", n),), seen)
                if p is not None:
                    return p
    return None


def get_path(eng, v, path):
    for kind, i in path:
        if kind == "t":
            v = v[i]
        else:
            c = eng.cell(v)
            v = c.items[i] if kind == "l" else c.items[i][1] if kind == "d" else c.attrs[i]
    return v


def put_path(eng, v, path, new):
    if not path:
        return new
    (kind, i), rest = path[0], path[1:]
    if kind == "t":
        return v[:i] + (put_path(eng, v[i], rest, new),) + v[i + 1:]
    c = eng.cell(v)
    if kind == "l":
        x = put_path(eng, c.items[i], rest, new)
        eng.put(v, ListCell(c.items[:i] + (x,) + c.items[i + 1:]))
    elif kind == "d":
        x = put_path(eng, c.items[i][1], rest, new)
        d = dict(c.items)
        d[i] = (d[i][0], x)
        eng.put(v, DictCell(d, c.default))
    else:
        x = put_path(eng, c.attrs[i], rest, new)
        at = dict(c.attrs)
        at[i] = x
        eng.put(v, ObjCell(c.cls, at, c.extra))
    return v


def with_tree(eng, vs, k):
    """k(vs) with every gated alternative nested in the values resolved by forking"""
    vs = tuple(vs)
    p = find_phi(eng, vs)
    if p is None:
        return k(vs)
    x = get_path(eng, vs, p)
    if isinstance(x, PhiV):
        return eng.fork(x.cond, lambda: with_tree(eng, put_path(eng, vs, p, x.a), k),
                        lambda: with_tree(eng, put_path(eng, vs, p, x.b), k))
    c = eng.cell(x)

    def side(cc):
        def g():
            eng.put(x, cc)
            return with_tree(eng, vs, k)
        return g
    return eng.fork(c.cond, side(c.a), side(c.b))


LEAF = TreeDefV("leaf")


def reg_of(eng, cls):
    r = eng.pytrees.get(cls)
    return r


def dict_keys_sorted(eng, c):
    ks = [k for k, _ in c.items.values()]
    try:
        return sorted(ks, key=lambda k: k)
    except TypeError:
        if all(isinstance(k, EnumV) for k in ks):
            return sorted(ks, key=lambda k: str(k.value))
        eng.throw("ValueError", "Comparator raised exception while sorting pytree dictionary keys.")


def tree_flatten(eng, v, is_leaf=None):
    """(leaves list, TreeDefV) for a value without gated alternatives"""
    leaves = []
    td = _flat(eng, v, is_leaf, leaves, [], None)
    return leaves, td


def _is_leaf(eng, is_leaf, v):
    if is_leaf is None:
        return False
    r = eng._node(eng.truth(eng.call(is_leaf, [v], {})))
    if r is D.TRUE:
        return True
    if r is D.FALSE:
        return False
    raise _und(eng, "symbolic is_leaf")


def _flat(eng, v, is_leaf, leaves, path, paths):
    def leafit():
        leaves.append(v)
        if paths is not None:
            paths.append(tuple(path))
        return LEAF
    if is_leaf is not None and _is_leaf(eng, is_leaf, v):
        return leafit()
    if isinstance(v, (PhiV,)):
        raise _und(eng, "gated value inside a pytree")

    def kids(keys, xs):
        out = []
        for kk, x in zip(keys, xs):
            path.append(kk)
            out.append(_flat(eng, x, is_leaf, leaves, path, paths))
            path.pop()
        return out
    if v is None:
        return TreeDefV("none")
    if isinstance(v, tuple):
        return TreeDefV("tuple", None, kids([pathkey(eng, "SequenceKey", "idx", i) for i in range(len(v))], v))
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, ListCell):
            return TreeDefV("list", None, kids([pathkey(eng, "SequenceKey", "idx", i) for i in range(len(c.items))], c.items))
        if isinstance(c, DictCell):
            ks = dict_keys_sorted(eng, c)
            vals = [c.items[eng.hkey(k)][1] for k in ks]
            return TreeDefV("dict", tuple(ks), kids([pathkey(eng, "DictKey", "key", k) for k in ks], vals))
        if isinstance(c, ObjCell):
            if isinstance(c.cls, ClassV) and c.cls.flags.get("namedtuple"):
                names = [f[0] for f in c.cls.dataclass]
                return TreeDefV("custom", (c.cls, None), kids([pathkey(eng, "GetAttrKey", "name", n) for n in names], c.attrs["__nt__"]))
            reg = reg_of(eng, c.cls)
            if reg is not None:
                fl, un, wk = reg
                r = eng.call(fl, [v], {})
                return with_flat(eng, r, c.cls, wk, kids)
    if isinstance(v, ErrorV):
        leaves.append(v)
        if paths is not None:
            paths.append(tuple(path))
        return LEAF
    return leafit()


def with_flat(eng, r, cls, wk, kids):
    if isinstance(r, PhiV):
        raise _und(eng, "gated result of a flatten function")
    items = eng.iterate(r)
    if len(items) != 2:
        eng.throw("ValueError", "flatten function should return a pair (children, aux)")
    children, aux = items
    ch = eng.iterate(children)
    keys = [pathkey(eng, "FlattenedIndexKey", "key", i) for i in range(len(ch))]
    if wk:
        pairs = [eng.iterate(x) for x in ch]
        if any(len(p) != 2 for p in pairs):
            eng.throw("ValueError", "flatten_with_keys must return (key, child) pairs")
        keys = [p[0] for p in pairs]
        ch = [p[1] for p in pairs]
    return TreeDefV("custom", (cls, aux), kids(keys, ch))


def pathkey(eng, cls, attr, v):
    return eng.new(ObjCell(eng.B.extcls("jax.tree_util." + cls), {attr: v}))


def tree_unflatten(eng, td, leaves):
    leaves = list(leaves)
    n = td.num_leaves()
    if len(leaves) != n:
        eng.throw("ValueError", f"Too {'few' if len(leaves) < n else 'many'} leaves for PyTreeDef; expected {n}, got {len(leaves)}")
    it = iter(leaves)
    return _unflat(eng, td, it)


def _unflat(eng, td, it):
    if td.kind == "leaf":
        return next(it)
    if td.kind == "none":
        return None
    xs = [_unflat(eng, c, it) for c in td.children]
    if td.kind == "tuple":
        return tuple(xs)
    if td.kind == "list":
        return eng.new_list(xs)
    if td.kind == "dict":
        return eng.new_dict(zip(td.data, xs))
    cls, aux = td.data
    if cls.flags.get("namedtuple"):
        return eng.B.instantiate(eng, cls, xs, {})
    un = reg_of(eng, cls)[1]
    return eng.call(un, [aux, tuple(xs)], {})


def flatten_up_to(eng, td, v):
    if td.kind == "leaf":
        return [v]

    def bad(msg):
        eng.throw("ValueError", msg)
    if td.kind == "none":
        if v is not None:
            bad("Expected None, got " + eng.B.type_name(eng, v))
        return []
    c = eng.cell(v) if isinstance(v, Ref) else None
    if td.kind == "tuple":
        if not isinstance(v, tuple) or len(v) != len(td.children):
            bad("Expected tuple")
        xs = v
    elif td.kind == "list":
        if not isinstance(c, ListCell) or len(c.items) != len(td.children):
            bad("Expected list / list arity mismatch")
        xs = c.items
    elif td.kind == "dict":
        if not isinstance(c, DictCell) or set(c.items) != {eng.hkey(k) for k in td.data}:
            bad("Expected dict / dict key mismatch")
        xs = [c.items[eng.hkey(k)][1] for k in td.data]
    else:
        if not isinstance(c, ObjCell) or c.cls is not td.data[0]:
            bad("Custom node type mismatch")
        if td.data[0].flags.get("namedtuple"):
            xs = c.attrs["__nt__"]
        else:
            fl, un, wk = reg_of(eng, c.cls)
            ch, aux = eng.iterate(eng.call(fl, [v], {}))
            xs = eng.iterate(ch)
            if wk:
                xs = [eng.iterate(p)[1] for p in xs]
            if eng.equal(aux, td.data[1]) is not True:
                bad("Mismatch custom node data")
    out = []
    for t, x in zip(td.children, xs):
        out += flatten_up_to(eng, t, x)
    return out


def treedef_equal(eng, a, b):
    if a is b:
        return True
    if a.kind != b.kind or len(a.children) != len(b.children):
        return False
    if a.kind == "dict":
        if [eng.hkey(k) for k in a.data] != [eng.hkey(k) for k in b.data]:
            return False
    out = D.TRUE
    if a.kind == "custom":
        if a.data[0] is not b.data[0]:
            return False
        out = eng._node(eng.equal(a.data[1], b.data[1])) if a.data[1] is not b.data[1] else D.TRUE
    for x, y in zip(a.children, b.children):
        out = D.band(out, eng._node(treedef_equal(eng, x, y)))
        if out is D.FALSE:
            return False
    return True if out is D.TRUE else out


def node_data(eng, td):
    B = eng.B
    if td.kind == "leaf":
        return None
    if td.kind == "none":
        return (B.NONETYPE, None)
    if td.kind in ("tuple", "list"):
        return (B.EXT[td.kind], None)
    if td.kind == "dict":
        return (B.EXT["dict"], eng.new_list(td.data))
    return tuple(td.data)


def treedef_attr(eng, td, name):
    if name == "num_leaves":
        return td.num_leaves()
    if name == "num_nodes":
        return td.num_nodes()
    if name == "node_data":
        return BuiltinV(name, lambda e, a, k: node_data(e, td))
    if name == "children":
        return BuiltinV(name, lambda e, a, k: e.new_list(td.children))
    if name == "unflatten":
        return BuiltinV(name, lambda e, a, k: tree_unflatten(e, td, e.iterate(a[0])))
    if name == "flatten_up_to":
        return BuiltinV(name, lambda e, a, k: with_tree(e, a, lambda vs: e.new_list(flatten_up_to(e, td, vs[0]))))
    return UNBOUND


# ------------------------------------------------------------- checkify, jit


def do_check(eng, pred, debug=False):
    if isinstance(pred, UnknownV):
        n = eng.unknown_bool("check of unknown")
    elif isinstance(pred, (bool, BoolV)):
        n = eng.boolnode(pred)
    elif isinstance(pred, TensorV) and pred.shape == () and pred.dtype == "bool":
        n = kindnode(pred)
    else:
        eng.throw("TypeError", f"check takes a scalar pred as argument, got {eng.B.type_name(eng, pred)}")
    if eng.check_stack:
        top = eng.check_stack[-1]
        bad = D.band(eng.pc, D.bnot(n))
        if bad is not D.FALSE and eng.feasible(bad):
            top[0] = D.bor(top[0], bad)
            top[1].append(eng.loc())
        return None
    if debug:
        return None
    if eng.trace_depth > 0:
        eng.throw("ValueError", "Cannot abstractly evaluate a checkify.check which was not functionalized.")
    eng.raise_if(D.bnot(n), "JaxRuntimeError", "check failed")
    return None


def to_tracer(eng, v):
    if isinstance(v, TensorV):
        return TensorV(v.shape, v.dtype, v.node, v.weak, v.loc, True, False, v.low)
    if isinstance(v, ErrorV):
        return v
    if is_number(v):
        t = to_tensor(eng, v)
        return TensorV(t.shape, t.dtype, t.node, t.weak, t.loc, True)
    if isinstance(v, UnknownV):
        return v
    if isinstance(v, DTypeV) or isinstance(v, (str, StrV, FuncV, OpaqueFn, BuiltinV, PartialV, BoundV, EnumV, Ref, ClassV, ExtV, JitV,
                                               slice, TreeDefV, bytes, range)):
        eng.throw("TypeError", f"Argument of type {eng.B.type_name(eng, v)} is not a valid JAX type")
    raise _und(eng, f"traced argument {v!r}")


def from_trace(eng, v):
    """output leaf of a traced function"""
    v = to_tracer(eng, v)
    if isinstance(v, TensorV) and eng.trace_depth == 0:
        return TensorV(v.shape, v.dtype, v.node, v.weak, v.loc, False, False, v.low)
    return v


def map_out(eng, out):
    def k(vs):
        leaves, td = tree_flatten(eng, vs[0])
        return tree_unflatten(eng, td, [from_trace(eng, x) for x in leaves])
    return with_tree(eng, (out,), k)


def call_jit(eng, j, args, kwargs):
    if j.kind == "checkify":
        return call_checkify(eng, j, args, kwargs)
    if j.kind == "vmap":
        return call_vmap(eng, j, args, kwargs)
    if j.kind.startswith("custom"):
        r = eng.call(j.func, args, kwargs)
        if j.kind == "custom_gradient":
            r = eng.iterate(r)[0]
        return cut(eng, r, j.kind)

    def k(vs):
        n = len(args)
        names = list(kwargs)
        aa, kk = [], {}
        for i, v in enumerate(vs[:n]):
            if i in j.static_nums or (i - n) in j.static_nums:
                aa.append(static_arg(eng, v))
            else:
                leaves, td = tree_flatten(eng, v)
                aa.append(tree_unflatten(eng, td, [to_tracer(eng, x) for x in leaves]))
        for m, v in zip(names, vs[n:]):
            if m in j.static_names:
                kk[m] = static_arg(eng, v)
            else:
                leaves, td = tree_flatten(eng, v)
                kk[m] = tree_unflatten(eng, td, [to_tracer(eng, x) for x in leaves])
        eng.trace_depth += 1
        try:
            out = eng.call(j.func, aa, kk)
        finally:
            eng.trace_depth -= 1
        return map_out(eng, out)
    return with_tree(eng, tuple(args) + tuple(kwargs.values()), k)


def static_arg(eng, v):
    if isinstance(v, TensorV):
        eng.throw("ValueError", "Non-hashable static arguments are not supported")
    eng.hkey(v)
    return v


def call_checkify(eng, j, args, kwargs):
    eng.check_stack.append([D.FALSE, []])
    eng.trace_depth += 1
    try:
        out = eng.call(j.func, args, kwargs)
    finally:
        eng.trace_depth -= 1
        node, locs = eng.check_stack.pop()
    out = map_out(eng, out)
    enabled = j.static_names
    if "user" not in enabled:
        node = D.FALSE
    return (ErrorV(node, tuple(locs)), out)


def error_attr(eng, e, name):
    if name == "throw":
        return BuiltinV(name, lambda en, a, k: err_throw(en, e))
    if name == "get":
        def get(en, a, k):
            if e.node is D.FALSE:
                return None
            if en.trace_depth:
                en.throw("ConcretizationTypeError", "error.get() of a traced error")
            return en.join(e.node, StrV([("opq", "error message")]), None)
        return BuiltinV(name, get)
    if name in ("get_exception",):
        def getx(en, a, k):
            exc = en.make_exc("JaxRuntimeError", ("check failed",))
            return en.join(e.node, exc, None)
        return BuiltinV(name, getx)
    return UNBOUND


def err_throw(eng, e):
    if eng.check_stack:
        # inside another checkify the error is re-recorded
        do_check(eng, BoolV(D.bnot(e.node)))
        return None
    if eng.trace_depth > 0 and e.node is not D.FALSE:
        eng.throw("ValueError", "Cannot abstractly evaluate a checkify.check which was not functionalized.")
    eng.raise_if(e.node, "JaxRuntimeError", "a recorded check failed")
    return None


UNROLL = [3]


def aval(t):
    return (t.shape, t.dtype)


def traced_call(eng, f, args):
    eng.trace_depth += 1
    try:
        return eng.call(f, args, {})
    finally:
        eng.trace_depth -= 1


def leaves_of(eng, v):
    return tree_flatten(eng, v)


def scalar_pred(eng, v, what):
    if isinstance(v, UnknownV):
        return eng.unknown_bool(what)
    if isinstance(v, (bool, BoolV)):
        return eng.boolnode(v)
    if isinstance(v, TensorV) and v.shape == () and v.dtype == "bool":
        return kindnode(v)
    eng.throw("TypeError", f"{what} must return a boolean scalar")


def while_loop(eng, cond, body, init):
    def k(vs):
        leaves, td = tree_flatten(eng, vs[0])
        leaves = [to_tracer(eng, x) for x in leaves]
        # weakly typed inputs take the type of the body's output
        cur = leaves
        live = D.TRUE
        done = None
        promoted = False
        outs = None
        step = 0
        while True:
            c = with_tree(eng, (traced_call(eng, cond, [tree_unflatten(eng, td, cur)]),), lambda x: x[0])
            g = scalar_pred(eng, c, "cond_fun")
            c_low = c if isinstance(c, TensorV) else None
            live2 = D.band(live, g)
            if step == 0:
                n_trace = 1
            if step >= UNROLL[0] or (step and not eng.feasible(D.band(eng.pc, live2))):
                break
            eng.loop_live.append(live2)
            try:
                r = traced_call(eng, body, [tree_unflatten(eng, td, cur)])
            finally:
                eng.loop_live.pop()

            def out(ws):
                ls, td2 = tree_flatten(eng, ws[0])
                same = treedef_equal(eng, td, td2)
                if same is not True:
                    if same is False:
                        eng.throw("TypeError", "body_fun output and input must have same type structure, "
                                               f"got {td2!r} and {td!r}.")
                    raise _und(eng, "loop carry structure")
                return tuple(to_tracer(eng, x) for x in ls)
            new = with_tree(eng, (r,), out)
            if not isinstance(new, tuple):
                raise _und(eng, "loop carry")
            if not promoted:
                promoted = True
                fixed = []
                ch = False
                for a, b in zip(cur, new):
                    if a.weak and aval(a) != aval(b) and a.shape == b.shape:
                        d, w = promote([(a.dtype, a.weak), (b.dtype, b.weak)])
                        if d == b.dtype:
                            a = TensorV(a.shape, b.dtype, D.to_num(a.node) if b.dtype != "bool" else a.node, b.weak, a.loc, True, False, a.low)
                            ch = True
                    elif a.weak and not b.weak and a.shape == b.shape and a.dtype == b.dtype:
                        a = TensorV(a.shape, a.dtype, a.node, False, a.loc, True, False, a.low)
                        ch = True
                    fixed.append(a)
                if ch:
                    cur = fixed
                    continue
            for a, b in zip(cur, new):
                if aval(a) != aval(b):
                    eng.throw("TypeError", "body_fun output and input must have identical types, "
                                           f"got {b.dtype}{list(b.shape)} for {a.dtype}{list(a.shape)}")
            nxt = []
            for a, b in zip(cur, new):
                nxt.append(TensorV(a.shape, a.dtype, D.ite(live2, kindnode(b), kindnode(a)), a.weak, b.loc, True, False, lows(a, b, c_low)))
            cur = nxt
            live = live2
            step += 1
        if live2 is not D.FALSE:
            eng.event("loop-bound", f"loop analysed for histories of at most {step} iterations", live2)
            eng.assume(D.bnot(live2))
        return cut(eng, tree_unflatten(eng, td, [from_trace(eng, x) for x in cur]), "while_loop")
    return with_tree(eng, (init,), k)


def lax_cond(eng, pred, tf, ff, ops):
    if isinstance(pred, TensorV):
        if pred.shape != ():
            eng.throw("TypeError", "Pred must be a scalar")
        p = kindnode(pred)
        p = p if D.is_bool_node(p) else D.to_bool(p)
    elif is_number(pred):
        p = eng._node(eng.truth(pred))
    else:
        eng.throw("TypeError", "Pred type must be either boolean or number")

    def k(vs):
        tr = []
        for v in vs:
            ls, td = tree_flatten(eng, v)
            tr.append(tree_unflatten(eng, td, [to_tracer(eng, x) for x in ls]))
        a = traced_call(eng, tf, tr)
        b = traced_call(eng, ff, tr)

        def both(ws):
            la, ta = tree_flatten(eng, ws[0])
            lb, tb = tree_flatten(eng, ws[1])
            if treedef_equal(eng, ta, tb) is not True:
                eng.throw("TypeError", "true_fun and false_fun output must have same type structure")
            out = []
            for x, y in zip(la, lb):
                x, y = to_tracer(eng, x), to_tracer(eng, y)
                if aval(x) != aval(y):
                    if not (x.shape == y.shape and (x.weak or y.weak)):
                        eng.throw("TypeError", "true_fun and false_fun output must have identical types")
                    d, w = promote([(x.dtype, x.weak), (y.dtype, y.weak)])
                    x, y = astype(eng, x, d, w), astype(eng, y, d, w)
                out.append(from_trace(eng, TensorV(x.shape, x.dtype, D.ite(p, kindnode(x), kindnode(y)), x.weak and y.weak,
                                                   eng.loc(), True, False, lows(x, y))))
            return tree_unflatten(eng, ta, out)
        return with_tree(eng, (a, b), both)
    return with_tree(eng, ops, k)


# ---------------------------------------------------------- ext dispatch tables

FUNCS = {}


def ext(*paths):
    def d(f):
        for p in paths:
            FUNCS[p] = f
        return f
    return d


def jnp_(*names):
    ps = []
    for n in names:
        ps += ["jax.numpy." + n, "numpy." + n]
    return ext(*ps)


def bindargs(eng, names, a, k, defaults={}):
    out = dict(defaults)
    if len(a) > len(names):
        eng.throw("TypeError", "too many positional arguments")
    for n, v in zip(names, a):
        out[n] = v
    for n, v in k.items():
        if n not in names:
            eng.throw("TypeError", f"got an unexpected keyword argument '{n}'")
        if n in names[:len(a)]:
            eng.throw("TypeError", f"got multiple values for argument '{n}'")
        out[n] = v
    for n in names:
        if n not in out:
            eng.throw("TypeError", f"missing a required argument: '{n}'")
    return [out[n] for n in names]


NONE = None


def _arith2(op):
    def f(eng, a, k):
        x, y = bindargs(eng, ["x1", "x2"], a, k)
        x, y = to_tensor(eng, x, op), to_tensor(eng, y, op)
        return arith(eng, op, x, y)
    return f


for _o, _ns in (("add", ("add",)), ("sub", ("subtract",)), ("mul", ("multiply",)), ("div", ("divide", "true_divide")),
                ("pow", ("power", "float_power")), ("floordiv", ("floor_divide",)), ("mod", ("mod", "remainder"))):
    jnp_(*_ns)(_arith2(_o))


def _cmp2(op):
    def f(eng, a, k):
        x, y = bindargs(eng, ["x1", "x2"], a, k)
        return tensor_compare(eng, op, to_tensor(eng, x), to_tensor(eng, y))
    return f


for _o, _n in (("gt", "greater"), ("ge", "greater_equal"), ("lt", "less"), ("le", "less_equal"), ("eq", "equal"), ("ne", "not_equal")):
    jnp_(_n)(_cmp2(_o))


def _logic(op):
    def f(eng, a, k):
        x, y = bindargs(eng, ["x1", "x2"], a, k)
        return elementwise(eng, [x, y], lambda p, q: {"and": D.band, "or": D.bor, "xor": D.bxor}[op](D.to_bool(p), D.to_bool(q)), "bool")
    return f


for _o in ("and", "or", "xor"):
    jnp_("logical_" + _o)(_logic(_o))


@jnp_("logical_not")
def f_lnot(eng, a, k):
    return elementwise(eng, a[:1], lambda p: D.bnot(D.to_bool(p)), "bool")


def _bit(op):
    def f(eng, a, k):
        x, y = bindargs(eng, ["x1", "x2"], a, k)
        return bitop(eng, op, to_tensor(eng, x), to_tensor(eng, y))
    return f


for _o in ("and", "or", "xor"):
    jnp_("bitwise_" + _o)(_bit(_o))
    ext("jax.lax.bitwise_" + _o)(_bit(_o))


@jnp_("bitwise_not", "invert")
def f_inv(eng, a, k):
    return tensor_unop(eng, "invert", to_tensor(eng, a[0]))


FUNCS["jax.lax.bitwise_not"] = f_inv


@jnp_("negative")
def f_neg(eng, a, k):
    return tensor_unop(eng, "neg", to_tensor(eng, a[0]))


FUNCS["jax.lax.neg"] = f_neg


@jnp_("positive")
def f_pos(eng, a, k):
    return to_tensor(eng, a[0])


@jnp_("maximum", "fmax")
def f_max2(eng, a, k):
    x, y = bindargs(eng, ["x1", "x2"], a, k)
    return elementwise(eng, [x, y], lambda p, q: D.bor(p, q) if D.is_bool_node(p) and D.is_bool_node(q) else D.vmax(D.to_num(p), D.to_num(q)))


@jnp_("minimum", "fmin")
def f_min2(eng, a, k):
    x, y = bindargs(eng, ["x1", "x2"], a, k)
    return elementwise(eng, [x, y], lambda p, q: D.band(p, q) if D.is_bool_node(p) and D.is_bool_node(q) else D.vmin(D.to_num(p), D.to_num(q)))


@jnp_("clip")
def f_clip(eng, a, k):
    x, lo, hi, out = bindargs(eng, ["a", "a_min", "a_max", "out"], a, k, {"a_min": None, "a_max": None, "out": None})
    if lo is None and hi is None:
        eng.throw("ValueError", "At most one of a_min and a_max may be None")
    r = to_tensor(eng, x)
    if lo is not None:
        r = f_max2(eng, [lo, r], {})
    if hi is not None:
        r = f_min2(eng, [hi, r], {})
    return r


@jnp_("where")
def f_where(eng, a, k):
    c, x, y = bindargs(eng, ["condition", "x", "y"], a, {n: v for n, v in k.items() if n not in ("size", "fill_value")},
                       {"x": NONE, "y": NONE})
    if x is None and y is None:
        t = to_tensor(eng, c)
        if t.tracer:
            eng.event("concretize", "nonzero of a traced array")
            eng.throw("ConcretizationTypeError", "size argument of jnp.nonzero must be static")
        return eng.unknown("where with one argument")
    if x is None or y is None:
        eng.throw("ValueError", "Either both or neither of the x and y arguments should be provided")
    c, x, y = (to_tensor(eng, v, "where") for v in (c, x, y))
    shape = bshape(eng, [c.shape, x.shape, y.shape])
    d, w = promote([(x.dtype, x.weak), (y.dtype, y.weak)])
    n = D.ite(D.to_bool(bnode(c, shape)), *kinds(d, bnode(x, shape), bnode(y, shape)))
    return mk(eng, shape, d, n, w, [c, x, y])


def kinds(d, *ns):
    return [n if d == "bool" else D.to_num(n) for n in ns]


@jnp_("select")
def f_jselect(eng, a, k):
    cl, ch, df = bindargs(eng, ["condlist", "choicelist", "default"], a, k, {"default": 0})
    cl, ch = eng.iterate(cl), eng.iterate(ch)
    if len(cl) != len(ch):
        eng.throw("ValueError", "condlist must have length equal to choicelist")
    r = df
    for c, v in reversed(list(zip(cl, ch))):
        r = f_where(eng, [c, v, r], {})
    return r


def opq1(name, dtype=None, floaty=True):
    def f(eng, a, k):
        t = to_tensor(eng, a[0], name)
        d = t.dtype
        if floaty and d not in FLOATS and d not in COMPLEX:
            d = "float32"
        n = D.to_num(kindnode(t))
        if dtype == "bool":
            return mk(eng, t.shape, "bool", D.apply("opq:" + name, lambda p: D.opq(name, p), n), False, [t])
        return mk(eng, t.shape, dtype or d, D.fn(name, n), t.weak, [t])
    return f


for _n in ("exp", "log", "sqrt", "sin", "cos", "tan", "tanh", "log1p", "expm1", "arctan", "sinh", "cosh", "exp2", "log2", "cbrt"):
    jnp_(_n)(opq1(_n))
    FUNCS["jax.lax." + _n] = FUNCS["jax.numpy." + _n]
for _n in ("floor", "ceil", "rint", "trunc", "round"):
    jnp_(_n)(opq1(_n, floaty=False))
    FUNCS["jax.lax." + _n] = FUNCS["jax.numpy." + _n]
for _n in ("sigmoid", "softplus", "gelu", "silu", "swish", "elu", "log_sigmoid", "hard_tanh", "softmax", "log_softmax", "soft_sign"):
    FUNCS["jax.nn." + _n] = opq1(_n)
    FUNCS["flax.linen." + _n] = opq1(_n)
FUNCS["jax.lax.logistic"] = opq1("sigmoid")


@ext("jax.nn.relu", "flax.linen.relu")
def f_relu(eng, a, k):
    return f_max2(eng, [a[0], 0], {})


@jnp_("abs", "absolute", "fabs")
def f_abs(eng, a, k):
    t = to_tensor(eng, a[0])
    n = D.to_num(kindnode(t))
    return mk(eng, t.shape, t.dtype, D.vmax(n, D.neg(n)), t.weak, [t])


FUNCS["jax.lax.abs"] = f_abs


@jnp_("sign")
def f_sign(eng, a, k):
    t = to_tensor(eng, a[0])
    n = D.to_num(kindnode(t))
    return mk(eng, t.shape, t.dtype, D.ite(D.gt(n, D.num(0)), D.num(1), D.ite(D.lt(n, D.num(0)), D.num(-1), D.num(0))), t.weak, [t])


FUNCS["jax.lax.sign"] = f_sign


@jnp_("square")
def f_square(eng, a, k):
    t = to_tensor(eng, a[0])
    return arith(eng, "mul", t, t)


@jnp_("reciprocal")
def f_recip(eng, a, k):
    return arith(eng, "div", 1.0, to_tensor(eng, a[0]))


@jnp_("isnan", "isinf")
def f_isnan(eng, a, k):
    t = to_tensor(eng, a[0])
    return mk(eng, t.shape, "bool", D.FALSE, False, [t])


@jnp_("isfinite")
def f_isfinite(eng, a, k):
    t = to_tensor(eng, a[0])
    return mk(eng, t.shape, "bool", D.TRUE, False, [t])


FUNCS["jax.lax.is_finite"] = f_isfinite


@jnp_("nan_to_num")
def f_nan2num(eng, a, k):
    return to_tensor(eng, a[0])


def _red(op):
    def f(eng, a, k):
        names = {"all": ["a", "axis", "out", "keepdims"], "any": ["a", "axis", "out", "keepdims"],
                 "sum": ["a", "axis", "dtype", "out", "keepdims"], "mean": ["a", "axis", "dtype", "out", "keepdims"],
                 "prod": ["a", "axis", "dtype", "out", "keepdims"], "max": ["a", "axis", "out", "keepdims"],
                 "min": ["a", "axis", "out", "keepdims"]}[op]
        k = dict(k)
        wh = k.pop("where", None)
        init = k.pop("initial", None)
        vals = dict(zip(names, bindargs(eng, names, a, k, {"axis": None, "out": None, "keepdims": False, "dtype": None})))
        t = to_tensor(eng, vals["a"], op)
        dt = need_dtype(eng, vals.get("dtype"))
        if wh is not None:
            wh = to_tensor(eng, wh, op)
            if op in ("mean", "prod") or (init is None and op in ("max", "min")):
                return eng.unknown("masked reduction")
            fill = {"all": D.TRUE, "any": D.FALSE, "sum": D.num(0)}.get(op)
            if fill is None:
                fill = kindnode(to_tensor(eng, init, op))
            elif op != "sum" and t.dtype != "bool":
                return eng.unknown("masked reduction")
            sh = bshape(eng, [t.shape, wh.shape])
            x = bnode(t, sh)
            t = mk(eng, sh, t.dtype, D.ite(bnode(wh, sh), D.to_num(x) if op == "sum" else x, fill), t.weak, [t, wh])
            if op == "sum" and t.dtype == "bool":
                t = mk(eng, sh, "int32", kindnode(t), False, [t])
        r = reduce(eng, t, op, vals["axis"], vals["keepdims"] is True, dt)
        if init is not None:
            if op in ("all", "any", "mean", "prod"):
                return eng.unknown("reduction with an initial value")
            i = to_tensor(eng, init, op)
            if i.shape:
                return eng.unknown("reduction with an array of initial values")
            a, b = D.to_num(kindnode(r)), D.to_num(bnode(i, r.shape))
            n = D.add(a, b) if op == "sum" else D.ite(cmp_nodes("gt" if op == "max" else "lt", a, b), a, b)
            r = mk(eng, r.shape, r.dtype, n, r.weak, [r, i])
        return r
    return f


for _n in ("all", "any", "sum", "mean", "prod", "max", "min"):
    jnp_(_n)(_red(_n))
for _n, _m in (("amax", "max"), ("amin", "min"), ("nansum", "sum"), ("nanmax", "max"), ("nanmin", "min"), ("nanmean", "mean"),
               ("alltrue", "all"), ("sometrue", "any")):
    jnp_(_n)(_red(_m))


@jnp_("count_nonzero")
def f_cnz(eng, a, k):
    t = to_tensor(eng, a[0])
    return reduce(eng, mk(eng, t.shape, "bool", D.to_bool(kindnode(t)), False, [t]), "sum", k.get("axis", a[1] if len(a) > 1 else None))


def dt_arg(eng, v, default):
    d = need_dtype(eng, v)
    return default if d is None else d


@jnp_("zeros", "empty")
def f_zeros(eng, a, k):
    s, d, dev = bindargs(eng, ["shape", "dtype", "device"], a, k, {"dtype": None, "device": None})
    s = shape_arg(eng, s)
    d = dt_arg(eng, d, "float32")
    return mk(eng, s, d, D.FALSE if d == "bool" else D.num(0))


@jnp_("ones")
def f_ones(eng, a, k):
    s, d, dev = bindargs(eng, ["shape", "dtype", "device"], a, k, {"dtype": None, "device": None})
    s = shape_arg(eng, s)
    d = dt_arg(eng, d, "float32")
    return mk(eng, s, d, D.TRUE if d == "bool" else D.num(1))


@jnp_("full")
def f_full(eng, a, k):
    s, v, d, dev = bindargs(eng, ["shape", "fill_value", "dtype", "device"], a, k, {"dtype": None, "device": None})
    s = shape_arg(eng, s)
    t = asarray(eng, v)
    d2 = need_dtype(eng, d)
    weak = t.weak and d2 is None
    if d2 is not None:
        t = astype(eng, t, d2)
    r = broadcast_to(eng, t, s)
    return mk(eng, s, r.dtype, kindnode(r), weak, [t])


@ext("jax.lax.full")
def f_laxfull(eng, a, k):
    return f_full(eng, a, k)


def _like(node):
    def f(eng, a, k):
        x, d, s, dev = bindargs(eng, ["a", "dtype", "shape", "device"], a, k, {"dtype": None, "shape": None, "device": None})
        t = to_tensor(eng, x, "zeros_like")
        d2 = dt_arg(eng, d, t.dtype)
        sh = t.shape if s is None else shape_arg(eng, s)
        n = (D.TRUE if node else D.FALSE) if d2 == "bool" else D.num(node)
        return mk(eng, sh, d2, n, t.weak and d is None, [t], ())
    return f


jnp_("zeros_like", "empty_like")(_like(0))
jnp_("ones_like")(_like(1))


@jnp_("full_like")
def f_full_like(eng, a, k):
    x, v, d, s, dev = bindargs(eng, ["a", "fill_value", "dtype", "shape", "device"], a, k, {"dtype": None, "shape": None, "device": None})
    t = to_tensor(eng, x)
    d2 = dt_arg(eng, d, t.dtype)
    sh = t.shape if s is None else shape_arg(eng, s)
    v = astype(eng, asarray(eng, v), d2)
    r = broadcast_to(eng, v, sh)
    return mk(eng, sh, d2, kindnode(r), t.weak and d is None, [t, v], v.low)


FUNCS["jax.lax.full_like"] = f_full_like


@ext("jax.numpy.asarray", "jax.numpy.array", "jax.numpy.copy", "jax.device_put")
def f_asarray(eng, a, k):
    d = k.get("dtype", a[1] if len(a) > 1 else None)
    if len(a) > 1 and as_dtype(a[1]) is None and a[1] is not None:
        d = k.get("dtype")
    return asarray(eng, a[0] if a else k.get("a", k.get("object")), need_dtype(eng, d))


@ext("numpy.asarray", "numpy.array", "numpy.ascontiguousarray")
def f_nparray(eng, a, k):
    return np_array(eng, a[0], need_dtype(eng, k.get("dtype", a[1] if len(a) > 1 else None)))


@ext("jax.device_get")
def f_device_get(eng, a, k):
    return a[0]


@jnp_("arange")
def f_arange(eng, a, k):
    vals = [static_int(eng, x) if not isinstance(x, float) else x for x in a]
    if any(isinstance(x, float) for x in vals):
        return eng.unknown("arange of floats")
    r = range(*vals)
    d = dt_arg(eng, k.get("dtype"), "int32")
    if len(r) == 1:
        n = D.num(r[0])
    else:
        n = D.add(D.mul(D.leaf(D.psym("@iota", ("i0",))), D.num(r.step)), D.num(r.start))
    return mk(eng, (len(r),), d, n)


@jnp_("broadcast_to")
def f_bto(eng, a, k):
    x, s = bindargs(eng, ["array", "shape"], a, {{"arr": "array"}.get(n, n): v for n, v in k.items()})
    return broadcast_to(eng, to_tensor(eng, x), shape_arg(eng, s))


@jnp_("broadcast_arrays")
def f_barr(eng, a, k):
    ts = [to_tensor(eng, x) for x in a]
    s = bshape(eng, [t.shape for t in ts])
    return eng.new_list([broadcast_to(eng, t, s) for t in ts])


@jnp_("broadcast_shapes")
def f_bshapes(eng, a, k):
    return bshape(eng, [shape_arg(eng, x) for x in a])


FUNCS["jax.lax.broadcast_shapes"] = f_bshapes


@jnp_("expand_dims")
def f_expand(eng, a, k):
    x, ax = bindargs(eng, ["a", "axis"], a, k)
    axes = [ax] if isinstance(ax, int) else eng.iterate(ax)
    return expand_dims(eng, to_tensor(eng, x), list(axes))


@ext("jax.lax.expand_dims")
def f_lexpand(eng, a, k):
    x, ax = bindargs(eng, ["array", "dimensions"], a, k)
    return expand_dims(eng, to_tensor(eng, x), list(eng.iterate(ax)))


@jnp_("reshape")
def f_reshape(eng, a, k):
    x, s, o = bindargs(eng, ["a", "newshape", "order"], a, k, {"order": "C"})
    sh = [s] if isinstance(s, int) else [static_int(eng, d, "shape") for d in eng.iterate(s)]
    return reshape(eng, to_tensor(eng, x), sh)


@ext("jax.lax.reshape")
def f_lreshape(eng, a, k):
    return reshape(eng, to_tensor(eng, a[0]), [static_int(eng, d) for d in eng.iterate(a[1] if len(a) > 1 else k["new_sizes"])])


@jnp_("ravel")
def f_ravel(eng, a, k):
    t = to_tensor(eng, a[0])
    return reshape(eng, t, (size(t.shape),))


@jnp_("squeeze")
def f_squeeze(eng, a, k):
    x, ax = bindargs(eng, ["a", "axis"], a, k, {"axis": None})
    return squeeze(eng, to_tensor(eng, x), None if ax is None else norm_axes(eng, ax, len(x.shape)))


@ext("jax.lax.squeeze")
def f_lsqueeze(eng, a, k):
    return squeeze(eng, to_tensor(eng, a[0]), list(eng.iterate(a[1] if len(a) > 1 else k["dimensions"])))


@jnp_("transpose")
def f_transpose(eng, a, k):
    x, ax = bindargs(eng, ["a", "axes"], a, k, {"axes": None})
    return transpose(eng, to_tensor(eng, x), None if ax is None else list(eng.iterate(ax)))


@ext("jax.lax.transpose")
def f_ltranspose(eng, a, k):
    x, ax = bindargs(eng, ["operand", "permutation"], a, k)
    return transpose(eng, to_tensor(eng, x), list(eng.iterate(ax)))


@jnp_("swapaxes")
def f_swap(eng, a, k):
    t = to_tensor(eng, a[0])
    p = list(range(len(t.shape)))
    i, j = a[1], a[2]
    p[i], p[j] = p[j], p[i]
    return transpose(eng, t, p)


@jnp_("moveaxis")
def f_moveaxis(eng, a, k):
    t = to_tensor(eng, a[0])
    if not isinstance(a[1], int):
        raise _und(eng, "moveaxis of several axes")
    r = len(t.shape)
    p = list(range(r))
    src = p.pop(a[1] % r)
    p.insert(a[2] % r, src)
    return transpose(eng, t, p)


@jnp_("stack")
def f_stack(eng, a, k):
    ts = [to_tensor(eng, x) for x in eng.iterate(a[0])]
    return stack(eng, ts, k.get("axis", a[1] if len(a) > 1 else 0))


@jnp_("concatenate")
def f_concat(eng, a, k):
    ts = [to_tensor(eng, x) for x in eng.iterate(a[0])]
    return concatenate(eng, ts, k.get("axis", a[1] if len(a) > 1 else 0))


@jnp_("matmul", "dot")
def f_matmul(eng, a, k):
    if not to_tensor(eng, a[0]).shape or not to_tensor(eng, a[1]).shape:
        return arith(eng, "mul", a[0], a[1])
    return matmul(eng, a[0], a[1])


@jnp_("shape")
def f_shape(eng, a, k):
    if not is_arraylike(a[0]):
        return asarray(eng, a[0]).shape
    return to_tensor(eng, a[0]).shape


@jnp_("ndim")
def f_ndim(eng, a, k):
    return len(to_tensor(eng, a[0]).shape)


@jnp_("size")
def f_size(eng, a, k):
    t = to_tensor(eng, a[0])
    return size(t.shape) if len(a) < 2 else t.shape[a[1]]


@jnp_("issubdtype")
def f_issubdtype(eng, a, k):
    x, y = a
    if isinstance(x, ExtV) and x.path.rpartition(".")[2] in ABSTRACT_DT:
        xs = ABSTRACT_DT[x.path.rpartition(".")[2]]
    else:
        d = need_dtype(eng, x)
        if d is None:
            d = "float32"
        xs = (d,)
    if isinstance(y, ExtV) and y.path.rpartition(".")[2] in ABSTRACT_DT:
        return all(d in ABSTRACT_DT[y.path.rpartition(".")[2]] for d in xs)
    dy = need_dtype(eng, y)
    return len(xs) == 1 and xs[0] == dy


FUNCS["jax.dtypes.issubdtype"] = f_issubdtype


@jnp_("dtype")
def f_dtype(eng, a, k):
    return DTypeV(need_dtype(eng, a[0]) or "float32")


@jnp_("result_type", "promote_types")
def f_result_type(eng, a, k):
    ts = []
    for x in a:
        if isinstance(x, TensorV) or is_number(x):
            t = to_tensor(eng, x)
            ts.append((t.dtype, t.weak))
        else:
            ts.append((need_dtype(eng, x), False))
    return DTypeV(promote(ts)[0])


FUNCS["jax.dtypes.result_type"] = f_result_type


@jnp_("isscalar")
def f_isscalar(eng, a, k):
    return is_number(a[0]) or (isinstance(a[0], TensorV) and a[0].shape == ())


@jnp_("iscomplexobj")
def f_iscomplex(eng, a, k):
    return False


def close_node(x, y, rtol, atol):
    d = D.sub(x, y)
    ad = D.vmax(d, D.neg(d))
    ay = D.vmax(y, D.neg(y))
    return D.le(ad, D.add(D.num(atol), D.mul(D.num(rtol), ay)))


def _close(eng, a, k):
    x, y, rtol, atol, en = bindargs(eng, ["a", "b", "rtol", "atol", "equal_nan"], a, k, {"rtol": 1e-5, "atol": 1e-8, "equal_nan": False})
    return elementwise(eng, [x, y], lambda p, q: close_node(D.to_num(p), D.to_num(q), rtol, atol), "bool")


@jnp_("isclose")
def f_isclose(eng, a, k):
    return _close(eng, a, k)


@jnp_("allclose")
def f_allclose(eng, a, k):
    return reduce(eng, _close(eng, a, k), "all")


@jnp_("array_equal", "array_equiv")
def f_array_equal(eng, a, k):
    x, y = to_tensor(eng, a[0]), to_tensor(eng, a[1])
    if x.shape != y.shape:
        return mk(eng, (), "bool", D.FALSE, False, [x, y])
    return reduce(eng, tensor_compare(eng, "eq", x, y), "all")


@jnp_("einsum", "tensordot", "outer", "inner", "vdot", "kron", "cumsum", "cumprod", "tile", "repeat", "take", "argmax", "argmin", "std",
      "var", "sort", "argsort", "nonzero", "unique", "flip", "roll", "pad", "split", "linspace", "eye", "tril", "triu", "median",
      "average", "diff", "interp", "histogram", "take_along_axis", "apply_along_axis", "vectorize", "norm", "convolve", "searchsorted",
      "bincount", "percentile", "quantile", "meshgrid", "hstack", "vstack", "atleast_1d", "atleast_2d", "diag", "trace",
      "piecewise", "ix_", "cross", "choose", "flatnonzero", "argwhere", "finfo", "iinfo")
def f_unknown(eng, a, k):
    return eng.unknown("array function not modelled")


@jnp_("atleast_1d")
def f_al1(eng, a, k):
    t = to_tensor(eng, a[0])
    return t if t.shape else reshape(eng, t, (1,))


# --- lax elementwise


def strict2(op):
    def f(eng, a, k):
        x, y = bindargs(eng, ["x", "y"], a, k)
        px, py = is_number(x), is_number(y)
        x, y = to_tensor(eng, x, op), to_tensor(eng, y, op)
        if px and not py and x.weak:
            x = astype(eng, x, y.dtype) if not (x.dtype in FLOATS and y.dtype not in FLOATS) else x
        if py and not px and y.weak:
            y = astype(eng, y, x.dtype) if not (y.dtype in FLOATS and x.dtype not in FLOATS) else y
        if x.dtype != y.dtype:
            eng.throw("TypeError", f"lax.{op} requires arguments to have the same dtypes, got {x.dtype}, {y.dtype}")
        if len(x.shape) != len(y.shape) and x.shape and y.shape:
            eng.throw("TypeError", f"{op}: arrays must have same number of dimensions")
        if op in CMPS:
            return tensor_compare(eng, op, x, y)
        if op == "max":
            return f_max2(eng, [x, y], {})
        if op == "min":
            return f_min2(eng, [x, y], {})
        if x.dtype == "bool" and op in ("add", "mul", "sub", "div"):
            eng.throw("TypeError", f"{op} does not accept dtype bool")
        return arith(eng, op, x, y)
    return f


CMPS = ("gt", "ge", "lt", "le", "eq", "ne")
for _n in CMPS + ("add", "sub", "mul", "div", "max", "min", "pow"):
    FUNCS["jax.lax." + _n] = strict2(_n)
FUNCS["jax.lax.rem"] = strict2("mod")


@ext("jax.lax.integer_pow")
def f_ipow(eng, a, k):
    return arith(eng, "pow", to_tensor(eng, a[0]), a[1])


@ext("jax.lax.select")
def f_select(eng, a, k):
    p, x, y = bindargs(eng, ["pred", "on_true", "on_false"], a, k)
    return lax_select(eng, p, [y, x])


@ext("jax.lax.select_n")
def f_selectn(eng, a, k):
    return lax_select(eng, a[0], list(a[1:]))


def lax_select(eng, p, cases):
    p = to_tensor(eng, p, "select")
    cs = [to_tensor(eng, c, "select") for c in cases]
    if p.dtype != "bool":
        if p.dtype in INTS + UINTS:
            raise _und(eng, "select_n with an integer selector")
        eng.throw("TypeError", f"select `which` must be boolean or integer type, got {p.dtype}.")
    if len(cs) != 2:
        if len(cs) == 1:
            return cs[0]
        eng.throw("TypeError", "select with boolean `which` cannot have > 2 cases.")
    if cs[0].shape != cs[1].shape:
        eng.throw("TypeError", f"select cases must have the same shapes, got {cs[0].shape}, {cs[1].shape}")
    if cs[0].dtype != cs[1].dtype:
        eng.throw("TypeError", f"lax.select requires arguments to have the same dtypes, got {cs[0].dtype}, {cs[1].dtype}")
    if p.shape != () and p.shape != cs[0].shape:
        eng.throw("TypeError", f"select `which` must be scalar or have the same shape as cases, got {p.shape} and {cs[0].shape}")
    n = D.ite(bnode(p, cs[0].shape), kindnode(cs[1]), kindnode(cs[0]))
    return mk(eng, cs[0].shape, cs[0].dtype, n, cs[0].weak and cs[1].weak, [p] + cs)


@ext("jax.lax.clamp")
def f_clamp(eng, a, k):
    lo, x, hi = bindargs(eng, ["min", "x", "max"], a, k)
    x = to_tensor(eng, x)
    r = []
    for v in (lo, hi):
        was = is_number(v)
        v = to_tensor(eng, v)
        if was and v.weak and not (v.dtype in FLOATS and x.dtype not in FLOATS):
            v = astype(eng, v, x.dtype)
        if v.dtype != x.dtype:
            eng.throw("TypeError", "clamp requires arguments to have the same dtypes")
        if v.shape not in ((), x.shape):
            eng.throw("TypeError", "clamp requires bounds of the same shape or scalar")
        r.append(v)
    t = f_max2(eng, [r[0], x], {})
    t = f_min2(eng, [r[1], t], {})
    return mk(eng, x.shape, x.dtype, kindnode(t), x.weak, [x] + r)


@ext("jax.lax.broadcast_in_dim")
def f_bid(eng, a, k):
    x, s, dims = bindargs(eng, ["operand", "shape", "broadcast_dimensions"], a, k)
    t = to_tensor(eng, x)
    s = shape_arg(eng, s)
    dims = [static_int(eng, d) for d in eng.iterate(dims)]
    if len(dims) != len(t.shape) or any(d >= len(s) or (t.shape[i] != 1 and t.shape[i] != s[d]) for i, d in enumerate(dims)) or \
            any(dims[i] >= dims[i + 1] for i in range(len(dims) - 1)):
        eng.throw("TypeError", "broadcast_in_dim: incompatible dimensions")
    return mk(eng, s, t.dtype, ren(kindnode(t), {f"i{i}": f"i{d}" for i, d in enumerate(dims)}), t.weak, [t])


@ext("jax.lax.broadcast")
def f_lbroadcast(eng, a, k):
    x, s = bindargs(eng, ["operand", "sizes"], a, k)
    t = to_tensor(eng, x)
    s = shape_arg(eng, s)
    return broadcast_to(eng, t, tuple(s) + t.shape)


@ext("jax.lax.reduce_precision")
def f_reduce_precision(eng, a, k):
    t, e, m = bindargs(eng, ["operand", "exponent_bits", "mantissa_bits"], a, k)
    t = to_tensor(eng, t)
    if not isinstance(m, int) or not isinstance(e, int) or t.dtype not in FLOATS:
        raise _und(eng, "reduce_precision with unknown arguments")
    have = {"bfloat16": (8, 7), "float16": (5, 10), "float32": (8, 23), "float64": (11, 52)}
    he, hm = have[t.dtype]
    if m >= hm and e >= he:
        return t
    to = next((d for d in ("float32", "float16", "bfloat16") if have[d][1] <= m and have[d][0] <= e), "bfloat16")
    return astype(eng, astype(eng, t, to), t.dtype)


@ext("jax.lax.convert_element_type")
def f_cet(eng, a, k):
    x, d = bindargs(eng, ["operand", "new_dtype"], a, k)
    return astype(eng, to_tensor(eng, x), need_dtype(eng, d))


@ext("jax.block_until_ready", "jax.lax.optimization_barrier")
def f_identity(eng, a, k):
    return a[0]


@ext("jax.lax.stop_gradient")
def f_stop_gradient(eng, a, k):
    x, = bindargs(eng, ["x"], a, k)
    return cut(eng, x, "stop_gradient")


@ext("jax.lax.square")
def f_lsq(eng, a, k):
    t = to_tensor(eng, a[0])
    return arith(eng, "mul", t, t)


@ext("jax.lax.reduce_max", "jax.lax.reduce_min")
def f_lred(eng, a, k):
    return eng.unknown("lax reduction")


@ext("jax.lax.while_loop")
def f_while(eng, a, k):
    c, b, i = bindargs(eng, ["cond_fun", "body_fun", "init_val"], a, k)
    return while_loop(eng, c, b, i)


@ext("jax.lax.cond")
def f_cond(eng, a, k):
    if "operand" in k:
        a = list(a) + [k["operand"]]
    return lax_cond(eng, a[0], a[1], a[2], tuple(a[3:]))


@ext("jax.lax.fori_loop")
def f_fori(eng, a, k):
    lo, hi, body, init = bindargs(eng, ["lower", "upper", "body_fun", "init_val"], a, k)
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 8:
        v = map_in(eng, init)
        for i in range(lo, hi):
            v = traced_call(eng, body, [to_tracer(eng, i), v])
        return map_out(eng, v)
    lo, hi = to_tensor(eng, lo), to_tensor(eng, hi)

    def c(e, aa, kk):
        i, h, v = aa[0]
        return tensor_compare(e, "lt", i, h)

    def b(e, aa, kk):
        i, h, v = aa[0]
        return (arith(e, "add", i, 1), h, e.call(body, [i, v], {}))
    r = while_loop(eng, BuiltinV("cond", c), BuiltinV("body", b), (lo, hi, init))
    return r[2]


def map_in(eng, v):
    def k(vs):
        ls, td = tree_flatten(eng, vs[0])
        return tree_unflatten(eng, td, [to_tracer(eng, x) for x in ls])
    return with_tree(eng, (v,), k)


@ext("jax.lax.scan")
def f_scan(eng, a, k):
    vals = bindargs(eng, ["f", "init", "xs", "length", "reverse", "unroll"], a, k,
                    {"xs": None, "length": None, "reverse": False, "unroll": 1})
    f, init, xs, length, rev, _ = vals
    ls, td = tree_flatten(eng, xs)
    n = length if length is not None else (to_tensor(eng, ls[0]).shape[0] if ls else None)
    if not isinstance(n, int) or n > 8:
        raise _und(eng, "scan over a symbolic or long length")
    carry = map_in(eng, init)
    ys = []
    for i in (range(n) if not rev else reversed(range(n))):
        x = tree_unflatten(eng, td, [tensor_index(eng, to_tracer(eng, l), i) for l in ls])
        r = traced_call(eng, f, [carry, x])
        r = eng.iterate(r)
        carry = r[0]
        ys.append(r[1])
    if rev:
        ys.reverse()
    fl = [tree_flatten(eng, y) for y in ys]
    out = None
    if fl:
        out = tree_unflatten(eng, fl[0][1], [from_trace(eng, stack(eng, [to_tensor(eng, q[0][j]) for q in fl], 0))
                                            for j in range(len(fl[0][0]))])
    return (map_out(eng, carry), out)


@ext("jax.lax.switch")
def f_switch(eng, a, k):
    raise _und(eng, "lax.switch")


# --- transformations


@ext("jax.jit", "jax.pjit", "flax.linen.jit")
def f_jit(eng, a, k):
    k = dict(k)

    def nums(v):
        if v is None:
            return ()
        return (v,) if isinstance(v, (int, str)) else tuple(eng.iterate(v))
    sn, sm = nums(k.pop("static_argnums", None)), nums(k.pop("static_argnames", None))
    for n in list(k):
        if n not in ("fun", "donate_argnums", "donate_argnames", "inline", "device", "backend", "keep_unused", "abstracted_axes",
                     "in_shardings", "out_shardings"):
            eng.throw("TypeError", f"jit() got an unexpected keyword argument '{n}'")
    if not a and "fun" not in k:
        eng.throw("TypeError", "jit() missing 1 required positional argument: 'fun'")
    f = a[0] if a else k["fun"]
    g = f
    while isinstance(g, BoundV):
        g = g.func
    if isinstance(f, FuncV):
        ps = [p.arg for p in f.node.args.posonlyargs + f.node.args.args]
        sm = sm + tuple(ps[i] for i in sn if isinstance(i, int) and -len(ps) <= i < len(ps))
        sn = sn + tuple(ps.index(n) for n in sm if n in ps)
    return JitV(f, "jit", sn, sm)


@ext("jax.experimental.checkify.checkify")
def f_checkify(eng, a, k):
    errors = k.get("errors", a[1] if len(a) > 1 else None)
    en = ("user",)
    if errors is not None:
        if isinstance(errors, Ref) and isinstance(eng.cell(errors), SetCell):
            en = tuple(eng.cell(errors).items.values())
    return JitV(a[0], "checkify", (), en)


@ext("jax.experimental.checkify.check")
def f_check(eng, a, k):
    eng.event("check", "checkify.check", a[1] if len(a) > 1 else k.get("msg"))
    return do_check(eng, a[0] if a else k.get("pred"))


@ext("jax.experimental.checkify.debug_check")
def f_dcheck(eng, a, k):
    return do_check(eng, a[0] if a else k.get("pred"), debug=True)


@ext("jax.experimental.checkify.check_error")
def f_check_error(eng, a, k):
    e = a[0]
    if isinstance(e, ErrorV):
        return do_check(eng, BoolV(D.bnot(e.node)))
    return eng.unknown("check_error")


@ext("jax.eval_shape")
def f_eval_shape(eng, a, k):
    return call_jit(eng, JitV(a[0], "jit"), list(a[1:]), k)


@ext("jax.ShapeDtypeStruct")
def f_sds(eng, a, k):
    s, d = bindargs(eng, ["shape", "dtype"], a, {n: v for n, v in k.items() if n in ("shape", "dtype")})
    return sym_tensor(eng.fresh_name("struct"), shape_arg(eng, s), need_dtype(eng, d))


def _custom(kind):
    def f(eng, a, k):
        if a:
            return JitV(a[0], kind)
        return BuiltinV("wrapper", lambda e, aa, kk: JitV(aa[0], kind))
    return f


for _p in ("jax.custom_jvp", "jax.custom_vjp", "jax.custom_gradient"):
    FUNCS[_p] = _custom(_p.split(".")[1])


@ext("jax.vmap")
def f_vmap(eng, a, k):
    f, ia, oa = bindargs(eng, ["fun", "in_axes", "out_axes"], a, {n: v for n, v in k.items() if n not in ("axis_name", "axis_size", "spmd_axis_name")},
                         {"in_axes": 0, "out_axes": 0})
    if oa != 0 or isinstance(oa, bool) or "axis_size" in k:
        return OpaqueFn("transformed", lambda e, aa, kk: _und_raise(e, "vmap with other output axes"))
    return JitV(f, "vmap", ia)


def _und_raise(eng, why):
    raise _und(eng, why)


def call_vmap(eng, j, args, kwargs):
    axes = j.static_nums
    if isinstance(axes, Ref) and isinstance(eng.cell(axes), ListCell):
        axes = tuple(eng.cell(axes).items)
    if not isinstance(axes, tuple):
        axes = (axes,) * len(args)
    if len(axes) != len(args):
        eng.throw("ValueError", "vmap in_axes must be an int, None, or a tuple of entries corresponding to the positional arguments")
    if any(not (x is None or (isinstance(x, int) and not isinstance(x, bool))) for x in axes):
        raise _und(eng, "vmap with trees of axes")

    def k(vs):
        size = None
        v = eng.fresh_name("v")
        conv = []
        for x, ax in list(zip(vs, axes)) + [(x, 0) for x in vs[len(args):]]:
            ls, td = tree_flatten(eng, x)
            out = []
            for t in ls:
                t = to_tracer(eng, t)
                if ax is None:
                    out.append(t)
                    continue
                t = to_tensor(eng, t, "vmap")
                n = len(t.shape)
                if not -n <= ax < n:
                    eng.throw("ValueError", "vmap was requested to map its argument along an axis it does not have")
                d = ax % n
                if size is not None and size != t.shape[d]:
                    eng.throw("ValueError", "vmap got inconsistent sizes for array axes to be mapped")
                size = t.shape[d]
                m = {f"i{d}": v}
                m.update({f"i{q}": f"i{q - 1}" for q in range(d + 1, n)})
                out.append(TensorV(t.shape[:d] + t.shape[d + 1:], t.dtype, ren(kindnode(t), m), t.weak, t.loc, True, False, t.low))
            conv.append(tree_unflatten(eng, td, out))
        if size is None:
            eng.throw("ValueError", "vmap must have at least one non-None value in in_axes")
        eng.trace_depth += 1
        try:
            r = eng.call(j.func, conv[:len(args)], dict(zip(kwargs, conv[len(args):])))
        finally:
            eng.trace_depth -= 1

        def done(rs):
            ls, td = tree_flatten(eng, rs[0])
            out = []
            for t in ls:
                t = to_tensor(eng, to_tracer(eng, t), "vmap output")
                m = {f"i{q}": f"i{q + 1}" for q in range(len(t.shape))}
                m[v] = "i0" if size != 1 else 0
                out.append(from_trace(eng, TensorV((size,) + t.shape, t.dtype, ren(kindnode(t), m), t.weak, t.loc, True, False, t.low)))
            return tree_unflatten(eng, td, out)
        return with_tree(eng, (r,), done)
    return with_tree(eng, tuple(args) + tuple(kwargs.values()), k)


@ext("jax.pure_callback")
def f_pure_callback(eng, a, k):
    def f(vs):
        ls, td = tree_flatten(eng, tuple(vs))
        args = tree_unflatten(eng, td, [TensorV(t.shape, t.dtype, t.node, False, t.loc, False, True, t.low) if isinstance(t, TensorV) else t for t in ls])
        depth, eng.trace_depth = eng.trace_depth, 0
        try:
            r = eng.call(a[0], list(args), {n: v for n, v in k.items() if n != "vectorized"})
        finally:
            eng.trace_depth = depth
        return cut(eng, map_out(eng, map_in(eng, r)) if depth == 0 else map_in(eng, r), "pure_callback")
    return with_tree(eng, tuple(a[2:]), f)


@ext("jax.checkpoint", "jax.remat", "jax.named_call")
def f_wrapper(eng, a, k):
    return a[0] if a else BuiltinV("wrapper", lambda e, aa, kk: aa[0])


@ext("jax.pmap", "jax.grad", "jax.value_and_grad", "jax.vjp", "jax.jvp", "jax.make_jaxpr", "jax.linearize", "jax.jacfwd",
     "jax.jacrev", "jax.hessian", "jax.experimental.io_callback")
def f_transform(eng, a, k):
    def h(e, aa, kk):
        raise _und(e, "call of a transformed function (vmap/grad) is not modelled")
    return OpaqueFn("transformed", h)


@ext("jax.named_scope", "jax.disable_jit", "jax.ensure_compile_time_eval", "jax.debug_nans", "jax.transfer_guard", "contextlib.nullcontext",
     "jax.check_tracer_leaks", "warnings.catch_warnings", "jax.default_device", "jax.enable_checks")
def f_ctx(eng, a, k):
    return eng.unknown("context manager") if not (a and False) else None


@ext("jax.debug.print", "jax.debug.callback", "jax.debug.breakpoint", "warnings.simplefilter", "warnings.filterwarnings", "jax.config.update",
     "logging.basicConfig", "logging.info", "logging.debug", "logging.warning", "logging.error")
def f_noop(eng, a, k):
    return None


@ext("logging.getLogger")
def f_logger(eng, a, k):
    return ExtV("logging.logger_object")


@ext("warnings.warn")
def f_warn(eng, a, k):
    eng.event("warn", "warning")
    return None


# --- tree_util

TU = ("jax.tree_util.",)


def tree_(*names):
    ps = []
    for n in names:
        ps.append("jax.tree_util." + n)
        if n in MEMBERS["jax"]:
            ps.append("jax." + n)
    return ext(*ps)


@tree_("tree_flatten")
def t_flatten(eng, a, k):
    t, il = bindargs(eng, ["tree", "is_leaf"], a, k, {"is_leaf": None})

    def f(vs):
        ls, td = tree_flatten(eng, vs[0], il)
        return (eng.new_list(ls), td)
    return with_tree(eng, (t,), f)


@tree_("tree_leaves")
def t_leaves(eng, a, k):
    t, il = bindargs(eng, ["tree", "is_leaf"], a, k, {"is_leaf": None})
    return with_tree(eng, (t,), lambda vs: eng.new_list(tree_flatten(eng, vs[0], il)[0]))


@tree_("tree_structure")
def t_structure(eng, a, k):
    t, il = bindargs(eng, ["tree", "is_leaf"], a, k, {"is_leaf": None})
    return with_tree(eng, (t,), lambda vs: tree_flatten(eng, vs[0], il)[1])


@tree_("tree_unflatten")
def t_unflatten(eng, a, k):
    td, ls = bindargs(eng, ["treedef", "leaves"], a, k)
    if not isinstance(td, TreeDefV):
        if isinstance(td, UnknownV):
            return eng.unknown("unflatten unknown")
        eng.throw("TypeError", "tree_unflatten(): incompatible function arguments")
    return tree_unflatten(eng, td, eng.iterate(ls))


@tree_("tree_flatten_with_path")
def t_fwp(eng, a, k):
    t, il = bindargs(eng, ["tree", "is_leaf"], a, k, {"is_leaf": None})

    def f(vs):
        ls, ps = [], []
        td = _flat(eng, vs[0], il, ls, [], ps)
        return (eng.new_list([(p, x) for p, x in zip(ps, ls)]), td)
    return with_tree(eng, (t,), f)


@tree_("tree_leaves_with_path")
def t_lwp(eng, a, k):
    r = t_fwp(eng, a, k)
    return r[0]


@tree_("keystr")
def t_keystr(eng, a, k):
    return StrV([("opq", "keystr")])


@tree_("tree_map")
def t_map(eng, a, k):
    k = dict(k)
    il = k.pop("is_leaf", None)
    if len(a) < 2:
        vals = bindargs(eng, ["f", "tree"], a, k)
        a = vals

    def f(vs):
        ls, td = tree_flatten(eng, vs[0], il)
        rest = [flatten_up_to(eng, td, t) for t in vs[1:]]
        out = [eng.call(a[0], [x] + [r[i] for r in rest], {}) for i, x in enumerate(ls)]
        return tree_unflatten(eng, td, out)
    return with_tree(eng, a[1:], f)


FUNCS["jax.tree_util.tree_multimap"] = t_map


@tree_("tree_map_with_path")
def t_mapwp(eng, a, k):
    il = k.get("is_leaf")

    def f(vs):
        ls, ps = [], []
        td = _flat(eng, vs[0], il, ls, [], ps)
        rest = [flatten_up_to(eng, td, t) for t in vs[1:]]
        out = [eng.call(a[0], [p, x] + [r[i] for r in rest], {}) for i, (p, x) in enumerate(zip(ps, ls))]
        return tree_unflatten(eng, td, out)
    return with_tree(eng, a[1:], f)


@tree_("tree_all")
def t_all(eng, a, k):
    return eng.B.b_all(eng, [t_leaves(eng, a[:1], {})], {})


@tree_("tree_reduce")
def t_reduce(eng, a, k):
    ls = eng.iterate(t_leaves(eng, [a[1]], {}))
    if len(a) > 2:
        acc, xs = a[2], ls
    elif "initializer" in k:
        acc, xs = k["initializer"], ls
    else:
        if not ls:
            eng.throw("TypeError", "reduce() of empty iterable with no initial value")
        acc, xs = ls[0], ls[1:]
    for x in xs:
        acc = eng.call(a[0], [acc, x], {})
    return acc


@tree_("tree_transpose")
def t_transpose(eng, a, k):
    outer, inner, t = bindargs(eng, ["outer_treedef", "inner_treedef", "pytree_to_transpose"], a, k)

    def f(vs):
        ls, td = tree_flatten(eng, vs[0])
        no, ni = outer.num_leaves(), inner.num_leaves()
        if len(ls) != no * ni:
            eng.throw("TypeError", "mismatch in tree_transpose")
        rows = [ls[i * ni:(i + 1) * ni] for i in range(no)]
        cols = [tree_unflatten(eng, outer, [r[j] for r in rows]) for j in range(ni)]
        return tree_unflatten(eng, inner, cols)
    return with_tree(eng, (t,), f)


@tree_("treedef_is_leaf")
def t_isleaf(eng, a, k):
    return a[0].num_nodes() == 1


@tree_("treedef_children")
def t_children(eng, a, k):
    return eng.new_list(a[0].children)


@tree_("treedef_tuple")
def t_tuple(eng, a, k):
    return TreeDefV("tuple", None, eng.iterate(a[0]))


@tree_("all_leaves")
def t_all_leaves(eng, a, k):
    def isl(v):
        ls, td = tree_flatten(eng, v)
        return td.kind == "leaf"
    return all(isl(v) for v in eng.iterate(a[0]))


def reg_key(eng, c):
    if isinstance(c, ClassV):
        return c
    raise _und(eng, "registration of a pytree class")


@tree_("register_pytree_node")
def t_reg(eng, a, k):
    c, fl, un = bindargs(eng, ["nodetype", "flatten_func", "unflatten_func"], a, k)
    if c in eng.pytrees:
        eng.throw("ValueError", f"Duplicate custom PyTreeDef type registration for {c!r}")
    eng.pytrees[reg_key(eng, c)] = (fl, un, False)


@tree_("register_pytree_with_keys")
def t_regk(eng, a, k):
    c, fl, un, ff = bindargs(eng, ["nodetype", "flatten_with_keys", "unflatten_func", "flatten_func"], a, k, {"flatten_func": None})
    if c in eng.pytrees:
        eng.throw("ValueError", f"Duplicate custom PyTreeDef type registration for {c!r}")
    eng.pytrees[reg_key(eng, c)] = (fl, un, True) if ff is None else (ff, un, False)


@tree_("register_pytree_node_class")
def t_regc(eng, a, k):
    c = a[0]
    fl = eng.class_lookup(c, "tree_flatten")
    un = eng.B.class_attr(eng, c, "tree_unflatten")
    eng.pytrees[reg_key(eng, c)] = (fl, un, False)
    return c


@tree_("register_pytree_with_keys_class")
def t_regkc(eng, a, k):
    c = a[0]
    fl = eng.class_lookup(c, "tree_flatten_with_keys")
    un = eng.B.class_attr(eng, c, "tree_unflatten")
    eng.pytrees[reg_key(eng, c)] = (fl, un, True)
    return c


@ext("jax.tree_util.Partial", "functools.partial")
def f_partial(eng, a, k):
    if not a:
        eng.throw("TypeError", "partial expected at least 1 argument")
    f = a[0]
    if isinstance(f, PartialV):
        kw = dict(f.kwargs)
        kw.update(k)
        return PartialV(f.func, list(f.args) + list(a[1:]), kw)
    return PartialV(f, a[1:], k)


@ext("functools.partialmethod")
def f_partialmethod(eng, a, k):
    kw = dict(k)
    kw["partialmethod"] = True
    return PartialV(a[0], a[1:], kw)


@ext("functools.wraps")
def f_wraps(eng, a, k):
    src = a[0]

    def deco(e, aa, kk):
        f = aa[0]
        if isinstance(f, FuncV) and isinstance(src, FuncV):
            f.flags |= (src.flags & {"abstract"})
        return f
    return BuiltinV("wraps", deco)


@ext("functools.update_wrapper")
def f_uw(eng, a, k):
    return a[0]


@ext("functools.reduce")
def f_reduce(eng, a, k):
    xs = eng.iterate(a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        if not xs:
            eng.throw("TypeError", "reduce() of empty iterable with no initial value")
        acc, xs = xs[0], xs[1:]
    for x in xs:
        acc = eng.call(a[0], [acc, x], {})
    return acc


@ext("functools.lru_cache", "functools.cache")
def f_lru(eng, a, k):
    if a and not isinstance(a[0], int) and a[0] is not None:
        return memoized(eng, a[0])
    return BuiltinV("lru_cache", lambda e, aa, kk: memoized(e, aa[0]))


def memoized(eng, f):
    """what functools.lru_cache makes of f: calls with arguments that compare equal get the first result (nothing is evicted here)"""
    memo = eng.new_dict([])

    def call(e, a, k):
        key = tuple(a) + (("kwargs",) + tuple(sorted(k.items())) if k else ())
        h = e.hkey(key)
        c = e.cell(memo)
        if h in c.items:
            return c.items[h][1]
        v = e.call(f, list(a), dict(k))
        e.setitem(memo, key, v)
        return v
    return BuiltinV(getattr(f, "name", "lru_cache"), call)


@ext("functools.total_ordering", "typing.final", "typing.runtime_checkable", "typing.no_type_check", "typing.overload", "typing.override",
     "abc.update_abstractmethods", "enum.unique")
def f_same(eng, a, k):
    return a[0]


@ext("functools.cached_property")
def f_cprop(eng, a, k):
    return PropertyV(a[0], None, True)


@ext("typing.cast")
def f_cast(eng, a, k):
    return a[1]


@ext("typing.TypeVar", "typing.NewType", "typing.ParamSpec", "typing.get_type_hints")
def f_typevar(eng, a, k):
    return ExtV("typing.Any")


@ext("abc.abstractmethod")
def f_abstract(eng, a, k):
    f = a[0]
    g = f.func if isinstance(f, (StaticV, ClassMethodV)) else f.fget if isinstance(f, PropertyV) else f
    if isinstance(g, FuncV):
        g.flags.add("abstract")
    return f


@ext("contextlib.contextmanager")
def f_ctxman(eng, a, k):
    a[0].flags.add("contextmanager")
    return a[0]


@ext("contextlib.suppress")
def f_suppress(eng, a, k):
    return ("__suppress__", tuple(a))


@ext("enum.auto")
def f_auto(eng, a, k):
    return ("__auto__",)


@ext("dataclasses.dataclass", "flax.struct.dataclass", "typing.dataclass_transform")
def f_dataclass(eng, a, k):
    if a:
        return dc_apply(eng, a[0], k)
    return BuiltinV("dataclass", lambda e, aa, kk: dc_apply(e, aa[0], k))


def dc_apply(eng, cls, opts):
    eng.B.make_dataclass(eng, cls, opts)
    # the generated __init__ replaces an inherited one
    return cls


@ext("dataclasses.field", "flax.struct.field")
def f_field(eng, a, k):
    return ("__field__", dict(k))


@ext("dataclasses.fields")
def f_fields(eng, a, k):
    cls = a[0]
    if isinstance(cls, Ref):
        cls = eng.cell(cls).cls
    if not isinstance(cls, ClassV) or cls.dataclass is None:
        eng.throw("TypeError", "must be called with a dataclass type or instance")
    return tuple(eng.B.field_obj(eng, n) for n, *_ in cls.dataclass)


@ext("dataclasses.is_dataclass")
def f_isdc(eng, a, k):
    cls = a[0]
    if isinstance(cls, Ref):
        c = eng.cell(cls)
        cls = c.cls if isinstance(c, ObjCell) else None
    return isinstance(cls, ClassV) and cls.dataclass is not None


def dc_names(eng, v):
    c = eng.cell(v) if isinstance(v, Ref) else None
    if not isinstance(c, ObjCell) or not isinstance(c.cls, ClassV) or c.cls.dataclass is None:
        eng.throw("TypeError", "should be called on dataclass instances")
    return [n for n, *_ in c.cls.dataclass]


def dc_walk(eng, v, as_tuple):
    if isinstance(v, PhiV):
        return eng.cases([v], lambda vs: dc_walk(eng, vs[0], as_tuple))
    if isinstance(v, tuple):
        return tuple(dc_walk(eng, x, as_tuple) for x in v)
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, AltCell):
            return eng.cases([v], lambda vs: dc_walk(eng, vs[0], as_tuple))
        if isinstance(c, ObjCell) and isinstance(c.cls, ClassV) and c.cls.dataclass is not None and not c.cls.flags.get("namedtuple"):
            pairs = [(n, dc_walk(eng, eng.getattr_(v, n), as_tuple)) for n, *_ in c.cls.dataclass]
            return tuple(x for _, x in pairs) if as_tuple else eng.new_dict(pairs)
        if isinstance(c, ListCell):
            return eng.new_list([dc_walk(eng, x, as_tuple) for x in c.items])
        if isinstance(c, DictCell):
            return eng.new_dict([(k, dc_walk(eng, x, as_tuple)) for k, x in c.items.values()])
        return deepcopy(eng, v, {})
    return v


@ext("dataclasses.asdict")
def f_asdict(eng, a, k):
    dc_names(eng, a[0])
    return dc_walk(eng, a[0], False)


@ext("dataclasses.astuple")
def f_astuple(eng, a, k):
    dc_names(eng, a[0])
    return dc_walk(eng, a[0], True)


@ext("dataclasses.replace")
def f_dcreplace(eng, a, k):
    names = dc_names(eng, a[0])
    c = eng.cell(a[0])
    kw = {n: eng.getattr_(a[0], n) for n, _, _, init in c.cls.dataclass if init is not False}
    for n, v in k.items():
        kw[n] = v
    return eng.call(c.cls, [], kw)


def deepcopy(eng, v, memo):
    if isinstance(v, tuple):
        return tuple(deepcopy(eng, x, memo) for x in v)
    if isinstance(v, PhiV):
        return eng.cases([v], lambda vs: deepcopy(eng, vs[0], memo))
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        c = eng.cell(v)
        if isinstance(c, AltCell):
            return eng.cases([v], lambda vs: deepcopy(eng, vs[0], memo))
        if isinstance(c, ListCell):
            r = memo[v.id] = eng.new(ListCell(()))
            eng.put(r, ListCell([deepcopy(eng, x, memo) for x in c.items]))
            return r
        if isinstance(c, DictCell):
            r = memo[v.id] = eng.new(DictCell({}))
            eng.put(r, DictCell({h: (kk, deepcopy(eng, x, memo)) for h, (kk, x) in c.items.items()}, c.default))
            return r
        if isinstance(c, SetCell):
            return eng.new(c)
        if isinstance(c, ObjCell):
            m = eng.class_lookup_obj(v, "__deepcopy__")
            if m is not UNBOUND:
                return eng.call(m, [v, eng.new_dict()], {})
            r = memo[v.id] = eng.new(ObjCell(c.cls, {}, c.extra))
            eng.put(r, ObjCell(c.cls, {n: deepcopy(eng, x, memo) for n, x in c.attrs.items()}, c.extra))
            return r
    return v


@ext("copy.deepcopy")
def f_deepcopy(eng, a, k):
    return deepcopy(eng, a[0], {})


@ext("copy.copy")
def f_copy(eng, a, k):
    v = a[0]
    if isinstance(v, Ref):
        c = eng.cell(v)
        m = eng.class_lookup_obj(v, "__copy__")
        if m is not UNBOUND:
            return eng.call(m, [v], {})
        return eng.new(c)
    return v


# --- itertools, operator, collections, math, textwrap


@ext("itertools.chain")
def i_chain(eng, a, k):
    out = []
    for x in a:
        out += eng.iterate(x)
    return eng.new_iter(out)


@ext("itertools.chain.from_iterable")
def i_chainf(eng, a, k):
    out = []
    for x in eng.iterate(a[0]):
        out += eng.iterate(x)
    return eng.new_iter(out)


@ext("itertools.zip_longest")
def i_zl(eng, a, k):
    import itertools
    return eng.new_iter([tuple(t) for t in itertools.zip_longest(*[eng.iterate(x) for x in a], fillvalue=k.get("fillvalue"))])


@ext("itertools.product")
def i_prod(eng, a, k):
    import itertools
    return eng.new_iter([tuple(t) for t in itertools.product(*[eng.iterate(x) for x in a], repeat=k.get("repeat", 1))])


@ext("itertools.repeat")
def i_repeat(eng, a, k):
    n = a[1] if len(a) > 1 else k.get("times")
    if not isinstance(n, int):
        raise _und(eng, "unbounded itertools.repeat")
    return eng.new_iter([a[0]] * n)


@ext("itertools.islice")
def i_islice(eng, a, k):
    return eng.new_iter(eng.iterate(a[0])[slice(*a[1:])])


@ext("itertools.starmap")
def i_starmap(eng, a, k):
    return eng.new_iter([eng.call(a[0], eng.iterate(x), {}) for x in eng.iterate(a[1])])


@ext("itertools.accumulate")
def i_acc(eng, a, k):
    out = []
    f = a[1] if len(a) > 1 else k.get("func")
    xs = eng.iterate(a[0])
    acc = k.get("initial")
    if acc is not None:
        out.append(acc)
    for x in xs:
        acc = x if acc is None else (eng.binop("add", acc, x) if f is None else eng.call(f, [acc, x], {}))
        out.append(acc)
    return eng.new_iter(out)


@ext("itertools.takewhile", "itertools.dropwhile", "itertools.groupby", "itertools.count", "itertools.cycle", "itertools.combinations",
     "itertools.permutations", "itertools.tee", "itertools.filterfalse", "itertools.pairwise")
def i_other(eng, a, k):
    raise _und(eng, "itertools function")


for _n, _o in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div"), ("floordiv", "floordiv"), ("mod", "mod"), ("pow", "pow"),
               ("and_", "and"), ("or_", "or"), ("xor", "xor"), ("matmul", "matmul"), ("concat", "add")):
    FUNCS["operator." + _n] = (lambda o: lambda eng, a, k: eng.binop(o, a[0], a[1]))(_o)
for _n in CMPS:
    FUNCS["operator." + _n] = (lambda o: lambda eng, a, k: eng.compare(o, a[0], a[1]))(_n)
FUNCS["operator.neg"] = lambda eng, a, k: eng.unop("neg", a[0])
FUNCS["operator.invert"] = FUNCS["operator.inv"] = lambda eng, a, k: eng.unop("invert", a[0])
FUNCS["operator.not_"] = lambda eng, a, k: eng.mkbool(D.bnot(eng._node(eng.truth(a[0]))))
FUNCS["operator.truth"] = lambda eng, a, k: eng.mkbool(eng._node(eng.truth(a[0])))
FUNCS["operator.is_"] = lambda eng, a, k: eng.mkbool(eng._node(eng.is_(a[0], a[1])))
FUNCS["operator.is_not"] = lambda eng, a, k: eng.mkbool(D.bnot(eng._node(eng.is_(a[0], a[1]))))
FUNCS["operator.getitem"] = lambda eng, a, k: eng.getitem(a[0], a[1])
FUNCS["operator.setitem"] = lambda eng, a, k: eng.setitem(a[0], a[1], a[2])
FUNCS["operator.contains"] = lambda eng, a, k: eng.contains(a[0], a[1])


@ext("operator.attrgetter")
def o_attrgetter(eng, a, k):
    def get(e, o, path):
        for p in path.split("."):
            o = e.getattr_(o, p)
        return o
    if len(a) == 1:
        return BuiltinV("attrgetter", lambda e, aa, kk: get(e, aa[0], a[0]))
    return BuiltinV("attrgetter", lambda e, aa, kk: tuple(get(e, aa[0], p) for p in a))


@ext("operator.itemgetter")
def o_itemgetter(eng, a, k):
    if len(a) == 1:
        return BuiltinV("itemgetter", lambda e, aa, kk: e.getitem(aa[0], a[0]))
    return BuiltinV("itemgetter", lambda e, aa, kk: tuple(e.getitem(aa[0], p) for p in a))


@ext("operator.methodcaller")
def o_methodcaller(eng, a, k):
    return BuiltinV("methodcaller", lambda e, aa, kk: e.call(e.getattr_(aa[0], a[0]), list(a[1:]), k))


@ext("collections.OrderedDict", "collections.UserDict")
def c_od(eng, a, k):
    return eng.B.c_dict(eng, a, k)


@ext("types.MappingProxyType", "flax.core.frozen_dict.FrozenDict", "flax.core.FrozenDict")
def c_mp(eng, a, k):
    return eng.B.c_dict(eng, a, k)


@ext("collections.defaultdict")
def c_dd(eng, a, k):
    r = eng.B.c_dict(eng, a[1:], k)
    c = eng.cell(r)
    eng.put(r, DictCell(c.items, a[0] if a else None))
    return r


@ext("collections.deque")
def c_deque(eng, a, k):
    return eng.new_list(eng.iterate(a[0]) if a else [])


@ext("collections.Counter", "collections.ChainMap", "collections.namedtuple")
def c_unk(eng, a, k):
    raise _und(eng, "collections helper")


@ext("types.SimpleNamespace")
def c_ns(eng, a, k):
    return eng.new(ObjCell(eng.B.extcls("types.SimpleNamespace"), dict(k)))


@ext("textwrap.dedent")
def tw_dedent(eng, a, k):
    return tw(eng, "dedent", a, k)


@ext("textwrap.indent")
def tw_indent(eng, a, k):
    return tw(eng, "indent", a, k)


@ext("textwrap.fill", "textwrap.shorten")
def tw_fill(eng, a, k):
    return tw(eng, "fill", a, k)


def tw(eng, name, a, k):
    s = a[0] if a else k.get("text")
    if isinstance(s, str) and all(isinstance(x, (str, int)) for x in a):
        return getattr(host_textwrap, name)(*a, **k)
    if isinstance(s, StrV):
        return StrV(s.parts)
    if isinstance(s, UnknownV):
        return s
    eng.throw("TypeError", f"expected str instance, {eng.B.type_name(eng, s)} found")


@ext("inspect.signature", "inspect.getsource", "inspect.getfullargspec", "inspect.stack", "inspect.currentframe")
def insp(eng, a, k):
    return eng.unknown("inspect")


def _math(name):
    def f(eng, a, k):
        import math
        if all(isinstance(x, (int, float, bool)) for x in a):
            try:
                return getattr(math, name)(*a, **k)
            except Exception as e:
                eng.throw(type(e).__name__, str(e))
        if name == "prod":
            acc = k.get("start", 1)
            for x in eng.iterate(a[0]):
                acc = eng.binop("mul", acc, x)
            return acc
        vs = []
        for x in a:
            if isinstance(x, TensorV):
                x = concretize_number(eng, x, "float")
            if not is_number(x):
                if isinstance(x, UnknownV):
                    return eng.unknown("math of unknown")
                eng.throw("TypeError", "must be real number")
            vs.append(D.to_num(scalar_node(x)))
        if name in ("isnan", "isinf"):
            return False
        if name == "isfinite":
            return True
        if name == "fabs":
            return ScalarV(D.vmax(vs[0], D.neg(vs[0])), "float")
        if name == "isclose":
            return eng.mkbool(D.apply("opq:isclose", lambda p, q: D.opq("isclose", p, q), vs[0], vs[1]))
        return ScalarV(D.fn(name, *vs), "int" if name in ("floor", "ceil", "trunc") else "float")
    return f


for _n in ("floor", "ceil", "sqrt", "exp", "log", "isnan", "isinf", "isfinite", "isclose", "fabs", "prod", "pow", "trunc", "log2", "gcd",
           "copysign", "fmod", "tanh", "sin", "cos"):
    FUNCS["math." + _n] = _math(_n)


@ext("math.fsum")
def m_fsum(eng, a, k):
    return eng.B.b_sum(eng, a, k)


@ext("jax.random.PRNGKey", "jax.random.key")
def r_key(eng, a, k):
    s = a[0] if a else k.get("seed")
    if not isinstance(s, int):
        s = f"<{to_tensor(eng, s).node.id}>"
    return sym_tensor(f"key{s}", (2,), "uint32")


@ext("jax.random.split", "jax.random.fold_in")
def r_split(eng, a, k):
    t, n = bindargs(eng, ["key", "num"], a, {("num" if x == "data" else x): y for x, y in k.items()}, {"num": 2})
    t = to_tensor(eng, t)
    name = f"split<{t.node.id}>{n if isinstance(n, int) else to_tensor(eng, n).node.id}"
    return sym_tensor(name, (n, 2) if isinstance(n, int) else (2,), "uint32")


@ext("jax.random.uniform", "jax.random.normal")
def r_uniform(eng, a, k):
    key, s, d = bindargs(eng, ["key", "shape", "dtype"], a, {x: y for x, y in k.items() if x not in ("minval", "maxval")}, {"shape": (), "dtype": None})
    key = to_tensor(eng, key)
    return sym_tensor(f"random<{key.node.id}>{sorted(k)}", shape_arg(eng, s), "float32" if d is None else need_dtype(eng, d))


@ext("jax.random.bernoulli")
def r_bernoulli(eng, a, k):
    key, p, s = bindargs(eng, ["key", "p", "shape"], a, k, {"p": 0.5, "shape": None})
    return sym_tensor(f"flip<{to_tensor(eng, key).node.id}>", to_tensor(eng, p).shape if s is None else shape_arg(eng, s), "bool")


def _arbitrary(kind):
    """a number nothing is known about, another one at every call"""
    def f(eng, a, k):
        n = eng.fresh_name("arbitrary")
        D.declare(n)
        return ScalarV(D.leaf(D.psym(n)), kind)
    return f


for _n in ("time.time", "time.perf_counter", "time.monotonic", "time.process_time", "random.random", "random.uniform", "random.gauss", "random.normalvariate",
           "numpy.random.random", "numpy.random.uniform", "numpy.random.normal"):
    FUNCS[_n] = _arbitrary("float")
for _n in ("time.time_ns", "time.perf_counter_ns", "random.randint", "random.getrandbits", "random.randrange", "os.getpid", "threading.get_ident",
           "numpy.random.randint"):
    FUNCS[_n] = _arbitrary("int")


def environment(eng, key):
    """is a variable of the environment set, and to what: nothing is known, but that it stays the same during one operation"""
    at = f"environ[{key}]#{eng.epoch}"
    b = lambda n: D.batom(("bsym", at + n, ()))
    return b(".set"), PhiV(b(".value"), "1", "0.5")


@ext("os.environ.get", "os.getenv")
def os_getenv(eng, a, k):
    key, default = bindargs(eng, ["key", "default"], a, k, {"default": None})
    there, value = environment(eng, key)
    return PhiV(there, value, default)


@ext("numpy.random.rand", "numpy.random.randn")
def n_rand(eng, a, k):
    return sym_tensor(eng.fresh_name("arbitrary"), shape_arg(eng, tuple(a)), "float32")


@ext("jax.devices", "jax.local_devices", "jax.device_count", "jax.default_backend")
def r_dev(eng, a, k):
    return eng.unknown("devices")


@ext("builtins.NotImplemented")
def notimpl(eng, a, k):
    eng.throw("TypeError", "'NotImplementedType' object is not callable")


# ----------------------------------------------------------------- dispatch


CONSTS = {"math.pi": 3.141592653589793, "math.e": 2.718281828459045, "math.inf": float("inf"), "math.nan": float("nan"),
          "jax.numpy.inf": float("inf"), "jax.numpy.nan": float("nan"), "jax.numpy.pi": 3.141592653589793, "jax.numpy.e": 2.718281828459045,
          "numpy.inf": float("inf"), "numpy.nan": float("nan"), "numpy.pi": 3.141592653589793, "jax.numpy.newaxis": None,
          "numpy.newaxis": None, "typing.TYPE_CHECKING": False, "jax.numpy.e": 2.718281828459045}


def ext_attr(eng, o, name, importing=False):
    path = o.path + "." + name
    if path in CONSTS:
        return CONSTS[path]
    if o.path == "jax.experimental.checkify" and name.endswith("_checks"):
        names = {"user_checks": ("user",), "nan_checks": ("nan",), "div_checks": ("div",), "index_checks": ("oob",),
                 "float_checks": ("nan", "div"), "automatic_checks": ("nan", "div", "oob"), "all_checks": ("user", "nan", "div", "oob")}
        if name in names:
            return eng.new(SetCell({("s", x): x for x in names[name]}, True))
    if path in EXT_CLASSES:
        return EXT_CLASSES[path]
    if o.path in MEMBERS:
        if name not in MEMBERS[o.path] and path not in MODULES:
            if name in ("__name__", "__file__", "__doc__", "__version__"):
                return o.path
            if importing:
                eng.throw("ImportError", f"cannot import name '{name}' from '{o.path}'")
            return UNBOUND
    elif o.path in MODULES and importing and o.path.split(".")[0] in ("jax", "flax", "numpy"):
        return ExtV(path)
    return ExtV(path)


PRIVATE_ALIASES = (("jax._src.numpy.lax_numpy.", "jax.numpy."), ("jax._src.tree_util.", "jax.tree_util."),
                   ("jax._src.checkify.", "jax.experimental.checkify."), ("jax.experimental.pjit.pjit", "jax.jit"))


def call_ext(eng, fn, args, kwargs):
    path = fn.path
    for p, q in PRIVATE_ALIASES:
        if path.startswith(p):
            path = q + path[len(p):]
    f = FUNCS.get(path)
    if f is None:
        d = as_dtype(ExtV(path))
        if d is not None:
            return asarray(eng, args[0] if args else 0, d)
        if path.startswith("logging."):
            return None
        if path.startswith("typing."):
            return ExtV("typing.Any")
        k = EXT_CLASSES.get(path)
        if k is not None:
            return eng.B.call_extclass(eng, k, args, kwargs)
        return eng.unknown(f"call of {path}")
    if path not in PASS_UNKNOWN:
        for v in list(args) + list(kwargs.values()):
            if isinstance(v, UnknownV):
                return eng.unknown(f"{path} of unknown: {v.why}")
    if path.startswith("numpy.") and path not in NP_SHAPE_ONLY and any(isinstance(v, TensorV) and v.tracer for v in args):
        eng.event("concretize", "numpy function of a traced array")
        eng.throw("ConcretizationTypeError", "The numpy.ndarray conversion method __array__() was called on traced array")
    r = f(eng, list(args), kwargs)
    if path.startswith("numpy.") and isinstance(r, TensorV):
        r = TensorV(r.shape, r.dtype, r.node, r.weak, r.loc, False, True, r.low)
    return r


PASS_UNKNOWN = {"functools.wraps", "functools.partial", "typing.cast", "jax.experimental.checkify.check", "copy.copy", "copy.deepcopy",
                "jax.lax.while_loop", "dataclasses.replace", "warnings.warn", "functools.reduce", "functools.lru_cache"}
NP_SHAPE_ONLY = {"numpy.shape", "numpy.ndim", "numpy.size", "numpy.issubdtype", "numpy.result_type", "numpy.dtype", "numpy.isscalar",
                 "numpy.broadcast_shapes"}


def ext_isinstance(eng, v, cls):
    B = eng.B
    path = cls.path
    if path == "typing.Any":
        return True
    k = EXT_CLASSES.get(path)
    if k is not None:
        return B.isinstance_(eng, v, k)
    n = path.rpartition(".")[2]
    if path.startswith(("jax.numpy.", "numpy.")) and (n in ABSTRACT_DT or n in DTNAMES):
        return False          # numpy scalar types: abstract values never carry them
    if path in ("jax.tree_util.Partial", "functools.partial"):
        return isinstance(v, PartialV)
    return eng.unknown_bool(f"isinstance of {path}")


def ext_getitem(eng, o, k):
    c = EXT_CLASSES.get(o.path)
    return c if c is not None else o


# --------------------------------------------------------------------- flax


def flax_attr(eng, name):
    if name in ("is_mutable_collection", "is_initializing", "has_variable", "has_rng", "param", "variable", "init", "apply", "bind", "clone",
                "make_rng", "sow", "perturb", "put_variable", "get_variable", "init_with_output", "lazy_init", "tabulate", "unbind",
                "variables", "scope", "path", "name", "parent", "setup", "module_paths"):
        if name == "setup":
            return BuiltinV("setup", lambda e, a, k: None)
        if name in ("name", "parent", "scope", "path", "variables", "module_paths"):
            return PropertyV(BuiltinV(name, lambda e, a, k: e.unknown("flax " + name)))
        if name in ("is_mutable_collection", "is_initializing", "has_variable", "has_rng"):
            return BuiltinV(name, lambda e, a, k: BoolV(D.batom(("bsym", f"flax.{name}({a[1:]!r})", ()))))
        return BuiltinV(name, lambda e, a, k: e.unknown("flax " + name))
    return UNBOUND
