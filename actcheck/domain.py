"""
The value domain of the abstract interpreter.

A tensor is abstracted pointwise: one *generic element* at index (i0, i1, ...).
The element is a gated value: a decision diagram whose tests are boolean atoms
(sign tests on polynomials, opaque predicates, elements of bool tensors) and
whose leaves are polynomials with rational coefficients over numeric atoms
(elements of input tensors, uninterpreted functions of other polynomials).
Booleans are the same diagrams with True/False leaves.

Two gated values are compared leaf by leaf; a region (a conjunction of sign
tests) that the linear relational domain below shows to be empty is ignored.
Everything is hash-consed, so structural equality is identity.
"""
from fractions import Fraction

# --------------------------------------------------------------- numeric atoms


class Table:
    def __init__(self):
        self.ids = {}
        self.items = []

    def intern(self, key):
        i = self.ids.get(key)
        if i is None:
            i = self.ids[key] = len(self.items)
            self.items.append(key)
        return i

    def __getitem__(self, i):
        return self.items[i]


NATOMS = Table()     # ('sym', name, idx) | ('fn', name, args) | ('inv', Poly)
BATOMS = Table()     # ('gt0', Poly) | ('eq0', Poly) | ('bsym', name, idx) | ('opq', name, args) | ('all', Node)

# facts about symbols: name -> dict(lo, hi, lo_strict, hi_strict, data)
SYMINFO = {}


def declare(name, lo=None, hi=None, lo_strict=False, hi_strict=False, data=True):
    SYMINFO[name] = dict(lo=None if lo is None else Fraction(lo), hi=None if hi is None else Fraction(hi),
                         lo_strict=lo_strict, hi_strict=hi_strict, data=data)


class Poly:
    __slots__ = ("terms", "key", "_h")
    _tab = {}

    def __new__(cls, terms):
        items = tuple(sorted((m, c) for m, c in terms.items() if c != 0))
        p = cls._tab.get(items)
        if p is None:
            p = object.__new__(cls)
            p.terms = dict(items)
            p.key = items
            p._h = hash(items)
            cls._tab[items] = p
        return p

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and () in self.terms)

    def const(self):
        return self.terms.get((), Fraction(0))

    def __add__(self, o):
        t = dict(self.terms)
        for m, c in o.terms.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    def __sub__(self, o):
        return self + o.scale(Fraction(-1))

    def scale(self, k):
        return Poly({m: c * k for m, c in self.terms.items()})

    def __mul__(self, o):
        t = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                m = mono_mul(m1, m2)
                t[m] = t.get(m, 0) + c1 * c2
        return Poly(t)

    def atoms(self):
        out = set()
        for m in self.terms:
            for a, _ in m:
                out.add(a)
        return out

    def __repr__(self):
        return show_poly(self)


def mono_mul(a, b):
    d = dict(a)
    for x, n in b:
        d[x] = d.get(x, 0) + n
    # an atom and its inverse do not cancel automatically (x may be 0)
    return tuple(sorted(d.items()))


def pconst(c):
    return Poly({(): Fraction(c)})


ZERO = pconst(0)
ONE = pconst(1)


def patom(key):
    return Poly({((NATOMS.intern(key), 1),): Fraction(1)})


def psym(name, idx=()):
    return patom(("sym", name, idx))


# ------------------------------------------------------------------- diagrams


class Node:
    __slots__ = ("atom", "hi", "lo", "val", "id")
    _tab = {}
    _n = [0]

    def __repr__(self):
        return show_node(self)


def leaf(v):
    key = ("L", type(v) is bool, v)
    n = Node._tab.get(key)
    if n is None:
        n = Node()
        n.atom = None
        n.hi = n.lo = None
        n.val = v
        n.id = Node._n[0]
        Node._n[0] += 1
        Node._tab[key] = n
    return n


def mk(atom, hi, lo):
    if hi is lo:
        return hi
    key = (atom, hi.id, lo.id)
    n = Node._tab.get(key)
    if n is None:
        n = Node()
        n.atom = atom
        n.hi = hi
        n.lo = lo
        n.val = None
        n.id = Node._n[0]
        Node._n[0] += 1
        Node._tab[key] = n
    return n


TRUE = leaf(True)
FALSE = leaf(False)

_apply_memo = {}


class Blowup(Exception):
    pass


def apply(opname, fn, *ns):
    """Lift fn over the leaves of the diagrams."""
    key = (opname,) + tuple(n.id for n in ns)
    if opname is not None:
        r = _apply_memo.get(key)
        if r is not None:
            return r
    tops = [n.atom for n in ns if n.atom is not None]
    if not tops:
        r = fn(*[n.val for n in ns])
        if not isinstance(r, Node):
            r = leaf(r)
    else:
        a = min(tops)
        hi = apply(opname, fn, *[n.hi if n.atom == a else n for n in ns])
        lo = apply(opname, fn, *[n.lo if n.atom == a else n for n in ns])
        if a_is_before(a, hi) and a_is_before(a, lo):
            r = mk(a, hi, lo)
        else:
            r = ite(mk(a, TRUE, FALSE), hi, lo)
    if opname is not None:
        _apply_memo[key] = r
    return r


def a_is_before(a, n):
    return n.atom is None or a < n.atom


_ite_memo = {}


def ite(c, t, e):
    if c is TRUE:
        return t
    if c is FALSE:
        return e
    if t is e:
        return t
    if t is TRUE and e is FALSE:
        return c
    key = (c.id, t.id, e.id)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    a = min(n.atom for n in (c, t, e) if n.atom is not None)
    hi = ite(*[n.hi if n.atom == a else n for n in (c, t, e)])
    lo = ite(*[n.lo if n.atom == a else n for n in (c, t, e)])
    r = mk(a, hi, lo)
    _ite_memo[key] = r
    return r


def band(*ns):
    r = TRUE
    for n in ns:
        r = ite(r, n, FALSE)
    return r


def bor(*ns):
    r = FALSE
    for n in ns:
        r = ite(r, TRUE, n)
    return r


def bnot(n):
    return ite(n, FALSE, TRUE)


def bxor(a, b):
    return ite(a, bnot(b), b)


def beq(a, b):
    return ite(a, b, bnot(b))


def restrict(f, care):
    """a diagram equal to f wherever care holds, usually smaller"""
    if care is TRUE or f.atom is None:
        return f
    if care is FALSE:
        return f
    a = care.atom if f.atom is None else min(care.atom, f.atom)
    if care.atom == a:
        fh, fl = (f.hi, f.lo) if f.atom == a else (f, f)
        if care.lo is FALSE:
            return restrict(fh, care.hi)
        if care.hi is FALSE:
            return restrict(fl, care.lo)
        if f.atom != a:
            return restrict(f, bor(care.hi, care.lo))
        return mk(a, restrict(fh, care.hi), restrict(fl, care.lo))
    return mk(a, restrict(f.hi, care), restrict(f.lo, care))


def batom(key):
    return mk(BATOMS.intern(key), TRUE, FALSE)


def poly_is_data(p):
    for a in p.atoms():
        if natom_is_data(a):
            return True
    return False


def natom_is_data(a):
    k = NATOMS[a]
    if k[0] == "sym":
        return SYMINFO.get(k[1], {}).get("data", True)
    if k[0] == "inv":
        return poly_is_data(k[1])
    return any(arg_is_data(x) for x in k[2])


def arg_is_data(x):
    if isinstance(x, Poly):
        return poly_is_data(x)
    if isinstance(x, Node):
        return node_is_data(x)
    if isinstance(x, tuple):
        return any(arg_is_data(y) for y in x)
    return False


_data_memo = {}


def node_is_data(n):
    """Does the value (tests or leaves) depend on tensor contents?"""
    r = _data_memo.get(n.id)
    if r is None:
        if n.atom is None:
            r = isinstance(n.val, Poly) and poly_is_data(n.val)
        else:
            r = batom_is_data(n.atom) or node_is_data(n.hi) or node_is_data(n.lo)
        _data_memo[n.id] = r
    return r


def batom_is_data(a):
    k = BATOMS[a]
    if k[0] in ("gt0", "eq0"):
        return poly_is_data(k[1])
    if k[0] == "bsym":
        return SYMINFO.get(k[1], {}).get("data", True)
    if k[0] == "all":
        return True
    if k[0] == "opq":
        return any(arg_is_data(x) for x in k[2])
    return False


def lead(p):
    for m, c in p.key:
        if m != ():
            return c
    return p.const()


def gt0_poly(p):
    if p.is_const():
        return p.const() > 0
    k = lead(p)
    p = p.scale(1 / abs(k))
    # static integer-like quantities: fold with the declared bounds
    b = bound_sign(p)
    if b is not None:
        return b
    return batom(("gt0", p))


def bound_sign(p):
    """Sign of a linear polynomial whose atoms all have declared static bounds (dims)."""
    lo = hi = Fraction(0)
    for m, c in p.terms.items():
        if m == ():
            lo += c
            hi += c
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        k = NATOMS[m[0][0]]
        if k[0] != "sym":
            return None
        info = SYMINFO.get(k[1])
        if not info or info.get("data", True):
            return None
        l, h = info["lo"], info["hi"]
        if c > 0:
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        else:
            lo = None if lo is None or h is None else lo + c * h
            hi = None if hi is None or l is None else hi + c * l
    if lo is not None and lo > 0:
        return True
    if hi is not None and hi <= 0:
        return False
    return None


def eq0_poly(p):
    if p.is_const():
        return p.const() == 0
    if poly_is_data(p):
        return band(bnot(_n(gt0_poly(p))), bnot(_n(gt0_poly(p.scale(Fraction(-1))))))
    p = p.scale(1 / lead(p))
    if bound_sign(p) is True or bound_sign(p.scale(Fraction(-1))) is True:
        return False
    return batom(("eq0", p))


def _n(x):
    return x if isinstance(x, Node) else leaf(x)


def is_constant(n):
    return n.atom is None and (isinstance(n.val, bool) or n.val.is_const())


def all_terminals(n, f):
    """does every terminal of a numeric diagram satisfy f?"""
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.atom is not None:
            todo += [x.hi, x.lo]
        elif isinstance(x.val, bool) or not f(x.val):
            return False
    return True


def num(c):
    return leaf(pconst(Fraction(c) if not isinstance(c, float) else Fraction(str(c)) if c == c and abs(c) != float("inf") else 0))


def numeric(c):
    """A node for a python number (floats by their decimal text, inf/nan as symbols)."""
    if isinstance(c, bool):
        return leaf(pconst(int(c)))
    if isinstance(c, float):
        if c != c:
            return leaf(psym("nan"))
        if c in (float("inf"), float("-inf")):
            s = psym("inf")
            return leaf(s if c > 0 else s.scale(Fraction(-1)))
        return leaf(pconst(Fraction(repr(c))))
    return leaf(pconst(Fraction(c)))


declare("nan")
declare("inf", lo=10 ** 30)


def to_num(n):
    """bool diagram -> 0/1 diagram; numeric unchanged"""
    return apply("tonum", lambda v: (ONE if v else ZERO) if isinstance(v, bool) else v, n)


def to_bool(n):
    """numeric diagram -> (x != 0)"""
    def f(v):
        if isinstance(v, bool):
            return v
        r = eq0_poly(v)
        return bnot(_n(r))
    return apply("tobool", f, n)


def is_bool_node(n):
    while n.atom is not None:
        n = n.hi
    return isinstance(n.val, bool)


def add(a, b):
    return apply("add", lambda x, y: x + y, to_num(a), to_num(b))


def sub(a, b):
    return apply("sub", lambda x, y: x - y, to_num(a), to_num(b))


def mul(a, b):
    return apply("mul", lambda x, y: x * y, to_num(a), to_num(b))


def neg(a):
    return apply("neg", lambda x: x.scale(Fraction(-1)), to_num(a))


def inv_poly(p):
    if p.is_const():
        if p.const() == 0:
            return patom(("fn", "div0", ()))
        return pconst(1 / p.const())
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        out = pconst(1 / c)
        for a, n in m:
            k = NATOMS[a]
            base = k[1] if k[0] == "inv" else patom(("inv", Poly({((a, 1),): Fraction(1)})))
            for _ in range(n):
                out = out * base
        return out
    k = lead(p)
    return patom(("inv", p.scale(1 / k))).scale(1 / k)


def cancel(p):
    """cancel x * inv(x) inside monomials (finite non-zero divisors)"""
    out = {}
    for m, c in p.terms.items():
        d = dict(m)
        changed = True
        while changed:
            changed = False
            for a in list(d):
                k = NATOMS[a]
                if k[0] == "inv" and len(k[1].terms) == 1:
                    (m2, _), = k[1].terms.items()
                    if len(m2) == 1 and m2[0][1] == 1 and d.get(m2[0][0], 0) > 0:
                        b = m2[0][0]
                        n = min(d[a], d[b])
                        d[a] -= n
                        d[b] -= n
                        d = {x: y for x, y in d.items() if y}
                        changed = True
                        break
        mm = tuple(sorted(d.items()))
        out[mm] = out.get(mm, 0) + c
    return Poly(out)


def div(a, b):
    return apply("div", lambda x, y: cancel(x * inv_poly(y)), to_num(a), to_num(b))


def gt(a, b):
    return apply("gt", lambda x, y: gt0_poly(x - y), to_num(a), to_num(b))


def ge(a, b):
    return bnot(gt(b, a))


def lt(a, b):
    return gt(b, a)


def le(a, b):
    return bnot(gt(a, b))


def eq(a, b):
    if is_bool_node(a) and is_bool_node(b):
        return beq(a, b)
    return apply("eq", lambda x, y: eq0_poly(x - y), to_num(a), to_num(b))


def vmin(a, b):
    return ite(gt(a, b), to_num(b), to_num(a))


def vmax(a, b):
    return ite(gt(b, a), to_num(b), to_num(a))


def fn(name, *args):
    """uninterpreted function, applied on every leaf combination"""
    return apply("fn:" + name, lambda *vs: patom(("fn", name, tuple(vs))), *args)


def opq(name, *args):
    return batom(("opq", name, args))


# ------------------------------------------------------------ index renaming


def rename_idx(idx, f):
    return tuple(f(i) if isinstance(i, str) else i for i in idx)


def poly_rename(p, f):
    out = ZERO
    for m, c in p.terms.items():
        t = pconst(c)
        for a, n in m:
            q = natom_rename(a, f)
            for _ in range(n):
                t = t * q
        out = out + t
    return out


def natom_rename(a, f):
    k = NATOMS[a]
    if k[0] == "sym":
        return patom(("sym", k[1], rename_idx(k[2], f)))
    if k[0] == "inv":
        return patom(("inv", poly_rename(k[1], f)))
    return patom(("fn", k[1], tuple(arg_rename(x, f) for x in k[2])))


def arg_rename(x, f):
    if isinstance(x, Poly):
        return poly_rename(x, f)
    if isinstance(x, Node):
        return node_rename(x, f)
    return x


def batom_rename(a, f):
    k = BATOMS[a]
    if k[0] in ("gt0", "eq0"):
        return _n(gt0_poly(poly_rename(k[1], f)) if k[0] == "gt0" else eq0_poly(poly_rename(k[1], f)))
    if k[0] == "bsym":
        return batom(("bsym", k[1], rename_idx(k[2], f)))
    if k[0] == "opq":
        return batom(("opq", k[1], tuple(arg_rename(x, f) for x in k[2])))
    return mk(a, TRUE, FALSE)     # 'all' is index free


def node_rename(n, f, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(n.id)
    if r is not None:
        return r
    if n.atom is None:
        r = leaf(poly_rename(n.val, f)) if isinstance(n.val, Poly) else n
    else:
        r = ite(batom_rename(n.atom, f), node_rename(n.hi, f, memo), node_rename(n.lo, f, memo))
    memo[n.id] = r
    return r


def node_subst_sym(n, mapping, memo=None):
    """replace numeric symbols by nodes: mapping (name, idx) -> Node or None"""
    memo = {} if memo is None else memo

    def poly(p):
        out = leaf(ZERO)
        for m, c in p.terms.items():
            t = leaf(pconst(c))
            for a, k in m:
                q = atom(a)
                for _ in range(k):
                    t = mul(t, q)
            out = add(out, t)
        return out

    def atom(a):
        k = NATOMS[a]
        if k[0] == "sym":
            r = mapping(k[1], k[2])
            return r if r is not None else leaf(patom(k))
        if k[0] == "inv":
            return div(leaf(ONE), poly(k[1]))
        args = [poly(x) if isinstance(x, Poly) else x for x in k[2]]
        if all(isinstance(x, Node) for x in args):
            return fn(k[1], *args)
        return leaf(patom(k))

    def go(n):
        r = memo.get(n.id)
        if r is not None:
            return r
        if n.atom is None:
            r = poly(n.val) if isinstance(n.val, Poly) else n
        else:
            k = BATOMS[n.atom]
            if k[0] == "gt0":
                c = gt(poly(k[1]), leaf(ZERO))
            elif k[0] == "eq0":
                c = eq(poly(k[1]), leaf(ZERO))
            elif k[0] == "bsym":
                c = mapping(k[1], k[2])
                c = batom(k) if c is None else c
            else:
                c = mk(n.atom, TRUE, FALSE)
            r = ite(c, go(n.hi), go(n.lo))
        memo[n.id] = r
        return r
    return go(n)


# ----------------------------------------------------- linear relational domain


def facts_for(polys):
    """Background facts (poly, strict) for every atom and product occurring in polys."""
    monos = set()
    for p in polys:
        for m in p.terms:
            if m:
                monos.add(m)
    atoms = set(a for m in monos for a, _ in m)
    out = []
    nonneg = set()
    for a in atoms:
        k = NATOMS[a]
        x = Poly({((a, 1),): Fraction(1)})
        if k[0] == "sym":
            info = SYMINFO.get(k[1])
            if info:
                if info["lo"] is not None:
                    out.append((x - pconst(info["lo"]), info["lo_strict"]))
                    if info["lo"] >= 0:
                        nonneg.add(a)
                if info["hi"] is not None:
                    out.append((pconst(info["hi"]) - x, info["hi_strict"]))
        elif k[0] == "fn" and k[1] in ("abs", "exp", "sqrt", "sigmoid"):
            out.append((x, False))
            nonneg.add(a)
    return out, nonneg, monos


def feasible(cons):
    """
    cons: list of (poly, strict) meaning poly > 0 (strict) or poly >= 0.
    Returns False only when the constraints, with the declared facts, are
    shown empty (Fourier-Motzkin over monomials as independent dimensions).
    """
    cons = substitute_equalities(cons)
    polys = [p for p, _ in cons]
    facts, nonneg, monos = facts_for(polys)
    cons = list(cons) + facts
    # which atoms are known non-negative from the constraints themselves
    for p, s in cons:
        if len(p.terms) <= 2:
            ms = [m for m in p.terms if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and p.terms[ms[0]] > 0 and p.const() <= 0:
                nonneg.add(ms[0][0][0])
    for m in monos:
        if len(m) > 1 or m[0][1] > 1:
            if all(a in nonneg or n % 2 == 0 for a, n in m):
                cons.append((Poly({m: Fraction(1)}), False))
            # x in [0,1] factors: product <= rest of the product, when that is itself a dimension
            for a, n in m:
                k = NATOMS[a]
                if k[0] == "sym" and SYMINFO.get(k[1], {}).get("hi") == 1 and all(b in nonneg for b, _ in m):
                    d = dict(m)
                    d[a] -= 1
                    rest = tuple(sorted((b, c) for b, c in d.items() if c))
                    cons.append((Poly({rest: Fraction(1)}) - Poly({m: Fraction(1)}), False))
    rows = []
    seen = set()
    for p, s in cons:
        c = p.const()
        row = {m: v for m, v in p.terms.items() if m}
        if not row:
            if (s and c <= 0) or (not s and c < 0):
                return False
            continue
        rows.append((row, c, s))
    while True:
        vars_ = set(m for r, _, _ in rows for m in r)
        if not vars_:
            return True
        best = None
        for v in vars_:
            pos = sum(1 for r, _, _ in rows if r.get(v, 0) > 0)
            ng = sum(1 for r, _, _ in rows if r.get(v, 0) < 0)
            cost = pos * ng - pos - ng
            if best is None or cost < best[0]:
                best = (cost, v)
        v = best[1]
        P = [x for x in rows if x[0].get(v, 0) > 0]
        N = [x for x in rows if x[0].get(v, 0) < 0]
        R = [x for x in rows if x[0].get(v, 0) == 0]
        new = {}
        for r, c, s in R:
            new[(tuple(sorted(r.items())), c, s)] = (r, c, s)
        for r1, c1, s1 in P:
            for r2, c2, s2 in N:
                k1, k2 = -r2[v], r1[v]
                row = {}
                for m, x in r1.items():
                    if m != v:
                        row[m] = row.get(m, 0) + k1 * x
                for m, x in r2.items():
                    if m != v:
                        row[m] = row.get(m, 0) + k2 * x
                row = {m: x for m, x in row.items() if x}
                c = k1 * c1 + k2 * c2
                s = s1 or s2
                if not row:
                    if (s and c <= 0) or (not s and c < 0):
                        return False
                    continue
                k = abs(next(iter(sorted(row.items())))[1])
                row = {m: x / k for m, x in row.items()}
                c = c / k
                new[(tuple(sorted(row.items())), c, s)] = (row, c, s)
        rows = list(new.values())
        if len(rows) > 1500:
            return True


def normal_sign(p):
    """(p / |leading coefficient|, sign)"""
    c = lead(p)
    return p.scale(1 / abs(c)) if c else p


def substitute_equalities(cons):
    """use p >= 0 and -p >= 0 to eliminate an atom p is linear in"""
    cons = list(cons)
    for _ in range(6):
        have = {normal_sign(p).key: p for p, s in cons if not s and p.terms}
        eqs = None
        for k, p in have.items():
            if normal_sign(p.scale(Fraction(-1))).key in have:
                at = [(m[0][0], c) for m, c in p.terms.items() if len(m) == 1 and m[0][1] == 1
                      and not any(m[0][0] == a and m2 != m for m2 in p.terms for a, _ in m2)]
                if at and len(p.terms) <= 3:
                    eqs = (p, at[-1])
                    break
        if eqs is None:
            return cons
        p, (a, c) = eqs
        x = Poly({((a, 1),): Fraction(1)})
        repl = x - p.scale(1 / c)
        new = []
        for q, s in cons:
            if a in q.atoms():
                q = subst_atom(q, a, repl)
            new.append((q, s))
        # keep the facts declared for the eliminated atom
        k = NATOMS[a]
        info = SYMINFO.get(k[1]) if k[0] == "sym" else None
        if info:
            if info["lo"] is not None:
                new.append((repl - pconst(info["lo"]), info["lo_strict"]))
            if info["hi"] is not None:
                new.append((pconst(info["hi"]) - repl, info["hi_strict"]))
        cons = [(q, s) for q, s in new if q.terms or s]
    return cons


def subst_atom(q, a, repl):
    out = ZERO
    for m, c in q.terms.items():
        t = pconst(c)
        for b, n in m:
            f = repl if b == a else Poly({((b, 1),): Fraction(1)})
            for _ in range(n):
                t = t * f
        out = out + t
    return out


def path_cons(path):
    """path: list of (batom, bool) -> list of alternatives of constraint lists (disjunction), None if contradictory"""
    base = []
    splits = []
    for a, v in path:
        k = BATOMS[a]
        if k[0] == "gt0":
            base.append((k[1], True) if v else (k[1].scale(Fraction(-1)), False))
        elif k[0] == "eq0":
            if v:
                base.append((k[1], False))
                base.append((k[1].scale(Fraction(-1)), False))
            else:
                splits.append(k[1])
    return base, splits


def instance(n, at="i"):
    """a universally bound element instantiated at the generic one (or at the witness `at`)"""
    return node_rename(n, lambda i: at + i[1:] if i.startswith("b") else i)


def path_feasible(path, extra=()):
    alls = [BATOMS[a][1] for a, v in path if v and BATOMS[a][0] == "all"]
    nots = [BATOMS[a][1] for a, v in path if not v and BATOMS[a][0] == "all"]
    if not alls and not nots:
        return cons_feasible(path, extra)
    known = dict(path)

    def go(x, p, extra):
        if x is FALSE:
            return False
        if x is TRUE:
            return cons_feasible(p, extra)
        if x.atom in known:
            return go(x.hi if known[x.atom] else x.lo, p, extra)
        return go(x.hi, p + [(x.atom, True)], extra) or go(x.lo, p + [(x.atom, False)], extra)
    # all(b) true makes b true at the generic element
    if not go(band(*[instance(n) for n in alls]), list(path), extra):
        return False
    # all(b) false needs an element where b is false and every other all() true
    for m in nots:
        if not go(band(*[instance(n, "w") for n in alls], bnot(instance(m, "w"))), list(path), extra):
            return False
    return True


def cons_feasible(path, extra=()):
    base, splits = path_cons(path)
    base = base + list(extra)

    def rec(i, cons):
        if i == len(splits):
            return feasible(cons)
        p = splits[i]
        return rec(i + 1, cons + [(p, True)]) or rec(i + 1, cons + [(p.scale(Fraction(-1)), True)])
    if len(splits) > 4:
        splits = splits[:4]
    return rec(0, base)


class Witness:
    def __init__(self, path, a=None, b=None):
        self.path = path
        self.a = a
        self.b = b

    def region(self):
        return " and ".join(show_lit(a, v) for a, v in self.path) or "always"

    def __repr__(self):
        s = f"where {self.region()}"
        if self.a is not None:
            s += f": computed {show_val(self.a)}, expected {show_val(self.b)}"
        return s


def differ(a, b, assume=TRUE):
    """None when a and b denote the same value under `assume`; otherwise a Witness."""
    if is_bool_node(a) != is_bool_node(b):
        a, b = to_num(a), to_num(b)
    seen = {}

    def go(x, y, g, path):
        if g is FALSE or x is y:
            return None
        tops = [n.atom for n in (x, y, g) if n.atom is not None]
        if tops:
            t = min(tops)
            for v in (True, False):
                p2 = path + [(t, v)]
                w = go(*[(n.hi if v else n.lo) if n.atom == t else n for n in (x, y, g)], p2)
                if w:
                    return w
            return None
        if isinstance(x.val, bool) or isinstance(y.val, bool):
            if path_feasible(path):
                return Witness(path, x.val, y.val)
            return None
        d = x.val - y.val
        if d is ZERO:
            return None
        if path_feasible(path, [(d, True)]) or path_feasible(path, [(d.scale(Fraction(-1)), True)]):
            return Witness(path, x.val, y.val)
        return None
    return go(a, b, assume, [])


def sat(n):
    """A Witness for a feasible path on which the bool diagram is true, or None."""
    def go(x, path):
        if x is FALSE:
            return None
        if x is TRUE:
            return Witness(path) if path_feasible(path) else None
        return go(x.hi, path + [(x.atom, True)]) or go(x.lo, path + [(x.atom, False)])
    return go(n, [])


def valid(n, assume=TRUE):
    """None when n holds wherever assume holds, else a Witness"""
    return sat(band(assume, bnot(n)))


def valid_ge(a, b, assume=TRUE, strict=False):
    return valid(gt(a, b) if strict else ge(a, b), assume)


# ----------------------------------------------------------------- reductions


def _canon_idx(n, rank):
    """Rename index variables i0.. to bound variables"""
    return node_rename(n, lambda i: "b" + i[1:] if i.startswith("i") else i)


def reduce_all(n):
    """conjunction of an elementwise boolean over all its indices"""
    if n is TRUE or n is FALSE:
        return n
    if not node_has_index(n):
        return n
    return batom(("all", _canon_idx(n, 0)))


def reduce_any(n):
    return bnot(reduce_all(bnot(n)))


def node_has_index(n):
    found = []

    def f(i):
        found.append(i)
        return i
    node_rename(n, f)
    return any(i.startswith("i") for i in found)


# -------------------------------------------------------------------- display


def show_idx(idx):
    return "" if not idx else "[" + ",".join(str(i) for i in idx) + "]"


def show_natom(a):
    k = NATOMS[a]
    if k[0] == "sym":
        return k[1] + show_idx(k[2])
    if k[0] == "inv":
        return f"1/({show_poly(k[1])})"
    return f"{k[1]}({', '.join(show_val(x) for x in k[2])})"


def show_val(v):
    if isinstance(v, Poly):
        return show_poly(v)
    if isinstance(v, Node):
        return show_node(v)
    return str(v)


def show_poly(p):
    if not p.terms:
        return "0"
    out = []
    for m, c in p.key:
        s = "*".join(show_natom(a) + (f"^{n}" if n > 1 else "") for a, n in m)
        if not s:
            out.append(str(c) if c.denominator == 1 else str(float(c)))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append(f"{c if c.denominator == 1 else float(c)}*{s}")
    out.sort(key=lambda s: s.startswith("-"))
    return " + ".join(out).replace("+ -", "- ")


def show_batom(a):
    k = BATOMS[a]
    if k[0] == "gt0":
        return f"({show_poly(k[1])} > 0)"
    if k[0] == "eq0":
        return f"({show_poly(k[1])} == 0)"
    if k[0] == "bsym":
        return k[1] + show_idx(k[2])
    if k[0] == "all":
        return f"all({show_node(k[1])})"
    return f"{k[1]}({', '.join(show_val(x) for x in k[2])})"


def show_lit(a, v):
    return ("" if v else "not ") + show_batom(a)


def show_node(n):
    if n.atom is None:
        return show_val(n.val)
    if n.hi is TRUE and n.lo is FALSE:
        return show_batom(n.atom)
    if n.hi is FALSE and n.lo is TRUE:
        return "not " + show_batom(n.atom)
    return f"if {show_batom(n.atom)} then {show_node(n.hi)} else {show_node(n.lo)}"
