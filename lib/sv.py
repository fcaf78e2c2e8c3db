"""Symbolic values: the oracle's data domain.

int, bool -> z3 terms;  list -> LV, a guarded union of concrete lengths whose
elements are symbolic values;  tuple -> TV;  set of int -> SV (z3 array).
"""
import itertools

import z3

_ctr = itertools.count()
T, F = z3.BoolVal(True), z3.BoolVal(False)


def fresh(prefix="t"):
    return f"{prefix}!{next(_ctr)}"


def simp(b):
    return z3.simplify(b)


def And(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return F
    return z3.And(*xs) if len(xs) > 1 else (xs[0] if xs else T)


def Or(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return T
    return z3.Or(*xs) if len(xs) > 1 else (xs[0] if xs else F)


def Not(x):
    if z3.is_true(x):
        return F
    if z3.is_false(x):
        return T
    return z3.Not(x)


class LV:
    """Guarded union of concrete-length lists: {length: (guard, [values])}."""

    def __init__(self, alts):
        self.alts = {n: (g, tuple(v)) for n, (g, v) in alts.items() if not z3.is_false(g)}

    @staticmethod
    def of(vals):
        return LV({len(vals): (T, tuple(vals))})

    def __repr__(self):
        return "LV" + repr(self.alts)


class TV:
    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "TV" + repr(self.items)


class SV:
    """Finite set of ints."""

    def __init__(self, arr):
        self.arr = arr


class FV:
    """A function value."""

    def __init__(self, fn, name=""):
        self.fn = fn
        self.name = name


EMPTY = LV.of(())


def lit(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, (list,)):
        return LV.of([lit(x) for x in v])
    if isinstance(v, tuple):
        return TV([lit(x) for x in v])
    raise TypeError(v)


def is_z3(v):
    return isinstance(v, z3.ExprRef)


class SortMismatch(Exception):
    """Two values of different sorts were merged or compared."""


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if is_z3(a) and is_z3(b):
        if a.sort() != b.sort():
            raise SortMismatch(f"{a} / {b}")
        if a.eq(b):
            return a
        return z3.If(c, a, b)
    if isinstance(a, LV) and isinstance(b, LV):
        out = {}
        nc = Not(c)
        for n in set(a.alts) | set(b.alts):
            if n in a.alts and n in b.alts:
                ga, va = a.alts[n]
                gb, vb = b.alts[n]
                out[n] = (simp(Or(And(c, ga), And(nc, gb))),
                          [ite(c, x, y) for x, y in zip(va, vb)])
            elif n in a.alts:
                g, v = a.alts[n]
                out[n] = (simp(And(c, g)), v)
            else:
                g, v = b.alts[n]
                out[n] = (simp(And(nc, g)), v)
        return LV(out)
    if isinstance(a, TV) and isinstance(b, TV) and len(a.items) == len(b.items):
        return TV([ite(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, SV) and isinstance(b, SV):
        return SV(z3.If(c, a.arr, b.arr))
    if isinstance(a, FV) and isinstance(b, FV):
        return FV(lambda *xs: ite(c, a.fn(*xs), b.fn(*xs)))
    raise SortMismatch(f"cannot merge {a!r} and {b!r}")


def eq(a, b):
    if is_z3(a) and is_z3(b):
        if a.sort() != b.sort():
            raise SortMismatch(f"{a} = {b}")
        return simp(a == b)
    if isinstance(a, LV) and isinstance(b, LV):
        parts = []
        for n in a.alts:
            if n in b.alts:
                ga, va = a.alts[n]
                gb, vb = b.alts[n]
                parts.append(And(ga, gb, *[eq(x, y) for x, y in zip(va, vb)]))
        return simp(Or(*parts))
    if isinstance(a, TV) and isinstance(b, TV):
        if len(a.items) != len(b.items):
            return F
        return And(*[eq(x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, SV) and isinstance(b, SV):
        return a.arr == b.arr
    raise SortMismatch(f"cannot compare {a!r} and {b!r}")


# ---- lists -------------------------------------------------------------
def llen(l):
    r = None
    for n, (g, _) in sorted(l.alts.items()):
        r = z3.IntVal(n) if r is None else z3.If(g, z3.IntVal(n), r)
    return simp(r) if r is not None else z3.IntVal(0)


def lmap_alts(l, f):
    """Merge f(elements) (a list of values) over the alternatives."""
    r = None
    for n, (g, v) in sorted(l.alts.items()):
        x = f(list(v))
        r = x if r is None else ite(g, x, r)
    return r if r is not None else f([])


def as_const(i):
    i = z3.simplify(i)
    return i.as_long() if z3.is_int_value(i) else None


def lget(l, i, default):
    """l[i] for 0 <= i < len, `default` otherwise."""
    c = as_const(i)

    def one(v):
        if c is not None:
            return v[c] if 0 <= c < len(v) else default
        r = default
        for k in range(len(v)):
            r = ite(i == k, v[k], r)
        return r

    return lmap_alts(l, one)


def ltake(l, i):
    """first i elements: [] when i <= 0, all of them when i >= len."""
    c = as_const(i)

    def one(v):
        if c is not None:
            return LV.of(v[: max(0, c)])
        r = LV.of(v)
        for k in range(len(v)):
            r = ite(i <= k if k == 0 else i == k, LV.of(v[:k]), r)
        return r

    return lmap_alts(l, one)


def ltail(l, i):
    """drop the first i elements: all of them when i <= 0, [] when i >= len."""
    c = as_const(i)

    def one(v):
        if c is not None:
            return LV.of(v[max(0, c):])
        r = EMPTY
        for k in range(len(v)):
            r = ite(i <= k if k == 0 else i == k, LV.of(v[k:]), r)
        return r

    return lmap_alts(l, one)


def lconcat(a, b):
    return lmap_alts(a, lambda va: lmap_alts(b, lambda vb: LV.of(va + vb)))


def lappend(l, x):
    return lmap_alts(l, lambda v: LV.of(v + [x]))


def lprepend(x, l):
    return lmap_alts(l, lambda v: LV.of([x] + v))


def lset(l, i, x):
    return lmap_alts(l, lambda v: LV.of([ite(i == k, x, v[k]) for k in range(len(v))]))


def lcontains(l, x):
    return lmap_alts(l, lambda v: Or(*[eq(x, y) for y in v]))


# ---- sets --------------------------------------------------------------
def sempty():
    return SV(z3.K(z3.IntSort(), F))


def sinsert(x, s):
    return SV(z3.Store(s.arr, x, T))


def smember(x, s):
    return z3.Select(s.arr, x)


def sunion(a, b):
    return SV(z3.SetUnion(a.arr, b.arr))


def sminus(a, b):
    return SV(z3.SetDifference(a.arr, b.arr))


def ssubset(a, b):
    return z3.IsSubset(a.arr, b.arr)


# ---- arithmetic --------------------------------------------------------
def trunc_div(a, b):
    # z3 div is Euclidean; quotient truncates
    return z3.If(b == 0, z3.IntVal(0),
                 z3.If(a >= 0, a / b, -((-a) / b)))


def trunc_rem(a, b):
    return a - b * trunc_div(a, b)


def floor_div(a, b):
    return z3.If(b > 0, a / b, (-a) / (-b))


def floor_mod(a, b):
    return a - b * floor_div(a, b)


# ---- fresh symbolic values ---------------------------------------------
def new_int(name):
    return z3.Int(name)


def new_bool(name):
    return z3.Bool(name)


def new_list(name, bound, elem, lo=0):
    """All lists of length lo..bound; elem(name) makes an element."""
    n = z3.Int(name + "#len")
    elems = [elem(f"{name}[{k}]") for k in range(bound)]
    l = LV({k: (n == k, elems[:k]) for k in range(lo, bound + 1)})
    return l, And(n >= lo, n <= bound)


def new_matrix(name, rows, cols, rect=False):
    """All matrices up to rows x cols (ragged unless rect)."""
    cons = []
    if rect:
        w = z3.Int(name + "#w")
        cons.append(And(w >= 0, w <= cols))

    def row(nm):
        if rect:
            es = [z3.Int(f"{nm}[{k}]") for k in range(cols)]
            return LV({k: (w == k, es[:k]) for k in range(cols + 1)})
        l, c = new_list(nm, cols, z3.Int)
        cons.append(c)
        return l

    m, c = new_list(name, rows, row)
    return m, And(c, *cons)


# ---- concretisation ----------------------------------------------------
def conc(v, m):
    """The concrete Python value of v in model m."""
    if is_z3(v):
        x = m.eval(v, model_completion=True)
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        return str(x)
    if isinstance(v, LV):
        for n, (g, vs) in sorted(v.alts.items()):
            if z3.is_true(m.eval(g, model_completion=True)):
                return [conc(x, m) for x in vs]
        return None
    if isinstance(v, TV):
        return tuple(conc(x, m) for x in v.items)
    if isinstance(v, SV):
        return str(m.eval(v.arr, model_completion=True))
    return repr(v)
