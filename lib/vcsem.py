"""Encoding of generated verification conditions: the postcondition and the loop
invariants are z3 uninterpreted predicates (or exact relations), program variables
are symbolic (lists up to a capacity), everything else is evaluated by IRSem."""
import typing

import z3

import sv
from irsem import IRSem


def tname(t):
    o = typing.get_origin(t)
    return getattr(o or t, "__name__", str(t))


def targs(t):
    return typing.get_args(t)


class Overflow(Exception):
    pass


class Dom:
    """Flattening of metalift-typed values into first-order arguments."""

    def __init__(self, cap=3, rows=2, cols=2):
        self.cap, self.rows, self.cols = cap, rows, cols

    def flat(self, v, nested=False):
        """z3 terms identifying v; (terms, ok) where ok says v fits the domain."""
        if sv.is_z3(v):
            return [v], sv.T
        if isinstance(v, sv.SV):
            return [v.arr], sv.T
        if isinstance(v, sv.TV):
            ts, ok = [], sv.T
            for x in v.items:
                t, o = self.flat(x)
                ts += t
                ok = sv.And(ok, o)
            return ts, ok
        if isinstance(v, sv.LV):
            n = sv.llen(v)
            ts = [n]
            inner = [x for _, (g, vs) in v.alts.items() for x in vs]
            if any(not sv.is_z3(x) for x in inner):
                ok = n <= self.rows
                for k in range(self.rows):
                    row = sv.lget(v, z3.IntVal(k), sv.EMPTY)
                    rn = sv.llen(row)
                    ok = sv.And(ok, rn <= self.cols)
                    ts.append(z3.simplify(rn))
                    ts += [z3.simplify(sv.lget(row, z3.IntVal(j), z3.IntVal(0))) for j in range(self.cols)]
                return ts, z3.simplify(ok)
            if nested:
                ts += [z3.IntVal(0)] * (self.rows * (self.cols + 1))
                return ts, sv.T
            for k in range(self.cap):
                ts.append(z3.simplify(sv.lget(v, z3.IntVal(k), z3.IntVal(0))))
            return ts, z3.simplify(n <= self.cap)
        raise Overflow(repr(v))

    def new(self, t, name):
        """(value, constraint, z3 variables) for a fresh variable of metalift type t."""
        n = tname(t)
        if n == "Int":
            v = z3.Int(name)
            return v, sv.T, [v]
        if n == "Bool":
            v = z3.Bool(name)
            return v, sv.T, [v]
        if n in ("Set", "set"):
            v = z3.Const(name, z3.SetSort(z3.IntSort()))
            return sv.SV(v), sv.T, [v]
        if n in ("Tuple", "tuple"):
            items = targs(t)
            if len(items) == 1 and tname(items[0]) in ("tuple", "Tuple"):
                items = targs(items[0])
            vs, cs, zs = [], sv.T, []
            for i, x in enumerate(items):
                a, c, z = self.new(x, f"{name}.{i}")
                vs.append(a)
                cs = sv.And(cs, c)
                zs += z
            return sv.TV(vs), cs, zs
        if n in ("List", "list") and tname(targs(t)[0]) == "Int":
            ln = z3.Int(name + "#len")
            es = [z3.Int(f"{name}[{k}]") for k in range(self.cap)]
            l = sv.LV({k: (ln == k, es[:k]) for k in range(self.cap + 1)})
            c = sv.And(ln >= 0, ln <= self.cap,
                       *[z3.Implies(ln <= k, es[k] == 0) for k in range(self.cap)])
            return l, c, [ln] + es
        if n in ("List", "list", "Matrix") and (n == "Matrix" or tname(targs(t)[0]) in ("List", "list")):
            ln = z3.Int(name + "#len")
            rows, cs, zs = [], sv.And(ln >= 0, ln <= self.rows), [ln]
            sub = Dom(self.cols)
            for k in range(self.rows):
                r, c, z = sub.new(_IntList, f"{name}[{k}]")
                rows.append(r)
                cs = sv.And(cs, c, z3.Implies(ln <= k, z[0] == 0))
                zs += z
            return sv.LV({k: (ln == k, rows[:k]) for k in range(self.rows + 1)}), cs, zs
        raise Overflow(f"type {t}")


_IntList = typing.List[type("Int", (), {})]


class Preds:
    """The predicates of a VC: name -> callable on values returning a z3 Bool."""

    def __init__(self, dom):
        self.dom = dom
        self.ufs = {}
        self.fits = []
        self.nested = {}  # predicate -> which arguments are lists of lists

    def uf(self, name, xs):
        ts = []
        for x, nst in zip(xs, self.nested.get(name) or [False] * len(xs)):
            t, ok = self.dom.flat(x, nst)
            ts += t
            if not z3.is_true(ok):
                self.fits.append(ok)
        key = (name, tuple(str(t.sort()) for t in ts))
        if key not in self.ufs:
            self.ufs[key] = z3.Function(name, *[t.sort() for t in ts], z3.BoolSort())
        return self.ufs[key](*ts)


def free_vars(e, out=None, bound=()):
    """Free variables of an IR expression: name -> type."""
    out = {} if out is None else out
    k = type(e).__name__
    if k == "Var":
        if e.args[0] not in bound:
            out.setdefault(e.args[0], []).append(e.type)
        return out
    if k == "Let":
        free_vars(e.args[1], out, bound)
        free_vars(e.args[2], out, bound + (e.args[0].args[0],))
        return out
    for a in getattr(e, "args", []):
        if hasattr(a, "args") and hasattr(a, "type"):
            free_vars(a, out, bound)
    return out


def conjuncts(e):
    if type(e).__name__ == "And":
        return [c for a in e.args for c in conjuncts(a)]
    return [e]


def encode(e, env, preds, fns=None):
    """(formula, definedness and domain side conditions) of one conjunct."""
    S = IRSem(env=env, fns={**(fns or {}), **preds})
    f = S.ev(e)
    return f, S.defs


def formulas(vc, declared, dom, inputs, types, preds, fns=None):
    """[(conjunct, env, side conditions, formula, quantified variables)] of a generated
    condition.  preds: {"names", "ufs", "fn"}; raises KeyError/ValueError on a variable
    without declaration or with two types."""
    out = []
    for conj in conjuncts(vc):
        fv = free_vars(conj)
        env, cons, qs = {}, [], []
        for n, ts in fv.items():
            if len({str(t) for t in ts}) > 1:
                raise ValueError(f"variable {n} has two types {ts}")
            if n in inputs:
                if str(ts[0]) != str(types[n]):
                    raise ValueError(f"variable {n} has type {ts[0]} instead of {types[n]}")
                env[n] = inputs[n]
            else:
                v, c, zs = dom.new(ts[0], n)
                env[n] = v
                cons.append(c)
                qs += zs
            if n not in declared:
                raise KeyError(f"variable {n} of the condition is not declared")
        P = Preds(dom)
        P.ufs = preds["ufs"]
        P.nested = preds.get("nested", {})
        # every function is total in a condition: what list_get gives outside the list is
        # some value, so definedness is no side condition here
        S = IRSem(env=env, div="euclid", fns={
            **(fns or {}), **{n: (lambda nm: lambda *xs: preds["fn"](P, nm, xs))(n) for n in preds["names"]}})
        f = S.ev(conj)
        out.append((conj, env, sv.And(*cons, *P.fits), f, qs))
    return out



def instances(vc, inputs, dom, states, limit=80):
    """The implication of one condition with its variables replaced by the values some
    states have.  A condition spanning several loops names the states of each with the
    same suffix: variables v, v_1, v_2."""
    import itertools
    import re

    conj, env, side, f, qs = vc
    if not qs:
        return [z3.Implies(side, f)]
    names = [n for n in env if n not in inputs]
    base = {}
    for n in names:
        m = re.fullmatch(r"(.*?)(?:_(\d+))?", n)
        base[n] = (n, "") if any(n in s for s in states) else (m.group(1), m.group(2) or "")
    groups = sorted({s for _, s in base.values()})
    out = []
    for pick in itertools.islice(itertools.product(states, repeat=len(groups)), limit):
        by = dict(zip(groups, pick))
        terms = []
        for n in names:
            b, g = base[n]
            x = by[g].get(b)
            v = env[n]
            nested = isinstance(v, sv.LV) and any(not sv.is_z3(y) for _, (_, vs) in v.alts.items() for y in vs)
            try:
                if x is None:  # not assigned yet: the frontends start from 0, False or nothing
                    terms += [z3.IntVal(0) if y.sort() == z3.IntSort() else z3.BoolVal(False) if y.sort() == z3.BoolSort()
                              else z3.K(y.sort().domain(), z3.BoolVal(False)) for y in dom.flat(v, nested)[0]]
                else:
                    terms += dom.flat(x, nested)[0]
            except Exception:
                break
        else:
            if len(terms) == len(qs) and all(a.sort() == b.sort() for a, b in zip(terms, qs)):
                out.append(z3.substitute(z3.Implies(side, f), *zip(qs, terms)))
    return out
