"""Interpreter of emitted Rosette/Racket text, and of metalift/utils/utils.rkt
itself, over sv values (only the subset those texts use)."""
import re

import z3

import sv
import sx
from irsem import elem_default

NUM = re.compile(r"^-?\d+$")


class RktError(Exception):
    """Racket would reject the text (unbound name, arity, contract)."""


class Dead(Exception):
    """The current path condition is infeasible."""


class RktSem:
    def __init__(self, env=None, fns=None, lits=None, fuel=60):
        self.env = dict(env or {})
        self.fns = dict(fns or {})
        self.defs = {}
        self.lits = lits or {}
        self.fuel = fuel
        self.pc = []
        self.assume = []
        self.errs = []      # conditions under which Racket raises an error

    def load(self, text):
        text = re.sub(r"^#lang.*$", "", text, flags=re.M)
        for f in sx.read(text):
            self.toplevel(unquote(f))

    def toplevel(self, f):
        h = f[0] if isinstance(f, list) and f else None
        if h in ("require", "provide", "current-bitwidth", "current-solver"):
            return
        if h in ("define", "define-bounded"):
            if isinstance(f[1], list):
                name, params = f[1][0], f[1][1:]
                if len(f) < 3:
                    raise RktError(f"{name}: no body")
                if name in self.defs:
                    raise RktError(f"{name} defined twice")
                self.defs[name] = (params, body_of(f[2:]))
                return
            if isinstance(f[1], str) and len(f) == 3:
                if isinstance(f[2], list) and f[2] and f[2][0] in ("lambda", "λ"):
                    return self.toplevel([h, [f[1], *f[2][1]], *f[2][2:]])
                self.env[f[1]] = self.ev(f[2], self.env)
                return
        raise RktError(f"unsupported form {sx.show(f)[:80]}")

    def expr(self, text):
        fs = sx.read(text)
        if len(fs) != 1:
            raise RktError(f"not one expression: {text[:80]}")
        return self.ev(unquote(fs[0]), self.env)

    def feasible(self):
        if not self.pc:
            return True
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*self.pc, *self.assume)
        return s.check() != z3.unsat

    def branch(self, cond, e, env):
        """Evaluate e knowing the path condition: lists the condition inspects
        lose the lengths it excludes; None when the branch is dead."""
        new = {}

        def go(x):
            if isinstance(x, list):
                for y in x:
                    go(y)
            elif x in env and isinstance(env[x], sv.LV) and x not in new:
                l = env[x]
                if len(l.alts) > 1:
                    s = z3.Solver()
                    s.set("timeout", 5000)
                    s.add(*self.pc, *self.assume)
                    keep = {}
                    for n, (g, v) in l.alts.items():
                        s.push()
                        s.add(g)
                        if s.check() != z3.unsat:
                            keep[n] = (g, v)
                        s.pop()
                    if len(keep) < len(l.alts):
                        if len(keep) == 1:
                            (n, (_, v)), = keep.items()
                            keep = {n: (sv.T, v)}
                        new[x] = sv.LV(keep)

        go(cond)
        if any(not v.alts for v in new.values()):
            return None
        try:
            return self.ev(e, {**env, **new})
        except Dead:
            return None

    def under(self, c, f):
        self.pc.append(c)
        try:
            return f()
        finally:
            self.pc.pop()

    def err(self, c):
        c = z3.simplify(c)
        if not z3.is_false(c):
            self.errs.append(sv.And(*self.pc, c))

    def cond(self, v):
        """Racket truthiness: everything but #f is true."""
        if sv.is_z3(v) and z3.is_bool(v):
            return z3.simplify(v)
        return sv.T

    def ev(self, e, env):
        if isinstance(e, str):
            if NUM.match(e):
                n = int(e)
                if abs(n) in self.lits:
                    x = self.lits[abs(n)]
                    return -x if e.startswith("-") else x
                return z3.IntVal(n)
            if e in ("true", "#t"):
                return sv.T
            if e in ("false", "#f"):
                return sv.F
            if e in env:
                return env[e]
            if e in ("null", "empty"):
                return sv.LV.of([])
            if e in self.defs or e in self.fns or e in PRIM:
                return sv.FV(lambda *xs: self.app(e, list(xs), {}), e)
            raise RktError(f"unbound identifier {e}")
        if not e:
            raise RktError("empty application ()")
        h = e[0]
        if h == "if":
            if len(e) != 4:
                raise RktError("if arity")
            c = self.cond(self.ev(e[1], env))
            if z3.is_true(c):
                return self.ev(e[2], env)
            if z3.is_false(c):
                return self.ev(e[3], env)
            a = self.under(c, lambda: self.branch(e[1], e[2], env))
            b = self.under(sv.Not(c), lambda: self.branch(e[1], e[3], env))
            if a is None or b is None:
                if a is None and b is None:
                    raise Dead()
                return a if b is None else b
            return sv.ite(c, a, b)
        if h == "let" and isinstance(e[1], str):
            # a named let: a local function called at once
            names, body = [b[0] for b in e[2]], body_of(e[3:])
            rec = self.local(e[1], names, body, env)
            return rec.fn(*[self.ev(b[1], env) for b in e[2]])
        if h == "let":
            new = {}
            for b in e[1]:
                new[b[0]] = self.ev(b[1], env)
            return self.ev(body_of(e[2:]), {**env, **new})
        if h in ("let*", "letrec", "letrec*"):
            new = dict(env)
            for n, x in e[1]:
                if h != "let*" and isinstance(x, list) and x and x[0] in ("lambda", "λ"):
                    new[n] = self.local(n, x[1], body_of(x[2:]), new)
                else:
                    new[n] = self.ev(x, dict(new))
            return self.ev(body_of(e[2:]), new)
        if h == "begin":
            return self.ev(body_of(e[1:]), env)
        if h == "cond":
            if len(e) < 2:
                raise RktError("cond: no clause holds")
            if e[1][0] == "else":
                return self.ev(body_of(e[1][1:]), env)
            return self.ev(["if", e[1][0], body_of(e[1][1:]), ["cond", *e[2:]] if len(e) > 2 else ["void"]], env)
        if h == "quote":
            if e[1] == []:
                return sv.LV.of([])
            raise RktError(f"unsupported quote {sx.show(e)}")
        if h == "match":
            return self.match(["match*", [e[1]], *[[[c[0]], *c[1:]] for c in e[2:]]], env)
        if h in ("lambda", "λ"):
            ps, body = e[1], body_of(e[2:])
            return sv.FV(lambda *xs: self.ev(body, {**env, **dict(zip(ps, xs))}))
        if h == "or":
            r = sv.F
            for x in e[1:]:
                v = self.under(sv.Not(r), lambda: self.ev(x, env))
                r = z3.simplify(sv.Or(r, self.boolv(v, "or")))
                if z3.is_true(r):
                    break
            return r
        if h == "and":
            r = sv.T
            for x in e[1:]:
                v = self.under(r, lambda: self.ev(x, env))
                r = z3.simplify(sv.And(r, self.boolv(v, "and")))
                if z3.is_false(r):
                    break
            return r
        if h == "match*":
            return self.match(e, env)
        if h == "assert":
            return self.ev(e[1], env)
        if isinstance(h, list):
            f = self.ev(h, env)
            return f.fn(*[self.ev(x, env) for x in e[1:]])
        xs = [self.ev(x, env) for x in e[1:]]
        return self.app(h, xs, env)

    def local(self, name, params, body, env):
        """A local function, which can call itself."""
        def call(*xs):
            if len(xs) != len(params):
                raise RktError(f"{name} expects {len(params)} arguments, got {len(xs)}")
            self.fuel -= 1
            try:
                if self.fuel < 0 or len(self.pc) > 6:
                    if not self.feasible():
                        raise Dead()
                    if self.fuel < 0:
                        raise RktError(f"out of fuel in {name}")
                return self.ev(body, {**env, name: rec, **dict(zip(params, xs))})
            finally:
                self.fuel += 1

        rec = sv.FV(call, name)
        return rec

    def boolv(self, v, h):
        if not (sv.is_z3(v) and z3.is_bool(v)):
            raise RktError(f"{h} applied to a non-boolean")
        return v

    def ints(self, h, xs, lo=1):
        if len(xs) < lo:
            raise RktError(f"{h} arity")
        for x in xs:
            if not (sv.is_z3(x) and z3.is_int(x)):
                raise RktError(f"{h} applied to a non-integer")

    def lst(self, h, x):
        if isinstance(x, sv.TV):
            return sv.LV.of(x.items)
        if not isinstance(x, sv.LV):
            raise RktError(f"{h} applied to a non-list")
        return x

    def app(self, h, xs, env):
        if h in env:
            if not isinstance(env[h], sv.FV):
                raise RktError(f"application of a non-procedure {h}")
            return env[h].fn(*xs)
        if h in self.fns:
            return self.fns[h](*xs)
        if h in self.defs:
            ps, body = self.defs[h]
            self.fuel -= 1
            try:
                if "." in ps:
                    k = ps.index(".")
                    if len(xs) < k:
                        raise RktError(f"{h} arity")
                    bind = dict(zip(ps[:k], xs[:k]))
                    bind[ps[k + 1]] = sv.LV.of(xs[k:])
                else:
                    if len(ps) != len(xs):
                        raise RktError(f"{h} expects {len(ps)} arguments, got {len(xs)}")
                    bind = dict(zip(ps, xs))
                if self.fuel < 0 or len(self.pc) > 6:
                    if not self.feasible():
                        raise Dead()
                    if self.fuel < 0:
                        raise RktError(f"out of fuel in {h}")
                return self.ev(body, {**self.env, **bind})
            finally:
                self.fuel += 1
        p = PRIM.get(h)
        if p is None:
            raise RktError(f"unbound identifier {h}")
        return p(self, h, xs)

    # -- match* on lists, as utils.rkt uses it --------------------------
    def match(self, e, env):
        scruts = [self.lst("match*", self.ev(x, env)) for x in e[1]]

        def go(vals):
            for clause in e[2:]:
                pats, body = clause[0], body_of(clause[1:])
                b = {}
                if all(pmatch(p, v, b) for p, v in zip(pats, vals)):
                    return self.ev(body, {**env, **b})
            raise RktError("match*: no clause")

        def alt(k, chosen):
            if k == len(scruts):
                return go(chosen)
            r = None
            for n, (g, v) in sorted(scruts[k].alts.items()):
                if len(scruts[k].alts) > 1:
                    self.pc.append(g)
                    if not self.feasible():
                        self.pc.pop()
                        continue
                    try:
                        x = alt(k + 1, chosen + [list(v)])
                    except Dead:
                        continue
                    finally:
                        self.pc.pop()
                else:
                    x = alt(k + 1, chosen + [list(v)])
                r = x if r is None else sv.ite(g, x, r)
            if r is None:
                raise Dead()
            return r

        return alt(0, [])


def unquote(f):
    """The reader's ' marks as (quote ...) forms."""
    if not isinstance(f, list):
        return f
    out, k = [], 0
    while k < len(f):
        if f[k] == "'" and k + 1 < len(f):
            out.append(["quote", unquote(f[k + 1])])
            k += 2
        else:
            out.append(unquote(f[k]))
            k += 1
    return out


def body_of(forms):
    """The forms of a body as one: definitions in it are local."""
    if not forms:
        raise RktError("empty body")
    f = forms[0]
    if len(forms) == 1:
        return f
    if isinstance(f, list) and f and f[0] == "define":
        if isinstance(f[1], list):
            return ["letrec", [[f[1][0], ["lambda", f[1][1:], *f[2:]]]], body_of(forms[1:])]
        return ["letrec", [[f[1], f[2]]], body_of(forms[1:])]
    if isinstance(f, list) and f and f[0] == "assert":
        return body_of(forms[1:])
    raise RktError(f"a body of {len(forms)} forms")


def pmatch(p, v, b):
    """Does the pattern match the list of the values v (or, inside, one value)?"""
    if isinstance(p, str):
        if p != "_":
            b[p] = sv.LV.of(v) if isinstance(v, list) else v
        return True
    if not isinstance(v, list):
        raise RktError(f"unsupported pattern {sx.show(p)}")
    if p in (["list"], ["quote", []]):
        return len(v) == 0
    if p[0] == "cons" and len(p) == 3:
        return len(v) > 0 and pmatch(p[1], v[0], b) and pmatch(p[2], list(v[1:]), b)
    if p[0] == "list" and p[-1] != "...":
        return len(v) == len(p) - 1 and all(pmatch(q, x, b) for q, x in zip(p[1:], v))
    if p[0] == "list-rest":
        k = len(p) - 2
        return len(v) >= k and all(pmatch(q, x, b) for q, x in zip(p[1:-1], v)) and pmatch(p[-1], list(v[k:]), b)
    if p[0] == "list" and p[-1] == "...":
        k = len(p) - 3
        if len(v) < k:
            return False
        for nm, x in zip(p[1:1 + k], v):
            b[nm] = x
        b[p[-2]] = sv.LV.of(v[k:])
        return True
    raise RktError(f"unsupported pattern {sx.show(p)}")


def _arith(S, h, xs):
    S.ints(h, xs)
    if h == "-" and len(xs) == 1:
        return -xs[0]
    r = xs[0]
    for x in xs[1:]:
        r = r + x if h == "+" else r - x if h == "-" else r * x
    return r


def _cmp(S, h, xs):
    S.ints(h, xs, 2)
    f = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b,
         ">=": lambda a, b: a >= b, "=": lambda a, b: a == b}[h]
    return sv.And(*[f(a, b) for a, b in zip(xs, xs[1:])])


def _equal(S, h, xs):
    a, b = xs
    if isinstance(a, sv.TV) and isinstance(b, sv.LV):
        a = sv.LV.of(a.items)
    if isinstance(b, sv.TV) and isinstance(a, sv.LV):
        b = sv.LV.of(b.items)
    if isinstance(a, sv.SV) or isinstance(b, sv.SV):
        return sv.eq(a, b)
    if sv.is_z3(a) and sv.is_z3(b) and a.sort() != b.sort():
        return sv.F
    if sv.is_z3(a) != sv.is_z3(b):
        return sv.F
    return sv.eq(a, b)


def _and(S, h, xs):
    return sv.And(*[S.boolv(x, h) for x in xs])


def _or(S, h, xs):
    return sv.Or(*[S.boolv(x, h) for x in xs])


def _not(S, h, xs):
    if len(xs) != 1:
        raise RktError("! arity")
    return sv.Not(S.boolv(xs[0], h))


def _implies(S, h, xs):
    if len(xs) != 2:
        raise RktError("=> arity")
    return z3.Implies(S.boolv(xs[0], h), S.boolv(xs[1], h))


def _quot(S, h, xs):
    S.ints(h, xs, 2)
    S.err(xs[1] == 0)
    return sv.trunc_div(*xs) if h == "quotient" else sv.trunc_rem(*xs)


def _modulo(S, h, xs):
    S.ints(h, xs, 2)
    S.err(xs[1] == 0)
    return sv.floor_mod(*xs)


def _length(S, h, xs):
    if len(xs) != 1:
        raise RktError("length arity")
    return sv.llen(S.lst(h, xs[0]))


def _listref(S, h, xs):
    l = S.lst(h, xs[0])
    S.ints(h, xs[1:])
    S.err(sv.Not(sv.And(xs[1] >= 0, xs[1] < sv.llen(l))))
    return sv.lget(l, xs[1], elem_default(l))


def _listtail(S, h, xs):
    l = S.lst(h, xs[0])
    S.err(sv.Not(sv.And(xs[1] >= 0, xs[1] <= sv.llen(l))))
    return sv.ltail(l, xs[1]) if h == "list-tail" else sv.ltake(l, xs[1])


def _append(S, h, xs):
    r = sv.EMPTY
    for x in xs:
        r = sv.lconcat(r, S.lst(h, x)) if r is not sv.EMPTY else S.lst(h, x)
    return r


def _ormap(S, h, xs):
    f, l = xs
    return sv.lmap_alts(S.lst(h, l), lambda v: sv.Or(*[f.fn(x) for x in v]))


def _listset(S, h, xs):
    l = S.lst(h, xs[0])
    S.err(sv.Not(sv.And(xs[1] >= 0, xs[1] < sv.llen(l))))
    return sv.lset(l, xs[1], xs[2])


def _map(S, h, xs):
    f, *ls = xs
    if len(ls) == 1:
        return sv.lmap_alts(S.lst(h, ls[0]), lambda v: sv.LV.of([f.fn(x) for x in v]))
    a, b = (S.lst(h, l) for l in ls)
    S.err(sv.llen(a) != sv.llen(b))
    return sv.lmap_alts(a, lambda v: sv.lmap_alts(b, lambda w: sv.LV.of([f.fn(x, y) for x, y in zip(v, w)])))


def _andmap(S, h, xs):
    f, l = xs
    return sv.lmap_alts(S.lst(h, l), lambda v: sv.And(*[f.fn(x) for x in v]))


def _filter(S, h, xs):
    f, l = xs

    def go(v):
        r = sv.LV.of([])
        for x in reversed(v):
            r = sv.ite(f.fn(x), sv.lprepend(x, r), r)
        return r

    return sv.lmap_alts(S.lst(h, l), go)


def _fold(S, h, xs):
    f, z, l = xs

    def go(v):
        r = z
        for x in v if h == "foldl" else reversed(v):
            r = f.fn(x, r)
        return r

    return sv.lmap_alts(S.lst(h, l), go)


def _nth(S, h, xs):
    l = S.lst(h, xs[0])
    if h == "last":
        S.err(sv.llen(l) == 0)
        return sv.lget(l, sv.llen(l) - 1, elem_default(l))
    k = ["first", "second", "third"].index(h)
    S.err(sv.llen(l) <= k)
    return sv.lget(l, z3.IntVal(k), elem_default(l))


def _rest(S, h, xs):
    l = S.lst(h, xs[0])
    S.err(sv.llen(l) == 0)
    return sv.ltail(l, z3.IntVal(1))


def _minmax(S, h, xs):
    S.ints(h, xs)
    r = xs[0]
    for x in xs[1:]:
        r = z3.If(x < r if h == "min" else x > r, x, r)
    return r


def _int1(f):
    def go(S, h, xs):
        S.ints(h, xs)
        return f(xs[0])
    return go


PRIM = {
    "map": _map, "andmap": _andmap, "filter": _filter, "foldl": _fold, "foldr": _fold,
    "first": _nth, "second": _nth, "third": _nth, "last": _nth, "rest": _rest,
    "min": _minmax, "max": _minmax, "drop": lambda S, h, xs: _listtail(S, "list-tail", xs),
    "null?": lambda S, h, xs: sv.llen(xs[0]) == 0 if isinstance(xs[0], sv.LV) else sv.F,
    "empty?": lambda S, h, xs: sv.llen(S.lst(h, xs[0])) == 0,
    "pair?": lambda S, h, xs: sv.llen(xs[0]) > 0 if isinstance(xs[0], sv.LV) else sv.F,
    "cons?": lambda S, h, xs: sv.llen(xs[0]) > 0 if isinstance(xs[0], sv.LV) else sv.F,
    "reverse": lambda S, h, xs: sv.lmap_alts(S.lst(h, xs[0]), lambda v: sv.LV.of(list(reversed(v)))),
    "add1": _int1(lambda x: x + 1), "sub1": _int1(lambda x: x - 1), "zero?": _int1(lambda x: x == 0),
    "positive?": _int1(lambda x: x > 0), "negative?": _int1(lambda x: x < 0),
    "abs": _int1(lambda x: z3.If(x < 0, -x, x)),
    "void": lambda S, h, xs: None,
    "+": _arith, "-": _arith, "*": _arith,
    "<": _cmp, "<=": _cmp, ">": _cmp, ">=": _cmp, "=": _cmp,
    "equal?": _equal, "&&": _and, "||": _or, "!": _not, "not": _not, "=>": _implies,
    "quotient": _quot, "remainder": _quot, "modulo": _modulo,
    "length": _length, "list-ref": _listref, "list-tail": _listtail, "take": _listtail,
    "append": _append,
    "list": lambda S, h, xs: sv.LV.of(xs),
    "cons": lambda S, h, xs: sv.lprepend(xs[0], S.lst(h, xs[1])),
    "car": lambda S, h, xs: sv.lget(S.lst(h, xs[0]), z3.IntVal(0), elem_default(S.lst(h, xs[0]))),
    "cdr": lambda S, h, xs: sv.ltail(S.lst(h, xs[0]), z3.IntVal(1)),
    "list?": lambda S, h, xs: sv.T if isinstance(xs[0], (sv.LV, sv.TV)) else sv.F,
    "ormap": _ormap, "list-set": _listset,
}
