"""Oracle: the mathematical meaning of metalift IR expressions (independent of
every printer in metalift).  Value domain: sv.  Partial operations record when
they are defined in `self.defs`; callers assume definedness of the *source*."""
import z3

import sv


class Unsupported(Exception):
    pass


class IRSem:
    def __init__(self, env=None, decls=None, fns=None, fuel=40, lits=None, div="agree"):
        self.env = dict(env or {})
        self.decls = dict(decls or {})
        self.fns = dict(fns or {})
        self.defs = []
        self.pc = []
        self.fuel = fuel
        self.lits = lits or {}
        self.div = div
        self.assume = []
        self.rows_nonempty = False
        self.strict_bool = False

    def need(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.defs.append(z3.Implies(sv.And(*self.pc), c) if self.pc else c)

    def alts(self, l, f):
        r = None
        for n, (g, v) in sorted(l.alts.items()):
            x = self.under(g, lambda: f(list(v)))
            r = x if r is None else sv.ite(g, x, r)
        return r if r is not None else f([])

    def under(self, c, f):
        self.pc.append(c)
        try:
            return f()
        finally:
            self.pc.pop()

    def feasible(self):
        if not self.pc:
            return True
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*self.pc, *self.assume)
        return s.check() != z3.unsat

    def ev(self, e, env=None):
        env = self.env if env is None else env
        k = type(e).__name__
        m = getattr(self, "e_" + k, None)
        if m is None:
            for c in type(e).__mro__:
                m = getattr(self, "e_" + c.__name__, None)
                if m:
                    break
            else:
                raise Unsupported(k)
        return m(e, env)

    def args(self, e, env):
        return [self.ev(a, env) for a in e.args]

    def e_Var(self, e, env):
        n = e.args[0]
        if n in env:
            return env[n]
        if n in self.decls or n in self.fns:
            return sv.FV(lambda *xs: self.call(n, list(xs)), n)
        raise Unsupported(f"unbound variable {n}")

    def e_Lit(self, e, env):
        v = e.args[0]
        if isinstance(v, int) and not isinstance(v, bool) and int(v) in self.lits:
            return self.lits[int(v)]
        tn = getattr(e.type, "__name__", "")
        if tn == "Bool":
            return z3.BoolVal(bool(v))
        return z3.IntVal(int(v))

    def e_Add(self, e, env):
        a = self.args(e, env)
        return sum(a[1:], a[0])

    def e_Sub(self, e, env):
        a, b = self.args(e, env)
        return a - b

    def e_Mul(self, e, env):
        a = self.args(e, env)
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r

    def divmod_need(self, a, b):
        self.need(b != 0)
        if self.div == "agree":
            self.need(sv.And(a >= 0, b > 0))

    def e_Div(self, e, env):
        a, b = self.args(e, env)
        self.divmod_need(a, b)
        return {"agree": lambda: a / b, "floor": lambda: sv.floor_div(a, b),
                "trunc": lambda: sv.trunc_div(a, b), "euclid": lambda: a / b}[self.div]()

    def e_Mod(self, e, env):
        a, b = self.args(e, env)
        self.divmod_need(a, b)
        return {"agree": lambda: a % b, "floor": lambda: sv.floor_mod(a, b),
                "trunc": lambda: sv.trunc_rem(a, b), "euclid": lambda: a % b}[self.div]()

    def e_Eq(self, e, env):
        a, b = self.args(e, env)
        return sv.eq(a, b)

    def e_Lt(self, e, env):
        a, b = self.args(e, env)
        return a < b

    def e_Le(self, e, env):
        a, b = self.args(e, env)
        return a <= b

    def e_Gt(self, e, env):
        a, b = self.args(e, env)
        return a > b

    def e_Ge(self, e, env):
        a, b = self.args(e, env)
        return a >= b

    def e_And(self, e, env):
        r = sv.T
        for a in e.args:
            if z3.is_false(r) and not self.strict_bool:
                return r
            x = self.under(sv.T if self.strict_bool else r, lambda: self.ev(a, env))
            r = z3.simplify(sv.And(r, x))
        return r

    def e_Or(self, e, env):
        r = sv.F
        for a in e.args:
            if z3.is_true(r) and not self.strict_bool:
                return r
            x = self.under(sv.T if self.strict_bool else sv.Not(r), lambda: self.ev(a, env))
            r = z3.simplify(sv.Or(r, x))
        return r

    def e_Not(self, e, env):
        return sv.Not(self.ev(e.args[0], env))

    def e_Implies(self, e, env):
        a = z3.simplify(self.ev(e.args[0], env))
        if z3.is_false(a):
            return sv.T
        b = self.under(sv.T if self.strict_bool else a, lambda: self.ev(e.args[1], env))
        return z3.simplify(z3.Implies(a, b))

    def e_Ite(self, e, env):
        c = z3.simplify(self.ev(e.args[0], env))
        if z3.is_true(c):
            return self.ev(e.args[1], env)
        if z3.is_false(c):
            return self.ev(e.args[2], env)
        a = self.under(c, lambda: self.ev(e.args[1], env))
        b = self.under(sv.Not(c), lambda: self.ev(e.args[2], env))
        return sv.ite(c, a, b)

    def e_Let(self, e, env):
        v, x, b = e.args
        return self.ev(b, {**env, v.args[0]: self.ev(x, env)})

    def e_TupleExpr(self, e, env):
        return sv.TV(self.args(e, env))

    def e_TupleGet(self, e, env):
        t = self.ev(e.args[0], env)
        return t.items[int(e.args[1].args[0])]

    def e_FnDecl(self, e, env):
        return sv.FV(lambda *xs: self.apply(e, list(xs)), e.args[0])

    e_FnDeclRecursive = e_FnDecl

    def e_Lambda(self, e, env):
        ps = [a.args[0] for a in e.args[1:]]
        return sv.FV(lambda *xs: self.ev(e.args[0], {**env, **dict(zip(ps, xs))}))

    def e_CallValue(self, e, env):
        f = self.ev(e.args[0], env)
        return f.fn(*[self.ev(a, env) for a in e.args[1:]])

    def e_Assert(self, e, env):
        return self.ev(e.args[0], env)

    def e_Call(self, e, env):
        name = e.args[0]
        if name == "tupleGet":
            t = self.ev(e.args[1], env)
            return t.items[int(e.args[2].args[0])]
        if name == "set-create" :
            return sv.sempty()
        xs = [self.ev(a, env) for a in e.args[1:]]
        if name in env and isinstance(env[name], sv.FV):
            return env[name].fn(*xs)
        return self.call(name, xs)

    def apply(self, d, xs):
        ps = [p.args[0] for p in d.args[2:]]
        if len(ps) != len(xs):
            raise Unsupported(f"arity of {d.args[0]}")
        self.fuel -= 1
        if self.fuel < 0:
            self.fuel += 1
            if not self.feasible():
                return default_of(d)
            raise Unsupported(f"out of fuel in {d.args[0]}")
        try:
            # recursion guarded by a symbolic condition: prune dead branches
            if self.pc and len(self.pc) > 6 and not self.feasible():
                return default_of(d)
            return self.ev(d.args[1], {**self.env, **dict(zip(ps, xs))})
        finally:
            self.fuel += 1

    def call(self, name, xs):
        if name in self.fns:
            return self.fns[name](*xs)
        if name in self.decls:
            return self.apply(self.decls[name], xs)
        r = builtin(self, name, xs)
        if r is None:
            raise Unsupported(f"function {name}")
        return r


def default_of(d):
    import typing

    t = typing.get_args(typing.get_args(d.type)[0])[0]
    return default_type(t)


def default_type(t):
    n = getattr(t, "__name__", None) or getattr(getattr(t, "__origin__", None), "__name__", "")
    if n == "Int":
        return z3.IntVal(0)
    if n == "Bool":
        return sv.F
    if n == "Set":
        return sv.sempty()
    return sv.EMPTY


def elem_default(l):
    for n, (_, v) in l.alts.items():
        if n > 0:
            x = v[0]
            if isinstance(x, sv.LV):
                return sv.EMPTY
            if isinstance(x, sv.TV):
                return x
            if z3.is_bool(x):
                return sv.F
            return z3.IntVal(0)
    return z3.IntVal(0)


LISTP = ("list_", "matrix_", "tensor3d_", "vec_")


def builtin(S, name, xs):
    """List/set/tuple/integer primitives, by their documented meaning."""
    if name == "ite":
        return sv.ite(xs[0], xs[1], xs[2])
    if name == "make-tuple":
        return sv.TV(xs)
    if name.startswith("set-"):
        op = name[4:]
        if op == "create":
            return sv.sempty()
        if op == "singleton":
            return sv.sinsert(xs[0], sv.sempty())
        if op == "insert":
            return sv.sinsert(xs[0], xs[1])
        if op == "union":
            return sv.sunion(*xs)
        if op == "minus":
            return sv.sminus(*xs)
        if op == "member":
            return sv.smember(*xs)
        if op == "subset":
            return sv.ssubset(*xs)
        if op == "eq":
            return xs[0].arr == xs[1].arr
        return None
    p = next((p for p in LISTP if name.startswith(p)), None)
    if p is None:
        return None
    op = name[len(p):]
    if p == "vec_" and not op.startswith("slice"):
        return None
    if op == "length":
        return sv.llen(xs[0])
    if op == "empty":
        return sv.EMPTY
    if op == "get":
        S.need(sv.And(xs[1] >= 0, xs[1] < sv.llen(xs[0])))
        return sv.lget(xs[0], xs[1], elem_default(xs[0]) if p == "list_" else sv.EMPTY)
    if op == "append":
        return sv.lappend(xs[0], xs[1])
    if op == "prepend":
        if S.rows_nonempty and p != "list_":
            S.need(sv.llen(xs[0]) > 0)
        return sv.lprepend(xs[0], xs[1])
    if op == "concat":
        return sv.lconcat(xs[0], xs[1])
    if op == "tail":
        S.need(sv.And(xs[1] >= 0, xs[1] <= sv.llen(xs[0])))
        return sv.ltail(xs[0], xs[1])
    if op == "take":
        S.need(sv.And(xs[1] >= 0, xs[1] <= sv.llen(xs[0])))
        return sv.ltake(xs[0], xs[1])
    if op == "eq":
        return sv.eq(xs[0], xs[1])
    if op == "set":
        S.need(sv.And(xs[1] >= 0, xs[1] < sv.llen(xs[0])))
        return sv.lset(xs[0], xs[1], xs[2])
    if op == "contains":
        return sv.lcontains(xs[0], xs[1])
    if op in ("slice", "row_slice"):
        S.need(sv.And(xs[1] >= 0, xs[1] <= xs[2], xs[2] <= sv.llen(xs[0])))
        return sv.ltail(sv.ltake(xs[0], xs[2]), xs[1])
    if op in ("slice_with_length", "row_slice_with_length"):
        S.need(sv.And(xs[1] >= 0, xs[2] >= 0, xs[1] + xs[2] <= sv.llen(xs[0])))
        return sv.ltail(sv.ltake(xs[0], xs[1] + xs[2]), xs[1])
    if p == "matrix_" and op in ("col_slice", "col_slice_with_length"):
        s, e = xs[1], xs[2] if op == "col_slice" else xs[1] + xs[2]
        S.need(sv.And(s >= 0, s < e if S.rows_nonempty else s <= e))

        def rows(v):
            out = []
            for r in v:
                S.need(e <= sv.llen(r))
                out.append(sv.ltail(sv.ltake(r, e), s))
            return sv.LV.of(out)

        return S.alts(xs[0], rows)
    if p == "matrix_" and op == "transpose":
        def tr(v):
            if not v:
                return sv.EMPTY
            w = sv.llen(v[0])
            if S.rows_nonempty:
                S.need(w > 0)
            for r in v:
                S.need(sv.llen(r) == w)

            def cols(v0):
                n = len(v0)
                return sv.LV.of([sv.LV.of([sv.lget(r, z3.IntVal(k), z3.IntVal(0)) for r in v])
                                 for k in range(n)])

            return S.alts(v[0], cols)

        return S.alts(xs[0], tr)
    return None
