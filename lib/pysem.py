"""Symbolic evaluation of Python source over sv values (real Python meaning:
negative indices wrap, slices clamp, // and % floor, and/or short-circuit).

Handles expressions, and function bodies built from assignments, if/elif/else,
while (unrolled to a bound), return, list/set method calls -- the language the
Python frontend accepts and the text to_python prints.
"""
import ast

import z3

import sv
from irsem import elem_default


class PyErr(Exception):
    """Python would raise (NameError, TypeError, ...) whatever the inputs."""


class Bound(Exception):
    pass


class PySem:
    def __init__(self, fns=None, lits=None, fuel=60, unroll=3):
        self.fns = dict(fns or {})
        self.funcs = {}
        self.lits = lits or {}
        self.errs = []
        self.pc = []
        self.fuel = fuel
        self.unroll = unroll
        self.beyond = []    # path conditions cut by the unrolling bound

    def load(self, src):
        for n in ast.parse(src).body:
            if isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = n

    def err(self, c):
        c = z3.simplify(c)
        if not z3.is_false(c):
            self.errs.append(sv.And(*self.pc, c))

    def under(self, c, f):
        self.pc.append(c)
        try:
            return f()
        finally:
            self.pc.pop()

    def feasible(self):
        if not self.pc:
            return True
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*self.pc)
        return s.check() != z3.unsat

    def expr(self, text, env):
        return self.ev(ast.parse(text.strip(), mode="eval").body, env)

    def truth(self, v):
        if sv.is_z3(v):
            if z3.is_bool(v):
                return z3.simplify(v)
            return z3.simplify(v != 0)
        if isinstance(v, sv.LV):
            return z3.simplify(sv.llen(v) != 0)
        raise PyErr("truth value")

    def num(self, v):
        if not sv.is_z3(v):
            raise PyErr("not a number")
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def index(self, l, i):
        i = self.num(i)
        n = sv.llen(l)
        self.err(sv.Not(sv.And(i >= -n, i < n)))
        return sv.lget(l, z3.simplify(z3.If(i < 0, i + n, i)), elem_default(l))

    def norm(self, i, n):
        return z3.simplify(z3.If(i < 0, z3.If(i + n < 0, z3.IntVal(0), i + n), i))

    def slice(self, l, lo, hi):
        n = sv.llen(l)
        if hi is not None:
            r = sv.ltake(l, self.norm(hi, n))
        else:
            r = l
        if lo is not None:
            r = sv.ltail(r, self.norm(lo, n))
        return r

    def ev(self, e, env):
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is None:
            raise PyErr(f"unsupported {type(e).__name__}")
        return m(e, env)

    def x_Constant(self, e, env):
        if isinstance(e.value, bool):
            return z3.BoolVal(e.value)
        if isinstance(e.value, int):
            return self.lits.get(e.value, z3.IntVal(e.value))
        raise PyErr(f"constant {e.value!r}")

    def x_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in self.funcs or e.id in self.fns:
            return sv.FV(lambda *xs: self.call(e.id, list(xs)), e.id)
        raise PyErr(f"name {e.id} is not defined")

    def x_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.USub):
            return -self.num(v)
        if isinstance(e.op, ast.UAdd):
            return self.num(v)
        if isinstance(e.op, ast.Not):
            return sv.Not(self.truth(v))
        raise PyErr("unary op")

    def x_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        o = type(e.op).__name__
        if isinstance(a, sv.LV) or isinstance(b, sv.LV):
            if o == "Add" and isinstance(a, sv.LV) and isinstance(b, sv.LV):
                return sv.lconcat(a, b)
            raise PyErr("list arithmetic")
        a, b = self.num(a), self.num(b)
        if o == "Add":
            return a + b
        if o == "Sub":
            return a - b
        if o == "Mult":
            return a * b
        if o == "FloorDiv":
            self.err(b == 0)
            return sv.floor_div(a, b)
        if o == "Mod":
            self.err(b == 0)
            return sv.floor_mod(a, b)
        raise PyErr(o)

    def x_BoolOp(self, e, env):
        r = None
        for x in e.values:
            if r is None:
                r = self.truth(self.ev(x, env))
            elif z3.is_false(r) if isinstance(e.op, ast.And) else z3.is_true(r):
                break
            elif isinstance(e.op, ast.And):
                v = self.under(r, lambda: self.truth(self.ev(x, env)))
                r = z3.simplify(sv.And(r, v))
            else:
                v = self.under(sv.Not(r), lambda: self.truth(self.ev(x, env)))
                r = z3.simplify(sv.Or(r, v))
        return r

    def x_Compare(self, e, env):
        left = self.ev(e.left, env)
        r = sv.T
        for op, c in zip(e.ops, e.comparators):
            right = self.under(r, lambda: self.ev(c, env))
            o = type(op).__name__
            if o in ("Eq", "NotEq"):
                if sv.is_z3(left) and sv.is_z3(right):
                    if left.sort() != right.sort():
                        left, right = self.num(left), self.num(right)
                    x = left == right
                elif sv.is_z3(left) != sv.is_z3(right):
                    x = sv.F
                else:
                    x = sv.eq(left, right)
                if o == "NotEq":
                    x = sv.Not(x)
            elif o in ("In", "NotIn"):
                x = sv.smember(left, right) if isinstance(right, sv.SV) else sv.lcontains(right, left)
                if o == "NotIn":
                    x = sv.Not(x)
            else:
                a, b = self.num(left), self.num(right)
                x = {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[o]
            r = z3.simplify(sv.And(r, x))
            left = right
        return r

    def x_IfExp(self, e, env):
        c = self.truth(self.ev(e.test, env))
        if z3.is_true(c):
            return self.ev(e.body, env)
        if z3.is_false(c):
            return self.ev(e.orelse, env)
        a = self.under(c, lambda: self.ev(e.body, env))
        b = self.under(sv.Not(c), lambda: self.ev(e.orelse, env))
        return sv.ite(c, a, b)

    def x_List(self, e, env):
        r = sv.EMPTY
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                if not isinstance(v, sv.LV):
                    raise PyErr("* of a non-list")
                r = sv.lconcat(r, v)
            else:
                r = sv.lappend(r, self.ev(x, env))
        return r

    def x_Tuple(self, e, env):
        return sv.TV([self.ev(x, env) for x in e.elts])

    def x_Subscript(self, e, env):
        b = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            if not isinstance(b, sv.LV):
                raise PyErr("slice of a non-list")
            lo = self.num(self.ev(e.slice.lower, env)) if e.slice.lower else None
            hi = self.num(self.ev(e.slice.upper, env)) if e.slice.upper else None
            return self.slice(b, lo, hi)
        i = self.ev(e.slice, env)
        if isinstance(b, sv.TV):
            c = sv.as_const(i)
            if c is None or not -len(b.items) <= c < len(b.items):
                raise PyErr("tuple index")
            return b.items[c]
        if not isinstance(b, sv.LV):
            raise PyErr("index of a non-list")
        return self.index(b, i)

    def x_Lambda(self, e, env):
        ps = [a.arg for a in e.args.args]
        return sv.FV(lambda *xs: self.ev(e.body, {**env, **dict(zip(ps, xs))}))

    def x_Call(self, e, env):
        if isinstance(e.func, ast.Attribute):
            b = self.ev(e.func.value, env)
            xs = [self.ev(a, env) for a in e.args]
            m = e.func.attr
            if isinstance(b, sv.SV):
                if m == "union":
                    return sv.sunion(b, xs[0])
                if m == "difference":
                    return sv.sminus(b, xs[0])
            raise PyErr(f"method {m}")
        if isinstance(e.func, ast.Name):
            n = e.func.id
            xs = [self.ev(a, env) for a in e.args]
            if n in env and isinstance(env[n], sv.FV):
                return env[n].fn(*xs)
            return self.call(n, xs)
        f = self.ev(e.func, env)
        return f.fn(*[self.ev(a, env) for a in e.args])

    def call(self, n, xs):
        if n == "len":
            if not isinstance(xs[0], sv.LV):
                raise PyErr("len of a non-list")
            return sv.llen(xs[0])
        if n == "set" and not xs:
            return sv.sempty()
        if n in self.fns:
            return self.fns[n](*xs)
        if n in self.funcs:
            f = self.funcs[n]
            ps = [a.arg for a in f.args.args]
            if len(ps) != len(xs):
                raise PyErr(f"{n}() arity")
            self.fuel -= 1
            try:
                if self.fuel < 0 or len(self.pc) > 6:
                    if not self.feasible():
                        return z3.IntVal(0) if getattr(f.returns, "id", "") == "int" else sv.EMPTY
                    if self.fuel < 0:
                        raise PyErr(f"out of fuel in {n}")
                body = f.body
                if len(body) == 1 and isinstance(body[0], ast.Return):
                    return self.ev(body[0].value, dict(zip(ps, xs)))
                return self.run(f, xs)[0]
            finally:
                self.fuel += 1
        raise PyErr(f"name {n} is not defined")

    # -- statements: all paths, each (pathcond, return value | None, env) ----
    def run(self, f, xs):
        """Merge of all returning paths; second item: condition it returned."""
        outs = self.paths(f, xs)
        r, done = None, sv.F
        for pc, val, env in outs:
            if val is None:
                continue
            r = val if r is None else sv.ite(pc, val, r)
            done = sv.Or(done, pc)
        return r, z3.simplify(done)

    def paths(self, f, xs):
        ps = [a.arg for a in f.args.args]
        env = dict(zip(ps, xs))
        outs = []
        for pc, val, env in self.block(f.body, env):
            outs.append((pc, val, env))
        return outs

    def block(self, stmts, env):
        states = [(sv.T, None, env)]
        for s in stmts:
            new = []
            for pc, val, en in states:
                if val is not None:
                    new.append((pc, val, en))
                    continue
                self.pc.append(pc)
                try:
                    if self.pc and not self.feasible():
                        continue
                    for p2, v2, e2 in self.stmt(s, en):
                        new.append((z3.simplify(sv.And(pc, p2)), v2, e2))
                finally:
                    self.pc.pop()
            states = new
        return states

    def stmt(self, s, env):
        if isinstance(s, ast.Return):
            return [(sv.T, self.ev(s.value, env), env)]
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            v = self.ev(s.value, env)
            tgts = s.targets if isinstance(s, ast.Assign) else [s.target]
            new = dict(env)
            for t in tgts:
                self.assign(t, v, new)
            return [(sv.T, None, new)]
        if isinstance(s, ast.AugAssign):
            v = self.x_BinOp(ast.BinOp(left=ast.Name(id=s.target.id), op=s.op, right=s.value), env)
            return [(sv.T, None, {**env, s.target.id: v})]
        if isinstance(s, ast.If):
            c = self.truth(self.ev(s.test, env))
            outs = []
            for cond, body in ((c, s.body), (sv.Not(c), s.orelse)):
                cond = z3.simplify(cond)
                if z3.is_false(cond):
                    continue
                self.pc.append(cond)
                try:
                    if self.feasible():
                        for p, v, e in self.block(body, dict(env)):
                            outs.append((z3.simplify(sv.And(cond, p)), v, e))
                finally:
                    self.pc.pop()
            return outs
        if isinstance(s, ast.While):
            return self.loop(s, env, self.unroll)
        if isinstance(s, ast.Expr):
            return self.effect(s.value, env)
        if isinstance(s, ast.Pass):
            return [(sv.T, None, env)]
        raise PyErr(f"statement {type(s).__name__}")

    def loop(self, s, env, k):
        c = self.truth(self.ev(s.test, env))
        outs = []
        nc = z3.simplify(sv.Not(c))
        if not z3.is_false(nc):
            self.pc.append(nc)
            if self.feasible():
                outs.append((nc, None, dict(env)))
            self.pc.pop()
        if z3.is_false(c):
            return outs
        self.pc.append(c)
        try:
            if not self.feasible():
                return outs
            if k == 0:
                self.beyond.append(sv.And(*self.pc))
                return outs
            for p, v, e in self.block(s.body, dict(env)):
                if v is not None:
                    outs.append((z3.simplify(sv.And(c, p)), v, e))
                    continue
                self.pc.append(p)
                try:
                    for p2, v2, e2 in self.loop(s, e, k - 1):
                        outs.append((z3.simplify(sv.And(c, p, p2)), v2, e2))
                finally:
                    self.pc.pop()
        finally:
            self.pc.pop()
        return outs

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Tuple):
            for x, y in zip(t.elts, v.items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            i = self.ev(t.slice, env)
            l = env[t.value.id]
            n = sv.llen(l)
            self.err(sv.Not(sv.And(i >= -n, i < n)))
            env[t.value.id] = sv.lset(l, z3.If(i < 0, i + n, i), v)
        else:
            raise PyErr("assignment target")

    def effect(self, e, env):
        if isinstance(e, ast.Constant):
            return [(sv.T, None, env)]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
            n = e.func.value.id
            b = env[n]
            xs = [self.ev(a, env) for a in e.args]
            m = e.func.attr
            if isinstance(b, sv.LV) and m == "append":
                return [(sv.T, None, {**env, n: sv.lappend(b, xs[0])})]
            if isinstance(b, sv.SV) and m == "add":
                return [(sv.T, None, {**env, n: sv.sinsert(xs[0], b)})]
            if isinstance(b, sv.SV) and m == "remove":
                return [(sv.T, None, {**env, n: sv.sminus(b, sv.sinsert(xs[0], sv.sempty()))})]
        raise PyErr("expression statement")
