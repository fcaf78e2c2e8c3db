"""Interpreter of emitted SMT-LIB text over sv values.

Functions defined in the text (define-fun / define-fun-rec) are interpreted by
symbolically unrolling their bodies.  Functions the list library only declares
and axiomatises (list_length, list_append, list_get_helper, list_take, ...) are
interpreted by the standard list model; check P13 decides that this model
satisfies every axiom.
"""
import z3

import sv
import sx

NUM = __import__("re").compile(r"^\d+$")


class SMTError(Exception):
    """The text is not something a conforming SMT solver accepts."""


class Dead(Exception):
    """The current path condition is infeasible."""


class SMTSem:
    def __init__(self, env=None, fns=None, lits=None, fuel=60):
        self.env = dict(env or {})
        self.decl = {}     # name -> (params, sorts, ret, body)
        self.uf = {}       # declared only: name -> python callable
        self.fns = dict(fns or {})
        self.lits = lits or {}
        self.fuel = fuel
        self.pc = []
        self.asserts = []
        self.order_errors = []
        self.stdmodel = True
        self.sorts = {}
        self.axioms = []
        self.defined_order = []

    # -- scripts -------------------------------------------------------
    def load(self, text):
        for f in sx.read(text):
            self.command(f)

    def command(self, f):
        h = f[0]
        if h in ("define-fun", "define-fun-rec"):
            _, name, params, ret, body = f
            if name in self.decl or name in self.uf:
                raise SMTError(f"{name} defined twice")
            if h == "define-fun-rec":
                self.decl[name] = (params, ret, body)
                self.check_scope(name, params, body)
            else:
                self.check_scope(name, params, body)
                self.decl[name] = (params, ret, body)
            self.defined_order.append(name)
        elif h == "define-funs-rec":
            for (name, params, ret), body in zip(f[1], f[2]):
                self.decl[name] = (params, ret, body)
            for (name, params, ret), body in zip(f[1], f[2]):
                self.check_scope(name, params, body)
        elif h in ("declare-fun", "declare-const"):
            name = f[1]
            if name in self.decl or name in self.uf:
                raise SMTError(f"{name} declared twice")
            self.uf[name] = ([] if h == "declare-const" else f[2], f[-1])
            self.defined_order.append(name)
        elif h == "assert":
            self.asserts.append(f[1])
        elif h == "define-sort":
            self.sorts[f[1]] = f[3]
        elif h == "declare-datatypes":
            self.command_dt(f)
        elif h in ("set-logic", "set-option", "check-sat", "get-model", "set-info", "exit"):
            pass
        else:
            raise SMTError(f"unknown command {h}")

    def command_dt(self, f):
        pass

    BUILT = {"+", "-", "*", "div", "mod", "=", "<", "<=", ">", ">=", "and", "or", "not",
             "=>", "ite", "true", "false", "head", "tail", "cons", "nil", "let", "as",
             "distinct", "forall", "exists", "!", "select", "store", "abs"}

    def known(self, n):
        return (n in self.BUILT or n in self.decl or n in self.uf or n in self.fns
                or n.startswith("set.") or n.startswith("tuple") or NUM.match(n)
                or n in self.env)

    def check_scope(self, name, params, body):
        """Every symbol a definition uses is declared before it (as solvers demand)."""
        bound = {p[0] for p in params}

        def go(b, bound):
            if isinstance(b, list):
                if not b:
                    raise SMTError("empty application ()")
                if b[0] == "let":
                    for v, x in b[1]:
                        go(x, bound)
                    go(b[2], bound | {v for v, _ in b[1]})
                    return
                if b[0] == "as":
                    return
                if b[0] in ("forall", "exists"):
                    go(b[2], bound | {v for v, _ in b[1]})
                    return
                for x in b:
                    go(x, bound)
            else:
                if b not in bound and not self.known(b):
                    raise SMTError(f"{name} uses undeclared symbol {b}")

        go(body, bound)

    # -- terms ---------------------------------------------------------
    def term(self, text):
        fs = sx.read(text)
        if len(fs) != 1:
            raise SMTError(f"not one term: {text[:80]}")
        return self.ev(fs[0], self.env)

    def feasible(self):
        if not self.pc:
            return True
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*self.pc)
        return s.check() != z3.unsat

    def branch(self, c, e, env):
        try:
            return self.under(c, lambda: self.ev(e, env))
        except Dead:
            return None

    def applies(self, e):
        """Does the term apply a defined function?"""
        if isinstance(e, str):
            return e in self.decl
        return any(self.applies(x) for x in e)

    def under(self, c, f):
        self.pc.append(c)
        try:
            return f()
        finally:
            self.pc.pop()

    def ev(self, e, env):
        if isinstance(e, str):
            if NUM.match(e):
                n = int(e)
                return self.lits[n] if n in self.lits else z3.IntVal(n)
            if e == "true":
                return sv.T
            if e == "false":
                return sv.F
            if e in env:
                return env[e]
            if e in self.decl:
                ps, _, body = self.decl[e]
                if ps:
                    raise SMTError(f"function symbol {e} used as a term")
                return self.apply(e, [])
            if e in self.fns:
                return self.fns[e]()
            if e in self.uf or e in ("list_empty", "matrix_empty"):
                return self.std(e, [])
            if e == "nil":
                return sv.EMPTY
            raise SMTError(f"undeclared symbol {e}")
        if not e:
            raise SMTError("empty application ()")
        h = e[0]
        if h == "let":
            new = {}
            for v, x in e[1]:
                new[v] = self.ev(x, env)
            return self.ev(e[2], {**env, **new})
        if h == "as":
            if e[1] == "nil":
                return sv.EMPTY
            if e[1] == "set.empty":
                return sv.sempty()
            raise SMTError(f"as {e[1]}")
        if h == "ite":
            if len(e) != 4:
                raise SMTError("ite arity")
            c = z3.simplify(self.bool(e[1], env))
            if z3.is_true(c):
                return self.ev(e[2], env)
            if z3.is_false(c):
                return self.ev(e[3], env)
            a = self.branch(c, e[2], env)
            b = self.branch(sv.Not(c), e[3], env)
            if a is None or b is None:
                if a is None and b is None:
                    raise Dead()
                return a if b is None else b
            return sv.ite(c, a, b)
        if h in ("and", "or"):
            if len(e) < 2:
                raise SMTError(f"{h} needs an argument")
            if any(self.applies(x) for x in e[2:]):
                # the arguments may be calls whose recursion ends where an earlier argument decides
                c = z3.simplify(self.bool(e[1], env))
                if z3.is_true(c) or z3.is_false(c):
                    if z3.is_true(c) == (h == "or"):
                        return c
                    return self.bool([h, *e[2:]], env)
                r = self.branch(c if h == "and" else sv.Not(c), [h, *e[2:]], env)
                if r is None:
                    return c
                return sv.And(c, r) if h == "and" else sv.Or(c, r)
            xs = [self.bool(x, env) for x in e[1:]]
            return sv.And(*xs) if h == "and" else sv.Or(*xs)
        if h == "=>":
            if len(e) == 3 and self.applies(e[2]):
                return self.bool(["or", ["not", e[1]], e[2]], env)
            xs = [self.bool(x, env) for x in e[1:]]
            if len(xs) < 2:
                raise SMTError("=> arity")
            r = xs[-1]
            for x in reversed(xs[:-1]):
                r = z3.Implies(x, r)
            return r
        if h == "not":
            if len(e) != 2:
                raise SMTError("not arity")
            return sv.Not(self.bool(e[1], env))
        if isinstance(h, list):
            if h and h[0] == "as":
                h = h[1]
            else:
                raise SMTError(f"cannot apply {sx.show(h)}")
        if len(e) == 1:
            raise SMTError(f"({h}) is not a term: nullary applications take no parentheses")
        xs = [self.ev(x, env) for x in e[1:]]
        return self.app(h, xs, env)

    def bool(self, e, env):
        v = self.ev(e, env)
        if not (sv.is_z3(v) and z3.is_bool(v)):
            raise SMTError(f"{sx.show(e)} is not Bool")
        return v

    def ints(self, h, xs, n=None):
        for x in xs:
            if not (sv.is_z3(x) and z3.is_int(x)):
                raise SMTError(f"{h} applied to a non-integer")
        if n is not None and len(xs) != n:
            raise SMTError(f"{h} arity {len(xs)}")

    def app(self, h, xs, env):
        if h in env and isinstance(env[h], sv.FV):
            return env[h].fn(*xs)
        if h == "+" or h == "*":
            self.ints(h, xs)
            if len(xs) < 2:
                raise SMTError(f"{h} needs two arguments")
            r = xs[0]
            for x in xs[1:]:
                r = r + x if h == "+" else r * x
            return r
        if h == "-":
            self.ints(h, xs)
            if len(xs) == 1:
                return -xs[0]
            r = xs[0]
            for x in xs[1:]:
                r = r - x
            return r
        if h in ("div", "mod"):
            self.ints(h, xs, 2)
            return xs[0] / xs[1] if h == "div" else xs[0] % xs[1]
        if h in ("<", "<=", ">", ">="):
            self.ints(h, xs, 2)
            a, b = xs
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[h]
        if h == "=":
            if len(xs) < 2:
                raise SMTError("= arity")
            return sv.And(*[sv.eq(x, y) for x, y in zip(xs, xs[1:])])
        if h == "distinct":
            return sv.And(*[sv.Not(sv.eq(x, y)) for i, x in enumerate(xs) for y in xs[:i]])
        if h == "cons":
            return sv.lprepend(xs[0], xs[1])
        if h == "head":
            return sv.lget(xs[0], z3.IntVal(0), self.unspec(xs[0], "head"))
        if h == "tail":
            return sv.ltail(xs[0], z3.IntVal(1))
        if h.startswith("set."):
            op = h[4:]
            t = {"singleton": lambda x: sv.sinsert(x, sv.sempty()), "insert": lambda *a: self.setins(a),
                 "union": sv.sunion, "minus": sv.sminus, "member": sv.smember,
                 "subset": sv.ssubset, "inter": None}.get(op)
            if t is None:
                raise SMTError(f"unknown symbol {h}")
            return t(*xs)
        if h.startswith("tuple"):
            import re

            m = re.match(r"^tuple(\d+)_get(\d+)$", h)
            if m:
                n, i = int(m.group(1)), int(m.group(2))
                if len(xs) != 1 or not isinstance(xs[0], sv.TV) or len(xs[0].items) != n or i >= n:
                    raise SMTError(f"{h} applied to a tuple of another arity")
                return xs[0].items[i]
            m = re.match(r"^tuple(\d+)$", h)
            if m and int(m.group(1)) == len(xs) and 1 <= len(xs) <= 5:
                return sv.TV(xs)
            raise SMTError(f"unknown symbol {h}/{len(xs)}")
        if h in self.fns:
            return self.fns[h](*xs)
        if h in self.decl:
            return self.apply(h, xs)
        if h in self.uf:
            return self.std(h, xs)
        raise SMTError(f"undeclared function {h}")

    def setins(self, a):
        s = a[-1]
        for x in a[:-1]:
            s = sv.sinsert(x, s)
        return s

    def unspec(self, l, what):
        from irsem import elem_default

        d = elem_default(l)
        if isinstance(d, sv.LV):
            return sv.EMPTY
        if z3.is_bool(d):
            return z3.Bool(sv.fresh(what))
        return z3.Int(sv.fresh(what)) if z3.is_int(d) else d

    STD = {}
    for _p, _l, _e in (("list", "(MLList Int)", "Int"), ("matrix", "(MLList (MLList Int))", "(MLList Int)")):
        STD.update({f"{_p}_length": ((_l,), "Int"), f"{_p}_append": ((_l, _e), _l),
                    f"{_p}_get_helper": ((_l, "Int"), _e), f"{_p}_take": ((_l, "Int"), _l)})

    def standard_name(self, h):
        """The standard function a declared function of another name stands for: the only
        one with its sorts that the library does not declare."""
        if h in self.STD or h not in self.uf:
            return h

        def sort(s):
            return "(" + " ".join(map(sort, s)) + ")" if isinstance(s, list) else sort(self.sorts[s]) if s in self.sorts else s

        sig = tuple(sort(s) for s in self.uf[h][0]), sort(self.uf[h][1])
        known = set(self.uf) | set(self.decl)
        names = [n for n, s in self.STD.items() if s == sig and n not in known]
        return names[0] if len(names) == 1 else h

    def std(self, h, xs):
        """Standard model of the declared-only list functions."""
        h = self.standard_name(h)
        if h in ("list_length", "matrix_length"):
            return sv.llen(xs[0])
        if h in ("list_append", "matrix_append"):
            return sv.lappend(*xs)
        if h in ("list_get_helper", "matrix_get_helper"):
            # the axioms give index <= 0 the first element
            l, i = xs
            d = sv.EMPTY if h.startswith("matrix") else self.unspec(l, "get")
            return sv.lget(l, z3.If(i <= 0, z3.IntVal(0), i), d)
        if h in ("list_take", "matrix_take"):
            return sv.ltake(*xs)
        raise SMTError(f"no interpretation for {h}")

    def apply(self, name, xs):
        ps, ret, body = self.decl[name]
        if len(ps) != len(xs):
            raise SMTError(f"{name} applied to {len(xs)} arguments")
        if self.stdmodel and name in ("list_tail", "matrix_tail"):
            # (tail nil) is unspecified; the axioms fix the value (P13 decides
            # that this model satisfies the definition and the axioms)
            return sv.ltail(*xs)
        self.fuel -= 1
        try:
            if self.fuel < 0:
                if not self.feasible():
                    raise Dead()
                raise SMTError(f"out of fuel in {name}")
            if len(self.pc) > 6 and not self.feasible():
                raise Dead()
            return self.ev(body, {**self.env, **{p[0]: x for p, x in zip(ps, xs)}})
        finally:
            self.fuel += 1
