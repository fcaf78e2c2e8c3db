"""Path-by-path symbolic execution of Python functions (the analysed programs) with
Python's meaning, including aliasing of lists and sets; records the state at every
visit of a loop head."""
import ast

import z3

import sv
from pysem import PyErr, PySem
from symx import PathAbort


class Box:
    def __init__(self, v):
        self.v = v


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class PyExec:
    def __init__(self, src, fns=None, unroll=3, total=6):
        self.funcs = {n.name: n for n in ast.parse(src).body if isinstance(n, ast.FunctionDef)}
        self.fns = fns or {}
        self.unroll = unroll
        self.total = total

    def run(self, path, name, args):
        """One path (under symx.explore).  -> (return value, head visits, unbound-use)"""
        f = self.funcs[name]
        self.path = path
        self.heads = []
        self.iters = 0
        env = {}
        for a, v in zip(f.args.args, args):
            env[a.arg] = Box(v) if isinstance(v, (sv.LV, sv.SV)) else v
        try:
            self.block(f.body, env)
        except Ret as r:
            return self.unbox(r.v), self.heads
        raise PathAbort()  # falls off the end: returns None

    def unbox(self, v):
        return v.v if isinstance(v, Box) else v

    def snap(self, env):
        return {k: self.unbox(v) for k, v in env.items()}

    def ev(self, e, env):
        if isinstance(e, ast.Name) and e.id in env:
            return env[e.id]
        P = PySem(fns=self.fns)
        v = P.ev(e, self.snap(env))
        for c in P.errs:
            self.path.assume(sv.Not(c))
        # Python's negative indices wrap: outside the claim (see index_ok)
        if isinstance(v, (sv.LV, sv.SV)):
            return Box(v)
        return v

    def check_index(self, e, env):
        """Restrict to non-negative list indices (list_get is not defined below 0)."""
        for n in ast.walk(e):
            if isinstance(n, ast.Subscript) and not isinstance(n.slice, ast.Slice):
                try:
                    i = PySem(fns=self.fns).ev(n.slice, self.snap(env))
                except PyErr:
                    continue
                if sv.is_z3(i):
                    self.path.assume(i >= 0)

    def truth(self, e, env):
        self.check_index(e, env)
        P = PySem(fns=self.fns)
        # short-circuit evaluation path by path
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = self.truth(x, env)
                if isinstance(e.op, ast.And) and not v:
                    return False
                if isinstance(e.op, ast.Or) and v:
                    return True
            return isinstance(e.op, ast.And)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.truth(e.operand, env)
        v = self.unbox(self.ev(e, env))
        return self.path.branch(P.truth(v))

    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, ast.Return):
            self.check_index(s.value, env)
            raise Ret(self.ev(s.value, env))
        if isinstance(s, ast.AnnAssign) and s.value is None:
            return
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            self.check_index(s.value, env)
            v = self.ev(s.value, env)
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target
            if isinstance(t, ast.Name):
                env[t.id] = v
            elif isinstance(t, ast.Tuple):
                for x, y in zip(t.elts, v.items):
                    env[x.id] = y
            else:
                raise PyErr("target")
            return
        if isinstance(s, ast.AugAssign):
            env[s.target.id] = self.ev(ast.BinOp(left=ast.Name(id=s.target.id), op=s.op,
                                                 right=s.value), env)
            return
        if isinstance(s, ast.If):
            self.block(s.body if self.truth(s.test, env) else s.orelse, env)
            return
        if isinstance(s, ast.While):
            n = 0
            while True:
                self.heads.append((s.lineno, n, self.snap(env)))
                if not self.truth(s.test, env):
                    self.block(s.orelse, env)
                    return
                n += 1
                self.iters += 1
                if n > self.unroll or self.iters > self.total:
                    self.beyond = True
                    raise PathAbort()
                self.block(s.body, env)
        if isinstance(s, ast.Pass):
            return
        if isinstance(s, ast.Expr):
            e = s.value
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
                b = self.ev(e.func.value, env)
                self.check_index(e.args[0], env)
                x = self.unbox(self.ev(e.args[0], env))
                m = e.func.attr
                if m == "append":
                    b.v = sv.lappend(b.v, x)
                elif m == "add":
                    b.v = sv.sinsert(x, b.v)
                elif m == "remove":
                    self.path.assume(sv.smember(x, b.v))
                    b.v = sv.sminus(b.v, sv.sinsert(x, sv.sempty()))
                else:
                    raise PyErr(m)
                return
            if isinstance(e, ast.Constant):
                return
            self.check_index(e, env)
            self.ev(e, env)
            return
        raise PyErr(f"statement {type(s).__name__}")
