"""A small symbolic-execution engine for the real (Python) code.

`explore(fn)` runs fn(path) once per feasible path.  Non-determinism comes from
path.choice(n) (a symbolic selector in [0,n)), and from Python `bool()` on a
symbolic condition (SymBool); every such decision asks the solver which sides
are feasible under the current path condition, takes one and schedules the
other (decision-prefix re-execution).  At the end of a path the harness asks
the solver for a value of the symbolic data that violates the property.
"""
import time

import z3

STATS = {"queries": 0, "solver_s": 0.0, "paths": 0, "forks": 0, "unknown": 0,
         "reach": 0}
_cur = None
TIMEOUT_MS = 60000


class PathAbort(Exception):
    """This path's assumptions are infeasible: drop it."""


class Inconclusive(Exception):
    """The solver answered unknown: the check cannot answer."""


def solve(*constraints, timeout=None, want_model=True):
    """One query.  Returns (status, model)."""
    s = z3.Solver()
    s.set("timeout", timeout or TIMEOUT_MS)
    s.add(*constraints)
    t = time.time()
    r = s.check()
    STATS["solver_s"] += time.time() - t
    STATS["queries"] += 1
    if r == z3.sat:
        return "sat", (s.model() if want_model else None)
    if r == z3.unsat:
        return "unsat", None
    # the order of z3's work depends on how terms happen to be numbered: try other orders
    for seed in (1, 2, 3):
        s2 = z3.Solver()
        s2.set("timeout", timeout or TIMEOUT_MS)
        s2.set("random_seed", seed)
        s2.add(*reversed(constraints) if seed % 2 else constraints)
        t = time.time()
        r = s2.check()
        STATS["solver_s"] += time.time() - t
        STATS["queries"] += 1
        if r == z3.sat:
            return "sat", (s2.model() if want_model else None)
        if r == z3.unsat:
            return "unsat", None
    STATS["unknown"] += 1
    return "unknown", None


class Path:
    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []  # (taken, alternatives still open)
        self.pc = []
        self.n = 0
        self.log = []

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathAbort()
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        r, _ = solve(*self.pc, want_model=False)
        if r == "unsat":
            raise PathAbort()

    def choice(self, n, label=""):
        """Fork over a symbolic selector with n values."""
        options = list(n) if not isinstance(n, int) else list(range(n))
        k = len(options)
        i = len(self.trace)
        sel = z3.Int(f"sel!{i}")
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            if k == 0:
                raise PathAbort()
        self.trace.append((d, k))
        self.pc.append(sel == d)
        if label:
            self.log.append((label, options[d]))
        return options[d]

    def branch(self, cond):
        """Fork on a symbolic condition; the solver decides feasibility."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append((d, self.prefix_k(i)))
        else:
            t = solve(*self.pc, cond, want_model=False)[0] != "unsat"
            f = solve(*self.pc, z3.Not(cond), want_model=False)[0] != "unsat"
            if t and f:
                STATS["forks"] += 1
                d = 0
                self.trace.append((0, 2))
            elif t:
                d = 0
                self.trace.append((0, 1))
            elif f:
                d = 1
                self.trace.append((1, 1))
            else:
                raise PathAbort()
        val = d == 0
        self.pc.append(cond if val else z3.Not(cond))
        return val

    def prefix_k(self, i):
        return self._ks[i]


def explore(fn, limit=None, deadline=None):
    """DFS over all feasible paths.  Yields nothing; fn does the checking."""
    global _cur
    work = [([], [])]
    npaths = 0
    while work:
        prefix, ks = work.pop()
        p = Path(prefix)
        p._ks = ks
        _cur = p
        try:
            fn(p)
        except PathAbort:
            pass
        finally:
            _cur = None
        npaths += 1
        STATS["paths"] += 1
        # schedule the untaken siblings of every decision made past the prefix
        tr = p.trace
        kk = [k for _, k in tr]
        for i in range(len(tr) - 1, len(prefix) - 1, -1):
            d, k = tr[i]
            base = [x for x, _ in tr[:i]]
            for alt in range(k - 1, d, -1):
                work.append((base + [alt], kk[:i] + [k]))
        if limit is not None and npaths >= limit:
            return npaths, False
        if deadline is not None and time.time() > deadline:
            return npaths, not work
    return npaths, True


def cur():
    return _cur


class SymBool:
    """A symbolic boolean the code under test may branch on."""

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def __eq__(self, o):
        return SymBool(self.t == (o.t if isinstance(o, SymBool) else z3.BoolVal(bool(o))))

    __hash__ = None
