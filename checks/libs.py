"""P13: the SMT libraries' axioms and definitions hold of the data they name.
P14: the Rosette and SMT libraries agree on every primitive."""
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mlenv  # noqa
import z3

import gen
import irsem
import report
import rktsem
import smtsem
import sv
import sx
import symx
from metalift import ir

LIB = os.path.join(mlenv.REPO, "metalift", "utils")
I = z3.IntVal


def text(f):
    return open(os.path.join(LIB, f)).read()


class MapV:
    """A map: distinct keys with values, in insertion order."""

    def __init__(self, keys, arr, values):
        self.keys, self.arr, self.values = keys, arr, values


class ModelSem(smtsem.SMTSem):
    """SMTSem over the standard model, with a fixed out-of-range value and maps."""

    def unspec(self, l, what):
        d = irsem.elem_default(l)
        if isinstance(d, sv.LV):
            return sv.EMPTY
        return z3.Int("oob") if z3.is_int(d) else d

    def ev(self, e, env):
        if isinstance(e, list) and e and isinstance(e[0], list) and e[0][:2] == ["as", "const"]:
            return z3.K(z3.IntSort(), self.ev(e[1], env))
        if isinstance(e, list) and e and e[0] in ("forall", "exists"):
            raise smtsem.SMTError("nested quantifier")
        return super().ev(e, env)

    def app(self, h, xs, env):
        if h == "set.card":
            return self.card(xs[0])
        if h == "select":
            return z3.Select(xs[0], xs[1])
        if h == "map_internal_keys":
            return xs[0].keys
        if h == "map_internal_array":
            return xs[0].arr
        if h == "make_map":
            return MapV(xs[0], xs[1], None)
        if h == "map_values":
            return xs[0].values
        return super().app(h, xs, env)

    cards = {}

    def card(self, s):
        return self.cards[s.arr.get_id()]

    def known(self, n):
        return super().known(n) or n in ("make_map", "map_internal_keys", "map_internal_array", "const")


def new_map(S, nm, bound):
    n = z3.Int(nm + "#n")
    ks = [z3.Int(f"{nm}.k{i}") for i in range(bound)]
    vs = [z3.Int(f"{nm}.v{i}") for i in range(bound)]
    arr = z3.Array(nm + ".dflt", z3.IntSort(), z3.IntSort())
    keys = sv.sempty()
    for i in range(bound):
        keys = sv.ite(n > i, sv.sinsert(ks[i], keys), keys)
        arr = z3.If(n > i, z3.Store(arr, ks[i], vs[i]), arr)
    cons = [n >= 0, n <= bound] + ([z3.Distinct(*ks)] if bound > 1 else [])
    m = MapV(keys, arr, sv.LV({i: (n == i, vs[:i]) for i in range(bound + 1)}))
    S.cards[keys.arr.get_id()] = n
    S.keep = getattr(S, "keep", []) + [keys]
    return m, sv.And(*cons)


def mkvar(S, name, sort, B):
    s = sx.show(sort) if isinstance(sort, list) else sort
    s = {"List_T1": "Int", "K_Map": "Int", "V_Map": "Int"}.get(s, s)
    if s == "Int":
        return z3.Int(name), sv.T
    if s == "Bool":
        return z3.Bool(name), sv.T
    if s in ("(MLList List_T1)", "(MLList Int)", "(MLList V_Map)"):
        return sv.new_list(name, B, z3.Int)
    if s in ("(MLList (MLList Int))", "(MLList (MLList List_T1))"):
        return sv.new_matrix(name, min(B, 3), 2)
    if s == "(Map K_Map V_Map)":
        return new_map(S, name, 2)
    raise smtsem.SMTError(f"unknown sort {s}")


def fresh(files):
    S = ModelSem(fuel=200)
    for f in files:
        S.load(text(f))
    return S


def concs(env, m):
    return {k: (sv.conc(v, m) if not isinstance(v, MapV) else sv.conc(v.values, m)) for k, v in env.items()}


# ---- P13 ---------------------------------------------------------------
def check_axiom(ck, S, idx, ax, B):
    label = sx.show(ax)
    env, cons, body = {}, [], ax
    if isinstance(ax, list) and ax[0] == "forall":
        for v, sort in ax[1]:
            env[v], c = mkvar(S, v, sort, B)
            cons.append(c)
        body = ax[2]
    if isinstance(body, list) and body[0] == "!":
        body = body[1]
    ck.count("axioms")
    ck.sample(label[:160])
    try:
        v = S.ev(body, env)
    except (smtsem.SMTError, sv.SortMismatch, smtsem.Dead) as ex:
        ck.obligation()
        ck.violation(f"axiom:{label}", f"axiom {label} is not a formula of the library: {ex}", {"axiom": label})
        return
    st, m = symx.solve(*cons, sv.Not(v))
    ck.obligation(st != "unknown")
    if st == "sat":
        ck.replays += 1
        ck.violation(f"axiom:{label}", f"axiom {label} is false of lists/maps at {concs(env, m)}",
                     {"axiom": label, "at": concs(env, m)})
    if st == "unsat" and symx.solve(*cons, want_model=False)[0] == "sat":
        symx.STATS["reach"] += 1


def oracle_of(S, name):
    """Documented meaning of a library function, with its domain."""
    def viasem(op, cond=None):
        def f(xs):
            R = irsem.IRSem()
            v = irsem.builtin(R, op, xs)
            return v, sv.And(*R.defs)
        return f

    O = {}
    for p in ("list", "matrix"):
        for op in ("length", "get", "append", "prepend"):
            O[f"{p}_{op}"] = viasem(f"{p}_{op}")
        O[f"{p}_empty"] = lambda xs: (sv.EMPTY, sv.T)
        O[f"{p}_tail"] = lambda xs: (sv.ltail(*xs), sv.T)
        O[f"{p}_take"] = lambda xs: (sv.ltake(*xs), sv.T)
    O["list_concat"] = viasem("list_concat")
    O["list_contains"] = viasem("list_contains")

    def sl(withlen):
        def f(xs):
            e = xs[1] + xs[2] if withlen else xs[2]
            return sv.ltail(sv.ltake(xs[0], e), xs[1]), sv.T
        return f

    for n in ("vec_slice", "matrix_row_slice"):
        O[n] = sl(False)
        O[n + "_with_length"] = sl(True)

    def colsl(withlen):
        def f(xs):
            s, e = xs[1], xs[1] + xs[2] if withlen else xs[2]
            return sv.lmap_alts(xs[0], lambda v: sv.LV.of([sv.ltail(sv.ltake(r, e), s) for r in v])), sv.T
        return f

    O["matrix_col_slice"] = colsl(False)
    O["matrix_col_slice_with_length"] = colsl(True)
    O["matrix_transpose"] = viasem("matrix_transpose")

    def firsts(xs):
        R = irsem.IRSem()
        v = R.alts(xs[0], lambda rows: sv.LV.of(
            [(R.need(sv.llen(r) > 0), sv.lget(r, I(0), I(0)))[1] for r in rows]))
        return v, sv.And(*R.defs)

    def rests(xs):
        R = irsem.IRSem()

        def go(rows):
            out = []
            for r in rows:
                R.need(sv.And(sv.llen(r) > 0, sv.llen(r) == sv.llen(rows[0])))
                out.append(sv.ltail(r, I(1)))
            return sv.LV.of(out)
        v = R.alts(xs[0], go)
        return v, sv.And(*R.defs)

    O["firsts"], O["rests"] = firsts, rests
    O["map_create"] = lambda xs: ("emptymap", sv.T)
    O["map_contains"] = lambda xs: (sv.smember(xs[1], xs[0].keys), sv.T)
    O["map_get"] = lambda xs: (z3.If(sv.smember(xs[1], xs[0].keys), z3.Select(xs[0].arr, xs[1]), xs[2]), sv.T)
    O["map_get_direct"] = lambda xs: (z3.Select(xs[0].arr, xs[1]), sv.smember(xs[1], xs[0].keys))
    return O


def strip_as_const(f):
    return f


def check_def(ck, files, name, B):
    """The definition computes the named operation and its recursion ends."""
    S = fresh(files)
    ck.count("definitions")
    if name in S.uf:
        return
    ps, ret, body = S.decl[name]
    env, cons = {}, []
    rect = name in ("rests", "matrix_transpose", "firsts")
    for v, sort in ps:
        env[v], c = mkvar(S, v, sort, B)
        cons.append(c)
    O = oracle_of(S, name)
    # recursive tail: the library's own equation, its recursive call read as the model
    try:
        if name in ("list_tail", "matrix_tail"):
            got = S.ev(body, env)
        else:
            S.stdmodel = True
            got = S.apply(name, [env[p] for p, _ in ps])
    except smtsem.SMTError as ex:
        ck.obligation()
        st, m = symx.solve(*cons)
        ck.violation(f"def:{name}", f"definition of {name}: {ex}" +
                     (" (its recursion does not end for some argument, so the equation defines no function)"
                      if "fuel" in str(ex) else ""), {"function": name, "error": str(ex)})
        return
    except (sv.SortMismatch, smtsem.Dead) as ex:
        ck.obligation()
        ck.violation(f"def:{name}", f"definition of {name} is ill-sorted: {ex}", {"function": name})
        return
    if name not in O:
        ck.count("definitions checked only for termination")
        ck.obligation()
        return
    if name.startswith("map_create"):
        ck.obligation()
        k = z3.Int("k")
        if symx.solve(sv.smember(k, got.keys))[0] != "unsat":
            ck.violation(f"def:{name}", "map_create is not empty", {"function": name})
        return
    want, dom = O[name]([env[p] for p, _ in ps])
    try:
        bad = sv.Not(sv.eq(want, got))
    except sv.SortMismatch as ex:
        ck.obligation()
        ck.violation(f"def:{name}", f"{name} returns a value of another sort: {ex}", {"function": name})
        return
    st, m = symx.solve(*cons, dom, bad)
    ck.obligation(st != "unknown")
    if st == "sat":
        ck.violation(f"def:{name}", f"{name} at {concs(env, m)} is {sv.conc(got, m)}, not {sv.conc(want, m)}",
                     {"function": name, "at": concs(env, m), "got": sv.conc(got, m), "want": sv.conc(want, m)})
    elif symx.solve(*cons, dom, want_model=False)[0] == "sat":
        symx.STATS["reach"] += 1
    else:
        ck.errors.append(f"vacuous {name}")


def check_ints(ck, N):
    """integer_exp / integer_sqrt: symbolic n in 0..N."""
    S = fresh(["integer-fn-axioms.smt"])
    n = z3.Int("n")
    # exponential: 3^n modulo 64 (the library's fixed-point convention)
    want = I(1)
    for k in range(1, N + 1):
        want = z3.If(n == k, I(pow(3, k, 64)), want)
    got = None
    for k in range(-2, N + 1):
        v = S.apply("integer_exp", [I(k)])
        got = v if got is None else z3.If(n == k, v, got)
    st, m = symx.solve(n >= -2, n <= N, want != got)
    ck.obligation(st != "unknown")
    if st == "sat":
        ck.violation("def:integer_exp", f"integer_exp at {sv.conc(n, m)} is {sv.conc(got, m)}, not {sv.conc(want, m)}",
                     {"n": sv.conc(n, m)})
    # square root: floor(sqrt n)
    for k in range(0, N + 1):
        S.fuel = 60
        ck.obligation()
        try:
            v = z3.simplify(S.apply("integer_sqrt", [I(k)])).as_long()
        except smtsem.SMTError as ex:
            v = "undefined (its recursion does not end)"
        r = z3.Int("r")
        st, m = symx.solve(r >= 0, r * r <= k, (r + 1) * (r + 1) > k)
        w = sv.conc(r, m)
        if v != w:
            ck.violation(f"integer_sqrt({k})={v}", f"integer_sqrt({k}) is {v}, not {w}", {"n": k, "got": str(v), "want": w})


PROBES = [
    "(assert (= (list_length (cons 1 (as nil (MLList Int)))) x))",
    "(assert (= (list_append (cons 1 (as nil (MLList Int))) x) (cons 1 (cons x (as nil (MLList Int))))))",
    "(assert (= (matrix_transpose (cons (cons 1 (cons 2 (as nil (MLList Int)))) (as nil (MLList (MLList Int))))) mm))",
    "(assert (= (list_concat (cons 1 (as nil (MLList Int))) (cons x (as nil (MLList Int)))) ll))",
    "(assert (= (list_tail (cons 1 (cons 2 (as nil (MLList Int)))) x) ll))",
    "(assert (= (integer_exp x) y))(assert (= x 4))",
    "(assert (= (integer_sqrt x) y))(assert (= x 4))",
]


def check_consistent(ck, i):
    """No standard solver derives a contradiction from the libraries."""
    d = os.path.join(mlenv.scratch(), f"p{i}")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "lib.smt2")
    body = text("integer-fn-axioms.smt") + text("list-axioms.smt") + text("tuples.smt")
    open(p, "w").write("(set-logic ALL)\n" + body + "\n(declare-const x Int)(declare-const y Int)"
                       "(declare-const ll (MLList Int))(declare-const mm (MLList (MLList Int)))\n"
                       + PROBES[i] + "\n(check-sat)\n")
    for s, cmd in (("cvc5", ["cvc5", "--lang=smt2", "--tlimit=8000", p]), ("z3", ["z3-new", "-T:8", p])):
        if not shutil.which(cmd[0]):
            continue
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=30).stdout
        except subprocess.TimeoutExpired:
            r = "timeout"
        ck.count(f"{s} consistency probes")
        ck.obligation()
        if r.strip().startswith("unsat"):
            ck.violation(f"inconsistent:{i}", f"{s} refutes the library together with the satisfiable {PROBES[i]}",
                         {"file": open(p).read(), "solver": s})
        elif "error" in r and s == "cvc5":
            ck.violation(f"rejected:{i}", f"{s} rejects the library text: {r[:200]}", {"solver": s, "output": r})


def run13():
    ck = report.Check("P13")
    B = 4 if ck.thorough else 3
    lf, mf, nf, tf = "list-axioms.smt", "map-axioms.smt", "integer-fn-axioms.smt", "tuples.smt"
    for f in (lf, mf, nf, tf):
        ck.functions["metalift/utils/" + f] = __import__("hashlib").sha1(text(f).encode()).hexdigest()[:10]
    ck.bounds = {"list_length": B, "matrix": f"{min(B,3)}x2 ragged", "map_size": 2,
                 "integer functions": "n in 0..20", "int_width": "unbounded integers",
                 "recursion fuel": 200}
    ck.assumptions = ["the standard model: lists are finite sequences; head/get outside the list is one fixed unknown "
                      "value, (tail nil) = nil; maps are finite with an arbitrary default",
                      "consistency probes: cvc5/z3 may answer unknown, which is no alarm"]
    items = []
    L = fresh([lf])
    for k, ax in enumerate(L.asserts):
        items.append(("ax", (lf,), k))
    items += [("def", (lf,), n) for n in L.defined_order]
    M = fresh([lf, mf])
    for k in range(len(L.asserts), len(M.asserts)):
        items.append(("ax", (lf, mf), k))
    items += [("def", (lf, mf), n) for n in M.defined_order if n not in L.defined_order]
    N = fresh([nf])
    for k, ax in enumerate(N.asserts):
        items.append(("ax", (nf,), k))
    items.append(("ints",))
    items.append(("tuples",))
    items += [("cons", i) for i in range(len(PROBES))]

    def item(it):
        if it[0] == "ax":
            S = fresh(it[1])
            check_axiom(ck, S, it[2], S.asserts[it[2]], B)
        elif it[0] == "def":
            check_def(ck, it[1], it[2], B)
        elif it[0] == "ints":
            check_ints(ck, 20)
        elif it[0] == "tuples":
            check_tuples(ck)
        else:
            check_consistent(ck, it[1])

    ck.parallel(items, item)
    return ck.finish()


def check_tuples(ck):
    """tuples.smt declares, for each arity, a constructor whose selectors project."""
    forms = sx.read(text("tuples.smt"))
    seen = {}
    for f in forms:
        if f[0] != "declare-datatypes":
            ck.errors.append(f"unexpected form in tuples.smt: {sx.show(f)[:60]}")
            continue
        (name, ar), = f[1]
        par = f[2][0]
        params, ctors = par[1], par[2]
        cname, *sels = ctors[0]
        seen[cname] = [s for s, _ in sels]
        ck.obligation()
        n = int(ar)
        want = [[f"tuple{n}_get{i}", f"T{i}"] for i in range(n)]
        if name != f"Tuple{n}" or cname != f"tuple{n}" or sels != want or len(ctors) != 1:
            ck.violation(f"tuple:{name}", f"{sx.show(f)} does not declare an {n}-tuple with its projections",
                         {"form": sx.show(f)})
    for n in range(1, 6):
        ck.obligation()
        if f"tuple{n}" not in seen:
            ck.violation(f"tuple:{n}", f"no declaration of {n}-tuples", {"n": n})


# ---- P14 ---------------------------------------------------------------
V = lambda n, t: ir.Var(n, t)
x, y, z = V("x", gen.Int), V("y", gen.Int), V("z", gen.Int)
l, k = V("l", gen.LInt), V("k", gen.LInt)
m, mm = V("m", gen.Mat), V("n", gen.Mat)
lm = V("m", gen.LMat)
s, r = V("s", gen.SetI), V("r", gen.SetI)
t = V("t", gen.Tup)
w3 = V("w", gen.Tup3)
Cc = ir.Call


def prims():
    """(key, expression, domain condition over the environment)"""
    out = []

    def add(key, e, dom=None):
        out.append((key, e, dom or (lambda v: sv.T)))

    ge0 = lambda *ns: (lambda v: sv.And(*[v[n] >= 0 for n in ns]))
    for p, L, el, T_, ET in (("list", l, x, gen.LInt, gen.Int), ("matrix", m, k, gen.Mat, gen.LInt)):
        nm = L.args[0]
        inr = lambda v, nm=nm: sv.And(v["x"] >= 0, v["x"] < sv.llen(v[nm]))
        add(f"{p}_length", Cc(f"{p}_length", gen.Int, L))
        add(f"{p}_get", Cc(f"{p}_get", ET, L, x), inr)
        add(f"{p}_append", Cc(f"{p}_append", T_, L, el))
        add(f"{p}_prepend", Cc(f"{p}_prepend", T_, el, L))
        add(f"{p}_tail", Cc(f"{p}_tail", T_, L, x), ge0("x"))
        add(f"{p}_take", Cc(f"{p}_take", T_, L, x))
        add(f"{p}_empty", Cc(f"{p}_empty", T_))
        sl = {"list": "vec_slice", "matrix": "matrix_row_slice"}[p]
        add(sl, Cc(sl, T_, L, x, y), ge0("x"))
        add(sl + "_with_length", Cc(sl + "_with_length", T_, L, x, y), ge0("x"))
    add("list_concat", Cc("list_concat", gen.LInt, l, k))
    add("list_eq", Cc("list_eq", gen.Bool, l, k))
    add("matrix_eq", ir.Eq(m, mm))
    add("matrix_col_slice", Cc("matrix_col_slice", gen.Mat, m, x, y), ge0("x"))
    add("matrix_col_slice_with_length", Cc("matrix_col_slice_with_length", gen.Mat, m, x, y), ge0("x"))

    def rect(v):
        c = []
        for n, (g, rows) in v["m"].alts.items():
            if n:
                c.append(z3.Implies(g, sv.And(*[sv.llen(q) == sv.llen(rows[0]) for q in rows])))
        return sv.And(*c)

    add("matrix_transpose", Cc("matrix_transpose", gen.Mat, m), rect)
    add("set-create", Cc("set-create", gen.SetI))
    add("set-singleton", Cc("set-singleton", gen.SetI, x))
    add("set-insert", Cc("set-insert", gen.SetI, x, s))
    add("set-union", Cc("set-union", gen.SetI, s, r))
    add("set-minus", Cc("set-minus", gen.SetI, s, r))
    add("set-member", Cc("set-member", gen.Bool, x, s))
    add("set-subset", Cc("set-subset", gen.Bool, s, r))
    add("set-eq", ir.Eq(s, r))
    add("TupleExpr", ir.TupleExpr(x, y))
    add("make-tuple", Cc("make-tuple", gen.Tup, x, y))
    for i in (0, 1):
        add(f"tupleGet{i}", Cc("tupleGet", gen.Int, t, ir.Lit(i, gen.Int)))
    for i, ty in ((0, gen.Int), (1, gen.Bool), (2, gen.Int)):
        add(f"tuple3Get{i}", Cc("tupleGet", ty, w3, ir.Lit(i, gen.Int)))
    for q in range(0, 7):
        add(f"integer_exp({q - 1})", Cc("integer_exp", gen.Int, ir.Lit(q - 1, gen.Int)))
    for q in (0, 1, 2, 4, 9, 16, 25, 64):
        add(f"integer_sqrt({q})", Cc("integer_sqrt", gen.Int, ir.Lit(q, gen.Int)))
    for nm, op in (("div", ir.Div), ("mod", ir.Mod)):
        add(f"{nm}: dividend>=0, divisor>0", op(x, y), lambda v: sv.And(v["x"] >= 0, v["y"] > 0))
        add(f"{nm}: dividend>=0, divisor<0", op(x, y), lambda v: sv.And(v["x"] >= 0, v["y"] < 0))
        add(f"{nm}: dividend<0, divisor>0", op(x, y), lambda v: sv.And(v["x"] < 0, v["y"] > 0))
        add(f"{nm}: dividend<0, divisor<0", op(x, y), lambda v: sv.And(v["x"] < 0, v["y"] < 0))
    for nm, op in (("+", ir.Add), ("-", ir.Sub), ("*", ir.Mul), ("<", ir.Lt), ("<=", ir.Le), (">", ir.Gt),
                   (">=", ir.Ge), ("=", ir.Eq)):
        add(nm, op(x, y))
    bb, cc = V("b", gen.Bool), V("c", gen.Bool)
    for nm, op in (("and", ir.And), ("or", ir.Or), ("implies", ir.Implies)):
        add(nm, op(bb, cc))
    add("not", ir.Not(bb))
    add("ite", ir.Ite(bb, x, y))
    return out


def run14():
    ck = report.Check("P14")
    B = 4 if ck.thorough else 3
    ck.bounds = {"list_length": B, "matrix": f"{min(B,3)}x2 ragged", "set_size": B, "integer_exp": "-1..5",
                 "integer_sqrt": "8 values up to 64", "int_width": "unbounded integers"}
    ck.assumptions = ["Rosette sets are strictly sorted lists (representation invariant, shown to be preserved)",
                      "each primitive is invoked through the text the real printers emit for it"]
    import hashlib
    for f in ("list-axioms.smt", "integer-fn-axioms.smt", "tuples.smt", "utils.rkt", "bounded.rkt"):
        ck.functions["metalift/utils/" + f] = hashlib.sha1(text(f).encode()).hexdigest()[:10]
    smt = fresh(["integer-fn-axioms.smt", "list-axioms.smt"])
    rk = rktsem.RktSem()
    rk.load(text("utils.rkt"))
    ps = prims()

    def item(i):
        key, e, dom = ps[i]
        w = gen.World(bound=B if "set" not in key else B, cols=2, setn=B)
        w.bound = B if "matrix" not in key else min(B, 3)
        names = sorted({v for v in _vars(e)})
        env = w.env(names)
        d = dom(env)
        ck.count("primitives")
        ck.sample(f"{key}: {e.toSMT()}  |  {e.to_rosette()}")
        st = None
        try:
            S = ModelSem(env=env, fuel=200)
            S.decl, S.uf, S.sorts = smt.decl, smt.uf, smt.sorts
            sval = S.term(e.toSMT())
        except smtsem.SMTError as ex:
            sval = None
            serr = str(ex)
        renv = dict(env)
        for n in names:
            if isinstance(env[n], sv.SV):
                renv[n] = w.setlists[n]
            elif isinstance(env[n], sv.TV):
                renv[n] = sv.LV.of(env[n].items)
        R = rktsem.RktSem(env=renv, fuel=200)
        R.assume = list(w.cons) + [d]
        R.defs = rk.defs
        try:
            rval = R.expr(e.to_rosette())
        except rktsem.RktError as ex:
            ck.obligation()
            ck.violation(f"rosette:{key}", f"Rosette does not evaluate {e.to_rosette()}: {ex}", {"primitive": key})
            return
        if sval is None:
            ck.obligation()
            rv = rval if not sv.is_z3(rval) else z3.simplify(rval)
            ck.violation(f"{key}: smt undefined, rosette {rv}",
                         f"{key}: SMT gives no value ({serr}), Rosette {rv}", {"primitive": key, "error": serr})
            return
        inv = sv.T
        got = rval
        try:
            if isinstance(sval, sv.SV):
                got = gen.lv2set(rval)
                inv = sv.And(*[z3.Implies(g, sv.And(*[a < b for a, b in zip(v, v[1:])]))
                               for g, v in rval.alts.values()])
            elif isinstance(sval, sv.TV) and isinstance(rval, sv.LV):
                (_, (_, vs)), = rval.alts.items()
                got = sv.TV(vs)
            bad = sv.Or(sv.Not(sv.eq(sval, got)), sv.Not(inv), *R.errs)
        except sv.SortMismatch as ex:
            ck.obligation()
            ck.violation(f"sort:{key}", f"{key}: values of different types: {ex}", {"primitive": key})
            return
        st, mo = symx.solve(*w.cons, d, bad)
        ck.obligation(st != "unknown")
        if st == "sat":
            at = {n: sv.conc(v, mo) for n, v in env.items() if not isinstance(v, sv.FV)}
            a, b = sv.conc(sval, mo), sv.conc(rval, mo)
            kk = key if "div" in key or "mod" in key else f"{key}"
            if key.startswith("integer"):
                kk = f"{key}: smt {a}, rosette {b}"
            elif key[:3] in ("div", "mod"):
                # which disagreement: Euclidean (SMT) against truncating (Rosette) is the recorded one
                q, rr = env["x"], env["y"]
                std = sv.And(sval == (q / rr if key[:3] == "div" else q % rr), got == (
                    sv.trunc_div(q, rr) if key[:3] == "div" else sv.trunc_rem(q, rr)))
                fl = sv.And(sval == (q / rr if key[:3] == "div" else q % rr), got == (
                    sv.floor_div(q, rr) if key[:3] == "div" else sv.floor_mod(q, rr)))
                if symx.solve(d, sv.Not(std))[0] == "unsat":
                    kk = f"{key}: smt euclidean, rosette truncating"
                elif symx.solve(d, sv.Not(fl))[0] == "unsat":
                    kk = f"{key}: smt euclidean, rosette flooring"
            ck.violation(kk, f"{key} at {at}: SMT {e.toSMT()} = {a}, Rosette {e.to_rosette()} = {b}",
                         {"primitive": key, "at": at, "smt": str(a), "rosette": str(b)})
        elif symx.solve(*w.cons, d, want_model=False)[0] == "sat":
            symx.STATS["reach"] += 1
        else:
            ck.errors.append(f"vacuous {key}")

    ck.parallel(range(len(ps)), item)
    return ck.finish()


def _vars(e):
    if isinstance(e, ir.Var):
        return {e.args[0]} if e.args[0] in gen.VARS else set()
    out = set()
    for a in e.args:
        if isinstance(a, ir.Expr):
            out |= _vars(a)
    return out


if __name__ == "__main__":
    report.main({"P13": run13, "P14": run14}[sys.argv[1]])
