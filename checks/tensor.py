"""P18: every tensor-language definition computes the operation its name states.
P19: every axiom about tensor operations given to the verifier is true of the definitions.

The real declarations (FnDecl bodies built by metalift.utils.tenspiler) are
executed by the expression semantics over symbolic vectors, matrices and
scalars; the recursion is unrolled by the length of the data.  Reads outside a
list are arbitrary values: a definition or an axiom may not depend on them.
"""
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mlenv
import z3
import irsem
import pysem
import report
import sv
import symx
from metalift import ir
from metalift.utils.tenspiler import axioms as AX
from metalift.utils.tenspiler import constants as TC
from metalift.utils.tenspiler import tenspiler_common as TS

PID = sys.argv[1] if len(sys.argv) > 1 else "P18"
ck = report.Check(PID)
L = 4 if ck.thorough else 3
ROWS, COLS = (3, 3) if ck.thorough else (3, 2)


def decls_of(mod):
    out = {}
    for k, v in vars(mod).items():
        if isinstance(v, (ir.FnDecl, ir.FnDeclRecursive)) and v.args[1] is not None:
            out.setdefault(v.args[0], v)
    return out


DECLS = decls_of(TS)
for f in TC.TENSPILER_FNS:
    DECLS.setdefault(f.args[0], f)


class Sem(irsem.IRSem):
    """Reads outside a list are unconstrained."""

    def __init__(self, *a, div="euclid", **k):
        super().__init__(*a, div=div, **k)
        self.outside = {}
        self.cons = []

    def need(self, c):
        pass

    def divmod_need(self, a, b):
        pass

    def junk(self, kind, key):
        if key not in self.outside:
            if kind == "int":
                v = z3.Int(sv.fresh("outside"))
            else:
                v, c = sv.new_list(sv.fresh("outside"), 2, z3.Int)
                self.cons.append(c)
            self.outside[key] = v
        return self.outside[key]

    def call(self, name, xs):
        if name in ("list_get", "matrix_get", "tensor3d_get"):
            l, i = xs
            kind = {"list_get": "int", "matrix_get": "list", "tensor3d_get": "matrix"}[name]
            if kind == "matrix":
                return sv.lget(l, i, sv.EMPTY)
            if kind == "int" and any(isinstance(e, sv.LV) for _, v in l.alts.values() for e in v):
                kind = "list"
            return sv.lget(l, i, self.junk(kind, (name, repr(l), str(z3.simplify(i)))))
        if name in self.decls and name not in self.fns:
            d = self.decls[name]
            n = len(d.args) - 2
            if len(xs) < n:      # the function parameter is left out in axioms
                for p in d.args[2 + len(xs):]:
                    xs = xs + [self.env[p.args[0]]]
        return super().call(name, xs)


# ------------------------------------------------------------------ shapes --
def vec(n, name):
    return sv.LV.of([z3.Int(f"{name}{i}") for i in range(n)])


def mat(ws, name):
    return sv.LV.of([vec(w, f"{name}{i}_") for i, w in enumerate(ws)])


def rect(r, c, name):
    return mat([c] * r, name)


def vals(l):
    ((_, v),) = l.alts.values()
    return list(v)


def of(xs):
    return sv.LV.of(list(xs))


SEL = z3.Function("sel", z3.IntSort(), z3.IntSort(), z3.IntSort())
SEL4 = z3.Function("sel4", *[z3.IntSort()] * 5)
MAP1 = z3.Function("map1", z3.IntSort(), z3.IntSort())
S1, S2 = z3.Int("s1"), z3.Int("s2")
ARITH = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}


def row_shapes():
    """Row widths of matrices with up to ROWS rows; rows may differ."""
    for r in range(ROWS + 1):
        yield from itertools.product(range(COLS + 1), repeat=r)


def rect_shapes(minr=0, minc=0):
    for r in range(minr, ROWS + 1):
        for c in range(minc, COLS + 1):
            yield r, c


def ops(kind, div):
    d = dict(ARITH)
    d["div"] = div
    return d[kind]


def elemwise(x, y, f):
    return of([elemwise(a, b, f) if isinstance(a, sv.LV) else f(a, b) for a, b in zip(vals(x), vals(y))])


def scalar(x, f):
    return of([scalar(a, f) if isinstance(a, sv.LV) else f(a) for a in vals(x)])


def specs(div):
    """name -> [(label, arguments, expected value)] on every well-shaped input."""
    out = {}

    def add(name, label, args, want):
        out.setdefault(name, []).append((label, args, want))

    for o in ("add", "sub", "mul", "div"):
        f = ops(o, div)
        for n in range(L + 1):
            x, y = vec(n, "x"), vec(n, "y")
            add(f"vec_elemwise_{o}", f"length {n}", [x, y], elemwise(x, y, f))
            add(f"vec_scalar_{o}", f"length {n}", [S1, x], scalar(x, lambda v: f(v, S1)))
            add(f"scalar_vec_{o}", f"length {n}", [S1, x], scalar(x, lambda v: f(S1, v)))
        for ws in row_shapes():
            x, y = mat(ws, "x"), mat(ws, "y")
            add(f"matrix_elemwise_{o}", f"row widths {ws}", [x, y], elemwise(x, y, f))
            add(f"matrix_scalar_{o}", f"row widths {ws}", [S1, x], scalar(x, lambda v: f(v, S1)))
            add(f"scalar_matrix_{o}", f"row widths {ws}", [S1, x], scalar(x, lambda v: f(S1, v)))
        for k, r, c in itertools.product(range(3), range(3), range(3)):
            x, y = of([rect(r, c, f"x{i}_") for i in range(k)]), of([rect(r, c, f"y{i}_") for i in range(k)])
            add(f"tensor3d_elemwise_{o}", f"shape {k}x{r}x{c}", [x, y], elemwise(x, y, f))
    for n in range(L + 1):
        x, y = vec(n, "x"), vec(n, "y")
        xs = vals(x)
        tot, prod = z3.IntVal(0), z3.IntVal(1)
        for v in reversed(xs):
            tot, prod = v + tot, v * prod
        add("reduce_sum", f"length {n}", [x], tot)
        add("reduce_mul", f"length {n}", [x], prod)
        if n:
            m = xs[-1]
            for v in xs[:-1]:
                m = z3.If(v > m, v, m)
            add("reduce_max", f"length {n}", [x], m)
        add("selection_two_args", f"length {n}", [x, y, sv.FV(SEL)], elemwise(x, y, SEL))
        add("dissolve_selection_two_args", f"length {n}", [x, y, S1, S2, sv.FV(SEL4)],
            elemwise(x, y, lambda a, b: SEL4(a, b, S1, S2)))
        add("vec_map", f"length {n}", [x, sv.FV(MAP1)], scalar(x, MAP1))
        for s in range(n + 1):
            for e in range(s, n + 1):
                add("vec_slice", f"length {n} [{s}:{e}]", [x, z3.IntVal(s), z3.IntVal(e)], of(xs[s:e]))
                add("vec_slice_with_length", f"length {n} [{s}:{s}+{e - s}]",
                    [x, z3.IntVal(s), z3.IntVal(e - s)], of(xs[s:e]))
    for ws in row_shapes():
        x, y = mat(ws, "x"), mat(ws, "y")
        add("matrix_selection_two_args", f"row widths {ws}", [x, y, sv.FV(SEL)], elemwise(x, y, SEL))
        add("dissolve_matrix_selection_two_args", f"row widths {ws}", [x, y, S1, S2, sv.FV(SEL4)],
            elemwise(x, y, lambda a, b: SEL4(a, b, S1, S2)))
    for r, c in rect_shapes():
        x = rect(r, c, "x")
        xs = vals(x)
        b = vec(c, "b")
        if c or not r:
            want = []
            for row in xs:
                t = z3.IntVal(0)
                for p, q in reversed(list(zip(vals(row), vals(b)))):
                    t = p * q + t
                want.append(t)
            add("matrix_vec_mul", f"{r}x{c}", [x, b], of(want))
            add("firsts", f"{r}x{c}", [x], of([vals(q)[0] for q in xs]))
            add("rests", f"{r}x{c}", [x], of([of(vals(q)[1:]) for q in xs]))
            add("matrix_transpose", f"{r}x{c}", [x],
                of([of([vals(q)[j] for q in xs]) for j in range(c)] if r else []))
        for s in range(r + 1):
            for e in range(s, r + 1):
                add("matrix_row_slice", f"{r}x{c} [{s}:{e}]", [x, z3.IntVal(s), z3.IntVal(e)], of(xs[s:e]))
                add("matrix_row_slice_with_length", f"{r}x{c} [{s}:{s}+{e - s}]",
                    [x, z3.IntVal(s), z3.IntVal(e - s)], of(xs[s:e]))
        for s in range(c + 1):
            for e in range(s, c + 1):
                w = of([of(vals(q)[s:e]) for q in xs])
                add("matrix_col_slice", f"{r}x{c} [{s}:{e}]", [x, z3.IntVal(s), z3.IntVal(e)], w)
                add("matrix_col_slice_with_length", f"{r}x{c} [{s}:{s}+{e - s}]",
                    [x, z3.IntVal(s), z3.IntVal(e - s)], w)
    c = z3.Bool("c")
    add("ite_int", "", [c, S1, S2], z3.If(c, S1, S2))
    for n in range(0, 17 if ck.thorough else 9):
        add("integer_exp", f"n={n}", [z3.IntVal(n)], z3.IntVal(pow(3, n, 64)))
    for n in (0, 1, 4, 9, 16, 25, 36, 49, 64):
        add("integer_sqrt", f"n={n}", [z3.IntVal(n)], z3.IntVal(int(round(n ** 0.5))))
    return out


def differs(got, want):
    try:
        return z3.simplify(sv.Not(sv.eq(got, want)), som=True)
    except sv.SortMismatch:
        return sv.T


def report_diff(key, what, args, got, want, m, extra=None):
    ck.violation(key, what, {"arguments": [sv.conc(a, m) for a in args] if m else None,
                             "got": sv.conc(got, m) if m and got is not None else None,
                             "expected": sv.conc(want, m) if m else None, **(extra or {})})


def decide(key, name, label, run, args, want, who):
    ck.obligation(False)
    try:
        got, cons, bad = run()
    except (irsem.Unsupported, pysem.PyErr, RecursionError, sv.SortMismatch, AttributeError) as e:
        # no value at all on this shape: no constraint on the elements is involved
        r, m = symx.solve(z3.BoolVal(True))
        if name == "integer_sqrt":
            key += " does not end"
        report_diff(key, f"{who} {name} ({label}): {type(e).__name__} {e}", args, None, want, m)
        ck.discharged += 1
        return
    r, m = symx.solve(*cons, sv.Or(*bad, differs(got, want)))
    symx.STATS["paths"] += 1
    if r == "unknown":
        return
    ck.discharged += 1
    if r == "sat":
        if name == "integer_sqrt":
            key += f" = {sv.conc(got, m)}"
        report_diff(key, f"{who} {name} ({label}) gives {sv.conc(got, m)} instead of {sv.conc(want, m)} "
                    f"on {[sv.conc(a, m) for a in args]}", args, got, want, m)
    ck.count(f"{who} cases")


def p18_item(item):
    who, name = item
    sys.setrecursionlimit(20000)
    if who == "definition":
        cases = specs(lambda a, b: a / b)[name]
        for label, args, want in cases:
            def run():
                S = Sem(decls=DECLS, fuel=60)
                v = S.apply(DECLS[name], list(args))
                return v, S.cons, []

            decide(f"{name} {label}", name, label, run, args, want, who)
    else:
        src = PYSRC[who]
        cases = specs(sv.floor_div)[name]
        for label, args, want in cases:
            def run():
                P = pysem.PySem(fuel=60)
                P.load(src)
                v = P.call(name, list(args))
                # dividing by zero is outside the operation's domain
                dens = []
                if name.endswith("_div"):
                    f = args[1] if name.startswith("scalar") or name.endswith("elemwise_div") else args[0]
                    dens = leaves(f)
                return v, [d != 0 for d in dens], P.errs

            decide(f"{who} {name} {label}", name, label, run, args, want, who)


def leaves(v):
    if isinstance(v, sv.LV):
        return [x for e in vals(v) for x in leaves(e)]
    return [v]


PYSRC = {}


def p18():
    names = sorted(specs(lambda a, b: a / b))
    missing = [n for n in DECLS if n not in names]
    items = [("definition", n) for n in names if n in DECLS]
    printed = []
    for d in TC.TENSPILER_FNS:
        try:
            printed.append(d.to_python())
        except NotImplementedError:
            pass
    PYSRC["printed Python definition"] = "\n\n".join(printed)
    p = os.path.join(mlenv.REPO, "llmlift_scripts", "dsl.py")
    if os.path.exists(p):
        PYSRC["dsl.py definition"] = open(p).read()
    import ast

    for who, src in PYSRC.items():
        have = {n.name for n in ast.parse(src).body if isinstance(n, ast.FunctionDef)}
        items += [(who, n) for n in names if n in have]
    ck.encoded(TS.elemwise_body, TS.scalar_body, TS.reduce_sum_body, TS.reduce_mul_body, TS.reduce_max_body,
               TS.matrix_vec_mul_body, TS.selection_two_args_body, TS.matrix_selection_two_args_body,
               TS.dissolve_selection_two_args_body, TS.dissolve_matrix_selection_two_args_body, TS.vec_map_body)
    ck.bounds = {"vector length": L, "matrix rows": ROWS, "matrix columns": COLS, "tensor": "2x2x2",
                 "elements and scalars": "all integers"}
    ck.cov["definitions"] = len([i for i in items if i[0] == "definition"])
    ck.cov["not specified"] = missing
    ck.assumptions += ["// in a definition is the solver's integer division on both sides; in Python text it is floor division",
                       "reduce_max has no stated value on an empty vector; integer_exp is 3^n mod 64 as documented; "
                       "integer_sqrt is checked on the perfect squares up to 64"]
    ck.parallel(items, p18_item)
    return ck.finish()


# --------------------------------------------------------------------- P19 --
def axioms():
    out, seen = [], set()
    for f, l in sorted(TC.TENSPILER_FN_NAME_TO_AXIOMS.items()):
        for n, a in enumerate(l):
            if id(a) not in seen:
                seen.add(id(a))
                out.append((f"{f}#{n}", a))
    for k, v in sorted(vars(AX).items()):
        if isinstance(v, ir.Axiom) and id(v) not in seen:
            seen.add(id(v))
            out.append((k, v))
    return out


AXIOMS = dict(axioms())


def cells(params):
    """Shapes of the quantified lists; lengths are fixed per query, everything else symbolic."""
    dims = []
    for p in params:
        if ir.is_matrix_type(p.type):
            dims.append([("m", ws) for r in range(ROWS + 1) for ws in
                         ([tuple(x) for x in itertools.product(range(3), repeat=r)] if r < 3 or ck.thorough else
                          [(a, b, b) for a in range(3) for b in range(2)])])
        elif ir.is_list_type(p.type):
            dims.append([("l", n) for n in range(L + 1)])
        else:
            dims.append([("s", None)])
    return itertools.product(*dims)


def p19_item(item):
    sys.setrecursionlimit(20000)
    name, lo, hi = item
    ax = AXIOMS[name]
    params = ax.args[1:]
    for shape in list(cells(params))[lo:hi]:
        env, args = {}, []
        for p, (k, s) in zip(params, shape):
            n = p.args[0]
            v = vec(s, n) if k == "l" else mat(s, n) if k == "m" else (
                z3.Bool(n) if getattr(p.type, "__name__", "") == "Bool" else z3.Int(n))
            env[n] = v
            args.append(v)
        S = Sem(env={**env, TS.SELECT_TWO_ARGS_ARG: sv.FV(SEL), TS.DISSOLVE_SELECT_TWO_ARGS_ARG: sv.FV(SEL4),
                     TS.SELECT_TWO_ARGS: sv.FV(SEL), TS.DISSOLVE_SELECT_TWO_ARGS: sv.FV(SEL4),
                     TS.MAP_INT_TO_INT: sv.FV(MAP1)}, decls=DECLS, fuel=60)
        ck.obligation(False)
        t = S.ev(ax.args[0])
        r, m = symx.solve(*S.cons, sv.Not(t))
        symx.STATS["paths"] += 1
        if r == "unknown":
            continue
        ck.discharged += 1
        if r == "sat":
            vals_ = {p.args[0]: sv.conc(a, m) for p, a in zip(params, args)}
            ck.violation(f"axiom {name}", f"axiom {name} is false for {vals_}",
                         {"axiom": ax.toSMT(), "values": vals_,
                          "outside reads": {k[0] + " " + k[2]: sv.conc(v, m) for k, v in S.outside.items()}})
            return


def p19():
    ck.encoded(*[f for k, f in vars(TS).items() if k.endswith("_body") and callable(f)][:40])
    ck.bounds = {"vector length": L, "matrix rows": ROWS, "row width": 2,
                 "elements, scalars and indices": "all integers"}
    ck.cov["axioms"] = sorted(AXIOMS)
    items = []
    for n, a in AXIOMS.items():
        k = len(list(cells(a.args[1:])))
        items += [(n, i, i + 60) for i in range(0, k, 60)]
    ck.assumptions += ["take and tail clamp their index as the SMT library states; reads outside a list are arbitrary",
                       "functions passed to selection operations are arbitrary (uninterpreted)",
                       "division is one total integer function, arbitrary at divisor 0"]
    ck.parallel(items, p19_item)
    return ck.finish()


report.main(p18 if PID == "P18" else p19)
