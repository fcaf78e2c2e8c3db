"""P12: the declarations generated for bounded synthesis let every variable take
every value of its type up to the bound, independently of the others.

The real to_rosette writes the query for a set of variables; the text is read
back.  Each `define-symbolic` constant is an unknown, each `define` is evaluated
over them with Racket's meaning (take, sort, remove-duplicates, ...).  For every
shape of values within the bound the solver decides

    forall values, forall constants not under #:forall,
        exists constants under #:forall:  every variable equals its value
                                          and Racket raises no error.
"""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mlenv
import z3
import report
import rktsem
import sv
import sx
import symx
from metalift import ir, rosette_translator as RT
from metalift.ir import Bool, Int, List, Matrix, Set, Tensor3D, Tuple, Var, make_tuple_type

ck = report.Check("P12")


# ---- Racket primitives the declarations use ------------------------------
def _dedupe(S, h, xs):
    l = S.lst(h, xs[0])
    out = {}

    def one(v):
        r = sv.EMPTY
        for i, x in enumerate(v):
            dup = sv.Or(*[sv.eq(x, y) for y in v[:i]])
            r = sv.ite(dup, r, sv.lconcat(r, sv.LV.of([x])))
        return r

    return sv.lmap_alts(l, one)


def _sort(S, h, xs):
    l = S.lst(h, xs[0])
    if not (isinstance(xs[1], str) and xs[1] in ("<", ">")):
        raise rktsem.RktError("sort order")

    def one(v):
        v = list(v)
        for x in v:
            if len(v) > 1 and not (sv.is_z3(x) and z3.is_int(x)):
                raise rktsem.RktError(f"{xs[1]} applied to a non-integer")
        for i in range(len(v)):
            for j in range(len(v) - 1 - i):
                a, b = v[j], v[j + 1]
                c = a <= b if xs[1] == "<" else a >= b
                v[j], v[j + 1] = z3.If(c, a, b), z3.If(c, b, a)
        return sv.LV.of(v)

    return sv.lmap_alts(l, one)


class Sem(rktsem.RktSem):
    def ev(self, e, env):
        if e in ("<", ">") and e not in env:
            return e
        return super().ev(e, env)


rktsem.PRIM["remove-duplicates"] = _dedupe
rktsem.PRIM["sort"] = _sort


class Query:
    """The query file, read back."""

    def __init__(self, text):
        self.sem = Sem()
        self.symbols = {}
        self.foralls = []
        text = "\n".join(l for l in text.split("\n") if not l.startswith("#lang"))
        for f in sx.read(text):
            if not isinstance(f, list) or not f:
                raise rktsem.RktError(f"form {f}")
            if f[0] == "define-symbolic":
                for n in f[1:-1]:
                    self.fresh(n)
                    if f[-1] not in ("integer?", "boolean?"):
                        raise rktsem.RktError(f"symbolic type {f[-1]}")
                    self.symbols[n] = (z3.Int if f[-1] == "integer?" else z3.Bool)("s!" + n)
                    self.sem.env[n] = self.symbols[n]
            elif f[0] == "define" and isinstance(f[1], str):
                if isinstance(f[2], list) and f[2] and f[2][0] == "synthesize":
                    k = f[2].index("#:forall")
                    self.foralls.append(f[2][k + 1][1:])
                else:
                    self.fresh(f[1])
                    self.sem.env[f[1]] = self.sem.ev(f[2], self.sem.env)

    def fresh(self, n):
        if n in self.sem.env:
            raise rktsem.RktError(f"{n} is defined twice")


def write(vs, bound, rounds, unbounded):
    path = os.path.join(mlenv.scratch(), f"q{os.getpid()}.rkt")
    RT.to_rosette(basename="q", filename=path, target_lang=[], vars=set(vs), inv_and_ps=[], preds=[],
                  vc=ir.BoolLit(True), loop_and_ps_info=[], rounds_to_guess=rounds, fns_to_guess=[],
                  fn_defs_to_exclude=[], unbounded_ints=unbounded, list_bound=bound)
    return open(path).read()


# ---- values of a type, by shape -------------------------------------------
def shapes(t, b):
    """All shapes of values of t: nested lists of lengths."""
    if ir.is_primitive_type(t):
        return ["."]
    if ir.is_tuple_type(t):
        ts = ir.get_args(ir.get_args(t)[0])
        return [("T",) + s for s in itertools.product(*[shapes(x, b) for x in ts])]
    if ir.is_tensor3d_type(t):
        e = Matrix[ir.get_args(t)[0]]
    elif ir.is_matrix_type(t):
        e = List[ir.get_args(t)[0]]
    else:
        e = ir.get_args(t)[0]
    es = shapes(e, b)
    k = "S" if ir.is_set_type(t) else "L"
    return [(k,) + s for n in range(b + 1) for s in itertools.product(es, repeat=n)]


def value(t, shape, syms, assume):
    if shape == ".":
        x = z3.FreshInt("v") if t == Int else z3.FreshBool("v")
        syms.append(x)
        return x
    if shape[0] == "T":
        ts = ir.get_args(ir.get_args(t)[0])
        return sv.LV.of([value(a, s, syms, assume) for a, s in zip(ts, shape[1:])])
    if ir.is_tensor3d_type(t):
        e = Matrix[ir.get_args(t)[0]]
    elif ir.is_matrix_type(t):
        e = List[ir.get_args(t)[0]]
    else:
        e = ir.get_args(t)[0]
    vs = [value(e, s, syms, assume) for s in shape[1:]]
    if shape[0] == "S":
        assume += [a < b for a, b in zip(vs, vs[1:])]  # a set is a sorted list without duplicates
    return sv.LV.of(vs)


def narrow(t, shape, b):
    """A matrix (3-d tensor) with a row of other than the bound's width?"""
    if isinstance(shape, str):
        return False
    if ir.is_matrix_type(t):
        return any(len(r) - 1 != b for r in shape[1:])
    if ir.is_tensor3d_type(t):
        return any(len(m) - 1 != b or any(len(r) - 1 != b for r in m[1:]) for m in shape[1:])
    if ir.is_tuple_type(t):
        return any(narrow(x, s, b) for x, s in zip(ir.get_args(ir.get_args(t)[0]), shape[1:]))
    return any(narrow(ir.get_args(t)[0], s, b) for s in shape[1:])


def tname(t):
    return ir.get_type_str(t) if not ir.is_primitive_type(t) else t.__name__


def tstr(t):
    s = str(t)
    for a in ("metalift.ir.", "typing."):
        s = s.replace(a, "")
    return s.replace("<class '", "").replace("'>", "")


def flat(v):
    if isinstance(v, sv.LV):
        (n, (_, xs)), = v.alts.items()
        return [y for x in xs for y in flat(x)]
    return [v]


def show(v, m):
    if isinstance(v, sv.LV):
        (n, (_, xs)), = v.alts.items()
        return [show(x, m) for x in xs]
    return str(m.eval(v, model_completion=True))


def decide(types, bound, rounds, unbounded):
    names = ["x", "y", "x_1", "xs"][:len(types)]
    vs = [Var(n, t) for n, t in zip(names, types)]
    what = ", ".join(f"{n}: {tstr(t)}" for n, t in zip(names, types))
    base = f"{what} bound {bound}"
    try:
        text = write(vs, bound, rounds, unbounded)
        q = Query(text)
        assert len(q.foralls) == rounds + 1, "number of synthesize queries"
        missing = [n for n in names if n not in q.sem.env]
        if missing:
            raise rktsem.RktError(f"undeclared variables {missing}")
        for fa in q.foralls:
            bad = [n for n in fa if n not in q.symbols]
            if bad:
                raise rktsem.RktError(f"#:forall over {bad}")
    except Exception as ex:
        ck.obligation()
        ck.violation("reject " + base, f"no usable declarations for {base}: {type(ex).__name__}: {ex}",
                     {"vars": what, "bound": bound})
        return
    for fa in {tuple(sorted(f)) for f in q.foralls}:
        for combo in itertools.product(*[shapes(t, bound) for t in types]):
            if len(types) > 1 and any(narrow(t, s, bound) for t, s in zip(types, combo)):
                continue
            syms, assume, goal = [], [], [sv.Not(e) for e in q.sem.errs]
            vals = []
            for n, t, s in zip(names, types, combo):
                v = value(t, s, syms, assume)
                vals.append(v)
                goal.append(sv.eq(q.sem.env[n], v))
            ex = [q.symbols[n] for n in q.symbols if n in fa]
            g = z3.And(*goal)
            f = z3.Not(z3.Exists(ex, g) if ex else g)
            st, m = symx.solve(*assume, f)
            symx.STATS["paths"] += 1
            ck.obligation(st != "unknown")
            ck.count("shapes")
            if st == "unsat":
                # reachability: the assumptions are satisfiable
                if len(types) == 1 and assume:
                    assert symx.solve(*assume, want_model=False)[0] == "sat"
                    symx.STATS["reach"] += 1
            if st == "sat":
                val = {n: show(v, m) for n, v in zip(names, vals)}
                # replay: the counterexample as constants, against the real text
                sub = [c == m.eval(c, model_completion=True) for c in syms]
                st2, _ = symx.solve(*sub, *assume, *[c == m.eval(c, model_completion=True) for n, c in q.symbols.items() if n not in fa], g, want_model=False)
                ck.replays += 1
                if st2 == "sat":
                    ck.errors.append(f"counterexample not confirmed: {base} {val}")
                    continue
                if any(narrow(t, s, bound) for t, s in zip(types, combo)):
                    key = "matrix rows narrower than the bound" + ("" if all(not ir.is_tensor3d_type(t) for t in types) else " (tensor)")
                else:
                    key = f"{base} shape {combo}"
                if ck.violation(key, f"{base}: no choice of the universally quantified constants gives {val}",
                                {"vars": what, "bound": bound, "value": val, "query": text}):
                    return


def items():
    tup = make_tuple_type
    scalars = [Int, Bool]
    ts = scalars + [List[Int], List[Bool], Set[Int], Matrix[Int], Matrix[Bool], List[List[Int]],
                    tup(Int, Int), tup(Int, Bool, Int), tup(Int, List[Int]), tup(Set[Int], Bool), tup(tup(Int, Bool), Int),
                    List[tup(Int, Int)], List[Set[Int]]]
    out = []
    bounds = (1, 2, 3, 4) if ck.thorough else (1, 2, 3)
    for t in ts:
        for b in bounds:
            deep = t in (Matrix[Int], Matrix[Bool], List[List[Int]], List[tup(Int, Int)], List[Set[Int]])
            if deep and b > (3 if ck.thorough else 2):
                continue
            out.append(((t,), b, 0, False))
    for b in (1, 2):
        out.append(((Tensor3D[Int],), b, 0, False))
    # the other ways the query is written
    for t in (List[Int], Set[Int], Int):
        out += [((t,), 2, 0, True), ((t,), 2, 2, False)]
    # independence
    two = [Int, Bool, List[Int], Set[Int], tup(Int, Int), Matrix[Int]]
    for a, b in itertools.combinations_with_replacement(two, 2):
        out.append(((a, b), 2, 0, False))
    for c in itertools.combinations(two[:5], 3):
        out.append((c, 1 if not ck.thorough else 2, 0, False))
    return out


def main():
    ck.encoded(RT.to_rosette, RT.generate_vars, RT.gen_var, RT.generate_synth)
    its = items()
    ck.bounds = {"list_bound": "1..4" if ck.thorough else "1..3", "types": len({str(i[0]) for i in its}),
                 "variables at once": 3, "values": "every integer and boolean, every shape within the bound"}
    ck.assumptions = ["take, sort and remove-duplicates have their Racket meaning; a value counts as covered only by "
                      "constants for which Racket raises no error",
                      "integers are unbounded (current-bitwidth is outside this property)",
                      "sets are sets of integers: utils.rkt orders elements with <"]
    ck.parallel(its, lambda it: decide(*it))
    return ck.finish()


if __name__ == "__main__":
    report.main(main)
