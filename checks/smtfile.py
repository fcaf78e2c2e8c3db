"""P15: the SMT file written for verification states exactly the claim.

The real verify_synth_result (synthesis_common) and toSMT (smt_util) write the
file for a target language, synthesised functions and a condition; the solver
command is a stand-in that answers nothing.  The file is then read back:

 * a conforming solver's rules: every symbol declared before its use, nothing
   declared twice (own reader, and cvc5 --parse-only);
 * the last assertion, under the definitions in the file, is the negation of the
   condition's meaning under the given functions -- for every value of every
   variable (Z3, lists and matrices up to the bound);
 * every further assertion is one of the given axioms with its own meaning.

Scenarios: every call graph over functions that take functions (direct,
indirect, several levels, several callers, several functions passed, wrappers
with a fixed function), first-order dependency chains in every order, recursive
functions, axioms, synthesised functions calling each other; every order of the
target language and of the internal call lists.
"""
import contextlib
import io
import itertools
import os
import re
import shutil
import stat
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mlenv
import z3
import irsem
import report
import smtsem
import sv
import sx
import symx
from metalift import ir, smt_util, synthesis_common as SC
from metalift.ir import (Axiom, Bool, Fn, FnDecl, FnDeclRecursive, Int, List, Matrix, Tuple, call, call_value, fn_decl,
                         fn_decl_recursive, implies, ite)
from metalift.utils.tenspiler import axioms as TAX
from metalift.utils.tenspiler import tenspiler_common as TC
from metalift.vc_util import and_objects, or_objects

ck = report.Check("P15")
LB = 2
LI = List[Int]
UT = os.path.join(mlenv.REPO, "metalift", "utils")
LIBS = ("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt")


class Base:
    """The shipped libraries, read once."""

    def __init__(self):
        self.n = 0
        self.S = smtsem.SMTSem()
        for f in LIBS:
            for form in sx.read(open(os.path.join(UT, f)).read()):
                self.S.command(form)
        self.n = len(self.S.asserts)


BASE = None
v, w = List(Int, "v"), List(Int, "w")
m, mm = Matrix(Int, "m"), Matrix(Int, "mm")
p, q, r, s = Int("p"), Int("q"), Int("r"), Int("s")


def F2(n):
    return Fn((Int, Int, Int), n)


def F1(n):
    return Fn((Int, Int), n)


FA = F2("fa")


# -- target-language functions ----------------------------------------------
def sel(name="sel", calls="sel", extra=None, par=FA):
    """Elementwise application; the recursive call goes to `calls`."""
    cur = call_value(par, v[0], w[0])
    if extra is not None:
        cur = extra(cur)
    rec = call(calls, LI, v[1:], w[1:], par)
    return fn_decl_recursive(name, LI, ite(or_objects(v.len() < 1, v.len() != w.len()), List.empty(Int),
                                           rec.prepend(cur)), v, w, par)


def msel(name="msel", inner="sel", par=FA):
    rec = call(name, Matrix[Int], m[1:], mm[1:], par)
    return fn_decl_recursive(name, Matrix[Int], ite(or_objects(m.len() < 1, m.len() != mm.len()), Matrix.empty(Int),
                                                    rec.prepend(call(inner, LI, m[0], mm[0], par))), m, mm, par)


def twice(name="twice", inner="sel", par=FA):
    """Not recursive, passes its function on."""
    return fn_decl(name, LI, call(inner, LI, v, call(inner, LI, v, w, par), par), v, w, par)


def both(name="both", inner="sel", par=FA):
    """Applies its function and passes it on."""
    return fn_decl(name, LI, call(inner, LI, v, w, par).prepend(call_value(par, Int(1), Int(2))), v, w, par)


def mapf(name="mapf", par=None):
    par = par or F1("ga")
    rec = call(name, LI, v[1:], par)
    return fn_decl_recursive(name, LI, ite(v.len() < 1, List.empty(Int), rec.prepend(call_value(par, v[0]))), v, par)


def midsel(name="midsel", par=FA):
    """The function parameter is not the last one."""
    return fn_decl_recursive(name, LI, ite(v.len() < 1, List.empty(Int),
                                           call(name, LI, v[1:], par, p).prepend(call_value(par, v[0], p))), v, par, p)


def wrap(name="wrap", inner="sel", f="f1"):
    return fn_decl(name, LI, call(inner, LI, v, w, F2(f)).prepend(Int(7)), v, w)


def none2(n):
    return fn_decl(n, Int, None, p, q)


def none1(n):
    return fn_decl(n, Int, None, p)


def total(name="total"):
    return fn_decl_recursive(name, Int, ite(v.len() < 1, Int(0), call(name, Int, v[1:]) + v[0]), v)


def cand(name, body, *args):
    e = body.src if hasattr(body, "src") else body
    return FnDeclRecursive(name, e.type, e, *[a.src for a in args])


def f1():
    return cand("f1", p + q * 2, p, q)


def f2():
    return cand("f2", p * 3 - q, p, q)


def g1():
    return cand("g1", p * 5 + 1, p)


A, B = List(Int, "A"), List(Int, "B")
MA, MB = Matrix(Int, "MA"), Matrix(Int, "MB")
X, Y, Z = Int("X"), Int("Y"), Int("Z")
R, RM = List(Int, "R"), Matrix(Int, "RM")


def ps_list(body, name="ps"):
    """ps(R, A, B): R == body"""
    return cand(name, R == body, R, A, B)


def ps_mat(body, name="ps"):
    return cand(name, RM == body, RM, MA, MB)


def call_ps(c):
    return call(c.name(), Bool, *[a for a in c.arguments()])


def vc_of(*cs):
    return and_objects(*[implies(X > Y + k, call_ps(c)) for k, c in enumerate(cs)])


class Scenario:
    def __init__(self, name, lang, cands, vc, vars, axioms=(), orders=None):
        self.name, self.lang, self.cands, self.vc, self.vars = name, lang, cands, vc, vars
        self.axioms, self.orders = list(axioms), orders


LV = [A, B, R, X, Y]
MV = [MA, MB, RM, X, Y]


def scenarios():
    """name -> builder (fresh expressions each time: the code rewrites candidates in place)."""
    out = []

    def add(name, fn):
        out.append((name, fn))

    C = lambda n, *a: call(n, LI, *a)
    CM = lambda n, *a: call(n, Matrix[Int], *a)

    # -- functions passed directly -------------------------------------
    uses = {
        "sel f1": lambda: C("sel", A, B, F2("f1")),
        "sel f1 nested": lambda: C("sel", A, C("sel", A, B, F2("f1")), F2("f1")),
        "sel f1 and f2": lambda: C("sel", C("sel", A, B, F2("f1")), B, F2("f2")),
        "sel f2 and f1 in branches": lambda: ite(X > Y, C("sel", A, B, F2("f2")), C("sel", A, B, F2("f1"))),
    }
    for k, u in uses.items():
        add(f"direct: {k}", lambda u=u: Scenario(
            "", [sel(), none2("f1"), none2("f2")],
            [cand("ps", R == u(), R, A, B, X, Y), f1(), f2()], vc_of(cand("ps", R == R, R, A, B, X, Y)), LV))
    add("direct: function parameter in the middle", lambda: Scenario(
        "", [midsel(), none2("f1")], [cand("ps", R == C("midsel", A, F2("f1"), X), R, A, X), f1()],
        vc_of(cand("ps", R == R, R, A, X)), [A, R, X, Y]))
    add("direct: element wrapped in a target function", lambda: Scenario(
        "", [sel(extra=lambda c: call("inc", Int, c)), fn_decl("inc", Int, p + 1, p), none2("f1")],
        [ps_list(C("sel", A, B, F2("f1"))), f1()], vc_of(ps_list(A)), LV))
    add("direct: two functions over lists", lambda: Scenario(
        "", [sel(), mapf(), none2("f1"), none1("g1")],
        [ps_list(C("mapf", C("sel", A, B, F2("f1")), F1("g1"))), f1(), g1()], vc_of(ps_list(A)), LV))
    add("direct: parameter named like the function passed", lambda: Scenario(
        "", [mapf(par=F1("g1")), none1("g1")], [ps_list(C("mapf", A, F1("g1"))), g1()], vc_of(ps_list(A)), LV))
    add("direct: the passed function calls a target function", lambda: Scenario(
        "", [sel(), none2("f1"), fn_decl("inc", Int, p + 1, p)],
        [ps_list(C("sel", A, B, F2("f1"))), cand("f1", call("inc", Int, p) + q * 2, p, q)], vc_of(ps_list(A)), LV))
    add("direct: the passed function calls another synthesised function", lambda: Scenario(
        "", [sel(), none2("f1"), none1("g1")],
        [ps_list(C("sel", A, B, F2("f1"))), cand("f1", call("g1", Int, p) + q * 2, p, q), g1()],
        vc_of(ps_list(A)), LV))
    # -- passed on -------------------------------------------------------
    inner = {"twice": twice, "both": both}
    for k, mk in inner.items():
        for us, u in {"alone": lambda k=k: C(k, A, B, F2("f1")),
                      "with sel f1": lambda k=k: C(k, A, C("sel", A, B, F2("f1")), F2("f1")),
                      "with sel f2": lambda k=k: C(k, A, C("sel", A, B, F2("f2")), F2("f1"))}.items():
            add(f"indirect: {k} {us}", lambda mk=mk, u=u: Scenario(
                "", [sel(), mk(), none2("f1"), none2("f2")], [ps_list(u()), f1(), f2()], vc_of(ps_list(A)), LV))
    add("indirect: two callers of sel", lambda: Scenario(
        "", [sel(), twice(), both(), none2("f1")],
        [ps_list(C("twice", A, C("both", A, B, F2("f1")), F2("f1"))), f1()], vc_of(ps_list(A)), LV))
    add("indirect: two callers, one used", lambda: Scenario(
        "", [sel(), twice(), msel(), none2("f1")], [ps_list(C("twice", A, B, F2("f1"))), f1()], vc_of(ps_list(A)), LV))
    add("indirect: three levels", lambda: Scenario(
        "", [sel(), twice(), twice("four", "twice"), none2("f1")], [ps_list(C("four", A, B, F2("f1"))), f1()],
        vc_of(ps_list(A)), LV))
    add("indirect: three levels and two callers", lambda: Scenario(
        "", [sel(), twice(), both("both", "twice"), none2("f1")],
        [ps_list(C("both", A, C("twice", A, B, F2("f1")), F2("f1"))), f1()], vc_of(ps_list(A)), LV))
    add("indirect: matrix", lambda: Scenario(
        "", [sel(), msel(), none2("f1")], [ps_mat(CM("msel", MA, MB, F2("f1"))), f1()], vc_of(ps_mat(MA)), MV))
    add("indirect: matrix and vector, invariant and postcondition", lambda: Scenario(
        "", [sel(), msel(), none2("f1")],
        [ps_mat(CM("msel", MA, MB, F2("f1"))), ps_list(C("sel", A, B, F2("f1")), "inv0"), f1()],
        vc_of(ps_mat(MA), ps_list(A, "inv0")), MV + [A, B, R]))
    add("indirect: matrix, two functions", lambda: Scenario(
        "", [sel(), msel(), none2("f1"), none2("f2")],
        [ps_mat(CM("msel", MA, CM("msel", MA, MB, F2("f2")), F2("f1"))), f1(), f2()], vc_of(ps_mat(MA)), MV))
    # -- the shape of a function that takes a function ---------------------
    add("shape: applied twice in one body", lambda: Scenario(
        "", [sel(extra=lambda c: c + call_value(FA, w[0], Int(3))), none2("f1")],
        [ps_list(C("sel", A, B, F2("f1"))), f1()], vc_of(ps_list(A)), LV))
    add("shape: applied to its own result", lambda: Scenario(
        "", [sel(extra=lambda c: call_value(FA, c, w[0])), none2("f1"), none2("f2")],
        [ps_list(C("sel", C("sel", A, B, F2("f2")), B, F2("f1"))), f1(), f2()], vc_of(ps_list(A)), LV))
    add("shape: passed on and a fixed one", lambda: Scenario(
        "", [sel(), fn_decl("mix", LI, C("sel", C("sel", v, w, F2("f2")), w, FA), v, w, FA), none2("f1"), none2("f2")],
        [ps_list(C("mix", A, B, F2("f1"))), f1(), f2()], vc_of(ps_list(A)), LV))
    add("shape: fixed one only below a function that takes one", lambda: Scenario(
        "", [sel(), fn_decl("mix", LI, C("sel", v, w, F2("f2")).prepend(call_value(FA, Int(1), Int(2))), v, w, FA),
             none2("f1"), none2("f2")],
        [ps_list(C("mix", A, B, F2("f1"))), f1(), f2()], vc_of(ps_list(A)), LV))
    add("shape: not recursive", lambda: Scenario(
        "", [fn_decl("app", Int, call_value(FA, p, q) + 1, p, q, FA), none2("f1"), none2("f2")],
        [cand("ps", Z == call("app", Int, X, call("app", Int, X, Y, F2("f2")), F2("f1")), Z, X, Y), f1(), f2()],
        vc_of(cand("ps", Z == Z, Z, X, Y)), [X, Y, Z]))
    add("shape: calls a function that calls it back on an element", lambda: Scenario(
        "", [fn_decl("app", Int, call_value(FA, p, q) + 1, p, q, FA),
             fn_decl_recursive("sel", LI, ite(v.len() < 1, List.empty(Int), C("sel", v[1:], w, FA).prepend(
                 call("app", Int, v[0], p0(w), FA))), v, w, FA), none2("f1"), none2("f2")],
        [ps_list(C("sel", C("sel", A, B, F2("f2")), B, F2("f1"))), f1(), f2()], vc_of(ps_list(A)), LV))
    add("shape: function returning a truth value", lambda: Scenario(
        "", [fn_decl_recursive("keep", LI, ite(v.len() < 1, List.empty(Int), ite(
            call_value(Fn((Bool, Int), "pa"), v[0]), C("keep", v[1:], Fn((Bool, Int), "pa")).prepend(v[0]),
            C("keep", v[1:], Fn((Bool, Int), "pa")))), v, Fn((Bool, Int), "pa")), fn_decl("isp", Bool, None, p)],
        [cand("ps", R == C("keep", A, Fn((Bool, Int), "isp")), R, A), cand("isp", p > 3, p)],
        vc_of(cand("ps", R == R, R, A)), [A, R, X, Y]))
    add("shape: fold", lambda: Scenario(
        "", [mapf(), fn_decl_recursive("fold", Int, ite(v.len() < 1, Int(0), call_value(
            FA, v[0], call("fold", Int, v[1:], FA))), v, FA), none2("f1"), none1("g1")],
        [cand("ps", Z == call("fold", Int, C("mapf", A, F1("g1")), F2("f1")), Z, A), f1(), g1()],
        vc_of(cand("ps", Z == Z, Z, A)), [A, X, Y, Z]))
    # -- the functions of the tensor library --------------------------------
    def tens(matrix, dissolve, axiom=False, both_used=False):
        D = "dissolve_" if dissolve else ""
        mname, vname = D + "matrix_selection_two_args", D + "selection_two_args"
        mf = TC.dissolve_matrix_selection_two_args_fn_decl if dissolve else TC.matrix_selection_two_args_fn_decl
        vf = TC.dissolve_selection_two_args_fn_decl if dissolve else TC.selection_two_args_fn_decl
        df = TC.dissolve_select_two_args_fn_decl if dissolve else TC.select_two_args_fn_decl
        obj = TC.dissolve_select_two_args_fn_obj if dissolve else TC.select_two_args_fn_obj
        ex = [X, Y] if dissolve else []
        lang = [vf, mf, df]
        if axiom:
            lang += [TAX.dissolve_matrix_selection_two_args_axiom if dissolve else TAX.matrix_selection_two_args_axiom]
        args = list(df.arguments())
        body = ir.Add(ir.Mul(args[0], ir.IntLit(3)), args[-1])
        f = FnDeclRecursive(df.name(), Int, body, *args)
        cs = [f]
        if matrix:
            cs.append(cand("ps", RM == CM(mname, MA, MB, *ex, obj), RM, MA, MB, *ex))
        if not matrix or both_used:
            cs.append(cand("inv0", R == C(vname, A, B, *ex, obj), R, A, B, *ex))
        gs = [c for c in cs if c.name() != df.name()]
        return Scenario("", lang, cs, vc_of(*gs), [X, Y] + ([MA, MB, RM] if matrix else [])
                        + ([A, B, R] if not matrix or both_used else []), orders=6)

    for mt, di, ax, bo in itertools.product((0, 1), repeat=4):
        if (bo or ax) and not mt:
            continue
        add(f"tensor library: {'dissolve ' if di else ''}{'matrix ' if mt else 'vector '}{'with axiom ' if ax else ''}"
            f"{'and vector' if bo else ''}", lambda a=(mt, di, ax, bo): tens(*a))
    # -- wrappers with a fixed function ------------------------------------
    add("wrapper: function fixed in the target language", lambda: Scenario(
        "", [sel(), wrap(), none2("f1")], [ps_list(C("wrap", A, B)), f1()], vc_of(ps_list(A)), LV))
    add("wrapper: fixed function and direct use", lambda: Scenario(
        "", [sel(), wrap(), none2("f1")], [ps_list(C("wrap", A, C("sel", A, B, F2("f1")))), f1()],
        vc_of(ps_list(A)), LV))
    add("wrapper: fixed function and another one", lambda: Scenario(
        "", [sel(), wrap(), none2("f1"), none2("f2")], [ps_list(C("wrap", A, C("sel", A, B, F2("f2")))), f1(), f2()],
        vc_of(ps_list(A)), LV))
    # -- first order --------------------------------------------------------
    add("first order: chain", lambda: Scenario(
        "", [fn_decl("a1", Int, p + 1, p), fn_decl("a2", Int, call("a1", Int, p) * 2, p),
             fn_decl("a3", Int, call("a2", Int, p) - call("a1", Int, q), p, q), total()],
        [cand("ps", Z == call("a3", Int, X, Y) + call("total", Int, A), Z, X, Y, A)],
        vc_of(cand("ps", Z == Z, Z, X, Y, A)), [A, X, Y, Z]))
    add("first order: independent functions", lambda: Scenario(
        "", [fn_decl("a1", Int, p + 1, p), fn_decl("a2", Int, p * 2, p), total()],
        [cand("ps", Z == call("a1", Int, X) + call("a2", Int, Y) + call("total", Int, A), Z, X, Y, A)],
        vc_of(cand("ps", Z == Z, Z, X, Y, A)), [A, X, Y, Z]))
    add("first order: variable named like a function", lambda: Scenario(
        "", [fn_decl("a1", Int, p + 1, p), fn_decl("a2", Int, call("a1", Int, Int("a3")) * 2, Int("a3")),
             fn_decl("a3", Int, call("a2", Int, p) - 1, p)],
        [cand("ps", Z == call("a3", Int, X), Z, X)], vc_of(cand("ps", Z == Z, Z, X)), [X, Y, Z]))
    add("first order: recursive functions calling others", lambda: Scenario(
        "", [fn_decl("a1", Int, p * p, p),
             fn_decl_recursive("sq", Int, ite(v.len() < 1, Int(0), call("sq", Int, v[1:]) + call("a1", Int, v[0])), v),
             fn_decl_recursive("cnt", Int, ite(v.len() < 1, call("sq", Int, w), call("cnt", Int, v[1:], w) + 1), v, w)],
        [cand("ps", Z == call("cnt", Int, A, B), Z, A, B)], vc_of(cand("ps", Z == Z, Z, A, B)), [A, B, X, Y, Z]))
    add("first order: functions of every type", lambda: Scenario(
        "", [fn_decl("isz", Bool, p == 0, p), fn_decl("hd", Int, ite(v.len() < 1, Int(0), v[0]), v),
             fn_decl("row", LI, ite(m.len() < 1, List.empty(Int), m[0]), m),
             fn_decl("pick", Matrix[Int], ite(call("isz", Bool, p), m, mm), p, m, mm)],
        [cand("ps", and_objects(R == call("row", LI, call("pick", Matrix[Int], X, MA, MB)), Z > call("hd", Int, R)),
              R, MA, MB, X, Z)],
        vc_of(cand("ps", R == R, R, MA, MB, X, Z)), [MA, MB, R, X, Y, Z]))
    for perm in itertools.permutations(range(3)):
        def mk(perm=perm):
            cs = [cand("ps", and_objects(Z == X, call("inv0", Bool, X, Y)), Z, X, Y),
                  cand("inv0", and_objects(X > 0, call("bound", Int, X, Y) > 3), X, Y),
                  cand("bound", X * 2 - Y, X, Y)]
            return Scenario("", [total()], [cs[i] for i in perm],
                            vc_of(cand("ps", Z == Z, Z, X, Y), cand("inv0", X > 0, X, Y)), [X, Y, Z, A], orders=1)

        add(f"synthesised functions calling each other {perm}", mk)
    add("synthesised function with no arguments", lambda: Scenario(
        "", [fn_decl("flag", Bool, None), total()],
        [cand("flag", Bool(True)), cand("ps", ite(call("flag", Bool), Z == X, Z == Y), Z, X, Y)],
        vc_of(cand("ps", Z == Z, Z, X, Y)), [X, Y, Z]))
    add("target function calls a synthesised function", lambda: Scenario(
        "", [fn_decl("use", Int, call("g1", Int, p) + 1, p), none1("g1")],
        [cand("ps", Z == call("use", Int, X), Z, X), g1()], vc_of(cand("ps", Z == Z, Z, X)), [X, Y, Z]))
    add("condition calls target functions", lambda: Scenario(
        "", [total(), fn_decl("a1", Int, p + 1, p)], [cand("ps", Z == X, Z, X)],
        and_objects(call("total", Int, A) > call("a1", Int, X), call("ps", Bool, Z, X)), [A, X, Z]))
    add("condition passes a function", lambda: Scenario(
        "", [sel(), none2("f1")], [ps_list(C("sel", A, B, F2("f1"))), f1()],
        and_objects(call("ps", Bool, R, A, B), C("sel", A, B, F2("f1")).len() > X), LV))
    add("condition with every connective", lambda: Scenario(
        "", [total()], [cand("ps", Z == X, Z, X)],
        implies(or_objects((X < Y).Not(), A.len() == 1), and_objects(call("ps", Bool, Z, X), X // 2 + X % 3 >= Y * 2)),
        [A, X, Y, Z]))
    add("variables of every type", lambda: Scenario(
        "", [total(), fn_decl("fst", Int, Tuple((Int, Int), "tt")[0], Tuple((Int, Int), "tt"))],
        [cand("ps", and_objects(implies(Bool("bb"), Z == call("fst", Int, Tuple((Int, Int), "tt"))),
                                implies(Bool("bb").Not(), MA.len() == Z)), Z, Bool("bb"), Tuple((Int, Int), "tt"), MA)],
        vc_of(cand("ps", Z == Z, Z, Bool("bb"), Tuple((Int, Int), "tt"), MA)),
        [Bool("bb"), Tuple((Int, Int), "tt"), MA, X, Y, Z]))
    # -- axioms -------------------------------------------------------------
    ax_total = lambda: Axiom(implies(and_objects(p >= 0, p < v.len()),
                                     call("total", Int, v[:p]) == call("total", Int, v[:p]) + 0).src, v.src, p.src)
    add("axiom: first order", lambda: Scenario(
        "", [total(), ax_total()], [cand("ps", Z == call("total", Int, A), Z, A)],
        vc_of(cand("ps", Z == Z, Z, A)), [A, X, Y, Z], axioms=["total"]))
    ax_sel = lambda n="sel": Axiom((call(n, LI, v, w).len() < p).src, v.src, w.src, p.src)
    add("axiom: of a function that takes a function", lambda: Scenario(
        "", [sel(), none2("f1"), ax_sel()], [ps_list(C("sel", A, B, F2("f1"))), f1()], vc_of(ps_list(A)), LV))
    ax_msel = lambda: Axiom((call("msel", Matrix[Int], m, mm).len() < call("sel", LI, m[0], mm[0]).len() + p).src,
                            m.src, mm.src, p.src)
    add("axiom: of an indirect function", lambda: Scenario(
        "", [sel(), msel(), none2("f1"), ax_msel()], [ps_mat(CM("msel", MA, MB, F2("f1"))), f1()],
        vc_of(ps_mat(MA)), MV))
    return out


def p0(l):
    return ite(l.len() < 1, Int(0), l[0])


SC_LIST = None


def fresh_list(name, elem="int"):
    if elem == "int":
        return sv.new_list(name, LB, z3.Int)
    return sv.new_matrix(name, LB, LB)


def sym(t, name):
    if ir.is_matrix_type(t):
        return fresh_list(name, "list")
    if ir.is_list_type(t):
        return fresh_list(name)
    if "Tuple" in str(t):
        return sv.TV([z3.Int(name + "_0"), z3.Int(name + "_1")]), sv.T
    if getattr(t, "__name__", "") == "Bool":
        return z3.Bool(name), sv.T
    return z3.Int(name), sv.T


class Captured(Exception):
    pass


def run(sc, order, inperm):
    """The text the real code writes for this scenario."""
    d = os.path.join(mlenv.scratch(), f"w{os.getpid()}/")
    os.makedirs(d, exist_ok=True)
    stub = os.path.join(d, "solver.sh")
    if not os.path.exists(stub):
        open(stub, "w").write("#!/bin/sh\nexit 0\n")
        os.chmod(stub, os.stat(stub).st_mode | stat.S_IXUSR)
    lang = [sc.lang[i] for i in order]
    fns_type = SC.generate_types(lang)
    for c in sc.cands:
        fns_type[c.name()] = Fn[tuple[(c.return_type(), *[a.type for a in c.arguments()])]]
    cd = {c.name(): c.body() for c in sc.cands}
    real = SC.toSMT

    def permuted(tl, vars, inv, preds, vc, out, in_calls, fn_calls, synth=False):
        ic, fc = sorted(set(in_calls)), sorted(set(fn_calls))
        perms = list(itertools.permutations(ic))
        ic = list(perms[inperm % len(perms)])
        return real(tl, vars, inv, preds, vc, out, ic, fc if inperm % 2 == 0 else fc[::-1], synth)

    SC.toSMT = permuted
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            SC.verify_synth_result("t", lang, {x.src for x in sc.vars}, [], sc.vc.src,
                                   [c for c in sc.cands], stub, d, list(sc.cands), cd, fns_type, 0)
    finally:
        SC.toSMT = real
    return open(os.path.join(d, "t_0.smt")).read()


def body_only(text):
    """What was written after the shipped libraries."""
    n = sum(len(open(os.path.join(UT, f)).read()) for f in LIBS)
    return text[n:]


def cvc5_rejects(text):
    if not shutil.which("cvc5"):
        return None
    p = os.path.join(mlenv.scratch(), f"c{os.getpid()}.smt2")
    open(p, "w").write(text)
    # the real solver is run with --lang=smt and --produce-models
    rr = subprocess.run(["cvc5", "--lang=smt", "--produce-models", "--parse-only", p], capture_output=True, text=True)
    ck.count("cvc5 parse queries")
    o = rr.stdout + rr.stderr
    return o.strip()[:300] if "rror" in o else None


SEEN = set()


def examine(name, build, order, inperm):
    if name in SEEN:
        return
    n = len(ck.violations)
    examine_one(name, build, order, inperm)
    if len(ck.violations) > n:
        SEEN.add(name)


def examine_one(name, build, order, inperm):
    sc = build()
    key = f"{name} | order {order} | calls {inperm}"
    known_key = name
    rep = {"scenario": name, "order": list(order), "target_lang": [l.toSMT() if isinstance(l, Axiom) else
                                                                   f"{l.args[0]} = {l.args[1]}" for l in sc.lang],
           "candidates": [f"{c.name()} = {c.body()}" for c in sc.cands], "vc": str(sc.vc.src)}
    ck.obligation(False)
    try:
        text = run(sc, order, inperm)
    except Exception as e:
        ck.discharged += 1
        ck.violation(known_key, f"{name} (language order {list(order)}): no file is written, {type(e).__name__}: "
                     f"{str(e)[:150]}", rep)
        return
    rep["text"] = body_only(text)[-3000:]
    err = cvc5_rejects(text)
    if err:
        ck.discharged += 1
        ck.violation(known_key, f"{name} (language order {list(order)}): the file is not accepted, {err[:200]}", rep)
        return
    symx.STATS["paths"] += 1
    fresh = build()
    S = smtsem.SMTSem()
    S.decl, S.uf, S.sorts = dict(BASE.S.decl), dict(BASE.S.uf), dict(BASE.S.sorts)
    try:
        S.load(body_only(text))
    except (smtsem.SMTError, sx.ReadError) as e:
        ck.discharged += 1
        ck.violation(known_key, f"{name}: {e}", rep)
        return
    decls = {l.args[0]: l for l in fresh.lang if not isinstance(l, Axiom) and l.args[1] is not None}
    decls.update({c.name(): c for c in fresh.cands})
    env, cons = {}, []
    for x in fresh.vars:
        val, c = sym(x.type, x.src.name())
        env[x.src.name()] = val
        cons.append(c)
        if x.src.name() not in S.uf:
            ck.discharged += 1
            ck.violation(known_key, f"{name}: variable {x.src.name()} is not declared", rep)
            return
    I = irsem.IRSem(env=env, decls=decls, fuel=40, div="euclid")
    want = I.ev(fresh.vc.src)
    claim, extra = S.asserts[-1], S.asserts[:-1]
    saved = S.uf
    S.uf = {k: x for k, x in S.uf.items() if k not in env}
    S.env = dict(env)
    try:
        got = S.bool(claim, dict(env))
    except smtsem.SMTError as e:
        ck.discharged += 1
        ck.violation(known_key, f"{name}: the claim is not well formed: {e}", rep)
        return
    res, mod = symx.solve(*cons, *I.defs, want == got)
    if res == "unknown":
        return
    # exactly the given axioms
    axs = [l for l in fresh.lang if isinstance(l, Axiom)]
    ok = res == "unsat"
    if not ok:
        ck.discharged += 1
        ck.violation(known_key, f"{name} (language order {list(order)}): the condition is {sv.conc(want, mod)} but the "
                     f"asserted claim is {sv.conc(got, mod)} (not its negation) for "
                     f"{ {k: sv.conc(x, mod) for k, x in env.items()} }", rep)
        return
    if len(extra) != len(axs):
        ck.discharged += 1
        ck.violation(known_key, f"{name}: {len(extra)} further assertions for {len(axs)} axioms", rep)
        return
    for a, t in zip(axs, extra):
        if not axiom_same(a, t, S, decls, fresh):
            ck.discharged += 1
            ck.violation(known_key, f"{name}: the assertion {sx.show(t)[:200]} is not the axiom {a.toSMT()[:200]}", rep)
            return
    ck.discharged += 1
    ck.sample({"scenario": name, "written": body_only(text)[:600]})


def axiom_same(a, t, S, decls, sc):
    if not (isinstance(t, list) and t[0] == "forall"):
        return False
    env, cons = {}, []
    for x in a.vars():
        val, c = sym(x.type, x.args[0])
        env[x.args[0]] = val
        cons.append(c)
    if [b[0] for b in t[1]] != list(env):
        return False
    S.env = dict(env)
    try:
        got = S.bool(t[2], dict(env))
    except smtsem.SMTError:
        return False
    for f in [c.name() for c in sc.cands] + [None]:
        class I2(irsem.IRSem):
            def call(self, name, xs):
                d = self.decls.get(name)
                if d is not None and len(xs) < len(d.args) - 2 and f:
                    xs = xs + [sv.FV(lambda *ys: self.call(f, list(ys)), f)]
                return super().call(name, xs)

        I = I2(env=env, decls=decls, fuel=40, div="euclid")
        try:
            want = I.ev(a.e())
        except Exception:
            continue
        res, _ = symx.solve(*cons, *I.defs, want != got)
        if res == "unsat":
            return True
    return False


def item(i):
    name, build = SC_LIST[i]
    sc = build()
    n = len(sc.lang)
    orders = list(itertools.permutations(range(n)))
    if sc.orders:
        orders = orders[:sc.orders]
    if not ck.thorough and len(orders) > 6:
        orders = orders[:1] + orders[1::max(1, len(orders) // 5)]
    for o in orders:
        for k in range(4 if ck.thorough else 2):
            examine(name, build, o, k)


def main():
    global BASE, SC_LIST
    BASE = Base()
    SC_LIST = scenarios()
    ck.encoded(SC.verify_synth_result, SC.parse_candidates, smt_util.toSMT, smt_util.topological_sort,
               smt_util.get_direct_calls, smt_util.get_direct_in_calls, smt_util.filter_body, smt_util.filter_fn_args,
               smt_util.replace_fn_name, smt_util.replace_fn_name_with_in_call)
    ck.bounds = {"list length": LB, "matrix": f"{LB}x{LB}", "scenarios": len(SC_LIST),
                 "target language orders": "all" if ck.thorough else "up to 6 each",
                 "integers": "all"}
    ck.assumptions += ["the list library's functions have the standard list meaning (P13)",
                       "inputs on which the condition reads outside a list are left out"]
    ck.parallel(list(range(len(SC_LIST))), item)
    return ck.finish()


report.main(main)
