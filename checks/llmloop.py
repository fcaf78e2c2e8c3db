"""P16, LLMLift part: the real run_llm_synthesis_algorithm with the language model
and the verifier replaced by symbolic stand-ins.

The language model's answers (which of several good, wrong and unreadable texts it
gives at which turn) are choices forked by the path engine; the verifier's exit
status and output are symbolic.  Whenever the algorithm reports a solution, Z3 shows
that on this path the last file was answered "unsat", that in this file the
function of the postcondition is `output == what the printed answer computes`
(pysem, Python meaning) and the invariants are the ones of the last answer, and
that the file asks for exactly the verification condition (its negation in SMT).
"""
import contextlib
import io
import os
import shutil
import subprocess
import sys
import types

import mlenv
import mypyenv  # noqa: mypy from the build's environment
import ast

import z3

import irsem
import llmparse
import pysem
import rktsem
import smtsem
import sv
import sx
import symx
from metalift.frontend import llvm as FL
from metalift.ir import (Bool, Call, Expr, Fn, FnDecl, FnDeclRecursive, Int, List, Matrix, call, call_value, create_object, fn_decl,
                         fn_decl_recursive, implies, ite)
from metalift.vc_util import and_objects, or_objects

SL = None       # synthloop, set by attach()
_home = None
_L = None


def attach(synthloop):
    """Import the real modules from a scratch copy (they write next to themselves)."""
    global SL, _home, _L, _U, _P
    SL = synthloop
    d = os.path.join(mlenv.scratch(), "llm")
    os.makedirs(os.path.join(d, "metalift"))
    shutil.copytree(os.path.join(mlenv.REPO, "llmlift_scripts"), os.path.join(d, "llmlift_scripts"),
                    ignore=shutil.ignore_patterns("__pycache__", "verification_with_testing"))
    os.symlink(os.path.join(mlenv.REPO, "metalift", "utils"), os.path.join(d, "metalift", "utils"))
    for m in ("openai", "anthropic", "google", "google.generativeai", "dotenv"):
        sys.modules.setdefault(m, types.ModuleType(m))
    sys.modules["openai"].OpenAI = lambda **k: None
    sys.modules["anthropic"].Anthropic = lambda **k: None
    sys.modules["dotenv"].load_dotenv = lambda *a, **k: None
    sys.modules["google"].generativeai = sys.modules["google.generativeai"]
    os.environ["BITWUZLA_PATH"] = "/bin/false"
    _home = (os.getpid(), d)
    here = os.getcwd()
    os.chdir(d)
    sys.path.insert(0, d)
    import llmlift_scripts.parser as P
    import llmlift_scripts.synthesis as L
    import llmlift_scripts.utils as U
    # the reader writes the functions of the target language; every process then
    # reads its own copy of what is written here
    P.check_solution(solution="def f(x: int) -> int:\n    return inc(x)\n", expected_num_funcs=1,
                     dsl_code="\n\n".join(f.to_python() for f in dsl()), lambda_exprs={}, arg_name_to_count={})
    os.chdir(here)
    # copied from here: the workers' runs rewrite dsl.py in d
    shutil.copytree(d, d + ".start", symlinks=True)
    _home = (os.getpid(), d, d + ".start")
    assert os.path.realpath(L.__file__).startswith(os.path.realpath(d)), L.__file__
    _L, _U, _P = L, U, P
    return L


def home():
    """The directory to run in: a copy per process, mypy caches in it."""
    global _home
    if _home[0] != os.getpid():
        d = f"{_home[1]}.{os.getpid()}"
        shutil.copytree(_home[2], d, symlinks=True)
        _home = (os.getpid(), d, d)
    return _home[1]


_parsed = {}


def remember(real):
    """mypy's reading of a text does not change: read every text once."""
    def parse(code, n=1):
        k = (code, n)
        if k not in _parsed:
            try:
                _parsed[k] = real(code, n), None
            except Exception as ex:
                _parsed[k] = None, ex
        r, ex = _parsed[k]
        if ex is not None:
            raise ex
        return r
    return parse


# -- problems ------------------------------------------------------------------
class Prob:
    def __init__(self, name, dsl, vars, asserts, loop, output, ps, inv, axioms=None, params=None):
        self.name, self.dsl, self.vars, self.asserts, self.loop, self.output = name, dsl, vars, asserts, loop, output
        self.ps, self.inv, self.axioms = ps, inv, axioms or {}
        self.params = params    # of the source function, in its order (default: sorted)


def dsl():
    x, k, l, m = Int("x"), Int("k"), List(Int, "l"), Matrix(Int, "m")
    f = Fn((Int, Int), "f")
    l2 = List(Int, "l2")
    return [
        fn_decl("inc", Int, x + 1, x),
        fn_decl_recursive("tot", Int, ite(l.len() < 1, Int(0), l[0] + call("tot", Int, l[1:])), l),
        fn_decl_recursive("vadd", List[Int], ite(l.len() < 1, List.empty(Int), call("vadd", List[Int], l[1:], k).prepend(l[0] + k)), l, k),
        fn_decl_recursive("vsub", List[Int], ite(or_objects(l.len() < 1, l2.len() < 1), List.empty(Int), call(
            "vsub", List[Int], l[1:], l2[1:]).prepend(l[0] - l2[0])), l, l2),
        fn_decl_recursive("mapi", List[Int], ite(l.len() < 1, List.empty(Int), call("mapi", List[Int], l[1:], f).prepend(
            call_value(f, l[0]))), l, f),
        fn_decl_recursive("madd", Matrix[Int], ite(m.len() < 1, Matrix.empty(Int), call("madd", Matrix[Int], m[1:], k).prepend(
            call("vadd", List[Int], m[0], k))), m, k),
    ]


def ps_answers(head, exprs):
    return [f"\n{head}\n    return {e}\n" for e in exprs]


def problems():
    U = _U
    a, k, i, out = List(Int, "a"), Int("k"), Int("i"), List(Int, "out")
    s, m, mo, row, j = Int("s"), Matrix(Int, "m"), Matrix(Int, "mo"), List(Int, "row"), Int("j")
    r = []

    def single():
        inv = lambda i_, o_: call("addk_inv0", Bool, a, i_, k, o_)
        vc = [inv(Int(0), List.empty(Int)),
              implies(and_objects(inv(i, out), i < a.len()), inv(i + 1, List(Int, "out").append(a[i] + k))),
              implies(and_objects(inv(i, out), (i < a.len()).Not()), call("addk_ps", Bool, a, k, out))]
        h = "def addk(a: List[int], k: int) -> List[int]:"
        g = "def invariant(a: List[int], i: int, k: int, out: List[int]) -> bool:"
        return Prob("addk", dsl(), [a, k, i, out], vc, U.SingleLoopInfo(i, [a, k], [out]), List(Int, "out"),
                    ps_answers(h, ["vadd(a, k)", "vadd(vadd(a, 1), k - 1)", "a"]) + ["\ndef addk(a, k):\n    return a\n"],
                    ps_answers(g, ["i >= 0 and i <= len(a) and out == vadd(a[:i], k)", "i >= 0", "out == vadd(a, i) or i > tot(a)"])
                    + ["\ndef invariant(a: List[int]):\n    pass\n"])

    def maps():
        inv = lambda i_, o_: call("sq_inv0", Bool, a, i_, o_)
        vc = [implies(a.len() > 0, inv(Int(0), Int(0))),
              implies(and_objects(inv(i, s), i < a.len()), inv(i + 1, s + a[i] * 2)),
              implies(and_objects(inv(i, s), (i < a.len()).Not()), call("sq_ps", Bool, a, s))]
        h = "def sq(a: List[int]) -> int:"
        g = "def invariant(a: List[int], i: int, s: int) -> bool:"
        return Prob("sq", dsl(), [a, i, s], vc, U.SingleLoopInfo(i, [a], [s]), Int("s"),
                    ps_answers(h, ["tot(mapi(a, lambda x: x + x))", "tot(mapi(a, lambda y: y * 3))", "tot(a) * 2"]),
                    ps_answers(g, ["i >= 0 and i <= len(a) and s == tot(mapi(a[:i], lambda x: x + x))",
                                   "s == tot(mapi(a, lambda x: x - 1))",
                                   "s == tot(a[:i]) + tot(mapi(a[:i], inc)) - i", "s == tot(a[:i]"]))

    def double():
        # no row of the lists here is longer than another
        inv0 = lambda i_, o_: call("mk_inv0", Bool, i_, k, m, o_)
        inv1 = lambda j_, r_: call("mk_inv1", Bool, i, j_, k, m, mo, r_)
        vc = [implies(m.len() > 0, inv0(Int(0), Matrix.empty(Int))),
              implies(and_objects(inv0(i, mo), i < m.len()), inv1(Int(0), List.empty(Int))),
              implies(and_objects(inv1(j, row), i < m.len(), j < m[0].len()), inv1(j + 1, List(Int, "row").append(m[i][j] + k))),
              implies(and_objects(inv1(j, row), i < m.len(), (j < m[0].len()).Not()), inv0(i + 1, Matrix(Int, "mo").append(row))),
              implies(and_objects(inv0(i, mo), (i < m.len()).Not()), call("mk_ps", Bool, k, m, mo))]
        h = "def mk(m: List[List[int]], k: int) -> List[List[int]]:"
        g1 = "def invariant1(i: int, k: int, m: List[List[int]], mo: List[List[int]]) -> bool:"
        g2 = "def invariant2(i: int, j: int, k: int, m: List[List[int]], mo: List[List[int]], row: List[int]) -> bool:"
        e1 = ["i >= 0 and i <= len(m) and mo == madd(m[:i], k)", "i >= 0 and mo == m"]
        e2 = ["i >= 0 and i < len(m) and j >= 0 and j <= len(m[0]) and row == vadd(m[i][:j], k) and mo == madd(m[:i], k)",
              "j >= 0 and row == m[0]"]
        both = [f"\n{g1}\n    return {x}\n\n{g2}\n    return {y}\n" for x, y in zip(e1, e2)]
        both.append(f"\n{g2}\n    return {e2[1]}\n\n{g1}\n    return {e1[0]}\n")
        return Prob("mk", dsl(), [i, j, k, m, mo, row], vc, U.DoubleLoopInfo(i, j, [m, k], [m, k], [mo], [row, mo]), Matrix(Int, "mo"),
                    ps_answers(h, ["madd(m, k)", "madd(madd(m, 2), k)"]), both + [f"\n{g1}\n    return {e1[0]}\n"])

    def order():
        # the source function is sub(b, a): the condition has its arguments sorted by name
        b = List(Int, "b")
        inv = lambda i_, o_: call("sub_inv0", Bool, a, b, i_, o_)
        vc = [inv(Int(0), List.empty(Int)),
              implies(and_objects(inv(i, out), i < a.len()), inv(i + 1, List(Int, "out").append(b[i] - a[i]))),
              implies(and_objects(inv(i, out), (i < a.len()).Not()), call("sub_ps", Bool, a, b, out))]
        h = "def sub(b: List[int], a: List[int]) -> List[int]:"
        g = "def invariant(a: List[int], b: List[int], i: int, out: List[int]) -> bool:"
        return Prob("sub", dsl(), [a, b, i, out], vc, U.SingleLoopInfo(i, [a, b], [out]), List(Int, "out"),
                    ps_answers(h, ["vsub(b, a)", "vsub(vadd(b, 1), vadd(a, 1))"])
                    + ["\ndef sub(p: List[int], q: List[int]) -> List[int]:\n    return vsub(p, q)\n",
                       "\ndef sub(p: List[int], q: List[int]) -> List[int]:\n    return vsub(q, p)\n",
                       "\ndef sub(a: List[int], b: List[int]) -> List[int]:\n    return vsub(b, a)\n"],
                    ps_answers(g, ["i >= 0 and i <= len(a) and out == vsub(b[:i], a[:i])"]), params=["b", "a"])

    return [("single loop", single), ("functions passed on", maps), ("two loops", double), ("argument order", order)]


def calls(e):
    if isinstance(e, Call):
        yield e
    for a in getattr(e, "args", []):
        if isinstance(a, Expr):
            yield from calls(a)


# -- one run ---------------------------------------------------------------------
class Run:
    def __init__(self, path, build, method, tries, reorder):
        self.p, self.pr, self.method, self.tries, self.reorder = path, build(), method, tries, reorder
        self.last = {}

    def answer(self, model, messages):
        kind = "inv" if "invariant" in messages[0]["content"] else "ps"
        texts = getattr(self.pr, kind)
        t = texts[self.p.choice(len(texts), kind)]
        self.last[kind] = t
        return t

    def list_(self, x=()):
        x = list(x)
        if len(x) > 1 and self.reorder and isinstance(x[0], (FnDecl, FnDeclRecursive)) and self.p.choice(2, "order"):
            x.reverse()
        return x

    def go(self, w):
        pr, L = self.pr, _L
        drv = FL.Driver()
        drv.add_var_objects(list(pr.vars))
        drv.asserts = list(pr.asserts)
        ps = next(c for x in pr.asserts for c in calls(x.src) if c.name() == f"{pr.name}_ps")
        ins = [create_object(v.type, v.name()) for v in ps.arguments()]
        drv.pred_tracker.postcondition(pr.name, ins[-1:], ins[:-1], [], None)
        saved = L.get_solution_from_llm, _P.mypy_parse, L.__dict__.get("list")
        L.get_solution_from_llm, _P.mypy_parse, L.list = self.answer, remember(_P.mypy_parse), self.list_
        run, here = subprocess.run, os.getcwd()
        subprocess.run = w.verify
        os.chdir(home())
        printed = io.StringIO()
        try:
            with contextlib.redirect_stdout(printed):
                L.run_llm_synthesis_algorithm(
                    driver=drv, loop_info=pr.loop, output_var=pr.output, source_code="int f() {\n  return out;\n}\n",
                    benchmark_name=pr.name, llm_model=L.LLMModel.GPT, dsl_fns=list(pr.dsl), dsl_fn_name_to_axioms=pr.axioms,
                    max_num_ps_sols=self.tries[0], max_num_inv_sols=self.tries[1],
                    verification_method=getattr(L.VerificationMethod, self.method))
        finally:
            subprocess.run = run
            os.chdir(here)
            L.get_solution_from_llm, _P.mypy_parse = saved[:2]
            if saved[2] is None:
                del L.list
            else:
                L.list = saved[2]
        return printed.getvalue().split("Found PS solution\n", 1)[1]


# -- what a run reports -------------------------------------------------------------
class Sem:
    """The meaning of an answer's functions, from its Python text."""

    def __init__(self, pr, texts):
        self.I = irsem.IRSem(decls={f.name(): f for f in pr.dsl}, fuel=20, div="euclid")
        self.py = llmparse.Py(fns={f.name(): (lambda *xs, n=f.name(): self.I.call(n, list(xs))) for f in pr.dsl})
        self.fns = {}
        names = {pr.name: f"{pr.name}_ps", "invariant": f"{pr.name}_inv0", "invariant1": f"{pr.name}_inv0", "invariant2": f"{pr.name}_inv1"}
        for t in texts:
            for f in ast.parse(t).body:
                n = names[f.name]
                val = lambda xs, f=f: self.py.run(f, list(xs))[0]
                names_ = [x.arg for x in f.args.args]
                if f.name == pr.name:
                    # the condition passes the arguments sorted by name; an answer that
                    # keeps the names may reorder them, otherwise positions count
                    src = pr.params or sorted(names_)
                    at = sorted(src)
                    take = names_ if sorted(names_) == at else src

                    self.fns[n] = (f, lambda *xs, v=val, at=at, take=take: sv.eq(xs[-1], v([dict(zip(at, xs))[t] for t in take])))
                else:
                    at = sorted(names_)
                    self.fns[n] = (f, lambda *xs, v=val, at=at, take=names_: v([dict(zip(at, xs))[t] for t in take]))


def args_of(f, name, pr):
    env, cons = {}, []
    for a in sorted(f.args.args, key=lambda a: a.arg):
        t = ast.unparse(a.annotation)
        T = {"int": Int, "List[int]": List[Int], "List[List[int]]": Matrix[Int]}[t]
        env[a.arg], c = SL.sym(T, a.arg)
        cons.append(c)
    if name.endswith("_ps"):
        env["output"], c = SL.sym(pr.output.src.type, "output")
        cons.append(c)
    return env, cons


BAD = (sv.SortMismatch, irsem.Unsupported, smtsem.SMTError, rktsem.RktError, sx.ReadError, pysem.PyErr, KeyError, TypeError, AttributeError,
       IndexError, z3.Z3Exception)


def differs(pr, method, text, printed, inv):
    """What the verified file says that the answers do not."""
    try:
        if method == "SMT":
            B = SL.smt_base()
            T = SL.load_after(B, text[B.size:])
            app = lambda n, xs: T.app(n, xs, {}) if n in T.decl else None
            errs = []
        else:
            R = rktsem.RktSem()
            R.defs = dict(SL.rkt_base().defs)
            forms = sx.read(text.split("#lang rosette", 1)[1])
            mine, ask = set(), []
            for f in forms:
                if f[0] in ("define", "define-bounded") and isinstance(f[1], list):
                    if f[1][0] in mine:
                        return f"{f[1][0]} is defined twice"
                    mine.add(f[1][0])
                    R.defs.pop(f[1][0], None)
                    R.toplevel(f)
                elif f[0] == "define" and f[1] == "vc":
                    ask.append(f[2])
            app = lambda n, xs: R.app(n, xs, {}) if n in R.defs else None
    except BAD as e:
        return f"the file is malformed: {e!r}"
    sem = Sem(pr, [printed, inv])
    for n, (f, mean) in sem.fns.items():
        env, cons = args_of(f, n, pr)
        xs = list(env.values())
        try:
            if method != "SMT":
                R.errs, R.env = [], {}
            sem.py.errs = []
            got, want = app(n, xs), mean(*xs)
            if got is None:
                return f"{n} is not in the file"
            bad = sv.Not(sv.eq(got, want))
        except BAD as e:
            return f"{n} cannot be compared: {e!r}"
        st, mo = symx.solve(*cons, *sem.I.defs, *[sv.Not(e) for e in sem.py.errs], *([] if method == "SMT" else [sv.Not(e) for e in R.errs]), bad)
        if st == "sat":
            return (f"{n} in the file is {sv.conc(got, mo)} where the answer is {sv.conc(want, mo)}, at "
                    f"{ {k: sv.conc(v, mo) for k, v in env.items()} }")
        if st == "unknown":
            raise RuntimeError("unknown")
    # the question
    env, cons = {}, []
    for v in pr.vars:
        env[v.src.name()], c = SL.sym(v.src.type, v.src.name())
        cons.append(c)
    sem.py.errs = []
    I = irsem.IRSem(env=env, decls={f.name(): f for f in pr.dsl}, fns={n: m for n, (_, m) in sem.fns.items()}, fuel=20, div="euclid")
    try:
        want = sv.T
        for x in pr.asserts:
            want = sv.And(want, I.ev(x.src))
        if method == "SMT":
            if not T.asserts:
                return "nothing is asserted"
            T.uf = {k: x for k, x in T.uf.items() if k not in env}
            got, q = T.bool(T.asserts[-1], dict(env)), T.asserts[-1]
            bad = want == got
        else:
            if len(ask) != 1 or ask[0][:1] != ["verify"] or ask[0][1][0] != "assert":
                return "the file does not ask for one verification"
            R.errs, q = [], ask[0][1][1]
            got = R.ev(q, dict(env))
            bad = want != got
    except BAD as e:
        return f"the question cannot be compared: {e!r}"
    st, mo = symx.solve(*cons, *sem.I.defs, *I.defs, *[sv.Not(e) for e in sem.py.errs], *([] if method == "SMT" else [sv.Not(e) for e in R.errs]), bad)
    if st == "sat":
        return (f"the file asks {sx.show(q)[:300]}: {sv.conc(got, mo)} where the condition is {sv.conc(want, mo)}, at "
                f"{ {k: sv.conc(v, mo) for k, v in env.items()} }")
    if st == "unknown":
        raise RuntimeError("unknown")
    return None


_differs = {}


def one(ck, path, name, build, method, tries, reorder):
    w = SL.World(path, 1)
    run = Run(path, build, method, tries, reorder)
    try:
        printed = run.go(w)
    except symx.PathAbort:
        return
    except Exception as e:
        ck.obligation()
        ck.count("no solution" if str(e) == "No correct solution found" else f"stops: {type(e).__name__}")
        return
    log = [f"{a}={b}" for a, b in path.log]
    rep = {"problem": name, "method": method, "choices": log, "ps": run.last.get("ps"), "inv": run.last.get("inv")}
    where = f"LLMLift, {name}, {method} ({', '.join(log)})"
    ck.obligation(False)
    if not w.calls:
        ck.discharged += 1
        ck.violation(f"llm {name} {method}: unverified", f"{where}: a solution is reported although the verifier never ran", rep)
        return
    text, rc, first = w.calls[-1]
    ok = SL.UNSAT if method == "SMT" else z3.Concat(z3.Star(SL.WS), z3.Re("(unsat)"), z3.Star(SL.WS))
    st, m = symx.solve(*path.pc, z3.Not(z3.InRe(first, ok)))
    if st == "unknown":
        return
    ck.discharged += 1
    if st == "sat":
        ans = [(m.eval(r, model_completion=True).as_long(), m.eval(f, model_completion=True).as_string() + "\n") for _, r, f in w.calls]
        ck.replays += 1
        fx = SL.Fixed([e for e in path.log if e[0]])
        w2 = SL.World(fx, 1)
        w2.forced = ans
        try:
            again = bool(Run(fx, build, method, tries, reorder).go(w2))
        except Exception:
            again = False
        ck.violation(f"llm {name} {method}: not unsat", f"{where}: a solution is reported although the verifier answered {ans[-1][1]!r} with "
                     f"exit status {ans[-1][0]} (replayed: {'reported again' if again else 'not reported'})", {**rep, "answers": ans})
        return
    ck.obligation(False)
    ck.count(f"llm reported: {name}")
    printed = printed.rstrip("\n") + "\n"
    k = (name, method, text, printed, run.last["inv"])
    if k not in _differs:
        _differs[k] = differs(run.pr, method, text, printed, run.last["inv"])
    ck.discharged += 1
    if _differs[k]:
        ck.violation(f"llm {name} {method}: file", f"{where}: what was verified is not what is reported: {_differs[k]}; reported {printed!r}, "
                     f"invariant {run.last['inv']!r}", {**rep, "file": text[-3000:]})
    ck.sample({"problem": name, "method": method, "path": log})


def item(ck, i, method, tries, reorder):
    name, build = problems()[i]
    ck.encoded(_L.run_llm_synthesis_algorithm, _L.verify_benchmark_smt, _L.verify_benchmark_rosette, _L.process_synthesized_fn_decls,
               _L.process_ps_fn_decl, _L.replace_in_call, _L.process_dsl_fns_for_smt, _L.process_dsl_fns_for_rosette)
    n, done = symx.explore(lambda p: one(ck, p, name, build, method, tries, reorder), limit=6000)
    ck.count("llm paths", n)
    if not done:
        ck.count("explorations cut off")


def items(thorough):
    out = []
    for i in range(4):
        for method in ("SMT", "ROSETTE"):
            out += [("llm", i, method, (1, 1), True), ("llm", i, method, (1, 2), False), ("llm", i, method, (2, 1), False)]
            if thorough:
                out += [("llm", i, method, (1, 3), False), ("llm", i, method, (2, 2), False), ("llm", i, method, (2, 1), True)]
    return out
