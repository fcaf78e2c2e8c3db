"""P16 (and the second part of P09): the real guess-and-verify loops, with the
synthesiser and the verifier replaced by symbolic stand-ins.

The real synthesize_rosette.synthesize, synthesize_cvc5.synthesize and the
LLMLift verification functions run on small synthesis problems.  What the
synthesiser process does (which alternatives it picks in which round, failures,
exit codes, when its answer appears) and what the verifier process does (its
exit status and its output, symbolic values) are symbolic: every branch the code
takes on them is decided and forked by the solver.  At the end of every path:

 * P16: if candidates were returned, Z3 shows that on this path the verifier's
   answer to the last file was "unsat" whatever the symbolic values are, that the
   file contains exactly the returned candidates (same value for every argument),
   and that the path's earlier answers were not "unsat";
 * P09: every returned candidate has the meaning of the Rosette text that the
   synthesiser printed for it, for every argument value.
"""
import contextlib
import io
import itertools
import os
import subprocess
import sys
import time
import types

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mlenv
import z3
import gen
import irsem
import report
import rktsem
import smtsem
import sv
import sx
import symx
from metalift import ir, synthesis_common as SC, synthesize_cvc5 as S5, synthesize_rosette as SR
from metalift.ir import (Bool, Fn, FnDeclRecursive, Int, List, Matrix, Set, Synth, Tuple, call, call_value, choose, fn_decl,
                         fn_decl_recursive, implies, ite)
from metalift.vc_util import and_objects, or_objects

LB = 2
UT = os.path.join(mlenv.REPO, "metalift", "utils")


# -- problems ----------------------------------------------------------------
class Problem:
    def __init__(self, name, lang, synths, vars, vc, invps=None, **kw):
        self.name, self.lang, self.synths, self.vars, self.vc, self.kw = name, lang, synths, vars, vc, kw
        self.invps = invps if invps is not None else synths  # the ones with a loop or postcondition


def S(name, body, *args):
    return Synth(name, (body.src if hasattr(body, "src") else body), *[a.src for a in args])


def problems():
    x, y, o, z = Int("x"), Int("y"), Int("o"), Int("z")
    a, l, r = List(Int, "a"), List(Int, "l"), List(Int, "r")
    m, n = Matrix(Int, "m"), Matrix(Int, "n")
    b = Bool("b")
    st = Set(Int, "st")
    t = Tuple((Int, Int), "t")
    inc = lambda: fn_decl("inc", Int, Int("x") + 1, Int("x"))
    tot = lambda: fn_decl_recursive("tot", Int, ite(l.len() < 1, Int(0), call("tot", Int, l[1:]) + l[0]), l)
    fobj = Fn((Int, Int, Int), "fa")
    sel = lambda: fn_decl_recursive("sel", List[Int], ite(
        or_objects(l.len() < 1, r.len() != l.len()), List.empty(Int),
        call("sel", List[Int], l[1:], r[1:], fobj).prepend(call_value(fobj, l[0], r[0]))), l, r, fobj)
    out = []

    def add(name, f):
        out.append((name, f))

    def nested():
        c = choose(Int(0), Int(-1), x)
        d = choose(c + y, c * 2, call("inc", Int, x))
        return Problem("", [inc(), tot()], [S("ps", o == d, o, x, y),
                                             S("inv0", and_objects(x >= c, choose(x <= y, x < l.len())), x, y, l),
                                             S("inv1", x > 0, x)], [x, y, o, l],
                       implies(call("inv0", Bool, x, y, l), and_objects(call("ps", Bool, o, x, y), call("inv1", Bool, x))))

    add("nested alternatives", nested)

    def single():
        c = choose(Int(5))
        return Problem("", [inc()], [S("ps", o == choose(c + x, c), o, x), S("inv0", x > choose(choose(y, x)), x, y)],
                       [x, y, o], and_objects(call("ps", Bool, o, x), call("inv0", Bool, x, y)))

    add("alternatives with one element", single)

    def single2():
        return Problem("", [inc()], [S("ps", o == choose(choose(x)) + choose(choose(choose(Int(2)))), o, x),
                                     S("inv0", choose(choose(x > choose(y))), x, y)],
                       [x, y, o], and_objects(call("ps", Bool, o, x), call("inv0", Bool, x, y)))

    add("one alternative of one alternative", single2)

    def single3():
        one = choose(choose(choose(Int(2))))
        four = choose(choose(choose(choose(x + y))))
        return Problem("", [inc()], [S("ps", o == choose(x, y) + one + four, o, x, y),
                                     S("inv0", and_objects(choose(x > one, x < y), choose(choose(choose(y > x)))), x, y)],
                       [x, y, o], and_objects(call("ps", Bool, o, x, y), call("inv0", Bool, x, y)))

    add("chains of one alternative besides a choice", single3)

    def nochoice():
        return Problem("", [inc()], [S("ps", o == call("inc", Int, x), o, x),
                                     S("inv0", and_objects(l == a, x > 1), x, l, a), S("inv1", l == a[1:], l, a)],
                       [x, o, l, a], and_objects(call("ps", Bool, o, x), call("inv0", Bool, x, l, a), call("inv1", Bool, l, a)))

    add("no alternatives anywhere", nochoice)

    def mixed():
        return Problem("", [inc()], [S("ps", o == choose(x, y), o, x, y), S("inv0", x > choose(Int(3)), x)],
                       [x, y, o], and_objects(call("ps", Bool, o, x, y), call("inv0", Bool, x)))

    add("one function without alternatives", mixed)

    def lists():
        e = choose(l, a, a[1:], a[:x], List(Int, "l").append(x), List(Int, "l").prepend(y), List.empty(Int))
        return Problem("", [tot()], [S("ps", r == choose(e, e + a), r, l, a, x, y),
                                     S("inv0", and_objects(choose(x >= 0, x + 1 < a.len()), choose(r == e, r.len() == 0)), r, l, a, x, y)],
                       [x, y, l, a, r], and_objects(call("ps", Bool, r, l, a, x, y), call("inv0", Bool, r, l, a, x, y)))

    add("lists", lists)

    def matrices():
        e = choose(m, m[1:], m[:x], Matrix(Int, "m").append(l), Matrix.empty(Int))
        return Problem("", [inc()], [S("ps", n == e, n, m, l, x), S("inv0", choose(l == m[x], x < m.len(), m[0][x] > y), l, m, x, y)],
                       [x, y, l, m, n], and_objects(call("ps", Bool, n, m, l, x), call("inv0", Bool, l, m, x, y)))

    add("matrices", matrices)

    def bools():
        f = choose(Bool(True), Bool(False), x > y)
        return Problem("", [inc()], [S("ps", o == ite(f, ite(choose(Bool(True), b), x, y), y + 1), o, x, y, b),
                                     S("inv0", or_objects(and_objects(f, x <= y), b.Not()), x, y, b)],
                       [x, y, o, b], and_objects(call("ps", Bool, o, x, y, b), call("inv0", Bool, x, y, b)))

    add("conditions that become constant", bools)

    def flag():
        return Problem("", [fn_decl("flag", Bool, None)],
                       [S("ps", o == ite(call("flag", Bool), x, choose(y, y + 1)), o, x, y), S("flag", choose(Bool(False), Bool(True)))],
                       [x, y, o], call("ps", Bool, o, x, y), invps=1)

    add("synthesised function without arguments", flag)

    def called():
        return Problem("", [fn_decl("g", Int, None, x, y)],
                       [S("ps", o == call("g", Int, x, choose(y, x)), o, x, y), S("g", choose(x + y, x - y, ite(x > y, x, y)), x, y)],
                       [x, y, o], call("ps", Bool, o, x, y), invps=1)

    add("synthesised function calling another", called)

    def ho():
        f1 = Fn((Int, Int, Int), "f1")
        return Problem("", [sel(), fn_decl("f1", Int, None, x, y)],
                       [S("ps", a == call("sel", List[Int], choose(l, r), r, f1), a, l, r), S("f1", choose(x + y, x * 2 - y), x, y)],
                       [a, l, r], call("ps", Bool, a, l, r), invps=1)

    add("function passed to a function", ho)

    def tuples():
        return Problem("", [inc()], [S("ps", o == choose(t[0], t[1], t[0] + t[1]), o, t), S("inv0", choose(t[0] > x, t[1] <= x), t, x)],
                       [x, o, t], and_objects(call("ps", Bool, o, t), call("inv0", Bool, t, x)))

    add("tuples", tuples)

    def names():
        d, ps2 = Int("defined"), Int("v0")
        return Problem("", [inc()], [S("ps", o == choose(d, ps2, ps2 + d), o, d, ps2), S("ps_inv0", choose(d < ps2, d > ps2), d, ps2)],
                       [o, d, ps2], and_objects(call("ps", Bool, o, d, ps2), call("ps_inv0", Bool, d, ps2)))

    add("names that look like keywords and holes", names)

    s, u = Set(Int, "s"), Set(Int, "u")

    def sets():
        e = choose(s, u, Set.empty(Int), Set(Int, "s").add(x), Set.singleton(y))
        return Problem("", [], [S("ps", s == choose(e, e.union(u), e.difference(u)), s, u, x, y),
                                S("inv0", choose(Bool(True), x.src and call("set-member", Bool, x, u)), u, x)],
                       [x, y, s, u], and_objects(call("ps", Bool, s, u, x, y), call("inv0", Bool, u, x)))

    add("sets", sets)
    return out


# -- the synthesiser's text ---------------------------------------------------
class Grammars:
    """The grammars in the file the real code wrote for Rosette."""

    def __init__(self, text):
        self.g, self.params = {}, {}
        for f in sx.read(text.split("#lang rosette", 1)[1]):
            if isinstance(f, list) and f and f[0] == "define-grammar":
                self.g[f[1][0]] = {d[0]: d[1] for d in f[2:]}
            if isinstance(f, list) and f[:1] == ["define"] and isinstance(f[1], list) and isinstance(f[2], list) \
                    and f[2] and f[2][0] == f"{f[1][0]}_gram":
                self.params[f[1][0]] = f[1][1:]

    def solution(self, name, choose, keep):
        """The body with every hole filled; None when there is no hole at all.
        keep: alternatives of one element stay as the grammar call."""
        g = self.g[f"{name}_gram"]
        picked = [False]

        def nt(x):
            body = g[x]
            if isinstance(body, list) and body and body[0] == "choose":
                alts = body[1:]
                if len(alts) == 1:
                    return alts[0]
                picked[0] = True
                return alts[choose(x, len(alts))]
            return body

        def fixed(x):
            """No alternatives below x."""
            body = g[x]
            if isinstance(body, list) and body[:1] == ["choose"] and len(body) > 2:
                return False
            return all(fixed(y) for y in refs(body))

        def refs(e):
            if isinstance(e, list):
                if len(e) == 1 and e[0] in g:
                    return [e[0]]
                return [r for x in e for r in refs(x)]
            return []

        def fill(e):
            if isinstance(e, list):
                if len(e) == 1 and isinstance(e[0], str) and e[0] in g:
                    return e if keep and fixed(e[0]) else fill(nt(e[0]))
                return [fill(x) for x in e]
            return e

        body = fill(nt("rv"))
        return body if picked[0] else None

    def meaning(self, name):
        """The body when there was nothing to choose."""
        def first(_, n):
            return 0
        g = self.g[f"{name}_gram"]

        def fill(e):
            if isinstance(e, list):
                if len(e) == 1 and isinstance(e[0], str) and e[0] in g:
                    return fill(g[e[0]])
                if e and e[0] == "choose":
                    return fill(e[1])
                return [fill(x) for x in e]
            return e
        return fill(g["rv"])

    def full(self, name, e):
        """e with remaining grammar calls replaced by what they stand for."""
        g = self.g[f"{name}_gram"]
        if isinstance(e, list):
            if len(e) == 1 and isinstance(e[0], str) and e[0] in g:
                b = g[e[0]]
                return self.full(name, b[1] if isinstance(b, list) and b[:1] == ["choose"] else b)
            return [self.full(name, x) for x in e]
        return e


def racket_print(defs, style):
    out = ["#t"]
    for i, (name, params, body) in enumerate(defs):
        out.append(f"/somewhere/synthesisLogs/t.rkt:{20 + i}:0")
        head = f"'(define ({' '.join([name, *params])})"
        if style == 0:
            out.append(f"{head} {sx.show(body)})")
        else:
            out += [head, *("   " + ln for ln in sx.show(body).replace(" (", "\n(").split("\n"))]
            out[-1] += ")"
    return "\n".join(out) + "\n"


# -- symbolic process results -------------------------------------------------
WS = z3.Union(z3.Re(" "), z3.Re("\t"), z3.Re("\r"))


class SymStr(str):
    """A string whose value is a Z3 term; what cannot be expressed is unsupported
    and makes the path concrete (the witness)."""

    def __new__(cls, term, witness=""):
        s = str.__new__(cls, witness)
        s.term = term
        return s

    def _of(self, o):
        return o.term if isinstance(o, SymStr) else z3.StringVal(o)

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return symx.cur().branch(self.term == self._of(o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash("sym")

    def __contains__(self, o):
        return symx.cur().branch(z3.Contains(self.term, self._of(o)))

    def __bool__(self):
        return symx.cur().branch(z3.Length(self.term) > 0)

    def startswith(self, o, *a):
        return symx.cur().branch(z3.PrefixOf(self._of(o), self.term))

    def endswith(self, o, *a):
        return symx.cur().branch(z3.SuffixOf(self._of(o), self.term))

    def strip(self, *a):
        p = symx.cur()
        p.nstrip = getattr(p, "nstrip", 0) + 1
        t, b, e = (z3.String(f"strip{p.nstrip}{k}") for k in "tbe")
        p.assume(z3.And(self.term == z3.Concat(b, t, e), z3.InRe(b, z3.Star(WS)), z3.InRe(e, z3.Star(WS)),
                        *[z3.And(z3.Not(z3.PrefixOf(z3.StringVal(w), t)), z3.Not(z3.SuffixOf(z3.StringVal(w), t)))
                          for w in " \t\r"]))
        return SymStr(t)

    rstrip = lstrip = strip

    def encode(self, *a):
        return SymBytes(self)


class SymOutput(SymStr):
    """Several lines: the first, and what follows."""

    def __new__(cls, first, rest):
        s = SymStr.__new__(cls, z3.Concat(first, z3.StringVal("\n"), rest))
        s.first, s.rest = first, rest
        return s

    def split(self, sep=None, maxsplit=-1):
        if sep == "\n":
            return [SymStr(self.first), SymStr(self.rest)]
        return [SymStr(self.first), SymStr(self.rest)]

    def splitlines(self, *a):
        return [SymStr(self.first), SymStr(self.rest)]

    def partition(self, sep):
        return SymStr(self.first), "\n", SymStr(self.rest)


class SymBytes:
    def __init__(self, s):
        self.s = s

    def decode(self, *a, **k):
        return self.s

    def splitlines(self):
        return [SymBytes(x) for x in self.s.splitlines()]

    def split(self, *a):
        return [SymBytes(x) for x in self.s.split("\n")]

    def strip(self):
        return SymBytes(self.s.strip())

    def startswith(self, o):
        return self.s.startswith(o.decode())

    def __contains__(self, o):
        return o.decode() in self.s

    def __eq__(self, o):
        return self.s == o.decode()


class SymInt(int):
    def __new__(cls, term):
        s = int.__new__(cls, 0)
        s.term = term
        return s

    def __lt__(self, o): return symx.cur().branch(self.term < o)
    def __le__(self, o): return symx.cur().branch(self.term <= o)
    def __gt__(self, o): return symx.cur().branch(self.term > o)
    def __ge__(self, o): return symx.cur().branch(self.term >= o)
    def __eq__(self, o): return o is not None and symx.cur().branch(self.term == o)
    def __ne__(self, o): return not self == o
    def __bool__(self): return symx.cur().branch(self.term != 0)
    def __hash__(self): return 0
    def __repr__(self): return "exit"
    __str__ = __format__ = lambda self, *a: "exit"


class Stuck(Exception):
    """The bound on waiting was reached."""


class World:
    """One run: patches the processes, records what was asked and answered."""

    def __init__(self, path, max_wait):
        self.p, self.max_wait, self.waited = path, max_wait, 0
        self.calls = []     # (file text, exit term, first line term)
        self.forced = None  # concrete answers, for the replay

    def verify(self, args, **kw):
        f = [str(a) for a in args if str(a).endswith((".smt", ".smt2", ".rkt"))]
        text = open(f[-1]).read() if f else ""
        i = len(self.calls)
        rc, first, rest = z3.Int(f"exit{i}"), z3.String(f"first{i}"), z3.String(f"rest{i}")
        self.calls.append((text, rc, first))
        if kw.get("check"):
            # run(check=True) raises on a failure status
            if self.forced is None:
                if self.p.branch(rc != 0):
                    raise subprocess.CalledProcessError(1, args)
            elif self.forced[i][0] != 0:
                raise subprocess.CalledProcessError(self.forced[i][0], args)
        if self.forced is not None:
            c, out = self.forced[i]
            return types.SimpleNamespace(returncode=c, stdout=out.encode(), stderr=b"")
        nl = z3.StringVal("\n")
        self.p.assume(z3.And(z3.Not(z3.Contains(first, nl)), rc >= -64, rc <= 255))
        return types.SimpleNamespace(returncode=SymInt(rc), stdout=SymBytes(SymOutput(first, rest)), stderr=b"")

    def sleep(self, s=0):
        self.waited += 1
        if self.waited > self.max_wait:
            raise Stuck()

    @contextlib.contextmanager
    def patched(self, popen):
        sv_ = (subprocess.run, subprocess.Popen, time.sleep, os.getcwd())
        subprocess.run, subprocess.Popen, time.sleep = self.verify, popen, self.sleep
        d = os.path.join(mlenv.scratch(), f"loop{os.getpid()}")
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                yield d
        finally:
            subprocess.run, subprocess.Popen, time.sleep = sv_[:3]
            os.chdir(sv_[3])


UNSAT = z3.Concat(z3.Star(WS), z3.Re("unsat"), z3.Star(WS))


# -- meanings -------------------------------------------------------------------
def sym(t, name):
    if ir.is_matrix_type(t):
        return sv.new_matrix(name, LB, LB)
    if ir.is_list_type(t):
        return sv.new_list(name, LB, z3.Int)
    if ir.is_tuple_type(t):
        return sv.TV([z3.Int(name + ".0"), z3.Int(name + ".1")]), sv.T
    if ir.is_set_type(t):
        return sv.SV(z3.Array(name, z3.IntSort(), z3.BoolSort())), sv.T
    if t is Bool:
        return z3.Bool(name), sv.T
    return z3.Int(name), sv.T


RKT = None


def rkt_base():
    global RKT
    if RKT is None:
        RKT = rktsem.RktSem()
        RKT.load(open(os.path.join(UT, "utils.rkt")).read())
    return RKT


def arg_env(decl):
    env, cons = {}, []
    for a in decl.arguments():
        v, c = sym(a.type, a.name())
        env[a.name()] = v
        cons.append(c)
    return env, cons


def functions(lang, cands):
    d = {f.name(): f for f in lang if not isinstance(f, ir.Axiom) and f.body() is not None}
    d.update({c.name(): c for c in cands})
    return d


def same_as_text(decl, params, body, lang, cands):
    """Does decl have the meaning of the printed body?  None, or what differs."""
    if [a.name() for a in decl.arguments()] != list(params):
        return f"parameters {[a.name() for a in decl.arguments()]} instead of {params}"
    env, cons = arg_env(decl)
    renv = {}
    for k, v in env.items():
        if isinstance(v, sv.SV):  # Rosette's sets are sorted lists
            l, c = sv.new_list(k + "!", LB, z3.Int)
            es = [z3.Int(f"{k}![{i}]") for i in range(LB)]
            cons += [c, *[a < b for a, b in zip(es, es[1:])]]
            env[k], v = gen.lv2set(l), l
        renv[k] = sv.LV.of(v.items) if isinstance(v, sv.TV) else v
    decls = functions(lang, cands)
    I = irsem.IRSem(env=env, decls=decls, fuel=20)
    I.strict_bool = True
    J = irsem.IRSem(decls=decls, fuel=20)
    fns = {n: (lambda *xs, n=n: J.call(n, list(xs))) for n in decls}
    R = rktsem.RktSem(env=renv, fns=fns)
    R.defs = rkt_base().defs
    want = R.ev(body, renv)
    try:
        got = I.ev(decl.body())
        bad = sv.Not(sv.eq(got, want))
    except (sv.SortMismatch, irsem.Unsupported, KeyError, TypeError, AttributeError, z3.Z3Exception) as ex:
        return f"{decl.body()} has no meaning: {ex!r}"
    st, m = symx.solve(*cons, *I.defs, *J.defs, *[sv.Not(e) for e in R.errs], bad)
    if st == "sat":
        return (f"read {decl.body()}, at { {k: sv.conc(v, m) for k, v in env.items()} } the text is {sv.conc(want, m)}, "
                f"the candidate {sv.conc(got, m)}")
    if st == "unknown":
        raise RuntimeError("unknown")
    return None


SMTB = None


def smt_base():
    global SMTB
    if SMTB is None:
        SMTB = smtsem.SMTSem()
        SMTB.size = 0
        for f in ("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt"):
            t = open(os.path.join(UT, f)).read()
            SMTB.size += len(t)
            for form in sx.read(t):
                SMTB.command(form)
    return SMTB


def file_has(decl, text, lang, cands):
    """Does the file define decl with decl's meaning?  None, or what differs."""
    B = smt_base()
    try:
        T = load_after(B, text[B.size:])
    except (smtsem.SMTError, sx.ReadError) as e:
        return f"the file is malformed: {e}"
    return defined_as(decl, T, lang, cands)


def load_after(B, text):
    T = smtsem.SMTSem()
    T.decl, T.uf, T.sorts = dict(B.decl), dict(B.uf), dict(B.sorts)
    T.load(text)
    return T


def defined_as(decl, T, lang, cands, who=("in the file", "returned")):
    if decl.name() not in T.decl:
        return f"{decl.name()} is not in the file"
    env, cons = arg_env(decl)
    I = irsem.IRSem(env=env, decls=functions(lang, cands), fuel=20, div="euclid")
    try:
        want = I.ev(decl.body())
        got = T.app(decl.name(), [env[a.name()] for a in decl.arguments()], {})
        bad = sv.Not(sv.eq(want, got))
    except (sv.SortMismatch, irsem.Unsupported, smtsem.SMTError, KeyError, TypeError, AttributeError, z3.Z3Exception) as ex:
        return f"{decl.name()} cannot be compared: {ex!r}"
    st, m = symx.solve(*cons, *I.defs, bad)
    if st == "sat":
        return (f"{decl.name()} {who[0]} is {sv.conc(got, m)}, the {who[1]} one {sv.conc(want, m)} at "
                f"{ {k: sv.conc(v, m) for k, v in env.items()} }")
    if st == "unknown":
        raise RuntimeError("unknown")
    return None


# -- the Rosette loop ---------------------------------------------------------
class FakeRacket:
    """The racket process: rounds of answers, then an exit code."""

    def __init__(self, run):
        self.run, self.pid, self.stdout, self.stderr, self.returncode = run, 1, io.BytesIO(b""), io.BytesIO(b""), None

    def poll(self):
        return self.run.poll()

    def terminate(self):
        self.run.killed = True

    kill = terminate

    def wait(self, *a, **k):
        return 0

    def communicate(self, *a, **k):
        return b"", b""


class RosetteRun:
    """One execution of synthesize() on a problem."""

    def __init__(self, path, build, rounds, faults, variants=True):
        self.p, self.pr = path, build()
        self.fresh = build()
        self.rounds, self.faults, self.variants = rounds, faults, variants
        self.shown = {}      # round -> {name: (params, body)}
        self.written = -1
        self.killed = False
        self.gram = None

    def popen(self, args, **kw):
        text = open(str(args[-1])).read()
        self.gram = Grammars(text)
        self.forms = sx.read(text.split("#lang rosette", 1)[1])
        self.outs = [f for f in self.forms if f[0] == "with-output-to-file"]
        return FakeRacket(self)

    def poll(self):
        """Called once per turn of the loop: the next answer may have appeared."""
        if self.killed:
            return 0
        nxt = self.written + 1
        if nxt < len(self.outs):
            kind = self.p.choice(self.faults, f"round{nxt}") if len(self.faults) > 1 else self.faults[0]
            if kind == "late":
                return None
            if kind == "dies":
                self.written = len(self.outs)
                return SymInt(z3.Int("racket_exit"))
            self.write(nxt, kind)
            self.written = nxt
        if self.written >= len(self.outs) - 1 and self.p.choice(2, "exited"):
            return SymInt(z3.Int("racket_exit"))
        return None

    def write(self, i, kind):
        text = "#t\n"
        self.shown[i] = {}
        if kind == "#f":
            text = "#f\n"
        elif kind == "empty":
            text = ""
        elif kind == "garbage":
            text = "internal error: out of memory\n"
        elif kind == "cut":
            pass
        else:
            keep = self.p.choice(2, "holes kept") if self.variants else 0
            style = self.p.choice(2, "layout") if self.variants else 0
            defs = []
            for s in self.fresh.synths:
                n = s.name()
                pick = (lambda x, k: self.p.choice(k, f"{n}.{x}")) if kind == "ok" else (lambda x, k, i=i: i % k)
                body = self.gram.solution(n, pick, keep)
                params = [a.name() for a in s.arguments()]
                if body is not None:
                    defs.append((n, params, body))
                    self.shown[i][n] = (params, self.gram.full(n, body))
                else:
                    self.shown[i][n] = (params, self.gram.meaning(n))
            text = racket_print(defs, style)
        os.makedirs(os.path.dirname(self.outs[i][1]), exist_ok=True)
        open(self.outs[i][1], "w").write(text)

    def k(self):
        pr = self.fresh
        return pr.invps if isinstance(pr.invps, int) else len(pr.synths)

    def go(self, w, **kw):
        pr, k = self.pr, self.k()
        with w.patched(self.popen):
            return SR.synthesize("t", list(pr.lang), {v.src for v in pr.vars}, list(pr.synths), [], pr.vc.src, list(pr.synths[:k]),
                                 "cvc5", rounds_to_guess=self.rounds, fns_to_guess=list(pr.synths[:k]), log=False, **kw)


def claim_differs(pr, T, cands):
    """The file's last assertion is the negation of the condition?  None, or what differs."""
    if not T.asserts:
        return "nothing is asserted"
    env, cons = {}, []
    for v in pr.vars:
        env[v.src.name()], c = sym(v.src.type, v.src.name())
        cons.append(c)
    I = irsem.IRSem(env=env, decls=functions(pr.lang, cands), fuel=20, div="euclid")
    try:
        want = I.ev(pr.vc.src)
        T.uf = {k: x for k, x in T.uf.items() if k not in env}
        T.env = dict(env)
        got = T.bool(T.asserts[-1], dict(env))
    except (sv.SortMismatch, irsem.Unsupported, smtsem.SMTError, KeyError, TypeError, AttributeError, z3.Z3Exception) as ex:
        return f"the assertion cannot be compared: {ex!r}"
    st, m = symx.solve(*cons, *I.defs, want == got)
    if st == "sat":
        return (f"the asserted claim {sx.show(T.asserts[-1])} is {sv.conc(got, m)} where the condition is {sv.conc(want, m)}, at "
                f"{ {k: sv.conc(v, m) for k, v in env.items()} }")
    return None


def not_again(forms, fns, rounds):
    """In every round the assumptions exclude the candidates of the earlier rounds.
    The values of the functions and of the earlier solutions are symbolic."""
    for i in range(rounds + 1):
        f = next((f for f in forms if f[:2] == ["define", f"sol{i}"]), None)
        if f is None:
            return f"there is no round {i}"
        used = set()

        def val(e):
            if isinstance(e, list) and e and e[0] == "evaluate":
                used.add(e[2])
                return z3.Int(f"{sx.show(e[1])} under {e[2]}")
            return z3.Int(sx.show(e))

        def ev(e):
            if e[0] == "!":
                return z3.Not(ev(e[1]))
            if e[0] in ("eq?", "equal?"):
                return val(e[1]) == val(e[2])
            if e[0] in ("||", "or", "&&", "and"):
                return (z3.Or if e[0] in ("||", "or") else z3.And)(*[ev(x) for x in e[1:]])
            raise rktsem.RktError(f"unknown constraint {sx.show(e)}")

        assumes = []

        def walk(e):
            if isinstance(e, list):
                if e and e[0] == "assume":
                    assumes.append(ev(e[1]))
                for x in e:
                    walk(x)

        walk(f[2])
        for k in range(i):
            calls = [f"({n} {' '.join(ps)})" if ps else f"({n})" for n, ps in fns]
            same = z3.And([z3.Int(c) == z3.Int(f"{c} under sol{k}") for c in calls])
            st, m = symx.solve(*assumes, same)
            if st == "sat":
                return f"round {i} may propose the candidate of round {k} again"
        later = [u for u in used if u not in [f"sol{k}" for k in range(i)]]
        if later:
            return f"round {i} refers to {later}"
    return None


def rosette_path(ck, path, name, build, rounds, faults, mode):
    w = World(path, 2 * rounds + 4)
    run = RosetteRun(path, build, rounds, faults, variants=mode == "P09")
    log = lambda: [f"{a}={b}" for a, b in path.log]
    try:
        res = run.go(w)
    except (symx.PathAbort, Stuck):
        return
    except (SC.SynthesisFailed, SC.VerificationFailed) as e:
        res, exc = None, e
    except Exception as e:
        res, exc = None, e
        if mode == "P09":
            ck.obligation()
            ck.violation(f"solution {name}: {type(e).__name__}", f"{name} ({', '.join(log())}): the solution is not read, "
                         f"{type(e).__name__}: {e}", {"problem": name, "choices": log(),
                                                      "text": {i: {n: sx.show(b) for n, (_, b) in s.items()} for i, s in run.shown.items()}})
            return
    rep = {"problem": name, "choices": log(), "rounds": rounds}
    if res is None:
        ck.obligation()
        return
    if mode == "P09":
        i = max(run.shown)
        for c in res:
            ck.obligation(False)
            if c.name() not in run.shown[i]:
                ck.discharged += 1
                ck.violation(f"solution {name}: extra", f"{name}: {c.name()} was not in the solution", rep)
                continue
            params, body = run.shown[i][c.name()]
            d = same_as_text(c, params, body, run.fresh.lang, res)
            ck.discharged += 1
            if d:
                ck.violation(f"solution {name}: {c.name()}", f"{name} ({', '.join(log())}): {c.name()} printed as {sx.show(body)}: {d}",
                             {**rep, "text": sx.show(body)})
        ck.sample({"problem": name, "solution": {n: sx.show(b) for n, (_, b) in run.shown[i].items()}})
        return
    returned(ck, name, path, w, res, run.fresh, rep, lambda forced: replay_rosette(path, build, rounds, faults, forced))


def returned(ck, name, path, w, res, pr, rep, replay):
    """res was returned on this path: was it proved?"""
    ck.obligation(False)
    where = f"{name} ({', '.join(rep['choices'])})"
    if not w.calls:
        ck.discharged += 1
        ck.violation(f"{name}: unverified", f"{where}: candidates are returned although the verifier never ran", rep)
        return
    text, rc, first = w.calls[-1]
    st, m = symx.solve(*path.pc, z3.Not(z3.InRe(first, UNSAT)))
    if st == "unknown":
        return
    if st == "sat":
        ck.discharged += 1
        ans = [(m.eval(r, model_completion=True).as_long(), m.eval(f, model_completion=True).as_string() + "\n")
               for _, r, f in w.calls]
        ck.replays += 1
        again = replay(ans)
        ck.violation(f"{name}: not unsat", f"{where}: candidates are returned although the verifier answered {ans[-1][1]!r} with exit "
                     f"status {ans[-1][0]} (replayed with these answers: {'returned again' if again else 'not returned'})",
                     {**rep, "answers": ans})
        return
    # no earlier answer proved other candidates
    ck.discharged += 1
    for c in res:
        ck.obligation(False)
        d = file_has(c, text, pr.lang, res)
        ck.discharged += 1
        if d:
            ck.violation(f"{name}: {c.name()}", f"{where}: what was verified is not what is returned: {d}; "
                         f"returned {c.body()}", {**rep, "file": text[-2000:]})
            return
    ck.obligation(False)
    d = claim_differs(pr, load_after(smt_base(), text[smt_base().size:]), res)
    ck.discharged += 1
    if d:
        ck.violation(f"{name}: claim", f"{where}: the verifier was not asked about the condition: {d}", {**rep, "file": text[-2000:]})
    ck.sample({"problem": name, "path": rep["choices"], "queries to the verifier": len(w.calls)})


class Fixed:
    """A path that repeats recorded choices with concrete answers."""

    def __init__(self, log, m=None):
        self.log, self.i, self.pc, self.trace = list(log), 0, [], []

    def choice(self, n, label=""):
        v = self.log[self.i][1]
        self.i += 1
        return v

    def branch(self, c):
        return z3.is_true(z3.simplify(c))

    def assume(self, c):
        pass


def replay_rosette(path, build, rounds, faults, answers):
    fx = Fixed([e for e in path.log if e[0]])
    w = World(fx, 50)
    w.forced = answers
    try:
        return bool(RosetteRun(fx, build, rounds, faults, variants=False).go(w))
    except Exception:
        return False


def readback_item(ck, k):
    kind, i = k
    if kind == "sygus":
        sygus_item(ck, i, "P09")
        return
    name, build = problems()[i]
    symx.explore(lambda p: rosette_path(ck, p, name, build, 0, ["ok"], "P09"), limit=400 if ck.thorough else 120)


def once(ck, name, build, rounds):
    """The rounds of the file for the synthesiser."""
    p = Fixed([])
    p.choice = lambda n, label="": "dies" if isinstance(n, list) else 0
    run = RosetteRun(p, build, rounds, ["dies", "late"], False)
    try:
        run.go(World(p, 3))
    except Exception:
        pass
    ck.obligation(False)
    fns = [(s.name(), [a.name() for a in s.arguments()]) for s in run.fresh.synths[:run.k()]]
    try:
        d = not_again(run.forms, fns, rounds)
    except (rktsem.RktError, IndexError, TypeError) as e:
        d = str(e)
    ck.discharged += 1
    if d:
        ck.violation(f"{name}: proposed again", f"{name}, {rounds} extra rounds: {d}", {"problem": name, "rounds": rounds})


FAULTS = ["fixed", "#f", "empty", "garbage", "cut", "late", "dies"]


def rosette_item(ck, i, rounds):
    name, build = problems()[i]
    once(ck, name, build, rounds)
    faults = FAULTS
    if not ck.thorough:
        faults = ["fixed"] if i % 3 or rounds > 2 else FAULTS if rounds == 0 or (i == 0 and rounds == 1) else FAULTS[:-2]
        if i % 3 == 0 and rounds == 2:
            faults = ["fixed", "#f"]
    elif rounds == 2:
        faults = FAULTS[:-2]
    elif rounds == 3:
        faults = ["fixed", "#f"]
    n, done = symx.explore(lambda p: rosette_path(ck, p, name, build, rounds, faults, "P16"), limit=8000)
    if not done:
        ck.count("explorations cut off")



# -- the SyGuS loop -----------------------------------------------------------
class SygusGrammars(Grammars):
    """The functions to synthesise in the .sl file the real code wrote."""

    def __init__(self, text):
        self.g, self.params, self.defs = {}, {}, []
        for f in sx.read(text):
            if f[0] == "synth-fun":
                self.g[f[1]] = {d[0]: ["choose", *d[2]] for d in f[5]}
                self.params[f[1]] = (f[2], f[3])
            elif f[0].startswith("define") or f[0] == "declare-datatypes":
                self.defs.append(sx.show(f))

    def body(self, name, choose):
        g = self.g[name]

        def nt(x):
            alts = g[x][1:]
            return alts[choose(x, len(alts)) if len(alts) > 1 else 0]

        def fill(e):
            if isinstance(e, list):
                return [fill(x) for x in e]
            return fill(nt(e)) if e in g and e not in [p[0] for p in self.params[name][0]] else e

        return fill(nt("rv"))


def shared(e):
    """cvc5 may print a repeated term with let."""
    seen = []

    def subs(x):
        if isinstance(x, list) and x:
            seen.append(sx.show(x))
            for y in x[1:]:
                subs(y)

    subs(e)
    twice = [t for t in seen if seen.count(t) > 1]
    if not twice:
        return e
    t = max(twice, key=len)

    def rep(x):
        if isinstance(x, list):
            return "_let_1" if sx.show(x) == t else [rep(y) for y in x]
        return x

    return ["let", [["_let_1", sx.read(t)[0]]], rep(e)]


class SygusRun:
    """One execution of synthesize_cvc5.synthesize() with a stand-in cvc5."""

    def __init__(self, path, build, guesses, faults, variants):
        self.p, self.pr, self.fresh = path, build(), build()
        self.guesses, self.faults, self.variants = guesses, faults, variants
        self.n, self.queue, self.shown, self.pid, self.returncode = 0, [], {}, 1, None
        self.stdout = self.stderr = self
        self.over = False

    def popen(self, args, **kw):
        self.gram = SygusGrammars(open(str(args[-1])).read())
        return self

    def readline(self):
        if self.queue:
            return self.queue.pop(0).encode()
        kind = self.p.choice(self.faults, f"line{self.n}") if len(self.faults) > 1 else self.faults[0]
        self.n += 1
        if self.over or self.n > self.guesses + 2:
            return b""
        if kind == "fail":
            return b"fail\n"
        if kind == "ends":
            self.over = True
            return b""
        if kind == "warning":
            return b"cvc5 interrupted by timeout.\n"
        if kind == "answer without a guess" or self.n > self.guesses:
            self.over = True
            return b"(\n"
        out = []
        self.shown = {}
        for i, s in enumerate(self.fresh.synths):
            n = s.name()
            pick = (lambda x, k: self.p.choice(k, f"{n}.{x}")) if self.variants else (lambda x, k: (self.n + i) % k)
            b = self.gram.body(n, pick)
            if self.variants and self.p.choice(2, "let"):
                b = shared(b)
            self.shown[n] = b
            out.append(f"({n} {sx.show(b)})")
        return f"(sygus-candidate {''.join(out)})\n".encode()

    def poll(self):
        return 0 if self.over else None

    def terminate(self):
        pass

    kill = terminate

    def wait(self, *a, **k):
        return 0

    def go(self, w):
        pr = self.pr
        k = pr.invps if isinstance(pr.invps, int) else len(pr.synths)
        with w.patched(self.popen):
            return S5.synthesize("t", list(pr.lang), {v.src for v in pr.vars}, list(pr.synths), [], pr.vc.src, list(pr.synths[:k]), "cvc5")

    def text(self):
        T = "\n".join(self.gram.defs)
        todo = dict(self.shown)
        while todo:  # callees first
            for n, b in list(todo.items()):
                if not any(m in sx.show(b).replace("(", " ").replace(")", " ").split() for m in todo if m != n):
                    ps, r = self.gram.params[n]
                    T += f"\n(define-fun {n} {sx.show(ps)} {sx.show(r)} {sx.show(b)})"
                    del todo[n]
        return T


SYGUS = ["alternatives with one element", "one alternative of one alternative", "one function without alternatives",
         "conditions that become constant", "synthesised function without arguments", "synthesised function calling another",
         "tuples", "nested alternatives, integers", "sets"]


def sygus_problems():
    x, y, o = Int("x"), Int("y"), Int("o")

    def ints():
        c = choose(Int(0), Int(-1), x, x + y)
        d = choose(c + y, c * 2, c - y, x - c)
        return Problem("", [fn_decl("inc", Int, Int("x") + 1, Int("x"))], [
            S("ps", o == d, o, x, y), S("inv0", and_objects(choose(x >= c, x > c), choose(x <= y, (x < c).Not(), implies(x < y, y < x))), x, y)],
            [x, y, o], implies(call("inv0", Bool, x, y), call("ps", Bool, o, x, y)))

    d = {n: b for n, b in problems()}
    d["nested alternatives, integers"] = ints
    return [(n, d[n]) for n in SYGUS]


def sygus_path(ck, path, name, build, guesses, faults, mode):
    w = World(path, 5)
    run = SygusRun(path, build, guesses, faults, mode == "P09")
    log = [f"{a}={b}" for a, b in path.log]
    try:
        res = run.go(w)
    except symx.PathAbort:
        return
    except (SC.SynthesisFailed, SC.VerificationFailed):
        res = None
    except Exception as e:
        res = None
        if mode == "P09":
            ck.obligation()
            ck.violation(f"sygus {name}: {type(e).__name__}", f"{name}: the SyGuS candidate "
                         f"{ {n: sx.show(b) for n, b in run.shown.items()} } is not read, {type(e).__name__}: {e}",
                         {"problem": name, "text": {n: sx.show(b) for n, b in run.shown.items()}})
            return
    log = [f"{a}={b}" for a, b in path.log]
    rep = {"problem": "sygus " + name, "choices": log, "guesses": guesses}
    if res is None:
        ck.obligation()
        return
    if mode == "P09":
        T = load_after(smt_base(), run.text())
        if sorted(c.name() for c in res) != sorted(run.shown):
            ck.obligation()
            ck.violation(f"sygus {name}: functions", f"{name}: the candidate defines {sorted(run.shown)}, what is returned "
                         f"{sorted(c.name() for c in res)}", rep)
        for c in res:
            if c.name() not in run.shown:
                continue
            ck.obligation(False)
            d = defined_as(c, T, run.fresh.lang, res, ("as printed", "read"))
            ck.discharged += 1
            if d:
                ck.violation(f"sygus {name}: {c.name()}", f"{name}: {c.name()} printed as {sx.show(run.shown[c.name()])} is read as "
                             f"{c.body()}: {d}", {**rep, "text": sx.show(run.shown[c.name()])})
        return

    def replay(ans):
        fx = Fixed([e for e in path.log if e[0]])
        w2 = World(fx, 5)
        w2.forced = ans
        try:
            return bool(SygusRun(fx, build, guesses, faults, False).go(w2))
        except Exception:
            return False

    returned(ck, "sygus " + name, path, w, res, run.fresh, rep, replay)


def sygus_item(ck, i, mode, guesses=2):
    name, build = sygus_problems()[i]
    if mode == "P09":
        symx.explore(lambda p: sygus_path(ck, p, name, build, 1, ["guess"], "P09"), limit=600 if ck.thorough else 200)
    else:
        symx.explore(lambda p: sygus_path(ck, p, name, build, guesses, ["guess", "fail", "ends", "warning", "answer without a guess"], "P16"),
                     limit=3000)


def item(ck, it):
    if it[0] == "rosette":
        rosette_item(ck, it[1], it[2])
    elif it[0] == "sygus":
        sygus_item(ck, it[1], "P16", it[2])
    elif it[0] == "llm":
        llmloop.item(ck, *it[1:])


def main():
    global llmloop
    import llmloop
    llmloop.attach(sys.modules[__name__])
    ck = report.Check("P16")
    ck.encoded(SR.synthesize, SC.verify_synth_result, SC.prune_fn_decls, SR.parse_output)
    ps = problems()
    ck.bounds = {"rounds": 2 if not ck.thorough else 3, "problems": len(ps), "faults": FAULTS}
    items = [("rosette", i, r) for i in range(len(ps)) for r in range(0, 3 if not ck.thorough else 4)]
    items += [("sygus", i, g) for i in range(len(SYGUS)) for g in (1, 2)]
    items += llmloop.items(ck.thorough)
    only = os.environ.get("P16_ONLY")
    ck.parallel([i for i in items if not only or i[0] == only], lambda it: item(ck, it))
    return ck.finish()


if __name__ == "__main__":
    report.main(main)
