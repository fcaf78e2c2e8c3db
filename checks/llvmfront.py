"""P03 / P04: the verification condition of a compiled C/C++ function (LLVM frontend)."""
import contextlib
import ctypes
import io
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mlenv  # noqa
import z3

import cgen
import llbuild
import llir
import report
import sv
import symx
import vcsem
from irsem import IRSem
from metalift import ir
from metalift.frontend import llvm as F

PID = sys.argv[1]
LI, LLI = ir.List[ir.Int], ir.List[ir.List[ir.Int]]
KINDS = {"int": ir.Int, "List<int>": LI, "vector<int>": LI, "vector<vector<int>>": LLI, "set*": ir.Set[ir.Int],
         "Tuple<int,int>": ir.Tuple[ir.typing.Tuple[ir.Int, ir.Int]] if hasattr(ir, "typing") else None}
UF2 = z3.Function("uf", z3.IntSort(), z3.IntSort(), z3.IntSort())
SQ = z3.Function("integer_sqrt", z3.IntSort(), z3.IntSort())
EX = z3.Function("integer_exp", z3.IntSort(), z3.IntSort())
ORACLE_FNS = {"uf": lambda a, b: UF2(a, b), "integer_sqrt": lambda a: SQ(a), "integer_exp": lambda a: EX(a)}
IR_FNS = ORACLE_FNS


class Prog:
    def __init__(self, name, src, K=2, total=4, cap=3, pre=None, exact=True):
        self.name, self.src, self.K, self.total, self.cap, self.pre, self.exact = name, src, K, total, cap, pre, exact
        self.args = cgen.params(src, name)
        self.again = []


def programs(thorough):
    out = []
    for src in (cgen.HAND.strip() + "\n---\n" + cgen.ODD.strip()).split("\n---\n"):
        opts = {}
        if src.startswith("//!"):
            line, src = src.split("\n", 1)
            opts = eval("dict(" + line[3:] + ")")
        name = re.search(r"^[^\n(]*?(\w+)\(", src, re.M).group(1)
        out.append(Prog(name, src, **opts))
    n = 0
    for size, depth, loops, seed in cgen.sizes(thorough):
        for b in cgen.skeletons(size, depth, loops):
            name = f"q{n:04d}"
            out.append(Prog(name, cgen.program(name, b, n + seed),
                            K=3 if thorough else 2, total=5 if thorough else 4))
            n += 1
    graphs = cgen.goto_programs(3, "t") + cgen.goto_programs(4, "u")[::5 if thorough else 25]
    for name, src in graphs:
        out.append(Prog(name, src, K=2, total=4 if thorough else 3))
    return out


# LLVM renames struct types when one context reads them twice; give every analysis its own
# context, as if it were the only one of its process
_parse = F.llvm.parse_assembly
_keep = []


def _parse_alone(text, context=None):
    c = F.llvm.create_context()
    m = _parse(text, context=c)
    _keep.append((c, m))
    return m


F.llvm.parse_assembly = _parse_alone


# ---- the real frontend ------------------------------------------------------
def analyse(prog, ll, lo, locals_):
    cap = {}

    def fake(**kw):
        cap.update(kw)
        return []

    d = F.Driver()
    hole = lambda w, r, s, relaxed: ir.Bool("hole")
    f = d.analyze(ll, lo, prog.name, lambda: [],
                  _Inv(lambda n: F.InvGrammar(hole, list(locals_))), hole)
    if PID == "P05":
        return f, None
    objs = {}
    for n, t in prog.args:
        objs[n] = ir.create_object(KINDS[t], n)
        d.add_var_object(objs[n])
    if prog.pre:
        d.add_precondition(prog.pre(objs))
    f(*objs.values(), uninterp_fns=["uf"])
    F.run_synthesis = fake
    d.synthesize(filename="t")
    cap["loops"] = [l.header.name for l in f.loops]
    return cap, objs


class _Inv(dict):
    def __init__(self, f):
        self.f = f

    def get(self, k, default=None):
        return self.f(k)

    def __getitem__(self, k):
        return self.f(k)


def oracle(prog, M, fname, dom, inputs, cons, types):
    out = []
    X = llir.Exec(M, unroll=prog.K, total=prog.total, fns=ORACLE_FNS)

    def start(p):
        for c in cons:
            p.assume(c)
        if prog.pre:
            p.assume(IRSem(env=inputs).ev(prog.pre(
                {a: ir.create_object(types[a], a) for a in inputs}).src))
        r, heads = X.run(p, fname, dict(inputs))
        prog.again = prog.again + [(list(p.pc), *t) for t in X.again]
        if symx.solve(*p.pc, want_model=False)[0] == "unsat":
            return
        out.append((sv.And(*[c for c in p.pc if "sel!" not in str(c)]), r, heads))

    n, done = symx.explore(start, limit=600)
    return out, done


def native(prog, ins):
    """The compiled program on concrete integers."""
    if any(t != "int" for _, t in prog.args) or not prog.src.startswith("int ") or "uf(" in prog.src:
        return None
    if any(x in prog.src for x in ("integer_", "List", "set", "Tuple", "vector")):
        return None
    if any(not isinstance(v, int) or abs(v) > 20000 for v in ins.values()):
        return None
    d = mlenv.scratch()
    cc, so = os.path.join(d, f"n_{prog.name}_{os.getpid()}.cc"), os.path.join(d, f"n_{prog.name}_{os.getpid()}.so")
    open(cc, "w").write('extern "C" ' + prog.src)
    subprocess.run([llbuild.tool("clang++"), "-w", "-O0", "-shared", "-fPIC", cc, "-o", so], check=True)
    code = (f"import ctypes,sys; f=ctypes.CDLL({so!r}).{prog.name}; f.restype=ctypes.c_int;"
            f"print(f(*[ctypes.c_int(x) for x in {[ins[n] for n, _ in prog.args]!r}]))")
    r = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, text=True, timeout=20)
    return int(r.stdout) if r.returncode == 0 else f"exit {r.returncode}"


def natural(fn):
    """Every cycle of the code is a loop: without its back edges it has none."""
    back = {(t, h) for h, (_, ls, _) in fn.loops().items() for t in ls}
    succs = {b: [s for s in fn.succs(b) if (b, s) not in back] for b in fn.order}
    done = set()
    while len(done) < len(succs):
        free = [b for b in succs if b not in done and all(s in done for s in succs[b])]
        if not free:
            return False
        done.update(free)
    return True


# writes through pointers and references, and calls of functions without a model
UNSUPPORTED = {"h_matget", "h_two_exits", "h_vecret", "h_refparam", "h_unknown", "h_vecset", "h_ref", "h_ptr"}


def check(ck, prog, M, ll, lo):
    fname = next(n for n in M.funcs if M.short(n) == prog.name)
    fn = M.funcs[fname]
    dom = vcsem.Dom(prog.cap)
    inputs, types, cons = {}, {}, []
    for n, t in prog.args:
        v, c, _ = dom.new(KINDS[t], n)
        inputs[n], types[n] = v, KINDS[t]
        cons.append(c)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            cap, objs = analyse(prog, ll, lo, fn.read_locals() + [a for a, _, s in fn.args if s])
    except Exception as e:
        if PID == "P05" and type(e).__name__ not in ("Exception", "RuntimeError", "NotImplementedError"):
            ck.obligation(True)
            ck.violation(f"{prog.name} {type(e).__name__}", f"{prog.src}: reading the loops: {e!r}", {"program": prog.src})
            return
        ck.count("rejected")
        ck.count("rejected: " + type(e).__name__ + ": " + re.sub(r"\d+|[ivw]\d only", "N", str(e)).split("\n")[0][:45])
        if PID == "P04":
            ck.obligation(True)
            if prog.name not in UNSUPPORTED and not prog.name.startswith("o_") and natural(fn):
                ck.violation(f"{prog.name} rejected", f"{prog.src}: no condition is generated: {e!r}", {"program": prog.src})
        if os.environ.get("LLV_REJ"):
            import traceback
            print(prog.name, repr(e)[:200]); traceback.print_exc(limit=-2)
        return
    ck.count("accepted")
    try:
        paths, done = oracle(prog, M, fname, dom, inputs, cons, types)
    except llir.Unsup as e:
        ck.count(f"oracle unsupported: {e}")
        return
    if not paths and PID != "P05":
        ck.count("no complete path")
        return
    if not done:
        ck.count("path limit")
    if PID == "P05":
        return loops_check(ck, prog, cap, fn, inputs)
    synths = cap["inv_and_ps"]
    names = {s.args[0] for s in synths}
    sig = {s.args[0]: [a.args[0] for a in s.args[2:]] for s in synths}
    declared = {v.args[0] for v in cap["vars"]}
    nested = {s.args[0]: ["Matrix" in str(a.type) or str(a.type).count("List") > 1 for a in s.args[2:]]
              for s in synths}
    psn = prog.name + "_ps"
    if psn not in sig:
        ck.obligation(True)
        ck.violation(f"{prog.name}: no postcondition", f"{prog.src}: the condition says nothing of the result",
                     {"program": prog.src, "vc": repr(cap["vc"])[:3000]})
        return

    def forms(preds):
        return vcsem.formulas(cap["vc"], declared, dom, inputs, types, preds, IR_FNS)

    def malformed(e):
        ck.obligation(True)
        ck.violation(f"{prog.name}: {e}", f"{prog.src}: {e}", {"program": prog.src, "why": str(e),
                                                               "vc": repr(cap["vc"])[:3000]})

    if PID == "P03":
        ufs = {}
        try:
            vcs = forms({"names": names, "ufs": ufs, "nested": nested, "fn": lambda P, n, xs: P.uf(n, xs)})
        except (KeyError, ValueError, sv.SortMismatch) as e:
            return malformed(e)
        hyp = []
        for conj, env, side, f, qs in vcs:
            g = z3.Implies(side, f)
            hyp.append(z3.ForAll(qs, g) if qs else g)
        for pc, r, heads in paths:
            P = vcsem.Preds(dom)
            P.ufs, P.nested = ufs, nested
            av = [inputs[a] if a in inputs else r for a in sig[psn]]
            g = P.uf(psn, av)
            goal = z3.Implies(sv.And(*P.fits), g)
            # the conditions at the states this path has at its loop heads are usually enough
            states = [{**mem, **inputs} for _, mem in heads] or [dict(inputs)]
            ground = [i for c in vcs for i in vcsem.instances(c, inputs, dom, states)]
            st, m = symx.solve(*ground, pc, z3.Not(goal), timeout=20000)
            if st == "unsat":
                ck.obligation(True)
                continue
            ck.count("decided with quantifiers")
            ck.sample(prog.name, 40)
            st, m = symx.solve(*hyp, pc, z3.Not(goal), timeout=20000)
            if st == "unsat":
                ck.obligation(True)
                continue
            ck.obligation(st != "unknown")
            if st == "unknown":
                ck.errors.append(f"unknown: {prog.name}")
                return
            ins = {a: sv.conc(v, m) for a, v in inputs.items()}
            want = sv.conc(r, m)
            got = native(prog, ins)
            ck.replays += 1
            if got is not None and got != want:
                ck.errors.append(f"replay mismatch {prog.name}: {ins} -> {got}, expected {want}")
                return
            ck.violation(prog.name, f"{prog.src}\n  on {ins} returns {want}, but the condition admits a "
                         "postcondition false there", {"program": prog.src, "inputs": ins, "returns": want,
                                                       "compiled run": got, "vc": [repr(c[0]) for c in vcs]})
            return
        return
    # P04
    if not prog.exact:
        ck.count("not exact")
        return
    heads_of = fn.loops()
    if sorted(cap["loops"]) != sorted(heads_of):
        ck.obligation(True)
        ck.violation(prog.name + " loops", f"loops {cap['loops']}, headers {sorted(heads_of)}\n{prog.src}",
                     {"program": prog.src})
        return
    inv_head = {f"{prog.name}_inv{i}": h for i, h in enumerate(cap["loops"])}
    miss = {h for n, h in inv_head.items() if n not in names}
    if miss:
        ck.obligation(True)
        ck.violation(prog.name + " no invariant", f"loops at {sorted(miss)} have no invariant\n{prog.src}",
                     {"program": prog.src})
        return

    def exact(P, name, xs):
        alts = []
        for pc, r, heads in paths:
            if name in inv_head:
                for h, mem in heads:
                    if h == inv_head[name]:
                        st = {**mem, **inputs}
                        alts.append(sv.And(pc, *[sv.eq(x, st[p]) for x, p in zip(xs, sig[name])
                                                 if st.get(p) is not None]))
            else:
                av = [inputs[a] if a in inputs else r for a in sig[psn]]
                alts.append(sv.And(pc, *[sv.eq(x, y) for x, y in zip(xs, av)]))
        return sv.Or(*alts)

    try:
        vcs = forms({"names": names, "ufs": {}, "nested": nested, "fn": exact})
    except (KeyError, ValueError, sv.SortMismatch) as e:
        return malformed(e)
    inb = sv.Or(*[pc for pc, *_ in paths])
    for conj, env, side, f, qs in vcs:
        st, m = symx.solve(inb, side, z3.Not(f), timeout=30000)
        if st == "unsat":
            ck.obligation(True)
            continue
        ck.obligation(st != "unknown")
        if st == "unknown":
            ck.errors.append(f"unknown: {prog.name}")
            return
        vals = {n: sv.conc(v, m) for n, v in env.items()}
        ck.violation(prog.name, f"{prog.src}\n  with the exact postcondition and invariants, {conj} is false at {vals}",
                     {"program": prog.src, "conjunct": repr(conj), "values": vals})
        return


def loops_check(ck, prog, f, fn, inputs):
    """What the frontend took the function's loops to be, against the compiled code."""
    def bad(key, what, extra=None):
        ck.violation(f"{prog.name} {key}", f"{prog.src}\n  {what}", {"program": prog.src, "what": what, **(extra or {})})

    nat = fn.loops()
    got = {}
    for l in f.loops:
        if l.header.name in got:
            return bad("twice", f"two loops with the header {l.header.name}")
        got[l.header.name] = ({b.name for b in [l.header, *l.body, *l.exits, *l.latches]},
                              {b.name for b in l.latches}, {b.name for b in l.exits})
    ck.obligation(True)
    want = {h: tuple(map(set, t)) for h, t in nat.items()}
    if got != want:
        return bad("loops", f"loops (blocks, latches, exiting blocks) read: {got}, of the function: {want}")
    back = {(t, h) for h, (_, ls, _) in nat.items() for t in ls}
    edges = {(b, s) for b in fn.order for s in fn.succs(b)} - back
    ge = {(n, s.name) for n, b in f.fn_blocks.items() for s in b.succs}
    gp = {(p.name, n) for n, b in f.fn_blocks.items() for p in b.preds}
    ck.obligation(True)
    if ge != edges or gp != edges:
        return bad("edges", f"edges {sorted(ge ^ edges)} {sorted(gp ^ edges)} differ after removing the back edges")
    for l in f.loops:
        h = l.header.name
        hav = {v.name for v in l.havocs}
        kept = {}
        for pc, hh, m0, m1 in prog.again:
            if hh != h:
                continue
            for v, new in m1.items():
                if v in hav or m0.get(v) is None or new is None or new is m0[v]:
                    continue
                kept.setdefault(v, []).append((pc, m0[v], new))
        for v, cs in kept.items():
            for pc, a, b in cs:
                st, m = symx.solve(*pc, z3.Not(sv.eq(a, b)), timeout=20000)
                ck.obligation(st != "unknown")
                if st == "unknown":
                    ck.errors.append(f"unknown: {prog.name}")
                    return
                if st == "sat":
                    ins = {x: sv.conc(y, m) for x, y in inputs.items()}
                    return bad(f"{h} {v}", f"on {ins} an iteration of the loop at {h} changes {v} from {sv.conc(a, m)} to "
                               f"{sv.conc(b, m)}, but {v} is not among what the loop changes: {sorted(hav)}", {"inputs": ins})
        # nothing that the loop cannot change
        txt = [i for b in nat[h][0] for i in fn.blocks[b] if i["op"] in ("store", "call")]
        for v in sorted(hav):
            ref = re.compile("%" + re.escape(v) + r"(?![\w.\-])")
            ck.obligation(True)
            if any(ref.search(llir.split_args(i["rest"])[1] if i["op"] == "store" else i["rest"]) for i in txt):
                continue
            return bad(f"{h} {v} extra", f"nothing in the loop at {h} can change {v}, which is havocked there")


def main():
    ck = report.Check(PID)
    ck.encoded(F.VCVisitor, F.State, F.Driver, F.MetaliftFunc, F.LoopInfo, F.Predicate, F.PredicateTracker,
               F.parse_loops)
    progs = programs(ck.thorough)
    only = os.environ.get("LLV_ONLY")
    if only:
        progs = [p for p in progs if p.name.startswith(only)]
    d = mlenv.scratch()
    so = llbuild.build_pass(d)
    groups = [progs[i:i + 12] for i in range(0, len(progs), 12)]

    def group(k):
        ll, lo = llbuild.pair(d, so, f"g{k}", "\n".join(p.src for p in groups[k]))
        M = llir.Module(open(ll).read())
        for p in groups[k]:
            check(ck, p, M, ll, lo)

    ck.bounds = {"loop iterations": "2-3 per loop, 4-5 per run", "list capacity": 3, "matrix": "2x2",
                 "program size": "control skeletons up to 5 statements + hand-written programs"}
    ck.assumptions = ["C integers are mathematical integers (no overflow)", "clang-14 -O0 and the repository's pass "
                      "compile the programs", "list indices in range", "division of non-negative by positive"]
    items = list(range(len(groups)))
    if PID == "P05" and not only:
        import looptext
        ck.encoded(F.parse_loops, looptext.A.parseLoops)
        items = [(s, r) for s in looptext.shapes(ck.thorough) for r in looptext.READERS] + items
        ck.bounds["loop report"] = "up to 3 functions, 3 loops, 4-5 blocks; any names of up to 12 characters; any flags"

    def item(k):
        if isinstance(k, int):
            return group(k)
        looptext.run(ck, k[0], k[1], d, lambda: contextlib.redirect_stdout(io.StringIO()))

    ck.parallel(items, item)
    return ck.finish()


report.main(main)
