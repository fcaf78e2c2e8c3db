"""P21: the shipped LLVM pass keeps the function's behaviour and separates its branches.

Each function is symbolically executed as it is before the pass and as it is after it; Z3
decides on every path that the two results are equal for all arguments."""
import itertools
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mlenv  # noqa
import z3

import cgen
import llbuild
import llir
import report
import sv
import symx
import vcsem
from metalift import ir

PID = sys.argv[1]
UF2 = z3.Function("uf", z3.IntSort(), z3.IntSort(), z3.IntSort())
FNS = {"uf": lambda a, b: UF2(a, b), "integer_sqrt": z3.Function("integer_sqrt", z3.IntSort(), z3.IntSort()),
       "integer_exp": z3.Function("integer_exp", z3.IntSort(), z3.IntSort())}
LI, LLI = ir.List[ir.Int], ir.List[ir.List[ir.Int]]
KINDS = {"int": ir.Int, "List<int>": LI, "vector<int>": LI, "vector<vector<int>>": LLI, "set*": ir.Set[ir.Int]}

EXTRA = """
int e_and(int x, int y) { return x > 0 && y > x; }
---
int e_or(int x, int y) { return x > 0 || y > x || x == y; }
---
int e_tern(int x, int y) { return (x > y ? x : y) + (x == 0 ? 1 : y > 2 ? 2 : 3); }
---
int e_ternloop(int x, int y) { int s = 0; for (int i = 0; i < x; i = i + 1) { s = s + (i > y ? i : s > 3 ? 1 : 2); } return s; }
---
int e_mix(int x, int y) { int a = 0; while ((a < x && a < y) || a == 0) { a = a + 1; if (a > 2 && (x > 1 || y > 1)) a = a + 2; } return a; }
---
int e_switch(int x, int y) { int r = 0; switch (x) { case 0: r = 1; break; case 1: r = 2; case 2: r = r + y; break; default: r = 7; } if (r > 1 && y > 0) return r; return 0 - r; }
---
int e_swloop(int x, int y) { int r = 0; for (int i = 0; i < x; i = i + 1) { switch (i) { case 0: r = y; break; case 1: if (y > 0) continue; break; default: return r; } r = r + 1; } return r; }
---
int e_empty(int x, int y) { if (x > y) { } if (y > 0) { } else { } return x; }
---
int e_not(int x, int y) { bool b = x > 0; bool c = !b || (y > 1 && !(x > 4)); if (c) return 1; return b ? 2 : 3; }
---
int e_bool(int x, int y) { bool t = x; if (t && y) return 5; return t; }
"""


# ---- functions in LLVM's own text: every block has phis that tell the path taken -------
def graph_ll(name, g, seed):
    """g: successor tuples; block 0 is preceded by an entry block.  A block's phi takes each
    predecessor's value and scales it, so the result tells the whole path."""
    n = len(g)
    preds = {b: [] for b in range(n)}
    for b in range(n):
        for s in g[b]:
            preds[s].append(b)
    out = [f"define i32 @{name}(i32 %x, i32 %y) {{", "entry:", "  br label %b0"]
    for b in range(n):
        out.append(f"b{b}:")
        # two edges from one block give two entries of one value
        inc = (["[ %x, %entry ]"] if b == 0 else []) + [f"[ %v{p}, %b{p} ]" for p in preds[b]]
        ones = (["[ 0, %entry ]"] if b == 0 else []) + [f"[ {p + 1}, %b{p} ]" for p in preds[b]]
        out.append(f"  %p{b} = phi i32 " + ", ".join(inc))
        out.append(f"  %q{b} = phi i32 " + ", ".join(ones))
        out.append(f"  %m{b} = mul i32 %p{b}, {3 + b % 2}")
        out.append(f"  %w{b} = add i32 %m{b}, %q{b}")
        out.append(f"  %v{b} = add i32 %w{b}, {b}")
        if g[b] == ():
            out.append(f"  ret i32 %v{b}")
        elif len(g[b]) == 1:
            out.append(f"  br label %b{g[b][0]}")
        else:
            k = ["slt", "sgt", "eq", "sle"][(b + seed) % 4]
            lhs = f"%v{b}" if (b + seed) % 3 else f"%q{b}"
            out.append(f"  %c{b} = icmp {k} i32 {lhs}, %y")
            out.append(f"  br i1 %c{b}, label %b{g[b][0]}, label %b{g[b][1]}")
    return "\n".join(out + ["}"]) + "\n"


def graphs(n):
    """As cgen.goto_graphs, with both branches to one block too."""
    opts = [()] + [(j,) for j in range(n)] + [(j, k) for j in range(n) for k in range(n)]
    for g in itertools.product(opts, repeat=n):
        seen, st = set(), [0]
        while st:
            b = st.pop()
            if b not in seen:
                seen.add(b)
                st += g[b]
        if len(seen) == n and () in g and any(len(s) == 2 for s in g):
            yield g


class Prog:
    def __init__(self, name, src, args, pair=False):
        self.name, self.src, self.args = name, src, args


def batches(thorough):
    out = []
    hand = [p for p in (cgen.HAND + "---" + EXTRA).strip().split("\n---\n")]
    hand = [p.split("\n", 1)[1] if p.startswith("//!") else p for p in hand]
    # one function per module where the text may not compile into a supported shape
    cs = []
    for src in hand:
        name = re.match(r"^[^\n(]*?(\w+)\(", src).group(1)
        cs.append(Prog(name, src, cgen.params(src, name)))
    k = 0
    for size, depth, loops, seed in cgen.sizes(thorough):
        for b in cgen.skeletons(size, depth, loops):
            cs.append(Prog(f"q{k:04d}", cgen.program(f"q{k:04d}", b, k + seed), [("x", "int"), ("y", "int")]))
            k += 1
    for name, src in cgen.goto_programs(3, "t") + cgen.goto_programs(4, "u")[::5 if thorough else 40]:
        cs.append(Prog(name, src, [("x", "int"), ("y", "int")]))
    out += [("c", cs[i:i + 20]) for i in range(0, len(cs), 20)]
    ls = []
    for n, step in ((1, 1), (2, 1), (3, 1 if thorough else 4), (4, 150 if thorough else 0)):
        for i, g in enumerate(graphs(n)) if step else ():
            if (i + n) % step == 0:
                ls.append(Prog(f"g{n}_{i}", graph_ll(f"g{n}_{i}", g, i), [("x", "int"), ("y", "int")]))
    out += [("ll", ls[i:i + 40]) for i in range(0, len(ls), 40)]
    return out


def native(d, ll, fn, ins):
    """The real code on concrete integers."""
    so = ll + ".so"
    subprocess.run([llbuild.tool("clang++"), "-w", "-x", "ir", ll, "-shared", "-fPIC", "-o", so], check=True,
                   stderr=subprocess.DEVNULL)
    code = (f"import ctypes; f=getattr(ctypes.CDLL({so!r}),{fn!r}); f.restype=ctypes.c_int;"
            f"print(f(*[ctypes.c_int(x) for x in {ins!r}]))")
    try:
        r = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, text=True, timeout=5)
    except subprocess.TimeoutExpired:
        return "no end within 5 s"
    return int(r.stdout) if r.returncode == 0 else f"exit {r.returncode}"


def check(ck, p, M0, M1, lls):
    fname = next(n for n in M0.funcs if M0.short(n) == p.name)

    def bad(key, what, extra=None):
        ck.violation(f"{p.name} {key}", f"{p.src}\n  {what}", {"program": p.src, "what": what, **(extra or {})})

    f1 = M1.funcs.get(fname)
    ck.obligation(True)
    if f1 is None:
        return bad("gone", "the function is gone after the pass")
    preds = f1.dominators()[1]
    for b in f1.order:
        s = f1.succs(b)
        if f1.blocks[b][-1]["op"] == "br" and len(s) > 1:
            ck.obligation(True)
            if len(set(s)) < 2 or any(len(preds[x]) > 1 for x in s):
                return bad("shared", f"a branch of {b} to {s} shares its block with another edge")
    dom = vcsem.Dom(3)
    inputs, cons = {}, []
    for n, t in p.args:
        v, c, _ = dom.new(KINDS[t], n)
        inputs[n] = v
        cons.append(c)
    bounds = dict(unroll=2, total=3)
    if ck.thorough:
        bounds = dict(unroll=3, total=5)
    stop = []

    def start(path):
        if stop:
            raise symx.PathAbort()
        for c in cons:
            path.assume(c)
        X = llir.Exec(M0, fns=FNS, **bounds)
        r0, heads0 = X.run(path, fname, dict(inputs))
        # the code after the pass gets room for more steps: it must arrive wherever the code before did
        Y = llir.Exec(M1, fns=FNS, unroll=bounds["unroll"] + 1, total=bounds["total"] + 1)
        try:
            r1, heads1 = Y.run(path, fname, dict(inputs))
        except symx.PathAbort:
            if symx.solve(*path.pc, want_model=False)[0] == "unsat":
                return
            r1 = None
        goal = sv.eq(r0, r1) if r1 is not None else z3.BoolVal(False)
        st, m = symx.solve(*path.pc, z3.Not(goal), timeout=20000)
        if st == "unsat":
            ck.obligation(True)
            return
        ck.obligation(st != "unknown")
        stop.append(1)
        if st == "unknown":
            ck.errors.append(f"unknown: {p.name}")
            return
        ins = {a: sv.conc(v, m) for a, v in inputs.items()}
        got = [sv.conc(r0, m), None if r1 is None else sv.conc(r1, m)]
        real = None
        if all(t == "int" for _, t in p.args) and all(abs(v) < 10000 for v in ins.values()) and \
                "integer_" not in p.src and "uf(" not in p.src and not re.search("List|set|Tuple|vector", p.src):
            real = [native(None, l, fname, [ins[n] for n, _ in p.args]) for l in lls]
            ck.replays += 1
            if real[0] == real[1]:
                ck.errors.append(f"replay mismatch {p.name}: {ins} -> {real}, expected {got}")
                return
        bad("result", f"on {ins}: {got[0]} before the pass, {got[1]} after it",
            {"inputs": ins, "before": got[0], "after": got[1], "compiled runs": real})

    try:
        n, done = symx.explore(start, limit=400, deadline=time.time() + 60)
        if not done:
            ck.count("path limit")
    except llir.Unsup as e:
        ck.count(f"unsupported: {str(e)[:60]}")


def main():
    ck = report.Check(PID)
    d = mlenv.scratch()
    try:
        so = llbuild.build_pass(d)
    except RuntimeError as e:
        print(e)
        raise
    work = batches(ck.thorough)
    only = os.environ.get("PASS_ONLY")
    if only:
        work = [(k, [p for p in ps if p.name.startswith(only)]) for k, ps in work]
        work = [w for w in work if w[1]]
    ck.encoded_files(os.path.join(mlenv.REPO, "llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp"))

    def one(k, kind, ps):
        if kind == "c":
            raw = llbuild.emit(d, f"p{k}", "\n".join(p.src for p in ps))
        else:
            raw = os.path.join(d, f"p{k}.raw.ll")
            with open(raw, "w") as f:
                f.write("\n".join(p.src for p in ps))
        before, after = raw.replace(".raw.ll", ".0.ll"), raw.replace(".raw.ll", ".1.ll")
        llbuild.run_pass(so, raw, before, add=False)
        try:
            llbuild.run_pass(so, raw, after)
        except RuntimeError as e:
            if len(ps) > 1:
                for j, p in enumerate(ps):
                    one(f"{k}_{j}", kind, [p])
                return
            ck.obligation(True)
            ck.violation(f"{ps[0].name} rejected", f"{ps[0].src}\n  the compiler fails after the pass: {str(e)[-300:]}",
                         {"program": ps[0].src, "error": str(e)})
            return
        M0, M1 = llir.Module(open(before).read()), llir.Module(open(after).read())
        for p in ps:
            if len(ck.violations) < 4:
                check(ck, p, M0, M1, (before, after))

    ck.bounds = {"loop iterations": "2 (3) per loop, 3 (5) per run", "blocks": "graphs of up to 3 (4) blocks with phis",
                 "program size": "control skeletons up to 5 statements, goto graphs, hand-written programs"}
    ck.assumptions = ["integers are mathematical (the pass does not touch arithmetic)",
                      "a switch is not a branch the pass has to split"]
    ck.parallel(list(range(len(work))), lambda k: one(k, *work[k]))
    return ck.finish()


report.main(main)
