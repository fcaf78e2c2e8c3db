"""P17: generated names never collide.

The real name-making code (VariableTracker/VariableGroup of metalift/analysis.py and
the two drivers' own requests) is executed on symbolic histories: which request comes
next is a fork, every name in a request is a Z3 string standing for all identifiers.
At the end of every path Z3 decides that a generated name is none of the names in use
and that the tracker lists every generated variable with its type.  The Python
frontend is then run on programs whose argument variables have symbolic names, and Z3
decides that every synthesized function's parameters are distinct and every variable
of the condition is declared, once, with its type.
"""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mlenv  # noqa
import mypyenv  # noqa
import llbuild
import symstr

symstr.install("metalift.analysis", "metalift.frontend.python", "metalift.frontend.llvm", "metalift.frontend.utils")
import z3

import report
import symx
from metalift import analysis, ir
from metalift.frontend import llvm as FL
from metalift.frontend import python as FP

ck = report.Check("P17", "model_checking")
TYPES = [ir.Int, ir.Bool, ir.List[ir.Int]]


def name(path, n):
    s = z3.String(n)
    path.pc.append(z3.Length(s) > 0)
    return symstr.SymStr(s)


def simple(t):
    return t if isinstance(t, str) else getattr(t, "__name__", str(t))


class Use:
    """One name in use: what asked for it, its type, whether it was generated."""

    def __init__(self, nm, typ, made, op):
        self.name, self.typ, self.made, self.op = nm, typ, made, op


def history(path, what):
    kind, K = what
    if kind == "tracker":
        drv, tr = None, analysis.VariableTracker()
    else:
        drv = (FP if kind == "python" else FL).Driver()
        tr = drv.var_tracker
    groups, uses, log = [], [], []
    fresh = hasattr(drv, "fresh_object") if drv else False
    for k in range(K):
        ops = ["group"] * (drv is None or k == 0) + ["variable"] + [f"member{j}" for j in range(len(groups))]
        if fresh:
            ops.append("fresh")
        if k == K - 1 and "group" in ops:
            ops.remove("group")
        op = path.choice(ops)
        typ = TYPES[k % len(TYPES)]
        nm = name(path, f"n{k}")
        log.append((op, nm))
        if op == "group":
            groups.append(tr.group(nm))
        elif op == "variable":
            v = (drv or tr).variable(nm, typ)
            uses.append(Use(v.args[0], typ, False, k))
            if not named(ck, path, v.args[0], nm, log):
                return
        elif op == "fresh":
            uses.append(Use(drv.fresh_object(typ, nm).var_name(), typ, True, k))
        else:
            v = groups[int(op[6:])].variable(nm, typ)
            if v.type != typ:
                bad(path, f"{kind}: type returned", f"a grouped variable of type {typ} is returned with type {v.type}", log)
                return
            uses.append(Use(v.args[0], typ, True, k))
    if not any(u.made for u in uses):
        ck.obligation()
        return
    # a later name requested by hand is that name; a generated one is new
    clash = []
    for i, u in enumerate(uses):
        for w in uses[:i]:
            if u.made:
                clash.append((symstr.zs(u.name) == symstr.zs(w.name), u, w))
    decide(path, [(c, f"{kind}: collision", f"request {u.op} and request {w.op} get the same name") for c, u, w in clash], log)
    listed = list(tr.all())
    for u in uses:
        if not u.made:
            continue
        later = [symstr.zs(w.name) == symstr.zs(u.name) for w in uses if not w.made]
        ok = z3.Or(*[symstr.zs(v.args[0]) == symstr.zs(u.name) for v in listed if v.type == u.typ], *later)
        decide(path, [(z3.Not(ok), f"{kind}: listing", f"the variable of request {u.op} is not listed with its type {u.typ}")], log)


def named(ck, path, got, want, log):
    return decide(path, [(symstr.zs(got) != symstr.zs(want), "explicit", "a variable requested by name has another name")], log)


def bad(path, key, msg, log, m=None):
    vals = [(op, m.eval(symstr.zs(n), model_completion=True).as_string() if m else str(n)) for op, n in log]
    ck.violation(key, f"{msg}; requests: {vals}", {"requests": vals})


def decide(path, claims, log):
    for c, key, msg in claims:
        ck.obligation(False)
        st, m = symx.solve(*path.pc, c)
        if st == "unknown":
            return False
        ck.discharged += 1
        if st == "sat":
            ck.replays += 1
            bad(path, key, msg, log, m)
            return False
    return True


# ---- the frontend with arguments of any name ---------------------------------
SRC = """
def plain(x: int, y: int) -> int:
    return x - y


def loop(n: int, k: int) -> int:
    i = 0
    s = k
    while i < n:
        s = s + i
        i = i + 1
    return s


def nest(n: int, m: int) -> int:
    i = 0
    s = 0
    while i < n:
        j = 0
        while j < m:
            s = s + 1
            j = j + 1
        i = i + 1
    return s


def two(x: int, y: int) -> int:
    a = plain(x, y)
    b = plain(y, a)
    return a - b
"""
CALLS = {"plain": [("plain", 2)], "loop": [("loop", 2)], "nest": [("nest", 2)],
         "plain twice": [("plain", 2), ("plain", 2)], "plain and loop": [("plain", 2), ("loop", 2)],
         "loop twice": [("loop", 2), ("loop", 2)]}


def frees(e, bound, out):
    if isinstance(e, ir.Var):
        if not any(e.args[0] is b for b in bound):
            out.append(e)
        return
    for a in getattr(e, "args", []):
        if isinstance(a, ir.Expr):
            frees(a, bound, out)
        elif isinstance(a, ir.Object):
            frees(a.src, bound, out)


# the LLVM frontend reads an argument by the name it has in the program, so the programs
# whose arguments have any name are those that do not read them
CSRC = """
int f0() { return 3; }

int f1() {
  int i = 0;
  while (i < 3) i = i + 1;
  return i;
}

int f2(int b) {
  if (b > 0) return 1;
  return b;
}
"""
CFNS = {"f0": [], "f1": [], "f2": ["b"]}


class AnyInv(dict):
    def get(self, k, default=None):
        return FL.InvGrammar(lambda w, r, s, relaxed: ir.Bool("inv_hole"), ["i"])

    __getitem__ = get


def cfrontend(path, key, files):
    d = FL.Driver()
    f = d.analyze(files[0], files[1], key, lambda: [], AnyInv(), lambda w, r, s, relaxed: ir.Bool("ps_hole"))
    log, objs = [], []
    for k in range(2):
        nm = name(path, f"arg{k}")
        log.append((f"argument {k}", nm))
        # a name in use in the program is that variable
        for o in objs + [ir.Int(n) for n in CFNS[key]]:
            path.assume(symstr.zs(o.var_name()) != symstr.zs(nm))
        # as do the registers and locals, which the compiler names apart from the arguments
        for n in sorted(set(re.findall(r"%([\w.]+)", open(files[0]).read()))):
            path.assume(symstr.zs(nm) != z3.StringVal(n))
        objs.append(ir.create_object(ir.Int, nm))
    objs += [ir.Int(n) for n in CFNS[key]]
    for o in objs:
        d.add_var_object(o)
    f(*objs)
    claim(path, key, d, FL, log, filename="t")


def frontend(path, key, file):
    d = FP.Driver()
    fs, log, objs = {}, [], []
    for i, (fn, n) in enumerate(CALLS[key]):
        if fn not in fs:
            fs[fn] = d.analyze(file, fn, lambda: [], lambda w, r, s: ir.Bool("inv_hole"), lambda w, r, s: ir.Bool("ps_hole"))
    args = []
    for k in range(2):
        nm = name(path, f"arg{k}")
        log.append((f"argument {k}", nm))
        for o in objs:
            path.assume(symstr.zs(o.var_name()) != symstr.zs(nm))
        o = ir.create_object(ir.Int, nm)
        d.add_var_object(o)
        objs.append(o)
    r = None
    for fn, n in CALLS[key]:
        r = fs[fn](*(objs[:n] if r is None else [r, objs[0]]))
    claim(path, key, d, FP, log)


def claim(path, key, d, mod, log, **kw):
    cap = {}

    def fake(**kw):
        cap.update(kw)
        return []

    mod.run_synthesis = fake
    d.synthesize(**kw)
    claims = []
    for s in list(cap["loop_and_ps_info"]) + list(cap["inv_and_ps"]) if "loop_and_ps_info" in cap else list(cap["inv_and_ps"]):
        e = s.gen_Synth() if hasattr(s, "gen_Synth") else s
        if not isinstance(e, ir.Synth):
            continue
        ps = [a.args[0] for a in e.args[2:]]
        for i in range(len(ps)):
            for j in range(i):
                claims.append((symstr.zs(ps[i]) == symstr.zs(ps[j]), f"parameters: {key}",
                               f"parameters {j} and {i} of {e.args[0]} have the same name"))
    vs = [v for v in d.var_tracker.all()]
    for i in range(len(vs)):
        for j in range(i):
            claims.append((symstr.zs(vs[i].args[0]) == symstr.zs(vs[j].args[0]), f"declared twice: {key}",
                           f"variables {j} and {i} of the condition have the same name"))
    out = []
    frees(cap["vc"] if isinstance(cap["vc"], ir.Expr) else cap["vc"].src, [], out)
    seen = []
    for v in out:
        if any(v.args[0] is w for w in seen):
            continue
        seen.append(v.args[0])
        claims.append((z3.Not(z3.Or(*[symstr.zs(w.args[0]) == symstr.zs(v.args[0]) for w in vs if w.type == v.type])),
                       f"undeclared: {key}", f"a {simple(v.type)} variable of the condition is not declared"))
    decide(path, claims, log)


def item(k):
    if k[0] == "frontend":
        f = os.path.join(mlenv.scratch(), f"names{os.getpid()}.py")
        with open(f, "w") as h:
            h.write(SRC)
        import contextlib
        import io

        # mypy reads the same file again on every path: keep what it returned, one result
        # for each build of a path
        import mypy.build

        real, kept, nth = mypy.build.build, {}, [0]

        def build(sources, *a, **kw):
            nth[0] += 1
            key = (nth[0], tuple((s.path, s.module) for s in sources))
            if key not in kept:
                kept[key] = real(sources, *a, **kw)
            return kept[key]

        mypy.build.build = build

        def run(p):
            nth[0] = 0
            with contextlib.redirect_stdout(io.StringIO()):
                frontend(p, k[1], f)

        symx.explore(run)
    elif k[0] == "c":
        import contextlib
        import io

        def runc(p):
            with contextlib.redirect_stdout(io.StringIO()):
                cfrontend(p, k[1], k[2:])

        symx.explore(runc)
    else:
        symx.explore(lambda p: history(p, k))


def main():
    mlenv.scratch()
    os.chdir(mlenv.scratch())
    K = 5 if ck.thorough else 4
    ck.bounds = {"requests": K, "names": "all non-empty strings", "programs": sorted(CALLS)}
    ck.encoded(analysis.VariableTracker, analysis.VariableGroup, analysis.format_with_index, FP.Driver, FL.Driver,
               FP.PredicateTracker, FP.VCVisitor)
    dirc = os.path.join(mlenv.scratch(), "names_c")
    os.makedirs(dirc)
    files = llbuild.pair(dirc, llbuild.build_pass(dirc), "names", CSRC)
    c = [("c", f, files[0], (files[1])) for f in CFNS]
    ck.parallel(c + [(k, n) for n in range(2, K + 1) for k in ("tracker", "python", "llvm")] + [("frontend", k) for k in CALLS], item)
    return ck.finish()


if __name__ == "__main__":
    report.main(main)
