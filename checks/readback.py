"""P09: the Rosette text of an expression is read back as that expression.

Part 1 (readback).  For every expression shape the grammars can contain (every
node kind, nested to the depth bound, every value of variables and literals):
the real to_rosette prints it, the real generate_ast/parse_output/to_expr read
the printed definition, and Z3 decides that what was read has the meaning of the
text (rktsem, the interpreter of Rosette text) and the type of the expression.

Part 2 (solutions).  See checks/synthloop.py, imported below: the real
synthesize() reads whole solution files.
"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mlenv  # noqa
import z3
import gen
import irsem
import printers
import report
import rktsem
import sv
import symx
from metalift import ir, synthesize_rosette as SR

ck = report.Check("P09", "translation_validation")
FNS = {"userf": ir.Fn[tuple[gen.Int, gen.Int, gen.LInt]], "usert": ir.Fn[tuple[gen.Tup, gen.Int, gen.Int]],
       "usert3": ir.Fn[tuple[gen.Tup3, gen.Int, gen.Bool]], "inv0": ir.Fn[tuple[gen.Bool, gen.Int, gen.Int]],
       "ps0": ir.Fn[tuple[gen.Bool, gen.Int, gen.Int]], "fnv": gen.FnII}
BE = None


def layouts(text):
    """The ways Racket may print the definition: one line or broken over lines."""
    head = f"(define (cand {' '.join(gen.VARS)})"
    yield [f"{head} {text})", ""]
    yield ["'" + head, *("   " + x for x in text.split(" ")), "  )", ""]


def shape(t):
    """Matrix[Int] is a list of lists of integers."""
    from typing import get_args, get_origin
    o, a = get_origin(t) or t, get_args(t)
    n = getattr(o, "__name__", str(o))
    if n == "Matrix":
        return ("List", ("List", shape(a[0])))
    if n == "Tensor3D":
        return ("List", ("List", ("List", shape(a[0]))))
    if n == "tuple":
        return tuple(shape(x) for x in a)
    if a:
        return (n, *[shape(x) for x in a])
    return n


def read(text):
    outs = []
    for lines in layouts(text):
        got = SR.parse_output(["#t", "/x/y.rkt:1:0", *lines, "/x/y.rkt:3:0", "'(define (other) 1)"][1:])
        r = next(x for x in got if "define (cand " in x)
        outs.append(SR.to_expr(SR.generate_ast(r[r.find("("):])[0], dict(FNS), dict(gen.VARS), {}))
    return outs


def check_expr(e, w, key):
    names = sorted(n for n in printers.fvars(e) if n in gen.VARS)
    env = w.env(names)
    try:
        text = e.to_rosette()
    except Exception:
        return  # P07's business
    try:
        want, errs = BE.evaluate(text, w, env, list(w.cons))
    except printers.PRINT_ERR:
        return  # P07's business
    ck.obligation(False)
    rep = {"expr": printers.describe(e), "text": text}
    try:
        got_es = read(text)
    except Exception as ex:
        ck.discharged += 1
        ck.violation(f"unread:{key}", f"the text {text!r} is not read: {type(ex).__name__}: {ex}", {**rep, "error": repr(ex)})
        return
    for got_e in got_es:
        if shape(got_e.type) != shape(e.type):
            ck.discharged += 1
            ck.violation(f"type:{key}", f"the text {text!r} is read with type {got_e.type} instead of {e.type}", rep)
            return
        S = irsem.IRSem(env=w.env(names), fns=w.fns, lits=getattr(w, "lits_signed", {}))
        S.strict_bool = True
        try:
            got = S.ev(got_e)
            a = printers.canon(got, want)
            bad = sv.Not(sv.eq(got, a))
        except (sv.SortMismatch, KeyError, TypeError, AttributeError, NotImplementedError, irsem.Unsupported, z3.Z3Exception) as ex:
            ck.discharged += 1
            ck.violation(f"bad:{key}", f"the text {text!r} is read as {printers.describe(got_e)}, which has no meaning: {ex!r}", rep)
            return
        st, m = symx.solve(*w.cons, *S.defs, *[sv.Not(x) for x in errs], bad)
        if st == "sat":
            ck.discharged += 1
            ck.replays += 1
            conc = printers.model_env(m, env)
            lits = {str(v): m.eval(v, model_completion=True).as_long() for v in w.lits.values()}
            ck.violation(f"value:{key}", f"the text {text!r} is read as {printers.describe(got_e)}: at {conc} lits={lits} "
                         f"the text is {sv.conc(want, m)}, what was read {sv.conc(got, m)}",
                         {**rep, "read": printers.describe(got_e), "env": conc, "lits": lits})
            return
        if st != "unsat":
            return
    ck.discharged += 1


def item(k):
    if isinstance(k, tuple):
        import synthloop
        return synthloop.readback_item(ck, k)

    def path(p):
        w = gen.World()
        node, build, leaf = gen.shape(p, w, None, DEPTH)
        e = node(k, DEPTH)
        key = k + "/" + ".".join(str(v) for l, v in p.log if l in ("hole", "prod", "litsign"))
        w.rect = "transpose" in key or "col_slice" in key
        ck.sample(printers.describe(e))
        check_expr(e, w, key)

    symx.explore(path)


def main():
    global BE, DEPTH
    DEPTH = 3 if ck.thorough else 2
    BE = printers.RktBackend()
    ck.encoded(SR.to_expr, SR.generate_ast, SR.parse_output, SR.convert_expr)
    ck.bounds = {"expression depth": DEPTH, "list length": 2, "node kinds": len(gen.P)}
    import synthloop
    ck.parallel([("solution", i) for i in range(len(synthloop.problems()))] + gen.roots(), item)
    return ck.finish()


if __name__ == "__main__":
    report.main(main)
