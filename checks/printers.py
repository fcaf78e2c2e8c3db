"""P06/P07/P08: printing an IR expression preserves its meaning."""
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mlenv  # noqa
import z3

import gen
import irsem
import pysem
import report
import rktsem
import smtcheck
import smtsem
import sv
import sx
import symx
from metalift import ir

LIB = os.path.join(mlenv.REPO, "metalift", "utils")


def to_set(v):
    """Rosette represents sets as sorted lists."""
    if isinstance(v, sv.SV):
        return v
    if isinstance(v, sv.LV):
        return gen.lv2set(v)
    raise sv.SortMismatch("not a set")


def canon(ir_value, v):
    """Bring a printed-language value to the oracle's representation."""
    if isinstance(ir_value, sv.SV):
        return to_set(v)
    if isinstance(ir_value, sv.TV) and isinstance(v, sv.LV):
        if len(v.alts) != 1:
            raise sv.SortMismatch("tuple")
        return sv.TV(list(v.alts.values())[0][1])
    return v


class SMTBackend:
    name = "smt"
    exclude = ("tensor3d_",)

    def __init__(self):
        self.text = open(os.path.join(LIB, "list-axioms.smt")).read()
        import copy

        self.base = smtsem.SMTSem()
        self.base.load(self.text)

    def excluded(self, k):
        # tensors have no SMT library; these node kinds do not exist there
        return k.startswith("tensor3d_")

    def printed(self, e):
        return e.toSMT()

    def evaluate(self, text, w, env, assume=()):
        S = smtsem.SMTSem(env=env, fns=w.fns, lits=w.lits)
        S.decl, S.uf, S.sorts = self.base.decl, self.base.uf, self.base.sorts
        v = S.term(text)
        return v, []


class RktBackend:
    name = "rosette"

    def __init__(self):
        self.base = rktsem.RktSem()
        self.base.load(open(os.path.join(LIB, "utils.rkt")).read())

    def excluded(self, k):
        # Rosette prints sets/tuples as lists; equality of tuples is list equality
        return False

    def printed(self, e):
        return e.to_rosette()

    def evaluate(self, text, w, env, assume=()):
        env = dict(env)
        for n in gen.VARS:
            if n in env and isinstance(env[n], sv.SV):
                env[n] = w.setlists[n]
            elif n in env and isinstance(env[n], sv.TV):
                env[n] = sv.LV.of(env[n].items)
        fns = dict(w.fns)
        fns["usert"] = lambda a, b: sv.LV.of(w.fns["usert"](a, b).items)
        fns["usert3"] = lambda a, b: sv.LV.of(w.fns["usert3"](a, b).items)
        S = rktsem.RktSem(env=env, fns=fns, lits=w.lits)
        S.assume = list(assume)
        S.defs = self.base.defs
        v = S.expr(text)
        return v, S.errs


class PyBackend:
    name = "python"

    def __init__(self):
        pass

    # node kinds Expr.to_python does not define (no Python form in the repo)
    NO = {"Implies", "LetI", "LetB", "LetL", "LetT"}

    def excluded(self, k):
        # set-* calls have no Python form; tensors, ps/inv as for any function
        return (k in self.NO or k.startswith("set-") or k.startswith("tensor3d_")
                or k in ("EqS", "IteS", "make-tuple", "make-tuple3", "matrix_col_slice_with_length"))

    def printed(self, e):
        return e.to_python()

    def evaluate(self, text, w, env, assume=()):
        fns = dict(w.fns)
        S0 = irsem.IRSem()
        fns["matrix_transpose"] = lambda m: irsem.builtin(S0, "matrix_transpose", [m])
        fns["matrix_col_slice"] = lambda m, a, b: irsem.builtin(S0, "matrix_col_slice", [m, a, b])
        fns["list_concat"] = sv.lconcat
        fns["tupleGet"] = lambda t, i: t.items[sv.as_const(i)]
        S = pysem.PySem(fns=fns, lits=w.lits)
        v = S.expr(text, env)
        return v, S.errs


PRINT_ERR = (rktsem.Dead, smtsem.Dead, smtsem.SMTError, rktsem.RktError, pysem.PyErr, sx.ReadError, sv.SortMismatch,
             SyntaxError, z3.Z3Exception)


def fvars(e, out=None):
    out = set() if out is None else out
    if isinstance(e, ir.Var):
        out.add(e.args[0])
    for a in e.args:
        if isinstance(a, ir.Expr):
            fvars(a, out)
    return out


def describe(e):
    try:
        return repr(e)
    except Exception:
        return type(e).__name__


def model_env(m, env):
    return {k: sv.conc(v, m) for k, v in env.items() if not isinstance(v, sv.FV)}


def check_expr(ck, be, e, w, key, feas=True):
    names = sorted(n for n in fvars(e) if n in gen.VARS)
    env = w.env(names)
    S = irsem.IRSem(env=env, fns=w.fns, lits=getattr(w, "lits_signed", {}))
    S.strict_bool = be.name == "rosette"
    want = S.ev(e)
    try:
        text = be.printed(e)
    except Exception as ex:
        ck.obligation()
        ck.violation(f"raises:{key}", f"{be.name} printing of {describe(e)} raises {type(ex).__name__}: {ex}",
                     {"expr": describe(e), "error": repr(ex)})
        return
    if be.name == "smt":
        ck.texts.append((key, describe(e), text))
    try:
        got, errs = be.evaluate(text, w, env, list(w.cons) + list(S.defs))
        got = canon(want, got)
        bad = sv.Not(sv.eq(want, got))
    except PRINT_ERR as ex:
        ck.obligation()
        if isinstance(ex, (sv.SortMismatch, rktsem.Dead, smtsem.Dead)) and \
                symx.solve(*w.cons, *S.defs, want_model=False)[0] == "unsat":
            return  # the source expression is nowhere defined
        ck.violation(f"reject:{key}", f"{be.name} text {text!r} for {describe(e)} is not accepted: {ex}",
                     {"expr": describe(e), "text": text, "error": repr(ex)})
        return
    base = list(w.cons) + list(S.defs)
    st, m = symx.solve(*base, sv.Or(bad, *errs))
    if st == "sat":
        ck.obligation()
        ck.replays += 1
        conc = model_env(m, env)
        lits = {str(v): m.eval(v, model_completion=True).as_long() for v in w.lits.values()}
        ck.violation(f"value:{key}",
                     f"{be.name} text {text!r} for {describe(e)} differs at {conc} lits={lits}: "
                     f"IR={sv.conc(want, m)} text={sv.conc(got, m)}",
                     {"expr": describe(e), "text": text, "env": conc, "lits": lits,
                      "ir_value": sv.conc(want, m), "printed_value": sv.conc(got, m)})
    elif st == "unsat":
        ck.obligation()
        # vacuity: the assumptions are satisfiable (checked per root kind)
        if key not in ck.twins:
            ck.twins.add(key)
            if symx.solve(*base, want_model=False)[0] == "sat":
                symx.STATS["reach"] += 1
            else:
                ck.vacuous.append(key)
    else:
        ck.obligation(False)


def run(pid, backend, depth):
    ck = report.Check(pid, "translation_validation")
    ck.twins, ck.vacuous = set(), []
    be = backend()
    ck.encoded(*[getattr(c, be_m) for c in vars(ir).values() if isinstance(c, type)
                 and issubclass(c, ir.Expr)
                 for be_m in [{"smt": "toSMT", "rosette": "to_rosette", "python": "to_python"}[be.name]]
                 if be_m in vars(c)])
    excl = {k for k in gen.P if be.excluded(k)}
    root_list = [r for r in gen.roots() if r not in excl]
    ck.bounds = {"expression_depth": depth, "list_length": 2, "matrix": "2x2 ragged", "set_size": 2,
                 "node_kinds": len(root_list), "int_width": "unbounded integers"}
    ck.assumptions = [
        "index/slice arguments in range and divisors positive, dividends non-negative (the domain on which all targets define the operation)",
        "sets in Rosette text are strictly sorted lists (the invariant of utils.rkt)",
        "text is interpreted by /verif/lib/{smtsem,rktsem,pysem}.py and the library text of metalift/utils",
    ]

    def path(p, k):
        w = gen.World()
        node, build, leaf = gen.shape(p, w, None, depth, exclude=excl)
        e = node(k, depth)
        key = k + "/" + ".".join(str(v) for l, v in p.log if l in ("hole", "prod", "litsign"))
        w.rect = "transpose" in key or "col_slice" in key
        ck.sample(describe(e))
        ck.count(k)
        check_expr(ck, be, e, w, key)

    def item(k):
        t = time.time()
        if isinstance(k, tuple):
            extra(ck, be, excl, *k)
        else:
            ck.texts = []
            symx.explore(lambda p: path(p, k))
            smtcheck.accepted(ck, ck.texts)
        ck.count("shapes whose domain is empty", len(ck.vacuous))
        if len(ck.vacuous) >= max(1, len(ck.twins)) and not ck.violations:
            ck.errors.append(f"vacuous: {k}")
        ck.vacuous.clear()
        ck.twins.clear()
        if os.environ.get("PROFILE"):
            print(k, f"{time.time() - t:.1f}s", ck.obligations, symx.STATS["solver_s"], flush=True)

    decls = [(rec, b) for rec in (False, True) for b in
             ("IteI", "Add3", "list_length", "list_get", "And2", "Sub", "list_append", "matrix_get", "TupleExpr", "TupleExpr3", "tget3_2",
              "set-insert", "matrix_append", "EqT", "IteM", "set-member", "EqB")
             if b not in excl and not (be.name == "python" and {gen.P[b][0], *gen.P[b][1]} & {gen.Tup, gen.Tup3, gen.SetI})]
    ck.parallel(root_list + decls, item)
    return ck.finish()


def extra(ck, be, excl, rec, body_k):
    """Function declarations: the printed definition computes the IR body."""
    def path(p):
        w = gen.World()
        node, build, leaf = gen.shape(p, w, None, 1, exclude=excl)
        e = node(body_k, 1)
        names = sorted(n for n in fvars(e) if n in gen.VARS)
        if p.choice(2, "order"):
            names = names[::-1]
        cls = ir.FnDeclRecursive if rec else ir.FnDecl
        d = cls("newfn", e.type, e, *[ir.Var(n, gen.VARS[n]) for n in names])
        env = w.env(names)
        S = irsem.IRSem(env=env, fns=w.fns)
        want = S.ev(e)
        key = f"decl:{cls.__name__}:{body_k}"
        try:
            text = be.printed(d)
        except Exception as ex:
            ck.obligation()
            ck.violation(f"raises:{key}", f"{be.name} printing of declaration {key} raises {ex!r}",
                         {"decl": key, "error": repr(ex)})
            return
        actual = [sv.FV and env[n] for n in names]
        try:
            got, errs = eval_decl(be, text, w, names, actual, e.type)
            got = canon(want, got)
            bad = sv.Not(sv.eq(want, got))
        except PRINT_ERR as ex:
            ck.obligation()
            ck.violation(f"reject:{key}", f"{be.name} declaration {text!r} is not accepted: {ex}",
                         {"decl": key, "text": text, "error": repr(ex)})
            return
        st, m = symx.solve(*w.cons, *S.defs, sv.Or(bad, *errs))
        ck.obligation(st != "unknown")
        if st == "sat":
            ck.violation(f"value:{key}", f"{be.name} declaration {text!r} computes another function",
                         {"decl": key, "text": text, "env": model_env(m, env)})

    symx.explore(path)


SORTS = {"Int": gen.Int, "Bool": gen.Bool, "(MLList Int)": gen.LInt, "(MLList (MLList Int))": gen.Mat,
         "(Set Int)": gen.SetI, "(Tuple2 Int Int)": gen.Tup, "(Tuple3 Int Bool Int)": gen.Tup3}


def eval_decl(be, text, w, names, actual, rett):
    if be.name == "smt":
        S = smtsem.SMTSem(fns=w.fns)
        S.decl, S.uf = dict(be.base.decl), dict(be.base.uf)
        S.load(text)
        ps, ret, body = S.decl["newfn"]
        if SORTS.get(sx.show(ret)) != rett:
            raise smtsem.SMTError(f"result declared {sx.show(ret)}")
        for (pn, ps_), n in zip(ps, names):
            if SORTS.get(sx.show(ps_)) != gen.VARS[n]:
                raise smtsem.SMTError(f"parameter {pn} declared {sx.show(ps_)}")
        return S.app("newfn", actual, {}), []
    if be.name == "rosette":
        actual = [w.setlists[n] if isinstance(a, sv.SV) else sv.LV.of(a.items) if isinstance(a, sv.TV)
                  else a for n, a in zip(names, actual)]
        S = rktsem.RktSem(fns=w.fns)
        S.defs = dict(be.base.defs)
        S.load(text)
        return S.app("newfn", actual, {}), S.errs
    S = pysem.PySem(fns=w.fns)
    S.load(text)
    return S.call("newfn", actual), S.errs


BACK = {"P06": SMTBackend, "P07": RktBackend, "P08": PyBackend}

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    report.main(lambda: run(pid, BACK[pid], 2 if tier == "quick" else 3))
