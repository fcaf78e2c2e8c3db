"""P10 / P22: rewriting and comparing IR expressions (real metalift.ir code)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mlenv  # noqa
import z3

import gen
import irsem
import report
import sv
import symx
from metalift import ir
from metalift import synthesis_common, vc_util
from metalift.frontend.utils import ObjectSet

Int, Bool = ir.Int, ir.Bool


def V(n, t=Int):
    return ir.Var(n, t)


def L(v):
    return ir.Lit(v, Bool if isinstance(v, bool) else Int)


def show(e):
    try:
        return repr(e)
    except Exception:
        return type(e).__name__


def fvars(e, out=None):
    out = set() if out is None else out
    if isinstance(e, ir.Var):
        out.add(e.args[0])
    for a in e.args:
        if isinstance(a, ir.Expr):
            fvars(a, out)
    return out


def meaning(e, w, env):
    S = irsem.IRSem(env=env, fns=w.fns, lits=getattr(w, "lits_signed", {}))
    return S.ev(e), S.defs


def same(ck, key, old, new, w, oldenv, newenv=None, what=""):
    """∀ values: meaning(new) in newenv == meaning(old) in oldenv."""
    v0, d0 = meaning(old, w, oldenv)
    try:
        v1, d1 = meaning(new, w, newenv or oldenv)
        bad = sv.Not(sv.eq(v0, v1))
    except Exception as ex:
        ck.obligation()
        if symx.solve(*w.cons, *d0, want_model=False)[0] == "unsat":
            return
        ck.violation(f"shape:{key}", f"{what}{show(old)} became {show(new)}: {ex!r}",
                     {"old": show(old), "new": show(new)})
        return
    st, m = symx.solve(*w.cons, *d0, sv.Or(bad, *[sv.Not(d) for d in d1]))
    ck.obligation(st != "unknown")
    if st == "sat":
        ck.replays += 1
        ck.violation(f"value:{key}", f"{what}{show(old)} became {show(new)}, which differs",
                     {"old": show(old), "new": show(new),
                      "env": {k: sv.conc(v, m) for k, v in oldenv.items() if not isinstance(v, sv.FV)}})


def guarded(ck, key, e, f):
    try:
        return f()
    except symx.PathAbort:
        raise
    except Exception as ex:
        ck.obligation()
        ck.violation(f"raises:{key}", f"{key} raises {type(ex).__name__}: {ex} on {show(e)}", {"expr": show(e)})
        return None


# ---- P10: transformations of arbitrary expressions ------------------------
def p10_shapes(ck, k, depth):
    def path(p):
        w = gen.World()
        node, build, leaf = gen.shape(p, w, None, depth)
        e = node(k, depth)
        names = sorted(n for n in fvars(e) if n in gen.VARS)
        env = w.env(names)
        log = "/".join(str(v) for l, v in p.log if l in ("hole", "prod", "litsign"))
        key = f"{k}/{log}"
        ck.count(k)
        ck.sample(show(e))

        def ident(x):
            return x.map_args(ident) if isinstance(x, ir.Expr) else x

        r = guarded(ck, "map_args:" + key, e, lambda: ident(e))
        if r is not None:
            same(ck, "map_args:" + key, e, r, w, env, what="identity map: ")
            if r.type != e.type:
                ck.violation("maptype:" + key, f"identity map changes the type of {show(e)}", {})
        r = guarded(ck, "simplify:" + key, e, lambda: e.simplify())
        if r is not None:
            same(ck, "simplify:" + key, e, r, w, env, what="simplify: ")
        # substitution lemma: [[e[x:=t]]](env) = [[e]](env[x:=[[t]]env])
        if names:
            n = names[p.choice(len(names), "substvar")]
            t = gen.VARS[n]
            other = {Int: lambda: ir.Add(V("zz"), L(1)), Bool: lambda: ir.Not(V("bb", Bool))}.get(
                t, lambda: V("o_" + n, t))()
            env2 = dict(env)
            if t is Int:
                env2["zz"] = z3.Int("zz")
                val = env2["zz"] + 1
            elif t is Bool:
                env2["bb"] = z3.Bool("bb")
                val = sv.Not(env2["bb"])
            else:
                w2 = gen.World()
                val = rename(w2, n, t)
                w.cons += w2.cons
                env2["o_" + n] = val
            e0 = {**env2, n: val}
            # e0's list sizes are another variable's, so definedness is over e0
            r = guarded(ck, "rewrite:" + key, e, lambda: e.rewrite({n: other}))
            if r is not None:
                same(ck, f"rewrite:{n}:" + key, e, r, w, e0, env2, what=f"substituting {n}: ")
            # replacing a sub-expression by a name keeps the meaning when the name denotes it
        subs = [a for a in e.args if isinstance(a, ir.Expr) and not isinstance(a, (ir.Var, ir.Lit))]
        if subs and not isinstance(e, ir.Let):
            s = subs[0]
            if not any(isinstance(x, ir.Let) for x in walk(e)):
                val, _ = meaning(s, w, env)
                r = guarded(ck, "replace:" + key, e,
                            lambda: ir.Expr.replaceExprs(e, [s], ir.PrintMode.SMT))
                if r is not None:
                    same(ck, "replace:" + key, e, r, w, env, {**env, "v0": val}, what="naming a sub-expression: ")

    symx.explore(path)


def walk(e):
    yield e
    for a in e.args:
        if isinstance(a, ir.Expr):
            yield from walk(a)


def rename(w, n, t):
    gen.VARS["o_" + n] = t
    try:
        return w.value("o_" + n)
    finally:
        del gen.VARS["o_" + n]


# ---- P10: boolean simplification with literals and nesting ----------------
def p10_bool(ck, root):
    atoms = [lambda: V("a", Bool), lambda: V("b", Bool), lambda: L(True), lambda: L(False)]

    def path(p):
        def build(d):
            opts = ["atom"] if d == 0 else ["atom", "and1", "and2", "and3", "or2", "not", "implies", "ite"]
            k = p.choice(opts, "k") if d < 2 else root
            if k == "atom":
                return atoms[p.choice(len(atoms), "atom")]()
            n = {"and1": 1, "and2": 2, "and3": 3, "or2": 2, "not": 1, "implies": 2, "ite": 3}[k]
            deep = p.choice(n, "deep") if d > 1 else -1
            xs = [build(d - 1) if i == deep or d <= 1 else build(0) for i in range(n)]
            return {"and": ir.And, "or": ir.Or, "not": ir.Not, "implies": ir.Implies, "ite": ir.Ite}[k.rstrip("123")](*xs)

        e = build(2)
        w = gen.World()
        env = {"a": z3.Bool("a"), "b": z3.Bool("b")}
        key = "bool:" + show(e)
        r = guarded(ck, "simplify:" + key, e, lambda: e.simplify())
        if r is not None:
            same(ck, "simplify:" + key, e, r, w, env, what="simplify: ")

    symx.explore(path)


# ---- P10: pruning of conditionals in synthesised declarations ---------------
def p10_prune(ck):
    def path(p):
        gb = p.choice(["true", "false", "other", "absent"], "g")
        body_g = {"true": L(True), "false": L(False), "other": ir.Lt(V("u"), L(3)), "absent": None}[gb]
        cond = {
            "lit": lambda: L(p.choice([True, False], "lv")),
            "var": lambda: V("c", Bool),
            "call": lambda: ir.Call("g", Bool, V("x")),
            "lt": lambda: ir.Lt(V("x"), L(0)),
            "nested": lambda: ir.Ite(L(True), V("c", Bool), L(False)),
            "eqlit": lambda: ir.Eq(L(1), L(1)),
        }

        def build(d):
            k = p.choice(["var", "lit", "add", "ite", "call"] if d else ["var", "lit"], "k")
            if k == "var":
                return V("x")
            if k == "lit":
                return L(p.choice([0, 1], "lit"))
            if k == "add":
                return ir.Add(build(d - 1), V("y"))
            if k == "call":
                return ir.Call("h", Int, build(d - 1), V("y"))
            c = cond[p.choice(list(cond), "cond")]()
            a, b = (build(d - 1), V("y")) if p.choice(2, "side") else (V("y"), build(d - 1))
            return ir.Ite(c, a, b)

        body = build(2)
        rec = p.choice(2, "rec")
        cls = ir.FnDeclRecursive if rec else ir.FnDecl
        fns = {"f": cls("f", Int, body, V("x"), V("y"), V("c", Bool))}
        if body_g is not None:
            fns["g"] = ir.FnDecl("g", Bool, body_g, V("u"))
        key = f"prune:{gb}:{show(body)}"
        r = guarded(ck, key, body, lambda: synthesis_common.prune_fn_decls(dict(fns)))
        if r is None:
            return
        if set(r) != set(fns) or any(type(r[n]) is not type(fns[n]) or r[n].name() != n for n in fns) or \
                [a.args[0] for a in r["f"].arguments()] != ["x", "y", "c"]:
            ck.violation("prunedecl:" + key, "pruning changes a declaration's name or parameters", {"body": show(body)})
            return
        env = {"x": z3.Int("x"), "y": z3.Int("y"), "c": z3.Bool("c")}
        h = z3.Function("h", z3.IntSort(), z3.IntSort(), z3.IntSort())
        w = gen.World()
        w.fns = {**w.fns, "h": lambda a, b: h(a, b)}
        gz = z3.Function("g", z3.IntSort(), z3.BoolSort())
        if body_g is None:
            w.fns["g"] = lambda a: gz(a)
        else:
            w.fns["g"] = lambda a: irsem.IRSem(env={"u": a}).ev(body_g)
        same(ck, key, fns["f"].body(), r["f"].body(), w, env, what="prune: ")

    symx.explore(path)


# ---- P10: the useless-equality optimiser (validity) -----------------------
UI = z3.Function("t", z3.IntSort(), z3.IntSort())
PI = z3.Function("p", z3.IntSort(), z3.BoolSort())
EQS = [("x", "y"), ("y", "x"), ("x", 3), (3, "x"), ("x", "y1"), ("x", "x"), ("y", "z"), ("z", "x1"), ("t(x)", "y")]


def term(t):
    if isinstance(t, int):
        return L(t)
    if t.endswith("1"):
        return ir.Add(V(t[0]), L(1))
    if t.startswith("t("):
        return ir.Call("t", Int, V(t[2]))
    return V(t)


def p10_useless(ck, item, thorough):
    eqs = EQS if thorough else EQS[:5] + EQS[6:]

    def eqn(p):
        a, b = eqs[p.choice(len(eqs), "eq")]
        return ir.Eq(term(a), term(b))

    def atom(p):
        k = p.choice(["eq", "p(x)", "p(y)", "true", "false", "not", "lt"], "atom")
        if k == "eq":
            return eqn(p)
        if k == "not":
            return ir.Not(eqn(p))
        if k == "lt":
            return ir.Lt(V("x"), V("y"))
        if k in ("true", "false"):
            return L(k == "true")
        return ir.Call("p", Bool, V(k[2]))

    def form(p, k):
        if k == "impl":
            return ir.Implies(eqn(p), atom(p))
        if k == "impl2":
            return ir.Implies(ir.And(eqn(p), eqn(p)), atom(p))
        if k == "impl2r":
            return ir.Implies(ir.And(eqn(p), atom(p)), eqn(p))
        if k == "nest":
            return ir.Implies(eqn(p), ir.Implies(eqn(p), atom(p)))
        if k == "negimpl":
            return ir.Implies(ir.Implies(eqn(p), atom(p)), atom(p))
        if k == "notimpl":
            return ir.Not(ir.Implies(eqn(p), atom(p)))
        if k == "orimpl":
            return ir.Or(ir.Implies(eqn(p), atom(p)), atom(p))
        if k == "eqimpl":
            return ir.Eq(ir.Implies(eqn(p), atom(p)), atom(p))
        if k == "andimpl":
            return ir.And(ir.Implies(eqn(p), atom(p)), ir.Implies(eqn(p), ir.Call("p", Bool, V("x"))))
        if k == "impl3":
            return ir.Implies(ir.And(eqn(p), eqn(p), ir.Eq(V("x"), L(1))), atom(p))
        if k == "implb":
            return ir.Implies(ir.Eq(V("bb", Bool), ir.Lt(V("x"), L(3))), ir.Or(V("bb", Bool), atom(p)))
        if k == "impland":
            return ir.Implies(eqn(p), ir.And(atom(p), eqn(p)))
        if k == "iteimpl":
            return ir.Ite(ir.Implies(eqn(p), atom(p)), atom(p), ir.Call("p", Bool, V("y")))

    def path(p):
        e = form(p, item)
        key = f"useless:{show(e)}"

        def run():
            counts = {}
            e.count_variable_uses(counts)
            nv = set()
            return e.optimize_useless_equality(counts, nv).simplify(), nv

        r = guarded(ck, key, e, run)
        if r is None:
            return
        new, nv = r
        ck.sample(show(e))
        fns = {"t": lambda a: UI(a), "p": lambda a: PI(a)}
        env = {n: z3.Int(n) for n in "xyz"}
        env["bb"] = z3.Bool("bb")
        for v in nv:
            env[v.args[0]] = z3.Bool(v.args[0])
        try:
            o = irsem.IRSem(env=env, fns=fns).ev(e)
            n = irsem.IRSem(env=env, fns=fns).ev(new)
        except Exception as ex:
            ck.obligation()
            ck.violation("shape:" + key, f"optimiser turned {show(e)} into {show(new)}: {ex!r}", {"expr": show(e)})
            return
        so, mo = symx.solve(sv.Not(o))
        sn, mn = symx.solve(sv.Not(n))
        ck.obligation("unknown" not in (so, sn))
        if {so, sn} == {"sat", "unsat"}:
            ck.replays += 1
            word = "an invalid condition valid" if so == "sat" else "a valid condition invalid"
            ck.violation(key, f"optimiser makes {word}: {show(e)} -> {show(new)}",
                         {"expr": show(e), "new": show(new), "model": str(mo or mn)})

    symx.explore(path)


FORMS = ["impl", "impl2", "impl2r", "nest", "negimpl", "notimpl", "orimpl", "eqimpl", "andimpl", "impl3",
         "implb", "impland", "iteimpl"]


def run10(ck):
    E = ir.Expr
    ck.encoded(E.map_args, E.simplify, E.rewrite, E.replaceExprs, E.collectKnowledge,
               E.optimize_useless_equality, E.count_variable_uses, synthesis_common.prune_fn_decls)
    ck.bounds = {"expression_depth": 2, "list_length": 2, "condition_forms": FORMS,
                 "equalities": len(EQS), "integers": "unbounded"}
    ck.assumptions = ["oracle: lib/irsem.py", "free functions are uninterpreted"]
    items = [("shape", k) for k in gen.roots()] + [("useless", f) for f in FORMS] + [("prune", "")]
    items += [("bool", k) for k in ("and1", "and2", "and3", "or2", "not", "implies", "ite")]

    def one(it):
        kind, k = it
        if kind == "shape":
            p10_shapes(ck, k, 2)
        elif kind == "useless":
            p10_useless(ck, k, ck.thorough)
        elif kind == "bool":
            p10_bool(ck, k)
        else:
            p10_prune(ck)

    ck.parallel(items, one)
    return ck.finish()


# ---- P22 -------------------------------------------------------------------
class SymLit(int):
    """An integer literal whose value is symbolic; comparing it forks."""

    def __new__(cls, v):
        o = int.__new__(cls, 7)
        o.v = v
        return o

    def _t(self, o):
        return o.v if isinstance(o, SymLit) else z3.IntVal(int(o)) if isinstance(o, int) else None

    def __eq__(self, o):
        t = self._t(o)
        return False if t is None else symx.SymBool(self.v == t)

    def __ne__(self, o):
        t = self._t(o)
        return True if t is None else symx.SymBool(self.v != t)

    def __hash__(self):
        return 0

    def __repr__(self):
        return str(self.v)


def leaves(t, side):
    """Leaf alternatives of a type: variables in two orders, literals."""
    out = [lambda n=n: ir.Var(n, t) for n in gen.POOL[t][:2]]
    if t is Int:
        out += [lambda: ir.Lit(SymLit(z3.Int("lit" + side)), Int)]
    if t is Bool:
        out += [lambda: ir.Lit(True, Bool), lambda: ir.Lit(False, Bool), lambda: ir.Lt(V("x"), V("y"))]
    return out


def value(e, w):
    """IR meaning with symbolic literals."""
    S = irsem.IRSem(env=w.env(), fns=w.fns)
    old = irsem.IRSem.e_Lit

    def lit(self, e, env):
        return e.args[0].v if isinstance(e.args[0], SymLit) else old(self, e, env)

    S.e_Lit = lit.__get__(S)
    return S.ev(e), S.defs


def p22_pairs(ck, k):
    ret, ats, mk = gen.P[k]

    def build(p, side, kk):
        r, at, m = gen.P[kk]
        args = []
        for i, a in enumerate(at):
            opts = leaves(a, side)
            args.append(opts[p.choice(len(opts), side)]())
        return m(*args)

    def path(p):
        w = gen.World(bound=1, cols=1)
        other = p.choice([k] + sorted(x for x in gen.P if gen.P[x][0] == ret and x != k), "other")
        a = build(p, "l", k)
        if other == k:
            b = build(p, "r", k)
        else:
            b = gen.P[other][2](*[leaves(t, "r")[0]() for t in gen.P[other][1]])
        eq = ir.Expr.__eq__(a, b)
        ab = bool(eq)
        ba = bool(ir.Expr.__eq__(b, a))
        ck.count(k)
        key = f"{show(a)} ? {show(b)}"
        pc = list(p.pc)
        if ab != ba:
            ck.obligation()
            ck.violation("sym:" + key, f"equality is not symmetric: {key}", {})
            return
        if bool(ir.Expr.__ne__(a, b)) == ab:
            ck.obligation()
            ck.violation("ne:" + key, f"!= is not the negation of ==: {key}", {})
            return
        if ab:
            va, da = value(a, w)
            vb, db = value(b, w)
            try:
                bad = sv.Not(sv.eq(va, vb))
            except sv.SortMismatch:
                bad = sv.T
            st, m = symx.solve(*pc, *w.cons, *da, *db, bad)
            ck.obligation(st != "unknown")
            if st == "sat":
                ck.replays += 1
                ck.violation("eq:" + key, f"expressions compare equal but differ in value: {key}", {"model": str(m)})
            if hash_of(a) != hash_of(b):
                ck.violation("hash:" + key, f"equal expressions hash differently: {key}", {})
        else:
            # structurally identical expressions must compare equal
            st, m = symx.solve(*pc, ident(a, b))
            ck.obligation(st != "unknown")
            if st == "sat":
                ck.replays += 1
                ck.violation("neq:" + key, f"identical expressions compare different: {key}", {"model": str(m)})

    symx.explore(path)


def hash_of(e):
    try:
        return ir.Expr.__hash__(e)
    except Exception as ex:
        return repr(ex)


def ident(a, b):
    """Formula: a and b are the same tree."""
    if isinstance(a, ir.Expr) != isinstance(b, ir.Expr):
        return sv.F
    if not isinstance(a, ir.Expr):
        if isinstance(a, SymLit) or isinstance(b, SymLit):
            if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool):
                return (a.v if isinstance(a, SymLit) else z3.IntVal(a)) == (b.v if isinstance(b, SymLit) else z3.IntVal(b))
            return sv.F
        return sv.T if type(a) is type(b) and a == b else sv.F
    if type(a) is not type(b) or len(a.args) != len(b.args) or a.type != b.type:
        return sv.F
    return sv.And(*[ident(x, y) for x, y in zip(a.args, b.args)])


def p22_lits(ck):
    """Literals of different types are different expressions."""
    for b in (True, False):
        def path(p):
            l = ir.Lit(SymLit(z3.Int("n")), Int)
            r = ir.Lit(b, Bool)
            ck.obligation()
            if bool(ir.Expr.__eq__(l, r)):
                st, m = symx.solve(*p.pc)
                ck.violation(f"eq:int-literal=={b}", f"the integer literal {m.eval(z3.Int('n'))} compares equal to the boolean {b}", {})
        symx.explore(path)

    def path3(p):
        """transitivity over mixed literals and variables"""
        mk = [lambda s: ir.Lit(SymLit(z3.Int("n" + s)), Int), lambda s: V("x"), lambda s: ir.Add(V("x"), ir.Lit(SymLit(z3.Int("n" + s)), Int)),
              lambda s: ir.Lit(True, Bool), lambda s: ir.Add(ir.Lit(SymLit(z3.Int("n" + s)), Int), V("x"))]
        a, b, c = (mk[p.choice(len(mk), "m")](s) for s in "abc")
        r = [bool(ir.Expr.__eq__(a, b)), bool(ir.Expr.__eq__(b, c))]
        if all(r):
            ac = bool(ir.Expr.__eq__(a, c))
            ck.obligation()
            if not ac:
                ck.violation("trans", f"equality is not transitive: {show(a)} {show(b)} {show(c)}", {})
    symx.explore(path3)


def p22_sets(ck, n):
    """ObjectSet, and_objects, or_objects over symbolic lists of conjuncts."""
    def conj(p, i):
        k = p.choice(["a", "b", "lt", "lit", "gt", "true", "not"], "conj")
        return {"a": lambda: ir.Bool(V("a", Bool)), "b": lambda: ir.Bool(V("b", Bool)),
                "lt": lambda: ir.Bool(ir.Lt(V("x"), V("y"))), "gt": lambda: ir.Bool(ir.Lt(V("y"), V("x"))),
                "lit": lambda: ir.Bool(ir.Lt(V("x"), ir.Lit(SymLit(z3.Int(f"k{i}")), Int))),
                "true": lambda: ir.Bool(True), "not": lambda: ir.Bool(ir.Not(V("a", Bool)))}[k]()

    def path(p):
        w = gen.World()
        env = {"a": z3.Bool("a"), "b": z3.Bool("b"), "x": z3.Int("x"), "y": z3.Int("y")}
        w.vals.update(env)
        w.env = lambda names=None: env
        objs = [conj(p, i) for i in range(n)]
        vals = [value(o.src, w)[0] for o in objs]
        for nm, f, op in (("and", vc_util.and_objects, sv.And), ("or", vc_util.or_objects, sv.Or)):
            r = f(*objs)
            got = value(r.src, w)[0]
            st, m = symx.solve(*p.pc, sv.Not(sv.eq(got, op(*vals))))
            ck.obligation(st != "unknown")
            if st == "sat":
                ck.violation(f"{nm}:{[show(o.src) for o in objs]}", f"{nm}_objects changes the meaning of {[show(o.src) for o in objs]}: {show(r.src)}",
                             {"model": str(m)})
        # set laws
        S = ObjectSet(objs[:-1])
        last = objs[-1]
        T = ObjectSet(objs[:1])
        for what, res, want in (
            ("contains", last in S, [z3ident(last, o) for o in objs[:-1]]),
        ):
            f = sv.Or(*want)
            st, m = symx.solve(*p.pc, f if not res else sv.Not(f))
            ck.obligation(st != "unknown")
            if st == "sat":
                ck.violation("set:" + what, f"ObjectSet {what} is wrong on {[show(o.src) for o in objs]}", {})
        members(ck, p, "add", setadd(objs[:-1], last), objs, lambda o: sv.T)
        members(ck, p, "union", list(S + ObjectSet([last])), objs, lambda o: sv.T)
        members(ck, p, "minus", list(ObjectSet(objs) - T), objs, lambda o: sv.Not(z3ident(o, objs[0])))

    symx.explore(path)


def setadd(objs, o):
    S = ObjectSet(objs)
    S.add(o)
    return list(S)


def z3ident(a, b):
    return ident(a.src, b.src)


def members(ck, p, what, got, universe, want):
    """got contains o (up to identity) exactly when want(o), once."""
    for o in universe:
        f = sv.Or(*[z3ident(o, g) for g in got])
        st, m = symx.solve(*p.pc, z3.Xor(f, want(o)))
        ck.obligation(st != "unknown")
        if st == "sat":
            ck.violation(f"set:{what}", f"object set {what} is wrong for {[show(x.src) for x in universe]}", {"model": str(m)})
    for i, g in enumerate(got):
        for h in got[:i]:
            st, m = symx.solve(*p.pc, z3ident(g, h))
            ck.obligation(st != "unknown")
            if st == "sat":
                ck.violation(f"setdup:{what}", f"object set {what} keeps duplicates", {})


def run22(ck):
    ck.encoded(ir.Expr.__eq__, ir.Expr.__ne__, ir.Expr.__hash__, ObjectSet, vc_util.and_objects, vc_util.or_objects,
               vc_util.and_exprs, vc_util.or_exprs)
    ck.bounds = {"pairs": "all node kinds x all node kinds of the same result type, leaves permuted",
                 "literals": "symbolic integers", "conjuncts": 3}
    ck.assumptions = ["oracle: lib/irsem.py"]
    items = [("pair", k) for k in gen.P] + [("lits", ""), ("sets", 1), ("sets", 2), ("sets", 3)]

    def one(it):
        kind, k = it
        if kind == "pair":
            p22_pairs(ck, k)
        elif kind == "sets":
            p22_sets(ck, k)
        else:
            p22_lits(ck)

    ck.parallel(items, one)
    return ck.finish()


if __name__ == "__main__":
    pid = sys.argv[1]
    report.main(lambda: {"P10": run10, "P22": run22}[pid](report.Check(pid, "model_checking")))
