"""P11: operators on typed objects build expressions with the intended meaning."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mlenv  # noqa
import z3

import gen
import irsem
import report
import smtcheck
import sv
import symx
from metalift import ir

I, B = z3.IntSort(), z3.BoolSort()
NL = ir.List[ir.List[ir.Int]]
TYPES = {"I": ir.Int, "B": ir.Bool, "L": gen.LInt, "M": gen.Mat, "N": NL, "Q": gen.T3, "S": gen.SetI,
         "T": gen.Tup, "W": gen.Tup3}
VARN = {"I": ["x", "y", "z"], "B": ["b", "c", "b"], "L": ["l", "k", "l"], "M": ["m", "n", "m"],
        "N": ["m", "n", "m"], "Q": ["q", "q", "q"], "S": ["s", "r", "s"], "T": ["t", "t"], "W": ["w", "w"]}


def mkobj(kind, name):
    return {"I": lambda: ir.Int(name), "B": lambda: ir.Bool(name), "L": lambda: ir.List(ir.Int, name),
            "M": lambda: ir.Matrix(ir.Int, name), "N": lambda: ir.List(ir.List[ir.Int], name),
            "Q": lambda: ir.Tensor3D(ir.Int, name), "S": lambda: ir.Set(ir.Int, name),
            "T": lambda: ir.Tuple((ir.Int, ir.Int), name),
            "W": lambda: ir.Tuple((ir.Int, ir.Bool, ir.Int), name)}[kind]()


OPS = {}


def op(name, ret, kinds, fn, orc):
    """orc(D, *vals): D(cond) states where the operation is defined."""
    OPS[name] = (ret, kinds, fn, orc)


def nonneg(D, *xs):
    D(sv.And(*[x >= 0 for x in xs]))


def divdom(D, a, b):
    D(sv.And(a >= 0, b > 0))


ARITH = {"+": (lambda a, b: a + b, lambda D, a, b: a + b),
         "-": (lambda a, b: a - b, lambda D, a, b: a - b),
         "*": (lambda a, b: a * b, lambda D, a, b: a * b),
         "//": (lambda a, b: a // b, lambda D, a, b: (divdom(D, a, b), a / b)[1]),
         "%": (lambda a, b: a % b, lambda D, a, b: (divdom(D, a, b), a % b)[1])}
CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b,
       ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
for n, (f, o) in ARITH.items():
    for ks in ("II", "Ii", "iI"):
        op(f"{n} {ks}", "I", ks, f, o)
for n, f in CMP.items():
    for ks in ("II", "Ii", "iI"):
        op(f"{n} {ks}", "B", ks, f, lambda D, a, b, f=f: f(a, b))
for n in ("==", "!="):
    for ks in ("BB", "Bp", "pB", "LL", "MM", "NN", "SS", "TT", "WW"):
        op(f"{n} {ks}", "B", ks, CMP[n],
           (lambda D, a, b: sv.eq(a, b)) if n == "==" else (lambda D, a, b: sv.Not(sv.eq(a, b))))
for ks in ("BB", "Bp", "BBB", "BpB"):
    op(f"And {ks}", "B", ks, lambda a, *b: a.And(*b), lambda D, *v: sv.And(*v))
    op(f"Or {ks}", "B", ks, lambda a, *b: a.Or(*b), lambda D, *v: sv.Or(*v))
op("Not", "B", "B", lambda a: a.Not(), lambda D, a: sv.Not(a))
op("implies", "B", "BB", ir.implies, lambda D, a, b: z3.Implies(a, b))
for k in "IBLMSTN":
    op(f"ite {k}", k, "B" + k + k, ir.ite, lambda D, c, a, b: sv.ite(c, a, b))

for k, ek, pre in (("L", "I", "list"), ("M", "L", "matrix"), ("N", "L", "nested"), ("Q", "M", "tensor")):
    op(f"len {k}", "I", k, lambda a: a.len(), lambda D, a: sv.llen(a))
    dflt = z3.IntVal(0) if k == "L" else sv.EMPTY

    def get(D, a, i, dflt=dflt):
        D(sv.And(i >= 0, i < sv.llen(a)))
        return sv.lget(a, i, dflt)

    def tail(D, a, i):
        D(sv.And(i >= 0, i <= sv.llen(a)))
        return sv.ltail(a, i)

    def take(D, a, i):
        D(sv.And(i >= 0, i <= sv.llen(a)))
        return sv.ltake(a, i)

    def slc(D, a, i, j):
        D(sv.And(0 <= i, i <= j, j <= sv.llen(a)))
        return sv.ltail(sv.ltake(a, j), i)

    def slcl(D, a, i, j):
        D(sv.And(0 <= i, 0 <= j, i + j <= sv.llen(a)))
        return sv.ltail(sv.ltake(a, i + j), i)

    for ik in "Ii":
        op(f"get {k}{ik}", ek, k + ik, lambda a, i: a[i], get)
        op(f"tail {k}{ik}", k, k + ik, lambda a, i: a[i:], tail)
        op(f"take {k}{ik}", k, k + ik, lambda a, i: a[:i], take)
    for ik in ("II", "Ii", "iI", "ii"):
        op(f"slice {k}{ik}", k, k + ik, lambda a, i, j: a[i:j], slc)
        op(f"slice_with_length {k}{ik}", k, k + ik, lambda a, i, j: a.slice_with_length(i, j), slcl)
    op(f"whole slice {k}", k, k, lambda a: a[:], lambda D, a: a)

    def inplace(meth):
        def f(a, e):
            before = a.src
            other = type(a)(a.elemT if hasattr(a, "elemT") else a.containedT, a.src)
            r = getattr(a, meth)(e)
            if r is not a and r.src is not a.src:
                raise AssertionError(f"{meth} did not change the list it was called on")
            if other.src is not before:
                raise AssertionError(f"{meth} changed another list")
            return a
        return f

    op(f"append {k}", k, k + ek, inplace("append"), lambda D, a, e: sv.lappend(a, e))
    op(f"prepend {k}", k, k + ek, inplace("prepend"), lambda D, a, e: sv.lprepend(e, a))
for k in "LMN":
    op(f"concat {k}", k, k + k, lambda a, b: a + b, lambda D, a, b: sv.lconcat(a, b))
op("empty L", "L", "", lambda: ir.List.empty(ir.Int), lambda D: sv.EMPTY)
op("empty M", "M", "", lambda: ir.Matrix.empty(ir.Int), lambda D: sv.EMPTY)
op("empty N", "N", "", lambda: ir.List.empty(ir.List[ir.Int]), lambda D: sv.EMPTY)
op("empty Q", "Q", "", lambda: ir.Tensor3D.empty(ir.Int), lambda D: sv.EMPTY)
op("default I", "I", "", lambda: ir.Int.default_value(), lambda D: z3.IntVal(0))
op("default B", "B", "", lambda: ir.Bool.default_value(), lambda D: sv.F)
op("default L", "L", "", lambda: ir.List.default_value(), lambda D: sv.EMPTY)
op("default M", "M", "", lambda: ir.Matrix.default_value(), lambda D: sv.EMPTY)


def lset(a, i, x):
    a[i] = x
    return a


for ik in "Ii":
    def setdom(D, a, i, x):
        D(sv.And(i >= 0, i < sv.llen(a)))
        return sv.lset(a, i, x)
    op(f"setitem L{ik}", "L", f"L{ik}I", lset, setdom)

# vector / matrix arithmetic by its documented name
PY = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b}


def vmap2(D, f, a, b):
    D(sv.llen(a) == sv.llen(b))
    r = None
    for n in a.alts:
        if n in b.alts:
            ga, va = a.alts[n]
            gb, vb = b.alts[n]
            x = sv.LV.of([f(p, q) for p, q in zip(va, vb)])
            r = x if r is None else sv.ite(ga, x, r)
    return r


def vmap(f, a):
    return sv.lmap_alts(a, lambda v: sv.LV.of([f(x) for x in v]))


def elem(name, D, a, b, depth):
    """a op b, elementwise with scalar broadcasting."""
    f = PY[name]

    def g(p, q):
        if name == "div":
            D(sv.And(p >= 0, q > 0))
        return f(p, q)

    def go(p, q):
        if sv.is_z3(p) and sv.is_z3(q):
            return g(p, q)
        if sv.is_z3(p):
            return vmap(lambda e: go(p, e), q)
        if sv.is_z3(q):
            return vmap(lambda e: go(e, q), p)
        return vmap2(D, go, p, q)

    return go(a, b)


for nm in ("add", "sub", "mul", "div"):
    for k, cls in (("L", ir.List), ("M", ir.Matrix)):
        for ks in (k + k, "I" + k, k + "I", "i" + k, k + "i"):
            op(f"{cls.__name__}.{nm} {ks}", k, ks, (lambda a, b, c=cls, n=nm: getattr(c, n)(a, b)),
               lambda D, a, b, n=nm: elem(n, D, a, b, 0))


def colslice(D, a, i, j):
    D(sv.And(0 <= i, i <= j))

    def rows(g, v):
        out = []
        for r in v:
            D(z3.Implies(g, j <= sv.llen(r)))
            out.append(sv.ltail(sv.ltake(r, j), i))
        return sv.LV.of(out)

    r = sv.EMPTY
    for n, (g, v) in a.alts.items():
        r = sv.ite(g, rows(g, v), r)
    return r


def transpose(D, a):
    S = irsem.IRSem()
    v = irsem.builtin(S, "matrix_transpose", [a])
    D(sv.And(*S.defs))
    return v


def colvec(D, a, i):
    D(sv.llen(a) > 0)
    D(i >= 0)
    r = sv.EMPTY
    for n, (g, v) in a.alts.items():
        for q in v:
            D(z3.Implies(g, i < sv.llen(q)))
        r = sv.ite(g, sv.LV.of([sv.lget(q, i, z3.IntVal(0)) for q in v]), r)
    return r


for ik in ("II", "Ii", "iI"):
    op(f"col_slice {ik}", "M", "M" + ik, lambda a, i, j: a.col_slice(i, j), colslice)
    op(f"col_slice_with_length {ik}", "M", "M" + ik, lambda a, i, j: a.col_slice_with_length(i, j),
       lambda D, a, i, j: (D(j >= 0), colslice(D, a, i, i + j))[1])
for ik in "Ii":
    op(f"col_vec {ik}", "L", "M" + ik, lambda a, i: a.col_vec(i), colvec)
op("transpose", "M", "M", lambda a: a.transpose(), transpose)

op("set add", "S", "SI", lambda s, e: s.add(e), lambda D, s, e: sv.sinsert(e, s))
op("set remove", "S", "SI", lambda s, e: s.remove(e), lambda D, s, e: sv.sminus(s, sv.sinsert(e, sv.sempty())))
op("set singleton", "S", "I", lambda e: ir.Set.singleton(e), lambda D, e: sv.sinsert(e, sv.sempty()))
op("set union", "S", "SS", lambda a, b: a.union(b), lambda D, a, b: sv.sunion(a, b))
op("set difference", "S", "SS", lambda a, b: a.difference(b), lambda D, a, b: sv.sminus(a, b))
op("set contains", "B", "SI", lambda s, e: s.__contains__(e), lambda D, s, e: sv.smember(e, s))
op("set empty", "S", "", lambda: ir.Set.empty(ir.Int), lambda D: sv.sempty())
op("make_tuple", "T", "II", lambda a, b: ir.make_tuple(a, b), lambda D, a, b: sv.TV([a, b]))
op("make_tuple3", "W", "IBI", lambda a, b, c: ir.make_tuple(a, b, c), lambda D, a, b, c: sv.TV([a, b, c]))
for i in (0, 1):
    op(f"tuple[{i}]", "I", "T", lambda t, i=i: t[i], lambda D, t, i=i: t.items[i])
    op(f"tuple[Int({i})]", "I", "T", lambda t, i=i: t[ir.Int(i)], lambda D, t, i=i: t.items[i])
for i, kk in enumerate("IBI"):
    op(f"tuple3[{i}]", kk, "W", lambda t, i=i: t[i], lambda D, t, i=i: t.items[i])


def usercall(name, ret, zf):
    return (lambda a, b: ir.call(name, TYPES[ret], a, b)), zf


_uf = z3.Function("userf0", I, I, I)
_ug = z3.Function("userg0", I, I, B)
op("call f", "I", "II", lambda a, b: ir.call("userf0", ir.Int, a, b), lambda D, a, b: _uf(a, b))
op("call g", "B", "II", lambda a, b: ir.call("userg0", ir.Bool, a, b), lambda D, a, b: _ug(a, b))
op("call_value", "I", "II", lambda a, b: ir.call_value(
    ir.Fn((ir.Int, ir.Int, ir.Int), "fnvar"), a, b), lambda D, a, b: _uf(b, a))


def via_decl(rec):
    def f(a, b):
        mk = ir.fn_decl_recursive if rec else ir.fn_decl
        d = mk("dd", ir.Int, ir.Int("p1") * 2 - ir.Int("p2"), ir.Int("p1"), ir.Int("p2"))
        return ir.call_value(ir.Fn((ir.Int, ir.Int, ir.Int), d), a, b)
    return f


op("fn_decl", "I", "II", via_decl(False), lambda D, a, b: a * 2 - b)
op("fn_decl_recursive", "I", "II", via_decl(True), lambda D, a, b: a * 2 - b)

FNS = {"userf0": lambda a, b: _uf(a, b), "userg0": lambda a, b: _ug(a, b)}


def _mk(fn, name, depth):
    FNS[fn] = name


def _kind(v):
    if isinstance(v, sv.LV):
        inner = {_kind(x) for xs in v.alts.values() for x in (xs[1] if isinstance(xs, tuple) else xs)}
        return "M" if any(k in "LM" for k in inner) else "L" if inner else "LM"
    return "I" if sv.is_z3(v) and z3.is_int(v) else "?"


def tensor(name, kinds, fn):
    """A tensor operation takes what its declaration says: no scalar in a vector's place."""
    def f(*a):
        if len(a) != len(kinds) or any(k not in _kind(x) for k, x in zip(kinds, a)):
            raise sv.SortMismatch(f"{name} applied to {[_kind(x) for x in a]}")
        return fn(*a)
    FNS[name] = f


for _n in PY:
    for _t, _k in (("vec", "L"), ("matrix", "M")):
        tensor(f"{_t}_elemwise_{_n}", _k + _k, lambda a, b, n=_n: elem(n, lambda c: None, a, b, 0))
        tensor(f"{_t}_scalar_{_n}", "I" + _k, lambda a, v, n=_n: elem(n, lambda c: None, v, a, 0))
        if _n in ("sub", "div"):
            tensor(f"scalar_{_t}_{_n}", "I" + _k, lambda a, v, n=_n: elem(n, lambda c: None, a, v, 0))


class Leaf:
    pass


def build(p, w, name, depth, dom):
    """(object, oracle value) of one operation whose argument at most one is compound."""
    ret, kinds, fn, orc = OPS[name]
    objs, vals = [], []
    used = {}
    spots = [i for i, k in enumerate(kinds) if k not in "ip"]
    hole = p.choice([None] + spots, "hole") if depth > 1 else None
    for i, k in enumerate(kinds):
        if k == "i":
            sign = p.choice([1, -1, 0], "litsign")
            if sign == 0:
                objs.append(0)
                vals.append(z3.IntVal(0))
                continue
            w.nlit += 1
            code = gen.LITBASE + w.nlit
            v = z3.Int(f"lit{w.nlit}")
            w.cons.append(v > 0)
            w.lits[code] = v
            w.lits_signed = {**getattr(w, "lits_signed", {}), code: v, -code: -v}
            objs.append(sign * code)
            vals.append(v if sign > 0 else -v)
        elif k == "p":
            bv = p.choice([True, False], "pbool")
            objs.append(bv)
            vals.append(z3.BoolVal(bv))
        elif i == hole:
            sub = p.choice([n for n, (r, *_) in OPS.items() if r == k], "sub")
            o, v = build(p, w, sub, depth - 1, dom)
            objs.append(o)
            vals.append(v)
        else:
            j = used.get(k, 0)
            used[k] = j + 1
            nm = VARN[k][j % len(VARN[k])]
            objs.append(mkobj(k, nm))
            vals.append(w.value(nm))
    exprs = [o.src if isinstance(o, ir.Object) else None for o in objs]
    srcs = [repr(e) for e in exprs]
    o = fn(*objs)
    for e, s in zip(exprs, srcs):
        if e is not None and repr(e) != s:
            raise AssertionError(f"{name} modified the expression {s} of its operand in place: {e!r}")
    return o, orc(dom.append, *vals)


def show(p, name):
    return name + "".join(f"/{v}" for l, v in p.log)


def run():
    ck = report.Check("P11")
    depth = int(os.environ.get("P11_DEPTH", "2"))
    ck.bounds = {"operators": len(OPS), "nesting": depth, "list_length": 2, "matrix": "2x2 ragged",
                 "int_width": "unbounded integers", "plain operands": "symbolic int literals of either sign, both booleans"}
    ck.assumptions = ["indices and slice bounds inside the list; divisors positive and dividends non-negative",
                      "calls to tensor operations mean what their names say (P18 decides the definitions)"]
    for c in (ir.Bool, ir.Int, ir.List, ir.Matrix, ir.Tensor3D, ir.Set, ir.Tuple):
        ck.encoded(c)
    ck.encoded(ir.ite, ir.implies, ir.call, ir.call_value, ir.make_tuple, ir.create_object, ir.fn_decl)

    def path(p, name, texts):
        w = gen.World()
        if "transpose" in name or "col" in name:
            w.rect = True
        dom = []
        key = None
        try:
            o, want = build(p, w, name, depth, dom)
        except symx.PathAbort:
            raise
        except Exception as ex:
            ck.obligation()
            ck.violation(f"raises:{show(p, name)}", f"{show(p, name)} raises {type(ex).__name__}: {ex}",
                         {"operation": show(p, name), "error": repr(ex)})
            return
        key = show(p, name)
        ret = OPS[name][0]
        ck.count("expressions")
        ck.sample(f"{key}: {o!r}")
        if not isinstance(o, ir.Object) or o.type != TYPES[ret] or o.src.type != TYPES[ret]:
            ck.obligation()
            ty = getattr(o, "type", type(o).__name__)
            ck.violation(f"type:{key}", f"{key} builds {o!r} of type {ty}, not {TYPES[ret]}",
                         {"operation": key, "type": str(ty)})
            return
        names = sorted(n for n in fvars(o.src) if n in gen.VARS)
        env = w.env(names)
        env["fnvar"] = sv.FV(lambda a, b: _uf(b, a), "fnvar")
        S = irsem.IRSem(env=env, fns=FNS, lits=getattr(w, "lits_signed", {}))
        try:
            got = S.ev(o.src)
            bad = sv.Not(sv.eq(want, got)) if want is not None else sv.F
        except (irsem.Unsupported, sv.SortMismatch, z3.Z3Exception, AttributeError, TypeError, KeyError) as ex:
            ck.obligation()
            ck.violation(f"meaning:{key}", f"{key} builds {o!r}, which has no meaning: {ex}",
                         {"operation": key, "error": repr(ex)})
            return
        base = [*w.cons, *dom]
        st, m = symx.solve(*base, sv.Or(bad, *[sv.Not(d) for d in S.defs]))
        ck.obligation(st != "unknown")
        if st == "sat":
            ck.replays += 1
            allv = {n: sv.conc(v, m) for n, v in w.vals.items()}
            ck.violation(f"value:{key}", f"{key} builds {o!r}; at {allv} it is {sv.conc(got, m)}, not {sv.conc(want, m)}",
                         {"operation": key, "expr": repr(o), "env": allv, "got": str(sv.conc(got, m)),
                          "want": str(sv.conc(want, m))})
        elif key.count("/") < 2 and symx.solve(*base, want_model=False)[0] == "sat":
            symx.STATS["reach"] += 1
        if texts is not None and not name.startswith("setitem") and "setitem" not in key and not key.count("Tensor") \
                and "Q" not in key and "userf0" not in repr(o) and "dd" not in repr(o):
            texts.append((key, o.src))

    def item(name):
        texts = []
        symx.explore(lambda p: path(p, name, texts))
        smt_types(ck, [t for t in texts if smt_printable(t[1])])

    ck.parallel(list(OPS), item)
    return ck.finish()


NOSMT = ("vec_elemwise", "matrix_elemwise", "vec_scalar", "matrix_scalar", "scalar_", "tensor3d", "list_set",
         "userf0", "userg0", "fnvar", "(dd")


def smt_printable(e):
    # matrices are not concatenated by the SMT library
    t = repr(e)
    return not any(n in t for n in NOSMT) and not concat_of_matrix(e)


def concat_of_matrix(e):
    if isinstance(e, ir.Call) and e.args[0] == "list_concat" and e.type != gen.LInt:
        return True
    return any(concat_of_matrix(a) for a in e.args if isinstance(a, ir.Expr))


def smt_types(ck, texts):
    """The printed SMT of every built expression is well-sorted for a real solver."""
    printed = []
    for key, e in texts:
        try:
            printed.append((key, key, e.toSMT()))
        except Exception as ex:
            ck.violation(f"print:{key}", f"{key} builds {e!r}, which cannot be printed to SMT: {ex!r}", {"operation": key})
    smtcheck.accepted(ck, printed)


def fvars(e, out=None):
    out = set() if out is None else out
    if isinstance(e, ir.Var):
        out.add(e.args[0])
    for a in e.args:
        if isinstance(a, ir.Expr):
            fvars(a, out)
    return out


if __name__ == "__main__":
    report.main(run)
