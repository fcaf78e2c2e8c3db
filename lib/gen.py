"""Typed generator of IR expressions whose shape is a symbolic choice and whose
variables and literals are symbolic.  One path = one shape; every value of the
variables/literals on that path is decided by the solver."""
import z3

import mlenv  # noqa
import sv
import symx
from metalift import ir

Int, Bool, LInt, LMat, Mat, T3, SetI, Tup = (
    ir.Int, ir.Bool, ir.List[ir.Int], ir.List[ir.List[ir.Int]], ir.Matrix[ir.Int],
    ir.Tensor3D[ir.Int], ir.Set[ir.Int], ir.Tuple[tuple[ir.Int, ir.Int]])
Tup3 = ir.Tuple[tuple[ir.Int, ir.Bool, ir.Int]]
FnII = ir.Fn[tuple[ir.Int, ir.Int]]

LITBASE = 7770001


def C(name, ret):
    return lambda *xs: ir.Call(name, ret, *xs)


def tget(ret, i):
    return lambda t: ir.Call("tupleGet", ret, t, ir.Lit(i, Int))


# name -> (result type, argument types, constructor)
P = {}


def prod(name, ret, args, mk):
    P[name] = (ret, args, mk)


prod("Add2", Int, [Int, Int], ir.Add)
prod("Add3", Int, [Int, Int, Int], ir.Add)
prod("Sub", Int, [Int, Int], ir.Sub)
prod("Mul2", Int, [Int, Int], ir.Mul)
prod("Mul3", Int, [Int, Int, Int], ir.Mul)
prod("Div", Int, [Int, Int], ir.Div)
prod("Mod", Int, [Int, Int], ir.Mod)
prod("IteI", Int, [Bool, Int, Int], ir.Ite)
prod("IteB", Bool, [Bool, Bool, Bool], ir.Ite)
prod("IteL", LInt, [Bool, LInt, LInt], ir.Ite)
prod("IteM", Mat, [Bool, Mat, Mat], ir.Ite)
prod("EqI", Bool, [Int, Int], ir.Eq)
prod("EqB", Bool, [Bool, Bool], ir.Eq)
prod("EqL", Bool, [LInt, LInt], ir.Eq)
prod("EqM", Bool, [Mat, Mat], ir.Eq)
prod("Lt", Bool, [Int, Int], ir.Lt)
prod("Le", Bool, [Int, Int], ir.Le)
prod("Gt", Bool, [Int, Int], ir.Gt)
prod("Ge", Bool, [Int, Int], ir.Ge)
prod("And2", Bool, [Bool, Bool], ir.And)
prod("And3", Bool, [Bool, Bool, Bool], ir.And)
prod("Or2", Bool, [Bool, Bool], ir.Or)
prod("Or3", Bool, [Bool, Bool, Bool], ir.Or)
prod("Not", Bool, [Bool], ir.Not)
prod("Implies", Bool, [Bool, Bool], ir.Implies)
prod("LetI", Int, [Int, Int], lambda a, b: ir.Let(ir.Var("lv", Int), a, ir.Add(ir.Var("lv", Int), b)))
prod("LetB", Bool, [Int, Bool], lambda a, b: ir.Let(ir.Var("x", Int), a, ir.And(ir.Gt(ir.Var("x", Int), ir.Lit(0, Int)), b)))
prod("LetL", LInt, [LInt, Int], lambda a, b: ir.Let(
    ir.Var("ll", LInt), a, ir.Call("list_append", LInt, ir.Var("ll", LInt), b)))
for pre, lt, et in (("list", LInt, Int), ("matrix", Mat, LInt), ("tensor3d", T3, Mat)):
    prod(f"{pre}_length", Int, [lt], C(f"{pre}_length", Int))
    prod(f"{pre}_get", et, [lt, Int], C(f"{pre}_get", et))
    prod(f"{pre}_append", lt, [lt, et], C(f"{pre}_append", lt))
    prod(f"{pre}_prepend", lt, [et, lt], C(f"{pre}_prepend", lt))
    prod(f"{pre}_tail", lt, [lt, Int], C(f"{pre}_tail", lt))
    prod(f"{pre}_take", lt, [lt, Int], C(f"{pre}_take", lt))
    prod(f"{pre}_empty", lt, [], C(f"{pre}_empty", lt))
    sl = {"list": "vec_slice", "matrix": "matrix_row_slice", "tensor3d": "tensor3d_slice"}[pre]
    prod(sl, lt, [lt, Int, Int], C(sl, lt))
    prod(sl + "_with_length", lt, [lt, Int, Int], C(sl + "_with_length", lt))
prod("list_concat", LInt, [LInt, LInt], C("list_concat", LInt))
prod("list_eq", Bool, [LInt, LInt], C("list_eq", Bool))
prod("matrix_eq", Bool, [Mat, Mat], C("list_eq", Bool))
prod("matrix_col_slice", Mat, [Mat, Int, Int], C("matrix_col_slice", Mat))
prod("matrix_col_slice_with_length", Mat, [Mat, Int, Int], C("matrix_col_slice_with_length", Mat))
prod("matrix_transpose", Mat, [Mat], C("matrix_transpose", Mat))
prod("set-create", SetI, [], C("set-create", SetI))
prod("set-singleton", SetI, [Int], C("set-singleton", SetI))
prod("set-insert", SetI, [Int, SetI], C("set-insert", SetI))
prod("set-union", SetI, [SetI, SetI], C("set-union", SetI))
prod("set-minus", SetI, [SetI, SetI], C("set-minus", SetI))
prod("set-member", Bool, [Int, SetI], C("set-member", Bool))
prod("set-subset", Bool, [SetI, SetI], C("set-subset", Bool))
prod("EqS", Bool, [SetI, SetI], ir.Eq)
prod("IteS", SetI, [Bool, SetI, SetI], ir.Ite)
prod("TupleExpr", Tup, [Int, Int], ir.TupleExpr)
prod("make-tuple", Tup, [Int, Int], C("make-tuple", Tup))
prod("tget0", Int, [Tup], tget(Int, 0))
prod("tget1", Int, [Tup], tget(Int, 1))
prod("TupleExpr3", Tup3, [Int, Bool, Int], ir.TupleExpr)
prod("make-tuple3", Tup3, [Int, Bool, Int], C("make-tuple", Tup3))
prod("call_t3", Tup3, [Int, Bool], C("usert3", Tup3))
prod("tget3_0", Int, [Tup3], tget(Int, 0))
prod("tget3_1", Bool, [Tup3], tget(Bool, 1))
prod("tget3_2", Int, [Tup3], tget(Int, 2))
prod("EqT", Bool, [Tup, Tup], ir.Eq)
prod("call_f", Int, [Int, LInt], C("userf", Int))
prod("IteT", Tup, [Bool, Tup, Tup], ir.Ite)
prod("call_t", Tup, [Int, Int], C("usert", Tup))
prod("LetT", Int, [Tup, Int], lambda a, b: ir.Let(
    ir.Var("lt", Tup), a, ir.Add(ir.Call("tupleGet", Int, ir.Var("lt", Tup), ir.Lit(1, Int)), b)))
prod("integer_sqrt", Int, [Int], C("integer_sqrt", Int))
prod("integer_exp", Int, [Int], C("integer_exp", Int))
prod("call_inv", Bool, [Int, Int], C("inv0", Bool))
prod("call_ps", Bool, [Int, Int], C("ps0", Bool))
prod("callvalue", Int, [Int], lambda a: ir.CallValue(ir.Var("fnv", FnII), a))

VARS = {"x": Int, "y": Int, "z": Int, "b": Bool, "c": Bool, "l": LInt, "k": LInt, "m": Mat,
        "n": Mat, "s": SetI, "r": SetI, "t": Tup, "w": Tup3, "q": T3}
POOL = {}
for _n, _t in VARS.items():
    POOL.setdefault(_t, []).append(_n)


class World:
    """Symbolic values of the variables, literals and functions of one shape."""

    def __init__(self, bound=2, cols=2, rect=False, setn=2):
        self.cons = []
        self.lits = {}
        self.nlit = 0
        self.bound, self.cols, self.rect, self.setn = bound, cols, rect, setn
        self.vals = {}
        self.setlists = {}
        f = z3.Function("userf", z3.IntSort(), z3.IntSort(), z3.IntSort())
        inv = z3.Function("inv0", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        ps = z3.Function("ps0", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        g = z3.Function("fnv", z3.IntSort(), z3.IntSort())
        # userf observes its list argument through length and first element
        h = z3.Function("obs", z3.IntSort(), z3.IntSort(), z3.IntSort())

        def userf(a, l):
            return f(a, h(sv.llen(l), sv.lget(l, z3.IntVal(0), z3.IntVal(0))))

        u0 = z3.Function("usert0", z3.IntSort(), z3.IntSort(), z3.IntSort())
        u1 = z3.Function("usert1", z3.IntSort(), z3.IntSort(), z3.IntSort())
        sq = z3.Function("sqrt_", z3.IntSort(), z3.IntSort())
        ex = z3.Function("exp_", z3.IntSort(), z3.IntSort())
        self.fns = {"usert3": lambda a, b: sv.TV([u0(a, a), b, u1(a, a)]),
                    "usert": lambda a, b: sv.TV([u0(a, b), u1(a, b)]),
                    "integer_sqrt": lambda a: sq(a), "integer-sqrt-noerr": lambda a: sq(a),
                    "integer_exp": lambda a: ex(a), "integer-exp-noerr": lambda a: ex(a),
                    "userf": userf, "inv0": lambda a, b: inv(a, b), "ps0": lambda a, b: ps(a, b)}
        self.fnv = sv.FV(lambda a: g(a), "fnv")

    def value(self, name):
        if name in self.vals:
            return self.vals[name]
        t = VARS[name]
        if t is Int:
            v = z3.Int(name)
        elif t is Bool:
            v = z3.Bool(name)
        elif t is LInt:
            v, c = sv.new_list(name, self.bound, z3.Int)
            self.cons.append(c)
        elif t is Mat:
            v, c = sv.new_matrix(name, self.bound, self.cols, rect=self.rect)
            self.cons.append(c)
        elif t is T3:
            cs = []

            def mk(nm):
                mm, c = sv.new_matrix(nm, 1, 1)
                cs.append(c)
                return mm

            v, c = sv.new_list(name, 2, mk)
            self.cons += [c, *cs]
        elif t is SetI:
            l, c = sv.new_list(name, self.setn, z3.Int)
            self.cons.append(c)
            es = [z3.Int(f"{name}[{i}]") for i in range(self.setn)]
            self.cons += [a < b for a, b in zip(es, es[1:])]
            self.setlists[name] = l
            v = lv2set(l)
        elif t is Tup:
            v = sv.TV([z3.Int(name + ".0"), z3.Int(name + ".1")])
        elif t is Tup3:
            v = sv.TV([z3.Int(name + ".0"), z3.Bool(name + ".1"), z3.Int(name + ".2")])
        self.vals[name] = v
        return v

    def env(self, names=None):
        e = {n: self.value(n) for n in (names if names is not None else VARS)}
        e["fnv"] = self.fnv
        return e

    def literal(self, path):
        """A symbolic integer literal; its sign is a fork."""
        sign = path.choice([1, -1, 0], "litsign")
        if sign == 0:
            return ir.Lit(0, Int)
        self.nlit += 1
        code = LITBASE + self.nlit
        v = z3.Int(f"lit{self.nlit}")
        self.cons.append(v > 0)
        self.lits[code] = v
        self.lits_signed = {**getattr(self, "lits_signed", {}), code: v, -code: -v}
        return ir.Lit(sign * code, Int)


def lv2set(l):
    return sv.lmap_alts(l, lambda v: _mkset(v))


def _mkset(v):
    s = sv.sempty()
    for x in v:
        s = sv.sinsert(x, s)
    return s


def shape(path, world, ret, depth, exclude=(), used=None, lit_ok=True, one_hole=True):
    """Build an expression of type ret; at most `depth` nested productions and,
    with one_hole, at most one argument of every production is itself compound."""
    used = used if used is not None else {}

    def leaf(t, hole_lit=False):
        i = used.get(t, 0)
        names = POOL[t]
        used[t] = i + 1
        return ir.Var(names[i % len(names)], t)

    def build(t, d):
        opts = ["leaf"] + [n for n, (r, _, _) in P.items() if r == t and n not in exclude]
        if t is Int:
            opts.insert(1, "lit")
        if t is Bool:
            opts.insert(1, "blit")
        k = path.choice(opts, "prod")
        if k == "leaf":
            return leaf(t)
        if k == "lit":
            return world.literal(path)
        if k == "blit":
            return ir.Lit(path.choice([True, False]), Bool)
        return node(k, d)

    def node(k, d):
        _, ats, mk = P[k]
        if d <= 1 or not ats:
            return mk(*[leaf(a) for a in ats])
        if one_hole:
            hole = path.choice(len(ats), "hole")
            args = []
            for i, a in enumerate(ats):
                args.append(build(a, d - 1) if i == hole else leaf(a))
            return mk(*args)
        return mk(*[build(a, d - 1) for a in ats])

    return node, build, leaf


def roots(exclude=()):
    return [n for n in P if n not in exclude]
