"""P20: Python answers of a language model are read with Python's meaning.

For every function text of the grammar below (depth-bounded, every production in
every position), the real check_solution of llmlift_scripts/parser.py -- run in a
scratch copy of llmlift_scripts, because it overwrites dsl.py next to itself --
reads the text.  Where it accepts, the expression it returns (irsem, mathematical
meaning) and the Python text (pysem, Python meaning) are evaluated on symbolic
arguments, the DSL functions being uninterpreted, and Z3 decides that they agree.
The same with several functions in one answer, with two answers read one after
the other, and with answers that went through replace_ite first.
"""
import os
import shutil
import sys
import typing

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mlenv  # noqa
import mypyenv  # noqa
import ast

import z3

import irsem
import printers
import pysem
import report
import sv
import symx
from metalift import ir

ck = report.Check("P20", "translation_validation")
LEN = 2
I, B = z3.IntSort(), z3.BoolSort()
U = {"inc": z3.Function("inc", I, I), "sel": z3.Function("sel", I, I, I), "pos": z3.Function("pos", I, B),
     "pick": z3.Function("pick", B, I, I), "tot": z3.Function("tot.step", I, I, I)}
LInt, LLInt = ir.List[ir.Int], ir.List[ir.List[ir.Int]]
_parser = None


# ---- the DSL: declarations for the reader, uninterpreted meanings for the oracles ----
def tot(l):
    if not isinstance(l, sv.LV):
        raise TypeError("tot of a non-list")
    r = None
    for n, (g, v) in sorted(l.alts.items()):
        acc = z3.Int("tot.empty")
        for x in v:
            acc = U["tot"](acc, x)
        r = acc if r is None else sv.ite(g, acc, r)
    return r


def lmap(l, f):
    return sv.LV({n: (g, [f.fn(x) for x in v]) for n, (g, v) in l.alts.items()})


def lzip(a, b, f):
    alts = {}
    for n, (g, v) in a.alts.items():
        for k, (h, w) in b.alts.items():
            r = [f.fn(x, y) for x, y in zip(v, w)]
            c = sv.And(g, h)
            if len(r) in alts:
                c0, r0 = alts[len(r)]
                alts[len(r)] = (sv.Or(c0, c), [sv.ite(c, x, y) for x, y in zip(r, r0)])
            else:
                alts[len(r)] = (c, r)
    return sv.LV(alts)


def num(*xs):
    for x in xs:
        if not sv.is_z3(x) or not z3.is_int(x):
            raise TypeError("not an integer")
    return xs


FNS = {"inc": lambda x: U["inc"](*num(x)), "sel": lambda y, x: U["sel"](*num(y, x)),
       "pos": lambda x: U["pos"](*num(x)), "tot": tot, "mapi": lmap, "zipi": lzip,
       "pick": lambda c, x: U["pick"](c, *num(x)), "rows": lambda m: lmap(m, sv.FV(tot)),
       "mk": lambda n: sv.LV.of([U["inc"](*num(n)), n])}
DSL = '''
def inc(x: int) -> int:
    return x + 1

def sel(y: int, x: int) -> int:
    return y if y > x else 0

def pos(x: int) -> bool:
    return x > 0

def pick(c: bool, x: int) -> int:
    return x if c else 0

def tot(l: List[int]) -> int:
    return 0 if len(l) == 0 else l[0] + tot(l[1:])

def mapi(l: List[int], f: Callable[[int], int]) -> List[int]:
    return [] if len(l) == 0 else [f(l[0]), *mapi(l[1:], f)]

def zipi(a: List[int], b: List[int], g: Callable[[int, int], int]) -> List[int]:
    return [] if len(a) == 0 or len(b) == 0 else [g(a[0], b[0]), *zipi(a[1:], b[1:], g)]

def rows(m: List[List[int]]) -> List[int]:
    return [] if len(m) == 0 else [tot(m[0]), *rows(m[1:])]

def mk(n: int) -> List[int]:
    return [n + 1, n]
'''


# another run in the same process, with a DSL of its own
DSL2 = DSL.replace("def sel(y: int, x: int)", "def sel(x: int, y: int)").replace("def inc(", "def dec(")
U["dec"] = z3.Function("dec", I, I)
FNS["dec"] = lambda x: U["dec"](*num(x))


def parser(alone=None):
    """The real reader, imported from a scratch copy private to this process."""
    global _parser, _dir
    suffix = ""
    if alone:
        # written and read in the same place, nothing read before
        for n in [n for n in sys.modules if n.split(".")[0] == "llmlift_scripts"]:
            del sys.modules[n]
        _parser, suffix = None, f".{alone}"
    if _parser is not None and os.getpid() != _dir[0]:
        # a worker: its own copy of the tree mypy reads, with what mypy cached
        d = os.path.join(ROOT, f"p20.{os.getpid()}")
        shutil.copytree(_dir[1], d)
        os.chdir(d)
        _dir = (os.getpid(), d)
    if _parser is None:
        d = os.path.join(ROOT, f"p20{suffix}")
        os.mkdir(d)
        _dir = (os.getpid(), d)
        shutil.copytree(os.path.join(mlenv.REPO, "llmlift_scripts"), os.path.join(d, "llmlift_scripts"),
                        ignore=shutil.ignore_patterns("__pycache__", "verification_with_testing"))
        os.chdir(d)
        sys.path.insert(0, d)
        import llmlift_scripts.parser as P
        import llmlift_scripts.utils as T
        assert os.path.realpath(P.__file__).startswith(os.path.realpath(d)), P.__file__
        _parser = (P, T)
    return _parser


def read(texts, counts=None, dsl=DSL):
    """Each text through check_solution in turn, as one synthesis run reads them."""
    P, _ = parser()
    lam, cnt, out = {}, {}, []
    for i, t in enumerate(texts):
        out.append(P.check_solution(solution=t, expected_num_funcs=(counts or [1] * len(texts))[i],
                                    dsl_code=dsl, lambda_exprs=lam, arg_name_to_count=cnt))
    return out


# ---- the grammar of answers ---------------------------------------------
# (name, result, holes, template); %0 %1 ... are the holes, each in brackets
PRODS = []


def p(name, ret, holes, tmpl):
    PRODS.append((name, ret, holes, tmpl))


for o in "+ - * // % /".split():
    p("int" + o, "i", "ii", f"%0 {o} %1")
p("neg", "i", "i", "-%0")
p("uplus", "i", "i", "+%0")
p("invert", "i", "i", "~%0")
p("inc", "i", "i", "inc(%0)")
p("sel", "i", "ii", "sel(%0, %1)")
p("selkw", "i", "ii", "sel(x=%0, y=%1)")
p("selkw2", "i", "ii", "sel(y=%0, x=%1)")
p("selkw3", "i", "ii", "sel(%0, x=%1)")
p("selstar", "i", "i", "sel(*[%0, %0])")
p("pick", "i", "bi", "pick(%0, %1)")
p("tot", "i", "l", "tot(%0)")
p("len", "i", "l", "len(%0)")
p("lenm", "i", "m", "len(%0)")
p("get", "i", "li", "%0[%1]")
p("getlast", "i", "l", "%0[-1]")
p("getm", "i", "mii", "%0[%1][%2]")
p("itei", "i", "bii", "%1 if %0 else %2")
p("itecond", "i", "ii", "%1 if %0 else 7")
p("itelist", "i", "li", "%1 if %0 else 7")
p("itemixed", "i", "bi", "%1 if %0 else %0")
p("max", "i", "ii", "max(%0, %1)")
p("abs", "i", "i", "abs(%0)")
p("sum", "i", "l", "sum(%0)")
p("int()", "i", "b", "int(%0)")
p("lamcall", "i", "i", "(lambda a: a + 1)(%0)")
p("addbool", "i", "ib", "%0 + %1")
p("andint", "i", "ii", "%0 and %1")
p("orint", "i", "ii", "%0 or %1")
p("walrus", "i", "i", "(z := %0)")
p("pow", "i", "i", "%0 ** 2")
p("lshift", "i", "i", "%0 << 1")
p("bitand", "i", "ii", "%0 & %1")
p("boolarg", "i", "b", "inc(%0)")
p("intarg", "i", "ii", "pick(%0, %1)")
p("tupleget", "i", "ii", "(%0, %1)[1]")
p("listget", "i", "ii", "[%0, %1][1]")
for o in "< <= > >= == !=".split():
    p("cmp" + o, "b", "ii", f"%0 {o} %1")
p("chain", "b", "iii", "%0 < %1 <= %2")
p("chain2", "b", "iii", "%0 == %1 > %2")
p("chain3", "b", "iii", "%0 != %1 != %2")
p("eqb", "b", "bb", "%0 == %1")
p("neb", "b", "bb", "%0 != %1")
p("ltb", "b", "bb", "%0 < %1")
p("eqib", "b", "ib", "%0 == %1")
p("eql", "b", "ll", "%0 == %1")
p("nel", "b", "ll", "%0 != %1")
p("eqm", "b", "mm", "%0 == %1")
p("ltl", "b", "ll", "%0 < %1")
p("is", "b", "bb", "%0 is %1")
p("in", "b", "il", "%0 in %1")
p("notin", "b", "il", "%0 not in %1")
p("and", "b", "bb", "%0 and %1")
p("or", "b", "bb", "%0 or %1")
p("and3", "b", "bbb", "%0 and %1 and %2")
p("andor", "b", "bbb", "%0 and (%1 or %2)")
p("not", "b", "b", "not %0")
p("notl", "b", "l", "not %0")
p("iteb", "b", "bbb", "%1 if %0 else %2")
p("pos", "b", "i", "pos(%0)")
p("xor", "b", "bb", "%0 ^ %1")
p("andb", "b", "bb", "%0 & %1")
p("guard", "b", "il", "%0 >= 0 and %0 < len(%1) and %1[%0] > 0")
p("empty", "l", "", "[]")
p("list1", "l", "i", "[%0]")
p("list2", "l", "ii", "[%0, %1]")
p("star", "l", "il", "[%0, *%1]")
p("concat", "l", "ll", "%0 + %1")
p("append", "l", "li", "%0 + [%1]")
p("subl", "l", "ll", "%0 - %1")
p("mull", "l", "l", "%0 * 2")
p("take", "l", "li", "%0[:%1]")
p("tail", "l", "li", "%0[%1:]")
p("slice", "l", "lii", "%0[%1:%2]")
p("all", "l", "l", "%0[:]")
p("step", "l", "l", "%0[::2]")
p("stepneg", "l", "l", "%0[::-1]")
p("slicestep", "l", "li", "%0[0:%1:2]")
p("tailstep", "l", "li", "%0[%1::2]")
p("takeneg", "l", "l", "%0[:-1]")
p("tailneg", "l", "l", "%0[-1:]")
p("slneg", "l", "l", "%0[0:-1]")
p("row", "l", "mi", "%0[%1]")
p("rowslice", "l", "mi", "%0[%1][:1]")
p("itel", "l", "bll", "%1 if %0 else %2")
p("map", "l", "l", "mapi(%0, lambda a: a + 1)")
p("mapshadow", "l", "l", "mapi(%0, lambda x: x * x)")
p("mapname", "l", "l", "mapi(%0, inc)")
p("mapmap", "l", "l", "mapi(mapi(%0, lambda a: a + 1), lambda a: a * 2)")
p("mapmapsame", "l", "l", "mapi(mapi(%0, lambda a: a + 1), lambda a: a + 1)")
p("mapbool", "l", "l", "mapi(%0, lambda a: a > 1)")
p("mapclosure", "l", "l", "mapi(%0, lambda a: a + y)")
p("mapnested", "l", "l", "mapi(%0, lambda a: a + tot(mapi([], lambda b: b + 1)))")
p("mapswap", "l", "ll", "mapi(l=%0, f=lambda a: tot(mapi([], lambda b: b)) + a)")
p("zip", "l", "ll", "zipi(%0, %1, lambda a, b: a - b)")
p("zipswap", "l", "ll", "zipi(%0, %1, lambda b, a: a - b)")
p("zipname", "l", "ll", "zipi(%0, %1, sel)")
p("zipboth", "l", "ll", "zipi(mapi(%0, lambda a: -a), %1, lambda a, b: a - 2 * b)")
p("zipkw", "l", "ll", "zipi(b=%0, a=%1, g=lambda a, b: a - b)")
p("rows", "l", "m", "rows(%0)")
p("mk", "l", "i", "mk(%0)")
p("comp", "l", "l", "[e + 1 for e in %0]")
p("sorted", "l", "l", "sorted(%0)")
p("emptym", "m", "", "[]")
p("listm", "m", "l", "[%0]")
p("mtake", "m", "mi", "%0[:%1]")
p("mtail", "m", "mi", "%0[%1:]")
p("mslice", "m", "mii", "%0[%1:%2]")
p("mconcat", "m", "mm", "%0 + %1")
p("item", "m", "bmm", "%1 if %0 else %2")
LEAVES = {"i": ["x", "y", "0", "3", "-2"], "b": ["c", "True", "x > y"], "l": ["l", "k", "[]"], "m": ["m"]}
PARAMS = {"x": "int", "y": "int", "c": "bool", "d": "bool", "l": "List[int]", "k": "List[int]", "m": "List[List[int]]"}
ANN = {"i": "int", "b": "bool", "l": "List[int]", "m": "List[List[int]]"}
ATOM = {"x", "y", "0", "3", "c", "d", "True", "l", "k", "[]", "m"}


def br(t):
    return t if t in ATOM else f"({t})"


def fill(tmpl, subs):
    for i, s in enumerate(subs):
        tmpl = tmpl.replace(f"%{i}", br(s))
    return tmpl


def plain(holes, inner=False):
    """Distinct variables in the holes."""
    pools = {"i": ["x", "y", "3"], "b": ["c", "x > y", "y == 0"], "l": ["l", "k", "l"], "m": ["m", "m", "m"]}
    if inner:
        pools["b"] = ["d", "y > x", "x == 1"]
    used = {}
    out = []
    for h in holes:
        n = used.get(h, 0)
        used[h] = n + 1
        out.append(pools[h][n])
    return out


def programs(depth):
    """(key, text) of every function of the grammar: each production alone, with
    every leaf in every hole, and with every production in every hole."""
    out = []

    def add(key, ret, body):
        out.append((key, ret, body))

    for n, ret, holes, t in PRODS:
        base = plain(holes)
        add(n, ret, fill(t, base))
        for i, h in enumerate(holes):
            for lf in LEAVES[h]:
                if lf != base[i]:
                    add(f"{n}/{i}={lf}", ret, fill(t, base[:i] + [lf] + base[i + 1:]))
            for n2, r2, h2, t2 in PRODS:
                if r2 != h:
                    continue
                sub = fill(t2, plain(h2, True))
                add(f"{n}/{i}={n2}", ret, fill(t, base[:i] + [sub] + base[i + 1:]))
                if depth > 2 and n2 in CORE and n in CORE:
                    for j, g in enumerate(h2):
                        for n3, r3, h3, t3 in PRODS:
                            if r3 == g and n3 in CORE:
                                s3 = fill(t3, plain(h3))
                                b2 = plain(h2, True)
                                add(f"{n}/{i}={n2}/{j}={n3}", ret,
                                    fill(t, base[:i] + [fill(t2, b2[:j] + [s3] + b2[j + 1:])] + base[i + 1:]))
    return out


CORE = {"int+", "int-", "neg", "sel", "tot", "len", "get", "itei", "cmp<", "cmp==", "cmp!=", "chain", "and", "or",
        "eql", "concat", "take", "tail", "slice", "row", "map", "zip", "list1", "empty", "mtake"}

HDR = "def {n}(" + ", ".join(f"{a}: {t}" for a, t in PARAMS.items()) + ") -> {r}:\n"


def func(body, ret, name="cand"):
    return HDR.format(n=name, r=ANN[ret]) + f"    return {body}\n"


# whole functions: layouts, parameters, several functions, several answers
WHOLE = [
    ("assigned", ["def cand(x: int, y: int) -> int:\n    r = x - y\n    return r\n"]),
    ("annotated", ["def cand(x: int, y: int) -> int:\n    r: int = x - y\n    return r\n"]),
    ("docstring", ['def cand(x: int, y: int) -> int:\n    """the result: return x"""\n    return x - y\n']),
    ("docstring lines", ["def cand(x: int, y: int) -> int:\n    '''a\n    return x\n    '''\n    return x - y\n"]),
    ("comment", ["def cand(x: int, y: int) -> int:\n    # return y\n    return x - y  # + 1\n"]),
    ("quote in comment", ["def cand(x: int, y: int) -> int:\n    # it's '''\n    return x - y\n    # '''\n"]),
    ("assigned parameter", ["def cand(x: int, y: int) -> int:\n    x = x - y\n    return x\n"]),
    ("assigned, other returned", ["def cand(x: int, y: int) -> int:\n    x = x - y\n    return y\n"]),
    ("assigned, expression returned", ["def cand(x: int, y: int) -> int:\n    r = x - y\n    return r + 1\n"]),
    ("two assigned", ["def cand(x: int, y: int) -> int:\n    r = q = x - y\n    return r\n"]),
    ("pair assigned", ["def cand(x: int, y: int) -> int:\n    r, q = x, y\n    return r\n"]),
    ("augmented", ["def cand(x: int, y: int) -> int:\n    x += y\n    return x\n"]),
    ("augmented only", ["def cand(x: int, y: int) -> int:\n    x -= y\n"]),
    ("three statements", ["def cand(x: int, y: int) -> int:\n    r = x\n    r = r - y\n    return r\n"]),
    ("if statement", ["def cand(x: int, y: int) -> int:\n    if x > y:\n        return x\n    return y\n"]),
    ("if else", ["def cand(x: int, y: int) -> int:\n    if x > y:\n        return x\n    else:\n        return y\n"]),
    ("return first", ["def cand(x: int, y: int) -> int:\n    return x\n    return y\n"]),
    ("return before assignment", ["def cand(x: int, y: int) -> int:\n    return x\n    x = y\n"]),
    ("no return", ["def cand(x: int, y: int) -> int:\n    x - y\n"]),
    ("assignment only", ["def cand(x: int, y: int) -> int:\n    r = x - y\n"]),
    ("bare return", ["def cand(x: int, y: int) -> int:\n    return\n"]),
    ("pass", ["def cand(x: int, y: int) -> int:\n    pass\n"]),
    ("parameters unsorted", ["def cand(y: int, x: int) -> int:\n    return x - 2 * y\n"]),
    ("parameters unsorted by kind", ["def cand(y: int, l: List[int], c: bool, a: int) -> int:\n    return a if c else y + tot(l)\n"]),
    ("default value", ["def cand(x: int, y: int = 3) -> int:\n    return x - y\n"]),
    ("keyword only", ["def cand(*, x: int, y: int) -> int:\n    return x - y\n"]),
    ("bool for int", ["def cand(x: int, y: int) -> int:\n    return x > y\n"]),
    ("int for bool", ["def cand(x: int, y: int) -> bool:\n    return x\n"]),
    ("list for int", ["def cand(l: List[int]) -> int:\n    return l\n"]),
    ("int for list", ["def cand(x: int) -> List[int]:\n    return x\n"]),
    ("list for matrix", ["def cand(l: List[int]) -> List[List[int]]:\n    return l\n"]),
    ("bool assigned for int", ["def cand(x: int, y: int) -> int:\n    r = x > y\n    return r\n"]),
    ("no types", ["def cand(x, y):\n    return x - y\n"]),
    ("partial types", ["def cand(x, y: int) -> int:\n    return x - y\n"]),
    ("Any", ["def cand(x: Any, y: int) -> int:\n    return x - y\n"]),
    ("undefined name", ["def cand(x: int, y: int) -> int:\n    return x - zz\n"]),
    ("undefined function", ["def cand(x: int, y: int) -> int:\n    return zz(x, y)\n"]),
    ("arity", ["def cand(x: int, y: int) -> int:\n    return sel(x)\n"]),
    ("argument type", ["def cand(x: int, y: int) -> int:\n    return tot(x)\n"]),
    ("lowercase list", ["def cand(l: list[int], x: int) -> int:\n    return l[0] - x\n"]),
    ("wrapped line", ["def cand(x: int, y: int) -> int:\n    return x - \\\n        y\n"]),
    ("function as name of variable", ["def cand(inc: int, y: int) -> int:\n    return inc - y\n"]),
    ("len as variable", ["def cand(len: int, y: int) -> int:\n    return len - y\n"]),
    ("lambda parameter hides", ["def cand(l: List[int], a: int) -> int:\n    return a + tot(mapi(l, lambda a: a * 2))\n"]),
    ("lambda assigned", ["def cand(l: List[int]) -> List[int]:\n    r = mapi(l, lambda a: a * 2)\n    return r\n"]),
    ("callable parameter", ["def cand(l: List[int], f: Callable[[int], int]) -> List[int]:\n    return mapi(l, f)\n"]),
    ("recursion", ["def cand(l: List[int]) -> int:\n    return 0 if len(l) == 0 else l[0] + cand(l[1:])\n"]),
    ("recursion, parameters unsorted",
     ["def cand(l: List[int], a: int) -> int:\n    return a if len(l) == 0 else l[0] + 2 * cand(l[1:], a + 1)\n"]),
    ("recursion, parameters unsorted, same type",
     ["def cand(n: int, k: int, l: List[int]) -> int:\n    return n - 2 * k if len(l) == 0 else cand(n + l[0], k, l[1:])\n"]),
    ("recursion, keyword",
     ["def cand(l: List[int], a: int) -> int:\n    return a if len(l) == 0 else cand(a=a + 1, l=l[1:])\n"]),
    ("two functions", ["def cand(x: int, y: int) -> int:\n    return x - y\ndef other(y: int, x: int) -> bool:\n    return x > 2 * y\n"]),
    ("two functions, one calls the other",
     ["def other(y: int, x: int) -> int:\n    return x - 2 * y\ndef cand(x: int, y: int) -> int:\n    return other(x, y)\n"]),
    ("two functions, same lambda", ["def cand(l: List[int], x: int) -> List[int]:\n    return mapi(l, lambda a: a + 1)\n"
                                    "def other(l: List[int], x: int) -> int:\n    return tot(mapi(l, lambda a: a + 1))\n"]),
    ("two functions, two lambdas", ["def cand(l: List[int], x: int) -> List[int]:\n    return mapi(l, lambda a: a + 1)\n"
                                    "def other(l: List[int], x: int) -> int:\n    return tot(mapi(l, lambda a: a + 2))\n"]),
    ("two functions, same name", ["def cand(x: int) -> int:\n    return x\ndef cand(x: int) -> int:\n    return x + 1\n"]),
    ("too many functions", ["def cand(x: int) -> int:\n    return x\ndef other(x: int) -> int:\n    return x + 1\n"]),
    ("dsl function redefined", ["def inc(x: int) -> int:\n    return x\ndef cand(x: int) -> int:\n    return inc(x)\n"]),
    ("two answers, same lambda", ["def cand(l: List[int]) -> List[int]:\n    return mapi(l, lambda a: a + 1)\n",
                                  "def inv(l: List[int], r: List[int], i: int) -> bool:\n    return i >= 0 and r == mapi(l[:i], lambda a: a + 1)\n"]),
    ("two answers, two lambdas", ["def cand(l: List[int]) -> List[int]:\n    return mapi(l, lambda a: a + 1)\n",
                                  "def inv(l: List[int], r: List[int], i: int) -> bool:\n    return i >= 0 and r == mapi(l[:i], lambda a: a + 2)\n"]),
    ("two answers, same body, other parameter", ["def cand(l: List[int]) -> List[int]:\n    return mapi(l, lambda a: a + 1)\n",
                                                 "def inv(l: List[int], r: List[int]) -> bool:\n    return r == mapi(l, lambda b: b + 1)\n"]),
    ("two answers, arguments swapped", ["def cand(l: List[int], k: List[int]) -> List[int]:\n    return zipi(l, k, lambda a, b: a - b)\n",
                                        "def inv(l: List[int], k: List[int], r: List[int]) -> bool:\n    return r == zipi(l, k, lambda b, a: a - b)\n"]),
    ("two answers, True and 1", ["def cand(l: List[int]) -> List[int]:\n    return mapi(l, lambda a: 1)\n",
                                 "def inv(l: List[int], r: List[int]) -> bool:\n    return r == mapi(l, lambda a: 0)\n"]),
    ("three answers", ["def cand(l: List[int]) -> List[int]:\n    return mapi(l, lambda a: a + 1)\n",
                       "def inv(l: List[int], r: List[int]) -> bool:\n    return r == mapi(mapi(l, lambda a: a - 1), lambda a: a + 1)\n",
                       "def inv(l: List[int], r: List[int]) -> bool:\n    return r == mapi(mapi(l, lambda a: a + 1), lambda a: a - 1)\n"]),
]
# runs one after the other in one process: (DSL, answer) of each, and whether the
# last one has a meaning
RUNS = [("keywords, then parameters in another order", [(DSL, "sel(x=x, y=y)"), (DSL2, "sel(x=x, y=y)")], True),
        ("keywords, there and back", [(DSL2, "sel(x=x, y=y)"), (DSL, "sel(x=x, y=y)"), (DSL2, "sel(y=y, x=x)")], True),
        ("a function only the second DSL has", [(DSL, "inc(x)"), (DSL2, "dec(x)")], True),
        ("a function only the first DSL has", [(DSL, "inc(x)"), (DSL2, "inc(x)")], False),
        ("a function that comes back", [(DSL, "inc(x)"), (DSL2, "dec(x)"), (DSL, "inc(x)")], True),
        ("a function that went and came", [(DSL2, "dec(x)"), (DSL, "dec(x)")], False),
        ("the same lambda", [(DSL, "tot(mapi(l, lambda a: a + 1))"), (DSL2, "tot(mapi(l, lambda a: a + 2))")], True)]
COUNTS = {"two functions": 2, "too many functions": 1}
# must be read: what the prompts of llmlift ask for
REQUIRED = {"assigned", "docstring", "comment", "parameters unsorted", "lambda assigned", "wrapped line", "recursion",
            "two functions", "two functions, same lambda", "two answers, same lambda", "two answers, two lambdas"}
REQUIRED_PRODS = {"int+", "int-", "int*", "int//", "int%", "neg", "inc", "sel", "pick", "tot", "len", "lenm", "get",
                  "getm", "itei", "cmp<", "cmp<=", "cmp>", "cmp>=", "cmp==", "cmp!=", "chain", "and", "or", "eql",
                  "empty", "concat", "take", "tail", "slice", "row", "itel", "map", "zip", "rows", "mk", "mtake",
                  "mtail", "eqm", "guard"}
# expected to be rejected, on their own or inside anything (only a matter of how
# they are grouped into answers: a rejected answer is read again in halves)
UNREAD = set("""uplus invert selstar itecond itelist itemixed max abs sum int() addbool andint orint walrus pow lshift
bitand boolarg intarg tupleget neb ltb eqib nel ltl is in notin not notl xor andb subl mull all step stepneg mapbool
comp sorted mconcat lamcall getlast slicestep tailstep takeneg tailneg slneg star mapclosure""".split())
# answers with ite(...), as the models write them; what they mean: the conditional
ITES = [("int", "ite(x > y, x, y)", "x if x > y else y"),
        ("int", "1 + ite(x > y, x, y)", "1 + (x if x > y else y)"),
        ("int", "ite(x > y, x, y) - 1", "(x if x > y else y) - 1"),
        ("int", "-ite(x > y, x, y)", "-(x if x > y else y)"),
        ("int", "ite(x > y, ite(x > 0, 1, 2), 3)", "(1 if x > 0 else 2) if x > y else 3"),
        ("int", "ite(x > y, 3, ite(x > 0, 1, 2))", "3 if x > y else (1 if x > 0 else 2)"),
        ("int", "ite(ite(x > 0, x > y, y > 3), 1, 2)", "1 if (x > y if x > 0 else y > 3) else 2"),
        ("int", "ite(sel(x, y) > 0, x, y)", "x if sel(x, y) > 0 else y"),
        ("int", "ite(x > y, sel(x, y), y)", "sel(x, y) if x > y else y"),
        ("int", "ite(x > y, x, inc(y))", "x if x > y else inc(y)"),
        ("int", "ite(x > y, x, inc(y) + 1)", "x if x > y else inc(y) + 1"),
        ("int", "ite(x > y, x, (y + 1) * 2)", "x if x > y else (y + 1) * 2"),
        ("int", "ite(inc(x) > y, x, y)", "x if inc(x) > y else y"),
        ("int", "ite((x > y), (x), (y))", "x if x > y else y"),
        ("int", "ite(x > y,\n        x,\n        y)", "x if x > y else y"),
        ("int", "inc(ite(x > y, x, y))", "inc(x if x > y else y)"),
        ("int", "sel(ite(x > y, x, y), 1)", "sel(x if x > y else y, 1)"),
        ("int", "ite(x > y, x, y) + ite(x > 0, 1, 2)", "(x if x > y else y) + (1 if x > 0 else 2)"),
        ("int", "ite(x > y and y > 0, x, y)", "x if x > y and y > 0 else y"),
        ("int", "ite(x > 0, 0, y) if y > 0 else 1", "(0 if x > 0 else y) if y > 0 else 1"),
        ("List[int]", "mapi(l, lambda a: ite(a > 0, a, 0))", "mapi(l, lambda a: a if a > 0 else 0)"),
        ("List[int]", "mapi(l, lambda a: ite(a == 0, 32, 32 - (32 - a) // 2))", "mapi(l, lambda a: 32 if a == 0 else 32 - (32 - a) // 2)"),
        ("List[int]", "zipi(l, k, lambda a, b: ite(a > b, sel(a, b), inc(b)))", "zipi(l, k, lambda a, b: sel(a, b) if a > b else inc(b))"),
        ("List[int]", "ite(x > y, l[:x], k)", "l[:x] if x > y else k"),
        ("bool", "ite(x > y, x, y) == x", "(x if x > y else y) == x"),
        ("int", "x - sel(x, y)", "x - sel(x, y)"),
        ("int", "white(x > y, x, y)", None)]


# ---- oracles --------------------------------------------------------------
NAMES = {"inc": ["x"], "sel": ["y", "x"], "pos": ["x"], "pick": ["c", "x"], "tot": ["l"], "mapi": ["l", "f"],
         "zipi": ["a", "b", "g"], "rows": ["m"], "mk": ["n"]}


class Py(pysem.PySem):
    """Python, with `/` read as integer division.  Indices and slice bounds that
    are not literals are assumed to lie in the list (negative literals are not)."""

    def x_BinOp(self, e, env):
        if isinstance(e.op, ast.Div):
            e = ast.BinOp(left=e.left, op=ast.FloorDiv(), right=e.right)
        if isinstance(e.op, ast.Mult):
            a = self.ev(e.left, env)
            if isinstance(a, sv.LV):
                n = sv.as_const(self.ev(e.right, env))
                if n is None or not 0 <= n <= 4:
                    raise pysem.PyErr("list repetition")
                r = sv.EMPTY
                for _ in range(n):
                    r = sv.lconcat(r, a)
                return r
        return super().x_BinOp(e, env)

    def x_BoolOp(self, e, env):
        v = [self.ev(x, env) for x in e.values[:1]]
        if not (sv.is_z3(v[0]) and z3.is_bool(v[0])):
            raise pysem.PyErr("and/or of non-booleans")
        return super().x_BoolOp(e, env)

    def x_Call(self, e, env):
        if e.keywords and isinstance(e.func, ast.Name):
            n = e.func.id
            ps = [a.arg for a in self.funcs[n].args.args] if n in self.funcs else NAMES.get(n)
            kw = {k.arg: k.value for k in e.keywords}
            rest = (ps or [])[len(e.args):]
            if ps is None or sorted(rest) != sorted(kw):
                raise pysem.PyErr(f"arguments of {n}")
            e = ast.Call(func=e.func, args=[*e.args, *[kw[x] for x in rest]], keywords=[])
        return super().x_Call(e, env)

    def index(self, l, i):
        i = self.num(i)
        if sv.as_const(i) is None:
            self.err(i < 0)
        return super().index(l, i)

    def x_Subscript(self, e, env):
        if isinstance(e.slice, ast.Slice):
            b = self.ev(e.value, env)
            if e.slice.step is not None:
                st = sv.as_const(self.ev(e.slice.step, env))
                if st is None or not isinstance(b, sv.LV):
                    raise pysem.PyErr("slice step")
                if e.slice.lower or e.slice.upper:
                    if st < 0:
                        raise pysem.PyErr("slice step")
                    b = self.bounded(b, e.slice, env)
                alts = {}
                for n, (g, v) in b.alts.items():
                    w = list(v)[::st]
                    if len(w) in alts:
                        g0, w0 = alts[len(w)]
                        alts[len(w)] = (sv.Or(g0, g), [sv.ite(g, x, y) for x, y in zip(w, w0)])
                    else:
                        alts[len(w)] = (g, w)
                return sv.LV(alts)
            if isinstance(b, sv.LV):
                return self.bounded(b, e.slice, env)
        return super().x_Subscript(e, env)

    def bounded(self, b, s, env):
        n = sv.llen(b)
        lo = self.num(self.ev(s.lower, env)) if s.lower else None
        hi = self.num(self.ev(s.upper, env)) if s.upper else None
        for v in (lo, hi):
            if v is None:
                continue
            c = sv.as_const(v)
            if c is None or c >= 0:
                self.err(sv.Or(v < 0, v > n))
        if lo is not None and hi is not None and not any((sv.as_const(v) or 0) < 0 for v in (lo, hi)):
            self.err(lo > hi)
        return self.slice(b, lo, hi)


class IR(irsem.IRSem):
    """Functions handed to other functions are what the returned declarations say."""

    def e_FnDecl(self, e, env):
        n = e.args[0]
        if n not in self.decls:
            raise irsem.Unsupported(f"function {n} is handed over but not declared")
        return sv.FV(lambda *xs: self.apply(self.decls[n], xs), n)

    e_FnDeclRecursive = e_FnDecl


def values(text, name):
    """Symbolic arguments of the function, from its annotations."""
    f = next(n for n in reversed(ast.parse(text).body) if isinstance(n, ast.FunctionDef) and n.name == name)
    env, cons = {}, []
    for a in [*f.args.args, *f.args.kwonlyargs]:
        t = ast.unparse(a.annotation).lower() if a.annotation else ""
        if t == "bool":
            env[a.arg] = z3.Bool(a.arg)
        elif t == "list[int]":
            env[a.arg], c = sv.new_list(a.arg, LEN, z3.Int)
            cons.append(c)
        elif t == "list[list[int]]":
            env[a.arg], c = sv.new_matrix(a.arg, 2, LEN)
            cons.append(c)
        elif t.startswith("callable"):
            h = z3.Function(a.arg, I, I)
            env[a.arg] = sv.FV(lambda x, h=h: h(*num(x)), a.arg)
        elif t in ("int", ""):
            env[a.arg] = z3.Int(a.arg)
        else:
            raise pysem.PyErr(f"annotation {t}")
    if f.args.vararg:
        raise pysem.PyErr("*args")
    return f, env, cons


def replay(m, text, name, env):
    """Run the Python text itself at the counterexample."""
    def lift(f):
        return lambda *xs: sv.conc(f(*[sv.lit(x) if not callable(x) else x for x in xs]), m)

    g = {"List": typing.List, "Callable": typing.Callable, "Any": typing.Any}
    for n in ("inc", "sel", "pos", "pick", "tot", "rows", "mk"):
        g[n] = lift(FNS[n])
    g["mapi"] = lambda l, f: [f(x) for x in l]
    g["zipi"] = lambda a, b, g: [g(x, y) for x, y in zip(a, b)]
    g["sel"] = eval("lambda {0}, {1}: f({0}, {1})".format(*NAMES["sel"]), {"f": lift(FNS["sel"])})
    args = {k: sv.conc(v, m) for k, v in env.items()}
    try:
        exec(text.replace("/", "//").replace("////", "//"), g)
        return g[name](**args)
    except Exception as ex:
        return f"{type(ex).__name__}: {ex}"


RET = {"int": ir.Int, "bool": ir.Bool, "list[int]": LInt, "list[list[int]]": LLInt}


def judge(key, texts, outs, meant=None):
    """outs[i]: what check_solution returned for texts[i]; meant: the text whose
    Python meaning counts, where it is not the text itself."""
    decls = {}
    bodies = {}
    for out in outs:
        for d in out[1]:
            if not isinstance(d, (ir.FnDecl, ir.FnDeclRecursive)):
                ck.violation(f"{key}: declaration", f"{texts}: {d} is returned as a declaration", {"texts": texts})
                return
            n = d.args[0]
            b = printers.describe(d)
            if n in bodies and bodies[n] != b and not n.startswith("inv"):
                ck.violation(f"{key}: name", f"{texts}: two functions are called {n}: {bodies[n]} and {b}", {"texts": texts})
                return
            bodies[n] = b
            decls[n] = d
    for text, out in zip(texts, outs):
        mine = {**decls, **{d.args[0]: d for d in out[1]}}
        for name in dict.fromkeys(out[0]):
            if not judge_one(key, meant or text, name, mine):
                return


def judge_one(key, text, name, decls):
    rep = {"text": text, "function": name}
    try:
        f, env, cons = values(text, name)
        py = Py(fns={k: v for k, v in FNS.items() if not any(isinstance(n, ast.FunctionDef) and n.name == k for n in ast.parse(text).body)})
        py.load(text)
        want = py.run(f, [env[a.arg] for a in f.args.args])[0] if not f.args.kwonlyargs else py.block(f.body, dict(env))[0][1]
        if want is None:
            raise pysem.PyErr("no value")
        if sv.is_z3(want) and z3.is_bool(want) and ast.unparse(f.returns) == "int":
            want = py.num(want)
    except (pysem.PyErr, sv.SortMismatch, AttributeError, TypeError, z3.Z3Exception) as ex:
        return refused(key, text, name, decls, ex)
    d = decls.get(name)
    if d is None:
        ck.violation(f"{key}: missing", f"{text!r}: no declaration of {name} is returned", rep)
        return False
    ck.obligation(False)
    ps = [v.args[0] for v in d.args[2:]]
    if sorted(ps) != sorted(env):
        ck.discharged += 1
        ck.violation(f"{key}: parameters", f"{text!r}: read with parameters {ps}", rep)
        return False
    rt = ast.unparse(f.returns).lower() if f.returns else ""
    if rt in RET and getattr(d.args[1], "type", None) != RET[rt]:
        ck.discharged += 1
        ck.violation(f"{key}: type", f"{text!r}: the body is read as {getattr(d.args[1], 'type', None)}, not {rt}", rep)
        return False
    S = IR(decls=decls, fns={k: v for k, v in FNS.items() if k not in decls}, div="floor")
    S.assume = cons
    try:
        got = S.apply(d, [env[q] for q in ps])
        bad = sv.Not(sv.And(sv.eq(got, want), *S.defs))
        if z3.is_expr(got) and z3.is_expr(want) and got.sort() != want.sort():
            raise sv.SortMismatch(f"{got.sort()} for {want.sort()}")
    except (sv.SortMismatch, KeyError, TypeError, AttributeError, irsem.Unsupported, z3.Z3Exception) as ex:
        ck.discharged += 1
        ck.violation(f"{key}: meaning", f"{text!r} is read as {printers.describe(d)[:300]}, which has no value: {ex}", rep)
        return False
    st, m = symx.solve(*cons, *[sv.Not(x) for x in py.errs], bad)
    if st == "sat":
        ck.discharged += 1
        ck.replays += 1
        args = {k: sv.conc(v, m) for k, v in env.items()}
        real = replay(m, text, name, env)
        ck.violation(f"{key}: value", f"{text!r} is read as {printers.describe(d)[:300]}: at {args} Python gives "
                     f"{real!r} ({sv.conc(want, m)}), what was read {sv.conc(got, m)}", {**rep, "args": args})
        return False
    if st == "unsat":
        ck.discharged += 1
        ck.count("agree")
    return True


def refused(key, text, name, decls, ex):
    """The text has no Python value the oracle knows: the reader should not have
    accepted it, unless running it cannot fail -- left to the list below."""
    ck.obligation(True)
    ck.violation(f"{key}: accepted", f"{text!r} is accepted although it has no value in Python over integers, "
                 f"booleans and lists: {ex}", {"text": text})
    return False


def meet(item, outs, meant, texts):
    ck.sample(texts[-1])
    judge(item[1], texts, outs, meant)


def reject(item, ex, texts):
    kind, key, arg = item
    ck.obligation(True)
    ck.count("rejected")
    if kind == "expr" and key in REQUIRED_PRODS or kind == "whole" and key in REQUIRED or kind == "ite" and arg[2]:
        ck.violation(f"{key}: rejected", f"{texts!r} is not read: {type(ex).__name__}: {ex}", {"texts": texts})
    elif os.environ.get("P20_SHOW"):
        print("REJ", key, type(ex).__name__, str(ex)[:100])


def item(k):
    kind, key, arg = k
    symx.STATS["paths"] += 1
    ck.count("answers")
    meant = None
    if kind == "whole":
        texts = arg
        counts = [len([n for n in ast.parse(t).body if isinstance(n, ast.FunctionDef)]) for t in texts]
        if key == "too many functions":
            counts = [1]
    else:
        t, body, mean = arg
        h = "def cand(" + ", ".join(f"{a}: {b}" for a, b in PARAMS.items()) + f") -> {t}:\n    return "
        try:
            texts, counts = [parser()[1].replace_ite(h + body + "\n")], None
        except Exception as ex:
            ck.obligation(True)
            ck.violation(f"{key}: fails", f"replace_ite fails on {body!r}: {ex!r}", {"text": body})
            return
        meant = h + mean + "\n" if mean else None
    try:
        outs = read(texts, counts)
    except Exception as ex:
        return reject(k, ex, texts)
    if key == "too many functions":
        ck.obligation(True)
        ck.violation(f"{key}: accepted", f"{texts!r} is accepted with more functions than asked for", {"texts": texts})
        return
    meet(k, outs, meant, texts)


def history(key, runs, means):
    """Runs in one process, each with the DSL it was given: every answer is read
    with the DSL of its own run."""
    parser(alone=f"run{[r[0] for r in RUNS].index(key)}")
    for i, (dsl, body) in enumerate(runs):
        symx.STATS["paths"] += 1
        ck.count("answers")
        text = f"def cand(x: int, y: int, l: List[int]) -> int:\n    return {body}\n"
        last = i == len(runs) - 1
        try:
            outs = read([text], None, dsl)
        except Exception as ex:
            ck.obligation(True)
            ck.count("rejected")
            if means or not last:
                ck.violation(f"runs {key}: rejected", f"run {i + 1} of {[b for _, b in runs]} is not read: "
                             f"{type(ex).__name__}: {ex}", {"texts": [text], "dsl": dsl})
            return
        if last and not means:
            ck.obligation(True)
            ck.violation(f"runs {key}: accepted", f"run {i + 1} of {[b for _, b in runs]} is read although its DSL does "
                         "not have the function", {"texts": [text], "dsl": dsl})
            return
        NAMES["sel"] = ["x", "y"] if dsl == DSL2 else ["y", "x"]
        try:
            judge(f"runs {key} {i + 1}", [text], outs)
        finally:
            NAMES["sel"] = ["y", "x"]


def batch(items):
    """Expressions as functions of one answer; halved while the answer is rejected."""
    names = [f"cand{i}" for i in range(len(items))]
    texts = [func(b, r, n) for n, (_, _, (r, b)) in zip(names, items)]
    try:
        out = read(["".join(texts)], [len(texts)])[0]
    except Exception as ex:
        if len(items) > 1:
            i = culprit(ex)
            if i is not None and i < len(items) and items[i][1] not in REQUIRED_PRODS:
                symx.STATS["paths"] += 1
                ck.count("answers")
                reject(items[i], ex, [texts[i]])
                return batch(items[:i] + items[i + 1:])
            h = len(items) // 2
            batch(items[:h])
            batch(items[h:])
        else:
            symx.STATS["paths"] += 1
            ck.count("answers")
            reject(items[0], ex, texts)
        return
    decls = {}
    for d in out[1]:
        decls.setdefault(getattr(d, "args", [str(d)])[0], d)
    for it, n, t in zip(items, names, texts):
        symx.STATS["paths"] += 1
        ck.count("answers")
        # the declarations of this function and of the functions it hands over
        mine, todo = [], [n]
        while todo:
            x = todo.pop()
            if x in decls and all(decls[x] is not y for y in mine):
                mine.append(decls[x])
                if isinstance(decls[x], (ir.FnDecl, ir.FnDeclRecursive)):
                    todo += handed(decls[x].args[1])
        meet(it, [([n], mine, [])], None, [t])
    ck.obligation(True)
    for d in out[1]:
        if not isinstance(d, (ir.FnDecl, ir.FnDeclRecursive)):
            ck.violation("declaration", f"{d} is returned as a declaration", {"texts": texts})
        elif printers.describe(decls[d.args[0]]) != printers.describe(d):
            ck.violation("name", f"two functions are called {d.args[0]}: {d} and {decls[d.args[0]]}", {"texts": texts})


def culprit(ex):
    """The function the reader was at when it rejected the answer."""
    tb = ex.__traceback__
    got = None
    while tb is not None:
        for v in tb.tb_frame.f_locals.values():
            n = getattr(v, "name", None)
            if type(v).__name__ == "FuncDef" and isinstance(n, str) and n.startswith("cand") and n[4:].isdigit():
                got = int(n[4:])
        tb = tb.tb_next
    return got


def handed(e):
    out = []
    if isinstance(e, (ir.FnDecl, ir.FnDeclRecursive)):
        out.append(e.args[0])
    for a in getattr(e, "args", []):
        if isinstance(a, ir.Expr):
            out += handed(a)
    return out


def main():
    global ROOT, LEN
    ROOT = mlenv.scratch()
    depth = 3 if ck.thorough else 2
    ck.bounds = {"expression depth": depth, "list length": LEN, "matrix": "2x2"}
    rest = [("whole", k, t) for k, t in WHOLE] + [("ite", f"ite {i}", t) for i, t in enumerate(ITES)]
    exprs = [("expr", k, (r, b)) for k, r, b in programs(depth)]
    only = os.environ.get("P20_ONLY")
    if only:
        rest, exprs = [[i for i in x if i[1].startswith(only)] for x in (rest, exprs)]

    def odd(key):
        """Texts that the reader is expected to reject: read a few, on their own."""
        return sum(w.split("=")[-1] in UNREAD if j else w in UNREAD for j, w in enumerate(key.split("/")))

    usual = [e for e in exprs if not odd(e[1])]
    singles = [e for e in exprs if odd(e[1]) and ("/" not in e[1] or ck.thorough and odd(e[1]) == 1 and "mapclosure" not in e[1])]
    if not ck.thorough:
        seen = set()
        for e in exprs:
            w = e[1].split("/")[-1].split("=", 1)[-1]
            if odd(e[1]) == 1 and "/" in e[1] and w in UNREAD - {"mapclosure"} and w not in seen:
                seen.add(w)
                singles.append(e)
    groups = [("rest", rest[i::16]) for i in range(16)] + [("rest1", [e]) for e in singles]
    n = 48
    m = (len(usual) + n - 1) // n
    groups += [("batch", usual[i::m]) for i in range(m)]
    ck.cov["usual"], ck.cov["singles"] = len(usual), len(singles)

    read(["def cand(x: int) -> int:\n    return inc(x)\n"])
    P, T = parser()
    # the workers copy what was there before they ran: check_solution rewrites dsl.py
    global _dir
    shutil.copytree(_dir[1], os.path.join(ROOT, "p20.start"))
    _dir = (_dir[0], os.path.join(ROOT, "p20.start"))

    def run(g):
        parser()
        ck.encoded(P.check_solution, P.mypy_parse, P.mypy_node_to_ir, P.mypy_type_to_ir_type, P.remove_comments, T.replace_ite)
        if g[0] == "rest":
            for i in g[1]:
                item(i)
        else:
            batch(g[1])

    ck.parallel(groups, run)
    ck.parallel([r for r in RUNS if not only or only == "runs"], lambda r: history(*r))
    return ck.finish()


if __name__ == "__main__":
    report.main(main)
