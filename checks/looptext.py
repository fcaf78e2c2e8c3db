"""P05, first half: the compiler's loop report is read right for every choice of block names.

The report's text is symbolic: each block's name is a Z3 string, each block's flags are forked.
The real readers run on it; where they look for a piece of text inside a name, Z3 decides
whether some name contains it and both continuations are followed."""
import builtins
import os
import re
import string

import z3

import symx
from metalift import analysis as A
from metalift.frontend import llvm as F

TOK = re.compile(r"Zq(\d+)Z")
MAXLEN = 12


class Name:
    """An unknown name: up to MAXLEN characters."""

    def __init__(self, k):
        self.n = z3.Int(f"len{k}")
        self.c = [z3.BitVec(f"c{k}_{i}", 8) for i in range(MAXLEN)]

    def domain(self, chars):
        return [self.n >= 1, self.n <= MAXLEN] + [z3.Or(*[c == ord(x) for x in chars]) for c in self.c]

    def differs(self, o):
        return z3.Or(self.n != o.n, *[z3.And(i < self.n, a != b) for i, (a, b) in enumerate(zip(self.c, o.c))])


NAMES = {}


def const(k):
    if k not in NAMES:
        NAMES[k] = Name(k)
    return NAMES[k]


def pieces(s):
    """The text's known characters and names in order."""
    s, out, i = str.__str__(s), [], 0
    for m in TOK.finditer(s):
        out += list(s[i:m.start()]) + [const(int(m.group(1)))]
        i = m.end()
    return out + list(s[i:])


def match(ps, i, off, arg, j, to_end):
    """The text from character `off` of piece i on starts with arg[j:] (and ends there)."""
    if j == len(arg) and not to_end:
        return z3.BoolVal(True)
    if i == len(ps):
        return z3.BoolVal(j == len(arg))
    p = ps[i]
    if isinstance(p, str):
        return match(ps, i + 1, 0, arg, j + 1, to_end) if j < len(arg) and arg[j] == p else z3.BoolVal(False)
    alts, eqs = [], [off <= p.n]
    for t in range(0, MAXLEN - off + 1):
        if t:
            if j + t > len(arg):
                break
            if arg[j + t - 1] not in p.chars:
                break
            eqs.append(p.c[off + t - 1] == ord(arg[j + t - 1]))
        if j + t == len(arg) and not to_end:
            alts.append(z3.And(*eqs, off + t <= p.n))
            break
        alts.append(z3.And(*eqs, p.n == off + t, match(ps, i + 1, 0, arg, j + t, to_end)))
    return z3.Or(*alts)


def contains(s, o):
    ps = pieces(s)
    return z3.Or(*[match(ps, i, off, o, 0, False) if off == 0 else z3.And(off < p.n, match(ps, i, off, o, 0, False))
                   for i, p in enumerate(ps) for off in range(1 if isinstance(p, str) else MAXLEN)])


def prefix(s, o):
    return match(pieces(s), 0, 0, o, 0, False)


def suffix(s, o):
    ps = pieces(s)
    return z3.Or(*[match(ps, i, off, o, 0, True) if off == 0 else z3.And(off < p.n, match(ps, i, off, o, 0, True))
                   for i, p in enumerate(ps) for off in range(1 if isinstance(p, str) else MAXLEN)])


def equal(s, o):
    return match(pieces(s), 0, 0, o, 0, True)


def symbolic(s):
    return TOK.search(str.__str__(s)) is not None


class Beyond(Exception):
    """The code asked for more than whether a name contains a text."""


def wrap(v):
    if type(v) is str:
        return RStr(v)
    if type(v) is list:
        return [wrap(x) for x in v]
    if type(v) is tuple:
        return tuple(wrap(x) for x in v)
    return v


def ask(s, o, plain, cond):
    if plain or symbolic(o) or not symbolic(s):
        return plain  # names differ from one another
    path = symx.cur()
    c = z3.simplify(cond(s, str.__str__(o)))
    if z3.is_false(c):
        return False
    for m in TOK.finditer(str.__str__(s)):
        mention(path, int(m.group(1)))
    return path.branch(c)


def mention(path, k):
    """What is known of a name enters the path when the code first looks into it."""
    if k in path.seen:
        return
    n = const(k)
    path.pc += n.domain(path.kinds[k]) + [n.differs(const(j)) for j in path.seen]
    path.seen.append(k)


class RStr(str):
    """A text some of whose pieces are unknown names."""

    def __contains__(self, o):
        return ask(self, o, str.__contains__(self, o), contains)

    def startswith(self, o, *a):
        if a or isinstance(o, tuple):
            return str.startswith(self, o, *a)
        return ask(self, o, str.startswith(self, o), prefix)

    def endswith(self, o, *a):
        if a or isinstance(o, tuple):
            return str.endswith(self, o, *a)
        return ask(self, o, str.endswith(self, o), suffix)

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return ask(self, o, str.__eq__(self, o), equal)

    def __ne__(self, o):
        return not self == o

    __hash__ = str.__hash__

    def _pos(self, o, r):
        if r < 0 and RStr.__contains__(self, o):
            raise Beyond()
        return r

    def find(self, o, *a):
        return self._pos(o, str.find(self, o, *a))

    def rfind(self, o, *a):
        return self._pos(o, str.rfind(self, o, *a))

    def count(self, o, *a):
        return max(0, self._pos(o, str.count(self, o, *a) or -1))

    def __str__(self):
        return self

    def __format__(self, spec):
        return self


for _n in ("replace", "split", "rsplit", "strip", "lstrip", "rstrip", "partition", "rpartition", "splitlines",
           "removeprefix", "removesuffix", "join", "__getitem__", "__add__", "lower", "format"):
    def _mk(n):
        def f(self, *a, **k):
            return wrap(getattr(str, n)(self, *a, **k))
        return f
    setattr(RStr, _n, _mk(_n))


class M:
    def __init__(self, m):
        self.m = m

    def __getattr__(self, n):
        v = getattr(self.m, n)
        return (lambda *a, **k: wrap(v(*a, **k))) if callable(v) else wrap(v)

    def __getitem__(self, i):
        return wrap(self.m[i])


LIT = re.compile(r"^(?:\\[^a-zA-Z0-9]|[A-Za-z0-9<>%,:=' _-])+$")


class Pat:
    def __init__(self, p, flags=0):
        self.s = p if isinstance(p, str) else p.pattern
        self.p = re.compile(p, flags) if isinstance(p, str) else p

    def _m(self, kind, s, *a):
        r = getattr(self.p, kind)(s, *a)
        if r is None:
            if kind == "search" and LIT.match(self.s) and RStr(s).__contains__(re.sub(r"\\(.)", r"\1", self.s)):
                raise Beyond()
            return None
        return M(r)

    def match(self, s, *a):
        return self._m("match", s, *a)

    def search(self, s, *a):
        return self._m("search", s, *a)

    def fullmatch(self, s, *a):
        return self._m("fullmatch", s, *a)

    def finditer(self, s):
        return [M(m) for m in self.p.finditer(s)]

    def findall(self, s):
        return wrap(self.p.findall(s))

    def split(self, s, *a):
        return wrap(self.p.split(s, *a))

    def sub(self, r, s, *a):
        return wrap(self.p.sub(r, s, *a))


class Re:
    """`re`, keeping the names of what it returns symbolic."""

    def __getattr__(self, n):
        if n in ("match", "search", "fullmatch", "finditer", "findall", "split"):
            return lambda p, s, *a, **k: getattr(Pat(p, *(a if n in ("match", "search") else ())), n)(s)
        if n == "sub":
            return lambda p, r, s, *a, **k: Pat(p).sub(r, s, *a)
        if n == "compile":
            return Pat
        return getattr(re, n)


class File:
    def __init__(self, f):
        self.f = f

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __iter__(self):
        return iter([wrap(l) for l in self.f])

    def read(self):
        return wrap(self.f.read())

    def readlines(self):
        return wrap(self.f.readlines())

    def readline(self):
        return wrap(self.f.readline())

    def close(self):
        self.f.close()


class Patched:
    def __enter__(self):
        self.old = {m: m.__dict__.get("re") for m in (F, A)}
        for m in (F, A):
            m.re = Re()
            m.open = lambda *a, **k: File(builtins.open(*a, **k))

    def __exit__(self, *a):
        for m, r in self.old.items():
            m.re = r
            del m.open


ALPHA = string.ascii_letters + string.digits + "_"
CH = ALPHA + ".-"

HEAD = "Printing analysis 'Natural Loop Information' for function '%s':\n"


def build(path, shape):
    """shape: [[(depth, blocks) loops] per function].  -> (text, functions)"""
    k = [0]
    path.seen, path.kinds = [], {}

    def name(re_):
        k[0] += 1
        path.kinds[k[0]] = const(k[0]).chars = re_
        return f"Zq{k[0]}Z"

    text, funcs = "", []
    for loops in shape:
        fn = name(ALPHA)
        text += HEAD % fn
        ls = []
        outer = []
        for depth, n in loops:
            if depth == 1:
                blocks = [name(CH) for _ in range(n)]
                outer = blocks
            else:
                blocks = outer[-n:]  # an inner loop's blocks are blocks of the outer one
            info = []
            for j, b in enumerate(blocks):
                latch, exiting = bool(path.choice(2)), bool(path.choice(2))
                info.append((b, j == 0, latch, exiting))
            ls.append(info)
            text += "    " * (depth - 1) + f"Loop at depth {depth} containing: " + ",".join(
                f"%{b}" + "<header>" * h + "<latch>" * l + "<exiting>" * e for b, h, l, e in info) + "\n"
        funcs.append((fn, ls))
    return text, funcs


def sets(info):
    return ({b for b, h, _, _ in info if h}, {b for b, *_ in info}, {b for b, _, l, _ in info if l},
            {b for b, _, _, e in info if e})


def plain(x):
    return {str.__str__(b) if type(b) is str else "".join(str.__iter__(b)) for b in ([x] if isinstance(x, str) else x)}


def fields(l):
    if isinstance(l, F.RawLoopInfo):
        h, b, e, t = l.header_name, l.body_names, l.exit_names, l.latch_names
    else:
        h, b, e, t = l.header, l.body, l.exits, l.latches
    h, b, e, t = map(plain, (h, b, e, t))
    return h, h | b | e | t, t, e


READERS = {"frontend": lambda p, n: F.parse_loops(p, n), "analysis": lambda p, n: A.parseLoops(p, n, False)}


def concrete(text, model, seen):
    def val(k):
        if k not in seen:
            return f"zz.unused{k}"
        n = const(k)
        ev = lambda x: model.eval(x, model_completion=True).as_long()
        return "".join(chr(ev(c)) for c in n.c[:ev(n.n)])
    return TOK.sub(lambda m: val(int(m.group(1))), text)


SHAPES = [[[(1, 1)]], [[(1, 3)]], [[(1, 2), (2, 1)]], [[(1, 3), (2, 1)]], [[(1, 2), (1, 2)]], [[(1, 1)], [(1, 2)]],
          [[], [(1, 2)]], [[(1, 2)], []], [[(1, 1), (2, 1)], [(1, 1)]], [[(1, 1), (2, 1), (3, 1)]]]
MORE = [[[(1, 4)]], [[(1, 5)]], [[(1, 3), (2, 2)]], [[(1, 2)], [(1, 3)]], [[(1, 2), (2, 1), (1, 2)]], [[(1, 2)], [(1, 1)], [(1, 2)]]]


def shapes(thorough):
    return SHAPES + (MORE if thorough else [])


def run(ck, shape, reader, scratch, quiet):
    p = os.path.join(scratch, f"r_{os.getpid()}.loops")

    def start(path):
        text, funcs = build(path, shape)
        with open(p, "w") as f:
            f.write(text)
        which = path.choice(len(funcs))
        fn, ls = funcs[which]
        try:
            with quiet(), Patched():
                got = READERS[reader](p, RStr(fn))
        except Beyond:
            ck.count("names searched in another way")
            return
        except Exception as e:
            got = e
        want = [sets(i) for i in ls]
        bad = None
        if isinstance(got, Exception):
            bad = f"raises {got!r}"
        elif [fields(g) for g in got] != want:
            bad = "reads other loops"
        st, m = symx.solve(*path.pc)
        if st == "unsat":
            return
        if st == "unknown":
            ck.obligation(False)
            ck.errors.append("unknown: loop report")
            return
        ck.obligation(True)
        if not bad:
            return
        ctext, cfn = concrete(text, m, path.seen), concrete(fn, m, path.seen)
        with open(p, "w") as f:
            f.write(ctext)
        with quiet():
            try:
                real = [fields(g) for g in READERS[reader](p, cfn)]
            except Exception as e:
                real = repr(e)
        cwant = [tuple({concrete(b, m, path.seen) for b in s} for s in w) for w in want]
        ck.replays += 1
        if real == cwant:
            ck.errors.append(f"replay mismatch: {ctext}")
            return
        ck.violation(f"report {reader}: {bad}", f"the loops of {cfn} in\n{ctext}are read as {real}",
                     {"report": ctext, "function": cfn, "read": repr(real), "expected": repr(cwant)})

    n, done = symx.explore(start, limit=6000)
    if not done:
        ck.errors.append("path limit: loop report")
