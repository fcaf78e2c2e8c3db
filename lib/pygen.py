"""Programs in the Python subset the frontend accepts: every control skeleton up to a
size, with distinguishable assignments and conditions."""
import itertools


def blocks(n, depth, loops, inloop=False):
    """All statement lists using exactly n nodes.  A assign, R return (last only),
    ('I', then, else|None), ('W', body)."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for s in stmts(k, depth, loops):
            if s == "R":
                if k == n:
                    yield (s,)
                continue
            for rest in blocks(n - k, depth, loops):
                yield (s,) + rest


def stmts(n, depth, loops):
    if n == 1:
        yield "A"
        yield "R"
    if depth > 0 and n >= 2:
        for b in blocks(n - 1, depth - 1, loops):
            if b:
                yield ("I", b, None)
        for k in range(1, n - 1):
            for b in blocks(k, depth - 1, loops):
                for c in blocks(n - 1 - k, depth - 1, loops):
                    if b and c:
                        yield ("I", b, c)
        if loops > 0:
            for b in blocks(n - 1, depth - 1, loops - 1):
                if b:
                    yield ("W", b)


EXPRS = ["x + {k}", "a - y", "2 * a + {k}", "a + b", "x - b", "-a", "b + {k}", "(a - 1) * 3", "y"]
CONDS = ["x > y", "a <= {k}", "0 < x < 5", "x == 1 or y > a", "x > 0 and a < y", "y >= b",
         "b < a <= x", "x == y", "a > 0 and b < 2 or y == 3"]
TARGETS = ["a", "b", "a"]


class Filler:
    def __init__(self, seed):
        self.e = itertools.count(seed)
        self.c = itertools.count(seed * 5 + 2)
        self.t = itertools.count(seed)
        self.k = itertools.count(1)
        self.loopn = itertools.count(1)

    def expr(self):
        return EXPRS[next(self.e) % len(EXPRS)].format(k=next(self.k))

    def cond(self):
        return CONDS[next(self.c) % len(CONDS)].format(k=next(self.k))

    def target(self):
        return TARGETS[next(self.t) % len(TARGETS)]


def render(block, f, ind, out):
    pad = "    " * ind
    for s in block:
        if s == "A":
            out.append(f"{pad}{f.target()} = {f.expr()}")
        elif s == "R":
            out.append(f"{pad}return {f.expr()}")
        elif s[0] == "I":
            out.append(f"{pad}if {f.cond()}:")
            render(s[1], f, ind + 1, out)
            if s[2] is not None:
                out.append(f"{pad}else:")
                render(s[2], f, ind + 1, out)
        elif s[0] == "W":
            i = f"i{next(f.loopn)}"
            out.append(f"{pad}{i} = 0")
            bound = "y" if ind == 1 else "x"
            out.append(f"{pad}while {i} < {bound}:")
            body = list(s[1])
            tail = []
            if body and body[-1] == "R":
                tail, body = body[-1:], body[:-1]
            render(body, f, ind + 1, out)
            out.append(f"{pad}    {i} = {i} + 1")
            render(tail, f, ind + 1, out)


def skeletons(n, depth=2, loops=1):
    for k in range(1, n + 1):
        yield from blocks(k, depth, loops)


def program(name, block, seed):
    f = Filler(seed)
    out = [f"def {name}(x: int, y: int) -> int:", f"    a = {f.expr().replace('a', 'x').replace('b', 'y')}",
           f"    b = {seed % 4}"]
    render(block, f, 1, out)
    if block[-1] != "R" and not returns(block):
        out.append("    return a + 2 * b" if seed % 2 else "    return a - b")
    return "\n".join(out) + "\n"


def returns(block):
    s = block[-1]
    return s == "R" or (s[0] == "I" and s[2] is not None and returns(s[1]) and returns(s[2]))
