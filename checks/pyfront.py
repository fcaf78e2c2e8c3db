"""P01 / P02: the verification condition of an analysed Python function."""
import contextlib
import io
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mlenv  # noqa
import mypyenv  # noqa
import z3

import pygen
import report
import sv
import symx
import vcsem
from pysem import PyErr
from irsem import IRSem
from metalift import ir
from metalift.frontend import python as F
from pyexec import PyExec

PID = sys.argv[1]
KINDS = {"int": ir.Int, "List[int]": ir.List[ir.Int], "Set[int]": ir.Set[ir.Int]}
UF = z3.Function("uninterp", z3.IntSort(), z3.IntSort(), z3.IntSort())


# ---- programs -------------------------------------------------------------
class Prog:
    """`calls`: the driver calls, each (function, [argument source]); an argument is a
    parameter name (fresh variable) or ('ret', k): the k-th call's result."""

    def __init__(self, key, src, calls, K=2, total=5, cap=3, pre=None, uninterp=False, exact=True):
        self.key, self.src, self.calls = key, src, calls
        self.K, self.total, self.cap, self.pre = K, total, cap, pre
        self.uninterp, self.exact = uninterp, exact


HAND = """
def chain(x: int, y: int) -> int:
    if x < y < 10:
        return 1
    return 0
---
def nested_if(x: int, y: int) -> int:
    if x > 0:
        if y > 0:
            return 1
        else:
            return 2
    return 3
---
def dead(x: int) -> int:
    return x
    x = x + 1
    return x
---
def copy_pos(l: List[int]) -> List[int]:
    out: List[int] = []
    i = 0
    while i < len(l):
        if l[i] > 0:
            out.append(l[i])
        i = i + 1
    return out
---
def abs_sum(l: List[int]) -> int:
    i = 0
    s = 0
    while i < len(l):
        e = l[i]
        if e < 0:
            s = s - e
        else:
            s = s + e
        i = i + 1
    return s
---
def find(l: List[int], v: int) -> int:
    i = 0
    while i < len(l):
        if l[i] == v:
            return i
        i = i + 1
    return -1
---
def count(l: List[int]) -> int:
    c = 0
    i = 0
    while i < len(l):
        c = c + 1
        i = i + 1
    return c
---
def last_pos(l: List[int]) -> int:
    i = 0
    r = 0
    while i < len(l) and l[i] > 0:
        r = l[i]
        i = i + 1
    return r
---
def app_branch(l: List[int], v: int) -> List[int]:
    if v > 0:
        l.append(v)
    else:
        l.append(0 - v)
    return l
---
def app_one(l: List[int], v: int) -> List[int]:
    if v > 0:
        l.append(v)
    return l
---
def alias(l: List[int], v: int) -> List[int]:
    m = l
    m.append(v)
    return m
---
def alias_len(l: List[int], v: int) -> int:
    m = l
    l.append(v)
    return len(m)
---
def alias_branch(l: List[int], k: List[int], v: int) -> int:
    m = l
    if v > 0:
        m = k
    m.append(v)
    return len(l)
---
def alias_loop(l: List[int], v: int) -> int:
    m = l
    i = 0
    while i < v:
        l.append(i)
        i = i + 1
    return len(m)
---
def two_appends(l: List[int], v: int) -> List[int]:
    l.append(v)
    l.append(v + 1)
    return l
---
def app_loop2(n: int) -> List[int]:
    out: List[int] = []
    i = 0
    while i < n:
        out.append(i)
        out.append(i)
        i = i + 1
    return out
---
def set_if(s: Set[int], c: int, v: int) -> Set[int]:
    if c == 1:
        s.add(v)
    else:
        s.remove(v)
    return s
---
def set_add2(s: Set[int], v: int) -> Set[int]:
    s.add(v)
    return s
---
def set_loop(s: Set[int], n: int) -> Set[int]:
    i = 0
    while i < n:
        s.add(i)
        i = i + 1
    return s
---
def set_rem_loop(s: Set[int], n: int) -> Set[int]:
    i = 0
    while i < n:
        s.remove(i)
        i = i + 1
    return s
---
def set_both_loop(s: Set[int], n: int, v: int) -> Set[int]:
    i = 0
    while i < n:
        if i > v:
            s.add(i)
        else:
            s.remove(i)
        i = i + 1
    return s
---
def set_two_loop(s: Set[int], t: Set[int], n: int) -> Set[int]:
    i = 0
    while i < n:
        s.add(i)
        t.add(n)
        i = i + 1
    t.remove(n)
    t.add(i)
    return t
---
def nest_inner_app(l: List[int], n: int) -> List[int]:
    i = 0
    while i < n:
        j = 0
        while j < i:
            l.append(j)
            j = j + 1
        i = i + 1
    return l
---
def nest_inner_if(n: int, v: int) -> int:
    i = 0
    r = 0
    while i < n:
        if i > v:
            j = 0
            while j < i:
                r = r + v
                j = j + 1
        i = i + 1
    return r
---
def set_cond(s: Set[int], n: int) -> Set[int]:
    if n > 0:
        if n > 5:
            s.add(n)
        else:
            s.add(1)
    return s
---
def tup(x: int, y: int) -> int:
    u = (x, x + 1)
    v = (y, u[0])
    return u[0] + u[1] + v[0] * v[1]
---
def tup_if(x: int, y: int) -> int:
    u = (x, y)
    if x > y:
        u = (y, x)
    return u[0] - u[1]
---
def tup_loop(x: int, y: int) -> int:
    i = 0
    s = 0
    while i < y:
        u = (i, x)
        s = s + u[1] + u[0]
        i = i + 1
    return s
---
def countdown(n: int) -> int:
    s = 0
    while n > 0:
        s = s + n
        n = n - 1
    return s
---
def arg_straight(x: int, y: int) -> int:
    x = x + y
    y = x - y
    if x > y:
        x = 0
    return x - y
---
def arg_loop(x: int, y: int) -> int:
    i = 0
    while i < y:
        x = x + i
        i = i + 1
    return x
---
def arg_pre(x: int, y: int) -> int:
    x = x * 2
    i = 0
    while i < y:
        i = i + 1
    return x + i
---
def seq_loops(n: int, m: int) -> int:
    i = 0
    while i < n:
        i = i + 1
    j = i
    while i < m:
        i = i + 1
    return i - j
---
def seq_same(n: int, m: int) -> int:
    i = 0
    s = 0
    while i < n:
        i = i + 1
        s = s + 1
    i = 0
    while i < m:
        i = i + 1
        s = s + 2
    return s
---
def nest(n: int, m: int) -> int:
    i = 0
    s = 0
    while i < n:
        j = 0
        while j < m:
            s = s + i
            j = j + 1
        i = i + 1
    return s
---
def nest_same(n: int, m: int) -> int:
    i = 0
    s = 0
    while i < n:
        s = s + 1
        while s < m:
            s = s + 2
        i = i + 1
    return s
---
def nest_ret(n: int, m: int) -> int:
    i = 0
    while i < n:
        j = 0
        while j < m:
            if i + j == 3:
                return i
            j = j + 1
        i = i + 1
    return -1
---
def loop_in_if(x: int, n: int) -> int:
    i = 0
    s = 0
    if x > 0:
        while i < n:
            s = s + x
            i = i + 1
    else:
        s = 7
    return s
---
def loop_if_loop(x: int, n: int) -> int:
    i = 0
    s = 0
    while i < n:
        if x > i:
            j = 0
            while j < x:
                s = s + 1
                j = j + 1
        i = i + 1
    return s
---
def loop_ret_first(x: int, n: int) -> int:
    i = 0
    while i < n:
        return i + x
    return x
---
def ret_if_then_loop(x: int, n: int) -> int:
    if n < 0:
        return 0
    i = 0
    while i < n:
        i = i + 1
    return i + x
---
def ret_else_then_loop(x: int, n: int) -> int:
    if n >= 0:
        x = x + 1
    else:
        return 5
    i = 0
    while i < n:
        i = i + 1
    return i + x
---
def two_state(n: int) -> int:
    a = 0
    b = 1
    i = 0
    while i < n:
        t = a + b
        a = b
        b = t
        i = i + 1
    return a
---
def swap_if(x: int, y: int) -> int:
    a = x
    b = y
    if x < y:
        t = 0
        a = y
        b = x
    return a - b
---
def list_of_locals(l: List[int], k: List[int]) -> int:
    a = l[0]
    i = 1
    if a > 2:
        a = k[i]
    return a + len(k)
---
def cond_index(l: List[int], i: int) -> int:
    if i < len(l) and l[i] > 0:
        return l[i]
    return 0
---
def or_index(l: List[int], i: int) -> int:
    if i >= len(l) or l[i] > 3:
        return 1
    return l[i]
---
def neg(x: int) -> int:
    y = -x
    if y > x:
        return -y
    return y * 2 - 1
---
def elifs(x: int, y: int) -> int:
    if x < 0:
        r = 1
    elif x == 0:
        r = y
    elif x < y:
        return 9
    else:
        r = x - y
    return r + 1
---
def eqchain(x: int, y: int) -> int:
    if x == y == 0:
        return 1
    return 2
---
def while_chain(n: int) -> int:
    i = 0
    while 0 <= i < n:
        i = i + 1
    return i
---
def while_or(n: int, m: int) -> int:
    i = 0
    while i < n or i < m:
        i = i + 1
    return i
---
def if_in_loop(n: int, m: int) -> int:
    i = 0
    s = 0
    while i < n:
        if i == m:
            s = s + 10
        if i > m:
            s = s + 1
        else:
            s = s - 1
        i = i + 1
    return s
---
def loop_expr_cond(n: int) -> int:
    a = 1
    while a * 2 <= n:
        a = a + a
    return a
---
def len_append(l: List[int]) -> int:
    l.append(4)
    return len(l)
---
def app_read(l: List[int], v: int) -> int:
    l.append(v)
    return l[0]
---
def filt(l: List[int], t: int) -> List[int]:
    out: List[int] = []
    i = 0
    while i < len(l):
        e = l[i]
        if e <= t:
            out.append(e)
        else:
            out.append(0)
        i = i + 1
    return out
---
def two_lists(l: List[int], n: int) -> List[int]:
    a: List[int] = []
    b: List[int] = []
    i = 0
    while i < n:
        if i < 1:
            a.append(i)
        else:
            b.append(i)
        i = i + 1
    return b
---
def reset_list(l: List[int], n: int) -> List[int]:
    out: List[int] = []
    out = l
    return out
---
def fold_early(l: List[int], t: int) -> int:
    s = 0
    i = 0
    while i < len(l):
        s = s + l[i]
        if s > t:
            return s
        i = i + 1
    return 0 - s
---
def pass_list(l: List[int]) -> List[int]:
    return l
---
def cond_only(x: int) -> int:
    if x > 3:
        x = x
    return x
---
def same_asg(x: int, y: int) -> int:
    a = x
    if x == y:
        a = y
    else:
        a = x
    return a
---
def unary_cmp(x: int, y: int) -> int:
    if -x >= y * -1:
        return x
    return y
---
def both_ret_then(x: int, y: int) -> int:
    if x > 0:
        if y > 0:
            return 1
        else:
            return 2
        x = 9
    else:
        x = 4
    return x
"""


# statements and expressions at the edge of the language: rejected, or given their meaning
ODD = """
def o_boolsum(x: int, y: int) -> int:
    return (x > 0) + y
---
def o_intand(x: int, y: int) -> int:
    return x and y
---
def o_intor(x: int, y: int) -> int:
    return x or y
---
def o_notint(x: int, y: int) -> int:
    if not x:
        return y
    return x
---
def o_notbool(x: int, y: int) -> int:
    if not x > y:
        return y
    return x
---
def o_ifint(x: int, y: int) -> int:
    if x:
        return 1
    return y
---
def o_whileint(x: int) -> int:
    s = 0
    while x:
        x = x - 1
        s = s + 1
    return s
---
def o_listsum(l: List[int], k: List[int]) -> List[int]:
    return l + k
---
def o_listmul(l: List[int]) -> List[int]:
    return l * 2
---
def o_mod(x: int) -> int:
    return x % 3
---
def o_div(x: int) -> int:
    return x // 2
---
def o_divneg(x: int) -> int:
    return x // -2
---
def o_divvar(x: int, y: int) -> int:
    return x // y
---
def o_truediv(x: int) -> int:
    return x / 2
---
def o_pow(x: int) -> int:
    return x ** 2
---
def o_shift(x: int) -> int:
    return x << 1
---
def o_bitand(x: int, y: int) -> int:
    return x & y
---
def o_invert(x: int) -> int:
    return ~x
---
def o_plus(x: int) -> int:
    return +x
---
def o_listlit(x: int, y: int) -> List[int]:
    return [x, y]
---
def o_booleq(x: int, y: int) -> bool:
    return (x > 0) == (y > 0)
---
def o_boolret(x: int, y: int) -> bool:
    return x > y
---
def o_boolvar(x: int, y: int) -> int:
    b = x > y
    if b:
        return 1
    return 0
---
def o_boolvar2(x: int, y: int) -> bool:
    b = x > y
    if y > 0:
        b = b and x > 3
    return b
---
def o_true(y: int) -> int:
    b = True
    if y > 0:
        b = False
    if b:
        return y
    return 0
---
def o_whiletrue(y: int) -> int:
    while True:
        if y > 3:
            return y
        y = y + 1
    return 0
---
def o_aug(x: int, y: int) -> int:
    x += y
    x -= 2
    x *= y
    return x
---
def o_augloop(n: int) -> int:
    i = 0
    s = 0
    while i < n:
        s += i
        i += 1
    return s
---
def o_for(n: int) -> int:
    s = 0
    for i in range(n):
        s = s + i
    return s
---
def o_forlist(l: List[int]) -> int:
    s = 0
    for i in l:
        s = s + i
    return s
---
def o_break(n: int) -> int:
    i = 0
    while i < n:
        if i > 3:
            break
        i = i + 1
    return i
---
def o_continue(n: int) -> int:
    i = 0
    s = 0
    while i < n:
        i = i + 1
        if i == 2:
            continue
        s = s + i
    return s
---
def o_whileelse(n: int) -> int:
    i = 0
    while i < n:
        i = i + 1
    else:
        i = 7
    return i
---
def o_whileelse_ret(n: int) -> int:
    i = 0
    while i < n:
        if i > 1:
            return i
        i = i + 1
    else:
        i = 9
    return i
---
def o_pass(x: int) -> int:
    if x > 0:
        pass
    else:
        x = 0
    return x
---
def o_multi(x: int) -> int:
    a = b = x + 1
    return a + b
---
def o_swap(x: int, y: int) -> int:
    x, y = y, x
    return x - y
---
def o_exprstmt(x: int) -> int:
    x + 1
    return x
---
def o_doc(x: int) -> int:
    'returns x'
    return x
---
def o_rec(x: int) -> int:
    if x <= 0:
        return 0
    return o_rec(x - 1) + 1
---
def o_insert(l: List[int], x: int) -> List[int]:
    l.insert(0, x)
    return l
---
def o_pop(l: List[int]) -> List[int]:
    l.pop()
    return l
---
def o_extend(l: List[int], k: List[int]) -> List[int]:
    l.extend(k)
    return l
---
def o_lremove(l: List[int], x: int) -> List[int]:
    l.remove(x)
    return l
---
def o_clear(l: List[int]) -> List[int]:
    l.clear()
    return l
---
def o_setitem(l: List[int], x: int) -> List[int]:
    l[0] = x
    return l
---
def o_slice(l: List[int]) -> List[int]:
    return l[1:]
---
def o_slice2(l: List[int], i: int) -> List[int]:
    return l[:i]
---
def o_in(l: List[int], x: int) -> int:
    if x in l:
        return 1
    return 0
---
def o_inset(s: Set[int], x: int) -> int:
    if x in s:
        return 1
    return 0
---
def o_lenset(s: Set[int]) -> int:
    return len(s)
---
def o_noret(x: int) -> int:
    x = x + 1
---
def o_noret_if(x: int) -> int:
    if x > 0:
        return x
---
def o_noret_loop(x: int) -> int:
    i = 0
    while i < x:
        if i > 2:
            return i
        i = i + 1
---
def o_afterret(x: int) -> int:
    return x
    x = x + 1
    return x
---
def o_undefvar(x: int) -> int:
    if x > 0:
        z = x
    return z
---
def o_selfdef(x: int) -> int:
    z = z + 1
    return z
---
def o_undefloop(n: int) -> int:
    i = 0
    while i < n:
        z = i
        i = i + 1
    return z
---
def o_leq(l: List[int], k: List[int]) -> int:
    if l == k:
        return 1
    return 0
---
def o_is(x: int, y: int) -> int:
    if x is y:
        return 1
    return 0
---
def o_lit_neg() -> int:
    return -3
---
def o_assert(x: int) -> int:
    assert x > 0
    return x
---
def o_ann(x: int) -> int:
    z: int = x + 1
    return z
---
def o_anndecl(x: int) -> int:
    z: int
    z = x + 1
    return z
---
def o_walrus(x: int) -> int:
    if (z := x + 1) > 3:
        return z
    return x
---
def o_abs(x: int) -> int:
    return abs(x)
---
def o_max(x: int, y: int) -> int:
    return max(x, y)
---
def o_int(x: int, y: int) -> int:
    return int(x > y)
---
def o_nested(x: int) -> int:
    def g(y: int) -> int:
        return y + 1
    return g(x)
---
def o_lambda(x: int) -> int:
    f = lambda y: y + 1
    return f(x)
---
def o_del(x: int) -> int:
    y = x
    del y
    return x
---
def o_tupcmp(x: int, y: int) -> int:
    if (x, y) == (1, 2):
        return 1
    return 0
---
def o_tupidx(x: int, y: int) -> int:
    u = (x, y)
    return u[-1]
---
def o_tupdyn(x: int, y: int, i: int) -> int:
    u = (x, y)
    return u[i]
---
def o_big(x: int) -> int:
    return x * 1000000007 + 4294967296
---
def o_mulvar(x: int, y: int) -> int:
    return x * y * x
---
def o_cmpmix(x: int, l: List[int]) -> int:
    if x == l:
        return 1
    return 0
---
def o_cmpbool(x: int, y: int) -> int:
    if x == (y > 0):
        return 1
    return 0
---
def o_listvar(l: List[int], k: List[int], c: int) -> int:
    m = l
    if c > 0:
        m = k
    return len(m)
---
def o_listnew(l: List[int]) -> int:
    m: List[int] = list()
    return len(m)
---
def o_emptycmp(l: List[int]) -> int:
    while len(l) < 3:
        l.append(1)
    return len(l)
---
def o_lenarg(l: List[int], i: int) -> int:
    return len(l[i:])
---
def o_nonecmp(x: int) -> int:
    y = None
    return x
---
def o_global(x: int) -> int:
    global gg
    gg = x
    return gg
---
def o_param_shadow(o_param_shadow: int) -> int:
    return o_param_shadow + 1
"""

def programs(thorough):
    out = []
    for src in (HAND.strip() + "\n---\n" + ODD.strip()).split("\n---\n"):
        name = src.split("(")[0].split()[-1]
        args = [a.split(":")[0].strip() for a in src.split("(", 1)[1].split(")")[0].split(",") if a]
        arg_written = any(f"\n{p}{a} =" in src or f"{a}.append" in src or f"{a}.add" in src or f"{a}.remove" in src
                          for a in args for p in ("    ", "        ", "            "))
        out.append(Prog(name, src + "\n", [(name, args)], K=2 if "nest" in name or "loop" in name else 3,
                        total=4 if "nest" in name else 6,
                        exact=not (arg_written and "while" in src)))
    n = 0
    for size, depth, loops, seed in ((4, 2, 2, 0), (5, 2, 2, 3)) if not thorough else ((4, 2, 2, 5), (5, 3, 2, 0), (5, 3, 2, 7)):
        for b in pygen.skeletons(size, depth, loops):
            name = f"g{n}"
            out.append(Prog(f"{size}.{depth}.{loops}.{seed}#{n} {b}", pygen.program(name, b, n + seed), [(name, ["x", "y"])],
                            K=3 if thorough else 2, total=5 if thorough else 4))
            n += 1
    # composition, preconditions, uninterpreted functions
    out.append(Prog("uninterp", "def uninterp(i: int, j: int) -> int:\n    return i\n\n\n"
                    "def un1(i: int, j: int) -> int:\n    return uninterp(i, i) + uninterp(j, i + 1)\n",
                    [("un1", ["i", "j"])], uninterp=True))
    inc = ("def inc(x: int, k: int) -> int:\n    if x > k:\n        return x + 1\n    return x - 1\n\n\n"
           "def dbl(z: int) -> int:\n    return z * 2\n\n\n"
           "def dbl2(z: int) -> int:\n    r = 0\n    i = 0\n    while i < z:\n        r = r + 2\n        i = i + 1\n    return r\n")
    out.append(Prog("compose", inc, [("inc", ["x", "k"]), ("dbl", [("ret", 0)])]))
    out.append(Prog("compose_twice", inc, [("inc", ["x", "k"]), ("inc", [("ret", 0), "k"]), ("dbl", [("ret", 1)])]))
    out.append(Prog("compose_same", inc, [("dbl", ["x"]), ("dbl", ["k"])]))
    out.append(Prog("compose_loop", inc, [("dbl2", ["z"]), ("inc", ["x", ("ret", 0)])]))
    out.append(Prog("compose_loops", inc, [("dbl2", ["z"]), ("dbl2", ["z"])]))
    out.append(Prog("pre", inc.replace("dbl2", "dbl3"), [("dbl3", ["z"])], pre=lambda a: a["z"] >= 1))
    return out


def source(progs):
    seen, out = set(), ["from typing import List, Set\n\n"]
    for p in progs:
        if p.src not in seen:
            seen.add(p.src)
            out.append(p.src)
    return "\n\n".join(out)


def arg_types(src, fn):
    line = next(l for l in src.splitlines() if l.startswith(f"def {fn}("))
    ps = line[line.index("(") + 1: line.rindex(")")].strip()
    return [(a.split(":")[0].strip(), a.split(":")[1].strip()) for a in ps.split(", ")] if ps else []


# ---- the real frontend ------------------------------------------------------
class Captured(Exception):
    pass


def analyse(prog, path):
    """Run the frontend on the program; -> (run_synthesis arguments, argument objects)."""
    cap = {}

    def fake(**kw):
        cap.update(kw)
        return []

    d = F.Driver()
    objs, rets = {}, []
    fs = {}
    for fn, args in prog.calls:
        if fn not in fs:
            fs[fn] = d.analyze(path, fn, lambda: [], lambda w, r, s: ir.Bool("inv_hole"),
                               lambda w, r, s: ir.Bool("ps_hole"), ["uninterp"] if prog.uninterp else [])
    for fn, args in prog.calls:
        for (pn, pt), a in zip(arg_types(prog.src, fn), args):
            if isinstance(a, str) and a not in objs:
                objs[a] = ir.create_object(KINDS[pt], a)
                d.add_var_object(objs[a])
    if prog.pre:
        d.add_precondition(prog.pre(objs))
    for fn, args in prog.calls:
        rets.append(fs[fn](*[objs[a] if isinstance(a, str) else rets[a[1]] for a in args]))
    F.run_synthesis = fake
    d.synthesize()
    return cap, objs


def oracle(prog, dom, inputs):
    """All complete paths within the bound: (pc, [ret per call], heads per call)."""
    out = []
    fns = {"uninterp": lambda a, b: UF(a, b)} if prog.uninterp else {}
    X = PyExec(prog.src, fns=fns, unroll=prog.K, total=prog.total)
    if prog.uninterp:
        X.funcs.pop("uninterp", None)

    def one(p):
        rets, heads, argv = [], [], []
        for fn, args in prog.calls:
            vals = [inputs[a] if isinstance(a, str) else rets[a[1]] for a in args]
            r, h = X.run(p, fn, vals)
            rets.append(r)
            argv.append(vals)
            heads.append(h)
        if symx.solve(*p.pc, want_model=False)[0] == "unsat":
            return
        pc = [c for c in p.pc if "sel!" not in str(c)]
        out.append((sv.And(*pc), rets, heads, argv))

    cons = [c for a in inputs for c in [dom.cons[a]]]

    def start(p):
        for c in cons:
            p.assume(c)
        if prog.pre:
            p.assume(IRSem(env=inputs).ev(prog.pre(
                {a: ir.create_object(dom.types[a], a) for a in inputs}).src))
        one(p)

    n, done = symx.explore(start, limit=400)
    return out, done


def setup(prog):
    dom = vcsem.Dom(prog.cap)
    dom.cons, dom.types = {}, {}
    inputs = {}
    for fn, args in prog.calls:
        for (pn, pt), a in zip(arg_types(prog.src, fn), args):
            if isinstance(a, str) and a not in inputs:
                # lists leave room for one append within the domain
                v, c, _ = dom.new(KINDS[pt], a)
                inputs[a] = v
                dom.cons[a] = c
                dom.types[a] = KINDS[pt]
    return dom, inputs


def vc_formulas(ck, prog, cap, dom, inputs, preds):
    """[(universally quantified z3 formula pieces)] per conjunct of the VC."""
    vc = cap["vc"]
    names = {}
    for v in cap["vars"]:
        names.setdefault(v.args[0], set()).add(str(v.type))
    out = []
    for conj in vcsem.conjuncts(vc):
        fv = vcsem.free_vars(conj)
        env, cons, qs = {}, [], []
        for n, ts in fv.items():
            if len({str(t) for t in ts}) > 1:
                raise ValueError(f"variable {n} has two types {ts}")
            if n in inputs:
                if str(ts[0]) != str(dom.types[n]):
                    raise ValueError(f"variable {n} has type {ts[0]} instead of {dom.types[n]}")
                env[n] = inputs[n]
            else:
                v, c, zs = dom.new(ts[0], n)
                env[n] = v
                cons.append(c)
                qs += zs
            if n not in names:
                raise KeyError(f"variable {n} of the condition is not declared")
        P = vcsem.Preds(dom)
        P.ufs = preds["ufs"]
        S = IRSem(env=env, div="euclid", fns={**({"uninterp": lambda a, b: UF(a, b)} if prog.uninterp else {}),
                                **{n: (lambda nm: lambda *xs: preds["fn"](P, nm, xs))(n) for n in preds["names"]}})
        f = S.ev(conj)
        side = sv.And(*cons, *P.fits)  # functions are total in a condition
        out.append((conj, env, side, f, qs))
    return out


def loops_of(src, fn):
    """[(line, names whose value is not tracked there)] of the reachable loops: a name
    first assigned in another loop's body has no value on runs that skip that body."""
    import ast
    f = next(n for n in ast.parse(src).body if isinstance(n, ast.FunctionDef) and n.name == fn)
    loops, first = [], {}

    def walk(body, stack):
        for s in body:
            if isinstance(s, ast.Return):
                return True
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                first.setdefault(t.id, (s.lineno, list(stack)))
            elif isinstance(s, ast.While):
                loops.append((s.lineno, list(stack)))
                walk(s.body, stack + [s.lineno])
            elif isinstance(s, ast.If):
                r1 = walk(s.body, stack)
                r2 = walk(s.orelse, stack) if s.orelse else False
                if r1 and r2:
                    return True
        return False

    walk(f.body, [])
    return [(line, {v for v, (at, st) in first.items()
                    if at > line or any(l not in stack for l in st)})
            for line, stack in loops]


def real_run(prog, inputs, m):
    """Replay: the real Python functions on the concrete inputs."""
    env = {}
    exec("from typing import List, Set\n\n" + prog.src, env)
    rets = []
    try:
        for fn, args in prog.calls:
            vals = [sv.conc(inputs[a], m) if isinstance(a, str) else rets[a[1]] for a in args]
            if any(isinstance(v, str) for v in vals) or prog.uninterp:
                return None
            rets.append(env[fn](*[list(v) if isinstance(v, list) else v for v in vals]))
    except Exception as e:
        return f"raised {e!r}"
    return rets


def supported(prog):
    """Programs of the language the frontend offers: what is assigned in a branch has a
    value before it (the hand-written ones: unless they are of the listed kinds)."""
    import ast
    if prog.key in UNSUPPORTED or prog.key.startswith("o_"):
        return False

    def names(body):
        return {t.id for b in body for n in ast.walk(b) if isinstance(n, (ast.Assign, ast.AnnAssign))
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target])}

    def ends(body):
        """A loop whose body always returns is no loop."""
        return any(isinstance(s, ast.Return) or isinstance(s, ast.If) and ends(s.body) and ends(s.orelse) for s in body)

    def walk(body, known):
        known = set(known)
        for s in body:
            if isinstance(s, ast.If):
                if not (names(s.body) | names(s.orelse)) <= known:
                    return False
                if not walk(s.body, known) or not walk(s.orelse, known):
                    return False
            elif isinstance(s, ast.While):
                if ends(s.body) or not walk(s.body, known):
                    return False
            known |= names([s])
        return True

    return all(walk(f.body, {a.arg for a in f.args.args}) for f in ast.parse(prog.src).body
               if isinstance(f, ast.FunctionDef))


# lists that may have aliases, tuple variables
UNSUPPORTED = {"alias", "alias_len", "alias_branch", "alias_loop", "tup_loop"}


def check(ck, prog, path):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            cap, objs = analyse(prog, path)
    except Exception as e:
        ck.count("rejected")
        ck.count("rejected: " + re.sub(r"\b[it]\d? only", "N only", f"{type(e).__name__}: {e}").split(" for ite")[0][:45])
        if PID == "P02":
            ck.obligation(True)
            if supported(prog):
                ck.violation(f"{prog.key} rejected", f"{prog.src}: no condition is generated: {e!r}", {"program": prog.src})
        elif os.environ.get("PYF_REJ"):
            print("REJ", supported(prog), prog.key, repr(e)[:100])
        return
    ck.count("accepted")
    dom, inputs = setup(prog)
    names = {s.args[0] for s in cap["inv_and_ps"]}
    try:
        paths, done = oracle(prog, dom, inputs)
    except PyErr as e:
        if not prog.key.startswith("o_"):
            raise
        ck.count(f"outside the oracle: {prog.key} ({e})")
        return
    if not paths:
        ck.count("no complete path")
        return
    if not done:
        ck.count("path limit")
    sig = {s.args[0]: [a.args[0] for a in s.args[2:]] for s in cap["inv_and_ps"]}
    bad = None
    if PID == "P01":
        ufs = {}
        preds = {"names": names, "ufs": ufs, "fn": lambda P, n, xs: P.uf(n, xs)}
        try:
            vcs = vc_formulas(ck, prog, cap, dom, inputs, preds)
        except (KeyError, ValueError, sv.SortMismatch) as e:
            ck.obligation(False)
            ck.violation(f"{prog.key}: {e}", f"{prog.src}: {e}", {"program": prog.src, "why": str(e)})
            return
        hyp = []
        for conj, env, side, f, qs in vcs:
            g = z3.Implies(side, f)
            hyp.append(z3.ForAll(qs, g) if qs else g)
        P = vcsem.Preds(dom)
        P.ufs = ufs
        for pc, rets, heads, argv in paths:
            # every call's postcondition holds of what the call returned
            goal = []
            for (fn, args), r, av in zip(prog.calls, rets, argv):
                P.fits = []
                g = P.uf(fn + "_ps", list(av) + [r])
                goal.append(z3.Implies(sv.And(*P.fits), g))
            # the conditions at the states this path has at its loop heads are usually enough
            states = [{**mem, **inputs} for hs in heads for _, _, mem in hs] or [dict(inputs)]
            ground = [i for c in vcs for i in vcsem.instances(c, inputs, dom, states)]
            st, m = symx.solve(*ground, pc, z3.Not(sv.And(*goal)), timeout=20000)
            if st != "unsat":
                ck.count("decided with quantifiers")
                st, m = symx.solve(*hyp, pc, z3.Not(sv.And(*goal)), timeout=20000)
            if st == "unsat":
                ck.obligation(True)
                continue
            if st == "unknown":
                # not derivable from the conditions: decide by the ground instances
                # reachable along this path
                ck.obligation(False)
                ck.errors.append(f"unknown: {prog.key}")
                ck.count("unknown " + prog.key)
                return
            bad = (pc, rets, m)
            ck.obligation(False)
            break
        if bad:
            pc, rets, m = bad
            ins = {a: sv.conc(v, m) for a, v in inputs.items()}
            want = [sv.conc(r, m) for r in rets]
            got = real_run(prog, inputs, m)
            ck.replays += 1
            # real_run confirms that the program really returns that value
            if got is not None and list(got) != list(want) and not any(isinstance(w, str) for w in want):
                ck.errors.append(f"replay mismatch {prog.key}: {ins} -> {got}, expected {want}")
                return
            ck.violation(prog.key, f"{prog.src}\n  on {ins} returns {want}, but the condition admits a "
                         f"postcondition false there", {"program": prog.src, "inputs": ins, "returns": want,
                                                        "vc": [repr(c[0]) for c in vcs], "model": str(m)[:1500]})
        return
    # P02
    if not prog.exact:
        ck.count("not exact (argument overwritten before or in a loop)")
        return
    inv_line, dont_care = {}, {}
    for fn in {fn for fn, _ in prog.calls}:
        ls = loops_of(prog.src, fn)
        got = sorted(n for n in names if n.startswith(fn + "_inv"))
        # invariants are numbered in source order over the functions analysed so far
        if len(got) != len(ls):
            ck.obligation(False)
            ck.violation(prog.key + " loops", f"{fn}: {len(ls)} loops, invariants {got}\n{prog.src}",
                         {"program": prog.src})
            return
        for n, (l, dc) in zip(sorted(got, key=lambda n: int(n.split("_inv")[1])), ls):
            inv_line[n] = l
            dont_care[n] = dc

    def exact(P, name, xs):
        alts = []
        for pc, rets, heads, argv in paths:
            if name in inv_line:
                for hs in heads:
                    for line, k, st in hs:
                        if line == inv_line[name]:
                            alts.append(sv.And(pc, *[sv.eq(x, st[p]) for x, p in zip(xs, sig[name])
                                                     if p not in dont_care[name]]))
            else:
                for (fn, args), r, av in zip(prog.calls, rets, argv):
                    if name == fn + "_ps":
                        alts.append(sv.And(pc, *[sv.eq(x, y) for x, y in zip(xs, list(av) + [r])]))
        return sv.Or(*alts)

    preds = {"names": names, "ufs": {}, "fn": exact}
    try:
        vcs = vc_formulas(ck, prog, cap, dom, inputs, preds)
    except (KeyError, ValueError, sv.SortMismatch) as e:
        ck.obligation(False)
        ck.violation(f"{prog.key}: {e}", f"{prog.src}: {e}", {"program": prog.src, "why": str(e)})
        return
    inb = sv.Or(*[pc for pc, *_ in paths])
    for conj, env, side, f, qs in vcs:
        st, m = symx.solve(inb, side, z3.Not(f), timeout=30000)
        if st == "unsat":
            ck.obligation(True)
            continue
        ck.obligation(False)
        if st == "unknown":
            ck.errors.append(f"unknown: {prog.key}")
            return
        vals = {n: sv.conc(v, m) for n, v in env.items()}
        ins = {a: sv.conc(v, m) for a, v in inputs.items()}
        ck.violation(prog.key, f"{prog.src}\n  with the exact postcondition and invariants, {conj} is false at {vals}",
                     {"program": prog.src, "conjunct": repr(conj), "values": vals, "inputs": ins,
                      "run": str(real_run(prog, inputs, m))})
        return


def main():
    ck = report.Check(PID)
    ck.encoded(F.VCVisitor, F.RWVarsVisitor, F.Predicate, F.PredicateTracker, F.MetaliftFunc, F.Driver, F.State)
    progs = programs(ck.thorough)
    only = os.environ.get("PYF_ONLY")
    if only:
        progs = [p for p in progs if p.key.startswith(only)]
    path = os.path.join(mlenv.scratch(), "progs.py")
    open(path, "w").write(source(progs))
    memo = {}
    real_parse = F.parse

    def cached(p, m):
        if p not in memo:
            memo[p] = real_parse(p, m)
        return memo[p]

    F.parse = cached
    with contextlib.redirect_stdout(io.StringIO()):
        F.parse(path, "metalift")
    ck.bounds = {"loop iterations": "2-3 per loop, 4-6 per run", "list capacity": 3,
                 "program size": "all control skeletons up to 5 statements (2 nested loops, 2 nested conditionals)"
                                 " + 60 hand-written list, set, tuple, nested and composed programs"}
    ck.assumptions = ["list indices in range and non-negative", "Python integers are unbounded",
                      "runs that raise are outside the claim"]
    ck.parallel(range(len(progs)), lambda i: check(ck, progs[i], path))
    return ck.finish()


report.main(main)
