"""Reader and path-wise symbolic interpreter for textual LLVM IR (clang -O0 style),
on mathematical integers; used as the oracle for the LLVM frontend."""
import re
import subprocess

import z3

import sv
from symx import PathAbort


class Unsup(Exception):
    pass


class Loc:
    """A memory cell (an alloca, an argument's or the result's storage)."""

    def __init__(self, name, v=None):
        self.name, self.v = name, v


class Elem:
    """Pointer to element i of the list held in a cell."""

    def __init__(self, base, i):
        self.base, self.i = base, i


class UninitUse(Exception):
    pass


INST = re.compile(r"^\s*(?:%(?P<dst>[\w.\-]+|\"[^\"]+\") = )?(?P<op>[a-z]+)\b(?P<rest>.*)$")


def strip_meta(s):
    s = re.sub(r",\s*!\S+ !\d+", "", s)
    return re.sub(r",? align \d+", "", s).strip()


def split_args(s):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            elif ch == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Func:
    def __init__(self, name, ret, args, blocks, order):
        self.name, self.ret, self.args = name, ret, args
        self.blocks, self.order = blocks, order
        self.allocas = [i["dst"] for b in order for i in blocks[b] if i["op"] == "alloca"]

    def read_locals(self):
        """The allocas some load or call reads."""
        txt = " ".join(i["rest"] for b in self.order for i in self.blocks[b] if i["op"] in ("load", "call"))
        return [a for a in self.allocas if re.search(r"%" + re.escape(a) + r"(?![\w.\-])", txt)]

    def succs(self, b):
        t = self.blocks[b][-1]
        return re.findall(r"label %([\w.\-]+)", t["rest"]) if t["op"] in ("br", "switch") else []

    def dominators(self):
        preds = {b: [] for b in self.order}
        for b in self.order:
            for s in self.succs(b):
                preds[s].append(b)
        entry = self.order[0]
        dom = {b: set(self.order) for b in self.order}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in self.order[1:]:
                ps = [dom[p] for p in preds[b]]
                n = ({b} | set.intersection(*ps)) if ps else {b}
                if n != dom[b]:
                    dom[b], ch = n, True
        return dom, preds

    def loops(self):
        """Natural loops merged by header: header -> (blocks, latches, exiting)."""
        dom, preds = self.dominators()
        reach = set()
        st = [self.order[0]]
        while st:
            b = st.pop()
            if b not in reach:
                reach.add(b)
                st += self.succs(b)
        out = {}
        for b in self.order:
            if b not in reach:
                continue
            for s in self.succs(b):
                if s in dom[b]:
                    body, latches = out.setdefault(s, ({s}, set()))
                    latches.add(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += preds[x]
        return {h: (body, latches, {b for b in body if any(s not in body for s in self.succs(b))})
                for h, (body, latches) in out.items()}


def demangle(names):
    names = list(names)
    if not names:
        return {}
    r = subprocess.run(["c++filt", "-n"], input="\n".join(names), text=True, stdout=subprocess.PIPE, check=True)
    return dict(zip(names, r.stdout.split("\n")))


class Module:
    def __init__(self, text):
        self.funcs = {}
        names = set(re.findall(r"@([\w.]+)\(", text))
        self.dem = demangle(sorted(names))
        for m in re.finditer(r"^define (?P<head>[^\n]*)\{\n(?P<body>.*?)^\}", text, re.S | re.M):
            head = m.group("head")
            nm = re.search(r"@([\w.]+)\(", head)
            name = nm.group(1)
            ret = head[: nm.start()].split()[-1]
            i, depth = nm.end(), 1
            while depth:
                depth += {"(": 1, ")": -1}.get(head[i], 0)
                i += 1
            args = []
            for a in split_args(head[nm.end(): i - 1]):
                an = re.search(r"%([\w.\-]+)$", a).group(1)
                args.append((an, a.split()[0] if not a.startswith('%"') else re.match(r'%"[^"]*"\**', a).group(0),
                             "sret" in a))
            blocks, order = {}, []
            cur = None
            # a switch is written on several lines
            text_ = re.sub(r"(\n\s*switch [^\[\n]*\[)([^\]]*)\]", lambda x: x.group(1) + " ".join(x.group(2).split()) + "]",
                           m.group("body"))
            for line in text_.split("\n"):
                line = line.split(" ; ")[0].rstrip()
                if not line.strip() or line.strip().startswith(";"):
                    continue
                lm = re.match(r"^([\w.\-]+):", line)
                if lm:
                    cur = lm.group(1)
                    blocks[cur] = []
                    order.append(cur)
                    continue
                if cur is None:
                    cur = "entry"
                    blocks[cur] = []
                    order.append(cur)
                im = INST.match(line)
                if im is None:
                    raise Unsup(line)
                blocks[cur].append({"dst": im.group("dst"), "op": im.group("op"),
                                    "rest": strip_meta(im.group("rest")), "text": line.strip()})
            self.funcs[name] = Func(name, ret, args, blocks, order)

    def short(self, mangled):
        """The function's own name without namespaces, templates and parameters."""
        d = self.dem.get(mangled, mangled)
        d = re.sub(r" const$", "", d)
        depth, out = 0, ""
        i = 0
        if d.endswith(")"):
            depth = 0
            for i in range(len(d) - 1, -1, -1):
                depth += {")": 1, "(": -1}.get(d[i], 0)
                if depth == 0:
                    break
            d = d[:i]
        # drop template arguments
        out, depth = "", 0
        for ch in d:
            if ch == "<":
                depth += 1
            elif ch == ">":
                depth -= 1
            elif depth == 0:
                out += ch
        return out.split("::")[-1].split()[-1]


def to_bool(v):
    return v if z3.is_bool(v) else v != 0


class Exec:
    """unroll: visits of one header after its first; total: back edges per run."""

    def __init__(self, module, unroll=3, total=6, fns=None, nested_default=None):
        self.M, self.unroll, self.total = module, unroll, total
        self.fns = fns or {}

    def run(self, path, fname, args):
        """args: name -> value (LV/SV/int).  -> (return value, [(header, memory snapshot)])"""
        f = self.M.funcs[fname]
        self.path = path
        heads = f.loops()
        env, mem = {}, {}
        sret = None
        for n, t, is_sret in f.args:
            if is_sret:
                sret = env[n] = mem[n] = Loc(n, None)
            elif n in args:
                v = args[n]
                if "vector" in t:
                    env[n] = mem[n] = Loc(n, v)
                else:
                    env[n] = v
            else:
                raise Unsup("argument " + n)
        visits, back, log, times, last = {}, 0, [], {}, {}
        self.again = []  # (header, memory at a visit, memory at the next visit of the same run of the loop)
        b, prev = f.order[0], None
        while True:
            times[b] = times.get(b, 0) + 1
            if times[b] > self.total + 2:  # only cycles without a header get here
                raise PathAbort()
            if b in heads:
                fresh_entry = prev is None or prev not in heads[b][0]
                visits[b] = 0 if fresh_entry else visits[b] + 1
                if not fresh_entry:
                    back += 1
                if visits[b] > self.unroll or back > self.total:
                    raise PathAbort()
                log.append((b, {n: l.v for n, l in mem.items()}))
                if not fresh_entry:
                    self.again.append((b, last[b], log[-1][1]))
                last[b] = log[-1][1]
            for i in f.blocks[b]:
                r = self.inst(i, env, mem, prev)
                if r is not None:
                    if r[0] == "ret":
                        v = r[1]
                        if v is None and sret is not None:
                            v = sret.v
                        if v is None:
                            raise PathAbort()
                        return v, log
                    prev, b = b, r[1]
                    break

    def operand(self, s, env):
        s = s.strip()
        s = s.split()[-1]
        if s.startswith("%"):
            return env[s[1:]]
        if s == "true":
            return z3.BoolVal(True)
        if s == "false":
            return z3.BoolVal(False)
        if s in ("undef", "null", "poison"):
            return None
        if re.match(r"^-?\d+$", s):
            return z3.IntVal(int(s))
        raise Unsup("operand " + s)

    def need(self, v):
        if v is None:
            raise PathAbort()  # use of an uninitialised value: undefined behaviour
        return v

    def load(self, p):
        if isinstance(p, Loc):
            return p.v
        if isinstance(p, Elem):
            l = self.load(p.base)
            self.path.assume(sv.And(p.i >= 0, p.i < sv.llen(l)))
            from irsem import elem_default
            return sv.lget(l, p.i, elem_default(l))
        raise Unsup("load")

    def store(self, p, v):
        if isinstance(p, Loc):
            p.v = v
        elif isinstance(p, Elem):
            l = self.load(p.base)
            self.path.assume(sv.And(p.i >= 0, p.i < sv.llen(l)))
            self.store(p.base, sv.lset(l, p.i, v))
        else:
            raise Unsup("store")

    def inst(self, i, env, mem, prev):
        op, rest, dst = i["op"], i["rest"], i["dst"]
        if op == "alloca":
            env[dst] = mem[dst] = Loc(dst, None)
            return
        if op == "load":
            p = self.operand(split_args(rest)[1], env)
            if isinstance(p, (Loc, Elem)):
                # a cell holding an uninitialised value reads as None
                env[dst] = self.load(p)
            else:
                raise Unsup("load")
            return
        if op == "store":
            a, p = split_args(rest)
            self.store(self.operand(p, env), self.operand(a, env))
            return
        if op in ("add", "sub", "mul", "sdiv", "srem", "and", "or", "xor", "shl", "udiv", "urem"):
            a, b = split_args(re.sub(r"\b(nsw|nuw|exact)\b", "", rest))
            a, b = self.need(self.operand(a, env)), self.need(self.operand(b, env))
            if op == "add":
                r = a + b
            elif op == "sub":
                r = a - b
            elif op == "mul":
                r = a * b
            elif op == "sdiv":
                self.path.assume(b != 0)
                r = sv.trunc_div(a, b)
            elif op == "srem":
                self.path.assume(b != 0)
                r = sv.trunc_rem(a, b)
            elif op == "xor" and (z3.is_bool(a) or z3.is_bool(b)):
                r = z3.Xor(to_bool(a), to_bool(b))
            else:
                raise Unsup(op)
            env[dst] = r
            return
        if op == "icmp":
            cond, r = rest.strip().split(" ", 1)
            a, b = split_args(r)
            a, b = self.need(self.operand(a, env)), self.need(self.operand(b, env))
            if z3.is_bool(a) != z3.is_bool(b):
                a, b = [z3.If(x, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(x) else x for x in (a, b)]
            if cond == "eq":
                env[dst] = sv.eq(a, b)
            elif cond == "ne":
                env[dst] = sv.Not(sv.eq(a, b))
            elif cond[0] == "s":
                env[dst] = {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[cond[1:]]
            else:
                s = {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[cond[1:]]
                # a negative number is above every non-negative one
                big = (b < 0) if cond[1] == "l" else (a < 0)
                env[dst] = z3.If((a < 0) == (b < 0), s, big)
            return
        if op in ("sext", "trunc", "bitcast", "zext"):
            m = re.match(r"^\s*(.*) to (.*)$", rest)
            v = self.operand(m.group(1), env)
            if op == "trunc" and m.group(2).strip() == "i1" and v is not None:
                v = v if z3.is_bool(v) else v % 2 != 0
            elif op == "trunc" and m.group(2).strip() in ("i8", "i16"):
                # as everywhere: no value is too large for its type
                if v is None or z3.is_bool(v):
                    raise Unsup("trunc")
                n = 7 if m.group(2).strip() == "i8" else 15
                self.path.assume(sv.And(v >= -2 ** n, v < 2 ** n))
            if op in ("zext", "sext") and v is not None and z3.is_bool(v):
                v = z3.If(v, z3.IntVal(1 if op == "zext" else -1), z3.IntVal(0))
            elif op == "zext" and v is not None:
                self.path.assume(v >= 0)
            env[dst] = v
            return
        if op == "phi":
            for v, b in re.findall(r"\[ ([^,]+), %([\w.\-]+) \]", rest):
                if b == prev:
                    env[dst] = self.operand(v, env)
                    return
            raise Unsup("phi")
        if op == "select":
            c, a, b = [self.operand(x, env) for x in split_args(rest)]
            env[dst] = sv.ite(self.need(c), a, b)
            return
        if op == "br":
            labels = re.findall(r"label %([\w.\-]+)", rest)
            if len(labels) == 1:
                return ("br", labels[0])
            c = self.need(self.operand(split_args(rest)[0], env))
            return ("br", labels[0] if self.path.branch(to_bool(c)) else labels[1])
        if op == "switch":
            m = re.match(r"^\s*\S+ (\S+), label %([\w.\-]+) \[(.*)\]?$", rest)
            v = self.need(self.operand(m.group(1), env))
            for k, l in re.findall(r"i\d+ (-?\d+), label %([\w.\-]+)", m.group(3)):
                if self.path.branch(v == int(k)):
                    return ("br", l)
            return ("br", m.group(2))
        if op == "ret":
            if rest.strip() == "void":
                return ("ret", None)
            return ("ret", self.need(self.operand(rest, env)))
        if op == "call":
            m = re.search(r"@([\w.]+)\(", rest)
            if not m:
                raise Unsup(i["text"])
            j, d = m.end(), 1
            while d:
                d += {"(": 1, ")": -1}.get(rest[j], 0)
                j += 1
            args = [self.operand(a, env) for a in split_args(rest[m.end(): j - 1])]
            v = self.call(m.group(1), args)
            if dst is not None:
                env[dst] = v
            return
        raise Unsup(op)

    def call(self, mangled, xs):
        n = self.M.short(mangled)
        if mangled.startswith("llvm.") or n.startswith("~"):
            return None
        if n in self.fns:
            return self.fns[n](*[self.need(x) for x in xs])
        if n == "newList":
            return sv.LV.of([])
        if n == "listLength":
            return sv.llen(self.need(xs[0]))
        if n == "listGet":
            l, i = self.need(xs[0]), self.need(xs[1])
            self.path.assume(sv.And(i >= 0, i < sv.llen(l)))
            return sv.lget(l, i, z3.IntVal(0))
        if n == "listAppend":
            return sv.lappend(self.need(xs[0]), self.need(xs[1]))
        if n == "set_create":
            return sv.sempty()
        if n == "set_add":
            return sv.sinsert(xs[1], self.need(xs[0]))
        if n == "set_remove":
            return sv.sminus(self.need(xs[0]), sv.sinsert(xs[1], sv.sempty()))
        if n == "set_contains":
            return z3.If(sv.smember(xs[1], self.need(xs[0])), z3.IntVal(1), z3.IntVal(0))
        if n == "MakeTuple":
            return sv.TV([self.need(x) for x in xs])
        if n == "tupleGet":
            i = sv.as_const(xs[1])
            return self.need(xs[0]).items[i]
        if n == "vector" and len(xs) == 1:
            xs[0].v = sv.LV.of([])
            return None
        if n == "size":
            return sv.llen(self.need(self.load(xs[0])))
        if n == "push_back":
            v = self.load(xs[1])
            self.store(xs[0], sv.lappend(self.need(self.load(xs[0])), self.need(v)))
            return None
        if n == "operator[]":
            e = Elem(xs[0], self.need(xs[1]))
            l = self.need(self.load(xs[0]))
            self.path.assume(sv.And(e.i >= 0, e.i < sv.llen(l)))
            return e
        raise Unsup("call " + n)
