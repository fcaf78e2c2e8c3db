"""C/C++ programs for the LLVM frontend: control skeletons and hand-written ones."""
import pygen


def params(src, name):
    i = src.index(name + "(") + len(name) + 1
    j = src.index(")", i)
    out, depth, cur = [], 0, ""
    for ch in src[i:j] + ",":
        depth += {"<": 1, ">": -1}.get(ch, 0)
        if ch == "," and depth == 0:
            if cur.strip():
                t, n = cur.strip().rsplit(" ", 1)
                while n[0] in "*&":
                    t, n = t + n[0], n[1:]
                out.append((n, t.replace(" ", "")))
            cur = ""
        else:
            cur += ch
    return out


EXPRS = ["x + {k}", "a - y", "2 * a + {k}", "a + b", "x - b", "-a", "b + {k}", "(a - 1) * 3", "y"]
CONDS = ["x > y", "a <= {k}", "0 < x && x < 5", "x == 1 || y > a", "x > 0 && a < y", "y >= b",
         "b < a && a <= x", "x == y", "(a > 0 && b < 2) || y == 3", "a != x"]


class Filler(pygen.Filler):
    def expr(self):
        return EXPRS[next(self.e) % len(EXPRS)].format(k=next(self.k))

    def cond(self):
        return CONDS[next(self.c) % len(CONDS)].format(k=next(self.k))


def sizes(thorough):
    return ((4, 2, 2, 5), (5, 3, 2, 0), (5, 3, 2, 7)) if thorough else ((4, 2, 2, 0), (5, 3, 2, 7))


skeletons = pygen.skeletons


def render(block, f, ind, out, seed, loop):
    pad = "  " * ind
    for s in block:
        if s == "A":
            out.append(f"{pad}{f.target()} = {f.expr()};")
        elif s == "R":
            kind = next(f.r) % 3
            if loop and kind == 1:
                out.append(f"{pad}break;")
            elif loop and kind == 2 and loop == "for":
                out.append(f"{pad}continue;")
            else:
                out.append(f"{pad}return {f.expr()};")
        elif s[0] == "I":
            out.append(f"{pad}if ({f.cond()}) {{")
            render(s[1], f, ind + 1, out, seed, loop)
            if s[2] is not None:
                out.append(f"{pad}}} else {{")
                render(s[2], f, ind + 1, out, seed, loop)
            out.append(f"{pad}}}")
        elif s[0] == "W":
            k = next(f.loopn)
            i = f"i{k}"
            bound = "y" if ind == 1 else "x"
            kind = (k + seed) % 3
            if kind == 0:
                out.append(f"{pad}for (int {i} = 0; {i} < {bound}; {i} = {i} + 1) {{")
                render(s[1], f, ind + 1, out, seed, "for")
                out.append(f"{pad}}}")
                continue
            out.append(f"{pad}int {i} = 0;")
            out.append(f"{pad}while ({i} < {bound}) {{" if kind == 1 else f"{pad}do {{")
            body, tail = list(s[1]), []
            if body and body[-1] == "R":
                tail, body = body[-1:], body[:-1]
            render(body, f, ind + 1, out, seed, "while")
            out.append(f"{pad}  {i} = {i} + 1;")
            render(tail, f, ind + 1, out, seed, "while")
            out.append(f"{pad}}}" if kind == 1 else f"{pad}}} while ({i} < {bound});")


def program(name, block, seed):
    import itertools
    f = Filler(seed)
    f.r = itertools.count(seed)
    out = [f"int {name}(int x, int y) {{", f"  int a = {f.expr().replace('a', 'x').replace('b', 'y')};",
           f"  int b = {seed % 4};"]
    render(block, f, 1, out, seed, None)
    if not pygen.returns(block):
        out.append("  return a + 2 * b;" if seed % 2 else "  return a - b;")
    return "\n".join(out) + "\n}\n"


HAND = """
int h_ite1(int i) { int a; if (i > 10) a = 1; else a = 2; return a; }
---
int h_ite3(int i) { int a = 1; if (i > 10) a = 2; return a; }
---
int h_fma(int base, int arg1, int base2, int arg2) { int a = 0; a = (base + base2) + arg1 * arg2; a = a + a; return a; }
---
int h_while3(int arg) { int x = 0; int y = 1; while (y < arg) { x = x + y; y = y + 1; } return x; }
---
int h_sorted(int zz, int aa) { return zz - 2 * aa; }
---
int h_sorted_loop(int zz, int aa) { int mm = zz; while (mm > aa) { mm = mm - aa; if (mm > 3) mm = mm - 1; } return mm; }
---
int h_div(int x, int y) { if (x < 0) return 0; if (y < 1) return 0; return x / y + x % y * 2; }
---
int h_divneg(int x, int y) { return x / 2; }
---
int h_remneg(int x, int y) { return x % 3; }
---
int h_cmp(int x, int y) { int r = 0; if (x > y) r = r + 1; if (x >= y) r = r + 2; if (x < y) r = r + 4; if (x <= y) r = r + 8; if (x == y) r = r + 16; if (x != y) r = r + 32; return r; }
---
int h_break(int x, int y) { int a = 0; for (int i = 0; i < y; i = i + 1) { if (a > x) break; a = a + i + 1; } return a; }
---
int h_continue(int x, int y) { int a = 0; for (int i = 0; i < y; i = i + 1) { if (i == x) continue; a = a + i + 1; } return a; }
---
int h_early(int x, int y) { for (int i = 0; i < y; i = i + 1) { if (i > x) return i; } return 0 - 1; }
---
int h_do(int x, int y) { int a = x; do { a = a + y; y = y - 1; } while (y > 0); return a; }
---
int h_forever(int x, int y) { int i = 0; while (true) { if (i > x) return y; i = i + 1; y = y + i; } }
---
int h_two_exits(int x, int y) { int i = 0; while (i < x && i < y) { i = i + 1; } if (i == x) return i; return i + 100; }
---
int h_goto(int x, int y) { int i = 0; top: i = i + 1; if (i < x) goto top; if (i > y) goto out; i = i * 2; out: return i; }
---
//!total=5
int h_nest(int x, int y) { int s = 0; for (int i = 0; i < x; i = i + 1) { for (int j = 0; j < y; j = j + 1) { s = s + i + j; } } return s; }
---
//!total=5
int h_nest_break(int x, int y) { int s = 0; for (int i = 0; i < x; i = i + 1) { for (int j = 0; j < y; j = j + 1) { if (j > i) break; s = s + 1; } s = s + 10; } return s; }
---
//!total=5
int h_nest_ret(int x, int y) { int s = 0; for (int i = 0; i < x; i = i + 1) { for (int j = 0; j < y; j = j + 1) { if (j > i) return s; s = s + 1; } s = s + 10; } return s; }
---
//!total=5
int h_nest_cont(int x, int y) { int s = 0; int i = 0; while (i < x) { i = i + 1; int j = 0; while (j < y) { j = j + 1; if (j == i) continue; s = s + j; } if (s > 4) continue; s = s + 1; } return s; }
---
int h_seq(int x, int y) { int s = 0; int i = 0; while (i < x) { s = s + 1; i = i + 1; } i = 0; while (i < y) { s = s + 2; i = i + 1; } return s; }
---
int h_seq_if(int x, int y) { int s = 0; if (x > 1) { for (int i = 0; i < x; i = i + 1) s = s + i; } else { for (int i = 0; i < y; i = i + 1) s = s - i; } return s; }
---
int h_param(int x, int y) { while (x > y) { x = x - 1; } return x; }
---
int h_nested_if(int x, int y) { int r = 0; if (x > 0) { if (y > 0) r = 1; else r = 2; } else if (y > 5) { r = 3; } return r + x; }
---
int h_shortcircuit(int x, int y) { if ((x > 0 && y > 0) || (x < 0 && y < 0)) { if (!(x > y)) return 1; return 2; } return 3; }
---
int h_uninit(int x, int y) { int a; int b; if (x > y) { a = x; b = 1; } else { b = 2; } if (x > y) return a + b; return b; }
---
int h_negative(int x, int y) { int a = -5; if (x > -3) a = -x; return a * -2 + y; }
---
int h_latchname(int x, int y) { int s = 0; for (int i = 0; i < x; i = i + 1) { if (i > 1) goto mylatch; s = s + 1; mylatch: s = s + y; } return s; }
---
int h_latch2(int x, int y) { int s = 0; int t = 0; int i = 0; while (i < x) { i = i + 1; if (i > y) goto latchy; s = s + 1; latchy: t = t + 2; } return s + t; }
---
int h_uf(int x, int y) { return uf(x, x) + uf(y, x + 1); }
---
int h_uf_loop(int x, int y) { int s = 0; for (int i = 0; i < y; i = i + 1) s = s + uf(i, x); return s; }
---
int h_sqrt(int x, int y) { return integer_sqrt(x) + integer_exp(y); }
---
List<int> h_copy(List<int> in) { List<int> out = newList<int>(); for (int i = 0; i < listLength(in); ++i) out = listAppend(out, listGet(in, i)); return out; }
---
List<int> h_append_arg(List<int> in, int k) { return listAppend(in, k); }
---
List<int> h_append_old(List<int> in, int k) { List<int> old = in; List<int> n = listAppend(in, k); if (listLength(n) > 2) return old; return n; }
---
List<int> h_append_shadow(List<int> in, int k) { List<int> a = newList<int>(); List<int> b = listAppend(a, k); List<int> c = listAppend(a, k + 1); if (k > listLength(in)) return b; return c; }
---
int h_count(List<int> data) { int count = 0; for (int i = 0; i < listLength(data); i++) { count++; } return count; }
---
int h_abssum(List<int> lst) { int sum = 0; for (int i = 0; i < listLength(lst); ++i) { int e = listGet(lst, i); if (e < 0) { sum += -e; } else { sum += e; } } return sum; }
---
List<int> h_filter(List<int> in, int t) { List<int> out = newList<int>(); for (int i = 0; i < listLength(in); ++i) { if (listGet(in, i) > t) out = listAppend(out, listGet(in, i)); } return out; }
---
List<int> h_two(List<int> in, int t) { List<int> a = newList<int>(); List<int> b = newList<int>(); for (int i = 0; i < listLength(in); ++i) { if (listGet(in, i) > t) a = listAppend(a, listGet(in, i)); else b = listAppend(b, i); } if (listLength(a) > 1) return a; return b; }
---
List<int> h_dup(List<int> in, int t) { List<int> out = newList<int>(); int i = 0; while (i < t) { out = listAppend(out, i); i = i + 1; } out = listAppend(out, t); return out; }
---
List<int> h_pre(List<int> in, int t) { List<int> out = newList<int>(); out = listAppend(out, t); int i = 0; while (i < listLength(in)) { out = listAppend(out, listGet(in, i)); i = i + 1; if (i > 1) break; } return out; }
---
int h_first(List<int> in, int t) { for (int i = 0; i < listLength(in); ++i) { if (listGet(in, i) == t) return i; } return 0 - 1; }
---
List<int> h_pick(List<int> a, List<int> b, int t) { List<int> r = a; if (t > 0) r = b; return r; }
---
List<int> h_argorder(List<int> zz, List<int> aa, int t) { if (t > listLength(zz)) return aa; return zz; }
---
set* h_set1(set* s, int add, int value) { if (add == 1) { s = set_add(s, value); } else { s = set_remove(s, value); } return s; }
---
set* h_setnew(int a, int b) { set* s = set_create(); s = set_add(s, a); s = set_add(s, b); s = set_remove(s, a); return s; }
---
int h_setin(set* s, int v) { if (set_contains(s, v)) return 1; return 2; }
---
int h_setin2(set* s, int v) { return set_contains(s, v); }
---
set* h_setloop(set* s, int n) { for (int i = 0; i < n; i = i + 1) { s = set_add(s, i); } return s; }
---
set* h_setlocal(set* s, int n) { set* r = s; for (int i = 0; i < n; i = i + 1) { set* t = set_create(); t = set_add(t, i); r = t; } return r; }
---
int h_tup(int x, int y) { Tuple<int,int> u = MakeTuple(x, x); Tuple<int,int> v = MakeTuple(y, y + 1); return tupleGet(u, 0) + tupleGet(u, 1) + tupleGet(v, 0) * tupleGet(v, 1); }
---
int h_tup3(int x, int y) { Tuple<int,int,int> w = MakeTuple(x, x - y, y); return tupleGet(w, 2) - tupleGet(w, 1); }
---
int h_tupif(int x, int y) { Tuple<int,int> u = MakeTuple(x, y); if (x > y) u = MakeTuple(y, x); return tupleGet(u, 0) - 2 * tupleGet(u, 1); }
---
int h_tuploop(int x, int n) { Tuple<int,int> u = MakeTuple(x, 0); for (int i = 0; i < n; i = i + 1) { u = MakeTuple(tupleGet(u, 1), tupleGet(u, 0) + i); } return tupleGet(u, 0); }
---
int h_tuplocal(int x, int n) { int s = 0; for (int i = 0; i < n; i = i + 1) { Tuple<int,int> u = MakeTuple(i, s); s = s + tupleGet(u, 0) + 1; } return s; }
---
int h_tup3local(int x, int n) { int s = 0; for (int i = 0; i < n; i = i + 1) { Tuple<int,int,int> u = MakeTuple(i, s, x); s = s + tupleGet(u, 2) + 1; } return s; }
---
List<int> h_listlocal(List<int> in, int n) { List<int> r = in; for (int i = 0; i < n; i = i + 1) { List<int> t = newList<int>(); t = listAppend(t, i); r = t; } return r; }
---
Tuple<int,int> h_tupret(int x, int y) { return MakeTuple(y, x + 1); }
---
vector<int> h_vec1(vector<int> in) { vector<int> out; for (int i = 0; i < in.size(); ++i) out.push_back(in[i]); return out; }
---
int h_vec2(vector<int> in) { int i = in[0]; return i; }
---
vector<int> h_vecpush(int x, int y) { vector<int> out; out.push_back(x); out.push_back(y + 1); return out; }
---
vector<int> h_vecafter(int x, int n) { vector<int> out; for (int i = 0; i < n; ++i) { out.push_back(i); } out.push_back(x); return out; }
---
vector<int> h_vecbefore(int x, int n) { vector<int> out; out.push_back(x); for (int i = 0; i < n; ++i) { out.push_back(i); } return out; }
---
//!cap=2
vector<int> h_veccond(vector<int> in, int k) { vector<int> out; for (int i = 0; i < in.size(); ++i) { if (in[i] > k) out.push_back(in[i] + 1); else out.push_back(k); } return out; }
---
vector<int> h_vecfilter(vector<int> in, int k) { vector<int> out; for (int i = 0; i < in.size(); ++i) { if (in[i] > k) out.push_back(in[i]); } return out; }
---
int h_vecsum(vector<int> in) { int s = 0; for (int i = 0; i < in.size(); ++i) { s += in[i]; } return s; }
---
int h_vecset(vector<int> in, int k) { in[0] = k; return in[0]; }
---
int h_ref(int x, int y) { int &r = x; r = y; return x; }
---
int h_ptr(int x, int y) { int *p = &x; x = y; return *p; }
---
//!total=5
int h_matsum(vector<vector<int>> a) { int s = 0; for (int i = 0; i < a.size(); i++) { for (int j = 0; j < a[0].size(); j++) { s += a[i][j]; } } return s; }
---
vector<vector<int>> h_matbuild(vector<int> x) { vector<vector<int>> m; for (int i = 0; i < x.size(); i++) { vector<int> r; r.push_back(x[i]); m.push_back(r); } return m; }
---
int h_matget(vector<vector<int>> a, int k) { if (a.size() > 1) return a[1][0] + k; return a[0][1]; }
---
vector<int> h_matrow(vector<vector<int>> a, vector<int> x) { vector<int> out; for (int i = 0; i < a.size(); i++) { out.push_back(a[i][0] * x[0]); } return out; }
---
vector<int> h_vecret(vector<int> in, int k) { vector<int> out; if (in.size() > k) return out; out.push_back(k); return out; }
---
vector<int> h_refparam(vector<int> in, int k) { vector<int> &r = in; vector<int> out; r.push_back(k); out.push_back(in[0]); return out; }
---
int h_unknown(int x, int y) { other(x); return y; }
---
int h_unsigned(int x, vector<int> in) { int r = 0; if (x < in.size()) r = 1; return r; }
"""

# statements and expressions at the edge of the language: rejected, or given their meaning
ODD = """
int o_switch(int x, int y) {
  switch (x) { case 1: return y; case 2: y = y + 1; break; default: y = 0; }
  return y;
}
---
int o_switchfall(int x, int y) {
  switch (x) { case 1: y = 5; case 2: y = y + 1; }
  return y;
}
---
int o_tern(int x, int y) { return x > y ? x : y; }
---
int o_tern2(int x, int y) { int z = x > 0 ? (y > 0 ? 1 : 2) : 3; return z + x; }
---
int o_bitand(int x, int y) { return x & y; }
---
int o_bitor(int x, int y) { return x | y; }
---
int o_xor(int x, int y) { return x ^ y; }
---
int o_shl(int x) { return x << 2; }
---
int o_shr(int x) { return x >> 2; }
---
int o_inv(int x) { return ~x; }
---
int o_not(int x) { return !x; }
---
int o_notnot(int x) { return !!x; }
---
int o_boolval(int x, int y) { return x > y; }
---
int o_boolsum(int x, int y) { return (x > y) + (y > 3); }
---
int o_andval(int x, int y) { return x && y; }
---
int o_orval(int x, int y) { return x || y; }
---
int o_ifint(int x, int y) { if (x) return y; return 1; }
---
int o_ifnot(int x, int y) { if (!x) return y; return 1; }
---
int o_whileint(int x) { int s = 0; while (x) { x = x - 1; s = s + 1; } return s; }
---
int o_bool(int x, int y) { bool b = x > y; if (b) return 1; return y; }
---
int o_bool2(int x, int y) { bool b = x > y; b = b && y > 0; if (b) return 1; return y; }
---
bool o_retbool(int x, int y) { return x > y; }
---
bool o_retbool2(int x, int y) { return x > y && x < 10; }
---
int o_char(int x) { char c = x; return c; }
---
int o_short(int x) { short c = x; return c; }
---
int o_long(int x) { long c = x; return c + 1; }
---
int o_unsigneddiv(int x) { unsigned a = x; return a / 2; }
---
int o_float(int x) { float f = x; return f; }
---
int o_pre(int x) { int y = ++x; return y + x; }
---
int o_post(int x) { int y = x++; return y + x; }
---
int o_comma(int x, int y) { x = (y = y + 1, y * 2); return x; }
---
int o_compound(int x, int y) { x += y; x -= 2; x *= 3; return x; }
---
int o_assignval(int x, int y) { x = y = 3; return x + y; }
---
int o_forcomma(int n) { int s = 0; for (int i = 0, j = n; i < j; i++, j--) s += 1; return s; }
---
int o_docont(int n) { int i = 0; do { i++; if (i == 2) continue; } while (i < n); return i; }
---
int o_static(int x) { static int k = 0; k = k + x; return k; }
---
int glob = 3;
int o_global(int x) { return x + glob; }
---
int glob2 = 3;
int o_globset(int x) { glob2 = x; return glob2; }
---
int o_array(int x) { int a[3]; a[0] = x; a[1] = 2; return a[0]; }
---
int o_helper_h(int x) { return x + 1; }
int o_helper(int x) { return o_helper_h(x); }
---
int o_rec(int x) { if (x <= 0) return 0; return o_rec(x - 1) + 1; }
---
int o_cast(int x) { return (char)x; }
---
int o_neg(int x) { return -x; }
---
int o_big(int x) { return x + 2147483647; }
---
int o_sizet(int x) { unsigned long n = 3; return n; }
---
int o_whiletrue(int n) { int i = 0; while (true) { if (i >= n) break; i++; } return i; }
---
int o_nestedtern(int x, int y) { int r = 0; while (r < (x > y ? x : y)) r++; return r; }
---
int o_condassign(int x, int y) { int z; if ((z = x + y) > 3) return z; return 0; }
---
int o_mulneg(int x, int y) { return -x * -y; }
---
int o_cmpchain(int x, int y) { return 0 < x < y; }
---
int o_eqbool(int x, int y) { return (x > 0) == (y > 0); }
---
int o_volatile(int x) { volatile int y = x; return y; }
---
int o_const(int x) { const int y = 4; return x + y; }
---
int o_shadow(int x) { int y = 1; { int y = 2; x = x + y; } return x + y; }
---
int o_shadowloop(int x) { int s = 0; for (int i = 0; i < x; i++) { int s = i; s = s + 1; } return s; }
---
int o_switchloop(int n) { int i = 0; int s = 0; while (i < n) { switch (i) { case 0: s += 2; break; default: s += 1; } i++; } return s; }
---
int o_uninitloop(int n) { int s; int i = 0; while (i < n) { s = i; i++; } return i; }
---
int o_max3(int a, int b, int c) { int m = a; if (b > m) m = b; if (c > m) m = c; return m; }
---
int o_vecneg(vector<int> v) { return v[0] - v[1]; }
---
int o_vecsizecmp(vector<int> v, int n) { if ((int)v.size() > n) return 1; return 0; }
---
int o_vecsizem1(vector<int> v) { return v.size() - 1; }
---
vector<int> o_vecassign(vector<int> a, vector<int> b) { a = b; return a; }
"""



# ---- control-flow graphs written with goto ---------------------------------
LABELS = ["L0", "latch1", "body", "exiting2", "header3"]


def goto_graphs(n):
    """Every successor table of n blocks in which each block is reached and some block returns;
    a block returns (), goes on to one block or chooses between two."""
    import itertools
    opts = [()] + [(j,) for j in range(n)] + [c for j in range(n) for c in ((j, k) for k in range(n) if k != j)]
    for g in itertools.product(opts, repeat=n):
        seen, st = set(), [0]
        while st:
            b = st.pop()
            if b not in seen:
                seen.add(b)
                st += g[b]
        if len(seen) < n or () not in g:
            continue
        # every block can return
        ok = {b for b in range(n) if g[b] == ()}
        while True:
            more = {b for b in range(n) if b not in ok and ok & set(g[b])}
            if not more:
                break
            ok |= more
        if len(ok) == n:
            yield g


def cyclic(g):
    n = len(g)
    reach = [set(s) for s in g]
    for _ in range(n):
        reach = [r | {k for j in r for k in reach[j]} for r in reach]
    return any(b in reach[b] for b in range(n))


def goto_program(name, g, seed=0):
    """Each block changes its own variable, so that the path taken can be told from the result."""
    n = len(g)
    v = "abcde"
    out = [f"int {name}(int x, int y) {{", "  int " + ", ".join(f"{v[b]} = {b}" for b in range(n)) + ";"]
    conds = ["{0} < x", "{0} > y", "{0} + x < y", "x < y + {0}", "{0} == y"]
    for b in range(n):
        lab = LABELS[b]
        upd = [f"{v[b]} = {v[b]} + 1", f"{v[b]} = {v[b]} + {v[(b + 1) % n]} + 1", f"{v[b]} = {v[b]} + x"][(b + seed) % 3]
        line = f"  {lab}: {upd};"
        c = conds[(b + seed) % 5].format(v[b])
        if g[b] == ():
            line += " return " + " + ".join(f"{10 ** k} * {v[k]}" if k else v[k] for k in range(n)) + ";"
        elif len(g[b]) == 1:
            line += f" goto {LABELS[g[b][0]]};"
        else:
            line += f" if ({c}) goto {LABELS[g[b][0]]}; goto {LABELS[g[b][1]]};"
        out.append(line)
    return "\n".join(out) + "\n}\n"


def goto_programs(n, prefix):
    """-> [(name, text)] of the graphs with a cycle."""
    return [(f"{prefix}{i:04d}", goto_program(f"{prefix}{i:04d}", g, i))
            for i, g in enumerate(x for x in goto_graphs(n) if cyclic(x))]
