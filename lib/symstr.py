"""Symbolic strings for the real code's names.

The modules under test are compiled from their current source with every f-string
turned into a call that joins symbolic parts; a symbolic string is a `str` whose
comparisons fork on the solver, so dictionaries and sets keyed by names behave as
they do for every possible name."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import sys

import z3

import symx

_n = [0]


class SymStr(str):
    def __new__(cls, z):
        _n[0] += 1
        s = str.__new__(cls, f"\u2039{_n[0]}\u203a")
        s.z = z3.simplify(z)
        return s

    def __hash__(self):
        return 7

    def _eq(self, o):
        if isinstance(o, SymStr):
            return z3.simplify(self.z == o.z)
        return z3.simplify(self.z == z3.StringVal(o))

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return symx.cur().branch(self._eq(o))

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return symx.cur().branch(zs(self) < zs(o))

    def __gt__(self, o):
        return symx.cur().branch(zs(o) < zs(self))

    def __le__(self, o):
        return not self > o

    def __ge__(self, o):
        return not self < o

    def __add__(self, o):
        return SymStr(z3.Concat(self.z, zs(o)))

    def __radd__(self, o):
        return SymStr(z3.Concat(zs(o), self.z))

    def __str__(self):
        return self

    def __format__(self, spec):
        return self

    def __mod__(self, o):
        raise TypeError("symbolic format string")

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self

    def startswith(self, p, *a):
        return symx.cur().branch(z3.PrefixOf(zs(p), self.z))

    def endswith(self, p, *a):
        return symx.cur().branch(z3.SuffixOf(zs(p), self.z))

    def __contains__(self, p):
        return symx.cur().branch(z3.Contains(self.z, zs(p)))


def zs(x):
    return x.z if isinstance(x, SymStr) else z3.StringVal(str(x))


def join(*parts):
    parts = [p for p in parts if isinstance(p, SymStr) or p != ""]
    if not any(isinstance(p, SymStr) for p in parts):
        return "".join(parts)
    return SymStr(z3.Concat(*[zs(p) for p in parts]) if len(parts) > 1 else zs(parts[0]))


def _match(key, keys):
    """The key of `keys` equal to `key`: forks when a comparison is symbolic."""
    for k in keys:
        if k is key or (isinstance(k, str) and isinstance(key, str) and k == key):
            return k
    return None


class NameDict(dict):
    """A dict whose string keys are compared, not hashed."""

    sym = False

    def _key(self, k):
        if isinstance(k, SymStr) or (self.sym and isinstance(k, str)):
            m = _match(k, list(self.keys()))
            return k if m is None else m
        return k

    def __setitem__(self, k, v):
        if isinstance(k, SymStr):
            k = self._key(k)
            self.sym = True
        else:
            k = self._key(k)
        dict.__setitem__(self, k, v)

    def __getitem__(self, k):
        return dict.__getitem__(self, self._key(k))

    def __delitem__(self, k):
        dict.__delitem__(self, self._key(k))

    def __contains__(self, k):
        return dict.__contains__(self, self._key(k))

    def get(self, k, d=None):
        return dict.get(self, self._key(k), d)

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def pop(self, k, *d):
        return dict.pop(self, self._key(k), *d)

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v

    def copy(self):
        r = NameDict()
        for k, v in self.items():
            dict.__setitem__(r, k, v)
        r.sym = self.sym
        return r

    def __deepcopy__(self, memo):
        import copy
        r = NameDict()
        memo[id(self)] = r
        for k, v in self.items():
            dict.__setitem__(r, k if isinstance(k, str) else copy.deepcopy(k, memo), copy.deepcopy(v, memo))
        r.sym = self.sym
        return r


class NameSet(set):
    """A set whose string members are compared, not hashed."""

    def __init__(self, xs=()):
        set.__init__(self)
        for x in xs:
            self.add(x)

    def add(self, x):
        if x not in self:
            set.add(self, x)

    def __contains__(self, x):
        if isinstance(x, str):
            return _match(x, list(self)) is not None
        return set.__contains__(self, x)

    def update(self, *xs):
        for ys in xs:
            for y in ys:
                self.add(y)


def _dict(*a, **kw):
    r = NameDict()
    for x in a:
        for k, v in (x.items() if hasattr(x, "items") else x):
            r[k] = v
    for k, v in kw.items():
        r[k] = v
    return r


builtins._symstr_dict = _dict
builtins._symstr_set = NameSet
builtins._symstr_join = join
builtins._symstr_fmt = lambda v, conv, spec: v if isinstance(v, SymStr) and conv < 0 and not spec else format(
    {-1: lambda x: x, 115: str, 114: repr, 97: ascii}[conv](v), spec)


class Fmt(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        return ast.copy_location(self.call(n), n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        pairs = ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load())
        return ast.copy_location(ast.Call(ast.Name("_symstr_dict", ast.Load()), [pairs], []), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("_symstr_dict", ast.Load()), [n], []), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("_symstr_set", ast.Load()), [ast.List(n.elts, ast.Load())], []), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("_symstr_set", ast.Load()), [ast.ListComp(n.elt, n.generators)], []), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("dict", "set"):
            n.func.id = "_symstr_" + n.func.id
        return n

    def call(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Call(ast.Name("_symstr_fmt", ast.Load()),
                                      [v.value, ast.Constant(v.conversion), spec], []))
            else:
                parts.append(v)
        return ast.Call(ast.Name("_symstr_join", ast.Load()), parts, [])


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        t = Fmt().visit(ast.parse(data))
        return compile(ast.fix_missing_locations(t), path, "exec", dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        return self.source_to_code(self.get_data(self.path), self.path)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path, target=None):
        if name not in self.names:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        spec.loader = Loader(name, spec.origin)
        return spec


def install(*names):
    sys.meta_path.insert(0, Finder(set(names)))
