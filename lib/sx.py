"""S-expression reader shared by the SMT-LIB and Racket interpreters."""
import re

TOK = re.compile(r"""\s+|;[^\n]*|(?P<s>"(?:[^"\\]|\\.)*")|(?P<q>\|[^|]*\|)|(?P<p>[()\[\]])|(?P<quote>')|(?P<a>[^\s()\[\];'"]+)""")


class ReadError(Exception):
    pass


class Str(str):
    """A string literal."""


def read(text):
    """All top-level forms.  Brackets and parens are equivalent but must match."""
    out, stack, i = [], [], 0
    cur = out
    opens = []
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise ReadError(f"bad token at {text[i:i+30]!r}")
        i = m.end()
        if m.group("p"):
            t = m.group("p")
            if t in "([":
                new = []
                cur.append(new)
                stack.append(cur)
                opens.append(t)
                cur = new
            else:
                if not stack:
                    raise ReadError("unbalanced )")
                o = opens.pop()
                if (o, t) not in (("(", ")"), ("[", "]")):
                    raise ReadError("mismatched brackets")
                cur = stack.pop()
        elif m.group("s"):
            cur.append(Str(m.group("s")[1:-1]))
        elif m.group("q"):
            cur.append(m.group("q"))
        elif m.group("a"):
            cur.append(m.group("a"))
        elif m.group("quote"):
            cur.append("'")
    if stack:
        raise ReadError("unbalanced (")
    return out


def show(x):
    if isinstance(x, list):
        return "(" + " ".join(show(y) for y in x) + ")"
    return str(x)
