"""The pest grammars and the tables of the parsers built on them."""
import re
from core import *

TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|("(?:\\.|[^"\\])*")|(\'(?:\\.|[^\'\\])*\'(?:\s*\.\.\s*\'(?:\\.|[^\'\\])*\')?)'
                 r'|([A-Za-z_][A-Za-z0-9_]*)|(\.\.|[={}()|~?*+!&@$_])', re.S)


class Bad(Exception):
    pass


def tokens(s):
    i, out = 0, []
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise Bad("unreadable grammar at %r" % s[i:i + 20])
        i = m.end()
        if m.group(1):
            out.append(("s", m.group(1)[1:-1].encode().decode("unicode_escape")))
        elif m.group(2):
            out.append(("c", m.group(2)))
        elif m.group(3):
            out.append(("id", m.group(3)))
        elif m.group(4):
            out.append(("p", m.group(4)))
    return out


def parse(text):
    """{rule: (modifier, expression)}; expressions are ("lit", s), ("ref", r), ("seq", ...), ("alt", ...),
    ("opt"|"rep"|"not", e)."""
    ts = tokens(text)
    i = 0
    rules = {}

    def peek():
        return ts[i] if i < len(ts) else (None, None)

    def eat(v):
        nonlocal i
        if peek() != ("p", v):
            raise Bad("expected %s, found %r" % (v, peek()))
        i += 1

    def alt():
        nonlocal i
        xs = [seq()]
        while peek() == ("p", "|"):
            i += 1
            xs.append(seq())
        return xs[0] if len(xs) == 1 else ("alt",) + tuple(xs)

    def seq():
        nonlocal i
        xs = [post()]
        while peek() == ("p", "~"):
            i += 1
            xs.append(post())
        return xs[0] if len(xs) == 1 else ("seq",) + tuple(xs)

    def post():
        nonlocal i
        k, v = peek()
        if (k, v) in (("p", "!"), ("p", "&")):
            i += 1
            return ("not" if v == "!" else "and", post())
        if (k, v) == ("p", "("):
            i += 1
            x = alt()
            eat(")")
        elif k == "s":
            i += 1
            x = ("lit", v)
        elif k == "c":
            i += 1
            x = ("range", v)
        elif k == "id":
            i += 1
            x = ("ref", v)
        else:
            raise Bad("unexpected %r" % (v,))
        while peek()[0] == "p" and peek()[1] in "?*+":
            x = ({"?": "opt", "*": "rep", "+": "rep1"}[peek()[1]], x)
            i += 1
        return x
    while i < len(ts):
        k, name = peek()
        if k == "p" and name == "_":
            raise Bad("rule without a name")
        i += 1
        eat("=")
        mod = ""
        if peek() == ("id", "_"):
            mod = "_"
            i += 1
        elif peek()[0] == "p" and peek()[1] in "@$!_":
            mod = peek()[1]
            i += 1
        eat("{")
        rules[name] = (mod, alt())
        eat("}")
    return rules


def load(c, path):
    import os
    import facts
    fn = os.path.join(getattr(c, "repo", None) or facts.REPO, path)
    try:
        with open(fn) as f:
            return parse(f.read())
    except OSError:
        c.viol("anchor", path, "the grammar %s, which this property is anchored in, is gone" % path)
    except Bad as x:
        raise Undecided("%s: %s" % (path, x))
    return None


def literals(g, r):
    """The literal texts of a rule that is only a choice of them, or None."""
    e = g[r][1] if r in g else None
    if e is None:
        return None
    es = e[1:] if e[0] == "alt" else (e,)
    return [x[1] for x in es] if all(x[0] == "lit" for x in es) else None


def choice(g, r):
    """The alternatives of a silent rule, looked through."""
    e = g[r][1]
    out = []
    for x in (e[1:] if e[0] == "alt" else (e,)):
        if x[0] == "ref" and x[1] in g and g[x[1]][0] == "_":
            out += choice(g, x[1])
        else:
            out.append(x)
    return out


def pratt(c, module):
    """{rule: (level, assoc)} of the operator precedence parser of a module."""
    fid = "<%s::PRATT as std::ops::Deref>::deref::__static_ref_initialize" % module
    e, f = c.entry(fid)
    if f is None:
        return None
    out = {}

    def infix(t):
        if t[0] == "call" and cname(t) == "bitor":
            return infix(t[2][0]) + infix(t[2][1])
        if t[0] == "call" and cname(t) == "infix" and len(t[2]) == 2 and all(x[0] == "agg" for x in t[2]):
            return [(t[2][0][2], t[2][1][2])]
        raise Undecided("operator table of %s not understood" % module)
    rs = e.returns(f)
    if len(rs) != 1:
        raise Undecided("operator table of %s not understood" % module)
    t = rs[0][0]
    lv = []
    while t[0] == "call" and cname(t) == "op" and len(t[2]) == 2:
        lv.append(infix(t[2][1]))
        t = t[2][0]
    if not (t[0] == "call" and cname(t) == "new"):
        raise Undecided("operator table of %s not understood" % module)
    for i, ops in enumerate(reversed(lv)):
        for r, a in ops:
            out[r] = (i, a)
    return out


def table(e, f, which):
    """[(rules the case is for, term, K)] of the closure passed to map_primary / map_infix, None without."""
    out = None
    for x in e.events(f):
        if last(x.name) != which:
            continue
        n = 1 if which == "map_primary" else 3
        ps = [("arg", p) for p in (("$P",) if n == 1 else ("$L", "$O", "$R"))]
        t = e.apply(x.args[1], ps, x.term[3] if len(x.term) > 3 and isinstance(x.term[3], str) else "")
        out = out or []
        for t2, k in expand(e, t):
            rules = {a[2] for a in k if a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "as_rule" and
                     a[1][2] == (ps[0 if n == 1 else 1],)}
            out.append((rules, t2, k))
    return out
