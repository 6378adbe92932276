"""Functions compared with a table: argument by argument the value they must give, written as text."""
import re

import fx
import zones
from core import *

SAME = {"clone", "to_owned", "into", "from", "as_ref", "as_str", "as_mut", "deref", "borrow", "collect", "into_iter", "iter",
        "to_vec", "into_boxed", "new_display", "boxed"}


class Tables:
    def __init__(self, c):
        self.c = c

    def adt(self, name):
        c = [a for a in self.c.p.adts if a == name or a.endswith("::" + name)]
        if len(c) != 1:
            self.c.viol("anchor", "type-" + name, "the type %s, which this property is anchored in, is gone" % name)
            raise Undecided2
        return c[0]

    def val(self, e, name, v=None, *fields):
        """A value of the crate's type: given variant, fields in declaration order."""
        if name in ("Option", "Result"):
            adt = "std::%s::%s" % (name.lower(), name)
            return e.mkagg(adt, v, tuple((str(i), x) for i, x in enumerate(fields)))
        a = self.adt(name)
        vs = [x for x in self.c.p.adts[a] if v is None or x["name"] == v]
        if len(vs) != 1:
            self.c.viol("anchor", "variant-%s-%s" % (name, v), "%s has no %s" % (name, v))
            raise Undecided2
        ns = [n for n, _ in vs[0]["fields"]]
        return e.mkagg(a, vs[0]["name"], tuple(zip(ns, fields)))


class Undecided2(Exception):
    pass


def isstr(t):
    return t[0] == "fmt" or t[0] == "k" and isinstance(t[1], str)


def render(e, t, fr=None, n=0, names=None):
    """The value as text. Copies, conversions that keep the value and boxes leave no trace; a collection made element by
    element from another reads map(source: element)."""
    r = lambda x: render(e, x, fr, n + 1, names)
    if n > 30:
        return "…"
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "arg":
        return t[1]
    if k == "k":
        return '"%s"' % t[1] if isinstance(t[1], str) else repr(t[1])
    if k == "f":
        return "%s.%s" % (r(t[1]), t[2])
    if k == "v":
        b = r(t[1])
        if t[2] in ("Some", "Ok") and t[3] == "0":
            return b + "!"
        return "%s.%s.%s" % (b, t[2], t[3])
    if k == "agg":
        nm = last(t[1]) if t[1] else ""
        fs = t[3]
        if not nm or t[1].startswith(("std::", "core::")) and nm in ("Option", "Result"):
            nm = t[2] or ""
        elif t[2] and t[2] != nm:
            nm += "::" + t[2]
        if not fs:
            return nm or "()"
        if all(a.isdigit() for a, _ in fs):
            return "%s(%s)" % (nm, ", ".join(r(v) for _, v in sorted(fs, key=lambda x: int(x[0]))))
        return "%s{%s}" % (nm, ", ".join("%s: %s" % (a, r(v)) for a, v in sorted(fs)))
    if k == "fmt":
        if len(t[1]) == 1 and not isinstance(t[1][0], str):
            return r(t[1][0][1])
        return '"%s"' % "".join(x if isinstance(x, str) else x[1][1] if x[1][0] == "k" and isinstance(x[1][1], str) else
                                "{%s}" % r(x[1]) for x in t[1])
    if k == "call":
        nm = cname(t)
        if t[1].startswith("@") and nm == "map" and len(t[2]) == 2:
            src = t[2][0]
            x = e.elem(t)
            body = render(e, x, fr, n + 1, names)
            s = r(src)
            el = "elem(%s)" % s
            return s if body == el else "map(%s: %s)" % (s, body.replace(el, "each"))
        if nm in SAME and len(t[2]) == 1:
            return r(t[2][0])
        if nm in ("to_string", "to_owned") and len(t[2]) == 1 and (t[1].startswith(("std::", "alloc::")) or isstr(t[2][0])):
            return r(t[2][0])
        return "%s(%s)" % (nm, ", ".join(r(x) for x in t[2]))
    if k == "elem":
        return "elem(%s)" % r(t[1])
    if k == "array":
        return "[%s]" % ", ".join(r(x) for x in t[1])
    if k == "bin":
        a, b = r(t[2]), r(t[3])
        if t[1] in ("Eq", "Ne", "BitAnd", "BitOr", "Add", "Mul"):
            a, b = sorted((a, b))
        return "(%s %s %s)" % (a, t[1], b)
    if k == "un":
        return "%s(%s)" % (t[1], r(t[2]))
    if k == "upd":
        return "%s{%s:=%s}" % (r(t[1]), t[2], r(t[3]))
    if k == "acc":
        m = mapped(e, t, fr, names)
        if m:
            return m
    if k == "idx":
        return "%s[%s]" % (r(t[1]), r(t[2]))
    return show(t)


def mapped(e, t, fr, names):
    """A list built in a loop: one push for each element of its source."""
    b, cs = e.contribs(t)
    if len(cs) != 1 or not (b[0] == "call" and cname(b) in ("new", "with_capacity", "default") or b == ("array", ())):
        return None
    op, args, k, w, f2, bb = cs[0]
    if op in ("extend", "append", "extend_from_slice"):
        return render(e, args[-1], fr, 1, names)
    if op not in ("push", "push_back", "insert") or f2 is None:
        return None
    x = args[-1] if op != "insert" or len(args) == 1 else ("agg", "()", None, (("0", args[0]), ("1", args[1])))
    els = [s for s in fx.subterms(x) if s[:1] == ("elem",)]
    srcs = {s[1] for s in els}
    if len(srcs) != 1:
        return None
    src = srcs.pop()
    bad = [a for a in e.guards(f2, bb) if a[0] != "did" and not mentions_coll(a, src) and not (
        a[0] in ("is", "isnt") and a[1][0] in ("agg", "k"))]
    if bad or leaves(e, f2, bb):
        return None
    s = render(e, src, fr, 1, names)
    body = render(e, x, fr, 1, names)
    el = "elem(%s)" % s
    return s if body == el else "map(%s: %s)" % (s, body.replace(el, "each"))


def answers(e, f):
    """[(text of the result, K)] without the ways that panic."""
    out = []
    for t, k in e.returns(f):
        for x, kk, _ in deep(e, t, k):
            if x[0] in ("never", "failed"):
                continue
            kk = e.close(kk)
            if not e.contradict(kk):
                out.append((x, kk))
    return out


def eta(e, t, k):
    """A value taken apart and put together again is the value."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "agg":
        fs = tuple((a, eta(e, x, k)) for a, x in t[3])
        if t[2]:
            for a in sorted(k, key=repr):
                if a[0] == "is" and a[2] == t[2] and a[1][0] != "agg" and all(
                        x == ("v", a[1], t[2], nm) or x[0] == "agg" and not x[3] and x[2] is None or x[0] == "k" and x[1] in ((), None)
                        for nm, x in fs) and same_type(t, a[1], fs):
                    return a[1]
        return (t[0], t[1], t[2], fs)
    return t


def same_type(t, x, fs):
    """Variant names alone do not tell the type: some part of x must be in t, or nothing can be but its name."""
    return last(t[1] or "") in ("Result", "Option") or any(f[0] == "v" for _, f in fs)


def plainly(s):
    return re.sub(r"\bTrue\b", "1", re.sub(r"\bFalse\b", "0", s))


def table(c, fid, rows, opaque=(), key=None, stub=None):
    """rows: [(case, arguments or None, expected text or predicate(engine, term, K), or None: no answer)]"""
    T = Tables(c)
    n = 0
    for case, mk, want in rows:
        e0 = fx.Engine(c.p, list(opaque))
        try:
            args = mk(lambda name, v=None, *fs: T.val(e0, name, v, *fs)) if mk else None
        except Undecided2:
            continue
        e, f = c.entry(fid, list(opaque), args, stub=stub)
        if f is None:
            return n
        k = "%s-%s" % (key or last(fid), case)
        got = answers(e, f)
        if want is None:
            c.oblige(not got, k, "", "%s gives an answer for %s: %s" % (short(fid), case, [render(e, x, f) for x, _ in got][:2]))
            n += 1
            continue
        if not c.oblige(got, k, "", "%s gives no answer for %s" % (short(fid), case)):
            continue
        n += 1
        for x, kk in got:
            txt = render(e, x, f)
            if callable(want):
                c.oblige(want(e, x, kk, f), k, "", "%s: %s gives %s" % (short(fid), case, txt[:200]))
            else:
                ws = [want] if isinstance(want, str) else want
                c.oblige(plainly(txt) in map(plainly, ws) or plainly(render(e, eta(e, x, kk), f)) in map(plainly, ws), k, "", "%s: %s gives %s, not %s" % (short(fid), case, txt[:200], ws[0][:200]))
    return n


def short(fid):
    m = re.search(r"From<([\w:<>(), ]+)> for ([\w:]+)>::from", fid)
    return "the conversion of %s to %s" % (last(m.group(1)), last(m.group(2))) if m else last(fid)


def conv(c, src, dst):
    """The function From<src> for dst, types given by their last part (or more of the path)."""
    out = []
    for b in c.p.bodies:
        m = re.match(r"^(?:[\w:]*::)?<(?:impl )?(?:std::convert::From<(.*)> for (.*)|(.*) as std::convert::From<(.*)>)>::from$", b)
        if m:
            s, d = (m.group(1), m.group(2)) if m.group(1) else (m.group(4), m.group(3))
            if (s == src or s.endswith("::" + src)) and (d == dst or d.endswith("::" + dst)):
                out.append(b)
    if len(out) != 1:
        for b in c.p.tainted:
            if src in b and dst in b:
                raise Undecided("%s does not type-check" % b)
        c.viol("anchor", "conv-%s-%s" % (src, dst), "there is no conversion of %s to %s" % (src, dst))
        return None
    return out[0]


def unmap(e, t, ok=lambda a: False):
    """(source, element) of a list made element by element of another, or None."""
    if t[0] == "call":
        if cname(t) in ("collect", "into_iter", "iter", "to_vec") and len(t[2]) == 1:
            return unmap(e, t[2][0], ok)
        if cname(t) == "map" and t[1].startswith("@") and len(t[2]) == 2:
            return zones.strip(t[2][0]), e.elem(t)
    if t[0] == "acc":
        b, cs = e.contribs(t)
        if len(cs) == 1 and cs[0][0] in ("push",) and cs[0][4] is not None and not leaves(e, cs[0][4], cs[0][5]):
            x = cs[0][1][-1]
            srcs = {s[1] for s in fx.subterms(x) if s[:1] == ("elem",) and len(s) == 2} or set(zones.loop_coll(e.guards(cs[0][4], cs[0][5])))
            out = [s for s in srcs if not any(s != o and s in set(fx.subterms(o)) for o in srcs)]
            if len(out) == 1 and not [a for a in e.guards(cs[0][4], cs[0][5]) if a[0] != "did" and not mentions_coll(a, out[0])
                                      and a[1][0] not in ("agg", "k") and not ok(a)]:
                return zones.strip(out[0]), x
        if len(cs) == 1 and cs[0][0] in ("extend", "append"):
            return unmap(e, cs[0][1][-1], ok)
    return None
