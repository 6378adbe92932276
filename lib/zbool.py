"""Zones as Boolean functions of the sets of clock values they are made of.

`zone(e, t, k, en)` is a formula (as in sets.py) over atoms ("in", part); the union over a collection of what depends on its
element is ("in", ("over", collection, table)), with everything that does not depend on the element taken out of it, so two
zones that are equal as sets for all values of their parts have equivalent formulas however they are written."""
from core import *
from zones import *
import sets
from sets import conj, alt, neg, implies


class NoZone(Exception):
    pass


class Env:
    """How terms are written canonically and which collections are empty."""

    def __init__(self, canon=lambda t: t, empty=lambda coll: False):
        self.canon, self.empty = canon, empty


def subst(f, x, v):
    if isinstance(f, bool):
        return f
    if f == x:
        return v
    if f[0] == "not":
        return neg(subst(f[1], x, v))
    if f[0] == "and":
        return conj(*[subst(g, x, v) for g in f[1]])
    return f


def essential(f):
    """The variables f depends on."""
    vs = sets.variables(f)
    return {x for x in vs if not sets.same(subst(f, x, True), subst(f, x, False))}


def table(f):
    """A canonical representation of f."""
    vs = sorted(essential(f), key=repr)
    for x in sets.variables(f) - set(vs):
        f = subst(f, x, False)
    return frozenset(frozenset(x for x in vs if v[x]) for v in sets.assignments(vs) if sets.value(f, v)), frozenset(vs)


def over(f, coll, el, en):
    """The union of f over the elements of a collection."""
    if en.empty(coll):
        return False
    vs = essential(f)
    for x in sets.variables(f) - vs:
        f = subst(f, x, False)
    free = sorted((x for x in vs if not uses_term(x, el)), key=repr)
    out = []
    for v in sets.assignments(free):
        g = f
        for x in free:
            g = subst(g, x, v[x])
        if g is False or not isinstance(g, bool) and sets.valid(neg(g)):
            continue
        if g is True or sets.valid(g):
            r = ("in", ("some", coll))
        else:
            r = ("in", ("over", coll, put(table(g), el, ITEM)))
        out.append(conj(r, *[x if v[x] else neg(x) for x in free]))
    return alt(*out)


def zone(e, t, k=frozenset(), en=None):
    en = en or Env()
    out = []
    for z, kz in forms(e, t, k):
        if e.contradict(kz):
            continue
        out.append(form(e, z, kz, en))
    if not out:
        raise NoZone("no value")
    if any(not sets.same(out[0], x) for x in out):
        raise NoZone("its value depends on " + "; ".join(show(a)[:60] for a in kz - k if a[0] in ("is", "isnt")))
    return out[0]


def form(e, z, k, en):
    if z == HOLE:
        return ("in", HOLE)
    if z[0] == "inter":
        return conj(*[form(e, x, k, en) for x in z[1]])
    if z[0] == "fold":
        steps = {}
        coll = z[1]
        while coll[0] == "call" and cname(coll) == "map":
            coll, _ = strip(coll[2][0])
        el = en.canon(("elem", coll))
        cc = en.canon(coll)
        fs = [form(e, s, k, en) for s, _ in z[4]]
        i = form(e, z[3], k, en)
        if en.empty(cc):
            return i
        if len(fs) != 1:
            raise NoZone("a loop with several cases")
        h = ("in", HOLE)
        f0, f1 = subst(fs[0], h, False), subst(fs[0], h, True)
        if sets.valid(f1):
            return alt(i, over(f0, cc, el, en))
        if sets.valid(neg(f0)):
            return conj(i, neg(over(neg(f1), cc, el, en)))
        raise NoZone("a loop that neither unites nor intersects")
    if z[0] == "un" and z[1] == "Not":
        return neg(zone(e, z[2], k, en))
    if z[0] == "bin" and z[1] in ("Add", "BitOr", "Sub", "BitAnd"):
        a, b = zone(e, z[2], k, en), zone(e, z[3], k, en)
        return conj(a, b) if z[1] == "BitAnd" else conj(a, neg(b)) if z[1] == "Sub" else alt(a, b)
    if z[0] == "acc":
        b, cs = e.contribs(z)
        f = zone(e, b, k, en)
        for op, args, k2, w, fr, bb in cs:
            gs = [a for a in e.guards(fr, bb) if a[0] in ("is", "isnt") and a not in k]
            loops = [a for a in gs if a[1][0] == "call" and cname(a[1]) == "next"]
            gs = [a for a in gs if a[1][0] != "k"]
            if [a for a in gs if a not in loops] or len(loops) > 1 or leaves(e, fr, bb, inner=True):
                raise NoZone("it is built depending on " + "; ".join(show(a)[:60] for a in gs))
            g = zone(e, args[-1], k, en)
            if loops:
                it = loops[0][1][2][0]
                cc, el = en.canon(it), en.canon(e.elem(it))
                if op in ("add_assign", "bitor_assign"):
                    f = alt(f, over(g, cc, el, en))
                elif op in ("sub_assign", "bitand_assign"):
                    g = g if op == "sub_assign" else neg(g)
                    f = conj(f, neg(over(g, cc, el, en)))
                else:
                    raise NoZone(op)
            elif op in ("add_assign", "bitor_assign"):
                f = alt(f, g)
            elif op == "sub_assign":
                f = conj(f, neg(g))
            elif op == "bitand_assign":
                f = conj(f, g)
            else:
                raise NoZone(op)
        return f
    if z[0] == "call":
        nm, a = (z[1] if len(z) == 3 else cname(z)), z[2]
        nm = nm.lstrip("@").split("::")[-1]
        sub = lambda x: form(e, x, k, en) if x[0] in ("call", "inter", "fold") and len(x) < 4 else zone(e, x, k, en)
        if nm == "universe":
            return True
        if nm == "empty" and len(a) == 1:
            return False
        if nm in ("inverse", "not") and len(a) == 1:
            return neg(sub(a[0]))
        if nm in ("clone", "reduce", "expensive_reduce", "canonicalize", "to_owned") and len(a) == 1:
            return sub(a[0])
        if nm in ("union", "append", "add", "bitor") and len(a) == 2:
            return alt(sub(a[0]), sub(a[1]))
        if nm in ("intersection", "bitand") and len(a) == 2:
            return conj(sub(a[0]), sub(a[1]))
        if nm in ("subtraction", "sub", "subtract") and len(a) == 2:
            return conj(sub(a[0]), neg(sub(a[1])))
        if nm == "constrain_eq" and len(a) == 3:
            return conj(sub(a[0]), ("in", ("eqc", en.canon(a[1]), a[2])))
    return ("in", en.canon(z))
