"""Set-valued terms as Boolean functions of membership in the sets they are made of.

`member(e, t, x)` says when the generic element x is in the set t: [(K, formula)], one entry per case of the conditions
K that do not depend on x. Formulas: True, False, ("in", base set), ("eq", term), ("not", f), ("and", fs), ("or", fs),
("cond", atom). `holds(f, v)` evaluates one under an assignment of its variables; `empties(e, K)` are the formulas known
to hold of no element, `fulls` of some element, and `about(e, K, x)` what the conditions K say about the element x."""
from core import *

KEEP = {"collect", "cloned", "iter", "into_iter", "copied", "to_owned", "clone", "from_iter", "as_ref", "by_ref", "drain", "rev",
        "keys", "to_vec", "peekable", "from"}
ORS = {"union", "bitor", "chain"}
ANDS = {"intersection", "bitand"}
DIFF = {"difference", "sub"}
XOR = {"symmetric_difference", "bitxor"}
HASHOPS = ("collections::HashSet", "hash::set::HashSet", "BTreeSet", "hash_set")


def neg(f):
    return (not f) if isinstance(f, bool) else f[1] if f[0] == "not" else ("not", f)


def conj(*fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is not True and f not in out:
            out.append(f)
    return True if not out else out[0] if len(out) == 1 else ("and", tuple(out))


def alt(*fs):
    return neg(conj(*[neg(f) for f in fs]))


def variables(f, out=None):
    out = set() if out is None else out
    if isinstance(f, bool):
        return out
    if f[0] in ("in", "eq", "cond"):
        out.add(f)
    elif f[0] == "not":
        variables(f[1], out)
    else:
        for g in f[1]:
            variables(g, out)
    return out


def value(f, v):
    if isinstance(f, bool):
        return f
    if f[0] in ("in", "eq", "cond"):
        return v[f]
    if f[0] == "not":
        return not value(f[1], v)
    return all(value(g, v) for g in f[1])


def assignments(vs):
    vs = sorted(vs, key=repr)
    for n in range(1 << len(vs)):
        yield {x: bool(n >> i & 1) for i, x in enumerate(vs)}


def valid(f):
    """f holds whatever its variables are."""
    vs = variables(f)
    return len(vs) <= 12 and all(value(f, v) for v in assignments(vs))


def implies(f, g):
    return valid(alt(neg(f), g))


def same(f, g):
    return implies(f, g) and implies(g, f)


class NoSet(Exception):
    pass


X = ("arg", "$x")


def lit(e, a, x, n=0):
    """Formula of one condition about x."""
    if a[0] == "did" or a[0] == "forall":
        return True
    if a[0] == "is" and a[1][0] == "un" and a[1][1] == "Not" and isinstance(a[2], bool):
        return lit(e, ("is", a[1][2], not a[2]), x, n)
    if a[0] in ("is", "isnt") and a[1][0] == "call":
        c, nm = a[1], cname(a[1])
        pos = a[2] if a[0] == "is" else None
        if nm in ("contains", "contains_key") and len(c[2]) == 2 and c[2][1] == x and isinstance(pos, bool):
            f = one(e, c[2][0], n + 1)
            return f if pos else neg(f)
        if nm == "next":
            return True
        if nm in ("get", "take", "remove", "position", "find") and len(c[2]) == 2 and c[2][1] == x and (
                pos in ("Some", "None") or a[0] == "isnt"):
            f = one(e, c[2][0], n + 1)
            return f if (pos == "Some" or a[0] == "isnt" and a[2] == "None") else neg(f)
        if nm in ("any", "all") and len(c[2]) == 2 and isinstance(pos, bool):
            f = quant(e, c, x, nm, n)
            if f is not None:
                return f if pos else neg(f)
    if a[0] == "is" and a[1][0] == "bin" and a[1][1] == "Eq" and isinstance(a[2], bool) and x in a[1][2:]:
        o = [y for y in a[1][2:] if y != x]
        if len(o) == 1:
            if o[0][0] == "elem" and False:
                return True
            return ("eq", o[0]) if a[2] else neg(("eq", o[0]))
    return ("cond", a)


def quant(e, c, x, nm, n):
    """any(S, y == x): x is in S."""
    el = e.elem(c[2][0])
    b = e.apply(c[2][1], [el], c[3])
    ks = truth_cases(e, b, nm == "any", frozenset())
    fs = [[a for a in k if a[0] != "did"] for k in ks]
    if len(fs) == 1 and len(fs[0]) == 1:
        a = fs[0][0]
        if a[0] == "is" and a[1][0] == "bin" and a[1][1] == "Eq" and a[2] is True and {el, x} == set(a[1][2:]):
            return one(e, c[2][0], n + 1) if nm == "any" else neg(one(e, c[2][0], n + 1))
    return None


def truth(e, t, x, n=0):
    """Formula of a Boolean term about x."""
    return alt(*[conj(*[lit(e, a, x, n) for a in k]) for k in truth_cases(e, t, True)])


def cnst(e, fr):
    """Conditions that hold wherever frame fr returns: they say nothing about one element."""
    return fr.retK() or frozenset()


def of_elem(e, el, k, n):
    """Formula of the generic element being el, an element taken from some collections, under k."""
    src = True
    y = el
    if el[0] == "elem":
        src = one(e, el[1], n + 1)
    else:
        m = strip_elem(el)
        if m is None:
            src = ("eq", el)
            return conj(src, *[lit(e, a, el, n) for a in k if mentions_term(a, el)])
        raise NoSet(show(el))
    fs = []
    for a in k:
        if a[0] in ("did", "forall") or a[1] == el:
            continue
        if a[1][0] == "call" and cname(a[1]) == "next":
            continue
        fs.append(lit(e, a, el, n))
    return conj(src, *fs)


def strip_elem(t):
    for s in fx.subterms(t):
        if len(s) > 1 and s[0] == "elem":
            return s
    return None


def mentions_term(a, t):
    return isinstance(a[1], tuple) and any(s == t for s in fx.subterms(a[1]))


def one(e, t, n=0):
    cs = member(e, t, n)
    if len(cs) != 1:
        fs = []
        for k, f in cs:
            fs.append(conj(f, *[("cond", a) for a in k if a[0] not in ("did", "forall")]))
        return alt(*fs)
    return cs[0][1]


def member(e, t, n=0):
    if n > 14:
        raise NoSet("too deep")
    out = []
    for a, k in expand(e, t):
        kk = frozenset(x for x in k if x[0] not in ("did", "forall"))
        for f in simple(e, a, n):
            out.append((kk, f))
    fs = {f for _, f in out}
    if len(fs) == 1:
        return [(frozenset(), out[0][1])]
    return out


def simple(e, t, n):
    if t[0] == "acc":
        b, cs = e.contribs(t)
        f = one(e, b, n + 1)
        lastly = None
        for op, args, k, w, fr, bb in cs:
            gs = [frozenset(x for x in g if x[0] not in ("did", "forall")) for g in e.gcases(fr, bb)]
            if op in ("insert", "push", "push_back", "replace", "get_or_insert", "entry"):
                f = alt(f, *[of_elem(e, args[0], g, n) for g in gs])
            elif op in ("extend", "append", "extend_from_slice", "union_with"):
                f = alt(f, *[conj(one(e, args[0], n + 1), *[("cond", x) for x in g]) for g in gs])
            elif op == "retain":
                cl = args[0]
                f = conj(f, truth(e, e.apply(cl, [X], fr.site(bb)), X, n))
            elif op in ("remove", "take", "swap_remove"):
                f = conj(f, *[neg(of_elem(e, args[0], g, n)) for g in gs])
            else:
                raise NoSet(op)
        return [f]
    if t[0] == "call":
        nm = cname(t)
        a = t[2]
        if nm in ("new", "with_capacity", "default") and not any(x[0] == "arg" for x in a):
            return [False]
        if nm in KEEP and len(a) == 1:
            return [one(e, a[0], n + 1)]
        if nm in ORS and len(a) == 2:
            return [alt(one(e, a[0], n + 1), one(e, a[1], n + 1))]
        if nm in ANDS and len(a) == 2:
            return [conj(one(e, a[0], n + 1), one(e, a[1], n + 1))]
        if nm in DIFF and len(a) == 2:
            return [conj(one(e, a[0], n + 1), neg(one(e, a[1], n + 1)))]
        if nm in XOR and len(a) == 2:
            p, q = one(e, a[0], n + 1), one(e, a[1], n + 1)
            return [alt(conj(p, neg(q)), conj(q, neg(p)))]
        if nm == "filter" and len(a) == 2:
            b = e.apply(a[1], [X], t[3])
            return [conj(one(e, a[0], n + 1), truth(e, b, X, n))]
        if nm == "map" and len(a) == 2:
            if e.apply(a[1], [X], t[3]) == X:
                return [one(e, a[0], n + 1)]
            raise NoSet("map")
        if nm == "filter_map" and len(a) == 2:
            b = e.apply(a[1], [X], t[3])
            fs = []
            for y, k in expand(e, b):
                if y[0] == "agg" and y[2] == "Some" and y[3][0][1] == X:
                    fs.append(conj(*[lit(e, z, X, n) for z in k]))
                elif not (y[0] == "agg" and y[2] == "None"):
                    raise NoSet("filter_map")
            return [conj(one(e, a[0], n + 1), alt(*fs))]
        if nm == "flat_map" and len(a) == 2:
            raise NoSet("flat_map")
        return [("in", (nm,) + tuple(a))]
    els = e.arr_elems(t)
    if els is not None:
        return [alt(*[of_elem(e, x, (), n) for x in els])]
    return [("in", t)]


def empties(e, K):
    """Formulas no element satisfies, and formulas some element satisfies, by the conditions K."""
    no, yes = [], []
    for a in K:
        if a[0] == "forall":
            x = a[2]
            if x[0] in ("is", "isnt"):
                el = e.elem(a[1])
                f = lit(e, x, el)
                if not any(v[0] == "cond" for v in variables(f)):
                    no.append(conj(one(e, a[1]), neg(f)))
            continue
        if a[0] not in ("is", "isnt") or a[1][0] not in ("call", "bin"):
            continue
        c, pos = a[1], a[2] if a[0] == "is" else None
        if c[0] == "bin":
            s = [x for x in c[2:] if isinstance(x, tuple) and x[0] == "call" and cname(x) in ("len", "count")]
            z = [x for x in c[2:] if x == ("k", 0)]
            if s and z and isinstance(pos, bool):
                f = one(e, s[0][2][0])
                if c[1] == "Eq":
                    (no if pos else yes).append(f)
                elif c[1] in ("Gt", "Lt"):
                    gt = (c[1] == "Gt") == (c[2] == s[0])
                    if gt:
                        (yes if pos else no).append(f)
            continue
        nm, ar = cname(c), c[2]
        if nm == "is_disjoint" and isinstance(pos, bool):
            f = conj(one(e, ar[0]), one(e, ar[1]))
            (no if pos else yes).append(f)
        elif nm in ("is_subset", "is_superset") and isinstance(pos, bool):
            s, b = ar if nm == "is_subset" else ar[::-1]
            f = conj(one(e, s), neg(one(e, b)))
            (no if pos else yes).append(f)
        elif nm == "is_empty" and isinstance(pos, bool):
            f = one(e, ar[0])
            (no if pos else yes).append(f)
        elif nm in ("any", "all", "find", "position") and len(ar) == 2:
            w = truth(e, e.apply(ar[1], [X], c[3]), X)
            f = conj(one(e, ar[0]), w if nm != "all" else neg(w))
            some_ = pos is (nm == "any") if nm in ("any", "all") else (pos == "Some" or pos is None)
            (yes if some_ else no).append(f)
        elif nm == "next" and pos == "None":
            if fx.subterms(c):
                no.append(one(e, ar[0])) if plain_iter(ar[0]) else None
        elif nm == "next" and (pos == "Some" or a[0] == "isnt" and a[2] == "None"):
            yes.append(one(e, ar[0]))
            el = e.elem(ar[0])
            yes[-1] = conj(yes[-1], *[lit(e, b, el) for b in K if b[0] in ("is", "isnt") and b != a and mentions_term(b, el)])
    return no, yes


def plain_iter(t):
    """The iterator was asked once only: nothing to tell from here; loops give a forall instead."""
    return t[0] == "call" and cname(t) in ANDS | DIFF | XOR | ORS | {"filter"}


def about(e, K, x):
    """What the conditions K say about element x."""
    return conj(*[f for f in (lit(e, a, x) for a in K if a[0] in ("is", "isnt")) if not any(
        v[0] == "cond" for v in variables(f))])


def given(f, K):
    """f with the conditions decided by K put in."""
    if isinstance(f, bool):
        return f
    if f[0] == "cond":
        a = f[1]
        if a in K:
            return True
        if a[0] == "is" and isinstance(a[2], bool) and ("is", a[1], not a[2]) in K:
            return False
        return f
    if f[0] == "not":
        return neg(given(f[1], K))
    if f[0] == "and":
        return conj(*[given(g, K) for g in f[1]])
    return f
