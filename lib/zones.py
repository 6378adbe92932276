"""Normal forms of federation terms: what a zone is made of, whichever way it is written."""
import itertools
import core
import fx
from core import cname, mentions, last, show

APPLY = "EdgeEval::constraint_applyer::apply_constraints_to_state"
SELF = ("arg", "self")

HOLE = ("hole",)
ITEM = ("item",)


def loop_phi(e, t, stop=()):
    """The value is carried round a loop."""
    return t[0] == "phi" and t in e.phis and any(carries(e, a, t, set(stop)) for a, _, _ in e.phis[t])


def carries(e, a, t, seen=None):
    seen = set() if seen is None else seen
    for s in fx.subterms(a):
        if s == t:
            return True
        if s and s[0] == "phi" and s not in seen and s in e.phis:
            seen.add(s)
            if any(carries(e, x, t, seen) for x, _, _ in e.phis[s]):
                return True
    return False


def loop_coll(k):
    """What a loop runs over, with its direction."""
    cs = [a[1][2][0] for a in k if a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "next" and a[2] == "Some"]
    return cs


def strip(coll):
    """(collection, direction) of an iterator chain that visits every element once."""
    d = 1
    while coll[0] == "call" and coll[1].startswith("@") and len(coll[2]) == 1 and cname(coll) in (
            "rev", "iter", "cloned", "copied", "by_ref"):
        if cname(coll) == "rev":
            d = -d
        coll = coll[2][0]
    return coll, d


def put(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(put(x, old, new) for x in t)
    if isinstance(t, frozenset):
        return frozenset(put(x, old, new) for x in t)
    return t


def inter(*parts):
    out = set()
    for p in parts:
        if p[0] == "inter":
            out |= p[1]
        elif p[0] == "call" and p[1] == "universe":
            continue
        else:
            out.add(p)
    if len(out) == 1:
        return out.pop()
    return ("inter", frozenset(out))


def pick(e, t, P, als=None):
    """The alternatives of a choice that the path allows."""
    als = [(a, f, d) for a, f, d in als or e.phis[t] if a[0] != "never" and a != t]
    if P is None:
        return als
    best, pos = None, None
    for a, f, d in als:
        if f is None or not d or id(f) not in P.frames:
            return als
        p = (-1, 0) if d[0] == "arg" else max(((i, d[1]) for i, b in enumerate(P.frames[id(f)]) if b == d[0]), default=None)
        if p is not None and (pos is None or p > pos):
            best, pos = (a, f, d), p
    return [best] if best else als


def same_def(x, als):
    return any(x[0] == y[0] and x[1] is y[1] and x[2] == y[2] for y in als)


def carried_part(e, t, als, stop):
    """A value carried by a loop that t may still be afterwards."""
    for a, _, _ in als:
        for q in fx.subterms(a):
            if q and q[0] == "phi" and q != t and q not in stop and q in e.phis and len(e.phis[q]) < len(als) and \
                    all(same_def(x, als) for x in e.phis[q]) and loop_phi(e, q, stop):
                return q
    return None


def missed(e, q, P, stop):
    """The path does not come by the loop that carries q."""
    if P is None:
        return False
    for a, f, d in e.phis[q]:
        if f is not None and d and id(f) in P.frames and carries(e, a, q, set(stop)):
            hs = [h for h, lp in f.body.loops.items() if d[0] in lp["body"]]
            if hs:
                h = min(hs, key=lambda h: len(f.body.loops[h]["body"]))
                return h not in P.frames[id(f)]
    return False


def forms(e, t, k=frozenset(), stop=(), n=0, P=None):
    """[(form, K)]: the possible values; loops and folds become ("fold", collection, direction, init, steps)."""
    if n > 40:
        return [(t, k)]
    if t in stop:
        return [(t, k)]
    if t[0] == "phi" and t in e.phis:
        if loop_phi(e, t, stop) and not missed(e, t, P, stop):
            inits, steps, colls, outer = [], [], [], []
            als = pick(e, t, None)
            first = [x for x in als if not carries(e, x[0], t, set(stop))]
            first = pick(e, t, P, first) if first else []
            for a, f, d in [x for x in als if x[0] in [y[0] for y in first] or carries(e, x[0], t, set(stop))]:
                k2 = f.Kat(d[0]) if f is not None and d and d[0] != "arg" else frozenset()
                if k2 is None:
                    continue
                if carries(e, a, t, set(stop)):
                    if f is not None and core.leaves(e, f, d[0], inner=True):
                        return [(("unknown", t), k)]
                    colls += loop_coll(k2)
                    qs = [q for q in getattr(P, "all", ()) if f is not None and d[0] in q.frames.get(id(f), ())]
                    for q in qs or [None]:
                        k3 = e.close(frozenset(k2) | (e.passed(q) if q is not None else frozenset()))
                        steps += [(x, kx) for x, kx in forms(e, a, k3, stop + (t,), n + 1, q) if not e.contradict(kx)]
                else:
                    outer.append(set(loop_coll(k2)))
                    kk = e.close(k | k2)
                    if not e.contradict(kk):
                        inits += forms(e, a, kk, stop, n + 1, P)
            # loops the value starts in are around the one it is carried by
            outer = set.intersection(*outer) if outer else set()
            sc = {strip(x) for x in colls if x not in outer}
            if len(sc) != 1:
                return [(("unknown", t), k)]
            coll, d = sc.pop()
            return mkfold(e, coll, d, inits, [(put(s, t, HOLE), sk) for s, sk in steps])
        out = []
        als = e.phis[t]
        loop = carried_part(e, t, als, stop)
        if loop is not None:
            # what a loop carries, and what it may be replaced by afterwards
            mine = [x for x in pick(e, t, P) if same_def(x, e.phis[loop])]
            if mine and missed(e, loop, P, stop):
                mine = []
            if mine:
                out += forms(e, loop, k, stop, n + 1, P)
            als = [x for x in pick(e, t, P) if x not in mine]
        else:
            als = pick(e, t, P)
        for a, f, d in als:
            k2 = frozenset()
            if f is not None and d and d[0] != "arg":
                k0 = f.Kat(d[0])
                if k0 is None:
                    continue
                k2 = k0
                if d[1] >= len(f.body.blocks[d[0]]["s"]):
                    k2 = k2 | f.did(d[0])
            kk = e.close(k | k2)
            if not e.contradict(kk):
                out += forms(e, a, kk, stop, n + 1, P)
        return out
    if t[0] in ("v", "f"):
        out = []
        for b, kb in forms(e, t[1], k, stop, n + 1, P):
            if b[0] == "failed":
                continue
            if b[0] in ("fold", "inter", "unknown"):
                out.append((t, kb))
                continue
            r = e.proj1(b, t[2] if t[0] == "v" else None, t[3] if t[0] == "v" else t[2])
            if r[0] == "never":
                continue
            out += [(r, kb)] if r == t or (r[0] in "vf" and r[1] == b) else forms(e, r, kb, stop, n + 1, P)
        return out
    if t[0] == "bin" and t[1] in ("Add", "BitOr") and HOLE not in (t[2], t[3]) and (is_fed(e, t[2]) or is_fed(e, t[3])):
        return [(("bin", t[1], a, b), kb) for a, ka in forms(e, t[2], k, stop, n + 1, P) for b, kb in forms(
            e, t[3], ka, stop, n + 1, P)]
    if t[0] == "bin" and t[1] in ("Add", "BitOr") and (t[2] == HOLE or t[3] == HOLE or t[2] in stop or t[3] in stop):
        x = t[3] if t[2] == HOLE or t[2] in stop else t[2]
        return [(("bin", t[1], t[2], y) if x is t[3] else ("bin", t[1], y, t[3]), ky) for y, ky in forms(e, x, k, stop, n + 1, P)] \
            if is_zone(x) else [(t, k)]
    if t[0] == "call" and t[2]:
        nm = cname(t)
        if nm == "fold" and len(t[2]) == 3:
            coll, d = strip(t[2][0])
            steps = []
            fr = e.closure_frame(t[2][2], [HOLE, e.elem(t[2][0])], "ap" + str(t[3]), ()) if t[2][2][0] == "clo" else None
            if fr is not None:
                steps = [(x, kx) for x, kx, _ in values(e, fr)]
            else:
                steps = forms(e, e.apply(t[2][2], [HOLE, e.elem(t[2][0])], t[3]), frozenset(), stop, n + 1)
            return mkfold(e, coll, d, forms(e, t[2][1], k, stop, n + 1, P), steps)
        ch = e.choice(t)
        if ch:
            out = []
            for a, ka in ch:
                kk = e.close(k | ka)
                if not e.contradict(kk):
                    out += forms(e, a, kk, stop, n + 1, P)
            return out
        alts = [((), k)]
        for x in t[2]:
            if x[0] in ("k", "arg", "elem", "closure") or not is_zone(x):
                alts = [(fs + (x,), k1) for fs, k1 in alts]
                continue
            alts = [(fs + (y,), k2) for fs, k1 in alts for y, k2 in forms(e, x, k1, stop, n + 1, P)]
        out = []
        for fs, k1 in alts:
            if nm == "intersection" and len(fs) == 2:
                out.append((inter(*fs), k1))
            elif nm == "universe":
                out.append((("call", "universe", ()), k1))
            else:
                out.append((("call", nm, fs), k1))
        return out
    return [(t, k)]


def is_fed(e, x):
    return x[0] == "call" and cname(x) in ("intersection", "universe", "empty", "subtraction", "union", "inverse")


def is_zone(x):
    return x[0] in ("phi", "call", "v", "f", "acc", "unknown")


def only_item(e, k, coll):
    """What is known of the element of the loop in a step."""
    el = e.elem(coll)
    return frozenset(a for a in k if a[0] in ("is", "isnt") and (mentions(a[1], el) or a[1][0] == "f" and getattr(
        e, "wide_steps", False)))


def mkfold(e, coll, d, inits, steps):
    els = e.arr_elems(coll)
    if els is not None and len(els) == 1:
        out = []
        for i, ik in inits:
            for s, sk in steps:
                kk = e.close(ik | sk)
                if not e.contradict(kk):
                    out.append((renorm(put(s, HOLE, i)), kk))
        return out
    st = {}
    for s, sk in steps:
        st.setdefault(s, []).append(only_item(e, sk, coll))
    # of one step, the conditions common to all ways to it
    sts = frozenset((s, frozenset.intersection(*ks)) for s, ks in st.items())
    return [(("fold", coll, d, i, sts), ik) for i, ik in inits]


def renorm(t):
    if isinstance(t, tuple) and t and t[0] == "inter":
        return inter(*[renorm(x) for x in t[1]])
    return tuple(renorm(x) for x in t) if isinstance(t, tuple) else t


def values(e, f, t=None):
    """[(form, K, path)] of a value (the result) of f, path by path."""
    t = f.ret() if t is None else t
    ps = e.paths(f)
    out = []
    for P in ps or ():
        P.all = ps
    for P in ps if ps is not None else [None]:
        k0 = e.close(P[0] | frozenset(a for a in e.passed(P) if not looped(a) or f.body.kind == "Closure")) if P is not None else frozenset()
        if e.contradict(k0):
            continue
        for z, k in forms(e, t, k0, P=P):
            if not e.contradict(k):
                out.append((z, k, P))
    return out


def values_at(e, fr, bb, t):
    """[(form, K, path)] of t where block bb of fr runs, way by way."""
    ps = e.paths(fr, upto=bb, light=True)
    out = []
    for P in ps or ():
        P.all = ps
    for P in ps if ps is not None else [None]:
        k0 = e.close(P[0] | (fr.Kat(bb) or frozenset())) if P is not None else frozenset()
        if e.contradict(k0):
            continue
        for z, k in forms(e, t, k0, P=P):
            if not e.contradict(k):
                out.append((z, k, P))
    return out


def looped(a):
    return any(s and s[0] == "elem" for s in fx.subterms(a[1])) if isinstance(a[1], tuple) else False


def produced(e, t, depth=0, dedup=False):
    """[(element, K, frame, bb)]: what a collection is made of, element by element, or None. With dedup a collection
    stands for the set of its elements."""
    if depth > 8:
        return None
    if t[0] == "acc":
        b, cs = e.contribs(t)
        out = produced(e, b, depth + 1, dedup)
        if out is None:
            return None
        for op, args, k, w, fr, bb in cs:
            if op == "insert" and len(args) == 2:
                out = out + [(("agg", "()", None, (("0", args[0]), ("1", args[1]))), k, fr, bb)]
            elif op in ("push", "push_back", "insert", "insert_at"):
                out = out + [(args[-1], k, fr, bb)]
            elif op in ("extend", "append", "extend_from_slice"):
                s = produced(e, args[-1], depth + 1, dedup)
                if s is None:
                    return None
                out = out + [(x, e.close(k | k2), fr, bb) for x, k2, f2, b2 in s]
            else:
                return None
        return out
    if t[0] == "call":
        n = cname(t)
        if n in ("new", "with_capacity", "default"):
            return []
        if n in ("collect", "iter", "into_iter", "cloned", "rev", "to_vec") and t[2]:
            return produced(e, t[2][0], depth + 1, dedup)
        if n in ("from_iter", "unique", "dedup") and dedup and t[2]:
            return produced(e, t[2][0], depth + 1, dedup)
        if n in ("map", "filter", "filter_map") and len(t[2]) == 2:
            s = produced(e, t[2][0], depth + 1, dedup)
            if s is None:
                s = [(e.elem(t[2][0]), frozenset(), None, None)]
            r = []
            for x, k, fr, bb in s:
                y = e.apply(t[2][1], [x], t[3])
                if n == "map":
                    r.append((y, k, fr, bb))
                elif n == "filter":
                    r += [(x, e.close(k | k2), fr, bb) for k2 in core.truth_cases(e, y, True)]
                else:
                    r += [(z[3][0][1] if z[0] == "agg" and z[2] == "Some" else some(z), e.close(
                        k | k2 | (frozenset() if z[0] == "agg" else frozenset({("is", z, "Some")}))), fr, bb)
                        for z, k2 in core.expand(e, y, frozenset()) if not (z[0] == "agg" and z[2] == "None")]
            return r
        if n == "flat_map" and len(t[2]) == 2:
            return produced(e, e.apply(t[2][1], [e.elem(t[2][0])], t[3]), depth + 1)
        if n == "flatten" and len(t[2]) == 1 and t[2][0][0] == "call" and cname(t[2][0]) == "map":
            m = t[2][0]
            return produced(e, e.apply(m[2][1], [e.elem(m[2][0])], m[3]), depth + 1)
    els = e.arr_elems(t)
    if els is not None:
        return [(x, frozenset(), None, None) for x in els]
    return None


def unelem(e, t):
    """t with an element of a collection built from one kind of element written as that element."""
    if not isinstance(t, tuple):
        return t
    if len(t) == 2 and t[0] == "elem" and t[1][0] == "acc":
        p = produced(e, t[1])
        if p is not None and len(p) == 1:
            return p[0][0]
    r = tuple(unelem(e, x) for x in t)
    if len(r) == 3 and r[0] == "f" and isinstance(r[1], tuple) and r[1][0] == "agg" and r[2] in dict(r[1][3]):
        return dict(r[1][3])[r[2]]
    return r


def concat(e, t, under=frozenset(), depth=0):
    """The collections a sequence is the concatenation of, in order, or None."""
    if depth > 6:
        return None
    if t[0] == "acc":
        b, cs = e.contribs(t)
        out = concat(e, b, under, depth + 1)
        for op, args, k, w, fr, bb in cs:
            if out is None or any(g[0] != "did" and g not in under and g[1][0] not in ("agg", "k") and not (
                    g[1][0] == "call" and cname(g[1]) == "next") for g in e.guards(fr, bb)):
                return None
            if op in ("extend", "append", "extend_from_slice"):
                s = concat(e, args[-1], under, depth + 1)
                out = None if s is None else out + s
            elif op == "push" and args[-1][0] == "elem" and strip(args[-1][1])[1] == 1:
                out = out + [args[-1][1]]
            else:
                return None
        return out
    if t[0] == "call":
        n = cname(t)
        if n in ("new", "with_capacity", "default"):
            return []
        if n in ("collect", "iter", "into_iter", "cloned", "to_vec", "clone", "copied", "as_slice") and len(t[2]) == 1:
            return concat(e, t[2][0], under, depth + 1)
        if n == "chain" and len(t[2]) == 2:
            a, b = concat(e, t[2][0], under, depth + 1), concat(e, t[2][1], under, depth + 1)
            return None if a is None or b is None else a + b
        if n == "concat" and len(t[2]) == 1:
            els = e.arr_elems(t[2][0])
            if els is not None:
                ps = [concat(e, x, under, depth + 1) for x in els]
                return None if None in ps else [y for p in ps for y in p]
        if n in ("rev", "filter", "take", "skip", "step_by", "dedup", "map"):
            return None
    return [t]


def fld(t, *ns):
    for n in ns:
        t = ("f", t, n)
    return t


def some(t):
    return ("v", t, "Some", "0")


def ok(t):
    return ("v", t, "Ok", "0")


def call(n, *a):
    return ("call", n, tuple(a))


def tells(k, t, v):
    return any(a[0] == "is" and a[1] == t and a[2] == v for a in k)


def ground(e, t, k, P=None):
    return [(a, b) for a, b in forms(e, t, k, P=P) if not e.contradict(b)]


def zshow(z):
    if z[0] == "inter":
        return "intersection of {%s}" % ", ".join(sorted(zshow(x) for x in z[1]))
    if z[0] == "fold":
        return "%sfold over %s of %s from %s" % ("reversed " if z[2] < 0 else "", show(z[1]), " or ".join(
            zshow(s) for s, _ in z[4]), zshow(z[3]))
    if z == HOLE:
        return "_"
    if z[0] == "call" and len(z) == 3:
        return "%s(%s)" % (z[1], ", ".join(zshow(x) for x in z[2]))
    return show(z)


def equalities(k):
    out = {True: set(), False: set()}
    for a in k:
        if a[0] != "is" or a[2] not in (True, False):
            continue
        t, v = a[1], a[2]
        if t[0] == "bin" and t[1] in ("Eq", "Ne"):
            out[v == (t[1] == "Eq")].add(frozenset((t[2], t[3])))
        elif t[0] == "call" and cname(t) in ("eq", "ne") and len(t[2]) == 2:
            out[v == (cname(t) == "eq")].add(frozenset(t[2]))
    return out


def params(f):
    return [("arg", f.body.locals[i + 1]["n"] or "_%d" % (i + 1)) for i in range(f.body.argc)]


def optzone(e, t, k):
    """[(zone, K)] of an optional zone; absent: everything."""
    out = []
    for a, ka in ground(e, t, k):
        if a[0] == "agg" and a[2] == "None":
            out.append((inter(), ka))
        elif a[0] == "agg" and a[2] == "Some":
            out += ground(e, a[3][0][1], ka)
        elif tells(ka, a, "None"):
            out.append((inter(), ka))
        elif tells(ka, a, "Some"):
            out.append((some(a), ka))
        else:
            out.append((a, ka))
    return out


def sites(t):
    """t with calls identified by their last name and arguments only."""
    if not isinstance(t, tuple):
        return t
    if len(t) == 4 and t[0] == "call" and isinstance(t[1], str):
        return ("call", cname(t), tuple(sites(x) for x in t[2]))
    return tuple(sites(x) for x in t)


def plain(k):
    """The conditions k with such terms, without what was merely executed."""
    return {(a[0], sites(a[1])) + tuple(a[2:]) for a in k if a[0] in ("is", "isnt")}


def known(kn, t, v, other=None):
    """Whether plain conditions kn say that t is v (of two variants, that it is not the other)."""
    return ("is", t, v) in kn or (other is not None and ("isnt", t, other) in kn)


def mentions_name(t, nm):
    return any(x[0] == "call" and len(x) > 2 and cname(x) == nm for x in fx.subterms(t) if x)


def uses_term(t, s):
    return any(x == s for x in fx.subterms(t))


def found(e, l, coll, name, k):
    """l is the element of coll whose id is that name: filter/find, or known from the condition."""
    src = None
    if l[0] == "idx" or l[0] == "call" or l[0] == "v":
        for s in fx.subterms(l):
            if s and s[0] == "call" and cname(s) in ("filter", "find", "position") and len(s[2]) == 2:
                src = s
    if src is not None:
        r = e.apply(src[2][1], [("elem", coll)], src[3]) if strip(src[2][0])[0] == coll else None
        el = ("elem", coll)
    else:
        if l != ("elem", coll):
            return False
        el = l
        return any(a[0] == "is" and a[2] is True and eqs(a[1], fld(el, "id"), name) for a in k)
    return r is not None and eqs(r, fld(el, "id"), name)


def eqs(t, a, b):
    if t[0] == "bin" and t[1] == "Eq":
        return {t[2], t[3]} == {a, b}
    return t[0] == "call" and cname(t) == "eq" and set(t[2]) == {a, b}
