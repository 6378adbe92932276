import fx
from core import *
from zones import *
from tables import mapped, render

TITLE = "zones are written back as the conditions that describe exactly them"
EXPLAIN = ("The condition made of one bound of a zone is read as a linear inequality and compared with the bound for every "
           "combination of zero clock, strictness and zero bound. That all bounds of a conjunction are joined by 'and', all "
           "conjunctions by 'or', with 'true' and 'false' where there are none, is shown by induction over the loops (or "
           "reductions) that join them.")
B = "ModelObjects::Expressions::bool_expression::BoolExpression::"
ONE, CONJ, DISJ = B + "from_constraint", B + "from_conjunction", B + "from_disjunction"
GUARD = "ModelObjects::transition::Transition::get_renamed_guard_expression"


def run(c):
    c.memory("State")
    bound(c)
    join(c, CONJ, ONE, "constraints", "AndOp", "conjunction")
    join(c, DISJ, CONJ, "conjunctions", "OrOp", "disjunction")
    guard(c)


# ---- one bound
def bound(c):
    e, f = c.entry(ONE, [])
    if f is None:
        return
    con, naming = params(f)[:2]
    I, J = fld(con, "i"), fld(con, "j")
    n = 0
    got = {}
    for t, k0 in e.returns(f):
        for x, k in expand(e, t, k0):
            n += 1
            st = {}
            for a in e.close(k):
                know(st, a, con, I, J)
            for i0 in (True, False):
                for j0 in (True, False):
                    for s in (True, False):
                        for z in (True, False):
                            if i0 and j0 or any(st.get(w, v) != v for w, v in (("i", i0), ("j", j0), ("s", s), ("b", z))):
                                continue
                            got[(i0, j0, s, z)] = got.get((i0, j0, s, z), 0) + 1
                            r = relation(x, con, naming, I, J, i0, j0, z)
                            nm = "%s-%s" % ("0" if i0 else "i", "0" if j0 else "j")
                            want = ({k: v for k, v in (("i", 0 if i0 else 1), ("j", 0 if j0 else -1), ("b", 0 if z else -1)) if v}, 0, s)
                            c.oblige(r == want, "bound-%s%s" % (nm, "-strict" if s else ""), ONE,
                                     "the bound %s %s%s is written as %s" % (nm, "<" if s else "<=", " 0" if z else " b", show(x)[:200]))
    c.floor(n, 3, "bound", "forms of a bound")
    for cell in [(i, j, s, z) for i in (True, False) for j in (True, False) for s in (True, False) for z in (True, False)
                 if not (i and j)]:
        c.oblige(cell in got, "bound-covered-%s%s%s" % ("0" if cell[0] else "i", "0" if cell[1] else "j", "-strict" if cell[2] else ""),
                 ONE, "no condition is made of some bounds of %s - %s" % ("0" if cell[0] else "i", "0" if cell[1] else "j"))


def isbound(t, con):
    return t[0] == "call" and cname(t) == "bound" and mentions(t, con)


def know(st, a, con, I, J):
    """What an atom says of the case."""
    if a[0] not in ("is", "isnt") or len(a) < 3:
        return
    t, v = a[1], a[2]
    pos = a[0] == "is"
    while t[0] == "un" and t[1] == "Not" and isinstance(v, bool):
        t, v = t[2], not v
    if t[0] == "bin" and t[1] in ("Eq", "Ne") and isinstance(v, bool):
        x, y = t[2], t[3]
        if x[0] == "k":
            x, y = y, x
        if y[0] == "k" and y[1] in (0, False):
            zero = (v if t[1] == "Eq" else not v) == pos
            if x in (I, J):
                st["i" if x == I else "j"] = zero
            elif isbound(x, con):
                st["b"] = zero
        return
    if t in (I, J) and (isinstance(v, bool) or v == 0):
        # a test against 0: False is 0
        st["i" if t == I else "j"] = (v in (False, 0) and v is not True) == pos
    elif isbound(t, con) and (isinstance(v, bool) or v == 0):
        st["b"] = (v in (False, 0) and v is not True) == pos
    elif t[0] == "call" and cname(t) == "is_strict" and isinstance(v, bool):
        st["s"] = v == pos
    elif t[0] == "call" and cname(t) in ("ineq",) and v in ("LS", "LE"):
        st["s"] = (v == "LS") == pos


def relation(x, con, naming, I, J, i0, j0, z):
    """(coefficients, constant, strict) of the inequality "... <= 0" that a condition states, or None."""
    if x[0] != "agg" or not x[1].endswith("BoolExpression") or len(x[3]) != 2:
        return None
    l, r = (arith(v, con, naming, I, J, i0, j0, z) for _, v in x[3])
    if l is None or r is None:
        return None
    if x[2] in ("GreatEQ", "GreatT"):
        l, r = r, l
    elif x[2] not in ("LessEQ", "LessT"):
        return None
    d = {k: l.get(k, 0) - r.get(k, 0) for k in set(l) | set(r)}
    one = d.pop(1, 0)
    return ({k: v for k, v in d.items() if v}, one, x[2] in ("LessT", "GreatT"))


def arith(t, con, naming, I, J, i0, j0, z):
    a = lambda y: arith(y, con, naming, I, J, i0, j0, z)
    if t[0] == "agg" and t[1].endswith("ArithExpression"):
        fs = [v for _, v in t[3]]
        if t[2] == "Parentheses":
            return a(fs[0])
        if t[2] in ("Difference", "Addition"):
            l, r = a(fs[0]), a(fs[1])
            if l is None or r is None:
                return None
            s = 1 if t[2] == "Addition" else -1
            return {k: l.get(k, 0) + s * r.get(k, 0) for k in set(l) | set(r)}
        if t[2] == "Int":
            return number(fs[0], con, z)
        if t[2] == "VarName":
            n = fs[0]
            while n[0] in ("v", "call") and (n[0] == "v" or cname(n) in ("get", "clone", "to_string", "index", "unwrap", "cloned")):
                if n[0] == "call" and len(n[2]) == 2:
                    n = ("idx", n[2][0], n[2][1])
                else:
                    n = n[1] if n[0] == "v" else n[2][0]
            if n[0] == "idx" and n[1] == naming and n[2] in (I, J):
                # a clock of number 0 has no name
                return None if (i0 if n[2] == I else j0) else {"i" if n[2] == I else "j": 1}
    return None


def number(t, con, z):
    if t[0] == "k" and isinstance(t[1], int):
        return {1: int(t[1])}
    if isbound(t, con):
        return {} if z else {"b": 1}
    if t[0] == "un" and t[1] == "Neg":
        r = number(t[2], con, z)
        return None if r is None else {k: -v for k, v in r.items()}
    if t[0] == "bin" and t[1] in ("Add", "Sub"):
        l, r = number(t[2], con, z), number(t[3], con, z)
        if l is None or r is None:
            return None
        s = 1 if t[1] == "Add" else -1
        return {k: l.get(k, 0) + s * r.get(k, 0) for k in set(l) | set(r)}
    if t[0] == "bin" and t[1] == "Mul":
        l, r = number(t[2], con, z), number(t[3], con, z)
        for x, y in ((l, r), (r, l)):
            if x is not None and y is not None and set(x) <= {1}:
                return {k: v * x.get(1, 0) for k, v in y.items()}
    if t[0] == "call" and cname(t) in ("neg", "wrapping_neg") and len(t[2]) == 1:
        return number(("un", "Neg", t[2][0]), con, z)
    return None


# ---- many
def alternatives(e, t, k=frozenset(), seen=(), at=None):
    """[(value, K)] (or with the place where it is merged): merged values apart, loops as they are."""
    if at is not None:
        return alternatives_at(e, t, k, seen, at)
    return [(x, kx) for x, kx, _ in alternatives_at(e, t, k, seen, (None, None))]


def alternatives_at(e, t, k, seen, at):
    if t[0] == "phi" and t in e.phis and t not in seen and not looping(e, t, seen):
        out = []
        for a, fr, d in e.phis[t]:
            kk = k
            if fr is not None and d and d[0] != "arg":
                k2 = fr.Kat(d[0])
                if k2 is None:
                    continue
                kk = e.close(k | k2)
                if e.contradict(kk):
                    continue
            out += alternatives_at(e, a, kk, seen, (fr, d))
        return out
    ch = e.choice(t) if t[0] == "call" else None
    if ch:
        return [y for a, ka in ch if not e.contradict(e.close(k | ka)) for y in alternatives_at(e, a, e.close(k | ka), seen, at)]
    if t[0] == "agg" and t[2] == "Some" and t[3][0][1][0] == "phi":
        return [(t[:3] + (((t[3][0][0], x),),), kx, w) for x, kx, w in alternatives_at(e, t[3][0][1], k, seen, at)]
    return [(t, k, at)]


def looping(e, t, seen=()):
    """A merge of what the turns of a loop leave."""
    return any(carries(e, a, w, set(seen)) for w in [t] + turns(t, e.phis[t]) if w[0] != "agg" for a, _, _ in e.phis[t])


def kids(x, op):
    if x[0] == "agg" and x[1].endswith("BoolExpression") and x[2] == op and len(x[3]) == 2:
        return [v for _, v in x[3]]
    return None


def reduction(e, f, t, op, at=(None, None)):
    """(collection, element) if t is None for an empty collection and otherwise Some of all elements joined by op."""
    if t[0] == "call" and cname(t) == "reduce" and len(t[2]) == 2:
        a, b = ("hole", "a"), ("hole", "b")
        r = e.apply(t[2][1], [a, b], t[3])
        ks = kids(r, op)
        if ks is None or sorted(ks) != [a, b]:
            return None
        src = t[2][0]
        return base(src), e.elem(src)
    if t[0] == "call" and cname(t) == "fold" and len(t[2]) == 3 and t[2][1][0] == "agg" and t[2][1][2] == "None":
        a, src = ("hole", "a"), t[2][0]
        r = e.apply(t[2][2], [a, e.elem(src)], t[3])
        el, n = None, set()
        for x, k in alternatives(e, r):
            s = step(e, x, k, a, op)
            if s is None or el not in (None, s[0]):
                return None
            el = s[0]
            n.add(s[1])
        return (base(src), el) if n == {True, False} else None
    if t[0] != "phi" or t not in e.phis:
        return None
    init, defs = [], []
    for a, fr, d in e.phis[t]:
        (init if a[0] == "agg" and a[2] == "None" and "Option" in a[1] else defs).append((a, fr, d))
    if len(init) != 1 or not defs:
        return None
    fr = defs[0][1]
    hs = [(len(lp["body"]), h) for h, lp in fr.body.loops.items() if all(d[0] in lp["body"] for _, _, d in defs)]
    if not hs:
        return None
    h = min(hs)[1]
    lp = fr.body.loops[h]
    if init[0][1] is fr and init[0][2][0] in lp["body"]:
        return None
    # whatever else leaves the loop gives another result
    for p in lp["body"]:
        for i, q in enumerate(fr.body.succ[p]):
            if q in lp["body"] or p not in fr.feas() or any(a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "next" and
                                                            a[2] == "None" for a in fr.edge_atoms(p, i)):
                continue
            if at[0] is None or at[0] is fr and reaches(fr.body, q, at[1][0]):
                return None
    el, colls, n = None, set(), set()
    for a, fr2, d in defs:
        k = fr2.Kat(d[0])
        colls |= set(loop_coll(k or frozenset()))
        for x, kx in alternatives(e, a, k or frozenset(), (t,)):
            s = step(e, x, kx, t, op, turns(t, defs))
            if s is None or el not in (None, s[0]):
                return None
            el = s[0]
            n.add(s[1])
    # every turn joins its element
    ds = {d[0] for _, _, d in defs}
    if n != {True, False} or len({strip(x)[0] for x in colls}) != 1 or around(fr.body, h, lp, ds):
        return None
    return base(strip(colls.pop())[0]), el


def reaches(b, p, q):
    seen, st = set(), [p]
    while st:
        i = st.pop()
        if i == q:
            return True
        if i not in seen:
            seen.add(i)
            st += b.succ[i]
    return False


def around(b, h, lp, ds):
    """A turn of the loop that passes none of the blocks."""
    seen, st = set(), [s for s in b.succ[h] if s in lp["body"] and s not in ds]
    while st:
        i = st.pop()
        if i == h:
            return True
        if i in seen:
            continue
        seen.add(i)
        st += [s for s in b.succ[i] if s in lp["body"] and s not in ds]
    return False


def turns(t, defs):
    """The ways to say what an earlier turn of the loop that computes t has left in it, where it has left something."""
    out = []
    for a, fr, d in defs:
        out.append(("v", ("phi", ("cyc", fr.ctx, d)), "Some", "0"))
        if a[0] == "agg" and a[2] == "Some" and len(defs) == 1:
            out.append(a[3][0][1])
    return out


def step(e, x, k, hole, op, more=()):
    """(element, joined to what there was)."""
    if x[0] != "agg" or x[2] != "Some":
        return None
    v = x[3][0][1]
    ks = kids(v, op)
    for h in [("v", hole, "Some", "0"), *more]:
        if ks is not None and h in ks:
            ks.remove(h)
            return (ks[0], True) if not any(mentions(ks[0], h) for h in (hole, *more)) else None
    if any(mentions(v, h) for h in (hole, *more)) or not any(a[0] == "is" and a[1] == hole and a[2] == "None" or a[0] == "isnt" and a[1] == hole and a[2] == "Some"
                                    for a in k):
        return None
    return v, False


def base(t):
    while t[0] in ("call", "v") and (t[0] == "v" or cname(t) in ("map", "iter", "into_iter", "collect", "cloned", "branch")):
        t = t[1] if t[0] == "v" else t[2][0]
    return t


def sizes(e, k, coll):
    """The sizes (0, 1, 2 for more) of the collection a case allows."""
    ok = {0, 1, 2}
    for a in e.close(k):
        if a[0] not in ("is", "isnt"):
            continue
        t, v = a[1], a[2]
        if t[0] == "call" and cname(t) == "is_empty" and t[2][0] == coll and isinstance(v, bool):
            ok &= {0} if v == (a[0] == "is") else {1, 2}
        elif t[0] == "call" and cname(t) == "len" and t[2][0] == coll and isinstance(v, int):
            m = {int(v)} if v is not True else {1, 2}
            m = {min(x, 2) for x in m}
            if a[0] == "is":
                ok &= m
            elif v in (0, 1):
                ok -= m
        elif t[0] == "bin" and t[1] in ("Eq", "Ne") and isinstance(v, bool):
            x, y = (t[2], t[3]) if t[3][0] == "k" else (t[3], t[2])
            if x[0] == "call" and cname(x) == "len" and x[2][0] == coll and y[0] == "k" and y[1] in (0, 1):
                ok &= {y[1]} if (v if t[1] == "Eq" else not v) == (a[0] == "is") else {0, 1, 2} - {y[1]}
    return ok


def join(c, fn, each, field, op, what):
    e, f = c.entry(fn, [each])
    if f is None:
        return
    arg, naming = params(f)[:2]
    coll = fld(arg, field)
    got = {0: 0, 1: 0, 2: 0}
    word = "and" if op == "AndOp" else "or"
    nonempty = False
    for t, k, at in alternatives(e, f.ret(), at=(None, None)):
        red = reduction(e, f, t, op, at)
        ss = sizes(e, k, coll)
        if fn == DISJ and red is None and t[0] == "agg" and t[2] == "None":
            x = next((a[1] for a in e.close(k) if a[0] in ("is", "isnt") and (a[2] == "None") == (a[0] == "is") and a[2] in (
                "None", "Some") and a[1][0] == "call" and a[1][1] == each and a[1][2][0] == e.elem(coll)), None)
            if x is not None:
                t = ("failed", ("residual", x))
        if red is None and t[0] == "failed":
            # one part is always true: so is the whole disjunction
            r = t[1][1] if t[1][0] == "residual" else t[1]
            if r[0] == "call" and cname(r) in ("map", "collect"):
                # some element of the list is None
                r = e.elem(r)
            good = fn == DISJ and r[0] == "call" and r[1] == each and r[2][0] == e.elem(coll) and named(c, e, fn, r[2][1], naming)
            c.oblige(good, what + "-early", fn, "no condition is made of a %s if %s" % (what, show(t)[:200]))
            continue
        for s in ss:
            got[s] += 1
            if red is not None and not (s == 0 and fn == DISJ):
                cl, el = red
                if el[0] == "elem" and el[1][0] == "v" and el[1][2] == "Some":
                    # each of a list that was made because none of its elements is None
                    el = ("v", e.elem(el[1][1]), "Some", "0")
                if fn == DISJ:
                    el = el[1] if el[0] == "v" and el[2] == "Some" else None
                good = cl == coll and el is not None and el[0] == "call" and el[1] == each and el[2][0] == e.elem(coll) and named(
                    c, e, fn, el[2][1], naming)
                c.oblige(good, what + "-parts", fn, "the parts of a %s joined are %s" % (what, show(red[1])[:200]))
                continue
            if s == 0:
                if fn == CONJ:
                    good = t[0] == "agg" and (t[2] == "None" or t[2] == "Some" and says(t[3][0][1], True))
                else:
                    good = t[0] == "agg" and t[2] == "Some" and says(t[3][0][1], False)
                c.oblige(good, what + "-empty", fn, "an empty %s is written as %s" % (what, show(t)[:200]))
            elif s == 1:
                v = t
                if fn == CONJ:
                    v = t[3][0][1] if t[0] == "agg" and t[2] == "Some" else ("k", None)
                good = v[0] == "call" and v[1] == each and first(v[2][0], coll) and named(c, e, fn, v[2][1], naming)
                c.oblige(good, what + "-one", fn, "a %s of one part is written as %s" % (what, show(t)[:200]))
            else:
                c.oblige(False, what + "-all", fn, "the parts of a %s are not all joined by '%s': %s" % (what, word, show(t)[:200]))
    for s in got:
        c.oblige(got[s], what + "-covered-%d" % s, fn, "nothing is made of a %s of %s parts" % (what, ("no", "one", "several")[s]))


def says(t, v):
    return t[0] == "agg" and t[1].endswith("BoolExpression") and t[2] == "Bool" and t[3][0][1] == ("k", v)


def first(t, coll):
    if t[0] == "idx":
        return t[1] == coll and t[2] == ("k", 0)
    if t[0] == "v" and t[1][0] == "call" and cname(t[1]) in ("first", "next", "last", "pop", "get"):
        return base(t[1][2][0]) == coll
    return False


def named(c, e, fn, t, naming):
    """The names the clocks get are those they have."""
    if fn == CONJ:
        return t == naming
    r = render(e, t) if t[0] != "acc" else mapped(e, t, None, {})
    return r == "map(%s: ()(each.1, each.0))" % render(e, naming)


def guard(c):
    e, f = c.entry(GUARD, [DISJ])
    if f is None:
        return
    n = 0
    for t, k in e.returns(f):
        for x, _ in expand(e, t, k):
            n += 1
            good = x[0] == "call" and x[1] == DISJ and x[2][1] == params(f)[1] and x[2][0][0] == "call" and cname(x[2][0]) in (
                "minimal_constraints", "constraints") and x[2][0][2][0] == fld(SELF, "guard_zone")
            c.oblige(good, "guard", GUARD, "the guard of a transition is written as " + show(x)[:200])
    c.floor(n, 1, "guard", "guards of transitions")
