"""Systems made of two operands: their construction, action sets and methods (used by S01 and S02)."""
from core import *
from zones import *
import sets
from sets import conj, alt, neg, implies

TS = "TransitionSystems::transition_system::TransitionSystem"
CTS = "TransitionSystems::common::ComposedTransitionSystem"
L = "TransitionSystems::location_tree::LocationTree"
AF = "System::query_failures::ActionFailure"


def base(side, what):
    return ("in", ("get_%s_actions" % what, side))


def norm(f, n=0):
    """All actions of an operand are its inputs and its outputs."""
    if isinstance(f, bool):
        return f
    if f[0] == "in" and f[1][0] == "get_actions":
        return alt(base(f[1][1], "input"), base(f[1][1], "output"))
    if f[0] == "not":
        return neg(norm(f[1]))
    if f[0] == "and":
        return conj(*[norm(g) for g in f[1]])
    return f


def kind(t):
    """Whether a result is a success or a failure."""
    if t[0] == "agg":
        return t[2]
    if t[0] == "failed":
        return "Err"
    if t[0] == "call" and cname(t) == "not_disjoint":
        return "Err"
    if t[0] == "call" and cname(t) in ("map_err", "or_else") and t[2]:
        return kind(t[2][0])
    return None


def sat(f):
    return not sets.valid(neg(f))


def impl(c, adt, m, own=(CTS, TS)):
    for t in own:
        b = "<%s as %s>::%s" % (adt, t, m)
        if b in c.p.bodies:
            return b
    d = c.p.implmap()
    for t in own:
        if (None, m) in d.get(t, {}):
            return d[t][(None, m)]
    b = TS + "::" + m
    return b if b in c.p.bodies else None


def public(c, adt, m):
    """The implementation users of a composed system reach: the one for all composed systems or its own."""
    return impl(c, adt, m, (TS,))


def entry(c, sysm, fn, opaque, args):
    """Analyse a method on a system built by another engine: its collections stay known."""
    e = sysm[0]
    e2, f = c.entry(fn, opaque, args)
    if f is not None:
        e2.phis.update({k: v for k, v in e.phis.items() if k not in e2.phis})
        e2.accs.update({k: v for k, v in e.accs.items() if k not in e2.accs})
    return e2, f


def pairs(c, e, f, s, fn, joint=None, more=()):
    """The locations of a system: one for each pair of locations (and `more`)."""
    l, r = (sites(("elem", call("get_all_locations", x))) for x in (s.left, s.right))
    its = produced(e, f.ret())
    if not c.oblige(its is not None and len(its) == 1, "locations-" + s.nm, fn,
                    "the locations of a %s are not one for every pair of locations" % s.nm):
        return
    t, k0, fr, bb = its[0]
    if fr is not None:
        bad = [a for a in e.guards(fr, bb) if a[0] not in ("did", "forall") and not (
            a[1][0] == "call" and cname(a[1]) == "next") and a[1][0] not in ("agg", "k")]
        c.oblige(not bad, "locations-all-" + s.nm, fn, "a pair of locations is left out unless " + "; ".join(
            show(a)[:100] for a in bad))
        c.oblige(not leaves(e, fr, bb), "locations-whole-" + s.nm, fn, "not all pairs of locations are visited")
    x = sites(t)
    c.oblige(x[0] == "call" and x[1] == "compose" and x[2][:2] == (l, r) and x[2][2][0] == "agg" and x[2][2][2] == s.nm,
             "location-" + s.nm, fn, "a location of a %s is %s" % (s.nm, show(x)[:150]))


def both(c, e, f, m, s, fn):
    a, b = call(m, s.left), call(m, s.right)
    n = 0
    for t, k in outcomes(e, f):
        for x, kx in expand(e, t, k):
            n += 1
            kn = plain(kx)
            okd = [("is", y, "Ok") in kn or ("isnt", y, "Err") in kn for y in (a, b)]
            y = sites(x)
            if y[0] == "agg" and y[2] == "Ok":
                c.oblige(all(okd) or (s.nm == "Conjunction" and m == "check_local_consistency" and fn.startswith("<")),
                         "%s-ok-%s" % (m, s.nm), fn, "%s passes a %s of which an operand was not checked" % (m, s.nm))
            elif y in (a, b):
                o = okd[0] if y == b else okd[1]
                c.oblige(o or known(kn, y, "Err", "Ok"), "%s-ok-%s" % (m, s.nm), fn, "%s passes a %s of which an operand was not checked" % (m, s.nm))
            else:
                c.oblige(y[0] == "failed" and (uses_term(y, a) or uses_term(y, b)) or y[0] == "agg" and y[2] == "Err" and any(
                    ("is", z, "Err") in kn or ("isnt", z, "Ok") in kn for z in (a, b)) or y[0] == "call" and y[1] in (
                        "and", "and_then") and False, "%s-err-%s" % (m, s.nm), fn,
                    "%s refuses a %s for another reason than an operand: %s" % (m, s.nm, show(x)[:100]))
    c.floor(n, 2, "%s-%s" % (m, s.nm), "outcomes of %s" % m)


def init_state(c, e, f, s, fn, me):
    """The initial state: the initial location with all clock values its invariants allow, if there are any."""
    n = 0
    il = call("get_initial_location", me)
    want = call("apply_invariants", some(il), call("init", ("arg", "dim")))
    for t, k in outcomes(e, f):
        for a, ka in expand(e, t, k):
            n += 1
            kn = plain(ka)
            if a[0] == "agg" and a[2] == "Some":
                st = a[3][0][1]
                d = dict(st[3]) if st[0] == "agg" else {}
                loc = d.get("decorated_locations")
                z = [v for kk, v in d.items() if kk != "decorated_locations"]
                if not c.oblige(loc is not None and len(z) == 1, "state-" + s.nm, fn, "the initial state is " + show(st)[:150]):
                    continue
                zz = z[0]
                while zz[0] == "agg" and len(zz[3]) == 1:
                    zz = zz[3][0][1]
                c.oblige(sites(loc) == some(il), "state-loc-" + s.nm, fn, "the location of the initial state is " + show(loc)[:150])
                c.oblige(sites(zz) == want, "state-zone-" + s.nm, fn, "the zone of the initial state is " + show(zz)[:150])
                c.oblige(("is", call("is_empty", want), False) in kn, "state-nonempty-" + s.nm, fn, "an initial state may be empty")
            else:
                c.oblige(("is", call("is_empty", want), True) in kn or known(kn, il, "None", "Some"), "state-none-" + s.nm, fn,
                         "a system with a non-empty initial state has none")
    c.floor(n, 2, "state-" + s.nm, "outcomes of the initial state")


def finds(e, t, k, coll, ident):
    """t is the element of coll whose id is ident, or nothing."""
    x = sites(t)
    while x[0] == "call" and x[1] in ("cloned", "copied", "clone"):
        x = x[2][0]
    if x[0] == "call" and x[1] == "find" and len(t_args(t)) == 2:
        base_, cl = find_args(t)
        b = base_
        if sites(strip_iter(b)) != coll:
            return False
        el = e.elem(b)
        want = {frozenset((sites(fld(el, "id")), ident))}
        for val in (True, False):
            for kk in truth_cases(e, e.apply(cl, [el], t[3]), val):
                q = equalities(kk)
                if not {frozenset(sites(y) for y in z) for z in q[val]} & want:
                    return False
        return True
    if x[0] == "agg" and x[2] == "Some":
        y = x[3][0][1]
        if y[0] == "elem" and sites(strip_iter(y[1])) == coll or y == ("elem", coll):
            return frozenset((fld(y, "id"), ident)) in {frozenset(sites(z) for z in w) for w in equalities(k)[True]}
        return False
    if x[0] == "agg" and x[2] == "None":
        return any(a[0] == "forall" and sites(strip_iter(a[1])) == coll for a in k) or any(
            a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "next" for a in k)
    return False


def t_args(t):
    while t[0] == "call" and cname(t) in ("cloned", "copied", "clone"):
        t = t[2][0]
    return t[2]


def find_args(t):
    return t_args(t)


def strip_iter(t):
    while t[0] == "call" and cname(t) in ("iter", "into_iter", "cloned", "by_ref"):
        t = t[2][0]
    return t
