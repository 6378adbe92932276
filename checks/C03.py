from core import *
from zones import *

TITLE = "joint transitions and joint locations combine exactly the parts of both sides"
EXPLAIN = ("The functions that join two transitions or two locations are evaluated at both kinds of composition: what they "
           "return is compared part by part (identifier, guard, target, updates, invariant, kind) with the parts of the "
           "two sides, for every combination of present and absent invariants, and the pairs they are built for are shown "
           "to be all pairs. Location equality, kinds and partial matching are taken at every pair of constructors.")
T = "ModelObjects::transition::Transition"
L = "TransitionSystems::location_tree::LocationTree"
CT = "TransitionSystems::location_tree::CompositionType"
LI = "TransitionSystems::location_id::LocationID"
LT = "ModelObjects::location::LocationType"


def inv_of(e, t, l, r, key, c, fn):
    """The optional zone t is the intersection of the invariants of l and r."""
    n = 0
    for a in ("Some", "None"):
        for b in ("Some", "None"):
            il, ir = fld(l, "invariant"), fld(r, "invariant")
            k0 = e.close(frozenset({("is", il, a), ("is", ir, b)}))
            want = inter(*([some(il)] if a == "Some" else []), *([some(ir)] if b == "Some" else []))
            for z, kz in optzone(e, t, k0):
                if contradicts(kz, il, a) or contradicts(kz, ir, b):
                    continue
                n += 1
                c.oblige(z == want, "%s-invariant" % key, fn,
                         "the invariant of a joint location is %s where the invariants of its sides are %s and %s" % (
                             zshow(z), "present" if a == "Some" else "absent", "present" if b == "Some" else "absent"))
    c.floor(n, 4, key + "-invariant", "cases of the invariant of a joint location")


def contradicts(k, t, v):
    return any((x[0] == "is" and x[1] == t and x[2] in ("Some", "None") and x[2] != v) or
               (x[0] == "isnt" and x[1] == t and x[2] == v) for x in k)


def joint(c, e, t, l, r, kind, key, fn, kindtype=True, inv=True):
    """t is the joint location of l and r."""
    for a, k in expand(e, t):
        if not c.oblige(a[0] == "agg" and a[1] == L, key + "-tree", fn, "a joint location is " + show(a)):
            continue
        d = dict(a[3])
        for i, ki in expand(e, d["id"], k):
            c.oblige(i[0] == "agg" and i[2] == kind and [x for _, x in i[3]] == [fld(l, "id"), fld(r, "id")], key + "-id", fn,
                     "the id of a joint location is " + show(i))
        for s, o in (("left", l), ("right", r)):
            for x, kx in expand(e, d[s], k):
                c.oblige(x[0] == "agg" and x[2] == "Some" and x[3][0][1] == o, key + "-" + s, fn,
                         "the %s side of a joint location is %s" % (s, show(x)))
        if inv:
            inv_of(e, d["invariant"], l, r, key, c, fn)
        else:
            for z, kz in optzone(e, d["invariant"], k):
                c.oblige(z == inter(), key + "-invariant", fn, "the invariant of a quotient location is " + zshow(z))
        ty = d["loc_type"]
        if ty[0] == "call" and ty[1] == LT + "::combine" and set(ty[2]) == {fld(l, "loc_type"), fld(r, "loc_type")}:
            continue
        seen = set()
        for x, kx in expand(e, ty, k):
            both = all(tells(kx, fld(s, "loc_type"), "Initial") for s in (l, r))
            c.oblige(x[0] == "agg" and x[2] in ("Initial", "Normal") and (x[2] != "Initial" or both), key + "-initial", fn,
                     "a joint location is %s though not both of its sides are initial" % show(x))
            seen.add(x[2] if x[0] == "agg" else None)
        c.oblige("Initial" in seen, key + "-initial-some", fn, "no joint location is initial")


def combine(c):
    vs = [v["name"] for v in c.p.adts.get(LT, ())]
    if not c.oblige(bool(vs), "kinds", LT, "the kinds of locations are gone"):
        return
    e0 = fx.Engine(c.p)
    fn = LT + "::combine"
    for a in vs:
        for b in vs:
            e, f = c.entry(fn, (), (e0.mkagg(LT, a, ()), e0.mkagg(LT, b, ())))
            if f is None:
                return
            want = "Initial" if (a, b) == ("Initial", "Initial") else "Normal"
            for t, k in e.returns(f):
                for x, kx in expand(e, t, k):
                    c.oblige(x[0] == "agg" and x[2] == want, "combine-%s-%s" % (a, b), fn,
                             "a location made of a%s %s and a%s %s one is %s" % (
                                 "n" if a[0] in "AIU" else "", a, "n" if b[0] in "AIU" else "", b, show(x)))


def compose(c):
    for kind in ("Conjunction", "Composition"):
        e0 = fx.Engine(c.p)
        v = e0.mkagg(CT, kind, ())
        fn = L + "::compose"
        e, f = c.entry(fn, [LT + "::combine"], (("arg", "left"), ("arg", "right"), v))
        if f is not None:
            joint(c, e, f.ret(), ("arg", "left"), ("arg", "right"), kind, "compose-" + kind, fn)
        fn = T + "::combinations"
        e, f = c.entry(fn, [LT + "::combine"], (("arg", "left"), ("arg", "right"), v))
        if f is None:
            continue
        l, r = ("elem", ("arg", "left")), ("elem", ("arg", "right"))
        its = produced(e, f.ret())
        if not c.oblige(its is not None and len(its) == 1, "pairs-" + kind, fn,
                        "the joint transitions are not built one per pair of transitions"):
            continue
        t, k0, fr, bb = its[0]
        if fr is not None:
            bad = [a for a in e.guards(fr, bb) if a[0] != "did" and not (
                a[1][0] == "call" and (cname(a[1]) == "next" or cname(a[1]) in ("is_empty", "len") and a[1][2][0] in (
                    ("arg", "left"), ("arg", "right")))) and a[1][0] not in ("agg", "k")]
            c.oblige(not bad, "pairs-all-" + kind, fn, "a pair of transitions is combined only if " + "; ".join(
                show(a) for a in bad))
            lv = leaves(e, fr, bb)
            c.oblige(not lv, "pairs-whole-" + kind, fn, "the pairs of transitions are left before all are combined")
        n = 0
        for a, k in expand(e, t, frozenset()):
            if not c.oblige(a[0] == "agg" and a[1] == T, "pair-" + kind, fn, "a joint transition is " + show(a)):
                continue
            n += 1
            d = dict(a[3])
            for i, ki in expand(e, d["id"], k):
                c.oblige(i[0] == "agg" and i[2] == kind and [x for _, x in i[3]] == [fld(l, "id"), fld(r, "id")],
                         "pair-id-" + kind, fn, "the id of a joint transition is " + show(i))
            for z, kz in ground(e, d["guard_zone"], k):
                c.oblige(z == inter(fld(l, "guard_zone"), fld(r, "guard_zone")), "pair-guard-" + kind, fn,
                         "the guard of a joint transition is " + zshow(z))
            joint(c, e, d["target_locations"], fld(l, "target_locations"), fld(r, "target_locations"), kind,
                  "pair-target-" + kind, fn)
            ps = concat(e, d["updates"], e.guards(fr, bb) if fr is not None else frozenset())
            c.oblige(ps is not None and sorted(ps, key=repr) == sorted([fld(l, "updates"), fld(r, "updates")], key=repr),
                     "pair-updates-" + kind, fn, "the updates of a joint transition are %s" % (
                         [show(x) for x in ps] if ps is not None else show(d["updates"])))
        c.floor(n, 1, "pair-" + kind, "joint transitions")
    fn = L + "::merge_as_quotient"
    e, f = c.entry(fn, [LT + "::combine"])
    if f is not None:
        l, r = params(f)
        joint(c, e, f.ret(), l, r, "Quotient", "quotient", fn, inv=False)


def single(c):
    fn = L + "::simple"
    e, f = c.entry(fn, [APPLY])
    if f is not None:
        l, decls = params(f)[:2]
        for a, k in expand(e, f.ret()):
            d = dict(a[3]) if a[0] == "agg" else {}
            i = d.get("id", ("?",))
            c.oblige(i[0] == "agg" and i[2] == "Simple" and i[3][0][1] == fld(l, "id"), "simple-id", fn,
                     "the id of a location is " + show(i))
            c.oblige(d.get("loc_type") == fld(l, "location_type"), "simple-type", fn, "the kind of a location is changed")
            for v in ("Some", "None"):
                k0 = e.close(frozenset({("is", fld(l, "invariant"), v)}))
                for z, kz in optzone(e, d.get("invariant", ("?",)), k0):
                    want = inter() if v == "None" else ok(call("apply_constraints_to_state", some(fld(l, "invariant")), decls,
                                                               call("universe")))
                    c.oblige(z == want, "simple-invariant", fn, "the invariant of a location is " + zshow(z))
    for nm, sp, ty in (("universal", "Universal", "Universal"), ("error", "Error", "Inconsistent")):
        fn = L + "::" + nm
        e, f = c.entry(fn)
        if f is None:
            continue
        for a, k in expand(e, f.ret()):
            d = dict(a[3]) if a[0] == "agg" else {}
            i = d.get("id", ("?",))
            c.oblige(i[0] == "agg" and i[2] == "Special" and i[3][0][1][0] == "agg" and i[3][0][1][2] == sp, nm + "-id", fn,
                     "the id of the %s location is %s" % (nm, show(i)))
            t = d.get("loc_type", ("?",))
            c.oblige(t[0] == "agg" and t[2] == ty, nm + "-type", fn, "the kind of the %s location is %s" % (nm, show(t)))
            for z, kz in optzone(e, d.get("invariant", ("?",)), k):
                want = inter()
                if nm == "error":
                    x = params(f)[1]
                    want = [call("constrain_eq", call("universe"), x, ("k", 0)),
                            call("constrain_eq_diff", call("universe"), x, ("k", 0), ("k", 0))]
                c.oblige(z in (want if isinstance(want, list) else [want]), nm + "-invariant", fn,
                         "the invariant of the %s location is %s" % (nm, zshow(z)))
    vs = [v["name"] for v in c.p.adts.get(LT, ())]
    ns = [n for n, _ in c.p.adts[L][0]["fields"]]
    e0 = fx.Engine(c.p)
    for nm, v in (("is_initial", "Initial"), ("is_universal", "Universal"), ("is_inconsistent", "Inconsistent")):
        for w in vs:
            s = e0.mkagg(L, None, tuple((n, e0.mkagg(LT, w, ()) if n == "loc_type" else ("arg", "$" + n)) for n in ns))
            e, f = c.entry(L + "::" + nm, (), (s,))
            if f is None:
                break
            for t, k in outcomes(e, f):
                c.oblige(t == ("k", w == v), "%s-%s" % (nm, w), L + "::" + nm, "%s is %s of a location of kind %s" % (
                    nm, show(t), w))


def equal(c):
    fn = [b for b in c.p.bodies if b.endswith("::eq") and b.startswith("<%s as " % L)]
    if not c.oblige(len(fn) == 1, "tree-eq", L, "the equality of locations is gone"):
        return
    e, f = c.entry(fn[0])
    if f is None:
        return
    a, b = params(f)
    n = 0
    for val in (True, False):
        for t, k in e.returns(f):
            for kk in truth_cases(e, t, val, k):
                q = equalities(kk)
                ids = frozenset((fld(a, "id"), fld(b, "id")))
                ty = frozenset((fld(a, "loc_type"), fld(b, "loc_type")))
                n += 1
                if val:
                    c.oblige(ids in q[True], "eq-id", fn[0], "locations with different ids count as equal")
                else:
                    c.oblige(ids in q[False] or ty in q[False], "eq-false", fn[0],
                             "locations with the same id and kind count as different")
    c.floor(n, 2, "eq", "outcomes of the equality of locations")


def partial(c):
    fn = L + "::compare_partial_locations"
    ns = [n for n, _ in c.p.adts[L][0]["fields"]]
    vs = c.p.adts.get(LI)
    e0 = fx.Engine(c.p)

    def tree(v, s):
        i = e0.mkagg(LI, v["name"], tuple((n, ("arg", "$%s%s" % (n, s))) for n, _ in v["fields"]))
        return e0.mkagg(L, None, tuple((n, i if n == "id" else e0.mkagg("std::option::Option", "Some", (("0", (
            "arg", "$%s%s" % (n, s))),)) if n in ("left", "right") else ("arg", "$%s%s" % (n, s))) for n in ns))
    comp = ("Composition", "Conjunction", "Quotient")
    n = 0
    for v in vs:
        for w in vs:
            e, f = c.entry(fn, [fn], (tree(v, "1"), tree(w, "2")))
            if f is None:
                return
            a, b = v["name"], w["name"]
            if "Special" in (a, b) and {a, b} & {"Special", "AnyLocation"} == {a, b}:
                continue
            key = "partial-%s-%s" % (a, b)
            for val in (True, False):
                for t, k in e.returns(f):
                    for kk in truth_cases(e, t, val, k):
                        n += 1
                        rec = {x[1][2][0][1][1:-1]: x[2] for x in kk if x[0] == "is" and x[1][0] == "call" and x[1][1] == fn
                               and x[1][2][0][0] == "arg" and x[1][2][1][0] == "arg" and
                               x[1][2][0][1][:-1] == x[1][2][1][1][:-1] and
                               {x[1][2][0][1][-1], x[1][2][1][1][-1]} == {"1", "2"}}
                        q = equalities(kk)
                        ids = frozenset((("arg", "$01"), ("arg", "$02")))
                        if a == b and a in comp:
                            good = (rec.get("left") is True and rec.get("right") is True) if val else (
                                False in (rec.get("left"), rec.get("right")))
                        elif a == b == "Simple":
                            good = ids in q[val]
                        elif {a, b} <= {"AnyLocation", "Simple"}:
                            good = val
                        else:
                            good = not val
                        c.oblige(good, key, fn, "a location with a %s id %s one with a %s id%s" % (
                            a, "matches" if val else "does not match", b,
                            "" if a == b and a in comp + ("Simple",) else "") + " though the parts say otherwise")
    c.floor(n, 40, "partial", "outcomes of partial location matching")


def run(c):
    combine(c)
    compose(c)
    single(c)
    equal(c)
    partial(c)
