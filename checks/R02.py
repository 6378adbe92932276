from refinement import *
from bounds import states

TITLE = "successor pairs in refinement are built, bounded and queued without loss"
EXPLAIN = ("For each direction the zone given to a successor pair is reconstructed as a term and must be both guards, "
           "both updates, delay, both (moved) locations' invariants in that order; the path that queues it must "
           "establish the cut-delay inclusion of the left invariants, extrapolation before the seen-test, and no "
           "condition other than emptiness or an earlier subsuming pair may prevent queuing.")


def peel(t, name, n=None):
    """t = name(x1, name(x2, ... rest)): ([x1, x2..], rest)."""
    xs = []
    while t[0] == "call" and cname(t) == name and len(t[2]) == 2 and (n is None or len(xs) < n):
        xs.append(t[2][0])
        t = t[2][1]
    return xs, t


def shape(s, z):
    """(invariant locations, updating transitions, guarding transitions) or None."""
    inv, r = peel(z, "apply_invariants")
    if not (r[0] == "call" and cname(r) == "up"):
        return None
    upd, r = peel(r[2][0], "apply_updates")
    gua, r = peel(r, "apply_guards")
    if zone_owner(r) != s.P:
        return None
    return inv, upd, gua


def stored(x):
    """(object, zone) when the event gives a state pair its zone."""
    if x.name == "@store" and x.args[0][0] == "f" and x.args[0][2] == "zone_sentinel":
        v = x.args[1]
        if v[0] == "agg" and v[2] == "Some":
            return x.args[0][1], v[3][0][1]
    return None


def run(c):
    states(c, "StatePair")
    s = model(c)
    if s is None:
        return
    e = s.e
    where = "src/System/refine.rs"
    puts = [x for x in s.ev if last(x.name) == "put" and x.args and x.args[0] == s.wl]
    stores = [(x,) + stored(x) for x in s.ev if stored(x)]
    for d, sa, la, ca, nm, sb, lb in (
            ("output", S1, s.loc1, s.out1, "next_outputs", S2, s.loc2),
            ("input", S2, s.loc2, s.in2, "next_inputs", S1, s.loc1)):
        def leads(t):
            r = match(El(Cl(nm + "|next_transitions", sa, la, El(ca))), t)
            return r is not None
        mine = []
        for x, o, z in stores:
            if any(leads(y) for y in subterms(z)) and o == s.P:
                mine.append((x, z))
        c.floor(len(mine), 1, d + "-store", "zones given to successor pairs of %ss" % d)
        for x, z in mine:
            sh = shape(s, z)
            if not c.oblige(sh is not None, d + "-zone", x.where,
                            "the successor zone is not guards, updates, delay, invariants of the current zone"):
                continue
            inv, upd, gua = sh
            L = [t for t in gua if leads(t)]
            R = [t for t in gua if not leads(t)]
            ok = len(gua) == 2 and len(L) == 1 and len(R) == 1
            c.oblige(ok, d + "-guards", x.where, "the guards of exactly the two matched transitions must be applied")
            c.oblige(sorted(upd, key=repr) == sorted(gua, key=repr), d + "-updates", x.where,
                     "the updates of exactly the two matched transitions must be applied")
            c.oblige(sorted(inv, key=repr) == sorted([s.loc1, s.loc2], key=repr), d + "-invariants", x.where,
                     "the invariants of both target locations must be applied")
            if not ok:
                continue
            L, R = L[0], R[0]
            # the invariants are those of the locations moved to
            for y in s.ev:
                if last(y.name) == "apply_invariants" and len(y.args) == 2 and any(q == L for q in subterms(y.args[1])):
                    loc = y.args[0]
                    tr = L if loc == la else R if loc == lb else None
                    c.oblige(tr is not None and did(y.K, "move_locations", tr, loc), d + "-moved", y.where,
                             "invariants are taken from a location that was not moved by its own transition")
            moves = [y for y in s.ev if last(y.name) == "move_locations" and (y.args[0] in (L, R))]
            for y in moves:
                c.oblige(y.args[1] == (la if y.args[0] == L else lb), d + "-move-side", y.where,
                         "a transition moves the location of the other side")
            # queuing
            q = [p for p in puts if any(z == a[1][2][0] or z in list(subterms(a[1])) for a in p.K if a[0] == "is"
                                        and a[1][0] == "call") or
                 any(leads(y) for a in p.K if a[0] == "is" for y in subterms(a[1]))]
            q = [p for p in q if any(leads(y) and True for a in p.K if a[0] == "is" and
                                     match(Cl("is_empty", ANY), a[1]) is not None for y in subterms(a[1]))
                 and not other_dir(s, p, nm)]
            c.floor(len(q), 1, d + "-queue", "places that queue a successor pair")
            base = [y for y in s.ev if last(y.name) == "apply_guards" and y.args[0] in (L, R)]
            base.sort(key=lambda y: len(y.K))
            for p in q:
                sp = Cl("subset_eq", V("s"), Cl("down", V("z")))
                good = False
                for r in atoms(p.K, "is", sp, True):
                    si, su = peel(r["s"], "apply_invariants")
                    zi, zu = peel(r["z"], "apply_invariants")
                    if si == [s.loc1] and sorted(zi, key=repr) == sorted([s.loc1, s.loc2], key=repr) and su == zu:
                        good = True
                c.oblige(good, d + "-cuts-delay", p.where,
                         "a pair is queued without establishing that the right side cuts none of the left side's "
                         "delays")
                c.oblige(did(p.K, "extrapolate_max_bounds", s.P, S1, S2), d + "-extrapolated", p.where,
                         "a pair is queued without extrapolation by both systems' bounds")
                # nothing else decides
                k0 = base[0].K if base else frozenset()
                for a in p.K - k0:
                    if a[0] not in ("is", "isnt"):
                        continue
                    t = a[1]
                    okc = False
                    for pat, val in ((Cl("is_empty", V("z")), False), (Cl("has", ANY, s.P), False), (sp, True),
                                     (Cl("next", ANY), "Some")):
                        r = match(pat, t)
                        if r is not None and (a[2] == val if a[0] == "is" else True):
                            okc = True
                    if t[0] in ("phi", "k") or (t[0] == "call" and cname(t) in ("is_none", "is_some", "branch",
                                                                               "contains")):
                        okc = True
                    c.oblige(okc, d + "-dropped", p.where,
                             "a successor pair is only queued when %s" % show(a)[:200])
            for y in s.ev:
                if last(y.name) == "has" and y.args[-1] == s.P and any(
                        leads(w) for a in y.K if a[0] == "is" for w in subterms(a[1])) and not other_dir(s, y, nm):
                    c.oblige(did(y.K, "extrapolate_max_bounds", s.P, S1, S2), d + "-seen-after-extrapolation", y.where,
                             "the pair is looked up before it is extrapolated")
        # all combinations are built
        for Kk in s.latches:
            for k in foralls(e, Kk, lambda t: match(ca, t) is not None):
                nonempty = [a for a in k if a[0] == "is" and a[2] is False and (
                    (r := match(Cl("is_empty", V("f")), a[1])) is not None) and trans_sources(s, r["f"])]
                cut = [a for a in deep(k) if a[0] == "is" and a[2] is False and
                       match(Cl("subset_eq", ANY, Cl("down", ANY)), a[1]) is not None]
                c.oblige(not cut, d + "-cut-accepted", where,
                         "a pair whose right side cuts a delay of the left side is accepted")
                lists = [a for a in k if a[0] == "forall" and a[2][0] == "forall"]
                if not nonempty:
                    continue
                full = False
                used = []
                for a in k:
                    if a[0] == "is" and (r := match(Or(Cl("is_empty", Cl("subtraction", V("a"), V("b"))),
                                                       Cl("subset_eq", V("a"), V("b"))), a[1])):
                        used.append([trans_sources(s, r["a"]), trans_sources(s, r["b"])])
                for a in lists:
                    l1, l2 = a[1], a[2][1]
                    for x, y in ((l1, l2), (l2, l1)):
                        if [[x], [y]] in used:
                            full = True
                c.oblige(full, d + "-all-pairs", where,
                         "not every combination of a transition and a matching transition is followed")
                for a in lists:
                    for q in e.cases(frozenset([a[2][2]])):
                        cut = [b for b in deep(q) if b[0] == "is" and b[2] is False and
                               match(Cl("subset_eq", ANY, Cl("down", ANY)), b[1]) is not None]
                        c.oblige(not cut, d + "-cut-accepted", where,
                                 "a pair whose right side cuts a delay of the left side is accepted")
    # the initial pair
    i1 = ("v", None, "Some", "0")
    init = [x for x in puts if match(Cl("from_locations", ANY, Pay(Cl("get_initial_location", S1)),
                                        Pay(Cl("get_initial_location", S2))), x.args[1]) is not None]
    c.floor(len(init), 1, "initial", "initial pairs of both systems' initial locations")
    for x in init:
        c.oblige(did(x.K, "extrapolate_max_bounds", x.args[1], S1, S2), "initial-extrapolated", x.where,
                 "the initial pair is not extrapolated")
        zs = [z for y, o, z in stores if o == x.args[1]]
        ok = any(sorted(peel(z, "apply_invariants")[0], key=repr) == sorted(x.args[1][2][1:], key=repr) for z in zs)
        c.oblige(ok, "initial-invariants", x.where, "the initial zone lacks an initial invariant")
        c.oblige(any(a[0] == "is" and a[2] is False and (r := match(Cl("is_empty", V("z")), a[1])) and
                     (zone_owner(r["z"]) == x.args[1] or r["z"] in zs) for a in x.K), "initial-nonempty", x.where,
                 "an empty initial pair is explored")
        ok = False
        for r in atoms(x.K, "is", Cl("subset_eq", V("s"), Cl("down", V("z"))), True):
            si, su = peel(r["s"], "apply_invariants")
            zi, zu = peel(r["z"], "apply_invariants")
            ok |= si == [x.args[1][2][1]] and sorted(zi, key=repr) == sorted(x.args[1][2][1:], key=repr) and su == zu
        c.oblige(ok, "initial-cuts-delay", x.where,
                 "the initial pair is queued without establishing that the right side cuts none of the left side's "
                 "delays")
    # pairs taken are recorded
    for K in s.latches:
        c.oblige(any(a[0] == "did" and last(a[1]) == "put" and a[2][0] != s.wl and a[2][1] == s.P for a in K),
                 "recorded", where, "a pair taken from the work list is not recorded as passed")


def other_dir(s, p, nm):
    o = "next_inputs" if nm == "next_outputs" else "next_outputs"
    return any(match(El(Cl(o, ANY, ANY, ANY)), y) is not None for a in p.K if a[0] == "is" and
               match(Cl("is_empty", ANY), a[1]) is not None for y in subterms(a[1]))


def deep(k):
    for a in k:
        while a[0] == "forall":
            a = a[2]
        yield a
