from core import *
from zones import *

TITLE = "taking a transition computes the successor the timed semantics prescribes"
EXPLAIN = ("The zone a transition leaves in a state is brought to a normal form (set of intersected zones, updates as an "
           "ordered fold over the update list, delay) on every path of the step function and compared with the step of "
           "the timed semantics; the same for the weakest precondition of a transition, for transitions compiled from "
           "edges, for the initial zone of a location and for the order on states.")
T = "ModelObjects::transition::Transition"
S = "ModelObjects::state::State"
L = "TransitionSystems::location_tree::LocationTree"


def updates(z, ups, one):
    return ("fold", ups, 1, z, frozenset({(one(HOLE, ("elem", ups)), frozenset())}))


def do(z, u):
    return call("update_clock_val", z, fld(u, "clock_index"), fld(u, "value"))


def undo(z, u):
    return call("free_clock", call("constrain_eq", z, fld(u, "clock_index"), fld(u, "value")), fld(u, "clock_index"))


def with_inv(z, inv, k):
    """The zone cut by an optional invariant; None when it is not known whether there is one."""
    if tells(k, inv, "Some"):
        return inter(z, some(inv))
    if tells(k, inv, "None"):
        return z
    return None


def step(c):
    fn = T + "::use_transition"
    e, f = c.entry(fn)
    if f is None:
        return
    st = ("arg", f.body.locals[2]["n"] or "_2")
    ps = e.paths(f)
    if not c.oblige(ps is not None, "step-paths", fn, "the paths of %s are too many to enumerate" % fn):
        return
    tgt = fld(SELF, "target_locations")
    loc = fld(st, "decorated_locations")
    inv = fld(tgt, "invariant")
    yes = no = 0
    for P in ps:
        evs = P[1]
        zi = [i for i, x in enumerate(evs) if x.name.startswith("@store") and x.args[0] == fld(st, "zone_sentinel")]
        li = [i for i, x in enumerate(evs) if x.name.startswith("@store") and x.args[0] == loc]
        use = [i for i, x in enumerate(evs) if not x.name.startswith("@store") and any(
            mentions(y, fld(loc, "invariant")) for y in x.args)]
        K0 = P[0]
        zones = []
        for x in evs:
            for a in x.args:
                zones += [s[1] for s in subterms(a) if s and s[0] == "v" and s[2] == "Some" and
                          s[1][0] == "call" and cname(s[1]) == "take" and s[1][2] == (fld(st, "zone_sentinel"),)]
        z0 = ground(e, some(zones[0]) if zones else some(fld(st, "zone_sentinel")), frozenset())[0][0]
        guarded = inter(z0, fld(SELF, "guard_zone"))
        upd = updates(guarded, fld(SELF, "updates"), do)
        up = call("up", upd)
        moved = bool(li) and evs[li[-1]].args[1] == tgt
        early = [i for i in use if not li or i < li[0]]
        c.oblige(not early, "step-move-first", fn,
                 "the invariants are applied before the state moves to the target locations")
        sub = lambda t: put(t, loc, tgt) if moved else t
        ret = on_path(e, f, f.ret(), P.blocks)
        for val in (True, False):
            for k in truth_cases(e, ret, val, K0):
                if zi:
                    fin = evs[zi[-1]].args[1]
                else:
                    fin = None
                k = frozenset(sub(a) for a in k)
                empt = {}
                for a in k:
                    if a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "is_empty":
                        for z, kz in ground(e, a[1][2][0], frozenset(), P):
                            kz = e.close(k | frozenset(sub(x) for x in kz))
                            if not e.contradict(kz):
                                empt.setdefault(a[2], []).append((sub(z), kz))
                if val:
                    yes += 1
                    if not c.oblige(fin is not None and fin[0] == "agg" and fin[2] == "Some", "step-stored", fn,
                                    "a successful step leaves no zone in the state"):
                        continue
                    c.oblige(moved, "step-moved", fn, "a successful step does not move to the target locations")
                    for z, kz in ground(e, fin[3][0][1], frozenset(), P):
                        kz = e.close(k | frozenset(sub(x) for x in kz))
                        if e.contradict(kz):
                            continue
                        z = sub(z)
                        want = with_inv(up, inv, kz)
                        c.oblige(want is not None and z == want, "step-zone", fn,
                                 "a step leaves the zone %s instead of guard, updates, delay and target invariant" % zshow(z))
                        c.oblige(any(zz == z for zz, _ in empt.get(False, ())), "step-nonempty", fn,
                                 "a step counts as possible without its resulting zone being non-empty")
                else:
                    no += 1
                    good = [z0, guarded, upd, up] + [inter(up, some(inv))]
                    c.oblige(any(z in good for z, _ in empt.get(True, ())), "step-empty", fn,
                             "a step counts as impossible though nothing on its way is empty (%s)" %
                             ", ".join(zshow(z) for z, _ in empt.get(True, ())))
    c.floor(yes, 1, "step-yes", "successful paths of a step")
    c.floor(no, 2, "step-no", "failing paths of a step")
    fn2 = T + "::use_transition_alt"
    e, f = c.entry(fn2, [fn])
    if f is None:
        return
    st = ("arg", f.body.locals[2]["n"] or "_2")
    for t, k in outcomes(e, f):
        if t[0] == "agg" and t[2] == "None":
            c.oblige(took(k, fn, False), "alt-none", fn2, "a possible step yields no successor")
        else:
            c.oblige(t[0] == "agg" and t[2] == "Some" and took(k, fn, True) and t[3][0][1] == st, "alt-some", fn2,
                     "a successor is yielded that is not the result of a possible step")


def took(k, fn, val):
    return any(a[0] == "is" and a[1][0] == "call" and a[1][1] == fn and a[2] is val for a in k)


def same(c, e, f, want, key, what, k0=frozenset()):
    """Every value the function returns is the zone expected where it is returned."""
    n = 0
    for z, kz, P in values(e, f):
        n += 1
        w = want(kz)
        c.oblige(w is not None and z == w, key, f.body.id, "%s is %s" % (what, zshow(z)))
    c.floor(n, 1, key, "values of " + what)


def preconditions(c):
    for nm, want, what in (
            ("apply_updates", lambda a: lambda k: updates(a[1], fld(a[0], "updates"), do),
             "the zone after the updates of a transition"),
            ("apply_guards", lambda a: lambda k: inter(a[1], fld(a[0], "guard_zone")), "the zone after a guard"),
            ("inverse_apply_updates", lambda a: lambda k: unfold(a[1], fld(a[0], "updates")),
             "the zone before the updates of a transition")):
        e, f = c.entry(T + "::" + nm)
        if f is not None:
            a = [("arg", f.body.locals[i + 1]["n"] or "_%d" % (i + 1)) for i in range(f.body.argc)]
            same(c, e, f, want(a), nm, what)
    e, f = c.entry(T + "::get_allowed_federation")
    if f is not None:
        inv = fld(SELF, "target_locations", "invariant")

        def want(k):
            z = with_inv(call("universe"), inv, k)
            if z is None:
                return None
            return inter(unfold(z, fld(SELF, "updates")), fld(SELF, "guard_zone"))
        same(c, e, f, want, "allowed", "the set of valuations a transition may be taken from")


def unfold(z, ups):
    return ("fold", ups, -1, z, frozenset({(undo(HOLE, ("elem", ups)), frozenset())}))


def compiled(c):
    e, f = c.entry(T + "::combine_edge_guards", [APPLY])
    if f is not None:
        es = ("arg", f.body.locals[1]["n"] or "_1")
        comp, edge = fld(("elem", es), "0"), fld(("elem", es), "1")
        g = fld(edge, "guard")

        def want(k):
            return ("fold", es, 1, call("universe"), frozenset({
                (HOLE, frozenset({("is", g, "None")})),
                (ok(call("apply_constraints_to_state", some(g), fld(comp, "declarations"), HOLE)),
                 frozenset({("is", g, "Some")}))}))
        for z, kz, P in values(e, f):
            if z[0] == "fold":
                z = z[:4] + (frozenset((s, frozenset(a for a in sk if a[1] == g)) for s, sk in z[4]),)
            c.oblige(z == want(kz), "edge-guards", f.body.id,
                     "the joint guard of edges is %s instead of the intersection of every edge's guard" % zshow(z))
    e, f = c.entry(T + "::from_component_and_edge", [APPLY])
    if f is None:
        return
    comp, edge = [("arg", f.body.locals[i + 1]["n"] or "_%d" % (i + 1)) for i in range(2)]
    fn = f.body.id
    n = 0
    for t, k in e.returns(f):
        for a, ka in expand(e, t, k):
            if not c.oblige(a[0] == "agg" and a[1].endswith("Transition"), "edge-transition", fn,
                            "the transition of an edge is " + show(a)):
                continue
            n += 1
            d = dict(a[3])
            g = fld(edge, "guard")
            for z, kz, P in values(e, f, d["guard_zone"]):
                w = (call("universe") if tells(kz, g, "None") else
                     ok(call("apply_constraints_to_state", some(g), fld(comp, "declarations"), call("universe")))
                     if tells(kz, g, "Some") else None)
                c.oblige(z == w, "edge-guard", fn, "the guard of the transition of an edge is " + zshow(z))
            c.oblige(d["id"][0] == "agg" and d["id"][2] == "Simple" and d["id"][3][0][1] == fld(edge, "id"), "edge-id", fn,
                     "the id of the transition of an edge is " + show(d["id"]))
            loc(c, e, d["target_locations"], ka, comp, fld(edge, "target_location"), fn)
            ups(c, e, d["updates"], ka, comp, edge, fn)
    c.floor(n, 1, "edge-transition", "transitions of an edge")


def loc(c, e, t, k, comp, name, fn):
    """The location tree of the location with that name."""
    for a, ka in expand(e, t, k):
        if not c.oblige(a[0] == "agg" and a[1].endswith("LocationTree"), "edge-target", fn,
                        "the target of the transition of an edge is " + show(a)):
            continue
        d = dict(a[3])
        who = d["id"][3][0][1] if d["id"][0] == "agg" and d["id"][2] == "Simple" else None
        l = who[1] if who and who[0] == "f" and who[2] == "id" else None
        if not c.oblige(l is not None and found(e, l, fld(comp, "locations"), name, ka), "edge-target-name", fn,
                        "the target of the transition of an edge is not the location with the name given by the edge, but "
                        + show(d["id"])):
            continue
        c.oblige(d["loc_type"] == fld(l, "location_type"), "edge-target-type", fn,
                 "the target of an edge has the type " + show(d["loc_type"]))
        for x, kx in expand(e, d["invariant"], ka):
            iv = fld(l, "invariant")
            if x[0] == "agg" and x[2] == "None":
                c.oblige(tells(kx, iv, "None"), "edge-target-inv-none", fn, "an invariant of the target of an edge is ignored")
                continue
            z = [y for y, _ in ground(e, x[3][0][1], kx)] if x[0] == "agg" and x[2] == "Some" else [x]
            for y in z:
                c.oblige(y == ok(call("apply_constraints_to_state", some(iv), fld(comp, "declarations"), call("universe"))),
                         "edge-target-inv", fn, "the invariant of the target of an edge is " + zshow(y))


def ups(c, e, t, k, comp, edge, fn):
    """The updates of the edge, compiled, in order."""
    up = fld(edge, "update")
    src = some(up)
    for a, ka in expand(e, t, k):
        cs = None
        if a[0] == "acc":
            b, cs = e.contribs(a)
            c.oblige(cname(b) in ("new", "with_capacity", "default") if b[0] == "call" else False, "edge-updates-base", fn,
                     "the updates of the transition of an edge start from " + show(b))
            cs = [(op, x[-1], kk, fr, bb) for op, x, kk, w, fr, bb in cs]
        elif a[0] == "call" and cname(a) in ("new", "default"):
            c.oblige(tells(ka, up, "None"), "edge-updates-none", fn, "the updates of an edge are dropped")
            continue
        else:
            cs = [("extend", a, ka, None, None)]
        c.oblige(len(cs) == 1, "edge-updates-once", fn, "the updates of an edge are added %d times" % len(cs))
        for op, x, kk, fr, bb in cs:
            if fr is not None:
                bad = [g for g in e.guards(fr, bb) if g[0] != "did" and not mentions(g[1], up) and not
                       mentions(g[1], fld(comp, "locations")) and not (g[1][0] == "call" and cname(g[1]) == "next")]
                c.oblige(not bad, "edge-updates-cond", fn, "the updates of an edge are added only if " + "; ".join(
                    show(g) for g in bad))
            if op in ("push", "push_back"):
                one, coll = x, strip(loop_coll(kk)[0]) if loop_coll(kk) else (None, 0)
            elif op in ("extend", "append") or op == "collect":
                s, d = x, 1
                while s[0] == "call" and cname(s) in ("rev", "collect", "iter", "cloned"):
                    d = -d if cname(s) == "rev" else d
                    s = s[2][0]
                if s[0] == "call" and cname(s) == "map":
                    coll = strip(s[2][0])
                    coll = (coll[0], coll[1] * d)
                    one = e.apply(s[2][1], [("elem", coll[0])], s[3])
                else:
                    one, coll = None, (s, 0)
            else:
                one, coll = None, (None, 0)
            if not c.oblige(coll == (src, 1), "edge-updates-order", fn,
                            "the updates of an edge are not compiled one after the other in their order (%s)" % show(x)):
                continue
            for y, ky in (expand(e, one, frozenset()) if one is not None else [(None, None)]):
                el = ("elem", src)
                d = dict(y[3]) if y is not None and y[0] == "agg" else {}
                ix = d.get("clock_index")
                v = d.get("value")
                c.oblige(ix is not None and ix[0] in ("idx", "v", "call") and mentions(ix, fld(comp, "declarations", "clocks"))
                         and mentions(ix, fld(el, "variable")), "edge-update-clock", fn,
                         "an update of an edge is compiled to the clock " + (show(ix) if ix else "?"))
                c.oblige(v == ("v", fld(el, "expression"), "Int", "0"), "edge-update-value", fn,
                         "an update of an edge is compiled to the value " + (show(v) if v else "?"))


def states(c):
    e, f = c.entry(S + "::from_location")
    if f is not None:
        l, dim = [("arg", f.body.locals[i + 1]["n"] or "_%d" % (i + 1)) for i in range(2)]
        inv = fld(l, "invariant")
        init = call("init", dim)
        n = 0
        for t, k, P in values(e, f):
            emp = {}
            for a in k:
                if a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "is_empty":
                    for z, kz in ground(e, a[1][2][0], k, P):
                        emp.setdefault(a[2], []).append(z)
            n += 1
            if t[0] == "agg" and t[2] == "None":
                c.oblige(any(z in (init, inter(init, some(inv))) for z in emp.get(True, ())), "init-none", f.body.id,
                         "a location has no initial state though its invariant allows the start")
                continue
            s = dict(t[3][0][1][3]) if t[0] == "agg" and t[2] == "Some" and t[3][0][1][0] == "agg" else {}
            zs = s.get("zone_sentinel")
            c.oblige(s.get("decorated_locations") == l, "init-location", f.body.id,
                     "the initial state of a location is in " + show(s.get("decorated_locations") or t))
            if not c.oblige(zs is not None and zs[0] == "agg" and zs[2] == "Some", "init-zone", f.body.id,
                            "the initial state of a location has no zone"):
                continue
            for z, kz in ground(e, zs[3][0][1], k, P):
                w = with_inv(init, inv, kz)
                c.oblige(w is not None and z == w, "init-zone", f.body.id, "the initial zone of a location is " + zshow(z))
                c.oblige(z in emp.get(False, ()), "init-nonempty", f.body.id,
                         "a location whose initial zone is empty has an initial state")
        c.floor(n, 2, "init", "outcomes of the initial state of a location")
    e, f = c.entry(S + "::apply_invariants")
    if f is not None:
        inv = fld(SELF, "decorated_locations", "invariant")
        n = 0
        z0 = ground(e, some(("call", "@take", (fld(SELF, "zone_sentinel"),), None)), frozenset())[0][0]
        for P in e.paths(f) or ():
            st = [x for x in P[1] if x.name.startswith("@store") and x.args[0] == fld(SELF, "zone_sentinel")]
            v = st[-1].args[1] if st else ("never",)
            for z, kz in ground(e, v[3][0][1], P[0], P) if v[0] == "agg" and v[2] == "Some" else [(v, P[0])]:
                n += 1
                w = with_inv(z0, inv, kz)
                c.oblige(w is not None and z == w, "state-invariant", f.body.id,
                         "applying the invariant of a state leaves " + zshow(z))
        c.floor(n, 1, "state-invariant", "zones stored by State::apply_invariants")
    fn = S + "::is_subset_of"
    e, f = c.entry(fn)
    if f is not None:
        o = ("arg", f.body.locals[2]["n"] or "_2")
        z = lambda s: some(fld(s, "zone_sentinel"))
        sub = lambda k, v: any(a[0] == "is" and a[2] is v and a[1][0] == "call" and cname(a[1]) == "subset_eq" and
                               a[1][2] == (z(SELF), z(o)) for a in k)
        ids = lambda s: (fld(s, "decorated_locations", "id"), fld(s, "decorated_locations", "loc_type"),
                         fld(s, "decorated_locations"))
        n = 0
        for t, k in e.returns(f):
            for val in (True, False):
                for kk in truth_cases(e, t, val, k):
                    n += 1
                    eqv = equalities(kk)
                    if val:
                        c.oblige(sub(kk, True), "subset-zone", fn, "a state counts as covered without its zone being a subset")
                        ok_ = any(frozenset((a, b)) in eqv[True] for a, b in zip(ids(SELF)[2:], ids(o)[2:])) or all(
                            frozenset((a, b)) in eqv[True] for a, b in list(zip(ids(SELF), ids(o)))[:1])
                        c.oblige(ok_, "subset-location", fn, "a state counts as covered by one in another location")
                    else:
                        c.oblige(sub(kk, False) or any(frozenset((a, b)) in eqv[False] for a, b in zip(ids(SELF), ids(o))),
                                 "subset-false", fn, "a state is not covered by one in the same location with a larger zone")
        c.floor(n, 2, "subset", "outcomes of the order on states")
    fn = S + "::is_contained_in_list"
    e, f = c.entry(fn, [S + "::is_subset_of"])
    if f is not None:
        ls = ("arg", f.body.locals[2]["n"] or "_2")
        for t, k in e.returns(f):
            for kk in truth_cases(e, t, True, k):
                c.oblige(any(a[0] == "is" and a[2] is True and a[1][0] == "call" and a[1][1] == S + "::is_subset_of" and
                             a[1][2] == (SELF, ("elem", ls)) for a in kk), "contained", fn,
                         "a state counts as contained in a list that has no state covering it")
            for kk in truth_cases(e, t, False, k):
                fa = [a[2] for a in kk if a[0] == "forall" and a[1] == ls]
                c.oblige(any(a[0] == "is" and a[2] is False and a[1][0] == "call" and a[1][1] == S + "::is_subset_of" and
                             a[1][2] == (SELF, ("elem", ls)) for a in fa), "contained-not", fn,
                         "a state counts as new though not every state of the list was compared")


def run(c):
    step(c)
    preconditions(c)
    compiled(c)
    states(c)
