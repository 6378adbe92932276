from core import *
from zones import *
import sets
from sets import conj, neg
from systems import *

TITLE = "a compiled component is the component as modelled"
EXPLAIN = ("What compiling a component builds is reconstructed: its action sets and locations as the elements they are "
           "made of with the conditions for it, its transitions as what is stored for which location. The built value is "
           "then passed to its own methods, whose results are compared with the definition on all their paths.")
CC = "TransitionSystems::compiled_component::CompiledComponent"
T = "ModelObjects::transition::Transition"
COMP = "ModelObjects::component::Component"
OPQ = [T + "::from_component_and_edge", L + "::simple", COMP + "::get_max_bounds"]
ME, DIM = ("arg", "component"), ("arg", "dim")
INS, OUTS, INDEX = ("arg", "inputs"), ("arg", "outputs"), ("arg", "index")
LOC, ACT, ID = ("arg", "loc"), ("arg", "action"), ("arg", "id")


def run(c):
    built = build(c)
    if not built:
        return
    e, d, K = built
    contents(c, e, d, K)
    sysm = ("agg", CC, "CompiledComponent", tuple(d.items()))
    moves(c, e, sysm, d)
    methods(c, e, sysm, d)
    actions_of(c)


def unwrap(t):
    while t[0] == "call" and cname(t) in ("from_iter", "collect", "into_iter", "iter", "cloned", "clone") and t[2]:
        t = t[2][0]
    return t


def build(c):
    """compile: when it refuses, and the fields of what it builds."""
    if not whole(c):
        return None
    fn = CC + "::compile_with_actions"
    e, f = c.entry(fn, OPQ, (ME, INS, OUTS, DIM, INDEX))
    if f is None:
        return None
    oks, n = [], 0
    rets = [(t, k) for t, k in e.returns(f)]
    for t, k in rets:
        if t[0] == "agg" and t[2] == "Ok":
            oks.append((t[3][0][1], k))
    if not c.oblige(len(oks) == 1 and oks[0][0][0] == "agg", "built", fn, "a component is compiled in %d ways" % len(oks)):
        return None
    d = dict(oks[0][0][3])
    for nm in ("inputs", "outputs", "locations", "location_edges", "initial_location", "dim"):
        if not c.oblige(nm in d, "built-" + nm, fn, "a compiled component has no " + nm):
            return None
    c.oblige(d["inputs"] == INS and d["outputs"] == OUTS, "built-actions", fn, "a component is compiled with other actions: %s, %s" % (
        show(d["inputs"])[:80], show(d["outputs"])[:80]))
    both = conj(("in", INS), ("in", OUTS))
    for t, k in rets:
        try:
            no, yes = sets.empties(e, k)
        except sets.NoSet as x:
            c.oblige(False, "disjoint", fn, "the condition for compiling a component is not about its actions: %s" % x)
            continue
        n += 1
        if kind(t) == "Ok":
            c.oblige(any(sets.implies(both, y) for y in no), "disjoint", fn,
                     "a component is compiled though an action may be both input and output")
        else:
            c.oblige(any(sets.implies(y, both) for y in yes), "refused", fn,
                     "a component is refused though no action is both input and output: " + show(t)[:150])
    c.floor(n, 2, "compile", "outcomes of compiling a component")
    info = d.get("comp_info")
    if c.oblige(info is not None and info[0] == "agg", "info", fn, "what is kept of the component is " + show(info or ())[:100]):
        i = dict(info[3])
        for nm, w in (("name", fld(ME, "name")), ("declarations", fld(ME, "declarations")), ("id", INDEX)):
            c.oblige(i.get(nm) == w, "info-" + nm, fn, "the %s of a compiled component is %s" % (nm, show(i.get(nm, ()))[:100]))
        c.oblige(any(sites(v) == call("get_max_bounds", ME, DIM) for v in i.values()), "info-bounds", fn,
                 "the bounds of a compiled component are not those of the component: %s" % show(info)[:200])
    c.oblige(d["dim"] == DIM, "dim", fn, "the dimension of a compiled component is " + show(d["dim"]))
    return e, d, (c.events(e, f), f, fn)


def whole(c):
    """compile: the component with the actions of its edges, under the next index."""
    fn = CC + "::compile"
    e, f = c.entry(fn, [CC + "::compile_with_actions"], (ME, DIM, INDEX))
    if f is None:
        return False
    n = 0
    for t, k in outcomes(e, f):
        n += 1
        if not c.oblige(t[0] == "call" and cname(t) == "compile_with_actions" and len(t[2]) == 5, "compiled", fn,
                        "a component is compiled as " + show(t)[:150]):
            return False
        a = t[2]
        c.oblige(a[0] == ME and a[3] == DIM, "compiled-as", fn, "a component is compiled as " + show(t)[:150])
        c.oblige(a[4] == INDEX, "compiled-index", fn, "a component is compiled with the index " + show(a[4])[:100])
        for x, nm, sync in ((a[1], "inputs", "Input"), (a[2], "outputs", "Output")):
            actions(c, e, x, nm, sync, fn)
    c.floor(n, 1, "compiled", "ways a component is compiled")
    ws = [x for x in c.events(e, f) if x.name.startswith("@store") and x.args[0] == INDEX]
    c.oblige(len(ws) >= 1 and all(plus_one(x.args[1]) for x in ws), "index", fn,
             "the next component does not get the next index: %s" % [show(x.args[1])[:60] for x in ws])
    for x in ws:
        c.oblige(every_path(e, f, x, None), "index-always", x.where, "only some components get an index of their own")
    return True


def plus_one(t):
    while t[0] == "f" and t[2] == "0":
        t = t[1]
    return t[0] == "bin" and t[1].startswith("Add") and {t[2], t[3]} == {INDEX, ("k", 1)} or \
        t[0] == "call" and cname(t) in ("wrapping_add", "saturating_add", "checked_add") and set(t[2]) == {INDEX, ("k", 1)}


def contents(c, e, d, K):
    evs, f, fn = K
    locs = produced(e, d["locations"], 0, True)
    n = 0
    for t, k, fr, bb in locs or ():
        n += 1
        v = dict(t[3]) if t[0] == "agg" else {}
        loc = call("simple", ("elem", fld(ME, "locations")), fld(ME, "declarations"), DIM)
        c.oblige(sites(v.get("1", ())) == loc, "location", fn, "a location of a compiled component is " + show(v.get("1", t))[:150])
        c.oblige(sites(v.get("0", ())) in (fld(loc, "id"), simple_id(fld(("elem", fld(ME, "locations")), "id"))), "location-id", fn,
                 "a location is found under " + show(v.get("0", t))[:150])
        c.oblige(not conds_of(k) and (fr is None or not leaves(e, fr, bb)), "location-all", fn, "a location is left out")
    c.floor(n, 1, "locations", "locations of a compiled component")
    # initial location
    t = d["initial_location"]
    n = 0
    for x, k in expand(e, t):
        n += 1
        while x[0] == "call" and cname(x) in ("cloned", "copied", "clone"):
            x = x[2][0]
        if x[0] == "call" and cname(x) == "find" and len(x[2]) == 2:
            el = e.elem(x[2][0])
            good = is_loc(unelem(e, el))
            for val in (True, False):
                for kk in truth_cases(e, e.apply(x[2][1], [el], x[3]), val):
                    good = good and initial(kk, el, val)
            c.oblige(good, "initial", fn, "the initial location is the one with " + show(x[2][1])[:80])
        elif x[0] == "agg" and x[2] == "Some":
            el = x[3][0][1]
            c.oblige(is_loc(unelem(e, el)) and initial(k, el, True), "initial", fn, "the initial location is " + show(el)[:100])
        else:
            c.oblige(x[0] == "agg" and x[2] == "None" and x[0] == "agg", "initial", fn, "the initial location is " + show(x)[:100])
    c.floor(n, 1, "initial", "initial locations")
    stored(c, e, d, evs, f, fn)


def is_loc(el):
    return sites(el) == call("simple", ("elem", fld(ME, "locations")), fld(ME, "declarations"), DIM)


def initial(k, el, val):
    """Conditions k say that the location is (not) an initial one."""
    ty = ("f", el, "loc_type")
    src = ("f", ("elem", fld(ME, "locations")), "location_type")
    for a in k:
        if a[1] in (ty, src) and a[2] == "Initial" and (a[0] == "is") == val:
            return True
        if a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "is_initial" and a[2] is val:
            return True
    for pr in equalities(k)[val]:
        if any(x in (ty, src) for x in pr) and any(x[0] == "agg" and x[2] == "Initial" for x in pr):
            return True
    return False


def simple_id(t):
    return ("agg", "TransitionSystems::location_id::LocationID", "Simple", (("0", t),))


def conds_of(k):
    return [a for a in k if a[0] in ("is", "isnt") and a[1][0] not in ("agg", "k", "phi") and not (
        a[1][0] == "call" and cname(a[1]) in ("next", "branch", "is_disjoint", "map_err", "not_disjoint_IO"))]


def actions(c, e, t, nm, sync, fn):
    its = produced(e, t, 0, True)
    if not c.oblige(bool(its), nm, fn, "the %s of a component are not taken from its edges: %s" % (nm, show(t)[:150])):
        return
    el = ("elem", fld(ME, "edges"))
    for x, k, fr, bb in its:
        c.oblige(x == fld(el, "sync"), nm + "-what", fn, "one of the %s of a component is %s" % (nm, show(x)[:100]))
        ty, star, bad = False, False, []
        for a in k:
            if a[0] not in ("is", "isnt"):
                continue
            u = a[1]
            if u == fld(el, "sync_type"):
                ty = ty or a[0] == "is" and a[2] == sync or a[0] == "isnt" and a[2] in ("Input", "Output") and a[2] != sync
                if a[0] == "is" and a[2] != sync:
                    bad.append(a)
            elif u == fld(el, "sync"):
                star = star or a[0] == "isnt" and a[2] == "*"
                if not (a[0] == "isnt" and a[2] == "*"):
                    bad.append(a)
            elif u[0] == "un" or u[0] == "phi" or u[0] in ("agg", "k"):
                pass
            elif u[0] == "bin" or u[0] == "call" and cname(u) in ("eq", "ne"):
                pass
            elif u[0] == "call" and (cname(u) in ("next", "contains", "insert")):
                pass
            else:
                bad.append(a)
        q = equalities(k)
        for val in (True, False):
            for pr in q[val]:
                if fld(el, "sync_type") in pr:
                    o = [z for z in pr if z != fld(el, "sync_type")]
                    good = o and o[0][0] == "agg" and (o[0][2] == sync) == val
                    ty = ty or good
                    if not good:
                        bad.append(("is", fld(el, "sync_type"), val))
                elif fld(el, "sync") in pr:
                    o = [z for z in pr if z != fld(el, "sync")]
                    good = o and o[0] == ("k", "*") and not val
                    star = star or good
                    if not good:
                        bad.append(("is", fld(el, "sync"), val))
                elif any(uses_term(z, el) for z in pr):
                    bad.append(("is", tuple(pr)[0], val))
        c.oblige(ty, nm + "-direction", fn, "edges of both directions count for the %s of a component" % nm)
        c.oblige(star, nm + "-wildcard", fn, "the wildcard * is one of the %s of a component" % nm)
        c.oblige(not bad, nm + "-all", fn, "an action is left out of the %s unless %s" % (nm, "; ".join(show(a)[:80] for a in bad)))
        if fr is not None:
            c.oblige(not leaves(e, fr, bb), nm + "-whole", fn, "not all edges are looked at for the " + nm)


def stored(c, e, d, evs, f, fn):
    """The transitions kept for each location: those of its edges."""
    el = ("elem", fld(ME, "edges"))
    tr = call("from_component_and_edge", ME, el, DIM)
    src = simple_id(fld(el, "source_location"))
    le = d["location_edges"]
    n = 0
    for x, k, fr, bb in produced(e, le, 0, True) or ():
        # every location starts with its transitions, or with none
        v = dict(x[3]) if x[0] == "agg" else {}
        key, val = v.get("0"), v.get("1")
        loc = call("simple", ("elem", fld(ME, "locations")), fld(ME, "declarations"), DIM)
        keyed = key is not None and sites(unelem(e, key)) in (fld(loc, "id"), simple_id(fld(("elem", fld(ME, "locations")), "id")))
        c.oblige(keyed, "edges-key", fn, "transitions are kept under " + show(key or x)[:100])
        its = produced(e, val) if val is not None else None
        if not c.oblige(its is not None, "edges-start", fn, "the transitions of a location are " + show(val or x)[:100]):
            continue
        for y, ky, fr2, bb2 in its:
            n += 1
            w = dict(y[3]) if y[0] == "agg" else {}
            c.oblige(w.get("0") == fld(el, "sync") and sites(w.get("1", ())) == tr, "edge", fn, "kept for an edge is " + show(y)[:150])
            eqs = {frozenset(sites(z) for z in p) for p in equalities(ky)[True]}
            c.oblige(any((sites(key) in p or sites(unelem(e, key)) in p) and (src in p) for p in eqs) or any(
                p == frozenset((fld(("elem", fld(ME, "locations")), "id"), fld(el, "source_location"))) for p in eqs),
                "edge-source", fn, "a transition is not kept for the location its edge leaves")
    for x in evs:
        if last(x.name) not in ("push", "insert", "push_back") or not uses_term(sites(x.args[-1]), tr):
            continue
        n += 1
        w = x.args[-1]
        w = dict(w[3]) if w[0] == "agg" else {}
        c.oblige(w.get("0") == fld(el, "sync") and sites(w.get("1", ())) == tr, "edge", x.where,
                 "kept for an edge is " + show(x.args[-1])[:150])
        t = x.args[0]
        key = None
        while True:
            if t[0] == "idx":
                key = t[2]
                break
            if t[0] == "v" or t[0] == "f":
                t = t[1]
            elif t[0] == "call" and cname(t) in ("or_default", "or_insert", "or_insert_with", "unwrap", "expect"):
                t = t[2][0]
            elif t[0] == "call" and cname(t) in ("entry", "get_mut"):
                key = t[2][1]
                break
            else:
                break
        c.oblige(key is not None and sites(key) == src, "edge-source", x.where,
                 "a transition is kept for %s instead of the location its edge leaves" % (show(key)[:100] if key else show(x.args[0])[:100]))
        c.oblige(not leaves(e, x.frame, x.bb), "edges-whole", x.where, "not all edges are looked at")
        bad = []
        for kk in e.gcases(x.frame, x.bb):
            for a in kk:
                u = sites(a[1]) if a[0] in ("is", "isnt") else ("k", 0)
                if uses_term(u, fld(ME, "edges")) and not (
                        u[0] == "call" and u[1] == "next" and strip_iter(u[2][0]) == fld(ME, "edges") or
                        u[0] == "call" and u[1] in ("get_mut", "get", "contains_key", "entry") and u[2][1] == src):
                    bad.append(a)
        c.oblige(not bad, "edge-all", x.where, "an edge is left out unless " + "; ".join(show(a)[:80] for a in bad[:2]))
    c.floor(n, 1, "edges", "places where the transition of an edge is kept")


def moves(c, eb, sysm, d):
    fn = public(c, CC, "next_transitions")
    if not c.oblige(fn is not None, "next", CC, "a compiled component has no next_transitions"):
        return
    S = tuple((k, ("arg", "S." + k)) for k in d)
    me = ("agg", CC, "CompiledComponent", S)
    at = dict(S)
    e, f = c.entry(fn, [T + "::without_id", TS + "::actions_contain", TS + "::inputs_contain", TS + "::outputs_contain"], (me, LOC, ACT))
    if f is None:
        return
    lt = fld(LOC, "loc_type")
    key = fld(LOC, "id")
    cells = {("Universal", True): 0, ("Universal", False): 0, ("Inconsistent", True): 0, ("Inconsistent", False): 0,
             ("other", True): 0, ("other", False): 0}
    for t, k in outcomes(e, f):
        kn = plain(k)
        isin = [a[2] for a in kn if a[0] == "is" and a[1][0] == "call" and a[1][1] == "inputs_contain" and a[1][2][1] == ACT]
        isin += [not a[2] for a in kn if a[0] == "is" and a[1][0] == "call" and a[1][1] == "outputs_contain" and a[1][2][1] == ACT]
        for (ty, inp), _ in list(cells.items()):
            if any(x is not inp for x in isin):
                continue
            if any(a[1] == lt and (a[0] == "is" and a[2] != ty or a[0] == "isnt" and a[2] == ty) for a in kn if ty != "other"):
                continue
            if ty == "other" and any(a[1] == lt and a[0] == "is" and a[2] in ("Universal", "Inconsistent") for a in kn):
                continue
            # comparisons with a constant not reduced to a case
            if any(lt in p and any(z[0] == "agg" and z[2] != ty for z in p) for p in equalities(kn)[True]) and ty != "other":
                continue
            if any(lt in p and any(z[0] == "agg" and z[2] == ty for z in p) for p in equalities(kn)[False]):
                continue
            if ty == "other" and any(lt in p and any(z[0] == "agg" and z[2] in ("Universal", "Inconsistent") for z in p)
                                     for p in equalities(kn)[True]):
                continue
            cells[(ty, inp)] += 1
            who = "an %s in %s location" % ("input" if inp else "output", {"other": "an ordinary"}.get(ty, "the %s" % ty.lower()))
            its = produced(e, t)
            loop = ty == "Universal" or ty == "Inconsistent" and inp
            if loop:
                c.oblige(its is not None and len(its) == 1 and sites(its[0][0]) == call("without_id", LOC, at["dim"]) and
                         its[0][2] is None, "next-loop-%s-%d" % (ty, inp), fn, "for %s there is %s instead of a loop" % (who, show(t)[:120]))
                continue
            if not c.oblige(its is not None and len(its) >= 1, "next-%s-%d" % (ty, inp), fn, "for %s there is %s" % (who, show(t)[:120])):
                continue
            for x, kx, fr, bb in its:
                y = sites(x)
                base_ = y[1] if y[0] == "f" and y[2] == "1" else None
                el = base_
                of = el[1] if el is not None and el[0] == "elem" else None
                good = of is not None and of in (("idx", at["location_edges"], key), some(call("get", at["location_edges"], key)),
                                                 call("unwrap_or_default", call("get", at["location_edges"], key)))
                if not c.oblige(good, "next-edges-%s-%d" % (ty, inp), fn, "for %s there is the transition %s" % (who, show(x)[:120])):
                    continue
                eqs = {frozenset(sites(z) for z in p) for p in equalities(kx)[True]}
                c.oblige(frozenset((fld(el, "0"), ACT)) in eqs, "next-action-%s-%d" % (ty, inp), fn,
                         "for %s there is a transition of another action" % who)
                if fr is not None:
                    c.oblige(not leaves(e, fr, bb), "next-whole-%s-%d" % (ty, inp), fn, "for %s not all edges are looked at" % who)
                    cs = e.gcases(fr, bb)
                else:
                    cs = [kx]
                for kk in cs:
                    bad = [a for a in kk if a[0] in ("is", "isnt") and uses_term(sites(a[1]), el) and not (
                        a[1][0] in ("bin", "call", "un") and (frozenset(sites(z) for z in last_pair(a[1])) == frozenset((fld(el, "0"), ACT)))
                        or a[1] == fld(el, "0") or a[1][0] == "phi")]
                    c.oblige(not bad, "next-all-%s-%d" % (ty, inp), fn, "for %s an edge is left out unless %s" % (
                        who, "; ".join(show(a)[:80] for a in bad[:2])))
    for (ty, inp), n in cells.items():
        c.oblige(n >= 1, "next-some-%s-%d" % (ty, inp), fn, "an action has no transitions computed (%s, input %s)" % (ty, inp))


def last_pair(t):
    if t[0] == "un":
        return last_pair(t[2])
    return t[2:4] if t[0] == "bin" else t[2]


def methods(c, eb, sysm, d):
    S = tuple((k, ("arg", "S." + k)) for k in d)
    S = tuple((k, v if k != "comp_info" else ("arg", "S.info")) for k, v in S)
    me = ("agg", CC, "CompiledComponent", S)
    at = dict(S)

    def on(m, args=(), opaque=()):
        fn = public(c, CC, m)
        if not c.oblige(fn is not None, m, CC, "a compiled component has no " + m):
            return None, None, None
        e, f = c.entry(fn, opaque, (me,) + tuple(args))
        return fn, e, f
    for m, w in (("get_input_actions", at["inputs"]), ("get_output_actions", at["outputs"]), ("get_dim", at["dim"]),
                 ("get_initial_location", at["initial_location"])):
        fn, e, f = on(m)
        if f is not None:
            for t, k in outcomes(e, f):
                while t[0] == "call" and cname(t) in ("clone", "cloned"):
                    t = t[2][0]
                c.oblige(t == w, m, fn, "%s of a compiled component is %s" % (m, show(t)[:100]))
    fn, e, f = on("get_actions")
    if f is not None:
        try:
            g = sets.one(e, f.ret())
            want = sets.alt(*[("in", x) for x in (at["inputs"], at["outputs"])])
            vs = sets.variables(g) | sets.variables(want)
            c.oblige(all(sets.value(g, v) == sets.value(want, v) for v in sets.assignments(vs)) if len(vs) < 8 else False,
                     "get_actions", fn, "the actions of a component are not its inputs and outputs")
        except sets.NoSet as x:
            c.oblige(False, "get_actions", fn, "the actions of a component are %s" % x)
    fn, e, f = on("get_location", (ID,))
    if f is not None:
        for t, k in outcomes(e, f):
            for x, kx in expand(e, t, k):
                while x[0] == "call" and cname(x) in ("clone", "cloned"):
                    x = x[2][0]
                x = sites(x)
                g = call("get", at["locations"], ID)
                c.oblige(x == g or x[0] == "agg" and x[2] == "Some" and x[3][0][1] in (some(g), ("idx", at["locations"], ID)) or
                         x[0] == "agg" and x[2] == "None" and known(plain(kx), g, "None", "Some"), "get_location", fn,
                         "the location with an identifier is " + show(x)[:120])
    fn, e, f = on("get_all_locations")
    if f is not None:
        for t, k in outcomes(e, f):
            while t[0] == "call" and cname(t) in ("collect", "cloned", "to_vec", "from_iter", "into_iter", "iter"):
                t = t[2][0]
            its = produced(e, t)
            good = sites(t) == call("values", at["locations"])
            if not good and its:
                good = all(sites(x) in (("elem", call("values", at["locations"])), fld(("elem", at["locations"]), "1")) and
                           not conds_of(k2) and (fr is None or not leaves(e, fr, bb)) for x, k2, fr, bb in its)
            c.oblige(good, "get_all_locations", fn, "the locations of a component are " + show(t)[:120])
    fn, e, f = on("construct_location_tree", (("arg", "target"),), ())
    if f is not None:
        tgt = ("arg", "target")
        name = ("v", tgt, "ComponentLocation", "location_id")
        n = 0
        for t, k in e.returns(f):
            n += 1
            good = False
            for x, kx in expand(e, t, k):
                y = x
                if y[0] == "call" and cname(y) in ("ok_or_else", "ok_or"):
                    y = y[2][0]
                if y[0] == "agg" and y[2] == "Ok":
                    z = y[3][0][1]
                    if z[0] == "v" and z[2] == "Some":
                        z = z[1]
                    elif z[0] == "f" and z[1][0] == "v":
                        z = z[1][1]
                    y = z
                if y[0] == "agg" and y[2] == "Err" or y[0] == "failed":
                    good = True
                    continue
                good = finds(e, y, kx, call("values", at["locations"]), simple_id(name)) or \
                    gets(y, at["locations"], simple_id(name))
                if not good:
                    break
            c.oblige(good, "construct", fn, "the location tree of a named location is " + show(t)[:150])
        c.floor(n, 1, "construct", "outcomes of looking up a named location")
    fn, e, f = on("get_initial_state", (), (APPLY, L + "::apply_invariants"))
    if f is not None:
        init(c, e, f, fn, at)
    for m, h, own in (("check_determinism", "check_determinism", 1), ("check_local_consistency", "is_least_consistent", 1)):
        fn, e, f = on(m, (), ("System::local_consistency::" + h,))
        if f is not None:
            for t, k in outcomes(e, f):
                c.oblige(sites(t) == call(h, me) or t[0] == "call" and cname(t) == h and t[2][0] == me, m, fn,
                         "%s of a component is %s" % (m, show(t)[:120]))
    fn, e, f = on("get_local_max_bounds", (LOC,))
    if f is not None:
        lt = fld(LOC, "loc_type")
        for t, k in [(t, k) for t, k0 in outcomes(e, f) for k in e.cases(k0)]:
            kn = plain(k)
            y = sites(t)
            own = uses_term(y, ("arg", "S.info"))
            special = any(a[1] == lt and a[0] == "is" and a[2] in ("Universal", "Inconsistent") for a in kn) or any(
                lt in p and any(z[0] == "agg" and z[2] in ("Universal", "Inconsistent") for z in p) for p in equalities(kn)[True])
            c.oblige(special or own and y != call("new", at["dim"]), "bounds", fn, "the bounds in a location are " + show(t)[:100])


def gets(t, coll, ident):
    y = sites(t)
    while y[0] == "call" and y[1] in ("cloned", "clone"):
        y = y[2][0]
    return y == call("get", coll, ident) or y == ("idx", coll, ident)


def init(c, e, f, fn, at):
    il = at["initial_location"]
    want = call("apply_invariants", some(il), call("init", at["dim"]))
    n = 0
    for t, k in outcomes(e, f):
        for a, ka in expand(e, t, k):
            n += 1
            kn = plain(ka)
            if a[0] == "agg" and a[2] == "Some":
                st = a[3][0][1]
                dd = dict(st[3]) if st[0] == "agg" else {}
                loc = dd.get("decorated_locations")
                z = [v for kk, v in dd.items() if kk != "decorated_locations"]
                if not c.oblige(loc is not None and len(z) == 1, "state", fn, "the initial state is " + show(st)[:150]):
                    continue
                zz = z[0]
                while zz[0] == "agg" and len(zz[3]) == 1:
                    zz = zz[3][0][1]
                c.oblige(sites(loc) == some(il), "state-loc", fn, "the location of the initial state is " + show(loc)[:150])
                c.oblige(sites(zz) == want, "state-zone", fn, "the zone of the initial state is " + show(zz)[:150])
                c.oblige(("is", call("is_empty", want), False) in kn, "state-nonempty", fn, "an initial state may be empty")
            else:
                c.oblige(("is", call("is_empty", want), True) in kn or known(kn, il, "None", "Some"), "state-none", fn,
                         "a component with a non-empty initial state has none")
    c.floor(n, 2, "state", "outcomes of the initial state")


def actions_of(c):
    """A transition system can do an action exactly if it is in the set."""
    for m, g in (("inputs_contain", "get_input_actions"), ("outputs_contain", "get_output_actions"), ("actions_contain", "get_actions")):
        fn = public(c, CC, m)
        if not c.oblige(fn is not None, m, CC, "no " + m):
            continue
        e, f = c.entry(fn, (), (("arg", "self"), ACT))
        if f is None:
            continue
        for t, k in outcomes(e, f):
            s = call(g, ("arg", "self"))
            c.oblige(sites(t) == call("contains", s, ACT), m, fn, "%s is %s" % (m, show(t)[:100]))
