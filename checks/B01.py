from exprs import *
from bounds import states

TITLE = "extrapolation bounds cover every constant a clock is compared with"
EXPLAIN = ("The constant of a constraint is tabulated over all pairs of operand kinds; the bounds of a component, of "
           "compositions, of states and pairs are reconstructed as sets of contributions, with the conditions each is "
           "made under.")
COMP = "ModelObjects::component::Component"
TS = "TransitionSystems::transition_system::TransitionSystem"


def run(c):
    constraints(c)
    constants(c)
    component(c)
    systems(c)
    states(c)
    reach(c)


def component(c):
    m = COMP + "::get_max_bounds"
    gm = BE + "::get_max_constant"
    e, f = c.entry(m, [gm])
    if f is None:
        return
    evs = c.events(e, f)
    me = ("arg", "self")
    calls = {}
    for x in evs:
        if x.name != gm:
            continue
        for a, _ in expand(e, x.args[0]):
            while a[0] == "v" and a[2] == "Some" or a[0] == "elem" and a[1][0] == "f":
                a = a[1]
            for coll, fld, nm in (("edges", "guard", "guards"), ("locations", "invariant", "invariants")):
                if a == ("f", ("elem", ("f", me, coll)), fld):
                    calls.setdefault(nm, []).append((x, a, ("f", me, coll)))
    clocks = ("f", ("f", me, "declarations"), "clocks")
    for nm in ("guards", "invariants"):
        if not c.oblige(nm in calls, nm, "", "the constants in %s do not count" % nm):
            continue
        ok = False
        for x, opt, coll in calls[nm]:
            bad = [a for a in conds(e, x) if not (
                (a[0] in ("is", "isnt") and a[1] == opt) or mentions_coll(a, coll) and is_iter(a) or
                mentions_coll(a, clocks) and is_iter(a))]
            ok = ok or not bad
        c.oblige(ok, nm + "-all", calls[nm][0][0].where, "only the constants of some %s count" % nm)
        x = calls[nm][0][0]
        el = ("elem", clocks)
        got = x.args[1:3]
        c.oblige(all(uses(e, y, lambda z: z == el) or (z_key(y, clocks)) for y in got), nm + "-clock", x.where,
                 "the constants of another clock are taken for its bound")
    for way in ("add_lower", "add_upper"):
        bs = [x for x in evs if last(x.name) == way]
        if not c.oblige(bs, way, "", "no %s bounds are set" % way[4:]):
            continue
        for x in bs:
            bad = [a for a in conds(e, x) if not (mentions_coll(a, clocks) and is_iter(a))]
            c.oblige(not bad, way + "-all", x.where, "some clocks get no %s bound" % way[4:])
            for nm in calls:
                t = calls[nm][0][0].term
                c.oblige(uses(e, x.args[2], lambda z: z == t), way + "-" + nm, x.where,
                         "the %s bound does not depend on %s" % (way[4:], nm))
            c.oblige(not uses(e, x.args[2], lambda z: z[0] == "call" and cname(z) == "min"), way + "-min", x.where,
                     "the smallest constant is taken for a bound")
            c.oblige(uses(e, x.args[1], lambda z: z == ("elem", clocks)), way + "-which", x.where,
                     "the bound is set for another clock")
    for t, k in e.returns(f):
        c.oblige(any(x.args[0] == t for x in evs if last(x.name) == "add_upper"), "component-result", "",
                 "other bounds than those set are returned")


def is_iter(a):
    return a[0] in ("is", "isnt") and a[1][0] == "call" and cname(a[1]) in ("next", "is_empty")


def z_key(y, clocks):
    return fx.mentions(y, clocks)


def systems(c):
    # components
    fid = "<TransitionSystems::compiled_component::CompiledComponent as %s>::get_local_max_bounds" % TS
    e, f = c.entry(fid)
    if f is not None:
        loc = ("arg", f.body.locals[2]["n"])
        some = False
        for t, k in outcomes(e, f):
            for t2, k2 in expand(e, t, k):
                own = uses(e, t2, lambda z: z[0] == "f" and z[2] == "max_bounds")
                spec = all(any(a[0] == "is" and a[1] == ("f", loc, "loc_type") and a[2] in ("Universal", "Inconsistent")
                               for a in k3) for k3 in split(e, k2) if not e.contradict(e.close(k3)))
                some |= own
                c.oblige(own or spec, "leaf", "", "a component's bounds are left out at one of its own locations")
        c.oblige(some, "leaf-own", "", "a component's bounds are never used")
    comp = "TransitionSystems::compiled_component::CompiledComponent::compile_with_actions"
    e, f = c.entry(comp, [COMP + "::get_max_bounds"])
    if f is not None:
        n = 0
        for t, k in outcomes(e, f):
            if not when(k, t, "Ok") or t[0] == "agg" and t[2] == "Err":
                continue
            for z in fx.subterms(t):
                if len(z) == 4 and z[0] == "agg" and any(nm == "max_bounds" for nm, _ in z[3]):
                    n += 1
                    v = dict(z[3])["max_bounds"]
                    c.oblige(v[0] == "call" and v[1] == COMP + "::get_max_bounds" and len(v[2]) == 2 and
                             v[2][0] == ("arg", "component"), "compile", "",
                             "a component is compiled with the bounds %s" % show(v))
        c.floor(n, 1, "compile", "places where a component is compiled")
    # systems with two children
    for fid, nm in (("TransitionSystems::common::<impl %s for T>::get_local_max_bounds" % TS, "composed"),
                    ("<TransitionSystems::quotient::Quotient as %s>::get_local_max_bounds" % TS, "quotient")):
        e, f = c.entry(fid)
        if f is None:
            continue
        loc = ("arg", f.body.locals[2]["n"])
        n = 0
        for t, k in outcomes(e, f):
            for t2, k2 in expand(e, t, k):
                if nm == "quotient" and all(any(a[0] == "is" and a[1] == ("f", loc, "loc_type") and
                                                a[2] in ("Universal", "Inconsistent") for a in k3)
                                            for k3 in split(e, k2) if not e.contradict(e.close(k3))):
                    continue
                n += 1
                kids = {}
                for x in bound_parts(t2, k2):
                    if x[0] == "call" and last(x[1]) == "get_local_max_bounds" and len(x[2]) == 2:
                        s = side(x[2][1], loc)
                        if s:
                            kids.setdefault(s, set()).add(x[2][0])
                c.oblige(set(kids) == {"left", "right"}, nm, "",
                         "the bounds of the %s operand are left out" % " and ".join({"left", "right"} - set(kids)))
                if set(kids) == {"left", "right"}:
                    c.oblige(not kids["left"] & kids["right"], nm + "-kids", "",
                             "both operands' bounds come from the same system")
                    for s, i in (("left", "0"), ("right", "1")):
                        for ch in kids[s]:
                            c.oblige(child(ch, s, i), nm + "-" + s, "",
                                     "the bounds at the %s location are taken from %s" % (s, show(ch)))
        c.floor(n, 1, nm, "ways to bound a %s system" % nm)


def child(t, s, i):
    if t[0] == "f" and t[2] == i and t[1][0] == "call" and last(t[1][1]) == "get_children":
        return True
    return t[0] == "f" and t[1] == ("arg", "self") and t[2] == {"left": "T", "right": "S"}[s] or \
        t[0] == "f" and t[1] == ("arg", "self") and t[2] == s


def side(t, loc):
    while t[0] == "v" and t[2] == "Some" or t[0] == "call" and cname(t) in ("unwrap", "as_ref", "deref", "expect"):
        t = t[1] if t[0] == "v" else t[2][0]
    if t[0] == "f" and t[1] == loc and t[2] in ("left", "right"):
        return t[2]
    if t[0] == "call" and last(t[1]) in ("get_left", "get_right") and t[2] == (loc,):
        return last(t[1])[4:]
    return None


def reach(c):
    # the target of a reachability query counts as well
    fid = "System::reachability::reachability_search"
    e, f = c.entry(fid)
    if f is None:
        return
    end = ("arg", f.body.locals[2]["n"])
    xs = [x for x in c.events(e, f) if last(x.name).startswith("extrapolate_max_bounds") and len(x.args) == 2 and
          zone_owner(x.args[0]) is not None]
    c.floor(len(xs), 1, "reach", "extrapolations in reachability")
    for x in xs:
        have = bound_parts(x.args[1], x.K)
        c.oblige(any(y[0] == "call" and cname(y) == "get_bounds" and zone_owner(y[2][0]) == end for y in have),
                 "reach-target", x.where, "the constants of the target are not kept by the extrapolation")
        own = zone_owner(x.args[0])
        c.oblige(any(y[0] == "call" and last(y[1]) == "get_local_max_bounds" and
                     y[2][1] == ("f", own, "decorated_locations") for y in have), "reach-own", x.where,
                 "a state is extrapolated with the bounds of other locations")
