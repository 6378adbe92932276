import itertools
from core import *
from zones import *
from tables import conv

TITLE = "components become input-enabled without changing what they already do"
EXPLAIN = ("The edges added to a component are reconstructed: one per location and input, looping, with no update, whose "
           "guard must be the location's invariant minus the union, over exactly the location's edges for that input, of "
           "the valuations each of them accepts (normal forms of zones, conditions as truth tables). Every place that "
           "takes in a component is shown to have done this for all its inputs before storing it.")
ME = "System::input_enabler::make_input_enabled"
B = "ModelObjects::Expressions::bool_expression::BoolExpression::"
U = "EdgeEval::updater::CompiledUpdate::"
OPQ = [APPLY, B + "from_disjunction", U + "compile"]


def norm(z):
    """Applying constraints is intersecting with the zone of the constraints."""
    if not isinstance(z, tuple):
        return z
    if len(z) == 3 and z[0] == "call" and z[1] == "universe":
        return call("universe")
    if len(z) == 3 and z[0] == "inter":
        return z
    if len(z) == 2 and z[0] == "inter":
        return inter(*[norm(x) for x in z[1]]) if z[1] else call("universe")
    if len(z) == 4 and z[0] == "v" and z[2] == "Ok" and z[1][0] == "call" and cname(z[1]) == "apply_constraints_to_state" \
            and len(z[1][2]) == 3:
        g, d, r = z[1][2]
        u = call("universe")
        return inter(norm(r), ok(call("apply_constraints_to_state", g, d, u))) if norm(r) != u else ok(
            call("apply_constraints_to_state", g, d, u))
    if len(z) == 5 and z[0] == "fold":
        return ("fold", z[1], z[2], norm(z[3]), frozenset((norm(s), k) for s, k in z[4]))
    return tuple(norm(x) if isinstance(x, tuple) else x for x in z)


def applied(g, d):
    return ok(call("apply_constraints_to_state", g, d, call("universe")))


def run(c):
    c.memory("State")
    enable(c)
    loaders(c)
    actions(c)


def root(t):
    while t[0] in ("f", "v", "idx", "elem"):
        t = t[1]
    return t


def enable(c):
    e, f = c.entry(ME, OPQ)
    if f is None:
        return
    comp, ins = params(f)[:2]
    e.wide_steps = True
    decl = fld(comp, "declarations")
    edges, locs = fld(comp, "edges"), fld(comp, "locations")
    news, loc, inp = [], ("elem", locs), ("elem", ins)
    for x in e.events(f):
        if not x.args or root(x.args[0]) != comp:
            continue
        n = last(x.name)
        if x.name.startswith("@store") or n in fx.MUTDEL:
            c.oblige(False, "component-kept", x.where, "%s of a component is changed while it is made input-enabled" % show(
                x.args[0]))
        elif n in fx.MUTADD and x.args[0][0] == "f":
            c.oblige(x.args[0] == edges and n in ("append", "extend", "push"), "component-kept", x.where,
                     "%s is changed (%s) while a component is made input-enabled" % (show(x.args[0]), n))
            if x.args[0] == edges:
                if n == "push":
                    news.append((x.args[1], x.K, x.frame, x.bb))
                else:
                    c.oblige(not conds(e, x), "edges-added", x.where, "the new edges are only added if " + "; ".join(
                        show(a) for a in conds(e, x))[:200])
                    p = produced(e, x.args[1])
                    if c.oblige(p is not None, "edges-added", x.where, "what is added to the edges is " + show(x.args[1])[:200]):
                        news += p
    for x in e.events(f):
        if last(x.name) in ("universe", "empty", "init", "zero") and "Federation" in x.name:
            d, n = lin(x.args[0])
            c.oblige(n == 1 and d[0] == "call" and cname(d) == "len" and d[2][0] == fld(decl, "clocks"), "dimension", x.where,
                     "a zone has the dimension " + show(x.args[0]))
    if not c.oblige(len(news) == 1, "edges-new", ME, "%d kinds of edges are added where one is expected" % len(news)):
        return
    t, k0, fr, bb = news[0]
    rest = None
    n = 0
    for a, k in expand(e, t, k0):
        if not c.oblige(a[0] == "agg" and a[1].endswith("Edge"), "edge", ME, "a new edge is " + show(a)[:100]):
            continue
        n += 1
        d = dict(a[3])
        for side in ("source_location", "target_location"):
            c.oblige(d[side] == fld(loc, "id"), "edge-" + side[:6], ME, "the %s of a new edge is %s" % (side[:6], show(d[side])))
        for x, _ in expand(e, d["sync_type"], k):
            c.oblige(x[0] == "agg" and x[2] == "Input", "edge-kind", ME, "a new edge is not an input")
        for x, _ in expand(e, d["update"], k):
            c.oblige(x[0] == "agg" and x[2] == "None", "edge-update", ME, "a new edge has the updates " + show(x))
        c.oblige(d["sync"] == inp, "edge-action", ME, "the action of a new edge is " + show(d["sync"]))
        g = d["guard"]
        good = g[0] == "call" and g[1] == B + "from_disjunction" and g[2][1] == fld(decl, "clocks") and g[2][0][0] == "call" \
            and cname(g[2][0]) in ("minimal_constraints", "constraints", "as_disjunction")
        if c.oblige(good, "edge-guard", ME, "the guard of a new edge is " + show(g)[:200]):
            rest = g[2][0][2][0]
    c.floor(n, 1, "edge", "new edges")
    if rest is None:
        return
    # what is left over
    inv = fld(loc, "invariant")
    seen = set()
    unions = set()
    for z, k, _ in at(e, rest, k0, fr, bb):
        some_i, none_i = tells(k, inv, "Some"), tells(k, inv, "None")
        lz = applied(some(inv), decl) if some_i else call("universe")
        seen |= {v for v, b in (("Some", some_i), ("None", none_i)) if b}
        if not c.oblige(z[0] == "call" and z[1] in ("subtraction", "sub") and len(z[2]) == 2 and (some_i or none_i), "left-over", ME,
                        "the guard of a new edge is " + zshow(z)[:300]):
            continue
        c.oblige(norm(z[2][0]) in (lz, inter(lz)), "invariant", ME,
                 "a new edge starts from %s, not from the invariant of its location" % zshow(z[2][0]))
        unions.add(z[2][1])
    c.floor(len(seen), 2, "left-over", "cases of the invariant")
    covered(c, e, fr, bb, rest)
    for u in unions:
        c.oblige(fr is None or fresh(e, u, fr, bb), "union-fresh", ME, "what the edges for one input accept is kept for the next one")
        accepted(c, e, u, comp, loc, inp)


def at(e, t, k, fr, bb):
    if fr is not None:
        return values_at(e, fr, bb, t)
    return [(z, kz, None) for z, kz in forms(e, t, e.close(k)) if not e.contradict(kz)]


def covered(c, e, fr, bb, rest):
    """An edge is added whenever something is left over, for every location and input."""
    bad = []
    for a in e.guards(fr, bb):
        if a[0] == "did" or a[1][0] in ("agg", "k") or a[1][0] == "call" and cname(a[1]) in ("next", "has_next"):
            continue
        if a[0] == "is" and a[2] is False and a[1][0] == "call" and cname(a[1]) == "is_empty" and sites(a[1][2][0]) == sites(rest):
            continue
        a2 = (a[0], a[1][2], not a[2]) if a[1][0] == "un" and a[1][1] == "Not" and isinstance(a[2], bool) else a
        if a2 != a and a2[2] is False and cname(a2[1]) == "is_empty" and sites(a2[1][2][0]) == sites(rest):
            continue
        bad.append(a)
    c.oblige(not bad, "edge-always", ME, "an edge is only added if " + "; ".join(show(a)[:120] for a in bad))
    lv = leaves(e, fr, bb)
    c.oblige(not lv, "edge-all", ME, "the locations or inputs are left before all were looked at")


def accepted(c, e, u, comp, loc, inp):
    """The union of what the edges of a location accept for an input."""
    edges, decl = fld(comp, "edges"), fld(comp, "declarations")
    edge = ("elem", edges)
    parts = []
    if u[0] == "acc":
        b, cs = e.contribs(u)
        c.oblige(b[0] == "call" and cname(b) == "empty", "union-base", ME, "the union of what edges accept starts from " + show(b))
        for op, args, k, w, fr, bb in cs:
            c.oblige(op in ("add_assign", "bitor_assign", "append"), "union", ME, "what edges accept is combined by " + op)
            c.oblige(not leaves(e, fr, bb), "union-all", ME, "the edges are left before all were looked at")
            parts.append((args[-1], e.gcases(fr, bb), fr, bb))
    elif u[0] == "fold":
        for s, k in u[4]:
            o = None
            if s[0] == "call" and s[1] in ("union", "add") and HOLE in s[2] and len(s[2]) == 2:
                o = s[2][1] if s[2][0] == HOLE else s[2][0]
            elif s[0] == "bin" and s[1] in ("Add", "BitOr") and HOLE in s[2:]:
                o = s[3] if s[2] == HOLE else s[2]
            if c.oblige(o is not None, "union", ME, "what edges accept is combined as " + zshow(s)[:200]):
                parts.append((o, [k], None, None))
        c.oblige(u[3] in (call("empty"),) or u[3][0] == "call" and u[3][1] == "empty", "union-base", ME,
                 "the union of what edges accept starts from " + zshow(u[3]))
    else:
        src = fed_sources(e, u)
        if not c.oblige(src is not None, "union", ME, "what edges accept is " + zshow(u)[:200]):
            return
        parts = [(x, None, None, None) for x in src]
    ways = []
    for z, cs, fr, bb in parts:
        if cs is None:
            cs = cases_of(e, u)
        ways += [("way", k) for k in (cs if u[0] == "acc" else cases_of(e, u))]
        k0 = frozenset.intersection(*map(frozenset, cs)) if cs else frozenset()
        n = 0
        got = set()
        fs = at(e, z, k0, fr, bb)
        allf = fs if fr is not None else [(x[0], None, None) for x in parts]
        for f, k, _ in fs:
            n += 1
            inv = fld(loc, "invariant")
            if not tells(k, inv, "Some") and not tells(k, inv, "None"):
                # the zone of the invariant was made before: each form has its twin
                if repr(inv) in repr(f):
                    k = k | {("is", inv, "Some")}
                elif any(canon(inter(norm(f), applied(some(inv), decl))) == canon(g) and repr(inv) in repr(g) for g, _, _ in allf):
                    k = k | {("is", inv, "None")}
            want, tl = expected(c, e, k, f, comp, loc, edge, decl)
            got.add(tl)
            c.oblige(want is not None and canon(f) == canon(want), "accepts", ME,
                     "an edge is taken to accept %s instead of guard, invariants and undone updates" % zshow(f)[:400])
        c.floor(n, 1, "accepts", "forms of what an edge accepts")
    conditions(c, e, [k for _, k in ways], comp, loc, inp, edge)


def cases_of(e, u):
    """Filters of an iterator chain as a list of cases."""
    coll = u[1] if u[0] == "fold" else next((t[2][0] for t in fx.subterms(u) if t and t[0] == "call" and len(t) == 4 and cname(t) in (
        "fold", "map", "reduce")), None)
    if coll is None:
        return [frozenset()]
    return e.cases(e.close(frozenset(e.elem_facts(coll))))


def canon(z):
    z = norm(z)
    return renorm2(z)


def renorm2(t):
    if isinstance(t, tuple) and len(t) == 5 and t[0] == "fold":
        return ("fold", t[1], t[2], renorm2(t[3]), frozenset(renorm2(s) for s, k in t[4]))
    if isinstance(t, tuple) and t and t[0] == "inter" and len(t) == 2:
        return inter(*[renorm2(x) for x in t[1]]) if t[1] else call("universe")
    if isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and isinstance(t[1], str):
        return ("call", cname(t), tuple(renorm2(x) for x in t[2]))
    return tuple(renorm2(x) for x in t) if isinstance(t, tuple) else t


def undo(z, u):
    return call("free_clock", call("constrain_eq", z, fld(u, "clock_index"), fld(u, "value")), fld(u, "clock_index"))


def expected(c, e, k, f, comp, loc, edge, decl):
    """What the edge accepts, under what k says is present."""
    # the target location as the code finds it
    tl = None
    for t in fx.subterms(f):
        if t and t[0] == "f" and len(t) == 3 and t[2] == "invariant" and t[1] != loc:
            tl = t[1]
    for a in k:
        if tl is None and a[0] in ("is", "isnt") and a[1][0] == "f" and a[1][2] == "invariant" and a[1][1] != loc:
            tl = a[1][1]
    if not c.oblige(tl is not None and found(e, tl, fld(comp, "locations"), fld(edge, "target_location"), k), "target", ME,
                    "the invariant of the target location is not that of the location the edge names"):
        return None, tl
    z = call("universe")
    for opt, what in ((fld(tl, "invariant"), "target"), (fld(edge, "update"), "update"), (fld(edge, "guard"), "guard"),
                      (fld(loc, "invariant"), "source")):
        s, n = tells(k, opt, "Some"), tells(k, opt, "None")
        if s == n:
            return None, tl
        if n:
            continue
        if what == "update":
            ups = some(opt)
            cu = call("compile", ("elem", ups), decl)
            z = ("fold", ups, -1, z, frozenset({(undo(HOLE, cu), frozenset())}))
        else:
            z = inter(z, applied(some(opt), decl))
    return z, tl


def conditions(c, e, cases, comp, loc, inp, edge):
    """The edges looked at are exactly the inputs of the location for the action."""
    ty, src, sync = fld(edge, "sync_type"), fld(edge, "source_location"), fld(edge, "sync")
    star = ("k", "*")

    def lits(k):
        out = {}
        for a in k:
            if a[0] not in ("is", "isnt"):
                continue
            t, v = a[1], a[2]
            if a[0] == "isnt":
                if isinstance(v, bool):
                    v = not v
                elif t == sync and v == "*":
                    out["star"] = False
                    continue
                elif t == ty:
                    out["input"] = v != "Input" and v != "Output" or v == "Output"
                    continue
                else:
                    if t[0] == "f" and t[2] in ("guard", "update", "invariant"):
                        out[repr(t)] = v == "None"
                    continue
            while t[0] == "un" and t[1] == "Not" and isinstance(v, bool):
                t, v = t[2], not v
            ab = None
            if t[0] == "bin" and t[1] in ("Eq", "Ne"):
                ab, v = {t[2], t[3]}, v if t[1] == "Eq" else not v
            elif t[0] == "call" and cname(t) in ("eq", "ne") and len(t[2]) == 2:
                ab, v = set(t[2]), v if cname(t) == "eq" else not v
            if ab is not None:
                o = ab - {ty, src, sync}
                if ty in ab:
                    x = next(iter(o), None)
                    if x is not None and x[0] == "agg" and x[2] in ("Input", "Output"):
                        out["input"] = v == (x[2] == "Input")
                    else:
                        out["?" + show(t)] = v
                elif src in ab and fld(loc, "id") in ab:
                    out["source"] = v
                elif sync in ab and inp in ab:
                    out["action"] = v
                elif sync in ab and any(x[0] == "k" and x[1] in ("'*'", "*") for x in o):
                    out["star"] = v
                elif any(mentions(x, fld(comp, "locations")) or x[0] in ("k",) for x in o) and not (ab & {ty, src, sync}) and any(
                        x[0] == "call" and cname(x) == "len" for x in o):
                    continue
                else:
                    out["?" + show(t)[:120]] = v
                continue
            if t == ty:
                out["input"] = v == "Input"
            elif t == sync and v == "*":
                out["star"] = True
            elif t[0] == "f" and t[2] in ("guard", "update", "invariant"):
                out[repr(t)] = v == "Some"
            elif t[0] in ("agg", "k", "phi") or t[0] == "call" and cname(t) in ("next", "len", APPLY.split("::")[-1]):
                continue
            elif t[0] == "call" and cname(t) == "is_empty" and v is False:
                continue
            else:
                out["?" + show(t)[:120]] = v
        return out
    full = []
    for k in cases:
        for k2 in e.cases(e.close(frozenset(k))):
            full.append(lits(k2))
    vs = sorted({v for l in full for v in l} | {"input", "source", "action", "star"})
    odd = [v for v in vs if v.startswith("?")]
    if not c.oblige(not odd and len(vs) <= 12, "which-edges", ME, "which edges count for an input depends on " + "; ".join(
            v[1:] for v in odd)):
        return
    for vals in itertools.product((True, False), repeat=len(vs)):
        m = dict(zip(vs, vals))
        if m["action"] and m["star"]:
            continue
        got = any(all(m[v] == x for v, x in l.items()) for l in full)
        want = m["input"] and m["source"] and (m["action"] or m["star"])
        c.oblige(got == want, "which-edges-%s" % "".join("+-"[not m[v]] for v in ("input", "source", "action", "star")), ME,
                 "an edge that is %sa input, %s the location, %sfor the action and %sfor all is %s" % (
                     "" if m["input"] else "not ", "from" if m["source"] else "not from", "" if m["action"] else "not ",
                     "" if m["star"] else "not ", "counted" if got else "not counted"))


CL = "DataReader::component_loader::"
READ = ["DataReader::json_reader::read_json_component", CL + "parse_components_if_some",
        "DataReader::xml_parser::parse_xml_from_file", "ModelObjects::component::Component::get_input_actions", ME]


def loaders(c):
    own = [b for b in c.p.bodies if b.endswith("request_util::get_or_insert_model")]
    vec = conv(c, "Vec<ModelObjects::component::Component>", "ComponentContainer")
    json = "<%sJsonProjectLoader as %sComponentLoader>::get_component" % (CL, CL)
    for key, fid, decl in (("request", own[0] if own else "ProtobufServer::ecdar_requests::request_util::get_or_insert_model", False),
                           ("collection", vec, False), ("json", json, True), ("xml", CL + "XmlProjectLoader::new_loader", True)):
        e, f = c.entry(fid, READ) if fid else (None, None)
        if f is None:
            continue
        evs = e.events(f)
        made = [x for x in evs if last(x.name) == last(ME)]
        c.floor(len(made), 1, key + "-made", "places that make the components of a %s input-enabled" % key)
        objs = {x.args[0] for x in made}
        put = [x for x in evs if last(x.name) in ("insert", "push", "entry") and x.args and any(
            root2(x.args[-1]) == root2(o) and x.args[-1][0] != "f" for o in objs)]
        if not put and made:
            put = gathered(e, f, evs, objs)
        c.floor(len(put), 1, key + "-stored", "places that store the components of a " + key)
        for x in made:
            o, ins = x.args[0], x.args[1]
            if decl:
                ok = ins[0] in ("idx", "v") and any(y == fld(o, "name") for y in fx.subterms(ins)) and any(
                    y and y[0] == "f" and y[2] == "input_actions" for y in fx.subterms(ins))
            else:
                ok = ins[0] == "call" and cname(ins) == "get_input_actions" and ins[2][0] == o
            c.oblige(ok, key + "-inputs", x.where, "a component is made input-enabled for " + show(ins)[:200])
            bad = [a for a in conds(e, x) if not (a[1][0] == "call" and cname(a[1]) in ("next", "get", "contains_key") and
                                                 a[2] in ("Some", False)) and not (a[0] == "isnt" and a[2] == "None")
                   and not (key == "request" and asks_cache(a))]
            c.oblige(not bad, key + "-always", x.where, "a component is made input-enabled only if " + "; ".join(
                show(a)[:150] for a in bad))
        for x in put:
            o = x.args[-1]
            nm = x.args[-2] if len(x.args) > 2 else None
            c.oblige(nm in (fld(o, "name"), None) or key == "json" and nm[0] == "arg", key + "-name", x.where,
                     "a component is stored under the name " + show(nm))
            if not decl:
                good = any(a[0] == "did" and last(a[1]) == last(ME) and a[2][0] == o for a in x.K)
            else:
                good = True
                ps = e.paths(x.frame, upto=x.bb, light=True)
                if ps is None:
                    raise Undecided("the ways to the place where components are stored are too many")
                for P in ps:
                    has = any(a[0] == "is" and a[2] == "Some" and a[1][0] == "call" and cname(a[1]) == "get" and any(
                        y and y[0] == "f" and y[2] == "input_actions" for y in fx.subterms(a[1])) for a in e.close(P[0]))
                    none = any(a[0] in ("is", "isnt") and (a[2] == "None") == (a[0] == "is") and a[1][0] == "call" and
                               cname(a[1]) == "get" for a in e.close(P[0]))
                    did_it = any(last(y.name) == last(ME) and y.args[0] == o for y in P[1])
                    good &= did_it or none and not has
            c.oblige(good, key + "-before", x.where, "a component is stored before it was made input-enabled")



class Put:
    pass


def gathered(e, f, evs, objs):
    """Components stored by collecting pairs of names and components."""
    out = []
    ts = {y for x in evs for a in x.args for y in fx.subterms(a) if y and y[0] in ("call", "acc") and len(y) > 3} | {
        y for t, _ in e.returns(f) for y in fx.subterms(t) if y and y[0] in ("call", "acc") and len(y) > 3}
    for t in ts:
        if t[0] == "call" and cname(t) not in ("map", "collect", "from_iter", "flat_map", "filter_map"):
            continue
        for x, k, fr, bb in produced(e, t) or []:
            if x[0] == "agg" and len(x[3]) == 2 and root2(x[3][1][1]) in {root2(o) for o in objs}:
                p = Put()
                p.args, p.K, p.where, p.frame, p.bb = (None, x[3][0][1], x[3][1][1]), e.close(k), ME, fr, bb
                for m in [y for y in evs if last(y.name) == last(ME)]:
                    ps = e.paths(m.frame) or [(None, ())]
                    if all(any(y.bb == m.bb and last(y.name) == last(ME) for y in P[1]) for P in ps):
                        p.K = p.K | {("did", m.name, m.args)}
                out.append(p)
    return out


def root2(t):
    while t and t[0] == "call" and cname(t) in ("clone", "new", "into", "to_owned") and t[2]:
        t = t[2][0]
    return t


def asks_cache(a):
    """A condition on whether the models of a request are kept already."""
    t = a[1]
    return t[0] == "phi" or any(y and y[0] == "call" and cname(y) in ("get_model", "get", "lock") for y in fx.subterms(t))


def actions(c):
    for nm, kind in (("get_input_actions", "Input"), ("get_output_actions", "Output")):
        fn = "ModelObjects::component::Component::" + nm
        e, f = c.entry(fn)
        if f is None:
            continue
        el = ("elem", fld(SELF, "edges"))
        n = 0
        full = []
        for t, k in e.returns(f):
            its = produced(e, t, dedup=True)
            if not c.oblige(its is not None, nm, fn, "the actions are " + show(t)[:200]):
                continue
            for x, kx, fr, bb in its:
                n += 1
                c.oblige(x == fld(el, "sync"), nm + "-action", fn, "an action is " + show(x))
                cs = e.gcases(fr, bb) if fr is not None else [kx]
                full += [q | kx for q in cs]
                if fr is not None:
                    c.oblige(not leaves(e, fr, bb), nm + "-all", fn, "the edges are left before all were looked at")
        c.floor(n, 1, nm, "actions")
        got = set()
        for k in full:
            for q in e.cases(e.close(frozenset(k))):
                kind_is = star = None
                for a in q:
                    if a[0] not in ("is", "isnt"):
                        continue
                    t, v = a[1], a[2]
                    if t == fld(el, "sync_type"):
                        kind_is = (v == kind) == (a[0] == "is") if a[0] == "is" or v in ("Input", "Output") else None
                    elif t == fld(el, "sync") and v == "*":
                        star = a[0] == "is"
                    elif t[0] == "bin" and t[1] in ("Eq", "Ne") and fld(el, "sync_type") in t[2:] or t[0] == "call" and cname(t) in (
                            "eq", "ne") and fld(el, "sync_type") in t[2] or t[0] in ("k", "agg", "phi") or t[0] == "un" or \
                            t[0] == "call" and cname(t) == "next" or fld(el, "sync") in t[2:]:
                        if t[0] == "bin" and fld(el, "sync") in t[2:] and ("k", "*") in t[2:] and isinstance(v, bool):
                            star = v == (t[1] == "Eq")
                        continue
                    elif a[0] == "isnt" or t[0] == "call" and cname(t) in ("insert", "contains"):
                        continue
                    else:
                        c.oblige(False, nm + "-which", fn, "an action counts only if " + show(a)[:200])
                got.add((kind_is, star))
        c.oblige(got == {(True, False)}, nm + "-which", fn, "the actions are not those of all %s edges other than *" % kind.lower())
