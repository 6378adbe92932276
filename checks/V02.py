import re

import zones
from tables import *
from core import *

TITLE = "reported states, decisions and edges name what they are, and are read back as they were"
EXPLAIN = ("The functions between the states, transitions and zones the engine works on and their reported form, and back, "
           "are evaluated over compiler MIR for each variant of what they are given; the value built is compared, field by "
           "field, with the one the table of this rule prescribes, and the two directions of a conversion with each other.")
SP = "System::specifics::"
SV = "ProtobufServer::services::"
TS = "TransitionSystems::transition_system::TransitionSystem::"
PRD = "DataReader::proto_reader::"
A = lambda x: ("arg", x)
arg = lambda *xs: lambda V: tuple(A(x) for x in xs)
OPS = ("Conjunction", "Composition", "Quotient", "Refinement")


def run(c):
    convs = [b for b in c.p.bodies if "convert::From<" in b and b.endswith("::from")]
    n = locations(c) + infos(c)
    n += edges(c)
    n += zonesof(c)
    n += display(c)
    n += protos(c, convs)
    n += reader(c, convs)
    c.floor(n, 60, "rows", "cases of conversions")


def one(c, name, key):
    b = c.p.find(name)
    if len(b) != 1:
        c.viol("anchor", key, "%s, which this property is anchored in, is gone" % name)
        return None
    return b[0]


def locations(c):
    """A location is reported part by part, each next to the component it is in."""
    n = 0
    top = SP + "specific_location"
    inner = c.p.find("specific_location::inner")
    rec, info = top, False
    if inner:
        rec, info = inner[0], True
        n += table(c, top, [("it", arg("loc", "sys"), "inner(loc, comp_infos(sys))")], [rec, TS + "comp_infos"])
    nm = last(rec)

    def branch(v):
        def mk(V):
            l = V("LocationID", v, A("l"), A("r"))
            return (l, V("ComponentInfoTree", "Composition", A("il"), A("ir"))) if info else (l, A("sys"))
        w = "SpecificLocation::BranchLocation(%s(l, %%s), %s(r, %%s), SystemType::%s)" % (nm, nm, v)
        return (v, mk, w % (("il", "ir") if info else ("get_children(sys).0", "get_children(sys).1")))

    def simple(V):
        return (V("LocationID", "Simple", A("l")), V("ComponentInfoTree", "Info", A("info"))) if info else (
            V("LocationID", "Simple", A("l")), A("sys"))
    i = "info" if info else "comp_infos(sys).Info.0"
    rows = [branch(v) for v in OPS[:3]]
    rows += [("Simple", simple, "SpecificLocation::ComponentLocation{comp: SpecificComp{id: %s.id, name: %s.name}, location_id: l}" % (i, i)),
             ("Special", lambda V: (V("LocationID", "Special", A("l")), A("infos")), "SpecificLocation::SpecialLocation(l)")]
    n += table(c, rec, rows, [rec, TS + "comp_infos", TS + "get_children"], "location")
    n += table(c, SP + "state_specific_location", [("it", arg("st", "sys"), "specific_location(st.decorated_locations.id, sys)")],
               [top])
    n += table(c, SP + "state_pair_specific_location", [("it", arg("st", "a", "b"), PAIR)], [top])
    return n


PAIR = ("SpecificLocation::BranchLocation(specific_location(st.locations1.id, a), specific_location(st.locations2.id, b), "
        "SystemType::Refinement)")


def infos(c):
    """The components of a system are laid out like its locations."""
    n = table(c, TS + "comp_infos", [("it", arg("sys"), "ComponentInfoTree::Composition(comp_infos(get_children(sys).0), "
                                                         "comp_infos(get_children(sys).1))")],
              [TS + "get_children", TS + "comp_infos"], "infos")
    own = [b for b in c.p.bodies if b.endswith("::comp_infos") and b != TS + "comp_infos"]
    seen = False
    for b in own:
        e, f = c.entry(b, [TS + "get_children", TS + "comp_infos"])
        if f is None:
            continue
        for x, k in answers(e, f):
            t = render(e, x, f)
            if "CompiledComponent" in b:
                seen = True
                c.oblige(t == "ComponentInfoTree::Info(self.comp_info)", "infos-component", "",
                         "the component of a compiled component is %s" % t[:160])
            else:
                sides = [s % (a,) for s in ("comp_infos(%s)",) for a in ("self.left", "self.right")]
                alt = ["comp_infos(get_children(self).0)", "comp_infos(get_children(self).1)"]
                c.oblige(t in ["ComponentInfoTree::Composition(%s)" % ", ".join(s) for s in (sides, alt)],
                         "infos-" + last(b.split("<impl ")[-1].split(" as ")[0].strip("<>")), "",
                         "the components of %s are %s" % (b.split(" as ")[0].strip("<"), t[:160]))
        n += 1
    c.oblige(seen, "infos-component", "", "a compiled component does not say what component it is")
    it = [b for b in c.p.bodies if re.search(r"ComponentInfoTree::<'a>::iter$", b)]
    if it:
        comp = lambda V: (V("ComponentInfoTree", "Composition", A("l"), A("r")),)
        single = lambda V: (V("ComponentInfoTree", "Info", A("i")),)

        def both(e, x, k, f):
            xs = zones.concat(e, x)
            return xs is not None and sorted(render(e, y, f) for y in xs) in (["iter(l)", "iter(r)"], ["l", "r"])
        n += table(c, it[0], [("Composition", comp, both), ("Info", single, ["once(i)", "[i]", "Some(i)"])], it, "infos-all")
    sp = [b for b in c.p.bodies if re.search(r"ComponentInfoTree::<'a>::split$", b)]
    if sp:
        n += table(c, sp[0], [("Composition", lambda V: (V("ComponentInfoTree", "Composition", A("l"), A("r")),), ["(l, r)", "()(l, r)"]),
                              ("Info", lambda V: (V("ComponentInfoTree", "Info", A("i")),), None)], [], "infos-split")
    return n


def edges(c):
    """A transition is reported by the edges it is made of, each with its component."""
    fid = SP + "transition_id_to_specific_edges"
    T = Tables(c)
    n = 0
    opq = [fid, TS + "comp_infos", TS + "get_children", TS + "get_composition_type"]
    part = lambda i: "get_children(sys).%d" % i
    edge = "SpecificEdge{comp: SpecificComp{id: comp_infos(sys).Info.0.id, name: comp_infos(sys).Info.0.name}, edge_id: l}"
    cases = [(v, 2, [("l", part(0)), ("r", part(1))]) for v in ("Conjunction", "Composition")]
    cases += [("Quotient", 2, [("elem(l)", part(0)), ("elem(r)", part(1))]), ("Simple", 1, [(edge, None)]), ("None", 0, [])]
    for v, k, want in cases:
        e0 = fx.Engine(c.p, [])
        try:
            x = T.val(e0, "TransitionID", v, *[A(y) for y in ("l", "r")[:k]])
        except Undecided2:
            return n
        e, f = c.entry(fid, opq, (x, A("sys"), A("edges")))
        if f is None:
            return n
        n += 1
        key = "edges-" + v
        got = []
        for ev in e.events(f):
            nm = last(ev.name)
            sub = ev.name == fid and ev.args[-1] == A("edges")
            if not sub and not (nm in ("push", "push_back", "insert", "extend", "append", "pop", "clear", "truncate", "remove", "retain",
                                       "reverse", "sort", "dedup", "drain", "insert_at", "swap") and ev.args and ev.args[0] == A("edges")):
                continue
            if not sub and nm != "push":
                c.oblige(nm in ("extend", "append"), key, ev.where, "the edges of a transition are changed by %s" % nm)
                raise Undecided("the edges of a transition are collected by %s" % nm)
            el = ev.args[0] if sub else ev.args[1]
            got.append((render(e, el, f), render(e, ev.args[1], f) if sub else None))
            src = el[1] if el[0] == "elem" else None
            lost = [a for a in conds(e, ev) if not (src is not None and mentions_coll(a, src)) and not settled(a)]
            c.oblige(not lost and not [a for _, at in leaves(e, ev.frame, ev.bb) for a in at if not settled(a)], key, ev.where,
                     "the edges of %s are not always reported: only if %s" % (render(e, el, f)[:60], show(lost[0])[:120] if lost else ""))
        c.oblige(got == want, key, "", "the edges of a transition %s are %s, not %s" % (v, got, want))
    dec = SP + "SpecificDecision::from_decision"
    for t in ("Some", "None"):
        def mk(V, t=t):
            d = {"state": A("s"), "action": A("act"), "transition": V("Option", t, A("t")) if t == "Some" else V("Option", t),
                 "next_state": A("nx")}
            ns = [x for x, _ in c.p.adts[T.adt("Simulation::decision::Decision")][0]["fields"]]
            return (V("Simulation::decision::Decision", None, *[d[x] for x in ns]), A("sys"))

        def ok(e, x, k, f, t=t):
            if not (x[0] == "agg" and last(x[1]) == "SpecificDecision"):
                return False
            fs = dict(x[3])
            if [render(e, fs[a], f) for a in ("source_state", "action", "destination_state")] != [
                    "from_state(s, sys)", "act", "from_state(nx, sys)"]:
                return False
            return collected(e, f, fs["edges"], ("t.id", "sys") if t == "Some" else None, fid)
        n += table(c, dec, [(t, mk, ok)], [fid, SP + "SpecificState::from_state"], "decision")
    n += table(c, SP + "SpecificPath::from_path", [("it", arg("p", "sys"), "SpecificPath{path: map(p.path: from_decision(each, sys))}")],
               [dec], "path")
    return n


def settled(a):
    """Whether the system has the kind its transition has, or is made of one component: nothing else is returned from."""
    q = lambda t: t[0] == "call" and cname(t) in ("get_composition_type", "comp_infos")
    return a[0] == "did" or q(a[1]) or a[1][0] == "bin" and a[1][1] in ("Eq", "Ne") and any(
        q(x) and y[0] in ("agg", "k") for x, y in (a[1][2:], a[1][:1:-1]))


def collected(e, f, t, want, fid):
    """The list t is what fid collects, for what is wanted, and nothing else."""
    out = []
    for x, k, env in deep(e, t):
        base = x
        cs = []
        while base[0] == "acc":
            base, more = e.contribs(base)
            cs += more
        if not (base[0] == "call" and cname(base) in ("new", "default", "with_capacity") or base == ("array", ())):
            return False
        out += cs
    evs = [v for v in e.events(f) if v.name == fid]
    if want is None:
        return not evs and not out
    return len(evs) == 1 and tuple(render(e, a, f) for a in evs[0].args[:2]) == want and not [
        a for a in conds(e, evs[0])] and all(op == last(fid) or fid.endswith(op) for op, *_ in out)


def zonesof(c):
    """A zone is reported constraint by constraint, each clock by its name in its component."""
    cm = SP + "specific_clock_comp_map"
    n = 0
    for fid, args, sys, loc, z in (
            ("SpecificState::from_state", ("st", "sys"), {"sys"}, "specific_location(st.decorated_locations.id, sys)", "State::zone_ref"),
            ("SpecificState::from_state_pair", ("st", "a", "b"), {"a", "b"}, PAIR, "StatePair::ref_zone")):
        e, f = c.entry(SP + fid, [SP + "specific_location", cm], tuple(A(x) for x in args))
        if f is None:
            continue
        zb = [b for b in c.p.find(z) if b.startswith("ModelObjects")]
        zone = None
        if zb:
            e2, f2 = c.entry(zb[0], [], (A("st"),))
            zone = {render(e2, x, f2) for x, _ in answers(e2, f2)}
        for x, k in answers(e, f):
            n += 1
            key = last(fid)
            if not c.oblige(x[0] == "agg" and last(x[1]) == "SpecificState", key, "", "%s gives %s" % (fid, show(x)[:120])):
                continue
            fs = dict(x[3])
            c.oblige(render(e, fs["locations"], f) == loc, key + "-location", "",
                     "the locations reported are %s" % render(e, fs["locations"], f)[:200])
            if constraints(c, e, f, fs["constraints"], sys, zone, key):
                n += 1
    e, f = c.entry(cm, [TS + "comp_infos"] + [b for b in c.p.bodies if re.search(r"ComponentInfoTree::<'a>::iter$", b)], (A("sys"),))
    if f is not None:
        s = "elem(comp_infos(sys))"
        cl = "elem(%s.declarations.clocks)" % s
        want = "(%s.1, SpecificClock{comp: SpecificComp{id: %s.id, name: %s.name}, name: %s.0})" % (cl, s, s, cl)
        for t, k in answers(e, f):
            ps = zones.produced(e, t)
            got = None if ps is None else [(render(e, x, f).replace("()(", "(", 1), [a for a in kk if a[0] != "did" and not bare(e, a)])
                                           for x, kk, _, _ in ps]
            c.oblige(got == [(want, [])], "clocks", "", "clocks are named by %s" % str(got)[:300])
            n += 1
    return n


def bare(e, a):
    return a[0] in ("is", "isnt") and a[1][0] == "call" and cname(a[1]) == "next"


def constraints(c, e, f, t, sys, zone, key):
    v = t
    fs = dict(v[3]) if v[0] == "agg" and last(v[1]) == "SpecificDisjunction" else {}
    m = unmap(e, fs["conjunctions"]) if "conjunctions" in fs else None
    if not c.oblige(m, key + "-zone", "", "the zone reported is %s" % render(e, t, f)[:200]):
        return False
    src = render(e, m[0][0], f)
    c.oblige(zone is None or src in {"minimal_constraints(%s).conjunctions" % z for z in zone} and m[0][1] == 1, key + "-zone", "",
             "the zone reported is made of %s" % src[:200])
    conj = m[1]
    fs = dict(conj[3]) if conj[0] == "agg" and last(conj[1]) == "SpecificConjunction" else {}
    m2 = unmap(e, fs["constraints"]) if "constraints" in fs else None
    if not c.oblige(m2 and m2[0][0] == ("f", e.elem(m[0][0]), "constraints"), key + "-conjunction", "",
                    "a conjunction of a zone is reported as %s" % render(e, conj, f)[:200]):
        return False
    el = e.elem(m2[0][0])
    con = m2[1]
    fs = dict(con[3]) if con[0] == "agg" and last(con[1]) == "SpecificConstraint" else {}
    if not c.oblige(set(fs) >= {"i", "j", "strict", "c"}, key + "-constraint", "", "a constraint is reported as %s" % render(e, con, f)[:200]):
        return False
    E = render(e, el, f)
    c.oblige(render(e, fs["strict"], f) == "is_strict(ineq(%s))" % E, key + "-strict", "",
             "a constraint is reported as strict if %s" % render(e, fs["strict"], f)[:160])
    c.oblige(render(e, fs["c"], f) == "bound(ineq(%s))" % E, key + "-bound", "",
             "the bound of a constraint is reported as %s" % render(e, fs["c"], f)[:160])
    for side in ("i", "j"):
        kinds = set()
        clock = ("f", el, side)
        for x, k, _ in deep(e, fs[side]):
            k = e.close(k)
            if x[0] == "never" or e.contradict(k):
                continue
            kk = key + "-clock-" + side
            if not c.oblige(x[0] == "agg" and last(x[1]) == "SpecificClockVar", kk, "",
                            "the clock %s of a constraint is reported as %s" % (side, render(e, x, f)[:160])):
                continue
            kinds.add(x[2])
            zero = zeroness(e, k, clock)
            look = [a for a in k if a[0] == "is" and a[1][0] == "call" and cname(a[1]) in ("get", "get_key_value", "contains_key")
                    and a[1][2][-1] == clock]
            if x[2] == "Zero":
                c.oblige(zero is True, kk, "", "a clock other than the zero clock is reported as the zero clock")
            elif x[2] == "SystemClock":
                c.oblige(zero is False and x[3][0][1] == clock, kk, "", "clock %s of a constraint is reported as clock %s of the system" % (
                    side, render(e, x[3][0][1], f)[:80]))
                c.oblige(any(a[2] in ("None", False) and maps(e, f, a[1][2][0], sys) for a in look), kk, "",
                         "a clock of a component is reported as one of the system")
            elif x[2] == "ComponentClock":
                p = x[3][0][1]
                c.oblige(p[0] == "idx" and p[2] == clock and maps(e, f, p[1], sys), kk, "",
                         "clock %s of a constraint is reported as %s" % (side, render(e, p, f)[:200]))
                c.oblige(zero is not True, kk, "", "the zero clock is reported as a clock of a component")
        c.oblige(kinds == {"Zero", "SystemClock", "ComponentClock"}, key + "-clock-" + side, "",
                 "the clocks of a constraint are only reported as %s" % sorted(map(str, kinds)))
    return True


def zeroness(e, k, t):
    for a in k:
        if a[0] == "is" and a[1] == t and isinstance(a[2], int):
            return a[2] == 0
        if a[0] == "isnt" and a[1] == t and a[2] == 0:
            return False
        if a[0] == "is" and a[1][0] == "bin" and a[1][1] in ("Eq", "Ne", "Gt", "Lt") and set(a[1][2:]) == {t, ("k", 0)} and type(a[2]) is bool:
            op = a[1][1]
            if op == "Gt" and a[1][2] == t or op == "Lt" and a[1][3] == t or op == "Ne":
                return not a[2]
            if op == "Eq":
                return a[2]
    return None


def maps(e, f, m, sys):
    """The map holds the clocks of just these systems."""
    def srcs(t, n=0):
        if n > 6:
            return None
        if t[0] == "acc":
            b, cs = e.contribs(t)
            out = srcs(b, n + 1)
            for op, args, k, w, fr, bb in cs:
                s = srcs(args[-1], n + 1) if op in ("extend", "append") else None
                if s is None or out is None or [a for a in e.guards(fr, bb) if a[0] != "did" and a[1][0] not in ("agg", "k")]:
                    return None
                out = out | s
            return out
        if t[0] == "call":
            if cname(t) == "specific_clock_comp_map":
                return {render(e, t[2][0], f)}
            if cname(t) in ("collect", "into_iter", "iter", "clone") and len(t[2]) == 1:
                return srcs(t[2][0], n + 1)
            if cname(t) == "chain":
                a, b = srcs(t[2][0], n + 1), srcs(t[2][1], n + 1)
                return None if a is None or b is None else a | b
            if cname(t) in ("new", "with_capacity", "default"):
                return set()
        return None
    return srcs(m) == sys


def display(c):
    """States as printed."""
    n = 0
    fn = {x: "<%s%s as std::fmt::Display>::fmt" % (SP, x) for x in ("SpecificLocation", "SpecialLocation", "SpecificState")}
    opq = list(fn.values())
    T = Tables(c)
    sub = lambda s: "{%s}" % s
    cases = [("SpecialLocation", v, (), "[%s]" % v) for v in ("Universal", "Error")]
    cases += [("SpecificLocation", "SpecialLocation", ("x",), "{x}")]
    cases += [("SpecificLocation", "BranchLocation", ("l", "r", op), "({l}%s{r})" % s) for op, s in (
        ("Conjunction", " && "), ("Composition", " || "), ("Quotient", " \\\\ "), ("Refinement", " <= "))]
    for ty, v, xs, want in cases:
        e0 = fx.Engine(c.p, [])
        try:
            t = T.val(e0, ty, v, *[T.val(e0, "SystemType", x) if x in OPS else A(x) for x in xs])
        except Undecided2:
            continue
        n += printed(c, fn[ty], opq, t, want, "%s-%s%s" % (ty, v, "-" + xs[-1] if len(xs) == 3 else ""))
    ns = [x for x, _ in next(v for v in c.p.adts[T.adt("SpecificLocation")] if v["name"] == "ComponentLocation")["fields"]]
    e0 = fx.Engine(c.p, [])
    n += printed(c, fn["SpecificLocation"], opq, T.val(e0, "SpecificLocation", "ComponentLocation", *[A(x) for x in ns]),
                 "{comp.name}.{location_id}", "SpecificLocation-ComponentLocation")
    n += printed(c, fn["SpecificState"], opq, A("st"), "({st.locations})", "SpecificState")
    return n


def printed(c, fid, opq, t, want, key):
    e, f = c.entry(fid, opq, (t, A("fmt")))
    if f is None:
        return 0
    flat = set()
    for k, m in written(e, f, f.args[1]) or []:
        flat.add("".join(x if isinstance(x, str) else "{%s}" % render(e, x[2], f) for x in m))
    c.oblige({re.sub(r"\s+", "", x) for x in flat} == {re.sub(r"\s+", "", want)}, "text-" + key, "",
             "%s is printed as %s, not %s" % (key, sorted(flat)[:2], want))
    return 1


def protos(c, convs):
    n = 0

    def rows(src, dst, rs, key, opq=()):
        fid = conv(c, src, dst)
        return table(c, fid, rs, [x for x in convs if x != fid] + list(opq), key) if fid else 0

    def obj(name, v, **fs):
        """A value with its fields by name."""
        def mk(V):
            adt = Tables(c).adt(name)
            ns = [x for x, _ in next(x for x in c.p.adts[adt] if v is None or x["name"] == v)["fields"]]
            return (V(name, v, *[fs[x](V) if callable(fs.get(x)) else A(x) for x in ns]),)
        return mk
    n += rows(SP + "SpecificState", SV + "State", [("it", obj(SP + "SpecificState", None),
              "State{location_tree: Some(locations), zone: Some(constraints)}")], "proto-state")
    NT = "LocationTree{node_type: Some(NodeType::%s)}"
    pair = lambda op: lambda V: (V("SpecificLocation", "BranchLocation", A("l"), A("r"), V("SystemType", op)),)
    rs = [(op, pair(op), NT % ("BinaryLocationOp(BinaryLocationOperator{left: Some(l), operator: %d, right: Some(r)})" % i))
          for i, op in enumerate(OPS)]
    rs += [(v, lambda V, v=v: (V("SpecificLocation", "SpecialLocation", V("SpecialLocation", v)),), NT % ("SpecialLocation(%d)" % i))
           for i, v in enumerate(("Universal", "Error"))]
    rs += [("Component", obj("SpecificLocation", "ComponentLocation"),
            NT % "LeafLocation(LeafLocation{component_instance: Some(comp), id: location_id})")]
    n += rows(SP + "SpecificLocation", SV + "LocationTree", rs, "proto-location")
    # and back
    node = lambda mk: lambda V: (V("services::LocationTree", None, V("Option", "Some", mk(V))),)
    opt = lambda x: lambda V: V("Option", "Some", A(x))
    opid = [b for b in c.p.bodies if b.endswith("BinaryLocationOperator::operator")]

    def backbranch(op):
        def mk(V):
            b = obj("services::BinaryLocationOperator", None, left=opt("l"), right=opt("r"))(V)[0]
            return V("location_tree::NodeType", "BinaryLocationOp", b)
        def ok(e, x, k, f):
            if not (x[0] == "agg" and x[2] == "BranchLocation"):
                return False
            if [render(e, y, f) for _, y in sorted(x[3])[:2]] != ["l", "r"]:
                return False
            for y, ky, _ in deep(e, dict(x[3])["2"], k):
                ky = e.close(ky)
                if e.contradict(ky) or y[0] == "never":
                    continue
                is_ = {a[2] for a in ky if a[0] == "is" and cname(a[1]) == "operator"} if ky else set()
                isnt = {a[2] for a in ky if a[0] == "isnt" and cname(a[1]) == "operator"}
                if not (y[0] == "agg" and (is_ == {y[2]} or not is_ and isnt | {y[2]} >= set(OPS) and y[2] not in isnt)):
                    return False
            return True
        return ("Branch", node(mk), ok)
    rs = [backbranch(None)]
    rs += [(v, node(lambda V, i=i: V("location_tree::NodeType", "SpecialLocation", ("k", i))),
            "SpecificLocation::SpecialLocation(SpecialLocation::%s)" % v) for i, v in enumerate(("Universal", "Error"))]
    rs += [("Special-unknown", node(lambda V: V("location_tree::NodeType", "SpecialLocation", ("k", 7))), None)]
    rs += [("Leaf", node(lambda V: V("location_tree::NodeType", "LeafLocation", obj("services::LeafLocation", None,
            component_instance=opt("comp"))(V)[0])), "SpecificLocation::ComponentLocation{comp: comp, location_id: id}")]
    n += rows(SV + "LocationTree", SP + "SpecificLocation", rs, "proto-location-back", opid)
    n += rows(SP + "SpecificComp", SV + "ComponentInstance", [("it", obj(SP + "SpecificComp", None),
              "ComponentInstance{component_index: id, component_name: name}")], "proto-component")
    n += rows(SV + "ComponentInstance", SP + "SpecificComp", [("it", obj("services::ComponentInstance", None),
              "SpecificComp{id: component_index, name: component_name}")], "proto-component-back")
    n += rows(SP + "SpecificDisjunction", SV + "Disjunction", [("it", obj(SP + "SpecificDisjunction", None),
              "Disjunction{conjunctions: conjunctions}")], "proto-disjunction")
    n += rows(SP + "SpecificConjunction", SV + "Conjunction", [("it", obj(SP + "SpecificConjunction", None),
              "Conjunction{constraints: constraints}")], "proto-conjunction")
    n += rows(SP + "SpecificConstraint", SV + "Constraint", [("it", obj(SP + "SpecificConstraint", None),
              "Constraint{c: c, strict: strict, x: Some(i), y: Some(j)}")], "proto-constraint")
    one = lambda v, *xs: lambda V: (V("SpecificClockVar", v, *[A(x) for x in xs]),)
    n += rows(SP + "SpecificClockVar", SV + "Clock", [
        ("Zero", one("Zero"), lambda e, x, k, f: re.match(r"^Clock\{clock: Some\(Clock::ZeroClock\(.*\)\)\}$", render(e, x, f)) is not None),
        ("ComponentClock", one("ComponentClock", "x"), "Clock{clock: Some(Clock::ComponentClock(x))}"),
        ("SystemClock", one("SystemClock", "x"), lambda e, x, k, f: re.match(
            r"^Clock\{clock: Some\(Clock::SystemClock\(SystemClock\{clock_index: (try_from\(x\)!|try_into\(x\)!|x)\}\)\)\}$", render(e, x, f)) is not None)],
        "proto-clock")
    n += rows(SP + "SpecificClock", SV + "clock::ComponentClock", [("it", obj(SP + "SpecificClock", None),
              "ComponentClock{clock_name: name, component_instance: Some(comp)}")], "proto-component-clock")
    n += rows(SP + "SpecificDecision", SV + "Decision", [("it", obj(SP + "SpecificDecision", None),
              "Decision{action: action, destination: Some(destination_state), edges: edges, source: Some(source_state)}")],
              "proto-decision")
    n += rows(SP + "SpecificEdge", SV + "Edge", [("it", obj(SP + "SpecificEdge", None),
              "Edge{component_instance: Some(comp), id: edge_id}")], "proto-edge")
    return n


def reader(c, convs):
    """States and decisions sent back by a client."""
    n = 0
    st = PRD + "proto_state_to_state"
    CL = ["TransitionSystems::location_tree::LocationTree::apply_invariants", TS + "construct_location_tree", TS + "get_dim"]
    n += table(c, PRD + "proto_decision_to_decision", [("it", arg("d", "sys"),
               "Decision{action: d.action, next_state: proto_state_to_state(d.destination!, sys), "
               "state: proto_state_to_state(d.source!, sys), transition: None}")], [st])
    zf, tf, cf = (PRD + x for x in ("proto_zone_to_owned_federation", "proto_location_tree_to_location_tree", "proto_constraint_to_constraint"))
    c.memory("State")
    tree = "proto_location_tree_to_location_tree(s.location_tree!, sys)"
    zone = "proto_zone_to_owned_federation(s.zone!, sys)"
    n += table(c, st, [("it", arg("s", "sys"), "State{decorated_locations: %s, zone_sentinel: Some(apply_invariants(%s, %s))}" % (
        tree, tree, zone))], [zf, tf] + CL)
    n += table(c, tf, [("it", arg("l", "sys"), "construct_location_tree(sys, l)!")], convs + CL)
    idx = [b for b in c.p.bodies if b.endswith("Declarations::get_clock_index_by_name")]

    def con(e, x, k, f):
        if not (x[0] == "call" and cname(x) == "new" and len(x[2]) == 3 and "Constraint" in x[1]):
            return False
        for s, y in (("x", x[2][0]), ("y", x[2][1])):
            cl = "c.%s!.clock!" % s
            kinds = set()
            for t, kt, _ in deep(e, y, k):
                kt = e.close(kt)
                if e.contradict(kt) or t[0] in ("never", "failed"):
                    continue
                kd = {a[2] for a in kt if a[0] == "is" and render(e, a[1], f) == cl}
                r = render(e, t, f)
                cc = cl + ".ComponentClock.0"
                if len(kd) != 1:
                    return False
                kd = kd.pop()
                kinds.add(kd)
                if r not in {"ZeroClock": ("0",), "SystemClock": [w % (cl + ".SystemClock.0.clock_index") for w in ("try_into(%s)!", "try_from(%s)!", "%s", "(%s as usize)")],
                             "ComponentClock": ("get_clock_index_by_name(map[%s.component_instance!.component_index].1, %s.clock_name)!" % (cc, cc),)}[kd]:
                    return False
            seen[s] |= kinds
        r = x[2][2]
        if not (r[0] == "call" and cname(r) == "from_inequality"):
            return False
        both = set()
        for t, kt, _ in deep(e, r[2][0], k):
            kt = e.close(kt)
            if e.contradict(kt) or t[0] == "never":
                continue
            sv = {a[2] for a in kt if a[0] == "is" and render(e, a[1], f) == "c.strict"}
            if not (t[0] == "agg" and last(t[1]) == "Inequality" and len(sv) == 1 and render(e, t[3][0][1], f) == "c.c"
                    and t[2] == {True: "LS", False: "LE"}[list(sv)[0]]):
                return False
            both |= sv
        seen["strict"] |= both
        return bool(both)
    seen = {"x": set(), "y": set(), "strict": set()}
    n += table(c, cf, [("it", arg("c", "map"), con)], idx)
    for s, want in (("x", {"ZeroClock", "SystemClock", "ComponentClock"}), ("y", {"ZeroClock", "SystemClock", "ComponentClock"}),
                    ("strict", {True, False})):
        c.oblige(seen[s] == want, "constraint-back-" + s, "", "constraints are only read for %s in %s" % (s, sorted(map(str, seen[s]))))
    e, f = c.entry(zf, [cf] + CL + [TS + "comp_infos"] + [b for b in c.p.bodies if re.search(r"ComponentInfoTree::<'a>::iter$", b)],
                   (A("z"), A("sys")))
    if f is not None:
        for x, k in answers(e, f):
            n += 1
            ok = zoneback(e, f, x)
            t = render(e, x, f)
            c.oblige(ok, "zone-back", "", "the zone of a state sent by a client is %s" % t[:300])
    return n


def zoneback(e, f, x):
    """The disjunction of the conjunctions sent, of all their constraints, in the system's dimension."""
    if not (x[0] == "call" and cname(x) == "from_disjunction" and len(x[2]) == 2 and render(e, x[2][1], f) == "get_dim(sys)"):
        return False
    d = x[2][0]
    m = unmap(e, d[2][0]) if d[0] == "call" and cname(d) == "new" and len(d[2]) == 1 else None
    if not m or render(e, m[0][0], f) != "z.conjunctions":
        return False
    j = m[1]
    m2 = unmap(e, j[2][0]) if j[0] == "call" and cname(j) == "new" and len(j[2]) == 1 else None
    if not m2 or m2[0][0] != ("f", e.elem(m[0][0]), "constraints"):
        return False
    k = m2[1]
    if not (k[0] == "call" and cname(k) == "proto_constraint_to_constraint" and k[2][0] == e.elem(m2[0][0])):
        return False
    ps = zones.produced(e, k[2][1])
    i = "elem(comp_infos(sys))"
    return ps is not None and [render(e, p, f).replace("()(", "(") for p, kk, _, _ in ps] == [
        "(%s.id, (%s.name, %s.declarations))" % (i, i, i)] and all(bare(e, a) for a in ps[0][1] if a[0] != "did")
