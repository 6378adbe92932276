import fx
import zones
from core import *
from tables import render, unmap
from zones import fld, params

TITLE = "a system saved as one component is that system"
EXPLAIN = ("The component made of a system is read symbolically: its locations, its edges and its clocks, each with the "
           "collections it is made of and the conditions it depends on. One location per location of the system (or per "
           "reachable one: closed under all transitions), one edge per transition of each, one clock per clock, under "
           "different names.")
B = "ModelObjects::Expressions::bool_expression::BoolExpression::"
T = "ModelObjects::transition::Transition::"
COMB = "System::save_component::combine_components"
DISJ, MOVE, UPD = B + "from_disjunction", T + "move_locations", "EdgeEval::updater::CompiledUpdate::as_update"
INIT = "TransitionSystems::location_tree::LocationTree::is_initial"
IN, OUT = "get_input_actions", "get_output_actions"
OPAQUE = [DISJ, MOVE, UPD, INIT]


def run(c):
    c.memory("LocationTree")
    update(c)
    move(c)
    e, f = c.entry(COMB, OPAQUE)
    if f is None:
        return
    m = Merge(c, e, f)
    n = 0
    for t, k in e.returns(f):
        for x, kk in expand(e, t, k):
            if x[0] == "agg":
                n += 1
                m.component(dict(x[3]))
    c.floor(n, 1, "component", "components made of a system")


def update(c):
    e, f = c.entry(UPD, [])
    if f is None:
        return
    me, clocks = (a[1] for a in params(f)[:2])
    ok = "map(%s: ()(each.1, each.0))[%s.clock_index]" % (clocks, me)
    n = 0
    for t, k in e.returns(f):
        for x, _ in expand(e, t, k):
            n += 1
            d = dict(x[3]) if x[0] == "agg" else {}
            nm = render(e, d["variable"]) if "variable" in d else show(x)
            c.oblige(nm == ok or lookup(e, k, d.get("variable"), params(f)[1], fld(params(f)[0], "clock_index")), "update-clock", UPD,
                     "the clock of an update is written as " + nm[:200])
            c.oblige("expression" in d and render(e, d["expression"]) == "ArithExpression::Int(%s.value)" % me, "update-value", UPD,
                     "the value of an update is written as " + show(d.get("expression", x))[:200])
    c.floor(n, 1, "update", "forms of an update")


def lookup(e, k, t, clocks, i):
    """t is the name found for number i among the clocks."""
    el = e.elem(clocks)
    return t == fld(el, "0") and any(
        a[0] == "did" and last(a[1]) == "find" and zones.strip(a[2][0])[0] == clocks and len(a[2]) == 2 and
        zones.eqs(e.apply(a[2][1], [el], None), fld(el, "1"), i) for a in k)


def move(c):
    """A transition moves a location to where it leads."""
    e, f = c.entry(MOVE, [])
    if f is None:
        return
    me, to = params(f)[:2]
    ws = [x for x in e.events(f) if x.name == "@store" and x.args[0] == to or last(x.name) == "clone_from" and x.args[0] == to]
    c.oblige(len(ws) == 1 and ws[0].args[1] == fld(me, "target_locations") and not conds(e, ws[0]), "move", MOVE,
             "the location a transition leads to is " + "; ".join(show(x.args[-1])[:150] for x in ws))


class Merge:
    def __init__(self, c, e, f):
        self.c, self.e, self.f = c, e, f
        self.sys, self.strategy = params(f)[:2]

    def component(self, d):
        e, c = self.e, self.c
        decl = d.get("declarations")
        decl = dict(decl[3]) if decl and decl[0] == "agg" else {}
        self.clocks = decl.get("clocks")
        if not c.oblige(self.clocks is not None and "edges" in d and "locations" in d, "parts", COMB, "the component made has not all parts"):
            return
        self.same = {self.clocks} | {x for x, _, _ in deep(e, self.clocks)}
        self.lists(d["locations"])
        self.names()
        self.locations(d["locations"])
        self.edges(d["edges"])
        self.reached()

    # ---- which conditions are about what
    def outer(self, a):
        """Says nothing about the element at hand: loops, strategy, the presence of an initial location."""
        if a[0] not in ("is", "isnt") or a[1][0] in ("agg", "k"):
            return True
        t = a[1]
        while t[0] == "un" and t[1] == "Not":
            t = t[2]
        if t[0] == "call" and (cname(t) in ("next", "pop", "pop_front") or cname(t) in ("is_none", "is_some") and self.init(t[2][0])):
            return True
        return t == self.strategy or self.init(t)

    def init(self, t):
        return t[0] == "call" and cname(t) == "get_initial_location"

    def under(self, k, strategy):
        return not any(a[1] == self.strategy and (a[2] == strategy) != (a[0] == "is") for a in k if a[0] in ("is", "isnt"))

    def ways(self, x):
        """The ways an element of a collection comes about."""
        _, k, fr, bb = x
        gs = self.e.gcases(fr, bb) if fr is not None else [frozenset()]
        out = []
        for g in gs:
            kk = self.e.close(g | k)
            if self.e.contradict(kk):
                continue
            g = frozenset(a for a in g | (k if fr is None else frozenset()) if a[0] in ("is", "isnt"))
            for w in split(self.e, g) if any(a[1][0] == "phi" for a in g) else [g]:
                kk = self.e.close(w | k)
                if not self.e.contradict(kk):
                    out.append(frozenset(a for a in w if a[0] in ("is", "isnt") and a[1][0] != "phi") | frozenset(
                        a for a in kk if a[0] in ("is", "isnt") and a[1] == self.strategy))
        return out

    # ---- the list of locations
    def lists(self, t):
        self.all = set()
        m = unmap(self.e, t, self.outer)
        if m is not None:
            t = m[0][0]
        while True:
            self.all.add(t)
            if t[0] == "acc":
                t = self.e.contribs(t)[0]
            elif t[0] == "call" and t[2] and cname(t) in ("map", "iter", "into_iter", "cloned", "collect", "filter", "to_vec", "rev"):
                t = t[2][0]
            else:
                break

    def isloc(self, t):
        return t[0] == "elem" and zones.strip(t[1])[0] in self.all

    def locations(self, t):
        e, c = self.e, self.c
        ps = zones.produced(e, t)
        src = unmap(e, t, self.outer)
        if not c.oblige(ps is not None and len(ps) >= 1 and src is not None, "locations", COMB,
                        "the locations are not made of those of the system one by one: " + show(t)[:200]):
            return
        c.oblige(src[0][0] in self.all, "locations-source", COMB, "the locations are made of " + show(src[0][0])[:200])
        kinds = set()
        for p in ps:
            c.oblige(all(self.outer(a) for w in self.ways(p) for a in w), "locations-all", COMB,
                     "a location is left out by a condition")
            for x, k in expand(e, p[0], p[1]):
                d = dict(x[3]) if x[0] == "agg" else {}
                ids = [l for l in [base(d.get("id"))] if l is not None]
                l = ids[0][1] if ids and ids[0][0] == "f" and ids[0][2] == "id" else None
                if not c.oblige(l is not None and self.isloc(l), "location-id", COMB, "a location is called " + show(d.get("id", x))[:200]):
                    continue
                inv = fld(l, "invariant")
                for v, kv, _ in deep(e, d["invariant"], k):
                    has = present(kv, inv)
                    if v[0] == "agg" and v[2] == "None":
                        good = has is False
                    elif v == inv:
                        good = has is False
                    else:
                        while v[0] == "agg" and v[2] == "Some" and v[3][0][1][0] == "v":
                            v = v[3][0][1][1]
                        good = v[0] == "call" and v[1] == DISJ and v[2][1] in self.same and bounds(v[2][0], ("v", inv, "Some", "0"))
                    c.oblige(good, "location-invariant", COMB, "the invariant of a location%s is written as %s" % (
                        "" if has is None else " with one" if has else " with none", show(v)[:200]))
                for v, kv, _ in deep(e, d["location_type"], k):
                    st = None
                    for a in kv:
                        if a[0] in ("is", "isnt"):
                            q, val = a[1], a[2]
                            if q[0] == "call" and q[1] == INIT and q[2][0] == l and isinstance(val, bool):
                                st = val == (a[0] == "is")
                            elif q == fld(l, "loc_type") and val == "Initial":
                                st = a[0] == "is"
                            elif q[0] == "call" and cname(q) == "eq" and fld(l, "loc_type") in q[2] and any(
                                    z[0] == "agg" and z[2] == "Initial" for z in q[2]):
                                st = val == (a[0] == "is")
                    if v[0] == "agg" and v[2] in ("Initial", "Normal") and st is not None:
                        kinds.add(st)
                    if st is None and v[0] == "agg" and v[2] == "Normal":
                        # what it is unless changed
                        st = False
                        kinds.add(st)
                    c.oblige(v[0] == "agg" and st is not None and (v[2] == "Initial") == st, "location-initial", COMB,
                             "a location that is %sinitial is marked %s" % ("" if st else "not ", show(v)[:100]))
        c.oblige(kinds == {True, False}, "location-kinds", COMB, "no location is marked initial, or all are")

    # ---- edges
    def edges(self, t):
        e, c = self.e, self.c
        ps = zones.produced(e, t)
        if not c.oblige(ps is not None, "edges", COMB, "the edges are not made of the transitions one by one: " + show(t)[:200]):
            return
        seen = {}
        for p in ps:
            for x, k, _ in [y for x, k in instances(e, p[0], p[1]) for y in deep(e, x, k)]:
                if x[0] == "agg":
                    self.edge(dict(x[3]), k, p, seen)
        for s in ("Reachable", "NoPruning"):
            for d in (IN, OUT):
                got = seen.get((s, d), set())
                for g in ("none", "true", "other"):
                    c.oblige(g in got, "edges-%s-%s-%s" % (s, d[4:-8], g), COMB, "no edge is made of %s transitions with %s (%s)" % (
                        d[4:-8], {"none": "no guard", "true": "the guard true", "other": "a guard"}[g], s))
        c.floor(len(ps), 1, "edges", "kinds of edges")

    def edge(self, d, k, p, seen):
        e, c = self.e, self.c
        tid = base(d.get("id"))
        tr = tid[1] if tid is not None and tid[0] == "f" and tid[2] == "id" else None
        call = tr[1] if tr is not None and tr[0] == "elem" else None
        if call is not None:
            call = zones.strip(call)[0]
        if not c.oblige(call is not None and call[0] == "call" and cname(call) == "next_transitions" and call[2][0] == self.sys,
                        "edge-transition", COMB, "an edge is made of " + show(d.get("id", ("k", None)))[:200]):
            return
        loc, act = call[2][1], call[2][2]
        acts = zones.strip(act[1])[0] if act[0] == "elem" else act
        kind = cname(acts) if acts[0] == "call" and acts[2] and acts[2][0] == self.sys else None
        if not c.oblige(self.isloc(loc) and kind in (IN, OUT), "edge-of", COMB, "an edge is made of the transitions of %s for %s" % (
                show(loc)[:100], show(act)[:100])):
            return
        c.oblige(base(d["source_location"]) == fld(loc, "id"), "edge-source", COMB, "an edge starts at " + show(d["source_location"])[:200])
        c.oblige(self.target(d["target_location"], tr, loc), "edge-target", COMB, "an edge leads to " + show(d["target_location"])[:200])
        c.oblige(base(d["sync"]) == act, "edge-action", COMB, "an edge has the action " + show(d["sync"])[:200])
        c.oblige(d["sync_type"][0] == "agg" and d["sync_type"][2] == ("Input" if kind == IN else "Output"), "edge-direction", COMB,
                 "an edge of an %s is made an %s" % ("input" if kind == IN else "output", show(d["sync_type"])[:100]))
        g = d["guard"]
        c.oblige(g[0] == "call" and g[1] == DISJ and g[2][1] in self.same and bounds(g[2][0], fld(tr, "guard_zone")), "edge-guard", COMB,
                 "the guard of an edge is written as " + show(g)[:200])
        us = fld(tr, "updates")
        uss = [us] + ([fld(base(dict(p[0][3])["id"])[1], "updates")] if p[0][0] == "agg" else [])
        u = d["update"]
        if u[0] == "call" and cname(u) == "optfilter" and all(any(empty(a, us) for a in w) for w in truth_cases(
                e, e.apply(u[2][1], [("v", u[2][0], "Some", "0") if u[2][0][0] != "agg" else u[2][0][3][0][1]], u[3]), False)):
            u = u[2][0]
        if u[0] == "agg" and u[2] == "None":
            c.oblige(any(empty(a, y) for a in k for y in uss), "edge-updates", COMB, "the updates of a transition are left out")
        else:
            l = u[3][0][1] if u[0] == "agg" and u[2] == "Some" else None
            m = unmap(e, l, lambda a: not any(mentions(a[1], ("elem", y)) for y in uss)) if l is not None else None
            el = m[1] if m is not None else None
            c.oblige(m is not None and m[0][0] in uss and m[0][1] == 1 and el[0] == "call" and el[1] == UPD and el[2][0] == ("elem", m[0][0]) and el[2][1] in self.same,
                     "edge-updates", COMB, "the updates of an edge are written as " + show(u)[:200])
        # when it is made
        gs = {g} | ({dict(p[0][3])["guard"]} if p[0][0] == "agg" else set())
        about = lambda a, g: next((r for r in (about_guard(a, y) for y in gs) if r is not None), None)
        for w in self.ways(p):
            bad = [a for a in w if not self.outer(a) and about(a, g) is None]
            c.oblige(not bad, "edge-always", COMB, "no edge is made of a transition unless " + "; ".join(
                show(a)[:120] for a in sorted(bad, key=repr))[:300])
            for cl in ("none", "true", "other"):
                if all(about(a, g) is None or cl in about(a, g) for a in w):
                    for s in ("Reachable", "NoPruning"):
                        if self.under(w, s):
                            seen.setdefault((s, kind), set()).add(cl)
        if p[2] is not None:
            c.oblige(not leaves(e, p[2], p[3]), "edge-early", COMB, "the search for transitions ends early")

    def target(self, t, tr, loc):
        t = base(t)
        return t is not None and t[0] == "f" and t[2] == "id" and self.moved(t[1], tr, loc)

    def moved(self, t, tr, loc):
        """The location a transition leads to."""
        if t == fld(tr, "target_locations"):
            return True
        if t[0] != "acc":
            return False
        b, cs = self.e.contribs(t)
        return b == loc and len(cs) == 1 and cs[0][0] == "@call" and cs[0][1][0][1] == MOVE and tr in [
            x for x, _ in instances(self.e, cs[0][1][0][2][0], frozenset())]

    # ---- the clocks
    def names(self):
        e, c = self.e, self.c
        n = 0
        for x, k in expand(e, self.clocks):
            n += 1
            decls = None
            for s in fx.subterms(x):
                if s and s[0] == "call" and cname(s) == "get_decls" and s[2][0] == self.sys:
                    decls = s
            if x[0] == "f" and x[2] == "clocks":
                one = decls is not None and x[1] == ("idx", decls, ("k", 0)) or x[1][0] == "v"
                c.oblige(one and any(a[0] == "is" and mentions(a[1], decls) and a[2] in (1, True) for a in k), "clocks-one", COMB,
                         "the clocks are those of one part: " + show(x)[:200])
                continue
            ps = zones.produced(e, x)
            if not c.oblige(ps, "clocks", COMB, "the clocks are " + show(x)[:200]):
                continue
            alls = set()
            y = x
            while y[0] == "acc":
                alls.add(y)
                y = e.contribs(y)[0]
            alls.add(y)
            got = set()
            for p in ps:
                d = dict(p[0][3]) if p[0][0] == "agg" and len(p[0][3]) == 2 else {}
                v, nm = d.get("1"), d.get("0")
                el = v[1] if v is not None and v[0] == "f" and v[2] == "1" and v[1][0] == "elem" else None
                src = zones.strip(el[1])[0] if el is not None else None
                if not c.oblige(src is not None and src[0] == "f" and src[2] == "clocks" and src[1][0] == "elem" and any(
                        s and s[0] == "call" and cname(s) == "get_decls" and s[2][0] == self.sys for s in fx.subterms(src[1])),
                        "clock-number", COMB, "a clock gets the number " + show(v or p[0])[:200]):
                    continue
                old = fld(el, "0")
                free = has_name(p[1], alls, nm)
                c.oblige(free is False, "clock-name", COMB, "a clock may get the name of another one: " + show(nm)[:200])
                for w in self.ways(p):
                    st = has_name(w, alls, old)
                    bad = [a for a in w if not self.outer(a) and not mentions(a[1], src[1][1]) and held(a, alls) is None]
                    bad += [a for a in w if mentions(a[1], old) and held(a, alls) is None and not self.outer(a)]
                    c.oblige(not bad, "clock-always", COMB, "a clock is left out unless " + "; ".join(
                        show(a)[:120] for a in sorted(bad, key=repr))[:300])
                    got |= {True, False} if st is None else {st}
                if p[2] is not None:
                    c.oblige(not leaves(e, p[2], p[3]), "clock-early", COMB, "the collection of clocks ends early")
            c.oblige(got == {True, False}, "clocks-all", COMB, "a clock whose name %s is left out" % (
                "is used already" if got == {False} else "is new"))
        c.floor(n, 1, "clocks", "collections of clocks")

    # ---- reachable locations
    def reached(self):
        e, c = self.e, self.c
        rec = set()
        for t in self.all:
            if t[0] == "acc":
                for op, args, k, w, fr, bb in e.contribs(t)[1]:
                    if op == "@call":
                        rec.add(args[0][1])
        rec = sorted(r for r in rec if r in c.p.bodies)
        e2, f2 = c.entry(COMB, OPAQUE + rec)
        if f2 is None:
            return
        m = Merge(c, e2, f2)
        for t, k in e2.returns(f2):
            for x, kk in expand(e2, t, k):
                if x[0] == "agg":
                    m.start(dict(x[3])["locations"], rec)
        for r in rec:
            m.step(r)

    def start(self, t, rec):
        e, c = self.e, self.c
        self.lists(t)
        got = set()
        for t in sorted(self.all, key=repr):
            if t[0] != "acc":
                continue
            for op, args, k, w, fr, bb in e.contribs(t)[1]:
                ways = self.ways((None, k, fr, bb))
                bad = [a for g in ways for a in g if not self.outer(a)]
                if op in ("extend", "append") and args[-1][0] == "call":
                    v = zones.strip(args[-1])[0]
                    kind = "all" if cname(v) == "get_all_locations" and v[2][0] == self.sys else None
                elif op in ("push", "push_back", "insert"):
                    v = args[-1]
                    kind = "first" if v[0] == "v" and self.init(v[1]) else None
                    if v[0] == "elem" and cname(zones.strip(v[1])[0]) == "get_all_locations" and zones.strip(v[1])[0][2][0] == self.sys:
                        kind = "all"
                        c.oblige(not leaves(e, fr, bb), "reach-all-early", COMB, "not all locations are saved")
                elif op == "@call" and args[0][1] in rec:
                    kind = "search" if any(a[0] == "v" and self.init(a[1]) for a in args[0][2]) and self.sys in args[0][2] else None
                else:
                    kind = None
                if kind is None and rec == [] and op in ("push", "push_back"):
                    # a list of locations to visit instead of a recursion
                    kind = self.worklist(args[-1], k, fr, bb)
                    bad = []
                if not c.oblige(kind is not None, "reach-source", COMB, "the locations saved are also made of %s %s" % (
                        op, "; ".join(show(a)[:150] for a in args))):
                    continue
                c.oblige(not bad, "reach-" + kind, COMB, "the locations saved lack some unless " + "; ".join(
                    show(a)[:120] for a in sorted(bad, key=repr))[:300])
                for g in ways:
                    for s in ("Reachable", "NoPruning"):
                        if self.under(g, s):
                            got.add((s, kind))
        want = {("NoPruning", "all"), ("Reachable", "first"), ("Reachable", "search")}
        for w in sorted(want):
            c.oblige(w in got, "reach-%s-%s" % w, COMB, "the locations saved do not include %s (%s)" % (
                {"all": "those of the system", "first": "the initial one", "search": "those reached"}[w[1]], w[0]))
        c.oblige(("NoPruning", "all") in got and ("Reachable", "all") not in got, "reach-only", COMB,
                 "locations that are not reachable are saved")

    def worklist(self, x, k, fr, bb):
        e, c = self.e, self.c
        if x[0] == "v" and self.init(x[1]):
            return "first"
        return "search" if self.found(e, fr, bb, x, k, None) else None

    def found(self, e, fr, bb, x, k, me):
        """x is where a transition of some location visited leads to, new to the list; all transitions are tried."""
        c = self.c
        if x[0] != "acc":
            return False
        b, cs = e.contribs(x)
        if len(cs) != 1 or cs[0][0] != "@call" or cs[0][1][0][1] != MOVE:
            return False
        tr = cs[0][1][0][2][0]
        call = zones.strip(tr[1])[0] if tr[0] == "elem" else ("k", None)
        if call[0] != "call" or cname(call) != "next_transitions" or call[2][1] != b or me is not None and b != me:
            return False
        if me is None and not self.waiting(e, fr, b, x):
            return False
        act = call[2][2]
        kinds = set()
        acts = [act[1]] if act[0] == "elem" else [act[1][1]] if act[0] == "phi" and act[1][0] == "chain" else [act]
        while acts:
            a = zones.strip(acts.pop())[0]
            if a[0] == "call" and cname(a) in ("chain", "union") and len(a[2]) == 2:
                acts += list(a[2])
                continue
            for a, ka in instances(e, a, frozenset()):
                for y, ky, _ in deep(e, a, ka):
                    y = zones.strip(y)[0]
                    n = cname(y) if y[0] == "call" else None
                    kinds |= {IN, OUT} if n == "get_actions" else {n}
        self.kinds |= kinds
        g = [a for a in e.guards(fr, bb) if not self.outer(a) and not about_list(a, x)]
        g = [a for a in g if not mentions(a[1], act) or a[0] != "did"]
        c.oblige(not [a for a in g if a[0] in ("is", "isnt") and not inner(e, a)], "search-all", fr.body.id,
                 "a location reached is left out unless " + "; ".join(show(a)[:120] for a in g)[:300])
        c.oblige(not leaves(e, fr, bb), "search-early", fr.body.id, "the search for locations ends early")
        return True

    def waiting(self, e, fr, b, x):
        """b is taken from a list that x is put into."""
        l = b[1] if b[0] in ("v", "elem", "idx", "pop") else None
        if l is not None and l[0] == "call" and cname(l) in ("pop", "pop_front", "get", "next") and l[2]:
            l = l[2][0]
        if l is None:
            return False
        r = root(e, zones.strip(l)[0])
        return any(last(y.name) in ("push", "push_back", "extend") and y.args and root(e, y.args[0]) == r and y.args[-1] == x
                   for y in e.events(self.f))

    kinds = set()

    def step(self, r):
        """The recursion: every location a transition leads to is in the list when it ends."""
        c = self.c
        e, f = c.entry(r, OPAQUE + [r])
        if f is None:
            return
        self.kinds = set()
        ps = params(f)
        locs = [p for p in ps if p != self.sys]
        pushes, calls = [], []
        n = 0
        for x in e.events(f):
            if last(x.name) in ("push", "push_back", "insert") and x.args and root(e, x.args[0]) in ps:
                pushes.append(x)
            elif x.name == r:
                calls.append(x)
        for x in pushes:
            n += 1
            v = x.args[-1]
            b = e.contribs(v)[0] if v[0] == "acc" else None
            if not c.oblige(b in ps and self.found(e, x.frame, x.bb, v, x.K, b), "search-step", r, "a location reached is " + show(v)[:200]):
                continue
            c.oblige(any(y.args and v in y.args and same(conds(e, y), conds(e, x)) for y in calls), "search-on", r,
                     "the search does not go on from a location found")
        c.oblige(self.kinds == {IN, OUT}, "search-actions", r, "the search follows only transitions for " + ", ".join(
            sorted(str(k) for k in self.kinds)))
        c.floor(n, 1, "search", "locations found")


def instances(e, t, k):
    """t and K for each element of the literal lists they run over."""
    els = set()

    def look(x, seen, n=0):
        for s in fx.subterms(x):
            if s and s[0] == "elem" and len(s) == 2 and e.arr_elems(zones.strip(s[1])[0]) is not None:
                els.add(s)
            elif s and s[0] == "phi" and s not in seen and e.phis.get(s):
                seen.add(s)
                for a, fr, d in e.phis[s]:
                    look(a, seen)
                    for at in (fr.Kat(d[0]) or ()) if fr is not None and d and d[0] != "arg" else ():
                        if at[0] in ("is", "isnt"):
                            look(at[1], seen)
    look(t, set())
    out = [(t, k)]
    for el in sorted(els, key=repr)[:3]:
        nxt = []
        for x, kx in out:
            for v in e.arr_elems(zones.strip(el[1])[0]):
                y = assume(e, x, el, v, set())
                ky = frozenset(a if a[0] not in ("is", "isnt") else (a[0], assume(e, a[1], el, v, set()), a[2]) for a in kx)
                if (y, ky) not in nxt:
                    nxt.append((y, ky))
        out = nxt
    return out


def assume(e, t, el, v, seen):
    """t where the element el is v."""
    if not isinstance(t, tuple) or not t:
        return t
    if t == el:
        return v
    if t[0] == "phi" and t not in seen and e.phis.get(t):
        alts = []
        for a, fr, d in e.phis[t]:
            ks = (fr.Kat(d[0]) or frozenset()) if fr is not None and d and d[0] != "arg" else frozenset()
            if any(z[0] in ("is", "isnt") and (z[1] == el or mentions(z[1], el)) and against(e, z, el, v) for z in ks):
                continue
            alts.append(assume(e, a, el, v, seen | {t}))
        return alts[0] if len(set(alts)) == 1 else t
    if t[0] in ("f", "v"):
        b = assume(e, t[1], el, v, seen)
        if b != t[1]:
            return e.proj1(b, t[2] if t[0] == "v" else None, t[3] if t[0] == "v" else t[2])
        return t
    if t[0] == "acc":
        return t
    return tuple(assume(e, x, el, v, seen) for x in t)


def against(e, a, el, v):
    """The condition does not hold if the element is v."""
    x = assume(e, a[1], el, v, set())
    if x[0] == "k" and isinstance(a[2], (bool, int, str)):
        return (x[1] == a[2]) != (a[0] == "is")
    if x[0] == "agg" and x[2] is not None and isinstance(a[2], str):
        return (x[2] == a[2]) != (a[0] == "is")
    return False


def root(e, t):
    while t[0] == "acc":
        t = e.contribs(t)[0]
    return t


def same(a, b):
    return {x for x in a if x[1][0] != "call" or cname(x[1]) != "next"} == {x for x in b if x[1][0] != "call" or cname(x[1]) != "next"}


def inner(e, a):
    """A condition of the loop over kinds of actions."""
    t = a[1]
    return not any(s and s[0] == "call" and cname(s) == "next_transitions" for s in fx.subterms(t)) and any(
        s and s[0] == "elem" and e.arr_elems(zones.strip(s[1])[0]) is not None for s in fx.subterms(t) if len(s) == 2)


def about_list(a, x):
    """x is not in the list yet."""
    t, v = a[1], a[2]
    pos = a[0] == "is"
    while t[0] == "un" and t[1] == "Not" and isinstance(v, bool):
        t, v = t[2], not v
    return t[0] == "call" and cname(t) == "contains" and len(t[2]) == 2 and t[2][1] == x and isinstance(v, bool) and v != pos


def base(t):
    """A name without what copies it or makes it text."""
    while t is not None and t[0] in ("call", "fmt"):
        if t[0] == "fmt" and len(t[1]) == 1 and not isinstance(t[1][0], str):
            t = t[1][0][1]
        elif t[0] == "call" and cname(t) in ("to_string", "clone", "to_owned", "into", "from") and len(t[2]) == 1:
            t = t[2][0]
        else:
            break
    return t


def bounds(t, zone):
    return t[0] == "call" and cname(t) in ("minimal_constraints", "constraints") and t[2][0] == zone


def present(k, t):
    for a in k:
        if a[0] in ("is", "isnt") and a[1] == t and a[2] in ("Some", "None"):
            return (a[2] == "Some") == (a[0] == "is")
        if a[0] == "is" and a[1][0] == "call" and cname(a[1]) in ("is_some", "is_none") and a[1][2][0] == t and isinstance(a[2], bool):
            return (cname(a[1]) == "is_some") == a[2]
    return None


def empty(a, us):
    if a[0] not in ("is", "isnt") or not isinstance(a[2], (bool, int)):
        return False
    t, v = a[1], a[2]
    pos = a[0] == "is"
    while t[0] == "un" and t[1] == "Not" and isinstance(v, bool):
        t, v = t[2], not v
    if not mentions(t, us):
        return False
    if t[0] == "call" and cname(t) == "is_empty":
        return v is True and pos or v is False and not pos
    if t[0] == "call" and cname(t) == "len":
        return v == 0 and pos
    if t[0] == "bin" and t[1] == "Eq" and ("k", 0) in t[2:4]:
        return (v is True) == pos
    return False


def about_guard(a, g):
    """The kinds of guard (none, true, false, other) for which a condition on guard g holds; None: it is about something else."""
    if a[0] not in ("is", "isnt"):
        return frozenset(("none", "true", "false", "other"))
    full = frozenset(("none", "true", "false", "other"))
    t, v = a[1], a[2]
    pos = a[0] == "is"
    while t[0] == "un" and t[1] == "Not" and isinstance(v, bool):
        t, v = t[2], not v
    s = None
    if t == g:
        s = {"None": {"none"}, "Some": {"true", "false", "other"}}.get(v)
    elif t == ("v", g, "Some", "0"):
        s = {"true", "false"} if v == "Bool" else {"other"} if isinstance(v, str) else None
        if v != "Bool" and not pos:
            # other variants, but not only this one
            return full
    elif t[0] == "v" and t[1] == ("v", g, "Some", "0") and t[2] == "Bool" and isinstance(v, (bool, int)):
        s = {"true"} if v else {"false"}
        # of other guards this says nothing
        r = frozenset(s) if pos else frozenset({"true", "false"} - s)
        return r | {"none", "other"}
    elif t[0] == "call" and cname(t) in ("is_some", "is_none") and t[2][0] == g:
        s = {"none"} if cname(t) == "is_none" else {"true", "false", "other"}
        if v is False:
            s = full - s
    elif t[0] == "call" and cname(t) in ("eq", "ne") and g in t[2] or t[0] == "bin" and t[1] in ("Eq", "Ne") and g in t[2:4]:
        ne = cname(t) == "ne" if t[0] == "call" else t[1] == "Ne"
        two = t[2] if t[0] == "call" else t[2:4]
        o = [x for x in two if x != g][0] if len(set(two)) == 2 else None
        if o is not None and o[0] == "agg":
            if o[2] == "None":
                s = {"none"}
            elif o[2] == "Some" and o[3][0][1][0] == "agg" and o[3][0][1][2] == "Bool":
                s = {"true" if o[3][0][1][3][0][1] == ("k", True) else "false"}
        if s is not None and ne == (v is True):
            s = full - s
    if s is None:
        return None
    return frozenset(s) if pos else full - s


def held(a, lists):
    """(name, used) for a condition that a name is in the list of clocks."""
    if a[0] not in ("is", "isnt"):
        return None
    t, v = a[1], a[2]
    pos = a[0] == "is"
    while t[0] == "un" and t[1] == "Not" and isinstance(v, bool):
        t, v = t[2], not v
    if t[0] == "call" and cname(t) in ("contains_key", "is_some", "is_none"):
        neg = cname(t) == "is_none"
        if cname(t) != "contains_key":
            t = t[2][0]
            if t[0] != "call" or cname(t) != "get":
                return None
        if t[2][0] in lists and isinstance(v, bool):
            return t[2][1], (v == pos) != neg
    if t[0] == "call" and cname(t) == "get" and t[2][0] in lists and v in ("Some", "None"):
        return t[2][1], (v == "Some") == pos
    return None


def has_name(k, lists, nm):
    for a in k:
        h = held(a, lists)
        if h is not None and h[0] == nm:
            return h[1]
    return None
