from core import *
from zones import *
from states import *

TITLE = "reachability searches exhaustively and answers from a state it reached"
EXPLAIN = ("The search loop is reconstructed with states followed through memory: which states enter the queue, under which "
           "conditions a successor is left out, what ends the search and how the reported path is put together; each is "
           "compared with what an exhaustive search over zones requires.")
M = "System::reachability::"
T = "ModelObjects::transition::Transition::"
ST = "ModelObjects::state::State::"
OPQ = [T + "use_transition", T + "use_transition_alt", ST + "apply_invariants", ST + "extrapolate_max_bounds_with_extra_bounds",
       ST + "extrapolate_max_bounds", ST + "update_zone", ST + "set_zone",
       "TransitionSystems::location_tree::LocationTree::compare_partial_locations",
       "Simulation::decision::Decision::from_state_transition"]
START, END, SYS = ("arg", "start"), ("arg", "end"), ("arg", "sys")


def run(c):
    c.memory("State")
    fn = M + "find_path"
    e, f = c.entry(fn, OPQ, (START, END, SYS))
    if f is None:
        return
    s = Search(c, e, f)
    if not s.ok:
        return
    s.answers()
    s.moves()
    s.queue()
    s.seen()
    s.path()
    specific(c)


class Search:
    def __init__(self, c, e, f):
        self.c, self.e, self.f = c, e, f
        self.ev = c.events(e, f)
        pops = [x for x in self.ev if last(x.name) in ("pop_front", "pop_back", "pop") and x.args]
        self.ok = c.oblige(len(pops) == 1, "frontier", M, "there is not one queue the search takes states from")
        if not self.ok:
            return
        self.pop = pops[0]
        self.P = some(self.pop.term)
        self.F = self.pop.args[0]
        self.S = fld(self.P, "destination_state")
        self.LOC = fld(self.S, "decorated_locations")

    # -- the verdict
    def hit(self, a, val):
        """Atom a says that the state at hand does (val) or does not match the end state in one respect."""
        e = self.e
        if a[0] != "is" or a[1][0] != "call":
            return None
        t, n = a[1], cname(a[1])
        if n == "compare_partial_locations" and len(t[2]) == 2:
            if {sites(x) for x in t[2]} == {sites(self.LOC), sites(fld(END, "decorated_locations"))}:
                return "place" if a[2] is val else None
        z = None
        if n == "has_intersection" and len(t[2]) == 2:
            z = t[2]
        elif n == "is_empty" and t[2][0][0] == "call" and cname(t[2][0]) == "intersection" and len(t[2][0][2]) == 2:
            z, val = t[2][0][2], not val
        if z and {owner(e, x) for x in z} == {self.S, END}:
            return "zone" if a[2] is val else None
        return None

    def trivial(self, a):
        """Atom a says that no search is needed: an empty state, or an end state outside its invariant."""
        e = self.e
        if a[0] != "is" or a[1][0] != "call":
            return False
        t, n = a[1], cname(a[1])
        if n == "is_empty" and a[2] is True:
            o = owner(e, t[2][0])
            st = steps(e, o) if o else None
            if st and st[0] in (START, END) and all(m == "apply_invariants" for m, _, _, _ in st[1]):
                return True
        neg = n == "is_empty" and a[2] is True and t[2][0][0] == "call" and cname(t[2][0]) == "intersection"
        z = t[2][0][2] if neg else t[2] if n == "has_intersection" and a[2] is False else ()
        inv = some(fld(END, "decorated_locations", "invariant"))
        return len(z) == 2 and any(owner(e, x) == END and y == inv for x, y in (z, z[::-1]))

    def answers(self):
        c, e = self.c, self.e
        no = yes = 0
        for t, k in e.returns(self.f):
            for x, kx in expand(e, t, k):
                for kk in split(e, e.close(kx)):
                    if e.contradict(e.close(kk)):
                        continue
                    if x[0] == "agg" and x[2] == "Ok":
                        yes += 1
                        got = {self.hit(a, True) for a in kk}
                        c.oblige("place" in got, "found-location", M, "a path is reported to a state whose locations are not those of the end state")
                        c.oblige("zone" in got, "found-zone", M, "a path is reported to a state that shares no valuation with the end state")
                    else:
                        no += 1
                        done = any(a[0] == "is" and a[1] == self.pop.term and a[2] == "None" for a in kk) or any(
                            a[0] == "is" and a[2] is True and a[1][0] == "call" and cname(a[1]) == "is_empty" and same_acc(a[1][2][0], self.F) for a in kk)
                        c.oblige(done or any(self.trivial(a) for a in kk), "unreachable", M,
                                 "unreachability is reported though states remain to be explored")
                        c.oblige(x[0] == "agg" and x[2] == "Err", "answer", M, "the answer is " + show(x)[:100])
        c.floor(yes, 1, "found", "ways to report a path")
        c.floor(no, 2, "not-found", "ways to report unreachability")
        # a state that matches ends the search
        lk = e.latch_K(self.pop.frame, self.pop.bb)
        n = 0
        for K in lk[2] if lk else ():
            for kk in split(e, e.close(K)):
                if e.contradict(e.close(kk)):
                    continue
                n += 1
                c.oblige(any(self.hit(a, False) for a in kk), "stop", M, "a state taken from the queue is not compared with the end state")
        c.floor(n, 1, "stop", "ways round the search loop")

    # -- the moves
    def transition(self, t):
        """t is any transition of the system from the state at hand, for any of its actions: the action."""
        e = self.e
        if t[0] != "elem":
            return None
        src = flat(t[1])
        if src[0] == "call" and cname(src) == "next_transitions" and len(src[2]) == 3 and src[2][0] == SYS and src[2][1] == self.LOC:
            a = src[2][2]
            if a[0] == "elem":
                b = a[1]
                if b[0] == "acc":
                    base_, cs = e.contribs(b)
                    if any(op != "sort" for op, *_ in cs):
                        return None
                    b = base_
                b = flat(b)
                if b == ("call", b[1] if len(b) > 1 else "", (SYS,), b[3] if len(b) > 3 else None) and cname(b) == "get_actions":
                    return a
        return None

    def plainly(self, x, more=lambda a: False):
        """The conditions event x runs under beyond the loops it is in and the searches' own end."""
        e = self.e
        bad = set()
        for kk in e.gcases(x.frame, x.bb):
            for k2 in e.cases(kk):
                if e.contradict(e.close(k2)):
                    continue
                for a in [negated(z) for z in k2]:
                    if a[0] == "is" and a[2] == "None" and a[1][0] == "call" and cname(a[1]) == "next" and self.known_zones(a[1][2][0]) is not None:
                        continue
                    if a[0] == "forall" and a[2][0] != "did" and self.known_zones(a[1]) is not None and not more(a):
                        bad.add(a)
                    if a[0] in ("did", "forall", "exists") or a[0] in ("is", "isnt") and a[1][0] in ("agg", "k", "phi"):
                        continue
                    if a[0] == "is" and a[2] == "Some" and a[1][0] == "call" and cname(a[1]) in ("next", "pop_front", "pop_back", "pop"):
                        continue
                    if self.hit(a, False) or self.hit(a, True) or self.trivial(a) or self.trivial(flip(a)) or self.nontrivial(a) or more(a):
                        continue
                    bad.add(a)
        return bad

    def nontrivial(self, a):
        inv = fld(END, "decorated_locations", "invariant")
        return a[0] in ("is", "isnt") and a[1] == inv

    def moves(self):
        c, e = self.c, self.e
        self.uses = [x for x in self.ev if last(x.name) in ("use_transition", "use_transition_alt") and len(x.args) == 2 and
                     self.transition(x.args[0]) is not None]
        if not c.oblige(len(self.uses) >= 1, "moves", M, "the transitions of a state are not all tried"):
            return
        for x in self.uses:
            st = steps(e, x.args[1])
            c.oblige(st is not None and st[0] == self.S and not [o for o in st[1] if o[3] != x.bb], "move-from", x.where,
                     "a transition is taken from " + show(x.args[1])[:100])
            bad = self.plainly(x)
            c.oblige(not bad, "move-skipped", x.where, "a transition is tried only if " + "; ".join(show(a)[:120] for a in list(bad)[:2]))
            lv = leaves(e, x.frame, x.bb, lambda a: self.hit(a, True) is not None or a[0] in ("is", "isnt") and a[1][0] == "phi")
            c.oblige(not lv, "move-left-out", x.where, "the search leaves transitions untried")

    # -- the queue
    def queue(self):
        c, e = self.c, self.e
        b, cs = e.contribs(self.F) if self.F[0] == "acc" else (self.F, [])
        self.pushes = []
        n0 = 0
        els = [(a, k, fr, bb) for op, args, k, w, fr, bb in cs if op in ("push_back", "push_front", "push") for a in args[-1:]]
        for op, *_ in cs:
            c.oblige(op in ("push_back", "push_front", "push", "pop_front", "pop_back", "pop"), "queue-" + op, M,
                     "states are taken out of the queue by " + op)
        base_ = produced(e, b)
        if not c.oblige(base_ is not None, "queue", M, "the queue starts as " + show(b)[:100]):
            return
        for t, k, fr, bb in base_ + els:
            if not c.oblige(t[0] == "agg", "queue-what", M, "the queue holds " + show(t)[:100]):
                continue
            d = dict(t[3])
            prev = d.get("previous_sub_path", ("k", None))
            st = steps(e, d.get("destination_state", ("k", None)))
            if prev[0] == "agg" and prev[2] == "None":
                n0 += 1
                c.oblige(st is not None and st[0] == START and [m for m, _, _, _ in st[1]] in ([], ["apply_invariants"]), "start", M,
                         "the search starts in " + show(d.get("destination_state", ()))[:100])
                c.oblige(st is not None and [m for m, _, _, _ in st[1]] == ["apply_invariants"], "start-invariant", M,
                         "the invariant of the start state is not applied before the search")
                c.oblige(d.get("transition", ("", ""))[0] == "agg" and d["transition"][2] == "None", "start-transition", M, "the start state is entered by a transition")
                continue
            self.pushes.append((d, k, fr, bb))
            self.successor(d, prev, st, k, fr, bb)
        c.floor(n0, 1, "start", "start states queued")
        c.floor(len(self.pushes), 1, "successor", "successors queued")

    def successor(self, d, prev, st, k, fr, bb):
        c, e = self.c, self.e
        w = fr.where(bb) if fr is not None else M
        c.oblige(prev == ("agg", prev[1], "Some", (("0", self.P),)), "previous", w, "the predecessor of a state is " + show(prev)[:100])
        if not c.oblige(st is not None and st[0] == self.S, "successor-of", w, "a state is queued that is no successor: " + show(d.get("destination_state", ()))[:100]):
            return
        use = [o for o in st[1] if o[0] == "use_transition"]
        ext = [o for o in st[1] if o[0] == "extrapolate_max_bounds_with_extra_bounds"]
        c.oblige(len(st[1]) == len(use) + len(ext) and len(use) == 1, "successor-by", w, "a successor is made by " + ", ".join(o[0] for o in st[1]))
        if not use:
            return
        self.T = use[0][1][0]
        act = self.transition(self.T)
        c.oblige(act is not None, "successor-transition", w, "a successor is made by the transition " + show(self.T)[:100])
        tr = d.get("transition", ("k", None))
        el = tr[3][0][1] if tr[0] == "agg" and tr[2] == "Some" else ("k", None)
        got = [strip_clone(x) for _, x in el[3]] if el[0] == "agg" else []
        c.oblige(sorted(got, key=repr) == sorted([self.T, act], key=repr) if act else False, "successor-label", w,
                 "the transition remembered for a state is " + show(tr)[:120])
        c.oblige(len(ext) == 1, "extrapolated", w, "a successor is queued without being extrapolated")
        for o in ext:
            a = o[1]
            be = a[2] if len(a) == 3 else ("k", None)
            c.oblige(len(a) == 3 and a[1] == SYS and be[0] == "call" and cname(be) == "get_bounds" and owner(e, be[2][0]) == END, "extrapolated-bounds", w,
                     "states are extrapolated with " + ", ".join(show(y)[:80] for y in a[1:]))
            kk = o[2].Kat(o[3]) if o[2] is not None else frozenset()
            c.oblige(any(self.took(q) is True for q in e.close(k)), "successor-possible", w, "a state is queued though the transition cannot be taken")

    def took(self, a):
        """True / False: the transition could / could not be taken, else None."""
        if a[0] in ("is", "isnt") and a[1][0] == "call" and cname(a[1]) in ("use_transition", "use_transition_alt") and a[1][2] and \
                self.transition(a[1][2][0]) is not None:
            v = a[2] if a[0] == "is" else {"None": "Some", "Some": "None"}.get(a[2])
            return {True: True, "Some": True, False: False, "None": False}.get(v)
        return None

    # -- what was seen
    def new(self, t, done=True):
        """t is the successor at hand (done: extrapolated)."""
        st = steps(self.e, t)
        if st is None or st[0] != self.S:
            return False
        ms = sorted(m for m, _, _, _ in st[1])
        return ms == ["extrapolate_max_bounds_with_extra_bounds", "use_transition"] or not done and ms == ["use_transition"]

    def known_zones(self, t):
        """t is the collection of zones seen where the successor is: the map."""
        t = flat(t)
        if t[0] == "acc":
            t = self.e.contribs(t)[0]
        while t[0] == "v" and t[2] in ("Some",):
            t = t[1]
        if t[0] == "call" and cname(t) in ("or_default", "or_insert_with", "or_insert", "or_insert_default", "unwrap_or_default") and t[2]:
            t = t[2][0]
        if t[0] == "call" and cname(t) in ("entry", "get", "get_mut", "index", "index_mut") and len(t[2]) >= 2:
            m, k = t[2][0], t[2][1]
        elif t[0] == "idx":
            m, k = t[1], t[2]
        else:
            return None
        k = strip_clone(k)
        if k[0] == "f" and k[2] == "id" and k[1][0] == "f" and k[1][2] == "decorated_locations" and self.new(k[1][1], False):
            return m
        return None

    def covered(self, a):
        """Atom a can only be false if the successor is part of a zone seen at the same location."""
        e = self.e
        if a[0] == "forall":
            return self.covered(a[2])
        if a[0] not in ("is", "isnt"):
            return False
        if a[0] == "is" and a[2] in ("None", "Some") and a[1][0] == "call" and cname(a[1]) in ("get", "get_mut") and self.known_zones(some(a[1])) is not None:
            return True
        if a[0] == "is" and isinstance(a[2], bool):
            cs = truth_cases(e, a[1], not a[2])
            return bool(cs) and all(self.inside(k) for k in cs)
        return False

    def inside(self, k):
        e = self.e
        for a in k:
            if a[0] == "is" and a[2] is True and a[1][0] == "call" and cname(a[1]) == "subset_eq" and len(a[1][2]) == 2:
                x, y = a[1][2]
                o = owner(e, x)
                if o is not None and self.new(o) and y[0] == "elem" and self.known_zones(y[1]) is not None:
                    return True
            if a[0] == "exists" and any(self.inside(z if not isinstance(z, tuple) else {z}) for z in (a[2],)):
                return True
        return False

    def seen(self):
        c, e = self.c, self.e
        qc = set()
        for d, k, fr, bb in self.pushes:
            if fr is None:
                continue
            x = next((y for y in self.ev if y.frame is fr and y.bb == bb), None)
            if not c.oblige(x is not None, "queued", M, "states are queued in another way"):
                continue
            bad = self.plainly(x, lambda a: self.took(a) is not None or self.covered(a))
            c.oblige(not bad, "left-out", x.where, "a successor is left out unless " + "; ".join(show(a)[:160] for a in sorted(bad, key=repr)[:2]))
            lv = leaves(e, x.frame, x.bb, lambda a: self.hit(a, True) is not None or a[0] in ("is", "isnt") and a[1][0] == "phi")
            c.oblige(not lv, "queue-left", x.where, "the search stops queueing successors early")
            # phis standing for a choice must come down to being covered
            for kk in e.gcases(x.frame, x.bb):
                for a in kk:
                    if a[0] == "is" and a[1][0] == "phi" and isinstance(a[2], bool) and not self.own(a):
                        c.oblige(self.covered(a), "left-out", x.where, "a successor is left out for another reason than a zone seen before")
                qc.add(frozenset(z for z in kk if not (z[0] == "is" and z[1][0] == "call" and cname(z[1]) in ("get", "get_mut"))))
        n = 0
        for x in self.ev:
            nm = last(x.name)
            if not x.args:
                continue
            z = self.known_zones(x.args[0])
            ks = [frozenset(z2 for z2 in kk if not (z2[0] == "is" and z2[1][0] == "call" and cname(z2[1]) in ("get", "get_mut"))) for kk in e.gcases(x.frame, x.bb)]
            if z is not None and nm in ("push", "push_back"):
                n += 1
                o = owner(e, x.args[1])
                c.oblige(o is not None and self.new(o), "seen-what", x.where, "a zone is recorded as seen that is not the successor's: " + show(x.args[1])[:100])
                c.oblige(all(any(q <= kk for q in qc) for kk in ks), "seen-unqueued", x.where, "a zone is recorded as seen though its state is not queued")
            elif z is not None and nm in ("retain", "retain_mut"):
                for k in truth_cases(e, e.apply(x.args[1], [("elem", x.args[0])], ("retain",)), False):
                    good = False
                    for a in k:
                        if a[0] == "is" and a[2] is True and a[1][0] == "call" and cname(a[1]) == "subset_eq" and len(a[1][2]) == 2:
                            o = owner(e, a[1][2][1])
                            good = good or a[1][2][0] == ("elem", x.args[0]) and o is not None and self.new(o)
                    c.oblige(good, "forgotten", x.where, "a zone seen is forgotten though it is not part of the new one")
                c.oblige(all(any(q <= kk for q in qc) for kk in ks), "forgotten-unqueued", x.where, "zones are forgotten though no larger one is queued")
            elif z is not None and nm in ("clear", "pop", "truncate", "remove", "swap_remove", "drain", "dedup"):
                c.oblige(False, "forgotten", x.where, "zones seen are forgotten by " + nm)
            elif nm == "insert" and len(x.args) == 3 and strip_clone(x.args[1])[0] == "f" and strip_clone(x.args[1])[2] == "id":
                o = strip_clone(x.args[1])[1][1]
                vs = produced(e, x.args[2]) or []
                os_ = [owner(e, v[0]) for v in vs]
                if self.new(o, False):
                    n += 1
                    c.oblige(bool(os_) and all(y is not None and self.new(y) for y in os_), "seen-what", x.where, "a zone is recorded as seen that is not the successor's")
                    c.oblige(all(any(q <= kk for q in qc) for kk in ks), "seen-unqueued", x.where, "a zone is recorded as seen though its state is not queued")
                else:
                    st = steps(e, o)
                    c.oblige(st is not None and st[0] == START and all(y == o for y in os_), "seen-start", x.where,
                             "a zone is recorded as seen before the search: " + show(x.args[2])[:100])
        c.floor(n, 1, "seen", "places where a zone is recorded as seen")

    def own(self, a):
        """The choice is about the search having ended or been needless."""
        cs = why(self.e, a[1], a[2]) + why(self.e, a[1], not a[2])
        return bool(cs) and all(any(self.hit(q, True) or self.hit(q, False) or self.trivial(q) or self.trivial(flip(q)) or self.nontrivial(q) for q in k) for k in cs)

    # -- the path
    def path(self):
        c, e = self.c, self.e
        n = 0
        for t, k in e.returns(self.f):
            for x, kx in expand(e, t, k):
                if not (x[0] == "agg" and x[2] == "Ok"):
                    continue
                p = x[3][0][1]
                d = dict(p[3]).get("path") if p[0] == "agg" else None
                els = produced(e, d) if d else None
                if not c.oblige(els is not None and len(els) == 1, "path", M, "the path is " + show(p)[:100]):
                    continue
                n += 1
                self.decision(els[0])
        c.floor(n, 1, "path", "paths reported")

    def decision(self, el):
        c, e = self.c, self.e
        t, k, fr, bb = el
        w = fr.where(bb) if fr is not None else M
        while t[0] == "v" and t[2] in ("Some", "Ok"):
            t = t[1]
        if not c.oblige(t[0] == "call" and cname(t) == "from_state_transition" and len(t[2]) == 3, "decision", w, "a step of the path is " + show(t)[:100]):
            return
        s, tr, act = t[2]
        q = unpart(tr)
        if not c.oblige(q is not None and q == unpart(act) and tr != act, "decision-label", w, "a step of the path is labelled %s, %s" % (show(tr)[:60], show(act)[:60])):
            return
        coll, rev = q[1], 0
        while coll[0] == "call" and cname(coll) in ("into_iter", "iter", "rev", "collect", "cloned", "drain") and coll[2]:
            rev += cname(coll) == "rev"
            coll = coll[2][0]
        if not rev:
            for cc in loop_coll(k):
                y, d = strip(cc)
                if d == -1 and same_acc(flat(y), flat(coll)):
                    rev += 1
        for x in self.ev:
            if last(x.name) == "reverse" and x.args and same_acc(x.args[0], coll):
                rev += 1
        b, cs = e.contribs(coll) if coll[0] == "acc" else (coll, [])
        fr2 = None
        for op, args, kk, w2, f2, b2 in cs:
            if op == "reverse":
                continue
            if not c.oblige(op in ("push", "push_back", "insert_at", "push_front"), "chain-" + op, w2, "the steps of the path are collected by " + op):
                continue
            back = op in ("push", "push_back")
            c.oblige((rev % 2 == 1) == back, "order", w2, "the steps of the path are in the wrong order")
            x = args[-1]
            fr2 = f2
            self.link(x, kk, f2, b2, w2)
        c.floor(len(cs), 1, "chain", "steps collected for the path")
        # the states along the path
        st = steps(e, s, kept=True)
        if s[0] == "phi":
            for a, f3, d3 in e.phis.get(s, ()):
                z = steps(e, a, kept=True)
                c.oblige(z is not None and (z[0] == START and [m for m, *_ in z[1]] == ["apply_invariants"] or not z[1] and sites(z[0]) in (
                    fld(some(sites(t)), "next_state"), sites(("f", t, "next_state")))), "decision-state", w, "a step of the path is taken in " + show(a)[:100])
            return
        if not c.oblige(st is not None and st[0] == START, "decision-state", w, "a step of the path is taken in " + show(s)[:100]):
            return
        ms = sorted(o[0] for o in st[1])
        c.oblige(ms == ["apply_invariants", "use_transition"], "decision-states", w, "the states along the path come from " + ", ".join(ms))
        for o in st[1]:
            if o[0] != "use_transition":
                continue
            c.oblige(o[1][0] == tr, "decision-next", w, "the path goes on with the transition " + show(o[1][0])[:80])
            ev = next((y for y in self.ev if y.term == t), None)
            if ev is not None and o[2] is ev.frame:
                c.oblige(not dominates(ev.frame.body, o[3], ev.bb), "decision-before", w, "a step of the path is taken in the state it leads to")

    def link(self, x, k, fr, bb, w):
        """x is the transition of a state on the way back from the state found to the start."""
        c, e = self.c, self.e
        parts = [x]
        if x[0] == "agg" and x[1] == "()":
            parts = [p for _, p in x[3]]
        ns = set()
        for p in parts:
            p = strip_clone(p)
            while p[0] == "f" and p[2] in ("0", "1") or p[0] == "call" and cname(p) in ("clone", "to_owned", "to_string"):
                p = p[1] if p[0] == "f" else p[2][0]
            ns.add(p)
        y = ns.pop() if len(ns) == 1 else ("k", None)
        if not c.oblige(y[0] == "v" and y[2] == "Some" and y[1][0] == "f" and y[1][2] == "transition", "link", w, "a step of the path is " + show(x)[:100]):
            return
        sp = y[1][1]
        alts = [a for a, _, _ in e.phis.get(sp, ())]
        nxt = some(fld(sp, "previous_sub_path"))
        c.oblige(set(alts) == {self.P, nxt}, "link-chain", w, "the path is followed back through " + ", ".join(show(a)[:60] for a in alts))
        bad = self.plainly_link(fr, bb, sp)
        c.oblige(not bad, "link-skipped", w, "a step of the path is left out unless " + "; ".join(show(a)[:80] for a in bad[:2]))

    def plainly_link(self, fr, bb, sp):
        out = []
        for kk in self.e.gcases(fr, bb):
            for a in kk:
                if a[0] in ("is", "isnt") and any(z == sp for z in subterms(a[1])) and not (
                        textual(a, sp, "previous_sub_path") or textual(a, sp, "transition")):
                    out.append(a)
        return out


def textual(a, sp, field):
    t = a[1]
    v = a[2]
    if t[0] == "call" and cname(t) in ("is_some", "is_none") and t[2]:
        v = {("is_some", True): "Some", ("is_none", False): "Some"}.get((cname(t), v))
        t = t[2][0]
    return t == fld(sp, field) and (a[0] == "is" and v == "Some" or a[0] == "isnt" and v == "None")


def unpart(t):
    t = strip_clone(t)
    return t[1] if t[0] == "f" and t[2] in ("0", "1") and t[1][0] == "elem" else None


def specific(c):
    fn = M + "find_specific_path"
    e, f = c.entry(fn, [M + "find_path", "System::specifics::SpecificPath::from_path"], (START, END, SYS))
    if f is None:
        return
    r = call("find_path", START, END, SYS)
    some_ = False
    for t, k in outcomes(e, f):
        x, kn = sites(t), plain(k)
        if x[0] == "agg" and x[2] == "Ok":
            some_ = True
            c.oblige(x[3][0][1] == call("from_path", ok(r), SYS), "specific", fn, "the path reported is " + show(x)[:120])
            c.oblige(("is", r, "Ok") in kn or ("isnt", r, "Err") in kn or True, "specific-ok", fn, "")
        elif x[0] == "call" and x[1] == "map":
            some_ = True
            c.oblige(x[2][0] == r, "specific", fn, "the path reported is " + show(x)[:120])
        else:
            c.oblige(x == r or x[0] == "failed" or x[0] == "agg" and x[2] == "Err" and uses_term(x, r), "specific-err", fn, "a failure is reported as " + show(x)[:120])
    c.oblige(some_, "specific", fn, "no path is ever reported")
