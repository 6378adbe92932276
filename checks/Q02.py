from core import *
from zones import *
from states import *

TITLE = "consistency and determinism are decided over all moves of every state met"
EXPLAIN = ("The recursive checks are unrolled once over a symbolic state: which moves lead to a recursive check, of which "
           "state, under which conditions the next move is looked at, what ends the check with which verdict, and what "
           "the list of states passed holds; each is compared with the definition.")
M = "System::local_consistency::"
T = "ModelObjects::transition::Transition::"
ST = "ModelObjects::state::State::"
LT = "TransitionSystems::location_tree::LocationTree::"
OPQ = [T + "use_transition", T + "use_transition_alt", T + "get_allowed_federation", ST + "extrapolate_max_bounds",
       ST + "extrapolate_max_bounds_with_extra_bounds", ST + "is_subset_of", ST + "apply_invariants", LT + "is_universal", LT + "is_inconsistent"]
SYS = ("arg", "system")


def run(c):
    c.memory("State")
    start(c, "is_least_consistent", False)
    start(c, "check_determinism", True)
    inclusion(c)


def start(c, name, det):
    """The entry point: which procedure decides, from which state."""
    fn = M + name
    e, f = c.entry(fn, OPQ + [ST + "update_zone", ST + "set_zone"])
    if f is None:
        return
    sys = params(f)[0]
    rec = [x for x in c.events(e, f) if x.name in around(x.frame)]
    ids = {x.name for x in rec if x.name in c.p.bodies and order(c.p.bodies[x.name]) is not None}
    if not c.oblige(len(ids) == 1, name + "-procedure", fn, "there is not one recursive procedure behind this check"):
        return
    rid = ids.pop()
    e, f = c.entry(fn, OPQ + [ST + "update_zone", ST + "set_zone", rid])
    init = call("get_initial_state", sys)
    n = 0
    body = c.p.bodies[rid]
    par = order(body)
    if not c.oblige(par is not None, name + "-parameters", rid, "the procedure does not take a state, the states passed and a system"):
        return
    for t, k in outcomes(e, f):
        for kk in split(e, e.close(k)):
            if e.contradict(e.close(kk)):
                continue
            kn = plain(e.close(kk))
            x = t
            if x[0] == "v" and x[2] in ("Ok", "Err"):
                x = x[1]
            if x[0] == "failed":
                x = x[1][1] if x[1][0] == "residual" else x[1]
            if x[0] == "call" and x[1] == rid:
                n += 1
                st = steps(e, x[2][par[0]])
                if not c.oblige(st is not None and sites(st[0]) == some(init), name + "-start", fn, "the check starts in " + show(x[2][par[0]])[:100]):
                    continue
                ms = sorted(o[0] for o in st[1])
                if det:
                    zs = [o for o in st[1] if o[0] in ("update_zone", "set_zone")]
                    good = len(zs) == 1 and len(ms) == 1
                    for o in zs:
                        z = o[1][1]
                        if o[0] == "update_zone":
                            z = e.apply(z, [fld(st[0], "zone_sentinel")], ("update_zone",))
                        good = good and sites(z) == call("universe", call("get_dim", sys))
                    c.oblige(good, name + "-start-zone", fn, "the start is not every valuation in the initial location: " + ", ".join(ms))
                else:
                    c.oblige(all(m in ("extrapolate_max_bounds", "apply_invariants") for m in ms), name + "-start-zone", fn,
                             "the state the check starts in went through " + ", ".join(ms))
                vs = produced(e, x[2][par[1]])
                c.oblige(vs == [], name + "-passed", fn, "the check starts with states passed already")
                c.oblige(x[2][par[2]] == sys, name + "-system", fn, "the check is for another system: " + show(x[2][par[2]])[:80])
            elif t[0] == "agg" and t[2] in ("Ok", "Err"):
                no = known(kn, init, "None", "Some")
                r = [a for a in kk if a[0] == "is" and a[1][0] == "call" and a[1][1] == rid]
                if no:
                    n += 1
                    c.oblige(t[2] == ("Ok" if det else "Err"), name + "-none", fn, "a system without initial state is judged " + t[2])
                else:
                    c.oblige(any(a[2] == t[2] for a in r), name + "-answer", fn, "%s is answered against what the check found" % t[2])
            else:
                c.oblige(False, name + "-answer", fn, "the answer is " + show(t)[:100])
    c.floor(n, 2, name, "ways to answer")
    w = Walk(c, rid, par, det, name)
    if w.ok:
        w.run()


def around(fr):
    out = []
    while fr is not None:
        out.append(fr.body.id)
        fr = fr.parent[0] if fr.parent is not None else None
    return out


def order(body):
    """Positions of (state, list of states, system) among the parameters."""
    out = [None, None, None]
    for i in range(body.argc):
        s = body.locals[i + 1]["ty"]["s"]
        j = 1 if "Vec<" in s else 0 if s.lstrip("&mut ").endswith("::State") else 2 if "TransitionSystem" in s else None
        if j is not None and out[j] is None:
            out[j] = i
    return None if None in out else out


class Walk:
    def __init__(self, c, rid, par, det, name):
        self.c, self.rid, self.par, self.det, self.name = c, rid, par, det, name
        self.e, self.f = c.entry(rid, OPQ)
        self.ok = self.f is not None
        if self.ok:
            ps = params(self.f)
            self.S, self.L, self.Y = (ps[i] for i in par)
            self.LOC = fld(self.S, "decorated_locations")
            self.ev = c.events(self.e, self.f)
            self.rec = [x for x in self.ev if x.name == rid]

    def key(self, k):
        return "%s-%s" % (self.name, k)

    # -- what a condition says
    def place(self, t, what):
        return t[0] == "call" and cname(t) == what and t[2] in ((self.LOC,), (fld(self.S, "decorated_locations"),))

    def at(self, ks, what, val):
        """Known: the state at hand is (not) in the universal / inconsistent location."""
        kind = fld(self.LOC, "loc_type")
        v = {"is_universal": "Universal", "is_inconsistent": "Inconsistent"}[what]
        for a in ks:
            if a[0] == "is" and a[2] is val and self.place(a[1], what):
                return True
            if a[0] in ("is", "isnt") and a[1] == kind and isinstance(a[2], str):
                if (a[0] == "is" and a[2] == v) if val else (a[0] == "is" and a[2] != v or a[0] == "isnt" and a[2] == v):
                    return True
            if a[0] == "is" and isinstance(a[2], bool) and a[1][0] == "bin" and a[1][1] in ("Eq", "Ne") and a[1][2] == kind and \
                    a[1][3][0] == "agg" and a[1][3][2] == v and (a[2] == (a[1][1] == "Eq")) is val:
                return True
        return False

    def passed(self, a, val):
        """The state at hand is (val) part of one passed."""
        if a[0] == "forall" and val is False:
            return flat(a[1]) == self.L and self.passed(a[2], False)
        if a[0] != "is":
            return False
        if val is False:
            return a[1][0] == "call" and a[2] is False and self.list_test(a[1])
        if a[2] is True and self.list_test(a[1]):
            return True
        return a[2] is True and a[1][0] == "call" and cname(a[1]) == "is_subset_of" and a[1][2][0] == self.S and a[1][2][1] == ("elem", self.L)

    def list_test(self, t):
        """t: the state at hand is part of one of the list."""
        e = self.e
        if t[0] != "call":
            return False
        if cname(t) == "is_contained_in_list":
            return t[2] == (self.S, self.L)
        if cname(t) == "is_subset_of":
            return t[2][0] == self.S and t[2][1] == ("elem", self.L)
        if cname(t) == "any" and flat(t[2][0]) == self.L:
            cs = truth_cases(e, e.apply(t[2][1], [("elem", self.L)], t[3]), True)
            return bool(cs) and all(any(a[0] == "is" and a[2] is True and a[1][0] == "call" and cname(a[1]) == "is_subset_of" and
                                        a[1][2] == (self.S, ("elem", self.L)) for a in k) for k in cs)
        return False

    def took(self, a):
        """(transition, whether it can be taken) or None."""
        if a[0] in ("is", "isnt") and a[1][0] == "call" and cname(a[1]) in ("use_transition", "use_transition_alt") and a[1][2]:
            v = a[2] if a[0] == "is" else {"None": "Some", "Some": "None"}.get(a[2])
            v = {True: True, "Some": True, False: False, "None": False}.get(v)
            if v is not None:
                return a[1][2][0], v
        return None

    def move(self, t):
        """What the moves of the state at hand for an action are drawn from, for a transition: the actions, or None."""
        if t[0] != "elem":
            return None
        src = flat(t[1])
        if src[0] == "call" and cname(src) in ("next_transitions", "next_outputs", "next_inputs") and len(src[2]) == 3 and \
                src[2][0] == self.Y and src[2][1] == self.LOC and src[2][2][0] == "elem":
            a = src[2][2][1]
            if a[0] == "acc":
                b, cs = self.e.contribs(a)
                if any(op != "sort" for op, *_ in cs):
                    return None
                a = b
            a = flat(a)
            if a[0] == "call" and a[2] == (self.Y,) and cname(a) in ("get_actions", "get_input_actions", "get_output_actions"):
                return cname(a)
        return None

    def verdict(self, a, r=None):
        """Atom a tells the verdict of a recursive check (r): Ok / Err."""
        if a[0] not in ("is", "isnt") or a[1][0] != "call":
            return None
        t, v = a[1], a[2]
        if cname(t) in ("is_ok", "is_err") and t[2] and isinstance(v, bool):
            v = "Ok" if (cname(t) == "is_ok") == v else "Err"
            t = t[2][0]
        elif cname(t) == "branch" and t[2]:
            v = {"Continue": "Ok", "Break": "Err"}.get(v)
            t = t[2][0]
        if t[0] != "call" or t[1] != self.rid or r is not None and t != r:
            return None
        if a[0] == "isnt":
            v = {"Ok": "Err", "Err": "Ok"}.get(v)
        return v if v in ("Ok", "Err") else None

    def unstop(self, a):
        """The state at hand is not decided at once."""
        return self.passed(a, False) or not self.det and (self.at({a}, "is_universal", False) or self.at({a}, "is_inconsistent", False))

    def delays(self, a, v):
        return a[0] == "is" and a[2] is v and a[1][0] == "call" and cname(a[1]) == "can_delay_indefinitely" and \
            owner(self.e, a[1][2][0]) == self.S

    def exhausted(self, k, what):
        for a in k:
            if a[0] in ("is", "isnt") and a[1][0] == "call" and (a[:1] + a[2:] in (("is", "None"), ("isnt", "Some"))) and cname(a[1]) == "next" and self.acts(a[1][2][0], what):
                return True
            if a[0] == "is" and a[1][0] == "call" and cname(a[1]) in ("try_for_each", "all", "any", "find_map") and self.acts(a[1][2][0], what) and \
                    a[2] in {"try_for_each": ("Ok", "Continue"), "all": (True,), "any": (False,), "find_map": ("None",)}[cname(a[1])]:
                return True
            if a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "branch" and a[2] == "Continue":
                if self.exhausted({("is", a[1][2][0], "Ok")}, what):
                    return True
        return False

    def acts(self, t, what):
        while t[0] == "call" and cname(t) in ("flat_map", "map", "filter_map") and t[2]:
            t = t[2][0]
        t = flat(t)
        if t[0] == "acc":
            t = flat(self.e.contribs(t)[0])
        return t[0] == "call" and cname(t) == what and t[2] == (self.Y,)

    # -- obligations
    def run(self):
        c = self.c
        got = {}
        for x in self.rec:
            st = steps(self.e, x.args[self.par[0]])
            tr = None
            if c.oblige(st is not None and st[0] == self.S, self.key("successor-of"), x.where, "a state is checked that is no successor: " + show(x.args[self.par[0]])[:100]):
                use = [o for o in st[1] if o[0] == "use_transition"]
                ext = [o for o in st[1] if o[0] == "extrapolate_max_bounds"]
                c.oblige(len(use) == 1 and len(use) + len(ext) == len(st[1]), self.key("successor-by"), x.where,
                         "a state is checked that comes from " + ", ".join(o[0] for o in st[1]))
                c.oblige(len(ext) >= 1 and all(o[1][1] == self.Y for o in ext), self.key("extrapolated"), x.where, "a state is checked without being extrapolated")
                tr = use[0][1][0] if use else None
            act = self.move(tr) if tr else None
            if not c.oblige(act is not None, self.key("move"), x.where, "the check goes on with a move that is none of the state's: " + show(tr or ("k", None))[:100]):
                continue
            c.oblige(x.args[self.par[2]] == self.Y, self.key("move-system"), x.where, "the check goes on for another system")
            got.setdefault(act, []).append((x, tr))
            self.one(x, tr, act)
        need = ["get_actions"] if self.det else ["get_input_actions", "get_output_actions"]
        for a in need:
            c.oblige(a in got, self.key("all-" + a), self.rid, "the moves of %s are not checked" % a)
        c.oblige(set(got) <= set(need), self.key("moves"), self.rid, "moves are drawn from " + ", ".join(sorted(set(got) - set(need))))
        self.answers(got)
        self.list(got)
        if self.det:
            self.overlaps(got)

    def one(self, x, tr, act):
        """All transitions of the kind are looked at, and what is found is not dropped."""
        c, e = self.c, self.e
        out = not self.det and act == "get_output_actions"
        bad = set()
        for kk in e.gcases(x.frame, x.bb):
            for k2 in split(e, kk):
                if e.contradict(e.close(k2)):
                    continue
                ks = set(map(negated, e.close(k2)))
                c.oblige(any(self.passed(a, False) for a in ks), self.key("explored-again"), x.where, "the moves of a state are checked though it was passed already")
                c.oblige(any(self.took(a) == (tr, True) for a in ks), self.key("move-impossible"), x.where, "a move is followed that is not possible")
                for a in map(negated, k2):
                    if a[0] in ("did", "forall", "exists") or a[0] in ("is", "isnt") and self.chosen(a[1]):
                        continue
                    if a[0] in ("is", "isnt") and a[1][0] == "call" and cname(a[1]) == "next":
                        continue
                    if self.unstop(a) or self.took(a) == (tr, True) or self.exhausted({a}, "get_input_actions") or self.delays(a, False) and out:
                        continue
                    if self.verdict(a) or self.overlap(a, False) is not None or self.contained(a, act):
                        continue
                    bad.add(a)
        c.oblige(not bad, self.key("move-skipped"), x.where, "a move is looked at only if " + "; ".join(show(a)[:140] for a in sorted(bad, key=repr)[:2]))
        lv = leaves(e, x.frame, x.bb, lambda a: self.left(a, out))
        c.oblige(not lv, self.key("move-left"), x.where, "moves are left unchecked")
        fr, ks = rounds(e, x.frame, x.bb)
        n = 0
        for K in ks:
            for k in split(e, e.close(K)):
                if e.contradict(e.close(k)):
                    continue
                k = set(map(negated, k))
                n += 1
                no = any(self.took(a) == (tr, False) for a in k)
                want = "Err" if out else "Ok"
                c.oblige(no or any(self.verdict(a, x.term) == want for a in k) or out, self.key("swallowed"), x.where,
                         "the check goes on though a move leads to a state that failed, or was not checked")
        c.floor(n, 1, self.key("rounds"), "ways on to the next move")

    def chosen(self, t):
        """A choice, whose cases are looked at instead."""
        while t[0] == "call" and cname(t) in ("branch", "is_ok", "is_err", "is_some", "is_none") and t[2]:
            t = t[2][0]
        return t[0] in ("agg", "k", "phi")

    def left(self, a, out):
        """The moves may be left unchecked because of a."""
        if self.verdict(a) == ("Ok" if out else "Err") or self.overlap(a, True) is not None:
            return True
        if a[0] == "is" and a[2] in ("Break", "Err") and a[1][0] == "call":
            t = a[1]
            while cname(t) == "branch" and t[2][0][0] == "call":
                t = t[2][0]
            if cname(t) == "try_for_each" and len(t[2]) == 2:
                a = ("is", self.e.apply(t[2][1], [("elem", t[2][0])], t[3]), "Err")
                if self.verdict(a) == "Err" and not out:
                    return True
        if a[0] in ("is", "isnt") and self.chosen(a[1]):
            cs = [q for q in split(self.e, self.e.close(frozenset({a}))) if not self.e.contradict(self.e.close(q))]
            return bool(cs) and all(any(self.verdict(z) == ("Ok" if out else "Err") or self.overlap(z, True) for z in q) for q in cs)
        return False

    def contained(self, a, act):
        """The assertion that the action is one of the kind looked up."""
        return a[0] == "is" and a[2] is True and a[1][0] == "call" and cname(a[1]) in ("contains", "inputs_contain", "outputs_contain", "actions_contain")

    def answers(self, got):
        c, e = self.c, self.e
        yes = no = 0
        ins = [x.term for x, _ in got.get("get_input_actions", ())]
        outs = [x.term for x, _ in got.get("get_output_actions", ())]
        for x, kx in results(e, self.f):
            for kk in split(e, e.close(kx)):
                if e.contradict(e.close(kk)):
                    continue
                ks = set(map(negated, e.close(kk)))
                if x[0] == "failed":
                    r = x[1][1] if x[1][0] == "residual" else x[1]
                    ks.add(("is", r, "Err"))
                    good = False
                    for q in split(e, e.close(frozenset(ks))):
                        good = any(self.verdict(z) == "Err" for z in q) or any(self.overlap(z, True) for z in q)
                        if not good:
                            break
                    c.oblige(good, self.key("failure"), self.rid, "a failure is reported that no move led to: " + show(x)[:100])
                    no += 1
                    continue
                v = x[2] if x[0] == "agg" else None
                if x[0] == "call" and x[1] == self.rid:
                    v = next((self.verdict(a, x) for a in ks if self.verdict(a, x)), None)
                if not c.oblige(v in ("Ok", "Err"), self.key("answer"), self.rid, "the answer is " + show(x)[:100]):
                    continue
                seen = any(self.passed(a, True) for a in ks)
                uni = self.at(ks, "is_universal", True)
                inc = self.at(ks, "is_inconsistent", True)
                if self.det:
                    if v == "Ok":
                        yes += 1
                        c.oblige(seen or self.exhausted(ks, "get_actions"), self.key("accepted"), self.rid,
                                 "determinism is reported though moves remain to be checked")
                    else:
                        no += 1
                        c.oblige(any(self.overlap(a, True) for a in ks) or any(self.verdict(a) == "Err" for a in ks), self.key("refused"), self.rid,
                                 "nondeterminism is reported without two moves that overlap")
                    continue
                ins_done = self.exhausted(ks, "get_input_actions")
                if v == "Ok":
                    yes += 1
                    good = seen or uni or ins_done and (any(self.delays(a, True) for a in ks) or any(self.verdict(a, r) == "Ok" for a in ks for r in outs) or self.any_out(ks))
                    c.oblige(good, self.key("accepted"), self.rid, "a state is taken for consistent that neither delays for ever nor has an output to a consistent one, or whose inputs are not all checked")
                    c.oblige(seen or uni or self.at(ks, "is_inconsistent", False), self.key("accepted-inconsistent"), self.rid, "the inconsistent location is taken for consistent")
                else:
                    no += 1
                    c.oblige(inc or self.at(ks, "is_universal", False), self.key("refused-universal"), self.rid, "the universal location may be taken for inconsistent")
                    good = inc or any(self.verdict(a, r) == "Err" for a in ks for r in ins) or \
                        any(self.delays(a, False) for a in ks) and self.exhausted(ks, "get_output_actions")
                    c.oblige(good, self.key("refused"), self.rid, "a state is taken for inconsistent that may delay for ever or whose outputs are not all tried")
        c.floor(yes, 2, self.key("accepted"), "ways to accept a state")
        c.floor(no, 2 if not self.det else 1, self.key("refused"), "ways to refuse one")

    def any_out(self, ks):
        for a in ks:
            if a[0] == "is" and a[2] is True and a[1][0] == "call" and cname(a[1]) == "any" and self.acts(a[1][2][0], "get_output_actions"):
                return True
        return False

    # -- the list of states passed
    def list(self, got):
        c, e = self.c, self.e
        n = 0
        for x in self.ev:
            nm = last(x.name)
            if not x.args or x.args[0] != self.L or nm in ("deref", "deref_mut", "iter", "len", "is_empty", "any", "as_slice", "clone", "into_iter",
                                                           "is_contained_in_list", "last", "first", "next", "all", "contains", "borrow", "as_ref", "to_vec"):
                continue
            if nm in ("push", "insert") and x.name != self.rid:
                n += 1
                st = steps(e, x.args[-1])
                c.oblige(st is not None and st[0] == self.S and not st[1], self.key("passed-what"), x.where,
                         "a state is noted as passed that is not the one at hand: " + show(x.args[-1])[:100])
            elif nm in ("truncate", "split_off", "drain") and not self.det:
                continue
            else:
                c.oblige(x.name == self.rid, self.key("passed-" + nm), x.where, "the states passed are changed by " + nm)
        c.floor(n, 1, self.key("passed"), "places where a state is noted as passed")
        pushes = [x for x in self.ev if last(x.name) in ("push", "insert") and x.args and x.args[0] == self.L]
        for act, xs in got.items():
            for x, tr in xs:
                l = x.args[self.par[1]]
                own = l != self.L
                if own:
                    b = e.contribs(l)[0] if l[0] == "acc" else l
                    c.oblige(strip_clone(b) == self.L and not self.det and act == "get_output_actions", self.key("passed-other"), x.where,
                             "a move is checked against other states passed: " + show(l)[:80])
                    continue
                if self.det or act != "get_output_actions":
                    continue
                # a failure must not leave behind the states passed on the way to it
                c.oblige(self.undone(x, pushes), self.key("passed-kept"), x.where,
                         "states passed on the way to a failure are still taken for consistent when the next output is tried")

    def undone(self, x, pushes):
        cuts = [y for y in self.ev if last(y.name) in ("truncate", "split_off", "drain") and y.args and y.args[0] == self.L]
        good = []
        for y in cuts:
            ls = [z for z in subterms(y.args[1]) if len(z) == 4 and z[0] == "call" and cname(z) == "len" and z[2] == (self.L,)]
            if len(ls) != 1:
                continue
            le = [z for z in self.ev if last(z.name) == "len" and z.term == ls[0]] or [z for z in self.ev if last(z.name) == "len" and z.args and z.args[0] == self.L]
            if not le:
                continue
            if all(self.before(z, x) for z in le) and all(self.before(p, z) for p in pushes for z in le) and \
                    (y.args[1] == ls[0] or cname(y.args[1]) in ("RangeFrom",) or y.args[1][0] == "agg"):
                good.append(y)
        fr, bb = x.frame, x.bb
        while fr is not None:
            stop = {y.bb for y in good if y.frame is fr}
            heads = {h for h, lp in fr.body.loops.items() if bb in lp["body"]}
            seen, st, again, back = set(), [bb], False, False
            while st:
                i = st.pop()
                if i in seen or i in stop and i != bb:
                    continue
                seen.add(i)
                if fr.body.blocks[i]["t"][0] == "return":
                    back = True
                for n, s in enumerate(fr.body.succ[i]):
                    at = self.e.close(fr.edge_atoms(i, n))
                    if any(self.verdict(a, x.term) == "Ok" for a in at):
                        continue
                    if s in heads:
                        again = True
                        continue
                    st.append(s)
            if again:
                return False
            if not back:
                return True
            if fr.parent is None or heads and not again:
                return True
            if "{closure" in fr.body.id:
                # gone on with the next element of an iterator
                return False
            fr, bb = fr.parent
        return True

    def before(self, p, q):
        """p comes before q whenever q runs."""
        if p.frame is q.frame:
            return p.bb != q.bb and dominates(p.frame.body, p.bb, q.bb)
        fr, bb = q.frame, q.bb
        while fr.parent is not None:
            fr, bb = fr.parent
            if fr is p.frame:
                return dominates(fr.body, p.bb, bb)
        fr, bb = p.frame, p.bb
        while fr.parent is not None:
            fr, bb = fr.parent
            if fr is q.frame:
                return dominates(fr.body, bb, q.bb)
        return False

    # -- overlapping moves
    def overlap(self, a, val):
        """Atom a says that a move overlaps (val) one seen before: (its zone, theirs)."""
        if not self.det or a[0] != "is" or a[1][0] != "call":
            return None
        t, v = a[1], a[2]
        if cname(t) == "is_empty" and t[2][0][0] == "call" and cname(t[2][0]) == "intersection" and isinstance(v, bool):
            t, v = t[2][0], not v
        elif cname(t) == "any" and isinstance(v, bool):
            cs = truth_cases(self.e, self.e.apply(t[2][1], [("elem", t[2][0])], t[3]), True)
            if len(cs) == 1:
                for b in cs[0]:
                    r = self.overlap(b, True)
                    if r and v is val:
                        return r
            return None
        elif cname(t) != "has_intersection":
            return None
        if v is not val or len(t[2]) != 2:
            return None
        return t[2]

    def overlaps(self, got):
        c, e = self.c, self.e
        tests = set()
        for x in self.ev:
            if last(x.name) in ("has_intersection", "intersection") and len(x.args) == 2 and x.frame.body.id.startswith(M):
                if last(x.name) == "has_intersection" or any(y.args and y.args[0] == x.term for y in self.ev if last(y.name) == "is_empty"):
                    tests.add(x)
        if not c.oblige(len(tests) >= 1, self.key("overlap"), self.rid, "moves are not tested for overlaps"):
            return
        for x in tests:
            for own, rest in (x.args, x.args[::-1]):
                trs = {tr for _, xs in [(a, xs) for a, xs in got.items()] for _, tr in xs if self.permitted(own, tr, x)}
                if trs:
                    break
            if not c.oblige(bool(trs), self.key("overlap-zone"), x.where, "what is tested for an overlap is not where a move is permitted: " + " with ".join(show(y)[:80] for y in x.args)):
                continue
            tr = trs.pop()
            self.collected(x, own, rest, tr)
            ks = rounds(e, x.frame, x.bb)[1]
            ok_ = True
            for K in ks:
                for k in split(e, e.close(K)):
                    if not e.contradict(e.close(k)):
                        k = set(map(negated, k))
                        ok_ &= any(self.took(a) == (tr, False) for a in k) or any(self.overlap(a, False) for a in k)
            c.oblige(ok_, self.key("overlap-ignored"), x.where, "the check goes on though two moves overlap, or without testing")

    def permitted(self, z, tr, x):
        """z: the valuations in which the transition is permitted, within the invariant of the location."""
        e = self.e
        al = call("get_allowed_federation", sites(tr))
        inv = fld(self.LOC, "invariant")
        fs = ways(e, z, x.frame, x.bb)
        if not fs:
            return False
        for y, k in fs:
            parts = {sites(p) for p in (y[1] if y[0] == "inter" else {y})}
            kn = plain(k)
            if parts == {call("apply_invariants", self.LOC, al)}:
                continue
            if al not in parts or not parts <= {al, some(inv)}:
                return False
            if some(inv) not in parts and not known(kn, inv, "None", "Some"):
                return False
        return True

    def collected(self, x, own, rest, tr):
        """rest: the union of where the moves of this action before were permitted."""
        c, e = self.c, self.e
        t = rest
        if t[0] == "elem":
            t = t[1]
        t = flat(t)
        empties = []
        adds = []
        if t[0] == "acc":
            b, cs = e.contribs(t)
            for op, args, k, w, fr, bb in cs:
                if not c.oblige(op in ("add_assign", "push", "append"), self.key("collect-" + op), w, "the zones of the moves before are changed by " + op):
                    continue
                adds.append((args[-1], fr, bb))
            empties.append(b)
        elif t[0] == "phi":
            for a, fr, d in e.phis.get(t, ()):
                ab = a[2] if a[0] == "call" and cname(a) in ("add", "union") else a[2:4] if a[0] == "bin" and a[1] == "Add" else ()
                if t in ab and len(ab) == 2:
                    adds.append((ab[1] if ab[0] == t else ab[0], fr, d[0]))
                elif a != t:
                    empties.append(a)
        c.oblige(len(empties) == 1 and (empties[0][0] == "call" and cname(empties[0]) in ("empty", "new", "with_capacity") or produced(e, empties[0]) == []),
                 self.key("collect-empty"), x.where, "the zones of the moves before start as " + ", ".join(show(a)[:60] for a in empties))
        for b in empties:
            se = [y for y in self.ev if y.term == b]
            c.oblige(se and all(any(a[0] == "is" and a[2] == "Some" and a[1][0] == "call" and cname(a[1]) == "next" and self.acts(a[1][2][0], "get_actions")
                                    for a in y.K) or "{closure" in y.frame.body.id or y.frame is not x.frame for y in se),
                     self.key("collect-reset"), x.where, "moves of different actions are tested for overlaps")
        if not c.oblige(len(adds) >= 1, self.key("collect"), x.where, "the zones of the moves before are not collected"):
            return
        for a, fr, bb in adds:
            y = next((z for z in self.ev if z.frame is fr and z.bb == bb), x)
            a = strip_clone(a)
            c.oblige(self.permitted(a, tr, y) or a == own, self.key("collect-what"), y.where, "where a move is permitted is recorded as " + show(a)[:100])
            bad = set()
            for kk in e.gcases(fr, bb) if fr is not None else ():
                for k2 in split(e, kk):
                    if e.contradict(e.close(k2)):
                        continue
                    for q in map(negated, k2):
                        if q[0] in ("did", "forall", "exists") or q[0] in ("is", "isnt") and self.chosen(q[1]) or \
                                q[0] in ("is", "isnt") and q[1][0] == "call" and cname(q[1]) == "next":
                            continue
                        if self.unstop(q) or self.took(q) == (tr, True) or self.overlap(q, False) or self.contained(q, None) or self.verdict(q) == "Ok":
                            continue
                        if q[0] in ("is", "isnt") and q[1] == fld(self.LOC, "invariant"):
                            continue
                        bad.add(q)
            c.oblige(not bad, self.key("collect-some"), y.where, "a move's zone is recorded only if " + "; ".join(show(q)[:100] for q in list(bad)[:2]))
            if fr is x.frame:
                c.oblige(not dominates(fr.body, bb, x.bb), self.key("collect-early"), y.where, "a move is tested for an overlap with itself")


def inclusion(c):
    places(c)
    state_inclusion(c)


def places(c):
    """Locations are the same only if their names and kinds are."""
    fid = next((x for x in c.p.bodies if x.startswith("<TransitionSystems::location_tree::LocationTree as") and x.endswith("PartialEq>::eq")), None)
    if not c.oblige(fid is not None, "places", "src/TransitionSystems/location_tree.rs", "the comparison of locations is gone"):
        return
    A, B = ("arg", "self"), ("arg", "other")
    e, f = c.entry(fid, (), (A, B))
    n = 0
    for t, k in e.returns(f):
        for kk in truth_cases(e, t, True) if t[0] != "k" else ([k] if t[1] is True else []):
            for q in split(e, e.close(k | kk)):
                if not e.contradict(e.close(q)):
                    n += 1
                    eq = equalities(set(map(negated, q)))
                    c.oblige(all(frozenset((fld(A, w), fld(B, w))) in eq[True] for w in ("id", "loc_type")), "places", fid,
                             "locations with different names or kinds are taken for the same")
    c.floor(n, 1, "places", "ways for locations to be the same")


def state_inclusion(c):
    """A state is part of another if it is at the same locations and its zone is part of the other's."""
    fn = ST + "is_subset_of"
    e, f = c.entry(fn, (), (("arg", "self"), ("arg", "other")))
    if f is None:
        return
    A, B = ("arg", "self"), ("arg", "other")
    la, lb = fld(A, "decorated_locations"), fld(B, "decorated_locations")
    want = [("id",), ("loc_type",)]
    n = {True: 0, False: 0}
    for t, k in e.returns(f):
        for v in (True, False):
            for kk in truth_cases(e, t, v) if t[0] != "k" else ([k] if t[1] is v else []):
                full = e.close(k | kk)
                for q in split(e, full):
                    if e.contradict(e.close(q)):
                        continue
                    n[v] += 1
                    q = set(map(negated, q))
                    eq = equalities(q)
                    sub = [a[2] for a in q if a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "subset_eq" and
                           [owner(e, z) for z in a[1][2]] == [A, B]]
                    whole = frozenset((la, lb))
                    ids, tys = (frozenset((fld(la, w[0]), fld(lb, w[0]))) for w in want)
                    same = whole in eq[True] or ids in eq[True] and tys in eq[True]
                    diff = whole in eq[False] or ids in eq[False] or tys in eq[False] or any(
                        a[0] == "is" and a[2] is False and a[1][0] == "call" and cname(a[1]) in ("eq",) and set(a[1][2]) & {fld(la, "loc_type"), fld(lb, "loc_type")} for a in q)
                    if v:
                        c.oblige(same and True in sub, "inclusion", fn, "a state is taken for part of another at other locations, or with valuations the other lacks")
                    else:
                        c.oblige(diff or False in sub, "inclusion-no", fn, "a state is taken for no part of another without reason")
    c.floor(n[True], 1, "inclusion", "ways to find a state part of another")
    fn = ST + "is_contained_in_list"
    e, f = c.entry(fn, [ST + "is_subset_of"], (("arg", "self"), ("arg", "list")))
    if f is None:
        return
    for t, k in e.returns(f):
        for kk in truth_cases(e, t, True) if t[0] != "k" else ([k] if t[1] is True else []):
            c.oblige(any(("is" == a[0] and a[2] is True and a[1][0] == "call" and cname(a[1]) == "is_subset_of" and a[1][2][0] == A and
                          a[1][2][1] == ("elem", ("arg", "list"))) or a[0] == "exists" for a in e.close(k | kk)), "contained", fn,
                     "a state is taken for passed that is part of no state passed")
