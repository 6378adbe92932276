from core import *
from zones import *
import sets
from sets import conj, alt, neg, implies
from systems import *

TITLE = "composition and conjunction have the actions, transitions and states of their definition"
EXPLAIN = ("The sets of actions a composed system ends up with are reduced to Boolean functions of membership in the action "
           "sets of its operands and compared, for every way an action can belong to them, with the definition; likewise "
           "what is refused. The system built on success is then passed to its own methods: for every way an action can "
           "belong to the operands the joint transitions are compared with the definition, and locations, initial "
           "states and checks with those of both operands.")
T = "ModelObjects::transition::Transition"
L = "TransitionSystems::location_tree::LocationTree"
AF = "System::query_failures::ActionFailure"
STOP = [AF + "::not_disjoint", AF + "::to_rfcomp", AF + "::to_rfconj", "System::local_consistency::is_least_consistent",
        "System::query_failures::ConsistencyFailure::to_recipe_failure"]
LEFT, RIGHT = ("arg", "left"), ("arg", "right")


LI, LO = base(LEFT, "input"), base(LEFT, "output")
RI, RO = base(RIGHT, "input"), base(RIGHT, "output")
# no action is both input and output of one system
SOUND = neg(alt(conj(LI, LO), conj(RI, RO)))


class Spec:
    def __init__(self, nm, adt):
        self.nm, self.adt, self.left, self.right = nm, adt, LEFT, RIGHT
        comp = nm == "Composition"
        self.inputs = alt(conj(LI, neg(RO)), conj(RI, neg(LO))) if comp else conj(LI, RI)
        self.outputs = alt(LO, RO) if comp else conj(LO, RO)
        self.clash = [conj(LO, RO)] if comp else [conj(LI, RO), conj(LO, RI)]


def build(c, s):
    """Check the constructor; what it builds."""
    fn = s.adt + "::new_ts"
    e, f = c.entry(fn, STOP, (LEFT, RIGHT, ("arg", "dim")))
    if f is None:
        return None
    built, n = [], 0
    for t, k in e.returns(f):
        kd = kind(t)
        if not c.oblige(kd in ("Ok", "Err"), "new-" + s.nm, fn, "the construction of a %s ends in %s" % (s.nm, show(t)[:80])):
            continue
        try:
            no, yes = sets.empties(e, k)
        except sets.NoSet as x:
            c.oblige(False, "new-sets-" + s.nm, fn, "the condition of the construction is not about sets of actions: %s" % x)
            continue
        no, yes = [norm(x) for x in no], [norm(x) for x in yes]
        n += 1
        bad = [a for a in k if a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "is_least_consistent" and a[2] in (
            "Err", False)] + [a for a in k if a[0] == "isnt" and a[1][0] == "call" and
                              cname(a[1]) == "is_least_consistent" and a[2] == "Ok"]
        if kd == "Ok":
            for x in s.clash:
                c.oblige(any(implies(conj(SOUND, x), y) for y in no), "new-disjoint-" + s.nm, fn,
                         "a %s is built though the operands' actions may clash" % s.nm)
            if s.nm == "Conjunction":
                c.oblige(any(a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "is_least_consistent" and
                             a[2] in ("Ok", True) or a[0] == "isnt" and a[1][0] == "call" and
                             cname(a[1]) == "is_least_consistent" and a[2] == "Err" for a in k), "new-consistent", fn,
                         "a conjunction is built without being found consistent")
            built.append((e, t[3][0][1], k, no))
        else:
            clash = any(implies(conj(SOUND, y), alt(*s.clash)) for y in yes)
            c.oblige(clash or (bad and s.nm == "Conjunction"), "new-refused-" + s.nm, fn,
                     "a %s is refused though no actions clash%s" % (
                         s.nm, " and it is consistent" if s.nm == "Conjunction" else ""))
    c.floor(n, 2, "new-" + s.nm, "outcomes of the construction of a " + s.nm)
    c.floor(len(built), 1, "new-ok-" + s.nm, "successful constructions of a " + s.nm)
    return built


def sets_of(c, s, sysm, no):
    want = {"get_input_actions": s.inputs, "get_output_actions": s.outputs, "get_actions": alt(s.inputs, s.outputs)}
    for m, w in want.items():
        fn = public(c, s.adt, m)
        if not c.oblige(fn is not None, "%s-%s" % (m, s.nm), s.adt, "a %s has no %s" % (s.nm, m)):
            continue
        e, f = entry(c, sysm, fn, (), (sysm[1],))
        if f is None:
            continue
        try:
            got = norm(sets.given(sets.one(e, f.ret()), sysm[2]))
        except sets.NoSet as x:
            c.oblige(False, "%s-%s" % (m, s.nm), fn, "the actions of a %s are not made of those of its operands: %s" % (s.nm, x))
            continue
        ctx = conj(SOUND, *[neg(x) for x in no])
        vs = sorted(sets.variables(got) | sets.variables(w) | {LI, LO, RI, RO}, key=repr)
        extra = [v for v in vs if v not in (LI, LO, RI, RO)]
        c.oblige(not extra, "%s-%s-other" % (m, s.nm), fn, "the actions of a %s depend on %s" % (
            s.nm, "; ".join(show(v[1])[:80] for v in extra[:2])))
        if extra:
            continue
        for v in sets.assignments(vs):
            if sets.value(ctx, v):
                c.oblige(sets.value(got, v) == sets.value(w, v), "%s-%s" % (m, s.nm), fn,
                         "an action that is %s is %sin %s of a %s" % (
                             ", ".join(n for x, n in ((LI, "an input of the left operand"), (LO, "an output of the left operand"),
                                                      (RI, "an input of the right operand"),
                                                      (RO, "an output of the right operand")) if v[x]) or "of neither operand",
                             "" if sets.value(got, v) else "not ", m, s.nm))


def moves(c, s, sysm, no):
    fn = public(c, s.adt, "next_transitions")
    if not c.oblige(fn is not None, "next-" + s.nm, s.adt, "a %s has no next_transitions" % s.nm):
        return
    loc, act = ("arg", "loc"), ("arg", "action")
    e, f = entry(c, sysm, fn, [T + "::combinations", T + "::without_id"], (sysm[1], loc, act))
    if f is None:
        return
    sysd = dict(sysm[1][3])
    res = []
    for t, k in e.returns(f):
        kk = frozenset(a for a in k if a[0] != "did")
        try:
            g = norm(sets.given(sets.about(e, kk, act), sysm[2]))
        except sets.NoSet as x:
            c.oblige(False, "next-" + s.nm, fn, "the transitions of a %s depend on %s" % (s.nm, x))
            return
        res.append((t, kk, g))
    ctx = conj(SOUND, *[neg(x) for x in no], alt(s.inputs, s.outputs))
    n = 0
    for v in sets.assignments({LI, LO, RI, RO}):
        if not sets.value(ctx, v):
            continue
        who = ", ".join(x for y, x in ((LI, "input of the left"), (LO, "output of the left"), (RI, "input of the right"),
                                       (RO, "output of the right")) if v[y])
        outs = []
        for t, k, g in res:
            fixed = conj(g, *[y if v[y] else neg(y) for y in (LI, LO, RI, RO)])
            if sat(fixed):
                outs.append((t, k))
        c.oblige(bool(outs), "next-some-" + s.nm, fn, "a %s has no transitions for an %s operand" % (s.nm, who))
        for t, k in outs:
            n += 1
            sides = {}
            for nm, side, has in (("left", LEFT, v[LI] or v[LO]), ("right", RIGHT, v[RI] or v[RO])):
                l = some(fld(loc, nm))
                sides[nm] = ("next_transitions", side, l, act) if has else ("without_id", l, sysd.get("dim"))
            fixed = conj(*[y if v[y] else neg(y) for y in (LI, LO, RI, RO)])
            good, why = joint_ok(e, t, k, sides, s.nm, lambda kk: sat(conj(fixed, norm(sets.given(sets.about(e, kk, act), sysm[2])))))
            c.oblige(good, "next-%s-%s" % (s.nm, "-".join("%d" % v[y] for y in (LI, LO, RI, RO))), fn,
                     "for an %s operand a %s has %s" % (who, s.nm, why))
    c.floor(n, 2, "next-" + s.nm, "transitions of a " + s.nm)


def joint_ok(e, t, k, sides, nm, can):
    bad = ""
    for a, ka in expand(e, t, k):
        if not can(ka):
            continue
        if a[0] != "call" or cname(a) != "combinations" or len(a[2]) != 3:
            return False, "the transitions " + show(a)[:120]
        ty = a[2][2]
        if ty[0] != "agg" or ty[2] != nm:
            return False, "transitions combined as " + show(ty)
        for x, w in zip(a[2], ("left", "right")):
            for y, ky in expand(e, x, ka):
                if can(ky) and not is_side(e, y, sides[w]):
                    bad = "on the %s the transitions %s" % (w, show(y)[:120])
    return not bad, bad


def is_side(e, y, want):
    if want[0] == "next_transitions":
        return y[0] == "call" and cname(y) in ("next_transitions", "next_outputs", "next_inputs", "next_transitions_if_available") \
            and tuple(y[2]) == want[1:]
    els = e.arr_elems(y)
    if els is None and y[0] == "acc":
        p = produced(e, y)
        els = [x for x, k, fr, bb in p] if p is not None else None
    if els is None and y[0] == "call" and cname(y) in ("from_elem",) and y[2][1] == ("k", 1):
        els = [y[2][0]]
    if els is None and y[0] == "call" and cname(y) == "collect" and y[2][0][0] == "call" and cname(y[2][0]) == "once":
        els = [y[2][0][2][0]]
    return els is not None and len(els) == 1 and els[0][0] == "call" and cname(els[0]) == "without_id" and \
        tuple(els[0][2]) == want[1:]


def lifted(c, s, sysm):
    """Locations, initial state and checks of a composed system."""
    sysd = dict(sysm[1][3])
    dim = sysd.get("dim")
    c.oblige(dim == ("arg", "dim"), "dim-" + s.nm, s.adt, "the dimension of a %s is %s" % (s.nm, show(dim) if dim else "?"))

    def at(m, args=(), opaque=(), own=(TS,)):
        fn = impl(c, s.adt, m, own)
        if not c.oblige(fn is not None, "%s-%s" % (m, s.nm), s.adt, "a %s has no %s" % (s.nm, m)):
            return None, None, None
        e, f = entry(c, sysm, fn, opaque, (sysm[1],) + tuple(args))
        return fn, e, f
    fn, e, f = at("get_dim")
    if f is not None:
        for t, k in outcomes(e, f):
            c.oblige(t == ("arg", "dim"), "get-dim-" + s.nm, fn, "the dimension of a %s is %s" % (s.nm, show(t)))
    fn, e, f = at("get_composition_type")
    if f is not None:
        for t, k in outcomes(e, f):
            c.oblige(t[0] == "agg" and t[2] == s.nm, "type-" + s.nm, fn, "the kind of a %s is %s" % (s.nm, show(t)))
    fn, e, f = at("get_children")
    if f is not None:
        for t, k in outcomes(e, f):
            c.oblige(t[0] == "agg" and [x for _, x in t[3]] == [LEFT, RIGHT], "children-" + s.nm, fn,
                     "the operands of a %s are %s" % (s.nm, show(t)[:100]))
    # initial location
    fn, e, f = at("get_initial_location", (), [L + "::compose"])
    init = [call("get_initial_location", LEFT), call("get_initial_location", RIGHT)]
    if f is not None:
        n = 0
        for t, k in outcomes(e, f):
            for a, ka in expand(e, t, k):
                n += 1
                kn = plain(ka)
                have = [("is", x, "Some") in kn or ("isnt", x, "None") in kn for x in init]
                lack = [("is", x, "None") in kn or ("isnt", x, "Some") in kn for x in init]
                if a[0] == "agg" and a[2] == "Some":
                    x = sites(a[3][0][1])
                    c.oblige(x[0] == "call" and x[1] == "compose" and x[2][:2] == (some(init[0]), some(init[1])) and
                             x[2][2][0] == "agg" and x[2][2][2] == s.nm, "initial-" + s.nm, fn,
                             "the initial location of a %s is %s" % (s.nm, show(a)[:150]))
                elif a[0] == "agg" and a[2] == "None" or a[0] == "failed":
                    c.oblige(any(lack) or a[0] == "failed" and mentions_name(a, "get_initial_location"),
                             "initial-none-" + s.nm, fn, "a %s of systems with initial locations has none" % s.nm)
                else:
                    c.oblige(False, "initial-" + s.nm, fn, "the initial location of a %s is %s" % (s.nm, show(a)[:150]))
        c.floor(n, 2, "initial-" + s.nm, "outcomes of the initial location of a " + s.nm)
    # all locations
    fn, e, f = at("get_all_locations", (), [L + "::compose"])
    if f is not None:
        pairs(c, e, f, s, fn)
    # from a specific location
    sl = ("arg", "target")
    fn, e, f = at("construct_location_tree", (sl,), [L + "::compose", "System::specifics::SpecificLocation::split"])
    if f is not None:
        n = 0
        sp = call("split", sl)
        want = [call("construct_location_tree", LEFT, ("f", sp, "0")), call("construct_location_tree", RIGHT, ("f", sp, "1"))]
        for t, k in outcomes(e, f):
            for a, ka in expand(e, t, k):
                n += 1
                if a[0] == "agg" and a[2] == "Ok":
                    x = sites(a[3][0][1])
                    c.oblige(x[0] == "call" and x[1] == "compose" and x[2][:2] == (ok(want[0]), ok(want[1])) and
                             x[2][2][0] == "agg" and x[2][2][2] == s.nm, "locate-" + s.nm, fn,
                             "the location of a %s built for a given one is %s" % (s.nm, show(a)[:150]))
                else:
                    c.oblige(a[0] == "failed" or a[0] == "agg" and a[2] == "Err" and any(
                        ("is", x, "Err") in plain(ka) or ("isnt", x, "Ok") in plain(ka) for x in want), "locate-err-" + s.nm, fn,
                        "a location of a %s is refused" % s.nm)
        c.floor(n, 2, "locate-" + s.nm, "outcomes of finding a location of a " + s.nm)
    # checks
    for m in ("check_determinism", "check_local_consistency"):
        fn, e, f = at(m)
        if f is not None:
            both(c, e, f, m, s, fn)
    # declarations
    fn, e, f = at("get_decls")
    if f is not None:
        for t, k in outcomes(e, f):
            ps = concat(e, t)
            c.oblige(ps is not None and [sites(x) for x in ps] == [call("get_decls", LEFT), call("get_decls", RIGHT)],
                     "decls-" + s.nm, fn, "the declarations of a %s are %s" % (
                         s.nm, [show(x)[:60] for x in ps] if ps is not None else show(t)[:100]))
    # initial state
    fn, e, f = at("get_initial_state", (), [L + "::apply_invariants", impl(c, s.adt, "get_initial_location", (TS,))])
    if f is not None:
        init_state(c, e, f, s, fn, sites(sysm[1]))


def defaults(c):
    """Methods every system has."""
    me, loc, act = ("arg", "self"), ("arg", "loc"), ("arg", "action")
    for m, w in (("actions_contain", "get_actions"), ("inputs_contain", "get_input_actions"),
                 ("outputs_contain", "get_output_actions")):
        fn = TS + "::" + m
        e, f = c.entry(fn, (), (me, act))
        if f is None:
            continue
        for val in (True, False):
            for t, k in outcomes(e, f):
                for kk in truth_cases(e, t, val, k):
                    g = sets.about(e, kk, act)
                    want = ("in", (w, me))
                    alt_ = alt(("in", ("get_input_actions", me)), ("in", ("get_output_actions", me)))
                    c.oblige(any(implies(g, x if val else neg(x)) for x in ([want, alt_] if m == "actions_contain" else [want])),
                             m, fn, "%s is %s of the wrong actions" % (m, val))
    for m in ("next_outputs", "next_inputs"):
        fn = TS + "::" + m
        e, f = c.entry(fn, (), (me, loc, act))
        if f is None:
            continue
        for t, k in outcomes(e, f):
            for a, ka in expand(e, t, k):
                c.oblige(sites(a) == call("next_transitions", me, loc, act), m, fn, "%s are %s" % (m, show(a)[:100]))
    fn = TS + "::next_transitions_if_available"
    e, f = c.entry(fn, (), (me, loc, act))
    if f is not None:
        n = 0
        for t, k in outcomes(e, f):
            for a, ka in expand(e, t, k):
                g = norm(sets.about(e, ka, act))
                n += 1
                mine = norm(("in", ("get_actions", me)))
                if sites(a) == call("next_transitions", me, loc, act):
                    continue
                c.oblige(produced(e, a) == [] and implies(g, neg(mine)), "available", fn,
                         "the transitions for an action of the system are " + show(a)[:100])
        c.floor(n, 1, "available", "outcomes of next_transitions_if_available")
    fn = TS + "::precheck_sys_rep"
    e, f = c.entry(fn, (), (me,))
    if f is not None:
        a, b = call("check_determinism", me), call("check_local_consistency", me)
        for t, k in outcomes(e, f):
            for x, kx in expand(e, t, k):
                y, kn = sites(x), plain(kx)
                okd = {z: ("is", z, "Ok") in kn or ("isnt", z, "Err") in kn for z in (a, b)}
                if y[0] == "agg" and y[2] == "Ok":
                    c.oblige(all(okd.values()), "precheck", fn, "a system passes without having been checked")
                elif y in (a, b):
                    c.oblige(okd[b if y == a else a] or known(kn, y, "Err", "Ok"), "precheck", fn, "a system passes without having been checked")
                else:
                    c.oblige(uses_term(y, a) or uses_term(y, b) or any(("is", z, "Err") in kn for z in (a, b)), "precheck-err", fn,
                             "a system is refused for another reason: " + show(x)[:100])
    fn = TS + "::get_location"
    e, f = c.entry(fn, (), (me, ("arg", "id")))
    if f is not None:
        n = 0
        al = call("get_all_locations", me)
        for t, k in outcomes(e, f):
            for a, ka, _ in deep(e, t, k):
                n += 1
                ok_ = finds(e, a, ka, al, ("arg", "id"))
                c.oblige(ok_, "get-location", fn, "the location with an id is " + show(a)[:120])
        c.floor(n, 1, "get-location", "outcomes of get_location")
    nd = AF + "::not_disjoint"
    e, f = c.entry(nd, [TS + "::to_string"])
    if f is not None:
        for t, k in outcomes(e, f):
            c.oblige(t[0] == "agg" and t[2] == "Err", "not-disjoint", nd, "a clash of actions is not reported as an error")
    # what the parts of a clash are: both sides by name
    for m, w in (("component_names", "component_names"),):
        fn = TS + "::" + m
        e, f = c.entry(fn, (), (me,))
        if f is None:
            continue
        ch = call("get_children", me)
        for t, k in outcomes(e, f):
            ps = concat(e, t)
            c.oblige(ps is not None and [sites(x) for x in ps] == [call(w, ("f", ch, "0")), call(w, ("f", ch, "1"))], m, fn,
                     "the components of a system are not those of its left and then its right operand")


def run(c):
    for nm, mod in (("Composition", "composition"), ("Conjunction", "conjunction")):
        s = Spec(nm, "TransitionSystems::%s::%s" % (mod, nm))
        for b in build(c, s) or ():
            sets_of(c, s, b, b[3])
            moves(c, s, b, b[3])
            lifted(c, s, b)
    defaults(c)
