import zones
from zones import *
from states import flat
from tables import *
from core import *

TITLE = "a simulation offers exactly the decisions a state allows, and takes the one chosen"
EXPLAIN = ("The functions of the simulation are evaluated over compiler MIR; the decisions put into the list that is returned "
           "are compared, field by field and condition by condition, with one decision for each transition of each action whose "
           "allowed valuations meet the state, the chosen decision with the single successor of its own state, and the "
           "responses of both requests with the decisions and states they are made of.")
D = "Simulation::decision::Decision::"
T = "ModelObjects::transition::Transition::"
ST = "ModelObjects::state::State::"
TS = "TransitionSystems::transition_system::TransitionSystem::"
OPQ = [T + "use_transition", T + "use_transition_alt", T + "get_allowed_federation", ST + "update_zone", ST + "set_zone", ST + "apply_invariants",
       ST + "extrapolate_max_bounds", ST + "extrapolate_max_bounds_with_extra_bounds"]
A = lambda x: ("arg", x)
arg = lambda *xs: lambda V: tuple(A(x) for x in xs)


def run(c):
    c.memory("State")
    n = offered(c, "get_decisions_from_state", lambda e, s, f: s == params(f)[0], "the state asked for")
    n += offered(c, "get_initial_decisions", lambda e, s, f: s == some(call("get_initial_state", params(f)[0])), "the initial state", sysat=0)
    n += offered(c, "resolve", successor, "the state the decision leads to")
    n += built(c)
    n += responses(c)
    c.floor(n, 9, "decisions", "ways to a decision or response")


def zone_of(e, st):
    """(locations, possible zones, state it was made of) of a state term."""
    ops = []
    base = unclone(st)
    while base[0] == "acc":
        base, cs = e.contribs(base)
        base = unclone(base)
        ops += cs
    loc, z = fld(base, "decorated_locations"), some(fld(base, "zone_sentinel"))
    if base[0] == "agg" and last(base[1]) == "State":
        d = dict(base[3])
        loc, z = d["decorated_locations"], d["zone_sentinel"]
        z = z[3][0][1] if z[0] == "agg" and z[2] == "Some" else some(z)
    elif base[0] == "call" and base[1] == ST + "new":
        loc, z = base[2]
    if len(ops) > 1 and all(op == "@call" and cname(x[0]) in ("update_zone", "set_zone") for op, x, *_ in ops):
        raise Undecided("a zone is changed more than once")
    for op, xs, *_ in ops:
        x = xs[0] if xs else None
        if op == "@call" and cname(x) == "update_zone":
            z = e.apply(x[2][1], [z], ("update_zone",))
        elif op == "@call" and cname(x) == "set_zone":
            z = x[2][1]
        else:
            z = ("changed", op if op != "@call" else cname(x), z)
    return loc, [y for y, _ in forms(e, z)], base


def parts(z):
    return {sites(x) for x in (z[1] if z[0] == "inter" else [z])}


def successor(e, s, f):
    """s is the only state that the transitions of the decision's own action lead to from the decision's state."""
    self, sysm = params(f)[:2]
    src = fld(self, "state")
    return ("one of", src, fld(self, "action"), sysm)


def offered(c, name, start, what, sysat=1):
    e, f = c.entry(D + name, OPQ)
    if f is None:
        return 0
    sysm = sites(params(f)[sysat])
    n = 0
    for t, k in answers(e, f):
        p = produced(e, t)
        if p is None:
            raise Undecided("how the decisions of %s are listed: %s" % (name, show(t)[:80]))
        if not c.oblige(p, name + "-some", f.body.id, "%s never gives a decision" % name):
            continue
        for x, kx, fr, bb in [(y, ky, fr, bb) for x, kx, fr, bb in p for y, ky, _ in (deep(e, x, kx) if x[0] != "agg" else [(x, kx, 0)])]:
            n += 1
            if not (x[0] == "agg" and last(x[1]) == "Decision"):
                raise Undecided("a decision is " + show(x)[:80])
            d = dict(x[3])
            loc, z, base = zone_of(e, d["state"])
            tr = d["transition"]
            if not c.oblige(tr[0] == "agg" and tr[2] == "Some", name + "-transition", f.body.id, "a decision does not know its transition"):
                continue
            tr = unclone(tr[3][0][1])
            if not c.oblige(tr[0] == "elem", name + "-transition", f.body.id, "the transition of a decision is " + show(tr)[:100]):
                continue
            nt = flat(tr[1])
            if not c.oblige(nt[0] == "call" and cname(nt) == "next_transitions" and sites(nt[2][0]) == sysm, name + "-transition", f.body.id,
                            "the transitions tried are those of " + show(nt)[:120]):
                continue
            st0 = owner_of(nt[2][1])
            act = unclone(nt[2][2])
            good = act[0] == "elem" and sites(flat(act[1])) == call("get_actions", sysm)
            c.oblige(good, name + "-actions", f.body.id, "the actions tried are " + show(act)[:100])
            c.oblige(unclone(d["action"]) == act, name + "-action", f.body.id, "a decision for %s is said to be for %s" % (show(act)[:60], show(d["action"])[:60]))
            # the state it starts from
            w = start(e, sites(st0), f)
            if w is True or w is False:
                c.oblige(w, name + "-start", f.body.id, "decisions are listed for %s, not for %s" % (show(st0)[:100], what))
            else:
                n += chosen_one(c, e, f, st0, w, k, name)
            c.oblige(sites(loc) == sites(fld(unclone(st0), "decorated_locations")), name + "-locations", f.body.id,
                     "the source of a decision is at " + show(loc)[:100])
            al = call("get_allowed_federation", sites(tr))
            want = {owned(sites(st0)), al}
            for y in z:
                c.oblige(parts(y) == want, name + "-zone", f.body.id, "the source of a decision has the valuations " + zshow(y)[:160])
            # where it leads to
            nx = d["next_state"]
            y = nx[1] if nx[0] == "v" and nx[2] == "Some" else nx
            lead = y[0] == "call" and cname(y) == "use_transition_alt" and sites(y[2][0]) == sites(tr)
            if c.oblige(lead, name + "-next", f.body.id, "a decision leads to " + show(nx)[:100]):
                src = y[2][1]
                c.oblige(src == d["state"] or sites(unclone(src)) == sites(unclone(d["state"])) or sites(unclone(src)) == sites(unclone(st0)), name + "-next", f.body.id,
                         "a decision leads to what follows " + show(src)[:100])
            # and nothing else decides whether it is offered
            for a in sorted(kx, key=repr):
                if a[0] == "did" or asked(e, a, want, d["state"], tr, st0):
                    continue
                c.oblige(False, name + "-condition", f.body.id, "a decision is only offered if " + show(a)[:120])
            if fr is not None:
                lv = leaves(e, fr, bb)
                c.oblige(not lv, name + "-all", f.body.id, "not all actions and transitions are tried: " + show(sorted(lv[0][1], key=repr)[0] if lv and lv[0][1] else ())[:100])
    return n


def unclone(t):
    while t[0] == "call" and cname(t) in ("clone", "to_owned", "to_string", "into", "from", "as_str", "as_ref") and len(t[2]) == 1:
        t = t[2][0]
    return t


def owner_of(t):
    """The state whose locations these are."""
    t = unclone(t)
    return t[1] if t[0] == "f" and t[2] == "decorated_locations" else t


def owned(s):
    return some(fld(unclone(s), "zone_sentinel"))


def asked(e, a, want, st, tr, st0, n=0):
    """An atom that says no more than: there is a next one, and the allowed valuations meet those of the state."""
    if a[0] == "forall" or n > 5:
        return n <= 5
    t = a[1]
    if t[0] == "call" and cname(t) in ("next", "into_iter") and a[0] == "is" and a[2] == "Some":
        return True
    if t[0] == "call" and cname(t) in ("len", "is_empty") and t[1].startswith("@") or t[0] == "bin" and any(
            y[0] == "call" and cname(y) == "len" for y in t[2:]):
        return not uses(e, t, lambda s: s == tr)
    if t[0] == "call" and cname(t) == "is_empty" and len(t[2]) == 1:
        z = t[2][0]
        if z[0] == "v" and z[1][0] == "f" and z[1][2] == "zone_sentinel":
            if z[1][1] != st and unclone(z[1][1]) != unclone(st):
                return False
            return (a[0], a[2]) in (("is", False), ("isnt", True))
        fs = forms(e, z)
        got = [parts(y) for y, _ in fs]
        return got == [want] and (a[0], a[2]) in (("is", False), ("isnt", True))
    if t[0] == "call" and cname(t) == "use_transition_alt":
        return sites(t[2][0]) == sites(tr) and (a[0], a[2]) in (("is", "Some"), ("isnt", "None"))
    if t[0] in ("agg", "k"):
        return True
    if t[0] == "phi" and e.phis.get(t) and a[0] == "is":
        cs = truth_cases(e, t, a[2])
        return bool(cs) and all(asked(e, b, want, st, tr, st0, n + 1) for k in cs for b in k if b != a and b[0] != "did")
    if t[0] == "call" and cname(t) in ("branch", "get_initial_state", "then_some", "then"):
        return True
    if not uses(e, t, lambda s: s == tr or s == st):
        # about how the states were chosen, not about this transition: told apart by the list itself
        return t[0] == "pop"
    return False


def chosen_one(c, e, f, s, w, k, name):
    """The state is the only one of the list of states the decision may lead to."""
    _, src, action, sysm = w
    s = unclone(s)
    l = None
    if s[0] in ("pop", "idx"):
        l = s[1]
    elif s[0] == "elem":
        l = s[1]
    elif s[0] == "v" and s[2] in ("Some", "Ok") and s[1][0] == "call" and s[1][2]:
        l = s[1][2][0]
    elif s[0] == "call" and cname(s) in ("remove", "swap_remove", "index") and s[2]:
        l = s[2][0]
    els = produced(e, l) if l is not None else None
    y = s[1] if s[0] == "v" and s[2] == "Some" else s
    if y[0] == "call" and cname(y) == "use_transition_alt":
        els = [(s, frozenset(), None, None)]
    if els is None:
        bad = not uses(e, s, lambda x: x[0] == "call" and cname(x) in ("use_transition_alt", "next_transitions"))
        c.oblige(not bad, name + "-start", f.body.id, "the next decisions are listed for %s, which is not what the action leads to" % show(s)[:100])
        if bad:
            return 0
        raise Undecided("how the next state is chosen: " + show(s)[:80])
    n = 0
    for x, kx, fr, bb in els:
        n += 1
        y = x[1] if x[0] == "v" and x[2] == "Some" else x
        good = y[0] == "call" and cname(y) == "use_transition_alt"
        tr = y[2][0] if good else None
        nt = flat(tr[1]) if good and tr[0] == "elem" else None
        if not c.oblige(nt is not None and nt[0] == "call" and cname(nt) == "next_transitions", name + "-candidates", f.body.id,
                        "the states a decision may lead to are " + show(x)[:120]):
            continue
        c.oblige(sites(unclone(y[2][1])) == sites(src), name + "-from", f.body.id, "the chosen action is taken from " + show(y[2][1])[:100])
        c.oblige(sites(nt[2][0]) == sites(sysm) and sites(owner_of(nt[2][1])) == sites(src), name + "-candidates", f.body.id,
                 "the transitions taken are those of " + show(nt)[:120])
        c.oblige(sites(unclone(nt[2][2])) == sites(action), name + "-chosen", f.body.id, "the action taken is " + show(nt[2][2])[:100])
        for a in sorted(kx, key=repr):
            t = a[1] if len(a) > 1 else None
            if a[0] in ("did", "forall") or t[0] == "call" and cname(t) in ("next", "use_transition_alt") and (a[0], a[2]) in (
                    ("is", "Some"), ("isnt", "None")) or t[0] in ("agg", "k") or t[0] == "phi":
                continue
            c.oblige(False, name + "-candidates", f.body.id, "a state the decision may lead to is left out unless " + show(a)[:100])
        if fr is not None:
            lv = leaves(e, fr, bb)
            c.oblige(not lv, name + "-candidates", f.body.id, "not all transitions of the action are tried")
    one = [a for a in k if a[0] == "is" and single(e, a, l, els)]
    c.oblige(one, name + "-unambiguous", f.body.id, "a decision that leads to more than one state is resolved all the same")
    return n


def single(e, a, l, els):
    t = a[1]
    ln = lambda x: x[0] == "call" and cname(x) == "len" and (l is not None and sites(x[2][0]) == sites(l) or [
        y[0] for y in produced(e, x[2][0]) or []] == [y[0] for y in els])
    if ln(t):
        return a[2] == 1
    if t[0] == "bin" and t[1] in ("Eq", "Ne") and any(ln(x) for x in t[2:]):
        return ("k", 1) in t[2:] and a[2] is (t[1] == "Eq")
    return t[0] == "call" and cname(t) == "exactly_one" and a[2] == "Ok"


def built(c):
    """A single decision: there is one exactly if the allowed valuations meet the state's."""
    e, f = c.entry(D + "from_state_transition", OPQ)
    if f is None:
        return 0
    st0, tr, act = params(f)[:3]
    seen = set()
    n = 0
    for t, k in [(y, ky) for x, kx in outcomes(e, f) for y, ky, _ in deep(e, x, kx)]:
        if t[0] == "never" or e.contradict(e.close(k)):
            continue
        n += 1
        if t[0] == "failed":
            t = ("agg", "std::option::Option", "None", ())
        no = t[0] == "agg" and t[2] == "None"
        yes = t[0] == "agg" and t[2] == "Some"
        if not no and not yes:
            raise Undecided("whether there is a decision: " + show(t)[:80])
        al = call("get_allowed_federation", sites(tr))
        want = {owned(sites(st0)), al}
        emp = [a for a in k if a[0] != "did" and empty(e, a, want, st0, tr) is not None]
        es = {empty(e, a, want, st0, tr) for a in emp}
        seen.add(t[2])
        c.oblige(es == {no}, "from_state_transition-" + t[2], f.body.id, "a state the transition is %spossible in gives %s decision" % (
            "" if no else "im", "no" if no else "a"))
        if yes:
            d = dict(t[3][0][1][3])
            loc, z, base = zone_of(e, d["state"])
            c.oblige(sites(unclone(base)) == sites(st0) or sites(loc) == sites(fld(st0, "decorated_locations")), "from_state_transition-state", f.body.id, "the source of the decision is " + show(base)[:80])
            for y in z:
                c.oblige(parts(y) == want, "from_state_transition-zone", f.body.id, "the source of a decision has the valuations " + zshow(y)[:160])
            c.oblige(unclone(d["action"]) == act, "from_state_transition-action", f.body.id, "the action is " + show(d["action"])[:80])
            tt = d["transition"]
            c.oblige(tt[0] == "agg" and tt[2] == "Some" and unclone(tt[3][0][1]) == tr, "from_state_transition-transition", f.body.id, "the transition is " + show(tt)[:80])
    c.oblige(seen == {"Some", "None"}, "from_state_transition-both", f.body.id, "a transition always, or never, gives a decision")
    return n


def empty(e, a, want, st0, tr):
    """Whether the atom says that no valuation of the state is allowed (None: it says something else)."""
    t = a[1] if len(a) > 1 and a[0] in ("is", "isnt") else ("k", 0)
    v = None
    if t[0] == "call" and cname(t) == "is_empty" and len(t[2]) == 1 and isinstance(a[2], bool):
        z = t[2][0]
        v = a[2] if a[0] == "is" else not a[2]
        if z[0] == "v" and z[1][0] == "f" and z[1][2] == "zone_sentinel":
            loc, zf, base = zone_of(e, z[1][1])
        else:
            fs = forms(e, z)
            zf = [y for y, _ in fs]
        return v if all(parts(y) == want for y in zf) else None
    if t[0] == "call" and cname(t) == "use_transition_alt" and sites(t[2][0]) == sites(tr):
        return (a[2] == "None") == (a[0] == "is")
    return None


def responses(c):
    """What the two requests are answered with."""
    R = "ProtobufServer::ecdar_requests::"
    imp = [b for b in c.p.bodies if b.endswith("::handle_start_simulation") or b.endswith("::handle_take_simulation_step")]
    util = R + "request_util::simulation_info_to_transition_system"
    opq = [util, D + "get_initial_decisions", D + "resolve", "System::specifics::SpecificDecision::from_decision", TS + "get_initial_state",
           "System::specifics::SpecificState::from_state", "DataReader::proto_reader::proto_decision_to_decision"]
    n = 0
    SYS = "simulation_info_to_transition_system(request.simulation_info!, cache)"
    resp = "Ok(SimulationStepResponse{full_state: %s, new_decision_points: map(%s: from_decision(each, " + SYS + "))})"
    start = [resp % (s % SYS if "%" in s else s, "get_initial_decisions(%s)" % SYS) for s in ("Some(from_state(get_initial_state(%s)!, " + SYS + "))", "None")]
    step = [resp % ("request.chosen_decision!.destination", "resolve(proto_decision_to_decision(request.chosen_decision!, %s), %s)" % (SYS, SYS))]
    for b in imp:
        w = start if b.endswith("start_simulation") else step

        def ok(e, x, k, f, w=w):
            txt = render(e, x, f)
            if txt == w[-1] and len(w) == 2:
                return any(a[0] == "is" and a[2] == "None" and a[1][0] == "call" and cname(a[1]) == "get_initial_state" for a in k)
            return txt in w
        n += table(c, b, [("it", arg("request", "cache"), ok)], opq)
    c.oblige(len(imp) == 2, "anchor-requests", "", "the requests of a simulation are not answered where they were")
    n += table(c, util, [("it", arg("info", "cache"), "component_loader_to_transition_system(get_or_insert_model(cache, info.user_id, "
                          "info.components_info!.components_hash, info.components_info!.components), info.component_composition)")],
               [R + "request_util::get_or_insert_model", "TransitionSystems::transition_system::component_loader_to_transition_system"])
    return n
