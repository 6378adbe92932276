"""The refinement search as the rules see it."""
from core import *  # noqa: F401,F403

VOC = ["next_outputs", "next_inputs", "next_transitions", "apply_guards", "apply_updates", "move_locations",
       "apply_invariants",
       "get_allowed_federation", "put", "has", "extrapolate_max_bounds", "get_input_actions",
       "get_output_actions", "get_initial_location", "without_id", "from_locations", "print_relation", "pop",
       "is_empty", "precheck_sys_rep", "PassedStateListExt::put", "get_dim", "to_precondition",
       "DepthFirstWaitingStateList::new", "RefinementContext::new"]
S1, S2 = ("arg", "sys1"), ("arg", "sys2")


class Search:
    pass


def model(c):
    """Everything the refinement rules look at, or None."""
    voc = [v for v in VOC if v != "RefinementContext::new"]
    e, f = c.entry("System::refine::check_refinement", voc, None)
    if f is None:
        return None
    b = f.body
    f.args[0], f.args[1] = S1, S2
    s = Search()
    s.e, s.f = e, f
    s.ev = c.events(e, f)
    pops = [x for x in s.ev if last(x.name) in ("pop", "pop_front") and "WaitingStateList" in x.name]
    if not pops:
        c.viol("anchor", "worklist", "no pair is taken from a work list", "System::refine")
        return None
    s.pop = pops[0]
    s.P = ("v", s.pop.term, "Some", "0")
    s.wl = s.pop.args[0]
    s.rets = e.returns(f)
    lk = e.latch_K(s.pop.frame, s.pop.bb)
    s.latches = lk[2] if lk else []
    s.out1 = Cl("get_output_actions", S1)
    s.out2 = Cl("get_output_actions", S2)
    s.in1 = Cl("get_input_actions", S1)
    s.in2 = Cl("get_input_actions", S2)
    s.loc1, s.loc2 = ("f", s.P, "locations1"), ("f", s.P, "locations2")
    return s


def zone_fed(s, t):
    """X when t is X intersected with the zone of the current pair."""
    if t[0] == "call" and cname(t) == "intersection" and len(t[2]) == 2:
        for x, y in ((t[2][0], t[2][1]), (t[2][1], t[2][0])):
            if zone_owner(y) == s.P:
                return x
    return None


def trans_sources(s, fed):
    """The transition lists (terms) whose allowed federations make up fed, or None."""
    x = zone_fed(s, fed)
    if x is None:
        return None
    src = fed_sources(s.e, x)
    if not src:
        return None
    out = []
    for t in src:
        r = match(Cl("get_allowed_federation", V("x")), t)
        if r is None or r["x"][0] != "elem":
            return None
        out.append(r["x"][1])
    return out


def is_list(s, t, sysx, loc, act_coll, act_name, other, K=frozenset()):
    """t is the transition list of sysx from loc for each element of act_coll; an extra action
    (one `other` does not have) may use the single do-nothing transition of loc instead."""
    n_real = 0
    for a, k in s.e.gated(t):
        k = s.e.close(k | K)
        if s.e.contradict(k):
            continue
        r = match(Cl(act_name + "|next_transitions", sysx, loc, V("a")), a)
        if r is not None and r["a"] == ("elem", act_coll):
            n_real += 1
            continue
        if other is not None:
            stay = match(Cl("without_id", loc, ANY), s.e.elem(a) if a[0] in ("array", "acc") else a)
            ok = stay is not None
            if ok:
                el = ("elem", act_coll)
                ok = holds(k, Cl("contains", Cl("difference", act_coll, other), el), True) or \
                    holds(k, Cl("contains", other, el), False)
                if ok:
                    continue
        return False
    return n_real > 0
