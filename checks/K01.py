import fx
import zones
from zones import *
from tables import *
from core import *

TITLE = "removing redundant clocks leaves every verdict as it is"
EXPLAIN = ("The clock reduction is evaluated over compiler MIR from the collection of what the reachable edges and locations "
           "depend on to the renumbering of the declarations: which clocks are taken for unused or equal, which instructions "
           "either side of a refinement may carry out, by how much the dimension shrinks, and that every clock left, the "
           "quotient's among them, gets a number of its own below the new dimension.")
X = "System::extract_system_rep::"
K = X + "clock_reduction::"
R = X + "SystemRecipe::"
TS = "TransitionSystems::transition_system::"
G = TS + "ClockAnalysisGraph::"
T = TS + "TransitionSystem::"
I = TS + "ClockReductionInstruction::"
C = "ModelObjects::component::Component::"
A = lambda x: ("arg", x)
INS = ("insert", "push", "push_back", "push_front", "extend", "append")


def run(c):
    n = 0
    for part in (used, redundant, groups, graph, start, counts, reduce_two, filtered, reduced, renumbered, quotient, removed, replaced, mentions_name):
        n += part(c)
    c.floor(n, 40, "clocks", "steps of the clock reduction")


def have(c, *names):
    """The helpers that are analysed on their own; one that is gone makes the shape unknown."""
    out = []
    for x in names:
        if x not in c.p.bodies:
            raise Undecided("there is no " + x)
        out.append(x)
    return out


def unclone(t):
    while t and t[0] == "call" and cname(t) in ("clone", "to_string", "to_owned", "as_ref", "deref", "as_str", "borrow", "as_mut", "from", "into", "cloned", "copied",
                                                "deref_mut", "box_assume_init_into_vec_unsafe", "to_vec", "into_vec") and t[2]:
        t = t[2][0]
    return t


def opts(t):
    """The option a value is unwrapped from."""
    t = unclone(t)
    if t[0] == "call" and cname(t) in ("unwrap_or_default", "unwrap_or", "unwrap_or_else", "unwrap", "expect", "map_or"):
        return unclone(t[2][0])
    if t[0] == "v" and t[2] == "Some":
        return unclone(t[1])
    return t


def loops(a):
    return a[0] == "did" or a[0] == "is" and a[1][0] == "call" and (
        cname(a[1]) in ("next", "pop", "pop_front", "pop_back") and a[2] == "Some")


def norm(e, gs):
    """Atoms of the conditions, negations and conjunctions taken apart."""
    out = []
    for a in gs:
        ks = truth_cases(e, a[1], a[2]) if a[0] == "is" and a[2] in (True, False) and a[2].__class__ is bool else []
        if len(ks) == 1:
            out += [b for b in ks[0] if b[0] != "is" or b[1][0] != "un"]
        else:
            out.append(a)
    return out


def feed(e, t, n=0):
    """Where the elements of a collection come from: ([(element, guards, event place)], [elements removed], other operations)."""
    if n > 8:
        raise Undecided("a collection is built too deeply")
    t = unclone(t)
    if t[0] == "acc":
        b, cs = e.contribs(t)
        ins, rem, oth = feed(e, b, n + 1)
        for op, args, k, w, fr, bb in cs:
            g = [a for a in e.guards(fr, bb)]
            if op in ("extend", "append"):
                i, r, o = feed(e, args[0], n + 1)
                ins += [(x, g + y, w) for x, y, _ in i]
                oth += o
                if r:
                    raise Undecided("a collection that elements are removed from is added to another")
            elif op in INS:
                ins.append((args[-1], g, w))
            elif op in ("remove", "take", "discard"):
                rem.append((args[-1], g, w))
            elif op in ("retain",):
                rem.append((args[-1], g, w))
                oth.append((op, args, w))
            elif op not in ("sort", "sort_unstable", "reserve", "sort_by_key", "iter_mut", "dedup_"):
                oth.append((op, args, w))
        return ins, rem, oth
    if t[0] == "array":
        return [(x, [], "") for x in t[1]], [], []
    if t[0] == "call":
        m = cname(t)
        if m in ("new", "default", "with_capacity", "empty"):
            return [], [], []
        if m == "chain":
            a, b = feed(e, t[2][0], n + 1), feed(e, t[2][1], n + 1)
            return a[0] + b[0], a[1] + b[1], a[2] + b[2]
        if m in ("collect", "into_iter", "iter", "copied") and t[2]:
            return feed(e, t[2][0], n + 1)
        if m in ("union",):
            a, b = feed(e, t[2][0], n + 1), feed(e, t[2][1], n + 1)
            return a[0] + b[0], a[1] + b[1], a[2] + b[2]
        if m in ("map", "filter", "filter_map", "flat_map", "flatten", "cloned"):
            ks = e.elem_facts(t)
            out = []
            for x, k in expand(e, e.elem(t)):
                out.append((x, list(k) + ks, ""))
            return out, [], []
    return [(e.elem(t), [], "")], [], []


def bad_guards(gs, ok=lambda a: False):
    return [a for a in gs if not loops(a) and not ok(a)]


def inner(e, t):
    """The (owner, field) an element was taken from: elem(field of owner), also through iterators."""
    t = unclone(t)
    if t[0] == "elem":
        b = strip(t[1])
        b = unclone(b[0] if isinstance(b[0], tuple) else b)
        if b[0] == "f":
            return b[1], b[2]
    return None, None


def of(t, coll):
    """t is an element (a value, for a map) of the collection."""
    t = unclone(t)
    while t[0] == "f" and t[2] in ("0", "1", 0, 1):
        t = unclone(t[1])
    if t[0] != "elem":
        return False
    b = t[1]
    while b[0] == "call" and cname(b) in ("values", "iter", "into_iter", "values_mut", "iter_mut", "into_values") and b[2]:
        b = b[2][0]
    return unclone(b) == coll


def cv(t):
    """The constant a term is."""
    if not t or not isinstance(t, tuple):
        return None
    if t[0] == "k" and type(t[1]) in (int, bool):
        return t[1]
    if t[0] == "f" and str(t[2]) == "0" and t[1][0] == "bin":
        t = t[1]
    if t[0] == "bin" and t[1] in ("Mul", "Add", "Sub"):
        a, b = cv(t[2]), cv(t[3])
        return None if a is None or b is None else a * b if t[1] == "Mul" else a + b if t[1] == "Add" else a - b
    if t[0] == "nc" and t[1].endswith("MAX") and "u32" in t[1]:
        return 2 ** 32 - 1
    return None


def summands(t):
    """(terms, constant) of a sum."""
    if cv(t) is not None:
        return [], cv(t)
    if t[0] == "f" and str(t[2]) == "0" and t[1][0] == "bin":
        t = t[1]
    if t[0] == "bin" and t[1] == "Add":
        a, b = summands(t[2]), summands(t[3])
        return a[0] + b[0], a[1] + b[1]
    return [t], 0


def used(c):
    e, f = c.entry(G + "find_used_clocks", [])
    if f is None:
        return 0
    me, got = A("self"), set()
    for t, _ in answers(e, f):
        ins, rem, oth = feed(e, t)
        if oth:
            raise Undecided("the clocks in use are gathered by " + oth[0][0])
        for x, g, w in ins:
            o, fl = inner(e, x)
            ok = fl == "guard_dependencies" and of(o, fld(me, "edges")) or fl == "invariant_dependencies" and of(o, fld(me, "nodes"))
            if not ok:
                raise Undecided("a clock is taken to be in use: " + show(x)[:120])
            bad = bad_guards(norm(e, g), lambda a: zero_test(a) or a[0] == "is" and a[2] is False and (
                a[1][0] == "call" and cname(a[1]) == "contains" and unclone(a[1][2][1]) == unclone(x) or
                a[1][0] == "call" and cname(a[1]) == "is_empty" and inner(e, ("elem", a[1][2][0])) == (o, fl)))
            c.oblige(not bad, "used-" + fl, w or f.body.id, "a clock is in use only if %s" % "; ".join(show(a) for a in bad)[:200])
            got.add(fl)
        for x, g, w in rem:
            c.oblige(cv(x) == 0 if x[0] != "clo" and x[0] != "closure" else True, "used-dropped", w or f.body.id,
                     "a clock in use is taken out: " + show(x)[:100])
    for x in ("guard_dependencies", "invariant_dependencies"):
        c.oblige(x in got, "used-by-" + x, f.body.id, "a clock is not taken to be in use by %s" % x)
    no_exits(c, e, f, "used")
    return 3


def zero_test(a):
    t = a[1]
    while t[0] == "un":
        t = t[-1]
    return a[0] == "is" and t[0] == "bin" and t[1] in ("Eq", "Ne", "Gt", "Lt") and any(cv(x) == 0 for x in t[2:])


def no_exits(c, e, f, key, names=INS + ("remove",)):
    for x in e.events(f):
        if last(x.name) in names:
            bad = leaves(e, x.frame, x.bb)
            c.oblige(not bad, key + "-all", x.where, "the loop is left early")


def redundant(c):
    hs = have(c, G + "find_used_clocks", G + "find_equivalent_clock_groups")
    e, f = c.entry(G + "find_clock_redundancies", hs)
    if f is None:
        return 0
    me = A("self")
    U = ("call", hs[0], (me,), None)
    E = None
    n, seen = 0, set()
    for x in e.events(f):
        if x.name == hs[1]:
            c.oblige(unclone(x.args[1])[:3] == U[:3], "groups-of", x.where, "equal clocks are sought among " + show(x.args[1])[:100])
            E = x.term
    for t, _ in answers(e, f):
        ins, rem, oth = feed(e, t)
        c.oblige(not rem, "instructions-dropped", f.body.id, "an instruction is taken back")
        for x, g, w in ins:
            n += 1
            if x[0] != "agg":
                raise Undecided("an instruction is " + show(x)[:100])
            d = dict(x[3])
            seen.add(x[2])
            if x[2] == "RemoveClock":
                i = unclone(d["clock_index"])
                if i[0] != "elem":
                    raise Undecided("the clock removed is " + show(i)[:100])
                b, unused = strip_range(e, i, me)
                if b is None:
                    raise Undecided("the clocks removed are " + show(i)[:140])
                c.oblige(b == 1, "unused-from", w or f.body.id, "the clocks that may be removed begin at %s" % b)
                g = norm(e, g)
                gone = unused + [a for a in g if fresh_contains(a, i, U)]
                c.oblige(gone, "unused-only", w or f.body.id, "a clock is removed without having been looked for among those in use")
                bad = bad_guards(g, lambda a: fresh_contains(a, i, U))
                c.oblige(not bad, "unused-if", w or f.body.id, "an unused clock is removed only if " + "; ".join(show(a) for a in bad)[:160])
            elif x[2] == "ReplaceClocks":
                lo, rest = unclone(d["clock_index"]), unclone(d["clock_indices"])
                grp = rest
                cut = []
                while grp[0] == "acc":
                    b, cs = e.contribs(grp)
                    cut += [y[1][-1] for y in cs if y[0] in ("remove", "take")]
                    if [y for y in cs if y[0] not in ("remove", "take")]:
                        raise Undecided("the clocks replaced are " + show(rest)[:100])
                    grp = unclone(b)
                # an element of a collection, changed in place
                if not cut:
                    cut = [y.args[1] for y in e.events(f) if last(y.name) in ("remove", "take") and unclone(y.args[0]) == grp]
                if grp[0] != "elem":
                    raise Undecided("the clocks replaced are " + show(rest)[:120])
                mins = lo == ("minof", grp) or is_pick(lo, grp)
                if not mins:
                    raise Undecided("the clock kept of a group is " + show(lo)[:120])
                c.oblige(any(unclone(y) == lo for y in cut), "kept-out", w or f.body.id,
                         "the clock that is kept is among those it replaces")
                src = unclone(grp[1])
                c.oblige(src[0] == "call" and src[1] == hs[1], "groups-from", w or f.body.id, "the groups of equal clocks are " + show(src)[:100])
                bad = bad_guards(g)
                c.oblige(not bad, "groups-if", w or f.body.id, "equal clocks are replaced only if " + "; ".join(show(a) for a in bad)[:160])
    c.oblige("RemoveClock" in seen, "removes", f.body.id, "no unused clock is ever removed")
    c.oblige("ReplaceClocks" in seen, "replaces", f.body.id, "equal clocks are never merged")
    return n


def is_pick(lo, grp):
    """lo is the least (or any one) element of the group."""
    if lo[0] in ("min", "max") and any(unclone(y) == grp for y in lo[1:] if isinstance(y, tuple)):
        return True
    t = opts(lo)
    if t[0] == "call" and cname(t) in ("min", "max", "next", "first") and any(unclone(y) == grp for y in t[2]):
        return True
    return any(s == grp for s in fx.subterms(lo)) and ("min" in show(lo) or "max" in show(lo))


def fresh_contains(a, i, U):
    return a[0] == "is" and a[2] is False and a[1][0] == "call" and cname(a[1]) == "contains" and unclone(a[1][2][1]) == i and unclone(a[1][2][0])[:3] == U[:3]


def strip_range(e, i, me):
    """(the first clock, how those in use were taken out) of an element of 1..dim without those in use."""
    b, out = i[1], []
    for _ in range(8):
        b = unclone(b)
        if b[0] == "acc":
            base, cs = e.contribs(b)
            for op, args, k, w, fr, bb in cs:
                if op == "remove":
                    x = unclone(args[-1])
                    if x[0] == "elem" and unclone(x[1])[0] == "call" and unclone(x[1])[1] == G + "find_used_clocks" and not bad_guards(e.guards(fr, bb)):
                        out.append(x)
                elif op == "retain":
                    out += keeps(e, args[-1], base)
                elif op in INS:
                    return None, []
            b = base
        elif b[0] == "call" and cname(b) == "filter":
            out += keeps(e, b[2][1], b[2][0])
            b = b[2][0]
        elif b[0] == "call" and cname(b) == "difference":
            if unclone(b[2][1])[0] == "call" and unclone(b[2][1])[1] == G + "find_used_clocks":
                out.append(b)
            b = b[2][0]
        elif b[0] == "call" and cname(b) in ("collect", "iter", "into_iter") and b[2]:
            b = b[2][0]
        elif b[0] == "agg" and b[1].split("::")[-1].startswith("Range"):
            d = dict(b[3])
            if unclone(d.get("end", ())) != fld(me, "dim"):
                return None, []
            return cv(d["start"]), out
        else:
            return None, []
    return None, []


def keeps(e, clo, base):
    """What a closure keeps: not what is in use."""
    r = e.apply(clo, [e.elem(base)], "x")
    out = []
    for kk in truth_cases(e, r, True):
        if not [a for a in kk if a[0] == "is" and a[2] is False and a[1][0] == "call" and cname(a[1]) == "contains" and
                unclone(a[1][2][0])[0] == "call" and unclone(a[1][2][0])[1] == G + "find_used_clocks"]:
            return []
        out.append(r)
    return out


def groups(c):
    e, f = c.entry(G + "find_equivalent_clock_groups", [])
    if f is None:
        return 0
    me, us = zones.params(f)[:2]
    edges = fld(me, "edges")
    ev = e.events(f)
    n = 0
    # what an edge resets
    resets = None
    for x in ev:
        if last(x.name) == "insert" and "HashMap" in x.name and len(x.args) == 3:
            k, v = unclone(x.args[1]), unclone(x.args[2])
            if k[0] == "f" and k[2] == "clock_index":
                n += 1
                u = k[1]
                ok = inner(e, u)
                c.oblige(ok[1] == "updates" and of(ok[0], edges), "reset-of", x.where, "what an edge resets is read from " + show(u)[:100])
                c.oblige(v == fld(u, "value"), "reset-value", x.where, "a clock is taken to be reset to " + show(v)[:100])
                only_under(c, e, x, lambda a: loops(a) or pre(a, us, edges), "reset-if", "a reset of an edge counts only if %s")
                c.oblige(not leaves(e, x.frame, x.bb), "reset-all", x.where, "not all the resets of all the edges count")
                resets = x.args[0]
    if resets is None:
        raise Undecided("how the resets of an edge are gathered is not known")
    def looked(a):
        """(clock) if a says whether the edge resets it"""
        t = a[1]
        if t[0] == "call" and cname(t) in ("get", "contains_key") and same_acc(e, t[2][0], resets):
            return unclone(t[2][1])
        return None
    keys = {"reset": set(), "left": set()}
    for x in ev:
        if last(x.name) not in ("entry",) or len(x.args) < 2:
            continue
        k = unclone(x.args[1])
        g = e.guards(x.frame, x.bb)
        here = [a for a in g if looked(a) is not None]
        at = here or [a for _, kk in expand(e, k, frozenset(g)) for a in kk if looked(a) is not None]
        if not at:
            raise Undecided("clocks are put in groups by " + show(k)[:100])
        n += 1
        clock = looked(at[0])
        for kx, kk in ([(k, g)] if here else expand(e, k, frozenset(g))):
            at2 = [a for a in kk if looked(a) is not None]
            hit = any((a[2] in ("Some", True)) and a[0] == "is" or a[0] == "isnt" and a[2] == "None" for a in at2)
            keys["reset" if hit else "left"].add((unclone(kx), x.where, clock))
        bad = [a for a in bad_guards(g, lambda a: a in at or pre(a, us, edges))]
        c.oblige(not bad, "group-if", x.where, "a clock stays in a group only if " + "; ".join(show(a) for a in bad)[:160])
        c.oblige(not [y for y in leaves(e, x.frame, x.bb)], "group-all", x.where, "not all clocks are put in a group")
    if not keys["reset"] or not keys["left"]:
        raise Undecided("how clocks are put in groups is not known")
    offs = set()
    for k, w, clock in keys["reset"]:
        syms = [unclone(s) for s in summands(k)[0]]
        val = [s for s in syms if s[0] == "idx" and same_acc(e, s[1], resets) or s[0] == "v" and s[2] == "Some" and s[1][0] == "call" and cname(s[1]) == "get"]
        off = [s for s in syms if s[0] == "phi"]
        if not 1 <= len(syms) <= 3:
            raise Undecided("the group of a clock that is reset is " + show(k)[:120])
        c.oblige(len(val) == 1, "reset-apart", w, "clocks reset to different values stay in one group: " + show(k)[:100])
        if not off and any(s[0] not in ("idx", "v") for s in syms):
            raise Undecided("the group of a clock that is reset is " + show(k)[:120])
        c.oblige(off, "old-apart", w, "clocks of different groups come together when they are reset to the same value: " + show(k)[:100])
        for o in off:
            n += 1
            for v, fr, df in e.phis.get(o) or ():
                syms2, cst = summands(v)
                if not syms2:
                    c.oblige(cst is None or cst >= 2 ** 32 - 1, "first-apart", w, "the groups of clocks that are reset begin at %s, among those of clocks that are not" % cst)
                elif o in syms2:
                    c.oblige(cst is None or cst >= 2 ** 32 - 1, "next-apart", w, "the groups of the values a clock may be reset to are only %s apart" % cst)
    for k, w, clock in keys["left"]:
        c.oblige(k[0] in ("pos", "f") or k[0] == "call" and cname(k) == "pos" or "pos" in show(k)[:6], "left-together", w, "the group of a clock that is not reset is " + show(k)[:100])
        c.oblige(clock not in set(fx.subterms(k)), "left-apart", w, "a clock that is not reset is put in the group " + show(k)[:100])
    # what goes in is the clock at hand
    for x in ev:
        if last(x.name) == "insert" and "HashSet" in x.name and len(x.args) == 2:
            n += 1
            t = unclone(x.args[1])
            ok = t[0] == "elem" and unclone(t[1])[0] == "elem"
            c.oblige(ok and t in {unclone(y[2]) for y in keys["reset"] | keys["left"]}, "group-member", x.where, "what is put in a group is " + show(t)[:100])
    # what is left
    for t, k in answers(e, f):
        n += 1
        t = unclone(t)
        if t[0] == "array":
            c.oblige(all(unclone(y) == us for y in t[1]) and len(t[1]) <= 1, "first-group", f.body.id, "the first group is " + show(t)[:100])
        elif t[0] == "call" and cname(t) in ("new", "default"):
            pass
        elif t[0] == "call" and cname(t) in ("filter", "filter_map", "map"):
            one(c, e, t, f)
        elif t[0] != "acc" and t[0] != "phi":
            raise Undecided("the groups left are " + show(t)[:120])
    return n


def one(c, e, t, f):
    """Only groups of more than one clock are passed on."""
    el = e.elem(t)
    fs = e.elem_facts(t)
    ok = False
    for a in fs:
        for kk in truth_cases(e, a[1], True):
            for y in kk:
                for m in (y,):
                    if m[0] == "is" and m[1][0] == "bin" and any(s and s[0] == "call" and cname(s) == "len" for s in fx.subterms(m[1])):
                        ok = True
                        l, r = m[1][2], m[1][3]
                        op = m[1][1]
                        num = cv(r) if cv(r) is not None else cv(l)
                        flip = cv(r) is None
                        op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op) if flip else op
                        if m[2] is False:
                            op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}[op]
                        good = op == "Gt" and num == 1 or op == "Ge" and num == 2 or op in ("Gt", "Ge") and num == 0 or op == "Ge" and num == 1
                        c.oblige(good, "group-size", f.body.id, "a group is passed on only if its size is %s %s" % (op, num))


def pre(a, us, edges):
    """The group is worth looking at: two clocks in use, some edge."""
    if a[0] != "is":
        return False
    t = a[1]
    return any(s and s[0] == "call" and cname(s) in ("len", "is_empty") and unclone(s[2][0]) in (us, edges) for s in [t] + list(t[2:4]))


def same_acc(e, a, b):
    a, b = unclone(a), unclone(b)
    return a == b or a[0] == b[0] == "acc" and a[1][:2] == b[1][:2]


def graph(c):
    hs = have(c, "TransitionSystems::location_id::LocationID::get_unique_string", T + "next_transitions_if_available") + [T + "get_actions"]
    e, f = c.entry(T + "find_edges_and_nodes", hs)
    if f is None:
        return 0
    me = A("self")
    ev = e.events(f)
    n = 0
    locs = {unclone(x.args[1]) for x in ev if x.name == hs[1]}
    if len(locs) != 1:
        raise Undecided("the transitions are asked of %d locations" % len(locs))
    loc = locs.pop()
    tr = None
    for x in ev:
        if x.name == hs[1]:
            a = unclone(x.args[2])
            c.oblige(a[0] == "elem" and unclone(a[1])[0] == "call" and unclone(a[1])[1] == hs[2] and unclone(a[1])[2][0] == me, "each-action", x.where,
                     "the transitions are looked for of the actions " + show(a)[:100])
            only_under(c, e, x, loops, "each-action-if", "transitions are looked for only if %s")
            tr = ("elem", x.term)
    def deps(who, zone, key):
        got = set()
        for x in ev:
            if last(x.name) not in ("insert", "push", "extend"):
                continue
            t = unclone(x.args[-1])
            if t[0] == "f" and t[2] in ("i", "j"):
                z = [s for s in fx.subterms(t) if s and s[0] == "call" and last(s[1]) == "minimal_constraints"]
                if z and unclone(z[0][2][0]) == zone:
                    got.add(t[2])
                    cut = [s for s in fx.subterms(t) if s and s[0] == "call" and s[1].startswith("@") and cname(s) in ("take", "skip", "step_by", "take_while", "skip_while", "last", "nth")]
                    c.oblige(not cut, key + "-each", x.where, "of the constraints of %s only some count: %s" % (who, show(t)[:120]))
                    only_under(c, e, x, lambda a: loops(a) or a[0] in ("is", "isnt") and a[1] == opts(zone) or zero_test(a) or
                               a[0] == "is" and a[1][0] == "call" and cname(a[1]) in ("is_some", "is_none"), key + "-if", "a constraint counts only if %s")
                    c.oblige(not leaves(e, x.frame, x.bb), key + "-all", x.where, "not every constraint of %s counts" % who)
        if not got:
            raise Undecided("how the constraints of %s are gathered is not known" % who)
        c.oblige(got == {"i", "j"}, key, f.body.id, "of the constraints of %s only %s counts" % (who, sorted(got)))
        return len(got)
    n += deps("an invariant", ("v", fld(loc, "invariant"), "Some", "0"), "invariants")
    trs = {s for x in ev for a in x.args for s in fx.subterms(a) if s and s[0] == "elem" and unclone(s[1])[0] == "call" and unclone(s[1])[1] == hs[1]}
    if len(trs) != 1:
        raise Undecided("the transitions are not walked through once")
    tr = trs.pop()
    n += deps("a guard", fld(tr, "guard_zone"), "guards")
    ed = [x for x in ev if last(x.name) == "push" and unclone(x.args[1])[0] == "agg" and "Edge" in unclone(x.args[1])[1]]
    c.oblige(ed, "edge", f.body.id, "no edge is recorded")
    for x in ed:
        n += 1
        d = dict(unclone(x.args[1])[3])
        c.oblige(unclone(d["updates"]) == fld(tr, "updates"), "edge-updates", x.where, "the updates of an edge are " + show(d["updates"])[:100])
        only_under(c, e, x, loops_only, "edge-if", "an edge is recorded only if %s")
        c.oblige(x.args[0] == fld(A("graph"), "edges") or x.args[0][0] == "f" and x.args[0][2] == "edges", "edge-in", x.where, "an edge is recorded in " + show(x.args[0])[:80])
        c.oblige(not leaves(e, x.frame, x.bb), "edge-all", x.where, "not all edges are recorded")
    nd = [x for x in ev if last(x.name) == "insert" and len(x.args) == 3 and unclone(x.args[2])[0] == "agg"]
    c.oblige(nd, "node", f.body.id, "no location is recorded")
    for x in nd:
        n += 1
        c.oblige(unclone(x.args[1]) == ("call", hs[0], (fld(loc, "id"),), None) or unclone(x.args[1])[1:3] == (hs[0], (fld(loc, "id"),)), "node-key", x.where,
                 "a location is recorded as " + show(x.args[1])[:100])
        only_under(c, e, x, loops_only, "node-if", "a location is recorded only if %s")
    ws = [x for x in ev if last(x.name) in ("push_back", "push", "push_front", "extend") and unclone(x.args[1]) == fld(tr, "target_locations")]
    c.oblige(ws, "go-on", f.body.id, "the analysis does not go on to the locations edges lead to")
    for x in ws:
        n += 1
        def known(a):
            if loops_only(a):
                return True
            if a[0] == "is" and a[1][0] == "call" and cname(a[1]) in ("contains_key", "contains", "insert"):
                k = unclone(a[1][2][1])
                return fld(tr, "target_locations") in set(fx.subterms(k)) and a[2] is (cname(a[1]) == "insert")
            return a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "get" and a[2] == "None" and fld(tr, "target_locations") in set(fx.subterms(a[1]))
        only_under(c, e, x, known, "go-on-if", "the analysis goes on to a location only if %s")
    return n


def loops_only(a):
    return a[0] == "did" or a[0] == "is" and a[1][0] == "call" and cname(a[1]) in ("next", "pop", "pop_front", "pop_back") and a[2] == "Some"


def start(c):
    hs = [have(c, T + "find_edges_and_nodes")[0], T + "get_dim", T + "get_initial_location", have(c, G + "find_clock_redundancies")[0]]
    e, f = c.entry(T + "find_redundant_clocks", hs)
    if f is None:
        return 0
    n, me = 0, A("self")
    for x in e.events(f):
        if x.name == hs[0]:
            n += 1
            c.oblige(unclone(opts(x.args[1]))[:2] == ("call", hs[2]), "from", x.where, "the analysis starts from " + show(x.args[1])[:100])
            g = [s for s in fx.subterms(x.args[2]) if s and s[0] == "agg"] or [s for s in fx.subterms(base_of(e, x.args[2])) if s and s[0] == "agg"]
            for y in g:
                d = dict(y[3])
                if "dim" in d:
                    n += 1
                    c.oblige(unclone(d["dim"])[:2] == ("call", hs[1]), "dim", x.where, "the clocks are counted up to " + show(d["dim"])[:80])
    c.oblige(n, "analysed", f.body.id, "the edges and locations are not gathered")
    return n


def base_of(e, t):
    t = unclone(t)
    while t[0] == "acc":
        t = unclone(e.contribs(t)[0])
    return t


def counts(c):
    e, f = c.entry(I + "clocks_removed_count", [])
    if f is None:
        return 0
    n = 0
    for t, k in outcomes(e, f):
        for x, kk, _ in deep(e, t, k):
            for v in known_variants(e, kk, A("self"), ("RemoveClock", "ReplaceClocks")):
                n += 1
                if v == "RemoveClock":
                    c.oblige(cv(x) == 1, "count-" + v, f.body.id, "removing a clock counts as " + show(x)[:60])
                else:
                    c.oblige(x[0] == "call" and cname(x) in ("len", "count") and fld_of(x[2][0], "clock_indices"), "count-" + v, f.body.id, "replacing clocks counts as " + show(x)[:80])
    e, f = c.entry(I + "get_clock_index", [])
    if f is None:
        return n
    for t, k in outcomes(e, f):
        for x, kk, _ in deep(e, t, k):
            n += 1
            c.oblige(fld_of(x, "clock_index"), "index", f.body.id, "the clock of an instruction is " + show(x)[:80])
    return n


def fld_of(t, name):
    t = unclone(t)
    return t[0] == "f" and t[2] == name or t[0] == "v" and t[3] == name


def total(e, t):
    """The collections of instructions whose removed clocks t adds up."""
    t = unclone(t)
    if t[0] == "call" and cname(t) == "len":
        return [("len", t[2][0])]
    if t[0] == "f" and t[2] in ("0", 0):
        return total(e, t[1])
    if t[0] == "bin" and t[1].startswith("Add"):
        return total(e, t[2]) + total(e, t[3])
    if t[0] == "call" and cname(t) in ("fold", "sum", "count"):
        if cname(t) == "fold":
            coll = t[2][0]
            if cv(t[2][1]) != 0:
                raise Undecided("a sum begins at " + show(t[2][1])[:60])
            acc = ("acc!", t)
            r = e.apply(t[2][2], [acc, e.elem(coll)], t[3])
            if r[0] == "f" and r[2] in ("0", 0):
                r = r[1]
            if not (r[0] == "bin" and r[1].startswith("Add") and acc in r[2:4]):
                raise Undecided("a sum adds " + show(r)[:80])
            x = r[3] if r[2] == acc else r[2]
        else:
            m = t[2][0]
            coll = m[2][0] if m[0] == "call" and cname(m) == "map" else m
            x = e.elem(m)
        if not (x[0] == "call" and x[1] == I + "clocks_removed_count"):
            return [("wrong", x)]
        return parts(coll)
    if t[0] == "phi":
        out = []
        for v, fr, df in e.phis.get(t) or ():
            if cv(v) == 0:
                continue
            if v[0] == "f" and v[2] in ("0", 0):
                v = v[1]
            if v[0] == "bin" and v[1].startswith("Add") and t in v[2:4]:
                x = v[3] if v[2] == t else v[2]
                if x[0] == "call" and x[1] == I + "clocks_removed_count" and unclone(x[2][0])[0] == "elem":
                    out += parts(unclone(x[2][0])[1])
                    continue
                return [("wrong", x)]
            raise Undecided("a sum adds " + show(v)[:80])
        return out
    raise Undecided("the clocks removed are counted as " + show(t)[:100])


def parts(coll):
    coll = unclone(coll)
    if coll[0] == "call" and cname(coll) == "chain":
        return parts(coll[2][0]) + parts(coll[2][1])
    if coll[0] == "call" and cname(coll) in ("iter", "into_iter"):
        return parts(coll[2][0])
    return [coll]


def reduce_two(c):
    names = ["filter_redundant_clocks", "compress_component_decls"]
    hs = have(c, *([K + x for x in names] + [R + x for x in ("reduce_clocks", "change_quotient", "compile", "get_components_mut")] +
                   [T + "find_redundant_clocks", I + "clocks_removed_count", I + "get_clock_index"]))
    FL, CO, RC, CQ, CP, GC, FR, _, GI = hs
    e, f = c.entry(K + "clock_reduce", hs)
    if f is None:
        return 0
    lhs, rhs, dim, q = zones.params(f)[:4]
    ev = e.events(f)
    n = 0
    R0 = ("v", rhs, "Some", "0")
    red = [x for x in ev if x.name == RC]
    two = [x for x in red if two_sided(e, x, rhs)]
    single = [x for x in red if not two_sided(e, x, rhs)]
    if not two or not single:
        raise Undecided("which reductions are for one system and which for two is not known")
    def found(t, who):
        """t is what the analysis of that system finds."""
        t = unclone(t)
        if not (t[0] == "call" and t[1] == FR):
            return False
        s = t[2][0]
        s = s[1] if s[0] == "v" and s[2] == "Ok" else s
        s = unclone(s)
        return s[0] == "call" and s[1] == CP and unclone(s[2][0]) == who and unclone(s[2][1]) == dim
    # -- two systems
    done = {}
    for x in two:
        n += 1
        s = unclone(x.args[0])
        t = unclone(x.args[1])
        c.oblige(t[0] == "f" and t[1][0] == "call" and t[1][1] == FL, "two-filtered", x.where, "the instructions carried out are " + show(t)[:120])
        if not (t[0] == "f" and t[1][0] == "call" and t[1][1] == FL):
            continue
        side = str(t[2])
        c.oblige((s, side) in ((lhs, "0"), (R0, "1")), "two-side", x.where, "on %s the instructions for the %s system are carried out" % (show(s)[:40], "left right".split()[int(side)]))
        done[side] = t
        only_under(c, e, x, lambda a: start_if(a, dim, rhs), "two-if", "the clocks are reduced only if %s")
        fa = t[1][2]
        c.oblige(found(fa[0], lhs) and found(fa[1], R0), "two-found", x.where, "the redundant clocks are " + show(fa[0])[:80] + " and " + show(fa[1])[:80])
        c.oblige(unclone(fa[2]) == q, "two-quotient", x.where, "the clock kept for the quotient is " + show(fa[2])[:80])
        sp = opts(fa[3])
        okm = sp[0] == "call" and cname(sp) == "max" and all_clocks(e, sp[2][0], lhs, GC)
        if not okm and not (sp[0] == "call" and cname(sp) in ("min", "max", "sum", "last", "len")):
            raise Undecided("the last clock of the left system is " + show(fa[3])[:120])
        c.oblige(okm, "two-split", x.where, "the last clock of the left system is taken to be " + show(fa[3])[:120])
    c.oblige(set(done) == {"0", "1"}, "two-both", f.body.id, "the clocks of only one of the systems are reduced")
    n += rest(c, e, f, ev, dim, q, [lhs, R0], list(done.values()), CO, CQ, GC, lambda x: two_sided(e, x, rhs), "two")
    # -- one system
    sts = set()
    for x in single:
        n += 1
        c.oblige(unclone(x.args[0]) == lhs, "one-system", x.where, "the clocks are reduced of " + show(x.args[0])[:80])
        t = unclone(x.args[1])
        sts.add(t)
        b = t
        conds_ = []
        while True:
            b = unclone(b)
            if b[0] == "acc":
                base, cs = e.contribs(b)
                for op, args, k, w, fr, bb in cs:
                    if op == "retain":
                        conds_.append(e.apply(args[-1], [e.elem(base)], "x"))
                    elif op in INS:
                        raise Undecided("the instructions are gathered by " + op)
                b = base
            elif b[0] == "call" and cname(b) in ("filter", "collect") and b[2]:
                if cname(b) == "filter":
                    conds_.append(e.apply(b[2][1], [e.elem(b[2][0])], "x"))
                b = b[2][0]
            else:
                break
        c.oblige(found(b, lhs), "one-found", x.where, "the redundant clocks are " + show(b)[:120])
        keep_q(c, e, conds_, q, GI, "one", x.where)
    n += rest(c, e, f, ev, dim, q, [lhs], list(sts), CO, CQ, GC, lambda x: not two_sided(e, x, rhs), "one")
    # the outcomes
    for t, k in e.returns(f):
        for x, kk, _ in deep(e, t, k):
            if x[0] == "agg" and x[2] == "Ok":
                n += 1
    return n


def two_sided(e, x, rhs):
    k = set(x.K) | set(e.guards(x.frame, x.bb))
    if any(a[0] == "is" and a[1] == rhs and a[2] == "Some" or a[0] == "isnt" and a[1] == rhs and a[2] == "None" for a in k):
        return True
    for a in k:
        if a[0] == "is" and a[1][0] == "call" and a[1][2] and a[1][2][0] == rhs:
            if cname(a[1]) == "is_none":
                return a[2] is False
            if cname(a[1]) == "is_some":
                return a[2] is True
    return False


def start_if(a, dim, rhs):
    """Conditions the reduction may depend on: there are clocks, one or two systems, both compile."""
    if a[0] == "did":
        return True
    if a[0] in ("is", "isnt"):
        t = a[1]
        if t == rhs or t == dim:
            return True
        if t[0] == "call" and cname(t) in ("is_none", "is_some") and t[2][0] == rhs:
            return True
        if t[0] == "bin" and dim in t[2:4] and any(cv(x) in (0, 1) for x in t[2:4]):
            return True
        if any(s and s[0] == "call" and s[1] == R + "compile" for s in fx.subterms(t)) and (t[0] == "call" and cname(t) in ("branch", "is_ok", "is_err", "compile")):
            return True
    return False


def all_clocks(e, t, who, GC):
    """The values of the clocks of all components of that system, and nothing else."""
    ins, rem, oth = feed(e, t)
    if rem or oth or len(ins) != 1:
        return False
    x, g, w = ins[0]
    if bad_guards(g):
        return False
    return clocks_of(x, lambda s: s[0] == "call" and s[1] in (GC, GC.replace("_mut", "")) and unclone(s[2][0]) == who)


def clocks_of(x, ok):
    """x is (a value of) an element of the clocks declared by an element of a collection that ok accepts."""
    x = unclone(x)
    if x[0] == "f" and str(x[2]) == "1":
        x = unclone(x[1])
    if x[0] != "elem":
        return False
    b = x[1]
    while b[0] == "call" and cname(b) in ("values", "values_mut", "iter", "iter_mut", "into_iter") and b[2]:
        b = b[2][0]
    b = unclone(b)
    if not (b[0] == "f" and b[2] == "clocks"):
        return False
    b = b[1]
    if b[0] == "f" and b[2] == "declarations":
        b = b[1]
    b = unclone(b)
    return b[0] == "elem" and ok(unclone(b[1]))


def keep_q(c, e, conds_, q, GI, key, where):
    """The conditions say that the clock of an instruction is not the quotient's, and only that."""
    seen = False
    for t in conds_:
        for kk in truth_cases(e, t, True):
            for a in kk:
                if a[0] == "is" and a[1][0] == "bin" and a[1][1] in ("Ne", "Eq") and (a[2] is True) == (a[1][1] == "Ne"):
                    l, r = a[1][2], a[1][3]
                    if any(opts(y) == q for y in (l, r)) and any(unclone(y)[0] == "call" and unclone(y)[1] == GI for y in (l, r)):
                        seen = True
                    elif q in set(fx.subterms(a[1])) and any(s and s[0] == "call" and s[1] == GI for s in fx.subterms(a[1])):
                        seen = True
                elif a[0] == "is" and a[1][0] == "call" and cname(a[1]) in ("ne", "eq") and q in set(fx.subterms(a[1])):
                    seen = seen or (a[2] is True) == (cname(a[1]) == "ne")
                elif a[0] in ("is", "isnt") and a[1] == q:
                    seen = True
    c.oblige(seen, key + "-quotient-kept", where, "the clock of the quotient may be reduced")


def rest(c, e, f, ev, dim, q, sides, instr, CO, CQ, GC, mine, key):
    """What follows once the instructions are known: dimension, numbers, quotient."""
    n = 0
    st = [x for x in ev if x.name == "@store" and x.args[0] == dim and mine(x)]
    c.oblige(st, key + "-dim", f.body.id, "the dimension stays as it was")
    new = set()
    for x in st:
        n += 1
        v = x.args[1]
        new.add(v)
        w = v[1] if v[0] == "f" and str(v[2]) == "0" else v
        ok = w[0] == "bin" and w[1].startswith("Sub") and unclone(w[2]) == dim
        c.oblige(ok, key + "-dim", x.where, "the dimension becomes " + show(v)[:120])
        if ok:
            got = sorted(total(e, w[3]), key=repr)
            c.oblige(got == sorted(instr, key=repr), key + "-dim-by", x.where, "the dimension shrinks by the clocks removed by %s" % ", ".join(show(y)[:60] for y in got))
    cos = [x for x in ev if x.name == CO and mine(x)]
    c.oblige(cos, key + "-renumber", f.body.id, "the clocks left are not renumbered")
    for x in cos:
        n += 1
        def comp(t, s):
            t = unclone(t)
            return t[0] == "call" and t[1] == GC and unclone(t[2][0]) == s
        ok = comp(x.args[0], sides[0])
        if len(sides) == 2:
            o = x.args[1]
            ok = ok and o[0] == "agg" and o[2] == "Some" and comp(dict(o[3])["0"], sides[1])
        c.oblige(ok, key + "-renumbered", x.where, "the clocks are renumbered of %s and %s" % (show(x.args[0])[:60], show(x.args[1])[:60]))
        only_under(c, e, x, lambda a: start_if(a, dim, zones.params(f)[1]), key + "-renumber-if", "the clocks are renumbered only if %s")
    cq = [x for x in ev if x.name == CQ and mine(x)]
    for s in sides:
        c.oblige(any(unclone(x.args[0]) == s for x in cq), key + "-quotient", f.body.id, "the clock of the quotient keeps its number in " + show(s)[:40])
    for x in cq:
        n += 1
        c.oblige(x.args[1] in new, key + "-quotient-number", x.where, "the clock of the quotient becomes " + show(x.args[1])[:100])
        only_under(c, e, x, lambda a: start_if(a, dim, zones.params(f)[1]) or a[0] in ("is", "isnt") and (a[1] == q or a[1][0] == "call" and cname(a[1]) in ("is_some", "is_none") and
                                                                                                      unclone(a[1][2][0]) == q),
                   key + "-quotient-if", "the clock of the quotient is renumbered only if %s")
        for y in cos:
            pass
    # in that order: the instructions speak of the old numbers
    where = {id(x): i for i, x in enumerate(ev)}
    for x in [y for y in ev if y.name == R + "reduce_clocks" and mine(y)]:
        for y in cos:
            if y.frame is x.frame:
                c.oblige(where[id(x)] < where[id(y)], key + "-order", x.where, "the instructions are carried out after the clocks have been renumbered")
    return n


def filtered(c):
    hs = have(c, I + "get_clock_index")
    e, f = c.entry(K + "filter_redundant_clocks", hs)
    if f is None:
        return 0
    ps = zones.params(f)
    l, r, q, sp = ps[:4]
    n = 0
    for t, k in answers(e, f):
        if t[0] != "agg":
            raise Undecided("the instructions of both systems are " + show(t)[:100])
        d = {str(a): b for a, b in t[3]}
        for side, mine, other in (("0", l, r), ("1", r, l)):
            n += 1
            who = "left right".split()[int(side)]
            x = unclone(d[side])
            ins, rem, oth = feed(e, x)
            if rem or oth or not ins:
                raise Undecided("the instructions of the %s system are %s" % (who, show(x)[:100]))
            for y, g, w in ins:
                el = unclone(y)
                c.oblige(el in (("elem", l), ("elem", r)), "filter-from-" + side, f.body.id, "an instruction for the %s system is %s" % (who, show(el)[:80]))
                ks = []
                for a in g:
                    ks += [a] if a[0] != "is" or a[2] not in (True, False) else [z for kk in truth_cases(e, a[1], a[2]) for z in kk] or [a]
                o = r if el == ("elem", l) else l
                both = [a for a in ks if a[0] == "is" and a[2] is True and a[1][0] == "call" and cname(a[1]) in ("contains", "any") and unclone(a[1][2][0]) == o and
                        (cname(a[1]) == "any" or unclone(a[1][2][1]) == el)]
                c.oblige(both, "filter-both-" + side, f.body.id, "a clock of the %s system is reduced though the other system needs it" % who)
                gi = ("call", hs[0], (el,), None)
                isg = lambda z: unclone(z)[:3] == gi[:3]
                bound = None
                for a in ks:
                    if a[0] == "is" and a[1][0] == "bin" and a[1][1] in ("Lt", "Le", "Gt", "Ge") and sp in [unclone(z) for z in a[1][2:4]]:
                        op = a[1][1]
                        if not isg(a[1][2]):
                            op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op]
                        if a[2] is False:
                            op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}[op]
                        bound = op
                c.oblige(bound == ("Le" if side == "0" else "Gt"), "filter-own-" + side, f.body.id,
                         "the clocks of the %s system are those %s the last one of the left" % (who, {None: "however they lie to", "Le": "up to", "Lt": "before", "Gt": "after", "Ge": "from"}[bound]))
                kq = [a for a in ks if a[0] == "is" and a[1][0] == "bin" and a[1][1] in ("Ne", "Eq") and (a[2] is True) == (a[1][1] == "Ne") and
                      any(isg(z) for z in a[1][2:4]) and any(opts(z) == q for z in a[1][2:4])]
                kq += [a for a in ks if a[0] in ("is", "isnt") and a[1][0] == "call" and cname(a[1]) in ("ne", "eq") and q in set(fx.subterms(a[1])) and (a[2] is True) == (cname(a[1]) == "ne")]
                c.oblige(kq, "filter-quotient-" + side, f.body.id, "the clock of the quotient may be reduced in the %s system" % who)
    return n


def reduced(c):
    hs = have(c, C + "remove_clock", C + "replace_clock", R + "get_components_mut")
    e, f = c.entry(R + "reduce_clocks", hs)
    if f is None:
        return 0
    me, ins = zones.params(f)[:2]
    n, seen = 0, set()
    el = ("elem", ins)
    for x in e.events(f):
        if x.name not in hs[:2]:
            continue
        n += 1
        v = "RemoveClock" if x.name == hs[0] else "ReplaceClocks"
        seen.add(v)
        c.oblige(fld_of(x.args[1], "clock_index") and el in set(fx.subterms(x.args[1])), v + "-index", x.where, "the clock is " + show(x.args[1])[:80])
        if v == "ReplaceClocks":
            c.oblige(fld_of(x.args[2], "clock_indices") and el in set(fx.subterms(x.args[2])), v + "-indices", x.where, "the clocks replaced are " + show(x.args[2])[:80])
            s = unclone(x.args[0])
            c.oblige(s[0] == "elem" and base_of(e, s[1])[:2] == ("call", hs[2]), v + "-everywhere", x.where, "equal clocks are replaced only in " + show(s)[:100])
            only_under(c, e, x, lambda a: loops(a) or a[0] in ("is", "isnt") and a[1] == el, v + "-if", "equal clocks are replaced only if %s")
        else:
            s = opts(x.args[0])
            if s[0] == "call" and cname(s) == "find":
                r = e.apply(s[2][1], [e.elem(s[2][0])], "x")
                owner(c, e, r, el, x.where)
                c.oblige(base_of(e, s[2][0])[:2] == ("call", hs[2]), v + "-everywhere", x.where, "the owner of a clock is sought in " + show(s[2][0])[:80])
            only_under(c, e, x, lambda a: loops(a) or a[0] in ("is", "isnt") and (a[1] == el or el in set(fx.subterms(a[1]))), v + "-if", "an unused clock is removed only if %s")
        bad = [y for y in leaves(e, x.frame, x.bb) if not any(a[0] == "is" and a[1][0] == "call" and cname(a[1]) in ("any", "contains", "find", "position") for a in y[1])]
        if v == "ReplaceClocks" or not any(last(s) in ("any",) for s in ("",)):
            c.oblige(not bad, v + "-all", x.where, "not all instructions are carried out")
    c.oblige(seen == {"RemoveClock", "ReplaceClocks"}, "carried-out", f.body.id, "of the instructions only %s are carried out" % sorted(seen))
    return n


def owner(c, e, r, el, where):
    """The owner is told by: one of its clocks has the index."""
    for t in fx.subterms(r):
        if t and t[0] == "call" and cname(t) == "any":
            y = e.apply(t[2][1], [e.elem(t[2][0])], "x")
            ok = y[0] == "bin" and y[1] == "Eq" or y[0] == "call" and cname(y) == "eq"
            c.oblige(ok, "owner", where, "the owner of a clock is a component for which " + show(y)[:100])


def renumbered(c):
    e, f = c.entry(K + "compress_component_decls", have(c, R + "get_components_mut"))
    if f is None:
        return 0
    ps = zones.params(f)
    ev = e.events(f)
    st = [x for x in ev if x.name == "@store" and x.args[0][0] in ("elem", "f") and elem_in(x.args[0])]
    if not st:
        raise Undecided("how the clocks are renumbered is not known")
    n = 0
    el = unclone(st[0].args[0])
    coll = el[1] if el[0] == "elem" else None
    if coll is None:
        raise Undecided("what is renumbered is " + show(el)[:100])
    ins, rem, oth = feed(e, coll)
    c.oblige(not rem and not oth, "renumber-all", f.body.id, "some clocks are left out of the renumbering")
    owners = set()
    for x, g, w in ins:
        n += 1
        ok = clocks_of(x, lambda s: owners.add(opts(s)) or True)
        if not ok:
            raise Undecided("a clock that is renumbered is " + show(x)[:100])
        bad = bad_guards(g, lambda a: ps[1] in set(fx.subterms(a[1])))
        c.oblige(not bad, "renumber-if", w or f.body.id, "a clock is renumbered only if " + "; ".join(show(a) for a in bad)[:120])
    for p in ps[:2]:
        c.oblige(p in owners, "renumber-" + p[1], f.body.id, "the clocks of %s are not renumbered" % p[1])
    srt = [x for x in ev if last(x.name).startswith("sort")]
    c.oblige(srt, "renumber-order", f.body.id, "the clocks are renumbered in no particular order: those of the left system need not come first")
    maps = [x for x in ev if last(x.name) == "insert" and "Map" in x.name]
    if not maps:
        raise Undecided("which numbers were given is not kept in a map")
    news = set()
    for x in maps:
        n += 1
        c.oblige(unclone(x.args[1]) == el, "seen-key", x.where, "the number of a clock is kept for " + show(x.args[1])[:80])
        v = unclone(x.args[2])
        news.add(v)
        g = e.guards(x.frame, x.bb)
        c.oblige(any(a[1][0] == "call" and cname(a[1]) in ("get", "contains_key") and a[2] in ("None", False) for a in g if a[0] == "is"), "seen-new", x.where,
                 "a clock that has a number gets another")
        if v[0] != "phi":
            raise Undecided("a new number is " + show(v)[:80])
        for y, fr, df in e.phis.get(v) or ():
            if v in set(fx.subterms(y)):
                w = y[1] if y[0] == "f" else y
                if y == v:
                    continue
                if df is not None and fr is not None:
                    gd = e.guards(fr, df[0])
                    c.oblige(any(a[0] == "is" and a[1][0] == "call" and cname(a[1]) in ("get", "contains_key") and a[2] in ("None", False) for a in gd), "number-kept", x.where,
                             "a number is left out for a clock that has one already")
                c.oblige(w[0] == "bin" and w[1].startswith("Add") and any(cv(z) == 1 for z in w[2:4]), "number-next", x.where, "the number after %s is %s" % (show(v)[:20], show(y)[:60]))
            else:
                c.oblige(cv(y) == 1, "number-first", x.where, "the first clock gets the number " + show(y)[:40])
        c.oblige(not after_store(x, [y for y in st if y.frame is x.frame]), "seen-key", x.where, "the number of a clock is kept for the number itself")
    for x in st:
        n += 1
        v = unclone(x.args[1])
        g = e.guards(x.frame, x.bb)
        hit = any(a[0] == "is" and a[1][0] == "call" and cname(a[1]) in ("get", "contains_key") and a[2] in ("Some", True) for a in g)
        if hit:
            ok = v[0] == "idx" and unclone(v[2]) == el or v[0] == "v" and v[1][0] == "call" and cname(v[1]) == "get" and unclone(v[1][2][1]) == el
            c.oblige(ok, "seen-same", x.where, "a clock that was met before becomes " + show(v)[:80])
        else:
            c.oblige(v in news, "seen-stored", x.where, "a clock becomes %s, but %s is what is kept" % (show(v)[:60], ", ".join(show(z)[:30] for z in news)))
        c.oblige(not leaves(e, x.frame, x.bb), "renumber-each", x.where, "not every clock is renumbered")
    return n


def after_store(x, st):
    """The key of an insertion is read from the clock after the new number was stored in it."""
    b = x.frame.body
    t = b.blocks[x.bb]["t"]
    ops = t[2] if t[0] == "call" else []
    if len(ops) < 2 or ops[1][0] not in ("m", "c") or ops[1][1]["p"]:
        return False
    loc = ops[1][1]["l"]
    ds = [(i, j, s) for i, bl in enumerate(b.blocks) for j, s in enumerate(bl["s"]) if isinstance(s[0], dict) and s[0] == {"l": loc, "p": []}]
    if len(ds) != 1:
        return False
    i, j, s = ds[0]
    src = s[1][1] if s[1][0] == "use" else None
    if not src or src[0] not in ("m", "c") or not src[1]["p"] or src[1]["p"][0][0] != "*":
        return False
    for y in st:
        w = [k for k, z in enumerate(b.blocks[y.bb]["s"]) if isinstance(z[0], dict) and z[0] == {"l": src[1]["l"], "p": [["*"]]}]
        if w and (y.bb == i and w[0] < j or y.bb != i and i in reach(b, y.bb)):
            return True
    return False


def reach(b, s):
    """Blocks reached from s without going round a loop."""
    seen, todo = set(), [x for x in b.succ[s] if x not in b.loops]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += [y for y in b.succ[x] if y not in b.loops]
    return seen


def elem_in(t):
    return any(s and s[0] == "elem" for s in fx.subterms(t))


def quotient(c):
    e, f = c.entry(R + "change_quotient", [R + "change_quotient"])
    if f is None:
        return 0
    me, ix = zones.params(f)[:2]
    n = 0
    ev = e.events(f)
    st = [x for x in ev if x.name == "@store"]
    c.oblige(any(x.args == (("v", me, "Quotient", "2"), ix) for x in st), "quotient-index", f.body.id, "the clock of a quotient does not get its new number")
    for x in st:
        only_under(c, e, x, lambda a: a[0] == "did" or a[1] == me, "quotient-index-if", "a quotient gets its new clock only if %s")
    for v in ("Composition", "Conjunction", "Quotient"):
        for i in "01":
            n += 1
            ok = False
            for x in ev:
                if x.name != R + "change_quotient":
                    continue
                t = unclone(x.args[0])
                ts = [t] if t[0] != "phi" else [y for y, _, _ in e.phis.get(t) or ()]
                ts += [z for y in ts if y[0] == "elem" for z in e.arr_elems(y[1]) or ()]
                ts += [z for y in ts if y[0] == "phi" for z, _, _ in e.phis.get(y) or ()]
                ok = ok or ("v", me, v, i) in [unclone(y) for y in ts] and x.args[1] == ix
            c.oblige(ok, "quotient-%s-%s" % (v, i), f.body.id, "a quotient inside the %s part of a %s does not get the new number" % ("left right".split()[int(i)], v))
    return n


def replaced(c):
    e, f = c.entry(C + "replace_clock", [])
    if f is None:
        return 0
    me, g, ix = zones.params(f)[:3]
    n = 0
    cl = fld(fld(me, "declarations"), "clocks")
    for x in e.events(f):
        if x.name != "@store":
            continue
        n += 1
        t = unclone(x.args[0])
        ok = t[0] == "f" and str(t[2]) == "1" and elem_of(t[1], cl) or elem_of(t, cl)
        c.oblige(ok, "replace-where", x.where, "what is replaced is " + show(t)[:80])
        c.oblige(unclone(x.args[1]) == g, "replace-by", x.where, "a clock is replaced by " + show(x.args[1])[:80])
        gs = e.guards(x.frame, x.bb)
        c.oblige(any(a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "contains" and unclone(a[1][2][0]) == ix and unclone(a[1][2][1]) == t and a[2] is True for a in gs),
                 "replace-only", x.where, "a clock is replaced without being one of those to replace")
        bad = [a for a in norm(e, gs) if not loops(a) and not (a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "contains" and unclone(a[1][2][0]) == ix)]
        c.oblige(not bad, "replace-if", x.where, "a clock is replaced only if " + "; ".join(show(a) for a in bad)[:160])
        c.oblige(not leaves(e, x.frame, x.bb), "replace-all", x.where, "not every clock is replaced")
    if not n:
        raise Undecided("how a clock is replaced is not known")
    return n


def elem_of(t, coll):
    t = unclone(t)
    if t[0] != "elem":
        return False
    b = t[1]
    while b[0] == "call" and cname(b) in ("values", "values_mut", "iter", "iter_mut", "into_iter", "filter") and b[2]:
        b = b[2][0]
    return unclone(b) == coll


def removed(c):
    hv = [b for b in c.p.bodies if last(b) == "has_varname" and "{" not in b]
    e, f = c.entry(C + "remove_clock", hv)
    if f is None:
        return 0
    me, ix = zones.params(f)[:2]
    cl = fld(fld(me, "declarations"), "clocks")
    ev = e.events(f)
    n = 0
    rm = [x for x in ev if last(x.name) in ("remove", "remove_entry") and unclone(x.args[0]) == cl]
    if not rm:
        if any(last(x.name) == "retain" and unclone(x.args[0]) == cl for x in ev):
            raise Undecided("the declaration of a clock is dropped by retain")
        c.oblige(False, "remove-declared", f.body.id, "a clock that is removed stays declared")
        return 1
    name = unclone(rm[0].args[1])
    n += 1
    only_under(c, e, rm[0], lambda a: a[0] == "did" or "find" in show(a) or a[2] == "Some", "remove-if", "the declaration is dropped only if %s")
    fnd = [x for x in ev if last(x.name) == "find" and unclone(x.args[0]) == cl]
    for x in fnd:
        r = e.apply(x.args[1], [("elem", cl)], "x")
        okf = [a for kk in truth_cases(e, r, True) for a in kk if ix in set(fx.subterms(a[1])) and (a[2] is True) == ("Eq" in a[1][1] or cname(a[1]) == "eq")]
        c.oblige(okf, "remove-which", x.where, "the clock that is removed is one for which " + show(r)[:80])
    seen = set()
    for x in ev:
        if x.name == "@store":
            t, v = unclone(x.args[0]), x.args[1]
            part = [s[2] for s in fx.subterms(t) if s and s[0] == "f" and s[2] in ("guard", "invariant")]
            if not part:
                continue
            n += 1
            seen.add(part[0])
            c.oblige(v[0] == "agg" and v[2] == "Bool" and cv(dict(v[3])["0"]) in (False, 0), part[0] + "-false", x.where, "a %s that needs the clock becomes %s" % (part[0], show(v)[:60]))
            why_ = set()
            for a in set(e.guards(x.frame, x.bb)) | set(x.K):
                why_ |= said(e, a, name)
            c.oblige(True in why_ and False not in why_, part[0] + "-only", x.where, "a %s becomes false although it does not mention the clock" % part[0])
        elif last(x.name) == "retain":
            t = unclone(x.args[0])
            if any(s and s[0] == "f" and s[2] == "update" for s in fx.subterms(t)):
                n += 1
                seen.add("update")
                el = e.elem(x.args[0])
                r = e.apply(x.args[1], [el], "x")
                oks = [a for kk in truth_cases(e, r, True) for a in kk if a[1][0] != "un" and fld(unclone(el), "variable") in set(fx.subterms(a[1])) and name in set(fx.subterms(a[1]))]
                c.oblige(oks and all((a[2] is True) == (cname(a[1]) == "ne" or a[1][0] == "bin" and a[1][1] == "Ne") for a in oks), "update-dropped", x.where,
                         "of the updates those are kept for which " + show(r)[:100])
    for p, w in (("guard", "a guard"), ("invariant", "an invariant"), ("update", "an update")):
        c.oblige(p in seen, "remove-" + p, f.body.id, "%s may go on to speak of a clock that is removed" % w)
    return n


def said(e, a, name):
    """What an atom says about the expression at hand mentioning the name."""
    out = set()
    ts = [a[1]]
    for s in list(fx.subterms(a[1])):
        if s and s[0] == "call" and cname(s) in ("optfilter", "filter") and len(s[2]) == 2 and s[2][1][0] in ("closure", "clo"):
            if a[2] in ("Some", True):
                el = ("v", s[2][0], "Some", "0") if cname(s) == "optfilter" else e.elem(s[2][0])
                r = e.apply(s[2][1], [el], "x")
                for kk in truth_cases(e, r, True):
                    for b in kk:
                        if b[1][0] == "call" and last(b[1][1]) == "has_varname" and unclone(b[1][2][1]) == name:
                            out.add(b[2])
    if a[0] == "is" and a[1][0] == "call" and last(a[1][1]) == "has_varname" and unclone(a[1][2][1]) == name:
        out.add(a[2])
    return out


def mentions_name(c):
    """has_varname is true of a variable or clock of that name and of whatever has an operand it is true of."""
    n = 0
    for hv in sorted(b for b in c.p.bodies if last(b) == "has_varname" and "{" not in b):
        adt = hv.rsplit("::", 1)[0]
        vs = c.p.adts.get(adt)
        if not vs:
            continue
        e, f = c.entry(hv, [b for b in c.p.bodies if last(b) == "has_varname" and "{" not in b])
        if f is None:
            continue
        hs = [b for b in c.p.bodies if last(b) == "has_varname" and "{" not in b]
        for v, e, f, fs in arms(c, hv, adt, hs):
            for i, t in zip(names(vs, v), fs):
                if i not in operands(vs, v):
                    continue
                n += 1
                for r, k in outcomes(e, f):
                    for kk in truth_cases(e, r, False, k):
                        ok = any(a[0] == "is" and a[2] is False and a[1][0] == "call" and last(a[1][1]) == "has_varname" and unclone(a[1][2][0]) == t for a in kk)
                        c.oblige(ok, "named-%s-%s-%s" % (last(adt), v, i), f.body.id, "a %s is taken not to mention a name its operand %s may mention" % (v, i))
    return n


def names(vs, v):
    return [i for x in vs if x["name"] == v for i, _ in x["fields"]]


def variants_of(vs):
    return [v["name"] for v in vs]


def operands(vs, v):
    for x in vs:
        if x["name"] == v:
            return [i for i, ty in x["fields"] if "Expression" in ty]
    return []
