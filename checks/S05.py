import fx
import zones
from zones import *
from tables import *
from core import *

TITLE = "the states of a reachability query are the ones it names"
EXPLAIN = ("Every case of the functions that turn the state part of a query into a state is read from compiler MIR and compared "
           "with a table: each kind of expression with the comparison, conjunction or disjunction it means, each kind of system "
           "with the locations of its parts in their order, and the conditions under which a state is refused with the "
           "quantified formulas that make it ambiguous or meaningless.")
X = "System::extract_state::"
SE = "ModelObjects::Expressions::state_expression::"
A = lambda x: ("arg", x)
CMPS = {"LEQ": "LessEQ", "GEQ": "GreatEQ", "EQ": "EQ", "LT": "LessT", "GT": "GreatT"}


def run(c):
    LOCS = private(c, "get_locations", ("Vec<", "ComponentVariable"), 1)
    TREE = private(c, "construct_location_tree", ("LocationTree",), 3)
    n = expressions(c)
    n += operands(c)
    if LOCS and TREE:
        n += named(c, LOCS)
        n += tree(c, TREE)
        n += state(c, LOCS, TREE)
    n += index(c)
    c.floor(n, 20, "state", "cases of states")


def private(c, name, types, argc):
    """A helper of the module, by its name or else by its type."""
    if X + name in c.p.bodies:
        return X + name
    out = [b for b, m in ((b, c.p.bodies[b]) for b in c.p.bodies if b.startswith(X)) if b.startswith(X) and "{" not in b and m.argc == argc and
           all(t in str(m.locals[0]["ty"]) for t in types)]
    if len(out) == 1:
        return out[0]
    if any(b.startswith(X) for b in c.p.tainted):
        raise Undecided("the helpers of get_state do not type-check")
    c.viol("anchor", name, "%s, which this property is anchored in, is gone" % name)


def fail(t):
    return t[0] in ("failed", "never") or t[0] == "agg" and t[2] == "Err"


def cases(e, f):
    return [(x, k) for x, k in answers(e, f) if not fail(x)]


def expressions(c):
    tb, ta = SE + "StateExpression::to_bool_expression", SE + "OperandExpression::to_arith_expression"
    comps = None
    n = 0
    for v, e, f, fs in arms(c, tb, SE + "StateExpression", [tb, ta]):
        comps = params(f)[1]
        got = cases(e, f)
        key = "reads-" + v
        if v == "NOT":
            # refused, or the negation
            for x, k in got:
                if not (x[0] == "agg" and x[2] == "Ok" and fail(x[3][0][1])):
                    raise Undecided("a negation is read as " + show(x)[:80])
            continue
        if not c.oblige(got, key, f.body.id, "no condition is made of %s" % v):
            continue
        n += 1
        if v in ("AND", "OR") and len(got) > 1:
            loop(c, e, f, [whole(x) for x, _ in got], fs[0], "AndOp" if v == "AND" else "OrOp", tb, comps, key)
            continue
        for x, k in got:
            y = whole(x)
            if v in CMPS:
                w = "BoolExpression::%s(to_arith_expression(%s, %s)!, to_arith_expression(%s, %s)!)" % (
                    CMPS[v], fs[0][1], comps[1], fs[1][1], comps[1])
                c.oblige(render(e, y, f) == w, key, f.body.id, "%s is read as %s" % (v, render(e, y, f)[:160]))
            elif v == "Bool":
                c.oblige(render(e, y, f) == "BoolExpression::Bool(%s)" % fs[0][1] or y[0] == "agg" and y[2] == "Bool" and
                         ("is", fs[0], y[3][0][1][1]) in k, key, f.body.id, "a constant is read as " + render(e, y, f)[:160])
            elif v == "Location":
                c.oblige(render(e, y, f) == "BoolExpression::Bool(True)", key, f.body.id,
                         "a location restricts the clocks: " + render(e, y, f)[:160])
            else:
                good = folded(e, f, y, k, fs[0], "AndOp" if v == "AND" else "OrOp", tb, comps)
                c.oblige(good, key, f.body.id, "the parts of %s are joined as %s" % (v, render(e, y, f)[:160]))
    return n


def whole(x):
    """What is in an Ok."""
    return x[3][0][1] if x[0] == "agg" and x[2] == "Ok" else ("v", x, "Ok", "0")


def each(e, src, coll, fn, comps):
    """src goes over fn(element) of every element of coll, in any order."""
    if cut(src):
        return False
    el = e.elem(src)
    while el[0] == "v" and el[2] == "Ok":
        el = el[1]
    if el[0] == "elem":
        s = src
        while s[0] == "call" and cname(s) in ("into_iter", "iter", "collect", "rev") and len(s[2]) == 1:
            s = s[2][0]
        if s[0] == "v" and s[2] == "Ok":
            el = e.elem(s[1])
        else:
            u = unmap(e, s, ok=lambda a: a[0] == "is" and a[2] in ("Ok", "Continue"))
            if u is None:
                raise Undecided("the parts joined are " + show(src)[:80])
            el = u[1]
    while el[0] == "v" and el[2] == "Ok":
        el = el[1]
    return el[0] == "call" and el[1] == fn and el[2][0] == ("elem", coll) and el[2][1] == comps


def cut(t):
    return any(s[0] == "call" and s[1].startswith("@") and cname(s) in ("skip", "take", "filter", "step_by", "take_while", "skip_while", "skip_last",
                                                                        "filter_map", "chain", "flatten", "flat_map")
               for s in fx.subterms(t) if s and isinstance(s[0], str))


def folded(e, f, t, k, coll, op, fn, comps):
    """t joins fn of all elements of coll by op."""
    neutral = op == "AndOp"
    if t[0] == "v" and t[2] in ("Some", "Ok"):
        t = t[1]
    while t[0] == "call" and cname(t) in ("unwrap", "expect", "ok_or", "ok_or_else") and t[2]:
        t = t[2][0]
    if t[0] == "call" and cname(t) == "reduce" and len(t[2]) == 2:
        return joins(e, t[2][1], t[3], op) and each(e, t[2][0], coll, fn, comps) and nexts(e, f, k) == 0
    if t[0] == "call" and cname(t) in ("fold", "rfold") and len(t[2]) == 3:
        src, init = t[2][:2]
        if not joins(e, t[2][2], t[3], op):
            return False
        if init[0] == "agg" and init[2] == "Bool":
            return init[3][0][1] == ("k", neutral) and each(e, src, coll, fn, comps) and nexts(e, f, k) == 0
        return init == e.elem(src) and each(e, src, coll, fn, comps) and nexts(e, f, k) == 1
    if t[0] == "agg" and t[2] in ("AndOp", "OrOp", "Bool", "LessEQ") or t[0] == "elem":
        return False
    raise Undecided("the parts are joined as " + show(t)[:80])


def loop(c, e, f, ys, coll, op, fn, comps, key):
    """A loop that joins the elements one by one."""
    n = 0
    for y in ys:
        if y[0] == "agg" and y[2] == op:
            els, st, cyc = set(), [y], False
            while st:
                z = st.pop()
                if z[0] == "agg" and z[2] == op:
                    st += [x for _, x in z[3]]
                    cyc |= z is not y
                elif z[0] == "phi":
                    cyc = True
                else:
                    els.add(z)
            if not c.oblige(len(els) == 1 and cyc, key, f.body.id, "the parts are joined as " + show(y)[:100]):
                continue
            n += 1
            y = els.pop()
        elif y[0] == "agg" and y[2] == "Bool":
            c.oblige(y[3][0][1] == ("k", op == "AndOp"), key, f.body.id, "the parts are joined to " + show(y)[:100])
            continue
        elif y[0] == "agg":
            c.oblige(False, key, f.body.id, "the parts are joined as " + show(y)[:100])
            continue
        t = okv(y)
        if cut(t):
            c.oblige(False, key, f.body.id, "the parts joined are " + show(y)[:100])
            return
        if not (t[0] == "elem" and each(e, t[1], coll, fn, comps) or t[0] == "call" and t[1] == fn and t[2][0] == ("elem", coll) and t[2][1] == comps):
            raise Undecided("the parts joined are " + show(y)[:80])
    if not n:
        raise Undecided("the parts are joined in a loop")


def nexts(e, f, k):
    """How many elements were taken from the iterator before (each call site is passed once)."""
    return len([x for x in e.events(f) if last(x.name) in ("next", "pop", "nth", "next_back", "remove") and not e.contradict(e.close(k | x.K))])


def joins(e, clo, site, op):
    a, b = ("hole", "a"), ("hole", "b")
    r = e.apply(clo, [a, b], site)
    return r[0] == "agg" and r[2] == op and sorted(v for _, v in r[3]) == [a, b]


def operands(c):
    ta = SE + "OperandExpression::to_arith_expression"
    n = 0
    for v, e, f, fs in arms(c, ta, SE + "OperandExpression", [ta, "ModelObjects::component::Declarations::get_clock_index_by_name"]):
        comps = params(f)[1]
        got = cases(e, f)
        key = "operand-" + v
        if not c.oblige(got, key, f.body.id, "nothing is made of a %s" % v):
            continue
        n += 1
        for x, k in got:
            y = whole(x)
            r = render(e, y, f)
            if v in ("Difference", "Sum"):
                w = "ArithExpression::%s(to_arith_expression(%s, %s)!, to_arith_expression(%s, %s)!)" % (
                    {"Sum": "Addition"}.get(v, v), fs[0][1], comps[1], fs[1][1], comps[1])
                c.oblige(r == w, key, f.body.id, "a %s is read as %s" % (v, r[:160]))
            elif v == "Number":
                c.oblige(r == "ArithExpression::Int(%s)" % fs[0][1], key, f.body.id, "a number is read as " + r[:160])
            else:
                var = fs[0]
                good = y[0] == "agg" and y[2] == "Clock" and y[1].endswith("ArithExpression")
                t = strip_some(y[3][0][1]) if good else None
                good = good and t[0] == "call" and cname(t) == "get_clock_index_by_name" and t[2][1] == fld(var, "variable") and \
                    t[2][0][0] == "f" and t[2][0][2] == "declarations"
                if not c.oblige(good, key, f.body.id, "a clock is read as " + r[:160]):
                    continue
                cp = t[2][0][1]
                c.oblige(picked(e, cp, comps, k, (("name", fld(var, "component")), ("special_id", fld(var, "special_id")))), key + "-component", f.body.id,
                         "a clock is that of the component " + show(cp)[:100])
    return n


def strip_some(t):
    while t[0] == "v" and t[2] in ("Some", "Ok") or t[0] == "call" and cname(t) in (
            "clone", "copied", "cloned", "ok_or", "ok_or_else", "unwrap", "expect", "map_err", "branch", "deref") and t[2]:
        t = t[1] if t[0] == "v" else t[2][0]
    return t


def equal(e, k, cp):
    """The equalities of fields of cp known from k, and whether anything else is known of it."""
    eq, other = set(), []
    for a in k:
        if a[0] not in ("is", "isnt") or not uses_term(a[1], cp):
            continue
        t = a[1]
        if t[0] == "un" and t[1] == "Not":
            continue
        if t[0] == "bin" and t[1] in ("Eq", "Ne") and isinstance(a[2], bool) and a[0] == "is":
            x, y = (t[2], t[3]) if uses_term(t[2], cp) else (t[3], t[2])
            if not uses_term(y, cp) and (t[1] == "Eq") == a[2]:
                eq.add((x, unclone(y)))
                continue
        if t[0] == "call" and cname(t) in ("find", "position", "next", "any", "ok_or", "ok_or_else", "branch", "get_clock_index_by_name") or t[0] == "phi":
            continue
        other.append(a)
    return eq, other


def unclone(t):
    while t[0] == "call" and cname(t) in ("clone", "to_owned", "to_string", "into", "from", "as_str", "as_ref", "as_deref", "deref") and len(t[2]) == 1:
        t = t[2][0]
    return t


def picked(e, cp, comps, k, want):
    """cp is an element of comps with these fields, found by them alone."""
    el = cp
    while el[0] == "v" or el[0] == "call" and cname(el) in ("find", "unwrap", "expect") and el[2]:
        el = el[1] if el[0] == "v" else ("elem", strip(el[2][0])[0])
    if el[0] != "elem":
        if el[0] == "idx":
            raise Undecided("a component is found as " + show(cp)[:80])
        return False
    if strip(el[1])[0] != comps:
        return False
    return exactly(e, frozenset(k) | frozenset(e.elem_facts(el[1])), ("elem", comps), want)


def source(t):
    t = strip(t)[0]
    while t[0] == "call" and cname(t) == "filter" and t[1].startswith("@"):
        t = strip(t[2][0])[0]
    return t


def exactly(e, k, el, want):
    more = [x for a in k if a[0] == "is" and a[2] == "Some" and a[1][0] == "call" and cname(a[1]) in ("find", "next") and a[1][1].startswith("@") and
            source(a[1][2][0]) == el[1] for x in e.elem_facts(a[1][2][0])]
    k = e.close(frozenset(k) | frozenset(more))
    alts = [x for x in e.cases(k)] if any(a[0] == "is" and a[1][0] == "phi" for a in k) else [k]
    ok_ = bool(alts)
    for kk in alts:
        eq, other = equal(e, kk, el)
        ok_ &= {(fld(el, a), b) for a, b in want} == eq and not other
    return ok_


def index(c):
    """A clock is looked up by its name."""
    fn = "ModelObjects::component::Declarations::get_clock_index_by_name"
    return table(c, fn, [("it", lambda V: (A("self"), A("name")), ["get(self.clocks, name)", "get_key_value(self.clocks, name).1"])])


def named(c, fn):
    """The locations an expression names."""
    n = 0
    for v, e, f, fs in arms(c, fn, SE + "StateExpression", [fn]):
        key = "locations-" + v
        good, bad = [], []
        for x, k in answers(e, f):
            (bad if fail(x) else good).append((x, k))
        if not c.oblige(good, key, f.body.id, "the locations of %s are not found" % v):
            continue
        n += 1
        for x, k in good:
            y = whole(x)
            if v == "Location":
                els = e.arr_elems(y)
                if els is None:
                    p = produced(e, y)
                    els = [q[0] for q in p] if p and not any(a for q in p for a in q[1] if a[0] != "did" and a[1][0] not in ("arg", "agg")) else None
                if els is None:
                    raise Undecided("the locations of a location are " + show(y)[:80])
                c.oblige([unclone(q) for q in els] == [fs[0]], key, f.body.id, "the locations of a location are " + show(y)[:100])
            elif v == "AND":
                all_of(c, e, f, y, fs[0], fn, key)
            elif v in ("OR", "NOT"):
                c.oblige(refused(e, k, v, fs[0], fn) or nothing(e, y, k) and none_in(e, k, fs[0], fn, v), key, f.body.id,
                         "locations in %s are not refused" % v)
            else:
                c.oblige(nothing(e, y, k), key, f.body.id, "%s has the locations %s" % (v, show(y)[:100]))
        for x, k in bad:
            if v in ("AND", "Location") or v not in ("OR", "NOT"):
                c.oblige(x[0] == "failed" or v == "AND" and any(a[0] == "is" and a[2] == "Err" for a in k), key + "-refused", f.body.id, "%s is refused" % v)
            elif x[0] != "failed" and not any(a[0] == "is" and a[2] in ("Err", "Break") for a in k):
                yes = [a for a in k if a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "is_empty"]
                c.oblige(not yes or any(a[2] is False for a in yes), key + "-refused", f.body.id, "%s without locations is refused" % v)
    return n


def nothing(e, y, k):
    if y[0] == "call" and cname(y) in ("new", "default", "with_capacity") and not any(x[0] not in ("k",) for x in y[2]):
        return True
    if ("is", ("call", "@is_empty", (y,), None), True) in k:
        return True
    if any(a[0] == "is" and a[2] is True and a[1][0] == "call" and cname(a[1]) == "is_empty" and a[1][2][0] == y for a in k):
        return True
    els = e.arr_elems(y)
    if els is not None:
        return not els
    if y[0] == "acc":
        b, cs = e.contribs(y)
        return not cs and nothing(e, b, k)
    return False


def refused(e, k, v, part, fn):
    """The list collected from the parts is known to be empty."""
    for a in k:
        if a[0] == "is" and a[2] is True and a[1][0] == "call" and cname(a[1]) == "is_empty" and gathers(e, a[1][2][0], part, fn, v):
            return True
        if a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "len" and a[2] == 0 and gathers(e, a[1][2][0], part, fn, v):
            return True
        if a[0] in ("is", "isnt") and a[1][0] == "bin" and isinstance(a[2], bool):
            ln = [x for x in a[1][2:] if x[0] == "call" and cname(x) == "len" and gathers(e, x[2][0], part, fn, v)]
            o = [x for x in a[1][2:] if x[0] == "k"]
            if ln and o and (a[1][1] == "Eq" and a[2] is True and o[0][1] == 0 or a[1][1] == "Gt" and a[2] is False and o[0][1] == 0 and a[1][2] == ln[0]):
                return True
    return False


def none_in(e, k, part, fn, v):
    """every part was found to have none."""
    for a in k:
        if a[0] == "forall" and a[2][0] == "is" and a[2][2] is True and a[2][1][0] == "call" and cname(a[2][1]) == "is_empty" and strip(a[1])[0] == part:
            t = okv(a[2][1][2][0])
            if t[0] == "call" and t[1] == fn and t[2][0] == ("elem", part):
                return True
    return False


def okv(t):
    while t[0] == "v" and t[2] in ("Ok", "Some"):
        t = t[1]
    return t


def gathers(e, t, part, fn, v):
    if v == "NOT":
        t = okv(t)
        return t[0] == "call" and t[1] == fn and unclone(t[2][0]) == part
    vs = {x for x, _, _ in deep(e, t) if not fail(x)}
    return bool(vs) and all(gathered(e, x, part, fn) is True for x in vs)


def gathered(e, t, part, fn):
    """t has the locations of every element of part, in order: True, or what is wrong with it."""
    if t[0] == "acc":
        b, cs = e.contribs(t)
        if not nothing(e, b, frozenset()):
            return "it starts with " + show(b)[:60]
        if len(cs) != 1:
            return "it is made of %d parts" % len(cs)
        op, args, k, w, fr, bb = cs[0]
        x = args[-1]
        if op in ("extend", "append", "extend_from_slice"):
            if fr is not None and not any(a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "next" for a in e.guards(fr, bb)):
                return gathered(e, x, part, fn)
            y = okv(x)
            if not (y[0] == "call" and y[1] == fn and y[2][0] == ("elem", part)):
                return "it gets " + show(x)[:60]
            if cut(loop_coll(e.guards(fr, bb))[0] if loop_coll(e.guards(fr, bb)) else part):
                return "not all parts are visited"
            if leaves(e, fr, bb, ok=lambda a: a[0] == "is" and a[2] in ("Err", "Break")):
                return "not all parts are visited"
            bad = [a for a in e.guards(fr, bb) if a[0] in ("is", "isnt") and a[2] not in ("Ok", "Continue", "Some") and a[1][0] in ("call", "bin") and
                   uses_term(a[1], ("elem", part))]
            return True if not bad else "only if " + show(bad[0])[:60]
        return None
    u = t
    while u[0] == "v" and u[2] == "Ok" or u[0] == "call" and cname(u) in ("collect", "concat", "flatten", "into_iter", "flatten_ok") and u[2]:
        u = u[1] if u[0] == "v" else u[2][0]
    if u[0] == "call" and cname(u) in ("map", "flat_map") and u[1].startswith("@") and strip(u[2][0])[0] == part and not cut(u[2][0]):
        r = okv(e.apply(u[2][1], [("elem", part)], u[3]))
        return True if r[0] == "call" and r[1] == fn and r[2][0] == ("elem", part) else "it gets " + show(r)[:60]
    return None


def all_of(c, e, f, y, part, fn, key):
    g = gathered(e, y, part, fn)
    if g is None:
        one = okv(y)
        if nothing(e, y, frozenset()):
            g = "there are none"
        elif one[0] == "call" and one[1] == fn:
            g = "only " + show(one)[:60]
        else:
            raise Undecided("the locations of a conjunction are " + show(y)[:80])
    c.oblige(g is True, key, f.body.id, "the locations of a conjunction are not those of all parts: %s" % g)


def tree(c, fn):
    """The locations of a system."""
    TS = "TransitionSystems::transition_system::TransitionSystem::"
    LT = "TransitionSystems::location_tree::LocationTree::"
    opq = [fn, LT + "compose", LT + "merge_as_quotient", LT + "build_any_location_tree", TS + "get_children", TS + "get_location"]
    n = 0
    for v, e, f, fs in arms(c, fn, "System::extract_system_rep::SystemRecipe", opq, pos=1):
        got = cases(e, f)
        key = "tree-" + v
        if not c.oblige(got, key, f.body.id, "no state of a %s is found" % v):
            continue
        n += 1
        locs, recipe, sysm = params(f)
        side = lambda i: "%s(%s, %s, get_children(%s).%d)!" % (last(fn), locs[1], fs[i][1], sysm[1], i)
        seen = set()
        for x, k in got:
            y = whole(x)
            if v in ("Composition", "Conjunction"):
                w = "compose(%s, %s, CompositionType::%s)" % (side(0), side(1), v)
                c.oblige(render(e, y, f) == w, key, f.body.id, "the locations of a %s are %s" % (v, render(e, y, f)[:200]))
            elif v == "Quotient":
                w = "merge_as_quotient(%s, %s)" % (side(0), side(1))
                c.oblige(render(e, y, f) == w, key, f.body.id, "the locations of a %s are %s" % (v, render(e, y, f)[:200]))
            else:
                seen.add(component(c, e, f, y, k, fs[0], locs, sysm, key))
        if v == "Component":
            c.oblige(seen == {"any", "named"}, key, f.body.id, "the location of a component is always, or never, the one named")
    return n


def component(c, e, f, y, k, comp, locs, sysm, key):
    r = unclone(y)
    if r[0] == "call" and cname(r) == "build_any_location_tree":
        no = any(denial(e, a, locs, comp) for a in k)
        if not no and loops_over(k, locs) and not any(a[0] == "is" and a[2] in ("None", False) for a in k if a[1][0] == "call" and cname(a[1]) in ("find", "any", "position")):
            raise Undecided("when a component has no location")
        c.oblige(no, key + "-any", f.body.id, "a component that is named may be anywhere")
        return "any"
    t = r
    while t[0] == "v" or t[0] == "call" and cname(t) in ("ok_or", "ok_or_else", "unwrap", "expect") and t[2]:
        t = t[1] if t[0] == "v" else t[2][0]
    good = t[0] == "call" and cname(t) in ("get_location", "find") 
    if not c.oblige(good, key, f.body.id, "the location of a component is " + show(y)[:100]):
        return "other"
    good = cname(t) == "get_location" and t[2][0] == sysm
    idt = t[2][1] if good else None
    if cname(t) == "find":
        # the default body of get_location
        src = t[2][0]
        good = cname(src) == "get_all_locations" and src[2][0] == sysm if src[0] == "call" else False
        r = e.apply(t[2][1], [e.elem(src)], t[3])
        els = [x for x in r[2:]] if r[0] == "bin" and r[1] == "Eq" else []
        mine = [x for x in els if not uses_term(x, e.elem(src))]
        good = good and len(els) == 2 and len(mine) == 1
        idt = mine[0] if mine else None
        if good:
            o = [x for x in els if x is not mine[0]][0]
            good = o[0] == "f" and o[1] == e.elem(src) and o[2] == "id" or o[0] == "call" and cname(o) in ("id", "get_id") or o == e.elem(src)
    if not c.oblige(good, key, f.body.id, "the location of a component is looked for in " + show(t)[:100]):
        return "other"
    good = idt[0] == "agg" and idt[2] == "Simple" and len(idt[3]) == 1
    v = unclone(idt[3][0][1]) if good else None
    good = good and v[0] == "f" and v[2] == "variable"
    if not c.oblige(good, key + "-name", f.body.id, "the location of a component is the one called " + show(idt)[:100]):
        return "named"
    c.oblige(picked(e, v[1], locs, k, (("component", fld(comp, "name")), ("special_id", fld(comp, "special_id")))), key + "-which", f.body.id,
             "a component is at the location of " + show(v[1])[:100])
    return "named"


def loops_over(k, locs):
    return any(a[0] == "forall" and strip(a[1])[0] == locs for a in k)


def literals(e, a):
    """(collection, element, cases) of a condition that asks whether some element is like that; None for others."""
    if a[0] not in ("is", "isnt") or a[1][0] != "call" or not a[1][1].startswith("@"):
        return None
    t = a[1]
    nm = cname(t)
    if nm not in ("find", "any", "position", "all", "next", "is_empty"):
        return None
    coll = t[2][0]
    extra = []
    s = coll
    while s[0] == "call" and cname(s) in ("filter", "iter", "into_iter", "by_ref", "rev", "cloned", "copied"):
        s = s[2][0]
    el = e.elem(coll)
    extra = list(e.elem_facts(coll))
    if nm in ("next", "is_empty"):
        if coll[0] != "call" or cname(coll) != "filter":
            return None
        return s, el, e.cases(e.close(frozenset(extra)))
    p = e.apply(t[2][1], [el], t[3])
    return s, el, truth_cases(e, p, nm != "all", frozenset(extra))


def exists(e, a):
    """True: there is one; False: there is none."""
    nm = cname(a[1])
    pos = a[0] == "is"
    if nm in ("find", "position", "next"):
        return (a[2] == "Some") == pos
    if nm == "any":
        return bool(a[2]) == pos
    return (not a[2]) == pos        # all, is_empty


def pairs_of(e, kk, roots):
    """What a case says: equalities between the parts, and what else."""
    out = set()
    for a in kk:
        if a[0] not in ("is", "isnt"):
            continue
        t, v = a[1], a[2]
        neg = a[0] == "isnt"
        while t[0] == "un" and t[1] == "Not" and isinstance(v, bool):
            t, v = t[2], not v
        if not any(uses_term(t, r) for r in roots) or t[0] == "phi":
            continue
        if t[0] == "bin" and t[1] in ("Eq", "Ne") and isinstance(v, bool):
            out.add(("eq" if (v == (t[1] == "Eq")) != neg else "ne", frozenset((unclone(t[2]), unclone(t[3])))))
        elif t[0] == "call" and cname(t) in ("eq", "ptr_eq", "addr_eq") and isinstance(v, bool):
            out.add(("same" if v != neg else "other", frozenset(t[2])))
        elif t[0] == "call" and cname(t) in ("find", "next", "filter") and t[1].startswith("@"):
            continue
        elif t[0] == "call" and cname(t) in ("any", "all") and t[1].startswith("@"):
            q = literals(e, ("is", t, v))
            out.add(("some" if exists(e, ("is", t, v)) else "none", strip(q[0])[0], frozenset(frozenset(pairs_of(e, x, (q[1],))) for x in q[2])))
        else:
            out.add(("?", a))
    return frozenset(out)


def denial(e, a, locs, comp):
    q = literals(e, a)
    if q is None or exists(e, a) or strip(q[0])[0] != locs:
        return False
    el = q[1]
    w = frozenset({("eq", frozenset((fld(el, "component"), fld(comp, "name")))), ("eq", frozenset((fld(el, "special_id"), fld(comp, "special_id"))))})
    return {pairs_of(e, x, (el,)) for x in q[2]} == {w}


def state(c, LOCS, TREE):
    opq = [LOCS, TREE, SE + "StateExpression::to_bool_expression", "System::extract_system_rep::SystemRecipe::get_components",
           "EdgeEval::constraint_applyer::apply_constraints_to_state", "ModelObjects::state::State::new"]
    e, f = c.entry(X + "get_state", opq)
    if f is None:
        return 0
    q, recipe, sysm = params(f)
    comps = ("call", "get_components", (recipe,))
    n = 0
    seen = set()
    for x, k in answers(e, f):
        if fail(x):
            continue
        y = whole(x)
        n += 1
        good = y[0] == "call" and cname(y) == "new" and len(y[2]) == 2
        if not c.oblige(good, "state", f.body.id, "the state is " + show(y)[:120]):
            continue
        t, z = okv(y[2][0]), okv(y[2][1])
        good = t[0] == "call" and t[1] == TREE and t[2][1:] == (recipe, sysm)
        locs = t[2][0] if good else None
        if not c.oblige(good, "state-tree", f.body.id, "the state is at " + show(y[2][0])[:120]):
            continue
        c.oblige(taken(e, locs, LOCS, q), "state-locations", f.body.id, "the state is at the locations " + show(locs)[:100])
        zt = render(e, y[2][1], f)
        w = "apply_constraints_to_state(to_bool_expression(%s, get_components(%s))!, Declarations{clocks: new(), ints: new()}, universe(get_dim(%s)))!" % (
            q[1], recipe[1], sysm[1])
        c.oblige(zt.replace("default()", "new()") == w, "state-zone", f.body.id, "the state has the valuations " + zt[:200])
        unclear = []
        for key, want, msg in refusals(e, comps, locs):
            hit = False
            for a in k:
                r = literals(e, a)
                if r is None or exists(e, a):
                    continue
                if want(r):
                    hit = True
            if hit:
                c.oblige(True, key, f.body.id, msg)
            else:
                unclear.append((key, msg))
        if unclear:
            odd = [a for a in k if a[0] == "forall" and not covered(e, k, a, comps, locs)]
            ev = [v for v in e.events(f) if v.name.startswith("@push") or last(v.name) in ("insert", "contains", "all_unique", "duplicates", "tuple_windows", "sort", "unique")]
            if odd or ev:
                raise Undecided("when a state is refused: " + (show(odd[0])[:80] if odd else show(ev[0].term)[:80]))
            for key, msg in unclear:
                c.oblige(False, key, f.body.id, msg)
    # and nothing else is refused
    for x, k in answers(e, f):
        if not (x[0] == "agg" and x[2] == "Err"):
            continue
        n += 1
        if any(a[0] == "is" and a[2] == "Err" for a in k):
            continue
        some_ = [a for a in k if literals(e, a) is not None and exists(e, a)]
        lc = next((t[2][0] for y, _ in answers(e, f) if not fail(y) for t in fx.subterms(y) if t[:1] == ("call",) and t[1] == TREE), None)
        if not some_:
            raise Undecided("when a state is refused")
        c.oblige(any(w(literals(e, a)) for a in some_ for _, w, _ in refusals(e, comps, lc)), "refused", f.body.id,
                 "a state is refused if " + show(some_[0])[:160])
    c.oblige(n, "state", f.body.id, "no state is made of a query")
    return n


def covered(e, k, a, comps, locs):
    """The fact comes from a question of the form understood."""
    return any(literals(e, b) is not None and literals(e, b)[0] is not None and (b[1][2][0] == a[1] or strip(b[1][2][0])[0] == strip(a[1])[0]) for b in k
               if b[0] in ("is", "isnt") and b[1][0] == "call" and b[1][1].startswith("@") and b[1][2])


def taken(e, l, LOCS, q):
    """The locations of the query, the same one once."""
    if l[0] == "acc":
        b, cs = e.contribs(l)
        return taken(e, b, LOCS, q) and all(op in ("dedup",) for op, *_ in cs)
    while l[0] == "v" or l[0] == "call" and cname(l) in ("unique", "dedup", "collect", "into_iter", "iter", "cloned"):
        l = l[1] if l[0] == "v" else l[2][0]
    return l[0] == "call" and l[1] == LOCS and l[2][0] == q or l[0] == "acc" and taken(e, l, LOCS, q)


def refusals(e, comps, locs):
    is_comps = lambda s: s[0] == "call" and cname(s) == "get_components" and s[2] == comps[2]

    def two(r, right, names):
        """pairs of different elements that agree in these fields."""
        s, el, cs = r
        if s[0] != "call" or cname(s) not in ("cartesian_product", "tuple_combinations"):
            return None
        if not all(right(strip(x)[0]) for x in s[2]) or len(s[2]) != (2 if cname(s) == "cartesian_product" else 1):
            return None
        a, b = fld(el, "0"), fld(el, "1")
        w = {("eq", frozenset((fld(a, x), fld(b, x)))) for x in names}
        out = []
        for kk in cs:
            l = pairs_of(e, kk, (el,))
            out.append((set(w) <= set(l), set(l) - w))
        return cname(s), a, b, out

    def components(r):
        t = two(r, is_comps, ("name", "special_id"))
        if t is None:
            return False
        nm, a, b, out = t
        other = {("other", frozenset((a, b)))}
        return bool(out) and all(g and (o == other if nm == "cartesian_product" else not o) for g, o in out)

    def locations(r):
        t = two(r, lambda s: s == locs or strip(s)[0] == locs, ("component", "special_id"))
        if t is None:
            return False
        nm, a, b, out = t
        return bool(out) and all(g and (o == {("ne", frozenset((a, b)))} or o == {("ne", frozenset((fld(a, "variable"), fld(b, "variable"))))}) for g, o in out)

    def unknown(r):
        s, el, cs = r
        if strip(s)[0] != locs or not cs:
            return False
        for kk in cs:
            ls = pairs_of(e, kk, (el,))
            if len(ls) != 1:
                return False
            l = next(iter(ls))
            if l[0] != "none" or not is_comps(l[1]) or len(l[2]) != 1:
                return False
            cp = None
            for p in next(iter(l[2])):
                if p[0] != "eq":
                    return False
                cp = cp or next((x[1] for x in p[1] if x[0] == "f" and x[2] in ("name",)), None)
            ce = next((x[1] for p in next(iter(l[2])) for x in p[1] if x[0] == "f" and x[2] == "name"), None)
            if ce is None or next(iter(l[2])) != frozenset({("eq", frozenset((fld(ce, "name"), fld(el, "component")))),
                                                             ("eq", frozenset((fld(ce, "special_id"), fld(el, "special_id"))))}):
                return False
        return True
    return [("ambiguous-component", components, "a query about a system with two components of that name is not refused"),
            ("ambiguous-location", locations, "a query that names two locations of a component is not refused"),
            ("unknown-location", unknown, "a query that names a location of a component that is not in the system is not refused")]
