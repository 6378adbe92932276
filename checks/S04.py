from core import *
from zones import *
from systems import *

TITLE = "a query works on the system its expression denotes"
EXPLAIN = ("The recipe made from a system expression and the system compiled from it are reconstructed per operator, with the "
           "clock counter, the quotient clock and the component index followed from call to call through memory; for every "
           "kind of query the systems it is given, and the conditions it is refused under, are compared with the definition.")
X = "System::extract_system_rep::"
R = X + "SystemRecipe"
SE = "ModelObjects::Expressions::query_expression::SystemExpression"
QE = "ModelObjects::Expressions::query_expression::QueryExpression"
COMP = "ModelObjects::component::Component"
NEW = {"Composition": "TransitionSystems::composition::Composition::new_ts",
       "Conjunction": "TransitionSystems::conjunction::Conjunction::new_ts",
       "Quotient": "TransitionSystems::quotient::Quotient::new_ts"}
CC = "TransitionSystems::compiled_component::CompiledComponent::compile"
SIDE, LOADER, CLK, QUO = ("arg", "side"), ("arg", "loader"), ("arg", "clocks"), ("arg", "quotient")
ME, DIM, IDX = ("arg", "self"), ("arg", "dim"), ("arg", "index")


def run(c):
    recipe(c)
    clocks(c)
    compiled(c)
    entries(c)
    listing(c)
    queries(c)


def param(b, e, f, tys):
    return [i for i in range(1, b.argc + 1) if b.locals[i]["ty"]["s"] == tys]


def finals(e, f, l):
    """What is left behind parameter l: [(term, K)] for each return."""
    out = []
    for i in f.body.reach:
        if f.body.blocks[i]["t"][0] == "return" and i in f.feas():
            out += alternatives(e, f, f.cell(l, i, len(f.body.blocks[i]["s"])), i)
    return out


def after(t, i):
    return call("after", t, ("k", i))


def recipe(c):
    fn = X + "get_system_recipe"
    b = c.p.bodies.get(fn)
    if b is None:
        c.oblige(False, "anchor-" + fn, "", "%s is gone" % fn)
        return
    si = COMP + "::set_clock_indices"
    for v in c.p.variants(SE):
        vals = ("agg", SE, v, tuple((str(i), ("arg", "e%d" % i)) for i in range(2)))
        e, f = c.entry(fn, [si], (vals, LOADER, CLK, QUO))
        if f is None:
            return
        n = 0
        for t, k in e.returns(f):
            for x, kx in expand(e, t, k):
                n += 1
                one_recipe(c, e, f, v, x, kx, fn)
        c.floor(n, 1, "recipe-" + v, "recipes for " + v)
        # the counters left behind
        cl = [i for i in b.cells() if b.locals[i]["ty"]["s"].endswith("usize")]
        if not c.oblige(len(cl) == 1, "counter", fn, "there is not one clock counter"):
            return
        for t, k in finals(e, f, cl[0]):
            left_clock(c, e, v, sites(t), plain(e.close(k)), fn, cl[0] - 1)
        ql = [i for i in f.body.cells() if "Option" in f.body.locals[i]["ty"]["s"]]
        if not c.oblige(len(ql) == 1, "quotient-counter", fn, "there is not one shared quotient clock"):
            return
        for t, k in finals(e, f, ql[0]) if v != "Quotient" else ():
            want = QUO if v == "Component" else after(pair()[1], 3)
            c.oblige(sites(t) == want, "quotient-after-" + v, fn, "after a %s the shared quotient clock is %s" % (v, show(sites(t))[:150]))


def alternatives(e, f, t, i):
    """What a parameter's memory, or the value t, can be in block i, with what is then known."""
    out = []
    alts = e.phis.get(t) or [(t, None, None)]
    for x, fr, d in alts:
        k = frozenset()
        if fr is f:
            k = f.kept(d, [z[2] for z in alts if z[2] != d], i) | (f.Kat(d[0]) or k if d[0] != "arg" else k)
        out += expand(e, x, k)
    return out


def current(e, f, t, k):
    """A value read from memory that changed on some ways here only."""
    if t[0] == "v" and t[1] in e.phis:
        out = []
        for i in f.body.reach:
            if f.body.blocks[i]["t"][0] == "return" and i in f.feas():
                for x, kx in alternatives(e, f, t[1], i):
                    if x[0] == "agg":
                        if x[2] == t[2]:
                            out += [(y, kx | ky) for y, ky in expand(e, dict(x[3])[t[3]], kx)]
                    else:
                        out.append((("v", x) + t[2:], kx))
        return out
    return expand(e, t, k)


def rec(i, clk, quo):
    return call("get_system_recipe", ("arg", "e%d" % i), LOADER, clk, quo)


def pair():
    a = rec(0, CLK, QUO)
    return a, rec(1, after(a, 2), after(a, 3))


def plus(t, a):
    """t is a + something: that something."""
    while t[0] == "f" and t[2] == "0":
        t = t[1]
    if t[0] == "bin" and t[1].startswith("Add") and a in (t[2], t[3]):
        return t[3] if t[2] == a else t[2]
    return None


def norm_after(t):
    """Calls known by their last name; memory after a call without its site."""
    return sites(t)


def one_recipe(c, e, f, v, raw, k, fn):
    t = sites(raw)
    if not c.oblige(t[0] == "agg" and t[2] == v, "recipe-" + v, fn, "a %s is made into %s" % (v, show(t)[:150])):
        return
    d = dict(t[3])
    if v == "Component":
        comp = d.get("0")
        sid = None
        x = comp
        while x is not None and (x[0] == "upd" or strip_after(x) != x):
            if x[0] != "upd":
                x = strip_after(x)
                continue
            if x[2] == "special_id":
                sid = x[3]
            x = x[1]
        base_ = strip_after(x)
        c.oblige(base_ is not None and base_ == call("get_component", LOADER, ("arg", "e0")), "component", fn,
                 "the component of an expression is " + show(comp)[:150])
        c.oblige(sid == ("arg", "e1"), "component-id", fn, "the identifier of a component is %s" % (show(sid)[:80] if sid else "lost"))
        evs = [y for y in c.events(e, f) if last(y.name) == "set_clock_indices"]
        good = [y for y in evs if strip_after(base_of(sites(y.args[0]))) == call("get_component", LOADER, ("arg", "e0")) and
                sites(y.args[1]) == CLK and every_path(e, f, y, None)]
        c.oblige(len(good) == 1 and len(evs) == 1, "component-clocks", fn, "a component's clocks are not numbered from the counter on once: %s" % [
            show(z)[:80] for y in evs for z in y.args])
        return
    a, b = pair()
    c.oblige(d.get("0") == a, "left-" + v, fn, "the left operand of a %s is %s" % (v, show(d.get("0", ()))[:200]))
    c.oblige(d.get("1") == b, "right-" + v, fn, "the right operand of a %s is %s" % (v, show(d.get("1", ()))[:200]))
    if v == "Quotient":
        q, clk = after(b, 3), after(b, 2)
        for x, kx in current(e, f, dict(raw[3]).get("2", ("k", None)), k):
            x, kn = sites(x), plain(e.close(kx))
            if known(kn, q, "Some", "None"):
                c.oblige(x == some(q), "quotient-shared", fn, "a further quotient does not share the clock of the first: " + show(x)[:150])
            elif known(kn, q, "None", "Some"):
                c.oblige(plus(x, clk) == ("k", 1), "quotient-clock", fn, "the clock of a quotient is " + show(x)[:200])
            else:
                c.oblige(False, "quotient-known", fn, "the clock of a quotient does not depend on whether there is one: " + show(x)[:150])
        ql = [i for i in f.body.cells() if "Option" in f.body.locals[i]["ty"]["s"]]
        for y, ky in finals(e, f, ql[0]) if ql else ():
            y, ky = sites(y), plain(e.close(ky))
            if y == q:
                c.oblige(known(ky, q, "Some", "None") or True, "quotient-kept", fn, "")
            else:
                c.oblige(y[0] == "agg" and y[2] == "Some" and plus(y[3][0][1], clk) == ("k", 1), "quotient-remembered", fn,
                         "the clock remembered for further quotients is " + show(y)[:150])
                c.oblige(not known(ky, q, "Some", "None"), "quotient-once", fn, "a second quotient gets a clock of its own")
        c.oblige(any(sites(y) != q for y, ky in finals(e, f, ql[0])) if ql else False, "quotient-noted", fn,
                 "the clock of a quotient is not remembered for further quotients")


def base_of(t):
    while t[0] == "upd":
        t = t[1]
    return t


def strip_after(t):
    """The value a call with a receiver changed in place."""
    while t is not None and t[0] == "call" and t[1] in ("clone", "to_owned", "@after", "after"):
        t = t[2][0]
    return t


def left_clock(c, e, v, t, kn, fn, pos):
    if v == "Component":
        c.oblige(t[0] == "call" and t[1] in ("@after", "after") and t[2][0][0] == "call" and t[2][0][1] == "set_clock_indices" and
                 t[2][1] == ("k", 1), "counter-Component", fn, "after a component the clock counter is " + show(t)[:150])
        return
    a, b = pair()
    clk, q = after(b, 2), after(b, 3)
    if v == "Quotient":
        if t == clk:
            c.oblige(known(kn, q, "Some", "None"), "counter-quotient", fn, "the clock of a quotient is not counted")
        else:
            c.oblige(plus(t, clk) == ("k", 1), "counter-quotient", fn, "after a quotient the clock counter is " + show(t)[:200])
            c.oblige(not known(kn, q, "Some", "None"), "counter-shared", fn, "the clock of a quotient is counted twice")
    else:
        c.oblige(t == clk, "counter-" + v, fn, "after a %s the clock counter is %s" % (v, show(t)[:200]))


def clocks(c):
    """A component's clocks are moved by the counter, which then counts them."""
    fn = COMP + "::set_clock_indices"
    e, f = c.entry(fn, (), (ME, CLK))
    if f is None:
        return
    coll = fld(fld(ME, "declarations"), "clocks")
    el = fld(("elem", coll), "1")
    evs = c.events(e, f)
    ws = [x for x in evs if x.name.startswith("@store") and uses_term(sites(x.args[0]), coll) or
          x.name.startswith("@store") and x.args[0] == ("elem", call("values_mut", coll))]
    n = 0
    for x in ws:
        n += 1
        tgt = sites(x.args[0])
        while tgt[0] == "agg" and len(tgt[3]) == 1:
            tgt = tgt[3][0][1]
        c.oblige(tgt in (el, ("elem", call("values_mut", coll)), ("elem", call("values", coll))) and plus(sites(x.args[1]), tgt) == CLK,
                 "offset", x.where, "a clock %s gets the index %s" % (show(tgt)[:80], show(x.args[1])[:100]))
        bad = [g for g in conds(e, x) if not mentions_coll(g, coll)]
        c.oblige(not bad and not leaves(e, x.frame, x.bb), "offset-all", x.where, "only some clocks get an index")
        for kk in e.gcases(x.frame, x.bb):
            more = [g for g in kk if g[0] in ("is", "isnt") and uses_term(sites(g[1]), coll) and not (
                g[1][0] == "call" and cname(g[1]) == "next" and strip_iter(sites(g[1][2][0])) in (coll, call("values_mut", coll), call("values", coll)))]
            c.oblige(not more, "offset-every", x.where, "a clock gets no index unless " + "; ".join(show(g)[:80] for g in more[:2]))
    c.floor(n, 1, "offset", "places where clocks are numbered")
    cl = [i for i in f.body.cells()]
    n = 0
    for t, k in finals(e, f, cl[0]) if cl else ():
        n += 1
        d = plus(sites(t), CLK)
        c.oblige(d in (call("len", coll), call("count", coll), call("len", call("keys", coll)), call("count", call("values", coll))),
                 "count", fn, "after a component's clocks the counter is " + show(t)[:120])
    c.floor(n, 1, "count", "counts of a component's clocks")


def compiled(c):
    fn = R + "::_compile"
    ok_ = False
    for v in c.p.variants(R):
        nf = {"Composition": 2, "Conjunction": 2, "Quotient": 3, "Component": 1}.get(v)
        if not c.oblige(nf is not None, "operator-" + v, fn, "an operator with no known meaning: " + v):
            continue
        me = ("agg", R, v, tuple((str(i), ("arg", "r%d" % i)) for i in range(nf)))
        e, f = c.entry(fn, list(NEW.values()) + [CC], (me, DIM, IDX))
        if f is None:
            return
        n = 0
        for t, k in e.returns(f):
            for x, kx in expand(e, t, k):
                n += 1
                y = sites(x)
                if v == "Component":
                    z = call("compile", ("arg", "r0"), DIM, IDX)
                    c.oblige(y == z or y[0] == "agg" and y[2] == "Ok" and y[3][0][1] == ok(z) or
                             y[0] in ("failed", "agg") and uses_term(y, z) and kind(y) == "Err", "compile-component", fn,
                             "a component is compiled as " + show(y)[:150])
                    continue
                a = call("_compile", ("arg", "r0"), DIM, IDX)
                b = call("_compile", ("arg", "r1"), DIM, after(a, 2))
                w = call("new_ts", ok(a), ok(b), *([("arg", "r2"), DIM] if v == "Quotient" else [DIM]))
                if y == w or y[0] == "call":
                    c.oblige(y == w, "compile-" + v, fn, "a %s is compiled as %s" % (v, show(y)[:200]))
                    z = x
                    c.oblige(z[0] != "call" or c.p is not None and new_of(x) in (None, NEW[v]), "compile-kind-" + v, fn,
                             "a %s is compiled as %s" % (v, new_of(x)))
                    ok_ = True
                else:
                    c.oblige(kind(y) == "Err" and (uses_term(y, a) or uses_term(y, b)), "compile-refused-" + v, fn,
                             "a %s is refused as %s" % (v, show(y)[:150]))
        c.floor(n, 1, "compile-" + v, "ways to compile a " + v)
    c.oblige(ok_, "compile-some", fn, "no system is compiled")


def new_of(t):
    return t[1] if t[0] == "call" and not t[1].startswith("@") else None


def entries(c):
    """compile: one more dimension than there are clocks, components numbered from the start."""
    for m, start in (("compile", ("k", 0)), ("compile_with_index", IDX)):
        fn = R + "::" + m
        e, f = c.entry(fn, [R + "::_compile"], (ME, DIM, IDX)[:2 if m == "compile" else 3])
        if f is None:
            continue
        for t, k in outcomes(e, f):
            y = sites(t)
            c.oblige(y[0] == "call" and y[1] == "_compile" and y[2][0] == ME and plus(y[2][1], DIM) == ("k", 1), m + "-dim", fn,
                     "a system is compiled as " + show(y)[:150])
            c.oblige(y[0] == "call" and len(y[2]) == 3 and y[2][2] == start, m + "-index", fn,
                     "components are numbered from " + show(y)[:150])


def listing(c):
    """The components of a recipe, from left to right, and how many they are."""
    for m in ("get_components", "get_components_mut", "get_component_count"):
        fn = R + "::" + m
        if fn not in c.p.bodies:
            continue
        for v in c.p.variants(R):
            nf = {"Composition": 2, "Conjunction": 2, "Quotient": 3, "Component": 1}.get(v, 0)
            me = ("agg", R, v, tuple((str(i), ("arg", "r%d" % i)) for i in range(nf)))
            e, f = c.entry(fn, (), (me,))
            if f is None:
                break
            for t, k in e.returns(f):
                if m == "get_component_count":
                    y = sites(t)
                    while y[0] == "f" and y[2] == "0":
                        y = y[1]
                    if v == "Component":
                        c.oblige(y == ("k", 1), "count-" + v, fn, "a component counts as " + show(y)[:60])
                    else:
                        c.oblige(y[0] == "bin" and y[1].startswith("Add") and {y[2], y[3]} == {
                            call(m, ("arg", "r0")), call(m, ("arg", "r1"))}, "count-" + v, fn,
                            "the number of components of a %s is %s" % (v, show(y)[:120]))
                    continue
                got = listed(e, t, m)
                want = ["r0"] if v == "Component" else [call(m, ("arg", "r0")), call(m, ("arg", "r1"))]
                want = [("one", ("arg", "r0"))] if v == "Component" else [("all", x) for x in want]
                c.oblige(got == want, "%s-%s" % (m, v), fn, "the components of a %s are %s" % (v, got))


def listed(e, t, m):
    """[("one", x) | ("all", collection)] in order."""
    if t[0] == "acc":
        b, cs = e.contribs(t)
        out = listed(e, b, m)
        for op, args, k, w, fr, bb in cs:
            if op == "push":
                out.append(("one", sites(args[-1])))
            elif op in ("extend", "append"):
                out += listed(e, args[-1], m)
            else:
                return [show(t)]
        return out
    els = e.arr_elems(t)
    if els is not None:
        return [("one", sites(x)) for x in els]
    if t[0] == "call":
        if cname(t) == m:
            return [("all", sites(t))]
        if cname(t) in ("new", "with_capacity"):
            return []
        if cname(t) == "chain":
            return listed(e, t[2][0], m) + listed(e, t[2][1], m)
        if cname(t) in ("collect", "into_iter", "iter", "from_iter", "concat") and t[2]:
            return listed(e, t[2][0], m)
    return [show(t)]


# ---- queries ---------------------------------------------------------------------------
def chain(e, t, n=0):
    """The calls a counter went through, for each way it can have come about."""
    if n > 8:
        return [frozenset()]
    if t[0] == "call" and t[1] == "@after":
        c = t[2][0]
        i = t[2][1][1]
        rest = chain(e, c[2][i], n + 1) if c[0] == "call" and i < len(c[2]) else [frozenset()]
        return [r | {sites_(c)} for r in rest]
    if t[0] == "acc":
        b, fr, Rs = e.accs[t]
        cs = frozenset()
        for s in Rs:
            cs |= {sites_(fr.callterm(s[0]))}
            if fr.calls.get(s[0]) is not None and s[0] < len(fr.body.blocks):
                inner = chain(e, fr.aftercall(s[0], s[1]), n + 1)
                cs |= frozenset.intersection(*inner) if inner else frozenset()
        return [r | cs for r in chain(e, b, n + 1)]
    if t[0] == "phi" and t in e.phis:
        out = []
        for a, _, _ in e.phis[t]:
            out += chain(e, a, n + 1)
        return out
    return [frozenset()]


def sites_(t):
    """A call by its name and first argument (its counters are not compared)."""
    return (cname(t), sites(t[2][0]) if t[2] else None) if t[0] == "call" else ("?", None)


def root(e, t, n=0):
    """The variable or constant a counter started as."""
    if n > 8:
        return None
    if t[0] == "call" and t[1] == "@after":
        c = t[2][0]
        i = t[2][1][1]
        return root(e, c[2][i], n + 1) if c[0] == "call" and i < len(c[2]) else None
    if t[0] == "acc":
        return ("acc", t[1][0], t[1][1])
    if t[0] == "phi" and t in e.phis:
        rs = {root(e, a, n + 1) for a, _, _ in e.phis[t]}
        return rs.pop() if len(rs) == 1 else None
    return t


EXEC = {"Refinement": ("RefinementExecutor", ("0", "1")), "Consistency": ("ConsistencyExecutor", ("0",)),
        "Determinism": ("DeterminismExecutor", ("0",)), "GetComponent": ("GetComponentExecutor", ("0",)),
        "Prune": ("GetComponentExecutor", ("0",)), "Reachability": ("ReachabilityExecutor", ("system",))}


def queries(c):
    fn = X + "create_executable_query"
    b = c.p.bodies.get(fn)
    opq = [X + "get_system_recipe", R + "::compile", R + "::compile_with_index", X + "clock_reduction::clock_reduce",
           "System::extract_state::get_state", "System::pruning::prune_system", "TransitionSystems::location_id::LocationID::is_partial_location"]
    e0, f0 = c.entry(fn, opq)
    if f0 is None:
        return
    q = ("arg", f0.body.locals[1]["n"] or "_1")
    ld = ("arg", f0.body.locals[2]["n"] or "_2")
    expr = some(fld(q, "query"))
    seen = set()
    for t, k in e0.returns(f0):
        for x, kx in expand(e0, t, k):
            kn = plain(kx)
            vs = [v for v in c.p.variants(QE) if ("is", expr, v) in kn]
            v = vs[0] if vs else None
            y = sites(x)
            if kind(y) == "Ok" and x[3]:
                ex = x[3][0][1]
                if not c.oblige(v in EXEC and ex[0] == "agg" and last(ex[1]) == EXEC[v][0], "executor-%s" % v, fn,
                                "a %s query is answered by %s" % (v, show(ex)[:100])):
                    continue
                seen.add(v)
                executor(c, e0, f0, v, dict(ex[3]), expr, ld, fn, kx)
            else:
                refused(c, e0, v, x, kn, expr, q, fn)
    for v in EXEC:
        c.oblige(v in seen, "answered-" + v, fn, "no %s query is ever answered" % v)
    reduction(c, e0, f0, expr, ld, fn)


def operand_of(v, expr):
    fs = EXEC[v][1]
    if v in ("GetComponent", "Prune"):
        return [fld(("v", expr, v, "0"), "system")]
    return [("v", expr, v, x) for x in fs]


def sysof(c, e, key, t, want, ld, fn, first=None, prune=False):
    """t is the system compiled from the recipe of expression `want`; returns (compile call, recipe call)."""
    x = t
    if prune:
        if not c.oblige(x[0] == "call" and cname(x) == "prune_system" and len(x[2]) == 2, key + "-pruned", fn, "the system is not pruned: " + show(x)[:100]):
            return None
        pdim = x[2][1]
        x = x[2][0]
    if not c.oblige(x[0] == "v" and x[2] == "Ok" and x[1][0] == "call" and cname(x[1]) in ("compile", "compile_with_index"), key + "-compiled", fn,
                    "the system of a query is " + show(t)[:150]):
        return None
    cp = x[1]
    rc = ready(e, cp[2][0])
    if not c.oblige(rc[0] == "call" and cname(rc) == "get_system_recipe" and sites(rc[2][0]) == sites(want) and rc[2][1] == ld, key + "-expression", fn,
                    "the system of a query is compiled from " + show(rc)[:150]):
        return None
    need = {sites_(rc)} | ({sites_(first)} if first else set())
    dims = [cp[2][1]] + ([pdim] if prune else [])
    for d in dims:
        for ch in chain(e, d):
            c.oblige(need <= ch, key + "-dim", fn, "a system is compiled before all clocks are counted: %s" % show(d)[:80])
        c.oblige(root(e, d) == root(e, dims[0]), key + "-dim-same", fn, "the clock counters differ")
    for i, nm in ((2, "clocks"),):
        r = root(e, rc[2][i])
        c.oblige(root(e, cp[2][1])[:1] in (("acc",), ("arg",)) and (first is not None or rc[2][i] == ("k", 0)), key + "-start", fn,
                 "clocks are counted from " + show(rc[2][i])[:80])
    return cp, rc


def ready(e, t):
    """The value of a successful result of a helper."""
    while t[0] == "v" and t[1][0] == "phi":
        xs = {dict(x[3])[t[3]] for x, k in expand(e, t[1]) if x[0] == "agg" and x[2] == t[2]}
        if len(xs) != 1:
            break
        t = xs.pop()
    return t


def executor(c, e, f, v, d, expr, ld, fn, k):
    ws = operand_of(v, expr)
    if v == "Refinement":
        l, r = d.get("sys1"), d.get("sys2")
        rl = sysof(c, e, "refinement-left", l, ws[0], ld, fn) if l else None
        if not c.oblige(rl is not None, "refinement-left", fn, "the left system of a refinement is missing"):
            return
        # the clocks of both are counted before either is compiled
        x = sysof(c, e, "refinement-right", r, ws[1], ld, fn, rl[1])
        if x is None:
            return
        for ch in chain(e, rl[0][2][1]):
            c.oblige(sites_(x[1]) in ch, "refinement-dims", fn, "the left system is compiled before the right one's clocks are counted")
        c.oblige(root(e, rl[0][2][1]) == root(e, x[0][2][1]), "refinement-dim", fn, "the two systems are compiled over different clocks")
        for ch in chain(e, x[1][2][2]):
            c.oblige(sites_(rl[1]) in ch, "refinement-clocks", fn, "the right system's clocks are not numbered after the left one's")
        for ch in chain(e, x[1][2][3]):
            c.oblige(sites_(rl[1]) in ch, "refinement-quotient", fn, "the two systems do not share the quotient clock")
        a, b = rl[0], x[0]
        if cname(b) == "compile_with_index" and cname(a) == "compile_with_index":
            for ch in chain(e, b[2][2]):
                c.oblige(sites_(a) in ch, "refinement-index", fn, "the components of both systems are numbered from the start")
        else:
            c.oblige(False, "refinement-index", fn, "the components of both systems are numbered from the start")
        return
    if v == "Reachability":
        x = sysof(c, e, "reachability", d.get("transition_system", ("k", None)), ws[0], ld, fn)
        if x is None:
            return
        ts = ok(x[0])
        end = call("get_state", ("v", expr, v, "to"), x[1], ts)
        frm = ("v", expr, v, "from")
        beg = call("get_state", some(frm), x[1], ts)
        c.oblige(sites(d.get("end_state", ())) == sites(ok(end)), "reachability-end", fn, "the end state is " + show(d.get("end_state"))[:150])
        for s, ks in expand(e, d.get("start_state", ("k", None)), k):
            s, kn = sites(s), plain(ks)
            ini = call("get_initial_state", ts)
            if s == sites(ok(beg)):
                c.oblige(known(kn, frm, "Some", "None"), "reachability-start", fn, "a start state is read though none is given")
                par = call("is_partial_location", fld(fld(sites(ok(beg)), "decorated_locations"), "id"))
                c.oblige(("is", par, False) in kn, "reachability-partial", fn, "a search may start in a partial state")
            else:
                c.oblige(s == sites(some(ini)) and known(kn, frm, "None", "Some"), "reachability-start", fn,
                         "the start state is " + show(s)[:150])
        return
    x = sysof(c, e, v.lower(), d.get("system", ("k", None)), ws[0], ld, fn, prune=v == "Prune")
    if v in ("GetComponent", "Prune"):
        nm = fld(("v", expr, v, "0"), "name")
        y = sites(d.get("comp_name", ()))
        c.oblige(y and (y[0] == "call" and y[1] in ("unwrap_or", "unwrap_or_else", "unwrap_or_default") and y[2][0] == nm or
                        all(z == some(nm) and known(plain(kz), nm, "Some", "None") or z[0] == "k" and known(plain(kz), nm, "None", "Some")
                            for z, kz in expand(e, d["comp_name"], k))), "name-" + v, fn, "the new component is named " + show(y)[:120])
        c.oblige(d.get("component_loader") == ld, "loader-" + v, fn, "the new component is saved to " + show(d.get("component_loader", ()))[:80])


def refused(c, e, v, x, kn, expr, q, fn):
    y = sites(x)
    if v is None:
        c.oblige(known(kn, fld(q, "query"), "None", "Some") or all(("isnt", expr, z) in kn for z in EXEC), "refused", fn,
                 "a query is refused for no reason: " + show(y)[:120])
        return
    if v not in EXEC:
        return
    calls = {"compile", "compile_with_index", "clock_reduce", "get_state"}
    why = any(("is", z, "Err") in kn or ("isnt", z, "Ok") in kn for z in terms(y) | {a[1] for a in kn} if z[0] == "call" and z[1] in calls)
    if v == "Reachability" and not why:
        frm = ("v", expr, v, "from")
        par = any(a[0] == "is" and a[2] is True and a[1][0] == "call" and a[1][1] == "is_partial_location" for a in kn)
        ini = any(a[0] == "is" and a[2] == "None" and a[1][0] == "call" and a[1][1] == "get_initial_state" for a in kn)
        why = par and known(kn, frm, "Some", "None") or ini and known(kn, frm, "None", "Some")
    c.oblige(why, "refused-" + v, fn, "a %s query is refused for no reason: %s" % (v, show(y)[:120]))


def terms(t):
    return {s for s in subterms(t) if s and isinstance(s[0], str)}


def reduction(c, e, f, expr, ld, fn):
    """Clock reduction gets all systems of the query, the clock counter and the quotient clock, and only if it is wanted."""
    n = 0
    for x in c.events(e, f):
        if last(x.name) != "clock_reduce":
            continue
        n += 1
        if not c.oblige(len(x.args) == 4, "reduce", x.where, "clock reduction is called in another way"):
            continue
        lhs, rhs, dim, quo = x.args
        if not c.oblige(lhs[0] == "call" and cname(lhs) == "get_system_recipe", "reduce-what", x.where, "clock reduction is given " + show(lhs)[:100]):
            continue
        rs = [lhs]
        for r, kr in expand(e, rhs):
            if r[0] == "agg" and r[2] == "Some":
                rs.append(r[3][0][1])
        v = [z for z in EXEC if uses_term(sites(lhs), sites(operand_of(z, expr)[0]))]
        if not c.oblige(len(v) == 1, "reduce-what", x.where, "clock reduction is given " + show(lhs)[:100]):
            continue
        v = v[0]
        ws = [sites(w) for w in operand_of(v, expr)]
        c.oblige([sites(r[2][0]) if r[0] == "call" and r[2] else None for r in rs] == ws, "reduce-all-" + v, x.where,
                 "not all systems of a %s query have their clocks reduced together" % v)
        for r in rs:
            if r[0] != "call":
                continue
            for ch in chain(e, dim):
                c.oblige(sites_(r) in ch, "reduce-dim-" + v, x.where, "clocks are reduced before they are all counted")
            for ch in chain(e, quo):
                c.oblige(sites_(r) in ch, "reduce-quotient-" + v, x.where, "the clock of a quotient is not spared from reduction")
        c.oblige(v not in ("Reachability",), "reduce-states", x.where, "clocks named in states are reduced away")
        off = [a for a in x.K if a[0] == "is" and a[2] is False and "disable_clock_reduction" in str(a[1])]
        c.oblige(bool(off), "reduce-wanted-" + v, x.where, "clocks are reduced though reduction is turned off")
    c.floor(n, 1, "reduce", "uses of clock reduction")
