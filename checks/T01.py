from core import *

TITLE = "transition identifiers split into per-component parts without loss"
EXPLAIN = ("Structural recursion analysis of the leaf collector: for each shape of identifier the recursive calls, "
           "their positions and every write to the collected lists are compared with the recursion scheme (left part "
           "first, right part starting after the last list of the left part, alternatives of one quotient side from "
           "the same list on); value-flow analysis of the path splitter: what is stored at which component, under "
           "which conditions, and when it refuses.")
ID = "TransitionSystems::transition_id::TransitionID"


def run(c):
    e, f = c.entry(ID + "::get_leaves")
    if f is None:
        return
    ev = c.events(e, f)
    rec = None
    for x in ev:
        if e.p.bodies.get(x.name) is None:
            continue
        e2, g = c.entry(x.name, [x.name])
        if any(y.name == x.name for y in e2.events(g)):
            rec = (x, e2, g)
    c.floor(1 if rec else 0, 1, "collector", "recursive leaf collectors")
    if rec:
        e, f = c.entry(ID + "::get_leaves", [rec[0].name])
        call = [x for x in c.events(e, f) if x.name == rec[0].name]
        c.floor(len(call), 1, "collector-call", "starts of the leaf collector")
        for x in call[:1]:
            collector(c, e, f, x, rec[1], rec[2])
    splitter(c)


def collector(c, e, f, call, e2, g):
    where = call.where
    roles = {}
    for i, a in enumerate(call.args):
        if a == ("arg", "self"):
            roles["id"] = i
        elif a[0] == "k" and type(a[1]) is int:
            roles["at"] = i
        else:
            roles["out"] = i
    if set(roles) != {"id", "at", "out"}:
        c.oblige(False, "roles", where, "the leaf collector is not started with the identifier, a list and a position")
        return
    start = call.args[roles["at"]]
    out0 = call.args[roles["out"]]
    c.oblige(start == ("k", 0), "start", where, "the first component is not at position 0")
    rets = e.returns(f)
    for t, k in rets:
        base = t
        if base[0] == "acc":
            base, cs = e.contribs(base)
            extra = [x for x in cs if x[4].body.id != g.body.id]
            c.oblige(not extra, "only-collector", where, "the collected lists are changed after collecting")
        c.oblige(match(Cl("new"), base) is not None, "result", where, "the collected lists are not what is returned")
        c.oblige(any(a[0] == "did" and a[1] == call.name for a in k) or call.K == frozenset(), "always-collects", where,
                 "leaves are returned that were not collected")
    args = {n: g.args[i] for n, i in roles.items()}
    me, at, out = args["id"], args["at"], args["out"]
    ev = c.events(e2, g)
    name = call.name

    def is_rec(t, sub, pos):
        return t[0] == "call" and t[1] == name and t[2][roles["id"]] == sub and t[2][roles["out"]] == out and \
            lin(t[2][roles["at"]]) == pos

    def alts(t):
        """(base, offset) alternatives of a position."""
        b, n = lin(t)
        if b is not None and b[0] == "phi":
            return [(x, n + m) for a, _ in e2.gated(b) for x, m in [lin(a)]]
        if b is not None and b[0] == "call" and cname(b) == "fold" and len(b[2]) == 3:
            r = e2.apply(b[2][2], [("acc!", b), e2.elem(b[2][0])], b[3])
            x, m = lin(r)
            y, q = lin(b[2][1])
            return [(x, n + m), (y, n + q)]
        if b is not None and b[0] == "call" and cname(b) == "unwrap_or" and len(b[2]) == 2:
            x = b[2][0]
            y, q = lin(b[2][1])
            if x[0] == "call" and cname(x) == "last":
                z, m = lin(e2.elem(x[2][0]))
                return [(z, n + m), (y, n + q)]
        return [(b, n)]

    rr = e2.returns(g)
    vs = c.p.variants(ID) or []
    c.floor(len(vs), 5, "shapes", "shapes of identifiers")
    # the offset a leaf returns, relative to its position
    leafoff = set()
    pushed_all = []
    for v in ("Simple", "None"):
        mine = [(t, k) for t, k in rr if when(k, me, v)]
        c.floor(len(mine), 1, "leaf-" + v, "results for a %s identifier" % v)
        for t, k in mine:
            b, n = lin(t)
            if c.oblige(b == at, "leaf-position", where, "the position returned for a single identifier is not its own"):
                leafoff.add(n)
        pushed = [x for x in ev if last(x.name) == "push" and when(x.K, me, v)]
        pushed_all += pushed
        own = [x for x in pushed if match(V("x"), x.args[0]) and x.args[0][0] == "idx" and x.args[0][1] == out]
        c.floor(len(own), 1, "leaf-stored-" + v, "places that store a %s identifier" % v)
        for x in own:
            c.oblige(x.args[0][2] == at and x.args[1] == me, "leaf-stored", x.where,
                     "a single identifier is not stored at its own position")
            c.oblige(any(a[0] == "is" and enough(a, out, at) for a in x.K) or any(
                a[0] == "did" and last(a[1]) in ("resize", "resize_with") and a[2][0] == out and
                lin(a[2][1]) == (at, 1) for a in x.K), "leaf-room", x.where,
                "an identifier is stored at a position that need not exist (a quotient may have nothing on its left)")
            only_under(c, e2, x, lambda a: a[1] == me or sized(a, out, at) is not None, "leaf-always",
                       "a single identifier is only stored when %s")
        for x in pushed:
            if x in own:
                continue
            ok = x.args[0] == out and match(Cl("new"), x.args[1]) is not None and any(
                a[0] == "is" and short(a, out, at) for a in x.K)
            c.oblige(ok, "leaf-extra", x.where, "something else is added to the collected lists")
    if not c.oblige(len(leafoff) == 1, "leaf-offset", where, "leaves do not agree on the position they return"):
        return
    step = 1 - leafoff.pop()
    for x in writes_to(ev, out):
        if x.name == name:
            continue
        if x not in pushed_all and last(x.name) not in ("resize", "resize_with"):
            c.oblige(False, "writes-op", x.where, "the collected lists are changed by %s" % last(x.name))
        c.oblige(when(x.K, me, "Simple") or when(x.K, me, "None"), "writes", x.where,
                 "the collected lists are changed for a compound identifier")
    for v in ("Conjunction", "Composition"):
        L, R = ("v", me, v, "0"), ("v", me, v, "1")
        mine = [(t, k) for t, k in rr if when(k, me, v)]
        c.floor(len(mine), 1, "pair-" + v, "results for a " + v)
        calls = [x for x in ev if x.name == name and when(x.K, me, v) and x.frame is g]
        c.oblige(len({x.site for x in calls}) == 2, "pair-calls-" + v, where,
                 "a %s is not made of exactly its two operands" % v)
        for t, k in mine:
            ok = False
            b, n = lin(t)
            if n == 0 and b is not None and b[0] == "call" and b[1] == name:
                rs = pick(e2, b[2][roles["id"]], me, v)
                pos = lin(b[2][roles["at"]])
                l = pos[0]
                ok = rs == R and b[2][roles["out"]] == out and pos[1] == step and l is not None and \
                    l[0] == "call" and l[1] == name and pick(e2, l[2][roles["id"]], me, v) == L and \
                    l[2][roles["out"]] == out and lin(l[2][roles["at"]]) == (at, 0)
            c.oblige(ok, "pair-order-" + v, where,
                     "the parts of a %s are not its left operand's followed by its right operand's" % v)
    v = "Quotient"
    L, R = ("v", me, v, "0"), ("v", me, v, "1")
    calls = [x for x in ev if x.name == name and when(x.K, me, v)]
    for x in calls:
        sub = x.args[roles["id"]]
        if sub == ("elem", L):
            c.oblige(lin(x.args[roles["at"]]) == (at, 0) and x.args[roles["out"]] == out, "quotient-left", x.where,
                     "an alternative of a quotient's left side does not start at the quotient's own position")
        elif sub == ("elem", R):
            al = alts(x.args[roles["at"]])
            ok = x.args[roles["out"]] == out and al
            lefts = 0
            for b, n in al:
                if b is not None and b[0] == "call" and b[1] == name and b[2][roles["id"]] == ("elem", L):
                    lefts += 1
                    ok = ok and n == step
                else:
                    ok = ok and b == at and n == 1
            c.oblige(ok and lefts, "quotient-right", x.where,
                     "an alternative of a quotient's right side does not start right after the left side's parts")
        else:
            c.oblige(False, "quotient-call", x.where, "a quotient is made of something other than its two sides")
    for side, nm in ((L, "left"), (R, "right")):
        n = 0
        for t, k in rr:
            if not when(k, me, v):
                continue
            n += 1
            done = any(a[0] == "forall" and a[1] == side and a[2][0] == "did" and a[2][1] == name and
                       a[2][2][roles["id"]] == ("elem", side) for a in k)
            hof = [a for a in k if a[0] == "did" and last(a[1]) in ("fold", "for_each", "last", "map") and a[2]
                   and base_coll(a[2][0]) == side]
            hof = hof and any(x.args[roles["id"]] == ("elem", side) for x in calls)
            c.oblige(done or hof, "quotient-all-" + nm, where,
                     "not every alternative on the %s of a quotient is collected" % nm)
            for b, m in alts(t):
                ok = (b is not None and b[0] == "call" and b[1] == name and m == 0) or b == at or b is None or \
                    b[0] in ("acc!",)
                c.oblige(ok, "quotient-result", where, "the position returned for a quotient is not the last one used")
        c.floor(n, 1, "quotient-" + nm, "results for a quotient")


def base_coll(t):
    while t[0] == "call" and cname(t) in ("map", "rev", "enumerate", "filter") and t[2]:
        t = t[2][0]
    return t


def pick(e, t, me, v):
    """The value of t when `me` is the variant v."""
    a = [x for x, k in e.gated(t) if when(k, me, v) and not (x[0] == "v" and x[1] == me and x[2] != v)]
    return a[0] if len(set(a)) == 1 else None


def enough(a, out, at):
    return sized(a, out, at) is True


def short(a, out, at):
    return sized(a, out, at) is False


def sized(a, out, at):
    """True: the atom says out.len() > at; False: it says it is not."""
    t = a[1]
    if not isinstance(a[2], bool) or t[0] != "bin":
        return None
    n = lambda x: match(Cl("len", out), x) is not None
    if t[1] == "Le" and n(t[2]) and lin(t[3]) == (at, 0):
        return not a[2]
    if t[1] == "Lt" and lin(t[2]) == (at, 0) and n(t[3]):
        return a[2]
    if t[1] == "Le" and lin(t[2]) == (at, 1) and n(t[3]):
        return a[2]
    if t[1] == "Lt" and n(t[2]) and lin(t[3]) == (at, 1):
        return not a[2]
    return None


def splitter(c):
    e, f = c.entry(ID + "::split_into_component_lists", ["TransitionID::get_leaves"])
    if f is None:
        return
    path = f.args[0]
    ev = c.events(e, f)
    step = Cl("get_leaves", El(path))
    n_ok = n_err = 0

    def first(t):
        return match(Cl("get_leaves", Or(Pay(Cl("first", path), "Some"), Pay(Cl("get", path, K(0)), "Some"))), t) \
            is not None or t == ("call", t[1], (("idx", path, ("k", 0)),), t[3]) and cname(t) == "get_leaves"

    def same_count(a):
        """Atom comparing the number of parts of a step with that of the first."""
        t = a[1]
        if t[0] != "bin" or t[1] != "Eq":
            return None
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            r, q = match(Cl("len", V("s")), x), match(Cl("len", V("s")), y)
            if r and q and match(step, r["s"]) is not None and q["s"][0] == "call" and first(q["s"]):
                return a[2]
        return None

    def empty(k):
        return any(a[0] == "is" and a[2] is True and match(Cl("is_empty", path), a[1]) is not None for a in k) or \
            any(a[0] == "is" and a[2] == "None" and match(Cl("first|get", Ellipsis), a[1]) is not None for a in k)
    for t, k in e.returns(f):
        for t2, k2 in expand(e, t, k):
            if t2[0] == "agg" and t2[2] == "Err" or t2[0] == "failed":
                n_err += 1
                c.oblige(any(a[0] == "is" and same_count(a) is False for a in k2), "refusal", "split",
                         "a path is refused although all steps have the same number of components")
                continue
            if not (t2[0] == "agg" and t2[2] == "Ok"):
                c.oblige(False, "shape", "split", "the result is neither a split path nor a refusal")
                continue
            v = t2[3][0][1]
            if empty(k2):
                c.oblige(match(Cl("new"), v) is not None, "empty", "split", "an empty path has components")
                continue
            n_ok += 1
            stored(c, e, f, k2, v, path, step, first, same_count)
    c.floor(n_ok, 1, "split", "successful splits of a path")
    c.floor(n_err, 1, "refusals", "refusals of a path")


def stored(c, e, f, k, v, path, step, first, same_count):
    base, cs = e.contribs(v)
    r = match(Cl("from_elem", Cl("new"), Cl("len", V("l"))), base)
    ok = r is not None and first(r["l"])
    if not ok and base[0] == "call" and cname(base) == "map":
        x = base[2][0]
        ok = match(Cl("new"), e.elem(base)) is not None and (first(x) or (
            x[0] == "agg" and any(match(Cl("len", V("l")), y) and first(match(Cl("len", V("l")), y)["l"])
                                  for _, y in x[3])))
    c.oblige(ok, "one-list-each", "split", "there is not one (empty) list for each component of the first step")
    evs = []
    for x in c.events(e, f):
        if last(x.name) not in READS and x.args and mentions(x.args[0], v) and not x.name.startswith("@") and \
                last(x.name) not in ("filter", "map", "for_each"):
            c.oblige(last(x.name) == "push" and x.args[0] != v, "stored-op", x.where,
                     "the component lists are changed by %s" % last(x.name))
            evs.append(x)
    c.floor(len(evs), 1, "stored", "places that store a step's part")
    for x in evs:
        tgt, val = x.args[0], x.args[1]
        pos = None
        sl = None
        if tgt[0] == "idx":
            pos = tgt[2]
        elif tgt[0] == "elem" or tgt[0] == "f":
            pos = "zip"
        r = match(V("s", step), pos[1]) if isinstance(pos, tuple) and pos[0] == "pos" else None
        good = r is not None and tgt[1] == v
        if pos == "zip":
            good = mentions(tgt, v)
        c.oblige(good, "stored-at", x.where, "a part of a step is not stored at its own component's list")
        # the value: the component's identifiers without the absent ones
        src, filt = val, []
        while src[0] == "call" and cname(src) in ("filter", "map"):
            filt.append(src)
            src = src[2][0]
        if src[0] == "acc":
            b2, c2 = e.contribs(src)
            okv = match(Cl("new"), b2) is not None and c2 and all(
                o == "push" and match(El(El(step)), a[0]) is not None for o, a, _, _, _, _ in c2)
            for o, a, k3, w, _, _ in c2:
                keeps(c, e, [q for q in k3 - x.K if q[0] in ("is", "isnt") and q[1] == a[0]], a[0], w)
            okv = okv and all(only_loop(k3 - x.K, a[0]) for o, a, k3, w, _, _ in c2)
        else:
            okv = match(El(step), src) is not None
            for q in filt:
                if cname(q) != "filter":
                    okv = False
                    continue
                el = e.elem(q[2][0])
                p = e.apply(q[2][1], [el], q[3])
                for val_, want in ((True, False), (False, True)):
                    for cs_ in truth_cases(e, p, val_):
                        isnone = ("is", el, "None") in cs_
                        notnone = ("isnt", el, "None") in cs_ or any(
                            a[0] == "is" and a[1] == el and a[2] != "None" for a in cs_)
                        c.oblige((isnone if want else notnone) and not (notnone if want else isnone), "absent", x.where,
                                 "an identifier is kept or left out for another reason than being absent")
            c.oblige(bool(filt), "absent-filtered", x.where, "absent identifiers are not left out")
        c.oblige(okv, "stored-value", x.where, "what is stored is not the step's identifiers of that component")
        c.oblige(any(a[0] == "is" and same_count(a) is True for a in x.K), "counted", x.where,
                 "a step is stored whose number of components was not compared with the first's")
        def fine(a):
            t = a[1]
            return match(Cl("is_empty", path), t) is not None or match(Cl("first|get", Ellipsis), t) is not None or \
                same_count(a) is True or match(Cl("next", V("c")), t) is not None or (
                    t[0] == "discr" or (t[0] == "bin" and t[1] == "Lt" and match(Cl("len", ANY), t[3]) is not None))
        only_under(c, e, x, fine, "always", "a step's part is only stored when %s")
    # every step was counted, also those without parts
    ok = any(a[0] == "forall" and a[1] == path and a[2][0] == "is" and same_count(a[2]) is True for a in k)
    c.oblige(ok, "every-step-counted", "split", "a step may pass without its number of components being compared")
    ok = any(a[0] == "forall" and a[1] == path and (
        (a[2][0] == "is" and match(Cl("next", V("c")), a[2][1]) and mentions(a[2][1], ("elem", path))) or
        (a[2][0] == "did" and last(a[2][1]) in ("for_each",))) for a in k)
    c.oblige(ok, "all-parts", "split", "not every part of every step is stored")


def only_loop(ks, el):
    for a in ks:
        if a[0] in ("is", "isnt") and a[1] != el and match(Cl("next", ANY), a[1]) is None:
            return False
    return True


def keeps(c, e, ks, el, w):
    nn = any((a[0] == "isnt" and a[2] == "None") or (a[0] == "is" and a[2] != "None") for a in ks)
    c.oblige(nn, "absent-filtered", w, "absent identifiers are not left out")
