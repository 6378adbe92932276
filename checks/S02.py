from core import *
from zones import *
import sets
import zbool
from sets import conj, alt, neg, implies
from systems import *

TITLE = "the quotient has the actions and transitions of its definition"
EXPLAIN = ("The quotient built on success is passed to its own methods. Its action sets are compared with their definition for "
           "every way an action can belong to the operands, and for each of these, with every combination of invariants, the "
           "transitions it produces - quantified over the operands' transitions, with identifiers, targets, assignments and "
           "guards as Boolean functions of the zones they are made of - are compared with the rules of the quotient.")
Q = "TransitionSystems::quotient::Quotient"
T = "ModelObjects::transition::Transition"
CF = "System::query_failures::ConsistencyFailure"
OPT = "std::option::Option"
TT, SS = ("arg", "T"), ("arg", "S")
TI, TO, SI, SO = base(TT, "input"), base(TT, "output"), base(SS, "input"), base(SS, "output")
ACT = ("arg", "action")
DIM, QC = ("arg", "dim"), ("arg", "new_clock_index")
SOUND = neg(alt(conj(TI, TO), conj(SI, SO)))
CLASH = conj(SO, TI)
STOP = [AF + "::to_rfq", CF + "::to_rfq", L + "::error", L + "::universal", TS + "::precheck_sys_rep"]


class Spec:
    nm, adt, left, right = "Quotient", Q, TT, SS


def build(c):
    fn = Q + "::new_ts"
    e, f = c.entry(fn, STOP, (TT, SS, QC, DIM), stub={
        AF + "::not_disjoint": lambda args: ("agg", "Result", "Err", (("0", ("arg", "clash")),))})
    if f is None:
        return
    n, built = 0, []
    pre = {x: call("precheck_sys_rep", x) for x in (TT, SS)}
    for t, k0 in e.returns(f):
        for k in e.cases(k0):
            n += 1
            kd = kind(t)
            no, yes = sets.empties(e, k)
            no, yes = [norm(x) for x in no], [norm(x) for x in yes]
            kn = plain(k)
            passed = {x: known(kn, y, "Ok", "Err") for x, y in pre.items()}
            failed = any(known(kn, y, "Err", "Ok") for y in pre.values())
            if kd == "Ok":
                c.oblige(any(implies(conj(SOUND, CLASH), x) for x in no), "new-disjoint", fn,
                         "a quotient is built though an output of S may be an input of T")
                for x in (TT, SS):
                    c.oblige(passed[x], "new-checked-" + x[1], fn, "a quotient is built though %s was not checked" % x[1])
                e.allK = k0
                e.inserts = [x for x in e.events(f) if last(x.name) == "insert"]
                sysm = (e, t[3][0][1], k, no)
                if not any(b[1] == sysm[1] for b in built):
                    built.append(sysm)
            elif kd == "Err":
                clash = any(implies(conj(SOUND, y), CLASH) for y in yes)
                c.oblige(clash or failed, "new-refused", fn, "a quotient is refused for another reason than a clash or a failed check")
            else:
                c.oblige(False, "new", fn, "the construction of a quotient ends in " + show(t)[:100])
    c.floor(n, 3, "new", "outcomes of the construction of a quotient")
    c.floor(len(built), 1, "new-ok", "successful constructions of a quotient")
    return built


def fresh(c, sysm):
    """The name of the additional input: in neither operand."""
    e, s, k, no = sysm
    fn = Q + "::new_ts"
    inp = public(c, Q, "get_input_actions")
    e2, f = entry(c, sysm, inp, (), (s,))
    if f is None:
        return
    g = norm(sets.given(sets.one(e2, f.ret()), k))
    eqs = [x[1] for x in sets.variables(g) if x[0] == "eq"]
    if not c.oblige(len(eqs) == 1, "new-input", fn, "the inputs of a quotient have %d additional actions" % len(eqs)):
        return
    nm = eqs[0]
    got = conj(*[norm(sets.about(e, k, y)) for y in {nm} | set(same_text(e, nm))])
    for x, w in ((norm(("in", ("get_actions", TT))), "T"), (norm(("in", ("get_actions", SS))), "S")):
        c.oblige(implies(got, neg(x)), "new-input-fresh-" + w, fn, "the additional input may be an action of " + w)
    return nm


def same_text(e, t):
    """Other terms for the value of t."""
    out = []
    for a, k in expand(e, t):
        out.append(a)
    return out


def vectors(nm):
    new = ("eq", nm)
    quo = (alt(TI, SO, new), alt(conj(TO, neg(SO)), conj(SI, neg(TI))))
    ctx = conj(SOUND, neg(CLASH), *[neg(conj(new, x)) for x in (TI, TO, SI, SO)])
    for v in sets.assignments({TI, TO, SI, SO, new}):
        if sets.value(ctx, v):
            yield v, quo


def who(v, nm):
    names = ((TI, "input of T"), (TO, "output of T"), (SI, "input of S"), (SO, "output of S"), (("eq", nm), "the additional input"))
    return " and ".join(w for x, w in names if v[x]) or "no action of either operand"


def code(v, nm):
    return "".join(w for x, w in ((TI, "Ti"), (TO, "To"), (SI, "Si"), (SO, "So"), (("eq", nm), "New")) if v[x]) or "none"


def sets_of(c, sysm, nm):
    want = {"get_input_actions": 0, "get_output_actions": 1, "get_actions": 2}
    for m, i in want.items():
        fn = public(c, Q, m)
        if not c.oblige(fn is not None, m, Q, "a quotient has no " + m):
            continue
        e, f = entry(c, sysm, fn, (), (sysm[1],))
        if f is None:
            continue
        got = norm(sets.given(sets.one(e, f.ret()), sysm[2]))
        extra = sets.variables(got) - {TI, TO, SI, SO, ("eq", nm)}
        if not c.oblige(not extra, m + "-other", fn, "the actions of a quotient depend on " + "; ".join(show(v[1])[:80] for v in extra)):
            continue
        for v, quo in vectors(nm):
            w = sets.value(quo[i] if i < 2 else alt(*quo), v)
            c.oblige(sets.value(got, v) == w, "%s-%s" % (m, code(v, nm)), fn, "an action that is %s is %sin %s of the quotient" % (
                who(v, nm), "not " if w else "", m))


def agg(adt, var, **fs):
    return ("agg", adt, var, tuple(fs.items()))


def side_loc(c, side, inv):
    some_ = agg(OPT, "Some", **{"0": ("arg", "inv_" + side)}) if inv else agg(OPT, "None")
    return agg(L, None, id=("arg", "id_" + side), invariant=some_, loc_type=("arg", "ty_" + side), left=("arg", "l_" + side),
               right=("arg", "r_" + side))


def boxed(x):
    return agg(OPT, "Some", **{"0": x})


class Names:
    """Canonical terms: the operands' transitions for the action, the locations."""

    def __init__(self, e, lt, ls, loc, k, v):
        self.e, self.k, self.v = e, k, v
        self.known = [(lt, ("loc", "t")), (ls, ("loc", "s")), (loc, ("loc", "q"))]
        self.sides = {(TT, ("loc", "t")): "t", (SS, ("loc", "s")): "s"}

    def canon(self, t):
        return self.walk(t)

    def walk(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        for a, b in self.known:
            if t == a:
                return b
        if t[0] == "phi":
            r = self.resolve(t)
            if r is not None:
                return self.walk(r)
        if t[0] == "call" and len(t) == 4:
            nm = cname(t)
            args = tuple(self.walk(x) for x in t[2])
            if nm in ("next_transitions", "next_transitions_if_available", "next_outputs", "next_inputs") and len(args) == 3:
                sd = self.sides.get(args[:2])
                if sd and args[2] == ACT and (nm.endswith("available") or self.has(sd)):
                    return ("moves", sd)
            if nm in ("iter", "into_iter", "clone", "cloned", "to_vec", "as_slice", "collect") and len(args) == 1 and args[0][0] == "moves":
                return args[0]
            return ("call", nm, args)
        return tuple(self.walk(x) for x in t)

    def has(self, sd):
        return self.v[TI] or self.v[TO] if sd == "t" else self.v[SI] or self.v[SO]

    def resolve(self, t):
        arms = []
        for a, k in expand(self.e, t, self.k):
            if a == t:
                return None
            g = norm(sets.about(self.e, k, ACT))
            if not may(g, self.v):
                continue
            if produced(self.e, a) == []:
                arms.append(None)
            else:
                arms.append(a)
        real = [a for a in arms if a is not None]
        if len(real) == 1 and len(arms) == 1:
            return real[0]
        return None

    def empty(self, coll):
        return coll[0] == "moves" and not self.has(coll[1])


def may(f, v):
    return sat(conj(f, *[x if b else neg(x) for x, b in v.items()]))


ELT, ELS = ("elem", ("moves", "t")), ("elem", ("moves", "s"))


def expected(kind_, v, nm, it, is_, inp):
    """[(quantified, id, guard, target, assignments)]"""
    allowed = lambda x: ("in", call("get_allowed_federation", x))
    invt, invs = ("in", ("arg", "inv_t")) if it else True, ("in", ("arg", "inv_s")) if is_ else True
    at, as_ = conj(allowed(ELT), invt), conj(allowed(ELS), invs)
    at_loc = ("in", ("eqc", QC, ("k", 0)))
    none = ("none",)
    univ, bad = call("universal"), call("error", DIM, QC)
    reset = (("reset",),)
    if kind_ == "Inconsistent":
        return [(frozenset(), none, at_loc, ("loc", "q"), ())] if inp else []
    if kind_ == "Universal":
        return [(frozenset(), none, True, ("loc", "q"), ())]
    hasT, hasS = v[TI] or v[TO], v[SI] or v[SO]
    out = []
    one = lambda x: ("one", fld(x, "id"))
    every = lambda s: ("all", ("moves", s), fld(ITEM, "id"))
    gt = zbool.over(at, ("moves", "t"), ELT, zbool.Env()) if hasT else False
    gs = zbool.over(as_, ("moves", "s"), ELS, zbool.Env()) if hasS else False
    tgt = lambda x: fld(x, "target_locations")
    ups = lambda x: fld(x, "updates")
    merge = lambda a, b: call("merge_as_quotient", a, b)
    if hasT and hasS:
        out.append((frozenset("ts"), ("Q", (one(ELT),), (one(ELS),)), conj(at, as_), merge(tgt(ELT), tgt(ELS)), (ups(ELT), ups(ELS))))
    if hasS and not hasT:
        out.append((frozenset("s"), ("Q", (), (one(ELS),)), as_, merge(("loc", "t"), tgt(ELS)), (ups(ELS),)))
    if v[SO]:
        out.append((frozenset(), ("Q", (), (every("s"),)), alt(neg(invs), neg(gs)), univ, ()))
    else:
        out.append((frozenset(), none, neg(invs), univ, ()))
    if v[SO] and v[TO]:
        out.append((frozenset("s"), ("Q", (every("t"),), (one(ELS),)), conj(as_, neg(gt)), bad, reset))
    if v[("eq", nm)]:
        out.append((frozenset(), none, conj(neg(invt), invs), bad, reset))
    if hasT and not hasS:
        out.append((frozenset("t"), ("Q", (one(ELT),), ()), conj(at, invs), merge(tgt(ELT), ("loc", "s")), (ups(ELT),)))
    return [x for x in out if not (x[2] is False or sets.valid(neg(x[2])))]


def ids(e, t, en, k):
    """A list of identifiers: ("one", id) or ("all", collection, id of ITEM)."""
    els = e.arr_elems(t)
    if els is not None:
        return tuple(("one", en.canon(x)) for x in els)
    if t[0] == "call":
        n = cname(t)
        if n in ("new", "with_capacity", "default"):
            return ()
        if n in ("collect", "iter", "into_iter", "cloned", "to_vec", "clone") and len(t[2]) == 1:
            return ids(e, t[2][0], en, k)
        if n == "map":
            coll, el = en.canon(t[2][0]), e.elem(t[2][0])
            x = en.canon(e.apply(t[2][1], [el], t[3]))
            return () if en.empty(coll) else (("all", coll, put(x, en.canon(el), ITEM)),)
    if t[0] == "acc":
        b, cs = e.contribs(t)
        out = ids(e, b, en, k)
        for op, args, k2, w, fr, bb in cs:
            gs = [a for a in e.guards(fr, bb) if a[0] in ("is", "isnt") and a not in k]
            if out is None or len(gs) > 1:
                return None
            if op == "push" and not gs:
                out += (("one", en.canon(args[0])),)
            elif op == "push" and gs[0][1][0] == "call" and cname(gs[0][1]) == "next":
                it = gs[0][1][2][0]
                coll = en.canon(it)
                out += () if en.empty(coll) else (("all", coll, put(en.canon(args[0]), en.canon(e.elem(it)), ITEM)),)
            elif op in ("extend", "append") and not gs:
                r = ids(e, args[0], en, k)
                out = None if r is None else out + r
            else:
                return None
        return out
    return None


def ups(e, t, en, k):
    out = []
    ps = concat(e, t, k)
    for p in ps if ps is not None else [t]:
        els = e.arr_elems(p)
        if els is not None:
            for x in els:
                d = dict(x[3]) if x[0] == "agg" else {}
                out.append(("reset",) if d.get("clock_index") == QC and d.get("value") == ("k", 0) else en.canon(x))
        else:
            out.append(en.canon(p))
    return tuple(out)


def filtered(e, t):
    """(collection, [filters]) of a filtered result."""
    fs = []
    while t[0] == "call" and t[2] and cname(t) in ("collect", "into_iter", "iter", "filter", "cloned"):
        if cname(t) == "filter":
            fs.append((t[2][1], t[3]))
        t = t[2][0]
    return t, fs


def items(e, t, depth=0):
    """[(transition, guards, loops)] or None"""
    if depth > 6:
        return None
    t, fs = filtered(e, t)
    out = None
    if t[0] == "acc":
        b, cs = e.contribs(t)
        out = items(e, b, depth + 1)
        for op, args, k, w, fr, bb in cs:
            if out is None:
                return None
            gs = [frozenset(a for a in g if a[0] in ("is", "isnt")) for g in e.gcases(fr, bb)]
            if leaves(e, fr, bb):
                gs = [g | {("is", ("an early exit",), True)} for g in gs]
            if op == "push":
                out = out + [(args[-1], g) for g in gs]
            elif op in ("extend", "append"):
                s = items(e, args[-1], depth + 1)
                out = None if s is None else out + [(x, kx | g) for x, kx in s for g in gs]
            elif op == "retain":
                out = [(x, kx | {("is", e.apply(args[0], [x], fr.site(bb)), True)} | g) for x, kx in out for g in gs]
            else:
                return None
    elif t[0] == "call":
        n = cname(t)
        if n in ("new", "with_capacity", "default"):
            out = []
        elif n in ("map", "flat_map", "filter_map") and len(t[2]) == 2:
            src = t[2][0]
            x = e.apply(t[2][1], [e.elem(src)], t[3])
            g = frozenset(e.elem_facts(src)) | {("is", ("call", "@next", (src,), t[3]), "Some")}
            if n == "map":
                out = [(x, g)]
            elif n == "flat_map":
                s = items(e, x, depth + 1)
                out = None if s is None else [(y, ky | g) for y, ky in s]
            else:
                out = []
                for y, ky in expand(e, x):
                    if y[0] == "agg" and y[2] == "Some":
                        out.append((y[3][0][1], g | {a for a in ky if a[0] in ("is", "isnt")}))
                    elif not (y[0] == "agg" and y[2] == "None"):
                        return None
        elif n == "chain":
            a, b = items(e, t[2][0], depth + 1), items(e, t[2][1], depth + 1)
            out = None if a is None or b is None else a + b
    else:
        els = e.arr_elems(t)
        if els is not None:
            out = [(x, frozenset()) for x in els]
    if out is None:
        return None
    for cl, site in fs:
        out = [(x, k | {("is", e.apply(cl, [x], site), True)}) for x, k in out]
    return out


def moves(c, sysm, nm):
    fn = public(c, Q, "next_transitions")
    if not c.oblige(fn is not None, "next", Q, "a quotient has no next_transitions"):
        return
    n = 0
    kinds = c.p.adts["ModelObjects::location::LocationType"]["variants"] if False else None
    for kd in ("Inconsistent", "Universal", "Normal", "Initial"):
        for it in (True, False):
            for is_ in (True, False):
                if kd != "Normal" and not (it and is_):
                    continue
                lt, ls = side_loc(c, "t", it), side_loc(c, "s", is_)
                special = kd in ("Inconsistent", "Universal")
                loc = agg(L, None, id=("arg", "id_q"), invariant=agg(OPT, "None"),
                          loc_type=agg("ModelObjects::location::LocationType", kd),
                          left=agg(OPT, "None") if special else boxed(lt), right=agg(OPT, "None") if special else boxed(ls))
                n += at_location(c, sysm, nm, fn, kd, it, is_, lt, ls, loc)
    c.floor(n, 40, "next", "transitions of a quotient")


def at_location(c, sysm, nm, fn, kd, it, is_, lt, ls, loc):
    e, f = entry(c, sysm, fn, [T + "::get_allowed_federation", L + "::merge_as_quotient", TS + "::next_transitions_if_available"],
                 (sysm[1], loc, ACT))
    if f is None:
        return 0
    n = 0
    rets = []
    for t, k0 in e.returns(f):
        for k in e.cases(frozenset(a for a in k0 if a[0] in ("is", "isnt"))):
            rets.append((t, k))
    for v, quo in vectors(nm):
        if not sets.value(alt(*quo), v):
            continue
        inp = sets.value(quo[0], v)
        want = expected(kd, v, nm, it, is_, inp)
        w = "%s-%s%s%s" % (kd, code(v, nm), "" if it else "-noinvT", "" if is_ else "-noinvS")
        got, any_ = None, False
        for t, k in rets:
            if not may(norm(sets.given(sets.about(e, k, ACT), sysm[2])), v):
                continue
            any_ = True
            en = Names(e, lt, ls, loc, k, v)
            try:
                got = collect(e, t, k, en, v, sysm)
            except (zbool.NoZone, sets.NoSet) as x:
                c.oblige(False, "next-" + w, fn, "for %s the transitions cannot be told: %s" % (who(v, nm), x))
                continue
            if not c.oblige(got is not None, "next-" + w, fn, "for %s the transitions of a quotient are %s" % (who(v, nm), show(t)[:120])):
                continue
            n += len(got)
            diff = compare(got, want)
            c.oblige(not diff, "next-" + w, fn, "in a %s location, for %s, a quotient has %s" % (kd, who(v, nm), diff))
        c.oblige(any_, "next-any-" + w, fn, "for %s a quotient has no transitions" % who(v, nm))
    return n


def collect(e, t, k, en, v, sysm):
    its = items(e, t)
    if its is None:
        return None
    out = []
    for x0, g0 in its:
        for g in split(e, g0):
            for x, kx in expand(e, x0, frozenset(g)):
                g2 = frozenset(a for a in frozenset(g) | kx if a[0] in ("is", "isnt"))
                if e.contradict(e.close(g2 | k)):
                    continue
                r = item(e, x, g2, en, v, sysm, k)
                if r is not None and r not in out:
                    out.append(r)
    return out


def split(e, g0):
    """The cases of a set of conditions, each made of plain tests."""
    out = [frozenset(a for a in g0 if a[0] in ("is", "isnt") and not isinstance(a[2], bool))]
    for a in g0:
        if a[0] == "is" and isinstance(a[2], bool):
            while a[1][0] == "un" and a[1][1] == "Not":
                a = ("is", a[1][2], not a[2])
            out = [k | {b for b in x if b[0] in ("is", "isnt")} for k in out for x in truth_cases(e, a[1], a[2])]
    return [x for k in out for x in e.cases(k)]


def item(e, x, g, en, v, sysm, k):
    fs, quant, rest = [], set(), []
    if x[0] != "agg":
        raise zbool.NoZone("a transition is " + show(x)[:100])
    d = dict(x[3])
    gz = zbool.zone(e, d["guard_zone"], g, en)
    for a in g:
        t = a[1]
        if t[0] == "call" and cname(t) == "next":
            coll = en.canon(t[2][0])
            if a[2] == "Some" and coll[0] == "moves":
                if en.empty(coll):
                    return None
                quant.add(coll[1])
            elif a[2] == "Some":
                rest.append(a)
            continue
        if t[0] == "call" and cname(t) == "is_empty" and a[0] == "is":
            try:
                z = zbool.zone(e, t[2][0], g, en)
                if sets.same(z, gz):
                    if a[2] is False:
                        continue
            except zbool.NoZone:
                pass
            if en.canon(t[2][0])[0] == "moves":
                m = en.canon(t[2][0])
                if a[2] is False and m[1] in quant:
                    continue
        y = norm(sets.given(sets.lit(e, a, ACT), sysm[2]))
        vs = sets.variables(y)
        if any(q not in v for q in vs):
            if a in k:
                continue
            rest.append(a)
            continue
        if not sets.value(y, v):
            return None
    if rest:
        raise zbool.NoZone("a transition depends on " + "; ".join(show(a)[:100] for a in rest))
    if gz is False or not isinstance(gz, bool) and sets.valid(neg(gz)):
        return None
    i = d["id"]
    if i[0] == "agg" and i[2] == "None":
        idn = ("none",)
    elif i[0] == "agg" and i[2] == "Quotient":
        idn = ("Q", ids(e, i[3][0][1], en, g | k), ids(e, i[3][1][1], en, g | k))
    else:
        idn = en.canon(i)
    free = {y[1][1] for part in (en.canon(d["target_locations"]), idn[1:] if idn[0] == "Q" else ()) for y in fx.subterms(part)
            if y and y[0] == "elem" and y[1][0] == "moves"}
    quant |= free
    return frozenset(quant), idn, gz, en.canon(d["target_locations"]), ups(e, d["updates"], en, g | k)


def compare(got, want):
    left = list(want)
    for q, i, z, t, u in got:
        for w in left:
            if (q, i, t, u) == (w[0], w[1], w[3], w[4]) and sets.same(z, w[2]):
                left.remove(w)
                break
        else:
            near = [w for w in want if (w[0], w[3]) == (q, t)]
            what = ""
            if near:
                w = near[0]
                what = "identifier" if w[1] != i else "assignments" if w[4] != u else "guard" if not sets.same(z, w[2]) else "number"
            return "a transition%s to %s it should not have%s" % (
                " for every " + " and ".join(sorted(q)) if q else "", tname(t), " with this " + what if what else "")
    if left:
        q, i, z, t, u = left[0]
        return "no transition%s to %s" % (" for every " + " and ".join(sorted(q)) if q else "", tname(t))
    return ""


def tname(t):
    return {"universal": "the universal location", "error": "the inconsistent location", "merge_as_quotient": "a joint location"}.get(
        t[1] if t[0] == "call" else "", "itself" if t == ("loc", "q") else show(t)[:60])


def special_locations(c):
    """The two special locations and the merged one."""
    for fn, var, args in ((L + "::universal", "Universal", ()), (L + "::error", "Inconsistent", (DIM, QC))):
        e, f = c.entry(fn, (), args)
        if f is None:
            continue
        for t, k in outcomes(e, f):
            d = dict(t[3]) if t[0] == "agg" else {}
            ty, inv = d.get("loc_type"), d.get("invariant")
            c.oblige(ty is not None and ty[0] == "agg" and ty[2] == var, "special-" + var, fn, "the type of the location is wrong")
            idn = d.get("id")
            w = "Universal" if var == "Universal" else "Error"
            c.oblige(idn is not None and idn[0] == "agg" and idn[2] == "Special" and idn[3][0][1][0] == "agg" and idn[3][0][1][2] == w,
                     "special-id-" + var, fn, "the identifier of the location is wrong")
            try:
                z = [zbool.zone(e, a, ka) for a, ka in optzone(e, inv, k)] if inv is not None else []
            except zbool.NoZone:
                z = []
            want = True if var == "Universal" else ("in", ("eqc", QC, ("k", 0)))
            c.oblige(len(z) == 1 and sets.same(z[0], want), "special-inv-" + var, fn, "the invariant of the location is wrong")
    for m, var in (("is_universal", "Universal"), ("is_inconsistent", "Inconsistent")):
        fn = L + "::" + m
        for x in ("Initial", "Normal", "Universal", "Inconsistent", "Any"):
            loc = agg(L, None, id=("arg", "i"), invariant=("arg", "inv"), loc_type=agg("ModelObjects::location::LocationType", x),
                      left=("arg", "l"), right=("arg", "r"))
            e, f = c.entry(fn, (), (loc,))
            if f is None:
                break
            for val in (True, False):
                for t, k in outcomes(e, f):
                    if truth_cases(e, t, val, k):
                        c.oblige(val == (x == var), m, fn, "%s is %s of a location of type %s" % (m, val, x))


def lifted(c, sysm):
    s = Spec
    me = sysm[1]

    def at(m, args=(), opaque=()):
        fn = public(c, Q, m)
        if not c.oblige(fn is not None, m, Q, "a quotient has no " + m):
            return None, None, None
        e, f = entry(c, sysm, fn, opaque, (me,) + tuple(args))
        return fn, e, f
    fn, e, f = at("get_dim")
    if f is not None:
        for t, k in outcomes(e, f):
            c.oblige(t == DIM, "dim", fn, "the dimension of a quotient is " + show(t)[:100])
    fn, e, f = at("get_composition_type")
    if f is not None:
        for t, k in outcomes(e, f):
            c.oblige(t[0] == "agg" and t[2] == "Quotient", "type", fn, "the kind of a quotient is " + show(t))
    fn, e, f = at("get_children")
    if f is not None:
        for t, k in outcomes(e, f):
            c.oblige(t[0] == "agg" and [x for _, x in t[3]] == [TT, SS], "children", fn, "the operands of a quotient are " + show(t)[:100])
    merge = L + "::merge_as_quotient"
    init = [call("get_initial_location", TT), call("get_initial_location", SS)]
    fn, e, f = at("get_initial_location", (), [merge])
    if f is not None:
        n = 0
        for t, k in outcomes(e, f):
            for a, ka in expand(e, t, k):
                n += 1
                kn = plain(ka)
                if a[0] == "agg" and a[2] == "Some":
                    c.oblige(sites(a[3][0][1]) == call("merge_as_quotient", some(init[0]), some(init[1])), "initial", fn,
                             "the initial location of a quotient is " + show(a)[:150])
                else:
                    c.oblige(a[0] == "failed" and mentions_name(a, "get_initial_location") or any(
                        known(kn, x, "None", "Some") for x in init), "initial-none", fn,
                        "a quotient of systems with initial locations has none")
        c.floor(n, 2, "initial", "outcomes of the initial location of a quotient")
    fn, e, f = at("get_all_locations", (), [merge])
    if f is not None:
        locations(c, e, f, fn)
    sl = ("arg", "target")
    fn, e, f = at("construct_location_tree", (sl,), [merge])
    if f is not None:
        n = set()
        for t, k in outcomes(e, f):
            for a, ka in expand(e, t, k):
                kn = plain(ka)
                sp = [x[1] for x in kn if x[0] == "is" and x[1] == sl]
                if a[0] == "agg" and a[2] == "Ok":
                    x = sites(a[3][0][1])
                    var = [y for y in kn if y[0] == "is" and y[1][0] in ("arg", "v", "f") and uses_term(y[1], sl)]
                    vs = {y[2] for y in var}
                    if "BranchLocation" in vs:
                        n.add("b")
                        wl = ok(call("construct_location_tree", TT, ("v", sl, "BranchLocation", "0")))
                        wr = ok(call("construct_location_tree", SS, ("v", sl, "BranchLocation", "1")))
                        c.oblige(x == call("merge_as_quotient", wl, wr), "locate", fn,
                                 "the location of a quotient built for a given one is " + show(a)[:150])
                    elif "Universal" in vs or "Error" in vs:
                        w = call("universal") if "Universal" in vs else call("error", DIM, QC)
                        n.add(w[1])
                        c.oblige(x == w, "locate-" + w[1], fn, "the special location of a quotient is " + show(a)[:150])
                    else:
                        c.oblige(False, "locate-what", fn, "a location of a quotient is built for %s" % sorted(map(str, vs)))
                else:
                    c.oblige(a[0] == "failed" or any(y[1][0] == "call" and y[1][1] == "construct_location_tree" and (
                        y[0], y[2]) in (("is", "Err"), ("isnt", "Ok")) for y in kn), "locate-err", fn, "a location of a quotient is refused")
        c.floor(len(n), 3, "locate", "kinds of locations of a quotient")
    for m in ("check_determinism", "check_local_consistency"):
        fn, e, f = at(m)
        if f is not None:
            both(c, e, f, m, s, fn)
    fn, e, f = at("get_decls")
    if f is not None:
        for t, k in outcomes(e, f):
            decls(c, sysm, e, t, fn)
    fn, e, f = at("get_initial_state", (), [public(c, Q, "get_initial_location")])
    if f is not None:
        il = call("get_initial_location", sites(me))
        n = 0
        for t, k in outcomes(e, f):
            for a, ka in expand(e, t, k):
                n += 1
                if a[0] == "agg" and a[2] == "Some":
                    st = a[3][0][1]
                    d = dict(st[3]) if st[0] == "agg" else {}
                    loc = d.get("decorated_locations")
                    z = [v for kk, v in d.items() if kk != "decorated_locations"]
                    zz = z[0] if len(z) == 1 else ("k", None)
                    while zz[0] == "agg" and len(zz[3]) == 1:
                        zz = zz[3][0][1]
                    c.oblige(loc is not None and sites(loc) == some(il), "state-loc", fn, "the location of the initial state is wrong")
                    c.oblige(sites(zz) == call("init", DIM), "state-zone", fn, "the zone of the initial state is " + show(zz)[:100])
                else:
                    c.oblige(known(plain(ka), il, "None", "Some") or a[0] == "failed", "state-none", fn,
                             "a quotient with an initial location has no initial state")
        c.floor(n, 2, "state", "outcomes of the initial state of a quotient")


def locations(c, e, f, fn):
    its = produced(e, f.ret())
    if not c.oblige(its is not None, "locations", fn, "the locations of a quotient are " + show(f.ret())[:120]):
        return
    want = {"joint": call("merge_as_quotient", *[("elem", call("get_all_locations", x)) for x in (TT, SS)]),
            "universal": call("universal"), "inconsistent": call("error", DIM, QC)}
    for t, k, fr, bb in its:
        x = sites(t)
        names = [n for n, w in want.items() if w == x]
        if not c.oblige(bool(names), "location-other", fn, "a quotient has the location " + show(t)[:150]):
            continue
        want.pop(names[0])
        if fr is not None:
            bad = [a for a in e.guards(fr, bb) if a[0] not in ("did", "forall") and not (
                a[1][0] == "call" and cname(a[1]) == "next") and a[1][0] not in ("agg", "k")]
            c.oblige(not bad, "locations-all", fn, "a location of a quotient is left out unless " + "; ".join(show(a)[:100] for a in bad))
            c.oblige(not leaves(e, fr, bb), "locations-whole", fn, "not all locations of a quotient are visited")
    for n in sorted(want):
        c.oblige(False, "location-" + n, fn, "a quotient lacks its %s location%s" % (n, "s" if n == "joint" else ""))


def decls(c, sysm, e, t, fn):
    """Declarations of T, of S and, last, the quotient's own with its clock."""
    its, own = [], None
    want = [call("get_decls", TT), call("get_decls", SS)]
    ps = None
    if t[0] == "acc":
        b, cs = e.contribs(t)
        ps = concat(e, b)
        for op, args, k, w, fr, bb in cs:
            if op in ("extend", "append") and ps is not None:
                r = concat(e, args[-1])
                ps = None if r is None else ps + r
            elif op == "push" and ps is not None:
                ps = ps + [("own", args[-1])]
    else:
        ps = concat(e, t)
    flat = []
    for p in ps or ():
        els = e.arr_elems(p) if p[0] != "own" else None
        flat += [("own", x) for x in els] if els is not None else [p]
    c.oblige(ps is not None and [sites(x) for x in flat[:-1]] == want and len(flat) == 3, "decls", fn,
             "the declarations of a quotient are not those of T, of S and its own")
    d = flat[-1][1] if flat and flat[-1][0] == "own" else None
    cl = dict(d[3]).get("clocks") if d is not None and d[0] == "agg" else None
    ins = None
    if cl is not None and cl[0] == "acc":
        b, cs = e.contribs(cl)
        ins = [args for op, args, k, w, fr, bb in cs]
    elif cl is not None and cl[0] == "call" and cname(cl) in ("new", "with_capacity", "default"):
        ins = [x.args for x in sysm[0].inserts if x.args[0] == cl and all(
            a in sysm[0].allK for a in x.K if a[0] in ("is", "isnt"))]
    elif cl is not None and e.arr_elems(cl[2][0] if cl[0] == "call" and cl[2] else cl) is not None:
        ins = [tuple(x for _, x in y[3]) for y in e.arr_elems(cl[2][0] if cl[0] == "call" else cl)]
    c.oblige(ins is not None and len(ins) == 1 and ins[0][-1] == QC, "decls-clock", fn,
             "the declarations of a quotient do not hold exactly its own clock")


def run(c):
    for b in build(c) or ():
        nm = fresh(c, b)
        if nm is None:
            continue
        sets_of(c, b, nm)
        moves(c, b, nm)
        lifted(c, b)
    special_locations(c)
