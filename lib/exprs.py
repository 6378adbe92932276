"""What the checks of the expression types share."""
from core import *

AE = "ModelObjects::Expressions::arith_expression::ArithExpression"
BE = "ModelObjects::Expressions::bool_expression::BoolExpression"
CMP = ("LessEQ", "GreatEQ", "LessT", "GreatT", "EQ")
CON = ("AndOp", "OrOp")
ARI = ("Difference", "Addition", "Multiplication", "Division", "Modulo")


def sides(c, fn):
    """(type, variant, engine, frame, fields) over both expression types, recursion opaque."""
    fids = ["%s::%s" % (t, fn) for t in (BE, AE)]
    n = 0
    for t, fid in zip((BE, AE), fids):
        for v, e, f, fs in arms(c, fid, t, fids):
            n += 1
            yield fids, t, v, e, f, fs
    c.floor(n, 16, fn, "kinds of expressions handled by %s" % fn)


def visit(c, e, f, fids, fs, key, what):
    for x in fs:
        cs = calls_on(e, f, fids, x)
        if not c.oblige(cs, key + "-" + show(x), "", "%s does not reach operand %s" % (what, show(x)[1:])):
            continue
        c.oblige(any(every_path(e, f, ev, co) for ev, co in cs), key + "-" + show(x) + "-always", cs[0][0].where,
                 "%s reaches operand %s only sometimes" % (what, show(x)[1:]))
        for ev, _ in cs:
            a = [("arg", f.body.locals[i + 1]["n"]) for i in range(1, f.body.argc)]
            c.oblige(list(ev.args[1:]) == a, key + "-args", ev.where, "%s passes other arguments on" % what)


def iseq(a, x, y):
    return a[0] == "is" and a[2] is True and a[1][0] == "bin" and a[1][1] == "Eq" and set(a[1][2:]) == {x, y}


def constraints(c):
    for fids, t, v, e, f, fs in sides(c, "iterate_constraints"):
        key = "constraints-" + v
        fn = ("arg", f.body.locals[2]["n"])
        calls = [x for x in e.events(f) if last(x.name) in ("call_mut", "call", "call_once")]
        if v in CON:
            visit(c, e, f, fids, fs, key, "the list of constraints of " + v)
        elif v in CMP:
            ok = len(calls) == 1 and calls[0].args[0] == fn and [y for _, y in calls[0].args[1][3]] == list(fs) if \
                calls and len(calls[0].args) > 1 and calls[0].args[1][0] == "agg" else False
            if c.oblige(ok, key, "", "the constraint %s is not listed with its left and right side" % v):
                c.oblige(every_path(e, f, calls[0], None), key + "-always", calls[0].where,
                         "the constraint %s is listed only sometimes" % v)
        elif v not in ARI:
            c.oblige(not calls, key, "", "%s is listed as a constraint" % v)


def constants(c):
    """The constant a clock is compared with."""
    gc = AE + "::get_constant"
    vs = c.p.adts.get(AE) or []
    n = 0
    for l in vs:
        for r in vs:
            b = c.p.bodies.get(gc)
            if b is None:
                break
            e0 = fx.Engine(c.p)
            mk = lambda v, p: e0.mkagg(AE, v["name"], tuple((x, ("arg", "$%s%s" % (p, x))) for x, _ in v["fields"]))
            names = [("arg", b.locals[i + 1]["n"]) for i in range(b.argc)]
            e, f = c.entry(gc, (), (mk(l, "l"), mk(r, "r")) + tuple(names[2:]))
            if f is None:
                return
            n += 1
            key = "constant-%s-%s" % (l["name"], r["name"])
            cv = {"Clock": names[2], "VarName": names[3]}
            pair = (l["name"], r["name"])
            if "Int" in pair and (pair[0] in cv or pair[1] in cv):
                li = pair[0] == "Int"
                num = ("arg", "$l0" if li else "$r0")
                who, ref = ("arg", "$r0" if li else "$l0"), cv[pair[1 if li else 0]]
                hit = False
                for t, k in e.returns(f):
                    for t2, k2 in expand(e, t, k):
                        is_ = any(iseq(a, who, ref) for a in k2)
                        if t2 == num:
                            hit = True
                            c.oblige(is_, key + "-clock", "", "the constant of another clock is taken")
                        else:
                            isnt = any(a[0] == "is" and a[2] is False and a[1][0] == "bin" and a[1][1] == "Eq" and
                                       set(a[1][2:]) == {who, ref} for a in k2)
                            c.oblige(not is_ and t2 == ("k", 0), key + "-lost", "",
                                     "the constant the clock is compared with is lost")
                c.oblige(hit, key, "", "the constant in a comparison of %s with %s is not found" % pair)
            elif ("Int" not in pair or pair[0] in ARI or pair[1] in ARI) and (pair[0] in ARI or pair[1] in ARI):
                rs = [t2 for t, k in e.returns(f) for t2, _ in expand(e, t, k)]
                for i, s in ((0, "$l"), (1, "$r")):
                    if pair[i] in ARI:
                        c.oblige(any(fx.mentions(t, ("arg", s + "0")) for t in rs), key + s, "",
                                 "a constant inside %s is lost in a comparison of %s with %s" % ((pair[i],) + pair))
    c.floor(n, 64, "constant", "pairs of operand kinds")
    for t in (BE, AE):
        m = t + "::get_max_constant"
        ic = t + "::iterate_constraints"
        e, f = c.entry(m, [ic, gc])
        if f is None:
            continue
        key = "max-" + last(t)
        evs = c.events(e, f)
        its = [x for x in evs if x.name == ic]
        if not c.oblige(len(its) == 1 and its[0].args[0] == ("arg", "self") and every_path(e, f, its[0], None), key, "",
                        "the largest constant is not looked for among all constraints"):
            continue
        l, r = (("param", "iterate_constraints", i) for i in (0, 1))
        st = [x for x in evs if x.name == "@store"]
        gcs = [x for x in evs if x.name == gc]
        want = ("arg", f.body.locals[2]["n"]), ("arg", f.body.locals[3]["n"])
        ok = c.oblige(bool(gcs), key + "-constant", "", "the constants of the constraints are not looked at")
        for x in gcs:
            a = x.args
            ok &= c.oblige(len(a) == 4 and a[2:] == want and str(a[0]) != str(a[1]) and
                           all("param" in str(y) for y in a[:2]), key + "-args", x.where,
                           "the constant of something else is looked at")
        if not ok:
            continue
        if not c.oblige(len(st) == 1, key + "-store", "", "the largest constant is not kept"):
            continue
        x = st[0]
        con = gcs[0].term
        val = x.args[1]
        if val[0] == "call" and cname(val) == "max":
            good = con in val[2]
        else:
            gs = conds(e, x)
            good = val == con and len(gs) <= 1 and all(
                a[0] == "is" and a[1][0] == "bin" and ((a[1][1] in ("Lt", "Le") and a[1][3] == con and a[2] is True) or (
                    a[1][1] in ("Gt", "Ge") and a[1][2] == con and a[2] is True) or (
                    a[1][1] in ("Ge", "Gt") and a[1][3] == con and a[2] is False) or (
                    a[1][1] in ("Le", "Lt") and a[1][2] == con and a[2] is False)) for a in gs) and len(gs) == 1
        c.oblige(good, key + "-larger", x.where, "a larger constant does not replace the one kept")
        for t2, k in e.returns(f):
            c.oblige(t2[0] == "acc" or val == t2, key + "-result", "", "the result is %s" % show(t2))
