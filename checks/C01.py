import itertools
from exprs import *

TITLE = "guards and invariants constrain the zone they describe"
EXPLAIN = ("The function that applies a guard to a set of clock valuations is evaluated abstractly at every constructor: "
           "connectives give a recursion equation, comparisons are taken at every shape of their sides (clock, number, "
           "clock plus or minus number, difference of clocks, name) with symbolic clocks and numbers. The linear form of "
           "the sides gives the difference constraint that must come out.")
P = "EdgeEval::constraint_applyer::"
FED = ("arg", "$fed")
DEC = ("arg", "$decls")


def shapes(c):
    e0 = fx.Engine(c.p)

    def mk(v, *fs):
        return e0.mkagg(AE, v, tuple((str(i), x) for i, x in enumerate(fs)))

    def side(s):
        """(term, {clock: coefficient}, {number: coefficient}, depth) of every shape on side s."""
        X, Y, N = ("arg", "$x" + s), ("arg", "$y" + s), ("arg", "$n" + s)
        x, y, n = mk("Clock", X), mk("Clock", Y), mk("Int", N)
        d, a = "Difference", "Addition"
        out = [("n", n, {}, {N: 1}, 1), ("x", x, {X: 1}, {}, 1), ("x-n", mk(d, x, n), {X: 1}, {N: -1}, 1),
               ("n-x", mk(d, n, x), {X: -1}, {N: 1}, 1), ("x+n", mk(a, x, n), {X: 1}, {N: 1}, 1),
               ("n+x", mk(a, n, x), {X: 1}, {N: 1}, 1), ("x-y", mk(d, x, y), {X: 1, Y: -1}, {}, 1),
               ("x+y", mk(a, x, y), {X: 1, Y: 1}, {}, 1),
               ("x+(n-y)", mk(a, x, mk(d, n, y)), {X: 1, Y: -1}, {N: 1}, 2),
               ("x-(y+n)", mk(d, x, mk(a, y, n)), {X: 1, Y: -1}, {N: -1}, 2),
               ("x-(y-n)", mk(d, x, mk(d, y, n)), {X: 1, Y: -1}, {N: 1}, 2),
               ("x-(n-y)", mk(d, x, mk(d, n, y)), {X: 1, Y: 1}, {N: -1}, 2)]
        return out
    return mk, side


def terms(t, sign=1):
    """{leaf: coefficient} of a sum of leaves and numbers."""
    if t[0] == "f" and t[2] == "0" and t[1][0] == "bin":
        t = t[1]
    if t[0] == "k" and type(t[1]) is int:
        return {"": sign * t[1]} if t[1] else {}
    if t[0] == "bin" and t[1] in ("Add", "Sub"):
        out = dict(terms(t[2], sign))
        for l, v in terms(t[3], sign if t[1] == "Add" else -sign).items():
            out[l] = out.get(l, 0) + v
        return {l: v for l, v in out.items() if v}
    if t[0] == "un" and t[1] == "Neg":
        return terms(t[2], -sign)
    return {t: sign}


def expected(op, lc, ln, rc, rn):
    """Set of (i, j, strict, constant) the comparison stands for, or None when it is no difference constraint."""
    co = dict(lc)
    for k, v in rc.items():
        co[k] = co.get(k, 0) - v
    co = {k: v for k, v in co.items() if v}
    kk = dict(rn)
    for k, v in ln.items():
        kk[k] = kk.get(k, 0) - v
    pos, neg = [k for k, v in co.items() if v == 1], [k for k, v in co.items() if v == -1]
    if len(pos) + len(neg) != len(co) or len(pos) > 1 or len(neg) > 1 or not co:
        return None
    i, j = (pos + [("k", 0)])[0], (neg + [("k", 0)])[0]
    up = (i, j, frozenset(kk.items()))
    dn = (j, i, frozenset((k, -v) for k, v in kk.items()))
    return {"LessEQ": {up + (False,)}, "LessT": {up + (True,)}, "GreatEQ": {dn + (False,)}, "GreatT": {dn + (True,)},
            "EQ": {up + (False,), dn + (False,)}}[op]


def constraints_of(e, t, fed):
    """The constraints put on fed in t, or None."""
    out = set()
    while t != fed:
        if t[0] != "call" or not t[2]:
            return None
        n = cname(t)
        if n == "constrain" and len(t[2]) == 4:
            q = t[2][3]
            if q[0] != "agg" or q[2] not in ("LE", "LS"):
                return None
            out.add((t[2][1], t[2][2], frozenset(terms(q[3][0][1]).items()), q[2] == "LS"))
        elif n == "constrain_eq" and len(t[2]) == 3:
            k = terms(t[2][2])
            z = ("k", 0)
            out |= {(t[2][1], z, frozenset(k.items()), False), (z, t[2][1], frozenset((a, -b) for a, b in k.items()), False)}
        elif n == "constrain_eq_diff" and len(t[2]) == 4:
            k = terms(t[2][3])
            out |= {(t[2][1], t[2][2], frozenset(k.items()), False),
                    (t[2][2], t[2][1], frozenset((a, -b) for a, b in k.items()), False)}
        else:
            return None
        t = t[2][0]
    return out


def run(c):
    fn = P + "apply_constraints_to_state"
    rec = [b for b in c.p.bodies if b.startswith(P) and "::test::" not in b]
    mk, side = shapes(c)
    e0 = fx.Engine(c.p)
    ok = lambda t: e0.mkagg("std::result::Result", "Ok", (("0", t),))
    stub = {AE + "::simplify": lambda a: ok(a[0])}
    for s, v in (("ADif", "Difference"), ("AAdd", "Addition"), ("AMul", "Multiplication"), ("ADiv", "Division"),
                 ("AMod", "Modulo")):
        stub[AE + "::" + s] = lambda a, v=v: mk(v, *a)

    def results(op, l, r, depth=5):
        recurse = {b: depth for b in rec + [AE + "::clock_var_count"]}
        g = e0.mkagg(BE, op, (("0", l), ("1", r)))
        e, f = c.entry(fn, (), (g, DEC, FED), recurse=recurse, stub=stub)
        if f is None:
            return None, None
        out = []
        for t, k in e.returns(f):
            for t2, k2, env in deep(e, t, k):
                if t2[0] != "never" and possible(e, k2, env):
                    out.append((t2, k2, env))
        return e, out
    n = 0
    for op in CMP:
        for (ln, lt, lc, lk, ld), (rn, rt, rc, rk, rd) in itertools.product(side("l"), side("r")):
            if ld + rd > 3 or (ld + rd == 3 and "n" not in (ln, rn)) or (
                    op != "LessEQ" and (ld + rd > 2 or not {ln, rn} <= {"n", "x", "x-y", "n-x"} or
                                      not {ln, rn} & {"n", "x"})):
                continue
            if len(lc) + len(rc) > 2 or not lc and not rc:
                continue
            e, res = results(op, lt, rt)
            if e is None:
                return
            n += 1
            want = expected(op, lc, lk, rc, rk)
            what = "%s%s%s" % (ln, {"LessEQ": "<=", "GreatEQ": ">=", "LessT": "<", "GreatT": ">", "EQ": "=="}[op], rn)
            key = "compare-" + what if ld + rd == 2 else "compare-nested-" + (ln if ld == 2 else rn)
            good = 0
            seen = set()
            for t, k, env in res:
                if t[0] == "failed" or t[0] == "agg" and t[2] == "Err":
                    continue
                if t[0] == "agg" and t[2] == "Ok":
                    t = t[3][0][1]
                    if t == FED and any(a[0] == "is" and a[2] is True and a[1][0] == "call" and cname(a[1]) == "is_empty"
                                        and a[1][2] == (FED,) for a in k):
                        continue      # nothing left to constrain
                got = constraints_of(e, t, FED)
                if got == want and want is not None:
                    good += 1
                elif got is None or t not in seen:
                    seen.add(t)
                    c.viol("table", key, "the guard %s gives %s" % (what, show(t)), "")
            if want is not None and ld + rd == 2:
                c.oblige(good, key, "", "the guard %s is not applied" % what)
            elif not seen:
                c.oblige(True, key, "", "")
    c.floor(n, 60, "compare", "comparisons")
    connectives(c, fn)
    names(c, mk, results)
    arithmetic(c)
    updates(c)


def connectives(c, fn):
    h = fn + "_helper"
    names = [x for x in (h, fn) if x in c.p.bodies]
    for v, e, f, fs in arms(c, names[0] if names else fn, BE, names or [fn]):
        if v in CMP:
            continue
        key = "apply-" + v
        dec, fed = ("arg", f.body.locals[2]["n"]), ("arg", f.body.locals[3]["n"])

        def app(t, g, on):
            while t[0] == "v" and t[2] == "Ok":
                t = t[1]
            return t[0] == "call" and t[1] in names and t[2][0] == g and t[2][1] == dec and on(t[2][2])

        def fine(t, k):
            if v == "AndOp":
                # fed, left then right or right then left
                return any(app(t, fs[i], lambda u: app(u, fs[1 - i], lambda w: w == fed)) for i in (0, 1))
            if v == "OrOp":
                if t[0] == "agg" and t[2] == "Ok":
                    t = t[3][0][1]
                if t[0] == "bin" and t[1] == "Add":
                    xs = t[2:]
                elif t[0] == "call" and cname(t) in ("add", "append", "union") and len(t[2]) == 2:
                    xs = t[2]
                else:
                    return False
                return any(app(xs[0], fs[i], lambda w: w == fed) and app(xs[1], fs[1 - i], lambda w: w == fed)
                           for i in (0, 1))
            if t[0] == "agg" and t[2] == "Ok":
                t = t[3][0][1]
            val = [a[2] for a in k if a[0] == "is" and a[1] == fs[0] and a[2] in (True, False)]
            if len(set(val)) != 1:
                return False
            return t == fed if val[0] else t[0] == "call" and cname(t) in ("set_empty", "empty") or \
                t[0] == "call" and cname(t) == "empty"
        good = 0
        for t, k in e.returns(f):
            for t2, k2, env in deep(e, t, k):
                if t2[0] in ("failed", "never") or t2[0] == "agg" and t2[2] == "Err" or not possible(e, k2, env):
                    continue
                if any(a[0] == "is" and a[2] is True and a[1][0] == "call" and cname(a[1]) == "is_empty" and
                       a[1][2] == (fed,) for a in k2) and ok_of(t2) == fed:
                    continue
                if v == "Bool" and not any(a[0] == "is" and a[1] == fs[0] for a in k2):
                    c.oblige(False, key, "", "%s gives %s" % (v, show(t2)))
                    continue
                if any(a[0] == "is" and a[1] == t2 and a[2] == "Err" for a in k2):
                    continue
                good += 1
                c.oblige(fine(t2, k2), key, "", "%s gives %s" % (v, show(t2)))
        c.oblige(good >= (2 if v == "Bool" else 1), key + "-some", "", "%s is not applied" % v)


def ok_of(t):
    return t[3][0][1] if t[0] == "agg" and t[2] == "Ok" else t


def names(c, mk, results):
    """A name is the clock declared under it, else the number declared under it."""
    nm = ("arg", "$name")
    X, N = ("arg", "$x"), ("arg", "$n")
    var = mk("VarName", nm)

    def found(t, coll):
        while t[0] == "call" and cname(t) in ("unwrap", "copied", "cloned", "deref") or t[0] == "v" and t[2] == "Some":
            t = t[1] if t[0] == "v" else t[2][0]
        at = ("f", DEC, coll)
        return t[0] == "idx" and t[1] == at and core_str(t[2]) == nm or \
            t[0] == "call" and cname(t) == "get" and t[2][0] == at and core_str(t[2][1]) == nm

    def core_str(t):
        while t[0] == "call" and cname(t) in TEXTID and len(t[2]) == 1:
            t = t[2][0]
        return t
    for what, l, r in (("name<=n", var, mk("Int", N)), ("x<=name", mk("Clock", X), var)):
        e, res = results("LessEQ", l, r, 2)
        if e is None:
            return
        got = set()
        for t, k, env in res:
            if t[0] == "failed" or t[0] == "agg" and t[2] == "Err" or ok_of(t) == FED:
                continue
            cs = constraints_of(e, ok_of(t), FED)
            kind = None
            if cs is not None and len(cs) == 1:
                i, j, kk, st = next(iter(cs))
                kk = dict(kk)
                if what == "name<=n":
                    if found(i, "clocks") and j == ("k", 0) and kk == {N: 1}:
                        kind = "clock"
                elif i == X and found(j, "clocks") and not kk:
                    kind = "clock"
                elif i == X and j == ("k", 0) and len(kk) == 1 and found(next(iter(kk)), "ints") and \
                        list(kk.values()) == [1]:
                    kind = "int"
                    none = any(a[0] == "is" and a[2] == "None" and "clocks" in show(a[1]) for a in k)
                    c.oblige(none, "name-int-first", "", "a name is taken for a number although it is a clock")
            if c.oblige(kind, "name-" + what, "", "with a name, %s gives %s" % (what, show(t))):
                got.add(kind)
        c.oblige(got == ({"clock"} if what == "name<=n" else {"clock", "int"}), "name-%s-all" % what, "",
                 "with a name, %s is applied only to %s" % (what, sorted(got)))


def arithmetic(c):
    fn = P + "get_const"
    if fn not in c.p.bodies:
        return
    n = 0
    for v, e, f, fs in arms(c, fn, AE):
        n += 1
        dec = ("arg", f.body.locals[2]["n"])
        for t, k in e.returns(f):
            for t2, k2 in expand(e, t, k):
                if t2[0] == "f" and t2[2] == "0" and t2[1][0] == "bin":
                    t2 = t2[1]
                if v in ARI:
                    op = {"Difference": "Sub", "Addition": "Add", "Multiplication": "Mul", "Division": "Div",
                          "Modulo": "Rem"}[v]
                    want = [("call", fn, (x, dec), None) for x in fs]
                    ok = t2[0] == "bin" and t2[1] == op and (list(t2[2:]) == want or
                                                             op in ("Add", "Mul") and list(t2[3:1:-1]) == want)
                elif v == "Int":
                    ok = t2 == fs[0]
                elif v == "Clock":
                    ok = t2 == ("k", 0)
                else:
                    ok = t2 == ("k", 0) or fx.mentions(t2, ("f", dec, "ints")) and fx.mentions(t2, fs[0])
                c.oblige(ok, "const-" + v, "", "the number in %s is %s" % (v, show(t2)))
    c.floor(n, 8, "const", "kinds of arithmetic evaluated")


def updates(c):
    U = "EdgeEval::updater::CompiledUpdate::"
    for fn, call, args in (("apply", "update_clock_val", ("clock_index", "value")), ("apply_as_free", "free_clock",
                           ("clock_index",)), ("apply_as_guard", "constrain_eq", ("clock_index", "value"))):
        e, f = c.entry(U + fn)
        if f is None:
            continue
        me, fed = ("arg", f.body.locals[1]["n"]), ("arg", f.body.locals[2]["n"])
        for t, k in e.returns(f):
            for t2, k2 in expand(e, t, k):
                ok = t2[0] == "call" and cname(t2) == call and t2[2] == (fed,) + tuple(("f", me, a) for a in args)
                c.oblige(ok, "update-" + fn, "", "%s gives %s" % (fn, show(t2)))
    e, f = c.entry(U + "compile")
    if f is not None:
        up, dec = ("arg", f.body.locals[1]["n"]), ("arg", f.body.locals[2]["n"])
        n = 0
        for t, k in e.returns(f):
            for t2, k2 in expand(e, t, k):
                if t2[0] == "never":
                    continue
                n += 1
                d = dict(t2[3]) if t2[0] == "agg" else {}
                i, v = d.get("clock_index"), d.get("value")
                ok = i is not None and v is not None and v[0] == "v" and v[2] == "Int" and \
                    v[1] == ("f", up, "expression")
                while ok and (i[0] == "call" and cname(i) in ("unwrap", "copied", "cloned", "expect", "unwrap_or_else") or
                              i[0] == "v" and i[2] == "Some"):
                    i = i[1] if i[0] == "v" else i[2][0]
                ok = ok and (i[0] == "idx" and i[1] == ("f", dec, "clocks") and i[2] == ("f", up, "variable") or
                             i[0] == "call" and cname(i) == "get" and i[2] == (("f", dec, "clocks"), ("f", up, "variable")))
                c.oblige(ok, "update-compile", "", "an assignment is compiled to %s" % show(t2))
        c.oblige(n, "update-compile-some", "", "no assignment is compiled")
