from exprs import *

TITLE = "traversals of expressions reach every operand"
EXPLAIN = ("Each recursive function over guards and arithmetic is evaluated abstractly at every constructor, giving one "
           "recursion equation each; the rule asks for both operands in every equation of a binary operator, the "
           "right answer at the leaves.")


def run(c):
    for fids, t, v, e, f, fs in sides(c, "has_varname"):
        key = "has-" + v
        nm = ("arg", f.body.locals[2]["n"])
        if v == "VarName":
            for val in (True, False):
                for r, k in e.returns(f):
                    for kk in truth_cases(e, r, val, k):
                        eq = [a for a in kk if a[0] == "is" and a[1][0] == "bin" and a[1][1] == "Eq" and
                              set(a[1][2:]) == {fs[0], nm}]
                        c.oblige(any(a[2] is val for a in eq), key, "", "a variable has name %s it is not called" % val)
        else:
            disj(c, e, f, fids, fs if v in CMP + CON + ARI else [], key, "has_varname of " + v, False)
    for fn, o, n in (("swap_var_name", 1, 2), ("replace_varname", 1, 2)):
        for fids, t, v, e, f, fs in sides(c, fn):
            key = "%s-%s" % (fn, v)
            st = [x for x in e.events(f) if x.name == "@store"]
            if v in CMP + CON + ARI:
                visit(c, e, f, fids, fs, key, "%s of %s" % (fn, v))
            if v == "VarName":
                old, new = (("arg", f.body.locals[i + 1]["n"]) for i in (o, n))
                ok = c.oblige(len(st) == 1 and st[0].args[0] == fs[0] and st[0].args[1] == new, key, "",
                              "a variable is not given the new name")
                if ok:
                    gs = conds(e, st[0])
                    c.oblige(len(gs) == 1 and all(iseq(a, fs[0], old) for a in gs), key + "-if", st[0].where,
                             "a variable is renamed under another condition than having the old name")
            else:
                c.oblige(not st, key + "-else", "", "%s changes %s" % (fn, v))
    for fids, t, v, e, f, fs in sides(c, "swap_clock_names"):
        key = "swap-clocks-" + v
        if v == "Clock":
            continue
        rs = [r for r, k in e.returns(f)]
        c.oblige(rs, key + "-some", "", "nothing comes of %s" % v)
        frm, to = (("arg", f.body.locals[i + 1]["n"]) for i in (1, 2))
        for r in rs:
            if v in CMP + CON + ARI:
                ok = r[0] == "agg" and r[2] == v and len(r[3]) == 2 and all(
                    y[0] == "call" and y[1] in fids and y[2] == (x, frm, to) for x, (_, y) in zip(fs, r[3]))
            elif v == "VarName":
                ok = r[0] == "agg" and r[2] == v and lookup(r[3][0][1], to, lookup_t(frm, fs[0]))
            else:
                ok = r == e.mkagg(t, v, (("0", fs[0]),)) or r == ("arg", "self")
            c.oblige(ok, key, "", "%s becomes %s" % (v, show(r)))
    cnt = AE + "::clock_var_count"
    n = 0
    for v, e, f, fs in arms(c, cnt, AE):
        n += 1
        for r, k in e.returns(f):
            got = summands(e, r)
            if v in ARI:
                ok = sorted(got, key=repr) == sorted([("call", cnt, (x,)) for x in fs], key=repr)
            else:
                ok = got == ([("k", 1)] if v in ("Clock", "VarName") else [])
            c.oblige(ok, "count-" + v, "", "the number of clocks in %s is %s" % (v, show(r)))
    c.floor(n, 8, "count", "kinds of arithmetic counted")
    constraints(c)


def lookup_t(m, k):
    return lambda t: lookup(t, m, lambda z: z == k)


def lookup(t, m, k):
    """t is m[k]: an indexed or looked-up element."""
    while True:
        if t[0] == "call" and cname(t) in ("unwrap", "clone", "expect", "deref", "to_string", "cloned") and t[2]:
            t = t[2][0]
        elif t[0] == "v" and t[2] == "Some":
            t = t[1]
        else:
            break
    if t[0] == "call" and cname(t) in ("get", "index") and len(t[2]) == 2:
        return t[2][0] == m and k(t[2][1])
    return t[0] == "idx" and t[1] == m and k(t[2])


def summands(e, t):
    if t[0] == "f" and t[2] == "0" and t[1][0] == "bin":
        t = t[1]
    if t[0] == "bin" and t[1] == "Add":
        return summands(e, t[2]) + summands(e, t[3])
    if t[0] == "call":
        if cname(t) == "sum" and t[2][0][0] == "call" and cname(t[2][0]) == "map":
            els = e.arr_elems(t[2][0][2][0])
            if els:
                return [y for x in els for y in summands(e, e.apply(t[2][0][2][1], [x], t[3]))]
        return [("call", t[1], t[2])]
    return [] if t == ("k", 0) else [t]
