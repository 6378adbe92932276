import grammar
from exprs import *

TITLE = "saved expressions are read back as they were"
EXPLAIN = ("The printer is taken apart into one text template per operator; the reader into the table from grammar rules "
           "to operators, the literals of those rules and the operator precedence. The rule asks that the tables are "
           "inverse, and that an operand is bare only where the precedence gives the same tree back.")
MOD = "DataReader::parse_edge"
TOK = {"Difference": "-", "Addition": "+", "Multiplication": "*", "Division": "/", "Modulo": "%", "LessEQ": "<=",
       "GreatEQ": ">=", "LessT": "<", "GreatT": ">", "EQ": "==", "AndOp": "&&", "OrOp": "||"}


def run(c):
    g = grammar.load(c, "src/DataReader/grammars/edge_grammar.pest")
    prec = grammar.pratt(c, MOD)
    if g is None or prec is None:
        return
    ops = {}      # variant -> rule
    opaque = [MOD + "::" + x for x in ("parse_bool_expr", "parse_arith_expr", "parse_comparison", "parse_update")]
    fb, fa, fc, fu = opaque
    prims = {}
    for fn in (fb, fa):
        e, f = c.entry(fn, opaque)
        if f is None:
            return
        tb = grammar.table(e, f, "map_infix")
        if not c.oblige(tb, "infix-" + last(fn), "", "%s has no table of operators" % fn):
            return
        for rules, t, k in tb:
            if t[0] == "never":
                continue
            ok = t[0] == "agg" and len(t[3]) == 2 and [x for _, x in t[3]] == [("arg", "$L"), ("arg", "$R")] and \
                len(rules) == 1
            if c.oblige(ok, "infix-%s-%s" % (last(fn), "/".join(sorted(rules))), "",
                        "the operator %s reads as %s" % ("/".join(sorted(rules)), show(t))):
                ops.setdefault(t[2], set()).update(rules)
        tb = grammar.table(e, f, "map_primary")
        if not c.oblige(tb, "primary-" + last(fn), "", "%s has no table of operands" % fn):
            return
        for rules, t, k in tb:
            for r in rules:
                prims.setdefault((fn, r), []).append((t, k))
    e, f = c.entry(fc, opaque)
    if f is None:
        return
    kids = ("call", "into_inner", (("arg", f.body.locals[1]["n"]),))

    def kid(t, i):
        t = unwrapped(t)
        return (t[0] == "idx" and t[2] == ("k", i) or t[0] == "elem") and t[1][0] == "call" and \
            cname(t[1]) == "into_inner" and t[1][2] == kids[2]
    for t, k in e.returns(f):
        if t[0] == "never":
            continue
        rules = {a[2] for a in k if a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "as_rule" and
                 kid(a[1][2][0], 1)}
        ok = t[0] == "agg" and len(t[3]) == 2 and len(rules) == 1 and all(
            x[0] == "call" and x[1] == fa and kid(x[2][0], i) for (_, x), i in zip(t[3], (0, 2)))
        if c.oblige(ok, "compare-" + "/".join(sorted(rules)), "", "the comparison %s reads as %s" % (
                "/".join(sorted(rules)), show(t))):
            ops.setdefault(t[2], set()).update(rules)
    back = {}
    for v in ARI + CMP + CON:
        rs = sorted(ops.get(v, ()))
        lits = [x for r in rs for x in grammar.literals(g, r) or ()]
        c.oblige(TOK[v] in lits and len(set(lits)) == 1, "token-" + v, "",
                 "%s is written %s but read from %s" % (v, TOK[v], lits))
        for r in rs:
            back.setdefault(r, set()).add(v)
    for r, vs in back.items():
        c.oblige(len(vs) == 1, "rule-" + r, "", "%s is read as %s" % (r, sorted(vs)))
    # operands
    def prim(fn, r, ok, what):
        xs = [x for x in prims.get((fn, r), []) if x[0][0] != "never"]
        c.oblige(xs and all(ok(t) for t, _ in xs), "primary-%s-%s" % (last(fn), r), "", "%s is not read as %s" % (r, what))
    P = ("arg", "$P")
    rec = lambda fn: lambda t: t[0] == "call" and t[1] == fn and t[2] == (P,)
    prim(fb, "boolExpr", rec(fb), "the expression in it")
    prim(fb, "comparison", rec(fc), "a comparison")
    for r, v in (("bool_true", True), ("bool_false", False)):
        prim(fb, r, lambda t: t[0] == "agg" and t[2] == "Bool" and t[3][0][1] == ("k", v), str(v).lower())
        c.oblige(grammar.literals(g, r) == [str(v).lower()], "token-" + r, "", "%s is written %s" % (r, str(v).lower()))
    prim(fa, "arithExpr", rec(fa), "the expression in it")
    txt = lambda t: stripped(t) == P
    prim(fa, "variable", lambda t: t[0] == "agg" and t[2] == "VarName" and txt(t[3][0][1]), "that variable")
    prim(fa, "int", lambda t: t[0] == "agg" and t[2] == "Int" and parsed(t[3][0][1], txt), "that number")
    for r in ("boolTerm", "arithTerm"):
        inner = "boolExpr" if r == "boolTerm" else "arithExpr"
        c.oblige(r in g and ("seq", ("lit", "("), ("ref", inner), ("lit", ")")) in grammar.choice(g, r), "paren-" + r, "",
                 "parentheses are not read in a %s" % r)
    # literals shadowed by an earlier alternative
    for r in ("bool_op", "arith_op", "compare_op"):
        if r not in g:
            continue
        seen = []
        for x in grammar.choice(g, r):
            for l in (grammar.literals(g, x[1]) or () if x[0] == "ref" else ()):
                c.oblige(not any(l != p and l.startswith(p) for p in seen), "shadow-" + l, "",
                         "%s can never be read: %s comes first" % (l, seen))
                seen.append(l)
    same = {}
    for v in ARI + CON:
        for r in ops.get(v, ()):
            if c.oblige(r in prec, "prec-" + v, "", "the operator %s has no precedence" % r):
                same[v] = prec[r]
    # printer
    fids = ["%s::encode_expr" % t for t in (BE, AE)]
    atoms_ = ("Clock", "VarName", "Int", "Bool")
    n = 0
    for t, fid in zip((BE, AE), fids):
        vs = [v["name"] for v in c.p.adts.get(t) or []]
        for v, e, f, fs in arms(c, fid, t, fids):
            n += 1
            tx = texts(e, f)
            if not c.oblige(tx, "write-" + v, "", "nothing is written for %s" % v):
                continue
            for k, m in tx:
                if v in TOK:
                    binary(c, e, t, v, fs, k, m, fids, vs, same, c.p)
                elif v == "Bool":
                    s = ["", ""]
                    val = [a[2] for a in k if a[0] == "is" and a[1] == fs[0]]
                    if m and isinstance(m[0], str):
                        c.oblige(len(m) == 1 and val and m[0] == str(val[0]).lower(), "write-Bool", "",
                                 "%s is written as %s" % (val, m))
                    else:
                        c.oblige(len(m) == 1 and m[0][1] == "display" and m[0][2] == fs[0], "write-Bool", "",
                                 "a constant is written as %s" % shown(m))
                elif v == "VarName":
                    c.oblige(len(m) == 1 and not isinstance(m[0], str) and stripped(m[0][2]) == fs[0], "write-VarName", "",
                             "a variable is written as %s" % shown(m))
                elif v == "Int":
                    number(c, e, fs[0], k, m)
    c.floor(n, 16, "write", "kinds of expressions written")
    updates(c, g)


def shown(m):
    return " ".join(x if isinstance(x, str) else show(x[2]) for x in m)


def stripped(t):
    while t[0] == "call" and cname(t) in TEXTID and len(t[2]) == 1:
        t = t[2][0]
    return t


def unwrapped(t):
    while t[0] == "call" and cname(t) in ("unwrap", "expect", "clone") and t[2]:
        t = t[2][0]
    return t


def parsed(t, txt):
    """t is the number some text reads as."""
    while True:
        if t[0] == "v" and t[2] == "Ok":
            t = t[1]
        elif t[0] == "call" and cname(t) in ("unwrap", "expect") and t[2]:
            t = t[2][0]
        else:
            break
    return t[0] == "call" and cname(t) in ("parse", "from_str") and txt(t[2][0])


def signs(k, x):
    """What is known about x < 0: "neg", "pos" or None."""
    for a in k:
        if a[0] != "is" or a[1][0] != "bin" or a[2] not in (True, False):
            continue
        op, l, r = a[1][1:]
        if op in ("Lt", "Ge") and l == x and r == ("k", 0) or op in ("Gt", "Le") and r == x and l == ("k", 0):
            return "neg" if (op in ("Lt", "Gt")) == a[2] else "pos"
        if op in ("Ge", "Lt") and r == x and l == ("k", 0):
            return None
    for a in k:
        if a[0] == "is" and a[1][0] == "call" and cname(a[1]) in ("is_negative", "is_positive") and a[1][2] == (x,):
            if cname(a[1]) == "is_negative":
                return "neg" if a[2] else "pos"
            if a[2]:
                return "pos"
    return None


def number(c, e, x, k, m):
    s = signs(k, x)
    if len(m) == 1:
        c.oblige(not isinstance(m[0], str) and m[0][2] == x, "write-Int", "", "a number is written as %s" % shown(m))
        c.oblige(s == "pos", "write-Int-neg", "", "a negative number is written with a sign, which cannot be read")
        return
    ok = len(m) == 3 and m[0] == "(0-" and m[2] == ")" and not isinstance(m[1], str)
    if ok:
        t = m[1][2]
        ok = t[0] == "call" and cname(t) in ("unsigned_abs", "abs") and t[2] == (x,) or t == ("un", "Neg", x)
    c.oblige(ok and s == "neg", "write-Int", "", "a number is written as %s" % shown(m))


def binary(c, e, t, v, fs, k, m, fids, vs, same, p):
    """A template of a binary operator: both operands in order around the token."""
    i = 0
    got = []
    toks = []
    txt = ""
    for x in m:
        if isinstance(x, str):
            txt += x
        else:
            toks.append(txt)
            txt = ""
            got.append(x[2])
    toks.append(txt)
    key = "write-" + v
    # an operand of a comparison may have been written in place
    if v in CMP:
        ok = len(got) == 2 and toks[0].strip() == "" == toks[2].strip() and toks[1].strip() == TOK[v]
        if not ok:
            ok = len(got) == 2 and [toks[0].strip(), toks[1].replace(" ", ""), toks[2].strip()] == [
                "(", ")%s(" % TOK[v], ")"]
        c.oblige(ok and [whole(x, fids) for x in got] == list(fs), key, "",
                 "%s is written as %s" % (v, shown(m)))
        return
    ok = c.oblige(len(got) == 2 and [whole(x, fids) for x in got] == list(fs), key, "",
                  "%s is written as %s" % (v, shown(m)))
    if not ok:
        return
    a, b, d = (x.replace(" ", "") for x in toks)
    lp, rp = a == "(", d == ")"
    want = (")" if lp else "") + TOK[v] + ("(" if rp else "")
    if not c.oblige(a in ("", "(") and d in ("", ")") and b == want, key + "-text", "",
                    "%s is written as %s" % (v, shown(m))):
        return
    kinds = ARI if t == AE else CON
    for x, bare, side in ((fs[0], not lp, 0), (fs[1], not rp, 1)):
        if not bare:
            continue
        for w in known_variants(e, k, x, vs):
            if w not in kinds or any(q == ("isnt", x, w) for q in k) or (w == v and v in CON):
                continue
            if v not in same or w not in same:
                continue
            (lv, la), (lw, _) = same[v], same[w]
            fine = lw > lv or (lw == lv and (la == "Left") == (side == 0))
            c.oblige(fine, "%s-bare-%s-%d" % (key, w, side), "",
                     "%s is written bare on side %d of %s and is read back as part of another operand" % (w, side, v))


def whole(t, fids):
    t = stripped(t)
    return t[2][0] if t[0] == "call" and t[1] in fids and len(t[2]) == 1 else t


def updates(c, g):
    fu = MOD + "::parse_update"
    fa = MOD + "::parse_arith_expr"
    simp = AE + "::simplify"
    e, f = c.entry(fu, [fa, simp])
    if f is None:
        return
    arg = ("arg", f.body.locals[1]["n"])

    def kid(t, i):
        t = unwrapped(t)
        return (t[0] == "idx" and t[2] == ("k", i) or t[0] == "elem") and t[1][0] == "call" and \
            cname(t[1]) == "into_inner" and t[1][2] == (arg,)
    for t, k in e.returns(f):
        if t[0] == "never":
            continue
        d = dict(t[3]) if t[0] == "agg" else {}
        n, x = d.get("variable"), d.get("expression")
        ok = n is not None and x is not None
        if ok:
            ok = kid(stripped(n), 0)
            while x[0] == "v" and x[2] == "Ok" or x[0] == "call" and cname(x) in ("unwrap", "expect"):
                x = x[1] if x[0] == "v" else x[2][0]
            if x[0] == "call" and x[1] == simp:
                x = x[2][0]
            ok = ok and x[0] == "call" and x[1] == fa and kid(x[2][0], 1)
        c.oblige(ok, "update", "", "an assignment is read as %s" % show(t))
    fn = MOD + "::parse_updates"
    e, f = c.entry(fn, [fu])
    if f is not None:
        ps = [x for x in c.events(e, f) if last(x.name) == "push"]
        rs = [(t, k) for t, k in e.returns(f) if t[0] != "never"]
        n = 0
        for t, k in rs:
            for t2, k2 in expand(e, t, k):
                if t2[0] == "agg" and t2[2] == "Ok":
                    v = t2[3][0][1]
                    if v[0] == "call" and cname(v) == "new" or v[0] == "array" and not v[1]:
                        continue
                    n += 1
                    reads(c, e, f, v, fu, ps)
        c.oblige(n, "updates", "", "no assignments are read")
    gd = MOD + "::parse_guard"
    fb = MOD + "::parse_bool_expr"
    e, f = c.entry(gd, [fb])
    if f is not None:
        got = set()
        for t, k in e.returns(f):
            for t2, k2 in expand(e, t, k):
                if t2[0] != "agg" or t2[2] != "Ok":
                    continue
                for v, k3 in expand(e, t2[3][0][1], k2):
                    if v[0] == "agg":
                        got.add("true" if v[2] == "Bool" and v[3][0][1] == ("k", True) else show(v))
                    elif v[0] == "call" and v[1] == fb:
                        got.add("expr")
                    elif v[0] != "never":
                        got.add(show(v))
        c.oblige(got == {"true", "expr"}, "guard", "", "a guard is read as %s" % sorted(got))
    en = "DataReader::serialization::encode_opt_updates"
    fx_ = AE + "::encode_expr"
    e, f = c.entry(en, [fx_])
    if f is not None:
        tx = [(x, textify(e, a, x.K)) for x in c.events(e, f) for a in x.args[1:2] if last(x.name) == "serialize_str"]
        c.floor(len(tx), 1, "encode-updates", "texts of updates written")
        commas(c, e, f)
        if not chained(c, e, f, fx_):
            c.viol("encode-updates", "", "assignments are not written one after the other with a comma between them")


def reads(c, e, f, v, fu, ps):
    """v holds parse_update of each assignment."""
    if v[0] == "acc":
        mine = [x for x in ps if x.args[0] == v]
        ok = len(mine) == 1 and mine[0].args[1][0] == "call" and mine[0].args[1][1] == fu
        if c.oblige(ok, "updates-all", "", "the assignments kept are not the ones read"):
            x = mine[0]
            bad = [a for a in conds(e, x) if not (a[0] in ("is", "isnt") and a[1][0] == "call" and cname(a[1]) == "as_rule") and
                   not (a[0] == "is" and a[2] in ("Some", "Ok"))]
            c.oblige(not bad, "updates-if", x.where, "an assignment is kept only if %s" % "; ".join(show(a) for a in bad)[:160])
    else:
        el = e.elem(v)
        c.oblige(el[0] == "call" and el[1] == fu or el[0] == "phi" and any(
            y[0] == "call" and y[1] == fu for y, _ in expand(e, el)), "updates-all", "",
            "the assignments kept are %s" % show(v)[:120])


def chained(c, e, f, fx_):
    """Everything the text is put together from, in the order it is put together in."""
    name = [x for x in c.events(e, f) if last(x.name) in ("add", "push_str", "concat", "join", "push", "serialize_str",
                                                          "write_str", "write_fmt")]
    ok = False
    for x in name:
        for a in list(x.args) + [e.elem(a) for a in x.args if a[0] == "call" and a[1].startswith("@map")]:
            for k, m in textify(e, a, x.K):
                m = joined(m)
                for i in range(len(m) - 2):
                    if not isinstance(m[i], str) and isinstance(m[i + 1], str) and not isinstance(m[i + 2], str) and \
                            m[i + 1].replace(" ", "") in ("=", ":="):
                        u, w = stripped(m[i][2]), stripped(m[i + 2][2])
                        if u[0] == "f" and u[2] == "variable" and w == ("call", fx_, (("f", u[1], "expression"),), None):
                            ok = True
    return ok


def commas(c, e, f):
    """A comma separates the assignments: written between any two of them."""
    found = []
    for x in e.events(f):
        if last(x.name) not in ("add", "push_str", "push", "concat", "join", "write_str", "write_fmt", "add_assign",
                                "intersperse", "serialize_str"):
            continue
        for a in x.args:
            if any("," in p for k, m in textify(e, a, x.K) for p in m if isinstance(p, str)) or a == ("k", ","):
                found.append(x)
    if not c.oblige(found, "encode-comma", "", "no comma is written between assignments"):
        return
    for x in found:
        for a in conds(e, x):
            if a[0] != "is" or a[1][0] != "bin" or a[2] not in (True, False):
                continue
            op, l, r = a[1][1:]
            first = [y for y in (l, r) if y == ("k", 0)]
            posn = [y for y in (l, r) if y[0] == "pos"]
            if not posn:
                continue
            # only the first / only the last one would get the comma
            bad = op == "Eq" and a[2] is True or op == "Ne" and a[2] is False or \
                (op in ("Gt", "Ge") and l[0] == "pos" and first and a[2] is False) or \
                (op in ("Gt",) and l[0] == "pos" and not first and a[2] is True)
            c.oblige(not bad, "encode-comma-where", x.where, "the comma is written only if %s" % show(a))
            if not first and op in ("Lt", "Le", "Ne", "Eq") and not bad:
                # up to, not including, the last one
                n = r if l[0] == "pos" else l
                d = lenminus(n)
                c.oblige(d is None or d <= 1 or (op == "Le" and d <= 2), "encode-comma-all", x.where,
                         "the comma is missing between later assignments: %s" % show(a))


def lenminus(t):
    if t[0] == "f" and t[2] == "0" and t[1][0] == "bin":
        t = t[1]
    if t[0] == "bin" and t[1] == "Sub" and t[3][0] == "k" and "len" in show(t[2]):
        return t[3][1]
    return 0 if t[0] == "call" and cname(t) == "len" else None
