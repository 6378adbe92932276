from exprs import *
import fx

TITLE = "simplification keeps the value of expressions"
EXPLAIN = ("The step that lifts a clock out of an expression is evaluated abstractly at every operator, for either operand "
           "and every way the operand's own clock was lifted; what is lifted and what is left behind, put together the "
           "way the simplifier does, must be the linear form of the expression. The step that folds numbers, the one "
           "that folds truth values, the constructors and the putting together are compared with the operators.")
MV = AE + "::move_clock_and_vars"
CL = AE + "::clone_expr"
CNT = AE + "::clock_var_count"
SH = AE + "::simplify_helper"
OP = "ModelObjects::Expressions::arith_expression::Operation"
CT = {"Difference": "ADif", "Addition": "AAdd", "Multiplication": "AMul", "Division": "ADiv", "Modulo": "AMod"}
OF = {"Difference": "Dif", "Addition": "Add", "Multiplication": "Mul", "Division": "Div", "Modulo": "Mod"}
BIN = {"Difference": "Sub", "Addition": "Add", "Multiplication": "Mul", "Division": "Div", "Modulo": "Rem"}


def run(c):
    folding(c)
    truths(c)
    constructors(c)
    refusal(c)
    lifting(c)
    together(c)


def bare(t):
    while t[0] == "call" and cname(t) in ("clone", "new", "into", "from", "deref", "as_ref", "to_owned") and len(t[2]) == 1:
        t = t[2][0]
    return t


def num(t, x):
    """t is the number that x is."""
    t = bare(t)
    return t[0] == "v" and t[1] == x and t[2] == "Int"


def stores(e, f):
    return [x for x in e.events(f) if x.name == "@store"]


def folding(c):
    n = 0
    for v, e, f, fs in arms(c, SH, AE, [SH]):
        me = e.mkagg(AE, v, tuple((str(i), x) for i, x in enumerate(fs)))
        for x in stores(e, f):
            if x.args[0] != me:
                c.oblige(False, "fold-" + v, x.where, "folding %s changes %s" % (v, show(x.args[0])))
                continue
            for t, k, env in deep(e, x.args[1], x.K):
                n += 1
                b = t[3][0][1] if t[0] == "agg" and t[2] == "Int" else None
                if b is not None and b[0] == "f" and b[2] == "0":
                    b = b[1]
                ok = v in ARI and b is not None and b[0] == "bin" and b[1] == BIN[v] and (
                    num(b[2], fs[0]) and num(b[3], fs[1]) or
                    v in ("Addition", "Multiplication") and num(b[2], fs[1]) and num(b[3], fs[0]))
                c.oblige(ok, "fold-" + v, x.where, "%s of two numbers becomes %s" % (v, show(t)))
    c.floor(n, 5, "fold", "operators folded")


def truths(c):
    bh = BE + "::simplify_helper"
    n = 0
    for v, e, f, fs in arms(c, bh, BE, [bh, AE + "::simplify"]):
        me = e.mkagg(BE, v, tuple((str(i), x) for i, x in enumerate(fs)))
        for x in stores(e, f):
            if x.args[0] in fs and v in CMP:
                for t, k, env in deep(e, x.args[1], x.K):
                    while t[0] == "v" and t[2] == "Ok" or t[0] == "call" and cname(t) in ("unwrap", "expect"):
                        t = t[1] if t[0] == "v" else t[2][0]
                    ok = t[0] == "call" and t[1] == AE + "::simplify" and t[2][0] == x.args[0]
                    c.oblige(ok, "truth-side-" + v, x.where, "an operand of %s becomes %s" % (v, show(t)))
                continue
            if x.args[0] != me:
                c.oblige(False, "truth-" + v, x.where, "simplifying %s changes %s" % (v, show(x.args[0])))
                continue
            for t, k, env in deep(e, x.args[1], x.K):
                if not possible(e, k, env):
                    continue
                n += 1
                c.oblige(truth(e, v, fs, bare(t), k), "truth-" + v, x.where, "%s becomes %s" % (v, show(t)))
    c.floor(n, 9, "truth", "connectives and comparisons folded")


def known(k, x, val):
    """K says that x is the truth value val."""
    b = ("v", x, "Bool", "0")
    lit = lambda t: t[0] == "agg" and t[2] == "Bool" and t[3][0][1] == ("k", val)
    return any(a[0] == "is" and (a[1] == b and a[2] is val or
                                 a[1][0] == "bin" and a[1][1] == "Eq" and a[2] is True and x in a[1][2:] and any(lit(y) for y in a[1][2:]))
               for a in k)


def truth(e, v, fs, t, k):
    val = t[3][0][1] if t[0] == "agg" and t[2] == "Bool" else None
    if v in CON:
        strong = v == "OrOp"          # the operand that decides
        if val is not None:
            if val[0] == "k":
                return val[1] is strong and any(known(k, x, strong) for x in fs) or \
                    val[1] is not strong and all(known(k, x, not strong) for x in fs)
            a, b = (("v", x, "Bool", "0") for x in fs)
            return val[0] == "bin" and val[1] == ("BitOr" if strong else "BitAnd") and set(val[2:]) == {a, b}
        return any(t == fs[i] and known(k, fs[1 - i], not strong) for i in (0, 1))
    if v not in CMP or val is None or val[0] != "bin" and val[0] != "un":
        return False
    neg = False
    while val[0] == "un" and val[1] == "Not":
        val, neg = val[2], not neg

    def side(y):
        y = bare(y)
        if y[0] != "v" or y[2] != "Int":
            return None
        z = y[1]
        while z[0] == "v" and z[2] == "Ok" or z[0] == "call" and cname(z) in ("simplify", "unwrap", "expect"):
            z = z[1] if z[0] == "v" else z[2][0]
        return fs.index(z) if z in fs else None
    if val[0] != "bin":
        return False
    o, a, b = val[1], side(val[2]), side(val[3])
    if {a, b} != {0, 1}:
        return False
    rel = {"Le": "<=", "Lt": "<", "Ge": ">=", "Gt": ">", "Eq": "==", "Ne": "!="}.get(o)
    if rel is None:
        return False
    if neg:
        rel = {"<=": ">", "<": ">=", ">=": "<", ">": "<=", "==": "!=", "!=": "=="}[rel]
    if a == 1:
        rel = {"<=": ">=", "<": ">", ">=": "<=", ">": "<"}.get(rel, rel)
    return rel == {"LessEQ": "<=", "GreatEQ": ">=", "LessT": "<", "GreatT": ">", "EQ": "=="}[v]


def inttab(e, t):
    """The number a term stands for, or None."""
    if t[0] == "f" and t[2] == "0":
        t = t[1]
    if t[0] == "k" and isinstance(t[1], int) and not isinstance(t[1], bool):
        return t[1]
    if t[0] == "un" and t[1] == "Neg":
        x = inttab(e, t[2])
        return None if x is None else -x
    if t[0] == "bin":
        x, y = inttab(e, t[2]), inttab(e, t[3])
        if x is None or y is None or t[1] in ("Div", "Rem") and not y:
            return None
        return {"Add": x + y, "Sub": x - y, "Mul": x * y, "Div": y and int(x / y), "Rem": y and x - y * int(x / y)}.get(t[1])
    return None


def constructors(c):
    """Each constructor on numbers, and on a number and something else."""
    n = 0
    e0 = fx.Engine(c.p)
    mk = lambda v, *a: e0.mkagg(AE, v, tuple((str(i), x) for i, x in enumerate(a)))
    X, Y = mk("VarName", ("arg", "$x")), mk("Clock", ("arg", "$y"))
    Z = mk("Addition", X, Y)
    ints = {m: mk("Int", ("k", m)) for m in (-7, -3, -1, 0, 1, 2, 7, 12)}
    alls = list(ints.values()) + [X, Y, Z]
    back = {t: m for m, t in ints.items()}
    for v in ARI:
        fid = AE + "::" + CT[v]
        for l in alls:
            for r in alls:
                if v in ("Division", "Modulo") and back.get(r) == 0:
                    continue
                e, f = c.entry(fid, (), (l, r))
                if f is None:
                    return
                for t, k, env in [y for t0, k0 in e.returns(f) for y in deep(e, t0, k0)]:
                    if t[0] == "never":
                        continue
                    n += 1
                    c.oblige(built(e, v, l, r, bare(t), back), "make-" + v, "", "%s of %s and %s is built as %s" % (
                        v, show(l), show(r), show(t)))
    c.floor(n, 250, "make", "constructions")


def built(e, v, l, r, t, back):
    a, b = back.get(l), back.get(r)
    sym = v in ("Addition", "Multiplication")
    if t[0] == "agg" and t[2] == v:
        xs = [bare(x) for _, x in t[3]]
        if xs == [l, r] or sym and xs == [r, l]:
            return True
    if a is not None and b is not None:
        if t[0] != "agg" or t[2] != "Int":
            return False
        want = {"Difference": a - b, "Addition": a + b, "Multiplication": a * b, "Division": b and int(a / b),
                "Modulo": b and a - b * int(a / b)}[v]
        return inttab(e, t[3][0][1]) == want
    zero = t[0] == "agg" and t[2] == "Int" and inttab(e, t[3][0][1]) == 0
    if b is not None:
        return t == l and (v, b) in (("Difference", 0), ("Addition", 0), ("Multiplication", 1), ("Division", 1)) or \
            zero and (v, b) in (("Multiplication", 0), ("Modulo", 1))
    if a is not None:
        return t == r and (v, a) in (("Addition", 0), ("Multiplication", 1)) or \
            zero and (v, a) in (("Multiplication", 0), ("Division", 0), ("Modulo", 0))
    return zero and v == "Difference" and l == r


def refusal(c):
    """An operand that is a clock or a name is left out; where clocks may not be operands, they are refused."""
    e0 = fx.Engine(c.p)
    mk = lambda v, *a: e0.mkagg(AE, v, tuple((str(i), x) for i, x in enumerate(a)))
    helpers = {b: 6 for b in c.p.bodies if b.startswith(AE + "::") and "{" not in b and b != CL}
    X, Y, N = mk("Clock", ("arg", "$x")), mk("VarName", ("arg", "$y")), mk("Int", ("arg", "$n"))
    shapes = [("clock", X, True), ("name", Y, False), ("number", N, False)]
    for v in ARI:
        for w, a, b, h in (("left", X, N, True), ("right", N, X, True), ("names", Y, N, False)):
            shapes.append(("%s-%s" % (v, w), mk(v, a, b), h))
        shapes.append((v + "-deep", mk(v, mk("Addition", N, mk("Difference", X, N)), N), True))
    other = ("arg", "$other")
    n = 0
    for what, t, has in shapes:
        for msg in (None, "m"):
            m = e0.mkagg("std::option::Option", "None", ()) if msg is None else \
                e0.mkagg("std::option::Option", "Some", (("0", ("k", msg)),))
            e, f = c.entry(CL, (), (t, other, m), recurse=helpers)
            if f is None:
                return
            key = "left-%s%s" % (what, "" if msg is None else "-refused")
            for r, k, env in [y for t0, k0 in e.returns(f) for y in deep(e, t0, k0)]:
                if r[0] in ("never", "failed") or not possible(e, k, env):
                    continue
                n += 1
                if has and msg:
                    c.oblige(r[0] == "agg" and r[2] == "Err", key, "", "a clock (%s) is let through where it may not be an operand" % what)
                    continue
                w = r[3][0][1] if r[0] == "agg" and r[2] == "Ok" else None
                atom = t[2] in ("Clock", "VarName")
                ok = w is not None and w[0] == "agg" and (w[2] == "Some" and bare(w[3][0][1]) == other if atom else w[2] == "None")
                c.oblige(ok, key, "", "next to an operand (%s), what is left behind is %s" % (what, show(r)))
    c.floor(n, 40, "left", "kinds of operands")


def lf(t, leaf):
    """The linear form of an expression term, or None."""
    t = bare(t)
    if t in leaf:
        return dict(leaf[t])
    if t[0] == "agg" and t[2] in ("Difference", "Addition") or t[0] == "call" and cname(t) in ("ADif", "AAdd"):
        xs = [x for _, x in t[3]] if t[0] == "agg" else t[2]
        a, b = lf(xs[0], leaf), lf(xs[1], leaf)
        if a is None or b is None:
            return None
        s = -1 if (t[2] == "Difference" if t[0] == "agg" else cname(t) == "ADif") else 1
        for k, n in b.items():
            a[k] = a.get(k, 0) + s * n
        return {k: n for k, n in a.items() if n}
    if t[0] == "agg" and t[2] == "Int" and t[3][0][1] == ("k", 0):
        return {}
    return None


def plus(a, b, s=1):
    out = dict(a)
    for k, n in b.items():
        out[k] = out.get(k, 0) + s * n
    return {k: n for k, n in out.items() if n}


def op_of(t):
    """(operator, atom stands right) of an Operation term."""
    if t[0] != "agg" or t[1] != OP:
        return None
    if t[2] == "None":
        return ("None", None)
    b = t[3][0][1]
    return (t[2], b[1]) if b[0] == "k" else None


def lifting(c):
    n = 0
    for v, e, f, fs in arms(c, MV, AE, [MV, CL, CNT]):
        me = e.mkagg(AE, v, tuple((str(i), x) for i, x in enumerate(fs)))
        prev = ("arg", f.body.locals[2]["n"])
        st = [x for x in stores(e, f)]
        if v in ("Clock", "VarName"):
            n += 1
            for x in st:
                for t, k, env in deep(e, x.args[1], x.K):
                    c.oblige(x.args[0] == me and lf(t, {}) == {}, "lift-" + v, x.where, "a lifted %s leaves %s" % (v, show(t)))
            got = 0
            for t, k, env in [y for t0, k0 in e.returns(f) for y in deep(e, t0, k0)]:
                w = some(t)
                if w is None:
                    c.oblige(t[0] == "failed", "lift-" + v, "", "%s is lifted as %s" % (v, show(t)))
                    continue
                a, o = w
                got += 1
                c.oblige(bare(a) == me and (o == prev or op_of(o) in (("None", None), ("Add", False), ("Add", True), ("Dif", False))),
                         "lift-" + v, "", "%s is lifted as %s" % (v, show(a)))
            c.oblige(got and st, "lift-" + v + "-some", "", "%s is not lifted" % v)
            continue
        if v == "Int":
            n += 1
            c.oblige(not st, "lift-Int", "", "lifting a clock out of a number changes it")
            continue
        for side in (0, 1):
            n += 1
            lifted(c, v, side)
    c.floor(n, 13, "lift", "places clocks are lifted from")


def some(t):
    if t[0] == "agg" and t[2] == "Ok":
        t = t[3][0][1]
    if t[0] == "agg" and t[2] == "Some":
        w = t[3][0][1]
        if w[0] == "agg" and len(w[3]) == 2:
            return w[3][0][1], w[3][1][1]
    return None


ATOM = ("arg", "$atom")


def lifted(c, v, side):
    """One step of lifting a clock out of an operand, for each way it was lifted out of that operand."""
    e0 = fx.Engine(c.p)
    fs = (("arg", "$0"), ("arg", "$1"))
    child, other = fs[side], fs[1 - side]
    me = e0.mkagg(AE, v, (("0", fs[0]), ("1", fs[1])))
    ok_ = lambda t: e0.mkagg("std::result::Result", "Ok", (("0", t),))
    opt = lambda *t: e0.mkagg("std::option::Option", "Some" if t else "None", tuple(("0", x) for x in t))
    op = lambda q: e0.mkagg(OP, q[0], (("0", ("k", q[1])),))
    key = "lift-%s-%s" % (v, ("left", "right")[side])
    where = ("left", "right")
    sign = -1 if v == "Difference" else 1
    sums = v in ("Difference", "Addition")
    for q in (None,) + ((("Add", False), ("Add", True), ("Dif", False), ("Dif", True)) if sums else ()):
        for more in ((0, 1) if side == 0 else (0,)):
            given, asked = [], []

            def count(a):
                return ("k", 1 if bare(a[0]) == child else more if bare(a[0]) == other else 1)

            def left(a):
                asked.append(a)
                return ok_(opt(a[1]) if q is None and bare(a[0]) == child else opt())

            def move(a):
                given.append(a)
                if bare(a[0]) != child:
                    return ok_(opt())
                return ok_(opt(e0.mkagg("()", "", (("0", ATOM if q else child), ("1", op(q) if q else a[1])))))
            e, f = c.entry(MV, (), (me, ("arg", "prev_op")), stub={CNT: count, CL: left, MV: move})
            if f is None:
                return
            k1 = key + ("-direct" if q is None else "-of-%s-%s" % (q[0], where[q[1]]))
            evs = [x for x in e.events(f) if x.name == "@store" and (x.args[0] == me or x.args[0] in fs) and
                   any(sat(e, k) for k in e.gcases(x.frame, x.bb))]
            rets = [settled(e, t) for t, k in e.returns(f) if sat(e, k)]
            rets = [t for t in rets if t[0] not in ("never", "failed")]
            mine = [a for a in given if bare(a[0]) == child]
            if not c.oblige(mine and rets, k1, "", "no clock is lifted out of operand %d of %s" % (side, v)):
                continue
            g = op_of(mine[0][1])
            for a in asked:
                if bare(a[0]) != child:
                    continue
                c.oblige(bare(a[1]) == other, k1 + "-rest", "", "next to a clock, %s is left behind" % show(a[1]))
                m = a[2]
                if q is None:
                    c.oblige(m[0] == "agg" and (m[2] == "Some") == (not sums), k1 + "-refused", "",
                             "clocks as operands of %s are %s" % (v, "let through" if m[0] == "agg" and m[2] == "None" else "refused"))
            news = [settled(e, x.args[1]) for x in evs if x.args[0] == me]
            bad = [x for x in evs if x.args[0] != me]
            c.oblige(not bad, k1 + "-kept", "", "an operand of %s is overwritten" % v)
            atom = ATOM if q else child
            if q is None and not news:
                c.oblige(False, k1, "", "the clock of %s stays in place when it is lifted" % v)
                continue
            # what is left behind, in the place of the operand or of the whole
            leaf = {child: {"s": 1} if q else {}, other: {"r": 1}}
            for t in news or [me]:
                for r in rets:
                    w = some(r)
                    o = op_of(w[1]) if w else None
                    good = w is not None and o is not None and bare(w[0]) == atom
                    if good and sums:
                        s = lf(t, leaf)
                        was = together_value(q, {"a": 1}, {"s": 1}) if q else {"a": 1}
                        want = plus(was, {"r": 1}, sign) if side == 0 else plus({"r": 1}, was, sign)
                        good = s is not None and together_value(o, {"a": 1}, s) == want
                    elif good:
                        good = bare(t) == other and o == (OF[v], side == 1)
                    msg = "a clock that is the %s operand of %s is lifted so that the value changes" % (where[side], v) if q is None else \
                        "lifting a clock out of the %s operand of %s, where it is the %s operand of %s, changes the value" % (
                            where[side], v, where[q[1]], {"Dif": "Difference", "Add": "Addition"}[q[0]])
                    c.oblige(good, k1, "", msg)


def settled(e, t, n=0):
    """The value of a term where every branch depends on constants: that of the last assignment that is made."""
    if n > 40:
        return t
    if t[0] == "phi" and e.phis.get(t):
        made = [(a, f, d) for a, f, d in e.phis[t] if a[0] != "never" and a != t and
                (f is None or not d or d[0] == "arg" or any(sat(e, k, n + 1) for k in e.gcases(f, d[0])))]
        late = [x for x in made if not any(y is not x and after(y, x) for y in made)]
        vs = {settled(e, a, n + 1) for a, f, d in late}
        return vs.pop() if len(vs) == 1 else t
    if t[0] in ("v", "f"):
        b = settled(e, t[1], n + 1)
        if b == t[1]:
            return t
        r = e.proj1(b, t[2] if t[0] == "v" else None, t[3] if t[0] == "v" else t[2])
        return r if r[0] in ("v", "f") and r[1] == b else settled(e, r, n + 1)
    if t[0] == "agg":
        return e.mkagg(t[1], t[2], tuple((x, settled(e, y, n + 1)) for x, y in t[3])) if t[1] != "()" else \
            ("agg", t[1], t[2], tuple((x, settled(e, y, n + 1)) for x, y in t[3]))
    if t[0] == "call" and len(t[2]) == 1 and cname(t) == "clone":
        return settled(e, t[2][0], n + 1)
    return t


def after(y, x):
    """Assignment y is made later than x."""
    (_, f, dy), (_, g, dx) = y, x
    if not dy or dy[0] == "arg" or f is None:
        return False
    if not dx or dx[0] == "arg" or g is None:
        return True
    if f is not g:
        return False
    if dy[0] == dx[0]:
        return dy[1] > dx[1]
    seen, work = set(), [dx[0]]
    while work:
        for s in f.body.succ[work.pop()]:
            if s not in seen:
                seen.add(s)
                work.append(s)
    return dy[0] in seen


def sat(e, k, n=0):
    """Whether conditions on constants hold."""
    for a in k:
        if a[0] not in ("is", "isnt"):
            continue
        t = settled(e, a[1], n + 1)
        if t[0] == "call" and cname(t) in ("is_some", "is_none", "@is_some", "@is_none") and t[2][0][0] == "agg":
            t = ("k", (t[2][0][2] == "Some") == cname(t).endswith("some"))
        v = t[1] if t[0] == "k" else t[2] if t[0] == "agg" and t[2] is not None else None
        if v is not None and (v == a[2]) != (a[0] == "is"):
            return False
    return not e.contradict(e.close(frozenset(k)))


def together_value(o, a, s):
    """The value of the lifted a and the rest s under operation o."""
    if o[0] == "Add":
        return plus(a, s)
    if o[0] == "Dif":
        return plus(s, a, -1) if o[1] else plus(a, s, -1)
    return None


def together(c):
    fid = AE + "::simplify"
    e, f = c.entry(fid, [MV, SH] + [AE + "::" + x for x in CT.values()])
    if f is None:
        return
    mine = [x for x in e.events(f) if x.name == MV]
    c.floor(len(mine), 1, "together-lift", "liftings of clocks")
    pairs = set()
    for x in mine:
        pairs.add(("v", ("v", x.term, "Ok", "0"), "Some", "0"))
        o = x.args[1]
        for t in [a for a, _, _ in e.phis.get(o) or [(o, None, None)]]:
            t = bare(t)
            c.oblige(op_of(t) == ("None", None) or t[0] == "f" and t[1] in pairs and t[2] == "1", "together-op", x.where,
                     "lifting goes on under the operation %s" % show(t))
    for x in e.events(f):
        if last(x.name) in ("push", "push_back", "insert", "push_front"):
            c.oblige(last(x.name) == "push" and regrouped(x.args[1]) in pairs, "together-kept", x.where, "%s is kept of what was lifted" % show(x.args[1]))
    made = {}
    names = {AE + "::" + y: x for x, y in CT.items()}
    for x in e.events(f):
        if x.name not in names:
            continue
        v = names[x.name]
        for args, g in halves(e, x.args, e.guards(x.frame, x.bb)):
            i = next((i for i in (0, 1) if lifted_out(args[i])), None)
            if i is None:
                c.oblige(False, "together-" + v, x.where, "%s and %s are put together" % tuple(show(y) for y in args))
                continue
            a = bare(args[i])
            op = ("f", a[1], "1")
            var = sorted({b[2] for b in g if b[0] == "is" and b[1] == op})
            flag = sorted({b[2] for b in g if b[0] == "is" and b[1] == ("v", op, OF[v], "0")})
            stack = a[1]
            base = stack[1] if stack[0] in ("pop", "elem") else stack
            turned = len({(x2.name, x2.frame, x2.bb) for x2 in e.events(f) if last(x2.name) in ("rev", "reverse") and x2.args and
                          same_list(x2.args[0], base)})
            last_in = (stack[0] == "pop") != (turned % 2 == 1)
            sym = v in ("Addition", "Multiplication")
            ok = var == [OF[v]] and (sym or flag == [i == 1])
            c.oblige(ok, "together-%s" % v, x.where, "what was lifted under %s %s is put back as the %s operand of %s" % (
                var, flag, ("left", "right")[i], v))
            c.oblige(last_in, "together-order", x.where, "what was lifted first is put back first: %s" % show(stack))
            made.setdefault(v, set()).add(flag[0] if flag else None)
    for v in ARI:
        c.oblige(made.get(v) and (None in made[v] or made[v] == {True, False}), "together-%s-all" % v, "",
                 "what was lifted out of %s is not put back" % v)
    n = 0
    for t, k in e.returns(f):
        if t[0] in ("never", "failed"):
            continue
        n += 1
        w = t[3][0][1] if t[0] == "agg" and t[2] == "Ok" else None
        c.oblige(w is not None and whole(e, w, names), "together-result", "", "the simplified expression is %s" % show(t))
    c.oblige(n, "together-some", "", "nothing is the result of simplifying")


def regrouped(t):
    """A pair of the parts of a pair, in order, is that pair."""
    t = bare(t)
    if t[0] == "agg" and t[1] == "()" and len(t[3]) == 2:
        a, b = (bare(x) for _, x in t[3])
        if a[0] == b[0] == "f" and a[1] == b[1] and (a[2], b[2]) == ("0", "1"):
            return a[1]
    return t


def lifted_out(t):
    t = bare(t)
    return t[0] == "f" and t[2] == "0"


def halves(e, args, g):
    """The operands and the conditions of each way they were chosen."""
    alts = [{d[0]: (a, f) for a, f, d in e.phis[t] if d and d[0] != "arg"} if t[0] == "phi" and
            any(lifted_out(a) for a, _, _ in e.phis.get(t) or []) and len(e.phis[t]) == 2 else None for t in args]
    if not any(alts):
        return [(tuple(args), g)]
    out = []
    for b in sorted({b for y in alts if y for b in y}):
        xs = tuple(y[b][0] if y and b in y else t for t, y in zip(args, alts))
        f = next(y[b][1] for y in alts if y and b in y)
        out.append((xs, e.close(frozenset(g) | frozenset(f.Kat(b) or ()))))
    return out


def same_list(a, b):
    return a == b or a[0] == b[0] == "acc" and a[1][:2] == b[1][:2]


def whole(e, t, names, seen=None, at=None):
    """t is the expression given, or what was lifted and the rest put together; what was lifted stands alone only where
    it was lifted under no operation."""
    seen = seen or set()
    t = bare(t)
    if t in seen:
        return True
    if t[0] == "phi":
        seen.add(t)
        return all(whole(e, a, names, seen, (fr, d) if fr is not None and d and d[0] != "arg" else at)
                   for a, fr, d in e.phis.get(t) or [] if a[0] != "never")
    if t[0] == "call" and t[1] in names:
        seen.add(t)
        return all(any(lifted_out(a[i]) and whole(e, a[1 - i], names, seen) for i in (0, 1))
                   for a, _ in halves(e, t[2], frozenset()))
    if t == ("arg", "self"):
        return True
    if t[0] != "f" or t[2] != "0" or at is None:
        return False
    op = ("f", t[1], "1")
    return all(e.contradict(e.close(frozenset(k) | {("is", op, v)})) for k in e.gcases(at[0], at[1][0])
                   for v in OF.values())
