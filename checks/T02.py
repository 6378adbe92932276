from core import *

TITLE = "identifiers and system expressions are rendered faithfully"
EXPLAIN = ("Each rendering function is evaluated abstractly at every constructor of its argument; the text it writes "
           "on every path is reconstructed from the compiled format strings and compared with the operator table: "
           "operator of the constructor, operands in order, parentheses where the structure needs them. The "
           "conversions between the trees are checked as recursion equations.")
OPS = {"Conjunction": "&&", "Composition": "||", "Quotient": "\\\\"}
TID = "TransitionSystems::transition_id::TransitionID"
LID = "TransitionSystems::location_id::LocationID"
SYS = "ModelObjects::Expressions::query_expression::SystemExpression"
SPECIAL = "System::specifics::SpecialLocation"


def fmt(ty):
    return "<%s as std::fmt::Display>::fmt" % ty


def operand(c, e, ps, term, op, ty, key, self_render=None):
    """ps renders one operand: bare or in parentheses. Checks where it is bare."""
    par = False
    if len(ps) == 3 and ps[0] == "(" and ps[2] == ")":
        par = True
        ps = ps[1:2]
    if len(ps) != 1 or isinstance(ps[0], str) or ps[0][1] != "display" or ps[0][2] != term:
        return False
    if ty is None:
        return True
    kv = known_variants(e, ps[0][3], term, c.p.variants(ty) or [])
    same = {op, "Simple"} if op != "Quotient" else {"Simple"}
    if par:
        c.oblige(not set(kv) <= same, key + "-bare", "", "parentheses around an operand that does not need them")
    else:
        c.oblige(not (set(kv) & (set(OPS) - same)), key + "-paren", "",
                 "an operand of another kind than %s is rendered without parentheses (%s)" % (op, ", ".join(kv)))
    return True


def sides(m, op):
    """Pieces left and right of the operator; the operator text may sit inside a longer string."""
    out = []
    for i, p in enumerate(m):
        if isinstance(p, str) and op in p:
            a, b = p.split(op, 1)
            out.append((m[:i] + ([a] if a else []), ([b] if b else []) + m[i + 1:]))
    return out


def strip(ps):
    ps = [p.strip() if isinstance(p, str) else p for p in ps]
    return [p for p in ps if p != ""]


def outer(m):
    if len(m) >= 2 and isinstance(m[0], str) and isinstance(m[-1], str) and m[0].startswith("(") and \
            m[-1].endswith(")"):
        m = [m[0][1:]] + m[1:]
        m = m[:-1] + [m[-1][:-1]]
        return [p for p in m if p != ""]
    return None


def binary(c, e, m, v, l, r, ty, key, full):
    """Pieces m render v with operands l and r."""
    if full:
        m2 = outer(m)
        if not c.oblige(m2 is not None, key + "-outer", "", "%s is not enclosed in parentheses" % v):
            return
        m = m2
    ok = False
    for a, b in sides(m, OPS[v] if full != "unique" or v != "Quotient" else "\\"):
        a, b = strip(a), strip(b)
        n = len(c.viols)
        if operand(c, e, a, l, v, ty, key) and operand(c, e, b, r, v, ty, key):
            ok = True
            break
        del c.viols[n:]
    c.oblige(ok, key, "", "%s is not rendered as its left operand, %s and its right operand: %s" % (
        v, OPS[v], " ".join(p if isinstance(p, str) else show(p[2]) for p in m)))


def run(c):
    # -- transition and location identifiers
    for ty, nm in ((TID, "transition"), (LID, "location")):
        arm = arms(c, fmt(ty), ty, [fmt(ty)])
        c.floor(len(arm), 5, nm + "-arms", "kinds of %s identifiers" % nm)
        for v, e, f, fs in arm:
            if len(f.args) < 2:
                continue
            key = "%s-%s" % (nm, v)
            ws = written(e, f, f.args[1])
            if not c.oblige(ws, key + "-paths", "", "nothing is known of how %s is rendered" % v):
                continue
            one = False
            for k, m in ws:
                if v in OPS and ty == TID and v == "Quotient":
                    one |= quotient_sets(c, e, m, fs, key)
                elif v in OPS:
                    one = True
                    binary(c, e, m, v, fs[0], fs[1], ty, key, False)
                elif fs:
                    one = True
                    c.oblige(len(m) == 1 and not isinstance(m[0], str) and m[0][1:3] == ("display", fs[0]), key, "",
                             "%s is not rendered as what it holds" % v)
                else:
                    one = True
                    c.oblige(m == [{"AnyLocation": "_", "None": "NoID"}.get(v)], key, "",
                             "%s has another rendering" % v)
            c.oblige(one, key + "-some", "", "%s is never rendered with all its parts" % v)
    # -- names of component locations
    u = LID + "::get_unique_string"
    arm = arms(c, u, LID)
    for v, e, f, fs in arm:
        key = "unique-" + v
        for k, m in texts(e, f):
            if v in OPS:
                m2 = []
                for p in m:
                    if not isinstance(p, str) and p[2][0] == "call" and p[2][1] == u:
                        p = (p[0], p[1], p[2][2][0], p[3])
                    m2.append(p)
                c.oblige(all(isinstance(p, str) or p[2] in fs for p in m2), key + "-parts", "",
                         "a part of the unique name of %s is not the unique name of an operand" % v)
                binary(c, e, m2, v, fs[0], fs[1], None, key, "unique")
            elif fs:
                c.oblige(len(m) == 1 and not isinstance(m[0], str) and m[0][1:3] == ("display", fs[0]), key, "",
                         "the unique name of %s is not what it holds" % v)
            else:
                c.oblige(m == ["_"], key, "", "the unique name of %s has changed" % v)
    # -- system expressions
    arm = arms(c, fmt(SYS), SYS, [fmt(SYS)])
    for v, e, f, fs in arm:
        key = "system-" + v
        ws = written(e, f, f.args[1]) if len(f.args) > 1 else None
        if not c.oblige(ws, key + "-paths", "", "nothing is known of how %s is rendered" % v):
            continue
        seen = set()
        for k, m in ws:
            if v in OPS:
                binary(c, e, m, v, fs[0], fs[1], None, key, True)
            else:
                idv = ("v", fs[1], "Some", "0")
                n = [p if isinstance(p, str) else p[1:3] for p in m]
                if when(k, fs[1], "Some") and not when(k, fs[1], "None"):
                    seen.add("Some")
                    c.oblige(n == [("display", fs[0]), "[", ("display", idv), "]"], key + "-id", "",
                             "a component with an identifier is not rendered as name[identifier]")
                else:
                    seen.add("None")
                    c.oblige(n == [("display", fs[0])], key + "-plain", "",
                             "a component without an identifier is not rendered as its name")
        if v not in OPS:
            c.oblige(seen == {"Some", "None"}, key + "-both", "", "an identifier of a component is not rendered")
    # -- special locations have different names
    arm = arms(c, fmt(SPECIAL), SPECIAL)
    names = {}
    for v, e, f, fs in arm:
        for k, m in written(e, f, f.args[1]) or []:
            names[v] = m
            c.oblige(len(m) == 1 and isinstance(m[0], str) and v in m[0], "special-" + v, "",
                     "the special location %s is rendered as %s" % (v, m))
    c.oblige(len({str(m) for m in names.values()}) == len(names), "special-distinct", "",
             "two special locations have the same rendering")
    c.floor(len(names), 2, "special", "special locations")
    # -- a system expression as a location identifier
    fr = "<%s as std::convert::From<%s>>::from" % (LID, SYS)
    arm = arms(c, fr, SYS)
    for v, e, f, fs in arm:
        rs = [t for t, k in e.returns(f)]
        c.oblige(rs, "from-%s-some" % v, "", "no location identifier for %s" % v)
        for t in rs:
            t = undo(e, t, fr)
            want = v if v in OPS else "Simple"
            ok = t[0] == "agg" and t[2] == want and [x for _, x in t[3]] == (list(fs) if v in OPS else [fs[0]])
            c.oblige(ok, "from-" + v, "", "%s becomes %s" % (v, show(t)))
    # -- partial identifiers
    ip = LID + "::is_partial_location"
    arm = arms(c, ip, LID)
    for v, e, f, fs in arm:
        disj(c, e, f, [ip], fs if v in OPS else [], "partial-" + v, "partiality of " + v, v == "AnyLocation")


def undo(e, t, fr):
    """Converted fields stand for themselves (the conversion of a field is the recursion)."""
    if t[0] == "agg":
        return ("agg", t[1], t[2], tuple((n, undo1(x, fr)) for n, x in t[3]))
    return t


def undo1(x, fr):
    while x[0] == "call" and len(x[2]) == 1 and (x[1] == fr or cname(x) in ("into", "from", "new", "clone")):
        x = x[2][0]
    return x


def quotient_sets(c, e, m, fs, key):
    """A quotient of alternatives: all of the left, the operator, all of the right."""
    ok = None
    for a, b in sides(m, OPS["Quotient"]):
        good = True
        n = len(c.viols)
        for ps, coll in ((a, fs[0]), (b, fs[1])):
            ps = strip(ps)
            if ps:
                good &= operand(c, e, ps, ("elem", coll), "Quotient", TID, key) or joined_elems(e, ps, coll)
        if good:
            ok = bool(strip(a)) and bool(strip(b))
            break
        del c.viols[n:]
    c.oblige(ok is not None, key, "", "a quotient is not rendered as its left alternatives, \\\\ and its right ones")
    return bool(ok)


def joined_elems(e, ps, coll):
    if len(ps) != 1 or isinstance(ps[0], str):
        return False
    t = ps[0][2]
    while t[0] == "call" and cname(t) in ("collect", "join", "concat", "map"):
        t = t[2][0]
    return t == coll
