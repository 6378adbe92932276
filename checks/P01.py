import functools

import grammar
import tables
from tables import *
from core import *

TITLE = "queries are read, and printed, as they are written"
EXPLAIN = ("The grammar file is compared rule by rule with the query language (silent rules looked through, alternatives as "
           "sets, and no alternative hidden by an earlier one); the tables from grammar rules to what is read, the operator "
           "precedence and the text templates of what is printed are extracted from compiler MIR and compared with it.")
M = "DataReader::parse_queries"
Q = "ModelObjects::Expressions::query_expression::"
S = "ModelObjects::Expressions::state_expression::"
FILE = "src/DataReader/grammars/query_grammar.pest"
WANT = r'''
queries = _{SOI ~ queryList ~ EOI}
queryList = { query ~ (";" ~ query)*}
query = {refinement | consistency | reachability | implementation | determinism | specification | getComponent | prune | bisim}
refinement = {"refinement:" ~ expr ~ "<=" ~ expr}
consistency = {"consistency:" ~ expr}
reachability = { "reachability:" ~ expr ~ "@" ~ (state | "init") ~ "->" ~ state }
implementation = {"implementation:" ~ expr}
getComponent = {"get-component:" ~ saveExpr}
prune = {"prune:" ~ saveExpr}
bisim = {"bisim-minim:" ~ saveExpr}
determinism = {"determinism:" ~ expr}
specification = {"specification:" ~ expr}
saveExpr = _{  expr  ~ ("save-as" ~ variable_name)?}
expr = { term ~ (featureOperator ~ term)*}
term = _{ component | parenthesizedExp  }
parenthesizedExp = _{ "(" ~ expr ~ ")"}
component = { variable_name ~ ("[" ~ identifier ~ "]")? }
state = { boolExpr }
boolExpr = _{andExpr}
andExpr = { orExpr ~ (("&&" | "and") ~ orExpr)* }
orExpr = { subExpr ~ (("||" | "or") ~ subExpr)* }
subExpr = _{parenthesizedSubExp | compExpr | locExpr | notExpr | bool_true | bool_false}
locExpr = { variable }
compExpr = {boolDiff ~ operator ~ boolDiff}
notExpr = {("not" | "!") ~ boolExpr}
parenthesizedSubExp = _{ "(" ~ boolExpr ~ ")"}
boolDiff = {boolTerm ~ ((sub_op | sum_op) ~ boolTerm)*}
boolTerm = _{ int | variable }
variable = { component ~ "." ~ variable_name }
bool_true = { "true" }
bool_false = { "false" }
sum_op = { "+" }
sub_op = { "-" }
variable_name = @{(ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_" )*) ~ !"-" }
identifier = @{(!"[" ~ !"]" ~ ANY )+}
int = @{ "0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT* }
operator = _{leq_op | geq_op | lt_op | gt_op | eq_op}
leq_op = { "<=" }
geq_op = { ">=" }
lt_op = { "<" }
gt_op = { ">" }
eq_op = { "==" }
featureOperator = _{ qoutient_op | conjunction_op | composition_op }
qoutient_op = { "//" | "\\\\" }
conjunction_op = { "&&" }
composition_op = { "||" }
WHITESPACE = _{ " " | "\n" | "\r\n" | "\t"}
'''
KINDS = {"refinement": "Refinement", "consistency": "Consistency", "reachability": "Reachability", "implementation": "Implementation",
         "determinism": "Determinism", "specification": "Specification", "getComponent": "GetComponent", "prune": "Prune", "bisim": "BisimMinim"}
KEYS = {"Refinement": "refinement:", "Consistency": "consistency:", "Reachability": "reachability:", "Implementation": "implementation:",
        "Determinism": "determinism:", "Specification": "specification:", "GetComponent": "get-component:", "Prune": "prune:",
        "BisimMinim": "bisim-minim:"}
SYS = {"qoutient_op": "Quotient", "composition_op": "Composition", "conjunction_op": "Conjunction"}
CMP = {"leq_op": "LEQ", "geq_op": "GEQ", "eq_op": "EQ", "lt_op": "LT", "gt_op": "GT"}
TOK = {"LEQ": "<=", "GEQ": ">=", "EQ": "==", "LT": "<", "GT": ">"}
P = ("arg", "$P")


def run(c):
    g = grammar.load(c, FILE)
    prec = grammar.pratt(c, M)
    if g is None or prec is None:
        return
    fns = {n: private(c, n, *w) for n, w in (("parse_system", ("SystemExpression",)), ("parse_state", ("StateExpression",)),
                                           ("parse_operand", ("OperandExpression",)), ("comp_var_from_variable_pair", ("ComponentVariable",)),
                                           ("parse_query", ("QueryExpression",)), ("parse_queries", ("Vec<", "QueryExpression")))}
    if any(v is None for v in fns.values()):
        return
    n = language(c, g)
    for a, b in (("qoutient_op", "composition_op"), ("composition_op", "conjunction_op")):
        c.oblige(a in prec and b in prec and prec[a][0] < prec[b][0], "precedence-%s-%s" % (a, b), "", "%s binds tighter than %s" % (a, b))
    for r in SYS:
        c.oblige(r in prec and prec[r][1] == "Left", "assoc-" + r, "", "%s does not group to the left" % r)
    n += systems(c, fns)
    n += states(c, fns)
    n += operands(c, fns)
    n += queries(c, fns)
    n += top(c, fns)
    n += printed(c, fns)
    c.floor(n, 90, "query", "rules, readings and printings of queries")


def private(c, name, *types):
    fid = M + "::" + name
    if fid in c.p.bodies:
        return fid
    out = [b for b, m in ((b, c.p.bodies[b]) for b in c.p.bodies if b.startswith(M + "::")) if b.startswith(M + "::") and "{" not in b and m.argc == 1 and "Pair<" in str(m.locals[1]["ty"]) and
           all(t in str(m.locals[0]["ty"]) for t in types) and not ("Vec<" in str(m.locals[0]["ty"]) and "Vec<" not in types)]
    if len(out) == 1:
        return out[0]
    if any(b.startswith(M) for b in c.p.tainted):
        raise Undecided("the parser does not type-check")
    c.viol("anchor", name, "%s, which this property is anchored in, is gone" % name)


# the grammar

def norm(g, x, n=0):
    """Silent rules looked through; alternatives as a set."""
    if n > 40:
        raise Undecided("a silent rule of the grammar is recursive")
    k = x[0]
    if k == "ref":
        if x[1] in g and g[x[1]][0] == "_":
            return norm(g, g[x[1]][1], n + 1)
        return x
    if k == "lit":
        return x
    if k in ("seq", "alt"):
        ys = []
        for y in x[1:]:
            z = norm(g, y, n + 1)
            ys += z[1:] if z[0] == "seq" == k else list(z[1]) if z[0] == "alt" == k else [z]
        return ("seq",) + tuple(ys) if k == "seq" else ("alt", frozenset(ys))
    return (k,) + tuple(norm(g, y, n + 1) if isinstance(y, tuple) else y for y in x[1:])


def language(c, g):
    w = grammar.parse(WANT)
    n = 0
    for r, (mod, x) in w.items():
        if mod == "_" and r not in ("queries", "WHITESPACE"):
            continue
        n += 1
        if not c.oblige(r in g, "rule-" + r, FILE, "the grammar has no rule %s" % r):
            continue
        c.oblige(g[r][0] == mod and norm(g, g[r][1]) == norm(w, x), "rule-" + r, FILE, "the grammar rule %s is another one" % r)
    for r, (mod, x) in g.items():
        for y in alts(x):
            ys = [z for a in y[1:] for z in spread(g, a)]
            for i, a in enumerate(ys):
                for b in ys[i + 1:]:
                    fa, fb = first(g, a), first(g, b)
                    for p in fa:
                        for q in fb:
                            hid = p[0] == "lit" and q[0] == "lit" and q[1].startswith(p[1]) and (
                                p[1] != q[1]) and a[0] == "lit" or p[0] == "lit" and p[1].isalpha() and q[0] == "name"
                            n += 1
                            c.oblige(not hid, "hidden-%s-%s" % (r, p[1]), FILE, "in %s, '%s' is tried before %s: what starts with it is never read as that" % (
                                r, p[1], "'%s'" % q[1] if q[0] == "lit" else "a name"))
    return n


def alts(x):
    out = [x] if x[0] == "alt" else []
    for y in x[1:]:
        if isinstance(y, tuple):
            out += alts(y)
    return out


def spread(g, x, n=0):
    """The alternatives an alternative stands for."""
    if n > 20:
        return [x]
    if x[0] == "ref" and x[1] in g:
        y = g[x[1]][1]
        if g[x[1]][0] == "_" or y[0] == "lit":
            return spread(g, y, n + 1)
        return [x]
    if x[0] == "alt":
        return [z for y in x[1:] for z in spread(g, y, n + 1)]
    return [x]


def first(g, x, seen=()):
    """What an expression can start with."""
    k = x[0]
    if k == "lit":
        return {x}
    if k == "ref":
        if x[1] in ("ASCII_ALPHA", "ASCII_ALPHANUMERIC", "ASCII_ALPHA_LOWER"):
            return {("name", "a")}
        if x[1] in seen or x[1] not in g:
            return set()
        return first(g, g[x[1]][1], seen + (x[1],))
    if k == "alt":
        return set().union(*[first(g, y, seen) for y in x[1:]])
    if k == "seq":
        out = set()
        for y in x[1:]:
            if y[0] == "not":
                continue
            out |= first(g, y, seen)
            if y[0] not in ("opt", "rep"):
                break
        return out
    if k == "not":
        return set()
    return set().union(*[first(g, y, seen) for y in x[1:] if isinstance(y, tuple)], set())


# reading

def inner(t, of=P):
    return t[0] == "call" and cname(t) == "into_inner" and t[2] == (of,)


def unwrapped(t):
    while t[0] == "v" and t[2] in ("Some", "Ok") or t[0] == "call" and cname(t) in ("unwrap", "expect", "clone", "to_string", "to_owned", "as_str") and t[2]:
        t = t[1] if t[0] == "v" else t[2][0]
    return t


def kid(t, i, of=P, only=False):
    """Child number i of a pair."""
    t = unwrapped(t)
    if t[0] == "idx":
        return inner(t[1], of) and t[2] == ("k", i)
    if t[0] == "elem" and (only or i == 0):
        return inner(t[1], of)
    return False


def later(t, i, of=P):
    """The iterator asked for child number i, if there is one."""
    if t[0] == "call" and cname(t) == "next":
        s = t[2][0]
        return s[0] == "call" and cname(s) == "at" and inner(s[2][0], of) and s[2][1] == ("k", i) or i == 0 and inner(s, of)
    if t[0] == "call" and cname(t) == "nth":
        return inner(t[2][0], of) and t[2][1] == ("k", i)
    return False


def mapped_by(u, of, fn):
    """All children of a pair, in their order, each by that function."""
    return u is not None and inner(u[0][0], of) and u[0][1] == 1 and u[1][0] == "call" and u[1][1] == fn and u[1][2] == (("elem", u[0][0]),)


def text(e, t, i, of=P):
    """The text of child i, if there is one: an Option."""
    if t[0] == "call" and cname(t) in ("optmap", "map") and len(t[2]) == 2:
        r = e.apply(t[2][1], [("arg", "$k")], t[3] or "")
        return later(t[2][0], i, of) and unwrapped(r) == ("arg", "$k")
    return False


def table_of(c, fid, which, opq):
    e, f = c.entry(fid, opq)
    if f is None:
        return None, None, []
    tb = grammar.table(e, f, which)
    if not tb:
        if [x for x in e.events(f) if last(x.name) in ("parse", "map_primary", "map_infix")]:
            raise Undecided("how %s reads its operands" % last(fid))
        c.viol("anchor", last(fid) + "-" + which, "%s has no table of %s" % (last(fid), which))
        return None, None, []
    return e, f, [(r, t, k) for r0, t0, k0 in tb for t, k, _ in deep(e, t0, k0) for r in [r0] if t[0] not in ("never", "failed")]


def merge(tb):
    out = {}
    for r, t, k in tb:
        for x in r or {None}:
            out.setdefault(x, []).append((t, k))
    return out


def rule_of(k, t):
    """The rules a pair is of, by k."""
    return {a[2] for a in k if a[0] == "is" and a[1][0] == "call" and cname(a[1]) == "as_rule" and t(a[1][2][0])}


def each(c, got, rule, ok, key, what):
    xs = got.get(rule, [])
    good = bool(xs) and all(ok(t, k) for t, k in xs)
    return c.oblige(good, key, M, "%s is read as %s" % (what, [show(t)[:120] for t, k in xs if not ok(t, k)][:1] or "nothing"))


def systems(c, fns):
    ps = fns["parse_system"]
    opq = list(fns.values())
    n = 0
    e, f, tb = table_of(c, ps, "map_infix", opq)
    got = merge(tb)
    L, R = ("arg", "$L"), ("arg", "$R")
    for r, v in SYS.items():
        n += 1
        each(c, got, r, lambda t, k: t[0] == "agg" and t[2] == v and [x for _, x in t[3]] == [L, R], "infix-" + r, "the operator %s" % r)
    e, f, tb = table_of(c, ps, "map_primary", opq)
    got = merge(tb)
    each(c, got, "expr", lambda t, k: t[0] == "call" and t[1] == ps and t[2] == (P,), "primary-expr", "a system in parentheses")
    each(c, got, "component", lambda t, k: t[0] == "agg" and t[2] == "Component" and kid(t[3][0][1], 0) and optional(e, t[3][1][1], 1, k),
         "primary-component", "a component")
    return n + 2


def optional(e, t, i, k, of=P):
    if text(e, t, i, of):
        return True
    if t[0] == "agg" and t[2] == "Some":
        return kid(t[3][0][1], i, of) or later(unwrapped(t[3][0][1]), i, of)
    if t[0] == "agg" and t[2] == "None":
        return any(a[0] == "is" and a[2] == "None" and later(a[1], i, of) for a in k)
    return False


def states(c, fns):
    ps, po, pv = fns["parse_state"], fns["parse_operand"], fns["comp_var_from_variable_pair"]
    e, f, tb = table_of(c, ps, "map_primary", list(fns.values()))
    if e is None:
        return 0
    # what is handed to the table
    evs = [x for x in e.events(f) if last(x.name) == "parse" and "Pratt" in x.name]
    wraps = False
    for x in evs:
        a = x.args[-1]
        els = e.arr_elems(a)
        me = ("arg", f.body.locals[1]["n"])
        wraps = els == [me]
        c.oblige(wraps or inner(a, me), "state-whole", M, "a state is read from " + show(a)[:80])
    got = merge(tb)
    n = 0

    def rec(t):
        if t[0] == "call" and cname(t) in ("remove", "swap_remove", "pop") or t[0] in ("idx", "elem", "pop"):
            x = t[2][0] if t[0] == "call" else t[1]
            return mapped_by(tables.unmap(e, x), P, ps) if x[0] in ("call", "acc") else False
        return t[0] == "call" and t[1] == ps and kid(t[2][0], 0, only=True)
    if wraps:
        each(c, got, "state", lambda t, k: rec(t), "state-state", "a state")
    # both rules in one case without knowing which
    for t, k in got.pop(None, []):
        # one of two rules, and not the other
        no = {a[2] for a in k if a[0] == "isnt" and a[1][0] == "call" and cname(a[1]) == "as_rule" and a[1][2] == (P,)}
        r = {("AND", "orExpr"): "andExpr", ("OR", "andExpr"): "orExpr"}.get((t[2], next(iter(no & {"andExpr", "orExpr"}), None)) if t[0] == "agg" else None)
        if r:
            got.setdefault(r, []).append((t, k))
            continue
        c.oblige(rec(t) and single(k), "state-other", M, "part of a state is read as " + show(t)[:100])
    for r, v in (("andExpr", "AND"), ("orExpr", "OR")):
        n += 1

        def ok(t, k):
            if t[0] == "agg" and t[2] == v:
                u = tables.unmap(e, t[3][0][1])
                return mapped_by(u, P, ps)
            return rec(t) and single(k)
        each(c, got, r, ok, "state-" + r, "a state expression with '%s'" % v.lower())
        c.oblige(any(t[0] == "agg" for t, k in got.get(r, [])), "state-%s-some" % r, M, "no %s is read" % v)
    each(c, got, "notExpr", lambda t, k: t[0] == "agg" and t[2] == "NOT" and rec(t[3][0][1]), "state-notExpr", "a negation")
    each(c, got, "locExpr", lambda t, k: t[0] == "agg" and t[2] == "Location" and t[3][0][1][0] == "call" and t[3][0][1][1] == pv and
         kid(t[3][0][1][2][0], 0, only=True), "state-locExpr", "a location")
    for r, b in (("bool_true", True), ("bool_false", False)):
        each(c, got, r, lambda t, k: t[0] == "agg" and t[2] == "Bool" and t[3][0][1] == ("k", b), "state-" + r, "'%s'" % str(b).lower())
    seen = {}
    for t, k in got.get("compExpr", []):
        rs = rule_of(k, lambda x: kid(x, 1))
        good = t[0] == "agg" and len(t[3]) == 2 and all(x[0] == "call" and x[1] == po and kid(x[2][0], i) for (_, x), i in zip(t[3], (0, 2)))
        c.oblige(good and len(rs) == 1 and CMP.get(next(iter(rs))) == t[2], "state-compExpr-" + "/".join(sorted(rs)), M,
                 "a comparison with %s is read as %s" % (sorted(rs), show(t)[:120]))
        for x in rs:
            seen[x] = 1
    for r in CMP:
        n += 1
        c.oblige(r in seen, "state-compExpr-" + r, M, "a comparison with %s is not read" % r)
    e, f = c.entry(pv, list(fns.values()))
    if f is not None:
        me = params(f)[0]
        comp = lambda t: kid(t, 0, me)
        for t, k in answers(e, f):
            n += 1
            d = dict(t[3]) if t[0] == "agg" else {}
            ins = [x for x in fx.subterms(t) if x[:1] == ("call",) and cname(x) == "into_inner" and x[2][0] != me]
            good = len(d) == 3 and kid(d["variable"], 1, me) and len(set(ins)) == 1 and comp(ins[0][2][0]) and kid(d["component"], 0, ins[0][2][0]) and \
                optional(e, d["special_id"], 1, k, ins[0][2][0])
            c.oblige(good, "variable", f.body.id, "the name of a clock or location is read as " + show(t)[:200])
    return n + 6


def params(f):
    return [("arg", f.body.locals[i + 1]["n"]) for i in range(f.body.argc)]


inner_ = inner


def single(k):
    """The pair has one part."""
    def inner(t):
        while t[0] == "call" and cname(t) in ("map", "collect") and t[2]:
            t = t[2][0]
        return inner_(t)
    for a in k:
        if a[0] not in ("is", "isnt"):
            continue
        t = a[1]
        if a[0] == "is" and a[2] == 1 and a[2] is not True and t[0] == "call" and cname(t) in ("count", "len") and inner(t[2][0]):
            return True
        if t[0] == "bin" and t[1] in ("Eq", "Ne") and ("k", 1) in t[2:] and any(x[0] == "call" and cname(x) in ("count", "len") and inner(x[2][0]) for x in t[2:]):
            if a[0] == "is" and a[2] is (t[1] == "Eq"):
                return True
        if t[0] == "call" and cname(t) in ("next", "peek") and a[0] == "is" and a[2] == "None" and show(t).find("into_inner($P)") >= 0:
            return True
    return False


def operands(c, fns):
    po, pv = fns["parse_operand"], fns["comp_var_from_variable_pair"]
    e, f = c.entry(po, list(fns.values()))
    if f is None:
        return 0
    me = params(f)[0]
    seen = {}
    sums = []
    for t, k in e.returns(f):
        if t[0] in ("never", "failed"):
            continue
        rs = rule_of(k, lambda x: x == me)
        key = "operand-" + "/".join(sorted(rs))
        for r in rs:
            seen[r] = 1
        if rs == {"int"}:
            u = t[3][0][1] if t[0] == "agg" and t[2] == "Number" else ("k", None)
            u = unwrapped(u)
            good = u[0] == "call" and cname(u) in ("parse", "from_str") and unwrapped(u[2][0]) == me
            c.oblige(good, key, f.body.id, "a number is read as " + show(t)[:120])
        elif rs == {"variable"}:
            u = t[3][0][1] if t[0] == "agg" and t[2] == "Clock" else ("k", None)
            c.oblige(u[0] == "call" and u[1] == pv and u[2] == (me,), key, f.body.id, "a clock is read as " + show(t)[:120])
        elif rs == {"boolDiff"}:
            sums += grown(e, t, k)
        else:
            raise Undecided("an operand is read as " + show(t)[:80])
    if sums:
        chain(c, f, sums, me, po, "operand-boolDiff")
    for r in ("int", "variable", "boolDiff"):
        c.oblige(r in seen, "operand-" + r, f.body.id, "nothing is read for " + r)
    return 3


def grown(e, t, k, seen=()):
    """The alternatives of what a loop makes, one by one."""
    if t[0] != "phi" or t not in e.phis:
        return [(t, k)]
    out = []
    if t in seen:
        return out
    for a, fr, d in e.phis[t]:
        kk = fr.Kat(d[0]) if fr is not None and d and d[0] != "arg" else frozenset()
        if kk is not None:
            out += grown(e, a, e.close(k | kk), seen + (t,))
    return out


def chain(c, f, sums, me, po, key):
    """first op second op third, from the left."""
    ops = {}
    starts = 0
    for a, k in sums:
        if a[0] == "call" and cname(a) in ("fold", "reduce"):
            raise Undecided("a sum is read as " + show(a)[:80])
        if a[0] == "call" and a[1] == po:
            starts += 1
            c.oblige(kid(a[2][0], 0, me), key, f.body.id, "a sum starts with " + show(a)[:100])
            continue
        if not c.oblige(a[0] == "agg" and a[2] in ("Difference", "Sum") and len(a[3]) == 2, key, f.body.id, "a sum is read as " + show(a)[:100]):
            continue
        l, r = [x for _, x in a[3]]
        if not c.oblige(l[0] == "phi" and r[0] == "call" and r[1] == po and r[2][0][0] != "phi", key, f.body.id,
                        "the next operand is joined as " + show(a)[:160]):
            continue
        for x in {x[2] for x in k if x[0] == "is" and x[1][0] == "call" and cname(x[1]) == "as_rule" and x[1][2] != (me,)}:
            ops.setdefault(x, set()).add(a[2])
    c.oblige(starts and ops == {"sub_op": {"Difference"}, "sum_op": {"Sum"}}, key, f.body.id, "the operators of a sum are read as %s" % (
        {x: sorted(y) for x, y in ops.items()}))


def queries(c, fns):
    pq, ps, pst = fns["parse_query"], fns["parse_system"], fns["parse_state"]
    e, f, tb = table_of(c, pq, "map_primary", list(fns.values()))
    if e is None:
        return 0
    got = merge(tb)
    sysk = lambda t, i, only=False: t[0] == "call" and t[1] == ps and kid(t[2][0], i, only=only)
    n = 0
    for r, v in KINDS.items():
        n += 1

        def ok(t, k):
            if t[0] != "agg" or t[2] != v:
                return False
            fs = dict(t[3])
            if v == "Refinement":
                return sysk(fs["0"], 0) and sysk(fs["1"], 1)
            if v == "Reachability":
                return sysk(fs["system"], 0) and target(fs["to"]) and start(fs["from"], k)
            if v in ("GetComponent", "Prune", "BisimMinim"):
                s = fs["0"]
                if s[0] != "agg" or not s[1].endswith("SaveExpression"):
                    return False
                d = dict(s[3])
                return sysk(d["system"], 0) and optional(e, d["name"], 1, k)
            return sysk(fs["0"], 0, True)

        def target(t):
            if t[0] == "call" and t[1] == pst:
                x = unwrapped(t[2][0])
                return x[0] == "idx" and inner(x[1]) and x[2] == ("k", -1) or x[0] == "call" and cname(x) in ("last", "next_back") and inner(x[2][0])
            return False

        def start(t, k):
            if t[0] == "call" and cname(t) in ("optmap", "map") and len(t[2]) == 2 and later(t[2][0], 1):
                x = e.apply(t[2][1], [("arg", "$k")], t[3] or "")
                return x == ("call", pst, (("arg", "$k"),), x[3] if len(x) > 3 else None)
            if t[0] == "agg" and t[2] == "Some":
                x = t[3][0][1]
                return x[0] == "call" and x[1] == pst and (kid(x[2][0], 1) or later(unwrapped(x[2][0]), 1))
            return t[0] == "agg" and t[2] == "None" and any(a[0] == "is" and a[2] == "None" and later(a[1], 1) for a in k)
        xs = got.get(r, [])
        if v == "Reachability" and xs and not all(ok(t, k) for t, k in xs) and any(len(x) for t, k in xs for x in [fx.subterms(t)] if any(
                a[0] in ("is", "isnt") and a[1][0] in ("call", "bin") and "into_inner" in show(a[1]) and cname_of(a[1]) in ("count", "len", "nth", "Eq") for a in k)):
            raise Undecided("how the states of a reachability query are told apart")
        if xs and not all(ok(t, k) for t, k in xs) and any(cname_of(x) in ("pop", "remove", "swap_remove", "last", "get", "split_last") or x[0] in ("pop", "acc")
                                                           for t, k in xs for x in fx.subterms(t) if x and x[0] in ("pop", "acc", "call") and len(x) > 1):
            raise Undecided("how the parts of a %s query are picked" % v)
        each(c, got, r, ok, "query-" + r, "a %s query" % r)
    return n + back_first(c, pq)


def cname_of(t):
    return cname(t) if t[0] == "call" else t[1]


def back_first(c, pq):
    """Where the last part is taken from the back, it is taken before the optional part in front of it."""
    n = 0
    for b in c.p.bodies:
        if not b.startswith(M + "::"):
            continue
        m = c.p.bodies[b]
        if not any(x in str(m.locals[0]["ty"]) for x in ("QueryExpression",)):
            continue
        sites = {"next": [], "next_back": []}
        for i, bl in enumerate(m.blocks):
            nm = called(bl["t"])
            if nm in sites:
                sites[nm].append(i)
        for bk in sites["next_back"]:
            n += 1
            before = [x for x in sites["next"] if reach(m, x, bk)]
            c.oblige(len(before) <= 1, "query-reachability-order", b, "the optional start state is taken before the end state: a query without it has no end state")
    return n


def called(t):
    if not t or t[0] != "call" or t[1][0] != "k":
        return None
    return last(str(t[1][1].get("fn") or t[1][1].get("def") or t[1][1].get("ty")))


def reach(m, p, q, but=()):
    seen, st = set(but), list(m.succ[p])
    while st:
        i = st.pop()
        if i == q:
            return True
        if i not in seen:
            seen.add(i)
            st += m.succ[i]
    return False


def top(c, fns):
    pl, pq = fns["parse_queries"], fns["parse_query"]
    n = 0
    e, f = c.entry(pl, list(fns.values()))
    if f is not None:
        me = params(f)[0]
        for t, k in answers(e, f):
            n += 1
            u = tables.unmap(e, t)
            good = mapped_by(u, me, pq)
            if u is None and t[0] in ("phi", "acc"):
                raise Undecided("a list of queries is read as " + show(t)[:80])
            c.oblige(good, "list", f.body.id, "a list of queries is read as " + show(t)[:120])
    for nm, rule, fn in (("parse_to_expression_tree", "queries", pl), ("parse_to_system_expr", "expr", fns["parse_system"]),
                         ("parse_to_state_expr", "state", fns["parse_state"])):
        b = M + "::" + nm
        e, f = c.entry(b, list(fns.values()) + [x for x in c.p.bodies if x.endswith("QueryParser as pest::Parser<DataReader::parse_queries::Rule>>::parse")])
        if f is None:
            continue
        me = params(f)[0]
        good = 0
        for t, k in answers(e, f):
            if t[0] == "agg" and t[2] == "Err":
                c.oblige(any(a[0] == "is" and a[2] == "Err" and "parse" in show(a[1]) or a[0] == "is" and a[2] == "Err" for a in k), nm + "-refused", b, "what can be read is refused")
                continue
            y = t[3][0][1] if t[0] == "agg" and t[2] == "Ok" else ("k", None)
            x = unwrapped(y[2][0]) if y[0] == "call" and y[1] == fn else ("k", None)
            x = unwrapped(x[1]) if x[0] in ("elem", "idx") else ("k", None)
            ok_ = x[0] == "call" and cname(x) == "parse" and len(x[2]) == 2 and x[2][0][0] == "agg" and x[2][0][2] == rule and x[2][1] == me
            if x[0] == "call" and cname(x) == "state":
                ok_ = x[2][0] == me and rule_in(e, x, rule)
            c.oblige(ok_, nm, b, "a text is read as " + show(t)[:160])
            good += 1
            n += 1
        c.oblige(good, nm, b, "nothing is read")
    return n


def rule_in(e, x, rule):
    """The parser is started with that rule."""
    return any(s[0] == "agg" and s[2] == rule for s in fx.subterms(x) if s and s[0] == "agg" and len(s) > 2) or not any(
        s[0] == "agg" and str(s[1]).endswith("::Rule") for s in fx.subterms(x) if s and len(s) > 1)


# printing

def shown(m):
    return "".join(x if isinstance(x, str) else "{%s}" % show(x[2]) for x in m)


def squeeze(s):
    return "".join(s.split())


def display(c, adt):
    out = [b for b in c.p.bodies if b.endswith(" as std::fmt::Display>::fmt") and adt in b]
    if len(out) != 1:
        for b in c.p.tainted:
            if adt in b and b.endswith("fmt"):
                raise Undecided("%s does not type-check" % b)
        c.viol("anchor", "display-" + last(adt), "%s has no text" % last(adt))
        return None
    return out[0]


def piece(t):
    while t[0] == "call" and cname(t) in ("to_string", "to_owned", "clone", "as_str", "as_ref", "deref", "into") and len(t[2]) == 1:
        t = t[2][0]
    return t


def printed(c, fns):
    n = 0
    ds = {t: display(c, t) for t in (Q + "SystemExpression", Q + "SaveExpression", Q + "QueryExpression", S + "ComponentVariable",
                                     S + "OperandExpression", S + "StateExpression")}
    if any(v is None for v in ds.values()):
        return 0
    opq = list(ds.values())

    def one(adt, v, rows, e, f, fs):
        """rows: [(condition, template)], fields by number; the one that holds is written."""
        nonlocal n
        ws = written(e, f, params(f)[1])
        if ws is None:
            raise Undecided("what is printed of " + (v or last(adt)))
        ws = [(k, m) for k, m in ws if m]
        key = "print-" + (v or last(adt))
        if not c.oblige(ws, key, ds[adt], "nothing is printed of %s" % (v or last(adt))):
            return
        hit = set()
        for k, m in ws:
            k = e.close(k)
            good = False
            for i, (cond, tpl) in enumerate(rows):
                if cond is not None and not cond(k):
                    continue
                if fits(m, tpl, k):
                    good = True
                    hit.add(i)
            n += 1
            if not good and any(not isinstance(x, str) and x[2][0] in ("acc", "phi", "call") and not fx.mentions(x[2], ("k", 0)) and piece(x[2])[0] in (
                    "acc", "phi") for x in m):
                raise Undecided("what is printed of %s: %s" % (v or last(adt), shown(m)[:80]))
            c.oblige(good, key, ds[adt], "%s is printed as %s" % (v or last(adt), shown(m)[:160]))
        c.oblige(len(hit) == len(rows), key + "-cases", ds[adt], "%s is not always printed" % (v or last(adt)))

    def fits(m, tpl, k):
        # pieces of text next to each other are one
        a = [(squeeze(x) if isinstance(x, str) else piece(x[2])) for x in m]
        b = [(squeeze(x) if isinstance(x, str) else x) for x in tpl]
        if a != [x for x in b if x != ""]:
            return False
        # a space keeps a name and what follows apart
        for i, x in enumerate(m):
            if isinstance(x, str) and i and x.lstrip()[:1] in ("-", "s") and not x[:1].isspace():
                return False
            if isinstance(x, str) and squeeze(x).endswith("save-as") and not x[-1:].isspace():
                return False
        return True
    is_ = lambda t, v: lambda k: ("is", t, v) in k or v == "None" and ("isnt", t, "Some") in k or v == "Some" and ("isnt", t, "None") in k
    # systems
    for v, e, f, fs in arms(c, ds[Q + "SystemExpression"], Q + "SystemExpression", opq):
        if v == "Component":
            one(Q + "SystemExpression", v, [(is_(fs[1], "Some"), [fs[0], "[", ("v", fs[1], "Some", "0"), "]"]), (is_(fs[1], "None"), [fs[0]])], e, f, fs)
        else:
            toks = {"Quotient": ("\\\\", "//"), "Composition": ("||",), "Conjunction": ("&&",)}[v]
            ws = written(e, f, params(f)[1]) or []
            tok = next((t for t in toks if any(t in x for k, m in ws for x in m if isinstance(x, str))), toks[0])
            one(Q + "SystemExpression", v, [(None, ["(", fs[0], tok, fs[1], ")"])], e, f, fs)
    # what is saved
    e, f = c.entry(ds[Q + "SaveExpression"], opq)
    if f is not None:
        me = params(f)[0]
        s, nm = ("f", me, "system"), ("f", me, "name")
        one(Q + "SaveExpression", None, [(is_(nm, "Some"), [s, "save-as", ("v", nm, "Some", "0")]), (is_(nm, "None"), [s])], e, f, ())
    # queries
    for v, e, f, fs in arms(c, ds[Q + "QueryExpression"], Q + "QueryExpression", opq):
        if v == "Refinement":
            one(Q + "QueryExpression", v, [(None, [KEYS[v], fs[0], "<=", fs[1]])], e, f, fs)
        elif v == "Reachability":
            o = ("arg", "$from")
            one(Q + "QueryExpression", v, [
                (is_(o, "Some"), [KEYS[v], ("arg", "$system"), "@", ("v", o, "Some", "0"), "->", ("arg", "$to")]),
                (is_(o, "None"), [KEYS[v], ("arg", "$system"), "@init->", ("arg", "$to")])], e, f, fs)
        else:
            one(Q + "QueryExpression", v, [(None, [KEYS.get(v, v), fs[0]])], e, f, fs)
    e, f = c.entry(ds[S + "ComponentVariable"], opq)
    if f is not None:
        me = params(f)[0]
        cp, sp, vr = (("f", me, x) for x in ("component", "special_id", "variable"))
        one(S + "ComponentVariable", None, [(is_(sp, "Some"), [cp, "[", ("v", sp, "Some", "0"), "].", vr]), (is_(sp, "None"), [cp, ".", vr])], e, f, ())
    for v, e, f, fs in arms(c, ds[S + "OperandExpression"], S + "OperandExpression", opq):
        one(S + "OperandExpression", v, [(None, [fs[0], "-" if v == "Difference" else "+", fs[1]] if len(fs) == 2 else [fs[0]])], e, f, fs)
    for v, e, f, fs in arms(c, ds[S + "StateExpression"], S + "StateExpression", opq):
        if v in TOK:
            one(S + "StateExpression", v, [(None, [fs[0], TOK[v], fs[1]])], e, f, fs)
        elif v == "NOT":
            ws = written(e, f, params(f)[1]) or []
            nt = "not(" if any("not" in x for k, m in ws for x in m if isinstance(x, str)) else "!("
            one(S + "StateExpression", v, [(None, [nt, fs[0], ")"])], e, f, fs)
        elif v in ("AND", "OR"):
            n += many(c, e, f, v, fs[0], ds[S + "StateExpression"])
        else:
            one(S + "StateExpression", v, [(None, [fs[0]])], e, f, fs)
    return n


def many(c, e, f, v, part, fid):
    """The parts in parentheses with the operator between them."""
    tok = "&&" if v == "AND" else "||"
    word = v.lower()
    ws = [(k, m) for k, m in written(e, f, params(f)[1]) or [] if m]
    key = "print-" + v
    if not c.oblige(ws, key, fid, "nothing is printed of %s" % v):
        return 0
    for k, m in ws:
        if len(m) == 1 and not isinstance(m[0], str) and piece(m[0][2])[0] == "acc":
            b, cs = e.contribs(piece(m[0][2]))
            txt = []
            for op, args, kk, w, fr, bb in cs:
                for k2, ps in textify(e, args[-1], kk):
                    txt.append((op, joined(ps), fr, bb))
            for k2, ps in textify(e, b):
                base = joined(ps)
            if len({id(fr) for _, _, fr, _ in txt}) > 1 or any(fr is None for _, _, fr, _ in txt):
                raise Undecided("the order in which the parts of %s are printed" % v)
            m_ = txt[0][2].body if txt else None
            rounds = [i for i, bl in enumerate(m_.blocks) if called(bl["t"]) in ("next",)] if txt else []

            def order(x, y):
                p, q = x[3], y[3]
                a, b2 = reach(m_, p, q), reach(m_, q, p)
                if a and b2:
                    a, b2 = reach(m_, p, q, rounds), reach(m_, q, p, rounds)
                return -1 if a and not b2 else 1 if b2 and not a else 0
            txt.sort(key=functools.cmp_to_key(order))
            strs = [squeeze(x) for x in base if isinstance(x, str)] + [squeeze(x) for _, ps, _, _ in txt for x in ps if isinstance(x, str)]
            strs = [x for x in strs if x]
            els = [(piece(x[2]), fr, bb) for _, ps, fr, bb in txt for x in ps if not isinstance(x, str)]
            good = "".join(strs) in ("(%s)" % tok, "(%s)" % word) and len(els) == 1 and piece(els[0][0]) == ("elem", part)
            if not c.oblige(good, key, fid, "%s is printed with %s" % (v, strs)):
                continue
            lv = leaves(e, els[0][1], els[0][2])
            bad = [a for a in e.guards(els[0][1], els[0][2]) if a[0] in ("is", "isnt") and a[1][0] in ("call", "bin") and cname_of(a[1]) not in ("next",) and
                   "enumerate" in show(a[1])]
            c.oblige(not lv and not bad, key + "-all", fid, "not all parts of %s are printed" % v)
            for j, (op, ps, fr, bb) in enumerate(txt):
                if any(isinstance(x, str) and squeeze(x) in (tok, word) for x in ps) and fr is not None:
                    c.oblige(not any(not isinstance(x, str) for _, qs, _, _ in txt[:j] for x in qs), key + "-before", fid, "the operator follows the first part only")
                    gs = [a for a in e.guards(fr, bb) if a[0] in ("is", "isnt") and a[1][0] == "bin"]
                    for a in gs:
                        l, r = a[1][2:]
                        o = a[1][1]
                        pos_ = (o == "Gt" and r == ("k", 0) or o == "Ne" and ("k", 0) in (l, r) or o == "Lt" and l == ("k", 0) or o == "Ge" and r == ("k", 1)) and a[2] is True or \
                            (o == "Eq" and ("k", 0) in (l, r) or o == "Le" and r == ("k", 0) or o == "Lt" and r == ("k", 1)) and a[2] is False
                        if any(y[0] == "pos" or "pos" in show(y) for y in (l, r)):
                            c.oblige(pos_, key + "-between", fid, "the operator is printed if " + show(a)[:100])
        elif any(not isinstance(x, str) and piece(x[2])[0] == "call" and cname(piece(x[2])) in ("join", "intersperse") for x in m):
            j = next(piece(x[2]) for x in m if not isinstance(x, str))
            u = tables.unmap(e, j[2][0])
            good = squeeze("".join(x for x in m if isinstance(x, str))) == "()" and j[2][1][0] == "k" and squeeze(j[2][1][1]) in (tok, word) and \
                u is not None and u[0] == (part, 1) and piece(textual(e, u[1])) == ("elem", part)
            if u is None and strip_el(e, j[2][0]) == part:
                good = True
            c.oblige(good, key, fid, "%s is printed as %s" % (v, shown(m)[:160]))
        else:
            raise Undecided("what is printed of %s: %s" % (v, shown(m)[:80]))
    return 1


def textual(e, t):
    ps = textify(e, t)
    if len(ps) == 1 and len(ps[0][1]) == 1 and not isinstance(ps[0][1][0], str):
        return ps[0][1][0][2]
    return t


def strip_el(e, t):
    while t[0] == "call" and cname(t) in ("iter", "into_iter", "collect") and t[2]:
        t = t[2][0]
    return t
