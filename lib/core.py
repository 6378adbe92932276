"""Check harness: anchors, obligations, violations, known findings, evidence."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import facts as F  # noqa: E402
import fx  # noqa: E402
from fx import show, last, subterms, mentions  # noqa: E402,F401


class Undecided(Exception):
    """The construct a rule needs does not type-check, so nothing is said about it."""


class Check:
    def __init__(self, pid, prog, info, quiet=False):
        self.pid = pid
        self.p = prog
        self.info = info
        self.viols = []
        self.obl = []
        self.notes = []
        self.fns = set()
        self.sites = 0
        self.quiet = quiet
        self._cache = {}

    # -- anchors
    def entry(self, fid, opaque=(), args=None, must=True, recurse=None, stub=None):
        """Frame of a function; a missing one is reported (fail closed) unless its file does not
        type-check."""
        e = fx.Engine(self.p, opaque)
        e.recurse.update(recurse or {})
        e.stub.update(stub or {})
        f = e.entry(fid, args)
        if f is None:
            if fid in self.p.tainted:
                raise Undecided("%s does not type-check" % fid)
            if must:
                self.viol("anchor", fid, "the function %s, which this property is anchored in, is gone" % fid)
            return e, None
        self.fns.add(fid)
        return e, f

    def events(self, e, f):
        key = (id(e), id(f))
        if key not in self._cache:
            ev = e.events(f)
            self._cache[key] = (ev, e, f)
            self.sites += len(ev)
            for x in ev:
                self.fns.add(x.fn)
        return self._cache[key][0]

    # -- results
    def memory(self, *types):
        """Follow values of these types through memory: calls that get them mutably change them."""
        p = fx.Prog(self.p.facts)
        p.hit_tainted = self.p.hit_tainted
        p.bodies.colls = frozenset(types)
        self.p = p

    def oblige(self, cond, key, where, msg):
        """One obligation: recorded, and a violation when it does not hold."""
        self.obl.append((key, bool(cond)))
        if not cond:
            self.viol("rule", key, msg, where)
        return bool(cond)

    def viol(self, kind, key, msg, where=""):
        for v in self.viols:
            if v["key"] == key:
                return
        self.viols.append({"kind": kind, "key": key, "msg": msg, "where": where})

    def floor(self, n, least, key, what):
        """Fewer instances than known to exist means that the rule lost its anchor."""
        self.obl.append(("floor:" + key, n >= least))
        if n < least:
            self.viol("floor", "floor:" + key, "only %d of at least %d %s found" % (n, least, what))

    def note(self, s):
        self.notes.append(s)


def known():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("finding: "):
                d = line[len("finding: "):]
                prop, key, msg = d.split(" | ", 2)
                out.setdefault(prop.replace("property=", "").strip(), {})[key.strip()] = msg
    return out


def run_check(pid, mod, tier, seed, prog=None, info=None, write=True):
    t0 = time.time()
    head = []
    try:
        if prog is None:
            facts, info = F.build()
            prog = fx.Prog(facts)
    except F.NoFacts as x:
        # A tree the compiler does not accept has no behaviour to judge.
        print("NOT-COMPILING property=%s: %s" % (pid, str(x)[:2000]))
        if write:
            evidence(pid, mod, tier, seed, None, {"undecided": str(x)[:500]}, t0)
        return 0, []
    prog.hit_tainted = set()
    c = Check(pid, prog, info)
    und = None
    try:
        mod.run(c)
    except Undecided as x:
        und = str(x)
    except Exception:
        # An analysis that cannot follow the code proves nothing: fail closed.
        tb = traceback.format_exc()
        print(tb)
        c.viol("analysis", "analysis", "the analysis could not follow the code: " + tb.strip().splitlines()[-1])
    if prog.hit_tainted and (c.viols or und):
        und = und or "relies on code that does not type-check: " + ", ".join(sorted(prog.hit_tainted)[:5])
        c.viols = []
    print("%s %s: %d functions, %d events, %d obligations (%d hold) in %.1fs; facts %s%s" % (
        pid, mod.TITLE, len(c.fns), c.sites, len(c.obl), sum(1 for _, o in c.obl if o), time.time() - t0,
        info["hash"], " (cached)" if info.get("cached") else ""))
    for n in c.notes:
        print("  " + n)
    if und:
        print("UNDECIDED property=%s: %s" % (pid, und))
    kn = known().get(pid, {})
    rc = 0
    real = []
    for v in c.viols:
        if v["key"] in kn:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, v["key"], kn[v["key"]]))
            v["known"] = True
            continue
        real.append(v)
    if real:
        rc = 1
        rp = os.path.join(F.WORK, "replay-%s.json" % pid)
        os.makedirs(F.WORK, exist_ok=True)
        with open(rp, "w") as f:
            json.dump({"property": pid, "facts": info["hash"], "violations": real}, f, indent=1)
        for v in real:
            print("  violated %s: %s [%s]" % (v["key"], v["msg"], v["where"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if write:
        evidence(pid, mod, tier, seed, c, {"undecided": und} if und else {}, t0)
    return rc, c.viols


def evidence(pid, mod, tier, seed, c, extra, t0):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {"explanation": mod.EXPLAIN}
    if c is not None:
        cov.update({
            "functions_analysed": len(c.fns),
            "functions": sorted(c.fns)[:200],
            "events_examined": c.sites,
            "obligations": len(c.obl),
            "discharged": sum(1 for _, o in c.obl if o),
            "obligation_keys": sorted({k for k, _ in c.obl})[:400],
            "bodies_in_program": len(c.p.bodies),
            "bodies_not_type_checked": len(c.p.tainted),
            "notes": c.notes[:50],
            "facts_hash": c.info["hash"],
        })
    cov.update(extra)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": getattr(mod, "ASSUME", []) or [
              "the zone library behaves as documented", "callees outside the crate behave as documented"],
          "wall_s": round(time.time() - t0, 2),
          "violations": [v["key"] for v in c.viols] if c is not None else []}
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


# ---- term patterns -------------------------------------------------------------------------
class V:
    """Capture (same name: same term)."""

    def __init__(self, n, sub=None):
        self.n = n
        self.sub = sub


ANY = V(None)


class Cl:
    def __init__(self, name, *args):
        self.names = name.split("|")
        self.args = args


class Fd:
    def __init__(self, base, name):
        self.base = base
        self.name = name


class Pay:
    def __init__(self, base, var=None, name="0"):
        self.base = base
        self.var = var
        self.name = name


class El:
    def __init__(self, c):
        self.c = c


class K:
    def __init__(self, v):
        self.v = v


class Or:
    def __init__(self, *alts):
        self.alts = alts


def cname(t):
    if t[0] != "call":
        return None
    return t[1][1:] if t[1].startswith("@") else last(t[1])


def match(pat, t, b=None):
    """Bindings dict, or None."""
    b = {} if b is None else b
    return _m(pat, t, b)


def _m(pat, t, b):
    if isinstance(pat, V):
        if pat.sub is not None:
            b = _m(pat.sub, t, b)
            if b is None:
                return None
        if pat.n is None:
            return b
        if pat.n in b:
            return b if b[pat.n] == t else None
        b = dict(b)
        b[pat.n] = t
        return b
    if isinstance(pat, Or):
        for p in pat.alts:
            r = _m(p, t, b)
            if r is not None:
                return r
        return None
    if not isinstance(t, tuple) or not t:
        return None
    if isinstance(pat, Cl):
        if t[0] != "call" or cname(t) not in pat.names:
            return None
        if len(pat.args) == 1 and pat.args[0] is Ellipsis:
            return b
        if len(t[2]) != len(pat.args):
            return None
        for p, x in zip(pat.args, t[2]):
            b = _m(p, x, b)
            if b is None:
                return None
        return b
    if isinstance(pat, Fd):
        return _m(pat.base, t[1], b) if t[0] == "f" and t[2] == pat.name else None
    if isinstance(pat, Pay):
        if t[0] == "v" and (pat.var is None or t[2] == pat.var) and t[3] == pat.name:
            return _m(pat.base, t[1], b)
        return None
    if isinstance(pat, El):
        return _m(pat.c, t[1], b) if t[0] == "elem" else None
    if isinstance(pat, K):
        return b if t[0] == "k" and t[1] == pat.v and type(t[1]) is type(pat.v) else None
    return b if pat == t else None


def atoms(Ks, kind, pat, val=None):
    """Bindings of every atom of that kind in K matching."""
    out = []
    for a in Ks:
        if a[0] == kind and (val is None or a[2] == val) and len(a) == 3:
            r = match(pat, a[1])
            if r is not None:
                out.append(r)
    return out


def holds(Ks, pat, val, b=None):
    for a in Ks:
        if a[0] == "is" and a[2] == val and type(a[2]) is type(val) and match(pat, a[1], b) is not None:
            return True
    return False


def did(Ks, name, *argpats):
    for a in Ks:
        if a[0] == "did" and last(a[1]) == name:
            if not argpats:
                return True
            if len(argpats) == len(a[2]):
                b = {}
                for p, x in zip(argpats, a[2]):
                    b = _m(p, x, b)
                    if b is None:
                        break
                if b is not None:
                    return True
    return False


def zone_owner(t):
    """The state whose zone this is: field access, take, reference or clone."""
    if t[0] == "call" and cname(t) in ("take_zone", "ref_zone", "clone_zone", "zone_ref") and t[2]:
        return t[2][0]
    if t[0] == "v" and t[2] == "Some" and t[3] == "0":
        x = t[1]
        if x[0] == "call" and cname(x) == "take" and x[2]:
            x = x[2][0]
        if x[0] == "f" and x[2] == "zone_sentinel":
            return x[1]
    return None


# ---- shared shapes --------------------------------------------------------------------------
def fed_sources(e, t, depth=0):
    """Element terms a federation / collection is accumulated from, or None if the shape is not
    recognised. Looks through in-place accumulation, folds, unions and iterator chains."""
    if depth > 6:
        return None
    if t[0] == "acc":
        base, cs = e.contribs(t)
        out = fed_sources(e, base, depth + 1)
        if out is None:
            return None
        for op, args, k, w, fr, bb in cs:
            if op in fx.MUTDEL:
                return None
            if op in ("extend", "append", "extend_from_slice"):
                s = fed_sources(e, args[0], depth + 1)
                if s is None:
                    s = [e.elem(args[0])]
                out = out + s
            else:
                out = out + [args[-1]]
        return out
    if t[0] == "call":
        n = cname(t)
        if n in ("empty", "new", "with_capacity", "default"):
            return []
        if n == "fold" and len(t[2]) == 3:
            init = fed_sources(e, t[2][1], depth + 1)
            if init is None:
                return None
            acc = ("acc!", t)
            r = e.apply(t[2][2], [acc, e.elem(t[2][0])], t[3])
            if r[0] == "call" and cname(r) in ("add", "union", "append") and len(r[2]) == 2 and acc in r[2]:
                o = r[2][1] if r[2][0] == acc else r[2][0]
                return init + [o]
            if r[0] == "bin" and r[1] in ("Add", "BitOr") and acc in r[2:]:
                return init + [r[3] if r[2] == acc else r[2]]
            return None
        if n in ("union", "add") and len(t[2]) == 2:
            a = fed_sources(e, t[2][0], depth + 1)
            b = fed_sources(e, t[2][1], depth + 1)
            return (a if a is not None else [t[2][0]]) + (b if b is not None else [t[2][1]])
        if n in ("map", "filter", "filter_map", "flat_map", "chain", "flatten"):
            if n == "chain":
                a = fed_sources(e, t[2][0], depth + 1)
                b = fed_sources(e, t[2][1], depth + 1)
                return (a if a is not None else [e.elem(t[2][0])]) + (b if b is not None else [e.elem(t[2][1])])
            return [e.elem(t)]
        return None
    if t[0] == "bin" and t[1] in ("Add", "BitOr"):
        a = fed_sources(e, t[2], depth + 1)
        b = fed_sources(e, t[3], depth + 1)
        return (a if a is not None else [t[2]]) + (b if b is not None else [t[3]])
    if t[0] == "array":
        return list(t[1])
    return None


def foralls(e, Ks, coll_pred):
    """Cases (disjunction) of what is known of every element of the collections accepted."""
    inner = frozenset(a[2] for a in Ks if a[0] == "forall" and coll_pred(a[1]))
    return e.cases(inner) if inner else []


def when(K, t, variant):
    """K is compatible with term t being that variant."""
    for a in K:
        if a[0] == "is" and a[1] == t and isinstance(a[2], str) and a[2] != variant:
            return False
        if a[0] == "isnt" and a[1] == t and a[2] == variant:
            return False
    return True


def lin(t):
    """(base, integer offset)."""
    n = 0
    while True:
        if t[0] == "f" and t[2] == "0" and t[1][0] == "bin":
            t = t[1]
        if t[0] == "bin" and t[1] in ("Add", "Sub") and t[3][0] == "k" and type(t[3][1]) is int:
            n += t[3][1] if t[1] == "Add" else -t[3][1]
            t = t[2]
            continue
        if t[0] == "k" and type(t[1]) is int:
            return None, n + t[1]
        return t, n


def expand(e, t, k=frozenset()):
    """Alternatives (term, K) of a value, without the impossible ones."""
    out = []
    for a, k2 in e.gated(t):
        kk = e.close(k | k2)
        if not e.contradict(kk):
            out.append((a, kk))
    return out


def truth_cases(e, t, val, k=frozenset()):
    """DNF of what makes boolean (or enum) term t have that value."""
    kk = e.close(k | {("is", t, val)})
    return [x for x in e.cases(kk) if not e.contradict(x)]


READS = {"index", "index_mut", "len", "iter", "iter_mut", "into_iter", "get", "get_mut", "deref", "deref_mut",
         "is_empty", "next", "enumerate", "zip", "as_slice", "as_mut_slice", "clone", "eq", "ne", "fmt", "new_debug",
         "new_display", "as_ref", "contains", "first", "last", "borrow", "borrow_mut", "by_ref", "rev", "skip", "take_while"}


def writes_to(evs, coll):
    """Events that may change a collection (or an element of it)."""
    return [x for x in evs if x.args and last(x.name) not in READS and (
        x.args[0] == coll or (x.args[0][0] == "idx" and x.args[0][1] == coll) or
        x.args[0] == ("elem", coll)) and not x.name.startswith("@store")]


TEXTOPS = ("write_fmt", "write_str", "write_char", "push_str", "push", "fmt", "write_all")


def written(e, f, sink, names=TEXTOPS):
    """[(K, pieces)] of what each successful path of f writes to the sink: strings and terms."""
    ps = e.paths(f)
    if ps is None:
        return None
    out = []
    for k, evs, r in ps:
        if any(a[0] == "is" and a[2] in ("Break", "Err") for a in k):
            continue
        alts = [(k, [])]
        for x in evs:
            n = last(x.name)
            if n not in names or sink not in x.args or x.name.startswith("@"):
                continue
            if x.frame.calls.get(x.bb) is not None:
                continue
            rest = [a for a in x.args if a != sink]
            if not rest:
                continue
            new = []
            for k0, ps0 in alts:
                for k1, ps1 in textify(e, rest[0], x.K):
                    kk = e.close(k0 | k1)
                    # facts about the current element of a loop hold for the event only
                    if kk == k0 or not e.contradict(kk):
                        new.append((e.close(k0 | {a for a in k1 - x.K if plainly(a)}), ps0 + ps1))
            if len(new) > 2000:
                return None
            alts = new
        out += [(k1, joined(m)) for k1, m in alts]
    return out


def plainly(a):
    """Whether an Option that is not made in a loop is there."""
    if a[0] != "is" or a[2] not in ("Some", "None"):
        return False
    t = a[1]
    while t[0] in ("f", "v"):
        t = t[1]
    return t[0] == "arg"


def joined(ps):
    m = []
    for p in ps:
        if isinstance(p, str) and m and isinstance(m[-1], str):
            m[-1] += p
        elif p != "":
            m.append(p)
    return m


TEXTID = {"to_string", "to_owned", "into", "from", "as_str", "clone", "borrow", "as_ref", "deref", "into_string",
          "into_boxed_str", "trim_matches_none"}


def textify(e, t, K=frozenset(), depth=0):
    """[(K, pieces)] of the text a term stands for: strings and ("p", kind, term, K)."""
    if t[0] == "fmt":
        alts = [(K, [])]
        for p in t[1]:
            if isinstance(p, str):
                alts = [(k, ps + [p]) for k, ps in alts]
            elif p[0] == "display":
                alts = [(k2, ps + ps2) for k, ps in alts for k2, ps2 in textify(e, p[1], k, depth + 1)]
            else:
                alts = [(k, ps + [("p",) + tuple(p) + (k,)]) for k, ps in alts]
        return alts
    if t[0] == "k" and isinstance(t[1], (str, int)) and not isinstance(t[1], bool):
        return [(K, [str(t[1])])]
    if depth < 8:
        if t[0] == "phi":
            out = []
            for a, k in expand(e, t, K):
                if a[0] == "phi":
                    out.append((k, [("p", "display", a, k)]))
                else:
                    out += textify(e, a, k, depth + 1)
            return out
        if t[0] == "call" and len(t[2]) == 1 and cname(t) in TEXTID:
            return textify(e, t[2][0], K, depth + 1)
        if t[0] == "call" and cname(t) in ("add", "concat") and len(t[2]) == 2:
            return [(k2, p1 + p2) for k1, p1 in textify(e, t[2][0], K, depth + 1)
                    for k2, p2 in textify(e, t[2][1], k1, depth + 1)]
        if t[0] == "call" and cname(t) in ("concat", "join") and t[2]:
            els = e.arr_elems(t[2][0])
            if els is not None:
                alts = [(K, [])]
                for i, x in enumerate(els):
                    if i and len(t[2]) > 1:
                        alts = [(k2, ps + p2) for k, ps in alts for k2, p2 in textify(e, t[2][1], k, depth + 1)]
                    alts = [(k2, ps + p2) for k, ps in alts for k2, p2 in textify(e, x, k, depth + 1)]
                return alts
        o = t[2][0] if t[0] == "call" and t[2] else ("k", None)
        if cname(t) in ("unwrap_or_else", "unwrap_or") if t[0] == "call" and len(t[2]) == 2 else False:
            if o[0] == "call" and cname(o) in ("optmap", "map") and len(o[2]) == 2 and "#R" not in str(o[3]):
                src, some = o[2][0], e.apply(o[2][1], [e.payload(o[2][0], "Some", "0")], o[3] or "")
            else:
                src, some = o, e.payload(o, "Some", "0")
            none = e.apply(t[2][1], [], t[3] or "") if cname(t) == "unwrap_or_else" else t[2][1]
            return textify(e, some, e.close(K | {("is", src, "Some")}), depth + 1) + \
                textify(e, none, e.close(K | {("is", src, "None")}), depth + 1)
        if t[0] == "bin" and t[1] == "Add":
            return [(k2, p1 + p2) for k1, p1 in textify(e, t[2], K, depth + 1)
                    for k2, p2 in textify(e, t[3], k1, depth + 1)]
    return [(K, [("p", "display", t, K)])]


def texts(e, f):
    """[(K, pieces)] of the text a function returns."""
    out = []
    for t, k in e.returns(f):
        out += [(k2, joined(ps)) for k2, ps in textify(e, t, k)]
    return out


def ctor(e, adt, v, fields):
    return e.mkagg(adt, v, tuple((n, ("arg", "$" + n)) for n in fields))


def arms(c, fid, adt, opaque=None, pos=0, extra=None):
    """The function taken at each constructor of its argument: [(variant, engine, frame, field terms)].
    Recursive calls stay calls, so that each entry is one equation of the recursion."""
    out = []
    vs = c.p.adts.get(adt)
    if not vs:
        c.viol("anchor", adt, "the type %s, which this property is anchored in, is gone" % adt)
        return out
    b = c.p.bodies.get(fid)
    for v in vs:
        ns = [n for n, _ in v["fields"]]
        fs = tuple(("arg", "$" + n) for n in ns)
        e0 = fx.Engine(c.p, [fid])
        args = None
        if b is not None:
            args = [("arg", b.locals[i + 1]["n"] or "_%d" % (i + 1)) for i in range(b.argc)]
            for i, x in (extra or {}).items():
                args[i] = x
            args[pos] = e0.mkagg(adt, v["name"], tuple(zip(ns, fs)))
        e, f = c.entry(fid, [fid] if opaque is None else opaque, args and tuple(args))
        if f is None:
            return out
        out.append((v["name"], e, f, fs))
    return out


def known_variants(e, K, t, vs):
    """The variants term t can have under K."""
    return [v for v in vs if when(K, t, v)]


def only_under(c, e, x, ok, key, msg):
    """Event x runs whenever the branches accepted by ok(atom) are taken: no other condition."""
    bad = [a for a in e.guards(x.frame, x.bb) if not ok(a)]
    return c.oblige(not bad, key, x.where, msg % "; ".join(show(a) for a in sorted(bad, key=repr))[:240])


def disj(c, e, f, fids, terms, key, what, const=None):
    """The boolean result is the disjunction of the recursive results for these terms (none: that constant)."""
    def known(kk, x, val):
        return any(a[0] == "is" and a[1][0] == "call" and a[1][1] in fids and a[1][2] and a[1][2][0] == x and
                   a[2] is val for a in kk)
    some = False
    for val in (True, False):
        for t, k in e.returns(f):
            for kk in truth_cases(e, t, val, k):
                some = True
                yes = [x for x in terms if known(kk, x, True)]
                no = [x for x in terms if known(kk, x, False)]
                if terms:
                    c.oblige(bool(yes) if val else len(no) == len(terms), key, "", "%s is %s %s" % (
                        what, "true without an operand it is true of" if val else "false",
                        "" if val else "though an operand was not asked"))
                else:
                    c.oblige(val == const, key, "", "%s is %s" % (what, val))
    c.oblige(some, key + "-some", "", "nothing is known of %s" % what)


def calls_on(e, f, fids, target):
    """Events calling one of the functions with that target (an element of a literal array counts)."""
    out = []
    for x in e.events(f):
        if x.name not in fids or not x.args:
            continue
        a = x.args[0]
        if a == target:
            out.append((x, None))
        elif a[0] == "elem":
            els = e.arr_elems(a[1])
            if els and target in els:
                out.append((x, a[1]))
    return out


def conds(e, x):
    """The conditions event x runs under, without those its constructor arguments settle."""
    return [a for a in e.guards(x.frame, x.bb) if a[0] != "did" and not (
        a[0] in ("is", "isnt") and a[1][0] in ("agg", "k"))]


def every_path(e, f, x, coll):
    """Event x runs on every path (once per element of coll, if given)."""
    for a in conds(e, x):
        if coll is not None and mentions_coll(a, coll):
            continue
        return False
    return True


def mentions_coll(a, coll):
    return fx.mentions(a[1], coll) or (isinstance(a[1], tuple) and a[1][0] == "call" and cname(a[1]) in ("next", "iter"))


def uses(e, t, pred, seen=None, depth=0):
    """The value t depends on a term satisfying pred: through choices, folds, iterator chains, built collections."""
    seen = set() if seen is None else seen
    if not isinstance(t, tuple) or t in seen or depth > 40:
        return False
    seen.add(t)
    if t and isinstance(t[0], str):
        if pred(t):
            return True
        go = []
        if t[0] == "phi":
            go = [x for x, _, _ in e.phis.get(t) or ()]
        elif t[0] == "acc":
            b, cs = e.contribs(t)
            go = [b] + [y for c in cs for y in c[1]]
        elif t[0] == "call" and t[1].startswith("@"):
            x = e.elem(t)
            go = [x] if x != ("elem", t) else []
            if cname(t) in ("max", "min", "last", "next", "sum", "count", "fold", "reduce", "collect") and t[2]:
                go.append(e.elem(t[2][0]))
                if cname(t) in ("fold", "reduce") and t[2][-1][0] == "closure":
                    go.append(e.apply(t[2][-1], [("acc!", t), e.elem(t[2][0])], t[3]))
        if any(uses(e, x, pred, seen, depth + 1) for x in go):
            return True
        if t[0] in ("phi", "acc"):
            return False
    return any(uses(e, x, pred, seen, depth + 1) for x in t if isinstance(x, tuple))


def bound_parts(t, K):
    """The bounds term and everything added to it before."""
    return [t] + [a[2][1] for a in K if a[0] == "did" and last(a[1]) == "add_bounds" and len(a[2]) == 2 and
                  a[2][0] == t]


def on_path(e, f, t, blocks, depth=0):
    """Value t of frame f where the path has passed these blocks."""
    while t[0] == "phi" and depth < 8:
        depth += 1
        best = None
        for x, fr, d in e.phis.get(t) or ():
            if fr is not f or not d or d[0] == "arg":
                pos = -1 if d and d[0] == "arg" and fr is f else None
            else:
                pos = max((i for i, b in enumerate(blocks) if b == d[0]), default=None)
            if pos is not None and (best is None or (pos, d[1] if pos >= 0 else 0) > best[0]):
                best = ((pos, d[1] if pos >= 0 else 0), x)
        if best is None:
            break
        t = best[1]
    return t


def outcomes(e, f):
    """[(value, K)] per path of the function; per return block where there are too many paths."""
    ps = e.paths(f)
    if ps is None:
        return [x for t, k in e.returns(f) for x in expand(e, t, k)]
    out = []
    for p in ps:
        k = p[0] | {("did", x.name, x.args) for x in p[1] if not x.name.startswith("@")}
        for r in expand(e, on_path(e, f, f.ret(), p.blocks), k):
            if r not in out:
                out.append(r)
    return out


def deep(e, t, k=frozenset(), env=None, n=0):
    """[(term without alternatives, K, choices)]: the possible values of a term, each choice made once."""
    env = env or {}
    if n > 60:
        return [(t, k, env)]
    if t[0] == "phi":
        if t in env:
            return deep(e, env[t], k, env, n + 1)
        if e.phis.get(t) is None:
            return [(t, k, env)]
        out = []
        for a, f, d in e.phis[t]:
            if a[0] == "never" or a == t:
                continue
            k2 = frozenset()
            if f is not None and d and d[0] != "arg":
                k0 = f.Kat(d[0])
                if k0 is None:
                    continue
                k2 = k0
                if d[1] >= len(f.body.blocks[d[0]]["s"]):
                    k2 = k2 | f.did(d[0])
            kk = e.close(k | k2)
            if not e.contradict(kk):
                out += deep(e, a, kk, dict(env, **{}) | {t: a}, n + 1)
        return out
    if t[0] == "v" or t[0] == "f":
        out = []
        for b, kb, en in deep(e, t[1], k, env, n + 1):
            if b[0] == "failed" and t[0] == "v" and t[2] in ("Ok", "Some", "Continue"):
                continue
            r = e.proj1(b, t[2] if t[0] == "v" else None, t[3] if t[0] == "v" else t[2])
            if r[0] == "never":
                continue
            if r[0] in ("v", "f") and r[1] == b:
                out.append((r, kb, en))
            else:
                out += deep(e, r, kb, en, n + 1)
        return out
    if t[0] == "agg":
        alts = [((), k, env)]
        for nm, x in t[3]:
            alts = [(fs + ((nm, y),), k2, en2) for fs, k1, en1 in alts for y, k2, en2 in deep(e, x, k1, en1, n + 1)]
        return [(e.mkagg(t[1], t[2], fs), k1, en1) for fs, k1, en1 in alts]
    if t[0] == "bin":
        return [(e.mkbin(t[1], a, b), k2, en2) for a, k1, en1 in deep(e, t[2], k, env, n + 1)
                for b, k2, en2 in deep(e, t[3], k1, en1, n + 1)]
    if t[0] == "un":
        return [(e.mknot(a) if t[1] == "Not" else ("un", t[1], a), k1, en) for a, k1, en in deep(e, t[2], k, env, n + 1)]
    ch = e.choice(t)
    if ch:
        return [x for a, ka in ch for x in deep(e, a, e.close(k | ka), env, n + 1) if not e.contradict(e.close(k | ka))]
    if t[0] == "call" and t[2]:
        alts = [((), k, env)]
        for x in t[2]:
            alts = [(fs + (y,), k2, en2) for fs, k1, en1 in alts for y, k2, en2 in deep(e, x, k1, en1, n + 1)]
        return [(("call", t[1], fs, t[3]), k1, en1) for fs, k1, en1 in alts]
    return [(t, k, env)]


def possible(e, k, env):
    """Whether the facts in k can hold under the choices made."""
    for a in k:
        if a[0] not in ("is", "isnt"):
            continue
        vs = {v for v, _, _ in deep(e, a[1], frozenset(), env)}
        if len(vs) != 1:
            continue
        v = vs.pop()
        if v[0] == "k" and type(v[1]) is type(a[2]) and (v[1] == a[2]) != (a[0] == "is"):
            return False
        if v[0] == "agg" and v[2] is not None and isinstance(a[2], str) and (v[2] == a[2]) != (a[0] == "is"):
            return False
    return True


def leaves(e, fr, bb, ok=lambda a: False, inner=False):
    """Conditions under which the loops around (fr, bb) (inner: the innermost one) are left before their collection is
    exhausted; edges accepted by ok(atom) and panics do not count."""
    out = []
    while fr is not None:
        b = fr.body
        lps = [lp for lp in b.loops.values() if bb in lp["body"] or chosen(fr, lp, bb)]
        for lp in [min(lps, key=lambda x: len(x["body"]))] if lps and inner else lps:
            for p in lp["body"]:
                if p not in fr.feas():
                    continue
                for i, s in enumerate(b.succ[p]):
                    if s in lp["body"] or not returns_from(b, s):
                        continue
                    at = fr.edge_atoms(p, i)
                    if any(a[0] == "is" and a[1][0] == "call" and cname(a[1]) in ("next", "pop", "pop_front", "pop_back")
                           and a[2] == "None" for a in at):
                        continue
                    k = fr.Kat(p)
                    if k is None or e.contradict(e.close(k | at)) or any(ok(a) for a in at):
                        continue
                    out.append((p, at))
        if fr.parent is None or inner:
            break
        fr, bb = fr.parent
    return out


def exhausted(at):
    return any(a[0] == "is" and a[1][0] == "call" and cname(a[1]) in ("next", "pop", "pop_front", "pop_back")
               and a[2] == "None" for a in at)


def chosen(fr, lp, bb):
    """Block bb runs after the loop was left before it was exhausted: for the element at hand."""
    b = fr.body
    if bb in lp["body"]:
        return False
    early, done = [], []
    for p in lp["body"]:
        if p in fr.feas():
            for i, s in enumerate(b.succ[p]):
                if s not in lp["body"] and returns_from(b, s):
                    (done if exhausted(fr.edge_atoms(p, i)) else early).append(s)

    def reach(ss):
        seen, st = set(), list(ss)
        while st:
            i = st.pop()
            if i not in seen and i not in lp["body"]:
                seen.add(i)
                st += b.succ[i]
        return seen
    return bool(early) and bool(done) and bb in reach(early) and bb not in reach(done)


def returns_from(b, s):
    seen, st = set(), [s]
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        if b.blocks[i]["t"][0] == "return":
            return True
        st += b.succ[i]
    return False


def why(e, t, val):
    """The ways choice t comes to be val, one for each combination of branches taken."""
    out = []
    for a, f, d in e.phis.get(t) or ():
        if a[0] == "k" and a[1] is not val or f is None or d[0] == "arg":
            continue
        more = frozenset() if a[0] == "k" else frozenset({("is", a, val)})
        for kk in e.gcases(f, d[0]):
            k = e.close((f.Kat(d[0]) or frozenset()) | kk | more)
            if not e.contradict(k):
                out.append(k)
    return out


def split(e, k, n=0):
    """The cases of K with boolean choices traced to the branches that made them."""
    ps = [a for a in k if a[0] == "is" and a[1][0] == "phi" and isinstance(a[2], bool) and e.phis.get(a[1])]
    if not ps or n > 4:
        return e.cases(e.close(k))
    a = sorted(ps, key=repr)[0]
    out = []
    for w in why(e, a[1], a[2]):
        kk = e.close((k - {a}) | w)
        if not e.contradict(kk):
            out += split(e, frozenset(z for z in kk if z != a), n + 1)
    return out


def fresh(e, t, fr, bb):
    return e.fresh(t, fr, bb)
