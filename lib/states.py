"""States and transitions followed through memory, for the checks of searches."""
import fx
from core import *
from zones import *


def steps(e, t, kept=False):
    """(state it started as, [(method, arguments)] it went through, in no particular order), or None; with
    kept it may go through them turn by turn of a loop."""
    n = 0
    ops = []
    while n < 12:
        n += 1
        if t[0] == "acc":
            b, cs = e.contribs(t)
            for op, args, k, w, fr, bb in cs:
                if op == "@kept" and kept:
                    continue
                if op != "@call":
                    return None
                x = args[0]
                ops.append((cname(x), x[2], fr, bb))
                if not kept and not fresh(e, t, fr, bb):
                    # a state kept from one turn of a loop to the next
                    return None
            t = b
        elif t[0] == "call" and cname(t) in ("clone", "to_owned") and t[2]:
            t = t[2][0]
        elif t[0] == "v" and t[2] == "Some" and t[1][0] == "call" and cname(t[1]) == "use_transition_alt" and len(t[1][2]) == 2:
            ops.append(("use_transition", t[1][2], None, None))
            t = t[1][2][1]
        else:
            return t, ops
    return None


def owner(e, t):
    """The state a zone belongs to."""
    while t[0] == "call" and cname(t) in ("clone", "to_owned") and t[2]:
        t = t[2][0]
    return zone_owner(t)


def flat(t):
    """An iterator chain in some order."""
    while t[0] in ("call", "acc"):
        if t[0] == "call" and cname(t) in ("into_iter", "iter", "collect", "cloned", "sorted", "rev", "clone", "to_vec", "copied", "from_iter",
                                           "into_sorted_vec", "unique", "dedup") and t[2]:
            t = t[2][0]
        else:
            break
    return t


def negated(a):
    while a[0] == "is" and isinstance(a[2], bool) and a[1][0] == "un" and a[1][1] == "Not":
        a = ("is", a[1][2], not a[2])
    return a


def strip_clone(t):
    while t[0] == "call" and cname(t) in ("clone", "to_owned", "to_string", "into", "from", "as_str") and len(t[2]) == 1:
        t = t[2][0]
    return t


def same_acc(a, b):
    return a == b or a[0] == b[0] == "acc" and a[1][:2] == b[1][:2]


def flip(a):
    return a[:2] + (not a[2],) if isinstance(a[2], bool) else a


def dominates(b, p, q):
    """Every way to block q passes block p."""
    seen, st = set(), [0]
    while st:
        i = st.pop()
        if i in seen or i == p:
            continue
        seen.add(i)
        st += b.succ[i]
    return q not in seen


# what a closure given to an iterator answers to go on with the next element
GO_ON = {"any": [False], "all": [True], "try_for_each": ["Ok", "Some", "Continue"], "find": [False], "find_map": ["None"],
         "position": [False], "map_while": ["Some"], "take_while": [True], "try_fold": ["Ok", "Some", "Continue"]}


def rounds(e, fr, bb):
    """(frame it is decided in, [K] of going on with the next element) for the innermost loop or iteration around bb."""
    while fr is not None:
        lps = [(len(lp["body"]), h) for h, lp in fr.body.loops.items() if bb in lp["body"]]
        if lps:
            h = min(lps)[1]
            return fr, turns(e, fr, h, fr.body.loops[h])
        if "{closure" in fr.body.id and fr.parent is not None:
            p, pb = fr.parent
            t = p.body.blocks[pb]["t"]
            fn = t[1][1].get("fn") if t[0] == "call" and t[1][0] == "k" else None
            nm = last(fn or "")
            vals = GO_ON.get(nm)
            ad = last(fr.body.locals[0]["ty"].get("adt") or "")
            if vals and ad in ("Result", "Option", "ControlFlow"):
                vals = [v for v in vals if v in {"Result": ("Ok", "Err"), "Option": ("Some", "None"), "ControlFlow": ("Continue", "Break")}[ad]]
            out = []
            for x, k in e.returns(fr):
                if vals is None:
                    out.append(e.close(k))
                    continue
                for v in vals:
                    if x[0] == "k" and isinstance(v, bool):
                        if x[1] is v:
                            out.append(e.close(k))
                    elif x[0] == "agg":
                        if x[2] == v:
                            out.append(e.close(k))
                    elif x[0] == "failed":
                        pass
                    else:
                        kk = e.close(k | {("is", x, v)})
                        if not e.contradict(kk):
                            out.append(kk)
            return fr, out
        if fr.parent is None:
            return None, []
        fr, bb = fr.parent
    return None, []


def turns(e, fr, h, lp, limit=400):
    """[K] of each way round a loop."""
    b, out = fr.body, []
    base = fr.Kat(h) or frozenset()
    work = [(h, frozenset(base), frozenset({h}))]
    while work and len(out) < limit:
        i, k, seen = work.pop()
        if i not in fr.feas():
            continue
        k = k | fr.did(i)
        for n, s in enumerate(b.succ[i]):
            if s not in lp["body"]:
                continue
            kk = e.close(k | fr.edge_atoms(i, n))
            if e.contradict(kk):
                continue
            if s == h:
                out.append(kk)
            elif s not in seen:
                work.append((s, kk, seen | {s}))
    if work:
        lk = e.latch_K(fr, h)
        return lk[2] if lk else []
    return out


def ways(e, z, fr, bb):
    """[(value, K)]: what z may be in block bb of fr, with what is known when it was not overwritten since."""
    ps = [p for p in e.phis.get(z, ()) if p[0][0] != "never"]
    out = []
    if z[0] != "phi" or not ps or any(f is None for _, f, _ in ps):
        return ground(e, z, frozenset())
    for a, f, d in ps:
        at = [bb] if f is fr else [i for i in f.body.reach if f.body.blocks[i]["t"][0] == "return"]
        for i in at:
            k = f.kept(d, [o[2] for o in ps if o[2] != d], i) | (f.Kat(d[0]) or frozenset() if d[0] != "arg" else frozenset())
            out += [(y, ky) for y, ky in ground(e, a, e.close(k)) if not e.contradict(ky)]
    return out


def results(e, f):
    """[(value, K)] of the result of f, for each combination of branches that leads to it."""
    def rec(t, k, n):
        ps = e.phis.get(t) if t[0] == "phi" else None
        if not ps or n > 6 or any(fr is None for _, fr, _ in ps):
            return [(t, k)] if not ps or n > 6 else [x for x in expand(e, t, k)]
        out = []
        for a, fr, d in ps:
            if a[0] == "never" or d[0] == "arg":
                continue
            for kk in e.gcases(fr, d[0]):
                q = e.close(k | kk | (fr.Kat(d[0]) or frozenset()))
                if not e.contradict(q):
                    out += rec(a, q, n + 1)
        return out
    return rec(f.ret(), frozenset(), 0)
