"""Dataflow engine over the facts written by `mirfacts`.

For an entry function the engine computes, without running anything:
  * a value term for every operand (reaching definitions, references/clones/conversions
    transparent, local helper functions and closures inlined by substitution);
  * for every program point the set K of atoms that hold on *every* path to it
    (a forward must-analysis: branch outcomes, calls performed, and "for every element of the
    collection" facts generated at loop exits and by any/all);
  * the list of events (calls and stores) with their argument terms and K.

Rules are stated on terms, atoms and events, so renaming, reordering independent statements,
extracting or inlining helpers and rewriting loops as iterator chains do not matter.
"""
import re
import sys
from functools import lru_cache
from collections import defaultdict, deque

sys.setrecursionlimit(20000)

LOGMACS = {"trace!", "debug!", "info!", "warn!", "error!", "log_enabled!", "println!", "print!",
           "trace", "debug", "info", "warn", "error", "log_enabled", "println", "print",
           "debug_assert!", "debug_assert", "debug_assert_eq", "debug_assert_eq!"}


SCALARS = {"bool", "char", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "usize", "isize", "f32", "f64"}
COLLTYPES = {"Vec", "HashMap", "HashSet", "VecDeque", "BTreeMap", "BTreeSet", "String", "OwnedFederation", "IndexMap"}
CELLTYPES = {"&mut " + x for n in ("usize", "u32", "u64", "i32", "i64", "u16", "bool")
             for x in (n, "std::option::Option<%s>" % n)}
MUTADD = {"add_assign", "push", "push_back", "push_front", "insert", "extend", "append", "push_str",
          "extend_from_slice", "bitor_assign"}
MUTDEL = {"clear", "retain", "pop", "pop_front", "pop_back", "remove", "swap_remove", "truncate", "drain", "dedup",
          "dedup_by", "dedup_by_key", "split_off", "take", "sub_assign"}


class LazyBodies:
    """id -> Body; the flow analyses of a body run when it is first looked at."""

    def __init__(self):
        self.raw = {}
        self.done = {}
        self.colls = frozenset()

    def add(self, b):
        self.raw.setdefault(b["id"], b)

    def get(self, k, d=None):
        r = self.done.get(k)
        if r is None:
            b = self.raw.get(k)
            if b is None:
                return d
            r = self.done[k] = Body(b, self.colls)
        return r

    def __getitem__(self, k):
        r = self.get(k)
        if r is None:
            raise KeyError(k)
        return r

    def __contains__(self, k):
        return k in self.raw

    def __iter__(self):
        return iter(self.raw)

    def keys(self):
        return self.raw.keys()

    def __len__(self):
        return len(self.raw)


class Prog:
    def __init__(self, facts):
        self.facts = facts
        self.tainted = set(facts["tainted"])
        self.bodies = LazyBodies()
        self.hit_tainted = set()
        for b in facts["bodies"]:
            if b["id"].startswith("tests::") or "::tests::" in b["id"]:
                continue
            self.bodies.add(b)
        self.adts = facts["adts"]
        self.traits = facts["traits"]
        self.impls = facts["impls"]
        self.impl_of = defaultdict(list)
        for im in self.impls:
            for t, i in im["items"]:
                self.impl_of[t].append((im["self"], i))

    def variants(self, adt):
        v = self.adts.get(adt)
        if v is None:
            if adt.endswith("option::Option"):
                return ["None", "Some"]
            if adt.endswith("result::Result"):
                return ["Ok", "Err"]
            if adt.endswith("ControlFlow"):
                return ["Continue", "Break"]
            if adt.endswith("cmp::Ordering"):
                return None
            if adt.endswith("constraints::Inequality"):
                return ["LS", "LE"]
            return None
        return [x["name"] for x in v]

    def implmap(self):
        """trait -> {(type, method): body}; the methods of an implementation for all types have type None."""
        if getattr(self, "_impls", None) is None:
            d = {}
            types = {}
            for b in self.bodies:
                m = re.match(r"^<([\w:]+) as ([\w:]+)>::(\w+)$", b)
                if m:
                    d.setdefault(m.group(2), {})[(m.group(1), m.group(3))] = b
                    types.setdefault(m.group(2), set()).add(m.group(1))
                m = re.match(r"^([\w:]+)::<impl ([\w:]+) for (\w)>::(\w+)$", b)
                if m:
                    d.setdefault(m.group(2), {})[(None, m.group(4))] = b
            full = {}
            for t in d:
                full[t] = d[t]
                full["#" + t] = types.get(t, set())
            # an implementation for all types covers the types that do not have their own
            allt = set().union(*types.values()) if types else set()
            for t in d:
                if any(a is None for a, _ in d[t]):
                    full["#" + t] = allt - types.get(t, set())
            self._impls = full
        return self._impls

    def find(self, suffix):
        """All bodies whose path ends with the given suffix."""
        return [i for i in self.bodies if i == suffix or i.endswith("::" + suffix)]


def pk(place):
    return place["l"]


class Body:
    def __init__(self, b, colls=frozenset()):
        self.b = b
        self.colls = colls
        self.id = b["id"]
        self.file = b["file"]
        self.line = b["line"]
        self.blocks = b["blocks"]
        self.locals = b["locals"]
        self.argc = b["argc"]
        self.kind = b["kind"]
        self.upvars = b["upvars"]
        self._cd = None
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        for i, bl in enumerate(self.blocks):
            t = bl["t"]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                s = [t[1]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[3]]
            elif k == "yield":
                s = [t[1]]
            else:
                s = []
            self.succ[i] = s
        # unreachable blocks by `unreachable` terminators are kept; remove edges to them so that
        # they do not take part in joins
        dead = {i for i in range(n) if self.blocks[i]["t"][0] == "unreachable" and not self.blocks[i]["s"]}
        self.dead = dead
        reach = set()
        q = [0]
        while q:
            x = q.pop()
            if x in reach:
                continue
            reach.add(x)
            q += [s for s in self.succ[x] if s not in dead]
        self.reach = reach
        for i in reach:
            for s in self.succ[i]:
                if s in reach:
                    self.pred[s].append(i)
        self._rd()
        self._muts()
        self._dom()

    # ---- in-place changes of local collections ------------------------------------
    def _muts(self):
        """mutsites: local collection -> [(bb, arg position, captured field or None)];
        parammuts: ("p", parameter) / ("u", captured name) -> the same."""
        self.mutsites = defaultdict(list)
        self.parammuts = defaultdict(list)
        refs = {}
        clos = {}
        ch = True
        rounds = 0
        while ch and rounds < 6:
            ch = False
            rounds += 1
            for i in self.reach:
                for s in self.blocks[i]["s"]:
                    pl, r = s[0], s[1]
                    if pl["p"]:
                        continue
                    t = pl["l"]
                    v = None
                    if r[0] == "ref" and r[1]:
                        v = self._mutbase(r[2], refs)
                        src = r[2]
                        if src["l"] in clos and all(e[0] == "*" for e in src["p"]) and t not in clos:
                            clos[t] = clos[src["l"]]
                            ch = True
                    elif r[0] == "use" and r[1][0] in ("m", "c"):
                        src = r[1][1]
                        if not src["p"]:
                            v = refs.get(src["l"])
                            if src["l"] in clos and t not in clos:
                                clos[t] = clos[src["l"]]
                                ch = True
                    elif r[0] == "agg" and r[1]["k"] == "closure":
                        fs = r[1]["fields"]
                        c = []
                        for n, o in enumerate(r[2]):
                            if o[0] in ("m", "c") and not o[1]["p"] and o[1]["l"] in refs:
                                c.append((refs[o[1]["l"]], fs[n] if n < len(fs) else str(n)))
                        if c and clos.get(t) != c:
                            clos[t] = c
                            ch = True
                    if v is not None and refs.get(t) != v:
                        refs[t] = v
                        ch = True
        self.refs = refs
        for i in self.reach:
            bl = self.blocks[i]
            t = bl["t"]
            if t[0] != "call" or (bl["mac"] and mac_name(bl["mac"]) in LOGMACS):
                continue
            for ai, o in enumerate(t[2]):
                if o[0] not in ("m", "c") or o[1]["p"]:
                    continue
                l = o[1]["l"]
                if l in refs:
                    self._mutadd(refs[l], (i, ai, None))
                for b, f in clos.get(l, ()):
                    self._mutadd(b, (i, ai, f))
        # which of them reach each block
        gen = defaultdict(dict)
        for l, sites in self.mutsites.items():
            for st in sites:
                gen[st[0]].setdefault(l, set()).add(st)
        inn = {i: {} for i in self.reach}
        if self.mutsites:
            work = deque(sorted(self.reach))
            out = {}
            while work:
                i = work.popleft()
                cur = {l: set(v) for l, v in inn[i].items()}
                bl = self.blocks[i]
                for s in bl["s"]:
                    if not s[0]["p"]:
                        cur.pop(s[0]["l"], None)
                for l, v in gen[i].items():
                    cur.setdefault(l, set()).update(v)
                if bl["t"][0] == "call" and not bl["t"][3]["p"]:
                    cur.pop(bl["t"][3]["l"], None)
                if out.get(i) == cur:
                    continue
                out[i] = cur
                for s in self.succ[i]:
                    if s not in self.reach:
                        continue
                    m = inn[s]
                    c2 = False
                    for l, v in cur.items():
                        o = m.setdefault(l, set())
                        if not v <= o:
                            o |= v
                            c2 = True
                    if c2 or s not in out:
                        work.append(s)
        self.mutin = inn

    def setter(self):
        """[(field, statement)] assigned through the first parameter, if that is all this body does; else None."""
        if not hasattr(self, "_setter"):
            out, ok = {}, len(self.reach) <= 4 and self.argc >= 1
            for i in self.reach:
                if self.blocks[i]["t"][0] not in ("return", "goto", "drop"):
                    ok = False
                for j, st in enumerate(self.blocks[i]["s"]):
                    pl = st[0]
                    if pl["l"] == 1 and len(pl["p"]) == 2 and pl["p"][0][0] == "*" and pl["p"][1][0] == "f":
                        ok = ok and str(pl["p"][1][2]) not in out
                        out[str(pl["p"][1][2])] = (i, j)
                    elif pl["p"] or st[1][0] == "ref" and st[1][1]:
                        ok = False
            self._setter = sorted(out.items()) if ok and out else None
        return self._setter

    def setter_sites(self, prog):
        """local -> blocks where a plain setter is called on it."""
        if not hasattr(self, "_ssites"):
            r = defaultdict(list)
            tmp = {}
            for i in self.reach:
                for st in self.blocks[i]["s"]:
                    if not st[0]["p"] and st[1][0] == "ref" and st[1][1] and not st[1][2]["p"]:
                        tmp.setdefault(st[0]["l"], set()).add(st[1][2]["l"])
            for i in self.reach:
                t = self.blocks[i]["t"]
                if t[0] != "call" or not t[2] or t[1][0] != "k" or t[1][1].get("fn") not in prog.bodies:
                    continue
                o = t[2][0]
                if o[0] in ("m", "c") and not o[1]["p"] and len(tmp.get(o[1]["l"], ())) == 1 and \
                        prog.bodies[t[1][1]["fn"]].setter():
                    r[next(iter(tmp[o[1]["l"]]))].append(i)
            self._ssites = r
        return self._ssites

    def cells(self):
        """Parameters that are mutable references to a number: l -> ({block: statements that store to it},
        {block: position at which its terminator passes it on})."""
        if not hasattr(self, "_cells"):
            self._cells = {}
            for l in range(1, self.argc + 1):
                if self.locals[l]["ty"]["s"] in CELLTYPES:
                    st = defaultdict(list)
                    for i in self.reach:
                        for j, s in enumerate(self.blocks[i]["s"]):
                            if s[0]["l"] == l and [e[0] for e in s[0]["p"]] == ["*"]:
                                st[i].append(j)
                    self._cells[l] = (st, {i: ai for i, ai, f in self.parammuts.get(("p", l), ()) if f is None})
            held = {}
            for i in self.reach:
                for s in self.blocks[i]["s"]:
                    if s[1][0] == "ref" and not s[0]["p"] and s[1][2]["l"] in self._cells:
                        held[s[0]["l"]] = s[1][2]["l"]
            self.captured = {held.get(o[1]["l"], o[1]["l"]) for i in self.reach for s in self.blocks[i]["s"]
                             if s[1][0] == "agg" and s[1][1]["k"] == "closure" for o in s[1][2] if len(o) > 1 and isinstance(o[1], dict)
                             and "l" in o[1]} & set(self._cells)
        return self._cells

    def _mutbase(self, pl, refs):
        pr = pl["p"]
        l = pl["l"]
        if not pr:
            if self._iscoll(l):
                return ("l", l)
            if self.locals[l]["ty"]["s"].startswith("&mut "):
                # a borrow of the borrow: a closure captures it so
                return refs.get(l) or (("p", l) if 1 <= l <= self.argc else None)
            return None
        nd = [e for e in pr if e[0] != "*"]
        if not nd:
            if l in refs:
                return refs[l]
            if 1 <= l <= self.argc:
                return ("p", l)
            return None
        if l == 1 and len(nd) == 1 and nd[0][0] == "f" and self.kind.startswith("Closure"):
            return ("u", str(nd[0][2]))
        return None

    def _iscoll(self, l):
        s = self.locals[l]["ty"]["s"]
        return s in SCALARS or "&mut " + s in CELLTYPES or not s.startswith("&") and (
            s.split("<")[0].split("::")[-1] in COLLTYPES or s.split("<")[0].split("::")[-1] in self.colls)

    def _mutadd(self, base, site):
        if base[0] == "l":
            self.mutsites[base[1]].append(site)
        else:
            self.parammuts[base].append(site)

    def muts_reaching(self, l, bb, idx):
        bl = self.blocks[bb]
        for j in range(min(idx, len(bl["s"])) - 1, -1, -1):
            p = bl["s"][j][0]
            if p["l"] == l and not p["p"]:
                return ()
        return tuple(sorted(self.mutin[bb].get(l, ()), key=str))

    # ---- reaching definitions -------------------------------------------------
    def _rd(self):
        """defs: (bb, idx) idx = len(stmts) for the call destination.
        Keyed by local; a def with a projection is partial unless the projection starts with a
        deref (a store through a reference is not a definition of the reference)."""
        self.defs = defaultdict(list)
        gen = {}
        for i in self.reach:
            bl = self.blocks[i]
            g = {}
            for j, s in enumerate(bl["s"]):
                self._add(g, s[0], (i, j))
            t = bl["t"]
            if t[0] == "call":
                self._add(g, t[3], (i, len(bl["s"])))
            elif t[0] == "yield":
                self._add(g, t[3], (i, len(bl["s"])))
            gen[i] = g
        inn = {i: {} for i in self.reach}
        init = {}
        for a in range(1, self.argc + 1):
            init[a] = frozenset([("arg", a)])
        inn[0] = init
        order = sorted(self.reach)
        work = deque(order)
        inw = set(order)
        out = {}
        while work:
            i = work.popleft()
            inw.discard(i)
            cur = dict(inn[i])
            if i == 0:
                for a, v in init.items():
                    cur[a] = cur.get(a, frozenset()) | v
            for l, (full, ds) in gen[i].items():
                cur[l] = frozenset(ds) if full else cur.get(l, frozenset()) | frozenset(ds)
            if out.get(i) == cur:
                continue
            out[i] = cur
            for s in self.succ[i]:
                if s not in self.reach:
                    continue
                m = inn[s]
                ch = False
                for l, v in cur.items():
                    o = m.get(l, frozenset())
                    if not v <= o:
                        m[l] = o | v
                        ch = True
                if ch and s not in inw:
                    work.append(s)
                    inw.add(s)
        self.rdin = inn

    def _add(self, g, place, site):
        l = place["l"]
        if place["p"] and place["p"][0][0] == "*":
            return
        self.defs[l].append(site)
        if place["p"]:
            full, ds = g.get(l, (False, []))
            g[l] = (full, ds + [site])
        else:
            g[l] = (True, [site])

    def reaching(self, l, bb, idx):
        """Definitions of local l reaching statement idx of block bb (partial ones included)."""
        ds = []
        bl = self.blocks[bb]
        for j in range(min(idx, len(bl["s"])) - 1, -1, -1):
            p = bl["s"][j][0]
            if p["l"] == l and not (p["p"] and p["p"][0][0] == "*"):
                ds.append((bb, j))
                if not p["p"]:
                    return ds
        return ds + sorted(self.rdin[bb].get(l, ()), key=str)

    def def_place(self, site):
        bb, j = site
        bl = self.blocks[bb]
        if j < len(bl["s"]):
            return bl["s"][j][0]
        return bl["t"][3]

    # ---- dominators and loops ---------------------------------------------------
    def _dom(self):
        n = self.reach

        def dfs(s, succ):
            order = []
            seen = set()
            st = [(s, iter(succ(s)))]
            seen.add(s)
            while st:
                x, it = st[-1]
                for y in it:
                    if y in n and y not in seen:
                        seen.add(y)
                        st.append((y, iter(succ(y))))
                        break
                else:
                    order.append(x)
                    st.pop()
            return order[::-1]

        rpo = dfs(0, lambda x: self.succ[x])
        self.rpo = rpo
        num = {b: i for i, b in enumerate(rpo)}
        self.rponum = num
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == 0:
                    continue
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    a = p
                    while a != x:
                        while num[a] > num[x]:
                            a = idom[a]
                        while num[x] > num[a]:
                            x = idom[x]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in rpo:
            for s in self.succ[b]:
                if s in num and self.dominates(s, b):
                    body = self.loops.setdefault(s, {"latch": set(), "body": {s}})
                    body["latch"].add(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body["body"]:
                            continue
                        body["body"].add(x)
                        st += self.pred[x]
        if self.loops:
            # the body of a loop before what follows it
            def order(x):
                ls = [l["body"] for l in self.loops.values() if x in l["body"]]
                return sorted(self.succ[x], key=lambda y: sum(1 for l in ls if y in l))
            self.rpo = dfs(0, order)
            self.rponum = {b: i for i, b in enumerate(self.rpo)}

    def control(self, bb):
        """Edges (block, edge number) the block is control dependent on, transitively. Paths that
        never return are not considered."""
        if self._cd is None:
            rets = [i for i in self.reach if self.blocks[i]["t"][0] == "return"]
            live = set()
            st = list(rets)
            while st:
                x = st.pop()
                if x in live:
                    continue
                live.add(x)
                st += [p for p in self.pred[x] if p in self.reach]
            # post-dominators as sets of blocks (bit masks)
            order = [b for b in reversed(self.rpo) if b in live]
            full = (1 << (max(self.blocks_ix(live)) + 1)) - 1 if live else 0
            pd = {b: full for b in live}
            for r in rets:
                pd[r] = 1 << r
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b in rets:
                        continue
                    v = full
                    for s in self.succ[b]:
                        if s in live:
                            v &= pd[s]
                    v |= 1 << b
                    if v != pd[b]:
                        pd[b] = v
                        ch = True
            self._cd = (live, pd)
        live, pd = self._cd
        out = set()
        seen = set()
        work = [bb]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            for p in live:
                ss = [(e, s) for e, s in enumerate(self.succ[p]) if s in live]
                if len({s for _, s in ss}) < 2:
                    continue
                if p != x and pd[p] >> x & 1:
                    continue
                for e, s in ss:
                    if pd[s] >> x & 1:
                        out.add((p, e))
                        work.append(p)
        return out

    def direct(self, x):
        """The edges block x is directly control dependent on, and whether it always runs."""
        self.control(x)
        live, pd = self._cd
        out = []
        for p in live:
            ss = [(e, s) for e, s in enumerate(self.succ[p]) if s in live]
            if len({s for _, s in ss}) < 2 or (p != x and pd[p] >> x & 1):
                continue
            out += [(p, e) for e, s in ss if pd[s] >> x & 1]
        return out, 0 in live and bool(pd[0] >> x & 1)

    def blocks_ix(self, live):
        return live

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]


    def reaches(self, a, b):
        seen, w = set(), [a]
        while w:
            for y in self.succ[w.pop()]:
                if y == b:
                    return True
                if y not in seen:
                    seen.add(y)
                    w.append(y)
        return False

    def next_sites(self):
        """{block of a next() call: (local holding the iterator, from the back?, innermost loop)}."""
        if getattr(self, "_ns", None) is not None:
            return self._ns
        refs = {}
        for bl in self.blocks:
            for st in bl["s"]:
                if isinstance(st, list) and len(st) > 1 and not st[0]["p"] and st[1][0] == "ref" and not st[1][2]["p"]:
                    refs.setdefault(st[0]["l"], set()).add(st[1][2]["l"])
        out = {}
        for i, bl in enumerate(self.blocks):
            t = bl["t"]
            if t[0] != "call" or len(t[2]) != 1 or t[2][0][0] == "k" or t[2][0][1]["p"]:
                continue
            fn = t[1][1].get("fn") if t[1][0] == "k" and isinstance(t[1][1], dict) else None
            if not fn or last(fn) not in ("next", "next_back"):
                continue
            ls = refs.get(t[2][0][1]["l"], set())
            if len(ls) != 1:
                continue
            best = None
            for h, lp in self.loops.items():
                if i in lp["body"] and (best is None or len(lp["body"]) < len(self.loops[best]["body"])):
                    best = h
            out[i] = (next(iter(ls)), last(fn) == "next_back", best)
        self._ns = out
        return out


# ---- terms -----------------------------------------------------------------------------
# ("arg", name) entry parameter      ("k", value) constant        ("nc", path) named constant
# ("f", base, field)                 ("v", base, variant, field)  payload of an enum variant
# ("call", path, args, site|None)    ("agg", adt, variant, ((field, term)...))
# ("tuple", terms)  ("array", terms) ("clo", path, ctx, ((name, term)...)) ("fn", path)
# ("phi", id)                        ("elem", coll)               ("bin", op, a, b) ("un", op, a)
# ("idx", base, index)               ("upd", base, field, val)    ("discr", t)

TRANSPARENT_SUFFIX = (
    "clone::Clone::clone", "ops::Deref::deref", "ops::DerefMut::deref_mut", "convert::AsRef::as_ref",
    "convert::AsMut::as_mut", "borrow::Borrow::borrow", "borrow::BorrowMut::borrow_mut",
    "borrow::ToOwned::to_owned", "iter::IntoIterator::into_iter", "iter::Iterator::by_ref",
    "iter::Iterator::cloned", "iter::Iterator::copied", "iter::Iterator::collect",
    "string::ToString::to_string", "string::String::as_str", "string::String::from",
    "str::<impl str>::to_string", "str::<impl str>::to_owned", "iter::Iterator::peekable",
    "iter::Iterator::fuse",
    "vec::Vec::<T, A>::as_slice", "vec::Vec::<T>::as_slice", "slice::<impl [T]>::to_vec",
    "option::Option::<T>::as_ref", "option::Option::<T>::as_mut", "option::Option::<&T>::cloned",
    "option::Option::<&T>::copied", "option::Option::<&mut T>::cloned", "result::Result::<T, E>::as_ref",
    "option::Option::<T>::as_deref", "option::Option::<T>::as_deref_mut",
    "boxed::Box::<T>::new", "sync::Arc::<T>::new", "rc::Rc::<T>::new",
    "slice::<impl [T]>::into_vec", "iter::Iterator::inspect",
    "string::String::into_boxed_str", "boxed::Box::<T>::pin", "boxed::box_new",
    "hint::must_use", "intrinsics::black_box", "boxed::Box::<[T]>::into_vec",
    "slice::<impl [T]>::iter", "slice::<impl [T]>::iter_mut", "boxed::box_assume_init_into_vec_unsafe",
    "vec::from_elem_array", "mem::take_transparent",
)
TRANSPARENT_LAST = {
    # method names that are identity-like on std collections / iterators
    "iter", "iter_mut", "into_iter", "as_slice", "as_mut_slice", "into_boxed_slice", "drain",
}
COLL_OWNERS = ("HashMap", "HashSet", "Vec", "VecDeque", "BTreeMap", "BTreeSet", "slice", "option::Option",
               "[T]", "hash::map", "hash_map", "indexmap", "iter::")
IMPURE_LAST = {"pop", "pop_front", "pop_back", "next", "new", "with_capacity", "default", "take",
               "fetch_add", "fetch_sub", "lock", "remove", "swap_remove", "insert", "entry", "replace",
               "empty", "swap", "take_zone", "from_entropy", "put", "get_mut", "new_ts", "split_off"}
HOF = {  # last path segment -> how the closure parameter relates to the receiver
    "map", "filter", "filter_map", "flat_map", "for_each", "any", "all", "find", "find_map", "position",
    "partition", "max_by_key", "min_by_key", "sort_by_key", "sorted_by_key", "take_while", "skip_while",
    "retain", "try_for_each", "inspect", "map_while", "sort_by", "sorted_by", "max_by", "min_by", "fold",
    "try_fold", "unzip", "and_then", "map_or", "map_or_else", "unwrap_or_else", "or_else", "map_err",
    "ok_or_else", "is_some_and", "is_none_or", "then", "then_some", "is_ok_and", "get_or_insert_with",
    "reduce", "rposition", "is_sorted_by_key",
}
ITERISH = ("iter::", "slice::", "vec::", "Itertools", "collections", "hash", "str::")


def is_term(t):
    return isinstance(t, tuple)


class Frame:
    __slots__ = ("eng", "body", "args", "ctx", "k0", "memo", "_K", "_ret", "calls", "parent", "chain",
                 "selfclo", "_evs", "busyK", "resumed", "fsucc", "parent", "_feas")

    def __init__(self, eng, body, args, ctx, chain, selfclo=None):
        self.eng = eng
        self.body = body
        self.args = args
        self.ctx = ctx
        self.chain = chain
        self.memo = {}
        self._K = None
        self._ret = None
        self.calls = {}
        self.selfclo = selfclo
        self.parent = None
        self._feas = None
        self._evs = None
        self.busyK = False
        self.resumed = {}
        self.fsucc = {}

    def feas(self):
        """Blocks reachable when branches on constant arguments are followed."""
        if self._feas is not None:
            return self._feas
        b = self.body
        if not any(a[0] in ("k", "agg") for a in self.args):
            self._feas = b.reach
            return self._feas
        seen = set()
        work = [0]
        while work:
            i = work.pop()
            if i in seen or i not in b.reach:
                continue
            seen.add(i)
            t = b.blocks[i]["t"]
            v = self._constop(t[1], i) if t[0] == "switch" else None
            if v is None:
                work += b.succ[i]
            else:
                for e, x in enumerate(t[2]):
                    if x[0] == v:
                        self.fsucc[i] = b.succ[i][e]
                        break
                else:
                    self.fsucc[i] = b.succ[i][len(t[2])]
                work.append(self.fsucc[i])
        self._feas = seen
        return seen

    def arrives(self, d, ds, bb):
        """Whether definition d reaches the start of block bb (or a use in it) when branches on constants are followed."""
        b = self.body
        start = 0 if d[0] == "arg" else d[0]
        if d[0] != "arg" and d[0] == bb:
            return True
        if d[0] == "arg" and bb == 0:
            return True
        kill = {x[0] for x in ds if x[0] != "arg" and x != d}
        if d[0] == "arg" and 0 in kill:
            return False
        seen = set()
        work = [start]
        while work:
            i = work.pop()
            for s in ([self.fsucc[i]] if i in self.fsucc else b.succ[i]):
                if s == bb:
                    return True
                if s in seen or s in kill or s not in b.reach:
                    continue
                seen.add(s)
                work.append(s)
        return False

    def _constop(self, op, bb, n=0):
        if op[0] == "k" or n > 4 or op[1]["p"]:
            return None
        l = op[1]["l"]
        ds = self.body.reaching(l, bb, len(self.body.blocks[bb]["s"]))
        if len(ds) != 1:
            return None
        d = ds[0]
        if d[0] == "arg":
            a = self.args[d[1] - 1] if d[1] - 1 < len(self.args) else ("undef",)
            if a[0] == "k" and isinstance(a[1], (bool, int)):
                return int(a[1])
            return None
        bl = self.body.blocks[d[0]]
        if d[1] < len(bl["s"]):
            r = bl["s"][d[1]][1]
            if r[0] == "use":
                return self._constop(r[1], d[0], n + 1)
            if r[0] == "un" and r[1] == "Not":
                v = self._constop(r[2], d[0], n + 1)
                return None if v is None else 1 - v
            if r[0] == "discr":
                t = self._constplace(r[1], d[0], d[1])
                if t is not None and t[0] == "agg" and t[2] is not None:
                    for v in self.eng.p.adts.get(t[1]) or []:
                        if v["name"] == t[2]:
                            return v["discr"]
                    if last(t[1]) in ("Option", "Result"):
                        return {"None": 0, "Some": 1, "Ok": 0, "Err": 1}.get(t[2])
        return None

    def _constplace(self, pl, bb, idx, n=0):
        """Constructor term held by a place of an argument, or None."""
        if n > 6:
            return None
        ds = self.body.reaching(pl["l"], bb, idx)
        if len(ds) != 1:
            return None
        d = ds[0]
        if d[0] == "arg":
            t = self.args[d[1] - 1] if d[1] - 1 < len(self.args) else None
        else:
            bl = self.body.blocks[d[0]]
            if d[1] >= len(bl["s"]) or bl["s"][d[1]][0]["p"]:
                return None
            r = bl["s"][d[1]][1]
            if r[0] == "use" and r[1][0] != "k":
                t = self._constplace(r[1][1], d[0], d[1], n + 1)
            elif r[0] == "ref":
                t = self._constplace(r[2], d[0], d[1], n + 1)
            else:
                return None
        for x in pl["p"]:
            if t is None:
                return None
            if x[0] in ("*", "o", "d"):
                continue
            if x[0] == "f" and t[0] == "agg":
                t = dict(t[3]).get(x[2])
            else:
                return None
        return t

    # -- terms
    def position(self, bb):
        """Which element a call of next() in block bb takes: a number, or "i/n" for the i-th of n calls
        in a loop round; None when there is only one such call or no telling."""
        b = self.body
        sites = b.next_sites()
        if bb not in sites:
            return None
        l, back, loop = sites[bb]
        same = [x for x, (m, bk, lp) in sites.items() if m == l and bk == back]
        if back:
            return -1 if len(same) == 1 and loop is None else None
        mine = [x for x in same if sites[x][2] == loop]
        if len(same) < 2 and not any(m == l and bk for m, bk, _ in sites.values()):
            return None
        if loop is not None:
            if len(mine) < 2:
                return None
            for x in mine:
                if not (b.dominates(x, bb) or b.dominates(bb, x)):
                    return None
            return "%d/%d" % (sum(1 for x in mine if x != bb and b.dominates(x, bb)), len(mine))
        n = 0
        for x in same:
            if x == bb:
                continue
            if b.dominates(x, bb) and sites[x][2] is None:
                n += 1
            elif b.reaches(x, bb):
                return None
        return n

    def operand(self, op, bb, idx):
        k = op[0]
        if k == "k":
            return self.eng.const(op[1])
        return self.place(op[1], bb, idx)

    def place(self, pl, bb, idx):
        l = pl["l"]
        if l in self.body.cells():
            return self.eng.project(self.cell(l, bb, idx), [e for e in pl["p"] if e[0] not in ("*", "o")], self, bb, idx)
        proj = [e for e in pl["p"] if e[0] not in ("*", "o")]
        t, used = self.local(l, bb, idx, proj)
        return self.eng.project(t, proj[used:], self, bb, idx)

    def cell(self, l, bb, idx):
        """The number behind the mutable reference parameter l, as of that statement."""
        key = ("cell", l, bb, idx)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = ("phi", ("cyc", self.ctx, "cell", l, bb, idx))
        stores, calls = self.body.cells()[l]
        if l in self.body.captured:
            self.eng.p.hit_tainted.add(self.body.id + " (changes a counter in a closure)")
        fe = self.feas()
        found, seen, work = [], set(), [(bb, idx)]
        while work:
            b, k = work.pop()
            hit = [j for j in stores.get(b, ()) if j < k]
            n = len(self.body.blocks[b]["s"])
            if k > n and b in calls:
                found.append(((b, n), calls[b]))
            elif hit:
                found.append(((b, max(hit)), None))
            else:
                if b == 0:
                    found.append((("arg", l), None))
                for q in self.body.pred[b]:
                    if q in fe and q not in seen and self.fsucc.get(q, b) == b:
                        seen.add(q)
                        work.append((q, 1 << 30))
        alts = []
        for d, ai in found:
            if d[0] == "arg":
                alts.append((d, self.args[l - 1] if l - 1 < len(self.args) else ("undef", self.ctx, l)))
            elif ai is None:
                alts.append((d, self.rvalue(self.body.blocks[d[0]]["s"][d[1]][1], d[0], d[1])))
            else:
                alts.append((d, self.aftercall(d[0], ai)))
        r = self.mkphi("cell%d" % l, alts, bb) if alts else ("undef", self.ctx, l)
        self.memo[key] = r
        return r

    def kept(self, d, others, bb):
        """What is known in block bb if a value defined at d has not been overwritten at one of the other places since."""
        src = 0 if d[0] == "arg" else d[0]
        stop = {o[0] for o in others if o[0] != "arg"} - {src, bb}
        fe = self.feas()

        def run(gone=None):
            seen, work = {src}, [src]
            while work:
                for q in self.nexts(work.pop()):
                    if q not in seen and q not in stop and q in fe and q != gone:
                        seen.add(q)
                        work.append(q)
            return seen
        fwd = run()
        back, work = {bb}, [bb]
        while work:
            for q in self.body.pred[work.pop()]:
                if q in fwd and q not in back:
                    back.add(q)
                    work.append(q)
        on = fwd & back
        out = set()
        for p in on - {bb}:
            if self.body.blocks[p]["t"][0] != "switch":
                continue
            es = [i for i, q in enumerate(self.body.succ[p]) if q in on and (p not in self.fsucc or self.fsucc[p] == q)]
            if len(es) == 1 and (p == src or bb not in run(p)):
                out |= set(self.edge_atoms(p, es[0]))
        return frozenset(out)

    def nexts(self, p):
        return [self.fsucc[p]] if p in self.fsucc else self.body.succ[p]

    def aftercall(self, bb, ai):
        """The number behind the ai-th argument of a call once it returned."""
        t = self.callterm(bb)
        res, path, c = self.callee(bb)
        sub = self.calls.get(bb)
        if sub is not None and ai + 1 in sub.body.cells():
            rs = [i for i in sub.body.reach if sub.body.blocks[i]["t"][0] == "return" and i in sub.feas()]
            alts = [((i, 0), sub.cell(ai + 1, i, len(sub.body.blocks[i]["s"]))) for i in rs]
            if alts:
                return sub.mkphi("cellout%d" % ai, alts, rs[0])
        l = last(path or "")
        bl = self.body.blocks[bb]
        if "Option" in (path or "") and l in ("replace", "insert") and len(bl["t"][2]) == 2:
            v = self.operand(bl["t"][2][1], bb, len(bl["s"]))
            return ("agg", "std::option::Option", "Some", (("0", v),))
        if "Option" in (path or "") and l == "take":
            return ("agg", "std::option::Option", "None", ())
        return ("call", "@after", (t, ("k", ai)), self.site(bb))

    def local(self, l, bb, idx, proj):
        key = (l, bb, idx, tuple(map(str, proj)))
        if key in self.memo:
            r = self.memo[key]
            if r[0][0] == "phi" and r[0][1][0] == "cyc":
                self.eng.cycused.add((id(self), key))
            return r
        before = set(self.memo)
        self.memo[key] = (("phi", ("cyc", self.ctx, l)), len(proj))
        r = self.local1(key, l, bb, idx, proj)
        if (id(self), key) in self.eng.cycused:
            # computed while it depended on itself: once more, now that it has a name
            self.eng.cycused.discard((id(self), key))
            if r[0][0] in ("phi", "acc") and r[0][1][0] != "cyc":
                for k in set(self.memo) - before - {key}:
                    del self.memo[k]
                self.memo[key] = r
                r = self.local1(key, l, bb, idx, proj)
        return r

    def local1(self, key, l, bb, idx, proj):
        ds = ds0 = self.body.reaching(l, bb, idx)
        full, part = [], []
        fe = self.feas()
        if self.fsucc and len(ds) > 1:
            fds = [x for x in ds if x[0] == "arg" or not self.body.def_place(x)["p"]]
            ds = [x for x in ds if x not in fds or self.arrives(x, fds, bb)]
        for d in ds:
            if d[0] != "arg" and d[0] not in fe:
                continue
            if d[0] == "arg":
                full.append(d)
            elif self.body.def_place(d)["p"]:
                part.append(d)
            else:
                full.append(d)
        # partial definitions that match the projection read
        if part and proj:
            exact, other = [], []
            for d in part:
                dp = [e for e in self.body.def_place(d)["p"] if e[0] not in ("*", "o")]
                if [e[:2] for e in dp] == [e[:2] for e in proj[: len(dp)]]:
                    exact.append((d, len(dp)))
                elif [e[:2] for e in proj] == [e[:2] for e in dp[: len(proj)]]:
                    other.append(d)
            if exact and len({n for _, n in exact}) == 1:
                n = exact[0][1]
                alts = [(d, self.defterm(d)) for d, _ in exact]
                # is a full def still able to reach without the partial one?
                need_full = not any(d[0] == bb and d[1] < idx for d, _ in exact) and not self._covers(
                    [d for d, _ in exact], l, bb)
                if not need_full:
                    r = self.mkphi(l, alts, bb)
                    self.memo[key] = (r, n)
                    return self.memo[key]
                base = [(d, self.eng.project(self.defterm1(d, l), proj[:n], self, bb, idx)) for d in full]
                r = self.mkphi(l, alts + base, bb)
                self.memo[key] = (r, n)
                return self.memo[key]
            part = other
        elif proj:
            part = []
        if not full and part:
            t = ("agg", "?", None, ())
        elif not full:
            t = ("undef", self.ctx, l)
        else:
            t = self.mkphi(l, [(d, self.defterm1(d, l)) for d in full], bb)
        for d in part:
            dp = [e for e in self.body.def_place(d)["p"] if e[0] not in ("*", "o")]
            nm = ".".join(str(e[2]) for e in dp if e[0] in ("f", "d"))
            t = self.eng.upd(t, nm, self.defterm(d))
        if not part:
            t = self.setters(l, bb, idx, ds0, t)
        if l in self.body.mutsites:
            R = self.body.muts_reaching(l, bb, idx)
            if R:
                a = ("acc", (self.ctx, l, R))
                self.eng.accs[a] = (t, self, R)
                t = a
        self.memo[key] = (t, 0)
        return self.memo[key]

    def setters(self, l, bb, idx, ds, t):
        """t after the calls of plain setters (methods that only assign fields of their receiver) on l."""
        sites = self.body.setter_sites(self.eng.p).get(l)
        if not sites:
            return t
        b = self.body
        todo = [s for s in sites if s != bb and b.dominates(s, bb) and
                b.reaching(l, s, len(b.blocks[s]["s"])) == ds]
        todo.sort(key=lambda s: sum(1 for x in todo if x != s and b.dominates(x, s)))
        for s in todo:
            if self.callee(s)[0] in self.eng.stub:
                continue
            c = b.blocks[s]["t"]
            cb = self.eng.p.bodies[self.callee(s)[0]]
            n = len(b.blocks[s]["s"])
            args = [t] + [self.operand(o, s, n) for o in c[2][1:]]
            f = Frame(self.eng, cb, args, self.site(s) + "/set", self.chain + (cb.id,))
            vs = [(nm, f.rvalue(cb.blocks[i]["s"][j][1], i, j)) for nm, (i, j) in cb.setter()]
            for nm, v in vs:
                t = self.eng.upd(t, nm, v)
        return t

    def _covers(self, ds, l, bb):
        return any(d[0] != bb and self.body.dominates(d[0], bb) for d in ds)

    def defterm1(self, d, l):
        if d[0] == "arg":
            return self.args[d[1] - 1] if d[1] - 1 < len(self.args) else ("undef", self.ctx, l)
        return self.defterm(d)

    def mkphi(self, l, alts, bb):
        ts = []
        for d, t in alts:
            if t not in ts:
                ts.append(t)
        if len(ts) == 1:
            return ts[0]
        pid = ("phi", (self.ctx, l, tuple(sorted(str(d) for d, _ in alts))))
        self.eng.phis[pid] = [(t, self, d) for d, t in alts]
        return pid

    def defterm(self, site):
        key = ("d", site)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = ("phi", ("cyc", self.ctx, site))
        bb, j = site
        bl = self.body.blocks[bb]
        if j < len(bl["s"]):
            t = self.rvalue(bl["s"][j][1], bb, j)
        elif bl["t"][0] == "call":
            t = self.callterm(bb)
        else:
            t = ("undef", self.ctx, site)
        self.memo[key] = t
        return t

    def rvalue(self, r, bb, j):
        k = r[0]
        if k == "use":
            return self.operand(r[1], bb, j)
        if k == "ref":
            return self.place(r[2], bb, j)
        if k == "cast":
            return self.operand(r[1], bb, j)
        if k == "bin":
            return self.eng.mkbin(r[1], self.operand(r[2], bb, j), self.operand(r[3], bb, j))
        if k == "un":
            a = self.operand(r[2], bb, j)
            if r[1] == "Neg" and a[0] == "k" and isinstance(a[1], int):
                return ("k", -a[1])
            if r[1] == "Not":
                return self.eng.mknot(a)
            return ("un", r[1], a)
        if k == "discr":
            return ("discr", self.place(r[1], bb, j), r[2].get("adt") or r[2]["s"])
        if k == "repeat":
            return ("array", (self.operand(r[1], bb, j),))
        if k == "agg":
            a = r[1]
            ops = [self.operand(o, bb, j) for o in r[2]]
            if a["k"] == "adt":
                return self.eng.mkagg(a["adt"], a["v"], tuple(zip(a["fields"], ops)))
            if a["k"] == "tuple":
                return ("agg", "()", None, tuple((str(i), o) for i, o in enumerate(ops)))
            if a["k"] == "closure":
                fields = a["fields"]
                if len(fields) < len(ops):
                    fields = fields + [str(i) for i in range(len(fields), len(ops))]
                return ("clo", a["def"], self.ctx, tuple(zip(fields, ops)))
            return ("array", tuple(ops))
        return ("undef", self.ctx, (bb, j))

    def callee(self, bb):
        bl = self.body.blocks[bb]
        t = bl["t"]
        n = len(bl["s"])
        f = t[1]
        if f[0] == "k":
            c = f[1]
            return c.get("res") or c.get("fn"), c.get("fn"), c
        return None, None, {}

    def callterm(self, bb):
        bl = self.body.blocks[bb]
        t = bl["t"]
        n = len(bl["s"])
        res, path, c = self.callee(bb)
        if path and path.endswith("box_assume_init_into_vec_unsafe"):
            r = self.vec_macro(t[2][0], bb)
            if r is not None:
                return r
        args = [self.operand(a, bb, n) for a in t[2]]
        if path is None:
            fterm = self.operand(t[1], bb, n)
            if fterm[0] == "fn":
                path = res = fterm[1]
            else:
                return self.eng.call_value(self, bb, fterm, args)
        return self.eng.call(self, bb, res, path, args, c)

    def vec_macro(self, op, bb):
        """The array a `vec![...]` was filled with."""
        seen = set()
        work = [op[1]["l"]]
        while work:
            l = work.pop()
            if l in seen:
                continue
            seen.add(l)
            for i in self.body.reach:
                for j, s in enumerate(self.body.blocks[i]["s"]):
                    if s[0]["l"] != l:
                        continue
                    if s[0]["p"] and s[0]["p"][0][0] == "*":
                        v = self.rvalue(s[1], i, j)
                        if v[0] == "array":
                            return v
                    elif not s[0]["p"] and s[1][0] == "use" and s[1][1][0] in ("m", "c"):
                        work.append(s[1][1][1]["l"])
        return None

    # -- must analysis
    def K(self):
        if self._K is not None:
            return self._K
        if self.busyK:
            return {i: frozenset() for i in self.body.reach}
        self.busyK = True
        b = self.body
        edge = {}
        TOP = None
        inn = {i: TOP for i in b.reach}
        inn[0] = frozenset()
        outc = {}

        def transfer(i, s_in):
            s = s_in
            did = self.did(i)
            if did:
                s = s | did
            return s

        fe = self.feas()
        it = 0
        ch = True
        while ch and it < 30:
            ch = False
            it += 1
            for i in b.rpo:
                if i != 0:
                    acc = TOP
                    if i not in fe:
                        continue
                    for p in b.pred[i]:
                        if inn[p] is TOP:
                            continue
                        o = outc[p]
                        n_edges = [e for e, s in enumerate(b.succ[p]) if s == i]
                        for e in n_edges:
                            v = self.eng.close(o | self.edge_atoms(p, e))
                            if self.eng.contradict(v):
                                continue
                            acc = v if acc is TOP else acc & v
                    if acc is TOP:
                        continue
                    # facts for all elements, at loop exits
                    for h, lp in b.loops.items():
                        if i not in lp["body"] and any(p in lp["body"] for p in b.pred[i]):
                            acc = acc | self.forall_atoms(h, lp, inn, outc, i)
                    if inn[i] is TOP or acc != inn[i]:
                        if inn[i] is not TOP:
                            acc = acc if it < 25 else (acc & inn[i])
                        inn[i] = acc
                        ch = True
                o = transfer(i, inn[i])
                outc[i] = o
        self._K = {i: (inn[i] if inn[i] is not TOP else None) for i in b.reach}
        self.busyK = False
        return self._K

    def forall_atoms(self, h, lp, inn, outc, target):
        """Atoms valid for each element processed by a `for` loop, on its exhaustion exit."""
        b = self.body
        res = set()
        # the exit must be the exhaustion edge: from a block switching on next()
        exits = [p for p in b.pred[target] if p in lp["body"]]
        coll = None
        for p in exits:
            at = self.eng.close(self.edge_atoms(p, b.succ[p].index(target)))
            for a in at:
                if a[0] == "is" and a[2] == "None" and a[1][0] == "call" and a[1][1] == "@next":
                    coll = a[1][2][0]
        if coll is None or len(exits) != 1:
            return res
        el = self.eng.elem(coll)
        while coll[0] == "call" and coll[1] in ("@enumerate", "@indices", "@rev"):
            coll = coll[2][0]
            el = self.eng.elem(coll)
        acc = None
        for l in lp["latch"]:
            o = outc.get(l)
            if o is None:
                continue
            v = o
            for e, s in enumerate(b.succ[l]):
                if s == h:
                    v = self.eng.close(v | self.edge_atoms(l, e))
            acc = v if acc is None else acc & v
        if acc:
            before = inn.get(h) or frozenset()
            for a in acc - before:
                if mentions(a, el) or (a[0] in ("is", "isnt") and a[1][0] == "phi"):
                    res.add(("forall", coll, a))
        return res

    def did(self, i):
        key = ("did", i)
        if key in self.memo:
            return self.memo[key]
        bl = self.body.blocks[i]
        if bl["t"][0] != "call" or (bl["mac"] and mac_name(bl["mac"]) in LOGMACS):
            self.memo[key] = frozenset()
            return self.memo[key]
        self.memo[key] = frozenset()
        t = self.callterm(i)
        res = set()
        fr = self.calls.get(i)
        if fr is not None:
            ks = fr.retK()
            res |= ks
        else:
            nm = self.eng.evname(self, i)
            if nm is not None:
                res.add(("did", nm[0], nm[1]))
        # closures run on all elements
        self.memo[key] = frozenset(res)
        return self.memo[key]

    def retK(self):
        """Atoms that hold at every normal return."""
        K = self.K()
        acc = None
        for i in self.body.reach:
            if self.body.blocks[i]["t"][0] == "return" and K[i] is not None:
                acc = K[i] if acc is None else acc & K[i]
        return acc or frozenset()

    def edge_atoms(self, p, e):
        key = ("e", p, e)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = frozenset()
        bl = self.body.blocks[p]
        t = bl["t"]
        res = frozenset()
        if t[0] == "switch" and not (bl["mac"] and mac_name(bl["mac"]) in LOGMACS):
            n = len(bl["s"])
            d = self.operand(t[1], p, n)
            vals = [x[0] for x in t[2]]
            res = frozenset(self.eng.switch_atoms(d, vals, e if e < len(vals) else None))
            y = d[2][0] if d[0] == "call" and d[1] in ("@is_some", "@is_none") else d[1] if d[0] == "v" else d
            if y[0] == "call" and last(y[1]) == "peek" and any(p in lp["body"] for lp in self.body.loops.values()):
                # another one in each round
                res = frozenset()
            if d[0] == "agg" or (d[0] == "call" and d[2] and d[2][0][0] == "agg"):
                res = frozenset(a for a in res if not (a[0] in ("is", "isnt") and a[1][0] == "agg"))
        elif t[0] == "assert":
            pass
        self.memo[key] = res
        return res

    def Kat(self, bb):
        k = self.K().get(bb)
        return k

    def ret(self):
        """Return value as one term."""
        if self._ret is not None:
            return self._ret
        self._ret = ("phi", ("cyc", self.ctx, "ret"))
        alts = []
        for i in self.body.reach:
            bl = self.body.blocks[i]
            if bl["t"][0] == "return":
                t, _ = self.local(0, i, len(bl["s"]), [])
                alts.append(t)
        if not alts:
            self._ret = ("never",)
        else:
            self._ret = self.prune(alts[0])
        return self._ret

    def prune(self, t):
        """Drop alternatives of a returned value chosen on paths that cannot be taken."""
        ph = self.eng.phis
        if t[0] != "phi" or ph.get(t) is None or self.busyK:
            return t
        keep = []
        for x, f, d in ph[t]:
            if f is self and d and d[0] != "arg" and self.Kat(d[0]) is None:
                continue
            if f is self:
                x = self.prune(x)
            keep.append((x, f, d))
        if len(keep) == len(ph[t]) and all(a[0] == b[0] for a, b in zip(keep, ph[t])):
            return t
        ts = []
        for x, _, _ in keep:
            if x not in ts:
                ts.append(x)
        if not ts:
            return ("never",)
        if len(ts) == 1:
            return ts[0]
        pid = ("phi", t[1] + ("pruned",))
        ph[pid] = keep
        return pid

    def site(self, bb):
        return "%s:%s" % (self.ctx, bb)

    def where(self, bb):
        return "%s:%s" % (self.body.file, self.body.blocks[bb]["line"])


def mac_name(m):
    # e.g. "macro `trace!`" or plain
    if "`" in m:
        m = m.split("`")[1]
    return m


def mentions(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        return any(mentions(x, sub) for x in t)
    return False


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from subterms(x)


class Event:
    __slots__ = ("name", "args", "K", "site", "where", "fn", "term", "frame", "bb", "depth")

    def __init__(self, name, args, K, site, where, fn, term, frame, bb):
        self.name = name
        self.args = args
        self.K = K
        self.site = site
        self.where = where
        self.fn = fn
        self.term = term
        self.frame = frame
        self.bb = bb

    def __repr__(self):
        return "<%s(%s) @%s>" % (self.name, ", ".join(show(a) for a in self.args), self.where)


@lru_cache(None)
def transparent(path):
    return any(path.endswith(s) for s in TRANSPARENT_SUFFIX)


@lru_cache(None)
def last(path):
    """Last path segment without generics."""
    p = path
    # strip trailing generics
    depth = 0
    out = []
    for ch in reversed(p):
        if ch == ">":
            depth += 1
        if depth == 0:
            out.append(ch)
        if ch == "<":
            depth -= 1
    s = "".join(reversed(out))
    return s.split("::")[-1]


class Path(tuple):
    """(K, events, return block), with the blocks passed, in the callees too."""
    blocks = ()
    frames = {}


CHOICES = {"and", "then", "then_some", "optmap", "optand_then", "unwrap_or", "unwrap_or_else", "map_or", "map_or_else", "or",
           "or_else", "is_some_and", "is_ok_and", "is_none_or", "optfilter", "map_err"}


def number(d):
    return d[0] == "k" and type(d[1]) is int


class Engine:
    def __init__(self, prog, opaque=(), inline_only=None, max_depth=14, alias=None):
        self.p = prog
        self.opaque = set(opaque)
        self.max_depth = max_depth
        self.heard = ()      # macros whose output is looked at
        self.phis = {}
        self.cycused = set()
        self.accs = {}
        self.frames = {}
        self.closed = {}
        self.inline_only = inline_only
        self.byid = {}
        self.recurse = {}     # function -> how often it may be inlined in itself
        self.stub = {}        # function -> what a call of it stands for
        self.phi_norm = {}
        self.hof_frames = defaultdict(list)

    # ---- entry
    def passed(self, P):
        """The conditions of all branches a path took, those on elements of loops included."""
        out = set()
        for i, seq in P.frames.items():
            fr = self.byid[i]
            for a, b in zip(seq, seq[1:]):
                for e, s in enumerate(fr.body.succ[a]):
                    if s == b:
                        out |= fr.edge_atoms(a, e)
                        break
        return frozenset(x for x in out if not (is_term(x[1]) and x[1][0] == "call" and x[1][1] == "@next"))

    def entry(self, fid, args=None):
        b = self.p.bodies.get(fid)
        if fid in self.p.tainted:
            self.p.hit_tainted.add(fid)
        if b is None:
            return None
        if args is None:
            args = []
            for i in range(1, b.argc + 1):
                n = b.locals[i]["n"] or ("_%d" % i)
                args.append(("arg", n))
        fr = Frame(self, b, args, "", (fid,))
        return fr

    def is_opaque(self, path):
        if path in self.opaque:
            return True
        l = last(path)
        return l in self.opaque or any(path.endswith("::" + o) for o in self.opaque if "::" in o)

    # ---- constants
    def const(self, c):
        if "fn" in c:
            return ("fn", c.get("res") or c["fn"], c["fn"])
        for k in ("int", "str", "char", "bits"):
            if k in c:
                if c["ty"] == "bool":
                    return ("k", bool(c[k]))
                return ("k", c[k])
        if "named" in c:
            b = self.p.bodies.get(c["named"])
            if b is not None and b.kind.startswith(("Const", "AssocConst")) and not c["named"] in self.opaque:
                fr = Frame(self, b, [], "const " + c["named"], (c["named"],))
                return fr.ret()
            return ("nc", c["named"])
        if c["ty"] == "()":
            return ("agg", "()", None, ())
        if "bytes" in c:
            return ("k", bytes(c["bytes"]))
        return ("k", c["ty"])

    def mkfmt(self, tmpl, args):
        """Pieces of a formatted text: strings and (kind, argument)."""
        out = []
        if isinstance(tmpl, str):
            return ("fmt", (tmpl,) if tmpl else ())
        i = 0
        nx = 0
        while i < len(tmpl):
            b = tmpl[i]
            i += 1
            if b == 0:
                break
            if b < 0x80:
                out.append(tmpl[i:i + b].decode("utf8", "replace"))
                i += b
            elif b == 0x80:
                n = tmpl[i] | tmpl[i + 1] << 8
                i += 2
                out.append(tmpl[i:i + n].decode("utf8", "replace"))
                i += n
            else:
                spec = b & 0x3f
                raw = []
                for bit, n in ((1, 4), (2, 2), (4, 2), (8, 2)):
                    if b & bit:
                        raw.append((bit, int.from_bytes(tmpl[i:i + n], "little")))
                        i += n
                ix = dict(raw).get(8, nx)
                nx = ix + 1
                a = args[ix] if ix < len(args) else ("k", "?")
                kind = "?"
                if a[0] == "call" and len(a[2]) == 1:
                    kind = last(a[1])[4:] if last(a[1]).startswith("new_") else "?"
                    a = a[2][0]
                o = tuple(x for x in raw if x[0] != 8)
                if kind == "display" and not o and a[0] == "k" and isinstance(a[1], str):
                    out.append(a[1])
                elif kind == "display" and not o and a[0] == "fmt":
                    out += list(a[1])
                else:
                    out.append((kind, a) + ((o, spec & 0x37) if o else ()))
        m = []
        for x in out:
            if isinstance(x, str) and m and isinstance(m[-1], str):
                m[-1] += x
            elif x != "":
                m.append(x)
        return ("fmt", tuple(m))

    # ---- constructors with normalisation
    def mkbin(self, op, a, b):
        if op in ("Eq", "Ne"):
            if op == "Ne":
                return self.mknot(self.mkbin("Eq", a, b))
            for x, y in ((a, b), (b, a)):
                if x[0] == "k" and isinstance(x[1], bool):
                    return y if x[1] else self.mknot(y)
            if a[0] == "k" and b[0] == "k" and type(a[1]) is type(b[1]):
                return ("k", a[1] == b[1])
            if a[0] == "agg" and b[0] == "agg" and a[1] == b[1] and a[2] is not None and b[2] is not None:
                if a[2] != b[2]:
                    return ("k", False)
                if not a[3] and not b[3]:
                    return ("k", True)
            a, b = sorted((a, b), key=repr)
            return ("bin", "Eq", a, b)
        if op == "Gt":
            return self.mkbin("Lt", b, a)
        if op == "Ge":
            return self.mkbin("Le", b, a)
        op = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op in ("Add", "Mul", "BitAnd", "BitOr"):
            if a[0] == "k" and b[0] != "k":
                a, b = b, a
        if a[0] == "k" and b[0] == "k" and type(a[1]) is int and type(b[1]) is int:
            if op == "Add":
                return ("k", a[1] + b[1])
            if op == "Sub":
                return ("k", a[1] - b[1])
            if op in ("Lt", "Le"):
                return ("k", a[1] < b[1] if op == "Lt" else a[1] <= b[1])
        return ("bin", op, a, b)

    def mknot(self, a):
        if a[0] == "un" and a[1] == "Not":
            return a[2]
        if a[0] == "k" and isinstance(a[1], bool):
            return ("k", not a[1])
        return ("un", "Not", a)

    def mkagg(self, adt, v, fields):
        if adt and adt.endswith("ops::Range") and len(fields) == 2 and fields[0][1] == ("k", 0):
            n = fields[1][1]
            if n[0] == "call" and n[1] == "@len":
                return ("call", "@indices", (n[2][0],), None)
        return ("agg", adt, v, fields)

    def upd(self, t, name, val):
        if t[0] == "agg":
            fs = dict(t[3])
            fs[name] = val
            return ("agg", t[1], t[2], tuple(fs.items()))
        return ("upd", t, name, val)

    def elem(self, coll):
        """An arbitrary element of a collection / iterator term."""
        if coll[0] == "call":
            nm = coll[1]
            if nm == "@map":
                return self.apply(coll[2][1], [self.elem(coll[2][0])], coll[3])
            if nm in ("@filter", "@rev", "@sorted"):
                return self.elem(coll[2][0])
            if nm == "@filter_map":
                return self.payload(self.apply(coll[2][1], [self.elem(coll[2][0])], coll[3]), "Some", "0")
            if nm == "@flat_map":
                return self.elem(self.apply(coll[2][1], [self.elem(coll[2][0])], coll[3]))
            if nm == "@chain":
                t = ("phi", ("chain", coll))
                if t not in self.phis:
                    self.phis[t] = [(self.elem(x), None, None) for x in coll[2]]
                return t
            if nm == "@flatten":
                return self.elem(self.elem(coll[2][0]))
            if nm == "@at":
                c, pos = coll[2]
                if c[0] == "call" and c[1] == "@map":
                    return self.apply(c[2][1], [self.elem(("call", "@at", (c[2][0], pos), None))], c[3])
                els = self.arr_elems(c)
                if els is not None and isinstance(pos[1], int) and -len(els) <= pos[1] < len(els):
                    return els[pos[1]]
                return ("idx", c, pos)
            if nm == "@indices":
                return ("pos", coll[2][0])
            if nm == "@enumerate":
                return ("agg", "()", None, (("0", ("pos", coll[2][0])), ("1", self.elem(coll[2][0]))))
            if nm == "@zip":
                return ("agg", "()", None, (("0", self.elem(coll[2][0])), ("1", self.elem(coll[2][1]))))
            if nm == "@keys":
                return self.project(self.elem(coll[2][0]), [["f", 0, "0", ""]], None, 0, 0)
            if nm == "@values":
                return self.project(self.elem(coll[2][0]), [["f", 1, "1", ""]], None, 0, 0)
        if coll[0] == "array" and len(coll[1]) == 1:
            return coll[1][0]
        if coll[0] == "agg" and coll[1].endswith("Option") and coll[2] == "Some":
            return coll[3][0][1]
        return ("elem", coll)

    def payload(self, t, variant, field):
        return self.project(t, [["d", 0, variant], ["f", int(field), field, ""]], None, 0, 0)

    def project(self, t, proj, fr, bb, idx):
        i = 0
        var = None
        while i < len(proj):
            e = proj[i]
            if e[0] == "d":
                var = e[2]
                i += 1
                if i >= len(proj):
                    return t
                continue
            if e[0] == "f":
                t = self.proj1(t, var, str(e[2]))
                var = None
            elif e[0] == "i":
                it = fr.local(e[1], bb, idx, [])[0] if fr else ("undef", "", 0)
                t = self.index(t, it)
            elif e[0] == "ci":
                t = self.index(t, ("k", e[1] if not e[2] else -e[1]))
            elif e[0] == "ss":
                pass
            i += 1
        return t

    def index(self, t, it):
        if t[0] == "array" and it[0] == "k" and isinstance(it[1], int) and 0 <= it[1] < len(t[1]):
            return t[1][it[1]]
        if it == ("pos", t):
            return self.elem(t)
        return ("idx", t, it)

    def proj1(self, t, var, name):
        k = t[0]
        if k == "k" and var is None and type(t[1]) is int and name in ("0", "1"):
            # the pair of a checked operation on constants
            return t if name == "0" else ("k", False)
        if k == "agg":
            if var is not None and t[2] is not None and t[2] != var:
                return ("never",)
            for n, v in t[3]:
                if n == name:
                    return v
            if t[1] == "?":
                return ("f", t, name)
        if k == "clo":
            for n, v in t[3]:
                if n == name:
                    return v
        if k == "upd":
            if t[2] == name:
                return t[3]
            if not t[2].startswith(name + ".") and not name.startswith(t[2] + "."):
                return self.proj1(t[1], var, name)
        if k == "phi" and var is None or k == "phi" and var is not None:
            alts = self.phi_alts(t)
            if alts is not None:
                keep = []
                for a, f, d in alts:
                    if var is not None and a[0] == "agg" and a[2] is not None and a[2] != var:
                        continue
                    if a[0] == "never":
                        continue
                    keep.append(a)
                if keep and all(a[0] in ("agg",) for a in keep):
                    vals = []
                    for a in keep:
                        v = self.proj1(a, var, name)
                        if v not in vals:
                            vals.append(v)
                    if len(vals) == 1:
                        return vals[0]
                    pid = ("phi", ("proj", t, var, name))
                    self.phis[pid] = [(self.proj1(a, var, name), f, d) for a, f, d in alts
                                      if not (var is not None and a[0] == "agg" and a[2] is not None and a[2] != var)
                                      and a[0] != "never"]
                    return pid
                if len(keep) == 1:
                    return self.proj1(keep[0], var, name)
        if k == "call":
            nm = t[1]
            if nm == "@next" and var == "Some":
                return self.elem(t[2][0])
            if nm == "@branch":
                x = t[2][0]
                kind = t[3]
                if var == "Continue":
                    return self.payload(x, "Ok" if kind == "R" else "Some", "0")
                if var == "Break":
                    return ("residual", x)
            if nm in ("@map_err", "@ok") and var in ("Ok", "Some"):
                return self.payload(t[2][0], "Ok", "0")
            if nm in ("@ok_or", "@ok_or_else") and var == "Ok":
                return self.payload(t[2][0], "Some", "0")
            if nm == "@optmap" and var in ("Some", "Ok"):
                return self.apply(t[2][1], [self.payload(t[2][0], var, "0")], t[3])
            if nm == "@optfilter" and var == "Some":
                return self.payload(t[2][0], "Some", "0")
            if nm == "@find" and var == "Some":
                return self.elem(t[2][0])
            if nm == "@first" and var == "Some" and not t[3]:
                return ("idx", t[2][0], ("k", 0))
            if nm in ("@first", "@last", "@pop", "@min", "@max") and var == "Some":
                return (nm[1:], t[2][0], t[3]) if t[3] else (nm[1:], t[2][0])
            if nm in ("@get", "@get_mut") and var == "Some":
                return ("idx", t[2][0], t[2][1])
        if var is not None:
            return ("v", t, var, name)
        return ("f", t, name)

    def phi_alts(self, t):
        return self.phis.get(t)

    def alts(self, t, seen=None):
        """Flattened alternative terms of a phi (cycles dropped)."""
        seen = seen or set()
        if t[0] != "phi":
            return [t]
        if t in seen:
            return []
        seen.add(t)
        a = self.phis.get(t)
        if a is None:
            return []
        out = []
        for x, _, _ in a:
            for y in self.alts(x, seen):
                if y not in out:
                    out.append(y)
        return out

    def choice(self, t):
        """[(value, conditions)] of a library call that chooses between values, or None."""
        if t[0] != "call" or not t[2]:
            return None
        nm = t[1][1:] if t[1].startswith("@") else last(t[1])
        if nm not in CHOICES or not (t[1].startswith(("@", "std::", "core::"))):
            return None
        a = t[2]
        res = "esult" in t[1] or str(t[3]).endswith("#R")
        S, N = ("Ok", "Err") if res else ("Some", "None")
        adt = "std::result::Result" if res else "std::option::Option"
        x = a[0]
        val = self.payload(x, S, "0")
        yes, no = frozenset({("is", x, S)}), frozenset({("is", x, N)})
        none = self.mkagg("std::option::Option", "None", ())
        some = lambda y: self.mkagg(adt, S, (("0", y),))
        ap = lambda f, *xs: self.apply(f, list(xs), t[3])
        if nm == "then" and len(a) == 2 and "bool" in t[1]:
            return [(some(ap(a[1])), frozenset({("is", x, True)})), (none, frozenset({("is", x, False)}))]
        if nm == "then_some" and len(a) == 2:
            return [(some(a[1]), frozenset({("is", x, True)})), (none, frozenset({("is", x, False)}))]
        if nm == "optmap":
            return [(some(ap(a[1], val)), yes), (x if res else none, no)]
        if nm == "optand_then":
            return [(ap(a[1], val), yes), (x, no)]
        if nm == "optfilter" and len(a) == 2:
            p = ap(a[1], val)
            return [(x, yes | {("is", p, True)}), (none, yes | {("is", p, False)}), (none, no)]
        if nm == "map_err" and len(a) == 2:
            return [(x, frozenset({("is", x, "Ok")})),
                    (self.mkagg("std::result::Result", "Err", (("0", ap(a[1], self.payload(x, "Err", "0"))),)), frozenset({("is", x, "Err")}))]
        if nm == "unwrap_or" and len(a) == 2:
            return [(val, yes), (a[1], no)]
        if nm == "unwrap_or_else" and len(a) == 2:
            return [(val, yes), (ap(a[1], *([self.payload(x, "Err", "0")] if res else [])), no)]
        if nm == "map_or" and len(a) == 3:
            return [(ap(a[2], val), yes), (a[1], no)]
        if nm == "map_or_else" and len(a) == 3:
            return [(ap(a[2], val), yes), (ap(a[1], *([self.payload(x, "Err", "0")] if res else [])), no)]
        if nm in ("is_some_and", "is_ok_and") and len(a) == 2:
            return [(ap(a[1], val), yes), (("k", False), no)]
        if nm == "is_none_or" and len(a) == 2:
            return [(ap(a[1], val), yes), (("k", True), no)]
        if nm == "or" and len(a) == 2 and (res or "Option" in t[1]):
            return [(x, yes), (a[1], no)]
        if nm == "and" and len(a) == 2 and (res or "Option" in t[1]):
            return [(a[1], yes), (x, no)]
        if nm == "or_else" and len(a) == 2 and (res or "Option" in t[1]):
            return [(x, yes), (ap(a[1], *([self.payload(x, "Err", "0")] if res else [])), no)]
        return None

    def gated(self, t, seen=None, K=frozenset()):
        """[(alternative term, atoms holding where it was chosen)] of a phi, flattened."""
        seen = seen or set()
        if t[0] == "call" and t not in seen:
            ch = self.choice(t)
            if ch:
                return [y for x, k in ch for y in self.gated(x, seen | {t}, K | k)]
        if t[0] != "phi" or t in seen or self.phis.get(t) is None:
            return [(t, K)]
        seen = seen | {t}
        out = []
        for x, f, d in self.phis[t]:
            k = frozenset()
            if f is not None and d and d[0] != "arg":
                k0 = f.Kat(d[0])
                if k0 is None:
                    continue
                k = k0
                bl = f.body.blocks[d[0]]
                if d[1] >= len(bl["s"]):
                    k = k | f.did(d[0])
            out += self.gated(x, seen, K | k)
        return out

    # ---- calls
    def call_value(self, fr, bb, fterm, args):
        if fterm[0] == "clo":
            return self.apply_frame(fr, bb, fterm, args)
        if fterm[0] == "phi":
            pid = ("phi", ("callphi", fterm, tuple(args)))
            if pid in self.phis:
                return pid
            if self.phis.get(fterm) is not None:
                self.phis[pid] = []
                self.phis[pid] = [(self.call_value(fr, bb, x, args), f, d) for x, f, d in self.phis[fterm]]
                return pid
            return ("call", "@callphi", tuple([fterm] + args), None)
        if fterm[0] == "fn":
            ct = self.ctor(fterm[2], tuple(args))
            if ct is not None:
                return ct
        return ("call", "@callvalue", tuple([fterm] + args), None)

    def apply_frame(self, fr, bb, clo, args):
        f = self.closure_frame(clo, args, fr.site(bb), fr.chain)
        if f is None:
            return ("call", clo[1], tuple(args), fr.site(bb))
        if f.parent is None:
            f.parent = (fr, bb)
        fr.calls[bb] = f
        return f.ret()

    def closure_frame(self, clo, args, site, chain):
        b = self.p.bodies.get(clo[1])
        if b is None or len(chain) > self.max_depth or chain.count(clo[1]) > 1:
            return None
        key = (clo, tuple(args), site)
        if key in self.frames:
            return self.frames[key]
        # closure body args: _1 = closure env, rest = params
        f = Frame(self, b, [clo] + list(args), site + "/" + clo[1].split("::")[-1], chain + (clo[1],))
        self.frames[key] = f
        return f

    def apply(self, f, args, site):
        """Value of calling a function term on argument terms (no frame bookkeeping)."""
        if f[0] == "clo":
            # the function a closure is written in stays a call when the closure calls it again
            fr = self.closure_frame(f, args, "ap" + str(site), (f[1].split("::{closure")[0],))
            if fr is None:
                return ("call", f[1], tuple(args), site)
            return fr.ret()
        if f[0] == "fn":
            r = self.builtin(None, None, f[1], f[2], list(args), str(site))
            if r is not None:
                return r
            b = self.p.bodies.get(f[1])
            if b is not None and not self.is_opaque(f[1]) and b.kind not in ("Ctor",):
                key = (f, tuple(args), "ap" + str(site))
                if key not in self.frames:
                    self.frames[key] = Frame(self, b, list(args), "ap%s/%s" % (site, last(f[1])), (f[1],))
                return self.frames[key].ret()
            return self.ctor(f[1], args) or ("call", f[1], tuple(args), None)
        return ("call", "@callvalue", tuple([f] + list(args)), None)

    def ctor(self, path, args):
        """Tuple-struct / tuple-variant constructor used as a function."""
        head, _, v = path.rpartition("::")
        for nm in ("Option", "Result"):
            if v in ("Some", "Ok", "Err") and head.split("<")[0].rstrip(":").endswith(nm):
                return ("agg", "std::option::Option" if nm == "Option" else "std::result::Result", v,
                        tuple((str(i), a) for i, a in enumerate(args)))
        hd = head
        if hd in self.p.adts and v in [x["name"] for x in self.p.adts[hd]]:
            return ("agg", hd, v, tuple((str(i), a) for i, a in enumerate(args)))
        if path in self.p.adts:
            return ("agg", path, v, tuple((str(i), a) for i, a in enumerate(args)))
        if v in ("LE", "LS") and head.endswith("Inequality"):
            return ("agg", head, v, (("0", args[0]),))
        return None

    def builtin(self, fr, bb, res, path, args, site):
        """Terms of well-known library calls; None if not one."""
        l = last(path)
        if path.startswith(("<", "std::", "core::", "alloc::")) or "::" in path:
            if transparent(path):
                # local implementations of library traits are not identities, except derived Clone
                if res in self.p.bodies and l not in ("clone",):
                    return None
                if l in ("clone", "to_vec", "to_owned") and args and args[0][0] == "acc" and not self.fresh(args[0], fr, bb):
                    return self.kept(args[0])
                return args[0] if args else None
        lib = path.startswith(("std::", "core::", "alloc::", "<std::", "<core::", "<alloc::", "itertools::"))
        if not lib:
            return None
        if "fmt::" in path and "Arguments" in path and args and args[0][0] == "k":
            if l == "new" and len(args) == 2 and isinstance(args[0][1], bytes):
                return self.mkfmt(args[0][1], args[1][1] if args[1][0] == "array" else ())
            if l in ("from_str", "from_str_nonconst", "new_const") and isinstance(args[0][1], str):
                return self.mkfmt(args[0][1], ())
        if path.endswith("fmt::format") and args and args[0][0] == "fmt":
            p = args[0][1]
            if len(p) == 1 and isinstance(p[0], str):
                return ("k", p[0])
            if len(p) == 1 and p[0][0] == "display" and len(p[0]) == 2:
                return p[0][1]
            return args[0]
        if l in ("into", "from", "try_into", "try_from"):
            if res in self.p.bodies:
                return None
            if l in ("into", "from"):
                return args[0]
        if l in TRANSPARENT_LAST and len(args) == 1:
            return args[0]
        if l in ("ptr_eq", "addr_eq") or l == "eq" and "ptr::" in path:
            # the same place, not the same value
            return None
        if l in ("eq", "ne") and len(args) == 2:
            if res in self.p.bodies and "cmp::PartialEq" in path and not self.derived(res):
                # hand-written equality: keep the operation symbolic on values
                return self.mkbin("Eq" if l == "eq" else "Ne", *args)
            return self.mkbin("Eq" if l == "eq" else "Ne", *args)
        if l in ("lt", "le", "gt", "ge") and len(args) == 2:
            return self.mkbin({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[l], *args)
        opn = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "not": "Not", "neg": "Neg",
               "add_assign": None}
        if "ops::" in path and l in opn and res not in self.p.bodies:
            if l == "not":
                return self.mknot(args[0])
            if l == "neg":
                return ("un", "Neg", args[0])
            if l in ("add", "sub", "mul", "div", "rem"):
                return self.mkbin(opn[l], *args)
        if l in ("unwrap", "expect", "unwrap_unchecked"):
            if "Result" in path:
                return self.payload(args[0], "Ok", "0")
            if "Option" in path:
                return self.payload(args[0], "Some", "0")
        if l in ("unwrap_err", "expect_err") and "Result" in path:
            return self.payload(args[0], "Err", "0")
        if l == "branch" and "Try" in path:
            if args[0][0] == "agg" and args[0][2] in ("Ok", "Some"):
                return ("agg", "std::ops::ControlFlow", "Continue", args[0][3])
            return ("call", "@branch", tuple(args), "R" if "Result" in (res or path) else "O")
        if l == "from_residual":
            return self.residual(args[0])
        if l == "next" and len(args) == 1 or l == "next_back" and len(args) == 1:
            pos = fr.position(bb)
            if pos is not None:
                return ("call", "@next", (("call", "@at", (args[0], ("k", pos)), None),), None)
            return ("call", "@next", tuple(args), None) if l == "next" else None
        if l == "index" and "ops::Index" in path or l == "index_mut":
            return self.index(args[0], args[1])
        if l in ("get", "get_mut") and len(args) == 2:
            return ("call", "@get", tuple(args), None)
        if l in ("is_some", "is_ok", "is_none", "is_err"):
            return ("call", "@" + l, tuple(args), None)
        if l in ("map", "and_then", "filter") and ("Option" in path.split("::<")[0] or "option::" in path
                                                   or "result::" in path):
            if l == "map":
                return ("call", "@optmap", tuple(args), str(site) + ("#R" if "esult" in path else ""))
            return ("call", "@opt" + l, tuple(args), str(site) + ("#R" if "esult" in path else ""))
        if l in ("map_err", "ok_or", "ok_or_else", "ok"):
            return ("call", "@" + l, tuple(args), site)
        if l in ("any", "all", "find", "position") or l in (
                "map", "filter", "filter_map", "flat_map", "for_each", "try_for_each"):
            return ("call", "@" + l, tuple(args), site)
        if l in ("rev", "enumerate", "zip", "chain", "keys", "values", "skip", "take", "flatten", "sorted",
                 "dedup", "unique", "first", "last", "step_by", "union", "intersection", "difference",
                 "symmetric_difference", "is_subset", "is_superset", "is_disjoint", "contains", "contains_key",
                 "is_empty", "len", "values_mut", "into_keys", "into_values", "min", "max", "sum", "product",
                 "count", "concat", "extend", "push", "append", "take_while", "skip_while", "rposition",
                 "fold", "pop"):
            if l in ("values_mut", "into_values"):
                l = "values"
            if l == "into_keys":
                l = "keys"
            return ("call", "@" + l, tuple(args), site if l in ("pop", "fold") else None)
        if l in ("new", "with_capacity", "default") and ("Vec" in path or "HashMap" in path or "HashSet" in path
                                                        or "VecDeque" in path or "String" in path):
            return ("call", "@new", (), site)
        return None

    def derived(self, res):
        return False

    def residual(self, x):
        """Value returned by `?` on failure."""
        return ("failed", x)

    def dispatch(self, res, args):
        """The implementation a method of one of this crate's traits has for a receiver whose type is known."""
        if not args or args[0][0] != "agg" or "::" not in res or res.startswith("<"):
            return res
        d = self.p.implmap()
        tr, m = res.rsplit("::", 1)
        if tr not in d:
            return res
        a = args[0][1]
        return d[tr].get((a, m)) or (d[tr].get((None, m)) if a in d["#" + tr] else None) or res

    def call(self, fr, bb, res, path, args, c):
        site = fr.site(bb)
        l = last(path)
        # closure invocation through the Fn traits
        if l in ("call", "call_mut", "call_once") and "ops::Fn" in path and len(args) == 2:
            f = args[0]
            tup = args[1]
            a = [v for _, v in tup[3]] if tup[0] == "agg" else [tup]
            if f[0] == "clo":
                return self.apply_frame(fr, bb, f, a)
            if f[0] == "fn":
                res, path, args = f[1], f[2], a
                l = last(path)
        res = self.dispatch(res, args)
        if res in self.stub:
            return self.stub[res](tuple(args))
        if self.is_opaque(res) or self.is_opaque(path):
            return ("call", path, tuple(args), site if l in IMPURE_LAST else None)
        if res in self.p.tainted:
            self.p.hit_tainted.add(res)
        r = self.builtin(fr, bb, res, path, args, site)
        if r is not None:
            return r
        b = self.p.bodies.get(res)
        if b is not None and len(fr.chain) <= self.max_depth and fr.chain.count(res) < self.recurse.get(res, 1):
            key = (res, tuple(args), site)
            if key not in self.frames:
                self.frames[key] = Frame(self, b, args, site + "/" + l, fr.chain + (res,))
                self.frames[key].parent = (fr, bb)
            fr.calls[bb] = self.frames[key]
            return self.frames[key].ret()
        ct = self.ctor(path, args)
        if ct is not None:
            return ct
        return ("call", path, tuple(args), site if l in IMPURE_LAST else None)

    def evname(self, fr, bb):
        res, path, c = fr.callee(bb)
        bl = fr.body.blocks[bb]
        n = len(bl["s"])
        args = tuple(fr.operand(a, bb, n) for a in bl["t"][2])
        if path is None:
            return None
        if transparent(path):
            return None
        return (path, args)

    # ---- atoms
    def switch_atoms(self, d, vals, which):
        """Atoms on one outgoing edge of a switch on term d (which=None: otherwise)."""
        if d[0] == "discr":
            t, adt = d[1], d[2]
            names = self.p.variants(adt)
            if names is None:
                names_of = {v: v for v in vals}
            else:
                ds = self.p.adts.get(adt)
                if ds:
                    names_of = {int(x["discr"]): x["name"] for x in ds}
                else:
                    names_of = dict(enumerate(names))
            if which is not None:
                me = names_of.get(vals[which], vals[which])
                r = {("is", t, me)}
                if names is not None and 2 < len(names) <= 16:
                    r |= {("isnt", t, n) for n in names_of.values() if n != me}
                return r
            rest = [n for v, n in names_of.items() if v not in vals] if names is not None else []
            if len(rest) == 1:
                return {("is", t, rest[0])}
            return {("isnt", t, names_of.get(v, v)) for v in vals}
        if which is not None:
            v = vals[which]
            if vals == [0] and which == 0 and not number(d):
                return self.truth(d, False, 0)
            return {("is", d, v)}
        if vals == [0] and not number(d):
            return self.truth(d, True, 0)
        return {("isnt", d, v) for v in vals}

    def truth(self, d, val, raw):
        if d[0] == "un" and d[1] == "Not":
            return self.truth(d[2], not val, raw)
        return {("is", d, val)}

    def close(self, K):
        """Consequences of the atoms in K."""
        key = K
        r = self.closed.get(key)
        if r is not None:
            return r
        out = set(K)
        work = list(K)
        n = 0
        while work and n < 4000:
            a = work.pop()
            n += 1
            for x in self.consequences(a):
                if x not in out:
                    out.add(x)
                    work.append(x)
        r = frozenset(a for a in out if not (
            a[0] in ("is", "isnt") and a[1][0] == "agg" and a[1][2] is not None and isinstance(a[2], str) and
            (a[1][2] == a[2]) == (a[0] == "is")))
        self.closed[key] = r
        self.closed[r] = r
        return r

    def consequences(self, a):
        key = ("cons", a)
        if key in self.closed:
            return self.closed[key]
        self.closed[key] = ()
        r = self._cons(a)
        self.closed[key] = r
        return r

    def _cons(self, a):
        out = []
        if a[0] in ("is", "isnt"):
            t, v = a[1], a[2]
            pos = a[0] == "is"
            if t[0] == "un" and t[1] == "Not" and isinstance(v, bool):
                out.append((a[0], t[2], not v))
            if t[0] == "bin" and t[1] == "Eq" and isinstance(v, bool) and pos:
                x, y = t[2], t[3]
                if v is True and x[0] == "agg" and y[0] == "agg" and x[1:3] == y[1:3] and len(x[3]) == len(y[3]):
                    for (_, p_), (_, q_) in zip(x[3], y[3]):
                        out.append(("is", self.mkbin("Eq", p_, q_), True))
                for p_, q_ in ((x, y), (y, x)):
                    if q_[0] == "agg" and q_[2] is not None and not q_[3]:
                        out.append(("is" if v else "isnt", p_, q_[2]))
                    if q_[0] == "k":
                        out.append(("is" if v else "isnt", p_, q_[1]))
            if t[0] == "call" and pos:
                nm, args = t[1], t[2]
                if nm == "@is_some":
                    out.append(("is", args[0], "Some" if v else "None"))
                elif nm == "@is_none":
                    out.append(("is", args[0], "None" if v else "Some"))
                elif nm == "@is_ok":
                    out.append(("is", args[0], "Ok" if v else "Err"))
                elif nm == "@is_err":
                    out.append(("is", args[0], "Err" if v else "Ok"))
                elif nm == "@branch":
                    good = ("Ok", "Err") if t[3] == "R" else ("Some", "None")
                    out.append(("is", args[0], good[0] if v == "Continue" else good[1]))
                elif nm in ("@map_err", "@optmap"):
                    out.append(("is", args[0], v))
                elif nm == "@optfilter" and v == "Some":
                    out.append(("is", args[0], "Some"))
                    out.append(("is", self.apply(args[1], [self.payload(args[0], "Some", "0")], t[3]), True))
                elif nm == "@ok":
                    out.append(("is", args[0], "Ok" if v == "Some" else "Err"))
                elif nm in ("@ok_or", "@ok_or_else"):
                    out.append(("is", args[0], "Some" if v == "Ok" else "None"))
                elif nm in ("@any", "@all") and self.arr_elems(args[0]) is not None:
                    if v is (nm == "@all"):
                        for x in self.arr_elems(args[0]):
                            out.append(("is", self.apply(args[1], [x], t[3]), v))
                elif nm == "@any" and v is False:
                    p = self.apply(args[1], [self.elem(args[0])], t[3])
                    for x in self.close(frozenset([("is", p, False)])):
                        out.append(("forall", args[0], x))
                elif nm in ("@try_for_each",) and v in ("Ok", "Continue", "Some"):
                    p = self.apply(args[1], [self.elem(args[0])], t[3])
                    for x in self.close(frozenset([("is", p, v)])):
                        out.append(("forall", args[0], x))
                elif nm == "@all" and v is True:
                    p = self.apply(args[1], [self.elem(args[0])], t[3])
                    for x in self.close(frozenset([("is", p, True)])):
                        out.append(("forall", args[0], x))
                elif nm in ("@any", "@all") and v is (nm == "@any"):
                    # some element decided it
                    out.append(("is", self.apply(args[1], [self.elem(args[0])], t[3]), v))
                elif nm in ("@find", "@position") and v == "Some":
                    out.append(("is", self.apply(args[1], [self.elem(args[0])], t[3]), True))
                elif nm in ("@find", "@position") and v == "None":
                    p = self.apply(args[1], [self.elem(args[0])], t[3])
                    for x in self.close(frozenset([("is", p, False)])):
                        out.append(("forall", args[0], x))
                elif nm in ("@try_for_each",) and v in ("Err", "Break", "None"):
                    out.append(("is", self.apply(args[1], [self.elem(args[0])], t[3]), v))
                elif nm == "@next" and v == "Some":
                    out += self.elem_facts(args[0])
            if t[0] == "phi" and self.phis.get(t) is not None:
                acc = None
                for x, f, d in self.phis[t]:
                    if not self.compatible(x, v, pos):
                        continue
                    k = frozenset()
                    if f is not None and d and d[0] != "arg":
                        k0 = f.Kat(d[0])
                        if k0 is None:
                            continue
                        k = k0
                        bl = f.body.blocks[d[0]]
                        if d[1] >= len(bl["s"]):
                            k = k | f.did(d[0])
                    if x[0] not in ("k", "agg"):
                        k = self.close(k | {(a[0], x, v)})
                        if self.contradict(k):
                            continue
                    acc = k if acc is None else acc & k
                if acc:
                    out += list(acc)
        if a[0] == "forall":
            pass
        return tuple(out)

    def arr_elems(self, t):
        """Elements of a literal collection, or None."""
        if t[0] == "array":
            return list(t[1])
        if t[0] == "call" and last(t[1]).lstrip("@") == "once" and len(t[2]) == 1:
            return [t[2][0]]
        if t[0] == "call" and last(t[1]).lstrip("@") == "chain" and len(t[2]) == 2:
            a, b = self.arr_elems(t[2][0]), self.arr_elems(t[2][1])
            return a + b if a is not None and b is not None else None
        return None

    def elem_facts(self, coll):
        """What is known of an element because of the filters it passed."""
        out = []
        c = coll
        n = 0
        while c[0] == "call" and c[1].startswith("@") and c[2] and n < 10:
            n += 1
            if c[1] in ("@filter", "@take_while"):
                e = self.elem(c[2][0])
                p = self.apply(c[2][1], [e], c[3])
                out.append(("is", p, True))
            c = c[2][0]
        return out

    def compatible(self, x, v, pos):
        if x[0] == "never":
            return False
        if x[0] == "agg" and x[2] is not None:
            return (x[2] == v) == pos
        if x[0] == "k":
            if isinstance(x[1], bool) or isinstance(v, bool) or isinstance(x[1], int):
                return (x[1] == v) == pos
        if x[0] == "failed":
            # result of `?` on the failure path: Err / None
            return (v in ("Err", "None", "Break")) == pos
        return True

    def contradict(self, K):
        seen = {}
        for a in K:
            if a[0] == "isnt":
                if ("is", a[1], a[2]) in K:
                    return True
                if a[1][0] == "k" and a[1][1] == a[2]:
                    return True
                if a[1][0] == "agg" and a[1][2] == a[2] and a[2] is not None:
                    return True
            if a[0] == "is":
                t = a[1]
                if t[0] == "agg" and t[2] is not None and isinstance(a[2], str) and t[2] != a[2]:
                    return True
                if t[0] == "k" and t[1] != a[2]:
                    return True
                if t[0] == "failed" and a[2] in ("Ok", "Some", "Continue"):
                    return True
                if t[0] == "never":
                    return True
                if t in seen and seen[t] != a[2]:
                    if t[0] == "call" and (t[1] == "@next" or t[1].startswith("@is_empty")):
                        continue
                    return True
                seen[t] = a[2]
        return False

    # ---- events
    def events(self, fr, K=frozenset(), seen=None, depth=0):
        """All call / store events of a frame and of everything inlined in it."""
        out = []
        seen = seen if seen is not None else set()
        if depth > 40 or id(fr) in seen:
            return out
        seen = seen | {id(fr)}
        KK = fr.K()
        b = fr.body
        for i in b.rpo:
            k = KK.get(i)
            if k is None:
                continue
            bl = b.blocks[i]
            kk = self.close(K | k)
            for j, s in enumerate(bl["s"]):
                pl = s[0]
                if pl["p"]:
                    base = {"l": pl["l"], "p": pl["p"][:-1]}
                    lastp = [e for e in pl["p"]]
                    try:
                        tgt = self.store_place(fr, pl, i, j)
                    except RecursionError:
                        continue
                    val = fr.rvalue(s[1], i, j)
                    out.append(Event("@store", (tgt, val), kk, "%s.%d" % (fr.site(i), j),
                                     "%s:%s" % (b.file, s[2]), b.id, None, fr, i))
            t = bl["t"]
            if t[0] != "call":
                continue
            if bl["mac"] and mac_name(bl["mac"]) in LOGMACS and mac_name(bl["mac"]) not in self.heard:
                continue
            term = fr.callterm(i)
            res, path, c = fr.callee(i)
            n = len(bl["s"])
            args = tuple(fr.operand(a, i, n) for a in t[2])
            sub = fr.calls.get(i)
            if t[3]["p"]:
                out.append(Event("@store", (self.store_place(fr, t[3], i, n), term), kk, fr.site(i) + ".c",
                                 fr.where(i), b.id, None, fr, i))
            if sub is not None:
                out += self.events(sub, kk, seen, depth + 1)
                # record the inlined call as well
                out.append(Event(path or "?", args, kk, fr.site(i), fr.where(i), b.id, term, fr, i))
                continue
            out.append(Event(path or "?", args, kk, fr.site(i), fr.where(i), b.id, term, fr, i))
            # closures / functions handed to this call run with elements of the receiver
            for ai, a in enumerate(args):
                if a[0] in ("clo", "fn"):
                    out += self.hof_events(fr, i, path or "", args, ai, a, kk, seen, depth, term)
        return out

    def paths(self, fr, K=frozenset(), limit=3000, depth=0, upto=None, light=False):
        """Acyclic paths of a frame (a loop body is passed at most once) with everything inlined:
        [(K, [events in order], return block)], or None when there are too many. A path's K holds
        the branch conditions taken along it. With upto: paths to that block; light: closures given away are left out."""
        b = fr.body
        fe = fr.feas()
        out = []
        n = [0]

        def block(i, k):
            """Alternatives of the events of block i: [(K, events, blocks passed in callees)]"""
            bl = b.blocks[i]
            alts = [(k, [], {})]
            t = bl["t"]
            evs = []
            for j, s in enumerate(bl["s"]):
                pl = s[0]
                if pl["p"]:
                    tgt = self.store_place(fr, pl, i, j)
                    evs.append(Event("@store", (tgt, fr.rvalue(s[1], i, j)), k, "%s.%d" % (fr.site(i), j),
                                     "%s:%s" % (b.file, s[2]), b.id, None, fr, i))
            if t[0] == "call" and not (bl["mac"] and mac_name(bl["mac"]) in LOGMACS):
                term = fr.callterm(i)
                res, path, c = fr.callee(i)
                args = tuple(fr.operand(a, i, len(bl["s"])) for a in t[2])
                sub = fr.calls.get(i)
                me = Event(path or "?", args, k, fr.site(i), fr.where(i), b.id, term, fr, i)
                if sub is not None and depth < 12:
                    ps = self.paths(sub, k, limit, depth + 1, None, light)
                    if ps is None:
                        return None
                    alts = [(q[0], evs + q[1] + [me], q.frames) for q in ps]
                else:
                    alts = [(k, evs + [me], {})]
                    for ai, a in enumerate(args):
                        if a[0] not in ("clo", "fn") or light:
                            continue
                        ps = None
                        l = last(path or "")
                        if a[0] == "clo" and depth < 8 and l in HOF:
                            hf = self.hof_frame(fr, i, path or "", args, ai, a)
                            ps = hf and self.paths(hf, self.close(k | self.hof_K(path, args)), 40, depth + 1)
                        if ps and len(ps) < 40:
                            # none or one passage of the closure
                            alts = alts + [(k, e0 + q[1], {**f0, **q.frames}) for _, e0, f0 in alts for q in ps if q[1]]
                        else:
                            hs = self.hof_events(fr, i, path or "", args, ai, a, k, set(), depth + 1, term)
                            alts = [(k0, e0 + hs, f0) for k0, e0, f0 in alts]
                if t[3]["p"]:
                    st = Event("@store", (self.store_place(fr, t[3], i, len(bl["s"])), term), k, fr.site(i) + ".c",
                               fr.where(i), b.id, None, fr, i)
                    alts = [(k2, e2 + [st], f2) for k2, e2, f2 in alts]
            else:
                alts = [(k, evs, {})]
            return alts

        st = [(0, frozenset(K), [], {}, frozenset(), (), {})]
        while st:
            i, k, evs, hdr, used, seq, fs = st.pop()
            seq = seq + (i,)
            n[0] += 1
            if n[0] > limit * 20 or len(out) > limit:
                return None
            if i not in fe:
                continue
            if i in b.loops:
                hdr = dict(hdr)
                if i in hdr:
                    if hdr[i][1] or upto in b.loops[i]["body"]:
                        continue
                    k = hdr[i][0]
                    hdr[i] = (k, True)
                    used = frozenset(u for u in used if u[0] not in b.loops[i]["body"])
                else:
                    hdr[i] = (k, False)
            al = block(i, k)
            if al is None:
                return None
            for k2, e2, f2 in al:
                f2 = {**fs, **f2} if f2 else fs
                t = b.blocks[i]["t"]
                if t[0] == "return" and upto is None or i == upto:
                    out.append(Path((k2, evs + e2, i)))
                    out[-1].blocks = seq
                    out[-1].frames = {**f2, id(fr): seq}
                    self.byid[id(fr)] = fr
                    continue
                for e, s in enumerate(b.succ[i]):
                    if (i, e) in used:
                        continue
                    v = self.close(k2 | fr.edge_atoms(i, e))
                    if self.contradict(v):
                        continue
                    st.append((s, v, evs + e2, hdr, used | {(i, e)}, seq, f2))
        return out

    def hof_params(self, path, args, ai):
        l = last(path or "")
        if ai == 0 or not args:
            return []
        recv = args[0]
        opt = "option::" in path or "result::" in path or "Option" in path or "Result" in path
        if opt:
            if l in ("map_err", "or_else", "unwrap_or_else") and "esult" in path:
                return [self.payload(recv, "Err", "0")]
            if l in ("unwrap_or_else", "or_else", "ok_or_else", "get_or_insert_with"):
                return []
            if l == "map_or_else" and ai == 1:
                return []
            return [self.payload(recv, "Ok" if "esult" in path else "Some", "0")]
        if l in ("fold", "try_fold"):
            return [("acc", recv, args[1]), self.elem(recv)]
        if l in ("sort_by", "max_by", "min_by", "sorted_by", "reduce"):
            return [self.elem(recv), self.elem(recv)]
        if l in HOF:
            return [self.elem(recv)]
        return [("param", l, n) for n in range(4)]

    def hof_events(self, fr, bb, path, args, ai, clo, K, seen, depth, term):
        params = self.hof_params(path, args, ai)
        l = last(path)
        if l in ("new", "push", "insert") and not path.startswith("std::panic"):
            return []
        k = set(K)
        if params and l in HOF:
            k |= set(self.elem_facts(args[0]))
            if "option::" in path or "Option" in path:
                if l not in ("unwrap_or_else", "or_else", "ok_or_else", "map_or_else"):
                    k.add(("is", args[0], "Some"))
        k = self.close(frozenset(k))
        if clo[0] == "clo":
            b = self.p.bodies.get(clo[1])
            if b is None:
                return []
            need = b.argc - 1
            ps = list(params[:need])
            while len(ps) < need:
                ps.append(("param", l, len(ps)))
            f = self.closure_frame(clo, ps, "ap" + fr.site(bb), fr.chain)
            if f is None:
                return []
            self.hof_frames[(id(fr), bb)].append(f)
            if f.parent is None:
                f.parent = (fr, bb)
            return self.events(f, k, seen, depth + 1)
        else:
            out = [Event(clo[2], tuple(params), k, fr.site(bb), fr.where(bb), fr.body.id,
                         self.apply(clo, params, fr.site(bb)), fr, bb)]
            b = self.p.bodies.get(clo[1])
            if b is not None and not self.is_opaque(clo[1]) and clo[1] not in fr.chain and b.argc == len(params):
                f = Frame(self, b, list(params), fr.site(bb) + "/" + last(clo[1]), fr.chain + (clo[1],))
                out += self.events(f, k, seen, depth + 1)
            return out

    def store_place(self, fr, pl, i, j):
        # term of the stored-to location: project from the base without following the store itself
        proj = [e for e in pl["p"] if e[0] not in ("*", "o")]
        base = {"l": pl["l"], "p": []}
        t = fr.local(pl["l"], i, j, [])[0]
        for e in proj:
            if e[0] == "f":
                t = ("f", t, str(e[2]))
            elif e[0] == "i":
                t = ("idx", t, fr.local(e[1], i, j, [])[0])
        return t

    # ---- what was put into a collection
    def kept(self, t):
        """What a copy of a collection holds that is added to turn by turn of a loop around the copy."""
        a = ("acc", t[1] + ("kept",))
        self.accs[a] = self.accs[t]
        return a

    def fresh(self, t, fr, bb):
        """A collection (or sum) used at block bb of fr is started anew for each use: no loop around the use
        both adds to it and leaves its start outside."""
        if t[0] != "acc":
            return True
        base, afr, R = self.accs[t]
        while fr is not afr:
            if fr.parent is None:
                return True
            if fr.body.kind == "Closure" and any(s[0] == fr.parent[1] and s[2] is not None for s in R):
                return False
            fr, bb = fr.parent
        l = t[1][1]
        b = afr.body
        for lp in b.loops.values():
            if bb in lp["body"] and any(s[0] in lp["body"] for s in R):
                ds = b.reaching(l, bb, len(b.blocks[bb]["s"]))
                if any(d[0] == "arg" or d[0] not in lp["body"] for d in ds):
                    return False
        return True

    def contribs(self, t, seen=None):
        """(base term, [(operation, argument terms, K, where)]) of a collection built in place.
        Operations of helpers and closures that received it are included."""
        if t[0] != "acc":
            return t, []
        base, fr, R = self.accs[t]
        out = []
        for st in R:
            out += self._contrib_site(fr, st, frozenset(), 0)
        if t[1][-1] == "kept":
            out.append(("@kept", (base,), frozenset(), fr.where(R and sorted(R)[0][0] or 0), fr, sorted(R)[0][0]))
        b2, o2 = self.contribs(base)
        return b2, o2 + out

    def _contrib_site(self, fr, st, K, depth):
        bb, ai, field = st
        if depth > 8:
            return []
        k = fr.Kat(bb)
        if k is None:
            return []
        k = self.close(K | k)
        res, path, c = fr.callee(bb)
        l = last(path or "")
        bl = fr.body.blocks[bb]
        n = len(bl["s"])
        out = []
        if field is None and path and (l in MUTADD or l in MUTDEL) and ai == 0 and res not in self.p.bodies:
            args = tuple(fr.operand(a, bb, n) for a in bl["t"][2])[1:]
            if l == "insert" and len(args) == 2 and "Map" not in path:
                l = "insert_at"
            return [(l, args, k, fr.where(bb), fr, bb)]
        fr.callterm(bb)
        sub = fr.calls.get(bb)
        if field is None and sub is not None:
            for s2 in sub.body.parammuts.get(("p", ai + 1), ()):
                out += self._contrib_site(sub, s2, k, depth + 1)
            return out
        if field is None and sub is None and fr.body.colls and res in self.p.bodies:
            return [("@call", (fr.callterm(bb), ("k", ai)), k, fr.where(bb), fr, bb)]
        if field is not None:
            args = tuple(fr.operand(a, bb, n) for a in bl["t"][2])
            f = sub
            if f is None or f.body.id != args[ai][1]:
                f = self.hof_frame(fr, bb, path or "", args, ai, args[ai])
            if f is None:
                return []
            kk = k | self.hof_K(path or "", args)
            for s2 in f.body.parammuts.get(("u", field), ()):
                out += self._contrib_site(f, s2, self.close(kk), depth + 1)
        return out

    def hof_frame(self, fr, bb, path, args, ai, clo):
        b = self.p.bodies.get(clo[1])
        if b is None:
            return None
        ps = list(self.hof_params(path, args, ai))[:b.argc - 1]
        while len(ps) < b.argc - 1:
            ps.append(("param", last(path), len(ps)))
        f = self.closure_frame(clo, ps, "ap" + fr.site(bb), fr.chain)
        if f is not None and f.parent is None:
            f.parent = (fr, bb)
        return f

    def hof_K(self, path, args):
        l = last(path)
        k = set()
        if l in HOF and args:
            k |= set(self.elem_facts(args[0]))
            if "option::" in path or "Option" in path:
                if l not in ("unwrap_or_else", "or_else", "ok_or_else", "map_or_else"):
                    k.add(("is", args[0], "Some"))
        return frozenset(k)

    # ---- what decides whether a block runs
    def guards(self, fr, bb):
        """Atoms of every branch that decides whether the block runs (control dependence, through
        inlined calls and closures), including the filters of the iterators it runs under."""
        out = set()
        n = 0
        while True:
            cd = fr.body.control(bb)
            for p, e in cd:
                if p not in fr.feas() or p in fr.fsucc and fr.fsucc[p] != fr.body.succ[p][e]:
                    continue
                for a in fr.edge_atoms(p, e):
                    out.add(a)
                    if a[0] == "is" and a[2] == "Some" and a[1][0] == "call" and a[1][1] == "@next":
                        out |= set(self.elem_facts(a[1][2][0]))
            n += 1
            if fr.parent is None or n > 20:
                break
            par, pbb = fr.parent
            if fr.body.kind == "Closure" or fr.selfclo is not None:
                res, path, c = par.callee(pbb)
                k = len(par.body.blocks[pbb]["s"])
                args = tuple(par.operand(a, pbb, k) for a in par.body.blocks[pbb]["t"][2])
                out |= set(self.hof_K(path or "", args))
            fr, bb = par, pbb
        return frozenset(out)

    def gcases(self, fr, bb):
        """The ways a block comes to run: sets of the branch conditions taken, one for each way."""
        out = self._bcases(fr, bb, ())
        n = 0
        while fr.parent is not None and n < 20:
            n += 1
            par, pbb = fr.parent
            more = frozenset()
            if fr.body.kind == "Closure" or fr.selfclo is not None:
                res, path, c = par.callee(pbb)
                k = len(par.body.blocks[pbb]["s"])
                args = tuple(par.operand(a, pbb, k) for a in par.body.blocks[pbb]["t"][2])
                more = frozenset(self.hof_K(path or "", args))
            out = [k | more | k2 for k in out for k2 in self._bcases(par, pbb, ())]
            fr, bb = par, pbb
        out = {k for k in out if not self.contradict(self.close(k))}
        return [k for k in out if not any(o < k for o in out)]

    def _bcases(self, fr, bb, busy):
        key = ("g", bb)
        if not busy and key in fr.memo:
            return fr.memo[key]
        edges, always = fr.body.direct(bb)
        out = {frozenset()} if always else set()
        for p, e in edges if not always else ():
            if p == bb or p in busy or p not in fr.feas() or p in fr.fsucc and fr.fsucc[p] != fr.body.succ[p][e]:
                continue
            at = set(fr.edge_atoms(p, e))
            for a in list(at):
                if a[0] == "is" and a[2] == "Some" and a[1][0] == "call" and a[1][1] == "@next":
                    at |= set(self.elem_facts(a[1][2][0]))
            for k in self._bcases(fr, p, busy + (bb,)):
                k2 = k | at
                if not self.contradict(self.close(k2)):
                    out.add(k2)
        out = [k for k in out if not any(o < k for o in out)]
        if len(out) > 64:
            out = [self.guards(fr, bb)]
        if not busy:
            fr.memo[key] = out
        return out

    # ---- disjunctions
    def cases(self, K, limit=400):
        """K split over the alternatives of the chosen values it tests: a list of atom sets one
        of which holds."""
        done = []
        work = [(frozenset(K), frozenset())]
        while work:
            k, used = work.pop()
            k = self.close(k)
            if self.contradict(k):
                continue
            pick = None
            for a in sorted(k, key=repr):
                if a[0] in ("is", "isnt") and a not in used:
                    t = a[1]
                    # look through wrappers that only rename variants
                    if t[0] == "phi" and self.phis.get(t) is not None:
                        pick = a
                        break
                    if t[0] == "call" and t[1] in ("@any", "@all") and a[0] == "is" and \
                            a[2] is (t[1] == "@any") and self.arr_elems(t[2][0]) is not None:
                        pick = a
                        break
                    if t[0] == "call" and t[1] not in ("@any", "@all") and self.choice(t):
                        pick = a
                        break
                    if t[0] == "bin" and t[1] == "Eq" and a[0] == "is" and a[2] is False and t[2][0] == "agg" and \
                            t[3][0] == "agg" and t[2][1:3] == t[3][1:3] and t[2][3]:
                        pick = a
                        break
            if pick is None or len(done) + len(work) > limit:
                done.append(k)
                continue
            t, v, pos = pick[1], pick[2], pick[0] == "is"
            n = 0
            if t[0] == "bin":
                for (_, p_), (_, q_) in zip(t[2][3], t[3][3]):
                    work.append((k | {("is", self.mkbin("Eq", p_, q_), False)}, used | {pick}))
                continue
            if t[0] == "call" and t[1] not in ("@any", "@all"):
                for x, kx in self.choice(t):
                    if self.compatible(x, v, pos):
                        work.append((k | kx | ({(pick[0], x, v)} if x[0] not in ("k", "agg", "failed") else frozenset()),
                                     used | {pick}))
                continue
            if t[0] == "call":
                for x in self.arr_elems(t[2][0]):
                    work.append((k | {("is", self.apply(t[2][1], [x], t[3]), v)}, used | {pick}))
                continue
            for x, f, d in self.phis[t]:
                if not self.compatible(x, v, pos):
                    continue
                kk = frozenset()
                if f is not None and d and d[0] != "arg":
                    k0 = f.Kat(d[0])
                    if k0 is None:
                        continue
                    kk = k0
                    bl = f.body.blocks[d[0]]
                    if d[1] >= len(bl["s"]):
                        kk = kk | f.did(d[0])
                if x[0] not in ("k", "agg", "failed"):
                    kk = kk | {(pick[0], x, v)}
                work.append((k | kk, used | {pick}))
                n += 1
        return done

    def latch_K(self, fr, bb):
        """[atoms holding each time the innermost loop around (fr, bb) goes round again]; loops of
        calling functions count when the callee has none."""
        while fr is not None:
            b = fr.body
            best = None
            for h, lp in b.loops.items():
                if bb in lp["body"] and (best is None or len(lp["body"]) < len(best[1]["body"])):
                    best = (h, lp)
            if best is not None:
                h, lp = best
                out = []
                KK = fr.K()
                for l in sorted(lp["latch"]):
                    if KK.get(l) is None:
                        continue
                    o = KK[l] | fr.did(l)
                    for e, s in enumerate(b.succ[l]):
                        if s == h:
                            v = self.close(o | fr.edge_atoms(l, e))
                            if not self.contradict(v):
                                out.append(v)
                return (fr, h, out)
            if fr.parent is None:
                return None
            fr, bb = fr.parent
        return None

    # ---- return value with gates
    def returns(self, fr):
        """[(term, K)] for each alternative of the returned value."""
        out = []
        for i in fr.body.reach:
            if fr.body.blocks[i]["t"][0] != "return":
                continue
            K = fr.K()[i]
            if K is None:
                continue
            t = fr.ret()
            for a, k in self.gated(t):
                kk = self.close(K | k)
                if not self.contradict(kk):
                    out.append((a, kk))
        return out


# ---- printing --------------------------------------------------------------------------
def show(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if d > 8:
        return "…"
    k = t[0] if t else ""
    s = lambda x: show(x, d + 1)
    if k == "arg":
        return t[1]
    if k == "k":
        return repr(t[1])
    if k == "f":
        return "%s.%s" % (s(t[1]), t[2])
    if k == "v":
        return "%s:%s.%s" % (s(t[1]), t[2], t[3])
    if k == "call":
        return "%s(%s)" % (last(t[1]) if not t[1].startswith("@") else t[1], ", ".join(s(x) for x in t[2]))
    if k == "agg":
        nm = (last(t[1]) if t[1] else "") + ("::" + t[2] if t[2] and last(t[1]) != t[2] else "")
        return "%s{%s}" % (nm, ", ".join("%s: %s" % (n, s(v)) for n, v in t[3]))
    if k == "clo":
        return "|%s|" % "::".join(t[1].split("::")[-2:])
    if k == "fn":
        return "fn " + last(t[1])
    if k == "phi":
        return "phi<%s>" % (str(t[1][1]) if len(t[1]) > 1 and not isinstance(t[1][1], tuple) else "..")
    if k == "elem":
        return "elem(%s)" % s(t[1])
    if k == "bin":
        return "(%s %s %s)" % (s(t[2]), t[1], s(t[3]))
    if k == "un":
        return "%s(%s)" % (t[1], s(t[2]))
    if k == "acc":
        return "acc<%s>" % t[1][1]
    if k == "fmt":
        return "fmt\"%s\"" % "".join(x if isinstance(x, str) else "{%s:%s}" % (s(x[1]), x[0]) for x in t[1])
    if k == "idx":
        return "%s[%s]" % (s(t[1]), s(t[2]))
    if k == "upd":
        return "%s{%s:=%s}" % (s(t[1]), t[2], s(t[3]))
    if k in ("is", "isnt"):
        return "%s %s %s" % (s(t[1]), k, t[2])
    if k == "forall":
        return "forall(%s: %s)" % (s(t[1]), s(t[2]))
    if k == "did":
        return "did %s(%s)" % (last(t[1]), ", ".join(s(x) for x in t[2]))
    return "(%s)" % " ".join(s(x) for x in t)
