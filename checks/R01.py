from refinement import *

TITLE = "refinement verdicts rest on a complete, correctly directed match"
EXPLAIN = ("Dataflow over the compiled refinement check: for each way round the exploration loop, the facts that "
           "hold for every output of the left system and every input of the right system are split into cases; each "
           "case must show that the left-hand transitions are impossible or that their guard federation minus the "
           "matching one is empty. Successful returns must be reached with the work list exhausted or both systems "
           "empty; failures must be justified by a non-empty remainder or a cut delay.")


def run(c):
    s = model(c)
    if s is None:
        return
    e = s.e
    where = "src/System/refine.rs"
    c.floor(len(s.latches), 1, "latch", "ways round the exploration loop")
    dirs = [("output", S1, s.loc1, s.out1, "next_outputs", S2, s.loc2, s.out2, "get_output_actions"),
            ("input", S2, s.loc2, s.in2, "next_inputs", S1, s.loc1, s.in1, "get_input_actions")]
    for d, sa, la, ca, nm, sb, lb, cb, getter in dirs:
        coll = ("call", None, (sa,))

        def iscoll(t, ca=ca):
            return match(ca, t) is not None
        for n, K in enumerate(s.latches):
            colls = {a[1] for a in K if a[0] == "forall" and iscoll(a[1])}
            exhausted = [t for a in K if a[0] == "is" and a[2] == "None" and (r := match(Cl("next", V("c")), a[1]))
                         for t in [r["c"]] if iscoll(t)]
            tried = [a for a in K if a[0] == "is" and a[2] in ("Ok", "Continue", True) and
                     (r := match(Cl("try_for_each|all", V("c"), ANY), a[1])) and iscoll(r["c"])]
            c.oblige(colls and (exhausted or tried), "%s-all" % d, where,
                     "not every %s of the %s system is examined before a pair is accepted" % (
                         d, "left" if sa == S1 else "right"))
            if not colls:
                continue
            ct = sorted(colls, key=repr)[0]
            other = ("call", ct[1], (sb,), ct[3])
            cs = foralls(e, K, iscoll)
            c.floor(len(cs), 1, "%s-cases" % d, "cases for each action")
            for k in cs:
                c.oblige(matched(s, k, sa, la, ct, nm, sb, lb, other), "%s-matched" % d, where,
                         "an %s of the %s system is accepted on a path that does not establish that it is matched "
                         "over the whole zone" % (d, "left" if sa == S1 else "right"))
    # successes
    n = 0
    for t, k in s.rets:
        for t2, k2 in expand(e, t, k):
            if t2[0] == "agg" and t2[2] == "Ok":
                n += 1
                both = holds(k2, Cl("get_initial_location", S1), "None") and holds(
                    k2, Cl("get_initial_location", S2), "None")
                done = (holds(k2, Cl("is_empty", V("w")), True, None) and any(
                    match(Cl("is_empty", s.wl), a[1]) is not None for a in k2 if a[0] == "is" and a[2] is True)) or \
                    any(a[0] == "is" and a[1] == s.pop.term and a[2] == "None" for a in k2)
                put = any(a[0] == "did" and last(a[1]) == "put" and a[2][0] == s.wl for a in k2)
                c.oblige(both or (done and put), "success", where,
                         "success is reported although pairs may remain unexplored")
            elif t2[0] == "failed" or (t2[0] == "agg" and t2[2] == "Err"):
                pass
            else:
                c.oblige(False, "result-shape", where, "the verdict %s is neither success nor failure" % show(t2))
    c.floor(n, 1, "success", "successful returns")
    # failures of the exploration are justified
    fails = 0
    for t, k in s.rets:
        lst = expand(e, t, k)
        for t2, k2 in lst:
            if not (t2[0] == "failed" or (t2[0] == "agg" and t2[2] == "Err")):
                continue
            if not any(a[0] == "is" and a[1] == s.pop.term for a in k2) and not any(
                    a[0] == "did" and a[1] == s.pop.name for a in k2):
                continue
            kk = k2
            if t2[0] == "failed":
                kk = e.close(k2 | {("is", t2[1][1] if t2[1][0] == "residual" else t2[1], "Err")})
            for cs in e.cases(kk):
                fails += 1
                c.oblige(justified(s, cs), "failure-justified", where,
                         "refinement is refuted on a path where neither an unmatched transition nor a cut delay was "
                         "established")
    c.floor(fails, 2, "failures", "refutations during exploration")


def expand(e, t, k):
    return [(a, e.close(k | k2)) for a, k2 in e.gated(t) if not e.contradict(e.close(k | k2))]


def feds(s, k):
    """(F1, F2) pairs whose difference is known empty / non-empty, and emptiness of federations."""
    sub = []
    emp = []
    for a in k:
        if a[0] != "is" or not isinstance(a[2], bool):
            continue
        r = match(Cl("is_empty", Cl("subtraction", V("a"), V("b"))), a[1])
        if r is None:
            q = match(Cl("subset_eq", V("a"), V("b")), a[1])
            if q is not None:
                sub.append((q["a"], q["b"], a[2]))
                continue
        if r is not None:
            sub.append((r["a"], r["b"], a[2]))
            continue
        r = match(Cl("is_empty", V("a")), a[1])
        if r is not None:
            emp.append((r["a"], a[2]))
    return sub, emp


def matched(s, k, sa, la, ct, nm, sb, lb, other):
    sub, emp = feds(s, k)

    def left(f):
        src = trans_sources(s, f)
        return src and len(src) == 1 and is_list(s, src[0], sa, la, ct, nm, None)

    def right(f):
        src = trans_sources(s, f)
        return src and len(src) == 1 and is_list(s, src[0], sb, lb, ct, nm, other)
    if any(v and left(f) for f, v in emp):
        return True
    return any(v and left(a) and right(b) for a, b, v in sub)


def justified(s, k):
    sub, emp = feds(s, k)
    for a, b, v in sub:
        if not v:
            return True
    # nothing on the matching side while the other side can move
    non = [f for f, v in emp if not v and trans_sources(s, f)]
    none = [f for f, v in emp if v and trans_sources(s, f)]
    return bool(non) and bool(none)
