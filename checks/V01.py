import re

from tables import *
from core import *

TITLE = "the verdict reported is the verdict computed"
EXPLAIN = ("Every function between a decision procedure and the user (executors, results, command line output, protocol "
           "messages, failure reports) is evaluated over compiler MIR for each variant of what it is given; the value it "
           "builds is compared, field by field, with the one the table of this rule prescribes.")
QF = "System::query_failures::"
PR = "ProtobufServer::services::query_response::"
SV = "ProtobufServer::services::"
EQ = "System::executable_query::"
TS = "TransitionSystems::transition_system::TransitionSystem::"
SP = "System::specifics::"
A = lambda x: ("arg", x)
TSM = [TS + x for x in ("to_string", "inputs_contain", "outputs_contain", "get_input_actions", "get_output_actions",
                        "get_composition_type", "check_determinism", "precheck_sys_rep", "check_local_consistency")]
STATES = [SP + "SpecificState::from_state", SP + "SpecificState::from_state_pair"]
SYS = 'System{name: "{to_string(%s)} %s {to_string(%s)}", sys_type: SystemType::%s}'


def run(c):
    n = 0
    convs = [b for b in c.p.bodies if "convert::From<" in b and b.endswith("::from")]
    n += executors(c)
    n += results(c, convs)
    n += failures(c, convs)
    n += protos(c, convs)
    printed(c)
    request(c, convs)
    c.floor(n, 60, "rows", "cases of conversions")


def either(w, *ts):
    return list(ts) + ["QueryResult::%s(%s)" % (w, t) for t in ts]


def executors(c):
    opq = TSM + ["System::refine::check_refinement", "System::reachability::find_specific_path",
                 "System::save_component::combine_components", "ModelObjects::component::Component::remake_edge_ids"]
    n = 0
    for x, w, t in (("Refinement", "Refinement", "check_refinement(self.sys1, self.sys2)"),
                    ("Reachability", "Reachability", "find_specific_path(self.start_state, self.end_state, self.transition_system)"),
                    ("Consistency", "Consistency", "precheck_sys_rep(self.system)"),
                    ("Determinism", "Determinism", "check_determinism(self.system)")):
        n += table(c, "<%s%sExecutor as %sExecutableQuery>::execute" % (EQ, x, EQ), [("run", None, either(w, t))], opq, x)
    fn = [b for b in c.p.bodies if b.startswith("<%sGetComponentExecutor" % EQ) and b.endswith("::execute")]
    if not fn:
        c.viol("anchor", "component", "there is no procedure for saving components")
        return n
    e, f = c.entry(fn[0], opq)
    made = None
    for x, k in answers(e, f):
        b = render(e, x, f)
        m = re.match(r"^QueryResult::GetComponent\((.*)\)$", b)
        if c.oblige(m, "component-answer", "", "a query for a component is answered with %s" % b[:160]):
            made = m.group(1)
            c.oblige(made.startswith("combine_components(self.system, PruningStrategy::Reachable)"), "component-made", "",
                     "the component answered is %s" % made[:160])
            c.oblige("{name:=self.comp_name}" in made, "component-name", "",
                     "the component answered does not have the name it was asked under: %s" % made[:160])
    saved = [x for x in e.events(f) if last(x.name) == "save_component"]
    if c.oblige(saved, "component-saved", "", "the component is not saved"):
        for x in saved:
            c.oblige(not conds(e, x) and render(e, x.args[-1], f) == made, "component-saved", x.where,
                     "what is saved is %s, and not always what is answered" % render(e, x.args[-1], f)[:160])
    return n + 1


def results(c, convs):
    n = 0
    for s, v in (("std::result::Result<System::specifics::SpecificPath, System::query_failures::PathFailure>", "Reachability"),
                 ("std::result::Result<(), System::query_failures::ConsistencyFailure>", "Consistency"),
                 ("std::result::Result<(), System::query_failures::DeterminismFailure>", "Determinism"),
                 ("std::result::Result<(), System::query_failures::RefinementFailure>", "Refinement"),
                 (QF + "SystemRecipeFailure", "RecipeFailure")):
        fid = conv(c, s, QF + "QueryResult")
        if fid:
            n += table(c, fid, [("it", lambda V: (A("x"),), "QueryResult::%s(x)" % v)], [], "result-" + v)
    # to the protocol
    fid = conv(c, QF + "QueryResult", PR + "Result")
    if fid:
        Q = lambda v, *xs: lambda V: (V(QF + "QueryResult", v, *xs),)
        R = lambda v, r: lambda V: (V(QF + "QueryResult", v, V("Result", r, A("x"))),)
        opq = [x for x in convs if x != fid] + ["DataReader::json_writer::component_to_json"]
        same = lambda v: ["x", "Result::%s(x)" % v]
        rows = [(v + "-Ok", R(v, "Ok"), "Result::Success(Success)") for v in ("Refinement", "Consistency", "Determinism")]
        rows += [(v + "-Err", R(v, "Err"), same(v)) for v in ("Refinement", "Consistency", "Determinism", "Reachability")]
        rows += [("Reachability-Ok", R("Reachability", "Ok"), "Result::ReachabilityPath(x)"),
                 ("RecipeFailure", Q("RecipeFailure", A("x")), same("Model")),
                 ("CustomError", Q("CustomError", A("x")), "Result::Error(Error{error: x})"),
                 ("GetComponent", Q("GetComponent", A("x")),
                  "Result::Component(Component{rep: Some(Rep::Json(component_to_json(x)))})")]
        n += table(c, fid, rows, opq, "reply")
    for s, v in (("SystemRecipeFailure", "Model"), ("DeterminismFailure", "Determinism"), ("ConsistencyFailure", "Consistency"),
                 ("RefinementFailure", "Refinement"), ("PathFailure", "Reachability")):
        fid = conv(c, QF + s, PR + "Result")
        if fid:
            n += table(c, fid, [("it", lambda V: (A("x"),), "Result::%s(x)" % v)], [x for x in convs if x != fid], "reply-" + s)
    return n


def failures(c, convs):
    """The reports made where a decision falls."""
    opq = TSM + STATES
    n = 0
    arg = lambda *xs: lambda V: tuple(A(x) for x in xs)
    rs = SYS % ("a", "<=", "b", "Refinement")

    def row(fn, args, want, key=None):
        return table(c, QF + fn, [("it", args, want)], opq, key or fn.replace("::", "-"))
    S = lambda op, k: SYS % ("a", op, "b", k)
    n += row("System::refinement", arg("a", "b"), rs)
    n += row("System::from", arg("a"), "System{name: to_string(a), sys_type: get_composition_type(a)}")
    for v, op in (("Quotient", "\\\\"), ("Composition", "||"), ("Conjunction", "&&"), ("Refinement", "<=")):
        n += table(c, QF + "System::from_composite_system", [(v, lambda V: (A("a"), A("b"), V("SystemType", v)), S(op, v))], opq,
                   "composite")
        if v != "Refinement":
            fid = conv(c, "CompositionType", QF + "SystemType")
            if fid:
                n += table(c, fid, [(v, lambda V: (V("CompositionType", v),), "SystemType::" + v)], [], "kind")
    fid = conv(c, "CompositionType", QF + "SystemType")
    if fid:
        n += table(c, fid, [("Simple", lambda V: (V("CompositionType", "Simple"),), "SystemType::Simple")], [], "kind")
    for left, who in ((True, "a"), (False, "b")):
        n += table(c, QF + "RefinementFailure::empty_child", [(str(left), lambda V: (A("a"), A("b"), ("k", left)),
                   "Err(RefinementFailure::Precondition(RefinementPrecondition::EmptyChild{child: to_string(%s), system: %s}))" % (
                       who, rs))], opq)
    n += row("RefinementFailure::empty_initial", arg("a", "b"),
             "Err(RefinementFailure::Precondition(RefinementPrecondition::EmptyInitialState{system: %s}))" % rs)
    for fn, v in (("cannot_match", "CannotMatch"), ("cuts_delays", "CutsDelaySolutions")):
        n += row("RefinementFailure::" + fn, arg("a", "b", "act", "st"), isinput(
            "Err(RefinementFailure::%s{action: Action{is_input: @, name: act}, state: from_state_pair(st, a, b), system: %s})" % (
                v, rs), ("a", "b")))
    n += row("DeterminismFailure::from_system_and_action", arg("a", "act", "st"), isinput(
        "Err(DeterminismFailure{action: Action{is_input: @, name: act}, state: from_state(st, a), system: to_string(a)})", ("a",)))
    n += row("ConsistencyFailure::no_initial_state", arg("a"), "Err(ConsistencyFailure::NoInitialState{system: to_string(a)})")
    for fn, v in (("inconsistent", "InconsistentLoc"), ("inconsistent_from", "InconsistentFrom")):
        n += row("ConsistencyFailure::" + fn, arg("a", "st"),
                 "Err(ConsistencyFailure::%s{state: from_state(st, a), system: to_string(a)})" % v)
    ACT = lambda x: "ActionSet{actions: %s.1, is_input: (%s), system: to_string(%s.0)}" % (
        x, " Eq ".join(sorted(["%s.1" % x, "get_input_actions(%s.0)" % x])), x)
    for fn, v in (("not_disjoint", "NotDisjoint"), ("not_subset", "NotSubset")):
        n += row("ActionFailure::" + fn, arg("a", "b"), "Err(ActionFailure::%s(%s, %s))" % (v, ACT("a"), ACT("b")))
    n += row("ActionFailure::not_disjoint_IO", arg("nm", "i", "o"),
             "Err(ActionFailure::NotDisjoint(ActionSet{actions: i, is_input: True, system: nm}, "
             "ActionSet{actions: o, is_input: False, system: nm}))")
    for t, pre, rec in (("ActionFailure", "ActionMismatch", "Action"), ("ConsistencyFailure", "InconsistentChild", "Inconsistent")):
        n += row(t + "::to_precondition", arg("x", "a", "b"), "RefinementPrecondition::%s(x, %s)" % (pre, rs))
        n += row(t + "::to_recipe_failure", arg("x", "a"),
                 "SystemRecipeFailure::%s(x, System{name: to_string(a), sys_type: get_composition_type(a)})" % rec)
        n += row(t + "::to_rfq", arg("x", "a", "b"), "SystemRecipeFailure::%s(x, %s)" % (rec, S("\\\\", "Quotient")))
    n += row("ActionFailure::to_simple_failure", arg("x", "nm"),
             "SystemRecipeFailure::Action(x, System{name: nm, sys_type: SystemType::Simple})")
    for fn, op, v in (("to_rfcomp", "||", "Composition"), ("to_rfconj", "&&", "Conjunction")):
        n += row("ActionFailure::" + fn, arg("x", "a", "b"), "SystemRecipeFailure::Action(x, %s)" % S(op, v))
    fid = conv(c, QF + "DeterminismFailure", QF + "ConsistencyFailure")
    if fid:
        n += table(c, fid, [("it", arg("x"), "ConsistencyFailure::NotDeterministic(x)")], [], "nested")
    for s in (QF + "RefinementPrecondition", "std::boxed::Box<%sRefinementPrecondition>" % QF):
        fid = conv(c, s, QF + "RefinementFailure")
        if fid:
            n += table(c, fid, [("it", arg("x"), "RefinementFailure::Precondition(x)")], [], "nested-" + last(s).strip(">"))
    return n


def isinput(want, systems):
    """The result is want, with @ true exactly if the action is an input of one of the systems."""
    def ok(e, x, k, f):
        m = re.match("^" + re.escape(want).replace("@", "(.*?)") + "$", render(e, x, f))
        if not m:
            return False
        asked = {s: "inputs_contain(%s, act)" % s for s in systems}
        known = {}
        for a in k:
            if a[0] == "is" and isinstance(a[2], bool):
                known[render(e, a[1], f)] = a[2]
        v = m.group(1)
        if v == "True":
            return any(known.get(q) is True for q in asked.values())
        rest = [q for q in asked.values() if known.get(q) is not False]
        return v == "False" and not rest or rest == [v]
    return ok


def protos(c, convs):
    n = 0

    def rows(src, dst, rs, key):
        fid = conv(c, src, dst)
        if not fid:
            return 0
        return table(c, fid, rs, [x for x in convs if x != fid], key)
    one = lambda name, v, *xs: lambda V: (V(QF + name, v, *[A(x) for x in xs]),)
    sa = lambda s, a: "StateAction{action: %s.name, state: Some(%s)}" % (a, s)
    n += rows(QF + "DeterminismFailure", PR + "DeterminismFailure", [("it", one("DeterminismFailure", None, "sys", "act", "st"),
              "DeterminismFailure{failure_state: Some(%s), system: sys}" % sa("st", "act"))], "proto-determinism")
    fl = lambda s, v, x: "ConsistencyFailure{failure: Some(Failure::%s(%s)), system: %s}" % (v, x, s)
    n += rows(QF + "ConsistencyFailure", PR + "ConsistencyFailure", [
        ("NoInitialState", one("ConsistencyFailure", "NoInitialState", "sys"), fl("sys", "NoInitialState", "0")),
        ("NotDeterministic", one("ConsistencyFailure", "NotDeterministic", "df"), fl("df.system", "Determinism", "df")),
        ("InconsistentLoc", one("ConsistencyFailure", "InconsistentLoc", "sys", "st"), fl("sys", "FailureState", "st")),
        ("InconsistentFrom", one("ConsistencyFailure", "InconsistentFrom", "sys", "st"), fl("sys", "FailureState", "st"))],
        "proto-consistency")
    rf = lambda v, x: "RefinementFailure{failure: Some(Failure::%s(%s)), system: sys.name}" % (v, x)
    un = lambda i: rf("RefinementState", "RefinementStateFailure{state: Some(%s), unmatched: %d}" % (sa("st", "act"), i))
    pre = lambda v, *xs: lambda V: (V(QF + "RefinementFailure", "Precondition", V(QF + "RefinementPrecondition", v, *[A(x) for x in xs])),)
    n += rows(QF + "RefinementFailure", PR + "RefinementFailure", [
        ("CutsDelaySolutions", one("RefinementFailure", "CutsDelaySolutions", "sys", "act", "st"), un(1)),
        ("CannotMatch", one("RefinementFailure", "CannotMatch", "sys", "act", "st"), un(0)),
        ("EmptyChild", pre("EmptyChild", "child", "sys"), rf("EmptySystem", "child")),
        ("EmptyInitialState", pre("EmptyInitialState", "sys"), rf("NoInitialState", "0")),
        ("InconsistentChild", pre("InconsistentChild", "x", "sys"), rf("InconsistentChild", "x")),
        ("ActionMismatch", pre("ActionMismatch", "x", "sys"), rf("ActionMismatch", "x"))], "proto-refinement")
    mf = lambda v: "ModelFailure{failure: Some(Failure::%s(x)), system: sys.name}" % v
    n += rows(QF + "SystemRecipeFailure", PR + "ModelFailure", [
        ("Action", one("SystemRecipeFailure", "Action", "x", "sys"), mf("ActionMismatch")),
        ("Inconsistent", one("SystemRecipeFailure", "Inconsistent", "x", "sys"), mf("InconsistentConjunction"))], "proto-model")
    n += rows(QF + "ActionFailure", SV + "ActionFailure", [
        (v, one("ActionFailure", v, "a", "b"), "ActionFailure{action_sets: [a, b], failure: %d}" % i)
        for i, v in enumerate(("NotSubset", "NotDisjoint"))], "proto-actions")
    n += rows(QF + "ActionSet", SV + "action_failure::ActionSet", [("it", one("ActionSet", None, "sys", "acts", "inp"), [
        "ActionSet{actions: acts, is_input: inp, system: sys}"])] if tuple(
            x for x, _ in c.p.adts[QF + "ActionSet"][0]["fields"]) == ("system", "actions", "is_input") else [
        ("it", lambda V: (A("x"),), "ActionSet{actions: x.actions, is_input: x.is_input, system: x.system}")], "proto-actionset")
    n += rows(QF + "PathFailure", PR + "ReachabilityFailure", [("Unreachable", one("PathFailure", "Unreachable"),
                                                                "ReachabilityFailure{failure: 0}")], "proto-path")
    n += rows(SP + "SpecificPath", PR + "ReachabilityPath", [
        ("it", lambda V: (A("x"),), "ReachabilityPath{path: Some(Path{decisions: x.path})}")], "proto-path")
    return n


YES, NO = "{q} -- Property is satisfied", "{q} -- Property is NOT satisfied"


def printed(c):
    fn = EQ + "<impl %sQueryResult>::print_result" % QF
    T = Tables(c)
    n = 0
    cases = [(v, r, YES if r == "Ok" else NO) for v in ("Refinement", "Reachability", "Consistency", "Determinism")
             for r in ("Ok", "Err")] + [("RecipeFailure", None, NO)]
    for v, r, want in cases:
        key = "print-%s%s" % (v, "-" + r if r else "")
        e0 = fx.Engine(c.p, [])
        try:
            x = T.val(e0, "QueryResult", v, T.val(e0, "Result", r, A("x")) if r else A("x"))
        except Undecided2:
            return
        e, f = c.entry(fn, [], (x, A("q")))
        if f is None:
            return
        e.heard = ("println", "print", "println!", "print!")
        lines = []
        for ev in e.events(f):
            if last(ev.name) == "_print":
                lines.append((render(e, ev.args[0], f).strip('"').strip(), ev))
        n += 1
        said = [ev for s, ev in lines if s == want]
        c.oblige(said and all(not conds(e, ev) or v == "Reachability" and r == "Err" for ev in said), key, "",
                 "%s: \"%s\" is not always printed but %s" % (key[6:], want, [s for s, _ in lines][:3]))
        other = NO if want == YES else YES
        for s, ev in lines:
            c.oblige(s != other, key, ev.where, "%s: \"%s\" is printed" % (key[6:], s))
        if (v, r) == ("Reachability", "Ok"):
            st = [(s, ev) for s, ev in lines if s == "{elem(x.path).action} from {elem(x.path).source_state}"]
            c.oblige(st and all(not leaves(e, ev.frame, ev.bb) and every_path(e, f, ev, ("f", A("x"), "path"))
                                for s, ev in st), "print-path", "",
                     "not every step of a path is printed with its action and source: %s" % [s for s, _ in lines][1:])
    c.floor(n, 9, "print", "results printed")


def request(c, convs):
    """One request: the query in it, on the components in it, answered under its number."""
    fn = [b for b in c.p.find("handle_send_query")]
    if not fn:
        c.viol("anchor", "request", "there is no procedure for requests")
        return
    SQ = "ProtobufServer::ecdar_requests::send_query::"
    RU = "ProtobufServer::ecdar_requests::request_util::"
    pq = "DataReader::parse_queries::parse_to_query"
    opq = [RU + "get_or_insert_model", "System::extract_system_rep::create_executable_query", pq] + convs
    e, f = c.entry(fn[0], opq, (A("req"), A("cache")))
    if f is None:
        return
    asked = "parse_to_query(req.query)"
    model = "get_or_insert_model(cache, req.user_id, req.components_info!.components_hash, req.components_info!.components)"
    some = set()
    for x, k in answers_failed(e, f):
        ks = {render(e, a[1], f): a[2] for a in k if a[0] == "is"}
        txt = render(e, x, f)
        made = [(q, v) for q, v in ks.items() if q.startswith("create_executable_query(") and v in ("Ok", "Err")]
        if txt.startswith("Ok("):
            m = re.match(r"^Ok\(QueryResponse\{info: .*?, query_id: (.*?), result: Some\((.*)\)\}\)$", txt)
            if not c.oblige(m, "request-form", "", "a request is answered with %s" % txt[:200]):
                continue
            c.oblige(m.group(1) == "req.query_id", "request-number", "", "the answer has the number %s" % m.group(1))
            r = m.group(2)
            c.oblige(single(e, f, k, asked), "request-one", "", "a request with several queries is answered for one of them")
            c.oblige(made, "request-made", "", "a request is answered without building its query")
            for q, v in made:
                w = re.match(r"^create_executable_query\((.*), (get_or_insert_model.*)\)$", q)
                c.oblige(w and w.group(1).startswith(asked) or w and asked in w.group(1), "request-query", "",
                         "the query built is %s" % (w.group(1) if w else q)[:160])
                c.oblige(w and w.group(2).startswith(model[:-1]), "request-model", "",
                         "the query is built on %s" % (w.group(2) if w else q)[:200])
                if v == "Ok":
                    some.add("Ok")
                    c.oblige(r == "execute(%s!)" % q, "request-result", "", "the answer is %s" % r[:160])
                else:
                    some.add("Recipe")
                    c.oblige(r in (q + ".Err.0.SystemRecipeFailure.0", "Result::Model(%s.Err.0.SystemRecipeFailure.0)" % q,
                                   "QueryResult::RecipeFailure(%s.Err.0.SystemRecipeFailure.0)" % q),
                             "request-failure", "", "a system that cannot be built is answered with %s" % r[-120:])
        else:
            some.add("Err")
            for q, v in made:
                c.oblige(v == "Err" and ks.get(q + ".Err.0") == "Custom", "request-refused", "",
                         "a query that was built is refused: %s" % txt[:160])
    c.oblige(some >= {"Ok", "Recipe", "Err"}, "request-cases", "", "only the cases %s of a request are answered" % sorted(some))
    sets = [x for x in e.events(f) if last(x.name) == "set_settings"]
    if c.oblige(sets, "request-settings", "", "the settings of a request are not used"):
        for x in sets:
            t = render(e, x.args[-1], f)
            c.oblige("req.settings" in t, "request-settings", x.where, "the settings used are %s" % t[:120])


def single(e, f, k, asked):
    """The queries asked are known to be a single one."""
    for a in k:
        if a[0] != "is":
            continue
        t = a[1]
        x = t[2][0] if t[0] == "call" and t[2] else None
        while x is not None and x[0] == "acc":
            x = e.contribs(x)[0]
        about = x is not None and asked in render(e, x, f)
        if about and cname(t) == "len" and a[2] == 1 or about and cname(t) == "is_empty" and a[2] is True:
            return True
        if about and cname(t) in ("next", "get", "pop", "nth") and a[2] == "None":
            return True
    return False


def answers_failed(e, f):
    out = []
    for t, k in e.returns(f):
        for x, kk, _ in deep(e, t, k):
            if x[0] == "never":
                continue
            kk = e.close(kk)
            if not e.contradict(kk):
                out.append((x, kk))
    return out
