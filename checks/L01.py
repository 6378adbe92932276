import fx
import zones
from zones import *
from tables import *
from core import *

TITLE = "each request is answered on its own, from the components of its own user"
EXPLAIN = ("The endpoints of the server, the cache of components and the loaders are evaluated over compiler MIR (through the "
           "bodies of the futures): the calls of the request handlers must run under a panic catcher whose three outcomes are "
           "passed on, the cache must give components only of the same user and hash, and every component read from a request "
           "or a project must be kept and found under its own name.")
B = "<ProtobufServer::ecdar_backend::ConcreteEcdarBackend as ProtobufServer::services::ecdar_backend_server::EcdarBackend>::"
CL = "DataReader::component_loader::"
MC = CL + "ModelCache::"
A = lambda x: ("arg", x)
ENDS = {"send_query": "handle_send_query", "start_simulation": "handle_start_simulation", "take_simulation_step": "handle_take_simulation_step"}



def unclone(t):
    while t and t[0] == "call" and cname(t) in ("clone", "to_string", "to_owned", "as_ref", "deref", "as_str", "borrow", "as_mut", "from", "into") and t[2]:
        t = t[2][0]
    return t


def run(c):
    n = 0
    for end, h in ENDS.items():
        n += endpoint(c, end, h)
    n += token(c)
    n += cached(c)
    n += kept(c)
    n += gathered(c)
    n += read(c)
    n += named(c)
    n += sizes(c)
    c.floor(n, 24, "server", "ways of answering requests and finding components")


def future(e, t, n=0):
    """The value a future, or a call that waits for one, gives."""
    while n < 30:
        n += 1
        if t[0] == "v" and t[2] == "Ready":
            t = t[1]
        elif t[0] == "call" and last(t[1]) in ("poll", "new_unchecked", "into_future", "block_on", "as_mut", "Pin::new"):
            t = t[2][0]
        elif t[0] == "call" and last(t[1]) in ("install", "scope", "block_in_place"):
            t = t[2][-1]
        elif t[0] == "clo":
            r = e.apply(t, [], "x")
            if r == t:
                return t
            t = r
        else:
            return t
    return t


def calls_in(t, name):
    return [s for s in fx.subterms(t) if s and s[0] == "call" and last(s[1]) == name]


def caught(e, t):
    """t is what catching the panics of some future gives: that future."""
    t0 = t
    for _ in range(12):
        if t[0] == "v" and t[2] == "Ready":
            t = t[1]
        elif t[0] == "call" and last(t[1]) in ("poll", "new_unchecked", "into_future", "block_on", "as_mut"):
            t = t[2][0]
        elif t[0] == "call" and last(t[1]) == "catch_unwind":
            return t[2][0]
        elif t[0] == "call" and last(t[1]) in ("AssertUnwindSafe",):
            t = t[2][0]
        else:
            return None
    raise Undecided("what is waited for: " + show(t0)[:80])


def endpoint(c, end, h):
    hs = [b for b in c.p.bodies if last(b) == h and "{" not in b]
    if not hs:
        if any(h in t for t in c.p.tainted):
            raise Undecided(h + " does not type-check")
        c.viol("anchor", end, "there is no %s" % h)
        return 0
    e, f = c.entry(B + end + "::{closure#0}", hs)
    if f is None:
        return 0
    evs = [x for x in e.events(f) if x.name in hs]
    if not c.oblige(evs, end + "-handled", f.body.id, "%s does not handle the request" % end):
        return 0
    for x in evs:
        req, cache = [unclone(a) for a in x.args[:2]]
        c.oblige(cname(req) == "into_inner" and req[2][0] == ("f", A("_1"), "request"), end + "-request", x.where,
                 "%s is given %s" % (h, show(req)[:100]))
        c.oblige(cache == ("f", ("f", A("_1"), "self"), "model_cache"), end + "-cache", x.where,
                 "%s works on the cache %s" % (h, show(cache)[:100]))
        fr, ok = x.frame, False
        while fr is not None and fr.parent:
            g, bb = fr.parent
            if bb is not None and any(last(y or "") in ("catch_unwind", "try") for y in g.callee(bb)[:2]):
                ok = True
            fr = g
        c.oblige(ok, end + "-caught", x.where, "a panic of %s is not caught" % h)
    for x in e.events(f):
        c.oblige(last(x.name) not in ("resume_unwind", "panic_any", "abort", "exit"), end + "-stays", x.where,
                 "%s gives up the caller as well: %s" % (end, x.name))
    seen, n = set(), 0
    for t, k0 in e.returns(f):
        r = future(e, t)
        for x, k, _ in deep(e, r, k0):
            x = future(e, x) if x[0] in ("v", "call") else x
            if x[0] in ("never", "failed"):
                continue
            n += 1
            if x[0] == "agg" and x[2] == "Ok":
                v = dict(x[3])["0"]
                v = v[2][0] if v[0] == "call" and last(v[1]) == "new" and "Response" in v[1] else None
                ok = v and v[0] == "v" and v[2] == "Ok" and v[1][0] == "v" and v[1][2] == "Ok" and caught(e, v[1][1])
                seen.add("Ok") if ok else None
            elif x[0] == "agg" and x[2] == "Err":
                v = dict(x[3])["0"]
                if v[0] == "call" and "Status" in v[1]:
                    ps = [a for a in k if a[0] == "is" and a[2] == "Err" and caught(e, a[1])]
                    ok = last(v[1]) == "internal" and ps
                    seen.add("panic") if ok else None
                else:
                    ok = v[0] == "v" and v[2] == "Err" and v[1][0] == "v" and v[1][2] == "Ok" and caught(e, v[1][1])
                    seen.add("Err") if ok else None
            else:
                ok = x[0] == "v" and x[2] == "Ok" and caught(e, x[1])
                if ok:
                    seen.add("Err")
                    if not any(a[0] == "is" and a[2] == "Err" for a in k):
                        seen.add("Ok")
            c.oblige(ok, end + "-answer", f.body.id, "%s answers %s" % (end, show(x)[:160]))
    c.oblige(seen >= {"Ok", "Err", "panic"}, end + "-outcomes", f.body.id,
             "%s passes on only %s of what became of the request" % (end, sorted(seen)))
    return n


def token(c):
    e, f = c.entry(B + "get_user_token::{closure#0}")
    if f is None:
        return 0
    n = 0
    for x, k in answers(e, f):
        ids = [s for s in fx.subterms(x) if s and s[0] == "agg" and last(s[1] or "") == "UserTokenResponse"]
        n += 1
        if not c.oblige(ids, "token", f.body.id, "a user is given " + show(x)[:120]):
            continue
        i = dict(ids[0][3])["user_id"]
        c.oblige(i[0] == "call" and last(i[1]) in ("fetch_add", "fetch_sub") and i[2][0] == ("f", ("f", A("_1"), "self"), "num")
                 and i[2][1][0] == "k" and i[2][1][1] in ("1", "-1", 1, -1), "token-new", f.body.id,
                 "the number of a user is %s, not one never given before" % show(i)[:120])
    return n


def locked(t):
    """The cache itself, locked."""
    ls = calls_in(t, "lock") + calls_in(t, "try_lock")
    return any(x[2][0] == ("f", A("self"), "cache") for x in ls)


def hash0(e, k):
    """What is known of the hash asked for being none."""
    h = A("components_hash")
    for a in k:
        if a[0] in ("is", "isnt") and a[1] == h and str(a[2]) == "0":
            return a[0] == "is"
        if a[0] == "is" and a[1] in (("bin", "Eq", h, ("k", "0")), ("bin", "Eq", h, ("k", 0))):
            return bool(a[2])
    return None


def cached(c):
    e, f = c.entry(MC + "get_model")
    if f is None:
        return 0
    n = 0
    hits = 0
    for fid in (MC + "get_model", MC + "insert_model"):
        w = narrowed(c, fid)
        c.oblige(not w, "hash-whole", fid, "only the %s part of a hash or user is looked at" % w)
    for x, k in [(x, k) for t, k0 in outcomes(e, f) for x, k, _ in deep(e, t, k0) if x[0] not in ("never", "failed")]:
        n += 1
        x = unclone(x)
        gets = [s for a in k for s in fx.subterms(a[1]) if s and s[0] == "call" and last(s[1]) in ("get", "get_mut", "peek", "pop") and locked(s[2][0])]
        if x[0] == "agg" and x[2] == "Some":
            hits += 1
            v = dict(x[3])["0"]
            m = dict(v[3]).get("loaded_components") if v[0] == "agg" else None
            if not c.oblige(m is not None, "hit-form", f.body.id, "the cache gives " + show(v)[:120]):
                continue
            m = unclone(m)
            src = m[1] if m[0] == "f" and m[2] == "components_map" else None
            g = src[1] if src and src[0] == "v" and src[2] == "Some" else None
            c.oblige(g and g[0] == "call" and last(g[1]) in ("get", "get_mut", "peek") and locked(g[2][0]), "hit-components", f.body.id,
                     "the cache gives the components " + show(m)[:120])
            if g is None:
                continue
            c.oblige(g[2][1] == A("user_id"), "hit-user", f.body.id, "the components are looked up for " + show(g[2][1])[:80])
            want = {A("components_hash"), ("f", src, "components_hash")}
            c.oblige(any(a[0] == "is" and a[2] is True and a[1][0] == "bin" and a[1][1] == "Eq" and {a[1][2], a[1][3]} == want
                         for a in k), "hit-hash", f.body.id, "components are given whatever their hash is")
            c.oblige(hash0(e, k) is False, "hit-none", f.body.id, "components without a hash are looked up")
        else:
            none = x[0] == "agg" and x[2] == "None" or any(a[0] == "is" and a[1] == x and a[2] == "None" for a in k)
            c.oblige(none, "miss-form", f.body.id, "the cache gives " + show(x)[:120])
            k = filtered(e, k)
            cause = hash0(e, k) is True or any(a[0] == "is" and a[2] == "None" and a[1] in gets for a in k) or any(
                a[0] == "is" and a[2] is False and a[1][0] == "bin" and a[1][1] == "Eq" and A("components_hash") in a[1][2:4] and
                any(y[0] == "f" and y[2] == "components_hash" for y in a[1][2:4]) for a in k)
            c.oblige(cause, "miss", f.body.id, "the cache gives nothing if " + "; ".join(show(a) for a in sorted(k, key=repr) if a[0] == "is")[:200])
    c.oblige(hits, "hit", f.body.id, "the cache never gives any components")
    return n


def filtered(e, k):
    """What is known of a lookup that was filtered out: there was one, and the filter is false."""
    for a in list(k):
        if a[0] == "is" and a[2] == "None" and cname(a[1]) == "optfilter":
            for x in e.close(frozenset({("is", e.apply(a[1][2][1], [e.payload(a[1][2][0], "Some", "0")], a[1][3]), False)})):
                k = k | {x}
    return k


def kept(c):
    e, f = c.entry(MC + "insert_model")
    if f is None:
        return 0
    n = 0
    puts = [x for x in e.events(f) if last(x.name) in ("put", "push", "get_or_insert", "insert") and x.args and locked(x.args[0])]
    c.oblige(puts, "kept", f.body.id, "components are never kept")
    for x in puts:
        n += 1
        c.oblige(last(x.name) in ("put", "push"), "kept-latest", x.where, "the components of a user are kept only if there were none")
        c.oblige(x.args[1] == A("user_id"), "kept-user", x.where, "the components are kept for " + show(x.args[1])[:80])
        d = dict(x.args[2][3]) if x.args[2][0] == "agg" else {}
        c.oblige(d.get("components_hash") == A("components_hash") and unclone(d.get("components_map", ())) == A("container_components"),
                 "kept-what", x.where, "what is kept is " + show(x.args[2])[:160])
        only_under(c, e, x, lambda a: A("components_hash") in set(fx.subterms(a[1])) and hash0(e, [a]) is False or a[0] == "did" or
                   cname(a[1]) == "lock", "kept-if", "components with a hash are kept only if %s")
        c.oblige(hash0(e, x.K) is False, "kept-hash", x.where, "components without a hash are kept")
    for x, k in answers(e, f):
        n += 1
        x = unclone(x)
        d = dict(x[3]) if x[0] == "agg" else {}
        c.oblige(unclone(d.get("loaded_components", ())) == A("container_components"), "kept-given", f.body.id,
                 "what is given after keeping components is " + show(x)[:120])
    return n


def whole(c, e, f, key):
    """Nothing is taken one by one of what was read, except by a loop."""
    for x in e.events(f):
        if last(x.name) in ("next", "next_back", "nth", "first", "last", "pop", "remove", "swap_remove", "truncate", "drain") and x.args and any(
                reads(s) for s in fx.subterms(x.args[0])):
            c.oblige(any(x.bb in lp["body"] for lp in x.frame.body.loops.values()), key + "-whole", x.where, "only %s of the components read is kept" % last(x.name))


def narrowed(c, fid):
    """The function, or a closure of it, converts a number to a smaller type."""
    for b in c.p.bodies:
        if b == fid or b.startswith(fid + "::{"):
            for bl in c.p.bodies[b].blocks:
                for s in bl["s"]:
                    for y in walk(s):
                        if y[0] == "cast" and len(y) > 2 and str(y[2]) in ("u8", "i8", "u16", "i16", "f32", "bool"):
                            return str(y[2])
    return None


def walk(x):
    if isinstance(x, (list, tuple)):
        if x and isinstance(x[0], str):
            yield x
        for y in x:
            yield from walk(y)


def every(e, t, src, ok):
    """t is an element of the list(s) read of an element of src."""
    depth = 0
    while t[0] == "elem":
        depth += 1
        t = zones.strip(t[1])[0]
        if t[0] == "acc":
            b, cs = e.contribs(t)
            cs = [x for x in cs if x[0] not in ("reserve",)]
            if len(cs) == 1 and b[0] == "call" and cname(b) in ("new", "default", "with_capacity") and not [
                    a for a in e.guards(cs[0][4], cs[0][5]) if not ok(a)]:
                if cs[0][0] in ("extend", "append"):
                    t = ("elem", cs[0][1][-1])
                elif cs[0][0] == "push":
                    t = cs[0][1][-1]
    if t[0] == "v" and t[2] in ("Ok", "Some"):
        t = zones.strip(t[1])[0]
        if t[0] == "call" and cname(t) == "ok":
            t = t[2][0]
    return depth and reads(t) and of(t[2][0], src)


def reads(t):
    return bool(t) and t[0] == "call" and last(t[1]) == "parse_components_if_some"


def reads_ok(a):
    """The components can be read."""
    return a[0] == "is" and (reads(a[1]) and a[2] == "Ok" or cname(a[1]) == "ok" and reads(a[1][2][0]) and a[2] == "Some")


def of(t, src):
    return t[0] == "elem" and zones.strip(t[1])[0] == src


def loopy(a):
    return a[0] == "did" or cname(a[1]) in ("next", "branch") and a[1][1].startswith("@") and a[2] in ("Some", "Continue")


def gathered(c):
    own = [b for b in c.p.find("request_util::get_or_insert_model")]
    ps = CL + "parse_components_if_some"
    n = 0
    opq = [MC + "get_model", MC + "insert_model", ps, "System::input_enabler::make_input_enabled", "ModelObjects::component::Component::get_input_actions"]
    if not own:
        if c.p.tainted:
            raise Undecided("get_or_insert_model does not type-check")
        c.viol("anchor", "model", "there is no get_or_insert_model")
        return 0
    e, f = c.entry(own[0], opq, (A("cache"), A("user"), A("hash"), A("protos")))
    if f is None:
        return 0
    whole(c, e, f, "model")
    asked = ("call", MC + "get_model", (A("cache"), A("user"), A("hash")), None)
    ways = set()
    for x, k in answers(e, f):
        n += 1
        x = unclone(x)
        if x[0] == "v" and x[2] == "Some" and x[1] == asked:
            ways.add("cached")
            continue
        ok = x[0] == "call" and x[1] == MC + "insert_model" and x[2][:3] == (A("cache"), A("user"), A("hash"))
        if not c.oblige(ok, "model-form", f.body.id, "the components of a request are " + show(x)[:160]):
            continue
        ways.add("read")
        c.oblige(any(a == ("is", asked, "None") for a in k), "model-miss", f.body.id, "components are read although they are kept")
        ok = lambda a: a[1] == asked or loopy(a) or reads_ok(a)
        n += mapping(c, e, f, x[2][3], "model", lambda y: every(e, y, A("protos"), ok), ok, "of a request")
    c.oblige(ways == {"cached", "read"}, "model-ways", f.body.id, "components of a request are only %s" % sorted(ways))
    vec = conv(c, "Vec<ModelObjects::component::Component>", "ComponentContainer")
    e, f = c.entry(vec, opq, (A("comps"),)) if vec else (None, None)
    if f is None:
        return n
    for x, k in answers(e, f):
        x = unclone(x)
        m = dict(x[3]).get("loaded_components") if x[0] == "agg" else None
        if c.oblige(m is not None, "list-form", f.body.id, "a list of components gives " + show(x)[:120]):
            n += mapping(c, e, f, unclone(m), "list", lambda y: of(y, A("comps")), loopy, "of a list")
    return n


def mapping(c, e, f, m, key, isel, ok, what):
    """m maps the name of every element to that element."""
    if m[0] == "call" and last(m[1]) in ("collect", "from_iter", "from", "map", "@map") and m[2]:
        src = m[2][-1] if last(m[1]) not in ("map", "@map") else m
        x = e.elem(src) if src[0] == "call" else None
        if x and x[0] == "agg" and len(x[3]) == 2:
            a, b = x[3][0][1], x[3][1][1]
            return pair(c, key, f.body.id, a, b, isel, what)
        raise Undecided("how the components %s are collected: %s" % (what, show(m)[:80]))
    if m[0] != "acc":
        raise Undecided("the components %s are %s" % (what, show(m)[:80]))
    base, cs = e.contribs(m)
    c.oblige(base[0] == "call" and cname(base) in ("new", "default", "with_capacity"), key + "-empty", f.body.id,
             "the components %s start from %s" % (what, show(base)[:80]))
    n = 0
    for op, args, k, where, fr, bb in cs:
        if op == "@call":
            continue
        n += 1
        if op in ("extend",):
            raise Undecided("components are collected by " + op)
        if not c.oblige(op == "insert" and len(args) == 2, key + "-op", where, "components %s are collected by %s" % (what, op)):
            continue
        pair(c, key, where, args[0], args[1], isel, what)
        bad = [a for a in e.guards(fr, bb) if not ok(a)]
        c.oblige(not bad, key + "-all", where, "a component %s is kept only if %s" % (what, "; ".join(show(a) for a in bad)[:200]))
    c.oblige(n, key + "-any", f.body.id, "no component %s is kept" % what)
    return n


def pair(c, key, where, name, comp, isel, what):
    comp = unclone(comp)
    while comp[0] == "acc":
        raise Undecided("a component is changed while it is collected")
    c.oblige(isel(comp), key + "-component", where, "what is kept of the components %s is %s" % (what, show(comp)[:120]))
    c.oblige(unclone(name) == fld(comp, "name"), key + "-name", where, "a component %s is kept under the name %s" % (what, show(name)[:100]))
    return 1


def read(c):
    J, X = "DataReader::json_reader::json_to_component", "DataReader::xml_parser::parse_xml_from_str"
    rep = lambda v=None: lambda V: (V("Component", None, V("Option", "Some", V("Rep", v, A("text"))) if v else V("Option", "None")),)
    T = [a for a in c.p.adts if a.endswith("services::Component")]
    R = [a for a in c.p.adts if a.endswith("services::component::Rep")]
    if len(T) != 1 or len(R) != 1:
        raise Undecided("the messages of a request are not known")
    n = 0
    for v in ("Json", "Xml", None):
        e, f = c.entry(CL + "parse_components_if_some", [J, X])
        if f is None:
            return n
        p = f.body
        pt = ("f", ("arg", p.argnames()[0]) if hasattr(p, "argnames") else zones.params(f)[0], "rep")
        got = [(unclone(x), k) for x, k in answers(e, f) if (when(k, pt, "Some") if v else when(k, pt, "None"))]
        if v:
            got = [(x, k) for x, k in got if when(k, ("v", pt, "Some", "0"), v)]
        if not c.oblige(got, "read-" + str(v), f.body.id, "a component given as %s is not read" % v):
            continue
        text = ("v", ("v", pt, "Some", "0"), v, "0")
        oks = 0
        for x, k in got:
            n += 1
            good = x[0] == "agg" and x[2] == "Ok"
            val = unclone(dict(x[3])["0"]) if good else None
            if v == "Json":
                call = ("call", J, (text,), None)
                if good:
                    oks += 1
                    r = ("v", call, "Ok", "0")
                    c.oblige(val in (("array", (r,)),) or elems(e, val) == [r], "read-Json", f.body.id, "a component given as Json is read as " + show(val)[:120])
                else:
                    c.oblige(when(k, call, "Err") and not when(k, call, "Ok"), "read-Json-error", f.body.id, "a component given as Json is refused although it can be read")
            elif v == "Xml":
                oks += 1
                c.oblige(good and val == ("f", ("call", X, (text,), None), "0"), "read-Xml", f.body.id, "components given as Xml are read as " + show(val or x)[:120])
            else:
                oks += 1
                c.oblige(good and (val[0] == "call" and cname(val) in ("new", "default", "with_capacity") or val == ("array", ())), "read-None", f.body.id, "no component is read as " + show(val or x)[:120])
        c.oblige(oks, "read-some-" + str(v), f.body.id, "a component given as %s is never read" % v)
    return n


def elems(e, t):
    if t[0] != "acc":
        return None
    b, cs = e.contribs(t)
    return [x[1][-1] for x in cs if x[0] == "push"] if b[0] == "call" and not [x for x in cs if x[0] != "push"] else None


def look(t):
    """(collection, key) of what is looked up in a map."""
    t = unclone(t)
    if t[0] == "v" and t[2] == "Some":
        t = t[1]
    if t[0] == "idx":
        return t[1], unclone(t[2])
    if t[0] == "call" and cname(t) in ("get", "index", "get_key_value", "get_mut"):
        return t[2][0], unclone(t[2][1])
    return None, None


LOADED = {("contains_key", False), ("get", "None"), ("is_none", True), ("is_some", False)}


def named(c):
    n = 0
    for ty, load in (("ComponentContainer", None), ("JsonProjectLoader", "DataReader::json_reader::read_json_component"), ("XmlProjectLoader", None)):
        fid = "<%s%s as %sComponentLoader>::get_component" % (CL, ty, CL)
        e, f = c.entry(fid, ["DataReader::json_reader::read_json_component", "System::input_enabler::make_input_enabled"])
        if f is None:
            continue
        self, name = zones.params(f)[:2]
        coll = fld(self, "loaded_components")
        got = answers(e, f)
        c.oblige(got, ty + "-found", f.body.id, "no component is ever found by the " + ty)
        for x, k in got:
            n += 1
            m, i = look(x)
            while m and m[0] == "acc":
                m = e.contribs(m)[0]
            c.oblige(m is not None and unclone(m) == coll and i == name, ty + "-name", f.body.id,
                     "the component asked for by name is %s" % show(x)[:140])
        if load:
            ins = [x for x in e.events(f) if last(x.name) in ("insert", "or_insert", "or_insert_with")]
            c.oblige(ins, ty + "-load", f.body.id, "components are not loaded")
            for x in ins:
                n += 1
                if last(x.name) != "insert":
                    continue
                v = unclone(x.args[-1])
                while v[0] == "acc":
                    v = e.contribs(v)[0]
                c.oblige(v[0] == "call" and v[1] == load and v[2] == (fld(self, "project_path"), name), ty + "-load", x.where,
                         "what is loaded is " + show(v)[:140])
                c.oblige(x.args[-2] in (name, fld(v, "name")), ty + "-load-name", x.where, "it is loaded as " + show(x.args[-2])[:100])
                def once(a):
                    return a[1][0] == "call" and (cname(a[1]), a[2]) in LOADED and any(s == coll for s in fx.subterms(a[1])) \
                        or a[0] == "did" or cname(a[1]) == "get_component_inputs"
                only_under(c, e, x, once, ty + "-load-if", "a component is loaded only if %s")
                c.oblige(any(once(a) and a[0] == "is" and (cname(a[1]), a[2]) in LOADED for a in x.K), ty + "-load-once", x.where,
                         "a component that was loaded, or saved, is loaded again")
        fid = "<%s%s as %sComponentLoader>::save_component" % (CL, ty, CL)
        if not load:
            continue
        e, f = c.entry(fid, ["DataReader::json_writer::component_to_json_file"])
        if f is None:
            continue
        self, comp = zones.params(f)[:2]
        ev = e.events(f)
        ins = [x for x in ev if last(x.name) == "insert"]
        wr = [x for x in ev if last(x.name) == "component_to_json_file"]
        c.oblige(ins and wr, ty + "-save", f.body.id, "a component saved is not kept")
        for x in ins:
            n += 1
            c.oblige(x.args[0] == fld(self, "loaded_components") and unclone(x.args[1]) == fld(comp, "name") and unclone(x.args[2]) == comp, ty + "-save",
                     x.where, "a component saved is kept as %s: %s" % (show(x.args[1])[:60], show(x.args[2])[:60]))
            only_under(c, e, x, lambda a: a[0] == "did", ty + "-save-if", "a component saved is kept only if %s")
        for x in wr:
            n += 1
            c.oblige(unclone(x.args[0]) == fld(self, "project_path") and unclone(x.args[1]) == comp, ty + "-save-file", x.where,
                     "what is written is " + show(x.args[1])[:100])
            only_under(c, e, x, lambda a: a[0] == "did", ty + "-save-file-if", "a component saved is written only if %s")
    return n


def sizes(c):
    n = 0
    cl = [b for b in c.p.bodies if b.endswith("ModelCache as std::clone::Clone>::clone")]
    e, f = c.entry(cl[0], []) if cl else (None, None)
    if not f:
        raise Undecided("how a cache is cloned is not known")
    for x, k in answers(e, f):
        n += 1
        x = unclone(x)
        c.oblige(x == A("self") or x[0] == "agg" and unclone(dict(x[3])["cache"]) == fld(A("self"), "cache"), "shared", f.body.id,
                 "every request gets a cache of its own: " + show(x)[:100])
    new = "ProtobufServer::ecdar_backend::ConcreteEcdarBackend::new"
    e, f = c.entry(new, [], (A("threads"), A("size")))
    if f is None:
        return 0
    for x, k in answers(e, f):
        n += 1
        d = dict(x[3]) if x[0] == "agg" else {}
        t = [s for s in fx.subterms(d.get("thread_pool", ())) if s and s[0] == "call" and last(s[1]) == "num_threads"]
        z = [s for s in fx.subterms(d.get("model_cache", ())) if s and s[0] == "call" and "LruCache" in s[1]]
        z = [s for s in z if not [y for y in fx.subterms(s[2]) if y and y[0] in ("bin", "un") or y and y[0] == "call" and "NonZero" not in y[1]]]
        c.oblige(t and t[0][2][1] == A("threads"), "threads", f.body.id, "the number of threads is not the one asked for")
        c.oblige(z and A("size") in set(fx.subterms(z[0])), "cache-size", f.body.id, "the size of the cache is not the one asked for")
    srv = [b for b in c.p.bodies if b.startswith("ProtobufServer::server::start_grpc_server_with_tokio") and "{" not in b]
    if not srv:
        raise Undecided("the start of the server is not found")
    e, f = c.entry(srv[0], [new])
    made = [x for x in e.events(f) if x.name == new]
    ps = zones.params(f)
    for x in made:
        n += 1
        c.oblige(x.args == (ps[2], ps[1]), "started-with", x.where, "the server is started with %s threads and a cache of %s" % tuple(show(a) for a in x.args))
    return n
