from core import *


def states(c, only=""):
    """Zones are extrapolated with all bounds that count."""
    me = ("arg", "self")
    for fid, want in (
            ("ModelObjects::state::State::extrapolate_max_bounds", [("system", "decorated_locations")]),
            ("ModelObjects::state::State::extrapolate_max_bounds_with_extra_bounds",
             [("system", "decorated_locations"), "extra_bounds"]),
            ("ModelObjects::statepair::StatePair::extrapolate_max_bounds",
             [("sys1", "locations1"), ("sys2", "locations2")])):
        if only not in fid:
            continue
        e, f = c.entry(fid)
        if f is None:
            continue
        key = "::".join(fid.split("::")[-2:])
        names = [f.body.locals[i + 1]["n"] for i in range(f.body.argc)]
        xs = [x for x in c.events(e, f) if last(x.name) == "extrapolate_max_bounds" and len(x.args) == 2 and
              zone_owner(x.args[0]) == me]
        if not c.oblige(xs, key, "", "the zone is not extrapolated"):
            continue
        for x in xs:
            c.oblige(not conds(e, x), key + "-always", x.where, "the zone is extrapolated only sometimes")
            have = bound_parts(x.args[1], x.K)
            pos = 1
            for w in want:
                if isinstance(w, str):
                    t = ("arg", names[pos])
                    ok = any(y == t for y in have)
                else:
                    t = ("arg", names[pos])
                    ok = any(y[0] == "call" and last(y[1]) == "get_local_max_bounds" and y[2] == (t, ("f", me, w[1]))
                             for y in have)
                pos += 1
                c.oblige(ok, key + "-%d" % (pos - 1), x.where, "the zone is extrapolated without the bounds of %s" % (
                    w if isinstance(w, str) else w[0] + " at " + w[1]))
            st = [y for y in e.events(f) if y.name == "@store" and y.args[0] == ("f", me, "zone_sentinel")]
            c.oblige(any(fx.mentions(y.args[1], x.term) for y in st), key + "-kept", x.where,
                     "the extrapolated zone is not kept")
