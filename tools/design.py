"""DESIGN.md from design_head.md, the properties, the checks and the planted bugs."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def explain(pid):
    for n in ast.parse(open("%s/checks/%s.py" % (V, pid)).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "EXPLAIN":
            return eval(compile(ast.Expression(n.value), "", "eval"))
    return ""


def write(props):
    seeds = []
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d))
        seeds.append((m["property"], d.split("/")[-2], m["what_it_breaks"], m["needs"]))
    seeds.sort()
    n = sum(len(re.findall(r"^== ", open(f).read(), re.M)) for f in glob.glob(V + "/tools/corpus/*.txt"))
    table = "| planted bug | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(
        "| %s | %s | %s |" % (s, p, w.replace("|", "\\|")) for p, s, w, _ in seeds)
    kf = [l.strip() for l in open(V + "/known_findings.txt")]
    fixed = "\n".join("* " + l[len("fixed: property="):].replace("|", "\\|") for l in kf if l.startswith("fixed:"))
    find = "\n".join("* " + " - ".join(x.strip() for x in l[len("finding: property="):].split(" | ")) for l in kf if l.startswith("finding:"))
    out = open(V + "/tools/design_head.md").read() % dict(corpus=n, seeds=len(seeds), table=table, fixed=fixed, findings=find)
    for p in props.PROPS:
        out += "### %s %s\n\n" % (p["id"], p["title"])
        if p["id"] in dict(props.NA):
            out += "Not decided: %s\n\n" % dict(props.NA)[p["id"]]
            continue
        out += "*Specified:* %s\n\n*Decided by:* %s. %s\n\n*Over:* %s.\n\n*Why not tests:* %s\n\n*Scope and limits:* %s\n\n" % (
            p["statement"], p["technique"], explain(p["id"]), p["qtext"], p["why"], p["note"].replace(props.TRUST, ""))
        out += "*Anchors:* %s.\n\n" % "; ".join("%s (%s)" % (a, b) for a, b in p["mech"])
    open(V + "/DESIGN.md", "w").write(out)
