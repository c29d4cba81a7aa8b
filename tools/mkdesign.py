"""writes DESIGN.md: head, a section per property (from properties.jsonl, props.py, evidence, findings, planted bugs), tail"""
import json, os, re, sys, inspect
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, root)
import props
rd = lambda n: open(os.path.join(root, n)).read()
P = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
res = json.loads(rd("seeded/RESULTS.json"))
old = json.loads(rd("tools/costs.json")) if os.path.exists(os.path.join(root, "tools/costs.json")) else {}
notes = {}
out = [rd("tools/design_head.md"), "## The properties\n"]
for p in P:
    i = p["id"]; fn = props.CHECKS[i]
    src = inspect.getsource(fn)
    for h in re.findall(r"= (\w+)\(c\)", src):
        if hasattr(props, h): src += inspect.getsource(getattr(props, h))
    specs = sorted(set(re.findall(r'c\.(?:graph|model|validate)\("(\w+)"', src)))
    try:
        e = json.load(open(os.path.join(root, "evidence", i + ".json")))
        if e.get("tier") == "quick": old[i] = {k: e["coverage"].get(k, 0) for k in ("states", "transitions", "replayed_steps", "histories_recorded")} | {"s": round(e.get("wall_s", e.get("duration_s", 0)))}
    except OSError: pass
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(" ".join((fn.__doc__ or "").split()) + "\n")
    out.append("* Specifications: " + ", ".join("`%s`" % s for s in specs) + "; drivers: " + ", ".join("`drv/%s`" % d for d in sorted(set(re.findall(r'c\.build\("(\w+)"', src)))))
    out.append("* Over: " + p["quantifier"]["text"] + ". Beyond the tests: " + p["why_tests_cant"] + ".")
    c = old.get(i)
    if c: out.append("* Quick run: %s states and %s transitions in the models, %s replayed steps, %s recorded histories." % tuple(c[k] for k in ("states", "transitions", "replayed_steps", "histories_recorded")) + (" About %s s." % c["s"] if c["s"] else ""))
    f = [l for l in rd("known_findings.txt").splitlines() if "property=%s " % i in l]
    nf = sum(l.startswith("fixed:") for l in f); nk = sum(l.startswith("known:") for l in f)
    if f: out.append("* Defects: %d repaired, %d known." % (nf, nk))
    b = ["`%s` %s" % (k, v["result"]) for k, v in sorted(res.items()) if v["property"] == i and os.path.isdir(os.path.join(root, "seeded", k))]
    if b: out.append("* Planted bugs: " + ", ".join(b) + ".")
    out.append("")
out.append(rd("tools/design_tail.md"))
json.dump(old, open(os.path.join(root, "tools/costs.json"), "w"), indent=1, sort_keys=True)
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
