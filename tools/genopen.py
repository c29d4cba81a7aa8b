"""generates harness/drv/apis/open_gen_test.go: operations with every declaration of fields"""
import random, json
T = dict(string="string", int="int", float="float64", bool="bool", list="[]string", map="map[string]int", struct="inner", ptr="*int", ptrs="*inner", time="time.Time", uid="UID", ilist="[]int", any="any", lists="[]inner")
W = dict(string="string", int="number", float="number", bool="boolean", list="array", map="object", struct="object", ptr="number", ptrs="object", time="string", uid="string", ilist="array", any="object", lists="array")
out = ["// generated by tools/genopen.py", "package apis", "", 'import ("time"', '"github.com/Aize-Public/forego/api"', '"github.com/Aize-Public/forego/ctx"', '"github.com/Aize-Public/forego/http")', "", "var _ time.Time", ""]
init = ["func init() {"]
count = 0
def tag(d, r):
    l = []
    if d["in"] and d["out"] and r.random() < .5: l = ["both"]
    else: l = [k for k in ("in", "out") if d[k]]
    if d["req"]: l.append("required")
    if d["auth"]: l.append("auth")
    r.shuffle(l)
    return ",".join(l)
def obj(key, fields, urls, r, desc):
    """fields: list of (name, decl, type)"""
    global count
    n = "G%d" % count; count += 1
    body = []
    for i, u in enumerate(urls): body.append("\tR%d api.Request `url:\"%s\"`" % (i, u))
    for i, (name, d, t) in enumerate(fields):
        k = r.choice(["json", "enc"])
        g = "F%d" % i
        if r.random() < .1 and all(x[0] != name for j, x in enumerate(fields) if j != i):
            g, k = name[0].upper() + name[1:], "json"
        body.append("\t%s %s `api:\"%s\" %s:\"%s\"`" % (g, T[t], tag(d, r), k, name))
    r.shuffle(body)
    out.append("type %s struct {\n%s\n}\nfunc (*%s) Do(ctx.C) error { return nil }\n" % (n, "\n".join(body), n))
    init.append("\tgen[%s] = func() http.Doable { return &%s{} }" % (json.dumps(key), n))
    if desc is not None:
        init.append("\tgenDesc = append(genDesc, %s)" % json.dumps(json.dumps(dict(key=key, fields=[dict(name=a, decl=d, t=W[t]) for a, d, t in fields], paths=desc))))
r = random.Random(11)
B = (False, True)
D = [dict(**{"in": i}, out=o, req=q, auth=a) for i in B for o in B for q in B for a in B if not (i and a)]
def dn(d): return "".join(k[0] for k in ("in", "out", "req", "auth") if d[k])
# those of the graph: one or two fields, at each of the paths
for p in ("/a", "/b", "/c"):
    for d in D: obj("%s:%s" % (p, dn(d)), [("f", d, r.choice(list(T)))], [p], r, None)
    for d in D:
        for e in D:
            if dn(e) in ("i", "o", "ir", "a", "or", "oa") and not (d["auth"] and e["auth"]): obj("%s:%s:%s" % (p, dn(d), dn(e)), [("f", d, r.choice(list(T))), ("g", e, r.choice(list(T)))], [p], r, None)
for i in range(150):
    fs, names = [], {}
    auth = False
    for j in range(r.randint(0, 6)):
        d = dict(r.choice(D))
        if d["auth"] and auth: d["auth"] = False
        auth = auth or d["auth"]
        t = r.choice(list(T)); name = "n%d" % j
        uses = {k for k in ("in", "out") if d[k]}
        for o, od, ot in fs:
            if uses and names[o] and not names[o] & uses and r.random() < .5: name = o
        names[name] = names.get(name, set()) | uses
        fs.append((name, d, t))
    urls, paths = [], []
    for k in range(r.choice([1, 1, 1, 2, 3])):
        p = "/g%d/%s" % (i, "xyz"[k]); paths.append(p)
        urls.append(p if r.random() < .7 else "https://example.com" + p if r.random() < .5 else p + "?v=1")
    obj("rnd%d" % i, fs, urls, r, paths)
init.append("}")
open("/verif/harness/drv/apis/open_gen_test.go", "w").write("\n".join(out + init) + "\n")
