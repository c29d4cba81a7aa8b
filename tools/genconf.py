"""generates harness/drv/conf/types_gen_test.go: structures for the config driver"""
import random
T = dict(bool="bool", nbool="NBool", int="int", nint="NInt", string="string", nstring="NString", text="Text", json="JSONT", own="Own",
  strings="[]string", ints="[]int", bools="[]bool", nints="[]NInt", texts="[]Text", mstring="map[string]string", mint="map[string]int",
  mbool="map[string]bool", mnkey="map[NString]string", float="float64", uint="uint", int64="int64", struct="Inner", ptr="*int", chan="chan int",
  array="[2]int", iface="any", floats="[]float64", mfloat="map[string]float64", mikey="map[int]string", hidden="int")
D = [[], ["1"], ["a"], ["bad"], ["a=1"]]
def tag(kind, d, key):
    return {"none": "", "plain": "`config:\"%s\"`" % key, "def": "`config:\"%s,default=%s\"`" % (key, ",".join(d)),
            "bogus": "`config:\"%s,bogus=1\"`" % key, "late": "`config:\"%s,default=1,required\"`" % key}[kind]
out = ["// generated by tools/genconf.py", "package conf", "", "func init() {"]
def reg(fields):
    body, desc = [], []
    for i, (t, kind, d) in enumerate(fields):
        body.append("\t\t%s %s %s" % ("f%d" % i if t == "hidden" else "F%d" % i, T[t], tag(kind, d, "K%d" % i)))
        desc.append('{"%s", "%s", "%s"}' % (t, kind, ",".join(d)))
    out.append("\treg([]field{%s}, struct {\n%s\n\t}{})" % (", ".join(desc), "\n".join(body)))
for t in T:
    for kind in ("none", "plain", "bogus", "late"):
        if not (kind == "none" and t == "hidden"): reg([(t, kind, [])])
    for d in D: reg([(t, "def", d)])
r = random.Random(7)
good = [t for t in T if t not in ("float", "uint", "int64", "struct", "ptr", "chan", "array", "iface", "floats", "mfloat", "mikey", "hidden")]
for _ in range(150):
    fs = []
    for _ in range(r.randint(2, 6)):
        t = r.choice(good) if r.random() < .97 else r.choice([x for x in T if x != "hidden"])
        kind = r.choice(["none", "plain", "plain", "def", "def", "def"]) if r.random() < .97 else r.choice(["bogus", "late"])
        # a good default mostly
        d = r.choice(D) if kind == "def" else []
        if kind == "def" and r.random() < .8:
            d = ["1"] if t[0] != "m" else ["a=1"]
        fs.append((t, kind, d))
    reg(fs)
out.append("}")
open("/verif/harness/drv/conf/types_gen_test.go", "w").write("\n".join(out) + "\n")
