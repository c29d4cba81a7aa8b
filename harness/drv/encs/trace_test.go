package encs

import (
	"fmt"
	"math/rand"
	"strconv"
	"testing"

	"verif/harness/vt"
)

// random terms: larger than what the specification enumerates

type gen struct{ *rand.Rand }

func (r gen) pick(l ...string) string { return l[r.Intn(len(l))] }

var decTypes = []string{"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string",
	"any", "any", "err", "node", "raw", "time", "etime", "tdur", "edur", "cu", "cj", "shape"}
var encTypes = []string{"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string",
	"any", "any", "node", "raw", "time", "etime", "tdur", "edur", "cu", "cj"}

var names = []string{"a", "b", "c", "d", "e"}

func (r gen) typ(from []string, depth int, omit bool) vt.J {
	if depth == 0 || r.Intn(4) == 0 {
		return vt.J{"k": r.pick(from...)}
	}
	switch r.Intn(5) {
	case 0:
		return vt.J{"k": "ptr", "e": r.typ(from, depth-1, omit)}
	case 1:
		return vt.J{"k": "slice", "e": r.typ(from, depth-1, omit)}
	case 2:
		return vt.J{"k": "array", "n": r.Intn(3), "e": r.typ(from, depth-1, omit)}
	case 3:
		return vt.J{"k": "map", "key": r.pick("string", "string", "string", "int", "int8", "uint8", "float64", "edur"), "e": r.typ(from, depth-1, omit)}
	default:
		fs := []any{}
		for i := 0; i < 1+r.Intn(4); i++ {
			f := vt.J{"n": "F" + strconv.Itoa(i), "j": names[i], "tag": names[i], "omit": false, "skip": false, "exp": true}
			t := r.typ(from, depth-1, omit)
			f["t"] = t
			switch r.Intn(8) {
			case 0:
				f["j"], f["tag"] = f["n"], ""
			case 1:
				f["j"], f["tag"], f["skip"] = "", "-", true
			case 2:
				f["n"], f["exp"], f["t"] = "f"+strconv.Itoa(i), false, vt.J{"k": r.pick("int8", "string", "bool")}
			case 3:
				switch t["k"] {
				case "bool", "any", "node", "raw", "slice", "map", "array", "struct": // what is empty is not specified
				default:
					f["tag"], f["omit"] = names[i]+",omitempty", true
				}
			}
			fs = append(fs, f)
		}
		return vt.J{"k": "struct", "fs": fs}
	}
}

var ints = []string{"-9223372036854775808", "-2147483649", "-32769", "-129", "-128", "-1", "0", "1", "2", "7", "42", "127", "128", "255", "256", "300", "65535", "65536", "4294967296", "9223372036854775807"}
var bigs = []string{"-9223372036854775809", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e3", "-1.25e1", "2E+2", "1.5e3", "1e19", "1e400", "2.0"}
var fracs = []string{"1.5", "-1.5", "0.5", "255.9", "256.5", "-0.5", "1e+300"}
var strs = []string{"", "x", "1", "1s", "-1.5s", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05+02:00", "\u00e6\x00\"<"}
var dnames = []string{"a", "b", "c", "d", "e", "F0", "F1", "", "1", "-1", "255", "1s", "1.5"}

func s(k, v string) vt.J { return vt.J{"k": k, "s": v} }

func (r gen) node(depth int) vt.J {
	n := r.Intn(13)
	if depth > 0 && r.Intn(3) > 0 {
		n = 10 + r.Intn(3)
	}
	switch n {
	case 0:
		return vt.J{"k": "nil"}
	case 1:
		return vt.J{"k": "gonil"}
	case 2:
		return s("bool", r.pick("true", "false"))
	case 3:
		return s("int", r.pick(ints...))
	case 4:
		return s("float", r.pick(append([]string{"0", "300", "-1", "42"}, fracs...)...))
	case 5, 6, 7:
		return s("digits", r.pick(append(append(append([]string{}, bigs...), fracs...), ints...)...))
	case 8:
		return s("str", r.pick(strs...))
	case 9:
		if r.Intn(2) == 0 {
			return s("time", "2020-01-02T03:04:05Z")
		}
		return s("dur", r.pick("1s", "1m0s", "7ns"))
	case 10:
		xs := []any{}
		for i := r.Intn(4); i > 0; i-- {
			xs = append(xs, r.node(depth-1))
		}
		return vt.J{"k": "list", "xs": xs}
	default:
		ks, xs := []any{}, []any{}
		for _, k := range r.Perm(len(dnames))[:r.Intn(5)] {
			ks, xs = append(ks, dnames[k]), append(xs, r.node(depth-1))
		}
		k := "map"
		if n == 12 {
			k = "pairs"
		}
		return vt.J{"k": k, "ks": ks, "xs": xs}
	}
}

// a node which more or less is what a type wants
func (r gen) nodeFor(t vt.J, depth int) vt.J {
	if r.Intn(30) == 0 {
		return r.node(2)
	}
	if r.Intn(12) == 0 {
		return vt.J{"k": "nil"}
	}
	num := func(l ...string) vt.J { return s(r.pick("int", "digits", "digits"), r.pick(l...)) }
	switch t["k"] {
	case "bool":
		return s("bool", r.pick("true", "false"))
	case "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "int", "uint", "tdur":
		return num("0", "1", "2", "7", "42", "127")
	case "float32", "float64":
		return s("float", r.pick("0", "1", "1.5", "300", "-1.5"))
	case "string", "cu", "cj", "shape":
		return s("str", r.pick(strs...))
	case "time", "etime":
		return s(r.pick("str", "time"), "2020-01-02T03:04:05Z")
	case "edur":
		return s(r.pick("str", "dur"), r.pick("1s", "7ns"))
	case "ptr":
		return r.nodeFor(t["e"].(vt.J), depth)
	case "slice", "array":
		n := r.Intn(4)
		if t["k"] == "array" {
			n = t["n"].(int)
		}
		xs := []any{}
		for i := 0; i < n; i++ {
			xs = append(xs, r.nodeFor(t["e"].(vt.J), depth-1))
		}
		return vt.J{"k": "list", "xs": xs}
	case "map":
		ks := map[string][]string{"string": {"", "a", "x y", "\u00e6"}, "int": {"0", "-1", "300"}, "int8": {"0", "-128", "127"}, "uint8": {"0", "255", "1"}, "float64": {"1.5", "-0.5", "0"}, "edur": {"1s", "", "7ns"}}[t["key"].(string)]
		kl, xs := []any{}, []any{}
		for _, p := range r.Perm(len(ks))[:r.Intn(len(ks)+1)] {
			kl, xs = append(kl, ks[p]), append(xs, r.nodeFor(t["e"].(vt.J), depth-1))
		}
		return vt.J{"k": r.pick("map", "pairs"), "ks": kl, "xs": xs}
	case "struct":
		kl, xs := []any{}, []any{}
		fs := t["fs"].([]any)
		for _, p := range r.Perm(len(fs)) {
			f := fs[p].(vt.J)
			if r.Intn(5) == 0 {
				continue
			}
			if f["skip"] == true || f["exp"] == false {
				if r.Intn(2) == 0 {
					kl, xs = append(kl, f["n"]), append(xs, r.node(0))
				}
				continue
			}
			kl, xs = append(kl, f["j"]), append(xs, r.nodeFor(f["t"].(vt.J), depth-1))
		}
		if r.Intn(3) == 0 {
			kl, xs = append(kl, "zz"), append(xs, r.node(1))
		}
		return vt.J{"k": r.pick("map", "pairs"), "ks": kl, "xs": xs}
	}
	return r.node(depth)
}

// a value of a type
func (r gen) value(t vt.J, nilOK bool) vt.J {
	nil1 := func(n int) bool { return nilOK && r.Intn(n) == 0 }
	switch k := t["k"].(string); k {
	case "bool":
		return val("b", r.pick("true", "false"))
	case "int8":
		return val("i", strconv.Itoa(r.Intn(256)-128))
	case "uint8":
		return val("i", strconv.Itoa(r.Intn(256)))
	case "int16":
		return val("i", strconv.Itoa(r.Intn(1<<16)-1<<15))
	case "uint16":
		return val("i", strconv.Itoa(r.Intn(1<<16)))
	case "int32":
		return val("i", strconv.Itoa(int(int32(r.Uint32()))))
	case "uint32":
		return val("i", strconv.Itoa(int(r.Uint32())))
	case "int", "int64", "tdur":
		return val("i", strconv.FormatInt(int64(r.Uint64())>>r.Intn(64), 10))
	case "uint", "uint64":
		return val("i", strconv.FormatUint(r.Uint64()>>r.Intn(64), 10))
	case "edur":
		return val("i", r.pick("0", "1000000000", "60000000000", "-1500000000", "7"))
	case "float32":
		return val("f", ft(float64(r.Intn(1<<16)-1<<15)/8, 32))
	case "float64":
		return val("f", ft(float64(r.Intn(1<<19)-1<<18)/16, 64))
	case "string", "cu", "cj":
		return val("s", r.str())
	case "time", "etime":
		return val("time", r.pick("0001-01-01T00:00:00Z", "2020-01-02T03:04:05.123456789Z", "2020-01-02T03:04:05+02:00", fmt.Sprintf("20%02d-0%d-1%dT01:02:%02d.%dZ", r.Intn(100), 1+r.Intn(9), r.Intn(10), r.Intn(60), 1+r.Intn(9))))
	case "any":
		if nil1(4) {
			return null
		}
		return r.anyValue(2)
	case "node":
		return val("node", r.jsonNode(2, nilOK))
	case "raw":
		return val("raw", r.jsonTree(2, nilOK))
	case "ptr":
		if nil1(3) {
			return null
		}
		return val("p", r.value(t["e"].(vt.J), false))
	case "slice":
		if nil1(4) {
			return null
		}
		l := []any{}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, r.value(t["e"].(vt.J), true))
		}
		return val("l", l)
	case "array":
		l := []any{}
		for i := t["n"].(int); i > 0; i-- {
			l = append(l, r.value(t["e"].(vt.J), true))
		}
		return val("l", l)
	case "map":
		if nil1(4) {
			return null
		}
		m := vt.J{}
		for i := r.Intn(4); i > 0; i-- {
			var kv string
			switch k := t["key"].(string); k {
			case "string":
				kv = r.str()
			case "float64":
				kv = ft(float64(r.Intn(1<<10))/8, 64)
			default:
				kv = r.value(vt.J{"k": k}, false)["v"].(string)
			}
			m[kv] = r.value(t["e"].(vt.J), true)
		}
		return val("m", fn(m))
	case "struct":
		l := []any{}
		for _, f := range t["fs"].([]any) {
			f := f.(vt.J)
			if f["exp"] == false {
				l = append(l, zero(f["t"].(vt.J)))
			} else {
				l = append(l, r.value(f["t"].(vt.J), true))
			}
		}
		return val("o", l)
	}
	panic(fmt.Sprint(t))
}

func zero(t vt.J) vt.J {
	ty := canonType(t)
	return show(ty, zeroOf(ty))
}

func (r gen) str() string {
	if r.Intn(3) == 0 {
		return r.pick(strs...)
	}
	all := []rune("ab Z09\"\\/\n\t\x00\u00e6\u2028\U0001f600<>&'{}[],:")
	out := []rune{}
	for i := r.Intn(6); i > 0; i-- {
		out = append(out, all[r.Intn(len(all))])
	}
	return string(out)
}

func (r gen) anyValue(depth int) vt.J {
	n := r.Intn(5)
	if depth == 0 {
		n = r.Intn(3)
	}
	opt := func() vt.J {
		if r.Intn(4) == 0 {
			return null
		}
		return r.anyValue(depth - 1)
	}
	switch n {
	case 0:
		return val("any", val("b", r.pick("true", "false")))
	case 1:
		return val("any", val("float64", ft(float64(r.Intn(1<<19)-1<<18)/16, 64)))
	case 2:
		return val("any", val("s", r.str()))
	case 3:
		l := []any{}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, opt())
		}
		return val("any", val("l", l))
	default:
		m := vt.J{}
		for i := r.Intn(4); i > 0; i-- {
			m[r.str()] = opt()
		}
		return val("any", val("m", fn(m)))
	}
}

// a node which is what JSON decodes to
func (r gen) jsonNode(depth int, nilOK bool) vt.J {
	n := r.Intn(6)
	if depth == 0 {
		n = r.Intn(4)
	}
	switch n {
	case 0:
		if nilOK {
			return vt.J{"k": "nil"}
		}
		fallthrough
	case 1:
		return s("bool", r.pick("true", "false"))
	case 2:
		return s("digits", r.pick("0", "-1", "1.5", "1e400", "12345678901234567890123", "-0.25E+1"))
	case 3:
		return s("str", r.str())
	case 4:
		xs := []any{}
		for i := r.Intn(4); i > 0; i-- {
			xs = append(xs, r.jsonNode(depth-1, true))
		}
		return vt.J{"k": "list", "xs": xs}
	default:
		ks, xs := []any{}, []any{}
		for _, k := range r.Perm(len(dnames))[:r.Intn(4)] {
			ks, xs = append(ks, dnames[k]), append(xs, r.jsonNode(depth-1, true))
		}
		return vt.J{"k": "map", "ks": ks, "xs": xs}
	}
}

func (r gen) jsonTree(depth int, nilOK bool) vt.J { return asTree(r.jsonNode(depth, nilOK)) }

func asTree(n vt.J) vt.J {
	switch n["k"] {
	case "nil":
		return vt.J{"j": "null"}
	case "bool":
		return vt.J{"j": "b", "s": n["s"]}
	case "digits":
		return vt.J{"j": "n", "s": n["s"]}
	case "str":
		return vt.J{"j": "s", "s": n["s"]}
	case "list":
		xs := []any{}
		for _, x := range n["xs"].([]any) {
			xs = append(xs, asTree(x.(vt.J)))
		}
		return vt.J{"j": "l", "xs": xs}
	}
	m := vt.J{}
	for i, k := range n["ks"].([]any) {
		m[k.(string)] = asTree(n["xs"].([]any)[i].(vt.J))
	}
	return vt.J{"j": "o", "fs": fn(m)}
}

func TestEncTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := gen{rand.New(rand.NewSource(vt.Seed()))}
	for n := 0; n < vt.Scale(400, 6000); n++ {
		h := &vt.Hist{}
		for k := 0; k < 20; k++ {
			var e vt.J
			depth := 1 + r.Intn(4)
			if r.Intn(8) == 0 {
				what := r.pick("time", "dur", "map", "find", "int64", "uint64", "float64", "isfloat", "times")
				arg := ""
				if what == "find" {
					arg = r.pick(dnames...)
				} else if what == "times" {
					arg = r.pick("ns", "us", "ms")
				}
				e = vt.J{"op": "as", "n": r.node(r.Intn(2)), "what": what, "arg": arg}
			} else if r.Intn(3) > 0 {
				ty := r.typ(decTypes, depth, false)
				nd := r.node(depth)
				if r.Intn(4) > 0 {
					nd = r.nodeFor(ty, depth)
				}
				e = vt.J{"op": "dec", "t": ty, "n": nd, "o": r.pick("zero", "filled"), "h": r.pick("none", "reject", "collect")}
			} else {
				ty := r.typ(encTypes, depth, true)
				e = vt.J{"op": "enc", "t": ty, "v": r.value(ty, true)}
			}
			e["ret"] = do(canon(e))
			h.Add(e)
		}
		tr.Write(h)
	}
	tr.Close()
	vt.Done()
}
