// Package jtext compares JSON texts and the trees they denote with the specification JsonText.
package jtext

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
)

var c = log.WithSlogLogger(context.Background(), slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 1})))

const invalid = 1114112 // a byte which is not UTF-8

var wrong = []string{"\xff", "\x80", "\xc0", "\xf8"}

func bytesOf(text []int, n int) []byte {
	var b []byte
	for i, r := range text {
		if r == invalid {
			b = append(b, wrong[(n+i)%len(wrong)]...)
		} else {
			b = utf8.AppendRune(b, rune(r))
		}
	}
	return b
}

func points(s string) []any {
	out := []any{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

func node(k string, t []any, ks, xs []any) vt.J {
	return vt.J{"k": k, "t": t, "ks": ks, "xs": xs}
}

func leaf(k string) vt.J { return node(k, []any{}, []any{}, []any{}) }

// what a tree is
func tree(n enc.Node) vt.J {
	switch n := n.(type) {
	case enc.Nil:
		return leaf("nil")
	case enc.Bool:
		return leaf(strconv.FormatBool(bool(n)))
	case enc.String:
		return node("str", points(string(n)), []any{}, []any{})
	case enc.Numeric:
		return node("num", points(n.String()), []any{}, []any{})
	case enc.List:
		xs := []any{}
		for _, x := range n {
			xs = append(xs, tree(x))
		}
		return node("list", []any{}, []any{}, xs)
	case enc.Map:
		return object(n)
	case enc.Pairs:
		return object(n.AsMap())
	}
	return leaf(fmt.Sprintf("%T", n))
}

func object(m enc.Map) vt.J {
	names := []string{}
	for k := range m {
		names = append(names, k)
	}
	sort.Strings(names)
	ks, xs := []any{}, []any{}
	for _, k := range names {
		ks = append(ks, points(k))
		xs = append(xs, tree(m[k]))
	}
	return node("map", []any{}, ks, xs)
}

func decode(b []byte) (out vt.J) {
	defer func() {
		if r := recover(); r != nil {
			out = vt.J{"is": fmt.Sprint("panic: ", r), "n": leaf("nil")}
		}
	}()
	was := string(b)
	n, err := enc.JSON{}.Decode(c, b)
	switch {
	case string(b) != was:
		return vt.J{"is": "changed the text", "n": leaf("nil")}
	case err != nil && n != nil:
		return vt.J{"is": "both", "n": leaf("nil")}
	case err != nil:
		return vt.J{"is": "error", "n": leaf("nil")}
	case n == nil:
		return vt.J{"is": "nothing", "n": leaf("nil")}
	}
	out = vt.J{"is": "node", "n": tree(n)}
	for i := range b { // what was decoded does not change with the buffer
		b[i] = 'x'
	}
	if vt.Canon(tree(n)) != vt.Canon(out["n"]) {
		return vt.J{"is": "shares the text", "n": leaf("nil")}
	}
	return out
}

// ------------------------------------------------------------------ all short texts

var alphabet = []int{123, 125, 91, 93, 44, 58, 34, 92, 32, 10, 45, 43, 46, 48, 49, 55, 101, 97, 110, 116, 102, 117, 108, 114, 115, 1, 233, 128512, invalid}

type obj struct{ n *int }

func (o obj) Do(a vt.Act) (any, any) {
	*o.n++
	var text []int
	for _, x := range a.List("text") {
		i, _ := x.(json.Number).Int64()
		text = append(text, int(i))
	}
	next := []any{}
	res := decode(bytesOf(text, *o.n))
	for _, r := range alphabet {
		switch decode(bytesOf(append(append([]int{}, text...), r), *o.n))["is"] {
		case "node":
			next = append(next, "whole")
		case "error":
			next = append(next, "error")
		default:
			next = append(next, "other")
		}
	}
	return "", vt.J{"res": res, "next": next}
}

func TestTextReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Replay("short texts", 20, 50, func(vt.Act) vt.Obj { return obj{new(int)} })
	vt.Done()
}

// ------------------------------------------------------------------ larger ones

type gen struct{ *rand.Rand }

func (g gen) pick(s ...string) string { return s[g.Intn(len(s))] }

func (g gen) ws() string {
	if g.Intn(3) > 0 {
		return ""
	}
	return g.pick(" ", "\n", "\t", "\r\n", "  ")
}

func (g gen) str() string {
	s := `"`
	for i := g.Intn(7); i > 0; i-- {
		switch g.Intn(12) {
		case 0:
			s += g.pick(`\n`, `\t`, `\"`, `\\`, `\/`, `\b`, `\f`, `\r`)
		case 1:
			s += fmt.Sprintf(`\u%04x`, g.Intn(1<<16))
		case 2:
			s += fmt.Sprintf(`\u%04X`, 0xd800+g.Intn(0x800))
		case 3:
			s += fmt.Sprintf(`\u%04x\u%04X`, 0xd800+g.Intn(0x400), 0xdc00+g.Intn(0x400))
		case 4:
			s += string(rune(32 + g.Intn(0x2000)))
		case 5:
			s += string(rune(0x1f300 + g.Intn(0x300)))
		default:
			s += g.pick("a", "b", "key", " ", "<", "&", "}", "]", ",", "\u2028", "\x7f", "0")
		}
	}
	return s + `"`
}

func (g gen) num() string {
	s := g.pick("", "", "-") + g.pick("0", "1", "7", strconv.Itoa(1+g.Intn(1000)), "9007199254740993", "18446744073709551615", "123456789012345678901234567890")
	if g.Intn(3) == 0 {
		s += "." + g.pick("0", "5", "10", "0000001", "12345678901234567890")
	}
	if g.Intn(4) == 0 {
		s += g.pick("e", "E") + g.pick("", "+", "-") + g.pick("0", "00", "3", "21", "400", "99999999999")
	}
	return s
}

func (g gen) text(depth int) string {
	n := g.Intn(8)
	if depth == 0 {
		n = g.Intn(6)
	}
	switch n {
	case 0:
		return "null"
	case 1:
		return g.pick("true", "false")
	case 2, 3:
		return g.num()
	case 4, 5:
		return g.str()
	case 6:
		var l []string
		for i := g.Intn(4); i > 0; i-- {
			l = append(l, g.ws()+g.text(depth-1)+g.ws())
		}
		return "[" + strings.Join(l, ",") + g.ws() + "]"
	}
	var l []string
	for i := g.Intn(5); i > 0; i-- {
		k := g.str()
		if g.Intn(2) == 0 {
			k = g.pick(`"a"`, `"b"`, `"\u0061"`, `""`)
		}
		l = append(l, g.ws()+k+g.ws()+":"+g.ws()+g.text(depth-1)+g.ws())
	}
	return "{" + strings.Join(l, ",") + g.ws() + "}"
}

func (g gen) runes(s string) []int {
	var out []int
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

// spoilt is the text with something wrong in it, or not
func (g gen) spoilt(text []int) []int {
	out := append([]int{}, text...)
	for i := g.Intn(3); i > 0 && len(out) > 0; i-- {
		n := g.Intn(len(out))
		switch g.Intn(6) {
		case 0:
			out = out[:n]
		case 1:
			out = append(out[:n], out[n+1:]...)
		case 2:
			out[n] = alphabet[g.Intn(len(alphabet))]
		case 3:
			m := n + g.Intn(len(out)-n)
			out = append(out, out[n:m]...)
		case 4:
			out = append(out, alphabet[g.Intn(len(alphabet))])
		case 5:
			m := g.Intn(len(out))
			out[n], out[m] = out[m], out[n]
		}
	}
	return out
}

// a tree, made by hand
func (g gen) tree(depth int) enc.Node {
	n := g.Intn(10)
	if depth == 0 {
		n = g.Intn(7)
	}
	word := func() string {
		return g.pick("", "a", "b", "key", "two words", "\"quoted\"", "back\\slash", "line\nfeed", "\x01", "é", "😀", "<&>", "\u2028", strings.Repeat("long ", g.Intn(40)))
	}
	switch n {
	case 0:
		return enc.Nil{}
	case 1:
		return enc.Bool(g.Intn(2) == 0)
	case 2:
		return enc.Integer(g.Int63() >> uint(g.Intn(64)))
	case 3:
		return enc.Float(float64(g.Intn(4001)-2000) / 8)
	case 4:
		return enc.Digits(g.num())
	case 5, 6:
		return enc.String(word())
	case 7:
		l := enc.List{}
		for i := g.Intn(4); i > 0; i-- {
			l = append(l, g.tree(depth-1))
		}
		return l
	case 8:
		m := enc.Map{}
		for i := g.Intn(4); i > 0; i-- {
			m[word()] = g.tree(depth - 1)
		}
		return m
	}
	p := enc.Pairs{}
	seen := map[string]bool{}
	for i := g.Intn(4); i > 0; i-- {
		if k := word(); !seen[k] {
			seen[k] = true
			p = append(p, enc.Pair{Name: "other", JSON: k, Value: g.tree(depth - 1)})
		}
	}
	return p
}

func encode(r *rand.Rand, n enc.Node) string {
	switch r.Intn(3) {
	case 0:
		return string(enc.JSON{}.Encode(c, n))
	case 1:
		return string(enc.JSON{Indent: true}.Encode(c, n))
	}
	j, err := json.Marshal(n)
	if err != nil {
		return err.Error()
	}
	return string(j)
}

type inner struct {
	Z int    `json:"z"`
	A string `json:"a"`
}
type wide struct {
	Zulu  string         `json:"zulu"`
	Alpha int            `json:"alpha"`
	Plain bool           // by its own name
	Skip  int            `json:"-"`
	Mike  []any          `json:"mike"`
	Maybe *int           `json:"maybe,omitempty"`
	In    inner          `json:"in"`
	P     *inner         `json:"p"`
	M     map[string]int `json:"m"`
	Raw   enc.Node       `json:"raw"`
	Last  float64        `json:"Alpha"` // differs in case only
}

func (g gen) wide() (any, []any) {
	w := wide{Zulu: g.pick("", "x", "é"), Alpha: g.Intn(100), Plain: g.Intn(2) == 0, Skip: 7, In: inner{g.Intn(9), "a"}, Raw: g.tree(1), Last: float64(g.Intn(99)) / 4}
	names := []any{}
	add := func(s ...string) {
		for _, s := range s {
			names = append(names, points(s))
		}
	}
	add("zulu", "alpha", "Plain", "mike")
	if g.Intn(2) == 0 {
		w.Maybe = &w.Alpha
		add("maybe")
	}
	if g.Intn(2) == 0 {
		w.P = &inner{1, "p"}
	}
	if g.Intn(2) == 0 {
		w.M = map[string]int{"b": 1, "a": 2}
		w.Mike = []any{1, "x", nil}
	}
	add("in", "p", "m", "raw", "Alpha")
	return w, names
}

func unfit(how string, f float64) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprint("panic: ", r)
		}
	}()
	var v any
	switch how {
	case "plain":
		v = f
	case "float32":
		v = float32(f)
	case "list":
		v = []float64{1, f}
	case "map":
		v = map[string]any{"a": 1, "b": f}
	case "struct":
		v = struct{ A, B float64 }{1, f}
	case "pointer":
		v = []*float64{&f}
	case "node":
		v = enc.Float(f)
	case "nodes":
		v = enc.Map{"a": enc.List{enc.Float(f)}}
	case "pairs":
		v = struct{ A enc.Node }{enc.Pairs{{JSON: "a", Value: enc.Float(f)}}}
	}
	j, err := enc.MarshalJSON(c, v)
	switch {
	case err != nil && j == nil:
		return "error"
	case err == nil && json.Valid(j):
		return "text"
	}
	return fmt.Sprintf("%s and %v", j, err)
}

func TestTextTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	g := gen{rand.New(rand.NewSource(vt.Seed()))}
	for i := 0; i < vt.Scale(400, 6000); i++ {
		h := &vt.Hist{}
		for j := 0; j < 12; j++ {
			text := g.runes(g.ws() + g.text(3) + g.ws())
			if len(text) > 400 {
				continue
			}
			if g.Intn(2) == 0 {
				text = g.spoilt(text)
			}
			if text == nil {
				text = []int{}
			}
			h.Add(vt.J{"op": "decode", "text": text, "ret": decode(bytesOf(text, j))})
		}
		for j := 0; j < 4; j++ {
			n := g.tree(3)
			if text := points(encode(g.Rand, n)); len(text) < 500 {
				h.Add(vt.J{"op": "encode", "n": tree(n), "text": text})
			}
		}
		v, names := g.wide()
		n, err := enc.Marshal(c, v)
		if err != nil {
			vt.Violation("marshal", fmt.Sprintf("%+v: %v", v, err), nil)
		} else {
			j, err := enc.MarshalJSON(c, v)
			if err != nil {
				j = []byte(err.Error())
			}
			h.Add(vt.J{"op": "fields", "n": tree(n), "names": names, "text": points(string(j))})
		}
		for _, how := range []string{"plain", "float32", "list", "map", "struct", "pointer", "node", "nodes", "pairs"} {
			f := []float64{0, 1.5, math.NaN(), math.Inf(1), math.Inf(-1), 1e300, -0.25}[g.Intn(7)]
			if how == "float32" && f == 1e300 {
				f = 1e30
			}
			h.Add(vt.J{"op": "unfit", "how": how, "x": fmt.Sprint(f), "fit": f-f == 0, "ret": unfit(how, f)})
		}
		tr.Write(h)
	}
	tr.Close()

	// as deep as it goes: a result or an error, and the process goes on
	for _, open := range []string{"[", `{"a":`, `[{"a":`} {
		for _, n := range []int{100, 9000, 100_000, vt.Scale(1_000_000, 5_000_000)} {
			deep := strings.Repeat(open, n)
			if r := decode([]byte(deep)); r["is"] != "error" {
				vt.Violation("deep", fmt.Sprintf("%d times %s: %v", n, open, r["is"]), nil)
			}
		}
		closing := map[string]string{"[": "]", `{"a":`: "}", `[{"a":`: "}]"}[open]
		n := 2000
		_, err := enc.JSON{}.Decode(c, []byte(strings.Repeat(open, n)+"1"+strings.Repeat(closing, n)))
		if err != nil {
			vt.Violation("deep", fmt.Sprintf("%d times %s, closed: %v", n, open, err), nil)
		}
	}
	vt.Done()
}
