package asserts

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/test"
)

type S struct {
	A int `json:"a"`
}

type failure struct{ why string }

func (f failure) Error() string { return f.why }

var one = 1

// ------------------------------------------------------------------ a test in the test

// outcome executes f as a test of its own: "go" if it went on to its end without failing, "stop" if it failed and nothing more was executed
func outcome(f func(t *testing.T)) (out string) {
	ended, started := false, false
	var p any
	var failed bool
	ok := testing.RunTests(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "TestX", F: func(t *testing.T) {
		started = true
		defer func() {
			failed = t.Failed()
			p = recover()
			if t.Skipped() {
				p = "skipped"
			}
		}()
		f(t)
		ended = true
	}}})
	switch {
	case !started:
		return "not started"
	case p != nil:
		return strings.SplitN(fmt.Sprint("panic: ", p), "\n", 2)[0]
	case ok && ended && !failed:
		return "go"
	case !ok && !ended && failed:
		return "stop"
	default:
		return fmt.Sprintf("passed %v, went on %v, failed %v", ok, ended, failed)
	}
}

// quiet discards what the tests in the tests print, until the function returned is called
func quiet() func() {
	was := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = null
	return func() { os.Stdout = was; null.Close() }
}

// ------------------------------------------------------------------ values

func jsonOf(v any) []byte {
	j, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return j
}

func value(a vt.Act) any {
	null := a.Bool("nil")
	s := a.Str("s")
	switch a.Str("k") {
	case "nil":
		return nil
	case "bool":
		return s == "true"
	case "int":
		n, _ := strconv.Atoi(s)
		return n
	case "int8":
		n, _ := strconv.Atoi(s)
		return int8(n)
	case "int64":
		n, _ := strconv.ParseInt(s, 10, 64)
		return n
	case "f64":
		n, _ := strconv.ParseFloat(s, 64)
		return n
	case "str":
		return s
	case "text":
		j := jsonOf(value(a.Map("x")))
		if a.Str("form") == "loose" {
			var b bytes.Buffer
			if err := json.Indent(&b, j, " ", "\t"); err != nil {
				panic(err)
			}
			return " " + b.String() + "\n"
		}
		return string(j)
	case "bytes":
		if null {
			return []byte(nil)
		}
		return jsonOf(value(a.Map("x")))
	case "raw":
		return json.RawMessage(" " + string(jsonOf(value(a.Map("x")))))
	case "list":
		if null {
			return []any(nil)
		}
		out := []any{}
		for _, x := range a.List("xs") {
			out = append(out, value(x.(map[string]any)))
		}
		return out
	case "map":
		if null {
			return map[string]any(nil)
		}
		out := map[string]any{}
		ks := a.List("ks")
		for i, x := range a.List("xs") {
			out[ks[i].(string)] = value(x.(map[string]any))
		}
		return out
	case "ptr":
		if null {
			return (*int)(nil)
		}
		return &one
	case "chan":
		if null {
			return (chan int)(nil)
		}
		ch := make(chan int, 1)
		if a.Int("n") == 1 {
			ch <- 1
		}
		return ch
	case "func":
		if null {
			return (func())(nil)
		}
		return func() {}
	case "struct":
		n, _ := strconv.Atoi(s)
		return S{n}
	case "err":
		switch a.Str("kind") {
		case "plain":
			return errors.New("plain %s %d")
		case "ctx":
			return ctx.NewErrorf(nil, "of ctx %d", 1)
		case "wrapped":
			return fmt.Errorf("wrapped: %w", ctx.NewErrorf(nil, "of ctx: %w", io.EOF))
		}
		return failure{"a struct"}
	}
	panic(fmt.Sprint(a))
}

func deep(xs ...any) string {
	s := ""
	for _, x := range xs {
		if ch, ok := x.(chan int); ok {
			s += fmt.Sprint(len(ch))
		} else if b, ok := x.([]byte); ok {
			s += string(b)
		} else if x == nil || reflect.TypeOf(x).Kind() != reflect.Func {
			s += fmt.Sprintf("%#v;", x)
		}
	}
	return s
}

// ------------------------------------------------------------------ lists, of several types

type box interface {
	push(x int)
	take(op string) any
	obs() any
}

type lst[T any] struct {
	l    []T
	to   func(int) T
	from func(T) int
}

func (b *lst[T]) push(x int) { b.l = append(b.l, b.to(x)) }
func (b *lst[T]) obs() any {
	out := []int{}
	for _, x := range b.l {
		out = append(out, b.from(x))
	}
	return out
}
func boxes(n int) box {
	switch n % 4 {
	case 0:
		return &lst[int]{to: func(x int) int { return x }, from: func(x int) int { return x }}
	case 1:
		return &lst[string]{to: strconv.Itoa, from: func(s string) int { x, _ := strconv.Atoi(s); return x }}
	case 2:
		return &lst[*int]{to: func(x int) *int { return &x }, from: func(x *int) int { return *x }}
	}
	return &lst[any]{to: func(x int) any {
		if x == 1 {
			return nil
		}
		return x
	}, from: func(x any) int {
		if x == nil {
			return 1
		}
		return x.(int)
	}}
}

type obj struct{ b box }

// needsSource are the helpers which fail when the source of the call is not found
var needsSource = map[string]bool{"Nil": true, "NotNil": true, "Empty": true, "NotEmpty": true}

func big(a vt.Act) bool { return strings.Contains(vt.Canon(a), "900719925474099") }

func (o obj) Do(a vt.Act) (any, any) {
	var ret any = "go"
	switch a.Op() {
	case "push":
		o.b.push(a.Int("x"))
	case "Shift", "Pop":
		ret = o.b.take(a.Op())
	case "check":
		h, x, y := a.Str("h"), a.Map("a"), a.Map("b")
		out := call(h, value(x), value(y))
		if want, _ := a["ret"].(string); out != want {
			sig := ""
			switch {
			case (h == "Nil" || h == "NotNil") && x.Str("k") == "func" && x.Bool("nil"):
				sig = "assert-nil-func"
			case (h == "EqualsJSON" || h == "NotEqualsJSON") && big(x) && big(y):
				sig = "assert-json-large-integer"
			}
			if sig != "" && (out == "go" || out == "stop") {
				vt.Violation(sig, fmt.Sprintf("%s: %s instead of %s", h, out, want), a)
				out = want
			}
		}
		ret = out
	case "form":
		h, f := a.Str("h"), a.Str("form")
		body := forms[fmt.Sprint(f, " ", h, " ", a.Bool("holds"))]
		out := outcome(body)
		if needsSource[h] && strings.HasPrefix(out, "panic") && (f == "variable" || f == "deferred" || f == "paren" || f == "spread") {
			vt.Violation("assert-no-source", fmt.Sprintf("%s called as %s: %s", h, f, out), a)
			out, _ = a["ret"].(string)
		}
		ret = out
	case "context":
		var c ctx.C
		var during, tester string
		outcome(func(t *testing.T) {
			c = test.Context(t)
			during, tester = life(c), "other"
			if test.ExtractTester(c) == t {
				tester = "same"
			}
		})
		bare := "none"
		if test.ExtractTester(nil) != nil {
			bare = "some"
		}
		ret = vt.J{"during": during, "after": life(c), "tester": tester, "bare": bare}
	case "bare":
		ret = outcome(func(t *testing.T) {
			if a.Str("h") == "OK" {
				test.OK(t, "fine %d", 1)
			} else {
				test.Fail(t, "not fine %d", 1)
			}
		})
	default:
		panic(a)
	}
	return ret, o.b.obs()
}

func life(c ctx.C) string {
	select {
	case <-c.Done():
		return "canceled"
	default:
		return "alive"
	}
}

func TestAssertReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	defer quiet()()
	n := 0
	var m sync.Mutex
	g.Replay("assertions", vt.Scale(500, 5000), 30, func(vt.Act) vt.Obj {
		m.Lock()
		defer m.Unlock()
		n++
		return obj{boxes(n)}
	})
	vt.Done()
}

// ------------------------------------------------------------------ larger values

func node(r *rand.Rand, depth int) vt.J {
	n := r.Intn(7)
	if depth == 0 {
		n = r.Intn(5)
	}
	switch n {
	case 0:
		return vt.J{"k": "nil"}
	case 1:
		return vt.J{"k": "bool", "s": strconv.FormatBool(r.Intn(2) == 0)}
	case 2:
		return vt.J{"k": "int", "s": strconv.Itoa(r.Intn(2001) - 1000)}
	case 3:
		return vt.J{"k": "f64", "s": strconv.FormatFloat(float64(r.Intn(16))/4, 'g', -1, 64)}
	case 4:
		return vt.J{"k": "str", "s": word(r)}
	case 5:
		xs := []any{}
		for i := r.Intn(4); i > 0; i-- {
			xs = append(xs, node(r, depth-1))
		}
		return vt.J{"k": "list", "nil": false, "xs": xs}
	}
	ks, xs := []string{}, []any{}
	for _, k := range []string{"a", "b", "cc", "d"} {
		if r.Intn(2) == 0 {
			ks = append(ks, k)
			xs = append(xs, node(r, depth-1))
		}
	}
	return vt.J{"k": "map", "nil": false, "ks": ks, "xs": xs}
}

func word(r *rand.Rand) string {
	if r.Intn(60) == 0 { // a long one, in which something may be in the middle
		b := []byte(strings.Repeat("abw w", []int{60, 220, 900, 2000}[r.Intn(4)]))
		if r.Intn(2) == 0 {
			b[len(b)/2+r.Intn(9)] = 'Z'
		}
		return string(b)
	}
	s := "w"
	for i := r.Intn(4); i > 0; i-- {
		s += string("abw "[r.Intn(4)])
	}
	return s
}

func act(j vt.J) vt.Act {
	var a vt.Act
	if err := json.Unmarshal(jsonOf(j), &a); err != nil {
		panic(err)
	}
	return a
}

// changed is the same value, or one with a difference somewhere
func changed(r *rand.Rand, j vt.J) vt.J {
	var c vt.J
	_ = json.Unmarshal(jsonOf(j), &c)
	if xs, ok := c["xs"].([]any); ok && len(xs) > 0 && r.Intn(4) > 0 {
		i := r.Intn(len(xs))
		xs[i] = changed(r, xs[i].(map[string]any))
		return c
	}
	if s, ok := c["s"].(string); ok && c["k"] == "str" && len(s) > 100 && r.Intn(2) == 0 {
		n := len(s)/2 - 20 + r.Intn(40)
		c["s"] = s[:n] + "y" + s[n+1:]
		return c
	}
	switch r.Intn(4) {
	case 0:
		return node(r, 1)
	}
	return c
}

func TestAssertTrace(t *testing.T) {
	defer quiet()()
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	wrap := func(v vt.J) vt.J {
		switch r.Intn(5) {
		case 0:
			return vt.J{"k": "text", "form": "plain", "x": v}
		case 1:
			return vt.J{"k": "text", "form": "loose", "x": v}
		case 2:
			return vt.J{"k": "raw", "nil": false, "x": v}
		}
		return v
	}
	for i := 0; i < vt.Scale(400, 5000); i++ {
		h := &vt.Hist{}
		for j := 0; j < 8; j++ {
			name := []string{"EqualsJSON", "NotEqualsJSON", "EqualsGo", "NotEqualsGo", "EqualsType", "Contains", "NotContains", "ContainsJSON", "NotContainsJSON", "ContainsGo", "EqualsStr", "NotEqualsStr", "NotEmpty", "Empty"}[r.Intn(14)]
			a := node(r, 3)
			b := changed(r, a)
			switch {
			case strings.HasSuffix(name, "EqualsStr") || name == "Contains" || name == "NotContains":
				s := word(r) + word(r)
				a = vt.J{"k": "str", "s": s}
				n := r.Intn(len(s))
				b = vt.J{"k": "str", "s": s[n : n+r.Intn(len(s)-n+1)]}
				if r.Intn(3) == 0 {
					b = vt.J{"k": "str", "s": word(r)}
				}
			case strings.Contains(name, "Contains"):
				s := word(r)
				if strings.HasSuffix(name, "JSON") {
					full := string(jsonOf(value(act(a))))
					n := r.Intn(len(full))
					s = full[n : n+r.Intn(len(full)-n+1)]
					a = wrap(a)
				}
				b = vt.J{"k": "str", "s": s}
			case strings.HasSuffix(name, "JSON"):
				a, b = wrap(a), wrap(b)
			}
			h.Add(vt.J{"op": "check", "h": name, "a": a, "b": b, "ret": call(name, value(act(a)), value(act(b)))})
		}
		tr.Write(h)
	}
	for i := 0; i < vt.Scale(60, 600); i++ {
		h := &vt.Hist{}
		b := boxes(i)
		for j := r.Intn(20); j > 0; j-- {
			b.push(1 + r.Intn(9))
		}
		for j := 0; j < 24; j++ {
			op := []string{"Shift", "Pop"}[r.Intn(2)]
			was := b.obs()
			h.Add(vt.J{"op": op, "l": was, "ret": b.take(op), "after": b.obs()})
		}
		tr.Write(h)
	}
	tr.Close()
	vt.Done()
}
