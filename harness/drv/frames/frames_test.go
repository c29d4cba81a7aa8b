// Package frames drives the stack frames of package utils and the call sites of package utils/ast
package frames

import (
	_ "embed"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/utils"
)

//go:embed frames_test.go
var self string

// which call is on which line
var at = func() map[int]string {
	out := map[int]string{}
	for n, l := range strings.Split(self, "\n") {
		if _, k, ok := strings.Cut(l, "// at "); ok && !strings.Contains(l, "strings.Cut") {
			out[n+1] = k
		}
	}
	return out
}()

// ------------------------------------------------------------------ functions of all kinds


type T struct{ n int }
type V struct{}
type I interface{ iface([]string, *ask1) any }
type G[X any] struct{ x X }

// what is asked
type ask1 struct {
	op         string
	above, max int
}

//go:noinline
func plain(rest []string, q *ask1) any {
	return down(rest, q) // at plain
}

//go:noinline
func (t *T) ptr(rest []string, q *ask1) any {
	t.n++
	return down(rest, q) // at ptr
}

//go:noinline
func (t T) val(rest []string, q *ask1) any {
	return down(rest, q) // at val
}

//go:noinline
func closes(n *int) func([]string, *ask1) any {
	return func(rest []string, q *ask1) any {
		*n++
		return down(rest, q) // at closure
	}
}

//go:noinline
func generic[X any](x X, rest []string, q *ask1) any {
	return down(rest, q) // at generic
}

//go:noinline
func (g *G[X]) gmethod(rest []string, q *ask1) any {
	return down(rest, q) // at gmethod
}

//go:noinline
func (V) iface(rest []string, q *ask1) any {
	return down(rest, q) // at iface
}

//go:noinline
func ask(q *ask1) any {
	if q.op == "caller" {
		return utils.Caller(q.above) // at ask
	}
	return append([]string{""}, utils.Stack(q.above, q.max)...) // at ask
}

//go:noinline
func down(rest []string, q *ask1) any {
	if len(rest) == 0 {
		return ask(q) // at down:ask
	}
	switch k := rest[0]; k {
	case "plain":
		return plain(rest[1:], q) // at down:plain
	case "ptr":
		return (&T{}).ptr(rest[1:], q) // at down:ptr
	case "val":
		return T{}.val(rest[1:], q) // at down:val
	case "closure":
		f := closes(new(int))
		return f(rest[1:], q) // at down:closure
	case "generic":
		return generic("x", rest[1:], q) // at down:generic
	case "gmethod":
		g := &G[int]{}
		return g.gmethod(rest[1:], q) // at down:gmethod
	case "iface":
		var i I = V{}
		if len(rest) > 1000 {
			i = nil
		}
		return i.iface(rest[1:], q) // at down:iface
	}
	panic("no such function: " + rest[0])
}

//go:noinline
func begin(rest []string, q *ask1) any {
	return down(rest, q) // at begin
}

func place(file string, line int) string {
	if file == "" && line == 0 {
		return "none"
	}
	if filepath.Base(file) != "frames_test.go" {
		return fmt.Sprintf("%s:%d", file, line)
	}
	if k := at[line]; k != "" {
		return k
	}
	return fmt.Sprintf("line %d", line)
}

func frames(a vt.Act) any {
	var rest []string
	for _, k := range a.List("q") {
		rest = append(rest, k.(string))
	}
	q := &ask1{a.Op(), a.Int("above"), 0}
	if q.op == "stack" {
		q.max = a.Int("max")
	}
	switch r := begin(rest, q).(type) {
	case utils.StackFrame:
		pkg := ""
		if r.File != "" {
			pkg = "elsewhere " + r.Pkg()
			if r.Pkg() == filepath.Dir(r.File) && strings.HasSuffix(r.Pkg(), "/drv/frames") && r.AbsFile() == r.File &&
				r.FileLine() == fmt.Sprintf("%s:%d", r.File, r.Line) && r.Func == "verif/harness/drv/"+r.ShortFunc() {
				pkg = "here"
			}
		}
		return vt.J{"at": place(r.File, r.Line), "full": r.ShortFunc(), "name": r.FuncName(), "pkg": pkg}
	case []string:
		out := []any{}
		for _, l := range r[1:] {
			line := 0
			i := strings.LastIndex(l, ":")
			_, _ = fmt.Sscan(l[i+1:], &line)
			out = append(out, place(l[:i], line))
		}
		return out
	}
	return "no answer"
}

// ------------------------------------------------------------------ sources

func stmt(s vt.Act) (text, end string) {
	switch s.Str("k") {
	case "set":
		return s.Str("v") + " := " + s.Str("e"), ""
	case "both":
		return "x, y := 5, 6", ""
	case "look":
		return "look(0, x)", ""
	case "open":
		if strings.HasPrefix(s.Str("e"), "func") {
			return s.Str("e"), "}()"
		}
		return s.Str("e"), "}"
	}
	panic("no such statement")
}

func write(prog []any, form string, args []any) {
	var as []string
	for _, x := range args {
		a := vt.Act(x.(map[string]any))
		s := a.Str("s")
		if a.Str("k") == "fn" {
			if s != "" {
				s = " " + s + " "
			}
			s = "func() {" + s + "}"
		}
		as = append(as, s)
	}
	call := "(" + strings.Join(as, ", ") + ")"
	switch form {
	case "plain":
		call = "look" + call
	case "sel":
		call = "p.look" + call
	case "deep":
		call = "p.q.look" + call
	case "assign":
		call = "r := look" + call
	case "if":
		call = "if look" + call + " {\n}"
	case "defer":
		call = "defer look" + call
	case "busy":
		call = "other(1, y); look" + call
	case "inner":
		call = "other(look" + call + ", 8)"
	}
	text, ends := "", []string{}
	for _, x := range prog {
		s := vt.Act(x.(map[string]any))
		if s.Str("k") == "close" {
			text += ends[len(ends)-1] + "\n"
			ends = ends[:len(ends)-1]
			continue
		}
		t, end := stmt(s)
		text += t + "\n"
		if end != "" {
			ends = append(ends, end)
		}
	}
	head := "package p\nfunc look() { look(1, 2) }\nfunc main() {\n"
	out := head + strings.Repeat("\n", sourceLine-1-strings.Count(head+text, "\n")) + text + call + "\nx, y, z := 9, 9, 9\nlook(x)\n"
	for n := len(ends) - 1; n >= 0; n-- {
		out += ends[n] + "\n"
	}
	out += "look(y)\n}\n"
	if err := os.WriteFile(source, []byte(out), 0o600); err != nil {
		panic(err)
	}
}

func looks(prog []any, form string, args []any) any {
	write(prog, form, args)
	f := callLook()
	here := fmt.Sprintf("%s:%d", source, sourceLine)
	if f.err != nil {
		return "error: " + f.err.Error()
	}
	if f.at != here {
		return "it is at " + f.at
	}
	out := []any{}
	for _, a := range f.call.Args {
		if a.String() != a.Src {
			return "an argument is " + a.String()
		}
		out = append(out, vt.J{"src": a.Src, "as": a.Assignment})
	}
	short := []any{}
	for _, s := range f.short {
		if s == here {
			s = "here"
		}
		short = append(short, s)
	}
	return vt.J{"name": f.call.Name, "all": f.call.All, "args": out, "short": short}
}

func do(a vt.Act) (ret any) {
	msg := vt.Protect(func() {
		if a.Op() == "look" {
			ret = looks(a.List("prog"), a.Str("form"), a.List("args"))
		} else {
			ret = frames(a)
		}
	})
	if msg != "" {
		return msg
	}
	return ret
}

type obj struct{}

func (obj) Do(a vt.Act) (any, any) { return do(a), nil }

// there is one source at a time
func own() func() {
	dir := filepath.Dir(source)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	f, err := os.OpenFile("/tmp/verif-frames.lock", os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		panic(err)
	}
	if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX); err != nil {
		panic(err)
	}
	_ = os.MkdirAll(dir, 0o755)
	return func() {
		_ = os.Remove(source)
		_ = os.Remove(dir)
		_ = f.Close()
	}
}

func TestFramesReplay(t *testing.T) {
	defer own()()
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Par = 1
	g.Replay("frames", 0, 0, func(vt.Act) vt.Obj { return obj{} })
	vt.Done()
}

func TestFramesTrace(t *testing.T) {
	defer own()()
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	kinds := []string{"plain", "ptr", "val", "closure", "generic", "gmethod", "iface"}
	for n := 0; n < vt.Scale(300, 5000); n++ {
		h := &vt.Hist{}
		q := []any{}
		for k := r.Intn(30); k > 0; k-- {
			q = append(q, pick(kinds...))
		}
		for k := 0; k < 5; k++ {
			above := r.Intn(2*len(q) + 3)
			e := vt.Act{"op": "caller", "q": q, "above": float64(above)}
			if r.Intn(2) == 0 {
				e["op"], e["max"] = "stack", float64(r.Intn(2*len(q)+3-above+1))
			}
			e["ret"] = do(e)
			h.Add(vt.J(e))
		}
		for k := 0; k < 3; k++ {
			prog, depth := []any{}, 0
			for x := r.Intn(16); x > 0; x-- {
				var s map[string]any
				switch c := r.Intn(10); {
				case c < 4:
					s = map[string]any{"k": "set", "v": pick("x", "y"), "e": pick("1", "f(2, x)", "[]int{\n3,\n}", "\"a b\"", "func() {\n}")}
				case c < 5:
					s = map[string]any{"k": "both"}
				case c < 7:
					s = map[string]any{"k": "open", "e": pick("{", "if ok {", "func() {")}
					depth++
				case c < 9 && depth > 0:
					s = map[string]any{"k": "close"}
					depth--
				default:
					s = map[string]any{"k": "look"}
				}
				prog = append(prog, s)
				h.Add(vt.J{"op": "stmt", "s": s})
			}
			args := []any{}
			for x := r.Intn(5); x > 0; x-- {
				args = append(args, []any{
					map[string]any{"k": "var", "s": pick("x", "y", "z")}, map[string]any{"k": "fn", "s": pick("g(x)", "", "y(1)")},
					map[string]any{"k": "lit", "s": pick("7", "x+1", "[]int{\n3,\n}", "p.x", "\"x\"")}}[r.Intn(3)])
			}
			form := pick("plain", "sel", "deep", "assign", "if", "defer", "busy", "inner")
			h.Add(vt.J{"op": "look", "form": form, "args": args, "ret": do(vt.Act{"op": "look", "prog": prog, "form": form, "args": args})})
		}
		tr.Write(h)
	}
	tr.Close()
	vt.Done()
}
