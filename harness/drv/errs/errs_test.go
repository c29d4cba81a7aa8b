package errs

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"testing"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils"
)

type nKey struct{}

type custom struct{ id int }

func (e *custom) Error() string { return fmt.Sprint("n", e.id) }

type origin struct {
	c     ctx.C
	stack []string
}

type obj struct {
	errs []error
	c    map[int]origin // by node, of those which would be origins
	r    *rand.Rand
	bad  string
}

func newObj(seed int64) *obj {
	return &obj{c: map[int]origin{}, r: rand.New(rand.NewSource(seed))}
}

// the stack of the caller, as ctx should see it from the same line
func here() (out []string) {
	pc := make([]uintptr, 400)
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	for {
		f, more := fr.Next()
		if f.File != "" {
			out = append(out, fmt.Sprintf("%s:%d", f.File, f.Line))
		}
		if !more {
			return
		}
	}
}

//go:noinline
func deep(n int, f func()) {
	if n > 0 {
		deep(n-1, f)
	} else {
		f()
	}
}

func (o *obj) Do(a vt.Act) (any, any) {
	ret := o.do(a)
	obs := []any{}
	for i := range o.errs {
		obs = append(obs, o.look(i))
	}
	return ret, obs
}

func (o *obj) do(a vt.Act) any {
	n := len(o.errs) + 1
	c := ctx.WithValue(ctx.WithTag(context.Background(), "n", n), nKey{}, n)
	var p, q error
	if a.Int("p") > 0 {
		p = o.errs[a.Int("p")-1]
	}
	if a.Int("q") > 0 {
		q = o.errs[a.Int("q")-1]
	}
	var err error
	var st []string
	other := o.r.Intn(2) == 0
	f := func() {
		switch a.Op() {
		case "leaf":
			err = errors.New(fmt.Sprint("n", n))
		case "custom":
			err = &custom{n}
		case "wrapnil":
			err = ctx.WrapError(c, nil)
		case "wrap":
			if other {
				st, err = here(), ctx.WrapError(c, p)
			} else {
				st, err = here(), ctx.WrapError(c, p)
			}
		case "newf":
			st, err = here(), ctx.NewErrorf(c, "n%d(%w)", n, p)
		case "newv":
			st, err = here(), ctx.NewErrorf(c, "n%d(%v)", n, p)
		case "newf2":
			st, err = here(), ctx.NewErrorf(c, "n%d(%w,%w)", n, p, q)
		case "fmt":
			err = fmt.Errorf("n%d(%w)", n, p)
		case "join":
			if other {
				err = fmt.Errorf("n%d(%w,%w)", n, p, q)
			} else {
				err = &joined{fmt.Sprintf("n%d(%v,%v)", n, p, q), errors.Join(p, q)}
			}
		}
	}
	deep([]int{0, 0, 0, 1, 5, 30, 130}[o.r.Intn(7)], f)
	if st != nil {
		o.c[n] = origin{c, st}
	}
	o.errs = append(o.errs, err)
	return "ok"
}

type joined struct {
	text string
	error
}

func (j *joined) Error() string { return j.text }
func (j *joined) Unwrap() error { return j.error }

func sameStack(got, want []string) bool {
	if len(got) < 20 && len(got) < len(want) || len(got) > len(want) {
		return false
	}
	return reflect.DeepEqual(got, want[:len(got)])
}

func (o *obj) origin(e ctx.Error) any {
	n, _ := e.C.Value(nKey{}).(int)
	or, ok := o.c[n]
	if !ok || e.C != or.c {
		return "foreign context"
	}
	if !sameStack(e.Stack, or.stack) {
		return fmt.Sprintf("context of %d, but stack %v instead of %v", n, e.Stack, or.stack)
	}
	return n
}

func (o *obj) look(i int) vt.J {
	err := o.errs[i]
	n := len(o.errs)
	is := make([]bool, n)
	if err == nil {
		return vt.J{"origin": 0, "origins": 0, "text": "nil", "is": is, "as": 0}
	}
	out := vt.J{"origin": 0, "origins": 0, "text": err.Error(), "as": 0}
	var ce ctx.Error
	if errors.As(err, &ce) {
		out["origin"] = o.origin(ce)
	}
	if errors.Is(err, ctx.Error{}) != (out["origin"] != 0) || errors.Is(err, &ctx.Error{}) != (out["origin"] != 0) {
		out["origin"] = "errors.Is(err, ctx.Error{}) and errors.As disagree"
	}
	var cu *custom
	if errors.As(err, &cu) {
		out["as"] = cu.id
	}
	// all the records
	recs := map[any]bool{}
	var walk func(err error)
	walk = func(err error) {
		if err == nil {
			return
		}
		switch e := err.(type) {
		case ctx.Error:
			recs[o.origin(e)] = true
		case *ctx.Error:
			recs[o.origin(*e)] = true
		}
		switch e := err.(type) {
		case interface{ Unwrap() error }:
			walk(e.Unwrap())
		case interface{ Unwrap() []error }:
			for _, x := range e.Unwrap() {
				walk(x)
			}
		}
	}
	walk(err)
	out["origins"] = len(recs)
	for j := range o.errs {
		is[j] = o.errs[j] != nil && errors.Is(err, o.errs[j])
	}
	out["is"] = is
	return out
}

func TestErrReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Replay("error-chain", vt.Scale(100, 100), 8, func(init vt.Act) vt.Obj { return newObj(vt.Seed()) })
	vt.Done()
}

func TestErrTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(300, 5000); i++ {
		o := newObj(r.Int63())
		h := &vt.Hist{}
		n := 4 + r.Intn(14)
		for j := 0; j < n; j++ {
			a := vt.Act{"op": []string{"leaf", "custom", "wrapnil", "wrap", "wrap", "newf", "newf", "newv", "fmt", "fmt", "newf2", "join"}[r.Intn(12)]}
			var ok []int
			for k, e := range o.errs {
				if e != nil {
					ok = append(ok, k+1)
				}
			}
			p, q := 0, 0
			if k := a.Op(); k != "leaf" && k != "custom" && k != "wrapnil" {
				if len(ok) == 0 {
					continue
				}
				p = ok[len(ok)-1-r.Intn(min(3, len(ok)))]
				if k == "newf2" || k == "join" {
					q = ok[r.Intn(len(ok))]
				}
			}
			a["p"], a["q"] = p, q
			o.do(a)
			old := r.Intn(len(o.errs))
			h.Ev = append(h.Ev, vt.J{"op": a.Op(), "p": p, "q": q, "n": old + 1, "obs": o.look(len(o.errs) - 1), "old": o.look(old)})
		}
		tr.Write(h)
	}
	tr.Close()
	// the gate finds its own error through any layers, and nothing else
	for i := 0; i < 500; i++ {
		c := context.Background()
		layers := func(err error) error {
			for k := r.Intn(6); k >= 0; k-- {
				switch r.Intn(5) {
				case 0:
					err = ctx.WrapError(c, err)
				case 1:
					err = ctx.NewErrorf(c, "x %w", err)
				case 2:
					err = fmt.Errorf("y %w", err)
				case 3:
					err = errors.Join(errors.New("z"), err)
				}
			}
			return err
		}
		if err := utils.ErrorGate(func(err error) error { return layers(err) }); err != nil {
			vt.Violation("gate", "ErrorGate let its own error out: "+err.Error(), nil)
		}
		own := layers(errors.New("own"))
		if err := utils.ErrorGate(func(error) error { return own }); err == nil || err.Error() != own.Error() {
			vt.Violation("gate", fmt.Sprintf("ErrorGate turned %v into %v", own, err), nil)
		}
		if err := utils.ErrorGate(func(error) error { return nil }); err != nil {
			vt.Violation("gate", fmt.Sprintf("ErrorGate turned nil into %v", err), nil)
		}
		if !errors.Is(layers(utils.EOD{}), utils.EOD{}) || errors.Is(own, utils.EOD{}) {
			vt.Violation("gate", "EOD is not found through layers", nil)
		}
	}
	vt.Done()
}
