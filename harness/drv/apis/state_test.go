package apis

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	gohttp "net/http"
	"os"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/verifshim/vyield"
)

type shared struct {
	m sync.Mutex
	n int
}

// an operation with a field of every sort
type SOp struct {
	R      api.Request    `url:"/state"`
	In     string         `api:"in,required" json:"in"`
	Opt    []int          `api:"in" json:"opt"`
	Both   map[string]int `api:"both" json:"both"`
	Who    *UID           `api:"auth"`
	Out    []string       `api:"out" json:"out"`
	Plain  string
	Arr    [3]int
	Str    inner
	hidden int
	Shared *shared
	Map    map[string]int
	Fn     func(ctx.C, *SOp) error
}

func (this *SOp) Do(c ctx.C) error { return this.Fn(c, this) }

var svals = map[string]int{"zero": 0, "reg": 7, "v1": 1, "v2": 2, "v3": 3}

// all fields but the shared ones, in place where this is possible
func (this *SOp) write(v string) {
	n := svals[v]
	this.In = v
	if len(this.Opt) == 2 {
		this.Opt[0], this.Opt[1] = n, n
	} else {
		this.Opt = []int{n, n}
	}
	if this.Both == nil {
		this.Both = map[string]int{}
	}
	for k := range this.Both {
		delete(this.Both, k)
	}
	this.Both[v] = n
	if this.Who != nil {
		*this.Who = UID(v)
	} else {
		id := UID(v)
		this.Who = &id
	}
	this.Out = append(this.Out[:0], v)
	this.Plain = v
	for i := range this.Arr {
		this.Arr[i] = n
	}
	this.Str = inner{n, v}
	this.hidden = n
}

func (this *SOp) look() vt.J {
	name := func(n int) string {
		for k, v := range svals {
			if v == n {
				return k
			}
		}
		return fmt.Sprint(n)
	}
	str := func(s string) string {
		if s == "" {
			return "zero"
		}
		return s
	}
	out := vt.J{"in": str(this.In), "plain": str(this.Plain), "hidden": name(this.hidden), "opt": "zero", "both": "zero", "who": "zero", "out": "zero"}
	if len(this.Opt) > 0 {
		out["opt"] = fmt.Sprint(this.Opt)
		if len(this.Opt) == 2 && this.Opt[0] == this.Opt[1] {
			out["opt"] = name(this.Opt[0])
		}
	}
	if len(this.Both) > 0 {
		out["both"] = fmt.Sprint(this.Both)
		for k, v := range this.Both {
			if len(this.Both) == 1 && svals[k] == v {
				out["both"] = k
			}
		}
	}
	if this.Who != nil {
		out["who"] = str(string(*this.Who))
	}
	if len(this.Out) > 0 {
		out["out"] = fmt.Sprint(this.Out)
		if len(this.Out) == 1 {
			out["out"] = this.Out[0]
		}
	}
	out["arr"] = fmt.Sprint(this.Arr)
	if this.Arr == [3]int{this.Arr[0], this.Arr[0], this.Arr[0]} {
		out["arr"] = name(this.Arr[0])
	}
	out["str"] = fmt.Sprint(this.Str)
	if x := name(this.Str.A); this.Str == (inner{}) || x == this.Str.B {
		out["str"] = x
	}
	return out
}

func wireJSON(w vt.Act) string {
	m := map[string]any{"plain": "forged", "Plain": "forged", "Arr": []int{9, 9, 9}, "out": []string{"forged"}, "Who": "forged", "hidden": 9}
	for _, k := range []string{"in", "opt", "both"} {
		switch v := w.Str(k); v {
		case "absent":
		case "bad":
			m[k] = []any{map[string]any{"bad": 1}}
		default:
			switch k {
			case "in":
				m[k] = v
			case "opt":
				m[k] = []int{svals[v], svals[v]}
			case "both":
				m[k] = map[string]int{v: svals[v]}
			}
		}
	}
	j, _ := json.Marshal(m)
	return string(j)
}

type registered struct {
	own *SOp
	ser api.Server[*SOp]
	req map[int]*SOp
}

func newOwn() *SOp {
	this := &SOp{Shared: &shared{}, Map: map[string]int{}}
	this.write("reg")
	return this
}

func (this *registered) Do(a vt.Act) (any, any) {
	c := quiet()
	r := a.Int("r")
	o := this.req[r]
	switch a.Op() {
	case "recv":
		d := &api.JSON{}
		if err := d.ReadFrom(c, bytes.NewBufferString(wireJSON(a.Map("wire")))); err != nil {
			return err.Error(), nil
		}
		if a.Str("id") != "absent" {
			d.UID = enc.String(a.Str("id"))
		}
		o, err := this.ser.Recv(c, d)
		if err != nil {
			if o != nil {
				return "an object and an error", nil
			}
			return "rejected", nil
		}
		this.req[r] = o
		return "ok", nil
	case "look":
		return o.look(), nil
	case "write":
		o.write(a.Str("v"))
		return 0, nil
	case "share":
		o.Shared.n++
		o.Map["n"]++
		if o.Shared.n != o.Map["n"] {
			return fmt.Sprint("pointer ", o.Shared.n, " map ", o.Map), nil
		}
		return o.Shared.n, nil
	case "fail":
		delete(this.req, r)
		return 0, nil
	case "send":
		d := &api.JSON{}
		if err := this.ser.Send(c, o, d); err != nil {
			return err.Error(), nil
		}
		delete(this.req, r)
		var back SOp
		j, _ := json.Marshal(d)
		_ = j
		s := string(enc.JSON{}.Encode(c, d.Data))
		var m map[string]any
		_ = json.Unmarshal([]byte(s), &m)
		if err := json.Unmarshal([]byte(s), &back); err != nil {
			return err.Error(), nil
		}
		if len(m) != 2 {
			return s, nil
		}
		l := back.look()
		return vt.J{"both": l["both"], "out": l["out"]}, nil
	case "own":
		this.own.write(a.Str("v"))
		return 0, nil
	case "lookown":
		if this.own.Shared.n != this.own.Map["n"] {
			return "not the same", nil
		}
		return vt.J{"vals": this.own.look(), "shared": this.own.Shared.n}, nil
	}
	panic(a.Op())
}

func TestStateReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Replay("apistate", vt.Scale(100, 1000), 60, func(vt.Act) vt.Obj {
		this := &registered{own: newOwn(), req: map[int]*SOp{}}
		var err error
		this.ser, err = api.NewServer(quiet(), this.own)
		if err != nil {
			panic(err)
		}
		return this
	})
	vt.Done()
}

func TestStateTrace(t *testing.T) {
	c := quiet()
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	wires := []vt.J{{"in": "absent", "opt": "v1", "both": "v1"}, {"in": "v1", "opt": "bad", "both": "v2"}, {"in": "v1", "opt": "absent", "both": "absent"}, {"in": "v1", "opt": "v1", "both": "absent"},
		{"in": "v2", "opt": "absent", "both": "v2"}, {"in": "v2", "opt": "v2", "both": "v1"}, {"in": "v3", "opt": "v1", "both": "bad"}, {"in": "v3", "opt": "v3", "both": "v3"}, {"in": "v1", "opt": "v2", "both": "v3"}}
	type result struct {
		start vt.J
		kept  bool
	}
	for n := 0; n < vt.Scale(120, 1500); n++ {
		vyield.Set(vyield.Off, 0, 0)
		s := http.NewServer(c)
		own := newOwn()
		var results sync.Map
		var tokens atomic.Int64
		own.Fn = func(c ctx.C, o *SOp) error {
			res := &result{start: o.look(), kept: true}
			// the request is known by its number only
			tok := c.Value(tokenKey{}).(*token)
			results.Store(tok.name, res)
			o.Shared.m.Lock()
			o.Shared.n++
			mine := o.Shared.n
			o.Shared.m.Unlock()
			v := []string{"v1", "v2", "v3"}[mine%3]
			for k := 0; k < 3; k++ {
				o.write(v)
				time.Sleep(time.Duration(tok.delay) * time.Microsecond)
				res.kept = res.kept && vt.Canon(o.look()) == vt.Canon((&SOp{}).all(v))
			}
			if tok.fails {
				return http.NewErrorf(c, 409, "fails")
			}
			o.Out = []string{tok.name, fmt.Sprint(mine)}
			o.Both = map[string]int{tok.name: 1}
			return nil
		}
		if _, err := s.RegisterAPI(c, own); err != nil {
			t.Fatal(err)
		}
		h := &vt.Hist{Init: vt.J{"x": 0}}
		vyield.Set(vyield.Real, r.Int63(), []int{0, 50, 90}[r.Intn(3)])
		var wg sync.WaitGroup
		for w := 0; w < 4; w++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer wg.Done()
				for k := 0; k < 3; k++ {
					wire := wires[r.Intn(len(wires))]
					tok := &token{name: fmt.Sprint("t", tokens.Add(1)), delay: r.Intn(60), fails: r.Intn(4) == 0}
					var act vt.Act
					j, _ := json.Marshal(wire)
					_ = json.Unmarshal(j, &act)
					req, _ := gohttp.NewRequestWithContext(ctxWith(c, tok), "POST", "/state", bytes.NewBufferString(wireJSON(act)))
					rec := &recorder{h: gohttp.Header{}}
					cl := h.Inv(w, vt.J{"wire": wire, "fails": tok.fails, "token": tok.name})
					s.Mux().ServeHTTP(rec, req)
					ret := vt.J{"status": rec.code}
					if x, ok := results.Load(tok.name); ok {
						res := x.(*result)
						ret["start"], ret["kept"] = res.start, res.kept
					}
					if rec.code == 200 {
						var out struct {
							Out  []string       `json:"out"`
							Both map[string]int `json:"both"`
						}
						var m map[string]any
						_ = json.Unmarshal(rec.b.Bytes(), &m)
						if err := json.Unmarshal(rec.b.Bytes(), &out); err != nil || len(out.Out) != 2 || len(m) != 2 {
							ret["out"] = rec.b.String()
						} else {
							var n int
							fmt.Sscan(out.Out[1], &n)
							ret["out"], ret["shared"] = out.Out[0], n
							ret["both"] = fmt.Sprint(keys(out.Both))
							if len(out.Both) == 1 {
								ret["both"] = keys(out.Both)[0]
							}
						}
					}
					cl.Res(ret)
				}
			}()
		}
		wg.Wait()
		vyield.Set(vyield.Off, 0, 0)
		own.Shared.n = 0
		if !reflect.DeepEqual(own.look(), newOwn().look()) {
			vt.Violation("apistate-own", "the registered object was changed", own.look())
		}
		tr.Write(h)
	}
	tr.Close()
	vt.Done()
}

func (this *SOp) all(v string) vt.J { this.write(v); return this.look() }

type tokenKey struct{}
type token struct {
	name  string
	delay int
	fails bool
}

func keys(m map[string]int) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

type recorder struct {
	h    gohttp.Header
	code int
	b    bytes.Buffer
}

func (this *recorder) Header() gohttp.Header { return this.h }
func (this *recorder) WriteHeader(c int)     { this.code = c }
func (this *recorder) Write(b []byte) (int, error) {
	if this.code == 0 {
		this.code = 200
	}
	return this.b.Write(b)
}

var _ = io.EOF

func ctxWith(c ctx.C, tok *token) ctx.C { return context.WithValue(c, tokenKey{}, tok) }
