package kv

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/storage"
	"github.com/Aize-Public/forego/verifshim/vyield"
)

var quiet = log.WithSlogLogger(context.Background(), slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError})))

func c() ctx.C { return quiet }

var errCB = errors.New("callback")

// pools of values which are all different
var pool = []func() enc.Node{
	func() enc.Node { return enc.Integer(1) },
	func() enc.Node { return enc.Integer(-1) },
	func() enc.Node { return enc.String("") },
	func() enc.Node { return enc.String("1") },
	func() enc.Node { return enc.String("null") },
	func() enc.Node { return enc.String("nil") },
	func() enc.Node { return enc.String("enc.Nil{}") },
	func() enc.Node { return enc.String("true") },
	func() enc.Node { return enc.Bool(true) },
	func() enc.Node { return enc.Bool(false) },
	func() enc.Node { return enc.Float(0.5) },
	func() enc.Node { return enc.List{} },
	func() enc.Node { return enc.Map{} },
	func() enc.Node { return enc.List{enc.Integer(1), enc.Integer(2)} },
	func() enc.Node { return enc.List{enc.String("1"), enc.String("2")} },
	func() enc.Node { return enc.List{enc.String("1, 2")} },
	func() enc.Node { return enc.List{enc.Nil{}} },
	func() enc.Node {
		return enc.Map{"a": enc.Integer(1), "b": enc.Integer(2), "c": enc.Map{"x": enc.Bool(true), "y": enc.List{enc.String("z")}}}
	},
	func() enc.Node {
		return enc.Map{"a": enc.Integer(1), "b": enc.Integer(2), "c": enc.Map{"x": enc.Bool(true), "y": enc.List{enc.String("w")}}}
	},
	func() enc.Node { return enc.Map{"a": enc.Integer(2), "b": enc.Integer(1)} },
	func() enc.Node { return enc.Map{"a": enc.Integer(1), "b": enc.Integer(2)} },
}

type obj struct {
	s    storage.KeyValue
	x, y func() enc.Node
	nilV bool // null as a Go nil
}

func newObj(r *rand.Rand) *obj {
	p := r.Perm(len(pool))
	return &obj{storage.NewMemKeyValue(), pool[p[0]], pool[p[1]], r.Intn(2) == 0}
}

func (this *obj) val(tok string) enc.Node {
	switch tok {
	case "x":
		return this.x()
	case "y":
		return this.y()
	}
	if this.nilV {
		return nil
	}
	return enc.Nil{}
}

func (this *obj) entry(e vt.Act) enc.Map {
	m := enc.Map{"other": enc.Integer(7)}
	for _, f := range []string{"f", "g"} {
		if e.Str(f) != "missing" {
			m[f] = this.val(e.Str(f))
		}
	}
	return m
}

func (this *obj) token(m enc.Map) any {
	if m == nil {
		return vt.J{"f": "none", "g": "none"}
	}
	out := vt.J{}
	if !reflect.DeepEqual(m["other"], enc.Integer(7)) {
		return "damaged entry"
	}
	for _, f := range []string{"f", "g"} {
		v, ok := m[f]
		switch {
		case !ok:
			out[f] = "missing"
		case v == nil || v == enc.Node(nil) || reflect.DeepEqual(v, enc.Nil{}):
			out[f] = "null"
		case reflect.DeepEqual(v, this.x()):
			out[f] = "x"
		case reflect.DeepEqual(v, this.y()):
			out[f] = "y"
		default:
			out[f] = fmt.Sprint(v)
		}
	}
	return out
}

func (this *obj) filters(l []any) (out []storage.Filter) {
	for _, x := range l {
		f := vt.Act(x.(map[string]any))
		out = append(out, storage.Filter{Field: f.Str("field"), Cmp: storage.Cmp(f.Str("cmp")), Val: this.val(f.Str("val"))})
	}
	return
}

func outcome(err error, flts []storage.Filter) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, errCB):
		return "err"
	}
	for _, f := range flts {
		if f.Cmp != storage.Equal && f.Cmp != storage.NotEqual {
			return "filter"
		}
	}
	return "unexpected error: " + err.Error()
}

// scramble changes a value which is the caller's own
func scramble(n enc.Node) {
	switch n := n.(type) {
	case enc.Map:
		for k, v := range n {
			scramble(v)
			n[k] = enc.String("scrambled")
		}
		if n != nil {
			n["f"], n["g"], n["new"] = enc.String("scrambled"), enc.Integer(9), enc.List{}
		}
	case enc.List:
		for i := range n {
			scramble(n[i])
			n[i] = enc.String("scrambled")
		}
	}
}

// cancelled is a scan which is cancelled on its way: it shows the same, or says so
func (this *obj) cancelled(at int, flts []storage.Filter) (n int, err error) {
	c, cf := ctx.WithCancel(c())
	defer cf(nil)
	if at == 0 {
		cf(nil)
	}
	err = this.s.Range(c, func(ctx.C, string, enc.Map) error {
		n++
		if n == at {
			cf(nil)
		}
		return nil
	}, flts...)
	return n, err
}

func (this *obj) Do(a vt.Act) (any, any) {
	k := a.Str("k")
	switch a.Op() {
	case "get":
		v, err := this.s.Get(c(), k)
		if err != nil {
			return err.Error(), nil
		}
		tok := this.token(v)
		scramble(v)
		return tok, nil
	case "upsert":
		e := this.entry(a.Map("e"))
		if err := this.s.Upsert(c(), k, e); err != nil {
			return err.Error(), nil
		}
		scramble(e)
	case "del":
		if err := this.s.Delete(c(), k); err != nil {
			return err.Error(), nil
		}
	case "scan", "scanmod":
		seen := vt.J{"a": this.token(nil), "b": this.token(nil)}
		got := map[string]bool{}
		flts := this.filters(a.List("flts"))
		counts := []int{}
		for at := 0; at < 3; at++ {
			if n, err := this.cancelled(at, flts); err == nil {
				counts = append(counts, n)
			}
		}
		n := 0
		_ = this.s.Range(c(), func(c ctx.C, k string, v enc.Map) error { n++; scramble(v); return nil }, flts...)
		for _, x := range counts {
			if x != n {
				return fmt.Sprintf("a scan shows %d entries, a cancelled one shows %d and no error", n, x), nil
			}
		}
		err := this.s.Range(c(), func(c ctx.C, k string, v enc.Map) error {
			if got[k] {
				seen[k] = "twice"
				return nil
			}
			got[k] = true
			seen[k] = this.token(v)
			scramble(v)
			switch a.Str("mod") {
			case "del":
				_ = this.s.Delete(c, "a")
				_ = this.s.Delete(c, "b")
			case "put":
				for _, k := range []string{"a", "b"} {
					_ = this.s.Upsert(c, k, this.entry(vt.Act{"f": "y", "g": "x"}))
				}
			}
			switch a.Str("stop") {
			case "eod":
				return storage.EOD
			case "err":
				return errCB
			}
			return nil
		}, flts...)
		return vt.J{"out": outcome(err, flts), "seen": seen}, nil
	}
	return "ok", nil
}

func TestKVReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	r := rand.New(rand.NewSource(vt.Seed()))
	var m sync.Mutex
	g.Replay("kv-replay", vt.Scale(2000, 40000), 40, func(init vt.Act) vt.Obj {
		m.Lock()
		defer m.Unlock()
		return newObj(r)
	})
	vt.Done()
}

func TestKVConc(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(500, 5000); i++ {
		seed := r.Int63()
		synctest.Test(t, func(t *testing.T) { kvConc(seed, tr) })
	}
	tr.Close()
	vt.Done()
}

func kvConc(seed int64, tr *vt.Traces) {
	r := rand.New(rand.NewSource(seed))
	vyield.Set(vyield.Bubble, seed, 0)
	defer vyield.Set(vyield.Off, 0, 0)
	h := &vt.Hist{}
	o := newObj(r)
	keys := []string{"a", "b", "c", "d"}[:1+r.Intn(4)]
	done := make(chan bool)
	threads := 2 + r.Intn(2)
	for th := 0; th < threads; th++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		var op func(th int, nest bool)
		op = func(th int, nest bool) {
			k := keys[rr.Intn(len(keys))]
			kind := rr.Intn(8)
			if nest {
				kind %= 6
			}
			switch kind {
			case 0, 1:
				cl := h.Inv(th, vt.J{"op": "get", "k": k})
				v, err := o.s.Get(c(), k)
				if err != nil {
					cl.Res(err.Error())
				} else {
					cl.Res(o.token(v))
					scramble(v)
				}
			case 2, 3, 4:
				e := vt.Act{"f": []string{"missing", "null", "x", "y"}[rr.Intn(4)], "g": []string{"missing", "x"}[rr.Intn(2)]}
				cl := h.Inv(th, vt.J{"op": "upsert", "k": k, "e": e})
				m := o.entry(e)
				if err := o.s.Upsert(c(), k, m); err != nil {
					cl.Res(err.Error())
				} else {
					cl.Res("ok")
				}
				scramble(m)
			case 5:
				cl := h.Inv(th, vt.J{"op": "del", "k": k})
				if err := o.s.Delete(c(), k); err != nil {
					cl.Res(err.Error())
				} else {
					cl.Res("ok")
				}
			default:
				flts := []any{}
				for rr.Intn(2) == 0 && len(flts) < 3 {
					cmp := []string{"EQ", "NEQ", "EQ", "NEQ", "G"}[rr.Intn(5)]
					flts = append(flts, map[string]any{"field": []string{"f", "g"}[rr.Intn(2)], "cmp": cmp, "val": []string{"null", "x", "y"}[rr.Intn(3)]})
				}
				stop := []string{"no", "no", "eod", "err"}[rr.Intn(4)]
				limit := 1 + rr.Intn(2)
				seen := []vt.J{}
				sop := vt.J{"op": "scan", "flts": flts, "stopped": "no", "limit": limit}
				cl := h.Inv(th, sop)
				real := o.filters(flts)
				err := o.s.Range(c(), func(c ctx.C, k string, v enc.Map) error {
					if len(seen) == 0 {
						cl.Res("ok") // the moment is in the past
					}
					seen = append(seen, vt.J{"k": k, "e": o.token(v)})
					scramble(v)
					if rr.Intn(2) == 0 {
						op(th, true)
					} else {
						time.Sleep(time.Duration(rr.Intn(2000)))
					}
					if len(seen) == limit && stop != "no" {
						sop["stopped"] = stop
						if stop == "eod" {
							return storage.EOD
						}
						return errCB
					}
					return nil
				}, real...)
				if len(seen) == 0 {
					cl.Res("ok")
				}
				sop["seen"] = seen
				sop["out"] = outcome(err, real)
			}
		}
		go func() {
			for j := 0; j < 5; j++ {
				time.Sleep(time.Duration(rr.Intn(2) * rr.Intn(2000)))
				op(th, false)
			}
			done <- true
		}()
	}
	for th := 0; th < threads; th++ {
		<-done
	}
	tr.Write(h)
}

func TestKVRace(t *testing.T) {
	for i := 0; i < vt.Scale(10, 100); i++ {
		s := storage.NewMemKeyValue()
		var wg sync.WaitGroup
		for th := 0; th < 6; th++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				cc := c()
				for j := 0; j < 200; j++ {
					k := fmt.Sprint(j % 5)
					switch (j + th) % 4 {
					case 0:
						_ = s.Upsert(cc, k, enc.Map{"k": enc.String(k), "f": enc.Integer(j % 3)})
					case 1:
						_ = s.Delete(cc, k)
					case 2:
						v, _ := s.Get(cc, k)
						if v != nil && v["k"] != enc.String(k) {
							vt.Violation("kv-race", "value of another key", nil)
						}
					default:
						_ = s.Range(cc, func(c ctx.C, k string, v enc.Map) error {
							if v["k"] != enc.String(k) {
								vt.Violation("kv-race", "value of another key", nil)
							}
							return s.Delete(c, k)
						}, storage.Filter{Field: "f", Cmp: storage.Equal, Val: enc.Integer(1)})
					}
				}
			}()
		}
		wg.Wait()
	}
	vt.Done()
}
