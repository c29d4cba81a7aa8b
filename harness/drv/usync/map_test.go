package usync

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/utils/lists"
	"github.com/Aize-Public/forego/utils/sync"
	"github.com/Aize-Public/forego/verifshim/vyield"
)

// amap is the map for some type of values, on tokens
type amap interface {
	Do(op vt.J) vt.J
	Range(limit int, f func(k, v string)) (stopped bool)
	RangeErr(limit int, f func(k, v string)) (stopped bool)
	Content() map[string]string
	Empty() bool
	JSON() string
	FromJSON(m map[string]string) error
}

type tmap[V any] struct {
	m    *sync.Map[string, V]
	to   func(string) V
	from func(V) string
}

func (this tmap[V]) Do(op vt.J) vt.J {
	k, _ := op["k"].(string)
	v, _ := op["v"].(string)
	var zero V
	r := func(v V, ok bool) vt.J { return vt.J{"v": this.from(v), "ok": ok} }
	switch op["op"].(string) {
	case "get":
		return r(this.m.Get(k), true)
	case "load":
		return r(this.m.Load(k))
	case "store":
		this.m.Store(k, this.to(v))
		return r(zero, true)
	case "gos":
		return r(this.m.GetOrStore(k, this.to(v)), true)
	case "los":
		return r(this.m.LoadOrStore(k, this.to(v)))
	case "del":
		this.m.Delete(k)
		return r(zero, true)
	case "lad":
		return r(this.m.LoadAndDelete(k))
	}
	panic(op["op"])
}

func (this tmap[V]) Range(limit int, f func(k, v string)) (stopped bool) {
	n := 0
	this.m.Range(func(k string, v V) bool {
		n++
		f(k, this.from(v))
		if n == limit {
			stopped = true
			return false
		}
		return true
	})
	return
}

var errStop = errors.New("stop")

func (this tmap[V]) RangeErr(limit int, f func(k, v string)) (stopped bool) {
	n := 0
	err := this.m.RangeErr(func(k string, v V) error {
		n++
		f(k, this.from(v))
		if n == limit {
			stopped = true
			return errStop
		}
		return nil
	})
	if (err == errStop) != stopped || (err != nil) != stopped {
		vt.Violation("map-rangeerr", fmt.Sprintf("RangeErr answered %v, its callback stopped: %v", err, stopped), nil)
	}
	return
}

func (this tmap[V]) Content() map[string]string {
	out := map[string]string{}
	for k, v := range this.m.Map() {
		out[k] = this.from(v)
	}
	return out
}

func (this tmap[V]) Empty() bool { return this.m.IsEmpty() }

// JSON serializes the map
func (this tmap[V]) JSON() string {
	n, err := this.m.MarshalNode(context.Background())
	if err != nil {
		return "error " + err.Error()
	}
	j, err := json.Marshal(n)
	if err != nil {
		return "error " + err.Error()
	}
	return vt.Canon(json.RawMessage(j))
}

func (this tmap[V]) FromJSON(m map[string]string) error {
	var o sync.Map[string, V]
	for k, v := range m {
		o.Store(k, this.to(v))
	}
	n, err := o.MarshalNode(context.Background())
	if err != nil {
		return err
	}
	return this.m.UnmarshalNode(context.Background(), n)
}

type strct struct{ N int }

// every kind of value: an interface, a pointer, a string, a number, a struct
func newMap(kind int) amap {
	toS := map[string]string{"nil": "", "x": "x", "y": "y"}
	switch kind {
	case 0:
		return tmap[any]{&sync.Map[string, any]{}, func(s string) any {
			if s == "nil" {
				return nil
			}
			return s
		}, func(v any) string {
			if v == nil {
				return "nil"
			}
			return v.(string)
		}}
	case 1:
		ptr := map[string]*string{"nil": nil}
		for _, s := range []string{"x", "y"} {
			s := s
			ptr[s] = &s
		}
		return tmap[*string]{&sync.Map[string, *string]{}, func(s string) *string { return ptr[s] }, func(v *string) string {
			if v == nil {
				return "nil"
			}
			return *v
		}}
	case 2:
		return tmap[string]{&sync.Map[string, string]{}, func(s string) string { return toS[s] }, func(v string) string {
			if v == "" {
				return "nil"
			}
			return v
		}}
	case 3:
		n := map[string]int{"nil": 0, "x": 1, "y": -2}
		return tmap[int]{&sync.Map[string, int]{}, func(s string) int { return n[s] }, func(v int) string {
			for s, x := range n {
				if x == v {
					return s
				}
			}
			return fmt.Sprint(v)
		}}
	case 4:
		return tmap[[]string]{&sync.Map[string, []string]{}, func(s string) []string {
			if s == "nil" {
				return nil
			}
			return []string{s}
		}, func(v []string) string {
			if len(v) == 0 {
				return "nil"
			}
			return v[0]
		}}
	default:
		return tmap[bool]{&sync.Map[string, bool]{}, func(s string) bool { return s == "x" }, func(v bool) string {
			if v {
				return "x"
			}
			return "nil"
		}}
	}
}

const kinds = 5 // with three values

type mapObj struct{ m amap }

func (this mapObj) Do(a vt.Act) (any, any) {
	var ret any
	if a.Op() == "unmarshal" {
		m := map[string]string{}
		for k, v := range a.Map("m") {
			m[k] = v.(string)
		}
		if err := this.m.FromJSON(m); err != nil {
			ret = err.Error()
		} else {
			ret = vt.J{"v": "nil", "ok": true}
		}
	} else {
		ret = this.m.Do(vt.J(a))
	}
	return ret, vt.J{"content": this.content(), "empty": this.m.Empty()}
}

// content looks in every way there is
func (this mapObj) content() any {
	keys := []string{"a", "b", "c"}
	c := this.m.Content()
	for name, f := range map[string]func(int, func(k, v string)) bool{"range": this.m.Range, "rangeErr": this.m.RangeErr} {
		c2 := map[string]string{}
		n := 0
		if f(0, func(k, v string) { c2[k] = v; n++ }) {
			return name + " stopped"
		}
		if vt.Canon(c2) != vt.Canon(c) || n != len(c) {
			return fmt.Sprintf("%s visited %v, copy is %v", name, c2, c)
		}
		for l := 1; l <= len(c); l++ {
			n := 0
			f(l, func(k, v string) { n++ })
			if n != l {
				return fmt.Sprintf("%s stopped after %d, not %d", name, n, l)
			}
		}
	}
	// through serialization and back
	var js map[string]any
	if err := json.Unmarshal([]byte(this.m.JSON()), &js); err != nil {
		return "serialized as " + this.m.JSON()
	}
	if len(js) != len(c) {
		return fmt.Sprintf("serialized %s, content %v", this.m.JSON(), c)
	}
	for k := range c {
		if _, ok := js[k]; !ok {
			return fmt.Sprintf("serialized %s, content %v", this.m.JSON(), c)
		}
	}
	out := vt.J{}
	for _, k := range keys {
		out[k] = "-"
		if v, ok := c[k]; ok {
			out[k] = v
		}
	}
	return out
}

func TestMapReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	for k := 0; k < kinds; k++ {
		g.Replay(fmt.Sprintf("map-replay-%d", k), vt.Scale(300, 6000), 50, func(init vt.Act) vt.Obj { return mapObj{newMap(k)} })
	}
	vt.Done()
}

// sets of every type of elements, on tokens
type aset interface {
	Add(string) bool
	Has(string) bool
	Remove(string) bool
	All() []string
}
type tset[T interface{ int | float64 | string }] struct {
	s    *lists.Set[T]
	to   func(string) T
	from func(T) string
}

func (this tset[T]) Add(k string) bool    { return this.s.Add(this.to(k)) }
func (this tset[T]) Has(k string) bool    { return this.s.Has(this.to(k)) }
func (this tset[T]) Remove(k string) bool { return this.s.Remove(this.to(k)) }
func (this tset[T]) All() (out []string) {
	for _, x := range this.s.All() {
		out = append(out, this.from(x))
	}
	return
}
func newSet(kind int) aset {
	id := func(s string) string { return s }
	switch kind {
	case 0:
		return tset[string]{&lists.Set[string]{}, id, id}
	case 1:
		return tset[int]{&lists.Set[int]{}, func(s string) int { return int(s[1] - '0') }, func(n int) string { return fmt.Sprintf("k%d", n) }}
	default:
		return tset[float64]{&lists.Set[float64]{}, func(s string) float64 { return float64(s[1]-'0') / 2 }, func(n float64) string { return fmt.Sprintf("k%v", n*2) }}
	}
}

func TestMapConc(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(600, 6000); i++ {
		seed := r.Int63()
		synctest.Test(t, func(t *testing.T) { mapConc(seed, i%3 == 0, tr) })
	}
	tr.Close()
	vt.Done()
}

func mapConc(seed int64, isSet bool, tr *vt.Traces) {
	r := rand.New(rand.NewSource(seed))
	vyield.Set(vyield.Bubble, seed, 0)
	defer vyield.Set(vyield.Off, 0, 0)
	h := &vt.Hist{}
	nkeys := 1 + r.Intn(3)
	m := newMap(r.Intn(kinds))
	set := newSet(r.Intn(3))
	done := make(chan bool)
	threads := 2 + r.Intn(2)
	for th := 0; th < threads; th++ {
		th := th
		rr := rand.New(rand.NewSource(r.Int63()))
		ops := []string{"get", "load", "store", "store", "gos", "los", "los", "del", "lad", "lad", "range", "rangeErr", "map", "isempty"}
		if isSet {
			ops = []string{"add", "add", "has", "remove", "remove", "all"}
		}
		go func() {
			for j := 0; j < 6; j++ {
				time.Sleep(time.Duration(rr.Intn(2000)))
				op := vt.J{"op": ops[rr.Intn(len(ops))], "k": fmt.Sprintf("k%d", rr.Intn(nkeys)), "v": []string{"nil", "x", "y"}[rr.Intn(3)]}
				switch op["op"] {
				case "range", "rangeErr", "map", "all", "isempty":
					id := fmt.Sprintf("%d.%d", th, j)
					h.Inv(th, vt.J{"op": "rbegin", "id": id}).Res("ok")
					seen := []vt.J{}
					stopped, limit := false, 0
					visit := func(k, v string) {
						seen = append(seen, vt.J{"k": k, "v": v})
						time.Sleep(time.Duration(rr.Intn(2) * rr.Intn(3000)))
					}
					switch op["op"] {
					case "isempty":
						e := m.Empty()
						h.Inv(th, vt.J{"op": "rend", "id": id, "empty": e}).Res("ok")
						continue
					case "range":
						limit = rr.Intn(3)
						stopped = m.Range(limit, visit)
					case "rangeErr":
						limit = rr.Intn(3)
						stopped = m.RangeErr(limit, visit)
					case "map":
						c := m.Content()
						ks := []string{}
						for k := range c {
							ks = append(ks, k)
						}
						sort.Strings(ks)
						for _, k := range ks {
							seen = append(seen, vt.J{"k": k, "v": c[k]})
						}
					case "all":
						for _, k := range set.All() {
							seen = append(seen, vt.J{"k": k, "v": "in"})
						}
					}
					h.Inv(th, vt.J{"op": "rend", "id": id, "seen": seen, "stopped": stopped, "limit": limit}).Res("ok")
					continue
				}
				c := h.Inv(th, op)
				k := op["k"].(string)
				switch op["op"] {
				case "add":
					c.Res(vt.J{"v": "nil", "ok": set.Add(k)})
				case "has":
					c.Res(vt.J{"v": "nil", "ok": set.Has(k)})
				case "remove":
					c.Res(vt.J{"v": "nil", "ok": set.Remove(k)})
				default:
					c.Res(m.Do(op))
				}
			}
			done <- true
		}()
	}
	for th := 0; th < threads; th++ {
		<-done
	}
	tr.Write(h)
}

func TestMapRace(t *testing.T) {
	for i := 0; i < vt.Scale(20, 200); i++ {
		m := newMap(i % kinds)
		s := newSet(i % 3)
		done := make(chan bool)
		for th := 0; th < 6; th++ {
			r := rand.New(rand.NewSource(int64(th) + vt.Seed()*1000))
			go func() {
				ops := []string{"get", "load", "store", "gos", "los", "del", "lad"}
				for j := 0; j < 300; j++ {
					k := fmt.Sprintf("k%d", r.Intn(3))
					m.Do(vt.J{"op": ops[r.Intn(len(ops))], "k": k, "v": "x"})
					s.Add(k)
					s.Has(k)
					s.Remove(k)
					if j%10 == 0 {
						m.Content()
						m.JSON()
						m.Empty()
						s.All()
					}
				}
				done <- true
			}()
		}
		for th := 0; th < 6; th++ {
			<-done
		}
	}
	vt.Done()
}
