package coll

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"testing"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/utils"
	"github.com/Aize-Public/forego/utils/lists"
	"github.com/Aize-Public/forego/utils/maps"
)

// ---------------------------------------------------------------- ordered map

type ordAPI interface {
	do(op, k string, v, n int) any
	look(keys []string) any
}

type ord[K comparable, V any] struct {
	m    *utils.OrderedMap[K, V]
	key  func(string) K
	name func(K) string
	val  func(int) V
	num  func(V) int
}

func newOrd[K comparable, V any](key func(string) K, val func(int) V, num func(V) int) *ord[K, V] {
	o := &ord[K, V]{m: utils.NewOrderedMap[K, V](), key: key, val: val, num: num}
	names := map[K]string{}
	o.key = func(s string) K { k := key(s); names[k] = s; return k }
	o.name = func(k K) string { return names[k] }
	return o
}

func mkOrd(kind int) ordAPI {
	switch kind % 4 {
	case 0:
		return newOrd(func(s string) string { return s }, func(i int) int { return i }, func(i int) int { return i })
	case 1: // a nil pointer is a value as well, and keys may be the empty string
		x := 7
		return newOrd(func(s string) string {
			if s == "a" || s == "k1" {
				return ""
			}
			return s
		}, func(i int) *int {
			if i == 1 {
				return nil
			}
			y := x + i
			return &y
		}, func(p *int) int {
			if p == nil {
				return 1
			}
			return *p - x
		})
	case 2: // the zero value
		return newOrd(func(s string) any { return [1]string{s} }, func(i int) any {
			if i == 1 {
				return nil
			}
			return i
		}, func(x any) int {
			if x == nil {
				return 1
			}
			return x.(int)
		})
	default:
		return newOrd(func(s string) int { return int(s[len(s)-1]) - 'c' }, func(i int) int { return i - 1 }, func(i int) int { return i + 1 })
	}
}

var errStop = errors.New("stop")

func (o *ord[K, V]) entry(e utils.MapEntry[V]) vt.J {
	if !e.Found {
		return vt.J{"found": false, "v": 0}
	}
	return vt.J{"found": true, "v": o.num(e.Value)}
}

func (o *ord[K, V]) do(op, k string, v, n int) any {
	switch op {
	case "put":
		return o.entry(o.m.Put(o.key(k), o.val(v)))
	case "del":
		return o.entry(o.m.Delete(o.key(k)))
	case "range":
		saw := []vt.J{}
		err := o.m.Range(func(k K, v V) error {
			saw = append(saw, vt.J{"k": o.name(k), "v": o.num(v)})
			if n > 0 && len(saw) == n {
				return errStop
			}
			return nil
		})
		if err != nil && err != errStop {
			return err.Error()
		}
		return vt.J{"saw": saw, "err": err != nil}
	}
	return nil
}

func (o *ord[K, V]) look(keys []string) any {
	ks, vs, pairs := []string{}, []int{}, []vt.J{}
	for _, k := range o.m.Keys() {
		ks = append(ks, o.name(k))
	}
	for _, v := range o.m.Values() {
		vs = append(vs, o.num(v))
	}
	_ = o.m.Range(func(k K, v V) error {
		pairs = append(pairs, vt.J{"k": o.name(k), "v": o.num(v)})
		return nil
	})
	get := vt.J{}
	for _, k := range keys {
		get[k] = o.entry(o.m.Get(o.key(k)))
	}
	return vt.J{"len": o.m.Len(), "keys": ks, "vals": vs, "pairs": pairs, "get": get}
}

type ordObj struct{ ordAPI }

func (o ordObj) Do(a vt.Act) (any, any) {
	return o.do(a.Op(), a.Str("k"), a.Int("v"), a.Int("n")), o.look([]string{"a", "b", "c", "d"})
}

func TestOrdMapReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	var m sync.Mutex
	g.Replay("ordered-map", vt.Scale(3000, 30000), 60, func(vt.Act) vt.Obj {
		m.Lock()
		defer m.Unlock()
		n++
		return ordObj{mkOrd(n)}
	})
	vt.Done()
}

func TestOrdMapTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(100, 1500); i++ {
		o := mkOrd(i)
		h := &vt.Hist{}
		nk := 3 + r.Intn(6)
		dels := 1 + r.Intn(8)
		for j := 0; j < 150; j++ {
			k, v, n := fmt.Sprint("k", r.Intn(nk)), 1+r.Intn(3), r.Intn(nk+1)
			op := "put"
			if x := r.Intn(12); x < dels {
				op = "del"
			} else if x == 11 {
				op = "range"
			} else if x == 10 {
				h.Ev = append(h.Ev, vt.J{"op": "look", "ret": o.look([]string{"k1", "k5"})})
				continue
			}
			h.Ev = append(h.Ev, vt.J{"op": op, "key": k, "v": v, "n": n, "ret": o.do(op, k, v, n)})
		}
		h.Ev = append(h.Ev, vt.J{"op": "look", "ret": o.look([]string{"k1", "k5"})})
		tr.Write(h)
	}
	tr.Close()
	vt.Done()
}

// ---------------------------------------------------------------- lists

type list struct {
	l   []int
	all []int // the array behind it
	off int
}

// mut runs f on a part of a longer array, whose other elements must not change
func (o *list) window(f func(l []int)) string {
	const guard = -77
	a := make([]int, len(o.l)+4)
	for i := range a {
		a[i] = guard - i
	}
	copy(a[2:], o.l)
	f(a[2 : 2+len(o.l)])
	for i := range a {
		if (i < 2 || i >= 2+len(o.l)) && a[i] != guard-i {
			return fmt.Sprintf("the element outside of the list at %d changed", i)
		}
	}
	o.l = append([]int{}, a[2:2+len(o.l)]...)
	return ""
}

func score(x int) int { return x % 3 }

func (o *list) Do(a vt.Act) (any, any) {
	bad := ""
	before := append([]int{}, o.l...)
	x := a.Int("x")
	switch a.Op() {
	case "append":
		o.l = append(o.l[:len(o.l):len(o.l)], x)
	case "contains":
		return lists.Contains(o.l, x), nil
	case "reverse":
		bad = o.window(func(l []int) { lists.Reverse(l) })
	case "sort":
		bad = o.window(func(l []int) { lists.Sort(l, func(a, b int) bool { return a < b }) })
	case "sortdesc":
		bad = o.window(func(l []int) { lists.Sort(l, func(a, b int) bool { return a > b }) })
	case "sortfunc":
		bad = o.window(func(l []int) { lists.SortFunc(l, score) })
	case "copy":
		c := lists.Copy(o.l)
		old := o.l
		for i := range old {
			old[i] = -9 // a copy is not disturbed by the original
		}
		o.l = c
	case "addunique":
		in := o.l[:len(o.l):len(o.l)]
		o.l = append([]int{}, lists.AddUnique(in, x)...)
		for i := range in {
			if in[i] != before[i] {
				bad = "the original list changed"
			}
		}
	}
	if bad != "" {
		return bad, nil
	}
	if o.l == nil {
		o.l = []int{}
	}
	return o.l, nil
}

func TestListsReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Replay("lists", vt.Scale(2000, 20000), 40, func(vt.Act) vt.Obj { return &list{l: []int{}} })
	vt.Done()
}

func cp(l []int) []int { return append([]int{}, l...) }

func TestListsTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	one := func(e vt.J) {
		h := &vt.Hist{Ev: []vt.J{e}}
		tr.Write(h)
	}
	split := func(n, max int) {
		in := make([]int, n)
		for i := range in {
			in[i] = i + 1
		}
		var parts [][]int
		if msg := vt.Protect(func() { parts = lists.Split(in, max) }); msg != "" {
			vt.Violation("split", fmt.Sprintf("splitting %d elements by %d: %s", n, max, msg), nil)
			return
		}
		if parts == nil {
			parts = [][]int{}
		}
		out := make([][]int, len(parts))
		for i := range parts {
			out[i] = cp(parts[i])
		}
		one(vt.J{"op": "split", "in": in, "max": max, "out": out})
		flat := lists.Flatten(parts)
		one(vt.J{"op": "flatten", "in": out, "out": cp(flat)})
		for i := range flat {
			flat[i] = -1 // a list of its own
		}
		flat = append(flat, -1)
		for i := range in {
			if in[i] != i+1 {
				vt.Violation("flatten", fmt.Sprintf("changing the flattened list changes the %d elements split by %d", n, max), nil)
				return
			}
		}
	}
	N := vt.Scale(16, 40)
	for n := 0; n <= N; n++ {
		for max := 1; max <= N+1; max++ {
			split(n, max)
		}
	}
	for i := 0; i < vt.Scale(40, 400); i++ {
		split(r.Intn(200), 1+r.Intn(60))
	}
	split(5, 1<<30)
	for n := 0; n <= vt.Scale(6, 7); n++ {
		for k := 0; k < 2; k++ {
			all := r.Perm(n + 2)
			in := cp(all)
			l := in[1 : 1+n]
			orig := cp(l)
			out := [][]int{}
			next := lists.Permute(l)
			for next() {
				out = append(out, cp(l))
				if len(out) > 6000 {
					break
				}
			}
			if next() || next() {
				vt.Violation("permute", fmt.Sprintf("%d elements: more after the end", n), nil)
			}
			if in[0] != all[0] || in[n+1] != all[n+1] {
				vt.Violation("permute", "elements outside of the list changed", nil)
			}
			one(vt.J{"op": "perm", "in": orig, "out": out})
		}
	}
	// bigger ones without TLC: the same predicate
	for n := 7; n <= vt.Scale(8, 9); n++ {
		l := r.Perm(n)
		seen := map[string]bool{}
		prev := cp(l)
		next := lists.Permute(l)
		for ok := next(); ok; ok = next() {
			var diff []int
			for i := range l {
				if l[i] != prev[i] {
					diff = append(diff, i)
				}
			}
			k := fmt.Sprint(l)
			if seen[k] || (len(seen) == 0) != (len(diff) == 0) || len(diff) != 0 && (len(diff) != 2 || diff[1] != diff[0]+1) {
				vt.Violation("permute", fmt.Sprintf("%v after %v", l, prev), nil)
				break
			}
			seen[k] = true
			prev = cp(l)
		}
		f := 1
		for i := 2; i <= n; i++ {
			f *= i
		}
		if len(seen) != f {
			vt.Violation("permute", fmt.Sprintf("%d arrangements of %d elements", len(seen), n), nil)
		}
		vt.Stat("arrangements", len(seen))
	}
	for i := 0; i < vt.Scale(300, 3000); i++ {
		n := r.Intn(30)
		in := make([]int, n)
		for j := range in {
			in[j] = r.Intn(1 + r.Intn(20))
		}
		o := &list{l: cp(in)}
		op := []string{"reverse", "copy", "addunique", "sort", "sortfunc"}[r.Intn(5)]
		x := r.Intn(20)
		ret, _ := o.Do(vt.Act{"op": op, "x": x})
		if s, ok := ret.(string); ok {
			vt.Violation("lists", s, in)
			continue
		}
		one(vt.J{"op": op, "in": in, "x": x, "out": ret})
		m := map[int]int{}
		pin, pout := []vt.J{}, []vt.J{}
		for j := 0; j < n; j++ {
			m[in[j]] = j
		}
		for k, v := range m {
			pin = append(pin, vt.J{"k": k, "v": v})
		}
		ps := maps.Pairs(m)
		ks, vs := ps.Keys(), ps.Values()
		for j := range ks {
			if j < len(vs) {
				pout = append(pout, vt.J{"k": ks[j], "v": vs[j]})
			}
		}
		one(vt.J{"op": "pairs", "in": pin, "out": pout})
		// values without anything in them
		ma := map[int]any{}
		for k, v := range m {
			ma[k] = []any{v, nil, any(nil), (*int)(nil)}[(k+v)%4]
		}
		pa := maps.Pairs(ma)
		for j, k := range pa.Keys() {
			if v, ok := ma[k]; !ok || len(pa) != len(m) || pa.Values()[j] != v {
				vt.Violation("pairs", fmt.Sprintf("the pairs of %v are %v", ma, pa), nil)
				return
			}
		}
		if len(pa) != len(m) {
			vt.Violation("pairs", fmt.Sprintf("the pairs of %v are %v", ma, pa), nil)
			return
		}
	}
	tr.Close()
	vt.Done()
}
