package ctxs

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
)

type node struct {
	c      ctx.C
	cf     func(error)
	hidden bool
	id     string // real tracking id in force
}

type valKey string
type valKey2 int

type tree struct {
	nodes []*node
	toks  map[string]string // real identifier -> token
	t0    time.Time
	keys  map[string]any // value keys
	tagN  map[string]string
	bad   string
}

func newTree(r *rand.Rand) *tree {
	c := context.Background()
	t := &tree{toks: map[string]string{"": ""}, t0: time.Now()}
	t.nodes = []*node{{c: c}}
	// values and tags are apart, whatever they are called
	t.keys = [...]map[string]any{{"x": valKey("x"), "y": valKey2(1)}, {"x": "A", "y": valKey("a")}, {"x": valKey("b"), "y": " a"}, {"x": "x", "y": "X"},
		{"x": "Tracking-ID", "y": "tracking"}, {"x": 1, "y": int64(1)}}[r.Intn(6)]
	t.tagN = [...]map[string]string{{"a": "a", "b": "b"}, {"a": "a", "b": "A b\"\\\n"}, {"a": "B", "b": "b"}, {"a": "a", "b": "aa"}, {"a": "tracking-i", "b": "X "}}[r.Intn(5)]
	if r.Intn(6) == 0 {
		t.tagN["a"] = ""
	}
	return t
}

func (t *tree) add(c ctx.C, cf func(error)) *node {
	n := &node{c: c, cf: cf}
	t.nodes = append(t.nodes, n)
	return n
}

func (t *tree) fail(f string, args ...any) {
	if t.bad == "" {
		t.bad = fmt.Sprintf(f, args...)
	}
}

// a fresh identifier, of the last node added, whose parent identifier is given
func (t *tree) fresh(parent string) {
	n := len(t.nodes)
	id := ctx.GetTracking(t.nodes[n-1].c)
	if id == "" {
		t.fail("no tracking identifier after it was created")
		return
	}
	if tok, ok := t.toks[id]; ok {
		t.fail("identifier %q given again: it already was %s", id, tok)
		return
	}
	if parent != "" && !strings.HasPrefix(id, parent) {
		t.fail("span %q does not extend its parent %q", id, parent)
		return
	}
	t.toks[id] = fmt.Sprint("n", n)
}

func (t *tree) tracked(n int) string { return ctx.GetTracking(t.nodes[n].c) }

func (t *tree) look(n int) vt.J {
	c := t.nodes[n].c
	if t.nodes[n].hidden {
		return vt.J{"tags": []any{}, "x": "", "y": "", "id": "", "err": "", "cause": "", "dead": -1}
	}
	tags := []any{}
	err := ctx.RangeTag(c, func(k string, j ctx.JSON) error {
		var v string
		if err := json.Unmarshal(j, &v); err != nil {
			t.fail("tag %s is not valid json: %s", k, j)
		}
		if k == "tracking-id" {
			tok, ok := t.toks[v]
			if !ok {
				tok = "unknown " + v
			}
			v = tok
		} else {
			for a, b := range t.tagN {
				if b == k {
					k = a
					break
				}
			}
		}
		tags = append(tags, vt.J{"k": k, "v": v})
		return nil
	})
	if err != nil {
		t.fail("range: %v", err)
	}
	val := func(k string) string {
		v := c.Value(t.keys[k])
		if v == nil {
			return "none"
		}
		return v.(string)
	}
	id := ctx.GetTracking(c)
	tok, ok := t.toks[id]
	if !ok {
		tok = "unknown " + id
	}
	errs := func(err error) string {
		switch {
		case err == nil:
			return "none"
		case err == context.Canceled:
			return "canceled"
		case err == context.DeadlineExceeded:
			return "deadline"
		}
		return err.Error()
	}
	dead := -1
	if d, ok := c.Deadline(); ok {
		dead = int(d.Sub(t.t0) / time.Second)
	}
	isDone := false
	select {
	case <-c.Done():
		isDone = true
	default:
	}
	if isDone != (c.Err() != nil) {
		t.fail("node %d: done=%v but err=%v", n+1, isDone, c.Err())
	}
	return vt.J{"tags": tags, "x": val("x"), "y": val("y"), "id": tok, "err": errs(c.Err()), "cause": errs(ctx.Cause(c)), "dead": dead}
}

func (t *tree) derive(kind, k string, p int, sug bool) vt.J {
	c := t.nodes[p].c
	n := len(t.nodes) + 1
	v := fmt.Sprint("n", n)
	switch kind {
	case "tag":
		var val any = v
		switch n % 5 { // the ways to give a tag
		case 1:
			val = json.RawMessage(`"` + v + `"`)
		case 2:
			val = ctx.JSON(`"` + v + `"`)
		case 3:
			val = []byte(`"` + v + `"` + strings.Repeat(" ", n%2*70000))
		}
		t.add(ctx.WithTag(c, t.tagN[k], val), nil)
		return vt.J{"kind": "tag", "key": k, "v": v, "id": "", "dead": -1}
	case "value":
		t.add(ctx.WithValue(c, t.keys[k], v), nil)
		return vt.J{"kind": "value", "key": k, "v": v, "id": "", "dead": -1}
	case "cancellable":
		c, cf := ctx.WithCancel(c)
		t.add(c, func(err error) {
			if err == nil {
				cf.Exit()
			} else {
				cf(err)
			}
		})
		return vt.J{"kind": "cancel", "key": "", "v": "", "id": "", "dead": -1}
	case "detach":
		t.add(ctx.Detach(c), nil)
		return vt.J{"kind": "detach", "key": "", "v": "", "id": "", "dead": -1}
	case "track":
		sid := ""
		if sug {
			sid = fmt.Sprint("sug", n)
			t.toks[sid] = sid
			t.add(ctx.WithTracking(c, sid), nil)
			return vt.J{"kind": "track", "key": "", "v": "", "id": sid, "dead": -1}
		}
		t.add(ctx.WithTracking(c, ""), nil)
		t.fresh("")
		return vt.J{"kind": "track", "key": "", "v": "", "id": v, "dead": -1}
	case "span":
		parent := ctx.GetTracking(c)
		c, cf := ctx.Span(c, "name")
		t.add(nil, cf)
		t.nodes[len(t.nodes)-1].hidden = true
		t.add(c, nil)
		t.fresh(parent)
	}
	return nil
}

func (t *tree) Do(a vt.Act) (any, any) {
	switch a.Op() {
	case "cancel":
		var err error
		if a.Str("cause") == "cause" {
			err = errors.New(fmt.Sprint("c", a.Int("n")))
		}
		t.nodes[a.Int("n")-1].cf(err)
	default:
		t.derive(a.Op(), a.Str("k"), a.Int("p")-1, a.Bool("sug"))
	}
	obs := []any{}
	for i := range t.nodes {
		obs = append(obs, t.look(i))
	}
	if t.bad != "" {
		return t.bad, obs
	}
	return "ok", obs
}

func (t *tree) Close() {
	for _, n := range t.nodes {
		if n.cf != nil {
			n.cf(nil)
		}
	}
}

func TestTreeReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	r := rand.New(rand.NewSource(vt.Seed()))
	var m sync.Mutex
	g.Replay("context-tree", vt.Scale(1000, 20000), 8, func(init vt.Act) vt.Obj {
		m.Lock()
		defer m.Unlock()
		return newTree(r)
	})
	vt.Done()
}

// long histories in virtual time, with deadlines
func TestTreeTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(150, 2000); i++ {
		seed := r.Int63()
		synctest.Test(t, func(t *testing.T) { history(seed, tr) })
	}
	tr.Close()
	vt.Done()
}

func history(seed int64, tr *vt.Traces) {
	r := rand.New(rand.NewSource(seed))
	t := newTree(r)
	defer t.Close()
	var evs []vt.J
	now := func() int { return int(time.Since(t.t0) / time.Second) }
	pick := func() int {
		for {
			n := r.Intn(len(t.nodes))
			if r.Intn(3) == 0 {
				n = len(t.nodes) - 1 // go deep
			}
			if !t.nodes[n].hidden {
				return n
			}
		}
	}
	looks := func() {
		synctest.Wait()
		k := 1 + r.Intn(3)
		if r.Intn(8) == 0 {
			k = len(t.nodes)
		}
		for j := 0; j < k; j++ {
			n := pick()
			evs = append(evs, vt.J{"k": "look", "n": n + 1, "got": t.look(n), "at": now()})
		}
	}
	for i := 0; i < 45; i++ {
		p := pick()
		if r.Intn(4) == 0 {
			time.Sleep(time.Duration(1+r.Intn(3)) * time.Second)
			synctest.Wait()
		}
		switch kind := []string{"tag", "tag", "value", "cancellable", "detach", "track", "span", "span", "timeout", "deadline", "cancel", "cancel"}[r.Intn(12)]; kind {
		case "cancel":
			var can []int
			for n := range t.nodes {
				if t.nodes[n].cf != nil {
					can = append(can, n)
				}
			}
			if len(can) == 0 {
				continue
			}
			n := can[r.Intn(len(can))]
			var err error
			cause := "canceled"
			if r.Intn(2) == 0 {
				cause = fmt.Sprint("c", len(evs))
				err = errors.New(cause)
			}
			if t.nodes[n].id == "timeout" {
				cause, err = "canceled", nil
			}
			t.nodes[n].cf(err)
			evs = append(evs, vt.J{"k": "cancel", "n": n + 1, "cause": cause, "at": now()})
		case "timeout", "deadline":
			d := 1 + r.Intn(12)
			var c ctx.C
			var cf func()
			at := now()
			if kind == "timeout" {
				c, cf = ctx.WithTimeout(t.nodes[p].c, time.Duration(d)*time.Second)
			} else {
				c, cf = ctx.WithDeadline(t.nodes[p].c, time.Now().Add(time.Duration(d)*time.Second))
			}
			t.add(c, func(error) { cf() }).id = "timeout"
			evs = append(evs, vt.J{"k": "derive", "p": p + 1, "kind": "cancel", "key": "", "v": "", "id": "", "dead": at + d, "at": at})
		case "span":
			t.derive("span", "", p, false)
			evs = append(evs, vt.J{"k": "span", "p": p + 1, "at": now()})
		default:
			k := []string{"a", "b"}[r.Intn(2)]
			if kind == "value" {
				k = []string{"x", "y"}[r.Intn(2)]
			}
			ev := t.derive(kind, k, p, r.Intn(2) == 0)
			ev["k"], ev["p"], ev["at"] = "derive", p+1, now()
			evs = append(evs, ev)
		}
		looks()
	}
	if t.bad != "" {
		vt.Violation("context-tree", t.bad, evs)
	}
	tr.Write(&vt.Hist{Ev: evs})
}

// what the graph does not say: callbacks that stop, spans opened concurrently
func TestTreeConc(t *testing.T) {
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(300, 3000); i++ {
		var c ctx.C = context.Background()
		n := 1 + r.Intn(6)
		for j := 0; j < n; j++ {
			c = ctx.WithTag(c, fmt.Sprint("k", j%3), j)
			switch r.Intn(4) {
			case 0:
				c = ctx.Detach(c)
			case 1:
				c, _ = ctx.WithCancel(c)
			case 2:
				c = ctx.WithValue(c, valKey("x"), 1)
			}
		}
		for stop := 0; stop < n; stop++ {
			var seen []int
			e := errors.New("stop")
			err := ctx.RangeTag(c, func(k string, j ctx.JSON) error {
				var v int
				_ = json.Unmarshal(j, &v)
				seen = append(seen, v)
				if v == stop {
					return e
				}
				return nil
			})
			ok := err == e && len(seen) == stop+1
			for j, v := range seen {
				ok = ok && v == j
			}
			if !ok {
				vt.Violation("range-stop", fmt.Sprintf("callback failed at tag %d of %d: saw %v, got error %v", stop, n, seen, err), nil)
			}
		}
	}
	// many spans, of one context and one in the other
	for round := 0; round < 4; round++ {
		root := ctx.WithTracking(context.Background(), []string{"", "root"}[round%2])
		c := root
		seen := map[string]bool{ctx.GetTracking(root): true}
		for n, most := 0, []int{70000, 70000, 300, 300}[round]; n < most; n++ {
			s, cf := ctx.Span(c, "x")
			id, parent := ctx.GetTracking(s), ctx.GetTracking(c)
			if seen[id] || !strings.HasPrefix(id, parent) || id == parent {
				vt.Violation("span-many", fmt.Sprintf("span %d of %q: %q was there or does not extend it", n+1, parent, id), nil)
				break
			}
			seen[id] = true
			if round > 1 {
				c = s
			} else {
				cf(nil)
			}
		}
	}
	for round := 0; round < vt.Scale(60, 600); round++ {
		root := ctx.WithTracking(context.Background(), []string{"", "root"}[round%2])
		id := ctx.GetTracking(root)
		var m sync.Mutex
		seen := map[string]bool{id: true}
		var wg sync.WaitGroup
		var open func(c ctx.C, depth int)
		open = func(c ctx.C, depth int) {
			defer wg.Done()
			for j := 0; j < 12; j++ {
				parent := ctx.GetTracking(c)
				s, cf := ctx.Span(c, "x")
				sid := ctx.GetTracking(s)
				m.Lock()
				if seen[sid] {
					vt.Violation("span-unique", fmt.Sprintf("span identifier %q given twice under %q", sid, id), nil)
				}
				seen[sid] = true
				m.Unlock()
				if !strings.HasPrefix(sid, parent) || sid == parent {
					vt.Violation("span-extends", fmt.Sprintf("span %q does not extend %q", sid, parent), nil)
				}
				if ctx.GetTracking(c) != parent {
					vt.Violation("span-parent", "opening a span changed its parent", nil)
				}
				if depth < 2 && j%4 == 0 {
					wg.Add(1)
					switch j {
					case 4:
						s = ctx.Detach(s)
					case 8:
						s = ctx.WithTag(s, "x", 1)
					}
					go open(s, depth+1)
				}
				if j == 11 {
					cf(errors.New("x"))
					if s.Err() == nil || c.Err() != nil {
						vt.Violation("span-cancel", "cancelling a span must cancel it and only it", nil)
					}
				}
				if j%3 == 0 {
					runtime.Gosched()
				}
			}
		}
		for th := 0; th < 4; th++ {
			wg.Add(1)
			go open(root, 0)
		}
		wg.Wait()
		vt.Stat("spans", len(seen)-1)
	}
	vt.Done()
}
