// Package vt is what the drivers share: seeds, result reporting, replay of specification
// graphs into real objects, and recording of histories for trace validation.
package vt

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type J = map[string]any

func Seed() int64 { return int64(EnvInt("VERIF_SEED", 1)) }

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Scale returns q in the quick tier and t in the thorough one
func Scale(q, t int) int {
	if Thorough() {
		return t
	}
	return q
}

func EnvInt(k string, def int) int {
	if i, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return i
	}
	return def
}

// ------------------------------------------------------------------ results

var (
	resM sync.Mutex
	nVio = map[string]int{}
)

func emit(v any) {
	f := os.Getenv("V_OUT")
	j, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	resM.Lock()
	defer resM.Unlock()
	if f == "" {
		fmt.Println(string(j))
		return
	}
	w, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	defer w.Close()
	_, _ = w.Write(append(j, '\n'))
}

// Violation reports that the code under test disagrees with the specification. sig identifies
// the kind of failure (used for known findings and to avoid repeating ourselves).
func Violation(sig, msg string, replay any) {
	resM.Lock()
	nVio[sig]++
	n := nVio[sig]
	resM.Unlock()
	if n > 3 {
		return
	}
	emit(J{"kind": "violation", "sig": sig, "msg": msg, "replay": replay})
}

// Stat adds to a counter of the evidence
func Stat(k string, n int) { emit(J{"kind": "stat", "k": k, "n": n}) }

// Sample keeps an example for the evidence
func Sample(v any) { emit(J{"kind": "sample", "v": v}) }

// Done must be the last thing a driver reports: without it the run is considered crashed
func Done() { emit(J{"kind": "done"}) }

// Canon is the canonical JSON of v
func Canon(v any) string {
	j, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var x any
	d := json.NewDecoder(bytes.NewReader(j))
	d.UseNumber()
	if err := d.Decode(&x); err != nil {
		panic(err)
	}
	j, _ = json.Marshal(x)
	return string(j)
}

// ------------------------------------------------------------------ spec graph replay

// Act is the label of a transition: op, its arguments, and what must be observed (ret, obs)
type Act map[string]any

func (a Act) Op() string          { return a.Str("op") }
func (a Act) Str(k string) string { s, _ := a[k].(string); return s }
func (a Act) Bool(k string) bool  { b, _ := a[k].(bool); return b }
func (a Act) Int(k string) int {
	switch n := a[k].(type) {
	case json.Number:
		i, _ := n.Int64()
		return int(i)
	case float64:
		return int(n)
	case int:
		return n
	}
	return 0
}
func (a Act) List(k string) []any { l, _ := a[k].([]any); return l }
func (a Act) Map(k string) Act    { m, _ := a[k].(map[string]any); return m }

type edge struct {
	to  int
	act Act
	in  string // canonical op+args
	out string // canonical ret+obs
}

type Graph struct {
	ids    map[string]int
	states []string
	adj    [][]edge
	inits  []int
	Edges  int
	Par    int // walks at the same time, 0: one per CPU
}

// Obj is a real object bound to the specification
type Obj interface {
	// Do executes the operation and returns what was observed: ret and obs (obs may be absent)
	Do(a Act) (ret any, obs any)
}

// LoadGraph reads the transitions printed by TLC: {"f":state,"t":state,"a":label,"l":level}
func LoadGraph(file string) (*Graph, error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	g := &Graph{ids: map[string]int{}}
	raw := map[string]int{}
	id := func(r json.RawMessage) int {
		if i, ok := raw[string(r)]; ok {
			return i
		}
		s := Canon(r)
		i, ok := g.ids[s]
		if !ok {
			i = len(g.states)
			g.ids[s] = i
			g.states = append(g.states, s)
			g.adj = append(g.adj, nil)
		}
		raw[string(r)] = i
		return i
	}
	seen := map[string]bool{}
	isInit := map[int]bool{}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var l struct {
			F, T, A json.RawMessage
			L       int
		}
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			return nil, fmt.Errorf("%v: %s", err, sc.Text())
		}
		from, to := id(l.F), id(l.T)
		key := fmt.Sprintf("%d %d %s", from, to, l.A)
		if l.L == 1 && !isInit[from] {
			isInit[from] = true
			g.inits = append(g.inits, from)
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		var a Act
		d := json.NewDecoder(bytes.NewReader(l.A))
		d.UseNumber()
		if err := d.Decode(&a); err != nil {
			return nil, err
		}
		in := Act{}
		for k, v := range a {
			if k != "ret" && k != "obs" {
				in[k] = v
			}
		}
		g.adj[from] = append(g.adj[from], edge{to, a, Canon(in), Canon([]any{a["ret"], a["obs"]})})
		g.Edges++
	}
	for i := range g.adj { // TLC's order depends on nothing but keep it stable anyway
		sort.SliceStable(g.adj[i], func(a, b int) bool { return g.adj[i][a].in < g.adj[i][b].in })
	}
	sort.Slice(g.inits, func(a, b int) bool { return g.states[g.inits[a]] < g.states[g.inits[b]] })
	Stat("graph_states", len(g.states))
	return g, sc.Err()
}

type step struct {
	from int
	e    int
}

// coverWalks returns walks from initial states that together use every edge
func (g *Graph) coverWalks(maxLen int) [][]step {
	covered := make([][]bool, len(g.adj))
	left := 0
	for i := range g.adj {
		covered[i] = make([]bool, len(g.adj[i]))
		left += len(g.adj[i])
	}
	// next uncovered edge from s: BFS, returns the steps to and including it
	find := func(s int) []step {
		type q struct {
			s    int
			prev int
			st   step
		}
		queue := []q{{s: s, prev: -1}}
		seen := map[int]bool{s: true}
		for i := 0; i < len(queue); i++ {
			cur := queue[i]
			for j := range g.adj[cur.s] {
				if !covered[cur.s][j] {
					path := []step{{cur.s, j}}
					for p := i; queue[p].prev >= 0; p = queue[p].prev {
						path = append([]step{queue[p].st}, path...)
					}
					return path
				}
			}
			for j, e := range g.adj[cur.s] {
				if !seen[e.to] {
					seen[e.to] = true
					queue = append(queue, q{e.to, i, step{cur.s, j}})
				}
			}
		}
		return nil
	}
	var walks [][]step
	for _, init := range g.inits {
		for {
			var w []step
			s := init
			for len(w) < maxLen {
				p := find(s)
				if p == nil || (len(w) > 0 && len(p) > 12) {
					break
				}
				for _, st := range p {
					if !covered[st.from][st.e] {
						covered[st.from][st.e] = true
						left--
					}
				}
				w = append(w, p...)
				s = g.adj[p[len(p)-1].from][p[len(p)-1].e].to
			}
			if len(w) == 0 {
				break
			}
			walks = append(walks, w)
		}
	}
	return walks
}

// Replay drives real objects with behaviours of the specification: walks that cover every
// transition of the graph, then random walks; after each step what the object answered must
// be one of the answers the specification allows in (one of) its current state(s).
func (g *Graph) Replay(name string, random, rlen int, mk func(init Act) Obj) {
	walks := g.coverWalks(60)
	covered := len(walks)
	type job struct {
		walk []step
		seed int64
	}
	jobs := make(chan job)
	var wg sync.WaitGroup
	var steps, bad int64
	var first time.Time
	var m sync.Mutex
	samples := 0
	workers := runtime.NumCPU()
	if g.Par > 0 {
		workers = g.Par
	}
	if s, ok := interface{}(mk).(interface{ Serial() bool }); ok && s.Serial() {
		workers = 1
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				m.Lock()
				late := bad > 0 && !Thorough() && time.Since(first) > 100*time.Second
				m.Unlock()
				if late { // enough is known to be wrong
					continue
				}
				n, msg, hist := g.run(j.walk, j.seed, rlen, mk)
				m.Lock()
				steps += int64(n)
				if msg != "" {
					if bad == 0 {
						first = time.Now()
					}
					bad++
					m.Unlock()
					Violation(name, msg, hist)
					m.Lock()
				} else if samples < 2 && len(hist) > 3 {
					samples++
					if len(hist) > 12 {
						hist = hist[:12]
					}
					Sample(J{"replayed": name, "prefix": hist})
				}
				m.Unlock()
			}
		}()
	}
	for _, w := range walks {
		jobs <- job{walk: w}
	}
	r := rand.New(rand.NewSource(Seed()))
	for i := 0; i < random; i++ {
		jobs <- job{seed: r.Int63()}
	}
	close(jobs)
	wg.Wait()
	Stat("cover_walks", covered)
	Stat("random_walks", random)
	Stat("traces_validated_against_impl", covered+random)
	Stat("replayed_steps", int(steps))
	Stat("graph_edges", g.Edges)
}

func (g *Graph) run(walk []step, seed int64, rlen int, mk func(Act) Obj) (n int, msg string, hist []J) {
	var init int
	var r *rand.Rand
	if walk != nil {
		init = walk[0].from
	} else {
		r = rand.New(rand.NewSource(seed))
		init = g.inits[r.Intn(len(g.inits))]
	}
	var ia Act
	d := json.NewDecoder(bytes.NewReader([]byte(g.states[init])))
	d.UseNumber()
	_ = d.Decode(&ia)
	hist = append(hist, J{"init": ia})
	var ob Obj
	perr := protect(func() { ob = mk(ia) })
	if perr != "" {
		return 0, "panic while creating the object: " + perr, hist
	}
	if c, ok := ob.(interface{ Close() }); ok {
		defer c.Close()
	}
	cur := map[int]bool{init: true}
	for i := 0; ; i++ {
		var e edge
		if walk != nil {
			if i >= len(walk) {
				return n, "", hist
			}
			// with a non deterministic specification the walk may become impossible
			if !cur[walk[i].from] {
				return n, "", hist
			}
			e = g.adj[walk[i].from][walk[i].e]
		} else {
			if i >= rlen {
				return n, "", hist
			}
			var s int
			k := r.Intn(len(cur))
			for x := range sortedKeys(cur) {
				if k == 0 {
					s = sortedKeys(cur)[x]
					break
				}
				k--
			}
			if len(g.adj[s]) == 0 {
				return n, "", hist
			}
			e = g.adj[s][r.Intn(len(g.adj[s]))]
		}
		var ret, obs any
		perr := protect(func() { ret, obs = ob.Do(e.act) })
		n++
		if perr != "" {
			hist = append(hist, J{"do": e.act, "panic": perr})
			return n, fmt.Sprintf("panic in %s: %s", e.in, strings.SplitN(perr, "\n", 2)[0]), hist
		}
		got := Canon([]any{ret, obs})
		hist = append(hist, J{"do": e.act, "got": ret, "obs": obs})
		next := map[int]bool{}
		var want []string
		for s := range cur {
			for _, x := range g.adj[s] {
				if x.in == e.in {
					if x.out == got {
						next[x.to] = true
					} else {
						want = append(want, x.out)
					}
				}
			}
		}
		if len(next) == 0 {
			sort.Strings(want)
			return n, fmt.Sprintf("after %d steps, %s answered %s, the specification allows only %v", n-1, e.in, got, want), hist
		}
		cur = next
	}
}

func sortedKeys(m map[int]bool) []int {
	out := make([]int, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func protect(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			msg = fmt.Sprintf("%v\n%s", r, buf)
		}
	}()
	f()
	return ""
}

// Protect runs f and returns the panic message, if any
func Protect(f func()) string { return protect(f) }

// ------------------------------------------------------------------ histories

// Hist records a concurrent history; its lines are what the trace specification reads
type Hist struct {
	m    sync.Mutex
	Init any
	Ev   []J
}

// Inv records the invocation of op by thread t; the op may be completed until Res is called
func (h *Hist) Inv(t int, op J) *Call {
	h.m.Lock()
	defer h.m.Unlock()
	e := J{"k": "inv", "t": t, "op": op}
	h.Ev = append(h.Ev, e)
	return &Call{h, t, e, op}
}

type Call struct {
	h  *Hist
	t  int
	e  J
	Op J
}

// Res records the response
func (c *Call) Res(ret any) {
	c.h.m.Lock()
	defer c.h.m.Unlock()
	c.e["ret"] = ret
	c.h.Ev = append(c.h.Ev, J{"k": "res", "t": c.t})
}

// Add appends a plain event
func (h *Hist) Add(e J) {
	h.m.Lock()
	defer h.m.Unlock()
	h.Ev = append(h.Ev, e)
}

type Traces struct {
	m sync.Mutex
	w *bufio.Writer
	f *os.File
	N int
	k map[string]bool
}

// OpenTraces opens the trace file named by the environment variable
func OpenTraces(env string) *Traces {
	f, err := os.Create(os.Getenv(env))
	if err != nil {
		panic(err)
	}
	return &Traces{w: bufio.NewWriter(f), f: f, k: map[string]bool{}}
}

// Write adds a history, unless an identical one was already recorded
func (t *Traces) Write(h *Hist) {
	if len(h.Ev) == 0 {
		return
	}
	init := h.Init
	if init == nil {
		init = J{"x": 0}
	}
	j, err := json.Marshal(J{"init": init, "ev": h.Ev})
	if err != nil {
		panic(err)
	}
	t.m.Lock()
	defer t.m.Unlock()
	t.N++
	if t.k[string(j)] {
		return
	}
	t.k[string(j)] = true
	_, _ = t.w.Write(j)
	_ = t.w.WriteByte('\n')
}

func (t *Traces) Close() {
	_ = t.w.Flush()
	_ = t.f.Close()
	Stat("histories_recorded", t.N)
	Stat("histories_distinct", len(t.k))
}

// Watchdog ends the process with a violation if f does not finish in (real) time
func Watchdog(d time.Duration, sig string, ctx func() any) (stop func()) {
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(d):
			buf := make([]byte, 1<<18)
			buf = buf[:runtime.Stack(buf, true)]
			var x any
			if ctx != nil {
				x = ctx()
			}
			Violation(sig, "no progress: the operation never returned", J{"context": x, "stacks": string(buf)})
			Done()
			os.Exit(3)
		}
	}()
	return func() { close(done) }
}

// Main wraps a driver test: Done is reported only if the body returned
func Main(t *testing.T, f func(t *testing.T)) {
	f(t)
	Done()
}
