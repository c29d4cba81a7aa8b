package prom

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/utils/prom"
	"github.com/Aize-Public/forego/verifshim/vyield"
)

// ---------------------------------------------------------------- the text format

type label struct{ k, v string }
type sample struct {
	name   string
	labels []label
	val    float64
}
type family struct {
	name, desc, typ string
	samples         []sample
}

// parse reads the Prometheus text format, strictly
func parse(s string) (out []*family, err error) {
	if s != "" && !strings.HasSuffix(s, "\n") {
		return nil, fmt.Errorf("no newline at the end")
	}
	s = strings.TrimSuffix(s, "\n")
	if s == "" {
		return nil, nil
	}
	var cur *family
	seen := map[string]bool{}
	for _, l := range strings.Split(s, "\n") {
		switch {
		case strings.HasPrefix(l, "# HELP "):
			name, desc, _ := strings.Cut(l[7:], " ")
			if seen[name] {
				return nil, fmt.Errorf("second header for %q", name)
			}
			seen[name] = true
			cur = &family{name: name, desc: desc}
			out = append(out, cur)
		case strings.HasPrefix(l, "# TYPE "):
			name, typ, _ := strings.Cut(l[7:], " ")
			if cur == nil || cur.name != name || cur.typ != "" || len(cur.samples) > 0 {
				return nil, fmt.Errorf("misplaced type of %q", name)
			}
			cur.typ = typ
		default:
			sm, err := parseSample(l)
			if err != nil {
				return nil, fmt.Errorf("%v in %q", err, l)
			}
			if cur == nil || cur.typ == "" || !strings.HasPrefix(sm.name, cur.name) {
				return nil, fmt.Errorf("sample without a header: %q", l)
			}
			cur.samples = append(cur.samples, sm)
		}
	}
	return out, nil
}

func parseSample(l string) (sm sample, err error) {
	i := strings.IndexAny(l, "{ ")
	if i <= 0 {
		return sm, errors.New("no name")
	}
	sm.name = l[:i]
	rest := l[i:]
	if rest[0] == '{' {
		rest = rest[1:]
		for {
			k, r, ok := strings.Cut(rest, `="`)
			if !ok {
				return sm, errors.New("no label value")
			}
			for _, c := range k {
				if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
					return sm, errors.New("bad label name " + k)
				}
			}
			v := ""
			j := 0
			for ; ; j++ {
				if j >= len(r) {
					return sm, errors.New("unterminated label value")
				}
				if r[j] == '"' {
					break
				}
				if r[j] != '\\' {
					v += r[j : j+1]
					continue
				}
				j++
				if j >= len(r) {
					return sm, errors.New("unterminated label value")
				}
				switch r[j] {
				case 'n':
					v += "\n"
				case '\\', '"':
					v += r[j : j+1]
				default:
					return sm, fmt.Errorf("unknown escape \\%c", r[j])
				}
			}
			sm.labels = append(sm.labels, label{k, v})
			rest = r[j+1:]
			if strings.HasPrefix(rest, ",") {
				rest = rest[1:]
				continue
			}
			if strings.HasPrefix(rest, "}") {
				rest = rest[1:]
				break
			}
			return sm, errors.New("no end of the labels")
		}
	}
	if !strings.HasPrefix(rest, " ") {
		return sm, errors.New("no value")
	}
	sm.val, err = strconv.ParseFloat(rest[1:], 64)
	return sm, err
}

// ---------------------------------------------------------------- metrics by kind

type printer interface {
	Print(name string, w io.Writer) error
}
type metric struct {
	kind, name string
	les        []float64
	unit       int // how many make 1
	labels     []string
	c          *prom.Counter
	g          *prom.Gauge
	h          *prom.Histogram
	toVals     func(key string) []string
	fromVals   func([]string) string
}

func newMetric(kind string, nlabels int, les []float64) *metric {
	m := &metric{kind: kind, name: "the_metric", les: les, unit: 4}
	m.labels = []string{"op", "path", "l3", "l4", "l5", "l6"}[:nlabels]
	desc := "some description"
	switch kind {
	case "counter", "counterGauge":
		m.c = &prom.Counter{Name: m.name, Desc: desc, Labels: m.labels, Gauge: kind == "counterGauge"}
	case "gauge":
		m.g = &prom.Gauge{Desc: desc, Labels: m.labels}
	case "histogram":
		m.h = &prom.Histogram{Desc: desc, Labels: m.labels, Buckets: les}
	}
	m.toVals = func(k string) []string { return append([]string{}, []string{k, "/x", "3", "4", "5", "6"}[:nlabels]...) }
	m.fromVals = func(v []string) string {
		if nlabels == 0 {
			return "c1"
		}
		return v[0]
	}
	return m
}

func (m *metric) do(op string, key string, quarters int) {
	v := float64(quarters) / float64(m.unit)
	l := m.toVals(key)
	switch op {
	case "add":
		if m.c != nil {
			m.c.Observe(v, l...)
		} else if v == 2 || v == -3 { // the other way round
			m.g.Counter(l...).Dec(int(-v))
		} else if v == 3 || v == -2 {
			m.g.Counter(l...).Inc(int(v))
		} else if v < 0 {
			m.g.Counter(l...).Dec(int(-v))
		} else {
			m.g.Counter(l...).Inc(int(v))
		}
	case "set":
		m.g.SetFunc(func() float64 { return v }, l...)
	case "unset":
		m.g.SetFunc(nil, l...)
	case "obs":
		m.h.Observe(v, l...)
	}
}

func (m *metric) print() (string, error) {
	b := &bytes.Buffer{}
	err := m.printTo(b)
	return b.String(), err
}

func (m *metric) printTo(b io.Writer) error {
	switch {
	case m.c != nil:
		return any(m.c).(interface{ Print(io.Writer) error }).Print(b)
	case m.g != nil:
		return m.g.Print(m.name, b)
	default:
		return m.h.Print(m.name, b)
	}
}

type series struct {
	On    bool  `json:"on"`
	Sum   int   `json:"sum"`
	Count int   `json:"count"`
	B     []int `json:"b"`
}

// quart is the number in units
func quart(f float64, unit int) (int, error) {
	q := f * float64(unit)
	if q != float64(int(q)) {
		return 0, fmt.Errorf("the value %v was never there", f)
	}
	return int(q), nil
}

// shown scrapes the metric and reads the series back
func (m *metric) shown() (map[string]series, error) {
	txt, err := m.print()
	if err != nil {
		return nil, err
	}
	return m.read(txt)
}

// read reads the series back
func (m *metric) read(txt string) (map[string]series, error) {
	fams, err := parse(txt)
	if err != nil {
		return nil, err
	}
	out := map[string]series{}
	if len(fams) == 0 {
		return out, nil
	}
	f := fams[0]
	typ := map[string]string{"counterGauge": "gauge"}[m.kind]
	if typ == "" {
		typ = m.kind
	}
	if len(fams) != 1 || f.name != m.name || f.desc != "some description" || f.typ != typ || len(f.samples) == 0 {
		return nil, fmt.Errorf("unexpected header in %q", txt)
	}
	seen := map[string]bool{}
	for _, sm := range f.samples {
		key := fmt.Sprintf("%q %q", sm.name, sm.labels)
		if seen[key] {
			return nil, fmt.Errorf("%s is shown twice", key)
		}
		seen[key] = true
		labels := sm.labels
		le := ""
		suffix := strings.TrimPrefix(sm.name, m.name)
		if suffix == "_bucket" {
			if len(labels) == 0 || labels[len(labels)-1].k != "le" {
				return nil, fmt.Errorf("bucket without le: %v", sm)
			}
			le = labels[len(labels)-1].v
			labels = labels[:len(labels)-1]
		}
		if len(labels) != len(m.labels) {
			return nil, fmt.Errorf("labels %q", sm.labels)
		}
		vals := []string{}
		for i, l := range labels {
			if l.k != m.labels[i] {
				return nil, fmt.Errorf("label %q instead of %q", l.k, m.labels[i])
			}
			vals = append(vals, l.v)
		}
		k := m.fromVals(vals)
		s, ok := out[k]
		if !ok {
			s = series{On: true, B: []int{}}
			if m.kind == "histogram" {
				s.Count = -1
			}
		}
		if (suffix != "") != (m.kind == "histogram") {
			return nil, fmt.Errorf("unexpected name %q", sm.name)
		}
		switch suffix {
		case "", "_sum":
			if s.Sum, err = quart(sm.val, m.unit); err != nil {
				return nil, err
			}
		case "_count":
			if s.Count != int(sm.val) {
				return nil, fmt.Errorf("count is %v, the +Inf bucket is %v", sm.val, s.Count)
			}
		case "_bucket":
			if le == "+Inf" {
				s.Count = int(sm.val)
				break
			}
			x, err := strconv.ParseFloat(le, 64)
			if err != nil || len(s.B) >= len(m.les) || m.les[len(s.B)] != x {
				return nil, fmt.Errorf("unexpected bucket %q", le)
			}
			s.B = append(s.B, int(sm.val))
		default:
			return nil, fmt.Errorf("unexpected name %q", sm.name)
		}
		out[k] = s
	}
	for k, s := range out {
		if len(s.B) != len(m.les) || s.Count < 0 {
			return nil, fmt.Errorf("incomplete series %q in %q", k, txt)
		}
	}
	return out, nil
}

// all is what is shown for the given series
func (m *metric) all(keys []string) any {
	txt, err := m.print()
	if err != nil {
		return "bad scrape: " + err.Error()
	}
	return m.allOf(txt, keys)
}

func (m *metric) allOf(txt string, keys []string) any {
	s, err := m.read(txt)
	if err != nil {
		return "bad scrape: " + err.Error()
	}
	out := map[string]series{}
	for _, k := range keys {
		x, ok := s[k]
		if !ok {
			x = series{B: make([]int, len(m.les))}
		}
		out[k] = x
		delete(s, k)
	}
	if len(s) > 0 {
		return fmt.Sprintf("unexpected series %v", s)
	}
	return out
}

type metricObj struct {
	m    *metric
	keys []string
}

func (this metricObj) Do(a vt.Act) (any, any) {
	this.m.do(a.Op(), a.Str("k"), a.Int("v"))
	return "ok", this.m.all(this.keys)
}

func les(l []any) (out []float64) {
	for i := range l {
		out = append(out, float64(vt.Act{"x": l[i]}.Int("x"))/4)
	}
	return
}

func TestMetricsReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Replay("metrics-replay", vt.Scale(1000, 20000), 10, func(init vt.Act) vt.Obj {
		keys := []string{}
		for k := range init.Map("x") {
			keys = append(keys, k)
		}
		return metricObj{newMetric(init.Str("kind"), init.Int("labels"), les(init.List("les"))), keys}
	})
	vt.Done()
}

// ---------------------------------------------------------------- concurrent histories

func TestMetricsConc(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(500, 5000); i++ {
		seed := r.Int63()
		synctest.Test(t, func(t *testing.T) { metricsConc(seed, tr) })
	}
	tr.Close()
	vt.Done()
}

func metricsConc(seed int64, tr *vt.Traces) {
	r := rand.New(rand.NewSource(seed))
	since := r.Intn(5) == 0 // with ObserveSince, for which the clock must stand still
	if since {
		vyield.Set(vyield.Off, seed, 0)
	} else {
		vyield.Set(vyield.Bubble, seed, 0)
	}
	defer vyield.Set(vyield.Off, 0, 0)
	kind := []string{"counter", "gauge", "counterGauge", "histogram", "histogram"}[r.Intn(5)]
	unit := 4
	if since {
		kind = "histogram"
		unit = 64
	}
	var lq []int
	var lf []float64
	if kind == "histogram" {
		x := -2
		nb := r.Intn(4)
		if r.Intn(4) == 0 {
			nb = 5 + r.Intn(20)
		}
		for i := nb; i >= 0; i-- {
			if nb > 4 {
				x++
			} else {
				x += 1 + r.Intn(6)
			}
			lq = append(lq, x)
			lf = append(lf, float64(x)/float64(unit))
		}
	}
	nl := r.Intn(3)
	if r.Intn(4) == 0 {
		nl += r.Intn(5)
	}
	keys := []string{"c1"}
	if nl > 0 {
		keys = append(keys, "c2")
		if kind == "gauge" {
			keys = append(keys, "f")
		}
	}
	if lq == nil {
		lq = []int{}
	}
	h := &vt.Hist{Init: vt.J{"keys": keys, "les": lq}}
	m := newMetric(kind, nl, lf)
	m.unit = unit
	done := make(chan bool)
	threads := 2 + r.Intn(3)
	for th := 0; th < threads; th++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			for j := 0; j < 5; j++ {
				if !since {
					time.Sleep(time.Duration(rr.Intn(3) * rr.Intn(2000)))
				}
				if rr.Intn(3) == 0 {
					id := fmt.Sprintf("%d.%d", th, j)
					h.Inv(th, vt.J{"op": "rbegin", "id": id}).Res("ok")
					seen := m.all(keys)
					if s, bad := seen.(string); bad {
						vt.Violation("metrics-scrape", s, h.Ev)
						break
					}
					h.Inv(th, vt.J{"op": "rend", "id": id, "seen": seen}).Res("ok")
					continue
				}
				k := keys[rr.Intn(len(keys))]
				v := rr.Intn(16) - 3
				op := "add"
				switch {
				case kind == "histogram":
					op = "obs"
				case k == "f":
					op = []string{"set", "set", "unset"}[rr.Intn(3)]
					if op == "unset" {
						v = 0
					}
				case kind == "gauge":
					v *= 4
				}
				h.Inv(th, vt.J{"op": "touch", "key": k}).Res("ok")
				c := h.Inv(th, vt.J{"op": op, "k": k, "v": v})
				if since {
					m.h.ObserveSince(time.Now().Add(-time.Duration(v)*time.Second/64), m.toVals(k)...)
				} else {
					m.do(op, k, v)
				}
				c.Res("ok")
			}
			done <- true
		}()
	}
	for th := 0; th < threads; th++ {
		<-done
	}
	h.Inv(0, vt.J{"op": "rbegin", "id": "last"}).Res("ok")
	seen := m.all(keys)
	if s, bad := seen.(string); bad {
		vt.Violation("metrics-scrape", s, h.Ev)
		return
	}
	h.Inv(0, vt.J{"op": "rend", "id": "last", "seen": seen}).Res("ok")
	tr.Write(h)
}

// a reader which takes nothing from the n-th write on, until it is let
type stalled struct {
	b         bytes.Buffer
	n         int
	stuck, on chan bool
}

func (this *stalled) Write(p []byte) (int, error) {
	this.n--
	if this.n == 0 {
		this.stuck <- true
		<-this.on
	}
	return this.b.Write(p)
}

// a scrape whose reader stalls holds up nothing else
func TestMetricsStall(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	for i, kind := range []string{"counter", "gauge", "counterGauge", "histogram", "histogram"} {
		for nl := 0; nl < 3; nl++ {
			for n := 1; n < vt.Scale(9, 16); n++ {
				if !metricsStall(kind, nl, n, i%2 == 0, tr) {
					vt.Done()
					return
				}
			}
		}
	}
	tr.Close()
	vt.Done()
}

func metricsStall(kind string, nl, n int, buckets bool, tr *vt.Traces) bool {
	lq, lf := []int{}, []float64(nil)
	if kind == "histogram" && buckets {
		lq, lf = []int{4, 12}, []float64{1, 3}
	}
	keys := []string{"c1"}
	if nl > 0 {
		keys = append(keys, "c2")
	}
	h := &vt.Hist{Init: vt.J{"keys": keys, "les": lq}}
	m := newMetric(kind, nl, lf)
	what := func(s string) string { return fmt.Sprintf("%s, %d labels, stalled at write %d: %s", kind, nl, n, s) }
	soon := func(s string, f func()) bool {
		done := make(chan bool, 1)
		go func() { f(); done <- true }()
		select {
		case <-done:
			return true
		case <-time.After(vt.Patience):
			vt.Violation("metrics-stall", what(s+" waits for the reader of a scrape"), h.Ev)
			return false
		}
	}
	update := func(v int) bool {
		op := "add"
		if kind == "histogram" {
			op = "obs"
		}
		for _, k := range keys {
			h.Inv(0, vt.J{"op": "touch", "key": k}).Res("ok")
			c := h.Inv(0, vt.J{"op": op, "k": k, "v": v})
			if !soon("an update", func() { m.do(op, k, v) }) {
				return false
			}
			c.Res("ok")
		}
		return true
	}
	scrape := func(id string) bool {
		h.Inv(0, vt.J{"op": "rbegin", "id": id}).Res("ok")
		var seen any
		if !soon("a scrape", func() { seen = m.all(keys) }) {
			return false
		}
		if s, bad := seen.(string); bad {
			vt.Violation("metrics-scrape", what(s), h.Ev)
			return false
		}
		h.Inv(0, vt.J{"op": "rend", "id": id, "seen": seen}).Res("ok")
		return true
	}
	update(4)
	w := &stalled{n: n, stuck: make(chan bool, 1), on: make(chan bool)}
	h.Inv(1, vt.J{"op": "rbegin", "id": "slow"}).Res("ok")
	done := make(chan error, 1)
	go func() { done <- m.printTo(w) }()
	var err error
	stuck := true
	select {
	case err = <-done:
		stuck = false
	case <-w.stuck:
		vt.Stat("stalled_scrapes", 1)
		if !update(8) || !scrape("a") || !update(12) || !scrape("b") {
			close(w.on)
			return false
		}
	}
	if stuck {
		close(w.on)
		select {
		case err = <-done:
		case <-time.After(vt.Patience):
			vt.Violation("metrics-stall", what("the scrape does not go on"), h.Ev)
			return false
		}
	}
	var seen any = fmt.Sprint("the scrape fails: ", err)
	if err == nil {
		seen = m.allOf(w.b.String(), keys)
	}
	if s, bad := seen.(string); bad {
		vt.Violation("metrics-scrape", what(s), h.Ev)
		return false
	}
	h.Inv(1, vt.J{"op": "rend", "id": "slow", "seen": seen}).Res("ok")
	tr.Write(h)
	return true
}

// many updates in real time: no data race, nothing lost, scrapes are sane throughout
func TestMetricsRace(t *testing.T) {
	for i := 0; i < vt.Scale(8, 80); i++ {
		kind := []string{"counter", "gauge", "counterGauge", "histogram"}[i%4]
		var lf []float64
		if kind == "histogram" {
			lf = []float64{1, 2, 3}
		}
		m := newMetric(kind, 2, lf)
		keys := []string{"c1", "c2", "c3", "c4"}
		var wg sync.WaitGroup
		const per = 400
		for th := 0; th < 6; th++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < per; j++ {
					op := "add"
					if kind == "histogram" {
						op = "obs"
					}
					m.do(op, keys[j%4], 4*(1+j%5))
				}
			}()
		}
		stop := make(chan bool)
		wg.Add(1)
		go func() {
			defer wg.Done()
			last := map[string]series{}
			for n := 0; ; n++ {
				s, err := m.shown()
				if err != nil {
					vt.Violation("metrics-scrape", err.Error(), nil)
					return
				}
				for k, x := range last {
					if y := s[k]; !y.On || y.Sum < x.Sum || y.Count < x.Count {
						vt.Violation("metrics-scrape", fmt.Sprintf("series %q went from %v to %v", k, x, y), nil)
					}
				}
				last = s
				select {
				case <-stop:
					return
				default:
				}
			}
		}()
		go func() { time.Sleep(30 * time.Millisecond); close(stop) }()
		wg.Wait()
		s, err := m.shown()
		if err != nil {
			vt.Violation("metrics-scrape", err.Error(), nil)
		}
		for n, k := range keys {
			want := 0
			cnt := 0
			for j := n; j < per; j += 4 {
				want += 4 * (1 + j%5) * 6
				cnt += 6
			}
			if s[k].Sum != want || (kind == "histogram" && s[k].Count != cnt) {
				vt.Violation("metrics-lost", fmt.Sprintf("%s %s: sum %d/4 count %d, want %d/4 %d", kind, k, s[k].Sum, s[k].Count, want, cnt), nil)
			}
		}
	}
	vt.Done()
}

// ---------------------------------------------------------------- labels

var nasty = []string{"", "a", "b", "ab", `"`, `\`, `\\`, `\"`, ",", "\n", `\n`, `a",b="c`, "é", " ", "=", "{", "}", "\t", "\x00", `",`, `","`, `,b="`, "\u00a0", "日本", "le", `a\`, "\r", "'", "%s", "%", "A", "\u2028", "\U0001F600"}

type labelsObj struct {
	m    *metric
	kind string
	tok  map[string]string
}

func (this labelsObj) Do(a vt.Act) (any, any) {
	ret := "ok"
	if a.Op() == "bad" {
		if vt.Protect(func() { this.obs([]string{"x", "y", "z"}[:a.Int("n")]...) }) != "" {
			ret = "refused"
		}
	} else {
		this.obs(this.tok[a.Str("x")], this.tok[a.Str("y")])
	}
	return ret, this.look()
}

func (this labelsObj) obs(l ...string) {
	switch this.kind {
	case "counter":
		this.m.c.Observe(1, l...)
	case "gauge":
		this.m.g.Counter(l...).Inc(1)
	case "func":
		n := 1.0
		if len(l) == 2 {
			if s, err := this.m.shown(); err == nil {
				n += float64(s[strings.Join(l, "\xff")].Sum) / 4
			}
		}
		this.m.g.SetFunc(func() float64 { return n }, l...)
	default:
		this.m.h.Observe(1, l...)
	}
}

func (this labelsObj) look() any {
	s, err := this.m.shown()
	if err != nil {
		return "bad scrape: " + err.Error()
	}
	out := vt.J{}
	for a := range this.tok {
		for b := range this.tok {
			out[a+","+b] = 0
		}
	}
	back := map[string]string{}
	for t, v := range this.tok {
		back[v] = t
	}
	for k, x := range s {
		p := strings.Split(k, "\xff")
		a, b := back[p[0]], back[p[1]]
		if a == "" || b == "" {
			return fmt.Sprintf("unexpected label values %q", p)
		}
		out[a+","+b] = x.Sum / 4
	}
	return out
}

func TestLabelsReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	var m sync.Mutex
	r := rand.New(rand.NewSource(vt.Seed()))
	g.Replay("labels-replay", vt.Scale(4000, 40000), 6, func(init vt.Act) vt.Obj {
		kind := init.Str("kind")
		k2 := kind
		if kind == "func" {
			k2 = "gauge"
		}
		var l []float64
		if kind == "histogram" {
			l = []float64{1}
		}
		o := labelsObj{newMetric(k2, 2, l), kind, map[string]string{}}
		o.m.toVals = nil
		o.m.fromVals = func(v []string) string { return strings.Join(v, "\xff") }
		m.Lock()
		defer m.Unlock()
		p := r.Perm(len(nasty))
		for i, t := range []string{"t0", "t1", "t2"} {
			o.tok[t] = nasty[p[i]]
		}
		return o
	})
	vt.Done()
}

// ---------------------------------------------------------------- registry

func register(name, id string) (ret string) {
	return registerThen(name, id, func() {})
}

// registerThen registers a metric of some type, which prints one series with its identity, and calls f for each scrape of it
func registerThen(name, id string, f func()) (ret string) {
	if vt.Protect(func() {
		var got, want any
		switch len(id+name) % 3 {
		case 0:
			g := (&prom.Gauge{Labels: []string{"id"}}).SetFunc(func() float64 { f(); return 1 }, id)
			got, want = prom.Register(name, g), g
		case 1:
			c := &prom.Custom{Type: "untyped", Func: func() map[string]any { f(); return map[string]any{name + `{id="` + id + `"}`: 1} }}
			got, want = prom.Register(name, c), c
		default:
			h := &prom.Histogram{Labels: []string{"id"}}
			h.Observe(1, id)
			got, want = prom.Register(name, h), h
		}
		if got != want {
			vt.Violation("registry-returns", "Register does not return the metric", name)
		}
	}) != "" {
		return "refused"
	}
	return "ok"
}

// scrape returns the registered metrics with the given prefix
func scrape(prefix string) (out []vt.J, err error) {
	w := httptest.NewRecorder()
	prom.Handler()(w, httptest.NewRequest("GET", "/metrics", nil))
	if w.Code != 200 {
		return nil, fmt.Errorf("status %d", w.Code)
	}
	return scraped(w.Body.String(), prefix)
}

func scraped(txt, prefix string) (out []vt.J, err error) {
	fams, err := parse(txt)
	if err != nil {
		return nil, err
	}
	out = []vt.J{}
	for _, f := range fams {
		if strings.HasPrefix(f.name, prefix) {
			n := 1
			if f.typ == "histogram" {
				n = 3
			}
			if len(f.samples) != n || len(f.samples[0].labels) != 1+n/3 {
				return nil, fmt.Errorf("metric %q shows %v", f.name, f.samples)
			}
			for _, sm := range f.samples {
				if !strings.HasPrefix(sm.name, f.name) || (n == 1 && sm.name != f.name) || sm.labels[0] != (label{"id", f.samples[0].labels[0].v}) || sm.val != 1 {
					return nil, fmt.Errorf("metric %q shows %v", f.name, f.samples)
				}
			}
			out = append(out, vt.J{"k": strings.TrimPrefix(f.name, prefix), "v": f.samples[0].labels[0].v})
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a]["k"].(string) < out[b]["k"].(string) })
	return out, nil
}

type regObj struct{ prefix string }

func (this regObj) Do(a vt.Act) (any, any) {
	ret := register(this.prefix+a.Str("k"), a.Str("v"))
	l, err := scrape(this.prefix)
	if err != nil {
		return ret, "bad scrape: " + err.Error()
	}
	out := vt.J{"a": "-", "b": "-", "c": "-"}
	for _, x := range l {
		out[x["k"].(string)] = x["v"]
	}
	return ret, out
}

func TestRegistryReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	var m sync.Mutex
	n := 0
	g.Replay("registry-replay", vt.Scale(100, 500), 12, func(init vt.Act) vt.Obj {
		m.Lock()
		defer m.Unlock()
		n++
		return regObj{fmt.Sprintf("replay%d_", n)}
	})
	vt.Done()
}

func TestRegistryConc(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(60, 400); i++ {
		seed := r.Int63()
		registryConc(seed, fmt.Sprintf("conc%d_", i), tr)
	}
	tr.Close()
	vt.Done()
}

// in real time: the registry is global, and its lock does not belong to any bubble
func registryConc(seed int64, prefix string, tr *vt.Traces) {
	r := rand.New(rand.NewSource(seed))
	vyield.Set(vyield.Real, seed, 90)
	defer vyield.Set(vyield.Off, 0, 0)
	h := &vt.Hist{}
	done := make(chan bool)
	for th := 0; th < 4; th++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			for j := 0; j < 3; j++ {
				time.Sleep(time.Duration(rr.Intn(200)) * time.Microsecond)
				if th == 0 {
					id := fmt.Sprintf("%d.%d", th, j)
					h.Inv(th, vt.J{"op": "rbegin", "id": id}).Res("ok")
					seen, err := scrape(prefix)
					if err != nil {
						vt.Violation("registry-scrape", err.Error(), nil)
						break
					}
					h.Inv(th, vt.J{"op": "rend", "id": id, "seen": seen}).Res("ok")
					continue
				}
				k, v := fmt.Sprintf("m%d", rr.Intn(3)), fmt.Sprintf("%d-%d", th, j)
				c := h.Inv(th, vt.J{"op": "reg", "k": k, "v": v})
				c.Res(register(prefix+k, v))
			}
			done <- true
		}()
	}
	for th := 0; th < 4; th++ {
		<-done
	}
	tr.Write(h)
}

type stalledResponse struct {
	*stalled
	code int
	h    http.Header
}

func (this *stalledResponse) Header() http.Header  { return this.h }
func (this *stalledResponse) WriteHeader(code int) { this.code = code }

// a scrape whose reader stalls, or in which a metric takes its time, holds up no registration and no other scrape
func TestRegistryStall(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	for i := 0; i < vt.Scale(40, 200) && registryStall(i, tr); i++ {
	}
	tr.Close()
	vt.Done()
}

func registryStall(i int, tr *vt.Traces) bool {
	prefix := fmt.Sprintf("stall%d_", i)
	h := &vt.Hist{}
	soon := func(s string, f func()) bool {
		done := make(chan bool, 1)
		go func() { f(); done <- true }()
		select {
		case <-done:
			return true
		case <-time.After(vt.Patience):
			vt.Violation("registry-stall", s+" waits for a scrape whose reader waits", i)
			return false
		}
	}
	reg := func(k, v string, f func()) bool {
		return soon("a registration", func() {
			h.Inv(0, vt.J{"op": "reg", "k": k, "v": v}).Res(registerThen(prefix+k, v, f))
		})
	}
	look := func(id string) (ok bool) {
		return soon("a scrape", func() {
			h.Inv(0, vt.J{"op": "rbegin", "id": id}).Res("ok")
			seen, err := scrape(prefix)
			if err != nil {
				vt.Violation("registry-scrape", err.Error(), i)
				return
			}
			h.Inv(0, vt.J{"op": "rend", "id": id, "seen": seen}).Res("ok")
			ok = true
		}) && ok
	}
	w := &stalledResponse{stalled: &stalled{n: -1, stuck: make(chan bool, 1), on: make(chan bool)}, h: http.Header{}, code: 200}
	stop := func() {}
	if i%2 == 0 {
		w.n = 1 + i%16
	} else {
		var once sync.Once
		stop = func() { once.Do(func() { w.stuck <- true; <-w.on }) }
	}
	if !reg("m0", "a", stop) || !reg("m1", "bc", stop) || !reg("m0", "ab", nil) {
		return false
	}
	h.Inv(1, vt.J{"op": "rbegin", "id": "slow"}).Res("ok")
	done := make(chan bool, 1)
	go func() {
		prom.Handler()(w, httptest.NewRequest("GET", "/metrics", nil))
		done <- true
	}()
	select {
	case <-w.stuck:
		vt.Stat("stalled_scrapes", 1)
		if !reg("m2", "x", func() {}) || !reg("m1", "y", nil) || (i%2 == 0 && !look("other")) {
			close(w.on)
			return false
		}
		close(w.on)
		if !soon("a scrape which may go on", func() { <-done }) {
			return false
		}
	case <-done:
	}
	seen, err := scraped(w.b.String(), prefix)
	if err != nil || w.code != 200 {
		vt.Violation("registry-scrape", fmt.Sprint(w.code, " ", err), i)
		return false
	}
	h.Inv(1, vt.J{"op": "rend", "id": "slow", "seen": seen}).Res("ok")
	if !look("last") {
		return false
	}
	tr.Write(h)
	return true
}

// concurrent registrations and scrapes on the real locks
func TestRegistryRace(t *testing.T) {
	for i := 0; i < vt.Scale(30, 200); i++ {
		prefix := fmt.Sprintf("race%d_", i)
		var ok [4]int
		var m sync.Mutex
		var wg sync.WaitGroup
		for th := 0; th < 6; th++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range ok {
					if register(prefix+fmt.Sprint(j), fmt.Sprint(th)) == "ok" {
						m.Lock()
						ok[j]++
						m.Unlock()
					}
				}
				if _, err := scrape(prefix); err != nil {
					vt.Violation("registry-scrape", err.Error(), nil)
				}
			}()
		}
		wg.Wait()
		l, err := scrape(prefix)
		if err != nil || len(l) != len(ok) {
			vt.Violation("registry-scrape", fmt.Sprint(l, err), nil)
		}
		for j, n := range ok {
			if n != 1 {
				vt.Violation("registry-unique", fmt.Sprintf("%d registrations of one name succeeded", n), j)
			}
		}
	}
	vt.Done()
}
