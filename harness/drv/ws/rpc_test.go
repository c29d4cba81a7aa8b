package ws

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http/httptest"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unsafe"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/http/ws"
)

// cell is what the registered objects share: it follows what runs
type cell struct {
	m       sync.Mutex
	n       int
	mod     int
	running map[string]int // by connection
	overlap bool
	entered chan string
	gate    map[string]chan string
	hist    *vt.Hist // of a concurrent run
	pause   func()
}

type arg struct {
	K string `json:"k"` // the connection
	A string `json:"a"`
}

// objects are made with what they were registered with
func (s *cell) same(g *Given) {
	if msg := g.check(); msg != "" {
		vt.Violation("registered-fields", msg, nil)
	}
}

func (s *cell) enter(k, ch, path string) func() {
	done, _ := s.start(k, ch, path, 0)
	return done
}

func (s *cell) start(k, ch, path string, add int) (func(), int) {
	s.m.Lock()
	s.n = (s.n + add) % s.mod
	n := s.n
	s.running[k]++
	if s.running[k] > 1 {
		s.overlap = true
	}
	if s.hist != nil {
		s.hist.Add(vt.J{"e": "enter", "k": k, "ch": ch, "path": path})
	}
	s.m.Unlock()
	if s.pause != nil {
		s.pause()
	}
	return func() {
		s.m.Lock()
		defer s.m.Unlock()
		s.running[k]--
		if s.hist != nil {
			s.hist.Add(vt.J{"e": "exit", "k": k})
		}
	}, n
}

func (s *cell) get() int {
	s.m.Lock()
	defer s.m.Unlock()
	return s.n
}

func num(n int) string { return fmt.Sprint(n) }

// base has what both kinds of objects do
type base struct {
	kind string
	n    *int
	s    *cell
}

func (b base) inc(c ws.C, a arg) error {
	defer b.s.enter(a.K, a.A, "inc")()
	*b.n = (*b.n + 1) % b.s.mod
	return c.Reply("n", num(*b.n))
}

func (b base) quiet(c ws.C, a arg) error {
	defer b.s.enter(a.K, a.A, "quiet")()
	*b.n = (*b.n + 1) % b.s.mod
	return nil
}

func (b base) bump(c ws.C, a arg) error {
	done, n := b.s.start(a.K, a.A, "bump", 1)
	defer done()
	return c.Reply("shared", num(n))
}

type failure struct{ Reason string }

func (f failure) Error() string { return f.Reason }

var failed atomic.Int64

// errors of every sort
func fail(c ctx.C) error {
	switch failed.Add(1) % 6 {
	case 0:
		return errors.New("boom")
	case 1:
		return ctx.NewErrorf(c, "boom")
	case 2:
		return fmt.Errorf("boom: %w", io.EOF)
	case 3:
		return failure{"boom"}
	case 4:
		return ctx.WrapError(c, errors.New("boom"))
	default:
		return errors.Join(errors.New("boom"), io.EOF)
	}
}

func (b base) part(c ws.C, a arg) error {
	defer b.s.enter(a.K, a.A, "partialAnswers")()
	*b.n = (*b.n + 1) % b.s.mod
	_ = c.Reply("n", "one")
	_ = c.Reply("n", "two")
	return fail(c)
}

func (b base) panic(c ws.C, a arg) error {
	defer b.s.enter(a.K, a.A, "panic")()
	_ = c.Reply("n", "last")
	panic("boom")
}

func (b base) quit(c ws.C, a arg) error {
	defer b.s.enter(a.K, a.A, "quit")()
	_ = c.Reply("n", "last")
	return c.Close()
}

func (b base) bye(c ws.C, a arg) error {
	defer b.s.enter(a.K, a.A, "bye")()
	if ch := channelOf(&c); ch != nil {
		return ch.Close(c)
	}
	return nil
}

func (b base) gate(c ws.C, a arg) error {
	defer b.s.enter(a.K, a.A, "gate")()
	g := make(chan string)
	b.s.m.Lock()
	b.s.gate[a.K] = g
	b.s.m.Unlock()
	b.s.entered <- a.K
	switch <-g {
	case "fail":
		return fail(c)
	case "panic":
		panic("boom")
	}
	return nil
}

func (b base) get(c ws.C, a arg) error {
	return c.Reply("got", map[string]any{"kind": b.kind, "n": *b.n})
}

var hasChannel = func() bool {
	t := reflect.TypeOf(ws.C{})
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Type == reflect.TypeOf((*ws.Channel)(nil)) {
			return true
		}
	}
	return false
}()

// channelOf finds the channel of a call: it has a public Close, but no public way to get it
func channelOf(c *ws.C) *ws.Channel {
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf((*ws.Channel)(nil)) {
			return (*ws.Channel)(unsafe.Pointer(v.Field(i).Pointer()))
		}
	}
	return nil
}

// Given is what objects are registered with, of every kind
type Given struct {
	Any  any
	Err  error
	M    map[string]int
	L    []string
	A    [2]bool
	F    func() int
	C    chan int
	St   struct{ X, y int }
	P    *float64
	B    bool
	T    time.Time
	Str  string
	Zero *int
}

var pi = 3.5

func given() Given {
	g := Given{Any: []any{1, "x"}, Err: io.EOF, M: map[string]int{"k": 1}, L: []string{"l"}, A: [2]bool{false, true}, F: func() int { return 42 },
		C: make(chan int, 3), P: &pi, B: true, T: time.Unix(7, 7), Str: "str"}
	g.St.X, g.St.y = 1, 2
	return g
}

func (g *Given) check() string {
	if fmt.Sprintln(g.Any, g.Err, g.M, g.L, g.A, g.St, *g.P, g.B, g.T.UnixNano(), g.Str, g.Zero) == "[1 x] EOF map[k:1] [l] [false true] {1 2} 3.5 true 7000000007 str <nil>\n" && g.F() == 42 && cap(g.C) == 3 && g.P == &pi {
		return ""
	}
	return fmt.Sprintf("not what was registered: %v", g)
}

type Counter struct {
	Start  int
	Given  Given
	hidden int
	S      *cell
	n      int
}

type initArg struct {
	K string `json:"k"`
	N int    `json:"n"`
	A string `json:"a"`
}

func (o *Counter) b() base {
	o.S.same(&o.Given)
	return base{"counter", &o.n, o.S}
}
func (o *Counter) Init(c ws.C, a initArg) error {
	defer o.S.enter(a.K, "", "init")()
	switch a.A {
	case "fail":
		return fail(c)
	case "panic":
		panic("boom")
	}
	o.n = (o.n + o.Start + a.N) % o.S.mod
	return c.Reply("hello", num(o.n))
}
func (o *Counter) Inc(c ws.C, a arg) error            { return o.b().inc(c, a) }
func (o *Counter) Quiet(c ws.C, a arg) error          { return o.b().quiet(c, a) }
func (o *Counter) Bump(c ws.C, a arg) error           { return o.b().bump(c, a) }
func (o *Counter) PartialAnswers(c ws.C, a arg) error { return o.b().part(c, a) }
func (o *Counter) Panic(c ws.C, a arg) error          { return o.b().panic(c, a) }
func (o *Counter) Quit(c ws.C, a arg) error           { return o.b().quit(c, a) }
func (o *Counter) Bye(c ws.C, a arg) error            { return o.b().bye(c, a) }
func (o *Counter) Gate(c ws.C, a arg) error           { return o.b().gate(c, a) }
func (o *Counter) Get(c ws.C, a arg) error            { return o.b().get(c, a) }

// methods with any number of results: the last one is the error
type Plain struct {
	Any  any
	Err  error
	M    map[string]int
	L    []string
	A    [2]bool
	F    func() int
	C    chan int
	St   struct{ X, y int }
	P    *float64
	B    bool
	T    time.Time
	Str  string
	Zero *int
	S    *cell
	N    int
}

func (o *Plain) b() base {
	o.S.same(&Given{o.Any, o.Err, o.M, o.L, o.A, o.F, o.C, o.St, o.P, o.B, o.T, o.Str, o.Zero})
	return base{"plain", &o.N, o.S}
}
func (o *Plain) Inc(c ws.C, a arg) (*int, error) {
	return &o.N, o.b().inc(c, a)
}
func (o *Plain) Quiet(c ws.C, a arg) (fmt.Stringer, error) {
	return time.Second, o.b().quiet(c, a)
}
func (o *Plain) Bump(c ws.C, a arg) { _ = o.b().bump(c, a) }
func (o *Plain) PartialAnswers(c ws.C, a arg) (error, []int, error) {
	return nil, nil, o.b().part(c, a)
}
func (o *Plain) Panic(c ws.C, a arg) error { return o.b().panic(c, a) }
func (o *Plain) Quit(c ws.C, a arg) error  { return o.b().quit(c, a) }
func (o *Plain) Bye(c ws.C, a arg) error   { return o.b().bye(c, a) }
func (o *Plain) Gate(c ws.C, a arg) error  { return o.b().gate(c, a) }
func (o *Plain) Get(c ws.C, a arg) error   { return o.b().get(c, a) }

// Fence answers on a channel of its own: what was sent before it has been handled
type Fence struct{}

func (Fence) Ping(c ws.C, n int) error { return c.Reply("pong", n) }

type fr struct {
	Channel string `json:"channel,omitempty"`
	Path    string `json:"path,omitempty"`
	Type    string `json:"type,omitempty"`
	Data    any    `json:"data,omitempty"`
}

type rpcServer struct {
	srv  *httptest.Server
	addr string
	s    *cell

	serial atomic.Int64
}

func newRpc(mod int) *rpcServer {
	s := &cell{mod: mod, running: map[string]int{}, entered: make(chan string, 10), gate: map[string]chan string{}}
	h := &ws.RpcHandler{}
	g := given()
	counter := &Counter{Start: 1, Given: g, hidden: 7, S: s}
	plain := Plain{g.Any, g.Err, g.M, g.L, g.A, g.F, g.C, g.St, g.P, g.B, g.T, g.Str, g.Zero, s, 0}
	c := quiet()
	h.MustRegister(c, counter)
	h.MustRegister(c, plain)
	h.MustRegister(c, &Fence{})
	// too late
	counter.Start = 100
	counter.hidden = 100
	t := &rpcServer{s: s}
	t.srv = httptest.NewUnstartedServer(h.Server())
	t.srv.Config.ErrorLog = discard
	t.srv.Config.BaseContext = baseContext(c)
	t.srv.Start()
	t.addr = t.srv.Listener.Addr().String()
	return t
}

type rpcConn struct {
	*client
	out   func([]byte) error
	k     string
	fence int
	open  map[string]bool
	st    string

	queued []vt.Act
}

func (t *rpcServer) connect(k string) *rpcConn {
	c := &rpcConn{client: mustDial(t.addr, "/"), k: fmt.Sprint(k, t.serial.Add(1)), open: map[string]bool{}, st: "up"}
	_ = c.json(fr{Channel: "fence", Path: "fence", Type: "open"})
	return c
}

// what is sent for a frame of the specification
func (c *rpcConn) send(a vt.Act) error {
	ch := a.Str("ch")
	switch a.Str("f") {
	case "open":
		x := map[string]any{"k": c.k}
		var data any = x
		switch a.Str("arg") {
		case "0":
			x["n"] = 0
		case "1":
			x["n"] = 1
		case "bad":
			data = []any{"k"}
		case "":
			data = nil
		default:
			x["a"] = a.Str("arg")
		}
		typ := "open"
		if (len(a.Str("arg"))+len(ch))%2 == 0 {
			typ = "new"
		}
		return c.putJSON(fr{Channel: ch, Path: a.Str("kind"), Type: typ, Data: data})
	case "call":
		if a.Str("path") == "bad" {
			return c.putJSON(fr{Channel: ch, Path: "inc", Data: []any{1, 2}})
		}
		if a.Str("path") == "bye" && !hasChannel {
			// then only the client can
			_ = c.putJSON(fr{Channel: ch, Path: "bye", Data: arg{c.k, ch}})
			return c.putJSON(fr{Channel: ch, Type: "close"})
		}
		return c.putJSON(fr{Channel: ch, Path: a.Str("path"), Data: arg{c.k, ch}})
	case "close":
		return c.putJSON(fr{Channel: ch, Type: "close"})
	case "end":
		return c.putJSON(fr{Type: "close"})
	case "junk":
		return c.put(map[string]string{"json": `{"channel":`, "list": `[1]`, "number": `12`, "null": `null`, "type": `{"type":{"a":1},"channel":"x","path":"inc"}`}[a.Str("kind")])
	}
	panic("?")
}

func (c *rpcConn) put(s string) error {
	b := frame(opText, true, true, []byte(s))
	if c.out != nil {
		return c.out(b)
	}
	return c.raw(b)
}

func (c *rpcConn) putJSON(f fr) error {
	j, _ := json.Marshal(f)
	return c.put(string(j))
}

// norm describes a frame; ok is false if it is not part of the description (an acknowledgement)
func norm(f fr) (vt.J, bool) {
	if f.Type == "close" {
		return nil, false
	}
	d := ""
	switch x := f.Data.(type) {
	case nil:
	case string:
		d = x
	case map[string]any:
		if len(x) > 0 {
			j, _ := json.Marshal(x)
			d = string(j)
		}
	default:
		j, _ := json.Marshal(x)
		d = string(j)
	}
	if d != "" && (f.Type == "return" || f.Type == "error") {
		d = "fail"
	}
	if f.Type == "error" {
		f.Path = ""
	}
	return vt.J{"ch": f.Channel, "path": f.Path, "type": f.Type, "data": d}, true
}

// upToFence sends a fence, and collects the frames which arrive before its answer
func (c *rpcConn) upToFence() (frames []any, got map[string]any) {
	c.fence++
	_ = c.json(fr{Channel: "fence", Path: "ping", Data: c.fence})
	frames = []any{}
	got = map[string]any{}
	bye := 0
	for {
		op, data, err := c.read(vt.Patience)
		if err == io.EOF || op == opClose {
			c.st = "down"
			c.close()
			return frames, got
		}
		if err != nil {
			return append(frames, "error: "+err.Error()), got
		}
		if bye > 0 {
			frames = append(frames, "after the disconnect notice: "+string(data))
		}
		var f fr
		if op != opText || json.Unmarshal(data, &f) != nil {
			frames = append(frames, fmt.Sprintf("unexpected frame %d %q", op, data))
			continue
		}
		switch {
		case f.Channel == "fence" && f.Type == "return":
			if f.Path != "ping" || f.Data != nil {
				frames = append(frames, f)
			}
			return frames, got
		case f.Channel == "fence":
			if f.Path != "pong" || f.Data != float64(c.fence) {
				frames = append(frames, f)
			}
		case f.Type == "disconnect":
			bye++
		case f.Path == "got":
			got[f.Channel] = f.Data
		case f.Path == "get" && f.Type == "return":
		default:
			if j, ok := norm(f); ok {
				frames = append(frames, j)
			}
		}
	}
}

type rpcObj struct {
	t   *rpcServer
	con map[string]*rpcConn
	all []string
	mod int
}

func (o *rpcObj) opened(c *rpcConn, a vt.Act, frames []any) {
	switch a.Str("f") {
	case "open":
		ok := true
		for _, f := range frames {
			if j, is := f.(vt.J); is && a.Str("kind") == "counter" && j["type"] == "error" && j["ch"] == a.Str("ch") {
				ok = false
			}
		}
		c.open[a.Str("ch")] = ok
	case "close":
		delete(c.open, a.Str("ch"))
	case "call":
		if a.Str("path") == "bye" {
			delete(c.open, a.Str("ch"))
		}
	}
}

func (o *rpcObj) Do(a vt.Act) (any, any) {
	k := a.Str("k")
	c := o.con[k]
	var ret any
	switch a.Op() {
	case "connect":
		c = o.t.connect(k)
		o.con[k] = c
		f, _ := c.upToFence()
		ret = "ok"
		if len(f) > 0 {
			ret = f
		}
	case "drop":
		c.close()
		c.st = "down"
		ret = "ok"
	case "send":
		x := a.Map("a")
		_ = c.send(x)
		f, _ := c.upToFence()
		o.opened(c, x, f)
		ret = f
	case "block":
		_ = c.json(fr{Channel: a.Str("ch"), Path: "gate", Data: arg{c.k, a.Str("ch")}})
		select {
		case <-o.t.s.entered:
			ret = "entered"
			c.st = "busy"
		case <-time.After(vt.Patience):
			ret = "never entered"
		}
	case "queue":
		_ = c.send(a.Map("a"))
		c.queued = append(c.queued, a.Map("a"))
		ret = []any{}
	case "release":
		o.t.s.m.Lock()
		g := o.t.s.gate[c.k]
		o.t.s.m.Unlock()
		g <- a.Str("out")
		c.st = "up"
		f, _ := c.upToFence()
		for _, x := range c.queued {
			o.opened(c, x, f)
		}
		c.queued = nil
		ret = f
	}
	return ret, o.obs()
}

func (o *rpcObj) obs() any {
	con := vt.J{}
	for _, k := range o.all {
		c := o.con[k]
		x := vt.J{"st": "down", "ch": []any{}}
		if c != nil {
			if c.st == "up" {
				for ch, ok := range c.open {
					if ok {
						_ = c.json(fr{Channel: ch, Path: "get", Data: arg{c.k, ch}})
					}
				}
				f, got := c.upToFence()
				if len(got) > 0 {
					x["ch"] = got
				}
				if len(f) > 0 {
					x["unexpected"] = f
				}
			}
			x["st"] = c.st
			if c.st == "down" {
				x["ch"] = []any{}
			}
		}
		con[k] = x
	}
	obs := vt.J{"con": con, "shared": o.t.s.get()}
	o.t.s.m.Lock()
	defer o.t.s.m.Unlock()
	if o.t.s.overlap {
		obs["overlap"] = true
	}
	return obs
}

func (o *rpcObj) Close() {
	for _, c := range o.con {
		c.close()
	}
	o.t.s.m.Lock()
	for _, g := range o.t.s.gate {
		select {
		case g <- "ok":
		default:
		}
	}
	o.t.s.m.Unlock()
	o.t.srv.CloseClientConnections()
	o.t.srv.Close()
}

func TestWsRpcReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	mod := vt.EnvInt("MOD", 2)
	all := strings.Split(os.Getenv("CONNS"), ",")
	g.Replay("websocket calls and channels", vt.Scale(100, 1000), 60, func(vt.Act) vt.Obj {
		return &rpcObj{t: newRpc(mod), con: map[string]*rpcConn{}, all: all, mod: mod}
	})
	vt.Done()
}

func TestWsRpcTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	n := vt.Scale(150, 2500)
	r := rand.New(rand.NewSource(vt.Seed()))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := 0; i < n; i++ {
		seed := r.Int63()
		sem <- true
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			tr.Write(rpcTrace(rand.New(rand.NewSource(seed))))
		}()
	}
	wg.Wait()
	tr.Close()
	vt.Done()
}

func rpcTrace(r *rand.Rand) *vt.Hist {
	h := &vt.Hist{Init: 0}
	srv := newRpc(1000)
	defer srv.srv.Close()
	srv.s.hist = h
	var m sync.Mutex
	pr := rand.New(rand.NewSource(r.Int63()))
	srv.s.pause = func() {
		m.Lock()
		x := pr.Intn(8)
		m.Unlock()
		if x < 3 {
			time.Sleep(time.Duration(x) * 200 * time.Microsecond)
		}
	}
	var wg sync.WaitGroup
	for _, k := range []string{"a", "b", "c", "d"}[:1+r.Intn(4)] {
		c := &rpcConn{client: mustDial(srv.addr, "/"), k: k}
		seed := r.Int63()
		wg.Add(2)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			var buf []byte
			c.out = func(b []byte) error { buf = append(buf, b...); return nil }
			flush := func(all bool) {
				for len(buf) > 0 {
					n := len(buf)
					if r.Intn(3) == 0 {
						n = 1 + r.Intn(n)
					}
					_ = c.raw(buf[:n])
					buf = buf[n:]
					if !all {
						return
					}
				}
			}
			open := map[string]bool{}
			for n := 1 + r.Intn(16); n >= 0; n-- {
				a := randFrame(r, n == 0)
				if ch := a.Str("ch"); ch != "" && a.Str("f") != "open" && !open[ch] && r.Intn(40) != 0 {
					a = vt.Act{"f": "open", "ch": ch, "kind": "plain", "arg": ""}
				}
				switch ch := a.Str("ch"); {
				case a.Str("f") == "open":
					open[ch] = a.Str("kind") == "plain" || len(a.Str("arg")) == 1
				case a.Str("f") == "close" || a.Str("path") == "bye":
					open[ch] = false
				}
				h.Add(vt.J{"e": "send", "k": k, "a": a})
				_ = c.send(a)
				if r.Intn(2) == 0 {
					flush(r.Intn(2) == 0)
				}
				if r.Intn(6) == 0 {
					time.Sleep(time.Duration(r.Intn(3)) * 300 * time.Microsecond)
				}
			}
			flush(true)
		}()
		go func() {
			defer wg.Done()
			for {
				op, data, err := c.read(vt.Patience)
				if err == io.EOF || op == opClose {
					h.Add(vt.J{"e": "eof", "k": k})
					c.close()
					return
				}
				if err != nil {
					h.Add(vt.J{"e": "recv", "k": k, "frame": vt.J{"ch": "", "path": "", "type": "", "data": err.Error()}})
					c.close()
					return
				}
				var f fr
				if op != opText || json.Unmarshal(data, &f) != nil {
					f.Data = fmt.Sprintf("unexpected frame %d %q", op, data)
				}
				if f.Type == "disconnect" {
					continue
				}
				if j, ok := norm(f); ok {
					h.Add(vt.J{"e": "recv", "k": k, "frame": j})
				}
			}
		}()
	}
	wg.Wait()
	h.Add(vt.J{"e": "end"})
	return h
}

// the last frame of a connection always ends it
func randFrame(r *rand.Rand, last bool) vt.Act {
	ch := []string{"x", "y"}[r.Intn(2)]
	call := func(p ...string) vt.Act { return vt.Act{"f": "call", "ch": ch, "path": p[r.Intn(len(p))]} }
	open := func(kind string, args ...string) vt.Act {
		return vt.Act{"f": "open", "ch": ch, "kind": kind, "arg": args[r.Intn(len(args))]}
	}
	if last {
		switch r.Intn(4) {
		case 0:
			return open("nope", "")
		case 1:
			return vt.Act{"f": "end"}
		default:
			return vt.Act{"f": "junk", "kind": []string{"json", "list", "number", "null", "type"}[r.Intn(5)]}
		}
	}
	if r.Intn(40) == 0 {
		return call("panic", "nopath")
	}
	switch r.Intn(10) {
	case 0, 1:
		return open("counter", "0", "1", "fail", "bad")
	case 2, 3:
		return open("plain", "")
	case 4:
		return vt.Act{"f": "close", "ch": ch}
	}
	return call("inc", "inc", "bump", "bump", "quiet", "partialAnswers", "bad", "bye")
}
