// Package leaks drives things which begin and end, and looks at what is left of them
package leaks

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"maps"
	"math/rand"
	"net"
	gohttp "net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strings"
	gosync "sync"
	"testing"
	"time"
	"unsafe"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/http/ws"
	"github.com/Aize-Public/forego/storage"
	"github.com/Aize-Public/forego/utils"
	"github.com/Aize-Public/forego/utils/caches"
	"github.com/Aize-Public/forego/utils/lists"
	"github.com/Aize-Public/forego/utils/sync"
)

// value is something of the application, whose end is noticed
type value struct {
	pad [64]byte
	of  string
}

var values = struct {
	m  gosync.Mutex
	by map[string]int
}{by: map[string]int{}}

func newValue(of string) *value {
	v := &value{of: of}
	values.m.Lock()
	values.by[of]++
	values.m.Unlock()
	runtime.AddCleanup(v, func(of string) {
		values.m.Lock()
		values.by[of]--
		values.m.Unlock()
	}, of)
	return v
}

func valuesOf() map[string]int {
	values.m.Lock()
	defer values.m.Unlock()
	return maps.Clone(values.by)
}

// valuesLeft are those which weren't there
func (b *level) valuesLeft() string {
	var list []string
	for k, n := range valuesOf() {
		if n > b.values[k] {
			list = append(list, fmt.Sprintf("%d of %s", n-b.values[k], k))
		}
	}
	sort.Strings(list)
	return strings.Join(list, ", ")
}

func descriptors() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(l)
}

var reCreated = regexp.MustCompile(`created by (\S+)`)

// stacks counts the goroutines, by who has started them
func stacks() map[string]int {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	m := map[string]int{}
	for _, s := range strings.Split(string(buf), "\n\n") {
		by := "?"
		if x := reCreated.FindStringSubmatch(s); x != nil {
			by = x[1]
		}
		m[by]++
	}
	return m
}

// what there is while nothing is in progress
type level struct {
	goroutines, descriptors int
	stacks                  map[string]int
	values                  map[string]int
}

func now() level {
	return level{runtime.NumGoroutine(), descriptors(), stacks(), valuesOf()}
}

// idle waits until there is no more than there was
func (w *world) idle() string {
	b := &w.base
	patience := vt.Patience
	if w.wrong {
		patience = time.Second
	}
	for t0 := time.Now(); time.Since(t0) < patience; {
		gohttp.DefaultTransport.(*gohttp.Transport).CloseIdleConnections()
		if runtime.NumGoroutine() <= b.goroutines && descriptors() <= b.descriptors {
			runtime.GC()
			for i := 0; i < 20; i++ {
				if b.valuesLeft() == "" {
					return "idle"
				}
				time.Sleep(time.Duration(i) * 100 * time.Microsecond)
			}
		}
		time.Sleep(200 * time.Microsecond)
	}
	w.wrong = true
	was := *b
	*b = now()
	var more []string
	if n := b.goroutines - was.goroutines; n > 0 {
		for by, n := range b.stacks {
			if n > was.stacks[by] {
				more = append(more, fmt.Sprintf("goroutines of %s", by))
			}
		}
		sort.Strings(more)
	}
	if n := b.descriptors - was.descriptors; n > 0 {
		more = append(more, fmt.Sprintf("%d descriptors", n))
	}
	if v := was.valuesLeft(); v != "" {
		more = append(more, "values: "+v)
	}
	return "left: " + strings.Join(more, ", ")
}

// world is what all the objects share: the servers, and everything which stays
type world struct {
	c       ctx.C // of the application, which ends never
	cancel  func()
	addr    string
	other   *httptest.Server
	base    level
	wrong   bool
	conn    *client // stays open
	m       gosync.Mutex
	n       int
	things  map[string]*gate
	client  http.Client
	lru     caches.Cache[string, *value]
	mem     caches.Cache[string, *value]
	fetches *caches.RequestCache[string, *value]
	values  sync.Map[string, *value]
	set     lists.Set[string]
	ordered *utils.OrderedMap[string, *value]
	store   storage.KeyValue
}

// gate is where what is in progress waits for what it has to do
type gate struct {
	entered chan bool
	do      chan string
	left    chan bool
}

func (w *world) gate() (string, *gate) {
	w.m.Lock()
	defer w.m.Unlock()
	w.n++
	id := fmt.Sprint("t", w.n)
	g := &gate{make(chan bool, 1), make(chan string, 1), make(chan bool, 1)}
	w.things[id] = g
	return id, g
}

func (w *world) at(id string) *gate {
	w.m.Lock()
	defer w.m.Unlock()
	return w.things[id]
}

func (w *world) forget(id string) {
	w.m.Lock()
	defer w.m.Unlock()
	delete(w.things, id)
}

// wait is called where something is in progress
func (g *gate) wait(c context.Context) string {
	signal(g.entered, true)
	defer signal(g.left, true)
	select {
	case do := <-g.do:
		signal(g.do, do) // a client may try again
		return do
	case <-c.Done():
		return "over"
	}
}

func signal[T any](ch chan T, x T) {
	select {
	case ch <- x:
	default:
	}
}

func got[T any](ch <-chan T, what string) T {
	select {
	case x := <-ch:
		return x
	case <-time.After(vt.Patience):
		panic("nothing happens: " + what)
	}
}

var theWorld *world

func handle(c ctx.C, id string, v *value) ([]byte, error) {
	do := theWorld.at(id).wait(c)
	runtime.KeepAlive(v)
	switch do {
	case "panic":
		panic(gohttp.ErrAbortHandler)
	case "fail":
		return nil, ctx.NewErrorf(c, "failed")
	case "over":
		return nil, c.Err()
	}
	return []byte(strings.Repeat(`"answer"`, 1)), nil
}

// Op is called over HTTP
type Op struct {
	R    api.Request `url:"/call"`
	ID   string      `api:"in" json:"id"`
	Body string      `api:"out" json:"body"`
	v    *value
}

func (o *Op) Do(c ctx.C) error {
	o.v = newValue("call")
	_, err := handle(ctx.WithValue(c, "value", o.v), o.ID, o.v)
	o.Body = strings.Repeat("b", 30000)
	return err
}

// Chan is an object of a web socket
type Chan struct {
	v *value
}

func (o *Chan) Init(c ws.C, kind string) error {
	o.v = newValue(kind)
	if kind == "bad" {
		return errors.New("bad")
	}
	return nil
}
func (o *Chan) Again(c ws.C) error { return nil }
func (o *Chan) Quit(c ws.C) error  { return channelOf(&c).Close(c) }

// channelOf finds the channel of a call: it has a public Close, but no public way to get it
func channelOf(c *ws.C) *ws.Channel {
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf((*ws.Channel)(nil)) {
			return (*ws.Channel)(unsafe.Pointer(v.Field(i).Pointer()))
		}
	}
	return nil
}

func newWorld() *world {
	c := log.WithSlogLogger(context.Background(), slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 1})))
	c, cf := ctx.WithCancel(c)
	w := &world{c: c, cancel: func() { cf(nil) }, things: map[string]*gate{}}
	theWorld = w
	s := http.NewServer(c)
	s.HandleFunc("/plain", func(rw gohttp.ResponseWriter, r *gohttp.Request) {
		v := newValue("plain")
		b, err := handle(ctx.WithValue(r.Context(), "value", v), r.FormValue("id"), v)
		if err == nil {
			_, _ = rw.Write(b)
		}
	})
	s.HandleRequest("/request", func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) {
		v := newValue("request")
		return handle(ctx.WithValue(c, "value", v), r.URL.Query().Get("id"), v)
	})
	s.MustRegisterAPI(c, &Op{})
	for _, kind := range []string{"socket", "own", "endless"} {
		s.Mux().Handle("/"+kind, ws.Handler{
			OnConnect: func(rc ctx.C, conn *ws.Conn) (ctx.C, error) {
				switch kind {
				case "own":
					rc = ctx.Detach(rc)
				case "endless":
					rc = c
				}
				return ctx.WithValue(rc, "value", newValue(kind)), nil
			},
			OnData: func(c ctx.C, conn *ws.Conn, data enc.Node) error {
				if data.String() == `"fail"` {
					return errors.New("failed")
				}
				return conn.Send(c, data)
			},
		}.Server())
	}
	s.Mux().Handle("/rpc", new(ws.RpcHandler).MustRegister(c, &Chan{}).Server())
	a, err := s.Listen(c, "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	w.addr = a.String()
	w.other = httptest.NewServer(gohttp.HandlerFunc(w.answer))
	base, _ := url.Parse(w.other.URL)
	w.client = http.Client{BaseUrl: base}
	w.conn, err = dial(w.addr, "/rpc")
	if err != nil {
		panic(err)
	}
	w.lru = caches.NewLRU(c, 2, func(c ctx.C, k string) (*value, int, error) { return w.load("lru", k), 1, nil })
	w.mem = caches.Mem(c, func(c ctx.C, k string) (*value, error) { return w.load("mem", k), nil })
	w.fetches = caches.NewRequestLRU(c, 2, func(c ctx.C, k string) (*value, time.Duration, error) {
		g := w.at(k)
		if g == nil {
			return nil, time.Hour, nil
		}
		v := newValue("fetch")
		switch g.wait(c) {
		case "error":
			return v, 0, errors.New("failed")
		case "shortlived":
			return v, 0, nil
		}
		return v, time.Hour, nil
	})
	w.ordered = utils.NewOrderedMap[string, *value]()
	w.store = storage.NewMemKeyValue()
	time.Sleep(20 * time.Millisecond)
	return w
}

func (w *world) load(of, k string) *value {
	if k == "k" {
		return newValue(of)
	}
	return nil
}

// answer is what the server does to which the clients are connected
func (w *world) answer(rw gohttp.ResponseWriter, r *gohttp.Request) {
	id := r.URL.Query().Get("id")
	if r.Method == "POST" {
		body, _ := io.ReadAll(r.Body)
		if id == "" {
			id = strings.Split(string(body), `"`)[3]
		}
	}
	g := w.at(id)
	if g == nil {
		return
	}
	switch do := g.wait(r.Context()); do {
	case "answer":
		rw.Header().Set("Content-Type", "application/json")
		fmt.Fprintf(rw, `{"body":%q}`, strings.Repeat("x", 50000))
	case "status":
		rw.WriteHeader(500)
		fmt.Fprint(rw, strings.Repeat("x", 50000))
	case "cut":
		rw.Header().Set("Content-Length", "50000")
		fmt.Fprint(rw, `{"body":"x`)
		panic(gohttp.ErrAbortHandler)
	case "hangup":
		panic(gohttp.ErrAbortHandler)
	}
}

// thing is what is in progress, by what can be done with it
type thing interface{ do(op string) string }

type obj struct {
	w      *world
	things map[string]thing
}

func (o *obj) Close() {
	for k, t := range o.things { // not the way they have to end, but so they do
		if c, ok := t.(interface{ end() }); ok {
			c.end()
		}
		delete(o.things, k)
	}
	o.w.idle()
}

func (o *obj) Do(a vt.Act) (any, any) {
	k, do := a.Str("k"), a.Str("do")
	t := o.things[k]
	if t == nil {
		t = o.w.begin(k)
		o.things[k] = t
	}
	ret := t.do(do)
	if a.Bool("over") {
		delete(o.things, k)
	}
	if a.Bool("last") {
		t = nil
		return ret, o.w.idle()
	}
	return ret, "busy"
}

func (w *world) begin(k string) thing {
	switch k {
	case "plain", "request", "call":
		return &served{w: w, kind: k}
	case "socket", "own", "endless", "rpc":
		return &socket{w: w, kind: k}
	case "channel":
		return &channel{w: w}
	case "get", "post", "api":
		return &called{w: w, kind: k}
	case "lock":
		return &lock{}
	case "read":
		return &reading{w: w}
	case "cancel", "timeout", "span":
		return &derived{w: w, kind: k}
	case "pipe":
		return &piped{w: w}
	case "fetch":
		return &fetched{w: w}
	}
	return &kept{w: w, kind: k}
}

// served is a request in a handler
type served struct {
	w    *world
	kind string
	id   string
	g    *gate
	conn net.Conn
	res  chan string
}

func (t *served) send(id string) {
	conn, err := net.DialTimeout("tcp", t.w.addr, vt.Patience)
	if err != nil {
		panic(err)
	}
	t.conn = conn
	body := ""
	if t.kind == "call" {
		body = fmt.Sprintf(`{"id":%q}`, id)
		if id == "" {
			body = `{"id":`
		}
	}
	fmt.Fprintf(conn, "POST /%s?id=%s HTTP/1.1\r\nHost: x\r\nConnection: close\r\nAccept-Encoding: gzip\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", t.kind, id, len(body), body)
	t.res = make(chan string, 1)
	go func() {
		b, err := io.ReadAll(conn)
		f := strings.Fields(string(b))
		switch {
		case len(f) > 1:
			t.res <- f[1]
		case err != nil && !errors.Is(err, net.ErrClosed) && !strings.Contains(err.Error(), "reset"):
			t.res <- err.Error()
		default:
			t.res <- "gone"
		}
	}()
}

func (t *served) do(op string) string {
	switch op {
	case "begin":
		t.id, t.g = t.w.gate()
		t.send(t.id)
		got(t.g.entered, "the handler is not called")
		return "ok"
	case "bad":
		t.send("")
		defer t.conn.Close()
		return got(t.res, "a bad request")
	case "hangup":
		t.conn.Close()
		got(t.g.left, "a handler whose client is gone")
		got(t.res, "a closed connection")
		t.w.forget(t.id)
		return "over"
	}
	t.g.do <- op
	res := got(t.res, op)
	t.conn.Close()
	t.w.forget(t.id)
	return res
}

func (t *served) end() { t.do("hangup") }

// socket is an open web socket
type socket struct {
	w    *world
	kind string
	conn *client
}

func (t *socket) do(op string) string {
	switch op {
	case "refused":
		_, err := dialFrom(t.w.addr, "/"+t.kind, "null")
		if err == nil {
			return "accepted"
		}
		return strings.Fields(err.Error())[1]
	case "begin":
		conn, err := dial(t.w.addr, "/"+t.kind)
		if err != nil {
			return err.Error()
		}
		t.conn = conn
		if t.kind == "rpc" {
			if err := conn.text(`{"type":"new","channel":"c","path":"chan","data":"rpc"}`); err != nil {
				return err.Error()
			}
			if err := conn.text(`{"channel":"c","path":"again"}`); err != nil {
				return err.Error()
			}
			return conn.until("return")
		}
		_ = conn.text(`"hello"`)
		return conn.until("hello")
	case "close":
		_ = t.conn.raw(frame(opClose, true, true, []byte{3, 232}))
	case "drop":
		_ = t.conn.conn.(*net.TCPConn).SetLinger(0)
		t.conn.close()
		return "over"
	case "bye":
		_ = t.conn.text(`{"type":"close"}`)
	case "empty":
		_ = t.conn.text(`{`)
	case "fail", "flood":
		msg := `"fail"`
		if t.kind == "rpc" {
			msg = `{"channel":"none","path":"again"}`
		}
		b := frame(opText, true, true, []byte(msg))
		if op == "flood" {
			b = append(append(append(b, b...), b...), b...)
		}
		_ = t.conn.raw(b)
	}
	res := t.conn.drain()
	t.conn.close()
	return res
}

func (t *socket) end() { t.conn.close() }

// channel is on a web socket which stays
type channel struct {
	w  *world
	id string
}

func (t *channel) do(op string) string {
	say := func(f string, until string) string {
		if err := t.w.conn.text(strings.ReplaceAll(f, "ID", t.id)); err != nil {
			return err.Error()
		}
		return t.w.conn.until(until)
	}
	switch op {
	case "begin":
		t.id, _ = t.w.gate()
		t.w.forget(t.id)
		if err := t.w.conn.text(fmt.Sprintf(`{"type":"new","channel":%q,"path":"chan","data":"channel"}`, t.id)); err != nil {
			return err.Error()
		}
		return say(`{"channel":"ID","path":"again"}`, "return")
	case "again":
		return say(`{"channel":"ID","path":"again"}`, "return")
	case "bad":
		if res := say(`{"type":"new","channel":"bad","path":"chan","data":"bad"}`, `"error"`); res != "ok" {
			return res
		}
		return "error"
	case "quit":
		if res := say(`{"channel":"ID","path":"quit"}`, `"close"`); res != "ok" {
			return res
		}
		if res := t.w.conn.until(`"return"`); res != "ok" {
			return res
		}
		return "close"
	case "close":
		if res := say(`{"type":"close","channel":"ID"}`, `"close"`); res != "ok" {
			return res
		}
		return "close"
	}
	return "?"
}

func (t *channel) end() { t.do("close") }

// called is a call to another server
type called struct {
	w      *world
	kind   string
	id     string
	g      *gate
	cancel func()
	res    chan string
}

// AskOp is what is called there
type AskOp struct {
	R    api.Request `url:"/ask"`
	ID   string      `api:"in" json:"id"`
	Body string      `api:"out" json:"body"`
	v    *value
}

func (*AskOp) Do(ctx.C) error { return nil }

func (t *called) call(c ctx.C, base string) string {
	var err error
	var b []byte
	cli := t.w.client
	u, _ := url.Parse(base)
	cli.BaseUrl = u
	c = ctx.WithValue(c, "value", newValue(t.kind))
	switch t.kind {
	case "get":
		b, err = cli.Get(c, base+"/ask?id="+t.id)
	case "post":
		b, err = cli.Post(c, base+"/ask?id="+t.id, []byte("{}"))
	case "api":
		o := &AskOp{ID: t.id, v: newValue(t.kind)}
		err = cli.API(c, o)
		b = []byte(o.Body)
	}
	if err != nil {
		return "error"
	}
	if len(b) < 50000 {
		return fmt.Sprint("answered with ", len(b))
	}
	return "ok"
}

func (t *called) do(op string) string {
	switch op {
	case "unreachable":
		return t.call(t.w.c, "http://127.0.0.1:1")
	case "begin":
		t.id, t.g = t.w.gate()
		c, cf := ctx.WithCancel(t.w.c)
		t.cancel = func() { cf(nil) }
		t.res = make(chan string, 1)
		go func() { t.res <- t.call(c, t.w.other.URL) }()
		got(t.g.entered, "a call is not answered")
		return "ok"
	case "cancel":
		t.cancel()
		defer got(t.g.left, "the caller is gone")
	default:
		t.g.do <- op
	}
	res := got(t.res, "a call which is over")
	t.cancel()
	t.w.forget(t.id)
	return res
}

func (t *called) end() { t.do("cancel") }

// lock is waited for while somebody else has it
type lock struct {
	m     *sync.Mutex
	res   chan bool
	phase string
}

func (t *lock) do(op string) string {
	switch t.phase + " " + op {
	case " begin":
		t.m = &sync.Mutex{}
		t.m.Lock()
		t.res = make(chan bool, 1)
		started := make(chan bool)
		go func() {
			close(started)
			t.res <- t.m.TryLock(vt.Patience)
		}()
		<-started
		t.phase = "waiting"
		return "ok"
	case "waiting timeout": // of another attempt, which is not as patient
		t.phase = "left"
		return fmt.Sprint(t.m.TryLock(time.Millisecond))
	case "waiting unlock":
		t.phase = "owned"
		t.m.Unlock()
		return fmt.Sprint(got(t.res, "the lock is free"))
	case "left unlock":
		t.m.Unlock()
		if !got(t.res, "the lock is free") {
			return "false"
		}
		t.m.Unlock()
		return "ok"
	case "owned unlock":
		t.m.Unlock()
		return "ok"
	}
	return "?"
}

func (t *lock) end() {
	for t.phase == "waiting" {
		t.do("unlock")
	}
	t.do("unlock")
}

// twice tells when it is read for the second time
type twice struct {
	io.Reader
	n       int
	entered chan bool
}

func (t *twice) Read(b []byte) (int, error) {
	if t.n++; t.n == 2 {
		t.entered <- true
	}
	return t.Reader.Read(b)
}

// reading is of something which has no end yet
type reading struct {
	w      *world
	out    *io.PipeWriter
	cancel func()
	res    chan string
	closed chan bool
}

func (t *reading) do(op string) string {
	switch op {
	case "begin":
		c, cf := ctx.WithCancel(t.w.c)
		t.cancel = func() { cf(nil) }
		in, out := io.Pipe()
		t.out, t.res, t.closed = out, make(chan string, 1), make(chan bool, 1)
		v, again := newValue("read"), make(chan bool, 1)
		go func() {
			b, err := utils.ReadAll(ctx.WithValue(c, "value", v), &twice{Reader: in, entered: again}, func() error { t.closed <- true; return nil })
			if err != nil {
				t.res <- "error"
			} else if string(b) != "some" {
				t.res <- string(b)
			} else {
				t.res <- "ok"
			}
		}()
		_, _ = out.Write([]byte("some"))
		got(again, "what is written is not read")
		return "ok"
	case "cancel":
		t.cancel()
		res := got(t.res, "a cancelled reader")
		got(t.closed, "what is read is not closed")
		t.res = nil
		return res
	case "eof":
		t.out.Close()
	case "error":
		_ = t.out.CloseWithError(errors.New("failed"))
	}
	if t.res == nil {
		return "ok"
	}
	res := got(t.res, "what is read is over")
	t.cancel()
	return res
}

func (t *reading) end() {
	t.cancel()
	t.out.Close()
}

// derived is a context of a parent which stays
type derived struct {
	w      *world
	kind   string
	up     func()
	c      ctx.C
	cancel func()
	over   chan bool
}

func (t *derived) do(op string) string {
	switch op {
	case "begin":
		p, cf := ctx.WithCancel(t.w.c)
		t.up = func() { cf(nil) }
		d := 5 * time.Millisecond
		t.derive(p, d)
		return "ok"
	case "expire":
		time.Sleep(6 * time.Millisecond)
	case "parent":
		t.up()
		got(t.c.Done(), "the parent is over")
	case "cancel":
		// what is left of it must not be what it was derived of: that one stays
		t.cancel()
		c := t.c
		t.c = nil
		got(c.Done(), "it is cancelled")
		t.up()
		return "ok"
	}
	got(t.c.Done(), "it is over")
	t.up()
	return "ok"
}

func (t *derived) end() { t.up() }

func (t *derived) derive(p ctx.C, d time.Duration) {
	p = ctx.WithTag(p, "a", 1)
	p = ctx.WithValue(p, "value", newValue(t.kind))
	// the parent of what ends is the application, too
	of := ctx.WithTracking(ctx.WithValue(t.w.c, "value", newValue(t.kind)), "t")
	if t.kind == "timeout" {
		c, cf := ctx.WithTimeout(p, d)
		t.c, t.cancel = ctx.WithTag(c, "b", 2), cf
		c2, _ := ctx.WithTimeout(of, d)
		got(c2.Done(), "a timeout")
		_, cf2 := ctx.WithDeadline(of, time.Now().Add(time.Hour))
		cf2()
	} else if t.kind == "span" {
		c, cf := ctx.Span(p, "s")
		t.c, t.cancel = c, func() { cf(nil) }
		_, cf2 := ctx.Span(of, "s")
		cf2(nil)
	} else {
		c, cf := ctx.WithCancel(p)
		t.c, t.cancel = ctx.WithTracking(c, "x"), func() { cf(nil) }
		_, cf2 := ctx.WithCancel(of)
		cf2.Exit()
	}
}

// piped is a message one waits for
type piped struct {
	w      *world
	other  enc.Pipe
	cancel func()
	res    chan string
}

func (t *piped) do(op string) string {
	switch op {
	case "begin":
		var one enc.Pipe
		one, t.other = enc.NewPipe(0)
		c, cf := ctx.WithCancel(t.w.c)
		t.cancel, t.res = func() { cf(nil) }, make(chan string, 1)
		v := newValue("pipe")
		go func() {
			n, err := one.Read(ctx.WithValue(c, "value", v))
			switch {
			case err == io.EOF:
				t.res <- "eof"
			case err != nil:
				t.res <- "error"
			case n != enc.String("message"):
				t.res <- n.String()
			default:
				t.res <- "ok"
			}
		}()
		return "ok"
	case "send":
		if err := t.other.Write(t.w.c, enc.String("message")); err != nil {
			return err.Error()
		}
	case "close":
		_ = t.other.Close(t.w.c)
	case "cancel":
		t.cancel()
	}
	defer t.cancel()
	return got(t.res, "a pipe")
}

func (t *piped) end() { t.do("cancel") }

// fetched is on its way into a cache
type fetched struct {
	w   *world
	id  string
	g   *gate
	res chan string
}

func (t *fetched) do(op string) string {
	switch op {
	case "begin":
		t.id, t.g = t.w.gate()
		t.res = make(chan string, 1)
		go func() {
			c, cf := ctx.WithCancel(t.w.c)
			defer cf(nil)
			v, _, err := t.w.fetches.Request(ctx.WithValue(c, "value", newValue("fetch context")), t.id)
			if err != nil {
				t.res <- "error"
			} else if v == nil || v.of != "fetch" {
				t.res <- "something else"
			} else {
				t.res <- "ok"
			}
		}()
		got(t.g.entered, "nothing is fetched")
		return "ok"
	case "invalidate":
		t.w.fetches.Invalidate(t.w.c, t.id)
		return "ok"
	case "evict":
		for _, k := range []string{"x", "y", "z"} {
			_, _, _ = t.w.fetches.Request(t.w.c, k)
		}
		return "ok"
	}
	t.g.do <- op
	res := got(t.res, "a fetch which is over")
	t.w.forget(t.id)
	return res
}

func (t *fetched) end() {
	if len(t.g.left) == 0 {
		t.do("error")
	}
	t.do("invalidate")
}

// kept is in a collection
type kept struct {
	w    *world
	kind string
	v    string
}

func (t *kept) do(op string) string {
	w, c := t.w, t.w.c
	switch t.kind + " " + op {
	case "lru begin":
		_, _, _ = w.lru.Get(c, "k")
	case "lru invalidate":
		w.lru.Invalidate(c, "k")
	case "lru evict":
		for _, k := range []string{"x", "y", "z"} {
			_, _, _ = w.lru.Get(c, k)
		}
	case "mem begin":
		_, _, _ = w.mem.Get(c, "k")
	case "mem invalidate":
		w.mem.Invalidate(c, "k")
	case "map begin":
		w.values.Store("k", newValue("map"))
	case "map delete":
		w.values.Delete("k")
	case "map take":
		if v, ok := w.values.LoadAndDelete("k"); !ok || v.of != "map" {
			return "something else"
		}
	case "map replace":
		w.values.Store("k", nil)
	case "set begin":
		t.v = text("set")
		w.set.Add(t.v)
	case "set delete":
		w.set.Remove(t.v)
		t.v = ""
	case "ordered begin":
		w.ordered.Put("k", newValue("ordered"))
	case "ordered delete":
		w.ordered.Delete("k")
	case "ordered replace":
		w.ordered.Put("k", nil)
	case "store begin":
		_ = w.store.Upsert(c, "k", enc.Map{"node": enc.String(text("store")), "list": enc.List{enc.String(text("store"))}})
	case "store delete":
		_ = w.store.Delete(c, "k")
	case "store replace":
		_ = w.store.Upsert(c, "k", enc.Map{"node": enc.Nil{}})
	default:
		panic(t.kind + " " + op)
	}
	return "ok"
}

func (t *kept) end() {
	for _, op := range []string{"delete", "invalidate"} {
		vt.Protect(func() { t.do(op) })
	}
}

// text is a value which is a string
func text(of string) string {
	s := strings.Repeat("x", 100)
	values.m.Lock()
	values.by[of]++
	values.m.Unlock()
	runtime.AddCleanup(unsafe.StringData(s), func(of string) {
		values.m.Lock()
		values.by[of]--
		values.m.Unlock()
	}, of)
	return s
}

func TestLeaksReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Par = 1
	w := newWorld()
	var once gosync.Once
	g.Replay("leaks", vt.Scale(150, 1000), 60, func(vt.Act) vt.Obj {
		once.Do(func() { w.base = now() })
		return &obj{w: w, things: map[string]thing{}}
	})
	vt.Done()
}

// what can be done with a thing in a phase, and where it leads
type move struct{ do, to string }

// machines reads what the kinds are from the specification
func machines(file string) map[string]map[string][]move {
	f, err := os.Open(file)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	m := map[string]map[string][]move{}
	d := json.NewDecoder(f)
	for {
		var e struct {
			F, T map[string]string
			A    vt.Act
		}
		if d.Decode(&e) != nil {
			return m
		}
		k := e.A.Str("k")
		if m[k] == nil {
			m[k] = map[string][]move{}
		}
		mv := move{e.A.Str("do"), e.T[k]}
		if l := m[k][e.F[k]]; !slices.Contains(l, mv) {
			m[k][e.F[k]] = append(l, mv)
		}
	}
}

// kinds of which there may be several at a time
var several = []string{"plain", "request", "call", "socket", "own", "endless", "rpc", "get", "post", "api", "lock", "read", "cancel", "timeout", "span", "pipe", "fetch"}

func TestLeaksConc(t *testing.T) {
	ms := machines(os.Getenv("GRAPH"))
	tr := vt.OpenTraces("TRACES")
	w := newWorld()
	w.base = now()
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(60, 600) && !w.wrong; i++ {
		h := &vt.Hist{}
		var wg gosync.WaitGroup
		n := 1 + r.Intn(40)
		for j := 1; j <= n; j++ {
			k := several[r.Intn(len(several))]
			if i%3 == 0 { // of the same kind
				k = several[(i/3+j/20)%len(several)]
			}
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				if msg := vt.Protect(func() { one(w, h, fmt.Sprint(j), k, ms[k], rr) }); msg != "" {
					vt.Violation("leaks-conc", k+": "+msg, h.Ev)
				}
			}()
		}
		wg.Wait()
		h.Add(vt.J{"op": "look", "obs": w.idle()})
		tr.Write(h)
	}
	tr.Close()
	vt.Done()
}

func one(w *world, h *vt.Hist, id, k string, m map[string][]move, r *rand.Rand) {
	t, phase := w.begin(k), ""
	for {
		time.Sleep(time.Duration(r.Intn(3)*r.Intn(3)) * time.Millisecond)
		mv := m[phase][r.Intn(len(m[phase]))]
		h.Add(vt.J{"op": "do", "t": id, "k": k, "do": mv.do, "ret": t.do(mv.do)})
		if phase = mv.to; phase == "" {
			return
		}
	}
}
