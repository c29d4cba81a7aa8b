package reqs

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"net"
	gohttp "net/http"
	"net/url"
	"os"
	"sync"
	"testing"
	"time"

	"golang.org/x/net/websocket"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/http/ws"
)

// one request, in its handler
type visit struct {
	c    ctx.C
	stay chan bool
}

type server struct {
	srv    *http.Server
	addr   string
	cancel func(error)
	came   map[string]chan *visit // by what the request says of itself
	calls  sync.Mutex
	m      sync.Mutex
	names  map[string]string // of the clients by address
}

// hold keeps a request in its handler
func (s *server) hold(c ctx.C, id string) {
	v := &visit{c, make(chan bool)}
	s.m.Lock()
	came := s.came[id]
	delete(s.came, id)
	s.m.Unlock()
	if came == nil {
		vt.Violation("request-unknown", "a handler runs for a request nobody has made: "+id, nil)
		return
	}
	came <- v
	<-v.stay
}

// expect is where the request, once in its handler, will be found
func (s *server) expect(id string) chan *visit {
	s.m.Lock()
	defer s.m.Unlock()
	came := make(chan *visit, 1)
	s.came[id] = came
	return came
}

type Op struct {
	R api.Request `url:"/api"`
	S *server
	X string `api:"in" json:"x"`
}

func (o *Op) Do(c ctx.C) error { o.S.hold(c, o.X); return nil }

type Held struct{ S *server }

func (h *Held) Hold(c ws.C, id string) error { h.S.hold(c, id); return nil }

type key struct{}

func newServer() *server {
	c := log.WithSlogLogger(context.Background(), slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 1})))
	c = context.WithValue(ctx.WithTag(c, "base", "base"), key{}, "value")
	s := &server{came: map[string]chan *visit{}, names: map[string]string{}}
	c, s.cancel = ctx.WithCancel(c)
	s.srv = http.NewServer(c)
	h := func(w gohttp.ResponseWriter, r *gohttp.Request) {
		_, _ = io.Copy(io.Discard, r.Body) // nobody looks at the connection while there is more to read
		s.hold(r.Context(), r.Header.Get("X-Id"))
		w.WriteHeader(204)
	}
	s.srv.Handle("/handle/", gohttp.HandlerFunc(h))
	s.srv.Mux().HandleFunc("/mux/", h)
	s.srv.HandleRequest("/request", func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) {
		s.hold(c, r.Header.Get("X-Id"))
		return nil, nil
	})
	http.CallHandler{Path: "/call", Handler: func(c ctx.C, call *http.Call) error {
		s.hold(c, "call") // a call does not show its request
		return nil
	}}.Register(s.srv)
	if _, err := s.srv.RegisterAPI(c, &Op{S: s}); err != nil {
		panic(err)
	}
	rpc := &ws.RpcHandler{}
	rpc.MustRegister(c, &Held{s})
	s.srv.Handle("/ws", rpc.Server())
	a, err := s.srv.Listen(c, "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s.addr = a.String()
	return s
}

// a client and its connection
type client struct {
	s    *server
	name string
	n    int
	rnd  *rand.Rand
	conn net.Conn
	r    *bufio.Reader
	ws   *websocket.Conn
	how  string
	uas  map[string]string
	ps   map[string]string
	v    *visit
}

var agents = []string{"curl/8", `a "quoted" \agent`, "日本", "x", "Mozilla/5.0 (X11; Linux x86_64)", "null", "{}", "ua path"}
var paths = []string{"plain", "sp ace", "é/日本", `q"uote\`, "a%b", "http.addr", "?x#y", "ua;path", "UPPER/lower", "slash/", "deep/er/"}

func newClient(s *server, name string, r *rand.Rand) *client {
	u, p := r.Perm(len(agents)), r.Perm(len(paths))
	return &client{s: s, name: name, rnd: r,
		uas: map[string]string{"u1": agents[u[0]], "u2": agents[u[1]], "none": ""},
		ps:  map[string]string{"p1": paths[p[0]], "p2": paths[p[1]]}}
}

func (c *client) close() {
	if c.ws != nil {
		c.ws.Close()
	}
	if c.conn != nil {
		c.conn.Close()
	}
	c.conn, c.r, c.ws = nil, nil, nil
}

func (c *client) begin(how, ua, path string) any {
	c.how = how
	c.n++
	id := fmt.Sprint(c.name, ".", c.n)
	if how == "call" {
		c.s.calls.Lock()
		defer c.s.calls.Unlock()
		id = "call"
	}
	came := c.s.expect(id)
	if c.conn == nil {
		conn, err := net.Dial("tcp", c.s.addr)
		if err != nil {
			return "dial: " + err.Error()
		}
		_ = conn.SetDeadline(time.Now().Add(5 * time.Minute))
		c.conn, c.r = conn, bufio.NewReader(conn)
		c.s.m.Lock()
		c.s.names[conn.LocalAddr().String()] = c.name
		c.s.m.Unlock()
	}
	target := "/" + how
	if how == "handle" || how == "mux" {
		target += "/" + (&url.URL{Path: c.ps[path]}).EscapedPath()
	}
	agent := c.uas[ua]
	switch how {
	case "ws":
		conf, err := websocket.NewConfig("ws://"+c.s.addr+"/ws", "http://x/")
		if err != nil {
			return err.Error()
		}
		if ua != "none" {
			conf.Header = gohttp.Header{"User-Agent": {agent}}
		}
		if c.ws, err = websocket.NewClient(conf, c.conn); err != nil {
			return "handshake: " + err.Error()
		}
		_ = websocket.JSON.Send(c.ws, vt.J{"channel": "x", "path": "held", "type": "new"})
		_ = websocket.JSON.Send(c.ws, vt.J{"channel": "x", "path": "hold", "data": id})
	default:
		body, method := fmt.Sprintf(`{"x":%q}`, id), "POST"
		if how != "api" && c.rnd.Intn(2) == 0 {
			body, method = "", []string{"GET", "POST", "DELETE", "OPTIONS", "PUT"}[c.rnd.Intn(5)]
		}
		req := method + " " + target + " HTTP/1.1\r\nHost: x\r\nX-Id: " + id + "\r\n"
		if body != "" || c.rnd.Intn(2) == 0 {
			req += fmt.Sprintf("Content-Length: %d\r\n", len(body))
		}
		if ua != "none" {
			req += "User-Agent: " + agent + "\r\n"
		}
		if _, err := io.WriteString(c.conn, req+"\r\n"+body); err != nil {
			return "write: " + err.Error()
		}
	}
	select {
	case c.v = <-came:
		return c.tags(ua, path)
	case <-time.After(vt.Patience):
		return "the handler does not start"
	}
}

// tags is what the server has said about the request
func (c *client) tags(ua, path string) any {
	return c.s.tags(c.v.c, func(k, v string) string {
		switch k {
		case "ua":
			if v == c.uas[ua] {
				return ua
			}
		case "path":
			want := "/" + c.how
			if c.how == "handle" || c.how == "mux" {
				want += "/" + c.ps[path]
			}
			if v == want {
				return path
			}
		}
		return "other: " + v
	})
}

func (s *server) tags(c ctx.C, name func(k, v string) string) any {
	out := map[string][]string{"base": {}, "addr": {}, "remote": {}, "ua": {}, "path": {}}
	bad := ""
	err := ctx.RangeTag(c, func(k string, j ctx.JSON) error {
		var v string
		if json.Unmarshal(j, &v) != nil {
			v = "json: " + string(j)
		}
		switch k {
		case "base":
			out["base"] = append(out["base"], v)
		case "http.addr":
			if v == s.addr {
				v = "own"
			}
			out["addr"] = append(out["addr"], v)
		case "http.remote":
			s.m.Lock()
			if n, ok := s.names[v]; ok {
				v = n
			}
			s.m.Unlock()
			out["remote"] = append(out["remote"], v)
		case "ua", "path":
			out[k] = append(out[k], name(k, v))
		}
		return nil
	})
	if err != nil {
		bad = "the tags: " + err.Error()
	}
	if c.Value(key{}) != "value" {
		bad = "the context does not have the values of the server's"
	}
	if bad != "" {
		return bad
	}
	return out
}

func (c *client) on() string {
	if c.v == nil {
		return "none"
	}
	if c.v.c.Err() != nil {
		return "over"
	}
	return "on"
}

// over waits for the end of the context
func over(v *visit) string {
	select {
	case <-v.c.Done():
		return "over"
	case <-time.After(vt.Patience):
		return "the context does not end"
	}
}

func (c *client) finish() string {
	v := c.v
	c.v = nil
	if v.c.Err() != nil {
		return "it was over before"
	}
	close(v.stay)
	if c.how == "ws" {
		for {
			var f struct{ Type string }
			if err := websocket.JSON.Receive(c.ws, &f); err != nil {
				return "no answer: " + err.Error()
			}
			if f.Type == "return" {
				break
			}
		}
		c.close()
		return over(v)
	}
	res, err := gohttp.ReadResponse(c.r, nil)
	if err != nil {
		return "no answer: " + err.Error()
	}
	_, _ = io.Copy(io.Discard, res.Body)
	res.Body.Close()
	if res.StatusCode/100 != 2 {
		return fmt.Sprint("status ", res.StatusCode)
	}
	return over(v)
}

func (c *client) drop() string {
	v := c.v
	c.v = nil
	if v.c.Err() != nil {
		return "it was over before"
	}
	wasWs := c.ws != nil
	c.close()
	if wasWs { // nobody reads before the handler returns
		close(v.stay)
		return over(v)
	}
	defer close(v.stay)
	return over(v)
}

// ---------------------------------------------------------------- replay

type obj struct {
	s *server
	c map[string]*client
}

func (o *obj) Do(a vt.Act) (any, any) {
	c := o.c[a.Str("c")]
	var ret any = "ok"
	switch a.Op() {
	case "start":
		ret = c.begin(a.Str("how"), a.Str("ua"), a.Str("path"))
	case "finish":
		ret = c.finish()
	case "drop":
		ret = c.drop()
	case "stop":
		o.s.cancel(nil)
		for _, c := range o.c {
			if c.v != nil {
				over(c.v)
			}
		}
	}
	obs := vt.J{}
	for k, c := range o.c {
		obs[k] = c.on()
	}
	return ret, obs
}

func (o *obj) Close() {
	for _, c := range o.c {
		if c.v != nil {
			close(c.v.stay)
		}
		c.close()
	}
	o.s.cancel(nil)
}

func TestReqReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	r := rand.New(rand.NewSource(vt.Seed()))
	var m sync.Mutex
	g.Replay("requests", vt.Scale(60, 600), 40, func(init vt.Act) vt.Obj {
		m.Lock()
		defer m.Unlock()
		o := &obj{newServer(), map[string]*client{}}
		for k := range init.Map("r") {
			o.c[k] = newClient(o.s, k, r)
		}
		return o
	})
	vt.Done()
}

// ---------------------------------------------------------------- many at a time

func TestReqTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(25, 250); i++ {
		s := newServer()
		h := &vt.Hist{}
		var wg sync.WaitGroup
		for k := 0; k < 2+r.Intn(12); k++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			name := fmt.Sprint("c", k)
			c := newClient(s, name, rr)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 12; j++ {
					how := []string{"handle", "mux", "request", "call", "api", "ws"}[rr.Intn(6)]
					ua, path := []string{"u1", "u2", "none"}[rr.Intn(3)], "p1"
					if how == "handle" || how == "mux" {
						path = []string{"p1", "p2"}[rr.Intn(2)]
					}
					ret := c.begin(how, ua, path)
					if s, bad := ret.(string); bad {
						vt.Violation("request-start", s, h.Ev)
						return
					}
					h.Add(vt.J{"op": "start", "c": name, "how": how, "ua": ua, "path": path, "ret": ret})
					for rr.Intn(3) > 0 {
						time.Sleep(time.Duration(rr.Intn(300)) * time.Microsecond)
						h.Add(vt.J{"op": "look", "c": name, "ua": ua, "path": path, "ret": c.on(), "tags": c.tags(ua, path)})
					}
					op := "finish"
					f := c.finish
					if rr.Intn(4) == 0 {
						op, f = "drop", c.drop
					}
					ret = f()
					h.Add(vt.J{"op": op, "c": name, "ret": ret})
					if ret != "over" {
						vt.Violation("request-"+op, fmt.Sprint(ret), h.Ev)
						return
					}
				}
				c.close()
			}()
		}
		wg.Wait()
		s.cancel(nil)
		tr.Write(h)
	}
	tr.Close()
	vt.Done()
}
