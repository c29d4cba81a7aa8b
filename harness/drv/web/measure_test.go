package web

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	gohttp "net/http"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/verifshim/vyield"
)

// ------------------------------------------------------------------ the metric

type key struct {
	method, path string
	code         int
}

var labelPair = regexp.MustCompile(`(\w+)="([^"]*)"`)

func scrape(prefix string) map[key]int {
	var buf bytes.Buffer
	if err := http.Metrics.Request.Print("http_request", &buf); err != nil {
		panic(err)
	}
	out := map[key]int{}
	for _, l := range strings.Split(buf.String(), "\n") {
		if !strings.HasPrefix(l, "http_request_count{") {
			continue
		}
		i := strings.LastIndex(l, "} ")
		if i < 0 {
			continue
		}
		var k key
		for _, p := range labelPair.FindAllStringSubmatch(l[19:i], -1) {
			switch p[1] {
			case "method":
				k.method = p[2]
			case "path":
				k.path = p[2]
			case "code":
				k.code, _ = strconv.Atoi(p[2])
			}
		}
		n, _ := strconv.Atoi(l[i+2:])
		if strings.HasPrefix(k.path, prefix) && n > 0 {
			out[k] += n
		}
	}
	return out
}

// ------------------------------------------------------------------ a server

type MOp struct {
	R api.Request `url:"/mop"`
	K string      `api:"in" json:"k"`
	C int         `api:"in" json:"c"`
	O string      `api:"out" json:"o"`
}

func (this *MOp) Do(c ctx.C) error {
	if this.K == "error" {
		return http.NewErrorf(c, this.C, "told so")
	}
	this.O = "x"
	return nil
}

type mserver struct {
	srv    *http.Server
	base   string
	prefix string
	client *gohttp.Client
	last   map[key]int
}

type stepv struct {
	K string `json:"k"`
	C int    `json:"c"`
}

func play(w gohttp.ResponseWriter, r *gohttp.Request) {
	var beh []stepv
	if err := json.Unmarshal([]byte(r.Header.Get("X-Beh")), &beh); err != nil {
		panic(err)
	}
	if d := r.Header.Get("X-Delay"); d != "" {
		n, _ := strconv.Atoi(d)
		time.Sleep(time.Duration(n) * time.Microsecond)
	}
	if id := r.Header.Get("X-Gone"); id != "" { // the client goes away before there is an answer
		ch, _ := begun.LoadAndDelete(id)
		close(ch.(chan bool))
		select {
		case <-r.Context().Done():
		case <-time.After(vt.Patience):
		}
	}
	for _, s := range beh {
		switch s.K {
		case "hijack":
			conn, _, err := w.(gohttp.Hijacker).Hijack()
			if err != nil {
				panic(err)
			}
			fmt.Fprintf(conn, "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: x\r\n\r\n")
			conn.Close()
		case "write":
			_, _ = w.Write([]byte("hello")[:s.C])
		case "status":
			w.WriteHeader(s.C)
		}
	}
}

func answer(c ctx.C, h gohttp.Header) ([]byte, error) {
	if d := h.Get("X-Delay"); d != "" {
		n, _ := strconv.Atoi(d)
		time.Sleep(time.Duration(n) * time.Microsecond)
	}
	var o stepv
	if err := json.Unmarshal([]byte(h.Get("X-Beh")), &o); err != nil {
		return nil, err
	}
	switch o.K {
	case "error":
		if o.C == 500 {
			return nil, errors.New("plain")
		}
		return nil, http.NewErrorf(c, o.C, "told so")
	case "none":
		return nil, nil
	}
	return []byte(`"body"`), nil
}

func newMServer(prefix string) *mserver {
	c := quiet()
	this := &mserver{srv: http.NewServer(c), prefix: prefix}
	this.client = &gohttp.Client{Transport: &gohttp.Transport{MaxIdleConnsPerHost: 64}, Timeout: 60 * time.Second,
		CheckRedirect: func(*gohttp.Request, []*gohttp.Request) error { return gohttp.ErrUseLastResponse }}
	p := this.prefix
	this.srv.Handle(p+"/handle", gohttp.HandlerFunc(play))
	this.srv.HandleFunc(p+"/handlefunc", play)
	this.srv.Mux().HandleFunc(p+"/mux", play)
	this.srv.Handle(p+"/subtree/", gohttp.HandlerFunc(play))
	this.srv.HandleRequest(p+"/request", func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) { return answer(c, r.Header) })
	http.CallHandler{Path: p + "/call", Handler: func(c ctx.C, call *http.Call) error {
		b, err := answer(c, gohttp.Header{"X-Beh": {lastCall.Load().(string)}})
		call.SetBody(b)
		return err
	}}.Register(this.srv)
	if _, err := this.srv.RegisterAPI(c, &MOp{}); err != nil {
		panic(err)
	}
	addr, err := this.srv.Listen(c, "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	this.base = "http://" + addr.String()
	this.last = scrape("")
	return this
}

var lastCall atomic.Value

func (this *mserver) send(method, path, beh string, delay int) (int, string) {
	var body io.Reader
	if method == "POST" || method == "PATCH" {
		body = strings.NewReader(beh)
	}
	lastCall.Store(beh)
	req, err := gohttp.NewRequest(method, this.base+path, body)
	if err != nil {
		return 0, err.Error()
	}
	req.Header.Set("X-Beh", beh)
	if delay > 0 {
		req.Header.Set("X-Delay", strconv.Itoa(delay))
	}
	res, err := this.client.Do(req)
	if err != nil {
		return 0, err.Error()
	}
	if res.StatusCode != 101 {
		_, _ = io.Copy(io.Discard, res.Body)
	}
	res.Body.Close()
	return res.StatusCode, ""
}

var begun sync.Map // requests whose clients go away, as soon as they have begun

// abort begins a request, and goes away
func (this *mserver) abort(method, path, beh string) string {
	c, cf := context.WithCancel(context.Background())
	defer cf()
	req, err := gohttp.NewRequestWithContext(c, method, this.base+path, nil)
	if err != nil {
		return err.Error()
	}
	id := fmt.Sprint(goneIDs.Add(1))
	ch := make(chan bool)
	begun.Store(id, ch)
	req.Header.Set("X-Gone", id)
	req.Header.Set("X-Beh", beh)
	done := make(chan string, 1)
	go func() {
		res, err := this.client.Do(req)
		if err == nil {
			res.Body.Close()
			done <- "an answer to an aborted request"
			return
		}
		done <- ""
	}()
	select {
	case <-ch:
	case <-time.After(vt.Patience):
		return "the request does not begin"
	}
	cf()
	return <-done
}

var goneIDs atomic.Int64

func (this *mserver) Do(a vt.Act) (any, any) {
	path, own, beh := "", "", "[]"
	switch a.Op() {
	case "setready":
		this.srv.SetReady(a.Int("c"))
		return 0, []any{}
	case "probe":
		path = a.Str("path")
		own = path
	case "serve", "function", "hijack":
		own = this.prefix + "/" + a.Str("reg")
		path = own
		if a.Str("reg") == "subtree" {
			own += "/"
			path += "/a/b"
		}
		if a.Str("reg") == "api" {
			own, path = "/mop", "/mop"
		}
		switch a.Op() {
		case "serve":
			beh = vt.Canon(a["beh"])
		case "function":
			beh = vt.Canon(a["out"])
		case "hijack":
			beh = `[{"k":"hijack"}]`
		}
	}
	status, msg := this.send(a.Str("method"), path, beh, 0)
	if msg != "" {
		return "no answer: " + msg, nil
	}
	want := a.List("obs")
	var obs []any
	var now map[key]int
	vt.Await(want, func() any {
		obs = []any{}
		now = scrape("")
		for k, n := range now {
			for i := this.last[k]; i < n; i++ {
				p := k.path
				if len(want) == 1 && vt.Act(want[0].(map[string]any)).Str("path") == "any" {
					p = "any"
				} else if p == own || p == path {
					p = "own"
				}
				code := k.code
				if code == status && redirect(status) {
					code = 300
				}
				obs = append(obs, vt.J{"method": k.method, "code": code, "path": p})
			}
		}
		return obs
	}, time.Millisecond, 0)
	this.last = now
	if redirect(status) {
		status = 300
	}
	return status, obs
}

// which of them is not specified
func redirect(code int) bool { return code == 301 || code == 302 || code == 307 || code == 308 }

func (this *mserver) Close() { this.client.CloseIdleConnections() }

func TestMeasureReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Par = 1 // the metric is global
	g.Replay("measure", 20, 40, func(vt.Act) vt.Obj { return newMServer("/m") })
	vt.Done()
}

func TestMeasureTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	ready := vt.OpenTraces("READY")
	r := rand.New(rand.NewSource(vt.Seed()))
	for n := 0; n < vt.Scale(40, 400); n++ {
		s := newMServer(fmt.Sprintf("/m%d", n))
		h := &vt.Hist{}
		vyield.Set(vyield.Real, r.Int63(), []int{0, 50, 90, 100}[r.Intn(4)])
		var wg, sc sync.WaitGroup
		stop := make(chan bool)
		scr := func(e string) {
			l := []any{}
			for k, n := range scrape(s.prefix) {
				l = append(l, vt.J{"method": k.method, "path": k.path[len(s.prefix):], "code": k.code, "n": n})
			}
			h.Add(vt.J{"e": e, "counts": l})
		}
		sc.Add(1)
		go func() {
			defer sc.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(200 * time.Microsecond):
					scr("scrape")
				}
			}
		}()
		rh := &vt.Hist{}
		for w := 0; w < 3; w++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer wg.Done()
				for k := 0; k < 5; k++ {
					switch r.Intn(3) {
					case 0:
						c := []int{200, 204, 404, 500, 503, 201 + r.Intn(3)}[r.Intn(6)]
						cl := rh.Inv(w, vt.J{"op": "set", "c": c})
						s.srv.SetReady(c)
						cl.Res(0)
					case 1:
						cl := rh.Inv(w, vt.J{"op": "live"})
						st, _ := s.send("GET", "/live", "[]", 0)
						cl.Res(st)
					default:
						cl := rh.Inv(w, vt.J{"op": "ready"})
						st, _ := s.send("GET", "/ready", "[]", 0)
						cl.Res(st)
					}
				}
			}()
		}
		done := map[key]int{}
		var m sync.Mutex
		for w := 0; w < 6; w++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer wg.Done()
				for k := 0; k < 6; k++ {
					method := []string{"GET", "POST", "HEAD", "PATCH", "DELETE", "PURGE", "get"}[r.Intn(7)]
					a := vt.J{"method": method}
					reg, beh := "", ""
					if r.Intn(4) == 0 {
						reg = "request"
						o := vt.J{"k": []string{"none", "body", "error"}[r.Intn(3)], "c": 0}
						if o["k"] == "error" {
							o["c"] = 400 + r.Intn(200)
							if o["c"] == 500 {
								o["c"] = 501
							}
						}
						a["kind"], a["out"] = "function", o
						beh = vt.Canon(o)
					} else {
						reg = []string{"handle", "handlefunc", "mux", "subtree/"}[r.Intn(4)]
						l := []any{}
						for len(l) < 4 && r.Intn(3) > 0 {
							switch r.Intn(3) {
							case 0:
								l = append(l, vt.J{"k": "write", "c": r.Intn(6)})
							case 1:
								l = append(l, vt.J{"k": "status", "c": []int{103, 102, 110}[r.Intn(3)]})
							default:
								l = append(l, vt.J{"k": "status", "c": 200 + r.Intn(400)})
							}
						}
						a["kind"], a["beh"] = "serve", l
						beh = vt.Canon(l)
					}
					gone := a["kind"] == "serve" && method != "POST" && method != "PATCH" && r.Intn(5) == 0
					code := 200
					if gone {
						l := []any{}
						if r.Intn(4) > 0 {
							code = 200 + r.Intn(400)
							l = append(l, vt.J{"k": "status", "c": code})
						}
						a["beh"], beh = l, vt.Canon(l)
					}
					a["path"] = "/" + reg
					b := vt.J{"e": "begin"}
					for k, v := range a {
						b[k] = v
					}
					h.Add(b)
					if gone {
						if msg := s.abort(method, s.prefix+"/"+reg, beh); msg != "" {
							vt.Violation("measure-noanswer", msg, a)
							return
						}
						m.Lock()
						done[key{method, "/" + reg, code}]++
						m.Unlock()
						continue
					}
					st, msg := s.send(method, s.prefix+"/"+reg, beh, []int{0, 0, 100, 1000}[r.Intn(4)])
					if msg != "" {
						vt.Violation("measure-noanswer", "no answer: "+msg, a)
						return
					}
					m.Lock()
					done[key{method, "/" + reg, st}]++
					m.Unlock()
					e := vt.J{"e": "end", "status": st}
					for k, v := range a {
						e[k] = v
					}
					h.Add(e)
				}
			}()
		}
		wg.Wait()
		close(stop)
		sc.Wait()
		vyield.Set(vyield.Off, 0, 0)
		// until the last ones are counted
		vt.Await(vt.Canon(toList(done)), func() any { return vt.Canon(toList(trim(scrape(s.prefix), len(s.prefix)))) }, time.Millisecond, 0)
		scr("quiet")
		tr.Write(h)
		ready.Write(rh)
		s.Close()
	}
	tr.Close()
	ready.Close()
	vt.Done()
}

func trim(m map[key]int, n int) map[key]int {
	out := map[key]int{}
	for k, v := range m {
		k.path = k.path[n:]
		out[k] = v
	}
	return out
}

func toList(m map[key]int) map[string]int {
	out := map[string]int{}
	for k, v := range m {
		out[fmt.Sprint(k)] = v
	}
	return out
}
