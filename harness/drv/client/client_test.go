package client

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	stdlog "log"
	"log/slog"
	"math/rand"
	gohttp "net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/http"

	"verif/harness/vt"
)

func quiet() ctx.C {
	return log.WithSlogLogger(context.Background(), slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 1})))
}

// ------------------------------------------------------------------ bodies left open

var opened atomic.Int64

type counted struct {
	io.ReadCloser
	once sync.Once
}

func (this *counted) Close() error {
	this.once.Do(func() { opened.Add(-1) })
	return this.ReadCloser.Close()
}

type counting struct{ gohttp.RoundTripper }

func (this counting) RoundTrip(r *gohttp.Request) (*gohttp.Response, error) {
	res, err := this.RoundTripper.RoundTrip(r)
	if res != nil && res.Body != nil {
		opened.Add(1)
		res.Body = &counted{ReadCloser: res.Body}
	}
	return res, err
}

func init() { gohttp.DefaultTransport = counting{gohttp.DefaultTransport} }

// ------------------------------------------------------------------ the API object

type UID string

type Thing struct {
	X    api.Request `url:"/api/thing?q=a%20b&r=%2F"`
	Id   string      `api:"in" json:"id"`
	In   int         `api:"in" json:"in"`
	Both string      `api:"in,out" json:"both"`
	Out  string      `api:"out" json:"out"`
	N    int         `api:"out" json:"n"`
	Who  UID         `api:"auth"`
	Mine string
}

func (this *Thing) Do(ctx.C) error { return nil }

type NoUrl struct {
	In int `api:"in"`
}

func (this *NoUrl) Do(ctx.C) error { return nil }

func thing(id string) *Thing {
	return &Thing{Id: id, In: 7, Both: "asked", Out: "before", N: 3, Who: "me", Mine: "mine"}
}

// ------------------------------------------------------------------ the server

type plan struct {
	St   int    `json:"st"`
	How  string `json:"how"`
	Body string `json:"body"`
	id   string
	want string        // the request as it has to come: method, type and body
	got  chan string   // what came
	in   chan struct{} // it waits
	good bool          // the body gets to the client
}

func (p *plan) text() []byte {
	switch p.Body {
	case "text":
		return []byte("some text for " + p.id)
	case "object":
		return []byte(fmt.Sprintf(`{"both":"b%s","out":"o%s","n":12}`, p.id, p.id))
	case "part":
		return []byte(fmt.Sprintf(`{"out":"o%s"}`, p.id))
	case "extra":
		return []byte(fmt.Sprintf(`{"id":"other","in":99,"both":"b%s","out":"o%s","n":12,"Who":"you","who":"you","Mine":"x","zzz":{"a":[1]}}`, p.id, p.id))
	case "wrong":
		return []byte(`{"n":{"a":1}}`)
	case "digit":
		return []byte("5")
	case "list":
		return []byte(`["` + p.id + `"]`)
	case "broken":
		return []byte(`{"out":"o` + p.id)
	case "big":
		return bytes.Repeat([]byte(p.id+" "), 40000)
	}
	return nil
}

type server struct {
	*httptest.Server
	m     sync.Mutex
	plans map[string]*plan
	ids   atomic.Int64
	end   chan struct{}
}

func newServer() *server {
	this := &server{plans: map[string]*plan{}, end: make(chan struct{})}
	this.Server = httptest.NewUnstartedServer(gohttp.HandlerFunc(this.serve))
	this.Config.ErrorLog = stdlog.New(io.Discard, "", 0)
	this.Start()
	return this
}

func (this *server) stop() {
	close(this.end)
	this.CloseClientConnections()
	this.Server.Close()
}

func (this *server) serve(w gohttp.ResponseWriter, r *gohttp.Request) {
	body, _ := io.ReadAll(r.Body)
	id := strings.TrimPrefix(strings.TrimPrefix(r.URL.Path, "/r"), "/c/")
	if strings.HasSuffix(r.URL.Path, "/api/thing") {
		var v struct{ Id string }
		_ = json.Unmarshal(body, &v)
		id = v.Id
	}
	this.m.Lock()
	p := this.plans[id]
	this.m.Unlock()
	if p == nil {
		w.WriteHeader(599)
		return
	}
	if p.How == "redirect" && !strings.HasPrefix(r.URL.Path, "/r") {
		gohttp.Redirect(w, r, "/r"+r.URL.Path+"?"+r.URL.RawQuery, 307)
		return
	}
	got := r.Method + " " + r.Header.Get("Content-Type") + " " + string(body) + " " + r.URL.RawQuery
	select {
	case p.got <- got:
	default:
	}
	text := p.text()
	wait := func() {
		close(p.in)
		select {
		case <-r.Context().Done():
		case <-this.end:
		}
	}
	hijack := func(s string) {
		c, _, err := w.(gohttp.Hijacker).Hijack()
		if err == nil {
			_, _ = io.WriteString(c, s)
			_ = c.Close()
		}
	}
	switch p.How {
	case "reset":
		hijack("")
	case "hang":
		wait()
	case "short":
		hijack(fmt.Sprintf("HTTP/1.1 %d %s\r\nContent-Length: %d\r\n\r\n%s", p.St, gohttp.StatusText(p.St), len(text)+5, text))
	case "slow":
		w.WriteHeader(p.St)
		_, _ = w.Write(text[:len(text)/2])
		w.(gohttp.Flusher).Flush()
		wait()
	case "chunked":
		w.WriteHeader(p.St)
		for len(text) > 0 {
			n := (len(text) + 2) / 3
			_, _ = w.Write(text[:n])
			w.(gohttp.Flusher).Flush()
			text = text[n:]
		}
	default:
		w.WriteHeader(p.St)
		_, _ = w.Write(text)
	}
}

// ------------------------------------------------------------------ calls

func failure(err error) vt.J {
	cause := ""
	switch {
	case errors.Is(err, context.Canceled):
		cause = "canceled"
	case errors.Is(err, context.DeadlineExceeded):
		cause = "deadline"
	}
	return vt.J{"ok": false, "code": http.ErrorCode(err, 0), "cause": cause}
}

func (this *server) call(op string, p *plan, cx string, keep func(*gohttp.Response)) (ret vt.J) {
	p.id = fmt.Sprint("i", this.ids.Add(1))
	p.good = cx == "live" && p.St == 200 && (p.How == "full" || p.How == "chunked" || p.How == "redirect")
	p.got, p.in = make(chan string, 10), make(chan struct{})
	this.m.Lock()
	this.plans[p.id] = p
	this.m.Unlock()
	defer func() {
		this.m.Lock()
		defer this.m.Unlock()
		delete(this.plans, p.id)
	}()

	c, cf := context.WithCancel(quiet())
	switch cx {
	case "before":
		cf()
	case "during":
		go func() {
			<-p.in
			cf()
		}()
	case "deadline":
		// not before the server waits
		c, _ = context.WithDeadline(c, time.Now().Add(250*time.Millisecond))
	}
	done := make(chan vt.J, 1)
	go func() {
		var res vt.J
		if msg := vt.Protect(func() { res = this.do(op, p, c, keep) }); msg != "" {
			res = vt.J{"panic": strings.SplitN(msg, "\n", 2)[0]}
		}
		done <- res
	}()
	var res vt.J
	select {
	case res = <-done:
	case <-time.After(20 * time.Second):
		res = vt.J{"ok": "never returned"}
	}
	if op != "do" {
		cf()
	}
	seen := "nothing"
	select {
	case got := <-p.got:
		seen = "the request"
		if p.want += " q=a%20b&r=%2F"; got != p.want {
			seen = got + " instead of " + p.want
		}
		select {
		case <-p.got:
			seen = "more than one request"
		default:
		}
	default:
	}
	if p.How == "reset" || cx == "deadline" && (seen == "nothing" || seen == "the request") {
		seen = "any"
	}
	return vt.J{"res": res, "seen": seen}
}

func (this *server) do(op string, p *plan, c ctx.C, keep func(*gohttp.Response)) vt.J {
	u := this.URL + "/c/" + p.id + "?q=a%20b&r=%2F"
	cli := http.DefaultClient
	switch op {
	case "get", "post":
		var out []byte
		var err error
		if op == "get" {
			p.want = "GET  "
			out, err = cli.Get(c, u)
		} else {
			body := fmt.Sprintf(`{"post":%q,"more":%q}`, p.id, strings.Repeat("x", len(p.id)*1000))
			p.want = "POST application/json " + body
			out, err = cli.Post(c, u, []byte(body))
		}
		if err != nil {
			return failure(err)
		}
		if !bytes.Equal(out, p.text()) && !(p.St == 204 && len(out) == 0) {
			return vt.J{"ok": true, "body": fmt.Sprintf("%.80q", out)}
		}
		return vt.J{"ok": true, "body": p.Body}
	case "do":
		p.want = "PUT  do " + p.id
		req, err := http.NewRequest(c, "PUT", u, strings.NewReader("do "+p.id))
		if err != nil {
			return vt.J{"request": err.Error()}
		}
		res, err := cli.Do(req)
		if res == nil {
			return failure(err)
		}
		keep(res)
		return vt.J{"st": res.StatusCode, "ok": err == nil, "code": http.ErrorCode(err, 0)}
	case "nourl":
		this := &NoUrl{In: 1}
		err := cli.API(c, this)
		out := vt.J{"ok": err == nil}
		if err != nil {
			out = failure(err)
		}
		out["out"] = "kept"
		if this.In != 1 {
			out["out"] = "changed"
		}
		return out
	}
	// api, apibase
	base := this.URL
	if op == "apibase" {
		base += "/some/base?x=1"
	}
	cli.BaseUrl, _ = url.Parse(base)
	baseBefore := *cli.BaseUrl
	obj := thing(p.id)
	p.want = fmt.Sprintf(`POST  {"both":"asked","id":"%s","in":7}`, p.id)
	err := cli.API(c, obj)
	out := vt.J{"ok": err == nil}
	if err != nil {
		out = failure(err)
	}
	kept, set, part := thing(p.id), thing(p.id), thing(p.id)
	set.Both, set.Out, set.N = "b"+p.id, "o"+p.id, 12
	part.Out = "o" + p.id
	same := func(o *Thing) bool { return reflect.DeepEqual(obj, o) }
	switch {
	case same(kept):
		out["out"] = "kept"
	case same(set):
		out["out"] = "set"
	case same(part):
		out["out"] = "part"
	default:
		out["out"] = fmt.Sprintf("%+v", *obj)
	}
	if p.Body == "wrong" && err != nil && p.good && obj.In == 7 && obj.Mine == "mine" && obj.Who == "me" {
		out["out"] = "any" // some outputs might be set
	}
	if !reflect.DeepEqual(*cli.BaseUrl, baseBefore) {
		out["base"] = "changed"
	}
	return out
}

// ------------------------------------------------------------------ replay

type client struct {
	*server
	open []*gohttp.Response
}

func (this *client) Close() {
	for _, r := range this.open {
		r.Body.Close()
	}
	this.stop()
}

func planOf(a vt.Act) *plan { return &plan{St: a.Int("st"), How: a.Str("how"), Body: a.Str("body")} }

func (this *client) Do(a vt.Act) (any, any) {
	var ret any = "ok"
	if a.Op() == "close" {
		r := this.open[0]
		this.open = this.open[1:]
		if a.Bool("all") && r.Header.Get("Content-Length") != "" {
			_, _ = io.Copy(io.Discard, r.Body)
		}
		r.Body.Close()
	} else {
		ret = this.call(a.Op(), planOf(a.Map("plan")), a.Str("cx"), func(r *gohttp.Response) { this.open = append(this.open, r) })
	}
	return ret, vt.Await(a.Map("obs"), func() any { return vt.J{"open": opened.Load()} }, 100*time.Microsecond, 0)
}

func TestClientReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Par = 1 // the bodies are counted
	g.Replay("http client", vt.Scale(20, 200), 60, func(vt.Act) vt.Obj {
		for n := 0; opened.Load() != 0 && n < 1000; n++ {
			time.Sleep(100 * time.Microsecond)
		}
		opened.Store(0)
		return &client{server: newServer()}
	})
	vt.Done()
}

// ------------------------------------------------------------------ many calls at once

func TestClientTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for n, leaks := 0, 0; n < vt.EnvInt("N", 60) && leaks < 3; n++ {
		srv := newServer()
		h := &vt.Hist{}
		var wg sync.WaitGroup
		for th := 0; th < 2+r.Intn(10); th++ {
			r := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < 4+r.Intn(6); n++ {
					op, p, cx := random(r)
					ret := srv.call(op, p, cx, nil)
					if op == "apibase" {
						op = "api"
					}
					h.Add(vt.J{"op": op, "plan": p, "cx": cx, "ret": ret, "open": 0})
				}
			}()
		}
		wg.Wait()
		open := vt.Await(0, func() any { return opened.Load() }, 100*time.Microsecond, 0)
		h.Add(vt.J{"op": "end", "open": open})
		if opened.Swap(0) != 0 {
			leaks++
		}
		tr.Write(h)
		srv.stop()
	}
	tr.Close()
	vt.Done()
}

func random(r *rand.Rand) (string, *plan, string) {
	op := []string{"get", "post", "api", "apibase"}[r.Intn(4)]
	p := &plan{St: []int{200, 200, 200, 200, 201, 202, 204, 304, 400, 401, 404, 418, 500, 503}[r.Intn(14)],
		How:  []string{"full", "full", "full", "chunked", "short", "slow", "hang", "reset", "redirect"}[r.Intn(9)],
		Body: []string{"none", "text", "object", "object", "list", "digit", "broken", "wrong", "extra", "part", "big"}[r.Intn(11)]}
	switch {
	case p.How == "hang" || p.How == "reset":
		p.St, p.Body = 200, "none"
	case p.How == "short" || p.How == "slow":
		p.Body = []string{"text", "object", "big"}[r.Intn(3)]
		if p.St == 204 || p.St == 304 {
			p.St = 500
		}
	case p.St == 204 || p.St == 304:
		p.How, p.Body = []string{"full", "redirect"}[r.Intn(2)], "none"
	}
	cx := "live"
	if p.How == "hang" || p.How == "slow" && p.St == 200 {
		cx = []string{"during", "during", "during", "deadline"}[r.Intn(4)]
	} else if p.How == "full" && (p.St == 200 || p.St == 500) && r.Intn(6) == 0 {
		cx = "before"
	}
	return op, p, cx
}
