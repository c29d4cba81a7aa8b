package web

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math"
	"math/rand"
	"net"
	gohttp "net/http"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/http"
)

func quiet() ctx.C {
	return log.WithSlogLogger(context.Background(), slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 1})))
}

var client = gohttp.Client{Transport: &gohttp.Transport{DisableCompression: true, MaxIdleConnsPerHost: 32}, Timeout: 60 * time.Second}

// an outcome of a handler
type outcome struct {
	err    bool
	kind   string
	code   int
	size   int
	secret string
	data   []byte
}

func (this outcome) make(c ctx.C) ([]byte, error) {
	if !this.err {
		return this.data, nil
	}
	plain := errors.New(this.secret)
	e := http.Error{Code: this.code, Err: plain}
	switch this.kind {
	case "plain":
		return []byte("dropped " + this.secret), plain
	case "direct":
		return nil, e
	case "nil":
		return nil, http.Error{Code: this.code}
	case "newf":
		return nil, http.NewErrorf(c, this.code, "oops %s", this.secret)
	case "ctx":
		return []byte("{}"), ctx.WrapError(c, e)
	case "fmt":
		return nil, fmt.Errorf("while: %w", e)
	case "join":
		return nil, errors.Join(errors.New("first"), e)
	case "nested": // the outer one counts
		other := 404
		if this.code < 500 {
			other = 502
		}
		return nil, http.Error{Code: this.code, Err: http.Error{Code: other, Err: plain}}
	case "nestedout":
		return nil, http.NewErrorf(c, this.code, "x: %w", http.NewErrorf(c, 418, "y %s", this.secret))
	case "deep":
		return nil, ctx.NewErrorf(c, "a: %w", fmt.Errorf("b: %w", ctx.WrapError(c, fmt.Errorf("c: %w", e))))
	}
	panic(this.kind)
}

var secrets atomic.Int64

func parse(a vt.Act) outcome {
	this := outcome{err: a.Bool("err"), kind: a.Str("kind"), code: a.Int("code"), size: a.Int("size"), secret: fmt.Sprintf("SECRET%dX", secrets.Add(1))}
	if !this.err {
		r := rand.New(rand.NewSource(int64(this.size)))
		this.data = make([]byte, this.size)
		for i := range this.data {
			if this.size%2 == 0 {
				this.data[i] = byte('a' + r.Intn(3))
			} else {
				this.data[i] = byte(r.Intn(256))
			}
		}
	}
	return this
}

func acceptHeader(enc []any) (string, bool) {
	var l []string
	for _, e := range enc {
		e := vt.Act(e.(map[string]any))
		s := e.Str("n")
		if q := e.Int("q"); q != 1000 {
			s += ";q=" + strconv.FormatFloat(float64(q)/1000, 'f', -1, 64)
		}
		l = append(l, s)
	}
	return strings.Join(l, ", "), len(l) > 0
}

// ------------------------------------------------------------------ a server

type Shared struct {
	m    sync.Mutex
	outs map[string]*outcome
	ran  map[string]int
}

func (this *Shared) get(id string) *outcome {
	this.m.Lock()
	defer this.m.Unlock()
	return this.outs[id]
}

type Op struct {
	R    api.Request    `url:"/op"`
	Case string         `api:"in,required" json:"do"`
	N    int            `api:"in" json:"n"`
	M    map[string]int `api:"in" json:"m"`
	Out  string         `api:"out" json:"out"`
	Next int            `api:"out" json:"next"`
	More any            `api:"out" json:"more"`
	S    *Shared
}

func (this *Op) Do(c ctx.C) error {
	o := this.S.get(this.Case)
	this.S.m.Lock()
	this.S.ran[this.Case]++
	this.S.ran["*"]++
	this.S.m.Unlock()
	this.Out = "did " + this.Case
	this.Next = this.N + 1
	if o == nil {
		return nil
	}
	if o.kind == "unfit" { // it succeeds, but what it returns can't be sent
		this.More = map[string]any{"secret": o.secret, "list": []float64{1, math.Inf(-1)}}
		return nil
	}
	o.secret += "" // the secret is in the text
	_, err := o.make(c)
	return err
}

type server struct {
	srv      *http.Server
	base     string
	shared   *Shared
	tracking sync.Map
	callOut  outcome
	ran      atomic.Int64
}

func newServer() *server {
	c := ctx.WithTracking(quiet(), fmt.Sprint("track", secrets.Add(1)))
	this := &server{srv: http.NewServer(c), shared: &Shared{outs: map[string]*outcome{}, ran: map[string]int{}}}
	this.srv.HandleRequest("/request", func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) {
		this.ran.Add(1)
		id := r.Header.Get("X-Case")
		if string(in) != "body "+id {
			return nil, fmt.Errorf("the body is %q", in)
		}
		this.tracking.Store(id, ctx.GetTracking(c))
		return this.shared.get(id).make(c)
	})
	http.CallHandler{Path: "/timed", ReadTimeout: 150 * time.Millisecond, Handler: func(c ctx.C, call *http.Call) error {
		this.ran.Add(1)
		return nil
	}}.Register(this.srv)
	http.CallHandler{Path: "/call", Handler: func(c ctx.C, call *http.Call) error {
		this.ran.Add(1)
		out, err := this.callOut.make(c)
		if len(out) > 3 {
			call.Write(out[:3])
			call.Write(out[3:])
		} else {
			call.Write(out)
		}
		return err
	}}.Register(this.srv)
	if _, err := this.srv.RegisterAPI(c, &Op{S: this.shared}); err != nil {
		panic(err)
	}
	addr, err := this.srv.Listen(c, "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	this.base = "http://" + addr.String()
	return this
}

type reply struct {
	status int
	header gohttp.Header
	body   []byte
	err    string
}

func (this *server) send(method, path string, body []byte, header map[string]string) reply {
	req, err := gohttp.NewRequest(method, this.base+path, bytes.NewReader(body))
	if err != nil {
		return reply{err: err.Error()}
	}
	for k, v := range header {
		req.Header.Set(k, v)
	}
	res, err := client.Do(req)
	if err != nil {
		return reply{err: err.Error()}
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		return reply{err: err.Error()}
	}
	return reply{res.StatusCode, res.Header, b, ""}
}

// raw sends just that, and reads the answer
func (this *server) raw(req string, end bool) reply {
	conn, err := net.Dial("tcp", strings.TrimPrefix(this.base, "http://"))
	if err != nil {
		return reply{err: err.Error()}
	}
	defer conn.Close()
	if _, err := io.WriteString(conn, req); err != nil {
		return reply{err: err.Error()}
	}
	if end {
		_ = conn.(*net.TCPConn).CloseWrite()
	}
	_ = conn.SetReadDeadline(time.Now().Add(vt.Patience))
	res, err := gohttp.ReadResponse(bufio.NewReader(conn), nil)
	if err != nil {
		return reply{err: err.Error()}
	}
	b, err := io.ReadAll(res.Body)
	if err != nil {
		return reply{err: err.Error()}
	}
	return reply{res.StatusCode, res.Header, b, ""}
}

// what the body is, compared to the outcome
func (this *server) classify(r reply, o outcome, tracking string) string {
	text := o.secret
	if o.kind == "nil" && o.code != 0 {
		text = strings.TrimSpace(fmt.Sprint(o.code, " ", gohttp.StatusText(o.code)))
	}
	if r.status == 200 {
		if bytes.Equal(r.body, o.data) {
			return "exact"
		}
		return fmt.Sprintf("%d bytes which are not those produced", len(r.body))
	}
	if r.status == 204 {
		if len(r.body) == 0 {
			return "none"
		}
		return "a body"
	}
	var m map[string]any
	err := json.Unmarshal(r.body, &m)
	all := string(r.body) + fmt.Sprint(r.header)
	if r.status >= 500 {
		if strings.Contains(all, o.secret) || strings.Contains(all, "oops") || strings.Contains(string(r.body), text) || strings.Contains(all, ".go:") {
			return "leaks: " + all
		}
		if v, ok := m["error"]; ok && v != "" {
			return "leaks: " + all
		}
		return "hidden"
	}
	if s, _ := m["error"].(string); err == nil && strings.Contains(s, text) {
		if m["tracking"] == tracking || tracking == "*" && m["tracking"] != nil {
			return "error"
		}
		return fmt.Sprintf("tracking %v, not %v", m["tracking"], tracking)
	}
	return "no error text: " + string(r.body)
}

func (this *server) request(a vt.Act) any {
	o := parse(a.Map("out"))
	id := o.secret + "id" // never in the answer unless leaked
	this.shared.m.Lock()
	this.shared.outs[id] = &o
	this.shared.m.Unlock()
	h := map[string]string{"X-Case": id}
	if s, ok := acceptHeader(a.List("enc")); ok {
		h["Accept-Encoding"] = s
	}
	if a.Str("mime") == "gzip" {
		h["Accept"] = "application/gzip, application/json"
	}
	var r reply
	tracking := ""
	method := "POST"
	if a["method"] != nil {
		method = a.Str("method")
	}
	if a.Op() == "call" {
		this.callOut = o
		r = this.send(method, "/call", []byte("x"), h)
	} else {
		r = this.send(method, "/request", []byte("body "+id), h)
		t, _ := this.tracking.LoadAndDelete(id)
		tracking, _ = t.(string)
	}
	this.shared.m.Lock()
	delete(this.shared.outs, id)
	this.shared.m.Unlock()
	if r.err != "" {
		return "no answer: " + r.err
	}
	gz := false
	if ce := r.header.Values("Content-Encoding"); len(ce) > 0 {
		if len(ce) != 1 || ce[0] != "gzip" {
			return fmt.Sprint("encoding ", ce)
		}
		gz = true
		zr, err := gzip.NewReader(bytes.NewReader(r.body))
		if err != nil {
			return "not gzip: " + err.Error()
		}
		b, err := io.ReadAll(zr)
		if err != nil {
			return "not gzip: " + err.Error()
		}
		r.body = b
	}
	ct := r.header.Values("Content-Type")
	isJSON := r.status == 200 && len(ct) == 1 && (ct[0] == "application/json" || strings.HasPrefix(ct[0], "application/json;"))
	body := this.classify(r, o, tracking)
	if a.Op() == "call" {
		isJSON = false
		if o.err && !strings.HasPrefix(body, "leaks") {
			body = "any"
		}
	}
	return vt.J{"status": r.status, "body": body, "gz": gz, "json": isJSON}
}

func apiBody(name, id string, n int) string {
	ok := fmt.Sprintf(`{"do":%q,"n":%d}`, id, n)
	switch name {
	case "valid":
		return ok
	case "extra":
		return fmt.Sprintf(`{"do":%q,"n":%d,"zzz":[1,{"a":null}],"out":"forged","next":99,"S":{"x":1}}`, id, n)
	case "spaces":
		return fmt.Sprintf(" \n{ \"do\" :\t%q , \"n\": %d }\r\n ", id, n)
	case "reorder":
		return fmt.Sprintf(`{"m":{"x":1},"n":%d,"do":%q}`, n, id)
	case "empty":
		return ""
	case "null", "true":
		return name
	case "array":
		return "[" + ok + "]"
	case "string":
		return `"` + id + `"`
	case "number":
		return "17"
	case "cut":
		return ok[:len(ok)-1]
	case "comma":
		return ok[:len(ok)-1] + ",}"
	case "garbage":
		return "hello"
	case "digit":
		return "5"
	case "letter":
		return "x"
	case "brace":
		return "{"
	case "space":
		return " "
	case "missing":
		return `{"n":1}`
	case "zero":
		return `{"do":"","n":1}`
	case "type":
		return fmt.Sprintf(`{"do":%q,"n":"abc"}`, id)
	case "type2":
		return fmt.Sprintf(`{"do":{"a":%q},"n":1}`, id)
	case "nested":
		return fmt.Sprintf(`{"do":%q,"m":[1]}`, id)
	case "trailing":
		return ok + " x"
	case "two":
		return ok + ok
	case "bom":
		return "\ufeff" + ok
	case "binary":
		return "\x00\x01\xff\xfe"
	case "nan":
		return fmt.Sprintf(`{"do":%q,"n":NaN}`, id)
	}
	panic(name)
}

func (this *server) api(a vt.Act, alone bool) any {
	o := parse(a.Map("out"))
	id := o.secret + "id"
	this.shared.m.Lock()
	this.shared.outs[id] = &o
	before := this.shared.ran["*"]
	this.shared.m.Unlock()
	n := len(id)
	var r reply
	switch valid := apiBody("valid", id, n); a.Str("body") {
	case "chunk":
		r = this.raw(fmt.Sprintf("POST /op HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\nzz\r\n", len(valid), valid), true)
	case "short":
		r = this.raw(fmt.Sprintf("POST /op HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(valid)+1, valid), true)
	default:
		r = this.send("POST", "/op", []byte(apiBody(a.Str("body"), id, n)), nil)
	}
	this.shared.m.Lock()
	ran := this.shared.ran[id]
	if alone {
		ran = this.shared.ran["*"] - before
	}
	delete(this.shared.outs, id)
	this.shared.m.Unlock()
	if r.err != "" {
		return "no answer: " + r.err
	}
	if ran > 1 {
		return "ran twice"
	}
	ret := vt.J{"status": r.status, "ran": ran == 1}
	switch {
	case r.status == 200:
		var m any
		if err := json.Unmarshal(r.body, &m); err == nil && reflect.DeepEqual(m, map[string]any{"out": "did " + id, "next": float64(n + 1), "more": nil}) {
			ret["body"] = "exact"
		} else {
			ret["body"] = string(r.body)
		}
	case ran == 0:
		ret["body"] = "any"
		if r.status >= 400 && r.status < 500 {
			ret["status"] = 400
		}
	default:
		ret["body"] = this.classify(r, o, "*")
	}
	return ret
}

func (this *server) Do(a vt.Act) (any, any) {
	switch a.Op() {
	case "request", "call":
		return this.request(a), nil
	case "api":
		return this.api(a, true), nil
	case "unreadable":
		ran := this.ran.Load()
		head := "POST /" + a.Str("handler") + " HTTP/1.1\r\nHost: x\r\n"
		r := reply{}
		switch a.Str("body") {
		case "chunk":
			r = this.raw(head+"Transfer-Encoding: chunked\r\n\r\n3\r\nabc\r\nzz\r\n", true)
		case "short":
			r = this.raw(head+"Content-Length: 10\r\n\r\nabc", true)
		case "stall":
			r = this.raw(head+"Content-Length: 10\r\n\r\nabc", false)
		}
		if r.err != "" {
			return "no answer: " + r.err, nil
		}
		if r.status > 400 && r.status < 500 {
			r.status = 400
		}
		return vt.J{"status": r.status, "ran": this.ran.Load() != ran}, nil
	case "setready":
		this.srv.SetReady(a.Int("c"))
		return 0, nil
	}
	r := this.send("GET", "/"+a.Op(), nil, nil)
	if r.err != "" {
		return r.err, nil
	}
	return r.status, nil
}

func TestWebReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Replay("http", 20, 30, func(vt.Act) vt.Obj { return newServer() })
	vt.Done()
}

func TestWebTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	seedr := rand.New(rand.NewSource(vt.Seed()))
	s := newServer()
	var wg sync.WaitGroup
	kinds := []string{"plain", "direct", "nil", "newf", "ctx", "fmt", "join", "nested", "deep"}
	bodies := []string{"valid", "valid", "valid", "extra", "spaces", "reorder", "empty", "null", "array", "string", "number", "true", "cut", "digit", "letter", "brace", "space", "comma", "garbage", "missing", "zero", "type", "type2", "nested", "trailing", "bom", "binary", "nan", "two", "chunk", "short"}
	for w := 0; w < 16; w++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(seedr.Int63()))
		go func() {
			defer wg.Done()
			for n := 0; n < vt.Scale(30, 400); n++ {
				h := &vt.Hist{}
				for k := 0; k < 6; k++ {
					out := vt.J{"err": false, "size": 1, "kind": ""}
					if r.Intn(2) == 0 {
						kind := kinds[r.Intn(len(kinds))]
						code := 400 + r.Intn(200)
						if kind == "plain" {
							code = 0
						}
						out = vt.J{"err": true, "kind": kind, "code": code}
					}
					var a vt.J
					if r.Intn(3) == 0 {
						a = vt.J{"op": "api", "body": bodies[r.Intn(len(bodies))], "out": out}
					} else {
						if out["err"] == false {
							out["size"] = []int{0, 1, r.Intn(100), r.Intn(20000), 16000 + r.Intn(1000), r.Intn(300000)}[r.Intn(6)]
						}
						enc := []any{}
						for len(enc) < 3 && r.Intn(3) > 0 {
							enc = append(enc, vt.J{"n": []string{"gzip", "gzip", "br", "deflate", "identity", "*", "gzipped"}[r.Intn(7)], "q": []int{0, 1, 500, 1000, 1000}[r.Intn(5)]})
						}
						names := map[any]bool{}
						uniq := []any{}
						for _, e := range enc {
							if n := e.(vt.J)["n"]; !names[n] {
								names[n] = true
								uniq = append(uniq, e)
							}
						}
						a = vt.J{"op": "request", "out": out, "enc": uniq, "mime": []string{"none", "gzip"}[r.Intn(2)]}
					}
					act := vt.Act{}
					j, _ := json.Marshal(a)
					_ = json.Unmarshal(j, &act)
					if a["op"] == "api" {
						a["ret"] = s.api(act, false)
					} else {
						a["ret"] = s.request(act)
					}
					h.Ev = append(h.Ev, a)
				}
				tr.Write(h)
			}
		}()
	}
	wg.Wait()
	tr.Close()
	vt.Done()
}
