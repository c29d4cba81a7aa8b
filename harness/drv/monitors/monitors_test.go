// Package monitors drives the monitoring endpoints of the HTTP server
package monitors

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	gohttp "net/http"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/utils/prom"
)

var counter = prom.Register("verif_monitor", &prom.Gauge{Desc: "counts", Labels: []string{"who"}}).Counter("me")

// what the metric was when the object was made
var counted = map[string]int{}

type obj struct {
	srv    *http.Server
	addr   string
	cancel func()
	base   int
	work   []chan bool
	ids    []string
}

func newObj() *obj {
	c := log.WithSlogLogger(context.Background(), slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 1})))
	o := &obj{}
	c, cf := ctx.WithCancel(c)
	o.cancel = func() { cf(nil) }
	o.srv = http.NewServer(c)
	a, err := o.srv.Listen(c, "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	o.addr = "http://" + a.String()
	o.base = counted["me"]
	return o
}

func (o *obj) Close() {
	for len(o.work) > 0 {
		o.stop()
	}
	o.cancel()
	client.CloseIdleConnections()
}

// worker is what the goroutines which are counted do
//
//go:noinline
func worker(id chan string, stop chan bool) {
	id <- goid()
	<-stop
}

func goid() string {
	buf := make([]byte, 64)
	buf = buf[:runtime.Stack(buf, false)]
	return strings.Fields(string(buf))[1]
}

// whether a goroutine is still there
func alive(id string) bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	return bytes.HasPrefix(buf, []byte("goroutine "+id+" ")) || bytes.Contains(buf, []byte("\ngoroutine "+id+" "))
}

func spawn() (stop chan bool, id string) {
	stop = make(chan bool)
	ids := make(chan string)
	go worker(ids, stop)
	return stop, <-ids
}

func end(stop chan bool, id string) {
	close(stop)
	for alive(id) {
		time.Sleep(50 * time.Microsecond)
	}
}

func (o *obj) stop() {
	n := len(o.work) - 1
	end(o.work[n], o.ids[n])
	o.work, o.ids = o.work[:n], o.ids[:n]
}

var client = &gohttp.Client{Timeout: vt.Patience}

func (o *obj) fetch(path string) (int, string, string) {
	res, err := client.Get(o.addr + path)
	if err != nil {
		return 0, "", err.Error()
	}
	defer res.Body.Close()
	body, err := io.ReadAll(res.Body)
	if err != nil {
		return 0, "", err.Error()
	}
	return res.StatusCode, res.Header.Get("Content-Type"), string(body)
}

func found(kind string, n int) vt.J { return vt.J{"kind": kind, "n": n} }

func (o *obj) scrape(path string) vt.J {
	code, _, body := o.fetch(path)
	if code == 404 {
		return found("missing", 0)
	}
	if code != 200 {
		return found(fmt.Sprintf("status %d: %.200s", code, body), 0)
	}
	head := 0
	var val []int
	for _, l := range strings.Split(body, "\n") {
		if strings.HasPrefix(l, "# TYPE verif_monitor gauge") {
			head++
		}
		if v, ok := strings.CutPrefix(l, `verif_monitor{who="me"} `); ok {
			n, err := strconv.Atoi(v)
			if err != nil {
				return found("not a number: "+l, 0)
			}
			val = append(val, n-o.base)
		}
	}
	if head != 1 || len(val) != 1 {
		return found(fmt.Sprintf("%d headers, %d values", head, len(val)), 0)
	}
	return found("metrics", val[0])
}

var block = regexp.MustCompile(`(?m)^(\d+) @`)

func dump(body string) int {
	n := 0
	for _, b := range strings.Split(body, "\n\n") {
		m := block.FindStringSubmatch(b)
		if m == nil || !strings.Contains(b, "/monitors.worker+") {
			continue
		}
		k, _ := strconv.Atoi(m[1])
		n += k
	}
	return n
}

var begins = map[string]string{"heap": "heap profile: ", "threads": "threadcreate profile: ", "contention": "--- contention:", "mutexes": "--- mutex:", "dump": "goroutine profile: total "}

func (o *obj) get(prefix, page string) vt.J {
	path := prefix + "/pprof/" + page
	switch page {
	case "goroutines":
		path = prefix + "/goroutines"
	case "index":
		path = prefix + "/pprof/"
	case "cmdline", "symbol", "nosuch":
	case "profile", "trace":
		path += "?seconds=1"
	case "none":
		path = prefix + "/goroutine"
	default:
		path += "?debug=1"
	}
	code, typ, body := o.fetch(path)
	if code == 404 {
		return found("missing", 0)
	}
	if code != 200 {
		return found(fmt.Sprintf("status %d: %.200s", code, body), 0)
	}
	for k, h := range begins {
		if strings.HasPrefix(body, h) {
			if k == "dump" {
				return found(k, dump(body))
			}
			return found(k, 0)
		}
	}
	switch {
	case page == "profile" && strings.HasPrefix(body, "\x1f\x8b"), page == "trace" && strings.HasPrefix(body, "go 1."):
		return found(page, 0)
	case strings.HasPrefix(typ, "text/html"):
		for _, p := range []string{"goroutine", "heap", "mutex"} {
			if !strings.Contains(body, "href='"+p+"?debug=") {
				return found("no link to "+p, 0)
			}
		}
		return found("index", 0)
	case body == strings.Join(os.Args, "\x00"):
		return found("cmdline", 0)
	case strings.HasPrefix(body, "num_symbols: "):
		return found("symbol", 0)
	}
	return found(fmt.Sprintf("%.300q", body), 0)
}

func (o *obj) Do(a vt.Act) (ret, obs any) {
	msg := vt.Protect(func() {
		ret = "ok"
		switch a.Op() {
		case "metrics":
			o.srv.SetupPrometheus(context.Background(), a.Str("path"))
		case "pages":
			o.srv.SetupMonitoring(context.Background(), a.Str("prefix"))
		case "spawn":
			s, id := spawn()
			o.work, o.ids = append(o.work, s), append(o.ids, id)
		case "stop":
			o.stop()
		case "count":
			counted["me"]++
			counter.Inc(1)
		case "scrape":
			ret = o.scrape(a.Str("path"))
		case "get":
			ret = o.get(a.Str("prefix"), a.Str("page"))
		}
	})
	if msg != "" {
		ret = msg
	}
	return ret, nil
}

func TestMonitorReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Par = 1
	g.Replay("monitor", vt.Scale(20, 200), 60, func(vt.Act) vt.Obj { return newObj() })
	vt.Done()
}

func TestMonitorConc(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for n := 0; n < vt.Scale(60, 600); n++ {
		o := newObj()
		o.srv.SetupPrometheus(context.Background(), "")
		o.srv.SetupMonitoring(context.Background(), "/debug")
		o.srv.SetupMonitoring(context.Background(), "/x/y")
		h := &vt.Hist{}
		var wg sync.WaitGroup
		threads := 2 + r.Intn(3)
		var m sync.Mutex
		for k := 0; k < threads; k++ {
			k, rr := k, rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				var work []chan bool
				var ids []string
				stop := func() {
					c := h.Inv(k, vt.J{"op": "stop"})
					end(work[0], ids[0])
					c.Res("ok")
					work, ids = work[1:], ids[1:]
				}
				for x := 0; x < 8; x++ {
					switch rr.Intn(6) {
					case 0, 1:
						c := h.Inv(k, vt.J{"op": "spawn"})
						s, id := spawn()
						c.Res("ok")
						work, ids = append(work, s), append(ids, id)
					case 2:
						if len(work) > 0 {
							stop()
						}
					case 3:
						c := h.Inv(k, vt.J{"op": "count"})
						m.Lock()
						counted["me"]++
						m.Unlock()
						counter.Inc(1)
						c.Res("ok")
					case 4:
						c := h.Inv(k, vt.J{"op": "scrape", "path": "/metrics"})
						c.Res(o.scrape("/metrics"))
					case 5:
						prefix := []string{"/debug", "/x/y"}[rr.Intn(2)]
						page := []string{"goroutines", "goroutine"}[rr.Intn(2)]
						c := h.Inv(k, vt.J{"op": "get", "prefix": prefix, "page": page})
						c.Res(o.get(prefix, page))
					}
				}
				for len(work) > 0 {
					stop()
				}
			}()
		}
		wg.Wait()
		o.Close()
		tr.Write(h)
	}
	// what takes its time, one after the other
	o := newObj()
	o.srv.SetupMonitoring(context.Background(), "/x/y")
	o.srv.SetupMonitoring(context.Background(), "/debug")
	h := &vt.Hist{}
	for _, page := range []string{"profile", "trace"} {
		for _, prefix := range []string{"/x/y", "/debug"} {
			c := h.Inv(0, vt.J{"op": "get", "prefix": prefix, "page": page})
			c.Res(o.get(prefix, page))
		}
	}
	o.Close()
	tr.Write(h)
	tr.Close()
	vt.Done()
}
