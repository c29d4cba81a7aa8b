package listen

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"net"
	gohttp "net/http"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/shutdown"
)

// the shutdown is global to a process: each behaviour is executed in its own one
func TestMain(m *testing.M) {
	if vt.Child() != "" {
		child()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

func quiet() ctx.C {
	return log.WithSlogLogger(context.Background(), slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 1})))
}

const size = 100000

func payload(id string) []byte {
	r := rand.New(rand.NewSource(int64(len(id))))
	b := make([]byte, size)
	r.Read(b)
	copy(b, id)
	return b
}

type request struct {
	id      string
	st      string
	gate    chan bool
	entered chan bool
	upload  *io.PipeWriter
}

func child() {
	in, out := vt.ChildIO()
	var m sync.Mutex
	reqs := map[int]*request{}
	byID := map[string]*request{}
	addrs := map[int]string{}
	find := func(r *gohttp.Request) *request {
		m.Lock()
		defer m.Unlock()
		return byID[r.Header.Get("X-Id")]
	}
	newServer := func(c ctx.C) *http.Server {
		s := http.NewServer(c)
		s.HandleFunc("/handle", func(w gohttp.ResponseWriter, r *gohttp.Request) {
			q := find(r)
			close(q.entered)
			<-q.gate
			w.Write(payload(q.id))
		})
		s.HandleFunc("/stream", func(w gohttp.ResponseWriter, r *gohttp.Request) {
			q := find(r)
			b := payload(q.id)
			w.Write(b[:size/2])
			close(q.entered)
			<-q.gate
			w.Write(b[size/2:])
		})
		s.HandleRequest("/upload", func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) {
			return in, nil
		})
		return s
	}
	seq := 0
	tr := &gohttp.Transport{DisableCompression: true}
	enter := func(n, s int, kind string) any {
		seq++
		q := &request{id: fmt.Sprint("request ", seq), st: "in", gate: make(chan bool), entered: make(chan bool)}
		m.Lock()
		reqs[n] = q
		byID[q.id] = q
		addr := addrs[s]
		m.Unlock()
		want := payload(q.id)
		var body io.Reader
		if kind == "upload" {
			r, w := io.Pipe()
			body = r
			q.upload = w
			go func() {
				w.Write(want[:size/2]) // read by the server, which waits for more
				close(q.entered)
				<-q.gate
				w.Write(want[size/2:])
				w.Close()
			}()
		}
		go func() {
			st := func() string {
				r, err := gohttp.NewRequest("POST", "http://"+addr+"/"+kind, body)
				if err != nil {
					return err.Error()
				}
				r.Header.Set("X-Id", q.id)
				res, err := (&gohttp.Client{Transport: tr}).Do(r)
				if err != nil {
					return err.Error()
				}
				defer res.Body.Close()
				b, err := io.ReadAll(res.Body)
				if err != nil {
					return err.Error()
				}
				if res.StatusCode != 200 || !bytes.Equal(b, want) {
					return fmt.Sprintf("status %d, %d bytes", res.StatusCode, len(b))
				}
				return "ok"
			}()
			m.Lock()
			defer m.Unlock()
			q.st = st
		}()
		select {
		case <-q.entered:
			if kind == "upload" {
				time.Sleep(5 * time.Millisecond) // the handler of the server reads
			}
			return "ok"
		case <-time.After(vt.Patience):
			return "the request does not reach its handler"
		}
	}
	dial := func(addr string) bool {
		conn, err := net.DialTimeout("tcp", addr, vt.Patience)
		if err != nil {
			return false
		}
		conn.(*net.TCPConn).SetLinger(0)
		conn.Close()
		return true
	}
	var ns, nr int
	obs := func() any {
		conn, st := []bool{}, []string{}
		for i := 1; i <= ns; i++ {
			conn = append(conn, addrs[i] != "" && dial(addrs[i]))
		}
		m.Lock()
		for i := 1; i <= nr; i++ {
			if reqs[i] == nil {
				st = append(st, "none")
			} else {
				st = append(st, reqs[i].st)
			}
		}
		m.Unlock()
		done := false
		select {
		case <-shutdown.Done():
			done = true
		default:
		}
		return vt.J{"done": done, "conn": conn, "req": st}
	}
	// an address of its own: the ports of a server which has stopped are free for the other processes
	pid := os.Getpid()
	local := fmt.Sprintf("127.%d.%d.%d:0", 1+pid>>16%200, pid>>8%256, pid%256)
	taken, err := net.Listen("tcp", local)
	if err != nil {
		panic(err)
	}
	listen := func(addr string) (string, any) {
		type result struct {
			addr *net.TCPAddr
			err  error
		}
		ch := make(chan result, 1)
		go func() {
			c := quiet()
			a, err := newServer(c).Listen(c, addr)
			ch <- result{a, err}
		}()
		select {
		case r := <-ch:
			if r.err != nil {
				return "", "error"
			}
			if r.addr == nil || r.addr.Port == 0 {
				return "", fmt.Sprint("bound to ", r.addr)
			}
			return r.addr.String(), "ok"
		case <-time.After(vt.Patience):
			return "", "blocked"
		}
	}
	for {
		var a vt.Act
		if in.Decode(&a) != nil {
			return
		}
		want := a.Map("obs")
		ns, nr = len(want.List("conn")), len(want.List("req"))
		var ret any = "ok"
		switch a.Op() {
		case "listen":
			addrs[a.Int("s")], ret = listen(local)
		case "bad":
			addr := taken.Addr().String()
			if a.Str("kind") == "wrong" {
				addr = "no such address"
			}
			_, ret = listen(addr)
		case "enter":
			ret = enter(a.Int("r"), a.Int("s"), a.Str("kind"))
		case "leave":
			m.Lock()
			q := reqs[a.Int("r")]
			m.Unlock()
			close(q.gate)
		case "begin":
			shutdown.Begin()
		case "sleep":
			time.Sleep(time.Duration(a.Int("ms")) * time.Millisecond)
		}
		out.Encode(vt.J{"ret": ret, "obs": vt.Await(want, obs, 2*time.Millisecond, 2*time.Millisecond)})
	}
}

func TestListenReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Par = 24
	g.Replay("listen", vt.Scale(30, 500), 15, func(vt.Act) vt.Obj { return vt.StartProc("listen") })
	vt.Done()
}

// requests which take long are waited for as well
func TestListenLong(t *testing.T) {
	var wg sync.WaitGroup
	for _, kind := range []string{"handle", "stream", "upload"} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := vt.StartProc("listen")
			defer p.Close()
			obs := func(done, conn bool, req string) vt.J {
				return vt.J{"done": done, "conn": []bool{conn}, "req": []string{req}}
			}
			hist := []any{}
			for _, a := range []vt.J{
				{"op": "listen", "s": 1, "obs": obs(false, true, "none")},
				{"op": "enter", "s": 1, "r": 1, "kind": kind, "obs": obs(false, true, "in")},
				{"op": "begin", "obs": obs(false, false, "in")},
				{"op": "sleep", "ms": vt.Scale(9000, 25000), "obs": obs(false, false, "in")},
				{"op": "leave", "r": 1, "obs": obs(true, false, "ok")},
			} {
				ret, o := p.Do(vt.Act(a))
				hist = append(hist, vt.J{"do": a, "ret": ret, "obs": o})
				if ret != "ok" || vt.Canon(o) != vt.Canon(a["obs"]) {
					vt.Violation("listen-long", fmt.Sprintf("a request (%s) in flight for long: %v answered %v %v, expected %v", kind, a["op"], ret, strings.TrimSpace(vt.Canon(o)), vt.Canon(a["obs"])), hist)
					return
				}
			}
		}()
	}
	wg.Wait()
	vt.Stat("traces_validated_against_impl", 3)
	vt.Done()
}
