package ws

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http/ws"
	"github.com/Aize-Public/forego/shutdown"
)

type tokenKey struct{}
type connKey struct{}

// life is what is known of a connection of the specification
type life struct {
	m         sync.Mutex
	k         int
	cli       *client
	remote    string
	connects  int
	in        string // the callback which runs
	sent      int
	delivered int
	bad       string
	seen      ctx.C // given to the connect callback
	cancel    context.CancelFunc
	own       context.CancelFunc
	gate      chan string
	entered   chan string
	closed    chan bool // the client saw the end
	dropped   bool
}

func held() bool {
	select {
	case <-shutdown.Done():
		return false
	default:
		return true
	}
}

type closer struct {
	c    ctx.C
	conn *ws.Conn
}

func (c closer) Close() error { return c.conn.Close(c.c, 1000) }

// Gated has the callbacks as methods
type Gated struct {
	Connect func(ctx.C, io.Closer) (ctx.C, error)
	Data    func(ctx.C, io.Closer, int, func(any) error) error
}

func (g *Gated) Init(c ws.C) error {
	_, err := g.Connect(c, &c)
	return err
}

func (g *Gated) Call(c ws.C, i int) error {
	return g.Data(c, &c, i, func(x any) error { return c.Reply("big", x) })
}

func connChild(rpc bool) {
	in, out := vt.ChildIO()
	var m sync.Mutex
	lives := map[int]*life{}
	byRemote := map[string]*life{}
	cancels := map[string]context.CancelFunc{}
	find := func(c ctx.C) *life {
		remote, _ := c.Value(connKey{}).(string)
		for {
			m.Lock()
			l := byRemote[remote]
			m.Unlock()
			if l != nil {
				return l
			}
			time.Sleep(time.Millisecond)
		}
	}
	wait := func(l *life, in string) string {
		l.m.Lock()
		l.in = in
		l.m.Unlock()
		l.entered <- in
		x := <-l.gate
		l.m.Lock()
		l.in = ""
		l.m.Unlock()
		return x
	}
	connect := func(c ctx.C, conn io.Closer) (ctx.C, error) {
		l := find(c)
		l.m.Lock()
		l.connects++
		l.seen = c
		l.m.Unlock()
		switch wait(l, "connecting") {
		case "error":
			return c, errors.New("refused")
		case "nil":
			return nil, errors.New("refused")
		case "panic":
			panic("refused")
		case "close":
			_ = conn.Close()
		}
		o, cf := context.WithCancel(context.WithValue(c, tokenKey{}, l.k))
		l.m.Lock()
		l.own = cf
		l.m.Unlock()
		return o, nil
	}
	data := func(c ctx.C, conn io.Closer, i int, send func(any) error) error {
		l := find(c)
		l.m.Lock()
		l.delivered++
		if !rpc && c.Value(tokenKey{}) != l.k {
			l.bad = "another context"
		}
		if i != l.delivered {
			l.bad = fmt.Sprintf("message %d is %v", l.delivered, i)
		}
		if l.in != "" || l.connects != 1 {
			l.bad = fmt.Sprintf("data while %q after %d connects", l.in, l.connects)
		}
		if rpc {
			l.seen = c
		}
		l.m.Unlock()
		switch wait(l, "handling") {
		case "error":
			return errors.New("failed")
		case "panic":
			panic("failed")
		case "close":
			_ = conn.Close()
		case "stall":
			big := strings.Repeat("x", 1<<20)
			for i := 0; i < 1000; i++ {
				if send(big) != nil {
					return nil
				}
			}
		}
		return nil
	}
	h := ws.Handler{
		OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) { return connect(c, closer{c, conn}) },
		OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
			var i int
			if err := enc.Unmarshal(c, n, &i); err != nil {
				i = -1
			}
			return data(c, closer{c, conn}, i, func(x any) error { return conn.Send(c, x) })
		},
	}.Server()
	if rpc {
		calls := &ws.RpcHandler{}
		calls.MustRegister(quiet(), &Gated{Connect: connect, Data: data})
		h = calls.Server()
	}
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	srv := &http.Server{
		Handler:     h,
		ErrorLog:    discard,
		BaseContext: baseContext(quiet()),
		ConnContext: func(c context.Context, conn net.Conn) context.Context {
			c, cf := context.WithCancel(context.WithValue(c, connKey{}, conn.RemoteAddr().String()))
			m.Lock()
			cancels[conn.RemoteAddr().String()] = cf
			m.Unlock()
			return c
		},
	}
	go srv.Serve(lis)
	addr := lis.Addr().String()

	nk, refusals := 0, int(vt.Seed())
	var expect vt.Act
	obs := func() any {
		con := []any{}
		for k := 1; k <= nk; k++ {
			m.Lock()
			l := lives[k]
			m.Unlock()
			x := vt.J{"ph": "none", "connects": 0, "dl": 0, "ctx": "live"}
			if l != nil {
				l.m.Lock()
				x["connects"], x["dl"] = l.connects, l.delivered
				if l.bad != "" {
					x["bad"] = l.bad
				}
				done := l.seen != nil && l.seen.Err() != nil
				if done {
					x["ctx"] = "cancelled"
				}
				if now := expect.List("con"); len(now) >= k && now[k-1].(map[string]any)["ctx"] == "any" {
					x["ctx"] = "any"
				}
				ended := l.dropped
				select {
				case <-l.closed:
					ended = true
				default:
				}
				switch {
				case l.in != "":
					x["ph"] = l.in
				case done && ended:
					x["ph"] = "gone"
				default:
					x["ph"] = "idle"
				}
				l.m.Unlock()
			}
			con = append(con, x)
		}
		return vt.J{"con": con, "held": held()}
	}
	await := func(l *life, what string) any {
		select {
		case x := <-l.entered:
			if x == what {
				return "ok"
			}
			return "entered " + x
		case <-time.After(vt.Patience):
			return "not " + what
		}
	}
	for {
		var a vt.Act
		if in.Decode(&a) != nil {
			return
		}
		want := a.Map("obs")
		expect = want
		nk = len(want.List("con"))
		k := a.Int("k")
		l := lives[k]
		var ret any = "ok"
		before := 0
		if l != nil {
			l.m.Lock()
			before = l.delivered
			l.m.Unlock()
		}
		switch a.Op() {
		case "refused":
			conn, err := net.Dial("tcp", addr)
			if err != nil {
				panic(err)
			}
			// no origin, a null one, none which is one; and no handshake at all
			bad := []string{"", "Origin: null\r\n", "Origin: :nowhere\r\n", "Origin: http://x\r\n"}[refusals%4]
			version := 13
			if refusals%4 == 3 {
				version = 8
			}
			refusals++
			fmt.Fprintf(conn, "GET / HTTP/1.1\r\nHost: %s\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n%sSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: %d\r\n\r\n", addr, bad, version)
			conn.SetReadDeadline(time.Now().Add(vt.Patience))
			b := make([]byte, 100)
			n, _ := conn.Read(b)
			if strings.HasPrefix(string(b[:n]), "HTTP/1.1 403 ") || version != 13 && strings.HasPrefix(string(b[:n]), "HTTP/1.1 400 ") {
				ret = "refused"
			} else {
				ret = string(b[:n])
			}
			conn.Close()
		case "connect":
			cli := mustDial(addr, "/")
			l = &life{k: k, cli: cli, remote: cli.conn.LocalAddr().String(), gate: make(chan string), entered: make(chan string, 10), closed: make(chan bool)}
			m.Lock()
			lives[k] = l
			byRemote[l.remote] = l
			l.cancel = cancels[l.remote]
			m.Unlock()
			if rpc {
				_ = cli.text(`{"channel":"x","path":"gated","type":"new"}`)
			}
			ret = await(l, "connecting")
			go func() {
				l.m.Lock()
				closed := l.closed
				l.m.Unlock()
				for {
					op, data, err := cli.read(time.Hour)
					if err != nil || op == opClose {
						close(closed)
						return
					}
					if len(data) > 100000 { // stops reading
						return
					}
				}
			}()
		case "accept", "finish":
			l.gate <- a.Str("out")
		case "data":
			l.sent++
			j, _ := json.Marshal(l.sent)
			if rpc {
				j = []byte(`{"channel":"x","path":"call","data":` + string(j) + `}`)
			}
			_ = l.cli.text(string(j))
		case "end":
			if a.Str("how") == "drop" {
				l.m.Lock()
				l.dropped = true
				l.m.Unlock()
				l.cli.close()
			} else {
				_ = l.cli.raw(frame(opClose, true, true, []byte{3, 232}))
			}
		case "cancel":
			if a.Str("which") == "own" {
				l.m.Lock()
				cf := l.own
				l.m.Unlock()
				cf()
			} else {
				l.cancel()
			}
		case "stall":
			l.gate <- "stall"
			time.Sleep(20 * time.Millisecond)
			l.m.Lock()
			l.dropped = true // it does not read
			l.m.Unlock()
			l.cancel()
		}
		if l != nil {
			if dl := want.List("con")[k-1].(map[string]any); vt.Act(dl).Int("dl") > before {
				if x := await(l, "handling"); x != "ok" {
					ret = x
				}
			}
		}
		out.Encode(vt.J{"ret": ret, "obs": vt.Await(want, obs, time.Millisecond, time.Millisecond)})
	}
}

func TestWsConnReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Par = 16
	g.Replay("life of websocket connections", vt.Scale(50, 800), 25, func(vt.Act) vt.Obj { return vt.StartProc(os.Getenv("CHILD")) })
	vt.Done()
}
