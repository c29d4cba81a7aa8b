package ws

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/harness/shim/vyield"
	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http/ws"
)

type message struct {
	ID  string `json:"id"`
	Pad string `json:"pad"`
}

func pad(id string, n int) string { return strings.Repeat(id+"|", n/(len(id)+1)) }

func TestWsSendTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	n := vt.EnvInt("N", 400)
	r := rand.New(rand.NewSource(vt.Seed()))
	vyield.Set(vyield.Real, r.Int63(), 40)
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for i := 0; i < n; i++ {
		seed := r.Int63()
		sem <- true
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			tr.Write(sendTrace(rand.New(rand.NewSource(seed))))
		}()
	}
	wg.Wait()
	tr.Close()
	vt.Done()
}

type link struct {
	c    ctx.C
	conn *ws.Conn
}

// the sender in use is either the connection, or a channel of an RPC connection
type Sender struct{ Got chan ws.C }

func (s *Sender) Init(c ws.C) error {
	s.Got <- c
	return nil
}

func sendTrace(r *rand.Rand) *vt.Hist {
	h := &vt.Hist{}
	var srv *httptest.Server
	var send func(m message) error
	var shut func() error
	var cli *client
	if r.Intn(3) > 0 {
		got := make(chan link, 1)
		srv = httptest.NewUnstartedServer(ws.Handler{
			OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) { got <- link{c, conn}; return c, nil },
			OnData:    func(c ctx.C, conn *ws.Conn, n enc.Node) error { return nil },
		}.Server())
		srv.Config.ErrorLog = discard
		srv.Config.BaseContext = baseContext(quiet())
		srv.Start()
		cli = mustDial(srv.Listener.Addr().String(), "/")
		l := <-got
		send = func(m message) error { return l.conn.Send(l.c, m) }
		shut = func() error { return l.conn.Close(l.c, 1000) }
	} else {
		got := make(chan ws.C, 1)
		h := &ws.RpcHandler{}
		h.MustRegister(quiet(), &Sender{Got: got})
		srv = httptest.NewUnstartedServer(h.Server())
		srv.Config.ErrorLog = discard
		srv.Config.BaseContext = baseContext(quiet())
		srv.Start()
		cli = mustDial(srv.Listener.Addr().String(), "/")
		_ = cli.json(fr{Channel: "x", Path: "sender", Type: "open"})
		c := <-got
		send = func(m message) error { return c.Reply("m", m) }
		shut = c.Close
	}
	defer srv.Close()
	defer cli.close()
	slow := r.Intn(3) == 0

	stream := []any{}
	pongs := make(chan bool, 10)
	done := make(chan bool)
	go func() {
		defer close(done)
		for i := 0; ; i++ {
			if slow && i < 3 {
				time.Sleep(time.Millisecond)
			}
			op, data, err := cli.read(vt.Patience)
			switch {
			case err == io.EOF:
				return
			case err != nil:
				stream = append(stream, err.Error())
				return
			case op == opPong:
				if string(data) != "ping" {
					stream = append(stream, fmt.Sprintf("pong %q", data))
				}
				pongs <- true
			case op == opClose:
				stream = append(stream, "close")
			case op == opText:
				var m message
				var f struct{ Data message }
				_ = json.Unmarshal(data, &m)
				if m.ID == "" {
					_ = json.Unmarshal(data, &f)
					m = f.Data
				}
				if m.ID == "" || m.Pad != pad(m.ID, len(m.Pad)) {
					stream = append(stream, "garbled")
				} else {
					stream = append(stream, m.ID)
				}
			default:
				stream = append(stream, fmt.Sprintf("frame %d", op))
			}
		}
	}()

	sizes := []int{10, 10, 200, 4090, 5000, 70000, 200000}
	if r.Intn(2) == 0 {
		sizes = sizes[:3]
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	t := 0
	for n := 1 + r.Intn(4); n > 0; n-- {
		t++
		me, seed := t, r.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			<-start
			for i := 1 + r.Intn(8); i > 0; i-- {
				id := fmt.Sprintf("%d.%d", me, i)
				m := message{id, pad(id, sizes[r.Intn(len(sizes))])}
				cl := h.Inv(me, vt.J{"op": "send", "id": id})
				if err := send(m); err != nil {
					cl.Res("error")
				} else {
					cl.Res("ok")
				}
			}
		}()
	}
	closing := func(me int) {
		cl := h.Inv(me, vt.J{"op": "close"})
		if err := shut(); err != nil {
			cl.Res("error")
		} else {
			cl.Res("ok")
		}
	}
	// a connection closed with something unread is reset: what was on its way may be lost, so a client sends
	// only if it has the answer before anybody closes
	pings := 0
	if r.Intn(2) == 0 {
		pings = 1 + r.Intn(4)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < pings; i++ {
				_ = cli.raw(frame(opPing, true, true, []byte("ping")))
			}
			for i := 0; i < pings; i++ {
				select {
				case <-pongs:
				case <-time.After(time.Second):
				}
			}
		}()
	} else {
		for n := r.Intn(3); n > 0; n-- {
			t++
			me, d := t, time.Duration(r.Intn(8))*100*time.Microsecond
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				time.Sleep(d)
				closing(me)
			}()
		}
	}
	close(start)
	wg.Wait()
	closing(t + 1)
	<-done
	h.Init = vt.J{"stream": stream}
	h.Inv(t+2, vt.J{"op": "eof"}).Res("ok")
	return h
}
