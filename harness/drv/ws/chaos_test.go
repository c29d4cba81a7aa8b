package ws

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http/ws"
)

// Echo is what the clients of the RPC connection use
type Echo struct{ N int }

func (o *Echo) Say(c ws.C, n int) error { return c.Reply("echo", n) }
func (o *Echo) Struct(c ws.C, in struct {
	A  int            `json:"a"`
	B  []string       `json:"b"`
	M  map[string]int `json:"m"`
	P  *Echo          `json:"p"`
	T  time.Time      `json:"t"`
	R  json.RawMessage
	An any
	F  float64
	By []byte
	Ar [2]int
}) error {
	return nil
}
func (o *Echo) Blast(c ws.C) error {
	s := strings.Repeat("x", 1<<20)
	for i := 0; i < 200; i++ {
		if err := c.Reply("blast", s); err != nil {
			return err
		}
	}
	return nil
}

func chaosChild() {
	in, out := vt.ChildIO()
	c := quiet()
	rpc := &ws.RpcHandler{}
	rpc.MustRegister(c, &Echo{})
	mux := http.NewServeMux()
	mux.Handle("/rpc", rpc.Server())
	mux.Handle("/generic", ws.Handler{
		OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) { return c, nil },
		OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
			var m struct {
				Blast bool
				Echo  *int
			}
			if err := enc.Unmarshal(c, n, &m); err != nil {
				return err
			}
			if m.Blast {
				s := strings.Repeat("x", 1<<20)
				for i := 0; i < 200; i++ {
					if err := conn.Send(c, s); err != nil {
						return err
					}
				}
			}
			if m.Echo != nil {
				return conn.Send(c, map[string]any{"channel": "e", "path": "echo", "data": *m.Echo})
			}
			return nil
		},
	}.Server())
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	srv := &http.Server{Handler: mux, ErrorLog: discard, BaseContext: baseContext(c)}
	go srv.Serve(lis)
	addr := lis.Addr().String()

	type peer struct {
		*client
		h string
	}
	nonce := 0
	attach := func(h string) peer {
		p := peer{mustDial(addr, "/"+h), h}
		if h == "rpc" {
			_ = p.json(fr{Channel: "e", Path: "echo", Type: "open"})
		}
		return p
	}
	say := func(p peer) {
		nonce++
		if p.h == "rpc" {
			_ = p.json(fr{Channel: "e", Path: "say", Data: nonce})
		} else {
			_ = p.json(map[string]any{"Echo": nonce})
		}
	}
	// open if it answers, closed if it ends
	probe := func(p peer) string {
		say(p)
		for t0 := time.Now(); time.Since(t0) < vt.Patience; {
			op, data, err := p.read(vt.Patience)
			if op == opClose {
				return "closed"
			}
			if err != nil {
				if isTimeout(err) {
					break
				}
				if err == errMalformed {
					return "malformed"
				}
				return "closed"
			}
			var f struct {
				Path string `json:"path"`
				Data any    `json:"data"`
			}
			_ = json.Unmarshal(data, &f)
			if f.Path == "echo" && f.Data == float64(nonce) {
				return "open"
			}
		}
		return "neither served nor closed"
	}
	var att, good *peer
	r := rand.New(rand.NewSource(vt.Seed()))
	for {
		var a vt.Act
		if in.Decode(&a) != nil {
			return
		}
		want := a.Map("obs")
		var ret any = "ok"
		switch a.Op() {
		case "attach":
			p := attach(a.Str("h"))
			att = &p
			ret = probe(*att)
		case "send":
			for _, b := range hostile(a.Str("kind"), att.h, r) {
				_ = att.raw(b)
			}
			ret = probe(*att)
			if ret != "open" {
				att.close()
				att = nil
			}
		case "part":
			_ = att.raw(part(a.Str("kind"), att.h, r))
			if a.Str("kind") == "flood" {
				for i := 0; i < 50; i++ {
					say(*att)
				}
			}
			ret = "sent"
			time.Sleep(time.Millisecond)
		case "drop":
			switch a.Str("how") {
			case "reset":
				_ = att.conn.(*net.TCPConn).SetLinger(0)
				att.close()
			case "fin":
				att.close()
			case "half":
				// it still reads, and sees the end
				_ = att.conn.(*net.TCPConn).CloseWrite()
				for ret = "never closed"; ; {
					op, _, err := att.read(vt.Patience)
					if op == opClose || (err != nil && !isTimeout(err)) {
						ret = "ok"
					}
					if op == opClose || err != nil {
						break
					}
				}
				att.close()
			}
			att = nil
		case "join":
			p := attach([]string{"generic", "rpc"}[r.Intn(2)])
			good = &p
		case "leave":
			good.close()
			good = nil
		}
		obs := vt.J{"ok": false, "held": want.Str("held")}
		if good != nil {
			if x := probe(*good); x == "open" {
				obs["ok"] = true
			} else {
				obs["ok"] = x
			}
		}
		// what happened decides what has to be released: both answers of an attack are known only here
		exp := "any"
		if att != nil || good != nil {
			if a.Op() != "part" && want.Str("held") != "any" || good != nil {
				exp = "yes"
			}
		} else {
			exp = "no"
		}
		if exp != "any" {
			for t0 := time.Now(); held() != (exp == "yes") && time.Since(t0) < vt.Patience; {
				time.Sleep(time.Millisecond)
			}
			obs["held"] = "no"
			if held() {
				obs["held"] = "yes"
			}
		}
		out.Encode(vt.J{"ret": ret, "obs": obs})
	}
}

// hostile gives the frames of a kind
func hostile(kind, h string, r *rand.Rand) [][]byte {
	text := func(s string) []byte { return frame(opText, true, true, []byte(s)) }
	one := func(b []byte) [][]byte { return [][]byte{b} }
	junk := func(n int) []byte {
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	switch kind {
	case "proper":
		if h == "rpc" {
			return one(text(fmt.Sprintf(`{"channel":"e","path":"say","data":%d}`, -r.Intn(1000)-1)))
		}
		return one(text(`{"Echo":-1}`))
	case "ping":
		return one(frame(opPing, true, true, nil))
	case "ping-125":
		return one(frame(opPing, true, true, junk(125)))
	case "ping-big":
		return one(frame(opPing, true, true, junk([]int{126, 200, 70000}[r.Intn(3)])))
	case "ping-fragment":
		return one(frame(opPing, false, true, junk(10)))
	case "pong":
		return one(frame(opPong, true, true, junk(5)))
	case "pong-big":
		return one(frame(opPong, true, true, junk([]int{126, 70000}[r.Intn(2)])))
	case "close":
		return one(frame(opClose, true, true, nil))
	case "close-code":
		return one(frame(opClose, true, true, binary.BigEndian.AppendUint16(nil, uint16([]int{1000, 1001, 0, 999, 65535, 4000}[r.Intn(6)]))))
	case "close-short":
		return one(frame(opClose, true, true, []byte{3}))
	case "close-big":
		return one(frame(opClose, true, true, append([]byte{3, 232}, junk(3000)...)))
	case "close-utf8":
		return one(frame(opClose, true, true, []byte{3, 232, 0xff, 0xfe}))
	case "continuation":
		return one(frame(opCont, r.Intn(2) == 0, true, []byte(`{"x":1}`)))
	case "fragment":
		return one(frame(opText, false, true, []byte(`{"channel":"e","pa`)))
	case "fragments":
		return [][]byte{frame(opText, false, true, []byte(`{"channel":"e",`)), frame(opCont, false, true, []byte(`"path":"say",`)), frame(opCont, true, true, []byte(`"data":-5}`))}
	case "op-3", "op-7", "op-11", "op-15":
		var n byte
		fmt.Sscanf(kind, "op-%d", &n)
		return one(frame(n, true, true, junk(r.Intn(300))))
	case "rsv":
		b := text(`{"Echo":-1}`)
		b[0] |= []byte{0x40, 0x20, 0x10, 0x70}[r.Intn(4)]
		return one(b)
	case "unmasked":
		return one(frame(opText, true, false, []byte(`{"channel":"e","path":"say","data":-1}`)))
	case "binary":
		return one(frame(opBin, true, true, []byte(`{"channel":"e","path":"say","data":-1}`)))
	case "binary-junk":
		return one(frame(opBin, true, true, junk(1+r.Intn(1000))))
	case "utf8":
		return one(text("{\"channel\":\"e\",\"path\":\"\xff\xfe\"}"))
	case "not-json":
		return one(text([]string{`{`, `{"a"`, `]`, `nul`, `{"a":1,}`, "\x00", `'a'`, `{"a":01}`, `"`, "<html>"}[r.Intn(10)]))
	case "empty":
		return one(text(""))
	case "list":
		return one(text([]string{`[]`, `[1,{"channel":"e"}]`, `[[[]]]`}[r.Intn(3)]))
	case "number":
		return one(text([]string{`0`, `-1`, `1.5e300`, `12345678901234567890123`}[r.Intn(4)]))
	case "null":
		return one(text(`null`))
	case "string":
		return one(text(`"channel"`))
	case "true":
		return one(text([]string{`true`, `false`}[r.Intn(2)]))
	case "deep":
		return one(text(strings.Repeat("[", 1000000)))
	case "deep-object":
		return one(text(strings.Repeat(`{"a":`, 9000) + "1" + strings.Repeat("}", 9000)))
	case "deep-data":
		n := []int{100, 9000, 200000}[r.Intn(3)]
		return one(text(`{"channel":"e","path":"struct","data":{"An":` + strings.Repeat("[", n) + strings.Repeat("]", n) + `}}`))
	case "huge":
		return one(text(`{"channel":"e","path":"say","data":[` + strings.Repeat("1,", 2000000) + `1]}`))
	case "huge-string":
		return one(text(`{"channel":"` + strings.Repeat("x", 8<<20) + `"}`))
	case "big-number":
		return one(text(`{"channel":"e","path":"say","Echo":1e999999999,"data":` + []string{"1e999999999", strings.Repeat("9", 100000), "-0.0e-999999", "9223372036854775808"}[r.Intn(4)] + `}`))
	case "wrong-types":
		return one(text([]string{`{"channel":5,"path":"say","data":1}`, `{"channel":["e"],"path":{"a":1}}`, `{"channel":"e","path":"say","type":[],"data":1}`, `{"channel":null,"path":null,"type":null,"data":null}`, `{"type":true}`, `{"Echo":"x"}`, `{"Blast":5}`}[r.Intn(7)]))
	case "keys":
		return one(text(`{"channel":"e","channel":"f","path":"say","":1,"Echo":-1,"Echo":-2}`))
	case "zero":
		return one(text("{\"channel\":\"e\\u0000\",\"path\":\"say\\u0000\"}"))
	case "long-length":
		// a length in more bytes than needed
		p := []byte(`{"Echo":-1}`)
		b := []byte{0x81, 0x80 | 127}
		b = binary.BigEndian.AppendUint64(b, uint64(len(p)))
		b = append(b, 0, 0, 0, 0)
		return one(append(b, p...))
	case "many":
		return one(bytes.Repeat(frame(opPing, true, true, []byte("x")), 2000))
	case "trailing":
		return one(text(`{"channel":"e","path":"say","data":-1} {"channel":"e","path":"say","data":-2}`))
	case "surrogate":
		return one(text(`{"channel":"e","path":"say\ud800","data":"\udfff"}`))
	case "open-again":
		return [][]byte{text(`{"channel":"e","path":"echo","type":"open","data":[1,2]}`), text(`{"channel":"e","path":"echo","type":"new"}`)}
	case "names":
		return one(text(`{"channel":"e","path":"` + []string{"Say", "init", "Init", "", "blast ", "../say", "N"}[r.Intn(7)] + `","data":1}`))
	case "data-shapes":
		var out [][]byte
		for _, d := range []string{`null`, `1`, `"x"`, `[]`, `{}`, `{"a":"x"}`, `{"a":1.5}`, `{"b":[1,null]}`, `{"b":"x"}`, `{"m":{"x":"y"}}`, `{"m":[]}`, `{"p":{"N":"x"}}`, `{"p":[]}`, `{"t":"x"}`, `{"t":5}`, `{"R":{"x":[1]}}`, `{"An":[{}]}`, `{"F":"x"}`, `{"F":1e400}`, `{"By":"###"}`, `{"By":[300]}`, `{"Ar":[1,2,3,4]}`, `{"Ar":"x"}`, `{"a":9223372036854775808}`} {
			out = append(out, text(`{"channel":"e","path":"struct","data":`+d+`}`))
		}
		return out
	}
	panic("unknown kind " + kind)
}

func part(kind, h string, r *rand.Rand) []byte {
	whole := frame(opText, true, true, []byte(`{"channel":"e","path":"say","data":-1,"Echo":-1}`))
	switch kind {
	case "header":
		return whole[:1]
	case "length":
		return []byte{0x81, 0xfe, 1}
	case "mask":
		return whole[:4]
	case "payload":
		return whole[:len(whole)-3]
	case "long":
		return []byte{0x81, 0xff, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4, 'x', 'y'}
	case "negative":
		return []byte{[]byte{0x81, 0x88, 0x89, 0x82}[r.Intn(4)], 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4, 'x', 'y'}
	case "http":
		return []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
	case "noise":
		b := make([]byte, 1+r.Intn(3000))
		r.Read(b)
		return b
	case "flood":
		if h == "rpc" {
			return frame(opText, true, true, []byte(`{"channel":"e","path":"blast"}`))
		}
		return frame(opText, true, true, []byte(`{"Blast":true}`))
	}
	panic("unknown part " + kind)
}

func TestWsChaosReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	var n atomic.Int64
	g.Par = 8
	g.Replay("hostile websocket clients", vt.Scale(220, 4000), 25, func(vt.Act) vt.Obj {
		return vt.StartProc("chaos", fmt.Sprint("VERIF_SEED=", vt.Seed()*1000000+n.Add(1)))
	})
	vt.Done()
}
