package ws

import (
	"bufio"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	golog "log"
	"log/slog"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
)

func TestMain(m *testing.M) {
	if vt.Child() != "" {
		child()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

func quiet() ctx.C {
	return log.WithSlogLogger(context.Background(), slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 1})))
}

const (
	opCont  = 0
	opText  = 1
	opBin   = 2
	opClose = 8
	opPing  = 9
	opPong  = 10
)

// client is a minimal WebSocket client, which writes any bytes and checks what it reads
type client struct {
	conn net.Conn
	r    *bufio.Reader
	wm   sync.Mutex
}

func dial(addr, path string) (*client, error) {
	var conn net.Conn
	var err error
	for i := 0; i < 50; i++ {
		conn, err = net.DialTimeout("tcp", addr, vt.Patience)
		if err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		return nil, err
	}
	_ = conn.SetDeadline(time.Now().Add(vt.Patience))
	_, err = fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: %s\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nOrigin: http://%s\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n", path, addr, addr)
	if err != nil {
		conn.Close()
		return nil, err
	}
	c := &client{conn: conn, r: bufio.NewReader(conn)}
	st, err := c.r.ReadString('\n')
	if err != nil {
		conn.Close()
		return nil, err
	}
	if !strings.Contains(st, " 101 ") {
		conn.Close()
		return nil, errors.New(strings.TrimSpace(st))
	}
	for {
		l, err := c.r.ReadString('\n')
		if err != nil {
			conn.Close()
			return nil, err
		}
		if l == "\r\n" {
			break
		}
	}
	_ = conn.SetDeadline(time.Time{})
	return c, nil
}

func mustDial(addr, path string) *client {
	c, err := dial(addr, path)
	if err != nil {
		panic(err)
	}
	return c
}

func frame(op byte, fin, mask bool, payload []byte) []byte {
	b := []byte{op}
	if fin {
		b[0] |= 0x80
	}
	var m byte
	if mask {
		m = 0x80
	}
	switch n := len(payload); {
	case n < 126:
		b = append(b, m|byte(n))
	case n < 65536:
		b = append(b, m|126, byte(n>>8), byte(n))
	default:
		b = append(b, m|127)
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	if !mask {
		return append(b, payload...)
	}
	key := []byte{1, 2, 3, 4}
	b = append(b, key...)
	for i, x := range payload {
		b = append(b, x^key[i%4])
	}
	return b
}

func (c *client) raw(b []byte) error {
	c.wm.Lock()
	defer c.wm.Unlock()
	_ = c.conn.SetWriteDeadline(time.Now().Add(vt.Patience))
	_, err := c.conn.Write(b)
	return err
}

func (c *client) text(s string) error { return c.raw(frame(opText, true, true, []byte(s))) }
func (c *client) json(v any) error {
	j, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return c.text(string(j))
}

var errMalformed = errors.New("malformed stream")

// read the next frame; io.EOF is the end of the connection, however it ends
func (c *client) read(timeout time.Duration) (op byte, data []byte, err error) {
	_ = c.conn.SetReadDeadline(time.Now().Add(timeout))
	var h [2]byte
	if n, err := io.ReadFull(c.r, h[:]); err != nil {
		if n != 0 && !isTimeout(err) {
			return 0, nil, errMalformed
		}
		return 0, nil, eof(err)
	}
	if h[0]&0xf0 != 0x80 || h[1]&0x80 != 0 { // final, no extension, no mask
		return 0, nil, errMalformed
	}
	n := uint64(h[1])
	switch n {
	case 126:
		var l [2]byte
		if _, err := io.ReadFull(c.r, l[:]); err != nil {
			return 0, nil, errMalformed
		}
		n = uint64(binary.BigEndian.Uint16(l[:]))
	case 127:
		var l [8]byte
		if _, err := io.ReadFull(c.r, l[:]); err != nil {
			return 0, nil, errMalformed
		}
		n = binary.BigEndian.Uint64(l[:])
	}
	if n > 100<<20 {
		return 0, nil, errMalformed
	}
	data = make([]byte, n)
	if _, err := io.ReadFull(c.r, data); err != nil {
		return 0, nil, errMalformed
	}
	switch op = h[0] & 0xf; op {
	case opText, opBin, opClose, opPing, opPong:
		return op, data, nil
	}
	return 0, nil, errMalformed
}

func isTimeout(err error) bool {
	var e net.Error
	return errors.As(err, &e) && e.Timeout()
}

func eof(err error) error {
	if isTimeout(err) {
		return err
	}
	return io.EOF
}

func (c *client) close() { c.conn.Close() }

var discard = golog.New(io.Discard, "", 0)

func baseContext(c ctx.C) func(net.Listener) context.Context {
	return func(net.Listener) context.Context { return c }
}

func child() {
	switch vt.Child() {
	case "conn":
		connChild(false)
	case "connrpc":
		connChild(true)
	case "chaos":
		chaosChild()
	}
}
