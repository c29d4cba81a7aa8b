package pipes

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/test"
	"github.com/Aize-Public/forego/verifshim/vyield"
)

func modes(i int, seed int64) {
	if i%2 == 0 {
		vyield.Set(vyield.Bubble, seed, 0)
	} else {
		vyield.Set(vyield.Off, 0, 0)
	}
}

// ops of a history: each in its own goroutine
type ops struct {
	m   sync.Mutex
	res []any
	h   *vt.Hist
}

func (o *ops) start(ev vt.J, f func() any) int {
	o.m.Lock()
	id := len(o.res)
	o.res = append(o.res, nil)
	o.m.Unlock()
	ev["k"], ev["id"] = "start", id+1
	o.h.Ev = append(o.h.Ev, ev)
	go func() {
		var r any
		if msg := vt.Protect(func() { r = f() }); msg != "" {
			r = "panic: " + msg
		}
		o.m.Lock()
		o.res[id] = r
		o.m.Unlock()
	}()
	return id
}

func (o *ops) quiet(pend any, more vt.J) {
	time.Sleep(time.Second)
	synctest.Wait()
	o.m.Lock()
	defer o.m.Unlock()
	ev := vt.J{"k": "quiet"}
	res := []any{}
	for _, r := range o.res {
		if r == nil {
			r = pend
		}
		res = append(res, r)
	}
	ev["res"] = res
	for k, v := range more {
		ev[k] = v
	}
	o.h.Ev = append(o.h.Ev, ev)
}

func code(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == io.EOF:
		return "eof"
	case errors.Is(err, io.ErrClosedPipe):
		return "closed"
	case errors.Is(err, context.Canceled), errors.Is(err, context.DeadlineExceeded):
		return "canceled"
	}
	return "error: " + err.Error()
}

func TestPipe(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(400, 5000); i++ {
		seed := r.Int63()
		synctest.Test(t, func(t *testing.T) {
			modes(i, seed)
			defer vyield.Set(vyield.Off, 0, 0)
			pipe(rand.New(rand.NewSource(seed)), tr)
		})
	}
	tr.Close()
	vt.Done()
}

func pipe(r *rand.Rand, tr *vt.Traces) {
	size := r.Intn(4)
	a, b := enc.NewPipe(size)
	ends := []enc.ReadWriteCloser{a, b}
	h := &vt.Hist{Init: vt.J{"cap": size}}
	o := &ops{h: h}
	cancels := map[int]context.CancelFunc{}
	all, end := context.WithCancel(context.Background())
	defer func() { end(); time.Sleep(time.Second) }()
	n := 0
	pClose := r.Intn(14)
	for batch := 0; batch < 8; batch++ {
		for k := 1 + r.Intn(3); k > 0; k-- {
			d := 1 + r.Intn(2) // direction d is written by end d-1
			c, cancel := context.WithCancel(all)
			early := r.Intn(10) == 0
			id := -1
			if early {
				cancel()
			}
			switch x := r.Intn(14); {
			case x == 13 && pClose > 8 || x == 12 && pClose > 3:
				early = false
				o.start(vt.J{"kind": "close", "d": d, "v": ""}, func() any { return code(ends[d-1].Close(c)) })
			case x < 7:
				n++
				v := fmt.Sprint("v", n)
				id = o.start(vt.J{"kind": "write", "d": d, "v": v}, func() any { return code(ends[d-1].Write(c, enc.String(v))) })
			case x < 12:
				id = o.start(vt.J{"kind": "read", "d": d, "v": ""}, func() any {
					got, err := ends[2-d].Read(c)
					if err != nil {
						return code(err)
					}
					s, ok := got.(enc.String)
					if !ok {
						return fmt.Sprintf("read %v", got)
					}
					return string(s)
				})
			}
			if early && id >= 0 {
				h.Ev = append(h.Ev, vt.J{"k": "cancel", "id": id + 1})
			} else if id >= 0 {
				cancels[id] = cancel
			}
			if r.Intn(8) == 0 { // and cancel one which waits
				for id, cf := range cancels {
					cf()
					delete(cancels, id)
					h.Ev = append(h.Ev, vt.J{"k": "cancel", "id": id + 1})
					break
				}
			}
		}
		o.quiet("pend", nil)
	}
	tr.Write(h)
}

func TestBuffered(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(300, 5000); i++ {
		seed := r.Int63()
		synctest.Test(t, func(t *testing.T) {
			modes(i, seed)
			defer vyield.Set(vyield.Off, 0, 0)
			buffered(rand.New(rand.NewSource(seed)), tr)
		})
	}
	tr.Close()
	vt.Done()
}

func ints(b []byte) []int {
	out := []int{}
	for _, x := range b {
		out = append(out, int(x))
	}
	return out
}

func buffered(r *rand.Rand, tr *vt.Traces) {
	s := test.NewBufferedRWC()
	h := &vt.Hist{}
	o := &ops{h: h}
	closed := false
	next := byte(0)
	bytes := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			next++
			b[i] = next
		}
		return b
	}
	res := func(code string, b []byte) any { return vt.J{"r": code, "b": ints(b)} }
	readers := 0
	for batch := 0; batch < 8; batch++ {
		closing := batch > 2 && r.Intn(5) == 0 || batch == 7
		for k := 1 + r.Intn(2); k > 0; k-- {
			switch x := r.Intn(8); {
			case x < 3 && !closing && !closed:
				b := bytes(1 + r.Intn(5))
				o.start(vt.J{"kind": "append", "n": 0, "b": ints(b)}, func() any { s.Append(b); return res("ok", nil) })
			case x < 4:
				b := bytes(r.Intn(3))
				o.start(vt.J{"kind": "write", "n": 0, "b": ints(b)}, func() any {
					n, err := s.Write(b)
					if err == nil && n != len(b) {
						return res(fmt.Sprintf("wrote %d of %d", n, len(b)), nil)
					}
					return res(code(err), nil)
				})
			case readers == 0: // one reader at a time
				readers++
				n := r.Intn(7)
				o.start(vt.J{"kind": "read", "n": n, "b": []int{}}, func() any {
					dst := make([]byte, n)
					ct, err := s.Read(dst)
					o.m.Lock()
					readers--
					o.m.Unlock()
					if err != nil {
						if ct != 0 {
							return res("bytes with an error", dst[:ct])
						}
						return res(code(err), nil)
					}
					return res("bytes", dst[:ct])
				})
			}
		}
		if closing {
			closed = true
			if r.Intn(2) == 0 {
				o.start(vt.J{"kind": "close", "n": 0, "b": []int{}}, func() any {
					err := s.Close()
					s.SetReadClosed() // Close alone does not wake a waiting reader: see TestBufferedClose
					return res(code(err), nil)
				})
			} else {
				o.start(vt.J{"kind": "setclosed", "n": 0, "b": []int{}}, func() any { s.SetReadClosed(); return res("ok", nil) })
			}
		}
		time.Sleep(time.Second)
		synctest.Wait()
		written := [][]int{}
		s.Lock()
		for _, b := range s.Written {
			written = append(written, ints(b))
		}
		s.Unlock()
		o.quiet(res("pend", nil), vt.J{"written": written, "hasread": s.HasRead(), "closed": s.IsReadClosed()})
	}
	s.SetReadClosed()
	time.Sleep(time.Second)
	tr.Write(h)
}

// a reader which waits is woken by Close
func TestBufferedClose(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		s := test.NewBufferedRWC()
		done := make(chan error, 1)
		go func() {
			_, err := s.Read(make([]byte, 1))
			done <- err
		}()
		time.Sleep(time.Second)
		s.Close()
		time.Sleep(time.Second)
		select {
		case err := <-done:
			if err != io.EOF {
				vt.Violation("buffered-close-read", fmt.Sprint("read of the closed stream: ", err), nil)
			}
		default:
			vt.Violation("buffered-close-wakeup", "a read which waits is not woken by Close", nil)
			s.SetReadClosed()
			<-done
		}
	})
	vt.Done()
}
