package readall

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils"
)

type chunk struct {
	D   int    `json:"d"`
	N   int    `json:"n"`
	End string `json:"end"`
}

// a stream which follows a script, and then blocks until it is closed
type stream struct {
	script []chunk
	pos    int
	waited bool
	off    int // in the chunk
	total  int
	closed chan struct{}
	err    error
	joint  bool // the end comes together with the last bytes
	zero   bool
}

func content(i int) byte { return byte(i*7 + i/251) }

func (s *stream) Read(p []byte) (int, error) {
	for {
		if s.pos >= len(s.script) {
			<-s.closed
			return 0, io.ErrClosedPipe
		}
		c := s.script[s.pos]
		if !s.waited {
			s.waited = true
			time.Sleep(time.Duration(c.D) * time.Second)
		}
		n := min(len(p), c.N-s.off)
		for i := 0; i < n; i++ {
			p[i] = content(s.total + i)
		}
		s.off += n
		s.total += n
		if s.off < c.N {
			return n, nil
		}
		end := c.End != "no"
		if end && (s.joint || n == 0) {
			return n, s.err
		}
		if end {
			s.script[s.pos].N, s.off = 0, 0
			return n, nil
		}
		s.pos++
		s.off, s.waited = 0, false
		if n > 0 || s.zero {
			return n, nil
		}
	}
}

var errOwn = errors.New("own")

func TestReadAll(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(1500, 20000); i++ {
		synctest.Test(t, func(t *testing.T) { call(r, tr, i%75 == 0) })
	}
	tr.Close()
	vt.Done()
}

func call(r *rand.Rand, tr *vt.Traces, big bool) {
	var script []chunk
	sizes := []int{0, 1, 1, 5, 100, 8191, 8192, 8193, 20000}
	if big {
		sizes = []int{1, 5 << 20, 3<<20 + 1}
	}
	n := 1 + r.Intn(5)
	for i := 0; i < n; i++ {
		c := chunk{r.Intn(3), sizes[r.Intn(len(sizes))], "no"}
		if i == n-1 {
			c.End = []string{"eof", "eof", "err", "no"}[r.Intn(4)]
		}
		script = append(script, c)
	}
	s := &stream{script: append([]chunk{}, script...), closed: make(chan struct{}), joint: r.Intn(2) == 0, zero: r.Intn(2) == 0, err: io.EOF}
	if script[n-1].End == "err" {
		s.err = []error{errOwn, io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("layer: %w", errOwn)}[r.Intn(4)]
	}
	ctxEnd := -1
	var c ctx.C = context.Background()
	cf := func() {}
	if r.Intn(2) == 0 || script[n-1].End == "no" {
		ctxEnd = r.Intn(8)
		if r.Intn(2) == 0 {
			c, cf = ctx.WithTimeout(c, time.Duration(ctxEnd)*time.Second)
		} else {
			cc, cancel := ctx.WithCancel(c)
			c = cc
			cf = func() { cancel(nil) }
			f := func() { cancel(errors.New("cause")) }
			if ctxEnd == 0 {
				f()
			} else {
				time.AfterFunc(time.Duration(ctxEnd)*time.Second, f)
			}
		}
	}
	closes := 0
	cl := func() error {
		closes++
		if closes == 1 {
			close(s.closed)
		}
		if r.Intn(2) == 0 {
			return errors.New("close failed")
		}
		return nil
	}
	noClose := r.Intn(5) == 0
	fn := cl
	if noClose {
		fn = nil
	}
	t0 := time.Now()
	out, err := utils.ReadAll(c, s, fn)
	at := int(time.Since(t0) / time.Second)
	if time.Since(t0) != time.Duration(at)*time.Second {
		at = -1
	}
	keep := bytes.Clone(out)
	ev := vt.J{"k": "ret", "n": len(out), "at": at}
	for i := range out {
		if out[i] != content(i) {
			ev["n"] = 1000000 + i
			break
		}
	}
	switch {
	case err == nil:
		ev["err"] = "eof"
	case c.Err() != nil && errors.Is(err, c.Err()):
		ev["err"] = "ctx"
	case script[n-1].End == "err" && errors.Is(err, s.err):
		ev["err"] = "err"
		var w ctx.Error
		if !errors.As(err, &w) {
			ev["err"] = "not wrapped"
		}
	default:
		ev["err"] = err.Error()
	}
	if noClose {
		_ = cl()
	} else if closes != 1 {
		ev["closes"] = closes
	}
	cf()
	time.Sleep(100 * time.Second) // the reader goes on for a while
	if ev["closes"] == nil {
		ev["closes"] = closes
	}
	if !bytes.Equal(out, keep) {
		ev["err"] = "the bytes changed after the call"
	}
	tr.Write(&vt.Hist{Init: vt.J{"script": script, "ctxEnd": ctxEnd}, Ev: []vt.J{ev}})
}
