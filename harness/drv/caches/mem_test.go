package caches

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils/caches"
	"github.com/Aize-Public/forego/verifshim/vyield"
)

type mem struct {
	c      caches.Cache[string, string]
	load   vt.Act
	called int
}

func (this *mem) Do(a vt.Act) (any, any) {
	c := context.Background()
	switch a.Op() {
	case "get":
		this.load, this.called = a.Map("load"), 0
		v, hm, err := this.c.Get(c, a.Str("k"))
		return getRet(v, hm, err, this.called), nil
	case "inv":
		this.c.Invalidate(c, a.Str("k"))
	}
	return "ok", nil
}

func TestMemReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Replay("mem-replay", vt.Scale(3000, 60000), 60, func(init vt.Act) vt.Obj {
		o := &mem{}
		o.c = caches.Mem(context.Background(), func(c ctx.C, k string) (string, error) {
			o.called++
			if o.load.Str("out") == "err" {
				return "not to be kept", errLoad
			}
			return o.load.Str("v"), nil
		})
		return o
	})
	vt.Done()
}

func TestMemConc(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(600, 6000); i++ {
		seed := r.Int63()
		synctest.Test(t, func(t *testing.T) { memConc(seed, 2+i%3, 1+i%4, 5, tr) })
	}
	// it is unbounded: one thread, many keys
	for i := 0; i < vt.Scale(1, 4); i++ {
		seed := r.Int63()
		synctest.Test(t, func(t *testing.T) { memConc(seed, 1, 2500, 9000, tr) })
	}
	tr.Close()
	vt.Done()
}

func memConc(seed int64, threads, nkeys, ops int, tr *vt.Traces) {
	r := rand.New(rand.NewSource(seed))
	vyield.Set(vyield.Bubble, seed, 0)
	defer vyield.Set(vyield.Off, 0, 0)
	h := &vt.Hist{Init: vt.J{"x": 0}}
	type ck struct{}
	calls := 0
	c := caches.Mem(context.Background(), func(c ctx.C, k string) (string, error) {
		op := c.Value(ck{}).(vt.J)
		calls++
		v := fmt.Sprintf("%s%d", k, calls)
		if _, again := op["load"]; again {
			op["again"] = true
		}
		time.Sleep(time.Duration(r.Intn(3) * r.Intn(4000)))
		if r.Intn(5) == 0 {
			op["load"] = vt.J{"out": "err", "v": "e"}
			return v, errLoad
		}
		op["load"] = vt.J{"out": "ok", "v": v}
		return v, nil
	})
	done := make(chan bool)
	for th := 0; th < threads; th++ {
		th := th
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			for j := 0; j < ops; j++ {
				k := fmt.Sprintf("k%d-", rr.Intn(nkeys))
				time.Sleep(time.Duration(rr.Intn(3) * rr.Intn(3000)))
				if rr.Intn(4) == 0 && (ops < 100 || j%100 == 99) {
					call := h.Inv(th, vt.J{"op": "inv", "k": k})
					c.Invalidate(context.Background(), k)
					call.Res("ok")
					continue
				}
				op := vt.J{"op": "get", "k": k}
				call := h.Inv(th, op)
				v, hm, err := c.Get(context.WithValue(context.Background(), ck{}, op), k)
				n := 0
				if op["load"] != nil {
					n = 1
				} else {
					op["load"] = vt.J{"out": "none"}
				}
				if op["again"] != nil {
					n = 2
				}
				call.Res(getRet(v, hm, err, n))
			}
			done <- true
		}()
	}
	for th := 0; th < threads; th++ {
		<-done
	}
	tr.Write(h)
}

func TestMemRace(t *testing.T) {
	for i := 0; i < vt.Scale(15, 150); i++ {
		c := caches.Mem(context.Background(), func(c ctx.C, k int) (int, error) {
			if k%5 == 0 {
				return k, errLoad
			}
			return k, nil
		})
		done := make(chan bool)
		for th := 0; th < 6; th++ {
			th := th
			go func() {
				for j := 0; j < 300; j++ {
					k := (j*7 + th*3) % 9
					if j%11 == 0 {
						c.Invalidate(context.Background(), k)
					} else if v, _, err := c.Get(context.Background(), k); err == nil && v != k {
						vt.Violation("mem-race", fmt.Sprintf("key %d has the value of key %d", k, v), nil)
					}
				}
				done <- true
			}()
		}
		for th := 0; th < 6; th++ {
			<-done
		}
	}
	vt.Done()
}
