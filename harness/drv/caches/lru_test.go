package caches

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils/caches"
	"github.com/Aize-Public/forego/verifshim/vyield"
)

var errLoad = errors.New("load")

// tick makes sure that the clock moved
func tick() {
	for t := time.Now(); !time.Now().After(t); {
	}
}

type lru struct {
	c      caches.Cache[string, string]
	load   vt.Act
	called int
}

func keys(c any) []string {
	k, ok := c.(interface{ Keys() []string })
	if !ok {
		return []string{"no Keys()"}
	}
	l := append([]string{}, k.Keys()...)
	sort.Strings(l)
	return l
}

func (this *lru) Do(a vt.Act) (any, any) {
	c := context.Background()
	tick()
	var ret any
	switch a.Op() {
	case "get":
		this.load, this.called = a.Map("load"), 0
		v, hm, err := this.c.Get(c, a.Str("k"))
		ret = getRet(v, hm, err, this.called)
	case "inv":
		this.c.Invalidate(c, a.Str("k"))
		ret = "ok"
	}
	return ret, keys(this.c)
}

func getRet(v string, hm caches.HitMiss, err error, called int) any {
	if called > 1 {
		return "loader called more than once"
	}
	if (err != nil) != (hm == caches.ERR) {
		return fmt.Sprintf("%v but error %v", hm, err)
	}
	if err != nil && !errors.Is(err, errLoad) {
		return "not the loader's error: " + err.Error()
	}
	if err != nil {
		v = "e"
	}
	return vt.J{"hm": string(hm), "v": v, "called": called == 1}
}

func TestLRUReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Replay("lru-replay", vt.Scale(3000, 60000), 40, func(init vt.Act) vt.Obj {
		o := &lru{}
		o.c = caches.NewLRU(context.Background(), init.Int("cap"), func(c ctx.C, k string) (string, int, error) {
			o.called++
			if o.load.Str("out") == "err" {
				return "not to be kept", o.load.Int("size"), errLoad
			}
			return o.load.Str("v"), o.load.Int("size"), nil
		})
		return o
	})
	vt.Done()
}

type lruCfg struct{ cap, threads, ops, keys, maxSize int }

// concurrent histories in a bubble, the code under test being switched between statements
func TestLRUConc(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	n := vt.Scale(400, 4000)
	for i := 0; i < n; i++ {
		seed := r.Int63()
		cfg := lruCfg{cap: 1 + r.Intn(4), threads: 2 + r.Intn(2), ops: 6, keys: 4, maxSize: 2}
		synctest.Test(t, func(t *testing.T) { lruConc(t, seed, cfg, tr) })
	}
	// long sequential histories over many keys
	for i := 0; i < vt.Scale(60, 600); i++ {
		seed := r.Int63()
		cfg := lruCfg{cap: 1 + r.Intn(40), threads: 1, ops: 150, keys: 3 + r.Intn(30), maxSize: 1 + r.Intn(5)}
		synctest.Test(t, func(t *testing.T) { lruConc(t, seed, cfg, tr) })
	}
	// and some bigger caches
	for i := 0; i < vt.Scale(2, 10); i++ {
		seed := r.Int63()
		cfg := lruCfg{cap: 150 + r.Intn(150), threads: 1, ops: 1200, keys: 300, maxSize: 1 + r.Intn(2)}
		synctest.Test(t, func(t *testing.T) { lruConc(t, seed, cfg, tr) })
	}
	tr.Close()
	vt.Done()
}

func lruConc(t *testing.T, seed int64, cfg lruCfg, tr *vt.Traces) {
	r := rand.New(rand.NewSource(seed))
	vyield.Set(vyield.Bubble, seed, 0)
	defer vyield.Set(vyield.Off, 0, 0)
	h := &vt.Hist{Init: vt.J{"cap": cfg.cap}}
	sizes := map[string]int{}
	kk := []string{}
	for i := 0; i < cfg.keys; i++ {
		kk = append(kk, fmt.Sprintf("k%d", i))
		sizes[kk[i]] = 1 + r.Intn(cfg.maxSize)
	}
	type ck struct{}
	calls := 0
	c := caches.NewLRU(context.Background(), cfg.cap, func(c ctx.C, k string) (string, int, error) {
		op := c.Value(ck{}).(vt.J)
		calls++
		v := fmt.Sprintf("%s%d", k, calls)
		if _, again := op["load"]; again {
			op["again"] = true
		}
		switch r.Intn(8) {
		case 0:
			op["load"] = vt.J{"out": "err", "size": 1, "v": "e"}
			time.Sleep(1)
			return v, r.Intn(2) * sizes[k], errLoad
		case 1:
			op["load"] = vt.J{"out": "ok", "size": 0, "v": v}
			time.Sleep(1)
			return v, 0, nil
		default:
			op["load"] = vt.J{"out": "ok", "size": sizes[k], "v": v}
			time.Sleep(time.Duration(r.Intn(2000)))
			return v, sizes[k], nil
		}
	})
	done := make(chan bool)
	for th := 0; th < cfg.threads; th++ {
		th := th
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			for j := 0; j < cfg.ops; j++ {
				k := kk[rr.Intn(len(kk))]
				if rr.Intn(3) == 0 {
					k = kk[rr.Intn(1+len(kk)/4)] // some keys are hotter
				}
				time.Sleep(time.Duration(rr.Intn(1500)))
				switch x := rr.Intn(12); {
				case x == 0:
					call := h.Inv(th, vt.J{"op": "inv", "k": k})
					c.Invalidate(context.Background(), k)
					call.Res("ok")
				case x == 1:
					op := vt.J{"op": "keys"}
					call := h.Inv(th, op)
					op["seen"] = keys(c)
					call.Res("ok")
				default:
					op := vt.J{"op": "get", "k": k}
					call := h.Inv(th, op)
					v, hm, err := c.Get(context.WithValue(context.Background(), ck{}, op), k)
					n := 0
					if op["load"] != nil {
						n = 1
					} else {
						op["load"] = vt.J{"out": "none"}
					}
					if op["again"] != nil {
						n = 2
					}
					call.Res(getRet(v, hm, err, n))
				}
			}
			done <- true
		}()
	}
	for th := 0; th < cfg.threads; th++ {
		<-done
	}
	tr.Write(h)
}

// the atomic steps of the specification are critical sections in the code: no data race
func TestLRURace(t *testing.T) {
	for i := 0; i < vt.Scale(20, 200); i++ {
		c := caches.NewLRU(context.Background(), 5, func(c ctx.C, k int) (int, int, error) {
			if k%7 == 0 {
				return 0, 0, errLoad
			}
			return k, 1, nil
		})
		done := make(chan bool)
		for th := 0; th < 6; th++ {
			th := th
			go func() {
				for j := 0; j < 200; j++ {
					k := (j*7 + th*3) % 13
					switch j % 9 {
					case 0:
						c.Invalidate(context.Background(), k)
					case 1:
						if x, ok := c.(interface{ Keys() []int }); ok {
							x.Keys()
						}
					case 2:
						if x, ok := c.(fmt.Stringer); ok {
							_ = x.String()
						}
					default:
						v, _, err := c.Get(context.Background(), k)
						if err == nil && v != k {
							vt.Violation("lru-race", fmt.Sprintf("key %d has the value of key %d", k, v), nil)
						}
					}
				}
				done <- true
			}()
		}
		for th := 0; th < 6; th++ {
			<-done
		}
	}
	vt.Done()
}
