package caches

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils/caches"
	"github.com/Aize-Public/forego/verifshim/vyield"
)

func TestRequestConc(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(250, 3000); i++ {
		seed := r.Int63()
		synctest.Test(t, func(t *testing.T) { reqConc(seed, true, tr) })
	}
	for i := 0; i < vt.Scale(250, 3000); i++ {
		seed := r.Int63()
		synctest.Test(t, func(t *testing.T) { reqConc(seed, false, tr) })
	}
	tr.Close()
	vt.Done()
}

func reqConc(seed int64, strict bool, tr *vt.Traces) {
	r := rand.New(rand.NewSource(seed))
	slack := 0
	if strict {
		vyield.Set(vyield.Off, seed, 0)
	} else {
		vyield.Set(vyield.Bubble, seed, 0)
		slack = 1000000
	}
	defer vyield.Set(vyield.Off, 0, 0)
	start := time.Now()
	at := func() int { return int(time.Since(start)) }
	capa := 1 + r.Intn(3)
	if strict {
		capa = 3 // no eviction: virtual time does not order what happens at the same instant
	}
	h := &vt.Hist{Init: vt.J{"cap": capa, "slack": slack, "strict": strict}}
	type ck struct{}
	nkeys := 1 + r.Intn(3)
	calls := 0
	c := caches.NewRequestLRU(context.Background(), capa, func(c ctx.C, k string) (string, time.Duration, error) {
		t := c.Value(ck{}).(int)
		calls++
		v := fmt.Sprintf("%s%d", k, calls)
		h.Add(vt.J{"k": "fs", "t": t, "key": k, "at": at()})
		var ttl time.Duration
		var err error
		if r.Intn(4) > 0 {
			ttl = time.Duration(10+r.Intn(4)*10) * time.Millisecond
		} else if r.Intn(2) == 0 {
			ttl = -1
		}
		switch x := r.Intn(4); x {
		case 0:
			err = errLoad
			if r.Intn(2) == 0 {
				v = ""
			}
		}
		if d := time.Duration(r.Intn(3)*r.Intn(20)) * time.Millisecond; d > 0 {
			time.Sleep(d + time.Duration(r.Intn(1000)))
		}
		h.Add(vt.J{"k": "fe", "t": t, "v": v, "err": err != nil, "ttl": int(max(ttl, 0)), "at": at()})
		return v, ttl, err
	})
	done := make(chan bool)
	threads := 2 + r.Intn(3)
	for th := 1; th <= threads; th++ {
		th := th
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			for j := 0; j < 5; j++ {
				k := fmt.Sprintf("k%d-", rr.Intn(nkeys))
				switch rr.Intn(3) { // some start together
				case 0:
				case 1:
					time.Sleep(time.Duration(rr.Intn(60)) * time.Millisecond)
				case 2: // so that it is right at the edge
					time.Sleep(time.Duration(rr.Intn(4)*10)*time.Millisecond + time.Duration(rr.Intn(2)))
				}
				if rr.Intn(6) == 0 {
					h.Add(vt.J{"k": "inv", "t": th, "key": k, "at": at()})
					c.Invalidate(context.Background(), k)
					h.Add(vt.J{"k": "invres", "t": th, "at": at()})
					continue
				}
				h.Add(vt.J{"k": "req", "t": th, "key": k, "at": at()})
				v, hm, err := c.Request(context.WithValue(context.Background(), ck{}, th), k)
				if err != nil && !errors.Is(err, errLoad) {
					vt.Violation("request-error", "not the loader's error: "+err.Error(), nil)
				}
				h.Add(vt.J{"k": "res", "t": th, "at": at(), "ret": vt.J{"hm": string(hm), "v": v, "err": err != nil}})
			}
			done <- true
		}()
	}
	for th := 0; th < threads; th++ {
		<-done
	}
	tr.Write(h)
}

// at most maxSize keys stay: asked again, the oldest ones are fetched again. Large and sequential.
func TestRequestRace(t *testing.T) {
	for i := 0; i < vt.Scale(15, 150); i++ {
		c := caches.NewRequestLRU(context.Background(), 4, func(c ctx.C, k int) (int, time.Duration, error) {
			if k%5 == 0 {
				return k, time.Microsecond, errLoad
			}
			return k, time.Duration(k-3) * 10 * time.Microsecond, nil
		})
		done := make(chan bool)
		for th := 0; th < 6; th++ {
			th := th
			go func() {
				for j := 0; j < 300; j++ {
					k := (j*7 + th*3) % 9
					if j%11 == 0 {
						c.Invalidate(context.Background(), k)
						continue
					}
					v, _, _ := c.Request(context.Background(), k)
					if v != k {
						vt.Violation("request-race", fmt.Sprintf("key %d has the value of key %d", k, v), nil)
					}
				}
				done <- true
			}()
		}
		for th := 0; th < 6; th++ {
			<-done
		}
	}
	vt.Done()
}
