package usync

import (
	"fmt"
	"math/rand"
	"runtime"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/utils/sync"
	"github.com/Aize-Public/forego/verifshim/vyield"
)

type locker interface {
	Lock()
	Unlock()
}

func TestMutexConc(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(800, 8000); i++ {
		seed := r.Int63()
		synctest.Test(t, func(t *testing.T) { mutexConc(seed, i%2 == 0, i%40 == 0, tr) })
	}
	tr.Close()
	vt.Done()
}

func mutexConc(seed int64, strict, metrics bool, tr *vt.Traces) {
	r := rand.New(rand.NewSource(seed))
	slack := 0
	if strict {
		vyield.Set(vyield.Off, seed, 0)
	} else {
		vyield.Set(vyield.Bubble, seed, 0)
		slack = 500000
	}
	defer vyield.Set(vyield.Off, 0, 0)
	start := time.Now()
	at := func() int { return int(time.Since(start)) }
	h := &vt.Hist{Init: vt.J{"slack": slack}}
	m := &sync.Mutex{}
	var l locker = m
	if metrics {
		l = &sync.MetricsMutex{}
	}
	in := 0
	// one attempt, and the use of the lock
	attempt := func(th int, rr *rand.Rand, d time.Duration, hold time.Duration) {
		got := true
		limit := -1
		if d >= -1 && !metrics {
			limit = at() + int(max(d, 0))
		}
		h.Add(vt.J{"k": "try", "t": th, "limit": limit, "at": at()})
		if limit == -1 {
			l.Lock()
		} else {
			got = m.TryLock(d)
		}
		if !got {
			h.Add(vt.J{"k": "fail", "t": th, "at": at()})
			return
		}
		h.Add(vt.J{"k": "got", "t": th, "at": at()})
		in++
		if in != 1 {
			vt.Violation("mutex-exclusion", "the lock is held twice", h.Ev)
		}
		if hold > 0 {
			time.Sleep(hold)
		}
		in--
		h.Add(vt.J{"k": "unlock", "t": th, "at": at()})
		l.Unlock()
		h.Add(vt.J{"k": "unlocked", "t": th, "at": at()})
	}
	done := make(chan bool)
	threads := 2 + r.Intn(3)
	for th := 1; th <= threads; th++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			for j := 0; j < 4; j++ {
				time.Sleep(time.Duration(rr.Intn(4)*rr.Intn(3)) * time.Millisecond)
				var d time.Duration
				switch rr.Intn(6) {
				case 0, 1:
					d = -2 // plain
				case 2:
					d = time.Duration(rr.Intn(2) - 1)
				default:
					d = time.Duration(1+rr.Intn(6)) * time.Millisecond
				}
				attempt(th, rr, d, time.Duration(rr.Intn(5))*time.Millisecond)
			}
			done <- true
		}()
	}
	for th := 0; th < threads; th++ {
		<-done
	}
	time.Sleep(time.Second)
	attempt(threads+1, r, -2, 0) // it is free
	attempt(threads+1, r, time.Millisecond, 0)
	time.Sleep(time.Second)
	tr.Write(h)
}

// in real time, on the real sync.Mutex
func TestMutexRace(t *testing.T) {
	m := &sync.Mutex{}
	mm := &sync.MetricsMutex{}
	for i := 0; i < vt.Scale(10, 100); i++ {
		n, n2, ok := 0, 0, make(chan int)
		before := runtime.NumGoroutine()
		for th := 0; th < 8; th++ {
			r := rand.New(rand.NewSource(int64(th) + vt.Seed()*1000))
			go func() {
				cnt := 0
				for j := 0; j < 200; j++ {
					if j%40 == 0 {
						mm.Lock()
						n2++
						mm.Unlock()
					}
					if r.Intn(3) == 0 {
						m.Lock()
					} else if !m.TryLock(time.Duration(r.Intn(40)) * time.Microsecond) {
						continue
					}
					n++
					cnt++
					if r.Intn(20) == 0 {
						time.Sleep(20 * time.Microsecond)
					}
					m.Unlock()
				}
				ok <- cnt
			}()
		}
		want := 0
		for th := 0; th < 8; th++ {
			want += <-ok
		}
		stop := vt.Watchdog(20*time.Second, "mutex-lost", nil)
		m.Lock()
		if n != want {
			vt.Violation("mutex-exclusion", fmt.Sprintf("%d critical sections, counted %d", want, n), nil)
		}
		m.Unlock()
		stop()
		for k := 0; runtime.NumGoroutine() > before; k++ {
			time.Sleep(time.Millisecond)
			if k > 10000 {
				vt.Violation("mutex-leak", fmt.Sprintf("%d goroutines are left behind", runtime.NumGoroutine()-before), nil)
				break
			}
		}
	}
	vt.Done()
}
