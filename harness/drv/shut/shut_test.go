package shut

import (
	"context"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"os/signal"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/shutdown"
	"github.com/Aize-Public/forego/verifshim/vyield"
)

// the shutdown is global to a process: each behaviour is executed in its own one
func TestMain(m *testing.M) {
	switch vt.Child() {
	case "replay":
		replayChild()
	case "conc":
		concChild()
	case "echo":
		echoChild()
	default:
		os.Exit(m.Run())
	}
	os.Exit(0)
}

const patience = vt.Patience

func newCtx() (ctx.C, ctx.CancelFunc) {
	c, cf := context.WithCancelCause(context.Background())
	return log.WithSlogLogger(c, slog.New(slowHandler{slog.NewTextHandler(io.Discard, nil)})), ctx.CancelFunc(cf)
}

// a logger which takes as long as the gate is held
type slowHandler struct{ slog.Handler }

var gate sync.RWMutex
var logging atomic.Int32

func (this slowHandler) Handle(c context.Context, r slog.Record) error {
	logging.Add(1)
	gate.RLock()
	defer gate.RUnlock()
	return this.Handler.Handle(c, r)
}

func (this slowHandler) WithAttrs(a []slog.Attr) slog.Handler {
	return slowHandler{this.Handler.WithAttrs(a)}
}
func (this slowHandler) WithGroup(n string) slog.Handler {
	return slowHandler{this.Handler.WithGroup(n)}
}

// blocked waits until the goroutine running the named function is blocked (or has ended)
func blocked(name string) {
	buf := make([]byte, 1<<20)
	for t0 := time.Now(); time.Since(t0) < time.Second; {
		n := runtime.Stack(buf, true)
		ok := true
		for _, g := range strings.Split(string(buf[:n]), "\n\n") {
			if strings.Contains(g, name+"(") && !strings.Contains(g, "created by "+name) {
				head, _, _ := strings.Cut(g, "\n")
				// blocked in the shutdown package, not in something else
				ok = strings.Contains(head, "[chan receive") || strings.Contains(head, "[select") || strings.Contains(head, "[sync.")
			}
		}
		if ok {
			return
		}
		time.Sleep(200 * time.Microsecond)
	}
}

//go:noinline
func hawCall(i int, f func(int, shutdown.ReleaseFn)) { f(i, shutdown.HoldAndWait()) }

//go:noinline
func wfsCall(c ctx.C, cf ctx.CancelFunc, f func()) { shutdown.WaitForSignal(c, cf); f() }

// ------------------------------------------------------------------ replay of the specification

func replayChild() {
	in, out := vt.ChildIO()
	witness := make(chan os.Signal, 100) // never the default action
	signal.Notify(witness, syscall.SIGINT, syscall.SIGTERM, syscall.SIGQUIT)
	kinds := map[string]syscall.Signal{"int": syscall.SIGINT, "term": syscall.SIGTERM, "quit": syscall.SIGQUIT}
	c, cf := newCtx()
	early := shutdown.Started()
	var m sync.Mutex
	rel := map[string]shutdown.ReleaseFn{}
	hawRet := map[int]bool{}
	done := map[int]<-chan struct{}{}
	wfs := "off"
	var nd, nw int
	closed := func(ch <-chan struct{}) bool {
		select {
		case <-ch:
			return true
		default:
			return false
		}
	}
	obs := func() any {
		m.Lock()
		defer m.Unlock()
		if closed(early) != closed(shutdown.Started()) {
			return "an old and a new observer of the start disagree"
		}
		ds, hs := []bool{}, []bool{}
		for i := 1; i <= nd; i++ {
			ds = append(ds, done[i] != nil && closed(done[i]))
		}
		for i := 1; i <= nw; i++ {
			hs = append(hs, hawRet[i])
		}
		return vt.J{"exit": false, "started": closed(early), "cancelled": c.Err() != nil, "wfs": wfs, "done": ds, "haw": hs}
	}
	for {
		var a vt.Act
		if in.Decode(&a) != nil {
			return
		}
		want := a.Map("obs")
		nd, nw = len(want.List("done")), len(want.List("haw"))
		i := a.Int("i")
		switch a.Op() {
		case "hold":
			rel[fmt.Sprint("h", i)] = shutdown.Hold()
		case "release":
			rel[fmt.Sprint("h", i)].Release()
		case "haw":
			m.Lock()
			hawRet[i] = false
			m.Unlock()
			go hawCall(i, func(i int, f shutdown.ReleaseFn) {
				m.Lock()
				defer m.Unlock()
				rel[fmt.Sprint("w", i)] = f
				hawRet[i] = true
			})
			if !a.Bool("begun") {
				blocked("shut.hawCall")
			}
		case "relhaw":
			m.Lock()
			f := rel[fmt.Sprint("w", i)]
			m.Unlock()
			f.Release()
		case "done":
			ch := shutdown.Done()
			m.Lock()
			done[i] = ch
			m.Unlock()
		case "begin":
			if i%2 == 0 {
				shutdown.Begin()
			} else {
				go shutdown.Begin()
			}
		case "wait":
			m.Lock()
			wfs = "on"
			m.Unlock()
			go wfsCall(c, cf, func() {
				m.Lock()
				defer m.Unlock()
				wfs = "ret"
			})
			if a.Bool("held") {
				blocked("shut.wfsCall")
			}
		case "sig":
			if a.Bool("churn") { // other holds come and go
				for n := 0; n < 2; n++ {
					go func() {
						for k := 0; k < 200; k++ {
							shutdown.Hold().Release()
						}
					}()
				}
			}
			syscall.Kill(os.Getpid(), kinds[a.Str("kind")])
			<-witness
		case "burst": // more signals before the first one is handled
			gate.Lock()
			n := logging.Load()
			for i, k := range a.List("kinds") {
				syscall.Kill(os.Getpid(), kinds[k.(string)])
				<-witness
				for t0 := time.Now(); i == 0 && logging.Load() == n && time.Since(t0) < 20*time.Millisecond; {
					time.Sleep(100 * time.Microsecond)
				}
				time.Sleep(time.Millisecond)
			}
			gate.Unlock()
		}
		out.Encode(vt.J{"ret": "ok", "obs": vt.Await(want, obs, 50*time.Microsecond, 300*time.Microsecond)})
	}
}

func TestShutReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Replay("shutdown", vt.Scale(200, 3000), 25, func(vt.Act) vt.Obj { return vt.StartProc("replay") })
	vt.Done()
}

// ------------------------------------------------------------------ concurrent histories

func do(h *vt.Hist, t int, op vt.J, f func()) {
	cl := h.Inv(t, op)
	f()
	cl.Res("ok")
}

// phases of concurrent holds and waits; at the end of each nothing is held and every wait must have returned
func concChild() {
	seed := int64(0)
	fmt.Sscan(os.Getenv("SHUT_SEED"), &seed)
	r := rand.New(rand.NewSource(seed))
	_, out := vt.ChildIO()
	if seed%4 != 0 {
		vyield.Set(vyield.Real, seed, []int{0, 30, 60, 90}[r.Intn(4)])
	}
	c, cf := newCtx()
	h := &vt.Hist{}
	stuck := ""
	thread := 0
	ids := 0
	begunAt := r.Intn(4)
	if r.Intn(2) == 0 {
		begunAt = 99
	}
	for phase := 0; phase < 3; phase++ {
		var holders, waiters sync.WaitGroup
		gate := make(chan bool)
		spawn := func(wg *sync.WaitGroup, f func(t int, r *rand.Rand)) {
			thread++
			t := thread
			r := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				f(t, r)
			}()
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			ids += 10
			base := ids
			spawn(&holders, func(t int, r *rand.Rand) {
				for n := 0; n < 1+r.Intn(3); n++ {
					id := base + n
					var rel shutdown.ReleaseFn
					do(h, t, vt.J{"op": "hold", "id": id}, func() {
						rel = shutdown.Hold()
					})
					if r.Intn(2) == 0 {
						runtime.Gosched()
					}
					// sometimes two at the same time, or again
					if r.Intn(4) == 0 {
						t2 := t + 1000
						var wg sync.WaitGroup
						wg.Add(1)
						go func() {
							defer wg.Done()
							do(h, t2, vt.J{"op": "release", "id": id}, func() {
								rel.Release()
							})
						}()
						do(h, t, vt.J{"op": "release", "id": id}, func() {
							rel.Release()
						})
						wg.Wait()
						continue
					}
					do(h, t, vt.J{"op": "release", "id": id}, func() {
						rel()
					})
				}
			})
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			spawn(&waiters, func(t int, r *rand.Rand) {
				for n := 0; n < 2; n++ {
					do(h, t, vt.J{"op": "await"}, func() {
						if r.Intn(3) == 0 {
							shutdown.WaitForSignal(c, cf)
						} else {
							<-shutdown.Done()
						}
					})
				}
			})
		}
		if phase == begunAt {
			spawn(&holders, func(int, *rand.Rand) { shutdown.Begin() })
		}
		close(gate)
		holders.Wait()
		ok := make(chan bool)
		go func() { waiters.Wait(); close(ok) }()
		select {
		case <-ok:
		case <-time.After(patience):
			stuck = fmt.Sprintf("phase %d: nothing is held, and a wait does not return", phase)
			out.Encode(vt.J{"stuck": stuck, "ev": h.Ev})
			return
		}
	}
	vyield.Set(vyield.Off, 0, 0)
	out.Encode(vt.J{"stuck": stuck, "ev": h.Ev})
}

func TestShutConc(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	each(vt.Scale(1500, 20000), r, 12, func(seed int64) {
		ch := vt.StartProc("conc", fmt.Sprint("SHUT_SEED=", seed))
		defer ch.Close()
		var res struct {
			Stuck string
			Ev    []vt.J
		}
		if err := ch.Decode(&res, 3*patience); err != nil {
			ch.Close()
			vt.Violation("shutdown-crash", "the process of a concurrent history crashed: "+ch.Stderr(), seed)
			return
		}
		if res.Stuck != "" {
			vt.Violation("shutdown-stuck", res.Stuck, res.Ev)
			return
		}
		tr.Write(&vt.Hist{Ev: res.Ev})
	})
	tr.Close()
	vt.Done()
}

func each(n int, r *rand.Rand, par int, f func(seed int64)) {
	var wg sync.WaitGroup
	jobs := make(chan int64)
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range jobs {
				f(s)
			}
		}()
	}
	for i := 0; i < n; i++ {
		jobs <- r.Int63()
	}
	close(jobs)
	wg.Wait()
}

// ------------------------------------------------------------------ the start and its echo, in real time

func echoChild() {
	seed := int64(0)
	fmt.Sscan(os.Getenv("SHUT_SEED"), &seed)
	r := rand.New(rand.NewSource(seed))
	_, out := vt.ChildIO()
	if seed%2 != 0 {
		vyield.Set(vyield.Real, seed, 30)
	}
	t0 := time.Now()
	var m sync.Mutex
	ev := []vt.J{}
	rec := func(e vt.J) {
		m.Lock()
		defer m.Unlock()
		e["at"] = int(time.Since(t0) / time.Microsecond)
		ev = append(ev, e)
	}
	var all sync.WaitGroup
	run := func(delay time.Duration, f func()) {
		all.Add(1)
		go func() {
			defer all.Done()
			time.Sleep(delay)
			f()
		}()
	}
	ms := func(n int) time.Duration { return time.Duration(r.Intn(n*1000)) * time.Microsecond }
	// start requests: some at the same time, some later
	first := ms(40)
	begin := func(d time.Duration) {
		run(d, func() {
			rec(vt.J{"k": "begin"})
			shutdown.Begin()
			rec(vt.J{"k": "begun"})
		})
	}
	begin(first)
	for n := r.Intn(4); n > 0; n-- {
		begin(first + []time.Duration{0, ms(5), ms(4000), 4500 * time.Millisecond, 5500 * time.Millisecond}[r.Intn(5)])
	}
	end := first + 10500*time.Millisecond
	now := func() int { return int(time.Since(t0) / time.Microsecond) }
	poll := func(k string, ch <-chan struct{}) {
		from := now() // if it was not there when looked at, it was not there before
		select {
		case <-ch:
			rec(vt.J{"k": "see", "what": k})
		default:
			rec(vt.J{"k": "miss", "what": k, "from": from})
		}
	}
	chans := map[string]func() <-chan struct{}{"started": shutdown.Started, "echo": shutdown.Started5Sec}
	for k, get := range chans {
		k, get := k, get
		old := get()
		for n := 0; n < 3; n++ { // observers which wait
			run([]time.Duration{0, ms(50), ms(6000)}[n], func() {
				ch := get()
				select {
				case <-ch:
					rec(vt.J{"k": "see", "what": k})
				case <-time.After(end):
					rec(vt.J{"k": "miss", "what": k, "from": now()})
				}
			})
		}
		for n := 0; n < 8; n++ { // and which look
			d := []time.Duration{ms(60), first + ms(2), ms(5200), first + 4990*time.Millisecond, first + 4999*time.Millisecond, first + 5000*time.Millisecond, first + ms(10000), end}[n]
			run(d, func() { poll(k, old); poll(k, get()) })
		}
	}
	for n := 0; n < 2; n++ {
		run([]time.Duration{ms(40), first + ms(6000)}[n], func() {
			rec(vt.J{"k": "haw"})
			rel := shutdown.HoldAndWait()
			rec(vt.J{"k": "hawret"})
			rel()
		})
	}
	ok := make(chan bool)
	go func() { all.Wait(); close(ok) }()
	select {
	case <-ok:
	case <-time.After(2 * patience):
		rec(vt.J{"k": "stuck"})
	}
	m.Lock()
	out.Encode(vt.J{"ev": ev})
	os.Exit(0)
}

func TestShutEcho(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	each(vt.Scale(200, 3000), r, 200, func(seed int64) {
		ch := vt.StartProc("echo", fmt.Sprint("SHUT_SEED=", seed))
		defer ch.Close()
		var res struct{ Ev []vt.J }
		if err := ch.Decode(&res, 5*patience); err != nil {
			ch.Close()
			vt.Violation("shutdown-crash", "the process of a timed history crashed: "+ch.Stderr(), seed)
			return
		}
		tr.Write(&vt.Hist{Ev: res.Ev})
	})
	tr.Close()
	vt.Done()
}
