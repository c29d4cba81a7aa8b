// Package vyield is added to the module under test by a build overlay (never committed there).
// Y is called between statements of instrumented packages: it is the point where the
// scheduler may be made to switch, so that a driver explores interleavings at the grain of
// the statements, whatever the code looks like.
package vyield

import (
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

const (
	Off    = 0
	Bubble = 1 // inside a synctest bubble: sleep for a random virtual time
	Real   = 2 // real time: yield the processor or sleep shortly, at random
)

var (
	mode  atomic.Int32
	m     sync.Mutex
	rng   = rand.New(rand.NewSource(1))
	skip  = 0 // percent of the yield points which do nothing
	Count atomic.Int64
)

// Set selects the mode; skipPct is the percentage of yield points that are skipped
func Set(md int, seed int64, skipPct int) {
	m.Lock()
	rng = rand.New(rand.NewSource(seed))
	skip = skipPct
	m.Unlock()
	mode.Store(int32(md))
}

// Y is a yield point
func Y() {
	md := mode.Load()
	if md == Off {
		return
	}
	m.Lock()
	a := rng.Intn(100)
	b := rng.Intn(1000)
	s := skip
	m.Unlock()
	if a < s {
		return
	}
	Count.Add(1)
	if md == Bubble {
		if b%16 == 0 { // now and then long enough for the others to overtake
			time.Sleep(time.Duration(1 + b*40))
		} else {
			time.Sleep(time.Duration(1 + b))
		}
		return
	}
	switch {
	case b < 850:
		runtime.Gosched()
	default:
		time.Sleep(time.Duration(b-850) * time.Microsecond / 2)
	}
}
