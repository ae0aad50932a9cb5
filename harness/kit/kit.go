// Package kit is the uninstrumented part of the simulation harness: the
// workload context, the recorded history and the oracles' primitives. It is
// compiled without scheduling points, so everything here is atomic with
// respect to the simulated scheduler.
package kit

import (
	"context"
	"errors"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// RaceMode is set in the race build: oracles are off there, only the race
// detector judges the run.
var RaceMode bool

// Event is one entry of the recorded history.
type Event struct {
	Seq  uint64
	G    int
	T    int64
	Name string
	A, B int
}

// W is the context of one simulated run.
type W struct {
	// Unit is what user code that is slow takes.
	Unit    time.Duration
	Seed    uint64
	Prop    string
	rng     uint64
	replay  []uint32
	isRep   bool
	Choices []uint32
	Events  []Event
	Cover   map[string]int
	Faults  map[string]int
	fatal   bool
	Quiet   bool    // fault-free configuration
	traced  *Tracer // contexts of the user hold a recording span
}

func NewW(seed uint64, prop string) *W {
	unit := time.Millisecond
	if h := (seed * 0xd1342543de82ef95) >> 40; h%16 == 0 {
		unit = []time.Duration{time.Second, time.Minute, time.Hour, 30 * time.Hour}[h/16%4]
	}
	w := &W{Seed: seed, Prop: prop, Unit: unit, rng: seed*0x9e3779b97f4a7c15 + 0x1234567, Cover: map[string]int{}, Faults: map[string]int{}}
	if h := (seed * 0x9fb21c651e98df25) >> 40; h%12 == 0 {
		w.traced = &Tracer{W: w}
	}
	return w
}

// Root is the context a user starts from.
//
//go:norace
//go:noinline
func (w *W) Root() context.Context {
	if w.traced == nil {
		return context.Background()
	}
	w.Hit("traced-user")
	ctx, _ := w.traced.Root(context.Background(), "user")
	return ctx
}

// SetReplay makes the workload follow a recorded choice list.
func (w *W) SetReplay(c []uint32) {
	w.isRep = true
	w.replay = c
}

//go:norace
//go:noinline
func (w *W) next() uint64 {
	w.rng += 0x9e3779b97f4a7c15
	z := w.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Pick returns a workload choice in [0,n). Draw choices in the root before
// starting concurrent work, so that a workload is independent of the schedule.
//
//go:norace
//go:noinline
func (w *W) Pick(n int) int {
	var v uint32
	if w.isRep {
		i := len(w.Choices)
		if i < len(w.replay) {
			v = w.replay[i]
		}
	} else {
		v = uint32(w.next() >> 33)
		if n > 0 {
			v %= uint32(n)
		}
	}
	if n <= 1 {
		v = 0
	} else {
		v %= uint32(n)
	}
	w.Choices = append(w.Choices, v)
	return int(v)
}

// Range returns a choice in [lo,hi]; 0-choices give lo (shrinks towards lo).
//
//go:norace
//go:noinline
func (w *W) Range(lo, hi int) int { return lo + w.Pick(hi-lo+1) }

// Size is Range(lo, hi), except that about one in 300 runs draws a size up to
// big; shrinks towards lo.
//
//go:norace
//go:noinline
func (w *W) Size(lo, hi, big int) int {
	if w.Pick(300) == 299 {
		w.Hit("big-size")
		if w.Pick(8) == 7 {
			w.Hit("huge-size")
			return w.Range(big, 10*big)
		}
		return w.Range(hi, big)
	}
	return w.Range(lo, hi)
}

// Chance is true with probability num/den; shrinks towards false.
//
//go:norace
//go:noinline
func (w *W) Chance(num, den int) bool { return w.Pick(den) >= den-num }

// OneOf picks from vals; shrinks towards the first.
//
//go:norace
//go:noinline
func (w *W) OneOf(vals ...int) int { return vals[w.Pick(len(vals))] }

// Do runs f atomically with respect to the scheduler. It is skipped in the
// race build (f is oracle bookkeeping, not user behaviour).
//
//go:norace
//go:noinline
func (w *W) Do(f func()) {
	if RaceMode {
		return
	}
	runtime.SimAtomic(1)
	f()
	runtime.SimAtomic(-1)
}

// Exit ends the goroutine of a user's function if on is set, as the Fatal of a
// test does.
func (w *W) Exit(on bool) {
	if on {
		w.Fault("goexit")
		runtime.Goexit()
	}
}

// IsErr is errors.Is without scheduling points: the oracles ask it for very
// many errors.
//
//go:norace
//go:noinline
func IsErr(w *W, err, target error) bool {
	if RaceMode {
		return errors.Is(err, target)
	}
	runtime.SimAtomic(1)
	ok := errors.Is(err, target)
	runtime.SimAtomic(-1)
	return ok
}

// Ev records a history event.
//
//go:norace
//go:noinline
func (w *W) Ev(name string, a, b int) uint64 {
	s := runtime.SimSeq()
	if RaceMode {
		return s
	}
	if len(w.Events) < 4000 {
		w.Events = append(w.Events, Event{Seq: s, G: runtime.SimGoID(), T: runtime.SimNow(), Name: name, A: a, B: b})
	}
	h := uint64(a)*31 + uint64(b)
	for i := 0; i < len(name); i++ {
		h = h*131 + uint64(name[i])
	}
	runtime.SimMixHash(h)
	return s
}

// Hit counts a reach probe.
//
//go:norace
//go:noinline
func (w *W) Hit(name string) {
	if !RaceMode {
		w.Cover[name]++
	}
}

// Fault counts an injected fault that actually fired.
//
//go:norace
//go:noinline
func (w *W) Fault(name string) {
	if !RaceMode {
		w.Faults[name]++
	}
}

// Fail reports an oracle violation. class is the stable name of the broken
// rule; detail the specifics.
//
//go:norace
//go:noinline
func (w *W) Fail(class string, detail ...any) {
	if RaceMode {
		return
	}
	var b strings.Builder
	b.WriteString(class)
	b.WriteString(": ")
	for i, d := range detail {
		if i > 0 {
			b.WriteString(" ")
		}
		switch v := d.(type) {
		case string:
			b.WriteString(v)
		case int:
			b.WriteString(strconv.Itoa(v))
		case int64:
			b.WriteString(strconv.FormatInt(v, 10))
		case uint64:
			b.WriteString(strconv.FormatUint(v, 10))
		case bool:
			b.WriteString(strconv.FormatBool(v))
		case []int:
			b.WriteString("[")
			for j, x := range v {
				if j > 0 {
					b.WriteString(" ")
				}
				b.WriteString(strconv.Itoa(x))
			}
			b.WriteString("]")
		case error:
			if v == nil {
				b.WriteString("<nil>")
			} else {
				b.WriteString(strconv.Quote(v.Error()))
			}
		case nil:
			b.WriteString("<nil>")
		default:
			b.WriteString("?")
		}
	}
	runtime.SimFail(b.String())
}

// Idle waits until every other goroutine is blocked (simulated quiescence).
func (w *W) Idle() { runtime.SimWaitIdle() }

// Drain waits until every other goroutine is blocked for good: nothing can
// run and no timer is pending.
func (w *W) Drain() { runtime.SimDrain() }

// Now is the simulated time in ns.
//
//go:norace
//go:noinline
func (w *W) Now() int64 { return runtime.SimNow() }

// Point is a scheduling point in user code.
func (w *W) Point() { runtime.SimPoint() }

// Spin runs n scheduling points: user code that takes a while.
func (w *W) Spin(n int) {
	for i := 0; i < n; i++ {
		runtime.SimPoint()
	}
}

// ---- set of counters ------------------------------------------------------

// Counts is an atomic array of counters with a live gauge.
type Counts struct {
	N         []int
	Live, Max int
	Total     int
}

func NewCounts(n int) *Counts { return &Counts{N: make([]int, n)} }

//go:norace
//go:noinline
func (c *Counts) Enter(i int) int {
	if i >= 0 && i < len(c.N) {
		c.N[i]++
	}
	c.Total++
	c.Live++
	if c.Live > c.Max {
		c.Max = c.Live
	}
	if i >= 0 && i < len(c.N) {
		return c.N[i]
	}
	return 1
}

//go:norace
//go:noinline
func (c *Counts) Leave() { c.Live-- }

//go:norace
//go:noinline
func (c *Counts) Get(i int) int { return c.N[i] }

//go:norace
//go:noinline
func (c *Counts) Cur() int { return c.Live }

// Cell is an oracle variable readable from instrumented code.
type Cell struct{ v int }

//go:norace
//go:noinline
func (c *Cell) Set(v int) { c.v = v }

//go:norace
//go:noinline
func (c *Cell) Get() int { return c.v }

//go:norace
//go:noinline
func (c *Cell) Add(d int) int { c.v += d; return c.v }
