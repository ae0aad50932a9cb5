// Deterministic simulation scheduler for the Go runtime (overlay file, added
// to package runtime at build time by rt/patch.py; it is never part of /repo).
//
// While a simulated run is active, every goroutine of the run is scheduled by
// this file: it owns the run queue, the clock, the timers, the random bits
// used by select / map iteration / sync.Pool, and the decision of who runs
// next at every scheduling point. One seed is one execution.

package runtime

import (
	"internal/runtime/atomic"
	"unsafe"
)

// Kinds of scheduling point.
const (
	simKChan   = 0 // channel send/receive/close/select
	simKLock   = 1 // Mutex/RWMutex/WaitGroup/Once/Cond/Map/Pool
	simKAtomic = 2 // sync/atomic
	simKSpawn  = 3 // go statement
	simKMem    = 4 // plain memory access
	simKFunc   = 5 // function entry/exit
	simKYield  = 6 // explicit yield (Gosched / SimYield)
	simKBlock  = 7 // the running goroutine blocked or exited
	simNKinds  = 8
)

// Decision classes.
const (
	simCSwitch = 0 // at a point: switch to goroutine val
	simCBlock  = 1 // after a block: run goroutine val
	simCJump   = 2 // at a point: jump the clock to the next timer
	simCEnv    = 3 // environment choice (select order, pool, map order)
)

// Run outcome.
const (
	SimOK         = 0
	SimFailed     = 1 // SimFail was called (oracle violation)
	SimDeadlock   = 2 // nothing runnable, no timers, root not finished
	SimNoProgress = 3 // step limit reached (also after the fair phase)
	SimPanic      = 4 // uncaught panic in a simulated goroutine
	SimExit       = 5 // os.Exit was called
)

// Strategies.
const (
	SimStratSerial = 0 // run to block, lowest id first
	SimStratRandom = 1 // random walk with per-kind preemption probabilities
	SimStratPCT    = 2 // priority based with a few change points
	SimStratReplay = 3 // follow a recorded decision list, default otherwise
	SimStratRR     = 4 // round robin at every sync point
)

// SimDec is one recorded non-default decision.
type SimDec struct {
	G     uint32 // goroutine at the decision
	N     uint32 // its local counter
	Class uint8
	Kind  uint8
	Val   uint32
	PC    uint64
}

type SimConfig struct {
	Seed      uint64
	Strategy  int
	P         [8]uint32 // preemption probability per kind, in 1/65536
	PJump     uint32    // clock jump probability at sync points, 1/65536
	PStall    uint32    // stall probability at sync points, 1/65536
	StallLen  uint64    // steps a stalled goroutine sleeps
	PEnv      uint32    // probability of a non-default environment choice
	PDrop     uint32    // probability that a pool Get misses although it has items
	PSet      uint32    // PCT: priority change probability per point
	StepCost  int64     // simulated ns per scheduling point
	NumCPU    int       // what runtime.NumCPU reports
	SoftSteps uint64    // after this many points: fair round robin
	MaxSteps  uint64    // after this many points: no progress
	Replay    []SimDec
}

type SimResult struct {
	Status   int
	Msg      string
	Steps    uint64
	Switches uint64
	Preempts uint64
	Kinds    [8]uint64
	Jumps    uint64
	Stalls   uint64
	Holds    uint64
	Drops    uint64
	EnvNon0  uint64
	Idle     uint64 // times the clock advanced because everything was blocked
	Hash     uint64
	Now      int64 // simulated ns elapsed
	Live     int   // goroutines of the run still alive at its end
	MaxG     int
	NDec     int
	Overflow bool
	Fair     bool
}

const (
	simMaxG   = 1 << 16
	simMaxDec = 1 << 17
	simTabN   = 1 << 18
	simEpoch0 = int64(1) << 50 // simulated monotonic clock at run start
	simWall0  = int64(1700000000) * 1000000000
)

type simState struct {
	on    bool
	epoch uint32
	cfg   SimConfig
	res   SimResult

	list [simMaxG]guintptr // runnable goroutines ordered by simid
	n    int
	next guintptr

	nextid   uint32
	live     int
	rng      uint64
	rnd      uint64
	now      int64
	seq      uint64
	cur      guintptr
	curid    uint32
	curpts   uint32
	dirty    bool
	lowprio  uint32
	rootdone bool
	idleW    guintptr
	held     [256]guintptr // runnable goroutines the workload keeps from running
	nheld    int
	holdlo   uint32
	holdhi   uint32
	drain    bool
	ctl      guintptr
	fair     bool
	rrcount  uint32
	panicked string

	dec  [simMaxDec]SimDec
	ndec int

	tabk [simTabN]uint64
	tabv [simTabN]uint32
}

var sim simState

// ---- random numbers -------------------------------------------------------

//go:nosplit
func simRand() uint64 {
	sim.rng += 0x9e3779b97f4a7c15
	z := sim.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRandn(n int) int {
	return int((simRand() >> 33) % uint64(n))
}

//go:nosplit
func simHit(p uint32) bool {
	return p != 0 && uint32(simRand()>>40)&0xffff < p
}

// simRuntimeRand replaces runtime.rand for simulated goroutines (map seeds,
// math/rand globals, maphash).
//
//go:nosplit
func simRuntimeRand() uint64 {
	sim.rnd += 0x9e3779b97f4a7c15
	z := sim.rnd
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simMix(v uint64) {
	h := sim.res.Hash
	h ^= v
	h *= 0x9fb21c651e98df25
	h ^= h >> 32
	sim.res.Hash = h
}

// ---- run list -------------------------------------------------------------

//go:nosplit
func simMine(gp *g) bool {
	return gp.simid != 0 && gp.simepoch == sim.epoch
}

// simPut makes gp runnable. Goroutines left over from an earlier run are
// dropped: they belong to an execution that is over.
func simPut(gp *g) {
	if gp.simepoch != sim.epoch {
		return
	}
	if gp.simid > sim.holdlo && gp.simid <= sim.holdhi && sim.nheld < len(sim.held) {
		sim.held[sim.nheld].set(gp)
		sim.nheld++
		return
	}
	if sim.n >= simMaxG {
		throw("sim: too many runnable goroutines")
	}
	i := sim.n
	for i > 0 && sim.list[i-1].ptr().simid > gp.simid {
		sim.list[i] = sim.list[i-1]
		i--
	}
	sim.list[i].set(gp)
	sim.n++
	sim.dirty = true
}

func simTake(i int) *g {
	gp := sim.list[i].ptr()
	for j := i + 1; j < sim.n; j++ {
		sim.list[j-1] = sim.list[j]
	}
	sim.n--
	sim.list[sim.n] = 0
	return gp
}

// simRunq is the hook in runqput/globrunqput.
//
//go:nosplit
func simRunq(gp *g) bool {
	return gp.simid != 0 && (sim.on || gp.simepoch != 0)
}

func simEnqueue(gp *g) {
	if sim.on {
		simPut(gp)
	}
	// Outside a run: a leftover goroutine was readied; it never runs again.
}

// simNewG is the hook in newproc1.
func simNewG(newg *g) {
	newg.simid = 0
	newg.simepoch = 0
	newg.simatomic = 0
	newg.simpts = 0
	newg.simenv = 0
	newg.simstall = 0
	if !sim.on {
		return
	}
	sim.nextid++
	newg.simid = sim.nextid
	newg.simepoch = sim.epoch
	newg.simprio = uint32(simRand()>>34) | 1<<20
	sim.live++
	if sim.live > sim.res.MaxG {
		sim.res.MaxG = sim.live
	}
}

// simGone is the hook in gdestroy.
func simGone(gp *g) {
	if gp.simid != 0 && gp.simepoch == sim.epoch {
		sim.live--
		sim.curpts = gp.simpts + 1
		sim.cur = 0
	}
	gp.simid = 0
	gp.simepoch = 0
}

// ---- decisions ------------------------------------------------------------

//go:nosplit
func simKey(gid, n uint32, class uint8) uint64 {
	return uint64(class)<<60 | uint64(gid&0xfffffff)<<32 | uint64(n) | 1<<63
}

func simTabSet(k uint64, v uint32) {
	h := (k * 0x9e3779b97f4a7c15) >> 46 & (simTabN - 1)
	for sim.tabk[h] != 0 && sim.tabk[h] != k {
		h = (h + 1) & (simTabN - 1)
	}
	sim.tabk[h] = k
	sim.tabv[h] = v
}

func simTabGet(k uint64) (uint32, bool) {
	h := (k * 0x9e3779b97f4a7c15) >> 46 & (simTabN - 1)
	for sim.tabk[h] != 0 {
		if sim.tabk[h] == k {
			return sim.tabv[h], true
		}
		h = (h + 1) & (simTabN - 1)
	}
	return 0, false
}

func simLog(gid, n uint32, class, kind uint8, val uint32, pc uintptr) {
	if sim.ndec >= simMaxDec {
		sim.res.Overflow = true
		return
	}
	sim.dec[sim.ndec] = SimDec{G: gid, N: n, Class: class, Kind: kind, Val: val, PC: uint64(pc)}
	sim.ndec++
}

// simPickAt decides at a scheduling point of gp (still runnable) with sim.n>0
// other runnable goroutines. It returns the index of the goroutine to switch
// to, or -1 to continue.
func simPickAt(gp *g, kind uint8) int {
	if sim.fair {
		if kind == simKMem || kind == simKFunc {
			return -1
		}
		return simAfter(gp.simid)
	}
	switch sim.cfg.Strategy {
	case SimStratReplay:
		v, ok := simTabGet(simKey(gp.simid, gp.simpts, simCSwitch))
		if !ok {
			return -1
		}
		return simIndex(v)
	case SimStratRandom:
		if gp.simstall > sim.res.Steps {
			return simNonStalled()
		}
		if !simHit(sim.cfg.P[kind]) {
			return -1
		}
		return simNonStalled()
	case SimStratPCT:
		if kind != simKYield && simHit(sim.cfg.PSet) {
			sim.lowprio--
			gp.simprio = sim.lowprio
			sim.dirty = true
		}
		if !sim.dirty {
			return -1
		}
		sim.dirty = false
		b := simBest()
		if sim.list[b].ptr().simprio > gp.simprio {
			return b
		}
		return -1
	case SimStratRR:
		if kind == simKMem || kind == simKFunc {
			return -1
		}
		return simAfter(gp.simid)
	}
	return -1
}

func simPickBlocked() int {
	n := sim.n
	if sim.fair {
		return simAfter(sim.curid)
	}
	switch sim.cfg.Strategy {
	case SimStratReplay:
		v, ok := simTabGet(simKey(sim.curid, sim.curpts, simCBlock))
		if !ok {
			return 0
		}
		i := simIndex(v)
		if i < 0 {
			i = 0
		}
		return i
	case SimStratRandom:
		if n == 1 {
			return 0
		}
		return simNonStalled()
	case SimStratPCT:
		sim.dirty = false
		return simBest()
	case SimStratRR:
		return simAfter(sim.curid)
	}
	return 0
}

// simNonStalled picks a random runnable goroutine, preferring ones that are
// not stalled by fault injection.
func simNonStalled() int {
	i := simRandn(sim.n)
	for k := 0; k < sim.n; k++ {
		j := (i + k) % sim.n
		if sim.list[j].ptr().simstall <= sim.res.Steps {
			return j
		}
	}
	return i
}

func simBest() int {
	b := 0
	for i := 1; i < sim.n; i++ {
		if sim.list[i].ptr().simprio > sim.list[b].ptr().simprio {
			b = i
		}
	}
	return b
}

// simAfter returns the index of the first runnable goroutine with id > id,
// wrapping around.
func simAfter(id uint32) int {
	for i := 0; i < sim.n; i++ {
		if sim.list[i].ptr().simid > id {
			return i
		}
	}
	return 0
}

func simIndex(id uint32) int {
	for i := 0; i < sim.n; i++ {
		if sim.list[i].ptr().simid == id {
			return i
		}
	}
	return -1
}

// ---- scheduling points ----------------------------------------------------

// simPoint is the hook at every synchronisation operation.
func simPoint(kind uint8, pc uintptr) {
	if sim.on {
		simPoint1(kind, pc)
	}
}

func simCan(gp *g) bool {
	mp := gp.m
	return gp.simepoch == sim.epoch && gp.simid != 0 && gp.simatomic == 0 && gp != mp.g0 && gp != mp.gsignal &&
		mp.curg == gp && mp.locks == 0 && mp.mallocing == 0 && mp.preemptoff == "" && mp.throwing == 0 && gp.m.dying == 0
}

func simPoint1(kind uint8, pc uintptr) {
	gp := getg()
	if !simCan(gp) {
		return
	}
	if (kind == simKMem || kind == simKFunc) && sim.cfg.P[kind] == 0 && sim.cfg.Strategy != SimStratReplay {
		// Memory points are off in this run; keep the local counter moving so
		// that a replay sees the same numbering.
		gp.simpts++
		sim.res.Kinds[kind]++
		sim.res.Steps++
		if sim.res.Steps > sim.cfg.SoftSteps {
			simLimits(gp)
		}
		return
	}
	gp.simpts++
	sim.res.Kinds[kind]++
	sim.res.Steps++
	if sim.res.Steps > sim.cfg.SoftSteps {
		simLimits(gp)
	}
	if kind != simKMem && kind != simKFunc {
		sim.now += sim.cfg.StepCost
		simTimers(gp, kind, pc)
	}
	if sim.n == 0 {
		if kind == simKYield {
			// A goroutine that spins by yielding while everything else is
			// blocked: time passes.
			sim.now += 1000
		}
		return
	}
	var i int
	if kind == simKYield {
		i = simPickYield(gp)
	} else {
		if sim.cfg.PStall != 0 && kind != simKMem && kind != simKFunc && !sim.fair && simHit(sim.cfg.PStall) {
			gp.simstall = sim.res.Steps + sim.cfg.StallLen
			sim.res.Stalls++
		}
		i = simPickAt(gp, kind)
	}
	if i < 0 {
		return
	}
	to := simTake(i)
	if !sim.fair {
		simLog(gp.simid, gp.simpts, simCSwitch, kind, to.simid, pc)
	}
	sim.res.Preempts++
	sim.next.set(to)
	mcall(simSwitch)
}

// simPickYield: an explicit yield goes to another goroutine by default.
func simPickYield(gp *g) int {
	if sim.fair {
		return simAfter(gp.simid)
	}
	switch sim.cfg.Strategy {
	case SimStratReplay:
		v, ok := simTabGet(simKey(gp.simid, gp.simpts, simCSwitch))
		if ok {
			if i := simIndex(v); i >= 0 {
				return i
			}
		}
		return simAfter(gp.simid)
	case SimStratRandom:
		return simNonStalled()
	case SimStratPCT:
		// A yielding goroutine drops to the lowest priority.
		sim.lowprio--
		gp.simprio = sim.lowprio
		return simBest()
	}
	return simAfter(gp.simid)
}

func simSwitch(gp *g) {
	casgstatus(gp, _Grunning, _Grunnable)
	dropg()
	simPut(gp)
	schedule()
}

// simTimers runs the timers that are due and injects clock jumps.
func simTimers(gp *g, kind uint8, pc uintptr) {
	pp := gp.m.p.ptr()
	w := pp.timers.wakeTime()
	if w == 0 {
		return
	}
	if w > sim.now {
		if sim.fair {
			if sim.res.Steps&1023 != 0 {
				return
			}
		} else if sim.cfg.Strategy == SimStratReplay {
			if _, ok := simTabGet(simKey(gp.simid, gp.simpts, simCJump)); !ok {
				return
			}
		} else if !simHit(sim.cfg.PJump) {
			return
		}
		sim.now = w
		sim.res.Jumps++
		if !sim.fair {
			simLog(gp.simid, gp.simpts, simCJump, kind, 1, pc)
		}
	}
	mcall(simTimerSwitch)
}

// simTimerSwitch runs the due timers on g0 with no current goroutine (as the
// scheduler would) and resumes gp.
func simTimerSwitch(gp *g) {
	casgstatus(gp, _Grunning, _Grunnable)
	dropg()
	getg().m.p.ptr().timers.check(sim.now)
	sim.next.set(gp)
	schedule()
}

func simLimits(gp *g) {
	if !sim.fair {
		sim.fair = true
		sim.res.Fair = true
	}
	if sim.res.Steps > sim.cfg.MaxSteps {
		simStop(SimNoProgress, "step limit reached: no progress under a fair schedule")
	}
}

// simStop ends the run from a simulated goroutine; it does not return.
//
//go:yeswritebarrierrec
func simStop(status int, msg string) {
	gp := getg()
	if gp.m.curg != gp || !simMine(gp) {
		// Not on a simulated goroutine (timer callback): just note it.
		if sim.res.Status == SimOK {
			sim.res.Status = status
			sim.res.Msg = msg
		}
		return
	}
	sim.res.Status = status
	sim.res.Msg = msg
	gp.simatomic = 0
	if raceenabled {
		racereleasemerge(unsafe.Pointer(&simFence))
	}
	for {
		gopark(simStopCommit, nil, waitReasonZero, traceBlockForever, 1)
	}
}

func simStopCommit(gp *g, _ unsafe.Pointer) bool {
	simEnd()
	return true
}

// simEnd hands control back to the controller goroutine.
func simEnd() {
	if !sim.on {
		return
	}
	sim.on = false
	sim.res.Live = sim.live
	for i := 0; i < sim.n; i++ {
		sim.list[i] = 0
	}
	sim.n = 0
	sim.next = 0
	gp := sim.ctl.ptr()
	sim.ctl = 0
	if gp != nil {
		goready(gp, 1)
	}
}

// simFind is the hook at the top of findRunnable: it picks the next goroutine
// of the run. It returns nil when the run is over.
//
//go:yeswritebarrierrec
func simFind() *g {
	if gp := sim.next.ptr(); gp != nil {
		sim.next = 0
		return simGo(gp)
	}
	pp := getg().m.p.ptr()
	if c := sim.cur.ptr(); c != nil {
		// The current goroutine blocked: key its block decision uniquely.
		c.simpts++
		sim.curpts = c.simpts
		sim.cur = 0
	}
	for {
		if sim.rootdone || sim.res.Status != SimOK {
			simEnd()
			return nil
		}
		if w := pp.timers.wakeTime(); w != 0 && w <= sim.now {
			pp.timers.check(sim.now)
			if sim.next.ptr() != nil || sim.res.Status != SimOK {
				continue
			}
		}
		if sim.n > 0 {
			sim.res.Steps++
			if sim.res.Steps > sim.cfg.SoftSteps {
				if !sim.fair {
					sim.fair = true
					sim.res.Fair = true
				}
				if sim.res.Steps > sim.cfg.MaxSteps {
					sim.res.Status = SimNoProgress
					sim.res.Msg = "step limit reached: no progress under a fair schedule"
					continue
				}
			}
			sim.res.Kinds[simKBlock]++
			def := 0
			i := simPickBlocked()
			if i != def && !sim.fair {
				simLog(sim.curid, sim.curpts, simCBlock, simKBlock, sim.list[i].ptr().simid, 0)
			}
			return simGo(simTake(i))
		}
		if gp := sim.idleW.ptr(); gp != nil && (!sim.drain || !simPending(pp)) {
			sim.idleW = 0
			casgstatus(gp, _Gwaiting, _Grunnable)
			return simGo(gp)
		}
		if w := pp.timers.wakeTime(); w != 0 && simPending(pp) {
			if w > sim.now {
				sim.now = w
				sim.res.Idle++
			}
			sim.res.Steps++
			if sim.res.Steps > sim.cfg.MaxSteps {
				sim.res.Status = SimNoProgress
				sim.res.Msg = "step limit reached: timers keep firing but nothing runs"
				continue
			}
			pp.timers.check(sim.now)
			// Timers may have been zombies or modified: loop.
			continue
		}
		if sim.cfg.MaxSteps == 0 {
			throw("sim: bad config")
		}
		if sim.nheld > 0 {
			SimRelease()
			continue
		}
		sim.res.Status = SimDeadlock
		sim.res.Msg = "deadlock: every goroutine is blocked and no timer is pending"
	}
}

// simPending reports whether a timer is pending that can make a goroutine
// run. A channel timer nobody waits on cannot: Reset of a Ticker that was just
// waited on leaves such a timer in the heap, where it fires for ever.
func simPending(pp *p) bool {
	ts := &pp.timers
	for i := range ts.heap {
		t := ts.heap[i].timer
		if t.state&timerZombie == 0 && !(t.isChan && t.blocked == 0) {
			return true
		}
	}
	return false
}

func simGo(gp *g) *g {
	sim.res.Switches++
	sim.cur.set(gp)
	simMix(uint64(sim.curid)<<40 ^ uint64(sim.curpts)<<8 ^ uint64(gp.simid))
	sim.curid = gp.simid
	sim.curpts = gp.simpts
	return gp
}

// ---- memory hooks (called by code compiled with -race in the mem build) ----

// ---- environment choices --------------------------------------------------

// simEnv returns a choice in [0,n); 0 is the default.
func simEnv(n int) int {
	if !sim.on || n <= 1 {
		return 0
	}
	gp := getg()
	if gp.m.curg != gp || !simMine(gp) {
		return 0
	}
	gp.simenv++
	v := 0
	if sim.cfg.Strategy == SimStratReplay {
		x, _ := simTabGet(simKey(gp.simid, gp.simenv, simCEnv))
		v = int(x) % n
	} else if simHit(sim.cfg.PEnv) {
		v = simRandn(n)
	}
	if v != 0 {
		sim.res.EnvNon0++
		simLog(gp.simid, gp.simenv, simCEnv, 0, uint32(v), 0)
	}
	return v
}

func simSelectOrder(norder int) uint32 {
	v := simEnv(norder + 1)
	if v == 0 && sim.on {
		// The default differs from select to select, or a case that is always
		// ready could starve another one for ever.
		if gp := getg(); gp.m.curg == gp && simMine(gp) {
			v = int(uint32(gp.simenv) * 0x9e3779b1 >> 16 % uint32(norder+1))
		}
	}
	return uint32((norder + v) % (norder + 1))
}

// simPoolChoice decides a sync.Pool Get over n stored items:
// -1 means a miss, otherwise the index (from the most recent) to return.
//
//go:linkname simPoolChoice sync.runtime_simPoolChoice
func simPoolChoice(n int) int {
	if n == 0 {
		return -1
	}
	if !sim.on {
		return 0
	}
	gp := getg()
	if gp.m.curg != gp || !simMine(gp) {
		return 0
	}
	gp.simenv++
	v := 0
	if sim.cfg.Strategy == SimStratReplay {
		x, _ := simTabGet(simKey(gp.simid, gp.simenv, simCEnv))
		v = int(x)
	} else if simHit(sim.cfg.PDrop) {
		v = 1
	} else if n > 1 && simHit(sim.cfg.PEnv) {
		v = 1 + simRandn(n)
	}
	if v != 0 {
		simLog(gp.simid, gp.simenv, simCEnv, 1, uint32(v), 0)
	}
	if v == 1 {
		sim.res.Drops++
		return -1
	}
	if v > 1 {
		sim.res.EnvNon0++
		return (v - 1) % n
	}
	return 0
}

//go:linkname simPoolEpoch sync.runtime_simEpoch
func simPoolEpoch() uint32 { return sim.epoch }

//go:linkname sync_simPoint sync.runtime_simPoint
func sync_simPoint() {
	if sim.on {
		simPoint1(simKLock, getcallerpc())
	}
}

//go:linkname atomic_simPoint sync/atomic.runtime_simPoint
func atomic_simPoint() {
	if sim.on {
		simPoint1(simKAtomic, getcallerpc())
	}
}

// ---- clock ----------------------------------------------------------------

// wall clock: derived from the monotonic clock, so it is simulated too.
//
//go:linkname time_now time.now
func time_now() (sec int64, nsec int32, mono int64) {
	m := nanotime()
	w := simWall0 + m
	if sim.on {
		w = simWall0 + (m - simEpoch0)
	}
	return w / 1000000000, int32(w % 1000000000), m
}

// ---- exported API ---------------------------------------------------------

// SimRun executes fn as the root goroutine of a simulated run. It must be
// called from an ordinary goroutine, with GOMAXPROCS=1 and the GC off.
func SimRun(cfg *SimConfig, fn func()) SimResult {
	if sim.on {
		throw("sim: nested run")
	}
	debug.asyncpreemptoff = 1
	sim.cfg = *cfg
	if sim.cfg.MaxSteps == 0 {
		sim.cfg.MaxSteps = 1 << 40
	}
	if sim.cfg.SoftSteps == 0 {
		sim.cfg.SoftSteps = sim.cfg.MaxSteps / 2
	}
	sim.res = SimResult{}
	sim.epoch++
	sim.n = 0
	sim.next = 0
	sim.nextid = 0
	sim.live = 0
	sim.rng = cfg.Seed*0x9e3779b97f4a7c15 ^ 0x853c49e6748fea9b
	sim.rnd = cfg.Seed ^ 0x2545f4914f6cdd1d
	sim.now = simEpoch0
	sim.seq = 0
	sim.cur = 0
	sim.curid = 0
	sim.curpts = 0
	sim.dirty = false
	sim.lowprio = 1 << 19
	sim.rootdone = false
	sim.idleW = 0
	sim.nheld = 0
	sim.holdlo, sim.holdhi = 0, 0
	sim.fair = false
	sim.ndec = 0
	if cfg.Strategy == SimStratReplay {
		for i := range sim.tabk {
			sim.tabk[i] = 0
		}
		for i := range cfg.Replay {
			d := &cfg.Replay[i]
			simTabSet(simKey(d.G, d.N, d.Class), d.Val)
		}
	}
	gp := getg()
	mp := acquirem()
	pp := mp.p.ptr()
	simPurgeTimers(pp)
	// Flush whatever ordinary goroutines are waiting in the normal queues:
	// they stay there until the run is over.
	sim.ctl.set(gp)
	sim.on = true
	releasem(mp)
	go simRoot(fn)
	gopark(nil, nil, waitReasonZero, traceBlockForever, 1)
	mp = acquirem()
	simPurgeTimers(mp.p.ptr())
	releasem(mp)
	sim.res.NDec = sim.ndec
	sim.res.Now = sim.now - simEpoch0
	return sim.res
}

var simFence uint64

func simRoot(fn func()) {
	if raceenabled {
		raceacquire(unsafe.Pointer(&simFence))
	}
	fn()
	SimWaitIdle()
	if raceenabled {
		racereleasemerge(unsafe.Pointer(&simFence))
	}
	// The root exits; the scheduler ends the run when it next looks for work.
	sim.rootdone = true
}

// simPurgeTimers removes every pending timer (left over from another run).
func simPurgeTimers(pp *p) {
	ts := &pp.timers
	ts.lock()
	for i := range ts.heap {
		t := ts.heap[i].timer
		t.lock()
		t.state &^= timerHeaped | timerZombie | timerModified
		t.when = 0
		t.ts = nil
		t.unlock()
		ts.heap[i] = timerWhen{}
	}
	ts.heap = ts.heap[:0]
	ts.zombies.Store(0)
	ts.minWhenHeap.Store(0)
	ts.minWhenModified.Store(0)
	ts.unlock()
}

// SimDecisions returns the non-default decisions of the last run.
func SimDecisions() []SimDec {
	out := make([]SimDec, sim.ndec)
	copy(out, sim.dec[:sim.ndec])
	return out
}

// SimActive reports whether a simulated run is in progress.
//
//go:nosplit
func SimActive() bool { return sim.on }

// SimWaitIdle blocks the caller until every other goroutine of the run is
// blocked (timers do not advance). Only one goroutine may wait at a time.
func SimWaitIdle() {
	if !sim.on || sim.n == 0 {
		return
	}
	simWaitIdle(false)
}

// SimDrain blocks the caller until every other goroutine of the run is
// blocked and no timer is pending.
func SimDrain() {
	if !sim.on {
		return
	}
	simWaitIdle(true)
}

func simWaitIdle(drain bool) {
	if sim.idleW != 0 {
		throw("sim: two SimWaitIdle callers")
	}
	sim.drain = drain
	gopark(simIdlePark, nil, waitReasonZero, traceBlockForever, 1)
}

func simIdlePark(gp *g, _ unsafe.Pointer) bool {
	sim.idleW.set(gp)
	return true
}

// SimYield is an explicit scheduling point.
func SimYield() {
	if sim.on {
		simPoint1(simKYield, getcallerpc())
	}
}

// SimPoint is an ordinary scheduling point (the default is to continue).
func SimPoint() {
	if sim.on {
		simPoint1(simKLock, getcallerpc())
	}
}

// SimFail ends the run with an oracle violation. It does not return when
// called from a simulated goroutine.
func SimFail(msg string) {
	if sim.on {
		simStop(SimFailed, msg)
	}
}

// SimFailed reports whether the run has already failed.
func SimStatus() int { return sim.res.Status }

// SimSeq returns the next global event number.
func SimSeq() uint64 {
	sim.seq++
	return sim.seq
}

// SimGoID is the run-local id of the calling goroutine.
func SimGoID() int { return int(getg().simid) }

// SimNow is the simulated time in ns since the run started.
func SimNow() int64 { return sim.now - simEpoch0 }

// SimAdvance moves the simulated clock forward (an injected clock jump).
func SimAdvance(d int64) {
	if sim.on && d > 0 {
		sim.now += d
		sim.res.Jumps++
	}
}

// SimNextID is the number of goroutines created so far in this run.
func SimNextID() int { return int(sim.nextid) }

// SimHold keeps the goroutines lo < id <= hi from running (the machine does not
// schedule them) until SimRelease. Simulated time goes on meanwhile.
func SimHold(lo, hi int) {
	if !sim.on {
		return
	}
	sim.holdlo, sim.holdhi = uint32(lo), uint32(hi)
	for i := 0; i < sim.n; {
		gp := sim.list[i].ptr()
		if gp.simid > sim.holdlo && gp.simid <= sim.holdhi && sim.nheld < len(sim.held) {
			sim.held[sim.nheld].set(simTake(i))
			sim.nheld++
			continue
		}
		i++
	}
	sim.res.Holds++
}

// SimRelease ends SimHold.
func SimRelease() {
	if !sim.on {
		return
	}
	sim.holdlo, sim.holdhi = 0, 0
	n := sim.nheld
	sim.nheld = 0
	for i := 0; i < n; i++ {
		simPut(sim.held[i].ptr())
	}
}

// SimAtomic brackets code that must not be interrupted by the scheduler.
func SimAtomic(d int) {
	if sim.on {
		getg().simatomic += int32(d)
	}
}

// SimMixHash adds an application event to the run's schedule hash.
func SimMixHash(v uint64) {
	if sim.on {
		simMix(v)
	}
}

// SimLive is the number of goroutines of the run that exist now.
func SimLive() int { return sim.live }

// SimSteps is the number of scheduling points so far.
func SimSteps() uint64 { return sim.res.Steps }

// SimFairNow switches the run into its fair phase: faults and adversarial
// scheduling stop, every goroutine gets its turn.
func SimFairNow() {
	sim.fair = true
}

func simPanicText(p *_panic) string {
	switch v := p.arg.(type) {
	case string:
		return v
	case error:
		return v.Error()
	case stringer:
		return v.String()
	}
	return "(panic value)"
}

// simUncaught is the hook in fatalpanic: an uncaught panic in a simulated
// goroutine ends the run.
func simUncaught(p *_panic) {
	gp := getg()
	if !sim.on || gp.m.curg != gp || !simMine(gp) || p == nil {
		return
	}
	gp.simatomic = 1
	gp.m.preemptoff = ""
	runningPanicDefers.Add(-1)
	msg := "panic: " + simPanicText(p)
	buf := make([]byte, 16384)
	n := Stack(buf, false)
	simStop(SimPanic, msg+"\n"+string(buf[:n]))
}

// simFatal is the hook in fatal: unrecoverable runtime errors such as the
// unlock of an unlocked mutex end the run.
func simFatal(msg string) {
	gp := getg()
	if !sim.on || gp.m.curg != gp || !simMine(gp) {
		return
	}
	gp.simatomic = 1
	gp.m.preemptoff = ""
	buf := make([]byte, 16384)
	n := Stack(buf, false)
	simStop(SimPanic, "fatal error: "+msg+"\n"+string(buf[:n]))
}

// simOSExit is the hook in os.runtime_beforeExit.
func simOSExit(code int) {
	gp := getg()
	if !sim.on || gp.m.curg != gp || !simMine(gp) {
		return
	}
	gp.simatomic = 1
	buf := make([]byte, 16384)
	n := Stack(buf, false)
	simStop(SimExit, "the process called os.Exit\n"+string(buf[:n]))
}

var _ = atomic.Load
