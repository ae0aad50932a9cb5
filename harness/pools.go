package main

import (
	"context"
	"runtime"
	"strings"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/verifsim/kit"
)

type poolKind struct {
	limited bool
	size    int
	p       goroutines.Pool
}

var poolNames uint64

// newPool makes a pool. An empty name stands for any: most are unnamed, some
// have a name nobody else in this process uses.
func newPool(w *kit.W, lim bool, name string, size int) goroutines.Pool {
	if name == "" && w.Chance(1, 5) {
		poolNames++
		name = "n" + letters(poolNames)
		w.Hit("named-pool")
	}
	return mkPool(w, lim, name, size)
}

func mkPool(w *kit.W, lim bool, name string, size int) goroutines.Pool {
	if lim {
		p, err := limited.New(name, size)
		if err != nil {
			w.Fail("pool-new", "limited.New failed:", err)
		}
		return p
	}
	p, err := pooled.New(name, size)
	if err != nil {
		w.Fail("pool-new", "pooled.New failed:", err)
	}
	return p
}

func nonBlocking(lim bool) goroutines.SubmitOption {
	if lim {
		return limited.NonBlocking()
	}
	return pooled.NonBlocking()
}

func caller(lim bool) goroutines.SubmitOption {
	if lim {
		return limited.Caller("sim")
	}
	return pooled.Caller("sim")
}

// subOpts are the options of a Submit: nb or not, in several ways that mean the same.
func subOpts(lim, nb bool, how int) (o []goroutines.SubmitOption) {
	if nb {
		o = append(o, nonBlocking(lim))
	}
	switch how % 8 {
	case 3:
		o = append(o, caller(lim))
	case 4:
		o = append([]goroutines.SubmitOption{caller(lim)}, o...)
	case 5:
		o = append(o, o...)
	case 6:
		o = append([]goroutines.SubmitOption{caller(lim)}, append(o, caller(lim))...)
	}
	return o
}

type ctxKey struct{}

// pause is user code that takes a while: scheduling points or simulated time.
func pause(w *kit.W, k int) {
	switch {
	case k == 0:
	case k < 4:
		w.Spin(k)
	case k < 6:
		w.Spin(k * 4)
	case k == 6:
		time.Sleep(time.Microsecond)
	default:
		time.Sleep(time.Duration(k) * w.Unit)
	}
}

const pauseKinds = 9

// ctxKinds are the ways the context given to the code under test behaves:
// it lives on, is dead already, or dies at a moment the schedule picks.
const ctxKinds = 7

func simCtx(parent context.Context, w *kit.W, kind int) context.Context {
	switch kind {
	case 3:
		ctx, cancel := context.WithCancel(parent)
		cancel()
		return ctx
	case 4:
		ctx, cancel := context.WithCancelCause(parent)
		go func() {
			w.Spin(6)
			cancel(&myErr{0})
		}()
		return ctx
	case 5:
		ctx, _ := context.WithTimeout(parent, time.Microsecond)
		return ctx
	case 6:
		ctx, _ := context.WithTimeout(parent, 2*time.Millisecond)
		return ctx
	}
	return parent
}

// someCtx draws a kind; most contexts live on.
func someCtx(w *kit.W) int {
	if w.Chance(2, 3) {
		return 0
	}
	return w.Pick(ctxKinds)
}

func init() {
	register("C01", Scenario{Name: "mix", Weight: 4, Run: c01Mix, Race: true},
		Scenario{Name: "waiters", Weight: 2, Run: c01Waiters, Race: true},
		Scenario{Name: "close-busy", Weight: 2, Run: c01CloseBusy, Race: true})
	register("C02", Scenario{Name: "bound", Weight: 2, Run: c02Bound, Race: true},
		Scenario{Name: "capacity", Weight: 2, Run: c02Capacity},
		Scenario{Name: "full-submit-waits", Run: c02FullWaits})
	register("C03", Scenario{Name: "saturated", Weight: 2, Run: c03Saturated},
		Scenario{Name: "from-jobs", Weight: 2, Run: c03FromJobs},
		Scenario{Name: "no-slot", Run: c03NoSlot})
	register("C04", Scenario{Name: "gauges", Weight: 2, Run: c04Gauges, Race: true},
		Scenario{Name: "held", Run: c04Held})
	register("C05", Scenario{Name: "names", Weight: 3, Run: c05Names, Race: true},
		Scenario{Name: "sequence", Weight: 1, Run: c05Sequence, Tune: kit.Tune{Soft: 3000000}})
}

// ---- C01 -------------------------------------------------------------------

type job struct {
	id       int
	nb       bool
	pause    int
	children []*job
	blockKid bool
	invalid  int // 0 valid, 1 nil job, 2 wrong option
	ctx      int // kind of simCtx; 3 is dead before Submit
	exit     bool
}

// genJobs draws a job tree. At most one job of the whole run submits a
// blocking child (and only when there are two slots), so that the workload
// cannot deadlock by itself.
func genJobs(w *kit.W, n, size int, id *int, depth int, blockKid *bool) []*job {
	var out []*job
	for i := 0; i < n; i++ {
		j := &job{id: *id, pause: w.Pick(pauseKinds)}
		*id++
		j.nb = w.Chance(1, 3)
		j.exit = w.Chance(1, 12)
		if depth == 0 && w.Chance(1, 8) {
			j.invalid = 1 + w.Pick(3)
		}
		j.ctx = someCtx(w)
		if j.invalid == 0 && depth < 2 && w.Chance(1, 4) {
			j.children = genJobs(w, w.Range(1, 2), size, id, depth+1, blockKid)
			for _, c := range j.children {
				c.nb = true
			}
			if depth == 0 && size >= 2 && !*blockKid && w.Chance(1, 2) {
				*blockKid = true
				j.children[0].nb = false
			}
		}
		out = append(out, j)
	}
	return out
}

type c01 struct {
	how   int
	w     *kit.W
	p     goroutines.Pool
	lim   bool
	run   *kit.Counts
	done  *kit.Counts
	ok    []kit.Cell // 1: Submit returned nil, 2: returned an error
	jobs  []*job
	begun kit.Cell
}

func (c *c01) collect(js []*job) {
	for _, j := range js {
		for len(c.jobs) <= j.id {
			c.jobs = append(c.jobs, nil)
		}
		c.jobs[j.id] = j
		c.collect(j.children)
	}
}

func (c *c01) submit(j *job) {
	w := c.w
	ctx := context.WithValue(w.Root(), ctxKey{}, j.id)
	ctx = simCtx(ctx, w, j.ctx)
	opts := subOpts(c.lim, j.nb, c.how+j.id)
	var fn goroutines.Job = func(ctx context.Context) {
		w.Ev("job", j.id, 0)
		if c.run.Enter(j.id) > 1 {
			w.Fail("job-twice", "job", j.id, "was executed twice")
		}
		if j.invalid != 0 {
			w.Fail("rejected-job-ran", "job", j.id, "ran although its Submit is invalid")
		}
		v, _ := ctx.Value(ctxKey{}).(int)
		if v != j.id {
			w.Fail("wrong-context", "job", j.id, "got the context of", v)
		}
		if dead := ctx.Err() != nil; dead && j.ctx < 3 || !dead && j.ctx == 3 {
			w.Fail("wrong-context", "job", j.id, "got a context with Err", ctx.Err())
		}
		pause(w, j.pause)
		for _, k := range j.children {
			c.submit(k)
		}
		c.run.Leave()
		c.done.Enter(j.id)
		w.Ev("job-end", j.id, 0)
		w.Exit(j.exit)
	}
	switch j.invalid {
	case 1:
		fn = nil
	case 2:
		opts = append(opts, nonBlocking(!c.lim))
	case 3:
		opts = append(opts, caller(!c.lim))
	}
	w.Ev("submit", j.id, b2i(j.nb))
	err := c.p.Submit(ctx, fn, opts...)
	w.Ev("submit-ret", j.id, b2i(err != nil))
	if j.invalid != 0 {
		if err == nil {
			w.Fail("invalid-accepted", "an invalid Submit (nil job or option of the other pool type) returned nil; kind", j.invalid)
		}
		c.ok[j.id].Set(2)
		w.Hit("rejected")
		return
	}
	if err != nil {
		w.Fail("valid-rejected", "Submit of a valid job failed:", err)
	}
	c.ok[j.id].Set(1)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// check verifies, when every submit has returned and Wait or Close has
// returned, that each accepted job has run exactly once to its end.
func (c *c01) check(what string, js []*job) {
	for _, j := range js {
		st := c.ok[j.id].Get()
		n, d := c.run.Get(j.id), c.done.Get(j.id)
		switch {
		case st == 1 && (n != 1 || d != 1):
			c.w.Fail("wait-early", what, "returned but job", j.id, "was started", n, "and finished", d, "times")
		case st == 2 && n != 0:
			c.w.Fail("rejected-job-ran", "job", j.id, "ran although its Submit returned an error")
		}
		if st == 1 {
			c.check(what, j.children)
		}
	}
}

func newC01(w *kit.W, lim bool, size int, jobs int) *c01 {
	return &c01{w: w, how: w.Pick(8), lim: lim, p: newPool(w, lim, "", size), run: kit.NewCounts(jobs), done: kit.NewCounts(jobs), ok: make([]kit.Cell, jobs)}
}

func c01Mix(w *kit.W) {
	lim := w.Chance(1, 2)
	size := w.Size(1, 4, 40)
	rounds := w.Range(1, 2)
	id := 0
	bk := false
	var plan [][][]*job
	for r := 0; r < rounds; r++ {
		var subs [][]*job
		for s := w.Range(1, 3); s > 0; s-- {
			subs = append(subs, genJobs(w, w.Size(0, 4, 80), size, &id, 0, &bk))
		}
		plan = append(plan, subs)
	}
	useWait := w.Chance(1, 2)
	base := runtime.SimLive()
	c := newC01(w, lim, size, id)
	for r, subs := range plan {
		done := make(chan bool, len(subs))
		for _, js := range subs {
			go func() {
				for _, j := range js {
					c.submit(j)
				}
				done <- true
			}()
		}
		for range subs {
			<-done
		}
		if r < len(plan)-1 || useWait {
			c.p.Wait()
			w.Ev("wait-ret", r, 0)
			for _, js := range subs {
				c.check("Wait", js)
			}
		}
	}
	c.p.Close()
	w.Ev("close-ret", 0, 0)
	for _, subs := range plan {
		for _, js := range subs {
			c.check("Close", js)
		}
	}
	w.Idle()
	if n := runtime.SimLive(); n > base {
		w.Fail("goroutine-leak", "after Close", n-base, "goroutines of the pool are still alive")
	}
}

// c01Waiters: several goroutines Wait while the last jobs are in flight.
func c01Waiters(w *kit.W) {
	lim := w.Chance(1, 2)
	size := w.Size(1, 3, 20)
	id := 0
	bk := true
	js := genJobs(w, w.Size(1, 5, 60), size, &id, 0, &bk)
	nw := w.Range(1, 3)
	rounds := w.Range(1, 2)
	c := newC01(w, lim, size, id)
	for _, j := range js {
		c.submit(j)
	}
	for r := 0; r < rounds; r++ {
		done := make(chan bool, nw)
		for i := 0; i < nw; i++ {
			go func() {
				c.p.Wait()
				c.check("Wait", js)
				done <- true
			}()
		}
		for i := 0; i < nw; i++ {
			<-done
		}
	}
	c.p.Close()
}

// c01CloseBusy: Close is called while jobs are running and queued.
func c01CloseBusy(w *kit.W) {
	lim := w.Chance(1, 2)
	size := w.Size(1, 3, 20)
	id := 0
	bk := true
	js := genJobs(w, w.Size(1, 6, 100), size, &id, 0, &bk)
	base := runtime.SimLive()
	c := newC01(w, lim, size, id)
	for _, j := range js {
		c.submit(j)
	}
	c.p.Close()
	c.check("Close", js)
	w.Idle()
	if n := runtime.SimLive(); n > base {
		w.Fail("goroutine-leak", "after Close", n-base, "goroutines of the pool are still alive")
	}
}

// ---- C02 -------------------------------------------------------------------

func c02Bound(w *kit.W) {
	lim := w.Chance(1, 2)
	how := w.Pick(8)
	size := w.Size(1, 4, 40)
	type jb struct {
		nb    bool
		pause int
		ctx   int
		exit  bool
	}
	subs := w.Range(1, 3)
	plan := make([][]jb, subs)
	for s := range plan {
		for n := w.Size(1, 5, 60); n > 0; n-- {
			plan[s] = append(plan[s], jb{w.Chance(1, 5), w.Pick(pauseKinds), someCtx(w), w.Chance(1, 12)})
		}
	}
	p := newPool(w, lim, "", size)
	run := kit.NewCounts(0)
	done := make(chan bool, subs)
	for _, js := range plan {
		go func() {
			for i, j := range js {
				opts := subOpts(lim, j.nb, how+i)
				p.Submit(simCtx(w.Root(), w, j.ctx), func(ctx context.Context) {
					if !j.nb {
						run.Enter(-1)
						if run.Cur() > size {
							w.Fail("over-limit", run.Cur(), "blocking-submitted jobs are executing in a pool of size", size)
						}
						if run.Cur() == size {
							w.Hit("pool-full")
						}
					}
					pause(w, j.pause)
					if !j.nb {
						run.Leave()
					}
					w.Exit(j.exit)
				}, opts...)
			}
			done <- true
		}()
	}
	for range plan {
		<-done
	}
	p.Close()
	if w.Events == nil {
		w.Ev("end", run.Max, size)
	}
}

// barrier submits n jobs that wait for each other; a pool with fewer usable
// slots deadlocks.
func barrier(w *kit.W, p goroutines.Pool, n int, opts ...goroutines.SubmitOption) {
	all := make(chan struct{})
	in := kit.NewCounts(1)
	for i := 0; i < n; i++ {
		p.Submit(w.Root(), func(ctx context.Context) {
			k := in.Enter(0)
			w.Ev("barrier", k, n)
			if k == n {
				close(all)
			}
			<-all
		}, opts...)
	}
}

func c02Capacity(w *kit.W) {
	lim := w.Chance(1, 2)
	how := w.Pick(8)
	size := w.Size(1, 5, 100)
	pre := w.Size(0, 6, 100)
	rounds := w.Range(1, 2)
	waitBetween := w.Chance(1, 2)
	type pj struct {
		nb    bool
		pause int
		ctx   int
		exit  bool
	}
	var pres []pj
	for i := 0; i < pre; i++ {
		pres = append(pres, pj{w.Chance(1, 3), w.Pick(pauseKinds), someCtx(w), w.Chance(1, 8)})
	}
	p := newPool(w, lim, "", size)
	for i, j := range pres {
		opts := subOpts(lim, j.nb, how+i)
		p.Submit(simCtx(w.Root(), w, j.ctx), func(ctx context.Context) {
			pause(w, j.pause)
			w.Exit(j.exit)
		}, opts...)
	}
	for r := 0; r < rounds; r++ {
		if waitBetween {
			p.Wait()
		}
		barrier(w, p, size, subOpts(lim, false, how)...)
	}
	p.Close()
}

func c02FullWaits(w *kit.W) {
	lim := w.Chance(1, 2)
	how := w.Pick(8)
	size := w.Size(1, 4, 60)
	extra := w.Range(1, 3)
	rel := w.Range(0, size-1)
	ctxs := make([]int, extra)
	for i := range ctxs {
		ctxs[i] = someCtx(w)
	}
	p := newPool(w, lim, "", size)
	gates := make([]chan struct{}, size)
	for i := range gates {
		gates[i] = make(chan struct{})
		p.Submit(w.Root(), func(ctx context.Context) { <-gates[i] }, subOpts(lim, false, how+i)...)
	}
	w.Idle()
	var returned, started, finished kit.Cell
	done := make(chan bool, extra)
	for i := 0; i < extra; i++ {
		go func() {
			ctx := simCtx(w.Root(), w, ctxs[i])
			err := p.Submit(ctx, func(ctx context.Context) {
				started.Add(1)
				finished.Add(1)
			}, subOpts(lim, false, how+i)...)
			if err != nil {
				w.Fail("valid-rejected", "Submit of a valid job failed:", err)
			}
			returned.Add(1)
			done <- true
		}()
	}
	w.Idle()
	time.Sleep(5 * time.Millisecond) // the contexts that die are dead now
	w.Idle()
	if returned.Get() != 0 || started.Get() != 0 {
		w.Fail("submit-did-not-wait", "with all", size, "slots held,", returned.Get(), "of", extra, "blocking Submits returned and",
			started.Get(), "of their jobs started")
	}
	w.Hit("blocked-submit")
	close(gates[rel])
	for i := 0; i < extra; i++ {
		<-done
	}
	w.Idle()
	if finished.Get() != extra {
		w.Fail("capacity-lost", "one slot is free but", extra-finished.Get(), "of", extra, "accepted jobs did not run")
	}
	for i, g := range gates {
		if i != rel {
			close(g)
		}
	}
	p.Close()
}

// ---- C03 -------------------------------------------------------------------

// c03Saturated: all slots (and more submits) are held by jobs that wait for
// the non-blocking jobs.
func c03Saturated(w *kit.W) {
	lim := w.Chance(1, 2)
	how := w.Pick(8)
	size := w.Size(1, 4, 20)
	hold := w.Range(0, size)
	nb := w.Size(1, 4, 150)
	blockedSubmits := 0
	if hold == size {
		blockedSubmits = w.Range(0, 2)
	}
	settle := w.Chance(2, 3)
	ctxs := make([]int, nb)
	for i := range ctxs {
		ctxs[i] = someCtx(w)
	}
	p := newPool(w, lim, "", size)
	opts := subOpts(lim, true, how)
	gate := make(chan struct{})
	for i := 0; i < hold; i++ {
		p.Submit(w.Root(), func(ctx context.Context) { <-gate })
	}
	if settle {
		w.Idle()
	}
	subDone := make(chan bool, 4)
	for i := 0; i < blockedSubmits; i++ {
		go func() {
			p.Submit(w.Root(), func(ctx context.Context) { <-gate }, subOpts(lim, false, how+i)...)
			subDone <- true
		}()
	}
	if settle {
		w.Idle()
	}
	if hold == size {
		w.Hit("saturated")
	}
	started := kit.NewCounts(nb)
	want := make([]int, nb)
	for i := 0; i < nb; i++ {
		t0 := w.Now()
		ctx := simCtx(w.Root(), w, ctxs[i])
		err := p.Submit(ctx, func(ctx context.Context) {
			started.Enter(i)
			w.Ev("nb-job", i, 0)
			if i%2 == 0 {
				<-gate // occupies whatever runs it
			}
		}, opts...)
		w.Ev("nb-submitted", i, int(w.Now()-t0))
		if err != nil {
			w.Fail("valid-rejected", "Submit of a valid job failed:", err)
		}
		want[i] = 1
	}
	w.Idle()
	for i := 0; i < nb; i++ {
		if started.Get(i) != want[i] {
			w.Fail("nb-not-started", "non-blocking job", i, "was started", started.Get(i), "times while", hold, "of", size, "slots are held by jobs waiting for it")
		}
	}
	close(gate)
	for i := 0; i < blockedSubmits; i++ {
		<-subDone
	}
	p.Close()
}

// c03FromJobs: every job submits a non-blocking child and waits for it.
func c03FromJobs(w *kit.W) {
	lim := w.Chance(1, 2)
	how := w.Pick(8)
	size := w.Range(1, 3)
	n := w.Size(1, 5, 60)
	depth := w.Range(1, 3)
	par := w.Range(1, 2)
	p := newPool(w, lim, "", size)
	ran := kit.NewCounts(0)
	var nest func(d int)
	nest = func(d int) {
		ran.Enter(-1)
		if d == 0 {
			return
		}
		ch := make(chan bool, par)
		for i := 0; i < par; i++ {
			p.Submit(w.Root(), func(ctx context.Context) {
				nest(d - 1)
				ch <- true
			}, subOpts(lim, true, how+i)...)
		}
		for i := 0; i < par; i++ {
			<-ch
		}
	}
	for i := 0; i < n; i++ {
		p.Submit(w.Root(), func(ctx context.Context) { nest(depth) })
	}
	p.Close()
	want, k := 0, 1
	for d := 0; d <= depth; d++ {
		want += k
		k *= par
	}
	if ran.Total != want*n && !kit.RaceMode {
		w.Fail("nb-lost", "expected", want*n, "job executions, saw", ran.Total)
	}
}

// c03NoSlot: on a limited pool non-blocking jobs take no slot.
func c03NoSlot(w *kit.W) {
	size := w.Size(1, 4, 20)
	nb := w.Size(1, 4, 100)
	first := w.Chance(1, 2)
	p := newPool(w, true, "", size)
	gate := make(chan struct{})
	sub := func() {
		for i := 0; i < nb; i++ {
			p.Submit(w.Root(), func(ctx context.Context) { <-gate }, limited.NonBlocking())
		}
	}
	if first {
		sub()
		w.Idle()
	}
	barrier(w, p, size)
	if !first {
		sub()
	}
	w.Idle()
	barrier(w, p, size)
	w.Idle()
	close(gate)
	p.Close()
}

// ---- C04 -------------------------------------------------------------------

func c04Gauges(w *kit.W) {
	lim := w.Chance(1, 2)
	how := w.Pick(8)
	size := w.Size(1, 4, 30)
	type jb struct {
		nb    bool
		pause int
		ctx   int
	}
	rounds := w.Range(1, 2)
	var plan [][][]jb
	for r := 0; r < rounds; r++ {
		subs := make([][]jb, w.Range(1, 2))
		for s := range subs {
			for n := w.Size(1, 4, 60); n > 0; n-- {
				subs[s] = append(subs[s], jb{w.Chance(1, 3), w.Pick(pauseKinds), someCtx(w)})
			}
		}
		plan = append(plan, subs)
	}
	reads := w.Range(1, 6)
	p := newPool(w, lim, "", size)
	n := 0
	for _, r := range plan {
		for _, s := range r {
			n += len(s)
		}
	}
	ex := make([]kit.Cell, n) // 1 executing
	var begun kit.Cell        // submits begun
	read := func() {
		if l := p.Len(); l != size {
			w.Fail("len", "Len is", l, "for a pool of size", size)
		}
		var before []int
		w.Do(func() {
			for i := range ex {
				if ex[i].Get() == 1 {
					before = append(before, i)
				}
			}
		})
		r := p.Running()
		w.Do(func() {
			k := 0
			for _, i := range before {
				if ex[i].Get() == 1 {
					k++
				}
			}
			if r < 0 {
				w.Fail("running-negative", "Running is", r)
			}
			if r < k {
				w.Fail("running-low", "Running is", r, "while at least", k, "jobs are executing")
			}
			if r > begun.Get() {
				w.Fail("running-high", "Running is", r, "although only", begun.Get(), "jobs were ever submitted")
			}
			if k > 0 {
				w.Hit("read-while-executing")
			}
		})
	}
	stop := make(chan bool, 1)
	go func() {
		for i := 0; i < reads; i++ {
			read()
			w.Spin(5)
		}
		stop <- true
	}()
	id := 0
	for _, r := range plan {
		done := make(chan bool, len(r))
		for _, js := range r {
			id0 := id
			id += len(js)
			go func() {
				for k, j := range js {
					i := id0 + k
					opts := subOpts(lim, j.nb, how+i)
					begun.Add(1)
					p.Submit(simCtx(w.Root(), w, j.ctx), func(ctx context.Context) {
						ex[i].Set(1)
						pause(w, j.pause)
						if i%2 == 0 {
							read()
						}
						ex[i].Set(2)
					}, opts...)
				}
				done <- true
			}()
		}
		for range r {
			<-done
		}
		p.Wait()
		if r := p.Running(); r != 0 {
			w.Fail("running-after-wait", "Running is", r, "after Wait returned")
		}
		w.Idle()
		if r := p.Running(); r != 0 {
			w.Fail("running-after-wait", "Running is", r, "at rest after Wait returned")
		}
	}
	<-stop
	p.Close()
	if r := p.Running(); r != 0 {
		w.Fail("running-after-close", "Running is", r, "after Close")
	}
	if l := p.Len(); l != size {
		w.Fail("len", "Len is", l, "after Close for a pool of size", size)
	}
}

// c04Held: jobs and submits are held, so Running is known exactly.
func c04Held(w *kit.W) {
	lim := w.Chance(1, 2)
	how := w.Pick(8)
	size := w.Size(1, 4, 30)
	hold := w.Range(0, size)
	nb := w.Size(0, 3, 60)
	blocked := 0
	if hold == size {
		blocked = w.Range(0, 2)
	}
	rej := w.Range(0, 2)
	ctxs := make([]int, hold+nb)
	for i := range ctxs {
		ctxs[i] = someCtx(w)
	}
	p := newPool(w, lim, "", size)
	gate := make(chan struct{})
	f := func(ctx context.Context) { <-gate }
	refused := 0
	for i := 0; i < hold; i++ {
		if p.Submit(simCtx(w.Root(), w, ctxs[i]), f, subOpts(lim, false, how+i)...) != nil {
			refused++
		}
	}
	w.Idle()
	for i := 0; i < nb; i++ {
		if p.Submit(simCtx(w.Root(), w, ctxs[hold+i]), f, subOpts(lim, true, how+i)...) != nil {
			refused++
		}
	}
	for i := 0; i < rej; i++ {
		if i == 0 {
			p.Submit(w.Root(), nil)
		} else {
			p.Submit(w.Root(), f, nonBlocking(!lim))
		}
	}
	done := make(chan bool, 4)
	for i := 0; i < blocked; i++ {
		go func() {
			p.Submit(w.Root(), f, subOpts(lim, false, how+i)...)
			done <- true
		}()
	}
	w.Idle()
	r := p.Running()
	if r < hold+nb-refused || r > hold+nb+blocked {
		w.Fail("running-held", "at rest", hold, "blocking and", nb, "non-blocking jobs execute,", blocked, "Submits are blocked; Running is", r)
	}
	if l := p.Len(); l != size {
		w.Fail("len", "Len is", l, "for a pool of size", size)
	}
	close(gate)
	for i := 0; i < blocked; i++ {
		<-done
	}
	p.Wait()
	if r := p.Running(); r != 0 {
		w.Fail("running-after-wait", "Running is", r, "after Wait returned")
	}
	if l := p.Len(); l != size {
		w.Fail("len", "Len is", l, "for a pool of size", size)
	}
	p.Close()
}

// ---- C05 -------------------------------------------------------------------

// letters encodes a number in a-z so that names differ between runs of one
// process (the registry of names is process-wide).
func letters(v uint64) string {
	b := []byte{}
	for i := 0; i < 14; i++ {
		b = append(b, 'a'+byte(v%26))
		v /= 26
	}
	return string(b)
}

type nameBook struct {
	w    *kit.W
	open map[string]int
	use  map[string]int // pools that have the name, or may have it
	news map[string]int // calls of New with the name
}

// making is called before New(base), and its result afterwards.
func (nb *nameBook) making(base string) func(got string) {
	free, n := false, 0
	nb.w.Do(func() {
		if nb.use == nil {
			nb.use, nb.news = map[string]int{}, map[string]int{}
		}
		free = nb.use[base] == 0
		nb.use[base]++
		nb.news[base]++
		n = nb.news[base]
	})
	return func(got string) {
		nb.w.Do(func() {
			if got != base {
				nb.use[base]--
				if free && n == nb.news[base] {
					nb.w.Fail("name-format", "a pool has a suffix in its name although no other has its base name")
				}
			}
		})
	}
}

func (nb *nameBook) closed(name string) { nb.w.Do(func() { nb.use[name]-- }) }

func (nb *nameBook) opened(base, got string) {
	nb.w.Do(func() {
		suf, ok := strings.CutPrefix(got, base)
		good := ok && suf == ""
		if ok && len(suf) > 1 && suf[0] == '-' {
			good = true
			for _, r := range suf[1:] {
				if r < '0' || r > '9' {
					good = false
				}
			}
		}
		if !good {
			nb.w.Fail("name-format", "a pool created as the base name is called base"+strings.TrimPrefix(got, base))
		}
		nb.open[got]++
		if nb.open[got] > 1 {
			nb.w.Fail("name-twice", "two open pools are called base"+suf)
		}
		if suf != "" {
			nb.w.Hit("suffixed")
		}
		if suf == "-2" {
			nb.w.Hit("second-suffix")
		}
	})
}

func (nb *nameBook) closing(name string) { nb.w.Do(func() { nb.open[name]-- }) }

func c05Names(w *kit.W) {
	nbase := w.Range(1, 2)
	gor := w.Range(1, 3)
	type op struct {
		close bool
		base  int
		lim   bool
		pos   int
	}
	plans := make([][]op, gor)
	for g := range plans {
		for n := w.Range(1, 5); n > 0; n-- {
			plans[g] = append(plans[g], op{w.Chance(1, 3), w.Pick(nbase), w.Chance(1, 2), w.Pick(4)})
		}
	}
	b := letters(w.Seed)
	bases := []string{"x" + b, "y" + b}
	switch w.Pick(12) {
	case 0: // not the same names
		bases = []string{"x" + b, "X" + b}
	case 1:
		bases = []string{"x" + b + "é_%d", "x" + b}
	case 2:
		bases = []string{b + ".a/b:c", b + ".A/b:c"}
	case 3:
		bases = []string{"(x)*" + b, b + "日本"}
	}
	book := &nameBook{w: w, open: map[string]int{}}
	done := make(chan bool, gor)
	mk := func(base string, lim bool) goroutines.Pool {
		made := book.making(base)
		p := mkPool(w, lim, base, 1)
		n := p.GetName()
		made(n)
		w.Ev("new", int(base[0]), len(n)-len(base))
		book.opened(base, n)
		return p
	}
	cl := func(p goroutines.Pool) {
		n := p.GetName()
		book.closing(n)
		p.Close()
		book.closed(n)
		if p.GetName() != n {
			w.Fail("name-changed", "GetName changed at Close")
		}
	}
	for _, ops := range plans {
		go func() {
			var mine []goroutines.Pool
			for _, o := range ops {
				if o.close {
					if len(mine) > 0 {
						i := o.pos % len(mine)
						cl(mine[i])
						mine = append(mine[:i:i], mine[i+1:]...)
					}
					continue
				}
				if o.pos == 3 {
					// Unnamed pools are not registered.
					u := mkPool(w, o.lim, "", 1)
					if u.GetName() != "" {
						w.Fail("name-format", "an unnamed pool has the name", u.GetName())
					}
					defer u.Close()
				}
				mine = append(mine, mk(bases[o.base], o.lim))
			}
			for _, p := range mine {
				cl(p)
			}
			done <- true
		}()
	}
	for range plans {
		<-done
	}
	// Nothing is open: the plain name is free again.
	p := mk(bases[0], true)
	if p.GetName() != bases[0] {
		w.Fail("name-not-reusable", "with no pool open a new pool did not get its plain name")
	}
	cl(p)
}

// c05Sequence: many pools of one name, closed in an arbitrary order.
func c05Sequence(w *kit.W) {
	n := w.Size(1, 13, 80)
	base := "z" + letters(w.Seed)
	book := &nameBook{w: w, open: map[string]int{}}
	var ps []goroutines.Pool
	for i := 0; i < n; i++ {
		made := book.making(base)
		p := mkPool(w, w.Chance(1, 2), base, 1)
		made(p.GetName())
		book.opened(base, p.GetName())
		ps = append(ps, p)
		if w.Chance(1, 5) {
			k := w.Pick(len(ps))
			book.closing(ps[k].GetName())
			ps[k].Close()
			book.closed(ps[k].GetName())
			ps = append(ps[:k:k], ps[k+1:]...)
		}
	}
	var us []goroutines.Pool
	for k := w.Range(1, 3); k > 0; k-- {
		u := mkPool(w, w.Chance(1, 2), "", 1)
		if u.GetName() != "" {
			w.Fail("name-format", "an unnamed pool has the name", u.GetName())
		}
		us = append(us, u)
	}
	for _, u := range us {
		u.Close()
	}
	for len(ps) > 0 {
		k := w.Pick(len(ps))
		book.closing(ps[k].GetName())
		ps[k].Close()
		book.closed(ps[k].GetName())
		ps = append(ps[:k:k], ps[k+1:]...)
		if w.Chance(1, 4) {
			made := book.making(base)
			p := mkPool(w, w.Chance(1, 2), base, 1)
			made(p.GetName())
			book.opened(base, p.GetName())
			book.closing(p.GetName())
			p.Close()
			book.closed(p.GetName())
		}
	}
	p := mkPool(w, true, base, 1)
	if p.GetName() != base {
		w.Fail("name-not-reusable", "with no pool open a new pool did not get its plain name")
	}
	p.Close()
	for _, size := range []int{0, -1} {
		if _, err := limited.New("", size); err == nil {
			w.Fail("size-accepted", "limited.New accepted the size", size)
		}
		if _, err := pooled.New("", size); err == nil {
			w.Fail("size-accepted", "pooled.New accepted the size", size)
		}
	}
	d := string(rune('0' + w.Pick(10)))
	for _, bad := range []string{"a b", "a-b", "a1", "a" + d, d + "a", "a" + d + "b", d, "-a", "a-", " a", "a ", "é" + d} {
		if _, err := limited.New(bad, 1); err == nil {
			w.Fail("name-accepted", "limited.New accepted the name", bad)
		}
		if _, err := pooled.New(bad, 1); err == nil {
			w.Fail("name-accepted", "pooled.New accepted the name", bad)
		}
	}
}
