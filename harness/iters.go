package main

import (
	"context"
	"errors"
	"runtime"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/verifsim/kit"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/johnsiilver/calloptions"
)

func init() {
	register("C10", Scenario{Name: "access", Weight: 3, Run: c10Access, Race: true},
		Scenario{Name: "shared-pool", Weight: 1, Run: c10Shared, Race: true})
	register("C11", Scenario{Name: "errors", Weight: 4, Run: c11Errors, Race: true},
		Scenario{Name: "stop", Weight: 4, Run: c11Stop},
		Scenario{Name: "cancel", Weight: 2, Run: c11Cancel},
		Scenario{Name: "pool", Weight: 4, Run: c11Pool},
		Scenario{Name: "refused", Weight: 1, Run: c11Refused})
	register("C12", Scenario{Name: "access", Weight: 8, Run: c12Access, Race: true},
		Scenario{Name: "idle-cancel", Weight: 2, Run: c12Idle},
		Scenario{Name: "stop", Weight: 2, Run: c12Stop},
		Scenario{Name: "pool", Weight: 2, Run: c12Pool},
		Scenario{Name: "refused", Weight: 1, Run: c12Refused})
	register("C13", Scenario{Name: "modify", Weight: 8, Run: c13Modify, Race: true},
		Scenario{Name: "bad-option", Weight: 1, Run: c13BadOption},
		Scenario{Name: "held", Weight: 2, Run: c13Held},
		Scenario{Name: "gone", Weight: 1, Run: c13Gone},
		Scenario{Name: "nil-channel", Weight: 1, Run: c13Nil})
}

// iterPool is the pool configuration of an Access: kind 0 gives none, 1
// limited, 2 pooled, 3/4 those with NonBlocking, 5 limited with Caller, 6 a
// pooled one with Caller.
type iterPool struct {
	kind, size int
	p          goroutines.Pool
	opts       []goroutines.SubmitOption
	gate       chan struct{} // set: a job of somebody else holds on until it closes
}

const iterPools = 7

func newIterPool(w *kit.W, kind, size int) *iterPool {
	ip := &iterPool{kind: kind, size: size}
	switch kind {
	case 0:
		ip.size = runtime.NumCPU()
		return ip
	case 1, 3, 5:
		ip.p = newPool(w, true, "", size)
	default:
		ip.p = newPool(w, false, "", size)
	}
	switch kind {
	case 3, 4:
		ip.opts = append(ip.opts, nonBlocking(kind == 3))
		switch w.Pick(6) {
		case 4:
			ip.opts = append(ip.opts, caller(kind == 3))
		case 5:
			ip.opts = append([]goroutines.SubmitOption{caller(kind == 3)}, ip.opts...)
		}
	case 5:
		ip.opts = append(ip.opts, caller(true))
	case 6:
		ip.opts = append(ip.opts, caller(false))
	}
	return ip
}

// hold may give the pool a job of somebody else, which is not done before the
// calls under test have returned.
func (ip *iterPool) hold(w *kit.W) {
	if !w.Chance(1, 5) || ip.p == nil {
		return
	}
	lim := ip.kind == 1 || ip.kind == 3 || ip.kind == 5
	var opts []goroutines.SubmitOption
	if ip.size == 1 {
		if !lim {
			return // it would take the only goroutine
		}
		opts = append(opts, nonBlocking(true))
	}
	ip.gate = make(chan struct{})
	ip.p.Submit(w.Root(), func(context.Context) { <-ip.gate }, opts...)
	w.Hit("foreign-job")
}

func (ip *iterPool) nb() bool { return ip.kind == 3 || ip.kind == 4 }

func (ip *iterPool) slices(stop bool, order int) []slices.SliceOption {
	var o []slices.SliceOption
	if stop {
		o = append(o, slices.WithStopOnErr())
	}
	if ip.p != nil {
		o = append(o, slices.WithPoolOptions(ip.p, ip.opts...))
	}
	if order == 1 && len(o) == 2 {
		o[0], o[1] = o[1], o[0]
	}
	return o
}

func (ip *iterPool) chans(stop bool, order int) []chans.Option {
	var o []chans.Option
	if stop {
		o = append(o, chans.WithStopOnErr())
	}
	if ip.p != nil {
		o = append(o, chans.WithPoolOptions(ip.p, ip.opts...))
	}
	if order == 1 && len(o) == 2 {
		o[0], o[1] = o[1], o[0]
	}
	return o
}

// finish verifies that the pool was left open and usable and closes it.
func (ip *iterPool) finish(w *kit.W) {
	if ip.p == nil {
		return
	}
	var ran kit.Cell
	if ip.gate != nil {
		close(ip.gate)
	}
	if err := ip.p.Submit(w.Root(), func(ctx context.Context) { ran.Add(1) }); err != nil {
		w.Fail("pool-unusable", "Submit on the given pool fails after the call:", err)
	}
	ip.p.Wait()
	if ran.Get() != 1 {
		w.Fail("pool-unusable", "a job submitted to the given pool after the call ran", ran.Get(), "times")
	}
	ip.p.Close()
}

type elem struct {
	pause int
	err   int
	mods  int
	block bool // wait for ctx.Done
}

func genElems(w *kit.W, n int, num, den int) []elem {
	var out []elem
	for i := 0; i < n; i++ {
		e := elem{pause: w.Pick(pauseKinds), mods: w.Pick(3)}
		if w.Chance(num, den) {
			e.err = anErr(w)
		}
		out = append(out, e)
	}
	return out
}

// access runs slices.Access over es and applies the rules that always hold.
type accessRun struct {
	w      *kit.W
	es     []elem
	errs   []error
	cnt    *kit.Counts
	end    *kit.Counts
	ip     *iterPool
	body   func(ctx context.Context, i int)
	closed kit.Cell // Access has returned
	s      []int
	want   []int
}

func newAccess(w *kit.W, es []elem, ip *iterPool) *accessRun {
	a := &accessRun{w: w, es: es, ip: ip, cnt: kit.NewCounts(len(es)), end: kit.NewCounts(len(es))}
	for i, e := range es {
		a.errs = append(a.errs, mkErr(e.err, i))
		a.s = append(a.s, 1000+i)
		a.want = append(a.want, 1000+i)
	}
	return a
}

func (a *accessRun) enter(ctx context.Context, i int) {
	w := a.w
	w.Ev("access", i, 0)
	if a.closed.Get() != 0 {
		w.Fail("late-accessor", "the accessor of element", i, "started after the call returned")
	}
	if a.cnt.Enter(i) > 1 {
		w.Fail("element-twice", "the accessor of element", i, "was called twice")
	}
	if v, _ := ctx.Value(ctxKey{}).(string); v != "access" {
		w.Fail("wrong-context", "the accessor's context is not derived from the given one")
	}
	if a.ip.p != nil && a.ip.p.Running() < 1 {
		w.Fail("not-on-pool", "an accessor is running but the given pool has no running job")
	}
	if !a.ip.nb() {
		if n := a.cnt.Cur(); n > a.ip.size {
			w.Fail("over-limit", n, "accessors are running with a limit of", a.ip.size)
		} else if n == a.ip.size {
			w.Hit("pool-full")
		}
	}
}

func (a *accessRun) leave(i int) {
	a.cnt.Leave()
	a.end.Enter(i)
	a.w.Ev("access-end", i, a.es[i].err)
}

func (a *accessRun) run(ctx context.Context, stop bool, order int) error {
	w := a.w
	ctx = context.WithValue(ctx, ctxKey{}, "access")
	err := slices.Access(ctx, a.s, func(ctx context.Context, i int, v int, m slices.Modifier[int]) error {
		a.enter(ctx, i)
		if v != 1000+i {
			w.Fail("wrong-value", "the accessor of element", i, "got the value", v)
		}
		e := a.es[i]
		pause(w, e.pause)
		if e.block {
			<-ctx.Done()
		}
		if a.body != nil {
			a.body(ctx, i)
		}
		for k := 0; k < e.mods; k++ {
			m(5000 + 10*i + k)
			a.want[i] = 5000 + 10*i + k
		}
		a.leave(i)
		return a.errs[i]
	}, a.ip.slices(stop, order)...)
	a.closed.Set(1)
	w.Ev("return", b2i(err != nil), 0)
	if n := a.cnt.Cur(); n != 0 {
		w.Fail("return-early", "Access returned while", n, "accessors are running")
	}
	for i := range a.es {
		if a.cnt.Get(i) != a.end.Get(i) {
			w.Fail("return-early", "Access returned while the accessor of", i, "is running")
		}
		if a.s[i] != a.want[i] {
			w.Fail("wrong-content", "element", i, "is", a.s[i], "instead of", a.want[i])
		}
	}
	return err
}

// judge applies the error rules. cancelled: the caller's context was cancelled.
func (a *accessRun) judge(err error, stop, cancelled bool) {
	judgeErrs(a.w, a.es, a.errs, a.cnt, a.end, err, true)
	failed := false
	for i := range a.es {
		if a.end.Get(i) == 1 && a.errs[i] != nil {
			failed = true
		}
	}
	for i := range a.es {
		if a.cnt.Get(i) == 0 {
			a.w.Hit("unprocessed")
			if err == nil {
				a.w.Fail("unprocessed-no-error", "element", i, "was not processed but nil was returned")
			}
			if !cancelled && !(stop && failed) {
				a.w.Fail("element-lost", "element", i, "was not processed")
			}
		}
	}
	if err != nil && !failed && !cancelled {
		a.w.Fail("error-invented", "nothing failed but the call returned", err)
	}
}

func judgeErrs(w *kit.W, es []elem, errs []error, cnt, end *kit.Counts, err error, all bool) {
	for i := range es {
		if end.Get(i) != 1 || errs[i] == nil {
			continue
		}
		if err == nil {
			w.Fail("error-lost", "the function of", i, "failed but nil was returned")
		}
		if all && !bareCtx(es[i].err) && !kit.IsErr(w, err, errs[i]) {
			w.Fail("error-lost", "the returned error does not match the error of", i, ":", err)
		}
	}
}

func canceller(w *kit.W, at int, cancel func()) chan bool {
	done := make(chan bool, 1)
	go func() {
		if at >= 0 {
			pause(w, at)
			w.Fault("context-cancel")
			w.Ev("cancel", 0, 0)
			cancel()
		}
		done <- true
	}()
	return done
}

func c10Access(w *kit.W) {
	kind := w.Pick(iterPools)
	size := w.Range(1, 4)
	es := genElems(w, w.Size(0, 7, 600), 1, 6)
	stop := w.Chance(1, 3)
	order := w.Pick(2)
	at := -1
	if w.Chance(1, 3) {
		at = w.Pick(pauseKinds)
	}
	rounds := w.Range(1, 2)
	base := runtime.SimLive()
	ip := newIterPool(w, kind, size)
	ip.hold(w)
	for r := 0; r < rounds; r++ {
		ctx, cancel := context.WithCancel(w.Root())
		cd := canceller(w, at, cancel)
		a := newAccess(w, es, ip)
		err := a.run(ctx, stop, order)
		a.judge(err, stop, at >= 0)
		<-cd
		if at < 0 && ctx.Err() != nil {
			w.Fail("caller-cancelled", "the caller's context was cancelled")
		}
		w.Drain()
		for i := range es {
			if a.s[i] != a.want[i] {
				w.Fail("wrong-content", "element", i, "changed after the return")
			}
		}
		cancel()
	}
	ip.finish(w)
	w.Idle()
	if n := runtime.SimLive(); n > base {
		w.Fail("goroutine-leak", n-base, "goroutines are left behind")
	}
}

// c10Shared: two Accesses on one pool at the same time.
func c10Shared(w *kit.W) {
	kind := w.Range(1, iterPools-1)
	size := w.Range(1, 3)
	stop := []bool{w.Chance(1, 3), w.Chance(1, 3)}
	var es [2][]elem
	for k := range es {
		es[k] = genElems(w, w.Size(1, 4, 80), 1, 5)
	}
	ip := newIterPool(w, kind, size)
	ip.hold(w)
	done := make(chan bool, 2)
	for k := range es {
		go func() {
			a := newAccess(w, es[k], ip)
			err := a.run(w.Root(), stop[k], 0)
			a.judge(err, stop[k], false)
			done <- true
		}()
	}
	<-done
	<-done
	ip.finish(w)
}

// c11Errors: many failing accessors.
func c11Errors(w *kit.W) {
	kind := w.Pick(iterPools)
	size := w.Range(1, 4)
	es := genElems(w, w.Size(1, 6, 150), 1, 2)
	stop := w.Chance(1, 3)
	at := -1
	if w.Chance(1, 4) {
		at = w.Pick(pauseKinds)
	}
	ip := newIterPool(w, kind, size)
	ip.hold(w)
	ctx, cancel := context.WithCancel(w.Root())
	cd := canceller(w, at, cancel)
	a := newAccess(w, es, ip)
	err := a.run(ctx, stop, w.Pick(2))
	a.judge(err, stop, at >= 0)
	<-cd
	if at < 0 && ctx.Err() != nil {
		w.Fail("caller-cancelled", "the caller's context was cancelled")
	}
	cancel()
	ip.finish(w)
}

// c11Stop: one accessor fails, the others hold their slots until they see the
// cancellation, so which elements may be handed out is known.
func c11Stop(w *kit.W) {
	kind := w.OneOf(0, 1, 2, 5, 6)
	size := w.Range(1, 4)
	n := w.Size(1, 8, 150)
	fpos := w.Pick(8)
	errKind := w.OneOf(1, 2, 3, 6)
	pauses := make([]int, n)
	for i := range pauses {
		pauses[i] = w.Pick(pauseKinds)
	}
	ip := newIterPool(w, kind, size)
	size = ip.size
	f := fpos % min(n, size)
	if size == 1 {
		f = fpos % n
	}
	es := make([]elem, n)
	for i := range es {
		es[i] = elem{pause: pauses[i], block: size > 1 && i != f}
	}
	es[f].err = errKind
	ctx, cancel := context.WithCancel(w.Root())
	defer cancel()
	a := newAccess(w, es, ip)
	err := a.run(ctx, true, w.Pick(2))
	a.judge(err, true, false)
	last := size - 1
	if size == 1 {
		last = f
	}
	for i := last + 1; i < n; i++ {
		if a.cnt.Get(i) != 0 {
			w.Fail("not-stopped", "element", i, "was handed out after the error of", f, "; limit", size)
		}
	}
	if last+1 < n {
		w.Hit("elements-after-stop")
	}
	if ctx.Err() != nil {
		w.Fail("caller-cancelled", "the caller's context was cancelled")
	}
	ip.finish(w)
}

// c11Cancel: the caller cancels while accessors wait for it.
func c11Cancel(w *kit.W) {
	kind := w.Pick(iterPools)
	size := w.Range(1, 3)
	n := w.Range(1, 6)
	before := w.Chance(1, 6)
	errAt := w.Pick(n + 1)
	stop := w.Chance(1, 3)
	es := make([]elem, n)
	for i := range es {
		es[i] = elem{pause: w.OneOf(0, 1, 6), block: true}
	}
	if errAt < n {
		es[errAt].err = 1 // fails only after the cancellation
	}
	ip := newIterPool(w, kind, size)
	ctx, cancel := context.WithCancel(w.Root())
	if before {
		cancel()
	}
	res := make(chan error, 1)
	a := newAccess(w, es, ip)
	go func() { res <- a.run(ctx, stop, 0) }()
	w.Drain()
	if a.closed.Get() != 0 && !before {
		w.Fail("return-early", "Access returned although accessors are running")
	}
	cancel()
	err := <-res
	a.judge(err, stop, true)
	if n > ip.size && !ip.nb() && err == nil {
		w.Fail("unprocessed-no-error", "a cancellation left elements unprocessed but nil was returned")
	}
	ip.finish(w)
}

// c11Pool: the given pool and its options are what runs the accessors.
func c11Pool(w *kit.W) {
	kind := w.Pick(iterPools)
	size := w.Range(1, 3)
	ip := newIterPool(w, kind, size)
	size = ip.size
	n := size
	if ip.nb() {
		n = size + w.Range(0, 4)
	}
	es := make([]elem, n)
	a := newAccess(w, es, ip)
	all := make(chan struct{})
	in := kit.NewCounts(1)
	a.body = func(ctx context.Context, i int) {
		// Everybody waits for everybody: needs the whole capacity.
		if in.Enter(0) == n {
			if ip.p != nil && ip.p.Running() < n {
				w.Fail("not-on-pool", n, "accessors are running but the given pool runs", ip.p.Running())
			}
			close(all)
		}
		<-all
	}
	err := a.run(w.Root(), w.Chance(1, 2), 0)
	a.judge(err, false, false)
	ip.finish(w)
}

type badSliceOpt struct {
	slices.SliceOption
	calloptions.CallOption
}

// c11Refused: an option that fails, the empty slice.
func c11Refused(w *kit.W) {
	s := make([]int, w.Range(0, 3))
	empty := w.Chance(1, 3)
	if empty {
		s = s[:0]
	}
	ip := newIterPool(w, w.Pick(iterPools), w.Range(1, 2))
	opts := ip.slices(w.Chance(1, 2), w.Pick(2))
	if !empty {
		bad := badSliceOpt{CallOption: calloptions.New(func(any) error { return &myErr{77} })}
		k := w.Pick(len(opts) + 1)
		opts = append(opts[:k:k], append([]slices.SliceOption{bad}, opts[k:]...)...)
	}
	err := slices.Access(w.Root(), s, func(ctx context.Context, i int, v int, mod slices.Modifier[int]) error {
		w.Fail("element-invented", "the accessor was called for", i)
		return nil
	}, opts...)
	w.Drain()
	if empty && err != nil {
		w.Fail("error-invented", "Access of an empty slice returned", err)
	}
	var me *myErr
	if !empty && !errors.As(err, &me) {
		w.Fail("error-lost", "an option failed but Access returned", err)
	}
	ip.finish(w)
}

// ---- chans -----------------------------------------------------------------

type chanRun struct {
	w      *kit.W
	es     []elem
	errs   []error
	cnt    *kit.Counts
	end    *kit.Counts
	sent   []kit.Cell
	nclose kit.Cell
	ip     *iterPool
	closed kit.Cell
	in     chan int
	quit   chan struct{}
	pdone  chan bool
}

func newChanRun(w *kit.W, es []elem, ip *iterPool, buf int) *chanRun {
	c := &chanRun{w: w, es: es, ip: ip, cnt: kit.NewCounts(len(es)), end: kit.NewCounts(len(es)), sent: make([]kit.Cell, len(es)),
		in: make(chan int, buf), quit: make(chan struct{}), pdone: make(chan bool, 1)}
	for i, e := range es {
		c.errs = append(c.errs, mkErr(e.err, i))
	}
	return c
}

// produce sends every element after its gap and closes the input if asked.
func (c *chanRun) produce(gaps []int, cl bool) {
	go func() {
		for i := range c.es {
			pause(c.w, gaps[i])
			c.w.Ev("send", i, 0)
			c.sent[i].Set(1) // may have been received from now on
			select {
			case c.in <- i:
			case <-c.quit:
				c.pdone <- true
				return
			}
		}
		if cl {
			pause(c.w, gaps[len(c.es)])
			c.nclose.Set(1)
			close(c.in)
		}
		c.pdone <- true
	}()
}

func (c *chanRun) enter(ctx context.Context, i int) {
	w := c.w
	w.Ev("access", i, 0)
	if c.closed.Get() != 0 {
		w.Fail("late-accessor", "the function for value", i, "started after the call returned")
	}
	if i < 0 || i >= len(c.es) || c.sent[i].Get() == 0 {
		w.Fail("value-invented", "the function was called with a value that was not sent")
	}
	if c.cnt.Enter(i) > 1 {
		w.Fail("value-twice", "the function was called twice for value", i)
	}
	if v, _ := ctx.Value(ctxKey{}).(string); v != "access" {
		w.Fail("wrong-context", "the function's context is not derived from the given one")
	}
	if c.ip.p != nil && c.ip.p.Running() < 1 {
		w.Fail("not-on-pool", "a function is running but the given pool has no running job")
	}
	if !c.ip.nb() {
		if n := c.cnt.Cur(); n > c.ip.size {
			w.Fail("over-limit", n, "functions are running with a limit of", c.ip.size)
		} else if n == c.ip.size {
			w.Hit("pool-full")
		}
	}
}

func (c *chanRun) leave(i int) {
	c.cnt.Leave()
	c.end.Enter(i)
	c.w.Ev("access-end", i, c.es[i].err)
}

func (c *chanRun) returned(what string, err error) {
	w := c.w
	c.closed.Set(1)
	w.Ev("return", b2i(err != nil), 0)
	if n := c.cnt.Cur(); n != 0 {
		w.Fail("return-early", what, "returned while", n, "functions are running")
	}
	for i := range c.es {
		if c.cnt.Get(i) != c.end.Get(i) {
			w.Fail("return-early", what, "returned while the function for", i, "is running")
		}
	}
}

func (c *chanRun) run(ctx context.Context, stop bool, order int) error {
	w := c.w
	ctx = context.WithValue(ctx, ctxKey{}, "access")
	err := chans.Access(ctx, c.in, func(ctx context.Context, i int) error {
		c.enter(ctx, i)
		e := c.es[i]
		pause(w, e.pause)
		if e.block {
			<-ctx.Done()
		}
		c.leave(i)
		return c.errs[i]
	}, c.ip.chans(stop, order)...)
	c.returned("Access", err)
	return err
}

// judge applies the rules at the return; cl tells whether the input was closed
// before it.
func (c *chanRun) judge(err error, cl, stop, cancelled bool) {
	w := c.w
	judgeErrs(w, c.es, c.errs, c.cnt, c.end, err, !cancelled)
	failed, missed := false, -1
	for i := range c.es {
		if c.end.Get(i) == 1 && c.errs[i] != nil {
			failed = true
		}
		if c.cnt.Get(i) == 0 {
			missed = i
		}
	}
	ended := cancelled || (stop && failed)
	if !ended {
		if !cl {
			w.Fail("return-early", "the call returned although the input is open and nothing was cancelled")
		}
		if missed >= 0 {
			w.Fail("value-lost", "value", missed, "was sent but not handled")
		}
		if err != nil && !failed {
			w.Fail("error-invented", "nothing failed but the call returned", err)
		}
	}
	if (!cl || missed >= 0) && err == nil {
		w.Fail("unprocessed-no-error", "processing ended early but nil was returned")
	}
	if ended && missed >= 0 {
		w.Hit("ended-early")
	}
}

func c12Access(w *kit.W) {
	kind := w.Pick(iterPools)
	size := w.Range(1, 4)
	es := genElems(w, w.Size(0, 6, 300), 1, 5)
	gaps := make([]int, len(es)+1)
	for i := range gaps {
		gaps[i] = w.Pick(pauseKinds)
	}
	buf := w.OneOf(0, 1, 3, len(es))
	pre := buf == len(es) && w.Chance(1, 2) // all is sent before the call
	stop := w.Chance(1, 3)
	order := w.Pick(2)
	at := -1
	if w.Chance(1, 3) {
		at = w.Pick(pauseKinds)
	}
	cl := at < 0 || w.Chance(1, 2)
	base := runtime.SimLive()
	ip := newIterPool(w, kind, size)
	ip.hold(w)
	ctx, cancel := context.WithCancel(w.Root())
	c := newChanRun(w, es, ip, buf)
	cd := canceller(w, at, cancel)
	c.produce(gaps, cl)
	if pre {
		<-c.pdone
		c.pdone <- true
	}
	err := c.run(ctx, stop, order)
	c.judge(err, c.nclose.Get() == 1, stop, at >= 0)
	close(c.quit)
	<-cd
	<-c.pdone
	if at < 0 && ctx.Err() != nil {
		w.Fail("caller-cancelled", "the caller's context was cancelled")
	}
	w.Drain() // late starts
	cancel()
	ip.finish(w)
	w.Idle()
	if n := runtime.SimLive(); n > base {
		w.Fail("goroutine-leak", n-base, "goroutines are left behind")
	}
}

// c12Idle: the input goes idle for ever; only the cancellation ends the call.
func c12Idle(w *kit.W) {
	kind := w.Pick(iterPools)
	size := w.Range(1, 3)
	es := genElems(w, w.Range(0, 3), 0, 1)
	stop := w.Chance(1, 2)
	late := w.Chance(1, 2)
	ip := newIterPool(w, kind, size)
	ctx, cancel := context.WithCancel(w.Root())
	c := newChanRun(w, es, ip, w.OneOf(0, 1))
	c.produce(make([]int, len(es)+1), false)
	res := make(chan error, 1)
	go func() { res <- c.run(ctx, stop, 0) }()
	if late {
		w.Drain()
		if c.closed.Get() != 0 {
			w.Fail("return-early", "the call returned although the input is open and nothing was cancelled")
		}
		for i := range es {
			if c.end.Get(i) != 1 {
				w.Fail("value-stuck", "value", i, "was sent and nothing is moving but it was not handled")
			}
		}
		w.Hit("idle-input")
	}
	w.Fault("context-cancel")
	cancel()
	err := <-res
	if err == nil {
		w.Fail("unprocessed-no-error", "the context ended the call but nil was returned")
	}
	close(c.quit)
	<-c.pdone
	ip.finish(w)
}

// c12Stop: an accessor error ends the call although the input stays open.
func c12Stop(w *kit.W) {
	kind := w.Pick(iterPools)
	size := w.Range(1, 3)
	n := w.Range(1, 5)
	f := w.Pick(n)
	es := genElems(w, n, 0, 1)
	es[f].err = w.OneOf(1, 2, 3, 6)
	gaps := make([]int, n+1)
	for i := range gaps {
		gaps[i] = w.Pick(pauseKinds)
	}
	ip := newIterPool(w, kind, size)
	ctx, cancel := context.WithCancel(w.Root())
	c := newChanRun(w, es, ip, w.OneOf(0, 2))
	c.produce(gaps, false)
	err := c.run(ctx, true, 0)
	c.judge(err, false, true, false)
	if ctx.Err() != nil {
		w.Fail("caller-cancelled", "the caller's context was cancelled")
	}
	if !ip.nb() && ip.size == 1 {
		for i := f + 1; i < n; i++ {
			if c.cnt.Get(i) != 0 {
				w.Fail("not-stopped", "value", i, "was handled after the error of", f, "with a limit of one")
			}
		}
	}
	close(c.quit)
	<-c.pdone
	cancel()
	ip.finish(w)
}

func c12Pool(w *kit.W) {
	kind := w.Pick(iterPools)
	size := w.Range(1, 3)
	ip := newIterPool(w, kind, size)
	n := ip.size
	if ip.nb() {
		n += w.Range(0, 4)
	}
	in := make(chan int)
	go func() {
		for i := 0; i < n; i++ {
			in <- i
		}
		close(in)
	}()
	all := make(chan struct{})
	cnt := kit.NewCounts(1)
	err := chans.Access(w.Root(), in, func(ctx context.Context, i int) error {
		if cnt.Enter(0) == n {
			if ip.p != nil && ip.p.Running() < n {
				w.Fail("not-on-pool", n, "functions are running but the given pool runs", ip.p.Running())
			}
			close(all)
		}
		<-all
		return nil
	}, ip.chans(false, 0)...)
	if err != nil {
		w.Fail("error-invented", "nothing failed but the call returned", err)
	}
	ip.finish(w)
}

// ---- Modify ----------------------------------------------------------------

type badOpt struct {
	chans.Option
	calloptions.CallOption
}

// whose returns the value whose modifier returned err.
//
//go:norace
//go:noinline
func (c *chanRun) whose(err error, got []int) int {
	id := -1
	for i, e := range c.errs {
		if e != nil && !shared(e) && kit.IsErr(c.w, err, e) {
			id = i
		}
	}
	if id >= 0 {
		return id
	}
	// A bare context error cannot be told apart.
	for i, e := range c.errs {
		if e != nil && shared(e) && kit.IsErr(c.w, err, e) && got[i] == 0 && c.cnt.Get(i) != 0 {
			return i
		}
	}
	return -1
}

func c13Modify(w *kit.W) {
	kind := w.Pick(iterPools)
	size := w.Range(1, 4)
	es := genElems(w, w.Size(0, 6, 300), 1, 5)
	gaps := make([]int, len(es)+1)
	cgaps := make([]int, len(es)+1)
	for i := range gaps {
		gaps[i] = w.Pick(pauseKinds)
		cgaps[i] = w.Pick(pauseKinds)
	}
	ibuf, obuf := w.OneOf(0, 1, 3, len(es)), w.OneOf(0, 1, 3)
	pre := ibuf == len(es) && w.Chance(1, 2) // all is sent before the call
	late := w.Chance(1, 6)                   // the results are taken after the call
	if late {
		obuf = len(es)
	}
	stop := w.Chance(1, 3)
	order := w.Pick(2)
	at := -1
	if w.Chance(1, 3) {
		at = w.Pick(pauseKinds)
	}
	cl := at < 0 || w.Chance(1, 2)
	ip := newIterPool(w, kind, size)
	ip.hold(w)
	ctx, cancel := context.WithCancel(w.Root())
	c := newChanRun(w, es, ip, ibuf)
	out := make(chan chans.StreamResult[int], obuf)
	cd := canceller(w, at, cancel)
	c.produce(gaps, cl)
	if pre {
		<-c.pdone
		c.pdone <- true
	}
	got := make([]int, len(es))
	cdone := make(chan bool, 1)
	consume := func() {
		k := 0
		for {
			var r chans.StreamResult[int]
			ok := true
			if late {
				select {
				case r, ok = <-out:
				default:
					w.Fail("open-at-return", "Modify returned but its output is not closed")
				}
			} else {
				r, ok = <-out
			}
			if !ok {
				break
			}
			w.Ev("result", r.Value, b2i(r.Err != nil))
			id := -1
			if r.Err != nil {
				id = c.whose(r.Err, got)
				if id < 0 {
					w.Fail("result-invented", "an error result matches no modifier error:", r.Err)
				}
			} else {
				id = (r.Value - 7) / 10
				if r.Value != id*10+7 || id < 0 || id >= len(es) {
					w.Fail("result-invented", "the result", r.Value, "is not one of a modifier")
				}
				if c.errs[id] != nil {
					w.Fail("result-invented", "value", id, "failed but has a result without error")
				}
			}
			if c.cnt.Get(id) == 0 {
				w.Fail("result-invented", "a result for", id, "came before its modifier was called")
			}
			got[id]++
			if got[id] > 1 {
				w.Fail("result-twice", "two results for value", id)
			}
			pause(w, cgaps[k%len(cgaps)])
			k++
		}
		w.Ev("closed", 0, 0)
		if n := c.cnt.Cur(); n != 0 {
			w.Fail("closed-early", "the output was closed while", n, "modifiers are running")
		}
		cdone <- true
	}
	if !late {
		go consume()
	}
	err := chans.Modify(context.WithValue(ctx, ctxKey{}, "access"), c.in, out, func(ctx context.Context, i int) (int, error) {
		c.enter(ctx, i)
		pause(w, es[i].pause)
		c.leave(i)
		if c.errs[i] != nil {
			return -1, c.errs[i]
		}
		return i*10 + 7, nil
	}, ip.chans(stop, order)...)
	c.returned("Modify", err)
	c.judge(err, c.nclose.Get() == 1, stop, at >= 0)
	if late {
		consume()
	}
	<-cdone
	failed := false
	for i := range es {
		failed = failed || (c.end.Get(i) == 1 && c.errs[i] != nil)
	}
	if at < 0 && !(stop && failed) {
		for i := range es {
			if got[i] != 1 {
				w.Fail("result-lost", "value", i, "has", got[i], "results")
			}
		}
		w.Hit("all-results")
	}
	for i := range es {
		if c.end.Get(i) == 1 && c.errs[i] == nil && got[i] != 1 {
			w.Fail("result-lost", "the modifier of", i, "succeeded but has", got[i], "results")
		}
	}
	close(c.quit)
	<-cd
	<-c.pdone
	w.Drain()
	cancel()
	ip.finish(w)
}

func c13BadOption(w *kit.W) {
	n := w.Range(0, 2)
	obuf := w.OneOf(0, 1)
	first := w.Chance(1, 2)
	bad := badOpt{CallOption: calloptions.New(func(any) error { return &myErr{77} })}
	in := make(chan int, 3)
	for i := 0; i < n; i++ {
		in <- i
	}
	out := make(chan chans.StreamResult[int], obuf)
	opts := []chans.Option{bad}
	if w.Chance(1, 2) {
		if first {
			opts = append(opts, chans.WithStopOnErr())
		} else {
			opts = []chans.Option{chans.WithStopOnErr(), bad}
		}
	}
	done := make(chan bool, 1)
	go func() {
		for range out {
			w.Fail("result-invented", "a result although the option is invalid")
		}
		done <- true
	}()
	err := chans.Modify(w.Root(), in, out, func(ctx context.Context, i int) (int, error) {
		w.Fail("late-accessor", "a modifier ran although the option is invalid")
		return 0, nil
	}, opts...)
	if err == nil {
		w.Fail("error-lost", "an invalid option was accepted")
	}
	<-done
}

// c12Refused: a nil input, an option that fails.
func c12Refused(w *kit.W) {
	ip := newIterPool(w, w.Pick(iterPools), w.Range(1, 2))
	opts := ip.chans(w.Chance(1, 2), w.Pick(2))
	var in chan int
	refused := w.Chance(1, 2)
	if refused {
		in = make(chan int, 2)
		in <- 1
		bad := badOpt{CallOption: calloptions.New(func(any) error { return &myErr{77} })}
		k := w.Pick(len(opts) + 1)
		opts = append(opts[:k:k], append([]chans.Option{bad}, opts[k:]...)...)
	}
	err := chans.Access(w.Root(), in, func(ctx context.Context, i int) error {
		w.Fail("value-invented", "the accessor was called with", i)
		return nil
	}, opts...)
	w.Drain()
	var me *myErr
	if refused && !errors.As(err, &me) {
		w.Fail("error-lost", "an option failed but Access returned", err)
	}
	ip.finish(w)
}

// c13Nil: channels that are nil.
func c13Nil(w *kit.W) {
	ip := newIterPool(w, w.Pick(iterPools), w.Range(1, 2))
	opts := ip.chans(w.Chance(1, 2), w.Pick(2))
	var in chan int
	var out chan chans.StreamResult[int]
	which := w.Pick(3)
	if which == 1 {
		in = make(chan int, 1)
		in <- 1
		if w.Chance(1, 2) {
			close(in)
		}
	}
	if which == 2 {
		out = make(chan chans.StreamResult[int], 1)
	}
	err := chans.Modify(w.Root(), in, out, func(ctx context.Context, i int) (int, error) {
		w.Fail("value-invented", "the modifier was called with", i)
		return 0, nil
	}, opts...)
	w.Drain()
	if err == nil {
		w.Fail("error-lost", "Modify accepted a nil channel")
	}
	ip.finish(w)
}

// c13Gone: every modifier fails, and the consumer cancels the context and stops
// receiving.
func c13Gone(w *kit.W) {
	kind := w.Pick(iterPools)
	size := w.Range(1, 3)
	n := w.Range(1, 6)
	take := w.Pick(n)
	stop := w.Chance(1, 3)
	cl := w.Chance(1, 2)
	obuf := w.OneOf(0, 0, 1, 2)
	pauses := make([]int, n)
	for i := range pauses {
		pauses[i] = w.Pick(pauseKinds)
	}
	late := w.Pick(pauseKinds)
	ip := newIterPool(w, kind, size)
	ctx, cancel := context.WithCancel(w.Root())
	in := make(chan int, n)
	for i := 0; i < n; i++ {
		in <- i
	}
	if cl {
		close(in)
	}
	out := make(chan chans.StreamResult[int], obuf)
	cd := make(chan bool, 1)
	go func() {
		for i := 0; i < take; i++ {
			if r, ok := <-out; !ok {
				break
			} else if r.Err == nil {
				w.Fail("result-invented", "a result without error although every modifier failed")
			}
		}
		pause(w, late)
		w.Fault("context-cancel")
		w.Fault("consumer-gone")
		cancel()
		cd <- true
	}()
	running := kit.NewCounts(1)
	err := chans.Modify(ctx, in, out, func(ctx context.Context, i int) (int, error) {
		running.Enter(0)
		pause(w, pauses[i])
		running.Leave()
		return 0, &myErr{i}
	}, ip.chans(stop, w.Pick(2))...)
	if k := running.Cur(); k != 0 {
		w.Fail("closed-early", "Modify returned while", k, "modifiers are running")
	}
	if err == nil {
		w.Fail("error-lost", "every modifier failed or was skipped but nil was returned")
	}
	<-cd
	for k := 0; ; k++ {
		r, ok := <-out
		if !ok {
			break
		}
		if r.Err == nil || k >= obuf {
			w.Fail("result-invented", "a result that no modifier sent")
		}
	}
	ip.finish(w)
}

// c13Held: modifiers are held while the context is cancelled; the output must
// stay open until they are done.
func c13Held(w *kit.W) {
	kind := w.Pick(iterPools)
	size := w.Range(1, 3)
	n := w.Range(1, 4)
	fails := w.Chance(1, 2)
	stop := w.Chance(1, 2)
	cl := w.Chance(1, 2)
	ip := newIterPool(w, kind, size)
	ctx, cancel := context.WithCancel(w.Root())
	in := make(chan int)
	quit := make(chan struct{})
	pd := make(chan bool, 1)
	go func() {
		defer func() { pd <- true }()
		for i := 0; i < n; i++ {
			select {
			case in <- i:
			case <-quit:
				return
			}
		}
		if cl {
			close(in)
		}
	}()
	out := make(chan chans.StreamResult[int])
	gate := make(chan struct{})
	run := kit.NewCounts(1)
	var closed, returned kit.Cell
	cdone := make(chan bool, 1)
	go func() {
		for range out {
		}
		closed.Set(1)
		if run.Cur() != 0 {
			w.Fail("closed-early", "the output was closed while", run.Cur(), "modifiers are running")
		}
		cdone <- true
	}()
	rd := make(chan error, 1)
	go func() {
		err := chans.Modify(ctx, in, out, func(ctx context.Context, i int) (int, error) {
			run.Enter(0)
			<-gate
			run.Leave()
			if fails {
				return 0, &myErr{i}
			}
			return i, nil
		}, ip.chans(stop, 0)...)
		returned.Set(1)
		rd <- err
	}()
	w.Idle()
	cancel()
	w.Fault("context-cancel")
	w.Idle()
	if run.Cur() > 0 && (closed.Get() != 0 || returned.Get() != 0) {
		w.Fail("closed-early", "after the cancellation Modify returned or closed its output while", run.Cur(), "modifiers are running")
	}
	if run.Cur() > 0 {
		w.Hit("held-over-cancel")
	}
	close(gate)
	<-rd
	<-cdone
	close(quit)
	<-pd
	ip.finish(w)
}
