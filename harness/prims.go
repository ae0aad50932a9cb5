package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/verifsim/kit"
	"github.com/gostdlib/concurrency/prim/atomics"
	"github.com/gostdlib/concurrency/prim/wait"
)

func init() {
	register("C06", Scenario{Name: "history", Weight: 3, Run: c06History, Race: true},
		Scenario{Name: "snapshot", Weight: 1, Run: c06Snapshot, Race: true},
		Scenario{Name: "pool-use", Weight: 1, Run: c06PoolUse, Race: true})
	register("C07", Scenario{Name: "group", Weight: 6, Run: c07Group, Race: true},
		Scenario{Name: "shared-pool", Weight: 1, Run: c07Shared},
		Scenario{Name: "refused", Weight: 1, Run: c07Refused},
		Scenario{Name: "gauges", Weight: 2, Run: c07Gauges})
	register("C08", Scenario{Name: "errors", Weight: 7, Run: c08Errors, Race: true},
		Scenario{Name: "together", Weight: 2, Run: c08Together},
		Scenario{Name: "refused", Weight: 1, Run: c07Refused})
	register("C09", Scenario{Name: "on-error", Weight: 2, Run: c09OnError, Race: true},
		Scenario{Name: "reuse", Weight: 1, Run: c09Reuse})
	register("C14", Scenario{Name: "history", Weight: 3, Run: c14History, Race: true},
		Scenario{Name: "counter", Weight: 1, Run: c14Counter, Race: true},
		Scenario{Name: "blocked-writer", Weight: 1, Run: c14Blocked},
		Scenario{Name: "panic", Weight: 1, Run: c14Panic})
}

// myErr is a distinguishable error.
type myErr struct{ id int }

func (e *myErr) Error() string { return "err" + strconv.Itoa(e.id) }

// ---- C06 -------------------------------------------------------------------

func c06History(w *kit.W) {
	const (
		kRecord = iota
		kFirst
		kAll
	)
	gor := w.Range(1, 4)
	type op struct{ kind, id, mut int }
	plans := make([][]op, gor)
	id := 0
	for g := range plans {
		for n := w.Range(1, 4); n > 0; n-- {
			o := op{kind: w.OneOf(kRecord, kRecord, kFirst, kAll), mut: w.Pick(3)}
			if o.kind == kRecord {
				if id >= 12 {
					o.kind = kAll
				} else {
					id++
					o.id = id
					if id > 1 && w.Chance(1, 4) { // the same error again
						o.id = 1 + w.Pick(id-1)
					}
				}
			}
			plans[g] = append(plans[g], o)
		}
	}
	var e goroutines.Errors
	errs := make([]error, 16)
	for i := range errs {
		errs[i] = mkErr([]int{1, 1, 2, 8, 3, 11, 10, 7, 1, 6, 8, 9, 4, 1, 1, 1}[i], i)
	}
	enc := func(es []error) int {
		v := 0
		for _, err := range es {
			d := 15
			for i := 1; i < 15; i++ {
				if sameErr(err, errs[i]) {
					d = i
				}
			}
			v = v<<4 | d
			if v > 1<<56 {
				break
			}
		}
		return v
	}
	h := &kit.Hist{W: w}
	done := make(chan bool, gor)
	for g, ops := range plans {
		go func() {
			for _, o := range ops {
				var i int
				switch o.kind {
				case kRecord:
					w.Do(func() { i = h.Call(g, kRecord, o.id) })
					e.Record(errs[o.id])
					w.Do(func() { h.Return(i, 0, true) })
				case kFirst:
					w.Do(func() { i = h.Call(g, kFirst, 0) })
					err := e.Error()
					w.Do(func() {
						v := 0
						if err != nil {
							v = enc([]error{err})
						}
						h.Return(i, v, true)
					})
				case kAll:
					w.Do(func() { i = h.Call(g, kAll, 0) })
					es := e.Errors()
					w.Do(func() { h.Return(i, enc(es), true) })
					// The slice is ours now.
					switch o.mut {
					case 1:
						for k := range es {
							es[k] = errs[14]
						}
					case 2:
						es = append(es, errs[13])
						w.Point()
						if !sameErr(es[len(es)-1], errs[13]) {
							w.Fail("snapshot-shared", "an element appended to a slice returned by Errors was overwritten")
						}
					}
				}
			}
			done <- true
		}()
	}
	for range plans {
		<-done
	}
	i := h.Call(99, kAll, 0)
	h.Return(i, enc(e.Errors()), true)
	if kit.RaceMode {
		return
	}
	ok, fin := kit.Linearizable(kit.Model{Init: "", Step: func(s string, o *kit.Op) (string, bool) {
		switch o.Kind {
		case kRecord:
			return s + string(rune('a'+o.Arg)), true
		case kFirst:
			if s == "" {
				return s, o.Out == 0
			}
			return s, o.Out == int(s[0]-'a')
		}
		v := 0
		for k := 0; k < len(s); k++ {
			v = v<<4 | int(s[k]-'a')
		}
		return s, v == o.Out
	}}, h.Ops, 200000)
	if fin && !ok {
		w.Fail("errors-history", "the history of Record/Error/Errors calls is not that of a list")
	}
	if !fin {
		w.Hit("lin-gave-up")
	}
	w.Hit("lin-checked")
}

// c06Snapshot: what a caller holds never changes.
func c06Snapshot(w *kit.W) {
	pre := w.Size(0, 5, 300)
	more := w.Size(1, 4, 100)
	snaps := w.Range(1, 3)
	var e goroutines.Errors
	for i := 0; i < pre; i++ {
		e.Record(&myErr{i})
	}
	done := make(chan bool, snaps+1)
	go func() {
		for i := 0; i < more; i++ {
			e.Record(&myErr{1<<20 + i})
		}
		done <- true
	}()
	for s := 0; s < snaps; s++ {
		go func() {
			a := e.Errors()
			var cp []error
			w.Do(func() { cp = append(cp, a...) })
			w.Spin(3)
			if s == 0 && len(a) > 0 {
				a[0] = &myErr{1 << 30}
				cp[0] = a[0]
			}
			w.Spin(3)
			if len(a) != len(cp) {
				w.Fail("snapshot-changed", "length changed")
			}
			for i := range cp {
				if a[i] != cp[i] {
					w.Fail("snapshot-changed", "an element of a returned slice changed under its owner")
				}
			}
			for _, err := range e.Errors() {
				if err.(*myErr).id == 1<<30 && s != 0 {
					w.Fail("snapshot-shared", "a modification of a returned slice is visible to another caller")
				}
			}
			done <- true
		}()
	}
	for i := 0; i <= snaps; i++ {
		<-done
	}
	all := e.Errors()
	if len(all) != pre+more {
		w.Fail("errors-lost", "recorded", pre+more, "errors, Errors returns", len(all))
	}
	for _, err := range all {
		if err.(*myErr).id == 1<<30 {
			w.Fail("snapshot-shared", "a modification of a returned slice is visible to another caller")
		}
	}
}

// c06PoolUse is the documented use: jobs of a pool record, Wait, then read.
func c06PoolUse(w *kit.W) {
	lim := w.Chance(1, 2)
	size := w.Size(1, 4, 20)
	n := w.Size(0, 6, 100)
	var pauses []int
	for i := 0; i < n; i++ {
		pauses = append(pauses, w.Pick(pauseKinds))
	}
	p := newPool(w, lim, "", size)
	e := goroutines.Errors{}
	for i := 0; i < n; i++ {
		p.Submit(w.Root(), func(ctx context.Context) {
			pause(w, pauses[i])
			if i%4 != 3 {
				e.Record(&myErr{i})
			}
			if i%2 == 0 {
				e.Error()
			}
		})
	}
	p.Wait()
	want := 0
	for i := 0; i < n; i++ {
		if i%4 != 3 {
			want++
		}
	}
	es := e.Errors()
	if len(es) != want {
		w.Fail("errors-lost", want, "errors were recorded, Errors returns", len(es))
	}
	seen := map[int]bool{}
	for _, err := range es {
		id := err.(*myErr).id
		if seen[id] {
			w.Fail("errors-twice", "error", id, "is listed twice")
		}
		seen[id] = true
	}
	if (e.Error() == nil) != (want == 0) || (want > 0 && e.Error() != es[0]) {
		w.Fail("first-error", "Error is not the first recorded error")
	}
	p.Close()
}

// ---- C07..C09 --------------------------------------------------------------

type gfn struct {
	id     int
	pause  int
	err    int // 0 nil, 1 own error, 2 wrapped ctx error, 3 bare Canceled, 4 bare DeadlineExceeded
	dead   bool
	block  bool // wait for ctx.Done
	kids   []*gfn
	cancel bool
	exit   bool // ends its goroutine instead of returning nil
}

type ggroup struct {
	w    *kit.W
	g    *wait.Group
	pool goroutines.Pool
	kind int
	size int
	cnt  *kit.Counts
	end  *kit.Counts
	live kit.Cell
	errs []error
	ctxs []context.Context
	dead []kit.Cell
}

var groupKinds = 6

// newGroup makes a group without a pool (0), on a limited (1) or pooled (2)
// pool, or on one with the NonBlocking option (3,4); 5: limited with Caller.
func newGroup(w *kit.W, kind, size, fns int) *ggroup {
	gg := &ggroup{w: w, kind: kind, size: size, cnt: kit.NewCounts(fns), end: kit.NewCounts(fns)}
	gg.errs = make([]error, fns)
	gg.ctxs = make([]context.Context, fns)
	g := &wait.Group{}
	switch kind {
	case 1, 3, 5:
		gg.pool = newPool(w, true, "", size)
	case 2, 4:
		gg.pool = newPool(w, false, "", size)
	}
	g.Pool = gg.pool
	switch kind {
	case 3, 4:
		g.PoolOptions = []goroutines.SubmitOption{nonBlocking(kind == 3)}
		switch w.Pick(6) {
		case 4:
			g.PoolOptions = append(g.PoolOptions, caller(kind == 3))
		case 5:
			g.PoolOptions = append([]goroutines.SubmitOption{caller(kind == 3)}, g.PoolOptions...)
		}
	case 5:
		g.PoolOptions = []goroutines.SubmitOption{caller(true)}
	}
	gg.g = g
	return gg
}

func (gg *ggroup) canNest() bool { return gg.kind == 0 || gg.kind == 3 || gg.kind == 4 }

func (gg *ggroup) close() {
	if gg.pool != nil {
		gg.pool.Close()
	}
}

func mkErr(kind, id int) error {
	switch kind {
	case 1:
		return &myErr{id}
	case 2:
		return fmt.Errorf("fn %d: %w", id, context.Canceled)
	case 3:
		return context.Canceled
	case 4:
		return context.DeadlineExceeded
	case 5:
		return errors.Join(&myErr{id}, context.DeadlineExceeded)
	case 6:
		return fmt.Errorf("fn %d: %w", id, &myErr{id})
	case 7:
		return io.EOF
	case 8:
		return listErr{[]int{id}}
	case 9:
		return &tempErr{id}
	case 10:
		return fmt.Errorf("fn %d: %w", id, errors.Join(nil, fmt.Errorf("%w", &myErr{id}), os.ErrDeadlineExceeded))
	case 11:
		return &emptyErr{id}
	}
	return nil
}

const errKinds = 11

// anErr draws an error kind.
func anErr(w *kit.W) int { return w.OneOf(1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11) }

// shared errors do not tell who returned them.
func shared(e error) bool {
	switch e.(type) {
	case listErr:
		return false
	}
	return e == io.EOF || e == context.Canceled || e == context.DeadlineExceeded
}

// sameErr is == that also compares listErrs.
func sameErr(a, b error) bool {
	l, ok := a.(listErr)
	if !ok {
		_, ok := b.(listErr)
		return !ok && a == b
	}
	m, ok := b.(listErr)
	return ok && l.ids[0] == m.ids[0]
}

// bareCtx errors may be dropped when they are not the first.
func bareCtx(kind int) bool { return kind == 3 || kind == 4 }

// listErr cannot be compared with ==.
type listErr struct{ ids []int }

func (e listErr) Error() string { return "list" + strconv.Itoa(e.ids[0]) }
func (e listErr) Is(o error) bool {
	l, ok := o.(listErr)
	return ok && l.ids[0] == e.ids[0]
}

// tempErr is like the errors of the net package.
type tempErr struct{ id int }

func (e *tempErr) Error() string   { return "temporary" + strconv.Itoa(e.id) }
func (e *tempErr) Temporary() bool { return true }
func (e *tempErr) Timeout() bool   { return true }

// emptyErr has no text and wraps nothing.
type emptyErr struct{ id int }

func (e *emptyErr) Error() string { return "" }
func (e *emptyErr) Unwrap() error { return nil }

// goFn passes f to the group's Go.
func (gg *ggroup) goFn(ctx context.Context, f *gfn) {
	w := gg.w
	ctx = context.WithValue(ctx, ctxKey{}, f.id)
	if f.dead {
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
	}
	gg.ctxs[f.id] = ctx
	gg.errs[f.id] = mkErr(f.err, f.id)
	w.Ev("go", f.id, 0)
	gg.g.Go(ctx, func(fctx context.Context) error {
		w.Ev("fn", f.id, 0)
		if gg.cnt.Enter(f.id) > 1 {
			w.Fail("fn-twice", "function", f.id, "was called twice")
		}
		if v, _ := fctx.Value(ctxKey{}).(int); v != f.id {
			w.Fail("wrong-context", "function", f.id, "got the context of", v)
		}
		if f.dead {
			w.Fail("fn-cancelled-ran", "function", f.id, "ran although its context was cancelled before Go")
		}
		for _, k := range f.kids {
			gg.goFn(ctx, k)
		}
		pause(w, f.pause)
		if f.block {
			<-fctx.Done()
		}
		gg.cnt.Leave()
		gg.end.Enter(f.id)
		w.Ev("fn-end", f.id, f.err)
		w.Exit(f.exit && f.err == 0)
		return gg.errs[f.id]
	})
	w.Ev("go-ret", f.id, 0)
}

func flat(fs []*gfn) []*gfn {
	var out []*gfn
	for _, f := range fs {
		out = append(out, f)
		out = append(out, flat(f.kids)...)
	}
	return out
}

// check runs right after Wait returned err for the functions fs.
func (gg *ggroup) check(fs []*gfn, err error) {
	w := gg.w
	if n := gg.cnt.Cur(); n != 0 {
		w.Fail("wait-early", "Wait returned while", n, "functions are running")
	}
	skipped := false
	var walk func(fs []*gfn)
	failed := false
	walk = func(fs []*gfn) {
		for _, f := range fs {
			n, e := gg.cnt.Get(f.id), gg.end.Get(f.id)
			switch {
			case n == 1 && e == 1:
				if f.err != 0 {
					failed = true
				}
				walk(f.kids)
			case n == 0:
				skipped = true
				if gg.ctxs[f.id].Err() == nil {
					w.Fail("fn-lost", "Wait returned but function", f.id, "was never called and its context is not cancelled")
				}
			default:
				w.Fail("wait-early", "Wait returned but function", f.id, "was called", n, "and finished", e, "times")
			}
		}
	}
	walk(fs)
	if err == nil && skipped {
		w.Fail("skip-no-error", "a function was skipped because its context is cancelled but Wait returned nil")
	}
	if err == nil && failed {
		w.Fail("error-lost", "a function failed but Wait returned nil")
	}
	if err != nil && !failed && !skipped {
		w.Fail("error-invented", "no function failed but Wait returned", err)
	}
	if skipped {
		w.Hit("skipped")
		if !failed && !errors.Is(err, context.Canceled) && !errors.Is(err, context.DeadlineExceeded) {
			w.Fail("wrong-error", "functions were skipped because their context is cancelled but Wait returned", err)
		}
	}
	// Every error that was returned is matched.
	var bare bool
	var need func(fs []*gfn)
	need = func(fs []*gfn) {
		for _, f := range fs {
			if gg.end.Get(f.id) != 1 {
				continue
			}
			e := gg.errs[f.id]
			switch f.err {
			case 0:
			default:
				if err == nil || !kit.IsErr(w, err, e) {
					w.Fail("error-lost", "the error of Wait does not match the error of function", f.id, ":", err)
				}
				if f.err == 5 || f.err == 6 || f.err == 10 {
					var me *myErr
					if !errors.As(err, &me) {
						w.Fail("error-lost", "errors.As does not find the error of function", f.id)
					}
				}
			case 3, 4:
				bare = true
			}
			need(f.kids)
		}
	}
	need(fs)
	if bare {
		w.Hit("bare-ctx-error")
	}
}

// checkNoForeign verifies that err matches no error of an earlier use.
func (gg *ggroup) checkNoForeign(fs []*gfn, err error) {
	if err == nil {
		return
	}
	mine := map[int]bool{}
	for _, f := range flat(fs) {
		mine[f.id] = true
	}
	for id, e := range gg.errs {
		if e == nil || mine[id] || shared(e) {
			continue
		}
		if kit.IsErr(gg.w, err, e) {
			gg.w.Fail("error-leaked", "the error of function", id, "of an earlier use is in a later Wait's error")
		}
	}
}

func genFns(w *kit.W, n int, id *int, nest bool, errKinds []int, errNum, errDen int) []*gfn {
	var out []*gfn
	for i := 0; i < n; i++ {
		f := &gfn{id: *id, pause: w.Pick(pauseKinds)}
		*id++
		if w.Chance(errNum, errDen) {
			f.err = errKinds[w.Pick(len(errKinds))]
		}
		f.dead = w.Chance(1, 12)
		f.exit = w.Chance(1, 16)
		if nest && w.Chance(1, 5) {
			f.kids = genFns(w, w.Range(1, 2), id, false, errKinds, errNum, errDen)
		}
		out = append(out, f)
	}
	return out
}

func c07Group(w *kit.W) {
	kind := w.Pick(groupKinds)
	size := w.Size(1, 4, 20)
	rounds := w.Range(1, 3)
	nest := kind == 0 || kind == 3 || kind == 4
	id := 0
	type round struct {
		fs       []*gfn
		callers  int
		cancelAt int // -1: never
		waitCtx  int
		onErr    bool // CancelOnErr is set, and cancels nothing of the functions
	}
	var plan []round
	for r := 0; r < rounds; r++ {
		rd := round{callers: w.Range(1, 2), cancelAt: -1, waitCtx: someCtx(w)}
		rd.fs = genFns(w, w.Size(0, 6, 120), &id, nest, []int{1, 2, 3, 4, 7, 8, 9, 11}, 1, 5)
		if w.Chance(1, 3) {
			rd.cancelAt = w.Pick(pauseKinds)
		}
		rd.onErr = w.Chance(1, 4)
		plan = append(plan, rd)
	}
	gg := newGroup(w, kind, size, id)
	for _, rd := range plan {
		if rd.onErr {
			gg.g.CancelOnErr = func() {}
		}
		ctx, cancel := context.WithCancel(w.Root())
		cdone := make(chan bool, 1)
		go func() {
			if rd.cancelAt >= 0 {
				pause(w, rd.cancelAt)
				w.Fault("context-cancel")
				cancel()
			}
			cdone <- true
		}()
		done := make(chan bool, rd.callers)
		for c := 0; c < rd.callers; c++ {
			go func() {
				for i := c; i < len(rd.fs); i += rd.callers {
					gg.goFn(ctx, rd.fs[i])
				}
				done <- true
			}()
		}
		for c := 0; c < rd.callers; c++ {
			<-done
		}
		err := gg.g.Wait(simCtx(w.Root(), w, rd.waitCtx))
		if n := gg.g.Running(); n != 0 {
			w.Fail("running-after-wait", "Running is", n, "right after Wait")
		}
		gg.check(rd.fs, err)
		gg.checkNoForeign(rd.fs, err)
		w.Idle()
		if n := gg.g.Running(); n != 0 {
			w.Fail("running-after-wait", "Running is", n, "at rest after Wait")
		}
		gg.check(rd.fs, err)
		<-cdone
		cancel()
	}
	gg.close()
}

// c07Shared: the group's pool also has jobs of others, which outlive the
// group, and several groups use it.
func c07Shared(w *kit.W) {
	kind := 1 + w.Pick(groupKinds-1)
	size := w.Range(2, 4)
	foreign := w.Range(0, size-1)
	foreignNB := w.Range(0, 2)
	if kind == 2 || kind == 4 {
		// On a pooled pool a non-blocking job may take an idle goroutine.
		foreignNB = min(foreignNB, size-1-foreign)
	}
	groups := w.Range(1, 3)
	rounds := w.Range(1, 2)
	var plans [][][]*gfn
	var ids []int
	for i := 0; i < groups; i++ {
		id := 0
		var rs [][]*gfn
		for r := 0; r < rounds; r++ {
			rs = append(rs, genFns(w, w.Range(0, 4), &id, false, []int{1, 2}, 1, 5))
		}
		plans = append(plans, rs)
		ids = append(ids, id)
	}
	gg := newGroup(w, kind, size, ids[0])
	gate := make(chan struct{})
	hold := func(context.Context) { <-gate }
	for i := 0; i < foreign; i++ {
		gg.pool.Submit(w.Root(), hold)
	}
	for i := 0; i < foreignNB; i++ {
		gg.pool.Submit(w.Root(), hold, nonBlocking(kind == 1 || kind == 3 || kind == 5))
	}
	done := make(chan bool, groups)
	for i := range plans {
		g := gg
		if i > 0 {
			g = &ggroup{w: w, kind: kind, size: size, pool: gg.pool, cnt: kit.NewCounts(ids[i]), end: kit.NewCounts(ids[i])}
			g.errs = make([]error, ids[i])
			g.ctxs = make([]context.Context, ids[i])
			g.g = &wait.Group{Pool: gg.pool, PoolOptions: gg.g.PoolOptions}
		}
		go func() {
			for _, fs := range plans[i] {
				for _, f := range fs {
					g.goFn(w.Root(), f)
				}
				err := g.g.Wait(w.Root())
				if n := g.g.Running(); n != 0 {
					w.Fail("running-after-wait", "Running is", n, "right after Wait")
				}
				g.check(fs, err)
				g.checkNoForeign(fs, err)
			}
			done <- true
		}()
	}
	for i := 0; i < groups; i++ {
		<-done
	}
	w.Ev("groups-done", 0, 0)
	close(gate)
	gg.close()
}

// c07Refused: the pool refuses functions, because the options are not its own.
func c07Refused(w *kit.W) {
	lim := w.Chance(1, 2)
	rounds := w.Range(1, 2)
	n := w.Range(1, 3)
	withCancel := w.Chance(1, 2)
	useCaller := w.Chance(1, 2)
	p := newPool(w, lim, "", w.Range(1, 3))
	g := &wait.Group{Pool: p}
	g.PoolOptions = []goroutines.SubmitOption{nonBlocking(!lim)}
	if useCaller {
		g.PoolOptions = []goroutines.SubmitOption{caller(!lim)}
	}
	for r := 0; r < rounds; r++ {
		var called kit.Cell
		ctx, cancel := context.WithCancel(w.Root())
		if withCancel {
			g.CancelOnErr = func() {
				called.Add(1)
				cancel()
			}
		}
		for i := 0; i < n; i++ {
			g.Go(ctx, func(context.Context) error {
				w.Fail("refused-ran", "a function ran although the pool refused it")
				return nil
			})
		}
		w.Idle()
		if v := g.Running(); v != 0 {
			w.Fail("running-high", "Running is", v, "although the pool refused every function")
		}
		if withCancel && called.Get() == 0 {
			w.Fail("not-cancelled", "the pool refused a function but CancelOnErr was not called")
		}
		if err := g.Wait(w.Root()); err == nil {
			w.Fail("fn-lost", "the pool refused every function but Wait returned nil")
		}
		cancel()
	}
	p.Close()
}

// c07Gauges: Running against the functions that are known to execute.
func c07Gauges(w *kit.W) {
	kind := w.Pick(groupKinds)
	size := w.Range(1, 4)
	n := w.Size(1, 5, 80)
	hold := 0
	if kind == 0 || kind == 3 || kind == 4 {
		hold = w.Range(0, n)
	} else {
		hold = w.Range(0, min(n, size))
		n = hold
	}
	reads := w.Range(1, 5)
	rounds := w.Range(1, 2)
	gg := newGroup(w, kind, size, 0)
	for r := 0; r < rounds; r++ {
		gate := make(chan struct{})
		ex := make([]kit.Cell, n)
		read := func() {
			var before []int
			w.Do(func() {
				for i := range ex {
					if ex[i].Get() == 1 {
						before = append(before, i)
					}
				}
			})
			r := gg.g.Running()
			w.Do(func() {
				k := 0
				for _, i := range before {
					if ex[i].Get() == 1 {
						k++
					}
				}
				if r < 0 {
					w.Fail("running-negative", "Running is", r)
				}
				if r < k {
					w.Fail("running-low", "Running is", r, "while at least", k, "functions are executing")
				}
				if r > n {
					w.Fail("running-high", "Running is", r, "but only", n, "functions were given to Go")
				}
			})
		}
		done := make(chan bool, 1)
		go func() {
			for i := 0; i < reads; i++ {
				read()
				w.Spin(4)
			}
			done <- true
		}()
		for i := 0; i < n; i++ {
			gg.g.Go(w.Root(), func(ctx context.Context) error {
				ex[i].Set(1)
				read()
				if i < hold {
					<-gate
				}
				ex[i].Set(2)
				return nil
			})
		}
		w.Idle()
		if v := gg.g.Running(); v != hold {
			w.Fail("running-held", "Running is", v, "while exactly", hold, "functions are executing")
		}
		close(gate)
		if err := gg.g.Wait(w.Root()); err != nil {
			w.Fail("error-invented", "no function failed but Wait returned", err)
		}
		if v := gg.g.Running(); v != 0 {
			w.Fail("running-after-wait", "Running is", v, "right after Wait")
		}
		<-done
		w.Idle()
		if v := gg.g.Running(); v != 0 {
			w.Fail("running-after-wait", "Running is", v, "at rest after Wait")
		}
	}
	gg.close()
}

// c08Errors: many functions fail, several uses of one group.
func c08Errors(w *kit.W) {
	kind := w.Pick(groupKinds)
	size := w.Range(1, 4)
	rounds := w.Range(1, 3)
	nest := kind == 0 || kind == 3 || kind == 4
	id := 0
	var plan [][]*gfn
	var cancels, waitCtxs, onErr []int
	for r := 0; r < rounds; r++ {
		waitCtxs = append(waitCtxs, someCtx(w))
		plan = append(plan, genFns(w, w.Size(1, 6, 80), &id, nest, []int{1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, w.OneOf(2, 0, 3), 3))
		onErr = append(onErr, w.OneOf(0, 0, 1, 2))
		c := -1
		if w.Chance(1, 4) {
			c = w.Pick(pauseKinds)
		}
		cancels = append(cancels, c)
	}
	gg := newGroup(w, kind, size, id)
	for r, fs := range plan {
		ctx, cancel := context.WithCancel(w.Root())
		switch onErr[r] {
		case 1:
			gg.g.CancelOnErr = func() {}
		case 2:
			gg.g.CancelOnErr = cancel
		}
		done := make(chan bool, 1)
		go func() {
			if cancels[r] >= 0 {
				pause(w, cancels[r])
				w.Fault("context-cancel")
				cancel()
			}
			done <- true
		}()
		for _, f := range fs {
			gg.goFn(ctx, f)
		}
		err := gg.g.Wait(simCtx(w.Root(), w, waitCtxs[r]))
		gg.check(fs, err)
		gg.checkNoForeign(fs, err)
		<-done
		cancel()
	}
	gg.close()
}

// c08Together: all functions fail at the same moment.
func c08Together(w *kit.W) {
	kind := w.OneOf(0, 3, 4)
	n := w.Size(2, 6, 30)
	kinds := make([]int, n)
	for i := range kinds {
		kinds[i] = w.OneOf(1, 1, 2, 3, 6, 7, 8, 9, 10, 11)
	}
	gg := newGroup(w, kind, 2, n)
	gate := make(chan struct{})
	in := kit.NewCounts(1)
	for i := 0; i < n; i++ {
		gg.errs[i] = mkErr(kinds[i], i)
		gg.g.Go(w.Root(), func(ctx context.Context) error {
			if in.Enter(0) == n {
				close(gate)
			}
			<-gate
			return gg.errs[i]
		})
	}
	err := gg.g.Wait(w.Root())
	if err == nil {
		w.Fail("error-lost", n, "functions failed but Wait returned nil")
	}
	for i, e := range gg.errs {
		if kinds[i] != 3 && !kit.IsErr(w, err, e) {
			w.Fail("error-lost", "the error of Wait does not match the error of function", i, ":", err)
		}
	}
	gg.close()
}

// c09OnError: blockers wait for the cancellation, nobody calls Wait.
func c09OnError(w *kit.W) {
	kind := w.OneOf(0, 3, 4, 1, 2)
	size := w.Range(1, 4)
	block := w.Range(0, 3)
	if kind == 1 || kind == 2 {
		size = block + 1 + w.Pick(2)
	}
	fail := w.Range(0, 2)
	okN := w.Range(0, 2)
	skip := 0 // functions that are not called since their context is dead
	if w.Chance(1, 3) {
		skip = w.Range(1, 2)
	}
	waitCtx := someCtx(w)
	if fail == 0 {
		block = 0
	}
	errKind := w.OneOf(1, 2, 3, 5, 7, 8, 9, 10, 11)
	var pauses []int
	for i := 0; i < block+fail+okN; i++ {
		pauses = append(pauses, w.Pick(pauseKinds))
	}
	order := w.Pick(3)
	settle := w.Chance(1, 2)
	polls := w.Range(0, 6)
	// A function that fails may have a context of its own, which is cancelled
	// while it runs.
	own := w.Chance(1, 4)
	gg := newGroup(w, kind, size, 0)
	ctx, cancel := context.WithCancel(w.Root())
	var called kit.Cell
	gg.g.CancelOnErr = func() {
		called.Add(1)
		w.Ev("cancel", 0, 0)
		cancel()
	}
	var failed kit.Cell
	mk := func(i int) wait.FuncCall {
		return func(ctx context.Context) error {
			pause(w, pauses[i])
			switch {
			case i < block:
				<-ctx.Done()
				return ctx.Err()
			case i < block+fail:
				w.Ev("fails", i, 0)
				failed.Add(1)
				if c, ok := ctx.Value(ctxKey2{}).(context.CancelFunc); ok {
					c()
				}
				return mkErr(errKind, i)
			}
			return nil
		}
	}
	n := block + fail + okN
	dead, kill := context.WithCancel(w.Root())
	kill()
	for k := 0; k < skip; k++ {
		gg.g.Go(dead, func(context.Context) error {
			w.Fail("fn-cancelled-ran", "a function ran although its context was cancelled before Go")
			return nil
		})
	}
	for k := 0; k < n; k++ {
		i := k
		if order == 1 {
			i = n - 1 - k
		} else if order == 2 {
			i = (k + 1) % n
		}
		if own && i >= block && i < block+fail {
			c, kill := context.WithCancel(w.Root())
			gg.g.Go(context.WithValue(c, ctxKey2{}, kill), mk(i))
			continue
		}
		gg.g.Go(ctx, mk(i))
	}
	if settle {
		w.Drain()
		if failed.Get() > 0 && called.Get() == 0 {
			w.Fail("not-cancelled", "a function failed and nothing is moving but CancelOnErr was not called")
		}
		if fail+skip == 0 && called.Get() != 0 {
			w.Fail("cancelled-without-error", "no function failed but CancelOnErr was called before Wait")
		}
		if r := gg.g.Running(); r != 0 {
			w.Fail("not-cancelled", r, "functions still wait for a cancellation after a failure")
		}
	}
	for k := 0; k < polls; k++ {
		f := failed.Get() // functions that are about to return an error
		if gg.g.Running() == 0 && f > 0 && called.Get() == 0 {
			w.Fail("not-cancelled", "a failed function has finished but CancelOnErr was not called")
		}
		w.Spin(3)
	}
	if fail+skip == 0 && called.Get() != 0 {
		w.Fail("cancelled-without-error", "no function failed but CancelOnErr was called before Wait")
	}
	err := gg.g.Wait(simCtx(w.Root(), w, waitCtx))
	if called.Get() == 0 {
		w.Fail("not-cancelled-at-wait", "Wait returned but CancelOnErr was never called")
	}
	if gg.g.CancelOnErr != nil {
		w.Fail("not-cleared", "CancelOnErr is not nil after Wait")
	}
	if (err != nil) != (fail+skip > 0) {
		w.Fail("error-lost", "failures:", fail, "Wait returned", err)
	}
	n0 := called.Get()
	w.Drain()
	if called.Get() != n0 {
		w.Fail("cancel-after-wait", "CancelOnErr was called after Wait returned")
	}
	gg.close()
}

// c09Reuse: each use has its own (or no) cancel function.
func c09Reuse(w *kit.W) {
	kind := w.Pick(groupKinds)
	size := w.Range(1, 3)
	rounds := w.Range(2, 4)
	type rd struct {
		has    bool
		n, f   int
		p      int
		settle bool
		skip   bool
	}
	var plan []rd
	for r := 0; r < rounds; r++ {
		plan = append(plan, rd{w.Chance(2, 3), w.Range(0, 3), w.Range(0, 2), w.Pick(pauseKinds), w.Chance(1, 2), w.Chance(1, 5)})
	}
	gg := newGroup(w, kind, size, 0)
	calls := make([]kit.Cell, rounds)
	prev := make([]int, rounds)
	for r, p := range plan {
		if p.has {
			gg.g.CancelOnErr = func() { calls[r].Add(1) }
		}
		for i := 0; i < p.n; i++ {
			gg.g.Go(w.Root(), func(ctx context.Context) error {
				pause(w, p.p)
				// Finishing after its own error is the moment to have cancelled.
				if i < p.f {
					return &myErr{i}
				}
				return nil
			})
		}
		if p.skip {
			dead, kill := context.WithCancel(w.Root())
			kill()
			gg.g.Go(dead, func(context.Context) error {
				w.Fail("fn-cancelled-ran", "a function ran although its context was cancelled before Go")
				return nil
			})
		}
		if (p.f == 0 || p.n == 0) && !p.skip {
			w.Drain()
			if calls[r].Get() != 0 {
				w.Fail("cancelled-without-error", "no function failed but CancelOnErr was called before Wait")
			}
		}
		if p.f > 0 && p.n > 0 && p.settle {
			w.Drain()
			if p.has && calls[r].Get() == 0 {
				w.Fail("not-cancelled", "a function failed and nothing is moving but CancelOnErr was not called")
			}
		}
		gg.g.Wait(w.Root())
		if p.has && calls[r].Get() == 0 {
			w.Fail("not-cancelled-at-wait", "Wait returned but CancelOnErr was never called")
		}
		if gg.g.CancelOnErr != nil {
			w.Fail("not-cleared", "CancelOnErr is not nil after Wait")
		}
		for q := 0; q < r; q++ {
			if calls[q].Get() != prev[q] {
				w.Fail("cancel-leaked", "the CancelOnErr of an earlier use was called in a later one")
			}
		}
		prev[r] = calls[r].Get()
	}
	gg.close()
}

// ---- C14 -------------------------------------------------------------------

// pair tears visibly.
type pair struct {
	a int
	p [6]int
	b int
}

func mkPair(v int) pair { return pair{a: v, b: v, p: [6]int{v, v, v, v, v, v}} }

func (p pair) get(w *kit.W) int {
	ok := p.a == p.b
	for _, x := range p.p {
		ok = ok && x == p.a
	}
	if !ok {
		w.Fail("torn-value", "a value was returned that nobody stored")
	}
	return p.a
}

var errReplace = errors.New("replace failed")

func c14History(w *kit.W) {
	const (
		kLoad = iota
		kStore
		kReplace // out = value passed to the function, arg = value added
		kReplaceErr
	)
	gor := w.Range(1, 4)
	type op struct{ kind, arg, pause, reg, nest int }
	regs := w.OneOf(1, 1, 2)
	plans := make([][]op, gor)
	v := 0
	for g := range plans {
		for n := w.Range(1, 5); n > 0; n-- {
			v++
			plans[g] = append(plans[g], op{w.OneOf(kLoad, kStore, kReplace, kReplace, kReplaceErr), v, w.OneOf(0, 0, 1, 2, 6), w.Pick(regs), w.OneOf(-1, -1, -1, kLoad, kStore, kReplace)})
		}
	}
	// With two registers, functions that update the first may use the second.
	var rs [2]atomics.RWValue[pair]
	hs := [2]*kit.Hist{{W: w}, {W: w}}
	done := make(chan bool, gor)
	var run func(g int, o op)
	run = func(g int, o op) {
		r, h := &rs[o.reg], hs[o.reg]
		var i int
		w.Do(func() { i = h.Call(g, o.kind, o.arg) })
		out, okk := 0, true
		switch o.kind {
		case kLoad:
			out = r.Load().get(w)
		case kStore:
			r.Store(mkPair(o.arg * 1000))
		case kReplace, kReplaceErr:
			calls := 0
			err := r.LoadReplace(func(cur pair) (pair, error) {
				calls++
				out = cur.get(w)
				pause(w, o.pause)
				if o.nest >= 0 && o.reg+1 < regs {
					w.Hit("nested")
					run(g, op{o.nest, o.arg + 100, o.pause, o.reg + 1, -1})
				}
				if o.nest == kLoad {
					if v := r.Load().get(w); v != out {
						w.Fail("dirty-read", "Load returned", v, "inside of a LoadReplace function that was given", out)
					}
				}
				if o.kind == kReplaceErr {
					return mkPair(777777), errReplace
				}
				return mkPair(out + o.arg), nil
			})
			if calls != 1 {
				w.Fail("replacer-calls", "LoadReplace called its function", calls, "times")
			}
			if (o.kind == kReplaceErr) != (err != nil) || (err != nil && !errors.Is(err, errReplace)) {
				w.Fail("replacer-error", "LoadReplace returned", err)
			}
		}
		w.Do(func() { h.Return(i, out, okk) })
	}
	for g, ops := range plans {
		go func() {
			for _, o := range ops {
				run(g, o)
			}
			done <- true
		}()
	}
	for range plans {
		<-done
	}
	for k := 0; k < regs; k++ {
		i := hs[k].Call(99, kLoad, 0)
		hs[k].Return(i, rs[k].Load().get(w), true)
	}
	if kit.RaceMode {
		return
	}
	for _, h := range hs[:regs] {
		ok, fin := kit.Linearizable(kit.Model{Init: "0", Step: func(s string, o *kit.Op) (string, bool) {
			switch o.Kind {
			case kStore:
				return strconv.Itoa(o.Arg * 1000), true
			case kReplace:
				if s != strconv.Itoa(o.Out) {
					return s, false
				}
				return strconv.Itoa(o.Out + o.Arg), true
			}
			return s, s == strconv.Itoa(o.Out)
		}}, h.Ops, 200000)
		if fin && !ok {
			w.Fail("register-history", "the history of Load/Store/LoadReplace calls is not that of a register")
		}
		if !fin {
			w.Hit("lin-gave-up")
		}
		w.Hit("lin-checked")
	}
}

func c14Counter(w *kit.W) {
	gor := w.Range(1, 4)
	n := w.Size(1, 5, 100)
	init := w.Chance(1, 2)
	var r atomics.RWValue[map[string]int]
	if init {
		r.Store(map[string]int{"n": 0})
	}
	done := make(chan bool, gor)
	for g := 0; g < gor; g++ {
		go func() {
			last := 0
			for i := 0; i < n; i++ {
				err := r.LoadReplace(func(m map[string]int) (map[string]int, error) {
					c := map[string]int{}
					for k, v := range m {
						c[k] = v
					}
					w.Point()
					c["n"]++
					return c, nil
				})
				if err != nil {
					w.Fail("replacer-error", "LoadReplace returned", err)
				}
				v := r.Load()["n"]
				if v <= last {
					w.Fail("lost-update", "Load returned an older value than before")
				}
				last = v
			}
			done <- true
		}()
	}
	for g := 0; g < gor; g++ {
		<-done
	}
	if v := r.Load()["n"]; v != gor*n {
		w.Fail("lost-update", gor*n, "increments, value", v)
	}
}

func c14Blocked(w *kit.W) {
	init := w.Chance(1, 2)
	loads := w.Range(1, 4)
	stores := w.Range(0, 2)
	reps := w.Range(0, 2)
	fails := w.Chance(1, 2)
	var r, other atomics.RWValue[pair]
	start := 0
	if init {
		start = 5
		r.Store(mkPair(5))
	}
	gate := make(chan struct{})
	in := make(chan struct{})
	wdone := make(chan error, 1)
	go func() {
		wdone <- r.LoadReplace(func(p pair) (pair, error) {
			close(in)
			<-gate
			if fails {
				return mkPair(9), errReplace
			}
			return mkPair(p.get(w) + 1), nil
		})
	}()
	<-in
	var others, stepIn kit.Cell
	odone := make(chan bool, 8)
	for i := 0; i < stores; i++ {
		go func() {
			r.Store(mkPair(100))
			others.Add(1)
			odone <- true
		}()
	}
	for i := 0; i < reps; i++ {
		go func() {
			r.LoadReplace(func(p pair) (pair, error) {
				stepIn.Add(1)
				return mkPair(p.get(w)), nil
			})
			others.Add(1)
			odone <- true
		}()
	}
	// A Load during this must not wait for the writer: nothing releases it.
	for i := 0; i < loads; i++ {
		if v := r.Load().get(w); v != start {
			w.Fail("dirty-read", "Load returned", v, "while the only finished write stored", start)
		}
	}
	// Neither does anything done with another value.
	other.Store(mkPair(3))
	if err := other.LoadReplace(func(p pair) (pair, error) { return mkPair(p.get(w) + 1), nil }); err != nil || other.Load().get(w) != 4 {
		w.Fail("other-value", "another value did not take the writes")
	}
	w.Drain()
	if others.Get() != 0 || stepIn.Get() != 0 {
		w.Fail("writer-not-blocked", "a writer proceeded while a LoadReplace function is running")
	}
	if v := r.Load().get(w); v != start {
		w.Fail("dirty-read", "Load returned", v, "while the only finished write stored", start)
	}
	close(gate)
	err := <-wdone
	if fails != (err != nil) {
		w.Fail("replacer-error", "LoadReplace returned", err)
	}
	for i := 0; i < stores+reps; i++ {
		<-odone
	}
	want := start
	if !fails {
		want++
	}
	got := r.Load().get(w)
	if stores > 0 {
		if got != 100 {
			w.Fail("lost-update", "the last store was 100, value", got)
		}
	} else if got != want {
		w.Fail("lost-update", "expected", want, "value", got)
	}
}

func c14Panic(w *kit.W) {
	init := w.Chance(1, 2)
	conc := w.Range(0, 2)
	p := w.Pick(pauseKinds)
	var r atomics.RWValue[pair]
	if init {
		r.Store(mkPair(3))
	}
	done := make(chan bool, 3)
	add := func(k int) {
		r.LoadReplace(func(v pair) (pair, error) { return mkPair(v.get(w) + k), nil })
	}
	go func() {
		defer func() {
			if recover() == nil {
				w.Fail("panic-swallowed", "LoadReplace swallowed its function's panic")
			}
			w.Fault("replacer-panic")
			done <- true
		}()
		r.LoadReplace(func(v pair) (pair, error) {
			pause(w, p)
			panic("boom")
		})
	}()
	for i := 0; i < conc; i++ {
		go func() {
			add(1)
			done <- true
		}()
	}
	for i := 0; i < conc+1; i++ {
		<-done
	}
	add(1)
	r.Load().get(w)
	want := conc + 1
	if init {
		want += 3
	}
	if v := r.Load().get(w); v != want {
		w.Fail("lost-update", "expected", want, "value", v)
	}
	r.Store(mkPair(8))
	if v := r.Load().get(w); v != 8 {
		w.Fail("lost-update", "expected 8 after Store, value", v)
	}
}

var _ = time.Second
