package main

import (
	"context"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/verifsim/kit"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/gostdlib/concurrency/prim/wait"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/trace"
)

func init() {
	register("C24", Scenario{Name: "pipes", Weight: 4, Run: c24Pipes, Race: true},
		Scenario{Name: "blocked", Weight: 2, Run: c24Blocked},
		Scenario{Name: "group", Weight: 3, Run: c24Group, Race: true},
		Scenario{Name: "others", Weight: 1, Run: c24Others, Race: true})
}

func newTracer(w *kit.W) *kit.Tracer {
	return &kit.Tracer{W: w, ReqOf: func(ctx context.Context) int {
		if v, ok := ctx.Value(ctxKey{}).(int); ok {
			return v
		}
		return -1
	}}
}

// rootFor makes the context the request's own context is derived from: traced
// by a span the harness owns, or not.
func (h *sh) rootFor(g *sgroup, q *sreq) context.Context {
	w := h.w
	bg := context.Background()
	switch w.OneOf(0, 0, 1, 1, 2, 3) {
	case 0: // all of the group share a span
		if g.root == nil {
			g.rootCtx, g.root = h.tr.Root(bg, "user-group")
		}
		q.root = g.root
		return g.rootCtx
	case 1:
		ctx, s := h.tr.Root(bg, "user-request")
		q.root = s
		return ctx
	case 2: // its owner ends it while the request is under way
		ctx, s := h.tr.Root(bg, "user-ending")
		q.root = s
		// (in a stage or before the Submit: the span package of the internals
		// module panics when a span ends while a child is being made)
		q.endRoot = w.Pick(4)
		if q.endRoot == 0 {
			s.UserEnd()
		}
		return ctx
	}
	return bg
}

// userEvent is what a stage does with the span of the context it got.
func (h *sh) userEvent(r sReq) {
	if h.tr != nil {
		trace.SpanFromContext(r.Ctx).AddEvent("event of the stage")
	}
}

// spansOf lists the library's spans made for request q: in its Submit, and by
// the workers.
func (h *sh) spansOf(q *sreq) (sub, work []*kit.Span) {
	for _, s := range h.tr.Spans {
		if s.User || s.Req != q.id {
			continue
		}
		if s.G == q.subG {
			sub = append(sub, s)
		} else {
			work = append(work, s)
		}
	}
	return
}

// judgeSpans runs when q is delivered.
func (h *sh) judgeSpans(q *sreq, r sReq) {
	if h.tr == nil {
		return
	}
	g := h.groups[q.group]
	sub, work := h.spansOf(q)
	for _, s := range sub {
		if s.Parent == nil {
			h.fail(catSpan, "no-parent", "a span of request", q.id, "belongs to no trace:", s.Name)
			return
		}
	}
	if len(sub) == 0 {
		for _, s := range work {
			if s.Ends != 1 {
				h.fail(catSpan, "span-not-ended", "request", q.id, "came out but a span of a stage is not ended:", s.Name)
			}
		}
		if q.root != nil && !q.root.Done() && q.subG == 0 {
			h.fail(catSpan, "no-span", "request", q.id, "is traced but got no span")
		}
		return
	}
	if len(sub) > 2 {
		h.fail(catSpan, "too-many-spans", "the Submit of request", q.id, "started", len(sub), "spans")
	}
	own := sub[len(sub)-1]
	if len(sub) > 1 {
		h.groupSpan(g, sub[0])
	} else if g.span == own {
		// The user's span ended between the start of the group's span and the
		// request's own: it has none.
		own = nil
	}
	if own != nil && own.Ends == 0 && len(sub) == 1 && len(work) == 0 && q.root != nil && q.root.Done() {
		// As above: the only span is the group's.
		h.groupSpan(g, own)
		own = nil
	}
	if own == nil {
		return
	}
	if own.Ends != 1 {
		h.fail(catSpan, "span-not-ended", "request", q.id, "came out but its span is not ended:", own.Name)
	}
	if o := g.names[own.Name]; o != nil && o != q {
		h.fail(catSpan, "span-name-reused", "the spans of requests", q.id, "and", o.id, "of group", g.idx, "have the same name:", own.Name)
	}
	if g.names == nil {
		g.names = map[string]*sreq{}
	}
	g.names[own.Name] = q
	if own.Trace != q.root.Trace && (g.span == nil || own.Trace != g.span.Trace) {
		h.fail(catSpan, "wrong-trace", "the span of request", q.id, "is in a foreign trace:", own.Name)
	}
	if r.Err != nil && own.Code != codes.Error {
		h.fail(catSpan, "status-missing", "request", q.id, "came out with an error but its span has no error status:", r.Err)
	}
	if r.Err == nil && own.Code == codes.Error {
		h.fail(catSpan, "status-invented", "request", q.id, "came out without an error but its span has error status")
	}
	for _, s := range work {
		if s.Ends != 1 {
			h.fail(catSpan, "span-not-ended", "request", q.id, "came out but a span of a stage is not ended:", s.Name)
		}
		if s.Parent != own {
			h.fail(catSpan, "wrong-parent", "the span of a stage of request", q.id, "is not a child of the request's span:", s.Name)
		}
	}
	if len(work) < q.calls {
		h.fail(catSpan, "no-span", "request", q.id, "is traced and ran", q.calls, "stages, with", len(work), "spans")
	}
	if r.Ctx != nil {
		if sp, _ := trace.SpanFromContext(r.Ctx).(*kit.Span); sp != own {
			h.fail(catSpan, "wrong-span-kept", "the context of request", q.id, "as it came out does not hold the request's span")
		}
	}
	if len(work) > 1 {
		h.w.Hit("several-stage-spans")
	}
	h.w.Hit("request-span")
}

func (h *sh) groupSpan(g *sgroup, s *kit.Span) {
	if g.span != nil && g.span != s {
		h.fail(catSpan, "two-group-spans", "group", g.idx, "has two spans:", s.Name)
	}
	g.span = s
	h.w.Hit("group-span")
}

// judgeRejected runs when the Submit of q has returned an error.
func (h *sh) judgeRejected(q *sreq) {
	if h.tr == nil || q.subG == 0 {
		return
	}
	g := h.groups[q.group]
	sub, _ := h.spansOf(q)
	open := 0
	for _, s := range sub {
		if s.Ends > 0 && s != g.span && s.Code != codes.Error {
			h.fail(catSpan, "status-missing", "the Submit of request", q.id, "failed but its span has no error status:", s.Name)
		}
		if s.Ends == 0 {
			open++
			if open > 1 || (g.span != nil && g.span != s) {
				h.fail(catSpan, "span-not-ended", "the Submit of request", q.id, "failed but its span is not ended:", s.Name)
			} else {
				h.groupSpan(g, s)
			}
		}
	}
	if len(sub) > 0 {
		h.w.Hit("rejected-span")
	}
}

// groupClosed runs when RequestGroup.Close returned.
func (h *sh) groupClosed(g *sgroup) {
	if h.tr == nil {
		return
	}
	h.w.Do(func() {
		if g.span != nil && g.span.Ends != 1 {
			h.fail(catSpan, "span-not-ended", "RequestGroup.Close returned but the group's span is not ended:", g.span.Name)
		}
		for _, s := range h.tr.Spans {
			if s.User || s.Req < 0 || s.Req >= len(h.reqs) || s.Ends == 1 {
				continue
			}
			q := h.reqs[s.Req]
			// A request that is still in the Out channel ends its span before
			// it is received.
			if q.group == g.idx && (q.delivered > 0 || q.state == 3) {
				h.fail(catSpan, "span-not-ended", "group", g.idx, "was closed but a span of request", q.id, "is not ended:", s.Name)
			}
		}
	})
}

// tracesDone runs when everything is shut down.
func (h *sh) tracesDone() {
	h.w.Do(func() {
		for _, g := range h.groups {
			traced, n := true, 0
			for _, qs := range g.subs {
				for _, q := range qs {
					if q.ctxKind == ctxNil {
						continue
					}
					if q.state == 2 {
						n++
					}
					if q.root == nil || q.root.Done() || q.subG == 0 {
						traced = false
					}
				}
			}
			if traced && n > 0 && g.span == nil {
				h.fail(catSpan, "no-span", "every request of group", g.idx, "is traced but the group got no span")
			}
		}
		for _, s := range h.tr.Spans {
			if !s.User && s.Ends != 1 {
				h.fail(catSpan, "span-not-ended", "everything is closed but a span is not ended:", s.Name)
			}
		}
	})
}

func c24Pipes(w *kit.W) {
	h := newPipe(w, catSpan|catDeliver|catOrder|catRoute|catDAG, gen{})
	if !h.ordered {
		h.cats &^= catOrder
	}
	if w.Chance(7, 8) {
		h.tr = newTracer(w)
	}
	h.genGroups(w, gen{groups: 2, subs: 2, reqs: 3, steps: 3, errs: 25, ctx: 25, loops: h.dag || w.Chance(1, 2), slow: true})
	if w.Chance(1, 3) {
		for _, q := range h.reqs {
			if q.odd = w.OneOf(0, 1, 2, 3, 4, 5); q.odd != 0 {
				w.Fault("data-without-json")
			}
		}
	}
	h.build()
	h.run(0, w.Chance(1, 4))
	if h.tr != nil {
		h.tracesDone()
	}
}

// c24Blocked: submits that are cancelled while the pipelines are busy.
func c24Blocked(w *kit.W) {
	h := newSH(w, catSpan|catDeliver, 1, 1, 0)
	h.tr = newTracer(w)
	h.ordered = w.Chance(1, 2)
	g := &sgroup{named: w.Chance(1, 2)}
	for s := w.Range(1, 3); s > 0; s-- {
		var qs []*sreq
		for k := w.Range(1, 4); k > 0; k-- {
			q := &sreq{id: len(h.reqs), sub: s, submitG: -1, tIn: -1}
			q.plan = []pstep{{pause: w.OneOf(0, 3, 7, 8), event: w.Chance(1, 2)}}
			if w.Chance(2, 3) {
				q.ctxKind = w.OneOf(ctxCancel, ctxTimeout, ctxCancel, ctxDead, ctxNil)
				q.at = w.OneOf(0, 2, 5, 6, 7)
			}
			h.reqs = append(h.reqs, q)
			qs = append(qs, q)
		}
		g.subs = append(g.subs, qs)
	}
	h.groups = []*sgroup{g}
	h.build()
	h.run(0, false)
	h.tracesDone()
}

// ---- wait.Group ----------------------------------------------------------------

func c24Group(w *kit.W) {
	tr := newTracer(w)
	rounds := w.Range(1, 3)
	poolKind := w.Pick(3)
	var pool goroutines.Pool
	var err error
	switch poolKind {
	case 1:
		pool, err = limited.New("", w.Range(1, 3))
	case 2:
		pool, err = pooled.New("", w.Range(1, 3))
	}
	if err != nil {
		w.Fail("new-failed", err)
	}
	g := &wait.Group{Pool: pool}
	if w.Chance(1, 2) {
		g.Name = "simgroup"
	}
	for r := 0; r < rounds; r++ {
		n := w.Range(0, 4)
		type fn struct {
			pause, err, ctx int
			event           bool
		}
		fns := make([]fn, n)
		for i := range fns {
			fns[i] = fn{pause: w.OneOf(0, 0, 1, 3, 7), ctx: w.OneOf(0, 0, 0, 1, 2), event: w.Chance(1, 2)}
			if w.Chance(1, 3) {
				fns[i].err = w.Range(1, errKinds)
			}
		}
		mode := w.Pick(4) // of the round's context: 0,1 traced, 2 untraced, 3 ended meanwhile
		ctx := context.Background()
		var root *kit.Span
		if mode != 2 {
			ctx, root = tr.Root(ctx, "user")
		}
		stop := w.Chance(1, 3)
		endAt := w.Pick(3)
		cctx := ctx
		if stop {
			cctx, g.CancelOnErr = context.WithCancel(ctx)
		}
		dead, cancel := context.WithCancel(ctx)
		cancel()
		first := len(tr.Spans)
		ran := make([]bool, n)
		errs := make([]error, n)
		for i, f := range fns {
			c := cctx
			switch f.ctx {
			case 1:
				c = dead
			case 2:
				c = context.Background()
			}
			g.Go(c, func(ctx context.Context) error {
				ran[i] = true
				if f.event {
					trace.SpanFromContext(ctx).AddEvent("event of the function")
				}
				pause(w, f.pause)
				if mode == 3 && i == endAt {
					root.UserEnd()
				}
				if f.err != 0 {
					w.Fault("function-error")
					errs[i] = mkErr(f.err, i)
				}
				if f.event {
					trace.SpanFromContext(ctx).AddEvent("event of the function")
				}
				return errs[i]
			})
		}
		werr := g.Wait(ctx)
		if kit.RaceMode {
			continue
		}
		any := false
		var hit *kit.Span
		w.Do(func() {
			for _, s := range tr.Spans[first:] {
				if s.User {
					continue
				}
				hit = s
				any = true
				if s.Ends != 1 {
					w.Fail("span-not-ended", "Wait returned but the group's span is not ended:", s.Name)
				}
				if s.Parent == nil || s.Trace != root.Trace {
					w.Fail("wrong-trace", "the group's span is in a foreign trace:", s.Name)
				}
			}
			for _, s := range tr.Spans[:first] {
				if !s.User && s.Ends != 1 {
					w.Fail("span-not-ended", "a span of an earlier round is not ended:", s.Name)
				}
			}
		})
		if any {
			w.Hit("group-span")
			_ = hit
		} else if mode < 2 && n > 0 && fns[0].ctx != 2 {
			w.Fail("no-span", "the group is traced but got no span")
		}
		// The results do not depend on tracing.
		failed := false
		for i, f := range fns {
			if f.ctx == 1 {
				if ran[i] {
					w.Fail("ran-cancelled", "a function whose context was cancelled ran")
				}
				failed = true
				continue
			}
			if !ran[i] {
				if !stop || f.ctx == 2 {
					w.Fail("not-run", "a function did not run")
				}
				continue
			}
			if errs[i] != nil {
				failed = true
				if !bareCtx(f.err) && !kit.IsErr(w, werr, errs[i]) {
					w.Fail("error-lost", "Wait did not return the error of function", i)
				}
			}
		}
		if failed != (werr != nil) {
			w.Fail("wait-error", "Wait returned", werr, "; some function failed:", failed)
		}
	}
	if pool != nil {
		pool.Close()
	}
}

// c24Others: the other packages under a recording span.
func c24Others(w *kit.W) {
	tr := newTracer(w)
	ctx, root := tr.Root(context.Background(), "user")
	n := w.Range(0, 4)
	errAt := w.Pick(6)
	kind := w.Pick(5)
	endMid := w.Chance(1, 4)
	use := func(ctx context.Context, i int) error {
		trace.SpanFromContext(ctx).AddEvent("event of the user")
		pause(w, i)
		if endMid && i == 1 {
			root.UserEnd()
		}
		if i == errAt {
			return mkErr(1, i)
		}
		return nil
	}
	ran := make([]int, n)
	var err error
	switch kind {
	case 0, 1:
		var p goroutines.Pool
		var perr error
		if kind == 0 {
			p, perr = limited.New("", 2)
		} else {
			p, perr = pooled.New("", 2)
		}
		if perr != nil {
			w.Fail("new-failed", perr)
		}
		for i := range ran {
			if e := p.Submit(ctx, func(ctx context.Context) { use(ctx, i); ran[i]++ }); e != nil {
				w.Fail("submit-failed", e)
			}
		}
		if e := p.Submit(ctx, nil); e == nil {
			w.Fail("nil-job-accepted", "Submit accepted a nil job")
		}
		p.Close()
	case 2:
		vals := make([]int, n)
		err = slices.Access(ctx, vals, func(ctx context.Context, i int, v int, mod slices.Modifier[int]) error {
			ran[i]++
			return use(ctx, i)
		})
	case 3, 4:
		in := make(chan int, 4)
		for i := range ran {
			in <- i
		}
		close(in)
		if kind == 3 {
			err = chans.Access(ctx, in, func(ctx context.Context, i int) error {
				ran[i]++
				return use(ctx, i)
			})
		} else {
			out := make(chan chans.StreamResult[int], 8)
			err = chans.Modify(ctx, in, out, func(ctx context.Context, i int) (int, error) {
				ran[i]++
				return i, use(ctx, i)
			})
			for range out {
			}
		}
	}
	if kit.RaceMode {
		return
	}
	for i, k := range ran {
		if k != 1 {
			w.Fail("not-run-once", "element", i, "ran", k, "times under tracing")
		}
	}
	if kind >= 2 && (errAt < n) != (err != nil) {
		w.Fail("wrong-error", "the call returned", err)
	}
	for _, s := range tr.Spans {
		if !s.User && s.Ends != 1 {
			w.Fail("span-not-ended", "the call returned but a span it started is not ended:", s.Name)
		}
	}
	_ = time.Now
}
