package main

import (
	"context"
	"encoding/json"
	"errors"
	"math"
	"runtime"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/verifsim/kit"
)

// Which rules a scenario judges.
const (
	catDeliver = 1 << iota // C15
	catOrder               // C16
	catRoute               // C17
	catDAG                 // C18
	catShut                // C19
	catStats               // C20
	catBound               // C21
	catSpan                // C24
)

type sdata struct {
	ID  int
	Pos int
	Sum int
	Gen int
	P   *int // written by stages without synchronisation of their own
	Odd any  // data that need not have a JSON form
}

// badJSON is a value whose JSON form cannot be made.
type badJSON struct{ N int }

func (b badJSON) MarshalJSON() ([]byte, error) { return nil, errors.New("no JSON form") }

// odd makes data without a JSON form (which spans record).
func odd(kind int) any {
	switch kind {
	case 1:
		return func() {}
	case 2:
		return math.NaN()
	case 3:
		return make(chan int)
	case 4:
		return badJSON{1}
	case 5:
		return map[badKey]int{{1}: 1}
	}
	return nil
}

type badKey struct{ n int }

type sReq = stagedpipe.Request[sdata]

// pstep is one planned stage execution of a request.
type pstep struct {
	stage  int
	pause  int
	sleep  time.Duration
	until  int64 // sleep until this time
	err    int   // error kind the stage sets
	nextPP int   // 1+index of the preprocessor that sets Next before the stage
	errPP  int   // 1+index of the preprocessor that fails before the stage
	cancel int   // 1: the stage cancels the context, 2: the last preprocessor does
	newCtx bool
	ownCan bool // the stage derives a context and cancels it
	ppCtx  int  // this preprocessor (from 1) derives a context
	keep   bool // on error: leave Next set
	event  bool
}

const (
	ctxPlain = iota
	ctxNil
	ctxDead
	ctxCancel
	ctxTimeout
)

type sreq struct {
	id, group, sub int
	plan           []pstep
	pre            int // pause before the Submit
	preSleep       time.Duration
	ctxKind, at    int
	ctx            context.Context
	cancel         func()

	// oracle state
	mark      int  // of the context a stage or preprocessor made last
	ownCan    bool // a stage returned it with a cancelled context
	state     int  // 1 submitting, 2 accepted, 3 rejected
	callSeq   uint64
	retSeq    uint64
	cancelSeq uint64
	exitSeq   uint64
	inside    bool
	visit     int
	calls     int // stages entered
	ended     int // stages left
	ppNext    int
	sum       int
	err       error
	errSet    bool
	cyclic    bool
	delivered int
	outIdx    int
	tSub      int64
	tIn, tOut int64
	tDel      int64
	cut       time.Duration // c20Exact: when the context is cancelled
	submitG   int
	subG      int
	outErr    error
	root      *kit.Span
	endRoot   int
	odd       int
	preNext   int // 1+index of the stage that Next is set to when it is submitted
}

type sgroup struct {
	idx      int
	subs     [][]*sreq
	startAt  int
	consume  []int
	closeAt  int
	late     int
	named    bool
	names    map[string]*sreq // of the spans of its requests
	g        *stagedpipe.RequestGroup[sdata]
	closing  kit.Cell
	closeRet kit.Cell
	order    []int
	out      int
	span     *kit.Span // the group's span, once known
	root     *kit.Span
	rootCtx  context.Context
	ended    kit.Cell
}

// sh is one simulated pipelines with its workload and oracle.
type sh struct {
	w       *kit.W
	cats    int
	num     int
	kind    int
	subs    int
	form    int  // how a two stage state machine is declared
	viaI    bool // its stage B is taken through an interface
	deep    bool // routes use the stages of another object
	many    bool // routes use the stages of a very large object
	dag     bool
	ordered bool
	pps     int
	delay   time.Duration
	name    string
	tr      *kit.Tracer
	p       *stagedpipe.Pipelines[sdata]
	groups  []*sgroup
	reqs    []*sreq
	stages  []stagedpipe.Stage[sdata]
	S       int
	in      *kit.Counts
	smClose kit.Cell
	lastX   uint64
	gate    func(req sReq, st int) // extra behaviour inside a stage
	onOut   func(g *sgroup, req sReq)
	reuse   bool // Submits use Requests that came out before
	used    []sReq
	twin    *sh // other pipelines of the same name that are in use meanwhile
}

func (h *sh) fail(cat int, class string, detail ...any) {
	if h.cats&cat != 0 {
		h.w.Fail(class, detail...)
	}
}

// The state machines. Methods with other signatures are not stages.
type sm1 struct{ h *sh }
type sm2 struct{ h *sh }
type sm3 struct{ h *sh }
type subX struct{ h *sh }
type subZ struct{ h *sh }
type subV struct{ h *sh }
type noStage struct{}

func (s *sm1) Start(r sReq) sReq { return s.h.stage(0, r) }
func (s *sm1) Close()            { s.h.closed() }

func (s *sm2) Start(r sReq) sReq   { return s.h.stage(0, r) }
func (s *sm2) B(r sReq) sReq       { return s.h.stage(1, r) }
func (s *sm2) Close()              { s.h.closed() }
func (s *sm2) Helper(i int) int    { return i }
func (s *sm2) Plain(r sdata) sdata { return r }

func (s *sm3) Start(r sReq) sReq        { return s.h.stage(0, r) }
func (s *sm3) B(r sReq) sReq            { return s.h.stage(1, r) }
func (s *sm3) C(r sReq) sReq            { return s.h.stage(2, r) }
func (s *sm3) Close()                   { s.h.closed() }
func (s *sm3) Two(r sReq) (sReq, error) { return r, nil }
func (s *sm3) Many(a, b sReq) sReq      { return a }
func (s *sm3) private(r sReq) sReq      { return r }

func (s *subX) X(r sReq) sReq { return s.h.stage(3, r) }
func (s *subX) Y(r sReq) sReq { return s.h.stage(4, r) }
func (s *subX) Other() int    { return 1 }
func (s subV) X(r sReq) sReq  { return s.h.stage(3, r) }
func (s subV) Y(r sReq) sReq  { return s.h.stage(4, r) }
func (*noStage) Other() int   { return 1 }
func (s *subZ) Z(r sReq) sReq { return s.h.stage(5, r) }

// Other forms of a state machine with two stages: value receivers (given as a
// value and as a pointer), promoted methods, a generic type.
type smV struct{ h *sh }
type smBase struct{ h *sh }
type smE struct {
	*smBase
	x int
}
type smEV struct{ smBase2 }
type smBase2 struct{ h *sh }
type smG[T any] struct{ h *sh }
type smI struct {
	stagedpipe.StateMachine[sdata]
	h *sh
}

func (s smV) Start(r sReq) sReq     { return s.h.stage(0, r) }
func (s smV) B(r sReq) sReq         { return s.h.stage(1, r) }
func (s smV) Close()                { s.h.closed() }
func (s *smBase) Start(r sReq) sReq { return s.h.stage(0, r) }
func (s *smBase) B(r sReq) sReq     { return s.h.stage(1, r) }
func (s *smBase) Close()            { s.h.closed() }
func (s smBase2) Start(r sReq) sReq { return s.h.stage(0, r) }
func (s smBase2) B(r sReq) sReq     { return s.h.stage(1, r) }
func (s smBase2) Close()            { s.h.closed() }
func (s *smG[T]) Start(r sReq) sReq { return s.h.stage(0, r) }
func (s *smG[T]) B(r sReq) sReq     { return s.h.stage(1, r) }
func (s *smG[T]) Close()            { s.h.closed() }
func (s *smI) B(r sReq) sReq        { return s.h.stage(1, r) }

// deep has stages enough for long routes, some named like those of others.
type deep struct{ h *sh }

func (s *deep) Start(r sReq) sReq { return s.h.stage(stDeep, r) }
func (s *deep) B(r sReq) sReq     { return s.h.stage(stDeep+1, r) }
func (s *deep) X(r sReq) sReq     { return s.h.stage(stDeep+2, r) }
func (s *deep) D3(r sReq) sReq    { return s.h.stage(stDeep+3, r) }
func (s *deep) D4(r sReq) sReq    { return s.h.stage(stDeep+4, r) }
func (s *deep) D5(r sReq) sReq    { return s.h.stage(stDeep+5, r) }
func (s *deep) D6(r sReq) sReq    { return s.h.stage(stDeep+6, r) }
func (s *deep) D7(r sReq) sReq    { return s.h.stage(stDeep+7, r) }
func (s *deep) D8(r sReq) sReq    { return s.h.stage(stDeep+8, r) }
func (s *deep) D9(r sReq) sReq    { return s.h.stage(stDeep+9, r) }
func (s *deep) D10(r sReq) sReq   { return s.h.stage(stDeep+10, r) }
func (s *deep) D11(r sReq) sReq   { return s.h.stage(stDeep+11, r) }
func (s *deep) D12(r sReq) sReq   { return s.h.stage(stDeep+12, r) }
func (s *deep) D13(r sReq) sReq   { return s.h.stage(stDeep+13, r) }
func (s *deep) D14(r sReq) sReq   { return s.h.stage(stDeep+14, r) }
func (s *deep) D15(r sReq) sReq   { return s.h.stage(stDeep+15, r) }

// stage numbers: 0 Start, 1 B, 2 C, 3 X, 4 Y, 5 Z, 6 a function, 7.. deep.
const (
	stForeign = 6
	stDeep    = 7
	nDeep     = 16
	nStages   = stDeep + nDeep
	stMany    = nStages
	nMany     = 300
)

// anySubs draws which objects are given to CountSubStages.
func anySubs(w *kit.W) int { return w.OneOf(0, 1, 2, 3, 0, 1, 2, 3, 4, 5, 6, 7) }

func newSH(w *kit.W, cats, num, kind, subs int) *sh {
	h := &sh{w: w, cats: cats, num: num, kind: kind, subs: subs, name: "simpipe", in: kit.NewCounts(0)}
	return h
}

// avail lists the stages a route may use after Start.
func (h *sh) avail() []int {
	a := []int{0}
	for i := 1; i < h.kind; i++ {
		a = append(a, i)
	}
	if h.subs >= 1 {
		a = append(a, 3, 4)
	}
	if h.subs == 2 || h.subs == 3 {
		a = append(a, 5)
	}
	if h.deep {
		for i := 0; i < nDeep; i++ {
			a = append(a, stDeep+i)
		}
	}
	if h.many {
		for i := 0; i < nMany; i++ {
			a = append(a, stMany+i)
		}
	}
	return append(a, stForeign)
}

// twoStage builds a state machine with two stages in the given form.
func (h *sh) twoStage() stagedpipe.StateMachine[sdata] {
	var m interface {
		stagedpipe.StateMachine[sdata]
		B(sReq) sReq
	}
	switch h.form {
	case 1:
		v := smV{h}
		m = v
		h.stages[0], h.stages[1] = v.Start, v.B
	case 2:
		v := &smV{h}
		m = v
		h.stages[0], h.stages[1] = v.Start, v.B
	case 3:
		v := &smE{smBase: &smBase{h}}
		m = v
		h.stages[0], h.stages[1] = v.Start, v.B
	case 4:
		v := smE{smBase: &smBase{h}}
		m = v
		h.stages[0], h.stages[1] = v.Start, v.B
	case 5:
		v := &smG[int]{h}
		m = v
		h.stages[0], h.stages[1] = v.Start, v.B
	case 6:
		v := &smI{StateMachine: &sm1{h}, h: h}
		m = v
		h.stages[0], h.stages[1] = v.Start, v.B
	case 7:
		v := &smEV{smBase2{h}}
		m = v
		h.stages[0], h.stages[1] = v.Start, v.B
	default:
		v := &sm2{h}
		m = v
		h.stages[0], h.stages[1] = v.Start, v.B
	}
	if h.viaI {
		h.stages[1] = m.B
	}
	return m
}

func (h *sh) build() {
	var sm stagedpipe.StateMachine[sdata]
	h.stages = make([]stagedpipe.Stage[sdata], nStages)
	switch h.kind {
	case 1:
		m := &sm1{h}
		sm = m
		h.stages[0] = m.Start
	case 2:
		sm = h.twoStage()
	default:
		m := &sm3{h}
		sm = m
		h.stages[0], h.stages[1], h.stages[2] = m.Start, m.B, m.C
	}
	h.S = h.kind
	x, z := &subX{h}, &subZ{h}
	h.stages[3], h.stages[4], h.stages[5] = x.X, x.Y, z.Z
	d := &deep{h}
	copy(h.stages[stDeep:], []stagedpipe.Stage[sdata]{d.Start, d.B, d.X, d.D3, d.D4, d.D5, d.D6, d.D7, d.D8, d.D9, d.D10, d.D11, d.D12, d.D13, d.D14, d.D15})
	if h.many {
		h.stages = append(h.stages, (&many{h}).all()...)
	}
	h.stages[stForeign] = func(r sReq) sReq { return h.stage(stForeign, r) }
	var o []stagedpipe.Option[sdata]
	if h.dag {
		o = append(o, stagedpipe.DAG[sdata]())
	}
	if h.ordered {
		o = append(o, stagedpipe.Ordered[sdata]())
	}
	switch h.subs {
	case 1:
		o = append(o, stagedpipe.CountSubStages[sdata](x))
		h.S += 2
	case 2:
		o = append(o, stagedpipe.CountSubStages[sdata](x, z))
		h.S += 3
	case 3:
		o = append(o, stagedpipe.CountSubStages[sdata](x), stagedpipe.CountSubStages[sdata](z))
		h.S += 3
	case 4: // two objects of a type
		o = append(o, stagedpipe.CountSubStages[sdata](x, &subX{h}))
		h.S += 4
	case 5:
		o = append(o, stagedpipe.CountSubStages[sdata](x), stagedpipe.CountSubStages[sdata](&subX{h}))
		h.S += 4
	case 6: // not a pointer
		v := subV{h}
		h.stages[3], h.stages[4] = v.X, v.Y
		o = append(o, stagedpipe.CountSubStages[sdata](v))
		h.S += 2
	case 7: // one of them has no stage
		o = append(o, stagedpipe.CountSubStages[sdata](&noStage{}, x, 3))
		h.S += 2
	}
	var pp []stagedpipe.PreProcesor[sdata]
	for i := 0; i < h.pps; i++ {
		pp = append(pp, func(r sReq) sReq { return h.pre(i, r) })
	}
	if len(pp) > 1 {
		// over two options: they append
		o = append(o, stagedpipe.PreProcessors(pp[:1]...), stagedpipe.PreProcessors(pp[1:]...))
	} else if len(pp) > 0 {
		o = append(o, stagedpipe.PreProcessors(pp...))
	}
	if h.delay > 0 {
		h.w.Unit = time.Millisecond // or there would be millions of warnings
	}
	if h.delay > 0 || h.w.Chance(1, 8) {
		o = append(o, stagedpipe.DelayWarning[sdata](h.delay))
	}
	if len(o) > 1 && h.pps < 2 {
		// The order of the options does not matter.
		k := h.w.Pick(len(o))
		o = append(append([]stagedpipe.Option[sdata]{}, o[k:]...), o[:k]...)
	}
	if h.cats&catBound != 0 && h.w.Chance(1, 40) {
		h.refused(sm)
	}
	p, err := stagedpipe.New(h.name, h.num, sm, o...)
	if err != nil {
		h.w.Fail("new-failed", "New failed:", err)
	}
	h.p = p
}

// refused: arguments that New does not accept.
func (h *sh) refused(sm stagedpipe.StateMachine[sdata]) {
	if p, err := stagedpipe.New("", -h.w.Pick(2), sm); err == nil || p != nil {
		h.fail(catBound, "arguments-accepted", "New accepted a number of pipelines below one")
	}
	if p, err := stagedpipe.New[sdata]("", h.num, nil); err == nil || p != nil {
		h.fail(catBound, "arguments-accepted", "New accepted a nil state machine")
	}
	if p, err := stagedpipe.New("", h.num, sm, stagedpipe.DelayWarning[sdata](-time.Millisecond)); err == nil || p != nil {
		h.fail(catBound, "arguments-accepted", "New accepted a negative DelayWarning")
	}
}

func (h *sh) closed() {
	h.w.Ev("sm-close", 0, 0)
	if h.smClose.Add(1) > 1 {
		h.fail(catShut, "close-twice", "the state machine's Close was called twice")
	}
	if n := h.in.Cur(); n != 0 {
		h.fail(catShut, "close-early", "the state machine's Close was called with", n, "requests inside stages")
	}
	h.w.Do(func() {
		for _, r := range h.reqs {
			if steps, _ := h.verdict(r); (r.state == 2 || r.state == 1) && r.calls < steps && !r.errSet && r.ctx.Err() == nil {
				h.fail(catShut, "close-early", "the state machine's Close was called before request", r.id, "was processed")
			}
		}
	})
}

// cancelled reports whether the request's context was cancelled before seq.
func (r *sreq) cancelledBefore(seq uint64) bool {
	return r.cancelSeq != 0 && r.cancelSeq < seq
}

func (h *sh) reqOf(r sReq) *sreq {
	id := r.Data.ID
	if id < 0 || id >= len(h.reqs) {
		h.w.Fail("unknown-request", "a request of unknown id", id, "is in the pipelines")
	}
	return h.reqs[id]
}

// entry is common to preprocessors and stages.
func (h *sh) entry(r sReq, q *sreq, what string) {
	w := h.w
	if h.smClose.Get() != 0 {
		h.fail(catShut, "after-close", what, "called after the state machine was closed, request", q.id)
	}
	w.Do(func() {
		if q.delivered > 0 {
			h.fail(catRoute, "after-delivery", what, "called for request", q.id, "after it came out")
		}
		if q.state == 3 {
			h.fail(catDeliver, "rejected-ran", "request", q.id, "runs although its Submit returned an error")
		}
		if q.errSet {
			h.fail(catRoute, "after-error", what, "called for request", q.id, "after its Err was set")
		}
		if q.inside {
			h.fail(catRoute, "overlap", "request", q.id, "is in two stages at once")
		}
		last := q.exitSeq
		if q.calls == 0 && q.ppNext == 0 {
			last = q.callSeq
		}
		if q.cancelledBefore(last) {
			h.fail(catRoute, "after-cancel", what, "called for request", q.id, "although its context was cancelled before")
		}
		if v, _ := r.Ctx.Value(ctxKey{}).(int); v != q.id {
			h.fail(catRoute, "wrong-context", what, "of request", q.id, "has the context of", v)
		}
		if v, _ := r.Ctx.Value(ctxKey2{}).(int); v != q.mark {
			h.fail(catRoute, "wrong-context", what, "of request", q.id, "does not have the context its last stage or preprocessor returned")
		}
		if q.ownCan {
			h.fail(catRoute, "after-cancel", what, "called for request", q.id, "although a stage returned it with a cancelled context")
		}
		if q.tIn < 0 {
			q.tIn = w.Now()
		}
	})
}

func (h *sh) pre(i int, r sReq) sReq {
	w := h.w
	q := h.reqOf(r)
	w.Ev("pre", q.id, i)
	h.entry(r, q, "a preprocessor")
	pos := r.Data.Pos
	last := i == h.pps-1
	var st *pstep
	if pos < len(q.plan) {
		st = &q.plan[pos]
	}
	w.Do(func() {
		if i != q.ppNext {
			h.fail(catRoute, "pre-order", "preprocessor", i, "called for request", q.id, "when", q.ppNext, "was due")
		}
		q.ppNext = i + 1
		q.sum = q.sum*7 + i + 1
		if r.Next != nil && (st == nil || st.nextPP == 0 || st.nextPP > i) {
			h.fail(catRoute, "next-kept", "Next is set when a preprocessor runs, request", q.id)
		}
	})
	r.Data.Sum = r.Data.Sum*7 + i + 1
	if r.Data.P != nil {
		*r.Data.P++
	}
	if st == nil {
		return r
	}
	if st.errPP == i+1 {
		w.Fault("preprocessor-error")
		r.Err = mkErr(1, q.id*100+pos)
		w.Do(func() { q.err, q.errSet = r.Err, true; q.tOut = w.Now() })
	}
	if st.ppCtx == i+1 {
		r.Ctx = context.WithValue(r.Ctx, ctxKey2{}, -1-pos)
		w.Do(func() { q.mark = -1 - pos })
	}
	if st.nextPP == i+1 {
		r.Next = h.stages[stForeign]
	}
	if st.event {
		r.Event("user event", "request", q.id)
		h.userEvent(r)
	}
	if last && st.cancel == 2 {
		h.cancelReq(q)
	}
	return r
}

func (h *sh) cancelReq(q *sreq) {
	if q.cancel == nil {
		return
	}
	h.w.Fault("context-cancel")
	q.cancel()
	s := h.w.Ev("cancel", q.id, 0)
	h.w.Do(func() {
		if q.cancelSeq == 0 {
			q.cancelSeq = s
		}
	})
}

func (h *sh) stage(n int, r sReq) sReq {
	w := h.w
	q := h.reqOf(r)
	w.Ev("stage", q.id, n)
	h.entry(r, q, "a stage")
	pos := r.Data.Pos
	w.Do(func() {
		if pos != q.calls || pos >= len(q.plan) || q.plan[pos].stage != n {
			h.fail(catRoute, "wrong-stage", "request", q.id, "is in stage", n, "at step", q.calls, "position", pos)
			h.fail(catDeliver, "wrong-data", "request", q.id, "is in stage", n, "at step", q.calls, "position", pos)
		}
		if q.ppNext != h.pps {
			h.fail(catRoute, "pre-order", "stage", n, "of request", q.id, "runs after", q.ppNext, "preprocessors instead of", h.pps)
		}
		if r.Next != nil && (pos >= len(q.plan) || q.plan[pos].nextPP == 0 || q.plan[pos].nextPP > h.pps) {
			h.fail(catRoute, "next-kept", "Next is set when a stage runs, request", q.id)
		}
		if h.dag && pos < len(q.plan) {
			for _, s := range q.plan[:pos] {
				if s.stage == n {
					h.fail(catDAG, "revisit-executed", "request", q.id, "executes stage", n, "a second time")
				}
			}
		}
		q.inside = true
		q.visit++
		q.calls++
		q.ppNext = 0
		q.sum = q.sum*31 + n + 1
		h.in.Enter(-1)
		if c := h.in.Cur(); c > h.num*h.S {
			h.fail(catBound, "over-limit", c, "requests are inside stages with a limit of", h.num*h.S)
		} else if c == h.num*h.S {
			w.Hit("all-stages-busy")
		}
	})
	if pos >= len(q.plan) {
		return r
	}
	st := q.plan[pos]
	r.Data.Sum = r.Data.Sum*31 + n + 1
	r.Data.Pos++
	if r.Data.P != nil {
		*r.Data.P++
	}
	if st.event {
		r.Event("user event", "request", q.id)
		h.userEvent(r)
	}
	if q.endRoot > 0 && q.endRoot == q.calls {
		q.root.UserEnd()
	}
	if h.gate != nil {
		h.gate(r, n)
	}
	if d := st.until - w.Now(); st.until > 0 {
		if d > 0 {
			time.Sleep(time.Duration(d))
		}
	} else if st.sleep > 0 {
		time.Sleep(st.sleep)
	} else {
		pause(w, st.pause)
	}
	if st.newCtx {
		r.Ctx = context.WithValue(r.Ctx, ctxKey2{}, pos+1)
		w.Do(func() { q.mark = pos + 1 })
	}
	if st.ownCan {
		c, cancel := context.WithCancel(r.Ctx)
		cancel()
		r.Ctx = c
		w.Fault("stage-context-cancel")
		w.Do(func() { q.ownCan = true })
	}
	if st.cancel == 1 {
		h.cancelReq(q)
	}
	if st.err != 0 {
		w.Fault("stage-error")
		r.Err = mkErr(st.err, q.id*100+pos)
	}
	r.Next = nil
	if pos+1 < len(q.plan) && (st.err == 0 || st.keep) {
		r.Next = h.stages[q.plan[pos+1].stage]
	}
	s := w.Ev("stage-end", q.id, n)
	w.Do(func() {
		q.inside = false
		q.ended++
		q.exitSeq = s
		h.lastX = s
		q.tOut = w.Now()
		if r.Err != nil {
			q.err, q.errSet = r.Err, true
		}
		h.in.Leave()
	})
	return r
}

type ctxKey2 struct{}

// verdict is the model: how the route of q ends when nothing is cancelled.
// steps is the number of stages entered; kind 0 fine, 1 error, 2 cyclic,
// 3 a stage returned a cancelled context.
func (h *sh) verdict(q *sreq) (steps, kind int) {
	var seen [nStages + nMany]bool
	for i, st := range q.plan {
		if i > 0 && q.plan[i-1].ownCan {
			return i, 3
		}
		if h.dag && seen[st.stage] {
			return i, 2
		}
		seen[st.stage] = true
		if st.errPP > 0 && st.errPP <= h.pps {
			return i, 1
		}
		if st.err != 0 {
			return i + 1, 1
		}
	}
	return len(q.plan), 0
}

func (h *sh) received(g *sgroup, r sReq) {
	w := h.w
	q := h.reqOf(r)
	w.Ev("out", q.id, g.idx)
	if r.Data.P != nil {
		*r.Data.P++
	}
	w.Do(func() {
		if q.group != g.idx {
			h.fail(catDeliver, "wrong-group", "request", q.id, "of group", q.group, "came out of group", g.idx)
			h.fail(catOrder, "wrong-group", "request", q.id, "of group", q.group, "came out of group", g.idx)
		}
		q.tDel = w.Now()
		q.delivered++
		if q.delivered > 1 {
			h.fail(catDeliver, "delivered-twice", "request", q.id, "came out twice")
		}
		g.out++
		q.outIdx = g.out
		if q.state == 3 {
			h.fail(catDeliver, "rejected-delivered", "request", q.id, "came out although its Submit returned an error")
		}
		if q.state == 0 {
			h.fail(catDeliver, "invented", "request", q.id, "came out but was never submitted")
		}
		if q.inside {
			h.fail(catDeliver, "early", "request", q.id, "came out while a stage is executing it")
		}
		if r.Data.Sum != q.sum || r.Data.Pos != q.calls {
			h.fail(catDeliver, "wrong-data", "request", q.id, "came out with other data than its last stage returned")
		}
		if r.Ctx == nil {
			h.fail(catRoute, "wrong-context", "request", q.id, "came out without a context")
		} else if v, _ := r.Ctx.Value(ctxKey{}).(int); v != q.id {
			h.fail(catRoute, "wrong-context", "request", q.id, "came out with the context of", v)
		} else if v, _ := r.Ctx.Value(ctxKey2{}).(int); v != q.mark {
			h.fail(catRoute, "wrong-context", "request", q.id, "did not come out with the context its last stage or preprocessor returned")
		}
		q.outErr = r.Err
		h.judge(q, r)
		h.judgeSpans(q, r)
		if h.reuse && !kit.RaceMode {
			h.used = append(h.used, r)
		}
	})
	if h.onOut != nil {
		h.onOut(g, r)
	}
}

func (h *sh) judge(q *sreq, r sReq) {
	steps, kind := h.verdict(q)
	cyc := stagedpipe.IsErrCyclic(r.Err)
	if cyc {
		h.w.Hit("cyclic")
	}
	if kind != 2 && cyc {
		h.fail(catDAG, "cyclic-invented", "request", q.id, "came out with a cyclic error but visits every stage once:", r.Err)
		h.fail(catRoute, "wrong-err", "request", q.id, "came out with", r.Err)
		return
	}
	natural := false
	switch kind {
	case 0:
		natural = r.Err == nil && !q.errSet
	case 1:
		natural = q.errSet && r.Err != nil && errors.Is(r.Err, q.err)
	case 3:
		natural = r.Err == context.Canceled && !q.errSet
	case 2:
		natural = cyc
		if q.errSet && r.Err != nil && errors.Is(r.Err, q.err) {
			natural = true // a preprocessor of the revisit failed first
		}
	}
	if q.calls > steps {
		h.fail(catRoute, "too-far", "request", q.id, "ran", q.calls, "stages instead of", steps)
	}
	if natural && q.calls == steps {
		return
	}
	// Only a cancellation may end it otherwise.
	if q.ctx.Err() != nil && r.Err != nil && errors.Is(r.Err, q.ctx.Err()) && q.calls <= steps && !q.errSet {
		h.w.Hit("cancelled-midway")
		if q.calls == 0 {
			h.w.Hit("cancelled-before-start")
		}
		return
	}
	if kind == 2 {
		h.fail(catDAG, "cyclic-missed", "request", q.id, "revisits a stage at step", steps, "but came out after", q.calls, "stages with", r.Err)
	}
	h.fail(catRoute, "wrong-err", "request", q.id, "ran", q.calls, "of", steps, "stages and came out with", r.Err, "; expected end kind", kind)
}

// mkCtx makes the context of q.
func (h *sh) mkCtx(q *sreq, root context.Context) {
	if q.ctxKind == ctxNil {
		return
	}
	ctx := context.WithValue(root, ctxKey{}, q.id)
	switch q.ctxKind {
	case ctxDead, ctxCancel:
		q.ctx, q.cancel = context.WithCancel(ctx)
		if q.id%2 == 1 {
			c, cancel := context.WithCancelCause(ctx)
			q.ctx, q.cancel = c, func() { cancel(&myErr{q.id}) }
		}
	case ctxTimeout:
		q.ctx, q.cancel = context.WithTimeout(ctx, time.Duration(q.at)*time.Millisecond)
	default:
		q.ctx, q.cancel = context.WithCancel(ctx)
	}
	if q.ctxKind == ctxDead {
		h.cancelReq(q)
	}
}

func (h *sh) submit(g *sgroup, q *sreq) {
	w := h.w
	pause(w, q.pre)
	if q.preSleep > 0 {
		time.Sleep(q.preSleep)
	}
	req := sReq{Ctx: q.ctx, Data: sdata{ID: q.id, P: new(int), Odd: odd(q.odd)}}
	if h.reuse && !kit.RaceMode {
		w.Do(func() {
			if n := len(h.used); n > 0 {
				old := h.used[n-1]
				h.used = h.used[:n-1]
				old.Ctx, old.Data, old.Err, old.Next = req.Ctx, req.Data, nil, nil
				req = old
				w.Hit("resubmitted")
			}
		})
	}
	if q.preNext > 0 && len(h.stages) > 0 {
		req.Next = h.stages[(q.preNext-1)%len(h.stages)]
		w.Fault("submitted-with-next")
	}
	var cd chan bool
	if q.ctxKind == ctxCancel {
		cd = make(chan bool, 1)
		go func() {
			pause(w, q.at)
			h.cancelReq(q)
			cd <- true
		}()
	}
	s := w.Ev("submit", q.id, g.idx)
	w.Do(func() {
		q.state, q.callSeq, q.tSub, q.submitG = 1, s, w.Now(), runtime.SimGoID()
		q.subG = q.submitG
		q.tIn = -1
	})
	err := g.g.Submit(req)
	s = w.Ev("submit-ret", q.id, b2i(err != nil))
	w.Do(func() {
		q.retSeq = s
		q.submitG = -1
		if err == nil {
			q.state = 2
			if q.ctxKind == ctxNil {
				h.fail(catDeliver, "nil-context-accepted", "Submit accepted a request without a context")
			}
			return
		}
		q.state = 3
		w.Hit("submit-rejected")
		if q.ctxKind != ctxNil {
			if q.ctx.Err() == nil {
				h.fail(catDeliver, "submit-error-invented", "Submit failed although the context is not cancelled:", err)
			} else if !errors.Is(err, q.ctx.Err()) {
				h.fail(catShut, "submit-wrong-error", "Submit returned another error than the context's:", err)
			} else if q.ctxKind != ctxDead {
				w.Hit("submit-cancelled-while-blocked")
			}
		}
		if q.delivered > 0 || q.calls > 0 {
			h.fail(catDeliver, "rejected-ran", "request", q.id, "was processed although its Submit returned an error")
		}
		h.judgeRejected(q)
	})
	if cd != nil {
		<-cd
	}
}

// runGroup creates, uses and closes one group.
func (h *sh) runGroup(g *sgroup, done chan bool) {
	w := h.w
	pause(w, g.startAt)
	w.Ev("new-group", g.idx, 0)
	g.g = h.p.NewRequestGroup()
	w.Ev("new-group-ret", g.idx, 0)
	if g.named {
		g.g.Name = "grp"
	}
	cdone := make(chan bool, 1)
	go func() {
		pause(w, g.late)
		i := 0
		for r := range g.g.Out() {
			h.received(g, r)
			if len(g.consume) > 0 {
				k := g.consume[i%len(g.consume)]
				if k > 0 {
					w.Fault("slow-consumer")
				}
				pause(w, k)
			}
			i++
		}
		w.Ev("out-closed", g.idx, 0)
		if g.closing.Get() == 0 {
			h.fail(catDeliver, "closed-early", "the Out channel of group", g.idx, "was closed before RequestGroup.Close was called")
		}
		h.checkGroup(g)
		cdone <- true
	}()
	sd := make(chan bool, len(g.subs))
	for _, qs := range g.subs {
		go func() {
			for _, q := range qs {
				h.submit(g, q)
			}
			sd <- true
		}()
	}
	for range g.subs {
		<-sd
	}
	done <- true // all submitted
	pause(w, g.closeAt)
	w.Ev("group-close", g.idx, 0)
	g.closing.Set(1)
	g.g.Close()
	g.closeRet.Set(1)
	w.Ev("group-close-ret", g.idx, 0)
	h.groupClosed(g)
	<-cdone
	done <- true
}

// checkGroup runs when the Out channel of g was closed.
func (h *sh) checkGroup(g *sgroup) {
	h.w.Do(func() {
		var qs []*sreq
		for _, s := range g.subs {
			qs = append(qs, s...)
		}
		for _, q := range qs {
			if q.state == 2 && q.delivered != 1 {
				h.fail(catDeliver, "lost", "request", q.id, "was accepted but the Out channel closed without it")
				h.fail(catOrder, "lost", "request", q.id, "was accepted but the Out channel closed without it")
			}
			if q.state == 3 && q.delivered != 0 {
				h.fail(catDeliver, "rejected-delivered", "request", q.id, "came out although its Submit returned an error")
			}
		}
		for _, a := range qs {
			for _, b := range qs {
				if a.state == 2 && b.state == 2 && a.retSeq < b.callSeq && a.outIdx > b.outIdx {
					h.fail(catOrder, "out-of-order", "request", a.id, "was submitted before", b.id, "but came out after it")
					h.w.Hit("reordered")
				}
			}
		}
	})
}

// run executes the whole workload: groups, closing, shutdown.
func (h *sh) run(base int, closeEarly bool) {
	w := h.w
	if t := h.twin; t != nil {
		t.genGroups(w, gen{groups: 2, subs: 1, reqs: 3, steps: 3, errs: 10, ctx: 10, loops: true})
		td := make(chan bool, 1)
		go func() {
			t.build()
			t.run(0, false)
			td <- true
		}()
		w.Hit("twin")
		defer func() { <-td }()
	}
	root := w.Root()
	for _, g := range h.groups {
		for _, qs := range g.subs {
			for _, q := range qs {
				ctx := root
				if h.tr != nil {
					ctx = h.rootFor(g, q)
				}
				h.mkCtx(q, ctx)
			}
		}
	}
	done := make(chan bool, 2*len(h.groups))
	for _, g := range h.groups {
		go h.runGroup(g, done)
	}
	n := 0
	if closeEarly {
		// every group's first message: its submits are done
		for n < len(h.groups) {
			<-done
			n++
		}
		// a group may have sent both of its messages
		all := true
		for _, g := range h.groups {
			for _, qs := range g.subs {
				for _, q := range qs {
					if q.retSeq == 0 && !kit.RaceMode {
						all = false
					}
				}
			}
		}
		if all && !kit.RaceMode {
			w.Hit("closed-before-drained")
			w.Ev("close", 0, 0)
			h.p.Close()
		} else {
			closeEarly = false
		}
	}
	for ; n < 2*len(h.groups); n++ {
		<-done
	}
	h.atRest()
	if !closeEarly {
		w.Ev("close", 0, 0)
		h.p.Close()
	}
	h.shutdown(base)
	for _, q := range h.reqs {
		if q.cancel != nil {
			q.cancel()
		}
	}
}

// shutdown judges the state after Pipelines.Close with everything drained.
func (h *sh) shutdown(base int) {
	w := h.w
	if h.cats&catShut == 0 {
		return
	}
	w.Drain()
	if n := h.smClose.Get(); n != 1 {
		h.fail(catShut, "close-missing", "the state machine's Close was called", n, "times after Pipelines.Close")
	}
	// The demultiplexer of the dynamics module keeps one goroutine.
	if n := runtime.SimLive(); base > 0 && n > base+1 {
		h.fail(catShut, "goroutine-leak", n-base, "goroutines are left after Pipelines.Close")
	}
}

// atRest judges the statistics when every accepted request has come out.
func (h *sh) atRest() {
	if h.cats&catStats == 0 || kit.RaceMode {
		return
	}
	st := h.p.Stats()
	acc := 0
	for _, q := range h.reqs {
		if q.state == 2 {
			acc++
		}
	}
	if st.Running != 0 {
		h.fail(catStats, "running-at-rest", "Stats.Running is", st.Running, "with nothing in flight")
	}
	if st.Completed != int64(acc) {
		h.fail(catStats, "completed-wrong", "Stats.Completed is", st.Completed, "after", acc, "accepted requests")
	}
}

// warmTypes builds pipelines of every type once.
func warmTypes(w *kit.W) {
	warmTyped(w)
	for k := 0; k <= 5; k++ {
		json.Marshal(sdata{Odd: odd(k)})
		// ... and traced requests with all kinds of data.
		h := newSH(w, 0, 1, 1, 0)
		h.tr = newTracer(w)
		q := &sreq{submitG: -1, tIn: -1, odd: k, plan: []pstep{{}}}
		if k == 1 {
			q.plan[0].err = 1
		}
		h.reqs = []*sreq{q}
		h.groups = []*sgroup{{subs: [][]*sreq{{q}}}}
		h.build()
		h.run(0, false)
	}
	for kind := 1; kind <= 3; kind++ {
		for subs := 0; subs <= 5; subs++ {
			for form := 0; form < 8; form++ {
				h := newSH(w, 0, 1, kind, subs)
				h.form = form
				h.build()
				h.p.Close()
				if kind != 2 {
					break
				}
			}
		}
	}
}

// settleCaches looks up everything a run looks up in the process-wide caches
// often enough that none of their maps still counts misses: a map that is
// promoted during a run would take other steps in that run than in a replay.
func settleCaches(w *kit.W) {
	for i := 0; i < 400; i++ {
		for k := 0; k <= 5; k++ {
			json.Marshal(sdata{Odd: odd(k)})
		}
	}
	for i := 0; i < 10; i++ {
		warmTypes(w)
	}
}

// ---- workload generation ----------------------------------------------------

type gen struct {
	groups, subs, reqs int // maxima
	steps              int
	errs               int // percent of plans with an error
	ctx                int // percent of requests with a cancellation
	loops              bool
	slow               bool
}

func (h *sh) genPlan(w *kit.W, c gen) []pstep {
	av := h.avail()
	n := w.Range(1, c.steps)
	var out []pstep
	used := []int{0}
	for i := 0; i < n; i++ {
		st := pstep{stage: 0, pause: w.Pick(pauseKinds), event: h.tr != nil && w.Chance(1, 3)}
		if i > 0 {
			k := w.Pick(len(av))
			st.stage = av[k]
			if !c.loops {
				// next unused stage
				ok := false
				for j := 0; j < len(av) && !ok; j++ {
					s := av[(k+j)%len(av)]
					ok = true
					for _, u := range used {
						if u == s {
							ok = false
						}
					}
					if ok {
						st.stage = s
						used = append(used, s)
					}
				}
				if !ok {
					break
				}
			}
		}
		st.newCtx = w.Chance(1, 8)
		st.ownCan = w.Chance(1, 40)
		if h.pps > 0 && w.Chance(1, 12) {
			st.ppCtx = 1 + w.Pick(h.pps)
		}
		if h.pps > 0 && w.Chance(1, 16) {
			st.nextPP = 1 + w.Pick(h.pps)
		}
		out = append(out, st)
	}
	if w.Chance(c.errs, 100) {
		k := w.Pick(len(out))
		if h.pps > 0 && w.Chance(1, 3) {
			out[k].errPP = 1 + w.Pick(h.pps)
		} else {
			out[k].err = anErr(w)
			out[k].keep = w.Chance(1, 2)
		}
	}
	if w.Chance(c.ctx, 100) {
		k := w.Pick(len(out))
		if h.pps > 0 && w.Chance(1, 3) {
			out[k].cancel = 2
		} else {
			out[k].cancel = 1
		}
	}
	return out
}

func (h *sh) genGroups(w *kit.W, c gen) {
	ng := w.Range(1, c.groups)
	for i := 0; i < ng; i++ {
		g := &sgroup{idx: i, startAt: w.Pick(pauseKinds), closeAt: w.Pick(4), named: w.Chance(1, 2)}
		if i == 0 || w.Chance(1, 2) {
			g.startAt = 0
		}
		if c.slow && w.Chance(1, 2) {
			for k := w.Range(1, 3); k > 0; k-- {
				g.consume = append(g.consume, w.Pick(pauseKinds))
			}
			g.late = w.Pick(pauseKinds)
		}
		ns := w.Range(1, c.subs)
		for s := 0; s < ns; s++ {
			var qs []*sreq
			lo := 1
			if w.Chance(1, 12) {
				lo = 0
			}
			for k := w.Size(lo, c.reqs, 40*c.reqs); k > 0; k-- {
				q := &sreq{id: len(h.reqs), group: i, sub: s, submitG: -1, tIn: -1}
				if w.Chance(1, 3) {
					q.pre = w.Pick(pauseKinds)
				}
				if w.Chance(c.ctx, 100) {
					q.ctxKind = w.OneOf(ctxCancel, ctxDead, ctxNil, ctxTimeout, ctxCancel)
					q.at = w.Pick(pauseKinds)
				}
				if w.Chance(1, 8) {
					q.preNext = 1 + w.Pick(4)
				}
				q.plan = h.genPlan(w, c)
				h.reqs = append(h.reqs, q)
				qs = append(qs, q)
			}
			g.subs = append(g.subs, qs)
		}
		h.groups = append(h.groups, g)
	}
	// Not both very many requests and very many preprocessors.
	if n := len(h.reqs); h.pps > 3 && n*h.pps > 2000 {
		h.pps = max(3, 2000/n)
	}
}

func (h *sh) drawForm(w *kit.W) {
	if w.Chance(1, 2) {
		h.form = w.Pick(8)
		h.viaI = w.Chance(1, 2)
	}
}

// newPipe draws a configuration and a workload.
func newPipe(w *kit.W, cats int, c gen) *sh {
	h := newSH(w, cats, w.Size(1, 2, 10), w.Range(1, 3), anySubs(w))
	h.reuse = w.Chance(1, 4)
	if cats&(catShut|catSpan) == 0 && w.Chance(1, 8) {
		h.twin = newSH(w, cats, w.Range(1, 2), w.Range(1, 3), 0)
		h.twin.ordered, h.twin.dag = w.Chance(1, 2), w.Chance(1, 3)
		if !h.twin.ordered {
			h.twin.cats &^= catOrder
		}
	}
	h.pps = w.OneOf(0, 1, 2, 3)
	if w.Chance(1, 60) {
		h.pps = w.Range(4, 40)
	}
	h.drawForm(w)
	h.ordered = w.Chance(1, 3)
	h.dag = w.Chance(1, 4)
	if w.Chance(1, 5) {
		h.delay = time.Duration(w.Range(1, 3)) * time.Millisecond
	}
	return h
}
