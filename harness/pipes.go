package main

import (
	"context"
	"errors"
	"runtime"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/verifsim/kit"
)

func init() {
	register("C15", Scenario{Name: "mix", Weight: 3, Run: c15Mix, Race: true},
		Scenario{Name: "churn", Weight: 3, Run: c15Churn, Race: true})
	register("C16", Scenario{Name: "ordered", Weight: 3, Run: c16Ordered, Race: true},
		Scenario{Name: "gaps", Weight: 2, Run: c16Gaps})
	register("C17", Scenario{Name: "routes", Weight: 3, Run: c17Routes, Race: true})
	register("C18", Scenario{Name: "dag", Weight: 3, Run: c18DAG, Race: true},
		Scenario{Name: "long", Weight: 2, Run: c18Long},
		Scenario{Name: "reuse", Weight: 3, Run: c18Reuse, Race: true})
	register("C19", Scenario{Name: "shutdown", Weight: 3, Run: c19Shutdown, Race: true},
		Scenario{Name: "churn", Weight: 1, Run: c19Churn},
		Scenario{Name: "blocked-submit", Weight: 2, Run: c19Blocked},
		Scenario{Name: "apart", Weight: 1, Run: c19Apart})
	register("C20", Scenario{Name: "exact", Weight: 2, Run: c20Exact, Tune: kit.Tune{NoJump: true}},
		Scenario{Name: "bounds", Weight: 2, Run: c20Bounds, Race: true})
	register("C21", Scenario{Name: "barrier", Weight: 2, Run: c21Barrier},
		Scenario{Name: "gate", Weight: 2, Run: c21Gate},
		Scenario{Name: "load", Weight: 1, Run: c21Load})
	register("C22", Scenario{Name: "exact", Weight: 2, Run: c22Exact, Tune: kit.Tune{NoJump: true}},
		Scenario{Name: "no-loss", Weight: 1, Run: c22NoLoss, Race: true},
		Scenario{Name: "short", Weight: 1, Run: c22Short, Tune: kit.Tune{NoJump: true}})
}

func c15Mix(w *kit.W) {
	h := newPipe(w, catDeliver, gen{})
	h.genGroups(w, gen{groups: 3, subs: 2, reqs: 3, steps: 3, errs: 20, ctx: 20, loops: h.dag || w.Chance(1, 2), slow: true})
	early := w.Chance(1, 4)
	base := runtime.SimLive()
	h.build()
	h.run(base, early)
}

// churn: groups come and go at the same time, few requests each.
func (h *sh) churn(w *kit.W, cats int) {
	lanes := w.Range(2, 4)
	base := runtime.SimLive()
	var plan [][]*sgroup
	for l := 0; l < lanes; l++ {
		var gs []*sgroup
		for k := w.Size(1, 3, 40); k > 0; k-- {
			g := &sgroup{idx: len(h.groups), startAt: w.OneOf(0, 0, 1, 2, 5), closeAt: w.OneOf(0, 0, 1, 3)}
			var qs []*sreq
			for n := w.Range(0, 2); n > 0; n-- {
				q := &sreq{id: len(h.reqs), group: g.idx, submitG: -1, tIn: -1}
				q.plan = []pstep{{stage: 0, pause: w.OneOf(0, 0, 0, 1, 4)}}
				if w.Chance(1, 8) {
					q.ctxKind = w.OneOf(ctxDead, ctxCancel)
				}
				h.reqs = append(h.reqs, q)
				qs = append(qs, q)
			}
			g.subs = [][]*sreq{qs}
			h.groups = append(h.groups, g)
			gs = append(gs, g)
		}
		plan = append(plan, gs)
	}
	// A group that is there from before the others until after them.
	var elder *sgroup
	var eq []*sreq
	if w.Chance(1, 2) {
		elder = &sgroup{idx: len(h.groups)}
		h.groups = append(h.groups, elder)
		for i := 0; i < 2; i++ {
			q := &sreq{id: len(h.reqs), group: elder.idx, submitG: -1, tIn: -1}
			q.plan = []pstep{{stage: 0}}
			h.reqs = append(h.reqs, q)
			eq = append(eq, q)
		}
		elder.subs = [][]*sreq{eq}
	}
	h.build()
	for _, q := range h.reqs {
		h.mkCtx(q, w.Root())
	}
	ed := make(chan bool, 1)
	if elder != nil {
		elder.g = h.p.NewRequestGroup()
		go func() {
			for r := range elder.g.Out() {
				h.received(elder, r)
			}
			ed <- true
		}()
		h.submit(elder, eq[0])
	}
	ld := make(chan bool, lanes)
	for _, gs := range plan {
		go func() {
			for _, g := range gs {
				done := make(chan bool, 2)
				h.runGroup(g, done)
			}
			ld <- true
		}()
	}
	for range plan {
		<-ld
	}
	if elder != nil {
		h.submit(elder, eq[1])
		elder.g.Close()
		<-ed
	}
	h.atRest()
	h.p.Close()
	h.shutdown(base)
}

func c15Churn(w *kit.W) {
	h := newSH(w, catDeliver, 1, w.Range(1, 2), 0)
	h.ordered = w.Chance(1, 3)
	h.churn(w, catDeliver)
}

func c16Ordered(w *kit.W) {
	h := newPipe(w, catOrder|catDeliver, gen{})
	h.ordered = true
	h.dag = false
	h.num = w.Range(1, 3)
	h.genGroups(w, gen{groups: 2, subs: 3, reqs: 4, steps: 2, errs: 10, ctx: 30, loops: true, slow: true})
	h.build()
	h.run(0, w.Chance(1, 4))
}

// c16Gaps: one submitter; some of its submits are cancelled, most of them
// while the pipelines are too busy to take them.
func c16Gaps(w *kit.W) {
	h := newSH(w, catOrder|catDeliver, w.Range(1, 2), 1, 0)
	h.ordered = true
	g := &sgroup{}
	subs := w.Range(1, 2)
	for s := 0; s < subs; s++ {
		var qs []*sreq
		for k := w.Range(2, 6); k > 0; k-- {
			q := &sreq{id: len(h.reqs), sub: s, submitG: -1, tIn: -1}
			q.plan = []pstep{{pause: w.OneOf(0, 3, 7, 8, 8)}}
			if w.Chance(1, 2) {
				q.ctxKind = w.OneOf(ctxCancel, ctxTimeout, ctxCancel, ctxDead, ctxNil)
				q.at = w.OneOf(0, 2, 5, 6, 7)
			}
			h.reqs = append(h.reqs, q)
			qs = append(qs, q)
		}
		g.subs = append(g.subs, qs)
	}
	if w.Chance(1, 2) {
		g.consume = []int{w.Pick(pauseKinds)}
	}
	h.groups = []*sgroup{g}
	h.build()
	h.run(0, false)
}

func c17Routes(w *kit.W) {
	h := newPipe(w, catRoute, gen{})
	h.dag = w.Chance(1, 8)
	h.genGroups(w, gen{groups: 2, subs: 2, reqs: 3, steps: 6, errs: 35, ctx: 35, loops: !h.dag, slow: w.Chance(1, 2)})
	h.build()
	h.run(0, false)
}

func c18DAG(w *kit.W) {
	h := newPipe(w, catDAG, gen{})
	h.dag = !w.Chance(1, 6)
	h.genGroups(w, gen{groups: 2, subs: 2, reqs: 4, steps: 6, errs: 10, ctx: 10, loops: w.Chance(1, 2), slow: false})
	h.build()
	h.run(0, false)
}

// c18Long: long routes through many stages, also of the same name, with a
// return at any distance, or none.
func c18Long(w *kit.W) {
	h := newPipe(w, catDAG, gen{})
	h.dag = !w.Chance(1, 10)
	h.deep = true
	steps := 24
	if w.Chance(1, 40) {
		h.many = true
		steps = w.Range(24, nMany)
	}
	g := &sgroup{}
	for s, ns := 0, w.Range(1, 2); s < ns; s++ {
		var qs []*sreq
		for k := w.Range(1, 3); k > 0; k-- {
			q := &sreq{id: len(h.reqs), sub: s, submitG: -1, tIn: -1}
			q.plan = h.genPlan(w, gen{steps: steps})
			if w.Chance(1, 2) && len(q.plan) > 0 {
				q.plan = append(q.plan, pstep{stage: q.plan[w.Pick(len(q.plan))].stage})
				if w.Chance(1, 2) {
					q.plan = append(q.plan, pstep{stage: 0})
				}
			}
			h.reqs = append(h.reqs, q)
			qs = append(qs, q)
		}
		g.subs = append(g.subs, qs)
	}
	h.groups = []*sgroup{g}
	h.build()
	h.run(0, false)
}

// c18Reuse: output Requests are submitted again, to the same or to other
// Pipelines, while others are in flight.
func c18Reuse(w *kit.W) {
	var hs []*sh
	np := w.Range(1, 3)
	for i := 0; i < np; i++ {
		h := newSH(w, catDAG, w.Range(1, 2), w.Range(1, 3), w.Pick(3))
		h.dag = i == 0 || w.Chance(1, 2)
		h.deep = w.Chance(1, 4)
		h.drawForm(w)
		hs = append(hs, h)
	}
	type hop struct {
		h *sh
		q *sreq
	}
	// Each chain is a list of hops; the output of one is the input of the next.
	chains := w.Range(1, 3)
	var cs [][]hop
	for c := 0; c < chains; c++ {
		var hops []hop
		for k := w.Range(1, 4); k > 0; k-- {
			h := hs[w.Pick(np)]
			q := &sreq{id: len(h.reqs), group: c, submitG: -1, tIn: -1}
			q.plan = h.genPlan(w, gen{steps: 4, loops: w.Chance(1, 2)})
			h.reqs = append(h.reqs, q)
			hops = append(hops, hop{h, q})
		}
		cs = append(cs, hops)
	}
	resetNext := w.Chance(1, 2)
	for _, h := range hs {
		h.build()
	}
	done := make(chan bool, chains)
	for c, hops := range cs {
		go func() {
			var req sReq
			for i, hp := range hops {
				h, q := hp.h, hp.q
				g := h.p.NewRequestGroup()
				sg := &sgroup{idx: c}
				q.ctx = context.WithValue(w.Root(), ctxKey{}, q.id)
				if i == 0 {
					req = sReq{}
				}
				// Everything the library put into the output Request stays.
				req.Ctx = q.ctx
				req.Data = sdata{ID: q.id, P: new(int)}
				req.Err = nil
				if resetNext {
					req.Next = nil
				}
				w.Do(func() { q.state = 1; q.callSeq = w.Ev("submit", q.id, c) })
				if err := g.Submit(req); err != nil {
					w.Fail("submit-error-invented", "Submit failed:", err)
				}
				w.Do(func() { q.state = 2; q.retSeq = w.Ev("submit-ret", q.id, c) })
				cd := make(chan bool, 1)
				go func() {
					g.Close()
					cd <- true
				}()
				for r := range g.Out() {
					h.received(sg, r)
					req = r
				}
				<-cd
			}
			done <- true
		}()
	}
	for range cs {
		<-done
	}
	for _, h := range hs {
		h.p.Close()
	}
}

func c19Shutdown(w *kit.W) {
	h := newPipe(w, catShut, gen{})
	if w.Chance(1, 40) {
		w.Hit("never-used")
	} else {
		h.genGroups(w, gen{groups: 3, subs: 2, reqs: 3, steps: 3, errs: 15, ctx: 25, loops: true, slow: true})
	}
	early := w.Chance(1, 2)
	// Other pipelines may be busy all the time.
	var twin *sh
	open, td := make(chan bool), make(chan bool, 2)
	if w.Chance(1, 6) {
		twin = newSH(w, catShut, 1, 1, 0)
		twin.ordered = w.Chance(1, 3)
		twin.gate = func(sReq, int) { <-open }
		twin.build()
		q := &sreq{submitG: -1, tIn: -1, plan: []pstep{{}}}
		twin.reqs = []*sreq{q}
		twin.mkCtx(q, w.Root())
		g := &sgroup{subs: [][]*sreq{{q}}}
		twin.groups = []*sgroup{g}
		go twin.runGroup(g, td)
		w.Idle()
		w.Hit("twin-busy")
	}
	base := runtime.SimLive()
	h.build()
	h.run(base, early)
	if twin != nil {
		close(open)
		<-td
		<-td
		twin.p.Close()
		twin.shutdown(0)
	}
}

func c19Churn(w *kit.W) {
	h := newSH(w, catShut, 1, 1, 0)
	h.ordered = w.Chance(1, 3)
	h.churn(w, catShut)
}

// c19Blocked: the stages are held, Submits that cannot be taken block and
// return when their context is cancelled.
func c19Blocked(w *kit.W) {
	h := newSH(w, catShut|catDeliver, w.Range(1, 2), w.Range(1, 2), 0)
	h.ordered = w.Chance(1, 3)
	base := runtime.SimLive()
	h.build()
	gate := make(chan bool)
	h.gate = func(r sReq, st int) { <-gate }
	extra := w.Range(1, 3)
	timeout := w.Chance(1, 2)
	groups := w.Range(1, 2)
	cancelAt := w.Pick(pauseKinds)
	var gs []*sgroup
	for i := 0; i < groups; i++ {
		g := &sgroup{idx: i, g: h.p.NewRequestGroup()}
		gs = append(gs, g)
	}
	cd := make(chan bool, groups)
	for _, g := range gs {
		go func() {
			for r := range g.g.Out() {
				h.received(g, r)
			}
			cd <- true
		}()
	}
	subs := 0
	sd := make(chan bool, 100)
	start := func(group int, expires bool) *sreq {
		q := &sreq{id: len(h.reqs), group: group, submitG: -1, tIn: -1, plan: []pstep{{}}}
		if expires {
			q.ctxKind = ctxTimeout
			q.at = 1
		}
		h.reqs = append(h.reqs, q)
		h.mkCtx(q, w.Root())
		subs++
		go func() {
			h.submit(gs[group], q)
			sd <- true
		}()
		return q
	}
	// Fill the held pipelines until a Submit blocks.
	for {
		q := start(w.Pick(groups), false)
		w.Idle()
		if q.state == 1 {
			break
		}
		if subs > 60 {
			w.Hit("never-blocked")
			break
		}
	}
	var victims []*sreq
	for i := 0; i < extra; i++ {
		victims = append(victims, start(w.Pick(groups), timeout))
	}
	w.Idle()
	if timeout {
		// The others have to go on while these are refused: time only passes
		// when nothing else can.
		time.Sleep(2 * time.Millisecond)
		w.Idle()
	}
	for len(victims) > 0 {
		k := w.Pick(len(victims))
		q := victims[k]
		victims = append(victims[:k:k], victims[k+1:]...)
		if !timeout {
			pause(w, cancelAt)
			h.cancelReq(q)
			w.Idle()
		}
		if q.state == 1 && !kit.RaceMode {
			w.Fail("cancelled-submit-blocked", "a Submit on the held pipelines did not return after its context was cancelled")
		}
		if q.state == 2 && q.cancelSeq > 0 && q.retSeq > q.cancelSeq && !kit.RaceMode {
			w.Fail("cancelled-submit-accepted", "a Submit on the held pipelines did not return its context's error")
		}
	}
	close(gate)
	for ; subs > 0; subs-- {
		<-sd
	}
	for _, g := range gs {
		g.closing.Set(1)
		g.g.Close()
	}
	for range gs {
		<-cd
	}
	h.p.Close()
	h.shutdown(base)
}

// c19Apart: requests of one group are held in a stage, and its Close waits for
// them; with a worker free, other groups come and go meanwhile.
func c19Apart(w *kit.W) {
	h := newSH(w, catShut|catDeliver|catOrder, w.Range(1, 3), w.Range(1, 3), w.Pick(3))
	h.ordered = w.Chance(1, 3)
	if !h.ordered {
		h.cats &^= catOrder
	}
	total := h.num * h.S
	if total < 2 {
		h.num, total = 2, 2*h.S
	}
	base := runtime.SimLive()
	held := w.Range(1, total-1)
	free := w.Pick(3) // requests of the first group that are not held
	others := w.Range(1, 4)
	per := make([]int, others)
	for i := range per {
		per[i] = w.Pick(4)
	}
	lanes := w.Range(1, 2)
	closeAt := w.Pick(4)
	h.build()
	open := make(chan bool)
	h.gate = func(r sReq, st int) {
		if r.Data.ID < held {
			<-open
		}
	}
	mk := func(g *sgroup) *sreq {
		q := &sreq{id: len(h.reqs), group: g.idx, submitG: -1, tIn: -1, plan: []pstep{{}}}
		h.reqs = append(h.reqs, q)
		h.mkCtx(q, w.Root())
		return q
	}
	first := &sgroup{closeAt: closeAt}
	h.groups = append(h.groups, first)
	var qs []*sreq
	for i := 0; i < held+free; i++ {
		qs = append(qs, mk(first))
	}
	first.subs = [][]*sreq{qs}
	fd := make(chan bool, 2)
	go h.runGroup(first, fd)
	if w.Chance(1, 2) {
		<-fd // all submitted
		w.Idle()
		fd <- true
	}
	plan := make([][]*sgroup, lanes)
	for i, n := range per {
		g := &sgroup{idx: len(h.groups), closeAt: w.Pick(3)}
		h.groups = append(h.groups, g)
		var qs []*sreq
		for k := 0; k < n; k++ {
			qs = append(qs, mk(g))
		}
		g.subs = [][]*sreq{qs}
		plan[i%lanes] = append(plan[i%lanes], g)
	}
	ld := make(chan bool, lanes)
	for _, gs := range plan {
		go func() {
			for _, g := range gs {
				h.runGroup(g, make(chan bool, 2))
			}
			ld <- true
		}()
	}
	for range plan {
		<-ld
	}
	w.Hit("groups-apart")
	close(open)
	<-fd
	<-fd
	h.p.Close()
	h.shutdown(base)
}

// c20Exact: time only passes in sleeps, so every duration is known exactly.
func c20Exact(w *kit.W) {
	h := newSH(w, catStats, w.Range(1, 3), w.Range(1, 2), 0)
	h.ordered = w.Chance(1, 4)
	h.dag = w.Chance(1, 5)
	h.reuse = w.Chance(1, 3)
	if w.Chance(1, 3) {
		h.pps = w.Range(1, 3)
	}
	slow := w.Chance(1, 4) // consumers
	if slow && w.Chance(1, 3) {
		h.delay = time.Duration(w.Range(1, 3)) * time.Millisecond
	}
	rounds := w.Range(1, 2)
	first := runtime.SimNextID()
	h.build()
	last := runtime.SimNextID()
	// Other pipelines of the same name, that are busy meanwhile.
	var twin *sh
	td := make(chan bool, 3)
	if w.Chance(1, 4) {
		twin = newSH(w, catStats, 1, 1, 0)
		g := &sgroup{subs: [][]*sreq{nil}}
		for k := w.Range(1, 4); k > 0; k-- {
			q := &sreq{id: len(twin.reqs), submitG: -1, tIn: -1}
			q.preSleep = time.Duration(w.Pick(3)) * 100 * time.Microsecond
			q.plan = []pstep{{sleep: time.Duration(w.OneOf(0, 20, 400, 3000)) * time.Microsecond}}
			twin.reqs = append(twin.reqs, q)
			g.subs[0] = append(g.subs[0], q)
			twin.mkCtx(q, w.Root())
		}
		twin.groups = []*sgroup{g}
		late := w.Pick(3)
		go func() {
			time.Sleep(time.Duration(late) * 100 * time.Microsecond)
			twin.build()
			twin.runGroup(g, td)
			td <- true
		}()
	}
	if st := h.p.Stats(); st != (stagedpipe.Stats{}) {
		w.Fail("stats-not-zero", "Stats of unused pipelines are not all zero")
	}
	// The machine may not get to run the workers for a while, so that every
	// request has to wait.
	held := w.Chance(1, 3)
	for r := 0; r < rounds; r++ {
		var gs []*sgroup
		was := len(h.reqs)
		for i, n := 0, w.Range(1, 2); i < n; i++ {
			g := &sgroup{idx: len(h.groups) + i}
			together := w.Chance(1, 3) // many requests enter and leave at the same instants
			t0, nsubs := w.Now(), w.Range(1, 3)
			if together {
				nsubs = w.Range(2, 6)
			}
			for s := 0; s < nsubs; s++ {
				var qs []*sreq
				if together {
					q := &sreq{id: len(h.reqs), group: g.idx, submitG: -1, tIn: -1}
					q.preSleep = time.Duration(w.Pick(4)) * 10 * time.Microsecond
					q.plan = []pstep{{until: t0 + int64(w.Range(1, 3))*int64(50*time.Microsecond)}}
					if w.Chance(1, 6) {
						q.plan[0].err = 1
					}
					h.reqs = append(h.reqs, q)
					g.subs = append(g.subs, []*sreq{q})
					continue
				}
				for k := w.Range(1, 3); k > 0; k-- {
					q := &sreq{id: len(h.reqs), group: g.idx, submitG: -1, tIn: -1}
					q.pre = w.OneOf(0, 0, 7, 8)
					for st := w.Range(1, 3); st > 0; st-- {
						p := pstep{sleep: time.Duration(w.OneOf(0, 1, 5, 100, 333, 1000))*time.Microsecond + time.Duration(w.OneOf(0, 0, 0, 1, 137, 999))}
						if w.Chance(1, 20) && h.delay == 0 {
							p.sleep *= time.Duration(w.OneOf(1000, 1000000, 30000000)) // up to days
						}
						if len(q.plan) > 0 {
							p.stage = w.Pick(h.kind)
						}
						q.plan = append(q.plan, p)
					}
					if w.Chance(1, 6) {
						st := &q.plan[w.Pick(len(q.plan))]
						st.err, st.keep = 1, w.Chance(1, 2)
					}
					if h.pps > 0 && w.Chance(1, 6) {
						q.plan[w.Pick(len(q.plan))].errPP = w.Range(1, h.pps)
					}
					h.reqs = append(h.reqs, q)
					qs = append(qs, q)
				}
				g.subs = append(g.subs, qs)
			}
			if slow {
				g.consume, g.late = []int{w.Pick(pauseKinds), 8}, w.OneOf(0, 8)
			}
			gs = append(gs, g)
		}
		if preNext := w.OneOf(0, 0, 0, 1, 3); preNext > 0 {
			for i, q := range h.reqs[was:] {
				if i%preNext == 0 { // it comes with Next set
					q.preNext = 1 + w.Pick(4)
				}
			}
		}
		if !h.ordered && !slow && w.Chance(1, 3) {
			for _, q := range h.reqs[was:] {
				if w.Chance(1, 3) {
					q.cut = time.Duration(w.OneOf(1, 12, 55, 80, 120, 400, 1500))*time.Microsecond + time.Duration(w.OneOf(0, 0, 0, 500))
				}
			}
		}
		h.groups = append(h.groups, gs...)
		done := make(chan bool, 2*len(gs))
		if held {
			w.Fault("workers-held")
			runtime.SimHold(first, last)
		}
		for _, g := range gs {
			for _, qs := range g.subs {
				for _, q := range qs {
					h.mkCtx(q, w.Root())
					if q.cut > 0 {
						time.AfterFunc(q.cut, func() { h.cancelReq(q) })
					}
				}
			}
			go h.runGroup(g, done)
		}
		if held {
			time.Sleep(time.Duration(w.Range(1, 4)) * 15 * time.Microsecond)
			runtime.SimRelease()
		}
		for i := 0; i < 2*len(gs); i++ {
			<-done
		}
		h.atRest()
		h.exactStats()
	}
	h.p.Close()
	if twin != nil {
		for i := 0; i < 3; i++ {
			<-td
		}
		twin.atRest()
		twin.exactStats()
		twin.p.Close()
		w.Hit("twin")
	}
}

type minmax struct{ min, max, sum, n int64 }

func (m *minmax) add(v int64) {
	if m.n == 0 || v < m.min {
		m.min = v
	}
	if v > m.max {
		m.max = v
	}
	m.sum += v
	m.n++
}

func (h *sh) exactStats() {
	w := h.w
	if kit.RaceMode {
		return
	}
	var run, ing minmax
	for _, q := range h.reqs {
		if q.state != 2 {
			continue
		}
		if q.tIn < 0 && q.ctx.Err() != nil {
			// Cancelled before its first stage. Out is received at once.
			q.tIn, q.tOut = q.tDel, q.tDel
			w.Hit("cancelled-in-queue")
		}
		run.add(q.tOut - q.tIn)
		ing.add(q.tIn - q.tSub)
	}
	st := h.p.Stats()
	cmp := func(what string, m minmax, min, max, avg time.Duration) {
		if int64(min) != m.min {
			w.Fail("min-wrong", what, "Min is", int64(min), "instead of", m.min)
		}
		if int64(max) != m.max {
			w.Fail("max-wrong", what, "Max is", int64(max), "instead of", m.max)
		}
		if d := int64(avg)*m.n - m.sum; m.n > 0 && (d >= m.n || d <= -m.n) {
			w.Fail("avg-wrong", what, "Avg is", int64(avg), "with a total of", m.sum, "over", m.n)
		}
	}
	cmp("processing", run, st.Min, st.Max, st.Avg)
	cmp("ingestion", ing, st.IngestStats.Min, st.IngestStats.Max, st.IngestStats.Avg)
	if ing.min > 0 {
		w.Hit("every-request-waited")
	}
	if ing.max > 0 {
		w.Hit("ingest-wait")
	}
	if run.min != run.max {
		w.Hit("different-times")
	}
}

// c20Bounds: readers at any instant.
func c20Bounds(w *kit.W) {
	h := newPipe(w, catStats, gen{})
	h.genGroups(w, gen{groups: 2, subs: 2, reqs: 3, steps: 3, errs: 20, ctx: 20, loops: true})
	reads := w.Range(1, 6)
	readers := w.Range(1, 2)
	var pauses []int
	for i := 0; i < 3; i++ {
		pauses = append(pauses, w.Pick(pauseKinds))
	}
	h.build()
	rd := make(chan bool, readers)
	for k := 0; k < readers; k++ {
		go func() {
			var last int64
			for i := 0; i < reads; i++ {
				pause(w, pauses[i%len(pauses)])
				type mark struct {
					q *sreq
					v int
				}
				var in []mark
				w.Do(func() {
					for _, q := range h.reqs {
						if q.inside {
							in = append(in, mark{q, q.visit})
						}
					}
				})
				st := h.p.Stats()
				w.Do(func() {
					n := 0
					for _, m := range in {
						if m.q.inside && m.q.visit == m.v {
							n++
						}
					}
					sub := 0
					for _, q := range h.reqs {
						if q.state == 1 || q.state == 2 {
							sub++
						}
					}
					if n > 0 {
						w.Hit("read-while-inside")
					}
					switch {
					case st.Running < 0:
						w.Fail("running-negative", "Stats.Running is", st.Running)
					case st.Running < int64(n):
						w.Fail("running-low", "Stats.Running is", st.Running, "while", n, "requests are inside a stage")
					case st.Completed < last:
						w.Fail("completed-decreased", "Stats.Completed went from", last, "to", st.Completed)
					case st.Completed > int64(sub):
						w.Fail("completed-high", "Stats.Completed is", st.Completed, "with", sub, "submitted")
					}
					last = st.Completed
				})
			}
			rd <- true
		}()
	}
	h.run(0, false)
	for k := 0; k < readers; k++ {
		<-rd
	}
}

// c21Barrier: num x S requests that wait for each other inside their stages.
func c21Barrier(w *kit.W) {
	h := newSH(w, catBound, w.Size(1, 3, 20), w.Range(1, 3), anySubs(w))
	h.pps = w.Pick(2)
	h.dag = w.Chance(1, 4)
	warm := w.Range(0, 3)
	groups := w.Range(1, 2)
	h.build()
	total := h.num * h.S
	all := make(chan bool)
	arrived := make(chan bool, total)
	gateOn := false
	h.gate = func(r sReq, st int) {
		q := h.reqs[r.Data.ID]
		if gateOn && r.Data.Pos == len(q.plan) {
			arrived <- true
			<-all
		}
	}
	mk := func(i, g int) *sreq {
		q := &sreq{id: len(h.reqs), group: g, submitG: -1, tIn: -1, plan: []pstep{{}}}
		for k := i % 3; k > 0; k-- {
			av := h.avail()
			s := av[(i+k)%len(av)]
			if s == 0 || (len(q.plan) > 1 && q.plan[1].stage == s) {
				continue
			}
			q.plan = append(q.plan, pstep{stage: s})
		}
		h.reqs = append(h.reqs, q)
		h.mkCtx(q, w.Root())
		return q
	}
	var warmQ []*sreq
	for i := 0; i < warm; i++ {
		warmQ = append(warmQ, mk(i, 0))
	}
	g0 := &sgroup{idx: 0, subs: [][]*sreq{warmQ}}
	done := make(chan bool, 2)
	h.runGroup(g0, done)
	gateOn = true
	var gs []*sgroup
	for i := 0; i < groups; i++ {
		gs = append(gs, &sgroup{idx: i + 1})
	}
	for i := 0; i < total; i++ {
		g := gs[i%groups]
		g.subs = append(g.subs, []*sreq{mk(i, g.idx)})
	}
	done = make(chan bool, 2*groups)
	for _, g := range gs {
		go h.runGroup(g, done)
	}
	for i := 0; i < total; i++ {
		<-arrived
	}
	close(all)
	for i := 0; i < 2*groups; i++ {
		<-done
	}
	h.p.Close()
}

// c21Gate: more requests than the limit; exactly the limit are inside.
func c21Gate(w *kit.W) {
	h := newSH(w, catBound, w.Size(1, 3, 20), w.Range(1, 3), anySubs(w))
	h.build()
	total := h.num * h.S
	more := w.Range(1, 4)
	all := make(chan bool)
	h.gate = func(r sReq, st int) { <-all }
	g := &sgroup{}
	for i := 0; i < total+more; i++ {
		q := &sreq{id: i, submitG: -1, tIn: -1, plan: []pstep{{}}}
		h.reqs = append(h.reqs, q)
		h.mkCtx(q, w.Root())
		g.subs = append(g.subs, []*sreq{q})
	}
	done := make(chan bool, 2)
	go h.runGroup(g, done)
	w.Idle()
	if n := h.in.Cur(); n != total && !kit.RaceMode {
		w.Fail("not-full", n, "requests are inside stages; it should be", total)
	}
	close(all)
	<-done
	<-done
	h.p.Close()
}

func c21Load(w *kit.W) {
	h := newPipe(w, catBound, gen{})
	h.genGroups(w, gen{groups: 2, subs: 3, reqs: 3, steps: 3, errs: 10, ctx: 10, loops: true})
	h.build()
	h.run(0, false)
}

// c22Exact: phases in which a stalled consumer holds every worker for a known
// simulated time.
func c22Exact(w *kit.W) {
	h := newSH(w, 0, w.Range(1, 2), w.Range(1, 2), 0)
	h.name = "pipe" + letters(uint64(w.Pick(20)))
	if w.Chance(1, 8) {
		h.name = []string{"%d", "100%", "%s %v!", "Ünï", "a/b-1"}[w.Pick(5)] + h.name
	}
	d := time.Duration(w.OneOf(10, 1, 3, 1000)) * time.Millisecond
	h.delay = d
	h.dag = w.Chance(1, 5)
	errs := w.OneOf(0, 0, 1, 2, 3) // every how many requests come out with an Err
	dead := w.OneOf(0, 0, 0, 1, 2) // every how many are cancelled while they wait
	phases := w.Range(1, 3)
	workers := h.num * h.kind
	type phase struct {
		stall time.Duration
		gap   time.Duration
		k     int
		b     int // set: no more requests than make b workers wait
	}
	var ps []phase
	for i := 0; i < phases; i++ {
		k := w.OneOf(0, 1, 2, 3)
		if w.Chance(1, 20) {
			k = w.Range(4, 100)
		}
		f := w.OneOf(50, 10, 90)
		ps = append(ps, phase{time.Duration(k)*d + d*time.Duration(f)/100, d * time.Duration(w.OneOf(0, 30, 100, 170)) / 100, k, w.OneOf(0, 0, 1, 2, -1)})
	}
	// Some workers may be kept in a stage.
	inside := 0
	if workers > 1 && w.Chance(1, 2) {
		inside = w.Range(1, workers-1)
	}
	// With one worker the order of the output is known.
	h.ordered = workers-inside == 1 && w.Chance(1, 2)
	h.build()
	id := 0
	open := make(chan bool)
	ran := 0
	h.gate = func(r sReq, st int) {
		if r.Data.ID < inside {
			<-open
			return
		}
		w.Do(func() { ran++ })
	}
	var ig *sgroup
	id0 := make(chan bool, 2)
	if inside > 0 {
		ig = &sgroup{idx: 0, subs: [][]*sreq{nil}}
		for ; id < inside; id++ {
			q := &sreq{id: id, submitG: -1, tIn: -1, plan: []pstep{{}}}
			h.reqs = append(h.reqs, q)
			h.mkCtx(q, w.Root())
			ig.subs[0] = append(ig.subs[0], q)
		}
		go h.runGroup(ig, id0)
		<-id0
		w.Idle()
		w.Hit("busy-workers")
	}
	workers -= inside
	g := h.p.NewRequestGroup()
	// The first phase only finds out how many requests fit between the workers
	// and the consumer.
	fit := 0
	ps = append([]phase{{}}, ps...)
	for pi, p := range ps {
		before := len(kit.Log.Lines)
		sd := make(chan bool, 1)
		n, waiting := 12+workers, workers
		// Those that get stuck may be of other groups than those in the way.
		fresh := 0
		if pi > 0 {
			fresh = w.OneOf(0, 0, 1, 2, 100)
		}
		var others []*stagedpipe.RequestGroup[sdata]
		var counts []*int
		var sents []int
		drain := make(chan bool)
		drained := make(chan bool, 64)
		if p.b != 0 {
			waiting = max(min(p.b, workers), 0)
			n = fit + p.b
			w.Hit("no-backlog")
		}
		go func() {
			for i := 0; i < n; i++ {
				q := &sreq{id: id, submitG: -1, tIn: -1, plan: []pstep{{}}}
				if errs > 0 && id%errs == 0 {
					q.plan[0].err = 1
					if id%2 == 0 { // it has set Next, too
						q.plan[0].keep = true
						q.plan = append(q.plan, pstep{})
					}
				}
				id++
				h.reqs = append(h.reqs, q)
				h.mkCtx(q, w.Root())
				into := g
				if fresh > 0 && i >= fit {
					if i == fit {
						w.Idle()
					}
					if len(others) == 0 || fresh == 1 || (i-fit)%fresh == 0 {
						others = append(others, h.p.NewRequestGroup())
						og := others[len(others)-1]
						cnt := new(int)
						counts = append(counts, cnt)
						sents = append(sents, 0)
						go func() {
							<-drain
							for range og.Out() {
								w.Do(func() { *cnt++ })
							}
							drained <- true
						}()
					}
					into = others[len(others)-1]
					sents[len(sents)-1]++
				}
				h.submit(&sgroup{g: into}, q)
				if dead > 0 && id%dead == 0 && i < fit+waiting {
					// It is on its way out already, or soon.
					time.AfterFunc(d/7, q.cancel)
				}
			}
			sd <- true
		}()
		if pi == 0 {
			w.Idle()
			fit = ran - workers
		} else {
			time.Sleep(p.stall)
			w.Fault("consumer-stall")
		}
		after := len(kit.Log.Lines)
		got := 0
		mine := n
		if fresh > 0 {
			mine = min(n, fit)
		}
		close(drain)
		for range mine {
			<-g.Out()
			got++
		}
		<-sd
		w.Idle()
		for _, og := range others {
			og.Close()
			<-drained
		}
		for i := range others {
			if *counts[i] != sents[i] {
				w.Fail("lost", "a group got", *counts[i], "of its", sents[i], "requests")
			}
			w.Hit("other-groups")
		}
		if after != len(kit.Log.Lines) {
			w.Fail("late-warning", "a warning was logged while the output was flowing, phase", pi)
		}
		if after-before != waiting*p.k {
			w.Fail("warning-count", "phase", pi, ":", waiting, "workers were blocked for", int64(p.stall), "ns with a limit of", int64(d),
				"ns:", after-before, "warnings instead of", waiting*p.k)
		}
		for _, l := range kit.Log.Lines[before:after] {
			if !contains(l.Text, h.name) {
				w.Fail("warning-name", "the warning does not name the pipelines:", l.Text)
			}
		}
		if after > before {
			w.Hit("warned")
		}
		time.Sleep(p.gap)
	}
	if len(kit.Log.Lines) != 0 && !contains(kit.Log.Lines[0].Text, h.name) {
		w.Fail("warning-name", "wrong name")
	}
	close(open)
	if ig != nil {
		<-id0
	}
	g.Close()
	h.p.Close()
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// c22NoLoss: everything still comes out once and in order.
func c22NoLoss(w *kit.W) {
	h := newPipe(w, catDeliver|catOrder, gen{})
	h.delay = time.Duration(w.OneOf(1, 1, 2, 5, 1000)) * time.Millisecond
	h.ordered = w.Chance(1, 2)
	if !h.ordered {
		h.cats = catDeliver
	}
	h.genGroups(w, gen{groups: 2, subs: 2, reqs: 4, steps: 2, errs: 10, ctx: 10, loops: true, slow: true})
	for _, g := range h.groups {
		if len(g.consume) == 0 && w.Chance(1, 2) {
			g.consume = []int{w.Pick(pauseKinds), 8}
			g.late = 8
		}
	}
	h.build()
	h.run(0, w.Chance(1, 4))
	if !kit.RaceMode && len(kit.Log.Lines) > 0 {
		w.Hit("warned")
	}
}

// c22Short: no warning when the whole run is shorter than the limit; with
// idle periods longer than the limit in between.
func c22Short(w *kit.W) {
	h := newPipe(w, 0, gen{})
	h.delay = time.Second
	h.ordered = w.Chance(1, 3)
	rounds := w.Range(1, 3)
	base := 0
	for r := 0; r < rounds; r++ {
		k := len(h.groups)
		h.genGroups(w, gen{groups: 2, subs: 2, reqs: 3, steps: 2, errs: 10, ctx: 10, loops: true, slow: true})
		for i, g := range h.groups[k:] {
			g.idx = k + i
			for _, qs := range g.subs {
				for _, q := range qs {
					q.group = g.idx
				}
			}
		}
		if r == 0 {
			h.build()
		}
		gs := h.groups[k:]
		start := time.Now()
		done := make(chan bool, 2*len(gs))
		for _, g := range gs {
			for _, qs := range g.subs {
				for _, q := range qs {
					h.mkCtx(q, w.Root())
				}
			}
			go h.runGroup(g, done)
		}
		for i := 0; i < 2*len(gs); i++ {
			<-done
		}
		took := time.Since(start)
		time.Sleep(time.Duration(w.OneOf(0, 300, 999, 1000, 1500)) * time.Millisecond)
		if took >= h.delay { // a very large round
			base = len(kit.Log.Lines)
		}
		if n := len(kit.Log.Lines); n > base {
			w.Fail("early-warning", "a warning was logged although no hand-off took", int64(h.delay), "ns:", kit.Log.Last())
		}
	}
	h.p.Close()
}

var _ = errors.Is
