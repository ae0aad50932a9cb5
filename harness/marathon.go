package main

import (
	"context"
	"fmt"
	"strconv"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/queue"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/verifsim/kit"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/gostdlib/concurrency/prim/wait"
)

// Marathons are runs of tens of thousands of items through one object: what
// holds for the first items must hold for all that follow.

func init() {
	t := kit.Tune{Soft: 300000, Max: 60000000}
	tj := t
	tj.NoJump = true
	add := func(p string, rare int, t kit.Tune, f func(w *kit.W)) {
		register(p, Scenario{Name: "marathon", Rare: rare, Tune: t, Run: f})
	}
	for _, p := range []string{"C01", "C02", "C03", "C04"} {
		add(p, 40000, t, marPool)
	}
	add("C07", 40000, t, marWait)
	add("C10", 40000, t, marSlices)
	add("C12", 40000, t, marAccess)
	add("C13", 40000, t, marModify)
	add("C15", 20000, t, marPipe)
	add("C16", 20000, t, marPipe)
	add("C20", 20000, tj, marStats)
	add("C23", 20000, t, marQueue)
}

// marN is above 2^16.
func marN(w *kit.W) int { return 66000 + w.Pick(4000) }

// marPool: exactly once, never too many, and afterwards the pool is as able
// as it was.
func marPool(w *kit.W) {
	lim := w.Chance(1, 2)
	size := w.OneOf(1, 2, 7, 40)
	n := marN(w)
	nbs := w.OneOf(1, 2, 10) // every nbs-th is NonBlocking
	if w.Chance(1, 2) {
		nbs = n + 1
	}
	p := newPool(w, lim, []string{"", "marathon"}[w.Pick(2)], size)
	cnt, run := kit.NewCounts(n), kit.NewCounts(0)
	for i := 0; i < n; i++ {
		nb := (i+1)%nbs == 0
		if i%1000 == 999 && nbs <= n {
			p.Wait() // or there are tens of thousands of goroutines at a time
			if r := p.Running(); r != 0 {
				w.Fail("gauge-not-zero", "after Wait Running is", r)
			}
		}
		job := func(context.Context) {
			if cnt.Enter(i) > 1 {
				w.Fail("job-twice", "job", i, "was executed twice")
			}
			if !nb {
				run.Enter(-1)
				if run.Cur() > size {
					w.Fail("over-limit", run.Cur(), "blocking-submitted jobs are executing in a pool of size", size)
				}
				run.Leave()
			}
		}
		var opts []goroutines.SubmitOption
		if nb {
			opts = append(opts, nonBlocking(lim))
		}
		if err := p.Submit(w.Root(), job, opts...); err != nil {
			w.Fail("valid-rejected", "Submit of a valid job failed:", err)
		}
	}
	p.Wait()
	for i := 0; i < n; i++ {
		if cnt.Get(i) != 1 {
			w.Fail("wait-early", "Wait returned and job", i, "was executed", cnt.Get(i), "times")
		}
	}
	if r := p.Running(); r != 0 {
		w.Fail("gauge-not-zero", "after Wait Running is", r)
	}
	barrier(w, p, size)
	p.Close()
}

func marWait(w *kit.W) {
	n := marN(w)
	var g wait.Group
	if w.Chance(1, 2) {
		g.Pool = newPool(w, true, "", 4)
	}
	cnt := kit.NewCounts(n)
	fail := w.OneOf(0, 0, 1, n-1) // the one that fails
	e := &myErr{fail}
	for i := 0; i < n; i++ {
		for cnt.Total < i-1000 {
			time.Sleep(time.Hour) // or there are tens of thousands of goroutines at a time
		}
		g.Go(w.Root(), func(context.Context) error {
			if cnt.Enter(i) > 1 {
				w.Fail("function-twice", "function", i, "was called twice")
			}
			cnt.Leave()
			if fail > 0 && i == fail {
				return e
			}
			return nil
		})
	}
	err := g.Wait(w.Root())
	for i := 0; i < n; i++ {
		if cnt.Get(i) != 1 {
			w.Fail("wait-early", "Wait returned and function", i, "was called", cnt.Get(i), "times")
		}
	}
	if fail > 0 && !kit.IsErr(w, err, e) || fail == 0 && err != nil {
		w.Fail("wrong-error", "function", fail, "failed (0: none) and Wait returned", err)
	}
	if r := g.Running(); r != 0 {
		w.Fail("running-not-zero", "after Wait Running is", r)
	}
}

func marSlices(w *kit.W) {
	n := marN(w)
	ip := newIterPool(w, w.OneOf(0, 1, 2, 5, 6), w.Range(1, 3))
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	cnt := kit.NewCounts(n)
	err := slices.Access(w.Root(), s, func(ctx context.Context, i int, v int, m slices.Modifier[int]) error {
		if cnt.Enter(i) > 1 {
			w.Fail("element-twice", "the accessor of element", i, "was called twice")
		}
		if v != i {
			w.Fail("wrong-value", "the accessor of element", i, "got the value of", v)
		}
		m(v + 1)
		cnt.Leave()
		return nil
	}, ip.slices(w.Chance(1, 2), w.Pick(2))...)
	if err != nil {
		w.Fail("error-invented", "no accessor failed but Access returned", err)
	}
	for i, v := range s {
		if v != i+1 || cnt.Get(i) != 1 {
			w.Fail("element-lost", "element", i, "was accessed", cnt.Get(i), "times and is", v)
		}
	}
	ip.finish(w)
}

// marFeed sends 0 to n-1.
func marFeed(w *kit.W, n int) chan int {
	in := make(chan int, w.OneOf(0, 1, 100, n))
	go func() {
		for i := 0; i < n; i++ {
			in <- i
		}
		close(in)
	}()
	return in
}

func marAccess(w *kit.W) {
	n := marN(w)
	ip := newIterPool(w, w.OneOf(0, 1, 2, 5, 6), w.Range(1, 3))
	cnt := kit.NewCounts(n)
	err := chans.Access(w.Root(), marFeed(w, n), func(ctx context.Context, v int) error {
		if v < 0 || v >= n || cnt.Enter(v) > 1 {
			w.Fail("value-twice", "value", v, "was passed twice")
		}
		cnt.Leave()
		return nil
	}, ip.chans(w.Chance(1, 2), w.Pick(2))...)
	if err != nil {
		w.Fail("error-invented", "no function failed but Access returned", err)
	}
	for i := 0; i < n; i++ {
		if cnt.Get(i) != 1 {
			w.Fail("value-lost", "value", i, "was passed", cnt.Get(i), "times")
		}
	}
	ip.finish(w)
}

func marModify(w *kit.W) {
	n := marN(w)
	ip := newIterPool(w, w.OneOf(0, 1, 2, 5, 6), w.Range(1, 3))
	cnt := kit.NewCounts(n)
	in := marFeed(w, n)
	out := make(chan chans.StreamResult[string], w.OneOf(0, 1, 100, n))
	done := make(chan bool, 1)
	go func() {
		for r := range out {
			v, err := strconv.Atoi(r.Value)
			if r.Err != nil || err != nil || v < 0 || v >= n || cnt.Enter(v) > 1 {
				w.Fail("result-twice", "result", r.Value, "came out twice, or is none; Err", r.Err)
			}
			cnt.Leave()
		}
		done <- true
	}()
	err := chans.Modify(w.Root(), in, out, func(ctx context.Context, v int) (string, error) {
		return strconv.Itoa(v), nil
	}, ip.chans(false, w.Pick(2))...)
	<-done
	if err != nil {
		w.Fail("error-invented", "no modifier failed but Modify returned", err)
	}
	for i := 0; i < n; i++ {
		if cnt.Get(i) != 1 {
			w.Fail("result-lost", "the result of", i, "came out", cnt.Get(i), "times")
		}
	}
	ip.finish(w)
}

// marSM walks each request through two stages; request slow stays for an hour.
type marSM struct {
	slow int
	cnt  *kit.Counts
}

func (s *marSM) Close() {}

func (s *marSM) Start(r stagedpipe.Request[int]) stagedpipe.Request[int] {
	if r.Data == s.slow {
		time.Sleep(time.Hour)
	}
	r.Next = s.Second
	return r
}

func (s *marSM) Second(r stagedpipe.Request[int]) stagedpipe.Request[int] {
	s.cnt.Enter(r.Data)
	s.cnt.Leave()
	return r
}

// marPipes makes a pipeline and sends it n requests, in one group or in many.
func marPipes(w *kit.W, n int) (p *stagedpipe.Pipelines[int], sm *marSM) {
	sm = &marSM{slow: -1, cnt: kit.NewCounts(n)}
	per := w.OneOf(n, n, 1, 50)
	par := w.Range(1, 2)
	if per == n && par > 1 && w.Chance(1, 2) {
		sm.slow = w.OneOf(0, 300)
		w.Hit("slow-first")
	}
	ordered := w.Chance(1, 2) || w.Prop == "C16"
	var o []stagedpipe.Option[int]
	if ordered {
		o = append(o, stagedpipe.Ordered[int]())
	}
	if w.Chance(1, 3) {
		o = append(o, stagedpipe.DAG[int]())
	}
	if w.Chance(1, 2) {
		o = append(o, stagedpipe.PreProcessors(func(r stagedpipe.Request[int]) stagedpipe.Request[int] { return r }))
	}
	p, err := stagedpipe.New("marathon", par, stagedpipe.StateMachine[int](sm), o...)
	if err != nil {
		w.Fail("new-failed", "New failed:", err)
	}
	// A group that stays open meanwhile.
	first := p.NewRequestGroup()
	for from := 0; from < n; from += per {
		to := min(from+per, n)
		g := p.NewRequestGroup()
		done := make(chan bool, 1)
		go func() {
			next := from
			for r := range g.Out() {
				if r.Data < from || r.Data >= to {
					w.Fail("wrong-group", "request", r.Data, "came out of the group of", from, "to", to)
				}
				if ordered && r.Data != next {
					w.Fail("out-of-order", "request", r.Data, "came out when it was the turn of", next)
				}
				if r.Err != nil {
					w.Fail("wrong-err", "request", r.Data, "came out with", r.Err)
				}
				next++
			}
			if next != to {
				w.Fail("lost", "of requests", from, "to", to, "came out", next-from)
			}
			done <- true
		}()
		for i := from; i < to; i++ {
			if err := g.Submit(stagedpipe.Request[int]{Ctx: w.Root(), Data: i}); err != nil {
				w.Fail("submit-error-invented", "Submit failed:", err)
			}
		}
		g.Close()
		<-done
	}
	first.Close()
	for r := range first.Out() {
		w.Fail("wrong-group", "request", r.Data, "came out of a group that got none")
	}
	for i := 0; i < n; i++ {
		if sm.cnt.Get(i) != 1 {
			w.Fail("lost", "request", i, "was in its stage", sm.cnt.Get(i), "times")
		}
	}
	return p, sm
}

func marPipe(w *kit.W) {
	p, _ := marPipes(w, marN(w))
	p.Close()
}

func marStats(w *kit.W) {
	n := marN(w)
	p, sm := marPipes(w, n)
	st := p.Stats()
	if st.Completed != int64(n) || st.Running != 0 {
		w.Fail("completed-wrong", "of", n, "requests Completed is", st.Completed, "and Running", st.Running)
	}
	if sm.slow >= 0 {
		if st.Max < time.Hour || st.Avg < time.Hour/time.Duration(n) {
			w.Fail("max-wrong", "a request took an hour and Stats says", fmt.Sprintf("%+v", st))
		}
	}
	if st.Min < 0 || st.Min > st.Avg || st.Avg > st.Max || st.IngestStats.Min > st.IngestStats.Avg || st.IngestStats.Avg > st.IngestStats.Max {
		w.Fail("stats-order", "Min, Avg and Max are not in order:", fmt.Sprintf("%+v", st))
	}
	p.Close()
}

func marQueue(w *kit.W) {
	n := marN(w)
	limit := w.OneOf(1, 300, n)
	q := queue.New[int](limit)
	fill := limit == n || w.Chance(1, 2)
	if fill {
		for i := 0; i < min(limit, n); i++ {
			q.Push(i)
		}
	}
	go func() {
		i := 0
		if fill {
			i = min(limit, n)
		}
		for ; i < n; i++ {
			q.Push(i)
		}
		q.Close()
	}()
	for i := 0; ; i++ {
		v, ok := q.Pop()
		if !ok {
			if i != n {
				w.Fail("lost", "Pop reported the end after", i, "of", n, "values")
			}
			return
		}
		if v != i {
			w.Fail("out-of-order", "Pop", i, "returned", v)
		}
	}
}
