package main

import (
	"sync"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/queue"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/verifsim/kit"
)

func init() {
	register("C23", Scenario{Name: "history", Weight: 5, Run: c23History, Race: true},
		Scenario{Name: "close", Weight: 2, Run: c23Close, Race: true},
		Scenario{Name: "fill", Weight: 1, Run: c23Fill},
		Scenario{Name: "bulk", Weight: 1, Run: c23Bulk, Race: true, Tune: kit.Tune{Soft: 2000000}})
}

const (
	qPush = iota
	qPop
	qClose
)

// queueModel is a bounded first-in first-out queue that can be closed: a Push
// takes effect only while there is room, a Pop only while there is a value or
// the queue is closed. The state is the closed flag and the values, one byte
// each.
func queueModel(limit int) kit.Model {
	return kit.Model{Init: "o", Step: func(st string, o *kit.Op) (string, bool) {
		items := st[1:]
		switch o.Kind {
		case qPush:
			if limit > 0 && len(items) >= limit {
				return "", false
			}
			return st + string(rune('0'+o.Arg)), true
		case qPop:
			if o.Ret == 0 {
				// Pending: it may take the oldest value.
				if items == "" {
					return "", false
				}
				return st[:1] + items[1:], true
			}
			if !o.OK {
				return st, items == "" && st[0] == 'c'
			}
			if items == "" || items[0] != byte('0'+o.Out) {
				return "", false
			}
			return st[:1] + items[1:], true
		}
		return "c" + items, true
	}}
}

type qval struct {
	a int
	s string
}

// c23History: concurrent pushers and poppers; the queue is closed once every
// push returned (or never, when the pops match the pushes).
func c23History(w *kit.W) {
	w.Unit = time.Millisecond // the queue polls: hours would be millions of steps
	limit := w.OneOf(0, 0, 1, 2, 3)
	pushers := w.Range(1, 3)
	poppers := w.Range(1, 3)
	type op struct{ v, pause int }
	plans := make([][]op, pushers)
	v := 0
	for g := range plans {
		for n := w.Range(1, 4); n > 0; n-- {
			plans[g] = append(plans[g], op{v, w.OneOf(0, 0, 0, 1, 3, 8)})
			v++
		}
	}
	closes := w.Pick(3) != 0
	quota := make([]int, poppers)
	for i := 0; i < v; i++ {
		quota[w.Pick(poppers)]++
	}
	ppause := w.OneOf(0, 0, 0, 1, 4)
	reclose := w.Chance(1, 6)

	q := queue.New[qval](limit)
	h := &kit.Hist{W: w}
	var pg, cg sync.WaitGroup
	pg.Add(pushers)
	cg.Add(poppers)
	for g, ops := range plans {
		go func() {
			for _, o := range ops {
				pause(w, o.pause)
				var i int
				w.Do(func() { i = h.Call(g, qPush, o.v) })
				q.Push(qval{o.v, "v"})
				w.Do(func() { h.Return(i, 0, true) })
			}
			pg.Done()
		}()
	}
	for g := 0; g < poppers; g++ {
		go func() {
			for n := 0; closes || n < quota[g]; n++ {
				var i int
				w.Do(func() { i = h.Call(10+g, qPop, 0) })
				x, ok := q.Pop()
				w.Do(func() { h.Return(i, x.a, ok) })
				if !ok {
					if x != (qval{}) {
						w.Fail("value-not-zero", "Pop returned a value with ok false")
					}
					if !closes {
						w.Fail("pop-not-ok", "Pop reported the end of a queue nobody closed")
					}
					break
				}
				if x.s != "v" {
					w.Fail("torn-value", "Pop returned a value nobody pushed")
				}
				if n > 40 {
					w.Fail("invented-value", "Pop returns more values than were pushed")
				}
				pause(w, ppause)
			}
			cg.Done()
		}()
	}
	pg.Wait()
	if closes {
		var i int
		w.Do(func() { i = h.Call(99, qClose, 0) })
		q.Close()
		w.Do(func() { h.Return(i, 0, true) })
		if reclose {
			q.Close()
		}
	}
	cg.Wait()
	if kit.RaceMode {
		return
	}
	if closes {
		w.Hit("closed")
	}
	if limit > 0 {
		w.Hit("limited")
	}
	checkQueue(w, limit, h)
}

func checkQueue(w *kit.W, limit int, h *kit.Hist) {
	got := map[int]int{}
	pushed := 0
	for _, o := range h.Ops {
		if o.Kind == qPush {
			pushed++
		}
		if o.Kind == qPop && o.OK {
			got[o.Out]++
			if got[o.Out] > 1 {
				w.Fail("popped-twice", "value", o.Out, "was popped twice")
			}
		}
	}
	if len(got) != pushed {
		w.Fail("lost-value", pushed, "values were pushed,", len(got), "popped although the poppers ran to the end")
	}
	ok, done := kit.Linearizable(queueModel(limit), h.Ops, 200000)
	if !done {
		w.Hit("inconclusive")
		return
	}
	if !ok {
		w.Fail("not-linearizable", "no order of these calls explains their results in a queue of limit", limit)
	}
}

// c23Close: the queue is closed by a pusher right after its push, with poppers
// polling an empty queue: nothing that was pushed may be missed.
func c23Close(w *kit.W) {
	w.Unit = time.Millisecond // the queue polls: hours would be millions of steps
	poppers := w.Range(1, 3)
	rounds := w.Range(1, 4)
	limit := w.OneOf(0, 1, 2)
	n := w.Range(0, 2)
	pre := w.OneOf(0, 0, 1, 2, 5)
	mid := w.OneOf(0, 0, 0, 1)
	for r := 0; r < rounds; r++ {
		q := queue.New[qval](limit)
		h := &kit.Hist{W: w}
		var cg sync.WaitGroup
		cg.Add(poppers)
		for g := 0; g < poppers; g++ {
			go func() {
				defer cg.Done()
				for k := 0; k < 10; k++ {
					var i int
					w.Do(func() { i = h.Call(10+g, qPop, 0) })
					x, ok := q.Pop()
					w.Do(func() { h.Return(i, x.a, ok) })
					if !ok {
						return
					}
				}
				w.Fail("invented-value", "Pop returns more values than were pushed")
			}()
		}
		pause(w, pre)
		for k := 0; k < n; k++ {
			var i int
			w.Do(func() { i = h.Call(0, qPush, k) })
			q.Push(qval{k, "v"})
			w.Do(func() { h.Return(i, 0, true) })
		}
		pause(w, mid)
		var i int
		w.Do(func() { i = h.Call(99, qClose, 0) })
		q.Close()
		w.Do(func() { h.Return(i, 0, true) })
		cg.Wait()
		if !kit.RaceMode {
			checkQueue(w, limit, h)
		}
	}
}

// c23Fill: exactly limit values fit; the next Push blocks until a Pop.
func c23Fill(w *kit.W) {
	w.Unit = time.Millisecond // the queue polls: hours would be millions of steps
	limit := w.Range(1, 5)
	rounds := w.Range(1, 4)
	extra := w.Range(1, 3)
	q := queue.New[int](limit)
	next, want := 0, 0
	pop := func() {
		x, ok := q.Pop()
		if !ok {
			w.Fail("pop-not-ok", "Pop reported the end of an open queue")
		}
		if x != want {
			w.Fail("order", "Pop returned", x, "want", want)
		}
		want++
	}
	for r := 0; r < rounds; r++ {
		for next-want < limit {
			q.Push(next)
			next++
		}
		// Full: pushes block, pops release one each.
		returned := kit.NewCounts(1)
		done := make(chan bool, extra)
		go func() {
			for k := 0; k < extra; k++ {
				q.Push(next + k)
				w.Do(func() { returned.Enter(0) })
				done <- true
			}
		}()
		for k := 0; k < extra; k++ {
			w.Drain()
			if n := returned.Get(0); n != k {
				w.Fail("limit-exceeded", n, "pushes returned on a full queue after", k, "pops")
			}
			w.Hit("blocked-push")
			pop()
		}
		w.Drain()
		if n := returned.Get(0); n != extra {
			w.Fail("push-stuck", "a push stays blocked although there is room:", n, "of", extra, "returned")
		}
		next += extra
		for k := w.Pick(limit + 1); k > 0 && want < next; k-- {
			pop()
		}
	}
	if w.Pick(2) == 0 {
		q.Close()
	}
	for want < next {
		pop()
	}
	q.Close()
	if x, ok := q.Pop(); ok || x != 0 {
		w.Fail("invented-value", "an empty closed queue returned", x, ok)
	}
}

// c23Bulk: long runs of values keep each pusher's order, and lose, repeat or
// invent nothing.
func c23Bulk(w *kit.W) {
	if !kit.RaceMode && w.Chance(1, 250) {
		c23Idle(w)
		return
	}
	w.Unit = time.Millisecond // the queue polls: hours would be millions of steps
	limit := w.OneOf(0, 1, 7, 64)
	pushers := w.Range(1, 3)
	poppers := w.Range(1, 2)
	per := w.OneOf(20, 60, 300)
	q := queue.New[int](limit)
	var pg, cg sync.WaitGroup
	pg.Add(pushers)
	cg.Add(poppers)
	for g := 0; g < pushers; g++ {
		go func() {
			defer pg.Done()
			for k := 0; k < per; k++ {
				q.Push(g*1000 + k)
			}
		}()
	}
	seen := make([][]int, poppers)
	for g := 0; g < poppers; g++ {
		go func() {
			defer cg.Done()
			for {
				x, ok := q.Pop()
				if !ok {
					return
				}
				seen[g] = append(seen[g], x)
				if len(seen[g]) > pushers*per {
					w.Fail("invented-value", "Pop returns more values than were pushed")
				}
			}
		}()
	}
	pg.Wait()
	q.Close()
	cg.Wait()
	all := map[int]bool{}
	for _, s := range seen {
		last := make([]int, pushers)
		for i := range last {
			last[i] = -1
		}
		for _, x := range s {
			g, k := x/1000, x%1000
			if x < 0 || g >= pushers || k >= per {
				w.Fail("invented-value", "Pop returned", x)
			}
			if all[x] {
				w.Fail("popped-twice", "value", x, "was popped twice")
			}
			all[x] = true
			if k <= last[g] {
				w.Fail("order", "a popper got value", k, "of pusher", g, "after value", last[g])
			}
			last[g] = k
		}
	}
	if len(all) != pushers*per {
		w.Fail("lost-value", pushers*per, "values were pushed,", len(all), "popped")
	}
	w.Hit("bulk")
}

// c23Idle: poppers that waited for many minutes on an empty open queue still
// wait, and take a value soon after it is pushed.
func c23Idle(w *kit.W) {
	w.Unit = time.Millisecond
	limit := w.OneOf(0, 1, 3)
	poppers := w.Range(1, 2)
	// The longest pause between two polls is reached after about 500 s.
	idle := time.Duration(w.OneOf(1, 30, 480, 560)) * time.Second
	n := w.Range(1, 4)
	q := queue.New[int](limit)
	type got struct {
		x  int
		ok bool
	}
	out := make(chan got, 10)
	var cg sync.WaitGroup
	cg.Add(poppers)
	for g := 0; g < poppers; g++ {
		go func() {
			defer cg.Done()
			for {
				x, ok := q.Pop()
				out <- got{x, ok}
				if !ok {
					return
				}
			}
		}()
	}
	time.Sleep(idle)
	if len(out) > 0 {
		w.Fail("pop-not-ok", "Pop returned on an open queue that held nothing")
	}
	for k := 0; k < n; k++ {
		q.Push(k)
		// Clock jumps and stalls can make one wait look long, but not a thousand.
		for i := 0; i < 1000 && len(out) == 0; i++ {
			time.Sleep(5 * time.Millisecond)
		}
		if len(out) == 0 {
			w.Fail("pop-late", "a Pop that waited", idle, "did not take a value in 1000 waits of 5ms")
		}
		r := <-out
		if !r.ok {
			w.Fail("pop-not-ok", "Pop reported the end of an open queue after", idle)
		}
		if r.x != k {
			w.Fail("order", "Pop returned", r.x, "want", k)
		}
	}
	q.Close()
	cg.Wait()
	for g := 0; g < poppers; g++ {
		if r := <-out; r.ok || r.x != 0 {
			w.Fail("invented-value", "an empty closed queue returned", r.x, r.ok)
		}
	}
	if idle > 500*time.Second {
		w.Hit("long-idle")
	}
}
