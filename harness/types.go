package main

import (
	"context"
	"errors"
	"sort"
	"strconv"

	"github.com/go-json-experiment/json"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/queue"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/verifsim/kit"
	"github.com/gostdlib/concurrency/prim/atomics"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
)

// The packages are generic: these scenarios use them with values of many
// types, zero values and values that cannot be compared or encoded among them.

func init() {
	for p, f := range map[string]func(typedRun, *kit.W){
		"C10": typedRun.slices, "C12": typedRun.access, "C13": typedRun.modify,
		"C14": typedRun.value, "C15": typedRun.pipe, "C16": typedRun.pipe, "C23": typedRun.queue,
	} {
		register(p, Scenario{Name: "types", Weight: 1, Run: func(w *kit.W) { f(aType(w), w) }})
	}
}

type typedRun interface {
	slices(w *kit.W)
	access(w *kit.W)
	modify(w *kit.W)
	value(w *kit.W)
	pipe(w *kit.W)
	queue(w *kit.W)
	warm(w *kit.W)
}

// typed makes values of T: mk(i) is a value that key maps to i, or, for some
// i, the zero value, which key maps to -1.
type typed[T any] struct {
	mk  func(i int) T
	key func(v T) int
}

type bigVal struct {
	a [40]int
	s string
}

func anyKey(v any) int {
	switch v := v.(type) {
	case nil:
		return -1
	case int:
		return v
	case string:
		n, _ := strconv.Atoi(v)
		return n
	case []int:
		return v[0]
	case *myErr:
		return v.id
	case func() int:
		return v()
	}
	return -2
}

var types = []typedRun{
	typed[*int]{
		mk: func(i int) *int {
			if i%3 == 2 {
				return nil
			}
			return &i
		},
		key: func(v *int) int {
			if v == nil {
				return -1
			}
			return *v
		},
	},
	typed[any]{
		mk: func(i int) any {
			switch i % 6 {
			case 0:
				return i
			case 1:
				return strconv.Itoa(i)
			case 2:
				return []int{i}
			case 3:
				return &myErr{i}
			case 4:
				return func() int { return i }
			}
			return nil
		},
		key: anyKey,
	},
	typed[string]{
		mk: func(i int) string {
			if i%3 == 0 {
				return ""
			}
			return strconv.Itoa(i)
		},
		key: func(v string) int {
			if v == "" {
				return -1
			}
			n, _ := strconv.Atoi(v)
			return n
		},
	},
	typed[[]int]{
		mk: func(i int) []int {
			if i%3 == 1 {
				return nil
			}
			return []int{i, i}
		},
		key: func(v []int) int {
			if v == nil {
				return -1
			}
			return v[1]
		},
	},
	typed[error]{
		mk: func(i int) error {
			if i%3 == 1 {
				return nil
			}
			return &myErr{i}
		},
		key: func(v error) int {
			if v == nil {
				return -1
			}
			return v.(*myErr).id
		},
	},
	typed[func() int]{
		mk: func(i int) func() int {
			if i%4 == 3 {
				return nil
			}
			return func() int { return i }
		},
		key: func(v func() int) int {
			if v == nil {
				return -1
			}
			return v()
		},
	},
	typed[bigVal]{
		mk: func(i int) bigVal {
			if i%4 == 3 {
				return bigVal{}
			}
			return bigVal{a: [40]int{39: i}, s: "x"}
		},
		key: func(v bigVal) int {
			if v.s == "" {
				return -1
			}
			return v.a[39]
		},
	},
	typed[struct{}]{
		mk:  func(i int) struct{} { return struct{}{} },
		key: func(v struct{}) int { return -1 },
	},
	typed[bool]{
		mk: func(i int) bool { return i%2 == 1 },
		key: func(v bool) int {
			if v {
				return -3
			}
			return -1
		},
	},
}

func aType(w *kit.W) typedRun { return types[w.Pick(len(types))] }

// bag is a multiset of keys.
type bag struct{ keys []int }

//go:norace
//go:noinline
func (b *bag) add(w *kit.W, k int) {
	w.Ev("value", k, 0)
	b.keys = append(b.keys, k)
}

func (b *bag) same(w *kit.W, what string, want []int) {
	sort.Ints(b.keys)
	sort.Ints(want)
	if len(b.keys) != len(want) {
		w.Fail("wrong-count", what, "had", len(b.keys), "values instead of", len(want))
	}
	for i, k := range want {
		if b.keys[i] != k {
			w.Fail("wrong-value", what, "had other values than those given:", b.keys[i], "instead of", k)
		}
	}
}

func (t typed[T]) slices(w *kit.W) {
	n := w.Range(0, 8)
	ip := newIterPool(w, w.Pick(iterPools), w.Range(1, 3))
	s := make([]T, n)
	mods := make([]bool, n)
	pauses := make([]int, n)
	for i := range s {
		s[i] = t.mk(i)
		mods[i] = w.Chance(1, 2)
		pauses[i] = w.Pick(pauseKinds)
	}
	cnt := kit.NewCounts(n)
	err := slices.Access(w.Root(), s, func(ctx context.Context, i int, v T, m slices.Modifier[T]) error {
		if cnt.Enter(i) > 1 {
			w.Fail("element-twice", "the accessor of element", i, "was called twice")
		}
		if t.key(v) != t.key(t.mk(i)) {
			w.Fail("wrong-value", "the accessor of element", i, "got another element's value")
		}
		pause(w, pauses[i])
		if mods[i] {
			m(t.mk(i + 1))
		}
		cnt.Leave()
		return nil
	}, ip.slices(w.Chance(1, 2), w.Pick(2))...)
	if err != nil {
		w.Fail("error-invented", "no accessor failed but Access returned", err)
	}
	for i := range s {
		want := i
		if mods[i] {
			want++
		}
		if cnt.Get(i) != 1 {
			w.Fail("element-lost", "the accessor of element", i, "was called", cnt.Get(i), "times")
		}
		if t.key(s[i]) != t.key(t.mk(want)) {
			w.Fail("wrong-content", "element", i, "has another value than its modifier was given")
		}
	}
	ip.finish(w)
}

// feed sends n values.
func (t typed[T]) feed(w *kit.W, n int) (in chan T, want []int) {
	in = make(chan T, w.OneOf(0, 0, 1, n))
	for i := 0; i < n; i++ {
		want = append(want, t.key(t.mk(i)))
	}
	go func() {
		for i := 0; i < n; i++ {
			in <- t.mk(i)
		}
		close(in)
	}()
	return in, want
}

func (t typed[T]) access(w *kit.W) {
	n := w.Range(0, 8)
	ip := newIterPool(w, w.Pick(iterPools), w.Range(1, 3))
	p := w.Pick(pauseKinds)
	in, want := t.feed(w, n)
	var got bag
	err := chans.Access(w.Root(), in, func(ctx context.Context, v T) error {
		pause(w, p)
		got.add(w, t.key(v))
		return nil
	}, ip.chans(w.Chance(1, 2), w.Pick(2))...)
	if err != nil {
		w.Fail("error-invented", "no function failed but Access returned", err)
	}
	got.same(w, "Access", want)
	ip.finish(w)
}

func (t typed[T]) modify(w *kit.W) {
	n := w.Range(0, 8)
	ip := newIterPool(w, w.Pick(iterPools), w.Range(1, 3))
	p := w.Pick(pauseKinds)
	fails := w.Pick(3)
	shift := w.Range(0, 4)
	in := make(chan int, w.OneOf(0, 0, 1, n))
	go func() {
		for i := 0; i < n; i++ {
			in <- i
		}
		close(in)
	}()
	var want []int
	bad := 0
	for i := 0; i < n; i++ {
		if fails > 0 && i%3 == fails {
			bad++
			continue
		}
		want = append(want, t.key(t.mk(i+shift)))
	}
	out := make(chan chans.StreamResult[T], w.OneOf(0, 1, n))
	var got bag
	nb := 0
	cd := make(chan bool, 1)
	go func() {
		for r := range out {
			if r.Err != nil {
				nb++
				continue
			}
			got.add(w, t.key(r.Value))
		}
		cd <- true
	}()
	e := &myErr{1}
	err := chans.Modify(w.Root(), in, out, func(ctx context.Context, i int) (v T, err error) {
		pause(w, p)
		if fails > 0 && i%3 == fails {
			return v, e
		}
		return t.mk(i + shift), nil
	}, ip.chans(false, w.Pick(2))...)
	<-cd
	if bad > 0 && !errors.Is(err, e) || bad == 0 && err != nil {
		w.Fail("wrong-error", bad, "modifiers failed and Modify returned", err)
	}
	if nb != bad {
		w.Fail("wrong-count", bad, "modifiers failed but there are", nb, "error results")
	}
	got.same(w, "the output", want)
	ip.finish(w)
}

// value: writers with their own values; a reader sees the zero value or one of
// those, and at the end the last one of a writer.
func (t typed[T]) value(w *kit.W) {
	nw := w.Range(1, 3)
	per := w.Range(1, 3)
	reads := w.Range(0, 3)
	var r atomics.RWValue[T]
	zero := t.key(r.Load())
	if zero != -1 {
		w.Fail("not-zero", "Load of an unset value is not the zero value")
	}
	known := map[int]bool{-1: true}
	for i := 0; i < nw*per; i++ {
		known[t.key(t.mk(i))] = true
	}
	done := make(chan bool, nw+1)
	fails := w.Pick(3)
	for k := 0; k < nw; k++ {
		go func() {
			for j := 0; j < per; j++ {
				i := k*per + j
				switch (i + fails) % 3 {
				case 0:
					r.Store(t.mk(i))
				case 1:
					r.LoadReplace(func(v T) (T, error) {
						if !known[t.key(v)] {
							w.Fail("invented", "LoadReplace got a value nobody stored")
						}
						return t.mk(i), nil
					})
				case 2:
					e := &myErr{i}
					if err := r.LoadReplace(func(T) (T, error) { return t.mk(-7 - i), e }); err != error(e) {
						w.Fail("error-lost", "LoadReplace returned", err)
					}
				}
			}
			done <- true
		}()
	}
	go func() {
		for i := 0; i < reads; i++ {
			if !known[t.key(r.Load())] {
				w.Fail("invented", "Load returned a value nobody stored")
			}
		}
		done <- true
	}()
	for i := 0; i <= nw; i++ {
		<-done
	}
	last := map[int]bool{}
	for k := 0; k < nw; k++ {
		for j := per - 1; j >= 0; j-- {
			if i := k*per + j; (i+fails)%3 != 2 {
				last[t.key(t.mk(i))] = true
				break
			}
		}
	}
	if len(last) == 0 {
		last[-1] = true
	}
	if !last[t.key(r.Load())] {
		w.Fail("update-lost", "the value is not the last one of any writer")
	}
}

// tySM walks each request through two stages.
type tySM[T any] struct {
	t typed[T]
	w *kit.W
	p int
}

func (s *tySM[T]) Close() {}

func (s *tySM[T]) check(r stagedpipe.Request[T], add int) int {
	i, _ := r.Ctx.Value(ctxKey{}).(int)
	if s.t.key(r.Data) != s.t.key(s.t.mk(i+add)) {
		s.w.Fail("wrong-data", "request", i, "has other data than it was given")
	}
	return i
}

func (s *tySM[T]) Start(r stagedpipe.Request[T]) stagedpipe.Request[T] {
	i := s.check(r, 0)
	pause(s.w, s.p)
	r.Data = s.t.mk(i + 1)
	r.Next = s.Second
	return r
}

func (s *tySM[T]) Second(r stagedpipe.Request[T]) stagedpipe.Request[T] {
	i := s.check(r, 1)
	r.Data = s.t.mk(i + 2)
	if i%4 == 1 {
		r.Err = &myErr{i}
	}
	return r
}

func (t typed[T]) pipe(w *kit.W) {
	sm := &tySM[T]{t, w, w.Pick(pauseKinds)}
	var o []stagedpipe.Option[T]
	ordered := w.Chance(1, 2)
	if ordered {
		o = append(o, stagedpipe.Ordered[T]())
	}
	if w.Chance(1, 3) {
		o = append(o, stagedpipe.DAG[T]())
	}
	n := w.Range(1, 6)
	pre := w.Chance(1, 2)
	if pre {
		o = append(o, stagedpipe.PreProcessors(func(r stagedpipe.Request[T]) stagedpipe.Request[T] { return r }))
	}
	p, err := stagedpipe.New("types", w.Range(1, 2), stagedpipe.StateMachine[T](sm), o...)
	if err != nil {
		w.Fail("new-failed", "New failed:", err)
	}
	g := p.NewRequestGroup()
	done := make(chan bool, 1)
	got := kit.NewCounts(n)
	go func() {
		next := 0
		for r := range g.Out() {
			i := sm.check(r, 2)
			if got.Enter(i) > 1 {
				w.Fail("delivered-twice", "request", i, "came out twice")
			}
			if ordered && i != next {
				w.Fail("out-of-order", "request", i, "came out when it was the turn of", next)
			}
			if (r.Err != nil) != (i%4 == 1) {
				w.Fail("wrong-err", "request", i, "came out with", r.Err)
			}
			next++
		}
		done <- true
	}()
	for i := 0; i < n; i++ {
		ctx := context.WithValue(w.Root(), ctxKey{}, i)
		if err := g.Submit(stagedpipe.Request[T]{Ctx: ctx, Data: t.mk(i)}); err != nil {
			w.Fail("submit-error-invented", "Submit failed:", err)
		}
	}
	g.Close()
	<-done
	for i := 0; i < n; i++ {
		if got.Get(i) != 1 {
			w.Fail("lost", "request", i, "came out", got.Get(i), "times")
		}
	}
	p.Close()
}

func (t typed[T]) queue(w *kit.W) {
	limit := w.Range(1, 4)
	n := w.Range(0, 10)
	p := w.Pick(pauseKinds)
	q := queue.New[T](limit)
	go func() {
		for i := 0; i < n; i++ {
			q.Push(t.mk(i))
		}
		q.Close()
	}()
	for i := 0; ; i++ {
		v, ok := q.Pop()
		if !ok {
			if i != n {
				w.Fail("lost", "Pop reported the end after", i, "of", n, "values")
			}
			if t.key(v) != -1 && n > 0 {
				w.Fail("not-zero", "Pop at the end returned a value")
			}
			break
		}
		if i >= n || t.key(v) != t.key(t.mk(i)) {
			w.Fail("out-of-order", "Pop", i, "returned another value than the one pushed then")
		}
		pause(w, p)
	}
}

func (t typed[T]) warm(w *kit.W) {
	for i := 0; i < 12; i++ {
		json.Marshal(t.mk(i))
	}
	if p, err := stagedpipe.New("types", 1, stagedpipe.StateMachine[T](&tySM[T]{t, w, 0})); err == nil {
		p.Close()
	}
}

// warmTyped fills the caches that depend on the type.
func warmTyped(w *kit.W) {
	for _, t := range types {
		t.warm(w)
	}
}
