From 80532ed3199f0b59ffa00754affa82502073589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 01/27] fix: limited.Pool releases a job's slot when the job
 ends, not when Submit returns

---
 goroutines/limited/goroutines.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 33304df..4e09632 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -151,7 +151,6 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 			p.blockEvent(spanner, fcn, now)
 			p.queue <- struct{}{}
 		}
-		defer func() { <-p.queue }()
 	}
 	p.submitEvent(spanner, fcn, opts.NonBlocking, now)
 
@@ -161,6 +160,10 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 	go func() {
 		defer p.wg.Done()
 		defer p.running.Add(-1)
+		if !opts.NonBlocking {
+			// Our slot is held until the job is done, not just until it is started.
+			defer func() { <-p.queue }()
+		}
 		runner(ctx)
 	}()
 
-- 
2.43.0


From 2e836de37ae6d1138f4850cda02b589efcff389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 02/27] fix: Pool.Len() returns the size of the pool instead of
 the length of its queue

---
 goroutines/limited/goroutines.go | 2 +-
 goroutines/pooled/goroutines.go  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 4e09632..0174224 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -77,7 +77,7 @@ func (p *Pool) Wait() {
 
 // Len returns the current size of the pool.
 func (p *Pool) Len() int {
-	return len(p.queue)
+	return cap(p.queue)
 }
 
 // Running returns the number of running jobs in the pool.
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index c9752f5..b0451b1 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -30,6 +30,7 @@ type Pool struct {
 	pool.Pool // Implements the pool.Preventer interface
 	queue     chan submit
 	name      string
+	size      int
 }
 
 // New creates a new Pool. "name" is the name of the pool which is used to get OTEL
@@ -48,7 +49,7 @@ func New(name string, size int) (*Pool, error) {
 	}
 
 	ch := make(chan submit, 1)
-	p := &Pool{name: name, queue: ch}
+	p := &Pool{name: name, queue: ch, size: size}
 	for i := 0; i < size; i++ {
 		go p.runner()
 	}
@@ -78,7 +79,7 @@ func (p *Pool) Wait() {
 
 // Len returns the current size of the pool.
 func (p *Pool) Len() int {
-	return len(p.queue)
+	return p.size
 }
 
 // Running returns the number of running jobs in the pool.
-- 
2.43.0


From d3f0be497ced32c31a1e7ad45778add60b59a591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 03/27] fix: pooled.Pool never parks a NonBlocking() job behind
 busy goroutines

---
 goroutines/pooled/goroutines.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index b0451b1..31a3cd1 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -48,7 +48,9 @@ func New(name string, size int) (*Pool, error) {
 		return nil, err
 	}
 
-	ch := make(chan submit, 1)
+	// This must not be buffered. A job is only handed to a goroutine that is ready to run it, otherwise
+	// a NonBlocking() job could sit in the buffer behind jobs that are waiting for it.
+	ch := make(chan submit)
 	p := &Pool{name: name, queue: ch, size: size}
 	for i := 0; i < size; i++ {
 		go p.runner()
-- 
2.43.0


From 8b05545fc958a3798156b250aa851bd5d414147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 04/27] fix: a third pool of the same name gets the next free
 name

New() asked for the name after the base name forever and NewName() could not
increment a numbered name.
---
 goroutines/internal/register/register.go | 8 ++++----
 goroutines/limited/goroutines.go         | 2 +-
 goroutines/pooled/goroutines.go          | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/goroutines/internal/register/register.go b/goroutines/internal/register/register.go
index 98d57cc..bef8c5c 100644
--- a/goroutines/internal/register/register.go
+++ b/goroutines/internal/register/register.go
@@ -56,18 +56,18 @@ func ValidateBaseName(name string) error {
 // NewName takes the base name of the pool and returns a unique name for the pool by trying
 // the next number until it finds a unique name.
 func NewName(name string) string {
-	if !numOrHyphen.MatchString(name) {
+	base, num, ok := strings.Cut(name, "-")
+	if !ok {
 		return name + "-1"
 	}
 
-	sp := strings.SplitAfter(name, "-")
-	n, err := strconv.Atoi(sp[1])
+	n, err := strconv.Atoi(num)
 	if err != nil {
 		panic(fmt.Sprintf("register is broken, name %s is invalid", name))
 	}
 
 	n++
-	return fmt.Sprintf("%s-%d", sp[0], n)
+	return fmt.Sprintf("%s-%d", base, n)
 }
 
 // Pools returns all pools registered by this package. Order is non-deterministic.
diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 0174224..d75ceee 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -54,7 +54,7 @@ func New(name string, size int) (*Pool, error) {
 
 	for {
 		if err := register.Register(p); err != nil {
-			p.name = register.NewName(name)
+			p.name = register.NewName(p.name)
 			continue
 		}
 		break
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index 31a3cd1..2733a60 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -58,7 +58,7 @@ func New(name string, size int) (*Pool, error) {
 
 	for {
 		if err := register.Register(p); err != nil {
-			p.name = register.NewName(name)
+			p.name = register.NewName(p.name)
 			continue
 		}
 		break
-- 
2.43.0


From d460881ef6bd10bf4248f4798b599c53dc873eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 05/27] fix: goroutines.Errors locks its readers and returns a
 copy

---
 goroutines/goroutines.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/goroutines/goroutines.go b/goroutines/goroutines.go
index adf37ea..ef777cf 100644
--- a/goroutines/goroutines.go
+++ b/goroutines/goroutines.go
@@ -182,6 +182,9 @@ func (e *Errors) Record(err error) {
 
 // Error returns the first error recieved.
 func (e *Errors) Error() error {
+	e.mu.Lock()
+	defer e.mu.Unlock()
+
 	if len(e.errors) == 0 {
 		return nil
 	}
@@ -190,5 +193,8 @@ func (e *Errors) Error() error {
 
 // Errors returns all errors.
 func (e *Errors) Errors() []error {
-	return e.errors
+	e.mu.Lock()
+	defer e.mu.Unlock()
+
+	return append([]error(nil), e.errors...)
 }
-- 
2.43.0


From dcf3aaedf206377ed589c584dbdaab7c65e014a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 06/27] fix: wait.Group.Wait() keeps every error, not just the
 last one

---
 prim/wait/wait.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 4706077..e36f95f 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -25,6 +25,7 @@ package wait
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"sync"
 	"sync/atomic"
@@ -235,7 +236,7 @@ func (w *Group) waitOTELEnd(t time.Time) {
 	}
 }
 
-// applyErr sets the error to be returned. If an error already exists, it wraps this error in that one.
+// applyErr sets the error to be returned. If an error already exists, this error is joined to it.
 // If the error is some context cancellation, that is only recorded if it is the first error.
 // This uses atomic compare and swap operations to avoid mutex.
 func applyErr(ptr *atomic.Pointer[error], err error) {
@@ -250,8 +251,8 @@ func applyErr(ptr *atomic.Pointer[error], err error) {
 			case context.Canceled, context.DeadlineExceeded:
 				return
 			}
-			err = fmt.Errorf("%w", err)
-			if ptr.CompareAndSwap(existing, &err) {
+			joined := errors.Join(*existing, err)
+			if ptr.CompareAndSwap(existing, &joined) {
 				return
 			}
 		}
-- 
2.43.0


From 3bcb0193b2e464d1f3f972d6ec2f62f1ff4af730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 07/27] fix: wait.Group.Running() is zero when Wait() returns

The count was decremented after wg.Done(), which could be after Wait() had
reset the Group, leaving -1.
---
 prim/wait/wait.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index e36f95f..076a81e 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -124,8 +124,8 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	if w.Pool == nil {
 		w.wg.Add(1)
 		go func() {
-			defer w.count.Add(-1)
 			defer w.wg.Done()
+			defer w.count.Add(-1)
 
 			if ctx.Err() != nil {
 				applyErr(&w.errors, ctx.Err())
@@ -146,8 +146,8 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	w.Pool.Submit(
 		ctx,
 		func(ctx context.Context) {
-			defer w.count.Add(-1)
 			defer w.wg.Done()
+			defer w.count.Add(-1)
 
 			if ctx.Err() != nil {
 				applyErr(&w.errors, ctx.Err())
-- 
2.43.0


From 19b87f37aa78b5c655a06f856754fb6c5fd4e0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 08/27] fix: RWValue.LoadReplace() works on an unset value

---
 prim/atomics/atomics.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/prim/atomics/atomics.go b/prim/atomics/atomics.go
index 6aa6fb7..563f1e2 100644
--- a/prim/atomics/atomics.go
+++ b/prim/atomics/atomics.go
@@ -47,17 +47,7 @@ func (r *RWValue[T]) LoadReplace(lr LoadReplacer[T]) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
-	v := r.v.Load()
-	var n T
-	var err error
-	if v == nil {
-		var zero T
-		n, err = lr(zero)
-		if err != nil {
-			return err
-		}
-	}
-	n, err = lr(*v)
+	n, err := lr(r.Load())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 329103d8c7ab04c9774f90cc1054bcb0685fde0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 09/27] fix: slices.Access() accepts its options

---
 prim/slices/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index dcefbe9..8d9cfa9 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -45,7 +45,7 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 	spanner := span.Get(ctx)
 
 	opts := &sliceOptions{}
-	if err := calloptions.ApplyOptions(&opts, options); err != nil {
+	if err := calloptions.ApplyOptions(opts, options); err != nil {
 		return err
 	}
 
-- 
2.43.0


From e6c3cea12517a59abf80d96d8d003ffdf93a733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 10/27] fix: WithPoolOptions() uses the given pool

---
 prim/chans/options.go  | 1 +
 prim/slices/options.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prim/chans/options.go b/prim/chans/options.go
index f5c54ed..05d97a0 100644
--- a/prim/chans/options.go
+++ b/prim/chans/options.go
@@ -46,6 +46,7 @@ func WithPoolOptions(pool goroutines.Pool, options ...goroutines.SubmitOption) i
 			func(a any) error {
 				switch t := a.(type) {
 				case *chanOptions:
+					t.pool = pool
 					t.poolOptions = options
 					return nil
 				}
diff --git a/prim/slices/options.go b/prim/slices/options.go
index 7c5baad..62ebc1a 100644
--- a/prim/slices/options.go
+++ b/prim/slices/options.go
@@ -49,6 +49,7 @@ func WithPoolOptions(pool goroutines.Pool, options ...goroutines.SubmitOption) i
 			func(a any) error {
 				switch t := a.(type) {
 				case *sliceOptions:
+					t.pool = pool
 					t.poolOptions = options
 					return nil
 				}
-- 
2.43.0


From 68c6a996ae363f77f82a7a32cd9d011fe25f8003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 11/27] fix: a cancelled slices.Access() waits for its running
 accessors

It returned while accessors were still running and dropped their errors.
---
 prim/slices/slice.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index 8d9cfa9..d637b23 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -69,11 +69,13 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 	}
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
+	// stopErr is set if we were cancelled before all elements were processed.
+	var stopErr error
 	for i := 0; i < len(s); i++ {
 		i := i
 
-		if ctx.Err() != nil {
-			return ctx.Err()
+		if stopErr = ctx.Err(); stopErr != nil {
+			break
 		}
 
 		wg.Go(
@@ -87,5 +89,5 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 		spanner.Error(err)
 		return err
 	}
-	return nil
+	return stopErr
 }
-- 
2.43.0


From 8d7f681e352651afcd2ee2cd244e146a938628aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 12/27] fix: chans.Access() waits for its accessors and sees a
 cancellation on an idle input

A cancelled Access returned while accessors were running, which made Modify()
send on its closed output, and did not return at all without further input.
---
 prim/chans/chans.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 92d5f07..d797a4d 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -131,11 +131,20 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 	}
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
-	for v := range input {
-		v := v
-
-		if ctx.Err() != nil {
-			return ctx.Err()
+	// stopErr is set if we were cancelled before the input was closed.
+	var stopErr error
+	for {
+		var v T
+		open := true
+		select {
+		case <-ctx.Done():
+		case v, open = <-input:
+		}
+		if !open {
+			break
+		}
+		if stopErr = ctx.Err(); stopErr != nil {
+			break
 		}
 
 		wg.Go(
@@ -152,7 +161,7 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 		spanner.Error(err)
 		return err
 	}
-	return nil
+	return stopErr
 }
 
 // StreamResult is a result from a Stream operation.
-- 
2.43.0


From 033a0f383f2737972680bc4b87f9ff028f2ee68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 13/27] fix: chans.Modify() returns the modifier's error also
 after a cancellation

---
 prim/chans/chans.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index d797a4d..773cc0a 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -200,7 +200,6 @@ func Modify[T, R any](ctx context.Context, input <-chan T, output chan <-StreamR
 		if err != nil {
 			select {
 			case <-ctx.Done():
-				return ctx.Err()
 			case output <- StreamResult[R]{Err: err}:
 			}
 			return err
-- 
2.43.0


From 91bfd4b8ba37f63f6fcb347b6e7ec6f8523746c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 14/27] fix: a RequestGroup made while another one closes keeps
 its receiver

The demuxer replaces its map without a lock when a receiver is removed, so the
new receiver could be lost and its first Request ended the process.
---
 pipelines/stagedpipe/stagedpipe.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 7894837..e1d6da7 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -306,6 +306,9 @@ type Pipelines[T any] struct {
 	requestGroupNum atomic.Uint64
 	// demux is used to demux the output of the Pipelines to the RequestGroup(s).
 	demux *demux.Demux[uint64, Request[T]]
+	// demuxLock protects adding and removing receivers, which demux does by copying
+	// its map. Without it a receiver added during a removal can be lost.
+	demuxLock sync.Mutex
 
 	stats *stats
 	// ss is true if the DAG() option was set.
@@ -512,6 +515,8 @@ func (r *RequestGroup[T]) Close() {
 
 	r.otelEnd()
 
+	r.p.demuxLock.Lock()
+	defer r.p.demuxLock.Unlock()
 	r.p.demux.RemoveReceiver(r.id) // This closes the input channel into the Pipelines object
 }
 
@@ -598,7 +603,9 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 		p:         p,
 		startOnce: &sync.Once{},
 	}
+	p.demuxLock.Lock()
 	p.demux.AddReceiver(id, r.out)
+	p.demuxLock.Unlock()
 
 	// If ordered is set, we need to return the output in order.
 	if p.ordered {
-- 
2.43.0


From 5cbcd170be769b5ef40eff5c097ff3a4d1adacc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 15/27] fix: Pipelines.Close() closes the StateMachine once all
 Requests are out

The WaitGroup it waits for was only decremented for failed Submit() calls.
---
 pipelines/stagedpipe/stagedpipe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index e1d6da7..536176e 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -619,6 +619,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 			defer r.ordered.Close()
 			for req := range r.out {
 				r.wg.Done()
+				r.p.wg.Done()
 				req.otelEnd()
 				if err := r.ordered.Add(req); err != nil {
 					panic("bug: ordered demuxer returned an error")
@@ -630,6 +631,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 			defer close(r.user)
 			for req := range r.out {
 				r.wg.Done()
+				r.p.wg.Done()
 				req.otelEnd()
 				r.user <- req
 			}
-- 
2.43.0


From c7d20c9b86a67d7115cf45dfde03ebdaf8464424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 16/27] fix: a failed Submit() does not stop the output of an
 Ordered() RequestGroup

It used up an item number, so every later Request waited for it forever and was
lost at Close().
---
 pipelines/stagedpipe/stagedpipe.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 536176e..b234b51 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -499,6 +499,9 @@ type RequestGroup[T any] struct {
 
 	// itemNum is used to track the order of the Request in the RequestGroup.
 	itemNum atomic.Uint64
+	// submitting is held during a Submit() when the Ordered() option is set, so that
+	// only Request(s) that enter the Pipelines are numbered.
+	submitting chan struct{}
 
 	// startOnce is used to do operations related to telemetry on the first Submit() call.
 	startOnce *sync.Once
@@ -545,8 +548,18 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 	})
 
 	req.groupNum = r.id
-	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.
 	req.queueTime = time.Now()
+	if r.ordered != nil {
+		select {
+		case <-req.Ctx.Done():
+			return req.Ctx.Err()
+		case r.submitting <- struct{}{}:
+		}
+		defer func() { <-r.submitting }()
+		req.itemNum = r.itemNum.Load() // This must start at 0.
+	} else {
+		req.itemNum = r.itemNum.Add(1) - 1
+	}
 
 	// This let's the Pipelines object know it is receiving a new Request to process.
 	r.p.wg.Add(1)
@@ -564,6 +577,9 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 		r.wg.Done()
 		return req.Ctx.Err()
 	case r.p.in <- req:
+		if r.ordered != nil {
+			r.itemNum.Add(1)
+		}
 	}
 
 	return nil
@@ -609,6 +625,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 
 	// If ordered is set, we need to return the output in order.
 	if p.ordered {
+		r.submitting = make(chan struct{}, 1)
 		r.ordered = demux.NewInOrder(
 			func(r Request[T]) uint64 {
 				return r.itemNum
-- 
2.43.0


From f92484385763131e74975ac9656dd661a3e796f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 17/27] fix: Stats.Min and IngestStats.Min are not always zero

---
 pipelines/stagedpipe/stats.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pipelines/stagedpipe/stats.go b/pipelines/stagedpipe/stats.go
index 4025978..c447f7b 100644
--- a/pipelines/stagedpipe/stats.go
+++ b/pipelines/stagedpipe/stats.go
@@ -1,6 +1,7 @@
 package stagedpipe
 
 import (
+	"math"
 	"sync/atomic"
 	"time"
 )
@@ -34,14 +35,26 @@ type stats struct {
 }
 
 func newStats() *stats {
-	return &stats{ingestStats: &ingestStats{}}
+	s := &stats{ingestStats: &ingestStats{}}
+	s.min.Store(math.MaxInt64)
+	s.ingestStats.min.Store(math.MaxInt64)
+	return s
+}
+
+// loadMin returns the minimum, which is 0 if there are no measurements.
+func loadMin(min *atomic.Int64) time.Duration {
+	v := min.Load()
+	if v == math.MaxInt64 {
+		return 0
+	}
+	return time.Duration(v)
 }
 
 func (s *stats) toStats() Stats {
 	stats := Stats{
 		Running:   s.running.Load(),
 		Completed: s.completed.Load(),
-		Min:       time.Duration(s.min.Load()),
+		Min:       loadMin(&s.min),
 		Max:       time.Duration(s.max.Load()),
 	}
 	if stats.Completed != 0 {
@@ -69,7 +82,7 @@ type ingestStats struct {
 
 func (i *ingestStats) toIngestStats(completed int64) IngestStats {
 	stats := IngestStats{
-		Min: time.Duration(i.min.Load()),
+		Min: loadMin(&i.min),
 		Max: time.Duration(i.max.Load()),
 	}
 	if completed != 0 {
-- 
2.43.0


From aa9a94a381b23582fcaca78a10741a981e1d9b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 18/27] fix: a processed Request does not keep its list of seen
 stages

The list was back in the pool while the output Request still had it, so
submitting that Request to Pipelines without DAG() reported cyclic errors and
raced with other Requests.
---
 pipelines/stagedpipe/stagedpipe.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index b234b51..3625621 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -748,16 +748,19 @@ func (p *pipeline[T]) runner() {
 }
 
 // processReq processes a single request through the pipeline.
-func (p *pipeline[T]) processReq(r Request[T]) Request[T] {
+func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 	// Stat colllection.
 	r.ingestTime = time.Now()
 	queuedTime := time.Since(r.queueTime)
 	if p.ss {
-		r.seenStages = seenStagesPool.Get().(*seenStages).reset()
+		seen := seenStagesPool.Get().(*seenStages).reset()
+		r.seenStages = seen
 		defer func() {
-			seenStagesPool.Put(r.seenStages)
-			r.seenStages = nil
+			out.seenStages = nil
+			seenStagesPool.Put(seen)
 		}()
+	} else {
+		r.seenStages = nil
 	}
 
 	p.stats.running.Add(1)
-- 
2.43.0


From 0bd018d4cc7405b9d041ae9a3796a3c4dbdd6e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 19/27] fix: DAG() detects the first return to Start()

The first Start() was recorded under the name of the interface method, so a
route back to Start() was executed once before it was reported.
---
 pipelines/stagedpipe/stagedpipe.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 3625621..7fafaee 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -670,6 +670,7 @@ type pipeline[T any] struct {
 	in            chan Request[T]
 	out           chan Request[T]
 	name          string
+	startName     string
 	preProcessors []PreProcesor[T]
 	id            int
 	concurrency   int
@@ -702,6 +703,7 @@ func newPipeline[T any](args pipelineArgs[T]) (*pipeline[T], error) {
 		preProcessors: args.preProcessors,
 		stats:         args.stats,
 		sm:            args.sm,
+		startName:     startName(args.sm),
 		ss:            args.ss,
 		delayWarning:  args.delayWarning,
 	}
@@ -771,9 +773,9 @@ func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 	// Loop through all our states starting with p.sms[0].Start until we
 	// get either an error or the Request.Next == nil
 	// which indicates that the statemachine is done processing.
-	stage := p.sm.Start
+	stage, stageName := Stage[T](p.sm.Start), p.startName
 	for {
-		r = p.execStage(r, stage)
+		r = p.execStage(r, stage, stageName)
 		if r.Err != nil {
 			return r
 		}
@@ -783,14 +785,13 @@ func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 		if stage == nil {
 			return r
 		}
+		stageName = methodName(stage)
 	}
 }
 
 // execStage executes a single stage of the pipeline and all preProcessors. It also
 // creates a new span for the stage.
-func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) Request[T] {
-	stageName := methodName(stage)
-
+func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) Request[T] {
 	parentCtx := r.Ctx
 	parentSpan := r.span
 	defer func() {
@@ -811,7 +812,7 @@ func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) Request[T] {
 	}
 
 	if r.seenStages != nil {
-		if r.seenStages.seen(methodName(stage)) {
+		if r.seenStages.seen(stageName) {
 			r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
 			return r
 		}
@@ -847,6 +848,16 @@ func numStages[T any](sm any) int {
 	return count
 }
 
+// startName returns the name of the Start() method of sm's own type, which is the name that
+// a Stage setting Request.Next to Start has. sm.Start itself is a method of the interface.
+func startName[T any](sm StateMachine[T]) string {
+	m, ok := reflect.TypeOf(sm).MethodByName("Start")
+	if !ok {
+		return methodName(sm.Start)
+	}
+	return methodName(m.Func.Interface())
+}
+
 // methodName takes a function or a method and returns its name.
 func methodName(method any) string {
 	if method == nil {
-- 
2.43.0


From d0599165056f71efc00ac36c6528820babffc2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 20/27] fix: queue.Pop() does not miss an entry pushed right
 before Close()

---
 pipelines/stagedpipe/internal/queue/queue.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/internal/queue/queue.go b/pipelines/stagedpipe/internal/queue/queue.go
index 14628b0..cbc06f3 100644
--- a/pipelines/stagedpipe/internal/queue/queue.go
+++ b/pipelines/stagedpipe/internal/queue/queue.go
@@ -59,12 +59,16 @@ func (q *Queue[A]) Pop() (val A, ok bool) {
 
 	var s time.Duration
 	for {
+		// This must be read before we try the queue: an entry can be pushed and the queue
+		// closed between the two.
+		closed := q.closed.Load()
+
 		a, ok := q.queue.pop()
 		if ok {
 			return a, ok
 		}
 
-		if q.closed.Load() {
+		if closed {
 			return a, ok
 		}
 
-- 
2.43.0


From 626f4fb215267085f2bcb2b433bce56e4da32b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 21/27] fix: wait.Group ends its span when Wait() is done

---
 prim/wait/wait.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 076a81e..2e7613c 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -84,6 +84,7 @@ type Group struct {
 func (w *Group) reset() {
 	w.start = time.Time{}
 	w.otelOnce = sync.Once{}
+	w.span = span.Span{}
 	w.count.Store(0)
 	w.total.Store(0)
 	w.errors.Store(nil)
@@ -188,6 +189,10 @@ func (w *Group) Wait(ctx context.Context) error {
 			"end", end.UTC(),
 			"elapsed_ns", end.Sub(now),
 		)
+		// If the span isn't recording, it is either not ours or already done.
+		if w.span.IsRecording() {
+			w.span.End()
+		}
 	}()
 
 	w.waitOTELStart()
-- 
2.43.0


From 61eb4adc6eba17cc7e6120f52ad62db81567d282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 22/27] fix: RequestGroup.Close() ends the RequestGroup's span

---
 pipelines/stagedpipe/stagedpipe.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 7fafaee..dc5788b 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -606,6 +606,7 @@ func (r *RequestGroup[T]) otelEnd() {
 		return
 	}
 	r.span.Event("RequestGroup finished", "elapsed_ns", time.Since(*r.started.Load()))
+	r.span.End()
 }
 
 // NewRequestGroup returns a RequestGroup that can be used to process requests
-- 
2.43.0


From 6e60591c19867d2534c3d82891eddff05f1c7175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 23/27] fix: a failed Submit() ends the span of its Request

---
 pipelines/stagedpipe/stagedpipe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index dc5788b..fec563f 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -575,6 +575,11 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 	case <-req.Ctx.Done():
 		r.p.wg.Done()
 		r.wg.Done()
+		// If the span isn't recording, it is not ours.
+		if spanner.IsRecording() {
+			spanner.Status(codes.Error, req.Ctx.Err().Error())
+			spanner.End()
+		}
 		return req.Ctx.Err()
 	case r.p.in <- req:
 		if r.ordered != nil {
-- 
2.43.0


From f7086c13039300bab04deda794f9db789f0fe6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 24/27] fix: stage spans are children of their Request's span
 and all are ended

---
 pipelines/stagedpipe/stagedpipe.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index fec563f..4db0460 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -87,6 +87,7 @@ import (
 	"github.com/johnsiilver/dynamics/demux"
 	"github.com/johnsiilver/dynamics/method"
 	"go.opentelemetry.io/otel/codes"
+	"go.opentelemetry.io/otel/trace"
 
 	"github.com/gostdlib/internals/otel/span"
 
@@ -797,18 +798,29 @@ func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 
 // execStage executes a single stage of the pipeline and all preProcessors. It also
 // creates a new span for the stage.
-func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) Request[T] {
+func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) (out Request[T]) {
 	parentCtx := r.Ctx
 	parentSpan := r.span
-	defer func() {
-		r.Ctx = parentCtx
-		r.span = parentSpan
-	}()
 	r.Ctx, r.span = span.New(r.Ctx, stageName)
+	stageCtx, stageSpan := r.Ctx, r.span
 
 	r.Event(stageName, "start", time.Now())
 	defer func() {
-		r.Event(stageName, "end", time.Now())
+		// If the span isn't recording, it is not ours.
+		if stageSpan.IsRecording() {
+			stageSpan.Event(stageName, "end", time.Now())
+			stageSpan.End()
+		}
+		out.span = parentSpan
+		if !parentSpan.IsRecording() || out.Ctx == nil {
+			return
+		}
+		if out.Ctx == stageCtx {
+			out.Ctx = parentCtx
+			return
+		}
+		// The stage made its own Context, which must not keep the span of the stage.
+		out.Ctx = trace.ContextWithSpan(out.Ctx, parentSpan.Span)
 	}()
 
 	// If the context has been cancelled, stop processing.
-- 
2.43.0


From cca78f66792a30a2dd0a6d792dc9a9fba10c3034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 25/27] fix: DAG() knows Start() also when it is promoted or
 has a value receiver

---
 pipelines/stagedpipe/stagedpipe.go | 49 ++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 4db0460..89f63e8 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -78,6 +78,7 @@ import (
 	"log"
 	"reflect"
 	"runtime"
+	"sort"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -866,14 +867,50 @@ func numStages[T any](sm any) int {
 	return count
 }
 
-// startName returns the name of the Start() method of sm's own type, which is the name that
-// a Stage setting Request.Next to Start has. sm.Start itself is a method of the interface.
+// startName returns the name of sm's Start() method where it is declared, which is the name that
+// a Stage setting Request.Next to Start has. sm.Start itself is a method of the interface. The
+// method of sm's own type is only a wrapper if Start has a value receiver or is promoted.
 func startName[T any](sm StateMachine[T]) string {
-	m, ok := reflect.TypeOf(sm).MethodByName("Start")
-	if !ok {
-		return methodName(sm.Start)
+	t := reflect.TypeOf(sm)
+	types := []reflect.Type{t}
+	if t.Kind() == reflect.Pointer {
+		t = t.Elem()
+		types = append(types, t)
+	}
+	if t.Kind() == reflect.Struct {
+		fields := reflect.VisibleFields(t)
+		sort.SliceStable(fields, func(i, j int) bool { return len(fields[i].Index) < len(fields[j].Index) })
+		for _, f := range fields {
+			if !f.Anonymous {
+				continue
+			}
+			types = append(types, f.Type)
+			if f.Type.Kind() == reflect.Pointer {
+				types = append(types, f.Type.Elem())
+			} else {
+				types = append(types, reflect.PointerTo(f.Type))
+			}
+		}
+	}
+
+	for _, t := range types {
+		m, ok := t.MethodByName("Start")
+		if !ok {
+			continue
+		}
+		if t.Kind() == reflect.Interface {
+			name, _, generic := strings.Cut(t.Name(), "[")
+			if generic {
+				name += "[...]"
+			}
+			return fmt.Sprintf("%s.%s.Start", t.PkgPath(), name)
+		}
+		file, _ := runtime.FuncForPC(m.Func.Pointer()).FileLine(m.Func.Pointer())
+		if file != "<autogenerated>" {
+			return methodName(m.Func.Interface())
+		}
 	}
-	return methodName(m.Func.Interface())
+	return methodName(sm.Start)
 }
 
 // methodName takes a function or a method and returns its name.
-- 
2.43.0


From 32d44bad0cae10095878049424cfb59b88282479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 26/27] fix: wait.Group counts a function its Pool refuses as
 failed, Wait() hung

---
 prim/wait/wait.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 2e7613c..467db77 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -144,7 +144,7 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	}
 
 	w.wg.Add(1)
-	w.Pool.Submit(
+	err := w.Pool.Submit(
 		ctx,
 		func(ctx context.Context) {
 			defer w.wg.Done()
@@ -164,6 +164,16 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 		},
 		w.PoolOptions...,
 	)
+	if err != nil {
+		// The Pool will not execute f.
+		defer w.wg.Done()
+		defer w.count.Add(-1)
+
+		applyErr(&w.errors, err)
+		if w.CancelOnErr != nil {
+			w.CancelOnErr()
+		}
+	}
 }
 
 // Running returns the number of goroutines that are currently running.
-- 
2.43.0


From 74ea1efe9c4b5f31bf5cb4e73c68c9ca63817aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:36 +0000
Subject: [PATCH 27/27] fix: pooled.Pool keeps its size and Wait() returns when
 a job calls runtime.Goexit()

---
 goroutines/pooled/goroutines.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index 2733a60..f072e16 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -205,10 +205,23 @@ func (p *Pool) blockEvent(spanner span.Span, fcn string, t time.Time) {
 // runner is used to run any function that comes in on the in channel.
 func (p *Pool) runner() {
 	for s := range p.queue {
-		s.job(s.ctx)
+		p.run(s)
+	}
+}
+
+// run runs a single job.
+func (p *Pool) run(s submit) {
+	returned := false
+	defer func() {
+		if !returned {
+			// The job ends our goroutine with runtime.Goexit().
+			go p.runner()
+		}
 		p.running.Add(-1)
 		p.wg.Done()
-	}
+	}()
+	s.job(s.ctx)
+	returned = true
 }
 
 func (p *Pool) callerName(opts pool.SubmitOptions) string {
-- 
2.43.0

