From 7bd1012002a5cae7770e0f0e80a317465726a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:19 +0000
Subject: [PATCH 01/14] fix: acquire the engine lock before notifying observers
 that a cycle has begun

---
 engine/engine.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/engine/engine.go b/engine/engine.go
index 9f22317..51eea03 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -89,6 +89,13 @@ func (e *Engine) Tick(
 ) error {
 	oo := newOperationOptions(e, options)
 
+	// The mutex is acquired before any facts are notified, as observers are not
+	// required to be thread-safe.
+	err := e.m.Lock(ctx)
+	if err == nil {
+		defer e.m.Unlock()
+	}
+
 	oo.observers.Notify(
 		fact.TickCycleBegun{
 			EngineTime:          oo.now,
@@ -97,9 +104,7 @@ func (e *Engine) Tick(
 		},
 	)
 
-	err := e.m.Lock(ctx)
 	if err == nil {
-		defer e.m.Unlock()
 		err = e.tick(ctx, oo)
 	}
 
@@ -210,6 +215,13 @@ func (e *Engine) Dispatch(
 		panic(fmt.Sprintf("the %s message type is not consumed by any handlers", mt))
 	}
 
+	// The mutex is acquired before any facts are notified, as observers are not
+	// required to be thread-safe.
+	err = e.m.Lock(ctx)
+	if err == nil {
+		defer e.m.Unlock()
+	}
+
 	oo.observers.Notify(
 		fact.DispatchCycleBegun{
 			Envelope:            env,
@@ -219,9 +231,7 @@ func (e *Engine) Dispatch(
 		},
 	)
 
-	err = e.m.Lock(ctx)
 	if err == nil {
-		defer e.m.Unlock()
 		err = e.dispatch(ctx, oo, env)
 	}
 
-- 
2.43.0


From 210ad194df79c8bf3f048fcc2aa01176f95d99e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:47 +0000
Subject: [PATCH 02/14] fix: do not notify observers from the projection
 compaction goroutine

---
 engine/internal/projection/controller.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 3289cbe..3f9c8fe 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -110,6 +110,7 @@ func (c *Controller) Handle(
 	}
 
 	compactResult := make(chan error, 1)
+	compactFacts := &fact.Buffer{} // facts recorded by the compaction goroutine
 
 	if c.CompactDuringHandling {
 		// Ensure that notification of facts occurs in the main goroutine as
@@ -126,7 +127,7 @@ func (c *Controller) Handle(
 				ctx,
 				&scope{
 					config:   c.Config,
-					observer: obs,
+					observer: compactFacts,
 					now:      now,
 				},
 			)
@@ -157,6 +158,10 @@ func (c *Controller) Handle(
 	compactErr := <-compactResult
 
 	if c.CompactDuringHandling {
+		for _, f := range compactFacts.Facts() {
+			obs.Notify(f)
+		}
+
 		obs.Notify(fact.ProjectionCompactionCompleted{
 			Handler: c.Config,
 			Error:   compactErr,
-- 
2.43.0


From c05d5c7df5e2099c1e6397875f985f8d0c6406e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:13 +0000
Subject: [PATCH 03/14] fix: call every SatisfyT cleanup function, even if one
 of them aborts

---
 expectation.satisfy.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/expectation.satisfy.go b/expectation.satisfy.go
index d4e85c9..41bd070 100644
--- a/expectation.satisfy.go
+++ b/expectation.satisfy.go
@@ -363,10 +363,22 @@ func (t *SatisfyT) explain(fn string) {
 }
 
 // close calls any functions registered via Cleanup().
+//
+// Every function is called, even if a prior function aborts by calling FailNow()
+// or similar, or was registered by another cleanup function.
 func (t *SatisfyT) close() {
-	for i := len(t.cleanup) - 1; i >= 0; i-- {
-		t.cleanup[i]()
+	t.m.Lock()
+	i := len(t.cleanup) - 1
+	if i < 0 {
+		t.m.Unlock()
+		return
 	}
+	fn := t.cleanup[i]
+	t.cleanup = t.cleanup[:i]
+	t.m.Unlock()
+
+	defer t.close()
+	fn()
 }
 
 // findFrame searches, starting after skip frames, for the first caller frame
-- 
2.43.0


From 41db864349a83872621c94be5a9c4ebc9250ed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:39 +0000
Subject: [PATCH 04/14] fix: search beyond the first 8 stack frames when
 finding a location

---
 location/location.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/location/location.go b/location/location.go
index e57e260..50fca91 100644
--- a/location/location.go
+++ b/location/location.go
@@ -203,15 +203,23 @@ func eachFrame(skip int, fn func(fr runtime.Frame) bool) {
 
 	for {
 		count := runtime.Callers(skip, pointers[:])
+		if count == 0 {
+			return
+		}
+
 		iter := runtime.CallersFrames(pointers[:count])
 		skip += count
 
 		for {
-			fr, _ := iter.Next()
+			fr, more := iter.Next()
 
 			if fr.PC == 0 || !fn(fr) {
 				return
 			}
+
+			if !more {
+				break // continue with the next batch of frames
+			}
 		}
 	}
 }
-- 
2.43.0


From 35f6e4bc1a721d7393d1b06519bfa2e627f9bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:17 +0000
Subject: [PATCH 05/14] fix: take tick cycles into account when explaining
 unmet message expectations

---
 expectation.messagecommon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expectation.messagecommon.go b/expectation.messagecommon.go
index 739c900..93deece 100644
--- a/expectation.messagecommon.go
+++ b/expectation.messagecommon.go
@@ -147,6 +147,9 @@ func (t *tracker) Notify(f fact.Fact) (*envelope.Envelope, bool) {
 			t.messageProduced(x.Envelope)
 			return x.Envelope, true
 		}
+	case fact.TickCycleBegun:
+		t.cycleBegun = true
+		t.enabled = x.EnabledHandlerTypes
 	case fact.HandlingBegun:
 		t.updateEngaged(
 			x.Handler.Identity().Name,
-- 
2.43.0


From caf6f46fc9420d43fb9cb42a34fccc249a3c6138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:43 +0000
Subject: [PATCH 06/14] fix: forget the time of the last projection compaction
 when the engine is reset

---
 engine/internal/projection/controller.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 3f9c8fe..d4d9b4b 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -185,6 +185,7 @@ func (c *Controller) Handle(
 	return nil, compactErr
 }
 
-// Reset does nothing.
+// Reset clears the state of the controller.
 func (c *Controller) Reset() {
+	c.lastCompact = time.Time{}
 }
-- 
2.43.0


From c6d6a23bb785386599a1f3dd4ecd574f0a63ad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:52 +0000
Subject: [PATCH 07/14] fix: name the correct function when ExecuteCommand() is
 given an invalid command

---
 action.dispatch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.dispatch.go b/action.dispatch.go
index 726aa93..c6ed2c6 100644
--- a/action.dispatch.go
+++ b/action.dispatch.go
@@ -20,7 +20,7 @@ func ExecuteCommand(m dogma.Command) Action {
 	mt := message.TypeOf(m)
 
 	if err := m.Validate(validation.CommandValidationScope()); err != nil {
-		panic(fmt.Sprintf("ToRecordEvent(%s): %s", mt, err))
+		panic(fmt.Sprintf("ExecuteCommand(%s): %s", mt, err))
 	}
 
 	return dispatchAction{
-- 
2.43.0


From 55cb88b74aa8e95ef193dc419f31bf171c80be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:05 +0000
Subject: [PATCH 08/14] fix: do not notify observers about operations that
 never acquire the engine lock

---
 engine/engine.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/engine/engine.go b/engine/engine.go
index 51eea03..edfab6c 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -91,10 +91,10 @@ func (e *Engine) Tick(
 
 	// The mutex is acquired before any facts are notified, as observers are not
 	// required to be thread-safe.
-	err := e.m.Lock(ctx)
-	if err == nil {
-		defer e.m.Unlock()
+	if err := e.m.Lock(ctx); err != nil {
+		return err
 	}
+	defer e.m.Unlock()
 
 	oo.observers.Notify(
 		fact.TickCycleBegun{
@@ -104,9 +104,7 @@ func (e *Engine) Tick(
 		},
 	)
 
-	if err == nil {
-		err = e.tick(ctx, oo)
-	}
+	err := e.tick(ctx, oo)
 
 	oo.observers.Notify(
 		fact.TickCycleCompleted{
@@ -217,10 +215,10 @@ func (e *Engine) Dispatch(
 
 	// The mutex is acquired before any facts are notified, as observers are not
 	// required to be thread-safe.
-	err = e.m.Lock(ctx)
-	if err == nil {
-		defer e.m.Unlock()
+	if err := e.m.Lock(ctx); err != nil {
+		return err
 	}
+	defer e.m.Unlock()
 
 	oo.observers.Notify(
 		fact.DispatchCycleBegun{
@@ -231,9 +229,7 @@ func (e *Engine) Dispatch(
 		},
 	)
 
-	if err == nil {
-		err = e.dispatch(ctx, oo, env)
-	}
+	err = e.dispatch(ctx, oo, env)
 
 	oo.observers.Notify(
 		fact.DispatchCycleCompleted{
-- 
2.43.0


From 66498569bb000fa8437c82b22884bb6b3f3c1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:01 +0000
Subject: [PATCH 09/14] fix: generate the ID of a dispatched message while
 holding the engine lock

---
 engine/engine.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/engine/engine.go b/engine/engine.go
index edfab6c..35cec6f 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -190,17 +190,16 @@ func (e *Engine) Dispatch(
 	options ...OperationOption,
 ) error {
 	mt := message.TypeOf(m)
-	id := e.messageIDs.Next()
 	oo := newOperationOptions(e, options)
 
-	env, err := message.MapByKindOfWithErr(
+	newEnvelope, err := message.MapByKindOfWithErr(
 		m,
-		func(m dogma.Command) (*envelope.Envelope, error) {
-			return envelope.NewCommand(id, m, oo.now),
+		func(m dogma.Command) (func(id string) *envelope.Envelope, error) {
+			return func(id string) *envelope.Envelope { return envelope.NewCommand(id, m, oo.now) },
 				m.Validate(validation.CommandValidationScope())
 		},
-		func(m dogma.Event) (*envelope.Envelope, error) {
-			return envelope.NewEvent(id, m, oo.now),
+		func(m dogma.Event) (func(id string) *envelope.Envelope, error) {
+			return func(id string) *envelope.Envelope { return envelope.NewEvent(id, m, oo.now) },
 				m.Validate(validation.EventValidationScope())
 		},
 		nil,
@@ -220,6 +219,10 @@ func (e *Engine) Dispatch(
 	}
 	defer e.m.Unlock()
 
+	// The message ID is generated while the mutex is held so that it is never
+	// invalidated by a call to Reset().
+	env := newEnvelope(e.messageIDs.Next())
+
 	oo.observers.Notify(
 		fact.DispatchCycleBegun{
 			Envelope:            env,
-- 
2.43.0


From 57c43f7f32f093db7d3f1edefa943056e3449067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:10 +0000
Subject: [PATCH 10/14] fix: propagate a panic in a ToSatisfy() function even
 if a cleanup function aborts

---
 expectation.satisfy.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/expectation.satisfy.go b/expectation.satisfy.go
index 41bd070..bcc4e14 100644
--- a/expectation.satisfy.go
+++ b/expectation.satisfy.go
@@ -76,18 +76,8 @@ func (p *satisfyPredicate) Ok() bool {
 }
 
 func (p *satisfyPredicate) Done() {
-	defer func() {
-		switch r := recover().(type) {
-		case abortSentinel:
-			return // keep to see coverage
-		case nil:
-			return // keep to see coverage
-		default:
-			panic(r)
-		}
-	}()
-
 	defer p.satisfyT.close()
+	defer recoverAbort()
 
 	p.satisfyT.caller = callerName(0)
 	p.pred(&p.satisfyT)
@@ -156,6 +146,19 @@ type SatisfyT struct {
 // methods.
 type abortSentinel struct{}
 
+// recoverAbort recovers from a panic caused by SatisfyT.FailNow() and similar
+// methods. Any other panic continues.
+func recoverAbort() {
+	switch r := recover().(type) {
+	case abortSentinel:
+		return // keep to see coverage
+	case nil:
+		return // keep to see coverage
+	default:
+		panic(r)
+	}
+}
+
 // Cleanup registers a function to be called when the test is complete. Cleanup
 // functions will be called in last added, first called order.
 func (t *SatisfyT) Cleanup(fn func()) {
@@ -378,6 +381,7 @@ func (t *SatisfyT) close() {
 	t.m.Unlock()
 
 	defer t.close()
+	defer recoverAbort()
 	fn()
 }
 
-- 
2.43.0


From 527c25bb2d04a1e99b2524ea801ed130e131de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:42 +0000
Subject: [PATCH 11/14] fix: find the location of a ToSatisfy() failure below
 deep stacks of helper functions

---
 expectation.satisfy.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/expectation.satisfy.go b/expectation.satisfy.go
index bcc4e14..932e995 100644
--- a/expectation.satisfy.go
+++ b/expectation.satisfy.go
@@ -2,6 +2,7 @@ package testkit
 
 import (
 	"fmt"
+	"math"
 	"path/filepath"
 	"runtime"
 	"sync"
@@ -392,7 +393,7 @@ func (t *SatisfyT) close() {
 //
 // It is assumed that s.m is already locked.
 func (t *SatisfyT) findFrame(skip int) (runtime.Frame, bool) {
-	frames := stack(skip, 50)
+	frames := stack(skip, math.MaxInt)
 	var first, prev runtime.Frame
 
 	for {
@@ -423,16 +424,22 @@ func callerName(skip int) string {
 	return frame.Function
 }
 
-// stack returns frames *above the caller* on the stack.
+// stack returns up to max frames *above the caller* on the stack.
 func stack(skip, max int) *runtime.Frames {
-	var pc [50]uintptr
+	pc := make([]uintptr, min(max, 50))
 
-	// Add 3 extra frames to account for the caller, this function and
-	// runtime.Callers() itself.
-	n := runtime.Callers(skip+3, pc[:max])
-	if n == 0 {
-		panic("zero callers found")
-	}
+	for {
+		// Add 3 extra frames to account for the caller, this function and
+		// runtime.Callers() itself.
+		n := runtime.Callers(skip+3, pc)
+		if n == 0 {
+			panic("zero callers found")
+		}
 
-	return runtime.CallersFrames(pc[:n])
+		if n < len(pc) || n == max {
+			return runtime.CallersFrames(pc[:n])
+		}
+
+		pc = make([]uintptr, min(max, len(pc)*2))
+	}
 }
-- 
2.43.0


From 973b087a91111c0d36e3659a8609a50ed3a6e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:42 +0000
Subject: [PATCH 12/14] fix: do not begin another tick after the context passed
 to Run() is canceled

The sleep between ticks chooses at random between the timer and the
context when both are ready, so a short interval allowed a tick to begin
after cancellation.
---
 engine/run.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/run.go b/engine/run.go
index 40a8a6a..365c30b 100644
--- a/engine/run.go
+++ b/engine/run.go
@@ -62,6 +62,12 @@ func RunTimeScaled(
 	)
 
 	for {
+		// The sleep below is not guaranteed to notice that ctx has been
+		// canceled, for example if d is very short.
+		if err := ctx.Err(); err != nil {
+			return err
+		}
+
 		elapsed := linger.Multiply(time.Since(start), f)
 		opts[0] = WithCurrentTime(t.Add(elapsed))
 
-- 
2.43.0


From adb37c6f7260851d84c347c6d3ee9e12556b40f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:24 +0000
Subject: [PATCH 13/14] fix: separate the arguments of SatisfyT.Log() with
 spaces

Log() and the methods that use it are documented as formatting their
arguments like Println(), but strings were run together.
---
 expectation.satisfy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expectation.satisfy.go b/expectation.satisfy.go
index 932e995..4aecb52 100644
--- a/expectation.satisfy.go
+++ b/expectation.satisfy.go
@@ -316,8 +316,8 @@ func (t *SatisfyT) Skipped() bool {
 
 // log adds a log message.
 func (t *SatisfyT) log(args []any) {
-	m := fmt.Sprint(args...)
-	t.messages = append(t.messages, m)
+	m := fmt.Sprintln(args...)
+	t.messages = append(t.messages, m[:len(m)-1])
 }
 
 // logf formats and adds a log message.
-- 
2.43.0


From c6efe0b97963d249e57012885a3d3898cefefc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:59:25 +0000
Subject: [PATCH 14/14] fix: reject a nil aggregate root returned while
 destroying an instance

Destroy() replaces the root with one from the handler's New() method. Unlike
the other uses of New(), the result was not checked, so a nil root was passed
on to the handler and to later calls instead of being reported.
---
 engine/internal/aggregate/scope.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/engine/internal/aggregate/scope.go b/engine/internal/aggregate/scope.go
index 3679403..3adaa30 100644
--- a/engine/internal/aggregate/scope.go
+++ b/engine/internal/aggregate/scope.go
@@ -37,7 +37,20 @@ func (s *scope) Destroy() {
 		return
 	}
 
-	s.root = s.config.Handler().New()
+	r := s.config.Handler().New()
+	if r == nil {
+		panic(panicx.UnexpectedBehavior{
+			Handler:        s.config,
+			Interface:      "AggregateMessageHandler",
+			Method:         "New",
+			Implementation: s.config.Handler(),
+			Message:        s.command.Message,
+			Description:    "returned a nil AggregateRoot",
+			Location:       location.OfMethod(s.config.Handler(), "New"),
+		})
+	}
+
+	s.root = r
 	s.exists = false
 	s.destroyed = true
 
-- 
2.43.0

