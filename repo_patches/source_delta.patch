From 9c1edf35ead1774ec97752a96441629112fc361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:31 +0000
Subject: [PATCH 1/8] fix: forget the last compaction time when a projection
 controller is reset

---
 engine/internal/projection/controller.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 3289cbe..2a8b3c6 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -180,6 +180,7 @@ func (c *Controller) Handle(
 	return nil, compactErr
 }
 
-// Reset does nothing.
+// Reset clears the state of the controller.
 func (c *Controller) Reset() {
+	c.lastCompact = time.Time{}
 }
-- 
2.43.0


From ac5d2c354287766d2bcedc1302a1ecb0ed417be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:02 +0000
Subject: [PATCH 2/8] fix: wait for a projection's compaction when its handler
 panics

---
 engine/internal/projection/controller.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 2a8b3c6..7dd0039 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -122,6 +122,8 @@ func (c *Controller) Handle(
 		// handling the message. This is intended to ensure the implementation
 		// can actually handle such parallelism, which is required by the spec.
 		go func() {
+			defer close(compactResult)
+
 			compactResult <- c.Config.Handler().Compact(
 				ctx,
 				&scope{
@@ -131,6 +133,13 @@ func (c *Controller) Handle(
 				},
 			)
 		}()
+
+		// Wait for the compaction to finish even if the handler panics,
+		// otherwise it would continue to run after the operation has ended.
+		defer func() {
+			for range compactResult {
+			}
+		}()
 	} else {
 		close(compactResult)
 	}
-- 
2.43.0


From 3b8f0e85323fcc1a788e4f1187d2e7bc1c5f12e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:18 +0000
Subject: [PATCH 3/8] fix: propagate panics of a projection compacted during
 handling to the caller

---
 engine/internal/projection/controller.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 7dd0039..66cb1ff 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -110,6 +110,7 @@ func (c *Controller) Handle(
 	}
 
 	compactResult := make(chan error, 1)
+	var compactPanic any
 
 	if c.CompactDuringHandling {
 		// Ensure that notification of facts occurs in the main goroutine as
@@ -124,6 +125,12 @@ func (c *Controller) Handle(
 		go func() {
 			defer close(compactResult)
 
+			defer func() {
+				if p := recover(); p != nil {
+					compactPanic = p
+				}
+			}()
+
 			compactResult <- c.Config.Handler().Compact(
 				ctx,
 				&scope{
@@ -165,6 +172,12 @@ func (c *Controller) Handle(
 
 	compactErr := <-compactResult
 
+	if compactPanic != nil {
+		// Propagate the panic to the caller, who can not recover from a panic
+		// in the compaction goroutine.
+		panic(compactPanic)
+	}
+
 	if c.CompactDuringHandling {
 		obs.Notify(fact.ProjectionCompactionCompleted{
 			Handler: c.Config,
-- 
2.43.0


From 20ef408ec93cee56d94cdd2c269eb88dc8f88e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:16 +0000
Subject: [PATCH 4/8] fix: never notify observers of a projection's log
 messages concurrently

---
 engine/internal/projection/controller.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 66cb1ff..f8c76a6 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -3,6 +3,7 @@ package projection
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/dogmatiq/configkit"
@@ -82,6 +83,12 @@ func (c *Controller) Handle(
 
 	handler := c.Config.Handler()
 
+	if c.CompactDuringHandling {
+		// The handler and the compaction may log messages at the same time, but
+		// observers aren't required to be thread-safe.
+		obs = &synchronizedObserver{observer: obs}
+	}
+
 	s := &scope{
 		config:   c.Config,
 		observer: obs,
@@ -206,3 +213,18 @@ func (c *Controller) Handle(
 func (c *Controller) Reset() {
 	c.lastCompact = time.Time{}
 }
+
+// synchronizedObserver is a fact.Observer that allows another observer to be
+// used by multiple goroutines simultaneously.
+type synchronizedObserver struct {
+	m        sync.Mutex
+	observer fact.Observer
+}
+
+// Notify notifies the underlying observer of f.
+func (o *synchronizedObserver) Notify(f fact.Fact) {
+	o.m.Lock()
+	defer o.m.Unlock()
+
+	o.observer.Notify(f)
+}
-- 
2.43.0


From ceac849feecb16c384311671a1c963586db029cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:30 +0000
Subject: [PATCH 5/8] fix: allocate the ID of a dispatched message while
 holding the engine's lock

---
 engine/engine.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/engine/engine.go b/engine/engine.go
index 9f22317..3e4d706 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -187,9 +187,17 @@ func (e *Engine) Dispatch(
 	options ...OperationOption,
 ) error {
 	mt := message.TypeOf(m)
-	id := e.messageIDs.Next()
 	oo := newOperationOptions(e, options)
 
+	// Acquire the lock before generating the message ID so that the ID
+	// generator is not reset after the ID has been allocated.
+	lockErr := e.m.Lock(ctx)
+	if lockErr == nil {
+		defer e.m.Unlock()
+	}
+
+	id := e.messageIDs.Next()
+
 	env, err := message.MapByKindOfWithErr(
 		m,
 		func(m dogma.Command) (*envelope.Envelope, error) {
@@ -219,9 +227,8 @@ func (e *Engine) Dispatch(
 		},
 	)
 
-	err = e.m.Lock(ctx)
+	err = lockErr
 	if err == nil {
-		defer e.m.Unlock()
 		err = e.dispatch(ctx, oo, env)
 	}
 
-- 
2.43.0


From 4707abed2cdb7add77595197d7e8d954bc94511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:33 +0000
Subject: [PATCH 6/8] fix: run every cleanup function of a ToSatisfy()
 expectation

Cleanup functions registered by another cleanup function were never
called. A cleanup function that called FailNow(), Skip() or panicked
prevented the remaining ones from running, and replaced a panic of the
expectation function itself.
---
 expectation.satisfy.go | 43 ++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/expectation.satisfy.go b/expectation.satisfy.go
index d4e85c9..a20fc68 100644
--- a/expectation.satisfy.go
+++ b/expectation.satisfy.go
@@ -76,17 +76,7 @@ func (p *satisfyPredicate) Ok() bool {
 }
 
 func (p *satisfyPredicate) Done() {
-	defer func() {
-		switch r := recover().(type) {
-		case abortSentinel:
-			return // keep to see coverage
-		case nil:
-			return // keep to see coverage
-		default:
-			panic(r)
-		}
-	}()
-
+	defer recoverAbort()
 	defer p.satisfyT.close()
 
 	p.satisfyT.caller = callerName(0)
@@ -362,10 +352,35 @@ func (t *SatisfyT) explain(fn string) {
 	}
 }
 
-// close calls any functions registered via Cleanup().
+// close calls any functions registered via Cleanup(), including those that are
+// registered by another such function.
 func (t *SatisfyT) close() {
-	for i := len(t.cleanup) - 1; i >= 0; i-- {
-		t.cleanup[i]()
+	t.m.Lock()
+	n := len(t.cleanup) - 1
+	if n < 0 {
+		t.m.Unlock()
+		return
+	}
+	fn := t.cleanup[n]
+	t.cleanup = t.cleanup[:n]
+	t.m.Unlock()
+
+	// Call the remaining functions even if this one is aborted or panics.
+	defer t.close()
+	defer recoverAbort()
+	fn()
+}
+
+// recoverAbort is a deferred function that recovers from a panic caused by
+// SatisfyT.FailNow() and similar methods, and no other.
+func recoverAbort() {
+	switch r := recover().(type) {
+	case abortSentinel:
+		return // keep to see coverage
+	case nil:
+		return // keep to see coverage
+	default:
+		panic(r)
 	}
 }
 
-- 
2.43.0


From 59a5452e90a549738d2a40c2cfa278a2ed9ea1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:12 +0000
Subject: [PATCH 7/8] fix: do not deliver released timeouts of an ended process
 to a new instance

A timeout that is due immediately is queued behind the other messages of
the operation. If its instance ended and was begun again before the
timeout's turn, the timeout was delivered to the new instance.
---
 engine/internal/process/controller.go | 33 ++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/engine/internal/process/controller.go b/engine/internal/process/controller.go
index 34260cc..0dae620 100644
--- a/engine/internal/process/controller.go
+++ b/engine/internal/process/controller.go
@@ -23,6 +23,11 @@ type Controller struct {
 
 	instances map[string]dogma.ProcessRoot
 	timeouts  []*envelope.Envelope
+
+	// released is the set of timeouts that have been given to the engine but
+	// have not been routed yet. The value is false if the instance that
+	// scheduled the timeout has since ended.
+	released map[*envelope.Envelope]bool
 }
 
 // HandlerConfig returns the config of the handler that is managed by this
@@ -54,6 +59,8 @@ func (c *Controller) Tick(
 	// anything else is still pending
 	c.timeouts = c.timeouts[i:]
 
+	c.release(ready)
+
 	return ready, nil
 }
 
@@ -142,6 +149,7 @@ func (c *Controller) Handle(
 	}
 
 	c.update(s)
+	c.release(s.ready)
 
 	return append(s.commands, s.ready...), nil
 }
@@ -150,6 +158,7 @@ func (c *Controller) Handle(
 func (c *Controller) Reset() {
 	c.instances = nil
 	c.timeouts = nil
+	c.released = nil
 }
 
 // route returns the ID of the instance that a message should be routed to.
@@ -224,7 +233,10 @@ func (c *Controller) routeTimeout(
 	obs fact.Observer,
 	env *envelope.Envelope,
 ) (string, bool, error) {
-	if _, ok := c.instances[env.Origin.InstanceID]; ok {
+	live, released := c.released[env]
+	delete(c.released, env)
+
+	if _, ok := c.instances[env.Origin.InstanceID]; ok && (live || !released) {
 		return env.Origin.InstanceID, true, nil
 	}
 
@@ -278,6 +290,17 @@ func (c *Controller) update(s *scope) {
 	)
 }
 
+// release records that timeouts are about to be given to the engine.
+func (c *Controller) release(timeouts []*envelope.Envelope) {
+	if c.released == nil {
+		c.released = map[*envelope.Envelope]bool{}
+	}
+
+	for _, env := range timeouts {
+		c.released[env] = true
+	}
+}
+
 // delete removes an instance and its pending timeouts from the store.
 func (c *Controller) delete(id string) {
 	delete(c.instances, id)
@@ -292,4 +315,12 @@ func (c *Controller) delete(id string) {
 	}
 
 	c.timeouts = timeouts
+
+	// a new instance with the same ID must not be given any timeouts that were
+	// scheduled by the deleted instance
+	for env := range c.released {
+		if env.Origin.InstanceID == id {
+			c.released[env] = false
+		}
+	}
 }
-- 
2.43.0


From 0be70b7c844a974e6ea9e1619df8972670263bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:40:32 +0000
Subject: [PATCH 8/8] fix: return the number of bytes written when writing a
 report fails

Report.WriteTo() returned a count of zero whenever the writer failed, although
part of the report had been written. io.WriterTo requires the actual number.
---
 report.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/report.go b/report.go
index 0f1cd26..ce2ce10 100644
--- a/report.go
+++ b/report.go
@@ -99,9 +99,10 @@ func (r *Report) Append(sr *Report) {
 }
 
 // WriteTo writes the report to the given writer.
-func (r *Report) WriteTo(next io.Writer) (_ int64, err error) {
-	defer must.Recover(&err)
+func (r *Report) WriteTo(next io.Writer) (n int64, err error) {
 	w := count.NewWriter(next)
+	defer func() { n = w.Count64() }()
+	defer must.Recover(&err)
 
 	if r.Ok {
 		must.WriteString(w, "✓ ")
@@ -173,7 +174,7 @@ func (r *Report) WriteTo(next io.Writer) (_ int64, err error) {
 		}
 	}
 
-	return int64(w.Count()), nil
+	return n, nil
 }
 
 // ReportSection is a section of a report containing additional information
-- 
2.43.0

