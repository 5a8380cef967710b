From dc5f32797a589de31611696e28c784a54cd7659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 01/37] fix: compute a skipped spec's timeline offsets relative
 to its own output

The writer still held the output of the previous spec's last reporting node when
the skip failure of a spec in an Ordered container got its timeline location.
Rendering such a timeline slices the captured output out of bounds, which
crashed the test process (or, in parallel, the ginkgo command).
---
 internal/group.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/group.go b/internal/group.go
index 02c9fe4..de2e0ca 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -309,6 +309,8 @@ func (g *group) run(specs Specs) {
 		g.suite.selectiveLock.Lock()
 		g.suite.currentSpecReport = g.initialReportForSpec(spec)
 		g.suite.selectiveLock.Unlock()
+		// drop any output left over from the prior spec: timeline locations generated for this spec must be relative to its own output
+		g.suite.writer.Truncate()
 
 		g.suite.currentSpecReport.State, g.suite.currentSpecReport.Failure = g.evaluateSkipStatus(spec)
 		g.suite.reporter.WillRun(g.suite.currentSpecReport)
-- 
2.43.0


From 195bbc5c3688f579899490babb01f06d3037d15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 02/37] fix: honor MustPassRepeatedly for specs that are also
 in the scope of FlakeAttempts

Such a spec stopped after its first passing attempt.
---
 internal/group.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index de2e0ca..9018afe 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -335,6 +335,9 @@ func (g *group) run(specs Specs) {
 				maxAttempts = max(1, spec.FlakeAttempts())
 			}
 
+			// MustPassRepeatedly takes precedence: a passing attempt must not end a spec that is in the scope of both decorators
+			retryOnFailure := g.suite.currentSpecReport.MaxFlakeAttempts > 0 && g.suite.currentSpecReport.MaxMustPassRepeatedly == 0
+
 			for attempt := 0; attempt < maxAttempts; attempt++ {
 				g.suite.currentSpecReport.NumAttempts = attempt + 1
 				g.suite.writer.Truncate()
@@ -343,7 +346,7 @@ func (g *group) run(specs Specs) {
 					if g.suite.currentSpecReport.MaxMustPassRepeatedly > 0 {
 						g.suite.handleSpecEvent(types.SpecEvent{SpecEventType: types.SpecEventSpecRepeat, Attempt: attempt})
 					}
-					if g.suite.currentSpecReport.MaxFlakeAttempts > 0 {
+					if retryOnFailure {
 						g.suite.handleSpecEvent(types.SpecEvent{SpecEventType: types.SpecEventSpecRetry, Attempt: attempt})
 					}
 				}
@@ -360,7 +363,7 @@ func (g *group) run(specs Specs) {
 						break
 					}
 				}
-				if g.suite.currentSpecReport.MaxFlakeAttempts > 0 {
+				if retryOnFailure {
 					if g.suite.currentSpecReport.State.Is(types.SpecStatePassed | types.SpecStateSkipped | types.SpecStateAborted | types.SpecStateInterrupted) {
 						break
 					} else if attempt < maxAttempts-1 {
-- 
2.43.0


From f8cb087c05953781e116571b5f3a34ee8f946368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 03/37] fix: run once-only teardown when the remaining specs
 are skipped by a nested run-once setup node

When Skip() is called in a BeforeAll (or OncePerOrdered) setup node the specs that
need it never run, but they still counted as candidates for being the last spec
that triggers OncePerOrdered teardown and cleanups of other nesting levels.  These
never ran, or ran after specs outside the container.
---
 internal/group.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/group.go b/internal/group.go
index 9018afe..48082c9 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -162,6 +162,16 @@ func (g *group) evaluateSkipStatus(spec Spec) (types.SpecState, types.Failure) {
 	return g.suite.currentSpecReport.State, g.suite.currentSpecReport.Failure
 }
 
+// skippedInARunOnceBefore returns true if the spec won't run because Skip() was called in a run-once setup node that it needs
+func (g *group) skippedInARunOnceBefore(specID uint) bool {
+	for _, pair := range g.runOncePairs[specID].withType(types.NodeTypeBeforeAll | types.NodeTypeBeforeEach | types.NodeTypeJustBeforeEach) {
+		if g.runOnceTracker[pair].Is(types.SpecStateSkipped) {
+			return true
+		}
+	}
+	return false
+}
+
 func (g *group) isLastSpecWithPair(specID uint, pair runOncePair) bool {
 	lastSpecID := uint(0)
 	for idx := range g.specs {
@@ -169,6 +179,9 @@ func (g *group) isLastSpecWithPair(specID uint, pair runOncePair) bool {
 			continue
 		}
 		sID := g.specs[idx].SubjectID()
+		if sID != specID && g.skippedInARunOnceBefore(sID) {
+			continue
+		}
 		if g.runOncePairs[sID].hasRunOncePair(pair) {
 			lastSpecID = sID
 		}
-- 
2.43.0


From 159c18e6a0c68309dfba5b400bad24afe9275e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 04/37] fix: run once-only teardown of a ContinueOnFailure
 container when --fail-fast ends the run

With --fail-fast no later spec of the container runs, so waiting for the last one
means that AfterAll and OncePerOrdered teardown never run.
---
 internal/group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/group.go b/internal/group.go
index 48082c9..da4c0fc 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -271,7 +271,7 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 				}
 			case types.SpecStateFailed, types.SpecStatePanicked, types.SpecStateTimedout: // the spec has failed...
 				if isFinalAttempt {
-					if g.continueOnFailure {
+					if g.continueOnFailure && !g.suite.config.FailFast {
 						return isLastSpecWithPair || failedInARunOnceBefore //...we're configured to continue on failures - so we should only run if we're the last spec for this pair or if we failed in a runOnceBefore (which means we _are_ the last spec to run)
 					} else {
 						return true //...this was the last attempt and continueOnFailure is false therefore we are the last spec to run and so the AfterNode should run
-- 
2.43.0


From dc94e19f03c787a91ad0087bffbcff15c321a498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 05/37] fix: run once-only teardown exactly once when a spec in
 an Ordered container must pass repeatedly

A failing attempt before the last one left AfterAll nodes and run-once cleanups
undone, and every passing attempt of the container's last spec ran them again.
---
 internal/group.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index da4c0fc..aa29e14 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -189,7 +189,8 @@ func (g *group) isLastSpecWithPair(specID uint, pair runOncePair) bool {
 	return lastSpecID == specID
 }
 
-func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
+// attemptSpec runs the spec once. finalIfPassed and finalIfFailed tell whether this is the last attempt of the spec should it pass or fail
+func (g *group) attemptSpec(finalIfPassed bool, finalIfFailed bool, spec Spec) bool {
 	failedInARunOnceBefore := false
 	pairs := g.runOncePairs[spec.SubjectID()]
 
@@ -261,7 +262,7 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 
 			switch g.suite.currentSpecReport.State {
 			case types.SpecStatePassed: //this attempt is passing...
-				return isLastSpecWithPair //...we should run-once if we'this is our last chance
+				return isLastSpecWithPair && finalIfPassed //...we should run-once if we'this is our last chance
 			case types.SpecStateSkipped: //the spec was skipped by the user...
 				if isLastSpecWithPair {
 					return true //...we're the last spec, so we should run the AfterNode
@@ -270,7 +271,7 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 					return true //...or, a run-once node at our nesting level was skipped which means this is our last chance to run
 				}
 			case types.SpecStateFailed, types.SpecStatePanicked, types.SpecStateTimedout: // the spec has failed...
-				if isFinalAttempt {
+				if finalIfFailed {
 					if g.continueOnFailure && !g.suite.config.FailFast {
 						return isLastSpecWithPair || failedInARunOnceBefore //...we're configured to continue on failures - so we should only run if we're the last spec for this pair or if we failed in a runOnceBefore (which means we _are_ the last spec to run)
 					} else {
@@ -364,7 +365,9 @@ func (g *group) run(specs Specs) {
 					}
 				}
 
-				failedInARunOnceBefore = g.attemptSpec(attempt == maxAttempts-1, spec)
+				// a spec that must pass repeatedly stops at its first failure, any other spec stops when it passes
+				isLastAttempt, mustPassRepeatedly := attempt == maxAttempts-1, g.suite.currentSpecReport.MaxMustPassRepeatedly > 0
+				failedInARunOnceBefore = g.attemptSpec(isLastAttempt || !mustPassRepeatedly, isLastAttempt || mustPassRepeatedly, spec)
 
 				g.suite.currentSpecReport.EndTime = time.Now()
 				g.suite.currentSpecReport.RunTime = g.suite.currentSpecReport.EndTime.Sub(g.suite.currentSpecReport.StartTime)
-- 
2.43.0


From 0afa07048f3d166912f00b4afaa7a1009e05eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 06/37] fix: don't run once-only teardown when a failing
 AfterEach causes the spec to be retried

The nodes to run were chosen while the attempt was still passing, so AfterAll ran
although the spec was about to be retried, and ran again after the retry.
---
 internal/group.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index aa29e14..e405c8f 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -235,7 +235,7 @@ func (g *group) attemptSpec(finalIfPassed bool, finalIfFailed bool, spec Spec) b
 			nodes = append(nodes, g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterEach).Reverse()...)
 			nodes = append(nodes, g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterAll).Reverse()...)
 		}
-		nodes = nodes.Filter(func(node Node) bool {
+		shouldRun := func(node Node) bool {
 			if afterNodeWasRun[node.ID] {
 				//this node has already been run on this attempt, don't rerun it
 				return false
@@ -289,13 +289,17 @@ func (g *group) attemptSpec(finalIfPassed bool, finalIfFailed bool, spec Spec) b
 				return true //...that means the test run is over and we should clean up the stack.  Run the AfterNode
 			}
 			return false
-		})
+		}
+		nodes = nodes.Filter(shouldRun)
 
 		if len(nodes) == 0 && includeDeferCleanups {
 			break
 		}
 
 		for _, node := range nodes {
+			if !shouldRun(node) {
+				continue // a teardown node that just ran failed: this spec will be retried, it is too early for run-once nodes
+			}
 			afterNodeWasRun[node.ID] = true
 			state, failure := g.suite.runNode(node, deadline, spec.Nodes.BestTextFor(node))
 			g.suite.currentSpecReport.RunTime = time.Since(g.suite.currentSpecReport.StartTime)
-- 
2.43.0


From ca3be3893a3c50368927ceee443984e9ed29a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 07/37] fix: run the once-only teardown that specs which do not
 run after all were to run

---
 internal/group.go | 62 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/internal/group.go b/internal/group.go
index e405c8f..5708d67 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -94,6 +94,10 @@ type group struct {
 	runOncePairs   map[uint]runOncePairs
 	runOnceTracker map[runOncePair]types.SpecState
 
+	// run-once teardown nodes that were reached by an attempt but have not run since, and the spec that was attempted last
+	owedAfterNodes    Nodes
+	lastAttemptedSpec Spec
+
 	succeeded              bool
 	failedInARunOnceBefore bool
 	continueOnFailure      bool
@@ -223,6 +227,7 @@ func (g *group) attemptSpec(finalIfPassed bool, finalIfFailed bool, spec Spec) b
 	}
 
 	afterNodeWasRun := map[uint]bool{}
+	reachedAfterNodes := Nodes{}
 	includeDeferCleanups := false
 	for {
 		nodes := spec.Nodes.WithType(types.NodeTypeAfterEach)
@@ -231,6 +236,7 @@ func (g *group) attemptSpec(finalIfPassed bool, finalIfFailed bool, spec Spec) b
 		if !terminatingNode.IsZero() {
 			nodes = nodes.WithinNestingLevel(terminatingNode.NestingLevel)
 		}
+		reachedAfterNodes = nodes
 		if includeDeferCleanups {
 			nodes = append(nodes, g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterEach).Reverse()...)
 			nodes = append(nodes, g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterAll).Reverse()...)
@@ -313,14 +319,66 @@ func (g *group) attemptSpec(finalIfPassed bool, finalIfFailed bool, spec Spec) b
 		includeDeferCleanups = true
 	}
 
+	g.lastAttemptedSpec = spec
+	g.owedAfterNodes = g.owedAfterNodes.Filter(func(node Node) bool { return !afterNodeWasRun[node.ID] })
+	for _, node := range reachedAfterNodes {
+		if !afterNodeWasRun[node.ID] && !g.owedAfterNodes.ContainsNodeID(node.ID) {
+			g.owedAfterNodes = append(g.owedAfterNodes, node)
+		}
+	}
+
 	return failedInARunOnceBefore
 }
 
+// runOwedTeardown runs the run-once teardown nodes and cleanups that earlier specs left to specs that did not run after all
+// (because of an interrupt, a timeout, an abort, a failure in a reporting node, or a failure in a setup node outside the container)
+func (g *group) runOwedTeardown() {
+	nodes := g.owedAfterNodes.WithType(types.NodeTypeJustAfterEach).SortedByDescendingNestingLevel()
+	nodes = append(nodes, g.owedAfterNodes.WithoutType(types.NodeTypeJustAfterEach).SortedByDescendingNestingLevel()...)
+	g.owedAfterNodes = nil
+	started := false
+	for {
+		if len(nodes) == 0 {
+			nodes = g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterEach).Reverse()
+			nodes = append(nodes, g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterAll).Reverse()...)
+		}
+		if len(nodes) == 0 {
+			break
+		}
+		if !started {
+			started = true
+			g.suite.writer.Truncate()
+			g.suite.outputInterceptor.StartInterceptingOutput()
+		}
+		for _, node := range nodes {
+			state, failure := g.suite.runNode(node, time.Time{}, g.lastAttemptedSpec.Nodes.BestTextFor(node))
+			if state.Is(types.SpecStateFailureStates) {
+				if !g.suite.currentSpecReport.State.Is(types.SpecStateFailureStates) || state.Is(types.SpecStateAborted) {
+					g.suite.currentSpecReport.State, g.suite.currentSpecReport.Failure = state, failure
+				} else {
+					g.suite.currentSpecReport.AdditionalFailures = append(g.suite.currentSpecReport.AdditionalFailures, types.AdditionalFailure{State: state, Failure: failure})
+				}
+			}
+		}
+		nodes = nil
+	}
+	if started {
+		g.suite.currentSpecReport.EndTime = time.Now()
+		g.suite.currentSpecReport.RunTime = g.suite.currentSpecReport.EndTime.Sub(g.suite.currentSpecReport.StartTime)
+		g.suite.currentSpecReport.CapturedGinkgoWriterOutput += string(g.suite.writer.Bytes())
+		g.suite.currentSpecReport.CapturedStdOutErr += g.suite.outputInterceptor.StopInterceptingAndReturnOutput()
+	}
+}
+
 func (g *group) run(specs Specs) {
 	g.specs = specs
 	g.continueOnFailure = specs[0].Nodes.FirstNodeMarkedOrdered().MarkedContinueOnFailure
+	lastSpecID := uint(0)
 	for _, spec := range g.specs {
 		g.runOncePairs[spec.SubjectID()] = runOncePairsForSpec(spec)
+		if !spec.Skip {
+			lastSpecID = spec.SubjectID()
+		}
 	}
 
 	for _, spec := range g.specs {
@@ -395,6 +453,10 @@ func (g *group) run(specs Specs) {
 			}
 		}
 
+		if spec.SubjectID() == lastSpecID && !g.lastAttemptedSpec.Nodes.FirstNodeMarkedOrdered().IsZero() {
+			g.runOwedTeardown()
+		}
+
 		g.suite.reportEach(spec, types.NodeTypeReportAfterEach)
 		g.suite.processCurrentSpecReport()
 		if g.suite.currentSpecReport.State.Is(types.SpecStateFailureStates) {
-- 
2.43.0


From 0a630e54be7d48d4abbe2795cc3cac0e078417ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:47 +0000
Subject: [PATCH 08/37] fix: run the inner teardown nodes when an outer
 JustBeforeEach fails

---
 internal/group.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/group.go b/internal/group.go
index 5708d67..3f680d4 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -233,7 +233,8 @@ func (g *group) attemptSpec(finalIfPassed bool, finalIfFailed bool, spec Spec) b
 		nodes := spec.Nodes.WithType(types.NodeTypeAfterEach)
 		nodes = append(nodes, spec.Nodes.WithType(types.NodeTypeAfterAll)...).SortedByDescendingNestingLevel()
 		nodes = append(spec.Nodes.WithType(types.NodeTypeJustAfterEach).SortedByDescendingNestingLevel(), nodes...)
-		if !terminatingNode.IsZero() {
+		// by the time a JustBeforeEach runs the BeforeEach nodes at all nesting levels have run
+		if !terminatingNode.IsZero() && !terminatingNode.NodeType.Is(types.NodeTypeJustBeforeEach) {
 			nodes = nodes.WithinNestingLevel(terminatingNode.NestingLevel)
 		}
 		reachedAfterNodes = nodes
-- 
2.43.0


From fe62885401b2922261c869010e6866b4f1efdf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 09/37] fix: don't let nodes that Ginkgo has given up on affect
 later nodes

A node that has timed out or was interrupted and doesn't exit keeps running.  Its failures, and the failures
it recorded before it was given up on, ended up in whatever node ran next, its end swallowed the failure that
node had recorded, and its calls to DeferCleanup exited the test process.
---
 internal/failer.go | 85 ++++++++++++++++++++++++++++++++++++++++++----
 internal/suite.go  | 72 ++++++++++++++++++++++++++++-----------
 2 files changed, 132 insertions(+), 25 deletions(-)

diff --git a/internal/failer.go b/internal/failer.go
index 8c5de9c..1388e2e 100644
--- a/internal/failer.go
+++ b/internal/failer.go
@@ -1,7 +1,10 @@
 package internal
 
 import (
+	"bytes"
 	"fmt"
+	"runtime"
+	"strconv"
 	"sync"
 
 	"github.com/onsi/ginkgo/v2/types"
@@ -11,13 +14,40 @@ type Failer struct {
 	lock    *sync.Mutex
 	failure types.Failure
 	state   types.SpecState
+
+	// the goroutines of nodes that Ginkgo has stopped waiting for, as they timed out or were interrupted.
+	// The spec they belong to is over: nothing they report may be attributed to a node that runs later.
+	abandoned map[uint64]bool
 }
 
 func NewFailer() *Failer {
 	return &Failer{
-		lock:  &sync.Mutex{},
-		state: types.SpecStatePassed,
+		lock:      &sync.Mutex{},
+		state:     types.SpecStatePassed,
+		abandoned: map[uint64]bool{},
+	}
+}
+
+func currentGoroutineID() uint64 {
+	buf := make([]byte, 64)
+	buf = bytes.TrimPrefix(buf[:runtime.Stack(buf, false)], []byte("goroutine "))
+	if i := bytes.IndexByte(buf, ' '); i >= 0 {
+		buf = buf[:i]
 	}
+	id, _ := strconv.ParseUint(string(buf), 10, 64)
+	return id
+}
+
+// must be called with the lock held
+func (f *Failer) calledByAbandonedNode() bool {
+	return len(f.abandoned) > 0 && f.abandoned[currentGoroutineID()]
+}
+
+// CalledByAbandonedNode returns true when it is called on the goroutine of a node that Ginkgo has stopped waiting for
+func (f *Failer) CalledByAbandonedNode() bool {
+	f.lock.Lock()
+	defer f.lock.Unlock()
+	return f.calledByAbandonedNode()
 }
 
 func (f *Failer) GetState() types.SpecState {
@@ -36,7 +66,7 @@ func (f *Failer) Panic(location types.CodeLocation, forwardedPanic any) {
 	f.lock.Lock()
 	defer f.lock.Unlock()
 
-	if f.state == types.SpecStatePassed {
+	if f.state == types.SpecStatePassed && !f.calledByAbandonedNode() {
 		f.state = types.SpecStatePanicked
 		f.failure = types.Failure{
 			Message:        "Test Panicked",
@@ -50,7 +80,7 @@ func (f *Failer) Fail(message string, location types.CodeLocation) {
 	f.lock.Lock()
 	defer f.lock.Unlock()
 
-	if f.state == types.SpecStatePassed {
+	if f.state == types.SpecStatePassed && !f.calledByAbandonedNode() {
 		f.state = types.SpecStateFailed
 		f.failure = types.Failure{
 			Message:  message,
@@ -63,7 +93,7 @@ func (f *Failer) Skip(message string, location types.CodeLocation) {
 	f.lock.Lock()
 	defer f.lock.Unlock()
 
-	if f.state == types.SpecStatePassed {
+	if f.state == types.SpecStatePassed && !f.calledByAbandonedNode() {
 		f.state = types.SpecStateSkipped
 		f.failure = types.Failure{
 			Message:  message,
@@ -76,7 +106,7 @@ func (f *Failer) AbortSuite(message string, location types.CodeLocation) {
 	f.lock.Lock()
 	defer f.lock.Unlock()
 
-	if f.state == types.SpecStatePassed {
+	if f.state == types.SpecStatePassed && !f.calledByAbandonedNode() {
 		f.state = types.SpecStateAborted
 		f.failure = types.Failure{
 			Message:  message,
@@ -89,6 +119,10 @@ func (f *Failer) Drain() (types.SpecState, types.Failure) {
 	f.lock.Lock()
 	defer f.lock.Unlock()
 
+	return f.drain()
+}
+
+func (f *Failer) drain() (types.SpecState, types.Failure) {
 	failure := f.failure
 	outcome := f.state
 
@@ -97,3 +131,42 @@ func (f *Failer) Drain() (types.SpecState, types.Failure) {
 
 	return outcome, failure
 }
+
+// NodeRun tracks the goroutine of one running node
+type NodeRun struct {
+	failer   *Failer
+	id       uint64
+	finished bool
+	outcome  types.SpecState
+	failure  types.Failure
+}
+
+// StartNode is called on the goroutine that runs a node
+func (f *Failer) StartNode() *NodeRun {
+	return &NodeRun{failer: f, id: currentGoroutineID()}
+}
+
+// Finish is called on the goroutine that runs the node when the node is done.
+// It drains the failer, unless Ginkgo has stopped waiting for the node - in which case it returns false.
+func (r *NodeRun) Finish() (types.SpecState, types.Failure, bool) {
+	r.failer.lock.Lock()
+	defer r.failer.lock.Unlock()
+	r.finished = true
+	if r.failer.abandoned[r.id] {
+		delete(r.failer.abandoned, r.id)
+		return types.SpecStateInvalid, types.Failure{}, false
+	}
+	r.outcome, r.failure = r.failer.drain()
+	return r.outcome, r.failure, true
+}
+
+// Abandon is called when Ginkgo stops waiting for the node.  It returns whatever the node has reported so far.
+func (r *NodeRun) Abandon() (types.SpecState, types.Failure) {
+	r.failer.lock.Lock()
+	defer r.failer.lock.Unlock()
+	if r.finished {
+		return r.outcome, r.failure
+	}
+	r.failer.abandoned[r.id] = true
+	return r.failer.drain()
+}
diff --git a/internal/suite.go b/internal/suite.go
index 3edf507..60a75a0 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -240,6 +240,15 @@ func (suite *Suite) pushSuiteNode(node Node) error {
 }
 
 func (suite *Suite) pushCleanupNode(node Node) error {
+	if suite.phase == PhaseRun && suite.failer.CalledByAbandonedNode() {
+		// Ginkgo has given up on the node that generated this cleanup and has moved on.  The best we can do is to clean up when the suite is done.
+		node.NodeType = types.NodeTypeCleanupAfterSuite
+		suite.selectiveLock.Lock()
+		suite.cleanupNodes = append(suite.cleanupNodes, node)
+		suite.selectiveLock.Unlock()
+		return nil
+	}
+
 	if suite.phase != PhaseRun || suite.currentNode.IsZero() {
 		return types.GinkgoErrors.PushingCleanupNodeDuringTreeConstruction(node.CodeLocation)
 	}
@@ -875,17 +884,23 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 	}
 	var gracePeriodChannel <-chan time.Time
 
-	outcomeC := make(chan types.SpecState)
-	failureC := make(chan types.Failure)
+	outcomeC := make(chan types.SpecState, 1)
+	failureC := make(chan types.Failure, 1)
+	nodeRunC := make(chan *NodeRun, 1)
 
 	go func() {
+		nodeRun := suite.failer.StartNode()
+		nodeRunC <- nodeRun
 		finished := false
 		defer func() {
 			if e := recover(); e != nil || !finished {
 				suite.failer.Panic(types.NewCodeLocationWithStackTrace(2), e)
 			}
 
-			outcomeFromRun, failureFromRun := suite.failer.Drain()
+			outcomeFromRun, failureFromRun, ok := nodeRun.Finish()
+			if !ok {
+				return // Ginkgo has moved on without this node
+			}
 			failureFromRun.TimelineLocation = suite.generateTimelineLocation()
 			outcomeC <- outcomeFromRun
 			failureC <- failureFromRun
@@ -895,6 +910,37 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 		finished = true
 	}()
 
+	nodeRun := <-nodeRunC
+
+	// a timed out or interrupted node may have recorded a failure, too.  we attach it as an additional failure
+	attachFailure := func(outcomeFromRun types.SpecState, failureFromRun types.Failure) {
+		if outcomeFromRun == types.SpecStatePassed {
+			return
+		}
+		additionalFailure := types.AdditionalFailure{
+			State:   outcomeFromRun,
+			Failure: failure, // we make a copy - this will include all the configuration set up above...
+		}
+		// ...and then we update the failure with the details from failureFromRun
+		additionalFailure.Failure.Location, additionalFailure.Failure.ForwardedPanic, additionalFailure.Failure.TimelineLocation = failureFromRun.Location, failureFromRun.ForwardedPanic, failureFromRun.TimelineLocation
+		additionalFailure.Failure.ProgressReport = types.ProgressReport{}
+		if outcome == types.SpecStateTimedout {
+			additionalFailure.Failure.Message = fmt.Sprintf("A %s timeout occurred and then the following failure was recorded in the timedout node before it exited:\n%s", timeoutInPlay, failureFromRun.Message)
+		} else {
+			additionalFailure.Failure.Message = fmt.Sprintf("An interrupt occurred and then the following failure was recorded in the interrupted node before it exited:\n%s", failureFromRun.Message)
+		}
+		suite.reporter.EmitFailure(additionalFailure.State, additionalFailure.Failure)
+		failure.AdditionalFailure = &additionalFailure
+	}
+
+	// we call this when we stop waiting for the node.  it keeps running but whatever it reports from now on is not
+	// allowed to affect any other node
+	abandonNode := func() {
+		outcomeFromRun, failureFromRun := nodeRun.Abandon()
+		failureFromRun.TimelineLocation = suite.generateTimelineLocation()
+		attachFailure(outcomeFromRun, failureFromRun)
+	}
+
 	// progress polling timer and channel
 	var emitProgressNow <-chan time.Time
 	var progressPoller *time.Timer
@@ -920,22 +966,7 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 				// we've already been interrupted/timed out.  we just managed to actually exit
 				// before the grace period elapsed
 				// if we have a failure message we attach it as an additional failure
-				if outcomeFromRun != types.SpecStatePassed {
-					additionalFailure := types.AdditionalFailure{
-						State:   outcomeFromRun,
-						Failure: failure, // we make a copy - this will include all the configuration set up above...
-					}
-					// ...and then we update the failure with the details from failureFromRun
-					additionalFailure.Failure.Location, additionalFailure.Failure.ForwardedPanic, additionalFailure.Failure.TimelineLocation = failureFromRun.Location, failureFromRun.ForwardedPanic, failureFromRun.TimelineLocation
-					additionalFailure.Failure.ProgressReport = types.ProgressReport{}
-					if outcome == types.SpecStateTimedout {
-						additionalFailure.Failure.Message = fmt.Sprintf("A %s timeout occurred and then the following failure was recorded in the timedout node before it exited:\n%s", timeoutInPlay, failureFromRun.Message)
-					} else {
-						additionalFailure.Failure.Message = fmt.Sprintf("An interrupt occurred and then the following failure was recorded in the interrupted node before it exited:\n%s", failureFromRun.Message)
-					}
-					suite.reporter.EmitFailure(additionalFailure.State, additionalFailure.Failure)
-					failure.AdditionalFailure = &additionalFailure
-				}
+				attachFailure(outcomeFromRun, failureFromRun)
 				return outcome, failure
 			}
 			if outcomeFromRun.Is(types.SpecStatePassed) {
@@ -946,6 +977,7 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 				return outcomeFromRun, failure
 			}
 		case <-gracePeriodChannel:
+			abandonNode()
 			if node.HasContext && outcome.Is(types.SpecStateTimedout) {
 				report := suite.generateProgressReport(false)
 				report.Message = "{{bold}}{{orange}}A running node failed to exit in time{{/}}\nGinkgo is moving on but a node has timed out and failed to exit before its grace period elapsed.  The node has now leaked and is running in the background.\nHere's a current progress report:"
@@ -997,6 +1029,7 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 					progressReport.Message = fmt.Sprintf("{{bold}}{{orange}}%s{{/}}\n{{bold}}{{red}}Final interrupt received{{/}}; Ginkgo will not run any cleanup or reporting nodes and will terminate as soon as possible.\nHere's a current progress report:", interruptStatus.Message())
 					suite.emitProgressReport(progressReport)
 				}
+				abandonNode()
 				return outcome, failure
 			}
 			if interruptStatus.ShouldIncludeProgressReport() {
@@ -1013,6 +1046,7 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 				gracePeriodChannel = time.After(gracePeriod)
 			} else {
 				// we've already given grace.  time's up.  now.
+				abandonNode()
 				return outcome, failure
 			}
 		case <-emitProgressNow:
-- 
2.43.0


From 179ac53b4316d4afe0ae9a529fbffed23e21dcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 10/37] fix: keep every failure of a spec when reporting nodes
 fail or a teardown node aborts the suite

The failure of a reporting node was lost when the spec had already failed, and aborting the suite in a
teardown or reporting node dropped the failure the spec had already encountered.
---
 internal/group.go |  2 ++
 internal/suite.go | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/internal/group.go b/internal/group.go
index 3f680d4..3248255 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -311,6 +311,7 @@ func (g *group) attemptSpec(finalIfPassed bool, finalIfFailed bool, spec Spec) b
 			state, failure := g.suite.runNode(node, deadline, spec.Nodes.BestTextFor(node))
 			g.suite.currentSpecReport.RunTime = time.Since(g.suite.currentSpecReport.StartTime)
 			if g.suite.currentSpecReport.State == types.SpecStatePassed || state == types.SpecStateAborted {
+				g.suite.preserveFailureBeforeAbort()
 				g.suite.currentSpecReport.State = state
 				g.suite.currentSpecReport.Failure = failure
 			} else if state.Is(types.SpecStateFailureStates) {
@@ -355,6 +356,7 @@ func (g *group) runOwedTeardown() {
 			state, failure := g.suite.runNode(node, time.Time{}, g.lastAttemptedSpec.Nodes.BestTextFor(node))
 			if state.Is(types.SpecStateFailureStates) {
 				if !g.suite.currentSpecReport.State.Is(types.SpecStateFailureStates) || state.Is(types.SpecStateAborted) {
+					g.suite.preserveFailureBeforeAbort()
 					g.suite.currentSpecReport.State, g.suite.currentSpecReport.Failure = state, failure
 				} else {
 					g.suite.currentSpecReport.AdditionalFailures = append(g.suite.currentSpecReport.AdditionalFailures, types.AdditionalFailure{State: state, Failure: failure})
diff --git a/internal/suite.go b/internal/suite.go
index 60a75a0..3f1705a 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -592,6 +592,14 @@ func (suite *Suite) runAfterSuiteCleanup(numSpecsThatWillBeRun int) {
 	}
 }
 
+// preserveFailureBeforeAbort is called when a node aborts the suite.  The abort becomes the spec's failure
+// and a failure that the spec has already encountered becomes an additional failure.
+func (suite *Suite) preserveFailureBeforeAbort() {
+	if suite.currentSpecReport.State.Is(types.SpecStateFailureStates) {
+		suite.currentSpecReport.AdditionalFailures = append(suite.currentSpecReport.AdditionalFailures, types.AdditionalFailure{State: suite.currentSpecReport.State, Failure: suite.currentSpecReport.Failure})
+	}
+}
+
 func (suite *Suite) reportEach(spec Spec, nodeType types.NodeType) {
 	nodes := spec.Nodes.WithType(nodeType)
 	if nodeType == types.NodeTypeReportAfterEach {
@@ -616,8 +624,11 @@ func (suite *Suite) reportEach(spec Spec, nodeType types.NodeType) {
 		// If the spec is not in a failure state (i.e. it's Passed/Skipped/Pending) and the reporter has failed, override the state.
 		// Also, if the reporter is every aborted - always override the state to propagate the abort
 		if (!suite.currentSpecReport.State.Is(types.SpecStateFailureStates) && state.Is(types.SpecStateFailureStates)) || state.Is(types.SpecStateAborted) {
+			suite.preserveFailureBeforeAbort()
 			suite.currentSpecReport.State = state
 			suite.currentSpecReport.Failure = failure
+		} else if state.Is(types.SpecStateFailureStates) {
+			suite.currentSpecReport.AdditionalFailures = append(suite.currentSpecReport.AdditionalFailures, types.AdditionalFailure{State: state, Failure: failure})
 		}
 		suite.currentSpecReport.CapturedGinkgoWriterOutput += string(suite.writer.Bytes())
 		suite.currentSpecReport.CapturedStdOutErr += suite.outputInterceptor.StopInterceptingAndReturnOutput()
-- 
2.43.0


From b637e490de6738321ffdf274dda09ec3f0a6fce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:27 +0000
Subject: [PATCH 11/37] fix: an abort by another process must not escalate an
 earlier interrupt

After a first interrupt by the user cleanup nodes are to run.  If another process then aborts the suite
(its interrupted specs failed and --fail-fast is set, say) the level rose to report-only and they didn't.
---
 internal/interrupt_handler/interrupt_handler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/interrupt_handler/interrupt_handler.go b/internal/interrupt_handler/interrupt_handler.go
index 79bfa87..2bb9d2c 100644
--- a/internal/interrupt_handler/interrupt_handler.go
+++ b/internal/interrupt_handler/interrupt_handler.go
@@ -140,6 +140,11 @@ func (handler *InterruptHandler) registerForInterrupts() {
 			abortChannel = nil
 
 			handler.lock.Lock()
+			if interruptCause == InterruptCauseAbortByOtherProcess && handler.level != InterruptLevelUninterrupted {
+				// we've already been interrupted.  only signals escalate the interrupt level
+				handler.lock.Unlock()
+				continue
+			}
 			oldLevel := handler.level
 			handler.cause = interruptCause
 			if handler.level == InterruptLevelUninterrupted {
-- 
2.43.0


From 0b49159b18ff59977db3775cc507812e0c2fd31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:28 +0000
Subject: [PATCH 12/37] fix: a parallel process that was killed by a signal is
 not alive

ProcessState.Exited() is false for a process that was terminated by a signal: the other processes kept
waiting for it forever.
---
 ginkgo/internal/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginkgo/internal/run.go b/ginkgo/internal/run.go
index 41052ea..07bc295 100644
--- a/ginkgo/internal/run.go
+++ b/ginkgo/internal/run.go
@@ -219,7 +219,7 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 
 		cmd, buf := buildAndStartCommand(suite, args, false)
 		procOutput[proc-1] = buf
-		server.RegisterAlive(proc, func() bool { return cmd.ProcessState == nil || !cmd.ProcessState.Exited() })
+		server.RegisterAlive(proc, func() bool { return cmd.ProcessState == nil })
 
 		go func() {
 			cmd.Wait()
-- 
2.43.0


From 6c7b7627196cc78157f1b6c97dea811c057ae750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:40 +0000
Subject: [PATCH 13/37] fix: an interrupted ginkgo command must not report
 success

When ginkgo was interrupted while compiling, between two suites or in a later iteration of --repeat it
printed "Test Suite Passed" and exited 0 without running the remaining suites.
---
 ginkgo/run/run_command.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ginkgo/run/run_command.go b/ginkgo/run/run_command.go
index 03875b9..488d511 100644
--- a/ginkgo/run/run_command.go
+++ b/ginkgo/run/run_command.go
@@ -180,7 +180,10 @@ OUTER_LOOP:
 
 	fmt.Printf("\nGinkgo ran %d %s in %s\n", len(suites), internal.PluralizedWord("suite", "suites", len(suites)), time.Since(t))
 
-	if suites.CountWithState(internal.TestSuiteStateFailureStates...) == 0 {
+	if suites.CountWithState(internal.TestSuiteStateFailureStates...) == 0 && r.interruptHandler.Status().Interrupted() {
+		fmt.Printf("\nTest Suite Failed - Interrupted by User\n")
+		command.Abort(command.AbortDetails{ExitCode: 1})
+	} else if suites.CountWithState(internal.TestSuiteStateFailureStates...) == 0 {
 		if suites.AnyHaveProgrammaticFocus() && strings.TrimSpace(os.Getenv("GINKGO_EDITOR_INTEGRATION")) == "" {
 			fmt.Printf("Test Suite Passed\n")
 			fmt.Printf("Detected Programmatic Focus - setting exit status to %d\n", types.GINKGO_FOCUS_EXIT_CODE)
-- 
2.43.0


From a13f1a6928d877ed58c4c9e1292d403ce90a028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 14/37] fix: don't ignore errors when writing JUnit and
 Teamcity reports

A full disk resulted in a truncated report and a passing run.
---
 ginkgo/internal/profiles_and_reports.go |  5 +++-
 reporters/junit_report.go               | 31 ++++++++++++-------------
 reporters/teamcity_report.go            |  8 +++----
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/ginkgo/internal/profiles_and_reports.go b/ginkgo/internal/profiles_and_reports.go
index 8e16d2b..9a978c9 100644
--- a/ginkgo/internal/profiles_and_reports.go
+++ b/ginkgo/internal/profiles_and_reports.go
@@ -118,7 +118,10 @@ func FinalizeProfilesAndReportsForSuites(suites TestSuites, cliConfig types.CLIC
 		}
 
 		for _, format := range reportFormats {
-			format.GenerateFunc(report, AbsPathForGeneratedAsset(format.ReportName, suite, cliConfig, 0))
+			dst := AbsPathForGeneratedAsset(format.ReportName, suite, cliConfig, 0)
+			if err := format.GenerateFunc(report, dst); err != nil {
+				messages = append(messages, fmt.Sprintf("Could not write %s:\n%s", dst, err.Error()))
+			}
 		}
 	}
 
diff --git a/reporters/junit_report.go b/reporters/junit_report.go
index 562e0f6..52df112 100644
--- a/reporters/junit_report.go
+++ b/reporters/junit_report.go
@@ -302,16 +302,24 @@ func GenerateJUnitReportWithConfig(report types.Report, dst string, config Junit
 	if err := os.MkdirAll(path.Dir(dst), 0770); err != nil {
 		return err
 	}
+	return writeJUnitReport(junitReport, dst)
+}
+
+func writeJUnitReport(report JUnitTestSuites, dst string) error {
 	f, err := os.Create(dst)
 	if err != nil {
 		return err
 	}
-	f.WriteString(xml.Header)
-	encoder := xml.NewEncoder(f)
-	encoder.Indent("  ", "    ")
-	encoder.Encode(junitReport)
-
-	return f.Close()
+	_, err = f.WriteString(xml.Header)
+	if err == nil {
+		encoder := xml.NewEncoder(f)
+		encoder.Indent("  ", "    ")
+		err = encoder.Encode(report)
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 func MergeAndCleanupJUnitReports(sources []string, dst string) ([]string, error) {
@@ -343,16 +351,7 @@ func MergeAndCleanupJUnitReports(sources []string, dst string) ([]string, error)
 	if err := os.MkdirAll(path.Dir(dst), 0770); err != nil {
 		return messages, err
 	}
-	f, err := os.Create(dst)
-	if err != nil {
-		return messages, err
-	}
-	f.WriteString(xml.Header)
-	encoder := xml.NewEncoder(f)
-	encoder.Indent("  ", "    ")
-	encoder.Encode(mergedReport)
-
-	return messages, f.Close()
+	return messages, writeJUnitReport(mergedReport, dst)
 }
 
 func failureDescriptionForUnstructuredReporters(spec types.SpecReport) string {
diff --git a/reporters/teamcity_report.go b/reporters/teamcity_report.go
index e990ad8..120c988 100644
--- a/reporters/teamcity_report.go
+++ b/reporters/teamcity_report.go
@@ -9,6 +9,7 @@ http://confluence.jetbrains.com/display/TCD7/Build+Script+Interaction+with+TeamC
 package reporters
 
 import (
+	"bytes"
 	"fmt"
 	"os"
 	"path"
@@ -31,10 +32,7 @@ func GenerateTeamcityReport(report types.Report, dst string) error {
 	if err := os.MkdirAll(path.Dir(dst), 0770); err != nil {
 		return err
 	}
-	f, err := os.Create(dst)
-	if err != nil {
-		return err
-	}
+	f := &bytes.Buffer{}
 
 	name := report.SuiteDescription
 	labels := report.SuiteLabels
@@ -86,7 +84,7 @@ func GenerateTeamcityReport(report types.Report, dst string) error {
 	}
 	fmt.Fprintf(f, "##teamcity[testSuiteFinished name='%s']\n", tcEscape(report.SuiteDescription))
 
-	return f.Close()
+	return os.WriteFile(dst, f.Bytes(), 0666)
 }
 
 func MergeAndCleanupTeamcityReports(sources []string, dst string) ([]string, error) {
-- 
2.43.0


From b087fa4ad015a9d125c54b93e40fce26e0865ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 15/37] fix: the Teamcity report must finish the test suite it
 started

The name of a suite with labels differed between testSuiteStarted and testSuiteFinished.
---
 reporters/teamcity_report.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reporters/teamcity_report.go b/reporters/teamcity_report.go
index 120c988..1702082 100644
--- a/reporters/teamcity_report.go
+++ b/reporters/teamcity_report.go
@@ -39,7 +39,8 @@ func GenerateTeamcityReport(report types.Report, dst string) error {
 	if len(labels) > 0 {
 		name = name + " [" + strings.Join(labels, ", ") + "]"
 	}
-	fmt.Fprintf(f, "##teamcity[testSuiteStarted name='%s']\n", tcEscape(name))
+	suiteName := tcEscape(name)
+	fmt.Fprintf(f, "##teamcity[testSuiteStarted name='%s']\n", suiteName)
 	for _, spec := range report.SpecReports {
 		name := fmt.Sprintf("[%s]", spec.LeafNodeType)
 		if spec.FullText() != "" {
@@ -82,7 +83,7 @@ func GenerateTeamcityReport(report types.Report, dst string) error {
 		fmt.Fprintf(f, "##teamcity[testStdErr name='%s' out='%s']\n", name, tcEscape(systemErrForUnstructuredReporters(spec)))
 		fmt.Fprintf(f, "##teamcity[testFinished name='%s' duration='%d']\n", name, int(spec.RunTime.Seconds()*1000.0))
 	}
-	fmt.Fprintf(f, "##teamcity[testSuiteFinished name='%s']\n", tcEscape(report.SuiteDescription))
+	fmt.Fprintf(f, "##teamcity[testSuiteFinished name='%s']\n", suiteName)
 
 	return os.WriteFile(dst, f.Bytes(), 0666)
 }
-- 
2.43.0


From 0202a22b277aa2c78c80873c627142c6101acdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:48 +0000
Subject: [PATCH 16/37] fix: a failure in teardown left over from a more deeply
 nested container must not crash the reporters

---
 internal/suite.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/suite.go b/internal/suite.go
index 3f1705a..53a9f6e 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -839,12 +839,14 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 
 	var failure types.Failure
 	failure.FailureNodeType, failure.FailureNodeLocation = node.NodeType, node.CodeLocation
+	// teardown left over from an earlier spec in an Ordered container may be nested more deeply than the current spec
+	nestingLevel := min(node.NestingLevel, len(suite.currentSpecReport.ContainerHierarchyTexts))
 	if node.NodeType.Is(types.NodeTypeIt) || node.NodeType.Is(types.NodeTypesForSuiteLevelNodes) {
 		failure.FailureNodeContext = types.FailureNodeIsLeafNode
-	} else if node.NestingLevel <= 0 {
+	} else if nestingLevel <= 0 {
 		failure.FailureNodeContext = types.FailureNodeAtTopLevel
 	} else {
-		failure.FailureNodeContext, failure.FailureNodeContainerIndex = types.FailureNodeInContainer, node.NestingLevel-1
+		failure.FailureNodeContext, failure.FailureNodeContainerIndex = types.FailureNodeInContainer, nestingLevel-1
 	}
 	var outcome types.SpecState
 
-- 
2.43.0


From c4bd09cfc333999bc268e25152569b4e3f3b8e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 17/37] fix: keep the failure of SynchronizedAfterSuite's
 process-1 function when the all-processes function failed or was skipped, too

---
 internal/suite.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/suite.go b/internal/suite.go
index 53a9f6e..a60d6b0 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -711,7 +711,12 @@ func (suite *Suite) runSuiteNode(node Node) {
 				node.Body = node.SynchronizedAfterSuiteProc1Body
 				node.HasContext = node.SynchronizedAfterSuiteProc1BodyHasContext
 				state, failure := suite.runNode(node, time.Time{}, "")
-				if suite.currentSpecReport.State.Is(types.SpecStatePassed) {
+				if (!suite.currentSpecReport.State.Is(types.SpecStateFailureStates) && state.Is(types.SpecStateFailureStates)) || state.Is(types.SpecStateAborted) {
+					suite.preserveFailureBeforeAbort()
+					suite.currentSpecReport.State, suite.currentSpecReport.Failure = state, failure
+				} else if state.Is(types.SpecStateFailureStates) {
+					suite.currentSpecReport.AdditionalFailures = append(suite.currentSpecReport.AdditionalFailures, types.AdditionalFailure{State: state, Failure: failure})
+				} else if suite.currentSpecReport.State.Is(types.SpecStatePassed) {
 					suite.currentSpecReport.State, suite.currentSpecReport.Failure = state, failure
 				}
 			}
-- 
2.43.0


From c1117a094471b0a16375f658203d17629d32df7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 18/37] fix: report a spec runtime of 0 for specs that have not
 started in progress reports

---
 reporters/default_reporter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reporters/default_reporter.go b/reporters/default_reporter.go
index 74ad076..9f00b4e 100644
--- a/reporters/default_reporter.go
+++ b/reporters/default_reporter.go
@@ -480,7 +480,11 @@ func (r *DefaultReporter) emitProgressReport(indent uint, emitGinkgoWriterOutput
 			r.emit(" ")
 			subjectIndent = 0
 		}
-		r.emit(r.fi(subjectIndent, "{{bold}}{{orange}}%s{{/}} (Spec Runtime: %s)\n", report.LeafNodeText, report.Time().Sub(report.SpecStartTime).Round(time.Millisecond)))
+		specRuntime := time.Duration(0)
+		if !report.SpecStartTime.IsZero() { // the spec hasn't started while its ReportBeforeEach nodes run
+			specRuntime = report.Time().Sub(report.SpecStartTime)
+		}
+		r.emit(r.fi(subjectIndent, "{{bold}}{{orange}}%s{{/}} (Spec Runtime: %s)\n", report.LeafNodeText, specRuntime.Round(time.Millisecond)))
 		r.emit(r.fi(indent+1, "{{gray}}%s{{/}}\n", report.LeafNodeLocation))
 		indent += 1
 	}
-- 
2.43.0


From 30abf1ba02f7d6344f309d0a040179ade530a566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 19/37] fix: remove a suite's stale reports before running it
 again

With --repeat and --until-it-fails, an iteration that died before writing its
reports left the (passing) reports of the iteration before it in place.
---
 ginkgo/internal/run.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ginkgo/internal/run.go b/ginkgo/internal/run.go
index 07bc295..fc199a7 100644
--- a/ginkgo/internal/run.go
+++ b/ginkgo/internal/run.go
@@ -27,6 +27,9 @@ func RunCompiledSuite(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterC
 		return suite
 	}
 
+	if suite.IsGinkgo {
+		removeStaleReports(suite, reporterConfig, cliConfig)
+	}
 	if suite.IsGinkgo && cliConfig.ComputedProcs() > 1 {
 		suite = runParallel(suite, ginkgoConfig, reporterConfig, cliConfig, goFlagsConfig, additionalArgs)
 	} else if suite.IsGinkgo {
@@ -38,6 +41,20 @@ func RunCompiledSuite(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterC
 	return suite
 }
 
+// removeStaleReports removes any reports left over from a prior run of the suite so that they aren't mistaken for
+// this run's reports if the suite dies before it can write them
+func removeStaleReports(suite TestSuite, reporterConfig types.ReporterConfig, cliConfig types.CLIConfig) {
+	for _, reportName := range []string{reporterConfig.JSONReport, reporterConfig.JUnitReport, reporterConfig.TeamcityReport} {
+		if reportName == "" {
+			continue
+		}
+		path := AbsPathForGeneratedAsset(reportName, suite, cliConfig, 0)
+		if info, err := os.Lstat(path); err == nil && info.Mode().IsRegular() {
+			os.Remove(path)
+		}
+	}
+}
+
 func buildAndStartCommand(suite TestSuite, args []string, pipeToStdout bool) (*exec.Cmd, *bytes.Buffer) {
 	buf := &bytes.Buffer{}
 	cmd := exec.Command(suite.PathToCompiledTest, args...)
-- 
2.43.0


From ae0e6e4daf049b9e17e8a51ca34eb41a6bd099a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 20/37] fix: remove the binaries of all compiled suites when a
 run of several suites is interrupted

Binaries of suites that were compiled ahead but did not get to run were left behind.
---
 ginkgo/run/run_command.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ginkgo/run/run_command.go b/ginkgo/run/run_command.go
index 488d511..cde02ec 100644
--- a/ginkgo/run/run_command.go
+++ b/ginkgo/run/run_command.go
@@ -119,6 +119,10 @@ OUTER_LOOP:
 
 			if r.interruptHandler.Status().Interrupted() {
 				opc.StopAndDrain()
+				// the remaining suites won't run, but those that have been compiled must still be cleaned up
+				for suiteIdx, suite := opc.Next(); suiteIdx < len(suites); suiteIdx, suite = opc.Next() {
+					suites[suiteIdx].PathToCompiledTest = suite.PathToCompiledTest
+				}
 				break OUTER_LOOP
 			}
 
-- 
2.43.0


From ce6b739a030b1905a5913dba4cfc8292a6650e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 21/37] fix: include the serial, ordered and parallel flags of
 a spec in its JSON encoding

The HTTP server of parallel runs hands reports over as JSON.  Without these
flags the reporter took specs of parallel runs for specs of serial runs and
left out their captured output and timelines.
---
 types/types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/types/types.go b/types/types.go
index ddcbec1..0b79af1 100644
--- a/types/types.go
+++ b/types/types.go
@@ -205,11 +205,14 @@ func (report SpecReport) MarshalJSON() ([]byte, error) {
 		LeafNodeLocation            CodeLocation
 		LeafNodeLabels              []string
 		LeafNodeText                string
+		IsSerial                    bool `json:",omitempty"`
+		IsInOrderedContainer        bool `json:",omitempty"`
 		State                       SpecState
 		StartTime                   time.Time
 		EndTime                     time.Time
 		RunTime                     time.Duration
 		ParallelProcess             int
+		RunningInParallel           bool `json:",omitempty"`
 		Failure                     *Failure `json:",omitempty"`
 		NumAttempts                 int
 		MaxFlakeAttempts            int
@@ -228,11 +231,14 @@ func (report SpecReport) MarshalJSON() ([]byte, error) {
 		LeafNodeLocation:            report.LeafNodeLocation,
 		LeafNodeLabels:              report.LeafNodeLabels,
 		LeafNodeText:                report.LeafNodeText,
+		IsSerial:                    report.IsSerial,
+		IsInOrderedContainer:        report.IsInOrderedContainer,
 		State:                       report.State,
 		StartTime:                   report.StartTime,
 		EndTime:                     report.EndTime,
 		RunTime:                     report.RunTime,
 		ParallelProcess:             report.ParallelProcess,
+		RunningInParallel:           report.RunningInParallel,
 		Failure:                     nil,
 		ReportEntries:               nil,
 		NumAttempts:                 report.NumAttempts,
-- 
2.43.0


From 26e6a44362269e50487f5939ef2723e4ef6828f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 22/37] fix: make --poll-progress-interval default to the 10s
 its usage states

The flag's usage says the default is 10s, but the default suite config left
the interval at zero, so with --poll-progress-after alone a node that is stuck
emits a single progress report instead of periodic ones.
---
 types/config.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/types/config.go b/types/config.go
index 2e827ef..0b8d311 100644
--- a/types/config.go
+++ b/types/config.go
@@ -45,11 +45,12 @@ type SuiteConfig struct {
 
 func NewDefaultSuiteConfig() SuiteConfig {
 	return SuiteConfig{
-		RandomSeed:      time.Now().Unix(),
-		Timeout:         time.Hour,
-		ParallelProcess: 1,
-		ParallelTotal:   1,
-		GracePeriod:     30 * time.Second,
+		RandomSeed:           time.Now().Unix(),
+		Timeout:              time.Hour,
+		PollProgressInterval: 10 * time.Second,
+		ParallelProcess:      1,
+		ParallelTotal:        1,
+		GracePeriod:          30 * time.Second,
 	}
 }
 
-- 
2.43.0


From 8b5c997245528618709013a43254d9feae21136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 23/37] fix: do not hold the suite's lock while querying
 attached progress reporters

A progress reporter is user code: one that calls CurrentSpecReport(), By() or
AddReportEntry() blocked on the lock held by generateProgressReport until the
five second deadline, so its text was lost, and By() and AddReportEntry()
in the running spec blocked as well.
---
 internal/suite.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/internal/suite.go b/internal/suite.go
index a60d6b0..7f84e55 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -377,17 +377,23 @@ func (suite *Suite) AddReportEntry(entry ReportEntry) error {
 func (suite *Suite) generateProgressReport(fullReport bool) types.ProgressReport {
 	timelineLocation := suite.generateTimelineLocation()
 	suite.selectiveLock.Lock()
-	defer suite.selectiveLock.Unlock()
+	specContext, specReport := suite.currentSpecContext, suite.currentSpecReport
+	node, nodeStartTime, byStep := suite.currentNode, suite.currentNodeStartTime, suite.currentByStep
+	suite.selectiveLock.Unlock()
+	gwOutput := specReport.CapturedGinkgoWriterOutput + string(suite.writer.Bytes())
 
+	// attached progress reporters are user code that may call back into the suite, so query them without holding the lock
 	deadline, cancel := context.WithTimeout(context.Background(), ProgressReporterDeadline)
 	defer cancel()
 	var additionalReports []string
-	if suite.currentSpecContext != nil {
-		additionalReports = append(additionalReports, suite.currentSpecContext.QueryProgressReporters(deadline, suite.failer)...)
+	if specContext != nil {
+		additionalReports = append(additionalReports, specContext.QueryProgressReporters(deadline, suite.failer)...)
 	}
 	additionalReports = append(additionalReports, suite.QueryProgressReporters(deadline, suite.failer)...)
-	gwOutput := suite.currentSpecReport.CapturedGinkgoWriterOutput + string(suite.writer.Bytes())
-	pr, err := NewProgressReport(suite.isRunningInParallel(), suite.currentSpecReport, suite.currentNode, suite.currentNodeStartTime, suite.currentByStep, gwOutput, timelineLocation, additionalReports, suite.config.SourceRoots, fullReport)
+
+	suite.selectiveLock.Lock()
+	defer suite.selectiveLock.Unlock()
+	pr, err := NewProgressReport(suite.isRunningInParallel(), specReport, node, nodeStartTime, byStep, gwOutput, timelineLocation, additionalReports, suite.config.SourceRoots, fullReport)
 
 	if err != nil {
 		fmt.Printf("{{red}}Failed to generate progress report:{{/}}\n%s\n", err.Error())
@@ -403,7 +409,10 @@ func (suite *Suite) handleProgressSignal() {
 
 func (suite *Suite) emitProgressReport(report types.ProgressReport) {
 	suite.selectiveLock.Lock()
-	suite.currentSpecReport.ProgressReports = append(suite.currentSpecReport.ProgressReports, report.WithoutCapturedGinkgoWriterOutput())
+	// generating the report can take a while: only record it if the suite has not moved on to another spec
+	if suite.currentSpecReport.StartTime.Equal(report.SpecStartTime) && suite.currentSpecReport.LeafNodeLocation == report.LeafNodeLocation {
+		suite.currentSpecReport.ProgressReports = append(suite.currentSpecReport.ProgressReports, report.WithoutCapturedGinkgoWriterOutput())
+	}
 	suite.selectiveLock.Unlock()
 
 	suite.reporter.EmitProgressReport(report)
-- 
2.43.0


From c34b84971478c3ed4c4571dbbdc93af77db0aaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 24/37] fix: do not panic when rendering a timeline whose
 offsets go backwards

A progress report requested between a spec's output being added to its report
and the writer being truncated counts that output twice, so that entries of a
later attempt point to smaller offsets. Rendering such a timeline panicked with
'slice bounds out of range': in a parallel run that ends the ginkgo command.
---
 reporters/default_reporter.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/reporters/default_reporter.go b/reporters/default_reporter.go
index 9f00b4e..d2af2ba 100644
--- a/reporters/default_reporter.go
+++ b/reporters/default_reporter.go
@@ -371,9 +371,11 @@ func (r *DefaultReporter) emitTimeline(indent uint, report types.SpecReport, tim
 	cursor := 0
 	for _, entry := range timeline {
 		tl := entry.GetTimelineLocation()
-		if tl.Offset < len(gw) {
-			r.emit(r.fi(indent, "%s", gw[cursor:tl.Offset]))
-			cursor = tl.Offset
+		// a progress report generated while output is moved into the spec report can point past the entries that follow it
+		offset := max(cursor, tl.Offset)
+		if offset < len(gw) {
+			r.emit(r.fi(indent, "%s", gw[cursor:offset]))
+			cursor = offset
 		} else if cursor < len(gw) {
 			r.emit(r.fi(indent, "%s", gw[cursor:]))
 			cursor = len(gw)
-- 
2.43.0


From 502298e191cb50ff3c310b84cbd21b9192b5bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 25/37] fix: a profile that can't be combined fails its suite
 instead of aborting the whole command

A process that died left no cover profile; combining the profiles then ended
the command on the spot: remaining suites did not run, the after-run hook was
not called, temporary binaries stayed and the reports of the run were not merged.
---
 ginkgo/internal/profiles_and_reports.go | 18 ++++++-------
 ginkgo/internal/run.go                  | 36 ++++++++++++++++---------
 ginkgo/run/run_command.go               |  2 +-
 3 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/ginkgo/internal/profiles_and_reports.go b/ginkgo/internal/profiles_and_reports.go
index 9a978c9..8349fd3 100644
--- a/ginkgo/internal/profiles_and_reports.go
+++ b/ginkgo/internal/profiles_and_reports.go
@@ -31,6 +31,7 @@ func FinalizeProfilesAndReportsForSuites(suites TestSuites, cliConfig types.CLIC
 	suitesWithProfiles := suites.WithState(TestSuiteStatePassed, TestSuiteStateFailed) //anything else won't have actually run and generated a profile
 
 	// merge cover profiles if need be
+	var coverErr error
 	if goFlagsConfig.Cover && !cliConfig.KeepSeparateCoverprofiles {
 		coverProfiles := []string{}
 		for _, suite := range suitesWithProfiles {
@@ -44,15 +45,14 @@ func FinalizeProfilesAndReportsForSuites(suites TestSuites, cliConfig types.CLIC
 			if cliConfig.OutputDir != "" {
 				dst = filepath.Join(cliConfig.OutputDir, goFlagsConfig.CoverProfile)
 			}
-			err := MergeAndCleanupCoverProfiles(coverProfiles, dst)
-			if err != nil {
-				return messages, err
-			}
-			coverage, err := GetCoverageFromCoverProfile(dst)
-			if err != nil {
-				return messages, err
+			coverage := 0.0
+			coverErr = MergeAndCleanupCoverProfiles(coverProfiles, dst)
+			if coverErr == nil {
+				coverage, coverErr = GetCoverageFromCoverProfile(dst)
 			}
-			if coverage == 0 {
+			if coverErr != nil {
+				// the reports don't depend on the profiles: finalize them before returning the error
+			} else if coverage == 0 {
 				messages = append(messages, "composite coverage: [no statements]")
 			} else if suitesWithProfiles.AnyHaveProgrammaticFocus() {
 				messages = append(messages, fmt.Sprintf("composite coverage: %.1f%% of statements however some suites did not contribute because they included programatically focused specs", coverage))
@@ -144,7 +144,7 @@ func FinalizeProfilesAndReportsForSuites(suites TestSuites, cliConfig types.CLIC
 		}
 	}
 
-	return messages, nil
+	return messages, coverErr
 }
 
 // loads each profile, merges them, deletes them, stores them in destination
diff --git a/ginkgo/internal/run.go b/ginkgo/internal/run.go
index fc199a7..4d31310 100644
--- a/ginkgo/internal/run.go
+++ b/ginkgo/internal/run.go
@@ -286,20 +286,32 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 		}
 	}
 
+	// a profile that can't be combined (e.g. because a process died before writing its own) fails the suite
+	// but keeps neither the remaining suites from running nor the reports from being written
+	failOnProfileError := func(preamble string, err error) bool {
+		if err == nil {
+			return false
+		}
+		fmt.Fprintf(os.Stderr, "%s\n%s\n", preamble, err.Error())
+		suite.State = TestSuiteStateFailed
+		return true
+	}
+
 	if len(coverProfiles) > 0 {
 		if suite.HasProgrammaticFocus {
 			fmt.Fprintln(os.Stdout, "coverage: no coverfile was generated because specs are programmatically focused")
 		} else {
 			coverProfile := AbsPathForGeneratedAsset(goFlagsConfig.CoverProfile, suite, cliConfig, 0)
 			err := MergeAndCleanupCoverProfiles(coverProfiles, coverProfile)
-			command.AbortIfError("Failed to combine cover profiles", err)
-
-			coverage, err := GetCoverageFromCoverProfile(coverProfile)
-			command.AbortIfError("Failed to compute coverage", err)
-			if coverage == 0 {
-				fmt.Fprintln(os.Stdout, "coverage: [no statements]")
-			} else {
-				fmt.Fprintf(os.Stdout, "coverage: %.1f%% of statements\n", coverage)
+			if !failOnProfileError("Failed to combine cover profiles", err) {
+				coverage, err := GetCoverageFromCoverProfile(coverProfile)
+				if failOnProfileError("Failed to compute coverage", err) {
+					// reported above
+				} else if coverage == 0 {
+					fmt.Fprintln(os.Stdout, "coverage: [no statements]")
+				} else {
+					fmt.Fprintf(os.Stdout, "coverage: %.1f%% of statements\n", coverage)
+				}
 			}
 		}
 	}
@@ -309,7 +321,7 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 		} else {
 			blockProfile := AbsPathForGeneratedAsset(goFlagsConfig.BlockProfile, suite, cliConfig, 0)
 			err := MergeProfiles(blockProfiles, blockProfile)
-			command.AbortIfError("Failed to combine blockprofiles", err)
+			failOnProfileError("Failed to combine blockprofiles", err)
 		}
 	}
 	if len(cpuProfiles) > 0 {
@@ -318,7 +330,7 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 		} else {
 			cpuProfile := AbsPathForGeneratedAsset(goFlagsConfig.CPUProfile, suite, cliConfig, 0)
 			err := MergeProfiles(cpuProfiles, cpuProfile)
-			command.AbortIfError("Failed to combine cpuprofiles", err)
+			failOnProfileError("Failed to combine cpuprofiles", err)
 		}
 	}
 	if len(memProfiles) > 0 {
@@ -327,7 +339,7 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 		} else {
 			memProfile := AbsPathForGeneratedAsset(goFlagsConfig.MemProfile, suite, cliConfig, 0)
 			err := MergeProfiles(memProfiles, memProfile)
-			command.AbortIfError("Failed to combine memprofiles", err)
+			failOnProfileError("Failed to combine memprofiles", err)
 		}
 	}
 	if len(mutexProfiles) > 0 {
@@ -336,7 +348,7 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 		} else {
 			mutexProfile := AbsPathForGeneratedAsset(goFlagsConfig.MutexProfile, suite, cliConfig, 0)
 			err := MergeProfiles(mutexProfiles, mutexProfile)
-			command.AbortIfError("Failed to combine mutexprofiles", err)
+			failOnProfileError("Failed to combine mutexprofiles", err)
 		}
 	}
 
diff --git a/ginkgo/run/run_command.go b/ginkgo/run/run_command.go
index cde02ec..8f3228c 100644
--- a/ginkgo/run/run_command.go
+++ b/ginkgo/run/run_command.go
@@ -177,10 +177,10 @@ OUTER_LOOP:
 	internal.Cleanup(r.goFlagsConfig, suites...)
 
 	messages, err := internal.FinalizeProfilesAndReportsForSuites(suites, r.cliConfig, r.suiteConfig, r.reporterConfig, r.goFlagsConfig)
-	command.AbortIfError("could not finalize profiles:", err)
 	for _, message := range messages {
 		fmt.Println(message)
 	}
+	command.AbortIfError("could not finalize profiles:", err)
 
 	fmt.Printf("\nGinkgo ran %d %s in %s\n", len(suites), internal.PluralizedWord("suite", "suites", len(suites)), time.Since(t))
 
-- 
2.43.0


From 543f8df9736eef6e9154a4a37f06308cae2cbc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 26/37] fix: merging a cover profile into a truncated one no
 longer panics

After a block was appended at the end the search started beyond the last block.
---
 ginkgo/internal/gocovmerge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginkgo/internal/gocovmerge.go b/ginkgo/internal/gocovmerge.go
index 87cfa11..d8c10c5 100644
--- a/ginkgo/internal/gocovmerge.go
+++ b/ginkgo/internal/gocovmerge.go
@@ -89,7 +89,7 @@ func mergeProfileBlock(p *cover.Profile, pb cover.ProfileBlock, startIndex int)
 	}
 
 	i := 0
-	if !sortFunc(i) {
+	if startIndex < len(p.Blocks) && !sortFunc(i) {
 		i = sort.Search(len(p.Blocks)-startIndex, sortFunc)
 	}
 
-- 
2.43.0


From 8d874ef7eb20ab2cc4ea7b59b825e6120ca0aa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 27/37] fix: a spec that calls os.Exit(0) no longer makes its
 process pass silently

Test binaries are run with --test.paniconexit0, as go test does: otherwise the
remaining specs of the process are lost and the command reports success.
---
 ginkgo/internal/run.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginkgo/internal/run.go b/ginkgo/internal/run.go
index 4d31310..48f636d 100644
--- a/ginkgo/internal/run.go
+++ b/ginkgo/internal/run.go
@@ -133,7 +133,7 @@ func runSerial(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig t
 
 	args, err := types.GenerateGinkgoTestRunArgs(ginkgoConfig, reporterConfig, goFlagsConfig)
 	command.AbortIfError("Failed to generate test run arguments", err)
-	args = append([]string{"--test.timeout=0"}, args...)
+	args = append([]string{"--test.timeout=0", "--test.paniconexit0"}, args...)
 	args = append(args, additionalArgs...)
 
 	cmd, buf := buildAndStartCommand(suite, args, true)
@@ -231,7 +231,7 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 
 		args, err := types.GenerateGinkgoTestRunArgs(procGinkgoConfig, reporterConfig, procGoFlagsConfig)
 		command.AbortIfError("Failed to generate test run arguments", err)
-		args = append([]string{"--test.timeout=0"}, args...)
+		args = append([]string{"--test.timeout=0", "--test.paniconexit0"}, args...)
 		args = append(args, additionalArgs...)
 
 		cmd, buf := buildAndStartCommand(suite, args, false)
-- 
2.43.0


From 3fdd568fcf41889dcdc1a6368fd00f2116919e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 28/37] fix: ginkgo watch no longer panics when a removed suite
 comes back

The suite's package hash was pruned while the suite stayed tracked.  Removed suites are now forgotten, and
count as new suites when they come back.
---
 ginkgo/watch/delta_tracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ginkgo/watch/delta_tracker.go b/ginkgo/watch/delta_tracker.go
index 26418ac..52c614e 100644
--- a/ginkgo/watch/delta_tracker.go
+++ b/ginkgo/watch/delta_tracker.go
@@ -44,6 +44,7 @@ func (d *DeltaTracker) Delta(suites internal.TestSuites) (delta Delta, errors Su
 			}
 		} else {
 			delta.RemovedSuites = append(delta.RemovedSuites, suite)
+			delete(d.suites, suite.Suite.Path)
 		}
 	}
 
-- 
2.43.0


From 0f0c091f68823e66669856a3ad5b9ec4b8aa937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 29/37] fix: ginkgo watch ends when it is interrupted while a
 suite is running

---
 ginkgo/watch/watch_command.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ginkgo/watch/watch_command.go b/ginkgo/watch/watch_command.go
index fe1ca30..7ebe7bf 100644
--- a/ginkgo/watch/watch_command.go
+++ b/ginkgo/watch/watch_command.go
@@ -92,6 +92,11 @@ func (w *SpecWatcher) WatchSpecs(args []string, additionalArgs []string) {
 	ticker := time.NewTicker(time.Second)
 
 	for {
+		// an interrupt that came in while a suite was running replaced the channel
+		status := w.interruptHandler.Status()
+		if status.Interrupted() {
+			return
+		}
 		select {
 		case <-ticker.C:
 			suites := internal.FindSuites(args, w.cliConfig, false).WithoutState(internal.TestSuiteStateSkippedByFilter)
@@ -146,7 +151,7 @@ func (w *SpecWatcher) WatchSpecs(args []string, additionalArgs []string) {
 			for _, message := range messages {
 				fmt.Println(message)
 			}
-		case <-w.interruptHandler.Status().Channel:
+		case <-status.Channel:
 			return
 		}
 	}
-- 
2.43.0


From ef1114a9437b26e8ec9b6844acd523054fb7e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 30/37] fix: ginkgo watch removes the test binary when it is
 interrupted before running it

---
 ginkgo/watch/watch_command.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ginkgo/watch/watch_command.go b/ginkgo/watch/watch_command.go
index 7ebe7bf..58c0a30 100644
--- a/ginkgo/watch/watch_command.go
+++ b/ginkgo/watch/watch_command.go
@@ -164,6 +164,7 @@ func (w *SpecWatcher) compileAndRun(suite internal.TestSuite, additionalArgs []s
 		return suite
 	}
 	if w.interruptHandler.Status().Interrupted() {
+		internal.Cleanup(w.goFlagsConfig, suite)
 		return suite
 	}
 	suite = internal.RunCompiledSuite(suite, w.suiteConfig, w.reporterConfig, w.cliConfig, w.goFlagsConfig, additionalArgs)
-- 
2.43.0


From e0c7aae4154ac5370b995e05d58e7adb363b2e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 31/37] fix: ginkgo watch reruns suites when files are removed
 or replaced by older ones

The modification time of a changed package was that of its newest file, which lies before the last run if a
file was removed or replaced by one with an old modification time.
---
 ginkgo/watch/package_hash.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ginkgo/watch/package_hash.go b/ginkgo/watch/package_hash.go
index 0e6ae1f..78baa2c 100644
--- a/ginkgo/watch/package_hash.go
+++ b/ginkgo/watch/package_hash.go
@@ -18,6 +18,7 @@ type PackageHash struct {
 	path        string
 	codeHash    string
 	testHash    string
+	checkedAt   time.Time
 	watchRegExp *regexp.Regexp
 }
 
@@ -27,12 +28,15 @@ func NewPackageHash(path string, watchRegExp *regexp.Regexp) *PackageHash {
 		watchRegExp: watchRegExp,
 	}
 
+	p.checkedAt = time.Now()
 	p.codeHash, _, p.testHash, _, p.Deleted = p.computeHashes()
 
 	return p
 }
 
 func (p *PackageHash) CheckForChanges() bool {
+	previousCheck := p.checkedAt
+	p.checkedAt = time.Now()
 	codeHash, codeModifiedTime, testHash, testModifiedTime, deleted := p.computeHashes()
 
 	if deleted {
@@ -49,11 +53,11 @@ func (p *PackageHash) CheckForChanges() bool {
 	p.Deleted = false
 
 	if p.codeHash != codeHash {
-		p.CodeModifiedTime = codeModifiedTime
+		p.CodeModifiedTime = modifiedTime(codeModifiedTime, previousCheck)
 		modified = true
 	}
 	if p.testHash != testHash {
-		p.TestModifiedTime = testModifiedTime
+		p.TestModifiedTime = modifiedTime(testModifiedTime, previousCheck)
 		modified = true
 	}
 
@@ -62,6 +66,16 @@ func (p *PackageHash) CheckForChanges() bool {
 	return modified
 }
 
+// modifiedTime is when a package that has changed was modified.  A file that was removed, or replaced by one with an
+// old modification time, leaves no modification time since the previous check: all that is known then is that it
+// happened by now.
+func modifiedTime(newest time.Time, previousCheck time.Time) time.Time {
+	if newest.After(previousCheck) {
+		return newest
+	}
+	return time.Now()
+}
+
 func (p *PackageHash) computeHashes() (codeHash string, codeModifiedTime time.Time, testHash string, testModifiedTime time.Time, deleted bool) {
 	entries, err := os.ReadDir(p.path)
 
-- 
2.43.0


From 18d94e5d68be02cfaace6d47e6951ea34340f04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 32/37] fix: ginkgo watch keeps watching dependencies that do
 not parse

A dependency with a syntax error ahead of its declarations was dropped when a suite was run, and the suite was
not run again once the error was fixed.
---
 ginkgo/watch/dependencies.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ginkgo/watch/dependencies.go b/ginkgo/watch/dependencies.go
index a34d943..7a4d419 100644
--- a/ginkgo/watch/dependencies.go
+++ b/ginkgo/watch/dependencies.go
@@ -67,7 +67,9 @@ func (d Dependencies) addDepsForDep(dep string, depth int) {
 	pkg, err := build.ImportDir(dep, 0)
 	if err != nil {
 		println(err.Error())
-		return
+		if pkg == nil {
+			return
+		}
 	}
 	d.resolveAndAdd(pkg.Imports, depth)
 }
@@ -75,7 +77,7 @@ func (d Dependencies) addDepsForDep(dep string, depth int) {
 func (d Dependencies) resolveAndAdd(deps []string, depth int) {
 	for _, dep := range deps {
 		pkg, err := build.Import(dep, ".", 0)
-		if err != nil {
+		if err != nil && (pkg == nil || pkg.Dir == "") {
 			continue
 		}
 		if !pkg.Goroot && (!ginkgoAndGomegaFilter.MatchString(pkg.Dir) || ginkgoIntegrationTestFilter.MatchString(pkg.Dir)) {
-- 
2.43.0


From 8dba73be2e813dfef788cbe77217607622166a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 33/37] fix: ginkgo watch goes on when the profiles of a run
 cannot be combined

A test binary that dies while it writes its coverage, or a suite that is removed, ended the watch.
---
 ginkgo/watch/watch_command.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginkgo/watch/watch_command.go b/ginkgo/watch/watch_command.go
index 58c0a30..db5caa0 100644
--- a/ginkgo/watch/watch_command.go
+++ b/ginkgo/watch/watch_command.go
@@ -147,7 +147,9 @@ func (w *SpecWatcher) WatchSpecs(args []string, additionalArgs []string) {
 			fmt.Fprintln(coloredStream, formatter.F(color+"\nDone.  Resuming watch...{{/}}"))
 
 			messages, err := internal.FinalizeProfilesAndReportsForSuites(suites, w.cliConfig, w.suiteConfig, w.reporterConfig, w.goFlagsConfig)
-			command.AbortIfError("could not finalize profiles:", err)
+			if err != nil {
+				fmt.Fprintln(coloredStream, formatter.F("{{red}}could not finalize profiles:{{/}} %s", err.Error()))
+			}
 			for _, message := range messages {
 				fmt.Println(message)
 			}
-- 
2.43.0


From c3e383f0923f1d26130536b5a8057f15bf8cdebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:55 +0000
Subject: [PATCH 34/37] fix: ginkgo unfocus unfocuses FDescribeTableSubtree

---
 ginkgo/unfocus/unfocus_command.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginkgo/unfocus/unfocus_command.go b/ginkgo/unfocus/unfocus_command.go
index 7dd2943..ade4097 100644
--- a/ginkgo/unfocus/unfocus_command.go
+++ b/ginkgo/unfocus/unfocus_command.go
@@ -178,7 +178,7 @@ func scanForFocus(file *ast.File) (eliminations [][]int64) {
 
 func isFocus(name string) bool {
 	switch name {
-	case "FDescribe", "FContext", "FIt", "FDescribeTable", "FEntry", "FSpecify", "FWhen":
+	case "FDescribe", "FContext", "FIt", "FDescribeTable", "FDescribeTableSubtree", "FEntry", "FSpecify", "FWhen":
 		return true
 	default:
 		return false
-- 
2.43.0


From 0adfab97ecd8048450be30d0e0ebcabd425f4b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:55 +0000
Subject: [PATCH 35/37] fix: ginkgo unfocus leaves sources that parse and
 removes nothing but Focus decorators

It took Focus and the character after it out wherever an identifier is called so: Entry("a", Focus) lost its closing
parenthesis and a field of that name its colon.
---
 ginkgo/unfocus/unfocus_command.go | 56 +++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/ginkgo/unfocus/unfocus_command.go b/ginkgo/unfocus/unfocus_command.go
index ade4097..6f632f0 100644
--- a/ginkgo/unfocus/unfocus_command.go
+++ b/ginkgo/unfocus/unfocus_command.go
@@ -5,10 +5,12 @@ import (
 	"fmt"
 	"go/ast"
 	"go/parser"
+	"go/scanner"
 	"go/token"
 	"io"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"sync"
 
@@ -90,7 +92,7 @@ func unfocusFile(path string) {
 		return
 	}
 
-	eliminations := scanForFocus(ast)
+	eliminations := scanForFocus(ast, data)
 	if len(eliminations) == 0 {
 		return
 	}
@@ -154,28 +156,62 @@ func updateFile(path string, data []byte, eliminations [][]int64) error {
 	return nil
 }
 
-func scanForFocus(file *ast.File) (eliminations [][]int64) {
-	ast.Inspect(file, func(n ast.Node) bool {
-		if c, ok := n.(*ast.CallExpr); ok {
-			if i, ok := c.Fun.(*ast.Ident); ok {
-				if isFocus(i.Name) {
-					eliminations = append(eliminations, []int64{int64(i.Pos()), 1})
+func scanForFocus(file *ast.File, data []byte) (eliminations [][]int64) {
+	isFocusDecorator := func(e ast.Expr) bool {
+		i, ok := e.(*ast.Ident)
+		return ok && i.Name == "Focus"
+	}
+
+	// the Focus decorator is passed in a list of arguments: the comma that separates it from the others goes too
+	eliminateDecorators := func(args []ast.Expr) {
+		for idx, arg := range args {
+			if !isFocusDecorator(arg) {
+				continue
+			}
+			eliminations = append(eliminations, []int64{int64(arg.Pos()), int64(arg.End() - arg.Pos())})
+			comma := commaAfter(data, int(arg.End()-1))
+			if comma < 0 && idx > 0 && !isFocusDecorator(args[idx-1]) {
+				previous := int(args[idx-1].End() - 1)
+				if !bytes.Contains(data[previous:int(arg.Pos()-1)], []byte("\n")) {
+					comma = commaAfter(data, previous)
 				}
 			}
+			if comma >= 0 {
+				eliminations = append(eliminations, []int64{int64(comma + 1), 1})
+			}
 		}
+	}
 
-		if i, ok := n.(*ast.Ident); ok {
-			if i.Name == "Focus" {
-				eliminations = append(eliminations, []int64{int64(i.Pos()), 6})
+	ast.Inspect(file, func(n ast.Node) bool {
+		switch n := n.(type) {
+		case *ast.CallExpr:
+			if i, ok := n.Fun.(*ast.Ident); ok && isFocus(i.Name) {
+				eliminations = append(eliminations, []int64{int64(i.Pos()), 1})
 			}
+			eliminateDecorators(n.Args)
+		case *ast.CompositeLit:
+			eliminateDecorators(n.Elts)
 		}
 
 		return true
 	})
 
+	sort.Slice(eliminations, func(i, j int) bool { return eliminations[i][0] < eliminations[j][0] })
+
 	return eliminations
 }
 
+// commaAfter returns the offset of the comma that is the next token after offset, or -1 if the next token is another one
+func commaAfter(data []byte, offset int) int {
+	var s scanner.Scanner
+	s.Init(token.NewFileSet().AddFile("", -1, len(data)-offset), data[offset:], nil, 0)
+	pos, tok, _ := s.Scan()
+	if tok != token.COMMA {
+		return -1
+	}
+	return offset + int(pos) - 1
+}
+
 func isFocus(name string) bool {
 	switch name {
 	case "FDescribe", "FContext", "FIt", "FDescribeTable", "FDescribeTableSubtree", "FEntry", "FSpecify", "FWhen":
-- 
2.43.0


From 060cad4e27b70653aa9021e06ba6d6a04897a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:55 +0000
Subject: [PATCH 36/37] fix: ginkgo unfocus unfocuses specs that refer to
 Ginkgo by its package name

---
 ginkgo/unfocus/unfocus_command.go | 45 ++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/ginkgo/unfocus/unfocus_command.go b/ginkgo/unfocus/unfocus_command.go
index 6f632f0..d220eb8 100644
--- a/ginkgo/unfocus/unfocus_command.go
+++ b/ginkgo/unfocus/unfocus_command.go
@@ -9,8 +9,10 @@ import (
 	"go/token"
 	"io"
 	"os"
+	pathpkg "path"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -157,9 +159,24 @@ func updateFile(path string, data []byte, eliminations [][]int64) error {
 }
 
 func scanForFocus(file *ast.File, data []byte) (eliminations [][]int64) {
+	packageNames := ginkgoPackageNames(file)
+
+	// ginkgoIdent returns the identifier that e may use to refer to Ginkgo's DSL: It, or ginkgo.It
+	ginkgoIdent := func(e ast.Expr) *ast.Ident {
+		switch e := e.(type) {
+		case *ast.Ident:
+			return e
+		case *ast.SelectorExpr:
+			if x, ok := e.X.(*ast.Ident); ok && packageNames[x.Name] {
+				return e.Sel
+			}
+		}
+		return nil
+	}
+
 	isFocusDecorator := func(e ast.Expr) bool {
-		i, ok := e.(*ast.Ident)
-		return ok && i.Name == "Focus"
+		i := ginkgoIdent(e)
+		return i != nil && i.Name == "Focus"
 	}
 
 	// the Focus decorator is passed in a list of arguments: the comma that separates it from the others goes too
@@ -185,7 +202,7 @@ func scanForFocus(file *ast.File, data []byte) (eliminations [][]int64) {
 	ast.Inspect(file, func(n ast.Node) bool {
 		switch n := n.(type) {
 		case *ast.CallExpr:
-			if i, ok := n.Fun.(*ast.Ident); ok && isFocus(i.Name) {
+			if i := ginkgoIdent(n.Fun); i != nil && isFocus(i.Name) {
 				eliminations = append(eliminations, []int64{int64(i.Pos()), 1})
 			}
 			eliminateDecorators(n.Args)
@@ -201,6 +218,28 @@ func scanForFocus(file *ast.File, data []byte) (eliminations [][]int64) {
 	return eliminations
 }
 
+// ginkgoPackageNames returns the names by which the file refers to the packages of Ginkgo's DSL
+func ginkgoPackageNames(file *ast.File) map[string]bool {
+	names := map[string]bool{}
+	for _, spec := range file.Imports {
+		importPath, err := strconv.Unquote(spec.Path.Value)
+		if err != nil {
+			continue
+		}
+		name := pathpkg.Base(importPath)
+		if importPath == "github.com/onsi/ginkgo/v2" {
+			name = "ginkgo"
+		} else if !strings.HasPrefix(importPath, "github.com/onsi/ginkgo/v2/dsl/") {
+			continue
+		}
+		if spec.Name != nil {
+			name = spec.Name.Name
+		}
+		names[name] = true
+	}
+	return names
+}
+
 // commaAfter returns the offset of the comma that is the next token after offset, or -1 if the next token is another one
 func commaAfter(data []byte, offset int) int {
 	var s scanner.Scanner
-- 
2.43.0


From a1c32d16620df2b0d0daf967e98f5241489a2aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 37/37] fix: ginkgo build does not announce a binary for a
 suite without test files

With -o naming a file that does not exist yet it panicked.
---
 ginkgo/build/build_command.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginkgo/build/build_command.go b/ginkgo/build/build_command.go
index 2b36b2f..97efb6c 100644
--- a/ginkgo/build/build_command.go
+++ b/ginkgo/build/build_command.go
@@ -54,6 +54,8 @@ func buildSpecs(args []string, cliConfig types.CLIConfig, goFlagsConfig types.Go
 		suites[suiteIdx] = suite
 		if suite.State.Is(internal.TestSuiteStateFailedToCompile) {
 			fmt.Println(suite.CompilationError.Error())
+		} else if suite.State.Is(internal.TestSuiteStateSkippedDueToEmptyCompilation) {
+			fmt.Printf("Skipping %s (no test files)\n", suite.Path)
 		} else {
 			var testBinPath string
 			if len(goFlagsConfig.O) != 0 {
-- 
2.43.0

