From ab0e57a8c19e92933576436d55d22a7bca2dcfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:07 +0000
Subject: [PATCH 01/40] fix: do not lose concurrent agent state and behavior
 updates

AtomicState.Update and AtomicBehavior.Update loaded, modified and stored
without checking that nobody else stored in between, so two concurrent
updates of different fields could lose one of them.
---
 emerge/agent/atomic_state.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/emerge/agent/atomic_state.go b/emerge/agent/atomic_state.go
index b32601c..2345738 100644
--- a/emerge/agent/atomic_state.go
+++ b/emerge/agent/atomic_state.go
@@ -47,12 +47,21 @@ func (a *AtomicState) Store(state StateData) {
 }
 
 // Update atomically updates the state.
-// For simplicity, this just loads, modifies, and stores.
-// In high contention scenarios, consider using a mutex instead.
+// The modification is retried when another writer got in between, so no
+// concurrent update is lost; fn may therefore run more than once and must not
+// have side effects beyond the state it is given.
 func (a *AtomicState) Update(fn func(*StateData)) {
-	old := a.Load()
-	fn(&old)
-	a.Store(old)
+	for {
+		old := a.value.Load()
+		next := StateData{}
+		if data, ok := old.(*StateData); ok {
+			next = *data
+		}
+		fn(&next)
+		if a.value.CompareAndSwap(old, &next) {
+			return
+		}
+	}
 }
 
 // AtomicBehavior uses atomic.Value for behavioral parameters.
@@ -83,8 +92,17 @@ func (a *AtomicBehavior) Store(behavior BehaviorData) {
 }
 
 // Update atomically updates the behavior.
+// Like AtomicState.Update, fn is retried when another writer got in between.
 func (a *AtomicBehavior) Update(fn func(*BehaviorData)) {
-	old := a.Load()
-	fn(&old)
-	a.Store(old)
+	for {
+		old := a.value.Load()
+		next := BehaviorData{}
+		if data, ok := old.(*BehaviorData); ok {
+			next = *data
+		}
+		fn(&next)
+		if a.value.CompareAndSwap(old, &next) {
+			return
+		}
+	}
 }
-- 
2.43.0


From 3fa604ca34006b62dfbd2b2b8fff340785a9c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:43 +0000
Subject: [PATCH 02/40] fix: do not let concurrent actions overspend an agent's
 energy

ApplyAction compared the cost with the energy before the atomic update, so
concurrent actions could all pass the check and spend the same energy.
---
 emerge/agent/agent.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 74b94ab..868209a 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -451,20 +451,28 @@ func (a *Agent) ApplyAction(action core.Action) (bool, float64, error) {
 	switch action.Type {
 	case "adjust_phase", strategyPhaseNudge, strategyFrequencyLock, "energy_save", "pulse":
 		a.state.Update(func(s *StateData) {
-			s.Phase = core.WrapPhase(s.Phase + action.Value)
-			s.Energy = math.Max(0, s.Energy-energyCost)
+			// Re-check here: a concurrent action may have spent the energy.
+			if success = energyCost <= s.Energy; success {
+				s.Phase = core.WrapPhase(s.Phase + action.Value)
+				s.Energy = math.Max(0, s.Energy-energyCost)
+			}
 		})
-		success = true
 	case "maintain":
 		a.state.Update(func(s *StateData) {
-			s.Energy = math.Max(0, s.Energy-energyCost)
+			if success = energyCost <= s.Energy; success {
+				s.Energy = math.Max(0, s.Energy-energyCost)
+			}
 		})
-		success = true
 	default:
 		return false, 0, fmt.Errorf("%w: %s", core.ErrUnknownActionType, action.Type)
 	}
 
-	if success && a.resources != nil {
+	if !success {
+		return false, 0, fmt.Errorf("%w: required %.2f, available %.2f",
+			core.ErrInsufficientEnergy, energyCost, a.Energy())
+	}
+
+	if a.resources != nil {
 		a.resources.Request(energyCost)
 	}
 
-- 
2.43.0


From 915b104f471d45c9fcaeb2788d7dce007ca8fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:20 +0000
Subject: [PATCH 03/40] fix: keep one neighbor relation per agent across both
 storages

Swarms record connections in the neighbor map while ConnectTo uses the
fixed-size storage, and only the latter was consulted: IsConnectedTo denied
connections a swarm had made, DisconnectFrom could not remove them and
UpdateContext did not see them. ConnectTo also silently dropped every
neighbor beyond the storage's capacity.
---
 emerge/agent/agent.go | 68 ++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 40 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 868209a..e904302 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -249,23 +249,32 @@ func (a *Agent) SetDecisionMaker(dm core.DecisionMaker) {
 
 // NeighborCount returns the number of connected neighbors.
 func (a *Agent) NeighborCount() int {
-	// Check both storage methods for compatibility
-	optimizedCount := 0
+	return len(a.neighborList())
+}
+
+// neighborList returns all connected neighbors, whichever storage holds them.
+func (a *Agent) neighborList() []*Agent {
+	var list []*Agent
 	if a.useOptimizedNeighbors && a.optimizedNeighbors != nil {
-		optimizedCount = a.optimizedNeighbors.Count()
+		list = a.optimizedNeighbors.All()
 	}
 
-	mapCount := 0
-	a.neighbors.Range(func(_, _ any) bool {
-		mapCount++
+	a.neighbors.Range(func(key, value any) bool {
+		neighbor, ok := value.(*Agent)
+		if !ok {
+			return true
+		}
+		// A neighbor held by both storages counts once
+		if id, ok := key.(string); ok && a.useOptimizedNeighbors && a.optimizedNeighbors != nil {
+			if _, exists := a.optimizedNeighbors.Load(id); exists {
+				return true
+			}
+		}
+		list = append(list, neighbor)
 		return true
 	})
 
-	// Return the max to handle both cases
-	if optimizedCount > mapCount {
-		return optimizedCount
-	}
-	return mapCount
+	return list
 }
 
 // Neighbors returns the agent's neighbors map for compatibility.
@@ -281,9 +290,8 @@ func (a *Agent) ConnectTo(otherID string, other *Agent) {
 		return
 	}
 
-	if a.useOptimizedNeighbors {
-		a.optimizedNeighbors.Store(otherID, other)
-	} else {
+	// The fixed-size storage may be full: the map takes what does not fit
+	if !a.useOptimizedNeighbors || !a.optimizedNeighbors.Store(otherID, other) {
 		a.neighbors.Store(otherID, other)
 	}
 }
@@ -292,16 +300,16 @@ func (a *Agent) ConnectTo(otherID string, other *Agent) {
 func (a *Agent) DisconnectFrom(otherID string) {
 	if a.useOptimizedNeighbors {
 		a.optimizedNeighbors.Delete(otherID)
-	} else {
-		a.neighbors.Delete(otherID)
 	}
+	a.neighbors.Delete(otherID)
 }
 
 // IsConnectedTo checks if connected to another agent.
 func (a *Agent) IsConnectedTo(otherID string) bool {
 	if a.useOptimizedNeighbors {
-		_, exists := a.optimizedNeighbors.Load(otherID)
-		return exists
+		if _, exists := a.optimizedNeighbors.Load(otherID); exists {
+			return true
+		}
 	}
 	_, exists := a.neighbors.Load(otherID)
 	return exists
@@ -310,17 +318,7 @@ func (a *Agent) IsConnectedTo(otherID string) bool {
 // UpdateContext updates the agent's perception efficiently with both optimizations.
 func (a *Agent) UpdateContext() {
 	// Get neighbors efficiently
-	var neighborList []*Agent
-	if a.useOptimizedNeighbors {
-		neighborList = a.optimizedNeighbors.All()
-	} else {
-		a.neighbors.Range(func(_, value any) bool {
-			if neighbor, ok := value.(*Agent); ok {
-				neighborList = append(neighborList, neighbor)
-			}
-			return true
-		})
-	}
+	neighborList := a.neighborList()
 
 	if len(neighborList) == 0 {
 		a.context.Store(core.Context{
@@ -481,17 +479,7 @@ func (a *Agent) ApplyAction(action core.Action) (bool, float64, error) {
 
 // calculateLocalCoherence efficiently calculates coherence.
 func (a *Agent) calculateLocalCoherence() float64 {
-	var neighborList []*Agent
-	if a.useOptimizedNeighbors {
-		neighborList = a.optimizedNeighbors.All()
-	} else {
-		a.neighbors.Range(func(_, value any) bool {
-			if neighbor, ok := value.(*Agent); ok {
-				neighborList = append(neighborList, neighbor)
-			}
-			return true
-		})
-	}
+	neighborList := a.neighborList()
 
 	if len(neighborList) == 0 {
 		return 0
-- 
2.43.0


From cb9ac140cd765138456b5b19cc88990c5d745b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:21 +0000
Subject: [PATCH 04/40] fix: make ForEachAgent and DisruptAgents reach agents
 of large swarms

Swarms of more than 100 agents keep them in a slice, but both methods only
walked the map that smaller swarms use, so they did nothing.
---
 emerge/swarm/swarm.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 98b97ae..0ceaae3 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -568,15 +568,13 @@ func (s *Swarm) DisruptAgents(percentage float64) {
 	targetCount := int(float64(s.Size()) * percentage)
 	disrupted := 0
 
-	s.agents.Range(func(_, value any) bool {
+	s.ForEachAgent(func(a *agent.Agent) bool {
 		if disrupted >= targetCount {
 			return false
 		}
 
-		if a, ok := value.(*agent.Agent); ok {
-			a.SetPhase(random.Phase())
-			disrupted++
-		}
+		a.SetPhase(random.Phase())
+		disrupted++
 		return true
 	})
 
@@ -610,12 +608,11 @@ func (s *Swarm) DisruptAgents(percentage float64) {
 // ForEachAgent applies a function to each agent in the swarm.
 // This provides controlled access to agents without exposing the internal map.
 func (s *Swarm) ForEachAgent(fn func(*agent.Agent) bool) {
-	s.agents.Range(func(_, value any) bool {
-		if agent, ok := value.(*agent.Agent); ok {
-			return fn(agent)
+	for _, a := range s.collectAgents() {
+		if !fn(a) {
+			return
 		}
-		return true
-	})
+	}
 }
 
 // AutoScaleConfig returns a configuration that automatically scales based on swarm size.
-- 
2.43.0


From 86f2464a73959fc59fe029df66e4e8ebd7a05f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:42 +0000
Subject: [PATCH 05/40] fix: honor WithAgentBuilder for swarms of more than 100
 agents

The option stored the built agents in the map only smaller swarms use, so a
large swarm silently ignored them and created default agents instead.
---
 emerge/swarm/swarm.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 0ceaae3..6dad4c0 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -290,7 +290,17 @@ func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *
 	return func(s *Swarm) error {
 		for i := range s.size {
 			a := builder(fmt.Sprintf("agent-%d", i), s.size, s.config)
-			s.agents.Store(a.ID, a)
+			if !s.optimized {
+				s.agents.Store(a.ID, a)
+				continue
+			}
+			idx, exists := s.agentIndex[a.ID]
+			if !exists {
+				idx = len(s.agentSlice)
+				s.agentIndex[a.ID] = idx
+				s.agentSlice = append(s.agentSlice, nil)
+			}
+			s.agentSlice[idx] = a
 		}
 		return nil
 	}
-- 
2.43.0


From ace38a707199bde5f1f63985ef688091367b58f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:43 +0000
Subject: [PATCH 06/40] fix: build a custom topology after the agents exist

WithTopology ran its builder while the options were applied, when the swarm
has no agents unless WithAgentBuilder came first: ring and star failed, and
a full mesh left every agent isolated.
---
 emerge/swarm/swarm.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 6dad4c0..1d83775 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -45,6 +45,7 @@ type Swarm struct {
 
 	// Track initialization state
 	connectionsEstablished bool
+	topology               func(*Swarm) error // Custom topology builder, if any
 
 	// Goal-directed synchronization
 	goalDirectedSync *GoalDirectedSync
@@ -148,6 +149,14 @@ func New(size int, goal core.State, opts ...Option) (*Swarm, error) {
 		}
 	}
 
+	// Build the custom topology if there is one
+	if s.topology != nil {
+		if err := s.topology(s); err != nil {
+			return nil, fmt.Errorf("topology build failed: %w", err)
+		}
+		s.connectionsEstablished = true
+	}
+
 	// Establish connections if not already done
 	if !s.connectionsEstablished {
 		s.establishConnections()
@@ -309,10 +318,8 @@ func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *
 // WithTopology uses a custom topology builder.
 func WithTopology(builder func(*Swarm) error) Option {
 	return func(s *Swarm) error {
-		if err := builder(s); err != nil {
-			return fmt.Errorf("topology build failed: %w", err)
-		}
-		s.connectionsEstablished = true
+		// Built once the agents exist, whatever the order of the options
+		s.topology = builder
 		return nil
 	}
 }
-- 
2.43.0


From 6b982b534d18e131aa42b5471b9b5a59b9e1409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 07/40] fix: record coherence so that convergence reporting
 works

Nothing ever recorded a sample in the swarm's convergence monitor, so
CurrentCoherence and ConvergenceTime were always 0 and IsConverged always
false, also through the client.
---
 emerge/swarm/goal_directed.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 1366d36..8ee9a1b 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -114,6 +114,7 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 
 			// Step 2: Record convergence
 			gds.convergenceMonitor.RecordSample(currentPattern, coherence)
+			gds.swarm.convergence.Record(coherence)
 
 			// Step 3: Check if we've achieved the goal
 			if gds.isPatternAchieved(currentPattern) {
-- 
2.43.0


From a2cf7eb3017929e3ae838862a040648df460c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 08/40] fix: cap the iteration budget before converting it to
 an integer

For targets above the practical limit the time factor is infinite; converting
it first gave a negative budget, so Run failed at once without a single
iteration.
---
 emerge/swarm/goal_directed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 8ee9a1b..625afc8 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -92,8 +92,8 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 
 	// Adjust max iterations based on difficulty
 	timeFactor := GetConvergenceTimeFactor(swarmSize, target.Coherence)
-	maxIterations := int(gds.config.Strategy.MaxIterationsFactor * timeFactor)
-	maxIterations = min(maxIterations, 1000) // Cap at reasonable limit
+	// Cap at reasonable limit before converting: the factor can be infinite
+	maxIterations := int(min(gds.config.Strategy.MaxIterationsFactor*timeFactor, 1000))
 
 	// Goal-directed loop
 	ticker := time.NewTicker(gds.config.Strategy.UpdateInterval)
-- 
2.43.0


From affe159f6de6474ea9cf011451a375d0f8da3f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 09/40] fix: keep RunContinuous running when an attempt does
 not converge

It is documented to exit only when the context is canceled, but returned the
error of a synchronization attempt that used up its iterations.
---
 emerge/swarm/swarm_continuous_run.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/emerge/swarm/swarm_continuous_run.go b/emerge/swarm/swarm_continuous_run.go
index a46aea3..2fb4d8d 100644
--- a/emerge/swarm/swarm_continuous_run.go
+++ b/emerge/swarm/swarm_continuous_run.go
@@ -2,7 +2,6 @@ package swarm
 
 import (
 	"context"
-	"errors"
 	"math"
 	"time"
 
@@ -217,11 +216,11 @@ func (s *Swarm) RunContinuous(ctx context.Context) error {
 		case err := <-syncDone:
 			state.syncActive = false
 
-			if err != nil && !errors.Is(err, context.Canceled) {
-				// Real error occurred
-				return err
+			if err != nil && ctx.Err() != nil {
+				return ctx.Err()
 			}
-			// Synchronization completed successfully, continue monitoring
+			// Synchronization completed or gave up, continue monitoring:
+			// another attempt starts when the coherence calls for one
 
 		case <-ticker.C:
 			currentCoherence := s.MeasureCoherence()
-- 
2.43.0


From db53e0e00ee5d3dae15a7d8b97489e8850a40a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 10/40] fix: measure phase convergence on the circle for any
 target phase
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A target outside [0, 2π) is valid and means its wrapped phase, but was
compared as a plain number and scored as if agents were far away.
---
 emerge/swarm/phase_convergence.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/emerge/swarm/phase_convergence.go b/emerge/swarm/phase_convergence.go
index 45c540c..c183c55 100644
--- a/emerge/swarm/phase_convergence.go
+++ b/emerge/swarm/phase_convergence.go
@@ -2,6 +2,8 @@ package swarm
 
 import (
 	"math"
+
+	"github.com/carlisia/bio-adapt/emerge/core"
 )
 
 // MeasurePhaseConvergence calculates how well agents have converged to a target phase.
@@ -17,11 +19,7 @@ func (s *Swarm) MeasurePhaseConvergence(targetPhase float64) float64 {
 	for _, agent := range agents {
 		phase := agent.Phase()
 		// Calculate circular distance
-		diff := math.Abs(phase - targetPhase)
-		// Handle wraparound
-		if diff > math.Pi {
-			diff = 2*math.Pi - diff
-		}
+		diff := math.Abs(core.PhaseDifference(phase, targetPhase))
 		totalDistance += diff
 	}
 
-- 
2.43.0


From 7b7c6cd5c80e66359bb37a203e2db7b529cffd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 11/40] fix: normalize huge state phases in constant time
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Wrapping by repeated subtraction never ends for phases so large that
subtracting 2π does not change them.
---
 emerge/core/state.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/emerge/core/state.go b/emerge/core/state.go
index 731e58b..e423208 100644
--- a/emerge/core/state.go
+++ b/emerge/core/state.go
@@ -81,12 +81,7 @@ func (s *State) NormalizeAndValidate() error {
 func (s *State) normalize() {
 	// Wrap phase to [0, 2π]
 	if !math.IsNaN(s.Phase) && !math.IsInf(s.Phase, 0) {
-		for s.Phase < 0 {
-			s.Phase += 2 * math.Pi
-		}
-		for s.Phase >= 2*math.Pi {
-			s.Phase -= 2 * math.Pi
-		}
+		s.Phase = WrapPhase(s.Phase)
 	}
 
 	// Clamp coherence to [0, 1]
-- 
2.43.0


From 16eb6ba0393e7e1193b30bb0e899f6be52907df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:19 +0000
Subject: [PATCH 12/40] fix: do not take the convergence monitor's read lock
 recursively

Statistics and PredictConvergenceTime called locking accessors while holding
the read lock; a Record waiting for the write lock in between deadlocked
both.
---
 emerge/monitoring/convergence.go | 29 +++++++++++++++++++++++------
 internal/emerge/convergence.go   | 29 +++++++++++++++++++++++------
 2 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/emerge/monitoring/convergence.go b/emerge/monitoring/convergence.go
index 814b669..bb3227d 100644
--- a/emerge/monitoring/convergence.go
+++ b/emerge/monitoring/convergence.go
@@ -87,7 +87,12 @@ func (m *ConvergenceMonitor) ConvergenceTime() time.Duration {
 func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.currentCoherence()
+}
 
+// currentCoherence is CurrentCoherence for callers that hold the lock: taking
+// a read lock twice deadlocks when a writer waits in between.
+func (m *ConvergenceMonitor) currentCoherence() float64 {
 	if len(m.history) == 0 {
 		return 0
 	}
@@ -99,7 +104,11 @@ func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.convergenceRate()
+}
 
+// convergenceRate is ConvergenceRate for callers that hold the lock.
+func (m *ConvergenceMonitor) convergenceRate() float64 {
 	if len(m.history) < 2 {
 		return 0
 	}
@@ -135,7 +144,11 @@ func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.stability()
+}
 
+// stability is Stability for callers that hold the lock.
+func (m *ConvergenceMonitor) stability() float64 {
 	if len(m.history) < 2 {
 		return 1.0
 	}
@@ -174,17 +187,21 @@ func (m *ConvergenceMonitor) Stability() float64 {
 func (m *ConvergenceMonitor) PredictConvergenceTime() time.Duration {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.predictConvergenceTime()
+}
 
+// predictConvergenceTime is PredictConvergenceTime for callers that hold the lock.
+func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	if m.convergedTime != nil {
 		return 0 // Already converged
 	}
 
-	rate := m.ConvergenceRate()
+	rate := m.convergenceRate()
 	if rate <= 0 {
 		return 0 // Not converging
 	}
 
-	current := m.CurrentCoherence()
+	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
 	if remaining <= 0 {
@@ -219,7 +236,7 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 	stats := make(map[string]any)
 
 	stats["samples"] = len(m.history)
-	stats["current_coherence"] = m.CurrentCoherence()
+	stats["current_coherence"] = m.currentCoherence()
 	stats["max"] = m.maxCoherence
 	stats["min"] = m.minCoherence
 	stats["converged"] = m.convergedTime != nil
@@ -248,10 +265,10 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 		stats["std_dev"] = math.Sqrt(variance)
 	}
 
-	stats["convergence_rate"] = m.ConvergenceRate()
-	stats["stability"] = m.Stability()
+	stats["convergence_rate"] = m.convergenceRate()
+	stats["stability"] = m.stability()
 
-	prediction := m.PredictConvergenceTime()
+	prediction := m.predictConvergenceTime()
 	if prediction > 0 {
 		stats["predicted_convergence_time"] = prediction.Seconds()
 	}
diff --git a/internal/emerge/convergence.go b/internal/emerge/convergence.go
index 19d370a..7c44c4e 100644
--- a/internal/emerge/convergence.go
+++ b/internal/emerge/convergence.go
@@ -87,7 +87,12 @@ func (m *ConvergenceMonitor) ConvergenceTime() time.Duration {
 func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.currentCoherence()
+}
 
+// currentCoherence is CurrentCoherence for callers that hold the lock: taking
+// a read lock twice deadlocks when a writer waits in between.
+func (m *ConvergenceMonitor) currentCoherence() float64 {
 	if len(m.history) == 0 {
 		return 0
 	}
@@ -99,7 +104,11 @@ func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.convergenceRate()
+}
 
+// convergenceRate is ConvergenceRate for callers that hold the lock.
+func (m *ConvergenceMonitor) convergenceRate() float64 {
 	if len(m.history) < 2 {
 		return 0
 	}
@@ -135,7 +144,11 @@ func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.stability()
+}
 
+// stability is Stability for callers that hold the lock.
+func (m *ConvergenceMonitor) stability() float64 {
 	if len(m.history) < 2 {
 		return 1.0
 	}
@@ -174,17 +187,21 @@ func (m *ConvergenceMonitor) Stability() float64 {
 func (m *ConvergenceMonitor) PredictConvergenceTime() time.Duration {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.predictConvergenceTime()
+}
 
+// predictConvergenceTime is PredictConvergenceTime for callers that hold the lock.
+func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	if m.convergedTime != nil {
 		return 0 // Already converged
 	}
 
-	rate := m.ConvergenceRate()
+	rate := m.convergenceRate()
 	if rate <= 0 {
 		return 0 // Not converging
 	}
 
-	current := m.CurrentCoherence()
+	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
 	if remaining <= 0 {
@@ -219,7 +236,7 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 	stats := make(map[string]any)
 
 	stats["samples"] = len(m.history)
-	stats["current_coherence"] = m.CurrentCoherence()
+	stats["current_coherence"] = m.currentCoherence()
 	stats["max"] = m.maxCoherence
 	stats["min"] = m.minCoherence
 	stats["converged"] = m.convergedTime != nil
@@ -248,10 +265,10 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 		stats["std_dev"] = math.Sqrt(variance)
 	}
 
-	stats["convergence_rate"] = m.ConvergenceRate()
-	stats["stability"] = m.Stability()
+	stats["convergence_rate"] = m.convergenceRate()
+	stats["stability"] = m.stability()
 
-	prediction := m.PredictConvergenceTime()
+	prediction := m.predictConvergenceTime()
 	if prediction > 0 {
 		stats["predicted_convergence_time"] = prediction.Seconds()
 	}
-- 
2.43.0


From 3835c3e616232f799dd67f970cf56bb96cf9e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:20 +0000
Subject: [PATCH 13/40] fix: never block while draining the batch queue on
 reset

Reset received from the queue after checking its length; when the processor
took the last batch in between, Reset blocked holding the manager's lock and
the whole simulation stopped.
---
 simulations/emerge/simulation/batch_manager.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simulations/emerge/simulation/batch_manager.go b/simulations/emerge/simulation/batch_manager.go
index 6656e82..8dd6f70 100644
--- a/simulations/emerge/simulation/batch_manager.go
+++ b/simulations/emerge/simulation/batch_manager.go
@@ -181,8 +181,12 @@ func (bm *BatchManager) Reset() {
 	bm.lastBatchSize = 0
 
 	// Clear queue
-	for len(bm.queue) > 0 {
-		<-bm.queue
+	for drained := false; !drained; {
+		select {
+		case <-bm.queue:
+		default:
+			drained = true
+		}
 	}
 
 	bm.currentMu.Lock()
-- 
2.43.0


From 16d5440fd2910866c46362eeaf973a4e7f5ff3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:21 +0000
Subject: [PATCH 14/40] fix: keep one pausable swarm run per simulation

Resume on a simulation that is not paused started a second swarm run and
forgot how to cancel the first, so a later Pause no longer froze the agents.
The runs also read their context without the lock, after it may have been
replaced.
---
 simulations/emerge/simulation/simulation.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index e53555c..d97ec26 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -62,11 +62,12 @@ func (s *Simulation) Start(ctx context.Context) error {
 	s.parentCtx = ctx
 	// Create swarm context that we can cancel on pause
 	s.swarmCtx, s.swarmCancel = context.WithCancel(ctx)
+	swarmCtx := s.swarmCtx
 	s.mu.Unlock()
 
 	// Start swarm synchronization
 	go func() {
-		if err := s.emergeClient.Start(s.swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
+		if err := s.emergeClient.Start(swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
 			// Log error but don't crash
 			_ = err
 		}
@@ -292,12 +293,16 @@ func (s *Simulation) Pause() {
 func (s *Simulation) Resume() {
 	s.mu.Lock()
 	defer s.mu.Unlock()
+	if !s.paused {
+		return // Already running: a second swarm run could not be paused
+	}
 	s.paused = false
 	// Restart swarm with a new context
 	if s.parentCtx != nil {
 		s.swarmCtx, s.swarmCancel = context.WithCancel(s.parentCtx)
+		swarmCtx := s.swarmCtx
 		go func() {
-			if err := s.emergeClient.Start(s.swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
+			if err := s.emergeClient.Start(swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
 				// Log error but don't crash
 				_ = err
 			}
-- 
2.43.0


From dccc04db2acced3188d826c45832f01434767a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:55 +0000
Subject: [PATCH 15/40] fix: keep throughput tuning within the valid adjustment
 range

Tuning the latency goal for throughput scaled its base adjustment above 1,
which the configuration's own validation rejects, so no such swarm could be
created.
---
 emerge/swarm/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/swarm/config.go b/emerge/swarm/config.go
index e559add..e145db2 100644
--- a/emerge/swarm/config.go
+++ b/emerge/swarm/config.go
@@ -416,7 +416,7 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 
 	case trait.Throughput:
 		// Optimize for maximum processing
-		c.Convergence.BaseAdjustmentScale *= 1.2
+		c.Convergence.BaseAdjustmentScale = minValue(1.0, c.Convergence.BaseAdjustmentScale*1.2)
 		c.Strategy.UpdateInterval = time.Duration(float64(c.Strategy.UpdateInterval) * 0.7)
 		c.Strategy.RandomExploration *= 1.5
 
-- 
2.43.0


From 54ebd004caa3a9c9fc33631042f94abb234853a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:57 +0000
Subject: [PATCH 16/40] fix: hand out usable agents from the agent pool

Get panicked because new pooled agents had no state, reused agents kept the
neighbors of their previous life, and every reuse was counted as new.
---
 emerge/agent/pool.go | 46 ++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/emerge/agent/pool.go b/emerge/agent/pool.go
index 0aef185..c187e0d 100644
--- a/emerge/agent/pool.go
+++ b/emerge/agent/pool.go
@@ -11,16 +11,16 @@ import (
 )
 
 // Pool manages a pool of reusable Agent objects to reduce allocations.
-var Pool = &PoolManager{
-	pool: sync.Pool{
-		New: func() interface{} {
-			// Create a new agent with minimal initialization
-			a := &Agent{}
-			// neighbors is already a sync.Map field, not a pointer
-			return a
-		},
-	},
-	stats: &PoolStats{},
+var Pool = newPoolManager()
+
+// newPoolManager creates a pool that hands out fully initialized agents.
+func newPoolManager() *PoolManager {
+	p := &PoolManager{stats: &PoolStats{}}
+	p.pool.New = func() interface{} {
+		p.stats.news.Add(1)
+		return New("")
+	}
+	return p
 }
 
 // PoolManager provides pooled Agent objects to reduce GC pressure.
@@ -48,11 +48,6 @@ func (p *PoolManager) Get(id string) *Agent {
 		panic("pool returned non-Agent type")
 	}
 
-	// Check if this is a newly created agent
-	if a.ID == "" {
-		p.stats.news.Add(1)
-	}
-
 	// Initialize/reset the agent
 	a.Reset(id)
 	return a
@@ -96,11 +91,8 @@ func (a *Agent) Reset(id string) {
 		Stubbornness: random.Float64() * 0.3,
 	})
 
-	// Clear neighbors but keep the map allocated
-	a.neighbors.Range(func(key, _ interface{}) bool {
-		a.neighbors.Delete(key)
-		return true
-	})
+	// Clear neighbors but keep the storage allocated
+	a.clearNeighbors()
 
 	// Reset context
 	a.context.Store(core.Context{})
@@ -116,11 +108,19 @@ func (a *Agent) Clear() {
 	a.ID = ""
 
 	// Clear neighbors
+	a.clearNeighbors()
+
+	// Don't nil out structures, just clear them
+	a.context.Store(core.Context{})
+}
+
+// clearNeighbors removes all neighbors from both storages.
+func (a *Agent) clearNeighbors() {
+	if a.optimizedNeighbors != nil {
+		a.optimizedNeighbors.Clear()
+	}
 	a.neighbors.Range(func(key, _ interface{}) bool {
 		a.neighbors.Delete(key)
 		return true
 	})
-
-	// Don't nil out structures, just clear them
-	a.context.Store(core.Context{})
 }
-- 
2.43.0


From 365ef32ec6365284972f9b68335428312216e957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:19 +0000
Subject: [PATCH 17/40] fix: keep the minimum of neighbors with optimized
 connections

The random attempts of the optimized connection establishment could end
before an agent had the configured minimum of neighbors.
---
 emerge/swarm/swarm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 1d83775..1835aa5 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -388,6 +388,9 @@ func (s *Swarm) establishMinimalConnections(agents []*agent.Agent) {
 			}
 			attempts++
 		}
+
+		// The attempts may have missed: the configured minimum holds all the same
+		s.ensureMinimumConnectivity(a, agents, a.NeighborCount())
 	}
 }
 
-- 
2.43.0


From 772568686daeed779bbc682b586e93339cff33a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:07 +0000
Subject: [PATCH 18/40] fix: reject NaN values in swarm configuration
 validation

---
 internal/config/swarm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/config/swarm.go b/internal/config/swarm.go
index e347287..2932120 100644
--- a/internal/config/swarm.go
+++ b/internal/config/swarm.go
@@ -296,7 +296,7 @@ func (c *Swarm) validateProbabilities(errors *ValidationErrors) {
 	}
 
 	for field, value := range probabilities {
-		if value < 0 || value > 1 {
+		if math.IsNaN(value) || value < 0 || value > 1 {
 			*errors = append(*errors, ValidationError{
 				Field: field, Value: value, Message: "must be between 0 and 1",
 			})
@@ -356,7 +356,7 @@ func (c *Swarm) validatePositiveParameters(errors *ValidationErrors) {
 	for field, value := range positiveParams {
 		switch v := value.(type) {
 		case float64:
-			if v <= 0 {
+			if math.IsNaN(v) || v <= 0 {
 				*errors = append(*errors, ValidationError{
 					Field: field, Value: v, Message: "must be positive",
 				})
-- 
2.43.0


From 2f8ad550e9679ef7632b83273ae6ca8044593fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:38 +0000
Subject: [PATCH 19/40] fix: do not start the swarm of a simulation that is
 paused already

---
 simulations/emerge/simulation/simulation.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index d97ec26..3dc2f0d 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -63,15 +63,18 @@ func (s *Simulation) Start(ctx context.Context) error {
 	// Create swarm context that we can cancel on pause
 	s.swarmCtx, s.swarmCancel = context.WithCancel(ctx)
 	swarmCtx := s.swarmCtx
+	paused := s.paused
 	s.mu.Unlock()
 
-	// Start swarm synchronization
-	go func() {
-		if err := s.emergeClient.Start(swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
-			// Log error but don't crash
-			_ = err
-		}
-	}()
+	// Start swarm synchronization, unless paused already: Resume will do it then
+	if !paused {
+		go func() {
+			if err := s.emergeClient.Start(swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
+				// Log error but don't crash
+				_ = err
+			}
+		}()
+	}
 
 	// Start agents
 	for _, workload := range s.workloads {
-- 
2.43.0


From 40df7446a43589c69f819e55b49dd753556051f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:40 +0000
Subject: [PATCH 20/40] fix: generate simulation tasks under the workload's
 lock

---
 simulations/emerge/simulation/agent.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simulations/emerge/simulation/agent.go b/simulations/emerge/simulation/agent.go
index efe48a9..5068143 100644
--- a/simulations/emerge/simulation/agent.go
+++ b/simulations/emerge/simulation/agent.go
@@ -308,9 +308,12 @@ func (w *Workload) generateTasks(ctx context.Context) {
 				}
 			}
 
-			// Pattern-specific task generation logic
+			// Pattern-specific task generation logic; a reset or a snapshot
+			// must not see it half done
+			w.mu.Lock()
 			shouldGenerate := w.shouldGenerateTask()
 			if !shouldGenerate {
+				w.mu.Unlock()
 				continue
 			}
 
@@ -318,11 +321,10 @@ func (w *Workload) generateTasks(ctx context.Context) {
 			numTasks := w.getTaskBatchSize()
 			for range numTasks {
 				task := w.createTask()
-				w.mu.Lock()
 				w.pendingTasks = append(w.pendingTasks, task)
 				w.tasksGenerated++
-				w.mu.Unlock()
 			}
+			w.mu.Unlock()
 
 			// Update interval for mixed pattern
 			if w.pattern == pattern.Mixed {
-- 
2.43.0


From 411f794508c0e35f9ef6408bd2f9bfa1c28e1bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:27 +0000
Subject: [PATCH 21/40] fix: let only the latest disruption or reset clear its
 flag

---
 simulations/emerge/simulation/simulation.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index 3dc2f0d..ca2b74f 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -204,12 +204,15 @@ func (s *Simulation) Reset() {
 	// Mark as reset for visual feedback
 	s.reset = true
 	s.resetTime = time.Now()
+	resetTime := s.resetTime
 
-	// Clear reset flag after delay
+	// Clear reset flag after delay, unless reset again in the meantime
 	go func() {
 		time.Sleep(2 * time.Second)
 		s.mu.Lock()
-		s.reset = false
+		if s.resetTime.Equal(resetTime) {
+			s.reset = false
+		}
 		s.mu.Unlock()
 	}()
 }
@@ -220,6 +223,7 @@ func (s *Simulation) Disrupt() {
 	// Mark as disrupted for visual feedback
 	s.disrupted = true
 	s.disruptTime = time.Now()
+	disruptTime := s.disruptTime
 	s.mu.Unlock()
 
 	// Disrupt synchronization by changing some agents' phases
@@ -248,8 +252,8 @@ func (s *Simulation) Disrupt() {
 			select {
 			case <-ticker.C:
 				s.mu.RLock()
-				if !s.disrupted {
-					// Already cleared (maybe by reset or another disruption)
+				if !s.disrupted || !s.disruptTime.Equal(disruptTime) {
+					// Already cleared, or a later disruption watches the flag
 					s.mu.RUnlock()
 					return
 				}
@@ -260,14 +264,18 @@ func (s *Simulation) Disrupt() {
 				if coherence >= target {
 					// Recovered above target
 					s.mu.Lock()
-					s.disrupted = false
+					if s.disruptTime.Equal(disruptTime) {
+						s.disrupted = false
+					}
 					s.mu.Unlock()
 					return
 				}
 			case <-timeout:
 				// Safety timeout - clear disruption flag after 30 seconds
 				s.mu.Lock()
-				s.disrupted = false
+				if s.disruptTime.Equal(disruptTime) {
+					s.disrupted = false
+				}
 				s.mu.Unlock()
 				return
 			}
-- 
2.43.0


From 7e5c2b60e5c40589d8dba9f9604e492c2cb2011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:29 +0000
Subject: [PATCH 22/40] fix: let a swarm run end before the next one starts in
 a simulation

---
 simulations/emerge/simulation/simulation.go | 42 ++++++++++++---------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index ca2b74f..11fc89d 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -52,6 +52,7 @@ type Simulation struct {
 	parentCtx       context.Context // Parent context from Start
 	swarmCtx        context.Context
 	swarmCancel     context.CancelFunc
+	swarmDone       chan struct{} // Closed when the latest swarm run has ended
 }
 
 // Start begins the simulation
@@ -62,19 +63,11 @@ func (s *Simulation) Start(ctx context.Context) error {
 	s.parentCtx = ctx
 	// Create swarm context that we can cancel on pause
 	s.swarmCtx, s.swarmCancel = context.WithCancel(ctx)
-	swarmCtx := s.swarmCtx
-	paused := s.paused
-	s.mu.Unlock()
-
 	// Start swarm synchronization, unless paused already: Resume will do it then
-	if !paused {
-		go func() {
-			if err := s.emergeClient.Start(swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
-				// Log error but don't crash
-				_ = err
-			}
-		}()
+	if !s.paused {
+		s.runSwarm(s.swarmCtx)
 	}
+	s.mu.Unlock()
 
 	// Start agents
 	for _, workload := range s.workloads {
@@ -94,6 +87,25 @@ func (s *Simulation) Start(ctx context.Context) error {
 	return nil
 }
 
+// runSwarm synchronizes the swarm until the context ends, once the previous
+// run has ended: a run that was just canceled may still be finishing a step.
+// Callers hold s.mu.
+func (s *Simulation) runSwarm(ctx context.Context) {
+	previous := s.swarmDone
+	done := make(chan struct{})
+	s.swarmDone = done
+	go func() {
+		defer close(done)
+		if previous != nil {
+			<-previous
+		}
+		if err := s.emergeClient.Start(ctx); err != nil && !errors.Is(err, context.Canceled) {
+			// Log error but don't crash
+			_ = err
+		}
+	}()
+}
+
 // Reset resets the simulation
 func (s *Simulation) Reset() {
 	s.mu.Lock()
@@ -311,13 +323,7 @@ func (s *Simulation) Resume() {
 	// Restart swarm with a new context
 	if s.parentCtx != nil {
 		s.swarmCtx, s.swarmCancel = context.WithCancel(s.parentCtx)
-		swarmCtx := s.swarmCtx
-		go func() {
-			if err := s.emergeClient.Start(swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
-				// Log error but don't crash
-				_ = err
-			}
-		}()
+		s.runSwarm(s.swarmCtx)
 	}
 }
 
-- 
2.43.0


From 9aa8cf30d0c18504e8518c7e5860edb85970533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:06 +0000
Subject: [PATCH 23/40] fix: compare patterns of zero amplitude or period
 without NaN

Two constant patterns (amplitude 0) had a similarity of 0/0, so a constant
pattern did not even match itself; so had two patterns without a period.
---
 emerge/monitoring/patterns.go | 8 +++++++-
 internal/emerge/pattern.go    | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/emerge/monitoring/patterns.go b/emerge/monitoring/patterns.go
index d0b8c15..6b94793 100644
--- a/emerge/monitoring/patterns.go
+++ b/emerge/monitoring/patterns.go
@@ -97,11 +97,17 @@ func (p *TargetPattern) Similarity(other *TargetPattern) float64 {
 
 	// Compare amplitudes
 	ampDiff := math.Abs(p.Amplitude - other.Amplitude)
-	ampSim := 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	ampSim := 1.0 // two constant patterns have equal amplitudes
+	if maxAmp := math.Max(p.Amplitude, other.Amplitude); maxAmp != 0 {
+		ampSim = 1.0 - math.Min(ampDiff/maxAmp, 1.0)
+	}
 
 	// Compare periods
 	periodDiff := math.Abs(float64(p.Period - other.Period))
 	maxPeriod := max(p.Period, other.Period)
+	if maxPeriod == 0 {
+		return 0 // patterns without a period cannot be compared
+	}
 	periodSim := 1.0 - math.Min(periodDiff/float64(maxPeriod), 1.0)
 
 	// Check for massively different scales before normalization
diff --git a/internal/emerge/pattern.go b/internal/emerge/pattern.go
index 2ccc5ae..ac6ba10 100644
--- a/internal/emerge/pattern.go
+++ b/internal/emerge/pattern.go
@@ -98,11 +98,17 @@ func (p *TargetPattern) Similarity(other *TargetPattern) float64 {
 
 	// Compare amplitudes
 	ampDiff := math.Abs(p.Amplitude - other.Amplitude)
-	ampSim := 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	ampSim := 1.0 // two constant patterns have equal amplitudes
+	if maxAmp := math.Max(p.Amplitude, other.Amplitude); maxAmp != 0 {
+		ampSim = 1.0 - math.Min(ampDiff/maxAmp, 1.0)
+	}
 
 	// Compare periods
 	periodDiff := math.Abs(float64(p.Period - other.Period))
 	maxPeriod := max(p.Period, other.Period)
+	if maxPeriod == 0 {
+		return 0 // patterns without a period cannot be compared
+	}
 	periodSim := 1.0 - math.Min(periodDiff/float64(maxPeriod), 1.0)
 
 	// Check for massively different scales before normalization
-- 
2.43.0


From 4255a904cc7343bc212d7c6ebb132fd175356f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:08 +0000
Subject: [PATCH 24/40] fix: keep the severity of a frequency gap within 0-1

Frequencies more than twice the target had a severity above 1, with which the
blend toward a template overshot it, down to negative frequencies.
---
 emerge/core/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/core/pattern.go b/emerge/core/pattern.go
index 61c9038..1983562 100644
--- a/emerge/core/pattern.go
+++ b/emerge/core/pattern.go
@@ -70,7 +70,7 @@ func IdentifyGaps(current, target *TargetPattern) []PatternGap {
 				Type:     "frequency",
 				Current:  float64(current.Frequency),
 				Target:   float64(target.Frequency),
-				Severity: math.Abs(freqRatio - 1.0),
+				Severity: math.Min(math.Abs(freqRatio-1.0), 1.0),
 			})
 		}
 	}
-- 
2.43.0


From b04adfef0a20f6372ce323354fafe2827f847709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:21 +0000
Subject: [PATCH 25/40] fix: detect gaps in patterns with fewer frequencies
 than phases

Detect indexed the frequencies by the phases' positions and panicked.
---
 emerge/monitoring/patterns.go | 4 +++-
 internal/emerge/pattern.go    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/emerge/monitoring/patterns.go b/emerge/monitoring/patterns.go
index 6b94793..edfc6c2 100644
--- a/emerge/monitoring/patterns.go
+++ b/emerge/monitoring/patterns.go
@@ -53,7 +53,9 @@ func (p *TargetPattern) Detect() []PatternGap {
 			gap := PatternGap{
 				StartIdx: i - 1,
 				EndIdx:   i,
-				Duration: p.Frequencies[i-1],
+			}
+			if i-1 < len(p.Frequencies) { // fewer frequencies than phases: unknown
+				gap.Duration = p.Frequencies[i-1]
 			}
 			gaps = append(gaps, gap)
 		}
diff --git a/internal/emerge/pattern.go b/internal/emerge/pattern.go
index ac6ba10..99b41e8 100644
--- a/internal/emerge/pattern.go
+++ b/internal/emerge/pattern.go
@@ -54,7 +54,9 @@ func (p *TargetPattern) Detect() []PatternGap {
 			gap := PatternGap{
 				StartIdx: i - 1,
 				EndIdx:   i,
-				Duration: p.Frequencies[i-1],
+			}
+			if i-1 < len(p.Frequencies) { // fewer frequencies than phases: unknown
+				gap.Duration = p.Frequencies[i-1]
 			}
 			gaps = append(gaps, gap)
 		}
-- 
2.43.0


From f74cd70ddfdac9dff43d0a634425815714572d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:44 +0000
Subject: [PATCH 26/40] fix: name the key that selects the rhythm goal

---
 emerge/goal/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/goal/config.go b/emerge/goal/config.go
index a5a9789..2937ae6 100644
--- a/emerge/goal/config.go
+++ b/emerge/goal/config.go
@@ -79,7 +79,7 @@ func (g Type) ShortKey() string {
 	case SaveEnergy:
 		return "E" // Energy
 	case MaintainRhythm:
-		return "R" // Rhythm
+		return "M" // rhythM (avoid conflict with Reset)
 	case RecoverFromFailure:
 		return "F" // Failure
 	case AdaptToTraffic:
-- 
2.43.0


From 9e9d356c5bec127a24d06b92ae2cd6567a89e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:44 +0000
Subject: [PATCH 27/40] fix: keep the coherence modifier within its documented
 range

---
 simulations/emerge/simulation/pattern/pattern.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simulations/emerge/simulation/pattern/pattern.go b/simulations/emerge/simulation/pattern/pattern.go
index bd69cdc..325b5f2 100644
--- a/simulations/emerge/simulation/pattern/pattern.go
+++ b/simulations/emerge/simulation/pattern/pattern.go
@@ -217,9 +217,12 @@ func GetCoherenceModifier(goalType int, agentCount int, p Type) float64 {
 		modifier *= 0.8 // Not enough activity for small swarms
 	}
 
-	return modifier
+	return max(modifier, minModifier)
 }
 
+// minModifier is the modifier of the poorest combinations.
+const minModifier = 0.5
+
 // Qualifier constants for pattern evaluation
 const (
 	QualifierOptimal   = "optimal"
-- 
2.43.0


From 3e85d72092c0a49c7e1763298142957f092a541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:45 +0000
Subject: [PATCH 28/40] fix: let signals end the demo after a switch

---
 simulations/emerge/main.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/simulations/emerge/main.go b/simulations/emerge/main.go
index b02ca60..a954e96 100644
--- a/simulations/emerge/main.go
+++ b/simulations/emerge/main.go
@@ -55,11 +55,12 @@ func main() {
 	config.UpdateInterval = *updateInterval
 	config.Timeout = *timeout
 
-	// Create context with cancellation
-	ctx, cancel := context.WithCancel(context.Background())
+	// Create context with cancellation, for all runs and for the first one
+	root, shutdown := context.WithCancel(context.Background())
+	ctx, cancel := context.WithCancel(root)
 
-	// Handle graceful shutdown
-	go handleSignals(cancel)
+	// Handle graceful shutdown, also after a restart
+	go handleSignals(shutdown)
 
 	// Run simulation loop (allows scale switching)
 	for {
@@ -164,7 +165,7 @@ func main() {
 				fmt.Printf("\nSwitching to %s pattern...\n\n", newPattern.String())
 			}
 			// Create new context for restart
-			ctx, cancel = context.WithCancel(context.Background())
+			ctx, cancel = context.WithCancel(root)
 			continue
 		}
 		break
-- 
2.43.0


From c711f78ae8873499e6503dff5376c6cf0a5f0c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 29/40] fix: run the pattern that is auto-selected for the goal

---
 simulations/emerge/simulation/builder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simulations/emerge/simulation/builder.go b/simulations/emerge/simulation/builder.go
index 3976e38..09bd6ad 100644
--- a/simulations/emerge/simulation/builder.go
+++ b/simulations/emerge/simulation/builder.go
@@ -22,6 +22,11 @@ type BuildConfig struct {
 // New creates a simulation from a configuration.
 // This is the main entry point for creating simulations.
 func New(config BuildConfig) (*Simulation, error) {
+	// An unset pattern is selected based on the goal
+	if config.Pattern == pattern.Unset {
+		config.Pattern = pattern.BestPatternForGoal(int(config.Goal))
+	}
+
 	// Create emerge client based on configuration
 	emergeClient, err := createEmergeClient(config)
 	if err != nil {
-- 
2.43.0


From dc98572f2a0b932083341ba1f901992b93231eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:36 +0000
Subject: [PATCH 30/40] fix: show the recent activity of mixed workloads

---
 simulations/emerge/simulation/agent.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulations/emerge/simulation/agent.go b/simulations/emerge/simulation/agent.go
index 5068143..e2933ee 100644
--- a/simulations/emerge/simulation/agent.go
+++ b/simulations/emerge/simulation/agent.go
@@ -324,6 +324,7 @@ func (w *Workload) generateTasks(ctx context.Context) {
 				w.pendingTasks = append(w.pendingTasks, task)
 				w.tasksGenerated++
 			}
+			w.lastRequestTime = time.Now()
 			w.mu.Unlock()
 
 			// Update interval for mixed pattern
-- 
2.43.0


From ebe58d745bd02f8d0f3457fd7dca577649da954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:26 +0000
Subject: [PATCH 31/40] fix: track the coherence of a simulation in its
 statistics

---
 simulations/emerge/simulation/simulation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index 11fc89d..2bbd0d0 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -356,6 +356,7 @@ func (s *Simulation) Snapshot() Snapshot {
 		coherence = s.pausedCoherence
 	} else {
 		coherence = s.emergeClient.Swarm().MeasureCoherence()
+		s.metrics.UpdateCoherence(coherence)
 	}
 
 	// Get current batch size from queue depth
@@ -389,6 +390,8 @@ func (s *Simulation) Snapshot() Snapshot {
 
 // Statistics returns final statistics
 func (s *Simulation) Statistics() Statistics {
+	coherence := s.emergeClient.Swarm().MeasureCoherence()
+	s.metrics.UpdateCoherence(coherence)
 	metrics := s.metrics.Final()
 
 	return Statistics{
@@ -399,7 +402,7 @@ func (s *Simulation) Statistics() Statistics {
 		CostWithSync:     metrics.CostWithSync,
 		TotalSavings:     metrics.TotalSavings,
 		SavingsPercent:   metrics.SavingsPercent,
-		FinalCoherence:   s.emergeClient.Swarm().MeasureCoherence(),
+		FinalCoherence:   coherence,
 		PeakCoherence:    metrics.PeakCoherence,
 		TimeToConverge:   metrics.TimeToConverge,
 	}
-- 
2.43.0


From 9672b9f73cd83257f9ac29ccdfebc4f59bd3508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:07 +0000
Subject: [PATCH 32/40] fix: build agents of large swarms from their
 configuration like all others

---
 emerge/agent/agent.go | 58 +++----------------------------------------
 1 file changed, 4 insertions(+), 54 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index e904302..34df155 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -98,66 +98,16 @@ func New(id string, opts ...Option) *Agent {
 // NewOptimizedFromConfig creates an optimized agent from configuration.
 func NewOptimizedFromConfig(id string, cfg config.Agent) (*Agent, error) {
 	// Determine max neighbors based on config
-	maxNeighbors := cfg.AssumedMaxNeighbors
-	if maxNeighbors == 0 {
+	if cfg.AssumedMaxNeighbors == 0 {
 		// Default for small-world networks
 		if cfg.SwarmSize > 100 {
-			maxNeighbors = 20 // Small-world topology
+			cfg.AssumedMaxNeighbors = 20 // Small-world topology
 		} else {
-			maxNeighbors = cfg.SwarmSize - 1 // Fully connected for small swarms
+			cfg.AssumedMaxNeighbors = cfg.SwarmSize - 1 // Fully connected for small swarms
 		}
 	}
 
-	// Create options from config
-	opts := []Option{
-		WithPhase(cfg.Phase),
-		WithFrequency(cfg.Frequency),
-		WithEnergy(cfg.InitialEnergy),
-		WithInfluence(cfg.Influence),
-		WithStubbornness(cfg.Stubbornness),
-		WithSwarmInfo(cfg.SwarmSize, maxNeighbors),
-		WithLocalGoal(cfg.LocalGoal),
-	}
-
-	// Handle randomization
-	if cfg.RandomizePhase {
-		opts = append(opts, WithRandomPhase())
-	}
-	if cfg.RandomizeLocalGoal {
-		opts = append(opts, WithRandomLocalGoal())
-	}
-	if cfg.RandomizeFrequency {
-		opts = append(opts, WithRandomFrequency())
-	}
-
-	// Add decision maker based on type
-	if cfg.DecisionMakerType == "simple" {
-		opts = append(opts, WithDecisionMaker(&decision.SimpleDecisionMaker{}))
-	}
-
-	// Add goal manager based on type
-	if cfg.GoalManagerType == "weighted" {
-		opts = append(opts, WithGoalManager(&goal.WeightedManager{}))
-	}
-
-	// Add resource manager based on type
-	if cfg.ResourceManagerType == "token" && cfg.MaxTokens > 0 {
-		opts = append(opts, WithResourceManager(resource.NewTokenManager(cfg.MaxTokens)))
-	}
-
-	// Add strategy based on type
-	switch cfg.StrategyType {
-	case strategyPhaseNudge:
-		opts = append(opts, WithStrategy(&strategy.PhaseNudge{Rate: cfg.StrategyRate}))
-	case strategyFrequencyLock:
-		opts = append(opts, WithStrategy(&strategy.FrequencyLock{SyncRate: 0.5}))
-	case "energy_aware":
-		opts = append(opts, WithStrategy(&strategy.EnergyAware{Threshold: 10}))
-	default:
-		opts = append(opts, WithStrategy(&strategy.PhaseNudge{Rate: cfg.StrategyRate}))
-	}
-
-	return New(id, opts...), nil
+	return NewFromConfig(id, cfg)
 }
 
 // Phase returns the agent's current phase.
-- 
2.43.0


From 937e0a5d08ff805490760488234bac476abbd9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:31 +0000
Subject: [PATCH 33/40] fix: keep the perceived density finite without a known
 swarm size

---
 emerge/agent/agent.go   | 6 +++++-
 emerge/agent/builder.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 34df155..cb34c8a 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -314,9 +314,13 @@ func (a *Agent) UpdateContext() {
 
 	// Calculate density
 	maxNeighbors := a.assumedMaxNeighbors
-	if maxNeighbors == 0 {
+	if maxNeighbors <= 0 {
 		maxNeighbors = a.swarmSize - 1
 	}
+	if maxNeighbors <= 0 {
+		// The swarm is not known: these are all the neighbors there can be
+		maxNeighbors = neighborCount
+	}
 	density := float64(neighborCount) / float64(maxNeighbors)
 
 	// Store context
diff --git a/emerge/agent/builder.go b/emerge/agent/builder.go
index dfad1e4..8025909 100644
--- a/emerge/agent/builder.go
+++ b/emerge/agent/builder.go
@@ -190,7 +190,7 @@ func createParameterOptions(cfg config.Agent) []Option {
 	opts = append(opts, WithStubbornness(stubbornness))
 
 	// Handle swarm info
-	if cfg.SwarmSize > 0 {
+	if cfg.SwarmSize > 0 || cfg.AssumedMaxNeighbors > 0 {
 		opts = append(opts, WithSwarmInfo(cfg.SwarmSize, cfg.AssumedMaxNeighbors))
 	}
 
-- 
2.43.0


From 76d7b3b55dee36d2a85e98f8a121c52ce274418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:53 +0000
Subject: [PATCH 34/40] fix: keep configured strategy rates within their range

---
 emerge/agent/builder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emerge/agent/builder.go b/emerge/agent/builder.go
index 8025909..8c3d42e 100644
--- a/emerge/agent/builder.go
+++ b/emerge/agent/builder.go
@@ -102,19 +102,19 @@ func createStrategy(cfg config.Agent) (core.SyncStrategy, error) {
 		if rate == 0 {
 			rate = 0.7 // Increased default for better convergence
 		}
-		return &strategy.PhaseNudge{Rate: rate}, nil
+		return strategy.NewPhaseNudge(rate), nil
 	case "frequency_lock":
 		rate := cfg.StrategyRate
 		if rate == 0 {
 			rate = 0.5
 		}
-		return &strategy.FrequencyLock{SyncRate: rate}, nil
+		return strategy.NewFrequencyLock(rate), nil
 	case "energy_aware":
 		threshold := cfg.StrategyRate
 		if threshold == 0 {
 			threshold = 20.0
 		}
-		return &strategy.EnergyAware{Threshold: threshold}, nil
+		return strategy.NewEnergyAware(threshold), nil
 	case "adaptive":
 		baseStrategies := []core.SyncStrategy{
 			&strategy.PhaseNudge{Rate: 0.3},
-- 
2.43.0


From ed1b806deb2b4b6a2c66e06aca81bb21c493d425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:09 +0000
Subject: [PATCH 35/40] fix: give a basin without extent its full attraction at
 the target

---
 internal/emerge/basin.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/emerge/basin.go b/internal/emerge/basin.go
index e287cc3..dc1be78 100644
--- a/internal/emerge/basin.go
+++ b/internal/emerge/basin.go
@@ -55,6 +55,11 @@ func (b *AttractorBasin) AttractionForce(state core.State) float64 {
 		return 0
 	}
 
+	// A basin without extent holds its target only
+	if b.radius == 0 {
+		return b.strength
+	}
+
 	// Stronger force when closer to center
 	normalizedDist := distance / b.radius
 
-- 
2.43.0


From 357dfc489546c8819189c5fad907efb0a327c964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:49 +0000
Subject: [PATCH 36/40] fix: pull agents toward the goal phase the shorter way

An agent a little past the goal phase was seen almost a full turn before it
and pushed far ahead, away from the goal.
---
 emerge/swarm/goal_directed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 625afc8..6952bf9 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -296,7 +296,7 @@ func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion
 	for _, a := range agents {
 		currentPhase := a.Phase()
 		targetPhase := gds.targetPattern.Phase
-		phaseDiff := core.WrapPhase(targetPhase - currentPhase)
+		phaseDiff := core.PhaseDifference(targetPhase, currentPhase)
 
 		// Special handling for high coherence but poor phase convergence
 		if coherence >= gds.config.Thresholds.HighCoherence && phaseVariance > gds.config.Thresholds.PhaseVariance {
-- 
2.43.0


From 7dad27610e64a8088a481ba61774d72c9fbd1450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:50 +0000
Subject: [PATCH 37/40] fix: adjust every third agent of a nearly synchronized
 swarm by the same share

The scale was lowered once more for each of them, so that all but the first
few no longer moved at all.
---
 emerge/swarm/goal_directed.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 6952bf9..bc45c61 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -297,6 +297,7 @@ func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion
 		currentPhase := a.Phase()
 		targetPhase := gds.targetPattern.Phase
 		phaseDiff := core.PhaseDifference(targetPhase, currentPhase)
+		scale := adjustmentScale
 
 		// Special handling for high coherence but poor phase convergence
 		if coherence >= gds.config.Thresholds.HighCoherence && phaseVariance > gds.config.Thresholds.PhaseVariance {
@@ -341,7 +342,7 @@ func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion
 					continue
 				}
 				// For the remaining 1/3, use very small adjustments
-				adjustmentScale *= 0.2
+				scale *= 0.2
 			}
 
 			if math.Abs(phaseDiff) > threshold {
@@ -350,7 +351,7 @@ func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion
 				// More randomness for small swarms
 				randomRange := 0.3 + (1.0-sizeNormalized)*0.2                      // 0.3-0.5 range based on size
 				randomFactor := 1.0 - randomRange/2 + random.Float64()*randomRange // Center around 1.0
-				effectiveAdjustment := (phaseAdjustment*0.3 + phaseDiff*adjustmentScale) * randomFactor
+				effectiveAdjustment := (phaseAdjustment*0.3 + phaseDiff*scale) * randomFactor
 
 				// Apply adjustment with variation
 				newPhase := core.WrapPhase(currentPhase + effectiveAdjustment*(1+variation))
-- 
2.43.0


From 4911c085422f674615217085aa80e2c26b46d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:17 +0000
Subject: [PATCH 38/40] fix: displays judge phases by their distance from the
 beat on the circle
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Phases lie in [0, 2π), but the panels compared them as if they lay in
[-π, π]: workloads just before the beat were shown as far from it, two of
the four servers never got any load, no job was ever early, and an evenly
spread swarm was called imbalanced.
---
 simulations/display/display.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/simulations/display/display.go b/simulations/display/display.go
index 8dad981..1cd57eb 100644
--- a/simulations/display/display.go
+++ b/simulations/display/display.go
@@ -1091,7 +1091,7 @@ func (d *TerminalDisplay) updateAgentsDisplay(agents []AgentSnapshot) {
 		case goal.ReachConsensus:
 			// Wants CLUSTERS (voting blocs)
 			// Green when in a cluster with others
-			clustered := math.Abs(a.Phase) < 0.5 || math.Abs(a.Phase-2) < 0.5 || math.Abs(a.Phase-4) < 0.5
+			clustered := math.Abs(phaseOffset(a.Phase)) < 0.5 || math.Abs(a.Phase-2) < 0.5 || math.Abs(a.Phase-4) < 0.5
 			switch {
 			case clustered:
 				syncIndicator = syncGreen // GOOD - in a voting bloc
@@ -1108,7 +1108,7 @@ func (d *TerminalDisplay) updateAgentsDisplay(agents []AgentSnapshot) {
 			case math.Abs(a.Phase) < 0.5 || math.Abs(a.Phase-2*math.Pi) < 0.5:
 				syncIndicator = syncGreen // GOOD - synchronized
 				phaseColor = cell.ColorGreen
-			case math.Abs(a.Phase) < 1.0:
+			case math.Abs(phaseOffset(a.Phase)) < 1.0:
 				syncIndicator = syncYellow // Almost there
 				phaseColor = cell.ColorYellow
 			default:
@@ -1806,6 +1806,12 @@ func (d *TerminalDisplay) updateCoherenceChart(coherence, targetCoherence float6
 	}
 }
 
+// phaseOffset returns how far a phase is from the shared beat (phase 0), in [-π, π]:
+// negative just before the beat, positive just after it. Phases lie in [0, 2π).
+func phaseOffset(phase float64) float64 {
+	return math.Remainder(phase, 2*math.Pi)
+}
+
 // calculateMeanField computes the mean field parameters for coherence
 func calculateMeanField(agents []AgentSnapshot) (meanPhase, meanMagnitude float64) {
 	var sumSin, sumCos float64
@@ -1827,7 +1833,7 @@ func calculateMeanField(agents []AgentSnapshot) (meanPhase, meanMagnitude float6
 func getAgentColor(phase, meanPhase, meanMagnitude float64) cell.Color {
 	if meanMagnitude < 0.3 {
 		// Low coherence - color by phase group
-		phaseGroup := int((phase + math.Pi) * 3 / (2 * math.Pi))
+		phaseGroup := int((phaseOffset(phase) + math.Pi) * 3 / (2 * math.Pi))
 		switch phaseGroup {
 		case 0:
 			return cell.ColorRed
@@ -1841,10 +1847,7 @@ func getAgentColor(phase, meanPhase, meanMagnitude float64) cell.Color {
 	}
 
 	// Higher coherence - color by alignment with mean field
-	deviation := math.Abs(phase - meanPhase)
-	if deviation > math.Pi {
-		deviation = 2*math.Pi - deviation
-	}
+	deviation := math.Abs(phaseOffset(phase - meanPhase))
 
 	if deviation < math.Pi*(1-meanMagnitude) {
 		return cell.ColorGreen
@@ -1923,7 +1926,7 @@ func (d *TerminalDisplay) displayLoadDistribution(snapshot SimulationSnapshot) {
 
 	for _, agent := range snapshot.Agents {
 		// Map phase to region
-		region := int((agent.Phase + math.Pi) / (2 * math.Pi) * float64(phaseRegions))
+		region := int((phaseOffset(agent.Phase) + math.Pi) / (2 * math.Pi) * float64(phaseRegions))
 		if region >= phaseRegions {
 			region = phaseRegions - 1
 		}
@@ -2018,7 +2021,7 @@ func (d *TerminalDisplay) displayLatencyHistogram(snapshot SimulationSnapshot) {
 
 	for _, agent := range snapshot.Agents {
 		// Phase variance affects latency
-		variance := math.Abs(agent.Phase)
+		variance := math.Abs(phaseOffset(agent.Phase))
 		latency := baseLatency + variance*5
 		bin := int(latency / 10)
 		if bin >= bins {
@@ -2108,7 +2111,7 @@ func (d *TerminalDisplay) displayScheduleAlignment(snapshot SimulationSnapshot)
 	late := 0
 
 	for _, agent := range snapshot.Agents {
-		drift := agent.Phase // Phase represents timing drift
+		drift := phaseOffset(agent.Phase) // Phase represents timing drift
 		switch {
 		case math.Abs(drift) < 0.1:
 			onTime++
@@ -2160,9 +2163,9 @@ func (d *TerminalDisplay) displaySystemHealth(snapshot SimulationSnapshot) {
 
 	for _, agent := range snapshot.Agents {
 		switch {
-		case snapshot.Disrupted && math.Abs(agent.Phase) > 2:
+		case snapshot.Disrupted && math.Abs(phaseOffset(agent.Phase)) > 2:
 			failed++
-		case math.Abs(agent.Phase) > 1:
+		case math.Abs(phaseOffset(agent.Phase)) > 1:
 			degraded++
 		default:
 			healthy++
@@ -2307,9 +2310,9 @@ func createEmptyGrid(width, height int) [][]rune {
 // getAgentCharacter returns the character to display for an agent based on phase
 func getAgentCharacter(phase float64) rune {
 	switch {
-	case math.Abs(phase) < 0.5:
+	case math.Abs(phaseOffset(phase)) < 0.5:
 		return '●'
-	case math.Abs(phase) < 1.0:
+	case math.Abs(phaseOffset(phase)) < 1.0:
 		return 'o'
 	default:
 		return '∙'
-- 
2.43.0


From be3a58b713bfd8eb3584705d806280e9ea403b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:08 +0000
Subject: [PATCH 39/40] fix: a convergence prediction never turns negative

With a constant coherence the trend is rounding noise; when that noise is
positive the predicted time exceeds what a Duration holds and came out as
minus 292 years.
---
 emerge/monitoring/convergence.go | 8 +++++++-
 internal/emerge/convergence.go   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/emerge/monitoring/convergence.go b/emerge/monitoring/convergence.go
index bb3227d..ac7f133 100644
--- a/emerge/monitoring/convergence.go
+++ b/emerge/monitoring/convergence.go
@@ -215,7 +215,13 @@ func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	// Assume each sample is about 100ms apart (configurable)
 	samplePeriod := 100 * time.Millisecond
 
-	return time.Duration(timeToConverge * float64(samplePeriod))
+	// A vanishing rate predicts more than a duration can hold
+	predicted := timeToConverge * float64(samplePeriod)
+	if predicted >= math.MaxInt64 {
+		return math.MaxInt64
+	}
+
+	return time.Duration(predicted)
 }
 
 // History returns the full coherence history.
diff --git a/internal/emerge/convergence.go b/internal/emerge/convergence.go
index 7c44c4e..5b27f89 100644
--- a/internal/emerge/convergence.go
+++ b/internal/emerge/convergence.go
@@ -215,7 +215,13 @@ func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	// Assume each sample is about 100ms apart (configurable)
 	samplePeriod := 100 * time.Millisecond
 
-	return time.Duration(timeToConverge * float64(samplePeriod))
+	// A vanishing rate predicts more than a duration can hold
+	predicted := timeToConverge * float64(samplePeriod)
+	if predicted >= math.MaxInt64 {
+		return math.MaxInt64
+	}
+
+	return time.Duration(predicted)
 }
 
 // History returns the full coherence history.
-- 
2.43.0


From e575f46ec0ed810ad2c16807e60d04599ca47b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:14 +0000
Subject: [PATCH 40/40] fix: agents built from the test configuration prefer
 phase 0 instead of a random one

---
 internal/config/agent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/config/agent.go b/internal/config/agent.go
index 886096a..a72203d 100644
--- a/internal/config/agent.go
+++ b/internal/config/agent.go
@@ -87,7 +87,7 @@ func TestAgent() Agent {
 		StrategyRate:        0.5, // Higher for faster convergence in tests
 
 		Phase:         0,
-		LocalGoal:     0,                     // Same as global goal for predictability
+		LocalGoal:     2 * math.Pi,           // Phase 0, same as global goal for predictability (zero would be random)
 		Frequency:     50 * time.Millisecond, // Fast for quick tests
 		InitialEnergy: 100.0,
 
-- 
2.43.0

