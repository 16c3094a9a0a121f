// Package trafx watches the simulated workloads make and send their tasks on a
// virtual clock, and reads the tables of patterns, goals and scales.
package trafx

import (
	"context"
	"math/rand"
	"sort"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 60 * time.Second

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	switch vh.UnitName() {
	case "traffic":
		runTraffic(t, r)
	case "catalog":
		runCatalog(t, r)
	default:
		t.Fatal("unknown unit")
	}
}

type val[T any] struct {
	n string
	v T
}

var (
	scales = []val[scale.Size]{{"tiny", scale.Tiny}, {"small", scale.Small}, {"medium", scale.Medium}, {"large", scale.Large}, {"huge", scale.Huge}}
	goals  = []val[goal.Type]{{"batch", goal.MinimizeAPICalls}, {"load", goal.DistributeLoad}, {"consensus", goal.ReachConsensus},
		{"latency", goal.MinimizeLatency}, {"energy", goal.SaveEnergy}, {"rhythm", goal.MaintainRhythm},
		{"failure", goal.RecoverFromFailure}, {"traffic", goal.AdaptToTraffic}}
	patterns = []val[pattern.Type]{{"unset", pattern.Unset}, {"high", pattern.HighFrequency}, {"burst", pattern.Burst}, {"steady", pattern.Steady},
		{"mixed", pattern.Mixed}, {"sparse", pattern.Sparse}}
)

type watch struct {
	t    *vh.Trace
	w    *simulation.Workload
	a    *agent.Agent
	t0   time.Time
	last simulation.AgentSnapshot
	none bool
}

func (x *watch) now() int { return int(time.Since(x.t0).Milliseconds()) }

// see records the workload's state when it changed.
func (x *watch) see() {
	s := x.w.Snapshot()
	l := x.last
	if !x.none && s.PendingTasks == l.PendingTasks && s.BatchesSent == l.BatchesSent && s.InBurstMode == l.InBurstMode && s.ActivityLevel == l.ActivityLevel {
		return
	}
	x.none = false
	x.last = s
	x.t.Add("seen", "at", x.now(), "pend", s.PendingTasks, "sent", s.BatchesSent, "burst", s.InBurstMode, "act", s.ActivityLevel)
}

func (x *watch) until(at time.Duration, step time.Duration) {
	for time.Since(x.t0) < at {
		time.Sleep(step)
		x.see()
	}
}

func runTraffic(tt *testing.T, r *vh.Recorder) {
	one := func(rng *rand.Rand, p val[pattern.Type], ops []vh.Op) {
		g := goals[rng.Intn(len(goals))]
		h := vh.Ev{"pat": p.n, "plain": len(ops) == 0}
		r.Run(h, limit, func(t *vh.Trace) {
			synctest.Test(tt, func(*testing.T) {
				vh.Guard(t, func() { traffic(t, rng, p.v, g.v, ops) })
			})
		})
	}
	for i, ops := range vh.Ops() {
		one(vh.Rng(1000000+i), patterns[i%len(patterns)], ops)
	}
	for i := range vh.N() {
		rng := vh.Rng(i)
		var ops []vh.Op
		if (i/len(patterns))%3 != 0 {
			for range 2 + rng.Intn(14) {
				ops = append(ops, vh.Op{"op": []string{"pause", "resume", "reset", "near", "far", "far", "pass", "pass"}[rng.Intn(8)]})
			}
		}
		one(rng, patterns[i%len(patterns)], ops)
	}
}

func traffic(t *vh.Trace, rng *rand.Rand, p pattern.Type, g goal.Type, ops []vh.Op) {
	var sim *simulation.Simulation
	if len(ops) > 0 || rng.Intn(2) == 0 {
		var err error
		sim, err = simulation.New(simulation.BuildConfig{Goal: g, Scale: scale.Tiny, Pattern: p, TargetCoherence: 0.9})
		if err != nil {
			panic(err)
		}
	}
	a := agent.New("w")
	a.SetPhase(3)
	w := simulation.NewWorkloadWithEmerge("w", rng.Intn(20), a, sim, p, g)
	ctx, cancel := context.WithCancel(context.Background())
	x := &watch{t: t, w: w, a: a, t0: time.Now(), none: true}
	w.Start(ctx, simulation.NewBatchManager())
	time.Sleep(500 * time.Microsecond)
	x.see()
	step, span := time.Millisecond, 6*time.Second
	switch p {
	case pattern.Sparse:
		step, span = 5*time.Millisecond, 200*time.Second
	case pattern.Burst:
		span = 31 * time.Second
	case pattern.Mixed:
		span = 41 * time.Second
	}
	if len(ops) > 0 && p != pattern.Sparse {
		span = min(span, 9*time.Second)
	}
	paused := false
	for i, o := range ops {
		switch name := o.S("op"); name {
		case "pause":
			if sim != nil {
				sim.Pause()
				paused = true
				t.Add("pause", "at", x.now())
			}
		case "resume":
			if sim != nil && paused {
				sim.Resume()
				paused = false
				t.Add("resume", "at", x.now())
			}
		case "reset":
			w.Reset()
			t.Add("reset", "at", x.now())
			x.none = true
		case "near":
			a.SetPhase([]float64{0, 0.05, 6.25, 0.02}[rng.Intn(4)])
			t.Add("phase", "at", x.now(), "near", true)
		case "far":
			a.SetPhase([]float64{3, 0.5, 5.5, 1.5}[rng.Intn(4)])
			t.Add("phase", "at", x.now(), "near", false)
		}
		x.see()
		x.until(span*time.Duration(i+1)/time.Duration(len(ops)), step)
	}
	x.until(span, step)
	t.Add("end", "at", x.now())
	cancel()
	time.Sleep(500 * time.Millisecond)
	b := w.Snapshot()
	time.Sleep(12 * time.Second)
	c := w.Snapshot()
	t.Add("over", "still", b.PendingTasks == c.PendingTasks && b.BatchesSent == c.BatchesSent)
}

func runCatalog(tt *testing.T, r *vh.Recorder) {
	// pattern tables
	for gi, g := range goals {
		r.Run(nil, limit, func(t *vh.Trace) {
			for _, n := range []int{-1, 0, 1, 2, 19, 20, 21, 49, 50, 51, 52, 100, 200, 500, 999, 1000, 1001, 2000, 5000, 1000000} {
				rows := []vh.Ev{}
				for _, p := range patterns {
					rows = append(rows, vh.Ev{"p": p.n, "mod": vh.Milli(pattern.GetCoherenceModifier(int(g.v), n, p.v)),
						"q": pattern.GetQualifier(int(g.v), n, p.v), "rec": pattern.IsRecommended(int(g.v), n, p.v)})
				}
				t.Add("mods", "g", g.n, "n", n, "rows", rows, "best", name(patterns, pattern.BestPatternForGoal(int(g.v))), "fits", g.v.IsRecommendedForSize(n))
			}
		})
		// workload kinds
		r.Run(nil, limit, func(t *vh.Trace) {
			kinds := []string{}
			icons := true
			for k := range 24 {
				s := simulation.NewWorkloadWithEmerge("w", k, agent.New("w"), nil, pattern.Steady, g.v).Snapshot()
				kinds = append(kinds, s.Type)
				icons = icons && s.Icon != ""
				o := simulation.NewWorkload("w", k, g.v).Snapshot()
				if o.Type != s.Type {
					kinds[k] = "?"
				}
			}
			t.Add("kinds", "g", g.n, "kinds", kinds, "icons", icons)
			_ = gi
		})
	}
	r.Run(nil, limit, func(t *vh.Trace) {
		for _, p := range patterns {
			t.Add("entry", "kind", "pattern", "n", p.n, "name", p.v.String(), "key", p.v.ShortKey(), "about", p.v.Description() != "")
		}
	})
	r.Run(nil, limit, func(t *vh.Trace) {
		for _, g := range goals {
			t.Add("entry", "kind", "goal", "n", g.n, "name", g.v.String(), "key", g.v.ShortKey(), "about", true)
		}
	})
	r.Run(nil, limit, func(t *vh.Trace) {
		for _, s := range scales {
			t.Add("entry", "kind", "scale", "n", s.n, "name", s.v.String(), "key", "", "about", true)
			t.Add("scale", "n", s.n, "count", s.v.DefaultAgentCount(), "back", name(scales, scale.FromCount(s.v.DefaultAgentCount())),
				"coh", vh.Micro(s.v.DefaultTargetCoherence()), "every", s.v.DefaultUpdateIntervalMs(), "factor", vh.Milli(s.v.DefaultConvergenceTimeFactor()),
				"near", s.v.MaxNeighbors(), "every2", s.v.UpdateInterval())
		}
		ns := []int{}
		for n := -5; n <= 2100; n++ {
			ns = append(ns, int(scale.FromCount(n)))
		}
		t.Add("counts", "from", -5, "sizes", ns, "order", []int{int(scale.Tiny), int(scale.Small), int(scale.Medium), int(scale.Large), int(scale.Huge)})
	})
	// the pace of a simulation's synchronization
	for _, g := range goals {
		// larger swarms keep workers that never end
		for k := range 18 {
			sc := scales[k%2]
			target := []float64{sc.v.DefaultTargetCoherence(), 0.6, 0.95, 0.96, 0.97}[min(k/2, 1)*(1+k/2%4)]
			r.Run(nil, limit, func(t *vh.Trace) {
				synctest.Test(tt, func(*testing.T) { vh.Guard(t, func() { pace(t, g, sc, target) }) })
			})
		}
	}
	// a simulation whose pattern is left open
	var wg sync.WaitGroup
	for _, g := range goals {
		for _, p := range append([]val[pattern.Type]{}, patterns...) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.Run(nil, limit, func(t *vh.Trace) { open(t, g, p) })
			}()
		}
		wg.Wait()
	}
}

// pace records when the agents of a simulation move.
func pace(t *vh.Trace, g val[goal.Type], sc val[scale.Size], target float64) {
	s, err := simulation.New(simulation.BuildConfig{Goal: g.v, Scale: sc.v, Pattern: pattern.Sparse, TargetCoherence: target})
	if err != nil {
		panic(err)
	}
	every := swarm.For(g.v).WithSize(sc.v.DefaultAgentCount()).Strategy.UpdateInterval
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() { _ = s.Start(ctx); close(done) }()
	t0 := time.Now()
	time.Sleep(500 * time.Microsecond)
	last := map[string]float64{}
	for _, a := range s.Snapshot().Agents {
		last[a.ID] = a.Phase
	}
	moved := []int{}
	for time.Since(t0) < 4*every+2*time.Millisecond {
		time.Sleep(time.Millisecond)
		m := false
		x := s.Snapshot()
		for _, a := range x.Agents {
			m = m || a.Phase != last[a.ID]
			last[a.ID] = a.Phase
		}
		if m {
			moved = append(moved, int(time.Since(t0).Milliseconds()))
		}
		if x.TargetCoherence != target {
			moved = append(moved, -1)
		}
	}
	// a run that ends before its shortest budget has reached its target
	rest, coh := 0, 0.0
	cfg := swarm.For(g.v).WithSize(sc.v.DefaultAgentCount())
	for tick := 4; tick < 90 && rest < 12 && time.Since(t0) < 1850*time.Millisecond; tick++ { // sparse work begins later
		time.Sleep(every)
		rest++
		x := s.Snapshot()
		for _, a := range x.Agents {
			if a.Phase != last[a.ID] {
				rest = 0
			}
			last[a.ID] = a.Phase
		}
		coh = x.Coherence
	}
	cancel()
	<-done
	time.Sleep(12 * time.Second)
	tol := 2 * max(cfg.Convergence.ToleranceSmall, cfg.Convergence.ToleranceMedium, cfg.Convergence.ToleranceLarge)
	t.Add("rest", "g", g.n, "n", sc.n, "ended", rest >= 12, "coh", vh.Micro(coh),
		"least", vh.Micro(min(target, swarm.GetCoherenceLimits(sc.v.DefaultAgentCount()).Practical)-tol))
	t.Add("pace", "g", g.n, "n", sc.n, "agents", len(last), "every", int(every.Milliseconds()), "moved", moved)
}

// open runs a simulation and looks at what its workloads do at first.
func open(t *vh.Trace, g val[goal.Type], p val[pattern.Type]) {
	s, err := simulation.New(simulation.BuildConfig{Goal: g.v, Scale: scale.Tiny, Pattern: p.v, TargetCoherence: 0.9})
	if err != nil {
		panic(err)
	}
	kinds := map[string]int{}
	acts := map[string]bool{}
	for _, a := range s.Snapshot().Agents {
		kinds[a.Type]++
		acts[a.ActivityLevel] = true
	}
	counts := []int{}
	for _, k := range kinds {
		counts = append(counts, k)
	}
	sort.Ints(counts)
	before := []string{}
	for a := range acts {
		before = append(before, a)
	}
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	t0 := time.Now()
	go func() { _ = s.Start(ctx); close(done) }()
	burst, work, early := false, false, false
	for time.Since(t0) < 1800*time.Millisecond {
		time.Sleep(25 * time.Millisecond)
		x := s.Snapshot()
		el := time.Since(t0)
		for _, a := range x.Agents {
			burst = burst || a.InBurstMode
			if a.PendingTasks > 0 || a.BatchesSent > 0 {
				work = true
				early = early || el < 1800*time.Millisecond
			}
		}
		if el > 700*time.Millisecond && (burst || work) {
			break
		}
	}
	cancel()
	<-done
	t.Add("open", "g", g.n, "p", p.n, "before", before, "burst", burst, "work", work, "early", early, "counts", counts)
}

func name[T comparable](q []val[T], v T) string {
	for _, x := range q {
		if x.v == v {
			return x.n
		}
	}
	return "?"
}
