// Package cfgx drives configurations, goals, traits, scales and clients.
package cfgx

import (
	"math"
	"math/rand"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/emerge/trait"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 30 * time.Second

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	switch vh.UnitName() {
	case "config":
		runConfig(r)
	case "usable":
		runUsable(t, r)
	default:
		t.Fatal("unknown unit")
	}
}

// edge projects on 1e-6 units and keeps the order relative to 0 and 1.
func edge(x float64) int {
	u := vh.Micro(x)
	switch {
	case x < 0 && u == 0:
		return -1
	case x > 0 && u == 0:
		return 1
	case x > 1 && u == 1000000:
		return 1000001
	case x < 1 && u == 1000000:
		return 999999
	}
	return u
}

func micros(d time.Duration) int {
	u := int(d / time.Microsecond)
	switch {
	case d > 0 && u == 0:
		return 1
	case d < 0 && u == 0:
		return -1
	}
	return max(-vh.Huge, min(vh.Huge, u))
}

func clip(n int) int { return max(-vh.Huge, min(vh.Huge, n)) }

func rec(c config.Swarm) vh.Ev {
	return vh.Ev{
		"p": []int{edge(c.ConnectionProbability), edge(c.CouplingStrength), edge(c.Stubbornness),
			edge(c.BasinStrength), edge(c.BaseConfidence), edge(c.InfluenceDefault)},
		"maxn": clip(c.MaxNeighbors), "minn": clip(c.MinNeighbors), "energy": edge(c.InitialEnergy), "basin": edge(c.BasinWidth),
		"upd": micros(c.AgentUpdateInterval), "mon": micros(c.MonitoringInterval),
		"cnt":   []int{clip(c.MaxConcurrentAgents), clip(c.ConnectionOptimThreshold), clip(c.BatchSize), clip(c.WorkerPoolSize)},
		"limit": clip(c.MaxSwarmSize), "batch": c.UseBatchProcessing,
	}
}

func same(a, b config.Swarm) bool {
	f := func(x, y float64) bool { return x == y || math.IsNaN(x) && math.IsNaN(y) }
	if !f(a.ConnectionProbability, b.ConnectionProbability) || !f(a.CouplingStrength, b.CouplingStrength) ||
		!f(a.Stubbornness, b.Stubbornness) || !f(a.BasinStrength, b.BasinStrength) || !f(a.BaseConfidence, b.BaseConfidence) ||
		!f(a.InfluenceDefault, b.InfluenceDefault) || !f(a.InitialEnergy, b.InitialEnergy) || !f(a.BasinWidth, b.BasinWidth) {
		return false
	}
	z := func(c config.Swarm) config.Swarm {
		c.ConnectionProbability, c.CouplingStrength, c.Stubbornness, c.BasinStrength, c.BaseConfidence = 0, 0, 0, 0, 0
		c.InfluenceDefault, c.InitialEnergy, c.BasinWidth = 0, 0, 0
		return c
	}
	return z(a) == z(b)
}

func try(t *vh.Trace, c config.Swarm, n int, build bool) {
	a := c
	verr := a.Validate(n)
	b := c
	err := b.NormalizeAndValidate(n)
	e := vh.Ev{}
	out, valid2, twice := vh.Ev{}, false, false
	if err == nil {
		out = rec(b)
		v := b
		valid2 = v.Validate(n) == nil
		w := b
		twice = w.NormalizeAndValidate(n) == nil && same(w, b)
	} else {
		out["x"] = 0
	}
	bs := "none"
	if build && n <= 8 {
		g := core.State{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.6}
		bs = "ok"
		if s, err := swarm.New(n, g, swarm.WithConfig(c)); err != nil || s == nil {
			bs = "err"
		}
	}
	_ = e
	t.Add("swarmcfg", "n", n, "in", rec(c), "valid", verr == nil, "kept", same(a, c), "err", err != nil, "out", out,
		"valid2", valid2, "twice", twice, "build", bs)
}

func base(n int) config.Swarm {
	c := config.AutoScaleConfig(max(n, 2))
	c.MaxSwarmSize = 0
	if n == 1 {
		c.MaxNeighbors, c.MinNeighbors = 0, 0
	}
	return c
}

func prob(k string) float64 {
	switch k {
	case "lowm":
		return -math.SmallestNonzeroFloat64
	case "low":
		return 0
	case "lowp":
		return 1e-9
	case "high":
		return 1
	case "highp":
		return math.Nextafter(1, 2)
	}
	return math.NaN()
}

func deviate(c *config.Swarm, f, k string, n int) {
	pos := map[string]float64{"lowm": -1e-9, "low": 0, "lowp": 1e-9, "high": 1e6, "highp": -50, "nan": math.NaN()}[k]
	dur := map[string]time.Duration{"lowm": -1, "low": 0, "lowp": 1, "high": time.Hour, "highp": -time.Hour, "nan": time.Second}[k]
	cnt := map[string]int{"lowm": -1, "low": 0, "lowp": 1, "high": 1 << 30, "highp": -1 << 30, "nan": 77}[k]
	nb := map[string]int{"lowm": -1, "low": 0, "lowp": 1, "high": n - 1, "highp": n, "nan": 1 << 20}[k]
	switch f {
	case "p1":
		c.ConnectionProbability = prob(k)
	case "p2":
		c.CouplingStrength = prob(k)
	case "p3":
		c.Stubbornness = prob(k)
	case "p4":
		c.BasinStrength = prob(k)
	case "p5":
		c.BaseConfidence = prob(k)
	case "p6":
		c.InfluenceDefault = prob(k)
	case "maxn":
		c.MaxNeighbors = nb
	case "minn":
		c.MinNeighbors = nb
	case "energy":
		c.InitialEnergy = pos
	case "basin":
		c.BasinWidth = pos
	case "upd":
		c.AgentUpdateInterval = dur
	case "mon":
		c.MonitoringInterval = dur
	case "c1":
		c.MaxConcurrentAgents = cnt
	case "c2":
		c.ConnectionOptimThreshold = cnt
	case "c3":
		c.BatchSize = cnt
	case "c4":
		c.WorkerPoolSize = cnt
	case "limit":
		c.MaxSwarmSize = map[string]int{"lowm": n - 1, "low": 0, "lowp": 1, "high": n, "highp": n + 1, "nan": -5}[k]
	}
}

func st(s core.State) vh.Ev {
	fin := !math.IsNaN(s.Phase) && !math.IsInf(s.Phase, 0)
	return vh.Ev{"phase": vh.PhMod(s.Phase), "freq": micros(s.Frequency), "coh": edge(s.Coherence), "fin": fin, "circ": vh.OnCircle(s.Phase)}
}

func eqState(a, b core.State) bool {
	f := func(x, y float64) bool { return x == y || math.IsNaN(x) && math.IsNaN(y) }
	return (f(a.Phase, b.Phase) || math.Abs(a.Phase-b.Phase) < 1e-9) && f(a.Coherence, b.Coherence) && a.Frequency == b.Frequency
}

func tryState(t *vh.Trace, s core.State) {
	a, b := s, s
	verr := a.Validate()
	err := b.NormalizeAndValidate()
	out, valid2, twice := vh.Ev{"x": 0}, false, false
	if err == nil {
		out = st(b)
		v, w := b, b
		valid2 = v.Validate() == nil
		twice = w.NormalizeAndValidate() == nil && eqState(w, b)
	}
	t.Add("state", "in", st(s), "valid", verr == nil, "kept", eqState(a, s), "err", err != nil, "out", out, "valid2", valid2, "twice", twice)
}

func grec(c *swarm.Config) vh.Ev {
	return vh.Ev{"scale": edge(c.Convergence.BaseAdjustmentScale), "conv": edge(c.Convergence.PhaseConvergenceGoal),
		"mod": edge(c.Thresholds.ModerateCoherence), "high": edge(c.Thresholds.HighCoherence), "very": edge(c.Thresholds.VeryHighCoherence),
		"lo": edge(c.Variation.BaseRange[0]), "hi": edge(c.Variation.BaseRange[1]), "chance": edge(c.Variation.PerturbationChance),
		"upd": micros(c.Strategy.UpdateInterval), "expl": micros(c.Strategy.ExplorationTimeWindow),
		"aff": edge(c.Resonance.AffectedAgents), "act": edge(c.Resonance.ActivationRate),
		"iter": edge(c.Strategy.MaxIterationsFactor), "tol": []int{edge(c.Convergence.ToleranceSmall), edge(c.Convergence.ToleranceMedium), edge(c.Convergence.ToleranceLarge)}}
}

func pickP(g *rand.Rand) float64 {
	switch g.Intn(9) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return math.Nextafter(1, 2)
	case 3:
		return -math.SmallestNonzeroFloat64
	case 4:
		return -0.5 - g.Float64()
	case 5:
		return 1.5 + g.Float64()*1000
	case 6:
		if g.Intn(3) == 0 {
			return math.NaN()
		}
		return math.Inf(1 - 2*g.Intn(2))
	}
	return g.Float64()
}

func runConfig(r *vh.Recorder) {
	run := func(body func(t *vh.Trace)) { r.Run(nil, limit, body) }
	for _, p := range []float64{1e18, -1e18, 1e300, -math.MaxFloat64, 4e15} {
		run(func(t *vh.Trace) { tryState(t, core.State{Phase: p, Frequency: time.Second, Coherence: 0.5}) })
	}
	for i, ops := range vh.Ops() {
		n := ops[0].I("n")
		c := base(n)
		c.UseBatchProcessing = ops[0].I("b") == 1
		for _, o := range ops[1:] {
			deviate(&c, o.S("f"), o.S("k"), n)
		}
		run(func(t *vh.Trace) { try(t, c, n, i%7 == 0) })
	}
	for i := range vh.N() {
		g := vh.Rng(i)
		run(func(t *vh.Trace) {
			n := []int{-3, 0, 1, 2, 3, 5, 9, 10, 19, 20, 50, 99, 100, 101, 999, 1000, 5000, 1000000}[g.Intn(18)]
			c := base(n)
			if g.Intn(3) == 0 {
				c = config.Swarm{ConnectionProbability: pickP(g), CouplingStrength: pickP(g), Stubbornness: pickP(g), BasinStrength: pickP(g), BaseConfidence: pickP(g), InfluenceDefault: pickP(g)}
			}
			c.UseBatchProcessing = g.Intn(2) == 0
			c.MaxNeighbors, c.MinNeighbors = g.Intn(2*max(n, 4))-2, g.Intn(2*max(n, 4))-2
			fs := []string{"p1", "p2", "p3", "p4", "p5", "p6", "maxn", "minn", "energy", "basin", "upd", "mon", "c1", "c2", "c3", "c4", "limit"}
			ks := []string{"lowm", "low", "lowp", "high", "highp", "nan"}
			for range g.Intn(8) {
				k := ks[g.Intn(6)]
				if k == "nan" && g.Intn(3) > 0 {
					k = "high"
				}
				deviate(&c, fs[g.Intn(len(fs))], k, n)
			}
			try(t, c, n, g.Intn(4) == 0)
			s := core.State{Phase: (g.Float64() - 0.5) * math.Pow(10, float64(g.Intn(12))), Frequency: time.Duration(g.Intn(5)-2) * time.Millisecond * 100, Coherence: pickP(g)}
			switch g.Intn(10) {
			case 0:
				s.Phase = math.NaN()
			case 1:
				s.Phase = math.Inf(1 - 2*g.Intn(2))
			case 2:
				s.Phase = 2 * math.Pi
			case 3:
				s.Phase = -1e-18
			case 4:
				s.Phase = float64(g.Intn(9)-4) * math.Pi
			}
			if g.Intn(3) == 0 {
				s.Coherence = g.Float64()
			}
			tryState(t, s)
			c2 := swarm.For(goal.Type(g.Intn(9)))
			for range g.Intn(4) {
				x := pickP(g)
				if math.IsNaN(x) {
					x = 2
				}
				d := time.Duration(g.Intn(5)-2) * time.Millisecond
				switch g.Intn(13) {
				case 0:
					c2.Convergence.BaseAdjustmentScale = x
				case 1:
					c2.Convergence.PhaseConvergenceGoal = x
				case 2:
					c2.Thresholds.ModerateCoherence = x
				case 3:
					c2.Thresholds.HighCoherence = x
				case 4:
					c2.Thresholds.VeryHighCoherence = x
				case 5:
					c2.Variation.BaseRange[0] = x
				case 6:
					c2.Variation.BaseRange[1] = x
				case 7:
					c2.Variation.PerturbationChance = x
				case 8:
					c2.Strategy.UpdateInterval = d
				case 9:
					c2.Strategy.ExplorationTimeWindow = d
				case 10:
					c2.Resonance.AffectedAgents = x
				case 11:
					c2.Resonance.ActivationRate = x
				case 12:
					c2.TuneFor(trait.Target(g.Intn(7)))
				}
			}
			cp := *c2
			v := c2.Validate() == nil
			t.Add("goalcfg", "in", grec(&cp), "valid", v, "kept", *c2 == cp)
		})
	}
	// presets
	run(func(t *vh.Trace) {
		g := vh.Rng(99)
		sizes := []int{}
		for n := 1; n <= 260; n++ {
			sizes = append(sizes, n)
		}
		for range 200 {
			sizes = append(sizes, 1+g.Intn(1000000))
		}
		sizes = append(sizes, 999, 1000, 1001, 1999, 1000000)
		for _, n := range sizes {
			c := config.AutoScaleConfig(n)
			err := c.Validate(n)
			t.Add("preset", "n", n, "err", err != nil, "out", rec(c))
			for _, w := range []time.Duration{time.Millisecond, 200 * time.Millisecond, time.Second} {
				c = config.ForBatching(n, w)
				err = c.NormalizeAndValidate(n)
				t.Add("preset", "n", n, "err", err != nil, "out", rec(c))
			}
		}
		for _, p := range []struct {
			c config.Swarm
			n []int
		}{{config.DefaultConfig(), []int{6, 100, 5000, 1000000}}, {config.SmallSwarmConfig(), []int{11, 15, 19}}, {config.MediumSwarmConfig(), []int{20, 50, 100}}} {
			for _, n := range p.n {
				c := p.c
				err := c.Validate(n)
				t.Add("preset", "n", n, "err", err != nil, "out", rec(c))
			}
		}
	})
}
