// Package bldx builds agents from configurations, alone and in swarms.
package bldx

import (
	"fmt"
	"math"
	"math/rand"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 60 * time.Second

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	switch vh.UnitName() {
	case "build":
		runBuild(t, r)
	default:
		t.Fatal("unknown unit")
	}
}

func project(c config.Agent) vh.Ev {
	return vh.Ev{"dm": c.DecisionMakerType, "gm": c.GoalManagerType, "rm": c.ResourceManagerType, "st": c.StrategyType,
		"en": vh.Micro(c.InitialEnergy), "rate": vh.Micro(c.StrategyRate), "inf": vh.Micro(c.Influence), "stub": vh.Micro(c.Stubbornness),
		"size": c.SwarmSize, "maxn": c.AssumedMaxNeighbors, "fr": int(c.Frequency / time.Microsecond), "ph": vh.PhMod(c.Phase), "goal": vh.PhMod(c.LocalGoal),
		"goalzero": c.LocalGoal == 0, "rp": c.RandomizePhase, "rg": c.RandomizeLocalGoal, "rf": c.RandomizeFrequency}
}

func observe(a *agent.Agent, id string) vh.Ev {
	return vh.Ev{"en": vh.Micro(a.Energy()), "inf": vh.Micro(a.Influence()), "stub": vh.Micro(a.Stubbornness()), "fr": int(a.Frequency() / time.Microsecond),
		"ph": vh.Ph(a.Phase()), "goal": vh.Ph(a.LocalGoal()), "circ": vh.OnCircle(a.Phase()) && vh.OnCircle(a.LocalGoal()), "id": a.ID == id}
}

// build makes the agent and records what it is.
func build(t *vh.Trace, how, id string, c config.Agent) *agent.Agent {
	mk := agent.NewFromConfig
	if how == "large" {
		mk = agent.NewOptimizedFromConfig
	}
	a, err := mk(id, c)
	recordBuild(t, how, id, c, a, err)
	if err != nil {
		return nil
	}
	return a
}

func recordBuild(t *vh.Trace, how, id string, c config.Agent, a *agent.Agent, err error) {
	e := []any{"how", how, "c", project(c)}
	switch {
	case err != nil && a == nil:
		e = append(e, "res", "error", "o", vh.Ev{})
	case err != nil:
		e = append(e, "res", "both", "o", vh.Ev{})
	case a == nil:
		e = append(e, "res", "neither", "o", vh.Ev{})
	default:
		e = append(e, "res", "ok", "o", observe(a, id))
	}
	t.Add("build", e...)
}

// listener hears the options an agent decides about.
type listener struct{ opts []core.Action }

func (l *listener) Decide(_ core.State, opts []core.Action) (core.Action, float64) {
	l.opts = append([]core.Action(nil), opts...)
	return opts[0], 1
}

// spy hears what an agent perceives.
type spy struct {
	ctx    core.Context
	called bool
}

func (s *spy) Propose(_, _ core.State, x core.Context) (core.Action, float64) {
	s.ctx, s.called = x, true
	return core.Action{Type: "maintain"}, 1
}
func (s *spy) Name() string { return "spy" }

func odd(cur, tgt float64) bool {
	const e = 1e-10
	return math.Abs(tgt) < e && math.Abs(cur-3*math.Pi/2) < e || math.Abs(tgt-3*math.Pi/2) < e && math.Abs(cur) < e
}

// move makes the agent propose; since is the time since it was built.
func move(t *vh.Trace, a *agent.Agent, g *rand.Rand, due bool) {
	a.SetStubbornness(0)
	a.SetEnergy(1000)
	cur, tgt := g.Float64()*2*math.Pi, g.Float64()*2*math.Pi
	if g.Intn(5) == 0 {
		cur, tgt = float64(g.Intn(8))*math.Pi/4, float64(g.Intn(8))*math.Pi/4
	}
	a.SetPhase(cur)
	a.SetLocalGoal(tgt)
	l := &listener{}
	a.SetDecisionMaker(l)
	a.ProposeAdjustment(core.State{Phase: g.Float64() * 6, Frequency: time.Second, Coherence: g.Float64()})
	if len(l.opts) == 0 {
		t.Add("PANIC", "msg", "the agent does not decide")
		return
	}
	p := l.opts[0]
	t.Add("move", "cur", vh.PhMod(cur), "tgt", vh.PhMod(tgt), "odd", odd(cur, tgt), "due", due, "type", p.Type, "v", vh.Ph(p.Value))
}

// perceive connects n more neighbours (none when n < 0) and asks what the agent perceives.
func perceive(t *vh.Trace, a *agent.Agent, g *rand.Rand, n int) {
	for i := range max(n, 0) {
		o := agent.New(fmt.Sprintf("nb-%d", i), agent.WithPhase(g.Float64()*6))
		if i%2 == 0 {
			a.ConnectTo(o.ID, o)
		} else {
			a.Neighbors().Store(o.ID, o)
		}
	}
	s := &spy{}
	agent.WithStrategy(s)(a)
	a.SetStubbornness(0)
	a.UpdateContext()
	a.ProposeAdjustment(core.State{})
	if !s.called {
		t.Add("PANIC", "msg", "the agent does not ask its strategy")
		return
	}
	t.Add("perceive", "nb", a.NeighborCount(), "cnb", s.ctx.Neighbors, "dens", vh.Micro(s.ctx.Density))
}

func many(t *vh.Trace, how string, c config.Agent) {
	var ph, goal, fr []int
	for i := range 12 {
		mk := agent.NewFromConfig
		if how == "large" {
			mk = agent.NewOptimizedFromConfig
		}
		a, err := mk(fmt.Sprint(i), c)
		if err != nil {
			return
		}
		ph, goal, fr = append(ph, vh.Ph(a.Phase())), append(goal, vh.Ph(a.LocalGoal())), append(fr, int(a.Frequency()))
	}
	t.Add("many", "rp", c.RandomizePhase, "rg", c.RandomizeLocalGoal, "rf", c.RandomizeFrequency, "ph", ph, "goal", goal, "fr", fr)
}

func value(g *rand.Rand, top float64) float64 {
	switch g.Intn(6) {
	case 0:
		return 0
	case 1:
		return top
	case 2:
		return -g.Float64() * top
	case 3:
		return top * (1 + g.Float64())
	}
	return g.Float64() * top
}

func pick(g *rand.Rand, xs ...string) string { return xs[g.Intn(len(xs))] }

func life(t *vh.Trace, how string, c config.Agent, g *rand.Rand) {
	a := build(t, how, "agent-x", c)
	if a == nil {
		return
	}
	slept := 0
	for range 3 {
		d := []int{0, 40, 99, 100, 101, 150}[g.Intn(6)]
		time.Sleep(time.Duration(d) * time.Millisecond)
		slept += d
		move(t, a, g, slept >= 100)
		if slept >= 100 {
			slept = 0
		}
	}
	perceive(t, a, g, g.Intn(40)-8)
}

func runBuild(tt *testing.T, r *vh.Recorder) {
	in := func(body func(t *vh.Trace)) {
		r.Run(nil, limit, func(t *vh.Trace) {
			synctest.Test(tt, func(*testing.T) { vh.Guard(t, func() { body(t) }) })
		})
	}
	hows := []string{"plain", "large"}
	for _, how := range hows {
		in(func(t *vh.Trace) {
			for name, c := range map[string]config.Agent{"default": config.DefaultAgent(), "random": config.RandomizedAgent(), "test": config.TestAgent(), "testing": agent.TestAgentConfig()} {
				mk := agent.NewFromConfig
				if how == "large" {
					mk = agent.NewOptimizedFromConfig
				}
				var rows [][]int
				for i := range 12 {
					a, err := mk(fmt.Sprint(i), c)
					if err != nil {
						panic(err)
					}
					rows = append(rows, []int{vh.Ph(a.Phase()), vh.Ph(a.LocalGoal()), int(a.Frequency() / time.Microsecond), vh.Micro(a.Energy()), vh.Micro(a.Influence()), vh.Micro(a.Stubbornness())})
				}
				t.Add("preset", "name", name, "rows", rows)
			}
		})
	}
	for i, ops := range vh.Ops() {
		g := vh.Rng(i)
		o := ops[0]
		c := config.Agent{DecisionMakerType: o.S("dm"), GoalManagerType: o.S("gm"), ResourceManagerType: o.S("rm"), StrategyType: o.S("st"),
			SwarmSize: []int{0, 1, 2, 50, 101, 400}[g.Intn(6)], MaxTokens: float64(g.Intn(2) * 70)}
		if o.B("en") {
			c.InitialEnergy = 1 + g.Float64()*200
		}
		if o.B("inf") {
			c.Influence = 0.05 + 0.9*g.Float64()
		}
		if o.B("stub") {
			c.Stubbornness = 0.05 + 0.9*g.Float64()
		}
		if o.B("rate") {
			c.StrategyRate = 0.05 + 0.9*g.Float64()
		}
		if o.B("fr") {
			c.Frequency = time.Duration(1+g.Intn(500)) * time.Millisecond
		}
		how := "plain"
		if o.B("large") {
			how = "large"
		}
		in(func(t *vh.Trace) { life(t, how, c, g) })
	}
	for i := range vh.N() {
		g := vh.Rng(500000 + i)
		if i%4 == 3 {
			r.Run(nil, limit, func(t *vh.Trace) { ofSwarm(t, g) })
			continue
		}
		c := config.Agent{
			DecisionMakerType: pick(g, "", "simple", "adaptive"), GoalManagerType: pick(g, "", "weighted"), ResourceManagerType: pick(g, "", "token"),
			StrategyType: pick(g, "", "phase_nudge", "frequency_lock", "energy_aware", "adaptive", "pulse"),
			MaxTokens:    math.Abs(value(g, 150)), StrategyRate: value(g, 1), Phase: (g.Float64() - 0.5) * 30, LocalGoal: (g.Float64() - 0.5) * 30,
			Frequency: time.Duration(g.Intn(3)*g.Intn(400000)) * time.Microsecond, InitialEnergy: value(g, 300), Influence: value(g, 1), Stubbornness: value(g, 1),
			SwarmSize: g.Intn(3) * g.Intn(150), AssumedMaxNeighbors: g.Intn(2) * g.Intn(60),
			RandomizePhase: g.Intn(3) == 0, RandomizeLocalGoal: g.Intn(3) == 0, RandomizeFrequency: g.Intn(3) == 0,
		}
		switch g.Intn(8) {
		case 0:
			c = config.DefaultAgent()
		case 1:
			c = config.RandomizedAgent()
		case 2:
			c = config.TestAgent()
		case 3:
			c.Phase, c.LocalGoal = 0, 0
		}
		how := hows[i%2]
		in(func(t *vh.Trace) {
			life(t, how, c, g)
			many(t, how, c)
		})
	}
}

// ofSwarm looks at agents as a swarm builds them.
func ofSwarm(t *vh.Trace, g *rand.Rand) {
	n := []int{2, 5, 30, 99, 100, 101, 120, 260}[g.Intn(8)]
	cfg := config.DefaultConfig()
	cfg.MaxNeighbors = min(cfg.MaxNeighbors, n-1)
	cfg.MinNeighbors = min(cfg.MinNeighbors, cfg.MaxNeighbors)
	cfg.CouplingStrength, cfg.Stubbornness, cfg.InfluenceDefault = share(g), share(g), share(g)
	cfg.InitialEnergy = 1 + g.Float64()*200
	cfg.AssumedMaxNeighbors = g.Intn(2) * (1 + g.Intn(30))
	want := config.Agent{DecisionMakerType: "simple", GoalManagerType: "weighted", ResourceManagerType: "token", StrategyType: "phase_nudge",
		MaxTokens: cfg.InitialEnergy, StrategyRate: cfg.CouplingStrength, InitialEnergy: cfg.InitialEnergy, Influence: cfg.InfluenceDefault,
		Stubbornness: cfg.Stubbornness, AssumedMaxNeighbors: cfg.AssumedMaxNeighbors, SwarmSize: n,
		RandomizePhase: true, RandomizeLocalGoal: true, RandomizeFrequency: true}
	s, err := swarm.New(n, core.State{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.8}, swarm.WithConfig(cfg))
	if err != nil {
		return
	}
	how := "plain"
	if n > 100 {
		how = "large"
	}
	var ph, goal, fr []int
	for k := range n {
		id := fmt.Sprintf("agent-%d", k)
		a, ok := s.Agent(id)
		if !ok {
			continue
		}
		ph, goal, fr = append(ph, vh.Ph(a.Phase())), append(goal, vh.Ph(a.LocalGoal())), append(fr, int(a.Frequency()))
	}
	for range 4 {
		id := fmt.Sprintf("agent-%d", g.Intn(n))
		a, ok := s.Agent(id)
		if !ok {
			continue
		}
		stub := a.Stubbornness()
		en := a.Energy()
		recordBuild(t, how, id, want, a, nil)
		move(t, a, g, true)
		a.SetStubbornness(stub)
		a.SetEnergy(en)
	}
	if a, ok := s.Agent("agent-0"); ok {
		perceive(t, a, g, -1)
	}
	if n >= 30 {
		t.Add("many", "rp", true, "rg", true, "rf", true, "ph", ph, "goal", goal, "fr", fr)
	}
}

func share(g *rand.Rand) float64 {
	if g.Intn(4) == 0 {
		return 0
	}
	return g.Float64()
}
