package agent

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/internal/resource"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 60 * time.Second

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	switch vh.UnitName() {
	case "agent":
		runAgent(r)
	default:
		t.Fatal("unknown unit")
	}
}

type sut struct {
	a  *agent.Agent
	rm *resource.TokenManager
	n  int
}

func freqU(d time.Duration) int {
	x := d.Microseconds()
	if x > vh.Huge {
		x = vh.Huge
	}
	if x < -vh.Huge {
		x = -vh.Huge
	}
	return int(x)
}

func (s *sut) obs() vh.Ev {
	a := s.a
	bud := 0
	if s.rm != nil {
		bud = vh.Micro(s.rm.Available())
	}
	return vh.Ev{
		"ph": vh.Ph(a.Phase()), "goal": vh.Ph(a.LocalGoal()), "en": vh.Micro(a.Energy()), "fr": freqU(a.Frequency()),
		"inf": vh.Micro(a.Influence()), "stub": vh.Micro(a.Stubbornness()), "bud": bud,
		"okph": vh.OnCircle(a.Phase()), "okgoal": vh.OnCircle(a.LocalGoal()), "oken": a.Energy() >= 0,
		"okinf": vh.Unit(a.Influence()), "okstub": vh.Unit(a.Stubbornness()),
	}
}

// set performs a setter; x is the value given.
func (s *sut) set(t *vh.Trace, op string, x float64) {
	p := s.obs()
	xi, exact := project(op, x)
	switch op {
	case "SetPhase":
		s.a.SetPhase(x)
	case "SetLocalGoal":
		s.a.SetLocalGoal(x)
	case "SetEnergy":
		s.a.SetEnergy(x)
	case "SetFrequency":
		s.a.SetFrequency(time.Duration(x))
	case "SetInfluence":
		s.a.SetInfluence(x)
	case "SetStubbornness":
		s.a.SetStubbornness(x)
	}
	t.Add(op, "x", xi, "exact", exact, "p", p, "o", s.obs())
}

func project(op string, x float64) (int, bool) {
	switch op {
	case "SetPhase", "SetLocalGoal":
		return vh.PhMod(x), math.Abs(x) <= 100
	case "SetFrequency":
		return freqU(time.Duration(x)), true
	}
	return vh.Micro(x), true
}

func (s *sut) act(t *vh.Trace, kind string, v, c float64) {
	p := s.obs()
	afford := c <= s.a.Energy()
	ok, cost, err := s.a.ApplyAction(core.Action{Type: kind, Value: v, Cost: c, Benefit: 0.3})
	res := "ok"
	switch {
	case errors.Is(err, core.ErrInsufficientEnergy):
		res = "energy"
	case errors.Is(err, core.ErrUnknownActionType):
		res = "unknown"
	case err != nil:
		res = "othererror"
	}
	t.Add("act", "kind", kind, "v", vh.PhMod(v), "c", vh.Micro(c), "afford", afford, "exact", math.Abs(v) <= 100,
		"res", res, "okflag", ok, "cost", vh.Micro(cost), "p", p, "o", s.obs())
}

func (s *sut) ctx(t *vh.Trace, n int, rng *rand.Rand) {
	p := s.obs()
	for i := range n {
		s.n++
		o := agent.New(fmt.Sprintf("n%d", s.n), agent.WithPhase(rng.Float64()*7))
		if i%2 == 0 {
			s.a.ConnectTo(o.ID, o)
		} else {
			s.a.Neighbors().Store(o.ID, o)
		}
	}
	s.a.UpdateContext()
	t.Add("ctx", "n", n, "p", p, "o", s.obs())
}

func (s *sut) propose(t *vh.Trace, rng *rand.Rand) {
	p := s.obs()
	s.a.ProposeAdjustment(core.State{Phase: rng.Float64() * 6, Frequency: time.Second, Coherence: rng.Float64()})
	t.Add("propose", "p", p, "o", s.obs())
}

var kinds = []string{"adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse", "maintain"}
var setters = []string{"SetPhase", "SetLocalGoal", "SetEnergy", "SetFrequency", "SetInfluence", "SetStubbornness"}

func runAgent(r *vh.Recorder) {
	for k, seq := range vh.Ops() {
		rng := vh.Rng(k)
		r.Run(nil, limit, func(t *vh.Trace) {
			rm := resource.NewTokenManager(3)
			s := &sut{a: agent.New("x", agent.WithPhase(0), agent.WithResourceManager(rm), agent.WithEnergy(3),
				agent.WithInfluence(0), agent.WithStubbornness(1)), rm: rm}
			for _, o := range seq {
				switch o.S("op") {
				case "act":
					kind := o.S("kind")
					s.act(t, kind, float64(o.I("v"))*math.Pi/4, float64(o.I("c")))
				case "ctx":
					s.ctx(t, o.I("n"), rng)
				default:
					x := float64(o.I("x"))
					switch o.S("op") {
					case "SetPhase", "SetLocalGoal":
						x *= math.Pi / 4
					case "SetFrequency":
						x *= 1e6
					case "SetInfluence", "SetStubbornness":
						x /= 2
					}
					s.set(t, o.S("op"), x)
				}
			}
		})
	}
	for k := range vh.N() {
		rng := vh.Rng(1000000 + k)
		r.Run(nil, limit, func(t *vh.Trace) { randomLife(t, rng) })
	}
}

func richPhase(rng *rand.Rand) float64 {
	tp := 2 * math.Pi
	switch rng.Intn(12) {
	case 0:
		return 0
	case 1:
		return tp * float64(rng.Intn(9)-4)
	case 2:
		return -math.Pow(10, -float64(rng.Intn(320)))
	case 3:
		return math.Nextafter(tp, 0)
	case 4:
		return -math.Nextafter(tp, 0)
	case 5:
		return math.Nextafter(tp, 10)
	case 6:
		return (rng.Float64() - 0.5) * 1e5
	case 7:
		return (rng.Float64() - 0.5) * math.Pow(10, float64(rng.Intn(300)))
	case 8:
		return []float64{math.MaxFloat64, -math.MaxFloat64, 5e-324, -5e-324, math.Copysign(0, -1)}[rng.Intn(5)]
	case 9:
		return float64(rng.Intn(17)-8) * math.Pi / 4
	default:
		return (rng.Float64() - 0.5) * 200
	}
}

func richUnit(rng *rand.Rand) float64 {
	switch rng.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return math.Nextafter(1, 2)
	case 3:
		return -5e-324
	case 4:
		return (rng.Float64() - 0.5) * 1e9
	case 5:
		return []float64{math.MaxFloat64, -math.MaxFloat64}[rng.Intn(2)]
	default:
		return rng.Float64()*1.4 - 0.2
	}
}

func richEnergy(rng *rand.Rand) float64 {
	switch rng.Intn(8) {
	case 0:
		return 0
	case 1:
		return -rng.Float64() * 100
	case 2:
		return math.Pow(10, float64(rng.Intn(7)-5))
	case 3:
		return 5e-324
	case 4:
		return -math.MaxFloat64
	default:
		return rng.Float64() * 300
	}
}

func richFreq(rng *rand.Rand) float64 {
	if rng.Intn(6) == 0 {
		return 0
	}
	return math.Round(rng.Float64() * 1e9)
}

func richFor(op string, rng *rand.Rand) float64 {
	switch op {
	case "SetPhase", "SetLocalGoal":
		return richPhase(rng)
	case "SetEnergy":
		return richEnergy(rng)
	case "SetFrequency":
		return richFreq(rng)
	}
	return richUnit(rng)
}

func opt(op string, x float64) agent.Option {
	switch op {
	case "SetPhase":
		return agent.WithPhase(x)
	case "SetLocalGoal":
		return agent.WithLocalGoal(x)
	case "SetEnergy":
		return agent.WithEnergy(x)
	case "SetFrequency":
		return agent.WithFrequency(time.Duration(x))
	case "SetInfluence":
		return agent.WithInfluence(x)
	}
	return agent.WithStubbornness(x)
}

func wants(m map[string]float64) []vh.Ev {
	w := []vh.Ev{}
	for _, op := range setters {
		if x, ok := m[op]; ok {
			xi, exact := project(op, x)
			w = append(w, vh.Ev{"op": op, "x": xi, "exact": exact})
		}
	}
	return w
}

// build makes an agent in one of the public ways with rich values.
func build(t *vh.Trace, rng *rand.Rand) *sut {
	s := &sut{}
	m := map[string]float64{}
	switch rng.Intn(4) {
	case 0, 1:
		var opts []agent.Option
		for range rng.Intn(9) {
			switch rng.Intn(10) {
			case 0:
				opts = append(opts, agent.WithRandomPhase())
				delete(m, "SetPhase")
			case 1:
				opts = append(opts, agent.WithRandomLocalGoal())
				delete(m, "SetLocalGoal")
			case 2:
				opts = append(opts, agent.WithRandomFrequency())
				delete(m, "SetFrequency")
			case 3:
				s.rm = resource.NewTokenManager(math.Abs(richEnergy(rng)) + 0.5)
				opts = append(opts, agent.WithResourceManager(s.rm))
				m["SetEnergy"] = s.rm.Available()
			default:
				op := setters[rng.Intn(len(setters))]
				x := richFor(op, rng)
				opts = append(opts, opt(op, x))
				m[op] = x
			}
		}
		s.a = agent.New("x", opts...)
	default:
		cfg := config.Agent{
			Phase: richPhase(rng), LocalGoal: richPhase(rng), Frequency: time.Duration(richFreq(rng)),
			InitialEnergy: richEnergy(rng), Influence: richUnit(rng), Stubbornness: richUnit(rng),
			StrategyRate: 0.3, SwarmSize: rng.Intn(300), RandomizePhase: rng.Intn(4) == 0,
			RandomizeLocalGoal: rng.Intn(4) == 0, RandomizeFrequency: rng.Intn(4) == 0,
			StrategyType: []string{"", "phase_nudge", "frequency_lock", "energy_aware", "adaptive", "pulse"}[rng.Intn(6)],
			MaxTokens:    float64(rng.Intn(2) * 50),
		}
		optimized := rng.Intn(2) == 0
		if !cfg.RandomizePhase {
			m["SetPhase"] = cfg.Phase
		}
		if !cfg.RandomizeLocalGoal && cfg.LocalGoal != 0 {
			m["SetLocalGoal"] = cfg.LocalGoal
		}
		if !cfg.RandomizeFrequency && cfg.Frequency != 0 {
			m["SetFrequency"] = float64(cfg.Frequency)
		}
		if cfg.InitialEnergy != 0 {
			m["SetEnergy"] = cfg.InitialEnergy
		}
		if cfg.Influence != 0 {
			m["SetInfluence"] = cfg.Influence
		}
		if cfg.Stubbornness != 0 {
			m["SetStubbornness"] = cfg.Stubbornness
		}
		if optimized {
			cfg.StrategyType = []string{"", "phase_nudge", "frequency_lock", "energy_aware"}[rng.Intn(4)]
			if rng.Intn(2) == 0 {
				cfg.ResourceManagerType = "token"
			}
			s.a, _ = agent.NewOptimizedFromConfig("x", cfg)
		} else {
			s.a, _ = agent.NewFromConfig("x", cfg)
		}
	}
	if s.a == nil {
		t.Add("PANIC", "msg", "constructor returned no agent")
		return nil
	}
	t.Add("New", "want", wants(m), "o", s.obs())
	return s
}

func randomLife(t *vh.Trace, rng *rand.Rand) {
	s := build(t, rng)
	if s == nil {
		return
	}
	for range 12 + rng.Intn(20) {
		switch rng.Intn(10) {
		case 0, 1, 2, 3:
			op := setters[rng.Intn(len(setters))]
			s.set(t, op, richFor(op, rng))
		case 4:
			s.ctx(t, rng.Intn(4), rng)
		case 5:
			s.propose(t, rng)
		default:
			kind := kinds[rng.Intn(len(kinds))]
			if rng.Intn(8) == 0 {
				kind = []string{"", "Maintain", "adjust", "bogus", "phase_nudge "}[rng.Intn(5)]
			}
			e := s.a.Energy()
			var c float64
			switch rng.Intn(8) {
			case 0:
				c = e
			case 1:
				c = math.Nextafter(e, math.Inf(1))
			case 2:
				c = math.Nextafter(e, 0)
			case 3:
				c = 0
			case 4:
				c = e + rng.Float64()*10
			default:
				c = rng.Float64() * math.Min(e, 20)
			}
			s.act(t, kind, richPhase(rng), c)
		}
	}
}
