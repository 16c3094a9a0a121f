// Package conc runs concurrent operations on agents and budgets.
package conc

import (
	"errors"
	"math"
	"math/rand"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/resource"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 120 * time.Second

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	switch vh.UnitName() {
	case "agentconc":
		runAgent(r)
	case "budget":
		runBudgetSeq(r)
	case "budgetconc":
		runBudget(r)
	default:
		t.Fatal("unknown unit")
	}
}

type opSpec struct {
	op, kind string
	v, x     float64
}

func aObs(a *agent.Agent) vh.Ev {
	return vh.Ev{"ph": vh.Ph(a.Phase()), "goal": vh.Ph(a.LocalGoal()), "en": vh.Micro(a.Energy()),
		"fr": int(a.Frequency().Microseconds()), "inf": vh.Micro(a.Influence()), "stub": vh.Micro(a.Stubbornness()), "bud": 0}
}

func aCall(a *agent.Agent, o opSpec) vh.Call {
	return func() vh.Ev {
		switch o.op {
		case "act":
			_, _, err := a.ApplyAction(core.Action{Type: o.kind, Value: o.v, Cost: o.x})
			res := "ok"
			switch {
			case errors.Is(err, core.ErrInsufficientEnergy):
				res = "energy"
			case errors.Is(err, core.ErrUnknownActionType):
				res = "unknown"
			case err != nil:
				res = "othererror"
			}
			return vh.Ev{"op": "act", "kind": o.kind, "v": vh.Ph(o.v), "x": vh.Micro(o.x), "res": res}
		case "SetPhase":
			a.SetPhase(o.x)
			return vh.Ev{"op": o.op, "x": vh.Ph(o.x)}
		case "SetLocalGoal":
			a.SetLocalGoal(o.x)
			return vh.Ev{"op": o.op, "x": vh.Ph(o.x)}
		case "SetEnergy":
			a.SetEnergy(o.x)
			return vh.Ev{"op": o.op, "x": vh.Micro(o.x)}
		case "SetFrequency":
			a.SetFrequency(time.Duration(o.x) * time.Microsecond)
			return vh.Ev{"op": o.op, "x": int(o.x)}
		case "SetInfluence":
			a.SetInfluence(o.x)
			return vh.Ev{"op": o.op, "x": vh.Micro(o.x)}
		case "SetStubbornness":
			a.SetStubbornness(o.x)
			return vh.Ev{"op": o.op, "x": vh.Micro(o.x)}
		case "Phase":
			return vh.Ev{"op": o.op, "x": vh.Ph(a.Phase())}
		case "LocalGoal":
			return vh.Ev{"op": o.op, "x": vh.Ph(a.LocalGoal())}
		case "Energy":
			return vh.Ev{"op": o.op, "x": vh.Micro(a.Energy())}
		case "Frequency":
			return vh.Ev{"op": o.op, "x": int(a.Frequency().Microseconds())}
		case "Influence":
			return vh.Ev{"op": o.op, "x": vh.Micro(a.Influence())}
		}
		return vh.Ev{"op": o.op, "x": vh.Micro(a.Stubbornness())}
	}
}

func randOp(rng *rand.Rand, focus int) opSpec {
	ph := float64(rng.Intn(16)) * math.Pi / 8
	kinds := []string{"adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse", "maintain"}
	act := func() opSpec {
		return opSpec{op: "act", kind: kinds[rng.Intn(len(kinds))], v: ph, x: float64(rng.Intn(5))}
	}
	switch focus {
	case 0: // actions competing for energy
		if rng.Intn(5) == 0 {
			return opSpec{op: "Energy"}
		}
		return act()
	case 1: // behaviour pair
		switch rng.Intn(5) {
		case 0, 1:
			return opSpec{op: "SetInfluence", x: float64(rng.Intn(9)) / 8}
		case 2, 3:
			return opSpec{op: "SetStubbornness", x: float64(rng.Intn(9)) / 8}
		}
		return opSpec{op: []string{"Influence", "Stubbornness"}[rng.Intn(2)]}
	}
	switch rng.Intn(8) {
	case 0:
		return opSpec{op: "SetPhase", x: ph}
	case 1:
		return opSpec{op: "SetLocalGoal", x: ph}
	case 2:
		return opSpec{op: "SetEnergy", x: float64(rng.Intn(8))}
	case 3:
		return opSpec{op: "SetFrequency", x: float64(1000 * (1 + rng.Intn(90)))}
	case 4:
		return opSpec{op: []string{"Phase", "LocalGoal", "Energy", "Frequency"}[rng.Intn(4)]}
	}
	return act()
}

// Every scenario is a fixed set of thread programs, run many times; each
// distinct outcome is recorded once.
func runAgent(r *vh.Recorder) {
	for k := range vh.N() / 2 {
		rng := vh.Rng(500000 + k)
		r.Run(nil, limit, func(t *vh.Trace) { bulk(t, rng) })
	}
	reps := 1500
	if vh.Thorough() {
		reps = 12000
	}
	for k := range vh.N() {
		rng := vh.Rng(k)
		nth := 2 + rng.Intn(3)
		nops := 3
		if nth == 4 {
			nops = 2
		}
		focus := k % 4
		prog := make([][]opSpec, nth)
		for i := range prog {
			for range nops {
				prog[i] = append(prog[i], randOp(rng, focus))
			}
		}
		en := float64(2 + rng.Intn(6))
		r.Run(nil, limit, func(t *vh.Trace) {
			seen := vh.Dedup{}
			for rep, stop := 0, vh.Until(reps); rep < reps && time.Now().Before(stop); rep++ {
				a := agent.New("x", agent.WithPhase(0), agent.WithLocalGoal(1), agent.WithEnergy(en), agent.WithInfluence(0.5),
					agent.WithStubbornness(0.25), agent.WithFrequency(time.Millisecond))
				init := aObs(a)
				th := make([][]vh.Call, nth)
				for i := range prog {
					for _, o := range prog[i] {
						th[i] = append(th[i], aCall(a, o))
					}
				}
				stamps := rep%100 == 0
				out := vh.Round(th, stamps)
				e := vh.Ev{"op": "round", "init": init, "th": out, "fin": aObs(a)}
				if seen.New(e) {
					t.Ev = append(t.Ev, e)
				}
			}
		})
	}
}

// bulk: heavy contention with operations whose outcome does not depend on the order.
func bulk(t *vh.Trace, rng *rand.Rand) {
	nth, per := 4+rng.Intn(5), 400
	c := float64(1 + rng.Intn(3))
	en0 := c * float64(nth*per) * []float64{0.3, 0.9, 1, 2}[rng.Intn(4)]
	en0 = math.Floor(en0)
	if en0 > 1900 {
		c, en0 = 0.25, math.Floor(en0/16)
	}
	v := math.Pi / 8
	kinds := []string{"adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse"}
	a := agent.New("x", agent.WithPhase(0), agent.WithLocalGoal(1), agent.WithEnergy(en0), agent.WithInfluence(0.5),
		agent.WithStubbornness(0.25), agent.WithFrequency(time.Millisecond))
	succ, refused := make([]int, nth), make([]int, nth)
	stale := make([]int, 4)
	var goal, inf, stub float64
	var fr time.Duration
	th := make([][]vh.Call, nth+4)
	for i := range nth {
		kind := kinds[rng.Intn(len(kinds))]
		th[i] = []vh.Call{func() vh.Ev {
			for range per {
				ok, _, err := a.ApplyAction(core.Action{Type: kind, Value: v, Cost: c})
				if ok && err == nil {
					succ[i]++
				} else if errors.Is(err, core.ErrInsufficientEnergy) {
					refused[i]++
				}
			}
			return vh.Ev{}
		}}
	}
	// half of the time the perception is renewed instead of the preferred phase set
	perceive := rng.Intn(2) == 0
	if perceive {
		for k := range 1 + rng.Intn(25) {
			id := string(rune('a' + k))
			a.ConnectTo(id, agent.New(id, agent.WithPhase(rng.Float64()*6)))
		}
	}
	th[nth] = []vh.Call{func() vh.Ev {
		for k := range per {
			if perceive {
				a.UpdateContext()
				continue
			}
			goal = float64(k%60) / 10
			a.SetLocalGoal(goal)
			if math.Abs(a.LocalGoal()-goal) > 1e-9 {
				stale[0]++
			}
		}
		return vh.Ev{}
	}}
	th[nth+1] = []vh.Call{func() vh.Ev {
		for k := range per {
			fr = time.Duration(k+1) * time.Millisecond
			a.SetFrequency(fr)
			if a.Frequency() != fr {
				stale[1]++
			}
		}
		return vh.Ev{}
	}}
	th[nth+2] = []vh.Call{func() vh.Ev {
		for k := range per {
			inf = float64(k%64) / 64
			a.SetInfluence(inf)
			if a.Influence() != inf {
				stale[2]++
			}
		}
		return vh.Ev{}
	}}
	th[nth+3] = []vh.Call{func() vh.Ev {
		for k := range per {
			stub = float64(k%32) / 32
			a.SetStubbornness(stub)
			if a.Stubbornness() != stub {
				stale[3]++
			}
		}
		return vh.Ev{}
	}}
	vh.Round(th, false)
	if perceive {
		goal = a.LocalGoal()
	}
	s, rf := 0, 0
	for i := range nth {
		s += succ[i]
		rf += refused[i]
	}
	t.Add("bulk", "n", nth*per, "c", vh.Micro(c), "en0", vh.Micro(en0), "v", vh.Ph(v), "succ", s, "refused", rf,
		"en", vh.Micro(a.Energy()), "ph", vh.Ph(a.Phase()), "goal", vh.Ph(a.LocalGoal()), "wgoal", vh.Ph(goal),
		"fr", int(a.Frequency().Microseconds()), "wfr", int(fr.Microseconds()), "inf", vh.Micro(a.Influence()), "winf", vh.Micro(inf),
		"stub", vh.Micro(a.Stubbornness()), "wstub", vh.Micro(stub), "stale", stale[0]+stale[1]+stale[2]+stale[3])
}

// ---- budgets ----

func bCall(m *resource.TokenManager, op string, x float64) vh.Call {
	return func() vh.Ev {
		switch op {
		case "Request":
			return vh.Ev{"op": op, "x": vh.Micro(x), "res": vh.Micro(m.Request(x))}
		case "Release":
			m.Release(x)
			return vh.Ev{"op": op, "x": vh.Micro(x)}
		}
		return vh.Ev{"op": op, "res": vh.Micro(m.Available())}
	}
}

func runBudget(r *vh.Recorder) {
	reps := 1500
	if vh.Thorough() {
		reps = 12000
	}
	for k := range vh.N() {
		rng := vh.Rng(k)
		nth := 2 + rng.Intn(3)
		nops := 3
		if nth == 4 {
			nops = 2
		}
		type bo struct {
			op string
			x  float64
		}
		prog := make([][]bo, nth)
		for i := range prog {
			for range nops {
				prog[i] = append(prog[i], bo{[]string{"Request", "Request", "Release", "Release", "Available"}[rng.Intn(5)], float64(rng.Intn(6)) - 0.5*float64(rng.Intn(2))})
			}
		}
		max := float64(2 + rng.Intn(8))
		used := float64(rng.Intn(4))
		r.Run(nil, limit, func(t *vh.Trace) {
			seen := vh.Dedup{}
			for rep, stop := 0, vh.Until(reps); rep < reps && time.Now().Before(stop); rep++ {
				m := resource.NewTokenManager(max)
				m.Request(used)
				init := vh.Ev{"av": vh.Micro(m.Available()), "max": vh.Micro(max)}
				th := make([][]vh.Call, nth)
				for i := range prog {
					for _, o := range prog[i] {
						th[i] = append(th[i], bCall(m, o.op, o.x))
					}
				}
				out := vh.Round(th, rep%100 == 0)
				e := vh.Ev{"op": "round", "init": init, "th": out, "fin": vh.Ev{"av": vh.Micro(m.Available())}}
				if seen.New(e) {
					t.Ev = append(t.Ev, e)
				}
			}
		})
	}
}

func runBudgetSeq(r *vh.Recorder) {
	for k := range vh.N() {
		rng := vh.Rng(k)
		r.Run(nil, limit, func(t *vh.Trace) {
			max := []float64{0, 1, 100, rng.Float64() * 500, -rng.Float64() * 5, -1}[rng.Intn(6)]
			m := resource.NewTokenManager(max)
			t.Add("New", "x", vh.Micro(max), "o", vh.Micro(m.Available()))
			top := math.Max(0, max)
			for range 10 + rng.Intn(30) {
				av := m.Available()
				var x float64
				switch rng.Intn(9) {
				case 0:
					x = 0
				case 1:
					x = -rng.Float64() * 10
				case 2:
					x = av
				case 3:
					x = math.Nextafter(av, math.Inf(1))
				case 4:
					x = top - av
				case 5:
					x = 1500
				default:
					x = rng.Float64() * top * 0.7
				}
				if rng.Intn(2) == 0 {
					res := m.Request(x)
					t.Add("Request", "x", vh.Micro(x), "res", vh.Micro(res), "o", vh.Micro(m.Available()),
						"rok", res >= 0 && res <= av && (x <= 0 || res <= x), "inb", m.Available() >= 0 && m.Available() <= top)
				} else {
					m.Release(x)
					t.Add("Release", "x", vh.Micro(x), "o", vh.Micro(m.Available()), "inb", m.Available() >= 0 && m.Available() <= top)
				}
			}
		})
	}
}
