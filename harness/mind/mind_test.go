// Package mind drives strategies, decisions, goal blending and proposals.
package mind

import (
	"fmt"
	"math"
	"math/rand"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/decision"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/strategy"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 60 * time.Second

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	switch vh.UnitName() {
	case "moves":
		runMoves(t, r)
	case "decide":
		runDecide(r)
	default:
		t.Fatal("unknown unit")
	}
}

func odd(cur, tgt float64) bool {
	const e = 1e-10
	return math.Abs(tgt) < e && math.Abs(cur-3*math.Pi/2) < e || math.Abs(tgt-3*math.Pi/2) < e && math.Abs(cur) < e
}

type mover struct {
	kind   string
	rate   float64
	period time.Duration
	s      core.SyncStrategy
	t0     time.Time
}

func mk(kind string, rate float64, period time.Duration, t0 time.Time) *mover {
	m := &mover{kind: kind, rate: math.Max(0, math.Min(1, rate)), period: period, t0: t0}
	switch kind {
	case "nudge":
		m.s = strategy.NewPhaseNudge(rate)
	case "lock":
		m.s = strategy.NewFrequencyLock(rate)
	case "energy":
		m.s = strategy.NewEnergyAware(rate * 10)
	case "pulse":
		m.s = strategy.NewPulse(period, rate)
	}
	return m
}

func (m *mover) move(t *vh.Trace, cur, tgt float64, ctx core.Context) {
	a, conf := m.s.Propose(core.State{Phase: cur, Frequency: 100 * time.Millisecond, Coherence: 0.5},
		core.State{Phase: tgt, Frequency: 120 * time.Millisecond, Coherence: 0.9}, ctx)
	t.Add("move", "s", m.kind, "rate", vh.Micro(m.rate), "period", int(m.period/time.Microsecond), "at", int(time.Since(m.t0)/time.Microsecond),
		"cur", vh.PhMod(cur), "tgt", vh.PhMod(tgt), "odd", odd(cur, tgt), "type", a.Type, "v", vh.Ph(a.Value), "c", vh.Micro(a.Cost), "conf", vh.Micro(conf))
}

func randCtx(g *rand.Rand) core.Context {
	c := core.Context{Neighbors: g.Intn(9), Density: g.Float64(), Stability: g.Float64(), Progress: g.Float64(), LocalCoherence: g.Float64()}
	switch g.Intn(6) {
	case 0:
		c.LocalCoherence = 0
	case 1:
		c.LocalCoherence = 1
	case 2:
		c = core.Context{}
	}
	return c
}

func randPhase(g *rand.Rand) float64 {
	switch g.Intn(8) {
	case 0:
		return float64(g.Intn(9)) * math.Pi / 4
	case 1:
		return math.Nextafter(float64(g.Intn(5))*math.Pi/2, float64(g.Intn(2))*10)
	case 2:
		return (g.Float64() - 0.5) * 80
	}
	return g.Float64() * 2 * math.Pi
}

type spy struct {
	id     int
	calls  *[]int
	act    core.Action
	conf   float64
	cur    core.State
	tgt    core.State
	ctx    core.Context
	called int
}

func (s *spy) Propose(c, t core.State, x core.Context) (core.Action, float64) {
	s.called++
	s.cur, s.tgt, s.ctx = c, t, x
	if s.calls != nil {
		*s.calls = append(*s.calls, s.id)
	}
	return s.act, s.conf
}
func (s *spy) Name() string { return fmt.Sprintf("spy%d", s.id) }

func runMoves(tt *testing.T, r *vh.Recorder) {
	in := func(kind string, rate float64, period time.Duration, body func(t *vh.Trace, m *mover)) {
		r.Run(vh.Ev{"at": 0}, limit, func(t *vh.Trace) {
			synctest.Test(tt, func(*testing.T) {
				vh.Guard(t, func() { body(t, mk(kind, rate, period, time.Now())) })
			})
		})
	}
	for i, ops := range vh.Ops() {
		g := vh.Rng(i)
		o := ops[0]
		in(o.S("s"), float64(o.I("r"))/1000, 0, func(t *vh.Trace, m *mover) {
			m.move(t, float64(o.I("c"))*math.Pi/4+float64(o.I("dc"))*1e-5, float64(o.I("g"))*math.Pi/4+float64(o.I("dg"))*1e-5, randCtx(g))
		})
	}
	for i := range vh.N() {
		g := vh.Rng(i)
		kind := []string{"nudge", "lock", "energy", "pulse"}[i%4]
		rate := []float64{-1, 0, 0.1, 0.37, 0.5, 1, 1.5, g.Float64()}[g.Intn(8)]
		period := []time.Duration{-5, 0, 1, 10, 50, 100}[g.Intn(6)] * time.Millisecond
		in(kind, rate, period, func(t *vh.Trace, m *mover) {
			tgt := randPhase(g)
			for range 12 {
				switch g.Intn(6) {
				case 0:
				case 1:
					time.Sleep(period)
				case 2:
					time.Sleep(max(0, period-time.Millisecond))
				case 3:
					time.Sleep(max(0, period/2))
				case 4:
					time.Sleep(3 * max(0, period))
				case 5:
					time.Sleep(time.Millisecond)
				}
				if g.Intn(3) == 0 {
					tgt = randPhase(g)
				}
				cur := randPhase(g)
				switch g.Intn(8) {
				case 0:
					cur = tgt + (g.Float64()-0.5)*0.4
				case 1:
					cur = tgt
				case 2:
					cur = tgt + math.Pi + (g.Float64()-0.5)*1e-3
				}
				m.move(t, cur, tgt, randCtx(g))
			}
		})
		// adaptive
		r.Run(vh.Ev{"at": 0}, limit, func(t *vh.Trace) {
			for n := 0; n <= 4; n++ {
				calls := []int{}
				var ms []core.SyncStrategy
				var spies []*spy
				for k := range n {
					s := &spy{id: k, calls: &calls, act: core.Action{Type: fmt.Sprintf("t%d", k), Value: g.Float64(), Cost: g.Float64(), Benefit: g.Float64()}, conf: g.Float64()}
					spies = append(spies, s)
					ms = append(ms, s)
				}
				a := strategy.NewAdaptiveStrategy(ms)
				pick := -9
				if g.Intn(2) == 0 {
					pick = g.Intn(9) - 3
					a = a.WithSelector(func(core.Context) int { return pick })
				}
				ctx := randCtx(g)
				cur, tgt := core.State{Phase: 1}, core.State{Phase: 2, Coherence: 0.4}
				act, conf := a.Propose(cur, tgt, ctx)
				e := t.Add("adapt", "n", n, "pick", pick, "called", append([]int{}, calls...), "type", act.Type, "v", vh.Ph(act.Value), "same", false, "asked", false)
				if len(calls) == 1 && calls[0] < n {
					s := spies[calls[0]]
					e["same"] = act == s.act && conf == s.conf
					e["asked"] = s.cur == cur && s.tgt == tgt && s.ctx == ctx
				}
			}
		})
	}
}

func milli(x float64) int { return vh.Milli(x) }

func decide(t *vh.Trace, opts []core.Action, coh float64) {
	cp := append([]core.Action{}, opts...)
	d := &decision.SimpleDecisionMaker{}
	a, conf := d.Decide(core.State{Coherence: coh}, opts)
	q := []vh.Ev{}
	k := 0
	kept := true
	for i, o := range cp {
		q = append(q, vh.Ev{"b": milli(o.Benefit), "c": milli(o.Cost)})
		if k == 0 && o == a {
			k = i + 1
		}
		kept = kept && opts[i] == o
	}
	t.Add("decide", "opts", q, "k", k, "type", a.Type, "conf", vh.Micro(conf), "kept", kept)
}

func blend(t *vh.Trace, l, gl core.State, w float64) {
	m := &goal.WeightedManager{}
	o := m.Blend(l, gl, w)
	t.Add("blend", "cur", vh.PhMod(l.Phase), "tgt", vh.PhMod(gl.Phase), "odd", odd(l.Phase, gl.Phase), "w", vh.Micro(w), "ph", vh.PhMod(o.Phase),
		"circ", vh.OnCircle(o.Phase), "fr", o.Frequency == l.Frequency, "coh", vh.Micro(o.Coherence), "lc", vh.Micro(l.Coherence), "gc", vh.Micro(gl.Coherence))
}

type quant struct {
	ph, goal, en, inf, stub float64
	fr                      time.Duration
	n                       int
}

func q(a *agent.Agent) quant {
	return quant{a.Phase(), a.LocalGoal(), a.Energy(), a.Influence(), a.Stubbornness(), a.Frequency(), a.NeighborCount()}
}

type fixed struct {
	k   int
	acc float64
}

func (f fixed) Decide(_ core.State, o []core.Action) (core.Action, float64) { return o[f.k], f.acc }

func mgrid(g *rand.Rand, lo, hi int) float64 { return float64(lo+g.Intn(hi-lo+1)) / 1000 }

func runDecide(r *vh.Recorder) {
	h := func(body func(t *vh.Trace)) { r.Run(vh.Ev{"at": 0}, limit, body) }
	for i, ops := range vh.Ops() {
		o := ops[0]
		g := vh.Rng(i)
		h(func(t *vh.Trace) {
			if o.S("op") == "decide" {
				f := func(b, c string) core.Action {
					return core.Action{Type: b, Benefit: float64(o.I(b)) / 1000, Cost: float64(o.I(c)) / 1000, Value: g.Float64()}
				}
				decide(t, []core.Action{f("b1", "c1"), f("b2", "c2"), f("b3", "c3")}, g.Float64())
				return
			}
			l := core.State{Phase: float64(o.I("c"))*math.Pi/4 + float64(o.I("dc"))*1e-5, Frequency: time.Second, Coherence: g.Float64()}
			gl := core.State{Phase: float64(o.I("g"))*math.Pi/4 + float64(o.I("dg"))*1e-5, Frequency: 2 * time.Second, Coherence: g.Float64()}
			blend(t, l, gl, float64(o.I("w"))/1000)
		})
	}
	for i := range vh.N() {
		g := vh.Rng(i)
		h(func(t *vh.Trace) {
			var opts []core.Action
			for k := range g.Intn(7) {
				c := mgrid(g, 0, 3000)
				if g.Intn(3) == 0 {
					c = mgrid(g, -50, 120)
				}
				opts = append(opts, core.Action{Type: fmt.Sprintf("o%d", k), Benefit: mgrid(g, -1500, 2500), Cost: c, Value: g.Float64()})
				if k > 0 && g.Intn(3) == 0 {
					opts[k].Benefit, opts[k].Cost = opts[g.Intn(k)].Benefit, opts[g.Intn(k)].Cost
				}
			}
			decide(t, opts, g.Float64())
			blend(t, core.State{Phase: randPhase(g), Frequency: time.Duration(g.Intn(100)), Coherence: g.Float64()},
				core.State{Phase: randPhase(g), Frequency: time.Duration(g.Intn(100)), Coherence: g.Float64()}, []float64{-0.5, 0, 0.3, 1, 1.7, g.Float64()}[g.Intn(6)])
		})
		h(func(t *vh.Trace) { proposals(t, g) })
		h(func(t *vh.Trace) { contexts(t, g) })
	}
}

func proposals(t *vh.Trace, g *rand.Rand) {
	stub := []float64{0, 0, 1, 0.5, g.Float64()}[g.Intn(5)]
	cost := mgrid(g, 0, 3000)
	en := []float64{0, cost, math.Max(0, cost-0.001), cost + 0.001, 100, 0.05}[g.Intn(6)]
	sp := &spy{act: core.Action{Type: "adjust_phase", Value: g.Float64()*2 - 1, Cost: cost, Benefit: mgrid(g, -200, 6000)}, conf: []float64{0, 1, 1, 0.5, g.Float64()}[g.Intn(5)]}
	opts := []agent.Option{agent.WithStrategy(sp), agent.WithStubbornness(stub), agent.WithEnergy(en), agent.WithPhase(randPhase(g)), agent.WithLocalGoal(randPhase(g))}
	dec := "simple"
	fx := fixed{k: g.Intn(2), acc: []float64{0, 1, 1, 0.5}[g.Intn(4)]}
	if g.Intn(2) == 0 {
		dec = "fixed"
		opts = append(opts, agent.WithDecisionMaker(fx))
	}
	a := agent.New("p", opts...)
	a.SetEnergy(en)
	stab := 0.0
	if g.Intn(2) == 0 {
		b := agent.New("n", agent.WithPhase(randPhase(g)))
		a.ConnectTo("n", b)
		a.UpdateContext()
		stab = -1
	}
	for range 8 {
		p := q(a)
		sp.called = 0
		act, ok := a.ProposeAdjustment(core.State{Phase: randPhase(g), Frequency: time.Second, Coherence: g.Float64()})
		asked := sp.called == 0 || sp.called == 1 && math.Abs(sp.cur.Phase-p.ph) < 1e-9 && math.Abs(sp.tgt.Phase-p.goal) < 1e-9
		if sp.called > 0 {
			stab = sp.ctx.Stability
		}
		k := 0
		if act == sp.act {
			k = 1
		} else if act.Type == "maintain" && math.Abs(act.Cost-0.1) < 1e-12 {
			k = 2
		}
		acc := fx.acc
		if dec == "simple" {
			d := &decision.SimpleDecisionMaker{}
			_, acc = d.Decide(core.State{}, []core.Action{sp.act, {Type: "maintain", Cost: 0.1, Benefit: stab}})
		}
		t.Add("propose", "stub", vh.Micro(stub), "en", milli(en), "decider", dec, "dec", fx.k+1, "conf", vh.Micro(sp.conf), "acc", vh.Micro(acc),
			"prop", vh.Ev{"b": milli(sp.act.Benefit), "c": milli(cost)}, "ctx", vh.Ev{"stab": milli(stab)}, "ok", ok, "k", k, "type", act.Type,
			"v", vh.Ph(act.Value), "kept", q(a) == p, "asked", asked)
	}
}

func contexts(t *vh.Trace, g *rand.Rand) {
	a := agent.New("c", agent.WithPhase(randPhase(g)), agent.WithLocalGoal(randPhase(g)))
	for round := range 3 {
		mean := randPhase(g)
		pairs := [][]int{}
		var ids []string
		tight := true
		if g.Intn(5) > 0 {
			for k := range 1 + g.Intn(4) {
				d := g.Float64() * 1.4
				if g.Intn(3) == 0 {
					d = 0
				}
				tight = tight && d == 0
				x := agent.New(fmt.Sprintf("x%d-%d", round, k), agent.WithPhase(mean-d))
				y := agent.New(fmt.Sprintf("y%d-%d", round, k), agent.WithPhase(mean+d))
				for _, b := range []*agent.Agent{x, y} {
					if g.Intn(3) == 0 {
						a.Neighbors().Store(b.ID, b)
					} else {
						a.ConnectTo(b.ID, b)
					}
					ids = append(ids, b.ID)
				}
				pairs = append(pairs, []int{vh.PhMod(mean - d), vh.PhMod(mean + d)})
			}
		}
		p := q(a)
		a.UpdateContext()
		n := q(a)
		g2 := n.goal
		n.goal = p.goal
		t.Add("ctx", "cur", vh.PhMod(p.ph), "goal0", vh.PhMod(p.goal), "goal", vh.PhMod(g2), "pairs", pairs, "tight", tight, "kept", n == p)
		for _, id := range ids {
			a.DisconnectFrom(id)
		}
		a.SetPhase(randPhase(g))
	}
}
