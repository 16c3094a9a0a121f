package poolx

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

// keep holds on to every agent seen, so that an address names one agent.
var keep = map[*agent.Agent]int{}

// probe sees what an agent decides on.
type probe struct {
	mu     sync.Mutex
	called bool
	stab   float64
	ctx    core.Context
}

func (p *probe) Decide(_ core.State, opts []core.Action) (core.Action, float64) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.called = true
	for _, o := range opts {
		if o.Type == "maintain" {
			p.stab = o.Benefit
		}
	}
	return core.Action{Type: "maintain"}, 0.5
}

func (p *probe) Propose(_, _ core.State, ctx core.Context) (core.Action, float64) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.ctx = ctx
	return core.Action{Type: "phase_nudge", Value: 0.01, Cost: 0.1, Benefit: 0.5}, 0.9
}
func (p *probe) Name() string { return "probe" }

type ctrs struct {
	g, p, n uint64
	u       int64
}

func now() ctrs {
	var c ctrs
	c.g, c.p, c.n, c.u = agent.Pool.Stats()
	return c
}

func (c ctrs) since(b ctrs) vh.Ev {
	return vh.Ev{"gets": int(c.g - b.g), "puts": int(c.p - b.p), "news": int(c.n - b.n), "inuse": int(c.u - b.u)}
}

// look records what a taken agent shows; old are agents it may have known.
func look(a *agent.Agent, id string, old []*agent.Agent) vh.Ev {
	part := 0
	for _, o := range old {
		if a.IsConnectedTo(o.ID) {
			part++
		}
	}
	for k := range 60 {
		if a.IsConnectedTo(fmt.Sprintf("n%d", k)) {
			part++
		}
	}
	m := 0
	a.Neighbors().Range(func(_, _ any) bool { m++; return true })
	return vh.Ev{"named": a.ID == id, "nb": a.NeighborCount(), "map": m, "part": part, "en": vh.Micro(a.Energy()),
		"okph": vh.OnCircle(a.Phase()), "okgoal": vh.OnCircle(a.LocalGoal()), "okinf": vh.Unit(a.Influence()),
		"okstub": vh.Unit(a.Stubbornness()), "okfr": a.Frequency() >= 100*time.Millisecond && a.Frequency() <= 150*time.Millisecond}
}

// others are agents the taken ones get connected to.
var others = func() []*agent.Agent {
	r := make([]*agent.Agent, 60)
	for k := range r {
		r[k] = agent.New(fmt.Sprintf("n%d", k))
	}
	return r
}()

func use(a *agent.Agent, how string, rng *rand.Rand) {
	switch how {
	case "set":
		a.SetPhase(rng.Float64() * 20)
		a.SetLocalGoal(-rng.Float64())
		a.SetEnergy(rng.Float64() * 5)
		a.SetFrequency(time.Duration(rng.Intn(1000)) * time.Millisecond)
		a.SetInfluence(rng.Float64())
		a.SetStubbornness(rng.Float64())
	case "link":
		for range 1 + rng.Intn(4) {
			o := others[rng.Intn(20)]
			a.ConnectTo(o.ID, o)
		}
	case "many":
		for k := range 21 + rng.Intn(39) {
			a.ConnectTo(others[k].ID, others[k])
		}
	case "map":
		o := others[rng.Intn(60)]
		a.Neighbors().Store(o.ID, o)
	case "ctx":
		if a.NeighborCount() == 0 {
			a.ConnectTo("n3", others[3])
		}
		a.UpdateContext()
	case "act":
		_, _, _ = a.ApplyAction(core.Action{Type: "phase_nudge", Value: rng.Float64() * 9, Cost: rng.Float64() * 3})
	case "drain":
		_, _, _ = a.ApplyAction(core.Action{Type: "adjust_phase", Value: 1, Cost: a.Energy()})
	case "mindless":
		a.SetDecisionMaker(nil)
	case "mind":
		a.SetDecisionMaker(&probe{})
	}
}

// seq is one history on the global pool; its counters start at the history.
type seq struct {
	t      *vh.Trace
	base   ctrs
	places map[int]*agent.Agent
	n      int
	rng    *rand.Rand
	lent   []*agent.Agent
	probes map[*agent.Agent]*probe
	seen   map[*agent.Agent]bool
}

func (s *seq) id(a *agent.Agent) int {
	if keep[a] == 0 {
		keep[a] = len(keep) + 1
	}
	return keep[a]
}

func (s *seq) take(place int) {
	id := fmt.Sprintf("a%d", s.n)
	s.n++
	before := len(keep)
	a := agent.Pool.Get(id)
	k := s.id(a)
	o := look(a, id, s.lent)
	for n, v := range now().since(s.base) {
		o[n] = v
	}
	s.places[place] = a
	// agents from before this history are not new ones: tell the specification
	if len(keep) == before && !s.seen[a] {
		s.t.Ev = append(s.t.Ev, vh.Ev{"op": "known", "a": k})
	}
	s.seen[a] = true
	s.t.Add("take", "a", k, "o", o)
}

// try uses a taken agent at once.
func (s *seq) try(a *agent.Agent) {
	a.SetStubbornness(0)
	ok := true
	for range 3 {
		act, yes := a.ProposeAdjustment(core.State{Phase: 1, Frequency: time.Second, Coherence: 0.9})
		if yes {
			_, _, err := a.ApplyAction(act)
			ok = ok && err == nil
		}
	}
	yes, cost, err := a.ApplyAction(core.Action{Type: "maintain", Cost: 0.5})
	s.t.Add("try", "ok", ok && yes && err == nil && cost == 0.5)
}

// probe shows the context of a taken agent.
func (s *seq) probe(a *agent.Agent) {
	p := &probe{}
	a.SetStubbornness(0)
	a.SetDecisionMaker(p)
	a.ProposeAdjustment(core.State{Phase: 1, Frequency: time.Second, Coherence: 0.9})
	e := []any{"called", p.called, "stab", vh.Micro(p.stab), "dens", 0, "cnb", 0}
	if q := s.probes[a]; q != nil {
		e = []any{"called", p.called, "stab", vh.Micro(q.ctx.Stability), "dens", vh.Micro(q.ctx.Density) + vh.Micro(q.ctx.LocalCoherence), "cnb", q.ctx.Neighbors}
	}
	s.t.Add("probe", e...)
}

func (s *seq) give(place int) {
	a := s.places[place]
	if a == nil {
		return
	}
	delete(s.places, place)
	agent.Pool.Put(a)
	s.t.Add("give", "a", s.id(a), "o", now().since(s.base))
}

// lend puts an agent into the pool that was not taken from it.
func (s *seq) lend() {
	q := &probe{}
	a := agent.New("foreign", agent.WithStrategy(q), agent.WithEnergy(s.rng.Float64()*300))
	use(a, "link", s.rng)
	use(a, "ctx", s.rng)
	s.probes[a] = q
	s.seen[a] = true
	s.lent = append(s.lent, others[3])
	agent.Pool.Put(a)
	s.t.Add("give", "a", s.id(a), "o", now().since(s.base))
}

func (s *seq) do(op string, v int) {
	switch op {
	case "take":
		if s.places[v] == nil {
			s.take(v)
			switch s.rng.Intn(3) {
			case 0:
				s.try(s.places[v])
			case 1:
				s.probe(s.places[v])
			}
		}
	case "give":
		s.give(v)
	case "lend":
		s.lend()
	case "none":
		agent.Pool.Put(nil)
		s.t.Add("none", "o", now().since(s.base))
	default:
		if a := s.places[v]; a != nil {
			use(a, op, s.rng)
		}
	}
}

var probes = map[*agent.Agent]*probe{}

func runAgentPool(r *vh.Recorder) {
	turn := 0
	hist := func(rng *rand.Rand, body func(s *seq)) {
		if turn++; turn%4 != 0 {
			// two collections empty the pool
			runtime.GC()
			runtime.GC()
		}
		r.Run(vh.Ev{}, limit, func(t *vh.Trace) {
			s := &seq{t: t, base: now(), places: map[int]*agent.Agent{}, rng: rng, probes: probes, seen: map[*agent.Agent]bool{}}
			body(s)
			for p := range s.places {
				s.give(p)
			}
		})
	}
	for i, ops := range vh.Ops() {
		hist(vh.Rng(i), func(s *seq) {
			for _, o := range ops {
				if o.S("op") != "end" {
					s.do(o.S("op"), o.I("v"))
				}
			}
		})
	}
	all := []string{"take", "take", "take", "give", "give", "set", "link", "many", "map", "ctx", "act", "drain", "mind", "mindless", "lend", "none"}
	for i := range vh.N() {
		rng := vh.Rng(i)
		hist(rng, func(s *seq) {
			for range 10 + rng.Intn(60) {
				s.do(all[rng.Intn(len(all))], 1+rng.Intn(6))
			}
		})
	}
}

// runAgentBurst lets several owners take, use and return agents at once.
func runAgentBurst(r *vh.Recorder) {
	seen := vh.Dedup{}
	for i := range vh.N() {
		owners, each := 2+i%7, 40
		t := &vh.Trace{H: vh.Ev{"u": 0}, Ev: []vh.Ev{}}
		vh.Guard(t, func() {
			base := now()
			var held, all sync.Map
			var double, dirty, takes, gives, fresh atomic.Int32
			var wg sync.WaitGroup
			gate := make(chan struct{})
			var bad atomic.Value
			for o := range owners {
				wg.Add(1)
				rng := vh.Rng(i*100 + o)
				go func() {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							bad.Store(fmt.Sprint(p))
						}
					}()
					var mine []*agent.Agent
					<-gate
					for k := range each {
						if len(mine) < 3 && rng.Intn(3) > 0 {
							id := fmt.Sprintf("o%d-%d", o, k)
							a := agent.Pool.Get(id)
							takes.Add(1)
							if _, was := held.LoadOrStore(a, o); was {
								double.Add(1)
							}
							if _, was := all.LoadOrStore(a, 1); !was {
								fresh.Add(1)
							}
							e := look(a, id, nil)
							if e["named"] != true || e["nb"] != 0 || e["map"] != 0 || e["part"] != 0 || e["en"] != 100000000 ||
								e["okph"] != true || e["okgoal"] != true || e["okinf"] != true || e["okstub"] != true || e["okfr"] != true {
								dirty.Add(1)
							}
							mine = append(mine, a)
							use(a, []string{"set", "link", "many", "map", "ctx", "drain", "mind"}[rng.Intn(7)], rng)
							a.ProposeAdjustment(core.State{Phase: 1, Frequency: time.Second, Coherence: 0.9})
							if a.ID != id {
								dirty.Add(1)
							}
						} else if len(mine) > 0 {
							a := mine[0]
							mine = mine[1:]
							held.Delete(a)
							agent.Pool.Put(a)
							gives.Add(1)
						}
					}
					for _, a := range mine {
						held.Delete(a)
						agent.Pool.Put(a)
						gives.Add(1)
					}
				}()
			}
			close(gate)
			wg.Wait()
			// agents taken here for the first time that an earlier round had made are not new
			old := 0
			all.Range(func(k, _ any) bool {
				a := k.(*agent.Agent)
				if keep[a] > 0 {
					old++
				} else {
					keep[a] = len(keep) + 1
				}
				return true
			})
			if p := bad.Load(); p != nil {
				panic(p)
			}
			e := now().since(base)
			t.Add("burst", "double", int(double.Load()), "dirty", int(dirty.Load()), "takes", int(takes.Load()), "gives", int(gives.Load()),
				"fresh", int(fresh.Load())-old, "gets", e["gets"], "puts", e["puts"], "news", e["news"], "inuse", e["inuse"])
		})
		if seen.New(t) {
			r.Put(t)
		}
	}
}
