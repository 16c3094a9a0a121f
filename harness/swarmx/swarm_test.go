// Package swarmx builds swarms and looks at them from outside.
package swarmx

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/monitoring"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/internal/topology"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 60 * time.Second

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	switch vh.UnitName() {
	case "swarmbuild":
		runBuild(r)
	case "topology":
		runTopo(r)
	case "views":
		runViews(t, r)
	default:
		t.Fatal("unknown unit")
	}
}

func okGoal(rng *rand.Rand) core.State {
	return core.State{Phase: rng.Float64() * 6, Frequency: 200 * time.Millisecond, Coherence: 0.3 + 0.6*rng.Float64()}
}

func goalOf(kind string, rng *rand.Rand) (core.State, bool) {
	g := okGoal(rng)
	switch kind {
	case "freq0":
		g.Frequency = 0
	case "freqneg":
		g.Frequency = -time.Second
	case "cohneg":
		g.Coherence = -0.01
	case "cohbig":
		g.Coherence = 1.01
	case "cohnan":
		g.Coherence = math.NaN()
	case "phasenan":
		g.Phase = math.NaN()
	case "phaseinf":
		g.Phase = math.Inf(-1)
	default:
		return g, true
	}
	return g, false
}

func sortedKeys(m map[string]*agent.Agent) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func look(s *swarm.Swarm) (keys []string, o vh.Ev) {
	m := s.Agents()
	keys = sortedKeys(m)
	own, lk, en := []string{}, []bool{}, []int{}
	for _, k := range keys {
		own = append(own, m[k].ID)
		a, ok := s.Agent(k)
		lk = append(lk, ok && a == m[k])
		en = append(en, vh.Micro(m[k].Energy()))
	}
	o = vh.Ev{"keys": keys, "own": own, "look": lk, "en": en, "size": s.Size()}
	graph(keys, m, o)
	return keys, o
}

func graph(keys []string, m map[string]*agent.Agent, o vh.Ev) {
	adj, deg, selfc := [][]int{}, []int{}, []bool{}
	for _, k := range keys {
		a := m[k]
		row := []int{}
		for j, q := range keys {
			if a.IsConnectedTo(q) {
				row = append(row, j+1)
			}
		}
		adj = append(adj, row)
		deg = append(deg, a.NeighborCount())
		selfc = append(selfc, a.IsConnectedTo(a.ID))
	}
	o["adj"], o["deg"], o["selfc"] = adj, deg, selfc
}

type request struct {
	size  int
	opts  []string
	goal  string
	via   string
	valid bool // only draw in-range configurations
}

func randConfig(rng *rand.Rand, size int) config.Swarm {
	c := config.AutoScaleConfig(size)
	n := size
	if n < 1 {
		n = 1
	}
	c.ConnectionProbability = []float64{0, 0.05, 0.3, 1, 1.5, -1}[rng.Intn(6)]
	c.MaxNeighbors = rng.Intn(n+4) - 1
	c.MinNeighbors = rng.Intn(min(n+4, 30)) - 1
	c.InitialEnergy = []float64{100, 42, 7.5, 0.5, 250, 0, -3}[rng.Intn(7)]
	c.Stubbornness = rng.Float64()
	c.CouplingStrength = rng.Float64()
	c.InfluenceDefault = rng.Float64()
	c.EnableConnectionOptim = rng.Intn(3) == 0
	c.ConnectionOptimThreshold = rng.Intn(n+10) - 2
	if rng.Intn(8) == 0 {
		c.MaxNeighbors, c.MinNeighbors = n-1, n-1
	}
	switch rng.Intn(6) {
	case 0:
		c.MaxSwarmSize = size - 1
	case 1:
		c.MaxSwarmSize = size
	case 2:
		c.MaxSwarmSize = rng.Intn(2)
	default:
		c.MaxSwarmSize = 100000
	}
	if rng.Intn(10) == 0 {
		c.AgentUpdateInterval, c.MonitoringInterval, c.BasinWidth = 0, -1, 0
	}
	return c
}

func build(t *vh.Trace, q request, rng *rand.Rand) {
	g, goalok := goalOf(q.goal, rng)
	cfg := config.AutoScaleConfig(q.size)
	e := vh.Ev{"op": "build", "size": q.size, "goalok": goalok, "topo": false, "topoerr": false, "builder": false,
		"wadj": [][]int{}, "limit": 0}
	var s *swarm.Swarm
	var err error
	builtBy := map[*agent.Agent]bool{}
	step := 0
	limitOf := func(c config.Swarm) int { return max(c.MaxSwarmSize, 0) }
	if q.via == "fromconfig" {
		if len(q.opts) > 0 {
			cfg = randConfig(rng, q.size)
		}
		e["limit"] = limitOf(cfg)
		s, err = swarm.NewSwarmFromConfig(q.size, g, cfg)
	} else {
		var opts []swarm.Option
		if rng.Intn(3) == 0 {
			opts = append(opts, swarm.WithMonitor(monitoring.New()))
		}
		for _, o := range q.opts {
			switch o {
			case "config":
				cfg = randConfig(rng, q.size)
				e["limit"] = limitOf(cfg)
				opts = append(opts, swarm.WithConfig(cfg))
			case "builder":
				e["builder"] = true
				own := rng.Intn(2) == 0
				opts = append(opts, swarm.WithAgentBuilder(func(id string, _ int, _ config.Swarm) *agent.Agent {
					if own {
						id = "own-" + id
					}
					a := agent.New(id, agent.WithEnergy(3+rng.Float64()))
					builtBy[a] = true
					return a
				}))
			case "topology":
				e["topo"] = true
				fails := rng.Intn(8) == 0
				e["topoerr"] = fails
				step = 1 + rng.Intn(3)
				mine := step
				opts = append(opts, swarm.WithTopology(func(s *swarm.Swarm) error {
					if fails {
						return errors.New("no")
					}
					m := s.Agents()
					keys := sortedKeys(m)
					for i := 0; i+mine < len(keys); i++ {
						a, b := m[keys[i]], m[keys[i+mine]]
						a.ConnectTo(b.ID, b)
						b.ConnectTo(a.ID, a)
					}
					return nil
				}))
			}
		}
		if rng.Intn(3) == 0 {
			opts = append(opts, swarm.WithRecoveryConfig(swarm.DefaultRecoveryConfig(0.8)))
		}
		s, err = swarm.New(q.size, g, opts...)
	}
	e["min"], e["max"], e["en"] = cfg.MinNeighbors, cfg.MaxNeighbors, vh.Micro(cfg.InitialEnergy)
	e["res"] = "ok"
	if err != nil {
		e["res"] = "err"
	}
	e["has"] = s != nil
	if s != nil && err == nil {
		keys, o := look(s)
		built := 0
		for _, a := range s.Agents() {
			if builtBy[a] {
				built++
			}
		}
		o["built"] = built
		e["o"] = o
		// what the custom topology makes of these agents
		rows := make([][]int, len(keys))
		for i := range keys {
			rows[i] = []int{}
		}
		for i := 0; step > 0 && i+step < len(keys); i++ {
			rows[i] = append(rows[i], i+step+1)
			rows[i+step] = append(rows[i+step], i+1)
		}
		if e["topo"] == true {
			e["wadj"] = rows
		}
	}
	t.Ev = append(t.Ev, e)
}

func runBuild(r *vh.Recorder) {
	for k, seq := range vh.Ops() {
		rng := vh.Rng(k)
		o := seq[0]
		opts := []string{}
		if l, ok := o["opts"].([]any); ok {
			for _, x := range l {
				opts = append(opts, x.(string))
			}
		}
		r.Run(nil, limit, func(t *vh.Trace) {
			build(t, request{size: o.I("size"), opts: opts, goal: o.S("goal"), via: o.S("via")}, rng)
		})
	}
	all := []string{"config", "builder", "topology"}
	for k := range vh.N() {
		rng := vh.Rng(100000 + k)
		size := []int{1 + rng.Intn(12), 1 + rng.Intn(120), 95 + rng.Intn(12), 100 + rng.Intn(60)}[rng.Intn(4)]
		if k == 0 {
			size = 1001
		}
		if k == 1 {
			size = 1100
		}
		var opts []string
		for _, i := range rng.Perm(3) {
			if rng.Intn(3) == 0 || (all[i] == "config" && rng.Intn(2) == 0 && k > 1) {
				opts = append(opts, all[i])
			}
		}
		via := "new"
		if rng.Intn(6) == 0 {
			via, opts = "fromconfig", []string{"config"}
		}
		r.Run(nil, limit, func(t *vh.Trace) {
			build(t, request{size: size, opts: opts, goal: "ok", via: via}, rng)
		})
	}
}

func runTopo(r *vh.Recorder) {
	sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 12, 19, 20, 21, 22, 23, 30, 50, 99, 100, 101, 102, 125}
	if vh.Thorough() {
		for n := 9; n <= 130; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 300, 1005)
	}
	kinds := map[string]func(*swarm.Swarm) error{"full": topology.FullyConnected, "ring": topology.Ring, "star": topology.Star}
	for k, n := range sizes {
		for _, kind := range []string{"full", "ring", "star"} {
			for way := range 3 {
				if n > 200 && kind == "full" {
					continue
				}
				rng := vh.Rng(k*31 + way)
				f := kinds[kind]
				r.Run(nil, limit, func(t *vh.Trace) {
					var s *swarm.Swarm
					var err error
					noop := func(*swarm.Swarm) error { return nil }
					switch way {
					case 0: // as a construction option
						s, err = swarm.New(n, okGoal(rng), swarm.WithTopology(f))
					case 1: // on a swarm without connections
						if s, err = swarm.New(n, okGoal(rng), swarm.WithTopology(noop)); err == nil {
							err = f(s)
						}
					case 2: // with custom agents
						s, err = swarm.New(n, okGoal(rng), swarm.WithTopology(f), swarm.WithAgentBuilder(
							func(id string, size int, _ config.Swarm) *agent.Agent {
								return agent.New(fmt.Sprintf("z%d-%s", rng.Intn(1000), id), agent.WithSwarmInfo(size, 0))
							}))
					}
					e := t.Add("topo", "kind", kind, "n", n, "err", err != nil, "errkind", errors.Is(err, core.ErrInsufficientAgents))
					if s != nil {
						m := s.Agents()
						o := vh.Ev{}
						graph(sortedKeys(m), m, o)
						e["o"] = o
					}
				})
			}
		}
	}
}

func quant(s *swarm.Swarm) (phase []float64, rest []vh.Ev, adj [][]int) {
	m := s.Agents()
	keys := sortedKeys(m)
	for _, k := range keys {
		a := m[k]
		phase = append(phase, a.Phase())
		rest = append(rest, vh.Ev{"goal": vh.Ph(a.LocalGoal()), "en": vh.Micro(a.Energy()), "fr": int(a.Frequency().Microseconds()),
			"inf": vh.Micro(a.Influence()), "stub": vh.Micro(a.Stubbornness())})
	}
	o := vh.Ev{}
	if len(keys) <= 150 {
		graph(keys, m, o)
		adj = o["adj"].([][]int)
	} else {
		adj = [][]int{}
	}
	return phase, rest, adj
}

func runViews(tt *testing.T, r *vh.Recorder) {
	sizes := []int{1, 2, 3, 7, 10, 20, 50, 99, 100, 101, 102, 150, 257}
	if vh.Thorough() {
		sizes = append(sizes, 4, 5, 19, 64, 98, 103, 128, 200, 1001, 1100)
	}
	for k := range vh.N() {
		rng := vh.Rng(k)
		n := sizes[k%len(sizes)]
		r.Run(nil, limit, func(t *vh.Trace) {
			views(tt, t, n, rng, k)
		})
	}
}

func views(tt *testing.T, t *vh.Trace, n int, rng *rand.Rand, k int) {
	goal := okGoal(rng)
	goal.Coherence = 0.5 + 0.3*rng.Float64()
	s, err := swarm.New(n, goal, swarm.WithAgentBuilder(func(id string, size int, _ config.Swarm) *agent.Agent {
		if k%2 == 1 {
			id = fmt.Sprintf("w%d.%s", rng.Intn(100000), id)
		}
		return agent.New(id, agent.WithSwarmInfo(size, 20), agent.WithEnergy(rng.Float64()*50), agent.WithStubbornness(rng.Float64()))
	}))
	if err != nil {
		t.Add("views", "n", n, "keys", []string{}, "own", []string{}, "look", []bool{}, "visit", []string{}, "samev", false,
			"stops", []vh.Ev{}, "unknown", []bool{}, "size", -1)
		return
	}
	record := func() {
		m := s.Agents()
		keys := sortedKeys(m)
		own, lk, visit := []string{}, []bool{}, []string{}
		samev := true
		for _, k := range keys {
			own = append(own, m[k].ID)
			a, ok := s.Agent(k)
			lk = append(lk, ok && a == m[k])
		}
		s.ForEachAgent(func(a *agent.Agent) bool {
			visit = append(visit, a.ID)
			samev = samev && m[a.ID] == a
			return true
		})
		stops := []vh.Ev{}
		for _, k := range []int{1, 2, n / 2, n - 1, n, 1 + rng.Intn(n)} {
			got := 0
			s.ForEachAgent(func(*agent.Agent) bool { got++; return got < k })
			stops = append(stops, vh.Ev{"k": k, "got": got})
		}
		unknown := []bool{}
		for _, name := range []string{"", "nobody", fmt.Sprintf("agent-%d", n), "agent--1", "Agent-0", keys[0] + " "} {
			_, ok := s.Agent(name)
			unknown = append(unknown, ok)
		}
		t.Add("views", "n", n, "size", s.Size(), "keys", keys, "own", own, "look", lk, "visit", visit, "samev", samev, "stops", stops, "unknown", unknown)
	}
	// the swarm is made outside the bubble: large swarms keep worker goroutines
	synctest.Test(tt, func(*testing.T) { shake(t, s, n, goal, rng, record) })
}

func shake(t *vh.Trace, s *swarm.Swarm, n int, goal core.State, rng *rand.Rand, record func()) {
	record()
	for range 4 {
		if rng.Intn(3) > 0 {
			// make the swarm converge so that there is something to forget
			s.ForEachAgent(func(a *agent.Agent) bool {
				a.SetPhase(goal.Phase)
				a.SetFrequency(goal.Frequency)
				return true
			})
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			_ = s.Run(ctx)
			cancel()
			t.Add("recorded", "cur", vh.Micro(s.CurrentCoherence()))
		}
		if rng.Intn(3) == 0 {
			// whatever state the agents are in
			s.ForEachAgent(func(a *agent.Agent) bool {
				a.SetEnergy([]float64{0, 0.25, 80}[rng.Intn(3)])
				a.SetStubbornness(float64(rng.Intn(3)) / 2)
				a.SetInfluence(float64(rng.Intn(3)) / 2)
				return true
			})
		}
		pre, rest0, adj0 := quant(s)
		p := 0
		switch rng.Intn(7) {
		case 0:
			p = []int{0, 1000000, -1, -500000, 1000001, 1500000, 2000000000, -2000000000, 15625}[rng.Intn(9)]
		case 1:
			p = 15625 * rng.Intn(65)
		default:
			for {
				p = rng.Intn(1000001)
				if f := (int64(n) * int64(p)) % 1000000; f > 1000 && f < 999000 {
					break
				}
			}
		}
		s.DisruptAgents(float64(p) / 1e6)
		cur, conv, ctime := s.CurrentCoherence(), s.IsConverged(), s.ConvergenceTime()
		post, rest1, adj1 := quant(s)
		moved, okph := []bool{}, []bool{}
		for i := range pre {
			moved = append(moved, pre[i] != post[i])
			okph = append(okph, vh.OnCircle(post[i]))
		}
		t.Add("disrupt", "p", p, "moved", moved, "okph", okph, "pre", rest0, "post", rest1, "padj", adj0, "qadj", adj1,
			"cur", vh.Micro(cur), "conv", conv, "time", int(ctime.Microseconds()))
		if rng.Intn(2) == 0 {
			record()
		}
		time.Sleep(time.Second)
	}
}
