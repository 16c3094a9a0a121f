// Package neigh drives the neighbour relation of agents and the neighbour store.
package neigh

import (
	"fmt"
	"math"
	"math/rand"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 60 * time.Second

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	switch vh.UnitName() {
	case "neighbors":
		runAgent(r)
	case "store":
		runStore(r)
	default:
		t.Fatal("unknown unit")
	}
}

// spy is a strategy that remembers the context it was shown.
type spy struct{ ctx core.Context }

func (s *spy) Propose(_, _ core.State, ctx core.Context) (core.Action, float64) {
	s.ctx = ctx
	return core.Action{Type: "maintain"}, 0.5
}
func (s *spy) Name() string { return "spy" }

type world struct {
	a     *agent.Agent
	spy   *spy
	other []*agent.Agent // index 0 is the agent itself
}

func newWorld(n int, phases []float64) *world {
	w := &world{spy: &spy{}}
	w.a = agent.New("id0", agent.WithStubbornness(0), agent.WithStrategy(w.spy), agent.WithSwarmInfo(50, 40))
	w.other = append(w.other, w.a)
	for i := 1; i <= n; i++ {
		w.other = append(w.other, agent.New(id(i), agent.WithPhase(phases[i-1])))
	}
	return w
}

func id(i int) string { return fmt.Sprintf("id%d", i) }

func (w *world) obs() vh.Ev {
	conn := []int{}
	for i := range w.other {
		if w.a.IsConnectedTo(id(i)) {
			conn = append(conn, i)
		}
	}
	cnt := w.a.NeighborCount()
	w.a.UpdateContext()
	w.a.ProposeAdjustment(core.State{Coherence: 0.9})
	return vh.Ev{"conn": conn, "cnt": cnt, "pcnt": w.spy.ctx.Neighbors, "pcoh": vh.Micro(w.spy.ctx.LocalCoherence)}
}

func (w *world) do(t *vh.Trace, op string, i int, rng *rand.Rand) {
	p := rng.Float64() * 2 * math.Pi
	switch op {
	case "replace", "turn":
		if i == 0 {
			return
		}
		if op == "turn" {
			w.other[i].SetPhase(p)
		} else {
			w.other[i] = agent.New(id(i), agent.WithPhase(p))
			w.a.ConnectTo(id(i), w.other[i])
		}
		t.Add(op, "id", i, "c", vh.Micro(math.Cos(p)), "s", vh.Micro(math.Sin(p)), "o", w.obs())
		return
	case "connect":
		w.a.ConnectTo(id(i), w.other[i])
	case "mapstore":
		w.a.Neighbors().Store(id(i), w.other[i])
	case "disconnect":
		w.a.DisconnectFrom(id(i))
	}
	t.Add(op, "id", i, "o", w.obs())
}

func hdr(phases []float64) vh.Ev {
	cos, sin := []int{}, []int{}
	for _, p := range phases {
		cos = append(cos, vh.Micro(math.Cos(p)))
		sin = append(sin, vh.Micro(math.Sin(p)))
	}
	return vh.Ev{"cap": 20, "cos": cos, "sin": sin}
}

func runAgent(r *vh.Recorder) {
	for k, seq := range vh.Ops() {
		rng := vh.Rng(k)
		n := 30
		ph := make([]float64, n)
		for i := range ph {
			ph[i] = rng.Float64() * 2 * math.Pi
		}
		r.Run(hdr(ph), limit, func(t *vh.Trace) {
			w := newWorld(n, ph)
			for _, o := range seq {
				switch o.S("op") {
				case "fill":
					for i := range o.I("n") {
						w.do(t, "connect", 4+i, rng)
					}
				default:
					if o.S("op") == "mapstore" && o.I("id") == 0 {
						continue
					}
					w.do(t, o.S("op"), o.I("id"), rng)
				}
			}
		})
	}
	for k := range vh.N() {
		rng := vh.Rng(100000 + k)
		n := 5 + rng.Intn(40)
		ph := make([]float64, n)
		for i := range ph {
			ph[i] = rng.Float64() * 2 * math.Pi
		}
		r.Run(hdr(ph), limit, func(t *vh.Trace) {
			w := newWorld(n, ph)
			bias := rng.Intn(3)
			for range 30 + rng.Intn(70) {
				i := rng.Intn(n + 1)
				x := rng.Intn(6)
				switch {
				case rng.Intn(4) == 0:
					w.do(t, []string{"replace", "turn"}[rng.Intn(2)], i, rng)
				case x <= 2+bias/2:
					w.do(t, "connect", i, rng)
				case x == 4 && i > 0:
					w.do(t, "mapstore", i, rng)
				default:
					w.do(t, "disconnect", i, rng)
				}
			}
		})
	}
}

type swd struct {
	ns    *agent.NeighborStorage
	other []*agent.Agent
}

func (s *swd) obs() vh.Ev {
	ids, ranged, conn := []int{}, []int{}, []int{}
	match := true
	num := func(a *agent.Agent) int {
		for i, o := range s.other {
			if o == a {
				return i
			}
		}
		return -1
	}
	for _, a := range s.ns.All() {
		ids = append(ids, num(a))
	}
	s.ns.Range(func(i string, a *agent.Agent) bool {
		ranged = append(ranged, num(a))
		if a == nil || a.ID != i {
			match = false
		}
		return true
	})
	for i, o := range s.other {
		if a, ok := s.ns.Load(o.ID); ok {
			conn = append(conn, i)
			if a != o {
				match = false
			}
		}
	}
	return vh.Ev{"ids": ids, "ranged": ranged, "conn": conn, "cnt": s.ns.Count(), "match": match}
}

func (s *swd) do(t *vh.Trace, op string, i int) {
	switch op {
	case "store":
		res := s.ns.Store(id(i), s.other[i])
		t.Add(op, "id", i, "res", res, "o", s.obs())
	case "delete":
		s.ns.Delete(id(i))
		t.Add(op, "id", i, "o", s.obs())
	case "load":
		_, ok := s.ns.Load(id(i))
		t.Add(op, "id", i, "res", ok, "o", s.obs())
	case "clear":
		s.ns.Clear()
		t.Add(op, "o", s.obs())
	}
}

func newStore(capacity, n int) *swd {
	s := &swd{ns: agent.NewNeighborStorage(capacity)}
	for i := range n + 1 {
		s.other = append(s.other, agent.New(id(i)))
	}
	return s
}

func runStore(r *vh.Recorder) {
	for _, seq := range vh.Ops() {
		c := seq[0].I("n")
		r.Run(vh.Ev{"cap": c, "cos": []int{0}, "sin": []int{0}}, limit, func(t *vh.Trace) {
			s := newStore(c, 4)
			for _, o := range seq[1:] {
				s.do(t, o.S("op"), o.I("id"))
			}
		})
	}
	for k := range vh.N() {
		rng := vh.Rng(200000 + k)
		c := []int{0, -1, 1, 2, 5, 20, 30}[rng.Intn(7)]
		eff := c
		if c <= 0 {
			eff = 20
		}
		r.Run(vh.Ev{"cap": eff, "cos": []int{0}, "sin": []int{0}}, limit, func(t *vh.Trace) {
			s := newStore(c, eff+5)
			for range 3*eff + rng.Intn(60) {
				i := rng.Intn(eff + 6)
				switch rng.Intn(20) {
				case 0:
					s.do(t, "load", i)
				case 1, 2, 3, 4, 5:
					s.do(t, "delete", i)
				case 6:
					if rng.Intn(4) == 0 {
						s.do(t, "clear", 0)
					}
				default:
					s.do(t, "store", i)
				}
			}
		})
	}
}
