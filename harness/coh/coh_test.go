// Package coh measures coherence of sets of phases in every way the code offers.
package coh

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 60 * time.Second

func vec(p float64) []int { return []int{vh.Micro(math.Cos(p)), vh.Micro(math.Sin(p))} }

func vecs(ph []float64) [][]int {
	vs := make([][]int, 0, len(ph))
	for _, p := range ph {
		vs = append(vs, vec(p))
	}
	return vs
}

// draw makes phases of a random character.
func draw(rng *rand.Rand, n int) []float64 {
	ph := make([]float64, n)
	kind := rng.Intn(7)
	base := rng.Float64() * 2 * math.Pi
	width := []float64{0, 1e-9, 1e-3, 0.3, 2, 7, 40}[kind]
	for i := range ph {
		ph[i] = base + width*(rng.Float64()-0.5)
		switch rng.Intn(12) {
		case 0:
			ph[i] += float64(rng.Intn(9)-4) * 2 * math.Pi
		case 1:
			if kind > 2 {
				ph[i] = float64(rng.Intn(9)) * math.Pi / 4
			}
		}
	}
	if rng.Intn(8) == 0 { // evenly spread: coherence zero
		for i := range ph {
			ph[i] = base + 2*math.Pi*float64(i)/float64(n)
		}
	}
	return ph
}

func measure(t *vh.Trace, ph []float64, ws []int, div float64) {
	t.Add("core", "vs", vecs(ph), "r", vh.Micro(core.MeasureCoherence(ph)))
	if ws != nil {
		w := make([]float64, len(ws))
		for i, x := range ws {
			w[i] = float64(x) / div
		}
		t.Add("weighted", "vs", vecs(ph), "ws", ws, "r", vh.Micro(core.MeasureCoherenceWeighted(ph, w)))
	}
}

type spy struct {
	cur core.State
	ctx core.Context
}

func (s *spy) Propose(cur, _ core.State, ctx core.Context) (core.Action, float64) {
	s.cur, s.ctx = cur, ctx
	return core.Action{Type: "maintain"}, 0.5
}
func (s *spy) Name() string { return "spy" }

func local(t *vh.Trace, rng *rand.Rand, ph []float64) {
	sp := &spy{}
	a := agent.New("me", agent.WithPhase(rng.Float64()*7), agent.WithStubbornness(0), agent.WithStrategy(sp))
	for i, p := range ph {
		b := agent.New(fmt.Sprintf("n%d", i), agent.WithPhase(p))
		if rng.Intn(2) == 0 {
			a.ConnectTo(b.ID, b)
		} else {
			a.Neighbors().Store(b.ID, b)
		}
	}
	a.UpdateContext()
	a.ProposeAdjustment(core.State{Coherence: 0.9})
	t.Add("local", "vs", vecs(ph), "r", vh.Micro(sp.ctx.LocalCoherence), "own", vh.Micro(sp.cur.Coherence))
}

func observe(t *vh.Trace, rng *rand.Rand, s *swarm.Swarm) {
	m := s.Agents()
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	ph := []float64{}
	pu := []int{}
	c, sn := 0.0, 0.0
	for _, k := range keys {
		p := m[k].Phase()
		ph = append(ph, p)
		pu = append(pu, vh.Ph(p))
		c += math.Cos(p)
		sn += math.Sin(p)
	}
	n := float64(len(ph))
	mean := math.Atan2(sn, c)
	rel := [][]int{}
	for _, p := range ph {
		rel = append(rel, vec(p-mean))
	}
	conv := []vh.Ev{}
	for _, target := range []float64{0, rng.Float64() * 2 * math.Pi, ph[0], ph[0] + 3*math.Pi, -rng.Float64() * 20, 50 * rng.Float64(), math.Pi} {
		conv = append(conv, vh.Ev{"t": vh.PhMod(target), "r": vh.Micro(s.MeasurePhaseConvergence(target))})
	}
	t.Add("swarm", "vs", vecs(ph), "ph", pu, "r", vh.Micro(s.MeasureCoherence()), "conv", conv,
		"hasm", math.Hypot(c, sn)/n > 0.02, "m", vh.Ph(mean), "rel", rel, "v", vh.Micro(s.MeasurePhaseVariance()))
}

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	for k, seq := range vh.Ops() {
		rng := vh.Rng(k)
		r.Run(nil, limit, func(t *vh.Trace) {
			ph, ws := []float64{}, []int{}
			for _, o := range seq {
				ph = append(ph, (float64(o.I("d"))/12+float64(o.I("t")))*2*math.Pi)
				ws = append(ws, o.I("w"))
			}
			measure(t, ph, ws, 1)
			if k%8 == 0 {
				local(t, rng, ph)
			}
		})
	}
	r.Run(nil, limit, func(t *vh.Trace) {
		t.Add("core", "vs", [][]int{}, "r", vh.Micro(core.MeasureCoherence(nil)))
		t.Add("core", "vs", [][]int{}, "r", vh.Micro(core.MeasureCoherence([]float64{})))
		t.Add("weighted", "vs", [][]int{}, "ws", []int{}, "r", vh.Micro(core.MeasureCoherenceWeighted(nil, nil)))
		local(t, vh.Rng(7), nil)
	})
	for k := range vh.N() {
		rng := vh.Rng(50000 + k)
		n := []int{1 + rng.Intn(6), 1 + rng.Intn(40), 90 + rng.Intn(100)}[rng.Intn(3)]
		r.Run(nil, limit, func(t *vh.Trace) {
			ph := draw(rng, n)
			ws := make([]int, n)
			zero := rng.Intn(6) == 0
			for i := range ws {
				if !zero {
					ws[i] = rng.Intn(6)
				}
			}
			measure(t, ph, ws, []float64{1, 10, 1000, 0.25}[rng.Intn(4)])
			if n < 41 {
				local(t, rng, ph)
			}
		})
	}
	sizes := []int{1, 2, 3, 7, 20, 50, 99, 100, 101, 130, 300}
	if vh.Thorough() {
		for n := 4; n < 140; n += 3 {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 500, 640)
	}
	for k, n := range sizes {
		rng := vh.Rng(90000 + k)
		r.Run(nil, limit, func(t *vh.Trace) {
			s, err := swarm.New(n, core.State{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.5})
			if err != nil {
				t.Add("PANIC", "msg", "swarm not created")
				return
			}
			observe(t, rng, s)
			for range 12 {
				ph := draw(rng, n)
				i := 0
				for _, a := range s.Agents() {
					a.SetPhase(ph[i])
					i++
				}
				observe(t, rng, s)
			}
		})
	}
}
