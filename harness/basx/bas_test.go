// Package basx asks attractor basins about states.
package basx

import (
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/emerge"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 60 * time.Second

func odd(cur, tgt float64) bool {
	const e = 1e-10
	return math.Abs(tgt) < e && math.Abs(cur-3*math.Pi/2) < e || math.Abs(tgt-3*math.Pi/2) < e && math.Abs(cur) < e
}

type basin struct {
	b   *emerge.AttractorBasin
	tgt float64
}

func (b *basin) ask(t *vh.Trace, ph float64, fr time.Duration) {
	s := core.State{Phase: ph, Frequency: fr, Coherence: 0.3}
	d, in, f, c, a := b.b.DistanceToTarget(s), b.b.IsInBasin(s), b.b.AttractionForce(s), b.b.ConvergenceRate(s), b.b.OptimalAdjustment(s)
	finite := true
	for _, x := range []float64{d, f, c, a} {
		finite = finite && !math.IsNaN(x) && !math.IsInf(x, 0)
	}
	t.Add("ask", "ph", vh.PhMod(ph), "fr", int(fr/time.Microsecond), "odd", odd(ph, b.tgt), "dist", vh.Ph(d), "inb", in, "force", vh.Micro(f), "zero", f == 0,
		"rate", vh.Micro(c), "adj", vh.Ph(a), "finite", finite)
}

func TestVerif(tt *testing.T) {
	r := vh.Open()
	defer r.Close()
	in := func(tgt float64, fr time.Duration, s, rad float64, body func(t *vh.Trace, b *basin)) {
		r.Run(vh.Ev{"tgt": vh.PhMod(tgt), "fr": int(fr / time.Microsecond), "s": vh.Micro(s), "r": vh.Ph(rad)}, limit, func(t *vh.Trace) {
			body(t, &basin{emerge.NewAttractorBasin(core.State{Phase: tgt, Frequency: fr, Coherence: 0.9}, s, rad), tgt})
		})
	}
	for _, ops := range vh.Ops() {
		o := ops[0]
		in(float64(o.I("t"))*math.Pi/4, 100*time.Millisecond, float64(o.I("s"))/1000, float64(o.I("r"))*math.Pi/4, func(t *vh.Trace, b *basin) {
			p := float64(o.I("p"))*math.Pi/4 + float64(o.I("dp"))*1e-5
			if p < 0 {
				p += 2 * math.Pi
			}
			b.ask(t, p, time.Duration(o.I("f"))*time.Millisecond)
		})
	}
	for i := range vh.N() {
		g := vh.Rng(i)
		tgt := g.Float64() * 2 * math.Pi
		if g.Intn(4) == 0 {
			tgt = float64(g.Intn(8)) * math.Pi / 4
		}
		rad := []float64{0, 0.01, math.Pi / 2, math.Pi, 2.5 * math.Pi, -1, g.Float64() * 4, g.Float64()}[g.Intn(8)]
		fr := time.Duration(g.Intn(4)*g.Intn(1000)) * time.Millisecond
		in(tgt, fr, []float64{0, 1, 0.8, -2, 3, g.Float64()}[g.Intn(6)], rad, func(t *vh.Trace, b *basin) {
			for range 10 {
				ph := g.Float64() * 2 * math.Pi
				switch g.Intn(6) {
				case 0:
					ph = tgt
				case 1:
					ph = core.WrapPhase(tgt + rad)
				case 2:
					ph = core.WrapPhase(tgt - rad*(1+(g.Float64()-0.5)*1e-3))
				case 3:
					ph = core.WrapPhase(tgt + math.Pi)
				}
				b.ask(t, ph, []time.Duration{0, fr, 2 * fr, (fr / 3).Truncate(time.Microsecond), time.Duration(g.Intn(1000)) * time.Millisecond}[g.Intn(5)])
			}
		})
	}
}
