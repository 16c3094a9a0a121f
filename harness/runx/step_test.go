package runx

import (
	"context"
	"math"
	"math/rand"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

// full are the values a swarm without a goal configuration works with.
func full() *swarm.Config {
	c := defaults()
	c.Thresholds = swarm.ThresholdConfig{PhaseVariance: swarm.DefaultPhaseVariance, HighCoherence: swarm.DefaultHighCoherence,
		VeryHighCoherence: swarm.DefaultVeryHighCoherence, ModerateCoherence: swarm.DefaultModerateCoherence}
	c.Variation = swarm.VariationConfig{BaseRange: [2]float64{swarm.DefaultVariationMin, swarm.DefaultVariationMax}, CoherenceFactor: swarm.DefaultCoherenceFactor,
		RandomWalkMagnitude: swarm.DefaultRandomWalkMagnitude, PerturbationMagnitude: swarm.DefaultPerturbationMagnitude, PerturbationChance: swarm.DefaultPerturbationChance}
	c.Resonance = swarm.ResonanceConfig{NoiseMagnitude: swarm.DefaultNoiseMagnitude, AffectedAgents: swarm.DefaultAffectedAgents}
	return c
}

func r4(x float64) int { return int(math.Round(x * 1e4)) }

func stepHeader(q setup) vh.Ev {
	h := q.header()
	c := q.cfg
	if c == nil || q.via == "fromconfig" {
		c = full()
	}
	pch := 0
	if c.Variation.PerturbationChance > 0 {
		pch = 1
	}
	for k, v := range map[string]int{"gp": vh.Ph(q.goal.Phase), "gf": int(q.goal.Frequency.Microseconds()), "base": r4(c.Convergence.BaseAdjustmentScale),
		"pv": vh.Micro(c.Thresholds.PhaseVariance), "vh": vh.Micro(c.Thresholds.VeryHighCoherence), "mod": vh.Micro(c.Thresholds.ModerateCoherence),
		"b0": r4(c.Variation.BaseRange[0]), "b1": r4(c.Variation.BaseRange[1]), "cf": r4(c.Variation.CoherenceFactor),
		"rwm": vh.Micro(c.Variation.RandomWalkMagnitude), "pm": vh.Micro(c.Variation.PerturbationMagnitude), "pch": pch,
		"nm": vh.Micro(c.Resonance.NoiseMagnitude), "aff": r4(c.Resonance.AffectedAgents)} {
		h[k] = v
	}
	return h
}

// look measures the agents as set, independently of the code under test.
func (w *world) look() (vh.Ev, bool) {
	c, s := 0.0, 0.0
	var f time.Duration
	for i := range w.ag {
		c += math.Cos(w.want[i])
		s += math.Sin(w.want[i])
		f += w.freq[i]
	}
	n := float64(len(w.ag))
	coh := math.Hypot(c, s) / n
	mean := math.Atan2(s, c)
	v := 0.0
	for i := range w.ag {
		d := math.Remainder(w.want[i]-mean, 2*math.Pi)
		v += d * d
	}
	return vh.Ev{"coh": vh.Micro(coh), "var": vh.Micro(v / n), "mean": vh.Ph(mean), "f": int((f / time.Duration(len(w.ag))).Microseconds())}, coh > 1e-4
}

// three quarters of a turn exactly is a separate finding about phase differences.
func (w *world) avoidOdd() {
	for i, p := range w.want {
		if math.Abs(math.Remainder(p-3*math.Pi/2, 2*math.Pi)) < 1e-6 || math.Abs(math.Remainder(p, 2*math.Pi)) < 1e-6 {
			w.want[i] = p + 2e-5*float64(1+i)
		}
	}
	w.restore()
}

func stepDrive(tr *vh.Trace, q setup, w *world, sc func(k int, w *world) bool, most int) {
	u := q.conf().Strategy.UpdateInterval
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	tr.Add("start")
	begin := time.Now()
	var err error
	done := make(chan struct{})
	go func() {
		err = w.s.Run(ctx)
		close(done)
	}()
	isDone := func() bool {
		synctest.Wait()
		select {
		case <-done:
			return true
		default:
			return false
		}
	}
	for k := 1; k <= most; k++ {
		time.Sleep(time.Until(begin.Add(time.Duration(k)*u - u/2)))
		if isDone() {
			break
		}
		same := sc(k, w)
		w.avoidOdd()
		w.take()
		m, ok := w.look()
		p0, f0 := append([]float64{}, w.want...), append([]time.Duration{}, w.freq...)
		time.Sleep(time.Until(begin.Add(time.Duration(k)*u + u/4)))
		over := isDone()
		out := "run"
		if over {
			out = outcome(err, ctx)
		}
		w.take()
		if ok {
			a := make([][]int, len(w.ag))
			for i := range a {
				a[i] = []int{vh.Ph(p0[i]), int(f0[i].Microseconds()), vh.Ph(w.want[i]), int(w.freq[i].Microseconds())}
			}
			tr.Add("upd", "m", m, "a", a, "out", out, "same", same)
		}
		if over {
			break
		}
	}
	cancel()
	<-done
}

// arrange sets the agents in one of several ways.
func arrange(rng *rand.Rand, w *world, q setup) {
	g := w.goal.Phase
	t := near(q, rng)
	fq := []float64{1, 1, 1.03, 0.9, 1.2, 0.3, 2.5}[rng.Intn(7)]
	if rng.Intn(3) == 0 { // near a built-in template
		fq = float64([]time.Duration{250, 200, 225}[rng.Intn(3)]*time.Millisecond) / float64(w.goal.Frequency)
	}
	mean := g
	switch rng.Intn(4) {
	case 0:
		mean = g + rng.Float64()*2*math.Pi
	case 1:
		mean = g + 0.3*rng.NormFloat64()
	case 2:
		mean = g + []float64{0.09, 0.11, -0.09, -0.11, math.Pi - 0.01, math.Pi + 0.01}[rng.Intn(6)]
	}
	switch rng.Intn(8) {
	case 0:
		w.shape(rng, rng.Float64(), mean, fq)
	case 1: // a certain distance from the target
		w.shape(rng, max(0, min(1, t-[]float64{-0.05, 0.005, 0.02, 0.045, 0.055, 0.08, 0.15, 0.25, 0.5}[rng.Intn(9)])), mean, fq)
	case 2: // all but a few at one place
		w.shape(rng, 1, mean, fq)
		for i := range w.want {
			if rng.Intn(4) == 0 {
				w.want[i] = g + rng.Float64()*2*math.Pi
			}
		}
	case 3: // tight, few far away
		w.shape(rng, 1, mean, fq)
		for i := range w.want {
			w.want[i] += 0.03 * rng.NormFloat64()
		}
		if rng.Intn(2) == 0 {
			w.want[rng.Intn(len(w.want))] = mean + math.Pi*rng.Float64()
		}
	case 4: // near where agents are left alone
		w.shape(rng, 1, g, fq)
		for i := range w.want {
			w.want[i] = g + []float64{0.005, 0.02, 0.03, 0.045, 0.055, 0.07, 0.1}[rng.Intn(7)]*float64(1-2*rng.Intn(2))
		}
	case 5: // two groups
		x := rng.Float64() * math.Pi
		for i := range w.want {
			w.want[i] = mean + x*float64(i%2)
			w.freq[i] = time.Duration(fq * float64(w.goal.Frequency))
		}
	case 6:
		w.shape(rng, rng.Float64(), mean, fq)
		for i := range w.want {
			w.freq[i] = time.Duration(fq * float64(w.goal.Frequency) * (0.5 + rng.Float64()))
		}
	case 7:
		for i := range w.want {
			w.want[i] = g + rng.Float64()*2*math.Pi
			w.freq[i] = time.Duration(fq * float64(w.goal.Frequency))
		}
	}
	if rng.Intn(3) == 0 {
		for i := range w.want {
			w.want[i] += 0.02 * rng.NormFloat64()
		}
	}
	w.restore()
}

func stepSetup(rng *rand.Rand, size int) setup {
	q := randSetup(rng, size)
	if rng.Intn(3) == 0 {
		q.goal.Phase = 0
	}
	if rng.Intn(3) == 0 {
		q.goal.Frequency = []time.Duration{250, 200, 225, 240, 100}[rng.Intn(5)] * time.Millisecond
	}
	if c := q.cfg; c != nil {
		if rng.Intn(2) == 0 {
			v := &c.Variation
			v.BaseRange[0] = 0.3 * rng.Float64()
			v.BaseRange[1] = v.BaseRange[0] + 0.3*rng.Float64()
			v.CoherenceFactor = 0.4 * rng.Float64()
			v.RandomWalkMagnitude = 0.3 * rng.Float64()
			v.PerturbationMagnitude = 0.3 * rng.Float64()
			v.PerturbationChance = []float64{0, 0.5, 1}[rng.Intn(3)]
			c.Resonance.NoiseMagnitude = 0.8 * rng.Float64()
			c.Resonance.AffectedAgents = 0.3 * rng.Float64()
			c.Convergence.BaseAdjustmentScale = 0.2 + 0.7*rng.Float64()
		}
		if rng.Intn(2) == 0 {
			c.Thresholds.PhaseVariance = 0.05 + 0.8*rng.Float64()
			c.Thresholds.HighCoherence = 0.4 + 0.55*rng.Float64()
			c.Thresholds.VeryHighCoherence = c.Thresholds.HighCoherence + 0.04
			c.Thresholds.ModerateCoherence = c.Thresholds.HighCoherence * (0.3 + 0.7*rng.Float64())
		}
		c.Strategy.MaxIterationsFactor = 30
	}
	return q
}

func runSteps(t *testing.T, r *vh.Recorder) {
	one := func(q setup, body func(tr *vh.Trace, w *world)) {
		r.Run(stepHeader(q), limit, func(tr *vh.Trace) {
			var s *swarm.Swarm
			if q.size > 100 {
				s = q.build()
			}
			synctest.Test(t, func(*testing.T) {
				vh.Guard(tr, func() {
					if s == nil {
						s = q.build()
					}
					body(tr, newWorld(s, q.goal))
				})
			})
		})
	}
	sizes := []int{1, 2, 3, 4, 5, 8, 10, 13, 19, 20, 30, 45, 50, 60, 90, 100, 101, 120}
	for k := range vh.N() {
		rng := vh.Rng(k)
		q := stepSetup(rng, sizes[k%len(sizes)])
		if q.via == "fromconfig" && q.size > 100 {
			q.via = "new"
		}
		kind := rng.Intn(5)
		if kind == 4 && q.goal.Coherence < 0.4 {
			kind = 0
		}
		one(q, func(tr *vh.Trace, w *world) {
			switch kind {
			case 0: // natural
				stepDrive(tr, q, w, func(int, *world) bool { return false }, 25)
			case 4: // idle: at the goal with another frequency
				w.shape(rng, 1, w.goal.Phase, 3)
				fr := w.freq[0]
				set := false
				stepDrive(tr, q, w, func(_ int, w *world) bool {
					for i := range w.want {
						w.want[i], w.freq[i] = w.goal.Phase+0.001, fr
					}
					w.restore()
					was := set
					set = true
					return was
				}, 24)
			default:
				stepDrive(tr, q, w, func(_ int, w *world) bool { arrange(rng, w, q); return false }, 8)
			}
		})
	}
	for i, ops := range vh.Ops() {
		rng := vh.Rng(i)
		o := ops[0]
		ph := o.Ints("ph")
		q := stepSetup(rng, len(ph)*[]int{1, 2, 15, 26}[rng.Intn(4)])
		q.via = "new"
		if q.cfg != nil {
			q.cfg.Strategy.MaxIterationsFactor = 3
		}
		q.goal = core.State{Phase: float64(o.I("g")) * math.Pi / 4, Frequency: 250 * time.Millisecond, Coherence: float64(o.I("t")) / 100}
		one(q, func(tr *vh.Trace, w *world) {
			stepDrive(tr, q, w, func(_ int, w *world) bool {
				for j := range w.want {
					w.want[j] = float64(ph[j%len(ph)])*math.Pi/4 + 0.002*rng.Float64()
					w.freq[j] = time.Duration(o.I("f")) * time.Millisecond
				}
				w.restore()
				return false
			}, 2)
		})
	}
}

// runReach lets undisturbed attempts run and records how coherent they get.
func runReach(t *testing.T, r *vh.Recorder) {
	sizes := []int{1, 2, 3, 4, 6, 8, 10, 15, 20, 30, 50, 60, 100, 101, 130}
	const updates = 60
	for k := range vh.N() {
		rng := vh.Rng(k)
		q := randSetup(rng, sizes[k%len(sizes)])
		if q.via == "fromconfig" && q.size > 100 {
			q.via = "new"
		}
		if q.cfg != nil {
			q.cfg.Strategy.MaxIterationsFactor = 100
		}
		if rng.Intn(4) == 0 {
			q.goal.Phase = 0
		}
		how := rng.Intn(6)
		r.Run(stepHeader(q), limit, func(tr *vh.Trace) {
			var s *swarm.Swarm
			if q.size > 100 {
				s = q.build()
			}
			synctest.Test(t, func(*testing.T) {
				vh.Guard(tr, func() {
					if s == nil {
						s = q.build()
					}
					w := newWorld(s, q.goal)
					n := float64(len(w.ag))
					for i := range w.want {
						switch how {
						case 1:
							w.want[i] = w.goal.Phase + math.Pi
						case 2:
							w.want[i] = float64(i) * 2 * math.Pi / n
						case 3:
							w.want[i] = w.goal.Phase + math.Pi/2 + math.Pi*float64(i%2)
						case 4:
							w.want[i] = rng.Float64() * 7
						case 5:
							w.want[i] = w.goal.Phase
						}
					}
					w.restore()
					u := q.conf().Strategy.UpdateInterval
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					done := make(chan error, 1)
					go func() { done <- w.s.Run(ctx) }()
					best, sum, cnt := 0.0, 0.0, 0
					var err error
					over := false
					for j := 1; j <= updates && !over; j++ {
						time.Sleep(u)
						synctest.Wait()
						w.take()
						m, _ := w.look()
						c := float64(m["coh"].(int)) / 1e6
						best = max(best, c)
						if j > updates-25 {
							sum += c
							cnt++
						}
						select {
						case err = <-done:
							over = true
						default:
						}
					}
					tr.Add("reach", "best", vh.Micro(best), "avg", vh.Micro(sum/float64(max(cnt, 1))), "n", cnt, "ok", over && err == nil, "gaveup", over && err != nil)
					cancel()
					if !over {
						<-done
					}
				})
			})
		})
	}
}
