// Package runx drives synchronization runs under virtual time.
package runx

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 120 * time.Second

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	switch vh.UnitName() {
	case "run":
		runRuns(t, r)
	case "cont":
		runCont(t, r)
	case "step":
		runSteps(t, r)
	case "reach":
		runReach(t, r)
	default:
		t.Fatal("unknown unit")
	}
}

// world is a swarm whose agents the script sets and watches.
type world struct {
	s    *swarm.Swarm
	ag   []*agent.Agent
	goal core.State
	want []float64 // phases the script has set
	freq []time.Duration
}

func newWorld(s *swarm.Swarm, g core.State) *world {
	w := &world{s: s, goal: g}
	m := s.Agents()
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		w.ag = append(w.ag, m[k])
	}
	w.want = make([]float64, len(keys))
	w.freq = make([]time.Duration, len(keys))
	w.take()
	return w
}

// take makes the present state the one to watch for changes.
func (w *world) take() {
	for i, a := range w.ag {
		w.want[i], w.freq[i] = a.Phase(), a.Frequency()
	}
}

// put sets the agents; put back what was set with restore.
func (w *world) restore() {
	for i, a := range w.ag {
		a.SetPhase(w.want[i])
		a.SetFrequency(w.freq[i])
	}
	w.take()
}

func (w *world) touched() bool {
	for i, a := range w.ag {
		if a.Phase() != w.want[i] || a.Frequency() != w.freq[i] {
			return true
		}
	}
	return false
}

// measure looks at the agents, independently of the code under test.
func (w *world) measure() vh.Ev {
	c, s, d := 0.0, 0.0, 0.0
	var f float64
	far := 0
	for i := range w.ag {
		p := w.want[i]
		c += math.Cos(p)
		s += math.Sin(p)
		x := math.Abs(math.Remainder(p-w.goal.Phase, 2*math.Pi))
		d += x
		if x > 0.5 {
			far++
		}
		f += float64(w.freq[i])
	}
	n := float64(len(w.ag))
	pf := math.Abs(math.Remainder(math.Atan2(s, c)-w.goal.Phase, 2*math.Pi)) / math.Pi
	return vh.Ev{"coh": vh.Micro(math.Hypot(c, s) / n), "pf": vh.Micro(pf), "fq": vh.Micro(min(f/n/float64(w.goal.Frequency), 1000)),
		"conv": vh.Micro(1 - d/n/math.Pi), "mv": far > 0}
}

// shape gives the agents a coherence around the given mean phase.
func (w *world) shape(rng *rand.Rand, coh, mean, fq float64) {
	n := len(w.ag)
	pairs := n / 2
	odd := float64(n % 2)
	x := (coh*float64(n) - odd) / float64(2*max(pairs, 1))
	x = max(-1, min(1, x))
	d := math.Acos(x)
	perm := rng.Perm(n)
	for k, i := range perm {
		switch {
		case k == 2*pairs:
			w.want[i] = mean
		case k%2 == 0:
			w.want[i] = mean + d
		default:
			w.want[i] = mean - d
		}
		w.freq[i] = time.Duration(fq * float64(w.goal.Frequency))
	}
	w.restore()
}

type setup struct {
	size int
	via  string
	goal core.State
	cfg  *swarm.Config
	rec  *swarm.RecoveryConfig
}

func (q setup) build() *swarm.Swarm {
	if q.via == "fromconfig" {
		s, err := swarm.NewSwarmFromConfig(q.size, q.goal, config.AutoScaleConfig(q.size))
		if err != nil {
			panic(err)
		}
		return s
	}
	opts := []swarm.Option{}
	if q.cfg != nil {
		opts = append(opts, swarm.WithGoalConfig(q.cfg))
	}
	if q.rec != nil {
		opts = append(opts, swarm.WithRecoveryConfig(*q.rec))
	}
	s, err := swarm.New(q.size, q.goal, opts...)
	if err != nil {
		panic(err)
	}
	return s
}

// defaults are the values a swarm without a goal configuration works with.
func defaults() *swarm.Config {
	c := &swarm.Config{}
	c.Convergence = swarm.ConvergenceConfig{ToleranceSmall: swarm.DefaultToleranceSmall, ToleranceMedium: swarm.DefaultToleranceMedium,
		ToleranceLarge: swarm.DefaultToleranceLarge, PhaseConvergenceGoal: swarm.DefaultPhaseConvergenceGoal,
		PatternDistanceThreshold: swarm.DefaultPatternDistanceThreshold, BaseAdjustmentScale: swarm.DefaultBaseAdjustmentScale}
	c.Thresholds.HighCoherence = swarm.DefaultHighCoherence
	c.Strategy.MaxIterationsFactor, c.Strategy.UpdateInterval = swarm.DefaultMaxIterationsFactor, swarm.DefaultUpdateInterval
	return c
}

func (q setup) conf() *swarm.Config {
	if q.cfg == nil || q.via == "fromconfig" {
		return defaults()
	}
	return q.cfg
}

func (q setup) header() vh.Ev {
	c := q.conf()
	return vh.Ev{"size": q.size, "via": q.via, "goal": vh.Micro(q.goal.Coherence),
		"tols": []int{vh.Micro(c.Convergence.ToleranceSmall), vh.Micro(c.Convergence.ToleranceMedium), vh.Micro(c.Convergence.ToleranceLarge)},
		"pdt":  vh.Micro(c.Convergence.PatternDistanceThreshold), "pcg": vh.Micro(c.Convergence.PhaseConvergenceGoal),
		"high": vh.Micro(c.Thresholds.HighCoherence), "fac": int(math.Round(c.Strategy.MaxIterationsFactor * 100)), "timed": q.size <= 100}
}

func outcome(err error, ctx context.Context) string {
	switch {
	case err == nil:
		return "nil"
	case ctx.Err() != nil && errors.Is(err, ctx.Err()):
		return "ctx"
	}
	return "err"
}

// script decides what the agents look like before the k-th update.
type script func(k int, w *world)

type plan struct {
	script script
	end    int    // cancel the context after this update (-1: never)
	how    string // "cancel", "deadline", "before"
	again  bool   // a second run follows
}

func drive(t *vh.Trace, q setup, w *world, p plan, t0 time.Time, rng *rand.Rand) {
	u := q.conf().Strategy.UpdateInterval
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ended := false
	switch {
	case p.how == "before":
		cancel()
		ended = true
	case p.how == "deadline" && p.end >= 0:
		var c2 context.CancelFunc
		ctx, c2 = context.WithTimeout(ctx, time.Duration(p.end)*u+u*3/10)
		defer c2()
	}
	t.Add("start", "ctx", ended)
	begin := time.Now()
	var err error
	done := make(chan struct{})
	go func() {
		err = w.s.Run(ctx)
		close(done)
	}()
	isDone := func() bool {
		synctest.Wait()
		select {
		case <-done:
			return true
		default:
			return false
		}
	}
	over := false
	for k := 1; k <= 1010 && !over; k++ {
		// between two updates
		time.Sleep(time.Until(begin.Add(time.Duration(k)*u - u/2)))
		if isDone() {
			t.Add("early", "out", outcome(err, ctx))
			over = true
			break
		}
		p.script(k, w)
		m := w.measure()
		time.Sleep(time.Until(begin.Add(time.Duration(k)*u + u/4)))
		out := "run"
		if isDone() {
			out = outcome(err, ctx)
			over = true
		}
		at := int(begin.Add(time.Duration(k)*u).Sub(t0).Microseconds() / 100)
		t.Add("tick", "m", m, "out", out, "touched", w.touched(), "cur", vh.Micro(w.s.CurrentCoherence()), "isconv", w.s.IsConverged(),
			"ctime", int(w.s.ConvergenceTime().Microseconds()/100), "at", at)
		w.take()
		if !ended && !over && p.end == k {
			if p.how == "deadline" {
				time.Sleep(time.Until(begin.Add(time.Duration(k)*u + u*2/5)))
			} else {
				cancel()
			}
			ended = true
			t.Add("cancel")
		}
	}
	if over {
		p.script(1, w)
		cur := vh.Micro(w.s.CurrentCoherence())
		time.Sleep(3 * u)
		synctest.Wait()
		t.Add("quiet", "touched", w.touched(), "cur0", cur, "cur", vh.Micro(w.s.CurrentCoherence()))
		return
	}
	cancel()
	<-done
}

func randGoalConfig(rng *rand.Rand) *swarm.Config {
	goals := []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy,
		goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}
	c := swarm.For(goals[rng.Intn(len(goals))])
	if rng.Intn(2) == 0 {
		c.Convergence.ToleranceSmall = 0.01 + 0.04*rng.Float64()
		c.Convergence.ToleranceMedium = 0.002 + 0.03*rng.Float64()
		c.Convergence.ToleranceLarge = 0.001 + 0.02*rng.Float64()
		c.Convergence.PatternDistanceThreshold = 0.02 + 0.3*rng.Float64()
		c.Convergence.PhaseConvergenceGoal = 0.5 + 0.45*rng.Float64()
	}
	c.Strategy.MaxIterationsFactor = []float64{1, 2, 3.5, 7, 12.25, 40, 130}[rng.Intn(7)]
	if rng.Intn(12) == 0 {
		c.Strategy.MaxIterationsFactor = 400
	}
	c.Strategy.UpdateInterval = time.Duration(1+rng.Intn(50)) * 4 * time.Millisecond
	return c
}

func randSetup(rng *rand.Rand, size int) setup {
	g := core.State{Phase: rng.Float64() * 2 * math.Pi, Frequency: time.Duration(20+rng.Intn(400)) * time.Millisecond,
		Coherence: []float64{0.1, 0.35, 0.5, 0.62, 0.7, 0.8, 0.86, 0.9, 0.93, 0.96, 0.99, 1}[rng.Intn(12)] - 0.03*rng.Float64()}
	if rng.Intn(12) == 0 {
		g.Coherence = 1
	}
	q := setup{size: size, via: "new", goal: g, cfg: randGoalConfig(rng)}
	switch rng.Intn(8) {
	case 0:
		q.cfg = nil
	case 1:
		q.via = "fromconfig"
	}
	return q
}

// practical mirrors nothing of the code: it only steers the script near the target.
func near(q setup, rng *rand.Rand) float64 {
	t := q.goal.Coherence
	if q.via == "new" {
		for _, c := range []struct {
			n int
			p float64
		}{{5, 0.85}, {10, 0.92}, {20, 0.95}, {50, 0.97}, {100, 0.98}, {1 << 30, 0.99}} {
			if q.size < c.n {
				t = min(t, c.p)
				break
			}
		}
	}
	return t
}

func randScript(rng *rand.Rand, q setup, kind int) script {
	c := q.conf()
	tol := c.Convergence.ToleranceLarge
	if q.size < 10 {
		tol = c.Convergence.ToleranceSmall
	} else if q.size < 50 {
		tol = c.Convergence.ToleranceMedium
	}
	at := 1 + rng.Intn(12)
	t := near(q, rng)
	miss := func(w *world) { // clearly not there
		w.shape(rng, max(0.02, t-0.3-0.4*rng.Float64()), w.goal.Phase+0.8+rng.Float64(), 1+0.5*rng.Float64())
	}
	return func(k int, w *world) {
		switch kind {
		case 0: // never, then exactly there
			if k < at {
				miss(w)
			} else {
				w.shape(rng, min(1, t+0.02*rng.Float64()), w.goal.Phase, 1)
			}
		case 1: // never
			miss(w)
		case 2: // natural dynamics
			w.take()
		case 3: // around the tolerance
			e := []float64{-2.5, -2.1, -1.9, -1.2, -1.05, -0.95, -0.5, 0}[rng.Intn(8)]
			w.shape(rng, t+e*tol, w.goal.Phase+0.02*rng.Float64(), 1)
		case 4: // coherent, but elsewhere
			w.shape(rng, min(1, t+0.01), w.goal.Phase+rng.Float64()*2*math.Pi, 1)
		case 5: // coherent and there, at another frequency
			w.shape(rng, min(1, t+0.01), w.goal.Phase, 0.2+2*rng.Float64())
		case 6: // random mixtures
			w.shape(rng, rng.Float64(), w.goal.Phase+rng.NormFloat64()*0.5, 1+0.3*rng.NormFloat64()*rng.Float64())
		case 7: // overshoot
			w.shape(rng, t+(1-t)*rng.Float64(), w.goal.Phase+0.1*rng.NormFloat64(), 1)
		}
	}
}

func runRuns(t *testing.T, r *vh.Recorder) {
	sizes := []int{1, 2, 3, 4, 5, 8, 9, 10, 11, 19, 20, 30, 49, 50, 60, 99, 100, 101, 120}
	for k := range vh.N() {
		rng := vh.Rng(k)
		q := randSetup(rng, sizes[k%len(sizes)])
		if q.via == "fromconfig" && q.size > 100 {
			q.via = "new"
		}
		kind := rng.Intn(8)
		p := plan{script: randScript(rng, q, kind), end: -1}
		if rng.Intn(3) == 0 {
			p.end, p.how = rng.Intn(8), []string{"cancel", "cancel", "deadline", "before"}[rng.Intn(4)]
			if p.end == 0 && p.how == "cancel" {
				p.end = 1
			}
			if p.end == 0 && p.how == "deadline" {
				p.end = 2
			}
		}
		second := rng.Intn(4) == 0
		kind2 := rng.Intn(8)
		r.Run(q.header(), limit, func(tr *vh.Trace) {
			var s *swarm.Swarm
			if q.size > 100 {
				s = q.build()
			}
			synctest.Test(t, func(*testing.T) {
				vh.Guard(tr, func() {
					t0 := time.Now()
					if s == nil {
						s = q.build()
					}
					time.Sleep(time.Duration(rng.Intn(40)) * time.Millisecond)
					w := newWorld(s, q.goal)
					drive(tr, q, w, p, t0, rng)
					if second {
						drive(tr, q, w, plan{script: randScript(rng, q, kind2), end: -1}, t0, rng)
					}
				})
			})
		})
	}
}

func runCont(t *testing.T, r *vh.Recorder) {
	sizes := []int{3, 4, 8, 12, 25, 60, 100, 110}
	for k := range vh.N() {
		rng := vh.Rng(500000 + k)
		size := sizes[k%len(sizes)]
		top := map[bool]float64{true: 0.8, false: 0.9}[size < 5]
		q := setup{size: size, via: "new", goal: core.State{Phase: rng.Float64() * 6, Frequency: 100 * time.Millisecond,
			Coherence: 0.3 + (top-0.3)*rng.Float64()}}
		if rng.Intn(3) == 0 {
			q.goal.Coherence = top + 0.04*rng.Float64()
		}
		q.cfg = randGoalConfig(rng)
		q.cfg.Strategy.MaxIterationsFactor = []float64{0.5, 1, 2, 3, 4}[rng.Intn(5)]
		cu := [][2]int{{100, 73}, {100, 37}, {50, 37}, {200, 91}, {130, 47}, {250, 33}, {70, 109}}[rng.Intn(7)]
		q.cfg.Strategy.UpdateInterval = time.Duration(cu[1]) * time.Millisecond
		rec := swarm.DefaultRecoveryConfig(q.goal.Coherence)
		if rng.Intn(3) == 0 {
			rec.MinimumViableCoherence = 0.1 + 0.4*rng.Float64()
			rec.TargetMarginRatio = 0.5 + 0.45*rng.Float64()
			rec.SmallDropRatio = 0.02 + 0.1*rng.Float64()
			rec.LargeDropRatio = rec.SmallDropRatio + 0.2*rng.Float64()
		}
		rec.CheckInterval = time.Duration(cu[0]) * time.Millisecond
		if rng.Intn(5) > 0 {
			q.rec = &rec
		} else {
			rec.CheckInterval = swarm.DefaultCheckInterval
			if cu[0] != 100 {
				q.cfg.Strategy.UpdateInterval = 73 * time.Millisecond
			}
			rec = swarm.DefaultRecoveryConfig(q.goal.Coherence)
		}
		h := q.header()
		h["C"], h["U"], h["gap"] = int(rec.CheckInterval.Milliseconds()), int(q.cfg.Strategy.UpdateInterval.Milliseconds()), 500
		h["minv"], h["margin"], h["sdrop"], h["ldrop"] = vh.Micro(rec.MinimumViableCoherence), vh.Micro(rec.TargetMarginRatio), vh.Micro(rec.SmallDropRatio), vh.Micro(rec.LargeDropRatio)
		r.Run(h, limit, func(tr *vh.Trace) {
			var s *swarm.Swarm
			if q.size > 100 {
				s = q.build()
			}
			synctest.Test(t, func(*testing.T) {
				vh.Guard(tr, func() {
					if s == nil {
						s = q.build()
					}
					w := newWorld(s, q.goal)
					continuous(tr, h, q, w, rng)
				})
			})
		})
	}
}

func continuous(t *vh.Trace, h vh.Ev, q setup, w *world, rng *rand.Rand) {
	g := near(q, rng)
	next := func() {
		switch rng.Intn(7) {
		case 0, 1: // the target
			w.shape(rng, min(1, g+0.01+0.03*rng.Float64()), w.goal.Phase, 1)
		case 2: // ruined
			w.shape(rng, 0.02+0.3*rng.Float64(), w.goal.Phase+1+rng.Float64(), 1)
		case 3: // a small drop
			w.shape(rng, g*(0.85+0.2*rng.Float64()), w.goal.Phase+0.7, 1)
		case 4: // coherent elsewhere
			w.shape(rng, min(1, g+0.1*rng.Float64()), w.goal.Phase+1.5+rng.Float64(), 1)
		case 5: // very coherent elsewhere: a peak
			w.shape(rng, 1-0.05*rng.Float64(), w.goal.Phase+2, 1)
		case 6:
			w.shape(rng, 0.02+0.97*rng.Float64(), w.goal.Phase+rng.Float64()*6, 1)
		}
	}
	next()
	h["m"] = w.measure()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var err error
	done := make(chan struct{})
	go func() {
		err = w.s.RunContinuous(ctx)
		close(done)
	}()
	synctest.Wait()
	isDone := func() bool {
		synctest.Wait()
		select {
		case <-done:
			return true
		default:
			return false
		}
	}
	report := func() (int, bool, int) {
		return vh.Micro(w.s.CurrentCoherence()), w.s.IsConverged(), int(w.s.ConvergenceTime().Milliseconds())
	}
	horizon := 3000 + rng.Intn(4000)
	change := 1 + rng.Intn(900)
	now := 0
	for now < horizon && !isDone() {
		time.Sleep(time.Millisecond)
		synctest.Wait()
		now++
		if w.touched() {
			t.Add("touch", "at", now)
			w.restore()
		}
		if now == change {
			cur, isconv, ctime := report()
			next()
			t.Add("set", "at", now, "m", w.measure(), "cur", cur, "isconv", isconv, "ctime", ctime)
			change = now + 1 + rng.Intn([]int{60, 300, 1500}[rng.Intn(3)])
		}
	}
	before := isDone()
	cur, isconv, ctime := report()
	cancel()
	after := isDone()
	t.Add("end", "at", now, "before", before, "after", after, "ctxerr", errors.Is(err, context.Canceled),
		"cur", cur, "isconv", isconv, "ctime", ctime)
	for range 300 {
		time.Sleep(time.Millisecond)
		synctest.Wait()
		now++
		if w.touched() {
			t.Add("touch", "at", now)
			w.restore()
		}
	}
	if !after {
		panic(fmt.Sprint("RunContinuous does not end"))
	}
}
