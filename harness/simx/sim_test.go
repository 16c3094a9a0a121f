// Package simx drives whole simulations through their control actions.
package simx

import (
	"context"
	"math"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 120 * time.Second

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	if vh.UnitName() != "sim" {
		t.Fatal("unknown unit")
	}
	runSim(r)
}

var goals = []struct {
	n string
	g goal.Type
}{{"batch", goal.MinimizeAPICalls}, {"load", goal.DistributeLoad}, {"consensus", goal.ReachConsensus}, {"latency", goal.MinimizeLatency},
	{"energy", goal.SaveEnergy}, {"rhythm", goal.MaintainRhythm}, {"recover", goal.RecoverFromFailure}, {"traffic", goal.AdaptToTraffic}}

// vain counts waits that ended without what was waited for.
var vain atomic.Int32

type rig struct {
	t        *vh.Trace
	s        *simulation.Simulation
	cancel   context.CancelFunc
	done     chan struct{}
	paused   bool
	busy     bool // the pattern makes work all the time
	raisedAt time.Time
	begun    time.Time // started or reset
}

type look struct {
	s    simulation.Snapshot
	true float64
	ids  []string
	ph   map[string]float64
	sent int
	pend int
	st   simulation.Statistics
	own  time.Duration // since the harness started or reset it
}

func (r *rig) look() look {
	l := look{s: r.s.Snapshot(), ph: map[string]float64{}}
	l.own = -1
	if !r.begun.IsZero() {
		l.own = time.Since(r.begun)
	}
	l.st = r.s.Statistics()
	l.true = l.st.FinalCoherence
	for _, a := range l.s.Agents {
		if _, ok := l.ph[a.ID]; !ok {
			l.ids = append(l.ids, a.ID)
		}
		l.ph[a.ID] = a.Phase
		l.sent += a.BatchesSent
		l.pend += a.PendingTasks
	}
	sort.Strings(l.ids)
	return l
}

func (l look) phases() []int {
	q := []int{}
	for _, id := range l.ids {
		q = append(q, vh.Ph(l.ph[id]))
	}
	return q
}

func (l look) ev() vh.Ev {
	c, s := 0.0, 0.0
	for _, p := range l.ph {
		c += math.Cos(p)
		s += math.Sin(p)
	}
	n := math.Max(1, float64(len(l.ph)))
	return vh.Ev{"paused": l.s.Paused, "coh": vh.Micro(l.s.Coherence), "true": vh.Micro(l.true), "phcoh": vh.Micro(math.Hypot(c, s) / n), "ph": l.phases(), "ids": len(l.ids),
		"pend": l.s.PendingTasks, "pendsum": l.pend, "sent": l.sent, "batches": l.s.BatchesProcessed, "with": vh.Milli(l.s.CostWithSync),
		"without": vh.Milli(l.s.CostWithoutSync), "sav": vh.Milli(l.s.Savings), "queue": l.s.CurrentBatchSize, "target": vh.Micro(l.s.TargetCoherence),
		"last": l.s.LastBatchSize, "just": l.s.BatchJustSent, "age": ms(l.s.Timestamp.Sub(l.s.LastBatchTime)), "own": ms(l.own), "el": ms(l.s.ElapsedTime),
		"peak": vh.Micro(l.st.PeakCoherence), "ttc": ms(l.st.TimeToConverge), "conv": l.st.TimeToConverge != 0, "calls": l.st.TotalAPICalls, "stb": l.st.TotalBatches, "stw": vh.Milli(l.st.CostWithSync),
		"sto": vh.Milli(l.st.CostWithoutSync), "avg": vh.Milli(l.st.AverageBatchSize)}
}

func ms(d time.Duration) int {
	if d == -1 {
		return -1
	}
	return int(min(d.Milliseconds(), 2000000000))
}

func same(a, b look) bool {
	return a.s.PendingTasks == b.s.PendingTasks && a.sent == b.sent && a.s.BatchesProcessed == b.s.BatchesProcessed && math.Abs(a.true-b.true) < 1e-9 &&
		a.s.CurrentBatchSize == b.s.CurrentBatchSize
}

// still looks twice with a while in between, again when something was still ending.
func (r *rig) still(quiet bool) (look, look) {
	time.Sleep(60 * time.Millisecond)
	a := r.look()
	var b look
	for range 8 {
		time.Sleep(220 * time.Millisecond)
		b = r.look()
		if !quiet || same(a, b) {
			return a, b
		}
		a = b
	}
	vain.Add(1)
	time.Sleep(220 * time.Millisecond)
	return a, r.look()
}

func (r *rig) start() {
	if r.cancel != nil {
		return
	}
	var ctx context.Context
	ctx, r.cancel = context.WithCancel(context.Background())
	r.done = make(chan struct{})
	r.t.Add("start")
	r.begun = time.Now()
	go func() { _ = r.s.Start(ctx); close(r.done) }()
	time.Sleep(30 * time.Millisecond)
}

func (r *rig) pause() {
	t0 := time.Now()
	before := r.s.Snapshot().Coherence
	r.s.Pause()
	tight := time.Since(t0) < 15*time.Millisecond
	r.paused = true
	a, b := r.still(true)
	r.t.Add("pause", "before", vh.Micro(before), "tight", tight, "a", a.ev(), "b", b.ev())
}

func (r *rig) resume() {
	a := r.look()
	r.s.Resume()
	r.paused = false
	p := r.s.Snapshot().Paused
	alive := true
	if r.cancel != nil && r.busy {
		alive = false
		for range 800 {
			time.Sleep(10 * time.Millisecond)
			if b := r.look(); b.pend != a.pend || b.sent != a.sent {
				alive = true
				break
			}
		}
		if !alive {
			vain.Add(1)
		}
	}
	r.t.Add("resume", "paused", p, "alive", alive)
}

func (r *rig) hold() {
	quiet := r.paused || r.cancel == nil
	a, b := r.still(quiet)
	r.t.Add("hold", "a", a.ev(), "b", b.ev())
}

// refresh reads the real phases of a paused simulation.
func (r *rig) refresh() (look, bool) {
	t0 := r.s.Statistics().FinalCoherence
	r.s.Resume()
	r.s.Pause()
	l := r.look()
	return l, math.Abs(l.true-t0) > 1e-9
}

func (r *rig) reset() {
	settled := false
	var a look
	if r.paused {
		var b look
		a, b = r.still(true)
		settled = same(a, b)
	}
	r.begun = time.Now()
	r.s.Reset()
	r.raisedAt = time.Now()
	w := r.look()
	e := vh.Ev{}
	moved, q := false, []int{}
	if r.paused {
		l, m := r.refresh()
		moved = m
		q = l.phases()
		sort.Ints(q)
	} else {
		a = w
	}
	r.t.Add("reset", "flag", w.s.Reset, "settled", settled, "w", w.ev(), "ph0", a.phases(), "coh0", vh.Micro(a.s.Coherence), "moved", moved, "q", q)
	_ = e
}

func (r *rig) disrupt() {
	var p look
	m1, m2, still, cleared := false, false, true, true
	if r.paused {
		r.still(true)
		p, m1 = r.refresh()
	}
	r.s.Disrupt()
	r.raisedAt = time.Now()
	flag := r.s.Snapshot().Disrupted
	q := p
	truth := r.s.Statistics().FinalCoherence
	if r.paused {
		q, m2 = r.refresh()
		truth = q.true
		time.Sleep(250 * time.Millisecond)
		still = r.s.Snapshot().Disrupted
		if tgt := q.s.TargetCoherence; truth > tgt {
			cleared = false
			for range 600 {
				if !r.s.Snapshot().Disrupted {
					cleared = true
					break
				}
				time.Sleep(10 * time.Millisecond)
			}
		}
	} else if r.cancel == nil || r.cancel != nil {
		// the target may be regained at once: the flag is only judged when it cannot be
		flag = flag || truth >= q.s.TargetCoherence
	}
	r.t.Add("disrupt", "flag", flag, "moved", m1 || m2, "p", p.phases(), "q", q.phases(), "true", vh.Micro(truth), "still", still, "cleared", cleared)
}

func (r *rig) stop() {
	if r.cancel == nil {
		return
	}
	r.cancel()
	ended := true
	select {
	case <-r.done:
	case <-time.After(20 * time.Second):
		ended = false
		vain.Add(1)
	}
	r.t.Add("stop", "ended", ended)
	a, b := r.still(true)
	r.t.Add("hold", "a", a.ev(), "b", b.ev())
}

func (r *rig) flag(kind string, lim int) {
	lo := time.Since(r.raisedAt)
	s := r.s.Snapshot()
	hi := time.Since(r.raisedAt)
	shown := s.Reset
	if kind == "disrupt" {
		shown = s.Disrupted
	}
	r.t.Add("flag", "kind", kind, "lim", lim, "lo", int(lo.Milliseconds()), "hi", int(hi.Milliseconds()), "shown", shown)
}

func (r *rig) op(o string) {
	switch o {
	case "start":
		r.start()
	case "pause":
		r.pause()
	case "resume":
		r.resume()
	case "reset":
		r.reset()
	case "disrupt":
		r.disrupt()
	case "look":
		r.hold()
	}
}

func runSim(r *vh.Recorder) {
	race := vh.Race()
	var jobs []func()
	add := func(gi int, pat pattern.Type, target float64, body func(x *rig)) {
		if target < 0 {
			target = scale.Tiny.DefaultTargetCoherence()
		}
		h := vh.Ev{"goal": goals[gi].n, "n": scale.Tiny.DefaultAgentCount(), "target": vh.Micro(target)}
		jobs = append(jobs, func() {
			r.Run(h, limit, func(t *vh.Trace) {
				s, err := simulation.New(simulation.BuildConfig{Goal: goals[gi].g, Scale: scale.Tiny, Pattern: pat, TargetCoherence: target})
				if err != nil {
					panic(err)
				}
				x := &rig{t: t, s: s, busy: pat == pattern.HighFrequency}
				body(x)
				x.stop()
			})
		})
	}
	// long-lived flags first
	long := 2
	if race {
		long = 0
	}
	for i := range long {
		add(0, pattern.Steady, 0.9, func(x *rig) {
			x.pause()
			x.start()
			x.reset()
			x.disrupt()
			time.Sleep(time.Duration(4+8*i) * time.Second)
			x.disrupt()
			for x.flag("disrupt", 30000); time.Since(x.raisedAt) < 29*time.Second; x.flag("disrupt", 30000) {
				time.Sleep(900 * time.Millisecond)
			}
			if vh.Thorough() {
				time.Sleep(5 * time.Second)
				x.flag("disrupt", 30000)
			}
		})
	}
	for i := range long {
		add(i, pattern.Steady, -1, func(x *rig) {
			x.start()
			x.pause()
			for k := range 3 {
				x.reset()
				for range 4 {
					time.Sleep(time.Duration(240+60*k) * time.Millisecond)
					x.flag("reset", 2000)
				}
			}
			time.Sleep(5100 * time.Millisecond)
			x.flag("reset", 2000)
		})
	}
	for i, ops := range vh.Ops() {
		g := vh.Rng(i)
		pat := pattern.HighFrequency
		if g.Intn(4) == 0 {
			pat = []pattern.Type{pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse, pattern.Unset}[g.Intn(5)]
		}
		add(g.Intn(len(goals)), pat, []float64{-1, -1, 0.3, 0.95}[g.Intn(4)], func(x *rig) {
			for _, o := range ops {
				x.op(o.S("op"))
			}
		})
	}
	for i := range vh.N() {
		g := vh.Rng(i)
		gi := i % len(goals)
		switch {
		case race:
			add(gi, []pattern.Type{pattern.HighFrequency, pattern.Burst, pattern.Mixed}[g.Intn(3)], -1, func(x *rig) { storm(x, g) })
		case i%3 == 0: // driven again after many pauses
			add(0, pattern.HighFrequency, 0.9, func(x *rig) {
				x.start()
				for range 1 + g.Intn(3) {
					x.s.Pause()
					for range g.Intn(3) {
						x.s.Resume()
					}
				}
				x.pause()
				x.reset()
				x.resume()
				for range g.Intn(4) {
					x.s.Resume()
				}
				t0 := x.s.Statistics().FinalCoherence
				moved := false
				for range 2500 {
					if math.Abs(x.s.Statistics().FinalCoherence-t0) > 0.02 {
						moved = true
						break
					}
					time.Sleep(10 * time.Millisecond)
				}
				if !moved {
					vain.Add(1)
				}
				x.t.Add("drive", "moved", moved)
				x.pause()
				x.reset()
				x.hold()
			})
		case i%3 == 1: // every goal's worst state, disrupted
			add(gi, pattern.HighFrequency, []float64{-1, 0.2, 0.9}[g.Intn(3)], func(x *rig) {
				x.start()
				time.Sleep(time.Duration(g.Intn(400)) * time.Millisecond)
				x.pause()
				x.reset()
				x.disrupt()
				x.disrupt()
			})
		default:
			add(gi, pattern.HighFrequency, -1, func(x *rig) { storm(x, g) })
		}
	}
	next := make(chan func())
	var wg sync.WaitGroup
	for range 7 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range next {
				if vain.Load() < 3 {
					j()
				}
			}
		}()
	}
	for _, j := range jobs {
		next <- j
	}
	close(next)
	wg.Wait()
}

// storm issues control actions from several goroutines at once.
func storm(x *rig, g *rand.Rand) {
	x.start()
	x.begun = time.Time{}
	var wg sync.WaitGroup
	for range 3 {
		q := rand.New(rand.NewSource(g.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for range 25 {
				switch q.Intn(7) {
				case 0, 1:
					x.s.Pause()
				case 2, 3:
					x.s.Resume()
				case 4:
					x.s.Reset()
				case 5:
					x.s.Disrupt()
				case 6:
					x.s.Snapshot()
				}
				time.Sleep(time.Duration(q.Intn(30)) * time.Millisecond)
			}
		}()
	}
	wg.Wait()
	x.s.Resume() // from a known state
	x.pause()
	x.reset()
	x.resume()
	x.pause()
}
