// Package uix drives the user controls: the controllers, the runner with a
// stand-in display, and the demo program.
package uix

import (
	"context"
	"errors"
	"math"
	"math/rand"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/mum4k/termdash/keyboard"
	"github.com/mum4k/termdash/terminal/terminalapi"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/display"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
	"github.com/carlisia/bio-adapt/simulations/emerge/ui"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 20 * time.Second

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	switch vh.UnitName() {
	case "ctrl":
		runCtrl(t, r)
	case "runner":
		runRunner(t, r)
	case "runnerreal":
		runReal(r)
	case "app":
		runApp(t, r)
	default:
		t.Fatal("unknown unit")
	}
}

var events = map[display.EventType]string{
	display.EventQuit: "quit", display.EventReset: "reset", display.EventDisrupt: "disrupt", display.EventPause: "pause", display.EventResume: "resume",
	display.ScaleTiny: "tiny", display.ScaleSmall: "small", display.ScaleMedium: "medium", display.ScaleLarge: "large", display.ScaleHuge: "huge",
	display.GoalBatch: "batch", display.GoalLoad: "load", display.GoalConsensus: "consensus", display.GoalLatency: "latency",
	display.GoalEnergy: "energy", display.GoalRhythm: "rhythm", display.GoalFailure: "failure", display.GoalTraffic: "traffic",
	display.PatternHighFreq: "high", display.PatternBurst: "burst", display.PatternSteady: "steady", display.PatternMixed: "mixed", display.PatternSparse: "sparse"}

type val[T any] struct {
	n   string
	v   T
	key rune
}

var (
	scales = []val[scale.Size]{{"tiny", scale.Tiny, '1'}, {"small", scale.Small, '2'}, {"medium", scale.Medium, '3'}, {"large", scale.Large, '4'}, {"huge", scale.Huge, '5'}}
	goals  = []val[goal.Type]{{"batch", goal.MinimizeAPICalls, 'b'}, {"load", goal.DistributeLoad, 'l'}, {"consensus", goal.ReachConsensus, 'c'},
		{"latency", goal.MinimizeLatency, 't'}, {"energy", goal.SaveEnergy, 'e'}, {"rhythm", goal.MaintainRhythm, 'm'},
		{"failure", goal.RecoverFromFailure, 'f'}, {"traffic", goal.AdaptToTraffic, 'a'}}
	patterns = []val[pattern.Type]{{"high", pattern.HighFrequency, 'h'}, {"burst", pattern.Burst, 'u'}, {"steady", pattern.Steady, 'y'},
		{"mixed", pattern.Mixed, 'x'}, {"sparse", pattern.Sparse, 'z'}}
)

func press(c display.Controller, codes ...int) {
	kb := c.(*display.KeyboardController)
	for _, k := range codes {
		kb.ProcessKey(&terminalapi.Keyboard{Key: keyboard.Key(k)})
	}
}

// codes as the specification knows them
func codes(q []int) []int {
	o := make([]int, len(q))
	for i, k := range q {
		o[i] = k
		if k == int(keyboard.KeyEsc) {
			o[i] = -1000
		}
	}
	return o
}

func drain(c display.Controller) []string {
	got := []string{}
	for {
		select {
		case e := <-c.Events():
			n, ok := events[e.Type]
			if !ok {
				n = "unknown"
			}
			got = append(got, n)
		default:
			return got
		}
	}
}

// keys that have no meaning
var junk = []int{'g', 'G', 'i', 'j', 'k', 'n', 'o', 's', 'v', 'w', '0', '6', '7', '8', '9', int(keyboard.KeyEnter), int(keyboard.KeyTab), 0, 10, 127, 200}

func anyKey(rng *rand.Rand) int {
	const used = "qrdp 12345blctemfahuyxzQRDPBLCTEMFAHUYXZ"
	switch rng.Intn(8) {
	case 0:
		return junk[rng.Intn(len(junk))]
	case 1:
		return rng.Intn(340) - 70
	case 2:
		return int(keyboard.KeyEsc)
	default:
		return int(used[rng.Intn(len(used))])
	}
}

func runCtrl(tt *testing.T, r *vh.Recorder) {
	// every key alone
	r.Run(nil, limit, func(t *vh.Trace) {
		c := display.NewKeyboardController()
		for k := -70; k <= 256; k++ {
			press(c, k)
			t.Add("press", "keys", codes([]int{k}))
			t.Add("drain", "got", drain(c))
		}
	})
	// the keys shown for goals and patterns
	r.Run(nil, limit, func(t *vh.Trace) {
		c := display.NewKeyboardController()
		show := func(v, key string) {
			for _, k := range []string{key} {
				code := 0
				if len(k) == 1 {
					code = int(k[0])
				}
				press(c, code)
				ev := "none"
				if g := drain(c); len(g) == 1 {
					ev = g[0]
				}
				t.Add("short", "v", v, "key", code, "ev", ev)
			}
		}
		for _, g := range goals {
			show(g.n, g.v.ShortKey())
		}
		for _, p := range patterns {
			show(p.n, p.v.ShortKey())
		}
	})
	for i := range vh.N() {
		rng := vh.Rng(i)
		r.Run(nil, limit, func(t *vh.Trace) {
			c := display.NewKeyboardController()
			for range 1 + rng.Intn(4) {
				q := []int{}
				for range rng.Intn(16) {
					q = append(q, anyKey(rng))
				}
				press(c, q...)
				t.Add("press", "keys", codes(q))
				t.Add("drain", "got", drain(c))
			}
		})
		if i%4 == 0 {
			r.Run(nil, limit, func(t *vh.Trace) {
				synctest.Test(tt, func(*testing.T) { vh.Guard(t, func() { script(t, rng) }) })
			})
		}
	}
}

func script(t *vh.Trace, rng *rand.Rand) {
	var ev []display.ControlEvent
	var delays []time.Duration
	n := 1 + rng.Intn(14)
	names, due := []string{}, []int{}
	sum := time.Duration(0)
	nd := rng.Intn(n + 2)
	for i := range n {
		e := display.EventType(rng.Intn(23))
		ev = append(ev, display.ControlEvent{Type: e})
		names = append(names, events[e])
		if i < nd {
			d := time.Duration(rng.Intn(300)) * time.Millisecond
			delays = append(delays, d)
			sum += d
		}
		due = append(due, int(sum.Milliseconds()))
	}
	t0 := time.Now()
	c := display.NewAutomatedController(ev, delays)
	got, at := []string{}, []int{}
	for {
		select {
		case e := <-c.Events():
			got = append(got, events[e.Type])
			at = append(at, int(time.Since(t0).Milliseconds()))
			continue
		case <-time.After(10 * time.Second):
		}
		break
	}
	t.Add("script", "script", names, "due", due, "got", got, "at", at)
}

// fake is the display the runner is given.
type fake struct {
	mu                                  sync.Mutex
	sim                                 *simulation.Simulation
	fault                               string
	init, close, welcome, summary, late int
	n, bad, sumbad                      int
	calm                                bool // paused and settled: everything shown must be exact
	over                                bool
	real                                bool
	runWait                             time.Duration
}

var errFake = errors.New("fake display failure")

func (f *fake) Initialize() error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.init++
	if f.fault == "init" {
		return errFake
	}
	return nil
}
func (f *fake) Close() error { f.mu.Lock(); f.close++; f.mu.Unlock(); return errFake }
func (f *fake) ShowWelcome() { f.mu.Lock(); f.welcome++; f.mu.Unlock() }

func (f *fake) Update(s display.SimulationSnapshot) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.n++
	if f.over {
		f.late++
	}
	w := f.sim.Snapshot()
	ok := (f.real || s.ElapsedTime == w.ElapsedTime && s.Timestamp.Equal(w.Timestamp)) && s.TargetCoherence == w.TargetCoherence && len(s.Agents) == len(w.Agents)
	if f.calm {
		ok = ok && s.Coherence == w.Coherence && s.PendingTasks == w.PendingTasks && s.CurrentBatchSize == w.CurrentBatchSize && s.BatchesProcessed == w.BatchesProcessed &&
			s.CostWithoutSync == w.CostWithoutSync && s.CostWithSync == w.CostWithSync && s.Savings == w.Savings && s.SavingsPercent == w.SavingsPercent &&
			s.Paused == w.Paused && (f.real || s.Disrupted == w.Disrupted && s.Reset == w.Reset && s.BatchJustSent == w.BatchJustSent) &&
			s.LastBatchTime.Equal(w.LastBatchTime) && s.LastBatchSize == w.LastBatchSize
		for i := range s.Agents {
			if ok {
				a, b := s.Agents[i], w.Agents[i]
				ok = a.ID == b.ID && a.Type == b.Type && a.Icon == b.Icon && a.Phase == b.Phase && a.PendingTasks == b.PendingTasks &&
					a.BatchesSent == b.BatchesSent && a.InBurstMode == b.InBurstMode && a.ActivityLevel == b.ActivityLevel
			}
		}
	}
	if !ok {
		f.bad++
	}
}

func (f *fake) ShowSummary(s display.Statistics) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.summary++
	w := f.sim.Statistics()
	if f.calm && (s.TotalAPICalls != w.TotalAPICalls || s.TotalBatches != w.TotalBatches || s.AverageBatchSize != w.AverageBatchSize ||
		s.CostWithoutSync != w.CostWithoutSync || s.CostWithSync != w.CostWithSync || s.TotalSavings != w.TotalSavings || s.SavingsPercent != w.SavingsPercent ||
		math.Abs(s.FinalCoherence-w.FinalCoherence) > 1e-9 || s.PeakCoherence != w.PeakCoherence || s.TimeToConverge != w.TimeToConverge) {
		f.sumbad++
	}
}

func (f *fake) Run(ctx context.Context, _ *display.KeyboardController) error {
	if f.fault == "run" {
		time.Sleep(f.runWait)
		return errFake
	}
	<-ctx.Done()
	return nil
}

func runRunner(tt *testing.T, r *vh.Recorder) {
	one := func(i int, ops []vh.Op) {
		rng := vh.Rng(i)
		c := newCase(rng, ops)
		r.Run(c.h, limit, func(t *vh.Trace) {
			synctest.Test(tt, func(*testing.T) {
				vh.Guard(t, func() { c.run(t) })
				time.Sleep(40 * time.Second) // the simulation's timers end
			})
		})
	}
	for i, ops := range vh.Ops() {
		one(1000000+i, ops)
	}
	for i := range vh.N() {
		one(i, nil)
	}
}

type runCase struct {
	h         vh.Ev
	rng       *rand.Rand
	ops       []vh.Op
	s         val[scale.Size]
	g         val[goal.Type]
	p         val[pattern.Type]
	target    float64
	timeout   time.Duration
	every     time.Duration
	fault     string
	ctl       display.Controller
	sim       *simulation.Simulation
	f         *fake
	res       []*ui.RunResult
	done      chan struct{}
	start     time.Time
	began     time.Time
	pausedAt  time.Time
	paused    bool
	lastUpd   int
	lastUpdAt time.Time
	real      bool // on the real clock, with real work
}

func newCase(rng *rand.Rand, ops []vh.Op) *runCase {
	c := &runCase{rng: rng, ops: ops, s: scales[0], g: goals[rng.Intn(len(goals))], p: patterns[rng.Intn(len(patterns))]}
	if ops == nil && rng.Intn(10) == 0 {
		c.s = scales[1]
	}
	if c.s.n == "tiny" && rng.Intn(4) == 0 {
		c.g = goals[0]
	}
	c.target = 0.01
	if rng.Intn(3) == 0 {
		c.target = c.s.v.DefaultTargetCoherence()
	}
	c.every = []time.Duration{50, 100, 100, 170, 1000}[rng.Intn(5)] * time.Millisecond
	if ops == nil {
		switch rng.Intn(12) {
		case 0, 1:
			c.timeout = time.Duration(50+rng.Intn(1700)) * time.Millisecond
		case 2:
			c.fault = []string{"init", "run", "ctl"}[rng.Intn(3)]
		}
	}
	c.h = vh.Ev{"cfg": []string{c.s.n, c.g.n, c.p.n}, "timeout": int(c.timeout.Milliseconds()), "every": int(c.every.Milliseconds())}
	return c
}

func (c *runCase) ended() bool {
	select {
	case <-c.done:
		return true
	default:
		return false
	}
}

func (c *runCase) truth() float64 { return c.sim.Statistics().FinalCoherence }

func (c *runCase) began0() time.Time {
	s := c.sim.Snapshot()
	b := s.Timestamp.Add(-s.ElapsedTime)
	if c.real {
		// the two times of a snapshot are read one after the other
		for range 4 {
			s = c.sim.Snapshot()
			if x := s.Timestamp.Add(-s.ElapsedTime); x.After(b) {
				b = x
			}
		}
	}
	return b
}

func (c *runCase) wait(d, real time.Duration) {
	if c.real {
		d = real
	}
	time.Sleep(d)
}

func (c *runCase) run(t *vh.Trace) {
	// the simulation's batches are collected by a busy loop, which stops
	// virtual time: there nothing is sent, as sparse work needs two seconds
	p := pattern.Sparse
	if c.real {
		p = c.p.v
	}
	sim, err := simulation.New(simulation.BuildConfig{Goal: c.g.v, Scale: c.s.v, Pattern: p, TargetCoherence: c.target})
	if err != nil {
		panic(err)
	}
	c.sim = sim
	c.f = &fake{sim: sim, fault: c.fault, runWait: time.Duration(c.rng.Intn(700)) * time.Millisecond, real: c.real}
	if c.fault == "ctl" {
		c.ctl = display.NewNetworkController("x")
	} else {
		c.ctl = display.NewKeyboardController()
	}
	run := ui.NewRunner(ui.RunnerConfig{UpdateInterval: c.every, Timeout: c.timeout, CurrentGoal: c.g.v, CurrentScale: c.s.v, CurrentPattern: c.p.v}, sim, c.f, c.ctl)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c.done = make(chan struct{})
	c.start = time.Now()
	c.lastUpdAt = c.start
	go func() {
		c.res = append(c.res, run.Run(ctx))
		close(c.done)
	}()
	c.wait(37*time.Millisecond, 300*time.Millisecond)
	c.began = c.began0()
	switch {
	case c.real:
		c.long(t)
	case c.fault != "":
		time.Sleep(time.Second)
		if !c.ended() {
			cancel()
			time.Sleep(50 * time.Millisecond)
		}
	case c.ops != nil:
		for _, o := range c.ops {
			c.keys(t, c.pick(o.S("k")))
			c.pauseAwhile()
		}
	default:
		c.random(t)
	}
	if !c.ended() {
		c.updates(t)
		if c.rng.Intn(2) == 0 && c.paused && c.left() > 600*time.Millisecond {
			time.Sleep(600 * time.Millisecond)
		}
		c.settle()
		cancel()
		c.wait(30*time.Millisecond, 0)
		if c.real {
			c.waitEnd()
		}
		t.Add("cancel", "ended", c.ended())
	}
	if !c.ended() {
		return
	}
	c.f.mu.Lock()
	f := c.f
	c.f.mu.Unlock()
	time.Sleep(c.every / 2)
	f.mu.Lock()
	f.over = true
	f.mu.Unlock()
	time.Sleep(1500 * time.Millisecond)
	a := c.sim.Snapshot()
	ta := c.truth()
	time.Sleep(2500 * time.Millisecond)
	b := c.sim.Snapshot()
	quiet := ta == c.truth() && a.PendingTasks == b.PendingTasks && a.BatchesProcessed == b.BatchesProcessed && a.CurrentBatchSize == b.CurrentBatchSize
	errs, res := "", ""
	for _, x := range c.res {
		if x.Error != nil {
			errs = "other"
			if errors.Is(x.Error, errFake) {
				errs = "display"
			}
		}
		if x.ScaleEvent != 0 {
			res = events[x.ScaleEvent]
		}
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	t.Add("end", "fault", c.fault, "results", len(c.res), "err", errs, "res", res, "init", f.init, "close", f.close, "welcome", f.welcome,
		"summary", f.summary, "sumbad", f.sumbad, "late", f.late, "quiet", quiet)
}

// left is what remains of the time in which nothing is sent.
func (c *runCase) left() time.Duration {
	if c.real {
		return time.Hour
	}
	return 1950*time.Millisecond - time.Since(c.start)
}

func (c *runCase) waitEnd() {
	select {
	case <-c.done:
	case <-time.After(10 * time.Second):
	}
}

// settle tells the display whether what it is shown must be exact.
func (c *runCase) settle() {
	calm := c.paused && !c.pausedAt.IsZero() && time.Since(c.pausedAt) > 400*time.Millisecond
	c.f.mu.Lock()
	c.f.calm = calm
	c.f.mu.Unlock()
}

func (c *runCase) pauseAwhile() {
	d := time.Duration(0)
	switch c.rng.Intn(4) {
	case 0:
		d = time.Duration(c.rng.Intn(150)) * time.Millisecond
	case 1:
		d = time.Duration(400+c.rng.Intn(200)) * time.Millisecond
	}
	if d < c.left()-300*time.Millisecond {
		time.Sleep(d)
	}
}

// runReal runs simulations with real work on the real clock.
func runReal(r *vh.Recorder) {
	sem := make(chan bool, 6)
	var wg sync.WaitGroup
	for i := range vh.N() {
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			c := newCase(vh.Rng(i), nil)
			c.real, c.s, c.timeout, c.fault = true, scales[0], 0, ""
			c.p = patterns[i%4]
			c.h = vh.Ev{"cfg": []string{c.s.n, c.g.n, c.p.n}, "timeout": 0, "every": int(c.every.Milliseconds())}
			r.Run(c.h, limit, func(t *vh.Trace) { c.run(t) })
		}()
	}
	wg.Wait()
}

// long watches the work of a while with the simulation paused now and then.
func (c *runCase) long(t *vh.Trace) {
	for range 1 + c.rng.Intn(2) {
		time.Sleep(time.Duration(500+c.rng.Intn(1200)) * time.Millisecond)
		c.keys(t, []int{'p'})
		time.Sleep(900 * time.Millisecond)
		c.settle()
		time.Sleep(2 * c.every)
		c.updates(t)
		c.keys(t, []int{[]int{'r', 'd', 'p', 'g'}[c.rng.Intn(4)]})
		time.Sleep(200 * time.Millisecond)
		if c.rng.Intn(2) == 0 {
			c.keys(t, []int{' '})
			if c.rng.Intn(2) == 0 {
				c.keys(t, []int{'r'})
			}
		}
	}
	if !c.paused {
		c.keys(t, []int{'p'})
	}
	time.Sleep(900 * time.Millisecond)
	c.settle()
	time.Sleep(100 * time.Millisecond)
	if c.rng.Intn(2) == 0 {
		c.keys(t, []int{'q'})
	}
}

func up(rng *rand.Rand, k rune) int {
	if k >= 'a' && k <= 'z' && rng.Intn(3) == 0 {
		return int(k - 32)
	}
	return int(k)
}

func (c *runCase) pick(kind string) []int {
	one := func(k rune) []int { return []int{up(c.rng, k)} }
	switch kind {
	case "pause":
		return one('p')
	case "resume":
		return one(' ')
	case "reset":
		return one('r')
	case "disrupt":
		return one('d')
	case "quit":
		if c.rng.Intn(2) == 0 {
			return []int{int(keyboard.KeyEsc)}
		}
		return one('q')
	case "current":
		return one([]rune{c.s.key, c.g.key, c.p.key}[c.rng.Intn(3)])
	case "junk":
		return []int{junk[c.rng.Intn(len(junk))]}
	case "other":
		for {
			var k rune
			switch c.rng.Intn(3) {
			case 0:
				k = scales[c.rng.Intn(5)].key
			case 1:
				k = goals[c.rng.Intn(8)].key
			default:
				k = patterns[c.rng.Intn(5)].key
			}
			if k != c.s.key && k != c.g.key && k != c.p.key {
				return one(k)
			}
		}
	}
	panic("unknown kind " + kind)
}

// keys presses some keys together and looks what they did.
func (c *runCase) keys(t *vh.Trace, q []int) {
	if c.ended() {
		return
	}
	c.settle()
	settled := c.f.calm
	if len(q) != 1 || c.meaning(q[0]) != "quit" {
		c.f.mu.Lock()
		c.f.calm = false
		c.f.mu.Unlock()
	}
	was := c.sim.Snapshot().Disrupted
	tr := c.truth()
	press(c.ctl, q...)
	c.wait(23*time.Millisecond, 100*time.Millisecond)
	kb := c.ctl.Events()
	if c.real {
		was = true
		for range 500 {
			if len(kb) == 0 || c.ended() {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		time.Sleep(200 * time.Millisecond)
		for _, k := range q {
			if k == 'q' {
				c.waitEnd()
			}
		}
	}
	s := c.sim.Snapshot()
	began := c.began0()
	again := !began.Equal(c.began)
	if c.real {
		again = began.Sub(c.began) > 50*time.Millisecond
	}
	if s.Paused && !c.paused {
		c.pausedAt = time.Now()
	} else if s.Paused {
		// a resume and a pause in between stir it
		c.pausedAt = time.Now()
	}
	c.paused = s.Paused
	t.Add("keys", "keys", codes(q), "ended", c.ended(), "left", len(kb), "paused", s.Paused, "restarted", again, "was", was, "flag", s.Disrupted,
		"settled", settled, "still", math.Abs(tr-c.truth()) < 1e-12)
	c.began = began
	c.settle()
}

func (c *runCase) meaning(k int) string {
	if k == 'q' || k == 'Q' || k == int(keyboard.KeyEsc) {
		return "quit"
	}
	return ""
}

func (c *runCase) updates(t *vh.Trace) {
	c.f.mu.Lock()
	n, bad := c.f.n-c.lastUpd, c.f.bad
	c.lastUpd = c.f.n
	c.f.mu.Unlock()
	if c.real {
		t.Add("shown", "bad", bad)
		return
	}
	t.Add("updates", "n", n, "bad", bad, "ms", int(time.Since(c.lastUpdAt).Milliseconds()))
	c.lastUpdAt = time.Now()
}

func (c *runCase) random(t *vh.Trace) {
	kinds := []string{"pause", "pause", "resume", "reset", "disrupt", "disrupt", "current", "junk"}
	for range 3 + c.rng.Intn(8) {
		if c.left() < 100*time.Millisecond {
			return
		}
		if c.timeout == 0 {
			q := []int{}
			m := 1
			if c.rng.Intn(3) == 0 {
				m = 1 + c.rng.Intn(10)
			}
			for range m {
				q = append(q, c.pick(kinds[c.rng.Intn(len(kinds))])...)
			}
			if c.rng.Intn(9) == 0 {
				for range 1 + c.rng.Intn(3) {
					q[c.rng.Intn(len(q))] = c.pick([]string{"quit", "other", "other"}[c.rng.Intn(3)])[0]
				}
			}
			if c.rng.Intn(12) == 0 {
				q[c.rng.Intn(len(q))] = anyKey(c.rng)
			}
			c.keys(t, q)
			if c.ended() {
				return
			}
		}
		switch c.rng.Intn(5) {
		case 0, 1:
			c.pauseAwhile()
			c.settle()
		case 2:
			time.Sleep(time.Duration(c.rng.Int63n(int64(c.left()))))
			c.settle()
			if c.timeout == 0 {
				c.updates(t)
			}
		}
		if c.timeout > 0 {
			time.Sleep(time.Duration(c.rng.Int63n(int64(c.left()))))
		}
		t.Add("wait", "now", int(time.Since(c.start).Milliseconds()), "ended", c.ended())
		if c.ended() {
			return
		}
	}
}
