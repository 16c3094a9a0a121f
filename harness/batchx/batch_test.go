// Package batchx drives the simulation's batch manager and its totals.
package batchx

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 100 * time.Second

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	switch vh.UnitName() {
	case "batch":
		runBatch(r)
	case "totals":
		runTotals(t, r)
	default:
		t.Fatal("unknown unit")
	}
}

func obs(m *simulation.MetricsCollector) vh.Ev {
	s := m.Current()
	b := m.BatchSizeDistribution()
	return vh.Ev{"calls": s.TotalAPICalls, "batches": s.TotalBatches, "without": vh.Milli(s.CostWithoutSync), "with": vh.Milli(s.CostWithSync),
		"sav": vh.Milli(s.TotalSavings), "pct": int(math.Round(s.SavingsPercent)), "avg": vh.Milli(s.AverageBatchSize),
		"peak": vh.Micro(s.PeakCoherence), "conv": int(s.TimeToConverge / time.Microsecond),
		"d": []int{b["1-10"], b["11-25"], b["26-50"], b["51-75"], b["76-100"]}}
}

func tasks(n int, id string) []simulation.Task {
	r := make([]simulation.Task, n)
	for i := range r {
		r[i] = simulation.Task{ID: fmt.Sprintf("%s-%d", id, i), AgentID: id}
	}
	return r
}

// lost counts waits in vain: after a few the verdict is clear and the rest is skipped.
var lost atomic.Int32

// rig is one batch manager with its totals and the bounds of what may be counted.
type rig struct {
	t       *vh.Trace
	b       *simulation.BatchManager
	m       *simulation.MetricsCollector
	cancel  context.CancelFunc
	done    chan struct{}
	lo, hi  int
	entries int
}

func newRig(t *vh.Trace) *rig {
	return &rig{t: t, b: simulation.NewBatchManager(), m: simulation.NewMetricsCollector()}
}

func (r *rig) submit(n int) {
	r.b.SubmitBatch("a", tasks(n, "a"))
	r.note(n)
}

func (r *rig) note(n int) {
	r.t.Add("submit", "v", n)
	if r.entries < 100 {
		r.lo += n
	}
	r.hi += n
	r.entries++
}

func (r *rig) start() {
	if r.cancel != nil {
		return
	}
	var ctx context.Context
	ctx, r.cancel = context.WithCancel(context.Background())
	done := make(chan struct{})
	r.done = done
	r.t.Add("start")
	go func() { r.b.ProcessBatches(ctx, r.m); close(done) }()
}

func (r *rig) stop() {
	if r.cancel == nil {
		return
	}
	r.cancel()
	ended := true
	select {
	case <-r.done:
	case <-time.After(20 * time.Second):
		ended = false
	}
	r.cancel = nil
	r.t.Add("stop", "ended", ended)
}

// settle waits until everything that may still be counted has been.
func (r *rig) settle() {
	if r.cancel == nil {
		time.Sleep(3 * time.Millisecond)
		r.t.Add("still", "o", obs(r.m))
		return
	}
	end := time.Now().Add(10 * time.Second)
	was := r.m.Current()
	since := time.Now()
	steps, one := true, 0
	for time.Now().Before(end) {
		now := r.m.Current()
		if now.TotalBatches != was.TotalBatches || now.TotalAPICalls != was.TotalAPICalls {
			k, n := now.TotalBatches-was.TotalBatches, now.TotalAPICalls-was.TotalAPICalls
			if k < 0 || n < k || n > 100*k {
				steps = false
			}
			one = 0
			if k == 1 {
				one = n
			}
			was, since = now, time.Now()
		}
		if now.TotalAPICalls == r.hi || now.TotalAPICalls >= r.lo && time.Since(since) > 400*time.Millisecond {
			break
		}
		time.Sleep(time.Millisecond)
	}
	// the processor finishes its bookkeeping after counting
	time.Sleep(40 * time.Millisecond)
	if one != 0 {
		for range 300 {
			if _, l := r.b.LastBatchInfo(); l == one {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	_, last := r.b.LastBatchInfo()
	o := obs(r.m)
	if o["calls"].(int) < r.lo {
		lost.Add(1)
	}
	r.t.Add("settle", "o", o, "steps", steps, "last", last, "one", one)
	r.lo, r.hi, r.entries = o["calls"].(int), o["calls"].(int), 0
}

func (r *rig) reset(idle bool) {
	r.b.Reset()
	r.m.Reset()
	_, last := r.b.LastBatchInfo()
	r.t.Add("reset", "o", obs(r.m), "last", last)
	r.lo = 0
	if idle || r.cancel == nil {
		r.hi, r.entries = 0, 0
	}
}

func (r *rig) op(o string, v int) {
	switch o {
	case "submit":
		r.submit(v)
	case "fill":
		for range v {
			r.submit(1)
		}
	case "start":
		r.start()
	case "stop":
		if r.cancel != nil {
			r.settle()
			r.stop()
		}
	case "settle":
		r.settle()
	case "reset":
		r.reset(r.entries == 0)
	}
}

func (r *rig) end() {
	r.start()
	r.settle()
	r.stop()
}

// share submits lists within one window and tells how many batches they made at best.
func share(t *vh.Trace, g *rand.Rand) {
	gap := []time.Duration{0, 0, 5 * time.Millisecond, 15 * time.Millisecond}[g.Intn(4)]
	k := 2 + g.Intn(4)
	best := 1 << 20
	for range 8 {
		b, m := simulation.NewBatchManager(), simulation.NewMetricsCollector()
		ctx, cancel := context.WithCancel(context.Background())
		total := 0
		send := func(i int) {
			n := 1 + g.Intn(100/k)
			total += n
			b.SubmitBatch(fmt.Sprint(i), tasks(n, "s"))
		}
		if gap == 0 {
			for i := range k {
				send(i)
			}
			go b.ProcessBatches(ctx, m)
		} else {
			go b.ProcessBatches(ctx, m)
			send(0)
			send(1)
			time.Sleep(gap)
			send(2)
		}
		for range 3000 {
			if m.Current().TotalAPICalls >= total {
				break
			}
			time.Sleep(time.Millisecond)
		}
		cancel()
		best = min(best, m.Current().TotalBatches)
		if best == 1 {
			break
		}
	}
	t.Add("share", "batches", best)
}

func runBatch(r *vh.Recorder) {
	var jobs []func()
	run := func(body func(t *vh.Trace)) {
		jobs = append(jobs, func() { r.Run(vh.Ev{"at": 0}, limit, body) })
	}
	for _, ops := range vh.Ops() {
		run(func(t *vh.Trace) {
			x := newRig(t)
			for _, o := range ops {
				x.op(o.S("op"), o.I("v"))
			}
			x.end()
		})
	}
	for i := range vh.N() {
		g := vh.Rng(i)
		switch i % 4 {
		case 0:
			run(func(t *vh.Trace) { share(t, g) })
		case 1: // one list at a time
			run(func(t *vh.Trace) {
				x := newRig(t)
				x.start()
				for range 3 {
					x.submit([]int{1, 10, 11, 25, 26, 50, 51, 75, 76, 99, 100, 101, 199, 200, 201, 350, 1 + g.Intn(400)}[g.Intn(17)])
					x.settle()
				}
				x.stop()
			})
		case 2: // submitters at once
			run(func(t *vh.Trace) {
				x := newRig(t)
				x.start()
				for range 2 {
					var wg sync.WaitGroup
					var mu sync.Mutex
					sent := []int{}
					for w := range 2 + g.Intn(5) {
						q := rand.New(rand.NewSource(g.Int63()))
						wg.Add(1)
						go func() {
							defer wg.Done()
							for j := range 1 + q.Intn(8) {
								n := 1 + q.Intn(40)
								x.b.SubmitBatch(fmt.Sprint(w), tasks(n, fmt.Sprintf("%d.%d", w, j)))
								mu.Lock()
								sent = append(sent, n)
								mu.Unlock()
								if q.Intn(3) == 0 {
									time.Sleep(time.Duration(q.Intn(30)) * time.Millisecond)
								}
							}
						}()
					}
					wg.Wait()
					for _, n := range sent {
						x.note(n)
					}
					x.settle()
				}
				x.stop()
			})
		case 3: // resets at any moment
			run(func(t *vh.Trace) {
				x := newRig(t)
				x.start()
				for range 4 {
					for range g.Intn(6) {
						x.submit(1 + g.Intn(120))
						if g.Intn(3) == 0 {
							time.Sleep(time.Duration(g.Intn(70)) * time.Millisecond)
						}
					}
					if g.Intn(3) == 0 {
						x.settle()
					}
					x.reset(x.entries == 0)
				}
				x.submit(1 + g.Intn(120))
				x.settle()
				x.reset(true)
				x.end()
			})
		}
	}
	next := make(chan func())
	var wg sync.WaitGroup
	for range 7 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range next {
				if lost.Load() < 4 {
					j()
				}
			}
		}()
	}
	for _, j := range jobs {
		next <- j
	}
	close(next)
	wg.Wait()
}

func runTotals(tt *testing.T, r *vh.Recorder) {
	play := func(ops []vh.Op, g *rand.Rand) {
		r.Run(vh.Ev{"at": 0}, limit, func(t *vh.Trace) {
			synctest.Test(tt, func(*testing.T) {
				t0 := time.Now()
				m := simulation.NewMetricsCollector()
				vh.Guard(t, func() {
					for _, o := range ops {
						v := o.I("v")
						at := int(time.Since(t0) / time.Microsecond)
						switch o.S("op") {
						case "batch":
							w, b := float64(v)*0.03, 0.015
							m.RecordBatch(v, w, b, w-b)
							t.Add("batch", "v", v, "o", obs(m))
						case "coh":
							m.UpdateCoherence(float64(v) / 1e6)
							t.Add("coh", "v", v, "at", at, "o", obs(m))
						case "reset":
							m.Reset()
							t.Add("resetm", "at", at, "o", obs(m))
						case "wait":
							time.Sleep(time.Duration(1+g.Intn(3000)) * time.Millisecond)
							t.Add("wait", "o", obs(m))
						}
					}
				})
			})
		})
	}
	for i, ops := range vh.Ops() {
		play(ops, vh.Rng(i))
	}
	for i := range vh.N() {
		g := vh.Rng(i)
		var ops []vh.Op
		for range 30 {
			o := []string{"batch", "batch", "coh", "wait"}[g.Intn(4)]
			v := 1 + g.Intn(100)
			if o == "coh" {
				v = []int{g.Intn(1000001), 700000, 699999}[g.Intn(3)]
			}
			if g.Intn(15) == 0 {
				o = "reset"
			}
			ops = append(ops, vh.Op{"op": o, "v": float64(v)})
		}
		play(ops, g)
	}
}
