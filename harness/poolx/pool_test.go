// Package poolx drives the worker pool and the agent pool.
package poolx

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 60 * time.Second

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	switch vh.UnitName() {
	case "wpool":
		runWorkPool(t, r)
	case "wpoolconc":
		runWorkBurst(r)
	case "apool":
		runAgentPool(r)
	case "apoolconc":
		runAgentBurst(r)
	default:
		t.Fatal("unknown unit")
	}
}

// rig is one worker pool and the jobs given to it.
type rig struct {
	t    *vh.Trace
	p    *swarm.WorkerPool
	base int

	mu    sync.Mutex
	gates []chan struct{}
	open  []bool
	n     []int
	run   map[int]bool
	peak  int
	wait  int
	stop  bool
}

func newRig(t *vh.Trace, w int) *rig {
	g := &rig{t: t, base: runtime.NumGoroutine(), run: map[int]bool{}}
	g.p = swarm.NewWorkerPool(w)
	return g
}

func (g *rig) submit() {
	g.mu.Lock()
	j := len(g.gates)
	gate := make(chan struct{})
	g.gates, g.open, g.n = append(g.gates, gate), append(g.open, false), append(g.n, 0)
	g.wait++
	g.mu.Unlock()
	go func() {
		g.p.Submit(func() {
			g.mu.Lock()
			g.n[j]++
			g.run[j] = true
			g.peak = max(g.peak, len(g.run))
			g.mu.Unlock()
			<-gate
			g.mu.Lock()
			delete(g.run, j)
			g.mu.Unlock()
		})
		g.mu.Lock()
		g.wait--
		g.mu.Unlock()
	}()
	g.t.Add("job", "j", j+1, "o", g.look())
}

func (g *rig) let(j int) {
	if j < 0 || j >= len(g.gates) || g.open[j] {
		return
	}
	g.open[j] = true
	close(g.gates[j])
	g.t.Add("go", "j", j+1, "o", g.look())
}

func (g *rig) stopIt() {
	g.mu.Lock()
	w := g.wait
	g.mu.Unlock()
	if g.stop || w > 0 { // what happens to calls under way at the stop is not specified
		return
	}
	g.stop = true
	g.p.Stop()
	g.t.Add("stop", "o", g.look())
}

// left counts the goroutines beyond those that were there at the start.
func (g *rig) left(want int) int {
	for range 3000 {
		if runtime.NumGoroutine()-g.base <= want {
			break
		}
		runtime.Gosched()
	}
	return max(0, runtime.NumGoroutine()-g.base)
}

func (g *rig) look() vh.Ev {
	synctest.Wait()
	g.mu.Lock()
	defer g.mu.Unlock()
	run := []int{}
	for j := range g.gates {
		if g.run[j] {
			run = append(run, j+1)
		}
	}
	left := 0
	if g.stop {
		left = g.left(len(run))
	}
	return vh.Ev{"run": run, "n": append([]int{}, g.n...), "wait": g.wait, "peak": g.peak, "left": left}
}

func runWorkPool(t *testing.T, r *vh.Recorder) {
	one := func(w int, body func(g *rig)) {
		synctest.Test(t, func(*testing.T) {
			tr := &vh.Trace{H: vh.Ev{"w": w}, Ev: []vh.Ev{}}
			var g *rig
			vh.Guard(tr, func() {
				g = newRig(tr, w)
				body(g)
				for j := range g.gates {
					g.let(j)
				}
				g.stopIt()
			})
			r.Put(tr)
			if g == nil || g.left(0) > 0 || len(tr.Ev) > 0 && tr.Ev[len(tr.Ev)-1]["op"] == "PANIC" {
				// goroutines that never end cannot leave the bubble
				r.Close()
				os.Exit(0)
			}
		})
	}
	for _, ops := range vh.Ops() {
		one(ops[0].I("v"), func(g *rig) {
			for _, o := range ops[1:] {
				switch o.S("op") {
				case "job":
					g.submit()
				case "go":
					g.let(o.I("v") - 1)
				case "stop":
					g.stopIt()
				}
			}
		})
	}
	for i := range vh.N() {
		rng := vh.Rng(i)
		w := 1 + rng.Intn(9)
		slow := rng.Intn(3)
		one(w, func(g *rig) {
			for range 10 + rng.Intn(50) {
				switch k := rng.Intn(100); {
				case k < 45 && !g.stop:
					g.submit()
				case k < 99 || g.stop:
					if len(g.gates) > 0 {
						if j := rng.Intn(len(g.gates)); slow == 0 || j%5 > slow-1 {
							g.let(j)
						}
					}
				default:
					g.stopIt()
				}
			}
		})
	}
}

// runWorkBurst lets many callers submit at once.
func runWorkBurst(r *vh.Recorder) {
	seen := vh.Dedup{}
	for i := range vh.N() {
		rng := vh.Rng(i)
		w, callers, each := 1+rng.Intn(8), 1+rng.Intn(8), 1+rng.Intn(60)
		kind := rng.Intn(4)
		t := &vh.Trace{}
		r2 := func(tr *vh.Trace) {
			base := runtime.NumGoroutine()
			p := swarm.NewWorkerPool(w)
			n := make([]int, callers*each) // written by the jobs without a lock: one job each
			var now, peak atomic.Int32
			var jobs, calls sync.WaitGroup
			jobs.Add(len(n))
			twice := atomic.Int32{}
			for c := range callers {
				calls.Add(1)
				go func() {
					defer calls.Done()
					for k := range each {
						arg := fmt.Sprint(c, k)
						p.Submit(func() {
							x := now.Add(1)
							for {
								m := peak.Load()
								if x <= m || peak.CompareAndSwap(m, x) {
									break
								}
							}
							switch {
							case kind == 1 && k%7 == 0:
								time.Sleep(time.Millisecond)
							case kind >= 2:
								runtime.Gosched()
							}
							id := c*each + k
							if len(arg) > 0 {
								n[id]++
							}
							m := n[id]
							now.Add(-1)
							if m == 1 {
								jobs.Done()
							} else {
								twice.Add(1)
							}
						})
					}
				}()
			}
			done := make(chan struct{})
			go func() { calls.Wait(); jobs.Wait(); close(done) }()
			never := 0
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				for _, x := range n {
					if x == 0 {
						never++
					}
				}
				never = max(never, 1)
			}
			p.Stop()
			left := 0
			if never == 0 {
				for range 20000 {
					if left = max(0, runtime.NumGoroutine()-base); left == 0 {
						break
					}
					time.Sleep(time.Millisecond)
				}
			}
			tr.Add("burst", "never", never, "twice", int(twice.Load()), "peak", int(peak.Load()), "left", left)
			if never > 0 || left > 0 {
				tr.H = vh.Ev{"w": w}
				r.Put(tr)
				r.Close()
				os.Exit(0)
			}
		}
		t.H = vh.Ev{"w": w}
		vh.Guard(t, func() { r2(t) })
		if seen.New(t) {
			r.Put(t)
		}
	}
}
