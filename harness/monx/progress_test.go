package monx

import (
	"math"
	"runtime"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/convergence"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

type sampleOp struct {
	op    string
	c, ph int // coherence in 1/10000, phase in 1/1000
	dt    int
}

func runProgress(t *testing.T, r *vh.Recorder) {
	target := &core.TargetPattern{Phase: 0.5, Frequency: 200 * time.Millisecond, Coherence: 0.95}
	answers := func(m *convergence.Monitor, rv []int) vh.Ev {
		p := m.GetProgress()
		return vh.Ev{"conv": m.IsConverging(), "stuck": m.IsStuck(), "switch": m.ShouldSwitchStrategy(),
			"prog": vh.Micro(p), "unit": vh.Unit(p), "rate": vh.Micro(m.GetConvergenceRate()), "rv": append([]int{}, rv...)}
	}
	one := func(w int, ops []sampleOp) {
		r.Run(vh.Ev{"w": w}, limit, func(tr *vh.Trace) {
			synctest.Test(t, func(*testing.T) {
				vh.Guard(tr, func() {
					m := convergence.NewMonitor(w)
					m.SetTarget(target)
					eff := w
					if eff <= 0 {
						eff = 10
					}
					var rv []int
					prev := 0.0
					for _, o := range ops {
						switch o.op {
						case "rec":
							time.Sleep(time.Duration(o.dt) * time.Millisecond)
							cur := &core.TargetPattern{Phase: 0.5 + float64(o.ph)/1000, Frequency: 200 * time.Millisecond, Coherence: float64(o.c) / 10000}
							d := core.PatternDistance(cur, target)
							m.RecordSample(cur, cur.Coherence)
							pace := 0
							if len(rv) > 0 && o.dt > 0 {
								pace = vh.Micro((d - prev) / (float64(o.dt) / 1000))
							}
							prev = d
							rv = append(rv, pace)
							if len(rv) > 2*eff+1 {
								rv = rv[len(rv)-2*eff:]
							}
							tr.Add("rec", "d", vh.Micro(d), "dt", o.dt, "o", answers(m, rv))
						case "reset":
							m.Reset()
							rv = nil
							tr.Add("reset", "o", answers(m, rv))
						}
					}
					tr.Add("again", "o", answers(m, rv))
				})
			})
		})
	}
	for i, ops := range vh.Ops() {
		var so []sampleOp
		for _, o := range ops {
			so = append(so, sampleOp{op: o.S("op"), c: o.I("c"), dt: o.I("dt")})
		}
		one([]int{3, 2, 4}[i%3], so)
	}
	for i := range vh.N() {
		g := vh.Rng(i)
		w := []int{0, -3, 1, 2, 3, 4, 5, 7, 10, 12, 20}[g.Intn(11)]
		var so []sampleOp
		c, ph := 1000+g.Intn(4000), g.Intn(3)*g.Intn(1500)
		mode := g.Intn(5)
		n := 5 + g.Intn(50)
		for k := 0; k < n; k++ {
			if g.Intn(40) == 0 {
				so = append(so, sampleOp{op: "reset"})
			}
			if g.Intn(9) == 0 {
				mode = g.Intn(6)
			}
			switch mode {
			case 0: // steady improvement
				c += 10 + g.Intn(300)
			case 1: // flat
			case 2: // diverging
				c -= 10 + g.Intn(200)
			case 3: // noise
				c += g.Intn(400) - 200
			case 4: // crawling around the threshold
				c += 25 + g.Intn(20)
			case 5:
				ph = max(0, ph-g.Intn(60))
			}
			c = min(9500, max(0, c))
			dt := []int{100, 200, 500, 1000}[g.Intn(4)]
			if g.Intn(12) == 0 {
				dt = 0
			}
			so = append(so, sampleOp{op: "rec", c: c, ph: ph, dt: dt})
		}
		one(w, so)
	}
	// without a target, and a target that is set later
	r.Run(vh.Ev{"w": 4}, limit, func(tr *vh.Trace) {
		m := convergence.NewMonitor(4)
		cur := &core.TargetPattern{Phase: 1, Frequency: time.Second, Coherence: 0.2}
		for k := range 30 {
			if k == 12 {
				m.SetTarget(target)
			}
			if k == 20 {
				m.SetTarget(nil)
			}
			if k%7 == 3 {
				m.RecordSample(nil, 0.1)
			} else {
				m.RecordSample(cur, 0.1)
			}
			p := m.GetProgress()
			m.IsConverging()
			m.IsStuck()
			m.ShouldSwitchStrategy()
			tr.Add("untargeted", "unit", vh.Unit(p) && !math.IsNaN(p))
		}
	})
	// memory
	for _, w := range []int{0, 1, 10} {
		r.Run(vh.Ev{"w": w}, limit, func(tr *vh.Trace) {
			m := convergence.NewMonitor(w)
			m.SetTarget(target)
			var a, b runtime.MemStats
			runtime.GC()
			runtime.ReadMemStats(&a)
			cur := &core.TargetPattern{Phase: 1, Frequency: time.Second, Coherence: 0.2}
			for range 400000 {
				m.RecordSample(cur, 0.1)
			}
			runtime.GC()
			runtime.ReadMemStats(&b)
			runtime.KeepAlive(m)
			tr.Add("bulk", "kb", (int(b.HeapAlloc)-int(a.HeapAlloc))/1024)
		})
	}
}
