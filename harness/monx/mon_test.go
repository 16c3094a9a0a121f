// Package monx drives the monitors.
package monx

import (
	"math"
	"math/rand"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/convergence"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/monitoring"
	"github.com/carlisia/bio-adapt/internal/emerge"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 60 * time.Second

type mon interface {
	Record(float64)
	IsConverged() bool
	ConvergenceTime() time.Duration
	CurrentCoherence() float64
	ConvergenceRate() float64
	Stability() float64
	PredictConvergenceTime() time.Duration
	History() []float64
	Statistics() map[string]any
	Reset()
}

type plain interface {
	RecordSample(float64)
	History() []float64
	Latest() float64
	Average() float64
}

func newMon(i int, thr float64) mon {
	s := core.State{Phase: 1, Frequency: time.Second, Coherence: thr}
	if i == 0 {
		return monitoring.NewConvergence(s, thr)
	}
	return emerge.NewConvergenceMonitor(s, thr)
}

func newPlain(i int) plain {
	if i == 0 {
		return monitoring.New()
	}
	return emerge.NewMonitor()
}

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	switch vh.UnitName() {
	case "monitor":
		runSeq(t, r)
	case "monconc":
		runConc(r)
	case "progress":
		runProgress(t, r)
	default:
		t.Fatal("unknown unit")
	}
}

func num(x any) int {
	switch v := x.(type) {
	case float64:
		return vh.Micro(v)
	case int:
		return v
	}
	return vh.NaNU
}

func brief(m mon) vh.Ev {
	return vh.Ev{"cur": vh.Micro(m.CurrentCoherence()), "conv": m.IsConverged(), "ctime": int(m.ConvergenceTime().Milliseconds())}
}

func micros(q []float64) []int {
	r := make([]int, 0, len(q))
	for _, v := range q {
		r = append(r, vh.Micro(v))
	}
	return r
}

func full(m mon) vh.Ev {
	o := brief(m)
	h := m.History()
	o["hist"] = micros(h)
	for i := range h { // the caller's copy is the caller's
		h[i] = -1
	}
	st := m.Statistics()
	o["samples"], o["scur"], o["sconv"] = num(st["samples"]), num(st["current_coherence"]), st["converged"]
	o["max"], o["min"], o["mean"], o["srate"] = num(st["max"]), num(st["min"]), 0, num(st["convergence_rate"])
	if v, ok := st["mean"]; ok {
		o["mean"] = num(v)
	}
	o["stime"] = 0
	if v, ok := st["convergence_time"].(float64); ok {
		o["stime"] = vh.Milli(v)
	}
	rate := m.ConvergenceRate()
	o["rate"] = vh.Micro(rate)
	o["sd"] = 0
	if v, ok := st["std_dev"].(float64); ok {
		o["sd"] = vh.Milli(v)
	}
	// the spread that the stability stands for
	spread := func(x any) int {
		v, _ := x.(float64)
		return vh.Milli(-math.Log(v) / 10)
	}
	o["stab"], o["sstab"] = spread(m.Stability()), spread(st["stability"])
	pred := m.PredictConvergenceTime()
	o["psign"] = 0
	if pred != 0 {
		o["psign"] = map[bool]int{true: 1, false: -1}[pred > 0]
	}
	// what is left, by the predicted number of samples and the trend
	o["prem"] = vh.Micro(float64(pred) / float64(100*time.Millisecond) * rate)
	sp, ok := st["predicted_convergence_time"].(float64)
	o["psame"] = ok == (pred > 0) && (!ok || sp == pred.Seconds())
	return o
}

func seq(t *vh.Trace, m mon, ops []vh.Op, each bool) {
	t0 := time.Now()
	at := func() int { return int(time.Since(t0).Milliseconds()) }
	for _, o := range ops {
		switch o.S("op") {
		case "rec":
			v := float64(o.I("v")) / 1e6
			m.Record(v)
			t.Add("rec", "v", o.I("v"), "at", at(), "brief", true, "o", brief(m))
		case "reset":
			m.Reset()
			t.Add("reset", "at", at(), "o", full(m))
		case "wait":
			time.Sleep(time.Duration(o.I("v")) * time.Millisecond)
			t.Add("wait")
		case "report":
			t.Add("report", "o", full(m))
			t.Add("report", "o", full(m))
		}
	}
	t.Add("report", "o", full(m))
	t.Add("report", "o", full(m))
}

func runSeq(t *testing.T, r *vh.Recorder) {
	one := func(i int, thr int, ops []vh.Op) {
		r.Run(vh.Ev{"kind": "conv", "thr": thr}, limit, func(tr *vh.Trace) {
			synctest.Test(t, func(*testing.T) {
				vh.Guard(tr, func() { seq(tr, newMon(i, float64(thr)/1e6), ops, true) })
			})
		})
	}
	for k, ops := range vh.Ops() {
		one(k%2, 700000, ops)
	}
	for k := range vh.N() {
		rng := vh.Rng(k)
		thr := []int{0, 500000, 700000, 950000, 1000000}[rng.Intn(5)]
		n := []int{5, 30, 120}[rng.Intn(3)]
		if k == 0 || k == 1 {
			n = 1300
		}
		ops := []vh.Op{}
		walk := rng.Intn(1000001)
		for range n {
			switch x := rng.Intn(40); {
			case x == 0 && n < 1000:
				ops = append(ops, vh.Op{"op": "reset"})
			case x < 6:
				ops = append(ops, vh.Op{"op": "wait", "v": float64(1 + rng.Intn(200))})
			case x == 6 && n < 1000:
				ops = append(ops, vh.Op{"op": "report"})
			default:
				switch rng.Intn(4) {
				case 0:
					walk = rng.Intn(1000001)
				case 1:
					walk = max(0, min(1000000, thr+rng.Intn(5)-2))
				default:
					walk = max(0, min(1000000, walk+rng.Intn(200001)-90000))
				}
				ops = append(ops, vh.Op{"op": "rec", "v": float64(walk)})
			}
		}
		one(rng.Intn(2), thr, ops)
	}
	// coherences that stay the same for a while
	for k := range 60 {
		rng := vh.Rng(90000 + k)
		ops := []vh.Op{}
		for range 4 {
			v := rng.Intn(1000001)
			for range 1 + rng.Intn(16) {
				ops = append(ops, vh.Op{"op": "rec", "v": float64(v)}, vh.Op{"op": "report"})
			}
			if rng.Intn(3) > 0 {
				ops = append(ops, vh.Op{"op": "reset"})
			}
		}
		one(k%2, 500000+50000*rng.Intn(11), ops)
	}
	for k := range 12 {
		rng := vh.Rng(7000 + k)
		r.Run(vh.Ev{"kind": "plain"}, limit, func(t *vh.Trace) {
			p := newPlain(k % 2)
			t.Add("plain0", "latest", vh.Micro(p.Latest()), "avg", vh.Micro(p.Average()), "n", len(p.History()))
			for i := range []int{5, 99, 100, 101, 205, 330}[k/2] {
				v := rng.Intn(1000001)
				p.RecordSample(float64(v) / 1e6)
				h := p.History()
				hist := []int{}
				fullh := i%17 == 0 || i > 95 && i < 104 || rng.Intn(8) == 0
				if fullh {
					hist = micros(h)
				}
				for j := range h {
					h[j] = -5
				}
				t.Add("plain", "v", v, "latest", vh.Micro(p.Latest()), "avg", vh.Micro(p.Average()), "full", fullh, "hist", hist)
			}
		})
	}
}

// ---- concurrent use ----

func call(m mon, op string, v int) vh.Call {
	return func() vh.Ev {
		e := vh.Ev{"op": op}
		switch op {
		case "rec":
			m.Record(float64(v) / 1e6)
			e["v"] = v
		case "reset":
			m.Reset()
		case "cur":
			e["res"] = vh.Micro(m.CurrentCoherence())
		case "conv":
			e["res"] = m.IsConverged()
		case "hist":
			e["res"] = micros(m.History())
		case "rate":
			e["res"] = vh.Micro(m.ConvergenceRate())
		case "predict":
			m.PredictConvergenceTime()
		case "stab":
			m.Stability()
		case "stats":
			st := m.Statistics()
			e["samples"], e["cur"], e["conv"] = num(st["samples"]), num(st["current_coherence"]), st["converged"]
			e["max"], e["min"], e["mean"], e["rate"] = num(st["max"]), num(st["min"]), 0, num(st["convergence_rate"])
			if v, ok := st["mean"]; ok {
				e["mean"] = num(v)
			}
		}
		return e
	}
}

func pcall(p plain, op string, v int) vh.Call {
	return func() vh.Ev {
		e := vh.Ev{"op": op}
		switch op {
		case "rec":
			p.RecordSample(float64(v) / 1e6)
			e["v"] = v
		case "latest":
			e["res"] = vh.Micro(p.Latest())
		case "avg":
			e["res"] = vh.Micro(p.Average())
		case "hist":
			e["res"] = micros(p.History())
		}
		return e
	}
}

func runConc(r *vh.Recorder) {
	reps := 300
	if vh.Thorough() {
		reps = 3000
	}
	type po struct {
		op string
		v  int
	}
	for k := range vh.N() {
		rng := vh.Rng(k)
		usePlain := k%5 == 4
		kinds := []string{"rec", "rec", "rec", "stats", "stats", "cur", "conv", "hist", "rate", "predict", "stab", "reset"}
		if usePlain {
			kinds = []string{"rec", "rec", "latest", "avg", "hist"}
		}
		nth := 2 + rng.Intn(3)
		prog := make([][]po, nth)
		for i := range prog {
			for range map[bool]int{true: 2, false: 3}[nth == 4] {
				prog[i] = append(prog[i], po{kinds[rng.Intn(len(kinds))], rng.Intn(11) * 100000})
			}
		}
		thr := 500000
		r.Run(vh.Ev{"kind": "conv", "thr": thr}, limit, func(t *vh.Trace) {
			seen := vh.Dedup{}
			for rep, stop := 0, vh.Until(reps); rep < reps && time.Now().Before(stop); rep++ {
				th := make([][]vh.Call, nth)
				var m mon
				var p plain
				if usePlain {
					p = newPlain(rep % 2)
				} else {
					m = newMon(rep%2, float64(thr)/1e6)
				}
				for i := range prog {
					for _, o := range prog[i] {
						if usePlain {
							th[i] = append(th[i], pcall(p, o.op, o.v))
						} else {
							th[i] = append(th[i], call(m, o.op, o.v))
						}
					}
				}
				out := vh.Round(th, rep%30 == 0)
				var hist []int
				if usePlain {
					hist = micros(p.History())
				} else {
					hist = micros(m.History())
				}
				e := vh.Ev{"op": "round", "thr": thr, "th": out, "fin": vh.Ev{"hist": hist}}
				if seen.New(e) {
					t.Ev = append(t.Ev, e)
				}
			}
		})
	}
	bulk(r)
}

// bulk: many writers and readers for long enough that a writer waits between
// any two reads of a report.
func bulk(r *vh.Recorder) {
	per := 4000
	if vh.Thorough() {
		per = 40000
	}
	for i := range 2 {
		r.Run(vh.Ev{"kind": "conv", "thr": 500000}, limit, func(t *vh.Trace) {
			m := newMon(i, 0.5)
			var torn atomic.Int64
			th := [][]vh.Call{}
			for w := range 4 {
				th = append(th, []vh.Call{func() vh.Ev {
					rng := rand.New(rand.NewSource(int64(w)))
					for k := range per {
						m.Record(rng.Float64())
						if k%64 == 63 {
							time.Sleep(time.Microsecond)
						}
					}
					return vh.Ev{}
				}})
			}
			for range 4 {
				th = append(th, []vh.Call{func() vh.Ev {
					last := 0
					for k := range per / 16 {
						st := m.Statistics()
						n, _ := st["samples"].(int)
						cur, _ := st["current_coherence"].(float64)
						conv, _ := st["converged"].(bool)
						mx, _ := st["max"].(float64)
						mn, _ := st["min"].(float64)
						if n < last || (n > 0 && (conv != (cur >= 0.5) || cur > mx || cur < mn)) {
							torn.Add(1)
						}
						last = n
						if k%8 == 0 {
							m.PredictConvergenceTime()
							m.Stability()
							m.ConvergenceRate()
							m.ConvergenceTime()
						}
					}
					return vh.Ev{}
				}})
			}
			vh.Round(th, false)
			t.Add("bulk", "n", len(m.History()), "want", 4*per, "torn", torn.Load())
		})
		r.Run(vh.Ev{"kind": "plain"}, limit, func(t *vh.Trace) {
			p := newPlain(i)
			th := [][]vh.Call{}
			for w := range 4 {
				th = append(th, []vh.Call{func() vh.Ev {
					for k := range per {
						p.RecordSample(float64(w*per+k) / 1e6)
						p.Latest()
						if k%32 == 0 {
							p.Average()
							p.History()
						}
					}
					return vh.Ev{}
				}})
			}
			vh.Round(th, false)
			t.Add("bulk", "n", len(p.History()), "want", 100, "torn", 0)
		})
	}
	// the progress tracker
	r.Run(vh.Ev{"kind": "plain"}, limit, func(t *vh.Trace) {
		m := convergence.NewMonitor(10)
		target := &core.TargetPattern{Phase: 1, Frequency: time.Second, Coherence: 0.9}
		m.SetTarget(target)
		th := [][]vh.Call{}
		for w := range 3 {
			th = append(th, []vh.Call{func() vh.Ev {
				rng := rand.New(rand.NewSource(int64(w)))
				for k := range per {
					m.RecordSample(&core.TargetPattern{Phase: rng.Float64(), Frequency: time.Second, Coherence: rng.Float64()}, rng.Float64())
					if k%500 == 0 {
						m.Reset()
					}
				}
				return vh.Ev{}
			}})
		}
		var bad atomic.Int64
		for range 3 {
			th = append(th, []vh.Call{func() vh.Ev {
				for range per {
					if p := m.GetProgress(); p < 0 || p > 1 {
						bad.Add(1)
					}
					m.IsConverging()
					m.IsStuck()
					m.ShouldSwitchStrategy()
					m.GetConvergenceRate()
				}
				return vh.Ev{}
			}})
		}
		vh.Round(th, false)
		t.Add("bulk", "n", 0, "want", 0, "torn", bad.Load())
	})
}
