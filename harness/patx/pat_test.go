// Package patx drives pattern comparison, completion, detection and similarity.
package patx

import (
	"fmt"
	"math"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/completion"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/monitoring"
	iemerge "github.com/carlisia/bio-adapt/internal/emerge"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 60 * time.Second

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	switch vh.UnitName() {
	case "pair":
		runPair(r)
	case "complete":
		runComplete(r)
	case "completeconc":
		runConc(r)
	case "seq":
		runSeq(r)
	case "sim":
		runSim(r)
	default:
		t.Fatal("unknown unit")
	}
}

func odd(cur, tgt float64) bool {
	const e = 1e-10
	return math.Abs(tgt) < e && math.Abs(cur-3*math.Pi/2) < e || math.Abs(tgt-3*math.Pi/2) < e && math.Abs(cur) < e
}

func us(d time.Duration) int { return int(d.Round(time.Microsecond) / time.Microsecond) }

func pj(p *core.TargetPattern) vh.Ev {
	w := []int{}
	for _, x := range p.Waveform {
		w = append(w, vh.Micro(x))
	}
	return vh.Ev{"ph": vh.PhMod(p.Phase), "fr": us(p.Frequency), "coh": vh.Micro(p.Coherence), "wave": w}
}

func gj(g []core.PatternGap) ([]vh.Ev, bool) {
	r, ok := []vh.Ev{}, true
	for _, x := range g {
		e := vh.Ev{"ty": x.Type, "sev": vh.Micro(x.Severity)}
		ok = ok && x.Severity >= 0 && x.Severity <= 1+1e-12
		switch x.Type {
		case "phase":
			e["cur"], e["tgt"] = vh.PhMod(x.Current), vh.PhMod(x.Target)
		case "frequency":
			e["cur"], e["tgt"] = int(math.Round(x.Current/1e3)), int(math.Round(x.Target/1e3))
		default:
			e["cur"], e["tgt"] = vh.Micro(x.Current), vh.Micro(x.Target)
		}
		r = append(r, e)
	}
	return r, ok
}

func pair(t *vh.Trace, a, b *core.TargetPattern) {
	x, y := core.PatternDistance(a, b), core.PatternDistance(b, a)
	far := core.PatternDistance(nil, b)
	missing := far == core.PatternDistance(a, nil) && far == core.PatternDistance(nil, nil) && far >= 1e300
	t.Add("dist", "a", pj(a), "b", pj(b), "ab", vh.Micro(x), "ba", vh.Micro(y), "le", x >= 0 && y >= 0 && x <= 1+1e-12 && y <= 1+1e-12, "missing", missing)
	g, ok := gj(core.IdentifyGaps(a, b))
	t.Add("gaps", "a", pj(a), "b", pj(b), "g", g, "sevok", ok)
}

func randPat(g *rand.Rand) *core.TargetPattern {
	p := &core.TargetPattern{Phase: g.Float64() * 2 * math.Pi, Frequency: time.Duration(1+g.Intn(500000)) * time.Microsecond, Coherence: g.Float64()}
	switch g.Intn(6) {
	case 0:
		p.Phase = float64(g.Intn(9)) * math.Pi / 4
	case 1:
		p.Phase = (g.Float64() - 0.5) * 60
	case 2:
		p.Frequency = 250 * time.Millisecond
	case 3:
		p.Frequency = 0
	}
	if g.Intn(3) == 0 {
		p.Coherence = float64(g.Intn(5)) / 4
	}
	for range g.Intn(3) * g.Intn(4) {
		p.Waveform = append(p.Waveform, g.Float64()*2-1)
	}
	return p
}

func runPair(r *vh.Recorder) {
	d := vh.Dedup{}
	for _, ops := range vh.Ops() {
		o := ops[0]
		t := float64(o.I("t")) * math.Pi / 8
		b := &core.TargetPattern{Phase: t, Frequency: 100 * time.Millisecond, Coherence: 0.6}
		a := &core.TargetPattern{Phase: t + float64(o.I("c"))*math.Pi/8 + float64(o.I("d"))/1000,
			Frequency: time.Duration(o.I("f")) * 100 * time.Microsecond, Coherence: float64(o.I("h")) / 1000}
		r.Run(vh.Ev{}, limit, func(t *vh.Trace) { pair(t, a, b) })
	}
	for i := range vh.N() {
		g := vh.Rng(i)
		r.Run(vh.Ev{}, limit, func(t *vh.Trace) {
			for range 8 {
				a, b := randPat(g), randPat(g)
				switch g.Intn(5) {
				case 0: // close to each other
					*b = *a
					b.Phase += (g.Float64() - 0.5) * 0.3
					b.Frequency = (b.Frequency + time.Duration((g.Float64()-0.5)*0.2*float64(b.Frequency))).Round(time.Microsecond)
					b.Coherence = math.Min(1, math.Max(0, b.Coherence+(g.Float64()-0.5)*0.2))
				case 1:
					*b = *a
					b.Phase += 2 * math.Pi * float64(g.Intn(3)-1)
				}
				pair(t, a, b)
			}
		})
	}
	_ = d
}

func copyPat(p *core.TargetPattern) core.TargetPattern {
	q := *p
	q.Waveform = append([]float64{}, p.Waveform...)
	return q
}

func samePat(a, b core.TargetPattern) bool {
	if a.Phase != b.Phase || a.Frequency != b.Frequency || a.Coherence != b.Coherence || a.Amplitude != b.Amplitude || a.Stability != b.Stability || len(a.Waveform) != len(b.Waveform) {
		return false
	}
	for i := range a.Waveform {
		if a.Waveform[i] != b.Waveform[i] {
			return false
		}
	}
	return true
}

func complete(t *vh.Trace, e *completion.Engine, cur *core.TargetPattern, ts []*core.TargetPattern, gaps []core.PatternGap) {
	before := copyPat(cur)
	var tb []core.TargetPattern
	o := false
	tj := []vh.Ev{}
	for _, x := range ts {
		tb = append(tb, copyPat(x))
		tj = append(tj, pj(x))
		o = o || odd(cur.Phase, x.Phase)
	}
	for _, x := range gaps {
		if x.Type == "phase" {
			o = o || odd(x.Current, x.Target)
		}
	}
	g, _ := gj(gaps)
	cp := e.CompletePattern(cur, gaps)
	kept := samePat(before, *cur)
	for i, x := range ts {
		kept = kept && samePat(tb[i], *x)
	}
	ph, fr, circ, boost, hasb, wave := -1, -1, true, 0, false, []int{}
	if x, ok := cp.Filled["phase"].(float64); ok {
		ph, circ = vh.Ph(x), vh.OnCircle(x)
		o = o || odd(cur.Phase, x)
	}
	if x, ok := cp.Filled["frequency"].(time.Duration); ok {
		fr = us(x)
		if fr < 0 {
			circ = false // a negative period
		}
	}
	if x, ok := cp.Filled["coherence_boost"].(float64); ok {
		boost, hasb = vh.Micro(x), true
	}
	if x, ok := cp.Filled["waveform"].([]float64); ok {
		for _, y := range x {
			wave = append(wave, vh.Micro(y))
		}
	}
	t.Add("complete", "c", pj(cur), "ts", tj, "g", g, "ph", ph, "fr", fr, "boost", boost, "hasb", hasb, "wave", wave, "circ", circ,
		"kept", kept, "odd", o, "adj", vh.Ph(cp.GetPhaseAdjustment()), "fadj", us(cp.GetFrequencyAdjustment()))
}

func randGaps(g *rand.Rand, cur *core.TargetPattern) []core.PatternGap {
	tgt := randPat(g)
	if g.Intn(3) > 0 { // the gaps the code itself finds
		gaps := core.IdentifyGaps(cur, tgt)
		if g.Intn(3) == 0 {
			gaps = append(gaps, core.PatternGap{Type: "waveform", Severity: g.Float64()})
		}
		return gaps
	}
	var gaps []core.PatternGap
	sev := func() float64 {
		switch g.Intn(5) {
		case 0:
			return 1
		case 1:
			return 0.5
		case 2:
			return 0
		}
		return g.Float64()
	}
	if g.Intn(2) == 0 {
		gaps = append(gaps, core.PatternGap{Type: "coherence", Current: cur.Coherence, Target: tgt.Coherence, Severity: sev()})
	}
	if g.Intn(2) == 0 {
		gaps = append(gaps, core.PatternGap{Type: "phase", Current: cur.Phase, Target: tgt.Phase, Severity: sev()})
	}
	if g.Intn(2) == 0 {
		gaps = append(gaps, core.PatternGap{Type: "frequency", Current: float64(cur.Frequency), Target: float64(tgt.Frequency), Severity: sev()})
	}
	if g.Intn(2) == 0 {
		gaps = append(gaps, core.PatternGap{Type: "waveform", Severity: sev()})
	}
	return gaps
}

func runComplete(r *vh.Recorder) {
	for i := range vh.N() {
		g := vh.Rng(i)
		r.Run(vh.Ev{}, limit, func(t *vh.Trace) {
			e := completion.NewEngine()
			var ts []*core.TargetPattern
			for range 12 {
				cur := randPat(g)
				for len(cur.Waveform) == 0 && g.Intn(3) > 0 {
					cur = randPat(g)
				}
				if g.Intn(3) == 0 && len(ts) < 6 {
					x := randPat(g)
					switch g.Intn(3) {
					case 0: // near the threshold of 0.7
						x = &core.TargetPattern{Phase: cur.Phase + math.Pi, Frequency: cur.Frequency, Coherence: cur.Coherence}
						if cur.Frequency > 0 {
							x.Frequency = cur.Frequency * 4
						}
						if cur.Coherence < 0.5 {
							x.Coherence = cur.Coherence + 0.25 + (g.Float64()-0.5)*0.02
						}
					case 1:
						x.Phase = cur.Phase + math.Pi*0.9
						x.Coherence = 1 - math.Round(cur.Coherence)
					}
					if j := g.Intn(len(ts) + 1); j < len(ts) && g.Intn(2) == 0 {
						e.AddTemplate(fmt.Sprint("t", j), x) // learned anew
						ts[j] = x
					} else {
						e.AddTemplate(fmt.Sprint("t", len(ts)), x)
						ts = append(ts, x)
					}
				}
				complete(t, e, cur, ts, randGaps(g, cur))
			}
		})
	}
}

// runConc adds templates while patterns are completed: whatever is known at the
// time, what is filled in stems from no template or one of them.
func runConc(r *vh.Recorder) {
	for i := range vh.N() {
		g := vh.Rng(i)
		r.Run(vh.Ev{}, limit, func(t *vh.Trace) {
			e := completion.NewEngine()
			var ts []*core.TargetPattern
			for range 6 {
				x := randPat(g)
				x.Frequency = 100 * time.Millisecond
				ts = append(ts, x)
			}
			curs := []*core.TargetPattern{}
			for range 40 {
				x := randPat(g)
				x.Frequency = 120 * time.Millisecond
				curs = append(curs, x)
			}
			var wg sync.WaitGroup
			wg.Add(3)
			go func() {
				defer wg.Done()
				for k, x := range ts {
					e.AddTemplate(fmt.Sprint(k), x)
				}
			}()
			for range 2 {
				go func() {
					defer wg.Done()
					for _, c := range curs {
						e.CompletePattern(c, []core.PatternGap{{Type: "phase", Current: c.Phase, Target: 1, Severity: 0.4}})
					}
				}()
			}
			wg.Wait()
			// afterwards all of them are known
			for _, c := range curs[:4] {
				complete(t, e, c, ts, randGaps(g, c))
			}
		})
	}
}

// lib is one of the two copies of the temporal pattern code.
type lib struct {
	complete func(phs []float64, s, e int) ([]float64, bool)
	detect   func(phs []float64, frs []time.Duration) [][3]int
}

var libs = []lib{
	{func(phs []float64, s, e int) ([]float64, bool) {
		p := monitoring.NewTargetPattern(phs, nil)
		r := p.Complete(monitoring.PatternGap{StartIdx: s, EndIdx: e})
		return r, r == nil
	}, func(phs []float64, frs []time.Duration) [][3]int {
		r := [][3]int{}
		for _, g := range monitoring.NewTargetPattern(phs, frs).Detect() {
			r = append(r, [3]int{g.StartIdx, g.EndIdx, us(g.Duration)})
		}
		return r
	}},
	{func(phs []float64, s, e int) ([]float64, bool) {
		p := iemerge.NewTargetPattern(phs, nil)
		r := p.Complete(iemerge.PatternGap{StartIdx: s, EndIdx: e})
		return r, r == nil
	}, func(phs []float64, frs []time.Duration) [][3]int {
		r := [][3]int{}
		for _, g := range iemerge.NewTargetPattern(phs, frs).Detect() {
			r = append(r, [3]int{g.StartIdx, g.EndIdx, us(g.Duration)})
		}
		return r
	}},
}

func phasesJ(p []float64) ([]int, bool) {
	r, ok := []int{}, true
	for _, x := range p {
		r = append(r, vh.PhMod(x))
		ok = ok && vh.OnCircle(x)
	}
	return r, ok
}

func fill(t *vh.Trace, l lib, phs []float64, s, e int) {
	r, _ := l.complete(phs, s, e)
	rj, circ := phasesJ(r)
	pj, _ := phasesJ(phs)
	o := s >= 0 && e < len(phs) && s < e && odd(phs[s], phs[e])
	t.Add("fill", "phs", pj, "s", s, "e", e, "r", rj, "circ", circ, "odd", o)
}

func detect(t *vh.Trace, l lib, phs []float64, frs []time.Duration) {
	gs := []vh.Ev{}
	for _, g := range l.detect(phs, frs) {
		gs = append(gs, vh.Ev{"s": g[0], "e": g[1], "d": g[2]})
	}
	pj, _ := phasesJ(phs)
	fj := []int{}
	for _, f := range frs {
		fj = append(fj, us(f))
	}
	t.Add("detect", "phs", pj, "frs", fj, "g", gs)
}

func freqs(g *rand.Rand, n int) []time.Duration {
	r := make([]time.Duration, n)
	for i := range r {
		r[i] = time.Duration(1+g.Intn(2000000)) * time.Microsecond
	}
	return r
}

func runSeq(r *vh.Recorder) {
	for i, ops := range vh.Ops() {
		o := ops[0]
		g := vh.Rng(i)
		n := o.I("n") + 1
		phs := make([]float64, n)
		for k := range phs {
			phs[k] = g.Float64() * 2 * math.Pi
		}
		if s := o.I("s"); s >= 0 && s < n {
			phs[s] = float64(o.I("a")) * math.Pi / 8
		}
		if e := o.I("e"); e >= 0 && e < n {
			phs[e] = float64(o.I("b")) * math.Pi / 8
		}
		r.Run(vh.Ev{}, limit, func(t *vh.Trace) {
			fill(t, libs[i%2], phs, o.I("s"), o.I("e"))
			detect(t, libs[i%2], phs, freqs(g, n))
		})
	}
	for i := range vh.N() {
		g := vh.Rng(i)
		r.Run(vh.Ev{}, limit, func(t *vh.Trace) {
			for k := range 6 {
				n := g.Intn(14)
				phs := make([]float64, n)
				for j := range phs {
					switch g.Intn(4) {
					case 0:
						phs[j] = float64(g.Intn(9)) * math.Pi / 4
					case 1:
						phs[j] = (g.Float64() - 0.5) * 50
					case 2:
						if j > 0 { // a jump close to a quarter turn
							phs[j] = phs[j-1] + math.Pi/2 + (g.Float64()-0.5)*0.01
							break
						}
						fallthrough
					default:
						phs[j] = g.Float64() * 2 * math.Pi
					}
				}
				m := n
				if g.Intn(3) == 0 {
					m = g.Intn(n + 2)
				}
				detect(t, libs[k%2], phs, freqs(g, m))
				fill(t, libs[k%2], phs, g.Intn(n+2)-1, g.Intn(n+2)-1)
				if n > 2 {
					s := g.Intn(n - 1)
					fill(t, libs[k%2], phs, s, s+1+g.Intn(n-1-s))
				}
			}
		})
	}
}

// pat is a temporal pattern in either copy.
type pat struct {
	phs []float64
	frs []time.Duration
}

type simlib struct {
	sim   func(a, b *pat) float64
	make  func(p *pat) (float64, time.Duration, float64)
	match func(base *pat, vars []*pat, tol float64, p *pat) bool
	ident func(names []string, ts []*pat, p *pat) (string, float64)
}

func mon(p *pat) *monitoring.TargetPattern {
	if p == nil {
		return nil
	}
	return monitoring.NewTargetPattern(p.phs, p.frs)
}

func iem(p *pat) *iemerge.TargetPattern {
	if p == nil {
		return nil
	}
	return iemerge.NewTargetPattern(p.phs, p.frs)
}

var simlibs = []simlib{
	{func(a, b *pat) float64 { return mon(a).Similarity(mon(b)) },
		func(p *pat) (float64, time.Duration, float64) {
			x := mon(p)
			return x.Amplitude, x.Period, x.Confidence
		},
		func(base *pat, vars []*pat, tol float64, p *pat) bool {
			t := &monitoring.PatternTemplate{BasePattern: *mon(base), Tolerance: tol}
			for _, v := range vars {
				t.Variations = append(t.Variations, *mon(v))
			}
			return t.Matches(mon(p))
		},
		func(names []string, ts []*pat, p *pat) (string, float64) {
			l := monitoring.NewPatternLibrary()
			for i, n := range names {
				l.Add(n, &monitoring.PatternTemplate{Name: n, BasePattern: *mon(ts[i]), Tolerance: 0.1})
			}
			return l.Identify(mon(p))
		}},
	{func(a, b *pat) float64 { return iem(a).Similarity(iem(b)) },
		func(p *pat) (float64, time.Duration, float64) {
			x := iem(p)
			return x.Amplitude, x.Period, x.Confidence
		},
		func(base *pat, vars []*pat, tol float64, p *pat) bool {
			t := &iemerge.PatternTemplate{BasePattern: *iem(base), Tolerance: tol}
			for _, v := range vars {
				t.Variations = append(t.Variations, *iem(v))
			}
			return t.Matches(iem(p))
		},
		func(names []string, ts []*pat, p *pat) (string, float64) {
			l := iemerge.NewPatternLibrary()
			for i, n := range names {
				l.Add(n, &iemerge.PatternTemplate{Name: n, BasePattern: *iem(ts[i]), Tolerance: 0.1})
			}
			return l.Identify(iem(p))
		}},
}

func sj(l simlib, p *pat) vh.Ev {
	amp, per, _ := l.make(p)
	ph, _ := phasesJ(p.phs)
	return vh.Ev{"phs": ph, "amp": vh.Micro(amp), "per": us(per)}
}

// scaled is the ratio of the scales of two patterns of equal length in thousandths, 0 when there is none.
func scaled(a, b *pat) int {
	if len(a.phs) != len(b.phs) {
		return 0
	}
	ma, mb := 0.0, 0.0
	for i := range a.phs {
		ma, mb = math.Max(ma, math.Abs(a.phs[i])), math.Max(mb, math.Abs(b.phs[i]))
	}
	if ma > 0 && mb > 0 {
		return min(vh.Milli(math.Max(ma/mb, mb/ma)), 5000000)
	}
	return 0
}

func equal(a, b *pat) bool {
	if len(a.phs) != len(b.phs) || len(a.frs) != len(b.frs) {
		return false
	}
	for i := range a.phs {
		if a.phs[i] != b.phs[i] {
			return false
		}
	}
	for i := range a.frs {
		if a.frs[i] != b.frs[i] {
			return false
		}
	}
	return true
}

func sim(t *vh.Trace, l simlib, a, b *pat) {
	x, y := l.sim(a, b), l.sim(b, a)
	in := func(v float64) bool { return v >= 0 && v <= 1+1e-12 }
	same := 0
	if equal(a, b) {
		same = 1
	}
	none := l.sim(a, nil) == 0 && l.sim(a, &pat{}) == 0 && l.sim(&pat{}, a) == 0
	aa, _, _ := l.make(a)
	ba, _, _ := l.make(b)
	tiny := 0 // the agreement of two tiny amplitudes is that of rounding errors
	if aa != ba && math.Max(aa, ba) < 0.02 {
		tiny = 1
	}
	t.Add("sim", "tiny", tiny, "a", sj(l, a), "b", sj(l, b), "ab", vh.Micro(x), "ba", vh.Micro(y), "range", in(x) && in(y), "same", same, "scale", scaled(a, b), "none", none)
}

func simPat(g *rand.Rand, n int) *pat {
	p := &pat{}
	flat := g.Intn(4) == 0
	c := g.Float64() * 6
	for range n {
		if !flat {
			c = g.Float64() * 2 * math.Pi
			if g.Intn(5) == 0 {
				c = (g.Float64() - 0.5) * 30
			}
		}
		p.phs = append(p.phs, c)
	}
	switch g.Intn(4) {
	case 0:
	case 1:
		p.frs = freqs(g, 1+g.Intn(4))
	default:
		p.frs = freqs(g, max(n, 1))
	}
	return p
}

func near(g *rand.Rand, p *pat) *pat {
	q := &pat{frs: append([]time.Duration{}, p.frs...)}
	d := 0.0
	if g.Intn(3) > 0 {
		d = g.Float64()
	}
	for _, x := range p.phs {
		q.phs = append(q.phs, x+d*(g.Float64()-0.5))
	}
	if g.Intn(4) == 0 {
		q.frs = nil
	}
	return q
}

func runSim(r *vh.Recorder) {
	for i, ops := range vh.Ops() {
		o := ops[0]
		mk := func(k, n, f int) *pat {
			p := &pat{}
			for j := range n {
				switch k {
				case 0:
					p.phs = append(p.phs, 0)
				case 1:
					p.phs = append(p.phs, 2)
				case 2:
					p.phs = append(p.phs, float64(j)*math.Pi/2)
				case 3:
					p.phs = append(p.phs, float64(j)*0.01)
				case 4:
					p.phs = append(p.phs, float64(j)*500)
				}
			}
			for range f {
				p.frs = append(p.frs, time.Duration(f)*100*time.Millisecond)
			}
			return p
		}
		r.Run(vh.Ev{}, limit, func(t *vh.Trace) {
			sim(t, simlibs[i%2], mk(o.I("a"), o.I("la"), o.I("fa")), mk(o.I("b"), o.I("lb"), o.I("fb")))
		})
	}
	for i := range vh.N() {
		g := vh.Rng(i)
		r.Run(vh.Ev{}, limit, func(t *vh.Trace) {
			for k := range 4 {
				l := simlibs[k%2]
				n := 1 + g.Intn(6)
				a := simPat(g, n)
				b := simPat(g, n)
				switch g.Intn(5) {
				case 0, 1:
					b = near(g, a)
				case 2:
					b = simPat(g, g.Intn(6))
				case 3:
					b = a
				case 4: // the same at another scale
					if k := 40 * math.Pow(50, g.Float64()); g.Intn(2) == 0 {
						b = &pat{frs: a.frs}
						for _, x := range a.phs {
							b.phs = append(b.phs, x/k)
						}
					}
				}
				sim(t, l, a, b)
				amp, per, conf := l.make(a)
				var sum time.Duration
				for _, f := range a.frs {
					sum += f
				}
				flat := true
				for _, x := range a.phs {
					flat = flat && x == a.phs[0]
				}
				aj, _ := phasesJ(a.phs)
				t.Add("new", "phs", aj, "n", len(a.frs), "sum", us(sum), "per", us(per), "amp", vh.Micro(amp), "flat", flat && len(a.phs) < 3, "conf", conf == 1)
				// templates and libraries
				vars := []*pat{}
				sims := []int{vh.Micro(l.sim(b, a))}
				for range g.Intn(3) {
					v := near(g, a)
					if g.Intn(2) == 0 {
						v = simPat(g, n)
					}
					vars = append(vars, v)
					sims = append(sims, vh.Micro(l.sim(v, a)))
				}
				tol := []float64{0, 0.1, 0.3, 0.5, g.Float64()}[g.Intn(5)]
				t.Add("match", "sims", sims, "tol", vh.Micro(tol), "r", l.match(b, vars, tol, a))
				names, ts, is := []string{}, []*pat{}, []int{}
				for j := range g.Intn(5) {
					v := simPat(g, n)
					if g.Intn(2) == 0 {
						v = near(g, a)
					}
					names, ts, is = append(names, fmt.Sprint("n", j)), append(ts, v), append(is, vh.Micro(l.sim(v, a)))
				}
				name, s := l.ident(names, ts, a)
				k := 0
				for j, x := range names {
					if x == name {
						k = j + 1
					}
				}
				t.Add("ident", "sims", is, "k", k, "sim", vh.Micro(s))
			}
		})
	}
}
