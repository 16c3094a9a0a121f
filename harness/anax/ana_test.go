// Package anax asks for diagnoses of runs and draws random quantities.
package anax

import (
	"fmt"
	"math"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/analysis"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/internal/random"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

const limit = 60 * time.Second

func TestVerif(t *testing.T) {
	r := vh.Open()
	defer r.Close()
	switch vh.UnitName() {
	case "analysis":
		runAnalysis(r)
	case "chance":
		runChance(r)
	default:
		t.Fatal("unknown unit")
	}
}

var number = regexp.MustCompile(`(\d+)\.(\d)%`)

// class names the kind of diagnosis a summary gives.
func class(s string) string {
	c, n := "?", 0
	for _, k := range [][2]string{{"success", "ok"}, {"stuck", "stuck"}, {"minimal progress", "little"}, {"close", "close"}, {"failed", "failed"}} {
		if strings.Contains(strings.ToLower(s), k[0]) {
			c = k[1]
			n++
		}
	}
	if n != 1 {
		return "?"
	}
	return c
}

// rank gives a description's place on the scale of five.
func rank(s string) int {
	s = strings.ToLower(s)
	for i, words := range [][]string{{"chaos", "very low"}, {"groups forming", "weak", "low"}, {"partial", "moderate"}, {"good"}, {"excellent"}} {
		for _, w := range words {
			if strings.Contains(s, w) {
				return i
			}
		}
	}
	return -1
}

func plain(s string) string {
	return strings.Join(strings.Fields(strings.Map(func(r rune) rune {
		if r > 127 || r == '(' || r == ')' {
			return ' '
		}
		return r
	}, s)), " ")
}

func emoji(on bool) {
	if on {
		os.Setenv("EMOJI", "1")
	} else {
		os.Unsetenv("EMOJI")
	}
}

func diagnose(t *vh.Trace, ini, fin, tgt, stuck, most int, mode string) {
	s := analysis.RunStats{Initial: float64(ini) / 1e6, Final: float64(fin) / 1e6, Iter: most, MaxIter: most, StuckCount: stuck}
	for _, on := range []bool{false, true} {
		emoji(on)
		sum, sug := analysis.Diagnose(s, float64(tgt)/1e6, mode)
		nums := []int{}
		for _, m := range number.FindAllStringSubmatch(sum, -1) {
			a, _ := strconv.Atoi(m[1])
			b, _ := strconv.Atoi(m[2])
			nums = append(nums, 10*a+b)
		}
		seen := map[string]bool{}
		for _, x := range sug {
			if strings.TrimSpace(x) != "" {
				seen[x] = true
			}
		}
		t.Add("diag", "ini", ini, "fin", fin, "tgt", tgt, "stuck", stuck, "max", most, "batch", mode == "batch", "class", class(sum), "nums", nums,
			"sug", len(sug), "kinds", len(seen), "emoji", on)
	}
	emoji(false)
}

func words(t *vh.Trace, c int) {
	x := float64(c) / 1e6
	var ranks []int
	same := true
	for _, mode := range []string{"sync", "batch", "", "other"} {
		emoji(false)
		a := analysis.DescribeSyncQuality(x, mode)
		emoji(true)
		b := analysis.DescribeSyncQuality(x, mode)
		emoji(false)
		same = same && plain(a) == plain(b)
		ranks = append(ranks, rank(a), rank(b))
	}
	ranks = append(ranks, rank(analysis.InterpretCoherenceLevel(x)))
	t.Add("words", "c", c, "ranks", ranks, "same", same)
}

func pace(t *vh.Trace, n, most int) {
	s := strings.ToLower(analysis.AnalyzeConvergenceRate(n, most))
	r := -1
	switch {
	case strings.Contains(s, "very slow"):
		r = 3
	case strings.Contains(s, "slow"):
		r = 2
	case strings.Contains(s, "normal"):
		r = 1
	case strings.Contains(s, "fast"):
		r = 0
	}
	t.Add("pace", "n", n, "max", most, "rank", r)
}

func runAnalysis(r *vh.Recorder) {
	modes := []string{"sync", "batch", "other", ""}
	for i, ops := range vh.Ops() {
		r.Run(nil, limit, func(t *vh.Trace) {
			o := ops[0]
			k := func(n string) int { return o.I(n) * 50000 }
			diagnose(t, k("ini"), k("fin"), k("tgt"), o.I("stuck"), o.I("max"), modes[i%4])
		})
	}
	r.Run(nil, limit, func(t *vh.Trace) {
		for c := -20000; c <= 1020000; c += 4000 {
			words(t, c)
		}
		for _, b := range []int{200000, 400000, 600000, 800000} {
			words(t, b-1)
			words(t, b)
			words(t, b+1)
		}
		for most := 1; most <= 40; most++ {
			for n := 0; n <= most+1; n++ {
				pace(t, n, most)
			}
		}
	})
	for i := range vh.N() {
		g := vh.Rng(i)
		r.Run(nil, limit, func(t *vh.Trace) {
			c := func() int {
				switch g.Intn(4) {
				case 0:
					return g.Intn(21) * 50000
				case 1:
					return g.Intn(1001) * 1000
				}
				return g.Intn(1000001)
			}
			for range 8 {
				ini, fin, tgt := c(), c(), c()
				switch g.Intn(5) {
				case 0:
					fin = max(0, tgt+g.Intn(3)-1)
				case 1:
					fin = max(0, tgt-99000-g.Intn(2000))
				case 2:
					fin = ini + 99000 + g.Intn(2000)
				}
				most := 1 + g.Intn(300)
				stuck := g.Intn(most + 1)
				if g.Intn(2) == 0 {
					stuck = most/3 + g.Intn(3) - 1
				}
				diagnose(t, ini, fin, tgt, stuck, most, modes[g.Intn(4)])
			}
			words(t, c())
			most := 1 + g.Intn(1000)
			pace(t, g.Intn(most+2), most)
			pace(t, most*3/10, most)
			pace(t, most*6/10, most)
			pace(t, most*9/10, most)
		})
	}
}

const each = 256 // draws per class

// spread draws and counts by sixteenths of the range.
func spread(t *vh.Trace, what string, lo, hi float64, f func() float64) {
	counts := make([]int, 16)
	outside := 0
	kinds := map[float64]bool{}
	for range 16 * each {
		x := f()
		kinds[x] = true
		if !(x >= lo && x < hi) {
			outside++
			continue
		}
		counts[min(15, int(16*(x-lo)/(hi-lo)))]++
	}
	t.Add("spread", "what", what, "each", each, "counts", counts, "outside", outside, "kinds", len(kinds))
}

// queue serves values of batches.
func queue(batch func() []float64) func() float64 {
	var q []float64
	return func() float64 {
		for len(q) == 0 {
			q = batch()
		}
		x := q[0]
		q = q[1:]
		return x
	}
}

func intn(t *vh.Trace, n int) {
	k := min(n, 16)
	if n <= 40 {
		k = n
	}
	counts := make([]int, k)
	outside := 0
	for range k * each {
		v := random.Intn(n)
		if v < 0 || v >= n {
			outside++
			continue
		}
		counts[int(float64(v)*float64(k)/float64(n))]++
	}
	t.Add("spread", "what", fmt.Sprintf("intn %d", n), "each", each, "counts", counts, "outside", outside, "kinds", 1000000)
}

type sure struct{ conf float64 }

func (s *sure) Propose(core.State, core.State, core.Context) (core.Action, float64) {
	return core.Action{Type: "go", Value: 0.1}, s.conf
}
func (*sure) Name() string { return "sure" }

type taker struct{ acc float64 }

func (d *taker) Decide(_ core.State, o []core.Action) (core.Action, float64) { return o[0], d.acc }

// propose counts how often an agent takes up what its strategy proposes.
func propose(t *vh.Trace, stub, conf, acc int) {
	a := agent.New("a", agent.WithStrategy(&sure{float64(conf) / 100}), agent.WithStubbornness(float64(stub)/100))
	a.SetDecisionMaker(&taker{float64(acc) / 100})
	n := 0
	for range 4096 {
		if _, ok := a.ProposeAdjustment(core.State{Coherence: 0.9}); ok {
			n++
		}
	}
	t.Add("propose", "stub", stub, "conf", conf, "acc", acc, "taken", n)
}

func newSwarm(n int) *swarm.Swarm {
	s, err := swarm.New(n, core.State{Phase: 1, Frequency: 200 * time.Millisecond, Coherence: 0.7})
	if err != nil {
		panic(err)
	}
	return s
}

// links counts the connected pairs of new swarms.
func links(t *vh.Trace, n, pct int) {
	pairs, linked := 0, 0
	for range 3 {
		c := config.DefaultConfig()
		c.ConnectionProbability = float64(pct) / 100
		c.MinNeighbors, c.MaxNeighbors = 1, n-1
		s, err := swarm.New(n, core.State{Phase: 1, Frequency: 200 * time.Millisecond, Coherence: 0.7}, swarm.WithConfig(c))
		if err != nil {
			panic(err)
		}
		s.ForEachAgent(func(a *agent.Agent) bool { linked += a.NeighborCount(); return true })
		pairs += n * (n - 1) / 2
	}
	t.Add("links", "pct", pct, "n", n, "pairs", pairs, "linked", linked/2)
}

func phasesOf(s *swarm.Swarm) []float64 {
	var q []float64
	s.ForEachAgent(func(a *agent.Agent) bool { q = append(q, a.Phase()); return true })
	return q
}

func runChance(r *vh.Recorder) {
	run := func(body func(t *vh.Trace)) { r.Run(nil, limit, body) }
	const turn = 2 * math.Pi
	run(func(t *vh.Trace) {
		spread(t, "float", 0, 1, random.Float64)
		spread(t, "phase", 0, turn, random.Phase)
		own := &random.SecureRandom{}
		spread(t, "own float", 0, 1, own.Float64)
		spread(t, "int31", 0, 1<<31, func() float64 { return float64(own.Int31n()) })
		// neighbouring draws are independent
		spread(t, "pairs", 0, 16, func() float64 {
			a, b := random.Float64(), random.Float64()
			return math.Floor(4*a)*4 + math.Floor(4*b) + a*0.999
		})
		for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 20, 33, 1000, 4096, 1 << 20, 1<<30 + 1, 1<<31 - 1} {
			intn(t, n)
		}
		for _, n := range []int{0, -1, -7, math.MinInt} {
			ok := true
			func() {
				defer func() { ok = recover() == nil }()
				random.Intn(n)
			}()
			t.Add("none", "n", max(n, -vh.Huge), "drew", ok)
		}
	})
	run(func(t *vh.Trace) {
		spread(t, "fresh phase", 0, turn, func() float64 { return agent.New("a").Phase() })
		spread(t, "fresh goal", 0, turn, func() float64 { return agent.New("a").LocalGoal() })
		spread(t, "option phase", 0, turn, func() float64 { return agent.New("a", agent.WithPhase(1), agent.WithRandomPhase()).Phase() })
		spread(t, "option goal", 0, turn, func() float64 { return agent.New("a", agent.WithLocalGoal(1), agent.WithRandomLocalGoal()).LocalGoal() })
	})
	run(func(t *vh.Trace) {
		for _, how := range []string{"plain", "large"} {
			mk := agent.NewFromConfig
			if how == "large" {
				mk = agent.NewOptimizedFromConfig
			}
			one := func() *agent.Agent {
				a, err := mk("a", config.RandomizedAgent())
				if err != nil {
					panic(err)
				}
				return a
			}
			spread(t, how+" phase", 0, turn, func() float64 { return one().Phase() })
			spread(t, how+" goal", 0, turn, func() float64 { return one().LocalGoal() })
		}
	})
	run(func(t *vh.Trace) {
		p := agent.Pool
		spread(t, "pooled phase", 0, turn, func() float64 { a := p.Get("a"); defer p.Put(a); return a.Phase() })
		spread(t, "pooled goal", 0, turn, func() float64 { a := p.Get("a"); defer p.Put(a); return a.LocalGoal() })
	})
	for _, n := range []int{60, 256} {
		run(func(t *vh.Trace) {
			spread(t, fmt.Sprintf("swarm %d", n), 0, turn, queue(func() []float64 { return phasesOf(newSwarm(n)) }))
			s := newSwarm(n)
			spread(t, fmt.Sprintf("disrupted %d", n), 0, turn, queue(func() []float64 {
				s.ForEachAgent(func(a *agent.Agent) bool { a.SetPhase(1); return true })
				s.DisruptAgents(1)
				return phasesOf(s)
			}))
		})
	}
	run(func(t *vh.Trace) {
		var mu sync.Mutex
		var wg sync.WaitGroup
		var all []float64
		for range 8 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var q []float64
				for range 16 * each / 8 {
					q = append(q, random.Float64())
				}
				mu.Lock()
				all = append(all, q...)
				mu.Unlock()
			}()
		}
		wg.Wait()
		spread(t, "concurrent", 0, 1, queue(func() []float64 { return all }))
	})
	run(func(t *vh.Trace) {
		for _, s := range []int{0, 10, 50, 100, -20, 130} {
			for _, c := range []int{0, 30, 100} {
				propose(t, s, c, 100)
			}
		}
	})
	run(func(t *vh.Trace) {
		for _, pct := range []int{0, 10, 20, 35, 50, 80, 95, 100} {
			links(t, 60, pct)
			links(t, 110, pct)
		}
	})
	for i := range vh.N() {
		g := vh.Rng(i)
		run(func(t *vh.Trace) {
			for range 4 {
				propose(t, g.Intn(101), g.Intn(101), g.Intn(101))
			}
			intn(t, 1+g.Intn(40))
			intn(t, 1000+g.Intn(1<<31-2000))
		})
	}
}
