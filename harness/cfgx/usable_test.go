package cfgx

import (
	"context"
	"math"
	"testing"
	"testing/synctest"
	"time"

	client "github.com/carlisia/bio-adapt/client/emerge"
	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/emerge/trait"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

func lim(n int) vh.Ev {
	l := swarm.GetCoherenceLimits(n)
	return vh.Ev{"th": vh.Micro(l.Theoretical), "pr": vh.Micro(l.Practical), "rec": vh.Micro(l.Recommended)}
}

type starter interface {
	Start(context.Context) error
	Agents() map[string]*agent.Agent
	IsConverged() bool
}

type bare struct{ s *swarm.Swarm }

func (b bare) Start(ctx context.Context) error { return b.s.Run(ctx) }
func (b bare) Agents() map[string]*agent.Agent { return b.s.Agents() }
func (b bare) IsConverged() bool               { return b.s.IsConverged() }

// probe brings the agents to known coherences and asks after one update whether that is converged.
func probe(tt *testing.T, c starter, at []float64) []vh.Ev {
	res := []vh.Ev{}
	as := c.Agents()
	for _, r := range at {
		synctest.Test(tt, func(*testing.T) {
			// k agents on one side, the rest on the other: |mean|^2 = cos^2 a + (1-2k/n)^2 sin^2 a
			n := len(as)
			if n == 1 {
				r = 1
			}
			k := n / 2
			d := 1 - 2*float64(k)/float64(n)
			a := 0.0
			if r*r > d*d {
				a = math.Acos(math.Sqrt((r*r - d*d) / (1 - d*d)))
			}
			if n == 1 {
				a = 0
			}
			i := 0
			var sx, sy float64
			for _, ag := range as {
				ph := a
				if i < k {
					ph = 2*math.Pi - a
				}
				i++
				ag.SetPhase(ph)
				sx += math.Cos(ag.Phase())
				sy += math.Sin(ag.Phase())
			}
			coh := math.Hypot(sx, sy) / float64(n)
			ctx, cancel := context.WithTimeout(context.Background(), 10*time.Hour)
			done := make(chan struct{})
			go func() { _ = c.Start(ctx); close(done) }()
			// stop after the first update
			first := c.Agents()
			_ = first
			for step := 0; ; step++ {
				time.Sleep(time.Millisecond)
				synctest.Wait()
				select {
				case <-done:
				default:
					if step < 999 && !touched(c) {
						continue
					}
				}
				break
			}
			res = append(res, vh.Ev{"coh": vh.Micro(coh), "conv": c.IsConverged()})
			cancel()
			<-done
		})
	}
	return res
}

func touched(c starter) bool {
	if b, ok := c.(bare); ok {
		return b.s.CurrentCoherence() != mark(c)
	}
	return c.(interface{ Coherence() float64 }).Coherence() != mark(c)
}

var marks = map[starter]float64{}

func mark(c starter) float64 { return marks[c] }

func runUsable(tt *testing.T, r *vh.Recorder) {
	traits := []trait.Target{trait.Stability, trait.Speed, trait.Efficiency, trait.Throughput, trait.Resilience, trait.Precision}
	var perms [][]trait.Target
	var rec func(cur []trait.Target, used int)
	rec = func(cur []trait.Target, used int) {
		perms = append(perms, append([]trait.Target{}, cur...))
		for i, t := range traits {
			if used&(1<<i) == 0 {
				rec(append(cur, t), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	// tuning
	g := vh.Rng(5)
	sizes := []int{1, 2, 19, 20, 21, 50, 51, 200, 201, 1000, 1001, 2000, 100000}
	case_ := 0
	for gt := 0; gt <= 8; gt++ {
		r.Run(nil, limit, func(t *vh.Trace) {
			for pi, p := range perms {
				if !vh.Thorough() && len(p) > 2 && g.Intn(6) > 0 {
					continue
				}
				_ = pi
				pos := g.Intn(len(p)+2) - 1
				n := sizes[g.Intn(len(sizes))]
				c := swarm.For(goal.Type(gt))
				same := true
				names := []string{}
				for i, x := range p {
					if i == pos {
						same = same && c.WithSize(n) == c
					}
					same = same && c.TuneFor(x) == c
					names = append(names, x.String())
				}
				if pos == len(p) {
					same = same && c.WithSize(n) == c
				}
				case_++
				build := "none"
				if case_%25 == 0 && n <= 200 {
					build = "ok"
					if s, err := swarm.New(n, core.State{Phase: 0, Frequency: time.Second, Coherence: 0.7}, swarm.WithGoalConfig(c)); err != nil || s == nil {
						build = "err"
					}
				}
				t.Add("tune", "goal", gt, "traits", names, "n", n, "pos", pos, "cfg", grec(c), "valid", c.Validate() == nil, "same", same, "build", build)
			}
			// independent configurations
			a, b := swarm.For(goal.Type(gt)), swarm.For(goal.Type(gt))
			a.TuneFor(trait.Speed).TuneFor(trait.Resilience).WithSize(3000)
			t.Add("tune", "goal", gt, "traits", []string{}, "n", 0, "pos", 0, "cfg", grec(b), "valid", b.Validate() == nil, "same", *b == *swarm.For(goal.Type(gt)), "build", "none")
		})
	}
	// limits and efforts
	r.Run(nil, limit, func(t *vh.Trace) {
		ns := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 18, 19, 20, 21, 30, 49, 50, 51, 70, 98, 99, 100, 101, 150, 200, 1000, 5000, 1000000}
		for _, n := range ns {
			t.Add("limits", "n", n, "l", lim(n))
		}
		for _, n := range ns {
			t.Add("size", "n", n)
			for c := 0; c <= 1000; c += 3 {
				x := float64(c) / 1000
				f := swarm.GetConvergenceTimeFactor(n, x)
				t.Add("effort", "c", vh.Micro(x), "f", vh.Micro(f), "l", lim(n))
			}
			for range 20 {
				x := float64(g.Intn(1001)) / 1000
				adj, w := swarm.ValidateCoherenceTarget(n, x)
				t.Add("advise", "n", n, "c", vh.Micro(x), "adj", vh.Micro(adj), "warn", w != "", "l", lim(n))
			}
		}
		for c := 0; c <= 1000; c += 5 {
			x := float64(c) / 1000
			n := swarm.GetMinimumSwarmSize(x)
			t.Add("minsize", "c", vh.Micro(x), "n", n, "l", lim(n))
		}
		for _, n := range ns {
			t.Add("scaleof", "n", n, "scale", scale.FromCount(n).String())
		}
		for range 200 {
			n := 1 + g.Intn(2500)
			t.Add("scaleof", "n", n, "scale", scale.FromCount(n).String())
		}
		for s := scale.Tiny; s <= scale.Huge; s++ {
			t.Add("scale", "scale", s.String(), "count", s.DefaultAgentCount(), "target", vh.Micro(s.DefaultTargetCoherence()),
				"back", scale.FromCount(s.DefaultAgentCount()).String(), "l", lim(s.DefaultAgentCount()), "maxn", s.MaxNeighbors(),
				"upd", s.DefaultUpdateIntervalMs())
		}
	})
	ats := func(extra float64) []float64 {
		q := []float64{0.54, 0.56, 0.64, 0.66, 0.74, 0.76, 0.84, 0.86, 0.89, 0.91}
		if extra > 0 {
			q = []float64{extra - 0.004, extra + 0.004, 0.53, 0.92}
		}
		return q
	}
	// clients
	for s := scale.Tiny; s <= scale.Huge; s++ {
		for gt := 0; gt < 8; gt++ {
			if s >= scale.Large && gt != int(s)%8 && !vh.Thorough() {
				continue
			}
			over := []float64{0, 0.6, 0.7 + 0.001*float64(g.Intn(200)), 1.0, 1.2, math.NaN(), math.Nextafter(1, 2)}
			for oi, ov := range over {
				if oi > 1 && (gt+oi)%4 != 0 && !vh.Thorough() && s > scale.Tiny {
					continue
				}
				how := (gt + oi) % 3
				if ov == 0 && how == 2 && g.Intn(2) == 0 {
					how = 3
				}
				r.Run(nil, limit, func(t *vh.Trace) {
					var c *client.Client
					var err error
					switch {
					case ov == 0 && gt == 0 && how == 0:
						c, err = client.MinimizeAPICalls(s)
					case ov == 0 && gt == 1:
						c, err = client.DistributeLoad(s)
					case ov == 0 && gt == 0 && s == scale.Tiny:
						c, err = client.Default()
					case how == 2:
						opts := []client.Option{client.WithScaleOption(s), client.WithGoalOption(goal.Type(gt))}
						if ov != 0 {
							opts = append([]client.Option{client.WithCoherenceOption(ov)}, opts...)
						}
						c, err = client.NewWithOptions(opts...)
					case how == 1:
						b := client.New()
						if ov != 0 {
							b = b.WithTargetCoherence(ov)
						}
						c, err = b.WithScale(s).WithGoal(goal.Type(gt)).Build()
					default:
						b := client.Custom().WithGoal(goal.Type(gt)).WithScale(s)
						if ov != 0 {
							b = b.WithTargetCoherence(ov)
						}
						c, err = b.Build()
					}
					e := vh.Ev{"op": "client", "scale": s.String(), "goal": gt, "over": 0, "reject": ov > 1 || math.IsNaN(ov), "err": err != nil || c == nil,
						"l": lim(s.DefaultAgentCount())}
					if ov > 0 && ov <= 1 {
						e["over"] = vh.Micro(ov)
					}
					if err == nil && c != nil {
						e["size"], e["agents"], e["cfg"] = c.Size(), len(c.Agents()), grec(c.Config())
						extra := ov
						if ov > 0.95 {
							extra = float64(lim(s.DefaultAgentCount())["pr"].(int)) / 1e6
						}
						e["probes"] = probeAll(tt, c, ats(extra))
					}
					t.Ev = append(t.Ev, e)
				})
			}
		}
		// options that are out of range
		for _, bad := range []float64{0, -0.1, 1.0001, math.Inf(1), math.NaN()} {
			r.Run(nil, limit, func(t *vh.Trace) {
				c, err := client.NewWithOptions(client.WithScaleOption(s), client.WithCoherenceOption(bad))
				t.Add("client", "scale", s.String(), "goal", 0, "over", 0, "reject", true, "err", err != nil || c == nil)
			})
		}
	}
	// swarms with ambitious targets
	for _, n := range []int{1, 2, 3, 4, 5, 9, 10, 19, 20, 49, 50, 99, 100, 101, 150} {
		for _, c := range []float64{0.6, 0.8, 0.85, 0.9, 0.93, 0.96, 0.975, 0.985, 0.999, 1} {
			r.Run(nil, limit, func(t *vh.Trace) {
				s, err := swarm.New(n, core.State{Phase: 0.3, Frequency: 100 * time.Millisecond, Coherence: c})
				e := vh.Ev{"op": "swarm", "n": n, "c": vh.Micro(c), "err": err != nil || s == nil, "l": lim(n)}
				if err == nil && s != nil {
					x := min(c, float64(lim(n)["pr"].(int))/1e6)
					e["probes"] = probeAll(tt, bare{s}, []float64{x - 0.003, x + 0.0005, 0.5, 1})
				}
				t.Ev = append(t.Ev, e)
			})
		}
	}
}

// probeAll distinguishes a new measurement from the old one by its value.
func probeAll(tt *testing.T, c starter, at []float64) []vh.Ev {
	marks[c] = 0
	res := []vh.Ev{}
	for _, r := range at {
		q := probe(tt, c, []float64{r})
		res = append(res, q...)
		if b, ok := c.(bare); ok {
			marks[c] = b.s.CurrentCoherence()
		} else {
			marks[c] = c.(interface{ Coherence() float64 }).Coherence()
		}
	}
	delete(marks, c)
	return res
}
