package dispx

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/display"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

// op is one operation on a display.
type op struct {
	Op    string
	Goal  int
	Scale int
	Pat   int // -1: never set
	Name  string
	Since float64 // seconds since the last batch
	Wait  int     // milliseconds to pass before
	Snap  *display.SimulationSnapshot
	Stats *display.Statistics
}

// TestChild draws the operations of one case on its terminal.
func TestChild(t *testing.T) {
	f := os.Getenv("DISPX_CASE")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		os.Exit(9)
	}
	var ops []op
	if json.Unmarshal(b, &ops) != nil {
		os.Exit(9)
	}
	if os.Getenv("DISPX_TEXT") != "" {
		synctest.Test(t, func(*testing.T) { textChild(ops) })
		os.Exit(0)
	}
	d, ok := display.NewTerminalDisplay().(*display.TerminalDisplay)
	if !ok {
		os.Exit(9)
	}
	gone, cancel := context.WithCancel(context.Background())
	cancel()
	if err := d.Initialize(); err != nil {
		os.Exit(9)
	}
	for i, o := range ops {
		switch o.Op {
		case "cfg":
			d.SetSimulationName(o.Name)
			d.SetGoalName(goal.Type(o.Goal).String())
			d.SetGoalAndScale(goal.Type(o.Goal), scale.Size(o.Scale))
			if o.Pat >= 0 {
				d.SetPattern(patterns[o.Pat])
			}
		case "welcome":
			d.ShowWelcome()
		case "update":
			o.Snap.LastBatchTime = time.Now().Add(-time.Duration(o.Since * float64(time.Second)))
			d.Update(*o.Snap)
		case "summary":
			d.ShowSummary(*o.Stats)
		}
		err := d.Run(gone, nil)
		fmt.Fprintf(os.Stdout, "\x1b]777;%d %v\x07", i, err == nil)
	}
	d.Close()
	fmt.Fprintf(os.Stdout, "\x1b]777;end\x07")
	os.Exit(0)
}

func textChild(ops []op) {
	d := display.NewTextDisplay()
	_ = d.Initialize()
	for i, o := range ops {
		time.Sleep(time.Duration(o.Wait) * time.Millisecond)
		switch o.Op {
		case "cfg":
			if n, ok := d.(interface{ SetSimulationName(string) }); ok {
				n.SetSimulationName(o.Name)
			}
		case "welcome":
			d.ShowWelcome()
		case "update":
			d.Update(*o.Snap)
		case "summary":
			d.ShowSummary(*o.Stats)
		case "run":
			ctx, cancel := context.WithTimeout(context.Background(), time.Second)
			t0 := time.Now()
			err := d.Run(ctx, nil)
			fmt.Printf("\x1b]778;%v %d\x07", err == nil, time.Since(t0)/time.Millisecond)
			cancel()
		}
		fmt.Printf("\x1b]777;%d\x07", i)
	}
	_ = d.Close()
	fmt.Print("\x1b]777;end\x07")
}

func child(ops []op, text bool) (*exec.Cmd, func()) {
	b, err := json.Marshal(ops)
	if err != nil {
		panic(err)
	}
	f, err := os.CreateTemp("", "dispx")
	if err != nil {
		panic(err)
	}
	_, _ = f.Write(b)
	f.Close()
	c := exec.Command(os.Args[0], "-test.run", "^TestChild$")
	c.Env = append(os.Environ(), "DISPX_CASE="+f.Name(), "TERM=xterm-256color", "COLORTERM=", "LANG=C.UTF-8", "LC_ALL=C.UTF-8")
	if text {
		c.Env = append(c.Env, "DISPX_TEXT=1")
	}
	return c, func() { os.Remove(f.Name()) }
}

func micro(fs []float64) []int {
	out := []int{}
	for _, f := range fs {
		out = append(out, vh.Micro(f))
	}
	return out
}

// given projects a snapshot.
func given(s *display.SimulationSnapshot, since float64) vh.Ev {
	e := vh.Ev{"el": int(s.ElapsedTime / time.Millisecond), "co": vh.Micro(s.Coherence), "tg": vh.Micro(s.TargetCoherence), "batch": s.CurrentBatchSize, "sent": s.BatchesProcessed,
		"cost":   []int{int(math.Round(s.CostWithoutSync * 100)), int(math.Round(s.CostWithSync * 100)), int(math.Round(s.Savings * 100)), int(math.Round(s.SavingsPercent * 100))},
		"paused": s.Paused, "disrupted": s.Disrupted, "reset": s.Reset, "just": s.BatchJustSent, "last": s.LastBatchSize, "since": int(since * 1000)}
	var ph, sin, cos []float64
	typ, q, sent, act := []string{}, []int{}, []int{}, []string{}
	var sx, sy float64
	for _, a := range s.Agents {
		ph, sin, cos = append(ph, a.Phase), append(sin, math.Sin(a.Phase)), append(cos, math.Cos(a.Phase))
		sx, sy = sx+math.Cos(a.Phase), sy+math.Sin(a.Phase)
		typ, q, sent, act = append(typ, a.Type[:min(len(a.Type), 11)]), append(q, a.PendingTasks), append(sent, a.BatchesSent), append(act, a.ActivityLevel)
	}
	n := math.Max(1, float64(len(s.Agents)))
	sx, sy = sx/n, sy/n
	dev := []float64{}
	for i := range ph {
		dev = append(dev, math.Acos(math.Max(-1, math.Min(1, (cos[i]*sx+sin[i]*sy)/math.Max(1e-12, math.Hypot(sx, sy))))))
	}
	e["ph"], e["sin"], e["mm"], e["dev"] = []int{}, micro(sin), vh.Micro(math.Hypot(sx, sy)), micro(dev)
	for _, p := range ph {
		e["ph"] = append(e["ph"].([]int), vh.Ph(p))
	}
	e["typ"], e["q"], e["qs"], e["act"] = typ, q, sent, act
	return e
}

func given2(s *display.Statistics) vh.Ev {
	return vh.Ev{"calls": s.TotalAPICalls, "batches": s.TotalBatches, "avg": int(math.Round(s.AverageBatchSize * 100)), "savings": int(math.Round(s.TotalSavings * 100)), "pct": int(math.Round(s.SavingsPercent * 100)), "peak": vh.Micro(s.PeakCoherence), "conv": int(s.TimeToConverge / time.Millisecond)}
}

func (o op) event() (string, []any) {
	switch o.Op {
	case "cfg":
		q, good, rec, recs := advice(o.Goal, o.Scale, o.Pat)
		return "cfg", []any{"goal", o.Goal, "scale", o.Scale, "pat", o.Pat, "name", o.Name, "quality", q, "good", good, "rec", rec, "recs", recs}
	case "update":
		return "update", []any{"snap", given(o.Snap, o.Since)}
	case "summary":
		return "summary", []any{"stats", given2(o.Stats)}
	}
	return o.Op, nil
}

// a configuration without a pattern keeps the one selected before
func kept(ops []op) []op {
	last := -1
	for i := range ops {
		if ops[i].Op == "cfg" {
			if ops[i].Pat < 0 {
				ops[i].Pat = last
			}
			last = ops[i].Pat
		}
	}
	return ops
}

func terminal(t *vh.Trace, ops []op) {
	ops = kept(ops)
	m, s, err := openPty()
	if err != nil {
		fmt.Fprintln(os.Stderr, "no pseudo terminal:", err)
		os.Exit(9)
	}
	defer m.Close()
	c, done := child(ops, false)
	defer done()
	c.Stdin, c.Stdout, c.Stderr = s, s, s
	c.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if err := c.Start(); err != nil {
		panic(err)
	}
	s.Close()
	g, next, end := 0, 0, false
	var sc *screen
	sc = newScreen(func(x string) {
		if x == "end" {
			end = true
			return
		}
		o := ops[next]
		if o.Op == "cfg" {
			g = o.Goal
		}
		next++
		name, kv := o.event()
		e := t.Add(name, kv...)
		e["ok"], e["scr"] = strings.HasSuffix(x, "true"), sc.seen(g)
		if o.Op == "summary" {
			y := joined(sc.panel("METRICS"))
			e["sum"] = []int{num(`individual\): +`+dec, y), num(`batched\): +`+dec, y), num(`Batch Size: +`+dec, y), num(`Peak Coherence: +`+dec, y), num(`Converge: +`+dec, y)}
			e["sumu"] = word(`Converge: +-?[0-9.]+(s|m)`, y)
		}
	})
	var tail bytes.Buffer
	buf := make([]byte, 1<<16)
	for {
		n, err := m.Read(buf)
		sc.write(buf[:n])
		if tail.Len() > 1<<16 {
			tail.Next(tail.Len() / 2)
		}
		tail.Write(buf[:n])
		if err != nil {
			break
		}
	}
	_ = c.Wait()
	if c.ProcessState.ExitCode() == 9 {
		fmt.Fprintln(os.Stderr, "no display")
		os.Exit(9)
	}
	if !end {
		t.Add("PANIC", "msg", "the display ended: "+panicText(tail.String()))
	}
}

func panicText(s string) string {
	i := strings.Index(s, "panic:")
	if i < 0 {
		i = strings.Index(s, "fatal error:")
	}
	if i < 0 {
		return "exit"
	}
	s = regexp.MustCompile(`[^ -~]+`).ReplaceAllString(s[i:], " ")
	return s[:min(len(s), 100)]
}

func textual(t *vh.Trace, ops []op) {
	c, done := child(ops, true)
	defer done()
	out, _ := c.StdoutPipe()
	var errs bytes.Buffer
	c.Stderr = &errs
	if err := c.Start(); err != nil {
		panic(err)
	}
	b, _ := io.ReadAll(out)
	_ = c.Wait()
	if c.ProcessState.ExitCode() == 9 {
		os.Exit(9)
	}
	now := 0
	parts := regexp.MustCompile("\x1b]777;(\\d+|end)\x07").Split(string(b), -1)
	for i, o := range ops {
		if i >= len(parts)-1 {
			t.Add("PANIC", "msg", "the display ended: "+panicText(errs.String()+string(b)))
			return
		}
		s := parts[i]
		now += o.Wait
		name, kv := o.event()
		e := t.Add("t"+name, kv...)
		e["at"] = now
		switch o.Op {
		case "welcome":
			e["title"] = word(`EMERGE: (.*) DEMO`, s)
		case "update":
			lines := regexp.MustCompile(`(?m)^\[(-?\d+)(s|m)\] Coherence: `+dec+`% \| Savings: \$`+dec0+` \(`+dec+`%\) \| Batches: (-?\d+)$`).FindAllStringSubmatch(s, -1)
			e["lines"], e["any"] = len(lines), strings.TrimSpace(s) != ""
			e["shown"] = []int{}
			e["u"] = "-"
			if len(lines) == 1 {
				l := lines[0]
				n, _ := strconv.Atoi(l[1])
				bt, _ := strconv.Atoi(l[6])
				e["shown"], e["u"] = []int{n, tenths(l[3]), cents(l[4]), tenths(l[5]), bt}, l[2]
			}
		case "summary":
			e["sum"] = []int{num(`without sync\): +`+dec, s), num(`with sync\): +`+dec, s), num(`Batch Size: +`+dec, s), num(`Peak Coherence: +`+dec, s), absent, absent}
			if m := regexp.MustCompile(`Total Savings: +\$` + dec0 + ` \(` + dec0 + `%\)`).FindStringSubmatch(s); m != nil {
				e["sum"].([]int)[4], e["sum"].([]int)[5] = cents(m[1]), tenths(m[2])
			}
		case "run":
			e["ran"] = word("\x1b]778;(.*?)\x07", s)
			now += 1000
		}
	}
}

var kinds = []string{"ETL", "Report", "Analytics", "DataETLPipeline", "Leader", "Voter", "Sensor 7", "x"}
var acts = []string{"burst", "quiet", "steady", "active", "mixed", "sparse", ""}

// values around the thresholds of the panels
var levels = []float64{0, 0.1, 0.2, 0.299, 0.3, 0.301, 0.45, 0.5, 0.501, 0.55, 0.59, 0.6, 0.65, 0.699, 0.7, 0.75, 0.8, 0.81, 0.85, 0.89, 0.9, 0.93, 0.949, 0.95, 0.99, 1}

func snapshot(g *rand.Rand, sizes []int) *display.SimulationSnapshot {
	s := &display.SimulationSnapshot{Timestamp: time.Unix(1e9, 0)}
	s.ElapsedTime = time.Duration(g.Int63n(int64([]time.Duration{3 * time.Second, 60 * time.Second, 90 * time.Minute}[g.Intn(3)])))
	lv := func() float64 {
		if g.Intn(3) == 0 {
			return math.Round(g.Float64()*1e4) / 1e4
		}
		return levels[g.Intn(len(levels))]
	}
	s.Coherence, s.TargetCoherence = lv(), lv()
	if g.Intn(4) == 0 {
		s.TargetCoherence = s.Coherence
	}
	s.CurrentBatchSize, s.BatchesProcessed = g.Intn(4)*g.Intn(40), g.Intn(1000)
	s.CostWithoutSync = float64(g.Intn(100000)) / 100
	s.CostWithSync = float64(g.Intn(100000)) / 100
	s.Savings, s.SavingsPercent = s.CostWithoutSync-s.CostWithSync, []float64{0, 19.9, 20, 49.9, 50, 100, g.Float64() * 100, -g.Float64() * 50}[g.Intn(8)]
	s.Paused, s.Disrupted, s.Reset, s.BatchJustSent, s.LastBatchSize = g.Intn(3) == 0, g.Intn(3) == 0, g.Intn(4) == 0, g.Intn(2) == 0, g.Intn(200)
	n := sizes[g.Intn(len(sizes))]
	mode, c, act := g.Intn(5), g.Float64()*2*math.Pi, g.Intn(len(acts)+2)
	// how many agree
	agree := []int{n, n - 1, (95*n + 99) / 100, 95 * n / 100, 4 * n / 5}[g.Intn(5)]
	for i := range n {
		p := g.Float64() * 2 * math.Pi
		switch mode {
		case 0: // on a lattice
			p = float64(g.Intn(24)) * math.Pi / 12
		case 4: // most in one bloc
			p = 0.2 + c/2/math.Pi*0.2
			if i >= agree {
				p = 2 + g.Float64()*4
			}
		case 1: // together
			p = math.Mod(c+g.NormFloat64()*0.2+4*math.Pi, 2*math.Pi)
		case 2: // around the beat
			p = math.Mod((g.Float64()-0.5)*2.4+4*math.Pi, 2*math.Pi)
		}
		a := display.AgentSnapshot{ID: fmt.Sprint(i), Type: kinds[g.Intn(len(kinds))], Icon: []string{"📊", "🔧", "⚡"}[g.Intn(3)], Phase: p, PendingTasks: g.Intn(3) * g.Intn(12), BatchesSent: g.Intn(300)}
		a.ActivityLevel = acts[g.Intn(len(acts))]
		if act < len(acts) && g.Intn(4) > 0 {
			a.ActivityLevel = acts[act]
		}
		s.Agents = append(s.Agents, a)
	}
	return s
}

func statistics(g *rand.Rand) *display.Statistics {
	return &display.Statistics{TotalAPICalls: g.Intn(100000), TotalBatches: g.Intn(5000), AverageBatchSize: float64(g.Intn(10000)) / 100, TotalSavings: float64(g.Intn(100000)) / 100, SavingsPercent: float64(g.Intn(10000)) / 100, PeakCoherence: g.Float64(), TimeToConverge: time.Duration(g.Intn(200000)) * time.Millisecond}
}

func config(g *rand.Rand) op {
	sc := g.Intn(scales)
	return op{Op: "cfg", Goal: g.Intn(goals), Scale: sc, Pat: g.Intn(len(patterns)+1) - 1, Name: strings.ToUpper(scale.Size(sc).String()) + " SWARM"}
}

func update(g *rand.Rand, sizes []int) op {
	return op{Op: "update", Snap: snapshot(g, sizes), Since: float64(g.Intn(100)) / 10}
}

func TestVerif(_ *testing.T) {
	r := vh.Open()
	defer r.Close()
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	one := func(h vh.Ev, f func(t *vh.Trace)) {
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			r.Run(h, 100*time.Second, f)
		}()
	}
	if vh.UnitName() == "text" {
		for i := range vh.N() {
			g := vh.Rng(i)
			ops := []op{}
			for range 3 + g.Intn(12) {
				o := []op{{Op: "cfg", Pat: -1, Name: kinds[g.Intn(4)]}, {Op: "welcome"}, {Op: "summary", Stats: statistics(g)}, {Op: "run"}, update(g, []int{0, 3})}[min(4, g.Intn(16))]
				o.Wait = []int{0, 1, 100, 400, 500, 999, 1000, 1001, 2500}[g.Intn(9)]
				ops = append(ops, o)
			}
			one(nil, func(t *vh.Trace) { textual(t, ops) })
		}
		wg.Wait()
		return
	}
	for k, seq := range vh.Ops() {
		g := vh.Rng(1000000 + k)
		ops := []op{}
		for _, o := range seq {
			switch o.S("op") {
			case "cfg":
				sc := o.I("s")
				ops = append(ops, op{Op: "cfg", Goal: o.I("g"), Scale: sc, Pat: o.I("p"), Name: strings.ToUpper(scale.Size(sc).String()) + " SWARM"})
			case "update":
				u := update(g, []int{8})
				u.Snap.Coherence, u.Snap.Paused, u.Snap.Disrupted = float64(o.I("c"))/100, o.B("paused"), o.B("dis")
				ph := o.Ints("ph")
				for i := range u.Snap.Agents {
					u.Snap.Agents[i].Phase = float64(ph[i%len(ph)]) * math.Pi / 12
				}
				ops = append(ops, u)
			case "summary":
				ops = append(ops, op{Op: "summary", Stats: statistics(g)})
			default:
				ops = append(ops, op{Op: o.S("op")})
			}
		}
		one(nil, func(t *vh.Trace) { terminal(t, ops) })
	}
	for i := range vh.N() {
		g := vh.Rng(i)
		sizes := []int{1, 2, 3, 7, 10, 11, 20, 35, 50}
		if i%10 == 0 {
			sizes = []int{0, 200, 1000}
		}
		ops := []op{config(g)}
		if g.Intn(2) == 0 {
			ops = append(ops, op{Op: "welcome"})
		}
		for range 1 + g.Intn(4) {
			switch g.Intn(10) {
			case 0:
				ops = append(ops, config(g))
			case 1:
				ops = append(ops, op{Op: "welcome"})
			case 2:
				ops = append(ops, op{Op: "summary", Stats: statistics(g)})
			default:
				ops = append(ops, update(g, sizes))
			}
		}
		ops = append(ops, update(g, sizes))
		if i%40 == 0 {
			for k := range 80 {
				u := update(g, []int{1, 4})
				u.Snap.Paused = k%10 == 9
				ops = append(ops, u)
			}
		}
		// often the target stays
		var last *display.SimulationSnapshot
		for _, o := range ops {
			if o.Op == "update" {
				if last != nil && g.Intn(3) > 0 {
					o.Snap.TargetCoherence = last.TargetCoherence
				}
				last = o.Snap
			}
		}
		one(nil, func(t *vh.Trace) { terminal(t, ops) })
	}
	wg.Wait()
}
