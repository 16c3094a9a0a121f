package dispx

import (
	"hash/fnv"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

// absent stands for a number that the screen does not show.
const absent = -99999999

var patterns = []pattern.Type{pattern.Unset, pattern.HighFrequency, pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse}

const goals, scales = 8, 5

var menuGoals = []string{"Batch", "Load", "Consensus", "Latency", "Energy", "Rhythm", "Failure", "Traffic"}
var menuPatterns = []string{"Unset", "High-Freq", "Burst", "Steady", "Mixed", "Sparse"}
var menuScales = []string{"Tiny", "Small", "Medium", "Large", "Huge"}

// tenths reads a decimal number in tenths.
func tenths(s string) int {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return absent
	}
	return clampI(f * 10)
}

func clampI(f float64) int {
	if math.IsNaN(f) {
		return absent
	}
	return int(math.Round(math.Max(-1e9, math.Min(1e9, f))))
}

func num(p, s string) int {
	m := regexp.MustCompile(p).FindStringSubmatch(s)
	if m == nil {
		return absent
	}
	return tenths(m[1])
}

func word(p, s string) string {
	m := regexp.MustCompile(p).FindStringSubmatch(s)
	if m == nil {
		return "-"
	}
	return strings.TrimSpace(m[1])
}

func mark(s string) string {
	switch {
	case strings.Contains(s, "✓"):
		return "good"
	case strings.Contains(s, "⚠"):
		return "fair"
	case strings.Contains(s, "✗"):
		return "poor"
	}
	return "-"
}

func joined(p [][]cellT) string { return strings.Join(text(p), "\n") + "\n" }

const dec = `(-?[0-9.]+|NaN|[+-]?Inf)`

// seen is what the screen shows, for the goal that is displayed.
func (s *screen) seen(g int) vh.Ev {
	e := vh.Ev{}
	c := joined(s.panel("CONFIGURATION"))
	e["goal"], e["pat"], e["name"] = goalNamed(word(`Goal: +(.*)\n`, c)), patternNamed(strings.TrimRight(word(`Pattern: +(.*)\n`, c), " ✓⚠✗")), strings.TrimRight(word(`Scale: +(.*)\n`, c), " ✓⚠✗")
	e["patmark"], e["scmark"] = mark(word(`Pattern: +(.*)\n`, c)), mark(word(`Scale: +(.*)\n`, c))
	e["el"], e["elu"] = num(`Elapsed: +`+dec, c), word(`Elapsed: +-?[0-9.]+(s|m)`, c)
	d := joined(s.panel("SCENARIO"))
	e["patword"], e["scword"] = word(`Pattern: ([A-Za-z]+)`, d), word(`Scale: ([A-Za-z]+)`, d)

	w := joined(s.panel("WORKLOADS"))
	rowsSeen := []vh.Ev{}
	if i := strings.LastIndex(w, "──"); i >= 0 {
		for _, m := range regexp.MustCompile(`(?m)^\S+ +(.*?) +(🟢|🟡|🔴) +(-?\d+)(!?) +(-?\d+)$`).FindAllStringSubmatch(w[i:], -1) {
			q, _ := strconv.Atoi(m[3])
			n, _ := strconv.Atoi(m[5])
			rowsSeen = append(rowsSeen, vh.Ev{"typ": m[1], "mark": map[string]string{"🟢": "green", "🟡": "yellow", "🔴": "red"}[m[2]], "q": q, "over": m[4] == "!", "sent": n})
		}
	}
	e["rows"], e["more"] = rowsSeen, num(`and (\d+) more`, w)

	m := joined(s.panel("METRICS"))
	e["paused"], e["disrupted"], e["reset"] = word(`Paused: +(\w+)`, m), word(`Disrupted: +(\w+)`, m), word(`Resetting: +(\w+)`, m)
	mw, n1, n2, n3, n4, mw2 := "-", absent, absent, absent, absent, "-"
	switch goal.Type(g) {
	case goal.DistributeLoad:
		mw, n1, n2 = word(`Distribution: (.*)\n`, m), num(`Phase Spread: `+dec, m), num(`Load/Server: `+dec, m)
	case goal.ReachConsensus:
		mw, n1, n2 = word(`Status: (.*)\n`, m), num(`Agreement: `+dec, m), num(`Voting Rounds: `+dec, m)
	case goal.MinimizeLatency:
		mw, n1, n2, n3 = word(`Timing: (.*)\n`, m), num(`P50 Latency: `+dec, m), num(`P95 Latency: `+dec, m), num(`Jitter: ±`+dec, m)
	case goal.SaveEnergy:
		mw, n1, n2 = word(`Energy Use: (.*)\n`, m), num(`Sensors Idle: `+dec, m), num(`Est. Battery: `+dec, m)
	case goal.MaintainRhythm:
		mw, n1, n2 = word(`Status: (.*)\n`, m), num(`Phase Lock: `+dec, m), num(`Timing Drift: ±`+dec, m)
	case goal.RecoverFromFailure:
		mw, n1, mw2 = word(`Status: (.*)\n`, m), num(`Sync Health: `+dec, m), word(`Recovery Time: (.*)\n`, m)
		n2 = num(`Recovery Time: `+dec+`s`, m)
	case goal.AdaptToTraffic:
		mw, n1, n2, n3 = word(`Adaptation: (.*)\n`, m), num(`Current Load: `+dec, m), num(`Scaled Units: (\d+)/`, m), num(`Scaled Units: \d+/(\d+)`, m)
	default:
		mw, n1, n3, n4 = word(`(Not synced|In sync!|Syncing\.\.\.)`, m), num(`(?:synced|sync!|Syncing\.\.\.) `+dec+`%`, m), num(`Sent: (\d+) batches`, m), num(`BATCH SENT! \((-?\d+) items`, m)
		n2 = num(`Collecting: (\d+) tasks`, m)
		if strings.Contains(m, "Waiting for tasks") {
			n2 = 0
		}
	}
	e["mw"], e["mw2"], e["n"] = mw, mw2, []int{n1, n2, n3, n4}

	k := joined(s.panel("ECONOMICS"))
	e["cost"] = []int{absent, absent, absent, absent}
	if m := regexp.MustCompile(`\$` + dec0 + ` \(individual`).FindStringSubmatch(k); m != nil {
		e["cost"].([]int)[0] = cents(m[1])
	}
	if m := regexp.MustCompile(`\$` + dec0 + ` \(batched`).FindStringSubmatch(k); m != nil {
		e["cost"].([]int)[1] = cents(m[1])
	}
	if m := regexp.MustCompile(`SAVINGS: \$` + dec0 + ` \(` + dec0 + `%`).FindStringSubmatch(k); m != nil {
		e["cost"].([]int)[2], e["cost"].([]int)[3] = cents(m[1]), tenths(m[2])
	}

	p := s.panel("SWARM DYNAMICS")
	y := joined(p)
	dn, sync, dw, dw2, hues := []int{}, absent, "-", "-", []string{}
	switch goal.Type(g) {
	case goal.DistributeLoad:
		for _, l := range []string{"1", "2", "3", "4"} {
			dn = append(dn, num(`Server`+l+`: *█* *(\d+)`, y))
		}
		dw = word(`Status: (\w+)`, y)
	case goal.ReachConsensus:
		dn, dw = []int{num(`\] `+dec+`%`, y), strings.Count(y, "█")}, pick(y, "CONSENSUS REACHED", "Voting in progress")
	case goal.MinimizeLatency:
		for _, l := range []string{"0-10ms", "10-20ms", "20-30ms", "30-40ms", `40ms\+`} {
			dn = append(dn, num(`(?m)^`+l+` *:[ █]*?(\d+)$`, y))
		}
	case goal.SaveEnergy:
		dn, dw = []int{num(`\] `+dec+`%`, y), num(`Sleeping: (\d+)`, y), num(`Active: (\d+)`, y), strings.Count(y, "█")}, pick(y, "EFFICIENT", "HIGH DRAIN")
	case goal.MaintainRhythm:
		dn = []int{strings.Count(y, "◀"), strings.Count(y, "█"), strings.Count(y, "▶"), num(`On Schedule: (\d+)/`, y), num(`On Schedule: \d+/(\d+)`, y)}
	case goal.RecoverFromFailure:
		dn = []int{num(`Healthy: *█* *(\d+)`, y), num(`Degraded: *█* *(\d+)`, y), num(`Failed: *█* *(\d+)`, y)}
		dw = pick(y, "RECOVERING", "FULLY RESILIENT")
	case goal.AdaptToTraffic:
		dn = []int{num(`\] `+dec+`%`, y), num(`Idle: (\d+)`, y), num(`Normal: (\d+)`, y), num(`Busy: (\d+)`, y), strings.Count(y, "█")}
		dw, dw2 = pick(y, "SCALE UP", "SCALE DOWN", "OPTIMAL"), pick(y, "synchronized", "learning", "scattered")
	default:
		sync, dw = num(`Sync: `+dec+`%`, y), pick(y, "BATCHING")
		for x := range 35 {
			h, hue := 0, "-"
			for _, l := range p {
				if x < len(l) && l[x].r == '█' {
					h++
					hue = hueOf(l[x].fg)
				}
			}
			dn, hues = append(dn, h), append(hues, hue)
		}
	}
	e["sync"], e["dn"], e["dw"], e["dw2"], e["hues"] = sync, dn, dw, dw2, hues

	v := joined(s.panel("SWARM MOVEMENT"))
	if i := strings.Index(v, "Target"); i >= 0 {
		legend := strings.LastIndex(v[:i], "\n")
		v = v[:max(legend, 0)]
	}
	e["vis"] = []int{strings.Count(v, "⊕"), strings.Count(v, "●"), strings.Count(v, "o"), strings.Count(v, "∙")}

	gc := s.panel("CURRENT COHERENCE")
	gt := joined(s.panel("TARGET COHERENCE"))
	gj := joined(gc)
	e["cur"], e["curlab"], e["tgt"], e["tgtlab"] = num(`(-?\d+)%`, gj), word(`% \((.*?)\)`, gj), num(`(-?\d+)%`, gt), word(`% \((.*?)\)`, gt)
	e["curhue"] = "-"
	for _, l := range gc {
		for _, c := range l {
			if h := hueOf(c.bg); h != "-" {
				e["curhue"] = h
			}
		}
	}

	ch := joined(s.panel("SYNCHRONIZATION COHERENCE"))
	hash := fnv.New32a()
	_, _ = hash.Write([]byte(ch))
	lines := strings.Split(strings.TrimSpace(ch), "\n")
	marks := strings.Fields(lines[len(lines)-1])
	last := absent
	if len(marks) > 0 {
		last = num(`^(\d+)$`, marks[len(marks)-1])
	}
	e["chart"] = []int{int(hash.Sum32() >> 2), last, num(`^(\d+)$`, strings.Join(marks[:min(1, len(marks))], ""))}

	bold := s.bold("MENU")
	bg, bp, bs := []int{}, []int{}, []int{}
	for i, n := range menuGoals {
		if bold[n] {
			bg = append(bg, i)
		}
	}
	for i, n := range menuPatterns {
		if bold[n] {
			bp = append(bp, i)
		}
	}
	for i, n := range menuScales {
		if bold[n] {
			bs = append(bs, i)
		}
	}
	e["boldg"], e["boldp"], e["bolds"] = bg, bp, bs
	mj := joined(s.panel("MENU"))
	e["keys"] = strings.Contains(mj, "[D] Disrupt") && strings.Contains(mj, "[R] Reset") && strings.Contains(mj, "[P] Pause") && strings.Contains(mj, "[Q] Quit")
	return e
}

const dec0 = `(-?[0-9.]+)`

func cents(s string) int {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return absent
	}
	return clampI(f * 100)
}

func pick(s string, words ...string) string {
	for _, w := range words {
		if strings.Contains(s, w) {
			return w
		}
	}
	return "-"
}

func hueOf(c int) string {
	switch c {
	case 9, 1:
		return "red"
	case 2, 10:
		return "green"
	case 11, 3:
		return "yellow"
	case 6, 14:
		return "cyan"
	case 5, 13:
		return "magenta"
	}
	return "-"
}

// bold lists the words of a panel that are all in bold.
func (s *screen) bold(title string) map[string]bool {
	out := map[string]bool{}
	for _, l := range s.panel(title) {
		w, all := "", true
		end := func() {
			if w != "" && all {
				out[w] = true
			}
			w, all = "", true
		}
		for _, c := range l {
			if c.r == ' ' || c.r == 0 {
				end()
				continue
			}
			w += string(c.r)
			all = all && c.bold
		}
		end()
	}
	return out
}

func goalNamed(s string) int {
	for g := range goals {
		if goal.Type(g).String() == s {
			return g
		}
	}
	return -1
}

func patternNamed(s string) int {
	if s == "" || s == "-" {
		return -1
	}
	for i, p := range patterns {
		if p.String() == s {
			return i
		}
	}
	return -2
}

// advice is what the catalogue says about a combination.
func advice(g, sc, p int) (quality string, good []int, rec bool, recs []int) {
	n := scale.Size(sc).DefaultAgentCount()
	name := func(p pattern.Type) string {
		switch pattern.GetQualifier(g, n, p) {
		case pattern.QualifierOptimal:
			return "Optimal"
		case pattern.QualifierExcellent, pattern.QualifierGood:
			return "Good"
		case pattern.QualifierFair:
			return "Fair"
		case pattern.QualifierPoor:
			return "Poor"
		}
		return "Unknown"
	}
	if p < 0 {
		p = 0
	}
	quality = name(patterns[p])
	good, recs = []int{}, []int{}
	for i := 1; i < len(patterns); i++ {
		if q := name(patterns[i]); q == "Optimal" || q == "Good" {
			good = append(good, i)
		}
	}
	for i := range scales {
		if goal.Type(g).IsRecommendedForSize(scale.Size(i).DefaultAgentCount()) {
			recs = append(recs, i)
		}
	}
	return quality, good, goal.Type(g).IsRecommendedForSize(n), recs
}
