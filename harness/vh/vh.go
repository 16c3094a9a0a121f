// Package vh is the recording side of the conformance checks: it runs cases on
// the real code and writes what happened as traces for the TLA+ trace specs.
package vh

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Ev is one event or header of a trace.
type Ev map[string]any

// Trace is one recorded execution.
type Trace struct {
	H  Ev   `json:"h"`
	Ev []Ev `json:"ev"`
	mu sync.Mutex
}

// Add appends an event.
func (t *Trace) Add(op string, kv ...any) Ev {
	e := Ev{"op": op}
	for i := 0; i+1 < len(kv); i += 2 {
		e[kv[i].(string)] = kv[i+1]
	}
	t.mu.Lock()
	t.Ev = append(t.Ev, e)
	t.mu.Unlock()
	return e
}

const (
	// TwoPiU units make a full turn.
	TwoPiU = 6283185
	Huge   = 2000000000
	NaNU   = 2000000001
)

// Micro projects a float on integer units of 1e-6.
func Micro(x float64) int { return scaled(x * 1e6) }

// Milli projects a float on integer units of 1e-3.
func Milli(x float64) int { return scaled(x * 1e3) }

func scaled(y float64) int {
	switch {
	case math.IsNaN(y):
		return NaNU
	case y >= Huge:
		return Huge
	case y <= -Huge:
		return -Huge
	}
	return int(math.Round(y))
}

// Ph projects an angle on integer phase units without reducing it.
func Ph(x float64) int { return scaled(x * (TwoPiU / (2 * math.Pi))) }

// PhMod projects an arbitrary finite angle on phase units, reduced exactly.
func PhMod(x float64) int {
	if math.IsNaN(x) || math.IsInf(x, 0) {
		return NaNU
	}
	if math.Abs(x) < 100 {
		return Ph(x)
	}
	bx := new(big.Rat)
	bx.SetFloat64(x)
	bt := new(big.Rat)
	bt.SetFloat64(2 * math.Pi)
	q := new(big.Rat).Quo(bx, bt)
	n := new(big.Int).Quo(q.Num(), q.Denom())
	r := new(big.Rat).Sub(bx, new(big.Rat).Mul(new(big.Rat).SetInt(n), bt))
	f, _ := r.Float64()
	return Ph(f)
}

// OnCircle tells whether a phase lies in [0, 2π).
func OnCircle(x float64) bool { return x >= 0 && x < 2*math.Pi }

// Unit tells whether a value lies in [0, 1].
func Unit(x float64) bool { return x >= 0 && x <= 1 }

// Seed is the seed of this run.
func Seed() int64 { return int64(envInt("VH_SEED", 1)) }

// N is the number of random cases asked for.
func N() int { return envInt("VH_RAND", 50) }

// Thorough tells whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VH_TIER") == "thorough" }

// UnitName is the unit asked for.
func UnitName() string { return os.Getenv("VH_UNIT") }

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Rng is a seeded generator for the given case.
func Rng(i int) *rand.Rand { return rand.New(rand.NewSource(Seed()*1000003 + int64(i)*7919 + 17)) }

// Op is one operation of a generated sequence.
type Op map[string]any

// S returns a string field.
func (o Op) S(k string) string { s, _ := o[k].(string); return s }

// I returns an integer field.
func (o Op) I(k string) int { f, _ := o[k].(float64); return int(f) }

// B returns a boolean field.
func (o Op) B(k string) bool { b, _ := o[k].(bool); return b }

// Ints returns a list of integers.
func (o Op) Ints(k string) []int {
	var r []int
	if l, ok := o[k].([]any); ok {
		for _, x := range l {
			f, _ := x.(float64)
			r = append(r, int(f))
		}
	}
	return r
}

// Ops reads the operation sequences generated by TLC from VH_OPS.
func Ops() [][]Op {
	p := os.Getenv("VH_OPS")
	if p == "" {
		return nil
	}
	f, err := os.Open(p)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var out [][]Op
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var s []Op
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			panic(err)
		}
		out = append(out, s)
	}
	return out
}

// Recorder writes traces.
type Recorder struct {
	f  *os.File
	w  *bufio.Writer
	mu sync.Mutex
}

// Open opens the trace file named by VH_OUT.
func Open() *Recorder {
	f, err := os.Create(os.Getenv("VH_OUT"))
	if err != nil {
		panic(err)
	}
	return &Recorder{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

// Put writes a finished trace.
func (r *Recorder) Put(t *Trace) {
	t.mu.Lock()
	b, err := json.Marshal(t)
	t.mu.Unlock()
	if err != nil {
		panic(err)
	}
	r.mu.Lock()
	r.w.Write(b)
	r.w.WriteByte('\n')
	r.mu.Unlock()
}

// Close flushes the traces.
func (r *Recorder) Close() {
	r.mu.Lock()
	r.w.Flush()
	r.f.Close()
	r.mu.Unlock()
}

// stuck reports when limit has passed without an end and the process either
// had as much processor time as that or does nothing any more: on a busy machine
// everything takes longer.
func stuck(limit time.Duration, done <-chan struct{}) <-chan struct{} {
	c := make(chan struct{})
	used := func() time.Duration {
		var u syscall.Rusage
		if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
			return 1 << 62
		}
		return time.Duration(u.Utime.Nano() + u.Stime.Nano())
	}
	go func() {
		t0, u0 := time.Now(), used()
		last := u0
		for {
			select {
			case <-done:
				return
			case <-time.After(limit / 6):
			}
			u := used()
			if time.Since(t0) >= limit && (u-u0 >= limit || u-last < limit/600) {
				close(c)
				return
			}
			last = u
		}
	}()
	return c
}

// Run records one execution. A panic of the code under test ends the trace
// with a PANIC event; when it does not end within limit, the trace ends with a
// HANG event and the process stops after writing what it has.
func (r *Recorder) Run(h Ev, limit time.Duration, body func(t *Trace)) {
	if h == nil {
		h = Ev{}
	}
	if len(h) == 0 {
		h["u"] = 0
	}
	t := &Trace{H: h, Ev: []Ev{}}
	done := make(chan struct{})
	if limit > 0 {
		go func() {
			select {
			case <-done:
			case <-stuck(limit, done):
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				os.Stderr.Write(buf[:n])
				t.Add("HANG", "msg", fmt.Sprintf("no progress for %v", limit))
				r.Put(t)
				r.Close()
				os.Exit(3)
			}
		}()
	}
	func() {
		defer close(done)
		Guard(t, func() { body(t) })
	}()
	r.Put(t)
}

// Guard runs f and records a panic as an event.
func Guard(t *Trace, f func()) {
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 1<<14)
			n := runtime.Stack(buf, false)
			os.Stderr.Write(buf[:n])
			t.Add("PANIC", "msg", clean(fmt.Sprint(p)))
		}
	}()
	f()
}

func clean(s string) string {
	s = strings.Map(func(c rune) rune {
		if c < 32 || c > 126 || c == '"' || c == '\\' {
			return ' '
		}
		return c
	}, s)
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}
