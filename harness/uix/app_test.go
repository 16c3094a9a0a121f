package uix

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"testing"

	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
	"github.com/carlisia/bio-adapt/zz_verif/vh"
)

// prog is the demo program running on a pseudo terminal.
type prog struct {
	cmd    *exec.Cmd
	pty    *os.File
	mu     sync.Mutex
	buf    bytes.Buffer
	done   chan struct{}
	code   int
	pasted int
}

func openPty() (*os.File, *os.File, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n, zero uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); e != 0 {
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		return nil, nil, e
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	ws := [4]uint16{60, 220, 0, 0}
	syscall.Syscall(syscall.SYS_IOCTL, s.Fd(), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws)))
	return m, s, nil
}

func startProg(tty bool, args ...string) *prog {
	p := &prog{done: make(chan struct{})}
	p.cmd = exec.Command(os.Getenv("VERIF_MAIN"), args...)
	p.cmd.Env = append(os.Environ(), "TERM=xterm-256color", "LANG=C.UTF-8", "LC_ALL=C.UTF-8")
	if tty {
		m, s, err := openPty()
		if err != nil {
			fmt.Fprintln(os.Stderr, "no pseudo terminal:", err)
			os.Exit(9)
		}
		p.pty = m
		p.cmd.Stdin, p.cmd.Stdout, p.cmd.Stderr = s, s, s
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
		if err := p.cmd.Start(); err != nil {
			panic(err)
		}
		s.Close()
		go func() {
			b := make([]byte, 1<<16)
			for {
				n, err := m.Read(b)
				p.mu.Lock()
				p.buf.Write(b[:n])
				p.mu.Unlock()
				if err != nil {
					return
				}
			}
		}()
	} else {
		p.cmd.Stdout, p.cmd.Stderr = lockedWriter{p}, lockedWriter{p}
		if err := p.cmd.Start(); err != nil {
			panic(err)
		}
	}
	go func() {
		_ = p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return p
}

type lockedWriter struct{ p *prog }

func (w lockedWriter) Write(b []byte) (int, error) {
	w.p.mu.Lock()
	defer w.p.mu.Unlock()
	return w.p.buf.Write(b)
}

func (p *prog) out() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.buf.String()
}

const altScreen = "\x1b[?1049h"

func (p *prog) runs() int { return strings.Count(p.out(), altScreen) }

var escapes = regexp.MustCompile(`\x1b(\[[0-9;?<>=]*[ -/]*[@-~]|[()][A-Z0-9]|[=>78cDEHMNOZ]|\][^\x07\x1b]*(\x07|\x1b\\))|\s`)

// screen is the text drawn since the last run began, without blanks.
func (p *prog) screen() string {
	o := p.out()
	i := strings.LastIndex(o, altScreen)
	if i < 0 {
		return ""
	}
	return escapes.ReplaceAllString(o[i:], "")
}

func (p *prog) exited(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	default:
	}
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

// until waits for a condition or the program's end.
func (p *prog) until(d time.Duration, f func() bool) bool {
	t0 := time.Now()
	for time.Since(t0) < d {
		if f() {
			return true
		}
		select {
		case <-p.done:
			return f()
		case <-time.After(20 * time.Millisecond):
		}
	}
	return false
}

func (p *prog) kill() {
	_ = p.cmd.Process.Kill()
	<-p.done
	if p.pty != nil {
		p.pty.Close()
	}
}

func (p *prog) drawn() bool { return strings.Contains(p.screen(), "Goal:") }

var said = regexp.MustCompile(`Switching to ([^\r\n]*?) (scale|optimization|pattern)\.\.\.`)

func nameOf(s string) string {
	for _, x := range scales {
		if x.v.String() == s {
			return x.n
		}
	}
	for _, x := range goals {
		if x.v.String() == s {
			return x.n
		}
	}
	for _, x := range patterns {
		if x.v.String() == s {
			return x.n
		}
	}
	return s
}

var shownScale = []string{"TINYSWARM(20workloads)", "SMALLSWARM(50workloads)", "MEDIUMSWARM(200workloads)", "LARGESWARM(1000workloads)", "HUGESWARM(2000workloads)"}

func (p *prog) shown() []string {
	s := p.screen()
	r := []string{}
	after := func(label string) string {
		i := strings.Index(s, label)
		if i < 0 {
			return ""
		}
		return s[i+len(label):]
	}
	for i, x := range shownScale {
		if strings.HasPrefix(after("Scale:"), x) {
			r = append(r, scales[i].n)
		}
	}
	for _, x := range goals {
		if strings.HasPrefix(after("Goal:"), strings.ReplaceAll(x.v.String(), " ", "")) {
			r = append(r, x.n)
		}
	}
	for _, x := range patterns {
		if strings.HasPrefix(after("Pattern:"), strings.ReplaceAll(x.v.String(), " ", "")) {
			r = append(r, x.n)
		}
	}
	return r
}

func runApp(_ *testing.T, r *vh.Recorder) {
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	one := func(f func(t *vh.Trace)) {
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			r.Run(nil, 8*time.Minute, f)
		}()
	}
	for i := range vh.N() {
		one(func(t *vh.Trace) { session(t, vh.Rng(i), i) })
	}
	one(func(t *vh.Trace) {
		p := startProg(false, "-timeout", "1s", "-interval", "200ms")
		ok := p.exited(20 * time.Second)
		t.Add("text", "what", "timeout", "exited", ok, "code", p.code, "summary", strings.Contains(p.out(), "SIMULATION COMPLETE"))
		p.kill()
	})
	one(func(t *vh.Trace) {
		for _, s := range []string{"tiny", "small", "medium", "big", "", "TINY"} {
			p := startProg(false, "-timeout", "300ms", "-scale", s)
			ok := p.exited(30 * time.Second)
			t.Add("text", "what", "scale", "exited", ok, "code", p.code, "badscale", s == "big" || s == "" || s == "TINY")
			p.kill()
		}
		p := startProg(false, "-list")
		ok := p.exited(20 * time.Second)
		t.Add("text", "what", "list", "exited", ok, "code", p.code)
		p.kill()
	})
	one(func(t *vh.Trace) {
		p := startProg(false, "-timeout", "0")
		_ = p.until(20*time.Second, func() bool { return strings.Contains(p.out(), "Coherence:") })
		sig := syscall.SIGINT
		_ = p.cmd.Process.Signal(sig)
		t.Add("signal", "exited", p.exited(20*time.Second))
		p.kill()
	})
	wg.Wait()
}

func session(t *vh.Trace, rng *rand.Rand, i int) {
	sc := scales[rng.Intn(2)]
	p := startProg(true, "-scale", sc.n, "-timeout", "0")
	defer p.kill()
	_ = p.until(40*time.Second, p.drawn)
	best := vh.Ev{}
	for _, g := range goals {
		for _, x := range patterns {
			if x.v == pattern.BestPatternForGoal(int(g.v)) {
				best[g.n] = x.n
			}
		}
	}
	e := t.Add("app", "best", best, "runs", p.runs(), "exited", p.exited(0))
	e["cfg"] = []string{sc.n, "batch", best["batch"].(string)}
	if !p.drawn() {
		return
	}
	t.Add("appshown", "shown", p.shown())
	runs := p.runs()
	press := func(k int, change bool) bool {
		o := len(p.out())
		if k == -1000 {
			_, _ = p.pty.Write([]byte{27})
		} else {
			_, _ = p.pty.Write([]byte{byte(k)})
		}
		if change {
			for range 3 {
				if p.until(8*time.Second, func() bool { return p.runs() > runs && p.drawn() }) {
					break
				}
				_, _ = p.pty.Write([]byte{byte(k)})
			}
		}
		p.exited(250 * time.Millisecond)
		s := ""
		if out := p.out(); len(out) > o {
			for _, m := range said.FindAllStringSubmatch(out[o:], -1) {
				s = nameOf(m[1])
			}
		}
		runs = p.runs()
		t.Add("appkey", "key", k, "runs", runs, "said", s, "exited", p.exited(0), "code", 0)
		return !p.exited(0)
	}
	cur := map[int]bool{int(sc.key): true, 'b': true}
	keys := []int{}
	for _, s := range scales[:3] {
		keys = append(keys, int(s.key))
	}
	for _, g := range goals {
		keys = append(keys, int(g.key))
	}
	for _, x := range patterns {
		keys = append(keys, int(x.key))
	}
	_ = cur
	n := rng.Intn(7)
	if i == 0 {
		n = 0
	}
	for range n {
		var k int
		if rng.Intn(3) == 0 {
			k = []int{'p', ' ', 'r', 'd', 'g', '0', 'w', '7'}[rng.Intn(8)]
		} else {
			k = keys[rng.Intn(len(keys))]
		}
		// whether it changes anything is for the specification to say; the wait is for what is shown
		sh := p.shown()
		change := true
		for _, x := range sh {
			if keyOf(x) == k {
				change = false
			}
		}
		if keyName(k) == "" {
			change = false
		}
		if rng.Intn(4) == 0 && k >= 'a' && k <= 'z' {
			k -= 32
		}
		if !press(k, change) {
			return
		}
		_ = p.until(10*time.Second, p.drawn)
		t.Add("appshown", "shown", p.shown())
	}
	if vh.Thorough() && rng.Intn(4) == 0 {
		if !press('4'+rng.Intn(2), true) {
			return
		}
		_ = p.until(30*time.Second, p.drawn)
		t.Add("appshown", "shown", p.shown())
	}
	// the end
	if rng.Intn(2) == 0 || i == 0 {
		sig := []os.Signal{syscall.SIGINT, syscall.SIGTERM}[rng.Intn(2)]
		_ = p.cmd.Process.Signal(sig)
		t.Add("signal", "exited", p.exited(20*time.Second))
		return
	}
	k := []int{'q', 'Q', -1000}[rng.Intn(3)]
	for range 3 {
		b := byte(27)
		if k > 0 {
			b = byte(k)
		}
		_, _ = p.pty.Write([]byte{b})
		if p.exited(8 * time.Second) {
			break
		}
	}
	ex := p.exited(0)
	code := 0
	if ex {
		code = p.code
	}
	t.Add("appkey", "key", k, "runs", p.runs(), "said", "", "exited", ex, "code", code)
}

func keyOf(n string) int {
	for _, x := range scales {
		if x.n == n {
			return int(x.key)
		}
	}
	for _, x := range goals {
		if x.n == n {
			return int(x.key)
		}
	}
	for _, x := range patterns {
		if x.n == n {
			return int(x.key)
		}
	}
	return 0
}

func keyName(k int) string {
	for _, x := range scales {
		if int(x.key) == k {
			return x.n
		}
	}
	for _, x := range goals {
		if int(x.key) == k {
			return x.n
		}
	}
	for _, x := range patterns {
		if int(x.key) == k {
			return x.n
		}
	}
	return ""
}
