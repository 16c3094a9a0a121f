// Package dispx draws snapshots on the displays and reads what the screen shows.
package dispx

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"syscall"
	"unicode/utf8"
	"unsafe"

	"github.com/mattn/go-runewidth"
)

// Columns and rows of the terminal the displays are drawn on.
const cols, rows = 420, 96

func openPty() (*os.File, *os.File, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n, zero uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); e != 0 {
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		return nil, nil, e
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	ws := [4]uint16{rows, cols, 0, 0}
	syscall.Syscall(syscall.SYS_IOCTL, s.Fd(), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws)))
	return m, s, nil
}

type cellT struct {
	r    rune
	bold bool
	bg   int
	fg   int
}

// screen interprets the control sequences tcell writes for xterm-256color.
type screen struct {
	c    [rows][cols]cellT
	x, y int
	cur  cellT
	rest []byte
	mark func(s string)
}

func newScreen(mark func(string)) *screen {
	s := &screen{mark: mark}
	s.clear()
	return s
}

func (s *screen) clear() {
	for y := range s.c {
		for x := range s.c[y] {
			s.c[y][x] = cellT{r: ' ', bg: -1, fg: -1}
		}
	}
}

func (s *screen) put(r rune) {
	if s.y < 0 || s.y >= rows || s.x < 0 || s.x >= cols {
		return
	}
	w := runewidth.RuneWidth(r)
	if w == 0 {
		return
	}
	s.cur.r = r
	s.c[s.y][s.x] = s.cur
	if w == 2 && s.x+1 < cols {
		s.c[s.y][s.x+1] = cellT{r: 0, bg: s.cur.bg}
	}
	s.x += w
}

// write feeds output; what is not yet complete is kept.
func (s *screen) write(b []byte) {
	b = append(s.rest, b...)
	for len(b) > 0 {
		n := s.one(b)
		if n == 0 {
			break
		}
		b = b[n:]
	}
	s.rest = append([]byte{}, b...)
}

func (s *screen) one(b []byte) int {
	switch c := b[0]; {
	case c == 27:
		return s.esc(b)
	case c == '\r':
		s.x = 0
		return 1
	case c == '\n':
		s.y++
		return 1
	case c == 8:
		s.x--
		return 1
	case c < 32:
		return 1
	}
	if !utf8.FullRune(b) {
		return 0
	}
	r, n := utf8.DecodeRune(b)
	s.put(r)
	return n
}

func (s *screen) esc(b []byte) int {
	if len(b) < 2 {
		return 0
	}
	switch b[1] {
	case '[':
		for i := 2; i < len(b); i++ {
			if b[i] >= 0x40 && b[i] <= 0x7e {
				s.csi(string(b[2:i]), b[i])
				return i + 1
			}
		}
		return 0
	case ']':
		for i := 2; i < len(b); i++ {
			if b[i] == 7 {
				if m, ok := strings.CutPrefix(string(b[2:i]), "777;"); ok {
					s.mark(m)
				}
				return i + 1
			}
			if b[i] == 27 && i+1 < len(b) {
				return i + 2
			}
		}
		return 0
	case '(', ')', '#', '%':
		if len(b) < 3 {
			return 0
		}
		return 3
	}
	return 2
}

func (s *screen) csi(p string, f byte) {
	if strings.ContainsAny(p, "?<>=") {
		return
	}
	var a []int
	for _, x := range strings.Split(p, ";") {
		n, _ := strconv.Atoi(x)
		a = append(a, n)
	}
	at := func(i, d int) int {
		if i < len(a) && a[i] > 0 {
			return a[i]
		}
		return d
	}
	switch f {
	case 'H':
		s.y, s.x = at(0, 1)-1, at(1, 1)-1
	case 'A':
		s.y -= at(0, 1)
	case 'B':
		s.y += at(0, 1)
	case 'C':
		s.x += at(0, 1)
	case 'D':
		s.x -= at(0, 1)
	case 'G':
		s.x = at(0, 1) - 1
	case 'd':
		s.y = at(0, 1) - 1
	case 'J':
		if at(0, 0) == 2 {
			s.clear()
			return
		}
		s.blank(s.x, cols)
		for y := s.y + 1; y < rows; y++ {
			for x := range cols {
				s.c[y][x] = cellT{r: ' ', bg: -1, fg: -1}
			}
		}
	case 'K':
		s.blank(s.x, cols)
	case 'X':
		s.blank(s.x, s.x+at(0, 1))
	case 'm':
		for i := 0; i < len(a); i++ {
			switch n := a[i]; {
			case n == 0:
				s.cur = cellT{bg: -1, fg: -1}
			case n == 1:
				s.cur.bold = true
			case n == 22:
				s.cur.bold = false
			case n == 38 && i+2 < len(a):
				s.cur.fg = a[i+2]
				i += 2
			case n >= 30 && n <= 37:
				s.cur.fg = n - 30
			case n >= 90 && n <= 97:
				s.cur.fg = n - 82
			case n == 39:
				s.cur.fg = -1
			case n == 48 && i+2 < len(a):
				s.cur.bg = a[i+2]
				i += 2
			case n >= 40 && n <= 47:
				s.cur.bg = n - 40
			case n >= 100 && n <= 107:
				s.cur.bg = n - 92
			case n == 49:
				s.cur.bg = -1
			}
		}
	}
}

func (s *screen) blank(from, to int) {
	if s.y < 0 || s.y >= rows {
		return
	}
	for x := max(from, 0); x < min(to, cols); x++ {
		s.c[s.y][x] = cellT{r: ' ', bg: s.cur.bg}
	}
}

// panel is the inside of the bordered box of the given title.
func (s *screen) panel(title string) [][]cellT {
	for y := range rows {
		line := make([]rune, cols)
		for x := range cols {
			line[x] = s.c[y][x].r
		}
		i := strings.Index(string(line), " "+title+" ")
		if i < 0 {
			continue
		}
		x0 := utf8.RuneCountInString(string(line)[:i])
		l, r := x0, x0
		for l > 0 && !strings.ContainsRune("┌╭", line[l]) {
			l--
		}
		for r < cols-1 && !strings.ContainsRune("┐╮", line[r]) {
			r++
		}
		var out [][]cellT
		for yy := y + 1; yy < rows && !strings.ContainsRune("└╰", s.c[yy][l].r); yy++ {
			out = append(out, append([]cellT{}, s.c[yy][l+1:r]...))
		}
		return out
	}
	return nil
}

func text(p [][]cellT) []string {
	var out []string
	for _, l := range p {
		var b strings.Builder
		for _, c := range l {
			if c.r != 0 {
				b.WriteRune(c.r)
			}
		}
		out = append(out, strings.TrimRight(b.String(), " "))
	}
	return out
}
