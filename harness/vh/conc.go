package vh

import (
	"encoding/json"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// Call is one operation of a thread; Do performs it and returns its record.
type Call func() Ev

// Round runs the threads concurrently from a common start and returns their
// records. With stamps, calls and returns carry a global order.
func Round(threads [][]Call, stamps bool) [][]Ev {
	var clock atomic.Int64
	var ready atomic.Int32
	var goFlag atomic.Bool
	out := make([][]Ev, len(threads))
	var wg sync.WaitGroup
	var failed atomic.Value
	for i := range threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					failed.Store(fmt.Sprint(p))
				}
			}()
			evs := make([]Ev, 0, len(threads[i]))
			ready.Add(1)
			for n := 0; !goFlag.Load(); n++ {
				relax(n)
			}
			for _, c := range threads[i] {
				var a, b int64
				if stamps {
					a = clock.Add(1)
				}
				e := c()
				if stamps {
					b = clock.Add(1)
				}
				e["c"], e["r"] = a, b
				evs = append(evs, e)
			}
			out[i] = evs
		}()
	}
	for n := 0; int(ready.Load()) < len(threads); n++ {
		relax(n)
	}
	goFlag.Store(true)
	wg.Wait()
	if p := failed.Load(); p != nil {
		panic(p)
	}
	return out
}

// relax lets others run when a wait takes long, as it does on a busy machine.
func relax(n int) {
	switch {
	case n > 50000:
		time.Sleep(10 * time.Microsecond)
	case n > 2000:
		runtime.Gosched()
	}
}

// Dedup remembers what was already recorded.
type Dedup map[string]int

// New tells whether the value was not seen before.
func (d Dedup) New(v any) bool {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	d[string(b)]++
	return d[string(b)] == 1
}

// Until is when to stop repeating a scenario on a machine too busy for all the
// repetitions.
func Until(reps int) time.Time { return time.Now().Add(time.Duration(reps) * 4 * time.Millisecond) }
