package main

// Stateless explorer: a harness body is executed once for every choice sequence inside its
// bound, against the real package, and every execution is compared with a reference model.

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type violation struct{ msg string }

type divergence struct{ msg string }

// Ctx is one execution of a harness body.
type Ctx struct {
	prefix   []int
	trace    []int
	limits   []int
	ops      int64 // calls made on the code under test
	states   map[uint64]struct{}
	verbose  bool
	log      []string
	slot     *slot
	Thorough bool
	dev      int  // deviations still allowed for ChooseDev
	loose    bool // the number of choices may depend on timing or on what ran before
}

// Choose returns one of 0..n-1; the explorer visits all of them.
func (c *Ctx) Choose(n int) int {
	if n <= 0 {
		panic(divergence{fmt.Sprintf("Choose(%d)", n)})
	}
	i := len(c.trace)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n && c.loose {
			v = n - 1
		}
		if v >= n {
			panic(divergence{fmt.Sprintf("choice %d at %d out of range %d: the driver is not deterministic", v, i, n)})
		}
	}
	c.trace = append(c.trace, v)
	c.limits = append(c.limits, n)
	if c.slot != nil {
		c.slot.put(i, v)
	}
	return v
}

// ChooseDev is Choose with a deviation budget: once it is used up only 0 is possible.
func (c *Ctx) ChooseDev(n int) int {
	if c.dev <= 0 || n <= 1 {
		return 0
	}
	v := c.Choose(n)
	if v != 0 {
		c.dev--
	}
	return v
}

func (c *Ctx) Bool() bool { return c.Choose(2) == 1 }

func (c *Ctx) Failf(format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...)})
}

func (c *Ctx) Logf(format string, a ...interface{}) {
	if c.verbose {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + fmt.Sprintf("...(%d bytes)", len(s))
		}
		c.log = append(c.log, s)
	}
}

// Op counts one operation performed on the code under test.
func (c *Ctx) Op(n int) { c.ops += int64(n) }

// State records a canonical state (an input, or an observed document) reached by this execution.
func (c *Ctx) State(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0xff})
	}
	c.states[h.Sum64()] = struct{}{}
}

type Harness struct {
	Name     string
	Bound    string // what is enumerated, in words
	Thorough bool   // only in the thorough tier
	Serial   bool   // run on one worker (controls its own goroutines)
	Race     bool   // runs in the race-detector build only
	Loose    bool   // schedules: the number of choices may vary between runs of the same prefix
	Body     func(c *Ctx)
}

type found struct {
	harness int
	choices []int
	msg     string
	kind    string // violation, panic, crash, hang, memory
}

type harnessStats struct {
	Name       string  `json:"name"`
	Bound      string  `json:"bound"`
	Executions int64   `json:"executions"`
	Operations int64   `json:"operations"`
	States     int     `json:"states"`
	Choices    int64   `json:"choice_points"`
	Complete   bool    `json:"complete"`
	Seconds    float64 `json:"seconds"`
}

// runOne executes the body once; it returns a finding or nil.
func runOne(h *Harness, idx int, c *Ctx) (f *found) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case violation:
				f = &found{idx, append([]int{}, c.trace...), x.msg, "violation"}
			case divergence:
				panic(r)
			default:
				f = &found{idx, append([]int{}, c.trace...), fmt.Sprintf("panic: %v\n%s", r, stackTop()), "panic"}
			}
		}
	}()
	c.loose = h.Loose
	h.Body(c)
	return nil
}

func stackTop() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "holistic_json") && strings.Contains(l, ".go:") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) == 4 {
			break
		}
	}
	return strings.Join(out, "\n")
}

type explorer struct {
	harnesses []Harness
	thorough  bool
	deadline  time.Time
	workers   int
	slots     []*slot
	stop      int32
	mu        sync.Mutex
	hit       *found
	shard     int // this process runs the jobs with index = shard modulo shards
	shards    int
	dump      func(harness int, states map[uint64]struct{})
}

func (e *explorer) report(f *found) {
	e.mu.Lock()
	if e.hit == nil {
		e.hit = f
	}
	e.mu.Unlock()
	atomic.StoreInt32(&e.stop, 1)
}

// runHarness explores the whole bounded choice tree of one harness.
func (e *explorer) runHarness(idx int) harnessStats {
	h := &e.harnesses[idx]
	start := time.Now()
	st := harnessStats{Name: h.Name, Bound: h.Bound}
	nw := e.workers
	spread := nw
	if h.Serial {
		nw = 1
	}

	// split the tree into jobs
	probe := func(prefix []int) *Ctx {
		c := &Ctx{prefix: prefix, states: map[uint64]struct{}{}, Thorough: e.thorough, slot: e.slots[0]}
		c.slot.begin(idx)
		f := runOne(h, idx, c)
		c.slot.end()
		if f != nil {
			e.report(f)
		}
		return c
	}
	jobs := [][]int{{}}
	for level := 0; level < 6 && len(jobs) < 16*spread && (nw > 1 || e.shards > 1) && atomic.LoadInt32(&e.stop) == 0; level++ {
		var next [][]int
		grown := false
		for _, p := range jobs {
			if len(p) < level { // complete already
				next = append(next, p)
				continue
			}
			c := probe(p)
			if len(c.trace) <= len(p) {
				next = append(next, p)
				continue
			}
			grown = true
			for i := 0; i < c.limits[len(p)]; i++ {
				next = append(next, append(append([]int{}, p...), i))
			}
		}
		jobs = next
		if !grown {
			break
		}
	}

	if e.shards > 1 {
		var mine [][]int
		for i, j := range jobs {
			if i%e.shards == e.shard {
				mine = append(mine, j)
			}
		}
		jobs = mine
	}

	var pos int64 = -1
	var wg sync.WaitGroup
	var smu sync.Mutex
	all := map[uint64]struct{}{}
	incomplete := int32(0)
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			states := map[uint64]struct{}{}
			var execs, ops, choices int64
			for {
				j := int(atomic.AddInt64(&pos, 1))
				if j >= len(jobs) {
					break
				}
				if atomic.LoadInt32(&e.stop) != 0 {
					atomic.StoreInt32(&incomplete, 1)
					break
				}
				root := len(jobs[j])
				prefix := append([]int{}, jobs[j]...)
				for {
					if atomic.LoadInt32(&e.stop) != 0 || time.Now().After(e.deadline) {
						atomic.StoreInt32(&incomplete, 1)
						break
					}
					c := &Ctx{prefix: prefix, states: states, Thorough: e.thorough, slot: e.slots[w]}
					c.slot.begin(idx)
					f := runOne(h, idx, c)
					c.slot.end()
					execs++
					ops += c.ops
					choices += int64(len(c.trace))
					if f != nil {
						e.report(f)
						break
					}
					if len(c.trace) < len(prefix) && !h.Loose {
						panic(divergence{fmt.Sprintf("%s: execution shorter than its prefix %v", h.Name, prefix)})
					}
					i := len(c.trace) - 1
					for i >= root && c.trace[i]+1 >= c.limits[i] {
						i--
					}
					if i < root {
						break
					}
					prefix = append(append([]int{}, c.trace[:i]...), c.trace[i]+1)
				}
			}
			smu.Lock()
			for k := range states {
				all[k] = struct{}{}
			}
			st.Executions += execs
			st.Operations += ops
			st.Choices += choices
			smu.Unlock()
		}(w)
	}
	wg.Wait()
	st.States = len(all)
	if e.dump != nil {
		e.dump(idx, all)
	}
	st.Complete = incomplete == 0
	st.Seconds = time.Since(start).Seconds()
	return st
}

// replayOne runs one execution verbosely.
func replayOne(h *Harness, idx int, choices []int, thorough bool, s *slot) (*Ctx, *found) {
	c := &Ctx{prefix: choices, states: map[uint64]struct{}{}, Thorough: thorough, verbose: true, slot: s}
	if s != nil {
		s.begin(idx)
	}
	f := runOne(h, idx, c)
	if s != nil {
		s.end()
	}
	return c, f
}

// ---- slots: what every worker is executing, in a file shared with the supervisor ----

const slotSize = 1 << 16
const maxSlots = 16

type slot struct{ b []byte }

func (s *slot) begin(h int) {
	binary.LittleEndian.PutUint32(s.b[4:], uint32(h))
	binary.LittleEndian.PutUint32(s.b[16:], 0)
	binary.LittleEndian.PutUint64(s.b[8:], uint64(time.Now().UnixNano()))
	binary.LittleEndian.PutUint32(s.b[0:], 1)
}
func (s *slot) end() { binary.LittleEndian.PutUint32(s.b[0:], 0) }
func (s *slot) put(i, v int) {
	o := 20 + 4*i
	if o+4 > slotSize {
		return
	}
	binary.LittleEndian.PutUint32(s.b[o:], uint32(v))
	binary.LittleEndian.PutUint32(s.b[16:], uint32(i+1))
}
func (s *slot) busy() bool       { return binary.LittleEndian.Uint32(s.b[0:]) == 1 }
func (s *slot) harness() int     { return int(binary.LittleEndian.Uint32(s.b[4:])) }
func (s *slot) since() time.Time { return time.Unix(0, int64(binary.LittleEndian.Uint64(s.b[8:]))) }
func (s *slot) choices() []int {
	n := int(binary.LittleEndian.Uint32(s.b[16:]))
	var out []int
	for i := 0; i < n && 24+4*i <= slotSize; i++ {
		out = append(out, int(binary.LittleEndian.Uint32(s.b[20+4*i:])))
	}
	return out
}

// watchdog ends the process when an execution hangs or the heap runs away.
func watchdog(slots []*slot, hang time.Duration, heap uint64) {
	for {
		time.Sleep(100 * time.Millisecond)
		for _, s := range slots {
			if s.busy() && time.Since(s.since()) > hang {
				exitProcess(exitHang)
			}
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > heap {
			exitProcess(exitMemory)
		}
	}
}
