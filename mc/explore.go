// Package main is a stateless model checker for github.com/qmuntal/gltf.
//
// A harness is a closed, deterministic program over the real library that asks
// its explorer for every decision (operation, argument, environment answer).
// The explorer enumerates every sequence of answers: "All" decisions form a
// free product, "Dev" decisions cost one deviation when they leave the default
// answer 0 and are enumerated up to the deviation bound.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type point struct {
	n, c  uint16
	dev   bool
	label string
}

// cpoint is the compact form kept in the frontier.
type cpoint struct {
	n, c uint16 // high bit of n: deviation point
}

const devBit = 0x8000

// X is one execution.
type X struct {
	prefix   []uint16
	pts      []point
	cost     int
	lenient  bool
	Thorough bool
	tracing  bool
	trace    []string
	h        *hrun
	worker   int
	diverged bool
	extraT   int64
}

type violation struct {
	key, msg string
}

type divergence struct{ msg string }

func (x *X) choose(label string, n int, dev bool) int {
	if n <= 0 || n >= devBit {
		panic(divergence{fmt.Sprintf("bad arity %d at %s", n, label)})
	}
	i := len(x.pts)
	c := 0
	if i < len(x.prefix) {
		c = int(x.prefix[i])
		if c >= n {
			if x.lenient {
				c = 0
			} else {
				panic(divergence{fmt.Sprintf("replay divergence at point %d (%s): choice %d of %d", i, label, c, n)})
			}
		}
	}
	if dev && c != 0 {
		x.cost++
	}
	x.pts = append(x.pts, point{uint16(n), uint16(c), dev, label})
	return c
}

// All is a freely enumerated decision.
func (x *X) All(label string, n int) int { return x.choose(label, n, false) }

// Dev is a decision whose non-zero answers cost one deviation.
func (x *X) Dev(label string, n int) int { return x.choose(label, n, true) }

// State records a canonical state reached by this execution.
func (x *X) State(s string) { x.h.addState(hashStr(s)) }

// StateB is State for bytes.
func (x *X) StateB(b []byte) { x.h.addState(hashBytes(b)) }

// Step counts additional transitions taken inside one execution.
func (x *X) Step(n int) { x.extraT += int64(n) }

// Outcome records a distinct observed outcome.
func (x *X) Outcome(s string) { x.h.addOutcome(hashStr(s)) }

// Log adds a line to the trace when this execution is being traced.
func (x *X) Log(f string, a ...any) {
	if x.tracing {
		x.trace = append(x.trace, fmt.Sprintf(f, a...))
	}
}

// Fail reports a violation of the property.
func (x *X) Fail(key, f string, a ...any) {
	panic(violation{key, fmt.Sprintf(f, a...)})
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h ^ h>>29
}

func hashBytes(s []byte) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h ^ h>>29
}

// Harness is one closed driver.
type Harness struct {
	Name         string
	Run          func(x *X)
	Bound        int // deviation bound, quick
	BoundDeep    int // deviation bound, thorough
	Serial       bool
	ThoroughOnly bool
}

// Property groups the harnesses that decide one property.
type Property struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Harnesses   []Harness
	Parallel    bool // harnesses are spread over processes
}

type node struct {
	pts   []cpoint
	start int
	cost  int
}

type gen struct {
	n   *node
	i   int
	alt int
	dev bool
}

func (g *gen) next() []uint16 {
	for g.i >= g.n.start {
		p := g.n.pts[g.i]
		isDev := p.n&devBit != 0
		if isDev != g.dev || g.alt >= int(p.n&^devBit) {
			g.i--
			g.alt = 1
			continue
		}
		pre := make([]uint16, g.i+1)
		for j := 0; j < g.i; j++ {
			pre[j] = g.n.pts[j].c
		}
		pre[g.i] = uint16(g.alt)
		g.alt++
		return pre
	}
	return nil
}

type shard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

type hrun struct {
	prop     *Property
	h        *Harness
	bound    int
	thorough bool
	deadline time.Time
	known    map[string]bool

	mu      sync.Mutex
	cond    *sync.Cond
	buckets [][]*gen
	initial bool
	active  []int // running executions per cost
	stopped bool
	timeout bool

	execs, transitions, maxDepth atomic.Int64
	devPts                       atomic.Int64
	shards                       [64]shard
	nstates                      atomic.Int64
	stateCap                     atomic.Bool
	outMu                        sync.Mutex
	outcomes                     map[uint64]int
	samples                      [][]string
	viol                         *Violation
	unconfirmed                  []string
	suspects                     []*Violation
	knownHit                     map[string]string
	divergences                  atomic.Int64
	boundDone                    int
}

// Violation is a confirmed counterexample.
type Violation struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Thorough bool     `json:"thorough"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Choices  []uint16 `json:"choices"`
	Labels   []string `json:"labels"`
	Trace    []string `json:"trace"`
	Repeats  string   `json:"repeats"`
}

const maxStates = 6_000_000

func (h *hrun) addState(v uint64) {
	s := &h.shards[v>>58]
	s.mu.Lock()
	if s.m == nil {
		s.m = make(map[uint64]struct{})
	}
	if _, ok := s.m[v]; !ok {
		if h.nstates.Load() < maxStates {
			s.m[v] = struct{}{}
			h.nstates.Add(1)
		} else {
			h.stateCap.Store(true)
		}
	}
	s.mu.Unlock()
}

func (h *hrun) addOutcome(v uint64) {
	h.outMu.Lock()
	if len(h.outcomes) < 1_000_000 {
		h.outcomes[v]++
	}
	h.outMu.Unlock()
}

// pop returns the next prefix to run, or ok=false at the end.
func (h *hrun) pop() (prefix []uint16, cost int, ok bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.stopped {
			return nil, 0, false
		}
		if time.Now().After(h.deadline) {
			if !h.done() {
				h.timeout = true
			}
			h.stopped = true
			h.cond.Broadcast()
			return nil, 0, false
		}
		if h.initial {
			h.initial = false
			h.active[0]++
			return nil, 0, true
		}
		for k := range h.buckets {
			b := k
			// drain an over-full higher bucket first to bound memory
			for j := len(h.buckets) - 1; j > k; j-- {
				if len(h.buckets[j]) > 100_000 {
					b = j
					break
				}
			}
			if pre := h.take(b); pre != nil {
				h.active[b]++
				return pre, b, true
			}
		}
		if h.done() {
			h.stopped = true
			h.cond.Broadcast()
			return nil, 0, false
		}
		h.cond.Wait()
	}
}

func (h *hrun) done() bool {
	if h.initial {
		return false
	}
	for k := range h.buckets {
		if len(h.buckets[k]) > 0 || h.active[k] > 0 {
			return false
		}
	}
	return true
}

func (h *hrun) take(b int) []uint16 {
	for len(h.buckets[b]) > 0 {
		g := h.buckets[b][len(h.buckets[b])-1]
		if pre := g.next(); pre != nil {
			return pre
		}
		h.buckets[b][len(h.buckets[b])-1] = nil
		h.buckets[b] = h.buckets[b][:len(h.buckets[b])-1]
	}
	return nil
}

func (h *hrun) push(x *X, cost int) {
	start := len(x.prefix)
	hasAll, hasDev := false, false
	for _, p := range x.pts[min(start, len(x.pts)):] {
		if p.n > 1 {
			if p.dev {
				hasDev = true
			} else {
				hasAll = true
			}
		}
	}
	h.mu.Lock()
	h.active[cost]--
	hasDev = hasDev && cost < h.bound
	if hasAll || hasDev {
		nd := &node{pts: make([]cpoint, len(x.pts)), start: start, cost: cost}
		for i, p := range x.pts {
			nd.pts[i] = cpoint{p.n, p.c}
			if p.dev {
				nd.pts[i].n |= devBit
			}
		}
		if hasAll {
			h.buckets[cost] = append(h.buckets[cost], &gen{n: nd, i: len(nd.pts) - 1, alt: 1})
		}
		if hasDev {
			h.buckets[cost+1] = append(h.buckets[cost+1], &gen{n: nd, i: len(nd.pts) - 1, alt: 1, dev: true})
		}
	}
	h.cond.Broadcast()
	h.mu.Unlock()
}

// execute runs one choice sequence.
func (h *hrun) execute(prefix []uint16, worker int, lenient, tracing bool) (x *X, v *violation, div *divergence) {
	x = &X{prefix: prefix, h: h, worker: worker, lenient: lenient, tracing: tracing, Thorough: h.thorough}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case violation:
				v = &r
			case divergence:
				div = &r
			default:
				v = &violation{"panic", fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))}
			}
		}
	}()
	shmEnter(worker, h, prefix)
	h.h.Run(x)
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	out := []string{}
	for i, l := range lines {
		if strings.Contains(l, "panic(") {
			out = lines[i:]
		}
	}
	if len(out) == 0 {
		out = lines
	}
	if len(out) > 24 {
		out = out[:24]
	}
	return strings.Join(out, "\n")
}

func (h *hrun) worker(w int) {
	debug.SetPanicOnFault(true)
	for {
		prefix, cost, ok := h.pop()
		if !ok {
			return
		}
		n := h.execs.Add(1)
		trace := n == 1 || n == 7 || n == 100 || n == 2000 || n == 30000
		x, v, div := h.execute(prefix, w, false, trace)
		shmLeave(w)
		h.transitions.Add(int64(len(x.pts)-len(prefix)) + 1 + x.extraT)
		if d := int64(len(x.pts)); d > h.maxDepth.Load() {
			h.maxDepth.Store(d)
		}
		if trace && len(h.samples) < 6 {
			h.mu.Lock()
			h.samples = append(h.samples, x.describe())
			h.mu.Unlock()
		}
		if div != nil {
			h.divergences.Add(1)
			h.mu.Lock()
			h.active[cost]--
			if len(h.unconfirmed) < 5 {
				h.unconfirmed = append(h.unconfirmed, div.msg)
			}
			h.cond.Broadcast()
			h.mu.Unlock()
			continue
		}
		if v != nil {
			if h.known[v.key] {
				h.mu.Lock()
				if _, ok := h.knownHit[v.key]; !ok {
					h.knownHit[v.key] = v.msg
				}
				h.mu.Unlock()
			} else {
				h.confirm(x, v)
			}
		}
		h.push(x, cost)
	}
}

func (x *X) describe() []string {
	out := []string{}
	for _, p := range x.pts {
		if p.c != 0 || !p.dev {
			out = append(out, fmt.Sprintf("%s=%d/%d", p.label, p.c, p.n))
		}
		if len(out) > 40 {
			out = append(out, "...")
			break
		}
	}
	for i, t := range x.trace {
		if i > 20 {
			break
		}
		if len(t) > 300 {
			t = t[:300] + "..."
		}
		out = append(out, t)
	}
	return out
}

func (x *X) choices() []uint16 {
	c := make([]uint16, len(x.pts))
	for i, p := range x.pts {
		c[i] = p.c
	}
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}

var confirmMu sync.Mutex

// confirm re-runs and minimises a failure; only a reproducible one counts.
func (h *hrun) confirm(x *X, v *violation) {
	confirmMu.Lock()
	defer confirmMu.Unlock()
	h.mu.Lock()
	if h.viol != nil {
		h.mu.Unlock()
		return
	}
	h.mu.Unlock()
	best := x.choices()
	hits, tries := 0, 0
	for tries < 50 {
		tries++
		_, v2, _ := h.execute(best, x.worker, true, false)
		if v2 != nil && v2.key == v.key {
			hits++
		}
		if tries == 5 && hits == 5 {
			break
		}
		if tries >= 5 && hits >= 2 {
			break
		}
	}
	if hits == 0 {
		h.mu.Lock()
		if len(h.unconfirmed) < 5 {
			h.unconfirmed = append(h.unconfirmed, v.key+": "+firstLine(v.msg))
			h.suspects = append(h.suspects, &Violation{Property: h.prop.ID, Harness: h.h.Name, Thorough: h.thorough, Key: v.key, Message: v.msg, Choices: best})
		}
		h.divergences.Add(1)
		h.mu.Unlock()
		return
	}
	t0 := time.Now()
	rep := 1
	if hits < tries {
		rep = 10
	}
	for changed := true; changed && time.Since(t0) < 8*time.Second; {
		changed = false
		for i := len(best) - 1; i >= 0 && time.Since(t0) < 8*time.Second; i-- {
			if i >= len(best) || best[i] == 0 {
				continue
			}
			for _, alt := range []uint16{0, best[i] / 2, best[i] - 1} {
				if alt >= best[i] {
					continue
				}
				c := append([]uint16{}, best...)
				c[i] = alt
				ok := false
				var x2 *X
				for r := 0; r < rep && !ok; r++ {
					var v2 *violation
					x2, v2, _ = h.execute(c, x.worker, true, false)
					ok = v2 != nil && v2.key == v.key
				}
				if ok {
					best = x2.choices()
					changed = true
					break
				}
			}
		}
	}
	var fx *X
	var fv *violation
	for r := 0; r < 50; r++ {
		fx, fv, _ = h.execute(best, x.worker, true, true)
		if fv != nil {
			break
		}
	}
	if fv == nil {
		fx, fv = x, v
	}
	shmLeave(x.worker)
	vi := &Violation{Property: h.prop.ID, Harness: h.h.Name, Thorough: h.thorough, Key: fv.key, Message: fv.msg,
		Choices: fx.choices(), Trace: fx.trace, Repeats: fmt.Sprintf("%d of %d re-runs failed", hits, tries)}
	for _, p := range fx.pts {
		if p.c != 0 || !p.dev {
			vi.Labels = append(vi.Labels, fmt.Sprintf("%s=%d/%d", p.label, p.c, p.n))
		}
	}
	h.mu.Lock()
	h.viol = vi
	h.stopped = true
	h.cond.Broadcast()
	h.mu.Unlock()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// HResult is what one harness run measured.
type HResult struct {
	Harness     string            `json:"harness"`
	Executions  int64             `json:"executions"`
	States      int64             `json:"states"`
	Transitions int64             `json:"transitions"`
	Outcomes    int               `json:"distinct_outcomes"`
	MaxDepth    int64             `json:"max_depth"`
	Bound       int               `json:"deviation_bound"`
	BoundDone   int               `json:"deviation_bound_completed"`
	Exhaustive  bool              `json:"exhaustive"`
	StateCapped bool              `json:"state_count_capped,omitempty"`
	Seconds     float64           `json:"seconds"`
	Samples     [][]string        `json:"samples"`
	Viol        *Violation        `json:"violation,omitempty"`
	Unconfirmed []string          `json:"unconfirmed,omitempty"`
	Suspects    []*Violation      `json:"suspects,omitempty"`
	Known       map[string]string `json:"known,omitempty"`
}

func newRun(p *Property, h *Harness, thorough bool, deadline time.Time, known map[string]bool) *hrun {
	r := &hrun{prop: p, h: h, thorough: thorough, deadline: deadline, known: known, initial: true,
		outcomes: map[uint64]int{}, knownHit: map[string]string{}}
	r.bound = h.Bound
	if thorough && h.BoundDeep > r.bound {
		r.bound = h.BoundDeep
	}
	r.cond = sync.NewCond(&r.mu)
	r.buckets = make([][]*gen, r.bound+1)
	r.active = make([]int, r.bound+1)
	return r
}

func runHarness(p *Property, h *Harness, thorough bool, deadline time.Time, known map[string]bool) *HResult {
	t0 := time.Now()
	r := newRun(p, h, thorough, deadline, known)
	nw := runtime.GOMAXPROCS(0)
	if nw > maxWorkers {
		nw = maxWorkers
	}
	if h.Serial {
		nw = 1
	}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) { defer wg.Done(); r.worker(w) }(w)
	}
	wg.Wait()
	done := r.bound
	for k := range r.buckets {
		if len(r.buckets[k]) > 0 || r.active[k] > 0 {
			done = k - 1
			break
		}
	}
	if r.timeout && done == r.bound {
		done--
	}
	return &HResult{Harness: h.Name, Executions: r.execs.Load(), States: r.nstates.Load(), Transitions: r.transitions.Load(),
		Outcomes: len(r.outcomes), MaxDepth: r.maxDepth.Load(), Bound: r.bound, BoundDone: done,
		Exhaustive: !r.timeout && r.viol == nil && r.divergences.Load() == 0, StateCapped: r.stateCap.Load(),
		Seconds: time.Since(t0).Seconds(), Samples: r.samples, Viol: r.viol, Unconfirmed: r.unconfirmed, Suspects: r.suspects, Known: r.knownHit}
}

func mustJSON(v any) []byte {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	return b
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}
