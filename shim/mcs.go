// Package mcs is the runtime of the schedule explorer. A copy of the library
// whose statements call Y and whose synchronisation primitives are the ones of
// mcs/sync and mcs/atomic runs one goroutine at a time, the explorer deciding
// who runs at every scheduling point. Hand-overs are hidden from the race
// detector, so that it sees only the ordering that the program itself creates.
package mcs

import (
	"fmt"
	"runtime/debug"
	"unsafe"
)

// Chooser answers the decisions of one execution.
type Chooser interface {
	// Ahead returns how many of the next decisions are already known to be 0.
	Ahead() int
	// Full reports that no further preemption may be taken.
	Full() bool
	// Point is one decision; dev decisions cost a preemption unless 0.
	Point(label string, n int, dev bool) int
	// At records the state reached.
	At(h uint64)
}

// Waiter is an object a thread may have to wait for.
type Waiter interface{ Ready(op int) bool }

const (
	opStart = iota
	opDense
	opSync
	opPick
	opGo
	opDone
)

type request struct {
	kind int
	site uint32
	name string
	w    Waiter
	op   int
	n    int
}

type aborted struct{}

// Thread is one goroutine under control.
type Thread struct {
	id       int
	wake     chan struct{}
	fn       func()
	req      request
	budget   int
	skip     bool // pass dense points without recording them
	record   []uint32
	counts   []uint8
	passed   uint64
	done     bool
	abort    bool
	answer   int
	panicked any
	stack    string
	tag      byte
}

// Sched is one controlled execution.
type Sched struct {
	ch      Chooser
	threads []*Thread
	toMain  chan *Thread
	dense   bool
	perSite uint8
	steps   int
}

var (
	cur *Thread
	run *Sched
)

var clock int

// Now is a strictly increasing logical time.
//
//go:norace
func Now() int {
	clock++
	return clock
}

// Controlled reports whether the caller runs under the explorer.
//
//go:norace
func Controlled() bool { return cur != nil }

// Aborting reports that the execution is being torn down.
//
//go:norace
func Aborting() bool { return cur != nil && cur.abort }

// Y is a dense scheduling point: the start of a statement.
//
//go:norace
func Y(site uint32) {
	t := cur
	if t == nil || t.skip {
		return
	}
	s := run
	if !s.dense || t.abort {
		return
	}
	if c := t.counts[site]; c >= s.perSite {
		return
	} else {
		t.counts[site] = c + 1
	}
	if t.budget > 0 {
		t.budget--
		t.record = append(t.record, site)
		return
	}
	handOver(t, request{kind: opDense, site: site})
}

// Op is a synchronisation operation about to happen; it returns when the
// thread is scheduled and w (if any) is ready for op.
//
//go:norace
func Op(name string, w Waiter, op int) {
	t := cur
	if t == nil || t.abort {
		return
	}
	handOver(t, request{kind: opSync, name: name, w: w, op: op})
}

// Callback is a scheduling point in user code called by the library.
//
//go:norace
func Callback(name string) { Op(name, nil, 0) }

// Pick lets the explorer choose one of n possibilities, 0 being the usual one.
//
//go:norace
func Pick(name string, n int) int {
	t := cur
	if t == nil || t.abort || n < 2 {
		return 0
	}
	handOver(t, request{kind: opPick, name: name, n: n})
	return t.answer
}

// Go starts a goroutine under control.
//
//go:norace
func Go(fn func()) {
	t := cur
	if t == nil {
		go fn()
		return
	}
	if t.abort {
		return
	}
	n := newThread(run, fn)
	go n.main()
	handOver(t, request{kind: opGo, name: "go"})
}

//go:norace
func newThread(s *Sched, fn func()) *Thread {
	t := &Thread{id: len(s.threads), wake: make(chan struct{}), fn: fn, counts: make([]uint8, len(Sites)), record: make([]uint32, 0, 4096)}
	t.req = request{kind: opStart, name: "start"}
	s.threads = append(s.threads, t)
	return t
}

//go:norace
func handOver(t *Thread, r request) {
	t.req = r
	s := run
	runtime_RaceDisable()
	s.toMain <- t
	<-t.wake
	runtime_RaceEnable()
	if t.abort {
		panic(aborted{})
	}
}

//go:norace
func (t *Thread) main() {
	runtime_RaceDisable()
	<-t.wake
	runtime_RaceEnable()
	defer t.end()
	if !t.abort {
		t.fn()
	}
}

//go:norace
func (t *Thread) end() {
	if r := recover(); r != nil {
		if _, ok := r.(aborted); !ok && !t.abort {
			t.panicked = r
			t.stack = string(debug.Stack())
		}
	}
	t.done = true
	t.req = request{kind: opDone}
	runtime_RaceReleaseMerge(unsafe.Pointer(&t.tag))
	runtime_RaceDisable()
	run.toMain <- t
	// the goroutine ends here
	runtime_RaceEnable()
}

// Result is what happened in one execution.
type Result struct {
	Deadlock string
	Panic    string
	Steps    int
	Livelock bool
	Threads  int
}

const maxSteps = 200000

// Run executes fns as goroutines under ch. perSite bounds how often each
// statement is a scheduling point per thread; 0 leaves only synchronisation.
func Run(ch Chooser, perSite int, fns []func()) (res Result) {
	s := &Sched{ch: ch, toMain: make(chan *Thread), dense: perSite > 0, perSite: uint8(perSite)}
	setRun(s)
	for _, f := range fns {
		t := newThread(s, f)
		go t.main()
	}
	finished := false
	defer func() {
		if !finished {
			s.teardown()
		}
		setCur(nil)
		setRun(nil)
		for _, t := range s.all() {
			runtime_RaceAcquire(unsafe.Pointer(&t.tag))
		}
	}()
	var last *Thread
	for {
		en := s.enabled(last)
		if len(en) == 0 {
			if d := s.stuck(); d != "" {
				res.Deadlock = d
				return
			}
			finished = true
			res.Threads = len(s.threads)
			return
		}
		pick := 0
		picking := en[0] == last && s.kindOf(last) == opPick // not a scheduling point
		if len(en) > 1 && !picking {
			lead := en[0] == last
			if !lead {
				pick = ch.Point(s.label(en[0]), len(en), false)
			} else if !ch.Full() {
				pick = ch.Point(s.label(en[0]), len(en), true)
			}
			if !ch.Full() {
				ch.At(s.position(en[pick]))
			}
		}
		t := en[pick]
		if k, n, name := s.request(t); k == opPick && n > 1 {
			a := 0
			if !ch.Full() {
				a = ch.Point(name, n, true)
			}
			s.setAnswer(t, a)
		}
		s.resume(t, ch.Full() || len(en) == 1, ch.Ahead())
		// decisions the thread passed on its own
		base := s.others(t)
		for i, site := range s.recorded(t) {
			ch.At((base ^ uint64(i+1)) * 1099511628211)
			if c := ch.Point(Sites[site], len(en), true); c != 0 {
				panic(fmt.Sprintf("mcs: decision %d taken at a point already passed", c))
			}
			res.Steps++
		}
		res.Steps++
		if p, st := s.panicOf(t); p != nil {
			res.Panic = fmt.Sprintf("%v\n%s", p, st)
			return
		}
		if res.Steps > maxSteps {
			res.Livelock = true
			return
		}
		last = t
	}
}

//go:norace
func setRun(s *Sched) { run = s }

//go:norace
func setCur(t *Thread) { cur = t }

//go:norace
func (s *Sched) all() []*Thread { return s.threads }

//go:norace
func (s *Sched) request(t *Thread) (int, int, string) { return t.req.kind, t.req.n, t.req.name }

//go:norace
func (s *Sched) kindOf(t *Thread) int { return t.req.kind }

//go:norace
func (s *Sched) setAnswer(t *Thread, a int) { t.answer = a }

//go:norace
func (s *Sched) panicOf(t *Thread) (any, string) { return t.panicked, t.stack }

//go:norace
func (t *Thread) ready() bool {
	return !t.done && (t.req.w == nil || t.req.w.Ready(t.req.op))
}

// enabled lists the threads that can run, last first.
//
//go:norace
func (s *Sched) enabled(last *Thread) []*Thread {
	out := make([]*Thread, 0, len(s.threads))
	if last != nil && last.ready() {
		out = append(out, last)
	}
	for _, t := range s.threads {
		if t != last && t.ready() {
			out = append(out, t)
		}
	}
	return out
}

//go:norace
func (s *Sched) stuck() string {
	d := ""
	for _, t := range s.threads {
		if !t.done {
			d += fmt.Sprintf("goroutine %d waits at %s; ", t.id, t.req.name)
		}
	}
	return d
}

//go:norace
func (s *Sched) label(t *Thread) string {
	switch t.req.kind {
	case opDense:
		return Sites[t.req.site]
	case opDone:
		return "end"
	}
	return t.req.name
}

//go:norace
func (s *Sched) position(next *Thread) uint64 {
	h := uint64(14695981039346656037)
	for _, t := range s.threads {
		h = (h ^ t.passed) * 1099511628211
		h = (h ^ uint64(t.req.kind)<<32 ^ uint64(t.req.site)) * 1099511628211
	}
	return (h ^ uint64(next.id)) * 1099511628211
}

// others identifies the position before t ran.
//
//go:norace
func (s *Sched) others(t *Thread) uint64 {
	h := uint64(14695981039346656037)
	for _, o := range s.threads {
		n := o.passed
		if o == t {
			n -= uint64(len(t.record))
		}
		h = (h ^ n) * 1099511628211
	}
	return (h ^ uint64(t.id)) * 1099511628211
}

//go:norace
func (s *Sched) resume(t *Thread, skip bool, ahead int) {
	t.skip = skip
	t.budget = ahead
	t.record = t.record[:0]
	t.passed++
	cur = t
	runtime_RaceDisable()
	t.wake <- struct{}{}
	<-s.toMain
	runtime_RaceEnable()
	cur = nil
	t.passed += uint64(len(t.record))
}

//go:norace
func (s *Sched) recorded(t *Thread) []uint32 {
	out := make([]uint32, len(t.record))
	for i := range out {
		out[i] = t.record[i]
	}
	return out
}

// teardown unwinds every goroutine that has not ended.
//
//go:norace
func (s *Sched) teardown() {
	for i := 0; i < len(s.threads); i++ {
		t := s.threads[i]
		for n := 0; !t.done && n < 1000; n++ {
			t.abort = true
			cur = t
			runtime_RaceDisable()
			t.wake <- struct{}{}
			<-s.toMain
			runtime_RaceEnable()
			cur = nil
		}
	}
}
