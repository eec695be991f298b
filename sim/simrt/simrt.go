// Package simrt is the run-time half of the simulator: a cooperative scheduler
// that decides, from explicit data only, which simulated task executes each
// instrumented statement of the system under test.
//
// Tasks are real goroutines, but exactly one is ever released at a time; the
// hand-over of control happens only inside this package. Under -race the
// hand-over is hidden from the race detector (RaceDisable), so the detector
// sees only the synchronisation the code under test itself performs.
//
// Everything in this package that touches shared simulator state is norace.
package simrt

import (
	"fmt"
	"runtime"
	"sync"
)

const never = int64(1) << 62

// Preempt says: when task Task, executing its operation Op, has performed At
// steps of it, hand control to task To (or the next runnable one after To).
type Preempt struct {
	Task int   `json:"t"`
	Op   int   `json:"o"`
	At   int64 `json:"a"`
	To   int   `json:"to"`
	Ph   int   `json:"ph,omitempty"` // only in that part of the operation (0: any)
}

// BudgetExceeded is the panic value raised in a task whose operation ran for
// more simulated steps than allowed.
type BudgetExceeded struct{ Steps int64 }

func (b BudgetExceeded) Error() string {
	return fmt.Sprintf("step budget exceeded after %d steps", b.Steps)
}

// Deadlock is the panic value raised in every blocked task when no task can run.
type Deadlock struct{ What string }

func (d Deadlock) Error() string { return "deadlock: " + d.What }

type task struct {
	id      int
	ch      chan struct{}
	done    bool
	waiting func() bool // non-nil: blocked until it returns true
	why     string
	op      int
	phase   int   // number of BeginOp calls for op so far
	opStart int64 // task-local step count at op start
	local   int64 // task-local steps, valid while not running
	resume  int64 // global step count when last resumed
	budget  int64 // steps allowed for the current op (0: none)
	pre     []Preempt
	preIdx  int
	child   bool
	held    bool // planned preemptions wait
}

// SwitchRec records one hand-over of control that really happened.
type SwitchRec struct {
	From, Op int
	At       int64
	To       int
	Ph       int
	Why      byte // 'p' preempted, 'r' preempted at random, 'b' blocked, 'e' ended, 'y' voluntarily
}

type simState struct {
	tasks    []*task
	cur      *task
	aborting bool
	deadlock string
	wg       *sync.WaitGroup
	switches []SwitchRec
	seed     uint64
	nblock   int64
	gap      int64 // mean distance of random preemptions (0: none)
	lock     bool  // at exactly that distance, in turn
	rnd      uint64
	randAt   int64
	randLeft int
}

//go:norace
func (s *simState) nextRand() int64 {
	if s.lock {
		return steps + s.gap
	}
	return steps + 1 + int64(s.rand()%uint64(2*s.gap))
}

//go:norace
func (s *simState) rand() uint64 {
	s.rnd += 0x9E3779B97F4A7C15
	z := s.rnd
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

var (
	steps    int64
	nextStop int64 = never
	st       *simState
	fuel     int64 // absolute step limit for code running outside Run (0: none)
	lockOps  int64
)

// Yield is the scheduling point inserted before every statement.
//
//go:norace
func Yield() {
	steps++
	if steps >= nextStop {
		slow()
	}
}

// Steps is the number of simulated steps since the process started.
//
//go:norace
func Steps() int64 { return steps }

//go:norace
func LockOps() int64 { return lockOps }

//go:norace
func slow() {
	s := st
	if s == nil {
		if fuel != 0 && steps >= fuel {
			nextStop = steps + 1
			panic(BudgetExceeded{steps})
		}
		nextStop = never
		if fuel != 0 {
			nextStop = fuel
		}
		return
	}
	if s.aborting {
		nextStop = steps + 1
		panic(Deadlock{s.deadlock})
	}
	t := s.cur
	n := t.local + (steps - t.resume) - t.opStart
	if t.budget > 0 && n > t.budget {
		nextStop = steps + 1
		panic(BudgetExceeded{n})
	}
	if s.gap > 0 && !t.held && steps >= s.randAt {
		s.randAt = s.nextRand()
		if s.randLeft--; s.randLeft <= 0 {
			s.gap = 0
		}
		x := int(s.rand() % 64)
		if s.lock {
			x = t.id + 1
		}
		to := s.pick(x, t)
		if to != nil && to != t {
			s.switchTo(to, 'r', n)
		}
	} else if t.due() && n >= t.pre[t.preIdx].At {
		p := t.pre[t.preIdx]
		t.preIdx++
		to := s.pick(p.To, t)
		if to != nil && to != t {
			s.switchTo(to, 'p', p.At)
		}
	}
	s.plan()
}

// due says whether the next planned preemption belongs to the part of the
// operation that is running.
//
//go:norace
func (t *task) due() bool {
	if t.held || t.preIdx >= len(t.pre) {
		return false
	}
	p := &t.pre[t.preIdx]
	return p.Op == t.op && (p.Ph == 0 || p.Ph == t.phase)
}

// plan computes the global step at which slow must run next for the current task.
//
//go:norace
func (s *simState) plan() {
	t := s.cur
	used := t.local + (steps - t.resume) - t.opStart
	nx := never
	if s.gap > 0 && !t.held {
		nx = s.randAt
		if nx <= steps {
			nx = steps + 1
		}
	}
	if t.due() {
		d := t.pre[t.preIdx].At - used
		if d < 1 {
			d = 1
		}
		if steps+d < nx {
			nx = steps + d
		}
	}
	if t.budget > 0 {
		d := t.budget - used + 1
		if d < 1 {
			d = 1
		}
		if steps+d < nx {
			nx = steps + d
		}
	}
	if s.aborting {
		nx = steps + 1
	}
	nextStop = nx
}

// pick returns the first runnable task at or cyclically after index to,
// preferring any other task over not.
//
//go:norace
func (s *simState) pick(to int, not *task) *task {
	n := len(s.tasks)
	if n == 0 {
		return nil
	}
	if to < 0 {
		to = -to
	}
	for k := 0; k < n; k++ {
		c := s.tasks[(to+k)%n]
		if c == not || c.done {
			continue
		}
		if c.waiting != nil {
			if !c.waiting() {
				continue
			}
		}
		return c
	}
	return nil
}

//go:norace
func (s *simState) pickBlocked(not *task) *task {
	s.nblock++
	x := s.seed + uint64(s.nblock)*0x9E3779B97F4A7C15
	x ^= x >> 31
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 29
	n := len(s.tasks)
	if n == 0 {
		return nil
	}
	return s.pick(int(x%uint64(n)), not)
}

//go:norace
func (s *simState) switchTo(to *task, why byte, at int64) {
	me := s.cur
	me.local += steps - me.resume
	if len(s.switches) < 1<<16 {
		s.switches = append(s.switches, SwitchRec{me.id, me.op, at, to.id, me.phase, why})
	}
	s.cur = to
	to.waiting = nil
	to.resume = steps
	s.plan()
	raceDisable()
	to.ch <- struct{}{}
	<-me.ch
	raceEnable()
	if s.aborting {
		nextStop = steps + 1
		panic(Deadlock{s.deadlock})
	}
}

// Block parks the current task until ready reports true. Outside a simulation
// nothing else could ever make it true, so that is a deadlock at once.
//
//go:norace
func Block(why string, ready func() bool) {
	if ready() {
		return
	}
	s := st
	if s == nil {
		panic(Deadlock{why + " (single task)"})
	}
	t := s.cur
	t.waiting = ready
	t.why = why
	to := s.pickBlocked(t)
	if to == nil {
		s.abort(t)
	}
	c := byte('b')
	if why == meeting {
		c = 'm'
	}
	s.switchTo(to, c, 0)
}

//go:norace
func (s *simState) abort(t *task) {
	d := ""
	for _, c := range s.tasks {
		if !c.done && c.waiting != nil {
			d += fmt.Sprintf("task %d op %d waits for %s; ", c.id, c.op, c.why)
		}
	}
	s.aborting = true
	s.deadlock = d
	for _, c := range s.tasks {
		c.waiting = nil
	}
	nextStop = steps + 1
	panic(Deadlock{d})
}

// Pause voluntarily hands control to some other runnable task, if any.
//
//go:norace
func Pause() {
	s := st
	if s == nil || s.aborting {
		return
	}
	to := s.pickBlocked(s.cur)
	if to != nil {
		s.switchTo(to, 'y', 0)
		s.plan()
	}
}

// Cur is the index of the running task, or -1.
//
//go:norace
func Cur() int {
	if st == nil {
		return -1
	}
	return st.cur.id
}

// Aborting reports whether the run is being torn down after a deadlock.
//
//go:norace
func Aborting() bool { return st != nil && st.aborting }

// BeginOp marks the start of operation op of the current task with the given
// step budget (0: unlimited).
//
//go:norace
func BeginOp(op int, budget int64) {
	s := st
	if s == nil {
		return
	}
	t := s.cur
	if t.op != op {
		t.phase = 0
	}
	t.phase++
	t.op = op
	t.opStart = t.local + (steps - t.resume)
	t.budget = budget
	for t.preIdx < len(t.pre) && (t.pre[t.preIdx].Op < op || t.pre[t.preIdx].Op == op && t.pre[t.preIdx].Ph > 0 && t.pre[t.preIdx].Ph < t.phase) {
		t.preIdx++
	}
	s.plan()
}

const meeting = "the others to begin their operation"

// Meet waits until every other task has ended or begun its operation op.
//
//go:norace
func Meet(op int) {
	s := st
	if s == nil {
		return
	}
	Block(meeting, func() bool { return s.allAt(op) })
}

//go:norace
func (s *simState) allAt(op int) bool {
	for _, t := range s.tasks {
		if !t.child && !t.done && t.op < op {
			return false
		}
	}
	return true
}

// Hold makes the current task run on past its planned preemptions (h true), or
// obey them again: the harness's own preparation and checking is no interesting
// place for them.
//
//go:norace
func Hold(h bool) {
	s := st
	if s == nil || s.cur.held == h {
		return
	}
	s.cur.held = h
	s.plan()
}

// EndOp marks the end of the current operation and returns the steps it took.
//
//go:norace
func EndOp() int64 {
	s := st
	if s == nil {
		return 0
	}
	t := s.cur
	n := t.local + (steps - t.resume) - t.opStart
	for t.preIdx < len(t.pre) && t.pre[t.preIdx].Op <= t.op {
		t.preIdx++
	}
	t.budget = 0
	t.held = false
	nextStop = never
	if s.aborting {
		nextStop = steps + 1
	}
	return n
}

// Fuel limits the number of steps of code executed outside Run.
//
//go:norace
func Fuel(n int64) {
	if n == 0 {
		fuel = 0
		nextStop = never
		return
	}
	fuel = steps + n
	nextStop = fuel
}

// Run executes the bodies as tasks 0..n-1 of one simulation. pre must be
// sorted by (Op, At) within each task. It returns the switches performed and a
// description of a deadlock, if one happened. Bodies must recover their own
// panics (the Deadlock panic included).
//
//go:norace
func Run(bodies []func(), pre []Preempt, first int, seed uint64, gap int64) ([]SwitchRec, string) {
	if st != nil {
		panic("simrt: nested Run")
	}
	s := &simState{seed: seed, wg: new(sync.WaitGroup), gap: gap, rnd: seed, randLeft: 1500}
	if gap < 0 { // lock-step
		s.gap, s.lock = -gap, true
	}
	if s.gap > 0 {
		s.randAt = s.nextRand()
	}
	for i := range bodies {
		t := &task{id: i, op: -1, ch: make(chan struct{}, 1)}
		for _, p := range pre {
			if p.Task == i {
				t.pre = append(t.pre, p)
			}
		}
		s.tasks = append(s.tasks, t)
	}
	st = s
	for i := range bodies {
		s.start(s.tasks[i], bodies[i])
	}
	f := s.tasks[0]
	if len(bodies) > 0 {
		f = s.tasks[((first%len(bodies))+len(bodies))%len(bodies)]
	}
	s.cur = f
	f.resume = steps
	nextStop = never
	raceDisable()
	f.ch <- struct{}{}
	raceEnable()
	s.wg.Wait()
	st = nil
	nextStop = never
	return s.switches, s.deadlock
}

//go:norace
func (s *simState) start(t *task, body func()) {
	s.wg.Add(1)
	go s.taskMain(t, body)
}

//go:norace
func (s *simState) taskMain(t *task, body func()) {
	defer s.finish(t)
	if t.child {
		defer func() {
			if r := recover(); r != nil {
				s.crashed(r)
			}
		}()
	}
	raceDisable()
	<-t.ch
	raceEnable()
	body()
}

// Crashed begins the description of a run that ended with a panic in a task
// started by the code under test: nothing can recover it, so the whole program
// ends with it.
const Crashed = "crashed: "

//go:norace
func (s *simState) crashed(r interface{}) {
	if _, ok := r.(Deadlock); ok || s.aborting {
		return
	}
	s.aborting = true
	s.deadlock = Crashed + fmt.Sprint(r)
	for _, c := range s.tasks {
		c.waiting = nil
	}
	nextStop = steps + 1
}

// finish runs when a task's goroutine ends, normally or by Goexit.
//
//go:norace
func (s *simState) finish(t *task) {
	t.done = true
	t.budget = 0
	nextStop = never
	to := s.pickBlocked(t)
	if to == nil {
		blocked := false
		for _, c := range s.tasks {
			if !c.done {
				blocked = true
			}
		}
		if blocked {
			d := ""
			for _, c := range s.tasks {
				if !c.done && c.waiting != nil {
					d += fmt.Sprintf("task %d op %d waits for %s; ", c.id, c.op, c.why)
				}
			}
			s.aborting = true
			if s.deadlock == "" {
				s.deadlock = d
			}
			for _, c := range s.tasks {
				c.waiting = nil
			}
			to = s.pick(0, t)
		}
	}
	if to != nil {
		t.local += steps - t.resume
		if len(s.switches) < 1<<16 {
			s.switches = append(s.switches, SwitchRec{t.id, t.op, 0, to.id, t.phase, 'e'})
		}
		s.cur = to
		to.waiting = nil
		to.resume = steps
		s.plan()
		raceDisable()
		to.ch <- struct{}{}
		raceEnable()
	}
	s.wg.Done()
}

// Go starts f as a further task of the running simulation (the code under
// test used a go statement).
//
//go:norace
func Go(f func()) {
	s := st
	if s == nil {
		// Outside a simulation run it to completion at once: one legal schedule.
		f()
		return
	}
	t := &task{id: len(s.tasks), ch: make(chan struct{}, 1), child: true}
	at := int64(0)
	for k := uint64(0); k < 8; k++ {
		x := (s.seed + uint64(t.id)*8 + k + 1) * 0x9E3779B97F4A7C15
		x ^= x >> 33
		at += 1 + int64(x%97)
		t.pre = append(t.pre, Preempt{Task: t.id, At: at, To: int((x >> 8) % 64)})
	}
	s.tasks = append(s.tasks, t)
	s.start(t, f)
	Pause()
}

// LockOp counts a synchronisation operation of the code under test.
//
//go:norace
func LockOp() {
	lockOps++
	Yield()
}

// Gosched lets the real runtime breathe; used nowhere on the hot path.
func Gosched() { runtime.Gosched() }
