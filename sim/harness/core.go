package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	simrt "verifsimrt"
)

// ---------------------------------------------------------------- randomness

// Rng is splitmix64: the only source of randomness in the harness.
type Rng struct {
	s   uint64
	odd float64 // probability of a special value where data is drawn
}

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Range(lo, hi int) int  { return lo + r.Intn(hi-lo+1) }
func (r *Rng) F() float64            { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) Chance(p float64) bool { return r.F() < p }
func (r *Rng) Pick(xs ...int) int    { return xs[r.Intn(len(xs))] }
func (r *Rng) Norm() float64 {
	// sum of uniforms is enough for test data
	s := 0.0
	for i := 0; i < 12; i++ {
		s += r.F()
	}
	return s - 6
}

func mix(a, b uint64) uint64 {
	r := Rng{s: a ^ (b * 0xD6E8FEB86659FD93)}
	r.U64()
	return r.U64()
}

// ---------------------------------------------------------------- cases

// Fault is attached to an operation: at the N-th callback into caller code made
// by that operation, something goes wrong there.
type Fault struct {
	Kind string `json:"kind"` // panic, kill
	N    int    `json:"n"`
}

// Op is one step of a task (or one initial object). Everything random in it
// derives from S; A holds small integers that may be shrunk.
type Op struct {
	K string `json:"k"`
	A []int  `json:"a,omitempty"`
	S uint64 `json:"s,omitempty"`
	F *Fault `json:"f,omitempty"`
	E int    `json:"e,omitempty"` // what the runtime does just before it: -1 collects garbage, k > 0 has k processors from then on
}

func (o *Op) Arg(i int) int {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

// Case is one complete, explicit simulated execution.
type Case struct {
	Prop  string          `json:"prop"`
	Seed  uint64          `json:"seed"` // run seed the case was generated from
	Cfg   map[string]int  `json:"cfg,omitempty"`
	Init  []Op            `json:"init,omitempty"`
	Tasks [][]Op          `json:"tasks"`
	Pre   []simrt.Preempt `json:"preemptions,omitempty"`
	First int             `json:"first,omitempty"`
	Sched uint64          `json:"sched,omitempty"`
}

func (c *Case) Clone() *Case {
	b, _ := json.Marshal(c)
	n := new(Case)
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

// Violation is what an oracle reports. Class identifies the kind of failure for
// minimisation (the minimised case must fail in the same class).
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Task  int    `json:"task"`
	Op    int    `json:"op"`
}

// Result of executing a case.
type Result struct {
	V        *Violation
	Log      uint64 // hash of every event of the run
	Steps    int64
	Switches int
	Inter    uint64 // hash identifying the interleaving (sequence of switches)
	State    uint64 // hash of abstract behaviour (operations, classes, outcomes)
	Count    map[string]int
	Locks    int64
	Sites    []uint64
	Trace    []string // filled only when tracing
	Sched    []string
	sw       []simrt.SwitchRec
}

// ---------------------------------------------------------------- tasks

var tracing bool

// T is the context of one simulated task. Nothing in it is shared.
type T struct {
	ID    int
	OpIdx int
	log   uint64
	state uint64
	count map[string]int
	viol  *Violation
	trace []string
	sites map[uint64]bool
	steps int64
	// per-op
	opSteps   []int64
	budget    int64
	focus     bool
	nest      int       // > 0 while caller code called by the library calls the library
	meet      bool      // begin every operation together with the other tasks
	build     uint64    // of 8 operations, how many are exposed outside the request proper
	deep      int       // how deep walks are nested, 0: as they come
	rejs      []keptRej // rejections kept by the caller
	execSteps int64     // steps of the library request of the current operation
}

func newT(id int) *T {
	return &T{ID: id, log: 14695981039346656037, state: 14695981039346656037, count: map[string]int{}, sites: map[uint64]bool{}}
}

func (t *T) hash(x uint64) {
	t.log ^= x
	t.log *= 1099511628211
	t.log ^= t.log >> 29
}
func (t *T) hashF(x float64) {
	if x == 0 {
		x = 0
	}
	if x != x {
		t.hash(0x7ff8000000000001)
		return
	}
	t.hash(math.Float64bits(x))
}
func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// note records an abstract event (for distinctness measures) and an event in the log.
func (t *T) note(format string, a ...interface{}) {
	s := sf(format, a...)
	h := hashStr(s)
	t.hash(h)
	t.state = (t.state ^ h) * 1099511628211
	t.sites[h] = true
	if tracing {
		t.trace = append(t.trace, fmt.Sprintf("task %d op %d: %s", t.ID, t.OpIdx, s))
	}
}
func (t *T) inc(k string) { t.count[k]++ }

func (t *T) fail(class, format string, a ...interface{}) {
	if t.viol == nil {
		t.viol = &Violation{Class: class, Msg: sf(format, a...), Task: t.ID, Op: t.OpIdx}
	}
}

// endExec marks the end of the library request proper: what follows in the
// same operation is verification by the harness, on a generous budget.
func (t *T) endExec() {
	if t.nest > 0 {
		return // counts as part of the request that is under way
	}
	n := simrt.EndOp()
	if n > t.execSteps {
		t.execSteps = n
	}
	if t.budget > 0 {
		simrt.BeginOp(t.OpIdx, 20*t.budget)
	}
	simrt.Hold(t.focus)
}

// beginExec restarts the step count for the library request of the operation.
func (t *T) beginExec() {
	if t.nest > 0 {
		return
	}
	simrt.Hold(false)
	simrt.BeginOp(t.OpIdx, t.budget)
}

// prepare starts an operation: unless its seed says otherwise, preemptions wait
// until the library request proper begins.
func (t *T) prepare(op *Op) {
	if t.nest > 0 {
		return
	}
	t.focus = mix(op.S, 77)%8 >= t.build
	simrt.Hold(t.focus)
}

// harnessBug is a mistake of the harness itself: never a verdict.
type harnessBug struct{ msg string }

func bugf(format string, a ...interface{}) {
	panic(harnessBug{fmt.Sprintf(format, a...)})
}

type injected struct{ where string }

func (i injected) Error() string { return "injected fault at " + i.where }

type Outcome struct {
	Kind string // ok, panic, kill, budget, deadlock
	Val  interface{}
}

func (o Outcome) OK() bool { return o.Kind == "ok" }
func (o Outcome) String() string {
	if o.Kind == "ok" {
		return "ok"
	}
	return fmt.Sprintf("%s(%v)", o.Kind, o.Val)
}

// stallVal says whether v is a run-time error rather than a deliberate rejection.
func isRuntimeErr(v interface{}) bool {
	_, ok := v.(runtime.Error)
	return ok
}

func classify(r interface{}) Outcome {
	switch v := r.(type) {
	case harnessBug:
		fmt.Fprintf(os.Stderr, "HARNESS BUG: %s\n%s\n", v.msg, debug.Stack())
		os.Exit(3)
	case simrt.BudgetExceeded:
		return Outcome{"budget", v}
	case simrt.Deadlock:
		return Outcome{"deadlock", v}
	}
	return Outcome{"panic", r}
}

// call runs a request against the library and says how it ended. When the
// operation carries a kill fault it runs in a worker goroutine of its own (same
// simulated task), so that only the worker dies.
func (t *T) call(f *Fault, body func()) (out Outcome) {
	if f != nil && f.Kind == "kill" {
		done := make(chan Outcome, 1)
		go func() {
			o := Outcome{Kind: "kill"}
			defer func() {
				if o.Kind == "kill" {
					if r := recover(); r != nil {
						o = classify(r)
					}
				}
				done <- o
			}()
			body()
			o = Outcome{Kind: "ok"}
		}()
		return <-done
	}
	defer func() {
		if out.Kind == "" {
			r := recover()
			out = classify(r)
		}
	}()
	body()
	return Outcome{Kind: "ok"}
}

// Hook counts callbacks into caller code and injects the fault of the operation.
type Hook struct {
	n     int
	f     *Fault
	fired bool
	t     *T
	re    func() // what the caller's code asks the library itself (fault kind "reenter")
}

func (h *Hook) hit(where string) {
	simrt.Yield()
	if h == nil {
		return
	}
	h.n++
	if h.f != nil && !h.fired && h.n == h.f.N {
		if h.f.Kind == "reenter" {
			if re := h.re; re != nil {
				h.re = nil
				h.t.inc("fault:reenter@" + where)
				h.t.nest++
				defer func() { h.t.nest-- }()
				re()
			}
			return
		}
		h.fired = true
		h.t.inc("fault:" + h.f.Kind + "@" + where)
		if h.f.Kind == "kill" {
			runtime.Goexit()
		}
		panic(injected{where})
	}
}

// ---------------------------------------------------------------- running

// Body executes the operations of one task.
type World interface {
	// Do executes operation op (index i) of task t.
	Do(t *T, i int, op *Op)
	// Finish checks what must hold when all tasks are done.
	Finish(t *T)
}

// Execute runs all tasks of the case under the simulator.
func Execute(c *Case, w World, budget int64) *Result {
	n := len(c.Tasks)
	ts := make([]*T, n)
	bodies := make([]func(), n)
	for i := 0; i < n; i++ {
		t := newT(i)
		t.budget = budget
		t.meet = c.Cfg["meet"] == 1
		t.build = 1
		if c.Prop == "C15" {
			t.build = 4 // what else it does is its own business, too
		}
		ts[i] = t
		ops := c.Tasks[i]
		bodies[i] = func() { taskBody(t, ops, w) }
	}
	start := simrt.Steps()
	locks := simrt.LockOps()
	races := simrt.RaceErrors()
	sw, dead := simrt.Run(bodies, c.Pre, c.First, c.Sched, int64(c.Cfg["gap"]))
	res := &Result{Count: map[string]int{}}
	races = simrt.RaceErrors() - races
	ft := newT(-1)
	if dead == "" {
		noViol := true
		for _, t := range ts {
			if t.viol != nil {
				noViol = false
			}
		}
		if noViol {
			safely(ft, func() { w.Finish(ft) })
		}
	}
	res.Steps = simrt.Steps() - start
	res.Locks = simrt.LockOps() - locks
	h := uint64(14695981039346656037)
	for _, s := range sw {
		if tracing {
			why := map[byte]string{'p': "preempted", 'r': "preempted", 'b': "blocked on a lock", 'm': "waits for the others to begin that operation", 'e': "finished", 'y': "gave way"}[s.Why]
			at := ""
			if s.Why == 'p' || s.Why == 'r' {
				at = fmt.Sprintf(" at step %d", s.At)
			}
			res.Sched = append(res.Sched, fmt.Sprintf("task %d op %d %s%s -> task %d", s.From, s.Op, why, at, s.To))
		}
		k := uint64(s.From)<<48 ^ uint64(s.Op)<<32 ^ uint64(s.To)<<24 ^ uint64(s.Why)<<56 ^ uint64(s.At)
		h = (h ^ k) * 1099511628211
		switch s.Why {
		case 'p', 'r':
			res.Switches++
			res.Count["preemption"]++
		case 'b':
			res.Count["blocked-on-lock"]++
		}
	}
	res.Inter = h
	res.sw = sw
	lg, stt := h, uint64(0)
	for _, t := range append(ts, ft) {
		lg = (lg ^ t.log) * 1099511628211
		stt = (stt ^ t.state) * 1099511628211
		for k, v := range t.count {
			res.Count[k] += v
		}
		for k := range t.sites {
			res.Sites = append(res.Sites, k)
		}
		if t.viol != nil && (res.V == nil) {
			res.V = t.viol
		}
		res.Trace = append(res.Trace, t.trace...)
	}
	sort.Slice(res.Sites, func(i, j int) bool { return res.Sites[i] < res.Sites[j] })
	if dead != "" {
		res.V = &Violation{Class: "deadlock", Msg: "no task can proceed: " + dead}
		if strings.HasPrefix(dead, simrt.Crashed) {
			res.V = &Violation{Class: "task-panic", Msg: "a goroutine that the library started panicked, which ends the whole program: " + dead[len(simrt.Crashed):]}
		}
	}
	if races > 0 && res.V == nil {
		res.V = &Violation{Class: "data-race", Msg: fmt.Sprintf("%d unsynchronised conflicting accesses to shared memory", races)}
	}
	if races > 0 {
		res.Count["data-race-reports"] += races
	}
	res.Log, res.State = lg, stt
	return res
}

// environment is a fault of the machine the library runs on: at a chosen moment
// all garbage is collected (what pools hold back, what only finalizers keep and
// where memory is reused change), or the number of processors changes.
func (t *T) environment(e int) {
	switch {
	case e < 0:
		t.inc("fault:garbage-collection")
		runtime.GC()
		runtime.GC() // pools give up what they hold at the second one
	case e > 0:
		t.inc("fault:processors-change")
		runtime.GOMAXPROCS(e)
	}
}

func taskBody(t *T, ops []Op, w World) {
	for i := range ops {
		if simrt.Aborting() || t.viol != nil {
			return
		}
		t.OpIdx = i
		t.execSteps = 0
		t.environment(ops[i].E)
		simrt.BeginOp(i, t.budget)
		if t.meet {
			safely(t, func() { simrt.Meet(i) })
		}
		safely(t, func() { w.Do(t, i, &ops[i]) })
		n := simrt.EndOp()
		if t.execSteps > 0 {
			n = t.execSteps
		}
		t.opSteps = append(t.opSteps, n)
		t.steps += n
	}
}

// safely runs harness code that queries the library for verification; a panic
// escaping here means a request that must be answered was not.
func safely(t *T, f func()) {
	defer func() {
		if r := recover(); r != nil {
			o := classify(r)
			switch o.Kind {
			case "budget":
				t.fail("unbounded", "operation exceeded its step budget: %v", r)
			case "deadlock":
				// inside a simulation it is reported for the whole run
				if simrt.Cur() < 0 {
					t.fail("deadlock", "the request can never finish: %v", r)
				}
			default:
				t.fail("unexpected-panic", "unexpected panic: %v%s", r, where())
			}
		}
	}()
	f()
}

func where() string {
	buf := make([]byte, 4096)
	buf = buf[:runtime.Stack(buf, false)]
	lines := strings.Split(string(buf), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/linear/") && strings.Contains(l, ".go:") {
			l = strings.TrimSpace(l)
			if k := strings.LastIndex(l, "/"); k >= 0 {
				l = l[k+1:]
			}
			if k := strings.Index(l, " "); k >= 0 {
				l = l[:k]
			}
			out = append(out, l)
			if len(out) == 4 {
				break
			}
		}
	}
	if len(out) == 0 {
		return ""
	}
	return " at " + strings.Join(out, " < ")
}

// solo runs body as the only task of a simulation, outside any other one.
func solo(t *T, budget int64, body func()) {
	simrt.Run([]func(){func() {
		simrt.BeginOp(0, budget)
		safely(t, body)
		simrt.EndOp()
	}}, nil, 0, 1, 0)
}

// soloOps runs ops alone and returns the number of steps each one took.
func soloOps(t *T, ops []Op, w World, budget int64) []int64 {
	t.budget = budget
	simrt.Run([]func(){func() { taskBody(t, ops, w) }}, nil, 0, 1, 0)
	return t.opSteps
}

// ---------------------------------------------------------------- schedules

// genSchedule chooses preemption points. est[task][op] are step estimates; nil
// means unknown (log-uniform guesses are used).
func genSchedule(r *Rng, c *Case, est [][]int64) {
	n := len(c.Tasks)
	c.Sched = r.U64()
	c.First = r.Intn(n)
	c.Pre = nil
	if n < 2 {
		return
	}
	guess := func(t, o int) int64 {
		if est != nil && t < len(est) && o < len(est[t]) && est[t][o] > 0 {
			return 1 + int64(r.U64()%uint64(est[t][o]))
		}
		return 1 + int64(math.Exp(r.F()*9))
	}
	add := func(t, o int, at int64, to int) {
		c.Pre = append(c.Pre, simrt.Preempt{Task: t, Op: o, At: at, To: to})
	}
	randOp := func(t int) int { return r.Intn(len(c.Tasks[t])) }
	strat := r.Intn(9)
	switch strat {
	case 0: // a few preemptions anywhere
		for d := r.Range(1, 4); d > 0; d-- {
			t := r.Intn(n)
			if len(c.Tasks[t]) == 0 {
				continue
			}
			o := randOp(t)
			add(t, o, guess(t, o), r.Intn(n))
		}
	case 1: // preempt the first operation of several tasks
		for t := 0; t < n; t++ {
			if len(c.Tasks[t]) > 0 && r.Chance(0.8) {
				add(t, 0, guess(t, 0), r.Intn(n))
				if r.Chance(0.5) {
					add(t, 0, guess(t, 0), r.Intn(n))
				}
			}
		}
	case 2: // fine-grained alternation inside some operations
		for k := r.Range(1, 3); k > 0; k-- {
			t := r.Intn(n)
			if len(c.Tasks[t]) == 0 {
				continue
			}
			o := randOp(t)
			at := int64(0)
			gap := 1 + int64(math.Exp(r.F()*5))
			for j := 0; j < 60; j++ {
				at += 1 + int64(r.U64()%uint64(2*gap))
				add(t, o, at, r.Intn(n))
			}
		}
	case 3: // round robin everywhere with a random quantum
		q := 1 + int64(math.Exp(r.F()*7))
		cnt := 0
		for t := 0; t < n && cnt < 800; t++ {
			for o := range c.Tasks[t] {
				for at, j := q, 0; j < 40; at, j = at+q, j+1 {
					if est != nil && t < len(est) && o < len(est[t]) && at > est[t][o] {
						break
					}
					add(t, o, at, t+1)
					cnt++
				}
			}
		}
	case 4: // one preemption per task at a random operation, then run to the end
		for t := 0; t < n; t++ {
			if len(c.Tasks[t]) == 0 {
				continue
			}
			o := randOp(t)
			add(t, o, guess(t, o), t+1)
		}
	case 6, 7, 8: // all meet at the start of some operation, then alternate inside it
		same := r.Chance(0.7)
		k := r.Intn(1 << 20)
		q := 1 + int64(math.Exp(r.F()*5))
		for t := 0; t < n; t++ {
			if len(c.Tasks[t]) == 0 {
				continue
			}
			o := k % len(c.Tasks[t])
			if !same {
				o = randOp(t)
			}
			add(t, o, 1, t+1)
			switch strat {
			case 6:
				for d := r.Range(1, 6); d > 0; d-- {
					add(t, o, guess(t, o), r.Intn(n))
				}
			case 7:
				for at, j := 1+q, 0; j < 60; at, j = at+q, j+1 {
					add(t, o, at, t+1)
				}
			case 8:
				add(t, o, guess(t, o), t+1)
				if o+1 < len(c.Tasks[t]) {
					add(t, o+1, guess(t, o+1), t+1)
				}
			}
		}
	case 5: // very early steps of operations
		for k := r.Range(2, 10); k > 0; k-- {
			t := r.Intn(n)
			if len(c.Tasks[t]) == 0 {
				continue
			}
			add(t, randOp(t), int64(r.Range(1, 25)), r.Intn(n))
		}
	}
	sortPre(c.Pre)
}

func sortPre(p []simrt.Preempt) {
	sort.SliceStable(p, func(i, j int) bool {
		if p[i].Task != p[j].Task {
			return p[i].Task < p[j].Task
		}
		if p[i].Op != p[j].Op {
			return p[i].Op < p[j].Op
		}
		if p[i].Ph != p[j].Ph {
			return p[i].Ph < p[j].Ph
		}
		return p[i].At < p[j].At
	})
}
