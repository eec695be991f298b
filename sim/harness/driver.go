package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The driver: hands ranges of runs to worker processes, collects what they
// report, confirms and minimises a violation, and writes the evidence.

type plan struct {
	Normal, Race, Cold int           // runs
	Chunk, RChunk      int           // runs per worker process
	Wall               time.Duration // no further worker starts after this
	MinSecs            float64
}

var concurrent = map[string]bool{"C07": true, "C08": true, "C09": true, "C10": true, "C11": true, "C12": true, "C13": true, "C15": true, "C16": true, "C17": true, "C19": true}

func planFor(prop, tier string) plan {
	p := plan{Normal: 150000, Chunk: 500, RChunk: 100, Wall: 120 * time.Second, MinSecs: 25}
	if concurrent[prop] {
		p.Normal, p.Race, p.Cold = 100000, 12000, 240
	}
	if tier == "thorough" {
		p.Normal *= 20
		p.Race *= 15
		p.Cold *= 7
		p.Chunk = 2000
		p.RChunk = 400
		p.Wall = 660 * time.Second
		p.MinSecs = 60
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" { // for experiments
		n, _ := strconv.Atoi(s)
		p.Normal = n
	}
	if s := os.Getenv("VERIF_RACE_RUNS"); s != "" {
		n, _ := strconv.Atoi(s)
		p.Race = n
	}
	if s := os.Getenv("VERIF_COLD_RUNS"); s != "" {
		n, _ := strconv.Atoi(s)
		p.Cold = n
	}
	return p
}

type job struct {
	kind     string // normal race cold
	from, to uint64
}

type driver struct {
	prop, tier string
	seed       uint64
	bin, rbin  string
	plan       plan
	start      time.Time

	mu      sync.Mutex
	outs    []*jobOut
	stop    bool
	notes   []string
	harness string
}

type jobOut struct {
	j     job
	co    *chunkOut
	crash *crash
}

type crash struct {
	idx  uint64
	how  string
	text string
	hang bool
}

// capped keeps the first and the last part of what is written to it.
type capped struct {
	mu         sync.Mutex
	head, tail []byte
}

func (c *capped) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := len(p)
	if k := 32<<10 - len(c.head); k > 0 {
		if k > len(p) {
			k = len(p)
		}
		c.head = append(c.head, p[:k]...)
		p = p[k:]
	}
	c.tail = append(c.tail, p...)
	if len(c.tail) > 64<<10 {
		c.tail = append([]byte{}, c.tail[len(c.tail)-32<<10:]...)
	}
	return n, nil
}
func (c *capped) String() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return string(c.head) + string(c.tail)
}

type procOut struct {
	payload []byte // after "\n="
	last    uint64 // last index started
	started bool
	exit    int
	hung    bool
	stderr  string
}

// run starts a worker, exec or minimise process and watches its progress.
func run(bin string, stall time.Duration, args ...string) procOut {
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 exitcode=0 history_size=2", "GOMAXPROCS=1", "GOTRACEBACK=all")
	if args[0] == "worker" {
		cmd.Env[len(cmd.Env)-2] = "GOMAXPROCS=2"
	}
	var po procOut
	se := &capped{}
	cmd.Stderr = se
	so, err := cmd.StdoutPipe()
	if err != nil {
		return procOut{exit: 2, stderr: err.Error()}
	}
	if err := cmd.Start(); err != nil {
		return procOut{exit: 2, stderr: err.Error()}
	}
	var mu sync.Mutex
	last := time.Now()
	done := make(chan struct{})
	go func() {
		tick := time.NewTicker(500 * time.Millisecond)
		defer tick.Stop()
		for {
			select {
			case <-done:
				return
			case <-tick.C:
				mu.Lock()
				over := time.Since(last) > stall
				if over {
					po.hung = true
				}
				mu.Unlock()
				if over {
					cmd.Process.Kill()
					return
				}
			}
		}
	}()
	rd := bufio.NewReaderSize(so, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			mu.Lock()
			last = time.Now()
			mu.Unlock()
			switch line[0] {
			case '@':
				n, e := strconv.ParseUint(strings.TrimSpace(string(line[1:])), 10, 64)
				if e == nil {
					po.last, po.started = n, true
				}
			case '=':
				po.payload = bytes.TrimSpace(line[1:])
			}
		}
		if err != nil {
			break
		}
	}
	io.Copy(io.Discard, so)
	err = cmd.Wait()
	close(done)
	if err != nil {
		po.exit = -1
		if x, ok := err.(*exec.ExitError); ok {
			po.exit = x.ExitCode()
		}
	}
	po.stderr = se.String()
	return po
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// crashHead extracts the part of a crash report that says what happened.
func crashHead(s string) string {
	for _, k := range []string{"fatal error:", "panic:", "runtime:", "SIG"} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
			if len(s) > 1500 {
				s = s[:1500]
			}
			return s
		}
	}
	return tail(s, 1500)
}

func (d *driver) binOf(kind string) string {
	if kind == "race" {
		return d.rbin
	}
	return d.bin
}

func (d *driver) doJob(j job) *jobOut {
	dl := d.start.Add(d.plan.Wall).UnixNano()
	po := run(d.binOf(j.kind), 180*time.Second, "worker", "-prop", d.prop, "-seed", fmt.Sprint(d.seed), "-from", fmt.Sprint(j.from), "-to", fmt.Sprint(j.to), "-deadline", fmt.Sprint(dl))
	if po.payload != nil && po.exit == 0 {
		co := new(chunkOut)
		if err := json.Unmarshal(po.payload, co); err == nil {
			return &jobOut{j: j, co: co}
		}
	}
	if po.exit == 3 || !po.started {
		return &jobOut{j: j, crash: &crash{how: "harness", text: fmt.Sprintf("exit %d: %s", po.exit, crashHead(po.stderr))}}
	}
	how := fmt.Sprintf("process ended with code %d", po.exit)
	if po.hung {
		how = "no progress for 180 s"
	}
	return &jobOut{j: j, crash: &crash{idx: po.last, how: how, text: crashHead(po.stderr), hang: po.hung}}
}

func (d *driver) jobs() []job {
	mk := func(kind string, n, chunk int, base uint64) []job {
		var l []job
		for i := 0; i < n; i += chunk {
			e := i + chunk
			if e > n {
				e = n
			}
			l = append(l, job{kind, base + uint64(i), base + uint64(e)})
		}
		return l
	}
	a := mk("normal", d.plan.Normal, d.plan.Chunk, 0)
	b := mk("race", d.plan.Race, d.plan.RChunk, raceBase)
	c := mk("cold", d.plan.Cold, 1, coldBase)
	// interleave the three lists proportionally, so that a wall limit cuts all
	// of them alike
	var out []job
	ia, ib, ic := 0, 0, 0
	frac := func(i, n int) float64 {
		if i >= n {
			return 2
		}
		return (float64(i) + 0.5) / float64(n)
	}
	for ia < len(a) || ib < len(b) || ic < len(c) {
		fa, fb, fc := frac(ia, len(a)), frac(ib, len(b)), frac(ic, len(c))
		switch {
		case fa <= fb && fa <= fc:
			out = append(out, a[ia])
			ia++
		case fb <= fc:
			out = append(out, b[ib])
			ib++
		default:
			out = append(out, c[ic])
			ic++
		}
	}
	return out
}

// explore runs the jobs until they are done, the time is over, or a job
// reports something. It returns that job (the earliest in job order).
func (d *driver) explore(jobs []job) (bad *jobOut, next int) {
	var wg sync.WaitGroup
	idx := 0
	badAt := -1
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				d.mu.Lock()
				if badAt >= 0 || idx >= len(jobs) || time.Since(d.start) > d.plan.Wall {
					d.mu.Unlock()
					return
				}
				k := idx
				idx++
				d.mu.Unlock()
				o := d.doJob(jobs[k])
				d.mu.Lock()
				if o.co != nil {
					d.outs = append(d.outs, o)
				}
				if o.crash != nil || (o.co != nil && o.co.Viol != nil) {
					if badAt < 0 || k < badAt {
						badAt, bad = k, o
					}
				}
				d.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return bad, idx
}

func writeReplay(f string, r *Replay) error {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(f, append(b, '\n'), 0o644)
}

func raceReport(s string) []string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return nil
	}
	s = s[i:]
	if j := strings.Index(s, "\n=================="); j >= 0 {
		s = s[:j]
	}
	var l []string
	for _, x := range strings.Split(s, "\n") {
		l = append(l, x)
		if len(l) >= 60 {
			break
		}
	}
	return l
}

// execReplay executes a replay file in a fresh process.
func (d *driver) execReplay(f string, stall time.Duration) (*execOut, procOut) {
	r := readReplay(f)
	bin := d.bin
	if r.Build == "race" {
		bin = d.rbin
	}
	po := run(bin, stall, "exec", f)
	if po.payload == nil {
		return nil, po
	}
	eo := new(execOut)
	if err := json.Unmarshal(po.payload, eo); err != nil {
		return nil, po
	}
	if eo.V != nil && eo.V.Class == "data-race" {
		eo.Tr = append(eo.Tr, raceReport(po.stderr)...)
	}
	return eo, po
}

// confirm turns what a worker reported into a replay file that reproduces in a
// fresh process. It returns nil when it does not reproduce.
func (d *driver) confirm(o *jobOut, dir string) (string, *Violation) {
	os.MkdirAll(dir, 0o755)
	build := "normal"
	if o.j.kind == "race" {
		build = "race"
	}
	howto := "from /verif: ./run.sh replay <this file>"
	if o.crash != nil {
		idx := o.crash.idx
		cls := "crash"
		if o.crash.hang {
			cls = "hang"
		}
		v := &Violation{Class: cls, Msg: o.crash.how + ": " + o.crash.text}
		f := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", d.prop, d.tier, d.seed, idx))
		for _, from := range []uint64{idx, o.j.from} {
			r := &Replay{Property: d.prop, Build: build, Seed: d.seed, From: from, Index: idx, Kind: "crash", Violation: v, HowTo: howto}
			if from == idx {
				r.Case = makeCase(d.prop, d.seed, idx)
			}
			writeReplay(f, r)
			eo, po := d.execReplay(f, 240*time.Second)
			if eo == nil && po.exit == 3 {
				d.harness = po.stderr
				return "", nil
			}
			if eo == nil {
				v.Msg = fmt.Sprintf("%s (process ended with code %d): %s", cls, po.exit, crashHead(po.stderr))
				if po.hung {
					v.Class, v.Msg = "hang", "no progress for 240 s"
				}
				if from == idx && !po.hung {
					d.outOfProcess(r, f, func(eo *execOut, po procOut) bool { return eo == nil && po.exit != 3 && !po.hung })
				}
				writeReplay(f, r)
				return f, v
			}
			if eo.V != nil { // the run itself reports it
				r.Kind, r.Violation = "case", eo.V
				if from != idx {
					r.Kind = "batch"
				}
				r.LogHash, r.Schedule, r.Trace = eo.Log, eo.Sw, eo.Tr
				writeReplay(f, r)
				return f, eo.V
			}
			if from == o.j.from {
				break
			}
		}
		return "", nil
	}
	idx := o.co.ViolIdx
	v := o.co.Viol
	f := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", d.prop, d.tier, d.seed, idx))
	r := &Replay{Property: d.prop, Build: build, Seed: d.seed, From: idx, Index: idx, Kind: "case", Violation: v, HowTo: howto}
	r.Case = makeCase(d.prop, d.seed, idx)
	same := func(eo *execOut) bool { return eo != nil && eo.V != nil && eo.V.Class == v.Class }
	writeReplay(f, r)
	eo, _ := d.execReplay(f, 240*time.Second)
	if !same(eo) && eo != nil && eo.V != nil {
		v = eo.V
		r.Violation = v
		writeReplay(f, r)
	}
	if !same(eo) {
		// depends on what the process did before: replay the whole range
		r.Kind, r.From, r.Case = "batch", o.j.from, nil
		writeReplay(f, r)
		eo, _ = d.execReplay(f, 600*time.Second)
		if eo == nil || eo.V == nil {
			return "", nil
		}
		r.Violation, r.LogHash = eo.V, eo.Log
		r.Schedule, r.Trace = eo.Sw, eo.Tr
		writeReplay(f, r)
		return f, eo.V
	}
	good := eo
	// minimise
	mf := f + ".min"
	os.Remove(mf)
	ok := false
	if o.j.kind != "cold" {
		run(d.binOf(o.j.kind), time.Duration((d.plan.MinSecs+120)*float64(time.Second)), "minimise", "-in", f, "-out", mf, "-secs", fmt.Sprint(d.plan.MinSecs))
		if _, err := os.Stat(mf); err == nil {
			eo2, _ := d.execReplay(mf, 240*time.Second)
			if same(eo2) {
				r2 := readReplay(mf)
				r2.Minimised = true
				r, good, ok = r2, eo2, true
			}
		}
	}
	if !ok {
		d.outOfProcess(r, f, func(eo *execOut, po procOut) bool { return same(eo) })
		writeReplay(f, r)
		if eo2, _ := d.execReplay(f, 240*time.Second); same(eo2) {
			good = eo2
		}
	}
	os.Remove(mf)
	os.Remove(mf + ".tmp")
	r.Violation, r.LogHash, r.Schedule, r.Trace = good.V, good.Log, good.Sw, good.Tr
	writeReplay(f, r)
	return f, good.V
}

// outOfProcess minimises with one process per attempt.
func (d *driver) outOfProcess(r *Replay, f string, bad func(*execOut, procOut) bool) {
	tmp := f + ".try"
	defer os.Remove(tmp)
	dl := time.Now().Add(time.Duration(d.plan.MinSecs * float64(time.Second)))
	best := minimise(r.Case, r.Violation.Class, dl, func(c *Case) bool {
		n := *r
		n.Case = c
		writeReplay(tmp, &n)
		eo, po := d.execReplay(tmp, 60*time.Second)
		return bad(eo, po)
	})
	if best != r.Case {
		r.Case, r.Minimised = best, true
	}
}

type known struct {
	prop, text, match string
}

// readKnown reads the unfixed findings: lines
//
//	finding: property=<id> match=<text in the violation message> -- <what fails>
func readKnown(f string) []known {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var l []known
	for _, s := range strings.Split(string(b), "\n") {
		s = strings.TrimSpace(s)
		if !strings.HasPrefix(s, "finding: property=") {
			continue
		}
		s = strings.TrimPrefix(s, "finding: property=")
		var k known
		i := strings.Index(s, " ")
		j := strings.Index(s, "match=")
		e := strings.Index(s, " -- ")
		if i < 0 || j < 0 || e < j {
			continue
		}
		k.prop, k.match, k.text = s[:i], s[j+6:e], s[e+4:]
		l = append(l, k)
	}
	return l
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	rbin := fs.String("rbin", "", "")
	ev := fs.String("evidence", "", "")
	kf := fs.String("known", "", "")
	reps := fs.String("replays", "", "")
	fs.Parse(args)
	self, _ := os.Executable()
	d := &driver{prop: *prop, tier: *tier, seed: *seed, bin: self, rbin: *rbin, plan: planFor(*prop, *tier), start: time.Now()}
	if d.rbin == "" {
		d.plan.Race = 0
	}
	var kn []known
	for _, k := range readKnown(*kf) {
		if k.prop == d.prop {
			kn = append(kn, k)
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.prop, k.text)
		}
	}
	jobs := d.jobs()
	var found *Violation
	var file string
	unconfirmed := 0
	for len(jobs) > 0 {
		bad, next := d.explore(jobs)
		if bad == nil {
			break
		}
		if bad.crash != nil && bad.crash.how == "harness" {
			fmt.Fprintln(os.Stderr, "harness failure:", bad.crash.text)
			os.Exit(2)
		}
		f, v := d.confirm(bad, *reps)
		if d.harness != "" {
			fmt.Fprintln(os.Stderr, "harness failure:", d.harness)
			os.Exit(2)
		}
		isKnown := false
		if v != nil {
			for _, k := range kn {
				if strings.Contains(v.Msg, k.match) {
					isKnown = true
				}
			}
		}
		var at uint64
		if bad.crash != nil {
			at = bad.crash.idx
		} else {
			at = bad.co.ViolIdx
		}
		if v != nil && !isKnown {
			found, file = v, f
			break
		}
		if v == nil {
			unconfirmed++
			msg := ""
			if bad.crash != nil {
				msg = bad.crash.how + " " + bad.crash.text
			} else {
				msg = bad.co.Viol.Msg
			}
			d.notes = append(d.notes, fmt.Sprintf("run %d reported something that did not reproduce: %s", at, tail(msg, 300)))
			fmt.Fprintln(os.Stderr, d.notes[len(d.notes)-1])
			if unconfirmed >= 5 {
				break
			}
		}
		jobs = append([]job{{bad.j.kind, at + 1, bad.j.to}}, jobs[next:]...)
	}
	if found == nil && unconfirmed >= 5 {
		fmt.Fprintln(os.Stderr, "too many reports that do not reproduce")
		os.Exit(2)
	}
	det := d.determinism()
	d.evidence(*ev, found, det)
	if found != nil {
		fmt.Printf("violation of %s: %s\n", d.prop, found.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, file)
		os.Exit(1)
	}
	fmt.Printf("%s %s: held on everything explored (%.1f s)\n", d.prop, d.tier, time.Since(d.start).Seconds())
}

// determinism repeats one range of each build in fresh processes and compares
// the hashes of all events.
func (d *driver) determinism() map[string]interface{} {
	res := map[string]interface{}{}
	done := map[string]bool{}
	for _, o := range d.outs {
		if done[o.j.kind] || o.co == nil || o.co.Viol != nil || uint64(o.co.Runs) != o.j.to-o.j.from {
			continue
		}
		done[o.j.kind] = true
		to := o.j.to
		save := d.plan.Wall
		d.plan.Wall = time.Since(d.start) + 60*time.Second
		o2 := d.doJob(job{o.j.kind, o.j.from, to})
		d.plan.Wall = save
		if o2.co == nil {
			res[o.j.kind] = "the repetition did not finish"
			continue
		}
		if o2.co.LogHash != o.co.LogHash || o2.co.Runs != o.co.Runs {
			res[o.j.kind] = fmt.Sprintf("MISMATCH over runs %d..%d", o.j.from, to)
			fmt.Fprintln(os.Stderr, "warning: repeating runs gave other events:", res[o.j.kind])
		} else {
			res[o.j.kind] = fmt.Sprintf("runs %d..%d repeated in another process: identical event-log hash %016x", o.j.from, to, o.co.LogHash)
		}
	}
	return res
}

func (d *driver) evidence(file string, v *Violation, det map[string]interface{}) {
	if file == "" {
		return
	}
	var runs, rruns, cruns, nontriv int
	var steps, locks int64
	var sw int
	cnt := map[string]int{}
	logs, inters, states, sites := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	var samples []interface{}
	var cpu int64
	sort.Slice(d.outs, func(i, j int) bool { return d.outs[i].j.from < d.outs[j].j.from })
	for _, o := range d.outs {
		co := o.co
		runs += co.Runs
		switch o.j.kind {
		case "race":
			rruns += co.Runs
		case "cold":
			cruns += co.Runs
		}
		steps += co.Steps
		locks += co.Locks
		sw += co.Switches
		cpu += co.WallNs
		for k, n := range co.Count {
			cnt[k] += n
		}
		nontriv += len(co.Logs)
		for _, x := range co.Logs {
			logs[x] = true
		}
		for _, x := range co.Inters {
			inters[x] = true
		}
		for _, x := range co.States {
			states[x] = true
		}
		for _, x := range co.Sites {
			sites[x] = true
		}
		if co.HasSample && len(samples) < 3 {
			samples = append(samples, map[string]interface{}{"run": co.SampleIdx, "run_seed": fmt.Sprint(runSeed(d.seed, d.prop, co.SampleIdx)), "case": json.RawMessage(co.SampleText)})
		}
	}
	if samples == nil {
		samples = []interface{}{"none short enough to be written out"}
	}
	wall := time.Since(d.start).Seconds()
	faults, ops := map[string]int{}, map[string]int{}
	for k, n := range cnt {
		if strings.HasPrefix(k, "fault") || strings.HasPrefix(k, "damage") || k == "preemption" || k == "blocked-on-lock" || k == "rejected-request" || k == "input-changed" {
			faults[k] = n
		} else {
			ops[k] = n
		}
	}
	viol := 0
	if v != nil {
		viol = 1
	}
	planned := d.plan.Normal + d.plan.Race + d.plan.Cold
	cov := map[string]interface{}{
		"evaluations":                   runs,
		"distinct_nontrivial":           len(logs),
		"rule":                          "Every run is generated from mix(VERIF_SEED, property, run number): objects, operations, faults and the schedule (preemption points between instrumented statements). A run is non-trivial if a preemption happened inside an operation, a fault was injected, a request was rejected, or it has at least three operations; two runs are distinct if the hashes of their complete event logs (operations, arguments, results, switches) differ.",
		"samples":                       samples,
		"runs_planned":                  planned,
		"nontrivial_runs":               nontriv,
		"race_oracle_runs":              rruns,
		"fresh_process_runs":            cruns,
		"seeds_per_hour":                int(float64(runs) / wall * 3600),
		"simulated_steps":               steps,
		"simulated_time":                "logical: one step per instrumented statement of the library; the library reads no clock",
		"faults_injected":               faults,
		"other_counts":                  ops,
		"preemptions_inside_operations": sw,
		"lock_operations":               locks,
		"distinct_interleavings":        len(inters),
		"distinct_abstract_histories":   len(states),
		"distinct_abstract_events":      len(sites),
		"determinism_check":             det,
		"worker_cpu_seconds":            float64(cpu) / 1e9,
		"real_components":               "all of package linear, compiled from the working tree with a scheduling point before every statement",
		"stub_components":               "package sync (simulated locks, same semantics, under the scheduler); callers' own matrices, vectors and visitors are the harness's",
		"unreproduced_reports":          d.notes,
		"stopped_by_wall_limit":         runs < planned && v == nil,
	}
	if v != nil {
		cov["violation"] = v
	}
	e := map[string]interface{}{
		"property": d.prop, "tier": d.tier, "seed": d.seed, "level": "exploration",
		"coverage": cov,
		"assumptions": []string{
			"preemption happens between statements of the library, not inside one; accesses within one statement are covered by the race oracle only (properties with race runs)",
			"numerical answers are judged against condition-dependent error bounds, not bit for bit, where the documentation promises no particular rounding",
		},
		"wall_s": wall, "violations": viol,
	}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Dir(file), 0o755)
	if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
}

// replayMain: replay -file F -rbin BIN
func replayMain(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	f := fs.String("file", "", "")
	rbin := fs.String("rbin", "", "")
	needs := fs.Bool("needs-race", false, "only say whether the race build is needed")
	fs.Parse(args)
	r := readReplay(*f)
	if *needs {
		if r.Build == "race" {
			fmt.Println("race")
		} else {
			fmt.Println("normal")
		}
		return
	}
	self, _ := os.Executable()
	d := &driver{prop: r.Property, seed: r.Seed, bin: self, rbin: *rbin}
	eo, po := d.execReplay(*f, 240*time.Second)
	if eo == nil {
		if po.exit == 3 {
			fmt.Fprintln(os.Stderr, po.stderr)
			os.Exit(2)
		}
		fmt.Printf("the process ended with code %d (hung: %v)\n%s\n", po.exit, po.hung, crashHead(po.stderr))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, *f)
		os.Exit(1)
	}
	for _, s := range eo.Sw {
		fmt.Println("schedule:", s)
	}
	for _, s := range eo.Tr {
		fmt.Println("event:", s)
	}
	if eo.V == nil {
		fmt.Println("no violation: the property held on this run")
		return
	}
	if r.LogHash != "" {
		fmt.Printf("event-log hash %s, recorded %s\n", eo.Log, r.LogHash)
	}
	fmt.Printf("violation (%s): %s\n", eo.V.Class, eo.V.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, *f)
	os.Exit(1)
}
