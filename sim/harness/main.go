package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	simrt "verifsimrt"
)

// runSeed derives the seed of run number idx of a property from the seed of
// the whole check.
func runSeed(seed uint64, prop string, idx uint64) uint64 {
	return mix(mix(seed+0x1234567, hashStr(prop)), idx)
}

// Index ranges: the number of a run also says how it is executed.
const (
	coldBase = uint64(1) << 40 // one run per process, schedules without estimates
	raceBase = uint64(1) << 41 // run in the binary with the race oracle
)

func makeCase(prop string, seed, idx uint64) *Case {
	coldGen = idx&coldBase != 0
	return genCase(prop, runSeed(seed, prop, idx))
}

// chunkOut is what a worker reports about a range of runs.
type chunkOut struct {
	From, To   uint64
	Runs       int
	Steps      int64
	Locks      int64
	Switches   int
	Count      map[string]int
	Logs       []uint64 // hash of the event log of each non-trivial run
	Inters     []uint64
	States     []uint64
	Sites      []uint64
	WallNs     int64
	LogHash    uint64
	Viol       *Violation
	ViolIdx    uint64
	SampleIdx  uint64
	HasSample  bool
	SampleText string
}

func nontrivial(c *Case, r *Result) bool {
	if r.Switches > 0 {
		return true
	}
	for k, v := range r.Count {
		if v == 0 {
			continue
		}
		if strings.HasPrefix(k, "fault") || strings.HasPrefix(k, "damage") || k == "rejected-request" || k == "blocked-on-lock" || k == "input-changed" {
			return true
		}
	}
	n := 0
	for _, t := range c.Tasks {
		n += len(t)
	}
	return n >= 3
}

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Uint64("from", 0, "")
	to := fs.Uint64("to", 0, "")
	deadline := fs.Int64("deadline", 0, "unix nanoseconds")
	fs.Parse(args)
	out := bufio.NewWriter(os.Stdout)
	co := &chunkOut{From: *from, To: *to, Count: map[string]int{}}
	sites := map[uint64]bool{}
	st := time.Now()
	for i := *from; i < *to; i++ {
		if *deadline > 0 && time.Now().UnixNano() > *deadline {
			break
		}
		os.Stdout.WriteString("@" + strconv.FormatUint(i, 10) + "\n")
		c := makeCase(*prop, *seed, i)
		r := runCase(c)
		co.Runs++
		co.Steps += r.Steps
		co.Locks += r.Locks
		co.Switches += r.Switches
		for k, v := range r.Count {
			co.Count[k] += v
		}
		co.LogHash = mix(co.LogHash, r.Log)
		if nontrivial(c, r) {
			co.Logs = append(co.Logs, r.Log)
		}
		co.Inters = append(co.Inters, r.Inter)
		co.States = append(co.States, r.State)
		for _, s := range r.Sites {
			sites[s] = true
		}
		if !co.HasSample && len(c.Tasks) > 0 && r.V == nil {
			if b, _ := json.Marshal(c); len(b) < 1500 {
				co.HasSample, co.SampleIdx, co.SampleText = true, i, string(b)
			}
		}
		if r.V != nil && os.Getenv("VERIF_COUNT") != "" { // experiments: how often?
			co.Count["viol:"+r.V.Class]++
		} else if r.V != nil {
			co.Viol, co.ViolIdx = r.V, i
			break
		}
	}
	for s := range sites {
		co.Sites = append(co.Sites, s)
	}
	co.WallNs = time.Since(st).Nanoseconds()
	b, _ := json.Marshal(co)
	out.WriteString("\n=")
	out.Write(b)
	out.WriteString("\n")
	out.Flush()
}

// Replay is the content of a replay file.
type Replay struct {
	Property  string     `json:"property"`
	Build     string     `json:"build"` // normal or race
	Seed      uint64     `json:"seed"`
	From      uint64     `json:"from"`
	Index     uint64     `json:"index"`
	Kind      string     `json:"kind"` // case: run the case; batch: run From..Index in one process; crash: the process dies
	Case      *Case      `json:"case,omitempty"`
	Minimised bool       `json:"minimised"`
	Violation *Violation `json:"violation"`
	LogHash   string     `json:"log_hash,omitempty"`
	Schedule  []string   `json:"schedule,omitempty"`
	Trace     []string   `json:"trace,omitempty"`
	HowTo     string     `json:"how_to_replay"`
}

func readReplay(f string) *Replay {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := new(Replay)
	if err := json.Unmarshal(b, r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return r
}

type execOut struct {
	V    *Violation
	Log  string
	Sw   []string
	Tr   []string
	Sims int64
}

// execMain executes one replay file in this process and prints the result.
func execMain(args []string) {
	r := readReplay(args[0])
	var res *Result
	batch := r.Kind == "batch" || (r.Kind == "crash" && r.Case == nil)
	switch {
	case batch:
		for i := r.From; i <= r.Index; i++ {
			res = runCase(makeCase(r.Property, r.Seed, i))
			if res.V != nil {
				break
			}
		}
	default:
		tracing = true
		c := r.Case
		if c == nil {
			c = makeCase(r.Property, r.Seed, r.Index)
		}
		res = runCase(c)
	}
	b, _ := json.Marshal(execOut{res.V, fmt.Sprintf("%016x", res.Log), res.Sched, res.Trace, res.Steps})
	fmt.Printf("\n=%s\n", b)
}

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simcheck check|worker|exec|minimise|replay|dump ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2:])
	case "exec":
		execMain(os.Args[2:])
	case "minimise":
		minimiseMain(os.Args[2:])
	case "check":
		checkMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	case "dump": // dump PROP SEED INDEX
		s, _ := strconv.ParseUint(os.Args[3], 10, 64)
		i, _ := strconv.ParseUint(os.Args[4], 10, 64)
		b, _ := json.MarshalIndent(makeCase(os.Args[2], s, i), "", " ")
		fmt.Println(string(b))
	case "info":
		fmt.Println("race build:", simrt.RaceBuild)
	default:
		os.Exit(2)
	}
}
