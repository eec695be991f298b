package main

import (
	"encoding/json"
	"flag"
	"os"
	"time"

	simrt "verifsimrt"
)

// minimise shrinks a failing case greedily: any change that keeps a violation
// of the same class is kept.
func minimise(c *Case, class string, deadline time.Time, fails func(*Case) bool) *Case {
	best := c
	try := func(n *Case) bool {
		if time.Now().After(deadline) {
			return false
		}
		if fails(n) {
			best = n
			return true
		}
		return false
	}
	for round := 0; round < 6 && time.Now().Before(deadline); round++ {
		changed := false
		// whole tasks
		for t := len(best.Tasks) - 1; t >= 0 && len(best.Tasks) > 1; t-- {
			if t < len(best.Tasks) && try(dropTask(best, t)) {
				changed = true
			}
		}
		// operations: halves, then single ones
		for t := 0; t < len(best.Tasks); t++ {
			for size := (len(best.Tasks[t]) + 1) / 2; size >= 1; size /= 2 {
				for lo := len(best.Tasks[t]) - size; lo >= 0; lo -= size {
					if lo+size <= len(best.Tasks[t]) && try(dropOps(best, t, lo, lo+size)) {
						changed = true
					}
				}
			}
		}
		// preemptions
		for size := (len(best.Pre) + 1) / 2; size >= 1; size /= 2 {
			for lo := len(best.Pre) - size; lo >= 0; lo -= size {
				if lo+size <= len(best.Pre) {
					n := best.Clone()
					n.Pre = append(append([]simrt.Preempt{}, n.Pre[:lo]...), n.Pre[lo+size:]...)
					if try(n) {
						changed = true
					}
				}
			}
		}
		// initial objects
		for i := len(best.Init) - 1; i >= 0 && len(best.Init) > 1; i-- {
			n := best.Clone()
			n.Init = append(append([]Op{}, n.Init[:i]...), n.Init[i+1:]...)
			if try(n) {
				changed = true
			}
		}
		// faults and small integers
		for t := range best.Tasks {
			for o := range best.Tasks[t] {
				if f := best.Tasks[t][o].F; f != nil {
					n := best.Clone()
					n.Tasks[t][o].F = nil
					if try(n) {
						changed = true
					} else {
						for f.N > 1 {
							n := best.Clone()
							n.Tasks[t][o].F.N /= 2
							if !try(n) {
								break
							}
							changed = true
							f = best.Tasks[t][o].F
						}
					}
				}
				if best.Tasks[t][o].E != 0 {
					n := best.Clone()
					n.Tasks[t][o].E = 0
					if try(n) {
						changed = true
					}
				}
				if shrinkInts(&best, func(c *Case) *Op { return &c.Tasks[t][o] }, try) {
					changed = true
				}
			}
		}
		for i := range best.Init {
			if shrinkInts(&best, func(c *Case) *Op { return &c.Init[i] }, try) {
				changed = true
			}
		}
		if best.Cfg["meet"] == 1 {
			n := best.Clone()
			n.Cfg["meet"] = 0
			if try(n) {
				changed = true
			}
		}
		for _, k := range []string{"p", "q", "p2", "q2"} {
			for best.Cfg[k] > 1 {
				n := best.Clone()
				n.Cfg[k]--
				if n.Cfg[k] > 8 {
					n.Cfg[k] = n.Cfg[k] / 2
				}
				if !try(n) {
					break
				}
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	return best
}

func shrinkInts(best **Case, at func(*Case) *Op, try func(*Case) bool) bool {
	changed := false
	for k := range at(*best).A {
		for tries := 0; tries < 12; tries++ {
			v := at(*best).A[k]
			if v <= 0 {
				break
			}
			done := false
			for _, nv := range []int{0, 1, v / 2, v - 1} {
				if nv >= v {
					continue
				}
				n := (*best).Clone()
				at(n).A[k] = nv
				if try(n) {
					done, changed = true, true
					break
				}
			}
			if !done {
				break
			}
		}
	}
	for _, ns := range []uint64{1, 2, 3} {
		if at(*best).S > 3 {
			n := (*best).Clone()
			at(n).S = ns
			if try(n) {
				changed = true
				break
			}
		}
	}
	return changed
}

func dropTask(c *Case, t int) *Case {
	n := c.Clone()
	n.Tasks = append(append([][]Op{}, n.Tasks[:t]...), n.Tasks[t+1:]...)
	var pre []simrt.Preempt
	for _, p := range n.Pre {
		if p.Task == t {
			continue
		}
		if p.Task > t {
			p.Task--
		}
		if p.To > t {
			p.To--
		}
		pre = append(pre, p)
	}
	n.Pre = pre
	if n.First > t {
		n.First--
	}
	return n
}

func dropOps(c *Case, t, lo, hi int) *Case {
	n := c.Clone()
	n.Tasks[t] = append(append([]Op{}, n.Tasks[t][:lo]...), n.Tasks[t][hi:]...)
	var pre []simrt.Preempt
	for _, p := range n.Pre {
		if p.Task == t {
			if p.Op >= lo && p.Op < hi {
				continue
			}
			if p.Op >= hi {
				p.Op -= hi - lo
			}
		}
		pre = append(pre, p)
	}
	n.Pre = pre
	return n
}

// minimiseMain: minimise -in REPLAY -out REPLAY -secs N
func minimiseMain(args []string) {
	fs := flag.NewFlagSet("minimise", flag.ExitOnError)
	in := fs.String("in", "", "")
	outf := fs.String("out", "", "")
	secs := fs.Float64("secs", 40, "")
	fs.Parse(args)
	r := readReplay(*in)
	c := r.Case
	if c == nil {
		c = makeCase(r.Property, r.Seed, r.Index)
	}
	dl := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	save := func(c *Case) {
		r.Case = c
		r.Kind = "case"
		b, _ := json.MarshalIndent(r, "", " ")
		tmp := *outf + ".tmp"
		if os.WriteFile(tmp, b, 0o644) == nil {
			os.Rename(tmp, *outf)
		}
	}
	fails := func(n *Case) bool {
		res := runCase(n)
		if res.V != nil && res.V.Class == r.Violation.Class {
			save(n)
			return true
		}
		return false
	}
	if c.Cfg["gap"] != 0 {
		// write the random schedule out, so that it can be shortened
		if res := runCase(c); res.V != nil {
			n := c.Clone()
			n.Cfg["gap"] = 0
			for _, s := range res.sw {
				if s.Why == 'p' || s.Why == 'r' {
					n.Pre = append(n.Pre, simrt.Preempt{Task: s.From, Op: s.Op, At: s.At, To: s.To, Ph: s.Ph})
				}
			}
			sortPre(n.Pre)
			if fails(n) {
				c = n
			}
		}
	}
	minimise(c, r.Violation.Class, dl, fails)
}
