package main

import (
	"math"
	"runtime"
)

// Case generators: one integer decides everything.

var matNew = []string{"Add", "Subtract", "ScalarAdd", "ScalarMultiply", "Multiply", "PreMultiplyMatrix", "Transpose", "Copy", "SubMatrix", "SubMatrixSel", "Power", "RowMatrixAt", "ColumnMatrixAt", "OuterProduct", "NewMatrix"}
var matQuery = []string{"DiagInverse", "Query", "Operate", "Equals", "CopySubMatrix", "ReadWalk"}
var matSet = []string{"SetEntry", "AddToEntry", "MultiplyEntry", "SetRow", "SetColumn", "SetRowVector", "SetColumnVector", "SetRowMatrix", "SetColumnMatrix", "SetSubMatrix", "UpdateWalk"}
var vecNew = []string{"VAdd", "VSubtract", "VEBEMultiply", "VEBEDivide", "VAppendVector", "VAppend", "VCopy", "VSub", "VTwo", "VNew", "VUnitize"}
var vecQuery = []string{"VQuery", "VQuery", "VQuery2", "VQuery2", "VIterate", "VReadWalk"}
var vecSet = []string{"VSetEntry", "VAddToEntry", "VSetSubVector", "VMapScalar", "VMap", "VCombine", "VCopyFrom", "VUpdateWalk", "VUnitizeInPlace"}

func cat(l ...[]string) []string {
	var o []string
	for _, x := range l {
		o = append(o, x...)
	}
	return o
}

// swarm keeps a random subset of the operations for this run.
func swarm(r *Rng, ops []string) []string {
	if r.Chance(0.3) {
		return ops
	}
	p := 0.15 + 0.6*r.F()
	var o []string
	for _, x := range ops {
		if r.Chance(p) {
			o = append(o, x)
		}
	}
	if len(o) == 0 {
		o = append(o, ops[r.Intn(len(ops))])
	}
	return o
}

func indexOf(l []string, s string) int {
	for i := range l {
		if l[i] == s {
			return i
		}
	}
	return 0
}

func pickDims(r *Rng) (p, q int, heavy int) {
	edge := []int{51, 52, 53, 54, 60, 63, 64, 65, 78, 103, 104, 105}
	switch x := r.F(); {
	case x < 0.0035: // four and more blocks in a row
		return r.Pick(106, 155, 156, 157, 158, 170, 208, 209, 261), r.Range(1, 4), 2
	case x < 0.004:
		return r.Pick(156, 157, 158, 170), r.Range(51, 54), 2
	case x < 0.68:
		return r.Range(1, 6), r.Range(1, 6), 0
	case x < 0.84:
		return r.Range(1, 20), r.Range(1, 20), 0
	case x < 0.94:
		return edge[r.Intn(len(edge))], r.Range(1, 5), 1
	case x < 0.985:
		return edge[r.Intn(9)], edge[r.Intn(9)], 2
	}
	return edge[r.Intn(len(edge))], edge[r.Intn(len(edge))], 2
}

func initGroup(r *Rng, c *Case, g, p, q int, foreign bool) {
	ncls := 3
	if foreign {
		ncls = 4
	}
	for k := r.Range(2, 4); k > 0; k-- {
		a, b := p, q
		if p > 261 { // long vectors
			a, b = r.Range(1, 4), q
		}
		switch r.Intn(4) {
		case 0:
			a, b = q, p
		case 1:
			if a*a <= 12000 {
				b = a
			}
		}
		cls := r.Intn(ncls)
		if cls == clsDiag && a != b && r.Chance(0.7) {
			cls = r.Intn(2)
		}
		c.Init = append(c.Init, Op{K: "m", A: []int{g, cls, a, b}, S: r.U64()})
	}
	for k := r.Range(1, 3); k > 0; k-- {
		n := r.Pick(p, q)
		cls := clsArr
		if r.Chance(0.25) {
			cls = clsFor
		}
		c.Init = append(c.Init, Op{K: "v", A: []int{g, cls, n}, S: r.U64()})
	}
}

// coldGen makes cases for fresh processes: nothing of the library may run
// before the case itself does.
var coldGen bool

func newCase(prop string, seed uint64) (*Case, *Rng) {
	r := NewRng(seed)
	return &Case{Prop: prop, Seed: seed, Cfg: map[string]int{}}, r
}

// genHist makes a history case over the given operations.
func genHist(c *Case, r *Rng, ops []string, decs bool) {
	ng := r.Range(1, 2)
	c.Cfg["groups"] = ng
	p, q, heavy := pickDims(r)
	if c.Prop == "C02" && r.Chance(0.02) {
		p, heavy = r.Pick(127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 800, 1024, 1025, 2049), 1
		q = r.Range(1, 6)
	}
	c.Cfg["p"], c.Cfg["q"] = p, q
	if ng == 2 {
		p2, q2, h2 := pickDims(r)
		if h2 > 0 {
			p2, q2 = r.Range(1, 8), r.Range(1, 8)
		}
		c.Cfg["p2"], c.Cfg["q2"] = p2, q2
	}
	for g := 0; g < ng; g++ {
		gp, gq := p, q
		if g == 1 {
			gp, gq = c.Cfg["p2"], c.Cfg["q2"]
		}
		initGroup(r, c, g, gp, gq, true)
	}
	nt := r.Pick(1, 1, 2, 2, 3)
	lim := 30
	if heavy == 1 {
		lim = 14
	} else if heavy == 2 {
		lim = 6
	}
	for t := 0; t < nt; t++ {
		var l []Op
		for k := r.Range(3, lim); k > 0; k-- {
			l = append(l, Op{K: ops[r.Intn(len(ops))], A: []int{r.Intn(12), r.Intn(1 << 16), 0, r.Intn(2)}, S: r.U64()})
		}
		if r.Chance(0.4) && heavy < 2 {
			l = echo(r, l, heavy == 0)
		}
		c.Tasks = append(c.Tasks, l)
	}
	_ = decs
}

// echo lets requests come back to the same object with the same arguments after
// it has changed, so that nothing remembered about it goes unnoticed.
func echo(r *Rng, l []Op, small bool) []Op {
	changes := map[bool][]string{false: matSet, true: vecSet}
	again := map[string]bool{}
	for _, k := range cat(matNew, matQuery, vecNew, vecQuery) {
		again[k] = true
	}
	isV := map[string]bool{}
	for _, k := range cat(vecNew, vecQuery) {
		isV[k] = true
	}
	var out []Op
	pin := 0
	for _, o := range l {
		if !again[o.K] || !r.Chance(0.2) || pin >= 4 {
			out = append(out, o)
			continue
		}
		pin++
		tie := func(o Op) Op {
			a := make([]int, pinArg+1)
			copy(a, o.A)
			a[pinArg] = pin
			o.A = a
			return o
		}
		o = tie(o)
		out = append(out, o)
		for k := r.Range(1, 2); k > 0; k-- {
			ch := changes[isV[o.K]]
			m := Op{K: ch[r.Intn(len(ch))], A: o.A, S: r.U64()}
			if r.Chance(0.25) {
				m.K = map[bool]string{false: "Sly", true: "VSly"}[isV[o.K]]
			}
			out = append(out, tie(m))
			if small && r.Chance(0.01) { // changed very often: more than a small counter holds
				ks := []string{"SetEntry", "AddToEntry", "SetRow"}
				if isV[o.K] {
					ks = []string{"VSetEntry", "VAddToEntry", "VSetEntry"}
				}
				m.K = ks[r.Intn(3)]
				for n := r.Pick(16, 32, 64, 128, 256, 256, 256, 256, 257) - 1; n > 0; n-- {
					m.S = r.U64()
					out = append(out, tie(m))
				}
				small = false
			}
			out = append(out, tie(o))
		}
	}
	return out
}

func logN(r *Rng, hi float64) int { return int(math.Exp(r.F() * math.Log(hi))) }

func genFaults(c *Case, r *Rng, rate float64, retry bool) {
	for t := range c.Tasks {
		var l []Op
		for _, o := range c.Tasks[t] {
			if o.K != "Bad" && !(len(o.K) > 4 && o.K[:4] == "View") && o.K != "PokeSlice" && o.K != "mutIn" && o.K != "badNew" && r.Chance(rate) {
				f := o
				f.A = append([]int{}, o.A...)
				f.F = &Fault{Kind: "panic", N: logN(r, 60)}
				switch {
				case r.Chance(0.4):
					f.F.Kind = "kill"
				case r.Chance(0.25):
					f.F.Kind = "reenter"
				}
				l = append(l, f)
				if retry {
					g := o
					g.A = append([]int{}, o.A...)
					g.F = &Fault{Kind: "none"}
					l = append(l, g)
				}
				continue
			}
			l = append(l, o)
		}
		c.Tasks[t] = l
	}
}

// genReenter lets caller code that the library calls ask the library in turn.
func genReenter(c *Case, r *Rng) {
	if !r.Chance(0.15) {
		return
	}
	for t := range c.Tasks {
		for k := range c.Tasks[t] {
			if r.Chance(0.4) {
				c.Tasks[t][k].F = &Fault{Kind: "reenter", N: logN(r, 60)}
			}
		}
	}
}

func genDecCase(c *Case, r *Rng, kinds []string, faults bool) {
	nd := r.Pick(1, 1, 1, 1, 2)
	big := false
	for k := 0; k < nd; k++ {
		kind := kinds[r.Intn(len(kinds))]
		m, n := r.Range(1, 7), r.Range(1, 7)
		switch x := r.F(); {
		case x < 0.12:
			m, n = r.Range(6, 14), r.Range(3, 14)
		case x < 0.145:
			m, n = r.Range(17, 30), r.Range(10, 30)
			big = true
		case x < 0.1465:
			m, n = r.Range(31, 50), r.Range(24, 50)
			big = true
		case x < 0.149, x < 0.155 && (kind == "lu" || kind == "chol" || kind == "qr" || kind == "rrqr" || kind == "tri" || kind == "eig"):
			m, n = r.Range(51, 56), r.Range(50, 54)
			big = true
		case x < 0.157: // factors with more than 4096 entries
			m, n = r.Range(65, 70), r.Range(64, 67)
			big = true
		}
		if k > 0 && r.Chance(0.5) {
			m, n = r.Range(1, 4), r.Range(1, 4)
		}
		pre := 0
		if r.Chance(0.5) {
			pre = 1
		}
		o := Op{K: "dec:" + kind, A: []int{r.Intn(60), m, n, r.Intn(4), pre}, S: r.U64()}
		if k > 0 && r.Chance(0.25) { // a relative of an earlier one
			was := c.Init[r.Intn(k)]
			o.K, o.S = was.K, was.S
			o.A = []int{was.A[0], was.A[1], was.A[2], o.A[3], pre, 0, 0, 0, 0, r.Range(1, 6)}
		}
		c.Init = append(c.Init, o)
	}
	kins := r.Chance(0.3)
	if r.Chance(0.25) {
		c.Cfg["mut"] = 1
	}
	nt := r.Pick(1, 2, 2, 2, 3, 3, 4)
	lim := 8
	if big {
		lim = 4
	}
	var only []string
	if !big && r.Chance(0.03) { // crowds, and the same few queries very often
		if r.Chance(0.6) {
			nt, lim = r.Range(5, 20), 2
		} else {
			nt, lim = r.Range(1, 2), 80
			qs := decQueries[c.Init[0].K[4:]]
			only = []string{qs[r.Intn(len(qs))], qs[r.Intn(len(qs))]}
		}
	}
	for t := 0; t < nt; t++ {
		var l []Op
		for k := r.Range(1, lim); k > 0; k-- {
			di := r.Intn(nd)
			kind := c.Init[di].K[4:]
			qs := decQueries[kind]
			if only != nil && di == 0 {
				qs = only
			}
			q := qs[r.Intn(len(qs))]
			cols := r.Range(1, 3)
			if r.Chance(0.04) {
				cols = r.Pick(7, 8, 9, 15, 16, 17, 31, 32, 33, 51, 52, 53, 54, 60, 63, 64, 65, 104, 105, 128)
			}
			mode := 0
			if r.Chance(0.35) {
				mode = 1
			} else if r.Chance(0.1) {
				mode = 2
			}
			sh := 0
			if r.Chance(0.4) {
				sh = 1
			}
			mut := 0
			if r.Chance(0.3) {
				mut = 1
			}
			o := Op{K: q, A: []int{r.Intn(4), cols, di, mode, sh, mut}, S: r.U64() % 251}
			if kins { // relatives of two right-hand sides
				o.A[0], o.A[1] = o.A[0]&1, cols%2+1
				o.S = r.U64()%2 | uint64(r.Intn(7))<<48
			}
			switch {
			case r.Chance(0.04):
				o.K = "badNew"
				o.S = r.U64()
			case r.Chance(0.05):
				o.K = "new:" + q
			case c.Cfg["mut"] == 1 && r.Chance(0.2):
				o.K = "mutIn"
				o.S = r.U64()
			}
			if faults && r.Chance(0.3) && (q == "SolveM" || q == "SolveV") {
				o.F = &Fault{Kind: []string{"panic", "kill", "reenter"}[r.Intn(3)], N: logN(r, 40)}
			}
			l = append(l, o)
		}
		c.Tasks = append(c.Tasks, l)
	}
}

func genCase(prop string, seed uint64) *Case {
	c, r := newCase(prop, seed)
	sched := true
	switch prop {
	case "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C15", "C16", "C18":
		if r.Chance(0.12) {
			c.Cfg["odd"] = r.Pick(3, 10, 30)
		}
	}
	if coldGen {
		c.Cfg["cold"] = 1
	}
	switch prop {
	case "C01":
		genHist(c, r, swarm(r, cat(matNew, matQuery, matSet, matQuery)), false)
		genReenter(c, r)
	case "C02":
		genHist(c, r, swarm(r, cat(vecNew, vecQuery, vecSet)), false)
		genReenter(c, r)
	case "C03":
		ops := swarm(r, cat(matNew, matQuery, matSet, vecNew, vecQuery, vecSet))
		ops = append(ops, "PokeSlice", "PokeSlice", "SetEntry", "VSetEntry", "Copy", "Query")
		if r.Chance(0.6) {
			ops = append(ops, "DecNew", "DecAsk", "DecAsk", "DecAsk", "DecAskAll")
		}
		genHist(c, r, ops, true)
	case "C18":
		ops := swarm(r, cat(matNew, matQuery, matSet, matSet, vecNew, vecQuery, vecSet, vecSet))
		for k := len(ops) / 3; k >= 0; k-- {
			ops = append(ops, "ViewNew", "ViewTake", "ViewPoke", "ViewPoke", "ViewParts")
			if k%3 == 0 {
				ops = append(ops, "Bad")
			}
		}
		if r.Chance(0.4) {
			ops = append(ops, "DecNew", "DecAsk", "DecAsk")
		}
		genHist(c, r, ops, true)
		if r.Chance(0.5) {
			genFaults(c, r, 0.2, true)
		}
	case "C04":
		ops := swarm(r, cat(matNew, matQuery, matSet, vecNew, vecQuery, vecSet))
		ops = cat(ops, []string{"DecNew", "DecAsk"})
		for k := len(ops); k > 0; k-- {
			ops = append(ops, "Bad")
		}
		genHist(c, r, ops, true)
	case "C05":
		if r.Chance(0.25) {
			genDecCase(c, r, []string{"lu", "chol", "qr", "rrqr", "eig", "svd"}, true)
			genFaults(c, r, 0.2, true)
		} else {
			ops := swarm(r, cat(matNew, matQuery, matSet, vecNew, vecQuery, vecSet, []string{"DecNew", "DecAsk", "DecAsk"}))
			genHist(c, r, ops, true)
			genFaults(c, r, 0.35, true)
		}
	case "C06":
		sched = false
		for k := r.Range(1, 3); k > 0; k-- {
			p, q, heavy := pickDims(r)
			if heavy == 2 && r.Chance(0.6) {
				p, q = r.Range(1, 6), r.Range(50, 54)
			}
			cls := r.Intn(3)
			if r.Chance(0.12) { // more than one block
				cls, p, q = clsBlk, r.Range(1, 4), r.Pick(52, 53, 54, 60, 103, 104, 105, 106)
				if r.Chance(0.5) {
					p, q = q, p
				}
			}
			c.Init = append(c.Init, Op{K: "m", A: []int{0, cls, p, q}, S: r.U64()})
		}
		for k := r.Range(0, 2); k > 0; k-- {
			cls := 0
			if r.Chance(0.1) {
				cls = 9
			}
			n := r.Range(1, 9)
			if r.Chance(0.03) {
				n = r.Range(40, 300)
			}
			c.Init = append(c.Init, Op{K: "v", A: []int{0, cls, n}, S: r.U64()})
		}
		nt := r.Range(1, 3)
		if r.Chance(0.02) {
			nt = r.Range(4, 40)
		}
		deep := r.Chance(0.03)
		for t := 0; t < nt; t++ {
			var l []Op
			for k := r.Range(1, 6); k > 0; k-- {
				if nt > 3 && k > 2 {
					continue
				}
				o := Op{K: "walk", A: []int{r.Intn(4), r.Intn(24), r.Pick(0, 1, 2, 3, 5, 8)}, S: r.U64()}
				if r.Chance(0.25) {
					o.K = "vwalk"
				} else if r.Chance(0.1) {
					o.K = "touch"
				}
				if deep {
					o.A = append(o.A, r.Pick(3, 6, 12, 20, 40))
				}
				l = append(l, o)
			}
			c.Tasks = append(c.Tasks, l)
		}
		c.Sched = r.U64()
		c.First = r.Intn(nt)
	case "C07":
		c.Cfg["ro"], c.Cfg["groups"], c.Cfg["reasons"] = 1, 1, 1
		p, q, heavy := pickDims(r)
		if heavy == 2 && r.Chance(0.5) {
			p, q = r.Range(1, 6), r.Range(1, 6)
			heavy = 0
		}
		c.Cfg["p"], c.Cfg["q"] = p, q
		initGroup(r, c, 0, p, q, true)
		ops := swarm(r, cat(matNew, matQuery, matQuery, vecNew, vecQuery, []string{"VEBEMultiply"}))
		if r.Chance(0.35) { // and requests that must be rejected
			for k := len(ops)/3 + 1; k > 0; k-- {
				ops = append(ops, "BadRead")
			}
		}
		nt := r.Range(2, 4)
		lim := 8
		if heavy == 0 && r.Chance(0.08) {
			// a few requests of few kinds, over and over: what one of them
			// leaves behind for the next is in use by all tasks
			all := cat(matNew[:6], matQuery, vecNew, vecQuery)
			k := r.Intn(2)
			ops = []string{matNew[k], matNew[k], matNew[k], "BadRead"}
			if r.Chance(0.5) {
				a := all[r.Intn(len(all))]
				ops = []string{a, a, all[r.Intn(len(all))]}
			}
			c.Cfg["few"], lim = 1, 16
			nt = r.Range(2, 3)
		}
		if heavy == 0 && r.Chance(0.03) { // a crowd
			nt, lim = r.Range(5, 20), 2
		}
		if heavy > 0 {
			lim = 4
		}
		for t := 0; t < nt; t++ {
			var l []Op
			for k := r.Range(1, lim); k > 0; k-- {
				l = append(l, Op{K: ops[r.Intn(len(ops))], A: []int{r.Intn(12), r.Intn(1 << 16)}, S: r.U64()})
				if o := &l[len(l)-1]; o.K == "BadRead" && c.Cfg["few"] == 1 && r.Chance(0.8) { // the same kind
					o.A[1] = 3 * (4*r.Intn(1<<12) + indexOf(matNew[:2], ops[0]))
				}
			}
			c.Tasks = append(c.Tasks, l)
		}
		genReenter(c, r)
	case "C08":
		genDecCase(c, r, []string{"lu"}, r.Chance(0.3))
	case "C09":
		genDecCase(c, r, []string{"chol", "chol", "rchol"}, r.Chance(0.3))
	case "C10":
		genDecCase(c, r, []string{"qr", "rrqr"}, r.Chance(0.3))
	case "C11":
		genDecCase(c, r, []string{"eig", "eig", "eig", "eigtri"}, r.Chance(0.3))
	case "C12":
		genDecCase(c, r, []string{"svd"}, r.Chance(0.3))
	case "C13":
		genDecCase(c, r, []string{"schur", "hess", "tri", "bi"}, false)
	case "C14":
		for k := r.Range(0, 2); k > 0; k-- {
			kind := allKinds[r.Intn(len(allKinds))]
			c.Init = append(c.Init, Op{K: "dec:" + kind, A: []int{r.Intn(60), r.Range(1, 7), r.Range(1, 7), r.Intn(4), r.Intn(8)}, S: r.U64()})
		}
		nt := r.Range(1, 3)
		for t := 0; t < nt; t++ {
			var l []Op
			for k := r.Range(1, 6); k > 0; k-- {
				o := Op{S: r.U64()}
				d1, d2 := r.Range(1, 7), r.Range(1, 7)
				if r.Chance(0.1) {
					d1, d2 = r.Range(6, 13), r.Range(4, 13)
				}
				switch x := r.F(); {
				case x < 0.35:
					o.K, o.A = "build", []int{r.Intn(60), d1, d2, r.Intn(4), r.Intn(8), r.Intn(len(allKinds))}
				case x < 0.7:
					o.K, o.A = "ask", []int{r.Intn(4), r.Range(1, 3), r.Intn(4), r.Intn(24)}
				case x < 0.88:
					if r.Chance(0.1) {
						d1, d2 = r.Range(50, 54), r.Range(1, 54)
					}
					o.K, o.A = "mat", []int{0, d1, d2, r.Intn(3), r.Intn(8)}
				case x < 0.95:
					o.K, o.A = "walk", []int{r.Intn(4)}
				default:
					o.K, o.A = "rebuild", []int{r.Intn(4), 0, 0, 0, 0, r.Intn(len(allKinds))}
				}
				if (o.K == "ask" || o.K == "build" || o.K == "walk") && r.Chance(0.12) {
					o.F = &Fault{Kind: []string{"panic", "kill", "reenter"}[r.Intn(3)], N: logN(r, 40)}
				}
				l = append(l, o)
			}
			c.Tasks = append(c.Tasks, l)
		}
	case "C15", "C17":
		nt := r.Range(2, 4)
		c.Cfg["own"], c.Cfg["groups"] = 1, nt
		p, q, heavy := pickDims(r)
		if heavy == 2 && r.Chance(0.7) {
			p, q, heavy = r.Range(1, 6), r.Range(1, 6), 0
		}
		c.Cfg["p"], c.Cfg["q"] = p, q
		if r.Chance(0.5) {
			c.Cfg["p2"], c.Cfg["q2"] = r.Range(1, 6), r.Range(1, 6)
		}
		ops := swarm(r, cat(matNew, matQuery, matSet, vecNew, vecQuery, vecSet))
		ops = append(ops, "DecNew", "DecNew", "DecAsk", "DecAsk", "DecAsk")
		if r.Chance(0.3) {
			ops = append(ops, "Bad")
		}
		if prop == "C17" {
			c.Cfg["reasons"] = 1
			for k := 2 * len(ops); k > 0; k-- {
				ops = append(ops, "Bad")
			}
		}
		lim := 14
		if heavy > 0 {
			lim = 5
		} else if r.Chance(0.03) {
			if r.Chance(0.5) { // a crowd
				nt, lim = r.Range(5, 20), 3
				c.Cfg["groups"] = nt
			} else if prop == "C17" { // rejections over and over, all of them kept
				nt, lim = r.Range(1, 2), 160
				c.Cfg["keep"], c.Cfg["groups"] = 400, nt
				ops = append(ops[:1:1], "Bad", "Bad", "Bad", "Bad", "Bad", "Bad", "Bad", "Bad")
			}
		}
		if heavy == 0 && c.Cfg["keep"] == 0 && r.Chance(0.3) {
			// everybody does the same to data of his own
			c.Cfg["alike"] = r.Range(1, 1000)
			one := ops[0]
			ops = []string{"DecAsk", "DecAsk", "DecAsk", "DecAsk", "DecNew", one}
			if prop == "C17" {
				ops = append(ops, "Bad", "Bad", "Bad")
			}
			if r.Chance(0.5) {
				lim = 5
			}
		}
		for t := 0; t < nt; t++ {
			gp, gq := p, q
			if t%2 == 1 && c.Cfg["p2"] > 0 {
				gp, gq = c.Cfg["p2"], c.Cfg["q2"]
			}
			initGroup(r, c, t, gp, gq, false)
			var l []Op
			if c.Cfg["alike"] > 0 || r.Chance(0.5) {
				l = append(l, Op{K: "DecNew", A: []int{r.Intn(4)}, S: r.U64()})
			}
			for k := r.Range(2, lim); k > 0; k-- {
				l = append(l, Op{K: ops[r.Intn(len(ops))], A: []int{r.Intn(12), r.Intn(1 << 16)}, S: r.U64()})
			}
			c.Tasks = append(c.Tasks, l)
		}
	case "C19":
		genPure(c, r)
	case "C16":
		if r.Chance(0.3) {
			c.Cfg["shared"] = 1
		}
		for k := r.Range(1, 2); k > 0; k-- {
			n := r.Range(0, 6)
			if r.Chance(0.1) {
				n = r.Range(10, 60)
				if r.Chance(0.1) {
					n = r.Range(60, 600)
				}
			}
			cls := clsArr
			if r.Chance(0.15) {
				cls = clsFor
			}
			c.Init = append(c.Init, Op{K: "v", A: []int{0, cls, n}, S: r.U64()})
		}
		nt := r.Range(1, 3)
		if r.Chance(0.03) {
			c.Cfg["alive"] = r.Pick(10, 20, 40, 70, 140, 300)
			nt = r.Range(1, 2)
		}
		names := []string{"newIter", "next", "next", "next", "next", "hasNext", "hasNext", "change", "change", "drain", "use"}
		for t := 0; t < nt; t++ {
			l := []Op{{K: "newIter", A: []int{r.Intn(4), 0}, S: r.U64()}}
			for k := c.Cfg["alive"]; k > 0; k-- { // very many iterators at once
				l = append(l, Op{K: "newIter", A: []int{r.Intn(4), 0}, S: r.U64()})
				if r.Chance(0.3) {
					l = append(l, Op{K: "next", A: []int{r.Intn(4), r.Intn(k + 1)}, S: r.U64()})
				}
			}
			for k := r.Range(3, 40); k > 0; k-- {
				l = append(l, Op{K: names[r.Intn(len(names))], A: []int{r.Intn(4), r.Intn(6 + c.Cfg["alive"])}, S: r.U64()})
			}
			c.Tasks = append(c.Tasks, l)
		}
	default:
		bugf("no generator for %s", prop)
	}
	if concurrent[prop] {
		twins(c, r)
	}
	if concurrent[prop] && sched && len(c.Tasks) > 1 && r.Chance(0.4) {
		// preemptions at random, or in turn, dense enough to fall between any
		// two statements
		sched = false
		c.Cfg["gap"] = r.Pick(1, 1, 2, 2, 3, 5, 10, 30, 100)
		if r.Chance(0.4) {
			c.Cfg["gap"] = -r.Pick(1, 1, 2, 3, 5, 17)
			if r.Chance(0.7) {
				c.Cfg["meet"] = 1
			}
		}
		c.Sched = r.U64()
		c.First = r.Intn(len(c.Tasks))
	}
	if sched {
		var est [][]int64
		if c.Cfg["cold"] == 0 && len(c.Tasks) > 1 && r.Chance(0.75) {
			est = estimate(c)
		}
		genSchedule(r, c, est)
	}
	genEnvironment(NewRng(mix(seed, 0xE27)), c)
	return c
}

// genEnvironment has the runtime collect garbage or change the number of
// processors before some of the operations of a few runs.
func genEnvironment(r *Rng, c *Case) {
	if !r.Chance(0.025) {
		return
	}
	n := 0
	for _, l := range c.Tasks {
		n += len(l)
	}
	rate := math.Min(0.5, 4/float64(n+1))
	procs := r.Chance(0.5)
	for _, l := range c.Tasks {
		for i := range l {
			if r.Chance(rate) {
				l[i].E = -1
				if procs && r.Chance(0.7) {
					l[i].E = r.Pick(1, 2, 3, 4, 5, 8)
				}
			}
		}
	}
}

// genPure makes a history of requests, most of them asked several times.
func genPure(c *Case, r *Rng) {
	kinds := append([]string{"mat", "mat", "mat"}, allKinds...)
	ns := r.Pick(1, 1, 1, 2, 3, 4)
	one := kinds[r.Intn(len(kinds))]
	p, q, heavy := pickDims(r)
	if heavy == 2 && r.Chance(0.5) {
		p, q, heavy = r.Range(1, 9), r.Range(1, 9), 0
	}
	for k := 0; k < ns; k++ {
		kind := kinds[r.Intn(len(kinds))]
		if r.Chance(0.4) {
			kind = one
		}
		m, n := r.Range(1, 8), r.Range(1, 8)
		if kind == "mat" {
			m, n = p, q
		} else if r.Chance(0.08) {
			m, n = r.Range(8, 20), r.Range(8, 20)
		} else if r.Chance(0.004) {
			m, n = r.Range(50, 54), r.Range(50, 54)
			if r.Chance(0.2) {
				m, n = r.Range(65, 67), r.Range(64, 66)
			}
			heavy = 2
		}
		dmg := 0
		if r.Chance(0.2) {
			dmg = r.Range(1, 7)
		}
		o := Op{K: "p:" + kind, A: []int{r.Intn(60), m, n, r.Intn(4), dmg, r.Intn(2)}, S: r.U64()}
		if k > 0 && r.Chance(0.3) { // a relative of an earlier one
			was := c.Init[r.Intn(k)]
			o.K, o.S = was.K, was.S
			o.A = append(append([]int{}, was.A[:6]...), 0, 0, 0, r.Intn(7))
		}
		c.Init = append(c.Init, o)
	}
	kins := r.Chance(0.3)
	nt := r.Pick(1, 2, 2, 3)
	lim := 20
	if ns > 1 {
		lim = 12
	}
	if heavy > 0 {
		lim = 4
	}
	for t := 0; t < nt; t++ {
		var l []Op
		for k := r.Range(2, lim); k > 0; k-- {
			if len(l) > 0 && r.Chance(0.35) { // again, perhaps of another object
				o := l[r.Intn(len(l))]
				if len(o.K) < 5 {
					o.A = append([]int{}, o.A...)
					o.A[4] = r.Intn(7)
					if kins {
						o.S = o.S&(1<<48-1) | uint64(r.Intn(7))<<48
						o.A[2] = r.Intn(ns)
					}
					l = append(l, o)
					continue
				}
			}
			if r.Chance(0.2) {
				d1, d2 := r.Range(1, 8), r.Range(1, 8)
				o := Op{K: "noise-build", A: []int{r.Intn(60), d1, d2, r.Intn(4), r.Intn(8), r.Intn(len(allKinds))}, S: r.U64()}
				if r.Chance(0.5) {
					o.K, o.A = "noise-mat", []int{0, d1, d2, r.Intn(3), r.Intn(8)}
				} else if r.Chance(0.3) {
					o.F = &Fault{Kind: []string{"panic", "kill", "reenter"}[r.Intn(3)], N: logN(r, 40)}
				}
				l = append(l, o)
				continue
			}
			l = append(l, Op{K: "ask", A: []int{r.Intn(4), r.Intn(3), r.Intn(ns), 0, r.Intn(7), r.Intn(6), r.Intn(64)}, S: r.U64()})
			if r.Chance(0.06) {
				l[len(l)-1].F = &Fault{Kind: []string{"panic", "kill", "reenter"}[r.Intn(3)], N: logN(r, 40)}
			}
		}
		c.Tasks = append(c.Tasks, l)
	}
}

// twins makes the tasks of some cases do the same things at the same time,
// where anything they unduly share is most likely to be in use by several.
func twins(c *Case, r *Rng) {
	if len(c.Tasks) < 2 || !r.Chance(0.45) {
		return
	}
	src := c.Tasks[r.Intn(len(c.Tasks))]
	if c.Cfg["own"] == 1 && r.Chance(0.7) { // objects of the same shapes, too
		var in []Op
		for t := range c.Tasks {
			for _, o := range c.Init {
				if o.Arg(0) == 0 {
					o.A = append([]int{t}, o.A[1:]...)
					if r.Chance(0.7) {
						o.S = r.U64()
					}
					in = append(in, o)
				}
			}
		}
		c.Init = in
		c.Cfg["p2"], c.Cfg["q2"] = 0, 0
		src = c.Tasks[0]
	}
	if r.Chance(0.3) && len(src) > 0 { // one operation, again and again
		o := src[r.Intn(len(src))]
		src = []Op{o, o}
	}
	for t := range c.Tasks {
		var l []Op
		if c.Cfg["own"] == 1 && len(c.Tasks[t]) > 0 && c.Tasks[t][0].K == "DecNew" && (len(src) == 0 || src[0].K != "DecNew") {
			l = append(l, c.Tasks[t][0])
		}
		for _, o := range src {
			o.A = append([]int{}, o.A...)
			if r.Chance(0.5) {
				o.S = r.U64()
				if c.Prop != "C07" && c.Prop != "C15" && c.Prop != "C16" && c.Prop != "C17" {
					o.S %= 251
				}
			}
			if r.Chance(0.15) && len(o.A) > 0 {
				o.A[0] = r.Intn(12)
			}
			l = append(l, o)
		}
		c.Tasks[t] = l
	}
}

// estimate runs every task alone on objects of its own world and returns the
// steps of each operation, so that preemptions can be placed inside them.
func estimate(c *Case) [][]int64 {
	var est [][]int64
	for i := range c.Tasks {
		t := newT(i)
		s := newT(-1)
		w := newWorld(c, s)
		if s.viol != nil {
			return nil
		}
		est = append(est, soloOps(t, c.Tasks[i], w, histBudget))
	}
	return est
}

const histBudget = 150_000_000

func newWorld(c *Case, t *T) World {
	if len(c.Init) > 0 && len(c.Init[0].K) > 4 && c.Init[0].K[:4] == "dec:" && c.Prop != "C14" {
		return newDWorld(c, t)
	}
	switch c.Prop {
	case "C06":
		return newWWorld(c, t)
	case "C14":
		return newBWorld(c, t)
	case "C16":
		return newIWorld(c, t)
	case "C19":
		return newPWorld(c, t)
	case "C05":
		if _, ok := c.Cfg["groups"]; !ok {
			return newDWorld(c, t)
		}
	case "C08", "C09", "C10", "C11", "C12", "C13":
		return newDWorld(c, t)
	}
	return newHWorld(c, t)
}

// runCase executes one case.
func runCase(c *Case) *Result {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	t := newT(-2)
	w := newWorld(c, t)
	if t.viol != nil {
		return &Result{V: t.viol, Count: t.count, Log: t.log, State: t.state}
	}
	res := Execute(c, w, histBudget)
	for k, v := range t.count {
		res.Count[k] += v
	}
	return res
}
