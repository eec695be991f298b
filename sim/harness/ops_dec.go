package main

import (
	"github.com/jtejido/linear"
	simrt "verifsimrt"
)

// DObj is a decomposition living in a history. Its answers must stay those of
// the data it was built from.
type DObj struct {
	in   *DecIn
	obj  interface{}
	sol  linear.DecompositionSolver
	memo map[string]Ans
	kept []keptAns
}

// keptAns is an answer which the caller still holds.
type keptAns struct {
	what string
	got  interface{}
	ans  Ans
}

func (d *DObj) want(x *X, op *Op) Ans {
	k := sv(op.K, op.A, op.S)
	if a, ok := d.memo[k]; ok {
		return a
	}
	var ans Ans
	q := &QC{op: op, h: &Hook{}}
	out := x.t.call(nil, func() {
		o, err := buildDec(d.in, must(linear.NewArray2DRowRealMatrixFromSlices(d.in.a.slices(), true)))
		if err != nil {
			panic(err)
		}
		ans = ask(o, d.in, op.K, q)
	})
	if out.Kind != "ok" {
		ans = Ans{Rej: true, Why: out.Val}
	}
	d.memo[k] = ans
	return ans
}

// query asks the living object and compares.
func (d *DObj) query(x *X, op *Op, what string) {
	var ans Ans
	q := &QC{op: op, h: x.h, mut: op.Arg(5) == 1}
	if op.Arg(4) == 1 {
		q.sol = d.sol
	}
	x.reenter(execOpt{})
	x.t.beginExec()
	x.out = x.t.call(op.F, func() { ans = ask(d.obj, d.in, op.K, q) })
	x.t.endExec()
	x.what = what + d.in.kind + "." + op.K
	x.note(x.what)
	switch x.out.Kind {
	case "budget":
		x.t.fail("unbounded:"+x.what, "%s did not finish", x.what)
		return
	case "deadlock":
		if simrt.Cur() < 0 {
			x.t.fail("deadlock", "%s blocks for ever", x.what)
		}
		return
	case "kill":
		return
	case "panic":
		if x.h.fired {
			return
		}
		ans = Ans{Rej: true, Why: x.out.Val}
	}
	if x.h != nil {
		x.h.f = nil
	}
	if q.rhsM != nil {
		x.sameM(x.what, q.rhsM)
	}
	if q.rhsV != nil {
		x.sameV(x.what, q.rhsV)
	}
	// the reference takes its right-hand side from the same kind of object:
	// the library may add up in another order for another storage
	wa := append([]int{}, op.A[:min(len(op.A), 3)]...)
	if op.F != nil && len(wa) > 0 {
		wa[0] = clsFor
	}
	for _, k := range d.kept {
		if !stillAns(k.got, k.ans) {
			x.t.fail("answer-changed:"+k.what, "the answer of %s was %v and was changed by a later %s", k.what, k.ans, x.what)
			return
		}
	}
	if q.got != nil {
		if k := (keptAns{x.what, q.got, ans}); len(d.kept) < 6 {
			d.kept = append(d.kept, k)
		} else {
			d.kept[int(op.S)%6] = k
		}
	}
	want := d.want(x, &Op{K: op.K, A: wa, S: op.S})
	if !sameAns(ans, want) {
		x.t.fail("answer-differs:"+d.in.kind+"."+op.K, "%s answered %v; for the data it was built from it must answer %v", x.what, ans, want)
	}
	hashAns(x.t, ans)
}

func (d *DObj) check(x *X) {
	for _, q := range decQueries[d.in.kind] {
		if x.t.viol != nil {
			return
		}
		d.query(x, &Op{K: q, A: []int{0, 2, 0}, S: 5}, "finally ")
	}
}

func init() {
	histOps["DecNew"] = func(x *X) {
		o := x.anyM()
		if o == nil || o.d.R > 10 || o.d.C > 10 || !o.d.fin() {
			return
		}
		kinds := []string{"qr", "rrqr", "svd", "bi"}
		if o.d.R == o.d.C {
			kinds = append(kinds, "lu", "lu", "hess", "schur", "eig")
			if isSymDM(o.d) {
				kinds = append(kinds, "tri", "chol", "eig", "eigtri")
			}
		}
		in := &DecIn{kind: kinds[x.r.Intn(len(kinds))], a: o.d.clone(), thr: -1}
		if x.r.Chance(0.12) {
			// from the slices of a tridiagonal matrix, not from a matrix
			in.kind = "eigtri"
			in.a = genTridiagonal(x.r, x.r.Range(1, 6), x.r.Intn(5))
		}
		if in.a.maxAbs() == 0 {
			return
		}
		if in.kind == "eigtri" {
			n := in.a.R
			for i := 0; i < n; i++ {
				in.main = append(in.main, in.a.at(i, i))
				if i > 0 {
					in.sec = append(in.sec, in.a.at(i, i-1))
				}
			}
			mn, sc := x.spare(append([]float64{}, in.main...)), x.spare(append([]float64{}, in.sec...))
			x.keepS(&SObj{s1: mn, d1: append([]float64{}, in.main...), note: "diagonal handed to NewEigenDecompositionFromTridiagonal"})
			if len(sc) > 0 {
				x.keepS(&SObj{s1: sc, d1: append([]float64{}, in.sec...), note: "secondary diagonal handed to NewEigenDecompositionFromTridiagonal"})
			}
			in.giveMain, in.giveSec = mn, sc
		}
		m := o.m
		if x.w.alike != 0 || x.r.Chance(0.15) {
			// data made for the decomposition, not what the history came to
			ks := []string{"chol", "lu", "qr", "rchol", "rrqr", "svd", "eig", "schur", "tri", "bi", "hess"}
			k := ks[x.r.Intn(len(ks))]
			if x.w.alike != 0 {
				k = ks[(x.w.alike-1)%len(ks)]
			}
			n := x.r.Range(1, 6)
			fl := 1000 + x.r.Intn(12)
			if x.w.alike != 0 && x.r.Chance(0.5) {
				n = x.w.alike%5 + 2
			}
			from := &Op{A: []int{fl, n, n, 0, 0, 0, 0, 0, 0, 0}, S: x.r.U64()}
			if x.w.alike != 0 && x.r.Chance(0.6) {
				// almost the same data as everybody's
				n = x.w.alike%4 + 2
				from.A[0], from.A[1], from.A[2], from.A[relArg] = 1000+x.w.alike%12, n, n, x.r.Intn(7)
				from.S = uint64(x.w.alike)
			}
			in = genDec(k, from)
			m = x.mkMat(in.a).m
			o = &MObj{m: m, d: in.a.clone()}
		}
		var obj interface{}
		var err error
		if x.op.F != nil {
			m = &FMat{D: o.d.clone(), H: x.h}
		}
		if !x.exec("new "+in.kind, func() { obj, err = buildDec(in, m) }, execOpt{mayReject: true}) {
			return
		}
		in.giveMain, in.giveSec = nil, nil
		if err != nil {
			x.t.inc("rejected-by-decomposition")
			return
		}
		d := &DObj{in: in, obj: obj, memo: map[string]Ans{}}
		if s, ok := obj.(solverer); ok && x.r.Chance(0.6) {
			x.t.call(nil, func() { d.sol = s.Solver() })
		}
		if len(x.g.ds) < 3 {
			x.g.ds = append(x.g.ds, d)
		} else {
			x.g.ds[x.r.Intn(3)] = d
		}
	}
	histOps["DecAsk"] = func(x *X) {
		if len(x.g.ds) == 0 {
			return
		}
		d := x.g.ds[abs(x.op.Arg(0))%len(x.g.ds)]
		qs := decQueries[d.in.kind]
		name := qs[x.r.Intn(len(qs))]
		if x.w.alike != 0 && x.r.Chance(0.8) {
			// the same question put by everybody
			name = qs[(x.w.alike/11)%len(qs)]
			if hasQuery(d.in.kind, "SolveV") && x.w.alike%3 > 0 {
				name = []string{"SolveM", "SolveV"}[x.w.alike/3%2]
			}
		}
		if x.op.F != nil && hasQuery(d.in.kind, "SolveM") {
			name = []string{"SolveM", "SolveV"}[x.r.Intn(2)]
		}
		mut := 0
		if x.r.Chance(0.5) {
			mut = 1
		}
		us := 0
		if x.r.Chance(0.5) {
			us = 1
		}
		seed := x.r.U64() % 97
		if x.r.Chance(0.3) { // relatives of a few right-hand sides
			seed = seed%2 | uint64(x.r.Intn(7))<<48
		}
		d.query(x, &Op{K: name, A: []int{x.r.Intn(4), x.r.Range(1, 3), 0, 0, us, mut}, S: seed, F: x.op.F}, "")
	}
	// repeated asking of one decomposition while it is the caller's only use
	histOps["DecAskAll"] = func(x *X) {
		if len(x.g.ds) == 0 {
			return
		}
		d := x.g.ds[abs(x.op.Arg(0))%len(x.g.ds)]
		if x.op.F != nil {
			return
		}
		d.check(x)
	}
}
