package main

import (
	"math"
	"strings"

	"github.com/jtejido/linear"
	simrt "verifsimrt"
)

// PWorld: an answer is a function of the request. The same request, put at any
// time, by any task, to a shared object, to a fresh one or to one that came to
// its content by another way, gets the same answer, bit for bit. Data is real
// valued and may be damaged: no answer is judged by its accuracy.
type PWorld struct {
	specs []*pspec
	recs  [][]prec
}

type pspec struct {
	kind string
	in   *DecIn
	cls  int
	m    linear.RealMatrix // shared
	obj  interface{}       // shared, nil if the constructor rejected it
	sol  linear.DecompositionSolver
	ans  Ans // of the constructor
}

type prec struct {
	key  string
	redo func() Ans // puts the request to fresh objects
	ans  Ans
	what string
	n    int
}

// pureIn makes the data of a specification.
func pureIn(o *Op) (*DecIn, int) {
	kind := o.K[2:]
	r := NewRng(o.S ^ 0x9E37)
	gk := kind
	if kind == "mat" {
		gk = []string{"lu", "qr", "bi", "tri"}[r.Intn(4)]
	}
	var in *DecIn
	if o.Arg(4) > 0 {
		in, _ = damagedIn(o, gk)
	} else {
		plain := *o
		plain.A = append([]int{}, o.A[:min(len(o.A), relArg)]...)
		g := genDec(gk, &plain)
		in = &DecIn{kind: gk, a: g.a.clone(), thr: g.thr, symTol: g.symTol, main: g.main, sec: g.sec}
		if r.Chance(0.75) && gk != "eigtri" {
			sym := isSymDM(in.a)
			s := math.Pow(10, -float64(r.Intn(15))) * math.Max(in.a.maxAbs(), 1e-3)
			for i := 0; i < in.a.R; i++ {
				for j := 0; j < in.a.C; j++ {
					if sym && j < i {
						in.a.set(i, j, in.a.at(j, i))
					} else {
						in.a.set(i, j, in.a.at(i, j)+s*r.Norm())
					}
				}
			}
		}
	}
	if rel := o.Arg(relArg); rel > 0 && o.Arg(4) == 0 {
		in.a = relative(in.a, gk, rel)
		if gk == "eigtri" {
			for i := range in.main {
				in.main[i] = in.a.at(i, i)
				if i > 0 {
					in.sec[i-1] = in.a.at(i, i-1)
				}
			}
		}
	}
	in.kind = kind
	cls := abs(o.Arg(3)) % 4
	if cls == clsDiag {
		if kind == "mat" && in.a.R == in.a.C {
			for i := 0; i < in.a.R; i++ {
				for j := 0; j < in.a.C; j++ {
					if i != j {
						in.a.set(i, j, 0)
					}
				}
			}
		} else {
			cls = clsArr
		}
	}
	return in, cls
}

// veteran builds an object with the given content that has been through changes.
func veteran(r *Rng, cls int, d *DM, decompose func(m linear.RealMatrix)) linear.RealMatrix {
	o := intDM(r, d.R, d.C, cls == clsDiag)
	edit := r.Chance(0.3) // only one entry was another one
	ei, ej := r.Intn(d.R), r.Intn(d.C)
	if cls == clsDiag {
		ej = ei
	}
	if edit {
		x := o.at(ei, ej)
		if o = d.clone(); x == o.at(ei, ej) {
			x++
		}
		o.set(ei, ej, x)
	} else if cls != clsDiag && d.R == d.C && r.Chance(0.3) {
		for i := 0; i < d.R; i++ {
			for j := 0; j < i; j++ {
				o.set(i, j, o.at(j, i))
			}
		}
	}
	m := buildMat(r, cls, o)
	if r.Chance(0.5) { // used before
		asked(func() Ans { return matAsk(r.Intn(pureMatOps), m, nil, r) })
	}
	if decompose != nil && r.Chance(0.6) { // and decomposed before
		decompose(m)
	}
	if edit {
		m.SetEntry(ei, ej, d.at(ei, ej))
		return m
	}
	switch k := r.Intn(5); {
	case cls == clsFor || cls == clsDiag || k == 0:
		for n := 0; n < 2; n++ {
			for i := 0; i < d.R; i++ {
				for j := 0; j < d.C; j++ {
					if cls != clsDiag || i == j {
						m.SetEntry(i, j, d.at(i, j))
					}
				}
			}
			if n == 0 && r.Chance(0.5) {
				m.MultiplyEntry(0, 0, 3)
			} else {
				break
			}
		}
	case k == 1:
		m.SetSubMatrix(d.slices(), 0, 0)
	case k == 2:
		for i := 0; i < d.R; i++ {
			m.SetRow(i, d.row(i))
		}
	case k == 3:
		for j := 0; j < d.C; j++ {
			m.SetColumnVector(j, buildVec(r, clsArr, d.col(j)))
		}
	default:
		m.WalkInUpdateOptimizedOrder(&funcVisitor{f: func(i, j int, x float64) float64 { return d.at(i, j) }})
	}
	return m
}

const pureMatOps = 30

// pureVec gives the vector operand of a request.
func pureVec(r *Rng, n int) (linear.RealVector, []float64) {
	d := make([]float64, n)
	for i := range d {
		d[i] = r.Norm()
	}
	if r.Chance(0.1) && n > 0 {
		d[r.Intn(n)] = damagedValue(r, 1)
	}
	return buildVec(r, r.Pick(clsArr, clsArr, clsFor), d), d
}

type sumVisitor struct{ s float64 }

func (v *sumVisitor) Start(rows, columns, startRow, endRow, startColumn, endColumn int) { v.s = 0 }
func (v *sumVisitor) Visit(row, column int, x float64) {
	v.s = v.s*0.75 + x
}
func (v *sumVisitor) End() float64 { return v.s }

// matAsk puts request k to m; r decides its other operands.
func matAsk(k int, m, other linear.RealMatrix, r *Rng) Ans {
	R, C := m.RowDimension(), m.ColumnDimension()
	num := func(f float64) Ans { return Ans{F: f} }
	x := r.Norm()
	if other == nil {
		d := newDM(R, C)
		for i := range d.A {
			d.A[i] = r.Norm()
		}
		other = buildMat(r, r.Pick(clsArr, clsBlk, clsFor), d)
	}
	switch k {
	case 0:
		return matDM(m.Add(other))
	case 1:
		return matDM(m.Subtract(other))
	case 2:
		return matDM(m.Multiply(other.Transpose()))
	case 3:
		return matDM(m.PreMultiplyMatrix(other.Transpose()))
	case 4:
		return matDM(linear.Power(m, r.Intn(12)))
	case 5:
		return matDM(m.Transpose())
	case 6:
		return num(linear.MatFrobeniusNorm(m))
	case 7:
		return num(linear.MatLInfNorm(m))
	case 8:
		v, _ := pureVec(r, C)
		return vecAns(m.OperateVector(v))
	case 9:
		_, d := pureVec(r, C)
		return Ans{V: m.Operate(d)}
	case 10:
		v, _ := pureVec(r, R)
		return vecAns(m.PreMultiplyVector(v))
	case 11:
		_, d := pureVec(r, R)
		return Ans{V: m.PreMultiply(d)}
	case 12:
		return num(m.Trace())
	case 13:
		return matDM(m.ScalarAdd(x))
	case 14:
		return matDM(m.ScalarMultiply(x))
	case 15:
		return Ans{B: m.Equals(other)}
	case 16:
		return Ans{B: m.Equals(m.Copy())}
	case 17:
		return num(m.WalkInOptimizedOrder(&sumVisitor{}))
	case 18:
		return num(m.WalkInRowOrder(&sumVisitor{}))
	case 19:
		return num(m.WalkInColumnOrder(&sumVisitor{}))
	case 20:
		if d, ok := m.(*linear.DiagonalMatrix); ok {
			return matDM(d.Inverse())
		}
		return matDM(m.Multiply(m))
	case 21:
		i, j := r.Intn(R), r.Intn(C)
		return matDM(m.SubMatrix(i, r.Range(i, R-1), j, r.Range(j, C-1)))
	// the columns and rows as vectors
	case 22:
		return num(linear.VecNorm(m.ColumnVectorAt(r.Intn(C))))
	case 23:
		v, _ := pureVec(r, C)
		u := m.RowVectorAt(r.Intn(R))
		return Ans{V: []float64{linear.VecDistance(u, v), linear.VecL1Distance(u, v), linear.VecLInfDistance(u, v), linear.VecDotProduct(u, v), linear.VecL1Norm(u), linear.VecLInfNorm(u)}}
	case 24:
		v, _ := pureVec(r, C)
		return num(linear.VecCosine(m.RowVectorAt(r.Intn(R)), v))
	case 25:
		v, _ := pureVec(r, C)
		return vecAns(linear.Projection(m.RowVectorAt(r.Intn(R)), v))
	case 26:
		return vecAns(linear.UnitVector(m.RowVectorAt(r.Intn(R))))
	case 27:
		v, _ := pureVec(r, C)
		u := m.RowVectorAt(r.Intn(R)).Copy()
		u.Combine(x, r.Norm(), v)
		u.MapMultiply(r.Norm())
		return vecAns(u.EBEMultiply(v))
	case 28:
		v, _ := pureVec(r, r.Range(1, 5))
		return matDM(linear.OuterProduct(m.ColumnVectorAt(r.Intn(C)), v))
	}
	v, _ := pureVec(r, C)
	u := m.RowVectorAt(r.Intn(R))
	return Ans{V: append(vecToSlice(u.Add(v)), append(vecToSlice(u.Subtract(v)), vecToSlice(u.EBEDivide(v))...)...)}
}

// sameBits compares answers bit for bit (all NaNs are one).
func sameBits(a, b Ans) bool {
	if a.Rej || b.Rej {
		return a.Rej == b.Rej && rejText(a.Why) == rejText(b.Why)
	}
	if a.Nil != b.Nil || (a.M == nil) != (b.M == nil) || (a.V == nil) != (b.V == nil) || a.B != b.B || sv(a.I) != sv(b.I) {
		return false
	}
	if a.M != nil && (a.M.R != b.M.R || a.M.C != b.M.C || !bitsF(a.M.A, b.M.A)) {
		return false
	}
	return bitsF(a.V, b.V) && bitsF([]float64{a.F}, []float64{b.F})
}
func bitsF(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) && !(a[i] != a[i] && b[i] != b[i]) {
			return false
		}
	}
	return true
}

// asked runs f and turns a rejection into an answer; other ends are passed on.
func asked(f func() Ans) (a Ans) {
	defer func() {
		if r := recover(); r != nil {
			if o := classify(r); o.Kind != "panic" {
				panic(r)
			}
			a = Ans{Rej: true, Why: r}
		}
	}()
	return f()
}

func newPWorld(c *Case, t *T) *PWorld {
	w := &PWorld{recs: make([][]prec, len(c.Tasks))}
	for i := range c.Init {
		o := &c.Init[i]
		if !strings.HasPrefix(o.K, "p:") {
			continue
		}
		in, cls := pureIn(o)
		s := &pspec{kind: o.K[2:], in: in, cls: cls}
		simrt.Fuel(8 * boundBudget(max(in.a.R, in.a.C)))
		out := t.call(nil, func() {
			s.m = buildMat(NewRng(o.S), cls, in.a)
			if s.kind == "mat" {
				return
			}
			s.ans = s.build(s.m, &s.obj)
			if sv, ok := s.obj.(solverer); ok {
				asked(func() Ans { s.sol = sv.Solver(); return Ans{} })
			}
		})
		simrt.Fuel(0)
		if out.Kind != "ok" {
			t.inc("skipped-specification")
			continue
		}
		w.specs = append(w.specs, s)
	}
	return w
}

// build makes the decomposition of m; a rejection is an answer.
func (s *pspec) build(m linear.RealMatrix, obj *interface{}) Ans {
	return asked(func() Ans {
		o, err := buildDec(s.in, m)
		if err != nil {
			return Ans{Rej: true, Why: err}
		}
		*obj = o
		return Ans{B: true}
	})
}

func (w *PWorld) Do(t *T, i int, op *Op) {
	r := NewRng(op.S)
	switch op.K {
	case "noise-build", "noise-mat":
		o := *op
		o.K = op.K[6:]
		b := &BWorld{}
		b.Do(t, i, &o)
		t.inc("noise")
		return
	}
	if len(w.specs) == 0 {
		return
	}
	si := abs(op.Arg(2)) % len(w.specs)
	s := w.specs[si]
	how := []int{0, 1, 2, 3, 0, 0, 0}[abs(op.Arg(4))%7]
	budget := 40 * boundBudget(max(s.in.a.R, s.in.a.C))
	var rec prec
	var fresh func(m func() linear.RealMatrix, shared bool) Ans
	other := -1
	if s.kind == "mat" {
		k := abs(op.Arg(6)) % pureMatOps
		oi := abs(op.Arg(5)) % len(w.specs)
		if s2 := w.specs[oi]; s2.in.a.R == s.in.a.R && s2.in.a.C == s.in.a.C {
			other = oi
		}
		seed := op.S % 3
		rec.key = sf("%d.%d.%d.%d", si, k, other, seed)
		rec.what = sf("matrix request %d", k)
		fresh = func(m func() linear.RealMatrix, shared bool) Ans {
			return asked(func() Ans {
				var om linear.RealMatrix
				o := m()
				if other == si {
					om = o
				} else if other >= 0 {
					om = w.specs[other].m
					if !shared {
						om = buildMat(NewRng(op.S), w.specs[other].cls, w.specs[other].in.a)
					}
				}
				return matAsk(k, o, om, NewRng(seed))
			})
		}
	} else {
		qs := decQueries[s.kind]
		q := abs(op.Arg(6)) % (len(qs) + 1)
		o := &Op{A: []int{abs(op.Arg(0)) % 4, 1 + abs(op.Arg(1))%3, 0, 0, 0, 0}, S: op.S % 3}
		if q == len(qs) {
			rec.key, rec.what = sf("%d.new", si), "new "+s.kind
		} else {
			if o.K = qs[q]; o.K == "Cov" {
				o.S = op.S % 7
			} else if o.K == "SolveV" || o.K == "SolveM" || o.K == "BadV" || o.K == "BadM" {
				o.S = op.S&(1<<48-1)%3 | op.S>>48&7<<48
			}
			rec.key, rec.what = sf("%d.%s.%d.%d.%d", si, o.K, o.A[0], o.A[1], o.S), s.kind+"."+o.K
		}
		fresh = func(m func() linear.RealMatrix, shared bool) Ans {
			var obj interface{}
			var sol linear.DecompositionSolver
			a := s.ans
			if shared {
				obj = s.obj
				if op.Arg(5)%2 == 1 {
					sol = s.sol
				}
			} else {
				a = s.build(m(), &obj)
			}
			if obj == nil || q == len(qs) {
				return a
			}
			return asked(func() Ans {
				return ask(obj, s.in, o.K, &QC{op: o, sol: sol, mut: op.S%5 == 0})
			})
		}
	}
	rec.redo = func() Ans {
		return fresh(func() linear.RealMatrix { return buildMat(NewRng(3), s.cls, s.in.a) }, false)
	}
	rec.n = max(s.in.a.R, s.in.a.C)
	if op.F != nil {
		w.faulty(t, i, op, s, budget)
		return
	}
	var decompose func(m linear.RealMatrix)
	if s.kind != "mat" {
		decompose = func(m linear.RealMatrix) { s.build(m, new(interface{})) }
	}
	simrt.BeginOp(i, budget)
	out := t.call(nil, func() {
		switch how {
		case 0, 1:
			rec.ans = fresh(func() linear.RealMatrix { return s.m }, how == 0 || s.kind == "mat")
		case 2:
			rec.ans = fresh(func() linear.RealMatrix { return veteran(r, s.cls, s.in.a, decompose) }, false)
		default:
			rec.ans = fresh(func() linear.RealMatrix { return buildMat(r, s.cls, s.in.a) }, false)
		}
	})
	t.execEnd0()
	t.note("%s %s -> %s", rec.what, []string{"shared", "shared input", "veteran", "fresh"}[how], out.Kind)
	t.inc("request")
	if out.Kind != "ok" {
		t.inc("unanswered-request") // not a matter of this property
		return
	}
	if rec.ans.Rej {
		t.inc("rejected-request")
	}
	t.note("%s", rec.ans)
	w.recs[t.ID] = append(w.recs[t.ID], rec)
}

// faulty puts a request to a shared object with an operand whose code fails.
func (w *PWorld) faulty(t *T, i int, op *Op, s *pspec, budget int64) {
	h := &Hook{f: op.F, t: t}
	r := NewRng(op.S)
	simrt.BeginOp(i, budget)
	out := t.call(op.F, func() {
		if s.kind == "mat" {
			d := newDM(s.in.a.R, s.in.a.C)
			for k := range d.A {
				d.A[k] = r.Norm()
			}
			matAsk(abs(op.Arg(6))%pureMatOps, s.m, &FMat{D: d, H: h}, r)
		} else if s.obj != nil {
			if _, ok := s.obj.(solverer); ok {
				o := &Op{K: []string{"SolveV", "SolveM"}[r.Intn(2)], A: []int{clsFor, r.Range(1, 3)}, S: op.S, F: op.F}
				ask(s.obj, s.in, o.K, &QC{op: o, h: h, sol: s.sol})
			}
		}
	})
	t.execEnd0()
	t.note("failing request -> %s", out.Kind)
	t.inc("failing-request")
}

func (w *PWorld) Finish(t *T) {
	base := map[string]Ans{}
	// the requests are put again in another order than they were in the run
	var all []prec
	for ti := range w.recs {
		all = append(all, w.recs[ti]...)
	}
	r := NewRng(uint64(len(all)) * 7919)
	for i := range all {
		j := r.Range(i, len(all)-1)
		all[i], all[j] = all[j], all[i]
	}
	for _, rec := range all {
		if _, ok := base[rec.key]; !ok {
			simrt.Fuel(40 * boundBudget(rec.n))
			var b Ans
			if out := t.call(nil, func() { b = rec.redo() }); out.Kind == "ok" {
				base[rec.key] = b
			}
			simrt.Fuel(0)
		}
	}
	for ti := range w.recs {
		for _, rec := range w.recs[ti] {
			b, ok := base[rec.key]
			if !ok {
				simrt.Fuel(40 * boundBudget(rec.n))
				out := t.call(nil, func() { b = rec.redo() })
				simrt.Fuel(0)
				if out.Kind != "ok" {
					t.fail("answer-depends-on-history:"+rec.what, "%s was answered in the run (%v) and not afterwards: %v", rec.what, rec.ans, out)
					return
				}
				base[rec.key] = b
			}
			t.inc("answers-compared")
			if !sameBits(b, rec.ans) {
				t.fail("answer-depends-on-history:"+rec.what, "%s, put by task %d, was answered %v; the same request on the same data afterwards: %v", rec.what, ti, rec.ans, b)
				return
			}
		}
	}
}
