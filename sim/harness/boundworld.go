package main

import (
	"math"
	"strings"

	"github.com/jtejido/linear"
	simrt "verifsimrt"
	sync "verifsimrt/simsync"
)

// BWorld: requests over data with damaged values. Only termination is judged:
// each request must end, with an answer or a rejection, within its step budget,
// however it is interleaved with others on the same objects.
type BWorld struct {
	mu   sync.Mutex
	ms   []*MObj // damaged matrices, guarded by mu when written
	decs []*bdec
	eff  bool
}
type bdec struct {
	kind string
	in   *DecIn
	obj  interface{}
}

var allKinds = []string{"lu", "chol", "rchol", "qr", "rrqr", "eig", "eigtri", "svd", "schur", "hess", "tri", "bi"}

func damagedValue(r *Rng, old float64) float64 {
	switch r.Intn(15) {
	case 0, 1:
		return math.NaN()
	case 2:
		return math.Inf(1)
	case 3:
		return math.Inf(-1)
	case 4:
		return math.SmallestNonzeroFloat64
	case 5:
		return math.MaxFloat64
	case 6:
		return -math.MaxFloat64
	case 7:
		return 1e-308
	case 8:
		return math.Ldexp(r.Norm(), r.Range(-1074, 1023))
	case 9:
		return math.Float64frombits(math.Float64bits(old) ^ (1 << uint(r.Intn(64))))
	case 10:
		return math.Float64frombits(r.U64())
	case 11:
		return math.Copysign(0, -1)
	case 12:
		return old * (1 + math.Ldexp(1, -52))
	case 13:
		return old * 1e200
	}
	return old * 1e-200
}

// damage applies one of several damage patterns and says which.
func damage(r *Rng, d *DM, mode int) string {
	switch mode % 8 {
	case 0:
		return "none"
	case 1, 2: // single entry
		k := r.Intn(len(d.A))
		d.A[k] = damagedValue(r, d.A[k])
		return "one-entry"
	case 3: // a few
		for n := r.Range(2, 5); n > 0; n-- {
			k := r.Intn(len(d.A))
			d.A[k] = damagedValue(r, d.A[k])
		}
		return "few-entries"
	case 4: // everything
		for k := range d.A {
			d.A[k] = damagedValue(r, d.A[k])
		}
		return "all-entries"
	case 5: // uniform scale
		s := math.Ldexp(1, r.Range(-1060, 1000))
		for k := range d.A {
			d.A[k] *= s
		}
		return "scaled"
	case 6: // a graded row or column
		i := r.Intn(d.R)
		s := math.Ldexp(1, r.Range(-600, 600))
		for j := 0; j < d.C; j++ {
			d.set(i, j, d.at(i, j)*s)
		}
		return "graded-row"
	}
	// symmetric damage, so that symmetric algorithms get to see it
	if d.R == d.C {
		for n := r.Range(1, 3); n > 0; n-- {
			i, j := r.Intn(d.R), r.Intn(d.C)
			v := damagedValue(r, d.at(i, j))
			d.set(i, j, v)
			d.set(j, i, v)
		}
		return "symmetric"
	}
	k := r.Intn(len(d.A))
	d.A[k] = damagedValue(r, d.A[k])
	return "one-entry"
}

func boundBudget(n int) int64 {
	m := int64(n)
	return 1_000_000 + 30_000*m*m*m
}

func damagedIn(o *Op, kind string) (*DecIn, string) {
	g := genDec(kind, o)
	in := &DecIn{kind: kind, a: g.a, thr: g.thr, main: g.main, sec: g.sec}
	r := NewRng(o.S ^ 0xDA4A6E)
	how := damage(r, in.a, abs(o.Arg(4)))
	if kind == "eigtri" {
		for i := range in.main {
			in.main[i] = in.a.at(i, i)
			if i > 0 {
				in.sec[i-1] = in.a.at(i, i-1)
			}
		}
	}
	return in, how
}

func newBWorld(c *Case, t *T) *BWorld {
	w := &BWorld{}
	for i := range c.Init {
		o := &c.Init[i]
		if !strings.HasPrefix(o.K, "dec:") {
			continue
		}
		kind := o.K[4:]
		in, how := damagedIn(o, kind)
		t.inc("fault:damage-" + how)
		r := NewRng(o.S ^ 0x55)
		cls := abs(o.Arg(3)) % 4
		if cls == clsDiag {
			cls = clsArr
		}
		m := &MObj{m: buildMat(r, cls, in.a), d: in.a, cls: cls}
		w.ms = append(w.ms, m)
		d := &bdec{kind: kind, in: in}
		simrt.Fuel(boundBudget(max(in.a.R, in.a.C)))
		out := t.call(nil, func() {
			if obj, err := buildDec(in, m.m); err == nil {
				d.obj = obj
			}
		})
		simrt.Fuel(0)
		w.judge(t, "new "+kind, out, in)
		if t.viol != nil {
			return w
		}
		if d.obj != nil {
			w.decs = append(w.decs, d)
		} else {
			t.inc("rejected-request")
		}
	}
	return w
}

func (w *BWorld) judge(t *T, what string, out Outcome, in *DecIn) {
	t.note("%s -> %s", what, out.Kind)
	t.inc("request")
	switch out.Kind {
	case "panic":
		t.inc("rejected-request")
	case "budget":
		t.fail("unbounded:"+what, "%s on a %s matrix did not finish within its budget: %v; data %s", what, in.a.dims(), out.Val, trunc(in.a.A))
	case "deadlock":
		if simrt.Cur() < 0 {
			t.fail("deadlock", "%s can never finish: %v", what, out.Val)
		}
	}
}

// askBound puts one query; answers are not looked at.
func askBound(d *bdec, name string, r *Rng, h *Hook, op *Op) {
	if name == "SolveV" || name == "SolveM" {
		s := d.obj.(solverer).Solver()
		n := d.in.a.R
		if name == "SolveV" {
			x := newDM(n, 1)
			copy(x.A, intVec(r, n))
			damage(r, x, r.Intn(8))
			if op.F != nil {
				s.SolveVector(&FVec{D: x.A, H: h})
			} else {
				s.SolveVector(buildVec(r, r.Pick(clsArr, clsFor), x.A))
			}
		} else {
			x := intDM(r, n, r.Range(1, 3), false)
			damage(r, x, r.Intn(8))
			if op.F != nil {
				s.SolveMatrix(&FMat{D: x, H: h})
			} else {
				s.SolveMatrix(buildMat(r, r.Pick(clsArr, clsBlk, clsFor), x))
			}
		}
		return
	}
	ask(d.obj, d.in, name, &QC{op: op, h: h})
}

// nested is what caller code asks of the same decomposition in the middle of a
// request.
func (d *bdec) nested(t *T, op *Op) func() {
	if op.F == nil || op.F.Kind != "reenter" {
		return nil
	}
	return func() {
		r := NewRng(mix(op.S, 917))
		qs := decQueries[d.kind]
		name := qs[r.Intn(len(qs))]
		t.inc("reentrant-request")
		out := t.call(nil, func() { askBound(d, name, r, nil, &Op{K: name, A: []int{0, 2}, S: op.S % 91}) })
		if out.Kind == "budget" || out.Kind == "deadlock" {
			panic(out.Val)
		}
	}
}

func (w *BWorld) Do(t *T, i int, op *Op) {
	r := NewRng(op.S)
	h := &Hook{f: op.F, t: t}
	switch op.K {
	case "ask":
		if len(w.decs) == 0 {
			return
		}
		d := w.decs[abs(op.Arg(2))%len(w.decs)]
		qs := decQueries[d.kind]
		name := qs[abs(op.Arg(3))%len(qs)]
		h.re = d.nested(t, op)
		budget := boundBudget(max(d.in.a.R, d.in.a.C))
		if h.re != nil {
			budget *= 2
		}
		simrt.BeginOp(i, budget)
		out := t.call(op.F, func() { askBound(d, name, r, h, op) })
		t.execEnd0()
		w.judge(t, d.kind+"."+name, out, d.in)
	case "build":
		kind := allKinds[abs(op.Arg(5))%len(allKinds)]
		in, how := damagedIn(op, kind)
		t.inc("fault:damage-" + how)
		m := buildMat(r, r.Pick(clsArr, clsBlk, clsFor), in.a)
		if op.F != nil {
			m = &FMat{D: in.a.clone(), H: h}
		}
		simrt.BeginOp(i, boundBudget(max(in.a.R, in.a.C)))
		d := &bdec{kind: kind, in: in}
		out := t.call(op.F, func() {
			if obj, err := buildDec(in, m); err == nil {
				d.obj = obj
			}
		})
		t.execEnd0()
		w.judge(t, "new "+kind, out, in)
		if d.obj != nil && t.viol == nil {
			for _, name := range decQueries[kind] {
				simrt.BeginOp(i, boundBudget(max(in.a.R, in.a.C)))
				out := t.call(nil, func() { askBound(d, name, r, nil, &Op{K: name, A: []int{0, 2}, S: op.S % 91}) })
				simrt.EndOp()
				w.judge(t, kind+"."+name, out, in)
				if t.viol != nil {
					return
				}
			}
		}
	case "mat":
		n := max(1, op.Arg(1))
		m := max(1, op.Arg(2))
		cls := abs(op.Arg(3)) % 3
		if cls == clsDiag {
			m = n
		}
		a := intDM(r, n, m, cls == clsDiag)
		how := damage(r, a, abs(op.Arg(4)))
		if cls == clsDiag {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if i != j {
						a.set(i, j, 0)
					}
				}
			}
		}
		t.inc("fault:damage-" + how)
		o := buildMat(r, cls, a)
		b := intDM(r, n, m, false)
		damage(r, b, r.Intn(8))
		bo := buildMat(r, r.Pick(clsArr, clsBlk, clsFor), b)
		bt := buildMat(r, r.Pick(clsArr, clsBlk, clsFor), b.t())
		v := intDM(r, m, 1, false)
		damage(r, v, r.Intn(8))
		vo := buildVec(r, r.Pick(clsArr, clsFor), v.A)
		u := buildVec(r, clsArr, append([]float64{}, v.A...))
		in := &DecIn{a: a}
		k := r.Intn(22)
		p := r.Intn(40)
		if n <= 6 && r.Chance(0.4) {
			// the number of products grows with the length of p only
			p = int(r.U64() >> uint(1+r.Intn(45)))
		}
		simrt.BeginOp(i, 40*boundBudget(max(n, m)))
		out := t.call(nil, func() {
			switch k {
			case 0:
				o.Add(bo)
			case 1:
				o.Subtract(bo)
			case 2:
				o.Multiply(bt)
			case 3:
				o.PreMultiplyMatrix(bt)
			case 4:
				linear.Power(o, p)
			case 5:
				o.Transpose()
			case 6:
				linear.MatFrobeniusNorm(o)
			case 7:
				linear.MatLInfNorm(o)
			case 8:
				o.OperateVector(vo)
			case 9:
				o.Operate(v.A)
			case 10:
				o.Equals(bo)
			case 11:
				o.Equals(buildMat(r, clsFor, a))
			case 12:
				linear.VecNorm(vo)
			case 13:
				u.Unitize()
			case 14:
				linear.UnitVector(vo)
			case 15:
				linear.Projection(u, vo)
			case 16:
				linear.VecCosine(u, vo)
			case 17:
				linear.MinIndex(vo)
				linear.MaxIndex(vo)
				linear.MinValue(vo)
				linear.MaxValue(vo)
			case 18:
				u.Equals(vo)
			case 19:
				u.EBEDivide(vo)
				u.EBEMultiply(vo)
			case 20:
				linear.VecLInfDistance(u, vo)
				linear.VecL1Distance(u, vo)
				linear.VecDistance(u, vo)
			case 21:
				if d, ok := o.(*linear.DiagonalMatrix); ok {
					d.IsSingular(0)
					d.Inverse()
				}
				o.ScalarMultiply(v.A[0])
			}
		})
		t.execEnd0()
		w.judge(t, sf("matrix operation %d", k), out, in)
	case "walk":
		if len(w.ms) == 0 {
			return
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		o := w.ms[abs(op.Arg(0))%len(w.ms)]
		v := &funcVisitor{h: h, f: func(i, j int, x float64) float64 { return damagedValue(r, x) }}
		if o.cls == clsDiag || o.cls == clsFor {
			return
		}
		k := r.Intn(6)
		simrt.BeginOp(i, boundBudget(max(o.d.R, o.d.C)))
		out := t.call(op.F, func() { walkUpdate(o.m, k, v, 0, o.d.R-1, 0, o.d.C-1) })
		t.execEnd0()
		w.judge(t, walkNames[k], out, &DecIn{a: o.d})
		t.inc("fault:damage-walk")
	case "rebuild":
		// decompose a shared matrix as it is now
		if len(w.ms) == 0 {
			return
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		o := w.ms[abs(op.Arg(0))%len(w.ms)]
		kind := allKinds[abs(op.Arg(5))%len(allKinds)]
		if kind == "eigtri" {
			return
		}
		in := &DecIn{kind: kind, a: toDM(o.m).clone(), thr: 1e-12}
		d := &bdec{kind: kind, in: in}
		simrt.BeginOp(i, boundBudget(max(in.a.R, in.a.C)))
		out := t.call(nil, func() {
			if obj, err := buildDec(in, o.m); err == nil {
				d.obj = obj
			}
		})
		t.execEnd0()
		w.judge(t, "new "+kind, out, in)
		if d.obj != nil && t.viol == nil {
			qs := decQueries[kind]
			name := qs[r.Intn(len(qs))]
			simrt.BeginOp(i, boundBudget(max(in.a.R, in.a.C)))
			out := t.call(nil, func() { askBound(d, name, r, nil, &Op{K: name, A: []int{0, 2}, S: op.S % 91}) })
			simrt.EndOp()
			w.judge(t, kind+"."+name, out, in)
		}
	}
}

func (w *BWorld) Finish(t *T) {
	// after all the failures, every shared object still answers or rejects
	for _, d := range w.decs {
		for _, name := range decQueries[d.kind] {
			simrt.Fuel(boundBudget(max(d.in.a.R, d.in.a.C)))
			out := t.call(nil, func() {
				askBound(d, name, NewRng(7), nil, &Op{K: name, A: []int{0, 2}, S: 5})
			})
			simrt.Fuel(0)
			w.judge(t, "finally "+d.kind+"."+name, out, d.in)
			if t.viol != nil {
				return
			}
		}
	}
}

// execEnd0 ends the measured request; verification of C14 needs no budget.
func (t *T) execEnd0() {
	n := simrt.EndOp()
	if n > t.execSteps {
		t.execSteps = n
	}
}
