package main

import (
	"math"
	"strconv"
	"strings"

	"github.com/jtejido/linear"
	simrt "verifsimrt"
	sync "verifsimrt/simsync"
)

type decRec struct {
	op  Op
	idx int
	dec int
	ans Ans
	rhs *DM
	got interface{} // the answer itself, if the caller left it alone
}

type sharedDec struct {
	in  *DecIn
	m   *MObj // the input matrix object
	obj interface{}
	sol linear.DecompositionSolver
	b   *MObj
	bv  *VObj
	mu  sync.Mutex // guards changes of the input matrix
}

// DWorld: tasks query shared decompositions.
type DWorld struct {
	decs []*sharedDec
	recs [][]decRec
	mut  bool
}

const fuelPerCall = 60_000_000

// newDWorld builds the shared decompositions. Construction failures become violations.
func newDWorld(c *Case, t *T) *DWorld {
	w := &DWorld{recs: make([][]decRec, len(c.Tasks)), mut: c.Cfg["mut"] == 1}
	for i := range c.Init {
		o := &c.Init[i]
		if !strings.HasPrefix(o.K, "dec:") {
			continue
		}
		in := genDec(o.K[4:], o)
		r := NewRng(o.S ^ 0x55)
		cls := abs(o.Arg(3)) % 4
		if cls == clsDiag && !in.a.isDiag() {
			cls = clsArr
		}
		s := &sharedDec{in: in}
		simrt.Fuel(fuelPerCall)
		safely(t, func() {
			s.m = &MObj{m: buildMat(r, cls, in.a), d: in.a.clone(), cls: cls}
			bd := intDM(r, in.a.R, r.Range(1, 3), false)
			s.b = &MObj{m: buildMat(r, r.Intn(2), bd), d: bd}
			bv := intVec(r, in.a.R)
			s.bv = &VObj{v: buildVec(r, clsArr, bv), d: bv}
			obj, err := buildDec(in, s.m.m)
			if err != nil && in.hard && strings.Contains(err.Error(), "convergence") {
				// documented, and this input invites it: go on with a tamer one
				t.note("iteration on a triangular matrix did not converge")
				t.inc("non-convergence-reported")
				oo := *o
				oo.A = append([]int{}, o.A...)
				oo.A[0] = map[string]int{"eig": 1005, "schur": 1002}[in.kind]
				in = genDec(in.kind, &oo)
				s.in = in
				s.m = &MObj{m: buildMat(r, clsArr, in.a), d: in.a.clone(), cls: clsArr}
				obj, err = buildDec(in, s.m.m)
			}
			if err != nil {
				t.fail("constructor-rejected", "%s of an acceptable %s matrix was rejected: %v", in.kind, in.a.dims(), err)
				return
			}
			s.obj = obj
			if o.Arg(4) == 1 {
				if sv, ok := obj.(solverer); ok {
					func() {
						defer func() { recover() }() // solver may be rejected (complex eigenvalues)
						s.sol = sv.Solver()
					}()
				}
			}
		})
		simrt.Fuel(0)
		if t.viol != nil {
			return w
		}
		w.decs = append(w.decs, s)
	}
	return w
}

func rejText(v interface{}) string {
	s := sv(v)
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}

func (w *DWorld) Do(t *T, i int, op *Op) {
	if len(w.decs) == 0 {
		return
	}
	s := w.decs[abs(op.Arg(2))%len(w.decs)]
	h := &Hook{f: op.F, t: t}
	switch op.K {
	case "mutIn":
		if !w.mut || s.m.cls == clsDiag {
			return
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		r := NewRng(op.S)
		for k := 0; k < 3; k++ {
			i, j := r.Intn(s.m.d.R), r.Intn(s.m.d.C)
			v := float64(r.Range(-90, 90))
			s.m.m.SetEntry(i, j, v)
			s.m.d.set(i, j, v)
		}
		t.note("input matrix changed")
		t.inc("input-changed")
		return
	case "badNew":
		w.badNew(t, s.in, op)
		return
	}
	if op.F != nil {
		// the fault strikes in a right-hand side of the caller's own type
		o := *op
		o.A = append([]int{}, op.A...)
		for len(o.A) < 4 {
			o.A = append(o.A, 0)
		}
		o.A[0], o.A[3] = clsFor, 0
		op = &o
	}
	q := &QC{op: op, h: h, b: s.b, bv: s.bv, mut: op.Arg(5) == 1}
	name := op.K
	fresh := false
	if strings.HasPrefix(name, "new:") {
		name = name[4:]
		fresh = true
		if w.mut {
			return
		}
	} else if op.Arg(4) == 1 {
		q.sol = s.sol
	}
	if !hasQuery(s.in.kind, name) {
		return
	}
	if op.F != nil && op.F.Kind == "reenter" {
		h.re = func() { w.nested(t, i, s, abs(op.Arg(2))%len(w.decs), op) }
	}
	var ans Ans
	t.prepare(op)
	t.beginExec()
	out := t.call(op.F, func() {
		obj := s.obj
		if fresh {
			o, err := buildDec(s.in, s.m.m)
			if err != nil {
				panic(err)
			}
			obj = o
		}
		ans = ask(obj, s.in, name, q)
	})
	t.endExec()
	t.note("%s.%s -> %s", s.in.kind, op.K, out.Kind)
	t.inc("query")
	switch out.Kind {
	case "budget":
		t.fail("unbounded:"+name, "%s.%s did not finish: %v", s.in.kind, name, out.Val)
		return
	case "deadlock":
		return
	case "kill":
		return
	case "panic":
		if h.fired {
			return
		}
		ans = Ans{Rej: true, Why: out.Val}
		t.inc("rejected-request")
	}
	if h.fired {
		t.inc("fault-survived")
	}
	// right-hand side unchanged
	h.f = nil
	if q.rhsM != nil {
		(&X{t: t}).sameM(s.in.kind+"."+name, q.rhsM)
	}
	if q.rhsV != nil {
		(&X{t: t}).sameV(s.in.kind+"."+name, q.rhsV)
	}
	hashAns(t, ans)
	w.recs[t.ID] = append(w.recs[t.ID], decRec{op: Op{K: name, A: op.A, S: op.S}, idx: i, dec: abs(op.Arg(2)) % len(w.decs), ans: ans, rhs: q.rhs, got: q.got})
}

// nested is what the code of the caller's right-hand side asks of the same
// decomposition while it is being solved for.
func (w *DWorld) nested(t *T, i int, s *sharedDec, dec int, op *Op) {
	r := NewRng(mix(op.S, 913))
	qs := decQueries[s.in.kind]
	for k := r.Range(1, 2); k > 0; k-- {
		in := &Op{K: qs[r.Intn(len(qs))], A: []int{r.Intn(4), r.Range(1, 3)}, S: r.U64() % 251}
		q := &QC{op: in, h: &Hook{t: t}}
		if r.Chance(0.5) {
			q.sol = s.sol
		}
		var ans Ans
		out := t.call(nil, func() { ans = ask(s.obj, s.in, in.K, q) })
		t.note("%s.%s from within -> %s", s.in.kind, in.K, out.Kind)
		t.inc("reentrant-request")
		switch out.Kind {
		case "budget":
			panic(out.Val)
		case "deadlock":
			panic(out.Val)
		case "panic":
			ans = Ans{Rej: true, Why: out.Val}
		}
		w.recs[t.ID] = append(w.recs[t.ID], decRec{op: *in, idx: i, dec: dec, ans: ans, rhs: q.rhs, got: q.got})
	}
}

func hasQuery(kind, name string) bool {
	for _, q := range decQueries[kind] {
		if q == name {
			return true
		}
	}
	return false
}

func hashAns(t *T, a Ans) {
	if a.Rej {
		t.hash(1)
		return
	}
	if a.M != nil {
		for _, v := range a.M.A {
			t.hashF(v)
		}
	}
	for _, v := range a.V {
		t.hashF(v)
	}
	for _, v := range a.I {
		t.hash(uint64(v))
	}
	t.hashF(a.F)
	if a.B {
		t.hash(3)
	}
}

// unevenly scales rows and columns of d by the same powers of two, so that its
// entries come in very different sizes.
func unevenly(r *Rng, d *DM) {
	if !r.Chance(0.7) {
		return
	}
	sc := make([]float64, d.R)
	for i := range sc {
		sc[i] = math.Ldexp(1, r.Range(0, 12))
	}
	for i := range sc {
		for j := range sc {
			d.set(i, j, d.at(i, j)*sc[i]*sc[j])
		}
	}
}

// offDiag picks a non-zero entry off the diagonal (0,0 if there is none).
func offDiag(r *Rng, d *DM) (int, int) {
	var at [][2]int
	for i := 0; i < d.R; i++ {
		for j := 0; j < d.C; j++ {
			if i != j && d.at(i, j) != 0 {
				at = append(at, [2]int{i, j})
			}
		}
	}
	if len(at) == 0 {
		return 0, 0
	}
	p := at[r.Intn(len(at))]
	return p[0], p[1]
}

// badNew constructs the decomposition from data it must not accept.
func (w *DWorld) badNew(t *T, in *DecIn, op *Op) {
	r := NewRng(op.S)
	n := r.Range(1, 5)
	var d *DM
	why := "non-square"
	thr := 1e-10
	switch in.kind {
	case "lu", "eig", "schur", "hess":
		d = intDM(r, n, n+r.Range(1, 3), false)
	case "tri":
		d = intDM(r, n+r.Range(1, 3), n, false)
	case "chol":
		switch r.Pick(0, 1, 2, 3, 4, 4, 4, 5) {
		case 4:
			// off by more than the documented relative symmetry threshold
			d = dominant(r, n+1, true)
			unevenly(r, d)
			i, j := offDiag(r, d)
			if i == j {
				return
			}
			d.set(i, j, d.at(j, i)*(1+math.Ldexp(1, -r.Range(36, 49))))
			why = "almost symmetric"
		case 5:
			// a pivot not above the threshold that was asked for
			d = dominant(r, n, true)
			k := r.Intn(n)
			for i := 0; i < n; i++ {
				d.set(k, i, 0)
				d.set(i, k, 0)
			}
			d.set(k, k, 0.25)
			thr = 0.25 * float64(r.Pick(1, 2))
			why = "insufficiently positive"
		case 0:
			d = intDM(r, n, n+1, false)
		case 1:
			d = dominant(r, n+1, true)
			d.set(0, n, d.at(n, 0)+1)
			why = "non-symmetric"
		case 2:
			d = dominant(r, n, true)
			i, j := r.Intn(n), r.Intn(n)
			d.set(i, j, math.NaN())
			d.set(j, i, math.NaN())
			why = "not-a-number"
		default:
			d = dominant(r, n, true)
			k := r.Intn(n)
			d.set(k, k, -d.at(k, k))
			if r.Chance(0.5) {
				for i := 0; i < n; i++ {
					d.set(k, i, 0)
					d.set(i, k, 0)
				}
			}
			why = "not positive definite"
		}
	case "rchol":
		d = dominant(r, n, true)
		k := r.Intn(n)
		d.set(k, k, -1-d.at(k, k))
		why = "negative diagonal entry"
	default:
		return
	}
	cls := r.Pick(clsArr, clsBlk, clsFor)
	var err error
	out := t.call(nil, func() {
		m := buildMat(r, cls, d)
		_, err = buildDec(&DecIn{kind: in.kind, thr: -1}, m)
		if in.kind == "chol" && why == "insufficiently positive" {
			_, err = linear.NewCholeskyDecomposition(m, 1e-15, thr)
		}
		if in.kind == "rchol" {
			_, err = linear.NewRectangularCholeskyDecomposition(m)
		}
	})
	t.endExec()
	t.note("%s of %s matrix -> %s", in.kind, why, out.Kind)
	t.inc("rejected-request")
	switch out.Kind {
	case "ok":
		if err == nil {
			t.fail("not-rejected:"+in.kind, "%s accepted a %s %s matrix", in.kind, why, d.dims())
		}
	case "budget":
		t.fail("unbounded:"+in.kind, "%s constructor did not finish", in.kind)
	}
}

func (w *DWorld) solo(t *T, s *sharedDec, op *Op, obj interface{}) Ans {
	q := &QC{op: &Op{K: op.K, A: op.A, S: op.S}, h: &Hook{}, b: s.b, bv: s.bv}
	var ans Ans
	out := t.call(nil, func() {
		if obj == nil {
			o, err := buildDec(s.in, must(linear.NewArray2DRowRealMatrixFromSlices(s.in.a.slices(), true)))
			if err != nil {
				panic(err)
			}
			obj = o
		}
		ans = ask(obj, s.in, op.K, q)
	})
	switch out.Kind {
	case "ok":
		return ans
	case "budget":
		t.fail("unbounded:"+op.K, "%s.%s did not finish", s.in.kind, op.K)
	case "deadlock":
		t.fail("deadlock", "%s.%s blocks for ever: %v", s.in.kind, op.K, out.Val)
	}
	return Ans{Rej: true, Why: out.Val}
}

func (w *DWorld) Finish(t *T) {
	simrt.Fuel(fuelPerCall * 4)
	defer simrt.Fuel(0)
	for di, s := range w.decs {
		// 1. what each query answers on a private instance asked nothing else
		memo := map[string]Ans{}
		small := s.in.a.R <= 16 && s.in.a.C <= 16
		var one interface{}
		if !small {
			one, _ = buildDec(s.in, must(linear.NewArray2DRowRealMatrixFromSlices(s.in.a.slices(), true)))
		}
		solo := func(op *Op) Ans {
			k := sv(op.K, op.A, op.S)
			if x, ok := memo[k]; ok {
				return x
			}
			x := w.solo(t, s, op, one)
			memo[k] = x
			return x
		}
		// 2. every recorded answer is that one
		for ti := range w.recs {
			for _, rc := range w.recs[ti] {
				if rc.dec != di {
					continue
				}
				if rc.got != nil && !stillAns(rc.got, rc.ans) {
					t.fail("answer-changed:"+s.in.kind+"."+rc.op.K, "task %d op %d: the answer of %s.%s was %v and was changed afterwards by other requests", ti, rc.idx, s.in.kind, rc.op.K, rc.ans)
					return
				}
				want := solo(&rc.op)
				if t.viol != nil {
					return
				}
				if !sameAns(rc.ans, want) {
					t.fail("answer-differs:"+s.in.kind+"."+rc.op.K, "task %d op %d: %s.%s answered %v on the shared object; a private instance answers %v", ti, rc.idx, s.in.kind, rc.op.K, rc.ans, want)
					return
				}
				if rc.rhs != nil && !rc.ans.Rej && rc.op.K[0] == 'S' {
					if e := checkSolve(s.in, rc.ans, rc.rhs); e != "" && w.judgeSolve(s.in) {
						t.fail("wrong-result:"+s.in.kind+"."+rc.op.K, "task %d op %d: %s.%s: %s", ti, rc.idx, s.in.kind, rc.op.K, e)
						return
					}
				}
			}
		}
		// 3. the shared object still answers the same after everything
		get := func(name string) Ans {
			var seed uint64 = 5
			if i := strings.IndexByte(name, '#'); i >= 0 {
				// with an explicit argument
				k, _ := strconv.Atoi(name[i+1:])
				name, seed = name[:i], uint64(k)
			}
			return solo(&Op{K: name, A: []int{0, 2}, S: seed})
		}
		for _, nm := range decQueries[s.in.kind] {
			o := &Op{K: nm, A: []int{0, 2}, S: 5}
			x := w.solo(t, s, o, s.obj)
			if t.viol != nil {
				return
			}
			if y := solo(o); !sameAns(x, y) {
				t.fail("answer-differs:"+s.in.kind+"."+nm, "after all tasks: %s.%s answers %v on the shared object; a private instance answers %v", s.in.kind, nm, x, y)
				return
			}
		}
		// 4. defining equations
		if e := checkDec(s.in, get); e != "" {
			t.fail("wrong-result:"+s.in.kind, "%s of a %s matrix: %s", s.in.kind, s.in.a.dims(), e)
			return
		}
		if s.in.kind == "svd" {
			if e := checkMinNorm(s.in, get, w.recs, di); e != "" {
				t.fail("wrong-result:svd.Solve", "%s", e)
				return
			}
		}
		if w.judgeSolve(s.in) {
			for _, nm := range []string{"SolveV", "SolveM"} {
				if !hasQuery(s.in.kind, nm) {
					continue
				}
				q := &QC{op: &Op{K: nm, A: []int{0, 2}, S: 5}, h: &Hook{}}
				if nm == "SolveV" {
					q.rhsVec(s.in.a.R)
				} else {
					q.rhsMat(s.in.a.R)
				}
				x := get(nm)
				if x.Rej {
					t.fail("wrong-result:"+s.in.kind+"."+nm, "%s.%s of a regular %s matrix was rejected: %s", s.in.kind, nm, s.in.a.dims(), rejText(x.Why))
					return
				}
				if e := checkSolve(s.in, x, q.rhs); e != "" {
					t.fail("wrong-result:"+s.in.kind+"."+nm, "%s.%s of a %s matrix: %s", s.in.kind, nm, s.in.a.dims(), e)
					return
				}
			}
			if x := get("Inv"); hasQuery(s.in.kind, "Inv") {
				e := ""
				if x.Rej {
					e = "rejected: " + rejText(x.Why)
				} else {
					e = checkSolve(s.in, x, identDM(s.in.a.R))
				}
				if e != "" {
					t.fail("wrong-result:"+s.in.kind+".Inv", "%s.Inverse of a %s matrix: %s", s.in.kind, s.in.a.dims(), e)
					return
				}
			}
		}
		// 5. the input matrix is as its owner left it
		(&X{t: t}).sameM(s.in.kind+" decomposition", s.m)
		(&X{t: t}).sameM(s.in.kind+" solver", s.b)
		(&X{t: t}).sameV(s.in.kind+" solver", s.bv)
	}
}

// judgeSolve says whether the solver is expected to give (least-squares) solutions.
func (w *DWorld) judgeSolve(in *DecIn) bool {
	switch in.kind {
	case "lu":
		return !in.sing
	case "chol":
		return true
	case "qr", "rrqr":
		return !in.sing && in.a.R >= in.a.C
	case "eig", "eigtri":
		return in.sym && !in.sing
	case "svd":
		return in.rank == min(in.a.R, in.a.C)
	}
	return false
}
