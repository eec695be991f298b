package main

import (
	"math"
	"sort"

	"github.com/jtejido/linear"
	sync "verifsimrt/simsync"
)

func sqrt(x float64) float64 { return math.Sqrt(x) }

const (
	clsArr = iota
	clsBlk
	clsDiag
	clsFor
)

var clsName = []string{"array", "block", "diag", "foreign"}

// MObj is a live matrix together with its reference model.
type MObj struct {
	m   linear.RealMatrix
	d   *DM
	cls int
	ref []*SObj // slices that legitimately share storage (none by default)
}

type VObj struct {
	v   linear.RealVector
	d   []float64
	cls int // clsArr or clsFor
}

// SObj is a slice the caller holds (handed in, or obtained from the library).
type SObj struct {
	s2   [][]float64
	d2   [][]float64
	s1   []float64
	d1   []float64
	note string
}

// Group is a set of objects used under one client lock.
type Group struct {
	mu    sync.Mutex
	ms    []*MObj
	vs    []*VObj
	ss    []*SObj
	ds    []*DObj
	views []*View
	pinM  map[int]*MObj // objects that operations come back to
	pinV  map[int]*VObj
	p     int // the two dimensions in use
	q     int
}

type HWorld struct {
	groups  []*Group
	noLock  bool // every group belongs to one task
	alike   int  // which decomposition and which question everybody has; 0: any
	odd     float64
	reasons bool // rejections are judged by what they say
	keep    int  // rejections kept
	few     bool // operands are shared objects wherever possible
	ro      bool // one group, shared by all tasks without locks, never changed
}

func clsOf(m linear.RealMatrix) int {
	switch m.(type) {
	case *linear.BlockRealMatrix:
		return clsBlk
	case *linear.DiagonalMatrix:
		return clsDiag
	case *FMat:
		return clsFor
	}
	return clsArr
}

func toBlocks(d *DM) [][]float64 {
	bs := linear.BLOCK_SIZE
	var out [][]float64
	for i := 0; i < d.R; i += bs {
		for j := 0; j < d.C; j += bs {
			var b []float64
			for p := i; p < i+bs && p < d.R; p++ {
				for q := j; q < j+bs && q < d.C; q++ {
					b = append(b, d.at(p, q))
				}
			}
			out = append(out, b)
		}
	}
	return out
}

func must[X any](x X, err error) X {
	if err != nil {
		panic(sf("constructor rejected valid data: %v", err))
	}
	return x
}

// buildMat constructs a matrix of the given storage class by one of the public
// ways to do so.
// window returns s, sometimes as the front of a longer slice.
func window(r *Rng, s []float64) []float64 {
	if r.Chance(0.5) {
		return s
	}
	f := make([]float64, len(s)+3)
	copy(f, s)
	return f[:len(s)]
}

// packed returns the rows of d as windows of one slice.
func packed(d *DM) [][]float64 {
	all := append([]float64{}, d.A...)
	o := make([][]float64, d.R)
	for i := range o {
		o[i] = all[i*d.C : (i+1)*d.C]
	}
	return o
}

func buildMat(r *Rng, cls int, d *DM) linear.RealMatrix {
	how := r.Intn(4)
	fill := func(m linear.RealMatrix) linear.RealMatrix {
		for i := 0; i < d.R; i++ {
			for j := 0; j < d.C; j++ {
				if i == j || cls != clsDiag || d.at(i, j) != 0 {
					m.SetEntry(i, j, d.at(i, j))
				}
			}
		}
		return m
	}
	switch cls {
	case clsBlk:
		switch how {
		case 0:
			return must(linear.NewBlockRealMatrixFromBlockData(d.R, d.C, toBlocks(d)))
		case 1:
			return fill(must(linear.NewBlockRealMatrix(d.R, d.C)))
		}
		return must(linear.NewBlockRealMatrixFromSlices(d.slices()))
	case clsDiag:
		dg := make([]float64, d.R)
		for i := range dg {
			dg[i] = d.at(i, i)
		}
		switch how {
		case 0:
			return must(linear.NewDiagonalMatrix(window(r, dg), false))
		case 1:
			return must(linear.NewRealDiagonalMatrix(dg))
		case 2:
			return fill(must(linear.NewDiagonalMatrixWithDimension(d.R)))
		}
		return must(linear.NewDiagonalMatrixFromSlice(dg))
	case clsFor:
		return &FMat{D: d.clone()}
	}
	switch how {
	case 0:
		if r.Chance(0.5) {
			return must(linear.NewArray2DRowRealMatrixFromSlices(packed(d), false))
		}
		return must(linear.NewArray2DRowRealMatrixFromSlices(d.slices(), false))
	case 1:
		return fill(must(linear.NewArray2DRowRealMatrix(d.R, d.C)))
	case 2:
		if d.C == 1 {
			return must(linear.NewArray2DRowRealMatrixFromSlice(d.col(0)))
		}
	}
	return must(linear.NewArray2DRowRealMatrixFromSlices(d.slices(), true))
}

func buildVec(r *Rng, cls int, d []float64) linear.RealVector {
	if cls == clsFor {
		return &FVec{D: append([]float64{}, d...)}
	}
	switch r.Intn(4) {
	case 0:
		return must(linear.NewArrayRealVector(window(r, append([]float64{}, d...)), false))
	case 1:
		v := must(linear.NewSizedArrayRealVector(len(d)))
		for i := range d {
			v.SetEntry(i, d[i])
		}
		return v
	case 2:
		return must(linear.NewRealVector(d))
	}
	return must(linear.NewArrayRealVectorFromSlice(d))
}

func smallInt(r *Rng) float64 {
	if r.odd > 0 && r.Chance(r.odd) {
		return []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1)}[r.Intn(4)]
	}
	if r.Chance(0.12) {
		return 0
	}
	return float64(r.Range(-4, 4))
}

// intDM gives a matrix of small integers. Now and then it has one of the plain
// shapes that code likes to treat apart.
func intDM(r *Rng, rows, cols int, diag bool) *DM {
	d := newDM(rows, cols)
	shape := 0
	k := float64(r.Pick(1, 1, 2, -1, 3))
	if r.Chance(0.07) {
		shape = r.Range(1, 7)
	}
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			if diag && i != j {
				continue
			}
			v := smallInt(r)
			switch shape {
			case 1: // zero
				v = 0
			case 2, 3: // identity, or a multiple of it
				v = 0
				if i == j {
					v = k
				}
			case 4: // all equal
				v = k
			case 5: // upper triangular
				if j < i {
					v = 0
				}
			case 6: // lower triangular
				if j > i {
					v = 0
				}
			case 7: // symmetric
				if j < i && i < cols && j < rows {
					v = d.at(j, i)
				}
			}
			d.set(i, j, v)
		}
	}
	return d
}

func intVec(r *Rng, n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = smallInt(r)
	}
	if !r.Chance(0.07) {
		return v
	}
	k := float64(r.Pick(1, 1, 2, -1, 3))
	one := 0
	if n > 0 {
		one = r.Intn(n)
	}
	switch shape := r.Intn(4); shape {
	case 0, 1, 2: // zero, all equal, one entry
		for i := range v {
			v[i] = 0
			if shape == 1 || shape == 2 && i == one {
				v[i] = k
			}
		}
	default:
		sort.Float64s(v)
	}
	return v
}

// ---------------------------------------------------------------- op context

type X struct {
	t    *T
	op   *Op
	r    *Rng
	g    *Group
	w    *HWorld
	h    *Hook
	idx  int
	out  Outcome
	skip bool
	what string

	why     []reason // true reasons for the next rejection
	excused bool
}

// exec runs one library request. recvM/newM (or recvV/newV) name an in-place
// receiver and the state it must have afterwards; canReject says the storage may
// legitimately be unable to hold the result. It reports whether the request
// completed normally.
func (x *X) exec(what string, f func(), o execOpt) bool {
	x.what = what
	x.reenter(o)
	x.t.beginExec()
	x.out = x.t.call(x.op.F, f)
	x.t.endExec()
	x.note(what)
	switch x.out.Kind {
	case "ok":
		if x.h.fired {
			// The callee survived the caller's fault: only acceptable if the
			// result is right all the same, so fall through to the normal check.
			x.t.inc("fault-survived")
		}
		if o.rm != nil {
			o.rm.d = o.nm
		}
		if o.rv != nil {
			o.rv.d = o.nv
		}
		return true
	case "budget":
		x.t.fail("unbounded:"+what, "%s did not finish: %v", what, x.out.Val)
		return false
	case "deadlock":
		return false
	}
	if x.h.fired {
		// caller fault: receiver may be partly updated, entry by entry
		if o.rm != nil {
			x.adoptM(o.rm, o.nm)
		}
		if o.rv != nil {
			x.adoptV(o.rv, o.nv)
		}
		return false
	}
	if o.mayReject {
		x.t.inc("rejected-by-storage")
		return false
	}
	x.t.fail("unexpected-panic:"+what, "%s on valid operands ended with %v", what, x.out)
	return false
}

var nestOps = cat(matQuery, matQuery, matNew, vecQuery, vecNew)

// reenter prepares what the caller's own code asks of the library while the
// request is under way: one or two requests that only read, about any objects
// but the one that is being changed.
func (x *X) reenter(o execOpt) {
	if x.op == nil || x.op.F == nil || x.op.F.Kind != "reenter" || x.t.nest > 0 || x.w == nil {
		return
	}
	x.h.re = func() {
		r := NewRng(mix(x.op.S, 911))
		for k := r.Range(1, 2); k > 0 && x.t.viol == nil; k-- {
			g := &Group{p: x.g.p, q: x.g.q}
			for _, m := range x.g.ms {
				if m != o.rm {
					g.ms = append(g.ms, m)
				}
			}
			for _, v := range x.g.vs {
				if v != o.rv {
					g.vs = append(g.vs, v)
				}
			}
			g.ds = append(g.ds, x.g.ds...)
			op := &Op{K: nestOps[r.Intn(len(nestOps))], A: []int{r.Intn(12), r.Intn(1 << 16)}, S: r.U64()}
			if len(g.ds) > 0 && r.Chance(0.5) {
				op = &Op{K: "DecAsk", A: []int{r.Intn(12), r.Intn(1 << 16)}, S: r.U64()}
			}
			n := &X{t: x.t, op: op, r: NewRng(op.S), g: g, w: x.w, idx: x.idx, what: op.K}
			n.r.odd = x.w.odd
			n.h = &Hook{t: x.t}
			histOps[op.K](n)
			if n.out.Kind != "" {
				x.t.inc("reentrant-request")
			}
		}
	}
}

type execOpt struct {
	rm        *MObj
	nm        *DM
	rv        *VObj
	nv        []float64
	mayReject bool
}

func (x *X) note(what string) {
	x.t.note("%s -> %s", what, x.out.Kind)
}

func (x *X) adoptM(o *MObj, nm *DM) {
	if o.m.RowDimension() != o.d.R || o.m.ColumnDimension() != o.d.C {
		x.t.fail("fault-state:"+x.what, "after a failing callback the receiver changed shape")
		return
	}
	for i := 0; i < o.d.R; i++ {
		for j := 0; j < o.d.C; j++ {
			v := o.m.At(i, j)
			if !eqF(v, o.d.at(i, j)) && !eqF(v, nm.at(i, j)) {
				x.t.fail("fault-state:"+x.what, "after a failing callback entry (%d,%d) holds %v, neither its old value %v nor the new value %v", i, j, v, o.d.at(i, j), nm.at(i, j))
				return
			}
			o.d.set(i, j, v)
		}
	}
}
func (x *X) adoptV(o *VObj, nv []float64) {
	if o.v.Dimension() != len(o.d) {
		x.t.fail("fault-state:"+x.what, "after a failing callback the receiver changed dimension")
		return
	}
	for i := range o.d {
		v := o.v.At(i)
		if !eqF(v, o.d[i]) && !eqF(v, nv[i]) {
			x.t.fail("fault-state:"+x.what, "after a failing callback entry %d holds %v, neither its old value %v nor the new value %v", i, v, o.d[i], nv[i])
			return
		}
		o.d[i] = v
	}
}

// reject runs a request that must be rejected. f returns an error if that is
// how the API reports it.
func (x *X) reject(what string, f func() error) {
	x.what = what
	var err error
	x.t.beginExec()
	x.out = x.t.call(nil, func() { err = f() })
	x.t.endExec()
	x.note("reject " + what)
	defer func() { x.judgeReason(what, err) }()
	x.t.inc("rejected-request")
	switch x.out.Kind {
	case "panic":
		if isRuntimeErr(x.out.Val) {
			x.t.inc("rejected-by-runtime-error")
		}
	case "ok":
		if err == nil {
			x.t.fail("not-rejected:"+what, "%s: an unacceptable request was accepted", what)
		}
	case "budget":
		x.t.fail("unbounded:"+what, "%s did not finish", what)
	}
}

func (x *X) wantM(what string, got linear.RealMatrix, want *DM) bool {
	if got == nil {
		x.t.fail("wrong-result:"+what, "%s returned nil", what)
		return false
	}
	if got.RowDimension() != want.R || got.ColumnDimension() != want.C {
		x.t.fail("wrong-result:"+what, "%s returned a %dx%d matrix, want %s", what, got.RowDimension(), got.ColumnDimension(), want.dims())
		return false
	}
	for i := 0; i < want.R; i++ {
		for j := 0; j < want.C; j++ {
			v := got.At(i, j)
			if !eqF(v, want.at(i, j)) {
				x.t.fail("wrong-result:"+what, "%s: entry (%d,%d) of the %s result is %v, want %v", what, i, j, want.dims(), v, want.at(i, j))
				return false
			}
			x.t.hashF(v)
		}
	}
	return true
}
func (x *X) wantV(what string, got linear.RealVector, want []float64) bool {
	if got == nil {
		x.t.fail("wrong-result:"+what, "%s returned nil", what)
		return false
	}
	if got.Dimension() != len(want) {
		x.t.fail("wrong-result:"+what, "%s returned dimension %d, want %d", what, got.Dimension(), len(want))
		return false
	}
	for i := range want {
		if v := got.At(i); !eqF(v, want[i]) {
			x.t.fail("wrong-result:"+what, "%s: entry %d of %d is %v, want %v", what, i, len(want), v, want[i])
			return false
		}
		x.t.hashF(want[i])
	}
	return true
}
func (x *X) wantS(what string, got, want []float64) bool {
	if !eqSlice(got, want) {
		x.t.fail("wrong-result:"+what, "%s returned %v, want %v", what, trunc(got), trunc(want))
		return false
	}
	for _, v := range want {
		x.t.hashF(v)
	}
	return true
}
func (x *X) wantS2(what string, got, want [][]float64) bool {
	if len(got) != len(want) {
		x.t.fail("wrong-result:"+what, "%s returned %d rows, want %d", what, len(got), len(want))
		return false
	}
	for i := range want {
		if !x.wantS(what+sf(" row %d", i), got[i], want[i]) {
			return false
		}
	}
	return true
}
func (x *X) wantF(what string, got, want, tol float64) bool {
	ok := eqF(got, want)
	if tol > 0 {
		ok = closeF(got, want, tol)
	}
	if !ok {
		x.t.fail("wrong-result:"+what, "%s returned %v, want %v", what, got, want)
	}
	x.t.hashF(want)
	return ok
}
func (x *X) wantB(what string, got, want bool) {
	if got != want {
		x.t.fail("wrong-result:"+what, "%s returned %v, want %v", what, got, want)
	}
}
func trunc(s []float64) string {
	if len(s) > 12 {
		return sf("%v... (%d)", s[:12], len(s))
	}
	return sv(s)
}

const maxStored = 1e5

// keepM stores a result matrix as a live object.
func (x *X) keepM(m linear.RealMatrix, d *DM) {
	if x.w.ro {
		return
	}
	if d.maxFin() > maxStored || d.R*d.C > 12000 {
		return
	}
	o := &MObj{m: m, d: d.clone(), cls: clsOf(m)}
	if len(x.g.ms) < 5 {
		x.g.ms = append(x.g.ms, o)
	} else {
		x.g.ms[x.r.Intn(len(x.g.ms))] = o
	}
}
func (x *X) keepV(v linear.RealVector, d []float64) {
	if x.w.ro {
		return
	}
	for _, e := range d {
		if math.Abs(e) > maxStored && !math.IsInf(e, 0) {
			return
		}
	}
	c := clsArr
	if _, ok := v.(*FVec); ok {
		c = clsFor
	}
	o := &VObj{v: v, d: append([]float64{}, d...), cls: c}
	if len(x.g.vs) < 5 {
		x.g.vs = append(x.g.vs, o)
	} else {
		x.g.vs[x.r.Intn(len(x.g.vs))] = o
	}
}
func (x *X) keepS(s *SObj) {
	if x.w.ro {
		return
	}
	if len(x.g.ss) < 6 {
		x.g.ss = append(x.g.ss, s)
	} else {
		x.g.ss[x.r.Intn(len(x.g.ss))] = s
	}
}

// spare returns s, sometimes as a window into a longer slice: what lies behind
// the window is the caller's and nobody else's.
func (x *X) spare(s []float64) []float64 {
	if !x.r.Chance(0.3) {
		return s
	}
	n := len(s)
	full := make([]float64, n+x.r.Range(1, 4))
	copy(full, s)
	for i := n; i < len(full); i++ {
		full[i] = 7777.125
	}
	x.keepS(&SObj{s1: full[n:], d1: append([]float64{}, full[n:]...), note: "memory behind a slice handed over"})
	return full[:n]
}
func (x *X) spare2(s [][]float64) [][]float64 {
	for i := range s {
		s[i] = x.spare(s[i])
	}
	return s
}

func copy2(s [][]float64) [][]float64 {
	o := make([][]float64, len(s))
	for i := range s {
		o[i] = append([]float64{}, s[i]...)
	}
	return o
}

// recv picks a library-owned matrix as receiver.
func (x *X) recv() *MObj {
	pin := x.op.Arg(pinArg)
	if o := x.g.pinM[pin]; o != nil && o.cls != clsFor {
		return o
	}
	var c []*MObj
	for _, o := range x.g.ms {
		if o.cls != clsFor {
			c = append(c, o)
		}
	}
	if len(c) == 0 {
		return nil
	}
	k := x.op.Arg(0)
	if k < 0 {
		k = -k
	}
	x.pinned(pin, c[k%len(c)])
	return c[k%len(c)]
}

// pinArg is the argument that names the object an operation shares with others
// of its history (0: with none): the same one, whatever was made in between.
const pinArg = 7

func (x *X) pinned(pin int, o *MObj) {
	if pin == 0 {
		return
	}
	if x.g.pinM == nil {
		x.g.pinM = map[int]*MObj{}
	}
	x.g.pinM[pin] = o
}

// anyM picks any matrix, foreign ones included (for free functions).
func (x *X) anyM() *MObj {
	if len(x.g.ms) == 0 {
		return nil
	}
	pin := x.op.Arg(pinArg)
	if o := x.g.pinM[pin]; o != nil {
		return o
	}
	o := x.g.ms[abs(x.op.Arg(0))%len(x.g.ms)]
	x.pinned(pin, o)
	return o
}

// argM provides an operand of the given shape: an existing object when there is
// one (aliasing included), else a fresh one of a random storage class. Under a
// fault the operand is always the caller's own implementation.
func (x *X) argM(r, c int) *MObj {
	if x.op.F != nil {
		d := intDM(x.r, r, c, false)
		return &MObj{m: &FMat{D: d.clone(), H: x.h}, d: d, cls: clsFor}
	}
	var cand []*MObj
	for _, o := range x.g.ms {
		if o.d.R == r && o.d.C == c {
			cand = append(cand, o)
		}
	}
	if len(cand) > 0 && x.r.Chance(0.5) || len(cand) > 0 && x.w.few {
		return cand[x.r.Intn(len(cand))]
	}
	cls := x.r.Intn(4)
	if cls == clsDiag && r != c {
		cls = clsArr
	}
	d := intDM(x.r, r, c, cls == clsDiag)
	return &MObj{m: buildMat(x.r, cls, d), d: d, cls: cls}
}
func (x *X) argDiagM(n int) *MObj {
	d := intDM(x.r, n, n, true)
	if x.op.F != nil {
		return &MObj{m: &FMat{D: d.clone(), H: x.h}, d: d, cls: clsFor}
	}
	cls := x.r.Intn(4)
	return &MObj{m: buildMat(x.r, cls, d), d: d, cls: cls}
}
func (x *X) argVec(n int) *VObj {
	if x.op.F != nil {
		d := intVec(x.r, n)
		return &VObj{v: &FVec{D: append([]float64{}, d...), H: x.h}, d: d, cls: clsFor}
	}
	var cand []*VObj
	for _, o := range x.g.vs {
		if len(o.d) == n {
			cand = append(cand, o)
		}
	}
	if len(cand) > 0 && x.r.Chance(0.4) {
		return cand[x.r.Intn(len(cand))]
	}
	d := intVec(x.r, n)
	return x.mkVec(d)
}
func (x *X) mkVec(d []float64) *VObj {
	if x.op.F != nil {
		return &VObj{v: &FVec{D: append([]float64{}, d...), H: x.h}, d: append([]float64{}, d...), cls: clsFor}
	}
	cls := clsArr
	if x.r.Chance(0.4) {
		cls = clsFor
	}
	return &VObj{v: buildVec(x.r, cls, d), d: append([]float64{}, d...), cls: cls}
}
func (x *X) mkMat(d *DM) *MObj {
	if x.op.F != nil {
		return &MObj{m: &FMat{D: d.clone(), H: x.h}, d: d.clone(), cls: clsFor}
	}
	cls := x.r.Intn(4)
	if cls == clsDiag && !d.isDiag() {
		cls = clsArr
	}
	return &MObj{m: buildMat(x.r, cls, d), d: d.clone(), cls: cls}
}

// checkArgM verifies a fresh operand was not changed.
func (x *X) sameM(what string, o *MObj) {
	if f, ok := o.m.(*FMat); ok {
		if f.D.R != o.d.R || f.D.C != o.d.C || !eqSlice(f.D.A, o.d.A) {
			x.t.fail("operand-changed:"+what, "%s changed its (caller-implemented) matrix operand", what)
		}
		return
	}
	if o.m.RowDimension() != o.d.R || o.m.ColumnDimension() != o.d.C {
		x.t.fail("operand-changed:"+what, "%s changed the shape of an object to %dx%d from %s", what, o.m.RowDimension(), o.m.ColumnDimension(), o.d.dims())
		return
	}
	for i := 0; i < o.d.R; i++ {
		for j := 0; j < o.d.C; j++ {
			if v := o.m.At(i, j); !eqF(v, o.d.at(i, j)) {
				x.t.fail("operand-changed:"+what, "after %s entry (%d,%d) of a %s %s matrix is %v, want %v", what, i, j, o.d.dims(), clsName[o.cls], v, o.d.at(i, j))
				return
			}
		}
	}
}
func (x *X) sameV(what string, o *VObj) {
	if f, ok := o.v.(*FVec); ok {
		if !eqSlice(f.D, o.d) {
			x.t.fail("operand-changed:"+what, "%s changed its (caller-implemented) vector operand", what)
		}
		return
	}
	if o.v.Dimension() != len(o.d) {
		x.t.fail("operand-changed:"+what, "after %s a vector has dimension %d, want %d", what, o.v.Dimension(), len(o.d))
		return
	}
	for i := range o.d {
		if v := o.v.At(i); !eqF(v, o.d[i]) {
			x.t.fail("operand-changed:"+what, "after %s entry %d of a vector is %v, want %v", what, i, v, o.d[i])
			return
		}
	}
}

// verify compares every live object of the group with its model.
func (x *X) verify() {
	if x.t.viol != nil {
		return
	}
	// fault hooks must not fire in verification reads
	for _, o := range x.g.ms {
		x.sameM(x.what, o)
	}
	for _, o := range x.g.vs {
		x.sameV(x.what, o)
	}
	for _, v := range x.g.views {
		x.sameView(v)
	}
	for _, s := range x.g.ss {
		if s.s1 != nil && !eqSlice(s.s1, s.d1) {
			x.t.fail("slice-changed:"+x.what, "after %s a slice the caller holds (%s) changed from %v to %v", x.what, s.note, trunc(s.d1), trunc(s.s1))
		}
		for i := range s.s2 {
			if !eqSlice(s.s2[i], s.d2[i]) {
				x.t.fail("slice-changed:"+x.what, "after %s row %d of a slice the caller holds (%s) changed from %v to %v", x.what, i, s.note, trunc(s.d2[i]), trunc(s.s2[i]))
				break
			}
		}
	}
}

func newHWorld(c *Case, t *T) *HWorld {
	w := &HWorld{noLock: c.Cfg["own"] == 1, reasons: c.Cfg["reasons"] == 1, ro: c.Cfg["ro"] == 1, few: c.Cfg["few"] == 1, alike: c.Cfg["alike"], keep: c.Cfg["keep"], odd: float64(c.Cfg["odd"]) / 100}
	ng := c.Cfg["groups"]
	if ng < 1 {
		ng = 1
	}
	for i := 0; i < ng; i++ {
		p, q := c.Cfg["p"], c.Cfg["q"]
		if i%2 == 1 && c.Cfg["p2"] > 0 {
			p, q = c.Cfg["p2"], c.Cfg["q2"]
		}
		if p < 1 {
			p = 1
		}
		if q < 1 {
			q = 1
		}
		w.groups = append(w.groups, &Group{p: p, q: q})
	}
	for i := range c.Init {
		o := &c.Init[i]
		safely(t, func() { w.initOne(o) })
		if t.viol != nil {
			break
		}
	}
	return w
}

func (w *HWorld) initOne(o *Op) {
	{
		g := w.groups[abs(o.Arg(0))%len(w.groups)]
		r := NewRng(o.S)
		r.odd = w.odd
		rr, cc := o.Arg(2), o.Arg(3)
		if rr < 1 {
			rr = 1
		}
		if cc < 1 {
			cc = 1
		}
		switch o.K {
		case "m":
			cls := abs(o.Arg(1)) % 4
			if cls == clsDiag && rr != cc {
				cc = rr
			}
			d := intDM(r, rr, cc, cls == clsDiag)
			g.ms = append(g.ms, &MObj{m: buildMat(r, cls, d), d: d, cls: cls})
		case "v":
			cls := clsArr
			if o.Arg(1) == clsFor {
				cls = clsFor
			}
			d := intVec(r, rr)
			g.vs = append(g.vs, &VObj{v: buildVec(r, cls, d), d: d, cls: cls})
		}
	}
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

type opFunc func(x *X)

var histOps = map[string]opFunc{}

func (w *HWorld) Do(t *T, i int, op *Op) {
	f := histOps[op.K]
	if f == nil {
		bugf("unknown op %s", op.K)
	}
	gi := 0
	if w.ro {
		gi = 0
	} else if w.noLock {
		gi = t.ID % len(w.groups)
	} else {
		gi = abs(op.Arg(3)) % len(w.groups)
	}
	g := w.groups[gi]
	x := &X{t: t, op: op, r: NewRng(op.S), g: g, w: w, idx: i, what: op.K}
	x.r.odd = w.odd
	x.h = &Hook{f: op.F, t: t}
	if !w.noLock && !w.ro {
		g.mu.Lock()
		defer g.mu.Unlock()
	}
	t.prepare(op)
	f(x)
	if x.h != nil {
		x.h.f = nil
	}
	if x.out.Kind == "" {
		t.inc("op-skipped")
	} else {
		t.inc("op")
	}
	if !w.ro {
		x.verify()
	}
}

func (w *HWorld) Finish(t *T) {
	for _, g := range w.groups {
		x := &X{t: t, g: g, w: w, what: "the whole history", h: &Hook{}}
		x.verify()
		for _, d := range g.ds {
			d.check(x)
		}
	}
}
