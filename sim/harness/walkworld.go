package main

import (
	"github.com/jtejido/linear"
	simrt "verifsimrt"
)

// WWorld: tasks walk shared matrices and vectors with visitors that, at visits
// chosen by the case, read and write other entries, start walks of their own, or
// let another task run. Control changes hands only inside visitors, so the
// models are exact at every instant ("current value" is well defined).
type WWorld struct {
	ms []*MObj
	vs []*VObj
}

func newWWorld(c *Case, t *T) *WWorld {
	w := &WWorld{}
	for i := range c.Init {
		o := &c.Init[i]
		r := NewRng(o.S)
		r.odd = float64(c.Cfg["odd"]) / 100
		rr, cc := max(1, o.Arg(2)), max(1, o.Arg(3))
		simrt.Fuel(fuelPerCall)
		safely(t, func() {
			switch o.K {
			case "m":
				cls := abs(o.Arg(1)) % 3
				if cls == clsDiag {
					cc = rr
				}
				d := intDM(r, rr, cc, cls == clsDiag)
				w.ms = append(w.ms, &MObj{m: buildMat(r, cls, d), d: d, cls: cls})
			case "v":
				d := intVec(r, rr)
				if o.Arg(1) == 9 {
					d = []float64{}
				}
				w.vs = append(w.vs, &VObj{v: buildVec(r, clsArr, d), d: d, cls: clsArr})
			}
		})
		simrt.Fuel(0)
	}
	return w
}

func (w *WWorld) Do(t *T, i int, op *Op) {
	r := NewRng(op.S)
	t.deep = max(0, op.Arg(3))
	switch op.K {
	case "walk":
		if len(w.ms) > 0 {
			w.walk(t, r, w.ms[abs(op.Arg(0))%len(w.ms)], abs(op.Arg(1))%12, op.Arg(2), 0)
		}
	case "vwalk":
		if len(w.vs) > 0 {
			w.vwalk(t, r, w.vs[abs(op.Arg(0))%len(w.vs)], abs(op.Arg(1))%8, op.Arg(2), 0)
		}
	case "touch":
		w.touch(t, r)
	}
	t.endExec()
	w.same(t)
}

func (w *WWorld) Finish(t *T) { w.same(t) }

func (w *WWorld) same(t *T) {
	if t.viol != nil {
		return
	}
	x := &X{t: t}
	for _, o := range w.ms {
		x.sameM("walks", o)
	}
	for _, o := range w.vs {
		x.sameV("walks", o)
	}
}

// touch reads or writes entries through one of several public operations.
func (w *WWorld) touch(t *T, r *Rng) {
	if len(w.vs) > 0 && (len(w.ms) == 0 || r.Chance(0.3)) {
		o := w.vs[r.Intn(len(w.vs))]
		n := len(o.d)
		if n == 0 {
			return
		}
		k := r.Intn(n)
		v := smallInt(r)
		switch r.Intn(5) {
		case 0:
			if g := o.v.At(k); !eqF(g, o.d[k]) {
				t.fail("wrong-result:At", "entry %d is %v, want %v", k, g, o.d[k])
			}
		case 1, 2:
			o.v.SetEntry(k, v)
			o.d[k] = v
		case 3:
			o.v.AddToEntry(k, v)
			o.d[k] += v
		case 4:
			o.v.MapAdd(v)
			for i := range o.d {
				o.d[i] += v
			}
		}
		return
	}
	if len(w.ms) == 0 {
		return
	}
	o := w.ms[r.Intn(len(w.ms))]
	i, j := r.Intn(o.d.R), r.Intn(o.d.C)
	v := smallInt(r)
	if o.cls == clsDiag {
		j = i
	}
	switch r.Intn(7) {
	case 0, 1:
		if g := o.m.At(i, j); !eqF(g, o.d.at(i, j)) {
			t.fail("wrong-result:At", "entry (%d,%d) is %v, want %v", i, j, g, o.d.at(i, j))
		}
	case 2, 3:
		o.m.SetEntry(i, j, v)
		o.d.set(i, j, v)
	case 4:
		o.m.AddToEntry(i, j, v)
		o.d.set(i, j, o.d.at(i, j)+v)
	case 5:
		if o.cls == clsDiag {
			return
		}
		s := intVec(r, o.d.C)
		o.m.SetRow(i, s)
		for k := range s {
			o.d.set(i, k, s[k])
		}
	case 6:
		if o.cls == clsDiag {
			return
		}
		s := intVec(r, o.d.R)
		o.m.SetColumn(j, s)
		for k := range s {
			o.d.set(k, j, s[k])
		}
	}
	t.inc("reentrant-access")
}

// wv is the checking visitor.
type wv struct {
	w      *WWorld
	t      *T
	r      *Rng
	o      *MObj
	what   string
	order  int // 0 row, 1 column, 2 any
	b      [4]int
	seen   []bool
	n      int
	starts int
	ends   int
	ret    float64
	events []int // visit numbers at which something happens, ascending
	depth  int
	change bool
}

func (v *wv) fail(format string, a ...interface{}) {
	v.t.fail("visitor-protocol:"+v.what, v.what+": "+format, a...)
}

func (v *wv) Start(rows, columns, r0, r1, c0, c1 int) {
	v.starts++
	if v.starts > 1 || v.n > 0 || v.ends > 0 {
		v.fail("start called again or late")
	}
	if rows != v.o.d.R || columns != v.o.d.C || r0 != v.b[0] || r1 != v.b[1] || c0 != v.b[2] || c1 != v.b[3] {
		v.fail("start(%d,%d,%d,%d,%d,%d) on a %s matrix walked over rows %d-%d columns %d-%d", rows, columns, r0, r1, c0, c1, v.o.d.dims(), v.b[0], v.b[1], v.b[2], v.b[3])
	}
	v.seen = make([]bool, (v.b[1]-v.b[0]+1)*(v.b[3]-v.b[2]+1))
	simrt.Yield()
}

func (v *wv) visit(i, j int, x float64) {
	if v.starts != 1 || v.ends != 0 {
		v.fail("visit outside start and end")
		panic(stopWalk{})
	}
	h, wd := v.b[1]-v.b[0]+1, v.b[3]-v.b[2]+1
	if i < v.b[0] || i > v.b[1] || j < v.b[2] || j > v.b[3] {
		v.fail("visit(%d,%d) outside rows %d-%d columns %d-%d", i, j, v.b[0], v.b[1], v.b[2], v.b[3])
		panic(stopWalk{})
	}
	k := (i-v.b[0])*wd + (j - v.b[2])
	if v.seen[k] {
		v.fail("entry (%d,%d) visited twice", i, j)
		panic(stopWalk{})
	}
	v.seen[k] = true
	switch v.order {
	case 0:
		if k != v.n {
			v.fail("visit %d of a row-order walk is (%d,%d)", v.n, i, j)
		}
	case 1:
		if (j-v.b[2])*h+(i-v.b[0]) != v.n {
			v.fail("visit %d of a column-order walk is (%d,%d)", v.n, i, j)
		}
	}
	if !eqF(x, v.o.d.at(i, j)) {
		v.fail("visit(%d,%d) was given %v; the entry holds %v", i, j, x, v.o.d.at(i, j))
	}
	v.n++
	v.t.hashF(x)
	for len(v.events) > 0 && v.events[0] <= v.n-1 {
		v.events = v.events[1:]
		v.event()
	}
	if v.t.viol != nil {
		panic(stopWalk{})
	}
}

type stopWalk struct{}

func (v *wv) event() {
	k, nev, most := v.r.Intn(5), v.r.Intn(3), 2
	if v.t.deep > 0 { // a walk within a walk within a walk ...
		most, nev = v.t.deep, 1
		if k != 0 {
			k = 2
		}
	}
	switch {
	case k <= 1:
		v.w.touch(v.t, v.r)
		if v.t.deep > 0 && v.depth < most {
			v.event()
		}
	case k == 2 && v.depth < most:
		v.t.inc("nested-walk")
		if len(v.w.vs) > 0 && (len(v.w.ms) == 0 || v.r.Chance(0.25)) {
			v.w.vwalk(v.t, v.r, v.w.vs[v.r.Intn(len(v.w.vs))], v.r.Intn(8), nev, v.depth+1)
		} else if len(v.w.ms) > 0 {
			o := v.o
			if o == nil || v.r.Chance(0.4) {
				o = v.w.ms[v.r.Intn(len(v.w.ms))]
			}
			if o.d.R*o.d.C <= 400 {
				v.w.walk(v.t, v.r, o, v.r.Intn(12), nev, v.depth+1)
			}
		}
	default:
		v.t.inc("pause-in-visitor")
		simrt.Pause()
	}
}

func (v *wv) End() float64 {
	v.ends++
	if v.ends > 1 || v.starts != 1 {
		v.fail("end called %d times after %d starts", v.ends, v.starts)
	}
	for k, s := range v.seen {
		if !s {
			wd := v.b[3] - v.b[2] + 1
			v.fail("end called before entry (%d,%d) was visited", v.b[0]+k/wd, v.b[2]+k%wd)
			break
		}
	}
	return v.ret
}

type wvC struct{ wv }

func (v *wvC) Visit(i, j int, x float64) float64 {
	v.visit(i, j, x)
	ret := 0.0
	if v.o.cls != clsDiag || i == j {
		ret = float64(v.r.Range(-9, 9))
	}
	v.o.d.set(i, j, ret) // from now on
	return ret
}

type wvP struct{ wv }

func (v *wvP) Visit(i, j int, x float64) { v.visit(i, j, x) }

func pickEvents(r *Rng, n, cells int) []int {
	var ev []int
	for k := 0; k < n; k++ {
		ev = append(ev, r.Intn(cells))
	}
	for i := range ev {
		for j := i; j > 0 && ev[j] < ev[j-1]; j-- {
			ev[j], ev[j-1] = ev[j-1], ev[j]
		}
	}
	return ev
}

var walkNames = []string{"WalkInUpdateRowOrder", "WalkInUpdateColumnOrder", "WalkInUpdateOptimizedOrder",
	"WalkInUpdateRowOrderBounded", "WalkInUpdateColumnOrderBounded", "WalkInUpdateOptimizedOrderBounded",
	"WalkInRowOrder", "WalkInColumnOrder", "WalkInOptimizedOrder",
	"WalkInRowOrderBounded", "WalkInColumnOrderBounded", "WalkInOptimizedOrderBounded"}

func (w *WWorld) walk(t *T, r *Rng, o *MObj, kind, nev, depth int) {
	b := [4]int{0, o.d.R - 1, 0, o.d.C - 1}
	if kind%6 >= 3 {
		b[0], b[2] = r.Intn(o.d.R), r.Intn(o.d.C)
		b[1], b[3] = r.Range(b[0], o.d.R-1), r.Range(b[2], o.d.C-1)
		if r.Chance(0.25) {
			b[1], b[3] = o.d.R-1, o.d.C-1
		}
	}
	base := wv{w: w, t: t, r: NewRng(r.U64()), o: o, what: walkNames[kind] + "(" + clsName[o.cls] + ")", order: kind % 3, b: b, ret: float64(r.Range(100, 999)), depth: depth, change: kind < 6}
	cells := (b[1] - b[0] + 1) * (b[3] - b[2] + 1)
	base.events = pickEvents(base.r, abs(nev), cells)
	var got float64
	var v *wv
	out := t.call(nil, func() {
		if kind < 6 {
			c := &wvC{base}
			v = &c.wv
			got = walkUpdate(o.m, kind, c, b[0], b[1], b[2], b[3])
		} else {
			c := &wvP{base}
			v = &c.wv
			got = walkRead(o.m, kind-6, c, b[0], b[1], b[2], b[3])
		}
	})
	w.done(t, v, out, got)
}

func (w *WWorld) done(t *T, v *wv, out Outcome, got float64) {
	t.note("%s depth %d -> %s", v.what, v.depth, out.Kind)
	t.inc("walk")
	if t.viol != nil {
		return
	}
	switch out.Kind {
	case "ok":
	case "budget":
		t.fail("unbounded:"+v.what, "%s did not finish", v.what)
		return
	case "deadlock":
		return
	default:
		t.fail("unexpected-panic:"+v.what, "%s ended with %v", v.what, out)
		return
	}
	if v.starts != 1 || v.ends != 1 {
		v.fail("start called %d times, end %d times", v.starts, v.ends)
		return
	}
	if !eqF(got, v.ret) {
		v.fail("returned %v, end returned %v", got, v.ret)
	}
}

// vector visitors
type vv struct {
	wv
	vo     *VObj
	lo, hi int
	exact  bool
}

func (v *vv) Start(dim, lo, hi int) {
	v.starts++
	if v.starts > 1 || v.n > 0 || v.ends > 0 {
		v.fail("start called again or late")
	}
	if dim != len(v.vo.d) || lo != v.lo || hi != v.hi {
		v.fail("start(%d,%d,%d) on a vector of dimension %d walked over %d-%d", dim, lo, hi, len(v.vo.d), v.lo, v.hi)
	}
	v.seen = make([]bool, v.hi-v.lo+1)
	simrt.Yield()
}
func (v *vv) visit(i int, x float64) {
	if v.starts != 1 || v.ends != 0 {
		v.fail("visit outside start and end")
		panic(stopWalk{})
	}
	if i < v.lo || i > v.hi {
		v.fail("visit(%d) outside %d-%d", i, v.lo, v.hi)
		panic(stopWalk{})
	}
	if v.seen[i-v.lo] {
		v.fail("entry %d visited twice", i)
		panic(stopWalk{})
	}
	v.seen[i-v.lo] = true
	if v.exact && i-v.lo != v.n {
		v.fail("visit %d of a default-order walk is %d", v.n, i)
	}
	if !eqF(x, v.vo.d[i]) {
		v.fail("visit(%d) was given %v; the entry holds %v", i, x, v.vo.d[i])
	}
	v.n++
	v.t.hashF(x)
	for len(v.events) > 0 && v.events[0] <= v.n-1 {
		v.events = v.events[1:]
		v.event()
	}
	if v.t.viol != nil {
		panic(stopWalk{})
	}
}
func (v *vv) End() float64 {
	v.ends++
	if v.ends > 1 || v.starts != 1 {
		v.fail("end called %d times after %d starts", v.ends, v.starts)
	}
	for k, s := range v.seen {
		if !s {
			v.fail("end called before entry %d was visited", v.lo+k)
			break
		}
	}
	return v.ret
}

type vvC struct{ vv }

func (v *vvC) Visit(i int, x float64) float64 {
	v.visit(i, x)
	ret := float64(v.r.Range(-9, 9))
	v.vo.d[i] = ret
	return ret
}

type vvP struct{ vv }

func (v *vvP) Visit(i int, x float64) { v.visit(i, x) }

var vwalkNames = []string{"WalkInUpdateDefaultOrder", "WalkInUpdateOptimizedOrder", "WalkInUpdateDefaultOrderBounded", "WalkInUpdateOptimizedOrderBounded",
	"WalkInDefaultOrder", "WalkInOptimizedOrder", "WalkInDefaultOrderBounded", "WalkInOptimizedOrderBounded"}

func (w *WWorld) vwalk(t *T, r *Rng, o *VObj, kind, nev, depth int) {
	lo, hi := 0, len(o.d)-1
	if kind%4 >= 2 {
		if len(o.d) == 0 {
			return
		}
		lo = r.Intn(len(o.d))
		hi = r.Range(lo, len(o.d)-1)
	}
	base := vv{wv: wv{w: w, t: t, r: NewRng(r.U64()), what: "vector " + vwalkNames[kind], ret: float64(r.Range(100, 999)), depth: depth}, vo: o, lo: lo, hi: hi, exact: kind%2 == 0}
	if hi >= lo {
		base.events = pickEvents(base.r, abs(nev), hi-lo+1)
	}
	var got float64
	var v *wv
	out := t.call(nil, func() {
		if kind < 4 {
			c := &vvC{base}
			v = &c.wv
			got = vwalkUpdate(o.v, kind, c, lo, hi)
		} else {
			c := &vvP{base}
			v = &c.wv
			got = vwalkRead(o.v, kind-4, c, lo, hi)
		}
	})
	w.done(t, v, out, got)
}

var _ linear.RealMatrixChangingVisitor = (*wvC)(nil)
var _ linear.RealVectorChangingVisitor = (*vvC)(nil)
