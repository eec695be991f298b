package main

import (
	"math"
	"strings"

	"github.com/jtejido/linear"
)

// Requests that must be rejected, whatever the storage of the receiver.

type badOp struct {
	name string
	f    func(x *X)
}

var badOps []badOp

func badIndex(r *Rng, n, other int) int {
	c := []int{-1, n, n + 1, n + 51, -n - 1, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64}
	if other > n {
		c = append(c, other-1, other-1)
	}
	return c[r.Intn(len(c))]
}

// badRange returns a range of [0,n) that is not acceptable.
func badRange(r *Rng, n int) (int, int) {
	switch r.Intn(6) {
	case 0:
		return -1, r.Intn(n)
	case 1:
		return r.Intn(n), n
	case 2:
		return n, n
	case 3:
		return -2, -1
	case 4:
		if n > 1 {
			a := r.Range(1, n-1)
			return a, a - 1 - r.Intn(a)
		}
		return 0, -1
	}
	return 0, n + r.Intn(60)
}
func okRange(r *Rng, n int) (int, int) { a := r.Intn(n); return a, r.Range(a, n-1) }

// badBox returns a box of an R x C matrix that is not acceptable.
func badBox(r *Rng, R, C int) (a, b, c, d int) {
	a, b = okRange(r, R)
	c, d = okRange(r, C)
	switch r.Intn(3) {
	case 0:
		a, b = badRange(r, R)
	case 1:
		c, d = badRange(r, C)
	default:
		a, b = badRange(r, R)
		c, d = badRange(r, C)
	}
	return
}

// tattle is a visitor that must never be called.
type tattle struct{ calls int }

func (v *tattle) Start(rows, columns, startRow, endRow, startColumn, endColumn int) { v.calls++ }
func (v *tattle) End() float64                                                      { v.calls++; return 0 }

type tattleC struct{ tattle }

func (v *tattleC) Visit(i, j int, x float64) float64 { v.calls++; return x + 1 }

type tattleP struct{ tattle }

func (v *tattleP) Visit(i, j int, x float64) { v.calls++ }

type vtattle struct{ calls int }

func (v *vtattle) Start(dimension, start, end int) { v.calls++ }
func (v *vtattle) End() float64                    { v.calls++; return 0 }

type vtattleC struct{ vtattle }

func (v *vtattleC) Visit(i int, x float64) float64 { v.calls++; return x + 1 }

type vtattleP struct{ vtattle }

func (v *vtattleP) Visit(i int, x float64) { v.calls++ }

func init() {
	add := func(name string, f func(x *X)) { badOps = append(badOps, badOp{name, f}) }
	mat := func(name string, f func(x *X, o *MObj)) {
		add(name, func(x *X) {
			if o := x.recv(); o != nil {
				f(x, o)
			}
		})
	}
	vecOp := func(name string, f func(x *X, o *VObj)) {
		add(name, func(x *X) {
			if o := x.vrecv(); o != nil {
				f(x, o)
			}
		})
	}
	call := func(f func()) func() error { return func() error { f(); return nil } }
	nm := func(s string, o *MObj) string { return s + "(" + clsName[o.cls] + ")" }

	entry := func(name string, f func(m linear.RealMatrix, i, j int)) {
		mat(name+" out of range", func(x *X, o *MObj) {
			i, j := x.r.Intn(o.d.R), x.r.Intn(o.d.C)
			switch x.r.Intn(3) {
			case 0:
				i = badIndex(x.r, o.d.R, o.d.C)
			case 1:
				j = badIndex(x.r, o.d.C, o.d.R)
			default:
				i, j = badIndex(x.r, o.d.R, o.d.C), badIndex(x.r, o.d.C, o.d.R)
			}
			x.because(whyIdx("row", i, o.d.R), whyIdx("column", j, o.d.C))
			x.reject(nm(name+" out of range", o), call(func() { f(o.m, i, j) }))
		})
	}
	entry("At", func(m linear.RealMatrix, i, j int) { m.At(i, j) })
	entry("SetEntry", func(m linear.RealMatrix, i, j int) { m.SetEntry(i, j, 3) })
	entry("SetEntry 0", func(m linear.RealMatrix, i, j int) { m.SetEntry(i, j, 0) })
	entry("AddToEntry", func(m linear.RealMatrix, i, j int) { m.AddToEntry(i, j, 3) })
	entry("AddToEntry 0", func(m linear.RealMatrix, i, j int) { m.AddToEntry(i, j, 0) })
	entry("MultiplyEntry", func(m linear.RealMatrix, i, j int) { m.MultiplyEntry(i, j, 3) })

	line := func(name string, row bool, f func(x *X, m linear.RealMatrix, k, n int)) {
		mat(name+" out of range", func(x *X, o *MObj) {
			k, n := badIndex(x.r, o.d.R, o.d.C), o.d.C
			x.because(whyIdx("row", k, o.d.R))
			if !row {
				k, n = badIndex(x.r, o.d.C, o.d.R), o.d.R
				x.because(whyIdx("column", k, o.d.C))
			}
			x.reject(nm(name+" out of range", o), call(func() { f(x, o.m, k, n) }))
		})
	}
	line("RowAt", true, func(x *X, m linear.RealMatrix, k, n int) { m.RowAt(k) })
	line("RowVectorAt", true, func(x *X, m linear.RealMatrix, k, n int) { m.RowVectorAt(k) })
	line("RowMatrixAt", true, func(x *X, m linear.RealMatrix, k, n int) { m.RowMatrixAt(k) })
	line("ColumnAt", false, func(x *X, m linear.RealMatrix, k, n int) { m.ColumnAt(k) })
	line("ColumnVectorAt", false, func(x *X, m linear.RealMatrix, k, n int) { m.ColumnVectorAt(k) })
	line("ColumnMatrixAt", false, func(x *X, m linear.RealMatrix, k, n int) { m.ColumnMatrixAt(k) })

	setLine := func(name string, row bool, f func(x *X, m linear.RealMatrix, k int, v []float64)) {
		line(name, row, func(x *X, m linear.RealMatrix, k, n int) { f(x, m, k, make([]float64, n)) })
		mat(name+" of wrong length", func(x *X, o *MObj) {
			k, n := x.r.Intn(o.d.R), o.d.C
			if !row {
				k, n = x.r.Intn(o.d.C), o.d.R
			}
			l := n + x.r.Pick(1, 2, -1, -1)
			if row && o.d.R != n && x.r.Chance(0.4) {
				l = o.d.R
			}
			if !row && o.d.C != n && x.r.Chance(0.4) {
				l = o.d.C
			}
			if l < 0 {
				l = n + 1
			}
			v := make([]float64, l)
			if o.cls != clsDiag || x.r.Chance(0.5) {
				v = intVec(x.r, l)
			}
			if l == 0 && name != "SetRow" && name != "SetColumn" {
				return
			}
			c := append([]float64{}, v...)
			if row {
				x.because(whyShape(1, l, 1, n, false))
			} else {
				x.because(whyShape(l, 1, n, 1, false))
			}
			x.reject(nm(name+" of wrong length", o), call(func() { f(x, o.m, k, v) }))
			if !eqSlice(c, v) {
				x.t.fail("operand-changed:"+name, "%s changed the slice it rejected", name)
			}
		})
		mat(name+" unholdable by diagonal", func(x *X, o *MObj) {
			if o.cls != clsDiag || o.d.R < 2 {
				return
			}
			k := x.r.Intn(o.d.R)
			v := make([]float64, o.d.R)
			v[k] = 5
			p := (k + 1 + x.r.Intn(o.d.R-1)) % o.d.R
			v[p] = float64(x.r.Pick(1, -2, 3))
			x.because(whyLarge(v[p]))
			x.reject(nm(name+" with off-diagonal value", o), call(func() { f(x, o.m, k, v) }))
		})
	}
	setLine("SetRow", true, func(x *X, m linear.RealMatrix, k int, v []float64) { m.SetRow(k, v) })
	setLine("SetColumn", false, func(x *X, m linear.RealMatrix, k int, v []float64) { m.SetColumn(k, v) })
	setLine("SetRowVector", true, func(x *X, m linear.RealMatrix, k int, v []float64) { m.SetRowVector(k, x.mkVec(v).v) })
	setLine("SetColumnVector", false, func(x *X, m linear.RealMatrix, k int, v []float64) { m.SetColumnVector(k, x.mkVec(v).v) })
	setLine("SetRowMatrix", true, func(x *X, m linear.RealMatrix, k int, v []float64) {
		d := newDM(1, len(v))
		copy(d.A, v)
		m.SetRowMatrix(k, x.mkMat(d).m)
	})
	setLine("SetColumnMatrix", false, func(x *X, m linear.RealMatrix, k int, v []float64) {
		d := newDM(len(v), 1)
		copy(d.A, v)
		m.SetColumnMatrix(k, x.mkMat(d).m)
	})
	mat("SetRowMatrix transposed", func(x *X, o *MObj) {
		if o.d.C > 1 {
			a := x.mkMat(newDM(o.d.C, 1))
			x.because(whyShape(o.d.C, 1, 1, o.d.C, false))
			x.reject(nm("SetRowMatrix transposed", o), call(func() { o.m.SetRowMatrix(x.r.Intn(o.d.R), a.m) }))
		}
	})
	mat("SetColumnMatrix transposed", func(x *X, o *MObj) {
		if o.d.R > 1 {
			a := x.mkMat(newDM(1, o.d.R))
			x.because(whyShape(1, o.d.R, o.d.R, 1, false))
			x.reject(nm("SetColumnMatrix transposed", o), call(func() { o.m.SetColumnMatrix(x.r.Intn(o.d.C), a.m) }))
		}
	})
	mat("SetEntry unholdable by diagonal", func(x *X, o *MObj) {
		if o.cls != clsDiag || o.d.R < 2 {
			return
		}
		i := x.r.Intn(o.d.R)
		j := (i + 1 + x.r.Intn(o.d.R-1)) % o.d.R
		v := float64(x.r.Pick(1, -1, 3))
		x.because(whyLarge(v))
		if x.r.Chance(0.5) {
			x.reject(nm("SetEntry off-diagonal", o), call(func() { o.m.SetEntry(i, j, v) }))
		} else {
			x.reject(nm("AddToEntry off-diagonal", o), call(func() { o.m.AddToEntry(i, j, v) }))
		}
	})
	mat("SubMatrix bad range", func(x *X, o *MObj) {
		a, b, c, d := badBox(x.r, o.d.R, o.d.C)
		x.because(whyBox(a, b, c, d, o.d.R, o.d.C))
		x.reject(nm("SubMatrix bad range", o), call(func() { o.m.SubMatrix(a, b, c, d) }))
	})
	mat("SetSubMatrix bad", func(x *X, o *MObj) {
		h, w := x.r.Range(1, o.d.R), x.r.Range(1, o.d.C)
		r0, c0 := x.r.Range(0, o.d.R-h), x.r.Range(0, o.d.C-w)
		s := intDM(x.r, h, w, false).slices()
		why := "out of range"
		switch x.r.Intn(8) {
		case 7:
			why = "nil"
			s = nil
		case 0:
			r0 = o.d.R - h + 1 + x.r.Intn(3)
		case 1:
			c0 = o.d.C - w + 1 + x.r.Intn(3)
		case 2:
			r0 = -1 - x.r.Intn(2)
		case 3:
			c0 = -1 - x.r.Intn(2)
		case 4:
			if h < 2 {
				return
			}
			k := x.r.Range(1, h-1)
			why = "ragged"
			if w > 1 && x.r.Chance(0.5) {
				s[k] = s[k][:w-1]
			} else {
				s[k] = append(s[k], 1)
			}
		case 5:
			why = "empty"
			s = [][]float64{}
		case 6:
			why = "empty rows"
			for i := range s {
				s[i] = []float64{}
			}
		}
		cp := copy2(s)
		switch why {
		case "nil":
			x.because(whyPlain(linear.EINV, "invalid input"))
		case "empty", "empty rows":
			x.because(whyPlain(linear.ENODAT, "at least one"))
			if why == "empty" && o.cls == clsBlk {
				x.excuse() // Go's own run-time error
			}
		case "ragged":
			x.because(whyRagged(s))
		default:
			x.because(whyIdx("row", r0, o.d.R), whyIdx("row", r0+h-1, o.d.R), whyIdx("column", c0, o.d.C), whyIdx("column", c0+w-1, o.d.C))
		}
		x.reject(nm("SetSubMatrix "+why, o), call(func() { o.m.SetSubMatrix(s, r0, c0) }))
		for i := range s {
			if !eqSlice(s[i], cp[i]) {
				x.t.fail("operand-changed:SetSubMatrix", "a rejected SetSubMatrix changed its argument")
			}
		}
	})
	mat("SetSubMatrix unholdable by diagonal", func(x *X, o *MObj) {
		if o.cls != clsDiag || o.d.R < 2 {
			return
		}
		n := o.d.R
		s := newDM(n, n)
		for i := 0; i < n; i++ {
			s.set(i, i, 9)
		}
		i := x.r.Intn(n)
		s.set(i, (i+1+x.r.Intn(n-1))%n, 4)
		x.because(whyLarge(4))
		x.reject(nm("SetSubMatrix off-diagonal", o), call(func() { o.m.SetSubMatrix(s.slices(), 0, 0) }))
	})
	mism := func(name string, shape func(x *X, o *MObj) (int, int), f func(m, a linear.RealMatrix)) {
		mat(name+" mismatched", func(x *X, o *MObj) {
			r, c := shape(x, o)
			if r < 1 || c < 1 {
				return
			}
			cls := x.r.Intn(4)
			if cls == clsDiag && r != c {
				cls = clsArr
			}
			d := intDM(x.r, r, c, cls == clsDiag)
			a := &MObj{m: buildMat(x.r, cls, d), d: d, cls: cls}
			if x.op.K == "BadRead" && x.r.Chance(0.6) { // of the objects all tasks share
				if b := x.g.ms[x.r.Intn(len(x.g.ms))]; mismatched(name, o.d, b.d) {
					a, cls, r, c = b, b.cls, b.d.R, b.d.C
				}
			}
			switch name {
			case "Add", "Subtract":
				x.because(whyShape(r, c, o.d.R, o.d.C, true))
			case "Multiply":
				x.because(whyDim(o.d.C, r, true))
			case "PreMultiplyMatrix":
				x.because(whyDim(c, o.d.R, true))
			}
			if cls == clsFor && name == "PreMultiplyMatrix" {
				x.excuse() // the caller's own multiplication
			}
			x.reject(sf("%s(%s,%s) mismatched", name, clsName[o.cls], clsName[cls]), call(func() { f(o.m, a.m) }))
			x.sameM(name, a)
		})
	}
	other := func(x *X, n int) int {
		k := n + x.r.Pick(1, 1, -1, 52)
		if k < 1 {
			k = n + 1
		}
		return k
	}
	sumShape := func(x *X, o *MObj) (int, int) {
		switch x.r.Intn(3) {
		case 0:
			return other(x, o.d.R), o.d.C
		case 1:
			return o.d.R, other(x, o.d.C)
		}
		if o.d.R != o.d.C {
			return o.d.C, o.d.R
		}
		return o.d.R + 1, o.d.C + 1
	}
	mism("Add", sumShape, func(m, a linear.RealMatrix) { m.Add(a) })
	mism("Subtract", sumShape, func(m, a linear.RealMatrix) { m.Subtract(a) })
	mism("Multiply", func(x *X, o *MObj) (int, int) { return other(x, o.d.C), x.r.Range(1, 4) }, func(m, a linear.RealMatrix) { m.Multiply(a) })
	mism("PreMultiplyMatrix", func(x *X, o *MObj) (int, int) { return x.r.Range(1, 4), other(x, o.d.R) }, func(m, a linear.RealMatrix) { m.PreMultiplyMatrix(a) })
	mat("Operate mismatched", func(x *X, o *MObj) {
		pre := x.r.Chance(0.5)
		n := other(x, o.d.C)
		if pre {
			n = other(x, o.d.R)
		}
		v := intVec(x.r, n)
		c := append([]float64{}, v...)
		if pre {
			x.because(whyDim(n, o.d.R, true))
		} else {
			x.because(whyDim(n, o.d.C, true))
		}
		if x.r.Chance(0.5) {
			a := x.mkVec(v)
			x.reject(sf("OperateVector(%s,%s) pre=%v mismatched", clsName[o.cls], clsName[a.cls], pre), call(func() {
				if pre {
					o.m.PreMultiplyVector(a.v)
				} else {
					o.m.OperateVector(a.v)
				}
			}))
			x.sameV("OperateVector", a)
			return
		}
		x.reject(sf("Operate(%s) pre=%v mismatched", clsName[o.cls], pre), call(func() {
			if pre {
				o.m.PreMultiply(v)
			} else {
				o.m.Operate(v)
			}
		}))
		if !eqSlice(c, v) {
			x.t.fail("operand-changed:Operate", "a rejected Operate changed its argument")
		}
	})
	mat("walk bad range", func(x *X, o *MObj) {
		a, b, c, d := badBox(x.r, o.d.R, o.d.C)
		k := 3 + x.r.Intn(3)
		nmk := []string{"RowOrder", "ColumnOrder", "OptimizedOrder"}[k-3]
		x.because(whyBox(a, b, c, d, o.d.R, o.d.C))
		if x.r.Chance(0.5) {
			v := &tattleC{}
			x.reject(nm("WalkInUpdate"+nmk+"Bounded bad range", o), call(func() { walkUpdate(o.m, k, v, a, b, c, d) }))
			if v.calls > 0 {
				x.t.fail("visitor-touched:"+nmk, "a rejected walk (%d,%d,%d,%d of %s %s) called its visitor %d times", a, b, c, d, o.d.dims(), clsName[o.cls], v.calls)
			}
		} else {
			v := &tattleP{}
			x.reject(nm("WalkIn"+nmk+"Bounded bad range", o), call(func() { walkRead(o.m, k, v, a, b, c, d) }))
			if v.calls > 0 {
				x.t.fail("visitor-touched:"+nmk, "a rejected walk (%d,%d,%d,%d of %s %s) called its visitor %d times", a, b, c, d, o.d.dims(), clsName[o.cls], v.calls)
			}
		}
	})
	mat("Trace non-square", func(x *X, o *MObj) {
		if o.d.R != o.d.C {
			x.because(whySquare(o.d.R, o.d.C))
			x.reject(nm("Trace non-square", o), call(func() { o.m.Trace() }))
		}
	})
	mat("Power bad", func(x *X, o *MObj) {
		if o.d.R != o.d.C {
			x.because(whySquare(o.d.R, o.d.C))
			x.reject(nm("Power non-square", o), call(func() { linear.Power(o.m, x.r.Intn(4)) }))
		} else {
			k := -1 - x.r.Intn(3)
			x.because(whyNegative(k, "exponent"))
			x.reject(nm("Power negative", o), call(func() { linear.Power(o.m, k) }))
		}
	})
	add("CopySubMatrix bad", func(x *X) {
		o := x.anyM()
		if o == nil {
			return
		}
		a, b, c, d := 0, 0, 0, 0
		why := "bad range"
		var dst *DM
		if x.r.Chance(0.6) {
			a, b, c, d = badBox(x.r, o.d.R, o.d.C)
			dst = intDM(x.r, o.d.R+2, o.d.C+2, false)
		} else {
			a, b = okRange(x.r, o.d.R)
			c, d = okRange(x.r, o.d.C)
			h, w := b-a+1, d-c+1
			why = "small destination"
			if x.r.Chance(0.5) && h > 1 {
				h--
			} else if w > 1 {
				w--
			} else {
				return
			}
			dst = intDM(x.r, h, w, false)
		}
		s := dst.slices()
		if why == "small destination" && x.r.Chance(0.5) {
			// one row too short, the others long enough
			why = "ragged destination"
			h, w := b-a+1, d-c+1
			dst = intDM(x.r, h, w, false)
			s = dst.slices()
			l := x.r.Intn(h)
			s[l] = s[l][:x.r.Intn(w)]
		}
		if why == "bad range" {
			x.because(whyBox(a, b, c, d, o.d.R, o.d.C))
		} else {
			x.because(whyDest(s, b-a+1, d-c+1))
		}
		x.reject(nm("CopySubMatrix "+why, o), call(func() { linear.CopySubMatrix(o.m, a, b, c, d, s) }))
		for i := range s {
			if !eqSlice(s[i], dst.row(i)[:len(s[i])]) {
				x.t.fail("destination-changed:CopySubMatrix", "a rejected CopySubMatrix (%s) wrote to row %d of its destination", why, i)
				break
			}
		}
	})
	add("CopySubMatrixFromIndices bad", func(x *X) {
		o := x.anyM()
		if o == nil {
			return
		}
		nr, nc := x.r.Range(1, 3), x.r.Range(1, 3)
		rs, cs := make([]int, nr), make([]int, nc)
		for i := range rs {
			rs[i] = x.r.Intn(o.d.R)
		}
		for i := range cs {
			cs[i] = x.r.Intn(o.d.C)
		}
		h, w := nr, nc
		why := "bad index"
		switch x.r.Intn(4) {
		case 0:
			rs[x.r.Intn(nr)] = badIndex(x.r, o.d.R, o.d.C)
		case 1:
			cs[x.r.Intn(nc)] = badIndex(x.r, o.d.C, o.d.R)
		case 2:
			why = "no index"
			e := []int(nil)
			if x.r.Chance(0.5) {
				e = []int{}
			}
			if x.r.Chance(0.5) {
				rs = e
			} else {
				cs = e
			}
		case 3:
			why = "small destination"
			if nc > 1 && x.r.Chance(0.5) {
				w--
			} else if nr > 1 {
				h--
			} else {
				return
			}
		}
		switch why {
		case "bad index":
			for _, i := range rs {
				x.why = append(x.why, whyIdx("row", i, o.d.R)...)
			}
			for _, i := range cs {
				x.why = append(x.why, whyIdx("column", i, o.d.C)...)
			}
		case "no index":
			x.because(whyData())
		}
		if why != "small destination" && x.r.Chance(0.5) {
			x.reject(nm("SubMatrix by index: "+why, o), call(func() { linear.SubMatrix(o.m, rs, cs) }))
			return
		}
		if why == "small destination" && x.r.Chance(0.5) {
			why, h, w = "ragged destination", nr, nc
		}
		dst := intDM(x.r, h, w, false)
		s := dst.slices()
		if why == "ragged destination" {
			l := x.r.Intn(h)
			s[l] = s[l][:x.r.Intn(w)]
		}
		if why == "small destination" || why == "ragged destination" {
			x.because(whyDest(s, nr, nc))
		}
		x.reject(nm("CopySubMatrixFromIndices "+why, o), call(func() { linear.CopySubMatrixFromIndices(o.m, rs, cs, s) }))
		for i := range s {
			if !eqSlice(s[i], dst.row(i)[:len(s[i])]) {
				x.t.fail("destination-changed:CopySubMatrixFromIndices", "a rejected CopySubMatrixFromIndices (%s) wrote to row %d of its destination", why, i)
				break
			}
		}
	})
	add("matrix constructor bad", func(x *X) {
		r := x.r
		k := r.Intn(18)
		bad := func(name string, f func() (interface{}, error)) {
			x.reject(name, func() error { _, err := f(); return err })
		}
		dims := func() (int, int) {
			a, b := r.Range(1, 5), r.Range(1, 5)
			if r.Chance(0.5) {
				a = r.Pick(0, -1, -3)
			} else {
				b = r.Pick(0, -1, -3)
			}
			return a, b
		}
		ragged := func() [][]float64 {
			s := intDM(r, r.Range(2, 4), r.Range(1, 4), false).slices()
			l := r.Range(1, len(s)-1)
			if r.Chance(0.5) && len(s[l]) > 1 {
				s[l] = s[l][:len(s[l])-1]
			} else {
				s[l] = append(s[l], 1)
			}
			return s
		}
		empty := func() [][]float64 {
			switch r.Intn(3) {
			case 0:
				return nil
			case 1:
				return [][]float64{}
			}
			return [][]float64{{}, {}}
		}
		switch k {
		case 0:
			a, b := dims()
			x.because(whyPositive(a, b))
			bad("NewArray2DRowRealMatrix bad dimension", func() (interface{}, error) { return linear.NewArray2DRowRealMatrix(a, b) })
		case 1:
			a, b := dims()
			x.because(whyPositive(a, b))
			bad("NewBlockRealMatrix bad dimension", func() (interface{}, error) { return linear.NewBlockRealMatrix(a, b) })
		case 2:
			a, b := dims()
			x.because(whyPositive(a, b))
			bad("NewRealMatrixWithDimension bad dimension", func() (interface{}, error) { return linear.NewRealMatrixWithDimension(a, b) })
		case 3:
			n := r.Pick(0, -1)
			x.because(whyPositive(n))
			bad("NewDiagonalMatrixWithDimension bad dimension", func() (interface{}, error) { return linear.NewDiagonalMatrixWithDimension(n) })
		case 4:
			n := r.Pick(0, -1)
			x.because(whyPositive(n))
			bad("NewRealIdentityMatrix bad dimension", func() (interface{}, error) { return linear.NewRealIdentityMatrix(n) })
		case 5:
			s, cp := ragged(), r.Chance(0.5)
			x.because(whyRagged(s))
			bad("NewArray2DRowRealMatrixFromSlices ragged", func() (interface{}, error) { return linear.NewArray2DRowRealMatrixFromSlices(s, cp) })
		case 6:
			s := ragged()
			x.because(whyRagged(s))
			bad("NewBlockRealMatrixFromSlices ragged", func() (interface{}, error) { return linear.NewBlockRealMatrixFromSlices(s) })
		case 7:
			s := ragged()
			x.because(whyRagged(s))
			bad("NewRealMatrixFromSlices ragged", func() (interface{}, error) { return linear.NewRealMatrixFromSlices(s) })
		case 8:
			s, cp := empty(), r.Chance(0.5)
			x.because(whyData())
			bad("NewArray2DRowRealMatrixFromSlices empty", func() (interface{}, error) { return linear.NewArray2DRowRealMatrixFromSlices(s, cp) })
		case 9:
			s := empty()
			x.because(whyData(), whyPositive(0))
			if len(s) == 0 {
				x.excuse() // Go's own run-time error
			}
			bad("NewBlockRealMatrixFromSlices empty", func() (interface{}, error) { return linear.NewBlockRealMatrixFromSlices(s) })
		case 10:
			s := empty()
			x.because(whyData(), whyPositive(0))
			if len(s) == 0 {
				x.excuse() // Go's own run-time error
			}
			bad("NewRealMatrixFromSlices empty", func() (interface{}, error) { return linear.NewRealMatrixFromSlices(s) })
		case 11:
			R, C := r.Pick(1, 3, 52, 53, 60), r.Pick(1, 3, 52, 53, 60)
			b := toBlocks(newDM(R, C))
			l := r.Intn(len(b))
			if r.Chance(0.5) {
				b[l] = append(b[l], 1)
			} else {
				b[l] = b[l][:len(b[l])-1]
			}
			x.because(whyDim(len(b[l]), len(toBlocks(newDM(R, C))[l]), false))
			bad("NewBlockRealMatrixFromBlockData wrong block length", func() (interface{}, error) {
				return linear.NewBlockRealMatrixFromBlockData(R, C, b)
			})
		case 12:
			R, C := r.Pick(1, 3, 52, 53, 60), r.Pick(1, 3, 52, 53, 60)
			b := toBlocks(newDM(R, C))
			if r.Chance(0.5) {
				b = append(b, append([]float64{}, b[len(b)-1]...))
			} else {
				b = b[:len(b)-1]
			}
			x.because(whyDim(len(b), len(toBlocks(newDM(R, C))), false))
			bad("NewBlockRealMatrixFromBlockData wrong number of blocks", func() (interface{}, error) {
				return linear.NewBlockRealMatrixFromBlockData(R, C, b)
			})
		case 13:
			var v []float64
			if r.Chance(0.5) {
				v = []float64{}
			}
			x.because(whyData())
			bad("NewArray2DRowRealMatrixFromSlice empty", func() (interface{}, error) { return linear.NewArray2DRowRealMatrixFromSlice(v) })
		case 14:
			// a matrix without data yet
			m := new(linear.Array2DRowRealMatrix)
			s := ragged()
			i, j := 0, 0
			switch r.Intn(4) {
			case 0:
				s = empty()
			case 1:
				i, s = r.Range(1, 2), intDM(r, 2, 2, false).slices()
			case 2:
				j, s = r.Range(1, 2), intDM(r, 2, 2, false).slices()
			}
			switch {
			case i > 0:
				x.because(whyPlain(linear.EILLSTATE, sf("first %d rows", i)))
			case j > 0:
				x.because(whyPlain(linear.EILLSTATE, sf("first %d columns", j)))
			case len(s) == 0 || len(s[0]) == 0:
				x.because(whyData())
			default:
				x.because(whyRagged(s))
			}
			x.reject("SetSubMatrix on a matrix without data", call(func() { m.SetSubMatrix(s, i, j) }))
			if m.RowDimension() != 0 || m.ColumnDimension() != 0 || m.DataRef() != nil {
				x.t.fail("receiver-changed:SetSubMatrix", "a rejected SetSubMatrix on a matrix without data left it %d x %d", m.RowDimension(), m.ColumnDimension())
			}
			d := intDM(r, r.Range(1, 4), r.Range(1, 4), false)
			x.exec("SetSubMatrix on a matrix without data", func() { m.SetSubMatrix(d.slices(), 0, 0) }, execOpt{})
			x.sameM("SetSubMatrix on a matrix without data", &MObj{m: m, d: d, cls: clsArr})
		case 15:
			switch r.Intn(3) {
			case 0:
				cp := r.Chance(0.5)
				x.because(whyData())
				bad("NewDiagonalMatrix nil", func() (interface{}, error) { return linear.NewDiagonalMatrix(nil, cp) })
			case 1:
				x.because(whyData())
				bad("NewDiagonalMatrixFromSlice nil", func() (interface{}, error) { return linear.NewDiagonalMatrixFromSlice(nil) })
			case 2:
				x.because(whyData())
				bad("NewRealDiagonalMatrix nil", func() (interface{}, error) { return linear.NewRealDiagonalMatrix(nil) })
			}
		case 16:
			a, b := dims()
			var s [][]float64
			if r.Chance(0.5) {
				s = [][]float64{{}}
			}
			x.because(whyPositive(a, b))
			bad("NewBlockRealMatrixFromBlockData bad dimension", func() (interface{}, error) { return linear.NewBlockRealMatrixFromBlockData(a, b, s) })
		case 17:
			var v []float64
			if r.Chance(0.5) {
				v = []float64{}
			}
			x.because(whyPositive(0), whyData())
			bad("NewRealMatrixWithDiagonal empty", func() (interface{}, error) { return linear.NewRealMatrixWithDiagonal(v) })
		}
	})
	add("diagonal inverse singular", func(x *X) {
		n := x.r.Range(1, 5)
		v := make([]float64, n)
		for i := range v {
			v[i] = 2
		}
		v[x.r.Intn(n)] = 0
		m := must(linear.NewDiagonalMatrix(v, true))
		x.because(whyPlain(linear.ESING, "singular"))
		x.reject("Inverse(singular diagonal)", call(func() { m.Inverse() }))
		x.sameM("Inverse(singular diagonal)", &MObj{m: m, d: diagDM(v), cls: clsDiag})
	})
	mat("diagonal sums unholdable", func(x *X, o *MObj) {
		if o.cls != clsDiag || o.d.R < 2 {
			return
		}
		x.because(whyLarge(2))
		x.reject("ScalarAdd(diag)", call(func() { o.m.ScalarAdd(2) }))
	})

	// ---------------------------------------------------------------- vectors
	vent := func(name string, f func(v linear.RealVector, i int)) {
		vecOp(name+" out of range", func(x *X, o *VObj) {
			i := badIndex(x.r, len(o.d), 0)
			x.because(whyIdx("index", i, len(o.d)))
			x.reject(name+" out of range", call(func() { f(o.v, i) }))
		})
	}
	vent("VAt", func(v linear.RealVector, i int) { v.At(i) })
	vent("VSetEntry", func(v linear.RealVector, i int) { v.SetEntry(i, 1) })
	vent("VAddToEntry", func(v linear.RealVector, i int) { v.AddToEntry(i, 1) })
	vecOp("SubVector bad", func(x *X, o *VObj) {
		n := len(o.d)
		i, l := 0, n+1
		switch x.r.Intn(4) {
		case 0:
			i, l = -1, 1
		case 1:
			i, l = n, 1
		case 2:
			if n == 0 {
				return
			}
			i = x.r.Intn(n)
			l = n - i + 1 + x.r.Intn(2)
		case 3:
			i, l = 0, -1-x.r.Intn(3)
		}
		if l < 0 {
			x.because(whyNegative(l, "number of elements"))
		} else {
			x.because(whyIdx("index", i, n), whyIdx("index", i+l-1, n))
		}
		x.reject("SubVector bad", call(func() { o.v.SubVector(i, l) }))
	})
	vecOp("SetSubVector bad", func(x *X, o *VObj) {
		n := len(o.d)
		l := x.r.Range(1, n+2)
		i := n - l + 1
		if x.r.Chance(0.3) {
			i = -1
		}
		if i < -3 {
			i = -1
		}
		a := x.mkVec(intVec(x.r, l))
		x.because(whyIdx("index", i, n), whyIdx("index", i+l-1, n))
		x.reject("SetSubVector("+clsName[a.cls]+") bad", call(func() { o.v.SetSubVector(i, a.v) }))
		x.sameV("SetSubVector", a)
		if av, ok := o.v.(*linear.ArrayRealVector); ok {
			s := intVec(x.r, l)
			x.because(whyIdx("index", i, n), whyIdx("index", i+l-1, n))
			x.reject("SetSubVectorWithSlice bad", call(func() { av.SetSubVectorWithSlice(i, s) }))
		}
	})
	vmis := func(name string, f func(v, a linear.RealVector)) {
		vecOp(name+" mismatched", func(x *X, o *VObj) {
			n := len(o.d) + x.r.Pick(1, 2, -1)
			if n < 0 {
				n = 1
			}
			a := x.mkVec(intVec(x.r, n))
			x.because(whyDim(len(o.d), n, true))
			if name == "Projection" || name == "VecCosine" {
				x.why = append(x.why, whyPlain(linear.EARITH, "zero norm")...)
			}
			x.reject(name+"("+clsName[a.cls]+") mismatched", call(func() { f(o.v, a.v) }))
			x.sameV(name, a)
		})
	}
	vmis("VAdd", func(v, a linear.RealVector) { v.Add(a) })
	vmis("VSubtract", func(v, a linear.RealVector) { v.Subtract(a) })
	vmis("VEBEMultiply", func(v, a linear.RealVector) { v.EBEMultiply(a) })
	vmis("VEBEDivide", func(v, a linear.RealVector) { v.EBEDivide(a) })
	vmis("VCombine", func(v, a linear.RealVector) { v.Combine(2, 3, a) })
	vmis("VCopyFrom", func(v, a linear.RealVector) { v.CopyFrom(a) })
	vmis("VecDotProduct", func(v, a linear.RealVector) { linear.VecDotProduct(v, a) })
	vmis("VecDistance", func(v, a linear.RealVector) { linear.VecDistance(v, a) })
	vmis("VecL1Distance", func(v, a linear.RealVector) { linear.VecL1Distance(v, a) })
	vmis("VecLInfDistance", func(v, a linear.RealVector) { linear.VecLInfDistance(v, a) })
	vmis("Projection", func(v, a linear.RealVector) { linear.Projection(v, a) })
	vmis("VecCosine", func(v, a linear.RealVector) { linear.VecCosine(v, a) })
	vecOp("zero norm", func(x *X, o *VObj) {
		z := x.mkVec(make([]float64, len(o.d)))
		x.because(whyPlain(linear.EARITH, "zero norm"))
		switch x.r.Intn(4) {
		case 0:
			x.reject("Projection on zero", call(func() { linear.Projection(o.v, z.v) }))
		case 1:
			x.reject("VecCosine of zero", call(func() { linear.VecCosine(o.v, z.v) }))
		case 2:
			x.reject("UnitVector of zero", call(func() { linear.UnitVector(z.v) }))
		case 3:
			a := must(linear.NewArrayRealVector(make([]float64, len(o.d)), true))
			x.reject("Unitize zero", call(func() { a.Unitize() }))
			z = &VObj{v: a, d: make([]float64, len(o.d))}
		}
		x.sameV("zero norm", z)
	})
	vecOp("vector walk bad range", func(x *X, o *VObj) {
		n := len(o.d)
		a, b := 0, 0
		if n == 0 {
			a, b = x.r.Pick(-1, 0, 1), x.r.Pick(-1, 0, 1)
		} else {
			a, b = badRange(x.r, n)
		}
		k := 2 + x.r.Intn(2)
		x.because(whyRange("index", a, b, n))
		if x.r.Chance(0.5) {
			v := &vtattleC{}
			x.reject("vector update walk bad range", call(func() { vwalkUpdate(o.v, k, v, a, b) }))
			if v.calls > 0 {
				x.t.fail("visitor-touched:vector", "a rejected walk (%d,%d of %d) called its visitor %d times", a, b, n, v.calls)
			}
		} else {
			v := &vtattleP{}
			x.reject("vector walk bad range", call(func() { vwalkRead(o.v, k, v, a, b) }))
			if v.calls > 0 {
				x.t.fail("visitor-touched:vector", "a rejected walk (%d,%d of %d) called its visitor %d times", a, b, n, v.calls)
			}
		}
	})
	vecOp("iterate beyond end", func(x *X, o *VObj) {
		it := o.v.Iterator()
		for i := 0; i < len(o.d); i++ {
			it.Next()
		}
		x.excuse() // a plain panic
		x.reject("Next beyond the end", call(func() { it.Next() }))
		if it.HasNext() {
			x.t.fail("wrong-result:HasNext", "HasNext after the end")
		}
	})
	add("vector constructor bad", func(x *X) {
		switch x.r.Intn(8) {
		case 6:
			a := must(linear.NewArrayRealVector(intVec(x.r, 2), true))
			p, q := a, a
			switch x.r.Intn(3) {
			case 0:
				p = nil
			case 1:
				q = nil
			default:
				p, q = nil, nil
			}
			x.because(whyData())
			x.reject("NewArrayRealVectorFromTwoArrayRealVector nil", func() error {
				_, e := linear.NewArrayRealVectorFromTwoArrayRealVector(p, q)
				return e
			})
		case 7:
			a := x.mkVec(intVec(x.r, 2)).v
			p, q := a, a
			switch x.r.Intn(3) {
			case 0:
				p = nil
			case 1:
				q = nil
			default:
				p, q = nil, nil
			}
			x.because(whyData())
			x.reject("NewArrayRealVectorFromTwoRealVector nil", func() error {
				_, e := linear.NewArrayRealVectorFromTwoRealVector(p, q)
				return e
			})
		case 0:
			cp := x.r.Chance(0.5)
			x.because(whyData())
			x.reject("NewArrayRealVector nil", func() error { _, e := linear.NewArrayRealVector(nil, cp); return e })
		case 1:
			x.because(whyData())
			x.reject("NewRealVector nil", func() error { _, e := linear.NewRealVector(nil); return e })
		case 2:
			x.because(whyData())
			x.reject("NewArrayRealVectorFromSlice nil", func() error { _, e := linear.NewArrayRealVectorFromSlice(nil); return e })
		case 3:
			n := -1 - x.r.Intn(3)
			x.excuse() // Go's own run-time error
			x.reject("NewSizedArrayRealVector negative", func() error { _, e := linear.NewSizedArrayRealVector(n); return e })
		case 4:
			n := -1 - x.r.Intn(3)
			x.excuse() // Go's own run-time error
			x.reject("NewSizedArrayRealVectorWithPreset negative", func() error { _, e := linear.NewSizedArrayRealVectorWithPreset(n, 1); return e })
		case 5:
			x.because(whyData())
			x.reject("NewArrayRealVectorCopy nil", func() error { _, e := linear.NewArrayRealVectorCopy(nil); return e })
		}
	})
	reads := readOps()
	histOps["BadRead"] = func(x *X) {
		b := reads[abs(x.op.Arg(1))%len(reads)]
		if x.op.Arg(1)%3 == 0 { // mostly what takes two shared objects
			b = reads[abs(x.op.Arg(1)/3)%len(reads)]
			for _, c := range reads {
				if c.name == []string{"Add", "Subtract", "Multiply", "PreMultiplyMatrix"}[abs(x.op.Arg(1)/3)%4]+" mismatched" {
					b = c
				}
			}
		}
		x.op.F = nil
		b.f(x)
	}
	histOps["Bad"] = func(x *X) {
		b := badOps[abs(x.op.Arg(1))%len(badOps)]
		x.op.F = nil
		b.f(x)
	}
}

// mismatched reports whether the shapes do not suit the operation.
func mismatched(name string, o, a *DM) bool {
	switch name {
	case "Multiply":
		return o.C != a.R
	case "PreMultiplyMatrix":
		return a.C != o.R
	}
	return o.R != a.R || o.C != a.C
}

// readOps are the unacceptable requests that do not ask for a change.
func readOps() (l []badOp) {
next:
	for _, b := range badOps {
		for _, p := range []string{"Set", "AddTo", "MultiplyEntry", "VSet", "VAddTo", "VMap", "VUnitize", "VCopyFrom", "walk", "vector walk", "iterate", "diagonal inverse", "zero norm"} {
			if strings.HasPrefix(b.name, p) {
				continue next
			}
		}
		l = append(l, b)
	}
	return
}

func diagDM(v []float64) *DM {
	d := newDM(len(v), len(v))
	for i := range v {
		d.set(i, i, v[i])
	}
	return d
}
