package main

import (
	"math"

	"github.com/jtejido/linear"
)

// Valid matrix requests. Each computes the expected outcome from the models
// before calling the library.

func scal(r *Rng) float64 { return float64(r.Range(-3, 3)) }

func (x *X) bigOK(d *DM) bool { return d.maxFin() < 1e14 }

// oddDiag: diagonal storage multiplies only by its diagonal, so that zero times
// infinity is not promised there.
func oddDiag(a, b *MObj) bool {
	return (a.cls == clsDiag || b.cls == clsDiag) && !(a.d.fin() && b.d.fin())
}

// wantNew checks a result matrix and stores it.
func (x *X) newM(what string, mayReject bool, want *DM, f func() linear.RealMatrix) {
	var got linear.RealMatrix
	if !x.exec(what, func() { got = f() }, execOpt{mayReject: mayReject}) {
		return
	}
	if x.wantM(what, got, want) {
		x.keepM(got, want)
	}
}

func init() {
	reg := func(n string, f opFunc) { histOps[n] = f }

	bin := func(name string, op func(a, b float64) float64, call func(m, a linear.RealMatrix) linear.RealMatrix) {
		reg(name, func(x *X) {
			o := x.recv()
			if o == nil {
				return
			}
			a := x.argM(o.d.R, o.d.C)
			if o.cls == clsDiag && x.r.Chance(0.6) {
				a = x.argDiagM(o.d.R)
			}
			want := o.d.zip(a.d, op)
			x.newM(sf("%s(%s,%s)", name, clsName[o.cls], clsName[a.cls]), o.cls == clsDiag && !want.isDiag(), want, func() linear.RealMatrix { return call(o.m, a.m) })
			x.sameM(name, a)
		})
	}
	bin("Add", func(a, b float64) float64 { return a + b }, func(m, a linear.RealMatrix) linear.RealMatrix { return m.Add(a) })
	bin("Subtract", func(a, b float64) float64 { return a - b }, func(m, a linear.RealMatrix) linear.RealMatrix { return m.Subtract(a) })

	reg("ScalarAdd", func(x *X) {
		o := x.recv()
		if o == nil {
			return
		}
		k := scal(x.r)
		if o.cls == clsDiag && x.r.Chance(0.5) {
			k = 0
		}
		want := o.d.mapf(func(a float64) float64 { return a + k })
		x.newM("ScalarAdd("+clsName[o.cls]+")", o.cls == clsDiag && !want.isDiag(), want, func() linear.RealMatrix { return o.m.ScalarAdd(k) })
	})
	reg("ScalarMultiply", func(x *X) {
		o := x.recv()
		if o == nil {
			return
		}
		k := scal(x.r)
		want := o.d.mapf(func(a float64) float64 { return a * k })
		x.newM("ScalarMultiply("+clsName[o.cls]+")", false, want, func() linear.RealMatrix { return o.m.ScalarMultiply(k) })
	})
	reg("Multiply", func(x *X) {
		o := x.recv()
		if o == nil {
			return
		}
		c := x.g.p
		if x.r.Chance(0.5) {
			c = x.g.q
		}
		a := x.argM(o.d.C, c)
		if o.cls == clsDiag && x.r.Chance(0.3) {
			a = x.argDiagM(o.d.R)
		}
		want := o.d.mul(a.d)
		if !x.bigOK(want) || oddDiag(o, a) {
			return
		}
		x.newM(sf("Multiply(%s,%s)", clsName[o.cls], clsName[a.cls]), false, want, func() linear.RealMatrix { return o.m.Multiply(a.m) })
		x.sameM("Multiply", a)
	})
	reg("PreMultiplyMatrix", func(x *X) {
		o := x.recv()
		if o == nil {
			return
		}
		c := x.g.p
		if x.r.Chance(0.5) {
			c = x.g.q
		}
		a := x.argM(c, o.d.R)
		want := a.d.mul(o.d)
		if !x.bigOK(want) || oddDiag(o, a) {
			return
		}
		x.newM(sf("PreMultiplyMatrix(%s,%s)", clsName[o.cls], clsName[a.cls]), false, want, func() linear.RealMatrix { return o.m.PreMultiplyMatrix(a.m) })
		x.sameM("PreMultiplyMatrix", a)
	})
	reg("Transpose", func(x *X) {
		o := x.recv()
		if o == nil {
			return
		}
		x.newM("Transpose("+clsName[o.cls]+")", false, o.d.t(), func() linear.RealMatrix { return o.m.Transpose() })
	})
	reg("Copy", func(x *X) {
		o := x.recv()
		if o == nil {
			return
		}
		x.newM("Copy("+clsName[o.cls]+")", false, o.d.clone(), func() linear.RealMatrix { return o.m.Copy() })
	})
	reg("SubMatrix", func(x *X) {
		o := x.recv()
		if o == nil {
			return
		}
		r0, c0 := x.r.Intn(o.d.R), x.r.Intn(o.d.C)
		r1, c1 := x.r.Range(r0, o.d.R-1), x.r.Range(c0, o.d.C-1)
		if x.r.Chance(0.3) { // near block edges and corners
			r1, c1 = o.d.R-1, o.d.C-1
		}
		if o.cls == clsDiag && x.r.Chance(0.5) {
			c0, c1 = r0, r1
		}
		want := o.d.sub(r0, r1, c0, c1)
		x.newM("SubMatrix("+clsName[o.cls]+")", o.cls == clsDiag && !want.isDiag(), want, func() linear.RealMatrix { return o.m.SubMatrix(r0, r1, c0, c1) })
	})
	reg("SubMatrixSel", func(x *X) {
		o := x.anyM()
		if x.op.F != nil {
			o = x.argM(x.g.p, x.g.q)
		}
		if o == nil {
			return
		}
		nr, nc := x.r.Range(1, min(o.d.R+1, 6)), x.r.Range(1, min(o.d.C+1, 6))
		rs, cs := make([]int, nr), make([]int, nc)
		for i := range rs {
			rs[i] = x.r.Intn(o.d.R)
		}
		for i := range cs {
			cs[i] = x.r.Intn(o.d.C)
		}
		want := newDM(nr, nc)
		for i := range rs {
			for j := range cs {
				want.set(i, j, o.d.at(rs[i], cs[j]))
			}
		}
		rs2, cs2 := append([]int{}, rs...), append([]int{}, cs...)
		x.newM("SubMatrixSel("+clsName[o.cls]+")", false, want, func() linear.RealMatrix { return linear.SubMatrix(o.m, rs, cs) })
		if sv(rs2, cs2) != sv(rs, cs) {
			x.t.fail("operand-changed:SubMatrixSel", "index slices changed")
		}
	})
	reg("Power", func(x *X) {
		o := x.anyM()
		tame := x.r.Chance(0.5)
		if tame {
			// powers of these stay small, so that exponents can be large
			o = x.mkMat(tameDM(x.r, x.r.Range(1, 6)))
		}
		if o == nil || o.d.R != o.d.C || o.d.R > 60 || !o.d.fin() {
			return
		}
		p := x.r.Range(0, 9)
		switch {
		case tame:
			p = x.r.Range(0, x.r.Pick(12, 40, 130, 300))
		case o.d.R > 20:
			p = x.r.Range(0, 3)
		}
		want := identDM(o.d.R)
		for i := 0; i < p; i++ {
			want = want.mul(o.d)
		}
		// everything on the way must stay exact
		b := o.d.mapf(math.Abs)
		bb := b
		for i := 1; i < p; i++ {
			if bb = bb.mul(b); bb.maxAbs() > 1e13 {
				return
			}
		}
		x.newM(sf("Power(%s)", clsName[o.cls]), false, want, func() linear.RealMatrix { return linear.Power(o.m, p) })
		x.sameM("Power", o)
	})
	reg("RowMatrixAt", func(x *X) {
		o := x.recv()
		if o == nil {
			return
		}
		i := x.r.Intn(o.d.R)
		want := o.d.sub(i, i, 0, o.d.C-1)
		x.newM("RowMatrixAt("+clsName[o.cls]+")", o.cls == clsDiag && o.d.R > 1, want, func() linear.RealMatrix { return o.m.RowMatrixAt(i) })
	})
	reg("ColumnMatrixAt", func(x *X) {
		o := x.recv()
		if o == nil {
			return
		}
		j := x.r.Intn(o.d.C)
		want := o.d.sub(0, o.d.R-1, j, j)
		x.newM("ColumnMatrixAt("+clsName[o.cls]+")", o.cls == clsDiag && o.d.R > 1, want, func() linear.RealMatrix { return o.m.ColumnMatrixAt(j) })
	})
	reg("OuterProduct", func(x *X) {
		a, b := x.argVec(x.g.p), x.argVec(x.g.q)
		want := newDM(len(a.d), len(b.d))
		for i := range a.d {
			for j := range b.d {
				want.set(i, j, a.d[i]*b.d[j])
			}
		}
		x.newM("OuterProduct", false, want, func() linear.RealMatrix { return linear.OuterProduct(a.v, b.v) })
		x.sameV("OuterProduct", a)
		x.sameV("OuterProduct", b)
	})
	reg("NewMatrix", func(x *X) {
		r, c := x.g.p, x.g.q
		if x.r.Chance(0.5) {
			r, c = c, r
		}
		if x.r.Chance(0.4) {
			c = r
		}
		switch x.r.Intn(6) {
		case 0:
			x.newM("NewRealMatrixWithDimension", false, newDM(r, c), func() linear.RealMatrix { return must(linear.NewRealMatrixWithDimension(r, c)) })
		case 1:
			x.newM("NewRealIdentityMatrix", false, identDM(r), func() linear.RealMatrix { return must(linear.NewRealIdentityMatrix(r)) })
		case 2:
			v := x.spare(intVec(x.r, r))
			want := newDM(r, r)
			for i := range v {
				want.set(i, i, v[i])
			}
			x.newM("NewRealMatrixWithDiagonal", false, want, func() linear.RealMatrix { return must(linear.NewRealMatrixWithDiagonal(v)) })
			x.keepS(&SObj{s1: v, d1: append([]float64{}, v...), note: "diagonal handed to NewRealMatrixWithDiagonal"})
		case 3:
			d := intDM(x.r, r, c, false)
			s := x.spare2(d.slices())
			x.newM("NewRealMatrixFromSlices", false, d, func() linear.RealMatrix { return must(linear.NewRealMatrixFromSlices(s)) })
			x.keepS(&SObj{s2: s, d2: d.slices(), note: "rows handed to NewRealMatrixFromSlices"})
		case 4:
			d := intDM(x.r, r, c, false)
			s := x.spare2(d.slices())
			if x.r.Chance(0.5) {
				x.newM("NewArray2DRow(copy)", false, d, func() linear.RealMatrix { return must(linear.NewArray2DRowRealMatrixFromSlices(s, true)) })
			} else {
				x.newM("NewBlock(slices)", false, d, func() linear.RealMatrix { return must(linear.NewBlockRealMatrixFromSlices(s)) })
			}
			x.keepS(&SObj{s2: s, d2: d.slices(), note: "rows handed to a copying constructor"})
		case 5:
			v := x.spare(intVec(x.r, r))
			want := newDM(r, r)
			for i := range v {
				want.set(i, i, v[i])
			}
			x.newM("NewDiagonal(copy)", false, want, func() linear.RealMatrix { return must(linear.NewDiagonalMatrix(v, true)) })
			x.keepS(&SObj{s1: v, d1: append([]float64{}, v...), note: "diagonal handed to a copying constructor"})
		}
	})
	reg("DiagInverse", func(x *X) {
		var c []*MObj
		for _, m := range x.g.ms {
			if m.cls == clsDiag && m.d.fin() {
				c = append(c, m)
			}
		}
		if len(c) == 0 {
			return
		}
		o := c[x.r.Intn(len(c))]
		dm := o.m.(*linear.DiagonalMatrix)
		thr := float64(x.r.Pick(0, 0, 0, 1, 2, 4))
		sing := false
		want := newDM(o.d.R, o.d.R)
		for i := 0; i < o.d.R; i++ {
			if math.Abs(o.d.at(i, i)) <= thr {
				sing = true
			}
			want.set(i, i, 1/o.d.at(i, i))
		}
		var s bool
		if x.exec("IsSingular(diag)", func() { s = dm.IsSingular(thr) }, execOpt{}) {
			x.wantB("IsSingular(diag)", s, sing)
		}
		inv := func() linear.RealMatrix {
			if thr == 0 {
				return dm.Inverse()
			}
			return dm.InverseWithThreshold(thr)
		}
		if sing {
			x.because(whyPlain(linear.ESING, "singular"))
			x.reject("Inverse(singular diag)", func() error { inv(); return nil })
			return
		}
		var got linear.RealMatrix
		if x.exec("Inverse(diag)", func() { got = inv() }, execOpt{}) {
			x.wantM("Inverse(diag)", got, want)
		}
	})

	// ------------------------------------------------ in-place updates
	small := func(d *DM) bool { return d.maxFin() <= maxStored }
	entry := func(name string, op func(old, v float64) float64, call func(m linear.RealMatrix, i, j int, v float64)) {
		reg(name, func(x *X) {
			o := x.recv()
			if o == nil {
				return
			}
			i, j := x.r.Intn(o.d.R), x.r.Intn(o.d.C)
			if x.r.Chance(0.2) {
				i = o.d.R - 1
			}
			if x.r.Chance(0.2) {
				j = o.d.C - 1
			}
			v := scal(x.r)
			if o.cls == clsDiag {
				if x.r.Chance(0.8) {
					j = i
				} else if name != "MultiplyEntry" {
					v = 0
					if x.r.Chance(0.5) {
						v = math.Copysign(0, -1)
					}
				}
			}
			nm := o.d.clone()
			nm.set(i, j, op(o.d.at(i, j), v))
			if !small(nm) {
				return
			}
			x.exec(name+"("+clsName[o.cls]+")", func() { call(o.m, i, j, v) }, execOpt{rm: o, nm: nm})
		})
	}
	entry("SetEntry", func(_, v float64) float64 { return v }, func(m linear.RealMatrix, i, j int, v float64) { m.SetEntry(i, j, v) })
	entry("AddToEntry", func(o, v float64) float64 { return o + v }, func(m linear.RealMatrix, i, j int, v float64) { m.AddToEntry(i, j, v) })
	entry("MultiplyEntry", func(o, v float64) float64 { return o * v }, func(m linear.RealMatrix, i, j int, v float64) { m.MultiplyEntry(i, j, v) })

	// changes of two entries that leave sums, products, magnitudes or a fold of
	// the bits as they were: nothing short of the entries themselves tells
	reg("Sly", func(x *X) {
		o := x.recv()
		if o == nil || o.d.R*o.d.C < 2 {
			return
		}
		i, j, k, l := x.r.Intn(o.d.R), x.r.Intn(o.d.C), x.r.Intn(o.d.R), x.r.Intn(o.d.C)
		n := min(o.d.R, o.d.C)
		switch u := x.r.F(); {
		case u < 0.5 || o.cls == clsDiag:
			i, k = x.r.Intn(n), x.r.Intn(n)
			j, l = i, k
		case u < 0.65:
			k = i
		case u < 0.8:
			l = j
		case u < 0.9:
			k, l = j%o.d.R, i%o.d.C
		}
		a, b, ok := slyPair(x.r, o.d.at(i, j), o.d.at(k, l))
		if !ok || i == k && j == l {
			return
		}
		nm := o.d.clone()
		nm.set(i, j, a)
		nm.set(k, l, b)
		if !small(nm) {
			return
		}
		x.exec("two SetEntry("+clsName[o.cls]+")", func() {
			o.m.SetEntry(i, j, a)
			o.m.SetEntry(k, l, b)
		}, execOpt{rm: o, nm: nm})
	})

	line := func(name string, isRow bool, call func(x *X, o *MObj, k int, v []float64) func()) {
		reg(name, func(x *X) {
			o := x.recv()
			if o == nil {
				return
			}
			n, lim := o.d.C, o.d.R
			if !isRow {
				n, lim = o.d.R, o.d.C
			}
			k := x.r.Intn(lim)
			if x.r.Chance(0.2) {
				k = lim - 1
			}
			v := x.spare(intVec(x.r, n))
			if o.cls == clsDiag {
				for i := range v {
					if i != k {
						v[i] = 0
					}
				}
			}
			nm := o.d.clone()
			for i := range v {
				if isRow {
					nm.set(k, i, v[i])
				} else {
					nm.set(i, k, v[i])
				}
			}
			f := call(x, o, k, v)
			if f == nil {
				return
			}
			x.exec(name+"("+clsName[o.cls]+")", f, execOpt{rm: o, nm: nm})
		})
	}
	line("SetRow", true, func(x *X, o *MObj, k int, v []float64) func() {
		x.keepS(&SObj{s1: v, d1: append([]float64{}, v...), note: "slice handed to SetRow"})
		return func() { o.m.SetRow(k, v) }
	})
	line("SetColumn", false, func(x *X, o *MObj, k int, v []float64) func() {
		x.keepS(&SObj{s1: v, d1: append([]float64{}, v...), note: "slice handed to SetColumn"})
		return func() { o.m.SetColumn(k, v) }
	})
	line("SetRowVector", true, func(x *X, o *MObj, k int, v []float64) func() {
		a := x.mkVec(v)
		if x.op.F == nil {
			x.keepV(a.v, a.d)
		}
		return func() { o.m.SetRowVector(k, a.v) }
	})
	line("SetColumnVector", false, func(x *X, o *MObj, k int, v []float64) func() {
		a := x.mkVec(v)
		if x.op.F == nil {
			x.keepV(a.v, a.d)
		}
		return func() { o.m.SetColumnVector(k, a.v) }
	})
	line("SetRowMatrix", true, func(x *X, o *MObj, k int, v []float64) func() {
		d := newDM(1, len(v))
		copy(d.A, v)
		a := x.mkMat(d)
		if x.op.F == nil {
			x.keepM(a.m, a.d)
		}
		return func() { o.m.SetRowMatrix(k, a.m) }
	})
	line("SetColumnMatrix", false, func(x *X, o *MObj, k int, v []float64) func() {
		d := newDM(len(v), 1)
		copy(d.A, v)
		a := x.mkMat(d)
		if x.op.F == nil {
			x.keepM(a.m, a.d)
		}
		return func() { o.m.SetColumnMatrix(k, a.m) }
	})
	reg("SetSubMatrix", func(x *X) {
		o := x.recv()
		if o == nil {
			return
		}
		r0, c0 := x.r.Intn(o.d.R), x.r.Intn(o.d.C)
		nr, nc := x.r.Range(1, o.d.R-r0), x.r.Range(1, o.d.C-c0)
		if x.r.Chance(0.2) {
			r0, c0, nr, nc = 0, 0, o.d.R, o.d.C
		}
		s := intDM(x.r, nr, nc, false)
		nm := o.d.clone()
		for i := 0; i < nr; i++ {
			for j := 0; j < nc; j++ {
				if o.cls == clsDiag && r0+i != c0+j {
					s.set(i, j, 0)
				}
				nm.set(r0+i, c0+j, s.at(i, j))
			}
		}
		sl := x.spare2(s.slices())
		x.exec("SetSubMatrix("+clsName[o.cls]+")", func() { o.m.SetSubMatrix(sl, r0, c0) }, execOpt{rm: o, nm: nm})
		x.keepS(&SObj{s2: sl, d2: s.slices(), note: "rows handed to SetSubMatrix"})
	})
	reg("UpdateWalk", func(x *X) {
		o := x.recv()
		if o == nil {
			return
		}
		k := x.r.Intn(6)
		b := k >= 3
		r0, r1, c0, c1 := 0, o.d.R-1, 0, o.d.C-1
		if b {
			r0, c0 = x.r.Intn(o.d.R), x.r.Intn(o.d.C)
			r1, c1 = x.r.Range(r0, o.d.R-1), x.r.Range(c0, o.d.C-1)
		}
		m, a := float64(x.r.Range(-1, 2)), float64(x.r.Range(-2, 2))
		if o.cls == clsDiag {
			a = 0
		}
		nm := o.d.clone()
		for i := r0; i <= r1; i++ {
			for j := c0; j <= c1; j++ {
				nm.set(i, j, m*o.d.at(i, j)+a*float64(i-2*j))
			}
		}
		if !small(nm) {
			return
		}
		v := &funcVisitor{h: x.h, f: func(i, j int, v float64) float64 { return m*v + a*float64(i-2*j) }}
		name := []string{"WalkInUpdateRowOrder", "WalkInUpdateColumnOrder", "WalkInUpdateOptimizedOrder"}[k%3]
		if b {
			name += "Bounded"
		}
		x.exec(name+"("+clsName[o.cls]+")", func() { walkUpdate(o.m, k, v, r0, r1, c0, c1) }, execOpt{rm: o, nm: nm})
	})

	reg("ReadWalk", func(x *X) {
		o := x.recv()
		if o == nil {
			return
		}
		k := x.r.Intn(6)
		r0, r1, c0, c1 := 0, o.d.R-1, 0, o.d.C-1
		if k >= 3 {
			r0, c0 = x.r.Intn(o.d.R), x.r.Intn(o.d.C)
			r1, c1 = x.r.Range(r0, o.d.R-1), x.r.Range(c0, o.d.C-1)
		}
		v := &readVisitor{h: x.h, d: newDM(o.d.R, o.d.C)}
		for i := range v.d.A {
			v.d.A[i] = -999
		}
		want := v.d.clone()
		for i := r0; i <= r1; i++ {
			for j := c0; j <= c1; j++ {
				want.set(i, j, o.d.at(i, j))
			}
		}
		name := walkNames[6+k] + "(" + clsName[o.cls] + ")"
		var g float64
		if x.exec(name, func() { g = walkRead(o.m, k, v, r0, r1, c0, c1) }, execOpt{}) {
			x.wantF(name, g, float64((r1-r0+1)*(c1-c0+1)), 0)
			x.wantS(name, v.d.A, want.A)
		}
	})

	// ------------------------------------------------ queries
	reg("Query", func(x *X) {
		o := x.recv()
		if o == nil {
			return
		}
		nm := clsName[o.cls]
		i, j := x.r.Intn(o.d.R), x.r.Intn(o.d.C)
		switch x.r.Intn(9) {
		case 0:
			var g [][]float64
			if x.exec("Data("+nm+")", func() { g = o.m.Data() }, execOpt{}) && x.wantS2("Data("+nm+")", g, o.d.slices()) {
				x.keepS(&SObj{s2: g, d2: o.d.slices(), note: "result of Data"})
			}
		case 1:
			var g []float64
			if x.exec("RowAt("+nm+")", func() { g = o.m.RowAt(i) }, execOpt{}) && x.wantS("RowAt("+nm+")", g, o.d.row(i)) {
				x.keepS(&SObj{s1: g, d1: o.d.row(i), note: "result of RowAt"})
			}
		case 2:
			var g []float64
			if x.exec("ColumnAt("+nm+")", func() { g = o.m.ColumnAt(j) }, execOpt{}) && x.wantS("ColumnAt("+nm+")", g, o.d.col(j)) {
				x.keepS(&SObj{s1: g, d1: o.d.col(j), note: "result of ColumnAt"})
			}
		case 3:
			var g linear.RealVector
			if x.exec("RowVectorAt("+nm+")", func() { g = o.m.RowVectorAt(i) }, execOpt{}) && x.wantV("RowVectorAt("+nm+")", g, o.d.row(i)) {
				x.keepV(g, o.d.row(i))
			}
		case 4:
			var g linear.RealVector
			if x.exec("ColumnVectorAt("+nm+")", func() { g = o.m.ColumnVectorAt(j) }, execOpt{}) && x.wantV("ColumnVectorAt("+nm+")", g, o.d.col(j)) {
				x.keepV(g, o.d.col(j))
			}
		case 5:
			if o.d.R == o.d.C {
				s := 0.0
				for k := 0; k < o.d.R; k++ {
					s += o.d.at(k, k)
				}
				var g float64
				if x.exec("Trace("+nm+")", func() { g = o.m.Trace() }, execOpt{}) {
					x.wantF("Trace("+nm+")", g, s, 0)
				}
			}
		case 6:
			if !o.d.fin() {
				return
			}
			best := 0.0
			for c := 0; c < o.d.C; c++ {
				s := 0.0
				for r := 0; r < o.d.R; r++ {
					s += math.Abs(o.d.at(r, c))
				}
				best = math.Max(best, s)
			}
			var g float64
			if x.exec("MatLInfNorm("+nm+")", func() { g = linear.MatLInfNorm(o.m) }, execOpt{}) {
				x.wantF("MatLInfNorm("+nm+")", g, best, 0)
			}
		case 7:
			if !o.d.fin() {
				return
			}
			var g float64
			if x.exec("MatFrobeniusNorm("+nm+")", func() { g = linear.MatFrobeniusNorm(o.m) }, execOpt{}) {
				x.wantF("MatFrobeniusNorm("+nm+")", g, o.d.frob(), 1e-12)
			}
		case 8:
			var g bool
			if x.exec("IsSquare", func() { g = linear.IsSquare(o.m) }, execOpt{}) {
				x.wantB("IsSquare", g, o.d.R == o.d.C)
			}
		}
	})
	reg("Operate", func(x *X) {
		o := x.recv()
		if o == nil {
			return
		}
		nm := clsName[o.cls]
		pre := x.r.Chance(0.5)
		n := o.d.C
		md := o.d
		if pre {
			n = o.d.R
			md = o.d.t()
		}
		if o.d.maxFin() > 1e10 || (o.cls == clsDiag && !o.d.fin()) {
			return
		}
		if x.op.F == nil && x.r.Chance(0.5) {
			v := x.spare(intVec(x.r, n))
			if o.cls == clsDiag && !finV(v) {
				return
			}
			want := md.mulv(v)
			vv := append([]float64{}, v...)
			var g []float64
			name := "Operate(" + nm + ")"
			if pre {
				name = "PreMultiply(" + nm + ")"
			}
			if x.exec(name, func() {
				if pre {
					g = o.m.PreMultiply(v)
				} else {
					g = o.m.Operate(v)
				}
			}, execOpt{}) && x.wantS(name, g, want) {
				x.keepS(&SObj{s1: g, d1: want, note: "result of " + name})
			}
			x.keepS(&SObj{s1: v, d1: vv, note: "argument of " + name})
			return
		}
		a := x.argVec(n)
		if o.cls == clsDiag && !finV(a.d) {
			return
		}
		want := md.mulv(a.d)
		var g linear.RealVector
		name := sf("OperateVector(%s,%s)", nm, clsName[a.cls])
		if pre {
			name = sf("PreMultiplyVector(%s,%s)", nm, clsName[a.cls])
		}
		if x.exec(name, func() {
			if pre {
				g = o.m.PreMultiplyVector(a.v)
			} else {
				g = o.m.OperateVector(a.v)
			}
		}, execOpt{}) && x.wantV(name, g, want) {
			x.keepV(g, want)
		}
		x.sameV(name, a)
	})
	reg("Equals", func(x *X) {
		o := x.recv()
		if o == nil {
			return
		}
		d := o.d.clone()
		want := true
		switch x.r.Intn(4) {
		case 0:
			k := x.r.Intn(len(d.A))
			if o.cls == clsDiag {
				k = x.r.Intn(d.R) * (d.C + 1)
			}
			d.A[k]++
			want = !d.fin() && eqF(d.A[k], o.d.A[k])
		case 1:
			if x.op.F == nil {
				var g bool
				var v interface{} = "not a matrix"
				if x.r.Chance(0.3) {
					v = nil
				} else if x.r.Chance(0.4) {
					v = x.mkVec(o.d.row(0)).v
				}
				if x.exec("Equals(other type)", func() { g = o.m.Equals(v) }, execOpt{}) {
					x.wantB("Equals(other type)", g, false)
				}
				return
			}
		case 2:
			if x.op.F == nil && d.R != d.C {
				d = d.t()
				want = false
			}
		case 3:
			// the same beginning, one line more or less
			if x.op.F == nil && x.r.Chance(0.4) {
				e := newDM(d.R+x.r.Pick(0, 0, 1, -1), d.C+x.r.Pick(0, 0, 1, -1))
				if e.R >= 1 && e.C >= 1 && (e.R != d.R || e.C != d.C) {
					for i := 0; i < e.R && i < d.R; i++ {
						for j := 0; j < e.C && j < d.C; j++ {
							e.set(i, j, d.at(i, j))
						}
					}
					d, want = e, false
				}
			}
		}
		a := x.mkMat(d)
		if x.op.F == nil && want && x.r.Chance(0.2) {
			a = o
		} else if hasNaN(o.d.A) {
			return // what a NaN equals is not promised for matrices
		}
		var g bool
		name := sf("Equals(%s,%s)", clsName[o.cls], clsName[a.cls])
		if x.exec(name, func() { g = o.m.Equals(a.m) }, execOpt{}) {
			x.wantB(name, g, want)
		}
	})
	reg("CopySubMatrix", func(x *X) {
		o := x.anyM()
		if x.op.F != nil {
			o = x.argM(x.g.p, x.g.q)
		}
		if o == nil {
			return
		}
		r0, c0 := x.r.Intn(o.d.R), x.r.Intn(o.d.C)
		r1, c1 := x.r.Range(r0, o.d.R-1), x.r.Range(c0, o.d.C-1)
		h, wd := r1-r0+1, c1-c0+1
		exR, exC := x.r.Intn(2), x.r.Intn(2)
		dst := intDM(x.r, h+exR, wd+exC, false)
		sel := x.r.Chance(0.5)
		rs, cs := make([]int, h), make([]int, wd)
		for i := range rs {
			rs[i] = r0 + i
			if sel {
				rs[i] = x.r.Intn(o.d.R)
			}
		}
		for j := range cs {
			cs[j] = c0 + j
			if sel {
				cs[j] = x.r.Intn(o.d.C)
			}
		}
		want := dst.clone()
		for i := range rs {
			for j := range cs {
				want.set(i, j, o.d.at(rs[i], cs[j]))
			}
		}
		s := x.spare2(dst.slices())
		name := "CopySubMatrix(" + clsName[o.cls] + ")"
		if sel {
			name = "CopySubMatrixFromIndices(" + clsName[o.cls] + ")"
		}
		ok := x.exec(name, func() {
			if sel {
				linear.CopySubMatrixFromIndices(o.m, rs, cs, s)
			} else {
				linear.CopySubMatrix(o.m, r0, r1, c0, c1, s)
			}
		}, execOpt{})
		if ok {
			x.wantS2(name, s, want.slices())
			x.keepS(&SObj{s2: s, d2: want.slices(), note: "destination of " + name})
		} else if x.h.fired {
			for i := range s {
				for j := range s[i] {
					if !eqF(s[i][j], want.at(i, j)) && !eqF(s[i][j], dst.at(i, j)) {
						x.t.fail("fault-state:"+name, "destination entry (%d,%d) is neither old nor new", i, j)
					}
				}
			}
		}
	})
	reg("PokeSlice", func(x *X) {
		// The caller changes a slice it holds; nothing else may change.
		if len(x.g.ss) == 0 {
			return
		}
		s := x.g.ss[abs(x.op.Arg(0))%len(x.g.ss)]
		if len(s.s1) > 0 {
			k := x.r.Intn(len(s.s1))
			s.s1[k] += 17
			s.d1[k] += 17
		}
		if len(s.s2) > 0 {
			k := x.r.Intn(len(s.s2))
			for l := range s.s2[k] {
				s.s2[k][l] += 17
				s.d2[k][l] += 17
			}
		}
		x.what = "caller's change of " + s.note
		x.out = Outcome{Kind: "ok"}
		x.t.note("poke slice: %s", s.note)
	})
}

// funcVisitor is a changing visitor built from a function.
type funcVisitor struct {
	f func(i, j int, v float64) float64
	h *Hook
}

func (v *funcVisitor) Start(rows, columns, startRow, endRow, startColumn, endColumn int) {
	v.h.hit("visitor.Start")
}
func (v *funcVisitor) Visit(i, j int, x float64) float64 {
	v.h.hit("visitor.Visit")
	return v.f(i, j, x)
}
func (v *funcVisitor) End() float64 { v.h.hit("visitor.End"); return 42 }

// readVisitor records what it is shown.
type readVisitor struct {
	h *Hook
	d *DM
	n int
}

func (v *readVisitor) Start(rows, columns, startRow, endRow, startColumn, endColumn int) {
	v.h.hit("visitor.Start")
}
func (v *readVisitor) Visit(i, j int, x float64) {
	v.h.hit("visitor.Visit")
	v.n++
	v.d.set(i, j, x)
}
func (v *readVisitor) End() float64 { v.h.hit("visitor.End"); return float64(v.n) }

func walkUpdate(m linear.RealMatrix, k int, v linear.RealMatrixChangingVisitor, r0, r1, c0, c1 int) float64 {
	switch k {
	case 0:
		return m.WalkInUpdateRowOrder(v)
	case 1:
		return m.WalkInUpdateColumnOrder(v)
	case 2:
		return m.WalkInUpdateOptimizedOrder(v)
	case 3:
		return m.WalkInUpdateRowOrderBounded(v, r0, r1, c0, c1)
	case 4:
		return m.WalkInUpdateColumnOrderBounded(v, r0, r1, c0, c1)
	}
	return m.WalkInUpdateOptimizedOrderBounded(v, r0, r1, c0, c1)
}
func walkRead(m linear.RealMatrix, k int, v linear.RealMatrixPreservingVisitor, r0, r1, c0, c1 int) float64 {
	switch k {
	case 0:
		return m.WalkInRowOrder(v)
	case 1:
		return m.WalkInColumnOrder(v)
	case 2:
		return m.WalkInOptimizedOrder(v)
	case 3:
		return m.WalkInRowOrderBounded(v, r0, r1, c0, c1)
	case 4:
		return m.WalkInColumnOrderBounded(v, r0, r1, c0, c1)
	}
	return m.WalkInOptimizedOrderBounded(v, r0, r1, c0, c1)
}

// tameDM is a matrix whose powers stay small: a signed permutation, or the
// identity plus one off-diagonal entry, or a diagonal of -1, 0 and 1, or a shift.
func tameDM(r *Rng, n int) *DM {
	d := newDM(n, n)
	sign := func() float64 { return float64(r.Pick(-1, 1, 1)) }
	switch r.Intn(4) {
	case 0:
		p := make([]int, n)
		for i := range p {
			j := r.Intn(i + 1)
			p[i] = p[j]
			p[j] = i
		}
		for i := range p {
			d.set(i, p[i], sign())
		}
	case 1:
		for i := 0; i < n; i++ {
			d.set(i, i, 1)
		}
		if n > 1 {
			i := r.Intn(n)
			d.set(i, (i+r.Range(1, n-1))%n, float64(r.Range(-2, 3)))
		}
	case 2:
		for i := 0; i < n; i++ {
			d.set(i, i, float64(r.Range(-1, 1)))
		}
	case 3:
		for i := 0; i+1 < n; i++ {
			d.set(i, i+1, sign())
		}
		d.set(n-1, 0, sign()*float64(r.Intn(2)))
	}
	return d
}

// slyPair gives other values for two entries that are easily taken for the old.
func slyPair(r *Rng, a, b float64) (float64, float64, bool) {
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return a, b, false
	}
	switch r.Intn(6) {
	case 0:
		d := float64(r.Range(1, 3))
		return a + d, b - d, true
	case 1, 2:
		if a == b {
			v := smallInt(r)
			return v, v, true
		}
		if r.Chance(0.6) { // equal from now on
			return a, a, true
		}
		return b, a, true
	case 3:
		return -a, -b, true
	case 4:
		return -a, b, true
	}
	return b, a, true
}
