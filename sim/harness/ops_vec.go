package main

import (
	"math"

	"github.com/jtejido/linear"
)

func (x *X) vrecv() *VObj {
	var c []*VObj
	for _, o := range x.g.vs {
		if o.cls != clsFor {
			c = append(c, o)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[abs(x.op.Arg(0))%len(c)]
}
func (x *X) anyV() *VObj {
	if len(x.g.vs) == 0 {
		return nil
	}
	pin := x.op.Arg(pinArg)
	if o := x.g.pinV[pin]; o != nil {
		return o
	}
	o := x.g.vs[abs(x.op.Arg(0))%len(x.g.vs)]
	if pin != 0 {
		if x.g.pinV == nil {
			x.g.pinV = map[int]*VObj{}
		}
		x.g.pinV[pin] = o
	}
	return o
}
func (x *X) newV(what string, want []float64, f func() linear.RealVector) {
	var got linear.RealVector
	if !x.exec(what, func() { got = f() }, execOpt{}) {
		return
	}
	if x.wantV(what, got, want) {
		x.keepV(got, want)
	}
}
func smallV(v []float64) bool {
	for _, e := range v {
		if math.Abs(e) > maxStored && !math.IsInf(e, 0) {
			return false
		}
	}
	return true
}
func mapV(v []float64, f func(float64) float64) []float64 {
	o := make([]float64, len(v))
	for i := range v {
		o[i] = f(v[i])
	}
	return o
}

func init() {
	reg := func(n string, f opFunc) { histOps[n] = f }
	bin := func(name string, op func(a, b float64) float64, call func(a, b linear.RealVector) linear.RealVector) {
		reg(name, func(x *X) {
			o := x.vrecv()
			if o == nil {
				return
			}
			a := x.argVec(len(o.d))
			if name == "VEBEDivide" {
				// exact quotients only
				d := make([]float64, len(o.d))
				for i := range d {
					d[i] = float64(x.r.Pick(1, -1, 2, -2, 4))
				}
				a = x.mkVec(d)
			}
			want := make([]float64, len(o.d))
			for i := range want {
				want[i] = op(o.d[i], a.d[i])
			}
			x.newV(sf("%s(%s)", name, clsName[a.cls]), want, func() linear.RealVector { return call(o.v, a.v) })
			x.sameV(name, a)
		})
	}
	bin("VAdd", func(a, b float64) float64 { return a + b }, func(a, b linear.RealVector) linear.RealVector { return a.Add(b) })
	bin("VSubtract", func(a, b float64) float64 { return a - b }, func(a, b linear.RealVector) linear.RealVector { return a.Subtract(b) })
	bin("VEBEMultiply", func(a, b float64) float64 { return a * b }, func(a, b linear.RealVector) linear.RealVector { return a.EBEMultiply(b) })
	bin("VEBEDivide", func(a, b float64) float64 { return a / b }, func(a, b linear.RealVector) linear.RealVector { return a.EBEDivide(b) })

	reg("VAppendVector", func(x *X) {
		o := x.vrecv()
		if o == nil || len(o.d) > 60 {
			return
		}
		n := x.r.Range(0, 6)
		if x.r.Chance(0.3) {
			n = x.g.p
		}
		a := x.argVec(n)
		x.newV("VAppendVector("+clsName[a.cls]+")", append(append([]float64{}, o.d...), a.d...), func() linear.RealVector { return o.v.AppendVector(a.v) })
		x.sameV("VAppendVector", a)
	})
	reg("VAppend", func(x *X) {
		o := x.vrecv()
		if o == nil || len(o.d) > 120 {
			return
		}
		k := smallInt(x.r)
		x.newV("VAppend", append(append([]float64{}, o.d...), k), func() linear.RealVector { return o.v.Append(k) })
	})
	reg("VCopy", func(x *X) {
		o := x.anyV()
		if x.op.F != nil {
			o = x.argVec(x.g.p)
		}
		if o == nil {
			return
		}
		if o.cls == clsFor || x.r.Chance(0.3) {
			x.newV("NewArrayRealVectorCopy("+clsName[o.cls]+")", append([]float64{}, o.d...), func() linear.RealVector {
				v, err := linear.NewArrayRealVectorCopy(o.v)
				return must(v, err)
			})
			return
		}
		x.newV("VCopy", append([]float64{}, o.d...), func() linear.RealVector { return o.v.Copy() })
	})
	reg("VSub", func(x *X) {
		o := x.vrecv()
		if o == nil || len(o.d) == 0 {
			return
		}
		i := x.r.Intn(len(o.d))
		n := x.r.Range(1, len(o.d)-i)
		if i > 0 && x.r.Chance(0.1) {
			var v linear.RealVector
			if x.exec("VSubVector", func() { v = o.v.SubVector(i, 0) }, execOpt{}) && (v == nil || v.Dimension() != 0) {
				x.t.fail("wrong-result:VSubVector", "SubVector(%d, 0) of a vector of dimension %d is not an empty vector", i, len(o.d))
			}
			return
		}
		x.newV("VSubVector", append([]float64{}, o.d[i:i+n]...), func() linear.RealVector { return o.v.SubVector(i, n) })
	})
	reg("VTwo", func(x *X) {
		a, b := x.argVec(x.r.Range(0, 5)), x.argVec(x.r.Range(0, 5))
		want := append(append([]float64{}, a.d...), b.d...)
		va, ok1 := a.v.(*linear.ArrayRealVector)
		vb, ok2 := b.v.(*linear.ArrayRealVector)
		if ok1 && ok2 && x.r.Chance(0.5) {
			x.newV("NewFromTwoArray", want, func() linear.RealVector { return must(linear.NewArrayRealVectorFromTwoArrayRealVector(va, vb)) })
		} else {
			x.newV("NewFromTwoReal("+clsName[a.cls]+","+clsName[b.cls]+")", want, func() linear.RealVector { return must(linear.NewArrayRealVectorFromTwoRealVector(a.v, b.v)) })
		}
		x.sameV("NewFromTwo", a)
		x.sameV("NewFromTwo", b)
	})
	reg("VNew", func(x *X) {
		n := x.g.p
		switch x.r.Intn(4) {
		case 0:
			x.newV("NewSizedArrayRealVector", make([]float64, n), func() linear.RealVector { return must(linear.NewSizedArrayRealVector(n)) })
		case 1:
			k := smallInt(x.r)
			x.newV("NewSizedWithPreset", mapV(make([]float64, n), func(float64) float64 { return k }), func() linear.RealVector { return must(linear.NewSizedArrayRealVectorWithPreset(n, k)) })
		case 2:
			s := x.spare(intVec(x.r, n))
			x.newV("NewArrayRealVector(copy)", append([]float64{}, s...), func() linear.RealVector { return must(linear.NewArrayRealVector(s, true)) })
			x.keepS(&SObj{s1: s, d1: append([]float64{}, s...), note: "slice handed to a copying vector constructor"})
		case 3:
			s := x.spare(intVec(x.r, n))
			x.newV("NewRealVector", append([]float64{}, s...), func() linear.RealVector { return must(linear.NewRealVector(s)) })
			x.keepS(&SObj{s1: s, d1: append([]float64{}, s...), note: "slice handed to NewRealVector"})
		}
	})

	// in place
	inpl := func(name string, nv func(x *X, o *VObj) ([]float64, func())) {
		reg(name, func(x *X) {
			o := x.vrecv()
			if o == nil {
				return
			}
			n, f := nv(x, o)
			if f == nil || !smallV(n) {
				return
			}
			x.exec(name, f, execOpt{rv: o, nv: n})
		})
	}
	inpl("VSetEntry", func(x *X, o *VObj) ([]float64, func()) {
		if len(o.d) == 0 {
			return nil, nil
		}
		i, k := x.r.Intn(len(o.d)), smallInt(x.r)
		n := append([]float64{}, o.d...)
		n[i] = k
		return n, func() { o.v.SetEntry(i, k) }
	})
	inpl("VSly", func(x *X, o *VObj) ([]float64, func()) {
		if len(o.d) < 2 {
			return nil, nil
		}
		i, j := x.r.Intn(len(o.d)), x.r.Intn(len(o.d))
		a, b, ok := slyPair(x.r, o.d[i], o.d[j])
		if i == j || !ok {
			return nil, nil
		}
		n := append([]float64{}, o.d...)
		n[i], n[j] = a, b
		return n, func() {
			o.v.SetEntry(i, a)
			o.v.SetEntry(j, b)
		}
	})
	inpl("VAddToEntry", func(x *X, o *VObj) ([]float64, func()) {
		if len(o.d) == 0 {
			return nil, nil
		}
		i, k := x.r.Intn(len(o.d)), smallInt(x.r)
		n := append([]float64{}, o.d...)
		n[i] += k
		return n, func() { o.v.AddToEntry(i, k) }
	})
	inpl("VSetSubVector", func(x *X, o *VObj) ([]float64, func()) {
		if len(o.d) == 0 {
			return nil, nil
		}
		i := x.r.Intn(len(o.d))
		a := x.argVec(x.r.Range(1, len(o.d)-i))
		n := append([]float64{}, o.d...)
		copy(n[i:], a.d)
		if av, ok := o.v.(*linear.ArrayRealVector); ok && x.op.F == nil && x.r.Chance(0.3) {
			s := x.spare(append([]float64{}, a.d...))
			x.keepS(&SObj{s1: s, d1: append([]float64{}, s...), note: "slice handed to SetSubVectorWithSlice"})
			if x.r.Chance(0.25) { // a part of the vector itself
				k := x.r.Range(1, len(o.d)-i)
				j := x.r.Intn(len(o.d) - k + 1)
				n = append([]float64{}, o.d...)
				copy(n[i:], o.d[j:j+k])
				return n, func() { av.SetSubVectorWithSlice(i, av.DataRef()[j:j+k]) }
			}
			return n, func() { av.SetSubVectorWithSlice(i, s) }
		}
		return n, func() { o.v.SetSubVector(i, a.v) }
	})
	inpl("VMapScalar", func(x *X, o *VObj) ([]float64, func()) {
		k := scal(x.r)
		switch x.r.Intn(5) {
		case 0:
			return mapV(o.d, func(a float64) float64 { return a + k }), func() { o.v.MapAdd(k) }
		case 1:
			return mapV(o.d, func(a float64) float64 { return a - k }), func() { o.v.MapSubtract(k) }
		case 2:
			return mapV(o.d, func(a float64) float64 { return a * k }), func() { o.v.MapMultiply(k) }
		case 3:
			k = float64(x.r.Pick(1, -1, 2))
			return mapV(o.d, func(a float64) float64 { return a / k }), func() { o.v.MapDivide(k) }
		}
		return mapV(o.d, func(a float64) float64 { return k }), func() { o.v.Set(k) }
	})
	inpl("VMap", func(x *X, o *VObj) ([]float64, func()) {
		k := scal(x.r)
		f := func(a float64) float64 { return 2*a + k }
		h := x.h
		return mapV(o.d, f), func() { o.v.Map(func(a float64) float64 { h.hit("map.f"); return f(a) }) }
	})
	inpl("VCombine", func(x *X, o *VObj) ([]float64, func()) {
		a, b := scal(x.r), scal(x.r)
		y := x.argVec(len(o.d))
		n := make([]float64, len(o.d))
		for i := range n {
			n[i] = a*o.d[i] + b*y.d[i]
		}
		return n, func() { o.v.Combine(a, b, y.v) }
	})
	inpl("VCopyFrom", func(x *X, o *VObj) ([]float64, func()) {
		y := x.argVec(len(o.d))
		return append([]float64{}, y.d...), func() { o.v.CopyFrom(y.v) }
	})
	inpl("VUpdateWalk", func(x *X, o *VObj) ([]float64, func()) {
		a, b := float64(x.r.Range(-1, 2)), float64(x.r.Range(-2, 2))
		k := x.r.Intn(4)
		lo, hi := 0, len(o.d)-1
		if k >= 2 {
			if len(o.d) == 0 {
				return nil, nil
			}
			lo = x.r.Intn(len(o.d))
			hi = x.r.Range(lo, len(o.d)-1)
		}
		n := append([]float64{}, o.d...)
		for i := lo; i <= hi; i++ {
			n[i] = a*o.d[i] + b*float64(i)
		}
		v := &funcVVisitor{h: x.h, f: func(i int, v float64) float64 { return a*v + b*float64(i) }}
		return n, func() { vwalkUpdate(o.v, k, v, lo, hi) }
	})
	reg("VUnitize", func(x *X) {
		o := x.anyV()
		if x.op.F != nil {
			o = x.argVec(x.g.p)
		}
		if o == nil {
			return
		}
		s := 0.0
		for _, e := range o.d {
			s += e * e
		}
		if s == 0 || s > 1e12 || !finV(o.d) {
			return
		}
		var g linear.RealVector
		if x.exec("UnitVector("+clsName[o.cls]+")", func() { g = linear.UnitVector(o.v) }, execOpt{}) {
			for i := range o.d {
				x.wantF("UnitVector", g.At(i), o.d[i]/sqrt(s), 1e-12)
			}
			if x.t.viol == nil && g.Dimension() != len(o.d) {
				x.t.fail("wrong-result:UnitVector", "dimension %d", g.Dimension())
			}
		}
		x.sameV("UnitVector", o)
	})
	reg("VQuery", func(x *X) {
		o := x.anyV()
		if x.op.F != nil {
			o = x.argVec(x.g.p)
		}
		if o == nil {
			return
		}
		nm := "(" + clsName[o.cls] + ")"
		n := len(o.d)
		l1, l2, li := 0.0, 0.0, 0.0
		mn, mx := math.Inf(1), math.Inf(-1)
		for _, e := range o.d {
			l1 += math.Abs(e)
			l2 += e * e
			li = math.Max(li, math.Abs(e))
			mn, mx = math.Min(mn, e), math.Max(mx, e)
		}
		f := func(name string, tol float64, want float64, call func() float64) {
			var g float64
			if x.exec(name+nm, func() { g = call() }, execOpt{}) {
				x.wantF(name+nm, g, want, tol)
			}
		}
		q := x.r.Intn(9)
		if !finV(o.d) && q != 1 && q < 7 {
			q = 8
		}
		switch q {
		case 0:
			f("VecNorm", 1e-12, sqrt(l2), func() float64 { return linear.VecNorm(o.v) })
		case 1:
			f("VecL1Norm", 0, l1, func() float64 { return linear.VecL1Norm(o.v) })
		case 2:
			f("VecLInfNorm", 0, li, func() float64 { return linear.VecLInfNorm(o.v) })
		case 3:
			if n > 0 {
				f("MinValue", 0, mn, func() float64 { return linear.MinValue(o.v) })
			} else {
				f("MinValue", 0, math.NaN(), func() float64 { return linear.MinValue(o.v) })
			}
		case 4:
			if n > 0 {
				f("MaxValue", 0, mx, func() float64 { return linear.MaxValue(o.v) })
			} else {
				f("MaxValue", 0, math.NaN(), func() float64 { return linear.MaxValue(o.v) })
			}
		case 5:
			var k int
			if x.exec("MinIndex"+nm, func() { k = linear.MinIndex(o.v) }, execOpt{}) {
				if (n == 0 && k != -1) || (n > 0 && (k < 0 || k >= n || o.d[k] != mn)) {
					x.t.fail("wrong-result:MinIndex", "MinIndex of %v is %d", trunc(o.d), k)
				}
			}
		case 6:
			var k int
			if x.exec("MaxIndex"+nm, func() { k = linear.MaxIndex(o.v) }, execOpt{}) {
				if (n == 0 && k != -1) || (n > 0 && (k < 0 || k >= n || o.d[k] != mx)) {
					x.t.fail("wrong-result:MaxIndex", "MaxIndex of %v is %d", trunc(o.d), k)
				}
			}
		case 7:
			var g []float64
			if x.exec("ToArray"+nm, func() { g = o.v.ToArray() }, execOpt{}) && x.wantS("ToArray"+nm, g, o.d) {
				x.keepS(&SObj{s1: g, d1: append([]float64{}, o.d...), note: "result of ToArray"})
			}
		case 8:
			var a, b bool
			if x.exec("IsNaN"+nm, func() { a, b = o.v.IsNaN(), o.v.IsInf() }, execOpt{}) {
				x.wantB("IsNaN"+nm, a, hasNaN(o.d))
				x.wantB("IsInf"+nm, b, !hasNaN(o.d) && !finV(o.d))
			}
		}
		x.sameV("vector query", o)
	})
	reg("VQuery2", func(x *X) {
		o := x.anyV()
		if o == nil {
			return
		}
		if x.op.F != nil && x.r.Chance(0.5) {
			o = x.argVec(len(o.d))
		}
		a := x.argVec(len(o.d))
		nm := "(" + clsName[o.cls] + "," + clsName[a.cls] + ")"
		dot, l1, l2, li, na, nb := 0.0, 0.0, 0.0, 0.0, 0.0, 0.0
		for i := range o.d {
			dot += o.d[i] * a.d[i]
			df := math.Abs(o.d[i] - a.d[i])
			l1 += df
			l2 += df * df
			li = math.Max(li, df)
			na += o.d[i] * o.d[i]
			nb += a.d[i] * a.d[i]
		}
		f := func(name string, tol float64, want float64, call func() float64) {
			var g float64
			if x.exec(name+nm, func() { g = call() }, execOpt{}) {
				x.wantF(name+nm, g, want, tol)
			}
		}
		q := x.r.Intn(7)
		if !(finV(o.d) && finV(a.d)) && q != 0 && q != 2 {
			q = 6
		}
		switch q {
		case 0:
			f("VecDotProduct", 0, dot, func() float64 { return linear.VecDotProduct(o.v, a.v) })
		case 1:
			f("VecDistance", 1e-12, sqrt(l2), func() float64 { return linear.VecDistance(o.v, a.v) })
		case 2:
			f("VecL1Distance", 0, l1, func() float64 { return linear.VecL1Distance(o.v, a.v) })
		case 3:
			f("VecLInfDistance", 0, li, func() float64 { return linear.VecLInfDistance(o.v, a.v) })
		case 4:
			if na > 0 && nb > 0 {
				f("VecCosine", 1e-12, dot/(sqrt(na)*sqrt(nb)), func() float64 { return linear.VecCosine(o.v, a.v) })
			}
		case 5:
			if nb > 0 {
				var g linear.RealVector
				if x.exec("Projection"+nm, func() { g = linear.Projection(o.v, a.v) }, execOpt{}) {
					for i := range a.d {
						if !x.wantF("Projection"+nm, g.At(i), a.d[i]*(dot/nb), 1e-12) {
							break
						}
					}
				}
			}
		case 6:
			if o.cls == clsFor {
				return
			}
			var g bool
			if x.op.F == nil && x.r.Chance(0.15) {
				var v interface{} = o.d
				if x.r.Chance(0.3) {
					v = nil
				} else if x.r.Chance(0.4) {
					v = "vector"
				}
				if x.exec("VEquals(other type)", func() { g = o.v.Equals(v) }, execOpt{}) {
					x.wantB("VEquals(other type)", g, false)
				}
				return
			}
			if x.op.F == nil && x.r.Chance(0.15) {
				// another dimension, the same beginning
				l := append([]float64{}, o.d...)
				if len(l) > 0 && x.r.Chance(0.5) {
					l = l[:len(l)-1]
				} else {
					l = append(l, float64(x.r.Intn(2)))
				}
				b := x.mkVec(l)
				if x.exec("VEquals(other dimension)", func() { g = o.v.Equals(b.v) }, execOpt{}) {
					x.wantB("VEquals(other dimension)", g, false)
				}
				x.sameV("vector query", b)
				return
			}
			if x.r.Chance(0.5) {
				a = x.mkVec(append([]float64{}, o.d...))
			}
			want := eqSlice(o.d, a.d)
			if hasNaN(a.d) { // documented: NaN anywhere equals NaN anywhere
				want = hasNaN(o.d)
			}
			if x.exec("VEquals"+nm, func() { g = o.v.Equals(a.v) }, execOpt{}) {
				x.wantB("VEquals"+nm, g, want)
			}
		}
		x.sameV("vector query", o)
		x.sameV("vector query", a)
	})
	reg("VReadWalk", func(x *X) {
		o := x.vrecv()
		if o == nil || len(o.d) == 0 {
			return
		}
		k := x.r.Intn(4)
		lo, hi := 0, len(o.d)-1
		if k >= 2 {
			lo = x.r.Intn(len(o.d))
			hi = x.r.Range(lo, len(o.d)-1)
		}
		v := &readVVisitor{h: x.h, d: make([]float64, len(o.d))}
		want := make([]float64, len(o.d))
		copy(want[lo:hi+1], o.d[lo:hi+1])
		name := vwalkNames[4+k]
		var g float64
		if x.exec(name, func() { g = vwalkRead(o.v, k, v, lo, hi) }, execOpt{}) {
			x.wantF(name, g, float64(hi-lo+1), 0)
			x.wantS(name, v.d, want)
		}
	})
	reg("VUnitizeInPlace", func(x *X) {
		o := x.vrecv()
		if o == nil || len(o.d) == 0 {
			return
		}
		// of a vector whose norm is a power of two, so that the result is exact
		i := x.r.Intn(len(o.d))
		n := make([]float64, len(o.d))
		s := float64(x.r.Pick(1, 2, 4, -2))
		n[i] = s
		x.out = x.t.call(nil, func() { o.v.Set(0); o.v.SetEntry(i, s) })
		if !x.out.OK() {
			x.t.fail("unexpected-panic:Set", "%v", x.out)
			return
		}
		o.d = n
		u := append([]float64{}, n...)
		u[i] = s / math.Abs(s)
		x.exec("Unitize", func() { o.v.Unitize() }, execOpt{rv: o, nv: u})
	})
	reg("VIterate", func(x *X) {
		o := x.anyV()
		if o == nil {
			return
		}
		var got []float64
		var idx []int
		if x.exec("Iterate("+clsName[o.cls]+")", func() {
			it := o.v.Iterator()
			for it.HasNext() {
				e := it.Next()
				got = append(got, e.Value())
				idx = append(idx, e.Index())
				if len(idx) > len(o.d)+3 {
					break
				}
			}
		}, execOpt{}) {
			x.wantS("Iterate", got, o.d)
			for i := range idx {
				if idx[i] != i {
					x.t.fail("wrong-result:Iterate", "index %d at position %d", idx[i], i)
				}
			}
		}
	})
}

type funcVVisitor struct {
	f func(i int, v float64) float64
	h *Hook
}

func (v *funcVVisitor) Start(dimension, start, end int) { v.h.hit("vvisitor.Start") }
func (v *funcVVisitor) Visit(i int, x float64) float64  { v.h.hit("vvisitor.Visit"); return v.f(i, x) }
func (v *funcVVisitor) End() float64                    { v.h.hit("vvisitor.End"); return 7 }

type readVVisitor struct {
	h *Hook
	d []float64
	n int
}

func (v *readVVisitor) Start(dimension, start, end int) { v.h.hit("vvisitor.Start") }
func (v *readVVisitor) Visit(i int, x float64) {
	v.h.hit("vvisitor.Visit")
	v.n++
	v.d[i] = x
}
func (v *readVVisitor) End() float64 { v.h.hit("vvisitor.End"); return float64(v.n) }

func vwalkUpdate(m linear.RealVector, k int, v linear.RealVectorChangingVisitor, lo, hi int) float64 {
	switch k {
	case 0:
		return m.WalkInUpdateDefaultOrder(v)
	case 1:
		return m.WalkInUpdateOptimizedOrder(v)
	case 2:
		return m.WalkInUpdateDefaultOrderBounded(v, lo, hi)
	}
	return m.WalkInUpdateOptimizedOrderBounded(v, lo, hi)
}
func vwalkRead(m linear.RealVector, k int, v linear.RealVectorPreservingVisitor, lo, hi int) float64 {
	switch k {
	case 0:
		return m.WalkInDefaultOrder(v)
	case 1:
		return m.WalkInOptimizedOrder(v)
	case 2:
		return m.WalkInDefaultOrderBounded(v, lo, hi)
	}
	return m.WalkInOptimizedOrderBounded(v, lo, hi)
}
