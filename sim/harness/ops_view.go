package main

import (
	"github.com/jtejido/linear"
)

// Views (C18): slices that are an object's own storage because the caller asked
// for it, by a constructor told not to copy or by DataRef.

type View struct {
	m    *MObj
	v    *VObj
	s1   []float64
	s2   [][]float64
	rows [][]float64 // the rows or blocks themselves, in a slice of their own
	note string
}

func (g *Group) addView(r *Rng, v *View) {
	v.rows = append([][]float64{}, v.s2...)
	if len(g.views) < 5 {
		g.views = append(g.views, v)
	} else {
		g.views[r.Intn(len(g.views))] = v
	}
}

// at returns where the view holds entry (i, j) of its object; ok is false where
// it holds none (off the diagonal).
func (v *View) at(s2 [][]float64, i, j int) (p *float64, ok bool) {
	switch {
	case v.v != nil:
		if i < len(v.s1) {
			return &v.s1[i], true
		}
	case v.m.cls == clsDiag:
		if i != j {
			return nil, true
		}
		if i < len(v.s1) {
			return &v.s1[i], true
		}
	case v.m.cls == clsBlk:
		bs := linear.BLOCK_SIZE
		nb := (v.m.d.C + bs - 1) / bs
		b, w := (i/bs)*nb+j/bs, min(bs, v.m.d.C-j/bs*bs)
		if k := (i%bs)*w + j%bs; b < len(s2) && k < len(s2[b]) {
			return &s2[b][k], true
		}
	default:
		if i < len(s2) && j < len(s2[i]) {
			return &s2[i][j], true
		}
	}
	return nil, false
}

func (x *X) sameView(v *View) {
	R, C := 0, 1
	var want func(i, j int) float64
	if v.v != nil {
		R, want = len(v.v.d), func(i, j int) float64 { return v.v.d[i] }
	} else {
		R, C, want = v.m.d.R, v.m.d.C, v.m.d.at
	}
	for n := 0; n < R*C*2; n++ {
		i, j, s2 := n/2/C, n/2%C, v.s2
		if n%2 == 1 {
			if s2 == nil {
				continue
			}
			s2 = v.rows
		}
		{
			p, ok := v.at(s2, i, j)
			if !ok {
				x.t.fail("view-lost:"+x.what, "after %s the slice that is an object's storage (%s) has no entry (%d,%d)", x.what, v.note, i, j)
				return
			}
			if p != nil && !eqF(*p, want(i, j)) {
				x.t.fail("view-lost:"+x.what, "after %s entry (%d,%d) is %v in the object, and %v in the slice that is its storage (%s)", x.what, i, j, want(i, j), *p, v.note)
				return
			}
		}
	}
}

func init() {
	histOps["ViewNew"] = func(x *X) {
		if x.w.ro {
			return
		}
		x.what = "constructor told not to copy"
		x.out = Outcome{Kind: "ok"}
		v := &View{}
		var d *DM
		cls := x.r.Intn(4)
		if cls != 3 {
			p, q := x.g.p, x.g.q
			if x.r.Chance(0.3) {
				p, q = q, p
			}
			if cls == clsDiag {
				q = p
			}
			d = intDM(x.r, p, q, cls == clsDiag)
			v.m = &MObj{d: d, cls: cls}
		}
		out := x.t.call(nil, func() {
			switch cls {
			case clsArr:
				v.s2, v.note = x.spare2(d.slices()), "slices handed to NewArray2DRowRealMatrixFromSlices"
				v.m.m = must(linear.NewArray2DRowRealMatrixFromSlices(v.s2, false))
			case clsBlk:
				v.s2, v.note = x.spare2(toBlocks(d)), "blocks handed to NewBlockRealMatrixFromBlockData"
				v.m.m = must(linear.NewBlockRealMatrixFromBlockData(d.R, d.C, v.s2))
			case clsDiag:
				v.s1, v.note = x.spare(make([]float64, d.R)), "slice handed to NewDiagonalMatrix"
				for i := range v.s1 {
					v.s1[i] = d.at(i, i)
				}
				v.m.m = must(linear.NewDiagonalMatrix(v.s1, false))
			default:
				n := x.g.p
				if x.r.Chance(0.5) {
					n = x.g.q
				}
				v.s1, v.note = x.spare(intVec(x.r, n)), "slice handed to NewArrayRealVector"
				v.v = &VObj{v: must(linear.NewArrayRealVector(v.s1, false)), d: append([]float64{}, v.s1...), cls: clsArr}
			}
		})
		if out.Kind != "ok" {
			x.t.fail("unexpected-panic:ViewNew", "a constructor told not to copy ended with %v", out)
			return
		}
		x.note("ViewNew " + v.note)
		if v.m != nil {
			if len(x.g.ms) < 5 {
				x.g.ms = append(x.g.ms, v.m)
			} else {
				x.g.ms[x.r.Intn(len(x.g.ms))] = v.m
			}
		} else if len(x.g.vs) < 5 {
			x.g.vs = append(x.g.vs, v.v)
		} else {
			x.g.vs[x.r.Intn(len(x.g.vs))] = v.v
		}
		x.g.addView(x.r, v)
	}
	histOps["ViewTake"] = func(x *X) {
		if x.w.ro {
			return
		}
		var c []*View
		for _, o := range x.g.ms {
			switch m := o.m.(type) {
			case *linear.Array2DRowRealMatrix:
				c = append(c, &View{m: o, s2: m.DataRef(), note: "DataRef of a matrix"})
			case *linear.DiagonalMatrix:
				c = append(c, &View{m: o, s1: m.DataRef(), note: "DataRef of a diagonal matrix"})
			}
		}
		for _, o := range x.g.vs {
			if m, ok := o.v.(*linear.ArrayRealVector); ok {
				c = append(c, &View{v: o, s1: m.DataRef(), note: "DataRef of a vector"})
			}
		}
		x.what = "DataRef"
		x.out = Outcome{Kind: "ok"}
		if len(c) == 0 {
			return
		}
		v := c[x.r.Intn(len(c))]
		x.note("ViewTake " + v.note)
		x.g.addView(x.r, v)
	}
	// objects whose storage is parts of one slice that may overlap
	histOps["ViewParts"] = func(x *X) {
		if x.w.ro {
			return
		}
		x.out = Outcome{Kind: "ok"}
		n := x.r.Range(2, 12)
		s := x.spare(intVec(x.r, n))
		was := append([]float64{}, s...)
		k := x.r.Range(1, n)
		a, b := x.r.Intn(n-k+1), x.r.Intn(n-k+1) // two parts of the same length
		want := append([]float64{}, s...)
		var got, res []float64
		name := ""
		out := x.t.call(nil, func() {
			p := must(linear.NewArrayRealVector(s[a:a+k], false))
			q := must(linear.NewArrayRealVector(s[b:b+k], false))
			switch x.r.Intn(8) {
			case 0, 1, 2, 3:
				name = "SetSubVector of another part"
				whole := must(linear.NewArrayRealVector(s, false))
				at := x.r.Intn(n - k + 1)
				copy(want[at:], was[b:b+k])
				if x.r.Chance(0.75) {
					whole.SetSubVector(at, q)
				} else {
					whole.SetSubVectorWithSlice(at, s[b:b+k])
				}
			case 4:
				name, got = "sum of two parts", vecToSlice(p.Add(q))
				res = zip(was[a:a+k], was[b:b+k], func(u, v float64) float64 { return u + v })
			case 5:
				name, got = "difference of two parts", vecToSlice(p.Subtract(q))
				res = zip(was[a:a+k], was[b:b+k], func(u, v float64) float64 { return u - v })
			case 6:
				name, got = "product of two parts", vecToSlice(p.EBEMultiply(q))
				res = zip(was[a:a+k], was[b:b+k], func(u, v float64) float64 { return u * v })
			default:
				name, got = "AppendVector of another part", vecToSlice(p.AppendVector(q))
				res = append(append([]float64{}, was[a:a+k]...), was[b:b+k]...)
			}
		})
		x.what = name
		if out.Kind != "ok" {
			x.t.fail("unexpected-panic:"+name, "%s ended with %v", name, out)
			return
		}
		x.note("ViewParts " + name)
		x.wantS(name, got, res)
		if x.t.viol == nil {
			x.wantS(name+" (storage)", s, want)
		}
	}
	histOps["ViewPoke"] = func(x *X) {
		x.what = "caller's change of an object's storage"
		x.out = Outcome{Kind: "ok"}
		if x.w.ro || len(x.g.views) == 0 {
			return
		}
		v := x.g.views[abs(x.op.Arg(0))%len(x.g.views)]
		R, C := 0, 1
		if v.v != nil {
			R = len(v.v.d)
		} else {
			R, C = v.m.d.R, v.m.d.C
		}
		if R == 0 {
			return
		}
		for k := x.r.Pick(1, 1, 1, 3); k > 0; k-- {
			i, j := x.r.Intn(R), x.r.Intn(C)
			if v.m != nil && v.m.cls == clsDiag {
				j = i
			}
			s2 := v.s2
			if x.r.Chance(0.5) {
				s2 = v.rows
			}
			p, ok := v.at(s2, i, j)
			if !ok || p == nil {
				return
			}
			*p = smallInt(x.r)
			if v.v != nil {
				v.v.d[i] = *p
			} else {
				v.m.d.set(i, j, *p)
			}
		}
		x.t.inc("fault:caller-writes-storage")
		x.note("ViewPoke " + v.note)
	}
}

func zip(a, b []float64, f func(u, v float64) float64) []float64 {
	o := make([]float64, len(a))
	for i := range a {
		o[i] = f(a[i], b[i])
	}
	return o
}
