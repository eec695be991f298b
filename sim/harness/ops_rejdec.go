package main

import (
	"math"

	"github.com/jtejido/linear"
)

// Requests to decompositions and solvers that must be rejected.

func init() {
	add := func(name string, f func(x *X)) { badOps = append(badOps, badOp{name, f}) }
	mk := func(x *X, d *DM) *MObj {
		cls := x.r.Intn(4)
		if cls == clsDiag && !d.isDiag() {
			cls = clsArr
		}
		return &MObj{m: buildMat(x.r, cls, d), d: d.clone(), cls: cls}
	}
	fails := func(f func() error) func() error { return f }
	add("decomposition of a non-square matrix", func(x *X) {
		n := x.r.Range(1, 5)
		r, c := n, n+x.r.Range(1, 3)
		if x.r.Chance(0.5) {
			r, c = c, r
		}
		a := mk(x, dense(x.r, r, c))
		kind := []string{"lu", "chol", "eig", "schur", "hess", "tri"}[x.r.Intn(6)]
		x.because(whySquare(r, c))
		x.reject(kind+" of a non-square matrix", fails(func() error {
			_, err := buildDec(&DecIn{kind: kind, thr: -1}, a.m)
			return err
		}))
		x.sameM(kind, a)
	})
	add("Cholesky of a matrix not symmetric", func(x *X) {
		n := x.r.Range(2, 6)
		d := dominant(x.r, n, true)
		i := x.r.Intn(n - 1)
		j := x.r.Range(i+1, n-1)
		rel := x.r.Pick(-20, -30, -40)
		thr := math.Ldexp(1, rel)
		if x.r.Chance(0.5) {
			d.set(j, i, d.at(i, j)+float64(x.r.Range(1, 3)))
		} else {
			// by little more than is tolerated
			unevenly(x.r, d)
			if i, j = offDiag(x.r, d); i == j {
				return
			}
			if i > j {
				i, j = j, i
			}
			d.set(j, i, d.at(i, j)*(1+math.Ldexp(1, rel+x.r.Range(1, 8))))
		}
		a := mk(x, d)
		differ := func(i, j int) reason {
			return mkReason(sf("entries (%d,%d) and (%d,%d) differ", i, j, j, i), linear.ESYMM, "symmetric",
				[]float64{float64(i), float64(j), float64(j), float64(i), thr}, fv{"Row", float64(i)}, fv{"Column", float64(j)}, fv{"Threshold", thr})
		}
		x.because([]reason{differ(i, j), differ(j, i)})
		x.reject("Cholesky of a matrix not symmetric", fails(func() error {
			_, err := linear.NewCholeskyDecomposition(a.m, thr, 1e-10)
			return err
		}))
		x.sameM("Cholesky", a)
	})
	notPos := func(k int, v, thr float64) []reason {
		return []reason{mkReason(sf("pivot %d is %v", k, v), linear.ENSMALL, "not positive definite",
			[]float64{v, thr, v, float64(k)}, fv{"Row", float64(k)}, fv{"Column", float64(k)}, fv{"Argument", v}, fv{"Min", thr}, fv{"Threshold", thr}, fv{"BoundAllowed", 0})}
	}
	add("Cholesky of a matrix not positive definite", func(x *X) {
		// L D L' with a unit lower L of integers and powers of 4 in D, so that
		// every pivot is exact
		n := x.r.Range(1, 6)
		l, v := newDM(n, n), make([]float64, n)
		plain := x.r.Chance(0.3)
		for i := range v {
			v[i] = float64(x.r.Pick(1, 4, 16, 64))
			for j := 0; j < i && !plain; j++ {
				l.set(i, j, float64(x.r.Range(-2, 2)))
			}
			l.set(i, i, 1)
		}
		k := x.r.Intn(n)
		thr := float64(x.r.Pick(0, 1)) / 2
		v[k] = thr - float64(x.r.Pick(0, 1, 6))
		d := newDM(n, n)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				var t float64
				for h := 0; h <= i && h <= j; h++ {
					t += l.at(i, h) * v[h] * l.at(j, h)
				}
				d.set(i, j, t)
			}
		}
		a := mk(x, d)
		x.because(notPos(k, v[k], thr))
		x.reject("Cholesky of a matrix not positive definite", fails(func() error {
			_, err := linear.NewCholeskyDecomposition(a.m, 1e-15, thr)
			return err
		}))
		x.sameM("Cholesky", a)
	})
	add("rectangular Cholesky of a matrix not semi-definite", func(x *X) {
		// the first pivot is p, a power of 4; what remains has the diagonal s
		n := x.r.Range(1, 6)
		p := x.r.Intn(n)
		thr := float64(x.r.Pick(0, 1, 2)) / 2
		d := newDM(n, n)
		s := make([]float64, n)
		y := make([]float64, n)
		any := n > 1
		for i := range s {
			s[i] = float64(x.r.Pick(0, -1, -2, -3, -7)) * thr
			if thr == 0 {
				s[i] = float64(x.r.Pick(0, 0, -1, -5))
			}
			y[i] = float64(x.r.Range(-3, 3))
		}
		y[p] = 16
		if any {
			k := x.r.Intn(n)
			if k == p {
				k = (p + 1) % n
			}
			s[k] = -thr - float64(x.r.Range(1, 4))
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				d.set(i, j, y[i]*y[j])
			}
		}
		for i := 0; i < n; i++ {
			if i != p {
				d.set(i, i, d.at(i, i)+s[i])
			}
		}
		if !any { // the first pivot is already too small
			d.set(0, 0, thr-float64(x.r.Pick(0, 1, 6)))
			s[0] = d.at(0, 0)
			p = -1
		}
		a := mk(x, d)
		var why []reason
		for i := range s {
			if i != p && (s[i] < -thr || p < 0) {
				why = append(why, notPos(i, s[i], thr)...)
			}
		}
		x.because(why)
		x.reject("rectangular Cholesky of a matrix not semi-definite", fails(func() error {
			_, err := linear.NewRectangularCholeskyDecompositionWithThreshold(a.m, thr)
			return err
		}))
		x.sameM("rectangular Cholesky", a)
	})
	add("solver with a bad right-hand side", func(x *X) {
		n := x.r.Range(1, 5)
		kind := []string{"lu", "chol", "qr", "rrqr", "eig", "svd"}[x.r.Intn(6)]
		d := dominant(x.r, n, true)
		m := n
		if (kind == "qr" || kind == "rrqr" || kind == "svd") && x.r.Chance(0.3) {
			m = n + x.r.Range(1, 2)
			e := newDM(m, n)
			copy(e.A, d.A)
			d = e
		}
		bad := m + x.r.Pick(1, 2, -1)
		if bad == 0 {
			bad = 2
		}
		a := mk(x, d)
		var s linear.DecompositionSolver
		out := x.t.call(nil, func() {
			o, err := buildDec(&DecIn{kind: kind, thr: -1}, a.m)
			if err != nil {
				panic(err)
			}
			s = o.(solverer).Solver()
		})
		if out.Kind != "ok" {
			x.t.fail("unexpected-panic:"+kind, "%s solver of a valid matrix ended with %v", kind, out)
			return
		}
		x.because(whyDim(bad, m, kind == "svd"))
		if x.r.Chance(0.5) {
			b := x.mkVec(intVec(x.r, bad))
			x.reject(kind+" solve with a vector of wrong length", fails(func() error { s.SolveVector(b.v); return nil }))
			x.sameV(kind, b)
		} else {
			b := mk(x, dense(x.r, bad, x.r.Range(1, 3)))
			x.reject(kind+" solve with a matrix of wrong height", fails(func() error { s.SolveMatrix(b.m); return nil }))
			x.sameM(kind, b)
		}
		x.sameM(kind, a)
	})
	add("solve with a singular matrix", func(x *X) {
		n := x.r.Range(1, 5)
		kind := []string{"lu", "qr", "eig"}[x.r.Intn(3)]
		v := make([]float64, n)
		for i := range v {
			v[i] = float64(x.r.Range(1, 9))
		}
		k := x.r.Intn(n)
		v[k] = 0
		a := mk(x, diagDM(v))
		var s linear.DecompositionSolver
		out := x.t.call(nil, func() {
			o, err := buildDec(&DecIn{kind: kind, thr: -1}, a.m)
			if err != nil {
				panic(err)
			}
			s = o.(solverer).Solver()
		})
		if out.Kind != "ok" {
			x.t.fail("unexpected-panic:"+kind, "%s solver of a valid matrix ended with %v", kind, out)
			return
		}
		x.because(whyPlain(linear.ESING, "singular"))
		if kind == "qr" {
			x.because([]reason{mkReason(sf("diagonal entry %d of R is 0", k), linear.ESING, "singular", []float64{0, 0, float64(k)})})
		}
		switch x.r.Intn(3) {
		case 0:
			b := x.mkVec(intVec(x.r, n))
			x.reject(kind+" solve, singular", fails(func() error { s.SolveVector(b.v); return nil }))
			x.sameV(kind, b)
		case 1:
			b := mk(x, dense(x.r, n, x.r.Range(1, 3)))
			x.reject(kind+" solve, singular", fails(func() error { s.SolveMatrix(b.m); return nil }))
			x.sameM(kind, b)
		default:
			x.reject(kind+" inverse, singular", fails(func() error { s.Inverse(); return nil }))
		}
		x.sameM(kind, a)
	})
	add("covariance with a cut-off above every singular value", func(x *X) {
		n := x.r.Range(1, 4)
		v := make([]float64, n)
		top := 0.0
		for i := range v {
			v[i] = float64(x.r.Range(1, 9))
			top = math.Max(top, v[i])
		}
		a := mk(x, diagDM(v))
		cut := top + float64(x.r.Range(1, 5))
		var s *linear.SingularValueDecomposition
		out := x.t.call(nil, func() {
			s = must(linear.NewSingularValueDecomposition(a.m))
			top = s.SingularValues()[0]
		})
		if out.Kind != "ok" {
			x.t.fail("unexpected-panic:svd", "singular values of a valid matrix ended with %v", out)
			return
		}
		x.because([]reason{mkReason(sf("cut-off %v above %v", cut, top), linear.ENBIG, "cutoff singular value", []float64{cut, top},
			fv{"Argument", cut}, fv{"Max", top}, fv{"BoundAllowed", 1})})
		x.reject("Covariance with a cut-off above every singular value", fails(func() error { s.Covariance(cut); return nil }))
		x.sameM("svd", a)
	})
	add("unsupported request to an eigen decomposition", func(x *X) {
		n := x.r.Range(2, 5)
		d := newDM(n, n)
		for i := 0; i < n; i++ {
			d.set(i, i, float64(x.r.Range(1, 9)))
		}
		root := x.r.Chance(0.5)
		if root && x.r.Chance(0.5) {
			d.set(n-1, n-1, float64(-x.r.Range(0, 3)))
		} else { // a pair of complex eigenvalues
			d.set(0, 1, 3)
			d.set(1, 0, -3)
			d.set(1, 1, d.at(0, 0))
		}
		a := mk(x, d)
		var e *linear.EigenDecomposition
		out := x.t.call(nil, func() { e = must(linear.NewEigenDecomposition(a.m)) })
		if out.Kind != "ok" {
			x.t.fail("unexpected-panic:eig", "eigen decomposition of a valid matrix ended with %v", out)
			return
		}
		x.because(whyPlain(linear.EUNSUP, "unsupported"))
		if root {
			x.reject("SquareRoot, not positive definite", fails(func() error { e.SquareRoot(); return nil }))
		} else {
			x.reject("Solver, complex eigenvalues", fails(func() error { e.Solver(); return nil }))
		}
		x.sameM("eig", a)
	})
	// Requests that may be answered or rejected; a rejection must say why.
	either := func(x *X, what string, why []reason, f func() error) {
		var err error
		x.t.beginExec()
		x.out = x.t.call(nil, func() { err = f() })
		x.t.endExec()
		x.note(what)
		if x.out.Kind == "budget" {
			x.t.fail("unbounded:"+what, "%s did not finish", what)
		} else if x.out.Kind == "panic" || err != nil {
			x.because(why)
			x.judgeReason(what, err)
		}
	}
	add("iteration that cannot converge", func(x *X) {
		n := x.r.Range(3, 5)
		d := dense(x.r, n, n)
		sym := x.r.Chance(0.4)
		bad := math.NaN()
		if x.r.Chance(0.2) {
			bad = math.Inf(1)
		}
		put := func(i, j int) {
			d.set(i, j, bad)
			if sym {
				d.set(j, i, bad)
			}
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if x.r.Chance(0.7) {
					put(i, j)
				} else if sym {
					d.set(j, i, d.at(i, j))
				}
			}
		}
		put(1, 0)
		put(n-1, n-2)
		a := mk(x, d)
		why := []reason{mkReason("the iteration does not converge", linear.EMAXITER, "converge", nil)}
		switch {
		case sym || x.r.Chance(0.5):
			why = append(why, whyPlain(linear.EARITH, "zero norm")...)
			either(x, "eigen decomposition of NaN", why, func() error { _, err := linear.NewEigenDecomposition(a.m); return err })
		default:
			either(x, "schur of NaN", why, func() error { _, err := linear.NewSchurTransformer(a.m); return err })
		}
	})
	add("eigen decomposition of vanishing entries", func(x *X) {
		n := x.r.Range(2, 5)
		d := newDM(n, n)
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				d.set(i, j, math.Ldexp(float64(x.r.Range(1, 7)), -1073))
			}
		}
		a := mk(x, d)
		why := whyPlain(linear.EARITH, "zero norm")
		if n > 2 {
			why = append(why, mkReason("the iteration does not converge", linear.EMAXITER, "converge", nil))
		}
		either(x, "eigen decomposition of vanishing entries", why, func() error { _, err := linear.NewEigenDecomposition(a.m); return err })
	})
}

// dense is a matrix of small integers, none of them zero.
func dense(r *Rng, m, n int) *DM {
	d := newDM(m, n)
	for i := range d.A {
		d.A[i] = float64(r.Pick(-3, -2, -1, 1, 2, 3, 4))
	}
	return d
}
