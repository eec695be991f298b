package main

import (
	"fmt"
	"math"
)

// checkDec checks the defining equations of a decomposition on the answers get
// gives. It returns "" or the first thing that is wrong.
func checkDec(in *DecIn, get func(name string) Ans) string {
	a := in.a
	sc := a.frob()
	n := a.C
	if sc == 0 {
		sc = 1e-300
	}
	dim := float64(a.R + a.C)
	tol := 1e-11 * dim * sc
	otol := 1e-11 * dim
	var err string
	bad := func(f string, x ...interface{}) {
		if err == "" {
			err = fmt.Sprintf(f, x...)
		}
	}
	mat := func(name string, r, c int) *DM {
		x := get(name)
		if x.Rej || x.Nil || x.M == nil {
			bad("%s of a %s matrix is %v", name, a.dims(), x)
			return newDM(r, c)
		}
		if x.M.R != r || x.M.C != c {
			bad("%s is %s, want %dx%d", name, x.M.dims(), r, c)
			return newDM(r, c)
		}
		return x.M
	}
	eq := func(what string, x, y *DM, tol float64) {
		if d := x.diff(y); !(d <= tol) {
			bad("%s: differs by %.3g (allowed %.3g)", what, d, tol)
		}
	}
	orth := func(what string, q *DM) { eq(what+" has orthonormal columns", q.t().mul(q), identDM(q.C), otol) }
	shape := func(what string, x *DM, ok func(i, j int) bool, tol float64) {
		for i := 0; i < x.R; i++ {
			for j := 0; j < x.C; j++ {
				if !ok(i, j) && !(math.Abs(x.at(i, j)) <= tol) {
					bad("%s: entry (%d,%d) is %v, must be 0", what, i, j, x.at(i, j))
					return
				}
			}
		}
	}
	perm := func(what string, p *DM) {
		for i := 0; i < p.R; i++ {
			rs, cs := 0.0, 0.0
			for j := 0; j < p.C; j++ {
				v := p.at(i, j)
				if v != 0 && v != 1 {
					bad("%s is not a permutation: entry %v", what, v)
				}
				rs += v
				cs += p.at(j, i)
			}
			if rs != 1 || cs != 1 {
				bad("%s is not a permutation: line %d sums to %v and %v", what, i, rs, cs)
			}
		}
	}
	scalar := func(name string, want, rel float64) {
		x := get(name)
		if x.Rej || x.F != want && !(math.Abs(x.F-want) <= rel*math.Abs(want)+1e-300) {
			bad("%s is %v, want %v", name, x, want)
		}
	}
	boolean := func(name string, want bool) {
		x := get(name)
		if x.Rej || x.B != want {
			bad("%s is %v, want %v", name, x, want)
		}
	}
	vec := func(name string, n int) []float64 {
		x := get(name)
		if x.Rej || len(x.V) != n {
			bad("%s is %v, want %d values", name, x, n)
			return make([]float64, n)
		}
		return x.V
	}
	rejects := func(names ...string) {
		for _, nm := range names {
			if x := get(nm); !x.Rej {
				bad("%s was answered (%v) although it must be rejected", nm, x)
			}
		}
	}
	// the value is the product of n factors, where neither leaves the range
	product := func(name string, want float64, f func(i int) float64, n int) {
		lg := 0.0
		for i := 0; i < n; i++ {
			want *= f(i)
			lg += math.Abs(math.Log2(math.Abs(f(i))))
		}
		if lg < 900 {
			scalar(name, want, 1e-9)
		}
	}
	lower := func(i, j int) bool { return j <= i }
	upper := func(i, j int) bool { return j >= i }

	switch in.kind {
	case "lu":
		boolean("NonSing", !in.sing)
		if in.sing {
			for _, nm := range []string{"L", "U", "P"} {
				if x := get(nm); x.Rej || !x.Nil {
					bad("%s of a singular matrix is %v, want nil", nm, x)
				}
			}
			if x := get("Det"); x.Rej || !(math.Abs(x.F) <= 1e-9) {
				bad("determinant of a singular matrix is %v", x)
			}
			rejects("SolveV", "SolveM", "Inv", "BadV", "BadM")
			return err
		}
		l, u, p := mat("L", n, n), mat("U", n, n), mat("P", n, n)
		shape("L is lower triangular", l, lower, 0)
		shape("U is upper triangular", u, upper, 0)
		for i := 0; i < n; i++ {
			if l.at(i, i) != 1 {
				bad("diagonal of L is %v", l.at(i, i))
			}
		}
		perm("P", p)
		eq("P.A = L.U", p.mul(a), l.mul(u), tol)
		pv := get("Pivot")
		if len(pv.I) != n {
			bad("pivot is %v", pv)
		} else {
			for i, j := range pv.I {
				if j < 0 || j >= n || p.at(i, j) != 1 {
					bad("pivot %v does not describe P", pv.I)
					break
				}
			}
		}
		if in.detKnown {
			scalar("Det", in.det, 1e-8)
		}
		product("Det", float64(parity(p)), func(i int) float64 { return u.at(i, i) }, n)
		rejects("BadV", "BadM")
	case "chol":
		l, lt := mat("L", n, n), mat("LT", n, n)
		shape("L is lower triangular", l, lower, 0)
		eq("LT is the transpose of L", lt, l.t(), 0)
		eq("L.LT = A", l.mul(lt), a, tol)
		if in.detKnown {
			scalar("Det", in.det, 1e-8)
		}
		product("Det", 1, func(i int) float64 { return l.at(i, i) * l.at(i, i) }, n)
		boolean("NonSing", true)
		rejects("BadV", "BadM")
	case "rchol":
		rk := int(get("Rank").F)
		if rk != in.rank {
			bad("rank is %d, want %d", rk, in.rank)
		}
		b := mat("Root", n, rk)
		eq("Root.Root' = A", b.mul(b.t()), a, tol+1e-8*sc+in.slack)
	case "qr", "rrqr":
		m := a.R
		k := m
		if n < k {
			k = n
		}
		q, qt, r := mat("Q", m, m), mat("QT", m, m), mat("R", m, n)
		orth("Q", q)
		eq("QT is the transpose of Q", qt, q.t(), 0)
		shape("R is upper trapezoidal", r, upper, 0)
		ap := a
		if in.kind == "rrqr" {
			p := mat("P", n, n)
			perm("P", p)
			ap = a.mul(p)
			if in.rank > 0 {
				scalar("Rank", float64(in.rank), 0)
			}
		}
		eq("Q.R = A", q.mul(r), ap, tol)
		if in.kind == "rrqr" {
			for i, rel := range []float64{1e-3, 1e-8, 0.2} {
				if want, ok := rankOfR(r, rel*sc); ok && err == "" {
					scalar(fmt.Sprintf("Rank#%d", i), float64(want), 0)
				}
			}
		}
		h := get("H")
		if h.Rej || h.M == nil || h.M.R != m || h.M.C != n {
			bad("H is %v", h)
		} else {
			shape("H is lower trapezoidal", h.M, lower, 0)
			regular := true
			for j := 0; j < k; j++ {
				// a column with nothing left to reflect has no direction
				if !(math.Abs(r.at(j, j)) > 1e-6*sc) {
					regular = false
				}
			}
			if regular {
				// Q is the product of the reflections that the columns of H describe
				pr := identDM(m)
				for j := 0; j < k; j++ {
					v := h.M.col(j)
					vv := 0.0
					for _, x := range v {
						vv += x * x
					}
					if vv == 0 {
						continue
					}
					pv := pr.mulv(v)
					for i := 0; i < m; i++ {
						for l := 0; l < m; l++ {
							pr.set(i, l, pr.at(i, l)-2*pv[i]*v[l]/vv)
						}
					}
				}
				eq("Q is the product of the reflections in H", q, pr, 1e-9*dim)
			}
		}
		if m >= n {
			boolean("NonSing", !in.sing)
			if in.sing {
				rejects("SolveV", "SolveM", "Inv")
			}
		}
		rejects("BadV", "BadM")
	case "eig", "eigtri":
		v, d, vt := mat("V", n, n), mat("D", n, n), mat("VT", n, n)
		eq("VT is the transpose of V", vt, v.t(), 0)
		etol := tol * 1e3
		// eigenvectors may have any length: judge each against its own
		av, vd := a.mul(v), v.mul(d)
		for j := 0; j < n; j++ {
			size := 0.0
			for _, c := range []int{j - 1, j, j + 1} {
				// (D leaves out a vanishing imaginary part: equal values may be a pair)
				if c == j || c >= 0 && c < n && (d.at(c, j) != 0 || d.at(c, c) == d.at(j, j)) {
					for i := 0; i < n; i++ {
						size = math.Max(size, math.Abs(v.at(i, c)))
					}
				}
			}
			for i := 0; i < n; i++ {
				if e := math.Abs(av.at(i, j) - vd.at(i, j)); !(e <= etol*size) {
					bad("A.V = V.D: entry (%d,%d) differs by %.3g (allowed %.3g)", i, j, e, etol*size)
				}
			}
		}
		re, im := vec("Vals", n), vec("Imags", n)
		cx := false
		tr := 0.0
		for i := 0; i < n; i++ {
			if math.Abs(re[i]-d.at(i, i)) > etol {
				bad("eigenvalue %d is %v but D has %v", i, re[i], d.at(i, i))
			}
			// an imaginary part shows as an off-diagonal entry of D
			off := 0.0
			if i+1 < n && im[i] > 0 {
				off = d.at(i, i+1)
			} else if i > 0 && im[i] < 0 {
				off = d.at(i, i-1)
			}
			if math.Abs(im[i]-off) > etol+1e-11 {
				bad("imaginary part %d is %v but D has %v", i, im[i], off)
			}
			if math.Abs(im[i]) > 1e-9*sc {
				cx = true
			}
			tr += re[i] - a.at(i, i)
		}
		if math.Abs(tr) > etol*float64(n) {
			bad("eigenvalues do not sum to the trace (off by %v)", tr)
		}
		shape("D is block diagonal", d, func(i, j int) bool { return i-j <= 1 && j-i <= 1 }, 0)
		for j := 0; j < n && err == ""; j++ {
			x := get(fmt.Sprintf("VecAt#%d", j))
			if x.Rej || len(x.V) != n {
				bad("eigenvector %d is %v", j, x)
				break
			}
			for i := 0; i < n; i++ {
				if x.V[i] != v.at(i, j) {
					bad("eigenvector %d has %v at %d but V has %v", j, x.V[i], i, v.at(i, j))
				}
			}
			if x := get(fmt.Sprintf("ValAt#%d", j)); x.Rej || len(x.V) != 2 || x.V[0] != re[j] || x.V[1] != im[j] {
				bad("eigenvalue %d is %v, the arrays say %v+%vi", j, x, re[j], im[j])
			}
		}
		if cx {
			boolean("Complex", true)
			rejects("NonSing", "Sqrt")
		}
		if in.sym {
			orth("V", v)
			for i := 0; i < n; i++ {
				if im[i] != 0 {
					bad("a symmetric matrix got the complex eigenvalue %v+%vi", re[i], im[i])
				}
				if i > 0 && re[i] > re[i-1] {
					bad("eigenvalues not in descending order: %v", trunc(re))
				}
			}
			boolean("Complex", false)
			shape("D is diagonal", d, func(i, j int) bool { return i == j }, 0)
			if n <= 24 {
				ev, _ := refSymEig(a)
				for i := range ev {
					if math.Abs(ev[i]-re[i]) > etol {
						bad("eigenvalue %d is %v, want %v", i, re[i], ev[i])
					}
				}
			}
			boolean("NonSing", !in.sing)
			if in.sing {
				rejects("SolveV", "SolveM", "Inv")
			}
			if in.spd {
				s := mat("Sqrt", n, n)
				eq("Sqrt.Sqrt = A", s.mul(s), a, etol)
			} else if re[n-1] < -1e-6*sc {
				rejects("Sqrt")
			}
			if bound := math.Pow(math.Abs(sc), float64(n)); in.detKnown && bound < 1e280 {
				x := get("Det")
				if x.Rej || !(math.Abs(x.F-in.det) <= 1e-9*math.Abs(in.det)+1e-10*bound) {
					bad("determinant is %v, want %v", x, in.det)
				}
			}
			rejects("BadV", "BadM")
		} else {
			// vectors are not degenerate (a pair of conjugate values has one
			// complex vector, whose parts are two columns)
			for j := 0; j < n; j++ {
				s := 0.0
				for i := 0; i < n; i++ {
					s += v.at(i, j) * v.at(i, j)
					if im[j] > 0 && j+1 < n {
						s += v.at(i, j+1) * v.at(i, j+1)
					} else if im[j] < 0 && j > 0 {
						s += v.at(i, j-1) * v.at(i, j-1)
					}
				}
				if !(s > 1e-20) {
					bad("eigenvector %d is (almost) zero", j)
				}
			}
			// determinant agrees with the eigenvalues (complex ones come in pairs)
			pr, pi := 1.0, 0.0
			for i := 0; i < n; i++ {
				pr, pi = pr*re[i]-pi*im[i], pr*im[i]+pi*re[i]
			}
			x := get("Det")
			bound := math.Pow(math.Abs(sc), float64(n))
			if bound < 1e280 && (x.Rej || !(math.Abs(x.F-pr) <= 1e-9*math.Abs(pr)+1e-10*bound)) {
				bad("determinant is %v, the eigenvalues multiply to %v", x, pr)
			}
		}
	case "svd":
		m := a.R
		k := m
		if n < k {
			k = n
		}
		u, s, v := mat("U", m, k), mat("S", k, k), mat("V", n, k)
		ut, vt := mat("UT", k, m), mat("VT", k, n)
		orth("U", u)
		orth("V", v)
		eq("UT is the transpose of U", ut, u.t(), 0)
		eq("VT is the transpose of V", vt, v.t(), 0)
		shape("S is diagonal", s, func(i, j int) bool { return i == j }, 0)
		eq("U.S.VT = A", u.mul(s).mul(vt), a, tol)
		sv := vec("Vals", k)
		var ref []float64
		if m <= 24 && n <= 24 {
			ref = refSingular(a)
		}
		for i := range sv {
			if sv[i] != s.at(i, i) {
				bad("singular value %d is %v but S has %v", i, sv[i], s.at(i, i))
			}
			if !(sv[i] >= 0) || (i > 0 && sv[i] > sv[i-1]) {
				bad("singular values not non-negative and descending: %v", trunc(sv))
			}
			if ref != nil && math.Abs(ref[i]-sv[i]) > tol {
				bad("singular value %d is %v, want %v", i, sv[i], ref[i])
			}
		}
		scalar("Norm", sv[0], 1e-15)
		if sv[0] > 0 {
			scalar("ICond", sv[k-1]/sv[0], 1e-12)
			if sv[k-1] > 0 {
				scalar("Cond", sv[0]/sv[k-1], 1e-12)
			}
		}
		clear := in.rank == k
		if in.rank < k && sv[0] > 0 {
			mx := float64(m)
			if n > m {
				mx = float64(n)
			}
			clear = sv[in.rank] < 0.25*mx*2.2e-16*sv[0]
		}
		if clear {
			scalar("Rank", float64(in.rank), 0)
			if m == n {
				boolean("NonSing", !in.sing)
			}
		}
		if in.rank > 0 {
			// V.J.V' over the significant singular values
			for ci, cut := range []float64{1e-9, 1e-2, 0.3, 1e-9, 0.7} {
				if err != "" {
					continue
				}
				at := cut * sv[0]
				if ci == 3 && sv[(k-1)/2] > at { // exactly that singular value
					at = sv[(k-1)/2]
				}
				c := mat(fmt.Sprintf("Cov#%d", ci), n, n)
				want := newDM(n, n)
				clear := true
				for l := 0; l < k; l++ {
					if sv[l] != at && math.Abs(sv[l]-at) < 1e-12*sv[0] {
						clear = false
					}
					if sv[l] < at {
						continue
					}
					for i := 0; i < n; i++ {
						for j := 0; j < n; j++ {
							want.set(i, j, want.at(i, j)+v.at(i, l)*v.at(j, l)/sv[l]/sv[l])
						}
					}
				}
				if clear {
					eq(fmt.Sprintf("Covariance(%v) = V.J.VT", at), c, want, 1e-9*want.maxAbs())
				}
			}
		}
		if clear && in.rank > 0 {
			x := mat("Inv", n, m)
			xs := x.frob() + 1e-300
			cond := xs * sc
			pt := 1e-12 * dim * cond
			eq("A.X.A = A (pseudo-inverse)", a.mul(x).mul(a), a, pt*sc)
			eq("X.A.X = X (pseudo-inverse)", x.mul(a).mul(x), x, pt*xs*cond)
			ax, xa := a.mul(x), x.mul(a)
			eq("A.X symmetric (pseudo-inverse)", ax, ax.t(), pt*cond)
			eq("X.A symmetric (pseudo-inverse)", xa, xa.t(), pt*cond)
		}
		rejects("BadV", "BadM")
	case "schur":
		p, pt, t := mat("P", n, n), mat("PT", n, n), mat("T", n, n)
		orth("P", p)
		eq("PT is the transpose of P", pt, p.t(), 0)
		shape("T is quasi upper triangular", t, func(i, j int) bool { return j >= i-1 }, 0)
		for i := 0; i+2 < n; i++ {
			if math.Abs(t.at(i+1, i)) > tol && math.Abs(t.at(i+2, i+1)) > tol {
				bad("T has two adjacent sub-diagonal entries at %d", i)
			}
		}
		eq("P.T.PT = A", p.mul(t).mul(pt), a, tol*10)
	case "hess":
		p, pt, h := mat("P", n, n), mat("PT", n, n), mat("H", n, n)
		orth("P", p)
		eq("PT is the transpose of P", pt, p.t(), 0)
		shape("H is upper Hessenberg", h, func(i, j int) bool { return j >= i-1 }, tol)
		eq("P.H.PT = A", p.mul(h).mul(pt), a, tol)
	case "tri":
		q, qt, t := mat("Q", n, n), mat("QT", n, n), mat("T", n, n)
		orth("Q", q)
		eq("QT is the transpose of Q", qt, q.t(), 0)
		shape("T is tridiagonal", t, func(i, j int) bool { return i-j <= 1 && j-i <= 1 }, 0)
		eq("T is symmetric", t, t.t(), 0)
		eq("Q.T.QT = A", q.mul(t).mul(qt), a, tol)
		for i, x := range vec("MainRef", n) {
			if x != t.at(i, i) {
				bad("main diagonal has %v at %d, T has %v", x, i, t.at(i, i))
			}
		}
		for i, x := range vec("SecRef", n-1) {
			if x != t.at(i, i+1) {
				bad("secondary diagonal has %v at %d, T has %v", x, i, t.at(i, i+1))
			}
		}
	case "bi":
		m := a.R
		u, b, v := mat("U", m, m), mat("B", m, n), mat("V", n, n)
		orth("U", u)
		orth("V", v)
		up := m >= n
		boolean("Upper", up)
		shape("B is bidiagonal on the promised side", b, func(i, j int) bool {
			if up {
				return j == i || j == i+1
			}
			return j == i || j == i-1
		}, 0)
		eq("U.B.V' = A", u.mul(b).mul(v.t()), a, tol)
		k := m
		if n < k {
			k = n
		}
		for i, x := range vec("MainRef", k) {
			if x != b.at(i, i) {
				bad("main diagonal has %v at %d, B has %v", x, i, b.at(i, i))
			}
		}
		for i, x := range vec("SecRef", k-1) {
			y := 0.0
			if up {
				y = b.at(i, i+1)
			} else {
				y = b.at(i+1, i)
			}
			if x != y {
				bad("secondary diagonal has %v at %d, B has %v", x, i, y)
			}
		}
	}
	return err
}

// checkSolve checks one solver answer x for right-hand side b.
func checkSolve(in *DecIn, x Ans, b *DM) string {
	a := in.a
	if x.Rej || x.Nil {
		return ""
	}
	xm := x.M
	if xm == nil {
		xm = newDM(len(x.V), 1)
		copy(xm.A, x.V)
	}
	if xm.R != a.C || xm.C != b.C {
		return fmt.Sprintf("solution is %s, want %dx%d", xm.dims(), a.C, b.C)
	}
	for _, v := range xm.A {
		if v != v || math.IsInf(v, 0) {
			return fmt.Sprintf("solution contains %v", v)
		}
	}
	// normal equations A'(A.X - B) = 0
	res := a.mul(xm).zip(b, func(p, q float64) float64 { return p - q })
	sc := a.frob()
	g := a.t().mul(res)
	tol := 1e-9 * sc * (sc*xm.frob() + b.frob())
	if in.kind == "lu" || in.kind == "chol" || in.kind == "eig" || in.kind == "eigtri" {
		g = res
		tol = 1e-9 * (sc*xm.frob() + b.frob())
	}
	if !(g.maxAbs() <= tol) {
		return fmt.Sprintf("residual %.3g exceeds %.3g", g.maxAbs(), tol)
	}
	return ""
}

// parity of a permutation matrix: 1 or -1.
func parity(p *DM) int {
	to := make([]int, p.R)
	for i := range to {
		for j := 0; j < p.C; j++ {
			if p.at(i, j) != 0 {
				to[i] = j
			}
		}
	}
	s := 1
	for i := range to {
		for to[i] != i {
			k := to[i]
			if to[k] == k {
				return 0 // not a permutation, reported elsewhere
			}
			to[i], to[k] = to[k], k
			s = -s
		}
	}
	return s
}

// rankOfR is the rank the documentation of RRQR defines for a given drop
// threshold; false when a comparison is too close to call.
func rankOfR(r *DM, drop float64) (int, bool) {
	norm := func(k int) float64 {
		s := 0.0
		for i := k; i < r.R; i++ {
			for j := k; j < r.C; j++ {
				s += r.at(i, j) * r.at(i, j)
			}
		}
		return math.Sqrt(s)
	}
	k := r.R
	if r.C < k {
		k = r.C
	}
	rn := norm(0)
	last := rn
	rank := 1
	for rank < k {
		x := norm(rank)
		if x == 0 {
			break
		}
		d := x / last * rn
		if math.Abs(d-drop) <= 1e-6*drop {
			return 0, false
		}
		if d < drop {
			break
		}
		last = x
		rank++
	}
	return rank, true
}

// checkMinNorm: where the numerical rank is clear, every solver answer is the
// least-squares solution without a component outside the row space.
func checkMinNorm(in *DecIn, get func(string) Ans, recs [][]decRec, dec int) string {
	a := in.a
	k := min(a.R, a.C)
	vals := get("Vals")
	if in.rank == 0 || in.rank >= k || vals.Rej || len(vals.V) != k {
		return "" // full rank is judged by the residual
	}
	sv := vals.V
	if !(sv[in.rank] < 0.25*float64(max(a.R, a.C))*2.2e-16*sv[0]) || !(sv[in.rank-1] > 1e-6*sv[0]) {
		return ""
	}
	inv := get("Inv")
	if inv.Rej || inv.M == nil {
		return ""
	}
	one := func(x Ans, b *DM, who string) string {
		if x.Rej {
			return fmt.Sprintf("%s: the solver of a %s matrix rejected: %s", who, a.dims(), rejText(x.Why))
		}
		xm := x.M
		if xm == nil {
			xm = newDM(len(x.V), 1)
			copy(xm.A, x.V)
		}
		want := inv.M.mul(b)
		if xm.R != want.R || xm.C != want.C {
			return fmt.Sprintf("%s: solution is %s, want %s", who, xm.dims(), want.dims())
		}
		if d := xm.diff(want); !(d <= 1e-9*inv.M.frob()*b.frob()) {
			return fmt.Sprintf("%s: solution differs from the minimum-norm solution by %.3g", who, d)
		}
		return ""
	}
	for ti := range recs {
		for _, rc := range recs[ti] {
			if rc.dec == dec && rc.rhs != nil && (rc.op.K == "SolveV" || rc.op.K == "SolveM") {
				if e := one(rc.ans, rc.rhs, fmt.Sprintf("task %d op %d", ti, rc.idx)); e != "" {
					return e
				}
			}
		}
	}
	return ""
}
