package main

import (
	"math"
	"math/big"
	"sort"

	"github.com/jtejido/linear"
)

// DecIn is the input of a decomposition together with what is known about it.
type DecIn struct {
	kind      string // lu chol rchol qr rrqr eig eigtri svd schur hess tri bi
	a         *DM
	main, sec []float64 // eigtri
	thr       float64   // explicit threshold; <0: default constructor
	rank      int
	sing      bool // not of full column rank (square: singular)
	sym       bool
	spd       bool
	det       float64
	detKnown  bool
	bad       bool      // must be rejected at construction
	symTol    float64   // chol: explicit symmetry tolerance
	giveMain  []float64 // eigtri: the slices to hand over instead of private copies
	giveSec   []float64
	slack     float64 // rchol: size of entries the threshold drops
	hard      bool    // strongly non-normal: the QR iteration may report non-convergence
}

func (in *DecIn) scale() float64 { return math.Max(in.a.maxAbs(), 1e-300) }

// exactRank of a matrix of small integers.
func exactRank(d *DM) int {
	a := make([][]*big.Rat, d.R)
	for i := range a {
		a[i] = make([]*big.Rat, d.C)
		for j := range a[i] {
			a[i][j] = new(big.Rat).SetFloat64(d.at(i, j))
		}
	}
	rk := 0
	for c := 0; c < d.C && rk < d.R; c++ {
		p := -1
		for i := rk; i < d.R; i++ {
			if a[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		a[rk], a[p] = a[p], a[rk]
		for i := rk + 1; i < d.R; i++ {
			if a[i][c].Sign() == 0 {
				continue
			}
			f := new(big.Rat).Quo(a[i][c], a[rk][c])
			for j := c; j < d.C; j++ {
				a[i][j] = new(big.Rat).Sub(a[i][j], new(big.Rat).Mul(f, a[rk][j]))
			}
		}
		rk++
	}
	return rk
}

// wellConditioned reports whether singular values above the rank gap are within 1e5.
func wellConditioned(d *DM, rank int) bool {
	if d.R > 24 || d.C > 24 {
		return false // not judged; callers use dominant matrices there
	}
	s := refSingular(d)
	if rank == 0 {
		return true
	}
	return s[rank-1] > 0 && s[0]/s[rank-1] < 1e5
}

func dominant(r *Rng, n int, sym bool) *DM {
	d := newDM(n, n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if sym && j < i {
				d.set(i, j, d.at(j, i))
			} else if r.Chance(0.6) {
				d.set(i, j, float64(r.Range(-3, 3)))
			}
		}
	}
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0 && !sym; i-- {
		k := r.Intn(i + 1)
		p[i], p[k] = p[k], p[i]
	}
	for i := 0; i < n; i++ {
		s := 1.0
		for j := 0; j < n; j++ {
			s += math.Abs(d.at(i, j))
		}
		s += float64(r.Intn(5))
		if !sym && r.Chance(0.5) {
			s = -s
		}
		d.set(i, p[i], s)
	}
	return d
}

func randInt(r *Rng, m, n int) *DM {
	d := newDM(m, n)
	for i := range d.A {
		d.A[i] = float64(r.Range(-4, 4))
	}
	return d
}

// genSquare gives a square integer matrix of a known nature.
func genSquare(r *Rng, n int, flavor int) *DM {
	switch flavor % 10 {
	case 0, 1: // random, repaired if badly conditioned
		d := randInt(r, n, n)
		if n > 16 || !wellConditioned(d, exactRank(d)) {
			return dominant(r, n, false)
		}
		return d
	case 2:
		return dominant(r, n, false)
	case 3: // singular: dependent rows
		d := dominant(r, n, false)
		if n == 1 {
			d.set(0, 0, 0)
			return d
		}
		i := r.Intn(n)
		j := (i + 1 + r.Intn(n-1)) % n
		k := float64(r.Pick(0, 1, -1, 2))
		for c := 0; c < n; c++ {
			d.set(i, c, k*d.at(j, c))
		}
		return d
	case 4: // singular: zero column
		d := dominant(r, n, false)
		j := r.Intn(n)
		for i := 0; i < n; i++ {
			d.set(i, j, 0)
		}
		return d
	case 5: // permutation with signs
		d := newDM(n, n)
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		for i := n - 1; i > 0; i-- {
			k := r.Intn(i + 1)
			p[i], p[k] = p[k], p[i]
		}
		for i := range p {
			d.set(i, p[i], float64(r.Pick(1, 1, -1)))
		}
		return d
	case 6: // triangular
		d := dominant(r, n, true)
		up := r.Chance(0.5)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if (up && j < i) || (!up && j > i) {
					d.set(i, j, 0)
				}
			}
		}
		return d
	case 7: // diagonal
		d := newDM(n, n)
		for i := 0; i < n; i++ {
			d.set(i, i, float64(r.Pick(1, 2, 3, -1, -2, 5)))
		}
		if r.Chance(0.3) {
			return identDM(n)
		}
		return d
	case 8: // scaled
		d := dominant(r, n, false)
		k := math.Ldexp(1, r.Range(-8, 20))
		return d.mapf(func(a float64) float64 { return a * k })
	}
	// block diagonal with rotations: complex and repeated eigenvalues
	d := newDM(n, n)
	for i := 0; i < n; {
		if i+1 < n && r.Chance(0.6) {
			a, b := float64(r.Range(-2, 2)), float64(r.Pick(1, 2, -1))
			d.set(i, i, a)
			d.set(i+1, i+1, a)
			d.set(i, i+1, b)
			d.set(i+1, i, -b)
			i += 2
		} else {
			d.set(i, i, float64(r.Pick(1, 2, 2, -3)))
			i++
		}
	}
	return d
}

func genSym(r *Rng, n int, flavor int) *DM {
	switch flavor % 7 {
	case 0: // random symmetric
		d := newDM(n, n)
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				v := float64(r.Range(-4, 4))
				d.set(i, j, v)
				d.set(j, i, v)
			}
		}
		if n > 16 || !wellConditioned(d, exactRank(d)) {
			return dominant(r, n, true)
		}
		return d
	case 1:
		return dominant(r, n, true)
	case 2: // diagonal, repeated values
		d := newDM(n, n)
		for i := 0; i < n; i++ {
			d.set(i, i, float64(r.Pick(1, 2, 2, 3, 4)))
		}
		return d
	case 3: // low rank semidefinite
		k := r.Range(1, n)
		b := randInt(r, n, k)
		d := b.mul(b.t())
		if n > 16 || !wellConditioned(d, exactRank(d)) {
			d = newDM(n, n)
			for i := 0; i < k; i++ {
				d.set(i, i, 2)
			}
		}
		return d
	case 4: // tridiagonal
		d := newDM(n, n)
		for i := 0; i < n; i++ {
			d.set(i, i, 5)
			if i > 0 && r.Chance(0.8) {
				v := float64(r.Pick(1, -1, 2))
				d.set(i, i-1, v)
				d.set(i-1, i, v)
			}
		}
		return d
	case 5: // singular: one zero row and column
		d := dominant(r, n, true)
		k := r.Intn(n)
		for i := 0; i < n; i++ {
			d.set(i, k, 0)
			d.set(k, i, 0)
		}
		return d
	}
	d := dominant(r, n, true)
	k := math.Ldexp(1, r.Range(-8, 20))
	return d.mapf(func(a float64) float64 { return a * k })
}

func isSymDM(d *DM) bool {
	if d.R != d.C {
		return false
	}
	for i := 0; i < d.R; i++ {
		for j := 0; j < i; j++ {
			if d.at(i, j) != d.at(j, i) {
				return false
			}
		}
	}
	return true
}

// genSpecial makes a matrix of a degenerate structure that random entries
// hardly ever have.
func genSpecial(r *Rng, m, n int, sym, vanish bool) *DM {
	d := newDM(m, n)
	c := float64(r.Pick(1, 1, 2, -1, -3))
	k := min(m, n)
	set := func(i, j int, v float64) {
		if i < m && j < n {
			d.set(i, j, v)
		}
		if sym && j < m && i < n {
			d.set(j, i, v)
		}
	}
	which := r.Intn(15)
	if m > 16 && r.Chance(0.6) {
		which = r.Pick(6, 6, 10)
	} else if m > 20 && r.Chance(0.4) {
		which = r.Pick(3, 5, 14)
	}
	if which >= 12 && which <= 13 && !vanish {
		which = 11
	}
	switch which {
	case 0: // zero
	case 1: // one entry
		set(r.Intn(m), r.Intn(n), c)
	case 2: // all equal
		d = d.mapf(func(float64) float64 { return c })
	case 3: // shift (nilpotent), or a path
		for i := 0; i+1 < m && i+1 < n; i++ {
			set(i, i+1, c)
		}
	case 4: // cyclic shift, or a ring
		for i := 0; i < k; i++ {
			set(i, (i+1)%k, c)
		}
	case 5: // one defective value, or a path with a diagonal
		for i := 0; i < k; i++ {
			set(i, i, c)
			if i+1 < n {
				set(i, i+1, 1)
			}
		}
	case 6: // rank one
		u, v := make([]float64, m), make([]float64, n)
		for i := range u {
			u[i] = float64(r.Range(-2, 2))
		}
		for j := range v {
			v[j] = float64(r.Range(-2, 2))
		}
		if r.Chance(0.6) || m > 16 {
			// residues of rounding in every column, none of them alike
			bits := 44
			if sym {
				bits = 22
			}
			x, y := u, v
			if r.Chance(0.5) {
				x, y = v, u
			}
			for i := range x {
				x[i] = r.Norm()
				if k <= 24 {
					// few enough digits for exact products: the rank is exact
					x[i] = math.Ldexp(math.Round(math.Ldexp(x[i], bits)), -bits)
				}
			}
			for j := range y {
				y[j] = float64(r.Range(-9, 9))
			}
		}
		if sym {
			v = u
		}
		for i := range u {
			for j := range v {
				d.set(i, j, u[i]*v[j])
			}
		}
	case 7: // exchange
		for i := 0; i < k; i++ {
			set(i, k-1-i, c)
		}
	case 8: // arrow
		for i := 0; i < k; i++ {
			set(i, i, float64(i+2))
			set(0, i, 1)
			if r.Chance(0.5) {
				set(i, 0, 1)
			}
		}
		if !sym && r.Chance(0.5) {
			d.set(0, 0, 0)
		}
	case 10, 11: // few distinct rows and columns
		kr, kc := r.Range(1, 4), r.Range(1, 4)
		if sym {
			kc = kr
		}
		core := randInt(r, kr, kc)
		ri, ci := make([]int, m), make([]int, n)
		for i := range ri {
			ri[i] = r.Intn(kr)
		}
		for j := range ci {
			ci[j] = r.Intn(kc)
		}
		if sym {
			ci = ri
			core = core.mul(core.t())
		}
		for i := range ri {
			for j := range ci {
				d.set(i, j, core.at(ri[i], ci[j]))
			}
		}
	case 12, 13: // entries that vanish beside the others
		core := dominant(r, k, sym)
		tiny := func(v float64) float64 { return math.Ldexp(v, -r.Range(200, 1070)) }
		if r.Chance(0.4) {
			// around the place where a square stops being held precisely
			at := r.Pick(509, 511, 513, 537)
			tiny = func(v float64) float64 { return math.Ldexp(v, -r.Range(at-3, at+4)) }
		}
		for i := 0; i < k; i++ {
			d.set(i, i, float64(r.Range(1, 9)))
			for j := 0; j < i && r.Chance(0.8); j++ {
				a, b := core.at(i, j), core.at(j, i)
				if math.Abs(a) > 3 || r.Chance(0.9) {
					a = tiny(a)
				}
				b = tiny(b)
				if sym {
					a = b
				}
				d.set(i, j, a)
				d.set(j, i, b)
			}
		}
	case 14: // one defective pair of conjugate values
		b := float64(r.Pick(1, 2, -1))
		for i := 0; i+1 < k; i += 2 {
			set(i, i, c)
			set(i+1, i+1, c)
			d.set(i, i+1, b)
			d.set(i+1, i, -b)
			if sym {
				d.set(i+1, i, b)
			}
			if i+3 < k {
				set(i, i+2, 1)
				set(i+1, i+3, 1)
			}
		}
		if k%2 == 1 {
			d.set(k-1, k-1, c)
		}
	case 9: // only one row and one column
		i, j := r.Intn(m), r.Intn(n)
		for t := 0; t < m; t++ {
			set(t, j, c)
		}
		for t := 0; t < n; t++ {
			set(i, t, c)
		}
	}
	return d
}

func genRect(r *Rng, m, n int, flavor int) *DM {
	if m == n && flavor%3 != 0 {
		return genSquare(r, n, flavor/3)
	}
	k := m
	if n < k {
		k = n
	}
	// dominant core embedded in a tall or wide frame
	core := dominant(r, k, false)
	d := newDM(m, n)
	for i := 0; i < m; i++ {
		for j := 0; j < n; j++ {
			if i < k && j < k {
				d.set(i, j, core.at(i, j))
			} else {
				d.set(i, j, float64(r.Range(-2, 2)))
			}
		}
	}
	switch (flavor / 3) % 5 {
	case 1: // zero column
		j := r.Intn(n)
		for i := 0; i < m; i++ {
			d.set(i, j, 0)
		}
	case 2: // duplicate column
		if n > 1 {
			j := r.Intn(n)
			l := (j + 1 + r.Intn(n-1)) % n
			for i := 0; i < m; i++ {
				d.set(i, j, d.at(i, l))
			}
		}
	case 3: // random small integers
		d = randInt(r, m, n)
		if m > 16 || n > 16 {
			d = genRect(r, m, n, 0)
		}
	}
	if d.maxAbs() == 0 {
		d.set(0, 0, 1)
	}
	if m <= 16 && n <= 16 && !wellConditioned(d, exactRank(d)) {
		// fall back to something harmless
		d = newDM(m, n)
		for i := 0; i < k; i++ {
			d.set(i, i, float64(i+1))
		}
	}
	return d
}

// genDec makes the decomposition input described by o: A = [flavor, rows, cols, storage].
func genDec(kind string, o *Op) *DecIn {
	r := NewRng(o.S)
	fl, m, n := abs(o.Arg(0)), o.Arg(1), o.Arg(2)
	tame := fl >= 1000 // no degenerate structure
	fl %= 1000
	if m < 1 {
		m = 1
	}
	if n < 1 {
		n = 1
	}
	in := &DecIn{kind: kind, thr: -1}
	switch kind {
	case "lu", "schur", "hess":
		in.a = genSquare(r, m, fl)
	case "eig":
		if fl%2 == 0 {
			in.a = genSym(r, m, fl/2)
		} else {
			in.a = genSquare(r, m, fl/2)
		}
	case "chol":
		d := genSym(r, m, fl)
		if !posDef(d) {
			d = dominant(r, m, true)
		}
		in.a = d
	case "rchol":
		d := genSym(r, m, fl)
		if !posSemi(d) {
			d = dominant(r, m, true)
		}
		in.a = d
	case "tri":
		in.a = genSym(r, m, fl)
	case "eigtri":
		in.a = genTridiagonal(r, m, fl)
		for i := 0; i < m; i++ {
			in.main = append(in.main, in.a.at(i, i))
			if i > 0 {
				in.sec = append(in.sec, in.a.at(i, i-1))
			}
		}
	case "qr", "rrqr":
		in.a = genRect(r, m, n, fl)
	case "svd":
		in.a = genRect(r, m, n, fl)
		if r.Chance(0.25) {
			k := math.Ldexp(1, r.Range(-90, 60))
			in.a = in.a.mapf(func(a float64) float64 { return a * k })
		}
	case "bi":
		in.a = genRect(r, m, n, fl)
	default:
		bugf("kind %s", kind)
	}
	special := false
	rare := 0.06
	if in.a.R > 44 {
		rare = 0.6
	} else if in.a.R > 16 {
		rare = 0.25
	}
	if r.Chance(rare) && !tame {
		sym := kind == "tri" || kind == "rchol" || kind == "eig" && fl%2 == 0
		if in.a.R != in.a.C || kind != "chol" && kind != "eigtri" {
			// vanishing entries beside equal eigenvalues make eigenvectors that no
			// double can hold, so a general eigen decomposition is spared them
			d := genSpecial(r, in.a.R, in.a.C, sym, sym || kind != "eig")
			if d.maxAbs() == 0 && kind == "rrqr" || kind == "rchol" && !posSemi(d) {
				d = in.a
			}
			in.a = d
			special = !sym
		}
	}
	if rel := o.Arg(relArg); rel > 0 {
		in.a = relative(in.a, kind, rel)
		if kind == "eigtri" {
			in.main, in.sec = nil, nil
			for i := 0; i < in.a.R; i++ {
				in.main = append(in.main, in.a.at(i, i))
				if i > 0 {
					in.sec = append(in.sec, in.a.at(i, i-1))
				}
			}
		}
	}
	if kind == "rchol" {
		in.thr = 1e-9 * in.a.maxAbs()
	}
	switch kind {
	case "tri", "hess", "bi":
		if r.Chance(0.2) {
			in.a = graded(r, in.a, kind == "tri")
		}
	}
	a := in.a
	big := a.R > 24 || a.C > 24
	if !big {
		in.rank = exactRank(a)
	} else {
		in.rank = rankByPivot(a)
	}
	in.sing = in.rank < a.C
	in.sym = isSymDM(a)
	if in.sym {
		in.spd = posDef(a)
	}
	in.hard = (kind == "eig" || kind == "schur") && (a.R >= 6 && isTriDM(a) && !a.isDiag() || special && a.R >= 16)
	if a.R == a.C && !big && (kind == "lu" || kind == "chol" || kind == "eig" || kind == "eigtri") {
		d := exactDetScaled(a)
		in.det, in.detKnown = d, true
		for _, v := range a.A {
			if v != 0 && math.Abs(v) < 1e-30 {
				in.detKnown = false
			}
		}
	}
	if (kind == "qr" || kind == "rrqr") && in.sing {
		in.thr = 1e-9 * a.maxAbs() // the caller's notion of negligible
	}
	if piv := onePerLine(a); piv != nil && r.Chance(0.4) {
		// the pivots are known: choose a threshold between them
		k := r.Intn(len(piv))
		switch kind {
		case "lu", "qr", "rrqr":
			in.thr = 0.75 * piv[k]
			if k == 0 || piv[k-1] < 0.5*piv[k] {
				in.sing = k > 0
				if in.sing && kind == "lu" {
					in.det = 0
				}
			} else {
				in.thr = 0.5 * piv[0]
			}
		case "chol":
			in.thr = 0.5 * piv[0]
		case "rchol":
			if k == 0 || piv[k-1] < 0.5*piv[k] {
				in.thr = 0.75 * piv[k]
				in.rank = len(piv) - k
				in.slack = in.thr
			}
		}
	}
	if kind == "chol" && m > 1 && r.Chance(0.15) {
		// not quite symmetric, within the tolerance asked for
		in.symTol = 1e-11
		i := r.Range(1, m-1)
		j := r.Intn(i)
		a.set(i, j, a.at(i, j)*(1+1e-12))
	}
	return in
}

// relArg is the place in the arguments of an input that says which relative of
// the data it describes is meant.
const relArg = 9

// relative gives a matrix with much in common with d: the same entries in other
// places or with other signs, so the same norms, sums or eigenvalues, and one
// that the decomposition accepts as it accepts d.
func relative(d *DM, kind string, rel int) *DM {
	sq := d.R == d.C
	var f func(i, j int) float64
	both := func(i, j int) float64 { return d.at(d.R-1-i, d.C-1-j) }
	signs := func(i, j int) float64 {
		if (i+j)%2 == 1 {
			return -d.at(i, j)
		}
		return d.at(i, j)
	}
	rel = (rel - 1) % 6
	switch kind {
	case "chol", "rchol", "eig", "eigtri", "schur", "tri", "hess": // nothing that changes the spectrum
		switch {
		case rel < 2:
			f = both
		case rel < 4:
			f = signs
		case rel == 4 && kind != "chol" && kind != "rchol":
			f = func(i, j int) float64 { return -d.at(i, j) }
		case !isSymDM(d):
			f = func(i, j int) float64 { return d.at(j, i) }
		default:
			f = both
		}
	default:
		switch {
		case rel == 0:
			f = func(i, j int) float64 { return -d.at(i, j) }
		case rel == 1 && sq:
			f = func(i, j int) float64 { return d.at(j, i) }
		case rel <= 2:
			f = func(i, j int) float64 { return d.at(d.R-1-i, j) }
		case rel == 3:
			f = func(i, j int) float64 { return d.at(i, d.C-1-j) }
		case rel == 4:
			f = signs
		default:
			f = both
		}
	}
	o := newDM(d.R, d.C)
	for i := 0; i < d.R; i++ {
		for j := 0; j < d.C; j++ {
			if v := f(i, j); v != 0 {
				o.set(i, j, v)
			}
		}
	}
	return o
}

// kin is the same for a right-hand side, given by the upper bits of its seed.
func kin(d []float64, n int, seed uint64) {
	c := len(d) / max(n, 1)
	switch seed >> 48 & 7 {
	case 1:
		for i := range d {
			d[i] = -d[i]
		}
	case 2:
		for i, j := 0, len(d)-1; i < j; i, j = i+1, j-1 {
			d[i], d[j] = d[j], d[i]
		}
	case 3: // rows in turn
		if c > 0 {
			t := append([]float64{}, d[:c]...)
			copy(d, d[c:])
			copy(d[len(d)-c:], t)
		}
	case 4:
		if len(d) > 1 {
			d[0]++
			d[len(d)-1]--
		}
	case 5:
		if len(d) > 0 {
			d[0] = -d[0]
		}
	case 6:
		if c > 0 && n > 1 {
			for j := 0; j < c; j++ {
				d[j], d[c+j] = d[c+j], d[j]
			}
		}
	}
}

// onePerLine gives the sorted absolute values of the non-zero entries of a
// square matrix that has exactly one in every row and column.
func onePerLine(d *DM) []float64 {
	if d.R != d.C {
		return nil
	}
	var out []float64
	used := make([]bool, d.C)
	for i := 0; i < d.R; i++ {
		k := -1
		for j := 0; j < d.C; j++ {
			if d.at(i, j) != 0 {
				if k >= 0 || used[j] {
					return nil
				}
				k = j
			}
		}
		if k < 0 {
			return nil
		}
		used[k] = true
		out = append(out, math.Abs(d.at(i, k)))
	}
	sort.Float64s(out)
	return out
}

func genTridiagonal(r *Rng, n, flavor int) *DM {
	d := newDM(n, n)
	main, sec, split := 5, 2, 0.2
	switch flavor % 5 {
	case 1: // any diagonal
		main = -1
	case 2: // many unreduced blocks, equal eigenvalues
		main, split = -2, 0.6
	case 3: // strong coupling
		main, sec, split = -1, 9, 0.05
	case 4: // no diagonal: eigenvalues in pairs of opposite sign
		main = 0
	}
	for i := 0; i < n; i++ {
		switch main {
		case -1:
			d.set(i, i, float64(r.Range(-6, 6)))
		case -2:
			d.set(i, i, float64(r.Pick(1, 2, 2)))
		default:
			d.set(i, i, float64(main))
		}
		if i > 0 && !r.Chance(split) {
			v := float64(r.Range(1, sec))
			if r.Chance(0.5) {
				v = -v
			}
			d.set(i, i-1, v)
			d.set(i-1, i, v)
		}
	}
	if n <= 24 && !wellConditioned(d, exactRank(d)) || n > 24 {
		// keep the rank clear: lift the diagonal
		for i := 0; i < n; i++ {
			d.set(i, i, math.Abs(d.at(i, i))+float64(2*sec)+1)
		}
	}
	if r.Chance(0.2) {
		k := math.Ldexp(1, r.Range(-8, 20))
		d = d.mapf(func(a float64) float64 { return a * k })
	}
	return d
}

// graded scales rows and columns by powers of two.
func graded(r *Rng, d *DM, sym bool) *DM {
	k := make([]float64, d.R+d.C)
	for i := range k {
		k[i] = math.Ldexp(1, r.Range(-6, 6))
	}
	out := newDM(d.R, d.C)
	for i := 0; i < d.R; i++ {
		for j := 0; j < d.C; j++ {
			c := k[d.R+j]
			if sym {
				c = k[j]
			}
			out.set(i, j, d.at(i, j)*k[i]*c)
		}
	}
	return out
}

// exactDetScaled handles power-of-two scaled integer matrices.
func exactDetScaled(d *DM) float64 {
	k := 1.0
	x := d
	for t := 0; t < 200; t++ {
		ok := true
		for _, v := range x.A {
			if v != math.Trunc(v) {
				ok = false
			}
		}
		if ok {
			break
		}
		k *= 2
		x = d.mapf(func(a float64) float64 { return a * k })
	}
	// reduce large scales
	f, _ := new(big.Float).SetInt(exactDet(x)).Float64()
	return f / math.Pow(k, float64(d.R))
}

func isTriDM(d *DM) bool {
	lo, up := true, true
	for i := 0; i < d.R; i++ {
		for j := 0; j < d.C; j++ {
			if d.at(i, j) != 0 {
				if j < i {
					up = false
				}
				if j > i {
					lo = false
				}
			}
		}
	}
	return lo || up
}

func rankByPivot(d *DM) int {
	a := d.clone()
	rk := 0
	tol := 1e-9 * d.maxAbs()
	used := make([]bool, a.R)
	for c := 0; c < a.C; c++ {
		p, best := -1, tol
		for i := 0; i < a.R; i++ {
			if !used[i] && math.Abs(a.at(i, c)) > best {
				p, best = i, math.Abs(a.at(i, c))
			}
		}
		if p < 0 {
			continue
		}
		used[p] = true
		rk++
		for i := 0; i < a.R; i++ {
			if used[i] {
				continue
			}
			f := a.at(i, c) / a.at(p, c)
			if f == 0 {
				continue
			}
			for j := c; j < a.C; j++ {
				a.set(i, j, a.at(i, j)-f*a.at(p, j))
			}
		}
	}
	return rk
}

func posDef(d *DM) bool {
	n := d.R
	if n <= 24 && exactRank(d) < n {
		return false // the last pivot of a semidefinite matrix may drown in rounding
	}
	a := d.clone()
	for k := 0; k < n; k++ {
		if a.at(k, k) <= 1e-9*d.maxAbs() {
			return false
		}
		for i := k + 1; i < n; i++ {
			f := a.at(i, k) / a.at(k, k)
			for j := k; j < n; j++ {
				a.set(i, j, a.at(i, j)-f*a.at(k, j))
			}
		}
	}
	return true
}
func posSemi(d *DM) bool {
	if d.maxAbs() == 0 {
		return false // the zero matrix is a documented rejection
	}
	if d.R > 24 {
		return posDef(d)
	}
	ev, _ := refSymEig(d)
	return ev[len(ev)-1] > -1e-9*d.maxAbs()
}

// buildDec runs the constructor under test on the given matrix.
func buildDec(in *DecIn, m linear.RealMatrix) (interface{}, error) {
	switch in.kind {
	case "lu":
		if in.thr >= 0 {
			return linear.NewLUDecompositionWithThreshold(m, in.thr)
		}
		return linear.NewLUDecomposition(m)
	case "chol":
		if in.symTol > 0 || in.thr >= 0 {
			st, pt := in.symTol, in.thr
			if st == 0 {
				st = linear.DEFAULT_RELATIVE_SYMMETRY_THRESHOLD
			}
			if pt < 0 {
				pt = linear.DEFAULT_ABSOLUTE_POSITIVITY_THRESHOLD
			}
			return linear.NewCholeskyDecomposition(m, st, pt)
		}
		return linear.NewDefaultCholeskyDecomposition(m)
	case "rchol":
		return linear.NewRectangularCholeskyDecompositionWithThreshold(m, in.thr)
	case "qr":
		if in.thr >= 0 {
			return linear.NewQRDecompositionWithThreshold(m, in.thr)
		}
		return linear.NewQRDecomposition(m)
	case "rrqr":
		if in.thr >= 0 {
			return linear.NewRRQRDecompositionWithThreshold(m, in.thr)
		}
		return linear.NewRRQRDecomposition(m)
	case "eig":
		return linear.NewEigenDecomposition(m)
	case "eigtri":
		mn, sc := in.giveMain, in.giveSec
		if mn == nil {
			mn, sc = append([]float64{}, in.main...), append([]float64{}, in.sec...)
		}
		return linear.NewEigenDecompositionFromTridiagonal(mn, sc)
	case "svd":
		return linear.NewSingularValueDecomposition(m)
	case "schur":
		return linear.NewSchurTransformer(m)
	case "hess":
		return linear.NewHessenbergTransformer(m)
	case "tri":
		return linear.NewTriDiagonalTransformer(m)
	case "bi":
		return linear.NewBiDiagonalTransformer(m)
	}
	bugf("kind %s", in.kind)
	return nil, nil
}

// Ans is an answer of the system under test, reduced to plain data.
type Ans struct {
	Rej bool        // rejected by a panic
	Why interface{} // value of the rejection, for messages only
	Nil bool
	M   *DM
	V   []float64
	I   []int
	F   float64
	B   bool
}

func (a Ans) String() string {
	switch {
	case a.Rej:
		return "rejected: " + rejText(a.Why)
	case a.Nil:
		return "nil"
	case a.M != nil:
		return sf("%s %s", a.M.dims(), trunc(a.M.A))
	case a.V != nil:
		return trunc(a.V)
	case a.I != nil:
		return sv(a.I)
	}
	return sf("%v/%v", a.F, a.B)
}

func matDM(m linear.RealMatrix) Ans {
	if m == nil {
		return Ans{Nil: true}
	}
	return Ans{M: toDM(m).clone()}
}
func vecAns(v linear.RealVector) Ans {
	if v == nil {
		return Ans{Nil: true}
	}
	return Ans{V: vecToSlice(v)}
}

// sameAns compares with a tolerance relative to the larger answer.
func sameAns(a, b Ans) bool {
	if a.Rej || b.Rej {
		return a.Rej == b.Rej
	}
	if a.Nil || b.Nil {
		return a.Nil == b.Nil
	}
	if (a.M == nil) != (b.M == nil) || (a.V == nil) != (b.V == nil) || (a.I == nil) != (b.I == nil) {
		return false
	}
	if a.M != nil {
		return a.M.R == b.M.R && a.M.C == b.M.C && sameF(a.M.A, b.M.A)
	}
	if a.V != nil {
		return sameF(a.V, b.V)
	}
	if a.I != nil {
		return sv(a.I) == sv(b.I)
	}
	return sameF([]float64{a.F}, []float64{b.F}) && a.B == b.B
}
func sameF(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	s := 0.0
	for i := range a {
		if x := math.Abs(a[i]); x > s && !math.IsInf(x, 0) {
			s = x
		}
		if x := math.Abs(b[i]); x > s && !math.IsInf(x, 0) {
			s = x
		}
	}
	for i := range a {
		if eqF(a[i], b[i]) {
			continue
		}
		if !(math.Abs(a[i]-b[i]) <= 1e-9*s) {
			return false
		}
	}
	return true
}

var decQueries = map[string][]string{
	"lu":    {"L", "U", "P", "Pivot", "Det", "NonSing", "SolveV", "SolveM", "Inv", "BadV", "BadM"},
	"chol":  {"L", "LT", "Det", "NonSing", "SolveV", "SolveM", "Inv", "BadV", "BadM"},
	"rchol": {"Root", "Rank"},
	"qr":    {"Q", "QT", "R", "H", "NonSing", "SolveV", "SolveM", "Inv", "BadV", "BadM"},
	"rrqr":  {"Q", "QT", "R", "H", "P", "Rank", "NonSing", "SolveV", "SolveM", "Inv", "BadV", "BadM"},
	"eig":   {"V", "D", "VT", "Vals", "Imags", "ValAt", "VecAt", "Complex", "Det", "Sqrt", "NonSing", "SolveV", "SolveM", "Inv", "BadV", "BadM"},
	"svd":   {"U", "UT", "S", "V", "VT", "Vals", "Norm", "Cond", "ICond", "Rank", "Cov", "NonSing", "SolveV", "SolveM", "Inv", "BadV", "BadM"},
	"schur": {"P", "PT", "T"},
	"hess":  {"P", "PT", "H", "HouseRef"},
	"tri":   {"Q", "QT", "T", "MainRef", "SecRef", "HouseRef"},
	"bi":    {"U", "B", "V", "Upper", "MainRef", "SecRef", "HouseRef"},
}

// flat is a copy of the rows of d, one after another.
func flat(d [][]float64) []float64 {
	v := []float64{}
	for _, r := range d {
		v = append(v, r...)
	}
	return v
}

func init() { decQueries["eigtri"] = decQueries["eig"] }

// QC is the context of one query.
type QC struct {
	op  *Op
	h   *Hook
	sol linear.DecompositionSolver // shared solver, or nil to make one
	b   *MObj                      // shared right-hand side, or nil
	bv  *VObj
	mut bool // the caller overwrites the answer once it has read it
	// what was used as right-hand side
	rhs  *DM
	rhsM *MObj
	rhsV *VObj
	got  interface{} // the answer itself, unless the caller overwrote it
}

func (q *QC) mat(m linear.RealMatrix) Ans {
	if m != nil {
		q.got = m
	}
	return matDM(m)
}
func (q *QC) vec(v linear.RealVector) Ans {
	if v != nil {
		q.got = v
	}
	return vecAns(v)
}

// stillAns tells whether an answer that was given out still reads as it did.
func stillAns(got interface{}, a Ans) bool {
	switch g := got.(type) {
	case linear.RealMatrix:
		d := toDM(g)
		if a.M == nil || d.R != a.M.R || d.C != a.M.C {
			return false
		}
		for i := range d.A {
			if !eqF(d.A[i], a.M.A[i]) {
				return false
			}
		}
	case linear.RealVector:
		v := vecToSlice(g)
		if len(v) != len(a.V) {
			return false
		}
		for i := range v {
			if !eqF(v[i], a.V[i]) {
				return false
			}
		}
	}
	return true
}

func (q *QC) scrubM(m linear.RealMatrix) {
	if !q.mut || m == nil {
		return
	}
	q.got = nil
	if _, ok := m.(*linear.DiagonalMatrix); ok {
		for i := 0; i < m.RowDimension(); i++ {
			m.SetEntry(i, i, 7777)
		}
		return
	}
	for i := 0; i < m.RowDimension(); i++ {
		for j := 0; j < m.ColumnDimension(); j++ {
			m.SetEntry(i, j, 7777)
		}
	}
}
func (q *QC) scrubV(v linear.RealVector) {
	if !q.mut || v == nil {
		return
	}
	q.got = nil
	v.Set(7777)
}
func (q *QC) scrub(s []float64) {
	if !q.mut {
		return
	}
	for i := range s {
		s[i] = 7777
	}
}

// rhsVec and rhsMat make the right-hand side of the op. A: [.., storage, cols].
func (q *QC) rhsVec(n int) linear.RealVector {
	r := NewRng(q.op.S & (1<<48 - 1))
	if q.op.F == nil && q.bv != nil && q.op.Arg(3) == 1 && len(q.bv.d) == n {
		q.rhsV = q.bv
	} else {
		d := intVec(r, n)
		kin(d, n, q.op.S)
		if q.op.F != nil || abs(q.op.Arg(0))%4 == clsFor {
			q.rhsV = &VObj{v: &FVec{D: append([]float64{}, d...), H: q.h}, d: d, cls: clsFor}
		} else {
			q.rhsV = &VObj{v: buildVec(r, clsArr, d), d: d}
		}
	}
	q.rhs = newDM(n, 1)
	copy(q.rhs.A, q.rhsV.d)
	return q.rhsV.v
}
func (q *QC) rhsMat(n int) linear.RealMatrix {
	r := NewRng(q.op.S & (1<<48 - 1))
	if q.op.F == nil && q.b != nil && q.op.Arg(3) == 1 && q.b.d.R == n {
		q.rhsM = q.b
	} else {
		c := abs(q.op.Arg(1))
		if c < 1 {
			c = 1
		}
		d := intDM(r, n, c, false)
		kin(d.A, n, q.op.S)
		cls := abs(q.op.Arg(0)) % 4
		if cls == clsDiag {
			if q.op.Arg(3) == 2 {
				d = identDM(n).mapf(func(a float64) float64 { return 3 * a })
			} else {
				cls = clsArr
			}
		}
		if q.op.F != nil || cls == clsFor {
			q.rhsM = &MObj{m: &FMat{D: d.clone(), H: q.h}, d: d, cls: clsFor}
		} else {
			q.rhsM = &MObj{m: buildMat(r, cls, d), d: d, cls: cls}
		}
	}
	q.rhs = q.rhsM.d
	return q.rhsM.m
}

type solverer interface {
	Solver() linear.DecompositionSolver
}

// ask puts query name to obj. It may panic (a rejection, or an injected fault).
func ask(obj interface{}, in *DecIn, name string, q *QC) Ans {
	switch name {
	case "NonSing", "SolveV", "SolveM", "Inv", "BadV", "BadM":
		s := q.sol
		if s == nil {
			s = obj.(solverer).Solver()
		}
		m := in.a.R
		switch name {
		case "NonSing":
			return Ans{B: s.IsNonSingular()}
		case "SolveV":
			x := s.SolveVector(q.rhsVec(m))
			a := q.vec(x)
			q.scrubV(x)
			return a
		case "SolveM":
			x := s.SolveMatrix(q.rhsMat(m))
			a := q.mat(x)
			q.scrubM(x)
			return a
		case "Inv":
			x := s.Inverse()
			a := q.mat(x)
			q.scrubM(x)
			return a
		case "BadV":
			d := badDim(q.op, m)
			x := s.SolveVector(q.rhsVec(d))
			return q.vec(x)
		case "BadM":
			d := badDim(q.op, m)
			x := s.SolveMatrix(q.rhsMat(d))
			return q.mat(x)
		}
	}
	switch d := obj.(type) {
	case *linear.LUDecomposition:
		switch name {
		case "L":
			return q.mat(d.L())
		case "U":
			return q.mat(d.U())
		case "P":
			return q.mat(d.P())
		case "Pivot":
			p := d.Pivot()
			a := Ans{I: append([]int{}, p...)}
			if q.mut {
				for i := range p {
					p[i] = -9
				}
			}
			return a
		case "Det":
			return Ans{F: d.Determinant()}
		}
	case *linear.CholeskyDecomposition:
		switch name {
		case "L":
			return q.mat(d.L())
		case "LT":
			return q.mat(d.LT())
		case "Det":
			return Ans{F: d.Determinant()}
		}
	case *linear.RectangularCholeskyDecomposition:
		switch name {
		case "Root":
			return q.mat(d.RootMatrix())
		case "Rank":
			return Ans{F: float64(d.Rank())}
		}
	case *linear.QRDecomposition:
		switch name {
		case "Q":
			return q.mat(d.Q())
		case "QT":
			return q.mat(d.QT())
		case "R":
			return q.mat(d.R())
		case "H":
			return q.mat(d.H())
		}
	case *linear.RRQRDecomposition:
		switch name {
		case "Q":
			return q.mat(d.Q())
		case "QT":
			return q.mat(d.QT())
		case "R":
			return q.mat(d.R())
		case "H":
			return q.mat(d.H())
		case "P":
			return q.mat(d.P())
		case "Rank":
			return Ans{F: float64(d.Rank([]float64{1e-3, 1e-8, 0.2, 1e-8}[q.op.S%4] * in.a.frob()))}
		}
	case *linear.EigenDecomposition:
		switch name {
		case "V":
			return q.mat(d.V())
		case "D":
			return q.mat(d.D())
		case "VT":
			return q.mat(d.VT())
		case "Vals":
			v := d.RealEigenvalues()
			a := Ans{V: append([]float64{}, v...)}
			q.scrub(v)
			return a
		case "Imags":
			v := d.ImagEigenvalues()
			a := Ans{V: append([]float64{}, v...)}
			q.scrub(v)
			return a
		case "ValAt":
			k := int(q.op.S % uint64(in.a.R))
			return Ans{V: []float64{d.RealEigenvalueAt(k), d.ImagEigenvalue(k)}}
		case "VecAt":
			k := int(q.op.S % uint64(in.a.R))
			v := d.EigenvectorAt(k)
			a := q.vec(v)
			q.scrubV(v)
			return a
		case "Complex":
			return Ans{B: d.HasComplexEigenvalues()}
		case "Det":
			return Ans{F: d.Determinant()}
		case "Sqrt":
			x := d.SquareRoot()
			a := q.mat(x)
			q.scrubM(x)
			return a
		}
	case *linear.SingularValueDecomposition:
		switch name {
		case "U":
			return q.mat(d.U())
		case "UT":
			return q.mat(d.UT())
		case "S":
			return q.mat(d.S())
		case "V":
			return q.mat(d.V())
		case "VT":
			return q.mat(d.VT())
		case "Vals":
			v := d.SingularValues()
			a := Ans{V: append([]float64{}, v...)}
			q.scrub(v)
			return a
		case "Norm":
			return Ans{F: d.Norm()}
		case "Cond":
			return Ans{F: d.ConditionNumber()}
		case "ICond":
			return Ans{F: d.InverseConditionNumber()}
		case "Rank":
			return Ans{F: float64(d.Rank())}
		case "Cov":
			// the last two take in singular values which are rounding noise
			cut := []float64{1e-9, 1e-2, 0.3, 1e-9, 0.7, 1e-18, 0}[q.op.S%7] * d.Norm()
			if q.op.S%7 == 3 { // exactly one of the singular values
				v := d.SingularValues()
				if c := v[(len(v)-1)/2]; c > cut {
					cut = c
				}
			}
			x := d.Covariance(cut)
			a := q.mat(x)
			q.scrubM(x)
			return a
		}
	case *linear.SchurTransformer:
		switch name {
		case "P":
			return q.mat(d.P())
		case "PT":
			return q.mat(d.PT())
		case "T":
			return q.mat(d.T())
		}
	case *linear.HessenbergTransformer:
		switch name {
		case "P":
			return q.mat(d.P())
		case "PT":
			return q.mat(d.PT())
		case "H":
			return q.mat(d.H())
		case "HouseRef":
			return Ans{V: flat(d.HouseholderVectorsRef())}
		}
	case *linear.TriDiagonalTransformer:
		switch name {
		case "Q":
			return q.mat(d.Q())
		case "QT":
			return q.mat(d.QT())
		case "T":
			return q.mat(d.T())
		case "HouseRef":
			return Ans{V: flat(d.HouseholderVectorsRef())}
		case "MainRef":
			return Ans{V: append([]float64{}, d.MainDiagonalRef()...)}
		case "SecRef":
			return Ans{V: append([]float64{}, d.SecondaryDiagonalRef()...)}
		}
	case *linear.BiDiagonalTransformer:
		switch name {
		case "HouseRef":
			return Ans{V: flat(d.HouseholderVectorsRef())}
		case "MainRef":
			return Ans{V: append([]float64{}, d.MainDiagonalRef()...)}
		case "SecRef":
			return Ans{V: append([]float64{}, d.SecondaryDiagonalRef()...)}
		case "U":
			return q.mat(d.U())
		case "B":
			return q.mat(d.B())
		case "V":
			return q.mat(d.V())
		case "Upper":
			return Ans{B: d.IsUpperBiDiagonal()}
		}
	}
	bugf("query %s on %T", name, obj)
	return Ans{}
}

func badDim(o *Op, m int) int {
	d := m + 1 + int(o.S%3)
	if o.S&8 != 0 && m > 1 {
		d = m - 1
	}
	return d
}
