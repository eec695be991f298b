package main

import (
	"math"
	"math/big"
)

// DM is the reference matrix: a plain dense array, nothing clever.
type DM struct {
	R, C int
	A    []float64
}

func newDM(r, c int) *DM              { return &DM{r, c, make([]float64, r*c)} }
func (d *DM) at(i, j int) float64     { return d.A[i*d.C+j] }
func (d *DM) set(i, j int, v float64) { d.A[i*d.C+j] = v }
func (d *DM) clone() *DM              { n := newDM(d.R, d.C); copy(n.A, d.A); return n }
func (d *DM) dims() string            { return sf("%dx%d", d.R, d.C) }
func (d *DM) row(i int) []float64     { return append([]float64{}, d.A[i*d.C:(i+1)*d.C]...) }
func (d *DM) col(j int) []float64 {
	o := make([]float64, d.R)
	for i := range o {
		o[i] = d.at(i, j)
	}
	return o
}
func (d *DM) slices() [][]float64 {
	o := make([][]float64, d.R)
	for i := range o {
		o[i] = d.row(i)
	}
	return o
}
func dmFrom(s [][]float64) *DM {
	d := newDM(len(s), len(s[0]))
	for i := range s {
		for j := range s[i] {
			d.set(i, j, s[i][j])
		}
	}
	return d
}
func (d *DM) zip(o *DM, f func(a, b float64) float64) *DM {
	n := newDM(d.R, d.C)
	for i := range n.A {
		n.A[i] = f(d.A[i], o.A[i])
	}
	return n
}
func (d *DM) mapf(f func(a float64) float64) *DM {
	n := newDM(d.R, d.C)
	for i := range n.A {
		n.A[i] = f(d.A[i])
	}
	return n
}
func (d *DM) mul(o *DM) *DM {
	n := newDM(d.R, o.C)
	fin := o.fin()
	for i := 0; i < d.R; i++ {
		for k := 0; k < d.C; k++ {
			x := d.at(i, k)
			if x == 0 && fin {
				continue
			}
			for j := 0; j < o.C; j++ {
				n.A[i*n.C+j] += x * o.A[k*o.C+j]
			}
		}
	}
	return n
}
func (d *DM) t() *DM {
	n := newDM(d.C, d.R)
	for i := 0; i < d.R; i++ {
		for j := 0; j < d.C; j++ {
			n.set(j, i, d.at(i, j))
		}
	}
	return n
}
func (d *DM) sub(r0, r1, c0, c1 int) *DM {
	n := newDM(r1-r0+1, c1-c0+1)
	for i := r0; i <= r1; i++ {
		for j := c0; j <= c1; j++ {
			n.set(i-r0, j-c0, d.at(i, j))
		}
	}
	return n
}
func (d *DM) mulv(v []float64) []float64 {
	o := make([]float64, d.R)
	for i := range o {
		s := 0.0
		for j := 0; j < d.C; j++ {
			s += d.at(i, j) * v[j]
		}
		o[i] = s
	}
	return o
}
func (d *DM) maxAbs() float64 {
	m := 0.0
	for _, x := range d.A {
		if a := math.Abs(x); a > m || x != x {
			m = a
		}
	}
	return m
}

// maxFin is the largest magnitude among the finite entries.
func (d *DM) maxFin() float64 {
	m := 0.0
	for _, x := range d.A {
		if a := math.Abs(x); a > m && !math.IsInf(x, 0) {
			m = a
		}
	}
	return m
}
func finV(v []float64) bool {
	for _, x := range v {
		if x != x || math.IsInf(x, 0) {
			return false
		}
	}
	return true
}
func hasNaN(v []float64) bool {
	for _, x := range v {
		if x != x {
			return true
		}
	}
	return false
}
func (d *DM) fin() bool { return finV(d.A) }
func (d *DM) frob() float64 {
	s := 0.0
	for _, x := range d.A {
		s += x * x
	}
	return math.Sqrt(s)
}
func (d *DM) isDiag() bool {
	if d.R != d.C {
		return false
	}
	for i := 0; i < d.R; i++ {
		for j := 0; j < d.C; j++ {
			if i != j && d.at(i, j) != 0 {
				return false
			}
		}
	}
	return true
}
func identDM(n int) *DM {
	d := newDM(n, n)
	for i := 0; i < n; i++ {
		d.set(i, i, 1)
	}
	return d
}
func (d *DM) diff(o *DM) float64 {
	if d.R != o.R || d.C != o.C {
		return math.Inf(1)
	}
	m := 0.0
	for i := range d.A {
		x := math.Abs(d.A[i] - o.A[i])
		if x != x {
			return math.Inf(1)
		}
		if x > m {
			m = x
		}
	}
	return m
}

// eqF is equality of stored values: NaN equals NaN, zeros of either sign are equal.
func eqF(a, b float64) bool { return a == b || (a != a && b != b) }

func eqSlice(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eqF(a[i], b[i]) {
			return false
		}
	}
	return true
}

func closeF(a, b, tol float64) bool {
	if eqF(a, b) {
		return true
	}
	return math.Abs(a-b) <= tol*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

// exactDet is the exact determinant of a matrix of moderate integers (Bareiss).
func exactDet(d *DM) *big.Int {
	n := d.R
	a := make([][]*big.Int, n)
	for i := range a {
		a[i] = make([]*big.Int, n)
		for j := range a[i] {
			a[i][j] = big.NewInt(int64(d.at(i, j)))
		}
	}
	sign := 1
	prev := big.NewInt(1)
	for k := 0; k < n-1; k++ {
		if a[k][k].Sign() == 0 {
			p := -1
			for i := k + 1; i < n; i++ {
				if a[i][k].Sign() != 0 {
					p = i
					break
				}
			}
			if p < 0 {
				return big.NewInt(0)
			}
			a[k], a[p] = a[p], a[k]
			sign = -sign
		}
		for i := k + 1; i < n; i++ {
			for j := k + 1; j < n; j++ {
				x := new(big.Int).Mul(a[i][j], a[k][k])
				y := new(big.Int).Mul(a[i][k], a[k][j])
				x.Sub(x, y)
				a[i][j] = x.Quo(x, prev)
			}
		}
		prev = a[k][k]
	}
	r := new(big.Int).Set(a[n-1][n-1])
	if sign < 0 {
		r.Neg(r)
	}
	return r
}

// refInverse inverts by Gauss-Jordan with full pivoting in extended precision
// (big.Float, 200 bits). ok is false for singular input.
func refInverse(d *DM) (*DM, bool) {
	n := d.R
	const prec = 200
	a := make([][]*big.Float, n)
	for i := range a {
		a[i] = make([]*big.Float, 2*n)
		for j := 0; j < n; j++ {
			a[i][j] = new(big.Float).SetPrec(prec).SetFloat64(d.at(i, j))
			v := 0.0
			if i == j {
				v = 1
			}
			a[i][n+j] = new(big.Float).SetPrec(prec).SetFloat64(v)
		}
	}
	for k := 0; k < n; k++ {
		p := -1
		for i := k; i < n; i++ {
			if a[i][k].Sign() != 0 && (p < 0 || new(big.Float).Abs(a[i][k]).Cmp(new(big.Float).Abs(a[p][k])) > 0) {
				p = i
			}
		}
		if p < 0 {
			return nil, false
		}
		a[k], a[p] = a[p], a[k]
		pv := new(big.Float).SetPrec(prec).Set(a[k][k])
		for j := 0; j < 2*n; j++ {
			a[k][j].Quo(a[k][j], pv)
		}
		for i := 0; i < n; i++ {
			if i == k || a[i][k].Sign() == 0 {
				continue
			}
			f := new(big.Float).SetPrec(prec).Set(a[i][k])
			for j := 0; j < 2*n; j++ {
				a[i][j].Sub(a[i][j], new(big.Float).SetPrec(prec).Mul(f, a[k][j]))
			}
		}
	}
	r := newDM(n, n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			v, _ := a[i][n+j].Float64()
			r.set(i, j, v)
		}
	}
	return r, true
}

// refSymEig is the classical Jacobi eigenvalue method: eigenvalues descending.
func refSymEig(d *DM) ([]float64, *DM) {
	n := d.R
	a := d.clone()
	v := identDM(n)
	for sweep := 0; sweep < 100; sweep++ {
		off := 0.0
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				off += a.at(i, j) * a.at(i, j)
			}
		}
		if off == 0 {
			break
		}
		for p := 0; p < n; p++ {
			for q := p + 1; q < n; q++ {
				apq := a.at(p, q)
				if apq == 0 {
					continue
				}
				th := (a.at(q, q) - a.at(p, p)) / (2 * apq)
				var t float64
				if math.IsInf(th, 0) {
					t = 0
				} else if th >= 0 {
					t = 1 / (th + math.Sqrt(1+th*th))
				} else {
					t = -1 / (-th + math.Sqrt(1+th*th))
				}
				c := 1 / math.Sqrt(1+t*t)
				s := t * c
				for k := 0; k < n; k++ {
					x, y := a.at(k, p), a.at(k, q)
					a.set(k, p, c*x-s*y)
					a.set(k, q, s*x+c*y)
				}
				for k := 0; k < n; k++ {
					x, y := a.at(p, k), a.at(q, k)
					a.set(p, k, c*x-s*y)
					a.set(q, k, s*x+c*y)
				}
				a.set(p, q, 0)
				a.set(q, p, 0)
				for k := 0; k < n; k++ {
					x, y := v.at(k, p), v.at(k, q)
					v.set(k, p, c*x-s*y)
					v.set(k, q, s*x+c*y)
				}
			}
		}
	}
	ev := make([]float64, n)
	for i := range ev {
		ev[i] = a.at(i, i)
	}
	// sort descending
	for i := 0; i < n; i++ {
		k := i
		for j := i + 1; j < n; j++ {
			if ev[j] > ev[k] {
				k = j
			}
		}
		if k != i {
			ev[i], ev[k] = ev[k], ev[i]
			for r := 0; r < n; r++ {
				x, y := v.at(r, i), v.at(r, k)
				v.set(r, i, y)
				v.set(r, k, x)
			}
		}
	}
	return ev, v
}

// refSingular returns the singular values (descending) by one-sided Jacobi.
func refSingular(d *DM) []float64 {
	a := d
	if a.R < a.C {
		a = a.t()
	} else {
		a = a.clone()
	}
	n := a.C
	for sweep := 0; sweep < 60; sweep++ {
		rot := false
		for p := 0; p < n; p++ {
			for q := p + 1; q < n; q++ {
				al, be, ga := 0.0, 0.0, 0.0
				for k := 0; k < a.R; k++ {
					x, y := a.at(k, p), a.at(k, q)
					al += x * x
					be += y * y
					ga += x * y
				}
				if ga == 0 || math.Abs(ga) <= 1e-16*math.Sqrt(al*be) {
					continue
				}
				rot = true
				ze := (be - al) / (2 * ga)
				var t float64
				if ze >= 0 {
					t = 1 / (ze + math.Sqrt(1+ze*ze))
				} else {
					t = -1 / (-ze + math.Sqrt(1+ze*ze))
				}
				c := 1 / math.Sqrt(1+t*t)
				s := c * t
				for k := 0; k < a.R; k++ {
					x, y := a.at(k, p), a.at(k, q)
					a.set(k, p, c*x-s*y)
					a.set(k, q, s*x+c*y)
				}
			}
		}
		if !rot {
			break
		}
	}
	sv := make([]float64, n)
	for j := range sv {
		s := 0.0
		for k := 0; k < a.R; k++ {
			s += a.at(k, j) * a.at(k, j)
		}
		sv[j] = math.Sqrt(s)
	}
	for i := range sv {
		for j := i + 1; j < len(sv); j++ {
			if sv[j] > sv[i] {
				sv[i], sv[j] = sv[j], sv[i]
			}
		}
	}
	return sv
}
