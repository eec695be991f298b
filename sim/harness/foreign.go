package main

import (
	"github.com/jtejido/linear"
	simrt "verifsimrt"
)

// FMat is a caller's own RealMatrix: a plain dense matrix that shares no code
// with the library. Every access is a scheduling point and a fault point.
type FMat struct {
	D *DM
	H *Hook
}

func (m *FMat) cb(w string) {
	if m.H != nil {
		m.H.hit(w)
	} else {
		simrt.Yield()
	}
}
func (m *FMat) ck(i, j int) {
	if i < 0 || j < 0 || i >= m.D.R || j >= m.D.C {
		panic(sf("foreign matrix: (%d,%d) outside %s", i, j, m.D.dims()))
	}
}
func (m *FMat) mk(d *DM) linear.RealMatrix { return &FMat{D: d} }
func toDM(m linear.RealMatrix) *DM {
	if f, ok := m.(*FMat); ok {
		return f.D
	}
	d := newDM(m.RowDimension(), m.ColumnDimension())
	for i := 0; i < d.R; i++ {
		for j := 0; j < d.C; j++ {
			d.set(i, j, m.At(i, j))
		}
	}
	return d
}
func vecToSlice(v linear.RealVector) []float64 {
	if f, ok := v.(*FVec); ok {
		return append([]float64{}, f.D...)
	}
	o := make([]float64, v.Dimension())
	for i := range o {
		o[i] = v.At(i)
	}
	return o
}
func need(b bool) {
	if !b {
		panic("foreign object: dimension mismatch")
	}
}

func (m *FMat) RowDimension() int    { m.cb("mat.RowDimension"); return m.D.R }
func (m *FMat) ColumnDimension() int { m.cb("mat.ColumnDimension"); return m.D.C }
func (m *FMat) Copy() linear.RealMatrix {
	m.cb("mat.Copy")
	return m.mk(m.D.clone())
}
func (m *FMat) Add(o linear.RealMatrix) linear.RealMatrix {
	m.cb("mat.Add")
	d := toDM(o)
	need(d.R == m.D.R && d.C == m.D.C)
	return m.mk(m.D.zip(d, func(a, b float64) float64 { return a + b }))
}
func (m *FMat) Subtract(o linear.RealMatrix) linear.RealMatrix {
	m.cb("mat.Subtract")
	d := toDM(o)
	need(d.R == m.D.R && d.C == m.D.C)
	return m.mk(m.D.zip(d, func(a, b float64) float64 { return a - b }))
}
func (m *FMat) ScalarAdd(x float64) linear.RealMatrix {
	m.cb("mat.ScalarAdd")
	return m.mk(m.D.mapf(func(a float64) float64 { return a + x }))
}
func (m *FMat) ScalarMultiply(x float64) linear.RealMatrix {
	m.cb("mat.ScalarMultiply")
	return m.mk(m.D.mapf(func(a float64) float64 { return a * x }))
}
func (m *FMat) Multiply(o linear.RealMatrix) linear.RealMatrix {
	m.cb("mat.Multiply")
	d := toDM(o)
	need(d.R == m.D.C)
	return m.mk(m.D.mul(d))
}
func (m *FMat) PreMultiplyMatrix(o linear.RealMatrix) linear.RealMatrix {
	m.cb("mat.PreMultiplyMatrix")
	d := toDM(o)
	need(d.C == m.D.R)
	return m.mk(d.mul(m.D))
}
func (m *FMat) Data() [][]float64 { m.cb("mat.Data"); return m.D.slices() }
func (m *FMat) SubMatrix(a, b, c, d int) linear.RealMatrix {
	m.cb("mat.SubMatrix")
	m.ck(a, c)
	m.ck(b, d)
	need(a <= b && c <= d)
	return m.mk(m.D.sub(a, b, c, d))
}
func (m *FMat) SetSubMatrix(s [][]float64, row, column int) {
	m.cb("mat.SetSubMatrix")
	for i := range s {
		for j := range s[i] {
			m.ck(row+i, column+j)
			m.D.set(row+i, column+j, s[i][j])
		}
	}
}
func (m *FMat) RowMatrixAt(row int) linear.RealMatrix {
	m.cb("mat.RowMatrixAt")
	m.ck(row, 0)
	return m.mk(m.D.sub(row, row, 0, m.D.C-1))
}
func (m *FMat) SetRowMatrix(row int, x linear.RealMatrix) {
	m.cb("mat.SetRowMatrix")
	d := toDM(x)
	need(d.R == 1 && d.C == m.D.C)
	for j := 0; j < d.C; j++ {
		m.D.set(row, j, d.at(0, j))
	}
}
func (m *FMat) ColumnMatrixAt(c int) linear.RealMatrix {
	m.cb("mat.ColumnMatrixAt")
	m.ck(0, c)
	return m.mk(m.D.sub(0, m.D.R-1, c, c))
}
func (m *FMat) SetColumnMatrix(c int, x linear.RealMatrix) {
	m.cb("mat.SetColumnMatrix")
	d := toDM(x)
	need(d.C == 1 && d.R == m.D.R)
	for i := 0; i < d.R; i++ {
		m.D.set(i, c, d.at(i, 0))
	}
}
func (m *FMat) RowVectorAt(row int) linear.RealVector {
	m.cb("mat.RowVectorAt")
	m.ck(row, 0)
	return &FVec{D: m.D.row(row)}
}
func (m *FMat) SetRowVector(row int, v linear.RealVector) {
	m.cb("mat.SetRowVector")
	s := vecToSlice(v)
	need(len(s) == m.D.C)
	for j := range s {
		m.D.set(row, j, s[j])
	}
}
func (m *FMat) ColumnVectorAt(c int) linear.RealVector {
	m.cb("mat.ColumnVectorAt")
	m.ck(0, c)
	return &FVec{D: m.D.col(c)}
}
func (m *FMat) SetColumnVector(c int, v linear.RealVector) {
	m.cb("mat.SetColumnVector")
	s := vecToSlice(v)
	need(len(s) == m.D.R)
	for i := range s {
		m.D.set(i, c, s[i])
	}
}
func (m *FMat) RowAt(row int) []float64 { m.cb("mat.RowAt"); m.ck(row, 0); return m.D.row(row) }
func (m *FMat) SetRow(row int, a []float64) {
	m.cb("mat.SetRow")
	need(len(a) == m.D.C)
	for j := range a {
		m.D.set(row, j, a[j])
	}
}
func (m *FMat) ColumnAt(c int) []float64 { m.cb("mat.ColumnAt"); m.ck(0, c); return m.D.col(c) }
func (m *FMat) SetColumn(c int, a []float64) {
	m.cb("mat.SetColumn")
	need(len(a) == m.D.R)
	for i := range a {
		m.D.set(i, c, a[i])
	}
}
func (m *FMat) At(i, j int) float64 { m.cb("mat.At"); m.ck(i, j); return m.D.at(i, j) }
func (m *FMat) SetEntry(i, j int, v float64) {
	m.cb("mat.SetEntry")
	m.ck(i, j)
	m.D.set(i, j, v)
}
func (m *FMat) AddToEntry(i, j int, v float64) {
	m.cb("mat.AddToEntry")
	m.ck(i, j)
	m.D.set(i, j, m.D.at(i, j)+v)
}
func (m *FMat) MultiplyEntry(i, j int, v float64) {
	m.cb("mat.MultiplyEntry")
	m.ck(i, j)
	m.D.set(i, j, m.D.at(i, j)*v)
}
func (m *FMat) Transpose() linear.RealMatrix { m.cb("mat.Transpose"); return m.mk(m.D.t()) }
func (m *FMat) Trace() float64 {
	m.cb("mat.Trace")
	s := 0.0
	for i := 0; i < m.D.R; i++ {
		s += m.D.at(i, i)
	}
	return s
}
func (m *FMat) Operate(v []float64) []float64 {
	m.cb("mat.Operate")
	need(len(v) == m.D.C)
	return m.D.mulv(v)
}
func (m *FMat) OperateVector(v linear.RealVector) linear.RealVector {
	m.cb("mat.OperateVector")
	s := vecToSlice(v)
	need(len(s) == m.D.C)
	return &FVec{D: m.D.mulv(s)}
}
func (m *FMat) PreMultiply(v []float64) []float64 {
	m.cb("mat.PreMultiply")
	need(len(v) == m.D.R)
	return m.D.t().mulv(v)
}
func (m *FMat) PreMultiplyVector(v linear.RealVector) linear.RealVector {
	m.cb("mat.PreMultiplyVector")
	s := vecToSlice(v)
	need(len(s) == m.D.R)
	return &FVec{D: m.D.t().mulv(s)}
}
func (m *FMat) Equals(o interface{}) bool {
	m.cb("mat.Equals")
	x, ok := o.(linear.RealMatrix)
	if !ok {
		return false
	}
	d := toDM(x)
	if d.R != m.D.R || d.C != m.D.C {
		return false
	}
	for i := range d.A {
		if d.A[i] != m.D.A[i] {
			return false
		}
	}
	return true
}

func (m *FMat) walkU(v linear.RealMatrixChangingVisitor, r0, r1, c0, c1 int, byCol bool) float64 {
	m.cb("mat.Walk")
	m.ck(r0, c0)
	m.ck(r1, c1)
	need(r0 <= r1 && c0 <= c1)
	v.Start(m.D.R, m.D.C, r0, r1, c0, c1)
	if byCol {
		for j := c0; j <= c1; j++ {
			for i := r0; i <= r1; i++ {
				m.D.set(i, j, v.Visit(i, j, m.D.at(i, j)))
			}
		}
	} else {
		for i := r0; i <= r1; i++ {
			for j := c0; j <= c1; j++ {
				m.D.set(i, j, v.Visit(i, j, m.D.at(i, j)))
			}
		}
	}
	return v.End()
}

type presAdapter struct {
	linear.RealMatrixPreservingVisitor
}

func (p presAdapter) Visit(i, j int, v float64) float64 {
	p.RealMatrixPreservingVisitor.Visit(i, j, v)
	return v
}

func (m *FMat) walkP(v linear.RealMatrixPreservingVisitor, r0, r1, c0, c1 int, byCol bool) float64 {
	m.cb("mat.Walk")
	m.ck(r0, c0)
	m.ck(r1, c1)
	need(r0 <= r1 && c0 <= c1)
	v.Start(m.D.R, m.D.C, r0, r1, c0, c1)
	if byCol {
		for j := c0; j <= c1; j++ {
			for i := r0; i <= r1; i++ {
				v.Visit(i, j, m.D.at(i, j))
			}
		}
	} else {
		for i := r0; i <= r1; i++ {
			for j := c0; j <= c1; j++ {
				v.Visit(i, j, m.D.at(i, j))
			}
		}
	}
	return v.End()
}
func (m *FMat) WalkInUpdateRowOrder(v linear.RealMatrixChangingVisitor) float64 {
	return m.walkU(v, 0, m.D.R-1, 0, m.D.C-1, false)
}
func (m *FMat) WalkInRowOrder(v linear.RealMatrixPreservingVisitor) float64 {
	return m.walkP(v, 0, m.D.R-1, 0, m.D.C-1, false)
}
func (m *FMat) WalkInUpdateRowOrderBounded(v linear.RealMatrixChangingVisitor, a, b, c, d int) float64 {
	return m.walkU(v, a, b, c, d, false)
}
func (m *FMat) WalkInRowOrderBounded(v linear.RealMatrixPreservingVisitor, a, b, c, d int) float64 {
	return m.walkP(v, a, b, c, d, false)
}
func (m *FMat) WalkInUpdateColumnOrder(v linear.RealMatrixChangingVisitor) float64 {
	return m.walkU(v, 0, m.D.R-1, 0, m.D.C-1, true)
}
func (m *FMat) WalkInColumnOrder(v linear.RealMatrixPreservingVisitor) float64 {
	return m.walkP(v, 0, m.D.R-1, 0, m.D.C-1, true)
}
func (m *FMat) WalkInUpdateColumnOrderBounded(v linear.RealMatrixChangingVisitor, a, b, c, d int) float64 {
	return m.walkU(v, a, b, c, d, true)
}
func (m *FMat) WalkInColumnOrderBounded(v linear.RealMatrixPreservingVisitor, a, b, c, d int) float64 {
	return m.walkP(v, a, b, c, d, true)
}
func (m *FMat) WalkInUpdateOptimizedOrder(v linear.RealMatrixChangingVisitor) float64 {
	return m.walkU(v, 0, m.D.R-1, 0, m.D.C-1, false)
}
func (m *FMat) WalkInOptimizedOrder(v linear.RealMatrixPreservingVisitor) float64 {
	return m.walkP(v, 0, m.D.R-1, 0, m.D.C-1, false)
}
func (m *FMat) WalkInUpdateOptimizedOrderBounded(v linear.RealMatrixChangingVisitor, a, b, c, d int) float64 {
	return m.walkU(v, a, b, c, d, false)
}
func (m *FMat) WalkInOptimizedOrderBounded(v linear.RealMatrixPreservingVisitor, a, b, c, d int) float64 {
	return m.walkP(v, a, b, c, d, false)
}

// FVec is a caller's own RealVector.
type FVec struct {
	D []float64
	H *Hook
}

func (v *FVec) cb(w string) {
	if v.H != nil {
		v.H.hit(w)
	} else {
		simrt.Yield()
	}
}
func (v *FVec) ck(i int) {
	if i < 0 || i >= len(v.D) {
		panic(sf("foreign vector: %d outside %d", i, len(v.D)))
	}
}
func (v *FVec) Dimension() int   { v.cb("vec.Dimension"); return len(v.D) }
func (v *FVec) At(i int) float64 { v.cb("vec.At"); v.ck(i); return v.D[i] }
func (v *FVec) SetEntry(i int, x float64) {
	v.cb("vec.SetEntry")
	v.ck(i)
	v.D[i] = x
}
func (v *FVec) AddToEntry(i int, x float64) { v.cb("vec.AddToEntry"); v.ck(i); v.D[i] += x }
func (v *FVec) AppendVector(o linear.RealVector) linear.RealVector {
	v.cb("vec.AppendVector")
	return &FVec{D: append(append([]float64{}, v.D...), vecToSlice(o)...)}
}
func (v *FVec) Append(d float64) linear.RealVector {
	v.cb("vec.Append")
	return &FVec{D: append(append([]float64{}, v.D...), d)}
}
func (v *FVec) SubVector(i, n int) linear.RealVector {
	v.cb("vec.SubVector")
	v.ck(i)
	v.ck(i + n - 1)
	return &FVec{D: append([]float64{}, v.D[i:i+n]...)}
}
func (v *FVec) SetSubVector(i int, o linear.RealVector) {
	v.cb("vec.SetSubVector")
	s := vecToSlice(o)
	v.ck(i)
	v.ck(i + len(s) - 1)
	copy(v.D[i:], s)
}
func (v *FVec) IsNaN() bool {
	v.cb("vec.IsNaN")
	for _, x := range v.D {
		if x != x {
			return true
		}
	}
	return false
}
func (v *FVec) IsInf() bool {
	v.cb("vec.IsInf")
	inf := false
	for _, x := range v.D {
		if x != x {
			return false
		}
		if x-x != 0 {
			inf = true
		}
	}
	return inf
}
func (v *FVec) zip(o linear.RealVector, f func(a, b float64) float64) linear.RealVector {
	s := vecToSlice(o)
	need(len(s) == len(v.D))
	for i := range s {
		s[i] = f(v.D[i], s[i])
	}
	return &FVec{D: s}
}
func (v *FVec) Add(o linear.RealVector) linear.RealVector {
	v.cb("vec.Add")
	return v.zip(o, func(a, b float64) float64 { return a + b })
}
func (v *FVec) Subtract(o linear.RealVector) linear.RealVector {
	v.cb("vec.Subtract")
	return v.zip(o, func(a, b float64) float64 { return a - b })
}
func (v *FVec) each(w string, f func(a float64) float64) {
	v.cb(w)
	for i := range v.D {
		v.D[i] = f(v.D[i])
	}
}
func (v *FVec) MapAdd(d float64) { v.each("vec.MapAdd", func(a float64) float64 { return a + d }) }
func (v *FVec) EBEDivide(o linear.RealVector) linear.RealVector {
	v.cb("vec.EBEDivide")
	return v.zip(o, func(a, b float64) float64 { return a / b })
}
func (v *FVec) EBEMultiply(o linear.RealVector) linear.RealVector {
	v.cb("vec.EBEMultiply")
	return v.zip(o, func(a, b float64) float64 { return a * b })
}
func (v *FVec) MapSubtract(d float64) {
	v.each("vec.MapSubtract", func(a float64) float64 { return a - d })
}
func (v *FVec) MapMultiply(d float64) {
	v.each("vec.MapMultiply", func(a float64) float64 { return a * d })
}
func (v *FVec) MapDivide(d float64) {
	v.each("vec.MapDivide", func(a float64) float64 { return a / d })
}
func (v *FVec) CopyFrom(o linear.RealVector) {
	v.cb("vec.CopyFrom")
	s := vecToSlice(o)
	need(len(s) == len(v.D))
	copy(v.D, s)
}
func (v *FVec) Copy() linear.RealVector {
	v.cb("vec.Copy")
	return &FVec{D: append([]float64{}, v.D...)}
}
func (v *FVec) Set(x float64)      { v.each("vec.Set", func(float64) float64 { return x }) }
func (v *FVec) ToArray() []float64 { v.cb("vec.ToArray"); return append([]float64{}, v.D...) }
func (v *FVec) Unitize() {
	v.cb("vec.Unitize")
	s := 0.0
	for _, x := range v.D {
		s += x * x
	}
	need(s != 0)
	n := sqrt(s)
	for i := range v.D {
		v.D[i] /= n
	}
}

type fIter struct {
	v *FVec
	i int
}
type fEntry struct {
	i int
	x float64
}

func (e fEntry) Index() int     { return e.i }
func (e fEntry) Value() float64 { return e.x }
func (it *fIter) HasNext() bool { it.v.cb("iter.HasNext"); return it.i < len(it.v.D) }
func (it *fIter) Next() linear.Entry {
	it.v.cb("iter.Next")
	it.v.ck(it.i)
	it.i++
	return fEntry{it.i - 1, it.v.D[it.i-1]}
}
func (v *FVec) Iterator() linear.EntryIterator { v.cb("vec.Iterator"); return &fIter{v: v} }
func (v *FVec) Map(f func(float64) float64)    { v.each("vec.Map", f) }
func (v *FVec) Combine(a, b float64, y linear.RealVector) {
	v.cb("vec.Combine")
	s := vecToSlice(y)
	need(len(s) == len(v.D))
	for i := range s {
		v.D[i] = a*v.D[i] + b*s[i]
	}
}
func (v *FVec) wp(w linear.RealVectorPreservingVisitor, a, b int) float64 {
	v.cb("vec.Walk")
	w.Start(len(v.D), a, b)
	for i := a; i <= b; i++ {
		v.ck(i)
		w.Visit(i, v.D[i])
	}
	return w.End()
}
func (v *FVec) wc(w linear.RealVectorChangingVisitor, a, b int) float64 {
	v.cb("vec.Walk")
	w.Start(len(v.D), a, b)
	for i := a; i <= b; i++ {
		v.ck(i)
		v.D[i] = w.Visit(i, v.D[i])
	}
	return w.End()
}
func (v *FVec) WalkInDefaultOrder(w linear.RealVectorPreservingVisitor) float64 {
	return v.wp(w, 0, len(v.D)-1)
}
func (v *FVec) WalkInDefaultOrderBounded(w linear.RealVectorPreservingVisitor, a, b int) float64 {
	return v.wp(w, a, b)
}
func (v *FVec) WalkInUpdateDefaultOrder(w linear.RealVectorChangingVisitor) float64 {
	return v.wc(w, 0, len(v.D)-1)
}
func (v *FVec) WalkInUpdateDefaultOrderBounded(w linear.RealVectorChangingVisitor, a, b int) float64 {
	return v.wc(w, a, b)
}
func (v *FVec) WalkInOptimizedOrder(w linear.RealVectorPreservingVisitor) float64 {
	return v.wp(w, 0, len(v.D)-1)
}
func (v *FVec) WalkInOptimizedOrderBounded(w linear.RealVectorPreservingVisitor, a, b int) float64 {
	return v.wp(w, a, b)
}
func (v *FVec) WalkInUpdateOptimizedOrder(w linear.RealVectorChangingVisitor) float64 {
	return v.wc(w, 0, len(v.D)-1)
}
func (v *FVec) WalkInUpdateOptimizedOrderBounded(w linear.RealVectorChangingVisitor, a, b int) float64 {
	return v.wc(w, a, b)
}
func (v *FVec) Equals(o interface{}) bool {
	v.cb("vec.Equals")
	x, ok := o.(linear.RealVector)
	if !ok {
		return false
	}
	return eqSlice(v.D, vecToSlice(x))
}
