From a5b096cd7aafc99d45d576b7ebf387c78d765369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 01/42] fix: Array2DRowRealMatrix.SetRow copies into the whole
 row whatever its index

---
 array_2d_row_real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 2b2da55..bd2264d 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -707,7 +707,7 @@ func (a2drrm *Array2DRowRealMatrix) SetRow(row int, array []float64) {
 	if len(array) != nCols {
 		panic(matrixDimensionMismatchErrorf(1, len(array), 1, nCols))
 	}
-	copy(a2drrm.data[row][0:row+nCols], array[0:nCols])
+	copy(a2drrm.data[row][0:nCols], array[0:nCols])
 }
 
 func (a2drrm *Array2DRowRealMatrix) RowMatrixAt(row int) RealMatrix {
-- 
2.43.0


From 98de4937759f0897e50b4b58b8f1a7281fb355e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 02/42] fix: matrix-vector products and row/column setters
 accept any RealVector

The fallback branches used the nil result of the failed type assertion.
---
 array_2d_row_real_matrix.go | 12 ++++++------
 block_real_matrix.go        | 20 ++++++++++----------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index bd2264d..0c2e37b 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -470,15 +470,15 @@ func (a2drrm *Array2DRowRealMatrix) OperateVector(vec RealVector) RealVector {
 	} else {
 		nRows := a2drrm.RowDimension()
 		nCols := a2drrm.ColumnDimension()
-		if v.Dimension() != nCols {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nCols))
+		if vec.Dimension() != nCols {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nCols))
 		}
 
 		out = make([]float64, nRows)
 		for row := 0; row < nRows; row++ {
 			var sum float64
 			for i := 0; i < nCols; i++ {
-				sum += a2drrm.data[row][i] * v.At(i)
+				sum += a2drrm.data[row][i] * vec.At(i)
 			}
 			out[row] = sum
 		}
@@ -500,15 +500,15 @@ func (a2drrm *Array2DRowRealMatrix) PreMultiplyVector(vec RealVector) RealVector
 	} else {
 		nRows := a2drrm.RowDimension()
 		nCols := a2drrm.ColumnDimension()
-		if v.Dimension() != nRows {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nRows))
+		if vec.Dimension() != nRows {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nRows))
 		}
 
 		out = make([]float64, nCols)
 		for col := 0; col < nCols; col++ {
 			var sum float64
 			for i := 0; i < nRows; i++ {
-				sum += a2drrm.data[i][col] * v.At(i)
+				sum += a2drrm.data[i][col] * vec.At(i)
 			}
 			out[col] = sum
 		}
diff --git a/block_real_matrix.go b/block_real_matrix.go
index 9f8a6c0..dc9dd0c 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -743,8 +743,8 @@ func (brm *BlockRealMatrix) RowVectorAt(row int) RealVector {
 }
 
 func (brm *BlockRealMatrix) SetRowVector(row int, vec RealVector) {
-	if vec, ok := vec.(*ArrayRealVector); ok {
-		brm.SetRow(row, vec.DataRef())
+	if v, ok := vec.(*ArrayRealVector); ok {
+		brm.SetRow(row, v.DataRef())
 	} else {
 		if err := checkRowIndex(brm, row); err != nil {
 			panic(err)
@@ -784,8 +784,8 @@ func (brm *BlockRealMatrix) ColumnVectorAt(column int) RealVector {
 }
 
 func (brm *BlockRealMatrix) SetColumnVector(column int, vec RealVector) {
-	if vec, ok := vec.(*ArrayRealVector); ok {
-		brm.SetColumn(column, vec.DataRef())
+	if v, ok := vec.(*ArrayRealVector); ok {
+		brm.SetColumn(column, v.DataRef())
 	} else {
 		if err := checkColumnIndex(brm, column); err != nil {
 			panic(err)
@@ -977,8 +977,8 @@ func (brm *BlockRealMatrix) OperateVector(vec RealVector) RealVector {
 	} else {
 		nRows := brm.RowDimension()
 		nCols := brm.ColumnDimension()
-		if v.Dimension() != nCols {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nCols))
+		if vec.Dimension() != nCols {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nCols))
 		}
 
 		out = make([]float64, nRows)
@@ -1046,15 +1046,15 @@ func (brm *BlockRealMatrix) PreMultiplyVector(vec RealVector) RealVector {
 	} else {
 		nRows := brm.RowDimension()
 		nCols := brm.ColumnDimension()
-		if v.Dimension() != nRows {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nRows))
+		if vec.Dimension() != nRows {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nRows))
 		}
 
-		out := make([]float64, nCols)
+		out = make([]float64, nCols)
 		for col := 0; col < nCols; col++ {
 			var sum float64
 			for i := 0; i < nRows; i++ {
-				sum += brm.At(i, col) * v.At(i)
+				sum += brm.At(i, col) * vec.At(i)
 			}
 			out[col] = sum
 		}
-- 
2.43.0


From 5bf7da15a46c2c3608227d8a39cc8e45214a7c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 03/42] fix: NewArrayRealVectorFromTwoRealVector appends the
 second vector

It stored v2[i] at i for l1 <= i < l2, so the second half was lost or wrong.
---
 array_real_vector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array_real_vector.go b/array_real_vector.go
index 66811bc..49bf571 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -140,8 +140,8 @@ func NewArrayRealVectorFromTwoRealVector(v1, v2 RealVector) (*ArrayRealVector, e
         data[i] = v1.At(i)
     }
 
-    for i := l1; i < l2; i++ {
-        data[i] = v2.At(i)
+    for i := 0; i < l2; i++ {
+        data[l1+i] = v2.At(i)
     }
 
     return &ArrayRealVector{data: data}, nil
-- 
2.43.0


From 1b3afb4cef2ae0663cafa56dd172e7499e05b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 04/42] fix: equalsWithULP compares bit patterns of doubles

The sign mask was the one for 32-bit floats, the unsigned difference wrapped
around, and the larger bit pattern was taken for the positive number, so that
0.0 and -0.0 (among others) were unequal and diagonal matrices refused them.
---
 utils.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index dc0d844..458d2b3 100644
--- a/utils.go
+++ b/utils.go
@@ -22,7 +22,7 @@ import (
 )
 
 const (
-	sgn_mask_float = 0x80000000
+	sgn_mask_float = 1 << 63
 )
 
 var (
@@ -87,11 +87,14 @@ func equalsWithULP(x, y float64, maxUlps int) bool {
 	var isEqual bool
 	if ((xInt ^ yInt) & sgn_mask_float) == 0 {
 		// number have same sign, there is no risk of overflow
-		isEqual = uint64(math.Abs(float64(xInt-yInt))) <= uint64(maxUlps)
+		if xInt < yInt {
+			xInt, yInt = yInt, xInt
+		}
+		isEqual = xInt-yInt <= uint64(maxUlps)
 	} else {
 		// number have opposite signs, take care of overflow
 		var deltaPlus, deltaMinus uint64
-		if xInt < yInt {
+		if math.Signbit(x) {
 			deltaPlus = yInt - positive_zero_float64_bits
 			deltaMinus = xInt - negative_zero_float64_bits
 		} else {
-- 
2.43.0


From 563de1a77298f989cb18b501173d870b7bcc1efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 05/42] fix: DiagonalMatrix enforces its sub-matrix index
 checks

SubMatrix, SetSubMatrix and the bounded walks computed the index error and
ignored it, so the visitor or the matrix was touched before (or without) a
rejection.
---
 diagonal_matrix.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index 49db089..6ad1b31 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -575,10 +575,18 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 		}
 	}
 
-	checkRowIndex(dm, row)
-	checkColumnIndex(dm, column)
-	checkRowIndex(dm, nRows+row-1)
-	checkColumnIndex(dm, nCols+column-1)
+	if err := checkRowIndex(dm, row); err != nil {
+		panic(err)
+	}
+	if err := checkColumnIndex(dm, column); err != nil {
+		panic(err)
+	}
+	if err := checkRowIndex(dm, nRows+row-1); err != nil {
+		panic(err)
+	}
+	if err := checkColumnIndex(dm, nCols+column-1); err != nil {
+		panic(err)
+	}
 
 	for i := 0; i < nRows; i++ {
 		for j := 0; j < nCols; j++ {
@@ -588,7 +596,9 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 }
 
 func (dm *DiagonalMatrix) SubMatrix(startRow, endRow, startColumn, endColumn int) RealMatrix {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	if (endRow - startRow + 1) != (endColumn - startColumn + 1) {
 		panic(dimensionsMismatchSimpleErrorf((endRow - startRow + 1), (endColumn - startColumn + 1)))
 	}
@@ -676,7 +686,9 @@ func (dm *DiagonalMatrix) WalkInRowOrder(visitor RealMatrixPreservingVisitor) fl
 }
 
 func (dm *DiagonalMatrix) WalkInRowOrderBounded(visitor RealMatrixPreservingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for i := startRow; i <= endRow; i++ {
 		for j := startColumn; j <= endColumn; j++ {
@@ -699,7 +711,9 @@ func (dm *DiagonalMatrix) WalkInUpdateRowOrder(visitor RealMatrixChangingVisitor
 }
 
 func (dm *DiagonalMatrix) WalkInUpdateRowOrderBounded(visitor RealMatrixChangingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for i := startRow; i <= endRow; i++ {
 		for j := startColumn; j <= endColumn; j++ {
@@ -734,7 +748,9 @@ func (dm *DiagonalMatrix) WalkInColumnOrder(visitor RealMatrixPreservingVisitor)
 }
 
 func (dm *DiagonalMatrix) WalkInUpdateColumnOrderBounded(visitor RealMatrixChangingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for j := startColumn; j <= endColumn; j++ {
 		for i := startRow; i <= endRow; i++ {
@@ -745,7 +761,9 @@ func (dm *DiagonalMatrix) WalkInUpdateColumnOrderBounded(visitor RealMatrixChang
 }
 
 func (dm *DiagonalMatrix) WalkInColumnOrderBounded(visitor RealMatrixPreservingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for j := startColumn; j <= endColumn; j++ {
 		for i := startRow; i <= endRow; i++ {
-- 
2.43.0


From 381b246ea56e406d84f2178d3efb4c8f9055c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 06/42] fix: DiagonalMatrix checks both indices of the entry it
 is asked to change

Off-diagonal requests skipped the check and silently accepted any index.
---
 diagonal_matrix.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index 6ad1b31..be83a90 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -200,10 +200,10 @@ func (dm *DiagonalMatrix) At(row, column int) float64 {
 }
 
 func (dm *DiagonalMatrix) SetEntry(row, column int, value float64) {
+	if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
+	}
 	if row == column {
-		if err := checkRowIndex(dm, row); err != nil {
-			panic(err)
-		}
 		dm.data[row] = value
 	} else {
 		if err := dm.ensureZero(value); err != nil {
@@ -213,10 +213,10 @@ func (dm *DiagonalMatrix) SetEntry(row, column int, value float64) {
 }
 
 func (dm *DiagonalMatrix) AddToEntry(row, column int, increment float64) {
+	if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
+	}
 	if row == column {
-		if err := checkRowIndex(dm, row); err != nil {
-			panic(err)
-		}
 		dm.data[row] += increment
 	} else {
 		if err := dm.ensureZero(increment); err != nil {
@@ -235,10 +235,10 @@ func (dm *DiagonalMatrix) ensureZero(value float64) error {
 
 func (dm *DiagonalMatrix) MultiplyEntry(row, column int, factor float64) {
 	// we don't care about non-diagonal elements for multiplication
+	if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
+	}
 	if row == column {
-		if err := checkRowIndex(dm, row); err != nil {
-			panic(err)
-		}
 		dm.data[row] *= factor
 	}
 }
-- 
2.43.0


From cee07ab1754d019cedefc31baefe0c1469da3911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 07/42] fix: Array2DRowRealMatrix.SetColumnVector rejects a bad
 column index

---
 array_2d_row_real_matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 0c2e37b..a66c21b 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -795,7 +795,9 @@ func (a2drrm *Array2DRowRealMatrix) ColumnVectorAt(column int) RealVector {
 }
 
 func (a2drrm *Array2DRowRealMatrix) SetColumnVector(column int, vec RealVector) {
-	checkColumnIndex(a2drrm, column)
+	if err := checkColumnIndex(a2drrm, column); err != nil {
+		panic(err)
+	}
 	nRows := a2drrm.RowDimension()
 	if vec.Dimension() != nRows {
 		panic(matrixDimensionMismatchErrorf(1, vec.Dimension(), nRows, 1))
-- 
2.43.0


From 34e5665fc46fdbb9eaac5b68b84fcfd40b432db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 08/42] fix: SubMatrix rejects a bad row or column selection

---
 real_matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/real_matrix.go b/real_matrix.go
index 6d83661..8a0f825 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -460,7 +460,9 @@ func (drmcv realMatrixChangingVisitorImpl) End() float64 { return 0 }
  * Gets a submatrix. Rows and columns are indicated counting from 0 to n-1.
  */
 func SubMatrix(m RealMatrix, selectedRows, selectedColumns []int) RealMatrix {
-	checkSubMatrixIndexFromIndices(m, selectedRows, selectedColumns)
+	if err := checkSubMatrixIndexFromIndices(m, selectedRows, selectedColumns); err != nil {
+		panic(err)
+	}
 
 	subMatrix, err := NewRealMatrixWithDimension(len(selectedRows), len(selectedColumns))
 	if err != nil {
-- 
2.43.0


From a79889bcf8acccb008eaff202c738ac80526bf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 09/42] fix: DiagonalMatrix rejects a row, column or sub-matrix
 before storing any of it

A non-zero off-diagonal value was only noticed after the entries before it had
been stored, so a rejected request left the matrix changed.
---
 diagonal_matrix.go | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index be83a90..79beb0b 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -376,9 +376,11 @@ func (dm *DiagonalMatrix) SetColumnMatrix(column int, matrix RealMatrix) {
 	if (matrix.RowDimension() != nRows) || (matrix.ColumnDimension() != 1) {
 		panic(matrixDimensionMismatchErrorf(matrix.RowDimension(), matrix.ColumnDimension(), nRows, 1))
 	}
+	values := make([]float64, nRows)
 	for i := 0; i < nRows; i++ {
-		dm.SetEntry(i, column, matrix.At(i, 0))
+		values[i] = matrix.At(i, 0)
 	}
+	dm.setLine(column, values)
 }
 
 func (dm *DiagonalMatrix) ColumnVectorAt(column int) RealVector {
@@ -395,9 +397,11 @@ func (dm *DiagonalMatrix) SetColumnVector(column int, vec RealVector) {
 	if vec.Dimension() != nRows {
 		panic(matrixDimensionMismatchErrorf(vec.Dimension(), 1, nRows, 1))
 	}
+	values := make([]float64, nRows)
 	for i := 0; i < nRows; i++ {
-		dm.SetEntry(i, column, vec.At(i))
+		values[i] = vec.At(i)
 	}
+	dm.setLine(column, values)
 }
 
 func (dm *DiagonalMatrix) Equals(object interface{}) bool {
@@ -510,9 +514,7 @@ func (dm *DiagonalMatrix) SetColumn(column int, array []float64) {
 		panic(matrixDimensionMismatchErrorf(len(array), 1, nRows, 1))
 
 	}
-	for i := 0; i < nRows; i++ {
-		dm.SetEntry(i, column, array[i])
-	}
+	dm.setLine(column, array)
 }
 
 func (dm *DiagonalMatrix) SetRow(row int, array []float64) {
@@ -523,9 +525,20 @@ func (dm *DiagonalMatrix) SetRow(row int, array []float64) {
 	if len(array) != nCols {
 		panic(matrixDimensionMismatchErrorf(1, len(array), 1, nCols))
 	}
-	for i := 0; i < nCols; i++ {
-		dm.SetEntry(row, i, array[i])
+	dm.setLine(row, array)
+}
+
+// setLine replaces the entries of the row (or column) of the given index. All
+// values are checked before the first one is stored.
+func (dm *DiagonalMatrix) setLine(index int, values []float64) {
+	for i, value := range values {
+		if i != index {
+			if err := dm.ensureZero(value); err != nil {
+				panic(err)
+			}
+		}
 	}
+	dm.data[index] = values[index]
 }
 
 func (dm *DiagonalMatrix) SetRowMatrix(row int, matrix RealMatrix) {
@@ -536,9 +549,11 @@ func (dm *DiagonalMatrix) SetRowMatrix(row int, matrix RealMatrix) {
 	if (matrix.RowDimension() != 1) || (matrix.ColumnDimension() != nCols) {
 		panic(matrixDimensionMismatchErrorf(matrix.RowDimension(), matrix.ColumnDimension(), 1, nCols))
 	}
+	values := make([]float64, nCols)
 	for i := 0; i < nCols; i++ {
-		dm.SetEntry(row, i, matrix.At(0, i))
+		values[i] = matrix.At(0, i)
 	}
+	dm.setLine(row, values)
 }
 
 func (dm *DiagonalMatrix) SetRowVector(row int, vec RealVector) {
@@ -550,9 +565,11 @@ func (dm *DiagonalMatrix) SetRowVector(row int, vec RealVector) {
 		panic(matrixDimensionMismatchErrorf(1, vec.Dimension(), 1, nCols))
 	}
 
+	values := make([]float64, nCols)
 	for i := 0; i < nCols; i++ {
-		dm.SetEntry(row, i, vec.At(i))
+		values[i] = vec.At(i)
 	}
+	dm.setLine(row, values)
 }
 
 func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
@@ -588,6 +605,17 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 		panic(err)
 	}
 
+	// check all values before storing the first one
+	for i := 0; i < nRows; i++ {
+		for j := 0; j < nCols; j++ {
+			if row+i != column+j {
+				if err := dm.ensureZero(subMatrix[i][j]); err != nil {
+					panic(err)
+				}
+			}
+		}
+	}
+
 	for i := 0; i < nRows; i++ {
 		for j := 0; j < nCols; j++ {
 			dm.SetEntry(row+i, column+j, subMatrix[i][j])
-- 
2.43.0


From 475aaf67215f22f65bc2c1d748628b9329ce0280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 10/42] fix: Projection returns a new vector instead of
 overwriting its argument

---
 real_vector.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/real_vector.go b/real_vector.go
index 5550008..1144194 100644
--- a/real_vector.go
+++ b/real_vector.go
@@ -476,8 +476,9 @@ func Projection(src, dest RealVector) RealVector {
 		panic(mathArithmeticErrorf(zero_norm))
 	}
 
-	dest.MapMultiply(VecDotProduct(src, dest) / VecDotProduct(dest, dest))
-	return dest
+	proj := dest.Copy()
+	proj.MapMultiply(VecDotProduct(src, dest) / VecDotProduct(dest, dest))
+	return proj
 }
 
 /**
-- 
2.43.0


From 515f5bd2d078afcde776124d520897f98136e37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 11/42] fix: Inverse of the SVD solver returns a matrix of its
 own

It handed out the pseudo-inverse the solver goes on using, so changing the
returned matrix changed every later solution.
---
 singular_value_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index 14ce2cb..eb73c85 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -676,5 +676,5 @@ func (svds *svDecompositionSolver) IsNonSingular() bool {
 }
 
 func (svds *svDecompositionSolver) Inverse() RealMatrix {
-	return svds.pseudoInverse
+	return svds.pseudoInverse.Copy()
 }
-- 
2.43.0


From 8a6e59e80f9bae4eb6e1b9575e9f02cd3e1fe927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 12/42] fix: the SVD rank tolerance has the square root of the
 safe minimum as floor

With sqrt(epsilon) as floor every matrix with entries below 1e-8 had rank 0
and a zero pseudo-inverse.
---
 singular_value_decomposition.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index eb73c85..0b0e35b 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -21,8 +21,9 @@ import (
 )
 
 const (
-	eps_svd  = 2.220446049250313e-16
-	tiny_svd = 1.6033346880071782e-291
+	eps_svd      = 2.220446049250313e-16
+	tiny_svd     = 1.6033346880071782e-291
+	safe_min_svd = 2.2250738585072014e-308
 )
 
 /**
@@ -444,7 +445,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 	}
 
 	// Set the small value tolerance used to calculate rank and pseudo-inverse
-	ans.tol = math.Max(float64(m)*ans.singularValues[0]*eps_svd, math.Sqrt(doubleeps))
+	ans.tol = math.Max(float64(m)*ans.singularValues[0]*eps_svd, math.Sqrt(safe_min_svd))
 
 	if !ans.transposed {
 		ans.cachedU, err = NewRealMatrixFromSlices(U)
-- 
2.43.0


From 22d3ad8660aa2389ff5343aac96096e613a04d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 13/42] fix: the covariance of a wide matrix has all its rows
 and columns

Covariance is documented as n x n, but only the first min(m,n) columns of VT
were used.
---
 singular_value_decomposition.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index 0b0e35b..daaa1ba 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -565,9 +565,10 @@ func (svd *SingularValueDecomposition) Covariance(minSingularValue float64) Real
 		panic(numberIsTooLargeErrorf(too_large_cutoff_singular_value, minSingularValue, svd.singularValues[0], true))
 	}
 
+	columns := svd.VT().ColumnDimension()
 	data := make([][]float64, dimension)
 	for i := 0; i < dimension; i++ {
-		data[i] = make([]float64, p)
+		data[i] = make([]float64, columns)
 	}
 
 	t := struct{ svdPreservingVisitor }{}
@@ -576,7 +577,7 @@ func (svd *SingularValueDecomposition) Covariance(minSingularValue float64) Real
 		data[row][column] = value / svd.singularValues[row]
 	}
 
-	svd.VT().WalkInOptimizedOrderBounded(t, 0, dimension-1, 0, p-1)
+	svd.VT().WalkInOptimizedOrderBounded(t, 0, dimension-1, 0, columns-1)
 
 	jv, err := NewArray2DRowRealMatrixFromSlices(data, true)
 	if err != nil {
-- 
2.43.0


From 80606472e4e77543f4318896eacb682a05f45b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 14/42] fix: Inverse of the RRQR solver works for matrices with
 more rows than columns

It solved for an identity matrix of the wrong dimension, which was rejected.
---
 rrqr_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rrqr_decomposition.go b/rrqr_decomposition.go
index 5499d0e..8f41325 100644
--- a/rrqr_decomposition.go
+++ b/rrqr_decomposition.go
@@ -181,7 +181,7 @@ func (rrqrds *rrqrDecompositionSolver) SolveMatrix(b RealMatrix) RealMatrix {
 }
 
 func (rrqrds *rrqrDecompositionSolver) Inverse() RealMatrix {
-	m, err := NewRealIdentityMatrix(rrqrds.rrqrd.P().RowDimension())
+	m, err := NewRealIdentityMatrix(len(rrqrds.rrqrd.qrt[0]))
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 376701813fb50ae82769cd34007d41ba2bd1bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 15/42] fix: Determinant of an eigen decomposition accounts for
 complex eigenvalues

---
 eigen_decomposition.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 48276f6..c41a571 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -261,8 +261,13 @@ func (ed *EigenDecomposition) EigenvectorAt(i int) RealVector {
  */
 func (ed *EigenDecomposition) Determinant() float64 {
 	determinant := 1.
-	for _, lambda := range ed.realEigenvalues {
-		determinant *= lambda
+	for i, lambda := range ed.realEigenvalues {
+		if imag := ed.imagEigenvalues[i]; imag == 0 {
+			determinant *= lambda
+		} else if !(imag < 0) {
+			// a pair of conjugate eigenvalues
+			determinant *= lambda*lambda + imag*imag
+		}
 	}
 	return determinant
 }
-- 
2.43.0


From 7b47555e77ba9fde6054ddcbc23ee29b808fcb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 16/42] fix: decompositions can be queried by several
 goroutines

The accessors build the matrices they return on first use, without any
synchronisation: concurrent first queries of a shared decomposition raced, and
some could see a matrix being filled in (or share scratch data).
---
 bidiagonal_transformer.go       | 11 +++++++++++
 cholesky_decomposition.go       | 11 ++++++++++-
 eigen_decomposition.go          |  8 ++++++++
 hessenberg_transformer.go       | 14 +++++++++++++-
 lu_decomposition.go             | 11 +++++++++++
 qr_decomposition.go             | 16 +++++++++++++++-
 rrqr_decomposition.go           |  3 +++
 schur_transformer.go            | 14 +++++++++++++-
 singular_value_decomposition.go | 11 +++++++++++
 tridiagonal_transformer.go      | 14 +++++++++++++-
 10 files changed, 108 insertions(+), 5 deletions(-)

diff --git a/bidiagonal_transformer.go b/bidiagonal_transformer.go
index e6e31cf..a76489d 100644
--- a/bidiagonal_transformer.go
+++ b/bidiagonal_transformer.go
@@ -2,12 +2,14 @@ package linear
 
 import (
 	"math"
+	"sync"
 )
 
 type BiDiagonalTransformer struct {
 	householderVectors        [][]float64
 	main, secondary           []float64
 	cachedU, cachedB, cachedV RealMatrix
+	mu                        sync.Mutex // guards the cached matrices
 }
 
 func NewBiDiagonalTransformer(matrix RealMatrix) (*BiDiagonalTransformer, error) {
@@ -29,6 +31,9 @@ func NewBiDiagonalTransformer(matrix RealMatrix) (*BiDiagonalTransformer, error)
 }
 
 func (bdt *BiDiagonalTransformer) U() RealMatrix {
+	bdt.mu.Lock()
+	defer bdt.mu.Unlock()
+
 	if bdt.cachedU == nil {
 		m := len(bdt.householderVectors)
 		n := len(bdt.householderVectors[0])
@@ -84,6 +89,9 @@ func (bdt *BiDiagonalTransformer) U() RealMatrix {
 }
 
 func (bdt *BiDiagonalTransformer) B() RealMatrix {
+	bdt.mu.Lock()
+	defer bdt.mu.Unlock()
+
 	if bdt.cachedB == nil {
 		m := len(bdt.householderVectors)
 		n := len(bdt.householderVectors[0])
@@ -117,6 +125,9 @@ func (bdt *BiDiagonalTransformer) B() RealMatrix {
 }
 
 func (bdt *BiDiagonalTransformer) V() RealMatrix {
+	bdt.mu.Lock()
+	defer bdt.mu.Unlock()
+
 	if bdt.cachedV == nil {
 		m := len(bdt.householderVectors)
 		n := len(bdt.householderVectors[0])
diff --git a/cholesky_decomposition.go b/cholesky_decomposition.go
index 528570e..692ca3a 100644
--- a/cholesky_decomposition.go
+++ b/cholesky_decomposition.go
@@ -18,6 +18,7 @@ package linear
 
 import (
 	"math"
+	"sync"
 )
 
 const (
@@ -50,6 +51,7 @@ const (
 type CholeskyDecomposition struct {
 	lTData            [][]float64
 	cachedL, cachedLT RealMatrix
+	mu                sync.Mutex // guards the cached matrices
 	m                 int
 }
 
@@ -123,8 +125,12 @@ func NewCholeskyDecomposition(matrix RealMatrix, relativeSymmetryThreshold, abso
  * Returns the matrix L of the decomposition. L is an lower-triangular matrix.
  */
 func (cd *CholeskyDecomposition) L() RealMatrix {
+	lT := cd.LT()
+	cd.mu.Lock()
+	defer cd.mu.Unlock()
+
 	if cd.cachedL == nil {
-		cd.cachedL = cd.LT().Transpose()
+		cd.cachedL = lT.Transpose()
 	}
 	return cd.cachedL
 }
@@ -133,6 +139,9 @@ func (cd *CholeskyDecomposition) L() RealMatrix {
  * Returns the transpose of the matrix L of the decomposition. LT is an upper-triangular matrix.
  */
 func (cd *CholeskyDecomposition) LT() RealMatrix {
+	cd.mu.Lock()
+	defer cd.mu.Unlock()
+
 	if cd.cachedLT == nil {
 		var err error
 		cd.cachedLT, err = NewRealMatrixFromSlices(cd.lTData)
diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index c41a571..9d7e636 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -18,6 +18,7 @@ package linear
 
 import (
 	"math"
+	"sync"
 )
 
 const (
@@ -66,6 +67,7 @@ type EigenDecomposition struct {
 	eigenvectors                     []*ArrayRealVector
 	cachedV, cachedD, cachedVt       RealMatrix
 	isSymmetric                      bool
+	mu                               sync.Mutex // guards the cached matrices
 }
 
 /**
@@ -133,6 +135,8 @@ func NewEigenDecompositionFromTridiagonal(main, secondary []float64) (*EigenDeco
  * or right-handed system).
  */
 func (ed *EigenDecomposition) V() RealMatrix {
+	ed.mu.Lock()
+	defer ed.mu.Unlock()
 
 	if ed.cachedV == nil {
 		m := len(ed.eigenvectors)
@@ -157,6 +161,8 @@ func (ed *EigenDecomposition) V() RealMatrix {
  * 2x2 blocks { {real +imaginary}, {-imaginary, real} }.
  */
 func (ed *EigenDecomposition) D() RealMatrix {
+	ed.mu.Lock()
+	defer ed.mu.Unlock()
 
 	if ed.cachedD == nil {
 		// cache the matrix for subsequent calls
@@ -186,6 +192,8 @@ func (ed *EigenDecomposition) D() RealMatrix {
  * or right-handed system).
  */
 func (ed *EigenDecomposition) VT() RealMatrix {
+	ed.mu.Lock()
+	defer ed.mu.Unlock()
 
 	if ed.cachedVt == nil {
 		m := len(ed.eigenvectors)
diff --git a/hessenberg_transformer.go b/hessenberg_transformer.go
index 811c201..c20c535 100644
--- a/hessenberg_transformer.go
+++ b/hessenberg_transformer.go
@@ -18,6 +18,7 @@ package linear
 
 import (
 	"math"
+	"sync"
 )
 
 /**
@@ -38,6 +39,7 @@ type HessenbergTransformer struct {
 	householderVectors         [][]float64
 	ort                        []float64
 	cachedP, cachedPt, cachedH RealMatrix
+	mu                         sync.Mutex // guards the cached matrices
 }
 
 /**
@@ -65,6 +67,9 @@ func NewHessenbergTransformer(matrix RealMatrix) (*HessenbergTransformer, error)
  * P is an orthogonal matrix, i.e. its inverse is also its transpose.
  */
 func (hs *HessenbergTransformer) P() RealMatrix {
+	hs.mu.Lock()
+	defer hs.mu.Unlock()
+
 	if hs.cachedP == nil {
 		n := len(hs.householderVectors)
 		high := n - 1
@@ -117,8 +122,12 @@ func (hs *HessenbergTransformer) P() RealMatrix {
  * P is an orthogonal matrix, i.e. its inverse is also its transpose.
  */
 func (hs *HessenbergTransformer) PT() RealMatrix {
+	p := hs.P()
+	hs.mu.Lock()
+	defer hs.mu.Unlock()
+
 	if hs.cachedPt == nil {
-		hs.cachedPt = hs.P().Transpose()
+		hs.cachedPt = p.Transpose()
 	}
 
 	// return the cached matrix
@@ -129,6 +138,9 @@ func (hs *HessenbergTransformer) PT() RealMatrix {
  * Returns the Hessenberg matrix H of the transform.
  */
 func (hs *HessenbergTransformer) H() RealMatrix {
+	hs.mu.Lock()
+	defer hs.mu.Unlock()
+
 	if hs.cachedH == nil {
 		m := len(hs.householderVectors)
 		h := make([][]float64, m)
diff --git a/lu_decomposition.go b/lu_decomposition.go
index 49e8392..c2950b4 100644
--- a/lu_decomposition.go
+++ b/lu_decomposition.go
@@ -18,6 +18,7 @@ package linear
 
 import (
 	"math"
+	"sync"
 )
 
 const (
@@ -40,6 +41,7 @@ type LUDecomposition struct {
 	pivot                     []int
 	even, singular            bool
 	cachedL, cachedU, cachedP RealMatrix
+	mu                        sync.Mutex // guards the cached matrices
 }
 
 /**
@@ -139,6 +141,9 @@ func NewLUDecompositionWithThreshold(matrix RealMatrix, singularityThreshold flo
  * L is a lower-triangular matrix
  */
 func (lud *LUDecomposition) L() RealMatrix {
+	lud.mu.Lock()
+	defer lud.mu.Unlock()
+
 	if (lud.cachedL == nil) && !lud.singular {
 		m := len(lud.pivot)
 		var err error
@@ -164,6 +169,9 @@ func (lud *LUDecomposition) L() RealMatrix {
  * @return the U matrix (or null if decomposed matrix is singular)
  */
 func (lud *LUDecomposition) U() RealMatrix {
+	lud.mu.Lock()
+	defer lud.mu.Unlock()
+
 	if (lud.cachedU == nil) && !lud.singular {
 		m := len(lud.pivot)
 		var err error
@@ -189,6 +197,9 @@ func (lud *LUDecomposition) U() RealMatrix {
  * pivot permutation vector}.
  */
 func (lud *LUDecomposition) P() RealMatrix {
+	lud.mu.Lock()
+	defer lud.mu.Unlock()
+
 	if (lud.cachedP == nil) && !lud.singular {
 		m := len(lud.pivot)
 		var err error
diff --git a/qr_decomposition.go b/qr_decomposition.go
index 51a6236..5e4f2a4 100644
--- a/qr_decomposition.go
+++ b/qr_decomposition.go
@@ -18,6 +18,7 @@ package linear
 
 import (
 	"math"
+	"sync"
 )
 
 /**
@@ -40,6 +41,7 @@ type QRDecomposition struct {
 	qrt                                 [][]float64
 	rDiag                               []float64
 	cachedQ, cachedQT, cachedR, cachedH RealMatrix
+	mu                                  sync.Mutex // guards the cached matrices
 	threshold                           float64
 }
 
@@ -144,6 +146,8 @@ func (qrd *QRDecomposition) performHouseholderReflection(minor int, matrix [][]f
  * R is an upper-triangular matrix
  */
 func (qrd *QRDecomposition) R() RealMatrix {
+	qrd.mu.Lock()
+	defer qrd.mu.Unlock()
 
 	if qrd.cachedR == nil {
 
@@ -177,8 +181,12 @@ func (qrd *QRDecomposition) R() RealMatrix {
  * Q is an orthogonal matrix
  */
 func (qrd *QRDecomposition) Q() RealMatrix {
+	qT := qrd.QT()
+	qrd.mu.Lock()
+	defer qrd.mu.Unlock()
+
 	if qrd.cachedQ == nil {
-		qrd.cachedQ = qrd.QT().Transpose()
+		qrd.cachedQ = qT.Transpose()
 	}
 
 	return qrd.cachedQ
@@ -189,6 +197,9 @@ func (qrd *QRDecomposition) Q() RealMatrix {
  * Q is an orthogonal matrix
  */
 func (qrd *QRDecomposition) QT() RealMatrix {
+	qrd.mu.Lock()
+	defer qrd.mu.Unlock()
+
 	if qrd.cachedQT == nil {
 
 		// QT is supposed to be m x m
@@ -243,6 +254,9 @@ func (qrd *QRDecomposition) QT() RealMatrix {
  * to compute Q.
  */
 func (qrd *QRDecomposition) H() RealMatrix {
+	qrd.mu.Lock()
+	defer qrd.mu.Unlock()
+
 	if qrd.cachedH == nil {
 
 		n := len(qrd.qrt)
diff --git a/rrqr_decomposition.go b/rrqr_decomposition.go
index 8f41325..52269c6 100644
--- a/rrqr_decomposition.go
+++ b/rrqr_decomposition.go
@@ -100,6 +100,9 @@ func (rrqrd *RRQRDecomposition) performHouseholderReflection(minor int, qrt [][]
  * If no pivoting is used in this decomposition then P is equal to the identity matrix.
  */
 func (rrqrd *RRQRDecomposition) P() RealMatrix {
+	rrqrd.mu.Lock()
+	defer rrqrd.mu.Unlock()
+
 	if rrqrd.cachedP == nil {
 		n := len(rrqrd.p)
 		var err error
diff --git a/schur_transformer.go b/schur_transformer.go
index dd0d27e..104b3f1 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -18,6 +18,7 @@ package linear
 
 import (
 	"math"
+	"sync"
 )
 
 var (
@@ -39,6 +40,7 @@ var (
 type SchurTransformer struct {
 	matrixP, matrixT           [][]float64
 	cachedP, cachedT, cachedPt RealMatrix
+	mu                         sync.Mutex // guards the cached matrices
 }
 
 func NewSchurTransformer(matrix RealMatrix) (*SchurTransformer, error) {
@@ -64,6 +66,9 @@ func NewSchurTransformer(matrix RealMatrix) (*SchurTransformer, error) {
  * P is an orthogonal matrix, i.e. its inverse is also its transpose.
  */
 func (st *SchurTransformer) P() RealMatrix {
+	st.mu.Lock()
+	defer st.mu.Unlock()
+
 	if st.cachedP == nil {
 		mat, err := NewRealMatrixFromSlices(st.matrixP)
 		if err != nil {
@@ -80,8 +85,12 @@ func (st *SchurTransformer) P() RealMatrix {
  * P is an orthogonal matrix, i.e. its inverse is also its transpose.
  */
 func (st *SchurTransformer) PT() RealMatrix {
+	p := st.P()
+	st.mu.Lock()
+	defer st.mu.Unlock()
+
 	if st.cachedPt == nil {
-		st.cachedPt = st.P().Transpose()
+		st.cachedPt = p.Transpose()
 	}
 
 	// return the cached matrix
@@ -94,6 +103,9 @@ func (st *SchurTransformer) PT() RealMatrix {
  * @return the T matrix
  */
 func (st *SchurTransformer) T() RealMatrix {
+	st.mu.Lock()
+	defer st.mu.Unlock()
+
 	if st.cachedT == nil {
 		mat, err := NewRealMatrixFromSlices(st.matrixT)
 		if err != nil {
diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index daaa1ba..ca88420 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -18,6 +18,7 @@ package linear
 
 import (
 	"math"
+	"sync"
 )
 
 const (
@@ -42,6 +43,7 @@ type SingularValueDecomposition struct {
 	transposed                                    bool
 	cachedU, cachedUt, cachedS, cachedV, cachedVt RealMatrix
 	tol                                           float64
+	mu                                            sync.Mutex // guards the cached matrices
 }
 
 func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecomposition, err error) {
@@ -485,6 +487,9 @@ func (svd *SingularValueDecomposition) U() RealMatrix {
  * U is an orthogonal matrix, i.e. its transpose is also its inverse.
  */
 func (svd *SingularValueDecomposition) UT() RealMatrix {
+	svd.mu.Lock()
+	defer svd.mu.Unlock()
+
 	if svd.cachedUt == nil {
 		svd.cachedUt = svd.U().Transpose()
 	}
@@ -498,6 +503,9 @@ func (svd *SingularValueDecomposition) UT() RealMatrix {
  * non-increasing order, for compatibility with Jama.
  */
 func (svd *SingularValueDecomposition) S() RealMatrix {
+	svd.mu.Lock()
+	defer svd.mu.Unlock()
+
 	if svd.cachedS == nil {
 		// cache the matrix for subsequent calls
 		var err error
@@ -532,6 +540,9 @@ func (svd *SingularValueDecomposition) V() RealMatrix {
  * V is an orthogonal matrix, i.e. its transpose is also its inverse.
  */
 func (svd *SingularValueDecomposition) VT() RealMatrix {
+	svd.mu.Lock()
+	defer svd.mu.Unlock()
+
 	if svd.cachedVt == nil {
 		svd.cachedVt = svd.V().Transpose()
 	}
diff --git a/tridiagonal_transformer.go b/tridiagonal_transformer.go
index 706164e..37c1a1c 100644
--- a/tridiagonal_transformer.go
+++ b/tridiagonal_transformer.go
@@ -18,6 +18,7 @@ package linear
 
 import (
 	"math"
+	"sync"
 )
 
 /**
@@ -37,6 +38,7 @@ type TriDiagonalTransformer struct {
 	householderVectors         [][]float64
 	main, secondary            []float64
 	cachedQ, cachedQt, cachedT RealMatrix
+	mu                         sync.Mutex // guards the cached matrices
 }
 
 /**
@@ -65,8 +67,12 @@ func NewTriDiagonalTransformer(matrix RealMatrix) (*TriDiagonalTransformer, erro
  * Q is an orthogonal matrix, i.e. its transpose is also its inverse.
  */
 func (tdf *TriDiagonalTransformer) Q() RealMatrix {
+	qT := tdf.QT()
+	tdf.mu.Lock()
+	defer tdf.mu.Unlock()
+
 	if tdf.cachedQ == nil {
-		tdf.cachedQ = tdf.QT().Transpose()
+		tdf.cachedQ = qT.Transpose()
 	}
 	return tdf.cachedQ
 }
@@ -76,6 +82,9 @@ func (tdf *TriDiagonalTransformer) Q() RealMatrix {
  * Q is an orthogonal matrix, i.e. its transpose is also its inverse.
  */
 func (tdf *TriDiagonalTransformer) QT() RealMatrix {
+	tdf.mu.Lock()
+	defer tdf.mu.Unlock()
+
 	if tdf.cachedQt == nil {
 		m := len(tdf.householderVectors)
 		qta := make([][]float64, m)
@@ -123,6 +132,9 @@ func (tdf *TriDiagonalTransformer) QT() RealMatrix {
  * Returns the tridiagonal matrix T of the transform.
  */
 func (tdf *TriDiagonalTransformer) T() RealMatrix {
+	tdf.mu.Lock()
+	defer tdf.mu.Unlock()
+
 	if tdf.cachedT == nil {
 		m := len(tdf.main)
 		ta := make([][]float64, m)
-- 
2.43.0


From 0295c979d4c1f81248918ce42e311df4dd4550f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 17/42] fix: NewSchurTransformer returns the convergence
 failure as an error

It panicked although it (and the eigen decomposition built on it) has an error
result, as the symmetric case uses.
---
 schur_transformer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 104b3f1..e1128de 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -57,7 +57,9 @@ func NewSchurTransformer(matrix RealMatrix) (*SchurTransformer, error) {
 	ans.matrixP = transformer.P().Data()
 
 	// transform matrix
-	ans.transform()
+	if err := ans.transform(); err != nil {
+		return nil, err
+	}
 	return ans, nil
 }
 
@@ -122,7 +124,7 @@ func (st *SchurTransformer) T() RealMatrix {
 /**
  * Transform original matrix to Schur form.
  */
-func (st *SchurTransformer) transform() {
+func (st *SchurTransformer) transform() error {
 	n := len(st.matrixT)
 
 	// compute matrix norm
@@ -197,7 +199,7 @@ func (st *SchurTransformer) transform() {
 			// stop transformation after too many iterations
 			iteration++
 			if iteration > max_iter_st {
-				panic(maxIterationErrorf(convergence_failed, max_iter_st))
+				return maxIterationErrorf(convergence_failed, max_iter_st)
 			}
 
 			// the initial houseHolder vector for the QR step
@@ -207,6 +209,8 @@ func (st *SchurTransformer) transform() {
 			st.performDoubleQRStep(il, im, iu, shift, hVec)
 		}
 	}
+
+	return nil
 }
 
 /**
-- 
2.43.0


From 741069cb2d438c4801bbca7ce3cfc181c2e1737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 18/42] fix: the Schur form has zeros where two real
 eigenvalues were separated

The sub-diagonal entries were left with their round-off errors, and the eigen
decomposition, which compares them to 1e-12 whatever the scale of the matrix,
then reported real eigenvalues as a complex pair.
---
 schur_transformer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/schur_transformer.go b/schur_transformer.go
index e1128de..c8c8218 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -140,6 +140,10 @@ func (st *SchurTransformer) transform() error {
 
 		// Look for single small sub-diagonal element
 		il := st.findSmallSubDiagonalElement(iu, norm)
+		if il > 0 {
+			// it is negligible
+			st.matrixT[il][il-1] = 0.
+		}
 
 		// Check for convergence
 		if il == iu {
@@ -189,6 +193,9 @@ func (st *SchurTransformer) transform() error {
 					st.matrixP[i][iu-1] = q*z + p*st.matrixP[i][iu]
 					st.matrixP[i][iu] = q*st.matrixP[i][iu] - p*z
 				}
+
+				// the rotation makes the block triangular, up to round-off errors
+				st.matrixT[iu][iu-1] = 0.
 			}
 			iu -= 2
 			iteration = 0
-- 
2.43.0


From 650fad27c07b6ea3f907fd64d4a863a80a79dbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:06 +0000
Subject: [PATCH 19/42] fix: CopySubMatrixFromIndices checks every destination
 row before writing to the first

---
 real_matrix.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/real_matrix.go b/real_matrix.go
index 8a0f825..43d8ae0 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -432,11 +432,14 @@ func CopySubMatrixFromIndices(m RealMatrix, selectedRows, selectedColumns []int,
 		panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), len(selectedRows), len(selectedColumns)))
 	}
 
+	for i := 1; i < len(selectedRows); i++ {
+		if len(destination[i]) < nCols {
+			panic(matrixDimensionMismatchErrorf(len(destination), len(destination[i]), len(selectedRows), len(selectedColumns)))
+		}
+	}
+
 	for i := 0; i < len(selectedRows); i++ {
 		destinationI := destination[i]
-		if len(destinationI) < nCols {
-			panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), len(selectedRows), len(selectedColumns)))
-		}
 		for j := 0; j < len(selectedColumns); j++ {
 			destinationI[j] = m.At(selectedRows[i], selectedColumns[j])
 		}
-- 
2.43.0


From d82530c4336387f94a40f1efbc9288aaadbab80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:06 +0000
Subject: [PATCH 20/42] fix: SetSubMatrix rejects ragged data before giving a
 matrix without data its dimensions

---
 array_2d_row_real_matrix.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index a66c21b..6edd1e1 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -299,6 +299,12 @@ func (a2drrm *Array2DRowRealMatrix) SetSubMatrix(subMatrix [][]float64, row, col
 			panic(mathIllegalStateErrorf(first_columns_not_initialized_yet, column))
 		}
 
+		for i := 0; i < nRows; i++ {
+			if len(subMatrix[i]) != nCols {
+				panic(dimensionsMismatchSimpleErrorf(len(subMatrix[i]), nCols))
+			}
+		}
+
 		a2drrm.data = make([][]float64, len(subMatrix))
 
 		for i := 0; i < nRows; i++ {
@@ -306,10 +312,6 @@ func (a2drrm *Array2DRowRealMatrix) SetSubMatrix(subMatrix [][]float64, row, col
 		}
 
 		for i := 0; i < len(a2drrm.data); i++ {
-			if len(subMatrix[i]) != nCols {
-				panic(dimensionsMismatchSimpleErrorf(len(subMatrix[i]), nCols))
-			}
-
 			copy(a2drrm.data[i+row][column:column+nCols], subMatrix[i][0:nCols])
 		}
 	} else {
-- 
2.43.0


From 9cf6161f6489890b3ddb5d54b85f47deff2f729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:06 +0000
Subject: [PATCH 21/42] fix: NewArray2DRowRealMatrixFromSlice rejects an empty
 slice

---
 array_2d_row_real_matrix.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 6edd1e1..5e99b76 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -69,8 +69,12 @@ func NewArray2DRowRealMatrixFromSlice(v []float64) (*Array2DRowRealMatrix, error
 		return nil, invalidArgumentSimpleErrorf()
 	}
 
-	ans := new(Array2DRowRealMatrix)
 	nRows := len(v)
+	if nRows == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
+
+	ans := new(Array2DRowRealMatrix)
 	ans.data = make([][]float64, nRows)
 
 	for i := 0; i < nRows; i++ {
-- 
2.43.0


From d33f3c6064a259fb09b780db7821cf62c7a503ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:06 +0000
Subject: [PATCH 22/42] fix: NewBlockRealMatrixFromBlockData rejects a wrong
 number of blocks

---
 block_real_matrix.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index dc9dd0c..e08da07 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -98,6 +98,10 @@ func NewBlockRealMatrixFromBlockData(rows, columns int, blockData [][]float64) (
 	ans.blockRows = (rows + BLOCK_SIZE - 1) / BLOCK_SIZE
 	ans.blockColumns = (columns + BLOCK_SIZE - 1) / BLOCK_SIZE
 
+	if len(blockData) != ans.blockRows*ans.blockColumns {
+		return nil, dimensionsMismatchSimpleErrorf(len(blockData), ans.blockRows*ans.blockColumns)
+	}
+
 	ans.blocks = blockData
 
 	var index int
-- 
2.43.0


From 270f2d5a3eb458a79ec58e15c059ba3b96968fcf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 23/42] fix: Cholesky decomposition rejects matrices whose
 pivots are not numbers

---
 cholesky_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cholesky_decomposition.go b/cholesky_decomposition.go
index 692ca3a..0e8a05b 100644
--- a/cholesky_decomposition.go
+++ b/cholesky_decomposition.go
@@ -101,7 +101,7 @@ func NewCholeskyDecomposition(matrix RealMatrix, relativeSymmetryThreshold, abso
 		ltI := ans.lTData[i]
 
 		// check diagonal element
-		if ltI[i] <= absolutePositivityThreshold {
+		if !(ltI[i] > absolutePositivityThreshold) {
 			return nil, nonPositiveDefiniteMatrixErrorf(ltI[i], i, absolutePositivityThreshold)
 		}
 
-- 
2.43.0


From 3e502b37d15d193839c601cdff26d9d4a3ad3740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 24/42] fix: Schur form of a zero block was not a number

The deflation test compared the sub-diagonal entry with eps*s strictly, so
that a vanishing entry was not negligible when s vanishes too (the zero
matrix): both roots were then split by a rotation 0/0.
---
 schur_transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index c8c8218..36b2153 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -244,7 +244,7 @@ func (st *SchurTransformer) findSmallSubDiagonalElement(startIdx int, norm float
 		if s == 0.0 {
 			s = norm
 		}
-		if math.Abs(st.matrixT[l][l-1]) < doubleeps*s {
+		if math.Abs(st.matrixT[l][l-1]) <= doubleeps*s {
 			break
 		}
 		l--
-- 
2.43.0


From e44e5c73ec485b0809abee7c5d1c4bafc0c45f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:43 +0000
Subject: [PATCH 25/42] fix: QR of some rank-deficient matrices had a Q that
 was not orthogonal

Each step leaves rounding errors 1e-16 times smaller than the last in the
dependent columns. Once their squares were subnormal, the reflection made of
them lost all precision, and Q, R and P contained NaN from about 20 columns
on. Such a column is negligible: it is not reflected any more.
---
 qr_decomposition.go | 5 +++++
 utils.go            | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/qr_decomposition.go b/qr_decomposition.go
index 5e4f2a4..a7fb722 100644
--- a/qr_decomposition.go
+++ b/qr_decomposition.go
@@ -94,6 +94,11 @@ func (qrd *QRDecomposition) performHouseholderReflection(minor int, matrix [][]f
 		c := qrtMinor[row]
 		xNormSqr += c * c
 	}
+	if xNormSqr < smallest_normal {
+		// the square is not held precisely enough to make a reflection of it
+		xNormSqr = 0
+		qrtMinor[minor] = 0
+	}
 	a := math.Sqrt(xNormSqr)
 	if qrtMinor[minor] > 0 {
 		a *= -1
diff --git a/utils.go b/utils.go
index 458d2b3..ca0a42d 100644
--- a/utils.go
+++ b/utils.go
@@ -23,6 +23,8 @@ import (
 
 const (
 	sgn_mask_float = 1 << 63
+	// the smallest positive number that is held with full precision
+	smallest_normal = 2.2250738585072014e-308
 )
 
 var (
-- 
2.43.0


From dc78d065d78ddfa0e9944cd01f179a4586fba68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:45 +0000
Subject: [PATCH 26/42] fix: bidiagonal form of rank-deficient matrices
 consisted of NaN

From about a dozen dependent columns on, the rounding errors left in them
become so small that their squares are subnormal or vanish, and the factors
U and V were computed by dividing by that. Such a column is negligible.
---
 bidiagonal_transformer.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/bidiagonal_transformer.go b/bidiagonal_transformer.go
index a76489d..85125f6 100644
--- a/bidiagonal_transformer.go
+++ b/bidiagonal_transformer.go
@@ -209,6 +209,11 @@ func (bdt *BiDiagonalTransformer) transformToUpperBiDiagonal() {
 			xNormSqr += c * c
 		}
 		hK := bdt.householderVectors[k]
+		if xNormSqr < smallest_normal {
+			// the square is not held precisely enough to make a reflection of it
+			xNormSqr = 0
+			hK[k] = 0
+		}
 		var a float64
 		if hK[k] > 0 {
 			a = -math.Sqrt(xNormSqr)
@@ -240,6 +245,10 @@ func (bdt *BiDiagonalTransformer) transformToUpperBiDiagonal() {
 				c := hK[j]
 				xNormSqr += c * c
 			}
+			if xNormSqr < smallest_normal {
+				xNormSqr = 0
+				hK[k+1] = 0
+			}
 			var b float64
 			if hK[k+1] > 0 {
 				b = -math.Sqrt(xNormSqr)
@@ -276,6 +285,11 @@ func (bdt *BiDiagonalTransformer) transformToLowerBiDiagonal() {
 			c := hK[j]
 			xNormSqr += c * c
 		}
+		if xNormSqr < smallest_normal {
+			// the square is not held precisely enough to make a reflection of it
+			xNormSqr = 0
+			hK[k] = 0
+		}
 		var a float64
 		if hK[k] > 0 {
 			a = -math.Sqrt(xNormSqr)
@@ -306,6 +320,10 @@ func (bdt *BiDiagonalTransformer) transformToLowerBiDiagonal() {
 				c := bdt.householderVectors[i][k]
 				xNormSqr += c * c
 			}
+			if xNormSqr < smallest_normal {
+				xNormSqr = 0
+				hKp1[k] = 0
+			}
 			var b float64
 			if hKp1[k] > 0 {
 				b = -math.Sqrt(xNormSqr)
-- 
2.43.0


From 158bf5594fe0d69807b23157e5ae0384e7efdd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:48 +0000
Subject: [PATCH 27/42] fix: tridiagonal form of a matrix with negligible
 entries was not a number

Off-diagonal entries around 1e-160 have a square that is subnormal; dividing
by it gave NaN for the whole transform, and for the eigen decomposition.
---
 tridiagonal_transformer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tridiagonal_transformer.go b/tridiagonal_transformer.go
index 37c1a1c..a1b911b 100644
--- a/tridiagonal_transformer.go
+++ b/tridiagonal_transformer.go
@@ -206,6 +206,11 @@ func (tdf *TriDiagonalTransformer) transform() {
 			xNormSqr += c * c
 		}
 
+		if xNormSqr < smallest_normal {
+			// the square is not held precisely enough to make a reflection of it
+			xNormSqr = 0
+			hK[k+1] = 0
+		}
 		a := math.Sqrt(xNormSqr)
 		if hK[k+1] > 0 {
 			a *= -1
-- 
2.43.0


From 67805463e8085fc89e2b2e71172839fe3b873500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:51 +0000
Subject: [PATCH 28/42] fix: Hessenberg form of rank-deficient matrices
 consisted of NaN

From about 30 dependent columns on, the entries left by rounding errors are
subnormal, and P was computed by dividing by a component that was skipped.
---
 hessenberg_transformer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hessenberg_transformer.go b/hessenberg_transformer.go
index c20c535..e9934aa 100644
--- a/hessenberg_transformer.go
+++ b/hessenberg_transformer.go
@@ -193,7 +193,10 @@ func (hs *HessenbergTransformer) transform() {
 			scale += math.Abs(hs.householderVectors[i][m-1])
 		}
 
-		if !equals(scale, 0) {
+		if scale < smallest_normal {
+			// too small to make a reflection of it
+			hs.householderVectors[m][m-1] = 0
+		} else {
 			// Compute Householder transformation.
 			h := 0.
 			for i := high; i >= m; i-- {
-- 
2.43.0


From bd093f6d76621f7eb233c4175f97fa757197b3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:54 +0000
Subject: [PATCH 29/42] fix: singular vectors of rank-deficient matrices were
 not orthonormal

From about 24 dependent columns on, the entries left by rounding errors are
subnormal, and a vector of such entries cannot be normalised: U and V were
wrong by orders of magnitude. Such a vector is negligible.
---
 singular_value_decomposition.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index ca88420..3e99ba7 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -87,6 +87,10 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 			for i := k; i < m; i++ {
 				ans.singularValues[k] = math.Hypot(ans.singularValues[k], A[i][k])
 			}
+			if ans.singularValues[k] < smallest_normal {
+				// too small to be normalised precisely
+				ans.singularValues[k] = 0
+			}
 			if ans.singularValues[k] != 0 {
 				if A[k][k] < 0 {
 					ans.singularValues[k] = -ans.singularValues[k]
@@ -129,6 +133,9 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 			for i := k + 1; i < n; i++ {
 				e[k] = math.Hypot(e[k], e[i])
 			}
+			if e[k] < smallest_normal {
+				e[k] = 0
+			}
 			if e[k] != 0 {
 				if e[k+1] < 0 {
 					e[k] = -e[k]
-- 
2.43.0


From 3edd8df449f664e45d22384152c47ff6954ef819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:19 +0000
Subject: [PATCH 30/42] fix: leave room for both divisions when a Hessenberg
 reflection is undone

P divides by the scale twice, which overflows for scales next to the smallest
normal number.
---
 hessenberg_transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hessenberg_transformer.go b/hessenberg_transformer.go
index e9934aa..8a0634a 100644
--- a/hessenberg_transformer.go
+++ b/hessenberg_transformer.go
@@ -193,7 +193,7 @@ func (hs *HessenbergTransformer) transform() {
 			scale += math.Abs(hs.householderVectors[i][m-1])
 		}
 
-		if scale < smallest_normal {
+		if scale < smallest_normal/doubleeps {
 			// too small to make a reflection of it
 			hs.householderVectors[m][m-1] = 0
 		} else {
-- 
2.43.0


From fce51591f3246d52e12c862d54b18cfa6faad470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:19 +0000
Subject: [PATCH 31/42] fix: Schur reflections of tiny entries were not
 orthogonal, or left out

The first vector of a step was not normalised (JAMA does it), so that its
square could be subnormal and P lost its orthogonality. The later vectors of a
step were skipped below an absolute 1e-16, which cut off the chase for small
entries: P T PT was not the matrix, or the iteration did not converge.
---
 schur_transformer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 36b2153..e510d57 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -352,12 +352,18 @@ func (st *SchurTransformer) performDoubleQRStep(il, im, iu int, shift *ShiftInfo
 			}
 
 			shift.x = math.Abs(p) + math.Abs(q) + math.Abs(r)
-			if equalsWithError(shift.x, 0.0, doubleeps) {
+			if shift.x == 0.0 {
 				continue
 			}
 			p /= shift.x
 			q /= shift.x
 			r /= shift.x
+		} else if x := math.Abs(p) + math.Abs(q) + math.Abs(r); x != 0.0 {
+			// the reflection does not depend on the length of the vector,
+			// but its square has to be in range
+			p /= x
+			q /= x
+			r /= x
 		}
 		s := math.Sqrt(p*p + q*q + r*r)
 		if p < 0.0 {
-- 
2.43.0


From a70a1327ecd2d87a5a67d8dd5a7a624dbeeb5513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:19 +0000
Subject: [PATCH 32/42] fix: plane rotations of subnormal entries were not
 orthogonal in the SVD

cs and sn were taken from subnormal numbers, so that singular vectors of
strongly graded bidiagonal forms (low rank, from 48 columns on) were not
orthonormal.
---
 singular_value_decomposition.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index 3e99ba7..dd537b3 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -310,9 +310,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 				f := e[p-2]
 				e[p-2] = 0
 				for j := p - 2; j >= k; j-- {
-					t := math.Hypot(ans.singularValues[j], f)
-					cs := ans.singularValues[j] / t
-					sn := f / t
+					t, cs, sn := rotation(ans.singularValues[j], f)
 					ans.singularValues[j] = t
 					if j != k {
 						f = -sn * e[j-1]
@@ -333,9 +331,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 				f := e[k-1]
 				e[k-1] = 0
 				for j := k; j < p; j++ {
-					t := math.Hypot(ans.singularValues[j], f)
-					cs := ans.singularValues[j] / t
-					sn := f / t
+					t, cs, sn := rotation(ans.singularValues[j], f)
 					ans.singularValues[j] = t
 					f = -sn * e[j]
 					e[j] = cs * e[j]
@@ -373,9 +369,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 				g := sk * ek
 				// Chase zeros.
 				for j := k; j < p-1; j++ {
-					t := math.Hypot(f, g)
-					cs := f / t
-					sn := g / t
+					t, cs, sn := rotation(f, g)
 					if j != k {
 						e[j-1] = t
 					}
@@ -389,9 +383,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 						V[i][j+1] = -sn*V[i][j] + cs*V[i][j+1]
 						V[i][j] = t
 					}
-					t = math.Hypot(f, g)
-					cs = f / t
-					sn = g / t
+					t, cs, sn = rotation(f, g)
 					ans.singularValues[j] = t
 					f = cs*e[j] + sn*ans.singularValues[j+1]
 					ans.singularValues[j+1] = -sn*e[j] + cs*ans.singularValues[j+1]
@@ -698,3 +690,20 @@ func (svds *svDecompositionSolver) IsNonSingular() bool {
 func (svds *svDecompositionSolver) Inverse() RealMatrix {
 	return svds.pseudoInverse.Copy()
 }
+
+/**
+ * Gives the plane rotation that turns (f, g) into (t, 0).
+ */
+func rotation(f, g float64) (t, cs, sn float64) {
+	t = math.Hypot(f, g)
+	if t < smallest_normal {
+		// take cs and sn from numbers that are held with full precision
+		f, g = math.Ldexp(f, 600), math.Ldexp(g, 600)
+		h := math.Hypot(f, g)
+		if h == 0 {
+			return 0, 1, 0
+		}
+		return t, f / h, g / h
+	}
+	return t, f / t, g / t
+}
-- 
2.43.0


From f72f7641af10c3243acc5d3a076711e05e8654e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 33/42] fix: expand the arguments of error messages

The variadic arguments were passed on as one slice, so messages read
"5 != [6]" or ended in %!(EXTRA ...).
---
 error.go            | 13 +++++++------
 qr_decomposition.go |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/error.go b/error.go
index 760939f..b4852bb 100644
--- a/error.go
+++ b/error.go
@@ -41,8 +41,9 @@ const (
 	dimensions_mismatch                   = "dimensions mismatch"
 	no_data                               = "no data"
 	out_of_range_simple                   = "%v out of [%v, %v] range"
-	index                                 = "index (%v)"
-	number_of_elements_should_be_positive = "number of elements should be positive (%v)"
+	index                                 = "index (%v) out of [%v, %v] range"
+	at_index                              = "index (%v)"
+	number_of_elements_should_be_positive = "number of elements should be positive (%[1]v)"
 	initial_row_after_final_row           = "initial row %v after final row %v"
 	initial_column_after_final_column     = "initial column %v after final column %v"
 	number_too_small                      = "%v is smaller than the minimum (%v)"
@@ -51,8 +52,8 @@ const (
 	number_too_large_bound_excluded       = "%v is larger than, or equal to, the maximum (%v)"
 	empty_selected_column_index_array     = "empty selected column index array"
 	empty_selected_row_index_array        = "empty selected row index array"
-	row_index                             = "row index (%v)"
-	column_index                          = "column index ((%v)"
+	row_index                             = "row index (%v) out of [%v, %v] range"
+	column_index                          = "column index (%v) out of [%v, %v] range"
 	illegal_state                         = "illegal state"
 	first_rows_not_initialized_yet        = "first %v rows are not initialized yet"
 	first_columns_not_initialized_yet     = "first %v columns are not initialized yet"
@@ -63,7 +64,7 @@ const (
 	non_symmetric_matrix                  = "non symmetric matrix: the difference between entries at (%v,%v) and (%v,%v) is larger than %v"
 	not_positive_definite_matrix          = "not positive definite matrix"
 	array_element                         = "value %v at index %v"
-	not_positive_exponent                 = "invalid exponent %v (must be positive)"
+	not_positive_exponent                 = "invalid exponent %[1]v (must be positive)"
 	singular_matrix                       = "matrix is singular"
 	unsupported_operation                 = "unsupported operation"
 	convergence_failed                    = "convergence failed"
@@ -491,7 +492,7 @@ func (e mathIllegalNumberError) Argument() float64 {
 
 func mathIllegalNumberErrorf(pattern string, wrong float64, arguments ...interface{}) mathIllegalNumberError {
 	ret := mathIllegalNumberError{argument: wrong}
-	ret.mathIllegalArgumentError = mathIllegalArgumentErrorf(pattern, wrong, arguments)
+	ret.mathIllegalArgumentError = mathIllegalArgumentErrorf(pattern, append([]interface{}{wrong}, arguments...)...)
 	return ret
 }
 
diff --git a/qr_decomposition.go b/qr_decomposition.go
index a7fb722..bdaf933 100644
--- a/qr_decomposition.go
+++ b/qr_decomposition.go
@@ -315,7 +315,7 @@ func checkSingular(diag []float64, min float64, raise bool) bool {
 		d := diag[i]
 		if math.Abs(d) <= min {
 			if raise {
-				panic(singularMatrixErrorf(singular_matrix+" : "+number_too_small+" : "+index, d, min, i))
+				panic(singularMatrixErrorf(singular_matrix+" : "+number_too_small+" : "+at_index, d, min, i))
 			} else {
 				return true
 			}
-- 
2.43.0


From 2ec62616a6a84b1463ecb3e5c66371a310329103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 34/42] fix: name initial and final index the right way round

---
 error.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/error.go b/error.go
index b4852bb..b637ccc 100644
--- a/error.go
+++ b/error.go
@@ -44,8 +44,8 @@ const (
 	index                                 = "index (%v) out of [%v, %v] range"
 	at_index                              = "index (%v)"
 	number_of_elements_should_be_positive = "number of elements should be positive (%[1]v)"
-	initial_row_after_final_row           = "initial row %v after final row %v"
-	initial_column_after_final_column     = "initial column %v after final column %v"
+	initial_row_after_final_row           = "initial row %[2]v after final row %[1]v"
+	initial_column_after_final_column     = "initial column %[2]v after final column %[1]v"
 	number_too_small                      = "%v is smaller than the minimum (%v)"
 	number_too_small_bound_excluded       = "%v is smaller than, or equal to, the minimum (%v)"
 	number_too_large                      = "%v is larger than the maximum (%v)"
-- 
2.43.0


From 803e05ae7ab85b6016641b2c5f38096111e2a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 35/42] fix: a strictly positive bound excludes zero

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index b637ccc..595efb4 100644
--- a/error.go
+++ b/error.go
@@ -320,7 +320,7 @@ func (e notStrictlyPositiveError) Status() int {
 
 func notStrictlyPositiveErrorf(number float64) notStrictlyPositiveError {
 	ret := notStrictlyPositiveError{}
-	ret.numberIsTooSmallError = numberIsTooSmallBoundedErrorf(number, 0, true)
+	ret.numberIsTooSmallError = numberIsTooSmallBoundedErrorf(number, 0, false)
 	return ret
 }
 
-- 
2.43.0


From 24ac435a70d002347228f8d9e2b129598c49cc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 36/42] fix: keep the explanation added to an error

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 595efb4..80ade01 100644
--- a/error.go
+++ b/error.go
@@ -540,7 +540,7 @@ func (e mathError) Error() string {
 	return e.msg
 }
 
-func (e mathError) addMsg(msg string) {
+func (e *mathError) addMsg(msg string) {
 	e.msg += " : " + msg
 }
 
-- 
2.43.0


From 1f0126a7ca6910d7b57b8253ea9362a56ce9fa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 37/42] fix: format the message of a too large cut-off

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 80ade01..5694080 100644
--- a/error.go
+++ b/error.go
@@ -69,7 +69,7 @@ const (
 	unsupported_operation                 = "unsupported operation"
 	convergence_failed                    = "convergence failed"
 	max_count_exceeded                    = "maximal count (%d) exceeded"
-	too_large_cutoff_singular_value       = "cutoff singular value is {0}, should be at most {1}"
+	too_large_cutoff_singular_value       = "cutoff singular value is %v, should be at most %v"
 )
 
 type maxIterationError struct {
-- 
2.43.0


From c3f7bd9db182aacb5033c4a59c3b1adec0efd9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 38/42] fix: report the shape of a wrong column vector

---
 array_2d_row_real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 5e99b76..a4ee0c3 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -806,7 +806,7 @@ func (a2drrm *Array2DRowRealMatrix) SetColumnVector(column int, vec RealVector)
 	}
 	nRows := a2drrm.RowDimension()
 	if vec.Dimension() != nRows {
-		panic(matrixDimensionMismatchErrorf(1, vec.Dimension(), nRows, 1))
+		panic(matrixDimensionMismatchErrorf(vec.Dimension(), 1, nRows, 1))
 
 	}
 	for i := 0; i < nRows; i++ {
-- 
2.43.0


From f2d9783421705ee6f8836bcf828f7c20b5a84149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 39/42] fix: report the row of a negative diagonal entry, not
 its pivot position

---
 rectangular_cholesky_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rectangular_cholesky_decomposition.go b/rectangular_cholesky_decomposition.go
index 3b02e29..71e3c07 100644
--- a/rectangular_cholesky_decomposition.go
+++ b/rectangular_cholesky_decomposition.go
@@ -77,7 +77,7 @@ func NewRectangularCholeskyDecompositionWithThreshold(matrix RealMatrix, small f
 				if c[index[i]][index[i]] < -small {
 					// there is at least one sufficiently negative diagonal element,
 					// the symmetric positive semidefinite matrix is wrong
-					return nil, nonPositiveDefiniteMatrixErrorf(c[index[i]][index[i]], i, small)
+					return nil, nonPositiveDefiniteMatrixErrorf(c[index[i]][index[i]], index[i], small)
 				}
 			}
 
-- 
2.43.0


From 6d37db0ac96032109aa74ec545e2a93f787977b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:50 +0000
Subject: [PATCH 40/42] fix: D of an eigen decomposition is cached only once it
 is complete

A decomposition of data that is not finite may end with a complex
eigenvalue whose partner lies outside the matrix. D() then panicked after
it had already stored the half-filled matrix, which the next call
returned as the answer.
---
 eigen_decomposition.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 9d7e636..09b5f78 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -165,20 +165,21 @@ func (ed *EigenDecomposition) D() RealMatrix {
 	defer ed.mu.Unlock()
 
 	if ed.cachedD == nil {
-		// cache the matrix for subsequent calls
-		var err error
-		ed.cachedD, err = NewRealMatrixWithDiagonal(ed.realEigenvalues)
+		d, err := NewRealMatrixWithDiagonal(ed.realEigenvalues)
 		if err != nil {
 			panic(err)
 		}
 
 		for i := 0; i < len(ed.imagEigenvalues); i++ {
 			if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) > 0 {
-				ed.cachedD.SetEntry(i, i+1, ed.imagEigenvalues[i])
+				d.SetEntry(i, i+1, ed.imagEigenvalues[i])
 			} else if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) < 0 {
-				ed.cachedD.SetEntry(i, i-1, ed.imagEigenvalues[i])
+				d.SetEntry(i, i-1, ed.imagEigenvalues[i])
 			}
 		}
+
+		// cache the complete matrix for subsequent calls
+		ed.cachedD = d
 	}
 	return ed.cachedD
 }
-- 
2.43.0


From 513c53fe1db1de476a0e8781e8cd545b97f6af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:40 +0000
Subject: [PATCH 41/42] fix: tridiagonal transform of rows just large enough to
 be squared

The Householder vector of a row whose square is barely a normal number makes
beta so large that gamma overflows, and Q and T become NaN. Move a power of
two from gamma to the vector, which is exact.
---
 tridiagonal_transformer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tridiagonal_transformer.go b/tridiagonal_transformer.go
index a1b911b..0bde45f 100644
--- a/tridiagonal_transformer.go
+++ b/tridiagonal_transformer.go
@@ -247,11 +247,17 @@ func (tdf *TriDiagonalTransformer) transform() {
 			for i := k + 1; i < m; i++ {
 				gamma += z[i] * hK[i]
 			}
-			gamma *= beta / 2
+			// the vector may be so small that gamma overflows, although gamma v does
+			// not: move a power of two, which is exact, from the one to the other
+			shift := 1.
+			if math.Abs(beta) > 1e150 {
+				shift = math.Ldexp(1, 512)
+			}
+			gamma *= beta / shift / 2
 
 			// compute z = z - gamma v
 			for i := k + 1; i < m; i++ {
-				z[i] -= gamma * hK[i]
+				z[i] -= gamma * (shift * hK[i])
 			}
 
 			// update matrix: A = A - v zT - z vT
-- 
2.43.0


From 2215ec2b525b39027bd34e6f00580b3631f19330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:18 +0000
Subject: [PATCH 42/42] fix: SetSubVector stores the entries of an array vector
 once, so that operands in the same slice are stored as they were

---
 array_real_vector.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/array_real_vector.go b/array_real_vector.go
index 49bf571..06d1068 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -455,6 +455,7 @@ func (arv *ArrayRealVector) SetSubVector(index int, vec RealVector) {
 
     if v, ok := vec.(*ArrayRealVector); ok {
         arv.SetSubVectorWithSlice(index, v.data)
+        return
     }
 
     for i := index; i < index+vec.Dimension(); i++ {
-- 
2.43.0

