import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,obs=None,hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=hook)))
MAT=["real_matrix.go","array_2d_row_real_matrix.go","block_real_matrix.go","diagonal_matrix.go"]
VEC=["real_vector.go","array_real_vector.go"]
p("C01","Matrix histories equal dense arithmetic, whatever the storage",
"Any history of accepted matrix operations (construction, reads and writes of entries, rows, columns and sub-matrices, sums, differences, scalar operations, products, pre-products, powers, operator application, transposes, traces, norms, copies, comparison), issued by any number of clients that take turns on each object, yields at every step exactly the values that plain dense arithmetic on the same history yields. This holds for every mix of storage (row array, 52x52 blocks, diagonal, a caller's own implementation of the interface) and every shape, including those at and around the block size and the storage switch-over. An operation documented to return a new object leaves its operands unchanged. All this also holds when the code of a caller's own operand or visitor itself makes read requests to the library in the middle of an operation.",
["histories","schedules","inputs","configurations"],
"for all operation histories, client interleavings, storage-class combinations and shapes (including block-edge shapes)",
"The tests apply one operation at a time to a handful of fixed small matrices, mostly row-array with row-array; they never run mixed-storage multi-operation histories, foreign operands or block-edge shapes for every operation.",
MAT,[("storage-specific fast paths and generic fallbacks for each operation","array_2d_row_real_matrix.go, block_real_matrix.go, diagonal_matrix.go"),("free functions over the interface","real_matrix.go")],
[dict(name="row array / blocks / diagonal",meaning="the entries",where="struct fields of the three storage classes")],["return values of every RealMatrix method","At(i,j) of every live object after each operation"])
p("C02","Vector histories equal a plain list model",
"Any history of accepted vector operations (construction, entry and sub-range reads and writes, append, map, combine, element-wise and linear operations, norms, distances, extrema, projection, unit vectors, copies, comparison, iteration) by any number of clients taking turns yields at every step exactly what the same history yields on plain lists of numbers. This holds when the other operand is a caller's own vector implementation as well as a built-in one. Only operations documented as in-place change a vector, and only the receiver; queries and operations that return a new vector change none of their operands. All this also holds when a caller's own operand, function or visitor makes read requests to the library in the middle of an operation.",
["histories","schedules","inputs","configurations"],
"for all operation histories, client interleavings, operand implementations and dimensions",
"The tests call each operation once on fixed 3- to 9-element vectors; they do not check operands afterwards, histories, or interleaved clients.",
VEC,[("type-switched fast path plus interface fallback","array_real_vector.go"),("free functions over iterators","real_vector.go")],None,["return values of RealVector methods and Vec* functions","At(i) of every live object after each operation"])
p("C03","Copies, results and snapshots never share storage",
"After any history, changing an object through its public operations changes no other object: copies, extracted rows, columns, sub-matrices and arrays, operation results, solver answers, and slices handed in to copying constructors or setters stay independent of it in both directions, and the memory behind a slice that was handed over is never written. A decomposition keeps answering for the data it was built from, whatever later happens to that input, to its right-hand sides or to the answers it returned. Only constructors asked not to copy and accessors documented as returning a reference or cached factor may share.",
["histories","schedules","inputs"],
"for all histories of creation, extraction, solving and mutation, and all interleavings of mutating clients",
"The tests check results right after creation and practically never mutate one side and re-read the other.",
MAT+VEC+["lu_decomposition.go","qr_decomposition.go","rrqr_decomposition.go","cholesky_decomposition.go","rectangular_cholesky_decomposition.go","eigen_decomposition.go","singular_value_decomposition.go"],
[("defensive copies in constructors, accessors and solvers","throughout")],None,["entries of every live object after each mutation","answers of every live decomposition after each mutation"])
p("C04","Rejected requests change nothing",
"A request whose indices, ranges, dimensions or values are not acceptable to the receiving object (out of range, inverted, empty, mismatched, ragged, or an entry the storage cannot hold) is rejected by a panic or an error, whichever storage class receives it. At every point of any history, a rejected request leaves the receiver, all arguments and all caller-supplied destination and visitor state exactly as before it. Every later request is answered as if the rejected one had never been made.",
["histories","fault_sequences","inputs"],
"for all histories with invalid requests injected at arbitrary points, over all operations and storage classes",
"The tests check that some invalid requests panic, but never what state is left behind, nor that every operation of every storage class rejects.",
MAT+VEC+["error.go"],[("index and dimension checks before mutation","error.go, and the first lines of each operation")],None,["entries of all objects after each rejected request"])
p("C05","Faults in caller code are contained",
"When caller-supplied code invoked during an operation (a visitor, a mapping function, or an element access or conversion of a caller's own matrix or vector) panics or ends its task at any invocation, then no operand other than an in-place receiver has changed, and each entry of an in-place receiver holds either its old value or the value the completed operation would have given it. No lock, cache or half-built result survives: the object and everything derived from it stay usable by this and other tasks, and repeating the operation without the fault gives the normal answer.",
["fault_sequences","crash_points","histories","schedules"],
"for all operations taking caller code, all invocation indices at which it fails, both ways of failing, and all later histories",
"No test makes a visitor, function or foreign operand fail in the middle of an operation.",
MAT+VEC+["lu_decomposition.go","qr_decomposition.go","cholesky_decomposition.go","singular_value_decomposition.go","eigen_decomposition.go"],
[("results assembled in fresh storage, published last","all operations"),("element-wise in-place update loops","walks, Map, Combine, Set*")],None,["entries of all objects after each fault","answers to later requests"])
p("C06","Walks follow the visitor protocol under any re-entrant use",
"Every walk calls the visitor's start once with the true dimensions and bounds, then visits every entry of the bounds exactly once with its position and its current value, then calls end once and returns its result; row-order and column-order walks keep exactly that order. A value returned by a changing visitor is what the entry holds from then on, and a preserving walk changes nothing. This holds on every storage class and for vectors, also while several walks over the same or different objects are interleaved and while the visitor itself reads or writes other entries.",
["histories","schedules","inputs","configurations"],
"for all walk kinds, bounds, storage classes, interleavings of several walks and re-entrant visitor actions",
"The tests use one visitor at a time over whole small matrices and check final values, not the event sequence, bounds on blocks, re-entrancy or interleaved walks.",
MAT+["real_matrix_visitor.go","real_vector_visitor.go","array_real_vector.go"],[("twelve walk methods per storage class, six per vector","Walk* methods")],None,["the recorded event sequence seen by each visitor"])
p("C07","Concurrent readers of matrices and vectors are safe",
"Any number of tasks may run read-only operations (including arithmetic that returns new objects, preserving walks, iteration, comparison and norms, and requests that must be rejected) on the same matrices and vectors at the same time, as operands in any position. Under every interleaving, and when the code of a caller's own operand makes further read requests in the middle of one, each operation returns what it returns when run alone (a rejection its reason), no operand changes, and no two accesses to shared memory race.",
["schedules","histories","inputs"],
"for all interleavings of read-only operations of several tasks over shared operands",
"The tests are single-threaded.",
MAT+VEC,[("absence of hidden mutable state in read paths","all read-only methods")],None,["results of each operation against a solo run","race reports under the simulator's schedule"])
def dec(id,title,stmt,files,mech,state):
    p(id,title,stmt,["schedules","histories","fault_sequences","inputs"],
      "for all accepted inputs, all orders and repetitions of queries, all interleavings of the tasks making them, and all stalls, killed tasks and failing right-hand sides between them",
      "The tests query each decomposition from one goroutine in one order on a few fixed matrices; lazily filled factors are never queried concurrently, out of order, or after a failed query.",
      files,mech,state,["every factor, scalar and solver answer returned to every task","race reports under the simulator's schedule"])
dec("C08","A shared LU decomposition answers every task correctly",
"For any square matrix, one LU decomposition queried by any number of tasks in any order gives every task a lower-triangular unit L, an upper-triangular U and a permutation P with P·A = L·U, the matching pivot array and the determinant of A, each complete at the moment it is returned and the same for every caller. Its solver says non-singular exactly for matrices whose pivots all exceed the singularity threshold it was given, and then solves A·X = B for vector and matrix right-hand sides of any storage and inverts A; for a singular matrix it rejects both. Answers never depend on which queries were made before, or at the same time, or from within the code of a right-hand side, or failed.",
["lu_decomposition.go","decomposition_solver.go"],[("lazily filled cached factors","LUDecomposition L, U, P"),("solver over the packed factors","luDecompositionSolver")],
[dict(name="cached factors",meaning="filled at first query, shared afterwards",where="LUDecomposition")])
dec("C09","Shared Cholesky decompositions answer every task correctly",
"For any symmetric positive definite matrix, one Cholesky decomposition queried by any number of tasks in any order gives every task a lower-triangular L with L·Lᵀ = A, its transpose, the determinant, and a solver that solves A·X = B for any storage of B and inverts A; matrices that are not square, symmetric and positive definite (within the thresholds given) or hold entries that are not numbers are rejected at construction. For any non-zero symmetric positive semidefinite matrix the rectangular variant gives a root B with B·Bᵀ = A whose column count is the reported rank, and a matrix with a negative diagonal entry is rejected. Answers never depend on which queries were made before, or at the same time, or from within the code of a right-hand side, or failed.",
["cholesky_decomposition.go","rectangular_cholesky_decomposition.go","decomposition_solver.go"],[("lazily filled cached factors","CholeskyDecomposition L, LT"),("pivoted outer-product loop","NewRectangularCholeskyDecompositionWithThreshold")],
[dict(name="cached factors",meaning="filled at first query",where="CholeskyDecomposition")])
dec("C10","Shared QR decompositions answer every task correctly",
"For any matrix of ordinary scale, one QR (or rank-revealing QR) decomposition queried by any number of tasks in any order gives every task an orthogonal Q, its transpose, an upper-trapezoidal R, the trapezoidal matrix of Householder vectors (where no leading diagonal entry of R vanishes) and, when rank-revealing, a column permutation P, with Q·R = A (or A·P), each complete when returned. For square and tall matrices the solver says non-singular exactly when the columns are independent beyond the threshold given and then returns least-squares solutions for vector and matrix right-hand sides of any storage and width, otherwise it rejects; for non-zero matrices the rank-revealing variant reports the numerical rank. Answers never depend on which queries were made before, or at the same time, or from within the code of a right-hand side, or failed.",
["qr_decomposition.go","rrqr_decomposition.go","decomposition_solver.go"],[("lazily filled cached factors, factors derived from one another","QRDecomposition Q, QT, R, H; RRQRDecomposition P"),("blocked back-substitution","qrDecompositionSolver")],
[dict(name="cached factors",meaning="filled at first query",where="QRDecomposition, RRQRDecomposition")])
dec("C11","A shared eigen decomposition answers every task correctly",
"For any real square matrix of ordinary scale (or symmetric tridiagonal given by its diagonals; strongly non-normal input, or large input of very low rank, may instead be refused with the error that the iteration did not converge), one eigen decomposition queried by any number of tasks in any order gives every task eigenvalues and a block-diagonal D and V with A·V = V·D, for symmetric input V orthogonal, eigenvalues real and in descending order; the vector, value and determinant accessors agree with those factors, and the square root of a symmetric positive definite matrix squares to it. For symmetric input the solver says non-singular exactly when no eigenvalue vanishes, and then solves and inverts, otherwise rejects. Answers never depend on which queries were made before, or at the same time, or from within the code of a right-hand side, or failed.",
["eigen_decomposition.go","schur_transformer.go","tridiagonal_transformer.go","hessenberg_transformer.go"],[("lazily filled cached V, D, VT","EigenDecomposition"),("QL iteration and Schur back-substitution","findEigenVectors, findEigenVectorsFromSchur")],
[dict(name="cached factors",meaning="filled at first query",where="EigenDecomposition")])
dec("C12","A shared singular value decomposition answers every task correctly",
"For any real matrix of any shape and scale, one singular value decomposition queried by any number of tasks in any order gives every task U and V with orthonormal columns, their transposes and a diagonal S with U·S·Vᵀ = A, singular values non-negative and in descending order, and rank, norm, condition numbers and covariance that agree with them. The solver returns minimum-norm least-squares solutions for vector and matrix right-hand sides of any storage, and the pseudo-inverse. Answers never depend on which queries were made before, or at the same time, or from within the code of a right-hand side, or failed, or on what callers did with earlier answers.",
["singular_value_decomposition.go","decomposition_solver.go"],[("lazily filled cached UT, S, VT","SingularValueDecomposition"),("solver built around a stored pseudo-inverse","newSVDecompositionSolver")],
[dict(name="cached factors and pseudo-inverse",meaning="filled at first query / construction",where="SingularValueDecomposition, svDecompositionSolver")])
dec("C13","Shared orthogonal transformers answer every task correctly",
"For any accepted matrix of ordinary scale (every one of suitable shape, except that the Schur iteration may report non-convergence for strongly non-normal input or large input of very low rank), one Schur, Hessenberg, tridiagonal or bidiagonal transformer queried by any number of tasks in any order gives every task orthogonal outer factors, their transposes and a middle factor of the promised shape (quasi-triangular, Hessenberg, symmetric tridiagonal, bidiagonal on the promised side) whose product is the original matrix. Each factor is complete when returned and the same for every caller. Answers never depend on which queries were made before, or at the same time, or failed.",
["schur_transformer.go","hessenberg_transformer.go","tridiagonal_transformer.go","bidiagonal_transformer.go"],[("lazily filled cached factors computed from Householder vectors","the four transformer types")],
[dict(name="cached factors",meaning="filled at first query",where="the four transformer types")])
p("C14","Every request finishes within a bounded number of steps",
"Every constructor, factor query, solve, walk and matrix or vector operation finishes (with an answer or a rejection) within a number of steps bounded by a polynomial in the dimensions, whatever the stored values are, including entries damaged to NaN, infinities, denormals, huge or tiny magnitudes at any moment before the request. It also finishes however its task is stalled or interleaved with other tasks, and no request waits forever for another that has failed or been killed, nor for itself when the caller's right-hand side asks the same decomposition while it is being read.",
["inputs","fault_sequences","schedules"],
"for all requests, all corruptions of stored values, all interleavings, stalls and killed tasks",
"The tests only use well-behaved finite values and complete single-threaded calls; a loop that never converges on damaged data is invisible to them.",
["singular_value_decomposition.go","eigen_decomposition.go","schur_transformer.go","rectangular_cholesky_decomposition.go","hessenberg_transformer.go"],
[("iteration limits and convergence tests","eigen_decomposition.go, schur_transformer.go, singular_value_decomposition.go")],None,["simulated steps per request"])
p("C15","Tasks working on separate objects never interfere",
"Tasks that each create, change, decompose and solve with their own matrices and vectors, sharing none, get under every interleaving exactly the results each gets when it runs alone. No access to memory by one task races with another's.",
["schedules","histories","fault_sequences"],
"for all sets of private histories, all interleavings, stalls and killed tasks",
"The tests never run two histories at once, so package-level scratch space or shared templates would go unnoticed.",
MAT+VEC+["lu_decomposition.go","qr_decomposition.go","rrqr_decomposition.go","cholesky_decomposition.go","rectangular_cholesky_decomposition.go","eigen_decomposition.go","singular_value_decomposition.go","utils.go"],
[("no package-level mutable state","whole package")],None,["per-task result logs against solo runs","race reports under the simulator's schedule"])
p("C16","Iterators are exact cursors over live vectors",
"Iterating a vector yields each index once in increasing order with the value the entry holds when it is reached, any number of iterators over one vector advance independently, an entry already handed out keeps its index and value, and asking beyond the end is rejected without disturbing any iterator. This holds for built-in and caller-implemented vectors while the vector is being changed between steps and while other clients iterate it.",
["histories","schedules","inputs"],
"for all interleavings of several iterators with each other and with changes to the vector",
"The tests run a single iterator to its end over an unchanging vector.",
["real_vector.go","array_real_vector.go"],[("cursor with its own position over the live vector","entryIteratorImpl")],None,["every (index, value) pair handed out"])
p("C17","Every rejection states its own reason",
"A request the library rejects is rejected with a LinearMathError whose Status is the code of a reason that is true of that request (index out of range, inverted range, wrong dimension or shape, not square, not positive, a value a diagonal cannot hold, no data, rows not initialised, zero norm, singular, not symmetric, not positive definite, unsupported, no convergence), and whose message and accessors (argument, bounds, row, column, threshold, wrong and expected dimensions) give the offending values of that request, not those of another and not swapped. It is the same for every storage class, at every point of a history, and whatever requests of other tasks are being rejected at the same time; a rejection that a caller keeps never changes afterwards. (Not claimed: an iterator asked beyond its end, an eigenvalue or eigenvector asked for by a position that does not exist, vectors of negative length and block data without any rows, which end in ordinary Go panics, and failures of a caller's own code.)",
["histories","schedules","inputs"],
"for all invalid requests, all histories before them, all interleavings with requests of other tasks",
"The tests look at whether a call panicked, for single calls; which code, message and values it carried is not looked at, nor two rejections at once.",
MAT+VEC+["error.go","utils.go","lu_decomposition.go","cholesky_decomposition.go","rectangular_cholesky_decomposition.go","qr_decomposition.go","rrqr_decomposition.go","eigen_decomposition.go","singular_value_decomposition.go"],
[("error constructors and accessors","error.go"),("argument checks","checkRowIndex, checkSubMatrixIndex, checkMultiplicationCompatible, ...")],None,["status, message and accessors of every rejection","rejections kept by a caller, read again later"])
p("C18","A slice that was made an object's storage stays its storage",
"The slice handed to a constructor that is asked not to copy (matrix of rows, diagonal matrix, vector), the blocks handed to a block matrix, and the slice DataRef returns are and remain the storage of that object. After any history of operations on it, including requests that were rejected and ones whose caller code failed part-way, every change made through the object is seen in the slice and every change the caller makes in the slice is seen by the object, entry by entry, and by no other object: no copy, result, sub-matrix, decomposition or solution made from it before follows the change. Vectors whose storage is overlapping parts of one slice are no exception: what SetSubVector stores, and what sums, differences, products and concatenations of them are, is given by the entries they had when the request was made.",
["histories","fault_sequences","schedules","inputs"],
"for all histories of operations and of the caller's changes, all failure points, all interleavings of clients",
"The tests use DataRef to read a value right after construction and never write through a slice, nor look at it again after further operations.",
["array_2d_row_real_matrix.go","block_real_matrix.go","diagonal_matrix.go","array_real_vector.go"],
[("constructors told not to copy","NewArray2DRowRealMatrixFromSlices, NewBlockRealMatrixFromBlockData, NewDiagonalMatrix, NewArrayRealVector"),("references to the data","DataRef")],None,["every slice that is an object's storage, compared with the object after every operation"])
p("C19","An answer depends on nothing but the request",
"Putting the same request to the same data yields the same answer, bit for bit, or the same rejection with the same reason: whether it is put to a shared object, to a fresh one of the same class or to one that came to that content by other changes; whichever task puts it, how often, in which order with other queries of the same decomposition, and whatever requests, failures and rejections came before it or run beside it. This holds for all data, however badly conditioned, scaled or damaged (NaN and infinities included), for matrix and vector operations, constructors of decompositions, their factors and their solvers. No half-made result of a request that failed is ever given as an answer to a later one.",
["histories","schedules","fault_sequences","inputs"],
"for all data, all histories before the request, all interleavings with other requests, all failure points",
"The tests put each request once, to a fresh object, on tame data, with a tolerance.",
MAT+VEC+["lu_decomposition.go","cholesky_decomposition.go","rectangular_cholesky_decomposition.go","qr_decomposition.go","rrqr_decomposition.go","eigen_decomposition.go","singular_value_decomposition.go","schur_transformer.go","hessenberg_transformer.go","tridiagonal_transformer.go","bidiagonal_transformer.go"],
[("cached factors and results","cachedL, cachedU, cachedP, cachedQ, cachedD, ..."),("operations and solvers","all non-mutating operations")],None,["every answer, compared bit for bit with the same request put to fresh objects afterwards"])
p("C90","Numerical accuracy on ill-conditioned or extreme-scale data",
"For any single input, factorizations and solutions are backward stable, including for ill-conditioned and extreme-scale data.",
["inputs"],"for all single inputs","Fixed well-conditioned examples only.",["lu_decomposition.go","qr_decomposition.go","singular_value_decomposition.go","eigen_decomposition.go"],[("pivoting, Householder and Givens steps","decompositions")])
p("C92","Block storage keeps large-matrix operations cache-friendly",
"For large matrices, block storage makes operations at least as fast as row storage.",
["configurations"],"for all sizes and hosts","No benchmarks.",["block_real_matrix.go"],[("52x52 blocks","block_real_matrix.go")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
