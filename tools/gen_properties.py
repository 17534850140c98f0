#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
L = 'src/lib/'
P = []
def prop(id, title, statement, over, quant, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
      "anchors": {"files": [L + f if not f.startswith('src/') else f for f in files],
                  "mechanism": [{"name": n, "where": w} for n, w in mech]}})

prop("C01", "Mismatched operand shapes are rejected before anything is changed",
 "Element-wise vector and matrix operations, dot products, dense and vector comparisons, matrix and matrix-vector products, factorisations, triangular and iterative solvers, preconditioners, inverses and permutations throw a library exception whenever the dimensions of their operands or output arguments do not fit the operation. The exception is thrown before any operand or output argument has been modified. Such a call never returns a result, and never aborts the program.",
 ["inputs"], "all pairs/triples of operand shapes, per operation",
 "Tests try at most one wrong shape for a few operations; the rule is about every combination of dimensions of every operand, including ones with equal element counts.",
 ["Vector.inl", "matrix/DenseMatrix.inl", "matrix/SparseMatrix.inl", "matrix/BaseMatrix.inl", "LU.inl", "CG.inl", "Iterative.inl", "matrix/MatrixOperations.inl", "matrix/MatrixOrder.inl"],
 [("dimension comparison followed by throw", "start of every binary operation, e.g. DenseMatrix::mul, LU::serial::solve_lu")])

prop("C02", "No element access outside an object's storage",
 "Whatever index, iterator position or size a caller passes, the accessors, iterators, reductions, element-wise operations, products, solvers and constructors of vectors, dense, fixed and sparse matrices, simplices and meshes never read or write outside the storage of the object. An index argument that is out of range is stopped by an assertion before the access. Loops over an object stay inside its current dimensions.",
 ["inputs"], "all index arguments and all object dimensions",
 "Out-of-range reads of a heap or stack array usually go unnoticed in a test, and tests only use valid indices.",
 ["CountableSet.inl", "Vector.inl", "matrix/BaseMatrix.inl", "matrix/DenseMatrix.inl", "matrix/FixedMatrix.inl", "matrix/SparseMatrix.inl", "Simplex.inl", "mesh/Mesh.inl", "Normal.h"],
 [("NS_ASSERT on the index", "CountableSet::linear_at, BaseMatrix::at, SparseMatrix::at, ..."), ("loop bounds", "element-wise operations and products")])

prop("C03", "Errors surface as library exceptions of the documented group",
 "Every error the library raises by throwing is an object of one of its own concrete exception types, thrown by value, derived from the library's base exception through the documented group (initialisation, mathematical, dimension, mesh, loader), and carrying a description. Mesh validation lets only mesh exceptions out, and no library function swallows an exception other than the mathematical ones the determinant maps to zero. Catching the base exception by reference therefore handles every thrown library error.",
 ["inputs", "programs"], "every throw and every handler in the library, every program that catches by group",
 "Tests trigger a handful of throw sites; a wrong type, pointer throw, broken base class or over-broad handler on any other path is invisible to them.",
 ["Exceptions.h", "LU.inl", "mesh/Mesh.inl", "loader/MeshTriangleLoader.h", "src/objloader/loader/MeshObjLoader.h", "matrix/MatrixOperations.inl"],
 [("exception declaration macros", "Exceptions.h"), ("throw expressions", "all .inl files"), ("handlers", "Operations::determinant")])

prop("C04", "Nothing allocated is leaked when an operation returns or throws",
 "Every memory block a library function allocates is either released by it or handed to an object that owns it, on normal return and also when the function ends with a library exception. This holds for scratch arrays of the factorisations and generators and for the vertices, elements and edges built by mesh generation, neighbour setup, loaders and shape-function preparation. No block is released twice or used after its release.",
 ["inputs"], "all paths, in particular error paths, of all allocating functions",
 "The test programs never look at leaks, and error paths of allocating functions are mostly not exercised.",
 ["LU.inl", "mesh/HyperCube.inl", "mesh/Mesh.inl", "sf/PolyShapeFunction.inl", "loader/MeshTriangleLoader.inl", "src/objloader/loader/MeshObjLoader.inl"],
 [("new/delete pairs", "LU::serial::doolittle, HyperCube::generate"), ("ownership transfer", "Mesh::addVertex, Mesh::addElement")])

prop("C05", "Shared mesh handles keep the data alive and free it exactly once",
 "Mesh objects share their data: copying or assigning a mesh adds a reference, destroying or overwriting one removes a reference, moving transfers it, and self-assignment changes nothing. The vertices, elements and edges are released exactly once, when the last handle goes away or the mesh is cleared, and are never touched afterwards. A moved-from mesh may be destroyed, copied from and assigned to.",
 ["histories"], "all sequences of copy, move, (self-)assignment, clear and destruction over any number of handles",
 "Tests copy a mesh at most once; reference-count errors show only in particular sequences and mostly as silent leaks or use-after-free.",
 ["mesh/Mesh.inl", "mesh/Mesh.h"],
 [("reference counter", "PrivateData::Refs in Mesh"), ("clear()", "Mesh::clear, Mesh::~Mesh")])

prop("C06", "Sparse storage arrays always change together",
 "After every operation a sparse matrix holds as many column indices as values, and its row pointers delimit exactly the entries of each row. Every insertion or removal of an entry changes value and column index at the same position and shifts precisely the row pointers of all later rows; clearing and swapping act on the complete state including the dimensions.",
 ["inputs", "histories"], "all matrices, positions and sequences of modifying operations",
 "A wrong row-pointer shift or position shows only for particular fill patterns and later operations; the tests use a few small matrices.",
 ["matrix/SparseMatrix.inl", "matrix/SparseMatrix.h"],
 [("lockstep updates", "SparseMatrix::set_at, remove_at, erase, operator*=, swap")])

prop("C07", "Sparse matrices store only non-zero entries",
 "Setting a sparse entry to zero, through any setter or arithmetic operation, removes the entry instead of storing a zero, so fill counts, has() and iteration see exactly the non-zero entries. Reading an absent entry yields zero, and no operation ever writes to the zero value that is returned for absent entries.",
 ["inputs", "histories"], "all matrices, positions and values",
 "Whether a zero is stored is not visible through at(); tests check fill counts in a few cases only.",
 ["matrix/SparseMatrix.inl"],
 [("zero test before storing", "SparseMatrix::set, set(iterator), operator*="), ("mEmpty sentinel", "internal_at, iterator dereference")])

prop("C08", "Every public header and template compiles for every supported scalar",
 "Each public header compiles when included on its own and can be included in any number of translation units of one program. Every public class template, member and function template can be instantiated for the scalar types its declaration admits: float, double and, where no ordering of values is involved, complex numbers.",
 ["programs", "configurations"], "all client programs: any include set, any instantiation",
 "Templates are only checked when instantiated; the test suite instantiates a subset and puts everything in one translation unit per program.",
 ["matrix/FixedMatrix.inl", "matrix/MatrixConverter.h", "matrix/MatrixConverter.inl", "matrix/MatrixOrder.inl", "matrix/MatrixCheck.h", "CountableSet.inl", "Types.h"],
 [("header-only templates", "all headers")])

prop("C09", "Shape functions form a nodal basis and gradients are their derivatives",
 "For every supported dimension and order, the Lagrange shape functions equal one at their own node and zero at all other nodes, and sum to one everywhere on the simplex. The gradient and second-derivative functions return exactly the first and the pure second partial derivatives of the value function, for every component, every point and every set of node values.",
 ["inputs"], "all evaluation points, components and node values; all supported (dimension, order) pairs",
 "Tests evaluate a few points; an error in one coefficient or one derivative term vanishes at special points.",
 ["sf/PolyShapeFunction.inl", "sf/PolyShapeFunction.h"],
 [("coefficient tables", "PSF_Coeff_*"), ("value/gradient/gradient2", "PolyShapePolicy")])

prop("C10", "Quadrature rules integrate polynomials of their order exactly",
 "For every supported dimension and order the quadrature points lie inside the unit simplex, there is one weight per point, and the weighted sum integrates every polynomial up to the degree of the rule exactly (to the precision of the stored constants). Evaluation visits every point exactly once, multiplies each value by its own weight and starts from the given start value.",
 ["inputs"], "all polynomial integrands up to the rule's degree; all supported (dimension, order) pairs",
 "Tests integrate a few functions with loose tolerances; a wrong point or weight may cancel for them.",
 ["quadrature/GaussLegendreQuadratureFactory.inl", "quadrature/Quadrature.inl"],
 [("point/weight tables", "GaussLegendreQuadratureFactory constructor"), ("evaluation loop", "Quadrature::eval, eval_index")])

prop("C11", "Exported VTK files are well formed and consistent for every option",
 "For every mesh, data set and combination of output options the exported file is well-formed XML: every element opened is closed in order and every attribute is quoted. Point coordinates always have three components, the declared number of components of an array equals the number of values written per cell, and offsets and cell types agree with the dimension and order. An empty set of point data is allowed. The label arrays hold one for exactly the vertices that carry the flag and zero for the others.",
 ["inputs", "configurations"], "all meshes, data maps and option sets",
 "No test looks at exporter output.",
 ["export/VTKExporter.inl"],
 [("stream output sequence", "VTKExporter::write")])

prop("C12", "Mesh loaders return a mesh or throw, whatever the input text",
 "For every node, element or OBJ text, loading either returns a mesh or throws a mesh/loader exception. It never reads outside the text or the vertex list, never aborts, and rejects truncated records and vertex numbers that do not exist. A mesh that is returned has exactly the vertices and triangles the records name. Errors in the element text are reported as element errors and errors in the node text as node errors.",
 ["inputs"], "all input texts, in particular truncated lines and out-of-range indices",
 "Tests load well-formed files only.",
 ["loader/MeshTriangleLoader.inl", "src/objloader/loader/MeshObjLoader.inl"],
 [("record parsing", "MeshTriangleLoader::setupNode, setupElement, extractFirstNumber"), ("index check", "MeshObjLoader::load")])

prop("C13", "Simplex geometry is never used before it has been prepared",
 "Every simplex query that depends on the derived transformation (volume, circumcentre, circumradius, local/global mapping, gradients, matrices, determinant) stops with an assertion when the simplex has not been prepared, instead of using stale or uninitialised data. Preparing establishes all of the derived data before the simplex counts as prepared.",
 ["histories"], "all call sequences on a simplex",
 "Tests always prepare first; reading uninitialised data often goes unnoticed.",
 ["Simplex.inl"],
 [("mPrepared flag", "Simplex::prepare and every query")])

prop("C14", "Simplex mappings, gradients and centres satisfy their geometric identities",
 "For every non-degenerate triangle, mapping a point to local coordinates and back is the identity, vertices map to the unit simplex corners, the barycentric gradients are the derivatives of the local coordinates and sum to zero, and the volume is half the absolute determinant. The circumcentre is equidistant from all vertices, each face centre is the mean of the face's vertices, and each face normal is perpendicular to its face and points away from the opposite vertex. The diameter is the length of the longest edge.",
 ["inputs"], "all vertex coordinates and points",
 "Tests use a few right-angled triangles at the origin, where wrong terms vanish.",
 ["Simplex.inl", "Normal.h"],
 [("closed formulas", "Simplex::prepare, toLocal, toGlobal, gradient, center, faceCenter, faceNormal")])

prop("C15", "Optional outputs are optional, and set on every success",
 "The iteration counter of the iterative solvers and the pivot counter of the factorisations may be omitted. When given, they are written on every successful return with the number of iterations actually performed (never more than the allowed maximum), respectively the number of row exchanges. No iterative solver performs more than the allowed maximum of iterations, including a maximum of zero.",
 ["inputs"], "all systems, tolerances and iteration limits, with and without the optional argument",
 "Tests always converge and mostly omit the counters.",
 ["CG.inl", "Iterative.inl", "LU.inl"],
 [("it_stat / pivotCount handling", "CG::serial::cg, pcg, Iterative::serial::jacobi, sor, LU::serial::doolittle")])

prop("C16", "Solvers never divide by an unchecked pivot or diagonal entry",
 "Factorisations, triangular solves, approximate inverses, the Jacobi preconditioner and the stationary iterations throw the matching library exception when the pivot or diagonal entry they are about to divide by is zero (or below machine precision where that is the test). The check happens before the division, so such a call does not return a vector or matrix of infinities or NaNs as a result.",
 ["inputs"], "all matrices, in particular singular ones and ones with zero diagonal entries",
 "Tests cover one or two singular matrices; a missing guard on another pivot position is not seen.",
 ["LU.inl", "CG.inl", "Iterative.inl", "matrix/MatrixOperations.inl"],
 [("epsilon/zero guards", "LU::serial::doolittle, ilu0, solve_lu, ainv_lu, cholesky; CG::serial::jacobi; Iterative::serial::jacobi, sor; Operations::inverse")])

prop("C17", "Every object starts in a fully initialised state",
 "Every constructor of every library class initialises every member the class reads later: newly sized vectors and matrices are zero, those built from a list hold the listed entries and zeros elsewhere, mesh vertices, edges and elements have all their links empty, flags cleared and indices zero, a simplex is unprepared, and a mesh has a reference count of one. No public operation reads an indeterminate value of a freshly constructed object.",
 ["programs", "histories"], "all constructors and all first uses",
 "Indeterminate values are often zero in a test process.",
 ["mesh/Mesh.inl", "Simplex.inl", "CountableSet.inl", "matrix/BaseMatrix.inl", "matrix/SparseMatrix.inl", "matrix/DenseMatrix.inl"],
 [("constructors", "all classes")])

prop("C18", "Factorisation and inverse results do not depend on the outputs' old contents",
 "The matrices returned through output arguments of the factorisations, approximate inverses and preconditioners are determined by the input alone. Whatever the output arguments held before, every entry the result depends on is overwritten, so repeating a call with reused outputs gives the same result as with fresh ones.",
 ["histories"], "all previous contents of the output arguments",
 "Tests pass freshly constructed, zero-filled outputs.",
 ["LU.inl", "CG.inl", "matrix/MatrixOperations.inl"],
 [("output set-up", "LU::serial::cholesky, doolittle, ilu0, ainv_lu; CG::serial::jacobi")])

prop("C19", "Operations give the same result when operands are the same object",
 "Compound operations give the result of the corresponding mathematical operation also when the right-hand operand is the object itself or one of its elements passed by reference. In particular v *= v[0], v += v[i], A += A, A -= A and A *= A scale, add, subtract and multiply by the values the operand had before the call.",
 ["inputs", "programs"], "all aliasing patterns between the operands of compound operations",
 "No test passes an element or the object itself as operand.",
 ["Vector.inl", "matrix/DenseMatrix.inl", "matrix/FixedMatrix.inl", "matrix/SparseMatrix.inl"],
 [("reference parameters of compound operators", "Vector, DenseMatrix, FixedMatrix, SparseMatrix operator+=, -=, *=, /=")])

prop("C20", "Wrong shapes of fixed-size objects do not compile",
 "Operations between fixed-size vectors and matrices whose dimensions do not fit are rejected at compile time, fitting ones compile and have the fitting result type. Fixed sizes cannot be resized or constructed from a runtime size, shape functions and quadrature rules exist only for the implemented dimension and order combinations, and non-number element types are rejected.",
 ["programs"], "all programs that combine fixed-size types",
 "A test suite that compiles cannot show what is rejected.",
 ["Vector.h", "matrix/FixedMatrix.h", "CountableSet.h", "sf/PolyShapeFunction.inl", "quadrature/GaussLegendreQuadratureFactory.inl", "Simplex.inl"],
 [("template parameters, enable_if, static_assert", "FixedVector, FixedMatrix, CountableSet, PolyShapePolicy")])

prop("C21", "Generated box meshes cover the requested box with conforming triangles",
 "For every cell count per axis, size and offset, the generated mesh has its vertices exactly on the grid between offset and offset plus size, with the cell count of each axis applied to that axis. Every cell is split into two triangles of the same orientation along the same diagonal, and exactly the vertices on the border of the box are marked as boundary.",
 ["inputs"], "all cell counts, sizes and offsets, in particular different counts per axis",
 "Tests and examples generate square grids only, where swapped axes go unnoticed.",
 ["mesh/HyperCube.inl"],
 [("grid construction", "HyperCube<T,2>::generate")])

prop("C22", "Mesh validation detects every inconsistency it stands for",
 "Validation returns normally only if, for every vertex, its global index is its position, it belongs to at least one element and each of those elements contains it, and, for every element, all vertices are set and agree with the stored simplex, the volume is non-zero and every neighbour face is set. Each kind of inconsistency, at any position, is reported by its own mesh exception.",
 ["inputs"], "all meshes and all positions of the defect",
 "Tests validate correct meshes only.",
 ["mesh/Mesh.inl"],
 [("checks", "Mesh::validate")])

prop("C23", "Operations do not modify the operands they only read",
 "Queries, comparisons, reductions, copies, products, arithmetic operators returning a new object, factorisations, solvers, checks, orderings, stream output and export leave every operand that is not their declared output unchanged, including the shared hidden state behind const objects.",
 ["inputs", "programs"], "all operands of all non-modifying operations",
 "const-correctness is bypassed by casts, mutable and by pointers; tests do not compare operands before and after.",
 ["matrix/SparseMatrix.inl", "matrix/BaseMatrix.inl", "LU.inl", "CG.inl", "Vector.inl", "export/VTKExporter.inl"],
 [("const parameters and const_cast", "SparseMatrixIterator, MatrixIterator, SparseMatrix::operator*=")])

prop("C24", "Element-wise operations and reductions process every entry exactly once",
 "Element-wise operations combine each entry of the left operand with the entry at the same position of the right operand, for every position and once, and leave the dimensions unchanged; negation, scaling, transposition and conjugation act on every entry. Sums, dot products, traces, minimum, maximum, average and the NaN/infinity/zero tests take every entry into account, and minimum and maximum are correct for all-negative and all-positive data.",
 ["inputs"], "all sizes and all entry values",
 "Tests use a few sizes and mostly positive values; an off-by-one or a wrong initial value is invisible for them.",
 ["CountableSet.inl", "Vector.inl", "matrix/BaseMatrix.inl", "matrix/DenseMatrix.inl", "matrix/FixedMatrix.inl"],
 [("element loops", "operator+=, sum, max, transpose, ...")])

prop("C25", "Quadratic elements number their nodes like the quadratic shape functions",
 "When a mesh is prepared for shape functions, the degrees of freedom of every element are listed in the order of the shape-function components, each located at the node where its component equals one. Edge nodes are created once, shared by both adjacent elements, registered with the mesh and with the elements that use them, flagged as implicit, and flagged as boundary exactly when the edge has one adjacent element.",
 ["inputs"], "all meshes; first and second order",
 "Tests prepare one tiny mesh and do not compare node positions with shape functions.",
 ["sf/PolyShapeFunction.inl", "mesh/Mesh.inl"],
 [("edge order", "PolyShapePolicy::prepareMesh handleEdge calls"), ("coefficient tables", "PSF_Coeff_2D_2")])

prop("C26", "Mesh connectivity is symmetric and complete after set-up",
 "Adding an element copies its vertices into its simplex and registers the element with each of its vertices; adding a vertex gives it its position as index. After neighbour set-up, the face stored for an element's vertex consists of the element's other vertices, belongs to the element, is registered with the mesh and is the same object for the element on its other side; boundary set-up marks exactly the vertices of faces with one element. A face shared by more than two elements is rejected with a mesh exception.",
 ["inputs"], "all meshes",
 "Tests check neighbours on one or two small meshes.",
 ["mesh/Mesh.inl"],
 [("setup", "Mesh::addVertex, addElement, setupNeighbors, setupBoundaries")])

# ---- properties outside what static analysis can decide here
prop("C40", "Factorisations and triangular solvers satisfy their defining identities",
 "In exact arithmetic, whenever they return: the pivoted LU factorisation yields a unit lower triangular L with entries of magnitude at most one, an upper triangular U and a permutation P with P A = L U; the Cholesky factorisation of a symmetric matrix yields a lower triangular L with positive diagonal and L L^T = A; the incomplete LU factorisation yields factors that are empty outside the pattern of A and whose product agrees with A on that pattern; the triangular solver returns x with L U x = b; the approximate inverse of triangular factors inverts them; the Jacobi preconditioner is the inverse of the diagonal. Well conditioned input (dominant diagonal) is never refused.",
 ["inputs"], "all matrices, for dense, fixed and sparse storage with any stored pattern",
 "Tests factorise a few 3x3 matrices; pivot orders, cancellations to zero and patterns they do not contain are untested.",
 ["LU.inl", "CG.inl"], [("algorithms", "LU::serial::doolittle, cholesky, ilu0, solve_lu, ainv_lu, CG::serial::jacobi")])
prop("C41", "Iterative solvers take their method's steps and stop early only in tolerance",
 "In exact arithmetic every iterate of the Jacobi and successive over-relaxation solvers is the defining step from the previous one, beginning at the given start value; the first step of (preconditioned) conjugate gradients is the steepest descent step, and on a positive definite system they reach the exact solution after at most as many steps as unknowns. A solver that returns before the maximum number of iterations returns an iterate whose last step (stationary methods) or residual (conjugate gradients) is within the tolerance. Diagonally dominant systems are never refused.",
 ["inputs"], "all systems, start values, weights, tolerances and iteration maxima",
 "Tests solve two or three systems from the zero vector and only look at the converged result.",
 ["CG.inl", "Iterative.inl"], [("iterations", "CG::serial::cg, pcg, Iterative::serial::jacobi, sor")])
prop("C42", "A sparse matrix reads like a dense matrix after any history of operations",
 "After any sequence of constructing, setting, erasing, swapping, scaling, adding, subtracting, multiplying and transposing, every position of a sparse matrix reads as the value a dense matrix would hold after the same sequence (in exact arithmetic), and element access, has(), counts, iterators, reductions, comparisons and products give what the dense matrix gives. Each operation leaves the storage in the one canonical form of its contents: entries by row and ascending column, no stored zero, consistent row pointers, so that the next operation starts from a valid state whatever led to it.",
 ["histories", "inputs"], "all operation sequences", "Tests replay a few fixed sequences.",
 ["matrix/SparseMatrix.inl", "matrix/SparseMatrixIterator.inl"], [("storage", "SparseMatrix"), ("iteration", "SparseMatrixIterator, SparseMatrixRowIterator, SparseMatrixColumnIterator")])
prop("C43", "Cuthill-McKee orderings are breadth-first permutations; permuting is exact",
 "For every structurally symmetric sparse matrix without empty rows, the Cuthill-McKee ordering lists every index exactly once. Each connected component is listed without interruption, beginning with an index that has the fewest stored entries among those not yet listed, and continues breadth-first: indices follow in the order of their earliest listed neighbour, those of the same neighbour by ascending number of stored entries. The reverse ordering is exactly the reversed ordering. The permutation matrix has its ones at (i, p[i]), the inverse permutation undoes the permutation, the permuted matrix holds entry (p[i], p[j]) at (i, j), and the permuted vector holds the i-th entry at position p[i].",
 ["inputs"], "all sparsity patterns and permutations", "Tests order one matrix.",
 ["matrix/MatrixOrder.inl"], [("ordering", "cuthill_mckee, r_cuthill_mckee"), ("permuting", "permutation_matrix, inverse_permutation, permutate")])
prop("C44", "Determinant and inverse are the exact functions of the entries",
 "In exact arithmetic the determinant of a square matrix is the signed sum over all permutations (zero is also reported for non-square matrices and for matrices singular to machine precision), the inverse of a matrix multiplied with the matrix is the identity, the inverse computed from triangular factors inverts their product, and the one that takes the pivot matrix inverts the original matrix. A matrix with a dominant diagonal has a non-zero determinant and an inverse.",
 ["inputs"], "all matrices, for dense, fixed and sparse storage",
 "Tests use one or two small matrices with one pivot order.",
 ["matrix/MatrixOperations.inl", "LU.inl"], [("algorithms", "Operations::determinant, inverse")])

prop("C45", "Matrix constructors, structure tests, norms and number helpers are exact",
 "Identity, diagonal, triangular-part, Hilbert and inverse Hilbert constructors give exactly the matrix of their defining formula, for rectangular sizes and positive and negative diagonal offsets. The orthogonal, unitary, projection, symmetric, hermitian, skew-symmetric and skew-hermitian tests are true exactly when the defining equation holds for every entry and the matrix is square. Row norms, vector lengths, normalisation and normals follow their formulas, a range search looks at exactly the range, and factorial, binomial coefficient, sign, minimum and maximum helpers are exact, including zero for choosing more than there are.",
 ["inputs"], "all sizes, offsets and entries, for dense, fixed and sparse storage and real and complex entries",
 "Tests call each function with one or two small arguments; the structure tests are tried on one true and one false example.",
 ["matrix/MatrixConstructor.inl", "matrix/MatrixCheck.inl", "matrix/MatrixOperations.inl", "Utils.h", "Normal.h", "Vector.inl"],
 [("constructors", "Construct::eye, diag, tril, triu, hilbert, inv_hilbert"), ("tests", "Check::matrixIs*"), ("helpers", "Math::binom, factorial, sign_pow, normal; Operations::max_norm2, min_norm2, cond; Vector::mag, normalized, has")])

prop("C46", "Text output names every entry once, at its place",
 "Writing a vector to an output stream gives its elements in index order between brackets. Writing a dense or fixed matrix gives, row by row, every entry of the row in column order, with a separator between two rows and none after the last. Writing a sparse matrix gives one (row, column; value) triple for exactly the stored entries, row by row with ascending columns, and nothing for an empty matrix. The operators return the stream they were given and write nothing else, whatever the size, the shape and the stored pattern.",
 ["inputs"], "all sizes, shapes, layouts and entries",
 "Tests do not look at the text at all; a wrong index or separator is visible only for other shapes.",
 ["OutputStream.h"], [("operators", "operator<< for Vector, BaseMatrix and SparseMatrix")])

prop("C47", "Sizes, indices and values are never squeezed into a narrower type",
 "On its way from where it is produced to where it is used, a count, size, index or vertex, face or element number keeps the full range of the index type, and a number keeps the precision of the scalar type. No run-time value is converted to an integer type that cannot hold it or to a floating type of smaller precision, no loop counter is narrower than the bound it is compared with, no counter stepped in a loop is narrower than an index, no number is parsed into a narrower type than it is used with, and no product is formed in a narrower type than it is used with. So the operations work for every size the machine can hold, beyond 127, 255, 32767 or 65535 entries, vertices or elements, and give double results for double input.",
 ["inputs"], "all functions, every size and value",
 "Tests use a handful of entries; a truncated counter or a float in between shows up only for large meshes or in the last digits.",
 ["export/VTKExporter.inl", "loader/MeshTriangleLoader.inl", "matrix/SparseMatrix.inl", "matrix/MatrixOrder.inl", "mesh/Mesh.inl", "mesh/HyperCube.inl", "Vector.inl", "CountableSet.inl", "Types.h", "Utils.h"], [("everywhere", "integer and floating conversions, loop conditions, counters, stream extractions")])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
