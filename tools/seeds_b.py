H = r'''
#include "matrix/Matrix.h"
#include "matrix/MatrixOrder.h"
#include "LU.h"
#include "CG.h"
#include "Iterative.h"
#include "mesh/Mesh.h"
#include "mesh/HyperCube.h"
#include "loader/MeshTriangleLoader.h"
#include "export/VTKExporter.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <new>
using namespace NS;
'''
SM = 'lib/matrix/SparseMatrix.inl'

make('c42-erase-iterator-row', 'C42', 'erasing, through an iterator, the last stored entry of a row that is followed by an empty row',
 'the iterator returned by erase() names the empty row, so whatever is written at its position lands in the wrong row',
 [(SM, """					nIt.mIndex1 = s1;// New row
				}""", """					nIt.mIndex1 = s1;// New row
					if (s1 != it.row())
						break;
				}""")], H + r'''
int main() {
  SparseMatrix<double> m(4, 3);
  m.set(0, 1, 5); m.set(2, 0, 7); m.set(3, 2, 9);
  auto it = m.erase(m.begin());
  return it.row() == 2 && it.column() == 0 && *it == 7 ? 0 : 1;
}
''')
make('c07-product-underflow', 'C07', 'an element-wise product of two tiny entries that underflows to zero',
 'operator*= stores an explicit zero',
 [(SM, """		if (val == (T)0)
			it = erase(it);// O(D1*D2)""", """		if (!v2.has(it.row(), it.column()))
			it = erase(it);// O(D1*D2)""")], H + r'''
int main() {
  SparseMatrix<double> a(2, 2), b(2, 2);
  a.set(0, 1, 1e-200); a.set(1, 0, 2); b.set(0, 1, 1e-200); b.set(1, 0, 3);
  a *= b;
  return a.filled_count() == 1 && !a.has(0, 1) ? 0 : 1;
}
''')
make('c06-erase-last-row', 'C06', 'erasing through an iterator in a matrix whose last row is not empty',
 'the pointer of the last row is not moved when an entry before it is erased through an iterator',
 [(SM, """		for (Index k = it.row() + 1; k < rows(); ++k)
		{
			mRowPtr[k] -= 1;""", """		for (Index k = it.row() + 1; k + 1 < rows(); ++k)
		{
			mRowPtr[k] -= 1;""")], H + r'''
int main() {
  SparseMatrix<double> m(3, 3);
  m.set(0, 0, 1); m.set(1, 1, 2); m.set(2, 1, 3); m.set(2, 2, 4);
  m.erase(m.begin());
  return m.row_filled_count(2) == 2 && m.row_filled_count(1) == 1 && m.has(2, 1) ? 0 : 1;
}
''')
make('c24-sparse-max', 'C24', 'a sparse matrix whose stored entries are all negative but that is not full',
 'the maximum ignores the zeros that are not stored',
 [(SM, "	if (mValues.size() != size() && 0 > s)\n		s = 0;", "	if (empty() && 0 > s)\n		s = 0;")], H + r'''
int main() {
  SparseMatrix<double> m(2, 2);
  m.set(0, 1, -3); m.set(1, 1, -1);
  return m.max() == 0 ? 0 : 1;
}
''')
make('c40-row-table', 'C40', 'a sparse matrix whose factorisation exchanges rows twice, the second time a row that was moved before',
 'the pivot matrix no longer records the product of the exchanges, so P A is not L U',
 [('lib/LU.inl', """						L.set(k,j,L.at(i,j));
						L.set(i,j,tmp);
					}

					std::swap(rowTable[i], rowTable[k]);
				}

				// Actual calculating
				if(std::abs(U.at(k,k)) <=
					std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
					throw SingularException();

				const T invMid = (T)1/U.at(k,k);
				for(Index j = k+1; j < n; ++j)
				{
					L.set(j,k, U.at(j,k)*invMid);

					for(Index t = k; t < n; ++t)
						U.set(j,t, U.at(j,t) - L.at(j,k)*U.at(k,t));
				}
			}

			// Build pivot matrix
			P = SparseMatrix<T>(n,n);""", """						L.set(k,j,L.at(i,j));
						L.set(i,j,tmp);
					}

					rowTable[k] = i;
					rowTable[i] = k;
				}

				// Actual calculating
				if(std::abs(U.at(k,k)) <=
					std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
					throw SingularException();

				const T invMid = (T)1/U.at(k,k);
				for(Index j = k+1; j < n; ++j)
				{
					L.set(j,k, U.at(j,k)*invMid);

					for(Index t = k; t < n; ++t)
						U.set(j,t, U.at(j,t) - L.at(j,k)*U.at(k,t));
				}
			}

			// Build pivot matrix
			P = SparseMatrix<T>(n,n);""")], H + r'''
int main() {
  SparseMatrix<double> A(3, 3), L(3, 3), U(3, 3), P(3, 3);
  double v[3][3] = {{0, 1, 2}, {1, 0, 1}, {2, 8, 1}};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (v[i][j] != 0) A.set(i, j, v[i][j]);
  A.set(0, 0, 1); A.set(1, 0, 3); A.set(2, 0, 6);
  A.set(0, 1, 9);
  LU::serial::doolittle(A, L, U, P, nullptr);
  auto a = P.mul(A), b = L.mul(U);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (std::abs(a.at(i, j) - b.at(i, j)) > 1e-9) return 1;
  return 0;
}
''')
make('c16-jacobi-stale-diagonal', 'C16', 'a system whose first diagonal entry is stored and a later one is not',
 'the Jacobi iteration divides by the diagonal of an earlier row instead of reporting the zero diagonal',
 [('lib/Iterative.inl', """				for (Index i = 0; i < a.rows(); ++i)// Could be parallel
				{
					T mid = (T)0;
					T t = (T)0;
					for (auto rit = a.row_begin(i); rit != a.row_end(i); ++rit)
					{
						if (rit.column() != i)""", """				T mid = (T)0;
				for (Index i = 0; i < a.rows(); ++i)// Could be parallel
				{
					T t = (T)0;
					for (auto rit = a.row_begin(i); rit != a.row_end(i); ++rit)
					{
						if (rit.column() != i)""")], H + r'''
int main() {
  SparseMatrix<double> A(2, 2);
  A.set(0, 0, 2); A.set(1, 0, 1);
  DynamicVector<double> b(2), x(2);
  b.set(0, 1); b.set(1, 1);
  try { Iterative::serial::jacobi(A, b, x, 5, 1e-6, nullptr); } catch (const MatrixHasZeroInDiagException&) { return 0; } catch (...) { return 2; }
  return 1;
}
''')
make('c41-sor-old-values', 'C41', 'a caller that looks at an iterate of the successive over-relaxation before convergence',
 'the sweep uses the previous iterate for the unknowns it has already updated (a weighted Jacobi step)',
 [('lib/Iterative.inl', "							t += (*rit)*xm.at(rit.column());\n						else if", "							t += (*rit)*x.at(rit.column());\n						else if")], H + r'''
int main() {
  DenseMatrix<double> A = {{4, 1}, {1, 3}};
  DynamicVector<double> b = {1, 2}, x(2);
  auto r = Iterative::serial::sor(A, b, x, 1.0, (size_t)1, 1e-12, nullptr);
  return std::abs(r.at(0) - 0.25) < 1e-12 && std::abs(r.at(1) - (2 - 0.25) / 3) < 1e-12 ? 0 : 1;
}
''')
make('c22-index-too-large', 'C22', 'a vertex whose global index is larger than its position',
 'validation accepts vertex indices that are too large',
 [('lib/mesh/Mesh.inl', "if(v->GlobalIndex != id)", "if(v->GlobalIndex < id)")], H + r'''
int main() {
  auto m = HyperCube<double, 2>::generate({1, 1}, {1, 1}, {0, 0});
  m.prepare();
  m.vertex(2)->GlobalIndex = 7;
  try { m.validate(); } catch (const MeshException&) { return 0; }
  return 1;
}
''')
make('c26-second-corner', 'C26', 'two triangles whose shared edge is listed with a different first corner',
 'the face is registered with the wrong corner of the neighbouring element',
 [('lib/mesh/Mesh.inl', """						if(shared[k] == edge->Elements[1]->Vertices[j])
						{
							found = true;
							break;
						}""", """						if(shared[k] == edge->Elements[1]->Vertices[j] || shared[k] == S->Vertices[j])
						{
							found = true;
							break;
						}""")], H + r'''
int main() {
  Mesh<double, 2> m;
  double xy[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
  MeshVertex<double, 2>* v[4];
  for (int i = 0; i < 4; ++i) m.addVertex(v[i] = new MeshVertex<double, 2>(FixedVector<double, 2>{xy[i][0], xy[i][1]}));
  int c[2][3] = {{0, 1, 2}, {3, 0, 2}};
  for (auto& t : c) { auto* e = new MeshElement<double, 2>(); for (int i = 0; i < 3; ++i) e->Vertices[i] = v[t[i]]; m.addElement(e); }
  m.setupNeighbors();
  for (auto e : m.elements()) for (int i = 0; i < 3; ++i) {
    if (!e->Neighbors[i]) return 1;
    for (auto x : e->Neighbors[i]->Vertices) if (x == e->Vertices[i]) return 2;
  }
  return 0;
}
''')
make('c21-cell-height', 'C21', 'a box with different cell counts per axis',
 'the cell height is computed from the cell count of the other axis',
 [('lib/mesh/HyperCube.inl', "ey[1] = size[1]/(T)elements[1];", "ey[1] = size[1]/(T)elements[0];")], H + r'''
int main() {
  auto m = HyperCube<double, 2>::generate({2, 3}, {4, 9}, {1, 1});
  double top = 0;
  for (auto v : m.vertices()) top = std::max(top, v->Vertex[1]);
  return std::abs(top - 10) < 1e-12 ? 0 : 1;
}
''')
make('c14-circumradius-origin', 'C14', 'a triangle that does not have its first vertex at the origin',
 'the circumradius is measured from the origin instead of the first vertex',
 [('lib/Simplex.inl', "return (center()-mVertices[0]).mag();", "return center().mag();")], H + r'''
int main() {
  Simplex<double, 2> s = {{1, 1}, {3, 1}, {1, 3}};
  s.prepare();
  return std::abs(s.outerRadius() - std::sqrt(2.0)) < 1e-12 ? 0 : 1;
}
''')
make('c13-determinant-unprepared', 'C13', 'asking for the determinant before prepare()',
 'the determinant of an unprepared simplex is returned as zero instead of stopping',
 [('lib/Simplex.inl', "	NS_ASSERT(mPrepared);\n	return mDeterminant;", "	return mDeterminant;")], H + r'''
#include <sys/wait.h>
#include <unistd.h>
int main() {
  int c = fork();
  if (c == 0) { fclose(stderr); Simplex<double, 2> s = {{1, 1}, {3, 1}, {1, 3}}; double d = s.determinant(); _exit(d == 4 ? 1 : 0); }
  int w; waitpid(c, &w, 0);
  return WIFSIGNALED(w) ? 0 : 1;
}
''')
make('c04-hypercube-throw', 'C04', 'generating a mesh with a cell count of zero',
 'the scratch array of the generator is leaked when the cell counts are rejected',
 [('lib/mesh/HyperCube.inl', """	if(elements[0] < 1 || elements[1] < 1)
		throw InvalidElementCountException();
""", """	MV** lastRowVertices = new MV*[elements[0]+1];

	if(elements[0] < 1 || elements[1] < 1)
		throw InvalidElementCountException();
"""), ('lib/mesh/HyperCube.inl', """	ey[1] = size[1]/(T)elements[1];
	
	MV** lastRowVertices = new MV*[elements[0]+1];
""", """	ey[1] = size[1]/(T)elements[1];
""")], H + r'''
static long live = 0;
void* operator new(std::size_t n) { ++live; return std::malloc(n ? n : 1); }
void* operator new[](std::size_t n) { ++live; return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (p) --live; std::free(p); }
void operator delete[](void* p) noexcept { if (p) --live; std::free(p); }
int main() {
  long a = live;
  try { HyperCube<double, 2>::generate({0, 2}, {1, 1}, {0, 0}); return 2; } catch (const NSException&) {}
  return live == a ? 0 : 1;
}
''')
make('c17-vertex-index', 'C17', 'a mesh vertex that is used before it is added to a mesh',
 'the constructor from coordinates leaves the global index indeterminate',
 [('lib/mesh/Mesh.inl', "	Flags(0), GlobalIndex(0), Vertex(vertex)", "	Flags(0), Vertex(vertex)")], H + r'''
#include <cstring>
int main() {
  void* p = std::malloc(sizeof(MeshVertex<double, 2>));
  std::memset(p, 0x5a, sizeof(MeshVertex<double, 2>));
  auto* v = new (p) MeshVertex<double, 2>(FixedVector<double, 2>{1, 2});
  return v->GlobalIndex == 0 ? 0 : 1;
}
''', FLAGS='-fno-lifetime-dse')
make('c05-move-assign-leak', 'C05', 'assigning a mesh by move to a handle that is the last owner of its data',
 'the vertices and elements of the overwritten mesh are never released',
 [('lib/mesh/Mesh.inl', """		if(mData->Refs == 0)
		{
			clear();
			delete mData;
		}
	}

	mData = other.mData;
	other.mData = nullptr;

	return *this;""", """		if(mData->Refs == 0)
			delete mData;
	}

	mData = other.mData;
	other.mData = nullptr;

	return *this;""")], H + r'''
static long live = 0;
void* operator new(std::size_t n) { ++live; return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (p) --live; std::free(p); }
int main() {
  long a = live;
  {
    Mesh<double, 2> m = HyperCube<double, 2>::generate({2, 2}, {1, 1}, {0, 0});
    m = HyperCube<double, 2>::generate({1, 1}, {1, 1}, {0, 0});
  }
  return live == a ? 0 : 1;
}
''')
make('c09-gradient2-3d', 'C09', 'the second derivatives of the quadratic shape functions of a tetrahedron',
 'the second derivative in the third direction uses the coefficient of the second',
 [('lib/sf/PolyShapeFunction.inl', "g[2] = nodeValues[9]*2*PSF_Coeff_3D_2[localComponent][9];", "g[2] = nodeValues[9]*2*PSF_Coeff_3D_2[localComponent][8];")], H + r'''
#include "sf/PolyShapeFunction.h"
int main() {
  PolyShapePolicy<double, 3, 2> s;
  FixedVector<double, 3> p; p[0] = 0.2; p[1] = 0.3; p[2] = 0.1;
  double sum[3] = {0, 0, 0};
  for (Index c = 0; c < 10; ++c) {
    const double h = 1e-3;
    auto a = p, b = p; a[2] += h; b[2] -= h;
    double d = (s.value(c, a) - 2 * s.value(c, p) + s.value(c, b)) / (h * h);
    if (std::abs(d - s.gradient2(c, p)[2]) > 1e-4) return 1;
  }
  return 0;
}
''')
make('c01-mul-left', 'C01', 'a row vector times a non-square sparse matrix, with a vector as long as the matrix has columns',
 'the size check of mul_left tests the wrong dimension',
 [(SM, "	if (rows() != v.size())\n		throw MatrixMulMismatchException();", "	if (t_min(rows(), columns()) > v.size())\n		throw MatrixMulMismatchException();")], H + r'''
int main() {
  SparseMatrix<double> m(2, 3);
  m.set(0, 2, 1);
  DynamicVector<double> v = {1, 2, 3};
  try { m.mul_left(v); } catch (const DimensionException&) { return 0; }
  return 1;
}
''')
make('c02-simplex-corner', 'C02', 'asking a simplex for the vertex one past its last',
 'the index check of the mutable accessor lets the index K+1 through',
 [('lib/Simplex.inl', "typename Simplex<T,K>::vertex_t& Simplex<T,K>::operator[](Index i)\n{\n	NS_ASSERT(i < K+1);", "typename Simplex<T,K>::vertex_t& Simplex<T,K>::operator[](Index i)\n{\n	NS_ASSERT(i <= K+1);")], H + r'''
#include <sys/wait.h>
#include <unistd.h>
int main() {
  int c = fork();
  if (c == 0) { fclose(stderr); Simplex<double, 2> s = {{1, 1}, {3, 1}, {1, 3}}; auto& v = s[3]; _exit(&v == nullptr); }
  int w; waitpid(c, &w, 0);
  return WIFSIGNALED(w) ? 0 : 1;
}
''')
make('c11-gradient-components', 'C11', 'exporting a mesh with the element gradient option',
 'the declared number of components of the gradient array is one too large',
 [('lib/export/VTKExporter.inl', """		stream << "<DataArray Name=\\"ElementGradient\\" type=\\"Float32\\" NumberOfComponents=\\"" 
			<< K <<""", """		stream << "<DataArray Name=\\"ElementGradient\\" type=\\"Float32\\" NumberOfComponents=\\"" 
			<< (K+1) <<""")], H + r'''
#include <fstream>
#include <sstream>
int main() {
  auto m = HyperCube<double, 2>::generate({1, 1}, {1, 1}, {0, 0});
  m.prepare();
  VTKExporter<double, 2> e;
  std::map<std::string, DynamicVector<double>*> d;
  e.write("out.vtu", m, d, d, VOO_ElementGradient);
  std::ifstream f("out.vtu");
  std::stringstream s; s << f.rdbuf();
  auto t = s.str();
  auto p = t.find("ElementGradient");
  auto q = t.find("NumberOfComponents=\"", p);
  return p != std::string::npos && q != std::string::npos && t[q + 20] == '2' ? 0 : 1;
}
''')
make('c43-degree-of-parent', 'C43', 'a pattern in which the neighbours of the second visited index have different degrees in descending index order',
 'the neighbours are queued by index instead of by degree (their parent\'s degree is used for all)',
 [('lib/matrix/MatrixOrder.inl', """				adj.clear();
				for(auto it = m.row_cbegin(c); it != m.row_cend(c); ++it)
				{
					if(it.column() != it.row())
					{
						Index mc = m.row_filled_count(it.column());""", """				adj.clear();
				for(auto it = m.row_cbegin(c); it != m.row_cend(c); ++it)
				{
					if(it.column() != it.row())
					{
						Index mc = m.row_filled_count(it.row());""")], H + r'''
int main() {
  // path 0-1, then 1-2, 1-3, 2-4, 2-5: index 2 has the higher degree
  SparseMatrix<double> m(6, 6);
  int e[5][2] = {{0, 1}, {1, 2}, {1, 3}, {2, 4}, {2, 5}};
  for (auto& x : e) { m.set(x[0], x[1], 1); m.set(x[1], x[0], 1); }
  auto o = cuthill_mckee(m);
  Index p2 = 9, p3 = 9;
  for (Index i = 0; i < 6; ++i) { if (o[i] == 2) p2 = i; if (o[i] == 3) p3 = i; }
  if (o[0] != 0 || o[1] != 1) return 3;
  return p3 < p2 ? 0 : 1;
}
''')
make('c44-inverse-shape', 'C44', 'inverting a product given by sparse triangular factors with an entry more than one column right of the diagonal',
 'the backward substitution of inverse(L, U) skips a column',
 [('lib/matrix/MatrixOperations.inl', "if(it.column() < j+1)", "if(it.column() < j+1 || it.column() > j+2)")], H + r'''
int main() {
  DenseMatrix<double> L(4, 4), U(4, 4);
  for (int i = 0; i < 4; ++i) { L.set(i, i, 1); U.set(i, i, 2); }
  U.set(0, 3, 5);
  auto X = Operations::inverse(L, U);
  auto R = L.mul(U).mul(X);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (std::abs(R.at(i, j) - (i == j)) > 1e-12) return 1;
  return 0;
}
''')
