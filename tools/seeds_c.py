H = r'''
#include "matrix/Matrix.h"
#include "matrix/MatrixOrder.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixConstructor.h"
#include "LU.h"
#include "CG.h"
#include "Iterative.h"
#include "OutputStream.h"
#include "mesh/Mesh.h"
#include "mesh/HyperCube.h"
#include "loader/MeshTriangleLoader.h"
#include "export/VTKExporter.h"
#include "quadrature/Quadrature.h"
#include "quadrature/GaussLegendreQuadratureFactory.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <sstream>
#include <fstream>
using namespace NS;
'''
SM = 'lib/matrix/SparseMatrix.inl'
LU = 'lib/LU.inl'
OP = 'lib/matrix/MatrixOperations.inl'

make('c12-comment-after-number', 'C12', 'an element record cut short by a comment that follows the number directly',
 'a truncated record is completed from its comment instead of being rejected',
 [('lib/loader/MeshTriangleLoader.inl', 'start += stream.tellg();', 'start += 1 + stream.tellg();')], H + r'''
int main() {
  try { MeshTriangleLoader<double> l; l.loadString("3 2 0 0\n1 0 0\n2 1 0\n3 0 1\n", "1 3 0\n1 1 2#3\n"); } catch (const NSException&) { return 0; }
  return 1;
}
''')
make('c18-pivot-reuse', 'C18', 'a sparse factorisation called with a pivot matrix that already holds the result of another system of the same size',
 'the pivot matrix contains the ones of both calls',
 [(LU, '			P = SparseMatrix<T>(n,n);', '			if (P.rows() != n || P.columns() != n)\n				P = SparseMatrix<T>(n,n);')], H + r'''
int main() {
  SparseMatrix<double> A{{1, 2}, {3, 4}}, B{{5, 2}, {3, 4}}, L(2, 2), U(2, 2), P(2, 2);
  LU::serial::doolittle(A, L, U, P);
  LU::serial::doolittle(B, L, U, P);
  return P.filled_count() == 2 && P.at(0, 0) == 1 && P.at(1, 1) == 1 ? 0 : 1;
}
''')
make('c40-ilu-stale-row', 'C40', 'an incomplete factorisation with an entry that an earlier step has changed',
 'the elimination takes the multiplier row from the original matrix instead of the reduced one',
 [(LU, '*it2 -= d * M.at(it.column(), it2.column());', '*it2 -= d * A.at(it.column(), it2.column());')], H + r'''
int main() {
  SparseMatrix<double> A{{2, 1, 1}, {4, 5, 3}, {2, 4, 9}}, L(3, 3), U(3, 3);
  LU::serial::ilu0(A, L, U);
  SparseMatrix<double> R = L.mul(U);
  for (Index i = 0; i < 3; ++i) for (Index j = 0; j < 3; ++j) if (std::abs(R.at(i, j) - A.at(i, j)) > 1e-9) return 1;
  return 0;
}
''')
make('c41-jacobi-tolerance', 'C41', 'a Jacobi iteration with a tolerance below one',
 'the squared step is compared with the tolerance itself, so the iteration ends too early',
 [('lib/Iterative.inl', """					xm.set(i, (b.at(i) - t) / mid);
				}

				auto conv = std::abs((xm - x).magSqr());""", """					xm.set(i, (b.at(i) - t) / mid);
				}

				auto conv = std::abs((xm - x).magSqr())*eps;""")], H + r'''
int main() {
  DenseMatrix<double> A{{4, 1}, {1, 3}};
  DynamicVector<double> b{1, 2}, x0{0, 0};
  size_t n = 0;
  auto x = Iterative::serial::jacobi(A, b, x0, 1000, 1e-8, &n);
  // the step that ended the iteration
  auto y = Iterative::serial::jacobi(A, b, x0, n - 1, 0.0);
  return (x - y).mag() <= 1e-8 ? 0 : 1;
}
''')
make('c15-pcg-count', 'C15', 'a preconditioned iteration that reaches the tolerance before the allowed maximum',
 'the reported number of iterations is one too small',
 [('lib/CG.inl', """				if (r.magSqr() < eps2)
				{
					++k;
					break;
				}""", """				if (r.magSqr() < eps2)
					break;""")], H + r'''
int main() {
  DenseMatrix<double> A{{4, 1}, {1, 3}}, C{{1, 0}, {0, 1}};
  DynamicVector<double> b{1, 2}, x0{0, 0};
  size_t n = 9;
  CG::serial::pcg(A, b, C, x0, 100, 1e-6, &n);
  return n == 2 ? 0 : 1;
}
''')
make('c46-separator', 'C46', 'printing a matrix that is not square',
 'the row separator depends on the number of columns',
 [('lib/OutputStream.h', 'if (i != f.rows() - 1)', 'if (i + 1 < f.columns())')], H + r'''
int main() {
  DenseMatrix<double> A{{1, 2, 3}, {4, 5, 6}};
  std::stringstream s; s << A;
  return s.str() == "[ 1 2 3 | 4 5 6 ]" ? 0 : 1;
}
''')
make('c04-element-leak', 'C04', 'an element file that names a vertex that does not exist',
 'the element made for the rejected record is never released',
 [('lib/loader/MeshTriangleLoader.inl', """			// Everything else is ignored

			const size_t vertexCount""", """			// Everything else is ignored
			MeshElement<T,2>* me = new MeshElement<T,2>();

			const size_t vertexCount"""), ('lib/loader/MeshTriangleLoader.inl', """				throw LoadTriangleElementErrorException();

			MeshElement<T,2>* me = new MeshElement<T,2>();
			me->Vertices[0]""", """				throw LoadTriangleElementErrorException();

			me->Vertices[0]""")], H + r'''
static long live = 0;
void* operator new(size_t n) { ++live; return malloc(n); }
void operator delete(void* p) noexcept { if (p) { --live; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --live; free(p); } }
static void go() {
  try { MeshTriangleLoader<double> l; l.loadString("3 2 0 0\n1 0 0\n2 1 0\n3 0 1\n", "1 3 0\n1 1 2 7\n"); } catch (const NSException&) {}
}
int main() { go(); long a = live; go(); return live == a ? 0 : 1; }
''')
make('c23-ilu-in-place', 'C23', 'a caller that uses the matrix again after its incomplete factorisation',
 'the factorisation is done in the input matrix',
 [(LU, 'SparseMatrix<T> M = A;', 'SparseMatrix<T>& M = const_cast<SparseMatrix<T>&>(A);')], H + r'''
int main() {
  SparseMatrix<double> A{{2, 1}, {4, 5}}, L(2, 2), U(2, 2);
  LU::serial::ilu0(A, L, U);
  return A.at(1, 0) == 4 && A.at(1, 1) == 5 ? 0 : 1;
}
''')
make('c06-clear-rows', 'C06', 'multiplying a sparse matrix with zero and using it again',
 'the row pointers keep their old values although no entry is left',
 [(SM, '		std::transform(mRowPtr.begin(), mRowPtr.end(), mRowPtr.begin(), [](Index i) -> Index { return 0; });// Better way? O(D1)', '		std::fill(mRowPtr.begin(), mRowPtr.end() - 1, 0);')], H + r'''
int main() {
  SparseMatrix<double> A(4, 2);
  A.set(0, 1, 5); A.set(2, 0, 3);
  A *= 0.0;
  A.set(3, 1, 7);
  return A.at(3, 1) == 7 && A.filled_count() == 1 && A.row_filled_count(3) == 1 && A.begin().row() == 3 ? 0 : 1;
}
''')
make('c02-row-iterator-end', 'C02', 'walking over a row of a sparse matrix whose last stored entry is the last one of all',
 'the row iterator reads the column index behind the last one',
 [(SM, """		if (this->mMatrix->mColumnPtr.size() <= this->mColumnPtrIndex)
		{
			this->mIndex1 = this->mMatrix->rows();
			this->mIndex2 = this->mMatrix->columns();
		}
		else
		{
			this->mIndex2 = this->mMatrix->mColumnPtr[this->mColumnPtrIndex];

			if (this->mIndex1 != this->mMatrix->rows() - 1 &&""", """		this->mIndex2 = this->mMatrix->mColumnPtr[this->mColumnPtrIndex];
		if (this->mMatrix->mColumnPtr.size() <= this->mColumnPtrIndex)
		{
			this->mIndex1 = this->mMatrix->rows();
			this->mIndex2 = this->mMatrix->columns();
		}
		else
		{
			if (this->mIndex1 != this->mMatrix->rows() - 1 &&""")], H + r'''
int main() {
  SparseMatrix<double> A(2, 2);
  A.set(0, 1, 5);
  int n = 0;
  for (auto it = A.row_begin(0); it != A.row_end(0); ++it) ++n;
  return n == 1 ? 0 : 1;
}
''', None, '-D_GLIBCXX_ASSERTIONS -fsanitize=address')
make('c26-shared-faces', 'C26', 'a mesh in which three triangles share an edge, set up from its middle element',
 'the third triangle at an edge is dropped silently',
 [('lib/mesh/Mesh.inl', 'if(edge->Elements[1] && edge->Elements[1] != oe)', 'if(edge->Elements[1] && edge->Elements[1] == S)')], H + r'''
int main() {
  Mesh<double, 2> m;
  double c[5][2] = {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {0, -1}};
  for (auto& p : c) m.addVertex(new MeshVertex<double, 2>(FixedVector<double, 2>{p[0], p[1]}));
  for (Index k = 2; k < 5; ++k) {
    auto e = new MeshElement<double, 2>();
    e->Vertices[0] = m.vertex(0); e->Vertices[1] = m.vertex(1); e->Vertices[2] = m.vertex(k);
    m.addElement(e);
  }
  try { m.setupNeighbors(); } catch (const MeshException&) { return 0; }
  return 1;
}
''')
make('c45-min-norm', 'C45', 'a row norm of a matrix with a negative entry of large magnitude',
 'the smallest entry of a row is chosen by value instead of magnitude',
 [(OP, """				if(std::abs(*rIt)<s)
					s = std::abs(*rIt);""", """				if(*rIt<s)
					s = std::abs(*rIt);""")], H + r'''
int main() {
  DenseMatrix<double> A{{1, -5}, {3, 4}};
  return std::abs(Operations::min_norm2(A) - std::sqrt(10.0)) < 1e-12 ? 0 : 1;
}
''')
make('c10-weight-digit', 'C10', 'integrating a cubic polynomial over the triangle with the third order rule',
 'one of the points lies beside its place',
 [('lib/quadrature/GaussLegendreQuadratureFactory.inl', 'mPoints.push_back(FixedVector<T,K>{0.6, 0.2});', 'mPoints.push_back(FixedVector<T,K>{0.6, 0.21});')], H + r'''
int main() {
  GaussLegendreQuadrature<double, 2, 3> q;
  double v = q.eval([](const FixedVector<double, 2>& p) { return p[1]*p[1]*p[1]; }, 0.0);
  return std::abs(v - 1.0/20) < 1e-9 ? 0 : 1;
}
''')
make('c11-implicit-value', 'C11', 'exporting the implicit labels of a mesh that has implicit vertices',
 'the label array holds the strong boundary flag',
 [('lib/export/VTKExporter.inl', 'stream << ((v->Flags & MVF_Implicit) ? 1 : 0) << " ";', 'stream << ((v->Flags & ~MVF_StrongBoundary) == MVF_Implicit && v->Flags == MVF_Implicit ? 1 : 0) << " ";')], H + r'''
int main() {
  Mesh<double, 2> m;
  for (int i = 0; i < 3; ++i) m.addVertex(new MeshVertex<double, 2>(FixedVector<double, 2>{i == 1 ? 1.0 : 0.0, i == 2 ? 1.0 : 0.0}));
  auto e = new MeshElement<double, 2>();
  for (int i = 0; i < 3; ++i) e->Vertices[i] = e->DOFVertices.size() ? nullptr : m.vertex(i);
  m.addElement(e);
  m.vertex(1)->Flags = MVF_Implicit | MVF_StrongBoundary;
  std::map<std::string, DynamicVector<double>*> d;
  VTKExporter<double, 2>::write("o.vtu", m, d, d, VOO_VertexImplicitLabel);
  std::ifstream f("o.vtu");
  std::stringstream s; s << f.rdbuf();
  return s.str().find("0 1 0") != std::string::npos ? 0 : 1;
}
''')
make('c43-permutate-inverse', 'C43', 'permuting a matrix by a permutation that is not its own inverse',
 'the matrix is permuted by the inverse permutation',
 [('lib/matrix/MatrixOrder.inl', 'return P.mul(m.mul(P.transpose()));', 'return P.transpose().mul(m.mul(P));')], H + r'''
int main() {
  SparseMatrix<double> A{{1, 2, 0}, {3, 4, 0}, {0, 0, 5}};
  auto B = permutate(A, DynamicVector<Index>{1, 2, 0});
  return B.at(0, 0) == 4 && B.at(1, 1) == 5 && B.at(2, 2) == 1 && B.at(0, 2) == 3 ? 0 : 1;
}
''')
