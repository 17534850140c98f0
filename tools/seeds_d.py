H = r'''
#include "Vector.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixOrder.h"
#include <complex>
#include <cmath>
#include <cstdio>
#include <cstdlib>
using namespace NS;
'''
SM = 'lib/matrix/SparseMatrix.inl'

make('c47-row-length', 'C47', 'a sparse row with 256 or more stored entries',
 'the length of a row is cut to eight bits while looking up an entry, which then reads as zero',
 [(SM, '		size_t s = row_entry_count(tmp_i1, rowPtr);// O(1)\n		while', '		uint8 s = (uint8)row_entry_count(tmp_i1, rowPtr);// O(1)\n		while')], H + r'''
int main() {
  SparseMatrix<double> m(2, 300);
  for (Index j = 0; j < 300; ++j) m.set(0, j, 1.0 + j);
  double s = 0;
  for (Index j = 0; j < 300; ++j) s += m.at(0, j);
  return s == 300 + 299*300/2 && m.filled_count() == 300 ? 0 : 1;
}
''')
make('c47-modulus', 'C47', 'the extreme of complex elements, compared beyond single precision',
 'the modulus of a complex number passes through single precision',
 [('lib/Types.h', 'return std::abs(t);', 'const float r = (float)std::abs(t);\n	return r;')], H + r'''
int main() {
  typedef std::complex<double> C;
  DynamicVector<C> v(2);
  v.set(0, C(1, 1)); v.set(1, C(0.1, 0));
  return std::abs(v.max().real() - std::sqrt(2.0)) < 1e-12 && std::abs(v.min().real() - 0.1) < 1e-12 ? 0 : 1;
}
''')
make('c47-degree', 'C47', 'a graph with a vertex of 256 or more neighbours',
 'the degree of a vertex is cut to eight bits, so the ordering starts at the vertex of the largest degree',
 [('lib/matrix/MatrixOrder.inl', '		Index mc = m.row_filled_count(i);', '		const uint8 mc = (uint8)m.row_filled_count(i);')], H + r'''
int main() {
  SparseMatrix<double> m(257, 257);
  for (Index i = 0; i < 257; ++i) { m.set(i, i, 1); m.set(7, i, 1); m.set(i, 7, 1); }
  auto R = cuthill_mckee(m);
  return R.size() == 257 && R.at(0) != 7 ? 0 : 1;
}
''')
make('c24-isinf', 'C24', 'a complex element whose imaginary part alone is infinite',
 'an infinite imaginary part is not reported',
 [('lib/Types.h', 'return std::isinf(t.real()) || std::isinf(t.imag());', 'return std::isinf(t.real());')], H + r'''
int main() {
  typedef std::complex<double> C;
  DynamicVector<C> v(2);
  v.set(0, C(1, 0)); v.set(1, C(0, HUGE_VAL));
  return v.hasInf() ? 0 : 1;
}
''')
make('c02-has-end', 'C45', 'searching a value that is not in the vector, up to its end',
 'the search continues one element behind the last one',
 [('lib/Vector.inl', '	for (Index i = start; i < end && i < this->size(); ++i)\n	{\n		if(', '	for (Index i = start; i < end && i <= this->size(); ++i)\n	{\n		if(')], H + r'''
#include <sys/wait.h>
#include <unistd.h>
int main() {
  pid_t c = fork();
  if (!c) { fclose(stderr); DynamicVector<double> v(3); v.fill(1); _exit(v.has(0, 10, 2.0) ? 1 : 0); }
  int st = 0; waitpid(c, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1;
}
''')
make('c02-column-begin', 'C02', 'the first entry of a column that stores nothing',
 'the search for the first entry leaves the matrix at its last row',
 [(SM, '		while (row != rows() && !has(row, i))\n			++row;\n\n		if (row == rows())\n			return column_end(i);\n		else\n			return column_iterator(*this, row, i);\n	}\n}\n\ntemplate<typename T>\nconst SparseMatrixColumnIterator<T> SparseMatrix<T>::column_end', '		while (!has(row, i))\n			++row;\n\n		if (row == rows())\n			return column_end(i);\n		else\n			return column_iterator(*this, row, i);\n	}\n}\n\ntemplate<typename T>\nconst SparseMatrixColumnIterator<T> SparseMatrix<T>::column_end')], H + r'''
#include <sys/wait.h>
#include <unistd.h>
int main() {
  pid_t c = fork();
  if (!c) { fclose(stderr); SparseMatrix<double> m(2, 2); m.set(0, 0, 1); const auto& q = m; _exit(q.column_begin(1) == q.column_end(1) && m.column_begin(1) == m.column_end(1) ? 0 : 1); }
  int st = 0; waitpid(c, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1;
}
''')
make('c26-fan-boundary', 'C26', 'a boundary vertex that belongs to more than three elements and is the second corner of its boundary faces',
 'such a vertex is not marked as boundary',
 [('lib/mesh/Mesh.inl', '			for(Index i = 0; i < K; ++i)\n			{\n				NS_ASSERT(e->Vertices[i]);', '			for(Index i = 0; i < K && !(i && e->Vertices[i]->Elements.size() > 3); ++i)\n			{\n				NS_ASSERT(e->Vertices[i]);')], H + r'''
#include "mesh/Mesh.h"
int main() {
  Mesh<double, 2> m;
  typedef FixedVector<double, 2> P;
  const double x[6][2] = {{-2, 0}, {-1, 1}, {0, 2}, {1, 1}, {2, 0}, {0, 0}};
  MeshVertex<double, 2>* v[6];
  for (int o = 0; o < 6; ++o) { v[o] = new MeshVertex<double, 2>(P{x[o][0], x[o][1]}); v[o]->Flags = 0; m.addVertex(v[o]); }
  for (int i = 0; i < 4; ++i) {
    auto e = new MeshElement<double, 2>();
    e->Vertices[0] = v[i]; e->Vertices[1] = v[i + 1]; e->Vertices[2] = v[5];
    m.addElement(e);
  }
  m.setupNeighbors();
  m.setupBoundaries();
  for (int o = 0; o < 6; ++o) if (!(v[o]->Flags & MVF_StrongBoundary)) return 1;
  return 0;
}
''')
make('c42-row-tail', 'C42', 'a removal in a matrix of five or more rows',
 'the row starts from the fifth row on are not adjusted after an entry was removed',
 [(SM, '		for (Index k = i1 + 1; k < rows(); ++k)// O(D1)\n			mRowPtr[k] -= 1;', '		for (Index k = i1 + 1; k < rows() && k < 4; ++k)// O(D1)\n			mRowPtr[k] -= 1;')], H + r'''
int main() {
  SparseMatrix<double> m(6, 2);
  for (Index i = 0; i < 6; ++i) { m.set(i, 0, i + 1.0); m.set(i, 1, -1.0); }
  m.set(1, 0, 0);
  for (Index i = 0; i < 6; ++i) if (m.at(i, 0) != (i == 1 ? 0 : i + 1.0) || m.at(i, 1) != -1) return 1;
  return 0;
}
''')
