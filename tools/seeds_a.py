make('c03-validate-group', 'C03', 'a mesh with a degenerate (zero volume) triangle whose caller handles mesh exceptions only',
 'Mesh::validate lets a mathematical exception out (in C++11 its exception specification turns that into std::terminate)',
 [('lib/mesh/Mesh.inl', 'throw ZeroVolumeSimplexException();', 'throw SingularException();')],
 r'''
#include "mesh/Mesh.h"
#include <cstdio>
#include <cstdlib>
#include <exception>
using namespace NS;
int main() {
  std::set_terminate([] { _Exit(3); });
  Mesh<double,2> m;
  double xy[3][2] = {{0,0},{1,1},{2,2}};
  MeshVertex<double,2>* v[3];
  for (int i = 0; i < 3; ++i) { v[i] = new MeshVertex<double,2>(); v[i]->Vertex = FixedVector<double,2>{xy[i][0], xy[i][1]}; m.addVertex(v[i]); }
  auto* e = new MeshElement<double,2>();
  for (int i = 0; i < 3; ++i) e->Vertices[i] = v[i];
  m.addElement(e);
  m.setupNeighbors();
  m.setupBoundaries();
  m.prepare();
  try { m.validate(); } catch (const MeshException&) { return 0; } catch (...) { return 2; }
  return 1;
}
''')
make('c03-mul-group', 'C03', 'a caller that catches DimensionException around a product with operands that do not fit',
 'MatrixMulMismatchException leaves the documented dimension group',
 [('lib/Exceptions.h', 'NS_DECLARE_EXCEPTION(MatrixMulMismatch, Dimension,', 'NS_DECLARE_EXCEPTION(MatrixMulMismatch, Math,')],
 r'''
#include "matrix/Matrix.h"
using namespace NS;
int main() {
  DenseMatrix<double> a(2,3), b(2,3);
  try { a.mul(b); } catch (const DimensionException&) { return 0; } catch (const NSException&) { return 2; }
  return 1;
}
''')

make('c08-header-alone', 'C08', 'a program that includes VTKExporter.h without having included <map> before',
 'VTKExporter.h no longer compiles on its own',
 [("lib/export/VTKExporter.h", "#include <map>\n", "")],
 r"""
#include "export/VTKExporter.h"
int main() { return 0; }
""")
make('c20-dot-mixed', 'C20', 'a program that forms the dot product of fixed vectors of different sizes',
 'the dot product accepts any other vector type; the wrong size is only found at run time',
 [('lib/CountableSet.h', """	template<class TMP = DC>
	typename std::enable_if<std::is_same<TMP, dynamic_container_t<T>>::value>::type 
	resize(Dimension size);""", """	template<class TMP = DC>
	typename std::enable_if<is_number<T>::value>::type
	resize(Dimension size);"""),
  ('lib/CountableSet.inl', """template<class TMP>
typename std::enable_if<std::is_same<TMP, dynamic_container_t<T>>::value>::type
CountableSet<T, DC>::resize(Dimension size)
{
	mData.resize(size);
}""", """template<class TMP>
typename std::enable_if<is_number<T>::value>::type
CountableSet<T, DC>::resize(Dimension size)
{
	DC tmp(mData);
	mData.swap(tmp);
}""")] if False else [('lib/Vector.h', """	T dot(const Vector& v) const;""", """	template<class DC2>
	T dot(const Vector<T,DC2>& v) const;"""), ('lib/Vector.inl', """T Vector<T,DC>::dot(const Vector& v) const""", """template<class DC2>
T Vector<T,DC>::dot(const Vector<T,DC2>& v) const""")],
 None, r"""#!/bin/bash
# a dot product of vectors of different fixed sizes must not compile
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
cat > "$D/good.cpp" <<'X'
#include "Vector.h"
double f(NS::FixedVector<double,2> a, NS::FixedVector<double,2> b) { return a.dot(b); }
X
cat > "$D/bad.cpp" <<'X'
#include "Vector.h"
double f(NS::FixedVector<double,2> a, NS::FixedVector<double,3> b) { return a.dot(b); }
X
g++ -std=c++11 -w -fsyntax-only -I/repo/src/lib "$D/good.cpp" || exit 1
! g++ -std=c++11 -w -fsyntax-only -I/repo/src/lib "$D/bad.cpp" 2>/dev/null
""")
