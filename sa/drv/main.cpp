// Instantiates the analysed templates for double (the analysis is per instantiation).
#include "nsConfig.h"
#include "Types.h"
#include "Utils.h"
#include "Exceptions.h"
#include "CountableSet.h"
#include "Vector.h"
#include "OutputStream.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixCheck.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixConverter.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixOrder.h"
#include "LU.h"
#include "CG.h"
#include "Iterative.h"
#include "Normal.h"
#include "Simplex.h"
#include "mesh/Mesh.h"
#include "mesh/HyperCube.h"
#include "quadrature/Quadrature.h"
#include "sf/PolyShapeFunction.h"
#include "export/VTKExporter.h"
#include "loader/MeshTriangleLoader.h"
#include "loader/MeshObjLoader.h"
using namespace NS;
#ifndef SC
#define SC double
#endif
typedef SC T;
typedef std::complex<double> C;
typedef DynamicVector<T> DV;
typedef FixedVector<T,2> FV2;
typedef FixedVector<T,3> FV3;
typedef DenseMatrix<T> DM;
typedef SparseMatrix<T> SM;
typedef FixedMatrix<T,2,2> FM22;
typedef FixedMatrix<T,3,3> FM33;
typedef FixedMatrix<T,2,3> FM23;
typedef FixedMatrix<T,3,2> FM32;
typedef std::vector<T> DC;

template class NS::CountableSet<T, std::vector<T>>;
template class NS::Vector<T, std::vector<T>>;
template class NS::CountableSet<T, std::array<T,3>>;
template class NS::Vector<T, std::array<T,3>>;
template class NS::Vector<T, std::array<T,2>>;
template class NS::Vector<Index, std::vector<Index>>;
template class NS::CountableSet<Index, std::vector<Index>>;
template class NS::DenseMatrix<T>;
template class NS::BaseMatrix<T, dynamic_container2d_t<T>>;
template class NS::BaseMatrix<T, fixed_container2d_t<T,2,3>>;
template class NS::MatrixIterator<T, dynamic_container2d_t<T>>;
template class NS::MatrixRowIterator<T, dynamic_container2d_t<T>>;
template class NS::MatrixColumnIterator<T, dynamic_container2d_t<T>>;
template class NS::FixedMatrix<T,2,2>;
template class NS::FixedMatrix<T,2,3>;
template class NS::FixedMatrix<T,3,3>;
template class NS::SparseMatrix<T>;
template class NS::SparseMatrixIterator<T>;
template class NS::SparseMatrixRowIterator<T>;
template class NS::SparseMatrixColumnIterator<T>;
template class NS::Simplex<T,2>;
template class NS::MeshElement<T,2>;
template class NS::MeshVertex<T,2>;
template class NS::MeshEdge<T,2>;
template class NS::Mesh<T,2>;
template class NS::HyperCube<T,2>;
template class NS::PolyShapePolicy<T,2,1>;
template class NS::PolyShapePolicy<T,2,2>;
template class NS::GaussLegendreQuadratureFactory<T,1,1>;
template class NS::GaussLegendreQuadratureFactory<T,1,2>;
template class NS::GaussLegendreQuadratureFactory<T,1,3>;
template class NS::GaussLegendreQuadratureFactory<T,2,1>;
template class NS::GaussLegendreQuadratureFactory<T,2,2>;
template class NS::GaussLegendreQuadratureFactory<T,2,3>;
template class NS::MeshTriangleLoader<T>;
template class NS::MeshObjLoader<T>;

#define OPS(V) \
	template V NS::operator+(const V&, const V&); template V NS::operator-(const V&, const V&); \
	template V NS::operator*(const V&, const V&); template V NS::operator*(const V&, T); template V NS::operator*(T, const V&); \
	template V NS::operator-(const V&);
#define VOPS(V) OPS(V) template V NS::operator/(const V&, const V&); template V NS::operator/(const V&, T); template V NS::operator/(T, const V&); \
	template V NS::operator+(const V&, T); template V NS::operator+(T, const V&); template V NS::operator-(const V&, T); template V NS::operator-(T, const V&); \
	template bool NS::operator==(const V&, const V&); template bool NS::operator!=(const V&, const V&);
typedef Vector<T, std::vector<T>> VD_;
typedef Vector<T, std::array<T,3>> VF_;
VOPS(VD_)
VOPS(VF_)
OPS(DM)
OPS(SM)
typedef FixedMatrix<T,2,3> FM_;
OPS(FM_)
template bool NS::operator==(const SM&, const SM&);
template bool NS::operator!=(const SM&, const SM&);
template bool NS::operator==(const BaseMatrix<T, dynamic_container2d_t<T>>&, const BaseMatrix<T, dynamic_container2d_t<T>>&);
template bool NS::operator!=(const BaseMatrix<T, dynamic_container2d_t<T>>&, const BaseMatrix<T, dynamic_container2d_t<T>>&);
template bool NS::operator==(const BaseMatrix<T, fixed_container2d_t<T,2,3>>&, const BaseMatrix<T, fixed_container2d_t<T,2,3>>&);

template DM& DM::operator+=(const BaseMatrix<T, dynamic_container2d_t<T>>&);
template DM& DM::operator-=(const BaseMatrix<T, dynamic_container2d_t<T>>&);
template DM& DM::operator*=(const BaseMatrix<T, dynamic_container2d_t<T>>&);
template DV DM::mul(const DV&) const;
template DV DM::mul_left(const DV&) const;
template DV SM::mul(const DV&) const;
template DV SM::mul_left(const DV&) const;
template FixedMatrix<T,2,3> FM23::mul(const FM33&) const;

namespace drv {
// Members that only exist as templates restricted by enable_if, and constructors
DV ctor_size(size_t n) { return DV(n); }
DV ctor_list(std::initializer_list<T> l) { return DV(l); }
FV3 ctor_list_fixed(std::initializer_list<T> l) { return FV3(l); }
void resize(DV& v, size_t n) { v.resize(n); }
DM dense_list(std::initializer_list<std::initializer_list<T>> l) { return DM(l); }
SM sparse_list(std::initializer_list<std::initializer_list<T>> l) { return SM(l); }
DM copy_dense(const DM& m) { return m; }
SM copy_sparse(const SM& m) { return m; }
void assign_dense(DM& a, const DM& b) { a = b; }
void assign_sparse(SM& a, const SM& b) { a = b; }
template<class M> void lu_m(const M& A, M& L, M& U, M& P, DV& b) {
	LU::serial::cholesky(A, L);
	LU::serial::solve_lu(L, U, b);
	LU::serial::ainv_lu(L, U, A.rows() ? L : L, U);
	CG::serial::jacobi(A, L);
	CG::serial::cg(A, b, b);
	CG::serial::pcg(A, b, P, b);
	Iterative::serial::jacobi(A, b, b, 1, 1.0);
	Iterative::serial::sor(A, b, b, 1.0, 1, 1.0);
	Check::matrixIsProjection(A); Check::matrixIsSymmetric(A); Check::matrixIsHermitian(A);
	Check::matrixIsSkewSymmetric(A); Check::matrixIsSkewHermitian(A);
	Check::matrixIsOrthogonal(A); Check::matrixIsUnitary(A);
	Operations::determinant(A); Operations::inverse(A); Operations::inverse(L, U); Operations::inverse(L, U, P);
	Operations::max_norm2(A); Operations::min_norm2(A); Operations::cond(A);
	Construct::tril(A, 1); Construct::triu(A, 1); Construct::diag(A);
}
template void lu_m<DM>(const DM&, DM&, DM&, DM&, DV&);
template void lu_m<SM>(const SM&, SM&, SM&, SM&, DV&);
void misc(const DM& d, const SM& s, DV& v, const DynamicVector<Index>& p) {
	SM L, U, P; LU::serial::ilu0(s, L, U); LU::serial::doolittle(s, L, U, P);
	Construct::eye<DenseMatrix, T>(1, 1); Construct::eye<SparseMatrix, T>(1, 1);
	Construct::eye<T, 2, 3>();
	Construct::diag<DenseMatrix>(v); Construct::diag<SparseMatrix>(v);
	Construct::hilbert<DenseMatrix, T>(1); Construct::inv_hilbert<DenseMatrix, T>(1);
	Construct::hilbert<SparseMatrix, T>(1); Construct::inv_hilbert<SparseMatrix, T>(1);
	Convert::toSparseMatrix(d); Convert::toDenseMatrix(s);
	cuthill_mckee(s); r_cuthill_mckee(s); permutation_matrix<T>(p); inverse_permutation(p);
	permutate(s, p); permutate(v, p);
	FM33 f; Check::matrixIsOrthogonal(f); Check::matrixIsUnitary(f); Operations::determinant(f);
	FM33 g, h, k; LU::serial::cholesky(f, g); LU::serial::ainv_lu(f, g, h, k); CG::serial::jacobi(f, g);
	FM22 f2, g2, h2, k2; LU::serial::cholesky(f2, g2); LU::serial::ainv_lu(f2, g2, h2, k2); CG::serial::jacobi(f2, g2);
	FV3 x; LU::serial::solve_lu(f, g, x);
	Math::normal<T, 2>(std::array<FV2, 1>()); Math::normal<T, 3>(std::array<FV3, 2>());
	Math::binom(int(4), 2u); Math::binom(Index(4), Index(2)); Math::binom(T(2.5), uint32(2)); Math::sign_pow(int(3)); Math::sign_pow(Index(3));
	Math::factorial(int(3)); Math::factorial(Index(3)); t_min(v.at(0), v.at(1)); t_max(v.at(0), v.at(1)); v.has(0, 1, v.at(0));
	std::stringstream o; o << v << d << s << x << p << FM23();
	SM m; m.begin()++; m.row_begin(0)++; m.column_begin(0)++;
}
void vtk(const std::string& path, const Mesh<T,2>& m, const std::map<std::string, DV*>& a, const std::map<std::string, DV*>& b, int o) {
	VTKExporter<T,2>::write(path, m, a, b, o);
}
template<size_t K> struct Probe {
	T c[10]; T d[10];
	T operator()(const FixedVector<T,K>& p) const {
		T x = p[0], y = K > 1 ? p[K-1] : (T)0;
		return c[0] + c[1]*x + c[2]*y + c[3]*x*x + c[4]*x*y + c[5]*y*y + c[6]*x*x*x + c[7]*x*x*y + c[8]*x*y*y + c[9]*y*y*y
			+ (K > 1 ? (T)0 : d[0]*x*x*x*x + d[1]*x*x*x*x*x);
	}
	T operator()(Index i, const FixedVector<T,K>& p) const { return d[i]*(*this)(p); }
};
template<class Q, size_t K> T quad(const Probe<K>& f, const T& s) { Q q; return q.eval(f, s) + q.eval_index(f, s) + q.eval(f) + q.eval_index(f); }
template T quad<GaussLegendreQuadrature<T,1,1>, 1>(const Probe<1>&, const T&);
template T quad<GaussLegendreQuadrature<T,1,2>, 1>(const Probe<1>&, const T&);
template T quad<GaussLegendreQuadrature<T,1,3>, 1>(const Probe<1>&, const T&);
template T quad<GaussLegendreQuadrature<T,2,1>, 2>(const Probe<2>&, const T&);
template T quad<GaussLegendreQuadrature<T,2,2>, 2>(const Probe<2>&, const T&);
template T quad<GaussLegendreQuadrature<T,2,3>, 2>(const Probe<2>&, const T&);
template<class P, size_t K> void psf(const P& p, const FixedVector<T,K>& x, const FixedVector<T,P::DOF>& n) {
	p.value(0, x); p.value(0, x, n); p.gradient(0, x); p.gradient(0, x, n); p.gradient2(0, x); p.gradient2(0, x, n);
}
template void psf<PolyShapePolicy<T,1,1>, 1>(const PolyShapePolicy<T,1,1>&, const FixedVector<T,1>&, const FixedVector<T,2>&);
template void psf<PolyShapePolicy<T,1,2>, 1>(const PolyShapePolicy<T,1,2>&, const FixedVector<T,1>&, const FixedVector<T,3>&);
template void psf<PolyShapePolicy<T,2,1>, 2>(const PolyShapePolicy<T,2,1>&, const FixedVector<T,2>&, const FixedVector<T,3>&);
template void psf<PolyShapePolicy<T,2,2>, 2>(const PolyShapePolicy<T,2,2>&, const FixedVector<T,2>&, const FixedVector<T,6>&);
template void psf<PolyShapePolicy<T,2,3>, 2>(const PolyShapePolicy<T,2,3>&, const FixedVector<T,2>&, const FixedVector<T,10>&);
template void psf<PolyShapePolicy<T,3,1>, 3>(const PolyShapePolicy<T,3,1>&, const FixedVector<T,3>&, const FixedVector<T,4>&);
template void psf<PolyShapePolicy<T,3,2>, 3>(const PolyShapePolicy<T,3,2>&, const FixedVector<T,3>&, const FixedVector<T,10>&);
}
