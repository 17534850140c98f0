// Every member and function template that involves no ordering of values, used with scalar SC.
// Compiled (syntax only) for float, double and their complex types.
#include "Types.h"
#include "Vector.h"
#include "OutputStream.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixCheck.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixConverter.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixOrder.h"
#include "LU.h"
#include "CG.h"
#include "Iterative.h"
#include "Normal.h"
#include <sstream>
#ifndef SC
#define SC std::complex<double>
#endif
using namespace NS;
typedef SC S;
typedef DynamicVector<S> DV;
typedef FixedVector<S,3> FV;
typedef DenseMatrix<S> DM;
typedef SparseMatrix<S> SM;
typedef FixedMatrix<S,3,3> FM;

template<class V> void vec(V& a, const V& c, S s) {
	a += c; a += s; a -= c; a -= s; a *= c; a *= s; a /= c; a /= s;
	S x = c.at(0); a.set(0, x); x = c.dot(c); x = c.magSqr(); x = c[0]; a[0] = x; x = c.linear_at(0); a.linear_set(0, x);
	bool h = c.has(0, 1, s); (void)h;
	V r = c + c; r = c + s; r = s + c; r = c - c; r = c - s; r = s - c; r = -c; r = c * c; r = c * s; r = s * c;
	r = c / c; r = c / s; r = s / c;
	h = c == c; h = c != c; size_t n = c.size(); (void)n;
	x = c.sum(); x = c.avg(); a.do_reciprocal(); a.fill(s); a.swap(r); h = c.hasNaN(); h = c.hasInf(); h = c.hasZero();
	for (auto i = c.begin(); i != c.end(); ++i) x += *i;
	for (auto i : c) x += i;
	auto it = c.begin(); it++; h = it.isValid(); h = it == c.end();
	V e; V f(c); f = c;
	x = c.mag(); r = c.normalized();
	std::stringstream o; o << c;
}
template<class M> void iters(M& a, const M& c, S s) {
	S x;
	for (auto i = c.begin(); i != c.end(); ++i) x = *i;
	for (auto i = a.begin(); i != a.end(); ++i) *i = s;
	for (auto i = c.cbegin(); i != c.cend(); ++i) x = *i;
	for (auto i = c.row_begin(0); i != c.row_end(0); ++i) x = *i;
	for (auto i = a.row_begin(0); i != a.row_end(0); i++) *i = s;
	for (auto i = c.row_cbegin(0); i != c.row_cend(0); ++i) x = *i;
	for (auto i = c.column_begin(0); i != c.column_end(0); ++i) x = *i;
	for (auto i = a.column_begin(0); i != a.column_end(0); i++) *i = s;
	for (auto i = c.column_cbegin(0); i != c.column_cend(0); ++i) x = *i;
	auto it = a.begin(); it++; Index r = it.row() + it.column(); (void)r; bool h = it.isValid(); (void)h;
	it = a.set(it, s); it = a.erase(it);
}
template<class M> void mat(M& a, const M& c, S s) {
	iters(a, c, s);
	S x = c.at(0, 0); a.set(0, 0, x); x = c.linear_at(0); a.linear_set(0, x);
	bool h = c.has(0, 0); h = c.has(0, 0, x); Dimension d = c.rows() + c.columns() + c.size(); (void)d;
	x = c.sum(); x = c.avg(); h = c.has_nan(); h = c.has_inf(); h = c.has_zero(); h = c.empty(); x = c.trace();
	a += c; a -= c; a *= c; a *= s; M r = c + c; r = c - c; r = -c; r = c * c; r = c * s; r = s * c; h = c == c; h = c != c;
	a.swap(r); M t(c); t = c; M e;
	c.transpose(); c.conjugate(); c.adjugate(); c.mul(c);
	std::stringstream o; o << c;
}
template<class M> void algo(const M& A, M& L, M& U, M& P, DV& b, const DV& c) {
	LU::serial::cholesky(A, L); LU::serial::doolittle(A, L, U, P); LU::serial::ainv_lu(L, U, L, U);
	DV x = LU::serial::solve_lu(L, U, b); x = c; size_t it = 0;
	CG::serial::jacobi(A, L);
	x = Iterative::serial::jacobi(A, c, x, 10, 1e-3, &it); x = Iterative::serial::sor(A, c, x, 1.2, 10, 1e-3, &it);
	Check::matrixIsProjection(A); Check::matrixIsSymmetric(A); Check::matrixIsHermitian(A);
	Check::matrixIsSkewSymmetric(A); Check::matrixIsSkewHermitian(A);
	Check::matrixIsOrthogonal(A); Check::matrixIsUnitary(A);
	Operations::determinant(A); Operations::inverse(A); Operations::inverse(L, U); Operations::inverse(L, U, P);
	Construct::tril(A, 1); Construct::triu(A, 1); Construct::diag(A);
	A.mul(b); A.mul_left(b);
}
void all(DV& v, const DV& cv, FV& f, const FV& cf, DM& d, const DM& cd, SM& s, const SM& cs, FM& m, const FM& cm, S x,
		const DynamicVector<Index>& p) {
	vec(v, cv, x); vec(f, cf, x); mat(d, cd, x); mat(s, cs, x); mat(m, cm, x);
	algo(cd, d, d, d, v, cv); algo(cs, s, s, s, v, cv);
	LU::serial::ilu0(cs, s, s);
	DV n(3); v.resize(4); DV l({x, x}); FV g({x, x, x}); DM dd(2, 3); dd.resize(1, 1); SM ss(2, 3); SM st(2, 3, 4); ss.resize(1, 1);
	DM d3({{x}, {x}}); SM s3({{x}, {x}}); FM f3({{x}, {x}});
	cs.filled_count(); cs.row_filled_count(0); cs.column_filled_count(0);
	d += cm; d -= cm; d *= cm; bool h = cd == cd; (void)h;
	cd.mul(cf); cd.mul_left(cf); cs.mul(cf); cs.mul_left(cf); cm.mul(cf); cm.mul_left(cf);
	Construct::eye<DenseMatrix, S>(1, 1); Construct::eye<SparseMatrix, S>(1, 1); Construct::eye<S, 2, 3>();
	Construct::diag<DenseMatrix>(cv); Construct::diag<SparseMatrix>(cv);
	Construct::hilbert<DenseMatrix, S>(2); Construct::inv_hilbert<DenseMatrix, S>(2);
	Construct::hilbert<SparseMatrix, S>(2); Construct::inv_hilbert<SparseMatrix, S>(2);
	Convert::toSparseMatrix(cd); Convert::toDenseMatrix(cs);
	cuthill_mckee(cs); r_cuthill_mckee(cs); permutation_matrix<S>(p); inverse_permutation(p); permutate(cs, p); permutate(cv, p);
	Check::matrixIsOrthogonal(cm); Check::matrixIsUnitary(cm); Check::matrixIsSymmetric(cm); Check::matrixIsHermitian(cm);
	Check::matrixIsSkewSymmetric(cm); Check::matrixIsSkewHermitian(cm); Check::matrixIsProjection(cm);
	Operations::determinant(cm); LU::serial::cholesky(cm, m); LU::serial::ainv_lu(cm, cm, m, m); CG::serial::jacobi(cm, m);
	LU::serial::solve_lu(cm, cm, f);
	FixedVector<S,2> n2 = Math::normal<S, 2>(std::array<FixedVector<S,2>, 1>()); FV n3 = Math::normal<S, 3>(std::array<FV, 2>());
}
