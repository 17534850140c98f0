// Instantiates the vectors, matrices and matrix algorithms for complex numbers.
#include "Vector.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixCheck.h"
#include "matrix/MatrixConverter.h"
#include "LU.h"
#include "CG.h"
#include "Iterative.h"
using namespace NS;
typedef std::complex<double> T;
typedef DynamicVector<T> DV;
typedef FixedVector<T,3> FV3;
typedef DenseMatrix<T> DM;
typedef SparseMatrix<T> SM;
typedef FixedMatrix<T,2,3> FM23;
typedef FixedMatrix<T,3,3> FM33;
namespace drv {
template<class M> void mat(const M& a, const M& b, M& c, T s, const DV& v) {
	a.transpose(); a.conjugate(); a.adjugate(); a.sum(); a.avg(); a.trace(); a.has_nan(); a.has_inf(); a.has_zero();
	a + b; a - b; a * b; a * s; s * a; -a; c += b; c -= b; c *= b; c *= s; a.mul(v); a.mul_left(v); a.empty();
}
void all(const DM& d, DM& d2, const SM& s, SM& s2, const FM23& f, FM23& f2, const FM33& g, FM33& g2, T t, DV& v, const DV& w, FV3& x, const FV3& y) {
	mat(d, d, d2, t, w); mat(s, s, s2, t, w);
	d.mul(d); s.mul(s); f.mul(g);
	f.transpose(); f.conjugate(); f.adjugate(); f.sum(); f.trace(); g.adjugate(); g.conjugate();
	f + f; f - f; f * f; f * t; t * f; -f; f2 += f; f2 -= f; f2 *= f; f2 *= t;
	v.dot(w); v.magSqr(); v.sum(); v.avg(); v.hasNaN(); v.hasInf(); v.hasZero(); v.max(); v.min(); v.mag(); complex_abs(t); v.do_reciprocal(); v.fill(t);
	v += w; v -= w; v *= w; v /= w; v += t; v -= t; v *= t; v /= t; v + w; v - w; v * w; v / w; v + t; t + v; v - t; t - v; v * t; t * v; v / t; t / v; -v;
	(void)(v == w); (void)(v != w); (void)(x == y); x.dot(y); x.magSqr();
	v.at(0); v.set(0, t); v.linear_at(0); v.linear_set(0, t);
	Check::matrixIsHermitian(d); Check::matrixIsSkewHermitian(d); Check::matrixIsUnitary(d); Check::matrixIsSymmetric(d);
	Check::matrixIsHermitian(s);
	Convert::toSparseMatrix(d); Convert::toDenseMatrix(s);
}
}
