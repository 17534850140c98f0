"""C20: compile-pass / compile-fail witnesses for the fixed-size types."""
import cc
import ir
from common import Report

PRE = '''#include "Vector.h"
#include "OutputStream.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixOperations.h"
#include "LU.h"
#include "quadrature/Quadrature.h"
#include "sf/PolyShapeFunction.h"
#include "Simplex.h"
#include "Normal.h"
#include <type_traits>
#include <string>
using namespace NS;
typedef double T;
typedef FixedVector<T,2> V2; typedef FixedVector<T,3> V3; typedef DynamicVector<T> DV;
typedef FixedMatrix<T,2,3> M23; typedef FixedMatrix<T,3,2> M32; typedef FixedMatrix<T,3,3> M33; typedef FixedMatrix<T,2,2> M22;
template<class A, class B> struct same { static_assert(std::is_same<A, typename std::remove_cv<typename std::remove_reference<B>::type>::type>::value, "result type"); };
// behaves like a number in every expression the library writes, but is not one
struct Nan0 { Nan0() {} Nan0(double) {} Nan0(int) {} Nan0(std::initializer_list<int>) {} operator double() const { return 0; }
  Nan0& operator+=(Nan0) { return *this; } Nan0& operator-=(Nan0) { return *this; } Nan0& operator*=(Nan0) { return *this; } Nan0& operator/=(Nan0) { return *this; } };
inline Nan0 operator+(Nan0, Nan0) { return 0.0; } inline Nan0 operator-(Nan0, Nan0) { return 0.0; } inline Nan0 operator*(Nan0, Nan0) { return 0.0; }
inline Nan0 operator/(Nan0, Nan0) { return 0.0; } inline bool operator==(Nan0, Nan0) { return 1; } inline bool operator!=(Nan0, Nan0) { return 1; }
inline bool operator<(Nan0, Nan0) { return 1; }
'''
POST = '\nvoid f(V2 v2, V3 v3, DV dv, M23 m23, M32 m32, M33 m33, M22 m22, T s, size_t n) { (void)s; (void)n;\n%s\n}\n'

# (name, body that must compile, body that must not)
PAIRS = [
    ('vector-add', 'same<V2, decltype(v2 + v2)>();', 'v2 + v3;'),
    ('vector-sub', 'same<V2, decltype(v2 - v2)>();', 'v2 - v3;'),
    ('vector-mul', 'same<V2, decltype(v2 * v2)>();', 'v2 * v3;'),
    ('vector-div', 'same<V2, decltype(v2 / v2)>();', 'v2 / v3;'),
    ('vector-neg', 'same<V3, decltype(-v3)>(); same<V3, decltype(v3 * s)>(); same<V3, decltype(s - v3)>(); same<V3, decltype(v3 / s)>();', None),
    ('vector-add-assign', 'v2 += v2;', 'v2 += v3;'),
    ('vector-sub-assign', 'v2 -= v2;', 'v2 -= v3;'),
    ('vector-mul-assign', 'v2 *= v2;', 'v2 *= v3;'),
    ('vector-div-assign', 'v2 /= v2;', 'v2 /= v3;'),
    ('vector-dot', 'same<T, decltype(v2.dot(v2))>();', 'v2.dot(v3);'),
    ('vector-eq', 'bool b = v2 == v2; (void)b;', 'bool b = v2 == v3; (void)b;'),
    ('vector-ne', 'bool b = v2 != v2; (void)b;', 'bool b = v2 != v3; (void)b;'),
    ('vector-assign', 'v2 = v2;', 'v2 = v3;'),
    ('vector-copy', 'V2 x(v2);', 'V2 x(v3);'),
    ('vector-swap', 'v2.swap(v2);', 'v2.swap(v3);'),
    ('vector-dynamic-mix', 'dv += dv;', 'dv += v2;'),
    ('vector-dynamic-mix2', 'v2 += v2;', 'v2 += dv;'),
    ('vector-dynamic-assign', 'dv = dv;', 'dv = v2;'),
    ('vector-resize', 'dv.resize(n);', 'v2.resize(n);'),
    ('vector-size-ctor', 'DV x(n);', 'V2 x(n);'),
    ('countable-size-ctor', 'CountableSet<T, std::vector<T>> x(n);', 'CountableSet<T, std::array<T,2>> x(n);'),
    ('vector-list', 'V2 x{1.0, 2.0}; DV y{1.0};', None),
    ('vector-normalized', 'same<V3, decltype(v3.normalized())>();', None),
    ('matrix-add', 'same<M23, decltype(m23 + m23)>();', 'm23 + m32;'),
    ('matrix-sub', 'same<M23, decltype(m23 - m23)>();', 'm23 - m32;'),
    ('matrix-hadamard', 'same<M23, decltype(m23 * m23)>();', 'm23 * m32;'),
    ('matrix-neg', 'same<M23, decltype(-m23)>(); same<M23, decltype(m23 * s)>(); same<M23, decltype(s * m23)>();', None),
    ('matrix-add-assign', 'm23 += m23;', 'm23 += m32;'),
    ('matrix-sub-assign', 'm23 -= m23;', 'm23 -= m32;'),
    ('matrix-mul-assign', 'm23 *= m23;', 'm23 *= m32;'),
    ('matrix-eq', 'bool b = m23 == m23; (void)b;', 'bool b = m23 == m32; (void)b;'),
    ('matrix-ne', 'bool b = m23 != m23; (void)b;', 'bool b = m23 != m32; (void)b;'),
    ('matrix-assign', 'm23 = m23;', 'm23 = m32;'),
    ('matrix-swap', 'm23.swap(m23);', 'm23.swap(m32);'),
    ('matrix-transpose', 'same<M32, decltype(m23.transpose())>(); same<M32, decltype(m23.adjugate())>(); same<M23, decltype(m23.conjugate())>();', None),
    ('matrix-transpose-type', 'm32 = m23.transpose();', 'm23 = m23.transpose();'),
    ('matrix-adjugate-type', 'm32 = m23.adjugate();', 'm23 = m23.adjugate();'),
    ('matrix-mul', 'same<M22, decltype(m23.mul(m32))>(); same<M33, decltype(m32.mul(m23))>(); same<M23, decltype(m23.mul(m33))>();', 'm23.mul(m23);'),
    ('matrix-mul2', 'm23.mul(m33);', 'm33.mul(m23);'),
    ('matrix-vector', 'same<V2, decltype(m23.mul(v3))>();', 'm23.mul(v2);'),
    ('vector-matrix', 'same<V3, decltype(m23.mul_left(v2))>();', 'm23.mul_left(v3);'),
    ('matrix-resize', 'DenseMatrix<T> d; d.resize(n, n);', 'm23.resize(n, n);'),
    ('matrix-size-ctor', 'DenseMatrix<T> d(n, n);', 'M23 x(n, n);'),
    ('matrix-dynamic-eq', 'DenseMatrix<T> d; bool b = d == d; (void)b;', 'DenseMatrix<T> d; m23 += d;'),
    ('matrix-scalar-type', 'm23 *= s;', 'FixedMatrix<float,2,3> g; m23 += g;'),
    ('eye', 'same<M23, decltype(Construct::eye<T,2,3>())>();', 'm32 = Construct::eye<T,2,3>();'),
    ('normal-2d', 'same<V2, decltype(Math::normal<T,2>(std::array<V2,1>()))>();', 'Math::normal<T,2>(std::array<V2,2>());'),
    ('normal-3d', 'same<V3, decltype(Math::normal<T,3>(std::array<V3,2>()))>();', 'Math::normal<T,1>(std::array<FixedVector<T,1>,0>());'),
    ('simplex-2d', 'Simplex<T,2> x; x.prepare();', 'Simplex<T,3> x;'),
    ('simplex-1d', 'Simplex<T,2> x; x.prepare();', 'Simplex<T,1> x;'),
    ('simplex-vertex', 'Simplex<T,2> x; x[0] = v2;', 'Simplex<T,2> x; x[0] = v3;'),
    ('element-dynamic', 'DynamicVector<T> x;', 'DynamicVector<Nan0> x;'),
    ('element-dynamic-size', 'DynamicVector<T> x(3);', 'DynamicVector<Nan0> x(3);'),
    ('element-fixed', 'FixedVector<T,2> x;', 'FixedVector<Nan0,2> x;'),
    ('element-dense', 'DenseMatrix<T> x;', 'DenseMatrix<Nan0> x;'),
    ('element-dense-size', 'DenseMatrix<T> x(2, 2);', 'DenseMatrix<Nan0> x(2, 2);'),
    ('element-fixedmatrix', 'FixedMatrix<T,2,2> x;', 'FixedMatrix<Nan0,2,2> x;'),
    ('element-sparse', 'SparseMatrix<T> x;', 'SparseMatrix<Nan0> x;'),
    ('element-sparse-size', 'SparseMatrix<T> x(2, 2);', 'SparseMatrix<Nan0> x(2, 2);'),
    ('element-string', 'DynamicVector<int> x; DenseMatrix<std::complex<T>> y; FixedVector<long double, 2> z;', 'DynamicVector<std::string> x;'),
    ('element-pointer', 'DynamicVector<char> x;', 'DynamicVector<T*> x;'),
    ('factory', 'GaussLegendreQuadratureFactory<T,2,3> x;', 'GaussLegendreQuadratureFactory<T,2,4> x;'),
]
for k in (1, 2):
    for o in (1, 2, 3):
        PAIRS.append(('quadrature-%d-%d' % (k, o), 'GaussLegendreQuadrature<T,%d,%d> q; (void)q;' % (k, o),
                      'GaussLegendreQuadrature<T,%d,%d> q; (void)q;' % (k, o + 3)))
    PAIRS.append(('quadrature-%d-0' % k, 'GaussLegendreQuadrature<T,%d,1> q; (void)q;' % k, 'GaussLegendreQuadrature<T,%d,0> q; (void)q;' % k))
for o in (1, 2, 3):
    PAIRS.append(('quadrature-3-%d' % o, 'GaussLegendreQuadrature<T,2,%d> q; (void)q;' % o, 'GaussLegendreQuadrature<T,3,%d> q; (void)q;' % o))
GOOD = [(1, 1, 2), (1, 2, 3), (2, 1, 3), (2, 2, 6), (2, 3, 10), (3, 1, 4), (3, 2, 10)]
BADPSF = [(1, 3, 4), (2, 4, 15), (3, 3, 20), (1, 4, 5), (3, 4, 35)]
FNS = {'value': 'p.value(0, x);', 'gradient': 'p.gradient(0, x);', 'gradient2': 'p.gradient2(0, x);',
       'value-nodes': 'p.value(0, x, c);', 'gradient-nodes': 'p.gradient(0, x, c);', 'gradient2-nodes': 'p.gradient2(0, x, c);'}
DECL = 'typedef PolyShapePolicy<T,%d,%d> PP; PP p; FixedVector<T,%d> x; FixedVector<T,%d> c; (void)c; '
for k, o, d in GOOD:
    for n, e in FNS.items():
        PAIRS.append(('shape-%d-%d-%s' % (k, o, n), DECL % (k, o, k, d) + e, None))
    PAIRS.append(('shape-%d-%d-dof' % (k, o), DECL % (k, o, k, d) + 'p.value(0, x, c);', DECL % (k, o, k, d + 1) + 'p.value(0, x, c);'))
    PAIRS.append(('shape-%d-%d-point' % (k, o), DECL % (k, o, k, d) + 'p.value(0, x);', DECL % (k, o, k + 1, d) + 'p.value(0, x);'))
for k, o, d in BADPSF:
    for n, e in FNS.items():
        PAIRS.append(('shape-%d-%d-%s' % (k, o, n), DECL % (2, 1, 2, 3) + e, DECL % (k, o, k, d) + e))
for o in (1, 2):
    PAIRS.append(('prepare-2-%d' % o, 'Mesh<T,2> m; PolyShapePolicy<T,2,%d>::prepareMesh(m);' % o,
                  'Mesh<T,2> m; PolyShapePolicy<T,2,%d>::prepareMesh(m);' % (o + 2)))


def run():
    rep = Report('C20')
    good = [(n, g) for n, g, b in PAIRS]
    bad = [(n, b) for n, g, b in PAIRS if b]
    gj = [{'code': PRE + '\n'.join((POST % g).replace('void f(', 'void f%d(' % i) for i, (n, g) in enumerate(good))}]
    errs = cc.many(gj)[0]
    if errs:        # locate the failing witnesses one by one
        res = cc.many([{'code': PRE + POST % g} for n, g in good])
    else:
        res = [[] for _ in good]
    for (n, g), e in zip(good, res):
        rep.ob('compiles', not e, n + ': ' + g)
        if e:
            rep.violation('rejected:' + n, e[0].split(' error:')[0].replace('/repo/src/', ''),
                          'fitting use does not compile: %s (%s)' % (g, e[0]))
    for (n, b), e in zip(bad, cc.many([{'code': PRE + POST % b} for n, b in bad])):
        rep.ob('rejected', bool(e), '%s: %s -> %s' % (n, b, e[0].split('error:')[-1].strip() if e else ''))
        if not e:
            rep.violation('accepted:' + n, 'witness %s' % n, 'use with wrong dimensions compiles: %s' % b)
    rep.need('compiles', 60)
    rep.need('rejected', 60)
    rep.cov['explanation'] = (
        'Compile-time witnesses checked by the clang front end against the current headers. Every rejection witness '
        'has a twin that differs only in the dimension (or element type) and must compile, so a rejection is caused by the '
        'wrong shape and not by a broken witness; result types are pinned by static_assert(is_same).')
    return rep.finish()
