// Vectors, matrices, powers and Legendre polynomials: what the schemes compute with, for all components.
#include "common.hpp"
#include <cassert>
#include <sstream>
#include <cmath>
#include "alsutils/types.hpp"
#include "alsutils/math/FastPower.hpp"
#include "alsutils/math/PowPower.hpp"
#include "alsutils/math/legendre.hpp"
using namespace alsutils;
namespace {
static const char* const A[] = {"a0", "a1", "a2", "a3", "a4", "a5"};
static const char* const B[] = {"b0", "b1", "b2", "b3", "b4", "b5"};
template<class V> V some(const char* const* names) { V v; for (size_t i = 0; i < V::size(); ++i) v[i] = av_real(names[i]); return v; }
template<class V> V other(const char* const* names) { V v; for (size_t i = 0; i < V::size(); ++i) v[i] = av_pos(names[i]); return v; }

template<class V> void componentwise() {
    const V a = some<V>(A), b = other<V>(B), zero;
    const double s = av_pos("s");
    const V sum = a + b, diff = a - b, quot = a / b, scaled = s * a, div = a / s;
    double dot = 0;
    for (size_t i = 0; i < V::size(); ++i) dot += a[i] * b[i];
    av_cover("computed");
    for (size_t i = 0; i < V::size(); ++i) {
        av_eq("a new vector is zero", zero[i], 0);
        av_eq("sum", sum[i], a[i] + b[i]);
        av_eq("difference", diff[i], a[i] - b[i]);
        av_eq("quotient", quot[i], a[i] / b[i]);
        av_eq("multiple", scaled[i], s * a[i]);
        av_eq("division by a number", div[i], a[i] / s);
    }
    av_eq("dot product", a.dot(b), dot);
}
template<class V> void updates() {
    const V a = some<V>(A), b = other<V>(B);
    V c, d(a);
    c = a;
    V e(av_real("t"));
    d += b;
    av_cover("computed");
    for (size_t i = 0; i < V::size(); ++i) {
        av_eq("assigned", c[i], a[i]);
        av_eq("added to", d[i], a[i] + b[i]);
        av_eq("all components", e[i], e[0]);
    }
    av_eq("the given number", e[0], av_real("t"));
    av_assert("equal to itself", c == a);
}
template<class V> void unequal(int j) {
    const V a = some<V>(A);
    V b(a);
    b[j] += av_pos("d");
    av_cover("changed");
    av_assert("different in one component", !(a == b));
}
}
AV_CONTRACT(P13, vector_componentwise_1) { componentwise<rvec1>(); }
AV_CONTRACT(P13, vector_componentwise_2) { componentwise<rvec2>(); }
AV_CONTRACT(P13, vector_componentwise_3) { componentwise<rvec3>(); }
AV_CONTRACT(P13, vector_componentwise_4) { componentwise<rvec4>(); }
AV_CONTRACT(P13, vector_componentwise_5) { componentwise<rvec5>(); }
AV_CONTRACT(P13, vector_componentwise_6) { componentwise<rvec6>(); }
AV_CONTRACT(P13, vector_updates_1) { updates<rvec1>(); }
AV_CONTRACT(P13, vector_updates_2) { updates<rvec2>(); }
AV_CONTRACT(P13, vector_updates_3) { updates<rvec3>(); }
AV_CONTRACT(P13, vector_updates_4) { updates<rvec4>(); }
AV_CONTRACT(P13, vector_updates_5) { updates<rvec5>(); }
AV_CONTRACT(P13, vector_unequal) {
    unequal<rvec1>(0);
    for (int i = 0; i < 2; ++i) unequal<rvec2>(i);
    for (int i = 0; i < 3; ++i) unequal<rvec3>(i);
    for (int i = 0; i < 4; ++i) unequal<rvec4>(i);
    for (int i = 0; i < 5; ++i) unequal<rvec5>(i);
    for (int i = 0; i < 6; ++i) unequal<rvec6>(i);
}
AV_CONTRACT(P13, vector_order) {
    // the named components are the indexed ones, in this order
    const rvec6 a(av_real("a0"), av_real("a1"), av_real("a2"), av_real("a3"), av_real("a4"), av_real("a5"));
    for (int i = 0; i < 6; ++i) av_eq("six components", a[i], av_real(A[i]));
    const rvec5 b(a.x, a.y, a.z, a.v, a.w), e(a.x, rvec3(a.y, a.z, a.v), a.w);
    for (int i = 0; i < 5; ++i) { av_eq("five components", b[i], a[i]); av_eq("density, momentum, energy", e[i], a[i]); }
    const rvec4 c(a.x, a.y, a.z, a.v), d(a.x, rvec2(a.y, a.z), a.v);
    for (int i = 0; i < 4; ++i) { av_eq("four components", c[i], a[i]); av_eq("density, momentum, energy in two dimensions", d[i], a[i]); }
    const rvec3 f(a.x, a.y, a.z), g(a.x, rvec1(a.y), a.z);
    for (int i = 0; i < 3; ++i) { av_eq("three components", f[i], a[i]); av_eq("density, momentum, energy in one dimension", g[i], a[i]); }
    const rvec2 h(a.x, a.y);
    for (int i = 0; i < 2; ++i) av_eq("two components", h[i], a[i]);
    av_eq("one component", rvec1(a.x)[0], a[0]);
    av_cover("built");
}
AV_CONTRACT(P13, vector_norm) {
    const double x = av_real("x");
    av_eq("the norm of a number is its size", rvec1(x).norm(), x < 0 ? -x : x);
    av_cover("computed");
}
AV_CONTRACT(P13, vector_products) {
    const rvec3 a = some<rvec3>(A), b = other<rvec3>(B), c = a * b;
    const ivec3 i(av_int("i", -5, 5), av_int("j", -5, 5), av_int("k", -5, 5));
    const rvec3 d = a * i, e = a + i;
    const ivec3 h = int(av_int("h", -9, 9)) * i;
    for (int n = 0; n < 3; ++n) {
        av_eq("products", c[n], a[n] * b[n]);
        av_eq("products with integers", d[n], a[n] * i[n]);
        av_eq("sums with integers", e[n], a[n] + i[n]);
        av_assert("multiples of integers", h[n] == av_int("h", -9, 9) * i[n]);
    }
    for (int n = 0; n < 3; ++n) {
        const ivec3 v = make_direction_vector(n);
        av_assert("unit vectors", v.x == (n == 0) && v.y == (n == 1) && v.z == (n == 2));
    }
    const int nx = av_int("nx", 1, 100), ny = av_int("ny", 1, 100), nz = av_int("nz", 1, 100);
    const ivec3 f = make_space_filling_vector(nx, ny, nz);
    av_assert("directions with cells", f.x == (nx > 1) && f.y == (ny > 1) && f.z == (nz > 1));
    av_cover("computed");
}

namespace {
const char* const M[5][5] = {{"m00", "m01", "m02", "m03", "m04"}, {"m10", "m11", "m12", "m13", "m14"}, {"m20", "m21", "m22", "m23", "m24"}, {"m30", "m31", "m32", "m33", "m34"}, {"m40", "m41", "m42", "m43", "m44"}};
const char* const N[5][5] = {{"n00", "n01", "n02", "n03", "n04"}, {"n10", "n11", "n12", "n13", "n14"}, {"n20", "n21", "n22", "n23", "n24"}, {"n30", "n31", "n32", "n33", "n34"}, {"n40", "n41", "n42", "n43", "n44"}};
template<size_t r, size_t c> matrix<double, r, c> anyMatrix(const char* const (*names)[5]) {
    matrix<double, r, c> m;
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = av_real(names[i][j]);
    return m;
}
template<size_t n, class V> void matrices() {
    const auto m = anyMatrix<n, n>(M), k = anyMatrix<n, n>(N);
    const V v = some<V>(A), p = m * v;
    const auto q = m * k, t = m.transposed(), id = matrix<double, n, n>::identity();
    const matrix<double, n, n> zero;
    av_cover("computed");
    for (size_t i = 0; i < n; ++i) {
        double sum = 0;
        for (size_t j = 0; j < n; ++j) sum += m(i, j) * v[j];
        av_eq("matrix times vector", p[i], sum);
        for (size_t j = 0; j < n; ++j) {
            double e = 0;
            for (size_t l = 0; l < n; ++l) e += m(i, l) * k(l, j);
            av_eq("matrix times matrix", q(i, j), e);
            av_eq("transposed", t(j, i), m(i, j));
            av_eq("elements", m(i, j), av_real(M[i][j]));
            av_eq("identity", id(i, j), i == j ? 1 : 0);
            av_eq("a new matrix is zero", zero(i, j), 0);
        }
    }
}
}
AV_CONTRACT(P13, matrix_1) { matrices<1, rvec1>(); }
AV_CONTRACT(P13, matrix_2) { matrices<2, rvec2>(); }
AV_CONTRACT(P13, matrix_3) { matrices<3, rvec3>(); }
AV_CONTRACT(P13, matrix_4) { matrices<4, rvec4>(); }
AV_CONTRACT(P13, matrix_5) { matrices<5, rvec5>(); }
AV_CONTRACT(P13, matrix_transposed_rectangular) {
    const auto m = anyMatrix<2, 4>(M);
    const auto t = m.transposed();
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 4; ++j) av_eq("transposed", t(j, i), m(i, j));
    av_cover("computed");
}
AV_CONTRACT(P13, matrix_normalized) {
    auto m = anyMatrix<3, 3>(M);
    for (int j = 0; j < 3; ++j) m(0, j) = av_pos(N[0][j]);
    const auto n = m.normalized();
    for (int j = 0; j < 3; ++j) {
        const double norm = std::sqrt(m(0, j) * m(0, j) + m(1, j) * m(1, j) + m(2, j) * m(2, j));
        for (int i = 0; i < 3; ++i) av_eq("columns divided by their length", n(i, j) * norm, m(i, j));
    }
    av_cover("computed");
}
AV_CONTRACT(P13, powers) {
    const double x = av_real("x"), p = av_pos("p"), y = av_pos("y");
    av_eq("first", math::FastPower<1>::power(x, 1), x);
    av_eq("second", math::FastPower<2>::power(x, 2), x * x);
    av_eq("third", math::FastPower<3>::power(x, 3), x * x * x);
    av_eq("fourth", math::FastPower<4>::power(x, 4), x * x * x * x);
    av_eq("fifth", math::FastPower<5>::power(x, 5), x * x * x * x * x);
    av_eq("any", math::PowPower::power(y, p), std::pow(y, p));
    av_eq("square", square(x), x * x);
    av_cover("computed");
}
namespace {
double choose(int n, int k) { double c = 1; for (int i = 0; i < k; ++i) c = c * (n - i) / (i + 1); return c; }
double legendreSpec(int n, double x) {
    // Rodrigues' formula, expanded
    double s = 0, a = (x - 1) / 2, b = (x + 1) / 2;
    for (int k = 0; k <= n; ++k) {
        double t = choose(n, k) * choose(n, k);
        for (int i = 0; i < n - k; ++i) t *= a;
        for (int i = 0; i < k; ++i) t *= b;
        s += t;
    }
    return s;
}
}
AV_CONTRACT(P13, legendre_low) { const double x = av_real("x"); for (int n = 0; n < 6; ++n) av_eq("Legendre polynomial", math::legendre_p(n, x), legendreSpec(n, x)); av_cover("computed"); }
AV_CONTRACT(P13, legendre_high) { const double x = av_range("x", -1, 1); for (int n = 6; n < 12; ++n) av_eq("Legendre polynomial", math::legendre_p(n, x), legendreSpec(n, x)); av_cover("computed"); }
