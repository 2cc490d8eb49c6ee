// AV-SOURCES: alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp
#include "av.hpp"
#include <cmath>
#include "alsfvm/memory/HostMemory.hpp"
using namespace alsfvm;
typedef memory::HostMemory<real> HM;
namespace {
long nx, ny, nz, x, y, z;
void shape() {
    nx = av_int("nx", 1, 1000); ny = av_int("ny", 1, 1000); nz = av_int("nz", 1, 1000); av_shape(nx, ny, nz);
    x = av_int("x", 0, 1000), y = av_int("y", 0, 1000), z = av_int("z", 0, 1000);
    av_assume(x < nx && y < ny && z < nz);
}
void fill(HM& m, const char* n) { av_array(m.getPointer(), n, nx, ny, nz); }
template<class OP, class SPEC> void binary(OP op, SPEC spec) {
    shape();
    HM a(nx, ny, nz), b(nx, ny, nz);
    fill(a, "a"); fill(b, "b");
    const double oa = a.at(x, y, z), ob = b.at(x, y, z);
    av_nothrow("matching operands are accepted");
    op(a, b);
    av_cover("end");
    av_eq("element-wise result", a.at(x, y, z), spec(oa, ob));
    av_eq("right operand unchanged", b.at(x, y, z), ob);
}
template<class OP, class SPEC> void unary(OP op, SPEC spec) {
    shape();
    HM a(nx, ny, nz);
    fill(a, "a");
    const double oa = a.at(x, y, z), s = av_real("s");
    av_nothrow("accepted");
    op(a, s);
    av_cover("end");
    av_eq("element-wise result", a.at(x, y, z), spec(oa, s));
}
// operands of different sizes are rejected
template<class OP> void rejects(OP op) {
    const long n = av_int("n", 1, 1000), m = av_int("m", 1, 1000);
    av_assume(n != m);
    HM a(n, 1, 1), b(m, 1, 1);
    av_array(a.getPointer(), "a", n, 1, 1); av_array(b.getPointer(), "b", m, 1, 1);
    av_cover("different sizes");
    av_maythrow();
    op(a, b);
    av_assert("operands of different sizes are rejected", false);
}
}
AV_CONTRACT(P10, plus_memory) { binary([](HM& a, HM& b) { a += b; }, [](double a, double b) { return a + b; }); }
AV_CONTRACT(P10, minus_memory) { binary([](HM& a, HM& b) { a -= b; }, [](double a, double b) { return a - b; }); }
AV_CONTRACT(P10, times_memory) { binary([](HM& a, HM& b) { a *= b; }, [](double a, double b) { return a * b; }); }
AV_CONTRACT(P10, divide_memory) { binary([](HM& a, HM& b) { a /= b; }, [](double a, double b) { return a / b; }); }
AV_CONTRACT(P10, add_power) { binary([](HM& a, HM& b) { a.addPower(b, 2.0); }, [](double a, double b) { return a + b * b; }); }
AV_CONTRACT(P10, add_power_any) { const double p = av_pos("p"); binary([p](HM& a, HM& b) { a.addPower(b, p); }, [p](double a, double b) { return a + std::pow(b, p); }); }
AV_CONTRACT(P10, add_power_factor) { const double p = av_pos("p"), f = av_real("f"); binary([=](HM& a, HM& b) { a.addPower(b, p, f); }, [=](double a, double b) { return a + f * std::pow(b, p); }); }
AV_CONTRACT(P10, subtract_power) { const double p = av_pos("p"); binary([p](HM& a, HM& b) { a.subtractPower(b, p); }, [p](double a, double b) { return a - std::pow(b, p); }); }
AV_CONTRACT(P10, copy_from) { binary([](HM& a, HM& b) { a.copyFrom(b); }, [](double, double b) { return b; }); }
AV_CONTRACT(P10, copy_to_host) { binary([](HM& a, HM& b) { b.copyToHost(a.getPointer(), a.getSize()); }, [](double, double b) { return b; }); }
AV_CONTRACT(P10, copy_from_host) { binary([](HM& a, HM& b) { a.copyFromHost(b.getPointer(), b.getSize()); }, [](double, double b) { return b; }); }
AV_CONTRACT(P10, plus_scalar) { unary([](HM& a, double s) { a += s; }, [](double a, double s) { return a + s; }); }
AV_CONTRACT(P10, minus_scalar) { unary([](HM& a, double s) { a -= s; }, [](double a, double s) { return a - s; }); }
AV_CONTRACT(P10, times_scalar) { unary([](HM& a, double s) { a *= s; }, [](double a, double s) { return a * s; }); }
AV_CONTRACT(P10, divide_scalar) { unary([](HM& a, double s) { a /= s; }, [](double a, double s) { return a / s; }); }
AV_CONTRACT(P10, make_zero) { unary([](HM& a, double s) { a.makeZero(); }, [](double a, double s) { return 0.0; }); }
AV_CONTRACT(P10, rejects_plus) { rejects([](HM& a, HM& b) { a += b; }); }
AV_CONTRACT(P10, rejects_minus) { rejects([](HM& a, HM& b) { a -= b; }); }
AV_CONTRACT(P10, rejects_times) { rejects([](HM& a, HM& b) { a *= b; }); }
AV_CONTRACT(P10, rejects_divide) { rejects([](HM& a, HM& b) { a /= b; }); }
AV_CONTRACT(P10, rejects_power) { rejects([](HM& a, HM& b) { a.addPower(b, 2.0); }); }
AV_CONTRACT(P10, rejects_power_factor) { rejects([](HM& a, HM& b) { a.addPower(b, 2.0, 3.0); }); }
AV_CONTRACT(P10, rejects_subtract_power) { rejects([](HM& a, HM& b) { a.subtractPower(b, 2.0); }); }
AV_CONTRACT(P10, rejects_copy) { rejects([](HM& a, HM& b) { a.copyFrom(b); }); }
AV_CONTRACT(P10, rejects_linear_combination) {
    const int k = av_int("k", 0, 3);
    rejects([k](HM& a, HM& b) { a.addLinearCombination(1, 1, k == 0 ? b : a, 1, k == 1 ? b : a, 1, k == 2 ? b : a, 1, k == 3 ? b : a); });
}
AV_CONTRACT(P10, linear_combination) {
    shape();
    HM a(nx, ny, nz), b(nx, ny, nz), c(nx, ny, nz), d(nx, ny, nz), e(nx, ny, nz);
    fill(a, "a"); fill(b, "b"); fill(c, "c"); fill(d, "d"); fill(e, "e");
    double k[5]; k[0] = av_real("k0"); k[1] = av_real("k1"); k[2] = av_real("k2"); k[3] = av_real("k3"); k[4] = av_real("k4");
    const double want = k[0] * a.at(x, y, z) + k[1] * b.at(x, y, z) + k[2] * c.at(x, y, z) + k[3] * d.at(x, y, z) + k[4] * e.at(x, y, z);
    av_nothrow("matching operands are accepted");
    a.addLinearCombination(k[0], k[1], b, k[2], c, k[3], d, k[4], e);
    av_cover("end");
    av_eq("a = k0 a + k1 b + k2 c + k3 d + k4 e", a.at(x, y, z), want);
}
// aliasing: a = k0 a + k1 a + ...
AV_CONTRACT(P10, linear_combination_aliased) {
    shape();
    HM a(nx, ny, nz), b(nx, ny, nz);
    fill(a, "a"); fill(b, "b");
    const double k0 = av_real("k0"), k1 = av_real("k1"), k2 = av_real("k2");
    const double want = (k0 + k1) * a.at(x, y, z) + k2 * b.at(x, y, z);
    av_nothrow("accepted");
    a.addLinearCombination(k0, k1, a, k2, b, 0, b, 0, a);
    av_cover("end");
    av_eq("a may appear on the right as well", a.at(x, y, z), want);
}
AV_CONTRACT(P10, view_index) {
    shape();
    HM a(nx, ny, nz);
    fill(a, "a");
    av_cover("end");
    av_eq("x varies fastest, then y, then z", a.getView().at(x, y, z), a.getPointer()[(z * ny + y) * nx + x]);
    av_assert("size", (long)a.getSize() == nx * ny * nz && (long)a.getSizeX() == nx && (long)a.getSizeY() == ny && (long)a.getSizeZ() == nz);
}
AV_CONTRACT(P10, write_through_view) {
    shape();
    HM a(nx, ny, nz);
    fill(a, "a");
    const long i = av_int("i", 0, 1000), j = av_int("j", 0, 1000), k = av_int("k", 0, 1000);
    av_assume(i < nx && j < ny && k < nz);
    const double before = a.at(x, y, z), v = av_real("v");
    auto view = a.getView();
    view.at(i, j, k) = v;
    av_cover("end");
    av_eq("a write changes that cell and no other", a.at(x, y, z), (x == i && y == j && z == k) ? v : before);
}
AV_CONTRACT(P10, copy_internal) {
    shape();
    HM a(nx, ny, nz);
    fill(a, "a");
    const long x0 = av_int("x0", 0, 1000), y0 = av_int("y0", 0, 1000), z0 = av_int("z0", 0, 1000);
    const long mx = av_int("mx", 1, 1000), my = av_int("my", 1, 1000), mz = av_int("mz", 1, 1000);
    av_assume(x0 + mx <= nx && y0 + my <= ny && z0 + mz <= nz);
    av_shape(mx, my, mz);
    HM out(mx, my, mz);
    av_array(out.getPointer(), "out", mx, my, mz);
    const double* old = av_clone(a.getPointer(), nx * ny * nz);
    a.copyInternalCells(x0, x0 + mx, y0, y0 + my, z0, z0 + mz, out.getPointer(), mx * my * mz);
    const long i = av_int("i", 0, 1000), j = av_int("j", 0, 1000), k = av_int("k", 0, 1000);
    av_assume(i < mx && j < my && k < mz);
    av_cover("end");
    av_eq("the box is packed in order", out.getPointer()[(k * my + j) * mx + i], old[((k + z0) * ny + j + y0) * nx + i + x0]);
    av_eq("the source is unchanged", a.at(x, y, z), old[(z * ny + y) * nx + x]);
}
