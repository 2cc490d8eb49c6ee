// AV-SOURCES: alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/reconstruction/WENOCPU.cpp alsfvm/src/reconstruction/WENOCoefficients.cpp alsfvm/src/reconstruction/ENOCoefficients.cpp alsfvm/src/reconstruction/Reconstruction.cpp
#include "common.hpp"
#include "alsfvm/reconstruction/WENOCPU.hpp"
using namespace alsfvm;
namespace {
// the k candidate values at the upper face (stencil r starts r cells below), their linear weights and smoothness
// indicators; v[k-1+i] is the value in cell i.  The lower face is the mirror image.
template<int k> double upper(const double* v, const double* w, bool mirror) {
    auto V = [&](int i) { return v[k - 1 + (mirror ? -i : i)]; };
    auto W = [&](int i) { return w[k - 1 + (mirror ? -i : i)]; };
    double c[3], b[3], d[3];
    if (k == 2) {
        c[0] = 0.5 * V(0) + 0.5 * V(1);
        c[1] = -0.5 * V(-1) + 1.5 * V(0);
        b[0] = (W(1) - W(0)) * (W(1) - W(0));
        b[1] = (W(0) - W(-1)) * (W(0) - W(-1));
        d[0] = 2.0 / 3.0; d[1] = 1.0 / 3.0;
    } else {
        c[0] = (2 * V(0) + 5 * V(1) - V(2)) / 6;
        c[1] = (-V(-1) + 5 * V(0) + 2 * V(1)) / 6;
        c[2] = (2 * V(-2) - 7 * V(-1) + 11 * V(0)) / 6;
        auto sq = [](double x) { return x * x; };
        b[0] = 13.0 / 12.0 * sq(W(0) - 2 * W(1) + W(2)) + 0.25 * sq(3 * W(0) - 4 * W(1) + W(2));
        b[1] = 13.0 / 12.0 * sq(W(-1) - 2 * W(0) + W(1)) + 0.25 * sq(W(-1) - W(1));
        b[2] = 13.0 / 12.0 * sq(W(-2) - 2 * W(-1) + W(0)) + 0.25 * sq(W(-2) - 4 * W(-1) + 3 * W(0));
        d[0] = 0.3; d[1] = 0.6; d[2] = 0.1;
    }
    double num = 0, den = 0;
    for (int r = 0; r < k; ++r) {
        const double a = d[r] / ((b[r] + 1e-8) * (b[r] + 1e-8));
        num += a * c[r];
        den += a;
    }
    return num / den;
}
template<int k, int dim, int dir, int nvars> void weno() {
    reconstruction::WENOCPU<k> rec;
    const long g = rec.getNumberOfGhostCells();
    av_eq("as many ghost cells as the order", double(g), k);
    const long tx = av_int("tx", 2 * g + 1, 100000), nx = tx - 2 * g;
    const long ty = dim > 1 ? av_int("ty", 2 * g + 2, 100000) : 1, ny = dim > 1 ? ty - 2 * g : 1;
    const long tz = dim > 2 ? av_int("tz", 2 * g + 2, 100000) : 1, nz = dim > 2 ? tz - 2 * g : 1;
    auto u = spec::makeVolume(nvars, nx, ny, nz, g);
    auto l = spec::makeVolume(nvars, nx, ny, nz, g);
    auto r = spec::makeVolume(nvars, nx, ny, nz, g);
    spec::arbitrary(*u, spec::U);
    spec::arbitrary(*l, spec::P);
    spec::arbitrary(*r, spec::Q);
    const double* uold[2];
    for (int v = 0; v < nvars; ++v) uold[v] = spec::old(*u, v);
    av_cover("reconstructs");
    av_nothrow("reconstruction is defined for every size");
    rec.performReconstruction(*u, dir, nvars - 1, *l, *r);
    const long x = av_int("x", 0, 100000), y = dim > 1 ? av_int("y", 0, 100000) : 0, z = dim > 2 ? av_int("z", 0, 100000) : 0;
    av_assume(x < tx && y < ty && z < tz);
    const long i = (z * ty + y) * tx + x, step = dir == 0 ? 1 : dir == 1 ? tx : tx * ty;
    for (int v = 0; v < nvars; ++v) av_eq("the input is not modified", spec::get(*u, v, x, y, z), uold[v][i]);
    // the interior cells and one layer around them in the direction of the reconstruction
    bool inside = x >= g - (dir == 0) && x < tx - g + (dir == 0);
    if (dim > 1) inside = inside && y >= g - (dir == 1) && y < ty - g + (dir == 1);
    if (dim > 2) inside = inside && z >= g - (dir == 2) && z < tz - g + (dir == 2);
    av_assume(inside);
    double w[nvars][2 * k - 1];
    for (int v = 0; v < nvars; ++v) for (int j = -k + 1; j < k; ++j) w[v][k - 1 + j] = uold[v][i + j * step];
    for (int v = 0; v < nvars; ++v) {
        av_eq("left value is the weighted value at the lower face", spec::get(*l, v, x, y, z), upper<k>(w[v], w[nvars - 1], true));
        av_eq("right value is the weighted value at the upper face", spec::get(*r, v, x, y, z), upper<k>(w[v], w[nvars - 1], false));
    }
}
// with equal smoothness the candidates combine to the value of the polynomial through all 2k-1 cells
template<int k> void linear() {
    typedef reconstruction::WENOCPU<k> Rec;
    double v[5], one[5];
    static const char* const nm[] = {"c0", "c1", "c2", "c3", "c4"};
    double c[5];
    for (int p = 0; p < 5; ++p) c[p] = av_real(nm[p]);
    // averages over the cell (i-1/2, i+1/2) of a polynomial of degree 2k-2, value at 1/2
    double value = 0, half = 1;
    for (int p = 0; p < 2 * k - 1; ++p) { value += c[p] * half; half /= 2; }
    for (int i = -k + 1; i < k; ++i) {
        double s = 0, a = i + 0.5, b = i - 0.5, pa = a, pb = b;
        for (int p = 0; p < 2 * k - 1; ++p) { s += c[p] * (pa - pb) / (p + 1); pa *= a; pb *= b; }
        v[k - 1 + i] = s;
        one[k - 1 + i] = 0;
    }
    av_cover("polynomial");
    av_eq("in smooth regions the value is exact for polynomials of degree 2k-2", upper<k>(v, one, false), value);
}
}
AV_CONTRACT(P08, weno2cpu_1d) { weno<2, 1, 0, 1>(); }
AV_CONTRACT(P08, weno3_1d) { weno<3, 1, 0, 2>(); }
AV_CONTRACT(P08, weno3_2d_x) { weno<3, 2, 0, 1>(); }
AV_CONTRACT(P08, weno3_2d_y) { weno<3, 2, 1, 1>(); }
AV_CONTRACT(P08, weno3_3d_z) { weno<3, 3, 2, 1>(); }
AV_CONTRACT(P08, weno2_degree) { linear<2>(); }
AV_CONTRACT(P08, weno3_degree) { linear<3>(); }
