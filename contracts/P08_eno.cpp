// AV-SOURCES: alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/reconstruction/ENOCPU.cpp alsfvm/src/reconstruction/ENOCoefficients.cpp alsfvm/src/reconstruction/Reconstruction.cpp
#include "common.hpp"
#include "alsfvm/reconstruction/ENOCPU.hpp"
using namespace alsfvm;
namespace {
// value at the upper (side = 1) or lower (side = 0) face of cell 0 of the polynomial of degree k-1 whose averages
// over the cells -r ... -r+k-1 are given: coefficient of cell -r+j (derivative of the Lagrange interpolant of the primitive)
template<int k> double weight(int r, int j, int side) {
    const double x = r + side;          // face position, cell -r+j is (j, j+1)
    double c = 0;
    for (int m = j + 1; m <= k; ++m) {
        double den = 1, num = 0;
        for (int l = 0; l <= k; ++l) if (l != m) den *= m - l;
        for (int l = 0; l <= k; ++l) if (l != m) {
            double p = 1;
            for (int q = 0; q <= k; ++q) if (q != m && q != l) p *= x - q;
            num += p;
        }
        c += num / den;
    }
    return c;
}
inline double absolute(double a) { return a < 0 ? -a : a; }
// the stencil grows towards the smaller difference; w[k-1+i] is the value in cell i
template<int k> int stencil(const double* w) {
    double d[2 * k];
    for (int i = 0; i < 2 * k - 1; ++i) d[i] = w[i];
    int r = 0;
    for (int level = 1; level < k; ++level) {
        for (int i = 0; i + level < 2 * k - 1; ++i) d[i] = d[i + 1] - d[i];
        if (absolute(d[k - 1 - r - 1]) < absolute(d[k - 1 - r])) ++r;
    }
    return r;
}
template<int k> double value(int r, const double* w, int side) {
    double s = 0;
    for (int j = 0; j < k; ++j) s += weight<k>(r, j, side) * w[k - 1 - r + j];
    return s;
}
template<int k, int dim, int dir, int nvars> void eno() {
    auto f = spec::factory();
    const long g = k;
    const long tx = av_int("tx", 2 * g + 1, 100000), nx = tx - 2 * g;
    const long ty = dim > 1 ? av_int("ty", 2 * g + 2, 100000) : 1, ny = dim > 1 ? ty - 2 * g : 1;
    const long tz = dim > 2 ? av_int("tz", 2 * g + 2, 100000) : 1, nz = dim > 2 ? tz - 2 * g : 1;
    auto u = spec::makeVolume(nvars, nx, ny, nz, g);
    auto l = spec::makeVolume(nvars, nx, ny, nz, g);
    auto r = spec::makeVolume(nvars, nx, ny, nz, g);
    spec::arbitrary(*u, spec::U);
    spec::arbitrary(*l, spec::P);
    spec::arbitrary(*r, spec::Q);
    const double* uold[2], *lold[2], *rold[2];
    for (int v = 0; v < nvars; ++v) { uold[v] = spec::old(*u, v); lold[v] = spec::old(*l, v); rold[v] = spec::old(*r, v); }
    reconstruction::ENOCPU<k> eno(f, nx, ny, nz);
    av_eq("as many ghost cells as the order", double(eno.getNumberOfGhostCells()), k);
    // window: skips a cells below and b cells above
    const long a = av_int("a", 0, 100000), b = av_int("b", 0, 100000);
    av_assume(a + b < (dir == 0 ? nx : dir == 1 ? ny : nz));
    const ivec3 start(dir == 0 ? a : 0, dir == 1 ? a : 0, dir == 2 ? a : 0), end(dir == 0 ? -b : 0, dir == 1 ? -b : 0, dir == 2 ? -b : 0);
    av_cover("reconstructs");
    av_nothrow("reconstruction is defined for every size");
    eno.performReconstruction(*u, dir, nvars - 1, *l, *r, start, end);
    const long x = av_int("x", 0, 100000), y = dim > 1 ? av_int("y", 0, 100000) : 0, z = dim > 2 ? av_int("z", 0, 100000) : 0;
    av_assume(x < tx && y < ty && z < tz);
    const long i = (z * ty + y) * tx + x, step = dir == 0 ? 1 : dir == 1 ? tx : tx * ty;
    for (int v = 0; v < nvars; ++v) av_eq("the input is not modified", spec::get(*u, v, x, y, z), uold[v][i]);
    bool inside = x >= g - (dir == 0) + start.x && x < tx - g + (dir == 0) + end.x;
    if (dim > 1) inside = inside && y >= g - (dir == 1) + start.y && y < ty - g + (dir == 1) + end.y;
    if (dim > 2) inside = inside && z >= g - (dir == 2) + start.z && z < tz - g + (dir == 2) + end.z;
    if (!inside) {
        for (int v = 0; v < nvars; ++v) {
            av_eq("left values outside the window are untouched", spec::get(*l, v, x, y, z), lold[v][i]);
            av_eq("right values outside the window are untouched", spec::get(*r, v, x, y, z), rold[v][i]);
        }
        return;
    }
    double w[nvars][2 * k - 1];
    for (int v = 0; v < nvars; ++v) for (int j = -k + 1; j < k; ++j) w[v][k - 1 + j] = uold[v][i + j * step];
    const int s = stencil<k>(w[nvars - 1]);
    for (int v = 0; v < nvars; ++v) {
        av_eq("left value is the polynomial through the selected stencil", spec::get(*l, v, x, y, z), value<k>(s, w[v], 0));
        av_eq("right value is the polynomial through the selected stencil", spec::get(*r, v, x, y, z), value<k>(s, w[v], 1));
    }
}
}
AV_CONTRACT(P08, eno2_1d) { eno<2, 1, 0, 2>(); }
AV_CONTRACT(P08, eno2_2d_x) { eno<2, 2, 0, 1>(); }
AV_CONTRACT(P08, eno2_2d_y) { eno<2, 2, 1, 1>(); }
AV_CONTRACT(P08, eno2_3d_z) { eno<2, 3, 2, 1>(); }
AV_CONTRACT(P08, eno3_1d) { eno<3, 1, 0, 1>(); }
AV_CONTRACT(P08, eno3_2d_y) { eno<3, 2, 1, 1>(); }
AV_CONTRACT(P08, eno4_1d) { eno<4, 1, 0, 1>(); }
AV_CONTRACT(P08, eno4_2d_y) { eno<4, 2, 1, 1>(); }
