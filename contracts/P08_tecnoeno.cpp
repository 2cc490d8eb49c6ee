// AV-SOURCES: alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/reconstruction/tecno/ENOCPU.cpp alsfvm/src/reconstruction/tecno/NoReconstruction.cpp alsfvm/src/reconstruction/tecno/TecnoReconstruction.cpp alsfvm/src/reconstruction/ENOCoefficients.cpp
// AV-OPT .*3d_z: weight=9
// AV-OPT .*eno4_2d_y: weight=9
#include "common.hpp"
#include "alsfvm/reconstruction/tecno/ENOCPU.hpp"
#include "alsfvm/reconstruction/tecno/NoReconstruction.hpp"
using namespace alsfvm;
namespace {
// value at the upper (side = 1) or lower (side = 0) face of cell 0 of the polynomial of degree k-1 whose averages
// over the cells -r ... -r+k-1 are given: coefficient of cell -r+j (derivative of the Lagrange interpolant of the primitive)
template<int k> double weight(int r, int j, int side) {
    const double x = r + side;          // face position, cell -r+j is (j, j+1)
    double c = 0;
    for (int m = j + 1; m <= k; ++m) {
        double den = 1, num = 0;
        for (int l = 0; l <= k; ++l) if (l != m) den *= m - l;
        for (int l = 0; l <= k; ++l) if (l != m) {
            double p = 1;
            for (int q = 0; q <= k; ++q) if (q != m && q != l) p *= x - q;
            num += p;
        }
        c += num / den;
    }
    return c;
}
inline double absolute(double a) { return a < 0 ? -a : a; }
// the stencil grows towards the smaller difference; w[k-1+i] is the value in cell i
template<int k> int stencil(const double* w) {
    double d[2 * k];
    for (int i = 0; i < 2 * k - 1; ++i) d[i] = w[i];
    int r = 0;
    for (int level = 1; level < k; ++level) {
        for (int i = 0; i + level < 2 * k - 1; ++i) d[i] = d[i + 1] - d[i];
        if (absolute(d[k - 1 - r - 1]) < absolute(d[k - 1 - r])) ++r;
    }
    return r;
}
template<int k> double value(int r, const double* w, int side) {
    double s = 0;
    for (int j = 0; j < k; ++j) s += weight<k>(r, j, side) * w[k - 1 - r + j];
    return s;
}
// Reconstruction of values that differ at the two faces of a cell (scaled entropy variables): left[i] at the lower
// face, right[i] at the upper one.  The jumps left[i+1] - right[i] drive the stencil; a sequence through left[i] with
// these jumps is reconstructed, and right[i] - left[i] is added back at the upper face.
template<int k, int dim, int dir, int nvars> void eno() {
    auto f = spec::factory();
    const long g = k;
    const long tx = av_int("tx", 2 * g + 1, 100000), nx = tx - 2 * g;
    const long ty = dim > 1 ? av_int("ty", 2 * g + 2, 100000) : 1, ny = dim > 1 ? ty - 2 * g : 1;
    const long tz = dim > 2 ? av_int("tz", 2 * g + 2, 100000) : 1, nz = dim > 2 ? tz - 2 * g : 1;
    auto a = spec::makeVolume(nvars, nx, ny, nz, g);
    auto b = spec::makeVolume(nvars, nx, ny, nz, g);
    auto l = spec::makeVolume(nvars, nx, ny, nz, g);
    auto r = spec::makeVolume(nvars, nx, ny, nz, g);
    spec::arbitrary(*a, spec::U);
    spec::arbitrary(*b, spec::V);
    const double* aold[2], *bold[2];
    for (int v = 0; v < nvars; ++v) { aold[v] = spec::old(*a, v); bold[v] = spec::old(*b, v); }
    reconstruction::tecno::ENOCPU<k> eno(f, nx, ny, nz);
    av_eq("as many ghost cells as the order", double(eno.getNumberOfGhostCells()), k);
    av_cover("reconstructs");
    av_nothrow("reconstruction is defined for every size");
    eno.performReconstruction(*a, *b, dir, *l, *r);
    const long x = av_int("x", 0, 100000), y = dim > 1 ? av_int("y", 0, 100000) : 0, z = dim > 2 ? av_int("z", 0, 100000) : 0;
    av_assume(x < tx && y < ty && z < tz);
    const long i = (z * ty + y) * tx + x, step = dir == 0 ? 1 : dir == 1 ? tx : tx * ty;
    for (int v = 0; v < nvars; ++v) {
        av_eq("the left input is not modified", spec::get(*a, v, x, y, z), aold[v][i]);
        av_eq("the right input is not modified", spec::get(*b, v, x, y, z), bold[v][i]);
    }
    // the cells next to an interior face in this direction
    bool inside = x >= g - (dir == 0) && x < tx - g + (dir == 0);
    if (dim > 1) inside = inside && y >= g - (dir == 1) && y < ty - g + (dir == 1);
    if (dim > 2) inside = inside && z >= g - (dir == 2) && z < tz - g + (dir == 2);
    if (!inside) return;
    for (int v = 0; v < nvars; ++v) {
        double w[2 * k - 1];
        w[k - 1] = aold[v][i];
        for (int j = 1; j < k; ++j) {
            w[k - 1 + j] = w[k - 2 + j] + (aold[v][i + j * step] - bold[v][i + (j - 1) * step]);
            w[k - 1 - j] = w[k - j] - (aold[v][i - (j - 1) * step] - bold[v][i - j * step]);
        }
        const int s = stencil<k>(w);
        av_eq("left value is the polynomial through the selected stencil", spec::get(*l, v, x, y, z), value<k>(s, w, 0));
        av_eq("right value is the polynomial through the selected stencil", spec::get(*r, v, x, y, z), value<k>(s, w, 1) + (bold[v][i] - aold[v][i]));
    }
}
template<int dim> void none() {
    reconstruction::tecno::NoReconstruction rec;
    const long tx = av_int("tx", 3, 100000), ty = dim > 1 ? av_int("ty", 4, 100000) : 1, tz = dim > 2 ? av_int("tz", 4, 100000) : 1;
    const long nx = tx - 2, ny = dim > 1 ? ty - 2 : 1, nz = dim > 2 ? tz - 2 : 1;
    auto a = spec::makeVolume(2, nx, ny, nz, 1), b = spec::makeVolume(2, nx, ny, nz, 1);
    auto l = spec::makeVolume(2, nx, ny, nz, 1), r = spec::makeVolume(2, nx, ny, nz, 1);
    spec::arbitrary(*a, spec::U);
    spec::arbitrary(*b, spec::V);
    av_cover("copies");
    av_nothrow("reconstruction is defined for every size");
    rec.performReconstruction(*a, *b, av_int("direction", 0, dim - 1), *l, *r);
    const long x = av_int("x", 0, 100000), y = dim > 1 ? av_int("y", 0, 100000) : 0, z = dim > 2 ? av_int("z", 0, 100000) : 0;
    av_assume(x < tx && y < ty && z < tz);
    for (int v = 0; v < 2; ++v) {
        av_eq("left value is the left input", spec::get(*l, v, x, y, z), spec::get(*a, v, x, y, z));
        av_eq("right value is the right input", spec::get(*r, v, x, y, z), spec::get(*b, v, x, y, z));
    }
}
}
AV_CONTRACT(P08, tecno_none_1d) { none<1>(); }
AV_CONTRACT(P08, tecno_none_3d) { none<3>(); }
AV_CONTRACT(P08, tecno_eno2_1d) { eno<2, 1, 0, 2>(); }
AV_CONTRACT(P08, tecno_eno2_2d_x) { eno<2, 2, 0, 1>(); }
AV_CONTRACT(P08, tecno_eno2_2d_y) { eno<2, 2, 1, 1>(); }
AV_CONTRACT(P08, tecno_eno2_3d_z) { eno<2, 3, 2, 1>(); }
AV_CONTRACT(P08, tecno_eno3_1d) { eno<3, 1, 0, 1>(); }
AV_CONTRACT(P08, tecno_eno3_2d_y) { eno<3, 2, 1, 1>(); }
AV_CONTRACT(P08, tecno_eno4_1d) { eno<4, 1, 0, 1>(); }
AV_CONTRACT(P08, tecno_eno4_2d_y) { eno<4, 2, 1, 1>(); }
