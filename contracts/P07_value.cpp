// AV-SOURCES: alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp
// AV-OPT *: maxfn=1
// The state beyond the boundary, looked up without filling ghost cells.
#include "common.hpp"
#include "alsfvm/boundary/ValueAtBoundary.hpp"
using namespace alsfvm;
namespace {
struct Sizes { long nx, ny, nz, g; };
template<class Lookup> void beyond(int dim, Lookup lookup) {
    const long nx = av_int("nx", 1, 1000), ny = dim > 1 ? av_int("ny", 2, 1000) : 1, nz = dim > 2 ? av_int("nz", 2, 1000) : 1, g = av_int("g", 0, 10);
    auto v = spec::makeVolume(1, nx, ny, nz, g);
    spec::arbitrary(*v, spec::U);
    const double* u = spec::old(*v, 0);
    lookup(*v, u, nx, ny, nz, g, dim > 1 ? g : 0, dim > 2 ? g : 0);
}
// cell (x, y, z) of the interior
double inner(const double* u, long nx, long ny, long gx, long gy, long gz, long x, long y, long z) {
    return u[((z + gz) * (ny + 2 * gy) + y + gy) * (nx + 2 * gx) + x + gx];
}
void periodic(int dim, int px, int py, int pz) {
    beyond(dim, [=](volume::Volume& v, const double* u, long nx, long ny, long nz, long gx, long gy, long gz) {
        const long x = av_int("x", 0, 1000), y = dim > 1 ? av_int("y", 0, 1000) : 0, z = dim > 2 ? av_int("z", 0, 1000) : 0;
        av_assume(x < nx && y < ny && z < nz);
        auto view = static_cast<const memory::Memory<real>&>(*v.getScalarMemoryArea(0)).getView();
        const double r = boundary::ValueAtBoundary<boundary::PERIODIC>::getValueAtBoundary(view, ivec3(x + px * nx, y + py * ny, z + pz * nz), ivec3(nx, ny, nz), ivec3(gx, gy, gz));
        av_cover("looked up");
        av_eq("the periodic image", r, inner(u, nx, ny, gx, gy, gz, x, y, z));
    });
}
long clamp(long i, long n) { return i < 0 ? 0 : i < n ? i : n - 1; }
void neumann(int dim) {
    beyond(dim, [=](volume::Volume& v, const double* u, long nx, long ny, long nz, long gx, long gy, long gz) {
        const long x = av_int("x", -2000, 2000), y = dim > 1 ? av_int("y", -2000, 2000) : 0, z = dim > 2 ? av_int("z", -2000, 2000) : 0;
        auto view = static_cast<const memory::Memory<real>&>(*v.getScalarMemoryArea(0)).getView();
        const double r = boundary::ValueAtBoundary<boundary::NEUMANN>::getValueAtBoundary(view, ivec3(x, y, z), ivec3(nx, ny, nz), ivec3(gx, gy, gz));
        av_cover("looked up");
        av_eq("the nearest cell of the interior", r, inner(u, nx, ny, gx, gy, gz, clamp(x, nx), clamp(y, ny), clamp(z, nz)));
    });
}
}
AV_CONTRACT(P07, value_periodic_1d) { periodic(1, 1, 0, 0); }
AV_CONTRACT(P07, value_periodic_1d_below) { periodic(1, -1, 0, 0); }
AV_CONTRACT(P07, value_periodic_1d_far) { periodic(1, -3, 0, 0); }
AV_CONTRACT(P07, value_periodic_2d) { periodic(2, 0, 1, 0); }
AV_CONTRACT(P07, value_periodic_2d_corner) { periodic(2, -1, 2, 0); }
AV_CONTRACT(P07, value_periodic_3d) { periodic(3, 0, 0, 1); }
AV_CONTRACT(P07, value_periodic_3d_corner) { periodic(3, 1, -1, -2); }
AV_CONTRACT(P07, value_neumann_1d) { neumann(1); }
AV_CONTRACT(P07, value_neumann_2d) { neumann(2); }
AV_CONTRACT(P07, value_neumann_3d) { neumann(3); }
