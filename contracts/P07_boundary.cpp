// AV-SOURCES: alsfvm/src/boundary/BoundaryCPU.cpp alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/grid/Grid.cpp
#include "common.hpp"
#include "alsfvm/boundary/BoundaryCPU.hpp"
#include "alsfvm/boundary/Neumann.hpp"
#include "alsfvm/boundary/Periodic.hpp"
using namespace alsfvm;
namespace {
// where the value of cell i (0 <= i < n + 2g) must come from
long mirror(long i, long n, long g, bool lo, bool hi) {
    if (lo && i < g) return 2 * g - 1 - i;
    if (hi && i >= n + g) return 2 * (n + g) - 1 - i;
    return i;
}
long wrap(long i, long n, long g, bool lo, bool hi) {
    if (lo && i < g) return i + n;
    if (hi && i >= n + g) return i - n;
    return i;
}
template<class BC, int dim, bool periodic>
void ghostFill(bool mpi) {
    const long g = av_int("g", 1, 1000);
    const long tx = av_int("tx", 1, 100000), nx = tx - 2 * g;
    const long ty = dim > 1 ? av_int("ty", 1, 100000) : 1, ny = dim > 1 ? ty - 2 * g : 1;
    const long tz = dim > 2 ? av_int("tz", 1, 100000) : 1, nz = dim > 2 ? tz - 2 * g : 1;
    av_assume(nx >= g);
    if (dim > 1) av_assume(ny >= g && ny > 1);
    if (dim > 2) av_assume(nz >= g && nz > 1);
    std::array<boundary::Type, 6> types;
    for (int s = 0; s < 6; ++s) {
        bool m = false;
        if (mpi && s < 2 * dim) {
            static const char* nm[] = {"mpi0", "mpi1", "mpi2", "mpi3", "mpi4", "mpi5"};
            m = av_bool(nm[s]);
        }
        types[s] = m ? boundary::MPI_BC : (periodic ? boundary::PERIODIC : boundary::NEUMANN);
    }
    auto vol = spec::makeVolume(1, nx, ny, nz, g);
    spec::arbitrary(*vol, spec::U);
    const double* old = spec::old(*vol, 0);
    grid::Grid grid(rvec3(0, 0, 0), rvec3(1, 1, 1), ivec3(nx, ny, nz), types);
    boundary::BoundaryCPU<BC> bc(g);
    av_nothrow("a large enough volume is accepted");
    bc.applyBoundaryConditions(*vol, grid);
    long x = av_int("x", 0, 200000), y = dim > 1 ? av_int("y", 0, 200000) : 0, z = dim > 2 ? av_int("z", 0, 200000) : 0;
    av_assume(x < tx && y < ty && z < tz);
    av_cover("a cell");
    bool lo[3], hi[3];
    for (int d = 0; d < 3; ++d) { lo[d] = d < dim && types[2 * d] != boundary::MPI_BC; hi[d] = d < dim && types[2 * d + 1] != boundary::MPI_BC; }
    long mx = periodic ? wrap(x, nx, g, lo[0], hi[0]) : mirror(x, nx, g, lo[0], hi[0]);
    long my = dim > 1 ? (periodic ? wrap(y, ny, g, lo[1], hi[1]) : mirror(y, ny, g, lo[1], hi[1])) : 0;
    long mz = dim > 2 ? (periodic ? wrap(z, nz, g, lo[2], hi[2]) : mirror(z, nz, g, lo[2], hi[2])) : 0;
    av_eq("every cell is the mirror / periodic image of its interior cell", spec::get(*vol, 0, x, y, z), old[(mz * ty + my) * tx + mx]);
}
}
AV_CONTRACT(P07, neumann_1d) { ghostFill<boundary::Neumann, 1, false>(false); }
AV_CONTRACT(P07, neumann_2d) { ghostFill<boundary::Neumann, 2, false>(false); }
AV_CONTRACT(P07, neumann_3d) { ghostFill<boundary::Neumann, 3, false>(false); }
AV_CONTRACT(P07, periodic_1d) { ghostFill<boundary::Periodic, 1, true>(false); }
AV_CONTRACT(P07, periodic_2d) { ghostFill<boundary::Periodic, 2, true>(false); }
AV_CONTRACT(P07, periodic_3d) { ghostFill<boundary::Periodic, 3, true>(false); }
AV_CONTRACT(P07, neumann_mpi_1d) { ghostFill<boundary::Neumann, 1, false>(true); }
AV_CONTRACT(P07, periodic_mpi_2d) { ghostFill<boundary::Periodic, 2, true>(true); }
