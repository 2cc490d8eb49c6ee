// AV-SOURCES: alsfvm/src/grid/Grid.cpp
#include "common.hpp"
using namespace alsfvm;
namespace {
rvec3 point(const char* x, const char* y, const char* z) { return rvec3(av_real(x), av_real(y), av_real(z)); }
// the cells of a grid fill the box between its corners: cell i of an axis is centred at origin + (i + 1/2) h
template <int DIM> void cells() {
    const int nx = av_int("nx", 2, 1000), ny = DIM > 1 ? av_int("ny", 2, 1000) : 1, nz = DIM > 2 ? av_int("nz", 2, 1000) : 1;
    const rvec3 lo = point("x0", "y0", "z0"), hi = point("x1", "y1", "z1");
    const grid::Grid g(lo, hi, ivec3(nx, ny, nz));
    const int n[3] = {nx, ny, nz};
    av_assert("the dimension is the number of axes with several cells", g.getActiveDimension() == size_t(DIM));
    for (int d = 0; d < 3; ++d) {
        av_assert("the number of cells is kept", g.getDimensions()[d] == n[d] && g.getGlobalSize()[d] == n[d] && g.getGlobalPosition()[d] == 0);
        av_eq("the lower corner is kept", g.getOrigin()[d], lo[d]);
        av_eq("the upper corner is kept", g.getTop()[d], hi[d]);
        av_eq("cells of an axis have equal length", g.getCellLengths()[d] * (d < DIM ? n[d] : 1), d < DIM ? hi[d] - lo[d] : 1);
    }
    const int x = av_int("x", 0, 999), y = DIM > 1 ? av_int("y", 0, 999) : 0, z = DIM > 2 ? av_int("z", 0, 999) : 0;
    av_assume(x < nx && y < ny && z < nz);
    av_cover("grid");
    av_shape(3 * nx, ny, nz);
    const rvec3 m = g.getCellMidpoints()[(z * ny + y) * nx + x];
    av_eq("cells are centred on their midpoints along x", m.x, lo.x + (x + 0.5) * g.getCellLengths().x);
    av_eq("cells are centred on their midpoints along y", m.y, lo.y + (y + 0.5) * g.getCellLengths().y);
    av_eq("cells are centred on their midpoints along z", m.z, lo.z + (z + 0.5) * g.getCellLengths().z);
    av_assert("there is a midpoint per cell", g.getCellMidpoints().size() == size_t(nx) * size_t(ny) * size_t(nz));
}
template <int DIM> void sides() {
    std::array<boundary::Type, 6> bc;
    for (int s = 0; s < 6; ++s) bc[s] = s % 3 == 0 ? boundary::NEUMANN : s % 3 == 1 ? boundary::PERIODIC : boundary::MPI_BC;
    const grid::Grid g(rvec3(0, 0, 0), rvec3(1, 1, 1), ivec3(av_int("nx", 2, 1000), DIM > 1 ? av_int("ny", 2, 1000) : 1, DIM > 2 ? av_int("nz", 2, 1000) : 1), bc);
    const auto active = g.getActiveBoundaryConditions();
    av_cover("grid");
    av_assert("there are two sides per axis", active.size() == size_t(2 * DIM));
    for (int s = 0; s < 2 * DIM; ++s) av_assert("sides keep their boundary conditions", active[s] == bc[s]);
    for (int s = 0; s < 6; ++s) av_assert("boundary conditions are kept", g.getBoundaryCondition(s) == bc[s] && g.getBoundaryConditions()[s] == bc[s]);
}
}
AV_CONTRACT(P11, grid_cells_1d) { cells<1>(); }
AV_CONTRACT(P11, grid_cells_2d) { cells<2>(); }
AV_CONTRACT(P11, grid_cells_3d) { cells<3>(); }
AV_CONTRACT(P11, grid_sides_1d) { sides<1>(); }
AV_CONTRACT(P11, grid_sides_2d) { sides<2>(); }
AV_CONTRACT(P11, grid_sides_3d) { sides<3>(); }
