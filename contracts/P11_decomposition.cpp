// AV-SOURCES: alsfvm/src/mpi/domain/DomainDecomposition.cpp alsfvm/src/mpi/domain/DomainInformation.cpp alsfvm/src/mpi/domain/DomainDecompositionParameters.cpp alsfvm/src/mpi/CartesianCellExchanger.cpp alsfvm/src/mpi/CellExchanger.cpp alsfvm/src/mpi/MpiIndexType.cpp alsfvm/src/mpi/Request.cpp alsfvm/src/mpi/RequestContainer.cpp alsutils/src/mpi/Configuration.cpp alsutils/src/mpi/mpi_types.cpp alsfvm/src/grid/Grid.cpp
#include "common.hpp"
#include "alsfvm/src/mpi/domain/CartesianDecomposition.cpp"
using namespace alsfvm;
namespace { int myRank, processes; }
extern "C" {
int MPI_Comm_rank(MPI_Comm, int* r) { *r = myRank; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int* n) { *n = processes; return MPI_SUCCESS; }
}
namespace {
static const char* const procs[] = {"px", "py", "pz"};
static const char* const cells[] = {"mx", "my", "mz"};
static const char* const pos[] = {"cx", "cy", "cz"};
static const char* const lows[] = {"x0", "y0", "z0"};
static const char* const sizes[] = {"dx", "dy", "dz"};
int mod(int c, int p) { return c < 0 ? c + p : c >= p ? c - p : c; }
// a global grid of DIM dimensions cut into p[0] x p[1] x p[2] equal blocks; this process owns block c
template <int DIM> struct Setting {
    int p[3] = {1, 1, 1}, m[3] = {1, 1, 1}, c[3] = {0, 0, 0};
    std::array<boundary::Type, 6> bc;
    rvec3 origin, h;
    Setting() {
        for (int d = 0; d < DIM; ++d) {
            p[d] = av_int(procs[d], 1, 50);
            m[d] = av_int(cells[d], d == 0 ? 1 : 2, 1000);
            c[d] = av_int(pos[d], 0, 49);
            av_assume(c[d] < p[d]);
        }
        for (int d = 0; d < 3; ++d) { origin[d] = av_real(lows[d]); h[d] = av_pos(sizes[d]); }
        for (int d = 0; d < 3; ++d) bc[2 * d] = bc[2 * d + 1] = boundary::PERIODIC;
        myRank = (c[2] * p[1] + c[1]) * p[0] + c[0];
        processes = p[0] * p[1] * p[2];
    }
    alsfvm::shared_ptr<alsfvm::mpi::domain::DomainInformation> decompose() {
        grid::Grid whole(origin, origin + h, ivec3(p[0] * m[0], p[1] * m[1], p[2] * m[2]), bc, ivec3(0, 0, 0), ivec3(p[0] * m[0], p[1] * m[1], p[2] * m[2]), h);
        alsfvm::mpi::ConfigurationPtr config(new alsfvm::mpi::Configuration(MPI_COMM_WORLD));
        av_nothrow("a grid that divides evenly is accepted");
        return alsfvm::mpi::domain::CartesianDecomposition(p[0], p[1], p[2]).decompose(config, whole);
    }
};
template <int DIM> void block() {
    Setting<DIM> s;
    auto info = s.decompose();
    const grid::Grid& g = *info->getGrid();
    av_cover("decomposed");
    for (int d = 0; d < 3; ++d) {
        av_assert("each process owns an equal share of the cells", g.getDimensions()[d] == s.m[d]);
        av_assert("the shares tile the global grid", g.getGlobalPosition()[d] == s.c[d] * s.m[d]);
        av_assert("the size of the global grid is kept", g.getGlobalSize()[d] == s.p[d] * s.m[d]);
        av_eq("cells keep their size", g.getCellLengths()[d], s.h[d]);
    }
    for (int d = 0; d < DIM; ++d) {
        av_eq("the share starts where its first cell starts", g.getOrigin()[d], s.origin[d] + s.h[d] * real(s.c[d] * s.m[d]));
        av_eq("the share ends where its last cell ends", g.getTop()[d], s.origin[d] + s.h[d] * real(s.c[d] * s.m[d] + s.m[d]));
    }
    av_assert("the dimension is kept", int(g.getActiveDimension()) == DIM);
}
// the neighbour across SIDE and the treatment of that side
template <int DIM, int SIDE> void neighbour(bool periodic) {
    constexpr int d = SIDE / 2;
    Setting<DIM> s;
    if (!periodic) for (int i = 0; i < 2; ++i) s.bc[2 * d + i] = boundary::NEUMANN;
    auto info = s.decompose();
    av_cover("decomposed");
    const int next = SIDE % 2 ? s.c[d] + 1 : s.c[d] - 1;
    const bool end = next < 0 || next >= s.p[d];
    const int there = info->getCellExchanger()->getNeighbours()[SIDE];
    const boundary::Type type = info->getGrid()->getBoundaryCondition(SIDE);
    if (end && (!periodic || s.p[d] == 1)) {
        av_assert("no exchange across an outer side", there == -1);
        av_assert("an outer side keeps its boundary condition", type == (periodic ? boundary::PERIODIC : boundary::NEUMANN));
    } else {
        int q[3] = {s.c[0], s.c[1], s.c[2]};
        q[d] = mod(next, s.p[d]);
        av_assert("the neighbour owns the adjacent block", there == (q[2] * s.p[1] + q[1]) * s.p[0] + q[0]);
        av_assert("ghost cells at an inner side come from the neighbour", type == boundary::MPI_BC);
    }
}
// a grid that does not divide evenly is refused
template <int DIM, int D> void uneven() {
    int p[3] = {1, 1, 1}, n[3] = {1, 1, 1};
    for (int d = 0; d < DIM; ++d) {
        p[d] = av_int(procs[d], d == D ? 2 : 1, 50);
        n[d] = p[d] * av_int(cells[d], 1, 1000);
    }
    const int rest = av_int("rest", 1, 49);
    av_assume(rest < p[D]);
    n[D] += rest;
    grid::Grid whole(rvec3(0, 0, 0), rvec3(1, 1, 1), ivec3(n[0], n[1], n[2]));
    alsfvm::mpi::ConfigurationPtr config(new alsfvm::mpi::Configuration(MPI_COMM_WORLD));
    av_cover("uneven");
    av_maythrow();
    alsfvm::mpi::domain::CartesianDecomposition(p[0], p[1], p[2]).decompose(config, whole);
    av_assert("a grid that does not divide evenly is refused", false);
}
}
AV_CONTRACT(P11, block_1d) { block<1>(); }
AV_CONTRACT(P11, block_2d) { block<2>(); }
AV_CONTRACT(P11, block_3d) { block<3>(); }
AV_CONTRACT(P11, neighbour_1d_side0_periodic) { neighbour<1, 0>(true); }
AV_CONTRACT(P11, neighbour_1d_side0_outer) { neighbour<1, 0>(false); }
AV_CONTRACT(P11, neighbour_1d_side1_periodic) { neighbour<1, 1>(true); }
AV_CONTRACT(P11, neighbour_1d_side1_outer) { neighbour<1, 1>(false); }
AV_CONTRACT(P11, neighbour_2d_side0_periodic) { neighbour<2, 0>(true); }
AV_CONTRACT(P11, neighbour_2d_side0_outer) { neighbour<2, 0>(false); }
AV_CONTRACT(P11, neighbour_2d_side1_periodic) { neighbour<2, 1>(true); }
AV_CONTRACT(P11, neighbour_2d_side1_outer) { neighbour<2, 1>(false); }
AV_CONTRACT(P11, neighbour_2d_side2_periodic) { neighbour<2, 2>(true); }
AV_CONTRACT(P11, neighbour_2d_side2_outer) { neighbour<2, 2>(false); }
AV_CONTRACT(P11, neighbour_2d_side3_periodic) { neighbour<2, 3>(true); }
AV_CONTRACT(P11, neighbour_2d_side3_outer) { neighbour<2, 3>(false); }
AV_CONTRACT(P11, neighbour_3d_side0_periodic) { neighbour<3, 0>(true); }
AV_CONTRACT(P11, neighbour_3d_side0_outer) { neighbour<3, 0>(false); }
AV_CONTRACT(P11, neighbour_3d_side1_periodic) { neighbour<3, 1>(true); }
AV_CONTRACT(P11, neighbour_3d_side1_outer) { neighbour<3, 1>(false); }
AV_CONTRACT(P11, neighbour_3d_side2_periodic) { neighbour<3, 2>(true); }
AV_CONTRACT(P11, neighbour_3d_side2_outer) { neighbour<3, 2>(false); }
AV_CONTRACT(P11, neighbour_3d_side3_periodic) { neighbour<3, 3>(true); }
AV_CONTRACT(P11, neighbour_3d_side3_outer) { neighbour<3, 3>(false); }
AV_CONTRACT(P11, neighbour_3d_side4_periodic) { neighbour<3, 4>(true); }
AV_CONTRACT(P11, neighbour_3d_side4_outer) { neighbour<3, 4>(false); }
AV_CONTRACT(P11, neighbour_3d_side5_periodic) { neighbour<3, 5>(true); }
AV_CONTRACT(P11, neighbour_3d_side5_outer) { neighbour<3, 5>(false); }
AV_CONTRACT(P11, uneven_1d_axis0) { uneven<1, 0>(); }
AV_CONTRACT(P11, uneven_2d_axis0) { uneven<2, 0>(); }
AV_CONTRACT(P11, uneven_2d_axis1) { uneven<2, 1>(); }
AV_CONTRACT(P11, uneven_3d_axis0) { uneven<3, 0>(); }
AV_CONTRACT(P11, uneven_3d_axis1) { uneven<3, 1>(); }
AV_CONTRACT(P11, uneven_3d_axis2) { uneven<3, 2>(); }
