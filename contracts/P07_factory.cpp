// AV-SOURCES: alsfvm/src/boundary/BoundaryFactory.cpp alsfvm/src/boundary/BoundaryCPU.cpp alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/grid/Grid.cpp
#include "common.hpp"
#include "alsfvm/boundary/BoundaryFactory.hpp"
using namespace alsfvm;
namespace {
// the boundary a configuration asks for by name, applied to a two dimensional volume of two variables
void named(const char* name, bool periodic) {
    const long g = av_int("g", 1, 100), nx = av_int("nx", 1, 100000), ny = av_int("ny", 2, 100000);
    const long tx = nx + 2 * g, ty = ny + 2 * g;
    av_assume(nx >= g && ny >= g);
    alsfvm::shared_ptr<DeviceConfiguration> dc(new DeviceConfiguration("cpu"));
    av_nothrow("a boundary condition by its documented name");
    boundary::BoundaryFactory factory(name, dc);
    auto condition = factory.createBoundary(g);
    auto vol = spec::makeVolume(2, nx, ny, 1, g);
    spec::arbitrary(*vol, spec::U);
    const double* old[2] = {spec::old(*vol, 0), spec::old(*vol, 1)};
    std::array<boundary::Type, 6> types;
    for (auto& t : types) t = periodic ? boundary::PERIODIC : boundary::NEUMANN;
    grid::Grid grid(rvec3(0, 0, 0), rvec3(1, 1, 1), ivec3(nx, ny, 1), types);
    condition->applyBoundaryConditions(*vol, grid);
    const long x = av_int("x", 0, 200000), y = av_int("y", 0, 200000);
    av_assume(x < tx && y < ty);
    av_cover("a cell");
    const long mx = x < g ? (periodic ? x + nx : 2 * g - 1 - x) : x >= nx + g ? (periodic ? x - nx : 2 * (nx + g) - 1 - x) : x;
    const long my = y < g ? (periodic ? y + ny : 2 * g - 1 - y) : y >= ny + g ? (periodic ? y - ny : 2 * (ny + g) - 1 - y) : y;
    for (int v = 0; v < 2; ++v) av_eq("every cell of every variable is filled as the name says", spec::get(*vol, v, x, y, 0), old[v][my * tx + mx]);
}
void refused(const char* name) {
    alsfvm::shared_ptr<DeviceConfiguration> dc(new DeviceConfiguration("cpu"));
    boundary::BoundaryFactory factory(name, dc);
    bool thrown = false;
    av_cover("asked for");
    try { factory.createBoundary(av_int("g", 1, 100)); } catch (std::runtime_error&) { thrown = true; }
    av_assert("a name which is not documented is refused", thrown);
}
}
AV_CONTRACT(P07, named_periodic) { named("periodic", true); }
AV_CONTRACT(P07, named_neumann) { named("neumann", false); }
AV_CONTRACT(P07, named_unknown) { refused("dirichlet"); }
