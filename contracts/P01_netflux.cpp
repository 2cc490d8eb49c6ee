// AV-SOURCES: alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/equation/burgers/Burgers.cpp alsfvm/src/equation/euler/Euler.cpp alsfvm/src/volume/VolumeFactory.cpp alsfvm/src/simulator/SimulatorParameters.cpp alsfvm/src/equation/EquationParameterFactory.cpp alsfvm/src/grid/Grid.cpp alsfvm/src/equation/buckleyleverett/BuckleyLeverett.cpp alsfvm/src/equation/linear/Linear.cpp alsfvm/src/equation/cubic/Cubic.cpp
// AV-OPT compute_flux.*: time=400 oblig=200 weight=6
#include "common.hpp"
#include <sstream>
#include <map>
#include <functional>
#define private public
#include "alsfvm/numflux/NumericalFluxCPU.hpp"
#undef private
#include "alsfvm/numflux/numerical_flux_list.hpp"
// the templates of NumericalFluxCPU.cpp, instantiated below with an arbitrary flux function
#undef ALSFVM_FLUX_INSTANTIATE
#define ALSFVM_FLUX_INSTANTIATE(X)
#include "alsfvm/src/numflux/NumericalFluxCPU.cpp"
using namespace alsfvm;
namespace {
typedef equation::burgers::Burgers Burgers;
// any two-point flux, any wave speed estimate
struct AnyFlux {
    template<size_t direction> static real computeFlux(const Burgers&, const Burgers::AllVariables& l, const Burgers::AllVariables& r, Burgers::ConservedVariables& F) {
        F.u = av_fun("F", 3, l.u, r.u, double(direction));
        return av_fun("speed", 3, l.u, r.u, double(direction));
    }
};
// any four / six point flux
struct AnyFlux4 {
    static const bool hasStencil = true;
    static ivec4 stencil() { return {-1, 0, 1, 2}; }
    template<size_t direction> static real computeFlux(const Burgers&, const Burgers::AllVariables& a, const Burgers::AllVariables& b, const Burgers::AllVariables& c,
            const Burgers::AllVariables& d, Burgers::ConservedVariables& F) {
        F.u = av_fun("F4", 5, a.u, b.u, c.u, d.u, double(direction));
        return av_fun("speed4", 5, a.u, b.u, c.u, d.u, double(direction));
    }
};
struct AnyFlux6 {
    static const bool hasStencil = true;
    static ivec6 stencil() { return {-2, -1, 0, 1, 2, 3}; }
    template<size_t direction> static real computeFlux(const Burgers&, const Burgers::AllVariables& a, const Burgers::AllVariables& b, const Burgers::AllVariables& c,
            const Burgers::AllVariables& d, const Burgers::AllVariables& e, const Burgers::AllVariables& f, Burgers::ConservedVariables& F) {
        F.u = av_fun("F6", 7, a.u, b.u, c.u, d.u, e.u, f.u, double(direction));
        return av_fun("speed6", 7, a.u, b.u, c.u, d.u, e.u, f.u, double(direction));
    }
};
long g, tx, ty, tz, nx, ny, nz, gy, gz;
template<int dim> void sizes(long gmin) {
    g = av_int("g", gmin, 100);
    tx = av_int("tx", 1, 100000); nx = tx - 2 * g;
    ty = dim > 1 ? av_int("ty", 1, 100000) : 1; ny = dim > 1 ? ty - 2 * g : 1;
    tz = dim > 2 ? av_int("tz", 1, 100000) : 1; nz = dim > 2 ? tz - 2 * g : 1;
    gy = dim > 1 ? g : 0; gz = dim > 2 ? g : 0;
    av_assume(nx >= 1);
    if (dim > 1) av_assume(ny > 1);
    if (dim > 2) av_assume(nz > 1);
}
// face flux between cell (x,y,z) and its upper neighbour
template<int stencil, int dir> double face(volume::Volume& l, volume::Volume& r, long x, long y, long z) {
    auto L = [&](int k) { return spec::get(l, 0, x + (dir == 0) * k, y + (dir == 1) * k, z + (dir == 2) * k); };
    auto R = [&](int k) { return spec::get(r, 0, x + (dir == 0) * k, y + (dir == 1) * k, z + (dir == 2) * k); };
    if (stencil == 2) return av_fun("F", 3, R(0), L(1), double(dir));
    if (stencil == 4) return av_fun("F4", 5, L(-1), L(0), L(1), L(2), double(dir));
    return av_fun("F6", 7, L(-2), L(-1), L(0), L(1), L(2), L(3), double(dir));
}
template<int stencil, int dir> double speed(volume::Volume& l, volume::Volume& r, long x, long y, long z) {
    auto L = [&](int k) { return spec::get(l, 0, x + (dir == 0) * k, y + (dir == 1) * k, z + (dir == 2) * k); };
    auto R = [&](int k) { return spec::get(r, 0, x + (dir == 0) * k, y + (dir == 1) * k, z + (dir == 2) * k); };
    if (stencil == 2) return av_fun("speed", 3, R(0), L(1), double(dir));
    if (stencil == 4) return av_fun("speed4", 5, L(-1), L(0), L(1), L(2), double(dir));
    return av_fun("speed6", 7, L(-2), L(-1), L(0), L(1), L(2), L(3), double(dir));
}
template<class Flux, int stencil, int dim, size_t dir> void netFlux(bool window) {
    sizes<dim>(stencil / 2);
    ivec3 start(0, 0, 0), end(0, 0, 0);
    if (window) {
        start.x = av_int("sx", 0, 10000); end.x = -av_int("ex", 0, 10000);
        if (dim > 1) { start.y = av_int("sy", 0, 10000); end.y = -av_int("ey", 0, 10000); }
        if (dim > 2) { start.z = av_int("sz", 0, 10000); end.z = -av_int("ez", 0, 10000); }
        av_assume(start.x - end.x <= nx && start.y - end.y <= ny && start.z - end.z <= nz);
    }
    auto left = spec::makeVolume(spec::scalarName(), nx, ny, nz, g), right = spec::makeVolume(spec::scalarName(), nx, ny, nz, g), out = spec::makeVolume(spec::scalarName(), nx, ny, nz, g), tmp = spec::makeVolume(spec::scalarName(), nx, ny, nz, g);
    spec::arbitrary(*left, spec::U); spec::arbitrary(*right, spec::V); spec::arbitrary(*out, spec::W); spec::arbitrary(*tmp, spec::P);
    equation::EquationParameters par;
    Burgers eq(par);
    real waveSpeed = -1;
    const long x = av_int("x", 0, 100000), y = dim > 1 ? av_int("y", 0, 100000) : 0, z = dim > 2 ? av_int("z", 0, 100000) : 0;
    av_assume(x < tx && y < ty && z < tz);
    const double before = spec::get(*out, 0, x, y, z);
    numflux::computeNetFlux<Flux, Burgers, dir>(eq, *left, *right, *out, *tmp, waveSpeed, g, start, end);
    const bool inside = x >= g + start.x && x < tx - g + end.x && y >= gy + start.y && y < ty - gy + end.y && z >= gz + start.z && z < tz - gz + end.z;
    if (inside) {
        av_cover("inner cell");
        const double in = face<stencil, dir>(*left, *right, x - (dir == 0), y - (dir == 1), z - (dir == 2)), outf = face<stencil, dir>(*left, *right, x, y, z);
        av_eq("net flux = flux through the lower face - flux through the upper face", spec::get(*out, 0, x, y, z) - before, in - outf);
        av_le("reported wave speed bounds the upper face", speed<stencil, dir>(*left, *right, x, y, z), waveSpeed);
        av_le("reported wave speed bounds the lower face", speed<stencil, dir>(*left, *right, x - (dir == 0), y - (dir == 1), z - (dir == 2)), waveSpeed);
    } else {
        av_cover("outer cell");
        av_eq("cells outside the window are left alone", spec::get(*out, 0, x, y, z), before);
    }
    av_eq("states are not modified", 0 * spec::get(*left, 0, x, y, z), 0);
}
// any reconstruction: whatever it writes for a direction
struct AnyReconstruction : reconstruction::Reconstruction {
    alsfvm::shared_ptr<volume::Volume> L[3], R[3];
    const volume::Volume* in = nullptr;
    ivec3 start, end;
    int calls = 0;
    bool right = true;
    void performReconstruction(const volume::Volume& input, size_t direction, size_t, volume::Volume& leftOut, volume::Volume& rightOut, const ivec3& s, const ivec3& e) {
        for (int k = 0; k < 3; ++k) right = right && s[k] == start[k] && e[k] == end[k];
        right = right && &input == in && direction == size_t(calls);
        ++calls;
        L[direction]->copyTo(leftOut);
        R[direction]->copyTo(rightOut);
    }
    size_t getNumberOfGhostCells() { return g; }
};
// the whole spatial operator: the sum of the net fluxes of every direction of the grid, from the states reconstructed in that direction
template<class Flux, int stencil, int dim> void wholeFlux() {
    sizes<dim>(stencil - 1);
    ivec3 start(0, 0, 0), end(0, 0, 0);
    start.x = av_int("sx", 0, 10000); end.x = -av_int("ex", 0, 10000);
    if (dim > 1) { start.y = av_int("sy", 0, 10000); end.y = -av_int("ey", 0, 10000); }
    if (dim > 2) { start.z = av_int("sz", 0, 10000); end.z = -av_int("ez", 0, 10000); }
    av_assume(start.x - end.x <= nx && start.y - end.y <= ny && start.z - end.z <= nz);
    auto state = spec::makeVolume(spec::scalarName(), nx, ny, nz, g), out = spec::makeVolume(spec::scalarName(), nx, ny, nz, g);
    spec::arbitrary(*state, spec::U); spec::arbitrary(*out, spec::V);
    static const char* const names[6][1] = {{"l0"}, {"l1"}, {"l2"}, {"r0"}, {"r1"}, {"r2"}};
    auto any = alsfvm::make_shared<AnyReconstruction>();
    for (int d = 0; d < dim; ++d) {
        any->L[d] = spec::makeVolume(spec::scalarName(), nx, ny, nz, g);
        any->R[d] = spec::makeVolume(spec::scalarName(), nx, ny, nz, g);
        spec::arbitrary(*any->L[d], names[d]);
        spec::arbitrary(*any->R[d], names[3 + d]);
    }
    any->in = state.get(); any->start = start; any->end = end;
    auto par = alsfvm::make_shared<simulator::SimulatorParameters>("burgers", "cpu");
    alsfvm::shared_ptr<DeviceConfiguration> device(new DeviceConfiguration("cpu"));
    alsfvm::shared_ptr<reconstruction::Reconstruction> reconstruction = any;
    auto grid = spec::plainGrid(nx, ny, nz);
    numflux::NumericalFluxCPU<Flux, Burgers, dim> flux(grid, reconstruction, par, device);
    spec::arbitrary(*flux.temporaryVolume, spec::P);   // left over from earlier calls
    rvec3 waveSpeed(0, 0, 0);
    const long x = av_int("x", 0, 100000), y = dim > 1 ? av_int("y", 0, 100000) : 0, z = dim > 2 ? av_int("z", 0, 100000) : 0;
    av_assume(x < tx && y < ty && z < tz);
    const double before = spec::get(*out, 0, x, y, z), kept = spec::get(*state, 0, x, y, z);
    flux.computeFlux(*state, waveSpeed, true, *out, start, end);
    const bool inside = x >= g + start.x && x < tx - g + end.x && y >= gy + start.y && y < ty - gy + end.y && z >= gz + start.z && z < tz - gz + end.z;
    if (inside) {
        av_cover("inner cell");
        double sum = face<stencil, 0>(*any->L[0], *any->R[0], x - 1, y, z) - face<stencil, 0>(*any->L[0], *any->R[0], x, y, z);
        av_le("wave speed in x", speed<stencil, 0>(*any->L[0], *any->R[0], x, y, z), waveSpeed.x);
        if (dim > 1) {
            sum += face<stencil, 1>(*any->L[1], *any->R[1], x, y - 1, z) - face<stencil, 1>(*any->L[1], *any->R[1], x, y, z);
            av_le("wave speed in y", speed<stencil, 1>(*any->L[1], *any->R[1], x, y, z), waveSpeed.y);
        }
        if (dim > 2) {
            sum += face<stencil, 2>(*any->L[2], *any->R[2], x, y, z - 1) - face<stencil, 2>(*any->L[2], *any->R[2], x, y, z);
            av_le("wave speed in z", speed<stencil, 2>(*any->L[2], *any->R[2], x, y, z), waveSpeed.z);
        }
        av_eq("the spatial operator is the sum of the net fluxes of all directions", spec::get(*out, 0, x, y, z), sum);
    } else {
        av_cover("outer cell");
        av_eq("cells outside the window are left alone", spec::get(*out, 0, x, y, z), before);
    }
    av_eq("the state is not modified", spec::get(*state, 0, x, y, z), kept);
    av_assert("one reconstruction per direction, of the state, over the window", any->calls == dim && any->right);
}
// In three dimensions the operator is checked against the contract of the net flux of a direction (the contracts above), stated
// for one arbitrary cell, in place of its body.
struct ByContract { template<size_t direction> static real computeFlux(const Burgers&, const Burgers::AllVariables&, const Burgers::AllVariables&, Burgers::ConservedVariables&) { return 0; } };
struct Given {
    long x, y, z;
    int calls;
    const volume::Volume *left, *right;
    volume::Volume* out;
    ivec3 start, end;
    bool proper;
} given;
double partOf(int d, double l, double r) { return av_fun("net", 3, l, r, double(d)); }
template<int d> void byContract(const volume::Volume& left, const volume::Volume& right, volume::Volume& out, volume::Volume& tmp, real& waveSpeed, size_t gc, const ivec3& start, const ivec3& end) {
    for (int k = 0; k < 3; ++k) given.proper = given.proper && start[k] == given.start[k] && end[k] == given.end[k];
    given.proper = given.proper && &out == given.out && d == given.calls && &tmp != &out && &tmp != &left && &tmp != &right && &left != &right;
    const bool inside = (given.x >= g + start.x) & (given.x < tx - g + end.x) & (given.y >= gy + start.y) & (given.y < ty - gy + end.y) & (given.z >= gz + start.z) & (given.z < tz - gz + end.z);
    auto o = out.getScalarMemoryArea(0)->getView();
    const double before = o.at(given.x, given.y, given.z);
    const double after = before + partOf(d, left.getScalarMemoryArea(0)->getView().at(given.x, given.y, given.z), right.getScalarMemoryArea(0)->getView().at(given.x, given.y, given.z));
    o.at(given.x, given.y, given.z) = inside ? after : before;
    waveSpeed = av_fun("wave speed", 1, double(d));
    ++given.calls;
}
}
namespace alsfvm { namespace numflux {
template<> void computeNetFlux<ByContract, Burgers, 0>(const Burgers&, const volume::Volume& left, const volume::Volume& right, volume::Volume& out, volume::Volume& tmp, real& w, size_t gc, const ivec3 start, const ivec3 end) { byContract<0>(left, right, out, tmp, w, gc, start, end); }
template<> void computeNetFlux<ByContract, Burgers, 1>(const Burgers&, const volume::Volume& left, const volume::Volume& right, volume::Volume& out, volume::Volume& tmp, real& w, size_t gc, const ivec3 start, const ivec3 end) { byContract<1>(left, right, out, tmp, w, gc, start, end); }
template<> void computeNetFlux<ByContract, Burgers, 2>(const Burgers&, const volume::Volume& left, const volume::Volume& right, volume::Volume& out, volume::Volume& tmp, real& w, size_t gc, const ivec3 start, const ivec3 end) { byContract<2>(left, right, out, tmp, w, gc, start, end); }
} }
namespace {
struct CellReconstruction : reconstruction::Reconstruction {
    int calls = 0;
    bool right = true;
    const volume::Volume* in = nullptr;
    void performReconstruction(const volume::Volume& input, size_t direction, size_t, volume::Volume& leftOut, volume::Volume& rightOut, const ivec3& s, const ivec3& e) {
        for (int k = 0; k < 3; ++k) right = right && s[k] == given.start[k] && e[k] == given.end[k];
        right = right && &input == in && direction == size_t(calls);
        ++calls;
        leftOut.getScalarMemoryArea(0)->getView().at(given.x, given.y, given.z) = av_fun("left", 1, double(direction));
        rightOut.getScalarMemoryArea(0)->getView().at(given.x, given.y, given.z) = av_fun("right", 1, double(direction));
    }
    size_t getNumberOfGhostCells() { return g; }
};
void wholeFluxByContract() {
    sizes<3>(1);
    ivec3 start(av_int("sx", 0, 10000), av_int("sy", 0, 10000), av_int("sz", 0, 10000)), end(-av_int("ex", 0, 10000), -av_int("ey", 0, 10000), -av_int("ez", 0, 10000));
    av_assume(start.x - end.x <= nx && start.y - end.y <= ny && start.z - end.z <= nz);
    auto state = spec::makeVolume(spec::scalarName(), nx, ny, nz, g), out = spec::makeVolume(spec::scalarName(), nx, ny, nz, g);
    spec::arbitrary(*state, spec::U); spec::arbitrary(*out, spec::V);
    auto any = alsfvm::make_shared<CellReconstruction>();
    any->in = state.get();
    auto par = alsfvm::make_shared<simulator::SimulatorParameters>("burgers", "cpu");
    alsfvm::shared_ptr<DeviceConfiguration> device(new DeviceConfiguration("cpu"));
    alsfvm::shared_ptr<reconstruction::Reconstruction> reconstruction = any;
    auto grid = spec::plainGrid(nx, ny, nz);
    numflux::NumericalFluxCPU<ByContract, Burgers, 3> flux(grid, reconstruction, par, device);
    rvec3 waveSpeed(0, 0, 0);
    const long x = av_int("x", 0, 100000), y = av_int("y", 0, 100000), z = av_int("z", 0, 100000);
    av_assume(x < tx && y < ty && z < tz);
    given.x = x; given.y = y; given.z = z; given.calls = 0; given.out = out.get(); given.start = start; given.end = end; given.proper = true;
    const double before = spec::get(*out, 0, x, y, z), kept = spec::get(*state, 0, x, y, z);
    flux.computeFlux(*state, waveSpeed, true, *out, start, end);
    const bool inside = (x >= g + start.x) & (x < tx - g + end.x) & (y >= gy + start.y) & (y < ty - gy + end.y) & (z >= gz + start.z) & (z < tz - gz + end.z);
    if (inside) {
        av_cover("inner cell");
        double sum = 0;
        for (int d = 0; d < 3; ++d) sum += partOf(d, av_fun("left", 1, double(d)), av_fun("right", 1, double(d)));
        av_eq("the spatial operator is the sum of the net fluxes of all directions", spec::get(*out, 0, x, y, z), sum);
    } else {
        av_cover("outer cell");
        av_eq("cells outside the window are left alone", spec::get(*out, 0, x, y, z), before);
    }
    av_eq("wave speed in x", waveSpeed.x, av_fun("wave speed", 1, 0.));
    av_eq("wave speed in y", waveSpeed.y, av_fun("wave speed", 1, 1.));
    av_eq("wave speed in z", waveSpeed.z, av_fun("wave speed", 1, 2.));
    av_eq("the state is not modified", spec::get(*state, 0, x, y, z), kept);
    av_assert("one reconstruction per direction, of the state, over the window", any->calls == 3 && any->right);
    av_assert("one net flux per direction, over the window, into the output", given.calls == 3 && given.proper);
}
}
AV_CONTRACT(P01, compute_flux_1d) { wholeFlux<AnyFlux, 2, 1>(); }
AV_CONTRACT(P01, compute_flux_2d) { wholeFlux<AnyFlux, 2, 2>(); }
AV_CONTRACT(P01, compute_flux_3d) { wholeFluxByContract(); }
AV_CONTRACT(P01, compute_flux_four_point_2d) { wholeFlux<AnyFlux4, 4, 2>(); }
AV_CONTRACT(P01, two_point_1d) { netFlux<AnyFlux, 2, 1, 0>(false); }
AV_CONTRACT(P01, two_point_1d_window) { netFlux<AnyFlux, 2, 1, 0>(true); }
AV_CONTRACT(P01, two_point_2d_x) { netFlux<AnyFlux, 2, 2, 0>(true); }
AV_CONTRACT(P01, two_point_2d_y) { netFlux<AnyFlux, 2, 2, 1>(true); }
AV_CONTRACT(P01, two_point_3d_x) { netFlux<AnyFlux, 2, 3, 0>(true); }
AV_CONTRACT(P01, two_point_3d_y) { netFlux<AnyFlux, 2, 3, 1>(true); }
AV_CONTRACT(P01, two_point_3d_z) { netFlux<AnyFlux, 2, 3, 2>(true); }
AV_CONTRACT(P01, four_point_1d) { netFlux<AnyFlux4, 4, 1, 0>(true); }
AV_CONTRACT(P01, four_point_2d_y) { netFlux<AnyFlux4, 4, 2, 1>(true); }
AV_CONTRACT(P01, six_point_1d) { netFlux<AnyFlux6, 6, 1, 0>(true); }
AV_CONTRACT(P01, six_point_2d_y) { netFlux<AnyFlux6, 6, 2, 1>(true); }
