// AV-SOURCES: alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/mpi/RequestContainer.cpp alsfvm/src/mpi/Request.cpp
// AV-OPT .*_3d: weight=4 time=400
// AV-OPT system.*: maxfn=1
#include "common.hpp"
#include <mpi.h>
// std::thread is modelled by the verifier: the exchange runs completely either when it is started or when it is joined.
#include "alsfvm/src/simulator/ConservedSystem.cpp"
using namespace alsfvm;
extern "C" int MPI_Wait(MPI_Request*, MPI_Status*) { return MPI_SUCCESS; }
namespace {
long g, tx, ty, tz, nx, ny, nz, gy, gz;
int dim;
// what a numerical flux of stencil width g may compute for a cell: any function of the cell and of those up to g away
double net(const volume::Volume& in, long x, long y, long z) {
    auto v = in.getScalarMemoryArea(0)->getView();
    if (dim == 1) return av_fun("net", 3, v.at(x - g, y, z), v.at(x, y, z), v.at(x + g, y, z));
    if (dim == 2) return av_fun("net", 5, v.at(x - g, y, z), v.at(x, y, z), v.at(x + g, y, z), v.at(x, y - g, z), v.at(x, y + g, z));
    return av_fun("net", 7, v.at(x - g, y, z), v.at(x, y, z), v.at(x + g, y, z), v.at(x, y - g, z), v.at(x, y + g, z), v.at(x, y, z - g), v.at(x, y, z + g));
}
double speed(const volume::Volume& in, int d, long x, long y, long z) { return av_fun("speed", 2, double(d), net(in, x, y, z)); }
long cx, cy, cz;   // an arbitrary cell; everything below is stated for it
bool ghost(long x, long y, long z) { return (x < g) | (x >= tx - g) | (y < gy) | (y >= ty - gy) | (z < gz) | (z >= tz - gz); }
// Obeys the contract proved for NumericalFluxCPU::computeFlux (P01_netflux.cpp): cells of the window get their net flux, the
// returned wave speeds are at least those of the cells of the window, nothing else is known about them.
struct AnyNumericalFlux : numflux::NumericalFlux {
    int calls = 0;
    void computeFlux(const volume::Volume& in, rvec3& waveSpeed, bool, volume::Volume& out, const ivec3& start, const ivec3& end) {
        // (no short circuits: they would only multiply the paths)
        const bool inside = (cx >= g + start.x) & (cx < tx - g + end.x) & (cy >= gy + start.y) & (cy < ty - gy + end.y) & (cz >= gz + start.z) & (cz < tz - gz + end.z);
        const bool legal = (start.x >= 0) & (end.x <= 0) & (start.y >= 0) & (end.y <= 0) & (start.z >= 0) & (end.z <= 0);
        av_assert("the windows lie inside the grid", legal);
        auto view = out.getScalarMemoryArea(0)->getView();
        const double value = net(in, cx, cy, cz), before = view.at(cx, cy, cz);
        view.at(cx, cy, cz) = inside ? value : before;
        ++calls;
        for (int d = 0; d < dim; ++d) {
            const double any = av_fun("wave speed", 2, double(calls), double(d)), least = av_fun("speed", 2, double(d), value);
            waveSpeed[d] = inside ? std::max(any, least) : any;
        }
    }
    size_t getNumberOfGhostCells() { return g; }
};
struct AnyDiffusion : diffusion::DiffusionOperator {
    int calls = 0;
    volume::Volume *out = nullptr; const volume::Volume* in = nullptr;
    double seen = 0;
    void applyDiffusion(volume::Volume& o, const volume::Volume& c) { ++calls; out = &o; in = &c; seen = spec::get(o, 0, cx, cy, cz); }
    size_t getNumberOfGhostCells() const { return 0; }
};
// replaces the halo cells that the net flux of the cell reads by those of another, arbitrary volume
struct AnyExchanger : alsfvm::mpi::CellExchanger {
    volume::Volume* halo;
    alsfvm::mpi::RequestContainer exchangeCells(volume::Volume& out, const volume::Volume&) {
        auto o = out.getScalarMemoryArea(0)->getView();
        auto h = halo->getScalarMemoryArea(0)->getView();
        for (int d = 0; d < dim; ++d) for (int s = -1; s < 2; s += 2) {
            const long x = cx + (d == 0) * s * g, y = cy + (d == 1) * s * g, z = cz + (d == 2) * s * g;
            const double mine = o.at(x, y, z), theirs = h.at(x, y, z);
            o.at(x, y, z) = ghost(x, y, z) ? theirs : mine;
        }
        return alsfvm::mpi::RequestContainer();
    }
    real max(real a) { return a; }
    real adjustWaveSpeed(real a) { return a; }
    ivec6 getNeighbours() const { return ivec6(-1, -1, -1, -1, -1, -1); }
};
template<int d> void wholeSystem(bool exchange) {
    dim = d;
    g = av_int("g", 1, 100);
    tx = av_int("tx", 1, 100000); nx = tx - 2 * g;
    ty = d > 1 ? av_int("ty", 1, 100000) : 1; ny = d > 1 ? ty - 2 * g : 1;
    tz = d > 2 ? av_int("tz", 1, 100000) : 1; nz = d > 2 ? tz - 2 * g : 1;
    gy = d > 1 ? g : 0; gz = d > 2 ? g : 0;
    av_assume(nx >= g && (d < 2 || (ny >= g && ny > 1)) && (d < 3 || (nz >= g && nz > 1)));
    auto state = spec::makeVolume(spec::scalarName(), nx, ny, nz, g), out = spec::makeVolume(spec::scalarName(), nx, ny, nz, g), halo = spec::makeVolume(spec::scalarName(), nx, ny, nz, g);
    spec::arbitrary(*state, spec::U); spec::arbitrary(*out, spec::V); spec::arbitrary(*halo, spec::W);
    auto flux = alsfvm::make_shared<AnyNumericalFlux>();
    auto diffusion = alsfvm::make_shared<AnyDiffusion>();
    simulator::ConservedSystem system(flux, diffusion);
    if (exchange) {
        auto e = alsfvm::make_shared<AnyExchanger>();
        e->halo = halo.get();
        system.setCellExchanger(e);
    }
    const long x = av_int("x", 0, 100000), y = d > 1 ? av_int("y", 0, 100000) : 0, z = d > 2 ? av_int("z", 0, 100000) : 0;
    av_assume(x < tx && y < ty && z < tz);
    av_assume(!ghost(x, y, z));
    cx = x; cy = y; cz = z;
    rvec3 waveSpeed(0, 0, 0);
    system(*state, waveSpeed, true, *out);
    {
        av_cover("inner cell");
        av_eq("every inner cell holds its net flux, computed from exchanged halos", spec::get(*out, 0, x, y, z), net(*state, x, y, z));
        av_le("wave speed in x bounds that of every inner cell", speed(*state, 0, x, y, z), waveSpeed.x);
        if (d > 1) av_le("wave speed in y bounds that of every inner cell", speed(*state, 1, x, y, z), waveSpeed.y);
        if (d > 2) av_le("wave speed in z bounds that of every inner cell", speed(*state, 2, x, y, z), waveSpeed.z);
        av_eq("the diffusion is applied to the complete net flux", diffusion->seen, net(*state, x, y, z));
    }
    av_assert("the diffusion is applied once, to the output and the state", diffusion->calls == 1 && diffusion->out == out.get() && diffusion->in == state.get());
}
}
AV_CONTRACT(P01, system_1d) { wholeSystem<1>(false); }
AV_CONTRACT(P01, system_2d) { wholeSystem<2>(false); }
AV_CONTRACT(P01, system_3d) { wholeSystem<3>(false); }
AV_CONTRACT(P01, system_exchange_1d) { wholeSystem<1>(true); }
AV_CONTRACT(P01, system_exchange_2d) { wholeSystem<2>(true); }
AV_CONTRACT(P01, system_exchange_3d) { wholeSystem<3>(true); }
