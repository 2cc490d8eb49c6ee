// AV-SOURCES: alsfvm/src/functional/Functional.cpp alsuq/src/stats/StatisticsHelper.cpp alsuq/src/stats/StatisticsSnapshot.cpp alsuq/src/stats/Statistics.cpp alsfvm/src/volume/VolumePair.cpp alsutils/src/mpi/Configuration.cpp alsutils/src/mpi/mpi_types.cpp alsfvm/src/simulator/TimestepInformation.cpp alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/grid/Grid.cpp
// AV-OPT cube_sums_3d: weight=20
// The structure functions over cubes, function by function: the value at a position outside the domain, the points of the
// surface of a cube (each once), the sum over all cells of what a cell contributes, the choice of the power.
#include "common.hpp"
#include <functional>
#include <cmath>
#include <map>
#include <memory>
#include <sstream>
#include <boost/property_tree/ptree.hpp>
#include "alsfvm/io/Writer.hpp"
#include "alsfvm/memory/HostMemory.hpp"
#define private public
#define protected public
#include "alsfvm/functional/Functional.hpp"
#include "alsfvm/functional/StructureCube.hpp"
#include "alsuq/stats/Statistics.hpp"
#include "alsuq/stats/StatisticsHelper.hpp"
#include "alsuq/stats/StructureCube.hpp"
#undef private
#undef protected
#include "alsfvm/functional/structure_common.hpp"
#include "alsfvm/functional/FunctionalFactory.hpp"
#include "alsuq/stats/StatisticsFactory.hpp"
using namespace alsfvm;
namespace {
long wx, wy, wz;        // a point anywhere
double asked(ivec3 p) { return av_fun("value", 3, double(p.x), double(p.y), double(p.z)); }
bool counting;
}
// the value at a position: known as a function of the position, or as an indicator of the point
namespace alsfvm { namespace boundary {
template<> class ValueAtBoundary<MPI_BC> {
public:
    template<class T> static T getValueAtBoundary(const memory::View<T>&, ivec3 p, ivec3, ivec3) {
        if (counting) return double((p.x == wx) & (p.y == wy) & (p.z == wz));
        return asked(p);
    }
};
} }
namespace {
struct Sizes { long nx, ny, nz, g; long gx() const { return g; } long gy() const { return ny > 1 ? g : 0; } long gz() const { return nz > 1 ? g : 0; } };
Sizes sizes(int dim) { return {av_int("nx", 2, 1000), dim > 1 ? av_int("ny", 2, 1000) : 1, dim > 2 ? av_int("nz", 2, 1000) : 1, av_int("g", 0, 10)}; }

template<boundary::Type type> void valueOutside(int qx, int qy, int qz) {
    const Sizes s = sizes(3);
    auto in = spec::makeVolume(1, s.nx, s.ny, s.nz, s.g);
    spec::arbitrary(*in, spec::U);
    const volume::Volume& v = *in;
    const long x = av_int("x", 0, 1000), y = av_int("y", 0, 1000), z = av_int("z", 0, 1000);
    av_assume(x < s.nx); av_assume(y < s.ny); av_assume(z < s.nz);
    const auto view = v.getScalarMemoryArea(0)->getView();
    const double got = boundary::ValueAtBoundary<type>::getValueAtBoundary(view, ivec3(x + qx * s.nx, y + qy * s.ny, z + qz * s.nz), ivec3(s.nx, s.ny, s.nz), ivec3(s.g, s.g, s.g));
    long X = x, Y = y, Z = z;
    if (type == boundary::NEUMANN) {
        X = qx < 0 ? 0 : qx > 0 ? s.nx - 1 : x; Y = qy < 0 ? 0 : qy > 0 ? s.ny - 1 : y; Z = qz < 0 ? 0 : qz > 0 ? s.nz - 1 : z;
    }
    av_cover("looked up");
    av_eq("the value at the position is that of the cell it stands for", got, v.getScalarMemoryArea(0)->getPointer()[((Z + s.g) * (s.ny + 2 * s.g) + Y + s.g) * (s.nx + 2 * s.g) + X + s.g]);
}
}
AV_CONTRACT(P14, cube_value_periodic_inside) { valueOutside<boundary::PERIODIC>(0, 0, 0); }
AV_CONTRACT(P14, cube_value_periodic_below) { valueOutside<boundary::PERIODIC>(-1, -1, -1); }
AV_CONTRACT(P14, cube_value_periodic_above) { valueOutside<boundary::PERIODIC>(1, 1, 1); }
AV_CONTRACT(P14, cube_value_periodic_mixed) { valueOutside<boundary::PERIODIC>(2, -2, 0); }
AV_CONTRACT(P14, cube_value_neumann_inside) { valueOutside<boundary::NEUMANN>(0, 0, 0); }
AV_CONTRACT(P14, cube_value_neumann_below) { valueOutside<boundary::NEUMANN>(-1, -1, -1); }
AV_CONTRACT(P14, cube_value_neumann_above) { valueOutside<boundary::NEUMANN>(1, 1, 1); }
AV_CONTRACT(P14, cube_value_neumann_mixed) { valueOutside<boundary::NEUMANN>(3, -2, 0); }

namespace {
bool within(long a, long h) { return (-h <= a) & (a <= h); }
template<int dim> void surface() {
    const Sizes s = sizes(dim);
    auto in = spec::makeVolume(1, s.nx, s.ny, s.nz, s.g);
    spec::arbitrary(*in, spec::U);
    const volume::Volume& v = *in;
    const long i = av_int("i", 0, 1000), j = dim > 1 ? av_int("j", 0, 1000) : 0, k = dim > 2 ? av_int("k", 0, 1000) : 0, h = av_int("h", 1, 1000);
    av_assume(i < s.nx); av_assume(j < s.ny); av_assume(k < s.nz);
    wx = av_int("wx", -2000, 2000); wy = dim > 1 ? av_int("wy", -2000, 2000) : 0; wz = dim > 2 ? av_int("wz", -2000, 2000) : 0;
    counting = true;
    double times = 0, here = 0;
    const auto view = v.getScalarMemoryArea(0)->getView();
    const double u = view.at(i + s.gx(), j + s.gy(), k + s.gz());
    functional::forEachPointInComputeStructureCube<boundary::MPI_BC>([&](double a, double b) { times += b; here += (a - u) * (a - u); },
        view, i, j, k, h, s.nx, s.ny, s.nz, s.gx(), s.gy(), s.gz(), dim);
    const long x = wx - i, y = wy - j, z = wz - k;
    const bool on = within(x, h) & within(y, h) & within(z, h) & !(within(x, h - 1) & within(y, h - 1) & within(z, h - 1));
    av_cover("enumerated");
    av_eq("each point at distance h in the maximum norm is visited once, no other point is", times, on ? 1.0 : 0.0);
    av_eq("with the value of the cell itself", here, 0);
}
}
AV_CONTRACT(P14, cube_surface_1d) { surface<1>(); }
AV_CONTRACT(P14, cube_surface_2d) { surface<2>(); }
AV_CONTRACT(P14, cube_surface_3d) { surface<3>(); }

// what the functional and the statistics ask for
namespace {
struct Ask { int type = -1, calls = 0; volume::Volume* out = nullptr; const volume::Volume* in = nullptr; int H = 0; double p = 0, w = 0; } ask;
void record(int type, volume::Volume& out, const volume::Volume& in, int H, double p, double w) { ask.type = type; ask.out = &out; ask.in = &in; ask.H = H; ask.p = p; ask.w = w; ++ask.calls; }
char parametersStorage[256];
template<class P> const P& given() { return *reinterpret_cast<P*>(parametersStorage); }
double pGiven;
int numberGiven;
alsuq::mpi::ConfigurationPtr config;
}
namespace alsfvm { namespace functional {
template<> inline void dispatchComputeStructureCubeCPU<boundary::PERIODIC>(volume::Volume& out, const volume::Volume& in, int H, double p, real w) { record(boundary::PERIODIC, out, in, H, p, w); }
template<> inline void dispatchComputeStructureCubeCPU<boundary::NEUMANN>(volume::Volume& out, const volume::Volume& in, int H, double p, real w) { record(boundary::NEUMANN, out, in, H, p, w); }
void FunctionalFactory::registerFunctional(const std::string&, const std::string&, FunctionalCreator) {}
} }
#include "alsfvm/src/functional/StructureCube.cpp"
#include "alsuq/src/stats/StructureCube.cpp"
namespace alsutils { namespace parameters {
int Parameters::getInteger(const std::string&) const { return numberGiven; }
double Parameters::getDouble(const std::string&) const { return pGiven; }
std::string Parameters::getString(const std::string&) const { return "f"; }
} }
namespace alsuq { namespace stats {
size_t StatisticsParameters::getNumberOfSamples() const { return 7; }
mpi::ConfigurationPtr StatisticsParameters::getMpiConfiguration() const { return config; }
std::string StatisticsParameters::getPlatform() const { return "cpu"; }
void StatisticsFactory::registerStatistics(const std::string&, const std::string&, StatisticsCreator) {}
} }
extern "C" {
int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int* n) { *n = 4; return MPI_SUCCESS; }
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm) { return MPI_SUCCESS; }
}
namespace {
struct Weighted { static double power(double x, double p) { return av_fun("power", 2, x, p); } };
double mag(double a) { return a < 0 ? -a : a; }
template<int dim> void cubes() {
    const Sizes s = sizes(dim);
    const long H = av_int("H", 1, 1000);
    auto in = spec::makeVolume(dim == 3 ? 1 : 2, s.nx, s.ny, s.nz, s.g), out = spec::makeVolume(dim == 3 ? 1 : 2, H, 1, 1, 0);
    spec::arbitrary(*in, spec::U); spec::arbitrary(*out, spec::V);
    const double p = av_pos("p"), w = av_real("weight");
    counting = false;
    const long h = av_int("h", 0, 1000);
    av_assume(h < H);
    const int vars = dim == 3 ? 1 : 2;
    const double* o[2] = {spec::old(*out, 0), spec::old(*out, vars - 1)};
    functional::computeStructureCubeCPU<boundary::MPI_BC, Weighted>(*out, *in, H, p, w);
    av_cover("evaluated");
    const volume::Volume& v = *in;
    for (int var = 0; var < vars; ++var) {
        const auto view = v.getScalarMemoryArea(var)->getView();
        double sum = 0;
        if (h > 0)
            for (long k = 0; k < s.nz; ++k) for (long j = 0; j < s.ny; ++j) for (long i = 0; i < s.nx; ++i)
                functional::forEachPointInComputeStructureCube<boundary::MPI_BC>([&](double a, double b) { sum += Weighted::power(mag(a - b), p) / double(s.nx * s.ny * s.nz); },
                    view, i, j, k, h, s.nx, s.ny, s.nz, s.gx(), s.gy(), s.gz(), dim);
        av_eq("the mean of the powers of the jumps to the points at each distance is added with its weight", out->getScalarMemoryArea(var)->getPointer()[h], o[var][h] + w * sum);
    }
}
}
AV_CONTRACT(P14, cube_sums_1d) { cubes<1>(); }
AV_CONTRACT(P14, cube_sums_2d) { cubes<2>(); }
AV_CONTRACT(P14, cube_sums_3d) { cubes<3>(); }

namespace {
template<int power> void powers(double p) {
    const Sizes s = sizes(1);
    auto in = spec::makeVolume(1, s.nx, 1, 1, s.g), out = spec::makeVolume(1, 2, 1, 1, 0);
    spec::arbitrary(*in, spec::U);
    spec::arbitrary(*out, spec::V);
    const double w = av_real("weight"), before = out->getScalarMemoryArea(0)->getPointer()[1];
    counting = false;
    functional::dispatchComputeStructureCubeCPU<boundary::MPI_BC>(*out, *in, 2, p, w);
    const double* u = in->getScalarMemoryArea(0)->getPointer();
    double sum = 0;
    for (long i = 0; i < s.nx; ++i)
        for (int side = 0; side < 2; ++side) {
            const double d = mag(u[i + s.g] - asked(ivec3(side == 0 ? i - 1 : i + 1, 0, 0)));
            double t = 1;
            for (int n = 0; n < power; ++n) t *= d;
            sum += (power == 0 ? std::pow(d, p) : t) / double(s.nx);
        }
    av_cover("evaluated");
    av_eq("the jump to the power p", out->getScalarMemoryArea(0)->getPointer()[1], before + w * sum);
}
template<int dim> void functionalAsks(boundary::Type type, int other) {
    pGiven = av_pos("p"); numberGiven = av_int("H", 1, 1000);
    functional::StructureCube f(given<functional::Functional::Parameters>());
    const Sizes s = sizes(dim);
    std::array<boundary::Type, 6> b;
    for (int i = 0; i < 6; ++i) b[i] = i < 2 * dim ? type : boundary::MPI_BC;
    if (other >= 0) b[other] = type == boundary::PERIODIC ? boundary::NEUMANN : boundary::PERIODIC;
    const grid::Grid g(rvec3(0, 0, 0), rvec3(1, 1, 1), ivec3(s.nx, s.ny, s.nz), b);
    auto in = spec::makeVolume(1, s.nx, s.ny, s.nz, s.g), out = spec::makeVolume(1, numberGiven, 1, 1, 0);
    spec::arbitrary(*in, spec::U);
    spec::arbitrary(*out, spec::V);
    const double w = av_real("weight");
    const ivec3 fs = f.getFunctionalSize(g);
    av_assert("one number per distance", fs.x == numberGiven && fs.y == 1 && fs.z == 1);
    const long h = av_int("h", 0, 1000);
    av_assume(h < numberGiven);
    const double before = out->getScalarMemoryArea(0)->getPointer()[h];
    ask = Ask();
    if (other >= 0 && other < 2 * dim) av_cover("asked");
    bool refused = false;
    try { f(*out, *in, w, g); } catch (std::runtime_error&) { refused = true; }
    if (other >= 0 && other < 2 * dim) { av_assert("mixed boundary conditions are refused", refused); return; }
    av_cover("evaluated");
    av_assert("the cubes are summed once, for the boundary condition of the domain", !refused && ask.calls == 1 && ask.type == type && ask.out == out.get() && ask.in == in.get() && ask.H == numberGiven);
    av_eq("for the power", ask.p, pGiven);
    av_eq("with the weight", ask.w, w);
    av_eq("on top of what was there", out->getScalarMemoryArea(0)->getPointer()[h], before);
}
template<int dim> void statisticsAsk(boundary::Type type, bool first) {
    pGiven = 2; numberGiven = av_int("H", 1, 1000);
    config.reset(new alsuq::mpi::Configuration(MPI_COMM_WORLD, "cpu"));
    alsuq::stats::StructureCube f(given<alsuq::stats::StatisticsParameters>());
    const_cast<real&>(f.p) = av_pos("p");
    const Sizes s = sizes(dim);
    std::array<boundary::Type, 6> b;
    for (int i = 0; i < 6; ++i) b[i] = i < 2 * dim ? type : boundary::MPI_BC;
    const grid::Grid g(rvec3(0, 0, 0), rvec3(1, 1, 1), ivec3(s.nx, s.ny, s.nz), b);
    auto in = spec::makeVolume(1, s.nx, s.ny, s.nz, s.g);
    spec::arbitrary(*in, spec::U);
    const simulator::TimestepInformation t(av_real("t"), 3);
    const long h = av_int("h", 0, 1000);
    av_assume(h < numberGiven);
    double before = 0;
    if (!first) {
        auto& v = *f.findOrCreateSnapshot(f.statisticsName, t, *in, numberGiven, 1, 1).getVolumes().getConservedVolume();
        spec::arbitrary(v, spec::V);
        before = v.getScalarMemoryArea(0)->getPointer()[h];
    }
    ask = Ask();
    f.computeStatistics(*in, g, t);
    av_cover("evaluated");
    auto& v = *f.findOrCreateSnapshot(f.statisticsName, t, *in, numberGiven, 1, 1).getVolumes().getConservedVolume();
    av_assert("the cubes are summed once, for the boundary condition of the domain, into the statistics of the time", ask.calls == 1 && ask.type == type && ask.out == &v && ask.in == in.get() && ask.H == numberGiven);
    av_eq("for the power", ask.p, f.p);
    av_eq("each sample counts once", ask.w, 1);
    av_eq("on top of what was there", v.getScalarMemoryArea(0)->getPointer()[h], before);
}
}
AV_CONTRACT(P14, cube_power_1) { powers<1>(1); }
AV_CONTRACT(P14, cube_power_2) { powers<2>(2); }
AV_CONTRACT(P14, cube_power_3) { powers<3>(3); }
AV_CONTRACT(P14, cube_power_4) { powers<4>(4); }
AV_CONTRACT(P14, cube_power_5) { powers<5>(5); }
AV_CONTRACT(P14, cube_power_any) { const double p = av_pos("p"); av_assume((p != 1) & (p != 2) & (p != 3) & (p != 4) & (p != 5)); powers<0>(p); }
AV_CONTRACT(P14, cube_functional_1d_periodic) { functionalAsks<1>(boundary::PERIODIC, -1); }
AV_CONTRACT(P14, cube_functional_2d_neumann) { functionalAsks<2>(boundary::NEUMANN, -1); }
AV_CONTRACT(P14, cube_functional_3d_periodic) { functionalAsks<3>(boundary::PERIODIC, -1); }
AV_CONTRACT(P14, cube_functional_2d_mixed) { functionalAsks<2>(boundary::PERIODIC, 3); }
AV_CONTRACT(P14, cube_functional_3d_mixed) { functionalAsks<3>(boundary::NEUMANN, 4); }
AV_CONTRACT(P14, cube_statistics_1d_neumann_first) { statisticsAsk<1>(boundary::NEUMANN, true); }
AV_CONTRACT(P14, cube_statistics_2d_periodic) { statisticsAsk<2>(boundary::PERIODIC, false); }
