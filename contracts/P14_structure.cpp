// AV-SOURCES: alsfvm/src/functional/Functional.cpp alsuq/src/stats/StatisticsHelper.cpp alsuq/src/stats/StatisticsSnapshot.cpp alsuq/src/stats/Statistics.cpp alsfvm/src/volume/VolumePair.cpp alsutils/src/mpi/Configuration.cpp alsutils/src/mpi/mpi_types.cpp alsfvm/src/simulator/TimestepInformation.cpp alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/grid/Grid.cpp
// AV-OPT structure_statistics_(two|.*neumann).*: maxfn=1
#include "common.hpp"
#include <functional>
#include <cmath>
#include <map>
#include <memory>
#include <sstream>
#include <boost/property_tree/ptree.hpp>
#include "alsfvm/io/Writer.hpp"
#include "alsuq/stats/Statistics.hpp"
#include "alsfvm/memory/HostMemory.hpp"
#define private public
#define protected public
#include "alsfvm/functional/Functional.hpp"
#include "alsfvm/functional/StructureBase.hpp"
#include "alsfvm/functional/StructureCube.hpp"
#include "alsuq/stats/StatisticsHelper.hpp"
#include "alsuq/stats/StructureBasic.hpp"
#include "alsuq/stats/StructureCube.hpp"
#include "alsuq/stats/StructureTwoPoints.hpp"
#undef private
#undef protected
#include "alsfvm/functional/FunctionalFactory.hpp"
#include "alsuq/stats/StatisticsFactory.hpp"
#include "alsfvm/src/functional/StructureBase.cpp"
#include "alsuq/src/stats/StructureBasic.cpp"
#include "alsuq/src/stats/StructureTwoPoints.cpp"
using namespace alsfvm;
typedef simulator::TimestepInformation Info;
namespace {
char parametersStorage[256];
template<class P> const P& given() { return *reinterpret_cast<P*>(parametersStorage); }
double pGiven;
int directionGiven, direction2Given, numberGiven;
alsuq::mpi::ConfigurationPtr config;
}
namespace alsutils { namespace parameters {
int Parameters::getInteger(const std::string& n) const { return n == "numberOfH" ? numberGiven : n == "direction2" ? direction2Given : directionGiven; }
double Parameters::getDouble(const std::string&) const { return pGiven; }
std::string Parameters::getString(const std::string&) const { return "f"; }
} }
namespace alsfvm { namespace functional {
void FunctionalFactory::registerFunctional(const std::string&, const std::string&, FunctionalCreator) {}
} }
namespace alsuq { namespace stats {
size_t StatisticsParameters::getNumberOfSamples() const { return 7; }
mpi::ConfigurationPtr StatisticsParameters::getMpiConfiguration() const { return config; }
std::string StatisticsParameters::getPlatform() const { return "cpu"; }
void StatisticsFactory::registerStatistics(const std::string&, const std::string&, StatisticsCreator) {}
} }
extern "C" {
int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int* n) { *n = 4; return MPI_SUCCESS; }
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm) { return MPI_SUCCESS; }
}
namespace {
struct Sizes { long nx, ny, nz, g; long gx() const { return g; } long gy() const { return ny > 1 ? g : 0; } long gz() const { return nz > 1 ? g : 0; } };
Sizes sizes(int dim) { return {av_int("nx", 2, 1000), dim > 1 ? av_int("ny", 2, 1000) : 1, dim > 2 ? av_int("nz", 2, 1000) : 1, av_int("g", 0, 10)}; }
double mag(double a) { return a < 0 ? -a : a; }
long wrap(long i, long n) { return i % n; }
long clamp(long i, long n) { return i < n ? i : n - 1; }

// the value at distance h in direction d
template<class Outside> double shifted(const double* u, const Sizes& s, long x, long y, long z, int d, long h, Outside outside) {
    const long X = d == 0 ? outside(x + h, s.nx) : x, Y = d == 1 ? outside(y + h, s.ny) : y, Z = d == 2 ? outside(z + h, s.nz) : z;
    return u[((Z + s.gz()) * (s.ny + 2 * s.gy()) + Y + s.gy()) * (s.nx + 2 * s.gx()) + X + s.gx()];
}
template<class Outside> double structureSpec(const double* u, const Sizes& s, int d, long h, double p, Outside outside) {
    double sum = 0;
    for (long z = 0; z < s.nz; ++z) for (long y = 0; y < s.ny; ++y) for (long x = 0; x < s.nx; ++x)
        sum += std::pow(mag(shifted(u, s, x, y, z, 0, 0, clamp) - shifted(u, s, x, y, z, d, h, outside)), p) / double(s.nx * s.ny * s.nz);
    return sum;
}
template<int dim> void structureFunctional(int d) {
    const Sizes s = sizes(dim);
    pGiven = av_pos("p"); directionGiven = d; numberGiven = av_int("H", 1, 1000);
    functional::StructureBase f(given<functional::Functional::Parameters>());
    auto in = spec::makeVolume(1, s.nx, s.ny, s.nz, s.g), out = spec::makeVolume(1, numberGiven, 1, 1, 0);
    spec::arbitrary(*in, spec::U); spec::arbitrary(*out, spec::V);
    auto g = spec::plainGrid(s.nx, s.ny, s.nz);
    const ivec3 fs = f.getFunctionalSize(g);
    av_assert("one number per distance", fs.x == numberGiven && fs.y == 1 && fs.z == 1);
    const double w = av_real("weight");
    const double* o = spec::old(*out, 0);
    const double* u = spec::old(*in, 0);
    f(*out, *in, w, g);
    av_cover("evaluated");
    const long h = av_int("h", 0, 1000);
    av_assume(h < numberGiven);
    av_eq("the mean p-th power of the jumps over each distance is added with its weight", out->getScalarMemoryArea(0)->getPointer()[h], o[h] + w * structureSpec(u, s, d, h, pGiven, wrap));
}
}
AV_CONTRACT(P14, structure_functional_1d) { structureFunctional<1>(0); }
AV_CONTRACT(P14, structure_functional_2d_x) { structureFunctional<2>(0); }
AV_CONTRACT(P14, structure_functional_2d_y) { structureFunctional<2>(1); }
AV_CONTRACT(P14, structure_functional_3d_z) { structureFunctional<3>(2); }

namespace {
long least(long i, long n) { return std::min(int(i), int(n - 1)); }
grid::Grid boundedGrid(const Sizes& s, const std::array<boundary::Type, 6>& b) {
    return grid::Grid(rvec3(0, 0, 0), rvec3(1, 1, 1), ivec3(s.nx, s.ny, s.nz), b);
}
template<int dim> void structureStatistics(int d, bool periodic, bool first) {
    const Sizes s = sizes(dim);
    pGiven = 2; directionGiven = d; numberGiven = av_int("H", 1, 1000);
    config.reset(new alsuq::mpi::Configuration(MPI_COMM_WORLD, "cpu"));
    alsuq::stats::StructureBasic f(given<alsuq::stats::StatisticsParameters>());
    const_cast<real&>(f.p) = av_pos("p");
    std::array<boundary::Type, 6> b;
    for (int i = 0; i < 6; ++i) b[i] = i / 2 == d && periodic ? boundary::PERIODIC : boundary::NEUMANN;
    auto g = boundedGrid(s, b);
    const Info t(av_real("t"), 3);
    auto in = spec::makeVolume(1, s.nx, s.ny, s.nz, s.g);
    spec::arbitrary(*in, spec::U);
    const double* o = nullptr;
    if (!first) {
        auto& v = *f.findOrCreateSnapshot(f.statisticsName, t, *in, numberGiven, 1, 1).getVolumes().getConservedVolume();
        spec::arbitrary(v, spec::V);
        o = spec::old(v, 0);
    }
    f.computeStatistics(*in, g, t);
    av_cover("evaluated");
    auto& v = *f.findOrCreateSnapshot(f.statisticsName, t, *in, numberGiven, 1, 1).getVolumes().getConservedVolume();
    const long h = av_int("h", 0, 1000);
    av_assume(h < numberGiven);
    const double* u = spec::old(*in, 0);
    const double before = first ? 0 : o[h];
    const double sum = periodic ? structureSpec(u, s, d, h, f.p, wrap) : structureSpec(u, s, d, h, f.p, least);
    av_eq("the mean p-th power of the jumps over each distance is added", v.getScalarMemoryArea(0)->getPointer()[h], before + sum);
}
}
AV_CONTRACT(P14, structure_statistics_1d_periodic) { structureStatistics<1>(0, true, true); }
AV_CONTRACT(P14, structure_statistics_1d_neumann) { structureStatistics<1>(0, false, false); }
AV_CONTRACT(P14, structure_statistics_2d_x_periodic) { structureStatistics<2>(0, true, false); }
AV_CONTRACT(P14, structure_statistics_2d_y_neumann) { structureStatistics<2>(1, false, true); }
AV_CONTRACT(P14, structure_statistics_2d_y_periodic) { structureStatistics<2>(1, true, false); }

namespace {
// the third direction of a plane may be z
Sizes plane(int flat) { Sizes s = sizes(3); (flat == 0 ? s.nx : s.ny) = 1; return s; }
void twoPoints(int d, int e, int flat = 2) {
    const Sizes s = flat == 2 ? sizes(2) : plane(flat);
    directionGiven = d; direction2Given = e; numberGiven = av_int("H", 1, 1000);
    config.reset(new alsuq::mpi::Configuration(MPI_COMM_WORLD, "cpu"));
    alsuq::stats::StructureTwoPoints f(given<alsuq::stats::StatisticsParameters>());
    auto g = spec::plainGrid(s.nx, s.ny, s.nz);
    const Info t(av_real("t"), 3);
    auto in = spec::makeVolume(1, s.nx, s.ny, s.nz, s.g);
    spec::arbitrary(*in, spec::U);
    av_shape(numberGiven, numberGiven, 1);
    f.computeStatistics(*in, g, t);
    av_cover("evaluated");
    auto& v = *f.findOrCreateSnapshot(f.statisticsName, t, *in, numberGiven, numberGiven, 1).getVolumes().getConservedVolume();
    const long a = av_int("h1", 0, 1000), b = av_int("h2", 0, 1000);
    av_assume(a < numberGiven); av_assume(b < numberGiven);
    const double* u = spec::old(*in, 0);
    double sum = 0;
    for (long z = 0; z < s.nz; ++z) for (long y = 0; y < s.ny; ++y) for (long x = 0; x < s.nx; ++x) {
        const double here = shifted(u, s, x, y, z, 0, 0, least), one = shifted(u, s, x, y, z, d, a, least), two = shifted(u, s, x, y, z, e, b, least);
        sum += (one - here) * (one - here) * (two - here) / double(s.nx * s.ny * s.nz);
    }
    av_eq("the mean product of the jumps over both distances is added", v.getScalarMemoryArea(0)->getPointer()[b * numberGiven + a], sum);
}
}
AV_CONTRACT(P14, structure_statistics_two_points_xy) { twoPoints(0, 1); }
AV_CONTRACT(P14, structure_statistics_two_points_yx) { twoPoints(1, 0); }
AV_CONTRACT(P14, structure_statistics_two_points_xz) { twoPoints(0, 2, 1); }
AV_CONTRACT(P14, structure_statistics_two_points_zy) { twoPoints(2, 1, 0); }
AV_CONTRACT(P14, structure_statistics_3d_z_neumann) { structureStatistics<3>(2, false, true); }
