// AV-SOURCES: alsuq/src/stats/BoundedVariation.cpp alsuq/src/stats/BoundedVariationDirection.cpp alsuq/src/stats/FunctionalStatistics.cpp alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp alsuq/src/stats/StatisticsHelper.cpp alsuq/src/stats/StatisticsSnapshot.cpp alsuq/src/stats/Statistics.cpp alsfvm/src/volume/VolumePair.cpp alsutils/src/mpi/Configuration.cpp alsutils/src/mpi/mpi_types.cpp alsfvm/src/simulator/TimestepInformation.cpp alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/grid/Grid.cpp alsfvm/src/functional/Functional.cpp
#include "common.hpp"
#include <mpi.h>
#include <vector>
#include <map>
#include <memory>
#include <sstream>
#include <functional>
#include <boost/property_tree/ptree.hpp>
#include "alsfvm/io/Writer.hpp"
#include "alsfvm/memory/HostMemory.hpp"
#include "alsuq/stats/Statistics.hpp"
#define private public
#define protected public
#include "alsuq/stats/StatisticsHelper.hpp"
#include "alsuq/stats/BoundedVariation.hpp"
#include "alsuq/stats/BoundedVariationDirection.hpp"
#include "alsuq/stats/FunctionalStatistics.hpp"
#include "alsuq/stats/TimeIntegratedFunctionalStatistics.hpp"
#undef private
#undef protected
#include "alsuq/stats/StatisticsFactory.hpp"
#include "alsfvm/functional/FunctionalFactory.hpp"
using namespace alsfvm;
typedef simulator::TimestepInformation Info;
namespace {
long sampleCount = 1;
alsuq::mpi::ConfigurationPtr config;
double middle, radius;
char parametersStorage[256];
const alsuq::stats::StatisticsParameters& given() { return *reinterpret_cast<alsuq::stats::StatisticsParameters*>(parametersStorage); }
functional::FunctionalPointer functionalGiven;
}
namespace alsuq { namespace stats {
size_t StatisticsParameters::getNumberOfSamples() const { return sampleCount; }
mpi::ConfigurationPtr StatisticsParameters::getMpiConfiguration() const { return config; }
std::string StatisticsParameters::getPlatform() const { return "cpu"; }
void StatisticsFactory::registerStatistics(const std::string&, const std::string&, StatisticsCreator) {}
} }
namespace alsutils { namespace parameters {
int Parameters::getInteger(const std::string&) const { return 2; }
double Parameters::getDouble(const std::string& n) const { return n == "time" ? middle : radius; }
std::string Parameters::getString(const std::string&) const { return "f"; }
} }
namespace alsfvm { namespace functional {
FunctionalPointer FunctionalFactory::makeFunctional(const std::string&, const std::string&, const FunctionalFactory::Parameters&) { return functionalGiven; }
} }
extern "C" {
int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int* n) { *n = 4; return MPI_SUCCESS; }
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm) { return MPI_SUCCESS; }
}
namespace {
long gx, gy, gz, tx, ty, tz;
// a state whose total variation is whatever it is
struct Varying : memory::HostMemory<real> {
    int id;
    Varying(int id, size_t nx, size_t ny, size_t nz) : memory::HostMemory<real>(nx, ny, nz), id(id) {}
    static void inner(const ivec3& s, const ivec3& e) {
        av_assert("the variation is that of the inner cells", s.x == gx && s.y == gy && s.z == gz && e.x == tx - gx && e.y == ty - gy && e.z == tz - gz);
    }
    real getTotalVariation(int p, const ivec3& s, const ivec3& e) const override { inner(s, e); return av_fun("variation", 2, double(id), double(p)); }
    real getTotalVariation(int d, int p, const ivec3& s, const ivec3& e) const override { inner(s, e); return av_fun("variation along", 3, double(id), double(d), double(p)); }
};
void setup() {
    sampleCount = av_int("samples", 1, 1000000);
    config.reset(new alsutils::mpi::Configuration(MPI_COMM_WORLD));
}
alsfvm::shared_ptr<volume::Volume> state(int id, int dim, int nvars) {
    const long nx = av_int("nx", 2, 1000), ny = dim > 1 ? av_int("ny", 2, 1000) : 1, nz = dim > 2 ? av_int("nz", 2, 1000) : 1, g = av_int("g", 0, 10);
    auto u = spec::makeVolume(nvars, nx, ny, nz, g);
    gx = g; gy = dim > 1 ? g : 0; gz = dim > 2 ? g : 0;
    tx = nx + 2 * gx; ty = ny + 2 * gy; tz = nz + 2 * gz;
    for (int v = 0; v < nvars; ++v) u->getScalarMemoryArea(v) = alsfvm::shared_ptr<memory::Memory<real>>(new Varying(10 * id + v, tx, ty, tz));
    return u;
}
template<int dim, int nvars> void variationAlong() {
    setup();
    alsuq::stats::BoundedVariationDirection s(given());
    const int p = av_int("p", 1, 9);
    const_cast<int&>(s.p) = p;
    auto u = state(1, dim, nvars), v = state(2, dim, nvars);
    auto g = spec::plainGrid(4, 4, 1);
    const double t = av_real("t");
    static_cast<io::Writer&>(s).write(*u, g, Info(t, 4));
    const auto names = s.getStatisticsNames();
    av_assert("one statistics per direction", names.size() == 3 && names[0] == "bv_x_2" && names[1] == "bv_y_2" && names[2] == "bv_z_2");
    av_cover("first sample");
    for (int d = 0; d < dim; ++d) {
        auto& a = *s.findOrCreateSnapshot(names[d], Info(t, 0), *u, 1, 1, 1, "cpu").getVolumes().getConservedVolume();
        av_assert("one number per variable", a.getTotalNumberOfXCells() == 1 && a.getTotalNumberOfYCells() == 1 && a.getTotalNumberOfZCells() == 1 && int(a.getNumberOfVariables()) == nvars);
        for (int k = 0; k < nvars; ++k) {
            double* x = a.getScalarMemoryArea(k)->getPointer();
            av_eq("the first sample starts the sum of the variations", x[0], av_fun("variation along", 3, double(10 + k), double(d), double(p)));
            x[0] = av_fun("earlier", 2, double(d), double(k));
        }
    }
    static_cast<io::Writer&>(s).write(*v, g, Info(t, 7));
    av_cover("later sample");
    for (int d = 0; d < dim; ++d) for (int k = 0; k < nvars; ++k)
        av_eq("every sample adds its variation", s.findOrCreateSnapshot(names[d], Info(t, 0), *u, 1, 1, 1, "cpu").getVolumes().getConservedVolume()->getScalarMemoryArea(k)->getPointer()[0],
            av_fun("earlier", 2, double(d), double(k)) + av_fun("variation along", 3, double(20 + k), double(d), double(p)));
}
template<int dim, int nvars> void variation() {
    setup();
    alsuq::stats::BoundedVariation s(given());
    const int p = av_int("p", 1, 9);
    const_cast<int&>(s.p) = p;
    auto u = state(1, dim, nvars), v = state(2, dim, nvars);
    auto g = spec::plainGrid(4, 4, 1);
    const double t = av_real("t");
    static_cast<io::Writer&>(s).write(*u, g, Info(t, 4));
    const std::string name = s.getStatisticsNames()[0];
    auto& a = *s.findOrCreateSnapshot(name, Info(t, 0), *u, 1, 1, 1, "cpu").getVolumes().getConservedVolume();
    av_cover("first sample");
    for (int k = 0; k < nvars; ++k) {
        double* x = a.getScalarMemoryArea(k)->getPointer();
        av_eq("the first sample starts the sum of the variations", x[0], av_fun("variation", 2, double(10 + k), double(p)));
        x[0] = av_fun("earlier", 1, double(k));
    }
    static_cast<io::Writer&>(s).write(*v, g, Info(t, 7));
    av_cover("later sample");
    for (int k = 0; k < nvars; ++k)
        av_eq("every sample adds its variation", a.getScalarMemoryArea(k)->getPointer()[0], av_fun("earlier", 1, double(k)) + av_fun("variation", 2, double(20 + k), double(p)));
}
struct AnyFunctional : functional::Functional {
    const volume::Volume *out = nullptr, *in = nullptr; double weight = -1; int calls = 0; const grid::Grid* grid = nullptr;
    void operator()(volume::Volume& o, const volume::Volume& i, const real w, const grid::Grid& g) override { out = &o; in = &i; weight = w; ++calls; grid = &g; o.getScalarMemoryArea(0)->getPointer()[0] += w * av_fun("f", 1, i.getScalarMemoryArea(0)->getPointer()[0]); }
    ivec3 getFunctionalSize(const grid::Grid&) const override { return ivec3(2, 1, 1); }
};
}
AV_CONTRACT(P12, variation_1d) { variation<1, 2>(); }
AV_CONTRACT(P12, variation_2d) { variation<2, 2>(); }
AV_CONTRACT(P12, variation_along_1d) { variationAlong<1, 2>(); }
AV_CONTRACT(P12, variation_along_2d) { variationAlong<2, 2>(); }
AV_CONTRACT(P12, variation_along_3d) { variationAlong<3, 1>(); }
AV_CONTRACT(P12, functional_accumulates) {
    setup();
    auto f = alsfvm::make_shared<AnyFunctional>();
    functionalGiven = f;
    alsuq::stats::FunctionalStatistics s(given());
    auto u = spec::makeVolume(1, 5, 1, 1, 0), v = spec::makeVolume(1, 5, 1, 1, 0);
    spec::arbitrary(*u, spec::U); spec::arbitrary(*v, spec::V);
    auto g = spec::plainGrid(5, 1, 1);
    const double t = av_real("t");
    static_cast<io::Writer&>(s).write(*u, g, Info(t, 4));
    av_assert("named after the functional", s.getStatisticsNames().size() == 1 && s.getStatisticsNames()[0] == "mean_f");
    auto& a = *s.findOrCreateSnapshot("mean_f", Info(t, 0), *u, 2, 1, 1, "cpu").getVolumes().getConservedVolume();
    av_cover("first sample");
    av_assert("the functional gets its own volume of the size it asks for", f->out == &a && f->in == u.get() && f->grid == &g && a.getTotalNumberOfXCells() == 2 && a.getTotalNumberOfYCells() == 1);
    av_eq("the weight is one", f->weight, 1);
    double* x = a.getScalarMemoryArea(0)->getPointer();
    av_eq("the first sample starts the sum", x[0], av_fun("f", 1, u->getScalarMemoryArea(0)->getPointer()[0]));
    av_eq("the first sample starts the sum", x[1], 0);
    const double old = av_real("old"); x[0] = old;
    static_cast<io::Writer&>(s).write(*v, g, Info(t, 9));
    av_cover("later sample");
    av_eq("every sample adds its value", x[0], old + av_fun("f", 1, v->getScalarMemoryArea(0)->getPointer()[0]));
    av_assert("one evaluation per sample", f->calls == 2 && f->out == &a && s.snapshots.size() == 1);
}
AV_CONTRACT(P12, functional_in_time) {
    setup();
    middle = av_real("time"); radius = av_pos("radius");
    auto f = alsfvm::make_shared<AnyFunctional>();
    functionalGiven = f;
    alsuq::stats::TimeIntegratedFunctionalStatistics s(given());
    auto u = spec::makeVolume(1, 5, 1, 1, 0);
    spec::arbitrary(*u, spec::U);
    auto g = spec::plainGrid(5, 1, 1);
    const double last = av_real("last"), now = av_real("now"), old = av_real("old");
    auto& a = *s.findOrCreateSnapshot("mean_f", Info(middle, 0), *u, 2, 1, 1, "cpu").getVolumes().getConservedVolume();
    double* x = a.getScalarMemoryArea(0)->getPointer();
    x[0] = old;
    s.lastTime = last;
    static_cast<io::Writer&>(s).write(*u, g, Info(now, 4));
    av_cover("one step");
    const double lo = last > middle - radius ? last : middle - radius, hi = now < middle + radius ? now : middle + radius;
    const double part = hi > lo ? hi - lo : 0;
    av_eq("the state is weighted by the part of its step inside the window", x[0], old + part * av_fun("f", 1, u->getScalarMemoryArea(0)->getPointer()[0]));
    av_eq("the next step starts here", s.lastTime, now);
    av_assert("one snapshot, at the centre of the window", s.snapshots.size() == 1 && s.snapshots.count(middle) == 1);
}
