// AV-SOURCES: alsuq/src/stats/MeanVariance.cpp alsuq/src/stats/OnePointMoment.cpp alsuq/src/stats/StatisticsHelper.cpp alsuq/src/stats/StatisticsSnapshot.cpp alsuq/src/stats/Statistics.cpp alsfvm/src/volume/VolumePair.cpp alsutils/src/mpi/Configuration.cpp alsutils/src/mpi/mpi_types.cpp alsfvm/src/simulator/TimestepInformation.cpp alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/grid/Grid.cpp
// Ensembles of any size, by induction over the samples: the accumulators after sample k+1 from arbitrary accumulators
// after sample k, the base case without accumulators, then the combination over all processes.
#include "common.hpp"
#include <mpi.h>
#include <vector>
#include <map>
#include <memory>
#include <sstream>
#include <functional>
#include <boost/property_tree/ptree.hpp>
#include "alsfvm/io/Writer.hpp"
#include "alsuq/stats/Statistics.hpp"
#define private public
#define protected public
#include "alsuq/stats/StatisticsHelper.hpp"
#include "alsuq/stats/MeanVariance.hpp"
#include "alsuq/stats/OnePointMoment.hpp"
#undef private
#undef protected
#include "alsuq/stats/StatisticsFactory.hpp"
using namespace alsfvm;
typedef simulator::TimestepInformation Info;
namespace {
long sampleCount = 1;
int rank = 0, reductions = 0, power = 2;
alsuq::mpi::ConfigurationPtr config;
const double* others;       // what the other processes contribute to the sum
struct Log : io::Writer {
    const volume::Volume* seen = nullptr; const grid::Grid* grid = nullptr; double time = -1; int calls = 0;
    void write(const volume::Volume& u, const grid::Grid& g, const Info& t) override { seen = &u; grid = &g; time = t.getCurrentTime(); ++calls; }
};
char parametersStorage[256];
const alsuq::stats::StatisticsParameters& given() { return *reinterpret_cast<alsuq::stats::StatisticsParameters*>(parametersStorage); }
}
// the parameters of the run and the message passing library, known by their interface
namespace alsuq { namespace stats {
size_t StatisticsParameters::getNumberOfSamples() const { return sampleCount; }
mpi::ConfigurationPtr StatisticsParameters::getMpiConfiguration() const { return config; }
std::string StatisticsParameters::getPlatform() const { return "cpu"; }
void StatisticsFactory::registerStatistics(const std::string&, const std::string&, StatisticsCreator) {}
} }
namespace alsutils { namespace parameters {
int Parameters::getInteger(const std::string&) const { return power; }
} }
extern "C" {
int MPI_Comm_rank(MPI_Comm, int* r) { *r = rank; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int* n) { *n = 4; return MPI_SUCCESS; }
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype, MPI_Op op, int root, MPI_Comm) {
    av_assert("contributions are summed at the first process", op == MPI_SUM && root == 0);
    const double* a = static_cast<const double*>(s); double* b = static_cast<double*>(r);
    if (rank == 0) for (int i = 0; i < n; ++i) b[i] = a[i] + others[i];
    ++reductions;
    return MPI_SUCCESS;
}
}
namespace {
void setup(int r) {
    rank = r; reductions = 0;
    sampleCount = av_int("samples", 1, 1000000);
    config.reset(new alsutils::mpi::Configuration(MPI_COMM_WORLD));
}
}
AV_CONTRACT(P12, mean_variance_accumulates) {
    setup(0);
    alsuq::stats::MeanVariance s(given());
    auto u = spec::makeVolume(1, av_int("nx", 2, 1000), av_int("ny", 2, 1000), 1, 1);
    spec::arbitrary(*u, spec::U);
    auto g = spec::plainGrid(4, 4, 1);
    const double t = av_real("t");
    const double* uOld = spec::old(*u, 0);
    // first sample
    static_cast<io::Writer&>(s).write(*u, g, Info(t, 4));
    auto& mean = *s.findOrCreateSnapshot("mean", Info(t, 0), *u).getVolumes().getConservedVolume();
    auto& variance = *s.findOrCreateSnapshot("variance", Info(t, 0), *u).getVolumes().getConservedVolume();
    av_assert("mean and variance have their own accumulators", &mean != &variance && &mean != u.get());
    const long i = av_int("cell", 0, 1000000);
    av_assume(i < long(u->getScalarMemoryArea(0)->getSize()));
    double* m = mean.getScalarMemoryArea(0)->getPointer(); double* q = variance.getScalarMemoryArea(0)->getPointer();
    av_cover("first sample");
    av_eq("the first sample starts the sum", m[i], uOld[i]);
    av_eq("the first sample starts the sum of squares", q[i], uOld[i] * uOld[i]);
    // any later sample
    spec::arbitrary(mean, spec::V); spec::arbitrary(variance, spec::W);
    const double* mOld = spec::old(mean, 0); const double* qOld = spec::old(variance, 0);
    static_cast<io::Writer&>(s).write(*u, g, Info(t, 7));
    av_cover("later sample");
    av_eq("every sample is added to the sum", m[i], mOld[i] + uOld[i]);
    av_eq("every sample is added to the sum of squares", q[i], qOld[i] + uOld[i] * uOld[i]);
    av_eq("the sample is not modified", u->getScalarMemoryArea(0)->getPointer()[i], uOld[i]);
    av_assert("one snapshot per time", s.snapshots.size() == 1 && s.snapshots[t].size() == 2);
}
AV_CONTRACT(P12, moment_accumulates) {
    setup(0);
    power = 3;
    alsuq::stats::OnePointMoment s(given());
    av_assert("the exponent is the one asked for", s.p == 3 && s.getStatisticsNames()[0] == "m3");
    power = av_int("p", 1, 9);
    const_cast<int&>(s.p) = power;
    auto u = spec::makeVolume(1, av_int("nx", 2, 1000), av_int("ny", 2, 1000), 1, 1);
    spec::arbitrary(*u, spec::U);
    auto g = spec::plainGrid(4, 4, 1);
    const double t = av_real("t");
    const double* uOld = spec::old(*u, 0);
    static_cast<io::Writer&>(s).write(*u, g, Info(t, 4));
    const std::string name = s.getStatisticsNames()[0];
    auto& m = *s.findOrCreateSnapshot(name, Info(t, 0), *u).getVolumes().getConservedVolume();
    const long i = av_int("cell", 0, 1000000);
    av_assume(i < long(u->getScalarMemoryArea(0)->getSize()));
    double* a = m.getScalarMemoryArea(0)->getPointer();
    av_cover("first sample");
    av_eq("the first sample starts the sum", a[i], std::pow(uOld[i], power));
    spec::arbitrary(m, spec::V);
    const double* old = spec::old(m, 0);
    static_cast<io::Writer&>(s).write(*u, g, Info(t, 7));
    av_cover("later sample");
    av_eq("every sample adds its p-th power", a[i], old[i] + std::pow(uOld[i], power));
    av_assert("one snapshot per time", s.snapshots.size() == 1 && s.snapshots[t].size() == 1);
}
AV_CONTRACT(P12, times_are_kept_apart) {
    setup(0);
    alsuq::stats::MeanVariance s(given());
    auto u = spec::makeVolume(1, 3, 1, 1, 0), v = spec::makeVolume(1, 3, 1, 1, 0);
    spec::arbitrary(*u, spec::U); spec::arbitrary(*v, spec::V);
    auto g = spec::plainGrid(3, 1, 1);
    const double t = av_real("t"), t2 = av_real("t2");
    av_assume(t < t2);
    const int i = av_int("cell", 0, 2);
    static_cast<io::Writer&>(s).write(*u, g, Info(t, 4));
    static_cast<io::Writer&>(s).write(*v, g, Info(t2, 9));
    av_assert("one snapshot per time", s.snapshots.size() == 2);
    av_cover("two times");
    auto& a = s.findOrCreateSnapshot("mean", Info(t, 0), *u);
    auto& b = s.findOrCreateSnapshot("mean", Info(t2, 0), *u);
    av_eq("states of different times are not mixed", a.getVolumes().getConservedVolume()->getScalarMemoryArea(0)->getPointer()[i], u->getScalarMemoryArea(0)->getPointer()[i]);
    av_eq("states of different times are not mixed", b.getVolumes().getConservedVolume()->getScalarMemoryArea(0)->getPointer()[i], v->getScalarMemoryArea(0)->getPointer()[i]);
    alsfvm::shared_ptr<io::Writer> w(new Log), w2(new Log);
    Log& meanLog = static_cast<Log&>(*w); Log& varLog = static_cast<Log&>(*w2);
    s.addWriter("mean", w);
    s.addWriter("variance", w2);
    s.writeStatistics(g);
    av_assert("each statistic is written once per time, to its own writers, in order of time",
              meanLog.calls == 2 && meanLog.time == t2 && meanLog.seen == b.getVolumes().getConservedVolume().get() && meanLog.grid == &g &&
              varLog.calls == 2 && varLog.time == t2 && varLog.seen == s.findOrCreateSnapshot("variance", Info(t2, 0), *u).getVolumes().getConservedVolume().get());
}
namespace {
void combine(int r) {
    setup(r);
    alsuq::stats::MeanVariance s(given());
    auto u = spec::makeVolume(2, av_int("nx", 2, 1000), av_int("ny", 2, 1000), 1, 1);
    auto g = spec::plainGrid(4, 4, 1);
    const double t = av_real("t");
    auto& mean = *s.findOrCreateSnapshot("mean", Info(t, 0), *u).getVolumes().getConservedVolume();
    auto& second = *s.findOrCreateSnapshot("variance", Info(t, 0), *u).getVolumes().getConservedVolume();
    const long size = u->getScalarMemoryArea(0)->getSize();
    spec::arbitrary(mean, spec::V); spec::arbitrary(second, spec::W);
    auto o = spec::makeVolume(1, av_int("nx", 2, 1000), av_int("ny", 2, 1000), 1, 1);
    spec::arbitrary(*o, spec::P);
    others = o->getScalarMemoryArea(0)->getPointer();
    const double* mOld[2] = {spec::old(mean, 0), spec::old(mean, 1)};
    const double* qOld[2] = {spec::old(second, 0), spec::old(second, 1)};
    av_nothrow("statistics are combined");
    s.combineStatistics();
    av_cover("combined");
    av_assert("every variable of every statistic is summed over the processes once", reductions == 4);
    const long i = av_int("cell", 0, 1000000);
    av_assume(i < size);
    const double M = sampleCount;
    if (r == 0) {
        for (int v = 0; v < 2; ++v) {
            av_eq("the mean is the sum over all processes divided by the number of samples", mean.getScalarMemoryArea(v)->getPointer()[i], (mOld[v][i] + others[i]) / M);
            av_eq("so is the second moment", second.getScalarMemoryArea(v)->getPointer()[i], (qOld[v][i] + others[i]) / M);
        }
        s.finalizeStatistics();
        for (int v = 0; v < 2; ++v) {
            const double m = (mOld[v][i] + others[i]) / M;
            av_eq("finalising keeps the mean", mean.getScalarMemoryArea(v)->getPointer()[i], m);
            av_eq("the variance is the second moment minus the squared mean", second.getScalarMemoryArea(v)->getPointer()[i], (qOld[v][i] + others[i]) / M - m * m);
        }
    }
}
}
AV_CONTRACT(P12, combine_first_process) { combine(0); }
AV_CONTRACT(P12, combine_other_process) { combine(1); }
// results of another size than the solution (functionals, structure functions)
AV_CONTRACT(P12, results_of_their_own_size) {
    setup(0);
    alsuq::stats::MeanVariance s(given());
    const long nx = av_int("nx", 2, 1000), ny = av_int("ny", 2, 1000), mx = av_int("mx", 1, 1000), my = av_int("my", 1, 1000);
    auto u = spec::makeVolume(2, nx, ny, 1, 1);
    spec::arbitrary(*u, spec::U);
    auto g = spec::plainGrid(4, 4, 1);
    const double t = av_real("t");
    av_shape(mx, my, 1);
    auto& first = s.findOrCreateSnapshot("f", Info(t, 3), *u, mx, my, 1, "cpu");
    auto& v = *first.getVolumes().getConservedVolume();
    av_cover("created");
    av_assert("the result has its own size", long(v.getNumberOfXCells()) == mx && long(v.getNumberOfYCells()) == my && v.getNumberOfZCells() == 1 && v.getNumberOfVariables() == 2);
    av_assert("the result is kept per time and name", &s.findOrCreateSnapshot("f", Info(t, 5), *u, mx, my, 1, "cpu") == &first && s.snapshots.size() == 1 && s.snapshots[t].size() == 1);
    const long x = av_int("x", 0, 1000), y = av_int("y", 0, 1000);
    av_assume(x < mx && y < my);
    av_eq("the result starts from zero", spec::get(v, 1, x, y, 0), 0);
    alsfvm::shared_ptr<io::Writer> w(new Log);
    auto& log = static_cast<Log&>(*w);
    s.addWriter("f", w);
    s.writeStatistics(g);
    av_assert("the result is written once", log.calls == 1 && log.seen == &v && log.time == t);
    if (mx == nx && my == ny) av_assert("a result of the size of the solution is written with its grid", log.grid == &g);
    else {
        const ivec3 d = log.grid->getDimensions();
        av_assert("a result of another size is written with a grid of that size", d.x == mx && d.y == my && d.z == 1);
    }
}
