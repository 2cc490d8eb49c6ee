// AV-SOURCES: alsuq/src/run/Runner.cpp alsuq/src/samples/SampleGenerator.cpp alsfvm/src/init/Parameters.cpp alsuq/src/stats/Statistics.cpp alsuq/src/stats/StatisticsTimer.cpp alsuq/src/stats/FixedIntervalStatistics.cpp alsutils/src/mpi/Configuration.cpp alsfvm/src/grid/Grid.cpp alsfvm/src/simulator/TimestepInformation.cpp
// The runner on lists of up to three samples with any numbers (bounded in the length of the list only), any number of steps.
#include "av.hpp"
#include <mpi.h>
#include <map>
#include <string>
#include <vector>
#include <memory>
#include "alsuq/run/Runner.hpp"
#include "alsuq/stats/StatisticsTimer.hpp"
#include "alsuq/stats/FixedIntervalStatistics.hpp"
using namespace alsuq;
typedef alsfvm::simulator::TimestepInformation Info;
namespace {
int rank_ = 0;
}
extern "C" {
int MPI_Comm_rank(MPI_Comm, int* r) { *r = rank_; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int* n) { *n = 4; return MPI_SUCCESS; }
}
namespace {
struct AnyStatistics : stats::Statistics {
    int computed = 0, combined = 0, finalized = 0, written = 0, writers = 0;
    const alsfvm::grid::Grid* grid = nullptr;
    const alsfvm::volume::Volume* state = nullptr;
    bool order = true;
    void combineStatistics() override { order = order && finalized == 0 && written == 0; ++combined; }
    void addWriter(const std::string&, std::shared_ptr<alsfvm::io::Writer>&) override { ++writers; }
    std::vector<std::string> getStatisticsNames() const override { return {"a", "b"}; }
    void computeStatistics(const alsfvm::volume::Volume& u, const alsfvm::grid::Grid& g, const Info&) override { ++computed; state = &u; grid = &g; }
    void finalizeStatistics() override { order = order && combined == 1 && written == 0; ++finalized; }
    void writeStatistics(const alsfvm::grid::Grid& g) override { order = order && combined == 1 && finalized == 1; ++written; grid = &g; }
};
struct AnySimulator : alsfvm::simulator::AbstractSimulator {
    long steps = 0, done = 0;
    int called = 0, finalized = 0;
    bool order = true;
    std::vector<const void*> writers, adjusters;
    std::shared_ptr<alsfvm::grid::Grid> grid;
    bool atEnd() override { return done >= steps; }
    void performStep() override { ++done; }
    void callWriters() override { order = order && done == 0; ++called; }
    void addWriter(std::shared_ptr<alsfvm::io::Writer> w) override { order = order && called == 0; writers.push_back(w.get()); }
    real getCurrentTime() const override { return 0; }
    real getEndTime() const override { return 0; }
    const std::shared_ptr<alsfvm::grid::Grid>& getGrid() const override { return grid; }
    std::shared_ptr<alsfvm::grid::Grid>& getGrid() override { return grid; }
    void finalize() override { order = order && done == steps && called == 1; ++finalized; }
    void addTimestepAdjuster(std::shared_ptr<alsfvm::integrator::TimestepAdjuster>& a) override { order = order && done == 0; adjusters.push_back(a.get()); }
};
struct AnyCreator : run::SimulatorCreator {
    std::vector<std::shared_ptr<AnySimulator>> made;
    std::vector<size_t> samples;
    std::vector<double> parameters;
    long steps[3];
    std::shared_ptr<alsfvm::simulator::AbstractSimulator> createSimulator(const alsfvm::init::Parameters& p, size_t sample) override {
        auto s = std::make_shared<AnySimulator>();
        s->steps = steps[made.size()];
        s->grid.reset(new alsfvm::grid::Grid(rvec3(0, 0, 0), rvec3(1, 1, 1), ivec3(3, 1, 1)));
        made.push_back(s);
        samples.push_back(sample);
        parameters.push_back(p.getParameter("a")[1]);
        return s;
    }
};
struct AnyDistribution : distribution::Distribution {
    real generate(generator::Generator&, size_t c, size_t s) { return av_fun("draw", 2, double(long(c)), double(long(s))); }
};
struct AnyGenerator : generator::Generator { real generate(size_t, size_t) { return 0; } };
template<int n> void runner(int rank) {
    rank_ = rank;
    samples::SampleGenerator::GeneratorDistributionMap map;
    map["a"] = std::make_pair(size_t(2), std::make_pair(std::shared_ptr<generator::Generator>(new AnyGenerator), std::shared_ptr<distribution::Distribution>(new AnyDistribution)));
    auto generator = std::make_shared<samples::SampleGenerator>(map);
    auto creator = std::make_shared<AnyCreator>();
    std::vector<size_t> numbers;
    const long first = av_int("first", 0, 1000000), second = av_int("second", 0, 1000000), third = av_int("third", 0, 1000000);
    const long all[3] = {first, second, third};
    long total = 0;
    creator->steps[0] = av_int("steps0", 0, 1000000); creator->steps[1] = av_int("steps1", 0, 1000000); creator->steps[2] = av_int("steps2", 0, 1000000);
    for (int i = 0; i < n; ++i) { numbers.push_back(all[i]); total += creator->steps[i]; }
    alsutils::mpi::ConfigurationPtr config(new alsutils::mpi::Configuration(MPI_COMM_WORLD));
    run::Runner r(creator, generator, numbers, config, "run");
    auto plain = std::make_shared<AnyStatistics>();
    std::shared_ptr<stats::Statistics> inner = std::make_shared<AnyStatistics>();
    std::shared_ptr<stats::Statistics> interval(new stats::FixedIntervalStatistics(inner, 1., 10., true));
    r.setStatistics({plain, interval});
    av_nothrow("nothing is refused");
    r.run();
    av_cover("run");
    av_assert("one simulation per sample, in order", long(creator->made.size()) == n);
    for (int i = 0; i < n; ++i) {
        auto& s = *creator->made[i];
        av_assert("every sample runs under its own number", long(creator->samples[i]) == all[i]);
        av_eq("every sample is set up with its own random numbers", creator->parameters[i], av_fun("draw", 2, 1., double(all[i])));
        av_assert("every sample is run to its end", s.done == s.steps);
        av_assert("every statistics sees every sample, from its initial state on", s.writers.size() == 2 && s.called == 1 && s.order);
        av_assert("every simulation is finalized once", s.finalized == 1);
        av_assert("statistics with save times adjust the time step", s.adjusters.size() == 1);
    }
    auto& in = static_cast<AnyStatistics&>(*inner);
    av_assert("every statistics is combined once, after the samples", plain->combined == 1 && in.combined == 1);
    const int root = rank == 0;
    av_assert("the first process finalizes, then writes every statistics", plain->finalized == root && plain->written == root && in.finalized == root && in.written == root && plain->order && in.order);
    av_assert("on the grid of the simulation", !root || (plain->grid == creator->made[n - 1]->grid.get() && in.grid == plain->grid));
    av_assert("all steps are counted", long(r.getTimestepsPerformedTotal()) == total);
}
}
AV_CONTRACT(P12, runner_one_sample) { runner<1>(0); }
AV_CONTRACT(P12, runner_samples) { runner<3>(0); }
AV_CONTRACT(P12, runner_other_process) { runner<2>(2); }
AV_CONTRACT(P12, timer_forwards) {
    rank_ = 0;
    auto inner = std::make_shared<AnyStatistics>();
    stats::StatisticsTimer t("timer", inner);
    alsfvm::grid::Grid grid(rvec3(0, 0, 0), rvec3(1, 1, 1), ivec3(3, 1, 1));
    alignas(16) static char storage[256];
    const auto& u = *reinterpret_cast<const alsfvm::volume::Volume*>(storage);
    std::shared_ptr<alsfvm::io::Writer> w;
    t.addWriter("a", w);
    static_cast<alsfvm::io::Writer&>(t).write(u, grid, Info(0, 0));
    av_cover("timed");
    av_assert("every state is passed on once", inner->computed == 1 && inner->state == &u && inner->grid == &grid);
    t.combineStatistics(); t.finalizeStatistics(); t.writeStatistics(grid);
    av_assert("every other call is passed on once", inner->combined == 1 && inner->finalized == 1 && inner->written == 1 && inner->order && inner->writers == 1 && t.getStatisticsNames().size() == 2);
}
