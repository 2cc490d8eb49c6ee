// AV-SOURCES: alsfvm/src/io/FixedIntervalWriter.cpp alsfvm/src/io/CoarseGrainingIntervalWriter.cpp alsfvm/src/io/TimeIntegratedWriter.cpp alsuq/src/stats/FixedIntervalStatistics.cpp alsuq/src/stats/Statistics.cpp alsfvm/src/simulator/TimestepInformation.cpp alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/grid/Grid.cpp alsfvm/src/functional/TimeIntegrationFunctional.cpp alsfvm/src/functional/IntervalFunctionalWriter.cpp alsfvm/src/functional/Functional.cpp
// Save times: the histories of any length are covered by induction.  "base" contracts start from the constructor, the
// others from an arbitrary writer state that satisfies the invariant (the next save time lies ahead) and re-establish it.
#include "common.hpp"
#include <vector>
#include <map>
#include <memory>
#include <sstream>
#include <functional>
#include <boost/property_tree/ptree.hpp>
#include "alsfvm/io/Writer.hpp"
#include "alsfvm/integrator/TimestepAdjuster.hpp"
#include "alsuq/stats/Statistics.hpp"
#define private public
#define protected public
#include "alsfvm/io/FixedIntervalWriter.hpp"
#include "alsfvm/io/CoarseGrainingIntervalWriter.hpp"
#include "alsfvm/io/TimeIntegratedWriter.hpp"
#include "alsuq/stats/FixedIntervalStatistics.hpp"
#include "alsfvm/functional/TimeIntegrationFunctional.hpp"
#include "alsfvm/functional/IntervalFunctionalWriter.hpp"
#undef private
#undef protected
using namespace alsfvm;
namespace {
typedef simulator::TimestepInformation Info;
struct Log : io::Writer {
    const volume::Volume* seen = nullptr;
    const grid::Grid* grid = nullptr;
    double time = -1; size_t steps = 99; int calls = 0, finals = 0; ivec3 dims;
    void write(const volume::Volume& u, const grid::Grid& g, const Info& t) override { dims = g.getDimensions(); seen = &u; grid = &g; time = t.getCurrentTime(); steps = t.getNumberOfStepsPerformed(); ++calls; }
    void finalize(const grid::Grid& g, const Info& t) override { ++finals; grid = &g; time = t.getCurrentTime(); }
};
struct LogStatistics : alsuq::stats::Statistics {
    const volume::Volume* seen = nullptr;
    const grid::Grid* grid = nullptr;
    double time = -1; int calls = 0, combined = 0, finals = 0, written = 0;
    std::string writerName; io::Writer* added = nullptr;
    void computeStatistics(const volume::Volume& u, const grid::Grid& g, const Info& t) override { seen = &u; grid = &g; time = t.getCurrentTime(); ++calls; }
    void combineStatistics() override { ++combined; }
    void addWriter(const std::string& n, std::shared_ptr<io::Writer>& w) override { writerName = n; added = w.get(); }
    std::vector<std::string> getStatisticsNames() const override { return std::vector<std::string>(1, "x"); }
    void finalizeStatistics() override { ++finals; }
    void writeStatistics(const grid::Grid& g) override { ++written; grid = &g; }
};
// one step of any length the simulator may take under this adjuster, then a write
template<class W> double step(const W& w, double t, double& asked) {
    asked = av_pos("requested time step");
    const double dt = w.adjustTimestep(asked, Info(t, 3));
    av_le("a time step is never lengthened", dt, asked);
    av_lt("a time step stays positive", 0, dt);
    return dt;
}
}

AV_CONTRACT(P06, fixed_interval_step) {
    auto log = new Log;
    alsfvm::shared_ptr<io::Writer> base(log);
    const double interval = av_pos("interval"), start = av_real("start");
    const bool initial = av_bool("initial");
    io::FixedIntervalWriter w(base, interval, av_real("end"), initial, start);
    auto v = spec::makeVolume(1, av_int("nx", 1, 1000), 1, 1, 1);
    auto g = spec::plainGrid(4, 1, 1);
    const long k = av_int("saved", 1, 1000000);
    w.numberSaved = k;
    const double t = av_real("t"), next = k * interval + start;
    av_assume(t < next);    // invariant
    double asked;
    const double dt = step(w, t, asked);
    av_exact(t + dt, next);
    av_le("no step passes the next save time", t + dt, next);
    av_assert("a step is only shortened to reach a save time", dt == asked || av_near(t + dt, next));
    av_cover("a step before a save time");
    w.write(*v, g, Info(t + dt, 4));
    av_assert("the state is saved exactly at the save times", (log->calls == 1) == (t + dt == next) && log->calls <= 1);
    if (log->calls) {
        av_cover("a save");
        av_assert("the saved state is the current one", log->seen == v.get() && log->grid == &g && log->steps == 4);
        av_eq("it is saved with its time", log->time, t + dt);
    }
    av_assert("save times are counted", long(w.numberSaved) == k + log->calls);
    av_lt("the next save time lies ahead", t + dt, w.numberSaved * interval + start);
    w.finalize(g, Info(t + dt, 4));
    av_assert("finalize is passed on", log->finals == 1 && log->grid == &g);
}
AV_CONTRACT(P06, fixed_interval_start) {
    auto log = new Log;
    alsfvm::shared_ptr<io::Writer> base(log);
    const double interval = av_pos("interval");
    const bool initial = av_bool("initial");
    io::FixedIntervalWriter w(base, interval, av_real("end"), initial);
    auto v = spec::makeVolume(1, av_int("nx", 1, 1000), 1, 1, 1);
    auto g = spec::plainGrid(4, 1, 1);
    av_cover("initial write");
    w.write(*v, g, Info(0, 0));     // the simulator offers the initial state first
    av_assert("the initial state is saved if and only if requested", log->calls == (initial ? 1 : 0));
    if (initial) av_assert("the saved state is the current one", log->seen == v.get() && log->grid == &g && log->time == 0);
    av_assert("the first interval follows", w.numberSaved == 1);
    av_lt("the next save time lies ahead", 0, w.numberSaved * interval + w.startTime);
    av_eq("intervals are counted from zero", w.startTime, 0);
    av_eq("the interval is the requested one", w.timeInterval, interval);
}
AV_CONTRACT(P06, fixed_interval_offset) {
    auto log = new Log;
    alsfvm::shared_ptr<io::Writer> base(log);
    const double interval = av_pos("interval"), start = av_pos("start");
    io::FixedIntervalWriter w(base, interval, av_real("end"), false, start);
    auto v = spec::makeVolume(1, 5, 1, 1, 1);
    auto g = spec::plainGrid(4, 1, 1);
    w.write(*v, g, Info(0, 0));
    av_cover("initial write");
    av_assert("nothing is saved before the first interval of the window", log->calls == 0 && w.numberSaved == 1);
    av_eq("intervals are counted from the start of the window", w.startTime, start);
}
AV_CONTRACT(P06, statistics_step) {
    auto log = new LogStatistics;
    alsfvm::shared_ptr<alsuq::stats::Statistics> base(log);
    const double interval = av_pos("interval");
    const bool initial = av_bool("initial");
    alsuq::stats::FixedIntervalStatistics w(base, interval, av_real("end"), initial);
    auto v = spec::makeVolume(1, av_int("nx", 1, 1000), 1, 1, 1);
    auto g = spec::plainGrid(4, 1, 1);
    const long k = av_int("saved", 1, 1000000);
    w.numberSaved = k;
    const double t = av_range("t", 0, 1e30), next = k * interval;
    av_assume(t < next);    // invariant
    double asked;
    const double dt = step(w, t, asked);
    av_exact(t + dt, next);
    av_le("no step passes the next save time", t + dt, next);
    av_assert("a step is only shortened to reach a save time", dt == asked || av_near(t + dt, next));
    av_cover("a step before a save time");
    static_cast<io::Writer&>(w).write(*v, g, Info(t + dt, 4));
    av_assert("statistics are computed exactly at the save times", (log->calls == 1) == (t + dt == next) && log->calls <= 1);
    if (log->calls) {
        av_assert("the state sampled is the current one", log->seen == v.get() && log->grid == &g);
        av_eq("it is sampled with its time", log->time, t + dt);
    }
    av_assert("save times are counted", long(w.numberSaved) == k + log->calls);
    av_lt("the next save time lies ahead", t + dt, w.numberSaved * interval);
}
AV_CONTRACT(P06, statistics_new_sample) {
    auto log = new LogStatistics;
    alsfvm::shared_ptr<alsuq::stats::Statistics> base(log);
    const double interval = av_pos("interval");
    const bool initial = av_bool("initial");
    alsuq::stats::FixedIntervalStatistics w(base, interval, av_real("end"), initial);
    auto v = spec::makeVolume(1, av_int("nx", 1, 1000), 1, 1, 1);
    auto g = spec::plainGrid(4, 1, 1);
    if (av_bool("not the first sample")) w.numberSaved = av_int("saved", 0, 1000000);   // whatever the previous sample left
    av_cover("a new sample");
    static_cast<io::Writer&>(w).write(*v, g, Info(0, 0));
    av_assert("every sample starts counting anew", w.numberSaved == 1);
    av_assert("the initial state is sampled if and only if requested", log->calls == (initial ? 1 : 0));
    w.combineStatistics(); w.finalizeStatistics(); w.writeStatistics(g);
    alsfvm::shared_ptr<io::Writer> wr(new Log);
    w.addWriter("mean", wr);
    av_assert("the statistics are combined, finalised and written once", log->combined == 1 && log->finals == 1 && log->written == 1 && log->grid == &g);
    av_assert("writers are passed on", log->writerName == "mean" && log->added == wr.get());
}
AV_CONTRACT(P06, coarse_step) {
    auto log = new Log;
    alsfvm::shared_ptr<io::Writer> base(log);
    const double interval = av_pos("interval"), dx = av_pos("dx");
    const long c = av_int("coarse saves", 0, 1000), skips = av_int("skips", 0, 1000);
    av_assume(interval > 2 * c * ((skips + 1) * dx));     // the groups of saves do not overlap
    io::CoarseGrainingIntervalWriter w(base, interval, c, av_real("end"), skips);
    auto v = spec::makeVolume(1, av_int("nx", 1, 1000), 1, 1, 1);
    grid::Grid g(rvec3(0, 0, 0), rvec3(4 * dx, 0, 0), ivec3(4, 1, 1));
    const long n = av_int("group", 1, 1000000), k = av_int("member", -1000, 1000);
    av_assume(-c <= k && k <= c);
    w.first = false; w.numberSaved = n; w.numberSmallSaved = k; w.dx = dx;
    const double t = av_real("t"), next = n * interval + k * ((skips + 1) * dx);
    av_assume(t < next);    // invariant
    double asked;
    const double dt = step(w, t, asked);
    av_exact(t + dt, next);
    av_le("no step passes the next save time", t + dt, next);
    av_assert("a step is only shortened to reach a save time", dt == asked || av_near(t + dt, next));
    av_cover("a step before a save time");
    w.write(*v, g, Info(t + dt, 4));
    av_assert("the state is saved exactly at the save times", (log->calls == 1) == (t + dt == next) && log->calls <= 1);
    if (log->calls) {
        av_assert("the saved state is the current one", log->seen == v.get() && log->grid == &g && log->steps == 4);
        av_eq("it is saved with its time", log->time, t + dt);
    }
    const bool last = log->calls && k == c;
    av_assert("each group has saves on both sides of its centre, then the next group follows",
              w.numberSaved == n + (last ? 1 : 0) && w.numberSmallSaved == (last ? -c : k + log->calls));
    av_lt("the next save time lies ahead", t + dt, w.numberSaved * interval + w.numberSmallSaved * ((skips + 1) * dx));
    av_assert("the schedule is otherwise unchanged", !w.first && w.dx == dx);
}
AV_CONTRACT(P06, coarse_start) {
    auto log = new Log;
    alsfvm::shared_ptr<io::Writer> base(log);
    const double interval = av_pos("interval"), dx = av_pos("dx");
    const long c = av_int("coarse saves", 0, 1000), skips = av_int("skips", 0, 1000);
    av_assume(interval > 2 * c * ((skips + 1) * dx));
    io::CoarseGrainingIntervalWriter w(base, interval, c, av_real("end"), skips);
    auto v = spec::makeVolume(1, av_int("nx", 1, 1000), 1, 1, 1);
    grid::Grid g(rvec3(0, 0, 0), rvec3(4 * dx, 0, 0), ivec3(4, 1, 1));
    w.write(*v, g, Info(0, 0));
    av_cover("initial write");
    av_assert("the initial state is saved", log->calls == 1 && log->seen == v.get() && log->time == 0);
    av_assert("the first group follows, starting with its earliest member", w.numberSaved == 1 && w.numberSmallSaved == -c && !w.first);
    av_eq("offsets are multiples of the cell length", w.dx, dx);
    av_lt("the next save time lies ahead", 0, w.numberSaved * interval + w.numberSmallSaved * ((skips + 1) * dx));
    w.finalize(g, Info(0, 0));
    av_assert("finalize is passed on", log->finals == 1);
}
namespace {
double least(double a, double b) { return a < b ? a : b; }
double most(double a, double b) { return a > b ? a : b; }
// length of the part of [a, b] inside [lo, hi]
double overlap(double a, double b, double lo, double hi) { return most(0, least(b, hi) - most(a, lo)); }
}
AV_CONTRACT(P06, time_average_step) {
    auto log = new Log;
    alsfvm::shared_ptr<io::Writer> base(log);
    const double T = av_real("time"), r = av_pos("radius");
    io::TimeIntegratedWriter w(base, T, r);
    auto u = spec::makeVolume(2, av_int("nx", 2, 1000), av_int("ny", 2, 1000), 1, 1);
    spec::arbitrary(*u, spec::U);
    auto g = spec::plainGrid(4, 4, 1);
    const double last = av_real("last"), t = av_real("t");
    av_assume(last <= t && last < T + r);       // not yet written
    w.lastTime = last;
    const bool begun = last > T - r;            // invariant: something was accumulated iff time inside the window has passed
    alsfvm::shared_ptr<volume::Volume> a;
    if (begun) { a = u->makeInstance(); spec::arbitrary(*a, spec::V); w.integratedConservedVariables = a; }
    const double* acc[2] = {begun ? spec::old(*a, 0) : nullptr, begun ? spec::old(*a, 1) : nullptr};
    const double* uOld[2] = {spec::old(*u, 0), spec::old(*u, 1)};
    av_cover("a step");
    av_nothrow("states are accepted");
    w.write(*u, g, Info(t, 4));
    const double weight = overlap(last, t, T - r, T + r);
    const bool due = t >= T + r;
    av_assert("the average is written once the window has passed", log->calls == (due ? 1 : 0) && w.written == due);
    av_assert("accumulation starts with the window", bool(w.integratedConservedVariables) == (t > T - r));
    const long i = av_int("cell", 0, 1000000);
    for (int var = 0; var < 2 && w.integratedConservedVariables; ++var) {
        auto& m = *w.integratedConservedVariables->getScalarMemoryArea(var);
        av_assume(i < long(m.getSize()));
        av_eq("each state counts for the time it stood inside the window", m.getPointer()[i], ((begun ? acc[var][i] : 0) + weight * uOld[var][i]) * (due ? 0.5 / r : 1));
        av_eq("the state is not modified", u->getScalarMemoryArea(var)->getPointer()[i], uOld[var][i]);
    }
    if (due) {
        av_cover("the average is written");
        av_assert("the accumulated average is what is written", log->seen == w.integratedConservedVariables.get() && log->grid == &g);
        av_eq("it is written with the centre of the window as time", log->time, T);
    }
    av_eq("the last time is remembered", w.lastTime, t);
    // the weights of a history add up to the part of the window that has passed
    const double passed = overlap(0, last, T - r, T + r);
    if (last >= 0) av_eq("weights add up to the time inside the window", passed + weight, overlap(0, t, T - r, T + r));
    w.finalize(g, Info(t, 4));
    av_assert("finalize is passed on", log->finals == 1);
}
AV_CONTRACT(P06, time_average_after) {
    auto log = new Log;
    alsfvm::shared_ptr<io::Writer> base(log);
    const double T = av_real("time"), r = av_pos("radius");
    io::TimeIntegratedWriter w(base, T, r);
    auto u = spec::makeVolume(1, av_int("nx", 2, 1000), 1, 1, 1);
    spec::arbitrary(*u, spec::U);
    auto g = spec::plainGrid(4, 1, 1);
    const double last = av_real("last"), t = av_real("t");
    av_assume(last <= t && last >= T + r);
    w.lastTime = last; w.written = true;
    w.integratedConservedVariables = u->makeInstance();
    spec::arbitrary(*w.integratedConservedVariables, spec::V);
    const double* acc = spec::old(*w.integratedConservedVariables, 0);
    w.write(*u, g, Info(t, 4));
    av_cover("a step after the window");
    av_assert("the average is written only once", log->calls == 0 && w.written);
    const long i = av_int("cell", 0, 1000000);
    auto& m = *w.integratedConservedVariables->getScalarMemoryArea(0);
    av_assume(i < long(m.getSize()));
    av_eq("states after the window do not count", m.getPointer()[i], acc[i]);
}
namespace {
struct AnyFunctional : functional::Functional {
    volume::Volume* out = nullptr; const volume::Volume* in = nullptr; const grid::Grid* grid = nullptr; double weight = -1; int calls = 0;
    bool zeroed = false;
    ivec3 size;
    explicit AnyFunctional(ivec3 s) : size(s) {}
    void operator()(volume::Volume& o, const volume::Volume& i, const real w, const grid::Grid& g) override {
        out = &o; in = &i; weight = w; grid = &g; ++calls;
        zeroed = o.getScalarMemoryArea(0)->getPointer()[0] == 0;
    }
    ivec3 getFunctionalSize(const grid::Grid&) const override { return size; }
};
volume::Volume* made;
int madeCount;
}
namespace alsfvm { namespace volume {
VolumeFactory::VolumeFactory(const std::string& e, alsfvm::shared_ptr<memory::MemoryFactory> m) : equation(e), memoryFactory(m) {}
alsfvm::shared_ptr<Volume> VolumeFactory::createConservedVolume(size_t nx, size_t ny, size_t nz, size_t g) {
    auto v = spec::makeVolume(1, nx, ny, nz, g);
    made = v.get(); ++madeCount;
    return v;
}
} }
AV_CONTRACT(P06, time_functional_step) {
    auto log = new Log;
    const int n = av_int("functional size", 1, 1000);
    auto f = new AnyFunctional(ivec3(n, 1, 1));
    const double T = av_real("time"), r = av_pos("radius");
    volume::VolumeFactory vf("burgers", spec::factory());
    functional::TimeIntegrationFunctional w(vf, io::WriterPointer(log), functional::FunctionalPointer(f), T, r);
    auto u = spec::makeVolume(1, av_int("nx", 2, 1000), 1, 1, 1);
    auto g = spec::plainGrid(4, 1, 1);
    const double last = av_real("last"), t = av_real("t");
    av_assume(last <= t);
    w.lastTime = last;
    made = nullptr; madeCount = 0;
    w.write(*u, g, Info(t, 4));
    av_cover("a step");
    const double weight = overlap(last, t, T - r, T + r);
    av_assert("the functional is evaluated when time inside the window has passed", f->calls == (weight > 0 ? 1 : 0));
    av_assert("one accumulator is used", madeCount == 1 && w.conservedVolume.get() == made);
    if (f->calls) {
        av_eq("each state counts for the time it stood inside the window", f->weight, weight);
        av_assert("the functional of the current state is added to the accumulator", f->in == u.get() && f->out == made && f->grid == &g && f->zeroed);
    }
    av_eq("the last time is remembered", w.lastTime, t);
    av_assert("the accumulator has the size of the functional", made->getNumberOfXCells() == size_t(n));
    w.write(*u, g, Info(t, 5));
    av_assert("no time, no contribution", f->calls == (weight > 0 ? 1 : 0) && madeCount == 1);
    av_assert("nothing is written before the end", log->calls == 0);
    w.finalize(g, Info(t, 5));
    av_assert("the integral is written at the end", log->calls == 1 && log->seen == made && log->time == t);
    av_assert("the grid written has the size of the functional", log->dims == ivec3(n, 1, 1));
}
AV_CONTRACT(P06, interval_functional) {
    auto log = new Log;
    const int n = av_int("functional size", 1, 1000);
    auto f = new AnyFunctional(ivec3(n, 1, 1));
    volume::VolumeFactory vf("burgers", spec::factory());
    functional::IntervalFunctionalWriter w(vf, io::WriterPointer(log), functional::FunctionalPointer(f));
    auto u = spec::makeVolume(1, av_int("nx", 2, 1000), 1, 1, 1);
    auto g = spec::plainGrid(4, 1, 1);
    made = nullptr; madeCount = 0;
    const double t = av_real("t");
    w.write(*u, g, Info(t, 4));
    av_cover("a write");
    av_assert("the functional of the current state is evaluated once, on a cleared volume", f->calls == 1 && f->in == u.get() && f->out == made && f->grid == &g && f->zeroed && f->weight == 1);
    av_assert("its value is written with the current time", log->calls == 1 && log->seen == made && log->time == t);
    av_assert("the grid written has the size of the functional", log->dims == ivec3(n, 1, 1));
    made->getScalarMemoryArea(0)->getPointer()[0] = 3;
    w.write(*u, g, Info(t + 1, 5));
    av_assert("the functional of the current state is evaluated once, on a cleared volume", f->calls == 2 && f->in == u.get() && f->out == made && f->zeroed && f->weight == 1 && madeCount == 1);
    av_assert("its value is written with the current time", log->calls == 2 && log->seen == made && log->time == t + 1);
}
