// AV-SOURCES: alsfvm/src/integrator/Integrator.cpp alsfvm/src/integrator/ForwardEuler.cpp alsfvm/src/simulator/TimestepInformation.cpp alsfvm/src/mpi/CellExchanger.cpp alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp
#include "common.hpp"
#include "alsfvm/integrator/ForwardEuler.hpp"
using namespace alsfvm;
namespace {
struct Speed : integrator::WaveSpeedAdjuster {
    const char* name;
    explicit Speed(const char* n) : name(n) {}
    real adjustWaveSpeed(real w) override { return av_fun(name, 1, w); }
};
struct Step : integrator::TimestepAdjuster {
    const char* name; double t; size_t n;
    Step(const char* nm, double t, size_t n) : name(nm), t(t), n(n) {}
    real adjustTimestep(real dt, const simulator::TimestepInformation& i) const override {
        av_eq("adjusters see the current time", i.getCurrentTime(), t);
        av_assert("adjusters see the step count", i.getNumberOfStepsPerformed() == n);
        return av_fun(name, 1, dt);
    }
};
// cell lengths of unused directions are zero
template<int dim> void timestep(int speeds, int steps) {
    integrator::ForwardEuler method((alsfvm::shared_ptr<integrator::System>()));
    const double t = av_real("t"), cfl = av_pos("cfl");
    const size_t n = av_int("steps", 0, 1000000);
    simulator::TimestepInformation info(t, n);
    if (speeds > 0) method.addWaveSpeedAdjuster(integrator::WaveSpeedAdjusterPtr(new Speed("W1")));
    if (speeds > 1) method.addWaveSpeedAdjuster(integrator::WaveSpeedAdjusterPtr(new Speed("W2")));
    alsfvm::shared_ptr<integrator::TimestepAdjuster> s1(new Step("T1", t, n)), s2(new Step("T2", t, n));
    if (steps > 0) method.addTimestepAdjuster(s1);
    if (steps > 1) method.addTimestepAdjuster(s2);
    const double s[3] = {av_pos("sx"), av_pos("sy"), av_pos("sz")};
    const double h[3] = {av_pos("hx"), dim > 1 ? av_pos("hy") : 0, dim > 2 ? av_pos("hz") : 0};
    double total = 0;
    for (int d = 0; d < dim; ++d) {
        double w = s[d];
        if (speeds > 0) w = av_fun("W1", 1, w);
        if (speeds > 1) w = av_fun("W2", 1, w);
        av_assume(w > 0);
        total += w / h[d];
    }
    av_cover("step");
    double expected = cfl / total;
    if (steps > 0) expected = av_fun("T1", 1, expected);
    if (steps > 1) expected = av_fun("T2", 1, expected);
    const double dt = method.computeTimestep(rvec3(s[0], s[1], s[2]), rvec3(h[0], h[1], h[2]), cfl, info);
    av_eq("time step is adjust(cfl / sum of speed / length)", dt, expected);
    if (!steps && !speeds) {
        for (int d = 0; d < dim; ++d) av_le("no wave crosses more than cfl cells in a step", s[d] * dt, cfl * h[d]);
        av_lt("time step is positive", 0, dt);
    }
}
}
AV_CONTRACT(P05, timestep_1d) { timestep<1>(0, 0); }
AV_CONTRACT(P05, timestep_2d) { timestep<2>(0, 0); }
AV_CONTRACT(P05, timestep_3d) { timestep<3>(0, 0); }
AV_CONTRACT(P05, timestep_adjusted_1d) { timestep<1>(1, 2); }
AV_CONTRACT(P05, timestep_adjusted_2d) { timestep<2>(2, 1); }
AV_CONTRACT(P05, timestep_adjusted_3d) { timestep<3>(1, 2); }
AV_CONTRACT(P05, time_information) {
    simulator::TimestepInformation fresh;
    av_eq("time starts at zero", fresh.getCurrentTime(), 0);
    av_assert("no steps at the start", fresh.getNumberOfStepsPerformed() == 0);
    const double t = av_real("t"), a = av_real("a"), b = av_real("b");
    simulator::TimestepInformation i(t, 3);
    i.incrementTime(a);
    i.incrementTime(b);
    av_cover("increments");
    av_eq("time is the sum of the steps", i.getCurrentTime(), t + a + b);
    av_assert("one count per step", i.getNumberOfStepsPerformed() == 5);
}
