// AV-SOURCES: alsfvm/src/integrator/Integrator.cpp alsfvm/src/integrator/ForwardEuler.cpp alsfvm/src/integrator/RungeKutta2.cpp alsfvm/src/integrator/RungeKutta3.cpp alsfvm/src/integrator/RungeKutta4.cpp alsfvm/src/integrator/IntegratorFactory.cpp alsfvm/src/simulator/TimestepInformation.cpp alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp
#include "common.hpp"
#include "alsfvm/integrator/IntegratorFactory.hpp"
using namespace alsfvm;
namespace {
static const char* const L[4][2] = {{"L0a", "L0b"}, {"L1a", "L1b"}, {"L2a", "L2b"}, {"L3a", "L3b"}};
static const char* const S[4][3] = {{"s0x", "s0y", "s0z"}, {"s1x", "s1y", "s1z"}, {"s2x", "s2y", "s2z"}, {"s3x", "s3y", "s3z"}};
// any spatial operator: arbitrary right hand sides and wave speeds, different in each evaluation
struct AnyOperator : integrator::System {
    int calls = 0;
    volume::Volume* in[8];
    const double* rhs[8][2];
    rvec3 speeds;
    int dim;
    explicit AnyOperator(int d) : dim(d) {}
    void operator()(volume::Volume& u, rvec3& waveSpeed, bool computeWaveSpeed, volume::Volume& out) override {
        av_assert("the operator does not overwrite its input", &u != &out);
        if (calls == 0) av_assert("the first stage asks for the wave speeds", computeWaveSpeed);
        in[calls] = &u;
        spec::arbitrary(out, L[calls]);
        for (size_t v = 0; v < out.getNumberOfVariables(); ++v) rhs[calls][v] = spec::old(out, v);
        // as the numerical fluxes do: the wave speeds of directions the grid does not have are left alone
        for (int d = 0; d < dim; ++d) waveSpeed[d] = av_pos(S[calls][d]);
        if (calls == 0) speeds = waveSpeed;
        ++calls;
    }
};
// value of stage s of the method, from the right hand sides l[0..s-1] scaled by dt/dx
double stage(int order, int s, double u0, const double* l) {
    if (s == 0) return u0;
    if (order == 1) return u0 + l[0];
    if (order == 2) return s == 1 ? u0 + l[0] : u0 + (l[0] + l[1]) / 2;
    if (order == 3) return s == 1 ? u0 + l[0] : s == 2 ? u0 + (l[0] + l[1]) / 4 : u0 + (l[0] + l[1] + 4 * l[2]) / 6;
    return s == 1 ? u0 + l[0] / 2 : s == 2 ? u0 + l[1] / 2 : s == 3 ? u0 + l[2] : u0 + (l[0] + 2 * l[1] + 2 * l[2] + l[3]) / 6;
}
// cell lengths: unused directions have length one (as those of a grid) or zero
template<int dim, int nvars> void step(const char* name, int order, bool square, double unused) {
    const long n = av_int("n", 1, 100000), g = av_int("g", 0, 100);
    const long m = dim > 1 ? av_int("m", 2, 1000) : 1, k = dim > 2 ? av_int("k", 2, 1000) : 1;
    const long tx = n + 2 * g, ty = dim > 1 ? m + 2 * g : 1, tz = dim > 2 ? k + 2 * g : 1;
    auto op = new AnyOperator(dim);
    alsfvm::shared_ptr<integrator::System> system(op);
    auto method = integrator::IntegratorFactory(name).createIntegrator(system);
    const int N = order;
    av_assert("number of stages", method->getNumberOfSubsteps() == size_t(N));
    std::vector<alsfvm::shared_ptr<volume::Volume>> vols;
    for (int s = 0; s <= N; ++s) vols.push_back(spec::makeVolume(nvars, n, m, k, g));
    spec::arbitrary(*vols[0], spec::U);
    const double* old[2];
    for (int v = 0; v < nvars; ++v) old[v] = spec::old(*vols[0], v);
    const double dx = av_pos("dx"), cfl = av_pos("cfl");
    simulator::TimestepInformation info(av_real("t"), 7);
    const long x = av_int("x", 0, 200000), y = dim > 1 ? av_int("y", 0, 3000) : 0;
    const long z = dim > 2 ? av_int("z", 0, 3000) : 0;
    av_assume(x < tx && y < ty && z < tz);
    const long at = (z * ty + y) * tx + x;
    double dt = 0;
    const double dy = square ? dx : av_pos("dy");
    const rvec3 cells(dx, dim > 1 ? dy : unused, dim > 2 ? dx : unused);
    for (int s = 0; s < N; ++s) {
        const double d = method->performSubstep(vols, cells, dt, cfl, *vols[s + 1], s, info);
        if (s == 0) {
            dt = d;
            av_eq("time step is the CFL number over the summed speeds per length", dt * (op->speeds.x / dx + (dim > 1 ? op->speeds.y / dy : 0) + (dim > 2 ? op->speeds.z / dx : 0)), cfl);
        } else av_eq("all stages of a step use the same time step", d, dt);
        av_assert("one evaluation of the operator per stage, on the latest stage", op->calls == s + 1 && op->in[s] == vols[s].get());
    }
    av_cover("a step");
    // the integrators scale by dt / dx in all directions: a state value is only specified for square cells
    if (!square) return;
    for (int v = 0; v < nvars; ++v) {
        double l[4];
        for (int s = 0; s < N; ++s) l[s] = dt / dx * op->rhs[s][v][at];
        av_eq("the old state is not modified", spec::get(*vols[0], v, x, y, z), old[v][at]);
        for (int s = 1; s <= N; ++s) av_eq("stage value", spec::get(*vols[s], v, x, y, z), stage(order, s, old[v][at], l));
    }
}
// the numerical flux of a grid is the sum of the face flux differences of its directions (P01_netflux.cpp)
struct SumOfDirections : integrator::System {
    void operator()(volume::Volume& u, rvec3& waveSpeed, bool, volume::Volume& out) override {
        auto view = out.getScalarMemoryArea(0)->getView();
        view.at(0, 0, 0) = av_real("Fx") + av_real("Fy");
        waveSpeed[0] = av_pos("sx");
        waveSpeed[1] = av_pos("sy");
    }
};
// the first stage of every method but the classical Runge-Kutta method is a full Euler step
void rectangular(const char* name) {
    alsfvm::shared_ptr<integrator::System> system(new SumOfDirections);
    auto method = integrator::IntegratorFactory(name).createIntegrator(system);
    std::vector<alsfvm::shared_ptr<volume::Volume>> vols;
    for (int s = 0; s < 2; ++s) vols.push_back(spec::makeVolume(1, 1, 2, 1, 0));
    spec::arbitrary(*vols[0], spec::U);
    const double old = spec::get(*vols[0], 0, 0, 0, 0), dx = av_range("dx", 0.1, 10), dy = av_range("dy", 0.1, 10);
    simulator::TimestepInformation info(0, 0);
    const double dt = method->performSubstep(vols, rvec3(dx, dy, 1), 0, av_range("cfl", 0.1, 1), *vols[1], 0, info);
    av_cover("a step");
    av_eq("the flux difference of a direction is divided by the cell length of that direction", spec::get(*vols[1], 0, 0, 0, 0), old + dt / dx * av_real("Fx") + dt / dy * av_real("Fy"));
}
}
AV_CONTRACT(P04, forward_euler_1d) { step<1, 1>("forwardeuler", 1, true, 1); }
AV_CONTRACT(P04, forward_euler_2d) { step<2, 2>("forwardeuler", 1, true, 0); }
AV_CONTRACT(P04, forward_euler_3d) { step<3, 1>("forwardeuler", 1, true, 0); }
AV_CONTRACT(P04, forward_euler_rectangular_2d) { step<2, 1>("forwardeuler", 1, false, 1); }
AV_CONTRACT(P04, forward_euler_rectangular_3d) { step<3, 1>("forwardeuler", 1, false, 0); }
AV_CONTRACT(P04, runge_kutta2_1d) { step<1, 1>("rungekutta2", 2, true, 1); }
AV_CONTRACT(P04, runge_kutta2_2d) { step<2, 2>("rungekutta2", 2, true, 0); }
AV_CONTRACT(P04, runge_kutta2_3d) { step<3, 1>("rungekutta2", 2, true, 0); }
AV_CONTRACT(P04, runge_kutta2_rectangular_2d) { step<2, 1>("rungekutta2", 2, false, 1); }
AV_CONTRACT(P04, runge_kutta2_rectangular_3d) { step<3, 1>("rungekutta2", 2, false, 0); }
AV_CONTRACT(P04, runge_kutta3_1d) { step<1, 1>("rungekutta3", 3, true, 1); }
AV_CONTRACT(P04, runge_kutta3_2d) { step<2, 2>("rungekutta3", 3, true, 0); }
AV_CONTRACT(P04, runge_kutta3_3d) { step<3, 1>("rungekutta3", 3, true, 0); }
AV_CONTRACT(P04, runge_kutta3_rectangular_2d) { step<2, 1>("rungekutta3", 3, false, 1); }
AV_CONTRACT(P04, runge_kutta3_rectangular_3d) { step<3, 1>("rungekutta3", 3, false, 0); }
AV_CONTRACT(P04, runge_kutta4_1d) { step<1, 1>("rungekutta4", 4, true, 1); }
AV_CONTRACT(P04, runge_kutta4_2d) { step<2, 2>("rungekutta4", 4, true, 0); }
AV_CONTRACT(P04, runge_kutta4_3d) { step<3, 1>("rungekutta4", 4, true, 0); }
AV_CONTRACT(P04, runge_kutta4_rectangular_2d) { step<2, 1>("rungekutta4", 4, false, 1); }
AV_CONTRACT(P04, runge_kutta4_rectangular_3d) { step<3, 1>("rungekutta4", 4, false, 0); }
AV_CONTRACT(P04, rectangular_cells_forward_euler) { rectangular("forwardeuler"); }
AV_CONTRACT(P04, rectangular_cells_runge_kutta2) { rectangular("rungekutta2"); }
AV_CONTRACT(P04, rectangular_cells_runge_kutta3) { rectangular("rungekutta3"); }
