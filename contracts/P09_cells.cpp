// AV-SOURCES: alsfvm/src/equation/CellComputer.cpp alsfvm/src/equation/EquationParameters.cpp alsfvm/src/simulator/SimulatorParameters.cpp alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp
// The equations applied to every cell of a volume.
#include "common.hpp"
#include "gas.hpp"
#include "alsfvm/src/equation/CPUCellComputer.cpp"
using namespace alsfvm;
namespace {
struct Box {
    long nx, ny, nz, g, tx, ty, tz;
    explicit Box(int dim) {
        nx = av_int("nx", 1, 100000);
        ny = dim > 1 ? av_int("ny", 2, 1000) : 1;
        nz = dim > 2 ? av_int("nz", 2, 1000) : 1;
        g = av_int("g", 0, 10);
        tx = nx + 2 * g; ty = dim > 1 ? ny + 2 * g : 1; tz = dim > 2 ? nz + 2 * g : 1;
    }
};
template<int n> std::vector<std::string> primitiveNames() {
    std::vector<std::string> names = {"rho"};
    for (int d = 0; d < n; ++d) names.push_back(d == 0 ? "vx" : d == 1 ? "vy" : "vz");
    names.push_back("p");
    return names;
}
template<int n> std::vector<std::string> extraNames() {
    std::vector<std::string> names = {"p"};
    for (int d = 0; d < n; ++d) names.push_back(d == 0 ? "ux" : d == 1 ? "uy" : "uz");
    return names;
}
template<int n> struct Setting {
    typedef equation::euler::Euler<n> Eq;
    simulator::SimulatorParameters parameters;
    double gamma;
    Setting() {
        auto p = alsfvm::make_shared<equation::euler::EulerParameters>();
        gamma = 1 + av_pos("gamma-1");
        p->setGamma(gamma);
        parameters.setEquationParameters(p);
    }
};
template<int n> void fromPrimitive() {
    typedef equation::euler::Euler<n> Eq;
    Setting<n> s;
    equation::CPUCellComputer<Eq> cells(s.parameters);
    const Box b(n);
    auto primitive = spec::makeVolume(primitiveNames<n>(), b.nx, b.ny, b.nz, b.g);
    auto conserved = spec::makeVolume(spec::eulerNames(n), b.nx, b.ny, b.nz, b.g);
    spec::arbitrary(*primitive, spec::P); spec::arbitrary(*conserved, spec::U);
    const long x = av_int("x", 0, 200000), y = n > 1 ? av_int("y", 0, 3000) : 0, z = n > 2 ? av_int("z", 0, 3000) : 0;
    av_assume(x < b.tx && y < b.ty && z < b.tz);
    cells.computeFromPrimitive(*primitive, *conserved);
    av_cover("cell");
    const double rho = spec::get(*primitive, 0, x, y, z), p = spec::get(*primitive, n + 1, x, y, z);
    double uu = 0;
    av_eq("density of every cell", spec::get(*conserved, 0, x, y, z), rho);
    for (int d = 0; d < n; ++d) {
        const double u = spec::get(*primitive, 1 + d, x, y, z);
        uu += u * u;
        av_eq("momentum of every cell", spec::get(*conserved, 1 + d, x, y, z), rho * u);
    }
    av_eq("energy of every cell", spec::get(*conserved, n + 1, x, y, z), p / (s.gamma - 1) + 0.5 * rho * uu);
}
template<int n> void extra() {
    typedef equation::euler::Euler<n> Eq;
    Setting<n> s;
    equation::CPUCellComputer<Eq> cells(s.parameters);
    const Box b(n);
    auto conserved = spec::makeVolume(spec::eulerNames(n), b.nx, b.ny, b.nz, b.g);
    auto extra = spec::makeVolume(extraNames<n>(), b.nx, b.ny, b.nz, b.g);
    spec::arbitrary(*conserved, spec::U); spec::arbitrary(*extra, spec::V);
    const long x = av_int("x", 0, 200000), y = n > 1 ? av_int("y", 0, 3000) : 0, z = n > 2 ? av_int("z", 0, 3000) : 0;
    av_assume(x < b.tx && y < b.ty && z < b.tz);
    const double rho = spec::get(*conserved, 0, x, y, z);
    av_assume(rho > 0);
    cells.computeExtraVariables(*conserved, *extra);
    av_cover("cell");
    double mm = 0;
    for (int d = 0; d < n; ++d) {
        const double m = spec::get(*conserved, 1 + d, x, y, z);
        mm += m * m;
        av_eq("velocity of every cell", spec::get(*extra, 1 + d, x, y, z), m / rho);
    }
    av_eq("pressure of every cell", spec::get(*extra, 0, x, y, z), (s.gamma - 1) * (spec::get(*conserved, n + 1, x, y, z) - 0.5 * mm / rho));
}
template<int n> void maxSpeed(int direction) {
    typedef equation::euler::Euler<n> Eq;
    Setting<n> s;
    equation::CPUCellComputer<Eq> cells(s.parameters);
    const Box b(n);
    auto conserved = spec::makeVolume(spec::eulerNames(n), b.nx, b.ny, b.nz, b.g);
    spec::arbitrary(*conserved, spec::U);
    const long x = av_int("x", 0, 200000), y = n > 1 ? av_int("y", 0, 3000) : 0, z = n > 2 ? av_int("z", 0, 3000) : 0;
    av_assume(x < b.tx && y < b.ty && z < b.tz);
    const double speed = cells.computeMaxWaveSpeed(*conserved, direction);
    double mm = 0;
    const double rho = spec::get(*conserved, 0, x, y, z);
    for (int d = 0; d < n; ++d) { const double m = spec::get(*conserved, 1 + d, x, y, z); mm += m * m; }
    const double p = (s.gamma - 1) * (spec::get(*conserved, n + 1, x, y, z) - 0.5 * mm / rho);
    av_assume(rho > 0 && p > 0);
    av_cover("cell");
    av_le("at least the wave speed of every cell", fabs(spec::get(*conserved, 1 + direction, x, y, z) / rho) + sqrt(s.gamma * p / rho), speed);
}
template<int n> void constraints() {
    typedef equation::euler::Euler<n> Eq;
    Setting<n> s;
    equation::CPUCellComputer<Eq> cells(s.parameters);
    const Box b(n);
    auto conserved = spec::makeVolume(spec::eulerNames(n), b.nx, b.ny, b.nz, b.g);
    spec::arbitrary(*conserved, spec::U);
    const long x = av_int("x", 0, 200000), y = n > 1 ? av_int("y", 0, 3000) : 0, z = n > 2 ? av_int("z", 0, 3000) : 0;
    av_assume(x < b.tx && y < b.ty && z < b.tz);
    const bool obeys = cells.obeysConstraints(*conserved);
    double mm = 0;
    const double rho = spec::get(*conserved, 0, x, y, z);
    for (int d = 0; d < n; ++d) { const double m = spec::get(*conserved, 1 + d, x, y, z); mm += m * m; }
    av_cover("cell");
    av_assert("a volume is only accepted if every density is positive", !obeys || rho > 0);
    av_assert("a volume is only accepted if every pressure is positive", !obeys || rho == 0 || (s.gamma - 1) * (spec::get(*conserved, n + 1, x, y, z) - 0.5 * mm / rho) > 0);
}
template<int n> void uniform() {
    typedef equation::euler::Euler<n> Eq;
    Setting<n> s;
    equation::CPUCellComputer<Eq> cells(s.parameters);
    const Box b(n);
    auto conserved = spec::makeVolume(spec::eulerNames(n), b.nx, b.ny, b.nz, b.g);
    double state[n + 2];
    state[0] = av_pos("rho");
    double mm = 0;
    for (int d = 0; d < n; ++d) { state[1 + d] = d == 0 ? av_real("mx") : d == 1 ? av_real("my") : av_real("mz"); mm += state[1 + d] * state[1 + d]; }
    const double p = av_pos("p");
    state[n + 1] = p / (s.gamma - 1) + 0.5 * mm / state[0];
    av_conditioned(p > 1e-4 * state[n + 1]);
    for (int v = 0; v < n + 2; ++v) {
        double* out = conserved->getScalarMemoryArea(v)->getPointer();
        for (long z = 0; z < b.tz; ++z)
            for (long y = 0; y < b.ty; ++y)
                for (long x = 0; x < b.tx; ++x) out[(z * b.ty + y) * b.tx + x] = state[v];
    }
    av_cover("uniform");
    av_assert("a physical state is accepted", cells.obeysConstraints(*conserved));
}
}
AV_CONTRACT(P09, cells_uniform_1) { uniform<1>(); }
AV_CONTRACT(P09, cells_uniform_2) { uniform<2>(); }
AV_CONTRACT(P09, cells_uniform_3) { uniform<3>(); }
AV_CONTRACT(P09, cells_from_primitive_1) { fromPrimitive<1>(); }
AV_CONTRACT(P09, cells_from_primitive_2) { fromPrimitive<2>(); }
AV_CONTRACT(P09, cells_from_primitive_3) { fromPrimitive<3>(); }
AV_CONTRACT(P09, cells_extra_1) { extra<1>(); }
AV_CONTRACT(P09, cells_extra_2) { extra<2>(); }
AV_CONTRACT(P09, cells_extra_3) { extra<3>(); }
AV_CONTRACT(P09, cells_speed_1) { maxSpeed<1>(0); }
AV_CONTRACT(P09, cells_speed_2y) { maxSpeed<2>(1); }
AV_CONTRACT(P09, cells_speed_3z) { maxSpeed<3>(2); }
AV_CONTRACT(P09, cells_constraints_1) { constraints<1>(); }
AV_CONTRACT(P09, cells_constraints_3) { constraints<3>(); }
