// AV-SOURCES: alsfvm/src/equation/euler/Euler.cpp alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp
#include "common.hpp"
#include "gas.hpp"
using namespace alsfvm;
using spec::Gas;
namespace {
template<int n> void conversions() {
    equation::euler::Euler<n> eq(spec::gasParameters());
    const Gas<n> s = Gas<n>::any(eq, spec::STATE);
    const auto c = s.conserved();
    const auto prim = eq.computePrimitiveVariables(c);
    av_cover("state");
    av_eq("primitive density", prim.rho, s.rho);
    av_eq("primitive pressure", prim.p, s.p);
    for (int d = 0; d < n; ++d) av_eq("primitive velocity", prim.u[d], s.u[d]);
    const auto back = eq.computeConserved(prim);
    for (int k = 0; k < n + 2; ++k) av_eq("conserved -> primitive -> conserved is the identity", back[k], c[k]);
    const auto x = eq.computeExtra(c);
    const auto y = eq.computeExtra(prim);
    av_eq("extra pressure", x.p, s.p);
    av_eq("extra pressure from primitive", y.p, s.p);
    for (int d = 0; d < n; ++d) {
        av_eq("extra velocity", x.u[d], s.u[d]);
        av_eq("extra velocity from primitive", y.u[d], s.u[d]);
    }
    const auto all = eq.makeAllVariables(c.rho, c.m, c.E);
    for (int k = 0; k < n + 2; ++k) av_eq("all variables keep the conserved ones", all.conserved()[k], c[k]);
    av_eq("all variables pressure", all.p, s.p);
    for (int d = 0; d < n; ++d) av_eq("all variables velocity", all.u[d], s.u[d]);
    av_assert("admissible states are accepted", eq.obeysConstraints(c, x));
}
template<int n> void constraints() {
    equation::euler::Euler<n> eq(spec::gasParameters());
    typename equation::euler::Euler<n>::ConservedVariables c;
    for (int k = 0; k < n + 2; ++k) c[k] = av_real("c0\0c1\0c2\0c3\0c4" + 3 * k);
    typename equation::euler::Euler<n>::ExtraVariables x;
    x.p = av_real("p");
    av_cover("any");
    av_assert("accepted exactly when density and pressure are positive", eq.obeysConstraints(c, x) == (c.rho > 0 && x.p > 0));
    x.p = 1;
    for (double bad : {double(INFINITY), -double(INFINITY), double(NAN)}) {
        c.rho = bad;
        av_assert("a density that is not finite is rejected", !eq.obeysConstraints(c, x));
    }
    c.rho = 1;
    for (double bad : {double(INFINITY), -double(INFINITY), double(NAN)}) {
        x.p = bad;
        av_assert("a pressure that is not finite is rejected", !eq.obeysConstraints(c, x));
    }
}
template<int n, int dir> void pointFlux() {
    equation::euler::Euler<n> eq(spec::gasParameters());
    const Gas<n> s = Gas<n>::any(eq, spec::STATE);
    typename equation::euler::Euler<n>::ConservedVariables F;
    for (int k = 0; k < n + 2; ++k) F[k] = av_real("f0\0f1\0f2\0f3\0f4" + 3 * k);
    eq.template computePointFlux<dir>(s.all(), F);
    const auto G = eq.template computePointFlux<dir>(s.conserved());
    av_cover("state");
    for (int k = 0; k < n + 2; ++k) {
        av_eq("point flux", F[k], s.flux(dir, k));
        av_eq("point flux from conserved variables", G[k], s.flux(dir, k));
    }
    const auto all = s.all();
    const double speed = eq.template computeWaveSpeed<dir>(all, all);
    av_eq("wave speed is |u| + c", speed, fabs(s.u[dir]) + s.soundSpeed());
}
template<int n, int dir> void eigen() {
    equation::euler::Euler<n> eq(spec::gasParameters());
    const Gas<n> s = Gas<n>::any(eq, spec::STATE);
    const auto R = eq.template computeEigenVectorMatrix<dir>(s.conserved());
    const auto L = eq.template computeEigenValues<dir>(s.conserved());
    av_cover("state");
    const double c = s.soundSpeed();
    av_eq("first eigenvalue is u - c", L[0], s.u[dir] - c);
    av_eq("last eigenvalue is u + c", L[n + 1], s.u[dir] + c);
    for (int j = 1; j <= n; ++j) av_eq("middle eigenvalues are u", L[j], s.u[dir]);
    for (int j = 0; j < n + 2; ++j) {
        double col[5];
        for (int k = 0; k < n + 2; ++k) col[k] = R(k, j);
        for (int k = 0; k < n + 2; ++k) av_eq("columns are eigenvectors of the flux Jacobian", s.jacobian(dir, k, col), L[j] * col[k]);
    }
    const auto v = eq.computeEntropyVariables(s.conserved());
    const auto w = eq.template computeEntropyVariablesMultipliedByEigenVectorMatrix<dir>(s.conserved());
    for (int j = 0; j < n + 2; ++j) {
        double e = 0;
        for (int k = 0; k < n + 2; ++k) e += R(k, j) * v[k];
        av_eq("scaled entropy variables are R^T v", w[j], e);
    }
}
template<int n> void entropy() {
    equation::euler::Euler<n> eq(spec::gasParameters());
    const Gas<n> s = Gas<n>::any(eq, spec::STATE);
    const auto v = eq.computeEntropyVariables(s.conserved());
    const auto psi = eq.computeEntropyPotential(s.conserved());
    const auto z = eq.computeTecnoVariables(s.conserved()).z;
    av_cover("state");
    const double S = log(s.p) - s.g * log(s.rho), uu = s.u[0] * s.u[0] + s.u[1] * s.u[1] + s.u[2] * s.u[2];
    av_eq("entropy variable 0", v[0], (s.g - S) / (s.g - 1) - s.rho * uu / (2 * s.p));
    for (int d = 0; d < n; ++d) av_eq("entropy variable m", v[1 + d], s.rho * s.u[d] / s.p);
    av_eq("entropy variable E", v[n + 1], -s.rho / s.p);
    // potential = v . f - q with entropy flux q = -rho S u / (gamma - 1)
    for (int d = 0; d < n; ++d) {
        double vf = 0;
        for (int k = 0; k < n + 2; ++k) vf += v[k] * s.flux(d, k);
        av_eq("entropy potential is v.f - q", psi[d], vf + s.rho * S * s.u[d] / (s.g - 1));
    }
    av_eq("z1^2 p = rho", z[0] * z[0] * s.p, s.rho);
    av_lt("z1 positive", 0, z[0]);
    for (int d = 0; d < n; ++d) av_eq("z velocity", z[1 + d], z[0] * s.u[d]);
    av_eq("z5 = z1 p", z[n + 1], z[0] * s.p);
}
// the states the solvers compute with are combined componentwise
template<class V, int m> void arithmetic() {
    V a, b;
    auto at = [](V& v, int k) -> double& { return reinterpret_cast<double*>(&v)[k]; };
    for (int k = 0; k < m; ++k) av_eq("a new state is zero", at(a, k), 0);
    for (int k = 0; k < m; ++k) { at(a, k) = av_real("a0\0a1\0a2\0a3\0a4" + 3 * k); at(b, k) = av_pos("b0\0b1\0b2\0b3\0b4" + 3 * k); }
    const double s = av_pos("s");
    V sum = a + b, difference = a - b, multiple = s * a, quotient = a / s;
    av_cover("computed");
    for (int k = 0; k < m; ++k) {
        av_eq("sum of states", at(sum, k), at(a, k) + at(b, k));
        av_eq("difference of states", at(difference, k), at(a, k) - at(b, k));
        av_eq("multiple of a state", at(multiple, k), s * at(a, k));
        av_eq("state divided by a number", at(quotient, k), at(a, k) / s);
    }
}
template<int n> void euler_arithmetic() {
    arithmetic<equation::euler::ConservedVariables<n>, n + 2>();
    arithmetic<equation::euler::PrimitiveVariables<n>, n + 2>();
}
template<int n> std::vector<std::string> conservedNames() {
    std::vector<std::string> names = {"rho"};
    for (int d = 0; d < n; ++d) names.push_back(d == 0 ? "mx" : d == 1 ? "my" : "mz");
    names.push_back("E");
    return names;
}
template<int n> std::vector<std::string> extraNames() {
    std::vector<std::string> names = {"p"};
    for (int d = 0; d < n; ++d) names.push_back(d == 0 ? "ux" : d == 1 ? "uy" : "uz");
    return names;
}
// a state is stored to and read from the volume of its variables
template<int n> void stored() {
    typedef equation::euler::Euler<n> Eq;
    Eq eq(spec::gasParameters());
    typename Eq::ConservedVariables c, add;
    for (int k = 0; k < n + 2; ++k) { c[k] = av_real("c0\0c1\0c2\0c3\0c4" + 3 * k); add[k] = av_real("d0\0d1\0d2\0d3\0d4" + 3 * k); }
    auto volume = spec::makeVolume(conservedNames<n>(), 2, 1, 1, 0);
    spec::arbitrary(*volume, spec::U);
    const double* old[n + 2];
    for (int k = 0; k < n + 2; ++k) old[k] = spec::old(*volume, k);
    typename Eq::Views views(*volume);
    const int at = av_int("cell", 0, 1), rest = 1 - at;
    eq.setViewAt(views, at, c);
    auto read = Eq::fetchConservedVariables(views, at);
    av_cover("stored");
    for (int k = 0; k < n + 2; ++k) {
        av_eq("each variable is stored in its own array", spec::get(*volume, k, at, 0, 0), c[k]);
        av_eq("the state is read back", read[k], c[k]);
        av_eq("the other cells are left alone", spec::get(*volume, k, rest, 0, 0), old[k][rest]);
    }
    eq.addToViewAt(views, at, add);
    for (int k = 0; k < n + 2; ++k) av_eq("added to the stored state", spec::get(*volume, k, at, 0, 0), c[k] + add[k]);
    auto all = eq.fetchConservedVariables(views, at);
    for (int k = 0; k < n + 2; ++k) av_eq("the sum is read back", all[k], c[k] + add[k]);
}
template<int n> void storedExtra() {
    typedef equation::euler::Euler<n> Eq;
    Eq eq(spec::gasParameters());
    typename Eq::ExtraVariables x;
    x.p = av_real("p");
    for (int d = 0; d < n; ++d) x.u[d] = av_real("u\0v\0w" + 2 * d);
    auto volume = spec::makeVolume(extraNames<n>(), 2, 1, 1, 0);
    typename Eq::ViewsExtra views(*volume);
    eq.setExtraViewAt(views, 1, x);
    typename Eq::ConstViewsExtra constViews(*volume);
    auto read = eq.fetchExtraVariables(constViews, 1);
    av_cover("stored");
    av_eq("the pressure is read back", read.p, x.p);
    for (int d = 0; d < n; ++d) av_eq("the velocity is read back", read.u[d], x.u[d]);
    av_eq("the pressure is stored under its name", spec::get(*volume, 0, 1, 0, 0), x.p);
    for (int d = 0; d < n; ++d) av_eq("the velocity is stored under its name", spec::get(*volume, 1 + d, 1, 0, 0), x.u[d]);
}
}
AV_CONTRACT(P09, euler1_arithmetic) { euler_arithmetic<1>(); }
AV_CONTRACT(P09, euler2_arithmetic) { euler_arithmetic<2>(); }
AV_CONTRACT(P09, euler3_arithmetic) { euler_arithmetic<3>(); }
AV_CONTRACT(P09, euler1_stored) { stored<1>(); storedExtra<1>(); }
AV_CONTRACT(P09, euler2_stored) { stored<2>(); storedExtra<2>(); }
AV_CONTRACT(P09, euler3_stored) { stored<3>(); storedExtra<3>(); }
AV_CONTRACT(P09, euler1_conversions) { conversions<1>(); }
AV_CONTRACT(P09, euler2_conversions) { conversions<2>(); }
AV_CONTRACT(P09, euler3_conversions) { conversions<3>(); }
AV_CONTRACT(P09, euler1_constraints) { constraints<1>(); }
AV_CONTRACT(P09, euler3_constraints) { constraints<3>(); }
AV_CONTRACT(P09, euler1_flux) { pointFlux<1, 0>(); }
AV_CONTRACT(P09, euler2_flux_x) { pointFlux<2, 0>(); }
AV_CONTRACT(P09, euler2_flux_y) { pointFlux<2, 1>(); }
AV_CONTRACT(P09, euler3_flux_x) { pointFlux<3, 0>(); }
AV_CONTRACT(P09, euler3_flux_y) { pointFlux<3, 1>(); }
AV_CONTRACT(P09, euler3_flux_z) { pointFlux<3, 2>(); }
AV_CONTRACT(P09, euler1_eigen) { eigen<1, 0>(); }
AV_CONTRACT(P09, euler2_eigen_x) { eigen<2, 0>(); }
AV_CONTRACT(P09, euler2_eigen_y) { eigen<2, 1>(); }
AV_CONTRACT(P09, euler3_eigen_x) { eigen<3, 0>(); }
AV_CONTRACT(P09, euler3_eigen_y) { eigen<3, 1>(); }
AV_CONTRACT(P09, euler3_eigen_z) { eigen<3, 2>(); }
AV_CONTRACT(P09, euler1_entropy) { entropy<1>(); }
AV_CONTRACT(P09, euler2_entropy) { entropy<2>(); }
AV_CONTRACT(P09, euler3_entropy) { entropy<3>(); }
