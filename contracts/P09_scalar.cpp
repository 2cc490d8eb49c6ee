// AV-SOURCES: alsfvm/src/equation/burgers/Burgers.cpp
#include "gas.hpp"
using namespace alsfvm;
namespace {
typedef equation::burgers::Burgers Burgers;
typedef equation::cubic::Cubic Cubic;
typedef equation::linear::Linear Linear;
typedef equation::buckleyleverett::BuckleyLeverett BuckleyLeverett;
double flux(const Burgers&, double u) { return u * u / 2; }
double flux(const Cubic&, double u) { return u * u * u / 3; }
double flux(const Linear&, double u) { return u; }
double flux(const BuckleyLeverett&, double u) { return u * u / (u * u + (1 - u) * (1 - u)); }
double slope(const Burgers&, double u) { return u; }
double slope(const Cubic&, double u) { return u * u; }
double slope(const Linear&, double) { return 1; }
double slope(const BuckleyLeverett&, double u) { const double d = u * u + (1 - u) * (1 - u); return 2 * u * (1 - u) / (d * d); }
template<class Eq> void scalar() {
    equation::EquationParameters par;
    Eq eq(par);
    const double u = av_range("u", -1000, 1000);
    typename Eq::AllVariables all(u);
    typename Eq::ConservedVariables F0, F1, F2;
    eq.template computePointFlux<0>(all, F0);
    eq.template computePointFlux<1>(all, F1);
    eq.template computePointFlux<2>(all, F2);
    av_cover("state");
    av_eq("flux in x", F0.u, flux(eq, u));
    av_eq("flux in y", F1.u, flux(eq, u));
    av_eq("flux in z", F2.u, flux(eq, u));
    av_eq("wave speed is |f'|, x", eq.template computeWaveSpeed<0>(all, all), fabs(slope(eq, u)));
    av_eq("wave speed is |f'|, y", eq.template computeWaveSpeed<1>(all, all), fabs(slope(eq, u)));
    av_eq("wave speed is |f'|, z", eq.template computeWaveSpeed<2>(all, all), fabs(slope(eq, u)));
    av_eq("eigenvalue is f'", eq.template computeEigenValues<0>(all).x, slope(eq, u));
    av_eq("eigenvalue is f', y", eq.template computeEigenValues<1>(all).x, slope(eq, u));
    av_eq("eigenvector is a unit", eq.template computeEigenVectorMatrix<0>(all)(0, 0), 1);
    const auto prim = eq.computePrimitiveVariables(all);
    av_eq("primitive is conserved", prim.u, u);
    av_eq("conserved from primitive", eq.computeConserved(prim).u, u);
    av_eq("all variables", eq.makeAllVariables(u).u, u);
    av_assert("finite values are accepted", eq.obeysConstraints(all, eq.computeExtra(all)));
    for (double bad : {double(INFINITY), -double(INFINITY), double(NAN)}) {
        typename Eq::AllVariables w(bad);
        av_assert("values that are not finite are rejected", !eq.obeysConstraints(w, eq.computeExtra(w)));
    }
}
template<class Eq> void entropyVariables() {
    equation::EquationParameters par;
    Eq eq(par);
    const double u = av_range("u", 0, 2);
    av_assume(u > 0 && u < 2);
    typename Eq::AllVariables all(u);
    av_cover("state");
    const double v = eq.computeEntropyVariables(all).x;
    av_eq("entropy variable is the derivative of -log u - log(2-u)", v, 1 / (2 - u) - 1 / u);
    av_eq("scaled entropy variables are R^T v", eq.template computeEntropyVariablesMultipliedByEigenVectorMatrix<0>(all).x, eq.template computeEigenVectorMatrix<0>(all)(0, 0) * v);
}
void burgersPotential() {
    equation::EquationParameters par;
    Burgers eq(par);
    const double u = av_range("u", 0, 2);
    av_assume(u > 0 && u < 2);
    av_cover("state");
    // q' = v f', q = -2u - 2 log(2-u)
    const double v = 1 / (2 - u) - 1 / u, q = -2 * u - 2 * log(2 - u);
    av_eq("entropy potential is v f - q", eq.computeEntropyPotential(Burgers::AllVariables(u)).x, v * u * u / 2 - q);
}
}
AV_CONTRACT(P09, burgers) { scalar<Burgers>(); }
AV_CONTRACT(P09, cubic) { scalar<Cubic>(); }
AV_CONTRACT(P09, linear) { scalar<Linear>(); }
AV_CONTRACT(P09, buckley_leverett) { scalar<BuckleyLeverett>(); }
AV_CONTRACT(P09, burgers_entropy) { entropyVariables<Burgers>(); }
AV_CONTRACT(P09, burgers_entropy_potential) { burgersPotential(); }
