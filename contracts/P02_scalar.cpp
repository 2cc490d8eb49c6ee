#include "gas.hpp"
using namespace alsfvm;
namespace {
typedef equation::burgers::Burgers Burgers;
typedef equation::cubic::Cubic Cubic;
typedef equation::linear::Linear Linear;
typedef equation::buckleyleverett::BuckleyLeverett BuckleyLeverett;
double flux(const Burgers&, double u) { return u * u / 2; }
double flux(const Cubic&, double u) { return u * u * u / 3; }
double flux(const Linear&, double u) { return u; }
double flux(const BuckleyLeverett&, double u) { return u * u / (u * u + (1 - u) * (1 - u)); }
double speed(const Burgers&, double u) { return fabs(u); }
double speed(const Cubic&, double u) { return fabs(u * u); }
double speed(const Linear&, double) { return 1; }
double speed(const BuckleyLeverett&, double u) { const double d = u * u + (1 - u) * (1 - u); return fabs(2 * u * (1 - u) / (d * d)); }
template<class Eq> struct Range { static double lo() { return -1000; } static double hi() { return 1000; } };
template<> struct Range<BuckleyLeverett> { static double lo() { return 0; } static double hi() { return 1; } };

template<class Flux, class Eq, int dir> void consistent(double lo, double hi) {
    equation::EquationParameters par;
    Eq eq(par);
    const double u = av_range("u", lo, hi), v = av_range("v", lo, hi);
    typename Eq::ConservedVariables F(av_real("f"));
    const double s = Flux::template computeFlux<dir>(eq, typename Eq::AllVariables(u), typename Eq::AllVariables(u), F);
    av_cover("equal states");
    av_eq("F(u,u) = f(u)", F.u, flux(eq, u));
    av_eq("wave speed at equal states is |f'(u)|", s, speed(eq, u));
    const double t = Flux::template computeFlux<dir>(eq, typename Eq::AllVariables(u), typename Eq::AllVariables(v), F);
    av_le("wave speed bounds the left state", speed(eq, u), t);
    av_le("wave speed bounds the right state", speed(eq, v), t);
    av_assert("wave speed is that of one of the states", av_near(t, speed(eq, u)) || av_near(t, speed(eq, v)));
}
template<class Flux, class Eq> void consistent() {
    consistent<Flux, Eq, 0>(Range<Eq>::lo(), Range<Eq>::hi());
    consistent<Flux, Eq, 1>(Range<Eq>::lo(), Range<Eq>::hi());
    consistent<Flux, Eq, 2>(Range<Eq>::lo(), Range<Eq>::hi());
}
// Godunov: minimum / maximum of f between the states
template<class Flux, class Eq> void godunov() {
    equation::EquationParameters par;
    Eq eq(par);
    const double l = av_range("l", Range<Eq>::lo(), Range<Eq>::hi()), r = av_range("r", Range<Eq>::lo(), Range<Eq>::hi()), w = av_range("w", Range<Eq>::lo(), Range<Eq>::hi());
    typename Eq::ConservedVariables F(av_real("f"));
    Flux::template computeFlux<0>(eq, typename Eq::AllVariables(l), typename Eq::AllVariables(r), F);
    if (l <= r && l <= w && w <= r) {
        av_cover("rarefaction");
        av_le("flux is at most f between increasing states", F.u, flux(eq, w));
    }
    if (r <= l && r <= w && w <= l) {
        av_cover("shock");
        av_le("flux is at least f between decreasing states", flux(eq, w), F.u);
    }
    av_assert("flux is attained", F.u == flux(eq, l) || F.u == flux(eq, r) || (l <= 0 && 0 <= r && F.u == flux(eq, 0)));
}
template<class Flux, class Eq> void upwind() {
    equation::EquationParameters par;
    Eq eq(par);
    const double l = av_range("l", -1000, 1000), r = av_range("r", -1000, 1000);
    typename Eq::ConservedVariables F(av_real("f"));
    Flux::template computeFlux<0>(eq, typename Eq::AllVariables(l), typename Eq::AllVariables(r), F);
    av_cover("states");
    av_eq("flux is that of the upwind state", F.u, flux(eq, l));
}
template<class Eq> void centralRusanov() {
    equation::EquationParameters par;
    Eq eq(par);
    const double l = av_range("l", Range<Eq>::lo(), Range<Eq>::hi()), r = av_range("r", Range<Eq>::lo(), Range<Eq>::hi());
    typename Eq::ConservedVariables F(av_real("f")), G(av_real("g"));
    numflux::Central<Eq>::template computeFlux<0>(eq, typename Eq::AllVariables(l), typename Eq::AllVariables(r), F);
    numflux::Rusanov<Eq>::template computeFlux<0>(eq, typename Eq::AllVariables(l), typename Eq::AllVariables(r), G);
    av_cover("states");
    av_eq("central flux is the mean", F.u, 0.5 * (flux(eq, l) + flux(eq, r)));
    const double a = speed(eq, l), b = speed(eq, r);
    av_eq("Rusanov flux", G.u, 0.5 * (flux(eq, l) + flux(eq, r)) - 0.5 * (a > b ? a : b) * (r - l));
}
void entropyConservative() {
    equation::EquationParameters par;
    Burgers eq(par);
    const double l = av_range("l", 0, 2), r = av_range("r", 0, 2);
    av_assume(l > 0 && l < 2 && r > 0 && r < 2 && l != r);
    Burgers::ConservedVariables F(av_real("f"));
    numflux::ScalarEntropyConservativeFlux<Burgers>::computeFlux<0>(eq, Burgers::AllVariables(l), Burgers::AllVariables(r), F);
    av_cover("states");
    auto v = [](double u) { return 1 / (2 - u) - 1 / u; };
    auto psi = [&](double u) { return v(u) * u * u / 2 + 2 * u + 2 * log(2 - u); };
    av_eq("entropy conservation: [v] F = [psi]", (v(r) - v(l)) * F.u, psi(r) - psi(l));
}
// arbitrary consistent symmetric two-point flux
struct AnySymmetric {
    template<int direction> static real computeFlux(const Burgers&, const Burgers::AllVariables& l, const Burgers::AllVariables& r, Burgers::ConservedVariables& F) {
        F.u = av_fun("F", 3, l.u, r.u, double(direction));
        return av_fun("speed", 3, l.u, r.u, double(direction));
    }
};
template<int dir> void combined() {
    equation::EquationParameters par;
    Burgers eq(par);
    static const char* const nm[] = {"u0", "u1", "u2", "u3", "u4", "u5"};
    double u[6];
    for (int i = 0; i < 6; ++i) u[i] = av_real(nm[i]);
    auto f = [&](int i, int j) { return av_fun("F", 3, u[i], u[j], double(dir)); };
    auto s = [&](int i, int j) { return av_fun("speed", 3, u[i], u[j], double(dir)); };
    typedef Burgers::AllVariables A;
    Burgers::ConservedVariables F(av_real("f")), G(av_real("g"));
    const double a = numflux::TecnoCombined4<Burgers, AnySymmetric>::computeFlux<dir>(eq, A(u[1]), A(u[2]), A(u[3]), A(u[4]), F);
    av_cover("states");
    av_eq("fourth order combination", F.u, 4. / 3. * f(2, 3) - 1. / 6. * (f(1, 3) + f(2, 4)));
    const double b = numflux::TecnoCombined6<Burgers, AnySymmetric>::computeFlux<dir>(eq, A(u[0]), A(u[1]), A(u[2]), A(u[3]), A(u[4]), A(u[5]), G);
    av_eq("sixth order combination", G.u, 3. / 2. * f(2, 3) - 3. / 10. * (f(1, 3) + f(2, 4)) + 1. / 30. * (f(0, 3) + f(1, 4) + f(2, 5)));
    av_le("wave speed bounds the central pair", s(2, 3), a);
    av_le("wave speed bounds the central pair (6)", s(2, 3), b);
    av_le("wave speed is not negative", 0, a);
    // equal states
    const double w = av_real("w");
    numflux::TecnoCombined4<Burgers, AnySymmetric>::computeFlux<dir>(eq, A(w), A(w), A(w), A(w), F);
    numflux::TecnoCombined6<Burgers, AnySymmetric>::computeFlux<dir>(eq, A(w), A(w), A(w), A(w), A(w), A(w), G);
    av_eq("fourth order combination is consistent", F.u, av_fun("F", 3, w, w, double(dir)));
    av_eq("sixth order combination is consistent", G.u, av_fun("F", 3, w, w, double(dir)));
    const auto s4 = numflux::TecnoCombined4<Burgers, AnySymmetric>::stencil();
    const auto s6 = numflux::TecnoCombined6<Burgers, AnySymmetric>::stencil();
    for (int i = 0; i < 4; ++i) av_assert("stencil of the fourth order flux", s4[i] == i - 1);
    for (int i = 0; i < 6; ++i) av_assert("stencil of the sixth order flux", s6[i] == i - 2);
}
}
AV_CONTRACT(P02, burgers_godunov_consistent) { consistent<numflux::burgers::Godunov, Burgers>(); }
AV_CONTRACT(P02, burgers_roe_consistent) { consistent<numflux::burgers::Roe, Burgers>(); }
AV_CONTRACT(P02, burgers_central_consistent) { consistent<numflux::Central<Burgers>, Burgers>(); }
AV_CONTRACT(P02, burgers_rusanov_consistent) { consistent<numflux::Rusanov<Burgers>, Burgers>(); }
AV_CONTRACT(P02, burgers_entropy_consistent) { consistent<numflux::ScalarEntropyConservativeFlux<Burgers>, Burgers, 0>(0, 2); }
AV_CONTRACT(P02, burgers_godunov) { godunov<numflux::burgers::Godunov, Burgers>(); }
AV_CONTRACT(P02, burgers_roe) { godunov<numflux::burgers::Roe, Burgers>(); }
AV_CONTRACT(P02, burgers_central_rusanov) { centralRusanov<Burgers>(); }
AV_CONTRACT(P02, burgers_entropy_conservative) { entropyConservative(); }
AV_CONTRACT(P02, buckley_godunov_consistent) { consistent<numflux::buckleyleverett::Godunov, BuckleyLeverett>(); }
AV_CONTRACT(P02, buckley_central_consistent) { consistent<numflux::Central<BuckleyLeverett>, BuckleyLeverett>(); }
AV_CONTRACT(P02, buckley_rusanov_consistent) { consistent<numflux::Rusanov<BuckleyLeverett>, BuckleyLeverett>(); }
AV_CONTRACT(P02, buckley_godunov) { godunov<numflux::buckleyleverett::Godunov, BuckleyLeverett>(); }
AV_CONTRACT(P02, buckley_central_rusanov) { centralRusanov<BuckleyLeverett>(); }
AV_CONTRACT(P02, cubic_roe_consistent) { consistent<numflux::cubic::Roe, Cubic>(); }
AV_CONTRACT(P02, cubic_central_consistent) { consistent<numflux::Central<Cubic>, Cubic>(); }
AV_CONTRACT(P02, cubic_rusanov_consistent) { consistent<numflux::Rusanov<Cubic>, Cubic>(); }
AV_CONTRACT(P02, cubic_roe_upwind) { upwind<numflux::cubic::Roe, Cubic>(); }
AV_CONTRACT(P02, cubic_central_rusanov) { centralRusanov<Cubic>(); }
AV_CONTRACT(P02, linear_roe_consistent) { consistent<numflux::linear::Roe, Linear>(); }
AV_CONTRACT(P02, linear_upwind_consistent) { consistent<numflux::linear::Upwind, Linear>(); }
AV_CONTRACT(P02, linear_roe_upwind) { upwind<numflux::linear::Roe, Linear>(); }
AV_CONTRACT(P02, linear_upwind) { upwind<numflux::linear::Upwind, Linear>(); }
AV_CONTRACT(P02, linear_central_rusanov) { centralRusanov<Linear>(); }
AV_CONTRACT(P02, combined_x) { combined<0>(); }
AV_CONTRACT(P02, combined_y) { combined<1>(); }
