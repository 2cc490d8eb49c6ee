// arbitrary admissible states (specification side)
#pragma once
#include "av.hpp"
#include "alsfvm/numflux/numerical_flux_list.hpp"
namespace spec {
using namespace alsfvm;
inline equation::euler::EulerParameters gasParameters() {
    equation::euler::EulerParameters p;
    p.setGamma(1 + av_pos("gamma-1"));
    return p;
}
template<int n> struct Gas {
    typedef equation::euler::Euler<n> Eq;
    typedef typename Eq::AllVariables All;
    typedef typename Eq::ConservedVariables Cons;
    double rho, p, u[3], g, E;
    // admissible: density and pressure are positive
    static Gas any(const Eq& eq, const char* const* nm) {
        Gas s;
        s.g = eq.getGamma();
        s.rho = av_pos(nm[0]);
        s.p = av_pos(nm[1]);
        for (int d = 0; d < 3; ++d) s.u[d] = d < n ? av_range(nm[2 + d], -1000, 1000) : 0;
        s.E = s.p / (s.g - 1) + 0.5 * s.rho * (s.u[0] * s.u[0] + s.u[1] * s.u[1] + s.u[2] * s.u[2]);
        av_conditioned(s.p > 1e-4 * s.E);
        return s;
    }
    Cons conserved() const {
        Cons c;
        c.rho = rho;
        for (int d = 0; d < n; ++d) c.m[d] = rho * u[d];
        c.E = E;
        return c;
    }
    All all() const {
        typename Eq::ExtraVariables x;
        x.p = p;
        for (int d = 0; d < n; ++d) x.u[d] = u[d];
        return All(conserved(), x);
    }
    // component k of the exact flux in direction d
    double flux(int d, int k) const {
        if (k == 0) return rho * u[d];
        if (k == n + 1) return (E + p) * u[d];
        return rho * u[d] * u[k - 1] + (k - 1 == d ? p : 0);
    }
    // component k of the derivative of the flux in direction d along the vector r
    template<class V> double jacobian(int d, int k, const V& r) const {
        double uu = 0, ur = 0;
        for (int i = 0; i < n; ++i) { uu += u[i] * u[i]; ur += u[i] * r[i + 1]; }
        const double dp = (g - 1) * (r[n + 1] - ur + 0.5 * uu * r[0]);
        const double dm = r[1 + d];
        if (k == 0) return dm;
        if (k == n + 1) return (r[n + 1] + dp) * u[d] + (E + p) / rho * (dm - u[d] * r[0]);
        return u[k - 1] * dm + u[d] * r[k] - u[k - 1] * u[d] * r[0] + (k - 1 == d ? dp : 0);
    }
    double soundSpeed() const { return sqrt(g * p / rho); }
};
static const char* const LEFT[] = {"rhoL", "pL", "uL", "vL", "wL"};
static const char* const RIGHT[] = {"rhoR", "pR", "uR", "vR", "wR"};
static const char* const STATE[] = {"rho", "p", "u", "v", "w"};
}
