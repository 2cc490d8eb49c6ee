// AV-OPT hllc?_flux_.*: abstract=computeHLLSpeeds
// AV-OPT tecno_entropy_.*_(z0|z4|u): native=0
// AV-OPT tecno_entropy_\d[xyz]?: native=0
#include "gas.hpp"
using namespace alsfvm;
using spec::Gas;
namespace {
template<int n> struct Pair {
    equation::euler::Euler<n> eq;
    Gas<n> l, r;
    Pair() : eq(spec::gasParameters()), l(Gas<n>::any(eq, spec::LEFT)), r(Gas<n>::any(eq, spec::RIGHT)) {}
};
template<int n> typename equation::euler::Euler<n>::ConservedVariables junk() {
    typename equation::euler::Euler<n>::ConservedVariables F;
    for (int k = 0; k < n + 2; ++k) F[k] = av_real("f0\0f1\0f2\0f3\0f4" + 3 * k);
    return F;
}
template<class Flux, int n, int dir> void consistent() {
    equation::euler::Euler<n> eq(spec::gasParameters());
    const Gas<n> s = Gas<n>::any(eq, spec::STATE);
    auto F = junk<n>();
    const double speed = Flux::template computeFlux<dir>(eq, s.all(), s.all(), F);
    av_cover("equal states");
    for (int k = 0; k < n + 2; ++k) av_eq("F(u,u) = f(u)", F[k], s.flux(dir, k));
    av_eq("wave speed at equal states is |u| + c", speed, fabs(s.u[dir]) + s.soundSpeed());
}
// Einfeldt's speeds
template<int n, int dir> void einfeldt(const Pair<n>& q, double& sl, double& sr) {
    const double a = sqrt(q.l.rho), b = sqrt(q.r.rho), rho = (q.l.rho + q.r.rho) / 2;
    const double u = (a * q.l.u[dir] + b * q.r.u[dir]) / (a + b), p = (a * q.l.p + b * q.r.p) / (a + b), c = sqrt(q.l.g * p / rho);
    sl = fmin(q.l.u[dir] - q.l.soundSpeed(), u - c);
    sr = fmax(q.r.u[dir] + q.r.soundSpeed(), u + c);
}
template<int n, int dir> void hllSpeeds() {
    Pair<n> q;
    double sl = av_real("sl"), sr = av_real("sr"), el, er;
    numflux::euler::HLL<n>::template computeHLLSpeeds<dir>(q.eq, q.l.all(), q.r.all(), sl, sr);
    einfeldt<n, dir>(q, el, er);
    av_cover("states");
    av_eq("left speed", sl, el);
    av_eq("right speed", sr, er);
    av_le("left speed bounds the left acoustic wave", sl, q.l.u[dir] - q.l.soundSpeed());
    av_le("right speed bounds the right acoustic wave", q.r.u[dir] + q.r.soundSpeed(), sr);
    av_lt("the speeds are ordered", sl, sr);
}
template<int n, int dir> void hll() {
    Pair<n> q;
    double sl, sr;
    auto F = junk<n>();
    const double speed = numflux::euler::HLL<n>::template computeFlux<dir>(q.eq, q.l.all(), q.r.all(), F);
    numflux::euler::HLL<n>::template computeHLLSpeeds<dir>(q.eq, q.l.all(), q.r.all(), sl, sr);
    // the contract of computeHLLSpeeds (hll_speeds_*)
    av_assume(sl < sr);
    const auto cl = q.l.conserved(), cr = q.r.conserved();
    for (int k = 0; k < n + 2; ++k) {
        const double fl = q.l.flux(dir, k), fr = q.r.flux(dir, k);
        if (sl >= 0) {
            av_cover("supersonic to the right");
            av_eq("flux of the left state when everything moves right", F[k], fl);
        } else if (sr <= 0) {
            av_cover("supersonic to the left");
            av_eq("flux of the right state when everything moves left", F[k], fr);
        } else {
            av_cover("subsonic");
            av_eq("HLL average", F[k] * (sr - sl), sr * fl - sl * fr + sr * sl * (cr[k] - cl[k]));
        }
    }
    av_eq("wave speed", speed, fmax(fabs(sl), fabs(sr)));
}
template<int n, int dir> void hll3Speeds() {
    Pair<n> q;
    double sl = av_real("sl"), sr = av_real("sr"), cs = av_real("cs");
    numflux::euler::HLL3<n>::template computeHLLSpeeds<dir>(q.eq, q.l.all(), q.r.all(), sl, sr, cs);
    const double a = sqrt(q.l.rho), b = sqrt(q.r.rho), rho = (q.l.rho + q.r.rho) / 2;
    const double u = (a * q.l.u[dir] + b * q.r.u[dir]) / (a + b), p = (a * q.l.p + b * q.r.p) / (a + b), c = sqrt(q.l.g * p / rho);
    const double corr = 0.5 * fmax(0., q.l.u[dir] - q.r.u[dir]);
    av_cover("states");
    av_eq("sound speed of the average state", cs, c);
    av_eq("left speed", sl, fmin(q.l.u[dir] + corr - q.l.soundSpeed(), u - c));
    av_eq("right speed", sr, fmax(q.r.u[dir] - corr + q.r.soundSpeed(), u + c));
    av_lt("the speeds are ordered", sl, sr);
    av_lt("the left wave moves left of the left gas", sl, q.l.u[dir]);
    av_lt("the right wave moves right of the right gas", q.r.u[dir], sr);
}
template<int n, int dir> void hll3() {
    Pair<n> q;
    double sl, sr, cs;
    auto F = junk<n>();
    const double speed = numflux::euler::HLL3<n>::template computeFlux<dir>(q.eq, q.l.all(), q.r.all(), F);
    numflux::euler::HLL3<n>::template computeHLLSpeeds<dir>(q.eq, q.l.all(), q.r.all(), sl, sr, cs);
    // the contract of computeHLLSpeeds (hllc_speeds_*)
    av_assume(sl < sr);
    av_assume(sl < q.l.u[dir]);
    av_assume(q.r.u[dir] < sr);
    const double ml = q.l.rho * (q.l.u[dir] - sl), mr = q.r.rho * (q.r.u[dir] - sr);
    const double sm = (q.r.p - q.l.p + mr * q.r.u[dir] - ml * q.l.u[dir]) / (mr - ml);
    av_eq("wave speed", speed, fmax(fabs(sl), fabs(sr)));
    for (int k = 0; k < n + 2; ++k) {
        const double fl = q.l.flux(dir, k), fr = q.r.flux(dir, k);
        if (sl >= 0) {
            av_cover("supersonic to the right");
            av_eq("flux of the left state when everything moves right", F[k], fl);
        } else if (sr < 0) {
            av_cover("supersonic to the left");
            av_eq("flux of the right state when everything moves left", F[k], fr);
        } else {
            const Gas<n>& s = sm >= 0 ? q.l : q.r;
            const double sk = sm >= 0 ? sl : sr, mk = sm >= 0 ? ml : mr;
            av_cover("subsonic");
            // the middle state moves with the contact and satisfies the jump conditions of its acoustic wave
            const double rho = mk / (sm - sk), p = s.p + mk * (s.u[dir] - sm);
            const double E = (s.E * (s.u[dir] - sk) + s.p * s.u[dir] - p * sm) / (sm - sk);
            if (k == 0) av_eq("mass flux of the middle state", F[k], rho * sm);
            else if (k == n + 1) av_eq("energy flux of the middle state", F[k], (E + p) * sm);
            else if (k == 1 + dir) av_eq("momentum flux of the middle state", F[k], rho * sm * sm + p);
            else {
                const double ut = (fr - fl - sr * q.r.rho * q.r.u[k - 1] + sl * q.l.rho * q.l.u[k - 1]) / (mr - ml);
                av_eq("tangential momentum flux", F[k], s.rho * s.u[dir] * s.u[k - 1] + sk * (rho * ut - s.rho * s.u[k - 1]));
            }
        }
    }
}
template<int n, int dir> void central() {
    Pair<n> q;
    auto F = junk<n>();
    const double speed = numflux::Central<equation::euler::Euler<n>>::template computeFlux<dir>(q.eq, q.l.all(), q.r.all(), F);
    av_cover("states");
    for (int k = 0; k < n + 2; ++k) av_eq("central flux is the mean", F[k], 0.5 * (q.l.flux(dir, k) + q.r.flux(dir, k)));
    av_eq("wave speed", speed, fmax(fabs(q.l.u[dir]) + q.l.soundSpeed(), fabs(q.r.u[dir]) + q.r.soundSpeed()));
}
// a state given by Roe's parameter vector: rho = z0 z4, p = z4 / z0
template<int n> Gas<n> fromParameters(double g, double z0, double z4, const char* const* nm) {
    Gas<n> s;
    s.g = g;
    s.rho = z0 * z4;
    s.p = z4 / z0;
    for (int d = 0; d < 3; ++d) s.u[d] = d < n ? av_range(nm[2 + d], -1000, 1000) : 0;
    s.E = s.p / (s.g - 1) + 0.5 * s.rho * (s.u[0] * s.u[0] + s.u[1] * s.u[1] + s.u[2] * s.u[2]);
    return s;
}
// kind 0: everything differs, 1: z0 equal, 2: z4 equal, 3: both equal
template<int n, int dir> void tecno(int kind) {
    equation::euler::Euler<n> eq(spec::gasParameters());
    const double g = eq.getGamma();
    const double a0 = av_pos("z0L"), a4 = av_pos("z4L"), b0 = kind & 1 ? a0 : av_pos("z0R"), b4 = kind & 2 ? a4 : av_pos("z4R");
    if (!(kind & 1)) av_assume(a0 != b0);
    if (!(kind & 2)) av_assume(a4 != b4);
    const Gas<n> l = fromParameters<n>(g, a0, a4, spec::LEFT), r = fromParameters<n>(g, b0, b4, spec::RIGHT);
    if (kind == 3) av_assume(l.u[dir] != r.u[dir]);
    auto F = junk<n>();
    numflux::euler::Tecno1<n>::template computeFlux<dir>(eq, l.all(), r.all(), F);
    const auto vl = eq.computeEntropyVariables(l.conserved()), vr = eq.computeEntropyVariables(r.conserved());
    double s = 0;
    for (int k = 0; k < n + 2; ++k) s += (vr[k] - vl[k]) * F[k];
    av_cover("states");
    av_eq("entropy conservation: [v] . F = [psi]", s, r.rho * r.u[dir] - l.rho * l.u[dir]);
    // the flux is the physical flux of an averaged state: tangential momentum is carried by the mass flux
    const double zz = (a0 + b0) / 2;
    for (int d = 0; d < n; ++d) {
        const double um = (a0 * l.u[d] + b0 * r.u[d]) / 2 / zz;
        av_eq("momentum flux", F[1 + d], um * F[0] + (d == dir ? (a4 + b4) / 2 / zz : 0));
    }
    if (kind & 2) av_eq("mass flux when the log mean degenerates", F[0], (a0 * l.u[dir] + b0 * r.u[dir]) / 2 * a4);
}
}
AV_CONTRACT(P02, hll1) { consistent<numflux::euler::HLL<1>, 1, 0>(); }
AV_CONTRACT(P02, hll2x) { consistent<numflux::euler::HLL<2>, 2, 0>(); }
AV_CONTRACT(P02, hll2y) { consistent<numflux::euler::HLL<2>, 2, 1>(); }
AV_CONTRACT(P02, hll3x) { consistent<numflux::euler::HLL<3>, 3, 0>(); }
AV_CONTRACT(P02, hll3y) { consistent<numflux::euler::HLL<3>, 3, 1>(); }
AV_CONTRACT(P02, hll3z) { consistent<numflux::euler::HLL<3>, 3, 2>(); }
AV_CONTRACT(P02, hllc1) { consistent<numflux::euler::HLL3<1>, 1, 0>(); }
AV_CONTRACT(P02, hllc2x) { consistent<numflux::euler::HLL3<2>, 2, 0>(); }
AV_CONTRACT(P02, hllc2y) { consistent<numflux::euler::HLL3<2>, 2, 1>(); }
AV_CONTRACT(P02, hllc3x) { consistent<numflux::euler::HLL3<3>, 3, 0>(); }
AV_CONTRACT(P02, hllc3y) { consistent<numflux::euler::HLL3<3>, 3, 1>(); }
AV_CONTRACT(P02, hllc3z) { consistent<numflux::euler::HLL3<3>, 3, 2>(); }
AV_CONTRACT(P02, tecno1) { consistent<numflux::euler::Tecno1<1>, 1, 0>(); }
AV_CONTRACT(P02, tecno2x) { consistent<numflux::euler::Tecno1<2>, 2, 0>(); }
AV_CONTRACT(P02, tecno2y) { consistent<numflux::euler::Tecno1<2>, 2, 1>(); }
AV_CONTRACT(P02, tecno3x) { consistent<numflux::euler::Tecno1<3>, 3, 0>(); }
AV_CONTRACT(P02, tecno3y) { consistent<numflux::euler::Tecno1<3>, 3, 1>(); }
AV_CONTRACT(P02, tecno3z) { consistent<numflux::euler::Tecno1<3>, 3, 2>(); }
AV_CONTRACT(P02, hll_speeds_1) { hllSpeeds<1, 0>(); }
AV_CONTRACT(P02, hll_speeds_2x) { hllSpeeds<2, 0>(); }
AV_CONTRACT(P02, hll_speeds_2y) { hllSpeeds<2, 1>(); }
AV_CONTRACT(P02, hll_speeds_3x) { hllSpeeds<3, 0>(); }
AV_CONTRACT(P02, hll_speeds_3y) { hllSpeeds<3, 1>(); }
AV_CONTRACT(P02, hll_speeds_3z) { hllSpeeds<3, 2>(); }
AV_CONTRACT(P02, hll_flux_1) { hll<1, 0>(); }
AV_CONTRACT(P02, hll_flux_2x) { hll<2, 0>(); }
AV_CONTRACT(P02, hll_flux_2y) { hll<2, 1>(); }
AV_CONTRACT(P02, hll_flux_3x) { hll<3, 0>(); }
AV_CONTRACT(P02, hll_flux_3y) { hll<3, 1>(); }
AV_CONTRACT(P02, hll_flux_3z) { hll<3, 2>(); }
AV_CONTRACT(P02, hllc_speeds_1) { hll3Speeds<1, 0>(); }
AV_CONTRACT(P02, hllc_speeds_2x) { hll3Speeds<2, 0>(); }
AV_CONTRACT(P02, hllc_speeds_2y) { hll3Speeds<2, 1>(); }
AV_CONTRACT(P02, hllc_speeds_3x) { hll3Speeds<3, 0>(); }
AV_CONTRACT(P02, hllc_speeds_3y) { hll3Speeds<3, 1>(); }
AV_CONTRACT(P02, hllc_speeds_3z) { hll3Speeds<3, 2>(); }
AV_CONTRACT(P02, hllc_flux_1) { hll3<1, 0>(); }
AV_CONTRACT(P02, hllc_flux_2x) { hll3<2, 0>(); }
AV_CONTRACT(P02, hllc_flux_2y) { hll3<2, 1>(); }
AV_CONTRACT(P02, hllc_flux_3x) { hll3<3, 0>(); }
AV_CONTRACT(P02, hllc_flux_3y) { hll3<3, 1>(); }
AV_CONTRACT(P02, hllc_flux_3z) { hll3<3, 2>(); }
AV_CONTRACT(P02, central_1) { central<1, 0>(); }
AV_CONTRACT(P02, central_2y) { central<2, 1>(); }
AV_CONTRACT(P02, central_3z) { central<3, 2>(); }
AV_CONTRACT(P02, tecno_entropy_1) { tecno<1, 0>(0); }
AV_CONTRACT(P02, tecno_entropy_1_z0) { tecno<1, 0>(1); }
AV_CONTRACT(P02, tecno_entropy_1_z4) { tecno<1, 0>(2); }
AV_CONTRACT(P02, tecno_entropy_1_u) { tecno<1, 0>(3); }
AV_CONTRACT(P02, tecno_entropy_2x) { tecno<2, 0>(0); }
AV_CONTRACT(P02, tecno_entropy_2x_z0) { tecno<2, 0>(1); }
AV_CONTRACT(P02, tecno_entropy_2y) { tecno<2, 1>(0); }
AV_CONTRACT(P02, tecno_entropy_2y_z4) { tecno<2, 1>(2); }
AV_CONTRACT(P02, tecno_entropy_3x_u) { tecno<3, 0>(3); }
AV_CONTRACT(P02, tecno_entropy_3z_z0) { tecno<3, 2>(1); }
AV_CONTRACT(P02, tecno_entropy_3x) { tecno<3, 0>(0); }
AV_CONTRACT(P02, tecno_entropy_3y) { tecno<3, 1>(0); }
AV_CONTRACT(P02, tecno_entropy_3z) { tecno<3, 2>(0); }
