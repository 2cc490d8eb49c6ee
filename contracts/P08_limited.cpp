// AV-SOURCES: alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/reconstruction/ReconstructionCPU.cpp alsfvm/src/reconstruction/NoReconstruction.cpp alsfvm/src/reconstruction/Reconstruction.cpp alsfvm/src/equation/euler/Euler.cpp alsfvm/src/equation/burgers/Burgers.cpp alsfvm/src/equation/euler/EulerParameters.cpp alsfvm/src/equation/EquationParameters.cpp alsfvm/src/simulator/SimulatorParameters.cpp
// AV-OPT wenof2.*: weight=9 time=600 oblig=250
#include "common.hpp"
#include "gas.hpp"
#include "alsfvm/reconstruction/ReconstructionCPU.hpp"
#include "alsfvm/reconstruction/NoReconstruction.hpp"
#include "alsfvm/reconstruction/MC.hpp"
#include "alsfvm/reconstruction/MM.hpp"
#include "alsfvm/reconstruction/WENO2.hpp"
#include "alsfvm/reconstruction/WENOF2.hpp"
#include "alsfvm/equation/euler/Euler.hpp"
#include "alsfvm/equation/euler/EulerParameters.hpp"
#include "alsfvm/equation/burgers/Burgers.hpp"
using namespace alsfvm;
namespace {
typedef equation::burgers::Burgers Burgers;
template<int n> using Euler = equation::euler::Euler<n>;
inline double absolute(double a) { return a < 0 ? -a : a; }
inline double least(double a, double b) { return a < b ? a : b; }
inline double minmod2(double a, double b) { return a > 0 && b > 0 ? least(a, b) : a < 0 && b < 0 ? -least(-a, -b) : 0; }
inline double minmod3(double a, double b, double c) { return minmod2(a, minmod2(b, c)); }
struct Faces { double left, right; };
// the value at the two faces of the middle cell from the values in three cells; iw: the weight variable in the three cells
struct SpecMC {
    static Faces faces(const double* v, const double*) {
        const double s = minmod3(2 * (v[2] - v[1]), (v[2] - v[0]) / 2, 2 * (v[1] - v[0]));
        return {v[1] - s / 2, v[1] + s / 2};
    }
};
struct SpecMM {
    static Faces faces(const double* v, const double*) {
        const double s = minmod2(v[2] - v[1], v[1] - v[0]);
        return {v[1] - s / 2, v[1] + s / 2};
    }
};
struct SpecWENO2 {
    static Faces faces(const double* v, const double* w) {
        const double eps = ALSFVM_WENO_EPSILON;
        const double up = (w[2] - w[1]) * (w[2] - w[1]) + eps, down = (w[1] - w[0]) * (w[1] - w[0]) + eps;
        const double pu = 1 / (up * up), pd = 1 / (down * down);
        // linear weights 2/3 for the stencil on the side of the face, 1/3 for the other
        const double lu = pu / (pu + 2 * pd), ld = 2 * pd / (pu + 2 * pd);
        const double ru = 2 * pu / (2 * pu + pd), rd = pd / (2 * pu + pd);
        return {lu * (1.5 * v[1] - 0.5 * v[2]) + ld * (0.5 * v[0] + 0.5 * v[1]), ru * (0.5 * v[1] + 0.5 * v[2]) + rd * (1.5 * v[1] - 0.5 * v[0])};
    }
};
template<class Eq> struct Par { typedef equation::EquationParameters P; static std::vector<std::string> names() { return spec::scalarName(); } };
template<int n> struct Par<Euler<n>> { typedef equation::euler::EulerParameters P; static std::vector<std::string> names() { return spec::eulerNames(n); } };
template<class Type, class Spec, class Eq, int dim, int dir> void reconstruct() {
    simulator::SimulatorParameters par;
    par.setEquationParameters(alsfvm::shared_ptr<equation::EquationParameters>(new typename Par<Eq>::P));
    reconstruction::ReconstructionCPU<Type, Eq> rec(par);
    const int nvars = Eq::ConservedVariables::size();
    const long g = rec.getNumberOfGhostCells();
    av_eq("two ghost cells", double(g), 2);
    const long tx = av_int("tx", 2 * g + 1, 100000), nx = tx - 2 * g;
    const long ty = dim > 1 ? av_int("ty", 2 * g + 2, 100000) : 1, ny = dim > 1 ? ty - 2 * g : 1;
    const long tz = dim > 2 ? av_int("tz", 2 * g + 2, 100000) : 1, nz = dim > 2 ? tz - 2 * g : 1;
    auto u = spec::makeVolume(Par<Eq>::names(), nx, ny, nz, g);
    auto l = spec::makeVolume(Par<Eq>::names(), nx, ny, nz, g);
    auto r = spec::makeVolume(Par<Eq>::names(), nx, ny, nz, g);
    spec::arbitrary(*u, spec::U);
    spec::arbitrary(*l, spec::P);
    spec::arbitrary(*r, spec::Q);
    const double* uold[5], *lold[5], *rold[5];
    for (int v = 0; v < nvars; ++v) { uold[v] = spec::old(*u, v); lold[v] = spec::old(*l, v); rold[v] = spec::old(*r, v); }
    const long a = av_int("a", 0, 100000), b = av_int("b", 0, 100000);
    av_assume(a + b < (dir == 0 ? nx : dir == 1 ? ny : nz));
    const ivec3 start(dir == 0 ? a : 0, dir == 1 ? a : 0, dir == 2 ? a : 0), end(dir == 0 ? -b : 0, dir == 1 ? -b : 0, dir == 2 ? -b : 0);
    av_cover("reconstructs");
    av_nothrow("reconstruction is defined for every size");
    rec.performReconstruction(*u, dir, 0, *l, *r, start, end);
    const long x = av_int("x", 0, 100000), y = dim > 1 ? av_int("y", 0, 100000) : 0, z = dim > 2 ? av_int("z", 0, 100000) : 0;
    av_assume(x < tx && y < ty && z < tz);
    const long i = (z * ty + y) * tx + x, step = dir == 0 ? 1 : dir == 1 ? tx : tx * ty;
    for (int v = 0; v < nvars; ++v) av_eq("the input is not modified", spec::get(*u, v, x, y, z), uold[v][i]);
    bool inside = x >= g - (dir == 0) + start.x && x < tx - g + (dir == 0) + end.x;
    if (dim > 1) inside = inside && y >= g - (dir == 1) + start.y && y < ty - g + (dir == 1) + end.y;
    if (dim > 2) inside = inside && z >= g - (dir == 2) + start.z && z < tz - g + (dir == 2) + end.z;
    if (!inside) {
        for (int v = 0; v < nvars; ++v) {
            av_eq("left values outside the window are untouched", spec::get(*l, v, x, y, z), lold[v][i]);
            av_eq("right values outside the window are untouched", spec::get(*r, v, x, y, z), rold[v][i]);
        }
        return;
    }
    double w[3];
    // the smoothness is measured in the first variable (the density)
    for (int j = 0; j < 3; ++j) w[j] = uold[0][i + (j - 1) * step];
    const long which = av_int("variable", 0, nvars - 1);
    for (int v = 0; v < nvars; ++v) {
        if (v != which) continue;
        const double c[3] = {uold[v][i - step], uold[v][i], uold[v][i + step]};
        const Faces f = Spec::faces(c, w);
        av_eq("left value is the limited value at the lower face", spec::get(*l, v, x, y, z), f.left);
        av_eq("right value is the limited value at the upper face", spec::get(*r, v, x, y, z), f.right);
    }
}
}
// pointwise consequences of the limiters
template<class Spec> void limited() {
    const double v[3] = {av_real("v0"), av_real("v1"), av_real("v2")};
    const Faces f = Spec::faces(v, v);
    const double lo = least(v[0], least(v[1], v[2])), hi = -least(-v[0], least(-v[1], -v[2]));
    av_cover("limited");
    av_le("left value is at least the smallest neighbour", lo, f.left);
    av_le("left value is at most the largest neighbour", f.left, hi);
    av_le("right value is at least the smallest neighbour", lo, f.right);
    av_le("right value is at most the largest neighbour", f.right, hi);
    av_eq("the cell average is kept", (f.left + f.right) / 2, v[1]);
}
AV_CONTRACT(P08, mc_bounds) { limited<SpecMC>(); }
AV_CONTRACT(P08, mm_bounds) { limited<SpecMM>(); }
AV_CONTRACT(P08, mc_burgers_1d) { reconstruct<reconstruction::MC<Burgers>, SpecMC, Burgers, 1, 0>(); }
AV_CONTRACT(P08, mc_burgers_3d_z) { reconstruct<reconstruction::MC<Burgers>, SpecMC, Burgers, 3, 2>(); }
AV_CONTRACT(P08, mc_euler1) { reconstruct<reconstruction::MC<Euler<1>>, SpecMC, Euler<1>, 1, 0>(); }
AV_CONTRACT(P08, mm_burgers_1d) { reconstruct<reconstruction::MM<Burgers>, SpecMM, Burgers, 1, 0>(); }
AV_CONTRACT(P08, mm_burgers_2d_y) { reconstruct<reconstruction::MM<Burgers>, SpecMM, Burgers, 2, 1>(); }
AV_CONTRACT(P08, mm_euler1) { reconstruct<reconstruction::MM<Euler<1>>, SpecMM, Euler<1>, 1, 0>(); }
AV_CONTRACT(P08, weno2_burgers_1d) { reconstruct<reconstruction::WENO2<Burgers>, SpecWENO2, Burgers, 1, 0>(); }
AV_CONTRACT(P08, weno2_burgers_2d_x) { reconstruct<reconstruction::WENO2<Burgers>, SpecWENO2, Burgers, 2, 0>(); }
AV_CONTRACT(P08, weno2_euler1) { reconstruct<reconstruction::WENO2<Euler<1>>, SpecWENO2, Euler<1>, 1, 0>(); }
AV_CONTRACT(P08, weno2_euler3_z) { reconstruct<reconstruction::WENO2<Euler<3>>, SpecWENO2, Euler<3>, 3, 2>(); }
AV_CONTRACT(P08, weno2_euler2_y) { reconstruct<reconstruction::WENO2<Euler<2>>, SpecWENO2, Euler<2>, 2, 1>(); }
// the unreconstructed scheme
template<int dim> void none() {
    reconstruction::NoReconstruction rec;
    const long g = rec.getNumberOfGhostCells();
    av_eq("one ghost cell", double(g), 1);
    const long tx = av_int("tx", 2 * g + 1, 100000), nx = tx - 2 * g;
    const long ty = dim > 1 ? av_int("ty", 2 * g + 2, 100000) : 1, ny = dim > 1 ? ty - 2 * g : 1;
    const long tz = dim > 2 ? av_int("tz", 2 * g + 2, 100000) : 1, nz = dim > 2 ? tz - 2 * g : 1;
    auto u = spec::makeVolume(2, nx, ny, nz, g);
    auto l = spec::makeVolume(2, nx, ny, nz, g);
    auto r = spec::makeVolume(2, nx, ny, nz, g);
    spec::arbitrary(*u, spec::U);
    const double* uold[2] = {spec::old(*u, 0), spec::old(*u, 1)};
    av_cover("copies");
    av_nothrow("reconstruction is defined for every size");
    rec.performReconstruction(*u, av_int("direction", 0, dim - 1), 0, *l, *r);
    const long x = av_int("x", 0, 100000), y = dim > 1 ? av_int("y", 0, 100000) : 0, z = dim > 2 ? av_int("z", 0, 100000) : 0;
    av_assume(x < tx && y < ty && z < tz);
    const long i = (z * ty + y) * tx + x;
    for (int v = 0; v < 2; ++v) {
        av_eq("the input is not modified", spec::get(*u, v, x, y, z), uold[v][i]);
        av_eq("left value is the cell value", spec::get(*l, v, x, y, z), uold[v][i]);
        av_eq("right value is the cell value", spec::get(*r, v, x, y, z), uold[v][i]);
    }
}
AV_CONTRACT(P08, none_1d) { none<1>(); }
AV_CONTRACT(P08, none_3d) { none<3>(); }
// positivity preserving reconstruction of the Euler equations
template<int n> void wenof() {
    auto ep = spec::gasParameters();
    Euler<n> eq(ep);
    static const char* const nm[3][5] = {{"rhoA", "pA", "uA", "vA", "wA"}, {"rhoB", "pB", "uB", "vB", "wB"}, {"rhoC", "pC", "uC", "vC", "wC"}};
    auto u = spec::makeVolume(spec::eulerNames(n), 1, 1, 1, 1);
    auto l = spec::makeVolume(spec::eulerNames(n), 1, 1, 1, 1);
    auto r = spec::makeVolume(spec::eulerNames(n), 1, 1, 1, 1);
    double q[3][5];         // rho, velocity, p
    for (int c = 0; c < 3; ++c) {
        auto s = spec::Gas<n>::any(eq, nm[c]);
        q[c][0] = s.rho; q[c][n + 1] = s.p;
        for (int d = 0; d < n; ++d) q[c][1 + d] = s.u[d];
        auto k = s.conserved();
        u->getScalarMemoryArea(0)->getPointer()[c] = k.rho;
        for (int d = 0; d < n; ++d) u->getScalarMemoryArea(1 + d)->getPointer()[c] = k.m[d];
        u->getScalarMemoryArea(n + 1)->getPointer()[c] = k.E;
    }
    typename Euler<n>::ConstViews in(*u);
    typename Euler<n>::Views L(*l), R(*r);
    av_cover("reconstructs");
    av_nothrow("reconstruction is defined for every state");
    reconstruction::WENOF2<Euler<n>>::reconstruct(eq, in, 1, 0, 0, L, R, true, false, false);
    // weights of the two differences: 1/3 away from the face, 2/3 on its side, scaled by the smoothness of the density
    const double bu = (q[2][0] - q[1][0]) * (q[2][0] - q[1][0]), bd = (q[1][0] - q[0][0]) * (q[1][0] - q[0][0]);
    const double eps = ALSFVM_WENO_EPSILON;
    const double e = q[1][n + 1] / (eq.getGamma() - 1);
    for (int side = 0; side < 2; ++side) {
        const double au = (side ? 2 : 1) / (3 * (eps + bu) * (eps + bu)), ad = (side ? 1 : 2) / (3 * (eps + bd) * (eps + bd));
        const double wu = au / (au + ad), wd = ad / (au + ad);
        double d[5], du = 0, ud = 0;
        for (int k = 0; k < n + 2; ++k) d[k] = wd * (q[1][k] - q[0][k]) + wu * (q[2][k] - q[1][k]);
        for (int k = 0; k < n + 2; k += n + 1) d[k] = fmax(-1.9 * q[1][k], fmin(1.9 * q[1][k], d[k]));
        for (int k = 1; k <= n; ++k) { du += d[k] * d[k]; ud += q[1][k] * d[k]; }
        const double rho = q[1][0];
        const double need = 0.125 * rho * du - 0.5 * fmin(0.0, d[0] * ud) + 0.5 * d[0] * d[0] * du / rho;
        const double a = 0.5 * sqrt(e / fmax(e, need));
        double v[5];
        for (int k = 0; k < n + 2; ++k) v[k] = side ? q[1][k] + a * d[k] : q[1][k] - a * d[k];
        auto& o = side ? *r : *l;
        double m2 = 0;
        av_eq("density at the face is the limited primitive value", spec::get(o, 0, 1, 0, 0), v[0]);
        for (int k = 1; k <= n; ++k) { av_eq("momentum at the face", spec::get(o, k, 1, 0, 0), v[0] * v[k]); m2 += v[k] * v[k]; }
        av_eq("energy at the face", spec::get(o, n + 1, 1, 0, 0), v[n + 1] / (eq.getGamma() - 1) + 0.5 * v[0] * m2);
    }
}
AV_CONTRACT(P08, wenof2_euler1) { wenof<1>(); }
AV_CONTRACT(P08, wenof2_euler2) { wenof<2>(); }
// the values above are admissible: the slope is at most 1.9 times the cell value and at most half of it is added
AV_CONTRACT(P08, wenof2_positive) {
    const double v = av_pos("v"), x = av_real("slope"), e = av_pos("e"), need = av_real("need");
    const double d = -least(-least(x, 1.9 * v), 1.9 * v);
    const double a = 0.5 * sqrt(e / -least(-e, -need));
    av_cover("positive");
    av_lt("density and pressure stay positive at the lower face", 0, v - a * d);
    av_lt("density and pressure stay positive at the upper face", 0, v + a * d);
}
