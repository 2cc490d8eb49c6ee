// AV-SOURCES: alsfvm/src/volume/Volume.cpp alsfvm/src/volume/VolumeFactory.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/equation/euler/Euler.cpp alsfvm/src/equation/burgers/Burgers.cpp alsfvm/src/equation/euler/EulerParameters.cpp alsfvm/src/equation/EquationParameters.cpp alsfvm/src/simulator/SimulatorParameters.cpp alsfvm/src/reconstruction/tecno/NoReconstruction.cpp
// AV-OPT .*_3d: weight=5
#include "common.hpp"
#include "alsfvm/src/diffusion/TecnoDiffusionCPU.cpp"
#include "alsfvm/reconstruction/tecno/NoReconstruction.hpp"
#include "alsfvm/equation/euler/EulerParameters.hpp"
using namespace alsfvm;
namespace {
// an arbitrary system of three equations: every entry of the eigenvector matrix and every entropy
// variable is an unknown function of the state (and the direction)
struct AnySystem : equation::euler::Euler<1> {
    typedef equation::euler::Euler<1> Base;
    typedef Base::ConservedVariables C;
    static const int n = 3;
    AnySystem(const equation::euler::EulerParameters& p) : Base(p) {}
    static double component(const C& c, int i) { return i == 0 ? c.rho : i == 1 ? c.m[0] : c.E; }
    static C make(const double* v) { C c; c.rho = v[0]; c.m[0] = v[1]; c.E = v[2]; return c; }
    static const char* name() { return "euler1"; }
    typedef equation::euler::EulerParameters Par;
    template<int dir> matrix3 computeEigenVectorMatrix(const C& c) const {
        static const char* const nm[3][3] = {{"R00", "R01", "R02"}, {"R10", "R11", "R12"}, {"R20", "R21", "R22"}};
        matrix3 m;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = av_fun(nm[i][j], 4, c.rho, c.m[0], c.E, double(dir));
        return m;
    }
    template<int dir> rvec3 computeEigenValues(const C&) const {
        return rvec3(av_real("lam0"), av_real("lam1"), av_real("lam2"));
    }
    rvec3 computeEntropyVariables(const C& c) const {
        return rvec3(av_fun("ent0", 3, c.rho, c.m[0], c.E), av_fun("ent1", 3, c.rho, c.m[0], c.E), av_fun("ent2", 3, c.rho, c.m[0], c.E));
    }
};
// an arbitrary scalar equation
struct AnyScalar : equation::burgers::Burgers {
    typedef equation::burgers::Burgers Base;
    typedef Base::ConservedVariables C;
    static const int n = 1;
    AnyScalar(const equation::EquationParameters& p) : Base(p) {}
    static double component(const C& c, int) { return c.u; }
    static C make(const double* v) { return C(v[0]); }
    static const char* name() { return "burgers"; }
    typedef equation::EquationParameters Par;
    template<int dir> matrix1 computeEigenVectorMatrix(const C& c) const { matrix1 m; m(0, 0) = av_fun("R00", 2, c.u, double(dir)); return m; }
    rvec1 computeEntropyVariables(const C& c) const { return rvec1(av_fun("ent0", 1, c.u)); }
};
// an arbitrary diffusion matrix in characteristic variables
template<class Eq, int dir> struct AnyMatrix {
    typename Eq::ConservedVariables c;
    AnyMatrix(const Eq&, const typename Eq::ConservedVariables& c) : c(c) {}
    static double entry(const typename Eq::ConservedVariables& c, int i) {
        static const char* const nm[3] = {"M0", "M1", "M2"};
        if (Eq::n == 1) return av_fun(nm[i], 2, Eq::component(c, 0), double(dir));
        return av_fun(nm[i], 4, Eq::component(c, 0), Eq::component(c, 1), Eq::component(c, 2), double(dir));
    }
    template<class V> V operator*(const V& in) {
        V out;
        for (int i = 0; i < Eq::n; ++i) out[i] = entry(c, i) * in[i];
        return out;
    }
};
struct Flux { double v[3]; };
// D_{i+1/2} = 1/2 R M R^T (v_{i+1} - v_i), with R and M at the mean state
template<class Eq, int dir> Flux face(const Eq& eq, const typename Eq::C& a, const typename Eq::C& b) {
    double c[3];
    for (int k = 0; k < Eq::n; ++k) c[k] = 0.5 * (Eq::component(a, k) + Eq::component(b, k));
    const auto mean = Eq::make(c);
    auto R = eq.template computeEigenVectorMatrix<dir>(mean);
    auto va = eq.computeEntropyVariables(a), vb = eq.computeEntropyVariables(b);
    Flux r = {{0, 0, 0}};
    for (int j = 0; j < Eq::n; ++j) {
        double jump = 0;
        for (int k = 0; k < Eq::n; ++k) jump += R(k, j) * vb[k] - R(k, j) * va[k];
        for (int i = 0; i < Eq::n; ++i) r.v[i] += 0.5 * R(i, j) * AnyMatrix<Eq, dir>::entry(mean, j) * jump;
    }
    return r;
}
template<class Eq, int dim> void diffuse(bool again = false, bool same = false) {
    const int n = Eq::n;
    alsfvm::shared_ptr<DeviceConfiguration> dc(new DeviceConfiguration("cpu"));
    alsfvm::shared_ptr<memory::MemoryFactory> mf(new memory::MemoryFactory(dc));
    volume::VolumeFactory vf(Eq::name(), mf);
    simulator::SimulatorParameters par;
    auto ep = new typename Eq::Par();
    par.setEquationParameters(alsfvm::shared_ptr<equation::EquationParameters>(ep));
    alsfvm::shared_ptr<reconstruction::tecno::TecnoReconstruction> rec(new reconstruction::tecno::NoReconstruction);
    diffusion::TecnoDiffusionCPU<Eq, AnyMatrix> op(vf, rec, par);
    const long g = op.getNumberOfGhostCells();
    const long tx = av_int("tx", 2 * g + 1, 100000), nx = tx - 2 * g;
    const long ty = dim > 1 ? av_int("ty", 2 * g + 2, 100000) : 1, ny = dim > 1 ? ty - 2 * g : 1;
    const long tz = dim > 2 ? av_int("tz", 2 * g + 2, 100000) : 1, nz = dim > 2 ? tz - 2 * g : 1;
    const auto names = n == 1 ? spec::scalarName() : spec::eulerNames(1);
    if (again) {
        // the same operator has been applied before: on a grid of another size, or of the same size
        long sx = nx, sy = ny, sz = nz;
        if (!same) {
            sx = av_int("sx", 2 * g + 1, 100000) - 2 * g;
            if (dim > 1) sy = av_int("sy", 2 * g + 2, 100000) - 2 * g;
            if (dim > 2) sz = av_int("sz", 2 * g + 2, 100000) - 2 * g;
            av_assume(sx != nx || sy != ny || sz != nz);
        }
        auto before = spec::makeVolume(names, sx, sy, sz, g), where = spec::makeVolume(names, sx, sy, sz, g);
        spec::arbitrary(*before, spec::V);
        spec::arbitrary(*where, spec::W);
        op.applyDiffusion(*where, *before);
    }
    auto u = spec::makeVolume(names, nx, ny, nz, g);
    auto out = spec::makeVolume(names, nx, ny, nz, g);
    spec::arbitrary(*u, spec::U);
    spec::arbitrary(*out, spec::P);
    const double* uold[3], *pold[3];
    for (int k = 0; k < n; ++k) { uold[k] = spec::old(*u, k); pold[k] = spec::old(*out, k); }
    Eq eq(*ep);
    av_cover("diffusion");
    av_nothrow("diffusion is defined for every size");
    op.applyDiffusion(*out, *u);
    const long x = av_int("x", 0, 100000), y = dim > 1 ? av_int("y", 0, 100000) : 0, z = dim > 2 ? av_int("z", 0, 100000) : 0;
    av_assume(x < tx && y < ty && z < tz);
    const long i = (z * ty + y) * tx + x;
    for (int k = 0; k < n; ++k) av_eq("the state is not modified", spec::get(*u, k, x, y, z), uold[k][i]);
    av_assume(x >= g && x < tx - g);
    if (dim > 1) av_assume(y >= g && y < ty - g);
    if (dim > 2) av_assume(z >= g && z < tz - g);
    auto state = [&](long a, long b, long c) { const long j = (c * ty + b) * tx + a; double v[3]; for (int k = 0; k < n; ++k) v[k] = uold[k][j]; return Eq::make(v); };
    const auto m = state(x, y, z);
    double want[3];
    for (int k = 0; k < n; ++k) want[k] = pold[k][i];
    { auto a = face<Eq, 0>(eq, m, state(x + 1, y, z)), b = face<Eq, 0>(eq, state(x - 1, y, z), m); for (int k = 0; k < n; ++k) want[k] += a.v[k] - b.v[k]; }
    if (dim > 1) { auto a = face<Eq, 1>(eq, m, state(x, y + 1, z)), b = face<Eq, 1>(eq, state(x, y - 1, z), m); for (int k = 0; k < n; ++k) want[k] += a.v[k] - b.v[k]; }
    if (dim > 2) { auto a = face<Eq, 2>(eq, m, state(x, y, z + 1)), b = face<Eq, 2>(eq, state(x, y, z - 1), m); for (int k = 0; k < n; ++k) want[k] += a.v[k] - b.v[k]; }
    for (int k = 0; k < n; ++k) av_eq("diffusion adds D(upper face) - D(lower face) in every direction", spec::get(*out, k, x, y, z), want[k]);
}
}
namespace {
// an arbitrary reconstruction: its results are any functions of what it is given
struct Case {
    long tx, ty, tz, dims;
    const double* u[3];
    const double *lo[3][3], *ro[3][3];
} now;
template<class Eq> typename Eq::C cell(long x, long y, long z) {
    double v[3];
    const long i = (z * now.ty + y) * now.tx + x;
    for (int k = 0; k < Eq::n; ++k) v[k] = now.u[k][i];
    return Eq::make(v);
}
template<class Eq> typename Eq::C mean(const typename Eq::C& a, const typename Eq::C& b) {
    double c[3];
    for (int k = 0; k < Eq::n; ++k) c[k] = 0.5 * (Eq::component(a, k) + Eq::component(b, k));
    return Eq::make(c);
}
// component j of R^T v(a), with R at the mean of a and b
template<class Eq, int dir> double scaled(const Eq& eq, const typename Eq::C& a, const typename Eq::C& b, int j) {
    auto R = eq.template computeEigenVectorMatrix<dir>(mean<Eq>(a, b));
    auto v = eq.computeEntropyVariables(a);
    double s = 0;
    for (int k = 0; k < Eq::n; ++k) s += R(k, j) * v[k];
    return s;
}
template<class Eq> struct AnyReconstruction : reconstruction::tecno::TecnoReconstruction {
    Eq* eq;
    long ghosts;
    size_t getNumberOfGhostCells() const override { return ghosts; }
    template<int d> void inputs(volume::Volume& l, volume::Volume& r) {
        const long x = av_int(d == 0 ? "xi0" : d == 1 ? "xi1" : "xi2", 0, 100000), y = now.dims > 1 ? av_int(d == 0 ? "yi0" : d == 1 ? "yi1" : "yi2", 0, 100000) : 0;
        const long z = now.dims > 2 ? av_int(d == 0 ? "zi0" : d == 1 ? "zi1" : "zi2", 0, 100000) : 0;
        const long dx = d == 0, dy = d == 1, dz = d == 2;
        av_assume(x + dx < now.tx && y + dy < now.ty && z + dz < now.tz);
        const auto a = cell<Eq>(x, y, z), b = cell<Eq>(x + dx, y + dy, z + dz);
        for (int j = 0; j < Eq::n; ++j) {
            av_eq("the reconstruction is given the entropy variables scaled at the lower face", spec::get(l, j, x + dx, y + dy, z + dz), scaled<Eq, d>(*eq, b, a, j));
            av_eq("the reconstruction is given the entropy variables scaled at the upper face", spec::get(r, j, x, y, z), scaled<Eq, d>(*eq, a, b, j));
        }
    }
    void performReconstruction(const volume::Volume& l, const volume::Volume& r, size_t direction, volume::Volume& lo, volume::Volume& ro) override {
        av_assert("one reconstruction in each direction of the grid", direction < size_t(now.dims) && now.lo[direction][0] == nullptr);
        av_assert("reconstruction into other volumes", &lo != &ro && &l != &lo && &l != &ro && &r != &lo && &r != &ro);
        if (direction == 0) inputs<0>(const_cast<volume::Volume&>(l), const_cast<volume::Volume&>(r));
        else if (direction == 1) inputs<1>(const_cast<volume::Volume&>(l), const_cast<volume::Volume&>(r));
        else inputs<2>(const_cast<volume::Volume&>(l), const_cast<volume::Volume&>(r));
        spec::arbitrary(lo, direction == 0 ? spec::V : direction == 1 ? spec::W : U3);
        spec::arbitrary(ro, direction == 0 ? spec::Q : direction == 1 ? U2 : U4);
        for (int k = 0; k < Eq::n; ++k) { now.lo[direction][k] = spec::old(lo, k); now.ro[direction][k] = spec::old(ro, k); }
    }
    static const char* const U2[6], * const U3[6], * const U4[6];
};
template<class Eq> const char* const AnyReconstruction<Eq>::U2[6] = {"s0", "s1", "s2", "s3", "s4", "s5"};
template<class Eq> const char* const AnyReconstruction<Eq>::U3[6] = {"t0", "t1", "t2", "t3", "t4", "t5"};
template<class Eq> const char* const AnyReconstruction<Eq>::U4[6] = {"h0", "h1", "h2", "h3", "h4", "h5"};
template<class Eq, int dir> Flux faceReconstructed(const Eq& eq, long x, long y, long z) {
    const long X = x + (dir == 0), Y = y + (dir == 1), Z = z + (dir == 2), i = (z * now.ty + y) * now.tx + x, j = (Z * now.ty + Y) * now.tx + X;
    const auto m = mean<Eq>(cell<Eq>(x, y, z), cell<Eq>(X, Y, Z));
    auto R = eq.template computeEigenVectorMatrix<dir>(m);
    Flux r = {{0, 0, 0}};
    for (int k = 0; k < Eq::n; ++k) for (int c = 0; c < Eq::n; ++c)
        r.v[c] += 0.5 * R(c, k) * AnyMatrix<Eq, dir>::entry(m, k) * (now.lo[dir][k][j] - now.ro[dir][k][i]);
    return r;
}
template<class Eq, int dim> void reconstructed() {
    const int n = Eq::n;
    for (auto& a : now.lo) for (auto& b : a) b = nullptr;
    now.dims = dim;
    alsfvm::shared_ptr<DeviceConfiguration> dc(new DeviceConfiguration("cpu"));
    alsfvm::shared_ptr<memory::MemoryFactory> mf(new memory::MemoryFactory(dc));
    volume::VolumeFactory vf(Eq::name(), mf);
    simulator::SimulatorParameters par;
    auto ep = new typename Eq::Par();
    par.setEquationParameters(alsfvm::shared_ptr<equation::EquationParameters>(ep));
    Eq eq(*ep);
    auto stub = new AnyReconstruction<Eq>;
    stub->eq = &eq; stub->ghosts = av_int("g", 1, 10);
    alsfvm::shared_ptr<reconstruction::tecno::TecnoReconstruction> rec(stub);
    diffusion::TecnoDiffusionCPU<Eq, AnyMatrix> op(vf, rec, par);
    const long g = op.getNumberOfGhostCells();
    av_assert("as many ghost cells as the reconstruction needs", g == stub->ghosts);
    const long nx = av_int("nx", 1, 100000), ny = dim > 1 ? av_int("ny", 2, 100000) : 1, nz = dim > 2 ? av_int("nz", 2, 100000) : 1;
    now.tx = nx + 2 * g; now.ty = dim > 1 ? ny + 2 * g : 1; now.tz = dim > 2 ? nz + 2 * g : 1;
    const auto names = n == 1 ? spec::scalarName() : spec::eulerNames(1);
    auto u = spec::makeVolume(names, nx, ny, nz, g);
    auto out = spec::makeVolume(names, nx, ny, nz, g);
    spec::arbitrary(*u, spec::U);
    spec::arbitrary(*out, spec::P);
    const double* pold[3];
    for (int k = 0; k < n; ++k) { now.u[k] = spec::old(*u, k); pold[k] = spec::old(*out, k); }
    op.applyDiffusion(*out, *u);
    av_cover("diffusion");
    for (int d = 0; d < dim; ++d) av_assert("every direction is reconstructed", now.lo[d][0] != nullptr);
    const long x = av_int("x", 0, 100000), y = dim > 1 ? av_int("y", 0, 100000) : 0, z = dim > 2 ? av_int("z", 0, 100000) : 0;
    av_assume(x >= g && x < now.tx - g);
    if (dim > 1) av_assume(y >= g && y < now.ty - g);
    if (dim > 2) av_assume(z >= g && z < now.tz - g);
    double want[3];
    for (int k = 0; k < n; ++k) want[k] = pold[k][(z * now.ty + y) * now.tx + x];
    { auto a = faceReconstructed<Eq, 0>(eq, x, y, z), b = faceReconstructed<Eq, 0>(eq, x - 1, y, z); for (int k = 0; k < n; ++k) want[k] += a.v[k] - b.v[k]; }
    if (dim > 1) { auto a = faceReconstructed<Eq, 1>(eq, x, y, z), b = faceReconstructed<Eq, 1>(eq, x, y - 1, z); for (int k = 0; k < n; ++k) want[k] += a.v[k] - b.v[k]; }
    if (dim > 2) { auto a = faceReconstructed<Eq, 2>(eq, x, y, z), b = faceReconstructed<Eq, 2>(eq, x, y, z - 1); for (int k = 0; k < n; ++k) want[k] += a.v[k] - b.v[k]; }
    for (int k = 0; k < n; ++k) av_eq("diffusion of the reconstructed jumps of the scaled entropy variables", spec::get(*out, k, x, y, z), want[k]);
}
}
AV_CONTRACT(P03, reconstructed_scalar_1d) { reconstructed<AnyScalar, 1>(); }
AV_CONTRACT(P03, reconstructed_scalar_2d) { reconstructed<AnyScalar, 2>(); }
AV_CONTRACT(P03, reconstructed_scalar_3d) { reconstructed<AnyScalar, 3>(); }
AV_CONTRACT(P03, reconstructed_system_1d) { reconstructed<AnySystem, 1>(); }
AV_CONTRACT(P03, system_1d) { diffuse<AnySystem, 1>(); }
AV_CONTRACT(P03, scalar_1d) { diffuse<AnyScalar, 1>(); }
AV_CONTRACT(P03, scalar_2d) { diffuse<AnyScalar, 2>(); }
AV_CONTRACT(P03, scalar_3d) { diffuse<AnyScalar, 3>(); }
AV_CONTRACT(P03, second_grid_1d) { diffuse<AnyScalar, 1>(true); }
AV_CONTRACT(P03, second_grid_2d) { diffuse<AnyScalar, 2>(true); }
AV_CONTRACT(P03, same_grid_1d) { diffuse<AnyScalar, 1>(true, true); }
AV_CONTRACT(P03, same_grid_2d) { diffuse<AnyScalar, 2>(true, true); }
// the two diffusion matrices in characteristic variables
AV_CONTRACT(P03, roe_matrix) {
    equation::euler::EulerParameters ep;
    AnySystem eq(ep);
    AnySystem::C c;
    diffusion::RoeMatrix<AnySystem, 0> m(eq, c);
    const rvec3 w(av_real("w0"), av_real("w1"), av_real("w2"));
    const rvec3 r = m * w;
    const char* nm[3] = {"lam0", "lam1", "lam2"};
    av_cover("multiplied");
    for (int i = 0; i < 3; ++i) {
        const double l = av_real(nm[i]);
        av_eq("Roe diffusion scales each characteristic jump by its own wave speed", r[i], (l < 0 ? -l : l) * w[i]);
    }
    av_le("Roe diffusion never produces entropy", 0, w[0] * r[0] + w[1] * r[1] + w[2] * r[2]);
}
AV_CONTRACT(P03, rusanov_matrix) {
    equation::euler::EulerParameters ep;
    AnySystem eq(ep);
    AnySystem::C c;
    diffusion::RusanovMatrix<AnySystem, 0> m(eq, c);
    const rvec3 one = m * rvec3(1, 1, 1);
    const rvec3 w(av_real("w0"), av_real("w1"), av_real("w2"));
    const rvec3 r = m * w;
    const char* nm[3] = {"lam0", "lam1", "lam2"};
    av_cover("multiplied");
    bool attained = false;
    for (int i = 0; i < 3; ++i) {
        const double l = av_real(nm[i]), a = l < 0 ? -l : l;
        av_eq("every characteristic jump is scaled by the same speed", r[i], one[0] * w[i]);
        av_le("the Rusanov speed bounds every wave speed", a, one[0]);
        attained = attained || a == one[0];
    }
    av_assert("the Rusanov speed is the largest wave speed", attained);
}
