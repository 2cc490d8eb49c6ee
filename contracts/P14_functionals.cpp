// AV-SOURCES: alsfvm/src/functional/Moment.cpp alsfvm/src/functional/Identity.cpp alsfvm/src/functional/BoundedVariation.cpp alsfvm/src/functional/LogEntropy.cpp alsfvm/src/functional/Functional.cpp alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/grid/Grid.cpp
#include "common.hpp"
#include <functional>
#include <cmath>
#include <map>
#include <set>
#include <sstream>
// assumed: boost's Legendre polynomials are functions of degree and point
#define BOOST_MATH_SPECIAL_LEGENDRE_HPP
namespace boost { namespace math { inline double legendre_p(int n, double x) { return av_fun("legendre", 2, double(n), x); } } }
#include "alsfvm/memory/HostMemory.hpp"
#define private public
#define protected public
#include "alsfvm/functional/Functional.hpp"
#include "alsfvm/functional/Moment.hpp"
#include "alsfvm/functional/Identity.hpp"
#include "alsfvm/functional/BoundedVariation.hpp"
#include "alsfvm/functional/LogEntropy.hpp"
#include "alsfvm/functional/Legendre.hpp"
#include "alsfvm/functional/LegendrePointWise.hpp"
#undef private
#undef protected
#include "alsfvm/functional/FunctionalFactory.hpp"
#include "alsfvm/src/functional/Legendre.cpp"
#include "alsfvm/src/functional/LegendrePointWise.cpp"
using namespace alsfvm;
namespace {
char parametersStorage[256];
const functional::Functional::Parameters& given() { return *reinterpret_cast<functional::Functional::Parameters*>(parametersStorage); }
double gammaGiven, lowGiven, highGiven;
int degreeGiven, kGiven, nGiven, mGiven;
bool namesGiven = false;
}
namespace alsutils { namespace parameters {
int Parameters::getInteger(const std::string& n) const { return n == "degree" ? degreeGiven : n == "degree_k" ? kGiven : n == "degree_n" ? nGiven : mGiven; }
double Parameters::getDouble(const std::string& n) const { return n == "gamma" ? gammaGiven : n == "minValue" ? lowGiven : highGiven; }
std::string Parameters::getString(const std::string&) const { return "f"; }
bool Parameters::contains(const std::string&) const { return namesGiven; }
std::vector<std::string> Parameters::getStringVectorFromString(const std::string&) const { return {"b"}; }
} }
namespace alsfvm { namespace functional {
void FunctionalFactory::registerFunctional(const std::string&, const std::string&, FunctionalCreator) {}
} }
namespace {
struct Sizes { long nx, ny, nz, g; long gx() const { return g; } long gy() const { return ny > 1 ? g : 0; } long gz() const { return nz > 1 ? g : 0; } };
Sizes sizes(int dim) { return {av_int("nx", 2, 1000), dim > 1 ? av_int("ny", 2, 1000) : 1, dim > 2 ? av_int("nz", 2, 1000) : 1, av_int("g", 0, 10)}; }
grid::Grid gridOf(const Sizes& s) {
    av_shape(3 * s.nx, s.ny, s.nz);     // the midpoints
    return grid::Grid(rvec3(av_real("ox"), av_real("oy"), av_real("oz")), rvec3(av_real("tx"), av_real("ty"), av_real("tz")), ivec3(s.nx, s.ny, s.nz));
}
double mag(double a) { return a < 0 ? -a : a; }
double sq(double a) { return a * a; }

template<int dim> void moment() {
    const Sizes s = sizes(dim);
    degreeGiven = av_int("degree", 1, 9);
    functional::Moment f(given());
    auto in = spec::makeVolume(2, s.nx, s.ny, s.nz, s.g), out = spec::makeVolume(2, s.nx, s.ny, s.nz, s.g);
    spec::arbitrary(*in, spec::U); spec::arbitrary(*out, spec::V);
    auto g = gridOf(s);
    const ivec3 fs = f.getFunctionalSize(g), gs = f.getGhostCellSizes(g, *in);
    av_assert("a moment per cell", fs.x == s.nx && fs.y == s.ny && fs.z == s.nz && gs.x == s.gx() && gs.y == s.gy() && gs.z == s.gz());
    const double w = av_real("weight");
    const double* o[2] = {spec::old(*out, 0), spec::old(*out, 1)};
    const double* u[2] = {spec::old(*in, 0), spec::old(*in, 1)};
    av_nothrow("states are accepted");
    f(*out, *in, w, g);
    av_cover("evaluated");
    const long i = av_int("cell", 0, 1000000000);
    av_assume(i < (s.nx + 2 * s.gx()) * (s.ny + 2 * s.gy()) * (s.nz + 2 * s.gz()));
    for (int v = 0; v < 2; ++v) {
        av_eq("each cell gets weight * value^degree", out->getScalarMemoryArea(v)->getPointer()[i], o[v][i] + w * std::pow(u[v][i], double(degreeGiven)));
        av_eq("the state is not modified", in->getScalarMemoryArea(v)->getPointer()[i], u[v][i]);
    }
}
template<class F, class Value> void pointwise(int dim, F& f, Value value, int first, int last) {
    const Sizes s = sizes(dim);
    auto in = spec::makeVolume(2, s.nx, s.ny, s.nz, s.g), out = spec::makeVolume(2, s.nx, s.ny, s.nz, 0);
    spec::arbitrary(*in, spec::U);
    av_shape(s.nx, s.ny, s.nz);
    spec::arbitrary(*out, spec::V);
    auto g = gridOf(s);
    const ivec3 fs = f.getFunctionalSize(g), gs = f.getGhostCellSizes(g, *in);
    av_assert("one value per cell, no ghost cells", fs.x == s.nx && fs.y == s.ny && fs.z == s.nz && gs.x == 0 && gs.y == 0 && gs.z == 0);
    const double w = av_real("weight");
    const double* o[2] = {spec::old(*out, 0), spec::old(*out, 1)};
    const double* u[2] = {spec::old(*in, 0), spec::old(*in, 1)};
    av_nothrow("states are accepted");
    f(*out, *in, w, g);
    av_cover("evaluated");
    const long x = av_int("x", 0, 1000), y = av_int("y", 0, 1000), z = av_int("z", 0, 1000);
    av_assume(x < s.nx & y < s.ny & z < s.nz);
    const long tx = s.nx + 2 * s.gx(), ty = s.ny + 2 * s.gy();
    const long from = ((z + s.gz()) * ty + y + s.gy()) * tx + x + s.gx(), to = (z * s.ny + y) * s.nx + x;
    for (int v = 0; v < 2; ++v) {
        const double add = v >= first && v <= last ? w * value(u[v][from]) : 0;
        av_eq("each cell gets weight * (function of the value of the cell)", out->getScalarMemoryArea(v)->getPointer()[to], o[v][to] + add);
        av_eq("the state is not modified", in->getScalarMemoryArea(v)->getPointer()[from], u[v][from]);
    }
}
}
AV_CONTRACT(P14, moment_1d) { moment<1>(); }
AV_CONTRACT(P14, moment_2d) { moment<2>(); }
AV_CONTRACT(P14, moment_3d) { moment<3>(); }
namespace { double same(double a) { return a; } }
AV_CONTRACT(P14, identity_1d) { functional::Identity f(given()); pointwise(1, f, same, 0, 1); }
AV_CONTRACT(P14, identity_2d) { functional::Identity f(given()); pointwise(2, f, same, 0, 1); }
AV_CONTRACT(P14, identity_3d) { functional::Identity f(given()); pointwise(3, f, same, 0, 1); }
namespace {
double scaledPolynomial(double a) { return av_fun("legendre", 2, double(degreeGiven), (a - lowGiven) / (highGiven - lowGiven)); }
void legendrePointwise(bool names) {
    lowGiven = av_real("low"); highGiven = av_real("high");
    av_assume(lowGiven < highGiven);
    degreeGiven = av_int("degree", 0, 9);
    namesGiven = names;
    functional::LegendrePointWise f(given());
    pointwise(2, f, scaledPolynomial, names ? 1 : 0, 1);
}
}
AV_CONTRACT(P14, legendre_pointwise) { legendrePointwise(false); }
AV_CONTRACT(P14, legendre_pointwise_named) { legendrePointwise(true); }
namespace {
// the variation of a field: the sum over the inner cells, first row and column excluded
double variationSpec(const double* u, const Sizes& s, int p) {
    const long tx = s.nx + 2 * s.gx();
    double sum = 0;
    for (long y = s.gy() + (s.ny > 1 ? 1 : 0); y < s.ny + s.gy(); ++y)
        for (long x = s.gx() + 1; x < s.nx + s.gx(); ++x) {
            const long i = y * tx + x;
            const double dy = s.ny > 1 ? u[i] - u[i - tx] : 0, dx = u[i] - u[i - 1];
            sum += std::pow(std::sqrt(sq(dy) + sq(dx)), p);
        }
    return sum;
}
template<int dim> void boundedVariation() {
    const Sizes s = sizes(dim);
    degreeGiven = av_int("degree", 1, 9);
    functional::BoundedVariation f(given());
    auto in = spec::makeVolume(2, s.nx, s.ny, s.nz, s.g), out = spec::makeVolume(2, 1, 1, 1, 0);
    spec::arbitrary(*in, spec::U);
    av_shape(1, 1, 1);
    spec::arbitrary(*out, spec::V);
    auto g = gridOf(s);
    const ivec3 fs = f.getFunctionalSize(g), gs = f.getGhostCellSizes(g, *in);
    av_assert("one number per variable", fs.x == 1 && fs.y == 1 && fs.z == 1 && gs.x == 0 && gs.y == 0 && gs.z == 0);
    const double w = av_real("weight");
    const double o[2] = {spec::get(*out, 0, 0, 0, 0), spec::get(*out, 1, 0, 0, 0)};
    const double* u[2] = {spec::old(*in, 0), spec::old(*in, 1)};
    av_nothrow("states are accepted");
    f(*out, *in, w, g);
    av_cover("evaluated");
    for (int v = 0; v < 2; ++v)
        av_eq("the variation of the inner cells is added with its weight", spec::get(*out, v, 0, 0, 0), o[v] + w * variationSpec(u[v], s, degreeGiven));
}
template<int dim> void variationAlong(int d) {
    const Sizes s = sizes(dim);
    const int p = av_int("p", 1, 9);
    auto in = spec::makeVolume(1, s.nx, s.ny, s.nz, s.g);
    spec::arbitrary(*in, spec::U);
    const double* u = spec::old(*in, 0);
    const long tx = s.nx + 2 * s.gx(), ty = s.ny + 2 * s.gy(), stride = d == 0 ? 1 : d == 1 ? tx : tx * ty;
    av_nothrow("the directions of the grid are accepted");
    const double got = in->getScalarMemoryArea(0)->getTotalVariation(d, p, in->getNumberOfGhostCells(), in->getSize() - in->getNumberOfGhostCells());
    av_cover("evaluated");
    double sum = 0;
    for (long z = s.gz() + (d == 2); z < s.nz + s.gz(); ++z) for (long y = s.gy() + (d == 1); y < s.ny + s.gy(); ++y) for (long x = s.gx() + (d == 0); x < s.nx + s.gx(); ++x) {
        const long i = (z * ty + y) * tx + x;
        sum += std::pow(mag(u[i] - u[i - stride]), p);
    }
    av_eq("the variation along a direction sums the jumps between neighbours in that direction", got, sum);
}
}
AV_CONTRACT(P14, variation_1d) { boundedVariation<1>(); }
AV_CONTRACT(P14, variation_2d) { boundedVariation<2>(); }
AV_CONTRACT(P14, variation_along_x_1d) { variationAlong<1>(0); }
AV_CONTRACT(P14, variation_along_x_2d) { variationAlong<2>(0); }
AV_CONTRACT(P14, variation_along_y_2d) { variationAlong<2>(1); }
AV_CONTRACT(P14, variation_along_x_3d) { variationAlong<3>(0); }
AV_CONTRACT(P14, variation_along_y_3d) { variationAlong<3>(1); }
AV_CONTRACT(P14, variation_along_z_3d) { variationAlong<3>(2); }
namespace {
template<int dim> void logEntropy() {
    const Sizes s = sizes(dim);
    gammaGiven = av_real("gamma");
    av_assume(gammaGiven > 1);
    functional::LogEntropy f(given());
    auto in = spec::makeVolume(spec::eulerNames(dim), s.nx, s.ny, s.nz, s.g), out = spec::makeVolume(spec::eulerNames(dim), 1, 1, 1, 0);
    spec::arbitrary(*in, spec::U);
    av_shape(1, 1, 1);
    spec::arbitrary(*out, spec::V);
    auto g = gridOf(s);
    const ivec3 fs = f.getFunctionalSize(g);
    av_assert("one number", fs.x == 1 && fs.y == 1 && fs.z == 1);
    const double w = av_real("weight");
    double o[5];
    for (int v = 0; v < dim + 2; ++v) o[v] = spec::get(*out, v, 0, 0, 0);
    const double* u[5];
    for (int v = 0; v < dim + 2; ++v) u[v] = spec::old(*in, v);
    const rvec3 h = g.getCellLengths();
    f(*out, *in, w, g);
    av_cover("evaluated");
    const long tx = s.nx + 2 * s.gx(), ty = s.ny + 2 * s.gy();
    double sum = 0;
    for (long z = s.gz(); z < s.nz + s.gz(); ++z) for (long y = s.gy(); y < s.ny + s.gy(); ++y) for (long x = s.gx(); x < s.nx + s.gx(); ++x) {
        const long i = (z * ty + y) * tx + x;
        double m2 = 0;
        for (int d = 0; d < dim; ++d) m2 += sq(u[1 + d][i]);
        const double p = (gammaGiven - 1) * (u[dim + 1][i] - m2 / (2 * u[0][i]));
        const double entropy = -u[0][i] * (std::log(p) - gammaGiven * std::log(u[0][i])) / (gammaGiven - 1);
        sum += entropy * (h.x * h.y * h.z);
    }
    av_eq("the entropy of the inner cells is integrated", spec::get(*out, dim + 1, 0, 0, 0), o[dim + 1] + w * sum);
    for (int v = 0; v < dim + 1; ++v) av_eq("nothing else is written", spec::get(*out, v, 0, 0, 0), o[v]);
}
}
AV_CONTRACT(P14, log_entropy_1d) { logEntropy<1>(); }
AV_CONTRACT(P14, log_entropy_2d) { logEntropy<2>(); }
AV_CONTRACT(P14, log_entropy_3d) { logEntropy<3>(); }
namespace {
// the Legendre functionals are defined for two dimensional grids only, and say so
template<int dim, class F> void refused() {
    lowGiven = 0; highGiven = 1; kGiven = nGiven = mGiven = degreeGiven = 1;
    F f(given());
    const Sizes s = sizes(dim);
    auto in = spec::makeVolume(1, s.nx, s.ny, s.nz, s.g), out = spec::makeVolume(1, s.nx, s.ny, s.nz, 0);
    auto g = gridOf(s);
    av_cover("called");
    av_maythrow();
    f(*out, *in, 1, g);
    av_assert("grids of other dimensions are refused", false);
}
}
AV_CONTRACT(P14, legendre_refused_1d) { refused<1, functional::Legendre>(); }
AV_CONTRACT(P14, legendre_refused_3d) { refused<3, functional::Legendre>(); }
AV_CONTRACT(P14, legendre_pointwise_refused_1d) { refused<1, functional::LegendrePointWise>(); }
AV_CONTRACT(P14, legendre_pointwise_refused_3d) { refused<3, functional::LegendrePointWise>(); }
AV_CONTRACT(P14, legendre) {
    lowGiven = av_real("low"); highGiven = av_real("high");
    av_assume(lowGiven < highGiven);
    kGiven = av_int("k", 0, 9); nGiven = av_int("n", 0, 9); mGiven = av_int("m", 0, 9);
    namesGiven = av_bool("names");
    functional::Legendre f(given());
    const Sizes s = sizes(2);
    const double ox = av_real("ox"), oy = av_real("oy"), tx = av_real("tx"), ty = av_real("ty");
    av_assume(tx > ox && ty > oy);
    auto in = spec::makeVolume(2, s.nx, s.ny, 1, s.g), out = spec::makeVolume(2, 1, 1, 1, 0);
    spec::arbitrary(*in, spec::U);
    av_shape(1, 1, 1);
    spec::arbitrary(*out, spec::V);
    auto g = gridOf(s);
    const double w = av_real("weight");
    const double o[2] = {spec::get(*out, 0, 0, 0, 0), spec::get(*out, 1, 0, 0, 0)};
    const double* u[2] = {spec::old(*in, 0), spec::old(*in, 1)};
    av_nothrow("two dimensional grids are accepted");
    f(*out, *in, w, g);
    av_cover("evaluated");
    const double hx = (tx - ox) / s.nx, hy = (ty - oy) / s.ny;
    for (int v = 0; v < 2; ++v) {
        double sum = 0;
        for (long y = 0; y < s.ny; ++y) for (long x = 0; x < s.nx; ++x) {
            const double cx = ox + hx * x + hx / 2, cy = oy + hy * y + hy / 2, a = (u[v][(y + s.g) * (s.nx + 2 * s.g) + x + s.g] - lowGiven) / (highGiven - lowGiven);
            sum += av_fun("legendre", 2, double(kGiven), 2 * (cx - ox) / (tx - ox) - 1) * av_fun("legendre", 2, double(nGiven), 2 * (cy - oy) / (ty - oy) - 1) * av_fun("legendre", 2, double(mGiven), a) * (hx * hy);
        }
        av_eq("the product of the polynomials is integrated over the inner cells", spec::get(*out, v, 0, 0, 0), o[v] + (namesGiven && v == 0 ? 0 : w * sum));
    }
}
