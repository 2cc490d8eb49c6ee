// AV-SOURCES: alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp
// The states of the equations are vectors of their components, and views on a volume select its variables.
#include "common.hpp"
#include <cassert>
#include "alsfvm/equation/euler/Euler.hpp"
#include "alsfvm/equation/burgers/Burgers.hpp"
#include "alsfvm/equation/cubic/Cubic.hpp"
#include "alsfvm/equation/linear/Linear.hpp"
#include "alsfvm/equation/buckleyleverett/BuckleyLeverett.hpp"
using namespace alsfvm;
namespace {
static const char* const A[] = {"a0", "a1", "a2", "a3", "a4"};
static const char* const B[] = {"b0", "b1", "b2", "b3", "b4"};
template<int nsd> struct Conserved {
    typedef equation::euler::ConservedVariables<nsd> State;
    static const int n = nsd + 2;
    static double component(const State& s, int i) { return i == 0 ? s.rho : i <= nsd ? s.m[i - 1] : s.E; }
    static State make(const double* v) { State s; s.rho = v[0]; for (int i = 0; i < nsd; ++i) s.m[i] = v[1 + i]; s.E = v[n - 1]; return s; }
};
template<int nsd> struct Primitive {
    typedef equation::euler::PrimitiveVariables<nsd> State;
    static const int n = nsd + 2;
    static double component(const State& s, int i) { return i == 0 ? s.rho : i <= nsd ? s.u[i - 1] : s.p; }
    static State make(const double* v) { State s; s.rho = v[0]; for (int i = 0; i < nsd; ++i) s.u[i] = v[1 + i]; s.p = v[n - 1]; return s; }
};
template<class C> struct Scalar {
    typedef C State;
    static const int n = 1;
    static double component(const State& s, int) { return s.u; }
    static State make(const double* v) { State s; s.u = v[0]; return s; }
};
template<class T> void algebra() {
    double a[T::n], b[T::n];
    for (int i = 0; i < T::n; ++i) { a[i] = av_real(A[i]); b[i] = av_real(B[i]); }
    const double s = av_pos("s");
    const auto x = T::make(a), y = T::make(b);
    const auto sum = x + y, diff = x - y, scaled = s * x, part = x / s;
    const typename T::State zero;
    av_cover("computed");
    for (int i = 0; i < T::n; ++i) {
        av_eq("a new state is zero", T::component(zero, i), 0);
        av_eq("sum of states", T::component(sum, i), a[i] + b[i]);
        av_eq("difference of states", T::component(diff, i), a[i] - b[i]);
        av_eq("multiple of a state", T::component(scaled, i), s * a[i]);
        av_eq("part of a state", T::component(part, i), a[i] / s);
    }
}
template<class T> void components() {
    double a[T::n];
    for (int i = 0; i < T::n; ++i) a[i] = av_real(A[i]);
    auto x = T::make(a);
    const auto y = x;
    av_cover("indexed");
    av_assert("as many components as the state has", int(T::State::size()) == T::n);
    for (int i = 0; i < T::n; ++i) {
        av_eq("components are numbered in the order of the variables", y[i], a[i]);
        x[i] = a[i] + 1 + i;
        av_eq("a component can be set by its number", T::component(x, i), a[i] + 1 + i);
    }
}
template<int nsd, class Vec> void fromVector() {
    typedef Conserved<nsd> T;
    Vec v;
    for (int i = 0; i < T::n; ++i) v[i] = av_real(A[i]);
    const typename T::State s(v);
    av_cover("made");
    for (int i = 0; i < T::n; ++i) av_eq("a vector of components makes the state", T::component(s, i), v[i]);
    av_assert("a state equals itself", s == typename T::State(v));
    for (int i = 0; i < T::n; ++i) { Vec w = v; w[i] += av_pos("d"); av_assert("states which differ in one component differ", !(s == typename T::State(w))); }
}
struct Cell { long x, y, tx; };
Cell anyCell(volume::Volume& v) {
    Cell c{av_int("x", 0, 1000), av_int("y", 0, 1000), long(v.getTotalNumberOfXCells())};
    av_assume(c.x < c.tx && c.y < long(v.getTotalNumberOfYCells()));
    return c;
}
std::vector<std::string> extraNames(int nsd) {
    if (nsd == 1) return {"p", "ux"};
    if (nsd == 2) return {"p", "ux", "uy"};
    return {"p", "ux", "uy", "uz"};
}
template<class W, int k> void select(W& views, volume::Volume& v, const Cell& c) {
    av_eq("the view of a number is the variable of that number", views.template get<k>().at(c.x, c.y, 0), spec::get(v, k, c.x, c.y, 0));
}
template<class Eq, int n> struct Select { template<class W> static void all(W& w, volume::Volume& v, const Cell& c) { Select<Eq, n - 1>::all(w, v, c); select<W, n - 1>(w, v, c); } };
template<class Eq> struct Select<Eq, 0> { template<class W> static void all(W&, volume::Volume&, const Cell&) {} };
template<int nsd> void gasViews() {
    typedef equation::euler::Euler<nsd> Eq;
    const long nx = av_int("nx", 2, 1000), ny = av_int("ny", 2, 1000);
    auto v = spec::makeVolume(spec::eulerNames(nsd), nx, ny, 1, 0), e = spec::makeVolume(extraNames(nsd), nx, ny, 1, 0);
    spec::arbitrary(*v, spec::U);
    spec::arbitrary(*e, spec::V);
    const Cell c = anyCell(*v);
    const size_t i = c.y * c.tx + c.x;
    av_cover("a cell");
    typename Eq::Views views(*v);
    typename Eq::ViewsExtra extra(*e);
    av_assert("views address cells like the volume", views.index(c.x, c.y, 0) == i && extra.index(c.x, c.y, 0) == i);
    Select<Eq, nsd + 2>::all(views, *v, c);
    Select<Eq, nsd + 1>::all(extra, *e, c);
    for (int k = 0; k < nsd + 2; ++k) av_eq("the view of a number given at run time is that variable", views.get(k).at(c.x, c.y, 0), spec::get(*v, k, c.x, c.y, 0));
    av_eq("density", views.rho.at(i), spec::get(*v, 0, c.x, c.y, 0));
    av_eq("energy", views.E.at(i), spec::get(*v, nsd + 1, c.x, c.y, 0));
    av_eq("pressure", extra.p.at(i), spec::get(*e, 0, c.x, c.y, 0));
    for (int k = 0; k < nsd; ++k) {
        av_eq("momentum", views.m(i).template convert<real>()[k], spec::get(*v, 1 + k, c.x, c.y, 0));
        av_eq("velocity", extra.u(i).template convert<real>()[k], spec::get(*e, 1 + k, c.x, c.y, 0));
    }
}
template<class Eq> void scalarViews() {
    auto v = spec::makeVolume(spec::scalarName(), av_int("nx", 2, 1000), av_int("ny", 2, 1000), 1, 0);
    spec::arbitrary(*v, spec::U);
    const Cell c = anyCell(*v);
    const size_t i = c.y * c.tx + c.x;
    av_cover("a cell");
    typename Eq::Views views(*v);
    av_assert("views address cells like the volume", views.index(c.x, c.y, 0) == i);
    av_eq("the view of a number is the variable of that number", views.template get<0>().at(c.x, c.y, 0), spec::get(*v, 0, c.x, c.y, 0));
    av_eq("the view of a number given at run time is that variable", views.get(0).at(c.x, c.y, 0), spec::get(*v, 0, c.x, c.y, 0));
}
}
AV_CONTRACT(P13, conserved_1) { algebra<Conserved<1>>(); }
AV_CONTRACT(P13, conserved_2) { algebra<Conserved<2>>(); }
AV_CONTRACT(P13, conserved_3) { algebra<Conserved<3>>(); }
AV_CONTRACT(P13, primitive_1) { algebra<Primitive<1>>(); }
AV_CONTRACT(P13, primitive_2) { algebra<Primitive<2>>(); }
AV_CONTRACT(P13, primitive_3) { algebra<Primitive<3>>(); }
AV_CONTRACT(P13, scalar_burgers) { algebra<Scalar<equation::burgers::ConservedVariables>>(); }
AV_CONTRACT(P13, scalar_cubic) { algebra<Scalar<equation::cubic::ConservedVariables>>(); }
AV_CONTRACT(P13, scalar_linear) { algebra<Scalar<equation::linear::ConservedVariables>>(); }
AV_CONTRACT(P13, scalar_buckleyleverett) { algebra<Scalar<equation::buckleyleverett::ConservedVariables>>(); }
AV_CONTRACT(P13, components_1) { components<Conserved<1>>(); }
AV_CONTRACT(P13, components_2) { components<Conserved<2>>(); }
AV_CONTRACT(P13, components_3) { components<Conserved<3>>(); }
AV_CONTRACT(P13, from_vector_1) { fromVector<1, rvec3>(); }
AV_CONTRACT(P13, from_vector_2) { fromVector<2, rvec4>(); }
AV_CONTRACT(P13, from_vector_3) { fromVector<3, rvec5>(); }
AV_CONTRACT(P13, views_gas_1) { gasViews<1>(); }
AV_CONTRACT(P13, views_gas_2) { gasViews<2>(); }
AV_CONTRACT(P13, views_gas_3) { gasViews<3>(); }
AV_CONTRACT(P13, views_burgers) { scalarViews<equation::burgers::Burgers>(); }
AV_CONTRACT(P13, views_cubic) { scalarViews<equation::cubic::Cubic>(); }
AV_CONTRACT(P13, views_linear) { scalarViews<equation::linear::Linear>(); }
AV_CONTRACT(P13, views_buckleyleverett) { scalarViews<equation::buckleyleverett::BuckleyLeverett>(); }
