// AV-SOURCES: alsuq/src/samples/SampleGenerator.cpp alsuq/src/distribution/Uniform.cpp alsuq/src/distribution/Uniform1D.cpp
// The random engine is replaced by one that reports the index of its draw: sample s, component c of a D-dimensional parameter
// has to be draw number s*D + c, whichever process computes the sample.
#include "av.hpp"
#include <random>
#include <map>
#include <string>
#include <vector>
#include <memory>
#include <sstream>
#include <functional>
#include <boost/property_tree/ptree.hpp>
namespace {
double lower, upper;
}
namespace std {
struct av_engine { long drawn = 0; void discard(unsigned long long n) { drawn += n; } double operator()() { return double(drawn++); } };
template<class T> struct av_uniform { av_uniform(T, T) {} template<class G> T operator()(G& g) { return g(); } };
}
#define mt19937_64 av_engine
#define uniform_real_distribution av_uniform
#define private public
#include "alsuq/src/generator/STLMersenne.cpp"
#include "alsuq/distribution/Uniform.hpp"
#include "alsuq/distribution/Uniform1D.hpp"
#include "alsuq/samples/SampleGenerator.hpp"
#undef private
using namespace alsuq;
namespace alsutils { namespace parameters {
double Parameters::getDouble(const std::string& name) const { return name == "lower" ? lower : upper; }
} }
namespace {
// the engine is shared by the whole program: put it into a given state
void drawn(generator::STLMersenne& g, long n) { g.generator.first.drawn = n; g.generator.second = n; }
}
AV_CONTRACT(P12, draw_of_a_sample) {
    const long D = av_int("dimension", 1, 1000), s = av_int("sample", 0, 1000000), c = av_int("component", 0, 1000);
    av_assume(c < D);
    generator::STLMersenne g(D);
    const long n = av_int("draws so far", 0, 1000000000);   // anything before the draw of this component
    av_assume(n <= s * D + c);
    drawn(g, n);
    av_nothrow("a component below the dimension is accepted");
    av_cover("draw");
    av_eq("component c of sample s is draw number s*D+c, whatever was skipped", g.generate(c, s), double(s * D + c));
    av_assert("the next draw follows", g.generator.second == s * D + c + 1 && g.generator.first.drawn == g.generator.second);
}
AV_CONTRACT(P12, draw_refused) {
    const long D = av_int("dimension", 1, 1000), s = av_int("sample", 0, 1000000), c = av_int("component", 0, 100000);
    av_assume(c >= D);
    generator::STLMersenne g(D);
    av_cover("component outside the dimension");
    g.generate(c, s);
    av_assert("a component outside the dimension is refused", false);
}
// two parameters of the same dimension: a sample has to be the same on the process that starts with it and on one that
// computes another sample before
AV_CONTRACT(P12, draws_of_two_parameters) {
    generator::STLMersenne a(1), b(1);
    drawn(a, 0);
    a.generate(0, 0); b.generate(0, 0);
    const double first = a.generate(0, 1);
    drawn(a, 0);
    const double alone = a.generate(0, 1);
    av_cover("the same sample on two processes");
    av_eq("with two parameters a sample does not depend on the process that computes it", first, alone);
}
AV_CONTRACT(P12, uniform) {
    lower = av_real("lower"); upper = av_real("upper");
    alignas(16) static char storage[256];
    distribution::Uniform u(*reinterpret_cast<const alsutils::parameters::Parameters*>(storage));
    struct Any : generator::Generator {
        size_t component, sample;
        real generate(size_t c, size_t s) { component = c; sample = s; return av_range("x", 0, 1); }
    } g;
    const long c = av_int("component", 0, 1000), s = av_int("sample", 0, 1000);
    av_assume(lower <= upper);
    const double v = u.generate(g, c, s), x = av_range("x", 0, 1);
    av_cover("uniform");
    av_le("values are not below the lower end", lower, v);
    av_le("values are not above the upper end", v, upper);
    av_eq("the unit interval is mapped linearly", v, lower + x * (upper - lower));
    av_assert("the generator is asked for that component of that sample", long(g.component) == c && long(g.sample) == s);
}
AV_CONTRACT(P12, uniform_midpoints) {
    const double a = av_real("a"), b = av_real("b");
    const long N = av_int("samples", 1, 1000000), s = av_int("sample", 0, 1000000);
    av_assume(s < N && a < b);
    distribution::Uniform1D u(N, a, b);
    struct Any : generator::Generator { real generate(size_t, size_t) { return av_range("x", 0, 1); } } g;
    av_nothrow("one dimension is accepted");
    const double v = u.generate(g, 0, s);
    av_cover("midpoint");
    av_eq("sample s of N is the midpoint of the s-th of N equal cells", (v - a) * double(N), (b - a) * (double(s) + 0.5));
}
namespace {
struct AnyDistribution : distribution::Distribution {
    int id; generator::Generator* g; bool right = true;
    real generate(generator::Generator& gen, size_t c, size_t s) { right = right && &gen == g; return av_fun("draw", 3, double(id), double(long(c)), double(long(s))); }
};
struct AnyGenerator : generator::Generator { real generate(size_t, size_t) { return 0; } };
}
AV_CONTRACT(P12, sample_of_a_parameter) {
    std::shared_ptr<AnyDistribution> d[2];
    std::shared_ptr<generator::Generator> g[2];
    samples::SampleGenerator::GeneratorDistributionMap map;
    const long D[2] = {av_int("D0", 1, 1000), av_int("D1", 1, 1000)};
    for (int i = 0; i < 2; ++i) {
        d[i] = std::make_shared<AnyDistribution>();
        g[i] = std::make_shared<AnyGenerator>();
        d[i]->id = i; d[i]->g = g[i].get();
    }
    map["a"] = std::make_pair(size_t(D[0]), std::make_pair(g[0], std::shared_ptr<distribution::Distribution>(d[0])));
    map["b"] = std::make_pair(size_t(D[1]), std::make_pair(g[1], std::shared_ptr<distribution::Distribution>(d[1])));
    samples::SampleGenerator gen(map);
    const long s = av_int("sample", 0, 1000000);
    av_nothrow("known parameters are accepted");
    auto b = gen.generate("b", s);
    auto a = gen.generate("a", s);
    const long i = av_int("i", 0, 1000);
    av_cover("samples");
    av_assert("one value per dimension", long(a.size()) == D[0] && long(b.size()) == D[1]);
    if (i < D[0]) av_eq("component i is drawn from the parameter's own distribution", a[i], av_fun("draw", 3, 0., double(i), double(s)));
    if (i < D[1]) av_eq("component i is drawn from the parameter's own distribution", b[i], av_fun("draw", 3, 1., double(i), double(s)));
    av_assert("with the parameter's own generator", d[0]->right && d[1]->right);
}
