// AV-SOURCES: alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp
#include "common.hpp"
#include <cmath>
#include "alsfvm/memory/HostMemory.hpp"
using namespace alsfvm;
namespace {
long g, tx, ty, tz, nx, ny, nz, x, y, z;
template<int dim> void sizes() {
    g = av_int("g", 0, 1000);
    tx = av_int("tx", 1, 100000); nx = tx - 2 * g;
    ty = dim > 1 ? av_int("ty", 1, 100000) : 1; ny = dim > 1 ? ty - 2 * g : 1;
    tz = dim > 2 ? av_int("tz", 1, 100000) : 1; nz = dim > 2 ? tz - 2 * g : 1;
    av_assume(nx >= 1 && nx * ny * nz > 0);
    if (dim > 1) av_assume(ny > 1);
    if (dim > 2) av_assume(nz > 1);
    x = av_int("x", 0, 200000); y = dim > 1 ? av_int("y", 0, 200000) : 0; z = dim > 2 ? av_int("z", 0, 200000) : 0;
    av_assume(x < tx && y < ty && z < tz);
}
template<int dim> void geometry() {
    sizes<dim>();
    auto v = spec::makeVolume(2, nx, ny, nz, g);
    av_cover("end");
    av_assert("total = inner + 2 ghost per active direction", (long)v->getTotalNumberOfXCells() == tx && (long)v->getTotalNumberOfYCells() == ty && (long)v->getTotalNumberOfZCells() == tz);
    av_assert("inner sizes", (long)v->getNumberOfXCells() == nx && (long)v->getNumberOfYCells() == ny && (long)v->getNumberOfZCells() == nz);
    av_assert("ghost layers", (long)v->getNumberOfXGhostCells() == g && (long)v->getNumberOfYGhostCells() == (dim > 1 ? g : 0) && (long)v->getNumberOfZGhostCells() == (dim > 2 ? g : 0));
    ivec3 s = v->getSize(), t = v->getTotalDimensions(), i = v->getInnerSize(), gg = v->getNumberOfGhostCells();
    av_assert("vector forms agree", s.x == tx && s.y == ty && s.z == tz && t.x == tx && t.y == ty && t.z == tz && i.x == nx && i.y == ny && i.z == nz && gg.x == g);
    av_assert("dimension", (int)v->getDimensions() == dim);
    av_assert("each variable has one full array", (long)v->getScalarMemoryArea(0)->getSize() == tx * ty * tz && (long)v->getScalarMemoryArea(1)->getSize() == tx * ty * tz && v->getNumberOfVariables() == 2);
}
template<int dim, class OP, class SPEC> void binary(OP op, SPEC spec) {
    sizes<dim>();
    auto a = spec::makeVolume(2, nx, ny, nz, g), b = spec::makeVolume(2, nx, ny, nz, g);
    spec::arbitrary(*a, spec::U); spec::arbitrary(*b, spec::V);
    double oa[2], ob[2];
    for (int v = 0; v < 2; ++v) { oa[v] = spec::get(*a, v, x, y, z); ob[v] = spec::get(*b, v, x, y, z); }
    av_nothrow("matching volumes are accepted");
    op(*a, *b);
    av_cover("end");
    for (int v = 0; v < 2; ++v) {
        av_eq("every cell of every variable", spec::get(*a, v, x, y, z), spec(oa[v], ob[v]));
        av_eq("the right operand is unchanged", spec::get(*b, v, x, y, z), ob[v]);
    }
}
template<int dim> void interior() {
    sizes<dim>();
    av_assume(g >= 1);
    auto a = spec::makeVolume(2, nx, ny, nz, g);
    spec::arbitrary(*a, spec::U);
    memory::HostMemory<real> out(nx, ny, nz);
    av_dims(out.getPointer(), nx, ny, nz);
    a->copyInternalCells(1, out.getPointer(), nx * ny * nz);
    const long gy = dim > 1 ? g : 0, gz = dim > 2 ? g : 0;
    av_assume(x < nx && y < ny && z < nz);
    av_cover("end");
    av_eq("inner cells in order", out.getPointer()[(z * ny + y) * nx + x], spec::get(*a, 1, x + g, y + gy, z + gz));
}
template<int dim> void coarsen() {
    g = av_int("g", 0, 1000);
    nx = av_int("nx", 1, 10000); ny = dim > 1 ? av_int("ny", 2, 10000) : 1; nz = dim > 2 ? av_int("nz", 2, 10000) : 1;
    const long gy = dim > 1 ? g : 0, gz = dim > 2 ? g : 0;
    auto coarse = spec::makeVolume(1, nx, ny, nz, g);
    auto fine = spec::makeVolume(1, 2 * nx, dim > 1 ? 2 * ny : 1, dim > 2 ? 2 * nz : 1, g);
    spec::arbitrary(*coarse, spec::U); spec::arbitrary(*fine, spec::V);
    av_nothrow("2 to 1 is accepted");
    coarse->setVolume(*fine);
    x = av_int("x", 0, 10000); y = dim > 1 ? av_int("y", 0, 10000) : 0; z = dim > 2 ? av_int("z", 0, 10000) : 0;
    av_assume(x < nx && y < ny && z < nz);
    av_cover("end");
    double s = 0;
    for (int k = 0; k < (dim > 2 ? 2 : 1); ++k) for (int j = 0; j < (dim > 1 ? 2 : 1); ++j) for (int i = 0; i < 2; ++i)
        s += spec::get(*fine, 0, g + 2 * x + i, gy + 2 * y + j, gz + 2 * z + k);
    av_eq("coarse inner cell = mean of its children", spec::get(*coarse, 0, x + g, y + gy, z + gz), s / (1 << dim));
}
}
AV_CONTRACT(P10, volume_geometry_1d) { geometry<1>(); }
AV_CONTRACT(P10, volume_geometry_2d) { geometry<2>(); }
AV_CONTRACT(P10, volume_geometry_3d) { geometry<3>(); }
typedef volume::Volume VV;
AV_CONTRACT(P10, volume_plus_1d) { binary<1>([](VV& a, VV& b) { a += b; }, [](double a, double b) { return a + b; }); }
AV_CONTRACT(P10, volume_plus_3d) { binary<3>([](VV& a, VV& b) { a += b; }, [](double a, double b) { return a + b; }); }
AV_CONTRACT(P10, volume_scale) { const double s = av_real("s"); binary<3>([s](VV& a, VV& b) { a *= s; }, [s](double a, double) { return s * a; }); }
AV_CONTRACT(P10, volume_zero) { binary<3>([](VV& a, VV& b) { a.makeZero(); }, [](double a, double) { return 0.0; }); }
AV_CONTRACT(P10, volume_power) { const double p = av_pos("p"); binary<2>([p](VV& a, VV& b) { a.addPower(b, p); }, [p](double a, double b) { return a + std::pow(b, p); }); }
AV_CONTRACT(P10, volume_power_factor) { const double p = av_pos("p"), f = av_real("f"); binary<2>([=](VV& a, VV& b) { a.addPower(b, p, f); }, [=](double a, double b) { return a + f * std::pow(b, p); }); }
AV_CONTRACT(P10, volume_subtract_power) { const double p = av_pos("p"); binary<2>([p](VV& a, VV& b) { a.subtractPower(b, p); }, [p](double a, double b) { return a - std::pow(b, p); }); }
AV_CONTRACT(P10, volume_copy_to) { binary<3>([](VV& a, VV& b) { b.copyTo(a); }, [](double a, double b) { return b; }); }
AV_CONTRACT(P10, volume_set_same_size) { binary<3>([](VV& a, VV& b) { a.setVolume(b); }, [](double a, double b) { return b; }); }
AV_CONTRACT(P10, volume_linear_combination) {
    const double k0 = av_real("k0"), k1 = av_real("k1"), k2 = av_real("k2"), k3 = av_real("k3"), k4 = av_real("k4");
    binary<2>([=](VV& a, VV& b) { a.addLinearCombination(k0, k1, a, k2, b, k3, b, k4, a); }, [=](double a, double b) { return (k0 + k1 + k4) * a + (k2 + k3) * b; });
}
AV_CONTRACT(P10, volume_interior_1d) { interior<1>(); }
AV_CONTRACT(P10, volume_interior_2d) { interior<2>(); }
AV_CONTRACT(P10, volume_interior_3d) { interior<3>(); }
AV_CONTRACT(P10, coarsen_1d) { coarsen<1>(); }
AV_CONTRACT(P10, coarsen_2d) { coarsen<2>(); }
AV_CONTRACT(P10, coarsen_3d) { coarsen<3>(); }
AV_CONTRACT(P10, make_instance) {
    sizes<3>();
    auto a = spec::makeVolume(2, nx, ny, nz, g);
    auto b = a->makeInstance();
    av_cover("end");
    av_assert("same shape, own storage", b->getSize() == a->getSize() && b->getInnerSize() == a->getInnerSize() && b->getNumberOfVariables() == 2
              && b->getScalarMemoryArea(0)->getPointer() != a->getScalarMemoryArea(0)->getPointer());
    const long mx = av_int("mx", 1, 1000), my = av_int("my", 1, 1000), mz = av_int("mz", 1, 1000);
    auto c = a->makeInstance(mx, my, mz);
    av_assert("requested size, no ghost cells", c->getSize() == ivec3(mx, my, mz) && c->getInnerSize() == ivec3(mx, my, mz));
}
// a sub-volume shares the storage of the components it selects
AV_CONTRACT(P10, sub_volume_shares) {
    sizes<2>();
    auto a = spec::makeVolume(3, nx, ny, nz, g);
    spec::arbitrary(*a, spec::U);
    volume::Volume sub(*a, {2, 0}, {"c", "a"});
    av_cover("end");
    sub.getScalarMemoryArea(0)->getView().at(x, y, z) = 7;
    av_eq("a write through the sub-volume is seen in the volume", spec::get(*a, 2, x, y, z), 7);
    av_assert("components in the order given", sub.getScalarMemoryArea(1)->getPointer() == a->getScalarMemoryArea(0)->getPointer() && sub.getSize() == a->getSize());
}
AV_CONTRACT(P10, names) {
    auto a = spec::makeVolume(3, 4, 1, 1, 1);
    av_nothrow("known names are found");
    av_cover("end");
    av_assert("name to index and back", a->getIndexFromName("a") == 0 && a->getIndexFromName("b") == 1 && a->getIndexFromName("c") == 2 && a->getName(1) == "b" && a->hasVariable("c") && !a->hasVariable("d"));
    av_assert("lookup by name", a->getScalarMemoryArea("b")->getPointer() == a->getScalarMemoryArea(1)->getPointer());
    av_maythrow();
    a->getIndexFromName("zz");
    av_assert("an unknown name is rejected", false);
}
