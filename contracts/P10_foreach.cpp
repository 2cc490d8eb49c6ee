// AV-SOURCES: alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/grid/Grid.cpp
#include "common.hpp"
#include "alsfvm/volume/volume_foreach.hpp"
using namespace alsfvm;
namespace {
// cell-wise iteration: every cell of the region exactly once, with its own index, neighbours, values and midpoint
struct Shape {
    long g, nx, ny, nz, tx, ty, tz, x, y, z;
    alsfvm::shared_ptr<volume::Volume> in, out;
    const double* before;
};
template<int dim> Shape shape(int vars = 1, bool interior = false) {
    Shape s;
    s.g = av_int("g", 0, 1000);
    s.ty = s.tz = s.ny = s.nz = 1;
    if (interior) {
        s.nx = av_int("nx", 1, 100000); s.tx = s.nx + 2 * s.g;
        if (dim > 1) { s.ny = av_int("ny", 1, 100000); s.ty = s.ny + 2 * s.g; }
        if (dim > 2) { s.nz = av_int("nz", 1, 100000); s.tz = s.nz + 2 * s.g; }
    } else {
        s.tx = av_int("tx", 1, 100000); s.nx = s.tx - 2 * s.g;
        if (dim > 1) { s.ty = av_int("ty", 1, 100000); s.ny = s.ty - 2 * s.g; }
        if (dim > 2) { s.tz = av_int("tz", 1, 100000); s.nz = s.tz - 2 * s.g; }
    }
    av_assume(s.nx >= 1);
    if (dim > 1) av_assume(s.ny >= 2);
    if (dim > 2) av_assume(s.nz >= 2);
    s.in = spec::makeVolume(vars, s.nx, s.ny, s.nz, s.g);
    s.out = spec::makeVolume(1, s.nx, s.ny, s.nz, s.g);
    spec::arbitrary(*s.in, spec::U);
    spec::arbitrary(*s.out, spec::P);
    s.before = spec::old(*s.out, 0);
    return s;
}
template<int dim> void anyCell(Shape& s) {
    s.x = av_int("x", 0, 100000); s.y = dim > 1 ? av_int("y", 0, 100000) : 0; s.z = dim > 2 ? av_int("z", 0, 100000) : 0;
    av_assume(s.x < s.tx && s.y < s.ty && s.z < s.tz);
    av_cover("a cell");
}
double before(const Shape& s) { return s.before[(s.z * s.ty + s.y) * s.tx + s.x]; }
double after(const Shape& s) { return spec::get(*s.out, 0, s.x, s.y, s.z); }
template<int dim> bool inside(const Shape& s) {
    bool r = s.x >= s.g && s.x < s.tx - s.g;
    if (dim > 1) r = r && s.y >= s.g && s.y < s.ty - s.g;
    if (dim > 2) r = r && s.z >= s.g && s.z < s.tz - s.g;
    return r;
}
template<int dim> void region() {
    Shape s = shape<dim>();
    long b[3] = {av_int("b0", 0, 10), dim > 1 ? av_int("b1", 0, 10) : 0, dim > 2 ? av_int("b2", 0, 10) : 0};
    long e[3] = {av_int("e0", 0, 10), dim > 1 ? av_int("e1", 0, 10) : 0, dim > 2 ? av_int("e2", 0, 10) : 0};
    av_assume(b[0] + e[0] < s.tx && (dim < 2 || b[1] + e[1] < s.ty) && (dim < 3 || b[2] + e[2] < s.tz));
    double* o = s.out->getScalarMemoryArea(0)->getPointer();
    const double* a = s.in->getScalarMemoryArea(0)->getPointer();
    volume::for_each_cell_index(*s.in, [&](size_t i) { o[i] += a[i]; }, ivec3(b[0], b[1], b[2]), ivec3(e[0], e[1], e[2]));
    anyCell<dim>(s);
    bool r = s.x >= b[0] && s.x < s.tx - e[0];
    if (dim > 1) r = r && s.y >= b[1] && s.y < s.ty - e[1];
    if (dim > 2) r = r && s.z >= b[2] && s.z < s.tz - e[2];
    if (r) av_eq("every cell of the region is visited exactly once", after(s), before(s) + spec::get(*s.in, 0, s.x, s.y, s.z));
    else av_eq("no cell outside the region is visited", after(s), before(s));
}
template<int dim, int dir, class Each> void neighbours(Each each, bool (*reached)(const Shape&)) {
    Shape s = shape<dim>();
    if (s.g < 1) av_stop();
    double* o = s.out->getScalarMemoryArea(0)->getPointer();
    const double* a = s.in->getScalarMemoryArea(0)->getPointer();
    each(*s.in, [&](size_t l, size_t m, size_t r) { o[m] += a[l] + 2 * a[m] + 4 * a[r]; });
    anyCell<dim>(s);
    if (reached(s)) {
        const long dx = dir == 0, dy = dir == 1, dz = dir == 2;
        av_eq("every cell of the region is visited exactly once, with its neighbours in the direction", after(s),
            before(s) + spec::get(*s.in, 0, s.x - dx, s.y - dy, s.z - dz) + 2 * spec::get(*s.in, 0, s.x, s.y, s.z) + 4 * spec::get(*s.in, 0, s.x + dx, s.y + dy, s.z + dz));
    } else av_eq("no cell outside the region is visited", after(s), before(s));
}
typedef std::function<void(size_t, size_t, size_t)> F3;
template<int dir> bool oneOff(const Shape& s) {
    if (dir == 0) return s.x >= 1 && s.x < s.tx - 1;
    if (dir == 1) return s.y >= 1 && s.y < s.ty - 1;
    return s.z >= 1 && s.z < s.tz - 1;
}
template<int dir> bool ghostsOff(const Shape& s) {
    if (dir == 0) return s.x >= s.g && s.x < s.tx - s.g;
    if (dir == 1) return s.y >= s.g && s.y < s.ty - s.g;
    return s.z >= s.g && s.z < s.tz - s.g;
}
template<int dim, int dir> void withNeighbours() {
    neighbours<dim, dir>([](volume::Volume& v, F3 f) { volume::for_each_cell_index_with_neighbours(dir, v, f, ivec3(dir == 0, dir == 1, dir == 2), ivec3(dir == 0, dir == 1, dir == 2)); }, oneOff<dir>);
}
template<int dim, int dir> void internal() {
    neighbours<dim, dir>([](volume::Volume& v, F3 f) { volume::for_each_internal_volume_index(v, dir, f); }, ghostsOff<dir>);
}
template<int dim, int dir> void internalTemplated() {
    neighbours<dim, dir>([](volume::Volume& v, F3 f) { volume::for_each_internal_volume_index<dir>(v, f); }, ghostsOff<dir>);
}
template<int dim> void interior() {
    Shape s = shape<dim>();
    double* o = s.out->getScalarMemoryArea(0)->getPointer();
    const double* a = s.in->getScalarMemoryArea(0)->getPointer();
    volume::for_each_internal_volume_index(*s.in, [&](size_t i) { o[i] += a[i]; });
    anyCell<dim>(s);
    if (inside<dim>(s)) av_eq("every interior cell is visited exactly once", after(s), before(s) + spec::get(*s.in, 0, s.x, s.y, s.z));
    else av_eq("no ghost cell is visited", after(s), before(s));
}
template<int n> struct Values;
template<> struct Values<1> { double v[1]; Values() {} explicit Values(double a) : v{a} {} };
template<> struct Values<2> { double v[2]; Values() {} Values(double a, double b) : v{a, b} {} };
template<> struct Values<3> { double v[3]; Values() {} Values(double a, double b, double c) : v{a, b, c} {} };
template<> struct Values<4> { double v[4]; Values() {} Values(double a, double b, double c, double d) : v{a, b, c, d} {} };
template<> struct Values<5> { double v[5]; Values() {} Values(double a, double b, double c, double d, double e) : v{a, b, c, d, e} {} };
template<int n> double weigh(const Values<n>& v) { double r = 0; for (int i = 0; i < n; ++i) r += (i + 2) * v.v[i]; return r; }
template<int n> double weighAt(volume::Volume& v, const Shape& s) { double r = 0; for (int i = 0; i < n; ++i) r += (i + 2) * spec::get(v, i, s.x, s.y, s.z); return r; }
template<int n> void each() {
    Shape s = shape<2>(n);
    double* o = s.out->getScalarMemoryArea(0)->getPointer();
    av_nothrow("as many variables as the volume has");
    volume::for_each_cell<Values<n>>(*s.in, [&](const Values<n>& v, size_t i) { o[i] += weigh(v); });
    anyCell<2>(s);
    av_eq("every cell is visited once, with all of its values", after(s), before(s) + weighAt<n>(*s.in, s));
}
template<int n, int m> void eachOfTwo() {
    Shape s = shape<2>(n);
    auto second = spec::makeVolume(m, s.nx, s.ny, s.nz, s.g);
    spec::arbitrary(*second, spec::W);
    double* o = s.out->getScalarMemoryArea(0)->getPointer();
    av_nothrow("as many variables as the volumes have");
    volume::for_each_cell<Values<n>, Values<m>>(*s.in, *second, [&](const Values<n>& v, const Values<m>& w, size_t i) { o[i] += weigh(v) - 3 * weigh(w); });
    anyCell<2>(s);
    av_eq("every cell is visited once, with all of its values in both volumes", after(s), before(s) + weighAt<n>(*s.in, s) - 3 * weighAt<m>(*second, s));
}
template<int n, int m> void transform() {
    Shape s = shape<2>(n);
    auto to = spec::makeVolume(m, s.nx, s.ny, s.nz, s.g);
    spec::arbitrary(*to, spec::W);
    const double* uold[n];
    for (int i = 0; i < n; ++i) uold[i] = spec::old(*s.in, i);
    volume::transform_volume<Values<n>, Values<m>>(*s.in, *to, [](const Values<n>& v) { Values<m> r; for (int j = 0; j < m; ++j) r.v[j] = (j + 1) * weigh(v); return r; });
    anyCell<2>(s);
    for (int j = 0; j < m; ++j) av_eq("every value of every cell is the function of that cell", spec::get(*to, j, s.x, s.y, s.z), (j + 1) * weighAt<n>(*s.in, s));
    for (int i = 0; i < n; ++i) av_eq("the argument is not modified", spec::get(*s.in, i, s.x, s.y, s.z), uold[i][(s.z * s.ty + s.y) * s.tx + s.x]);
}
struct Box { double ox, oy, oz, lx, ly, lz; };
Box box() { return Box{av_real("ox"), av_real("oy"), av_real("oz"), av_pos("lx"), av_pos("ly"), av_pos("lz")}; }
template<int dim> grid::Grid cells(const Shape& s, const Box& b) {
    av_shape(3 * s.nx, s.ny, s.nz);     // the midpoints
    return grid::Grid(rvec3(b.ox, b.oy, b.oz), rvec3(b.ox + b.lx, b.oy + b.ly, b.oz + b.lz), ivec3(s.nx, s.ny, s.nz));
}
// what the contracts make of a midpoint
template<int dim> double place(const Shape& s, const Box& b, const grid::Grid& grid) {
    const rvec3 h = grid.getCellLengths();      // P11; in an inactive direction there is one cell
    double r = b.ox + (s.x - s.g + 0.5) * b.lx / s.nx;
    r += 2 * (dim > 1 ? b.oy + (s.y - s.g + 0.5) * b.ly / s.ny : b.oy + 0.5 * h.y);
    r += 4 * (dim > 2 ? b.oz + (s.z - s.g + 0.5) * b.lz / s.nz : b.oz + 0.5 * h.z);
    return r;
}
template<int dim> void midpoints() {
    Shape s = shape<dim>(1, true);
    const Box b = box();
    const auto grid = cells<dim>(s, b);
    double* o = s.out->getScalarMemoryArea(0)->getPointer();
    volume::for_each_midpoint(*s.out, grid, [&](double px, double py, double pz, size_t index, size_t i, size_t j, size_t k) { o[index] += px + 2 * py + 4 * pz + 8.0 * i + 16.0 * j + 32.0 * k; });
    anyCell<dim>(s);
    if (inside<dim>(s)) {
        double want = 8.0 * (s.x - s.g);
        if (dim > 1) want += 16.0 * (s.y - s.g);
        if (dim > 2) want += 32.0 * (s.z - s.g);
        av_eq("every interior cell is visited once, with its midpoint and position", after(s), before(s) + place<dim>(s, b, grid) + want);
    }
    else av_eq("no ghost cell is visited", after(s), before(s));
}
template<int dim, int n, int m> void fillTwo() {
    Shape s = shape<dim>(1, true);
    const Box b = box();
    auto one = spec::makeVolume(n, s.nx, s.ny, s.nz, s.g), two = spec::makeVolume(m, s.nx, s.ny, s.nz, s.g);
    spec::arbitrary(*one, spec::V);
    spec::arbitrary(*two, spec::W);
    const double *v[n], *w[m];
    for (int i = 0; i < n; ++i) v[i] = spec::old(*one, i);
    for (int i = 0; i < m; ++i) w[i] = spec::old(*two, i);
    const auto grid = cells<dim>(s, b);
    volume::fill_volume<Values<n>, Values<m>>(*one, *two, grid, [](double px, double py, double pz, Values<n>& a, Values<m>& c) {
        for (int i = 0; i < n; ++i) a.v[i] = (i + 1) * (px + 2 * py + 4 * pz);
        for (int i = 0; i < m; ++i) c.v[i] = (i + 3) * (px + 2 * py + 4 * pz);
    });
    anyCell<dim>(s);
    const long at = (s.z * s.ty + s.y) * s.tx + s.x;
    const bool in = inside<dim>(s);
    const double p = place<dim>(s, b, grid);
    for (int i = 0; i < n; ++i) av_eq("interior cells hold the function at their midpoint, ghost cells are untouched", spec::get(*one, i, s.x, s.y, s.z), in ? (i + 1) * p : v[i][at]);
    for (int i = 0; i < m; ++i) av_eq("interior cells of the second volume hold its function at their midpoint", spec::get(*two, i, s.x, s.y, s.z), in ? (i + 3) * p : w[i][at]);
}
template<int dim, int n> void fill() {
    Shape s = shape<dim>(1, true);
    const Box b = box();
    auto one = spec::makeVolume(n, s.nx, s.ny, s.nz, s.g);
    spec::arbitrary(*one, spec::V);
    const double* v[n];
    for (int i = 0; i < n; ++i) v[i] = spec::old(*one, i);
    const auto grid = cells<dim>(s, b);
    volume::fill_volume<Values<n>>(*one, grid, [](double px, double py, double pz, Values<n>& a) { for (int i = 0; i < n; ++i) a.v[i] = (i + 1) * (px + 2 * py + 4 * pz); });
    anyCell<dim>(s);
    const long at = (s.z * s.ty + s.y) * s.tx + s.x;
    const bool in = inside<dim>(s);
    const double p = place<dim>(s, b, grid);
    for (int i = 0; i < n; ++i) av_eq("interior cells hold the function at their midpoint, ghost cells are untouched", spec::get(*one, i, s.x, s.y, s.z), in ? (i + 1) * p : v[i][at]);
}
template<int n> void refused() {
    auto v = spec::makeVolume(n - 1, 4, 4, 1, 1);
    bool a = false, b = false, c = false;
    av_cover("wrong number of variables");
    try { volume::for_each_cell<Values<n>>(*v, [](const Values<n>&, size_t) {}); } catch (std::runtime_error&) { a = true; }
    try { volume::transform_volume<Values<n>, Values<n>>(*v, *v, [](const Values<n>& q) { return q; }); } catch (std::runtime_error&) { b = true; }
    grid::Grid grid(rvec3(0, 0, 0), rvec3(1, 1, 1), ivec3(4, 4, 1));
    try { volume::fill_volume<Values<n>>(*v, grid, [](double, double, double, Values<n>&) {}); } catch (std::runtime_error&) { c = true; }
    av_assert("a volume of another number of variables is refused", a && b && c);
}
}
AV_CONTRACT(P10, visit_region_1d) { region<1>(); }
AV_CONTRACT(P10, visit_region_2d) { region<2>(); }
AV_CONTRACT(P10, visit_region_3d) { region<3>(); }
AV_CONTRACT(P10, visit_neighbours_1d) { withNeighbours<1, 0>(); }
AV_CONTRACT(P10, visit_neighbours_2d_y) { withNeighbours<2, 1>(); }
AV_CONTRACT(P10, visit_neighbours_3d_z) { withNeighbours<3, 2>(); }
AV_CONTRACT(P10, visit_internal_1d) { internal<1, 0>(); }
AV_CONTRACT(P10, visit_internal_2d_x) { internal<2, 0>(); }
AV_CONTRACT(P10, visit_internal_3d_y) { internalTemplated<3, 1>(); }
AV_CONTRACT(P10, visit_internal_3d_z) { internal<3, 2>(); }
AV_CONTRACT(P10, visit_interior_2d) { interior<2>(); }
AV_CONTRACT(P10, visit_interior_3d) { interior<3>(); }
AV_CONTRACT(P10, visit_values_1) { each<1>(); }
AV_CONTRACT(P10, visit_values_2) { each<2>(); }
AV_CONTRACT(P10, visit_values_3) { each<3>(); }
AV_CONTRACT(P10, visit_values_4) { each<4>(); }
AV_CONTRACT(P10, visit_values_5) { each<5>(); }
AV_CONTRACT(P10, visit_values_of_two) { eachOfTwo<3, 2>(); }
AV_CONTRACT(P10, transform_4_to_5) { transform<4, 5>(); }
AV_CONTRACT(P10, transform_5_to_3) { transform<5, 3>(); }
AV_CONTRACT(P10, transform_2_to_4) { transform<2, 4>(); }
AV_CONTRACT(P10, transform_3_to_2) { transform<3, 2>(); }
AV_CONTRACT(P10, transform_1_to_1) { transform<1, 1>(); }
AV_CONTRACT(P10, visit_midpoints_1d) { midpoints<1>(); }
AV_CONTRACT(P10, visit_midpoints_2d) { midpoints<2>(); }
AV_CONTRACT(P10, visit_midpoints_3d) { midpoints<3>(); }
AV_CONTRACT(P10, fill_one_2d) { fill<2, 3>(); }
AV_CONTRACT(P10, fill_one_3d) { fill<3, 1>(); }
AV_CONTRACT(P10, fill_two_2d) { fillTwo<2, 2, 1>(); }
AV_CONTRACT(P10, fill_two_3d) { fillTwo<3, 1, 1>(); }
AV_CONTRACT(P10, refused_2) { refused<2>(); }
AV_CONTRACT(P10, refused_4) { refused<4>(); }
