// helpers shared by the contracts (specification side)
#pragma once
#include "av.hpp"
#include "alsfvm/volume/Volume.hpp"
#include "alsfvm/memory/MemoryFactory.hpp"
#include "alsfvm/grid/Grid.hpp"
namespace spec {
using namespace alsfvm;
inline alsfvm::shared_ptr<memory::MemoryFactory> factory() {
    alsfvm::shared_ptr<DeviceConfiguration> dc(new DeviceConfiguration("cpu"));
    return alsfvm::shared_ptr<memory::MemoryFactory>(new memory::MemoryFactory(dc));
}
inline std::vector<std::string> varNames(int n) {
    static const char* names[] = {"a", "b", "c", "d", "e", "f"};
    std::vector<std::string> v;
    for (int i = 0; i < n; ++i) v.push_back(names[i]);
    return v;
}
inline alsfvm::shared_ptr<volume::Volume> makeVolume(int nvars, size_t nx, size_t ny, size_t nz, size_t ng) {
    av_shape(nx + 2 * ng, ny > 1 ? ny + 2 * ng : ny, nz > 1 ? nz + 2 * ng : nz);
    return alsfvm::shared_ptr<volume::Volume>(new volume::Volume(varNames(nvars), factory(), nx, ny, nz, ng));
}
inline alsfvm::shared_ptr<volume::Volume> makeVolume(const std::vector<std::string>& names, size_t nx, size_t ny, size_t nz, size_t ng) {
    av_shape(nx + 2 * ng, ny > 1 ? ny + 2 * ng : ny, nz > 1 ? nz + 2 * ng : nz);
    return alsfvm::shared_ptr<volume::Volume>(new volume::Volume(names, factory(), nx, ny, nz, ng));
}
inline std::vector<std::string> scalarName() { return {"u"}; }
inline std::vector<std::string> eulerNames(int dim) {
    if (dim == 1) return {"rho", "mx", "E"};
    if (dim == 2) return {"rho", "mx", "my", "E"};
    return {"rho", "mx", "my", "mz", "E"};
}
// arbitrary contents
inline void arbitrary(volume::Volume& v, const char* const* names) {
    for (size_t i = 0; i < v.getNumberOfVariables(); ++i)
        av_array(v.getScalarMemoryArea(i)->getPointer(), names[i], v.getTotalNumberOfXCells(), v.getTotalNumberOfYCells(), v.getTotalNumberOfZCells());
}
static const char* const U[] = {"u0", "u1", "u2", "u3", "u4", "u5"};
static const char* const V[] = {"v0", "v1", "v2", "v3", "v4", "v5"};
static const char* const W[] = {"w0", "w1", "w2", "w3", "w4", "w5"};
static const char* const P[] = {"p0", "p1", "p2", "p3", "p4", "p5"};
static const char* const Q[] = {"q0", "q1", "q2", "q3", "q4", "q5"};
inline real get(volume::Volume& v, size_t var, long x, long y, long z) { return v.getScalarMemoryArea(var)->getView().at(x, y, z); }
inline const double* old(volume::Volume& v, size_t var) { return av_clone(v.getScalarMemoryArea(var)->getPointer(), v.getScalarMemoryArea(var)->getSize()); }
inline grid::Grid plainGrid(int nx, int ny, int nz) {
    return grid::Grid(rvec3(0, 0, 0), rvec3(1, 1, 1), ivec3(nx, ny, nz));
}
}
