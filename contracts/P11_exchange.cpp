// AV-SOURCES: alsfvm/src/mpi/CartesianCellExchanger.cpp alsfvm/src/mpi/CellExchanger.cpp alsfvm/src/mpi/MpiIndexType.cpp alsfvm/src/mpi/Request.cpp alsfvm/src/mpi/RequestContainer.cpp alsutils/src/mpi/Configuration.cpp alsutils/src/mpi/mpi_types.cpp alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp
#include "common.hpp"
#include <algorithm>
#include "alsfvm/mpi/CartesianCellExchanger.hpp"
using namespace alsfvm;
namespace {
int av_index(const char* name, int n) { const int i = av_int(name, 0, 1100); av_assume(i < n); return i; }
// the message passing library, known by what it is asked to do
struct Type { int count, len, disp; MPI_Datatype of; int commits; };
Type types[16];
int typeObjects[16], requestObjects[32];
int ntypes;
int segment;                     // an arbitrary segment of a type
struct Call { const void* buffer; int count, type, peer, tag; MPI_Comm comm; int waits; };
Call sends[16], receives[16];
int nsends, nreceives;
int typeOf(MPI_Datatype t) { int k = -1; for (int i = 0; i < 16; ++i) k = t == (MPI_Datatype)(typeObjects + i) ? i : k; return k; }
double reducedValue; MPI_Op reducedBy; MPI_Comm reducedOver; int reducedCount; MPI_Datatype reducedType;
}
extern "C" {
int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int* n) { *n = 8; return MPI_SUCCESS; }
int MPI_Type_indexed(int n, const int* lens, const int* disps, MPI_Datatype of, MPI_Datatype* t) {
    const int i = std::min(segment, n - 1);
    types[ntypes & 15] = {n, lens[i], disps[i], of, 0};
    *t = (MPI_Datatype)(typeObjects + (ntypes & 15));
    ++ntypes;
    return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype* t) { types[typeOf(*t)].commits++; return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype*) { return MPI_SUCCESS; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm c, MPI_Request* r) {
    sends[nsends & 15] = {b, n, typeOf(t), to, tag, c, 0};
    *r = (MPI_Request)(requestObjects + (nsends & 15));
    ++nsends;
    return MPI_SUCCESS;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int from, int tag, MPI_Comm c, MPI_Request* r) {
    receives[nreceives & 15] = {b, n, typeOf(t), from, tag, c, 0};
    *r = (MPI_Request)(requestObjects + 16 + (nreceives & 15));
    ++nreceives;
    return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* r, MPI_Status*) {
    for (int i = 0; i < 16; ++i) {
        sends[i].waits += *r == (MPI_Request)(requestObjects + i);
        receives[i].waits += *r == (MPI_Request)(requestObjects + 16 + i);
    }
    *r = MPI_REQUEST_NULL;
    return MPI_SUCCESS;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    reducedValue = *(const double*)s; reducedBy = op; reducedOver = c; reducedCount = n; reducedType = t;
    *(double*)r = av_real("largest over all processes");
    return MPI_SUCCESS;
}
}
namespace {
// What a process sends across SIDE, and what it receives there.  DIM space dimensions, any inner sizes and ghost widths.
// present: the sides that have a neighbour.
template <int DIM, int SIDE> void side(int present) {
    ntypes = nsends = nreceives = 0;
    constexpr int axis = SIDE / 2;
    const int g = av_int("g", 1, 4);
    int n[3] = {1, 1, 1}, total[3] = {1, 1, 1};
    n[0] = av_int("nx", 1, 1000); total[0] = n[0] + 2 * g;
    if (DIM > 1) { n[1] = av_int("ny", 2, 1000); total[1] = n[1] + 2 * g; }
    if (DIM > 2) { n[2] = av_int("nz", 2, 1000); total[2] = n[2] + 2 * g; }
    av_assume(n[axis] >= g);
    auto u = spec::makeVolume(2, n[0], n[1], n[2], g);
    auto v = spec::makeVolume(2, n[0], n[1], n[2], g);
    const int stride = axis == 0 ? 1 : axis == 1 ? total[0] : total[0] * total[1];       // distance of neighbouring cells across the side
    const int segments = axis == 2 ? 1 : axis == 1 ? total[2] : total[1] * total[2];     // connected parts of the layer of ghost cells
    if (axis == 0) segment = av_index("z", total[2]) * total[1] + av_index("y", total[1]);
    if (axis == 1) segment = av_index("z", total[2]);

    ivec6 neighbours;
    for (int s = 0; s < 6; ++s) neighbours[s] = s < 2 * DIM && (present >> s & 1) ? 10 + s : -1;
    alsfvm::mpi::ConfigurationPtr config(new alsfvm::mpi::Configuration(MPI_COMM_WORLD));
    alsfvm::mpi::CartesianCellExchanger exchanger(config, neighbours);
    auto requests = exchanger.exchangeCells(*v, *u);

    int expected = 0;
    for (int s = 0; s < 2 * DIM; ++s) expected += present >> s & 1;
    av_assert("one message is sent per neighbour and variable", nsends == 2 * expected);
    av_assert("one message is received per neighbour and variable", nreceives == 2 * expected);
    const int ghost = SIDE % 2 ? total[axis] - g : 0;       // where the ghost layer starts
    const int inner = SIDE % 2 ? total[axis] - 2 * g : g;   // where the layer of inner cells beside it starts
    for (int var = 0; var < 2; ++var) {
        int sent = 0, received = 0;
        for (int i = 0; i < nsends; ++i) {
            if (sends[i].peer != neighbours[SIDE] || sends[i].buffer != u->getScalarMemoryArea(var)->getPointer()) continue;
            ++sent;
            const Type& t = types[sends[i].type];
            av_assert("values are sent", t.of == MPI_DOUBLE && t.commits == 1 && sends[i].count == 1 && sends[i].comm == MPI_COMM_WORLD);
            av_assert("the layer sent has all its segments", t.count == segments);
            av_assert("the layer sent is as wide as the ghost layer", t.len == g * stride);
            av_assert("the layer sent consists of the inner cells next to the side", t.disp == (segment * total[axis] + inner) * stride);
        }
        for (int i = 0; i < nreceives; ++i) {
            if (receives[i].peer != neighbours[SIDE] || receives[i].buffer != v->getScalarMemoryArea(var)->getPointer()) continue;
            ++received;
            const Type& t = types[receives[i].type];
            av_assert("values are received", t.of == MPI_DOUBLE && t.commits == 1 && receives[i].count == 1 && receives[i].comm == MPI_COMM_WORLD);
            av_assert("the layer received has all its segments", t.count == segments);
            av_assert("the layer received is as wide as the ghost layer", t.len == g * stride);
            av_assert("the layer received consists of the ghost cells", t.disp == (segment * total[axis] + ghost) * stride);
        }
        av_assert("the variable is sent once to the neighbour across the side", sent == (present >> SIDE & 1));
        av_assert("the variable is received once from the neighbour across the side", received == (present >> SIDE & 1));
    }
    requests.waitForAll();
    av_cover("exchanged");
    for (int i = 0; i < nsends; ++i) av_assert("the end of each transfer is awaited", sends[i].waits >= 1 && receives[i].waits >= 1);
}
// Messages are matched by their tag: what one process sends across SIDE another receives across the opposite side.
template <int DIM> void tags() {
    ntypes = nsends = nreceives = 0;
    auto u = spec::makeVolume(2, 6, DIM > 1 ? 6 : 1, DIM > 2 ? 6 : 1, 2);
    ivec6 neighbours;
    for (int s = 0; s < 6; ++s) neighbours[s] = s < 2 * DIM ? 10 + s : -1;
    alsfvm::mpi::ConfigurationPtr config(new alsfvm::mpi::Configuration(MPI_COMM_WORLD));
    alsfvm::mpi::CartesianCellExchanger exchanger(config, neighbours);
    auto requests = exchanger.exchangeCells(*u, *u);
    av_cover("exchanged");
    int out[6][2], in[6][2];
    for (int s = 0; s < 2 * DIM; ++s) for (int var = 0; var < 2; ++var) {
        out[s][var] = in[s][var] = -1;
        for (int i = 0; i < nsends; ++i) if (sends[i].peer == 10 + s && sends[i].buffer == u->getScalarMemoryArea(var)->getPointer()) out[s][var] = sends[i].tag;
        for (int i = 0; i < nreceives; ++i) if (receives[i].peer == 10 + s && receives[i].buffer == u->getScalarMemoryArea(var)->getPointer()) in[s][var] = receives[i].tag;
    }
    for (int s = 0; s < 2 * DIM; ++s) for (int var = 0; var < 2; ++var) {
        av_assert("what is sent across a side is received across the opposite side", out[s][var] >= 0 && out[s][var] == in[s ^ 1][var]);
        for (int s2 = 0; s2 < 2 * DIM; ++s2) for (int var2 = 0; var2 < 2; ++var2)
            if (s2 / 2 == s / 2 && (s2 != s || var2 != var)) av_assert("messages between the same processes differ in their tags", out[s][var] != out[s2][var2]);
    }
}
}
AV_CONTRACT(P11, exchange_1d_side0) { side<1, 0>(3); }
AV_CONTRACT(P11, exchange_1d_side1) { side<1, 1>(3); }
AV_CONTRACT(P11, exchange_2d_side0) { side<2, 0>(15); }
AV_CONTRACT(P11, exchange_2d_side1) { side<2, 1>(15); }
AV_CONTRACT(P11, exchange_2d_side2) { side<2, 2>(15); }
AV_CONTRACT(P11, exchange_2d_side3) { side<2, 3>(15); }
AV_CONTRACT(P11, exchange_3d_side0) { side<3, 0>(63); }
AV_CONTRACT(P11, exchange_3d_side1) { side<3, 1>(63); }
AV_CONTRACT(P11, exchange_3d_side2) { side<3, 2>(63); }
AV_CONTRACT(P11, exchange_3d_side3) { side<3, 3>(63); }
AV_CONTRACT(P11, exchange_3d_side4) { side<3, 4>(63); }
AV_CONTRACT(P11, exchange_3d_side5) { side<3, 5>(63); }
AV_CONTRACT(P11, exchange_1d_side0_only) { side<1, 0>(1); }
AV_CONTRACT(P11, exchange_1d_side1_only) { side<1, 1>(2); }
AV_CONTRACT(P11, exchange_2d_side0_only) { side<2, 0>(1); }
AV_CONTRACT(P11, exchange_2d_side1_only) { side<2, 1>(2); }
AV_CONTRACT(P11, exchange_2d_side2_only) { side<2, 2>(4); }
AV_CONTRACT(P11, exchange_2d_side3_only) { side<2, 3>(8); }
AV_CONTRACT(P11, exchange_3d_side0_only) { side<3, 0>(1); }
AV_CONTRACT(P11, exchange_3d_side0_missing) { side<3, 0>(62); }
AV_CONTRACT(P11, exchange_3d_side1_only) { side<3, 1>(2); }
AV_CONTRACT(P11, exchange_3d_side1_missing) { side<3, 1>(61); }
AV_CONTRACT(P11, exchange_3d_side2_only) { side<3, 2>(4); }
AV_CONTRACT(P11, exchange_3d_side2_missing) { side<3, 2>(59); }
AV_CONTRACT(P11, exchange_3d_side3_only) { side<3, 3>(8); }
AV_CONTRACT(P11, exchange_3d_side3_missing) { side<3, 3>(55); }
AV_CONTRACT(P11, exchange_3d_side4_only) { side<3, 4>(16); }
AV_CONTRACT(P11, exchange_3d_side4_missing) { side<3, 4>(47); }
AV_CONTRACT(P11, exchange_3d_side5_only) { side<3, 5>(32); }
AV_CONTRACT(P11, exchange_3d_side5_missing) { side<3, 5>(31); }
AV_CONTRACT(P11, exchange_1d_tags) { tags<1>(); }
AV_CONTRACT(P11, exchange_2d_tags) { tags<2>(); }
AV_CONTRACT(P11, exchange_3d_tags) { tags<3>(); }
AV_CONTRACT(P11, largest_over_processes) {
    alsfvm::mpi::ConfigurationPtr config(new alsfvm::mpi::Configuration(MPI_COMM_WORLD));
    ivec6 neighbours;
    for (int s = 0; s < 6; ++s) neighbours[s] = 10 + s;
    alsfvm::mpi::CartesianCellExchanger exchanger(config, neighbours);
    const double x = av_real("x");
    av_eq("the largest value of all processes is returned", exchanger.max(x), av_real("largest over all processes"));
    av_eq("the value of this process takes part", reducedValue, x);
    av_assert("the values are reduced to their maximum", reducedBy == MPI_MAX && reducedOver == MPI_COMM_WORLD && reducedCount == 1 && reducedType == MPI_DOUBLE);
    av_cover("reduced");
    const ivec6 back = exchanger.getNeighbours();
    for (int s = 0; s < 6; ++s) av_assert("the neighbours are kept", back[s] == 10 + s && exchanger.hasSide(s));
}
