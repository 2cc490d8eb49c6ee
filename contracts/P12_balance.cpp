// AV-SOURCES: alsuq/src/mpi/SimpleLoadBalancer.cpp alsutils/src/mpi/Configuration.cpp
#include "av.hpp"
#include <mpi.h>
#include "alsuq/mpi/SimpleLoadBalancer.hpp"
using namespace alsuq;
namespace {
long worldSize, worldRank;
int splits; int colors[2], keys[2];
}
extern "C" {
// MPI_Comm_split orders the processes of a colour by key: the new rank is the number of processes of the same colour with
// a smaller key.  The balancer passes (spatial rank, statistical rank) and the other way round, so the new rank is the key.

int MPI_Comm_rank(MPI_Comm, int* r) { *r = splits == 0 ? worldRank : keys[splits - 1]; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int* n) { *n = worldSize; return MPI_SUCCESS; }
int MPI_Comm_split(MPI_Comm, int color, int key, MPI_Comm* out) { if (splits < 2) { colors[splits] = color; keys[splits] = key; } ++splits; *out = MPI_COMM_WORLD; return MPI_SUCCESS; }
}
AV_CONTRACT(P12, balance) {
    splits = 0;
    const long multi = av_int("multiSample", 1, 1000), sx = av_int("multi x", 1, 100), sy = av_int("multi y", 1, 100), sz = av_int("multi z", 1, 100);
    const long per = av_int("samples per process", 1, 1000), spatial = sx * sy * sz;
    worldSize = multi * spatial;
    worldRank = av_int("rank", 0, 1000000000);
    av_assume(worldRank < worldSize);
    std::vector<size_t> samples(multi * per);
    for (size_t i = 0; i < samples.size(); ++i) samples[i] = 7 + i;
    alsuq::mpi::SimpleLoadBalancer b(samples);
    alsuq::mpi::Configuration world(MPI_COMM_WORLD);
    av_nothrow("a matching configuration is accepted");
    auto t = b.loadBalance(multi, ivec3(sx, sy, sz), world);
    auto& mine = std::get<0>(t);
    av_cover("balanced");
    av_assert("every process gets the same number of samples", long(mine.size()) == per);
    const long i = av_int("i", 0, 1000);
    av_assume(i < per);
    av_assert("process r gets the r-th block of samples", long(mine[i]) == 7 + (worldRank / spatial) * per + i);
    av_assert("processes working on the same samples share a spatial communicator", splits == 2 && colors[1] == worldRank / spatial && keys[1] == worldRank % spatial);
    av_assert("processes at the same position share a statistical communicator", colors[0] == worldRank % spatial && keys[0] == worldRank / spatial);
    // every sample belongs to exactly one block
    const long s = av_int("sample", 0, 1000000), r1 = av_int("block", 0, 1000);
    av_assume(s < multi * per && r1 < multi);
    av_assert("the blocks partition the samples", (r1 * per <= s && s < (r1 + 1) * per) == (r1 == s / per));
}
AV_CONTRACT(P12, balance_refused) {
    splits = 0;
    const long multi = av_int("multiSample", 1, 1000), n = av_int("samples", 1, 1000), sx = av_int("multi x", 1, 100), sy = av_int("multi y", 1, 100), sz = av_int("multi z", 1, 100);
    worldSize = av_int("processes", 1, 1000000000);
    worldRank = 0;
    av_assume(multi * (sx * sy * sz) != worldSize || n % multi != 0);
    std::vector<size_t> samples(n);
    for (size_t i = 0; i < samples.size(); ++i) samples[i] = 7 + i;
    alsuq::mpi::SimpleLoadBalancer b(samples);
    alsuq::mpi::Configuration world(MPI_COMM_WORLD);
    av_cover("a configuration that does not divide the work evenly");
    b.loadBalance(multi, ivec3(sx, sy, sz), world);
    av_assert("a configuration that does not divide the work evenly is refused", false);
}
