// Native counterpart of the specification functions: executes a contract on concrete values.
//   prog <contract symbol> <tries> <seed> [values file]
// exit 1 + "NATIVE-VIOLATION ..." when an ensures clause fails, exit 0 otherwise.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <cstdarg>
#include <map>
#include <string>
#include <vector>
#include <random>
#include <exception>
#include <chrono>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <ucontext.h>
#include "av.hpp"
namespace {
struct Skip {}; struct Thrown {};
struct Violation { std::string label, what; };
std::map<std::string, double> fixed;   // values suggested by the verifier
bool useFixed = false;
std::mt19937_64 rng(1);
std::vector<double> pool;
std::string trace;
std::string nothrowLabel; bool nothrow = false;
std::map<const double*, size_t> sizes;
std::vector<double*> clones;
std::map<std::string, double> memo;   // a name denotes one value per run, as in the verifier
std::map<std::string, std::map<long, double>> arrays;
long covers = 0, runs = 0, skips = 0, thrown = 0;
double unif(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
int mode = 0;
void note(const std::string& n, double v) {
    if (trace.size() < 6000) { char b[64]; snprintf(b, sizeof b, "=%.17g ", v); trace += n + b; }
}
bool lookup(const std::string& n, double& v) {
    auto mo = memo.find(n);
    if (mo != memo.end()) { v = mo->second; return true; }
    if (!useFixed) return false;
    auto it = fixed.find(n);
    if (it == fixed.end()) return false;
    v = it->second; return true;
}
double rnd() {
    int k = rng() % 12;
    if (mode == 1) { static const double s[] = {0, 1, -1, 2, -2, 0.5, -0.5, 3, 4}; return s[rng() % 9]; }
    if (mode == 2) return unif(0.05, 3);
    if (k == 0) { static const double s[] = {0, 1, -1, 0.5, 2}; return s[rng() % 5]; }
    if (k == 1 && !pool.empty()) return pool[rng() % pool.size()];
    if (k < 5) return unif(0.05, 3);
    if (k < 7) return unif(-10, 10);
    return unif(-2, 2);
}
bool close(double a, double b) {
    if (std::isnan(a) && std::isnan(b)) return true;
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return false;
    // rounding errors of the code grow with the inputs (up to fourth powers of them are subtracted)
    double m = 1;
    for (double x : pool) if (std::fabs(x) < 1e6) m = std::max(m, std::fabs(x));
    return std::fabs(a - b) <= 1e-7 * (1 + std::fabs(a) + std::fabs(b)) + 1e-14 * m * m * m * m;
}
}
extern "C" {
long av_int(const char* name, long lo, long hi) {
    double v; long r;
    if (lookup(name, v)) r = (long)v;
    else {
        long w = hi - lo;
        if (w < 0) throw Skip();
        long span = w < 6 ? w : (rng() % 20 == 0 ? (w < 12 ? w : 12) : 5);
        r = (lo < -6 && hi > 6 && rng() % 10 ? -(span / 2) : lo) + (long)(rng() % (unsigned long)(span + 1));
    }
    if (r < lo || r > hi) throw Skip();
    memo[name] = r;
    note(name, r);
    return r;
}
double av_real(const char* name) {
    double v;
    if (!lookup(name, v)) v = rnd();
    memo[name] = v;
    pool.push_back(v); note(name, v);
    return v;
}
double av_range(const char* name, double lo, double hi) {
    double v;
    if (!lookup(name, v)) {
        int k = rng() % 10;
        v = k == 0 ? lo : k == 1 ? hi : (k == 2 && !pool.empty()) ? pool[rng() % pool.size()] : k < 9 ? rnd() : unif(lo, hi);
        if (!(v >= lo && v <= hi)) v = unif(lo, hi);
    }
    if (!(v >= lo && v <= hi)) throw Skip();
    memo[name] = v;
    pool.push_back(v); note(name, v);
    return v;
}
double av_pos(const char* name) {
    double v;
    if (!lookup(name, v)) { do v = std::fabs(rnd()); while (v < 1e-3); }
    if (!(v > 0)) throw Skip();
    memo[name] = v;
    pool.push_back(v); note(name, v);
    return v;
}
int av_bool(const char* name) { double v; int r; if (lookup(name, v)) r = v != 0; else r = rng() & 1; memo[name] = r; note(name, r); return r; }
int av_near(double a, double b) { return close(a, b); }
void av_exact(double a, double b) { if (a != b && close(a, b)) throw Skip(); }
void av_conditioned(bool b) { if (!b) throw Skip(); }
void av_assume(bool b) { if (!b) throw Skip(); }
void av_assert(const char* l, bool b) { if (!b) throw Violation{l, "condition is false"}; }
void av_eq(const char* l, double a, double b) {
    if (!close(a, b)) { char t[128]; snprintf(t, sizeof t, "%.17g != %.17g", a, b); throw Violation{l, t}; }
}
void av_le(const char* l, double a, double b) {
    if (std::isnan(a) || std::isnan(b)) { throw Violation{l, "nan"}; }
    if (!(a <= b) && !close(a, b)) { char t[128]; snprintf(t, sizeof t, "%.17g > %.17g", a, b); throw Violation{l, t}; }
}
void av_lt(const char* l, double a, double b) {
    if (!(a < b) && !close(a, b)) { char t[128]; snprintf(t, sizeof t, "%.17g >= %.17g", a, b); throw Violation{l, t}; }
}
void av_nothrow(const char* l) { nothrow = true; nothrowLabel = l; }
void av_maythrow() { nothrow = false; }
void av_cover(const char*) { covers++; }
void av_array(double* p, const char* name, long nx, long ny, long nz) {
    sizes[p] = nx * ny * nz;
    bool smooth = rng() % 6 == 0; double c = rnd();
    auto& arr = arrays[name];
    for (long z = 0; z < nz; z++) for (long y = 0; y < ny; y++) for (long x = 0; x < nx; x++) {
        double v; char key[160];
        std::string n = name; n += "[";
        std::vector<long> idx; if (nx != 1) idx.push_back(x); if (ny != 1) idx.push_back(y); if (nz != 1) idx.push_back(z);
        long i = (z * ny + y) * nx + x;
        bool got = false;
        auto known = arr.find((z << 40) + (y << 20) + x);
        if (known != arr.end()) { p[i] = known->second; continue; }
        if (useFixed) {
            std::string k = name; k += "[";
            for (size_t q = 0; q < idx.size(); q++) { snprintf(key, sizeof key, q ? ",%ld" : "%ld", idx[q]); k += key; }
            k += "]";
            got = lookup(k, v);
            if (!got) { snprintf(key, sizeof key, "%s[%ld,%ld,%ld]", name, x, y, z); got = lookup(key, v); }
            if (!got) { snprintf(key, sizeof key, "%s[%ld]", name, i); got = lookup(key, v); }
        }
        if (!got) v = smooth ? c : rnd();
        p[i] = v; arr[(z << 40) + (y << 20) + x] = v;
        if (nx * ny * nz <= 60) { snprintf(key, sizeof key, "%s[%ld,%ld,%ld]", name, x, y, z); note(key, v); }
    }
}
void av_iarray(int* p, const char* name, long n, long lo, long hi) {
    for (long i = 0; i < n; i++) {
        char key[160]; double v; snprintf(key, sizeof key, "%s[%ld]", name, i);
        if (!lookup(key, v)) v = lo + (long)(rng() % (unsigned long)((hi - lo > 20 ? 20 : hi - lo) + 1));
        p[i] = (int)v; memo[key] = v; note(key, v);
    }
}
void av_shape(long, long, long) {}
void av_dims(const double*, long, long, long) {}
double av_fun(const char* name, int n, ...) {
    // smooth in its arguments so that rounding differences stay small
    unsigned long h = 1469598103934665603UL;
    for (const char* c = name; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211UL;
    double s = 0; va_list ap; va_start(ap, n);
    for (int i = 0; i < n; i++) {
        double x = va_arg(ap, double);
        h = (h ^ (i + 17)) * 1099511628211UL;
        s += (1 + (h >> 40) % 7) * 0.21 * x + std::sin(0.7 * x + (h >> 20) % 13);
    }
    va_end(ap);
    return std::sin(s) * 1.5 + 0.3 * s;
}
const double* av_clone(const double* p, long n) {
    double* q = (double*)malloc(n * sizeof(double) + 8); if (!q) throw Skip(); memcpy(q, p, n * sizeof(double)); clones.push_back(q); return q;
}
[[noreturn]] void av_throw() { if (nothrow) throw Violation{nothrowLabel, "an exception is thrown"}; throw Thrown(); }
[[noreturn]] void av_stop() { throw Skip(); }
void av_print(const char*, ...) {}
}
static const char* curContract = "";
static void onSignal(int s, siginfo_t*, void* ctx) {
    // a call of a function that is not linked into the stand-in is not the code's fault
    if (s == SIGSEGV && ((ucontext_t*)ctx)->uc_mcontext.gregs[REG_RIP] == 0) {
        static const char m[] = "NATIVE-INCOMPLETE a function without linked definition is called\n";
        if (write(1, m, sizeof m - 1)) {} _exit(4);
    }
    char b[7000]; int n = snprintf(b, sizeof b, "NATIVE-VIOLATION label=memory-safety what=signal %d inputs: %s\n", s, trace.c_str());
    if (n > (int)sizeof b) n = sizeof b;
    if (write(1, b, n)) {} _exit(1);
}
extern "C" const char* __asan_get_report_description();
extern "C" void __asan_on_error() {
    // sizes suggested by the solver need not fit into this machine
    const char* d = __asan_get_report_description();
    if (d && (strstr(d, "out-of-memory") || (useFixed && strstr(d, "allocation-size-too-big")))) {
        static const char m[] = "NATIVE-INCOMPLETE not enough memory for these inputs\n";
        if (write(1, m, sizeof m - 1)) {}
        _exit(4);
    }
    char b[7000]; int n = snprintf(b, sizeof b, "NATIVE-VIOLATION label=memory-safety what=AddressSanitizer report inputs: %s\n", trace.c_str());
    if (n > (int)sizeof b) n = sizeof b;
    if (write(1, b, n)) {}
}
int main(int argc, char** argv) {
    std::string sym = argv[1]; long tries = atol(argv[2]); unsigned long seed = strtoul(argv[3], 0, 10);
    double secs = argc > 5 ? atof(argv[5]) : 60;
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, sym.c_str());
    if (!fn) { fprintf(stderr, "no symbol %s\n", sym.c_str()); return 3; }
    if (argc > 4 && strcmp(argv[4], "-")) {
        FILE* f = fopen(argv[4], "r"); char nm[400]; double v;
        while (f && fscanf(f, "%399s %lf", nm, &v) == 2) fixed[nm] = v;
        if (f) fclose(f);
    }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO;
    for (int sg : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS}) sigaction(sg, &sa, nullptr);
    auto t0 = std::chrono::steady_clock::now();
    const long first = argc > 6 ? atol(argv[6]) : 0;     // a single run, to see that a failure does not depend on the runs before it
    for (long t = first; t < tries; t++) {
        if ((t & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
        rng.seed(seed * 1000003UL + t); mode = t % 5; pool.clear(); trace.clear(); sizes.clear(); nothrow = false; memo.clear(); arrays.clear();
        for (double* q : clones) free(q); clones.clear();
        useFixed = !fixed.empty() && (t == 0 || t % 2 == 0);
        if (t > 0 && useFixed) { // keep a random subset of the suggested values
            // (values the solver left open are drawn at random)
        }
        runs++;
        try { fn(); }
        catch (Skip&) { skips++; }
        catch (Thrown&) { thrown++; }
        catch (Violation& v) {
            printf("NATIVE-VIOLATION label=%s what=%s try=%ld inputs: %s\n", v.label.c_str(), v.what.c_str(), t, trace.c_str());
            return 1;
        }
        catch (std::exception& e) {
            if (nothrow) { printf("NATIVE-VIOLATION label=%s what=exception %s try=%ld inputs: %s\n", nothrowLabel.c_str(), e.what(), t, trace.c_str()); return 1; }
            thrown++;
        }
    }
    printf("NATIVE-OK runs=%ld skipped=%ld covers=%ld thrown=%ld\n", runs, skips, covers, thrown);
    return 0;
}
// the objects behind the MPI constants, where no MPI library is linked (the calls themselves are given by the contracts)
#define AV_MPI(name) extern "C" { alignas(16) __attribute__((weak)) char name[1024]; }
AV_MPI(ompi_mpi_comm_world) AV_MPI(ompi_mpi_comm_null) AV_MPI(ompi_mpi_comm_self) AV_MPI(ompi_mpi_info_null) AV_MPI(ompi_request_null) AV_MPI(ompi_mpi_datatype_null)
AV_MPI(ompi_mpi_op_sum) AV_MPI(ompi_mpi_op_max) AV_MPI(ompi_mpi_op_min) AV_MPI(ompi_mpi_op_null)
AV_MPI(ompi_mpi_double) AV_MPI(ompi_mpi_float) AV_MPI(ompi_mpi_int) AV_MPI(ompi_mpi_char) AV_MPI(ompi_mpi_byte) AV_MPI(ompi_mpi_unsigned_long) AV_MPI(ompi_mpi_long)
