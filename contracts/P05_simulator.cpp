// AV-SOURCES: alsfvm/src/simulator/Simulator.cpp alsfvm/src/simulator/SimulatorParameters.cpp alsfvm/src/simulator/ConservedSystem.cpp alsfvm/src/integrator/Integrator.cpp alsfvm/src/integrator/ForwardEuler.cpp alsfvm/src/integrator/RungeKutta2.cpp alsfvm/src/integrator/RungeKutta3.cpp alsfvm/src/integrator/RungeKutta4.cpp alsfvm/src/integrator/IntegratorFactory.cpp alsfvm/src/simulator/TimestepInformation.cpp alsfvm/src/volume/Volume.cpp alsfvm/src/memory/HostMemory.cpp alsfvm/src/memory/Memory.cpp alsfvm/src/memory/MemoryFactory.cpp alsfvm/src/DeviceConfiguration.cpp alsfvm/src/grid/Grid.cpp alsfvm/src/diffusion/NoDiffusion.cpp alsfvm/src/equation/CellComputer.cpp alsfvm/src/equation/EquationParameters.cpp
#include "common.hpp"
#include "alsfvm/simulator/Simulator.hpp"
using namespace alsfvm;
namespace {
// the collaborators of the simulator, each known only by its interface
volume::Volume* lastOutput[8];
volume::Volume* bcVolume[8];
volume::Volume* fluxInput[8];
int fluxCalls, bcCalls, writerCalls, checks;
bool admissible;
double firstSpeed;
struct Flux : numflux::NumericalFlux {
    void computeFlux(const volume::Volume& u, rvec3& w, bool, volume::Volume& out, const ivec3&, const ivec3&) override {
        static const char* const nm[] = {"L0", "L1", "L2", "L3"};
        static const char* const sp[] = {"s0", "s1", "s2", "s3"};
        // an operator may be evaluated window by window; its value per stage is one array
        if (bcCalls < 4) { spec::arbitrary(out, nm + bcCalls); w[0] = av_pos(sp[bcCalls]); }
        if (fluxCalls == 0) firstSpeed = w[0];
        fluxInput[bcCalls & 7] = const_cast<volume::Volume*>(&u);
        ++fluxCalls;
    }
    size_t getNumberOfGhostCells() override { return 2; }
};
struct BC : boundary::Boundary {
    void applyBoundaryConditions(volume::Volume& v, const grid::Grid&) override { bcVolume[bcCalls++ & 7] = &v; }
};
struct Cells : equation::CellComputer {
    volume::Volume* seen = nullptr;
    void computeExtraVariables(const volume::Volume&, volume::Volume&) override {}
    real computeMaxWaveSpeed(const volume::Volume&, size_t) override { return 0; }
    bool obeysConstraints(const volume::Volume& u) override { ++checks; seen = const_cast<volume::Volume*>(&u); return admissible; }
    void computeFromPrimitive(const volume::Volume&, volume::Volume&) override {}
};
Cells* cells;
struct Log : io::Writer {
    const volume::Volume* seen = nullptr;
    double time = -1; size_t steps = 99; int order = -1, calls = 0, finals = 0;
    void write(const volume::Volume& u, const grid::Grid&, const simulator::TimestepInformation& t) override {
        av_assert("an inadmissible state is not written", admissible);
        seen = &u; time = t.getCurrentTime(); steps = t.getNumberOfStepsPerformed(); order = writerCalls++; ++calls;
    }
    void finalize(const grid::Grid&, const simulator::TimestepInformation& t) override { ++finals; time = t.getCurrentTime(); }
};
struct Clamp : integrator::TimestepAdjuster {
    const char* name; double in = -1; double t = -1; double out = -1;
    explicit Clamp(const char* n) : name(n) {}
    real adjustTimestep(real dt, const simulator::TimestepInformation& info) const override {
        auto me = const_cast<Clamp*>(this);
        me->in = dt; me->t = info.getCurrentTime();
        return me->out = av_fun(name, 1, dt);
    }
};
}
// stand-ins for the factories (the simulator only uses the interfaces they return)
namespace alsfvm {
namespace numflux {
NumericalFluxFactory::NumericalFluxFactory(const std::string& e, const std::string& f, const std::string& r, const alsfvm::shared_ptr<simulator::SimulatorParameters>& p, alsfvm::shared_ptr<DeviceConfiguration>& d)
    : equation(e), fluxname(f), reconstruction(r), deviceConfiguration(d), simulatorParameters(p) {}
NumericalFluxFactory::NumericalFluxPtr NumericalFluxFactory::createNumericalFlux(const grid::Grid&) { return NumericalFluxPtr(new Flux); }
}
namespace boundary {
BoundaryFactory::BoundaryFactory(const std::string& n, alsfvm::shared_ptr<DeviceConfiguration>& d) : name(n), deviceConfiguration(d) {}
alsfvm::shared_ptr<Boundary> BoundaryFactory::createBoundary(size_t g) { av_assert("the boundary fills as many ghost cells as the scheme needs", g == 2); return alsfvm::shared_ptr<Boundary>(new BC); }
}
namespace equation {
CellComputerFactory::CellComputerFactory(const alsfvm::shared_ptr<simulator::SimulatorParameters>& p, alsfvm::shared_ptr<DeviceConfiguration>&) : simulatorParameters(p) {}
alsfvm::shared_ptr<CellComputer> CellComputerFactory::createComputer() { return alsfvm::shared_ptr<CellComputer>(cells = new Cells); }
}
namespace volume {
VolumeFactory::VolumeFactory(const std::string& e, alsfvm::shared_ptr<memory::MemoryFactory> m) : equation(e), memoryFactory(m) {}
alsfvm::shared_ptr<Volume> VolumeFactory::createConservedVolume(size_t nx, size_t ny, size_t nz, size_t g) {
    av_assert("volumes have the ghost cells the scheme needs", g == 2);
    return spec::makeVolume(1, nx, ny, nz, g);
}
alsfvm::shared_ptr<Volume> VolumeFactory::createPrimitiveVolume(size_t nx, size_t ny, size_t nz, size_t g) { return spec::makeVolume(1, nx, ny, nz, g); }
alsfvm::shared_ptr<Volume> VolumeFactory::createExtraVolume(size_t nx, size_t ny, size_t nz, size_t g) { return spec::makeVolume(1, nx, ny, nz, g); }
}
}
namespace {
struct Init : init::InitialData {
    void setInitialData(volume::Volume& u, volume::Volume&, equation::CellComputer&, grid::Grid&) override { spec::arbitrary(u, spec::U); }
    void setParameters(const init::Parameters&) override {}
    boost::property_tree::ptree getDescription() const override { return boost::property_tree::ptree(); }
};
void run(const char* method, int stages, int order, bool ok, int adjusters) {
    fluxCalls = bcCalls = writerCalls = checks = 0;
    admissible = ok;
    const long tx = av_int("tx", 5, 100000), n = tx - 4;
    alsfvm::shared_ptr<DeviceConfiguration> dc(new DeviceConfiguration("cpu"));
    alsfvm::shared_ptr<memory::MemoryFactory> mf(new memory::MemoryFactory(dc));
    alsfvm::shared_ptr<simulator::SimulatorParameters> par(new simulator::SimulatorParameters());
    const double cfl = av_pos("cfl");
    par->setPlatform("cpu");
    par->setCFLNumber(cfl);
    alsfvm::shared_ptr<grid::Grid> grid(new grid::Grid(rvec3(0, 0, 0), rvec3(av_pos("length"), 0, 0), ivec3(n, 1, 1)));
    volume::VolumeFactory vf("burgers", mf);
    integrator::IntegratorFactory inf(method);
    boundary::BoundaryFactory bf("periodic", dc);
    numflux::NumericalFluxFactory nff("burgers", "hll", "none", par, dc);
    equation::CellComputerFactory ccf(par, dc);
    alsfvm::shared_ptr<diffusion::DiffusionOperator> diff(new diffusion::NoDiffusion);
    std::string eq = "burgers";
    const double T = av_pos("T");
    simulator::Simulator sim(*par, grid, vf, inf, bf, nff, ccf, mf, T, dc, eq, diff, "s");
    alsfvm::shared_ptr<init::InitialData> init(new Init);
    sim.setInitialValue(init);
    av_assert("initial data is extended to the ghost cells", bcCalls == 1);
    volume::Volume* start = bcVolume[0];
    const double* old = spec::old(*start, 0);
    bcCalls = 0;
    auto w1 = new Log, w2 = new Log;
    sim.addWriter(alsfvm::shared_ptr<io::Writer>(w1));
    sim.addWriter(alsfvm::shared_ptr<io::Writer>(w2));
    auto a1 = new Clamp("A1"), a2 = new Clamp("A2");
    alsfvm::shared_ptr<integrator::TimestepAdjuster> p1(a1), p2(a2);
    if (adjusters) { sim.addTimestepAdjuster(p1); sim.addTimestepAdjuster(p2); }
    av_eq("time starts at zero", sim.getCurrentTime(), 0);
    av_assert("the run is not over before its end", !sim.atEnd());
    av_eq("end time", sim.getEndTime(), T);
    av_cover("a step");
    if (ok) av_nothrow("an admissible state is accepted");
    sim.performStep();
    av_assert("a state outside the constraints aborts the run", ok);
    av_assert("the new state is checked once", checks == 1);
    av_assert("every stage is extended to the ghost cells once", bcCalls == stages);
    const double dx = grid->getCellLengths().x;
    const double expected = cfl * dx / firstSpeed;
    const double dt = sim.getCurrentTime();
    if (adjusters) {
        av_eq("the adjusters see the CFL time step", a1->in, expected);
        av_eq("the adjusters are applied in the order they were added", a2->in, a1->out);
        av_eq("the adjusted time step is the one taken", dt, a2->out);
        av_eq("adjusters see the time before the step", a2->t, 0);
    } else av_eq("time advances by the CFL time step", dt, expected);
    av_assert("the run ends exactly when the end time is reached", sim.atEnd() == (dt >= T));
    av_assert("each writer is called once, in order", w1->calls == 1 && w2->calls == 1 && w1->order == 0 && w2->order == 1);
    av_eq("writers see the new time", w2->time, dt);
    av_assert("writers see the step count", w1->steps == 1 && w2->steps == 1);
    av_assert("the state that was checked is the one that is written", w1->seen == cells->seen && w2->seen == cells->seen && w1->seen == bcVolume[stages - 1]);
    av_assert("each stage reads the previous one", fluxInput[0] == start);
    for (int s = 1; s < stages; ++s) av_assert("each stage reads the previous one", fluxInput[s] == bcVolume[s - 1]);
    (void)old; (void)order;
    // a second step continues from the state of the first one
    bcCalls = fluxCalls = 0;
    volume::Volume* const after = bcVolume[stages - 1];
    if (adjusters) {
        sim.performStep();
        av_eq("adjusters see the time reached so far", a1->t, dt);
        av_eq("time steps add up", sim.getCurrentTime(), dt + a2->out);
        av_assert("writers see the step count", w1->steps == 2);
        av_assert("the second step starts from the result of the first", fluxInput[0] == after);
        av_assert("the state that was checked is the one that is written", w1->seen == cells->seen && w1->seen == bcVolume[stages - 1] && checks == 2);
        av_assert("the run ends exactly when the end time is reached", sim.atEnd() == (dt + a2->out >= T));
    }
    sim.finalize();
    av_assert("every writer is finalised", w1->finals == 1 && w2->finals == 1);
}
}
AV_CONTRACT(P05, step_forward_euler) { run("forwardeuler", 1, 1, true, 0); }
AV_CONTRACT(P05, step_forward_euler_adjusted) { run("forwardeuler", 1, 1, true, 2); }
AV_CONTRACT(P05, step_runge_kutta2) { run("rungekutta2", 2, 2, true, 2); }
AV_CONTRACT(P05, step_runge_kutta3) { run("rungekutta3", 3, 3, true, 2); }
AV_CONTRACT(P05, step_runge_kutta4) { run("rungekutta4", 4, 4, true, 0); }
AV_CONTRACT(P05, step_rejected) { run("rungekutta2", 2, 2, false, 2); }
