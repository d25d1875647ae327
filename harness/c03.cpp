// C03: threads and variants. The real library, instrumented, runs under a controlled scheduler (sched.hpp): all the schedules
// of small programs are executed up to a bound on the preemptions. In each of them every pair of conflicting accesses must be
// ordered by synchronisation, no thread may block for ever, each thread must read what was last written to its variant, and
// the answers of the variant manager must be those of some sequential order of the requests.
#include <algorithm>
#include <array>
#include <csignal>
#include <cstring>
#include <map>
#include <set>

#include <cxxabi.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <powsybl/iidm/TopologyVisitor.hpp>
#include <powsybl/iidm/VoltageLevelTopologyTraverser.hpp>
#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>

#include "net.hpp"
#include "sched.hpp"

using namespace powsybl::iidm;  // NOLINT
namespace ext = powsybl::iidm::extensions;

namespace {

const Terminal& constant(const Terminal& t) { return t; }
std::string busId(const stdcxx::CReference<Bus>& b) { return b ? b.get().getId() : "-"; }

const char* INIT = "InitialVariant";

// ------------------------------------------------------------------------------------------------ exploration of a scenario

struct Done {                                 // an operation executed by a thread
    std::string name, answer;
    uint64_t begin, end;
};

class Scenario {
public:
    virtual ~Scenario() = default;
    std::vector<std::vector<std::string>> programs;           // names of the operations
    std::vector<std::vector<Done>> history;                   // what happened in the last execution
    virtual std::string execute(unsigned thread, unsigned index) = 0;
    virtual void before() {}                                   // sets the state, before each execution
    virtual std::string after() { return ""; }                 // the first difference with what is expected
};

struct Body { Scenario* s; unsigned thread; };

void body(void* p) {
    Body& b = *static_cast<Body*>(p);
    for (unsigned i = 0; i < b.s->programs[b.thread].size(); ++i) {
        sched::point();
        Done d;
        d.name = b.s->programs[b.thread][i];
        d.begin = sched::now();
        try {
            d.answer = b.s->execute(b.thread, i);
        } catch (const std::exception&) {
            d.answer = "!";
        }
        d.end = sched::now();
        b.s->history[b.thread].push_back(d);
    }
}

struct Shared {                               // written by the process that explores
    uint64_t schedules, points, states, maxDecisions;
    int bound, complete;
    char text[4000];
    char order[4000];
};

Scenario* current = nullptr;
Shared* shared = nullptr;

std::string symbol(const void* pc) {
    Dl_info i;
    if (pc && dladdr(static_cast<const char*>(pc) - 1, &i) && i.dli_sname) {
        int status = 0;
        char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &status);
        std::string r = status == 0 ? d : i.dli_sname;
        std::free(d);
        return r.size() > 160 ? r.substr(0, 160) + "..." : r;
    }
    return "?";
}

std::string order(const Scenario& s) {
    std::string r;
    for (unsigned t = 0; t < s.history.size(); ++t) {
        r += "thread " + mc::str(t + 1) + ":";
        for (const Done& d : s.history[t]) r += " [" + mc::str(d.begin) + "-" + mc::str(d.end) + "] " + d.name + " -> " + (d.answer.size() > 120 ? d.answer.substr(0, 120) + "..." : d.answer) + ";";
        if (s.history[t].size() < s.programs[t].size()) r += " then " + s.programs[t][s.history[t].size()];
        r += "\n";
    }
    return r;
}

[[noreturn]] void report(const std::string& what) {
    std::strncpy(shared->text, what.c_str(), sizeof(shared->text) - 1);
    std::strncpy(shared->order, order(*current).c_str(), sizeof(shared->order) - 1);
    _exit(1);
}

void onDeadlock() { report("the threads block each other for ever"); }

const int CAPACITY = 20000;

// one execution; the number of decisions
int execute(Scenario& s, unsigned preemptions, std::vector<sched::Decision>& decisions, int replayed) {
    const unsigned n = static_cast<unsigned>(s.programs.size());
    s.before();
    s.history.assign(n, {});
    for (unsigned i = 0; i < n; ++i) s.history[i].reserve(s.programs[i].size());
    std::vector<Body> bodies(n);
    void (*fs[sched::MAX_THREADS])(void*);
    void* args[sched::MAX_THREADS];
    for (unsigned i = 0; i < n; ++i) {
        bodies[i] = {&s, i};
        fs[i] = body;
        args[i] = &bodies[i];
    }
    const int r = sched::run(static_cast<int>(n), fs, args, preemptions, decisions.data(), replayed, CAPACITY);
    ++shared->schedules;
    shared->points += sched::points();
    shared->maxDecisions = std::max<uint64_t>(shared->maxDecisions, static_cast<uint64_t>(std::max(r, 0)));
    if (sched::overflow()) report("internal: the execution is too long for the runtime");
    const sched::Race& race = sched::race();
    if (race.found) {
        std::string text = std::string("unsynchronised conflicting accesses: thread ") + mc::str(race.thread1 + 1) + (race.write1 ? " writes in " : " reads in ") + symbol(race.pc1) + ", thread " + mc::str(race.thread2 + 1) + (race.freed ? " frees" : race.write2 ? " writes" : " reads") + " in";
        for (int i = 0; i < race.depth2; ++i) text += " < " + symbol(race.stack2[i]);
        report(text);
    }
    const std::string problem = s.after();
    if (!problem.empty()) report(problem);
    return r;
}

bool next(std::vector<sched::Decision>& d, int& n) {
    while (n > 0 && d[n - 1].chosen + 1 >= d[n - 1].count) --n;
    if (n == 0) return false;
    ++d[n - 1].chosen;
    return true;
}

// all the schedules with at most bound preemptions; false when there are more than limit
bool explore(Scenario& s, unsigned bound, uint64_t limit, std::vector<sched::Decision>& d) {
    int n = 0;
    for (uint64_t count = 0;; ++count) {
        if (count >= limit) return false;
        n = execute(s, bound, d, n);
        if (n < 0) report("internal: too many decisions");
        if (!next(d, n)) return true;
    }
}

// in a process of its own: the first execution meets the library as it was never used before
void runScenario(const std::function<std::unique_ptr<Scenario>()>& make, unsigned whole, unsigned bound, uint64_t limit, mc::Run& run) {
    Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::memset(sh, 0, sizeof(Shared));
    const pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("fork");
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        shared = sh;
        sched::deadlock = onDeadlock;
        std::unique_ptr<Scenario> s = make();
        current = s.get();
        std::vector<sched::Decision> d(CAPACITY);
        for (unsigned b = 0; b <= bound; ++b) {
            sh->bound = static_cast<int>(b);
            // always complete up to a bound, and further when the schedules are not too many
            if (!explore(*s, b, b <= whole ? UINT64_MAX : limit, d)) break;
            sh->complete = b;
        }
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0) {}
    const Shared r = *sh;
    munmap(sh, sizeof(Shared));
    run.transition(r.points);
    run.trace(r.schedules);
    run.count(r.schedules);
    if (WIFSIGNALED(status)) run.fail("a schedule ends the process with signal " + mc::str(WTERMSIG(status)) + ", with " + mc::str(r.bound) + " preemptions at most, after " + mc::str(r.schedules) + " schedules");
    if (WEXITSTATUS(status) != 0) {
        std::string line;
        std::istringstream lines(r.order);
        while (std::getline(lines, line)) run.step(line);
        run.fail(std::string(r.text[0] ? r.text : "the process ended") + " (schedule " + mc::str(r.schedules) + ", " + mc::str(r.bound) + " preemptions at most)");
    }
    run.state("complete with " + mc::str(r.complete) + " preemptions, " + " " + mc::str(r.schedules) + " " + mc::str(r.points));
}

// ------------------------------------------------------------------------------------------------ attributes

struct Attribute {
    std::string name;
    std::function<void(Network&, int)> write;                  // k = 0, 1, 2
    std::function<std::string(Network&)> read;
};

double num(int k) { return 10.0 + k; }

struct Visitor : TopologyVisitor {
    int n = 0;
    void visitLine(const Line&, const Branch::Side&) override { ++n; }
    void visitLoad(const Load&) override { ++n; }
    void visitGenerator(const Generator&) override { ++n; }
    void visitTwoWindingsTransformer(const TwoWindingsTransformer&, const Branch::Side&) override { ++n; }
};
struct Traverser : voltage_level::TopologyTraverser {
    int n = 0;
    bool traverse(Terminal&, bool connected) override { n += connected ? 2 : 1; return true; }
    bool traverse(Switch& s) override { ++n; return !s.isOpen(); }
};

std::string buses(Network& n) {
    std::string r;
    for (Bus& b : n.getBusView().getBuses()) r += b.getId() + "/" + mc::str(b.getConnectedTerminalCount()) + " ";
    return r;
}
std::string components(Network& n) {
    std::string r;
    for (Bus& b : n.getBusView().getBuses()) {
        auto c = b.getConnectedComponent();
        auto s = b.getSynchronousComponent();
        r += b.getId() + ":" + (c ? mc::str(c.get().getNum()) + "," + mc::str(c.get().getSize()) : "-") + ":" + (s ? mc::str(s.get().getNum()) + "," + mc::str(s.get().getSize()) : "-") + " ";
    }
    return r;
}

const std::vector<Attribute>& attributes() {
    static std::vector<Attribute> v;
    if (!v.empty()) return v;
    auto add = [&](const std::string& name, const std::function<void(Network&, int)>& w, const std::function<std::string(Network&)>& r) { v.push_back({name, w, r}); };
#define NUMBER(Name, Object, Set, Get) add(Name, [](Network& n, int k) { n.Object.Set(num(k)); }, [](Network& n) { return mc::str(n.Object.Get()); })
#define FLAG(Name, Object, Set, Get) add(Name, [](Network& n, int k) { n.Object.Set(k == 1); }, [](Network& n) { return mc::str(static_cast<bool>(n.Object.Get())); })
    NUMBER("load p0", getLoad("LD1"), setP0, getP0);
    NUMBER("load q0", getLoad("LDB1"), setQ0, getQ0);
    NUMBER("terminal p", getLoad("LD1").getTerminal(), setP, getP);
    NUMBER("terminal q", getLine("L1").getTerminal2(), setQ, getQ);
    NUMBER("generator p", getGenerator("G1"), setTargetP, getTargetP);
    NUMBER("generator q", getGenerator("G1"), setTargetQ, getTargetQ);
    NUMBER("generator v", getGenerator("G1"), setTargetV, getTargetV);
    FLAG("generator regulation", getGenerator("G1"), setVoltageRegulatorOn, isVoltageRegulatorOn);
    NUMBER("battery p0", getBattery("BAT1"), setP0, getP0);
    NUMBER("dangling line p0", getDanglingLine("DL1"), setP0, getP0);
    NUMBER("dangling line generation p", getDanglingLine("DL1").getGeneration().get(), setTargetP, getTargetP);
    FLAG("dangling line regulation", getDanglingLine("DL1").getGeneration().get(), setVoltageRegulationOn, isVoltageRegulationOn);
    add("shunt sections", [](Network& n, int k) { n.getShuntCompensator("SH2").setSectionCount(static_cast<unsigned long>(k)); }, [](Network& n) { return mc::str(n.getShuntCompensator("SH2").getSectionCount()) + " " + mc::str(n.getShuntCompensator("SH2").getB()); });
    NUMBER("shunt v", getShuntCompensator("SH1"), setTargetV, getTargetV);
    FLAG("shunt regulation", getShuntCompensator("SH1"), setVoltageRegulatorOn, isVoltageRegulatorOn);
    NUMBER("svc v", getStaticVarCompensator("SVC1"), setVoltageSetpoint, getVoltageSetpoint);
    add("svc mode", [](Network& n, int k) { n.getStaticVarCompensator("SVC1").setRegulationMode(static_cast<StaticVarCompensator::RegulationMode>(k)); }, [](Network& n) { return mc::str(static_cast<int>(n.getStaticVarCompensator("SVC1").getRegulationMode())); });
    NUMBER("vsc v", getVscConverterStation("VSC1"), setVoltageSetpoint, getVoltageSetpoint);
    FLAG("vsc regulation", getVscConverterStation("VSC1"), setVoltageRegulatorOn, isVoltageRegulatorOn);
    NUMBER("hvdc p", getHvdcLine("HVDC1"), setActivePowerSetpoint, getActivePowerSetpoint);
    add("hvdc mode", [](Network& n, int k) { n.getHvdcLine("HVDC1").setConvertersMode(static_cast<HvdcLine::ConvertersMode>(k % 2)); }, [](Network& n) { return mc::str(static_cast<int>(n.getHvdcLine("HVDC1").getConvertersMode())); });
    add("ratio tap", [](Network& n, int k) { n.getTwoWindingsTransformer("T1").getRatioTapChanger().setTapPosition(k - 1); }, [](Network& n) { auto& r = n.getTwoWindingsTransformer("T1").getRatioTapChanger(); return mc::str(r.getTapPosition()) + " " + mc::str(r.getCurrentStep().getRho()); });
    FLAG("ratio regulating", getTwoWindingsTransformer("T1").getRatioTapChanger(), setRegulating, isRegulating);
    NUMBER("ratio v", getTwoWindingsTransformer("T1").getRatioTapChanger(), setTargetV, getTargetV);
    add("phase tap", [](Network& n, int k) { n.getTwoWindingsTransformer("T2").getPhaseTapChanger().setTapPosition(k + 3); }, [](Network& n) { return mc::str(n.getTwoWindingsTransformer("T2").getPhaseTapChanger().getTapPosition()); });
    FLAG("phase regulating", getTwoWindingsTransformer("T2").getPhaseTapChanger(), setRegulating, isRegulating);
    NUMBER("phase value", getTwoWindingsTransformer("T2").getPhaseTapChanger(), setRegulationValue, getRegulationValue);
    add("leg tap", [](Network& n, int k) { n.getThreeWindingsTransformer("T3").getLeg2().getRatioTapChanger().setTapPosition(k - 1); }, [](Network& n) { return mc::str(n.getThreeWindingsTransformer("T3").getLeg2().getRatioTapChanger().getTapPosition()); });
    NUMBER("bus v", getBusBreakerView().getBus("B3").get(), setV, getV);
    NUMBER("bus angle", getBusBreakerView().getBus("B3").get(), setAngle, getAngle);
    add("load detail", [](Network& n, int k) { n.getLoad("LD1").getExtension<ext::LoadDetail>().setFixedActivePower(num(k)).setVariableReactivePower(num(k) + 5); }, [](Network& n) { auto& d = n.getLoad("LD1").getExtension<ext::LoadDetail>(); return mc::str(d.getFixedActivePower()) + " " + mc::str(d.getVariableReactivePower()); });
    add("slack terminal", [](Network& n, int k) { n.getVoltageLevel("VB1").getExtension<ext::SlackTerminal>().setTerminal(k == 0 ? stdcxx::Reference<Terminal>() : stdcxx::ref(n.getLoad(k == 1 ? "LDB1" : "LDB2").getTerminal())); }, [](Network& n) { auto t = n.getVoltageLevel("VB1").getExtension<ext::SlackTerminal>().getTerminal(); return t ? t.get().getConnectable().get().getId() : "-"; });
    // topology
    auto nb = [](Network& n, int k) { n.getSwitch("CPL").setOpen(k == 1); n.getSwitch("B_VN1_2").setOpen(k == 2); };
    auto bb = [](Network& n, int k) { n.getSwitch("SWB").setOpen(k == 1); n.getSwitch("SWO").setOpen(k != 2); };
    add("nodes: switches and states", nb, [](Network& n) { return mc::str(n.getSwitch("CPL").isOpen()) + mc::str(n.getSwitch("B_VN1_2").isOpen()) + mc::str(n.getLoad("LD1").getTerminal().isConnected()); });
    add("nodes: switches and buses", nb, [](Network& n) { return net::ids(n.getVoltageLevel("VN1").getBusView().getBuses()) + "|" + busId(constant(n.getLoad("LD1").getTerminal()).getBusView().getBus()); });
    add("nodes: switches and network buses", nb, buses);
    add("nodes: switches and components", nb, components);
    add("nodes: retained switches", [](Network& n, int k) { n.getSwitch("CPL").setRetained(k != 1); n.getSwitch("B_VN1_2").setRetained(k == 2); }, [](Network& n) { return mc::str(n.getSwitch("CPL").isRetained()) + " " + net::ids(n.getVoltageLevel("VN1").getBusBreakerView().getBuses()) + "|" + net::ids(n.getBusBreakerView().getSwitches()); });
    add("nodes: connection", [](Network& n, int k) { Terminal& t = n.getLoad("LD1").getTerminal(); n.getSwitch("B_VN1_2").setOpen(false); if (k == 1) t.disconnect(); else t.connect(); if (k == 2) n.getSwitch("CPL").setOpen(true); else n.getSwitch("CPL").setOpen(false); },
        [](Network& n) { return mc::str(n.getLoad("LD1").getTerminal().isConnected()) + " " + mc::str(n.getSwitch("CPL").isOpen()) + " " + net::ids(n.getVoltageLevel("VN1").getBusView().getBuses()); });
    add("buses: switches and buses", bb, [](Network& n) { return net::ids(n.getVoltageLevel("VB1").getBusView().getBuses()) + "|" + busId(constant(n.getLoad("LDB1").getTerminal()).getBusView().getBus()); });
    add("buses: switches and network buses", bb, buses);
    add("buses: switches and components", bb, components);
    add("buses: connection", [](Network& n, int k) { Terminal& t = n.getLoad("LDB1").getTerminal(); t.getBusBreakerView().setConnectableBus(k == 2 ? "B2" : "B1"); if (k == 1) t.disconnect(); else t.connect(); },
        [](Network& n) { Terminal& t = n.getLoad("LDB1").getTerminal(); return mc::str(t.isConnected()) + " " + t.getBusBreakerView().getConnectableBus().get().getId() + " " + busId(constant(t).getBusBreakerView().getBus()) + " " + net::ids(n.getVoltageLevel("VB1").getBusView().getBuses()); });
    add("calculated bus v", [](Network& n, int k) { for (Bus& b : n.getVoltageLevel("VN1").getBusView().getBuses()) b.setV(num(k)); }, [](Network& n) { std::string r; for (Bus& b : n.getVoltageLevel("VN1").getBusView().getBuses()) r += b.getId() + " " + mc::str(b.getV()) + " "; return r; });
    add("merged bus v", [](Network& n, int k) { for (Bus& b : n.getVoltageLevel("VB1").getBusView().getBuses()) b.setAngle(num(k)); }, [](Network& n) { std::string r; for (Bus& b : n.getVoltageLevel("VB1").getBusView().getBuses()) r += b.getId() + " " + mc::str(b.getAngle()) + " "; return r; });
    // what does not depend on the variants
    auto none = [](Network&, int) {};
    add("lists", none, [](Network& n) { return net::ids(n.getLoads()) + net::ids(n.getLines()) + net::ids(n.getGenerators()) + net::ids(n.getSwitches()) + net::ids(n.getBusbarSections()); });
    add("lists of a const network", none, [](Network& m) { const Network& n = m; return net::ids(n.getTwoWindingsTransformers()) + net::ids(n.getBatteries()) + net::ids(n.getHvdcLines()) + net::ids(n.getStaticVarCompensators()) + net::ids(n.getVoltageLevels()); });
    add("all the equipment", none, [](Network& n) { return net::ids(n.getConnectables()) + net::ids(n.getIdentifiables()) + net::ids(n.getBranches()) + net::ids(n.getHvdcConverterStations()); });
    add("counts", none, [](Network& n) { return mc::str(n.getLoadCount()) + " " + mc::str(n.getBranchCount()) + " " + mc::str(n.getConnectableCount()) + " " + mc::str(n.getHvdcConverterStationCount()) + " " + mc::str(n.getCountryCount()) + " " + mc::str(n.getSwitchCount()); });
    add("search", none, [](Network& n) { return n.getIdentifiable("alias L1").getId() + n.getLoad("LD1").getNameOrId() + mc::str(static_cast<bool>(n.find<Load>("none"))) + n.getSubstation("S1").getTso(); });
    add("content of a voltage level", none, [](Network& n) { auto& l = n.getVoltageLevel("VB1"); return net::ids(l.getLoads()) + net::ids(l.getGenerators()) + net::ids(l.getConnectables()) + net::ids(n.getSubstation("S1").getTwoWindingsTransformers()) + mc::str(l.getShuntCompensatorCount()); });
    add("limits", none, [](Network& n) { return mc::str(n.getLine("L1").getCurrentLimits1().get().getPermanentLimit()) + mc::str(n.getLine("L1").isOverloaded()) + mc::str(n.getGenerator("G1").getReactiveLimits<ReactiveLimits>().getMaxQ(10)) + mc::str(n.getShuntCompensator("SH1").getB(1)); });
    add("traversal", none, [](Network& n) { Traverser t; n.getLoad("LD1").getTerminal().traverse(t); Visitor w; n.getVoltageLevel("VB1").visitEquipments(w); return mc::str(t.n) + " " + mc::str(w.n); });
    add("nodes of a voltage level", none, [](Network& n) { auto& w = n.getVoltageLevel("VN1").getNodeBreakerView(); std::string r; for (auto x : w.getNodes()) r += mc::str(x) + " "; return r + mc::str(w.getMaximumNodeIndex()) + net::ids(w.getSwitches()); });
    return v;
}

std::unique_ptr<Network> full;                // with the variants a and b, and access from several threads
std::vector<std::array<std::string, 3>> golden;

void prepare() {
    if (full) return;
    net::loadExtensions();
    full.reset(new Network(net::full()));
    Network& n = *full;
    if (!n.getLoad("LD1").findExtension<ext::LoadDetail>()) throw std::logic_error("no load detail");
    n.getVariantManager().cloneVariant(INIT, {"a", "b"});
    n.getVariantManager().allowVariantMultiThreadAccess(true);
    for (const char* v : {INIT, "a", "b"}) {
        n.getVariantManager().setWorkingVariant(v);
        for (auto& a : attributes()) a.write(n, 0);
    }
    n.getVariantManager().setWorkingVariant(INIT);
    // the values read are computed in another process: nothing is computed in this one before the threads run
    int p[2];
    if (pipe(p) != 0) throw std::runtime_error("pipe");
    const pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        std::string all;
        for (auto& a : attributes()) {
            for (int k = 0; k < 3; ++k) {
                std::string t;
                try { a.write(n, k); t = a.read(n); } catch (const std::exception& e) { t = std::string("!") + a.name + " " + e.what(); }
                all += t + '\n';
            }
            try { a.write(n, 0); } catch (const std::exception&) {}
        }
        for (size_t o = 0; o < all.size();) { ssize_t w = ::write(p[1], all.data() + o, all.size() - o); if (w <= 0) _exit(1); o += static_cast<size_t>(w); }
        _exit(0);
    }
    close(p[1]);
    std::string all;
    char buffer[4096];
    for (ssize_t r; (r = ::read(p[0], buffer, sizeof(buffer))) > 0;) all.append(buffer, static_cast<size_t>(r));
    close(p[0]);
    int status = 0;
    while (waitpid(pid, &status, 0) < 0) {}
    std::istringstream lines(all);
    golden.resize(attributes().size());
    for (auto& g : golden) for (auto& t : g) {
        std::getline(lines, t);
        if (t.empty() || t[0] == '!') throw std::logic_error("attribute " + t);
    }
}

// each thread on its own variant: select, read, write, read
class Attributes : public Scenario {
public:
    Attributes(unsigned a, unsigned b, bool selected) : m_a{{a, b}}, m_selected(selected) {
        for (unsigned t = 0; t < 2; ++t) programs.push_back({std::string("select ") + (t ? "b" : "a"), "read " + attributes()[m_a[t]].name, "write " + attributes()[m_a[t]].name, "read " + attributes()[m_a[t]].name});
    }
    void before() override {
        Network& n = *full;
        for (const char* v : {INIT, "b", "a"}) {
            n.getVariantManager().setWorkingVariant(v);
            // written twice, so that whatever is kept from a previous execution is computed again
            for (unsigned x : m_a) attributes()[x].write(n, 1);
            for (unsigned x : m_a) attributes()[x].write(n, 0);
        }
        n.getVariantManager().setWorkingVariant(INIT);
    }
    std::string execute(unsigned t, unsigned i) override {
        const Attribute& a = attributes()[m_a[t]];
        switch (i) {
            case 0: full->getVariantManager().setWorkingVariant(t ? "b" : "a"); return "";
            case 2: a.write(*full, static_cast<int>(t) + 1); return "";
            default: return a.read(*full);
        }
    }
    std::string after() override {
        Network& n = *full;
        for (unsigned t = 0; t < 2; ++t) {
            const auto& g = golden[m_a[t]];
            const auto& h = history[t];
            if (h[0].answer != "" || h[2].answer != "") return "an operation of thread " + mc::str(t + 1) + " is refused";
            if (h[1].answer != g[0]) return "thread " + mc::str(t + 1) + " reads " + h[1].answer + " before it writes, expected " + g[0];
            if (h[3].answer != g[t + 1]) return "thread " + mc::str(t + 1) + " reads " + h[3].answer + " after it wrote, expected " + g[t + 1];
        }
        auto look = [&](const char* v, unsigned t, int k) -> std::string {
            n.getVariantManager().setWorkingVariant(v);
            std::string r = attributes()[m_a[t]].read(n);
            return r == golden[m_a[t]][k] ? "" : std::string("afterwards variant ") + v + " holds " + r + " for " + attributes()[m_a[t]].name + ", expected " + golden[m_a[t]][k];
        };
        std::string r = look("a", 0, 1);
        if (r.empty()) r = look("b", 1, 2);
        if (r.empty()) r = look(INIT, 0, 0);
        if (r.empty()) r = look(INIT, 1, 0);
        n.getVariantManager().setWorkingVariant(INIT);
        return r;
    }
private:
    std::array<unsigned, 2> m_a;
    bool m_selected;
};

// ------------------------------------------------------------------------------------------------ requests, against a model

Network small(const std::string& id) {
    Network n(id, "test");
    Substation& s = n.newSubstation().setId("S").add();
    VoltageLevel& v = s.newVoltageLevel().setId("V").setNominalV(400).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    v.getBusBreakerView().newBus().setId("B1").add();
    v.newLoad().setId("L").setBus("B1").setConnectableBus("B1").setP0(0).setQ0(0).add();
    return n;
}

// the model: for each network, the variants and their values; for each thread and network, the variant selected
struct Model {
    std::map<std::string, int> variants[2];
    std::string selected[sched::MAX_THREADS][2];
    std::string text() const {
        std::string r;
        for (int k = 0; k < 2; ++k) { for (auto& v : variants[k]) r += v.first + "=" + mc::str(v.second) + " "; r += "| "; }
        return r;
    }
};

struct Request {
    std::string name;
    std::function<std::string(Network*, unsigned)> run;             // on the library
    std::function<std::string(Model&, unsigned)> model;
    // what it does, to exclude what is left to the caller
    enum { SELECT = 1, READ = 2, WRITE = 4, ALTER = 8, GONE = 16 };
    int kind;
    std::string variant;                                              // selected, or removed / overwritten
    int net;
};

Request select(const std::string& v, int k) {
    return {"select " + v + (k ? " in the second network" : ""), [=](Network* n, unsigned) { n[k].getVariantManager().setWorkingVariant(v); return "ok"; },
        [=](Model& m, unsigned t) -> std::string { if (!m.variants[k].count(v)) return "!"; m.selected[t][k] = v; return "ok"; }, Request::SELECT, v, k};
}
Request readValue(int k) {
    return {std::string("read") + (k ? " the second network" : ""), [=](Network* n, unsigned) { return mc::str(n[k].getLoad("L").getP0()); },
        [=](Model& m, unsigned t) -> std::string { if (m.selected[t][k].empty()) return "!"; return mc::str(static_cast<double>(m.variants[k][m.selected[t][k]])); }, Request::READ, "", k};
}
Request writeValue(int k) {
    return {std::string("write") + (k ? " the second network" : ""), [=](Network* n, unsigned t) { n[k].getLoad("L").setP0(t + 1.0 + 10 * k); return "ok"; },
        [=](Model& m, unsigned t) -> std::string { if (m.selected[t][k].empty()) return "!"; m.variants[k][m.selected[t][k]] = static_cast<int>(t) + 1 + 10 * k; return "ok"; }, Request::WRITE, "", k};
}
Request working(int k) {
    return {std::string("working variant") + (k ? " of the second network" : ""), [=](Network* n, unsigned) { return n[k].getVariantManager().getWorkingVariantId(); },
        [=](Model& m, unsigned t) { return m.selected[t][k].empty() ? std::string("!") : m.selected[t][k]; }, 0, "", k};
}
Request index(int k) {
    return {std::string("working index") + (k ? " of the second network" : ""), [=](Network* n, unsigned) { n[k].getVariantManager().getVariantIndex(); return "ok"; },
        [=](Model& m, unsigned t) { return m.selected[t][k].empty() ? "!" : "ok"; }, 0, "", k};
}
Request list(int k) {
    return {std::string("list") + (k ? " the second network" : ""), [=](Network* n, unsigned) { std::string r; for (auto& v : n[k].getVariantManager().getVariantIds()) r += v + " "; return r; },
        [=](Model& m, unsigned) { std::string r; for (auto& v : m.variants[k]) r += v.first + " "; return r; }, 0, "", k};
}
Request indices() {
    return {"indices", [=](Network* n, unsigned) { return mc::str(n[0].getVariantManager().getVariantIndices().size()); }, [=](Model& m, unsigned) { return mc::str(m.variants[0].size()); }, 0, "", 0};
}
Request arraySize() {
    return {"array size", [=](Network* n, unsigned) { return n[0].getVariantManager().getVariantArraySize() > 0 ? "ok" : "none"; }, [=](Model&, unsigned) { return "ok"; }, 0, "", 0};
}
Request allow() {
    return {"allow", [=](Network* n, unsigned) { n[0].getVariantManager().allowVariantMultiThreadAccess(true); return mc::str(n[0].getVariantManager().isVariantMultiThreadAccessAllowed()); }, [=](Model&, unsigned) { return "true"; }, 0, "", 0};
}
Request each(int kind) {
    return {kind == 0 ? "for each: count" : kind == 1 ? "for each: working variant" : "for each: list and select", [=](Network* n, unsigned) {
        std::string r;
        std::vector<std::string> seen;
        VariantManager& m = n[0].getVariantManager();
        m.forEachVariant([&] {
            if (kind == 0) seen.push_back("x");
            else if (kind == 1) seen.push_back(m.getWorkingVariantId());
            else { auto ids = m.getVariantIds(); m.setWorkingVariant(*ids.begin()); seen.push_back(mc::str(ids.size())); }
        });
        std::sort(seen.begin(), seen.end());
        for (auto& s : seen) r += s + " ";
        return r;
    }, [=](Model& m, unsigned) { std::string r; for (auto& v : m.variants[0]) r += (kind == 0 ? "x" : kind == 1 ? v.first : mc::str(m.variants[0].size())) + " "; return r; }, 0, "", 0};
}
Request clone(const std::string& s, const std::vector<std::string>& t, bool over) {
    std::string name = "clone " + s + " to";
    for (auto& x : t) name += " " + x;
    return {name + (over ? " over" : ""), [=](Network* n, unsigned) { if (t.size() == 1) n[0].getVariantManager().cloneVariant(s, t[0], over); else n[0].getVariantManager().cloneVariant(s, {t[0], t[1]}, over); return "ok"; },
        [=](Model& m, unsigned) -> std::string {
            auto& v = m.variants[0];
            if (!v.count(s)) return "!";
            for (auto& x : t) if (!over && v.count(x)) return "!";
            const int value = v[s];
            for (auto& x : t) v[x] = value;
            return "ok";
        }, Request::ALTER | (over ? Request::GONE : 0), over ? t[0] : "", 0};
}
Request removal(const std::string& x) {
    return {"remove " + x, [=](Network* n, unsigned) { n[0].getVariantManager().removeVariant(x); return "ok"; },
        [=](Model& m, unsigned) -> std::string { if (x == INIT || !m.variants[0].count(x)) return "!"; m.variants[0].erase(x); return "ok"; }, Request::ALTER | Request::GONE, x, 0};
}
// a network of the thread's own, made, used and destroyed
Request own() {
    return {"own network", [=](Network*, unsigned t) {
        Network n = small("own" + mc::str(t));
        VariantManager& m = n.getVariantManager();
        m.cloneVariant(INIT, "a");
        m.allowVariantMultiThreadAccess(true);
        m.setWorkingVariant("a");
        n.getLoad("L").setP0(t + 5.0);
        std::string r = m.getWorkingVariantId() + mc::str(n.getLoad("L").getP0());
        m.setWorkingVariant(INIT);
        return r + mc::str(n.getLoad("L").getP0());
    }, [=](Model&, unsigned t) { return "a" + mc::str(t + 5.0) + mc::str(0.0); }, 0, "", 0};
}

class Requests : public Scenario {
public:
    Requests(const std::vector<std::vector<Request>>& p, bool holes) : m_programs(p), m_holes(holes) {
        for (auto& q : p) { programs.emplace_back(); for (auto& r : q) { programs.back().push_back(r.name); m_alters = m_alters || (r.kind & Request::ALTER); m_used = std::max(m_used, r.net + 1); } }
    }
    void before() override {
        if (!m_alters && !m_networks.empty()) {               // the same variants: only the values are set again
            for (int k = 0; k < m_used; ++k) {
                VariantManager& m = m_networks[k].getVariantManager();
                for (auto& v : m_initial.variants[k]) { m.setWorkingVariant(v.first); m_networks[k].getLoad("L").setP0(v.second); }
                m.setWorkingVariant(INIT);
            }
            return;
        }
        m_networks.clear();
        m_networks.reserve(2);
        m_initial = Model();
        for (int k = 0; k < m_used; ++k) {
            m_networks.push_back(small(k ? "n2" : "n1"));
            Network& n = m_networks.back();
            VariantManager& m = n.getVariantManager();
            int value = 100;
            for (const char* v : {"h", "a", "b"}) { m.cloneVariant(INIT, v); m.setWorkingVariant(v); n.getLoad("L").setP0(++value); m_initial.variants[k][v] = value; }
            m.setWorkingVariant(INIT);
            n.getLoad("L").setP0(100);
            m_initial.variants[k][INIT] = 100;
            if (m_holes) { m.removeVariant("h"); m_initial.variants[k].erase("h"); }
            m.allowVariantMultiThreadAccess(true);
        }
    }
    std::string execute(unsigned t, unsigned i) override { return m_programs[t][i].run(m_networks.data(), t); }
    std::string after() override {
        // what the networks hold
        Model end;
        for (int k = 0; k < m_used; ++k) {
            VariantManager& m = m_networks[k].getVariantManager();
            for (auto& v : m.getVariantIds()) {
                m.setWorkingVariant(v);
                end.variants[k][v] = static_cast<int>(m_networks[k].getLoad("L").getP0());
            }
        }
        m_final = end.text();
        std::vector<unsigned> at(m_programs.size(), 0);
        if (!sequential(m_initial, at)) return "no sequential order of the requests gives these answers and this final state: " + m_final;
        return "";
    }
private:
    bool sequential(const Model& m, std::vector<unsigned>& at) {
        bool over = true;
        for (unsigned t = 0; t < at.size(); ++t) {
            if (at[t] >= m_programs[t].size()) continue;
            over = false;
            // nothing that is still to come may have ended before this one began
            bool possible = true;
            for (unsigned u = 0; u < at.size(); ++u) if (u != t && at[u] < m_programs[u].size() && history[u][at[u]].end < history[t][at[t]].begin) possible = false;
            if (!possible) continue;
            Model copy = m;
            if (m_programs[t][at[t]].model(copy, t) != history[t][at[t]].answer) continue;
            ++at[t];
            if (sequential(copy, at)) return true;
            --at[t];
        }
        return over && m.text() == m_final;
    }
    std::vector<std::vector<Request>> m_programs;
    bool m_holes, m_alters = false;
    int m_used = 1;
    std::vector<Network> m_networks;
    Model m_initial;
    std::string m_final;
};

// what is left to the caller: altering the variants while equipment is used, removing or overwriting a variant another thread
// selects, two threads in the same variant of which one writes
bool allowed(const std::vector<std::vector<Request>>& p) {
    for (unsigned t = 0; t < p.size(); ++t) for (unsigned u = 0; u < p.size(); ++u) {
        if (t == u) continue;
        for (auto& r : p[t]) for (auto& s : p[u]) {
            if (r.net != s.net) continue;
            if ((r.kind & Request::ALTER) && (s.kind & (Request::READ | Request::WRITE))) return false;
            if ((r.kind & Request::GONE) && (s.kind & Request::SELECT) && r.variant == s.variant) return false;
        }
        for (int k = 0; k < 2; ++k) {
            auto used = [&](const std::vector<Request>& q, int kinds) {
                std::set<std::string> r;
                std::string now;
                for (auto& x : q) { if (x.net != k) continue; if (x.kind == Request::SELECT && x.variant != "x") now = x.variant; if ((x.kind & kinds) && !now.empty()) r.insert(now); }
                return r;
            };
            auto w = used(p[t], Request::WRITE), o = used(p[u], Request::WRITE | Request::READ);
            for (auto& x : w) if (o.count(x)) return false;
        }
    }
    return true;
}

using Programs = std::vector<std::vector<Request>>;

std::vector<std::vector<Request>> words(const std::vector<Request>& alphabet, unsigned min, unsigned max) {
    std::vector<std::vector<Request>> r;
    std::function<void(std::vector<Request>&)> go = [&](std::vector<Request>& w) {
        if (w.size() >= min) r.push_back(w);
        if (w.size() == max) return;
        for (auto& x : alphabet) { w.push_back(x); go(w); w.pop_back(); }
    };
    std::vector<Request> w;
    go(w);
    return r;
}

// unordered combinations of programs for the threads
std::vector<Programs> combine(const std::vector<std::vector<Request>>& words, unsigned threads, const std::vector<Request>& prefix = {}) {
    std::vector<Programs> r;
    std::function<void(Programs&, size_t)> go = [&](Programs& p, size_t from) {
        if (p.size() == threads) { if (allowed(p)) r.push_back(p); return; }
        for (size_t i = from; i < words.size(); ++i) {
            p.push_back(prefix);
            p.back().insert(p.back().end(), words[i].begin(), words[i].end());
            go(p, i);
            p.pop_back();
        }
    };
    Programs p;
    go(p, 0);
    return r;
}

std::string text(const Programs& p) {
    std::string r;
    for (auto& q : p) { if (!r.empty()) r += " || "; for (auto& x : q) r += x.name + "; "; }
    return r;
}

void add(std::vector<mc::Space>& spaces, const std::string& name, std::vector<Programs> programs, unsigned bound, uint64_t limit) {
    auto p = std::make_shared<std::vector<Programs>>(std::move(programs));
    mc::Space s;
    s.name = name;
    s.size = p->size();
    s.describe = [p](uint64_t i) { return text((*p)[i]); };
    s.run = [p, bound, limit](uint64_t i, mc::Run& run) {
        const Programs& q = (*p)[i];
        run.step(text(q));
        run.distinct(text(q));
        runScenario([&] { return std::unique_ptr<Scenario>(new Requests(q, true)); }, 1, bound, limit, run);
    };
    spaces.push_back(s);
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C03";
    c.level = "model_checking";
    c.caseTimeout = 300;
    c.assumptions = {
        "left to the caller, as the property says: altering the variants while another thread uses equipment, removing or overwriting a variant another thread selects",
        "two threads do not use the same variant when one of them writes in it, and do not compute the topology of the same variant at the same time",
        "sequential consistency: data races are detected, the reorderings of racy code are not explored",
        "every program of requests is explored completely with one preemption, two attributes without preemption (with one in the thorough tier); with more, up to the bound, while the schedules are not too many (60 of two attributes, 3000 of requests in the quick tier; 20000 and 100000 in the thorough tier)",
        "a thread is preempted at locks, atomic operations and between operations; other instructions cannot matter when there is no data race",
    };
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& spaces) {
        prepare();
        const unsigned A = static_cast<unsigned>(attributes().size());
        {
            mc::Space s;
            s.name = "own variants: two attributes";
            s.size = A * (A + 1) / 2;
            const auto pair = [](uint64_t i) { unsigned b = 0; while (uint64_t(b + 1) * (b + 2) / 2 <= i) ++b; return std::make_pair(static_cast<unsigned>(i - uint64_t(b) * (b + 1) / 2), b); };
            s.describe = [pair](uint64_t i) { return attributes()[pair(i).first].name + " || " + attributes()[pair(i).second].name; };
            const uint64_t limit = thorough ? 20000 : 60;
            s.run = [pair, limit, thorough](uint64_t i, mc::Run& run) {
                const unsigned a = pair(i).first, b = pair(i).second;
                run.step("thread 1, variant a: " + attributes()[a].name + "; thread 2, variant b: " + attributes()[b].name);
                run.distinct(mc::str(i));
                runScenario([&] { return std::unique_ptr<Scenario>(new Attributes(a, b, false)); }, thorough ? 1 : 0, 2, limit, run);
            };
            spaces.push_back(s);
        }
        const unsigned pb = thorough ? 2 : 1;
        const uint64_t limit = thorough ? 100000 : 3000;
        std::vector<Request> use = {select(INIT, 0), select("a", 0), select("b", 0), select("x", 0), readValue(0), writeValue(0), working(0), index(0), list(0)};
        add(spaces, "selection: two threads", combine(words(use, 1, 1), 2), pb + 2, limit);
        add(spaces, "selection: two requests in two threads", combine(words(use, 1, 2), 2), pb, limit);
        add(spaces, "selection: three threads", combine(words(use, 1, 1), 3), pb, limit);
        std::vector<Request> manage = {clone(INIT, {"c"}, false), clone("a", {"c"}, false), clone(INIT, {"c", "d"}, false), clone("a", {"b"}, true), clone("c", {"d"}, true), removal("a"), removal("c"), removal("b"), list(0), indices(), arraySize(),
            select("b", 0), select("c", 0), working(0), each(0), each(1), each(2), allow()};
        add(spaces, "management: two threads", combine(words(manage, 1, 1), 2, {}), pb + 1, limit);
        add(spaces, "management: two threads with a variant", combine(words(manage, 1, 1), 2, {select(INIT, 0)}), pb + 1, limit);
        std::vector<Request> reduced = {clone("a", {"c"}, false), clone(INIT, {"c", "d"}, true), removal("a"), removal("c"), list(0), select("c", 0), working(0), each(1)};
        add(spaces, "management: two requests in two threads", combine(words(reduced, 2, 2), 2), pb, limit);
        add(spaces, "management: three threads", combine(words(reduced, 1, 1), 3), pb, limit);
        std::vector<Request> two = {select("a", 0), select("b", 0), select("a", 1), select("b", 1), readValue(0), readValue(1), writeValue(0), writeValue(1), working(1), list(1), own()};
        add(spaces, "two networks", combine(words(two, 1, 2), 2), pb, limit);
        if (thorough) {
            add(spaces, "selection: three requests in two threads", combine(words({select("a", 0), select("b", 0), readValue(0), writeValue(0), working(0)}, 3, 3), 2), 1, limit);
            add(spaces, "two networks: three requests", combine(words({select("a", 0), select("b", 1), readValue(0), readValue(1), writeValue(1)}, 3, 3), 2), 1, limit);
            add(spaces, "management: two requests in three threads", combine(words({clone("a", {"c"}, false), removal("c"), list(0), select("c", 0)}, 2, 2), 3), 1, limit);
        }
    });
}
