// C25: exports at a coarser topology level. The buses of the requested level of the original network (checked by C05 and C06) are
// the oracle of the configured buses of the network read back.
#include <algorithm>

#include "features.hpp"
#include "refs.hpp"
#include "state.hpp"
#include "topo.hpp"

using namespace powsybl::iidm;  // NOLINT

namespace {

const net::DumpOptions& options() {
    static const net::DumpOptions o = [] { net::DumpOptions d; d.topology = false; d.views = false; d.components = false; return d; }();
    return o;
}

bool ends(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
bool starts(const std::string& s, const std::string& e) { return s.compare(0, e.size(), e) == 0; }

// what must be the same whatever the topology level
net::Snapshot attributes(const net::Snapshot& s, const std::set<std::string>& coarser, const std::set<std::string>& lost) {
    net::Snapshot r;
    for (const auto& e : s) {
        const std::string& k = e.first;
        if (starts(k, "bbs/")) continue;
        bool drop = false;
        for (const auto& v : coarser) {
            std::string p = "vl/" + v + "/";
            if (!starts(k, p)) continue;
            std::string rest = k.substr(p.size());
            static const std::set<std::string> kept = {"id", "name", "fictitious", "hasAliases", "hasProperties", "network", "containerType", "nominalV", "low", "high", "substation"};
            drop = !kept.count(rest) && !starts(rest, "alias") && !starts(rest, "prop") && !starts(rest, "ext") && !starts(rest, "optName");
        }
        if (starts(k, "switch/") && ends(k, "/kind")) {
            // every switch of a bus/breaker voltage level is a breaker
            auto it = s.find(k.substr(0, k.size() - 4) + "vl");
            drop = drop || (it != s.end() && coarser.count(it->second));
        }
        for (const auto& x : lost) drop = drop || starts(k, "switch/" + x + "/");
        size_t p = k.find_last_of('/');
        std::string last = k.substr(p + 1);
        if (last == "node" || last == "connectableBus" || last == "connected") {
            auto it = s.find(k.substr(0, p) + "/vl");
            drop = drop || (it != s.end() && coarser.count(it->second));
        }
        if (!drop) r.insert(e);
    }
    return r;
}

std::string terminals(const Bus& b) {
    std::set<std::string> s;
    for (const Terminal& t : b.getConnectedTerminals()) if (!stdcxx::isInstanceOf<BusbarSection>(t.getConnectable().get())) s.insert(net::term(t));
    std::string r;
    for (const auto& x : s) r += x + " ";
    return r;
}

bool branchTerminal(const Terminal& t) {
    switch (t.getConnectable().get().getType()) {
        case ConnectableType::LINE:
        case ConnectableType::TWO_WINDINGS_TRANSFORMER:
        case ConnectableType::THREE_WINDINGS_TRANSFORMER:
        case ConnectableType::HVDC_CONVERTER_STATION:
        case ConnectableType::DANGLING_LINE: return true;
        default: return false;
    }
}

bool hasBranch(const Bus& b) {
    for (const Terminal& t : b.getConnectedTerminals()) if (branchTerminal(t)) return true;
    return false;
}

std::vector<std::pair<std::string, const Terminal*>> allTerminals(const Network& n) {
    std::vector<std::pair<std::string, const Terminal*>> r;
    for (const Connectable& c : n.getConnectables()) {
        if (stdcxx::isInstanceOf<BusbarSection>(c)) continue;
        for (const auto& t : const_cast<Connectable&>(c).getTerminals()) r.push_back({net::term(t.get()), &t.get()});
    }
    return r;
}


void coarse(const Network& n, TopologyLevel level, mc::Run& run, const converter::ExportOptions& base = converter::ExportOptions()) {
    net::Snapshot before = net::dump(n, options());
    converter::ExportOptions o = base;
    o.setTopologyLevel(level);
    std::string xml;
    std::string what;
    run.count();
    // a regulated terminal or a slack terminal that is a busbar section has no counterpart: the export is refused
    bool onSection = false;
    for (const auto& e : before) {
        if (!ends(e.first, "/regTerminal") && !ends(e.first, "/terminal") && e.first.find("/ext/") == std::string::npos) continue;
        for (const BusbarSection& b : n.getBusbarSections()) onSection = onSection || (!starts(e.first, "bbs/") && (" " + e.second + " ").find(b.getId()) != std::string::npos);
    }
    bool exported = mc::accepted([&] { xml = net::writeXml(n, o); }, &what);
    std::string d = net::diff(before, net::dump(n, options()));
    MC_CHECK(run, d.empty(), "the export changed the network: " << d);
    if (!exported && onSection) {
        MC_CHECK(run, what.find("busbar section") != std::string::npos, "the export fails: " << what);
        run.trace();
        return;
    }
    MC_CHECK(run, !onSection || !exported, "a reference to a busbar section was exported");
    MC_CHECK(run, exported, "the export fails: " << what);

    // equipment that can be attached to no bus of this level has no place in the document
    bool attachable = true;
    std::set<std::string> coarser, lost;
    for (const VoltageLevel& v : n.getVoltageLevels()) {
        if (v.getTopologyKind() != TopologyKind::NODE_BREAKER && level != TopologyLevel::BUS_BRANCH) continue;
        coarser.insert(v.getId());
        for (const Switch& w : v.getSwitches()) if (level == TopologyLevel::BUS_BRANCH || !w.isRetained()) lost.insert(w.getId());
    }
    for (const auto& t : allTerminals(n)) {
        if (!coarser.count(t.second->getVoltageLevel().getId())) continue;
        auto bus = level == TopologyLevel::BUS_BRANCH ? t.second->getBusView().getConnectableBus() : t.second->getBusBreakerView().getConnectableBus();
        attachable = attachable && static_cast<bool>(bus);
    }
    std::unique_ptr<Network> r;
    bool readable = mc::accepted([&] { r.reset(new Network(net::readXml(xml))); }, &what);
    if (!attachable) {
        MC_CHECK(run, !readable, "equipment that can be attached to no bus was attached");
        run.trace();
        return;
    }
    MC_CHECK(run, readable, "the document is not readable: " << what);
    run.distinct(xml);

    // a slack terminal that designates nothing in the working variant is not written
    for (auto it = before.begin(); it != before.end();) {
        bool empty = it->first.find("/ext/slackTerminal") != std::string::npos && it->second.find("t=-") != std::string::npos;
        if (empty) {
            std::string k = it->first;
            before.erase(k);
            before.erase(k.replace(k.find("/ext/"), 5, "/extowner/"));
            it = before.begin();
        } else ++it;
    }

    // same equipment and attributes
    d = net::diff(attributes(before, coarser, lost), attributes(net::dump(*r, options()), coarser, lost));
    MC_CHECK(run, d.empty(), "different: " << d);
    MC_CHECK(run, (level == TopologyLevel::BUS_BRANCH || lost.size() + net::rangeSize(r->getSwitches()) == net::rangeSize(n.getSwitches())), "wrong switches: " << net::ids(r->getSwitches()));

    // the buses of the level
    std::map<std::string, const Terminal*> result;
    for (const auto& t : allTerminals(*r)) result[t.first] = t.second;
    for (const VoltageLevel& v : n.getVoltageLevels()) {
        if (!coarser.count(v.getId())) continue;
        const VoltageLevel& w = r->getVoltageLevel(v.getId());
        MC_CHECK(run, w.getTopologyKind() == TopologyKind::BUS_BREAKER, v.getId() << " is not a bus/breaker voltage level");
        std::map<std::string, const Bus*> expected;
        if (level == TopologyLevel::BUS_BRANCH) for (const Bus& b : v.getBusView().getBuses()) expected[b.getId()] = &b;
        else for (const Bus& b : v.getBusBreakerView().getBuses()) expected[b.getId()] = &b;
        std::map<std::string, const Bus*> got;
        for (const Bus& b : w.getBusBreakerView().getBuses()) got[b.getId()] = &b;
        for (const auto& e : expected) MC_CHECK(run, got.count(e.first), "the bus " << e.first << " is missing");
        for (const auto& g : got) {
            MC_CHECK(run, expected.count(g.first), "unexpected bus " << g.first);
            const Bus& e = *expected[g.first];
            MC_CHECK(run, mc::str(e.getV()) == mc::str(g.second->getV()) && mc::str(e.getAngle()) == mc::str(g.second->getAngle()), "voltage of " << g.first << ": " << g.second->getV() << "/" << g.second->getAngle() << " instead of " << e.getV() << "/" << e.getAngle());
            MC_CHECK(run, terminals(e) == terminals(*g.second), "terminals of " << g.first << ": " << terminals(*g.second) << "instead of " << terminals(e));
        }
        if (level != TopologyLevel::BUS_BRANCH) {
            for (const Switch& sw : v.getSwitches()) {
                if (!sw.isRetained()) continue;
                MC_CHECK(run, net::ids(w.getSwitches()).find(sw.getId()) != std::string::npos, "the switch " << sw.getId() << " is missing");
                std::string e = v.getBusBreakerView().getBus1(sw.getId()).get().getId() + "-" + v.getBusBreakerView().getBus2(sw.getId()).get().getId();
                std::string g = w.getBusBreakerView().getBus1(sw.getId()).get().getId() + "-" + w.getBusBreakerView().getBus2(sw.getId()).get().getId();
                MC_CHECK(run, e == g, "the switch " << sw.getId() << " links " << g << " instead of " << e);
                // open, kind and the like are compared with the attributes
            }
        } else {
            MC_CHECK(run, net::rangeSize(w.getSwitches()) == 0, "switches at the bus level: " << net::ids(w.getSwitches()));
        }
    }
    for (const auto& t : allTerminals(n)) {
        if (!coarser.count(t.second->getVoltageLevel().getId())) continue;
        bool bb = level == TopologyLevel::BUS_BRANCH;
        std::string bus = net::busId(bb ? t.second->getBusView().getBus() : t.second->getBusBreakerView().getBus());
        std::string connectable = net::busId(bb ? t.second->getBusView().getConnectableBus() : t.second->getBusBreakerView().getConnectableBus());
        MC_CHECK(run, result.count(t.first), t.first << " is missing");
        const Terminal& x = *result[t.first];
        std::string gotBus = net::busId(x.getBusBreakerView().getBus());
        std::string gotConnectable = net::busId(x.getBusBreakerView().getConnectableBus());
        MC_CHECK(run, bus == gotBus, t.first << " is connected to " << gotBus << " instead of " << bus);
        MC_CHECK(run, connectable == gotConnectable, t.first << " is attached to " << gotConnectable << " instead of " << connectable);
        if (bb) MC_CHECK(run, x.isConnected() == t.second->isConnected(), t.first << (x.isConnected() ? " is connected" : " is disconnected"));
    }

    // the buses of the bus view that hold a branch, and their components
    std::map<long, long> connected[2], synchronous[2];
    for (const VoltageLevel& v : n.getVoltageLevels()) {
        for (const Bus& b : v.getBusView().getBuses()) {
            if (!hasBranch(b)) continue;
            std::string ts = terminals(b);
            const Terminal* one = nullptr;
            for (const Terminal& t : b.getConnectedTerminals()) if (branchTerminal(t)) one = &t;
            auto other = result[net::term(*one)]->getBusView().getBus();
            MC_CHECK(run, other, "the equipment of bus " << b.getId() << " has no bus");
            MC_CHECK(run, terminals(other.get()) == ts, "the bus of " << net::term(*one) << " holds " << terminals(other.get()) << "instead of " << ts);
            MC_CHECK(run, mc::str(b.getV()) == mc::str(other.get().getV()) && mc::str(b.getAngle()) == mc::str(other.get().getAngle()), "voltage of the bus of " << net::term(*one));
            auto pair = [&](std::map<long, long>* m, const stdcxx::CReference<Component>& x, const stdcxx::CReference<Component>& y, const char* kind) {
                MC_CHECK(run, static_cast<bool>(x) == static_cast<bool>(y), kind << " component of bus " << b.getId());
                if (!x) return;
                long p = x.get().getNum(), q = y.get().getNum();
                auto a = m[0].insert({p, q});
                auto c = m[1].insert({q, p});
                MC_CHECK(run, a.first->second == q && c.first->second == p, "the " << kind << " components are different at bus " << b.getId());
            };
            pair(connected, b.getConnectedComponent(), other.get().getConnectedComponent(), "connected");
            pair(synchronous, b.getSynchronousComponent(), other.get().getSynchronousComponent(), "synchronous");
        }
    }
    run.trace();
}

void bothLevels(const Network& n, mc::Run& run) {
    coarse(n, TopologyLevel::BUS_BREAKER, run);
    coarse(n, TopologyLevel::BUS_BRANCH, run);
}

// ---- networks -----------------------------------------------------------------------------------------------------

mc::Space feature(const features::Feature& f) {
    mc::Space s;
    s.name = "every combination of features: " + f.kind;
    auto dims = f.dims;
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { std::string r; for (unsigned x : mc::decode(i, dims)) r += mc::str(x) + " "; return r; };
    s.run = [&f](uint64_t i, mc::Run& run) {
        Network n = features::host();
        try {
            f.build(n, mc::decode(i, f.dims));
        } catch (const std::exception&) {
            return;
        }
        // a line on the buses without branch makes every equipment attachable at every level
        bothLevels(n, run);
    };
    return s;
}

// every reference to a terminal
mc::Space references() {
    mc::Space s;
    s.name = "references to terminals";
    s.size = refs::size();
    s.describe = [](uint64_t i) { return refs::describe(i); };
    s.run = [](uint64_t i, mc::Run& run) {
        Network n("refs", "verif");
        if (!refs::build(n, i)) return;
        bothLevels(n, run);
    };
    return s;
}

mc::Space identities() {
    mc::Space s;
    s.name = "names, aliases and properties of every kind of object";
    features::D dims = {static_cast<unsigned>(features::minimal().size()), 2, 2};
    dims.insert(dims.end(), features::identityDims().begin(), features::identityDims().end());
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { auto d = mc::decode(i, dims); std::string r = features::minimal()[d[0]].kind + ": "; for (unsigned x : d) r += mc::str(x) + " "; return r; };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        Network n = features::host();
        const std::string name = "name of x";
        const auto& m = features::minimal()[d[0]];
        if (m.kind == "network" && (d[1] || d[2])) return;
        features::identity(m.build(n, d[1] ? &name : nullptr, d[2] == 1), {d[3], d[4]});
        bothLevels(n, run);
    };
    return s;
}

mc::Space complete() {
    mc::Space s;
    s.name = "complete networks";
    features::D dims = {2, 2, 2, 2, 2, 2, 3, 2};
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { std::string r; for (unsigned x : mc::decode(i, dims)) r += mc::str(x) + " "; return r; };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        net::FullOptions o;
        o.nodeBreaker = d[0];
        o.extensions = d[1];
        o.tapChangers = d[2];
        o.limits = d[3];
        o.aliases = d[4];
        o.hvdc = d[5];
        o.stateValues = true;
        Network n = net::full(o);
        if (d[6] && !(d[2] && d[5])) return;
        if (d[6]) net::write(n, static_cast<int>(d[6]));
        converter::ExportOptions e;
        e.setIndent(d[7] == 1);
        coarse(n, TopologyLevel::BUS_BREAKER, run, e);
        coarse(n, TopologyLevel::BUS_BRANCH, run, e);
    };
    return s;
}

// ---- switch positions ---------------------------------------------------------------------------------------------

using topo::World;

void voltages(World& w) {
    w.n->setCaseDate(stdcxx::DateTime::parse("2020-02-29T12:34:56.000+01:00"));
    double v = 100;
    for (const VoltageLevel& l : w.n->getVoltageLevels()) {
        for (Bus& b : const_cast<VoltageLevel&>(l).getBusView().getBuses()) { b.setV(v).setAngle(v / 10); v += 1; }
    }
    double p = 1;
    for (const auto& t : allTerminals(*w.n)) { mc::accepted([&] { const_cast<Terminal*>(t.second)->setP(p); }); mc::accepted([&] { const_cast<Terminal*>(t.second)->setQ(-p); }); p += 1; }
}

// a node/breaker voltage level (a busbar section, 4 feeders, 7 switches) linked to a bus/breaker one (3 buses, 2 switches)
mc::Space positions(bool thorough) {
    mc::Space s;
    s.name = "every switch position, retained or not";
    // 6 switches of the first level: closed, open, closed and retained, open and retained; 2 switches of the second; connections
    features::D dims = {4, 4, 4, 4, 2, 2, 2, 2, 2, 2};
    if (thorough) dims = {4, 4, 4, 4, 4, 4, 2, 2, 2, 2};
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { std::string r; for (unsigned x : mc::decode(i, dims)) r += mc::str(x) + " "; return r; };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        World w;
        w.substation("S");
        w.vl("V", "S", true);
        w.vl("W", "S", false, 225);
        w.eq('H', "BBS1", "V", 0);
        w.eq('H', "BBS2", "V", 1);
        w.eq('L', "LD", "V", 2);
        w.eq('D', "DL", "V", 3);
        const long ends[6][2] = {{0, 1}, {0, 2}, {1, 3}, {0, 4}, {1, 5}, {4, 6}};
        for (unsigned k = 0; k < 6; ++k) w.sw("V", "SW" + mc::str(k), k % 2 ? 'D' : 'B', ends[k][0], ends[k][1], d[k] % 2 == 1, d[k] >= 2);
        w.ic("V", 6, 7);
        for (const char* b : {"B1", "B2", "B3"}) w.bus("W", b);
        w.sw("W", "SX", "B1", "B2", d[6] == 1);
        w.sw("W", "SY", "B2", "B3", d[7] == 1);
        w.eq('G', "GE", "W", -1, "B3", d[8] == 0);
        w.eq('S', "SH", "W", -1, "B1");
        w.branch('2', "T1", {"V", "W"}, {"4", "B1"});
        w.branch('2', "T2", {"V", "W"}, {"5", d[9] ? "-B3" : "B3"});
        w.branch('N', "L1", {"V", "W"}, {"7", "B2"});
        voltages(w);
        bothLevels(*w.n, run);
    };
    return s;
}

// every equipment pattern on a node/breaker cycle, with a line on each node to make it a bus
mc::Space patterns(bool thorough) {
    static const char KINDS[] = {'-', 'L', 'D', 'X', 'S', 'H', 'G', 'A', 'V', 'Y'};
    features::D dims = {5, 5, 5, 3, 3, 3, 3};
    if (thorough) dims = {10, 10, 10, 4, 4, 4, 4};
    mc::Space s;
    s.name = "every equipment pattern and switch state on a 4 node cycle";
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { std::string r; for (unsigned x : mc::decode(i, dims)) r += mc::str(x) + " "; return r; };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        World w;
        w.substation("S");
        w.vl("V", "S", true);
        w.vl("R", "S", false);
        w.bus("R", "B");
        for (long k = 0; k < 3; ++k) if (KINDS[d[static_cast<size_t>(k)]] != '-') w.eq(KINDS[d[static_cast<size_t>(k)]], "E" + mc::str(k), "V", k);
        const long ends[4][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}};
        for (unsigned k = 0; k < 4; ++k) w.sw("V", "S" + mc::str(k), k % 2 ? 'D' : 'B', ends[k][0], ends[k][1], d[3 + k] % 2 == 1, d[3 + k] >= 2);
        w.branch('N', "LN", {"V", "R"}, {"3", "B"});
        w.eq('H', "BBS", "V", 4);
        w.ic("V", 4, 3);
        voltages(w);
        bothLevels(*w.n, run);
    };
    return s;
}

// ---- histories ----------------------------------------------------------------------------------------------------


class Coarse : public World {
public:
    void check(mc::Run& run) override {
        forEachVariant([&] { bothLevels(*n, run); });
    }
    void query(mc::Run& run) override { check(run); }
};

std::vector<World::Op> historyOps() {
    std::vector<World::Op> ops;
#define WOP(name, expr) ops.push_back({name, [](World& w, mc::Run& run) -> bool { (void)run; return expr; }})
    WOP("toggle(S1)", w.toggle("S1"));
    WOP("toggle(S2)", w.toggle("S2"));
    WOP("toggleRetained(S1)", w.toggleRetained("S1"));
    WOP("toggleRetained(S3)", w.toggleRetained("S3"));
    WOP("removeSwitch(S2)", w.removeSw("S2"));
    WOP("addSwitch(S4)", w.sw("V", "S4", 'B', 0, 5, false, true));
    WOP("addInternalConnection(2,3)", w.ic("V", 2, 3));
    WOP("remove(LD)", w.remove("LD"));
    WOP("remove(T1)", w.remove("T1"));
    WOP("addBattery(BA)", w.eq('A', "BA", "V", 5));
    WOP("addBus(B3)", w.n->find<Bus>("B3") ? false : (w.bus("W", "B3"), true));
    WOP("toggle(SX)", w.toggle("SX"));
    WOP("removeSwitch(SX)", w.removeSw("SX"));
    WOP("addSwitch(SZ)", w.sw("W", "SZ", "B1", "B2", false));
    WOP("disconnect(T1,2)", w.disconnect("T1", 2, run));
    WOP("connect(T1,2)", w.connect("T1", 2, run));
    WOP("disconnect(GE)", w.disconnect("GE", 1, run));
    WOP("moveTo(GE,B1)", w.moveTo("GE", 1, "B1"));
    WOP("setV(LN)", w.setV("LN", 1, 2, 391));
    WOP("setV(T1,2)", w.setV("T1", 2, 2, 221));
    WOP("clone(Initial,v1)", w.clone("InitialVariant", "v1", false, run));
    WOP("select(v1)", w.select("v1"));
    return ops;
}
const std::vector<World::Op> HISTORY = historyOps();

mc::Space histories(unsigned depth) {
    return mc::sequences("histories, depth " + mc::str(depth), static_cast<unsigned>(HISTORY.size()), depth, mc::Queries::NONE, [] {
        std::unique_ptr<Coarse> w(new Coarse());
        w->substation("S");
        w->n->setCaseDate(stdcxx::DateTime::parse("2020-02-29T12:34:56.000+01:00"));
        w->vl("V", "S", true);
        w->vl("W", "S", false, 225);
        w->eq('H', "BBS", "V", 0);
        w->eq('L', "LD", "V", 1);
        w->sw("V", "S1", 'B', 0, 1, false, false);
        w->sw("V", "S2", 'B', 0, 2, false, true);
        w->sw("V", "S3", 'D', 0, 3, false, false);
        w->bus("W", "B1");
        w->bus("W", "B2");
        w->sw("W", "SX", "B1", "B2", false);
        w->eq('G', "GE", "W", -1, "B2");
        w->branch('2', "T1", {"V", "W"}, {"2", "B1"});
        w->branch('N', "LN", {"V", "W"}, {"3", "B2"});
        w->setV("LN", 1, 2, 390);
        w->setV("LN", 2, 2, 220);
        w->ops = &HISTORY;
        return std::unique_ptr<mc::System>(std::move(w));
    }, [](unsigned i) { return HISTORY[i].first; });
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C25";
    c.level = "model_checking";
    c.rule = "every accepted combination of optional features, every switch position, equipment pattern and history exported at both coarser levels; distinct documents";
    c.assumptions = {"networks of 2 to 6 voltage levels", "the buses of each level of the original network (decided by C05 and C06)"};
    c.workerInit = [] { net::loadExtensions(); };
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        s.push_back(positions(thorough));
        s.push_back(patterns(thorough));
        s.push_back(histories(thorough ? 4 : 3));
        s.push_back(complete());
        s.push_back(identities());
        s.push_back(references());
        for (const auto& f : features::all()) s.push_back(feature(f));
    });
}
