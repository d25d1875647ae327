// C17: all the views of the inventory (network, substations, voltage levels, buses, visitors) show the same equipment.
#include <algorithm>

#include "topo.hpp"

#include <powsybl/iidm/TopologyVisitor.hpp>

using namespace powsybl::iidm;  // NOLINT
using topo::World;
using Op = World::Op;

namespace {

#define OP(name, expr) ops.push_back({name, [](World& w, mc::Run& run) -> bool { (void)run; return expr; }})

const char* INIT = "InitialVariant";

struct World17 : World {
    std::map<std::string, std::string> country;   // substation -> country code
    std::set<std::string> ties;
    void check(mc::Run& run) override;
    void query(mc::Run& run) override { check(run); }
    void inventory(mc::Run& run);
};

using Names = std::vector<std::string>;

template <typename Range>
Names names(Range& range, mc::Run& run, const std::string& what) {
    Names a;
    for (auto& o : range) a.push_back(o.getId());
    // a list gives the same thing when it is read again, sized, or read by two iterators in turn
    MC_CHECK(run, static_cast<size_t>(boost::size(range)) == a.size(), what << ": size " << boost::size(range) << " but " << a.size() << " elements");
    Names b;
    for (auto& o : range) b.push_back(o.getId());
    MC_CHECK(run, a == b, what << ": the second reading gives " << b.size() << " elements, the first one gave " << a.size());
    MC_CHECK(run, boost::empty(range) == a.empty(), what << ": empty");
    std::sort(a.begin(), a.end());
    return a;
}

std::string text(const Names& v) { std::string r; for (auto& x : v) r += x + " "; return r; }

Names sorted(Names v) { std::sort(v.begin(), v.end()); return v; }

// the equipment expected, by type, in a voltage level (or everywhere), each one once
Names expected(const World17& w, const std::string& types, const std::string& vl = "", const std::string& sub = "") {
    Names r;
    for (auto& e : w.m.eqs) {
        if (types.find(e.second.type) == std::string::npos) continue;
        bool in = vl.empty() && sub.empty();
        for (auto& v : e.second.vl) in = in || v == vl || (!sub.empty() && w.m.vls.at(v).sub == sub);
        if (in) r.push_back(e.first);
    }
    return r;
}

const std::string ALL = "HLGASVDXYN23";

struct Visitor : TopologyVisitor {
    Names seen;
    void add(const Identifiable& i, const std::string& k, const std::string& side) { seen.push_back(k + i.getId() + side); }
    void visitBattery(const Battery& x) override { add(x, "A:", ""); }
    void visitBusbarSection(const BusbarSection& x) override { add(x, "H:", ""); }
    void visitDanglingLine(const DanglingLine& x) override { add(x, "D:", ""); }
    void visitGenerator(const Generator& x) override { add(x, "G:", ""); }
    void visitHvdcConverterStation(const HvdcConverterStation& x) override { add(x, x.getHvdcType() == HvdcConverterStation::HvdcType::VSC ? "X:" : "Y:", ""); }
    void visitLine(const Line& x, const Branch::Side& s) override { add(x, "N:", s == Branch::Side::ONE ? "/1" : "/2"); }
    void visitLoad(const Load& x) override { add(x, "L:", ""); }
    void visitShuntCompensator(const ShuntCompensator& x) override { add(x, "S:", ""); }
    void visitStaticVarCompensator(const StaticVarCompensator& x) override { add(x, "V:", ""); }
    void visitThreeWindingsTransformer(const ThreeWindingsTransformer& x, const ThreeWindingsTransformer::Side& s) override { add(x, "3:", s == ThreeWindingsTransformer::Side::ONE ? "/1" : s == ThreeWindingsTransformer::Side::TWO ? "/2" : "/3"); }
    void visitTwoWindingsTransformer(const TwoWindingsTransformer& x, const Branch::Side& s) override { add(x, "2:", s == Branch::Side::ONE ? "/1" : "/2"); }
};

std::string visited(const World17& w, const std::string& t) {
    size_t p = t.rfind('/');
    std::string e = t.substr(0, p);
    char ty = w.m.eqs.at(e).type;
    return std::string(1, ty) + ":" + e + (topo::isBranchType(ty) && std::string("N23").find(ty) != std::string::npos ? t.substr(p) : "");
}

template <typename N>
void views(World17& w, N& n, mc::Run& run) {
    auto same = [&](const Names& got, const Names& want, const std::string& what) {
        MC_CHECK(run, got == want, what << ": " << text(got) << ", expected " << text(want));
    };
#define NETWORK(TYPES, T, GET, LIST, COUNT) do { \
        Names e_ = expected(w, TYPES); \
        auto r_ = n.LIST(); \
        same(names(r_, run, "network " #LIST), e_, "network " #LIST); \
        MC_CHECK(run, n.COUNT() == e_.size(), "network " #COUNT " " << n.COUNT() << " expected " << e_.size()); \
        for (auto& id_ : e_) MC_CHECK(run, &n.GET(id_) == &n.template find<T>(id_).get() && n.GET(id_).getId() == id_, "network " #GET " " << id_); \
        auto c_ = n.template getConnectables<T>(); \
        same(names(c_, run, "network getConnectables<" #T ">"), e_, "network getConnectables<" #T ">"); \
        MC_CHECK(run, n.template getConnectableCount<T>() == e_.size(), "network getConnectableCount<" #T "> " << n.template getConnectableCount<T>()); \
        MC_CHECK(run, !mc::accepted([&] { n.GET("nobody"); }), "network " #GET " of nobody"); \
    } while (0)
    NETWORK("A", Battery, getBattery, getBatteries, getBatteryCount);
    NETWORK("N2", Branch, getBranch, getBranches, getBranchCount);
    NETWORK("H", BusbarSection, getBusbarSection, getBusbarSections, getBusbarSectionCount);
    NETWORK("D", DanglingLine, getDanglingLine, getDanglingLines, getDanglingLineCount);
    NETWORK("G", Generator, getGenerator, getGenerators, getGeneratorCount);
    NETWORK("XY", HvdcConverterStation, getHvdcConverterStation, getHvdcConverterStations, getHvdcConverterStationCount);
    NETWORK("Y", LccConverterStation, getLccConverterStation, getLccConverterStations, getLccConverterStationCount);
    NETWORK("X", VscConverterStation, getVscConverterStation, getVscConverterStations, getVscConverterStationCount);
    NETWORK("N", Line, getLine, getLines, getLineCount);
    NETWORK("L", Load, getLoad, getLoads, getLoadCount);
    NETWORK("S", ShuntCompensator, getShuntCompensator, getShuntCompensators, getShuntCompensatorCount);
    NETWORK("V", StaticVarCompensator, getStaticVarCompensator, getStaticVarCompensators, getStaticVarCompensatorCount);
    NETWORK("2", TwoWindingsTransformer, getTwoWindingsTransformer, getTwoWindingsTransformers, getTwoWindingsTransformerCount);
    NETWORK("3", ThreeWindingsTransformer, getThreeWindingsTransformer, getThreeWindingsTransformers, getThreeWindingsTransformerCount);
    auto allC = n.getConnectables();
    same(names(allC, run, "network getConnectables"), expected(w, ALL), "network getConnectables");
    MC_CHECK(run, n.getConnectableCount() == w.m.eqs.size(), "network getConnectableCount");
    // containers, switches, HVDC lines and the whole inventory
    Names vls, subs, sws, hvdcs, buses, everything;
    std::set<std::string> subSet;
    for (auto& v : w.m.vls) { vls.push_back(v.first); for (auto& b : v.second.buses) buses.push_back(b); }
    for (auto& s : w.country) subs.push_back(s.first);
    for (auto& s : w.m.sws) sws.push_back(s.first);
    for (auto& h : w.m.hvdcs) hvdcs.push_back(h.first);
    everything = expected(w, ALL);
    for (auto* v : {&vls, &subs, &sws, &hvdcs, &buses}) everything.insert(everything.end(), v->begin(), v->end());
    everything.push_back(n.getId());
    everything = sorted(everything);
    auto rv = n.getVoltageLevels();
    same(names(rv, run, "voltage levels"), vls, "voltage levels");
    MC_CHECK(run, n.getVoltageLevelCount() == vls.size(), "voltage level count " << n.getVoltageLevelCount());
    auto rs = n.getSubstations();
    same(names(rs, run, "substations"), subs, "substations");
    MC_CHECK(run, n.getSubstationCount() == subs.size(), "substation count");
    auto rw = n.getSwitches();
    same(names(rw, run, "switches"), sws, "switches");
    MC_CHECK(run, n.getSwitchCount() == sws.size(), "switch count");
    auto rh = n.getHvdcLines();
    same(names(rh, run, "HVDC lines"), hvdcs, "HVDC lines");
    MC_CHECK(run, n.getHvdcLineCount() == hvdcs.size(), "HVDC line count");
    auto ri = n.getIdentifiables();
    same(names(ri, run, "identifiables"), everything, "identifiables");
    for (auto& id : everything) MC_CHECK(run, n.getIdentifiable(id).getId() == id, "getIdentifiable " << id);
    unsigned long stateful = 0;
    for (auto& s : n.getStatefulObjects()) { (void)s; ++stateful; }
    std::set<Country> countries;
    for (auto& s : w.country) if (!s.second.empty()) countries.insert(s.second == "FR" ? Country::FR : Country::BE);
    MC_CHECK(run, n.getCountries() == countries && n.getCountryCount() == countries.size(), "countries");
    MC_CHECK(run, n.getSubstationCount() == subs.size(), "substations");
    for (auto& h : w.m.hvdcs) {
        auto& line = n.getHvdcLine(h.first);
        auto& a = n.getHvdcConverterStation(h.second.first);
        auto& b = n.getHvdcConverterStation(h.second.second);
        MC_CHECK(run, &line.getConverterStation1().get() == &a && &line.getConverterStation2().get() == &b, "stations of " << h.first);
        MC_CHECK(run, a.getHvdcLine() && &a.getHvdcLine().get() == &line && b.getHvdcLine() && &b.getHvdcLine().get() == &line, "line of the stations of " << h.first);
        MC_CHECK(run, &n.getHvdcLine(a) == &line && &n.findHvdcLine(b).get() == &line, "getHvdcLine of a station of " << h.first);
    }
    for (auto& id : expected(w, "XY")) {
        bool used = false;
        for (auto& h : w.m.hvdcs) used = used || h.second.first == id || h.second.second == id;
        MC_CHECK(run, static_cast<bool>(n.getHvdcConverterStation(id).getHvdcLine()) == used && static_cast<bool>(n.findHvdcLine(n.getHvdcConverterStation(id))) == used, "HVDC line of " << id);
    }
    // substations
    for (auto& sId : subs) {
        auto& s = n.getSubstation(sId);
        Names in;
        for (auto& v : w.m.vls) if (v.second.sub == sId) in.push_back(v.first);
        auto a = s.getVoltageLevels();
        same(names(a, run, "voltage levels of " + sId), in, "voltage levels of " + sId);
        for (auto& v : a) MC_CHECK(run, &v.getSubstation() == &s && &v == &n.getVoltageLevel(v.getId()), "substation of " << v.getId());
        auto t2 = s.getTwoWindingsTransformers();
        same(names(t2, run, "2 windings transformers of " + sId), expected(w, "2", "", sId), "2 windings transformers of " + sId);
        MC_CHECK(run, s.getTwoWindingsTransformerCount() == expected(w, "2", "", sId).size(), "2 windings transformer count of " << sId);
        auto t3 = s.getThreeWindingsTransformers();
        same(names(t3, run, "3 windings transformers of " + sId), expected(w, "3", "", sId), "3 windings transformers of " + sId);
        MC_CHECK(run, s.getThreeWindingsTransformerCount() == expected(w, "3", "", sId).size(), "3 windings transformer count of " << sId);
    }
    // voltage levels
    for (auto& vId : vls) {
        auto& v = n.getVoltageLevel(vId);
        const bool nb = w.m.vls.at(vId).nb;
        MC_CHECK(run, (v.getTopologyKind() == TopologyKind::NODE_BREAKER) == nb, "kind of " << vId);
#define LEVEL(TYPES, T, LIST, COUNT) do { \
            Names e_ = expected(w, TYPES, vId); \
            auto r_ = v.LIST(); \
            same(names(r_, run, #LIST " of " + vId), e_, #LIST " of " + vId); \
            MC_CHECK(run, v.COUNT() == e_.size(), #COUNT " of " << vId << " " << v.COUNT() << " expected " << e_.size()); \
        } while (0)
        LEVEL("A", Battery, getBatteries, getBatteryCount);
        LEVEL("D", DanglingLine, getDanglingLines, getDanglingLineCount);
        LEVEL("G", Generator, getGenerators, getGeneratorCount);
        LEVEL("Y", LccConverterStation, getLccConverterStations, getLccConverterStationCount);
        LEVEL("X", VscConverterStation, getVscConverterStations, getVscConverterStationCount);
        LEVEL("L", Load, getLoads, getLoadCount);
        LEVEL("S", ShuntCompensator, getShuntCompensators, getShuntCompensatorCount);
        LEVEL("V", StaticVarCompensator, getStaticVarCompensators, getStaticVarCompensatorCount);
#define TYPED(TYPES, T) do { \
            Names e_ = expected(w, TYPES, vId); \
            auto r_ = v.template getConnectables<T>(); \
            same(names(r_, run, "getConnectables<" #T "> of " + vId), e_, "getConnectables<" #T "> of " + vId); \
            MC_CHECK(run, v.template getConnectableCount<T>() == e_.size(), "getConnectableCount<" #T "> of " << vId); \
            for (auto& x_ : w.m.eqs) { \
                bool type_ = std::string(TYPES).find(x_.second.type) != std::string::npos; \
                bool here_ = type_ && std::count(e_.begin(), e_.end(), x_.first) != 0; \
                bool found_ = false; \
                mc::accepted([&] { auto f_ = v.template getConnectable<T>(x_.first); found_ = f_ && &f_.get() == &n.template get<T>(x_.first); }); \
                MC_CHECK(run, found_ == here_, "getConnectable<" #T ">(" << x_.first << ") of " << vId << (found_ ? " found" : " not found")); \
            } \
        } while (0)
        TYPED("A", Battery);
        TYPED("N2", Branch);
        TYPED("H", BusbarSection);
        TYPED("ALGHSVDXY", Injection);
        TYPED("XY", HvdcConverterStation);
        TYPED("N", Line);
        TYPED("L", Load);
        TYPED("2", TwoWindingsTransformer);
        TYPED("3", ThreeWindingsTransformer);
        auto rc = v.getConnectables();
        same(names(rc, run, "getConnectables of " + vId), expected(w, ALL, vId), "getConnectables of " + vId);
        MC_CHECK(run, v.getConnectableCount() == expected(w, ALL, vId).size(), "getConnectableCount of " << vId);
        // visitors
        Names visits;
        for (auto& c : v.getConnectables()) for (auto& t : c.getTerminals()) {
            MC_CHECK(run, &t.get().getConnectable().get() == &n.getIdentifiable(c.getId()), "connectable of a terminal of " << c.getId());
        }
        for (auto& e : w.m.eqs) for (unsigned k = 0; k < e.second.vl.size(); ++k) if (e.second.vl[k] == vId) visits.push_back(visited(w, topo::key(e.first, k + 1)));
        Visitor visitor;
        v.visitEquipments(visitor);
        same(sorted(visitor.seen), sorted(visits), "visit of " + vId);
        // switches and buses
        Names vsw, vbuses;
        for (auto& s : w.m.sws) if (s.second.vl == vId) vsw.push_back(s.first);
        auto a = v.getSwitches();
        same(names(a, run, "switches of " + vId), vsw, "switches of " + vId);
        MC_CHECK(run, v.getSwitchCount() == vsw.size(), "switch count of " << vId);
        if (nb) {
            auto& view = v.getNodeBreakerView();
            auto b = view.getSwitches();
            same(names(b, run, "node/breaker switches of " + vId), vsw, "node/breaker switches of " + vId);
            MC_CHECK(run, view.getSwitchCount() == vsw.size(), "node/breaker switch count of " << vId);
            for (auto& s : vsw) MC_CHECK(run, view.getSwitch(s) && &view.getSwitch(s).get() == &n.getSwitch(s), "node/breaker switch " << s);
            auto bb = view.getBusbarSections();
            same(names(bb, run, "busbar sections of " + vId), expected(w, "H", vId), "busbar sections of " + vId);
            MC_CHECK(run, view.getBusbarSectionCount() == expected(w, "H", vId).size(), "busbar section count of " << vId);
            MC_CHECK(run, view.getInternalConnectionCount() == w.m.vls.at(vId).ics.size(), "internal connections of " << vId);
        } else {
            auto& view = v.getBusBreakerView();
            auto b = view.getSwitches();
            same(names(b, run, "bus/breaker switches of " + vId), vsw, "bus/breaker switches of " + vId);
            MC_CHECK(run, view.getSwitchCount() == vsw.size(), "bus/breaker switch count of " << vId);
            for (auto& s : vsw) MC_CHECK(run, view.getSwitch(s) && &view.getSwitch(s).get() == &n.getSwitch(s), "bus/breaker switch " << s);
            auto r = view.getBuses();
            same(names(r, run, "buses of " + vId), sorted(w.m.vls.at(vId).buses), "buses of " + vId);
            // visits of the configured buses
            for (auto& bus : w.m.vls.at(vId).buses) {
                Names conn, any;
                for (auto& e : w.m.eqs) for (unsigned k = 0; k < e.second.vl.size(); ++k) {
                    if (e.second.vl[k] != vId) continue;
                    auto& st = w.st().terms.at(topo::key(e.first, k + 1));
                    if (st.bus != bus) continue;
                    any.push_back(visited(w, topo::key(e.first, k + 1)));
                    if (st.connected) conn.push_back(any.back());
                }
                Visitor v1, v2;
                auto& mutableBus = w.n->getBusBreakerView().getBus(bus).get();
                mutableBus.visitConnectedEquipments(v1);
                mutableBus.visitConnectedOrConnectableEquipments(v2);
                same(sorted(v1.seen), sorted(conn), "visit of the connected equipment of " + bus);
                same(sorted(v2.seen), sorted(any), "visit of the connected or connectable equipment of " + bus);
            }
        }
    }
    // a name of one type is not found as another type
    for (auto& e : w.m.eqs) {
        MC_CHECK(run, static_cast<bool>(n.template find<Load>(e.first)) == (e.second.type == 'L'), "find<Load>(" << e.first << ")");
        MC_CHECK(run, static_cast<bool>(n.template find<Branch>(e.first)) == (e.second.type == 'N' || e.second.type == '2'), "find<Branch>(" << e.first << ")");
        MC_CHECK(run, static_cast<bool>(n.template find<TieLine>(e.first)) == (w.ties.count(e.first) != 0), "find<TieLine>(" << e.first << ")");
        if (e.second.type == 'N') MC_CHECK(run, n.getLine(e.first).isTieLine() == (w.ties.count(e.first) != 0), "tie line " << e.first);
    }
    MC_CHECK(run, stateful > 0 || w.m.eqs.empty(), "no stateful objects");
}

void World17::inventory(mc::Run& run) {
    const Network& c = *n;
    views<const Network>(*this, c, run);
    views<Network>(*this, *n, run);
    run.count();
}

void World17::check(mc::Run& run) {
    const std::string working = m.working;
    inventory(run);
    if (m.variants.size() > 1) {
        auto& vm = n->getVariantManager();
        for (auto& v : m.variants) {
            if (v.first == working) continue;
            vm.setWorkingVariant(v.first);
            m.working = v.first;
            inventory(run);
        }
        m.working = working;
        vm.setWorkingVariant(working);
    }
}

World17& W(World& w) { return static_cast<World17&>(w); }

bool removeSubstation(World& w, const std::string& id) {
    if (!W(w).country.count(id)) return false;
    std::set<std::string> vls;
    for (auto& v : w.m.vls) if (v.second.sub == id) vls.insert(v.first);
    for (auto& e : w.m.eqs) {
        unsigned in = 0;
        for (auto& v : e.second.vl) in += vls.count(v);
        if (in && in != e.second.vl.size()) return false;
    }
    for (auto& h : w.m.hvdcs) if (vls.count(w.m.eqs[h.second.first].vl[0]) != vls.count(w.m.eqs[h.second.second].vl[0])) return false;
    w.n->getSubstation(id).remove();
    for (auto it = w.m.hvdcs.begin(); it != w.m.hvdcs.end();) it = vls.count(w.m.eqs[it->second.first].vl[0]) ? w.m.hvdcs.erase(it) : std::next(it);
    for (auto it = w.m.eqs.begin(); it != w.m.eqs.end();) {
        if (!vls.count(it->second.vl[0])) { ++it; continue; }
        for (auto& s : w.m.variants) for (unsigned k = 0; k < it->second.vl.size(); ++k) s.second.terms.erase(topo::key(it->first, k + 1));
        it = w.m.eqs.erase(it);
    }
    for (auto it = w.m.sws.begin(); it != w.m.sws.end();) {
        if (!vls.count(it->second.vl)) { ++it; continue; }
        for (auto& s : w.m.variants) s.second.sws.erase(it->first);
        it = w.m.sws.erase(it);
    }
    for (auto& v : vls) {
        for (auto& s : w.m.variants) for (auto& b : w.m.vls[v].buses) s.second.buses.erase(b);
        w.m.vls.erase(v);
    }
    W(w).country.erase(id);
    return true;
}

bool addSubstation(World& w, const std::string& id, const char* country) {
    if (W(w).country.count(id)) return false;
    auto a = w.n->newSubstation();
    a.setId(id);
    std::string c(country);
    if (c == "FR") a.setCountry(Country::FR);
    if (c == "BE") a.setCountry(Country::BE);
    a.add();
    W(w).country[id] = country;
    return true;
}

bool addLevel(World& w, const std::string& id, const std::string& sub, bool nb) {
    if (w.m.vls.count(id) || !W(w).country.count(sub)) return false;
    w.vl(id, sub, nb);
    if (!nb) { w.bus(id, id + "_1"); w.bus(id, id + "_2"); }
    return true;
}

bool has(World& w, const std::string& vl) { return w.m.vls.count(vl) != 0; }

bool tie(World& w, const std::string& id) {
    if (w.m.eqs.count(id) || !has(w, "B") || !has(w, "C")) return false;
    auto a = w.n->newTieLine();
    a.setId(id).setVoltageLevel1("B").setBus1("B_1").setConnectableBus1("B_1").setVoltageLevel2("C").setConnectableBus2("C_1").setBus2("C_1").setUcteXnodeCode("X");
    a.newHalfLine1().setId(id + "H1").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add();
    a.newHalfLine2().setId(id + "H2").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add();
    a.add();
    w.m.eqs[id] = topo::MEq{'N', {"B", "C"}, {-1, -1}};
    W(w).ties.insert(id);
    for (auto& s : w.m.variants) {
        s.second.terms[topo::key(id, 1)] = topo::TermState{"B_1", true, NAN, NAN};
        s.second.terms[topo::key(id, 2)] = topo::TermState{"C_1", true, NAN, NAN};
    }
    return true;
}

bool drop(World& w, const std::string& id) {
    if (!w.remove(id)) return false;
    W(w).ties.erase(id);
    return true;
}

// substation S (voltage levels A node/breaker, B bus/breaker, D bus/breaker), substation T (C bus/breaker)
void empty(World& w) {
    addSubstation(w, "S", "FR");
    addSubstation(w, "T", "BE");
    addLevel(w, "A", "S", true);
    addLevel(w, "B", "S", false);
    addLevel(w, "C", "T", false);
    addLevel(w, "D", "S", false);
}

void busy(World& w) {
    empty(w);
    w.eq('H', "BBS", "A", 0);
    w.sw("A", "SWA", 'B', 0, 1, false, false);
    w.eq('L', "LA", "A", 1);
    w.eq('G', "GB", "B", -1, "B_1");
    w.eq('X', "XB", "B", -1, "B_2", false);
    w.eq('X', "XC", "C", -1, "C_1");
    w.sw("B", "SWB", "B_1", "B_2", false);
    w.branch('N', "LINE", {"A", "C"}, {"3", "-C_1"});
    w.branch('N', "SELF", {"B", "B"}, {"B_1", "B_2"});
    w.branch('2', "T2", {"A", "B"}, {"4", "B_1"});
    w.branch('3', "T3", {"B", "D", "B"}, {"B_1", "D_1", "-B_2"});
    w.hvdc("HVDC", "XB", "XC");
    tie(w, "TIE");
}

std::vector<Op> operations() {
    std::vector<Op> ops;
    OP("add load in A", has(w, "A") && w.eq('L', "LA", "A", 1));
    OP("add battery in A", has(w, "A") && w.eq('A', "BA", "A", 5));
    OP("add busbar section", has(w, "A") && w.eq('H', "BBS", "A", 0));
    OP("add svc in B, disconnected", has(w, "B") && w.eq('V', "VB", "B", -1, "B_2", false));
    OP("add shunt in B", has(w, "B") && w.eq('S', "SB", "B", -1, "B_1"));
    OP("add dangling line in C", has(w, "C") && w.eq('D', "DC", "C", -1, "C_2"));
    OP("add LCC in C", has(w, "C") && w.eq('Y', "YC", "C", -1, "C_1"));
    OP("add line A-C", has(w, "A") && has(w, "C") && w.branch('N', "LINE", {"A", "C"}, {"3", "C_1"}));
    OP("add line B-B", has(w, "B") && w.branch('N', "SELF", {"B", "B"}, {"B_1", "B_1"}));
    OP("add tie line", tie(w, "TIE"));
    OP("add transformer A-A", has(w, "A") && w.branch('2', "TAA", {"A", "A"}, {"6", "7"}));
    OP("add 3 windings transformer A-B-D", has(w, "A") && has(w, "B") && has(w, "D") && w.m.vls["D"].sub == "S" && w.branch('3', "T3N", {"A", "B", "D"}, {"8", "B_2", "D_2"}));
    OP("remove LA", drop(w, "LA"));
    OP("remove GB", drop(w, "GB"));
    OP("remove LINE", drop(w, "LINE"));
    OP("remove SELF", drop(w, "SELF"));
    OP("remove T2", drop(w, "T2"));
    OP("remove T3", drop(w, "T3"));
    OP("remove TIE", drop(w, "TIE"));
    OP("remove XB", drop(w, "XB"));
    OP("remove HVDC", w.removeHvdc("HVDC"));
    OP("add HVDC", w.hvdc("HVDC", "XC", "XB"));
    OP("remove voltage level A", w.removeVl("A"));
    OP("remove voltage level B", w.removeVl("B"));
    OP("remove voltage level D", w.removeVl("D"));
    OP("add voltage level A", addLevel(w, "A", "S", true));
    OP("add voltage level D in T", addLevel(w, "D", "T", false));
    OP("remove substation S", removeSubstation(w, "S"));
    OP("remove substation T", removeSubstation(w, "T"));
    OP("add substation S", addSubstation(w, "S", ""));
    OP("add switch in A", has(w, "A") && w.sw("A", "SWA", 'B', 0, 1, true, false));
    OP("remove switch SWA", w.removeSw("SWA"));
    OP("remove switch SWB", w.removeSw("SWB"));
    OP("disconnect GB", w.m.eqs.count("GB") && w.disconnect("GB", 1, run));
    OP("connect LINE side 2", w.m.eqs.count("LINE") && w.connect("LINE", 2, run));
    OP("move GB", w.moveTo("GB", 1, "B_2"));
    OP("add bus", has(w, "B") && !std::count(w.m.vls["B"].buses.begin(), w.m.vls["B"].buses.end(), "B_3") && (w.bus("B", "B_3"), true));
    OP("remove bus", has(w, "B") && w.removeBus("B", "B_3", run));
    OP("new variant, selected", w.clone(INIT, "v1", true, run) && w.select("v1"));
    return ops;
}

const std::vector<Op> OPS = operations();

mc::Space histories(const std::string& name, unsigned depth, void (*init)(World&)) {
    return mc::sequences(name, static_cast<unsigned>(OPS.size()), depth, mc::Queries::NONE, [init] {
        std::unique_ptr<World17> w(new World17());
        init(*w);
        w->ops = &OPS;
        return std::unique_ptr<mc::System>(std::move(w));
    }, [](unsigned i) { return OPS[i].first; });
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C17";
    c.level = "model_checking";
    c.assumptions = {"networks of 2 substations, 4 voltage levels of both kinds and up to 20 objects", "operation sequences up to the depth given in the space names"};
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        s.push_back(histories("additions and removals in an empty network, depth " + mc::str(thorough ? 4 : 3), thorough ? 4 : 3, empty));
        s.push_back(histories("additions and removals in a busy network, depth " + mc::str(thorough ? 4 : 3), thorough ? 4 : 3, busy));
    });
}
