// C14: what is removed leaves no trace, whatever is removed, in whatever order; refused removals change nothing.
// Run with AddressSanitizer: a reference left behind is read by the dumps and by the export.
#include <algorithm>

#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>
#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControlAdder.hpp>

#include "kinds.hpp"

using namespace powsybl::iidm;  // NOLINT
namespace ext = powsybl::iidm::extensions;
using kinds::Kind;

namespace {

const char* INIT = "InitialVariant";

std::vector<net::Snapshot> everything(Network& n, bool views = true) {
    net::DumpOptions options;
    options.views = views;
    std::vector<net::Snapshot> r;
    const std::string w = n.getVariantManager().getWorkingVariantId();
    for (const std::string& v : n.getVariantManager().getVariantIds()) {
        n.getVariantManager().setWorkingVariant(v);
        r.push_back(net::dump(n, options));
    }
    n.getVariantManager().setWorkingVariant(w);
    return r;
}

void same(mc::Run& run, const std::vector<net::Snapshot>& a, const std::vector<net::Snapshot>& b, const std::string& what) {
    MC_CHECK(run, a.size() == b.size(), what << ": number of variants");
    for (size_t i = 0; i < a.size(); ++i) {
        std::string d = net::diff(a[i], b[i]);
        MC_CHECK(run, d.empty(), what << ": " << d);
    }
}

// ---- adding then removing ----------------------------------------------------------------------------------------

void variants(Network& n, unsigned mode) {
    if (mode == 0) return;
    auto& vm = n.getVariantManager();
    vm.cloneVariant(INIT, "a");
    vm.cloneVariant(INIT, "b");
    if (mode == 2) { vm.setWorkingVariant("b"); vm.removeVariant("a"); }
}

mc::Space roundTrip(bool thorough) {
    mc::Space s;
    const auto& ks = kinds::all();
    const unsigned n = static_cast<unsigned>(ks.size());
    s.name = "two objects of any kinds added then removed";
    // quick: without variants and unobserved, then with variants and observed; thorough: every combination
    std::vector<unsigned> dims = thorough ? std::vector<unsigned>{n, n, 2, 3, 2} : std::vector<unsigned>{n, n, 2, 2, 1};
    s.size = mc::product(dims);
    auto pick = [=](uint64_t i) { auto d = mc::decode(i, dims); if (!thorough) d[4] = d[3]; return d; };
    s.describe = [=, &ks](uint64_t i) {
        auto d = pick(i);
        return ks[d[0]].name + ", " + ks[d[1]].name + ", removed in order " + mc::str(d[2]) + ", variants " + mc::str(d[3]) + (d[4] ? ", observed in between" : "");
    };
    s.run = [=, &ks](uint64_t i, mc::Run& run) {
        auto d = pick(i);
        const Kind& a = ks[d[0]];
        const Kind& b = ks[d[1]];
        Network net = kinds::host();
        variants(net, d[3]);
        std::vector<net::Snapshot> before;
        static std::map<unsigned, std::vector<net::Snapshot>> bases;
        auto& base = bases[d[3]];
        if (base.empty()) { Network h = kinds::host(); variants(h, d[3]); base = everything(h); }
        if (d[4]) { before = everything(net); same(run, base, before, "before anything"); }
        else before = base;
        a.create(net, "X", false);
        if (d[4]) everything(net, false);
        b.create(net, "Y", false).addAlias("alias of Y");
        // variants that know the objects
        if (d[3]) { net.getVariantManager().cloneVariant(INIT, "c"); }
        if (d[4]) everything(net, false);
        const Kind& first = d[2] ? a : b;
        const Kind& second = d[2] ? b : a;
        first.remove(net, d[2] ? "X" : "Y");
        if (d[4]) everything(net, false);
        second.remove(net, d[2] ? "Y" : "X");
        if (d[4]) net::writeXml(net);
        if (d[3]) net.getVariantManager().removeVariant("c");
        same(run, before, everything(net), "after the removals");
        MC_CHECK(run, !net.find("X") && !net.find("Y") && !net.find("alias of Y"), "a removed object is found");
        // the names can be used again
        a.create(net, "Y", false).addAlias("alias of Y");
        a.remove(net, "Y");
        same(run, before, everything(net), "after a new addition and removal");
        run.transition(6);
        run.trace();
        run.state(a.name + b.name);
        run.distinct(a.name + b.name);
    };
    return s;
}

// ---- a substation built with a subset of features, removed in different ways --------------------------------------

const char* FEATURES[] = {"injections", "generator regulating inside", "outside regulates inside", "transformers", "inner line", "HVDC line inside", "slack terminal", "aliases and extensions", "line to itself", "outside tap changer regulates inside"};
const unsigned NF = 10;

void build(Network& n, unsigned mask) {
    auto on = [&](unsigned f) { return (mask >> f & 1) != 0; };
    Substation& s = n.newSubstation().setId("SX").add();
    VoltageLevel& v = s.newVoltageLevel().setId("VX1").setNominalV(400).setTopologyKind(TopologyKind::NODE_BREAKER).add();
    VoltageLevel& b = s.newVoltageLevel().setId("VX2").setNominalV(225).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    VoltageLevel& c = s.newVoltageLevel().setId("VX3").setNominalV(20).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    b.getBusBreakerView().newBus().setId("X2A").add();
    b.getBusBreakerView().newBus().setId("X2B").add();
    b.getBusBreakerView().newSwitch().setId("XSW").setBus1("X2A").setBus2("X2B").add();
    c.getBusBreakerView().newBus().setId("X3A").add();
    auto& nb = v.getNodeBreakerView();
    nb.newBusbarSection().setId("XBBS").setNode(0).add();
    for (unsigned k = 1; k < 12; ++k) nb.newBreaker().setId("XB" + mc::str(k)).setNode1(0).setNode2(k).setRetained(k % 2 == 0).add();
    Load& l = v.newLoad().setId("XL").setNode(1).setP0(1).setQ0(1).add();
    b.newLoad().setId("XL2").setBus("X2A").setConnectableBus("X2A").setP0(1).setQ0(1).add();
    Load& ref = n.getLoad("K");
    if (on(0)) {
        v.newBattery().setId("XBAT").setNode(2).setMinP(0).setMaxP(10).setP0(5).setQ0(1).add();
        b.newShuntCompensator().setId("XSH").setBus("X2B").setConnectableBus("X2B").setSectionCount(1).setRegulatingTerminal(stdcxx::ref(ref.getTerminal())).newLinearModel().setBPerSection(0.1).setMaximumSectionCount(2).add().add();
        c.newDanglingLine().setId("XDL").setBus("X3A").setConnectableBus("X3A").setP0(1).setQ0(2).setR(1).setX(1).setG(0).setB(0).add();
    }
    if (on(1)) v.newGenerator().setId("XG").setNode(3).setMinP(0).setMaxP(10).setTargetP(5).setTargetV(400).setVoltageRegulatorOn(true).setRegulatingTerminal(stdcxx::ref(l.getTerminal())).add();
    if (on(2)) {
        n.getGenerator("OG").setRegulatingTerminal(stdcxx::ref(l.getTerminal()));
        n.getShuntCompensator("OS").setRegulatingTerminal(stdcxx::ref(n.getLoad("XL2").getTerminal()));
        n.getStaticVarCompensator("OV").setRegulatingTerminal(stdcxx::ref(l.getTerminal()));
    }
    if (on(3)) {
        s.newTwoWindingsTransformer().setId("XT2").setVoltageLevel1("VX1").setNode1(4).setVoltageLevel2("VX2").setBus2("X2A").setConnectableBus2("X2A").setR(1).setX(1).setG(0).setB(0).setRatedU1(400).setRatedU2(225).add();
        s.newThreeWindingsTransformer().setId("XT3")
            .newLeg1().setR(1).setX(2).setG(0).setB(0).setRatedU(400).setVoltageLevel("VX1").setNode(5).add()
            .newLeg2().setR(1).setX(2).setG(0).setB(0).setRatedU(225).setVoltageLevel("VX2").setBus("X2A").setConnectableBus("X2A").add()
            .newLeg3().setR(1).setX(2).setG(0).setB(0).setRatedU(20).setVoltageLevel("VX3").setBus("X3A").setConnectableBus("X3A").add().add();
        n.getTwoWindingsTransformer("XT2").newRatioTapChanger().setLowTapPosition(0).setTapPosition(0).setLoadTapChangingCapabilities(true).setRegulating(true).setTargetV(225).setTargetDeadband(1)
            .setRegulationTerminal(stdcxx::ref(ref.getTerminal())).beginStep().setRho(1).setR(0).setX(0).setG(0).setB(0).endStep().add();
    }
    if (on(4)) n.newLine().setId("XLI").setVoltageLevel1("VX1").setNode1(6).setVoltageLevel2("VX2").setBus2("X2B").setConnectableBus2("X2B").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add();
    if (on(5)) {
        v.newVscConverterStation().setId("XC1").setNode(7).setLossFactor(1).setVoltageSetpoint(400).setVoltageRegulatorOn(true).add();
        b.newVscConverterStation().setId("XC2").setBus("X2B").setConnectableBus("X2B").setLossFactor(1).setVoltageSetpoint(225).setVoltageRegulatorOn(true).add();
        n.newHvdcLine().setId("XH").setR(1).setNominalV(400).setMaxP(10).setActivePowerSetpoint(5).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER).setConverterStationId1("XC1").setConverterStationId2("XC2").add();
    }
    if (on(6)) { v.newExtension<ext::SlackTerminalAdder>().withTerminal(l.getTerminal()).add(); b.newExtension<ext::SlackTerminalAdder>().withTerminal(n.getLoad("XL2").getTerminal()).add(); }
    if (on(7)) { s.addAlias("alias SX"); v.addAlias("alias VX1", "t"); l.addAlias("alias XL"); n.getBusBreakerView().getBus("X2A").get().addAlias("alias X2A"); nb.getSwitch("XB3").get().addAlias("alias XB3"); }
    if (on(8)) n.newLine().setId("XLL").setVoltageLevel1("VX1").setNode1(8).setVoltageLevel2("VX1").setNode2(9).setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add();
    if (on(9)) {
        n.getTwoWindingsTransformer("OT").getRatioTapChanger().setRegulationTerminal(stdcxx::ref(l.getTerminal()));
        n.getGenerator("OG").newExtension<ext::iidm::RemoteReactivePowerControlAdder>().withTargetQ(1).withRegulatingTerminal(l.getTerminal()).withEnabled(true).add();
    }
}

Network outside() {
    Network n = kinds::host();
    auto& v = n.getVoltageLevel("VR");
    v.newGenerator().setId("OG").setBus("BR1").setConnectableBus("BR1").setMinP(0).setMaxP(10).setTargetP(5).setTargetV(400).setVoltageRegulatorOn(true).add();
    v.newShuntCompensator().setId("OS").setBus("BR1").setConnectableBus("BR1").setSectionCount(1).newLinearModel().setBPerSection(0.1).setMaximumSectionCount(2).add().add();
    v.newStaticVarCompensator().setId("OV").setBus("BR1").setConnectableBus("BR1").setBmin(0).setBmax(1).setRegulationMode(StaticVarCompensator::RegulationMode::OFF).add();
    auto& t = n.getSubstation("S1").newTwoWindingsTransformer().setId("OT").setVoltageLevel1("VB").setBus1("BB1").setConnectableBus1("BB1").setVoltageLevel2("VC").setBus2("BC1").setConnectableBus2("BC1").setR(1).setX(1).setG(0).setB(0).setRatedU1(400).setRatedU2(225).add();
    t.newRatioTapChanger().setLowTapPosition(0).setTapPosition(0).setLoadTapChangingCapabilities(true).setRegulating(false).setTargetV(225).setTargetDeadband(1).beginStep().setRho(1).setR(0).setX(0).setG(0).setB(0).endStep().add();
    return n;
}

void connectableRemove(Network& n, const char* id) { if (n.find(id)) dynamic_cast<Connectable&>(n.getIdentifiable(id)).remove(); }

mc::Space subset(bool thorough) {
    mc::Space s;
    s.name = "a substation with any features, removed";
    // quick: every subset with two of the four ways, with or without variants in turn
    std::vector<unsigned> dims = thorough ? std::vector<unsigned>{1U << NF, 4, 4} : std::vector<unsigned>{1U << NF, 2, 1};
    auto pick = [=](uint64_t i) {
        auto d = mc::decode(i, dims);
        if (!thorough) { unsigned parity = __builtin_popcount(d[0]) & 1; d[2] = (parity + d[1]) & 1; d[1] = 2 * d[1] + (d[0] & 1); }
        return d;
    };
    s.size = mc::product(dims);
    s.describe = [=](uint64_t i) {
        auto d = pick(i);
        std::string r;
        for (unsigned f = 0; f < NF; ++f) if (d[0] >> f & 1) r += std::string(FEATURES[f]) + ", ";
        const char* m[] = {"substation removed", "branches, voltage levels, substation removed", "each object removed", "voltage levels refused, then substation removed"};
        return r + m[d[1]] + (d[2] & 1 ? ", variants" : "") + (d[2] & 2 ? ", observed" : "");
    };
    s.run = [=](uint64_t i, mc::Run& run) {
        auto d = pick(i);
        static std::map<int, std::vector<net::Snapshot>> base;
        const bool remote = d[0] >> 9 & 1;
        auto& before = base[(d[2] & 1) * 2 + remote];
        if (before.empty()) {
            Network n = outside();
            if (d[2] & 1) variants(n, 1);
            if (remote) n.getGenerator("OG").newExtension<ext::iidm::RemoteReactivePowerControlAdder>().withTargetQ(1).withRegulatingTerminal(n.getGenerator("OG").getTerminal()).withEnabled(true).add();
            before = everything(n);
        }
        Network n = outside();
        if (d[2] & 1) variants(n, 1);
        build(n, d[0]);
        if (d[2] & 1) {
            // another variant in which the tap changer regulates and in which things are disconnected
            n.getVariantManager().setWorkingVariant("a");
            if (remote) n.getTwoWindingsTransformer("OT").getRatioTapChanger().setRegulating(true);
            n.getLoad("XL2").getTerminal().disconnect();
            n.getSwitch("XB3").setOpen(true);
            n.getVariantManager().setWorkingVariant(INIT);
        }
        if (d[2] & 2) everything(n, false);
        const bool branches = (d[0] >> 3 & 1) || (d[0] >> 4 & 1) || (d[0] >> 5 & 1) || (d[0] >> 8 & 1);
        Substation& sx = n.getSubstation("SX");
        switch (d[1]) {
            case 0: sx.remove(); break;
            case 1:
                for (const char* id : {"XT2", "XT3", "XLI", "XLL"}) connectableRemove(n, id);
                if (n.find("XH")) n.getHvdcLine("XH").remove();
                for (const char* id : {"VX2", "VX1", "VX3"}) n.getVoltageLevel(id).remove();
                n.getSubstation("SX").remove();
                break;
            case 2:
                if (n.find("XH")) n.getHvdcLine("XH").remove();
                for (const char* id : {"XG", "XL", "XT3", "XT2", "XL2", "XLI", "XLL", "XBAT", "XSH", "XDL", "XC1", "XC2", "XBBS"}) connectableRemove(n, id);
                n.getVoltageLevel("VX2").getBusBreakerView().removeAllSwitches();
                n.getVoltageLevel("VX2").getBusBreakerView().removeAllBuses();
                for (unsigned k = 1; k < 12; ++k) n.getVoltageLevel("VX1").getNodeBreakerView().removeSwitch("XB" + mc::str(k));
                for (const char* id : {"VX1", "VX2", "VX3"}) n.getVoltageLevel(id).remove();
                n.getSubstation("SX").remove();
                break;
            default: {
                auto now = everything(n);
                bool ok = mc::accepted([&] { n.getVoltageLevel("VX1").remove(); });
                MC_CHECK(run, ok == !branches, "removal of VX1 " << (ok ? "accepted" : "refused"));
                if (!ok) same(run, now, everything(n), "after a refused removal");
                sx.remove();
                break;
            }
        }
        if (remote && (d[2] & 1)) {
            n.getVariantManager().setWorkingVariant("a");
            MC_CHECK(run, !n.getTwoWindingsTransformer("OT").getRatioTapChanger().isRegulating(), "regulation on without a regulated terminal");
            n.getVariantManager().setWorkingVariant(INIT);
        }
        same(run, before, everything(n), "after the removal");
        std::string x = net::writeXml(n);
        for (const char* id : {"\"XL\"", "\"SX\"", "\"VX1\"", "\"X2A\""}) MC_CHECK(run, x.find(id) == std::string::npos, id << " is still exported");
        run.transition(4);
        run.trace();
        run.state(mc::str(d[0]));
    };
    return s;
}

// ---- the complete network: any object, then any other ------------------------------------------------------------

Network complete() {
    Network n = net::full();
    n.getGenerator("GB1").newExtension<ext::iidm::RemoteReactivePowerControlAdder>().withTargetQ(1).withRegulatingTerminal(n.getLoad("LD1").getTerminal()).withEnabled(true).add();
    return n;
}

const std::vector<std::string>& objects() {
    static std::vector<std::string> v;
    if (v.empty()) {
        Network n = complete();
        for (const Identifiable& i : n.getIdentifiables()) if (i.getId() != n.getId()) v.push_back(i.getId());
        std::sort(v.begin(), v.end());
    }
    return v;
}

// whether the removal has to be accepted, from what the network shows
bool removable(Network& n, const std::string& id) {
    Identifiable& i = n.getIdentifiable(id);
    if (auto* st = dynamic_cast<HvdcConverterStation*>(&i)) {
        for (HvdcLine& h : n.getHvdcLines()) if (&h.getConverterStation1().get() == st || &h.getConverterStation2().get() == st) return false;
        return true;
    }
    if (dynamic_cast<Bus*>(&i)) {
        for (Connectable& c : n.getConnectables()) for (auto& t : c.getTerminals()) {
            if (t.get().getVoltageLevel().getTopologyKind() == TopologyKind::BUS_BREAKER && t.get().getBusBreakerView().getConnectableBus().get().getId() == id) return false;
        }
        for (Switch& s : n.getSwitches()) {
            if (s.getVoltageLevel().getTopologyKind() != TopologyKind::BUS_BREAKER) continue;
            auto& bb = s.getVoltageLevel().getBusBreakerView();
            if (bb.getBus1(s.getId()).get().getId() == id || bb.getBus2(s.getId()).get().getId() == id) return false;
        }
        return true;
    }
    auto touches = [&](Connectable& c, const std::string& sub, const std::string& vl) {
        for (auto& t : c.getTerminals()) {
            if (!vl.empty() && t.get().getVoltageLevel().getId() == vl) return true;
            if (!sub.empty() && t.get().getVoltageLevel().getSubstation().getId() == sub) return true;
        }
        return false;
    };
    if (dynamic_cast<VoltageLevel*>(&i)) {
        for (Connectable& c : n.getConnectables()) if (c.getTerminals().size() > 1 && touches(c, "", id)) return false;
        for (HvdcLine& h : n.getHvdcLines()) if (touches(h.getConverterStation1(), "", id) || touches(h.getConverterStation2(), "", id)) return false;
        return true;
    }
    if (dynamic_cast<Substation*>(&i)) {
        for (Connectable& c : n.getConnectables()) {
            if (c.getTerminals().size() < 2 || !touches(c, id, "")) continue;
            for (auto& t : c.getTerminals()) if (t.get().getVoltageLevel().getSubstation().getId() != id) return false;
        }
        for (HvdcLine& h : n.getHvdcLines()) {
            bool a = touches(h.getConverterStation1(), id, ""), b = touches(h.getConverterStation2(), id, "");
            if (a != b) return false;
        }
        return true;
    }
    return true;
}

void removeAny(Network& n, const std::string& id) {
    Identifiable& i = n.getIdentifiable(id);
    if (auto* c = dynamic_cast<Connectable*>(&i)) { c->remove(); return; }
    if (auto* h = dynamic_cast<HvdcLine*>(&i)) { h->remove(); return; }
    if (auto* v = dynamic_cast<VoltageLevel*>(&i)) { v->remove(); return; }
    if (auto* s = dynamic_cast<Substation*>(&i)) { s->remove(); return; }
    if (auto* w = dynamic_cast<Switch*>(&i)) {
        VoltageLevel& v = w->getVoltageLevel();
        if (v.getTopologyKind() == TopologyKind::BUS_BREAKER) v.getBusBreakerView().removeSwitch(id);
        else v.getNodeBreakerView().removeSwitch(id);
        return;
    }
    if (auto* b = dynamic_cast<Bus*>(&i)) { b->getVoltageLevel().getBusBreakerView().removeBus(id); return; }
    throw std::logic_error("cannot remove " + id);
}

bool token(const std::string& text, const std::string& id) {
    for (size_t p = text.find(id); p != std::string::npos; p = text.find(id, p + 1)) {
        auto word = [](char c) { return isalnum(static_cast<unsigned char>(c)) || c == '_'; };
        if (p > 0 && word(text[p - 1])) continue;
        if (p + id.size() < text.size() && word(text[p + id.size()])) continue;
        return true;
    }
    return false;
}

bool freeText(const std::string& path) {
    for (const char* t : {"/name", "prop", "/code", "/xnode", "ucte", "Xnode", "/tags", "/ext/", "/alias"}) if (path.find(t) != std::string::npos) return path.find("slackTerminal") == std::string::npos && path.find("Remote") == std::string::npos;
    return false;
}

// the ids that disappear with an object
std::set<std::string> gone(const std::set<std::string>& before, Network& n) {
    std::set<std::string> r = before;
    for (const Identifiable& i : n.getIdentifiables()) r.erase(i.getId());
    return r;
}

void noTrace(mc::Run& run, Network& n, const std::set<std::string>& ids) {
    net::Snapshot s = net::dump(n);
    for (auto& id : ids) {
        MC_CHECK(run, !n.find(id), id << " is still found");
        for (auto& e : s) {
            if (freeText(e.first)) continue;
            MC_CHECK(run, !token(e.second, id), id << " still appears in " << e.first << " = " << e.second);
            MC_CHECK(run, !token(e.first, id), id << " still appears as " << e.first);
        }
    }
    MC_CHECK(run, !s.empty(), "empty");
}

mc::Space fromComplete(bool pairs) {
    mc::Space s;
    const unsigned k = static_cast<unsigned>(objects().size());
    s.name = pairs ? "any two objects of a complete network removed" : "any object of a complete network removed";
    std::vector<unsigned> dims = pairs ? std::vector<unsigned>{k, k} : std::vector<unsigned>{k, 2};
    s.size = mc::product(dims);
    s.describe = [=](uint64_t i) { auto d = mc::decode(i, dims); return objects()[d[0]] + (pairs ? ", " + objects()[d[1]] : d[1] ? ", observed before" : ""); };
    s.run = [=](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        if (pairs && d[0] == d[1]) return;
        Network n = complete();
        if (!pairs && d[1]) net::dump(n);
        std::set<std::string> all;
        for (const Identifiable& x : n.getIdentifiables()) all.insert(x.getId());
        net::DumpOptions local;
        local.topology = local.components = local.views = local.stateVariables = false;
        for (unsigned k2 = 0; k2 < (pairs ? 2U : 1U); ++k2) {
            const std::string id = objects()[d[k2]];
            if (!n.find(id)) continue;
            bool expected = removable(n, id);
            net::Snapshot before;
            if (!expected || !pairs) before = net::dump(n, expected ? local : net::DumpOptions());
            std::string what;
            bool ok = mc::accepted([&] { removeAny(n, id); }, &what);
            MC_CHECK(run, ok == expected, "removal of " << id << (ok ? " accepted" : " refused (" + what + ")"));
            if (!ok) {
                std::string df = net::diff(before, net::dump(n));
                MC_CHECK(run, df.empty(), "refused removal of " << id << " changed " << df);
                run.transition();
                continue;
            }
            run.transition();
            if (!pairs) {
                // the attributes of the other objects have not changed
                std::set<std::string> g = gone(all, n);
                net::Snapshot after = net::dump(n, local);
                for (auto& e : before) {
                    bool about = false;
                    for (auto& x : g) if (token(e.first, x) || token(e.second, x)) about = true;
                    if (about || e.first.find("/ext/") != std::string::npos || e.first.find("egulating") != std::string::npos || e.first.find("ode/") != std::string::npos || e.first.find("odes") != std::string::npos || e.first.find("maxNode") != std::string::npos || e.first.find("Count") != std::string::npos || e.first.find("network/") == 0 || e.first.find("/n.") != std::string::npos || e.first.find("internalConnections") != std::string::npos) continue;
                    auto it = after.find(e.first);
                    MC_CHECK(run, it != after.end() && it->second == e.second, "removal of " << id << " changed " << e.first << " from " << e.second << " to " << (it == after.end() ? "nothing" : it->second));
                }
            }
        }
        std::set<std::string> g = gone(all, n);
        noTrace(run, n, g);
        std::string x = net::writeXml(n);
        for (auto& id : g) for (const char* q : {"id=\"", "Id=\"", "id1=\"", "id2=\"", "bus=\"", "bus1=\"", "bus2=\"", "onverterStation1=\"", "onverterStation2=\""}) MC_CHECK(run, x.find(q + id + "\"") == std::string::npos, id << " is still exported: " << q);
        Network copy = net::readXml(x);
        run.trace();
        run.state(objects()[d[0]] + (pairs ? objects()[d[1]] : ""));
    };
    return s;
}

// remove everything, in every rotation of two orders; what is refused is tried again later
mc::Space all() {
    mc::Space s;
    const unsigned k = static_cast<unsigned>(objects().size());
    s.name = "a complete network emptied, from any starting object, forwards or backwards";
    std::vector<unsigned> dims = {k, 2, 2};
    s.size = mc::product(dims);
    s.describe = [=](uint64_t i) { auto d = mc::decode(i, dims); return "from " + objects()[d[0]] + (d[1] ? " backwards" : "") + (d[2] ? " observed" : ""); };
    s.run = [=](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        Network n = complete();
        bool progress = true;
        while (progress) {
            progress = false;
            for (unsigned j = 0; j < k; ++j) {
                const std::string& id = objects()[d[1] ? (d[0] + k - j) % k : (d[0] + j) % k];
                if (!n.find(id)) continue;
                bool expected = removable(n, id);
                std::string what;
                bool ok = mc::accepted([&] { removeAny(n, id); }, &what);
                MC_CHECK(run, ok == expected, "removal of " << id << (ok ? " accepted" : " refused (" + what + ")"));
                run.transition();
                if (!ok) continue;
                progress = true;
                if (d[2] && j % 8 == 0) net::dump(n);
            }
        }
        std::string left;
        for (const Identifiable& x : n.getIdentifiables()) if (x.getId() != n.getId()) left += x.getId() + " ";
        MC_CHECK(run, left.empty(), "never removed: " << left);
        net::Snapshot a = net::dump(n);
        Network e("full", "verif");
        e.setCaseDate(n.getCaseDate());
        e.setForecastDistance(15);
        e.setProperty("netProp", "netValue");
        e.addAlias("alias network", "tn");
        std::string df = net::diff(net::dump(e), a);
        MC_CHECK(run, df.empty(), "the emptied network differs from an empty one: " << df);
        run.trace();
        run.state("empty");
    };
    return s;
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C14";
    c.level = "model_checking";
    c.assumptions = {"removals of one or two objects, or of everything, from a complete network; subsets of 10 features for containers", "memory errors are those AddressSanitizer sees when every observation and an export are made afterwards"};
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        s.push_back(roundTrip(thorough));
        s.push_back(subset(thorough));
        s.push_back(fromComplete(false));
        s.push_back(all());
        if (thorough) s.push_back(fromComplete(true));
    });
}
