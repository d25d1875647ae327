#include "refs.hpp"

#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>

namespace refs {

using namespace powsybl::iidm;  // NOLINT

namespace {

struct Target { std::string kind; unsigned ends; unsigned terminal; };   // ends: bit k set when end k is in V2

const std::vector<Target>& targets() {
    static const std::vector<Target> r = [] {
        std::vector<Target> t;
        for (const char* k : {"load", "generator", "battery", "shunt", "svc", "dl", "lcc", "vsc", "bbs"}) { t.push_back({k, 0, 0}); t.push_back({k, 1, 0}); }
        for (const char* k : {"line", "2wt", "tie"})
            for (unsigned ends = 0; ends < 4; ++ends) for (unsigned i = 0; i < 2; ++i) t.push_back({k, ends, i});
        for (unsigned ends = 0; ends < 8; ++ends) for (unsigned i = 0; i < 3; ++i) t.push_back({"3wt", ends, i});
        return t;
    }();
    return r;
}

const char* const REFERRERS[] = {"generator", "shunt", "svc", "rtc", "ptc", "rtc1", "rtc2", "rtc3", "ptc1", "ptc2", "ptc3", "slack"};
const unsigned REFERRER_COUNT = 12;

struct Builder {
    Network& n;
    bool nodes;
    unsigned node = 0;

    std::string bus(const std::string& v) const { return v + "B"; }
    unsigned place(const std::string& v) {
        n.getVoltageLevel(v).getNodeBreakerView().newInternalConnection().setNode1(0).setNode2(++node).add();
        return node;
    }
    template <typename A>
    A&& at(A&& a, const std::string& v) {
        if (nodes) a.setNode(place(v));
        else a.setBus(bus(v)).setConnectableBus(bus(v));
        return std::forward<A>(a);
    }
    template <typename A>
    void ends(A& a, unsigned e) {
        const std::string v1 = (e & 1U) ? "V2" : "V1", v2 = (e & 2U) ? "V2" : "V1";
        a.setVoltageLevel1(v1).setVoltageLevel2(v2);
        if (nodes) a.setNode1(place(v1)).setNode2(place(v2));
        else a.setBus1(bus(v1)).setConnectableBus1(bus(v1)).setBus2(bus(v2)).setConnectableBus2(bus(v2));
    }
    TwoWindingsTransformer& two(const std::string& id, unsigned e) {
        auto a = n.getSubstation("S").newTwoWindingsTransformer();
        a.setId(id).setR(1).setX(2).setG(0).setB(0).setRatedU1(400).setRatedU2(225);
        ends(a, e);
        return a.add();
    }
    ThreeWindingsTransformer& three(const std::string& id, unsigned e) {
        auto a = n.getSubstation("S").newThreeWindingsTransformer();
        a.setId(id);
        const std::string v1 = (e & 1U) ? "V2" : "V1", v2 = (e & 2U) ? "V2" : "V1", v3 = (e & 4U) ? "V2" : "V1";
        if (nodes) {
            a.newLeg1().setVoltageLevel(v1).setNode(place(v1)).setR(1).setX(2).setG(0).setB(0).setRatedU(400).add();
            a.newLeg2().setVoltageLevel(v2).setNode(place(v2)).setR(1).setX(2).setG(0).setB(0).setRatedU(225).add();
            a.newLeg3().setVoltageLevel(v3).setNode(place(v3)).setR(1).setX(2).setG(0).setB(0).setRatedU(20).add();
        } else {
            a.newLeg1().setVoltageLevel(v1).setBus(bus(v1)).setConnectableBus(bus(v1)).setR(1).setX(2).setG(0).setB(0).setRatedU(400).add();
            a.newLeg2().setVoltageLevel(v2).setBus(bus(v2)).setConnectableBus(bus(v2)).setR(1).setX(2).setG(0).setB(0).setRatedU(225).add();
            a.newLeg3().setVoltageLevel(v3).setBus(bus(v3)).setConnectableBus(bus(v3)).setR(1).setX(2).setG(0).setB(0).setRatedU(20).add();
        }
        return a.add();
    }
    template <typename H>
    void rtc(H& h, const stdcxx::Reference<Terminal>& t) {
        h.newRatioTapChanger().setLowTapPosition(0).setTapPosition(1).setLoadTapChangingCapabilities(true).setRegulating(true).setTargetV(225).setTargetDeadband(1).setRegulationTerminal(t)
            .beginStep().setRho(1).setR(0).setX(0).setG(0).setB(0).endStep().beginStep().setRho(1.1).setR(0).setX(0).setG(0).setB(0).endStep().add();
    }
    template <typename H>
    void ptc(H& h, const stdcxx::Reference<Terminal>& t) {
        h.newPhaseTapChanger().setLowTapPosition(0).setTapPosition(1).setRegulationMode(PhaseTapChanger::RegulationMode::CURRENT_LIMITER).setRegulating(true).setRegulationValue(225).setTargetDeadband(1).setRegulationTerminal(t)
            .beginStep().setRho(1).setAlpha(1).setR(0).setX(0).setG(0).setB(0).endStep().beginStep().setRho(1.1).setAlpha(2).setR(0).setX(0).setG(0).setB(0).endStep().add();
    }
};

}  // namespace

uint64_t size() { return 2 * REFERRER_COUNT * targets().size() * 2; }

std::string describe(uint64_t index) {
    const auto d = mc::decode(index, {2, REFERRER_COUNT, static_cast<unsigned>(targets().size()), 2});
    const Target& t = targets()[d[2]];
    return std::string(d[0] ? "nodes: " : "buses: ") + REFERRERS[d[1]] + (d[3] ? " of the same transformer" : "") + " -> terminal " + mc::str(t.terminal + 1) + " of a " + t.kind + " with ends " + mc::str(t.ends);
}

bool toBusbarSection(uint64_t index) {
    return targets()[mc::decode(index, {2, REFERRER_COUNT, static_cast<unsigned>(targets().size()), 2})[2]].kind == "bbs";
}
bool nodeBreaker(uint64_t index) { return index % 2 == 1; }

bool build(Network& n, uint64_t index) {
    const auto d = mc::decode(index, {2, REFERRER_COUNT, static_cast<unsigned>(targets().size()), 2});
    const Target& t = targets()[d[2]];
    const std::string referrer = REFERRERS[d[1]];
    Builder b{n, d[0] == 1};
    if (t.kind == "bbs" && !b.nodes) return false;
    const bool two = referrer == "rtc" || referrer == "ptc";
    const bool three = !two && (referrer.substr(0, 3) == "rtc" || referrer.substr(0, 3) == "ptc");
    if (d[3] && !((two && t.kind == "2wt") || (three && t.kind == "3wt"))) return false;
    Substation& s = n.newSubstation().setId("S").add();
    for (const char* v : {"V1", "V2"}) {
        VoltageLevel& vl = s.newVoltageLevel().setId(v).setNominalV(v[1] == '1' ? 400 : 225).setTopologyKind(b.nodes ? TopologyKind::NODE_BREAKER : TopologyKind::BUS_BREAKER).add();
        if (b.nodes) vl.getNodeBreakerView().newBusbarSection().setId(std::string(v) + "BAR").setNode(0).add();
        else vl.getBusBreakerView().newBus().setId(std::string(v) + "B").add();
    }
    // every bus of the bus view carries branches
    {
        auto a = n.newLine();
        a.setId("TRUNK").setR(1).setX(2).setG1(0).setG2(0).setB1(0).setB2(0);
        b.ends(a, 2);
        a.add();
        b.at(n.getVoltageLevel("V1").newLoad(), "V1").setId("LV1").setP0(1).setQ0(1).add();
        b.at(n.getVoltageLevel("V2").newLoad(), "V2").setId("LV2").setP0(1).setQ0(1).add();
    }
    const std::string v = t.ends & 1U ? "V2" : "V1";
    VoltageLevel& vl = n.getVoltageLevel(v);
    const std::string id = t.kind == "bbs" ? v + "BAR" : "TARGET";
    if (t.kind == "load") b.at(vl.newLoad(), v).setId(id).setP0(1).setQ0(2).add();
    else if (t.kind == "generator") b.at(vl.newGenerator(), v).setId(id).setMinP(0).setMaxP(10).setTargetP(1).setTargetQ(1).setVoltageRegulatorOn(false).add();
    else if (t.kind == "battery") b.at(vl.newBattery(), v).setId(id).setMinP(0).setMaxP(10).setP0(1).setQ0(1).add();
    else if (t.kind == "shunt") b.at(vl.newShuntCompensator(), v).setId(id).setSectionCount(1).newLinearModel().setBPerSection(1).setMaximumSectionCount(2).add().add();
    else if (t.kind == "svc") b.at(vl.newStaticVarCompensator(), v).setId(id).setBmin(0).setBmax(1).setRegulationMode(StaticVarCompensator::RegulationMode::OFF).add();
    else if (t.kind == "dl") b.at(vl.newDanglingLine(), v).setId(id).setP0(1).setQ0(1).setR(1).setX(1).setG(0).setB(0).add();
    else if (t.kind == "lcc") b.at(vl.newLccConverterStation(), v).setId(id).setLossFactor(1).setPowerFactor(0.5).add();
    else if (t.kind == "vsc") b.at(vl.newVscConverterStation(), v).setId(id).setLossFactor(1).setReactivePowerSetpoint(1).setVoltageRegulatorOn(false).add();
    else if (t.kind == "line") {
        auto a = n.newLine();
        a.setId(id).setR(1).setX(2).setG1(0).setG2(0).setB1(0).setB2(0);
        b.ends(a, t.ends);
        a.add();
    } else if (t.kind == "tie") {
        auto a = n.newTieLine();
        a.setId(id).setUcteXnodeCode("XN");
        a.newHalfLine1().setId("H1").setR(1).setX(2).setG1(0).setG2(0).setB1(0).setB2(0).add();
        a.newHalfLine2().setId("H2").setR(1).setX(2).setG1(0).setG2(0).setB1(0).setB2(0).add();
        b.ends(a, t.ends);
        a.add();
    } else if (t.kind == "2wt") b.two(id, t.ends);
    else if (t.kind == "3wt") b.three(id, t.ends);
    Terminal& terminal = const_cast<Terminal&>(dynamic_cast<Connectable&>(n.getIdentifiable(id)).getTerminals().begin()[t.terminal].get());
    const auto ref = stdcxx::ref(terminal);
    // the equipment that refers to it
    if (referrer == "generator") b.at(n.getVoltageLevel("V1").newGenerator(), "V1").setId("REF").setMinP(0).setMaxP(10).setTargetP(1).setTargetV(400).setVoltageRegulatorOn(true).setRegulatingTerminal(ref).add();
    else if (referrer == "shunt") b.at(n.getVoltageLevel("V1").newShuntCompensator(), "V1").setId("REF").setSectionCount(1).setTargetV(400).setTargetDeadband(1).setVoltageRegulatorOn(true).setRegulatingTerminal(ref).newLinearModel().setBPerSection(1).setMaximumSectionCount(2).add().add();
    else if (referrer == "svc") b.at(n.getVoltageLevel("V1").newStaticVarCompensator(), "V1").setId("REF").setBmin(0).setBmax(1).setVoltageSetpoint(400).setRegulationMode(StaticVarCompensator::RegulationMode::VOLTAGE).setRegulatingTerminal(ref).add();
    else if (two) {
        TwoWindingsTransformer& x = d[3] ? n.getTwoWindingsTransformer(id) : b.two("REF", 2);
        if (referrer == "rtc") b.rtc(x, ref); else b.ptc(x, ref);
    } else if (three) {
        ThreeWindingsTransformer& x = d[3] ? n.getThreeWindingsTransformer(id) : b.three("REF", 2);
        ThreeWindingsTransformer::Leg& leg = referrer[3] == '1' ? x.getLeg1() : referrer[3] == '2' ? x.getLeg2() : x.getLeg3();
        if (referrer[0] == 'r') b.rtc(leg, ref); else b.ptc(leg, ref);
    } else {
        terminal.getVoltageLevel().newExtension<extensions::SlackTerminalAdder>().withTerminal(terminal).add();
    }
    return true;
}

}  // namespace refs
