#include "kinds.hpp"

namespace kinds {

Network host() {
    Network n("host", "verif");
    n.setCaseDate(stdcxx::DateTime::parse("2020-01-02T03:04:05.000Z"));
    Substation& s1 = n.newSubstation().setId("S1").setCountry(Country::FR).add();
    Substation& s2 = n.newSubstation().setId("S2").setCountry(Country::BE).add();
    VoltageLevel& vn = s1.newVoltageLevel().setId("VN").setNominalV(400).setTopologyKind(TopologyKind::NODE_BREAKER).add();
    auto& nb = vn.getNodeBreakerView();
    nb.newBusbarSection().setId("BBS").setNode(0).add();
    nb.newBreaker().setId("BRK").setNode1(0).setNode2(9).setRetained(true).setOpen(false).add();
    for (unsigned k = 10; k < 20; ++k) nb.newInternalConnection().setNode1(9).setNode2(k).add();
    VoltageLevel& vb = s1.newVoltageLevel().setId("VB").setNominalV(400).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    vb.getBusBreakerView().newBus().setId("BB1").add();
    vb.getBusBreakerView().newBus().setId("BB2").add();
    VoltageLevel& vc = s1.newVoltageLevel().setId("VC").setNominalV(225).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    vc.getBusBreakerView().newBus().setId("BC1").add();
    VoltageLevel& vd = s1.newVoltageLevel().setId("VD").setNominalV(20).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    vd.getBusBreakerView().newBus().setId("BD1").add();
    VoltageLevel& vr = s2.newVoltageLevel().setId("VR").setNominalV(400).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    vr.getBusBreakerView().newBus().setId("BR1").add();
    vr.newLoad().setId("K").setName("known").setBus("BR1").setConnectableBus("BR1").setP0(0).setQ0(0).add();
    auto cs = [](VoltageLevel& v, const char* id, const char* bus) {
        v.newVscConverterStation().setId(id).setBus(bus).setConnectableBus(bus).setLossFactor(1).setVoltageSetpoint(400).setVoltageRegulatorOn(true).add();
    };
    cs(vb, "CSB", "BB1");
    cs(vr, "CSR", "BR1");
    cs(vr, "CSL", "BR1");
    cs(vb, "CSM", "BB2");
    return n;
}

unsigned long freeNode(Network& n) {
    auto& nb = n.getVoltageLevel("VN").getNodeBreakerView();
    for (unsigned k = 10; k < 20; ++k) if (!nb.getOptionalTerminal(k)) return k;
    throw std::logic_error("no free node");
}

namespace {

void removeConnectable(Network& n, const std::string& id) { dynamic_cast<Connectable&>(n.getIdentifiable(id)).remove(); }

template <typename A>
A& at(A& a, const std::string& id, bool u, const char* bus = "BB1") {
    return a.setId(id).setEnsureIdUnicity(u).setBus(bus).setConnectableBus(bus);
}

std::vector<Kind> make() {
    std::vector<Kind> k;
    auto inj = [&](const char* name, const char* host, std::function<Identifiable&(Network&, const std::string&, bool)> c, std::function<Identifiable&(Network&, const std::string&)> g) {
        k.push_back({name, {host}, false, c, g, removeConnectable});
    };
    inj("load", "VB", [](Network& n, const std::string& id, bool u) -> Identifiable& { auto a = n.getVoltageLevel("VB").newLoad(); return at(a, id, u).setP0(1).setQ0(2).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getLoad(id); });
    inj("load in node/breaker", "VN", [](Network& n, const std::string& id, bool u) -> Identifiable& { return n.getVoltageLevel("VN").newLoad().setId(id).setEnsureIdUnicity(u).setNode(freeNode(n)).setP0(1).setQ0(2).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getLoad(id); });
    inj("generator", "VB", [](Network& n, const std::string& id, bool u) -> Identifiable& { auto a = n.getVoltageLevel("VB").newGenerator(); return at(a, id, u).setMinP(0).setMaxP(10).setTargetP(5).setTargetV(400).setVoltageRegulatorOn(true).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getGenerator(id); });
    inj("battery", "VB", [](Network& n, const std::string& id, bool u) -> Identifiable& { auto a = n.getVoltageLevel("VB").newBattery(); return at(a, id, u).setMinP(0).setMaxP(10).setP0(5).setQ0(1).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getBattery(id); });
    inj("shunt compensator", "VB", [](Network& n, const std::string& id, bool u) -> Identifiable& { auto a = n.getVoltageLevel("VB").newShuntCompensator(); return at(a, id, u).setSectionCount(1).newLinearModel().setBPerSection(0.1).setMaximumSectionCount(2).add().add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getShuntCompensator(id); });
    inj("static var compensator", "VB", [](Network& n, const std::string& id, bool u) -> Identifiable& { auto a = n.getVoltageLevel("VB").newStaticVarCompensator(); return at(a, id, u).setBmin(0).setBmax(1).setRegulationMode(StaticVarCompensator::RegulationMode::OFF).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getStaticVarCompensator(id); });
    inj("dangling line", "VB", [](Network& n, const std::string& id, bool u) -> Identifiable& { auto a = n.getVoltageLevel("VB").newDanglingLine(); return at(a, id, u).setP0(1).setQ0(2).setR(1).setX(1).setG(0).setB(0).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getDanglingLine(id); });
    inj("VSC station", "VB", [](Network& n, const std::string& id, bool u) -> Identifiable& { auto a = n.getVoltageLevel("VB").newVscConverterStation(); return at(a, id, u).setLossFactor(1).setVoltageSetpoint(400).setVoltageRegulatorOn(true).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getVscConverterStation(id); });
    inj("LCC station", "VB", [](Network& n, const std::string& id, bool u) -> Identifiable& { auto a = n.getVoltageLevel("VB").newLccConverterStation(); return at(a, id, u).setLossFactor(1).setPowerFactor(0.5).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getLccConverterStation(id); });
    inj("busbar section", "VN", [](Network& n, const std::string& id, bool u) -> Identifiable& { return n.getVoltageLevel("VN").getNodeBreakerView().newBusbarSection().setId(id).setEnsureIdUnicity(u).setNode(freeNode(n)).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getBusbarSection(id); });
    k.push_back({"line", {"VB", "VR"}, true, [](Network& n, const std::string& id, bool u) -> Identifiable& {
        return n.newLine().setId(id).setEnsureIdUnicity(u).setVoltageLevel1("VB").setBus1("BB1").setConnectableBus1("BB1").setVoltageLevel2("VR").setBus2("BR1").setConnectableBus2("BR1").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getLine(id); }, removeConnectable});
    k.push_back({"tie line", {"VB", "VR"}, true, [](Network& n, const std::string& id, bool u) -> Identifiable& {
        return n.newTieLine().setId(id).setEnsureIdUnicity(u).setVoltageLevel1("VB").setBus1("BB1").setConnectableBus1("BB1").setVoltageLevel2("VR").setBus2("BR1").setConnectableBus2("BR1").setUcteXnodeCode("XN")
            .newHalfLine1().setId("half 1").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add().newHalfLine2().setId("half 2").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add().add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return dynamic_cast<TieLine&>(n.getLine(id)); }, removeConnectable});
    k.push_back({"line inside a voltage level", {"VB"}, true, [](Network& n, const std::string& id, bool u) -> Identifiable& {
        return n.newLine().setId(id).setEnsureIdUnicity(u).setVoltageLevel1("VB").setBus1("BB1").setConnectableBus1("BB1").setVoltageLevel2("VB").setBus2("BB2").setConnectableBus2("BB2").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getLine(id); }, removeConnectable});
    k.push_back({"2 windings transformer", {"VN", "VC"}, true, [](Network& n, const std::string& id, bool u) -> Identifiable& {
        return n.getSubstation("S1").newTwoWindingsTransformer().setId(id).setEnsureIdUnicity(u).setVoltageLevel1("VN").setNode1(freeNode(n)).setVoltageLevel2("VC").setBus2("BC1").setConnectableBus2("BC1").setR(1).setX(1).setG(0).setB(0).setRatedU1(400).setRatedU2(225).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getTwoWindingsTransformer(id); }, removeConnectable});
    k.push_back({"3 windings transformer", {"VN", "VC", "VD"}, true, [](Network& n, const std::string& id, bool u) -> Identifiable& {
        return n.getSubstation("S1").newThreeWindingsTransformer().setId(id).setEnsureIdUnicity(u)
            .newLeg1().setR(1).setX(2).setG(0).setB(0).setRatedU(400).setVoltageLevel("VN").setNode(freeNode(n)).add()
            .newLeg2().setR(1).setX(2).setG(0).setB(0).setRatedU(225).setVoltageLevel("VC").setBus("BC1").setConnectableBus("BC1").add()
            .newLeg3().setR(1).setX(2).setG(0).setB(0).setRatedU(20).setVoltageLevel("VD").setBus("BD1").setConnectableBus("BD1").add().add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getThreeWindingsTransformer(id); }, removeConnectable});
    k.push_back({"bus", {"VB"}, false, [](Network& n, const std::string& id, bool u) -> Identifiable& { return n.getVoltageLevel("VB").getBusBreakerView().newBus().setId(id).setEnsureIdUnicity(u).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.get<Bus>(id); },
        [](Network& n, const std::string& id) { n.getVoltageLevel("VB").getBusBreakerView().removeBus(id); }});
    k.push_back({"bus switch", {"VB"}, false, [](Network& n, const std::string& id, bool u) -> Identifiable& { return n.getVoltageLevel("VB").getBusBreakerView().newSwitch().setId(id).setEnsureIdUnicity(u).setBus1("BB1").setBus2("BB2").setOpen(true).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getSwitch(id); },
        [](Network& n, const std::string& id) { n.getVoltageLevel("VB").getBusBreakerView().removeSwitch(id); }});
    k.push_back({"node switch", {"VN"}, false, [](Network& n, const std::string& id, bool u) -> Identifiable& { return n.getVoltageLevel("VN").getNodeBreakerView().newDisconnector().setId(id).setEnsureIdUnicity(u).setNode1(0).setNode2(10).setOpen(false).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getSwitch(id); },
        [](Network& n, const std::string& id) { n.getVoltageLevel("VN").getNodeBreakerView().removeSwitch(id); }});
    k.push_back({"substation", {}, false, [](Network& n, const std::string& id, bool u) -> Identifiable& { return n.newSubstation().setId(id).setEnsureIdUnicity(u).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getSubstation(id); },
        [](Network& n, const std::string& id) { n.getSubstation(id).remove(); }});
    k.push_back({"bus/breaker voltage level", {}, false, [](Network& n, const std::string& id, bool u) -> Identifiable& { return n.getSubstation("S1").newVoltageLevel().setId(id).setEnsureIdUnicity(u).setNominalV(90).setTopologyKind(TopologyKind::BUS_BREAKER).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getVoltageLevel(id); },
        [](Network& n, const std::string& id) { n.getVoltageLevel(id).remove(); }});
    k.push_back({"node/breaker voltage level", {}, false, [](Network& n, const std::string& id, bool u) -> Identifiable& { return n.getSubstation("S1").newVoltageLevel().setId(id).setEnsureIdUnicity(u).setNominalV(90).setTopologyKind(TopologyKind::NODE_BREAKER).add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getVoltageLevel(id); },
        [](Network& n, const std::string& id) { n.getVoltageLevel(id).remove(); }});
    k.push_back({"HVDC line", {"VB", "VR"}, false, [](Network& n, const std::string& id, bool u) -> Identifiable& {
        bool first = !n.findHvdcLine(n.getHvdcConverterStation("CSR"));
        return n.newHvdcLine().setId(id).setEnsureIdUnicity(u).setR(1).setNominalV(400).setMaxP(10).setActivePowerSetpoint(5).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER)
            .setConverterStationId1(first ? "CSB" : "CSM").setConverterStationId2(first ? "CSR" : "CSL").add(); },
        [](Network& n, const std::string& id) -> Identifiable& { return n.getHvdcLine(id); },
        [](Network& n, const std::string& id) { n.getHvdcLine(id).remove(); }});
    return k;
}

}  // namespace

const std::vector<Kind>& all() {
    static const std::vector<Kind> k = make();
    return k;
}

const Kind& get(const std::string& name) {
    for (auto& k : all()) if (k.name == name) return k;
    throw std::logic_error("no kind " + name);
}

}  // namespace kinds
