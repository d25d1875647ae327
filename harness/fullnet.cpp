// The network used by the checks that need every kind of equipment with every optional feature.
#include "net.hpp"

#include <powsybl/iidm/extensions/LoadDetailAdder.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeAreaAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeGeographicalCode.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnodeAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/XnodeAdder.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurements.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurementsAdder.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcAngleDroopActivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcOperatorActivePowerRangeAdder.hpp>
#include <powsybl/iidm/extensions/iidm/MeasurementAdder.hpp>
#include <powsybl/iidm/extensions/iidm/Measurements.hpp>
#include <powsybl/iidm/extensions/iidm/MeasurementsAdder.hpp>
#include <powsybl/iidm/extensions/iidm/ThreeWindingsTransformerPhaseAngleClockAdder.hpp>
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClockAdder.hpp>
#include <powsybl/iidm/extensions/iidm/VoltagePerReactivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatusAdder.hpp>
#include <powsybl/iidm/extensions/sld/BusbarSectionPositionAdder.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePositionAdder.hpp>

namespace net {

namespace ext = powsybl::iidm::extensions;

namespace {

template <typename H>
void curve(H& h) {
    h.newReactiveCapabilityCurve()
        .beginPoint().setP(-5.0).setMinQ(-50.0).setMaxQ(60.0).endPoint()
        .beginPoint().setP(20.0).setMinQ(-40.5).setMaxQ(55.25).endPoint()
        .beginPoint().setP(100.0).setMinQ(-30.0).setMaxQ(45.0).endPoint()
        .add();
}

template <typename A>
void threeLimits(A&& adder, double base) {
    adder.setPermanentLimit(base)
        .beginTemporaryLimit().setName("20'").setValue(base + 100).setAcceptableDuration(1200).setFictitious(false).endTemporaryLimit()
        .beginTemporaryLimit().setName("5'").setValue(base + 200).setAcceptableDuration(300).setFictitious(true).endTemporaryLimit()
        .beginTemporaryLimit().setName("N/A").setValue(std::numeric_limits<double>::max()).setAcceptableDuration(60).endTemporaryLimit()
        .add();
}

struct Builder {
    Network n;
    const FullOptions& o;
    VoltageLevel* vn1 = nullptr;
    VoltageLevel* vn2 = nullptr;
    VoltageLevel* vb1 = nullptr;
    VoltageLevel* vb2 = nullptr;
    VoltageLevel* vb3 = nullptr;
    explicit Builder(const FullOptions& opt) : n("full", "verif"), o(opt) {}

    // attach node in a node/breaker voltage level: busbar - disconnector - breaker - node
    void bay(VoltageLevel& v, unsigned bbs, unsigned node, bool breakerOpen = false) {
        auto& nb = v.getNodeBreakerView();
        std::string id = v.getId() + "_" + std::to_string(node);
        nb.newDisconnector().setId("D_" + id).setName("disc").setNode1(bbs).setNode2(node + 50).setRetained(false).setOpen(false).setFictitious(node % 3 == 0).add();
        nb.newBreaker().setId("B_" + id).setNode1(node + 50).setNode2(node).setRetained(node % 2 == 0).setOpen(breakerOpen).add();
    }

    void containers() {
        n.setCaseDate(stdcxx::DateTime::parse("2021-03-04T05:06:07.008+01:00"));
        n.setForecastDistance(15);
        n.setProperty("netProp", "netValue");
        Substation& s1 = n.newSubstation().setId("S1").setName("Substation 1").setCountry(Country::FR).setTso("RTE").addGeographicalTag("A").addGeographicalTag("B").add();
        Substation& s2 = n.newSubstation().setId("S2").setCountry(Country::BE).add();
        n.newSubstation().setId("S3").setName("empty").setFictitious(true).add();
        s1.setProperty("k1", "v1");
        s1.setProperty("k2", "v2");
        vn1 = &s1.newVoltageLevel().setId("VN1").setName("vl n1").setNominalV(400).setLowVoltageLimit(380).setHighVoltageLimit(420).setTopologyKind(TopologyKind::NODE_BREAKER).add();
        vn2 = &s1.newVoltageLevel().setId("VN2").setNominalV(225).setTopologyKind(TopologyKind::NODE_BREAKER).add();
        vb3 = &s1.newVoltageLevel().setId("VB3").setNominalV(20).setLowVoltageLimit(0).setTopologyKind(TopologyKind::BUS_BREAKER).add();
        vb1 = &s2.newVoltageLevel().setId("VB1").setName("vl b1").setNominalV(400).setHighVoltageLimit(430).setTopologyKind(TopologyKind::BUS_BREAKER).add();
        vb2 = &s2.newVoltageLevel().setId("VB2").setNominalV(225).setTopologyKind(TopologyKind::BUS_BREAKER).add();
        auto& nb1 = vn1->getNodeBreakerView();
        nb1.newBusbarSection().setId("BBS1").setName("bbs 1").setNode(0).add();
        nb1.newBusbarSection().setId("BBS2").setNode(1).add();
        nb1.newBreaker().setId("CPL").setName("coupler").setNode1(0).setNode2(1).setRetained(true).setOpen(false).add();
        auto& nb2 = vn2->getNodeBreakerView();
        nb2.newBusbarSection().setId("BBS3").setNode(0).setFictitious(true).add();
        nb2.newBusbarSection().setId("BBS4").setNode(1).add();
        nb2.newSwitch().setId("LBS").setKind(SwitchKind::LOAD_BREAK_SWITCH).setNode1(0).setNode2(1).setRetained(false).setOpen(true).add();
        vb1->getBusBreakerView().newBus().setId("B1").setName("bus 1").add();
        vb1->getBusBreakerView().newBus().setId("B2").add();
        vb1->getBusBreakerView().newSwitch().setId("SWB").setName("switch b").setBus1("B1").setBus2("B2").setOpen(false).add();
        vb2->getBusBreakerView().newBus().setId("B3").setFictitious(true).add();
        vb2->getBusBreakerView().newBus().setId("B4").add();
        vb2->getBusBreakerView().newSwitch().setId("SWO").setBus1("B3").setBus2("B4").setOpen(true).setFictitious(true).add();
        vb3->getBusBreakerView().newBus().setId("B5").add();
    }

    void injections() {
        VoltageLevel& v = *vn1;
        for (unsigned k = 2; k <= 11; ++k) bay(v, k % 2, k, k == 5);
        Load& ld = v.newLoad().setId("LD1").setName("load 1").setNode(2).setP0(10.5).setQ0(-3.25).setLoadType(LoadType::AUXILIARY).add();
        Generator& g = v.newGenerator().setId("G1").setName("gen 1").setNode(3).setMinP(-5).setMaxP(100).setTargetP(50).setTargetQ(5).setTargetV(401.5).setVoltageRegulatorOn(true).setRatedS(120)
            .setEnergySource(EnergySource::NUCLEAR).setRegulatingTerminal(stdcxx::ref(ld.getTerminal())).add();
        curve(g);
        Battery& ba = v.newBattery().setId("BAT1").setNode(4).setP0(1).setQ0(2).setMinP(-10).setMaxP(10).add();
        curve(ba);
        v.newShuntCompensator().setId("SH1").setNode(5).setSectionCount(2).setTargetV(400).setTargetDeadband(2).setVoltageRegulatorOn(true).setRegulatingTerminal(stdcxx::ref(ld.getTerminal()))
            .newLinearModel().setBPerSection(1e-3).setGPerSection(2e-4).setMaximumSectionCount(4).add().add();
        v.newShuntCompensator().setId("SH2").setNode(6).setSectionCount(1)
            .newNonLinearModel().beginSection().setB(1e-3).setG(1e-4).endSection().beginSection().setB(-2e-3).endSection().beginSection().setB(4e-3).setG(3e-4).endSection().add().add();
        v.newStaticVarCompensator().setId("SVC1").setNode(7).setBmin(-0.01).setBmax(0.02).setVoltageSetpoint(402).setReactivePowerSetpoint(3.5).setRegulationMode(StaticVarCompensator::RegulationMode::VOLTAGE)
            .setRegulatingTerminal(stdcxx::ref(g.getTerminal())).add();
        DanglingLine& dl = v.newDanglingLine().setId("DL1").setName("dl 1").setNode(8).setP0(7).setQ0(1).setR(1).setX(10).setG(1e-5).setB(2e-5).setUcteXnodeCode("XNODE1")
            .newGeneration().setMinP(0).setMaxP(30).setTargetP(12).setTargetQ(4).setTargetV(399).setVoltageRegulationOn(true).add().add();
        curve(dl.getGeneration().get());
        if (o.limits) { threeLimits(dl.newCurrentLimits(), 500); threeLimits(dl.newActivePowerLimits(), 600); threeLimits(dl.newApparentPowerLimits(), 700); }
        v.newVscConverterStation().setId("VSC1").setName("vsc 1").setNode(9).setLossFactor(0.5).setVoltageSetpoint(398).setReactivePowerSetpoint(11).setVoltageRegulatorOn(true).add().newMinMaxReactiveLimits().setMinQ(-8).setMaxQ(9).add();
        v.newLccConverterStation().setId("LCC1").setNode(10).setLossFactor(1.1).setPowerFactor(0.6).add();
        v.getNodeBreakerView().newInternalConnection().setNode1(11).setNode2(12).add();
        v.newLoad().setId("LD2").setNode(12).setP0(0).setQ0(0).setFictitious(true).add();

        VoltageLevel& b = *vb1;
        Load& lb = b.newLoad().setId("LDB1").setBus("B1").setConnectableBus("B1").setP0(20).setQ0(10).setLoadType(LoadType::FICTITIOUS).add();
        b.newLoad().setId("LDB2").setConnectableBus("B2").setP0(3).setQ0(2).add();   // disconnected
        Generator& gb = b.newGenerator().setId("GB1").setBus("B1").setConnectableBus("B1").setMinP(0).setMaxP(10).setTargetP(5).setTargetQ(1.5).setVoltageRegulatorOn(false).setEnergySource(EnergySource::OTHER).add();
        gb.newMinMaxReactiveLimits().setMinQ(-1).setMaxQ(1).add();
        b.newBattery().setId("BATB1").setBus("B2").setConnectableBus("B2").setP0(0).setQ0(-1).setMinP(-1).setMaxP(1).add();
        b.newShuntCompensator().setId("SHB1").setBus("B2").setConnectableBus("B2").setSectionCount(0).newLinearModel().setBPerSection(5e-4).setMaximumSectionCount(1).add().add();
        b.newStaticVarCompensator().setId("SVCB1").setBus("B1").setConnectableBus("B1").setBmin(0.0).setBmax(0.02).setReactivePowerSetpoint(30).setRegulationMode(StaticVarCompensator::RegulationMode::REACTIVE_POWER)
            .setRegulatingTerminal(stdcxx::ref(lb.getTerminal())).add();
        b.newStaticVarCompensator().setId("SVCB2").setBus("B1").setConnectableBus("B1").setBmin(-0.01).setBmax(0.01).setRegulationMode(StaticVarCompensator::RegulationMode::OFF).add();
        b.newDanglingLine().setId("DLB1").setBus("B2").setConnectableBus("B2").setP0(0).setQ0(0).setR(0.5).setX(1).setG(0).setB(0).add();
        b.newVscConverterStation().setId("VSCB1").setBus("B1").setConnectableBus("B1").setLossFactor(0).setReactivePowerSetpoint(12).setVoltageRegulatorOn(false).add();
        b.newLccConverterStation().setId("LCCB1").setBus("B2").setConnectableBus("B2").setLossFactor(0.2).setPowerFactor(-0.5).add();
        vb2->newLoad().setId("LDB3").setBus("B3").setConnectableBus("B3").setP0(1).setQ0(1).add();
        vb3->newGenerator().setId("GB3").setBus("B5").setConnectableBus("B5").setMinP(0).setMaxP(10).setTargetP(5).setTargetV(20.5).setVoltageRegulatorOn(true).setEnergySource(EnergySource::HYDRO).add();
        bay(*vn2, 0, 5);
        vn2->newGenerator().setId("G2").setNode(5).setMinP(0).setMaxP(10).setTargetP(5).setTargetQ(0).setVoltageRegulatorOn(false).setEnergySource(EnergySource::WIND).add();
    }

    template <typename R>
    void ratio(R& h, const stdcxx::Reference<Terminal>& t, bool regulating) {
        auto a = h.newRatioTapChanger();
        a.setLowTapPosition(-1).setTapPosition(0).setLoadTapChangingCapabilities(true).setRegulating(regulating).setTargetV(221).setTargetDeadband(1.5).setRegulationTerminal(t);
        a.beginStep().setRho(0.95).setR(0.1).setX(0.2).setG(0.3).setB(0.4).endStep();
        a.beginStep().setRho(1.0).setR(0).setX(0).setG(0).setB(0).endStep();
        a.beginStep().setRho(1.05).setR(-0.1).setX(-0.2).setG(-0.3).setB(-0.4).endStep();
        a.add();
    }

    template <typename R>
    void phase(R& h, const stdcxx::Reference<Terminal>& t, bool regulating) {
        auto a = h.newPhaseTapChanger();
        a.setLowTapPosition(3).setTapPosition(4).setRegulating(regulating).setRegulationMode(regulating ? PhaseTapChanger::RegulationMode::ACTIVE_POWER_CONTROL : PhaseTapChanger::RegulationMode::FIXED_TAP);
        a.setRegulationValue(123.5).setTargetDeadband(0.5).setRegulationTerminal(t);
        a.beginStep().setAlpha(-5).setRho(0.99).setR(1).setX(2).setG(3).setB(4).endStep();
        a.beginStep().setAlpha(0).setRho(1).setR(0).setX(0).setG(0).setB(0).endStep();
        a.beginStep().setAlpha(5.5).setRho(1.01).setR(-1).setX(-2).setG(-3).setB(-4).endStep();
        a.add();
    }

    void branches() {
        for (unsigned k : {15U, 16U, 17U, 18U}) bay(*vn1, k % 2, k);
        bay(*vn2, 0, 2);
        bay(*vn2, 1, 3);
        bay(*vn2, 0, 4);
        Line& l = n.newLine().setId("L1").setName("line 1").setVoltageLevel1("VN1").setNode1(15).setVoltageLevel2("VB1").setBus2("B1").setConnectableBus2("B1").setR(1).setX(10).setG1(1e-6).setB1(2e-6).setG2(3e-6).setB2(4e-6).add();
        n.newLine().setId("L2").setVoltageLevel1("VN2").setNode1(4).setVoltageLevel2("VB2").setConnectableBus2("B4").setR(0.5).setX(3).setG1(0).setB1(0).setG2(0).setB2(0).add();
        TieLine& t = n.newTieLine().setId("TIE1").setName("tie 1").setVoltageLevel1("VN1").setNode1(16).setVoltageLevel2("VB1").setBus2("B2").setConnectableBus2("B2").setUcteXnodeCode("XTIE")
            .newHalfLine1().setId("H1").setName("half 1").setR(1).setX(2).setG1(1e-6).setB1(2e-6).setG2(3e-6).setB2(4e-6).add()
            .newHalfLine2().setId("H2").setR(1.5).setX(2.5).setG1(5e-6).setB1(6e-6).setG2(7e-6).setB2(8e-6).setFictitious(true).add().add();
        Substation& s1 = n.getSubstation("S1");
        Substation& s2 = n.getSubstation("S2");
        TwoWindingsTransformer& t1 = s1.newTwoWindingsTransformer().setId("T1").setName("2wt 1").setVoltageLevel1("VN1").setNode1(17).setVoltageLevel2("VN2").setNode2(2).setR(1).setX(20).setG(1e-6).setB(-1e-6).setRatedU1(400).setRatedU2(225).setRatedS(300).add();
        TwoWindingsTransformer& t2 = s2.newTwoWindingsTransformer().setId("T2").setVoltageLevel1("VB1").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VB2").setBus2("B3").setConnectableBus2("B3").setR(1).setX(20).setG(0).setB(0).setRatedU1(400).setRatedU2(226).add();
        ThreeWindingsTransformer& t3 = s1.newThreeWindingsTransformer().setId("T3").setName("3wt").setRatedU0(401)
            .newLeg1().setR(1).setX(2).setG(1e-6).setB(2e-6).setRatedU(400).setRatedS(100).setVoltageLevel("VN1").setNode(18).add()
            .newLeg2().setR(3).setX(4).setG(3e-6).setB(4e-6).setRatedU(225).setVoltageLevel("VN2").setNode(3).add()
            .newLeg3().setR(5).setX(6).setG(0).setB(0).setRatedU(20).setVoltageLevel("VB3").setBus("B5").setConnectableBus("B5").add().add();
        if (o.tapChangers) {
            ratio(t1, stdcxx::ref(t1.getTerminal2()), true);
            phase(t1, stdcxx::ref(n.getLoad("LD1").getTerminal()), false);
            phase(t2, stdcxx::ref(t2.getTerminal1()), true);
            ratio(t3.getLeg2(), stdcxx::ref(t3.getLeg2().getTerminal()), true);
            ratio(t3.getLeg3(), stdcxx::ref(n.getGenerator("GB3").getTerminal()), false);
            phase(t3.getLeg1(), stdcxx::ref(t3.getLeg1().getTerminal()), false);
        }
        if (o.limits) {
            threeLimits(l.newCurrentLimits1(), 1000);
            threeLimits(l.newCurrentLimits2(), 1100);
            threeLimits(l.newActivePowerLimits1(), 1200);
            threeLimits(l.newActivePowerLimits2(), 1300);
            threeLimits(l.newApparentPowerLimits1(), 1400);
            threeLimits(l.newApparentPowerLimits2(), 1500);
            t.newCurrentLimits2().setPermanentLimit(77).add();
            threeLimits(t.newApparentPowerLimits1(), 80);
            threeLimits(t1.newCurrentLimits1(), 2000);
            threeLimits(t1.newActivePowerLimits2(), 2100);
            t2.newCurrentLimits2().setPermanentLimit(90).add();
            threeLimits(t3.getLeg1().newCurrentLimits(), 3000);
            threeLimits(t3.getLeg2().newActivePowerLimits(), 3100);
            threeLimits(t3.getLeg3().newApparentPowerLimits(), 3200);
        }
    }

    void hvdc() {
        n.newHvdcLine().setId("HVDC1").setName("hvdc 1").setR(1).setNominalV(320).setActivePowerSetpoint(100).setMaxP(300).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER).setConverterStationId1("VSC1").setConverterStationId2("VSCB1").add();
        n.newHvdcLine().setId("HVDC2").setR(0).setNominalV(500).setActivePowerSetpoint(0).setMaxP(0).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER).setConverterStationId1("LCC1").setConverterStationId2("LCCB1").add();
    }

    void aliases() {
        n.getLoad("LD1").addAlias("alias LD1 a");
        n.getLoad("LD1").addAlias("alias LD1 b", "type1");
        n.getLine("L1").addAlias("alias L1", "type1");
        n.getSubstation("S1").addAlias("alias S1");
        n.getVoltageLevel("VN1").addAlias("alias VN1", "t");
        n.getSwitch("CPL").addAlias("alias CPL");
        if (n.find<HvdcLine>("HVDC1")) n.get<HvdcLine>("HVDC1").addAlias("alias HVDC1", "typeH");
        n.getThreeWindingsTransformer("T3").addAlias("alias T3", "type3");
        n.getTwoWindingsTransformer("T1").addAlias("alias T1");
        n.getGenerator("GB1").addAlias("alias GB1");
        n.getLine("TIE1").addAlias("alias TIE1", "tt");
        n.addAlias("alias network", "tn");
        for (const char* id : {"LD1", "G1", "BAT1", "SH1", "SVC1", "DL1", "VSC1", "LCC1", "L1", "TIE1", "T1", "T3", "HVDC1", "VN1", "CPL", "BBS1", "GB1"}) {
            if (std::string(id) == "HVDC1" && !n.find<HvdcLine>(id)) continue;
            n.getIdentifiable(id).setProperty(std::string("prop of ") + id, std::string("value ") + id);
            n.getIdentifiable(id).setProperty("common", "x");
        }
    }

    void state() {
        double k = 0;
        for (Connectable& c : n.getConnectables()) {
            if (c.getType() == ConnectableType::BUSBAR_SECTION) continue;
            for (const auto& t : c.getTerminals()) {
                k += 1;
                if (static_cast<int>(k) % 5 == 0) continue;   // some unset
                if (c.getType() != ConnectableType::SHUNT_COMPENSATOR) t.get().setP(k + 0.125);
                t.get().setQ(-k * 0.5);
            }
        }
        for (const char* v : {"VN1", "VN2", "VB1", "VB2", "VB3"}) {
            VoltageLevel& vl = n.getVoltageLevel(v);
            // a node/breaker level is exported with the voltages of its bus-level buses
            auto set = [&](Bus& b) {
                k += 1;
                b.setV(vl.getNominalV() * (1 + k * 1e-4));
                b.setAngle(-k / 8);
            };
            if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
                for (Bus& b : vl.getBusView().getBuses()) set(b);
            } else {
                for (Bus& b : vl.getBusBreakerView().getBuses()) set(b);
            }
        }
    }
};

}  // namespace

Network full(const FullOptions& options) {
    Builder b(options);
    b.containers();
    b.injections();
    b.branches();
    if (options.hvdc) b.hvdc();
    if (options.aliases) b.aliases();
    if (options.stateValues) b.state();
    if (options.extensions) addExtensions(b.n);
    return std::move(b.n);
}

void addExtensions(Network& n) {
    using namespace ext;
    n.getLoad("LD1").newExtension<LoadDetailAdder>().withFixedActivePower(1.5).withFixedReactivePower(2.5).withVariableActivePower(3.5).withVariableReactivePower(4.5).add();
    n.getVoltageLevel("VN1").newExtension<SlackTerminalAdder>().withTerminal(n.getLoad("LD1").getTerminal()).add();
    n.getVoltageLevel("VB1").newExtension<SlackTerminalAdder>().withTerminal(n.getGenerator("GB1").getTerminal()).add();
    n.getSubstation("S1").newExtension<entsoe::EntsoeAreaAdder>().withCode(entsoe::EntsoeGeographicalCode::FR).add();
    n.getLine("TIE1").newExtension<entsoe::MergedXnodeAdder>().withCode("XMERGED").withLine1Name("").withLine2Name("").withRdp(0.25).withXdp(0.75).withXnodeP1(1).withXnodeQ1(2).withXnodeP2(3).withXnodeQ2(4).add();
    n.getDanglingLine("DL1").newExtension<entsoe::XnodeAdder>().withCode("XCODE").add();
    n.getGenerator("G1").newExtension<ext::iidm::ActivePowerControlAdder>().withDroop(4).withParticipate(true).add();
    n.getBattery("BAT1").newExtension<ext::iidm::ActivePowerControlAdder>().withDroop(5).withParticipate(false).add();
    n.getGenerator("G1").newExtension<ext::iidm::CoordinatedReactiveControlAdder>().withQPercent(60.5).add();
    if (n.find<HvdcLine>("HVDC1")) {
        n.getHvdcLine("HVDC1").newExtension<ext::iidm::HvdcAngleDroopActivePowerControlAdder>().withDroop(10).withP0(20).withEnabled(true).add();
        n.getHvdcLine("HVDC1").newExtension<ext::iidm::HvdcOperatorActivePowerRangeAdder>().withOprFromCS1toCS2(11).withOprFromCS2toCS1(12).add();
    }
    n.getThreeWindingsTransformer("T3").newExtension<ext::iidm::ThreeWindingsTransformerPhaseAngleClockAdder>().withPhaseAngleClockLeg2(3).withPhaseAngleClockLeg3(11).add();
    n.getTwoWindingsTransformer("T1").newExtension<ext::iidm::TwoWindingsTransformerPhaseAngleClockAdder>().withPhaseAngleClock(5).add();
    n.getStaticVarCompensator("SVC1").newExtension<ext::iidm::VoltagePerReactivePowerControlAdder>().withSlope(0.25).add();
    n.getLine("L1").newExtension<sld::BranchStatusAdder>().withStatus(sld::BranchStatus::Status::PLANNED_OUTAGE).add();
    n.getBusbarSection("BBS1").newExtension<sld::BusbarSectionPositionAdder>().withBusbarIndex(1).withSectionIndex(2).add();
    n.getLoad("LD1").newExtension<sld::ConnectablePositionAdder>().newFeeder().withName("fd").withOrder(7).withDirection(sld::ConnectablePosition::Direction::TOP).add().add();
    n.getLine("L1").newExtension<sld::ConnectablePositionAdder>().newFeeder1().withName("f1").withOrder(1).withDirection(sld::ConnectablePosition::Direction::BOTTOM).add()
        .newFeeder2().withName("f2").withOrder(2).withDirection(sld::ConnectablePosition::Direction::UNDEFINED).add().add();
    n.getThreeWindingsTransformer("T3").newExtension<sld::ConnectablePositionAdder>().newFeeder1().withName("a").withOrder(10).withDirection(sld::ConnectablePosition::Direction::TOP).add()
        .newFeeder2().withName("b").withOrder(20).withDirection(sld::ConnectablePosition::Direction::TOP).add().newFeeder3().withName("c").withOrder(30).withDirection(sld::ConnectablePosition::Direction::BOTTOM).add().add();
    n.getLine("L1").newExtension<ext::iidm::MeasurementsAdder>().add();
    auto& m = n.getLine("L1").getExtension<ext::iidm::Measurements>();
    m.newMeasurement().setId("M1").setType(ext::iidm::Measurement::Type::ACTIVE_POWER).setSide(ext::iidm::Measurement::Side::TWO).setValue(12.5).setStandardDeviation(0.5).setValid(true).putProperty("mk", "mv").putProperty("mk2", "mv2").add();
    m.newMeasurement().setType(ext::iidm::Measurement::Type::OTHER).setValid(false).add();
    n.getTwoWindingsTransformer("T1").newExtension<ext::iidm::DiscreteMeasurementsAdder>().add();
    auto& d = n.getTwoWindingsTransformer("T1").getExtension<ext::iidm::DiscreteMeasurements>();
    d.newDiscreteMeasurement().setId("DM1").setType(ext::iidm::DiscreteMeasurement::Type::TAP_POSITION).setTapChanger(ext::iidm::DiscreteMeasurement::TapChanger::RATIO_TAP_CHANGER).setValue(2).setValid(true).putProperty("dk", "dv").add();
    d.newDiscreteMeasurement().setType(ext::iidm::DiscreteMeasurement::Type::OTHER).setValue("text value").setValid(false).add();
    n.getSwitch("CPL").newExtension<ext::iidm::DiscreteMeasurementsAdder>().add();
    n.getSwitch("CPL").getExtension<ext::iidm::DiscreteMeasurements>().newDiscreteMeasurement().setId("DM3").setType(ext::iidm::DiscreteMeasurement::Type::SWITCH_POSITION).setValue(true).setValid(true).add();
}

}  // namespace net
