// The per-variant attributes of net::full(), written at once, and edits of its structure.
#include "state.hpp"

#include <algorithm>

#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/LoadDetailAdder.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>

namespace net {

using namespace powsybl::iidm;  // NOLINT
namespace ext = powsybl::iidm::extensions;

namespace {

double val(const std::string& id, int what, int k) {
    return k * 10.0 + what + static_cast<double>(mc::hash(id) % 997) / 1024.0;
}

template <typename R>
void ratio(R& r, const std::string& id, int k) {
    r.setTapPosition(r.getLowTapPosition() + (mc::hash(id) + k) % r.getStepCount());
    r.setTargetV(val(id, 1, k) + 200);
    r.setTargetDeadband(val(id, 2, k));
}

template <typename P>
void phase(P& p, const std::string& id, int k) {
    p.setTapPosition(p.getLowTapPosition() + (mc::hash(id) + k + 1) % p.getStepCount());
    p.setRegulationValue(val(id, 3, k));
    p.setTargetDeadband(val(id, 4, k));
}

template <typename T>
void tapChangers(T& t, const std::string& id, int k) {
    if (t.hasRatioTapChanger()) ratio(t.getRatioTapChanger(), id + "r", k);
    if (t.hasPhaseTapChanger()) phase(t.getPhaseTapChanger(), id + "p", k);
}

}  // namespace

// writes every per-variant attribute in the working variant; k = 1, 2
void write(Network& n, int k) {
    // topology: first the reference position, in which the voltages are written
    for (Switch& s : n.getSwitches()) s.setOpen(false);
    for (Connectable& c : n.getConnectables()) {
        int ordinal = 0;
        for (const auto& tr : c.getTerminals()) {
            Terminal& t = tr.get();
            const std::string id = c.getId() + mc::str(++ordinal);
            if (c.getType() != ConnectableType::BUSBAR_SECTION) {
                if (c.getType() != ConnectableType::SHUNT_COMPENSATOR) t.setP(val(id, 1, k));
                t.setQ(val(id, 2, k));
            }
            if (t.getVoltageLevel().getTopologyKind() == TopologyKind::BUS_BREAKER) {
                if (!t.isConnected()) t.connect();
                std::vector<std::string> ids;
                for (Bus& b : t.getVoltageLevel().getBusBreakerView().getBuses()) ids.push_back(b.getId());
                std::sort(ids.begin(), ids.end());
                t.getBusBreakerView().setConnectableBus(ids[0]);
            }
        }
    }
    for (VoltageLevel& v : n.getVoltageLevels()) {
        auto set = [&](Bus& b) { b.setV(v.getNominalV() + val(v.getId(), 5, k)); b.setAngle(val(v.getId(), 6, k)); };
        if (v.getTopologyKind() == TopologyKind::BUS_BREAKER) {
            for (Bus& b : v.getBusBreakerView().getBuses()) { b.setV(v.getNominalV() + val(b.getId(), 5, k)); b.setAngle(val(b.getId(), 6, k)); }
        } else {
            for (Bus& b : v.getBusView().getBuses()) set(b);
        }
    }
    for (Switch& s : n.getSwitches()) {
        s.setOpen((mc::hash(s.getId()) / 7 + k) % 3 == 0);
        if (s.getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) s.setRetained((mc::hash(s.getId()) / 5 + k) % 2 == 0);
    }
    for (Connectable& c : n.getConnectables()) {
        int o = 0;
        for (const auto& tr : c.getTerminals()) {
            Terminal& t = tr.get();
            ++o;
            if (t.getVoltageLevel().getTopologyKind() != TopologyKind::BUS_BREAKER) continue;
            std::vector<std::string> ids;
            for (Bus& b : t.getVoltageLevel().getBusBreakerView().getBuses()) ids.push_back(b.getId());
            std::sort(ids.begin(), ids.end());
            ids.resize(std::min<size_t>(ids.size(), 2));   // the buses that always exist
            t.getBusBreakerView().setConnectableBus(ids[(mc::hash(c.getId()) / 11 + o + k) % ids.size()]);
            if ((mc::hash(c.getId()) / 3 + k + o) % 3 == 0) t.disconnect();
        }
    }
    for (Load& l : n.getLoads()) {
        l.setP0(val(l.getId(), 1, k)).setQ0(val(l.getId(), 2, k));
        auto d = l.findExtension<ext::LoadDetail>();
        if (d) d.get().setFixedActivePower(val(l.getId(), 3, k)).setFixedReactivePower(val(l.getId(), 4, k)).setVariableActivePower(val(l.getId(), 5, k)).setVariableReactivePower(val(l.getId(), 6, k));
    }
    for (Generator& g : n.getGenerators()) {
        g.setTargetV(val(g.getId(), 3, k) + 300).setTargetQ(val(g.getId(), 2, k)).setTargetP(val(g.getId(), 1, k) / 100);
        g.setVoltageRegulatorOn((mc::hash(g.getId()) + k) % 2 == 0);
    }
    for (Battery& b : n.getBatteries()) b.setP0(val(b.getId(), 1, k) / 100).setQ0(val(b.getId(), 2, k));
    for (DanglingLine& d : n.getDanglingLines()) {
        d.setP0(val(d.getId(), 1, k)).setQ0(val(d.getId(), 2, k));
        if (d.getGeneration()) d.getGeneration().get().setTargetP(val(d.getId(), 3, k) / 10).setTargetQ(val(d.getId(), 4, k)).setTargetV(val(d.getId(), 5, k) + 300).setVoltageRegulationOn((mc::hash(d.getId()) + k) % 2 == 0);
    }
    for (ShuntCompensator& s : n.getShuntCompensators()) {
        s.setTargetV(val(s.getId(), 1, k) + 300).setTargetDeadband(val(s.getId(), 2, k)).setVoltageRegulatorOn((mc::hash(s.getId()) + k) % 2 == 0);
        s.setSectionCount((mc::hash(s.getId()) + k) % (s.getMaximumSectionCount() + 1));
    }
    for (StaticVarCompensator& s : n.getStaticVarCompensators()) {
        s.setVoltageSetpoint(val(s.getId(), 1, k) + 300).setReactivePowerSetpoint(val(s.getId(), 2, k));
        s.setRegulationMode(static_cast<StaticVarCompensator::RegulationMode>((mc::hash(s.getId()) + k) % 3));
    }
    for (VscConverterStation& s : n.getVscConverterStations()) {
        s.setVoltageSetpoint(val(s.getId(), 1, k) + 300).setReactivePowerSetpoint(val(s.getId(), 2, k)).setVoltageRegulatorOn((mc::hash(s.getId()) + k) % 2 == 0);
    }
    for (HvdcLine& h : n.getHvdcLines()) {
        h.setActivePowerSetpoint(val(h.getId(), 1, k) / 100);
        h.setConvertersMode((mc::hash(h.getId()) + k) % 2 ? HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER : HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER);
    }
    for (TwoWindingsTransformer& t : n.getTwoWindingsTransformers()) {
        tapChangers(t, t.getId(), k);
        bool both = t.hasPhaseTapChanger() && t.hasRatioTapChanger();
        if (t.hasPhaseTapChanger()) t.getPhaseTapChanger().setRegulating(false);
        if (t.hasRatioTapChanger()) t.getRatioTapChanger().setRegulating(false);
        if (t.hasRatioTapChanger()) t.getRatioTapChanger().setRegulating(k == 2);
        if (t.hasPhaseTapChanger() && !both && t.getPhaseTapChanger().getRegulationMode() != PhaseTapChanger::RegulationMode::FIXED_TAP) t.getPhaseTapChanger().setRegulating(k == 2);
    }
    for (ThreeWindingsTransformer& t : n.getThreeWindingsTransformers()) {
        tapChangers(t.getLeg1(), t.getId() + "1", k);
        tapChangers(t.getLeg2(), t.getId() + "2", k);
        tapChangers(t.getLeg3(), t.getId() + "3", k);
        if (t.getLeg2().hasRatioTapChanger()) t.getLeg2().getRatioTapChanger().setRegulating(false);
        if (t.getLeg3().hasRatioTapChanger()) t.getLeg3().getRatioTapChanger().setRegulating(false);
        if (k == 1 && t.getLeg3().hasRatioTapChanger()) t.getLeg3().getRatioTapChanger().setRegulating(true);
    }
    for (VoltageLevel& v : n.getVoltageLevels()) {
        auto s = v.findExtension<ext::SlackTerminal>();
        if (!s) continue;
        std::vector<std::reference_wrapper<Terminal>> ts;
        std::vector<std::string> ids;
        for (Load& l : v.getLoads()) ids.push_back(l.getId());
        std::sort(ids.begin(), ids.end());
        if (k == 2) s.get().setTerminal(stdcxx::Reference<Terminal>());
        else s.get().setTerminal(stdcxx::ref(n.getLoad(ids[0]).getTerminal()));
    }
}

// equipment of every kind, created in the middle of a history
void create(Network& n) {
    VoltageLevel& v = n.getVoltageLevel("VN1");
    Terminal& ld1 = n.getLoad("LD1").getTerminal();
    auto& nb = v.getNodeBreakerView();
    for (int k = 30; k < 43; ++k) nb.newBreaker().setId("NB_" + mc::str(k)).setNode1(0).setNode2(k).setRetained(false).setOpen(k == 31).add();
    nb.newBusbarSection().setId("NBBS").setNode(43).add();
    nb.newInternalConnection().setNode1(43).setNode2(1).add();
    n.getVoltageLevel("VB1").getBusBreakerView().newBus().setId("Z9").add();
    n.getVoltageLevel("VB1").getBusBreakerView().newSwitch().setId("NSWB").setBus1("B1").setBus2("Z9").setOpen(false).add();
    v.newLoad().setId("NLD").setNode(30).setP0(1).setQ0(2).add().newExtension<ext::LoadDetailAdder>().withFixedActivePower(1).withFixedReactivePower(2).withVariableActivePower(3).withVariableReactivePower(4).add();
    v.newGenerator().setId("NG").setNode(31).setMinP(0).setMaxP(10).setTargetP(1).setTargetQ(2).setTargetV(400).setVoltageRegulatorOn(true).setRegulatingTerminal(stdcxx::ref(ld1)).add();
    v.newBattery().setId("NBAT").setNode(32).setP0(1).setQ0(2).setMinP(-1).setMaxP(1).add();
    v.newShuntCompensator().setId("NSH").setNode(33).setSectionCount(1).setTargetV(400).setTargetDeadband(1).setVoltageRegulatorOn(false).newLinearModel().setBPerSection(1e-3).setMaximumSectionCount(3).add().add();
    v.newStaticVarCompensator().setId("NSVC").setNode(34).setBmin(0).setBmax(1).setVoltageSetpoint(400).setReactivePowerSetpoint(1).setRegulationMode(StaticVarCompensator::RegulationMode::OFF).add();
    v.newDanglingLine().setId("NDL").setNode(35).setP0(1).setQ0(2).setR(1).setX(1).setG(0).setB(0).newGeneration().setMinP(0).setMaxP(10).setTargetP(1).setTargetQ(2).setTargetV(400).setVoltageRegulationOn(false).add().add();
    v.newVscConverterStation().setId("NVSC1").setNode(36).setLossFactor(1).setVoltageSetpoint(400).setReactivePowerSetpoint(1).setVoltageRegulatorOn(true).add();
    n.getVoltageLevel("VB1").newVscConverterStation().setId("NVSC2").setBus("B1").setConnectableBus("B1").setLossFactor(1).setVoltageSetpoint(400).setReactivePowerSetpoint(1).setVoltageRegulatorOn(true).add();
    n.newHvdcLine().setId("NHVDC").setR(1).setNominalV(400).setMaxP(100).setActivePowerSetpoint(1).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER).setConverterStationId1("NVSC1").setConverterStationId2("NVSC2").add();
    n.newLine().setId("NL").setVoltageLevel1("VN1").setNode1(37).setVoltageLevel2("VB1").setConnectableBus2("Z9").setBus2("Z9").setR(1).setX(1).setG1(0).setG2(0).setB1(0).setB2(0).add();
    TwoWindingsTransformer& t = n.getSubstation("S1").newTwoWindingsTransformer().setId("NT2").setVoltageLevel1("VN1").setNode1(38).setVoltageLevel2("VB3").setBus2("B5").setConnectableBus2("B5").setR(1).setX(1).setG(0).setB(0).setRatedU1(400).setRatedU2(20).add();
    t.newRatioTapChanger().setLowTapPosition(0).setTapPosition(1).setLoadTapChangingCapabilities(true).setRegulating(true).setTargetV(400).setTargetDeadband(1).setRegulationTerminal(stdcxx::ref(ld1))
        .beginStep().setRho(1).setR(0).setX(0).setG(0).setB(0).endStep().beginStep().setRho(1.1).setR(0).setX(0).setG(0).setB(0).endStep().add();
    TwoWindingsTransformer& t2 = n.getSubstation("S1").newTwoWindingsTransformer().setId("NT2P").setVoltageLevel1("VN1").setNode1(39).setVoltageLevel2("VB3").setBus2("B5").setConnectableBus2("B5").setR(1).setX(1).setG(0).setB(0).setRatedU1(400).setRatedU2(20).add();
    t2.newPhaseTapChanger().setLowTapPosition(0).setTapPosition(0).setRegulating(false).setRegulationMode(PhaseTapChanger::RegulationMode::CURRENT_LIMITER).setRegulationValue(5).setTargetDeadband(1).setRegulationTerminal(stdcxx::ref(ld1))
        .beginStep().setAlpha(1).setRho(1).setR(0).setX(0).setG(0).setB(0).endStep().beginStep().setAlpha(2).setRho(1).setR(0).setX(0).setG(0).setB(0).endStep().add();
    n.getVoltageLevel("VB2").newExtension<ext::SlackTerminalAdder>().withTerminal(n.getLoad("LDB3").getTerminal()).add();
    n.getLoad("LDB1").newExtension<ext::LoadDetailAdder>().withFixedActivePower(5).withFixedReactivePower(6).withVariableActivePower(7).withVariableReactivePower(8).add();
}

// an equipment of each topology kind removed
void removeSome(Network& n) {
    n.getHvdcLine("HVDC2").remove();
    dynamic_cast<Connectable&>(n.getIdentifiable("LD2")).remove();
    dynamic_cast<Connectable&>(n.getIdentifiable("SVCB2")).remove();
    dynamic_cast<Connectable&>(n.getIdentifiable("L2")).remove();
    n.getVoltageLevel("VN1").getNodeBreakerView().removeSwitch("B_VN1_3");
    n.getVoltageLevel("VB2").getBusBreakerView().removeSwitch("SWO");
}

}  // namespace net
