#include "features.hpp"

#include <cmath>
#include <limits>

namespace features {

namespace {

const double NaN = std::numeric_limits<double>::quiet_NaN();
const double MAXD = std::numeric_limits<double>::max();

template <typename T>
T pick(unsigned c, std::initializer_list<T> v) { return *(v.begin() + c); }

// position of a single terminal equipment: 0 node behind the closed breaker, 1 bus, connected; 2 bus, disconnected; 3 node alone
template <typename A>
A& place(A& a, unsigned pos) {
    if (pos == 0) return a.setNode(1);
    if (pos == 3) return a.setNode(7);
    a.setConnectableBus("B1");
    if (pos == 1) a.setBus("B1");
    return a;
}
VoltageLevel& level(Network& n, unsigned pos) { return n.getVoltageLevel(pos == 0 || pos == 3 ? "VN" : "VB"); }

void flows(Terminal& t, unsigned c) {   // 3 choices
    if (c >= 1) t.setQ(-2.5);
    if (c >= 2) t.setP(1.25);
}

stdcxx::Reference<Terminal> regulated(Network& n, unsigned c) {   // 0: none, 1: load, 2: busbar section
    if (c == 1) return stdcxx::ref(n.getLoad("K").getTerminal());
    if (c == 2) return stdcxx::ref(n.getBusbarSection("BBS").getTerminal());
    return stdcxx::Reference<Terminal>();
}

template <typename R>
void reactive(R& r, unsigned c) {   // 5 choices
    if (c == 1) r.newMinMaxReactiveLimits().setMinQ(-1.5).setMaxQ(2.5).add();
    if (c == 2) r.newMinMaxReactiveLimits().setMinQ(-MAXD).setMaxQ(MAXD).add();
    if (c == 3) r.newReactiveCapabilityCurve().beginPoint().setP(0).setMinQ(-1).setMaxQ(1).endPoint().beginPoint().setP(10).setMinQ(-2).setMaxQ(2).endPoint().add();
    if (c == 4) r.newReactiveCapabilityCurve().beginPoint().setP(5.5).setMinQ(0).setMaxQ(0).endPoint().beginPoint().setP(-1).setMinQ(-3).setMaxQ(3).endPoint().beginPoint().setP(10).setMinQ(-2).setMaxQ(2).endPoint().add();
}

template <typename A>
void limit(A adder, unsigned c) {   // 1..5
    if (c == 1) { adder.setPermanentLimit(0.25).add(); return; }
    if (c == 2) { adder.setPermanentLimit(MAXD).add(); return; }
    adder.setPermanentLimit(100);
    if (c == 3) adder.beginTemporaryLimit().setName("20'").setAcceptableDuration(1200).setValue(110).endTemporaryLimit();
    if (c == 4) {
        adder.beginTemporaryLimit().setName("20'").setAcceptableDuration(1200).setValue(110).setFictitious(true).endTemporaryLimit();
        adder.beginTemporaryLimit().setName("1'").setAcceptableDuration(60).setValue(120.5).endTemporaryLimit();
        adder.beginTemporaryLimit().setName("0").setAcceptableDuration(0).setValue(MAXD).endTemporaryLimit();
    }
    if (c == 5) adder.beginTemporaryLimit().setName("N/A").setAcceptableDuration(std::numeric_limits<unsigned long>::max()).setValue(130).endTemporaryLimit();
    adder.add();
}

// 9 choices
template <typename C, typename A, typename P>
void loading(unsigned c, C current, A active, P apparent) {
    if (c >= 1 && c <= 5) limit(current(), c);
    if (c == 6) limit(active(), 3);
    if (c == 7) limit(apparent(), 4);
    if (c == 8) { limit(current(), 1); limit(active(), 4); limit(apparent(), 5); }
}

// dims of a ratio tap changer: present, low, steps, position, ltc, regulating, target v, deadband, terminal
const D RATIO = {2, 3, 3, 3, 2, 2, 2, 3, 3};
template <typename H>
void ratio(Network& n, H& h, const unsigned* d) {
    if (d[0] == 0) { for (int k = 1; k < 9; ++k) if (d[k]) throw std::logic_error("same as another"); return; }
    if (d[3] > d[2]) throw std::logic_error("no such position");
    long low = pick<long>(d[1], {0, -3, 5});
    auto a = h.newRatioTapChanger();
    a.setLowTapPosition(low).setTapPosition(low + static_cast<long>(d[3])).setLoadTapChangingCapabilities(d[4] == 1).setRegulating(d[5] == 1);
    if (d[6]) a.setTargetV(221.5);
    if (d[7]) a.setTargetDeadband(d[7] == 1 ? 0.0 : 1.5);
    if (d[8]) a.setRegulationTerminal(regulated(n, d[8]));
    for (unsigned k = 0; k <= d[2]; ++k) a.beginStep().setRho(0.9 + 0.1 * k).setR(0.25 * k).setX(-0.5 * k).setG(1e-7 * k).setB(3.0 * k).endStep();
    a.add();
}
// present, low, steps, position, mode, regulating, value, deadband, terminal
const D PHASE = {2, 2, 2, 2, 3, 2, 2, 3, 3};
template <typename H>
void phase(Network& n, H& h, const unsigned* d) {
    if (d[0] == 0) { for (int k = 1; k < 9; ++k) if (d[k]) throw std::logic_error("same as another"); return; }
    if (d[3] > d[2]) throw std::logic_error("no such position");
    long low = pick<long>(d[1], {0, -3});
    auto a = h.newPhaseTapChanger();
    a.setLowTapPosition(low).setTapPosition(low + static_cast<long>(d[3])).setRegulating(d[5] == 1);
    a.setRegulationMode(pick<PhaseTapChanger::RegulationMode>(d[4], {PhaseTapChanger::RegulationMode::FIXED_TAP, PhaseTapChanger::RegulationMode::CURRENT_LIMITER, PhaseTapChanger::RegulationMode::ACTIVE_POWER_CONTROL}));
    if (d[6]) a.setRegulationValue(-12.5);
    if (d[7]) a.setTargetDeadband(d[7] == 1 ? 0.0 : 1.5);
    if (d[8]) a.setRegulationTerminal(regulated(n, d[8]));
    for (unsigned k = 0; k <= d[2]; ++k) a.beginStep().setAlpha(-5.5 + k).setRho(1 + 0.125 * k).setR(0.25 * k).setX(-0.5 * k).setG(1e-7 * k).setB(3.0 * k).endStep();
    a.add();
}

// end of a branch: 0 node, 1 bus connected, 2 bus disconnected
template <typename A>
void end1(A& a, unsigned pos) {
    a.setVoltageLevel1(pos == 0 ? "VN" : "VB");
    if (pos == 0) a.setNode1(1);
    if (pos >= 1) a.setConnectableBus1("B2");
    if (pos == 1) a.setBus1("B2");
}
template <typename A>
void end2(A& a, unsigned pos, bool other) {
    a.setVoltageLevel2(pos == 0 ? "VN" : other ? "VR" : "VC");
    std::string bus = other ? "R1" : "C1";
    if (pos == 0) a.setNode2(7);
    if (pos >= 1) a.setConnectableBus2(bus);
    if (pos == 1) a.setBus2(bus);
}

TwoWindingsTransformer& transformer(Network& n, unsigned pos1 = 1, unsigned pos2 = 1, double ratedS = NaN) {
    auto a = n.getSubstation("S1").newTwoWindingsTransformer();
    a.setId("X").setR(1).setX(2).setG(0).setB(0).setRatedU1(400).setRatedU2(225);
    if (!std::isnan(ratedS)) a.setRatedS(ratedS);
    end1(a, pos1);
    end2(a, pos2, false);
    return a.add();
}

ThreeWindingsTransformer& transformer3(Network& n, const char* id = "X") {
    return n.getSubstation("S1").newThreeWindingsTransformer().setId(id).setRatedU0(400)
        .newLeg1().setR(1).setX(2).setG(0).setB(0).setRatedU(400).setVoltageLevel("VN").setNode(1).add()
        .newLeg2().setR(1).setX(2).setG(0).setB(0).setRatedU(225).setVoltageLevel("VC").setBus("C1").setConnectableBus("C1").add()
        .newLeg3().setR(1).setX(2).setG(0).setB(0).setRatedU(20).setVoltageLevel("VB").setBus("B2").setConnectableBus("B2").add().add();
}

D operator+(D a, const D& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

std::vector<Feature> make() {
    std::vector<Feature> f;
    f.push_back({"load", {4, 3, 2, 3, 4}, [](Network& n, const D& d) {
        auto a = level(n, d[4]).newLoad();
        a.setId("X").setLoadType(pick<LoadType>(d[0], {LoadType::UNDEFINED, LoadType::AUXILIARY, LoadType::FICTITIOUS, LoadType::UNDEFINED})).setP0(pick(d[1], {0.0, -1.5, 1e10})).setQ0(pick(d[2], {0.0, 1.0 / 3}));
        flows(place(a, d[4]).add().getTerminal(), d[3]);
    }});
    f.push_back({"generator", {6, 3, 2, 2, 3, 5, 2, 2}, [](Network& n, const D& d) {
        auto a = level(n, d[7]).newGenerator();
        a.setId("X").setEnergySource(pick<EnergySource>(d[0], {EnergySource::OTHER, EnergySource::HYDRO, EnergySource::NUCLEAR, EnergySource::WIND, EnergySource::THERMAL, EnergySource::SOLAR}));
        a.setMinP(pick(d[1], {0.0, -MAXD, 5.5})).setMaxP(pick(d[1], {10.0, MAXD, 5.5})).setTargetP(5.5).setVoltageRegulatorOn(d[2] == 1);
        if (d[2] == 1 || d[3]) a.setTargetV(400.25);
        if (d[2] == 0 || d[3]) a.setTargetQ(-1.125);
        if (d[4]) a.setRegulatingTerminal(regulated(n, d[4]));
        if (d[6]) a.setRatedS(12.5);
        reactive(place(a, d[7]).add(), d[5]);
    }});
    f.push_back({"generator position", {4, 3, 2}, [](Network& n, const D& d) {
        auto a = level(n, d[0]).newGenerator();
        a.setId("X").setMinP(0).setMaxP(10).setTargetP(5).setTargetV(400).setTargetQ(1).setVoltageRegulatorOn(d[2] == 1);
        flows(place(a, d[0]).add().getTerminal(), d[1]);
    }});
    f.push_back({"battery", {2, 2, 3, 5, 3, 4}, [](Network& n, const D& d) {
        auto a = level(n, d[5]).newBattery();
        a.setId("X").setP0(pick(d[0], {0.0, -1.5})).setQ0(pick(d[1], {0.0, 2.5})).setMinP(pick(d[2], {-2.0, -MAXD, -1.5})).setMaxP(pick(d[2], {2.0, MAXD, 0.0}));
        Battery& b = place(a, d[5]).add();
        reactive(b, d[3]);
        flows(b.getTerminal(), d[4]);
    }});
    f.push_back({"shunt compensator", {5, 3, 2, 2, 3, 3, 2, 4}, [](Network& n, const D& d) {
        auto a = level(n, d[7]).newShuntCompensator();
        a.setId("X").setSectionCount(std::min(d[1], d[0] == 0 || d[0] == 3 ? 1U : 2U)).setVoltageRegulatorOn(d[2] == 1);
        if (d[1] == 2 && (d[0] == 0 || d[0] == 3)) throw std::logic_error("same as another");
        if (d[3]) a.setTargetV(401.5);
        if (d[4]) a.setTargetDeadband(d[4] == 1 ? 0.0 : 2.5);
        if (d[5]) a.setRegulatingTerminal(regulated(n, d[5]));
        if (d[0] == 0) a.newLinearModel().setBPerSection(1e-5).setMaximumSectionCount(1).add();
        if (d[0] == 1) a.newLinearModel().setBPerSection(-1e-5).setGPerSection(1e-6).setMaximumSectionCount(2).add();
        if (d[0] == 2) a.newLinearModel().setBPerSection(1e-5).setGPerSection(0).setMaximumSectionCount(2).add();
        if (d[0] == 3) a.newNonLinearModel().beginSection().setB(1e-5).endSection().add();
        if (d[0] == 4) a.newNonLinearModel().beginSection().setB(1e-5).setG(1e-6).endSection().beginSection().setB(-3e-5).setG(0).endSection().add();
        Terminal& t = place(a, d[7]).add().getTerminal();
        if (d[6]) t.setQ(3.5);
    }});
    f.push_back({"static var compensator", {2, 3, 2, 2, 3, 3, 4}, [](Network& n, const D& d) {
        auto a = level(n, d[6]).newStaticVarCompensator();
        a.setId("X").setBmin(pick(d[0], {-0.01, -MAXD})).setBmax(pick(d[0], {0.02, MAXD}));
        a.setRegulationMode(pick<StaticVarCompensator::RegulationMode>(d[1], {StaticVarCompensator::RegulationMode::OFF, StaticVarCompensator::RegulationMode::VOLTAGE, StaticVarCompensator::RegulationMode::REACTIVE_POWER}));
        if (d[2]) a.setVoltageSetpoint(402.5);
        if (d[3]) a.setReactivePowerSetpoint(-3.5);
        if (d[4]) a.setRegulatingTerminal(regulated(n, d[4]));
        flows(place(a, d[6]).add().getTerminal(), d[5]);
    }});
    f.push_back({"dangling line", {3, 5, 5, 9, 4}, [](Network& n, const D& d) {
        auto a = level(n, d[4]).newDanglingLine();
        a.setId("X").setP0(-1.5).setQ0(0).setR(0.5).setX(1).setG(1e-6).setB(0);
        if (d[0]) a.setUcteXnodeCode(d[0] == 1 ? "" : "XNODE");
        if (d[1] == 0 && d[2]) throw std::logic_error("same as another");
        if (d[1] == 1) a.newGeneration().setTargetP(1).setTargetQ(2.5).setVoltageRegulationOn(false).add();
        if (d[1] == 2) a.newGeneration().setMinP(-1).setMaxP(10).setTargetP(1).setTargetV(400).setVoltageRegulationOn(true).add();
        if (d[1] == 3) a.newGeneration().setMinP(-1).setMaxP(10).setTargetP(1).setTargetV(400).setTargetQ(3).setVoltageRegulationOn(true).add();
        if (d[1] == 4) a.newGeneration().setMinP(-MAXD).setMaxP(MAXD).setTargetP(0).setTargetV(400).setTargetQ(3).setVoltageRegulationOn(false).add();
        DanglingLine& l = place(a, d[4]).add();
        if (d[1]) reactive(l.getGeneration().get(), d[2]);
        loading(d[3], [&] { return l.newCurrentLimits(); }, [&] { return l.newActivePowerLimits(); }, [&] { return l.newApparentPowerLimits(); });
        flows(l.getTerminal(), d[3] % 3);
    }});
    f.push_back({"VSC station", {2, 2, 2, 2, 5, 3, 4}, [](Network& n, const D& d) {
        auto a = level(n, d[6]).newVscConverterStation();
        a.setId("X").setLossFactor(pick(d[0], {0.0, 1.5})).setVoltageRegulatorOn(d[1] == 1);
        if (d[2]) a.setVoltageSetpoint(401.25);
        if (d[3]) a.setReactivePowerSetpoint(-7.5);
        VscConverterStation& s = place(a, d[6]).add();
        reactive(s, d[4]);
        flows(s.getTerminal(), d[5]);
    }});
    f.push_back({"LCC station", {3, 4, 3, 4}, [](Network& n, const D& d) {
        auto a = level(n, d[3]).newLccConverterStation();
        a.setId("X").setLossFactor(pick(d[0], {0.0, 1.1, 100.0})).setPowerFactor(pick(d[1], {0.0, 0.6, -1.0, 1.0}));
        flows(place(a, d[3]).add().getTerminal(), d[2]);
    }});
    f.push_back({"HVDC line", {2, 3, 3, 2}, [](Network& n, const D& d) {
        if (d[0] == 0) {
            n.getVoltageLevel("VN").newVscConverterStation().setId("C1 station").setNode(1).setLossFactor(1).setVoltageSetpoint(400).setVoltageRegulatorOn(true).add();
            n.getVoltageLevel("VR").newVscConverterStation().setId("C2 station").setBus("R1").setConnectableBus("R1").setLossFactor(0).setReactivePowerSetpoint(400).setVoltageRegulatorOn(false).add();
        } else {
            n.getVoltageLevel("VN").newLccConverterStation().setId("C1 station").setNode(1).setLossFactor(1).setPowerFactor(0.5).add();
            n.getVoltageLevel("VR").newLccConverterStation().setId("C2 station").setConnectableBus("R1").setLossFactor(0).setPowerFactor(-0.5).add();
        }
        n.newHvdcLine().setId("X").setR(pick(d[1], {0.0, 1.5, MAXD})).setNominalV(320.5).setMaxP(pick(d[2], {0.0, 300.5, MAXD})).setActivePowerSetpoint(pick(d[2], {0.0, 300.5, 1e-3}))
            .setConvertersMode(d[3] ? HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER : HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER).setConverterStationId1("C1 station").setConverterStationId2("C2 station").add();
    }});
    f.push_back({"line", {9, 9, 3, 3, 3}, [](Network& n, const D& d) {
        auto a = n.newLine();
        a.setId("X").setR(0).setX(1.5).setG1(1e-6).setB1(0).setG2(0).setB2(-1e-6);
        end1(a, d[2]);
        end2(a, d[3], true);
        Line& l = a.add();
        loading(d[0], [&] { return l.newCurrentLimits1(); }, [&] { return l.newActivePowerLimits1(); }, [&] { return l.newApparentPowerLimits1(); });
        loading(d[1], [&] { return l.newCurrentLimits2(); }, [&] { return l.newActivePowerLimits2(); }, [&] { return l.newApparentPowerLimits2(); });
        flows(l.getTerminal1(), d[4]);
        flows(l.getTerminal2(), (d[4] + d[0]) % 3);
    }});
    f.push_back({"tie line", {2, 2, 2, 2, 9, 2, 3, 3}, [](Network& n, const D& d) {
        auto a = n.newTieLine();
        a.setId("X").setUcteXnodeCode(d[5] ? "XN" : "code with space");
        end1(a, d[6]);
        end2(a, d[7], true);
        auto h1 = a.newHalfLine1();
        h1.setId("half 1").setR(1).setX(2).setG1(1e-6).setB1(2e-6).setG2(3e-6).setB2(4e-6);
        if (d[0]) h1.setName("name 1");
        if (d[1]) h1.setFictitious(true);
        h1.add();
        auto h2 = a.newHalfLine2();
        h2.setId(d[3] ? "X" : "half 2").setR(1.5).setX(2.5).setG1(5e-6).setB1(6e-6).setG2(7e-6).setB2(8e-6);
        if (d[2]) h2.setName("name 2");
        if (d[3]) h2.setFictitious(true);
        h2.add();
        TieLine& l = a.add();
        loading(d[4], [&] { return l.newCurrentLimits1(); }, [&] { return l.newActivePowerLimits2(); }, [&] { return l.newApparentPowerLimits1(); });
        flows(l.getTerminal1(), d[4] % 3);
    }});
    f.push_back({"two windings transformer", {2, 9, 9, 3, 3, 2, 2}, [](Network& n, const D& d) {
        TwoWindingsTransformer& t = transformer(n, d[3], d[4], d[0] ? 312.5 : NaN);
        loading(d[1], [&] { return t.newCurrentLimits1(); }, [&] { return t.newActivePowerLimits1(); }, [&] { return t.newApparentPowerLimits1(); });
        loading(d[2], [&] { return t.newCurrentLimits2(); }, [&] { return t.newActivePowerLimits2(); }, [&] { return t.newApparentPowerLimits2(); });
        flows(t.getTerminal2(), (d[0] + d[1]) % 3);
        unsigned r[9] = {d[5], 0, d[5], d[5], 0, 0, 0, 0, 0}, p[9] = {d[6], 0, d[6], d[6], 0, 0, 0, 0, 0};
        ratio(n, t, r);
        phase(n, t, p);
    }});
    f.push_back({"ratio tap changer", RATIO, [](Network& n, const D& d) { TwoWindingsTransformer& t = transformer(n); ratio(n, t, &d[0]); }});
    f.push_back({"phase tap changer", PHASE, [](Network& n, const D& d) { TwoWindingsTransformer& t = transformer(n); phase(n, t, &d[0]); }});
    // leg, kind of tap changer, then the tap changer; limits of the leg
    f.push_back({"ratio tap changer of a leg", D{3} + RATIO, [](Network& n, const D& d) { ThreeWindingsTransformer& t = transformer3(n); ratio(n, d[0] == 0 ? t.getLeg1() : d[0] == 1 ? t.getLeg2() : t.getLeg3(), &d[1]); }});
    f.push_back({"phase tap changer of a leg", D{3} + PHASE, [](Network& n, const D& d) { ThreeWindingsTransformer& t = transformer3(n); phase(n, d[0] == 0 ? t.getLeg1() : d[0] == 1 ? t.getLeg2() : t.getLeg3(), &d[1]); }});
    f.push_back({"three windings transformer", {3, 3, 3, 9, 9, 9}, [](Network& n, const D& d) {
        auto a = n.getSubstation("S1").newThreeWindingsTransformer();
        a.setId("X");
        if (d[0]) a.setRatedU0(d[0] == 1 ? 399.5 : 400);
        auto l1 = a.newLeg1();
        l1.setR(0).setX(2).setG(1e-6).setB(2e-6).setRatedU(400).setVoltageLevel(d[1] == 0 ? "VN" : "VB");
        if (d[1] == 0) l1.setNode(1); else { l1.setConnectableBus("B2"); if (d[1] == 1) l1.setBus("B2"); }
        if (d[2] == 1) l1.setRatedS(99.5);
        l1.add();
        auto l2 = a.newLeg2();
        l2.setR(1).setX(0).setG(3e-6).setB(4e-6).setRatedU(225).setVoltageLevel("VC").setConnectableBus("C1");
        if (d[1] != 1) l2.setBus("C1");
        if (d[2] == 2) l2.setRatedS(98.5);
        l2.add();
        auto l3 = a.newLeg3();
        l3.setR(5).setX(6).setG(0).setB(0).setRatedU(20).setVoltageLevel("VB").setBus("B1").setConnectableBus("B1");
        if (d[2] == 2) l3.setRatedS(1e-3);
        l3.add();
        ThreeWindingsTransformer& t = a.add();
        for (unsigned k = 0; k < 3; ++k) {
            auto& l = k == 0 ? t.getLeg1() : k == 1 ? t.getLeg2() : t.getLeg3();
            loading(d[3 + k], [&] { return l.newCurrentLimits(); }, [&] { return l.newActivePowerLimits(); }, [&] { return l.newApparentPowerLimits(); });
            flows(l.getTerminal(), (d[3] + k) % 3);
        }
    }});
    f.push_back({"switch", {3, 2, 2, 2}, [](Network& n, const D& d) {
        if (d[3]) {
            if (d[0] || d[2]) throw std::logic_error("same as another");
            n.getVoltageLevel("VB").getBusBreakerView().newSwitch().setId("X").setBus1("B2").setBus2("B1").setOpen(d[1] == 1).add();
        } else {
            n.getVoltageLevel("VN").getNodeBreakerView().newSwitch().setId("X").setNode1(0).setNode2(5).setKind(pick<SwitchKind>(d[0], {SwitchKind::BREAKER, SwitchKind::DISCONNECTOR, SwitchKind::LOAD_BREAK_SWITCH})).setOpen(d[1] == 1).setRetained(d[2] == 1).add();
            n.getVoltageLevel("VN").newLoad().setId("at the end").setNode(5).setP0(1).setQ0(1).add();
        }
    }});
    f.push_back({"internal connections", {2, 2, 2, 2, 2}, [](Network& n, const D& d) {
        auto& v = n.getVoltageLevel("VN").getNodeBreakerView();
        if (d[0]) v.newInternalConnection().setNode1(1).setNode2(0).add();
        if (d[1]) v.newInternalConnection().setNode1(0).setNode2(1).add();
        if (d[2]) v.newInternalConnection().setNode1(20).setNode2(21).add();
        if (d[3]) v.newInternalConnection().setNode1(1).setNode2(20).add();
        if (d[4]) { n.getVoltageLevel("VN").newLoad().setId("at the end").setNode(21).setP0(1).setQ0(1).add(); }
    }});
    f.push_back({"bus voltages", {3, 3, 3, 2}, [](Network& n, const D& d) {
        n.getVoltageLevel("VN").newLoad().setId("X").setNode(1).setP0(1).setQ0(1).add();
        auto& nb = n.getVoltageLevel("VN").getNodeBreakerView();
        nb.newBusbarSection().setId("BBS2").setNode(10).add();
        nb.newBreaker().setId("BRK2").setNode1(10).setNode2(11).setOpen(d[3] == 1).setRetained(false).add();
        n.getVoltageLevel("VN").newLoad().setId("Y").setNode(11).setP0(1).setQ0(1).add();
        auto set = [](Bus& b, unsigned c) { if (c >= 1) b.setV(401.5); if (c >= 2) b.setAngle(-1.25); };
        unsigned k = 0;
        for (Bus& b : n.getVoltageLevel("VN").getBusView().getBuses()) set(b, d[k++ % 2]);
        set(n.getVoltageLevel("VB").getBusBreakerView().getBus("B1").get(), d[2]);
        if (d[3]) n.getVoltageLevel("VB").getBusBreakerView().getBus("B2").get().setAngle(-0.5);
    }});
    f.push_back({"voltage level", {4, 2, 3}, [](Network& n, const D& d) {
        auto a = n.getSubstation("S1").newVoltageLevel();
        a.setId("X").setNominalV(pick(d[2], {0.4, 1100.0, 1e-3})).setTopologyKind(d[1] ? TopologyKind::NODE_BREAKER : TopologyKind::BUS_BREAKER);
        if (d[0] & 1) a.setLowVoltageLimit(0);
        if (d[0] & 2) a.setHighVoltageLimit(0.25);
        a.add();
    }});
    f.push_back({"substation", {4, 3, 4, 2}, [](Network& n, const D& d) {
        auto a = n.newSubstation();
        a.setId("X");
        if (d[0]) a.setCountry(pick(d[0], {Country::FR, Country::FR, Country::AD, Country::ZW}));
        if (d[1]) a.setTso(d[1] == 1 ? "" : "RTE");
        if (d[2] >= 1) a.addGeographicalTag("A");
        if (d[2] >= 2) a.addGeographicalTag("B b");
        if (d[2] >= 3) a.addGeographicalTag("c-3");
        Substation& s = a.add();
        if (d[3]) s.newVoltageLevel().setId("X level").setNominalV(1).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    }});
    f.push_back({"network", {3, 3}, [](Network& n, const D& d) {
        n.setForecastDistance(pick(d[0], {0, 1, 525600}));
        n.setCaseDate(stdcxx::DateTime::parse(pick(d[1], {"2020-02-29T23:59:59.999Z", "1970-01-01T00:00:00.000Z", "2021-03-04T05:06:07.008+01:00"})));
    }});
    f.push_back({"regulation from afar", {6, 5}, [](Network& n, const D& d) {
        // a regulating terminal on every kind of multi terminal equipment and side
        TwoWindingsTransformer& t2 = n.getSubstation("S1").newTwoWindingsTransformer().setId("T2").setVoltageLevel1("VN").setNode1(1).setVoltageLevel2("VC").setBus2("C1").setConnectableBus2("C1").setR(1).setX(2).setG(0).setB(0).setRatedU1(400).setRatedU2(225).add();
        n.getVoltageLevel("VN").getNodeBreakerView().newInternalConnection().setNode1(1).setNode2(30).add();
        ThreeWindingsTransformer& t3 = n.getSubstation("S1").newThreeWindingsTransformer().setId("T3").setRatedU0(400)
            .newLeg1().setR(1).setX(2).setG(0).setB(0).setRatedU(400).setVoltageLevel("VN").setNode(30).add()
            .newLeg2().setR(1).setX(2).setG(0).setB(0).setRatedU(225).setVoltageLevel("VC").setBus("C1").setConnectableBus("C1").add()
            .newLeg3().setR(1).setX(2).setG(0).setB(0).setRatedU(20).setVoltageLevel("VB").setBus("B2").setConnectableBus("B2").add().add();
        Line& l = n.newLine().setId("L").setVoltageLevel1("VB").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VR").setConnectableBus2("R1").setR(0).setX(1.5).setG1(0).setB1(0).setG2(0).setB2(0).add();
        Terminal& t = *std::vector<Terminal*>{&t2.getTerminal1(), &t3.getLeg1().getTerminal(), &t3.getLeg2().getTerminal(), &t3.getLeg3().getTerminal(), &l.getTerminal1(), &l.getTerminal2()}[d[0]];
        VoltageLevel& v = n.getVoltageLevel("VB");
        if (d[1] == 0) v.newGenerator().setId("X").setBus("B1").setConnectableBus("B1").setMinP(0).setMaxP(10).setTargetP(5).setTargetV(400).setVoltageRegulatorOn(true).setRegulatingTerminal(stdcxx::ref(t)).add();
        if (d[1] == 1) v.newShuntCompensator().setId("X").setBus("B1").setConnectableBus("B1").setSectionCount(1).setRegulatingTerminal(stdcxx::ref(t)).newLinearModel().setBPerSection(1).setMaximumSectionCount(1).add().add();
        if (d[1] == 2) v.newStaticVarCompensator().setId("X").setBus("B1").setConnectableBus("B1").setBmin(0).setBmax(1).setRegulationMode(StaticVarCompensator::RegulationMode::OFF).setRegulatingTerminal(stdcxx::ref(t)).add();
        if (d[1] == 3) t2.newRatioTapChanger().setLowTapPosition(0).setTapPosition(0).setLoadTapChangingCapabilities(true).setRegulating(true).setTargetV(1).setTargetDeadband(0).setRegulationTerminal(stdcxx::ref(t)).beginStep().setRho(1).setR(0).setX(0).setG(0).setB(0).endStep().add();
        if (d[1] == 4) t3.getLeg3().newPhaseTapChanger().setLowTapPosition(0).setTapPosition(0).setRegulating(false).setRegulationTerminal(stdcxx::ref(t)).beginStep().setAlpha(1).setRho(1).setR(0).setX(0).setG(0).setB(0).endStep().add();
    }});
    return f;
}

}  // namespace

std::string& objectId() {
    static std::string id = "X";
    return id;
}

namespace {

template <typename A>
auto named(A& a, const std::string* name, bool fictitious) -> A& {
    a.setId(objectId());
    if (name) a.setName(*name);
    a.setFictitious(fictitious);
    return a;
}

std::vector<Minimal> makeMinimal() {
    std::vector<Minimal> m;
#define MIN(kind, body) m.push_back({kind, [](Network& n, const std::string* name, bool f) -> Identifiable& body})
    MIN("load", { auto a = n.getVoltageLevel("VB").newLoad(); named(a, name, f).setP0(1).setQ0(1); return place(a, 1).add(); });
    MIN("generator", { auto a = n.getVoltageLevel("VB").newGenerator(); named(a, name, f).setMinP(0).setMaxP(10).setTargetP(5).setTargetV(400).setVoltageRegulatorOn(true); return place(a, 1).add(); });
    MIN("battery", { auto a = n.getVoltageLevel("VB").newBattery(); named(a, name, f).setMinP(0).setMaxP(10).setP0(5).setQ0(400); return place(a, 1).add(); });
    MIN("shunt compensator", { auto a = n.getVoltageLevel("VB").newShuntCompensator(); named(a, name, f).setSectionCount(1).newLinearModel().setBPerSection(1).setMaximumSectionCount(1).add(); return place(a, 1).add(); });
    MIN("static var compensator", { auto a = n.getVoltageLevel("VB").newStaticVarCompensator(); named(a, name, f).setBmin(0).setBmax(1).setRegulationMode(StaticVarCompensator::RegulationMode::OFF); return place(a, 1).add(); });
    MIN("dangling line", { auto a = n.getVoltageLevel("VB").newDanglingLine(); named(a, name, f).setP0(1).setQ0(2).setR(1).setX(1).setG(0).setB(0); return place(a, 1).add(); });
    MIN("VSC station", { auto a = n.getVoltageLevel("VB").newVscConverterStation(); named(a, name, f).setLossFactor(1).setVoltageSetpoint(400).setVoltageRegulatorOn(true); return place(a, 1).add(); });
    MIN("LCC station", { auto a = n.getVoltageLevel("VB").newLccConverterStation(); named(a, name, f).setLossFactor(1).setPowerFactor(0.5); return place(a, 1).add(); });
    MIN("busbar section", { auto a = n.getVoltageLevel("VN").getNodeBreakerView().newBusbarSection(); return named(a, name, f).setNode(5).add(); });
    MIN("line", { auto a = n.newLine(); named(a, name, f).setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0); end1(a, 1); end2(a, 1, true); return a.add(); });
    MIN("tie line", { auto a = n.newTieLine(); named(a, name, f).setUcteXnodeCode("XN").newHalfLine1().setId("half 1").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add().newHalfLine2().setId("half 2").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add(); end1(a, 1); end2(a, 1, true); return a.add(); });
    MIN("2 windings transformer", { auto a = n.getSubstation("S1").newTwoWindingsTransformer(); named(a, name, f).setR(1).setX(2).setG(0).setB(0).setRatedU1(400).setRatedU2(225); end1(a, 1); end2(a, 1, false); return a.add(); });
    MIN("3 windings transformer", { auto a = n.getSubstation("S1").newThreeWindingsTransformer(); named(a, name, f)
            .newLeg1().setR(1).setX(2).setG(0).setB(0).setRatedU(400).setVoltageLevel("VN").setNode(1).add()
            .newLeg2().setR(1).setX(2).setG(0).setB(0).setRatedU(225).setVoltageLevel("VC").setBus("C1").setConnectableBus("C1").add()
            .newLeg3().setR(1).setX(2).setG(0).setB(0).setRatedU(20).setVoltageLevel("VB").setBus("B2").setConnectableBus("B2").add(); return a.add(); });
    MIN("bus", { auto a = n.getVoltageLevel("VB").getBusBreakerView().newBus(); return named(a, name, f).add(); });
    MIN("bus switch", { auto a = n.getVoltageLevel("VB").getBusBreakerView().newSwitch(); return named(a, name, f).setBus1("B1").setBus2("B2").setOpen(true).add(); });
    MIN("node switch", { auto a = n.getVoltageLevel("VN").getNodeBreakerView().newDisconnector(); return named(a, name, f).setNode1(0).setNode2(6).setOpen(true).add(); });
    MIN("substation", { auto a = n.newSubstation(); return named(a, name, f).add(); });
    MIN("bus/breaker voltage level", { auto a = n.getSubstation("S1").newVoltageLevel(); return named(a, name, f).setNominalV(90).setTopologyKind(TopologyKind::BUS_BREAKER).add(); });
    MIN("node/breaker voltage level", { auto a = n.getSubstation("S1").newVoltageLevel(); return named(a, name, f).setNominalV(90).setTopologyKind(TopologyKind::NODE_BREAKER).add(); });
    MIN("HVDC line", {
        n.getVoltageLevel("VN").newVscConverterStation().setId("C1 station").setNode(1).setLossFactor(1).setVoltageSetpoint(400).setVoltageRegulatorOn(true).add();
        n.getVoltageLevel("VR").newVscConverterStation().setId("C2 station").setBus("R1").setConnectableBus("R1").setLossFactor(0).setReactivePowerSetpoint(400).setVoltageRegulatorOn(false).add();
        auto a = n.newHvdcLine();
        return named(a, name, f).setR(1).setNominalV(320.5).setMaxP(3).setActivePowerSetpoint(2).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER).setConverterStationId1("C1 station").setConverterStationId2("C2 station").add(); });
    MIN("network", { if (name) throw std::logic_error("the network has no name"); n.setFictitious(f); return n; });
#undef MIN
    return m;
}

}  // namespace

Network host() {
    Network n("host", "verif");
    n.setCaseDate(stdcxx::DateTime::parse("2020-01-02T03:04:05.000Z"));
    Substation& s1 = n.newSubstation().setId("S1").setCountry(Country::FR).add();
    Substation& s2 = n.newSubstation().setId("S2").add();
    auto& nb = s1.newVoltageLevel().setId("VN").setNominalV(400).setTopologyKind(TopologyKind::NODE_BREAKER).add().getNodeBreakerView();
    nb.newBusbarSection().setId("BBS").setNode(0).add();
    nb.newBreaker().setId("BRK").setNode1(0).setNode2(1).setRetained(false).setOpen(false).add();
    VoltageLevel& vb = s1.newVoltageLevel().setId("VB").setNominalV(400).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    vb.getBusBreakerView().newBus().setId("B1").add();
    vb.getBusBreakerView().newBus().setId("B2").add();
    vb.getBusBreakerView().newSwitch().setId("SWB").setBus1("B1").setBus2("B2").setOpen(false).add();
    vb.newLoad().setId("K").setBus("B1").setConnectableBus("B1").setP0(0).setQ0(0).add();
    s1.newVoltageLevel().setId("VC").setNominalV(225).setTopologyKind(TopologyKind::BUS_BREAKER).add().getBusBreakerView().newBus().setId("C1").add();
    s2.newVoltageLevel().setId("VR").setNominalV(400).setTopologyKind(TopologyKind::BUS_BREAKER).add().getBusBreakerView().newBus().setId("R1").add();
    return n;
}

const std::vector<Feature>& all() {
    static const std::vector<Feature> f = make();
    return f;
}

const std::vector<Minimal>& minimal() {
    static const std::vector<Minimal> m = makeMinimal();
    return m;
}

// aliases, properties
const D& identityDims() {
    static const D d = {5, 4};
    return d;
}

void identity(Identifiable& i, const D& d) {
    if (d[0] == 1 || d[0] == 3) i.addAlias("alias a");
    if (d[0] == 2 || d[0] == 3) i.addAlias("alias t", "type 1");
    if (d[0] == 4) { i.addAlias("alias t", "type 1"); i.addAlias("alias 2", "type 2"); i.addAlias("zz alias"); i.addAlias("aa alias"); }
    if (d[1] == 1) i.setProperty("key", "value");
    if (d[1] >= 2) { i.setProperty("empty", ""); i.setProperty("b", "x"); i.setProperty("a", "with space"); }
    if (d[1] == 3) i.setProperty("", "empty key");
}

}  // namespace features
