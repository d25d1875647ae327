#include "net.hpp"

#include <algorithm>
#include <cmath>
#include <set>
#include <sstream>

#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeArea.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeGeographicalCode.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnode.hpp>
#include <powsybl/iidm/extensions/entsoe/Xnode.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControl.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurement.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurements.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcAngleDroopActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcOperatorActivePowerRange.hpp>
#include <powsybl/iidm/extensions/iidm/Measurement.hpp>
#include <powsybl/iidm/extensions/iidm/Measurements.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/ThreeWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/VoltagePerReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatus.hpp>
#include <powsybl/iidm/extensions/sld/BusbarSectionPosition.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePosition.hpp>
#include <powsybl/iidm/converter/xml/ExtensionXmlSerializer.hpp>

namespace net {

namespace ext = powsybl::iidm::extensions;

namespace {

template <typename T>
typename std::enable_if<std::is_enum<T>::value, std::string>::type S(const T& t) { return "#" + std::to_string(static_cast<long>(t)); }
template <typename T>
typename std::enable_if<!std::is_enum<T>::value, std::string>::type S(const T& t) { return mc::str(t); }
template <typename T>
std::string S(const boost::optional<T>& t) { return t ? S(*t) : std::string("(none)"); }

#define PUT(path, expr) do { try { s[path] = S(expr); } catch (const std::exception& ex) { s[path] = std::string("!") + ex.what(); } } while (0)

}  // namespace

std::string term(const Terminal& t) {
    const auto& c = t.getConnectable();
    if (!c) return "(dangling)";
    unsigned i = 0;
    for (const auto& x : const_cast<Connectable&>(c.get()).getTerminals()) {
        ++i;
        if (std::addressof(x.get()) == std::addressof(t)) return c.get().getId() + "/" + std::to_string(i);
    }
    return c.get().getId() + "/?";
}

std::string term(const stdcxx::CReference<Terminal>& t) { return t ? term(t.get()) : std::string("-"); }

std::string busId(const stdcxx::CReference<Bus>& b) { return b ? b.get().getId() : std::string("-"); }

std::string extensionText(const Extension& e) {
    std::ostringstream o;
    o.precision(17);
    Snapshot s;
    if (const auto* x = dynamic_cast<const ext::LoadDetail*>(&e)) {
        PUT("fp", x->getFixedActivePower()); PUT("fq", x->getFixedReactivePower()); PUT("vp", x->getVariableActivePower()); PUT("vq", x->getVariableReactivePower());
    } else if (const auto* x = dynamic_cast<const ext::SlackTerminal*>(&e)) {
        PUT("t", term(x->getTerminal())); PUT("empty", x->isEmpty());
    } else if (const auto* x = dynamic_cast<const ext::entsoe::EntsoeArea*>(&e)) {
        PUT("code", x->getCode());
    } else if (const auto* x = dynamic_cast<const ext::entsoe::MergedXnode*>(&e)) {
        PUT("code", x->getCode()); PUT("l1", x->getLine1Name()); PUT("l2", x->getLine2Name()); PUT("rdp", x->getRdp()); PUT("xdp", x->getXdp());
        PUT("p1", x->getXnodeP1()); PUT("q1", x->getXnodeQ1()); PUT("p2", x->getXnodeP2()); PUT("q2", x->getXnodeQ2());
    } else if (const auto* x = dynamic_cast<const ext::entsoe::Xnode*>(&e)) {
        PUT("code", x->getCode());
    } else if (const auto* x = dynamic_cast<const ext::iidm::ActivePowerControl*>(&e)) {
        PUT("droop", x->getDroop()); PUT("participate", x->isParticipate());
    } else if (const auto* x = dynamic_cast<const ext::iidm::CoordinatedReactiveControl*>(&e)) {
        PUT("q", x->getQPercent());
    } else if (const auto* x = dynamic_cast<const ext::iidm::HvdcAngleDroopActivePowerControl*>(&e)) {
        PUT("droop", x->getDroop()); PUT("p0", x->getP0()); PUT("enabled", x->isEnabled());
    } else if (const auto* x = dynamic_cast<const ext::iidm::HvdcOperatorActivePowerRange*>(&e)) {
        PUT("12", x->getOprFromCS1toCS2()); PUT("21", x->getOprFromCS2toCS1());
    } else if (const auto* x = dynamic_cast<const ext::iidm::RemoteReactivePowerControl*>(&e)) {
        PUT("t", term(x->getRegulatingTerminal())); PUT("q", x->getTargetQ()); PUT("enabled", x->isEnabled());
    } else if (const auto* x = dynamic_cast<const ext::iidm::ThreeWindingsTransformerPhaseAngleClock*>(&e)) {
        PUT("2", x->getPhaseAngleClockLeg2()); PUT("3", x->getPhaseAngleClockLeg3());
    } else if (const auto* x = dynamic_cast<const ext::iidm::TwoWindingsTransformerPhaseAngleClock*>(&e)) {
        PUT("c", x->getPhaseAngleClock());
    } else if (const auto* x = dynamic_cast<const ext::iidm::VoltagePerReactivePowerControl*>(&e)) {
        PUT("slope", x->getSlope());
    } else if (const auto* x = dynamic_cast<const ext::sld::BranchStatus*>(&e)) {
        PUT("status", x->getStatus());
    } else if (const auto* x = dynamic_cast<const ext::sld::BusbarSectionPosition*>(&e)) {
        PUT("b", x->getBusbarIndex()); PUT("s", x->getSectionIndex());
    } else if (const auto* x = dynamic_cast<const ext::sld::ConnectablePosition*>(&e)) {
        auto f = [&](const char* n, const stdcxx::CReference<ext::sld::ConnectablePosition::Feeder>& fd) {
            s[n] = fd ? fd.get().getName() + "," + S(fd.get().getOrder()) + "," + S(fd.get().getDirection()) : "-";
        };
        f("f", x->getFeeder()); f("f1", x->getFeeder1()); f("f2", x->getFeeder2()); f("f3", x->getFeeder3());
    } else if (const auto* x = dynamic_cast<const ext::iidm::Measurements*>(&e)) {
        unsigned n = 0;
        for (const auto& m : x->getMeasurements()) {
            std::string p = "m" + std::to_string(n++) + ".";
            PUT(p + "id", m.getId()); PUT(p + "type", m.getType()); PUT(p + "v", m.getValue()); PUT(p + "sd", m.getStandardDeviation()); PUT(p + "valid", m.isValid()); PUT(p + "side", m.getSide());
            for (const auto& k : m.getPropertyNames()) PUT(p + "prop." + k, m.getProperty(k));
        }
    } else if (const auto* x = dynamic_cast<const ext::iidm::DiscreteMeasurements*>(&e)) {
        unsigned n = 0;
        for (const auto& m : x->getDiscreteMeasurements()) {
            std::string p = "m" + std::to_string(n++) + ".";
            PUT(p + "id", m.getId()); PUT(p + "type", m.getType()); PUT(p + "tc", m.getTapChanger()); PUT(p + "valid", m.isValid());
            PUT(p + "vt", m.getValueType());
            if (s[p + "vt"][0] != '!') {
                switch (m.getValueType()) {
                    case ext::iidm::DiscreteMeasurement::ValueType::BOOLEAN: PUT(p + "v", m.getValueAsBoolean()); break;
                    case ext::iidm::DiscreteMeasurement::ValueType::INT: PUT(p + "v", m.getValueAsInt()); break;
                    default: PUT(p + "v", m.getValueAsString()); break;
                }
            }
            for (const auto& k : m.getPropertyNames()) PUT(p + "prop." + k, m.getProperty(k));
        }
    } else {
        o << "?";
    }
    for (const auto& kv : s) o << kv.first << "=" << kv.second << ";";
    return o.str();
}

void dumpExtensions(const Extendable& e, const std::string& prefix, Snapshot& s) {
    for (const auto& x : e.getExtensions()) {
        s[prefix + "/ext/" + x.getName()] = extensionText(x);
        const auto& owner = x.getExtendable<Extendable>();
        s[prefix + "/extowner/" + x.getName()] = owner ? (std::addressof(owner.get()) == std::addressof(e) ? "ok" : "WRONG OWNER") : "NO OWNER";
    }
}

namespace {

class Dumper {
public:
    Dumper(const Network& n, const DumpOptions& o) : m_n(n), m_o(o) {}

    Snapshot s;

    void identifiable(const Identifiable& i, const std::string& p) {
        PUT(p + "/id", i.getId());
        PUT(p + "/name", i.getOptionalName());
        PUT(p + "/nameOrId", i.getNameOrId());
        PUT(p + "/fictitious", i.isFictitious());
        PUT(p + "/hasProperty", i.hasProperty());
        for (const auto& k : i.getPropertyNames()) PUT(p + "/prop/" + k, i.getProperty(k));
        PUT(p + "/hasAliases", i.hasAliases());
        for (const auto& a : i.getAliases()) {
            std::string path = p + "/alias/" + a;
            if (s.count(path)) s[path + "/DUPLICATE"] = "1";
            PUT(path, i.getAliasType(a));
            std::string t = s[path];
            if (!t.empty() && t[0] != '!') PUT(p + "/aliasFromType/" + t, i.getAliasFromType(t));
        }
        s[p + "/network"] = std::addressof(i.getNetwork()) == std::addressof(m_n) ? "ok" : "WRONG NETWORK";
        if (m_o.extensions) dumpExtensions(i, p, s);
    }

    void terminal(const Terminal& t, const std::string& p) {
        PUT(p + "/vl", t.getVoltageLevel().getId());
        if (m_o.stateVariables) {
            PUT(p + "/p", t.getP());
            PUT(p + "/q", t.getQ());
        }
        bool nb = t.getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER;
        if (nb) {
            PUT(p + "/node", t.getNodeBreakerView().getNode());
        } else {
            PUT(p + "/connectableBus", busId(t.getBusBreakerView().getConnectableBus()));
        }
        if (m_o.topology || !nb) PUT(p + "/connected", t.isConnected());
        if (m_o.topology) {
            PUT(p + "/bbv.bus", busId(t.getBusBreakerView().getBus()));
            PUT(p + "/bbv.connectableBus", busId(t.getBusBreakerView().getConnectableBus()));
            PUT(p + "/bv.bus", busId(t.getBusView().getBus()));
            PUT(p + "/bv.connectableBus", busId(t.getBusView().getConnectableBus()));
            if (m_o.stateVariables) {
                PUT(p + "/i", t.getI());
                PUT(p + "/v", t.getV());
                PUT(p + "/angle", t.getAngle());
            }
        }
    }

    void connectable(const Connectable& c, const std::string& p) {
        identifiable(c, p);
        PUT(p + "/type", c.getType());
        unsigned i = 0;
        for (const auto& t : const_cast<Connectable&>(c).getTerminals()) {
            terminal(t.get(), p + "/t" + std::to_string(++i));
            s[p + "/t" + std::to_string(i) + "/owner"] = t.get().getConnectable() && std::addressof(t.get().getConnectable().get()) == std::addressof(c) ? "ok" : "WRONG OWNER";
        }
    }

    void limits(const stdcxx::CReference<LoadingLimits>& l, const std::string& p) {
        if (!l) { s[p] = "-"; return; }
        const LoadingLimits& x = l.get();
        PUT(p + "/permanent", x.getPermanentLimit());
        PUT(p + "/type", x.getLimitType());
        for (const auto& t : x.getTemporaryLimits()) {
            std::string q = p + "/temp/" + std::to_string(t.getAcceptableDuration());
            if (s.count(q)) s[q + "/DUPLICATE"] = "1";
            s[q] = t.getName() + "|" + S(t.getValue()) + "|" + S(t.isFictitious());
        }
    }

    template <typename H>
    void flowLimits(const H& h, const std::string& p) {
        limits(stdcxx::cref<LoadingLimits>(h.getCurrentLimits()), p + "/currentLimits");
        limits(stdcxx::cref<LoadingLimits>(h.getActivePowerLimits()), p + "/activePowerLimits");
        limits(stdcxx::cref<LoadingLimits>(h.getApparentPowerLimits()), p + "/apparentPowerLimits");
    }

    void branch(const Branch& b, const std::string& p) {
        connectable(b, p);
        limits(stdcxx::cref<LoadingLimits>(b.getCurrentLimits1()), p + "/currentLimits1");
        limits(stdcxx::cref<LoadingLimits>(b.getCurrentLimits2()), p + "/currentLimits2");
        limits(stdcxx::cref<LoadingLimits>(b.getActivePowerLimits1()), p + "/activePowerLimits1");
        limits(stdcxx::cref<LoadingLimits>(b.getActivePowerLimits2()), p + "/activePowerLimits2");
        limits(stdcxx::cref<LoadingLimits>(b.getApparentPowerLimits1()), p + "/apparentPowerLimits1");
        limits(stdcxx::cref<LoadingLimits>(b.getApparentPowerLimits2()), p + "/apparentPowerLimits2");
    }

    void reactiveLimits(const ReactiveLimitsHolder& h, const std::string& p) {
        try {
            const auto& r = h.getReactiveLimits<ReactiveLimits>();
            PUT(p + "/rl/kind", r.getKind());
            if (r.getKind() == ReactiveLimitsKind::MIN_MAX) {
                const auto& m = h.getReactiveLimits<MinMaxReactiveLimits>();
                PUT(p + "/rl/minQ", m.getMinQ());
                PUT(p + "/rl/maxQ", m.getMaxQ());
            } else {
                const auto& c = h.getReactiveLimits<ReactiveCapabilityCurve>();
                PUT(p + "/rl/count", c.getPointCount());
                for (const auto& pt : c.getPoints()) s[p + "/rl/pt/" + S(pt.getP())] = S(pt.getMinQ()) + "," + S(pt.getMaxQ());
            }
        } catch (const std::exception& e) {
            s[p + "/rl"] = std::string("!") + e.what();
        }
    }

    template <typename T>
    void tapChanger(const T& t, const std::string& p) {
        PUT(p + "/low", t.getLowTapPosition());
        PUT(p + "/high", t.getHighTapPosition());
        PUT(p + "/pos", t.getTapPosition());
        PUT(p + "/count", t.getStepCount());
        PUT(p + "/regulating", t.isRegulating());
        PUT(p + "/deadband", t.getTargetDeadband());
        PUT(p + "/terminal", term(t.getRegulationTerminal()));
        for (const auto& kv : t.getAllSteps()) {
            const auto& st = kv.second.get();
            s[p + "/step/" + std::to_string(kv.first)] = S(st.getRho()) + "," + S(st.getR()) + "," + S(st.getX()) + "," + S(st.getG()) + "," + S(st.getB()) + alpha(st);
        }
        PUT(p + "/currentRho", t.getCurrentStep().getRho());
    }

    static std::string alpha(const PhaseTapChangerStep& st) { return "," + S(st.getAlpha()); }
    static std::string alpha(const RatioTapChangerStep& /*st*/) { return ""; }

    void ratio(const RatioTapChangerHolder& h, const std::string& p) {
        PUT(p + "/hasRtc", h.hasRatioTapChanger());
        const auto& o = h.getOptionalRatioTapChanger();
        if (!o) return;
        const RatioTapChanger& r = o.get();
        tapChanger(r, p + "/rtc");
        PUT(p + "/rtc/targetV", r.getTargetV());
        PUT(p + "/rtc/onload", r.hasLoadTapChangingCapabilities());
    }

    void phase(const PhaseTapChangerHolder& h, const std::string& p) {
        PUT(p + "/hasPtc", h.hasPhaseTapChanger());
        const auto& o = h.getOptionalPhaseTapChanger();
        if (!o) return;
        const PhaseTapChanger& r = o.get();
        tapChanger(r, p + "/ptc");
        PUT(p + "/ptc/mode", r.getRegulationMode());
        PUT(p + "/ptc/value", r.getRegulationValue());
    }

    void boundary(const Boundary& b, const std::string& p) {
        PUT(p + "/connectable", b.getConnectable().getId());
        PUT(p + "/vl", b.getVoltageLevel().getId());
        PUT(p + "/side", b.getSide());
    }

    void container(const Container& c, const std::string& p) {
        identifiable(c, p);
        PUT(p + "/containerType", c.getContainerType());
    }

    void bus(const Bus& b, const std::string& p) {
        identifiable(b, p);
        PUT(p + "/vl", b.getVoltageLevel().getId());
        if (m_o.stateVariables) {
            PUT(p + "/v", b.getV());
            PUT(p + "/angle", b.getAngle());
        }
        if (m_o.topology) {
            std::vector<std::string> v;
            for (const auto& t : b.getConnectedTerminals()) v.push_back(term(t));
            std::sort(v.begin(), v.end());
            std::string r;
            for (const auto& x : v) r += x + " ";
            s[p + "/terminals"] = r;
            PUT(p + "/terminalCount", b.getConnectedTerminalCount());
            if (m_o.stateVariables) {
                PUT(p + "/p", b.getP());
                PUT(p + "/q", b.getQ());
            }
            if (m_o.views) {
                PUT(p + "/batteries", ids(b.getBatteries()));
                PUT(p + "/danglingLines", ids(b.getDanglingLines()));
                PUT(p + "/generators", ids(b.getGenerators()));
                PUT(p + "/lcc", ids(b.getLccConverterStations()));
                PUT(p + "/lines", ids(b.getLines()));
                PUT(p + "/loads", ids(b.getLoads()));
                PUT(p + "/shunts", ids(b.getShuntCompensators()));
                PUT(p + "/svc", ids(b.getStaticVarCompensators()));
                PUT(p + "/3wt", ids(b.getThreeWindingsTransformers()));
                PUT(p + "/2wt", ids(b.getTwoWindingsTransformers()));
                PUT(p + "/vsc", ids(b.getVscConverterStations()));
            }
            if (m_o.components) {
                auto comp = [&](const stdcxx::CReference<Component>& c) { return c ? S(c.get().getNum()) + "(" + S(c.get().getSize()) + ")" : std::string("-"); };
                try { s[p + "/cc"] = comp(b.getConnectedComponent()); } catch (const std::exception& e) { s[p + "/cc"] = std::string("!") + e.what(); }
                try { s[p + "/sc"] = comp(b.getSynchronousComponent()); } catch (const std::exception& e) { s[p + "/sc"] = std::string("!") + e.what(); }
                PUT(p + "/mainCC", b.isInMainConnectedComponent());
                PUT(p + "/mainSC", b.isInMainSynchronousComponent());
            }
        }
    }

    void sw(const Switch& w, const std::string& p) {
        identifiable(w, p);
        PUT(p + "/kind", w.getKind());
        PUT(p + "/open", w.isOpen());
        PUT(p + "/retained", w.isRetained());
        PUT(p + "/vl", w.getVoltageLevel().getId());
    }

    void voltageLevel(const VoltageLevel& v, const std::string& p) {
        container(v, p);
        PUT(p + "/nominalV", v.getNominalV());
        PUT(p + "/low", v.getLowVoltageLimit());
        PUT(p + "/high", v.getHighVoltageLimit());
        PUT(p + "/kind", v.getTopologyKind());
        PUT(p + "/substation", v.getSubstation().getId());
        PUT(p + "/switchCount", v.getSwitchCount());
        PUT(p + "/switches", ids(v.getSwitches()));
        if (m_o.views) {
            PUT(p + "/batteries", ids(v.getBatteries()));
            PUT(p + "/batteryCount", v.getBatteryCount());
            PUT(p + "/danglingLines", ids(v.getDanglingLines()));
            PUT(p + "/danglingLineCount", v.getDanglingLineCount());
            PUT(p + "/generators", ids(v.getGenerators()));
            PUT(p + "/generatorCount", v.getGeneratorCount());
            PUT(p + "/lcc", ids(v.getLccConverterStations()));
            PUT(p + "/lccCount", v.getLccConverterStationCount());
            PUT(p + "/loads", ids(v.getLoads()));
            PUT(p + "/loadCount", v.getLoadCount());
            PUT(p + "/shunts", ids(v.getShuntCompensators()));
            PUT(p + "/shuntCount", v.getShuntCompensatorCount());
            PUT(p + "/svc", ids(v.getStaticVarCompensators()));
            PUT(p + "/svcCount", v.getStaticVarCompensatorCount());
            PUT(p + "/vsc", ids(v.getVscConverterStations()));
            PUT(p + "/vscCount", v.getVscConverterStationCount());
            PUT(p + "/connectables", ids(v.getConnectables()));
            PUT(p + "/connectableCount", v.getConnectableCount());
            PUT(p + "/lines", ids(v.getConnectables<Line>()));
            PUT(p + "/2wt", ids(v.getConnectables<TwoWindingsTransformer>()));
            PUT(p + "/3wt", ids(v.getConnectables<ThreeWindingsTransformer>()));
        }
        if (v.getTopologyKind() == TopologyKind::NODE_BREAKER) {
            const auto& nb = v.getNodeBreakerView();
            std::string nodes;
            for (unsigned long n : nb.getNodes()) {
                nodes += std::to_string(n) + " ";
                try { s[p + "/node/" + std::to_string(n)] = term(nb.getOptionalTerminal(n)); } catch (const std::exception& e) { s[p + "/node/" + std::to_string(n)] = std::string("!") + e.what(); }
            }
            s[p + "/nodes"] = nodes;
            PUT(p + "/maxNode", nb.getMaximumNodeIndex());
            std::vector<std::string> ics;
            for (const auto& ic : nb.getInternalConnections()) {
                unsigned long a = ic.getNode1();
                unsigned long b = ic.getNode2();
                ics.push_back(std::to_string(a) + "-" + std::to_string(b));
            }
            std::sort(ics.begin(), ics.end());
            std::string r;
            for (const auto& x : ics) r += x + " ";
            s[p + "/internalConnections"] = r;
            PUT(p + "/internalConnectionCount", nb.getInternalConnectionCount());
            PUT(p + "/bbs", ids(nb.getBusbarSections()));
            PUT(p + "/bbsCount", nb.getBusbarSectionCount());
            for (const auto& w : nb.getSwitches()) {
                s[p + "/sw/" + w.getId()] = S(nb.getNode1(w.getId())) + "-" + S(nb.getNode2(w.getId()));
            }
        } else {
            const auto& bb = v.getBusBreakerView();
            PUT(p + "/configuredBuses", ids(bb.getBuses()));
            for (const auto& b : bb.getBuses()) bus(b, p + "/cbus/" + b.getId());
            for (const auto& w : bb.getSwitches()) {
                s[p + "/sw/" + w.getId()] = busId(bb.getBus1(w.getId())) + "-" + busId(bb.getBus2(w.getId()));
            }
        }
        if (m_o.topology) {
            if (v.getTopologyKind() == TopologyKind::NODE_BREAKER) {
                const auto& bb = v.getBusBreakerView();
                for (const auto& b : bb.getBuses()) bus(b, p + "/bbv/" + b.getId());
                PUT(p + "/bbv.switches", ids(bb.getSwitches()));
                PUT(p + "/bbv.switchCount", bb.getSwitchCount());
                for (const auto& w : bb.getSwitches()) {
                    s[p + "/bbv.sw/" + w.getId()] = busId(bb.getBus1(w.getId())) + "-" + busId(bb.getBus2(w.getId()));
                }
            }
            for (const auto& b : v.getBusView().getBuses()) bus(b, p + "/bv/" + b.getId());
        }
    }

    void network() {
        std::string p = "network";
        container(m_n, p);
        {
            std::ostringstream o;
            o << m_n.getCaseDate().toString();
            s[p + "/caseDate"] = o.str();
        }
        PUT(p + "/forecastDistance", m_n.getForecastDistance());
        PUT(p + "/sourceFormat", m_n.getSourceFormat());
        for (const auto& x : m_n.getSubstations()) {
            std::string q = "substation/" + x.getId();
            container(x, q);
            PUT(q + "/country", x.getCountry());
            PUT(q + "/tso", x.getTso());
            std::string tags;
            for (const auto& t : x.getGeographicalTags()) tags += t + "|";
            s[q + "/tags"] = tags;
            if (m_o.views) {
                PUT(q + "/vls", ids(x.getVoltageLevels()));
                PUT(q + "/2wt", ids(x.getTwoWindingsTransformers()));
                PUT(q + "/2wtCount", x.getTwoWindingsTransformerCount());
                PUT(q + "/3wt", ids(x.getThreeWindingsTransformers()));
                PUT(q + "/3wtCount", x.getThreeWindingsTransformerCount());
            }
        }
        for (const auto& x : m_n.getVoltageLevels()) voltageLevel(x, "vl/" + x.getId());
        for (const auto& x : m_n.getSwitches()) sw(x, "switch/" + x.getId());
        for (const auto& x : m_n.getBusbarSections()) {
            std::string q = "bbs/" + x.getId();
            connectable(x, q);
            if (m_o.topology && m_o.stateVariables) { PUT(q + "/V", x.getV()); PUT(q + "/A", x.getAngle()); }
        }
        for (const auto& x : m_n.getBatteries()) {
            std::string q = "battery/" + x.getId();
            connectable(x, q);
            PUT(q + "/p0", x.getP0()); PUT(q + "/q0", x.getQ0()); PUT(q + "/minP", x.getMinP()); PUT(q + "/maxP", x.getMaxP());
            reactiveLimits(x, q);
        }
        for (const auto& x : m_n.getGenerators()) {
            std::string q = "generator/" + x.getId();
            connectable(x, q);
            PUT(q + "/targetP", x.getTargetP()); PUT(q + "/targetQ", x.getTargetQ()); PUT(q + "/targetV", x.getTargetV());
            PUT(q + "/minP", x.getMinP()); PUT(q + "/maxP", x.getMaxP()); PUT(q + "/ratedS", x.getRatedS());
            PUT(q + "/energySource", x.getEnergySource()); PUT(q + "/regulating", x.isVoltageRegulatorOn());
            PUT(q + "/regTerminal", term(x.getRegulatingTerminal()));
            reactiveLimits(x, q);
        }
        for (const auto& x : m_n.getLoads()) {
            std::string q = "load/" + x.getId();
            connectable(x, q);
            PUT(q + "/p0", x.getP0()); PUT(q + "/q0", x.getQ0()); PUT(q + "/loadType", x.getLoadType());
        }
        for (const auto& x : m_n.getShuntCompensators()) {
            std::string q = "shunt/" + x.getId();
            connectable(x, q);
            PUT(q + "/sections", x.getSectionCount()); PUT(q + "/maxSections", x.getMaximumSectionCount()); PUT(q + "/modelType", x.getModelType());
            PUT(q + "/b", x.getB()); PUT(q + "/g", x.getG());
            PUT(q + "/targetV", x.getTargetV()); PUT(q + "/deadband", x.getTargetDeadband()); PUT(q + "/regulating", x.isVoltageRegulatorOn());
            PUT(q + "/regTerminal", term(x.getRegulatingTerminal()));
            if (x.getModelType() == ShuntCompensatorModelType::LINEAR) {
                const auto& m = x.getModel<ShuntCompensatorLinearModel>();
                PUT(q + "/model/b", m.getBPerSection()); PUT(q + "/model/g", m.getGPerSection());
            } else {
                unsigned i = 0;
                for (const auto& sec : x.getModel<ShuntCompensatorNonLinearModel>().getAllSections()) {
                    s[q + "/model/" + std::to_string(i++)] = S(sec.getB()) + "," + S(sec.getG());
                }
            }
        }
        for (const auto& x : m_n.getStaticVarCompensators()) {
            std::string q = "svc/" + x.getId();
            connectable(x, q);
            PUT(q + "/bmin", x.getBmin()); PUT(q + "/bmax", x.getBmax()); PUT(q + "/v", x.getVoltageSetpoint()); PUT(q + "/q", x.getReactivePowerSetpoint());
            PUT(q + "/mode", x.getRegulationMode()); PUT(q + "/regTerminal", term(x.getRegulatingTerminal()));
        }
        for (const auto& x : m_n.getDanglingLines()) {
            std::string q = "dl/" + x.getId();
            connectable(x, q);
            PUT(q + "/p0", x.getP0()); PUT(q + "/q0", x.getQ0()); PUT(q + "/r", x.getR()); PUT(q + "/x", x.getX()); PUT(q + "/g", x.getG()); PUT(q + "/b", x.getB());
            PUT(q + "/xnode", x.getUcteXnodeCode());
            flowLimits(x, q);
            boundary(x.getBoundary(), q + "/boundary");
            const auto& gen = x.getGeneration();
            s[q + "/hasGeneration"] = gen ? "1" : "0";
            if (gen) {
                const auto& gg = gen.get();
                PUT(q + "/gen/minP", gg.getMinP()); PUT(q + "/gen/maxP", gg.getMaxP()); PUT(q + "/gen/p", gg.getTargetP()); PUT(q + "/gen/q", gg.getTargetQ()); PUT(q + "/gen/v", gg.getTargetV());
                PUT(q + "/gen/reg", gg.isVoltageRegulationOn());
                reactiveLimits(gg, q + "/gen");
            }
        }
        for (const auto& x : m_n.getLccConverterStations()) {
            std::string q = "lcc/" + x.getId();
            connectable(x, q);
            PUT(q + "/type", x.getHvdcType()); PUT(q + "/loss", x.getLossFactor()); PUT(q + "/pf", x.getPowerFactor());
            PUT(q + "/hvdc", x.getHvdcLine() ? x.getHvdcLine().get().getId() : std::string("-"));
        }
        for (const auto& x : m_n.getVscConverterStations()) {
            std::string q = "vsc/" + x.getId();
            connectable(x, q);
            PUT(q + "/type", x.getHvdcType()); PUT(q + "/loss", x.getLossFactor()); PUT(q + "/reg", x.isVoltageRegulatorOn()); PUT(q + "/q", x.getReactivePowerSetpoint()); PUT(q + "/v", x.getVoltageSetpoint());
            PUT(q + "/hvdc", x.getHvdcLine() ? x.getHvdcLine().get().getId() : std::string("-"));
            reactiveLimits(x, q);
        }
        for (const auto& x : m_n.getHvdcLines()) {
            std::string q = "hvdc/" + x.getId();
            identifiable(x, q);
            PUT(q + "/r", x.getR()); PUT(q + "/v", x.getNominalV()); PUT(q + "/p", x.getActivePowerSetpoint()); PUT(q + "/maxP", x.getMaxP()); PUT(q + "/mode", x.getConvertersMode());
            PUT(q + "/cs1", x.getConverterStation1() ? x.getConverterStation1().get().getId() : std::string("-"));
            PUT(q + "/cs2", x.getConverterStation2() ? x.getConverterStation2().get().getId() : std::string("-"));
        }
        for (const auto& x : m_n.getLines()) {
            std::string q = "line/" + x.getId();
            branch(x, q);
            PUT(q + "/r", x.getR()); PUT(q + "/x", x.getX()); PUT(q + "/g1", x.getG1()); PUT(q + "/b1", x.getB1()); PUT(q + "/g2", x.getG2()); PUT(q + "/b2", x.getB2());
            PUT(q + "/tie", x.isTieLine());
            if (x.isTieLine()) {
                const auto& t = dynamic_cast<const TieLine&>(x);
                PUT(q + "/xnode", t.getUcteXnodeCode());
                for (int i = 1; i <= 2; ++i) {
                    const auto& h = i == 1 ? t.getHalf1() : t.getHalf2();
                    std::string hp = q + "/half" + std::to_string(i);
                    PUT(hp + "/id", h.getId()); PUT(hp + "/name", h.getName()); PUT(hp + "/fict", h.isFictitious());
                    PUT(hp + "/r", h.getR()); PUT(hp + "/x", h.getX()); PUT(hp + "/g1", h.getG1()); PUT(hp + "/b1", h.getB1()); PUT(hp + "/g2", h.getG2()); PUT(hp + "/b2", h.getB2());
                    boundary(h.getBoundary(), hp + "/boundary");
                }
            }
        }
        for (const auto& x : m_n.getTwoWindingsTransformers()) {
            std::string q = "2wt/" + x.getId();
            branch(x, q);
            PUT(q + "/r", x.getR()); PUT(q + "/x", x.getX()); PUT(q + "/g", x.getG()); PUT(q + "/b", x.getB()); PUT(q + "/u1", x.getRatedU1()); PUT(q + "/u2", x.getRatedU2()); PUT(q + "/s", x.getRatedS());
            PUT(q + "/substation", x.getSubstation() ? x.getSubstation().get().getId() : std::string("-"));
            ratio(x, q);
            phase(x, q);
        }
        for (const auto& x : m_n.getThreeWindingsTransformers()) {
            std::string q = "3wt/" + x.getId();
            connectable(x, q);
            PUT(q + "/u0", x.getRatedU0());
            PUT(q + "/substation", x.getSubstation().getId());
            unsigned i = 0;
            for (const auto& l : x.getLegs()) {
                std::string lp = q + "/leg" + std::to_string(++i);
                PUT(lp + "/r", l.getR()); PUT(lp + "/x", l.getX()); PUT(lp + "/g", l.getG()); PUT(lp + "/b", l.getB()); PUT(lp + "/u", l.getRatedU()); PUT(lp + "/s", l.getRatedS());
                PUT(lp + "/t", term(l.getTerminal()));
                ratio(l, lp);
                phase(l, lp);
                flowLimits(l, lp);
            }
        }
        if (m_o.views) {
            PUT(p + "/countries", m_n.getCountryCount());
            PUT(p + "/n.battery", m_n.getBatteryCount());
            PUT(p + "/n.branch", m_n.getBranchCount());
            PUT(p + "/branches", ids(m_n.getBranches()));
            PUT(p + "/n.bbs", m_n.getBusbarSectionCount());
            PUT(p + "/n.connectable", m_n.getConnectableCount());
            PUT(p + "/connectables", ids(m_n.getConnectables()));
            PUT(p + "/n.dl", m_n.getDanglingLineCount());
            PUT(p + "/n.generator", m_n.getGeneratorCount());
            PUT(p + "/n.hcs", m_n.getHvdcConverterStationCount());
            PUT(p + "/hcs", ids(m_n.getHvdcConverterStations()));
            PUT(p + "/n.hvdc", m_n.getHvdcLineCount());
            PUT(p + "/n.lcc", m_n.getLccConverterStationCount());
            PUT(p + "/n.line", m_n.getLineCount());
            PUT(p + "/n.load", m_n.getLoadCount());
            PUT(p + "/n.shunt", m_n.getShuntCompensatorCount());
            PUT(p + "/n.svc", m_n.getStaticVarCompensatorCount());
            PUT(p + "/n.substation", m_n.getSubstationCount());
            PUT(p + "/n.switch", m_n.getSwitchCount());
            PUT(p + "/n.3wt", m_n.getThreeWindingsTransformerCount());
            PUT(p + "/n.2wt", m_n.getTwoWindingsTransformerCount());
            PUT(p + "/n.vl", m_n.getVoltageLevelCount());
            PUT(p + "/n.vsc", m_n.getVscConverterStationCount());
            PUT(p + "/identifiables", ids(m_n.getIdentifiables()));
        }
        if (m_o.topology && m_o.components) {
            try {
                for (const auto& c : m_n.getBusView().getConnectedComponents()) {
                    s[p + "/cc/" + S(c.getNum())] = S(c.getSize()) + ": " + ids(c.getBuses());
                }
            } catch (const std::exception& e) { s[p + "/cc"] = std::string("!") + e.what(); }
            try {
                for (const auto& c : m_n.getBusView().getSynchronousComponents()) {
                    s[p + "/sc/" + S(c.getNum())] = S(c.getSize()) + ": " + ids(c.getBuses());
                }
            } catch (const std::exception& e) { s[p + "/sc"] = std::string("!") + e.what(); }
        }
    }

private:
    const Network& m_n;
    const DumpOptions& m_o;
};

}  // namespace

Snapshot dump(const Network& network, const DumpOptions& options) {
    Dumper d(network, options);
    d.network();
    return std::move(d.s);
}

std::string diff(const Snapshot& a, const Snapshot& b, unsigned max) {
    std::string r;
    unsigned n = 0;
    auto add = [&](const std::string& x) { if (++n <= max) r += x + "\n"; };
    auto i = a.begin();
    auto j = b.begin();
    while (i != a.end() || j != b.end()) {
        if (j == b.end() || (i != a.end() && i->first < j->first)) { add("missing: " + i->first + " (expected " + i->second + ")"); ++i; }
        else if (i == a.end() || j->first < i->first) { add("unexpected: " + j->first + " = " + j->second); ++j; }
        else {
            if (i->second != j->second) add(i->first + ": expected " + i->second + ", got " + j->second);
            ++i; ++j;
        }
    }
    if (n > max) r += "... " + std::to_string(n) + " differences\n";
    return r;
}

Snapshot without(const Snapshot& s, const std::vector<std::string>& subs) {
    Snapshot r;
    for (const auto& kv : s) {
        bool keep = true;
        for (const auto& x : subs) if (kv.first.find(x) != std::string::npos) { keep = false; break; }
        if (keep) r.insert(kv);
    }
    return r;
}

std::string flat(const Snapshot& s) {
    std::string r;
    for (const auto& kv : s) r += kv.first + "=" + kv.second + "\n";
    return r;
}

void loadExtensions() {
    static bool done = false;
    if (done) return;
    done = true;
    ExtensionProviders<converter::xml::ExtensionXmlSerializer>::getInstance().loadExtensions(mc::libDir(), std::regex(".*libext-(iidm|entsoe|sld)\\.so"));
}

std::string writeXml(const Network& n, const converter::ExportOptions& options) {
    std::ostringstream o;
    Network::writeXml("mem.xml", o, n, options);
    return o.str();
}

Network readXml(const std::string& xml, const converter::ImportOptions& options) {
    std::istringstream i(xml);
    return Network::readXml("mem.xml", i, options);
}

}  // namespace net
