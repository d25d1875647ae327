// C23: extensions. Every provided extension on every kind of owner; histories of additions, replacements, removals,
// modifications and variant operations in lock step with a model; extensions of the user's own; measurements.
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <typeindex>

#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/LoadDetailAdder.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeArea.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeAreaAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeGeographicalCode.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnode.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnodeAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/Xnode.hpp>
#include <powsybl/iidm/extensions/entsoe/XnodeAdder.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControl.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurements.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurementsAdder.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcAngleDroopActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcAngleDroopActivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcOperatorActivePowerRange.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcOperatorActivePowerRangeAdder.hpp>
#include <powsybl/iidm/extensions/iidm/MeasurementAdder.hpp>
#include <powsybl/iidm/extensions/iidm/Measurements.hpp>
#include <powsybl/iidm/extensions/iidm/MeasurementsAdder.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/ThreeWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/ThreeWindingsTransformerPhaseAngleClockAdder.hpp>
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClockAdder.hpp>
#include <powsybl/iidm/extensions/iidm/VoltagePerReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/VoltagePerReactivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatus.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatusAdder.hpp>
#include <powsybl/iidm/extensions/sld/BusbarSectionPosition.hpp>
#include <powsybl/iidm/extensions/sld/BusbarSectionPositionAdder.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePosition.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePositionAdder.hpp>

#include "net.hpp"

using namespace powsybl::iidm;  // NOLINT
namespace ext = powsybl::iidm::extensions;
namespace xi = powsybl::iidm::extensions::iidm;
namespace xe = powsybl::iidm::extensions::entsoe;
namespace xs = powsybl::iidm::extensions::sld;

namespace {

const double NaN = std::numeric_limits<double>::quiet_NaN();
const std::string INITIAL = VariantManager::getInitialVariantId();

Terminal& terminalOf(Network& n, const std::string& id) {
    return *dynamic_cast<Connectable&>(n.getIdentifiable(id)).getTerminals().begin();
}

// two owners of every kind: the name of the kind followed by 1 or 2
Network build(const std::string& id = "c23") {
    Network n(id, "verif");
    for (const std::string k : {"1", "2"}) {
        Substation& s = n.newSubstation().setId("substation" + k).add();
        VoltageLevel& b = s.newVoltageLevel().setId("level" + k).setNominalV(400).setTopologyKind(TopologyKind::BUS_BREAKER).add();
        b.getBusBreakerView().newBus().setId("bus" + k).add();
        const std::string bus = "bus" + k;
        b.newLoad().setId("load" + k).setBus(bus).setConnectableBus(bus).setP0(1).setQ0(1).add();
        b.newGenerator().setId("generator" + k).setBus(bus).setConnectableBus(bus).setMinP(0).setMaxP(10).setTargetP(1).setTargetQ(1).setVoltageRegulatorOn(false).add();
        b.newBattery().setId("battery" + k).setBus(bus).setConnectableBus(bus).setMinP(0).setMaxP(10).setP0(1).setQ0(1).add();
        b.newDanglingLine().setId("dangling" + k).setBus(bus).setConnectableBus(bus).setP0(1).setQ0(1).setR(1).setX(1).setG(0).setB(0).add();
        b.newStaticVarCompensator().setId("svc" + k).setBus(bus).setConnectableBus(bus).setBmin(0).setBmax(1).setRegulationMode(StaticVarCompensator::RegulationMode::OFF).add();
        b.newShuntCompensator().setId("shunt" + k).setBus(bus).setConnectableBus(bus).setSectionCount(0).newLinearModel().setMaximumSectionCount(2).setBPerSection(1).add().add();
        for (const std::string e : {"a", "b"}) b.newLccConverterStation().setId("station" + k + e).setBus(bus).setConnectableBus(bus).setLossFactor(1).setPowerFactor(0.5).add();
        n.newHvdcLine().setId("hvdc" + k).setConverterStationId1("station" + k + "a").setConverterStationId2("station" + k + "b").setR(1).setNominalV(400).setMaxP(10).setActivePowerSetpoint(1).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER).add();
        VoltageLevel& v = s.newVoltageLevel().setId("nodes" + k).setNominalV(400).setTopologyKind(TopologyKind::NODE_BREAKER).add();
        v.getNodeBreakerView().newBusbarSection().setId("busbar" + k).setNode(0).add();
        v.getNodeBreakerView().newBreaker().setId("switch" + k).setNode1(0).setNode2(1).setOpen(false).setRetained(true).add();
        v.newLoad().setId("far" + k).setNode(1).setP0(1).setQ0(1).add();
        n.newLine().setId("line" + k).setVoltageLevel1("level" + k).setBus1(bus).setConnectableBus1(bus).setVoltageLevel2("level" + k).setBus2(bus).setConnectableBus2(bus).setR(1).setX(1).setG1(0).setG2(0).setB1(0).setB2(0).add();
        s.newTwoWindingsTransformer().setId("two" + k).setVoltageLevel1("level" + k).setBus1(bus).setConnectableBus1(bus).setVoltageLevel2("level" + k).setBus2(bus).setConnectableBus2(bus).setR(1).setX(1).setG(0).setB(0).setRatedU1(400).setRatedU2(400).add();
        auto t = s.newThreeWindingsTransformer();
        t.setId("three" + k).setRatedU0(400);
        t.newLeg1().setVoltageLevel("level" + k).setBus(bus).setConnectableBus(bus).setR(1).setX(1).setG(0).setB(0).setRatedU(400).add();
        t.newLeg2().setVoltageLevel("level" + k).setBus(bus).setConnectableBus(bus).setR(1).setX(1).setG(0).setB(0).setRatedU(400).add();
        t.newLeg3().setVoltageLevel("level" + k).setBus(bus).setConnectableBus(bus).setR(1).setX(1).setG(0).setB(0).setRatedU(400).add();
        t.add();
    }
    return n;
}
const std::vector<std::string> OWNERS{"network", "substation", "level", "nodes", "bus", "busbar", "switch", "load", "generator", "battery", "dangling", "svc", "shunt", "station", "hvdc", "line", "two", "three"};

Identifiable& owner(Network& n, const std::string& kind, unsigned which) {
    if (kind == "network") return n;
    std::string id = kind + mc::str(which);
    if (kind == "station") id += "a";
    return n.getIdentifiable(id);
}

const unsigned NO = 0;                                   // first choice of every attribute: not given

// an attribute of an extension: what can be given for it
struct Attribute {
    std::string name;
    std::vector<std::string> values;                      // text of each choice; 0 is "not given": what is read then, or empty when refused
    std::vector<bool> valid;                              // accepted in an adder
    std::vector<bool> settable;                           // accepted by the setter
    bool setter = true;
    bool perVariant = false;
};

struct Kind {
    std::string name, ownerKind;
    std::set<std::string> owners;                         // every kind that may own it
    std::vector<Attribute> attributes;
    std::function<void(Network&, Extendable&, const std::vector<unsigned>&)> add;
    std::function<std::string(Extension&, unsigned)> get; // text of the value of an attribute
    std::function<void(Network&, Extension&, unsigned, unsigned)> set;
    std::function<bool(const std::vector<unsigned>&)> together = [](const std::vector<unsigned>&) { return true; };
    bool emptiesOtherVariants = false;                    // a new one has values in the working variant only
    std::function<Extension*(Extendable&)> find;
    std::function<const Extension*(const Extendable&)> cfind, cget, cbyName;
    std::function<Extension*(Extendable&)> getOrThrow, byName;
    std::function<void(Extendable&)> remove;
    std::function<void(Extension&, const Extendable&, mc::Run&)> typed;

    bool valid(const std::vector<unsigned>& c) const {
        for (unsigned i = 0; i < attributes.size(); ++i)
            if (!attributes[i].valid[c[i]]) return false;
        return together(c);
    }
};

template <typename E>
void access(Kind& k) {
    k.find = [](Extendable& o) { auto r = o.findExtension<E>(); return r ? static_cast<Extension*>(&r.get()) : nullptr; };
    k.cfind = [](const Extendable& o) { auto r = o.findExtension<E>(); return r ? static_cast<const Extension*>(&r.get()) : nullptr; };
    const std::string name = k.name;
    k.byName = [name](Extendable& o) { auto r = o.getExtensionByName<E>(name); return r ? static_cast<Extension*>(&r.get()) : nullptr; };
    k.cbyName = [name](const Extendable& o) { auto r = o.getExtensionByName<E>(name); return r ? static_cast<const Extension*>(&r.get()) : nullptr; };
    k.getOrThrow = [](Extendable& o) { try { return static_cast<Extension*>(&o.getExtension<E>()); } catch (const powsybl::PowsyblException&) { return static_cast<Extension*>(nullptr); } };
    k.cget = [](const Extendable& o) { try { return static_cast<const Extension*>(&o.getExtension<E>()); } catch (const powsybl::PowsyblException&) { return static_cast<const Extension*>(nullptr); } };
    k.remove = [](Extendable& o) { o.removeExtension<E>(); };
    k.typed = [](Extension& x, const Extendable& o, mc::Run& run) {
        MC_CHECK(run, x.getType() == std::type_index(typeid(E)), "the extension " << x.getName() << " gives another type");
        MC_CHECK(run, x.getExtendable() && &x.getExtendable().get() == &o && static_cast<const Extension&>(x).getExtendable() && &static_cast<const Extension&>(x).getExtendable().get() == &o,
                 "the extension " << x.getName() << " does not designate its owner");
    };
}

// description of an extension made of independent attributes
template <typename E, typename A>
class Maker {
public:
    Maker(const std::string& name, const std::string& ownerKind, std::set<std::string> owners = {}) {
        m_kind.name = name;
        m_kind.ownerKind = ownerKind;
        m_kind.owners = owners.empty() ? std::set<std::string>{ownerKind} : owners;
        access<E>(m_kind);
    }
    // missing: what is read when the attribute is not given, empty: refused
    template <typename T, typename W, typename G, typename S>
    Maker& with(const std::string& name, const std::string& missing, const std::vector<std::pair<T, bool>>& choices, W w, G g, S s, bool setter = true) {
        Attribute a;
        a.name = name;
        a.values.push_back(missing);
        a.valid.push_back(!missing.empty());
        a.settable.push_back(false);
        for (const auto& c : choices) {
            a.values.push_back(show(c.first));
            a.valid.push_back(c.second);
            a.settable.push_back(c.second);
        }
        a.setter = setter;
        m_kind.attributes.push_back(a);
        m_with.push_back([choices, w](Network&, A& x, unsigned c) { w(x, choices[c - 1].first); });
        m_get.push_back([g](E& x) { return show(g(x)); });
        m_set.push_back([choices, s](Network&, E& x, unsigned c) { s(x, choices[c - 1].first); });
        return *this;
    }
    // choices are identifiers of equipment whose terminal is given
    template <typename G, typename S>
    Maker& terminal(const std::string& name, const std::vector<std::pair<std::string, bool>>& choices, G g, S s, bool setter, bool nullable) {
        Attribute a;
        a.name = name;
        a.values.push_back(nullable ? "none" : "");
        a.valid.push_back(false);
        a.settable.push_back(nullable);
        for (const auto& c : choices) {
            a.values.push_back(c.first);
            a.valid.push_back(c.second);
            a.settable.push_back(c.second);
        }
        a.setter = setter;
        m_kind.attributes.push_back(a);
        m_with.push_back([choices](Network& n, A& x, unsigned c) { giveTerminal(x, terminalOf(n, choices[c - 1].first)); });
        m_get.push_back([g](E& x) { return g(x); });
        m_set.push_back([choices, s](Network& n, E& x, unsigned c) { s(n, x, c == 0 ? std::string() : choices[c - 1].first); });
        return *this;
    }
    Maker& perVariant() {
        for (auto& a : m_kind.attributes) a.perVariant = true;
        return *this;
    }
    Maker& emptiesOtherVariants() {
        m_kind.emptiesOtherVariants = true;
        return *this;
    }
    Kind done() {
        const auto with = m_with;
        const auto get = m_get;
        const auto set = m_set;
        m_kind.add = [with](Network& n, Extendable& o, const std::vector<unsigned>& c) {
            A a = o.newExtension<A>();
            for (unsigned i = 0; i < with.size(); ++i)
                if (c[i] != NO) with[i](n, a, c[i]);
            a.add();
        };
        m_kind.get = [get](Extension& x, unsigned i) { return get[i](dynamic_cast<E&>(x)); };
        m_kind.set = [set](Network& n, Extension& x, unsigned i, unsigned c) { set[i](n, dynamic_cast<E&>(x), c); };
        return m_kind;
    }
    static std::string show(double d) { return mc::str(d); }
    static std::string show(bool b) { return mc::str(b); }
    static std::string show(unsigned long u) { return mc::str(u); }
    static std::string show(const std::string& s) { return "'" + s + "'"; }
    template <typename T>
    static typename std::enable_if<std::is_enum<T>::value, std::string>::type show(const T& t) { return mc::str(static_cast<unsigned>(t)); }

private:
    static void giveTerminal(xi::RemoteReactivePowerControlAdder& a, Terminal& t) { a.withRegulatingTerminal(t); }
    static void giveTerminal(ext::SlackTerminalAdder& a, Terminal& t) { a.withTerminal(t); }
    template <typename X>
    static void giveTerminal(X&, Terminal&) {}
    Kind m_kind;
    std::vector<std::function<void(Network&, A&, unsigned)>> m_with;
    std::vector<std::function<std::string(E&)>> m_get;
    std::vector<std::function<void(Network&, E&, unsigned)>> m_set;
};

#define ATTR(E, A, Setter, Getter) [](A& a, const auto& v) { a.with##Setter(v); }, [](E& e) { return e.Getter(); }, [](E& e, const auto& v) { e.set##Setter(v); }
#define FIXED(E, A, Setter, Getter) [](A& a, const auto& v) { a.with##Setter(v); }, [](E& e) { return e.Getter(); }, [](E&, const auto&) {}

using D = std::vector<std::pair<double, bool>>;
using B = std::vector<std::pair<bool, bool>>;
using U = std::vector<std::pair<unsigned long, bool>>;
using S = std::vector<std::pair<std::string, bool>>;

const std::set<std::string> CONNECTABLES{"busbar", "load", "generator", "battery", "dangling", "svc", "shunt", "station", "line", "two", "three"};
const std::set<std::string> ALL(OWNERS.begin(), OWNERS.end());

using Feeder = xs::ConnectablePosition::Feeder;
using Direction = xs::ConnectablePosition::Direction;

std::string feederText(unsigned c) { return c == 1 ? "'x' 1 TOP" : c == 2 ? "'y' 7 BOTTOM" : "none"; }
std::string show(const stdcxx::CReference<Feeder>& f) {
    if (!f) return "none";
    return "'" + f.get().getName() + "' " + mc::str(f.get().getOrder()) + " " + (f.get().getDirection() == Direction::TOP ? "TOP" : f.get().getDirection() == Direction::BOTTOM ? "BOTTOM" : "UNDEFINED");
}

Kind position() {
    Kind k;
    k.name = "position";
    k.ownerKind = "three";
    k.owners = CONNECTABLES;
    access<xs::ConnectablePosition>(k);
    for (const char* f : {"feeder", "feeder1", "feeder2", "feeder3"}) {
        Attribute a;
        a.name = f;
        // absent, x, y, without name, without order, without direction
        a.values = {"none", feederText(1), feederText(2), "no name", "no order", "no direction"};
        a.valid = {true, true, true, false, false, false};
        a.settable = {false, true, true, false, false, false};
        k.attributes.push_back(a);
    }
    k.together = [](const std::vector<unsigned>& c) {
        const bool f = c[0] != NO, f1 = c[1] != NO, f2 = c[2] != NO, f3 = c[3] != NO;
        if (f) return !f1 && !f2 && !f3;
        return f1 && (f2 || !f3);
    };
    k.add = [](Network&, Extendable& o, const std::vector<unsigned>& c) {
        xs::ConnectablePositionAdder a(o);
        for (unsigned i = 0; i < 4; ++i) {
            if (c[i] == NO) continue;
            auto f = i == 0 ? a.newFeeder() : i == 1 ? a.newFeeder1() : i == 2 ? a.newFeeder2() : a.newFeeder3();
            const bool y = c[i] == 2;
            if (c[i] != 3) f.withName(y ? "y" : "x");
            if (c[i] != 4) f.withOrder(y ? 7 : 1);
            if (c[i] != 5) f.withDirection(y ? Direction::BOTTOM : Direction::TOP);
            f.add();
        }
        a.add();
    };
    k.get = [](Extension& x, unsigned i) {
        auto& p = dynamic_cast<xs::ConnectablePosition&>(x);
        const auto& c = static_cast<const xs::ConnectablePosition&>(p);
        const std::string r = show(i == 0 ? c.getFeeder() : i == 1 ? c.getFeeder1() : i == 2 ? c.getFeeder2() : c.getFeeder3());
        const auto m = i == 0 ? p.getFeeder() : i == 1 ? p.getFeeder1() : i == 2 ? p.getFeeder2() : p.getFeeder3();
        return m ? (show(stdcxx::cref(m)) == r ? r : "const and non const feeders differ") : r == "none" ? r : "const and non const feeders differ";
    };
    k.set = [](Network&, Extension& x, unsigned i, unsigned c) {
        auto& p = dynamic_cast<xs::ConnectablePosition&>(x);
        auto m = i == 0 ? p.getFeeder() : i == 1 ? p.getFeeder1() : i == 2 ? p.getFeeder2() : p.getFeeder3();
        if (!m) throw powsybl::PowsyblException("no such feeder");
        if (c == 3) m.get().setName("");
        else if (c >= 4) throw powsybl::PowsyblException("not settable");
        else m.get().setName(c == 2 ? "y" : "x").setOrder(c == 2 ? 7 : 1).setDirection(c == 2 ? Direction::BOTTOM : Direction::TOP);
    };
    return k;
}

const std::vector<Kind>& kinds() {
    static std::vector<Kind> all;
    if (!all.empty()) return all;
    const D any{{1, true}, {-2.5, true}, {NaN, true}}, defined{{1, true}, {-2.5, true}, {NaN, false}}, ratio{{0, true}, {0.25, true}, {1, true}, {-0.01, false}, {1.01, false}, {NaN, false}};
    const B bools{{true, true}, {false, true}};
    const U clocks{{0, true}, {11, true}, {12, false}, {5, true}};

    all.push_back(Maker<ext::LoadDetail, ext::LoadDetailAdder>("detail", "load")
                      .with("fixed active", "0", defined, ATTR(ext::LoadDetail, ext::LoadDetailAdder, FixedActivePower, getFixedActivePower))
                      .with("fixed reactive", "0", defined, ATTR(ext::LoadDetail, ext::LoadDetailAdder, FixedReactivePower, getFixedReactivePower))
                      .with("variable active", "0", defined, ATTR(ext::LoadDetail, ext::LoadDetailAdder, VariableActivePower, getVariableActivePower))
                      .with("variable reactive", "0", defined, ATTR(ext::LoadDetail, ext::LoadDetailAdder, VariableReactivePower, getVariableReactivePower))
                      .perVariant().done());
    all.push_back(Maker<ext::SlackTerminal, ext::SlackTerminalAdder>("slackTerminal", "level", {"level"})
                      .terminal("terminal", {{"load1", true}, {"generator1", true}, {"far1", false}, {"load2", false}},
                                [](ext::SlackTerminal& s) { auto t = s.getTerminal(); auto c = static_cast<const ext::SlackTerminal&>(s).getTerminal();
                                                            if (static_cast<bool>(t) != static_cast<bool>(c) || (t && &t.get() != &c.get())) return std::string("const and non const terminals differ");
                                                            return t ? t.get().getConnectable().get().getId() : std::string("none"); },
                                [](Network& n, ext::SlackTerminal& s, const std::string& id) { s.setTerminal(id.empty() ? stdcxx::Reference<Terminal>() : stdcxx::ref(terminalOf(n, id))); }, true, true)
                      .perVariant().emptiesOtherVariants().done());
    all.push_back(Maker<xe::EntsoeArea, xe::EntsoeAreaAdder>("entsoeArea", "substation")
                      .with("code", "", std::vector<std::pair<xe::EntsoeGeographicalCode, bool>>{{xe::EntsoeGeographicalCode::FR, true}, {xe::EntsoeGeographicalCode::UX, true}, {xe::EntsoeGeographicalCode::AL, true}},
                            ATTR(xe::EntsoeArea, xe::EntsoeAreaAdder, Code, getCode)).done());
    all.push_back(Maker<xe::MergedXnode, xe::MergedXnodeAdder>("mergedXnode", "line")
                      .with("rdp", "", ratio, ATTR(xe::MergedXnode, xe::MergedXnodeAdder, Rdp, getRdp)).with("xdp", "", ratio, ATTR(xe::MergedXnode, xe::MergedXnodeAdder, Xdp, getXdp))
                      .with("p1", "", defined, ATTR(xe::MergedXnode, xe::MergedXnodeAdder, XnodeP1, getXnodeP1)).with("q1", "", defined, ATTR(xe::MergedXnode, xe::MergedXnodeAdder, XnodeQ1, getXnodeQ1))
                      .with("p2", "", defined, ATTR(xe::MergedXnode, xe::MergedXnodeAdder, XnodeP2, getXnodeP2)).with("q2", "", defined, ATTR(xe::MergedXnode, xe::MergedXnodeAdder, XnodeQ2, getXnodeQ2))
                      .with("line 1", "''", S{{"a", true}, {"", true}}, ATTR(xe::MergedXnode, xe::MergedXnodeAdder, Line1Name, getLine1Name))
                      .with("line 2", "''", S{{"b", true}, {"", true}}, ATTR(xe::MergedXnode, xe::MergedXnodeAdder, Line2Name, getLine2Name))
                      .with("code", "", S{{"X", true}, {"", false}}, ATTR(xe::MergedXnode, xe::MergedXnodeAdder, Code, getCode)).done());
    all.push_back(Maker<xe::Xnode, xe::XnodeAdder>("xnode", "dangling").with("code", "", S{{"X", true}, {"", false}, {"Y", true}}, ATTR(xe::Xnode, xe::XnodeAdder, Code, getCode)).done());
    for (const char* o : {"generator", "battery"})
        all.push_back(Maker<xi::ActivePowerControl, xi::ActivePowerControlAdder>("activePowerControl", o, {"generator", "battery"})
                          .with("participate", "false", bools, ATTR(xi::ActivePowerControl, xi::ActivePowerControlAdder, Participate, isParticipate))
                          .with("droop", "0", any, ATTR(xi::ActivePowerControl, xi::ActivePowerControlAdder, Droop, getDroop)).done());
    all.push_back(Maker<xi::CoordinatedReactiveControl, xi::CoordinatedReactiveControlAdder>("coordinatedReactiveControl", "generator")
                      .with("percent", "", D{{50, true}, {-1, true}, {200, true}, {NaN, false}}, ATTR(xi::CoordinatedReactiveControl, xi::CoordinatedReactiveControlAdder, QPercent, getQPercent)).done());
    all.push_back(Maker<xi::RemoteReactivePowerControl, xi::RemoteReactivePowerControlAdder>("generatorRemoteReactivePowerControl", "generator")
                      .with("target", "0", any, FIXED(xi::RemoteReactivePowerControl, xi::RemoteReactivePowerControlAdder, TargetQ, getTargetQ), false)
                      .with("enabled", "false", bools, FIXED(xi::RemoteReactivePowerControl, xi::RemoteReactivePowerControlAdder, Enabled, isEnabled), false)
                      .terminal("terminal", {{"load1", true}, {"line2", true}}, [](xi::RemoteReactivePowerControl& r) { return r.getRegulatingTerminal().getConnectable().get().getId(); },
                                [](Network&, xi::RemoteReactivePowerControl&, const std::string&) {}, false, false).done());
    all.push_back(Maker<xi::HvdcAngleDroopActivePowerControl, xi::HvdcAngleDroopActivePowerControlAdder>("hvdcAngleDroopActivePowerControl", "hvdc")
                      .with("p0", "", defined, ATTR(xi::HvdcAngleDroopActivePowerControl, xi::HvdcAngleDroopActivePowerControlAdder, P0, getP0))
                      .with("droop", "", defined, ATTR(xi::HvdcAngleDroopActivePowerControl, xi::HvdcAngleDroopActivePowerControlAdder, Droop, getDroop))
                      .with("enabled", "false", bools, ATTR(xi::HvdcAngleDroopActivePowerControl, xi::HvdcAngleDroopActivePowerControlAdder, Enabled, isEnabled)).done());
    const D opr{{3, true}, {0, true}, {-1, false}, {NaN, true}, {7, true}};
    all.push_back(Maker<xi::HvdcOperatorActivePowerRange, xi::HvdcOperatorActivePowerRangeAdder>("hvdcOperatorActivePowerRange", "hvdc")
                      .with("1 to 2", "0", opr, ATTR(xi::HvdcOperatorActivePowerRange, xi::HvdcOperatorActivePowerRangeAdder, OprFromCS1toCS2, getOprFromCS1toCS2))
                      .with("2 to 1", "0", opr, ATTR(xi::HvdcOperatorActivePowerRange, xi::HvdcOperatorActivePowerRangeAdder, OprFromCS2toCS1, getOprFromCS2toCS1)).done());
    all.push_back(Maker<xi::ThreeWindingsTransformerPhaseAngleClock, xi::ThreeWindingsTransformerPhaseAngleClockAdder>("threeWindingsTransformerPhaseAngleClock", "three")
                      .with("leg 2", "", clocks, ATTR(xi::ThreeWindingsTransformerPhaseAngleClock, xi::ThreeWindingsTransformerPhaseAngleClockAdder, PhaseAngleClockLeg2, getPhaseAngleClockLeg2))
                      .with("leg 3", "", clocks, ATTR(xi::ThreeWindingsTransformerPhaseAngleClock, xi::ThreeWindingsTransformerPhaseAngleClockAdder, PhaseAngleClockLeg3, getPhaseAngleClockLeg3)).done());
    all.push_back(Maker<xi::TwoWindingsTransformerPhaseAngleClock, xi::TwoWindingsTransformerPhaseAngleClockAdder>("twoWindingsTransformerPhaseAngleClock", "two")
                      .with("clock", "", clocks, ATTR(xi::TwoWindingsTransformerPhaseAngleClock, xi::TwoWindingsTransformerPhaseAngleClockAdder, PhaseAngleClock, getPhaseAngleClock)).done());
    all.push_back(Maker<xi::VoltagePerReactivePowerControl, xi::VoltagePerReactivePowerControlAdder>("voltagePerReactivePowerControl", "svc")
                      .with("slope", "0", D{{0.5, true}, {-0.1, false}, {NaN, false}, {0, true}}, ATTR(xi::VoltagePerReactivePowerControl, xi::VoltagePerReactivePowerControlAdder, Slope, getSlope)).done());
    using Status = xs::BranchStatus::Status;
    all.push_back(Maker<xs::BranchStatus, xs::BranchStatusAdder>("branchStatus", "line", CONNECTABLES)
                      .with("status", "", std::vector<std::pair<Status, bool>>{{Status::IN_OPERATION, true}, {Status::PLANNED_OUTAGE, true}, {Status::FORCED_OUTAGE, true}}, ATTR(xs::BranchStatus, xs::BranchStatusAdder, Status, getStatus)).done());
    all.push_back(Maker<xs::BusbarSectionPosition, xs::BusbarSectionPositionAdder>("busbarSectionPosition", "busbar")
                      .with("busbar", "", U{{0, true}, {3, true}}, ATTR(xs::BusbarSectionPosition, xs::BusbarSectionPositionAdder, BusbarIndex, getBusbarIndex))
                      .with("section", "", U{{0, true}, {4, true}}, ATTR(xs::BusbarSectionPosition, xs::BusbarSectionPositionAdder, SectionIndex, getSectionIndex)).done());
    all.push_back(position());
    all.push_back(Maker<xi::Measurements, xi::MeasurementsAdder>("measurements", "load", ALL).done());
    all.push_back(Maker<xi::DiscreteMeasurements, xi::DiscreteMeasurementsAdder>("discreteMeasurements", "two", ALL).done());
    return all;
}

// every way to look at the extensions of an object, against the set of extensions it should have (name -> kind)
void checkOwner(Extendable& o, const std::string& about, const std::map<std::string, const Kind*>& present, mc::Run& run) {
    std::vector<std::string> iterated, citerated;
    for (Extension& e : o.getExtensions()) iterated.push_back(e.getName());
    for (const Extension& e : static_cast<const Extendable&>(o).getExtensions()) citerated.push_back(e.getName());
    std::vector<std::string> expected;
    for (const auto& p : present) expected.push_back(p.first);
    std::sort(iterated.begin(), iterated.end());
    std::sort(citerated.begin(), citerated.end());
    MC_CHECK(run, iterated == expected && citerated == expected, about << " shows " << iterated.size() << " extensions (" << (iterated.empty() ? "" : iterated[0]) << "...), " << expected.size() << " expected");
    std::set<std::string> names;
    for (const Kind& k : kinds()) {
        if (!names.insert(k.name).second) continue;
        const auto it = present.find(k.name);
        const Extension* const f = k.find(o);
        const std::string what = "the extension " + k.name + " of " + about;
        if (it == present.end()) {
            MC_CHECK(run, f == nullptr && k.cfind(o) == nullptr && k.getOrThrow(o) == nullptr && k.cget(o) == nullptr && k.byName(o) == nullptr && k.cbyName(o) == nullptr &&
                              !o.getExtensionByName<Extension>(k.name),
                     what << " should not be there");
            continue;
        }
        MC_CHECK(run, f != nullptr, what << " is not found");
        MC_CHECK(run, k.cfind(o) == f && k.getOrThrow(o) == f && k.cget(o) == f && k.byName(o) == f && k.cbyName(o) == f && o.getExtensionByName<Extension>(k.name) &&
                          &o.getExtensionByName<Extension>(k.name).get() == f,
                 what << " is not the same by type, by name and when asked for");
        bool inList = false;
        for (Extension& e : o.getExtensions()) inList = inList || &e == f;
        MC_CHECK(run, inList, what << " is not the one listed");
        MC_CHECK(run, f->getName() == k.name, what << " has the name " << f->getName());
        k.typed(*k.find(o), o, run);
    }
    MC_CHECK(run, !o.getExtensionByName<Extension>("no such extension"), "an unknown extension of " << about << " was found");
}

// --- every extension on every object
mc::Space matrix() {
    mc::Space sp;
    sp.name = "owners";
    const unsigned nk = static_cast<unsigned>(kinds().size()), no = static_cast<unsigned>(OWNERS.size());
    sp.size = nk * no;
    sp.describe = [=](uint64_t i) { return kinds()[i / no].name + " on " + OWNERS[i % no]; };
    sp.run = [=](uint64_t i, mc::Run& run) {
        const Kind& k = kinds()[i / no];
        Network n = build();
        Identifiable& o = owner(n, OWNERS[i % no], 1);
        std::vector<unsigned> c(k.attributes.size(), 1);
        if (k.name == "position") c = {1, 0, 0, 0};
        const auto before = net::dump(n, {});
        std::string what;
        const bool ok = mc::accepted([&]() { k.add(n, o, c); }, &what);
        run.transition();
        const bool expected = k.owners.count(OWNERS[i % no]) != 0;
        MC_CHECK(run, ok == expected, "the extension " << k.name << " of " << OWNERS[i % no] << " is " << (ok ? "accepted" : "refused: " + what));
        checkOwner(o, OWNERS[i % no], ok ? std::map<std::string, const Kind*>{{k.name, &k}} : std::map<std::string, const Kind*>{}, run);
        if (ok)
            for (unsigned a = 0; a < k.attributes.size(); ++a)
                MC_CHECK(run, k.get(*k.find(o), a) == k.attributes[a].values[c[a]], k.attributes[a].name << " of " << k.name << " is " << k.get(*k.find(o), a));
        k.remove(o);
        checkOwner(o, OWNERS[i % no], {}, run);
        const std::string d = net::diff(before, net::dump(n, {}));
        MC_CHECK(run, d.empty(), "adding and removing the extension " << k.name << " of " << OWNERS[i % no] << " changed " << d);
        run.trace();
    };
    return sp;
}

std::vector<std::string> textsOf(const Kind& k, const std::vector<unsigned>& c) {
    std::vector<std::string> r;
    for (unsigned i = 0; i < c.size(); ++i) r.push_back(k.attributes[i].values[c[i]]);
    return r;
}
std::string describe(const Kind& k, const std::vector<unsigned>& c) {
    std::string s = k.name + " of " + k.ownerKind + " (";
    for (unsigned i = 0; i < c.size(); ++i) s += (i != 0 ? ", " : "") + k.attributes[i].name + "=" + (c[i] == NO ? "not given" : k.attributes[i].values[c[i]]);
    return s + ")";
}

// --- every combination of the values of every extension, each one replacing the last accepted
mc::Space values() {
    struct Block { unsigned kind; std::vector<unsigned> outer, inner; };
    std::vector<Block> blocks;
    std::vector<uint64_t> ends;
    uint64_t total = 0;
    for (unsigned k = 0; k < kinds().size(); ++k) {
        Block b{k, {}, {}};
        const auto& as = kinds()[k].attributes;
        for (unsigned i = 0; i < as.size(); ++i) {
            if (i < as.size() / 2) b.outer.push_back(static_cast<unsigned>(as[i].values.size()));
            else b.inner.push_back(static_cast<unsigned>(as[i].values.size()));
        }
        total += mc::product(b.outer);
        blocks.push_back(b);
        ends.push_back(total);
    }
    mc::Space sp;
    sp.name = "values";
    sp.size = total;
    const auto locate = [=](uint64_t i, std::vector<unsigned>& outer) {
        unsigned k = 0;
        while (i >= ends[k]) ++k;
        outer = mc::decode(i - (k == 0 ? 0 : ends[k - 1]), blocks[k].outer);
        return blocks[k];
    };
    sp.describe = [=](uint64_t i) {
        std::vector<unsigned> o;
        const Block b = locate(i, o);
        std::string s = kinds()[b.kind].name + " of " + kinds()[b.kind].ownerKind;
        for (unsigned j = 0; j < o.size(); ++j) s += ", " + kinds()[b.kind].attributes[j].name + "=" + kinds()[b.kind].attributes[j].values[o[j]];
        return s;
    };
    sp.run = [=](uint64_t i, mc::Run& run) {
        std::vector<unsigned> outer;
        const Block b = locate(i, outer);
        const Kind& k = kinds()[b.kind];
        Network n = build();
        Identifiable& o = owner(n, k.ownerKind, 1);
        bool present = false;
        std::vector<std::string> last;
        for (uint64_t j = 0; j < mc::product(b.inner); ++j) {
            std::vector<unsigned> c = outer;
            for (unsigned v : mc::decode(j, b.inner)) c.push_back(v);
            std::string what;
            const bool ok = mc::accepted([&]() { k.add(n, o, c); }, &what);
            run.transition();
            run.trace();
            run.state(mc::hash(describe(k, c)));
            MC_CHECK(run, ok == k.valid(c), "the extension " << describe(k, c) << " is " << (ok ? "accepted" : "refused: " + what));
            if (ok) {
                present = true;
                last = textsOf(k, c);
            }
            Extension* const x = k.find(o);
            MC_CHECK(run, (x != nullptr) == present, "after " << describe(k, c) << (present ? " the extension is lost" : " the extension is there"));
            if (present)
                for (unsigned a = 0; a < last.size(); ++a)
                    MC_CHECK(run, k.get(*x, a) == last[a], "after " << describe(k, c) << " " << k.attributes[a].name << " is " << k.get(*x, a) << " instead of " << last[a]);
        }
        checkOwner(o, k.ownerKind, present ? std::map<std::string, const Kind*>{{k.name, &k}} : std::map<std::string, const Kind*>{}, run);
    };
    return sp;
}

// --- histories of one kind of extension on two owners
class KindSystem : public mc::System {
public:
    struct Op;
    explicit KindSystem(const Kind& k, const std::vector<Op>& ops = {}) : m_kind(k), m_network(build()), m_ops(ops) {
        m_x.owner = &owner(m_network, k.ownerKind, 1);
        m_y.owner = &owner(m_network, k.ownerKind, 2);
        m_variants = {INITIAL};
        m_working = INITIAL;
    }
    struct Op { std::string name; std::function<bool(KindSystem&, mc::Run&)> run; };
    static std::vector<Op> ops(const Kind& k);
    static std::vector<Op> variantOps(const Kind& k);

    bool apply(unsigned op, mc::Run& run) override {
        if (m_ops.empty()) m_ops = ops(m_kind);
        const bool done = m_ops[op].run(*this, run);
        if (done) run.transition();
        return done;
    }
    void check(mc::Run& run) override {
        for (const Owner* o : {&m_x, &m_y})
            checkOwner(*o->owner, o->owner->getId(), o->present ? std::map<std::string, const Kind*>{{m_kind.name, &m_kind}} : std::map<std::string, const Kind*>{}, run);
        for (const std::string& v : m_variants) {
            m_network.getVariantManager().setWorkingVariant(v);
            for (const Owner* o : {&m_x, &m_y}) {
                if (!o->present) continue;
                Extension& e = *m_kind.find(*o->owner);
                const auto& t = o->texts.at(v);
                for (unsigned a = 0; a < t.size(); ++a)
                    MC_CHECK(run, m_kind.get(e, a) == t[a], m_kind.attributes[a].name << " of " << m_kind.name << " of " << o->owner->getId() << " in variant " << v << " is " << m_kind.get(e, a) << " instead of " << t[a]);
            }
        }
        m_network.getVariantManager().setWorkingVariant(m_working);
    }
    std::string key() override {
        std::string s = m_kind.name + m_kind.ownerKind + m_working;
        for (const Owner* o : {&m_x, &m_y}) {
            s += o->present ? "|" : "|-";
            if (o->present)
                for (const auto& v : m_variants) {
                    s += v;
                    for (const auto& t : o->texts.at(v)) s += "," + t;
                }
        }
        return s;
    }

private:
    struct Owner {
        Identifiable* owner = nullptr;
        bool present = false;
        std::map<std::string, std::vector<std::string>> texts;   // by variant
    };
    void modelAdd(Owner& o, const std::vector<unsigned>& c) {
        o.present = true;
        o.texts.clear();
        for (const auto& v : m_variants) {
            o.texts[v] = textsOf(m_kind, c);
            if (m_kind.emptiesOtherVariants && v != m_working) o.texts[v].assign(c.size(), "none");
        }
    }
    bool add(Owner& o, const std::vector<unsigned>& c, bool valid, mc::Run& run) {
        std::string what;
        const bool ok = mc::accepted([&]() { m_kind.add(m_network, *o.owner, c); }, &what);
        MC_CHECK(run, ok == valid, describe(m_kind, c) << " is " << (ok ? "accepted" : "refused: " + what));
        if (ok) modelAdd(o, c);
        return true;
    }
    bool remove(Owner& o) {
        m_kind.remove(*o.owner);
        o.present = false;
        o.texts.clear();
        return true;
    }
    bool set(unsigned a, unsigned c, mc::Run& run) {
        if (!m_x.present) return false;
        const Attribute& at = m_kind.attributes[a];
        std::string what;
        const bool ok = mc::accepted([&]() { m_kind.set(m_network, *m_kind.find(*m_x.owner), a, c); }, &what);
        bool expected = at.settable[c];
        if (m_kind.name == "position" && m_x.texts.at(m_working)[a] == "none") expected = false;
        MC_CHECK(run, ok == expected, "setting " << at.name << " of " << m_kind.name << " to " << at.values[c] << " is " << (ok ? "accepted" : "refused: " + what));
        if (ok) {
            for (auto& t : m_x.texts)
                if (!at.perVariant || t.first == m_working) t.second[a] = at.values[c];
        }
        return true;
    }
    bool clone() {
        if (m_variants.size() > 2) return false;
        const std::string v = m_variants.size() == 1 ? "v1" : m_variants.back() == "v1" ? "v2" : "v1";
        m_network.getVariantManager().cloneVariant(m_working, v);
        m_variants.push_back(v);
        for (Owner* o : {&m_x, &m_y})
            if (o->present) o->texts[v] = o->texts.at(m_working);
        return true;
    }
    // the first variant that is not the working one is cloned
    bool cloneOther() {
        if (m_variants.size() != 2) return false;
        const std::string source = m_variants[0] == m_working ? m_variants[1] : m_variants[0];
        const std::string v = m_variants.back() == "v1" ? "v2" : "v1";
        m_network.getVariantManager().cloneVariant(source, v);
        m_variants.push_back(v);
        for (Owner* o : {&m_x, &m_y})
            if (o->present) o->texts[v] = o->texts.at(source);
        return true;
    }
    // the working variant is overwritten by another, or overwrites it
    bool overwrite(bool working) {
        if (m_variants.size() < 2) return false;
        const std::string other = m_variants[0] == m_working ? m_variants[1] : m_variants[0];
        const std::string source = working ? other : m_working;
        const std::string target = working ? m_working : other;
        m_network.getVariantManager().cloneVariant(source, target, true);
        for (Owner* o : {&m_x, &m_y})
            if (o->present) o->texts[target] = o->texts.at(source);
        return true;
    }
    bool next() {
        if (m_variants.size() < 2) return false;
        auto it = std::find(m_variants.begin(), m_variants.end(), m_working);
        ++it;
        m_working = it == m_variants.end() ? m_variants.front() : *it;
        m_network.getVariantManager().setWorkingVariant(m_working);
        return true;
    }
    bool removeVariant() {                                       // the oldest that is not the initial one nor the working one
        for (auto it = m_variants.begin(); it != m_variants.end(); ++it) {
            if (*it == INITIAL || *it == m_working) continue;
            m_network.getVariantManager().removeVariant(*it);
            for (Owner* o : {&m_x, &m_y}) o->texts.erase(*it);
            m_variants.erase(it);
            return true;
        }
        return false;
    }
    bool wrongOwner(mc::Run& run) {
        const std::string kind = m_kind.ownerKind == "hvdc" ? "substation" : "hvdc";
        std::vector<unsigned> c(m_kind.attributes.size(), 1);
        if (m_kind.name == "position") c = {1, 0, 0, 0};
        Identifiable& o = owner(m_network, kind, 1);
        const bool ok = mc::accepted([&]() { m_kind.add(m_network, o, c); });
        MC_CHECK(run, !ok, m_kind.name << " is accepted on " << kind);
        checkOwner(o, kind, {}, run);
        return true;
    }
    // the designation helpers of slack terminals
    bool slackClean(bool clean) {
        if (!m_x.present) return false;
        auto& s = m_x.owner->getExtension<ext::SlackTerminal>();
        s.setTerminal(stdcxx::Reference<Terminal>(), clean);
        m_x.texts[m_working][0] = "none";
        cleanIfEmpty(m_x, clean);
        return true;
    }
    void cleanIfEmpty(Owner& o, bool clean) {
        bool empty = true;
        for (const auto& t : o.texts) empty = empty && t.second[0] == "none";
        if (o.present && empty && clean) {
            o.present = false;
            o.texts.clear();
        }
    }
    bool slackReset(bool all) {
        if (all) ext::SlackTerminal::reset(m_network);
        else ext::SlackTerminal::reset(dynamic_cast<VoltageLevel&>(*m_x.owner), stdcxx::Reference<Terminal>());
        for (Owner* o : {&m_x, &m_y}) {
            if (!o->present || (!all && o == &m_y)) continue;
            o->texts[m_working][0] = "none";
            cleanIfEmpty(*o, true);
        }
        return true;
    }
    bool slackAttach(bool toBus, mc::Run& run) {
        auto& level = dynamic_cast<VoltageLevel&>(*m_x.owner);
        if (toBus) ext::SlackTerminal::attach(level.getBusBreakerView().getBus("bus1").get());
        else ext::SlackTerminal::reset(level, stdcxx::ref(terminalOf(m_network, "generator1")));
        const auto s = level.findExtension<ext::SlackTerminal>();
        MC_CHECK(run, s && s.get().getTerminal(), "no slack terminal after attaching one to a bus");
        const Terminal& t = s.get().getTerminal().get();
        MC_CHECK(run, t.isConnected() && t.getVoltageLevel().getId() == "level1", "the slack terminal attached to a bus is not connected to it");
        const std::string id = t.getConnectable().get().getId();
        MC_CHECK(run, toBus || id == "generator1", "the slack terminal is not the one given");
        if (!m_x.present) {
            m_x.present = true;
            for (const auto& v : m_variants) m_x.texts[v] = {"none"};
        }
        m_x.texts[m_working][0] = id;
        return true;
    }

    const Kind& m_kind;
    Network m_network;
    Owner m_x, m_y;
    std::vector<std::string> m_variants;
    std::string m_working;
    std::vector<Op> m_ops;
};

std::vector<KindSystem::Op> KindSystem::ops(const Kind& k) {
    std::vector<Op> r;
    std::vector<unsigned> first(k.attributes.size(), 1), second, invalid, forY;
    for (const auto& a : k.attributes) second.push_back(a.values.size() > 2 && a.valid[2] ? 2 : 1);
    if (k.name == "position") {
        first = {1, 0, 0, 0};
        second = {0, 2, 1, 0};
        invalid = {0, 1, 0, 1};
    } else {
        invalid = first;
        for (unsigned i = static_cast<unsigned>(k.attributes.size()); i-- > 0;) {
            const auto bad = std::find(k.attributes[i].valid.begin(), k.attributes[i].valid.end(), false);
            if (bad != k.attributes[i].valid.end()) {
                invalid[i] = static_cast<unsigned>(bad - k.attributes[i].valid.begin());
                break;
            }
        }
    }
    forY = first;
    if (k.name == "slackTerminal") forY = {4};
    r.push_back({"add " + describe(k, first) + " to the first", [first](KindSystem& s, mc::Run& run) { return s.add(s.m_x, first, true, run); }});
    r.push_back({"add " + describe(k, second) + " to the first", [second](KindSystem& s, mc::Run& run) { return s.add(s.m_x, second, true, run); }});
    if (!k.valid(invalid)) r.push_back({"add " + describe(k, invalid) + " to the first", [invalid](KindSystem& s, mc::Run& run) { return s.add(s.m_x, invalid, false, run); }});
    r.push_back({"add " + describe(k, forY) + " to the second", [forY](KindSystem& s, mc::Run& run) { return s.add(s.m_y, forY, true, run); }});
    r.push_back({"remove from the first", [](KindSystem& s, mc::Run&) { return s.remove(s.m_x); }});
    r.push_back({"remove from the second", [](KindSystem& s, mc::Run&) { return s.remove(s.m_y); }});
    if (k.owners.size() < OWNERS.size()) r.push_back({"add to an object of another kind", [](KindSystem& s, mc::Run& run) { return s.wrongOwner(run); }});
    for (unsigned a = 0; a < k.attributes.size(); ++a) {
        if (!k.attributes[a].setter) continue;
        const bool nullable = k.attributes[a].settable[0];
        for (unsigned c = nullable ? 0 : 1; c < k.attributes[a].values.size() && c < 4; ++c)
            r.push_back({"set " + k.attributes[a].name + " to " + k.attributes[a].values[c], [a, c](KindSystem& s, mc::Run& run) { return s.set(a, c, run); }});
    }
    if (k.name == "slackTerminal") {
        for (bool b : {false, true}) {
            r.push_back({b ? "unset, remove when empty" : "unset", [b](KindSystem& s, mc::Run&) { return s.slackClean(b); }});
            r.push_back({b ? "reset in the network" : "reset in the level", [b](KindSystem& s, mc::Run&) { return s.slackReset(b); }});
            r.push_back({b ? "attach to the bus" : "reset to a terminal", [b](KindSystem& s, mc::Run& run) { return s.slackAttach(b, run); }});
        }
    }
    r.push_back({"clone the working variant", [](KindSystem& s, mc::Run&) { return s.clone(); }});
    r.push_back({"work in the next variant", [](KindSystem& s, mc::Run&) { return s.next(); }});
    r.push_back({"remove a variant", [](KindSystem& s, mc::Run&) { return s.removeVariant(); }});
    return r;
}

// one attribute and the variants
std::vector<KindSystem::Op> KindSystem::variantOps(const Kind& k) {
    std::vector<Op> r;
    std::vector<unsigned> first(k.attributes.size(), 1);
    r.push_back({"add to the first", [first](KindSystem& s, mc::Run& run) { return s.add(s.m_x, first, true, run); }});
    r.push_back({"remove from the first", [](KindSystem& s, mc::Run&) { return s.remove(s.m_x); }});
    std::vector<unsigned> choices;
    for (unsigned c = 0; c < k.attributes[0].values.size() && choices.size() < 2; ++c)
        if (k.attributes[0].settable[c] && c != 1) choices.push_back(c);
    for (unsigned c : choices)
        r.push_back({"set " + k.attributes[0].name + " to " + k.attributes[0].values[c], [c](KindSystem& s, mc::Run& run) { return s.set(0, c, run); }});
    r.push_back({"clone the working variant", [](KindSystem& s, mc::Run&) { return s.clone(); }});
    r.push_back({"clone another variant", [](KindSystem& s, mc::Run&) { return s.cloneOther(); }});
    r.push_back({"overwrite the working variant", [](KindSystem& s, mc::Run&) { return s.overwrite(true); }});
    r.push_back({"overwrite another variant", [](KindSystem& s, mc::Run&) { return s.overwrite(false); }});
    r.push_back({"work in the next variant", [](KindSystem& s, mc::Run&) { return s.next(); }});
    r.push_back({"remove a variant", [](KindSystem& s, mc::Run&) { return s.removeVariant(); }});
    return r;
}

void variantHistories(bool thorough, std::vector<mc::Space>& spaces) {
    for (const Kind& k : kinds()) {
        if (k.attributes.empty() || !k.attributes[0].perVariant || !k.attributes[0].setter) continue;
        const auto ops = std::make_shared<std::vector<KindSystem::Op>>(KindSystem::variantOps(k));
        spaces.push_back(mc::sequences("variants-" + k.name + "-" + k.ownerKind, static_cast<unsigned>(ops->size()), thorough ? 6 : 5, mc::Queries::NONE,
                                       [&k, ops]() { return std::unique_ptr<mc::System>(new KindSystem(k, *ops)); }, [ops](unsigned i) { return (*ops)[i].name; }));
    }
}

void histories(bool thorough, std::vector<mc::Space>& spaces) {
    for (const Kind& k : kinds()) {
        const auto ops = KindSystem::ops(k);
        const bool variants = k.name == "detail" || k.name == "slackTerminal";
        unsigned depth = 1;
        uint64_t n = ops.size();
        while (n * ops.size() <= (thorough ? 400000 : variants ? 30000 : 6000)) {
            n *= ops.size();
            ++depth;
        }
        std::vector<std::string> names;
        for (const auto& o : ops) names.push_back(o.name);
        spaces.push_back(mc::sequences("histories-" + k.name + "-" + k.ownerKind, static_cast<unsigned>(ops.size()), depth, mc::Queries::NONE,
                                       [&k]() { return std::unique_ptr<mc::System>(new KindSystem(k)); }, [names](unsigned i) { return names[i]; }));
    }
}

// --- several extensions on one object
class Together : public mc::System {
public:
    explicit Together(const std::string& kind) : m_network(build()), m_owner(owner(m_network, kind, 1)), m_kinds(of(kind)) {}
    static std::vector<const Kind*> of(const std::string& ownerKind) {
        std::vector<const Kind*> r;
        std::set<std::string> names;
        for (const Kind& k : kinds())
            if (k.owners.count(ownerKind) != 0 && names.insert(k.name).second) r.push_back(&k);
        return r;
    }
    bool apply(unsigned op, mc::Run& run) override {
        const Kind& k = *m_kinds[op / 2];
        if (op % 2 == 0) {
            std::vector<unsigned> c(k.attributes.size(), 1);
            if (k.name == "position") c = {1, 0, 0, 0};
            k.add(m_network, m_owner, c);
            m_present[k.name] = &k;
        } else {
            k.remove(m_owner);
            m_present.erase(k.name);
        }
        run.transition();
        return true;
    }
    void check(mc::Run& run) override {
        checkOwner(m_owner, m_owner.getId(), m_present, run);
        for (const auto& p : m_present)
            for (unsigned a = 0; a < p.second->attributes.size(); ++a) {
                const unsigned c = p.second->name == "position" ? (a == 0 ? 1 : 0) : 1;
                MC_CHECK(run, p.second->get(*p.second->find(m_owner), a) == p.second->attributes[a].values[c], p.second->attributes[a].name << " of " << p.first << " changed");
            }
    }
    std::string key() override {
        std::string s = m_owner.getId();
        for (const auto& p : m_present) s += "," + p.first;
        return s;
    }

private:
    Network m_network;
    Identifiable& m_owner;
    std::vector<const Kind*> m_kinds;
    std::map<std::string, const Kind*> m_present;
};

// --- extensions of the user's own: attached elsewhere, wrong owner, one name for two types
int g_alive = 0;
std::vector<std::string> g_ends;                            // what each destroyed one designated

template <int TYPE>
class Probe : public Extension {
public:
    Probe(Extendable& o, const std::string& name, const std::string& label) : Extension(o), m_name(name), m_label(label) { ++g_alive; }
    ~Probe() noexcept override {
        --g_alive;
        g_ends.push_back(m_label + (static_cast<bool>(getExtendable()) ? "+" : "-"));
    }
    const std::string& getName() const override { return m_name; }
    const std::type_index& getType() const override {
        static const std::type_index s_type = typeid(Probe);
        return s_type;
    }
    const std::string& label() const { return m_label; }

private:
    void assertExtendable(const stdcxx::Reference<Extendable>& o) const override {
        if (o && !stdcxx::isInstanceOf<Load>(o.get())) throw powsybl::PowsyblException("a load is expected");
    }
    std::string m_name, m_label;
};

class Probes : public mc::System {
public:
    Probes() : m_network(build()) { g_ends.clear(); }
    static std::vector<std::string> names() {
        return {"add A to the first", "add A to the second", "replace by another type with the same name", "add another name and type", "add an extension of the second to the first", "add one of the second, same name, other type",
                "add one made for a generator to the first", "remove type A", "remove type B", "remove type C", "add an extension of the first to a generator"};
    }
    bool apply(unsigned op, mc::Run& run) override {
        run.transition();
        const std::string label = mc::str(++m_count);
        Load &x = m_network.getLoad("load1"), &y = m_network.getLoad("load2");
        switch (op) {
            case 0: return add<1>(x, x, "one", label, 0, true, run);
            case 1: return add<1>(y, y, "one", label, 1, true, run);
            case 2: return add<2>(x, x, "one", label, 0, true, run);
            case 3: return add<3>(x, x, "three", label, 0, true, run);
            case 4: return add<1>(x, y, "one", label, 0, false, run);
            case 5: return add<2>(x, y, "one", label, 0, false, run);
            case 6: return add<1>(x, m_network.getGenerator("generator1"), "one", label, 0, false, run);
            case 7: x.removeExtension<Probe<1>>(); removed(0, 1); return true;
            case 8: x.removeExtension<Probe<2>>(); removed(0, 2); return true;
            case 9: x.removeExtension<Probe<3>>(); removed(0, 3); return true;
            default: {
                const bool ok = mc::accepted([&]() { m_network.getGenerator("generator1").addExtension(std::unique_ptr<Extension>(new Probe<1>(x, "one", label))); });
                MC_CHECK(run, !ok, "an extension that only loads may have is accepted by a generator");
                MC_CHECK(run, !m_network.getGenerator("generator1").getExtensionByName<Extension>("one"), "a refused extension is there");
                return true;
            }
        }
    }
    void check(mc::Run& run) override {
        for (unsigned o = 0; o < 2; ++o) {
            Load& l = m_network.getLoad(o == 0 ? "load1" : "load2");
            checkType<1>(l, o, run);
            checkType<2>(l, o, run);
            checkType<3>(l, o, run);
            std::vector<std::string> labels;
            for (Extension& e : l.getExtensions()) {
                const std::string label = dynamic_cast<Probe<1>*>(&e) != nullptr ? dynamic_cast<Probe<1>&>(e).label() : dynamic_cast<Probe<2>*>(&e) != nullptr ? dynamic_cast<Probe<2>&>(e).label() : dynamic_cast<Probe<3>&>(e).label();
                labels.push_back(label);
                MC_CHECK(run, e.getExtendable() && &e.getExtendable().get() == &l, "an extension does not designate its owner");
            }
            std::vector<std::string> expected;
            for (const auto& m : m_model[o]) expected.push_back(m.second.second);
            std::sort(labels.begin(), labels.end());
            std::sort(expected.begin(), expected.end());
            MC_CHECK(run, labels == expected, "the list of the extensions of load " << o + 1 << " has " << labels.size() << " of " << expected.size());
        }
        for (const auto& e : g_ends)
            MC_CHECK(run, m_replaced.count(e.substr(0, e.size() - 1)) == 0 || e.back() == '-', "the extension " << e << " still designates its owner after it was replaced");
        MC_CHECK(run, g_alive == static_cast<int>(m_model[0].size() + m_model[1].size()), g_alive << " extensions are alive");
    }
    std::string key() override {
        std::string s;
        for (const auto& m : m_model)
            for (const auto& p : m) s += p.first + mc::str(p.second.first) + ",";
        return s;
    }

private:
    template <int TYPE>
    bool add(Load& target, Extendable& made, const std::string& name, const std::string& label, unsigned o, bool valid, mc::Run& run) {
        std::string what;
        const bool ok = mc::accepted([&]() { target.addExtension(std::unique_ptr<Extension>(new Probe<TYPE>(made, name, label))); }, &what);
        MC_CHECK(run, ok == valid, "the extension is " << (ok ? "accepted" : "refused: " + what));
        if (!ok) return true;
        auto& m = m_model[o];
        const auto it = m.find(name);
        if (it != m.end()) m_replaced.insert(it->second.second);
        m[name] = {TYPE, label};
        return true;
    }
    void removed(unsigned o, int type) {
        for (auto it = m_model[o].begin(); it != m_model[o].end(); ++it)
            if (it->second.first == type) {
                m_model[o].erase(it);
                return;
            }
    }
    template <int TYPE>
    void checkType(Load& l, unsigned o, mc::Run& run) {
        std::string name, label;
        for (const auto& m : m_model[o])
            if (m.second.first == TYPE) {
                name = m.first;
                label = m.second.second;
            }
        const auto f = l.findExtension<Probe<TYPE>>();
        MC_CHECK(run, static_cast<bool>(f) == !label.empty(), "type " << TYPE << (label.empty() ? " is still found" : " is not found"));
        for (const char* n : {"one", "three"}) {
            const auto b = l.getExtensionByName<Probe<TYPE>>(n);
            MC_CHECK(run, static_cast<bool>(b) == (name == n), "type " << TYPE << " by name " << n);
            if (b) MC_CHECK(run, b.get().label() == label, "type " << TYPE << " by name is not the last one added");
        }
        if (f) MC_CHECK(run, f.get().label() == label && &l.getExtension<Probe<TYPE>>() == &f.get(), "type " << TYPE << " is not the last one added");
        else MC_CHECK(run, !mc::accepted([&]() { l.getExtension<Probe<TYPE>>(); }), "type " << TYPE << " is given");
    }

    Network m_network;
    unsigned m_count = 0;
    std::map<std::string, std::pair<int, std::string>> m_model[2];
    std::set<std::string> m_replaced;
};

// --- the contents of measurements
struct Meas {
    std::string id;
    int type = 0;
    int side = -1;                                           // side, or tap changer
    std::map<std::string, std::string> properties;
    double value = NaN;
    std::string text;
    int valueType = 0;                                       // discrete: 0 boolean, 1 int, 2 string
    double deviation = NaN;
    bool valid = true;
};
std::string show(const Meas& m, bool discrete) {
    std::string s = "'" + m.id + "' type " + mc::str(m.type) + " side " + mc::str(m.side) + (m.valid ? " valid" : " invalid") + " value ";
    s += discrete ? mc::str(m.valueType) + ":" + m.text : mc::str(m.value) + " deviation " + mc::str(m.deviation);
    for (const auto& p : m.properties) s += " " + p.first + "=" + p.second;
    return s;
}
Meas read(const xi::Measurement& x) {
    Meas m;
    m.id = x.getId();
    m.type = static_cast<int>(x.getType());
    m.side = x.getSide() ? static_cast<int>(*x.getSide()) : -1;
    for (const std::string& p : x.getPropertyNames()) m.properties[p] = x.getProperty(p);
    m.value = x.getValue();
    m.deviation = x.getStandardDeviation();
    m.valid = x.isValid();
    return m;
}
Meas read(const xi::DiscreteMeasurement& x) {
    Meas m;
    m.id = x.getId();
    m.type = static_cast<int>(x.getType());
    m.side = x.getTapChanger() ? static_cast<int>(*x.getTapChanger()) : -1;
    for (const std::string& p : x.getPropertyNames()) m.properties[p] = x.getProperty(p);
    m.valueType = static_cast<int>(x.getValueType());
    m.text = m.valueType == 0 ? mc::str(x.getValueAsBoolean()) : m.valueType == 1 ? mc::str(x.getValueAsInt()) : x.getValueAsString();
    m.valid = x.isValid();
    for (int t = 0; t < 3; ++t)
        if (mc::accepted([&]() { t == 0 ? static_cast<void>(x.getValueAsBoolean()) : t == 1 ? static_cast<void>(x.getValueAsInt()) : static_cast<void>(x.getValueAsString()); }) != (t == m.valueType)) m.text += " and also type " + mc::str(t);
    return m;
}

// every way to create a measurement, on every kind of owner
mc::Space newMeasurements(bool discrete) {
    mc::Space sp;
    sp.name = discrete ? "new-discrete-measurements" : "new-measurements";
    const std::vector<std::string> owners = discrete ? std::vector<std::string>{"two", "three", "switch", "load", "shunt"} : std::vector<std::string>{"load", "line", "two", "three", "busbar"};
    // owner, type (last: not given), side or tap changer (last: none), value, valid
    const std::vector<unsigned> dims = discrete ? std::vector<unsigned>{5, 5, 9, 5, 2} : std::vector<unsigned>{5, 9, 4, 3, 2};
    sp.size = mc::product(dims);
    sp.describe = [=](uint64_t i) {
        const auto d = mc::decode(i, dims);
        return owners[d[0]] + " type " + mc::str(d[1]) + " side " + mc::str(d[2]) + " value " + mc::str(d[3]) + (d[4] != 0 ? " valid" : " not valid");
    };
    sp.run = [=](uint64_t i, mc::Run& run) {
        const auto d = mc::decode(i, dims);
        Network n = build();
        Identifiable& o = owner(n, owners[d[0]], 1);
        const bool transformer = owners[d[0]] == "two" || owners[d[0]] == "three";
        std::string what;
        Meas m;
        m.id = "m";
        m.type = static_cast<int>(d[1]);
        m.side = d[2] == dims[2] - 1 ? -1 : static_cast<int>(d[2]);
        m.valid = d[4] != 0;
        m.properties["k"] = "v";
        bool expected = d[1] != dims[1] - 1;
        if (discrete) {
            o.newExtension<xi::DiscreteMeasurementsAdder>().add();
            auto& e = o.getExtension<xi::DiscreteMeasurements>();
            using DM = xi::DiscreteMeasurement;
            const bool ok = mc::accepted([&]() {
                auto a = e.newDiscreteMeasurement();
                a.setId("m").putProperty("k", "v").setValid(m.valid);
                if (d[1] != dims[1] - 1) a.setType(static_cast<DM::Type>(d[1]));
                if (m.side >= 0) a.setTapChanger(static_cast<DM::TapChanger>(m.side));
                switch (d[3]) {
                    case 0: a.setValue(true); m.valueType = 0; m.text = "true"; break;
                    case 1: a.setValue(-3); m.valueType = 1; m.text = "-3"; break;
                    case 2: a.setValue("text"); m.valueType = 2; m.text = "text"; break;
                    case 3: a.setValue(std::string("string")); m.valueType = 2; m.text = "string"; break;
                    default: break;
                }
                a.add();
            }, &what);
            const int TAP = static_cast<int>(DM::Type::TAP_POSITION), SWITCH = static_cast<int>(DM::Type::SWITCH_POSITION);
            if (d[3] == 4) expected = false;                 // a value is needed: its type is not known otherwise
            if (m.type == SWITCH && owners[d[0]] != "switch") expected = false;
            if (m.type == TAP && (!transformer || m.side < 0)) expected = false;
            if (m.side >= 0) {
                if (!transformer) expected = false;
                else if ((owners[d[0]] == "two") != (m.side < 2)) expected = false;
            }
            MC_CHECK(run, ok == expected, "a discrete measurement is " << (ok ? "accepted" : "refused: " + what));
            MC_CHECK(run, static_cast<bool>(e.getDiscreteMeasurement("m")) == ok && net::rangeSize(e.getDiscreteMeasurements()) == (ok ? 1u : 0u), "a refused discrete measurement is there, or an accepted one is not");
            if (ok) MC_CHECK(run, show(read(e.getDiscreteMeasurement("m").get()), true) == show(m, true), "the discrete measurement is " << show(read(e.getDiscreteMeasurement("m").get()), true) << " instead of " << show(m, true));
        } else {
            o.newExtension<xi::MeasurementsAdder>().add();
            auto& e = o.getExtension<xi::Measurements>();
            using MM = xi::Measurement;
            m.deviation = 0.5;
            const bool ok = mc::accepted([&]() {
                auto a = e.newMeasurement();
                a.setId("m").putProperty("k", "v").setValid(m.valid).setStandardDeviation(0.5);
                if (d[1] != dims[1] - 1) a.setType(static_cast<MM::Type>(d[1]));
                if (m.side >= 0) a.setSide(static_cast<MM::Side>(m.side));
                if (d[3] == 0) { a.setValue(2.5); m.value = 2.5; }
                if (d[3] == 1) a.setValue(NaN);
                a.add();
            }, &what);
            const bool injection = owners[d[0]] == "load" || owners[d[0]] == "busbar";
            if (d[3] != 0 && m.valid) expected = false;
            if (injection && m.side >= 0) expected = false;
            if (!injection && m.side < 0 && m.type != static_cast<int>(MM::Type::OTHER)) expected = false;
            MC_CHECK(run, ok == expected, "a measurement is " << (ok ? "accepted" : "refused: " + what));
            MC_CHECK(run, static_cast<bool>(e.getMeasurement("m")) == ok && net::rangeSize(e.getMeasurements()) == (ok ? 1u : 0u), "a refused measurement is there, or an accepted one is not");
            if (ok) MC_CHECK(run, show(read(e.getMeasurement("m").get()), false) == show(m, false), "the measurement is " << show(read(e.getMeasurement("m").get()), false) << " instead of " << show(m, false));
        }
        run.transition();
        run.trace();
        run.state(mc::hash(discrete ? "discrete" : "measurement", i));
    };
    return sp;
}

// histories of measurements on one object
class Contents : public mc::System {
public:
    explicit Contents(bool discrete) : m_discrete(discrete), m_network(build()), m_owner(owner(m_network, discrete ? "two" : "load", 1)) {
        if (discrete) m_owner.newExtension<xi::DiscreteMeasurementsAdder>().add();
        else m_owner.newExtension<xi::MeasurementsAdder>().add();
    }
    static std::vector<std::string> names() {
        std::vector<std::string> r;
        for (const char* id : {"a", "b", ""})
            for (const char* what : {"valid", "not valid"}) r.push_back(std::string("new ") + what + " '" + id + "'");
        r.push_back("new one without value");
        r.push_back("new one without property name");
        for (const char* which : {"first", "last"})
            for (const char* what : {"remove", "set a value", "set another value", "unset the value", "make valid", "make not valid", "put a property", "put a property without name", "remove a property", "set the deviation"})
                r.push_back(std::string(what) + " of the " + which);
        r.push_back("remove the extension when it is empty");
        return r;
    }
    bool apply(unsigned op, mc::Run& run) override {
        if (!m_present) return false;
        run.transition();
        if (op < 8) return create(op, run);
        op -= 8;
        if (op == 20) {
            if (m_discrete) ext().cleanIfEmpty();
            else mext().cleanIfEmpty();
            m_present = !m_model.empty();
            return true;
        }
        if (m_model.empty()) return false;
        const bool last = op >= 10;
        if (last && m_model.size() == 1) return false;
        Meas& m = last ? m_model.back() : m_model.front();
        const size_t at = last ? m_model.size() - 1 : 0;
        std::string what;
        bool expected = true;
        Meas next = m;
        const auto act = [&](auto& x) {
            switch (op % 10) {
                case 1: value(x, false, next); break;
                case 2: value(x, true, next); break;
                case 3: expected = m_discrete || !next.valid; unset(x, next); break;
                case 4: expected = m_discrete || !std::isnan(next.value); next.valid = true; x.setValid(true); break;
                case 5: next.valid = false; x.setValid(false); break;
                case 6: next.properties["p"] = "q"; x.putProperty("p", "q"); break;
                case 7: expected = false; x.putProperty("", "q"); break;
                case 8: next.properties.erase("k"); x.removeProperty("k"); break;
                default: deviation(x, next); break;
            }
        };
        if (op % 10 == 0) {
            if (m_discrete) { if (last) ext().remove(dat(at)); else dat(at).remove(); }
            else { if (last) mext().remove(mat(at)); else mat(at).remove(); }
            m_model.erase(m_model.begin() + static_cast<long>(at));
            return true;
        }
        const bool ok = mc::accepted([&]() { if (m_discrete) act(dat(at)); else act(mat(at)); }, &what);
        MC_CHECK(run, ok == expected, "modifying a measurement is " << (ok ? "accepted" : "refused: " + what));
        if (ok) m = next;
        return true;
    }
    void check(mc::Run& run) override {
        checkOwner(m_owner, m_owner.getId(), m_present ? std::map<std::string, const Kind*>{{kind().name, &kind()}} : std::map<std::string, const Kind*>{}, run);
        if (!m_present) return;
        std::vector<std::string> expected, got, cgot;
        for (const auto& m : m_model) expected.push_back(show(m, m_discrete));
        if (m_discrete) {
            for (auto& x : ext().getDiscreteMeasurements()) got.push_back(show(read(x), true));
            for (const auto& x : static_cast<const xi::DiscreteMeasurements&>(ext()).getDiscreteMeasurements()) cgot.push_back(show(read(x), true));
        } else {
            for (const auto& x : mext().getMeasurements()) got.push_back(show(read(x), false));
            cgot = got;
        }
        MC_CHECK(run, got == expected && cgot == expected, "the measurements are " << text(got) << " instead of " << text(expected));
        for (const std::string id : {"a", "b", "c"}) {
            std::string one = "none", found = "none", cfound = "none";
            for (const auto& m : m_model)
                if (m.id == id) one = show(m, m_discrete);
            if (m_discrete) {
                if (auto f = ext().getDiscreteMeasurement(id)) found = show(read(f.get()), true);
                if (auto f = static_cast<const xi::DiscreteMeasurements&>(ext()).getDiscreteMeasurement(id)) cfound = show(read(f.get()), true);
            } else {
                if (auto f = mext().getMeasurement(id)) found = show(read(f.get()), false);
                if (auto f = static_cast<const xi::Measurements&>(mext()).getMeasurement(id)) cfound = show(read(f.get()), false);
            }
            MC_CHECK(run, found == one && cfound == one, "the measurement " << id << " is " << found << " instead of " << one);
        }
        for (int t = 0; t < (m_discrete ? 4 : 8); ++t) {
            std::vector<std::string> ofType, gotType;
            for (const auto& m : m_model)
                if (m.type == t) ofType.push_back(show(m, m_discrete));
            if (m_discrete)
                for (auto& x : ext().getDiscreteMeasurements(static_cast<xi::DiscreteMeasurement::Type>(t))) gotType.push_back(show(read(x), true));
            else
                for (auto& x : mext().getMeasurements(static_cast<xi::Measurement::Type>(t))) gotType.push_back(show(read(x), false));
            MC_CHECK(run, gotType == ofType, "the measurements of type " << t << " are " << text(gotType) << " instead of " << text(ofType));
        }
    }
    std::string key() override {
        std::string s = m_present ? "+" : "-";
        for (const auto& m : m_model) s += show(m, m_discrete) + ";";
        return s;
    }

private:
    static std::string text(const std::vector<std::string>& v) {
        std::string s = "[";
        for (const auto& x : v) s += x + "; ";
        return s + "]";
    }
    const Kind& kind() const {
        for (const Kind& k : kinds())
            if (k.name == (m_discrete ? "discreteMeasurements" : "measurements")) return k;
        throw std::logic_error("no such kind");
    }
    xi::DiscreteMeasurements& ext() { return m_owner.getExtension<xi::DiscreteMeasurements>(); }
    xi::Measurements& mext() { return m_owner.getExtension<xi::Measurements>(); }
    xi::DiscreteMeasurement& dat(size_t at) {
        for (auto& x : ext().getDiscreteMeasurements())
            if (at-- == 0) return x;
        throw std::logic_error("measurement lost");
    }
    xi::Measurement& mat(size_t at) {
        // the whole list is constant: go through the lists by type
        const xi::Measurement* wanted = nullptr;
        for (const auto& x : mext().getMeasurements())
            if (at-- == 0) wanted = &x;
        for (int t = 0; t < 8; ++t)
            for (auto& x : mext().getMeasurements(static_cast<xi::Measurement::Type>(t)))
                if (&x == wanted) return x;
        throw std::logic_error("measurement lost");
    }
    bool create(unsigned op, mc::Run& run) {
        Meas m;
        const char* const ids[] = {"a", "b", ""};
        m.id = op < 6 ? ids[op / 2] : "c";
        m.valid = op % 2 == 0;
        m.properties["k"] = "v";
        m.type = m_discrete ? (m.id == "a" ? 0 : 3) : (m.id == "a" ? 1 : 5);
        bool expected = op < 6;
        if (!m.id.empty())
            for (const auto& x : m_model)
                if (x.id == m.id) expected = false;
        std::string what;
        const void* added = nullptr;
        bool ok = false;
        if (m_discrete) {
            if (m.type == 0) m.side = 1;
            m.valueType = m.valid ? 1 : 2;
            m.text = m.valid ? "4" : "t";
            ok = mc::accepted([&]() {
                auto a = ext().newDiscreteMeasurement();
                a.setId(m.id).setType(static_cast<xi::DiscreteMeasurement::Type>(m.type)).setValid(m.valid).putProperty(op == 7 ? "" : "k", "v");
                if (m.side >= 0) a.setTapChanger(static_cast<xi::DiscreteMeasurement::TapChanger>(m.side));
                if (op != 6) { if (m.valid) a.setValue(4); else a.setValue("t"); }
                added = &a.add();
            }, &what);
            if (ok) MC_CHECK(run, m_model.size() < net::rangeSize(ext().getDiscreteMeasurements()) && added == &dat(m_model.size()), "the discrete measurement given back is not the one added");
        } else {
            m.value = m.valid ? 4 : NaN;
            ok = mc::accepted([&]() {
                auto a = mext().newMeasurement();
                a.setId(m.id).setType(static_cast<xi::Measurement::Type>(m.type)).setValid(m.valid).putProperty(op == 7 ? "" : "k", "v");
                if (op != 6 && m.valid) a.setValue(4);
                added = &a.add();
            }, &what);
            if (ok) MC_CHECK(run, m_model.size() < net::rangeSize(mext().getMeasurements()) && added == &mat(m_model.size()), "the measurement given back is not the one added");
        }
        MC_CHECK(run, ok == expected, "a new measurement '" << m.id << "' is " << (ok ? "accepted" : "refused: " + what));
        if (ok) m_model.push_back(m);
        return true;
    }
    static void value(xi::Measurement& x, bool other, Meas& m) { m.value = other ? -1.5 : 7; x.setValue(m.value); }
    static void value(xi::DiscreteMeasurement& x, bool other, Meas& m) {
        m.valueType = other ? 2 : 0;
        m.text = other ? "word" : "false";
        if (other) x.setValue("word");
        else x.setValue(false);
    }
    static void unset(xi::Measurement& x, Meas& m) { m.value = NaN; x.setValue(NaN); }
    static void unset(xi::DiscreteMeasurement& x, Meas& m) { m.valueType = 1; m.text = "-8"; x.setValue(-8); }
    static void deviation(xi::Measurement& x, Meas& m) { m.deviation = 0.25; x.setStandardDeviation(0.25); }
    static void deviation(xi::DiscreteMeasurement& x, Meas& m) { m.valueType = 2; m.text = "std"; x.setValue(std::string("std")); }

    bool m_discrete;
    bool m_present = true;
    Network m_network;
    Identifiable& m_owner;
    std::vector<Meas> m_model;
};

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C23";
    c.level = "model_checking";
    c.assumptions = {"a request may be refused with any exception derived from std::exception",
                     "the regulating terminal of a remote reactive power control is one of the same network"};
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& spaces) {
        spaces.push_back(matrix());
        spaces.push_back(values());
        histories(thorough, spaces);
        variantHistories(thorough, spaces);
        for (const std::string o : {"generator", "load", "line", "three"}) {
            const auto ks = Together::of(o);
            std::vector<std::string> names;
            for (const Kind* k : ks) {
                names.push_back("add " + k->name);
                names.push_back("remove " + k->name);
            }
            unsigned depth = 1;
            uint64_t n = names.size();
            while (n * names.size() <= (thorough ? 600000 : 12000)) {
                n *= names.size();
                ++depth;
            }
            spaces.push_back(mc::sequences("together-" + o, static_cast<unsigned>(names.size()), depth, mc::Queries::NONE, [o]() { return std::unique_ptr<mc::System>(new Together(o)); },
                                           [names](unsigned i) { return names[i]; }));
        }
        const auto probes = Probes::names();
        spaces.push_back(mc::sequences("own-extensions", static_cast<unsigned>(probes.size()), thorough ? 5 : 4, mc::Queries::NONE, []() { return std::unique_ptr<mc::System>(new Probes()); },
                                       [probes](unsigned i) { return probes[i]; }));
        spaces.push_back(newMeasurements(false));
        spaces.push_back(newMeasurements(true));
        const auto contents = Contents::names();
        for (bool d : {false, true})
            spaces.push_back(mc::sequences(d ? "discrete-measurements" : "measurements", static_cast<unsigned>(contents.size()), thorough ? 4 : 3, mc::Queries::NONE,
                                           [d]() { return std::unique_ptr<mc::System>(new Contents(d)); }, [contents](unsigned i) { return contents[i]; }));
    });
}
