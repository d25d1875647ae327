// C26: texts, numbers and dates through the XML layer. Whether a text can be represented is decided by an independent decoder.
#include <cmath>
#include <cstring>
#include <fstream>
#include <limits>

#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/LoadDetailAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnode.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnodeAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/XnodeAdder.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControl.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurements.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurementsAdder.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcAngleDroopActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcOperatorActivePowerRange.hpp>
#include <powsybl/iidm/extensions/iidm/MeasurementAdder.hpp>
#include <powsybl/iidm/extensions/iidm/Measurements.hpp>
#include <powsybl/iidm/extensions/iidm/MeasurementsAdder.hpp>
#include <powsybl/iidm/extensions/iidm/ThreeWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/VoltagePerReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/sld/BusbarSectionPosition.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePosition.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePositionAdder.hpp>
#include <powsybl/xml/XmlStreamReader.hpp>
#include <powsybl/xml/XmlStreamWriter.hpp>

#include "features.hpp"

using namespace powsybl::iidm;  // NOLINT

namespace {

const net::DumpOptions& options() {
    static const net::DumpOptions o = [] { net::DumpOptions d; d.topology = false; d.views = false; d.components = false; return d; }();
    return o;
}

// ---- texts --------------------------------------------------------------------------------------------------------

const std::vector<std::string>& symbols() {
    static const std::vector<std::string> s = {
        "a", " ", "\t", "\n", "\r", "<", ">", "&", "\"", "'", ";", "]", "#", "%", "_", ",", "1",
        "\xC3\xA9", "\xC2\x85", "\xC2\xA0", "\xE2\x80\xA8", "\xEF\xBB\xBF", "\xEF\xBF\xBD", "\xF0\x9F\x98\x80", "\x7F",   // e acute, NEL, nbsp, LS, BOM, U+FFFD, U+1F600, DEL
        "\x01", "\x1F", std::string(1, '\0'), "\x80", "\xC3", "\xC0\xAF", "\xEF\xBF\xBE", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xFF"};   // not representable
    return s;
}

uint64_t textCount(unsigned length) {
    uint64_t n = 1, total = 1;
    for (unsigned k = 0; k < length; ++k) { n *= symbols().size(); total += n; }
    return total;
}

std::string textAt(uint64_t i) {
    std::string r;
    uint64_t n = 1;
    unsigned length = 0;
    while (i >= n) { i -= n; n *= symbols().size(); ++length; }
    for (unsigned k = 0; k < length; ++k) { r += symbols()[i % symbols().size()]; i /= symbols().size(); }
    return r;
}

std::string shown(const std::string& s) {
    std::string r = "'";
    char b[8];
    for (unsigned char c : s) {
        if (c >= 0x20 && c < 0x7F) r += static_cast<char>(c);
        else { snprintf(b, sizeof b, "\\x%02X", c); r += b; }
    }
    return r + "'";
}

// well formed UTF-8 made of characters of XML 1.0
bool representable(const std::string& s) {
    size_t i = 0;
    while (i < s.size()) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        unsigned len = c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : 0;
        if (len == 0 || i + len > s.size()) return false;
        unsigned long u = len == 1 ? c : c & (0x7FU >> len);
        for (unsigned k = 1; k < len; ++k) {
            unsigned char x = static_cast<unsigned char>(s[i + k]);
            if ((x & 0xC0U) != 0x80U) return false;
            u = (u << 6U) | (x & 0x3FU);
        }
        static const unsigned long MINIMUM[] = {0, 0, 0x80, 0x800, 0x10000};
        if (u < MINIMUM[len]) return false;
        if (!(u == 9 || u == 10 || u == 13 || (u >= 0x20 && u <= 0xD7FF) || (u >= 0xE000 && u <= 0xFFFD) || (u >= 0x10000 && u <= 0x10FFFF))) return false;
        i += len;
    }
    return true;
}

using Text = std::string;
struct TextPosition {
    std::string name;
    std::function<Network(const Text&)> build;   // may refuse the text
};

const std::vector<TextPosition>& textPositions() {
    static const std::vector<TextPosition> all = [] {
        std::vector<TextPosition> p;
        using Edit = std::function<void(Network&, const Text&)>;
        auto edit = [&p](const std::string& name, const Edit& e) { p.push_back({name, [e](const Text& t) { Network n = features::host(); e(n, t); return n; }}); };
        p.push_back({"id of the network", [](const Text& t) { Network n(t, "verif"); n.setCaseDate(stdcxx::DateTime::parse("2020-01-02T03:04:05.000Z")); return n; }});
        p.push_back({"source format", [](const Text& t) { Network n("id", t); n.setCaseDate(stdcxx::DateTime::parse("2020-01-02T03:04:05.000Z")); return n; }});
        for (const auto& m : features::minimal()) {
            const features::Minimal* k = &m;
            auto make = [k](Network& n) -> Identifiable& { return k->build(n, nullptr, false); };
            if (m.kind != "network") {
                edit("id of a " + m.kind, [k](Network& n, const Text& t) {
                    struct Restore { ~Restore() { features::objectId() = "X"; } } restore;
                    features::objectId() = t;
                    k->build(n, nullptr, false);
                });
                edit("name of a " + m.kind, [k](Network& n, const Text& t) { k->build(n, &t, false); });
            }
            edit("alias of a " + m.kind, [make](Network& n, const Text& t) { make(n).addAlias(t); });
            edit("typed alias of a " + m.kind, [make](Network& n, const Text& t) { make(n).addAlias(t, "type"); });
            edit("alias type of a " + m.kind, [make](Network& n, const Text& t) { make(n).addAlias("alias", t); });
            edit("property name of a " + m.kind, [make](Network& n, const Text& t) { make(n).setProperty(t, "value"); });
            edit("property value of a " + m.kind, [make](Network& n, const Text& t) { make(n).setProperty("name", t); });
        }
        edit("tso", [](Network& n, const Text& t) { n.newSubstation().setId("X").setTso(t).add(); });
        edit("geographical tag", [](Network& n, const Text& t) { n.newSubstation().setId("X").addGeographicalTag(t).add(); });
        edit("second geographical tag", [](Network& n, const Text& t) { n.newSubstation().setId("X").addGeographicalTag("tag").addGeographicalTag(t).add(); });
        edit("xnode of a dangling line", [](Network& n, const Text& t) { n.getVoltageLevel("VB").newDanglingLine().setId("X").setBus("B1").setConnectableBus("B1").setP0(1).setQ0(2).setR(1).setX(1).setG(0).setB(0).setUcteXnodeCode(t).add(); });
        for (int k = 0; k < 5; ++k) {
            static const char* const NAMES[] = {"xnode of a tie line", "id of a half line 1", "name of a half line 1", "id of a half line 2", "name of a half line 2"};
            edit(NAMES[k], [k](Network& n, const Text& t) {
                auto a = n.newTieLine();
                a.setId("X").setUcteXnodeCode(k == 0 ? t : "xnode").setVoltageLevel1("VB").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VR").setBus2("R1").setConnectableBus2("R1");
                auto h1 = a.newHalfLine1();
                h1.setId(k == 1 ? t : "half 1").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0);
                if (k == 2) h1.setName(t);
                h1.add();
                auto h2 = a.newHalfLine2();
                h2.setId(k == 3 ? t : "half 2").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0);
                if (k == 4) h2.setName(t);
                h2.add();
                a.add();
            });
        }
        auto line = [](Network& n) -> Line& { return n.newLine().setId("X").setVoltageLevel1("VB").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VR").setBus2("R1").setConnectableBus2("R1").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add(); };
        edit("temporary limit", [line](Network& n, const Text& t) { line(n).newCurrentLimits1().setPermanentLimit(10).beginTemporaryLimit().setName(t).setAcceptableDuration(60).setValue(20).endTemporaryLimit().add(); });
        edit("temporary limit of power", [line](Network& n, const Text& t) { line(n).newActivePowerLimits2().setPermanentLimit(10).beginTemporaryLimit().setName("first").setAcceptableDuration(60).setValue(20).endTemporaryLimit().beginTemporaryLimit().setName(t).setAcceptableDuration(30).setValue(30).endTemporaryLimit().add(); });
        edit("id of a bus with equipment", [](Network& n, const Text& t) {
            VoltageLevel& v = n.getSubstation("S2").newVoltageLevel().setId("VX").setNominalV(400).setTopologyKind(TopologyKind::BUS_BREAKER).add();
            v.getBusBreakerView().newBus().setId(t).add();
            v.getBusBreakerView().newBus().setId("other").add();
            v.getBusBreakerView().newSwitch().setId("SX").setBus1("other").setBus2(t).setOpen(false).add();
            v.newLoad().setId("X").setBus(t).setConnectableBus(t).setP0(1).setQ0(1).add();
            n.newLine().setId("LX").setVoltageLevel1("VX").setBus1(t).setConnectableBus1(t).setVoltageLevel2("VX").setConnectableBus2(t).setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add();
        });
        edit("id of a voltage level with buses", [](Network& n, const Text& t) {
            VoltageLevel& v = n.getSubstation("S2").newVoltageLevel().setId(t).setNominalV(400).setTopologyKind(TopologyKind::NODE_BREAKER).add();
            v.getNodeBreakerView().newBusbarSection().setId("BX").setNode(0).add();
            v.getNodeBreakerView().newBreaker().setId("SX").setNode1(0).setNode2(1).add();
            v.newLoad().setId("X").setNode(1).setP0(1).setQ0(1).add();
            for (Bus& b : v.getBusView().getBuses()) b.setV(401).setAngle(1);
            n.newLine().setId("LX").setVoltageLevel1(t).setNode1(2).setVoltageLevel2("VR").setBus2("R1").setConnectableBus2("R1").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add();
        });
        edit("id of a converter station of a HVDC line", [](Network& n, const Text& t) {
            n.getVoltageLevel("VN").newVscConverterStation().setId(t).setNode(1).setLossFactor(1).setVoltageSetpoint(400).setVoltageRegulatorOn(true).add();
            n.getVoltageLevel("VR").newVscConverterStation().setId("C2").setBus("R1").setConnectableBus("R1").setLossFactor(0).setReactivePowerSetpoint(400).setVoltageRegulatorOn(false).add();
            n.newHvdcLine().setId("X").setR(1).setNominalV(320).setMaxP(3).setActivePowerSetpoint(2).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER).setConverterStationId1(t).setConverterStationId2("C2").add();
        });
        edit("id of the regulated equipment", [](Network& n, const Text& t) {
            Load& l = n.getVoltageLevel("VB").newLoad().setId(t).setBus("B2").setConnectableBus("B2").setP0(1).setQ0(1).add();
            n.getVoltageLevel("VB").newGenerator().setId("X").setBus("B1").setConnectableBus("B1").setMinP(0).setMaxP(10).setTargetP(5).setTargetV(400).setVoltageRegulatorOn(true).setRegulatingTerminal(stdcxx::ref(l.getTerminal())).add();
        });
        namespace ext = extensions;
        edit("code of a xnode", [](Network& n, const Text& t) { n.getVoltageLevel("VB").newDanglingLine().setId("X").setBus("B1").setConnectableBus("B1").setP0(1).setQ0(2).setR(1).setX(1).setG(0).setB(0).add().newExtension<ext::entsoe::XnodeAdder>().withCode(t).add(); });
        // the format has no place for the names of the lines of a merged xnode
        edit("code of a merged xnode", [line](Network& n, const Text& t) { line(n).newExtension<ext::entsoe::MergedXnodeAdder>().withCode(t).withLine1Name("").withLine2Name("").withRdp(0.25).withXdp(0.75).withXnodeP1(1).withXnodeQ1(2).withXnodeP2(3).withXnodeQ2(4).add(); });
        edit("feeder", [](Network& n, const Text& t) { n.getLoad("K").newExtension<ext::sld::ConnectablePositionAdder>().newFeeder().withName(t).withOrder(7).withDirection(ext::sld::ConnectablePosition::Direction::TOP).add().add(); });
        edit("feeder 2", [line](Network& n, const Text& t) { line(n).newExtension<ext::sld::ConnectablePositionAdder>().newFeeder1().withName("f1").withOrder(1).withDirection(ext::sld::ConnectablePosition::Direction::TOP).add().newFeeder2().withName(t).withOrder(7).withDirection(ext::sld::ConnectablePosition::Direction::TOP).add().add(); });
        for (int k = 0; k < 3; ++k) {
            static const char* const NAMES[] = {"id of a measurement", "property name of a measurement", "property value of a measurement"};
            edit(NAMES[k], [line, k](Network& n, const Text& t) {
                Line& l = line(n);
                l.newExtension<ext::iidm::MeasurementsAdder>().add();
                l.getExtension<ext::iidm::Measurements>().newMeasurement().setId(k == 0 ? t : "id").setType(ext::iidm::Measurement::Type::ACTIVE_POWER).setSide(ext::iidm::Measurement::Side::TWO).setValue(12.5).setValid(true).putProperty(k == 1 ? t : "name", k == 2 ? t : "value").add();
            });
        }
        for (int k = 0; k < 4; ++k) {
            static const char* const NAMES[] = {"id of a discrete measurement", "property name of a discrete measurement", "property value of a discrete measurement", "value of a discrete measurement"};
            edit(NAMES[k], [k](Network& n, const Text& t) {
                Switch& s = n.getSwitch("BRK");
                s.newExtension<ext::iidm::DiscreteMeasurementsAdder>().add();
                s.getExtension<ext::iidm::DiscreteMeasurements>().newDiscreteMeasurement().setId(k == 0 ? t : "id").setType(ext::iidm::DiscreteMeasurement::Type::OTHER).setValue(k == 3 ? t : "on").setValid(true).putProperty(k == 1 ? t : "name", k == 2 ? t : "value").add();
            });
        }
        return p;
    }();
    return all;
}

void roundTrip(const Network& n, bool indent, bool mustFail, bool mayFail, mc::Run& run) {
    run.count();
    net::Snapshot before = net::dump(n, options());
    converter::ExportOptions o;
    o.setIndent(indent);
    std::string xml, what;
    bool exported = mc::accepted([&] { xml = net::writeXml(n, o); }, &what);
    std::string d = net::diff(before, net::dump(n, options()));
    MC_CHECK(run, d.empty(), "the export changed the network: " << d);
    if (mustFail) {
        MC_CHECK(run, !exported, "a text or a value that cannot be represented was exported");
        run.trace();
        return;
    }
    if (!exported && mayFail) { run.trace(); return; }
    MC_CHECK(run, exported, "the export fails: " << what);
    run.distinct(xml);
    std::unique_ptr<Network> r;
    MC_CHECK(run, mc::accepted([&] { r.reset(new Network(net::readXml(xml))); }, &what), "the document is not readable: " << what);
    d = net::diff(before, net::dump(*r, options()));
    MC_CHECK(run, d.empty(), "different: " << d);
    run.trace();
}

mc::Space texts(const std::string& name, const std::vector<const TextPosition*>& positions, unsigned length) {
    mc::Space s;
    s.name = name + ", every text of up to " + mc::str(length) + " characters";
    uint64_t nTexts = textCount(length);
    s.size = positions.size() * nTexts;
    s.describe = [positions, nTexts](uint64_t i) { return positions[i / nTexts]->name + " " + shown(textAt(i % nTexts)); };
    s.run = [positions, nTexts](uint64_t i, mc::Run& run) {
        const TextPosition& p = *positions[i / nTexts];
        std::string t = textAt(i % nTexts);
        std::unique_ptr<Network> n;
        if (!mc::accepted([&] { n.reset(new Network(p.build(t))); })) return;   // the text is not accepted
        bool tag = p.name.find("geographical tag") != std::string::npos && t.find(',') != std::string::npos;
        for (int k = 0; k < 2; ++k) roundTrip(*n, k == 1, !representable(t), tag, run);
    };
    return s;
}

// the stream classes alone
std::string writeText(const std::string& t, int where, bool indent) {
    std::ostringstream out;
    powsybl::xml::XmlStreamWriter w(out, indent);
    w.writeStartDocument("UTF-8", "1.0");
    w.writeStartElement("", "root");
    if (where == 0) w.writeAttribute("a", t);
    if (where == 1) w.writeOptionalAttribute("a", t, "absent");
    w.writeStartElement("", "child");
    if (where == 2) w.writeCharacters(t);
    w.writeEndElement();
    w.writeEndElement();
    w.writeEndDocument();
    return out.str();
}

mc::Space streamTexts(unsigned length) {
    mc::Space s;
    s.name = "texts of the XML streams, up to " + mc::str(length) + " characters";
    uint64_t nTexts = textCount(length);
    s.size = nTexts * 3;
    s.describe = [](uint64_t i) { return std::string(i % 3 == 0 ? "attribute " : i % 3 == 1 ? "optional attribute " : "characters ") + shown(textAt(i / 3)); };
    s.run = [](uint64_t i, mc::Run& run) {
        std::string t = textAt(i / 3);
        int where = static_cast<int>(i % 3);
        for (bool indent : {false, true}) {
            run.count();
            std::string xml, what;
            bool written = mc::accepted([&] { xml = writeText(t, where, indent); }, &what);
            MC_CHECK(run, written == representable(t), (written ? "a text that cannot be represented was written" : "the text was refused: ") << what);
            if (!written) { run.trace(); continue; }
            run.distinct(xml);
            std::istringstream in(xml);
            std::string got;
            bool read = mc::accepted([&] {
                powsybl::xml::XmlStreamReader r(in);
                if (where < 2) got = r.getAttributeValue("a");
                else {
                    r.readUntilNextElement();
                    got = r.readCharacters();
                }
            }, &what);
            MC_CHECK(run, read, "the text is not readable: " << what);
            MC_CHECK(run, got == t, "read back as " << shown(got));
            run.trace();
        }
    };
    return s;
}

// ---- numbers ------------------------------------------------------------------------------------------------------

std::vector<double> numbers(bool thorough) {
    const double MAXD = std::numeric_limits<double>::max(), MIND = std::numeric_limits<double>::min(), DENORM = std::numeric_limits<double>::denorm_min(), INF = std::numeric_limits<double>::infinity();
    std::vector<double> r = {0.0, -0.0, DENORM, -DENORM, std::nextafter(MIND, 0), MIND, -MIND, MAXD, -MAXD, std::nextafter(MAXD, 0), INF, -INF, std::numeric_limits<double>::quiet_NaN(),
        0.1, std::nextafter(0.1, 1), 1.0 / 3, -2.0 / 3, 1, std::nextafter(1, 2), std::nextafter(1, 0), 1e-5, 9.9999999999999991e-5, 123456.7, 1234567.8, 123456789.12345679, 9007199254740993.0, 4503599627370497.5, 1e15, 1e16, 1e17, 1e22, 1e23, -123.456, 3.141592653589793, 100, 400, 0.5, 2, 5e-7, 1e-308};
    if (thorough) for (int e = -1074; e < 1024; e += 7) for (double m : {1.0, 1.9999999999999998, 1.3333333333333333}) { double v = std::ldexp(m, e); if (std::isfinite(v)) { r.push_back(v); r.push_back(-v); } }
    return r;
}

using Edit = std::function<void(Network&, double)>;
struct NumberPosition { std::string name; Edit edit; };

const std::vector<NumberPosition>& numberPositions() {
    static const std::vector<NumberPosition> all = [] {
        std::vector<NumberPosition> p;
        namespace ext = extensions;
#define AT(name, expr) p.push_back({name, [](Network& n, double v) { expr; }})
#define NUM(object, setter) AT(#object " " #setter, object.setter(v))
        NUM(n.getLoad("LD1"), setP0); NUM(n.getLoad("LD1"), setQ0); NUM(n.getLoad("LDB1"), setP0);
        NUM(n.getLoad("LD1").getTerminal(), setP); NUM(n.getLoad("LDB1").getTerminal(), setQ);
        NUM(n.getBattery("BAT1"), setP0); NUM(n.getBattery("BAT1"), setQ0); NUM(n.getBattery("BAT1"), setMinP); NUM(n.getBattery("BAT1"), setMaxP);
        NUM(n.getGenerator("G1"), setTargetP); NUM(n.getGenerator("G1"), setTargetQ); NUM(n.getGenerator("G1"), setTargetV); NUM(n.getGenerator("GB1"), setTargetQ); NUM(n.getGenerator("GB1"), setTargetV);
        NUM(n.getGenerator("G1"), setMinP); NUM(n.getGenerator("G1"), setMaxP); NUM(n.getGenerator("G1"), setRatedS);
        NUM(n.getDanglingLine("DL1"), setP0); NUM(n.getDanglingLine("DL1"), setQ0); NUM(n.getDanglingLine("DL1"), setR); NUM(n.getDanglingLine("DL1"), setX); NUM(n.getDanglingLine("DL1"), setG); NUM(n.getDanglingLine("DL1"), setB);
        NUM(n.getDanglingLine("DL1").getGeneration().get(), setTargetP); NUM(n.getDanglingLine("DL1").getGeneration().get(), setTargetQ); NUM(n.getDanglingLine("DL1").getGeneration().get(), setTargetV);
        NUM(n.getDanglingLine("DL1").getGeneration().get(), setMinP); NUM(n.getDanglingLine("DL1").getGeneration().get(), setMaxP);
        NUM(n.getLine("L1"), setR); NUM(n.getLine("L1"), setX); NUM(n.getLine("L1"), setG1); NUM(n.getLine("L1"), setB1); NUM(n.getLine("L1"), setG2); NUM(n.getLine("L1"), setB2);
        NUM(n.getLine("L1").getTerminal1(), setP); NUM(n.getLine("L1").getTerminal1(), setQ); NUM(n.getLine("L1").getTerminal2(), setP); NUM(n.getLine("L1").getTerminal2(), setQ);
#define HALF(h) NUM(dynamic_cast<TieLine&>(n.getLine("TIE1")).h(), setR); NUM(dynamic_cast<TieLine&>(n.getLine("TIE1")).h(), setX); NUM(dynamic_cast<TieLine&>(n.getLine("TIE1")).h(), setG1); NUM(dynamic_cast<TieLine&>(n.getLine("TIE1")).h(), setB1); NUM(dynamic_cast<TieLine&>(n.getLine("TIE1")).h(), setG2); NUM(dynamic_cast<TieLine&>(n.getLine("TIE1")).h(), setB2)
        HALF(getHalf1); HALF(getHalf2);
        NUM(n.getTwoWindingsTransformer("T1"), setR); NUM(n.getTwoWindingsTransformer("T1"), setX); NUM(n.getTwoWindingsTransformer("T1"), setG); NUM(n.getTwoWindingsTransformer("T1"), setB);
        NUM(n.getTwoWindingsTransformer("T1"), setRatedU1); NUM(n.getTwoWindingsTransformer("T1"), setRatedU2); NUM(n.getTwoWindingsTransformer("T1"), setRatedS);
#define LEG(l) NUM(n.getThreeWindingsTransformer("T3").l(), setR); NUM(n.getThreeWindingsTransformer("T3").l(), setX); NUM(n.getThreeWindingsTransformer("T3").l(), setG); NUM(n.getThreeWindingsTransformer("T3").l(), setB); NUM(n.getThreeWindingsTransformer("T3").l(), setRatedU); NUM(n.getThreeWindingsTransformer("T3").l(), setRatedS); NUM(n.getThreeWindingsTransformer("T3").l().getTerminal(), setP); NUM(n.getThreeWindingsTransformer("T3").l().getTerminal(), setQ)
        LEG(getLeg1); LEG(getLeg2); LEG(getLeg3);
        NUM(n.getTwoWindingsTransformer("T1").getRatioTapChanger(), setTargetV); NUM(n.getTwoWindingsTransformer("T1").getRatioTapChanger(), setTargetDeadband);
        NUM(n.getTwoWindingsTransformer("T1").getPhaseTapChanger(), setRegulationValue); NUM(n.getTwoWindingsTransformer("T1").getPhaseTapChanger(), setTargetDeadband);
        NUM(n.getThreeWindingsTransformer("T3").getLeg3().getRatioTapChanger(), setTargetV); NUM(n.getThreeWindingsTransformer("T3").getLeg3().getRatioTapChanger(), setTargetDeadband);
        NUM(n.getThreeWindingsTransformer("T3").getLeg1().getPhaseTapChanger(), setRegulationValue); NUM(n.getThreeWindingsTransformer("T3").getLeg1().getPhaseTapChanger(), setTargetDeadband);
#define STEP(s) NUM(s, setRho); NUM(s, setR); NUM(s, setX); NUM(s, setG); NUM(s, setB)
        STEP(n.getTwoWindingsTransformer("T1").getRatioTapChanger().getStep(0)); STEP(n.getTwoWindingsTransformer("T1").getPhaseTapChanger().getStep(5)); NUM(n.getTwoWindingsTransformer("T1").getPhaseTapChanger().getStep(3), setAlpha);
        STEP(n.getThreeWindingsTransformer("T3").getLeg2().getRatioTapChanger().getStep(-1)); STEP(n.getThreeWindingsTransformer("T3").getLeg1().getPhaseTapChanger().getStep(3)); NUM(n.getThreeWindingsTransformer("T3").getLeg1().getPhaseTapChanger().getStep(3), setAlpha);
        NUM(n.getShuntCompensator("SH1"), setTargetV); NUM(n.getShuntCompensator("SH1"), setTargetDeadband); NUM(n.getShuntCompensator("SH2"), setTargetV); NUM(n.getShuntCompensator("SH1").getTerminal(), setQ);
        NUM(n.getShuntCompensator("SH1").getModel<ShuntCompensatorLinearModel>(), setBPerSection); NUM(n.getShuntCompensator("SH1").getModel<ShuntCompensatorLinearModel>(), setGPerSection);
        AT("section b", n.getShuntCompensator("SH2").getModel<ShuntCompensatorNonLinearModel>().getAllSections().begin()->setB(v)); AT("section g", n.getShuntCompensator("SH2").getModel<ShuntCompensatorNonLinearModel>().getAllSections().begin()->setG(v));
        NUM(n.getStaticVarCompensator("SVC1"), setBmin); NUM(n.getStaticVarCompensator("SVC1"), setBmax); NUM(n.getStaticVarCompensator("SVC1"), setVoltageSetpoint); NUM(n.getStaticVarCompensator("SVC1"), setReactivePowerSetpoint); NUM(n.getStaticVarCompensator("SVCB2"), setVoltageSetpoint); NUM(n.getStaticVarCompensator("SVCB2"), setReactivePowerSetpoint);
        NUM(n.getVscConverterStation("VSC1"), setLossFactor); NUM(n.getVscConverterStation("VSC1"), setVoltageSetpoint); NUM(n.getVscConverterStation("VSC1"), setReactivePowerSetpoint); NUM(n.getVscConverterStation("VSCB1"), setVoltageSetpoint);
        NUM(n.getLccConverterStation("LCC1"), setLossFactor); NUM(n.getLccConverterStation("LCC1"), setPowerFactor); NUM(n.getLccConverterStation("LCC1").getTerminal(), setP);
        NUM(n.getHvdcLine("HVDC1"), setR); NUM(n.getHvdcLine("HVDC1"), setNominalV); NUM(n.getHvdcLine("HVDC1"), setMaxP); NUM(n.getHvdcLine("HVDC1"), setActivePowerSetpoint);
        NUM(n.getVoltageLevel("VN1"), setNominalV); NUM(n.getVoltageLevel("VB3"), setNominalV); NUM(n.getVoltageLevel("VN1"), setLowVoltageLimit); NUM(n.getVoltageLevel("VN1"), setHighVoltageLimit); NUM(n.getVoltageLevel("VN2"), setLowVoltageLimit); NUM(n.getVoltageLevel("VN2"), setHighVoltageLimit);
        NUM(n.getVoltageLevel("VB1").getBusBreakerView().getBus("B1").get(), setV); NUM(n.getVoltageLevel("VB1").getBusBreakerView().getBus("B1").get(), setAngle);
        AT("v of a calculated bus", n.getVoltageLevel("VN1").getBusView().getBuses().begin()->setV(v)); AT("angle of a calculated bus", n.getVoltageLevel("VN1").getBusView().getBuses().begin()->setAngle(v));
        NUM(n.getLine("L1").getCurrentLimits1().get(), setPermanentLimit); NUM(n.getDanglingLine("DL1").getApparentPowerLimits().get(), setPermanentLimit); NUM(n.getThreeWindingsTransformer("T3").getLeg2().getActivePowerLimits().get(), setPermanentLimit);
        AT("temporary limit", n.getLine("L2").newCurrentLimits1().setPermanentLimit(1e-320).beginTemporaryLimit().setName("t").setAcceptableDuration(60).setValue(v).endTemporaryLimit().add());
        AT("minQ", n.getGenerator("G1").newMinMaxReactiveLimits().setMinQ(v).setMaxQ(std::numeric_limits<double>::infinity()).add()); AT("maxQ", n.getGenerator("G1").newMinMaxReactiveLimits().setMinQ(-std::numeric_limits<double>::infinity()).setMaxQ(v).add());
        AT("p of a curve", n.getGenerator("G1").newReactiveCapabilityCurve().beginPoint().setP(7.5).setMinQ(-1).setMaxQ(1).endPoint().beginPoint().setP(v).setMinQ(-2).setMaxQ(2).endPoint().add());
        AT("minQ of a curve", n.getVscConverterStation("VSC1").newReactiveCapabilityCurve().beginPoint().setP(7.5).setMinQ(-1).setMaxQ(1).endPoint().beginPoint().setP(8).setMinQ(v).setMaxQ(std::numeric_limits<double>::infinity()).endPoint().add());
        AT("maxQ of a curve", n.getBattery("BAT1").newReactiveCapabilityCurve().beginPoint().setP(7.5).setMinQ(-1).setMaxQ(1).endPoint().beginPoint().setP(8).setMinQ(-std::numeric_limits<double>::infinity()).setMaxQ(v).endPoint().add());
        AT("ratedU0", n.getSubstation("S1").newThreeWindingsTransformer().setId("T9").setRatedU0(v).newLeg1().setR(1).setX(2).setG(0).setB(0).setRatedU(400).setVoltageLevel("VB3").setBus("B5").setConnectableBus("B5").add()
            .newLeg2().setR(1).setX(2).setG(0).setB(0).setRatedU(225).setVoltageLevel("VB3").setBus("B5").setConnectableBus("B5").add().newLeg3().setR(1).setX(2).setG(0).setB(0).setRatedU(20).setVoltageLevel("VB3").setBus("B5").setConnectableBus("B5").add().add());
#define EXT(object, Type, setter) NUM(object.getExtension<Type>(), setter)
        EXT(n.getLoad("LD1"), ext::LoadDetail, setFixedActivePower); EXT(n.getLoad("LD1"), ext::LoadDetail, setFixedReactivePower); EXT(n.getLoad("LD1"), ext::LoadDetail, setVariableActivePower); EXT(n.getLoad("LD1"), ext::LoadDetail, setVariableReactivePower);
        EXT(n.getGenerator("G1"), ext::iidm::ActivePowerControl, setDroop); EXT(n.getGenerator("G1"), ext::iidm::CoordinatedReactiveControl, setQPercent);
        EXT(n.getHvdcLine("HVDC1"), ext::iidm::HvdcAngleDroopActivePowerControl, setDroop); EXT(n.getHvdcLine("HVDC1"), ext::iidm::HvdcAngleDroopActivePowerControl, setP0);
        EXT(n.getHvdcLine("HVDC1"), ext::iidm::HvdcOperatorActivePowerRange, setOprFromCS1toCS2); EXT(n.getHvdcLine("HVDC1"), ext::iidm::HvdcOperatorActivePowerRange, setOprFromCS2toCS1);
        EXT(n.getStaticVarCompensator("SVC1"), ext::iidm::VoltagePerReactivePowerControl, setSlope);
        EXT(n.getLine("TIE1"), ext::entsoe::MergedXnode, setRdp); EXT(n.getLine("TIE1"), ext::entsoe::MergedXnode, setXdp); EXT(n.getLine("TIE1"), ext::entsoe::MergedXnode, setXnodeP1); EXT(n.getLine("TIE1"), ext::entsoe::MergedXnode, setXnodeQ1); EXT(n.getLine("TIE1"), ext::entsoe::MergedXnode, setXnodeP2); EXT(n.getLine("TIE1"), ext::entsoe::MergedXnode, setXnodeQ2);
        AT("value of a measurement", n.getLine("L1").getExtension<ext::iidm::Measurements>().getMeasurement("M1").get().setValue(v)); AT("deviation of a measurement", n.getLine("L1").getExtension<ext::iidm::Measurements>().getMeasurement("M1").get().setStandardDeviation(v));
        AT("value of a measurement created", n.getLine("L1").getExtension<ext::iidm::Measurements>().newMeasurement().setId("M9").setType(ext::iidm::Measurement::Type::CURRENT).setSide(ext::iidm::Measurement::Side::ONE).setValid(true).setValue(v).setStandardDeviation(std::isnan(v) ? v : std::abs(v)).add());
        return p;
    }();
    return all;
}

mc::Space numericPositions(bool thorough) {
    mc::Space s;
    s.name = "numbers in every position";
    auto values = numbers(thorough);
    s.size = numberPositions().size() * values.size();
    s.describe = [values](uint64_t i) { return numberPositions()[i / values.size()].name + " " + mc::str(values[i % values.size()]); };
    s.run = [values](uint64_t i, mc::Run& run) {
        net::FullOptions o;
        o.aliases = false;
        o.stateValues = false;
        Network n = net::full(o);
        if (!mc::accepted([&] { numberPositions()[i / values.size()].edit(n, values[i % values.size()]); })) return;
        // a step whose values are unset cannot be represented
        const bool unset = std::isnan(values[i % values.size()]) && numberPositions()[i / values.size()].name.find("getStep(") != std::string::npos;
        roundTrip(n, i % 2 == 1, unset, false, run);
    };
    return s;
}

uint64_t bits(double d) { uint64_t u; std::memcpy(&u, &d, sizeof u); return u; }

// every exponent x sign x patterns of the mantissa
mc::Space streamNumbers(bool thorough) {
    mc::Space s;
    s.name = "numbers of the XML streams";
    std::vector<uint64_t> mantissas = {0, 1, 2, 3, 0xFFFFFFFFFFFFFULL, 0xFFFFFFFFFFFFEULL, 0x5555555555555ULL, 0xAAAAAAAAAAAAAULL, 0x8000000000000ULL, 0x7FFFFFFFFFFFFULL, 0x999999999999AULL, 0x921FB54442D18ULL};
    if (thorough) for (unsigned b = 2; b < 52; ++b) { mantissas.push_back(1ULL << b); mantissas.push_back((1ULL << b) - 1); mantissas.push_back(0xFFFFFFFFFFFFFULL & ~(1ULL << b)); }
    s.size = mantissas.size() * 2048;
    s.describe = [mantissas](uint64_t i) { return "exponent " + mc::str(i / mantissas.size()) + " mantissa " + mc::str(mantissas[i % mantissas.size()]); };
    s.run = [mantissas](uint64_t i, mc::Run& run) {
        for (uint64_t sign : {0ULL, 1ULL}) {
            uint64_t u = (sign << 63U) | ((i / mantissas.size()) << 52U) | mantissas[i % mantissas.size()];
            double d;
            std::memcpy(&d, &u, sizeof d);
            run.count();
            std::ostringstream out;
            {
                powsybl::xml::XmlStreamWriter w(out, false);
                w.writeStartDocument("UTF-8", "1.0");
                w.writeStartElement("", "root");
                w.writeAttribute("a", d);
                w.writeOptionalAttribute("b", d);
                w.writeOptionalAttribute("c", d, 1.25);
                w.writeEndElement();
                w.writeEndDocument();
            }
            run.distinct(out.str());
            std::istringstream in(out.str());
            powsybl::xml::XmlStreamReader r(in);
            double got[3] = {r.getOptionalAttributeValue("a", std::numeric_limits<double>::quiet_NaN()), r.getOptionalAttributeValue("b", std::numeric_limits<double>::quiet_NaN()), r.getOptionalAttributeValue("c", std::isnan(d) ? d : 1.25)};
            for (double g : got) MC_CHECK(run, bits(g) == bits(d) || (std::isnan(d) && std::isnan(g)), mc::str(d) << " read back as " << mc::str(g));
            if (!std::isnan(d)) MC_CHECK(run, bits(r.getAttributeValue<double>("a")) == bits(d), mc::str(d) << " read back differently");
            run.trace();
        }
    };
    return s;
}

// ---- integers -----------------------------------------------------------------------------------------------------

mc::Space integers() {
    using E = std::function<void(Network&, long long)>;
    static const std::vector<std::pair<std::string, E>> positions = [] {
        std::vector<std::pair<std::string, E>> p;
        namespace ext = extensions;
#define INT(name, expr) p.push_back({name, [](Network& n, long long v) { expr; }})
        INT("forecast distance", n.setForecastDistance(static_cast<int>(v)));
        INT("low tap position", n.getTwoWindingsTransformer("T1").getRatioTapChanger().setLowTapPosition(v));
        INT("low tap position of a phase tap changer", n.getThreeWindingsTransformer("T3").getLeg1().getPhaseTapChanger().setLowTapPosition(v));
        INT("acceptable duration", n.getLine("L2").newCurrentLimits1().setPermanentLimit(10).beginTemporaryLimit().setName("t").setAcceptableDuration(static_cast<unsigned long>(v)).setValue(20).endTemporaryLimit().add());
        INT("maximum section count", n.getShuntCompensator("SH1").getModel<ShuntCompensatorLinearModel>().setMaximumSectionCount(static_cast<unsigned long>(v)));
        INT("section count", auto& m = n.getShuntCompensator("SH1").getModel<ShuntCompensatorLinearModel>(); m.setMaximumSectionCount(2147483647UL); n.getShuntCompensator("SH1").setSectionCount(static_cast<unsigned long>(v)));
        INT("order of a feeder", n.getLoad("LD1").getExtension<ext::sld::ConnectablePosition>().getFeeder().get().setOrder(static_cast<unsigned long>(v)));
        INT("busbar index", n.getBusbarSection("BBS1").getExtension<ext::sld::BusbarSectionPosition>().setBusbarIndex(static_cast<unsigned long>(v)));
        INT("section index", n.getBusbarSection("BBS1").getExtension<ext::sld::BusbarSectionPosition>().setSectionIndex(static_cast<unsigned long>(v)));
        INT("clock", n.getTwoWindingsTransformer("T1").getExtension<ext::iidm::TwoWindingsTransformerPhaseAngleClock>().setPhaseAngleClock(static_cast<unsigned long>(v)));
        INT("clock of leg 2", n.getThreeWindingsTransformer("T3").getExtension<ext::iidm::ThreeWindingsTransformerPhaseAngleClock>().setPhaseAngleClockLeg2(static_cast<unsigned long>(v)));
        INT("clock of leg 3", n.getThreeWindingsTransformer("T3").getExtension<ext::iidm::ThreeWindingsTransformerPhaseAngleClock>().setPhaseAngleClockLeg3(static_cast<unsigned long>(v)));
        INT("discrete measurement", n.getSwitch("CPL").getExtension<ext::iidm::DiscreteMeasurements>().newDiscreteMeasurement().setId("DM9").setType(ext::iidm::DiscreteMeasurement::Type::OTHER).setValue(static_cast<int>(v)).setValid(true).add());
        INT("node", if (v < 0 || v > 3000) throw std::logic_error("too big a level"); n.getVoltageLevel("VN1").newLoad().setId("NEW").setNode(static_cast<unsigned long>(v)).setP0(1).setQ0(1).add());
        INT("node of a switch", if (v < 0 || v > 3000) throw std::logic_error("too big a level"); n.getVoltageLevel("VN1").getNodeBreakerView().newBreaker().setId("NEW").setNode1(0).setNode2(static_cast<unsigned long>(v)).add());
        INT("node of an internal connection", if (v < 0 || v > 3000) throw std::logic_error("too big a level"); n.getVoltageLevel("VN1").getNodeBreakerView().newInternalConnection().setNode1(0).setNode2(static_cast<unsigned long>(v)).add());
        return p;
    }();
    static const std::vector<long long> values = {0, 1, -1, 2, 3, 10, 11, 12, 19, 100, 255, 256, 1000, 2999, 32767, 32768, 65535, 99999, 100000, 1000000, 16777217, 123456789, 2147483646, 2147483647, -2147483647, -2147483648LL, 2147483648LL, 4294967295LL, 4294967296LL, 9007199254740993LL, 9223372036854775807LL, -9223372036854775807LL - 1};
    mc::Space s;
    s.name = "integers in every position";
    s.size = positions.size() * values.size();
    s.describe = [](uint64_t i) { return positions[i / values.size()].first + " " + mc::str(values[i % values.size()]); };
    s.run = [](uint64_t i, mc::Run& run) {
        long long v = values[i % values.size()];
        const auto& p = positions[i / values.size()];
        net::FullOptions o;
        o.aliases = false;
        o.stateValues = false;
        Network n = net::full(o);
        if ((p.first == "forecast distance" || p.first == "discrete measurement") && v != static_cast<int>(v)) return;
        if (p.first.compare(0, 16, "low tap position") == 0 && v > std::numeric_limits<long>::max() - 3) return;   // the high position would not be a number
        if (!mc::accepted([&] { p.second(n, v); })) return;
        for (bool indent : {false, true}) roundTrip(n, indent, false, false, run);
    };
    return s;
}

// ---- dates --------------------------------------------------------------------------------------------------------

mc::Space dates(bool thorough) {
    static const std::vector<std::string> DAYS = {"1400-01-01", "1583-10-15", "1899-12-31", "1900-02-28", "1969-12-31", "1970-01-01", "2000-02-29", "2019-12-31", "2020-02-29", "2021-03-28", "2038-01-19", "2100-03-01", "9999-12-31"};
    static const std::vector<std::string> TIMES = {"00:00:00", "23:59:59", "12:34:56", "02:30:00", "00:00:01"};
    static const std::vector<std::string> FRACTIONS = {"", ".000", ".001", ".999", ".500", ".010", ".123456", ".000001"};
    static const std::vector<std::string> ZONES = {"Z", "+00:00", "+01:00", "-01:00", "+05:30", "-03:30", "+14:00", "-12:00", "+00:30", "-00:30"};
    static std::vector<std::string> days;
    days = DAYS;
    if (thorough) for (int y = 1401; y < 9999; y += 97) for (int m = 1; m <= 12; m += 3) { char b[16]; snprintf(b, sizeof b, "%04d-%02d-%02d", y, m, 1 + (y + m) % 28); days.push_back(b); }
    mc::Space s;
    s.name = "dates";
    s.size = days.size() * TIMES.size() * FRACTIONS.size() * ZONES.size();
    auto text = [](uint64_t i) {
        auto d = mc::decode(i, {static_cast<unsigned>(days.size()), static_cast<unsigned>(TIMES.size()), static_cast<unsigned>(FRACTIONS.size()), static_cast<unsigned>(ZONES.size())});
        return days[d[0]] + "T" + TIMES[d[1]] + FRACTIONS[d[2]] + ZONES[d[3]];
    };
    s.describe = text;
    s.run = [text](uint64_t i, mc::Run& run) {
        std::string t = text(i);
        Network n("dates", "verif");
        if (!mc::accepted([&] { n.setCaseDate(stdcxx::DateTime::parse(t)); })) return;
        run.count();
        std::string shown = n.getCaseDate().toString();
        // the accepted text is kept: same fields
        MC_CHECK(run, shown.compare(0, 19, t, 0, 19) == 0, t << " is shown as " << shown);
        for (bool indent : {false, true}) {
            converter::ExportOptions o;
            o.setIndent(indent);
            std::string xml = net::writeXml(n, o), what;
            run.distinct(xml);
            std::unique_ptr<Network> r;
            MC_CHECK(run, mc::accepted([&] { r.reset(new Network(net::readXml(xml))); }, &what), "the document is not readable: " << what);
            MC_CHECK(run, r->getCaseDate() == n.getCaseDate(), "read back as another instant: " << r->getCaseDate().toString());
            MC_CHECK(run, r->getCaseDate().toString() == shown, shown << " read back as " << r->getCaseDate().toString());
            run.trace();
        }
    };
    return s;
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C26";
    c.level = "exploration";
    c.rule = "every text of the stated length over an alphabet of 35 characters in every text position, boundary values in every numeric position, every exponent and sign x mantissa patterns in the streams, a grid of dates; distinct documents";
    c.assumptions = {"texts of at most 3 characters (4 in the streams in the thorough tier)"};
    c.workerInit = [] { net::loadExtensions(); };
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        s.push_back(streamTexts(thorough ? 4 : 3));
        std::vector<const TextPosition*> all, special, some;
        for (const auto& p : textPositions()) {
            all.push_back(&p);
            bool generic = false;
            for (const auto& m : features::minimal()) generic = generic || (m.kind != "load" && m.kind != "bus" && m.kind != "network" && p.name.size() > m.kind.size() + 6 && p.name.compare(p.name.size() - m.kind.size() - 6, std::string::npos, " of a " + m.kind) == 0);
            if (!generic) special.push_back(&p);
            if (p.name == "alias of a load" || (thorough && (p.name == "property value of a line" || p.name == "id of a load" || p.name == "geographical tag" || p.name == "alias of a bus"))) some.push_back(&p);
        }
        s.push_back(texts("text positions", all, thorough ? 2 : 1));
        if (!thorough) s.push_back(texts("special text positions", special, 2));
        s.push_back(texts("some text positions", some, 3));
        s.push_back(numericPositions(thorough));
        s.push_back(streamNumbers(thorough));
        s.push_back(integers());
        s.push_back(dates(thorough));
    });
}
