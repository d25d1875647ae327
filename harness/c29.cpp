// C29: what an accepted modification changes. Every setter of every object of a network holding every kind of equipment,
// in one of two variants: the value given is read back, the quantities computed from it may follow, and everything else
// that can be observed, in both variants, is as it was.
#include <fnmatch.h>

#include <cmath>
#include <limits>
#include <map>
#include <set>

#include "state.hpp"

using namespace powsybl::iidm;  // NOLINT

namespace {

const std::string INITIAL = VariantManager::getInitialVariantId();
const std::string VARIANTS[] = {INITIAL, "v"};

Network base() {
    Network n = net::full();
    n.getVariantManager().cloneVariant(INITIAL, "v");
    net::write(n, 1);
    n.getVariantManager().setWorkingVariant("v");
    net::write(n, 2);
    n.getVariantManager().setWorkingVariant(INITIAL);
    return n;
}

net::DumpOptions OPTIONS;

net::Snapshot observe(Network& n, const std::string& variant) {
    n.getVariantManager().setWorkingVariant(variant);
    return net::dump(n, OPTIONS);
}

struct Op {
    std::string object;                          // prefix of the paths of the object
    std::string key;                             // what is set
    bool perVariant;
    std::vector<std::string> values;
    std::vector<std::string> unusual;            // values that are tried alone only
    std::function<void(Network&, const std::string&)> set;
    std::vector<std::string> also;               // patterns of the paths of what is computed from it
};

double number(const std::string& s) {
    if (s == "NaN") return std::numeric_limits<double>::quiet_NaN();
    return std::strtod(s.c_str(), nullptr);
}
bool truth(const std::string& s) { return s == "true"; }

std::vector<Op> OPS;

void add(const std::string& object, const std::string& key, bool perVariant, const std::vector<std::string>& values, const std::function<void(Network&, const std::string&)>& set, const std::vector<std::string>& also = {}) {
    Op op;
    op.object = object;
    op.key = object + key;
    op.perVariant = perVariant;
    op.values = values;
    op.set = set;
    for (const auto& a : also) op.also.push_back(a[0] == '^' ? a.substr(1) : object + a);
    OPS.push_back(op);
}

template <typename T>
T& get(Network& n, const std::string& id) {
    return dynamic_cast<T&>(n.getIdentifiable(id));
}

template <typename T, typename S>
void num(const std::string& object, const std::string& id, const std::string& key, bool perVariant, const std::vector<double>& values, S set, const std::vector<std::string>& also = {}) {
    std::vector<std::string> texts;
    for (double v : values) texts.push_back(mc::str(v));
    add(object, key, perVariant, texts, [id, set](Network& n, const std::string& v) { set(get<T>(n, id), number(v)); }, also);
    if (key != "maxSections" && values.size() > 1) OPS.back().unusual = {mc::str(-0.0), mc::str(1e300), mc::str(-4e-310), "NaN", mc::str(std::numeric_limits<double>::infinity()), mc::str(-std::numeric_limits<double>::infinity()), mc::str(0.1 + 0.2), "1", "-1"};
}
template <typename T, typename S>
void flag(const std::string& object, const std::string& id, const std::string& key, bool perVariant, S set, const std::vector<std::string>& also = {}) {
    add(object, key, perVariant, {"true", "false"}, [id, set](Network& n, const std::string& v) { set(get<T>(n, id), truth(v)); }, also);
}
template <typename T, typename E, typename S>
void mode(const std::string& object, const std::string& id, const std::string& key, bool perVariant, unsigned count, S set, const std::vector<std::string>& also = {}) {
    std::vector<std::string> texts;
    for (unsigned i = 0; i < count; ++i) texts.push_back("#" + mc::str(i));
    add(object, key, perVariant, texts, [id, set](Network& n, const std::string& v) { set(get<T>(n, id), static_cast<E>(std::stoi(v.substr(1)))); }, also);
}

stdcxx::Reference<Terminal> terminalOf(Network& n, const std::string& text) {
    if (text == "-") return {};
    const auto slash = text.find('/');
    Connectable& c = get<Connectable>(n, text.substr(0, slash));
    return stdcxx::ref(const_cast<Terminal&>(c.getTerminals().begin()[std::stoi(text.substr(slash + 1)) - 1].get()));
}
const std::vector<std::string> TERMINALS = {"LD1/1", "LDB1/1", "L1/2"};

template <typename T, typename S>
void terminal(const std::string& object, const std::string& id, const std::string& key, S set) {
    add(object, key, false, TERMINALS, [id, set](Network& n, const std::string& v) { set(n, get<T>(n, id), terminalOf(n, v)); });
}

// loading limits: `at` is the object holding the limits
void limits(const std::string& object, const std::string& key, const std::function<stdcxx::Reference<CurrentLimits>(Network&)>& c,
            const std::function<stdcxx::Reference<ActivePowerLimits>(Network&)>& a, const std::function<stdcxx::Reference<ApparentPowerLimits>(Network&)>& s,
            const std::string& suffix, Network& n) {
    const std::vector<std::string> values = {"1234.5", "0.25"};
    if (c(n)) add(object, key + "currentLimits" + suffix + "/permanent", false, values, [c](Network& m, const std::string& v) { c(m).get().setPermanentLimit(number(v)); });
    if (a(n)) add(object, key + "activePowerLimits" + suffix + "/permanent", false, values, [a](Network& m, const std::string& v) { a(m).get().setPermanentLimit(number(v)); });
    if (s(n)) add(object, key + "apparentPowerLimits" + suffix + "/permanent", false, values, [s](Network& m, const std::string& v) { s(m).get().setPermanentLimit(number(v)); });
}

std::string stepText(const std::vector<double>& v) {
    std::string r;
    for (double d : v) r += (r.empty() ? "" : ",") + mc::str(d);
    return r;
}
std::vector<double> stepValues(const std::string& t) {
    std::vector<double> r;
    std::stringstream s(t);
    std::string w;
    while (std::getline(s, w, ',')) r.push_back(number(w));
    return r;
}

template <typename G>
void tapChangers(const std::string& object, const std::string& key, Network& n, G holder) {
    auto& h = holder(n);
    if (h.hasRatioTapChanger()) {
        RatioTapChanger& r = h.getRatioTapChanger();
        const std::string k = key + "rtc/";
        std::vector<std::string> positions;
        for (long p = r.getLowTapPosition(); p <= r.getHighTapPosition(); ++p) positions.push_back(mc::str(p));
        add(object, k + "pos", true, positions, [holder](Network& m, const std::string& v) { holder(m).getRatioTapChanger().setTapPosition(std::stol(v)); }, {k + "currentRho"});
        add(object, k + "targetV", true, {"411.5", "0.5"}, [holder](Network& m, const std::string& v) { holder(m).getRatioTapChanger().setTargetV(number(v)); });
        add(object, k + "deadband", true, {"0", "2.5"}, [holder](Network& m, const std::string& v) { holder(m).getRatioTapChanger().setTargetDeadband(number(v)); });
        add(object, k + "regulating", true, {"true", "false"}, [holder](Network& m, const std::string& v) { holder(m).getRatioTapChanger().setRegulating(truth(v)); });
        add(object, k + "onload", false, {"true", "false"}, [holder](Network& m, const std::string& v) { holder(m).getRatioTapChanger().setLoadTapChangingCapabilities(truth(v)); });
        add(object, k + "terminal", false, TERMINALS, [holder](Network& m, const std::string& v) { holder(m).getRatioTapChanger().setRegulationTerminal(terminalOf(m, v)); });
        for (long p = r.getLowTapPosition(); p <= r.getHighTapPosition(); ++p) {
            const std::vector<double> old = {r.getStep(p).getRho(), r.getStep(p).getR(), r.getStep(p).getX(), r.getStep(p).getG(), r.getStep(p).getB()};
            for (unsigned f = 0; f < old.size(); ++f) {
                std::vector<double> changed = old;
                changed[f] = 0.625 + f;
                add(object, k + "step/" + mc::str(p), false, {stepText(changed)}, [holder, p, f](Network& m, const std::string& v) {
                    RatioTapChangerStep& s = holder(m).getRatioTapChanger().getStep(p);
                    const double d = stepValues(v)[f];
                    switch (f) { case 0: s.setRho(d); break; case 1: s.setR(d); break; case 2: s.setX(d); break; case 3: s.setG(d); break; default: s.setB(d); }
                }, {k + "currentRho"});
            }
        }
    }
    if (h.hasPhaseTapChanger()) {
        PhaseTapChanger& r = h.getPhaseTapChanger();
        const std::string k = key + "ptc/";
        std::vector<std::string> positions;
        for (long p = r.getLowTapPosition(); p <= r.getHighTapPosition(); ++p) positions.push_back(mc::str(p));
        add(object, k + "pos", true, positions, [holder](Network& m, const std::string& v) { holder(m).getPhaseTapChanger().setTapPosition(std::stol(v)); }, {k + "currentRho"});
        add(object, k + "value", true, {"411.5", "-0.5"}, [holder](Network& m, const std::string& v) { holder(m).getPhaseTapChanger().setRegulationValue(number(v)); });
        add(object, k + "deadband", true, {"0", "2.5"}, [holder](Network& m, const std::string& v) { holder(m).getPhaseTapChanger().setTargetDeadband(number(v)); });
        add(object, k + "regulating", true, {"true", "false"}, [holder](Network& m, const std::string& v) { holder(m).getPhaseTapChanger().setRegulating(truth(v)); });
        add(object, k + "mode", false, {"#0", "#1", "#2"}, [holder](Network& m, const std::string& v) { holder(m).getPhaseTapChanger().setRegulationMode(static_cast<PhaseTapChanger::RegulationMode>(std::stoi(v.substr(1)))); });
        add(object, k + "terminal", false, TERMINALS, [holder](Network& m, const std::string& v) { holder(m).getPhaseTapChanger().setRegulationTerminal(terminalOf(m, v)); });
        for (long p = r.getLowTapPosition(); p <= r.getHighTapPosition(); ++p) {
            PhaseTapChangerStep& st = r.getStep(p);
            const std::vector<double> old = {st.getRho(), st.getR(), st.getX(), st.getG(), st.getB(), st.getAlpha()};
            for (unsigned f = 0; f < old.size(); ++f) {
                std::vector<double> changed = old;
                changed[f] = 0.625 + f;
                add(object, k + "step/" + mc::str(p), false, {stepText(changed)}, [holder, p, f](Network& m, const std::string& v) {
                    PhaseTapChangerStep& s = holder(m).getPhaseTapChanger().getStep(p);
                    const double d = stepValues(v)[f];
                    switch (f) { case 0: s.setRho(d); break; case 1: s.setR(d); break; case 2: s.setX(d); break; case 3: s.setG(d); break; case 4: s.setB(d); break; default: s.setAlpha(d); }
                }, {k + "currentRho"});
            }
        }
    }
}

ThreeWindingsTransformer::Leg& leg(Network& n, const std::string& id, int k) {
    ThreeWindingsTransformer& t = get<ThreeWindingsTransformer>(n, id);
    return k == 1 ? t.getLeg1() : k == 2 ? t.getLeg2() : t.getLeg3();
}

ShuntCompensatorNonLinearModel::Section& section(Network& n, const std::string& id, unsigned k) {
    for (auto& s : n.getShuntCompensator(id).getModel<ShuntCompensatorNonLinearModel>().getAllSections()) {
        if (k-- == 0) return s;
    }
    throw std::logic_error("section");
}

Bus& merged(Network& n, const std::string& vl, const std::string& bus) {
    auto b = n.getVoltageLevel(vl).getBusView().getBus(bus);
    if (!b) throw powsybl::PowsyblException("no such bus in this variant");
    return b.get();
}

void buildOps() {
    Network n = base();
    const std::vector<double> any = {0, 12.5, -3.25};
    const std::vector<double> positive = {0.5, 77.25};
    const net::Snapshot before = net::dump(n);
    const auto objects = [&](const std::string& kind) {
        std::vector<std::string> r;
        for (const auto& e : before) {
            const std::string& p = e.first;
            if (p.compare(0, kind.size() + 1, kind + "/") != 0 || p.size() < 3 || p.substr(p.size() - 3) != "/id") continue;
            const std::string id = p.substr(kind.size() + 1, p.size() - kind.size() - 4);
            if (id.find('/') == std::string::npos) r.push_back(id);
        }
        return r;
    };
    // of every identifiable
    std::vector<std::pair<std::string, std::string>> all;
    for (const char* kind : {"2wt", "3wt", "battery", "bbs", "dl", "generator", "hvdc", "lcc", "line", "load", "shunt", "substation", "svc", "switch", "vl", "vsc"}) {
        for (const auto& id : objects(kind)) all.emplace_back(std::string(kind) + "/" + id + "/", id);
    }
    for (const auto& e : all) {
        const std::string id = e.second;
        flag<Identifiable>(e.first, id, "fictitious", false, [](Identifiable& i, bool b) { i.setFictitious(b); });
        for (const char* k : {"new property", "common"}) {
            const std::string key = k;
            add(e.first, "prop/" + key, false, {"value", ""}, [id, key](Network& m, const std::string& v) { get<Identifiable>(m, id).setProperty(key, v); }, {"hasProperty"});
        }
        add(e.first, "alias/new alias of " + id, false, {"", "some type"}, [id](Network& m, const std::string& v) {
            Identifiable& i = get<Identifiable>(m, id);
            if (v.empty()) i.addAlias("new alias of " + id); else i.addAlias("new alias of " + id, v);
        }, {"hasAliases", "aliasFromType/*"});
    }
    // terminals
    for (const Connectable& c : n.getConnectables()) {
        if (c.getType() == ConnectableType::BUSBAR_SECTION) continue;
        const std::string id = c.getId();
        std::string object;
        for (const auto& e : all) if (e.second == id) object = e.first;
        for (unsigned k = 0; k < net::rangeSize(c.getTerminals()); ++k) {
            const std::string t = "t" + mc::str(k + 1) + "/";
            const std::string vl = c.getTerminals().begin()[k].get().getVoltageLevel().getId();
            if (c.getType() != ConnectableType::SHUNT_COMPENSATOR) {
                add(object, t + "p", true, {"0", "17.5", "-4.5", "NaN"}, [id, k](Network& m, const std::string& v) { const_cast<Terminal&>(get<Connectable>(m, id).getTerminals().begin()[k].get()).setP(number(v)); },
                    {t + "i", "^vl/" + vl + "/*v/*/p", "^vl/" + vl + "/cbus/*/p", "boundary/*", "half*/boundary/*"});
            }
            add(object, t + "q", true, {"0", "17.5", "-4.5", "NaN"}, [id, k](Network& m, const std::string& v) { const_cast<Terminal&>(get<Connectable>(m, id).getTerminals().begin()[k].get()).setQ(number(v)); },
                {t + "i", "^vl/" + vl + "/*v/*/q", "^vl/" + vl + "/cbus/*/q", "boundary/*", "half*/boundary/*"});
        }
    }
    // equipment
    for (const auto& id : objects("load")) {
        const std::string o = "load/" + id + "/";
        num<Load>(o, id, "p0", true, any, [](Load& l, double v) { l.setP0(v); });
        num<Load>(o, id, "q0", true, any, [](Load& l, double v) { l.setQ0(v); });
        mode<Load, LoadType>(o, id, "loadType", false, 3, [](Load& l, LoadType v) { l.setLoadType(v); });
    }
    for (const auto& id : objects("battery")) {
        const std::string o = "battery/" + id + "/";
        const double p0 = n.getBattery(id).getP0();
        num<Battery>(o, id, "p0", true, {0, p0 / 2, 9.75}, [](Battery& b, double v) { b.setP0(v); });
        num<Battery>(o, id, "q0", true, any, [](Battery& b, double v) { b.setQ0(v); });
        num<Battery>(o, id, "minP", false, {-1000.5, -999}, [](Battery& b, double v) { b.setMinP(v); });
        num<Battery>(o, id, "maxP", false, {1000.5, 999}, [](Battery& b, double v) { b.setMaxP(v); });
    }
    for (const auto& id : objects("generator")) {
        const std::string o = "generator/" + id + "/";
        num<Generator>(o, id, "targetP", true, any, [](Generator& g, double v) { g.setTargetP(v); });
        num<Generator>(o, id, "targetP", true, {1.5}, [](Generator& g, double v) { g.setActivePowerSetpoint(v); });
        num<Generator>(o, id, "targetQ", true, any, [](Generator& g, double v) { g.setTargetQ(v); });
        num<Generator>(o, id, "targetQ", true, {1.5}, [](Generator& g, double v) { g.setReactivePowerSetpoint(v); });
        num<Generator>(o, id, "targetV", true, positive, [](Generator& g, double v) { g.setTargetV(v); });
        num<Generator>(o, id, "targetV", true, {1.5}, [](Generator& g, double v) { g.setVoltageSetpoint(v); });
        num<Generator>(o, id, "minP", false, {-1000.5, -999}, [](Generator& g, double v) { g.setMinP(v); });
        num<Generator>(o, id, "maxP", false, {1000.5, 999}, [](Generator& g, double v) { g.setMaxP(v); });
        num<Generator>(o, id, "ratedS", false, {1000.5, 0.5, std::numeric_limits<double>::quiet_NaN()}, [](Generator& g, double v) { g.setRatedS(v); });
        flag<Generator>(o, id, "regulating", true, [](Generator& g, bool v) { g.setVoltageRegulatorOn(v); });
        mode<Generator, EnergySource>(o, id, "energySource", false, 6, [](Generator& g, EnergySource v) { g.setEnergySource(v); });
        terminal<Generator>(o, id, "regTerminal", [](Network&, Generator& g, const stdcxx::Reference<Terminal>& t) { g.setRegulatingTerminal(t); });
    }
    for (const auto& id : objects("dl")) {
        const std::string o = "dl/" + id + "/";
        num<DanglingLine>(o, id, "p0", true, any, [](DanglingLine& g, double v) { g.setP0(v); }, {"boundary/*"});
        num<DanglingLine>(o, id, "q0", true, any, [](DanglingLine& g, double v) { g.setQ0(v); }, {"boundary/*"});
        num<DanglingLine>(o, id, "r", false, any, [](DanglingLine& g, double v) { g.setR(v); }, {"boundary/*"});
        num<DanglingLine>(o, id, "x", false, any, [](DanglingLine& g, double v) { g.setX(v); }, {"boundary/*"});
        num<DanglingLine>(o, id, "g", false, any, [](DanglingLine& g, double v) { g.setG(v); }, {"boundary/*"});
        num<DanglingLine>(o, id, "b", false, any, [](DanglingLine& g, double v) { g.setB(v); }, {"boundary/*"});
        if (n.getDanglingLine(id).getGeneration()) {
            num<DanglingLine>(o, id, "gen/p", true, any, [](DanglingLine& g, double v) { g.getGeneration().get().setTargetP(v); }, {"boundary/*"});
            num<DanglingLine>(o, id, "gen/q", true, any, [](DanglingLine& g, double v) { g.getGeneration().get().setTargetQ(v); }, {"boundary/*"});
            num<DanglingLine>(o, id, "gen/v", true, positive, [](DanglingLine& g, double v) { g.getGeneration().get().setTargetV(v); }, {"boundary/*"});
            flag<DanglingLine>(o, id, "gen/reg", true, [](DanglingLine& g, bool v) { g.getGeneration().get().setVoltageRegulationOn(v); });
            num<DanglingLine>(o, id, "gen/minP", false, {-1000.5, -999}, [](DanglingLine& g, double v) { g.getGeneration().get().setMinP(v); });
            num<DanglingLine>(o, id, "gen/maxP", false, {1000.5, 999}, [](DanglingLine& g, double v) { g.getGeneration().get().setMaxP(v); });
        }
        limits(o, "", [id](Network& m) { return m.getDanglingLine(id).getCurrentLimits(); }, [id](Network& m) { return m.getDanglingLine(id).getActivePowerLimits(); }, [id](Network& m) { return m.getDanglingLine(id).getApparentPowerLimits(); }, "", n);
    }
    for (const auto& id : objects("line")) {
        const std::string o = "line/" + id + "/";
        if (!n.getLine(id).isTieLine()) {
            num<Line>(o, id, "r", false, any, [](Line& g, double v) { g.setR(v); });
            num<Line>(o, id, "x", false, any, [](Line& g, double v) { g.setX(v); });
            num<Line>(o, id, "g1", false, any, [](Line& g, double v) { g.setG1(v); });
            num<Line>(o, id, "g2", false, any, [](Line& g, double v) { g.setG2(v); });
            num<Line>(o, id, "b1", false, any, [](Line& g, double v) { g.setB1(v); });
            num<Line>(o, id, "b2", false, any, [](Line& g, double v) { g.setB2(v); });
        } else {
            const std::vector<std::string> merged = {"r", "x", "g1", "g2", "b1", "b2", "half1/boundary/*", "half2/boundary/*"};
            for (int h : {1, 2}) {
                const std::string k = "half" + mc::str(h) + "/";
                const auto half = [h](Line& l) -> TieLine::HalfLine& { TieLine& t = dynamic_cast<TieLine&>(l); return const_cast<TieLine::HalfLine&>(h == 1 ? t.getHalf1() : t.getHalf2()); };
                num<Line>(o, id, k + "r", false, any, [half](Line& l, double v) { half(l).setR(v); }, merged);
                num<Line>(o, id, k + "x", false, any, [half](Line& l, double v) { half(l).setX(v); }, merged);
                num<Line>(o, id, k + "g1", false, any, [half](Line& l, double v) { half(l).setG1(v); }, merged);
                num<Line>(o, id, k + "g2", false, any, [half](Line& l, double v) { half(l).setG2(v); }, merged);
                num<Line>(o, id, k + "b1", false, any, [half](Line& l, double v) { half(l).setB1(v); }, merged);
                num<Line>(o, id, k + "b2", false, any, [half](Line& l, double v) { half(l).setB2(v); }, merged);
                flag<Line>(o, id, k + "fict", false, [half](Line& l, bool v) { half(l).setFictitious(v); });
            }
        }
        limits(o, "", [id](Network& m) { return m.getLine(id).getCurrentLimits1(); }, [id](Network& m) { return m.getLine(id).getActivePowerLimits1(); }, [id](Network& m) { return m.getLine(id).getApparentPowerLimits1(); }, "1", n);
        limits(o, "", [id](Network& m) { return m.getLine(id).getCurrentLimits2(); }, [id](Network& m) { return m.getLine(id).getActivePowerLimits2(); }, [id](Network& m) { return m.getLine(id).getApparentPowerLimits2(); }, "2", n);
    }
    for (const auto& id : objects("2wt")) {
        using T = TwoWindingsTransformer;
        const std::string o = "2wt/" + id + "/";
        num<T>(o, id, "r", false, any, [](T& g, double v) { g.setR(v); });
        num<T>(o, id, "x", false, any, [](T& g, double v) { g.setX(v); });
        num<T>(o, id, "g", false, any, [](T& g, double v) { g.setG(v); });
        num<T>(o, id, "b", false, any, [](T& g, double v) { g.setB(v); });
        num<T>(o, id, "u1", false, positive, [](T& g, double v) { g.setRatedU1(v); });
        num<T>(o, id, "u2", false, positive, [](T& g, double v) { g.setRatedU2(v); });
        num<T>(o, id, "s", false, {0.5, 77.25, std::numeric_limits<double>::quiet_NaN()}, [](T& g, double v) { g.setRatedS(v); });
        limits(o, "", [id](Network& m) { return m.getTwoWindingsTransformer(id).getCurrentLimits1(); }, [id](Network& m) { return m.getTwoWindingsTransformer(id).getActivePowerLimits1(); }, [id](Network& m) { return m.getTwoWindingsTransformer(id).getApparentPowerLimits1(); }, "1", n);
        limits(o, "", [id](Network& m) { return m.getTwoWindingsTransformer(id).getCurrentLimits2(); }, [id](Network& m) { return m.getTwoWindingsTransformer(id).getActivePowerLimits2(); }, [id](Network& m) { return m.getTwoWindingsTransformer(id).getApparentPowerLimits2(); }, "2", n);
        tapChangers(o, "", n, [id](Network& m) -> T& { return m.getTwoWindingsTransformer(id); });
    }
    for (const auto& id : objects("3wt")) {
        using T = ThreeWindingsTransformer;
        const std::string o = "3wt/" + id + "/";
        for (int k : {1, 2, 3}) {
            const std::string p = "leg" + mc::str(k) + "/";
            const auto of = [k](T& t) -> T::Leg& { return k == 1 ? t.getLeg1() : k == 2 ? t.getLeg2() : t.getLeg3(); };
            num<T>(o, id, p + "r", false, any, [of](T& g, double v) { of(g).setR(v); });
            num<T>(o, id, p + "x", false, any, [of](T& g, double v) { of(g).setX(v); });
            num<T>(o, id, p + "g", false, any, [of](T& g, double v) { of(g).setG(v); });
            num<T>(o, id, p + "b", false, any, [of](T& g, double v) { of(g).setB(v); });
            num<T>(o, id, p + "u", false, positive, [of](T& g, double v) { of(g).setRatedU(v); });
            num<T>(o, id, p + "s", false, {0.5, 77.25, std::numeric_limits<double>::quiet_NaN()}, [of](T& g, double v) { of(g).setRatedS(v); });
            limits(o, p, [id, k](Network& m) { return leg(m, id, k).getCurrentLimits(); }, [id, k](Network& m) { return leg(m, id, k).getActivePowerLimits(); }, [id, k](Network& m) { return leg(m, id, k).getApparentPowerLimits(); }, "", n);
            tapChangers(o, p, n, [id, k](Network& m) -> T::Leg& { return leg(m, id, k); });
        }
    }
    for (const auto& id : objects("shunt")) {
        using T = ShuntCompensator;
        const std::string o = "shunt/" + id + "/";
        std::vector<std::string> counts;
        for (unsigned long k = 0; k <= n.getShuntCompensator(id).getMaximumSectionCount(); ++k) counts.push_back(mc::str(k));
        add(o, "sections", true, counts, [id](Network& m, const std::string& v) { m.getShuntCompensator(id).setSectionCount(std::stoul(v)); }, {"b", "g"});
        num<T>(o, id, "targetV", true, positive, [](T& g, double v) { g.setTargetV(v); });
        num<T>(o, id, "deadband", true, {0, 1.5}, [](T& g, double v) { g.setTargetDeadband(v); });
        flag<T>(o, id, "regulating", true, [](T& g, bool v) { g.setVoltageRegulatorOn(v); });
        terminal<T>(o, id, "regTerminal", [](Network&, T& g, const stdcxx::Reference<Terminal>& t) { g.setRegulatingTerminal(t); });
        if (n.getShuntCompensator(id).getModelType() == ShuntCompensatorModelType::LINEAR) {
            num<T>(o, id, "model/b", false, {0.5, -0.25}, [](T& g, double v) { g.getModel<ShuntCompensatorLinearModel>().setBPerSection(v); }, {"b"});
            num<T>(o, id, "model/g", false, {0, 0.5, -0.25}, [](T& g, double v) { g.getModel<ShuntCompensatorLinearModel>().setGPerSection(v); }, {"g"});
            num<T>(o, id, "maxSections", false, {50, 60}, [](T& g, double v) { g.getModel<ShuntCompensatorLinearModel>().setMaximumSectionCount(static_cast<unsigned long>(v)); });
        } else {
            auto& model = n.getShuntCompensator(id).getModel<ShuntCompensatorNonLinearModel>();
            unsigned k = 0;
            for (const auto& old : model.getAllSections()) {
                add(o, "model/" + mc::str(k), false, {stepText({7.5, old.getG()})}, [id, k](Network& m, const std::string& v) { section(m, id, k).setB(stepValues(v)[0]); }, {"b"});
                add(o, "model/" + mc::str(k), false, {stepText({old.getB(), 7.5})}, [id, k](Network& m, const std::string& v) { section(m, id, k).setG(stepValues(v)[1]); }, {"g"});
                ++k;
            }
        }
    }
    for (const auto& id : objects("svc")) {
        using T = StaticVarCompensator;
        const std::string o = "svc/" + id + "/";
        num<T>(o, id, "bmin", false, any, [](T& g, double v) { g.setBmin(v); });
        num<T>(o, id, "bmax", false, any, [](T& g, double v) { g.setBmax(v); });
        num<T>(o, id, "v", true, positive, [](T& g, double v) { g.setVoltageSetpoint(v); });
        num<T>(o, id, "q", true, any, [](T& g, double v) { g.setReactivePowerSetpoint(v); });
        mode<T, T::RegulationMode>(o, id, "mode", true, 3, [](T& g, T::RegulationMode v) { g.setRegulationMode(v); });
        terminal<T>(o, id, "regTerminal", [](Network&, T& g, const stdcxx::Reference<Terminal>& t) { g.setRegulatingTerminal(t); });
    }
    for (const auto& id : objects("vsc")) {
        using T = VscConverterStation;
        const std::string o = "vsc/" + id + "/";
        num<T>(o, id, "loss", false, {0, 12.5, 100}, [](T& g, double v) { g.setLossFactor(v); });
        num<T>(o, id, "v", true, positive, [](T& g, double v) { g.setVoltageSetpoint(v); });
        num<T>(o, id, "q", true, any, [](T& g, double v) { g.setReactivePowerSetpoint(v); });
        flag<T>(o, id, "reg", true, [](T& g, bool v) { g.setVoltageRegulatorOn(v); });
    }
    for (const auto& id : objects("lcc")) {
        using T = LccConverterStation;
        const std::string o = "lcc/" + id + "/";
        num<T>(o, id, "loss", false, {0, 12.5, 100}, [](T& g, double v) { g.setLossFactor(v); });
        num<T>(o, id, "pf", false, {0, 0.5, -1}, [](T& g, double v) { g.setPowerFactor(v); });
    }
    for (const auto& id : objects("hvdc")) {
        using T = HvdcLine;
        const std::string o = "hvdc/" + id + "/";
        num<T>(o, id, "r", false, {0, 7.5}, [](T& g, double v) { g.setR(v); });
        num<T>(o, id, "v", false, positive, [](T& g, double v) { g.setNominalV(v); });
        num<T>(o, id, "maxP", false, {1000.5, 999}, [](T& g, double v) { g.setMaxP(v); });
        num<T>(o, id, "p", true, {0, 0.5}, [](T& g, double v) { g.setActivePowerSetpoint(v); });
        mode<T, T::ConvertersMode>(o, id, "mode", true, 2, [](T& g, T::ConvertersMode v) { g.setConvertersMode(v); });
    }
    for (const auto& id : objects("switch")) {
        const std::string o = "switch/" + id + "/";
        const std::string vl = "^vl/" + n.getSwitch(id).getVoltageLevel().getId() + "/";
        const std::vector<std::string> topology = {vl + "bv/*", vl + "cbus/*", vl + "bbv*", vl + "nb*", vl + "bus*", vl + "configuredBuses", vl + "calc*", "^*/t?/v", "^*/t?/angle", "^*/t?/i", "^*/t?/connected", "^*/t?/bv.*", "^*/t?/bbv.*", "^*/boundary/*", "^bbs/*/V", "^bbs/*/A", "^vl/*/cc", "^vl/*/sc", "^vl/*/mainCC", "^vl/*/mainSC", "^network/cc/*", "^network/sc/*", "^vl/*/bv/*"};
        flag<Switch>(o, id, "open", true, [](Switch& s, bool v) { s.setOpen(v); }, topology);
        flag<Switch>(o, id, "retained", true, [](Switch& s, bool v) { s.setRetained(v); }, topology);
    }
    for (const auto& id : objects("vl")) {
        const std::string o = "vl/" + id + "/";
        const double low = 0.5, high = 2000.5;
        num<VoltageLevel>(o, id, "nominalV", false, positive, [](VoltageLevel& v, double d) { v.setNominalV(d); });
        num<VoltageLevel>(o, id, "low", false, {low, 1.5, std::numeric_limits<double>::quiet_NaN()}, [](VoltageLevel& v, double d) { v.setLowVoltageLimit(d); });
        num<VoltageLevel>(o, id, "high", false, {high, 2001, std::numeric_limits<double>::quiet_NaN()}, [](VoltageLevel& v, double d) { v.setHighVoltageLimit(d); });
        // voltages of the buses
        const std::vector<std::string> v = {"*bv/*/v", "cbus/*/v", "^*/t?/v", "^*/t?/i", "^*/boundary/*", "^bbs/*/V"};
        const std::vector<std::string> angle = {"*bv/*/angle", "cbus/*/angle", "^*/t?/angle", "^*/boundary/*", "^bbs/*/A"};
        if (n.getVoltageLevel(id).getTopologyKind() == TopologyKind::BUS_BREAKER) {
            for (const Bus& b : n.getVoltageLevel(id).getBusBreakerView().getBuses()) {
                const std::string bus = b.getId();
                add(o, "cbus/" + bus + "/v", true, {"401.5", "1.5", "NaN"}, [id, bus](Network& m, const std::string& x) { m.getVoltageLevel(id).getBusBreakerView().getBus(bus).get().setV(number(x)); }, v);
                add(o, "cbus/" + bus + "/angle", true, {"0", "-1.5", "NaN"}, [id, bus](Network& m, const std::string& x) { m.getVoltageLevel(id).getBusBreakerView().getBus(bus).get().setAngle(number(x)); }, angle);
            }
        } else {
            for (const Bus& b : n.getVoltageLevel(id).getBusView().getBuses()) {
                const std::string bus = b.getId();
                add(o, "bv/" + bus + "/v", true, {"401.5", "1.5", "NaN"}, [id, bus](Network& m, const std::string& x) { merged(m, id, bus).setV(number(x)); }, v);
                add(o, "bv/" + bus + "/angle", true, {"0", "-1.5", "NaN"}, [id, bus](Network& m, const std::string& x) { merged(m, id, bus).setAngle(number(x)); }, angle);
            }
        }
    }
    for (const auto& id : objects("substation")) {
        const std::string o = "substation/" + id + "/";
        add(o, "country", false, {"#0", "#7"}, [id](Network& m, const std::string& v) { m.getSubstation(id).setCountry(v[0] == '#' ? stdcxx::optional<Country>(static_cast<Country>(std::stoi(v.substr(1)))) : stdcxx::optional<Country>()); }, {"^network/countries", "^network/substations*"});
        add(o, "tso", false, {"some tso", ""}, [id](Network& m, const std::string& v) { m.getSubstation(id).setTso(v); });
    }
    add("network/", "forecastDistance", false, {"0", "77"}, [](Network& m, const std::string& v) { m.setForecastDistance(std::stoi(v)); });
    add("network/", "caseDate", false, {"2021-02-03T04:05:06+00:00", "1999-12-31T23:59:59.250000+05:30"}, [](Network& m, const std::string& v) { m.setCaseDate(stdcxx::DateTime::parse(v)); });
    flag<Network>("network/", "full", "fictitious", false, [](Network& m, bool v) { m.setFictitious(v); });
}

bool allowed(const Op& op, const std::string& path) {
    if (path == op.key) return true;
    for (const auto& p : op.also) {
        if (fnmatch(p.c_str(), path.c_str(), 0) == 0) return true;
    }
    return false;
}

std::string valueAt(const net::Snapshot& s, const std::string& key) {
    const auto it = s.find(key);
    return it == s.end() ? "(absent)" : it->second;
}

// what changed although it was not named
void frame(mc::Run& r, const Op& op, const std::string& variant, const net::Snapshot& before, const net::Snapshot& after, bool nothing) {
    auto check = [&](const std::string& path) {
        const std::string a = valueAt(before, path);
        const std::string b = valueAt(after, path);
        if (a == b || (!nothing && allowed(op, path))) return;
        // a calculated bus takes the flag of its voltage level when it is calculated, which depends on what was asked before
        if (fnmatch("vl/*/b*v/*/fictitious", path.c_str(), 0) == 0) return;
        r.fail("setting " + op.key + " changed " + path + " of the variant " + variant + " from " + a + " to " + b);
    };
    auto b = before.begin();
    auto a = after.begin();
    while (b != before.end() || a != after.end()) {
        if (a == after.end() || (b != before.end() && b->first < a->first)) { check(b->first); ++b; }
        else if (b == before.end() || a->first < b->first) { check(a->first); ++a; }
        else { if (a->second != b->second) check(a->first); ++a; ++b; }
    }
}

// false when the value is refused
bool apply(mc::Run& r, Network& n, const Op& op, const std::string& value, unsigned working, std::vector<net::Snapshot>& snapshots) {
    r.step("in " + VARIANTS[working] + ": " + op.key + " := " + value);
    n.getVariantManager().setWorkingVariant(VARIANTS[working]);
    std::string why;
    try {
        op.set(n, value);
    } catch (const powsybl::PowsyblException& e) {
        why = e.what();
    }
    r.transition();
    for (unsigned v = 0; v < 2; ++v) {
        const net::Snapshot after = observe(n, VARIANTS[v]);
        frame(r, op, VARIANTS[v], snapshots[v], after, !why.empty() || (op.perVariant && v != working));
        if (why.empty() && (!op.perVariant || v == working)) {
            if (valueAt(after, op.key) != value) r.fail(op.key + " reads " + valueAt(after, op.key) + " in the variant " + VARIANTS[v] + " after being set to " + value);
        }
        snapshots[v] = after;
        r.count();
    }
    n.getVariantManager().setWorkingVariant(VARIANTS[working]);
    return why.empty();
}

// the network of every case is the same: observed once for each kind of observation
const std::vector<net::Snapshot>& both(Network& n, bool complete) {
    static std::map<bool, std::vector<net::Snapshot>> known;
    OPTIONS.views = OPTIONS.components = complete;
    std::vector<net::Snapshot>& r = known[complete];
    if (r.empty()) for (const auto& v : VARIANTS) r.push_back(observe(n, v));
    return r;
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config config;
    config.property = "C29";
    config.level = "model_checking";
    config.assumptions = {"values: two to six for every attribute, refused ones included",
                          "the network: every kind of equipment, two voltage levels of each topology kind, two variants",
                          "histories: one modification and its reversal; every ordered pair of modifications of one object"};
    config.caseTimeout = 60;
    return mc::main(argc, argv, config, [](bool deep, std::vector<mc::Space>& spaces) {
        buildOps();
        // each modification, the same again, and back
        struct One { unsigned op; std::string value; unsigned working; };
        auto ones = std::make_shared<std::vector<One>>();
        for (unsigned o = 0; o < OPS.size(); ++o) {
            for (const auto& v : OPS[o].values)
                for (unsigned w : {0U, 1U}) ones->push_back({o, v, w});
            unsigned w = o;
            for (const auto& v : OPS[o].unusual) ones->push_back({o, v, w++ % 2});
        }
        spaces.push_back({"one", ones->size(), [ones](uint64_t i, mc::Run& r) {
            const One& c = (*ones)[i];
            const Op& op = OPS[c.op];
            Network n = base();
            auto snapshots = both(n, true);
            const auto initial = snapshots;
            r.distinct(op.key + "=" + c.value + mc::str(c.working));
            const bool accepted = apply(r, n, op, c.value, c.working, snapshots);
            r.state(net::flat(snapshots[0]) + net::flat(snapshots[1]));
            if (accepted && op.key.find("/alias/") == std::string::npos) {
                const auto once = snapshots;
                if (!apply(r, n, op, c.value, c.working, snapshots)) r.fail("the value of " + op.key + " is refused the second time");
                for (unsigned v : {0U, 1U}) frame(r, op, VARIANTS[v], once[v], snapshots[v], true);
                // back to the value it had in this variant
                const std::string old = valueAt(initial[c.working], op.key);
                const bool same = op.perVariant || old == valueAt(initial[1 - c.working], op.key);
                if (old != "(absent)" && old != "-" && same && apply(r, n, op, old, c.working, snapshots)) {
                    for (unsigned v : {0U, 1U}) frame(r, op, VARIANTS[v], initial[v], snapshots[v], true);
                }
            }
            r.trace();
        }, [ones](uint64_t i) { const One& c = (*ones)[i]; return OPS[c.op].key + " := " + c.value + " in " + VARIANTS[c.working]; }});
        // ordered pairs of modifications of one object
        struct Two { unsigned op1, op2, value, working; };
        auto twos = std::make_shared<std::vector<Two>>();
        std::map<std::string, std::vector<unsigned>> groups;
        for (unsigned o = 0; o < OPS.size(); ++o) groups[OPS[o].object].push_back(o);
        for (const auto& g : groups) {
            for (unsigned a : g.second) {
                for (unsigned b : g.second) {
                    if (a == b) continue;
                    const bool generic = OPS[a].key.find("/prop/") != std::string::npos || OPS[a].key.find("/alias/") != std::string::npos || OPS[b].key.find("/prop/") != std::string::npos || OPS[b].key.find("/alias/") != std::string::npos ||
                                         (OPS[a].key.find("/step/") != std::string::npos && OPS[b].key.find("/step/") != std::string::npos);
                    if (generic && !deep) continue;
                    for (unsigned v = 0; v < (deep ? OPS[b].values.size() : 1); ++v)
                        for (unsigned w = 0; w < (deep ? 4U : 1U); ++w) twos->push_back({a, b, v, deep ? w : 1 + (a + b) % 2});
                }
            }
        }
        spaces.push_back({"two", twos->size(), [twos](uint64_t i, mc::Run& r) {
            const Two& c = (*twos)[i];
            Network n = base();
            auto snapshots = both(n, false);
            apply(r, n, OPS[c.op1], OPS[c.op1].values[c.value % OPS[c.op1].values.size()], c.working % 2, snapshots);
            const bool sameKey = OPS[c.op1].key == OPS[c.op2].key;
            if (!sameKey) apply(r, n, OPS[c.op2], OPS[c.op2].values[c.value], c.working / 2, snapshots);
            r.state(net::flat(snapshots[0]) + net::flat(snapshots[1]));
            r.trace();
        }, [twos](uint64_t i) { const Two& c = (*twos)[i]; return OPS[c.op1].key + " then " + OPS[c.op2].key; }});
    });
}
