// C22: histories of requests on a shunt compensator, linear or not, in lock step with a model, and every combination of the
// settings of a new one.
#include <cmath>
#include <limits>
#include <map>

#include "net.hpp"

using namespace powsybl::iidm;  // NOLINT

namespace {

const double NaN = std::numeric_limits<double>::quiet_NaN();
const std::string INITIAL = VariantManager::getInitialVariantId();

enum Where { SELF, LOAD, FOREIGN };

struct State { unsigned long sections = 0; bool on = false; double target = NaN, deadband = NaN; };

struct Model {
    bool linear = true;
    unsigned long max = 0;
    double b = 0, g = NaN;
    std::vector<std::pair<double, double>> s;   // non linear
    double B(unsigned long n) const { return linear ? b * static_cast<double>(n) : n == 0 ? 0 : s[n - 1].first; }
    double G(unsigned long n) const { return linear ? (std::isnan(g) ? 0 : g * static_cast<double>(n)) : n == 0 ? 0 : s[n - 1].second; }
    unsigned long count() const { return linear ? max : s.size(); }
};

struct Arrangement { std::string name; bool linear; unsigned long max; };
const std::vector<Arrangement>& arrangements() {
    static const std::vector<Arrangement> a = {{"linear, 1 section", true, 1}, {"linear, 3 sections", true, 3}, {"non linear, 1 section", false, 1}, {"non linear, 3 sections", false, 3}};
    return a;
}

VoltageLevel& host(Network& n) {
    Substation& s = n.newSubstation().setId("S").add();
    VoltageLevel& v = s.newVoltageLevel().setId("V").setNominalV(400).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    v.getBusBreakerView().newBus().setId("B").add();
    v.newLoad().setId("LD").setBus("B").setConnectableBus("B").setP0(1).setQ0(1).add();
    return v;
}

bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

ShuntCompensator& create(VoltageLevel& v, const Arrangement& a, Model& m, const char* id, unsigned long sections) {
    m.linear = a.linear;
    ShuntCompensatorAdder adder = v.newShuntCompensator();
    adder.setId(id).setBus("B").setConnectableBus("B");
    adder.setSectionCount(sections);
    if (a.linear) {
        m.max = a.max;
        m.b = 0.25;
        m.g = 0.5;
        adder.newLinearModel().setBPerSection(m.b).setGPerSection(m.g).setMaximumSectionCount(a.max).add();
    } else {
        auto ma = adder.newNonLinearModel();
        for (unsigned k = 0; k < a.max; ++k) {
            // sections that are not proportional, one of them negative
            m.s.emplace_back(k == 1 ? -3 : 0.5 + k * k, 1 + k);
            ma.beginSection().setB(m.s.back().first).setG(m.s.back().second).endSection();
        }
        ma.add();
    }
    return adder.add();
}

class Shunt : public mc::System {
public:
    Shunt(const Arrangement& a, unsigned start) : m_a(a), m_network("c22", "verif"), m_other("other", "verif") {
        host(m_other);
        VoltageLevel& v = host(m_network);
        create(v, a, m_model, "X", std::min(a.max, 2UL));
        create(v, a, m_neighbour, "Y", 1);
        m_v[INITIAL].sections = std::min(a.max, 2UL);
        m_working = INITIAL;
        ShuntCompensator& x = shunt();
        if (start >= 1) {
            x.setTargetV(220).setTargetDeadband(2).setVoltageRegulatorOn(true);
            m_v[INITIAL].target = 220;
            m_v[INITIAL].deadband = 2;
            m_v[INITIAL].on = true;
        }
        if (start >= 2) {
            // a second variant, without regulation, with all its sections
            m_network.getVariantManager().cloneVariant(INITIAL, "V1");
            m_v["V1"] = m_v[INITIAL];
            m_network.getVariantManager().setWorkingVariant("V1");
            m_working = "V1";
            x.setVoltageRegulatorOn(false).setTargetV(NaN).setTargetDeadband(NaN).setSectionCount(a.max);
            m_v["V1"].on = false;
            m_v["V1"].target = m_v["V1"].deadband = NaN;
            m_v["V1"].sections = a.max;
            x.setTargetV(NaN);
        }
        if (start >= 3) {
            // the first and a third variant remain; what was in the second one must not matter any more
            m_network.getVariantManager().cloneVariant(INITIAL, "V2");
            m_v["V2"] = m_v[INITIAL];
            m_network.getVariantManager().setWorkingVariant("V2");
            m_working = "V2";
            x.setSectionCount(0);
            m_v["V2"].sections = 0;
            m_network.getVariantManager().removeVariant("V1");
            m_v.erase("V1");
        }
    }

    static const std::vector<std::string>& names() {
        static const std::vector<std::string> n = {"no section", "1 section", "all the sections", "one section too many", "a huge number of sections", "regulation on", "regulation off", "target unset", "target -1", "target 0", "target 225",
            "dead band unset", "dead band -1", "dead band 0", "regulate the load", "regulate itself", "regulate another network", "remove the load",
            "maximum 0 / first susceptance unset", "maximum 1 / first susceptance 2", "maximum 2 / last susceptance -1", "maximum + 1 / last susceptance 0", "susceptance per section unset / first conductance unset", "susceptance per section -0.5 / first conductance 3",
            "conductance per section unset / last conductance 0", "conductance per section 2 / last conductance -1", "ask the other kind of model",
            "clone the working variant to V1", "clone the working variant to V2", "select the first variant", "select V1", "remove V1", "overwrite V1 with the first variant", "overwrite the first variant with V1"};
        return n;
    }
    static std::string opName(unsigned op) { return names()[op]; }

    bool apply(unsigned op, mc::Run& run) override {
        run.step(opName(op));
        ShuntCompensator& x = shunt();
        State& s = m_v.at(m_working);
        auto& vm = m_network.getVariantManager();
        const auto sections = [&](unsigned long n) { if (expect(n <= m_model.count(), [&] { x.setSectionCount(n); }, run)) s.sections = n; };
        const auto target = [&](double t) { if (expect(!s.on || t > 0, [&] { x.setTargetV(t); }, run)) s.target = t; };
        const auto deadband = [&](double d) { if (expect(!(d < 0) && !(s.on && std::isnan(d)), [&] { x.setTargetDeadband(d); }, run)) s.deadband = d; };
        switch (op) {
            case 0: sections(0); return true;
            case 1: sections(1); return true;
            case 2: sections(m_model.count()); return true;
            case 3: sections(m_model.count() + 1); return true;
            case 4: sections(std::numeric_limits<unsigned long>::max()); return true;
            case 5: if (expect(s.target > 0 && s.deadband >= 0, [&] { x.setVoltageRegulatorOn(true); }, run)) s.on = true; return true;
            case 6: if (expect(true, [&] { x.setVoltageRegulatorOn(false); }, run)) s.on = false; return true;
            case 7: target(NaN); return true;
            case 8: target(-1); return true;
            case 9: target(0); return true;
            case 10: target(225); return true;
            case 11: deadband(NaN); return true;
            case 12: deadband(-1); return true;
            case 13: deadband(0); return true;
            case 14: if (!m_load) return false; if (expect(true, [&] { x.setRegulatingTerminal(stdcxx::ref(m_network.getLoad("LD").getTerminal())); }, run)) m_where = LOAD; return true;
            case 15: if (expect(true, [&] { x.setRegulatingTerminal(stdcxx::Reference<Terminal>()); }, run)) m_where = SELF; return true;
            case 16: expect(false, [&] { x.setRegulatingTerminal(stdcxx::ref(m_other.getLoad("LD").getTerminal())); }, run); return true;
            case 17:
                if (!m_load) return false;
                m_network.getLoad("LD").remove();
                m_load = false;
                if (m_where == LOAD) m_where = SELF;
                return true;
            case 26:
                if (m_a.linear) expect(false, [&] { x.getModel<ShuntCompensatorNonLinearModel>(); }, run);
                else expect(false, [&] { x.getModel<ShuntCompensatorLinearModel>(); }, run);
                return true;
            case 27: return clone("V1");
            case 28: return clone("V2");
            case 29: return select(INITIAL);
            case 30: return select("V1");
            case 31:
                if (m_v.count("V1") == 0 || m_working == "V1") return false;
                vm.removeVariant("V1");
                m_v.erase("V1");
                return true;
            case 32: return overwrite(INITIAL, "V1");
            case 33: return overwrite("V1", INITIAL);
            default: break;
        }
        if (m_a.linear) {
            auto& m = x.getModel<ShuntCompensatorLinearModel>();
            const auto maximum = [&](unsigned long n) {
                unsigned long used = 0;
                for (const auto& kv : m_v) used = std::max(used, kv.second.sections);
                if (expect(n > 0 && used <= n, [&] { m.setMaximumSectionCount(n); }, run)) m_model.max = n;
            };
            switch (op) {
                case 18: maximum(0); return true;
                case 19: maximum(1); return true;
                case 20: maximum(2); return true;
                case 21: if (m_model.max > 5) return false; maximum(m_model.max + 1); return true;
                case 22: expect(false, [&] { m.setBPerSection(NaN); }, run); return true;
                case 23: if (expect(true, [&] { m.setBPerSection(-0.5); }, run)) m_model.b = -0.5; return true;
                case 24: if (expect(true, [&] { m.setGPerSection(NaN); }, run)) m_model.g = NaN; return true;
                default: if (expect(true, [&] { m.setGPerSection(2); }, run)) m_model.g = 2; return true;
            }
        }
        auto& m = x.getModel<ShuntCompensatorNonLinearModel>();
        std::vector<ShuntCompensatorNonLinearModel::Section*> list;
        for (auto& section : m.getAllSections()) list.push_back(&section);
        auto& first = *list.front();
        auto& last = *list.back();
        switch (op) {
            case 18: expect(false, [&] { first.setB(NaN); }, run); return true;
            case 19: if (expect(true, [&] { first.setB(2); }, run)) m_model.s.front().first = 2; return true;
            case 20: if (expect(true, [&] { last.setB(-1); }, run)) m_model.s.back().first = -1; return true;
            case 21: if (expect(true, [&] { last.setB(0); }, run)) m_model.s.back().first = 0; return true;
            case 22: expect(false, [&] { first.setG(NaN); }, run); return true;
            case 23: if (expect(true, [&] { first.setG(3); }, run)) m_model.s.front().second = 3; return true;
            case 24: if (expect(true, [&] { last.setG(0); }, run)) m_model.s.back().second = 0; return true;
            default: if (expect(true, [&] { last.setG(-1); }, run)) m_model.s.back().second = -1; return true;
        }
    }

    void check(mc::Run& run) override {
        for (const auto& kv : m_v) {
            m_network.getVariantManager().setWorkingVariant(kv.first);
            observe(m_network.getShuntCompensator("X"), m_model, kv.second, kv.first, run);
            State neighbour;
            neighbour.sections = 1;
            observe(m_network.getShuntCompensator("Y"), m_neighbour, neighbour, "the neighbour in " + kv.first, run);
            const Terminal& t = m_where == LOAD ? m_network.getLoad("LD").getTerminal() : shunt().getTerminal();
            MC_CHECK(run, &shunt().getRegulatingTerminal() == &t, kv.first << ": regulating terminal");
        }
        m_network.getVariantManager().setWorkingVariant(m_working);
    }

    std::string key() override {
        std::ostringstream o;
        o << m_working << m_load << m_where << "," << m_model.max << "," << m_model.b << "," << m_model.g;
        for (const auto& x : m_model.s) o << ";" << x.first << "," << x.second;
        for (const auto& kv : m_v) o << "|" << kv.first << kv.second.sections << kv.second.on << kv.second.target << "," << kv.second.deadband;
        return o.str();
    }

private:
    ShuntCompensator& shunt() { return m_network.getShuntCompensator("X"); }

    static void observe(const ShuntCompensator& x, const Model& m, const State& s, const std::string& where, mc::Run& run) {
        MC_CHECK(run, x.getSectionCount() <= x.getMaximumSectionCount(), where << ": " << x.getSectionCount() << " sections of " << x.getMaximumSectionCount());
        MC_CHECK(run, x.getMaximumSectionCount() == m.count(), where << ": " << x.getMaximumSectionCount() << " sections instead of " << m.count());
        MC_CHECK(run, x.getSectionCount() == s.sections, where << ": " << x.getSectionCount() << " connected sections instead of " << s.sections);
        MC_CHECK(run, x.getB() == m.B(s.sections) && x.getG() == m.G(s.sections), where << ": " << x.getB() << ", " << x.getG() << " instead of " << m.B(s.sections) << ", " << m.G(s.sections));
        for (unsigned long n = 0; n <= m.count() + 2; ++n) {
            const bool ok = n <= m.count();
            double b = 0, g = 0;
            MC_CHECK(run, mc::accepted([&] { b = x.getB(n); }) == ok && mc::accepted([&] { g = x.getG(n); }) == ok  , where << ": refusal of " << n << " sections");
            if (ok) MC_CHECK(run, b == m.B(n) && g == m.G(n), where << ": values of " << n << " sections: " << b << ", " << g);
        }
        MC_CHECK(run, x.isVoltageRegulatorOn() == s.on && same(x.getTargetV(), s.target) && same(x.getTargetDeadband(), s.deadband), where << ": regulation " << x.isVoltageRegulatorOn() << ", " << x.getTargetV() << ", " << x.getTargetDeadband());
        if (x.isVoltageRegulatorOn()) MC_CHECK(run, x.getTargetV() > 0 && x.getTargetDeadband() >= 0, where << ": regulates without set-point or dead band");
        MC_CHECK(run, x.getModelType() == (m.linear ? ShuntCompensatorModelType::LINEAR : ShuntCompensatorModelType::NON_LINEAR), where << ": model");
        if (m.linear) {
            const auto& l = x.getModel<ShuntCompensatorLinearModel>();
            MC_CHECK(run, l.getBPerSection() == m.b && same(l.getGPerSection(), m.g), where << ": values per section");
        } else {
            std::size_t k = 0;
            for (const auto& section : x.getModel<ShuntCompensatorNonLinearModel>().getAllSections()) {
                MC_CHECK(run, k < m.s.size() && section.getB() == m.s[k].first && section.getG() == m.s[k].second, where << ": section " << k);
                ++k;
            }
            MC_CHECK(run, k == m.s.size(), where << ": list of the sections");
        }
    }

    static bool expect(bool ok, const std::function<void()>& f, mc::Run& run) {
        std::string what;
        const bool accepted = mc::accepted(f, &what);
        run.transition();
        MC_CHECK(run, accepted == ok, (accepted ? "accepted and should be refused" : "refused and should be accepted: ") << what);
        return ok;
    }

    bool clone(const std::string& to) {
        if (m_v.count(to) != 0) return false;
        m_network.getVariantManager().cloneVariant(m_working, to);
        m_v[to] = m_v.at(m_working);
        return true;
    }
    bool select(const std::string& v) {
        if (m_v.count(v) == 0 || m_working == v) return false;
        m_network.getVariantManager().setWorkingVariant(v);
        m_working = v;
        return true;
    }
    bool overwrite(const std::string& from, const std::string& to) {
        if (m_v.count(from) == 0 || m_v.count(to) == 0) return false;
        m_network.getVariantManager().cloneVariant(from, to, true);
        m_v[to] = m_v.at(from);
        return true;
    }

    const Arrangement& m_a;
    Network m_network, m_other;
    Model m_model, m_neighbour;
    std::map<std::string, State> m_v;
    std::string m_working;
    bool m_load = true;
    int m_where = SELF;
};

// ---- creation ------------------------------------------------------------------------------------------------------

const std::vector<unsigned>& creationDims() {
    // model, susceptance, conductance, maximum or number of sections, count, regulating, target, dead band, terminal
    static const std::vector<unsigned> d = {3, 3, 3, 4, 6, 2, 4, 4, 3};
    return d;
}

void creation(std::uint64_t i, mc::Run& run) {
    const auto c = mc::decode(i, creationDims());
    static const double bs[] = {NaN, 0, -2}, gs[] = {NaN, 0, 3}, targets[] = {NaN, -1, 0, 220}, deadbands[] = {NaN, -1, 0, 2};
    Network n("c22", "verif"), other("other", "verif");
    VoltageLevel& v = host(n);
    host(other);
    const double b = bs[c[1]], g = gs[c[2]], target = targets[c[6]], deadband = deadbands[c[7]];
    const unsigned long max = c[3];
    const bool hasMax = c[3] != 3, hasCount = c[4] != 5, on = c[5] == 1;
    Model m;
    m.linear = c[0] != 1;
    m.max = max;
    m.b = b;
    m.g = g;
    bool ok = c[0] != 2 && !(on && !(target > 0)) && !(deadband < 0) && !(on && std::isnan(deadband)) && c[8] != 2 && hasCount;
    if (c[0] == 0) ok = ok && !std::isnan(b) && hasMax && max > 0 && c[4] <= max;
    if (c[0] == 1) ok = ok && max > 0 && (!std::isnan(b) || max == 0) && c[4] <= max;
    std::string what;
    const bool accepted = mc::accepted([&] {
        auto a = v.newShuntCompensator();
        a.setId("X").setBus("B").setConnectableBus("B");
        a.setTargetV(target).setTargetDeadband(deadband).setVoltageRegulatorOn(on);
        if (hasCount) a.setSectionCount(c[4]);
        if (c[8] == 1) a.setRegulatingTerminal(stdcxx::ref(n.getLoad("LD").getTerminal()));
        if (c[8] == 2) a.setRegulatingTerminal(stdcxx::ref(other.getLoad("LD").getTerminal()));
        if (c[0] == 0) {
            auto l = a.newLinearModel();
            l.setBPerSection(b).setGPerSection(g);
            if (hasMax) l.setMaximumSectionCount(max);
            l.add();
        } else if (c[0] == 1) {
            auto l = a.newNonLinearModel();
            for (unsigned k = 0; k < max; ++k) {
                // an unset conductance is that of the previous section
                l.beginSection().setB(b * (k + 1)).setG(k == 1 ? NaN : g).endSection();
                const double before = m.s.empty() ? 0 : m.s.back().second;
                m.s.emplace_back(b * (k + 1), k == 1 || std::isnan(g) ? before : g);
            }
            l.add();
        }
        a.add();
    }, &what);
    run.state(i);
    run.transition();
    MC_CHECK(run, accepted == ok, (accepted ? "accepted and should be refused" : "refused and should be accepted: ") << what);
    MC_CHECK(run, n.getShuntCompensatorCount() == (ok ? 1UL : 0UL) && static_cast<bool>(n.find<ShuntCompensator>("X")) == ok && static_cast<bool>(n.find<Identifiable>("X")) == ok, "existence");
    MC_CHECK(run, n.getVoltageLevel("V").getConnectableCount() == (ok ? 2UL : 1UL), "connectables of the voltage level");
    if (!ok) return;
    const auto& x = n.getShuntCompensator("X");
    MC_CHECK(run, x.getSectionCount() == c[4] && x.getMaximumSectionCount() == m.count(), "sections");
    for (unsigned long k = 0; k <= m.count(); ++k) MC_CHECK(run, x.getB(k) == m.B(k) && x.getG(k) == m.G(k), "values of " << k << " sections: " << x.getB(k) << ", " << x.getG(k) << " instead of " << m.B(k) << ", " << m.G(k));
    MC_CHECK(run, x.getB() == m.B(c[4]) && x.getG() == m.G(c[4]), "values");
    MC_CHECK(run, x.isVoltageRegulatorOn() == on && same(x.getTargetV(), target) && same(x.getTargetDeadband(), deadband), "regulation");
    MC_CHECK(run, &x.getRegulatingTerminal() == (c[8] == 1 ? &n.getLoad("LD").getTerminal() : &x.getTerminal()), "regulating terminal");
}

const char* const STARTS[] = {"no regulation", "regulation", "two variants with different regulations and sections", "a removed variant between two others"};

}  // namespace

int main(int argc, char** argv) {
    mc::Config config;
    config.property = "C22";
    config.level = "model_checking";
    return mc::main(argc, argv, config, [](bool thorough, std::vector<mc::Space>& spaces) {
        spaces.push_back(mc::Space{"creation", mc::product(creationDims()), creation, [](std::uint64_t i) {
            std::ostringstream o;
            o << "model, susceptance, conductance, maximum, count, regulating, target, dead band, terminal:";
            for (unsigned v : mc::decode(i, creationDims())) o << " " << v;
            return o.str();
        }});
        for (const Arrangement& a : arrangements()) {
            for (unsigned start = 0; start < 4; ++start) {
                spaces.push_back(mc::sequences(a.name + ", from: " + STARTS[start], static_cast<unsigned>(Shunt::names().size()), thorough ? 4U : 3U, mc::Queries::BOTH,
                    [&a, start] { return std::unique_ptr<mc::System>(new Shunt(a, start)); }, Shunt::opName));
            }
        }
    });
}
