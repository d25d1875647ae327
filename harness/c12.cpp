// C12: histories of requests on the tap changers of two and three windings transformers, in lock step with a model.
#include <cmath>
#include <limits>

#include "net.hpp"

using namespace powsybl::iidm;  // NOLINT

namespace {

const double NaN = std::numeric_limits<double>::quiet_NaN();

const std::string INITIAL = VariantManager::getInitialVariantId();

enum Terminals { NONE, LOAD, SELF, FOREIGN };
const char* const TERMINAL_NAMES[] = {"nothing", "the load", "the transformer", "a load of another network"};

struct State { long pos = 0; bool regulating = false; double target = NaN, deadband = NaN; };

struct TapModel {
    bool ratio = true;
    bool exists = false;
    long low = 0;
    int count = 0;
    int generation = 0;
    bool ltc = true;
    int mode = 0;        // 0 current limiter, 1 active power control, 2 fixed
    int terminal = NONE;
    std::map<std::string, State> v;

    bool rules(const State& s, bool regulating, double target, int t, bool l, int m) const {
        (void)s;
        if (!regulating) return true;
        if (ratio) return !l || (!std::isnan(target) && target > 0 && t != NONE);
        return m != 2 && !std::isnan(target) && t != NONE;
    }
    bool allRules(int t, bool l, int m) const {
        for (const auto& kv : v) if (!rules(kv.second, kv.second.regulating, kv.second.target, t, l, m)) return false;
        return true;
    }
    bool anyRegulating() const {
        for (const auto& kv : v) if (kv.second.regulating) return true;
        return false;
    }
    long high() const { return low + count - 1; }
};

struct Slot {
    std::string name;
    bool ratio;
    std::function<RatioTapChangerHolder&(Network&)> ratioHolder;
    std::function<PhaseTapChangerHolder&(Network&)> phaseHolder;
    std::function<Terminal&(Network&)> self;
};

struct Arrangement {
    std::string name;
    std::vector<Slot> slots;
};

TwoWindingsTransformer& t2(Network& n) { return n.getTwoWindingsTransformer("T"); }
ThreeWindingsTransformer& t3(Network& n) { return n.getThreeWindingsTransformer("W"); }

const std::vector<Arrangement>& arrangements() {
    static const std::vector<Arrangement> a = [] {
        const auto self2 = [](Network& n) -> Terminal& { return t2(n).getTerminal1(); };
        const auto self3 = [](Network& n) -> Terminal& { return t3(n).getLeg2().getTerminal(); };
        std::vector<Arrangement> r;
        r.push_back({"two windings", {{"ratio", true, [](Network& n) -> RatioTapChangerHolder& { return t2(n); }, {}, self2}, {"phase", false, {}, [](Network& n) -> PhaseTapChangerHolder& { return t2(n); }, self2}}});
        r.push_back({"three windings", {{"ratio of leg 2", true, [](Network& n) -> RatioTapChangerHolder& { return t3(n).getLeg2(); }, {}, self3}, {"ratio of leg 3", true, [](Network& n) -> RatioTapChangerHolder& { return t3(n).getLeg3(); }, {}, self3},
            {"phase of leg 1", false, {}, [](Network& n) -> PhaseTapChangerHolder& { return t3(n).getLeg1(); }, self3}}});
        r.push_back({"one leg", {{"ratio of leg 1", true, [](Network& n) -> RatioTapChangerHolder& { return t3(n).getLeg1(); }, {}, self3}, {"phase of leg 1", false, {}, [](Network& n) -> PhaseTapChangerHolder& { return t3(n).getLeg1(); }, self3}}});
        return r;
    }();
    return a;
}

Network build() {
    Network n("c12", "verif");
    Substation& s = n.newSubstation().setId("S").add();
    VoltageLevel& a = s.newVoltageLevel().setId("A").setNominalV(400).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    a.getBusBreakerView().newBus().setId("BA").add();
    VoltageLevel& b = s.newVoltageLevel().setId("B").setNominalV(225).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    b.getBusBreakerView().newBus().setId("BB").add();
    b.newLoad().setId("LD").setBus("BB").setConnectableBus("BB").setP0(1).setQ0(1).add();
    s.newTwoWindingsTransformer().setId("T").setVoltageLevel1("A").setBus1("BA").setConnectableBus1("BA").setVoltageLevel2("B").setBus2("BB").setConnectableBus2("BB").setR(1).setX(2).setG(0).setB(0).setRatedU1(400).setRatedU2(225).add();
    s.newThreeWindingsTransformer().setId("W").newLeg1().setR(1).setX(2).setG(0).setB(0).setRatedU(400).setVoltageLevel("A").setBus("BA").setConnectableBus("BA").add()
        .newLeg2().setR(1).setX(2).setG(0).setB(0).setRatedU(225).setVoltageLevel("B").setBus("BB").setConnectableBus("BB").add()
        .newLeg3().setR(1).setX(2).setG(0).setB(0).setRatedU(225).setVoltageLevel("B").setBus("BB").setConnectableBus("BB").add().add();
    return n;
}

double stepValue(int generation, int step, int what) { return 100.0 * generation + 10.0 * step + what; }

class Taps : public mc::System {
public:
    Taps(const Arrangement& a, unsigned start) : m_a(a), m_network(build()), m_other(build()) {
        m_variants[INITIAL] = true;
        m_working = INITIAL;
        for (const Slot& s : a.slots) {
            TapModel t;
            t.ratio = s.ratio;
            m_taps.push_back(t);
        }
        mc::Run quiet;
        // start histories: nothing; one of each, none regulating, settings complete; the first one regulates; several variants
        if (start >= 1) for (unsigned k = 0; k < m_taps.size(); ++k) add(k, 3, -1, start >= 2 && k == 0, 220.0, 1.0, LOAD, quiet);
        if (start >= 3) {
            clone(INITIAL, "V1");
            m_network.getVariantManager().setWorkingVariant("V1");
            m_working = "V1";
            regulate(0, false, quiet);
            regulate(1, true, quiet);
        }
        if (start >= 4) {
            // a variant in the middle of the array has been removed
            clone("V1", "V2");
            m_network.getVariantManager().setWorkingVariant("V2");
            m_working = "V2";
            m_network.getVariantManager().removeVariant("V1");
            drop("V1");
        }
    }

    static unsigned perSlot(bool ratio) { return ratio ? 22U : 22U; }
    static unsigned nOps(const Arrangement& a) { return static_cast<unsigned>(a.slots.size()) * 22 + 9; }

    static std::string opName(const Arrangement& a, unsigned op) {
        if (op < a.slots.size() * 22) {
            static const std::vector<std::string> r = {"tap at the lowest", "tap at the highest", "tap above the highest", "tap below the lowest", "lowest + 3", "lowest - 2", "regulating on", "regulating off", "target unset", "target -1", "target 0", "target 225",
                "dead band unset", "dead band -1", "dead band 0", "regulate nothing", "regulate the load", "regulate another network", "load tap changing on", "load tap changing off", "remove", "create regulating"};
            static const std::vector<std::string> p = {"tap at the lowest", "tap at the highest", "tap above the highest", "tap below the lowest", "lowest + 3", "lowest - 2", "regulating on", "regulating off", "value unset", "value -1", "mode fixed", "mode current limiter",
                "dead band unset", "dead band -1", "dead band 0", "regulate nothing", "regulate the transformer", "regulate another network", "mode active power", "create fixed regulating", "remove", "create regulating"};
            const Slot& s = a.slots[op / 22];
            return s.name + ": " + (s.ratio ? r : p)[op % 22];
        }
        static const std::vector<std::string> o = {"clone the working variant to V1", "clone the working variant to V2", "select the first variant", "select V1", "remove V1", "overwrite the first variant with V1", "overwrite V1 with the first variant", "remove the load", "create the first one, not regulating, without settings"};
        return o[op - a.slots.size() * 22];
    }

    bool apply(unsigned op, mc::Run& run) override {
        run.step(opName(m_a, op));
        if (op < m_a.slots.size() * 22) return tapOp(op / 22, op % 22, run);
        auto& vm = m_network.getVariantManager();
        switch (op - m_a.slots.size() * 22) {
            case 0: return clone(m_working, "V1");
            case 1: return clone(m_working, "V2");
            case 2: return select(INITIAL);
            case 3: return select("V1");
            case 4:
                if (m_variants.count("V1") == 0 || m_working == "V1") return false;
                vm.removeVariant("V1");
                drop("V1");
                return true;
            case 5: return overwrite("V1", INITIAL);
            case 6: return overwrite(INITIAL, "V1");
            case 7:
                if (!m_load) return false;
                m_network.getLoad("LD").remove();
                m_load = false;
                for (auto& t : m_taps) {
                    if (t.terminal != LOAD) continue;
                    t.terminal = NONE;
                    for (auto& kv : t.v) kv.second.regulating = false;
                }
                return true;
            default: add(0, 2, 5, false, NaN, NaN, NONE, run); return true;
        }
    }

    void check(mc::Run& run) override {
        auto& vm = m_network.getVariantManager();
        for (const auto& variant : m_variants) {
            vm.setWorkingVariant(variant.first);
            unsigned regulating = 0;
            for (unsigned k = 0; k < m_taps.size(); ++k) {
                const Slot& s = m_a.slots[k];
                const std::string where = s.name + " in " + variant.first;
                if (s.ratio) {
                    RatioTapChangerHolder& h = s.ratioHolder(m_network);
                    MC_CHECK(run, h.hasRatioTapChanger() == m_taps[k].exists, where << ": existence");
                    MC_CHECK(run, static_cast<bool>(h.getOptionalRatioTapChanger()) == m_taps[k].exists, where << ": existence (optional)");
                    if (!m_taps[k].exists) { MC_CHECK(run, !mc::accepted([&] { h.getRatioTapChanger(); }), where << ": missing and returned"); continue; }
                    RatioTapChanger& t = h.getRatioTapChanger();
                    MC_CHECK(run, same(t.getTargetV(), m_taps[k].v.at(variant.first).target), where << ": target " << t.getTargetV() << " instead of " << m_taps[k].v.at(variant.first).target);
                    MC_CHECK(run, t.hasLoadTapChangingCapabilities() == m_taps[k].ltc, where << ": load tap changing capabilities");
                    common(run, t, k, variant.first, where);
                    regulating += t.isRegulating() ? 1 : 0;
                    // the guarantees themselves
                    if (t.isRegulating() && t.hasLoadTapChangingCapabilities()) MC_CHECK(run, t.getTargetV() > 0 && t.getRegulationTerminal(), where << ": regulates without target or terminal");
                    if (t.isRegulating()) MC_CHECK(run, t.getTargetDeadband() >= 0, where << ": regulates without dead band");
                } else {
                    PhaseTapChangerHolder& h = s.phaseHolder(m_network);
                    MC_CHECK(run, h.hasPhaseTapChanger() == m_taps[k].exists, where << ": existence");
                    MC_CHECK(run, static_cast<bool>(h.getOptionalPhaseTapChanger()) == m_taps[k].exists, where << ": existence (optional)");
                    if (!m_taps[k].exists) { MC_CHECK(run, !mc::accepted([&] { h.getPhaseTapChanger(); }), where << ": missing and returned"); continue; }
                    PhaseTapChanger& t = h.getPhaseTapChanger();
                    MC_CHECK(run, same(t.getRegulationValue(), m_taps[k].v.at(variant.first).target), where << ": value " << t.getRegulationValue() << " instead of " << m_taps[k].v.at(variant.first).target);
                    MC_CHECK(run, static_cast<int>(t.getRegulationMode()) == m_taps[k].mode, where << ": mode");
                    common(run, t, k, variant.first, where);
                    for (int i = 0; i < m_taps[k].count; ++i) MC_CHECK(run, t.getStep(m_taps[k].low + i).getAlpha() == stepValue(m_taps[k].generation, i, 5), where << ": angle of step " << i);
                    regulating += t.isRegulating() ? 1 : 0;
                    if (t.isRegulating()) {
                        MC_CHECK(run, !std::isnan(t.getRegulationValue()) && t.getRegulationTerminal() && t.getTargetDeadband() >= 0 && t.getRegulationMode() != PhaseTapChanger::RegulationMode::FIXED_TAP, where << ": regulates without value, terminal, dead band or mode");
                    }
                }
            }
            MC_CHECK(run, regulating <= 1, regulating << " tap changers of the transformer regulate in " << variant.first);
        }
        vm.setWorkingVariant(m_working);
    }

    std::string key() override {
        std::ostringstream o;
        o << m_working << m_load;
        for (const auto& t : m_taps) {
            o << "|" << t.exists << t.low << "," << t.count << "," << t.generation << t.ltc << t.mode << t.terminal;
            for (const auto& kv : t.v) o << ";" << kv.first << kv.second.pos << kv.second.regulating << kv.second.target << "," << kv.second.deadband;
        }
        return o.str();
    }

private:
    static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

    template <typename T>
    void common(mc::Run& run, T& t, unsigned k, const std::string& variant, const std::string& where) {
        const TapModel& m = m_taps[k];
        const State& s = m.v.at(variant);
        const T& c = t;
        MC_CHECK(run, t.getLowTapPosition() == m.low, where << ": lowest position " << t.getLowTapPosition() << " instead of " << m.low);
        MC_CHECK(run, t.getHighTapPosition() == m.high(), where << ": highest position " << t.getHighTapPosition() << " instead of " << m.high());
        MC_CHECK(run, static_cast<int>(t.getStepCount()) == m.count, where << ": number of steps");
        MC_CHECK(run, t.getTapPosition() == s.pos, where << ": position " << t.getTapPosition() << " instead of " << s.pos);
        MC_CHECK(run, t.getTapPosition() >= t.getLowTapPosition() && t.getTapPosition() <= t.getHighTapPosition(), where << ": position " << t.getTapPosition() << " is not one of the steps");
        MC_CHECK(run, t.isRegulating() == s.regulating, where << ": regulating " << t.isRegulating());
        MC_CHECK(run, same(t.getTargetDeadband(), s.deadband), where << ": dead band " << t.getTargetDeadband() << " instead of " << s.deadband);
        const Terminal* expected = m.terminal == NONE ? nullptr : m.terminal == LOAD ? &m_network.getLoad("LD").getTerminal() : &m_a.slots[k].self(m_network);
        MC_CHECK(run, (t.getRegulationTerminal() ? &t.getRegulationTerminal().get() : nullptr) == expected, where << ": regulation terminal");
        MC_CHECK(run, (c.getRegulationTerminal() ? &c.getRegulationTerminal().get() : nullptr) == expected, where << ": regulation terminal (const)");
        for (long p = m.low - 2; p <= m.high() + 2; ++p) {
            const bool valid = p >= m.low && p <= m.high();
            MC_CHECK(run, mc::accepted([&] { t.getStep(p); }) == valid, where << ": step " << p);
            if (!valid) continue;
            const int i = static_cast<int>(p - m.low);
            const auto& step = t.getStep(p);
            MC_CHECK(run, step.getRho() == stepValue(m.generation, i, 0) && step.getR() == stepValue(m.generation, i, 1) && step.getX() == stepValue(m.generation, i, 2) && step.getG() == stepValue(m.generation, i, 3) && step.getB() == stepValue(m.generation, i, 4),
                where << ": values of step " << p);
        }
        MC_CHECK(run, &t.getCurrentStep() == &t.getStep(s.pos) && &c.getCurrentStep() == &t.getStep(s.pos), where << ": current step");
        const auto all = t.getAllSteps();
        MC_CHECK(run, static_cast<int>(all.size()) == m.count && all.begin()->first == m.low && all.rbegin()->first == m.high(), where << ": list of the steps");
        for (const auto& kv : all) MC_CHECK(run, &kv.second.get() == &t.getStep(kv.first), where << ": list of the steps, " << kv.first);
        const auto call = c.getAllSteps();
        MC_CHECK(run, call.size() == all.size() && call.begin()->first == m.low && &call.begin()->second.get() == &all.begin()->second.get(), where << ": list of the steps (const)");
    }

    void expect(bool ok, const std::function<void()>& f, mc::Run& run) {
        std::string what;
        const bool accepted = mc::accepted(f, &what);
        run.transition();
        MC_CHECK(run, accepted == ok, (accepted ? "accepted and should be refused" : "refused and should be accepted: ") << what);
    }

    stdcxx::Reference<Terminal> terminal(unsigned k, int t) {
        switch (t) {
            case LOAD: return stdcxx::ref(m_network.getLoad("LD").getTerminal());
            case SELF: return stdcxx::ref(m_a.slots[k].self(m_network));
            case FOREIGN: return stdcxx::ref(m_other.getLoad("LD").getTerminal());
            default: return stdcxx::Reference<Terminal>();
        }
    }

    bool othersRegulate(unsigned k, bool anyVariant) const {
        for (unsigned i = 0; i < m_taps.size(); ++i) {
            if (i == k || !m_taps[i].exists) continue;
            if (anyVariant ? m_taps[i].anyRegulating() : m_taps[i].v.at(m_working).regulating) return true;
        }
        return false;
    }

    // create or replace
    void add(unsigned k, int count, long low, bool regulating, double target, double deadband, int t, mc::Run& run, int mode = 0) {
        TapModel& m = m_taps[k];
        const Slot& s = m_a.slots[k];
        ++m_generation;
        if (t == LOAD && !m_load) t = SELF;
        bool ok = !(regulating && std::isnan(deadband)) && !(deadband < 0) && m.rules(State(), regulating, target, t, true, mode) && t != FOREIGN && !(regulating && othersRegulate(k, true));
        expect(ok, [&] {
            if (s.ratio) {
                RatioTapChangerAdder a = s.ratioHolder(m_network).newRatioTapChanger();
                for (int i = 0; i < count; ++i) a.beginStep().setRho(stepValue(m_generation, i, 0)).setR(stepValue(m_generation, i, 1)).setX(stepValue(m_generation, i, 2)).setG(stepValue(m_generation, i, 3)).setB(stepValue(m_generation, i, 4)).endStep();
                a.setLowTapPosition(low).setTapPosition(low + 1).setRegulating(regulating).setTargetV(target).setTargetDeadband(deadband).setRegulationTerminal(terminal(k, t)).setLoadTapChangingCapabilities(true).add();
            } else {
                PhaseTapChangerAdder a = s.phaseHolder(m_network).newPhaseTapChanger();
                for (int i = 0; i < count; ++i) a.beginStep().setRho(stepValue(m_generation, i, 0)).setR(stepValue(m_generation, i, 1)).setX(stepValue(m_generation, i, 2)).setG(stepValue(m_generation, i, 3)).setB(stepValue(m_generation, i, 4)).setAlpha(stepValue(m_generation, i, 5)).endStep();
                a.setLowTapPosition(low).setTapPosition(low + 1).setRegulating(regulating).setRegulationValue(target).setTargetDeadband(deadband).setRegulationTerminal(terminal(k, t)).setRegulationMode(static_cast<PhaseTapChanger::RegulationMode>(mode)).add();
            }
        }, run);
        if (!ok) return;
        m.exists = true;
        m.low = low;
        m.count = count;
        m.generation = m_generation;
        m.ltc = true;
        m.mode = mode;
        m.terminal = t;
        m.v.clear();
        State st;
        st.pos = low + 1;
        st.regulating = regulating;
        st.target = target;
        st.deadband = deadband;
        for (const auto& v : m_variants) m.v[v.first] = st;
    }

    void regulate(unsigned k, bool on, mc::Run& run) {
        TapModel& m = m_taps[k];
        State& s = m.v.at(m_working);
        const bool ok = !on || (!std::isnan(s.deadband) && m.rules(s, true, s.target, m.terminal, m.ltc, m.mode) && !othersRegulate(k, false));
        expect(ok, [&] { if (m.ratio) m_a.slots[k].ratioHolder(m_network).getRatioTapChanger().setRegulating(on); else m_a.slots[k].phaseHolder(m_network).getPhaseTapChanger().setRegulating(on); }, run);
        if (ok) s.regulating = on;
    }

    bool tapOp(unsigned k, unsigned op, mc::Run& run) {
        TapModel& m = m_taps[k];
        const Slot& slot = m_a.slots[k];
        if (op == 21) { add(k, 4, 0, true, 200, 0.5, LOAD, run, m.ratio ? 0 : 1); return true; }
        if (op == 19 && !m.ratio) { add(k, 4, 0, true, 200, 0.5, LOAD, run, 2); return true; }
        if (!m.exists) return false;
        State& s = m.v.at(m_working);
        RatioTapChanger* r = m.ratio ? &slot.ratioHolder(m_network).getRatioTapChanger() : nullptr;
        PhaseTapChanger* p = m.ratio ? nullptr : &slot.phaseHolder(m_network).getPhaseTapChanger();
        const auto tap = [&](long pos) {
            const bool ok = pos >= m.low && pos <= m.high();
            expect(ok, [&] { if (r) r->setTapPosition(pos); else p->setTapPosition(pos); }, run);
            if (ok) s.pos = pos;
        };
        const auto low = [&](long l) {
            expect(true, [&] { if (r) r->setLowTapPosition(l); else p->setLowTapPosition(l); }, run);
            for (auto& kv : m.v) kv.second.pos += l - m.low;
            m.low = l;
        };
        const auto target = [&](double t) {
            const bool ok = m.rules(s, s.regulating, t, m.terminal, m.ltc, m.mode);
            expect(ok, [&] { if (r) r->setTargetV(t); else p->setRegulationValue(t); }, run);
            if (ok) s.target = t;
        };
        const auto deadband = [&](double d) {
            const bool ok = !(d < 0) && !(s.regulating && std::isnan(d));
            expect(ok, [&] { if (r) r->setTargetDeadband(d); else p->setTargetDeadband(d); }, run);
            if (ok) s.deadband = d;
        };
        const auto regulated = [&](int t) {
            const bool ok = t != FOREIGN && m.allRules(t, m.ltc, m.mode);
            const auto ref = terminal(k, t);
            expect(ok, [&] { if (r) r->setRegulationTerminal(ref); else p->setRegulationTerminal(ref); }, run);
            if (ok) m.terminal = t;
        };
        const auto mode = [&](int md) {
            const bool ok = m.allRules(m.terminal, m.ltc, md);
            expect(ok, [&] { p->setRegulationMode(static_cast<PhaseTapChanger::RegulationMode>(md)); }, run);
            if (ok) m.mode = md;
        };
        const auto ltc = [&](bool on) {
            const bool ok = m.allRules(m.terminal, on, m.mode);
            expect(ok, [&] { r->setLoadTapChangingCapabilities(on); }, run);
            if (ok) m.ltc = on;
        };
        switch (op) {
            case 0: tap(m.low); return true;
            case 1: tap(m.high()); return true;
            case 2: tap(m.high() + 1); return true;
            case 3: tap(m.low - 1); return true;
            case 4: low(m.low + 3); return true;
            case 5: low(m.low - 2); return true;
            case 6: regulate(k, true, run); return true;
            case 7: regulate(k, false, run); return true;
            case 8: target(NaN); return true;
            case 9: target(-1); return true;
            case 10: if (m.ratio) target(0); else mode(2); return true;
            case 11: if (m.ratio) target(225); else mode(0); return true;
            case 12: deadband(NaN); return true;
            case 13: deadband(-1); return true;
            case 14: deadband(0); return true;
            case 15: regulated(NONE); return true;
            case 16: if (m.ratio && !m_load) return false; regulated(m.ratio ? LOAD : SELF); return true;
            case 17: regulated(FOREIGN); return true;
            case 18: if (m.ratio) ltc(true); else mode(1); return true;
            case 19: ltc(false); return true;
            default:
                expect(true, [&] { if (r) r->remove(); else p->remove(); }, run);
                m.exists = false;
                m.v.clear();
                return true;
        }
    }

    bool clone(const std::string& from, const std::string& to) {
        if (m_variants.count(to) != 0) return false;
        m_network.getVariantManager().cloneVariant(from, to);
        m_variants[to] = true;
        for (auto& t : m_taps) if (t.exists) t.v[to] = t.v.at(from);
        return true;
    }
    bool overwrite(const std::string& from, const std::string& to) {
        if (m_variants.count(from) == 0 || m_variants.count(to) == 0) return false;
        m_network.getVariantManager().cloneVariant(from, to, true);
        for (auto& t : m_taps) if (t.exists) t.v[to] = t.v.at(from);
        return true;
    }
    bool select(const std::string& v) {
        if (m_variants.count(v) == 0 || m_working == v) return false;
        m_network.getVariantManager().setWorkingVariant(v);
        m_working = v;
        return true;
    }
    void drop(const std::string& v) {
        m_variants.erase(v);
        for (auto& t : m_taps) t.v.erase(v);
    }

    const Arrangement& m_a;
    Network m_network, m_other;
    std::vector<TapModel> m_taps;
    std::map<std::string, bool> m_variants;
    std::string m_working;
    bool m_load = true;
    int m_generation = 0;
};

// every combination of the settings of a new tap changer, in place of an existing one or not, beside a regulating one or not
const std::vector<unsigned>& creationDims() {
    static const std::vector<unsigned> d = {2, 3, 2, 5, 2, 4, 4, 4, 3, 2, 2};
    return d;
}

void creation(std::uint64_t i, mc::Run& run) {
    const auto c = mc::decode(i, creationDims());
    const bool ratio = c[0] == 0;
    const int count = static_cast<int>(c[1]);
    const long low = static_cast<long>(c[2]) * 4 - 1;
    const long high = low + count - 1;
    static const double targets[] = {NaN, -1, 0, 220};
    static const double deadbands[] = {NaN, -1, 0, 2};
    const bool regulating = c[4] == 1;
    const double target = targets[c[5]], deadband = deadbands[c[6]];
    const int where = static_cast<int>(c[7]);
    const unsigned mode = c[8];
    const bool replace = c[9] == 1, beside = c[10] == 1;
    if (ratio && mode == 2) return;
    Network n = build(), other = build();
    TwoWindingsTransformer& t = t2(n);
    Terminal& load = n.getLoad("LD").getTerminal();
    const auto simple = [&](bool r, bool on) {
        if (r) {
            auto a = t.newRatioTapChanger();
            a.beginStep().setRho(1).setR(0).setX(0).setG(0).setB(0).endStep();
            a.setTapPosition(0).setRegulating(on).setTargetV(100).setTargetDeadband(1).setRegulationTerminal(stdcxx::ref(load)).setLoadTapChangingCapabilities(true).add();
        } else {
            auto a = t.newPhaseTapChanger();
            a.beginStep().setAlpha(2).setRho(1).setR(0).setX(0).setG(0).setB(0).endStep();
            a.setTapPosition(0).setRegulating(on).setRegulationValue(100).setTargetDeadband(1).setRegulationTerminal(stdcxx::ref(load)).setRegulationMode(PhaseTapChanger::RegulationMode::CURRENT_LIMITER).add();
        }
    };
    if (replace) simple(ratio, !beside);
    if (beside) simple(!ratio, true);
    const bool position = c[3] >= 1;
    const long pos = c[3] == 1 ? low - 1 : c[3] == 2 ? low : c[3] == 3 ? high : c[3] == 4 ? high + 1 : 0;
    Terminal* terminals[] = {nullptr, &load, &t.getTerminal1(), &other.getLoad("LD").getTerminal()};
    const bool ltc = mode == 1;
    bool ok = count > 0 && position && pos >= low && pos <= high && !(deadband < 0) && !(regulating && std::isnan(deadband)) && where != 3 && !(regulating && beside);
    if (regulating && ratio && ltc) ok = ok && target > 0 && where != 0;
    if (regulating && !ratio) ok = ok && !std::isnan(target) && where != 0 && mode != 2;
    net::DumpOptions lean;
    lean.topology = lean.components = lean.extensions = lean.views = false;
    const auto before = ok ? net::Snapshot() : net::dump(n, lean);
    std::string what;
    const bool accepted = mc::accepted([&] {
        stdcxx::Reference<Terminal> ref;
        if (terminals[where] != nullptr) ref = stdcxx::ref(*terminals[where]);
        if (ratio) {
            auto a = t.newRatioTapChanger();
            for (int k = 0; k < count; ++k) a.beginStep().setRho(1 + k).setR(0).setX(0).setG(0).setB(0).endStep();
            if (position) a.setTapPosition(pos);
            a.setLowTapPosition(low).setRegulating(regulating).setTargetV(target).setTargetDeadband(deadband).setRegulationTerminal(ref).setLoadTapChangingCapabilities(ltc).add();
        } else {
            auto a = t.newPhaseTapChanger();
            for (int k = 0; k < count; ++k) a.beginStep().setAlpha(5).setRho(1 + k).setR(0).setX(0).setG(0).setB(0).endStep();
            if (position) a.setTapPosition(pos);
            a.setLowTapPosition(low).setRegulating(regulating).setRegulationValue(target).setTargetDeadband(deadband).setRegulationTerminal(ref).setRegulationMode(static_cast<PhaseTapChanger::RegulationMode>(mode)).add();
        }
    }, &what);
    run.state(i);
    run.transition();
    MC_CHECK(run, accepted == ok, (accepted ? "accepted and should be refused" : "refused and should be accepted: ") << what);
    if (!accepted) {
        const auto d = net::diff(before, net::dump(n, lean));
        MC_CHECK(run, d.empty(), "refused and changed: " << d);
        return;
    }
    const auto same = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); };
    if (ratio) {
        const auto& r = t.getRatioTapChanger();
        MC_CHECK(run, r.getLowTapPosition() == low && r.getHighTapPosition() == high && r.getTapPosition() == pos && r.getCurrentStep().getRho() == static_cast<double>(1 + pos - low), "positions");
        MC_CHECK(run, r.isRegulating() == regulating && same(r.getTargetV(), target) && same(r.getTargetDeadband(), deadband) && r.hasLoadTapChangingCapabilities() == ltc, "settings");
        MC_CHECK(run, (r.getRegulationTerminal() ? &r.getRegulationTerminal().get() : nullptr) == terminals[where], "regulation terminal");
    } else {
        const auto& p = t.getPhaseTapChanger();
        MC_CHECK(run, p.getLowTapPosition() == low && p.getHighTapPosition() == high && p.getTapPosition() == pos && p.getCurrentStep().getRho() == static_cast<double>(1 + pos - low), "positions");
        MC_CHECK(run, p.isRegulating() == regulating && same(p.getRegulationValue(), target) && same(p.getTargetDeadband(), deadband) && static_cast<unsigned>(p.getRegulationMode()) == mode, "settings");
        MC_CHECK(run, (p.getRegulationTerminal() ? &p.getRegulationTerminal().get() : nullptr) == terminals[where], "regulation terminal");
    }
}

const char* const STARTS[] = {"nothing", "complete settings", "one regulates", "one regulates in each of two variants", "one regulates in each of two variants, a third was removed"};

}  // namespace

int main(int argc, char** argv) {
    mc::Config config;
    config.property = "C12";
    config.level = "model_checking";
    config.assumptions = {"tap positions far from the limits of the integers", "ratio tap changers without load tap changing capabilities only warn about their target and terminal"};
    return mc::main(argc, argv, config, [](bool thorough, std::vector<mc::Space>& spaces) {
        spaces.push_back(mc::Space{"creation", mc::product(creationDims()), creation, [](std::uint64_t i) {
            std::ostringstream o;
            o << "kind, steps, lowest, position, regulating, target, dead band, terminal, mode, replaces, beside:";
            for (unsigned v : mc::decode(i, creationDims())) o << " " << v;
            return o.str();
        }});
        for (const Arrangement& a : arrangements()) {
            for (unsigned start = 0; start < 5; ++start) {
                const unsigned depth = a.slots.size() > 2 ? (thorough ? 3U : 2U) : a.name == "one leg" ? (thorough ? 3U : start == 1 ? 3U : 2U) : thorough ? (start == 0 ? 4U : 3U) : 3U;
                spaces.push_back(mc::sequences(a.name + ", from: " + STARTS[start], Taps::nOps(a), depth, mc::Queries::BOTH,
                    [&a, start] { return std::unique_ptr<mc::System>(new Taps(a, start)); }, [&a](unsigned op) { return Taps::opName(a, op); }));
            }
        }
    });
}
