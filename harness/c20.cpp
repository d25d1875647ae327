// C20: permanent and temporary limits, overloads, and the histories of definitions of limits on every side and of every kind.
#include <cmath>
#include <limits>
#include <map>

#include "net.hpp"

using namespace powsybl::iidm;  // NOLINT

namespace {

const double NaN = std::numeric_limits<double>::quiet_NaN();
const double BIG = std::numeric_limits<double>::max();
const LimitType TYPES[] = {LimitType::CURRENT, LimitType::ACTIVE_POWER, LimitType::APPARENT_POWER};
const char* const TYPE_NAMES[] = {"current", "active power", "apparent power"};

Network build() {
    Network n("c20", "verif");
    Substation& s = n.newSubstation().setId("S").add();
    VoltageLevel& v = s.newVoltageLevel().setId("V").setNominalV(400).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    v.getBusBreakerView().newBus().setId("B1").add();
    v.getBusBreakerView().newBus().setId("B2").add();
    v.getBusBreakerView().newBus().setId("B3").add();
    n.newLine().setId("L").setVoltageLevel1("V").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("V").setBus2("B2").setConnectableBus2("B2").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add();
    s.newTwoWindingsTransformer().setId("T").setVoltageLevel1("V").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("V").setBus2("B2").setConnectableBus2("B2").setR(1).setX(2).setG(0).setB(0).setRatedU1(400).setRatedU2(400).add();
    v.newDanglingLine().setId("D").setBus("B1").setConnectableBus("B1").setP0(1).setQ0(1).setR(1).setX(1).setG(0).setB(0).add();
    s.newThreeWindingsTransformer().setId("W").newLeg1().setR(1).setX(2).setG(0).setB(0).setRatedU(400).setVoltageLevel("V").setBus("B1").setConnectableBus("B1").add()
        .newLeg2().setR(1).setX(2).setG(0).setB(0).setRatedU(400).setVoltageLevel("V").setBus("B2").setConnectableBus("B2").add()
        .newLeg3().setR(1).setX(2).setG(0).setB(0).setRatedU(400).setVoltageLevel("V").setBus("B3").setConnectableBus("B3").add().add();
    n.newTieLine().setId("TL").setVoltageLevel1("V").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("V").setBus2("B2").setConnectableBus2("B2").setUcteXnodeCode("XN")
        .newHalfLine1().setId("h1").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add().newHalfLine2().setId("h2").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add().add();
    return n;
}

Branch& branch(Network& n, unsigned k) {
    if (k == 0) return n.getLine("L");
    if (k == 1) return n.getTwoWindingsTransformer("T");
    return n.getLine("TL");
}

struct Temporary { std::string name; double value; unsigned long duration; bool fictitious; };
struct Set { bool defined = false; double permanent = NaN; std::map<unsigned long, Temporary, std::greater<unsigned long>> t; };

template <typename A>
void defineWith(A a, const Set& s) {
    a.setPermanentLimit(s.permanent);
    for (const auto& t : s.t) a.beginTemporaryLimit().setName(t.second.name).setValue(t.second.value).setAcceptableDuration(t.second.duration).setFictitious(t.second.fictitious).endTemporaryLimit();
    a.add();
}

void define(Branch& b, unsigned side, unsigned type, const Set& s) {
    if (!s.defined) return;
    switch (side * 3 + type) {
        case 0: defineWith(b.newCurrentLimits1(), s); break;
        case 1: defineWith(b.newActivePowerLimits1(), s); break;
        case 2: defineWith(b.newApparentPowerLimits1(), s); break;
        case 3: defineWith(b.newCurrentLimits2(), s); break;
        case 4: defineWith(b.newActivePowerLimits2(), s); break;
        default: defineWith(b.newApparentPowerLimits2(), s); break;
    }
}

bool expectedPermanent(const Set& s, double flow, double reduction) {
    return s.defined && !std::isnan(s.permanent) && !std::isnan(flow) && flow >= s.permanent * reduction;
}

// the interval the flow lies in, from the permanent limit up, in the order of decreasing durations; 0: none
const Temporary* expectedTemporary(const Set& s, double flow, double reduction, std::string& previousName, double& previous) {
    if (!s.defined || std::isnan(s.permanent) || std::isnan(flow)) return nullptr;
    previousName.clear();
    previous = s.permanent;
    for (const auto& t : s.t) {
        if (previous * reduction <= flow && flow < t.second.value * reduction) return &t.second;
        previousName = t.second.name;
        previous = t.second.value;
    }
    return nullptr;
}

void checkOverload(const std::unique_ptr<Branch::Overload>& o, const Set& s, double flow, double reduction, const std::string& where, mc::Run& run) {
    std::string name;
    double previous = NaN;
    const Temporary* t = expectedTemporary(s, flow, reduction, name, previous);
    run.count();
    MC_CHECK(run, static_cast<bool>(o) == (t != nullptr), where << ": temporary overload " << (o ? "reported: " + o->getTemporaryLimit().getName() : "not reported: " + t->name));
    if (t == nullptr) return;
    const auto& l = o->getTemporaryLimit();
    MC_CHECK(run, l.getName() == t->name && l.getValue() == t->value && l.getAcceptableDuration() == t->duration && l.isFictitious() == t->fictitious, where << ": overload reported in " << l.getName() << " instead of " << t->name);
    MC_CHECK(run, o->getPreviousLimit() == previous && o->getPreviousLimitName() == name, where << ": previous limit " << o->getPreviousLimit() << " '" << o->getPreviousLimitName() << "' instead of " << previous << " '" << name << "'");
}

void checkSide(const Branch& b, unsigned side, unsigned type, const Set& s, double flow, double reduction, mc::Run& run) {
    const LimitType t = TYPES[type];
    const Branch::Side sd = side == 0 ? Branch::Side::ONE : Branch::Side::TWO;
    const std::string where = std::string(TYPE_NAMES[type]) + " of side " + (side == 0 ? "1" : "2") + ", flow " + mc::str(flow) + ", reduction " + mc::str(reduction);
    const bool over = expectedPermanent(s, flow, reduction);
    run.count(2);
    MC_CHECK(run, (side == 0 ? b.checkPermanentLimit1(reduction, t) : b.checkPermanentLimit2(reduction, t)) == over, where << ": permanent limit " << s.permanent << (over ? " not" : "") << " reported");
    MC_CHECK(run, b.checkPermanentLimit(sd, reduction, t) == over, where << ": permanent limit by side " << s.permanent << (over ? " not" : "") << " reported");
    checkOverload(side == 0 ? b.checkTemporaryLimits1(reduction, t) : b.checkTemporaryLimits2(reduction, t), s, flow, reduction, where, run);
    checkOverload(b.checkTemporaryLimits(sd, reduction, t), s, flow, reduction, where + ", by side", run);
    if (reduction == 1) {
        MC_CHECK(run, (side == 0 ? b.checkPermanentLimit1(t) : b.checkPermanentLimit2(t)) == over && b.checkPermanentLimit(sd, t) == over, where << ": permanent limit, default reduction");
        checkOverload(side == 0 ? b.checkTemporaryLimits1(t) : b.checkTemporaryLimits2(t), s, flow, 1, where + ", default reduction", run);
        checkOverload(b.checkTemporaryLimits(sd, t), s, flow, 1, where + ", by side, default reduction", run);
    }
}

double flowOf(const Terminal& t, unsigned type) {
    return type == 0 ? t.getI() : type == 1 ? t.getP() : std::sqrt(t.getP() * t.getP() + t.getQ() * t.getQ());
}

// ---- one set of limits, flows around each threshold ------------------------------------------------------------------

const unsigned long DURATIONS[] = {0, 60, std::numeric_limits<unsigned long>::max()};

// the ways to give up to three temporary limits: values (6 choices relative to the flow) and durations (a permutation)
std::vector<std::vector<std::pair<unsigned, unsigned>>> temporaries(unsigned values) {
    std::vector<std::vector<std::pair<unsigned, unsigned>>> all(1);
    for (unsigned a = 0; a < values; ++a) for (unsigned da = 0; da < 3; ++da) {
        all.push_back({{a, da}});
        for (unsigned b = 0; b < values; ++b) for (unsigned db = 0; db < 3; ++db) {
            if (db == da) continue;
            all.push_back({{a, da}, {b, db}});
            for (unsigned c = 0; c < values; ++c) all.push_back({{a, da}, {b, db}, {c, 3 - da - db}});
        }
    }
    return all;
}

struct Single {
    unsigned kind, type, side;
    static const unsigned VALUES = 6;
    static const std::vector<std::vector<std::pair<unsigned, unsigned>>>& sets() {
        static const auto s = temporaries(VALUES);
        return s;
    }
    // index: set of temporary limits; all the permanent limits, reductions and flows for each
    void run(uint64_t index, mc::Run& run) const {
        Network n = build();
        Branch& b = branch(n, kind);
        Terminal& t = side == 0 ? b.getTerminal1() : b.getTerminal2();
        n.getVoltageLevel("V").getBusBreakerView().getBus("B1").get().setV(380);
        n.getVoltageLevel("V").getBusBreakerView().getBus("B2").get().setV(410);
        // a decoy on the other side and of the other kinds
        Set decoy;
        decoy.defined = true;
        decoy.permanent = 1e-3;
        decoy.t[77] = {"decoy", 1e9, 77, false};
        for (unsigned s = 0; s < 2; ++s) for (unsigned k = 0; k < 3; ++k) if (s != side || k != type) define(b, s, k, decoy);
        (side == 0 ? b.getTerminal2() : b.getTerminal1()).setP(123).setQ(45);
        static const double flows[][2] = {{30, 40}, {7, 0}, {-30, 40}};
        for (const auto& f : flows) {
            t.setP(f[0]).setQ(f[1]);
            const double i = flowOf(t, type);
            const double base = std::fabs(i);
            for (double reduction : {1.0, 0.5, 2.0, 0.25}) {
                const double around[VALUES] = {std::nextafter(base, 0.0) / reduction, base / reduction, std::nextafter(base, BIG) / reduction, base / reduction / 4, base / reduction * 4, BIG};
                for (unsigned p = 0; p <= VALUES; ++p) {
                    if (p == 5) continue;
                    Set s;
                    s.defined = true;
                    s.permanent = p == VALUES ? NaN : around[p];
                    for (const auto& x : sets()[index]) {
                        const unsigned long d = DURATIONS[x.second];
                        s.t[d] = {"T" + std::to_string(x.second), around[x.first], d, x.second == 1};
                    }
                    define(b, side, type, s);
                    for (double r : {reduction, 1.0}) {
                        checkSide(b, side, type, s, i, r, run);
                        if (r == 1 && reduction == 1) break;
                    }
                    if (type == 0) {
                        // isOverloaded and getOverloadDuration look at the current of both sides
                        const Terminal& o = side == 0 ? b.getTerminal2() : b.getTerminal1();
                        const bool other = expectedPermanent(decoy, flowOf(o, 0), reduction);
                        MC_CHECK(run, b.isOverloaded(reduction) == (other || expectedPermanent(s, i, reduction)), "overloaded");
                        std::string name;
                        double previous = 0;
                        const Temporary* t1 = expectedTemporary(s, i, 1, name, previous);
                        const Temporary* t2 = expectedTemporary(decoy, flowOf(o, 0), 1, name, previous);
                        const unsigned long none = std::numeric_limits<unsigned long>::max();
                        MC_CHECK(run, b.getOverloadDuration() == std::min(t1 == nullptr ? none : t1->duration, t2 == nullptr ? none : t2->duration), "duration of the overload");
                    }
                }
            }
        }
        // unset flow
        t.setP(NaN).setQ(NaN);
        Set s;
        s.defined = true;
        s.permanent = 1;
        for (const auto& x : sets()[index]) s.t[DURATIONS[x.second]] = {"T" + std::to_string(x.second), 10.0 + x.first, DURATIONS[x.second], false};
        define(b, side, type, s);
        checkSide(b, side, type, s, NaN, 1, run);
        run.distinct(mc::str(index) + "/" + mc::str(kind) + mc::str(type) + mc::str(side));
    }
    static std::string describe(uint64_t index) {
        std::ostringstream o;
        o << "temporary limits:";
        for (const auto& x : sets()[index]) o << " (value " << x.first << ", duration " << DURATIONS[x.second] << ")";
        return o.str();
    }
};

// ---- both sides: what is overloaded, for how long -----------------------------------------------------------------------

const char* const SITUATIONS[] = {"no limits", "no permanent limit", "no flow", "below the permanent limit", "at the permanent limit", "in the first interval", "in the second interval", "at the end of the last interval", "over everything", "no temporary limit, over"};

void situation(Branch& b, unsigned side, unsigned k, unsigned type, Set& s) {
    Terminal& t = side == 0 ? b.getTerminal1() : b.getTerminal2();
    t.setP(60 + side).setQ(k == 2 ? NaN : 0);
    if (k == 2 && type == 1) t.setP(NaN);
    const double f = k == 2 ? 60 : flowOf(t, type);
    s.defined = k != 0;
    if (!s.defined) return;
    const unsigned long longer = side == 0 ? 1200 : 600, shorter = side == 0 ? 20 : 60;
    double p = 0, a = 0, c = 0;
    switch (k) {
        case 1: p = NaN; a = f * 2; c = f * 3; break;
        case 2: p = f / 4; a = f * 2; c = f * 3; break;
        case 3: p = std::nextafter(f, BIG); a = f * 2; c = f * 3; break;
        case 4: p = f; a = f * 2; c = f * 3; break;
        case 5: p = f / 2; a = std::nextafter(f, BIG); c = f * 3; break;
        case 6: p = f / 2; a = f; c = f * 3; break;
        case 7: p = f / 2; a = f / 1.5; c = f; break;
        case 8: p = f / 4; a = f / 3; c = f / 2; break;
        default: p = f / 4; break;
    }
    s.permanent = p;
    if (k != 9) {
        s.t[longer] = {"long", a, longer, false};
        s.t[shorter] = {"short", c, shorter, true};
    }
    define(b, side, type, s);
}

void both(uint64_t index, mc::Run& run) {
    const auto c = mc::decode(index, {3, 10, 10, 3, 2});
    Network n = build();
    Branch& b = branch(n, c[0]);
    auto& view = n.getVoltageLevel("V").getBusBreakerView();
    view.getBus("B1").get().setV(380);
    view.getBus("B2").get().setV(410);
    Set s1, s2;
    situation(b, 0, c[1], c[3], s1);
    situation(b, 1, c[2], c[3], s2);
    // without voltage there is no current, but the powers are still there
    if (c[4] == 1) view.getBus("B1").get().setV(NaN);
    const double f1 = flowOf(b.getTerminal1(), c[3]), f2 = flowOf(b.getTerminal2(), c[3]);
    if (c[4] == 1 && c[3] == 0) MC_CHECK(run, std::isnan(f1), "current without voltage");
    for (double r : {1.0, 0.5, 0.9, 1.1, 3.0}) {
        checkSide(b, 0, c[3], s1, f1, r, run);
        checkSide(b, 1, c[3], s2, f2, r, run);
        const Set none;
        const Set& a1 = c[3] == 0 ? s1 : none;
        const Set& a2 = c[3] == 0 ? s2 : none;
        const bool over = expectedPermanent(a1, f1, r) || expectedPermanent(a2, f2, r);
        MC_CHECK(run, b.isOverloaded(r) == over, "overloaded with the reduction " << r << ": " << !over);
        if (r == 1) MC_CHECK(run, b.isOverloaded() == over, "overloaded: " << !over);
    }
    unsigned long duration = std::numeric_limits<unsigned long>::max();
    if (c[3] == 0) {
        std::string name;
        double previous = 0;
        if (const Temporary* t = expectedTemporary(s1, f1, 1, name, previous)) duration = std::min(duration, t->duration);
        if (const Temporary* t = expectedTemporary(s2, f2, 1, name, previous)) duration = std::min(duration, t->duration);
    }
    MC_CHECK(run, b.getOverloadDuration() == duration, "duration of the overload " << b.getOverloadDuration() << " instead of " << duration);
    run.distinct(index);
}

// ---- the current of a terminal ---------------------------------------------------------------------------------------------

void current(uint64_t index, mc::Run& run) {
    static const double values[] = {NaN, -50, 0, 3, 400};
    static const double voltages[] = {NaN, 20, 225, 400};
    const auto c = mc::decode(index, {5, 5, 4, 6});
    const double p = values[c[0]], q = values[c[1]], v = voltages[c[2]];
    Network n = build();
    n.getVoltageLevel("V").getBusBreakerView().getBus("B1").get().setV(v);
    n.getVoltageLevel("V").getBusBreakerView().getBus("B2").get().setV(v);
    Terminal* terminals[] = {&n.getLine("L").getTerminal1(), &n.getLine("TL").getTerminal2(), &n.getTwoWindingsTransformer("T").getTerminal1(), &n.getDanglingLine("D").getTerminal(), &n.getThreeWindingsTransformer("W").getLeg1().getTerminal(),
        &n.getThreeWindingsTransformer("W").getLeg2().getTerminal()};
    Terminal& t = *terminals[c[3]];
    t.setP(p).setQ(q);
    const double i = t.getI();
    const double right = std::hypot(p, q) / (std::sqrt(3.0) * v / 1000.0);
    run.count();
    run.distinct(index);
    const auto close = [](double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)); };
    if (close(i, right)) return;
    // known: the voltage multiplies instead of dividing
    if (close(i, std::hypot(p, q) / std::sqrt(3.0) * v / 1000.0)) run.fail("current-multiplied-by-voltage", "current " + mc::str(i) + " of " + mc::str(p) + " MW, " + mc::str(q) + " MVar under " + mc::str(v) + " kV instead of " + mc::str(right));
    run.fail("current " + mc::str(i) + " of " + mc::str(p) + " MW, " + mc::str(q) + " MVar under " + mc::str(v) + " kV instead of " + mc::str(right));
}

// ---- histories of definitions -----------------------------------------------------------------------------------------------

// a holder: two sides of each branch, a dangling line, the legs of a three windings transformer
const char* const PLACES[] = {"line, side 1", "line, side 2", "transformer, side 1", "transformer, side 2", "tie line, side 1", "tie line, side 2", "dangling line", "leg 1", "leg 2", "leg 3"};
const unsigned N_PLACES = 10;

FlowsLimitsHolder& flows(Network& n, unsigned place) {
    if (place == 6) return n.getDanglingLine("D");
    auto& w = n.getThreeWindingsTransformer("W");
    return place == 7 ? w.getLeg1() : place == 8 ? w.getLeg2() : w.getLeg3();
}

template <typename F>
void withAdder(Network& n, unsigned place, unsigned type, const F& f) {
    if (place < 6) {
        Branch& b = branch(n, place / 2);
        switch (place % 2 * 3 + type) {
            case 0: { auto a = b.newCurrentLimits1(); f(a); break; }
            case 1: { auto a = b.newActivePowerLimits1(); f(a); break; }
            case 2: { auto a = b.newApparentPowerLimits1(); f(a); break; }
            case 3: { auto a = b.newCurrentLimits2(); f(a); break; }
            case 4: { auto a = b.newActivePowerLimits2(); f(a); break; }
            default: { auto a = b.newApparentPowerLimits2(); f(a); break; }
        }
        return;
    }
    FlowsLimitsHolder& h = flows(n, place);
    switch (type) {
        case 0: { auto a = h.newCurrentLimits(); f(a); break; }
        case 1: { auto a = h.newActivePowerLimits(); f(a); break; }
        default: { auto a = h.newApparentPowerLimits(); f(a); break; }
    }
}

// the limits through every accessor, which have to agree
LoadingLimits* limits(Network& n, unsigned place, unsigned type, mc::Run& run) {
    const auto raw = [](LoadingLimits* l) { return l; };
    std::vector<const LoadingLimits*> seen;
    LoadingLimits* result = nullptr;
    const auto add = [&](LoadingLimits* l) { seen.push_back(l); result = raw(l); };
    const auto addConst = [&](const LoadingLimits* l) { seen.push_back(l); };
#define BOTH(REF, CREF) { const auto r = REF; add(r ? &r.get() : nullptr); const auto c = CREF; addConst(c ? &c.get() : nullptr); }
    if (place < 6) {
        Branch& b = branch(n, place / 2);
        const Branch& cb = b;
        const Branch::Side side = place % 2 == 0 ? Branch::Side::ONE : Branch::Side::TWO;
        BOTH(b.getLimits(TYPES[type], side), cb.getLimits(TYPES[type], side))
        switch (place % 2 * 3 + type) {
            case 0: BOTH(b.getCurrentLimits1(), cb.getCurrentLimits1()) break;
            case 1: BOTH(b.getActivePowerLimits1(), cb.getActivePowerLimits1()) break;
            case 2: BOTH(b.getApparentPowerLimits1(), cb.getApparentPowerLimits1()) break;
            case 3: BOTH(b.getCurrentLimits2(), cb.getCurrentLimits2()) break;
            case 4: BOTH(b.getActivePowerLimits2(), cb.getActivePowerLimits2()) break;
            default: BOTH(b.getApparentPowerLimits2(), cb.getApparentPowerLimits2()) break;
        }
        switch (type) {
            case 0: BOTH(b.getCurrentLimits(side), cb.getCurrentLimits(side)) break;
            case 1: BOTH(b.getActivePowerLimits(side), cb.getActivePowerLimits(side)) break;
            default: BOTH(b.getApparentPowerLimits(side), cb.getApparentPowerLimits(side)) break;
        }
    } else {
        FlowsLimitsHolder& h = flows(n, place);
        const FlowsLimitsHolder& ch = h;
        switch (type) {
            case 0: BOTH(h.getCurrentLimits(), ch.getCurrentLimits()) break;
            case 1: BOTH(h.getActivePowerLimits(), ch.getActivePowerLimits()) break;
            default: BOTH(h.getApparentPowerLimits(), ch.getApparentPowerLimits()) break;
        }
        unsigned listed = 0;
        for (const auto& l : ch.getOperationalLimits()) if (&l == static_cast<const OperationalLimits*>(result)) ++listed;
        MC_CHECK(run, listed == (result == nullptr ? 0U : 1U), PLACES[place] << ": " << TYPE_NAMES[type] << " limits listed " << listed << " times");
    }
    for (const LoadingLimits* l : seen) MC_CHECK(run, l == seen.front(), PLACES[place] << ": the accessors of the " << TYPE_NAMES[type] << " limits do not agree");
    if (result != nullptr) MC_CHECK(run, result->getLimitType() == TYPES[type], PLACES[place] << ": kind of limits");
    return result;
}

void compare(Network& n, unsigned place, unsigned type, const Set& s, mc::Run& run) {
    const std::string where = std::string(PLACES[place]) + ", " + TYPE_NAMES[type];
    LoadingLimits* l = limits(n, place, type, run);
    MC_CHECK(run, (l != nullptr) == s.defined, where << ": limits " << (l == nullptr ? "missing" : "defined"));
    if (l == nullptr) return;
    const LoadingLimits& cl = *l;
    MC_CHECK(run, l->getPermanentLimit() == s.permanent || (std::isnan(l->getPermanentLimit()) && std::isnan(s.permanent)), where << ": permanent limit " << l->getPermanentLimit() << " instead of " << s.permanent);
    auto it = s.t.begin();
    std::size_t count = 0;
    for (const auto& t : cl.getTemporaryLimits()) {
        MC_CHECK(run, it != s.t.end() && t.getName() == it->second.name && t.getValue() == it->second.value && t.getAcceptableDuration() == it->second.duration && t.isFictitious() == it->second.fictitious, where << ": temporary limit " << t.getName());
        MC_CHECK(run, &cl.getTemporaryLimit(it->first) == &t && &l->getTemporaryLimit(it->first) == &t && cl.getTemporaryLimitValue(it->first) == t.getValue(), where << ": temporary limit by duration");
        ++it;
        ++count;
    }
    MC_CHECK(run, count == s.t.size(), where << ": " << count << " temporary limits instead of " << s.t.size());
    for (unsigned long d : {0UL, 1UL, 59UL, 60UL, 61UL, 600UL, 1000UL}) {
        if (s.t.count(d) != 0) continue;
        MC_CHECK(run, std::isnan(cl.getTemporaryLimitValue(d)) && !mc::accepted([&] { cl.getTemporaryLimit(d); }) && !mc::accepted([&] { l->getTemporaryLimit(d); }), where << ": temporary limit of an unknown duration " << d);
    }
}

const char* const OPS[] = {"permanent 100", "permanent 50, two temporary", "permanent unset, one temporary", "permanent 0 (refused)", "two temporary of the same name (refused)", "set the permanent limit to 70", "set the permanent limit to -1 (refused)", "unset the permanent limit",
    "two temporary of the same name made unique", "an adder used twice"};
const unsigned N_OPS = 10;

class Definitions : public mc::System {
public:
    Definitions(unsigned place1, unsigned place2) : m_places{place1, place2}, m_network(build()) {}
    // 2 places x 3 kinds x N_OPS
    static std::string opName(unsigned place1, unsigned place2, unsigned op) {
        return std::string(PLACES[op / (3 * N_OPS) == 0 ? place1 : place2]) + ", " + TYPE_NAMES[op / N_OPS % 3] + ": " + OPS[op % N_OPS];
    }
    bool apply(unsigned op, mc::Run& run) override {
        const unsigned which = op / (3 * N_OPS), type = op / N_OPS % 3, place = m_places[which];
        run.step(opName(m_places[0], m_places[1], op));
        Set& s = m_sets[which * 3 + type];
        Set next;
        next.defined = true;
        bool ok = true;
        std::function<void()> f;
        LoadingLimits* existing = limits(m_network, place, type, run);
        switch (op % N_OPS) {
            case 0: next.permanent = 100; f = [&] { withAdder(m_network, place, type, [](auto& a) { a.setPermanentLimit(100).add(); }); }; break;
            case 1:
                next.permanent = 50;
                next.t[60] = {"short", 80, 60, false};
                next.t[600] = {"long", 70, 600, true};
                f = [&] { withAdder(m_network, place, type, [](auto& a) {
                    a.beginTemporaryLimit().setName("short").setValue(80).setAcceptableDuration(60).endTemporaryLimit();
                    a.beginTemporaryLimit().setName("long").setValue(70).setAcceptableDuration(600).setFictitious(true).endTemporaryLimit();
                    a.setPermanentLimit(50);
                    a.add();
                }); };
                break;
            case 2:
                next.t[0] = {"now", 10, 0, false};
                f = [&] { withAdder(m_network, place, type, [](auto& a) { a.beginTemporaryLimit().setName("now").setValue(10).setAcceptableDuration(0).endTemporaryLimit(); a.add(); }); };
                break;
            case 3: ok = false; f = [&] { withAdder(m_network, place, type, [](auto& a) { a.setPermanentLimit(0).add(); }); }; break;
            case 4:
                ok = false;
                f = [&] { withAdder(m_network, place, type, [](auto& a) {
                    a.setPermanentLimit(5);
                    a.beginTemporaryLimit().setName("x").setValue(80).setAcceptableDuration(60).endTemporaryLimit();
                    a.beginTemporaryLimit().setName("x").setValue(90).setAcceptableDuration(61).endTemporaryLimit();
                    a.add();
                }); };
                break;
            case 5: if (existing == nullptr) return false; next = s; next.permanent = 70; f = [&] { existing->setPermanentLimit(70); }; break;
            case 6: if (existing == nullptr) return false; ok = false; f = [&] { existing->setPermanentLimit(-1); }; break;
            case 7: if (existing == nullptr) return false; next = s; next.permanent = NaN; f = [&] { existing->setPermanentLimit(NaN); }; break;
            case 8:
                next.permanent = 5;
                next.t[60] = {"x", 80, 60, false};
                next.t[61] = {"x#0", 90, 61, false};
                next.t[1000] = {"x#1", 91, 1000, false};
                f = [&] { withAdder(m_network, place, type, [](auto& a) {
                    a.setPermanentLimit(5);
                    a.beginTemporaryLimit().setName("x").setValue(80).setAcceptableDuration(60).ensureNameUnicity().endTemporaryLimit();
                    a.beginTemporaryLimit().setName("x").setValue(90).setAcceptableDuration(61).ensureNameUnicity().endTemporaryLimit();
                    a.beginTemporaryLimit().setName("x").setValue(91).setAcceptableDuration(1000).ensureNameUnicity().endTemporaryLimit();
                    a.add();
                }); };
                break;
            default:
                next.permanent = 8;
                next.t[60] = {"x", 80, 60, false};
                f = [&] { withAdder(m_network, place, type, [](auto& a) {
                    a.setPermanentLimit(5);
                    a.add();
                    a.beginTemporaryLimit().setName("x").setValue(80).setAcceptableDuration(60).endTemporaryLimit();
                    a.setPermanentLimit(8);
                    a.add();
                }); };
                break;
        }
        std::string what;
        const bool accepted = mc::accepted(f, &what);
        run.transition();
        MC_CHECK(run, accepted == ok, (accepted ? "accepted and should be refused" : "refused: ") << what);
        if (ok) s = next;
        return true;
    }
    void check(mc::Run& run) override {
        for (unsigned place = 0; place < N_PLACES; ++place) for (unsigned type = 0; type < 3; ++type) {
            static const Set none;
            compare(m_network, place, type, place == m_places[0] ? m_sets[type] : place == m_places[1] ? m_sets[3 + type] : none, run);
        }
    }
    std::string key() override {
        std::ostringstream o;
        for (const Set& s : m_sets) {
            o << "|" << s.defined << s.permanent;
            for (const auto& t : s.t) o << "," << t.first << t.second.name;
        }
        return o.str();
    }

private:
    unsigned m_places[2];
    Network m_network;
    Set m_sets[6];
};

// every combination of the attributes of a limit, alone and after another one
void attributes(unsigned place, uint64_t index, mc::Run& run) {
    static const char* const names[] = {"", "A", "B"};
    static const double values[] = {NaN, -1, 0, 5, 1e300};
    static const double permanents[] = {NaN, -5, 0, 1e-9, 5, 5000};
    const auto c = mc::decode(index, {3, 3, 5, 4, 2, 2, 6, 3});
    const unsigned type = c[0];
    const bool hasDuration = c[3] != 3, unique = c[4] == 1, fictitious = c[5] == 1;
    const unsigned long durations[] = {0, 60, std::numeric_limits<unsigned long>::max(), 0};
    const unsigned first = c[7];   // 0: no other limit; 1: one with the name A; 2: two with the names A and A#0
    Network n = build();
    Set s;
    s.defined = true;
    s.permanent = 3;
    withAdder(n, place, type, [](auto& a) { a.setPermanentLimit(3).add(); });   // in force before
    const bool temporaryOk = c[1] != 0 && values[c[2]] > 0 && hasDuration;
    const double p = permanents[c[6]];
    std::string name = names[c[1]];
    if (unique && name == "A") name = first == 0 ? "A" : first == 1 ? "A#0" : "A#1";
    const bool clash = !unique && name == "A" && first != 0;
    const bool permanentOk = std::isnan(p) || p > 0;
    bool temporaryAccepted = false, accepted = false;
    withAdder(n, place, type, [&](auto& a) {
        a.setPermanentLimit(p);
        if (first >= 1) a.beginTemporaryLimit().setName("A").setValue(10).setAcceptableDuration(7).endTemporaryLimit();
        if (first >= 2) a.beginTemporaryLimit().setName("A#0").setValue(10).setAcceptableDuration(8).endTemporaryLimit();
        temporaryAccepted = mc::accepted([&] {
            auto t = a.beginTemporaryLimit();
            t.setName(names[c[1]]).setValue(values[c[2]]).setFictitious(fictitious);
            if (hasDuration) t.setAcceptableDuration(durations[c[3]]);
            if (unique) t.ensureNameUnicity();
            t.endTemporaryLimit();
        });
        accepted = mc::accepted([&] { a.add(); });
    });
    run.count();
    run.distinct(mc::str(index) + "@" + mc::str(place));
    MC_CHECK(run, temporaryAccepted == temporaryOk, "temporary limit " << (temporaryAccepted ? "accepted" : "refused"));
    const bool ok = permanentOk && !(temporaryOk && clash);
    MC_CHECK(run, accepted == ok, "limits " << (accepted ? "accepted" : "refused"));
    if (ok) {
        s.permanent = p;
        if (first >= 1) s.t[7] = {"A", 10, 7, false};
        if (first >= 2) s.t[8] = {"A#0", 10, 8, false};
        if (temporaryOk) s.t[durations[c[3]]] = {name, values[c[2]], durations[c[3]], fictitious};
    }
    for (unsigned q = 0; q < N_PLACES; ++q) for (unsigned t = 0; t < 3; ++t) compare(n, q, t, q == place && t == type ? s : Set(), run);
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config config;
    config.property = "C20";
    config.level = "model_checking";
    config.assumptions = {"one temporary limit per acceptable duration", "the flow of a current limit is the current reported by the terminal"};
    return mc::main(argc, argv, config, [](bool thorough, std::vector<mc::Space>& spaces) {
        for (unsigned kind = 0; kind < 3; ++kind) for (unsigned type = 0; type < 3; ++type) for (unsigned side = 0; side < 2; ++side) {
            const Single s{kind, type, side};
            spaces.push_back(mc::Space{std::string(PLACES[kind * 2 + side]) + ", " + TYPE_NAMES[type] + ": overloads", Single::sets().size(), [s](uint64_t i, mc::Run& r) { s.run(i, r); }, Single::describe});
        }
        spaces.push_back(mc::Space{"overloads of both sides", mc::product({3, 10, 10, 3, 2}), both, [](uint64_t i) {
            const auto c = mc::decode(i, {3, 10, 10, 3, 2});
            return "branch " + std::to_string(c[0]) + ", " + TYPE_NAMES[c[3]] + ", side 1 " + SITUATIONS[c[1]] + ", side 2 " + SITUATIONS[c[2]] + (c[4] == 1 ? ", no voltage on side 1" : "");
        }});
        spaces.push_back(mc::Space{"current", mc::product({5, 5, 4, 6}), current, [](uint64_t i) { return "combination " + std::to_string(i); }});
        for (unsigned place = 0; place < N_PLACES; ++place) {
            if (!thorough && (place == 2 || place == 5 || place == 8)) continue;
            spaces.push_back(mc::Space{std::string(PLACES[place]) + ": attributes", mc::product({3, 3, 5, 4, 2, 2, 6, 3}), [place](uint64_t i, mc::Run& r) { attributes(place, i, r); }, [](uint64_t i) { return "combination " + std::to_string(i); }});
        }
        static const unsigned pairs[][2] = {{0, 1}, {2, 3}, {4, 5}, {6, 0}, {7, 8}, {9, 8}, {1, 3}};
        for (const auto& p : pairs) {
            const unsigned a = p[0], b = p[1];
            spaces.push_back(mc::sequences(std::string("definitions on ") + PLACES[a] + " and " + PLACES[b], 6 * N_OPS, thorough || b < 2 ? 3U : 2U, thorough || b >= 2 ? mc::Queries::BOTH : mc::Queries::NONE, [a, b] { return std::unique_ptr<mc::System>(new Definitions(a, b)); },
                [a, b](unsigned op) { return Definitions::opName(a, b, op); }));
        }
    });
}
