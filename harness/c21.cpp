// C21: reactive limits. Every small curve, asked at every interesting active power, against exact interpolation; histories of
// definitions, accepted and refused, on two equipments of every kind that carries limits.
#include <cmath>
#include <limits>
#include <map>

#include "net.hpp"

using namespace powsybl::iidm;  // NOLINT

namespace {

const double NaN = std::numeric_limits<double>::quiet_NaN();
const double BIG = std::numeric_limits<double>::max();

const char* const OWNERS[] = {"generator", "battery", "VSC station", "generation of a dangling line"};

Network build(unsigned kind) {
    Network n("c21", "verif");
    Substation& s = n.newSubstation().setId("S").add();
    VoltageLevel& v = s.newVoltageLevel().setId("V").setNominalV(400).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    v.getBusBreakerView().newBus().setId("B").add();
    for (const char* id : {"X0", "X1"}) {
        switch (kind) {
            case 0: v.newGenerator().setId(id).setBus("B").setConnectableBus("B").setMinP(-10).setMaxP(10).setTargetP(1).setTargetQ(1).setVoltageRegulatorOn(false).add(); break;
            case 1: v.newBattery().setId(id).setBus("B").setConnectableBus("B").setMinP(-10).setMaxP(10).setP0(1).setQ0(1).add(); break;
            case 2: v.newVscConverterStation().setId(id).setBus("B").setConnectableBus("B").setLossFactor(1).setReactivePowerSetpoint(1).setVoltageRegulatorOn(false).add(); break;
            default: v.newDanglingLine().setId(id).setBus("B").setConnectableBus("B").setP0(1).setQ0(1).setR(1).setX(1).setG(0).setB(0).newGeneration().setMinP(-10).setMaxP(10).setTargetP(1).setTargetQ(1).setVoltageRegulationOn(false).add().add(); break;
        }
    }
    return n;
}

ReactiveLimitsHolder& holder(Network& n, unsigned kind, unsigned which) {
    const std::string id = which == 0 ? "X0" : "X1";
    switch (kind) {
        case 0: return n.getGenerator(id);
        case 1: return n.getBattery(id);
        case 2: return n.getVscConverterStation(id);
        default: return n.getDanglingLine(id).getGeneration().get();
    }
}

using Curve = std::map<double, std::pair<double, double>>;

// exact on the values used here
double interpolate(const Curve& c, double p, bool max) {
    const auto value = [max](const std::pair<double, double>& q) { return max ? q.second : q.first; };
    if (p <= c.begin()->first) return value(c.begin()->second);
    if (p >= c.rbegin()->first) return value(c.rbegin()->second);
    auto after = c.upper_bound(p);
    auto before = std::prev(after);
    const double a = before->first, b = after->first;
    return value(before->second) * ((b - p) / (b - a)) + value(after->second) * ((p - a) / (b - a));
}

bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }

void checkCurve(const ReactiveLimitsHolder& h, const Curve& c, mc::Run& run) {
    const auto& base = h.getReactiveLimits<ReactiveLimits>();
    MC_CHECK(run, base.getKind() == ReactiveLimitsKind::CURVE, "kind of limits");
    MC_CHECK(run, !mc::accepted([&] { h.getReactiveLimits<MinMaxReactiveLimits>(); }), "a curve is also returned as constant limits");
    const auto& curve = h.getReactiveLimits<ReactiveCapabilityCurve>();
    MC_CHECK(run, static_cast<const ReactiveLimits*>(&curve) == &base, "two limits");
    MC_CHECK(run, curve.getPointCount() == c.size(), "number of points " << curve.getPointCount());
    MC_CHECK(run, curve.getMinP() == c.begin()->first && curve.getMaxP() == c.rbegin()->first, "extreme active powers " << curve.getMinP() << " " << curve.getMaxP());
    auto it = c.begin();
    std::size_t seen = 0;
    for (const auto& p : curve.getPoints()) {
        MC_CHECK(run, it != c.end() && p.getP() == it->first && p.getMinQ() == it->second.first && p.getMaxQ() == it->second.second, "point " << seen);
        ++it;
        ++seen;
    }
    MC_CHECK(run, seen == c.size(), "number of points listed " << seen);
    std::vector<double> powers = {-1e300, -1000, 1000, 1e300, 0, -BIG, BIG, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()};
    double previous = NaN;
    for (const auto& p : c) {
        for (double d : {-0.75, -0.125, 0.125, 0.75, 1e-9, -1e-9}) powers.push_back(p.first + d);
        powers.push_back(std::nextafter(p.first, -BIG));
        powers.push_back(std::nextafter(p.first, BIG));
        if (!std::isnan(previous)) for (double f : {0.25, 0.5, 0.75, 0.9}) powers.push_back(previous + (p.first - previous) * f);
        previous = p.first;
        // at a point: exactly the given values
        MC_CHECK(run, base.getMinQ(p.first) == p.second.first && base.getMaxQ(p.first) == p.second.second, "at the point " << p.first << ": " << base.getMinQ(p.first) << " " << base.getMaxQ(p.first));
    }
    for (double p : powers) {
        const double minQ = base.getMinQ(p), maxQ = base.getMaxQ(p);
        run.count(2);
        MC_CHECK(run, close(minQ, interpolate(c, p, false)), "minimum at " << p << ": " << minQ << " instead of " << interpolate(c, p, false));
        MC_CHECK(run, close(maxQ, interpolate(c, p, true)), "maximum at " << p << ": " << maxQ << " instead of " << interpolate(c, p, true));
        // outside: exactly the end values
        if (p < c.begin()->first) MC_CHECK(run, minQ == c.begin()->second.first && maxQ == c.begin()->second.second, "below the curve, at " << p);
        if (p > c.rbegin()->first) MC_CHECK(run, minQ == c.rbegin()->second.first && maxQ == c.rbegin()->second.second, "above the curve, at " << p);
    }
}

void checkConstant(const ReactiveLimitsHolder& h, double minQ, double maxQ, mc::Run& run) {
    const auto& base = h.getReactiveLimits<ReactiveLimits>();
    MC_CHECK(run, base.getKind() == ReactiveLimitsKind::MIN_MAX, "kind of limits");
    MC_CHECK(run, !mc::accepted([&] { h.getReactiveLimits<ReactiveCapabilityCurve>(); }), "constant limits are also returned as a curve");
    const auto& l = h.getReactiveLimits<MinMaxReactiveLimits>();
    MC_CHECK(run, static_cast<const ReactiveLimits*>(&l) == &base, "two limits");
    MC_CHECK(run, l.getMinQ() == minQ && l.getMaxQ() == maxQ, "limits " << l.getMinQ() << " " << l.getMaxQ() << " instead of " << minQ << " " << maxQ);
    for (double p : {-BIG, -1000.0, -1.0, 0.0, 0.5, 1000.0, BIG}) {
        run.count(2);
        MC_CHECK(run, base.getMinQ(p) == minQ && base.getMaxQ(p) == maxQ, "limits at " << p);
    }
}

// ---- curves --------------------------------------------------------------------------------------------------------

const double POWERS[] = {-8, -1.5, 0, 2, 10};
const double VALUES[][2] = {{-4, 4}, {1, 6}, {-7, -3}, {5, -2}};   // the last one crosses (accepted: see the TODO of the adder)

struct Curves {
    unsigned kind, points, values;
    uint64_t size() const {
        uint64_t s = 1;
        for (unsigned k = 0; k < points; ++k) s *= 5 * values;
        return s;
    }
    std::string describe(uint64_t i) const {
        std::ostringstream o;
        for (unsigned k = 0; k < points; ++k) {
            const unsigned c = i % (5 * values);
            i /= 5 * values;
            o << "(" << POWERS[c % 5] << "; " << VALUES[c / 5][0] << ", " << VALUES[c / 5][1] << ") ";
        }
        return o.str();
    }
    void run(uint64_t i, mc::Run& r) const {
        const std::string text = describe(i);
        r.step(text);
        Network n = build(kind);
        ReactiveLimitsHolder& h = holder(n, kind, 0);
        ReactiveCapabilityCurveAdder a = h.newReactiveCapabilityCurve();
        Curve c;
        for (unsigned k = 0; k < points; ++k) {
            const unsigned x = i % (5 * values);
            i /= 5 * values;
            const double p = POWERS[x % 5];
            const double* q = VALUES[x / 5];
            const bool ok = c.count(p) == 0;
            std::string what;
            const bool accepted = mc::accepted([&] { a.beginPoint().setP(p).setMinQ(q[0]).setMaxQ(q[1]).endPoint(); }, &what);
            MC_CHECK(r, accepted == ok, "point " << k << (accepted ? " accepted" : " refused: ") << what);
            if (ok) c[p] = std::make_pair(q[0], q[1]);
        }
        const bool accepted = mc::accepted([&] { a.add(); });
        MC_CHECK(r, accepted == (c.size() >= 2), "curve of " << c.size() << " points " << (accepted ? "accepted" : "refused"));
        r.distinct(text);
        if (accepted) checkCurve(h, c, r); else checkConstant(h, -BIG, BIG, r);
        checkConstant(holder(n, kind, 1), -BIG, BIG, r);
    }
};

// ---- points and bounds that are refused ----------------------------------------------------------------------------

const double ODD[] = {NaN, -3, 0, 5};

void refusals(unsigned kind, uint64_t i, mc::Run& run) {
    const auto c = mc::decode(i, {2, 4, 4, 4});
    Network n = build(kind);
    ReactiveLimitsHolder& h = holder(n, kind, 0);
    if (c[0] == 0) {
        const double minQ = ODD[c[1]], maxQ = ODD[c[2]];
        const bool ok = minQ <= maxQ;
        h.newMinMaxReactiveLimits().setMinQ(-1).setMaxQ(1).add();
        const bool accepted = mc::accepted([&] {
            auto a = h.newMinMaxReactiveLimits();
            if (c[3] != 0 || !std::isnan(minQ)) a.setMinQ(minQ);
            if (c[3] != 0 || !std::isnan(maxQ)) a.setMaxQ(maxQ);
            a.add();
        });
        MC_CHECK(run, accepted == ok, "constant limits " << minQ << " " << maxQ << (accepted ? " accepted" : " refused"));
        checkConstant(h, ok ? minQ : -1, ok ? maxQ : 1, run);
    } else {
        const double p = ODD[c[1]], minQ = ODD[c[2]], maxQ = ODD[c[3]];
        const bool ok = !std::isnan(p) && !std::isnan(minQ) && !std::isnan(maxQ);
        auto a = h.newReactiveCapabilityCurve();
        a.beginPoint().setP(-50).setMinQ(-2).setMaxQ(2).endPoint().beginPoint().setP(50).setMinQ(-2).setMaxQ(8).endPoint();
        Curve curve;
        curve[-50] = std::make_pair(-2.0, 2.0);
        curve[50] = std::make_pair(-2.0, 8.0);
        const bool accepted = mc::accepted([&] { a.beginPoint().setP(p).setMinQ(minQ).setMaxQ(maxQ).endPoint(); });
        MC_CHECK(run, accepted == ok, "point " << p << " " << minQ << " " << maxQ << (accepted ? " accepted" : " refused"));
        if (ok) curve[p] = std::make_pair(minQ, maxQ);
        a.add();
        checkCurve(h, curve, run);
    }
    run.distinct(mc::str(i) + OWNERS[kind]);
}

// ---- histories -----------------------------------------------------------------------------------------------------

struct Model {
    bool curve = false;
    double minQ = -BIG, maxQ = BIG;
    Curve points;
};

const char* const DEFINITIONS[] = {"constant -5 5", "constant 2 2", "curve A", "curve B", "refused constant 3 -3", "refused constant without maximum", "refused curve of one point", "refused empty curve", "refused curve after a double point",
    "curve begun before the previous definition, added after it"};
const unsigned N_DEFINITIONS = 10;
const char* const VARIANTS[] = {"clone to V1", "select V1", "select the first variant", "remove V1"};

class Limits : public mc::System {
public:
    explicit Limits(unsigned kind) : m_kind(kind), m_network(build(kind)) {}
    static std::string opName(unsigned op) { return op < 2 * N_DEFINITIONS ? std::string(op < N_DEFINITIONS ? "first: " : "second: ") + DEFINITIONS[op % N_DEFINITIONS] : VARIANTS[op - 2 * N_DEFINITIONS]; }

    bool apply(unsigned op, mc::Run& run) override {
        if (op >= 2 * N_DEFINITIONS) {
            auto& vm = m_network.getVariantManager();
            const bool exists = m_variants;
            switch (op - 2 * N_DEFINITIONS) {
                case 0: if (exists) return false; vm.cloneVariant(VariantManager::getInitialVariantId(), "V1"); m_variants = true; break;
                case 1: if (!exists || m_second) return false; vm.setWorkingVariant("V1"); m_second = true; break;
                case 2: if (!m_second) return false; vm.setWorkingVariant(VariantManager::getInitialVariantId()); m_second = false; break;
                default: if (!exists || m_second) return false; vm.removeVariant("V1"); m_variants = false; break;
            }
            run.step(opName(op));
            return true;
        }
        run.step(opName(op));
        Model& m = m_model[op / N_DEFINITIONS];
        ReactiveLimitsHolder& h = holder(m_network, m_kind, op / N_DEFINITIONS);
        bool ok = true;
        Model next;
        std::function<void()> f;
        switch (op % N_DEFINITIONS) {
            case 0: next.minQ = -5; next.maxQ = 5; f = [&] { h.newMinMaxReactiveLimits().setMinQ(-5).setMaxQ(5).add(); }; break;
            case 1: next.minQ = 2; next.maxQ = 2; f = [&] { h.newMinMaxReactiveLimits().setMinQ(2).setMaxQ(2).add(); }; break;
            case 2:
                next.curve = true;
                next.points[4] = std::make_pair(-1.0, 1.0);
                next.points[-4] = std::make_pair(-3.0, 3.0);
                f = [&] { h.newReactiveCapabilityCurve().beginPoint().setP(4).setMinQ(-1).setMaxQ(1).endPoint().beginPoint().setP(-4).setMinQ(-3).setMaxQ(3).endPoint().add(); };
                break;
            case 3:
                next.curve = true;
                next.points[0] = std::make_pair(-1.0, 1.0);
                next.points[1] = std::make_pair(0.0, 5.0);
                next.points[3] = std::make_pair(-8.0, 2.0);
                f = [&] { h.newReactiveCapabilityCurve().beginPoint().setP(1).setMinQ(0).setMaxQ(5).endPoint().beginPoint().setP(3).setMinQ(-8).setMaxQ(2).endPoint().beginPoint().setP(0).setMinQ(-1).setMaxQ(1).endPoint().add(); };
                break;
            case 4: ok = false; f = [&] { h.newMinMaxReactiveLimits().setMinQ(3).setMaxQ(-3).add(); }; break;
            case 5: ok = false; f = [&] { h.newMinMaxReactiveLimits().setMinQ(3).add(); }; break;
            case 6: ok = false; f = [&] { h.newReactiveCapabilityCurve().beginPoint().setP(1).setMinQ(0).setMaxQ(5).endPoint().add(); }; break;
            case 7: ok = false; f = [&] { h.newReactiveCapabilityCurve().add(); }; break;
            case 8:
                next.curve = true;
                next.points[7] = std::make_pair(-1.0, 1.0);
                next.points[9] = std::make_pair(0.0, 5.0);
                f = [&] {
                    auto a = h.newReactiveCapabilityCurve();
                    a.beginPoint().setP(7).setMinQ(-1).setMaxQ(1).endPoint();
                    MC_CHECK(run, !mc::accepted([&] { a.beginPoint().setP(7).setMinQ(-50).setMaxQ(50).endPoint(); }), "a second point at the same active power is accepted");
                    a.beginPoint().setP(9).setMinQ(0).setMaxQ(5).endPoint();
                    a.add();
                };
                break;
            default:
                next.curve = true;
                next.points[-2] = std::make_pair(-6.0, 1.0);
                next.points[-1] = std::make_pair(-9.0, 5.0);
                f = [&] {
                    auto a = h.newReactiveCapabilityCurve();
                    a.beginPoint().setP(-2).setMinQ(-6).setMaxQ(1).endPoint().beginPoint().setP(-1).setMinQ(-9).setMaxQ(5).endPoint();
                    h.newMinMaxReactiveLimits().setMinQ(-70).setMaxQ(70).add();
                    checkConstant(h, -70, 70, run);
                    a.add();
                };
                break;
        }
        std::string what;
        const bool accepted = mc::accepted(f, &what);
        run.transition();
        MC_CHECK(run, accepted == ok, (accepted ? "accepted and should be refused" : "refused: ") << what);
        if (ok) m = next;
        return true;
    }

    void check(mc::Run& run) override {
        for (unsigned k = 0; k < 2; ++k) {
            const ReactiveLimitsHolder& h = holder(m_network, m_kind, k);
            if (m_model[k].curve) checkCurve(h, m_model[k].points, run); else checkConstant(h, m_model[k].minQ, m_model[k].maxQ, run);
        }
    }

    std::string key() override {
        std::ostringstream o;
        o << m_variants << m_second;
        for (const Model& m : m_model) {
            o << "|" << m.curve << m.minQ << "," << m.maxQ;
            for (const auto& p : m.points) o << ";" << p.first;
        }
        return o.str();
    }

private:
    unsigned m_kind;
    Network m_network;
    Model m_model[2];
    bool m_variants = false, m_second = false;
};

}  // namespace

int main(int argc, char** argv) {
    mc::Config config;
    config.property = "C21";
    config.level = "model_checking";
    config.assumptions = {"curves of up to four (thorough: five) points on a grid of five active powers and of the listed reactive values; interpolation is compared within 1e-9"};
    return mc::main(argc, argv, config, [](bool thorough, std::vector<mc::Space>& spaces) {
        for (unsigned kind = 0; kind < 4; ++kind) {
            const std::string name = OWNERS[kind];
            for (unsigned points = 0; points <= (thorough ? 5U : 4U); ++points) {
                const Curves c{kind, points, points == 5 ? 2U : 4U};
                spaces.push_back(mc::Space{name + ": curves of " + std::to_string(points) + " points", c.size(), [c](uint64_t i, mc::Run& r) { c.run(i, r); }, [c](uint64_t i) { return c.describe(i); }});
            }
            spaces.push_back(mc::Space{name + ": unset and crossed values", mc::product({2, 4, 4, 4}), [kind](uint64_t i, mc::Run& r) { refusals(kind, i, r); }, [](uint64_t i) { return "combination " + std::to_string(i); }});
            spaces.push_back(mc::sequences(name + ": histories", 2 * N_DEFINITIONS + 4, thorough ? 5U : 4U, mc::Queries::NONE, [kind] { return std::unique_ptr<mc::System>(new Limits(kind)); }, Limits::opName));
        }
    });
}
