// C19: state computed for the other end of a branch. The oracle is the electrical model written another way: currents and an
// ideal transformer followed by a pi section, never an admittance matrix.
#include <cmath>
#include <complex>
#include <limits>

#include <powsybl/iidm/util/SV.hpp>

#include "net.hpp"

using namespace powsybl::iidm;  // NOLINT

namespace {

using C = std::complex<double>;
const double NaN = std::numeric_limits<double>::quiet_NaN();
const double PI = 3.14159265358979323846;

struct State { double p, q, u, a; };
struct Params { double r, x, g1, b1, g2, b2, rho, alpha; };

std::string text(const Params& m) {
    return "r=" + mc::str(m.r) + " x=" + mc::str(m.x) + " g1=" + mc::str(m.g1) + " b1=" + mc::str(m.b1) + " g2=" + mc::str(m.g2) + " b2=" + mc::str(m.b2) +
           " rho=" + mc::str(m.rho) + " alpha=" + mc::str(m.alpha);
}
std::string text(const State& s, unsigned side) {
    return "P=" + mc::str(s.p) + " Q=" + mc::str(s.q) + " U=" + mc::str(s.u) + " A=" + mc::str(s.a) + " at side " + mc::str(side);
}

struct Other { State s; double scale; };  // scale: magnitude of the largest term, relative precision refers to it

// side 1 --- (1/rho at -alpha : 1) --- [shunt 1] --- z --- [shunt 2] --- side 2; powers enter the branch at both sides
Other model(const Params& m, const State& s, unsigned side) {
    const C z(m.r, m.x), y1(m.g1, m.b1), y2(m.g2, m.b2);
    const C ratio = std::polar(1.0, m.alpha) * m.rho;     // inner voltage of side 1 = ratio * outer voltage
    const C v = std::polar(1.0, s.a * PI / 180) * s.u, power(s.p, s.q);
    Other o{};
    C vOther, sOther;
    if (side == 1) {
        const C inner = v * ratio;
        const C series = std::conj(power / inner) - y1 * inner;
        vOther = inner - z * series;
        sOther = vOther * std::conj(y2 * vOther - series);
        o.scale = std::abs(inner) + std::abs(z) * (std::abs(power / inner) + std::abs(y1 * inner));
        o.scale *= 1 + 1 / std::abs(inner);
    } else {
        const C series = std::conj(power / v) - y2 * v;   // towards side 1
        const C inner = v - z * series;
        sOther = inner * std::conj(y1 * inner - series);
        vOther = inner / ratio;
        o.scale = std::abs(v) + std::abs(z) * (std::abs(power / v) + std::abs(y2 * v)) + std::abs(vOther);
        o.scale *= 1 + 1 / std::abs(v);
    }
    const double y = std::abs(y1) + std::abs(y2) + (std::abs(z) > 0 ? 1 / std::abs(z) : 0);
    o.scale = (1 + o.scale) * (1 + o.scale) * (1 + y);    // powers are v^2 times an admittance
    o.s = State{sOther.real(), sOther.imag(), std::abs(vOther), std::arg(vOther) * 180 / PI};
    return o;
}

bool near(double a, double b, double tolerance) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return std::fabs(a - b) <= tolerance;
}
bool nearAngle(double a, double b, double tolerance) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return std::fabs(std::remainder(a - b, 360)) <= tolerance;
}

Branch::Side sideOf(unsigned side) { return side == 1 ? Branch::Side::ONE : Branch::Side::TWO; }

struct Expect {
    State s;
    double tolV, tolS, tolA;
    bool angle;                                           // the angle of a zero voltage means nothing
};

Expect expected(const Params& m, const State& s, unsigned side) {
    const Other o = model(m, s, side);
    Expect e{};
    e.s = o.s;
    const double eps = 1e-11;
    e.tolS = eps * o.scale;
    const double vScale = std::fabs(s.u) * (1 + std::fabs(m.rho)) * (1 + 1 / std::fabs(m.rho));
    const double zScale = std::hypot(m.r, m.x) * (std::hypot(s.p, s.q) / std::fabs(s.u) * (1 + 1 / std::fabs(m.rho)) + (std::hypot(m.g1, m.b1) + std::hypot(m.g2, m.b2)) * vScale);
    e.tolV = eps * (vScale + zScale * (1 + 1 / std::fabs(m.rho)));
    e.angle = !(e.s.u <= 1e3 * e.tolV);
    e.tolA = e.angle && !std::isnan(e.s.u) ? 1e-9 + 180 / PI * 10 * e.tolV / e.s.u : 1e-9;
    if (std::isnan(s.p + s.q + s.u + s.a)) e.s = State{NaN, NaN, NaN, NaN};
    return e;
}

void compare(const std::string& what, const Params& m, const State& s, unsigned side, const State& got, mc::Run& run) {
    run.count();
    const Expect e = expected(m, s, side);
    const std::string about = what + " of " + text(m) + " for " + text(s, side) + ": ";
    const std::string key = m.r == 0 && m.x == 0 ? "zero-impedance" : "other-side";
    if (m.r == 0 && m.x == 0 && std::isnan(s.p) && !std::isnan(s.u + s.a)) {
        // the voltage does not depend on the power then: given or not
        if (!std::isnan(got.p)) run.fail(key, about + "active power " + mc::str(got.p) + ", should be unset");
        if (!std::isnan(got.u) && !near(got.u, m.rho * s.u, 1e-9)) run.fail(key, about + "voltage " + mc::str(got.u));
        return;
    }
    if (!near(got.u, e.s.u, e.tolV)) run.fail(key, about + "voltage " + mc::str(got.u) + ", should be " + mc::str(e.s.u));
    if (e.angle && !nearAngle(got.a, e.s.a, e.tolA)) run.fail(key, about + "angle " + mc::str(got.a) + ", should be " + mc::str(e.s.a));
    if (!near(got.p, e.s.p, e.tolS)) run.fail(key, about + "active power " + mc::str(got.p) + ", should be " + mc::str(e.s.p));
    if (!near(got.q, e.s.q, e.tolS)) run.fail(key, about + "reactive power " + mc::str(got.q) + ", should be " + mc::str(e.s.q));
}
void compare(const std::string& what, const Params& m, const State& s, unsigned side, const SV& got, mc::Run& run) {
    compare(what, m, s, side, State{got.getP(), got.getQ(), got.getU(), got.getA()}, run);
    MC_CHECK(run, got.getSide() == sideOf(3 - side), what << " of " << text(m) << " for " << text(s, side) << " is given for the same side");
}

// every value of a state, around what a network carries
std::vector<State> states(bool small) {
    std::vector<State> r;
    for (double u : small ? std::vector<double>{400} : std::vector<double>{400, 63})
        for (double a : {0.0, -20.0, 150.0})
            for (double p : small ? std::vector<double>{0, 120, -45} : std::vector<double>{0, 120, -45, 900})
                for (double q : {0.0, 30.0, -80.0}) r.push_back(State{p, q, u, a});
    return r;
}

SV sv(const State& s, unsigned side) { return SV(s.p, s.q, s.u, s.a, sideOf(side)); }

// --- parameters given one by one
mc::Space raw(bool thorough) {
    const std::vector<double> r{0, 3, -2, 0.05}, x{33, 0, -7, 0.2}, g1{0, 1e-4, -2e-3}, b1{0, 5e-4, -3e-3}, g2{0, 3e-4, -1e-3}, b2{0, 7e-4, -2e-3}, rho{1, 0.9, 1.25, 2},
        alpha{0, 0.3, -1.1, 3.2};
    const std::vector<unsigned> dims{4, 4, 3, 3, 3, 3, 4, 4};
    mc::Space sp;
    sp.name = "parameters";
    sp.size = mc::product(dims);
    const auto params = [=](uint64_t i) {
        const auto d = mc::decode(i, dims);
        return Params{r[d[0]], x[d[1]], g1[d[2]], b1[d[3]], g2[d[4]], b2[d[5]], rho[d[6]], alpha[d[7]]};
    };
    const auto ss = states(!thorough);
    sp.run = [=](uint64_t i, mc::Run& run) {
        const Params m = params(i);
        for (const State& s : ss)
            for (unsigned side : {1u, 2u}) {
                const SV v = sv(s, side);
                const SV o = v.otherSide(m.r, m.x, m.g1, m.b1, m.g2, m.b2, m.rho, m.alpha);
                compare("otherSide", m, s, side, o, run);
                compare("otherSideP/Q/U/A", m, s, side,
                        State{v.otherSideP(m.r, m.x, m.g1, m.b1, m.g2, m.b2, m.rho, m.alpha), v.otherSideQ(m.r, m.x, m.g1, m.b1, m.g2, m.b2, m.rho, m.alpha),
                              v.otherSideU(m.r, m.x, m.g1, m.b1, m.g2, m.b2, m.rho, m.alpha), v.otherSideA(m.r, m.x, m.g1, m.b1, m.g2, m.b2, m.rho, m.alpha)},
                        run);
                MC_CHECK(run, v.getP() == s.p && v.getQ() == s.q && v.getU() == s.u && v.getA() == s.a && v.getSide() == sideOf(side), "the starting values changed");
                // and back
                const SV back = o.otherSide(m.r, m.x, m.g1, m.b1, m.g2, m.b2, m.rho, m.alpha);
                const Expect e = expected(m, s, side);
                if (e.s.u > 1) {
                    const double f = (1 + s.u / e.s.u) * 1e3;
                    MC_CHECK(run, near(back.getU(), s.u, f * e.tolV) && nearAngle(back.getA(), s.a, f * (1e-9 + e.tolA)) && near(back.getP(), s.p, f * e.tolS) &&
                                      near(back.getQ(), s.q, f * e.tolS) && back.getSide() == sideOf(side),
                             "computing back from the other side of " << text(m) << " for " << text(s, side) << " gives " << text(State{back.getP(), back.getQ(), back.getU(), back.getA()}, side));
                }
            }
        run.distinct(i);
    };
    sp.describe = [=](uint64_t i) { return text(params(i)); };
    return sp;
}

Network build(bool nodeBreaker) {
    Network n("c19", "verif");
    Substation& s1 = n.newSubstation().setId("S1").add();
    Substation& s2 = n.newSubstation().setId("S2").add();
    for (Substation* s : {&s1, &s2})
        for (const char* k : {"a", "b"}) {
            if (s == &s2 && std::string(k) == "b") continue;
            const std::string id = s->getId() + k;
            VoltageLevel& v = s->newVoltageLevel().setId(id).setNominalV(400).setTopologyKind(nodeBreaker ? TopologyKind::NODE_BREAKER : TopologyKind::BUS_BREAKER).add();
            if (nodeBreaker) {
                v.getNodeBreakerView().newBusbarSection().setId(id + "_bbs").setNode(0).add();
                for (unsigned long i = 1; i <= 3; ++i) {
                    v.getNodeBreakerView().newBreaker().setId(id + "_k" + mc::str(i)).setNode1(0).setNode2(i).setOpen(false).setRetained(false).add();
                }
                v.newLoad().setId(id + "_load").setNode(4).setP0(0).setQ0(0).add();
                v.getNodeBreakerView().newInternalConnection().setNode1(0).setNode2(4).add();
            } else {
                v.getBusBreakerView().newBus().setId(id + "_bus").add();
            }
        }
    return n;
}

// places: S1a has the dangling line (1), S1a-S1b the transformer (2, 1), S1a-S2a the line (3, 1), S1b-S2a the tie line (2, 2)
template <typename A>
void at(A& adder, bool nodeBreaker, const std::string& vl, unsigned long node) {
    if (nodeBreaker) adder.setNode(node);
    else adder.setBus(vl + "_bus").setConnectableBus(vl + "_bus");
}
template <typename A>
void at12(A& adder, bool nodeBreaker, const std::string& vl1, unsigned long n1, const std::string& vl2, unsigned long n2) {
    adder.setVoltageLevel1(vl1).setVoltageLevel2(vl2);
    if (nodeBreaker) adder.setNode1(n1).setNode2(n2);
    else adder.setBus1(vl1 + "_bus").setConnectableBus1(vl1 + "_bus").setBus2(vl2 + "_bus").setConnectableBus2(vl2 + "_bus");
}

DanglingLine& addDanglingLine(Network& n, bool nb, const Params& m, bool generation = false) {
    auto a = n.getVoltageLevel("S1a").newDanglingLine();
    a.setId("DL").setP0(17).setQ0(-9).setR(m.r).setX(m.x).setG(m.g1).setB(m.b1);
    if (generation) a.newGeneration().setMinP(-500).setMaxP(500).setTargetP(200).setTargetQ(30).setTargetV(400).setVoltageRegulationOn(true).add();
    at(a, nb, "S1a", 1);
    return a.add();
}
Line& addLine(Network& n, bool nb, const Params& m) {
    auto a = n.newLine();
    a.setId("L").setR(m.r).setX(m.x).setG1(m.g1).setB1(m.b1).setG2(m.g2).setB2(m.b2);
    at12(a, nb, "S1a", 3, "S2a", 1);
    return a.add();
}
TieLine& addTieLine(Network& n, bool nb, const Params& h1, const Params& h2) {
    auto a = n.newTieLine();
    a.setId("TL").setUcteXnodeCode("X");
    a.newHalfLine1().setId("H1").setR(h1.r).setX(h1.x).setG1(h1.g1).setB1(h1.b1).setG2(h1.g2).setB2(h1.b2).add();
    a.newHalfLine2().setId("H2").setR(h2.r).setX(h2.x).setG1(h2.g1).setB1(h2.b1).setG2(h2.g2).setB2(h2.b2).add();
    at12(a, nb, "S1b", 2, "S2a", 2);
    return a.add();
}

const std::vector<Params>& lineParams() {
    static std::vector<Params> all;
    if (all.empty())
        for (double r : {3.0, 0.0, -2.0})
            for (double x : {33.0, 0.0, -7.0})
                for (double g1 : {0.0, 1e-4})
                    for (double b1 : {0.0, 5e-4, -3e-3})
                        for (double g2 : {0.0, 3e-4})
                            for (double b2 : {0.0, -7e-4}) all.push_back(Params{r, x, g1, b1, g2, b2, 1, 0});
    return all;
}

State half(const SV& v, const tie_line::HalfLine& h) { return State{v.otherSideP(h), v.otherSideQ(h), v.otherSideU(h), v.otherSideA(h)}; }

// --- lines, dangling lines, tie lines and their halves: built with the parameters, or changed to them afterwards
mc::Space lines() {
    mc::Space sp;
    sp.name = "lines";
    const std::vector<unsigned> dims{static_cast<unsigned>(lineParams().size()), 2};
    sp.size = mc::product(dims);
    sp.describe = [=](uint64_t i) { const auto d = mc::decode(i, dims); return text(lineParams()[d[0]]) + (d[1] != 0 ? ", set after the creation" : ""); };
    sp.run = [=](uint64_t i, mc::Run& run) {
        const auto d = mc::decode(i, dims);
        const Params m = lineParams()[d[0]], start = d[1] == 0 ? m : Params{1, 10, 2e-5, 3e-5, 4e-5, 6e-5, 1, 0};
        // the second half differs from the first
        Params m2{m.r + 1, m.x + 2, m.g2, m.b2 + 1e-4, m.g1 - 1e-5, m.b1, 1, 0};
        Network n = build(false);
        DanglingLine& dl = addDanglingLine(n, false, start);
        Line& l = addLine(n, false, start);
        TieLine& tl = addTieLine(n, false, d[1] == 0 ? m : start, d[1] == 0 ? m2 : start);
        if (d[1] != 0) {
            dl.setR(m.r).setX(m.x).setG(m.g1).setB(m.b1);
            l.setR(m.r).setX(m.x).setG1(m.g1).setB1(m.b1).setG2(m.g2).setB2(m.b2);
            tl.getHalf1().setR(m.r).setX(m.x).setG1(m.g1).setB1(m.b1).setG2(m.g2).setB2(m.b2);
            tl.getHalf2().setR(m2.r).setX(m2.x).setG1(m2.g1).setB1(m2.b1).setG2(m2.g2).setB2(m2.b2);
        }
        const Params whole{m.r, m.x, m.g1, m.b1, 0, 0, 1, 0}, split{m.r, m.x, m.g1 / 2, m.b1 / 2, m.g1 / 2, m.b1 / 2, 1, 0};
        const Params sum{m.r + m2.r, m.x + m2.x, m.g1 + m2.g1, m.b1 + m2.b1, m.g2 + m2.g2, m.b2 + m2.b2, 1, 0};
        for (const State& s : states(false))
            for (unsigned side : {1u, 2u}) {
                const SV v = sv(s, side);
                compare("otherSide of a line", m, s, side, v.otherSide(l), run);
                compare("otherSide of a tie line", sum, s, side, v.otherSide(static_cast<const Line&>(tl)), run);
                compare("otherSide of a dangling line", whole, s, side, v.otherSide(dl), run);
                compare("otherSide of a dangling line, split", split, s, side, v.otherSide(dl, true), run);
                compare("otherSide of a dangling line, not split", whole, s, side, v.otherSide(dl, false), run);
                compare("otherSideP/Q/U/A of a dangling line", whole, s, side, State{v.otherSideP(dl), v.otherSideQ(dl), v.otherSideU(dl), v.otherSideA(dl)}, run);
                for (bool b : {false, true})
                    compare(std::string("otherSideP/Q/U/A of a dangling line") + (b ? ", split" : ", not split"), b ? split : whole, s, side,
                            State{v.otherSideP(dl, b), v.otherSideQ(dl, b), v.otherSideU(dl, b), v.otherSideA(dl, b)}, run);
                compare("otherSideP/Q/U/A of the first half line", m, s, side, half(v, tl.getHalf1()), run);
                compare("otherSideP/Q/U/A of the second half line", m2, s, side, half(v, tl.getHalf2()), run);
            }
        run.distinct(i);
    };
    return sp;
}

// --- transformers: with and without tap changers, at every position, in two variants
struct Step { double r, x, g, b, rho, alpha; };
const Step RTC[] = {{0, 0, 0, 0, 1, 0}, {5, -10, 20, -30, 0.95, 0}, {-8, 12, -4, 6, 1.1, 0}};
const Step PTC[] = {{0, 0, 0, 0, 1, 0}, {-3, 7, -11, 13, 0.9, -12}, {10, 10, 10, 10, 1.05, 25}};

mc::Space transformers() {
    mc::Space sp;
    sp.name = "transformers";
    const std::vector<unsigned> dims{3, 3, 2, 3, 3, 4, 4, 4};   // r, x, g, b, rated voltages, ratio (none or position), phase, positions of the other variant
    sp.size = mc::product(dims);
    const auto params = [=](uint64_t i, unsigned& rtc, unsigned& ptc, unsigned& other, double& u1, double& u2) {
        const auto d = mc::decode(i, dims);
        const double r[] = {0.5, 0, -0.1}, x[] = {12, 0, -3}, g[] = {0, 2e-4}, b[] = {0, 3e-4, -1e-3}, ru1[] = {400, 380, 225}, ru2[] = {400, 420, 400};
        u1 = ru1[d[4]];
        u2 = ru2[d[4]];
        rtc = d[5];
        ptc = d[6];
        other = d[7];
        return Params{r[d[0]], x[d[1]], g[d[2]], b[d[3]], 0, 0, u2 / u1, 0};
    };
    sp.describe = [=](uint64_t i) {
        unsigned rtc = 0, ptc = 0, other = 0;
        double u1 = 0, u2 = 0;
        const Params m = params(i, rtc, ptc, other, u1, u2);
        return text(m) + ", " + (rtc == 0 ? std::string("no ratio tap changer") : "ratio step " + mc::str(rtc)) + ", " + (ptc == 0 ? std::string("no phase tap changer") : "phase step " + mc::str(ptc)) +
               ", other variant: " + mc::str(other);
    };
    sp.run = [=](uint64_t i, mc::Run& run) {
        unsigned rtc = 0, ptc = 0, other = 0;
        double u1 = 0, u2 = 0;
        const Params m = params(i, rtc, ptc, other, u1, u2);
        Network n = build(false);
        auto a = n.getSubstation("S1").newTwoWindingsTransformer();
        a.setId("T").setR(m.r).setX(m.x).setG(m.g1).setB(m.b1).setRatedU1(u1).setRatedU2(u2);
        at12(a, false, "S1a", 2, "S1b", 1);
        TwoWindingsTransformer& t = a.add();
        const long low = -1;
        if (rtc != 0) {
            auto ra = t.newRatioTapChanger();
            ra.setLowTapPosition(low).setTapPosition(low + rtc - 1).setLoadTapChangingCapabilities(false);
            for (const Step& s : RTC) ra.beginStep().setR(s.r).setX(s.x).setG(s.g).setB(s.b).setRho(s.rho).endStep();
            ra.add();
        }
        if (ptc != 0) {
            auto pa = t.newPhaseTapChanger();
            pa.setLowTapPosition(low).setTapPosition(low + ptc - 1).setRegulationMode(PhaseTapChanger::RegulationMode::FIXED_TAP);
            for (const Step& s : PTC) pa.beginStep().setR(s.r).setX(s.x).setG(s.g).setB(s.b).setRho(s.rho).setAlpha(s.alpha).endStep();
            pa.add();
        }
        const auto inForce = [&](unsigned rp, unsigned pp, bool split) {
            Params e = m;
            for (unsigned k = 0; k < 2; ++k) {
                const unsigned pos = k == 0 ? rp : pp;
                if (pos == 0) continue;
                const Step& s = k == 0 ? RTC[pos - 1] : PTC[pos - 1];
                e.r *= 1 + s.r / 100;
                e.x *= 1 + s.x / 100;
                e.g1 *= 1 + s.g / 100;
                e.b1 *= 1 + s.b / 100;
                e.rho *= s.rho;
                e.alpha += s.alpha * PI / 180;
            }
            if (split) {
                e.g1 /= 2;
                e.b1 /= 2;
                e.g2 = e.g1;
                e.b2 = e.b1;
            }
            return e;
        };
        const auto check = [&](unsigned rp, unsigned pp) {
            const Params whole = inForce(rp, pp, false), split = inForce(rp, pp, true);
            for (const State& s : states(true))
                for (unsigned side : {1u, 2u}) {
                    compare("otherSide of a transformer", whole, s, side, sv(s, side).otherSide(t), run);
                    compare("otherSide of a transformer, split", split, s, side, sv(s, side).otherSide(t, true), run);
                    compare("otherSide of a transformer, not split", whole, s, side, sv(s, side).otherSide(t, false), run);
                }
        };
        check(rtc, ptc);
        if (other != 0) {
            const unsigned r2 = rtc == 0 ? 0 : (rtc - 1 + other) % 3 + 1, p2 = ptc == 0 ? 0 : (ptc + other) % 3 + 1;
            n.getVariantManager().cloneVariant(VariantManager::getInitialVariantId(), "other");
            n.getVariantManager().setWorkingVariant("other");
            if (rtc != 0) t.getRatioTapChanger().setTapPosition(low + r2 - 1);
            if (ptc != 0) t.getPhaseTapChanger().setTapPosition(low + p2 - 1);
            check(r2, p2);
            n.getVariantManager().setWorkingVariant(VariantManager::getInitialVariantId());
            check(rtc, ptc);
        }
        run.distinct(i);
    };
    return sp;
}

// --- boundaries of dangling lines and of the halves of tie lines, in a real network, in two variants
mc::Space boundaries() {
    mc::Space sp;
    sp.name = "boundaries";
    const std::vector<unsigned> dims{2, static_cast<unsigned>(lineParams().size()), 3, 5};   // topology, parameters, kind of variant, what is missing
    sp.size = mc::product(dims);
    sp.describe = [=](uint64_t i) {
        const auto d = mc::decode(i, dims);
        const char* const variants[] = {"one variant", "two variants", "moved network"};
        const char* const missing[] = {"all values", "no power", "no voltage", "no angle", "disconnected"};
        return std::string(d[0] != 0 ? "node/breaker " : "bus/breaker ") + text(lineParams()[d[1]]) + ", " + variants[d[2]] + ", " + missing[d[3]];
    };
    sp.run = [=](uint64_t i, mc::Run& run) {
        const auto d = mc::decode(i, dims);
        const bool nb = d[0] != 0;
        const Params m = lineParams()[d[1]];
        const Params m2{m.r + 1, m.x + 2, m.g2, m.b2 + 1e-4, m.g1 - 1e-5, m.b1, 1, 0};
        const Params split{m.r, m.x, m.g1 / 2, m.b1 / 2, m.g1 / 2, m.b1 / 2, 1, 0};
        Network first = build(nb);
        addDanglingLine(first, nb, m, d[2] == 1);
        addLine(first, nb, m);
        addTieLine(first, nb, m, m2);
        Network moved(std::move(first));
        Network other = build(nb);
        if (d[2] != 2) {                                   // built where it is used
            addDanglingLine(other, nb, m, d[2] == 1);
            addLine(other, nb, m);
            addTieLine(other, nb, m, m2);
        }
        Network& n = d[2] == 2 ? moved : other;
        DanglingLine& dl = n.getDanglingLine("DL");
        TieLine& tl = dynamic_cast<TieLine&>(n.getLine("TL"));
        Terminal* terminals[] = {&dl.getTerminal(), &tl.getTerminal1(), &tl.getTerminal2()};
        const Boundary* bounds[] = {&dl.getBoundary(), &tl.getHalf1().getBoundary(), &tl.getHalf2().getBoundary()};
        const Params params[] = {split, m, m2};
        const unsigned sides[] = {1, 1, 2};
        const char* const names[] = {"the dangling line", "the first half line", "the second half line"};

        MC_CHECK(run, !bounds[0]->getSide() && bounds[1]->getSide() && *bounds[1]->getSide() == Branch::Side::ONE && bounds[2]->getSide() && *bounds[2]->getSide() == Branch::Side::TWO,
                 "wrong side of a boundary");
        MC_CHECK(run, stdcxx::areSame(bounds[0]->getConnectable(), static_cast<const Connectable&>(dl)) && stdcxx::areSame(bounds[1]->getConnectable(), static_cast<const Connectable&>(tl)) &&
                          stdcxx::areSame(bounds[2]->getConnectable(), static_cast<const Connectable&>(tl)),
                 "wrong equipment of a boundary");
        for (unsigned k = 0; k < 3; ++k)
            MC_CHECK(run, stdcxx::areSame(bounds[k]->getVoltageLevel(), static_cast<const VoltageLevel&>(terminals[k]->getVoltageLevel())), "wrong voltage level of the boundary of " << names[k]);
        MC_CHECK(run, stdcxx::areSame(tl.getHalf(Branch::Side::ONE), tl.getHalf1()) && stdcxx::areSame(tl.getHalf(Branch::Side::TWO), tl.getHalf2()), "wrong half for a side");

        const auto set = [&](double shift) {
            double p = 100 + shift;
            for (unsigned k = 0; k < 3; ++k) {
                terminals[k]->setP(d[3] == 1 ? NaN : p).setQ(p / 3 - 20);
                p = -p * 0.7 + 11;
            }
            double u = 395 + shift / 10;
            for (const char* id : {"S1a", "S1b", "S2a"}) {
                for (auto& b : n.getVoltageLevel(id).getBusView().getBuses()) b.setV(d[3] == 2 ? NaN : u).setAngle(d[3] == 3 ? NaN : u - 380);
                u += 6;
            }
            if (d[3] == 4)
                for (Terminal* t : terminals) t->disconnect();
        };
        const auto check = [&](double shift) {
            double p = 100 + shift, u = 395 + shift / 10;
            for (unsigned k = 0; k < 3; ++k) {
                const State s{d[3] == 1 ? NaN : p, p / 3 - 20, d[3] == 2 || d[3] == 4 ? NaN : u, d[3] == 3 || d[3] == 4 ? NaN : u - 380};
                const Boundary& b = *bounds[k];
                compare(std::string("boundary of ") + names[k], params[k], s, sides[k], State{b.getP(), b.getQ(), b.getV(), b.getAngle()}, run);
                p = -p * 0.7 + 11;
                u += 6;
            }
        };
        set(0);
        check(0);
        if (d[2] != 0) {
            n.getVariantManager().cloneVariant(VariantManager::getInitialVariantId(), "other");
            check(0);
            n.getVariantManager().setWorkingVariant("other");
            check(0);
            if (d[3] != 4) {
                set(40);
                check(40);
                n.getVariantManager().setWorkingVariant(VariantManager::getInitialVariantId());
                check(0);
            }
        }
        run.distinct(i);
    };
    return sp;
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C19";
    c.level = "exploration";
    c.rule = "every combination of branch parameters (negative, zero and one-sided), tap positions, state values, sides and shunt placements of the grids, each computed value compared with an independent model";
    c.assumptions = {"values are compared with a tolerance that grows with the terms they are made of; the angle of a voltage that cancels out is not compared",
                     "a value computed from an unset one is unset"};
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& spaces) {
        spaces.push_back(raw(thorough));
        spaces.push_back(lines());
        spaces.push_back(transformers());
        spaces.push_back(boundaries());
    });
}
