#include "topo.hpp"

#include <algorithm>
#include <sstream>

namespace topo {

std::string key(const std::string& eq, unsigned k) { return eq + "/" + std::to_string(k); }
bool isBranchType(char t) { return std::string("DXYN23").find(t) != std::string::npos; }

std::string Model::text() const {
    std::ostringstream o;
    o.precision(17);
    for (auto& v : vls) {
        o << v.first << (v.second.nb ? " NB" : " BB") << "{";
        for (auto& i : v.second.ics) o << i.first << "-" << i.second << " ";
        for (auto& b : v.second.buses) o << b << " ";
        o << "}";
    }
    for (auto& e : eqs) o << e.first << " ";
    for (auto& s : sws) o << s.first << "(" << s.second.n1 << s.second.b1 << "," << s.second.n2 << s.second.b2 << ") ";
    for (auto& h : hvdcs) o << h.first << " ";
    for (auto& v : variants) {
        o << "[" << v.first << (v.first == working ? "*" : "") << " ";
        for (auto& s : v.second.sws) o << s.first << (s.second.open ? "o" : "c") << (s.second.retained ? "r" : "") << " ";
        for (auto& t : v.second.terms) o << t.first << "@" << t.second.bus << (t.second.connected ? "" : "-") << t.second.v << "," << t.second.a << " ";
        for (auto& b : v.second.buses) o << b.first << "=" << b.second.v << "," << b.second.a << " ";
        o << "]";
    }
    return o.str();
}

namespace {

struct Uf {
    std::map<std::string, std::string> p;
    std::string find(const std::string& x) { std::string r = x; while (p[r] != r) r = p[r]; return r; }
    void add(const std::string& x) { p.insert({x, x}); }
    void join(const std::string& a, const std::string& b) { p[find(a)] = find(b); }
};
struct UfN {
    std::map<long, long> p;
    long find(long x) { while (p[x] != x) x = p[x]; return x; }
    void add(long x) { p.insert({x, x}); }
    void join(long a, long b) { add(a); add(b); p[find(a)] = find(b); }
};

}  // namespace

std::vector<Group> groups(const Model& m, const VState& s, const std::string& vlId, int level) {
    const MVl& vl = m.vls.at(vlId);
    std::vector<Group> r;
    if (vl.nb) {
        UfN uf;
        for (auto& i : vl.ics) uf.join(i.first, i.second);
        for (auto& sw : m.sws) {
            if (sw.second.vl != vlId) continue;
            uf.add(sw.second.n1);
            uf.add(sw.second.n2);
            const SwState& ss = s.sws.at(sw.first);
            if (!ss.open && (level == 2 || !ss.retained)) uf.join(sw.second.n1, sw.second.n2);
        }
        std::map<long, Group> byRoot;
        for (auto& v : uf.p) byRoot[uf.find(v.first)].nodes.insert(v.first);
        std::map<long, char> typeAt;
        for (auto& e : m.eqs) {
            for (unsigned k = 0; k < e.second.vl.size(); ++k) {
                if (e.second.vl[k] != vlId || !uf.p.count(e.second.node[k])) continue;
                byRoot[uf.find(e.second.node[k])].terms.insert(key(e.first, k + 1));
                typeAt[e.second.node[k]] = e.second.type;
            }
        }
        for (auto& g : byRoot) {
            unsigned bb = 0, feeders = 0, branches = 0;
            for (long v : g.second.nodes) {
                auto it = typeAt.find(v);
                if (it == typeAt.end()) continue;
                if (it->second == 'H') ++bb; else ++feeders;
                if (isBranchType(it->second)) ++branches;
            }
            g.second.valid = level == 1 || (bb >= 1 && feeders >= 1) || (branches >= 1 && feeders >= 2);
            if (g.second.valid) r.push_back(g.second);
        }
        return r;
    }
    Uf uf;
    for (auto& b : vl.buses) uf.add(b);
    if (level == 2) {
        for (auto& sw : m.sws) if (sw.second.vl == vlId && !s.sws.at(sw.first).open) uf.join(sw.second.b1, sw.second.b2);
    }
    std::map<std::string, Group> byRoot;
    for (auto& b : vl.buses) byRoot[uf.find(b)].buses.insert(b);
    std::map<std::string, unsigned> branches;
    for (auto& e : m.eqs) {
        for (unsigned k = 0; k < e.second.vl.size(); ++k) {
            if (e.second.vl[k] != vlId) continue;
            const TermState& t = s.terms.at(key(e.first, k + 1));
            if (!t.connected) continue;
            std::string root = uf.find(t.bus);
            byRoot[root].terms.insert(key(e.first, k + 1));
            if (isBranchType(e.second.type)) ++branches[root];
        }
    }
    for (auto& g : byRoot) {
        g.second.valid = level == 1 || branches[g.first] >= 1;
        if (g.second.valid) r.push_back(g.second);
    }
    return r;
}

int Comps::find(const std::string& vl, const std::string& term) const {
    for (unsigned i = 0; i < groups.size(); ++i) if (groups[i].first == vl && groups[i].second.terms.count(term)) return static_cast<int>(i);
    return -1;
}

Comps components(const Model& m, const VState& s) {
    Comps c;
    for (auto& v : m.vls) for (auto& g : groups(m, s, v.first, 2)) c.groups.push_back({v.first, g});
    auto number = [&](bool withHvdc) {
        std::vector<unsigned> p(c.groups.size());
        for (unsigned i = 0; i < p.size(); ++i) p[i] = i;
        std::function<unsigned(unsigned)> find = [&](unsigned x) { while (p[x] != x) x = p[x]; return x; };
        auto at = [&](const std::string& e, unsigned k) { return c.find(m.eqs.at(e).vl[k], key(e, k + 1)); };
        auto join = [&](int a, int b) { if (a >= 0 && b >= 0) p[find(static_cast<unsigned>(a))] = find(static_cast<unsigned>(b)); };
        for (auto& e : m.eqs) {
            for (unsigned k = 0; k < e.second.vl.size(); ++k) for (unsigned l = 0; l < k; ++l) join(at(e.first, k), at(e.first, l));
        }
        if (withHvdc) for (auto& h : m.hvdcs) join(at(h.second.first, 0), at(h.second.second, 0));
        std::vector<unsigned> r(p.size());
        for (unsigned i = 0; i < p.size(); ++i) r[i] = find(i);
        return r;
    };
    c.connected = number(true);
    c.synchronous = number(false);
    return c;
}

// ---- comparison -----------------------------------------------------------------------------------------------------

namespace {

std::string termKey(const Terminal& t) {
    const Connectable& c = t.getConnectable().get();
    unsigned k = 0;
    for (const Terminal& o : c.getTerminals()) {
        ++k;
        if (std::addressof(o) == std::addressof(t)) return key(c.getId(), k);
    }
    return "?" + c.getId();
}

std::string join(const std::set<std::string>& s) { std::string r; for (auto& x : s) r += x + " "; return r; }

bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }

template <typename T> struct NoConst { using type = typename std::remove_const<T>::type; };

template <typename Range>
std::string idsOf(Range range) {
    std::vector<std::string> v;
    for (auto& o : range) v.push_back(o.getId());
    std::sort(v.begin(), v.end());
    std::string r;
    for (auto& s : v) r += s + " ";
    return r;
}

// equipment lists of a bus
template <typename B>
void checkBusLists(B& b, const Group& g, const Model& m, mc::Run& run, const std::string& what) {
    std::map<char, std::vector<std::string>> byType;
    double p = 0, q = 0;
    std::set<std::string> seen;
    unsigned long count = 0;
    for (auto& t : b.getConnectedTerminals()) {
        std::string k = termKey(t);
        MC_CHECK(run, seen.insert(k).second, what << " lists the terminal " << k << " twice");
        ++count;
        std::string e = k.substr(0, k.rfind('/'));
        MC_CHECK(run, m.eqs.count(e), what << " lists " << e << " which is not in the network");
        char ty = m.eqs.at(e).type;
        byType[ty].push_back(e);
        if (std::string("GALXY").find(ty) != std::string::npos) {
            if (!std::isnan(t.getP())) p += t.getP();
        }
        if (std::string("GALXYSV").find(ty) != std::string::npos) {
            if (!std::isnan(t.getQ())) q += t.getQ();
        }
    }
    MC_CHECK(run, seen == g.terms, what << " has the terminals " << join(seen) << "but they should be " << join(g.terms));
    MC_CHECK(run, b.getConnectedTerminalCount() == count, what << " getConnectedTerminalCount " << b.getConnectedTerminalCount() << " but lists " << count);
    auto list = [&](char ty) {
        std::vector<std::string> v = byType[ty];
        std::sort(v.begin(), v.end());
        std::string r;
        for (auto& s : v) r += s + " ";
        return r;
    };
#define LIST(ty, getter) do { std::string e_ = list(ty), a_ = idsOf(b.getter()); MC_CHECK(run, e_ == a_, what << " " #getter " " << a_ << "expected " << e_); } while (0)
    LIST('L', getLoads);
    LIST('G', getGenerators);
    LIST('A', getBatteries);
    LIST('S', getShuntCompensators);
    LIST('V', getStaticVarCompensators);
    LIST('D', getDanglingLines);
    LIST('X', getVscConverterStations);
    LIST('Y', getLccConverterStations);
    LIST('N', getLines);
    LIST('2', getTwoWindingsTransformers);
    LIST('3', getThreeWindingsTransformers);
#undef LIST
    if (count == 0) {
        MC_CHECK(run, std::isnan(b.getP()) && std::isnan(b.getQ()), what << " without terminal has p and q");
    } else {
        MC_CHECK(run, std::fabs(b.getP() - p) < 1e-9, what << " p " << b.getP() << " expected " << p);
        MC_CHECK(run, std::fabs(b.getQ() - q) < 1e-9, what << " q " << b.getQ() << " expected " << q);
    }
}

}  // namespace

template <typename N>
void checkVariant(N& n, const Model& m, const VState& s, bool withComps, mc::Run& run) {
    using B = typename std::conditional<std::is_const<N>::value, const Bus, Bus>::type;
    Comps comps = components(m, s);
    // bus-level group index -> bus
    std::vector<B*> busOf(comps.groups.size(), nullptr);
    std::map<std::string, B*> allBusIds, allBbIds;
    std::set<B*> busViewBuses;
    struct BbBus { B* b; int group; };
    std::vector<BbBus> bbBuses;   // bus/breaker level buses with the bus-level group they are in

    for (auto& v : m.vls) {
        const std::string& vlId = v.first;
        auto& vl = n.getVoltageLevel(vlId);
        std::string w = "voltage level " + vlId;
        // --- primitives
        unsigned long nsw = 0;
        for (auto& sw : m.sws) {
            if (sw.second.vl != vlId) continue;
            ++nsw;
            auto& sref = n.getSwitch(sw.first);
            const SwState& ss = s.sws.at(sw.first);
            MC_CHECK(run, sref.isOpen() == ss.open, "switch " << sw.first << " open " << sref.isOpen() << " expected " << ss.open);
            MC_CHECK(run, sref.isRetained() == ss.retained, "switch " << sw.first << " retained " << sref.isRetained() << " expected " << ss.retained);
            MC_CHECK(run, std::addressof(sref.getVoltageLevel()) == std::addressof(vl), "switch " << sw.first << " is in another voltage level");
        }
        MC_CHECK(run, vl.getSwitchCount() == nsw, w << " switch count " << vl.getSwitchCount() << " expected " << nsw);
        MC_CHECK(run, net::rangeSize(vl.getSwitches()) == nsw, w << " lists " << net::rangeSize(vl.getSwitches()) << " switches, expected " << nsw);
        // --- bus view
        std::vector<Group> g2 = groups(m, s, vlId, 2);
        std::vector<bool> found(g2.size(), false);
        unsigned long nBuses = 0;
        auto& busView = vl.getBusView();
        auto& bbView = vl.getBusBreakerView();
        for (auto& b : busView.getBuses()) {
            ++nBuses;
            std::set<std::string> ts;
            for (auto& t : b.getConnectedTerminals()) ts.insert(termKey(t));
            std::string what = "bus " + b.getId();
            unsigned i = 0;
            for (; i < g2.size(); ++i) if (g2[i].terms == ts) break;
            MC_CHECK(run, i < g2.size(), what << " groups " << join(ts) << "which is not a group of terminals linked by closed switches");
            MC_CHECK(run, !found[i], what << " groups the same terminals as another bus");
            found[i] = true;
            MC_CHECK(run, allBusIds.insert({b.getId(), std::addressof(b)}).second, "two calculated buses have the id " << b.getId());
            busViewBuses.insert(std::addressof(b));
            for (unsigned j = 0; j < comps.groups.size(); ++j) {
                if (comps.groups[j].first == vlId && comps.groups[j].second.terms == ts) busOf[j] = std::addressof(b);
            }
            MC_CHECK(run, std::addressof(b.getVoltageLevel()) == std::addressof(vl), what << " is not in " << w);
            checkBusLists(b, g2[i], m, run, what);
            auto byId = busView.getBus(b.getId());
            MC_CHECK(run, byId && std::addressof(byId.get()) == std::addressof(b), w << " bus view getBus(" << b.getId() << ") does not return the listed bus");
            auto byIdN = n.getBusView().getBus(b.getId());
            MC_CHECK(run, byIdN && std::addressof(byIdN.get()) == std::addressof(b), "network bus view getBus(" << b.getId() << ") does not return the bus of the voltage level");
            // voltage, angle
            std::set<double> vs, as;
            bool vnan = false, anan = false;
            if (v.second.nb) {
                for (auto& t : g2[i].terms) {
                    double x = s.terms.at(t).v, y = s.terms.at(t).a;
                    if (std::isnan(x)) vnan = true; else vs.insert(x);
                    if (std::isnan(y)) anan = true; else as.insert(y);
                }
            } else {
                for (auto& cb : g2[i].buses) {
                    double x = s.buses.at(cb).v, y = s.buses.at(cb).a;
                    if (!std::isnan(x)) vs.insert(x);
                    if (!std::isnan(y)) as.insert(y);
                }
                vnan = vs.empty();
                anan = as.empty();
            }
            MC_CHECK(run, std::isnan(b.getV()) ? vnan : vs.count(b.getV()) == 1, what << " voltage " << b.getV() << " is not one stored on its nodes");
            MC_CHECK(run, std::isnan(b.getAngle()) ? anan : as.count(b.getAngle()) == 1, what << " angle " << b.getAngle() << " is not one stored on its nodes");
        }
        for (unsigned i = 0; i < g2.size(); ++i) MC_CHECK(run, found[i], w << " bus view misses the bus of " << join(g2[i].terms));
        MC_CHECK(run, nBuses == g2.size(), w << " bus view has " << nBuses << " buses, expected " << g2.size());
        MC_CHECK(run, !busView.getBus("unknown bus"), w << " bus view finds an unknown bus");
        auto busOfGroup = [&](const Group& g) -> B* {
            for (unsigned j = 0; j < comps.groups.size(); ++j) if (comps.groups[j].first == vlId && comps.groups[j].second.nodes == g.nodes && comps.groups[j].second.buses == g.buses) return busOf[j];
            return nullptr;
        };
        auto group2WithTerm = [&](const std::string& t) -> const Group* { for (auto& g : g2) if (g.terms.count(t)) return &g; return nullptr; };
        auto addrOf = [](B* b) { return b; };
        (void)addrOf;
        // --- bus/breaker view
        std::vector<Group> g1 = groups(m, s, vlId, 1);
        std::map<unsigned, B*> bbOf;     // index in g1 -> bus
        std::set<B*> emptyOnes;
        unsigned long nBb = 0;
        for (auto& b : bbView.getBuses()) {
            ++nBb;
            std::string what = "bus/breaker bus " + b.getId();
            std::set<std::string> ts;
            for (auto& t : b.getConnectedTerminals()) ts.insert(termKey(t));
            unsigned i = 0;
            if (v.second.nb) {
                if (ts.empty()) emptyOnes.insert(std::addressof(b));
                for (; i < g1.size(); ++i) if (g1[i].terms == ts && (!ts.empty() || !bbOf.count(i))) break;
            } else {
                for (; i < g1.size(); ++i) if (g1[i].buses.count(b.getId())) break;
            }
            MC_CHECK(run, i < g1.size(), what << " groups " << join(ts) << "which is not a group linked by closed non retained switches");
            MC_CHECK(run, !bbOf.count(i), what << " groups the same nodes as another bus");
            bbOf[i] = std::addressof(b);
            MC_CHECK(run, allBbIds.insert({b.getId(), std::addressof(b)}).second, "two bus/breaker buses have the id " << b.getId());
            MC_CHECK(run, std::addressof(b.getVoltageLevel()) == std::addressof(vl), what << " is not in " << w);
            checkBusLists(b, g1[i], m, run, what);
            auto byId = bbView.getBus(b.getId());
            MC_CHECK(run, byId && std::addressof(byId.get()) == std::addressof(b), w << " bus/breaker view getBus(" << b.getId() << ") does not return the listed bus");
            auto byIdN = n.getBusBreakerView().getBus(b.getId());
            MC_CHECK(run, byIdN && std::addressof(byIdN.get()) == std::addressof(b), "network bus/breaker view getBus(" << b.getId() << ") does not return the bus of the voltage level");
            // which bus-level group
            int group = -1;
            if (!v.second.nb || !ts.empty()) {
                for (unsigned j = 0; j < comps.groups.size(); ++j) {
                    if (comps.groups[j].first != vlId) continue;
                    if (v.second.nb ? comps.groups[j].second.terms.count(*ts.begin()) : comps.groups[j].second.buses.count(b.getId())) group = static_cast<int>(j);
                }
                bbBuses.push_back({std::addressof(b), group});
            }
            if (v.second.nb) {
                if (!ts.empty()) {
                    bool okV = false, okA = false;
                    for (auto& t : ts) { okV = okV || same(s.terms.at(t).v, b.getV()); okA = okA || same(s.terms.at(t).a, b.getAngle()); }
                    MC_CHECK(run, okV, what << " voltage " << b.getV() << " is not stored on its nodes");
                    MC_CHECK(run, okA, what << " angle " << b.getAngle() << " is not stored on its nodes");
                }
            } else {
                MC_CHECK(run, same(b.getV(), s.buses.at(b.getId()).v), what << " voltage " << b.getV() << " expected " << s.buses.at(b.getId()).v);
                MC_CHECK(run, same(b.getAngle(), s.buses.at(b.getId()).a), what << " angle " << b.getAngle() << " expected " << s.buses.at(b.getId()).a);
                auto merged = busView.getMergedBus(b.getId());
                const Group* g = nullptr;
                for (auto& x : g2) if (x.buses.count(b.getId())) g = &x;
                MC_CHECK(run, static_cast<bool>(merged) == (g != nullptr), what << (merged ? " has a merged bus" : " has no merged bus"));
                if (g) MC_CHECK(run, std::addressof(merged.get()) == busOfGroup(*g), what << " has the merged bus " << merged.get().getId());
            }
        }
        MC_CHECK(run, nBb == g1.size(), w << " bus/breaker view has " << nBb << " buses, expected " << g1.size());
        MC_CHECK(run, !bbView.getBus("unknown bus"), w << " bus/breaker view finds an unknown bus");
        if (!v.second.nb) MC_CHECK(run, !busView.getMergedBus("unknown bus"), w << " merged bus of an unknown bus");
        // switches of the bus/breaker view
        std::map<unsigned, B*> emptyOf;   // group without terminal -> bus seen at a switch end
        unsigned long nRet = 0;
        for (auto& sw : m.sws) {
            if (sw.second.vl != vlId) continue;
            const std::string& id = sw.first;
            if (v.second.nb) {
                auto& nbv = vl.getNodeBreakerView();
                MC_CHECK(run, static_cast<long>(nbv.getNode1(id)) == sw.second.n1 && static_cast<long>(nbv.getNode2(id)) == sw.second.n2, "switch " << id << " ends");
                auto r = nbv.getSwitch(id);
                MC_CHECK(run, r && std::addressof(r.get()) == std::addressof(n.getSwitch(id)), "node/breaker view getSwitch(" << id << ")");
                if (!s.sws.at(id).retained) {
                    bool refused = false;
                    try { bbView.getBus1(id); } catch (const powsybl::PowsyblException&) { refused = true; }
                    MC_CHECK(run, refused, "bus/breaker view knows the switch " << id << " which is not retained");
                    continue;
                }
            }
            ++nRet;
            auto r = bbView.getSwitch(id);
            MC_CHECK(run, r && std::addressof(r.get()) == std::addressof(n.getSwitch(id)), "bus/breaker view getSwitch(" << id << ")");
            for (int side = 1; side <= 2; ++side) {
                auto b = side == 1 ? bbView.getBus1(id) : bbView.getBus2(id);
                MC_CHECK(run, b, "switch " << id << " has no bus " << side);
                unsigned i = 0;
                if (v.second.nb) {
                    for (; i < g1.size(); ++i) if (g1[i].nodes.count(side == 1 ? sw.second.n1 : sw.second.n2)) break;
                } else {
                    for (; i < g1.size(); ++i) if (g1[i].buses.count(side == 1 ? sw.second.b1 : sw.second.b2)) break;
                }
                if (v.second.nb && g1[i].terms.empty()) {
                    MC_CHECK(run, emptyOnes.count(std::addressof(b.get())), "switch " << id << " bus " << side << " is " << b.get().getId());
                    auto it = emptyOf.insert({i, std::addressof(b.get())}).first;
                    MC_CHECK(run, it->second == std::addressof(b.get()), "switch " << id << " bus " << side << " is " << b.get().getId() << ", " << it->second->getId() << " for another switch at the same bus");
                } else {
                    MC_CHECK(run, bbOf.at(i) == std::addressof(b.get()), "switch " << id << " bus " << side << " is " << b.get().getId() << " instead of " << bbOf.at(i)->getId());
                }
            }
        }
        std::set<B*> distinctEmpty;
        for (auto& e : emptyOf) MC_CHECK(run, distinctEmpty.insert(e.second).second, "two groups of nodes have the same bus " << e.second->getId());
        MC_CHECK(run, bbView.getSwitchCount() == nRet, w << " bus/breaker view switch count " << bbView.getSwitchCount() << " expected " << nRet);
        MC_CHECK(run, net::rangeSize(bbView.getSwitches()) == nRet, w << " bus/breaker view lists " << net::rangeSize(bbView.getSwitches()) << " switches, expected " << nRet);
        // node/breaker primitives
        if (v.second.nb) {
            auto& nbv = vl.getNodeBreakerView();
            std::multiset<std::pair<long, long>> expected, actual;
            for (auto i : v.second.ics) expected.insert({std::min(i.first, i.second), std::max(i.first, i.second)});
            for (const auto& i : nbv.getInternalConnections()) {
                long a = static_cast<long>(i.getNode1()), b = static_cast<long>(i.getNode2());
                actual.insert({std::min(a, b), std::max(a, b)});
            }
            MC_CHECK(run, expected == actual, w << " has " << actual.size() << " internal connections, expected " << expected.size());
            MC_CHECK(run, nbv.getInternalConnectionCount() == expected.size(), w << " internal connection count " << nbv.getInternalConnectionCount());
            MC_CHECK(run, nbv.getSwitchCount() == nsw, w << " node/breaker switch count");
            std::map<long, std::string> at;
            for (auto& e : m.eqs) for (unsigned k = 0; k < e.second.vl.size(); ++k) if (e.second.vl[k] == vlId) at[e.second.node[k]] = key(e.first, k + 1);
            for (long node = 0; node < 12; ++node) {
                auto t = nbv.getOptionalTerminal(static_cast<unsigned long>(node));
                std::string a = t ? termKey(t.get()) : "";
                std::string e = at.count(node) ? at[node] : "";
                MC_CHECK(run, a == e, w << " node " << node << " terminal '" << a << "' expected '" << e << "'");
            }
            for (auto& e : m.eqs) {
                if (e.second.type != 'H' || e.second.vl[0] != vlId) continue;
                auto merged = busView.getMergedBus(e.first);
                const Group* g = group2WithTerm(key(e.first, 1));
                MC_CHECK(run, static_cast<bool>(merged) == (g != nullptr), "busbar section " << e.first << (merged ? " has" : " has no") << " merged bus");
                if (g) MC_CHECK(run, std::addressof(merged.get()) == busOfGroup(*g), "busbar section " << e.first << " merged bus is " << merged.get().getId());
            }
        }
        // terminals
        for (auto& e : m.eqs) {
            for (unsigned k = 0; k < e.second.vl.size(); ++k) {
                if (e.second.vl[k] != vlId) continue;
                std::string tk = key(e.first, k + 1);
                auto& eqp = n.template get<Connectable>(e.first);
                Terminal& t0 = eqp.getTerminals().at(k).get();
                typename std::conditional<std::is_const<N>::value, const Terminal, Terminal>::type& t = t0;
                const TermState& ts = s.terms.at(tk);
                const Group* g = group2WithTerm(tk);
                bool conn = v.second.nb ? g != nullptr : ts.connected;
                MC_CHECK(run, std::addressof(t.getVoltageLevel()) == std::addressof(vl), "terminal " << tk << " is in another voltage level");
                MC_CHECK(run, t.isConnected() == conn, "terminal " << tk << " connected " << t.isConnected() << " expected " << conn);
                auto tb = t.getBusView().getBus();
                MC_CHECK(run, static_cast<bool>(tb) == (g != nullptr), "terminal " << tk << (tb ? " has" : " has no") << " bus");
                if (g) MC_CHECK(run, std::addressof(tb.get()) == busOfGroup(*g), "terminal " << tk << " bus is " << tb.get().getId());
                auto tbb = t.getBusBreakerView().getBus();
                unsigned i = 0;
                for (; i < g1.size(); ++i) if (g1[i].terms.count(tk)) break;
                MC_CHECK(run, static_cast<bool>(tbb) == (i < g1.size()), "terminal " << tk << (tbb ? " has" : " has no") << " bus/breaker bus");
                if (i < g1.size()) MC_CHECK(run, std::addressof(tbb.get()) == bbOf.at(i), "terminal " << tk << " bus/breaker bus is " << tbb.get().getId());
                auto cb = t.getBusBreakerView().getConnectableBus();
                auto cbv = t.getBusView().getConnectableBus();
                if (v.second.nb) {
                    MC_CHECK(run, static_cast<long>(t.getNodeBreakerView().getNode()) == e.second.node[k], "terminal " << tk << " node");
                    UfN uf;
                    for (auto& x : v.second.ics) uf.join(x.first, x.second);
                    for (auto& x : m.sws) if (x.second.vl == vlId) uf.join(x.second.n1, x.second.n2);
                    uf.add(e.second.node[k]);
                    auto checkConnectable = [&](const std::vector<Group>& gs, const Group* own, const std::function<B*(unsigned)>& busAt, B* actual, const char* view) {
                        MC_CHECK(run, (actual == nullptr) == gs.empty(), "terminal " << tk << " connectable bus of the " << view << " view is " << (actual ? actual->getId() : "missing"));
                        if (!actual) return;
                        bool reachable = false, ok = false;
                        for (unsigned x = 0; x < gs.size(); ++x) {
                            bool here = uf.p.count(*gs[x].nodes.begin()) && uf.find(*gs[x].nodes.begin()) == uf.find(e.second.node[k]);
                            reachable = reachable || here;
                            if (own) here = &gs[x] == own;
                            if (here && (busAt(x) == actual || (gs[x].terms.empty() && emptyOnes.count(actual)))) ok = true;
                        }
                        MC_CHECK(run, ok || (!own && !reachable), "terminal " << tk << " connectable bus of the " << view << " view is " << actual->getId());
                    };
                    checkConnectable(g2, g, [&](unsigned x) { return busOfGroup(g2[x]); }, cbv ? std::addressof(cbv.get()) : nullptr, "bus");
                    checkConnectable(g1, i < g1.size() ? &g1[i] : nullptr, [&](unsigned x) { return bbOf.at(x); }, cb ? std::addressof(cb.get()) : nullptr, "bus/breaker");
                    MC_CHECK(run, same(t.getV(), ts.v) && same(t.getAngle(), ts.a), "terminal " << tk << " voltage " << t.getV() << " angle " << t.getAngle() << " expected " << ts.v << " " << ts.a);
                } else {
                    MC_CHECK(run, cb && cb.get().getId() == ts.bus, "terminal " << tk << " connectable bus is " << (cb ? cb.get().getId() : "missing") << " expected " << ts.bus);
                    const Group* cg = nullptr;
                    for (auto& x : g2) if (x.buses.count(ts.bus)) cg = &x;
                    MC_CHECK(run, static_cast<bool>(cbv) == (cg != nullptr), "terminal " << tk << " connectable bus of the bus view is " << (cbv ? cbv.get().getId() : "missing"));
                    if (cg) MC_CHECK(run, std::addressof(cbv.get()) == busOfGroup(*cg), "terminal " << tk << " connectable bus of the bus view is " << cbv.get().getId());
                    double ev = conn ? s.buses.at(ts.bus).v : NAN, ea = conn ? s.buses.at(ts.bus).a : NAN;
                    MC_CHECK(run, same(t.getV(), ev) && same(t.getAngle(), ea), "terminal " << tk << " voltage " << t.getV() << " angle " << t.getAngle() << " expected " << ev << " " << ea);
                }
            }
        }
    }
    // network views
    unsigned long total = 0;
    for (auto& b : n.getBusView().getBuses()) { ++total; MC_CHECK(run, busViewBuses.count(std::addressof(b)), "network bus view lists " << b.getId() << " which no voltage level lists"); }
    MC_CHECK(run, total == allBusIds.size(), "network bus view lists " << total << " buses, expected " << allBusIds.size());
    total = 0;
    for (auto& b : n.getBusBreakerView().getBuses()) { ++total; MC_CHECK(run, allBbIds.count(b.getId()) && allBbIds[b.getId()] == std::addressof(b), "network bus/breaker view lists " << b.getId()); }
    MC_CHECK(run, total == allBbIds.size(), "network bus/breaker view lists " << total << " buses, expected " << allBbIds.size());
    MC_CHECK(run, !n.getBusView().getBus("unknown bus") && !n.getBusBreakerView().getBus("unknown bus"), "network views find an unknown bus");
    for (auto& id : allBusIds) {   // a bus-level id must not be found by another voltage level
        for (auto& v : m.vls) {
            auto other = n.getVoltageLevel(v.first).getBusView().getBus(id.first);
            if (other) MC_CHECK(run, std::addressof(other.get()) == id.second, "bus " << id.first << " is found in the voltage level " << v.first);
        }
    }
    for (auto& id : allBbIds) {
        for (auto& v : m.vls) {
            auto other = n.getVoltageLevel(v.first).getBusBreakerView().getBus(id.first);
            if (other) MC_CHECK(run, std::addressof(other.get().getVoltageLevel()) == std::addressof(n.getVoltageLevel(v.first)), "bus " << id.first << " is found in the voltage level " << v.first);
        }
    }
    if (!withComps) return;
    // components
    for (int kind = 0; kind < 2; ++kind) {
        const std::vector<unsigned>& num = kind == 0 ? comps.connected : comps.synchronous;
        const char* what = kind == 0 ? "connected" : "synchronous";
        auto compOf = [&](B& b) { return kind == 0 ? b.getConnectedComponent() : b.getSynchronousComponent(); };
        std::map<unsigned, unsigned long> apiOf;   // model component -> api number
        std::map<unsigned, unsigned long> sizeOf;
        std::map<unsigned long, unsigned> modelOf;
        for (unsigned x : num) ++sizeOf[x];
        for (unsigned i = 0; i < num.size(); ++i) {
            auto c = compOf(*busOf[i]);
            MC_CHECK(run, c, "bus " << busOf[i]->getId() << " has no " << what << " component");
            auto it = apiOf.insert({num[i], c.get().getNum()}).first;
            MC_CHECK(run, it->second == c.get().getNum(), "bus " << busOf[i]->getId() << " is in the " << what << " component " << c.get().getNum() << " but it is linked to a bus of " << it->second);
            auto it2 = modelOf.insert({c.get().getNum(), num[i]}).first;
            MC_CHECK(run, it2->second == num[i], "bus " << busOf[i]->getId() << " is in the " << what << " component " << c.get().getNum() << " with buses it is not linked to");
            MC_CHECK(run, c.get().getSize() == sizeOf[num[i]], what << " component " << c.get().getNum() << " has size " << c.get().getSize() << " expected " << sizeOf[num[i]]);
            bool main = kind == 0 ? busOf[i]->isInMainConnectedComponent() : busOf[i]->isInMainSynchronousComponent();
            MC_CHECK(run, main == (c.get().getNum() == 0), "bus " << busOf[i]->getId() << " in main " << what << " component " << main);
            for (auto& o : c.get().getBuses()) MC_CHECK(run, busViewBuses.count(std::addressof(o)) , what << " component lists " << o.getId());
        }
        auto list = kind == 0 ? n.getBusView().getConnectedComponents() : n.getBusView().getSynchronousComponents();
        unsigned long i = 0, previous = 0;
        for (auto& c : list) {
            MC_CHECK(run, c.getNum() == i, what << " component at index " << i << " has number " << c.getNum());
            MC_CHECK(run, modelOf.count(c.getNum()), what << " component " << c.getNum() << " has no bus");
            MC_CHECK(run, i == 0 || c.getSize() <= previous, what << " component " << i << " is larger than the previous one");
            previous = c.getSize();
            std::set<B*> expected, actual;
            for (unsigned x = 0; x < num.size(); ++x) if (num[x] == modelOf[c.getNum()]) expected.insert(busOf[x]);
            for (auto& b : c.getBuses()) actual.insert(std::addressof(b));
            MC_CHECK(run, expected == actual, what << " component " << i << " lists " << actual.size() << " buses, expected " << expected.size());
            MC_CHECK(run, net::rangeSize(c.getBuses()) == c.getSize(), what << " component " << i << " lists " << net::rangeSize(c.getBuses()) << " buses but has size " << c.getSize());
            ++i;
        }
        MC_CHECK(run, i == modelOf.size(), i << " " << what << " components, expected " << modelOf.size());
        for (auto& bb : bbBuses) {
            auto c = compOf(*bb.b);
            MC_CHECK(run, static_cast<bool>(c) == (bb.group >= 0), "bus/breaker bus " << bb.b->getId() << (c ? " has" : " has no") << " " << what << " component");
            if (c) MC_CHECK(run, c.get().getNum() == apiOf[num[static_cast<unsigned>(bb.group)]], "bus/breaker bus " << bb.b->getId() << " is in the " << what << " component " << c.get().getNum());
            bool main = kind == 0 ? bb.b->isInMainConnectedComponent() : bb.b->isInMainSynchronousComponent();
            MC_CHECK(run, main == (c && c.get().getNum() == 0), "bus/breaker bus " << bb.b->getId() << " in main " << what << " component " << main);
        }
    }
}

template void checkVariant<Network>(Network&, const Model&, const VState&, bool, mc::Run&);
template void checkVariant<const Network>(const Network&, const Model&, const VState&, bool, mc::Run&);

// ---- world ----------------------------------------------------------------------------------------------------------

World::World(const std::string& id) : n(new Network(id, "verif")) {
    m.working = VariantManager::getInitialVariantId();
    m.variants[m.working];
}

bool World::apply(unsigned op, mc::Run& run) {
    return (*ops)[op].second(*this, run);
}

void World::compare(mc::Run& run, bool everything) {
    auto& vm = n->getVariantManager();
    std::set<std::string> expected;
    for (auto& v : m.variants) expected.insert(v.first);
    MC_CHECK(run, vm.getVariantIds() == expected, "variants " << join(vm.getVariantIds()) << "expected " << join(expected));
    MC_CHECK(run, vm.getWorkingVariantId() == m.working, "working variant " << vm.getWorkingVariantId() << " expected " << m.working);
    const Network& cn = *n;
    if (everything) checkVariant<const Network>(cn, m, st(), checkComponents, run);
    checkVariant<Network>(*n, m, st(), checkComponents, run);
    if (m.variants.size() > 1) {
        for (auto& v : m.variants) {
            if (v.first == m.working) continue;
            vm.setWorkingVariant(v.first);
            try {
                checkVariant<const Network>(cn, m, v.second, checkComponents, run);
            } catch (mc::Fail& f) {
                f.msg = "variant " + v.first + ": " + f.msg;
                throw;
            }
        }
        vm.setWorkingVariant(m.working);
    }
    run.transition();
}

void World::forEachVariant(const std::function<void()>& f) { f(); }

void World::substation(const std::string& id) { n->newSubstation().setId(id).add(); }

void World::vl(const std::string& id, const std::string& sub, bool nb, double nominalV) {
    n->getSubstation(sub).newVoltageLevel().setId(id).setNominalV(nominalV).setTopologyKind(nb ? TopologyKind::NODE_BREAKER : TopologyKind::BUS_BREAKER).add();
    m.vls[id] = MVl{nb, sub, {}, {}};
}

void World::bus(const std::string& vlId, const std::string& id) {
    level(vlId).getBusBreakerView().newBus().setId(id).add();
    m.vls[vlId].buses.push_back(id);
    for (auto& v : m.variants) v.second.buses[id] = BusState();
}

bool World::removeBus(const std::string& vlId, const std::string& id, mc::Run& run) {
    auto& buses = m.vls[vlId].buses;
    auto it = std::find(buses.begin(), buses.end(), id);
    bool ok = it != buses.end();
    for (auto& sw : m.sws) if (sw.second.b1 == id || sw.second.b2 == id) ok = false;
    for (auto& v : m.variants) for (auto& t : v.second.terms) if (t.second.bus == id) ok = false;
    bool accepted = mc::accepted([&] { level(vlId).getBusBreakerView().removeBus(id); });
    MC_CHECK(run, accepted == ok, "removal of the bus " << id << (accepted ? " accepted" : " refused"));
    if (ok) {
        buses.erase(it);
        for (auto& v : m.variants) v.second.buses.erase(id);
    }
    return true;
}

bool World::removeAllBuses(const std::string& vlId, mc::Run& run) {
    bool ok = true;
    auto& buses = m.vls[vlId].buses;
    for (auto& sw : m.sws) if (sw.second.vl == vlId) ok = false;
    for (auto& v : m.variants) for (auto& t : v.second.terms) if (std::count(buses.begin(), buses.end(), t.second.bus)) ok = false;
    bool accepted = mc::accepted([&] { level(vlId).getBusBreakerView().removeAllBuses(); });
    MC_CHECK(run, accepted == ok, "removal of all the buses " << (accepted ? "accepted" : "refused"));
    if (ok) {
        for (auto& v : m.variants) for (auto& b : buses) v.second.buses.erase(b);
        buses.clear();
    }
    return true;
}

bool World::removeAllSwitches(const std::string& vlId) {
    level(vlId).getBusBreakerView().removeAllSwitches();
    for (auto it = m.sws.begin(); it != m.sws.end();) {
        if (it->second.vl == vlId) {
            for (auto& v : m.variants) v.second.sws.erase(it->first);
            it = m.sws.erase(it);
        } else {
            ++it;
        }
    }
    return true;
}

bool World::sw(const std::string& vlId, const std::string& id, char kind, long n1, long n2, bool open, bool retained) {
    if (m.sws.count(id)) return false;
    level(vlId).getNodeBreakerView().newSwitch().setId(id).setKind(kind == 'B' ? SwitchKind::BREAKER : kind == 'D' ? SwitchKind::DISCONNECTOR : SwitchKind::LOAD_BREAK_SWITCH)
        .setNode1(static_cast<unsigned long>(n1)).setNode2(static_cast<unsigned long>(n2)).setOpen(open).setRetained(retained).add();
    m.sws[id] = MSw{vlId, kind, n1, n2, "", ""};
    for (auto& v : m.variants) v.second.sws[id] = SwState{open, retained};
    return true;
}

bool World::sw(const std::string& vlId, const std::string& id, const std::string& b1, const std::string& b2, bool open) {
    if (m.sws.count(id)) return false;
    for (auto& b : {b1, b2}) if (!std::count(m.vls[vlId].buses.begin(), m.vls[vlId].buses.end(), b)) return false;
    level(vlId).getBusBreakerView().newSwitch().setId(id).setBus1(b1).setBus2(b2).setOpen(open).add();
    m.sws[id] = MSw{vlId, 'B', -1, -1, b1, b2};
    for (auto& v : m.variants) v.second.sws[id] = SwState{open, true};
    return true;
}

bool World::removeSw(const std::string& id) {
    auto it = m.sws.find(id);
    if (it == m.sws.end()) return false;
    if (m.vls[it->second.vl].nb) {
        level(it->second.vl).getNodeBreakerView().removeSwitch(id);
    } else {
        level(it->second.vl).getBusBreakerView().removeSwitch(id);
    }
    m.sws.erase(it);
    for (auto& v : m.variants) v.second.sws.erase(id);
    return true;
}

bool World::setOpen(const std::string& id, bool open) {
    if (!m.sws.count(id)) return false;
    n->getSwitch(id).setOpen(open);
    st().sws[id].open = open;
    return true;
}

bool World::toggle(const std::string& id) {
    if (!m.sws.count(id)) return false;
    return setOpen(id, !st().sws[id].open);
}

bool World::toggleRetained(const std::string& id) {
    if (!m.sws.count(id)) return false;
    bool& r = st().sws[id].retained;
    n->getSwitch(id).setRetained(!r);
    r = !r;
    return true;
}

bool World::ic(const std::string& vlId, long n1, long n2) {
    level(vlId).getNodeBreakerView().newInternalConnection().setNode1(static_cast<unsigned long>(n1)).setNode2(static_cast<unsigned long>(n2)).add();
    m.vls[vlId].ics.push_back({n1, n2});
    return true;
}

bool World::removeIc(const std::string& vlId, long n1, long n2, mc::Run& run) {
    auto& ics = m.vls[vlId].ics;
    size_t before = ics.size();
    std::vector<std::pair<long, long>> rest;
    for (auto& i : ics) if (!((i.first == n1 && i.second == n2) || (i.first == n2 && i.second == n1))) rest.push_back(i);
    bool accepted = mc::accepted([&] { level(vlId).getNodeBreakerView().removeInternalConnections(static_cast<unsigned long>(n1), static_cast<unsigned long>(n2)); });
    MC_CHECK(run, accepted == (rest.size() < before), "removal of internal connections " << (accepted ? "accepted" : "refused"));
    ics = rest;
    return true;
}

namespace {
template <typename A>
void at(A& a, bool nb, long node, const std::string& bus, bool connected) {
    if (nb) {
        a.setNode(static_cast<unsigned long>(node));
    } else {
        a.setConnectableBus(bus);
        if (connected) a.setBus(bus);
    }
}
}  // namespace

bool World::eq(char type, const std::string& id, const std::string& vlId, long node, const std::string& bus, bool connected) {
    if (m.eqs.count(id)) return false;
    bool nb = m.vls[vlId].nb;
    VoltageLevel& v = level(vlId);
    if (!nb && !std::count(m.vls[vlId].buses.begin(), m.vls[vlId].buses.end(), bus)) return false;
    if (nb) for (auto& e : m.eqs) for (unsigned k = 0; k < e.second.vl.size(); ++k) if (e.second.vl[k] == vlId && e.second.node[k] == node) return false;
    switch (type) {
        case 'H': v.getNodeBreakerView().newBusbarSection().setId(id).setNode(static_cast<unsigned long>(node)).add(); break;
        case 'L': { auto a = v.newLoad(); a.setId(id).setP0(1).setQ0(2); at(a, nb, node, bus, connected); a.add(); break; }
        case 'G': { auto a = v.newGenerator(); a.setId(id).setMinP(0).setMaxP(10).setTargetP(5).setTargetQ(1).setVoltageRegulatorOn(false).setTargetV(400); at(a, nb, node, bus, connected); a.add(); break; }
        case 'A': { auto a = v.newBattery(); a.setId(id).setMinP(0).setMaxP(10).setP0(5).setQ0(1); at(a, nb, node, bus, connected); a.add(); break; }
        case 'S': { auto a = v.newShuntCompensator(); a.setId(id).setSectionCount(1); a.newLinearModel().setBPerSection(1e-3).setMaximumSectionCount(3).add(); at(a, nb, node, bus, connected); a.add(); break; }
        case 'V': { auto a = v.newStaticVarCompensator(); a.setId(id).setBmin(0).setBmax(1).setRegulationMode(StaticVarCompensator::RegulationMode::OFF); at(a, nb, node, bus, connected); a.add(); break; }
        case 'D': { auto a = v.newDanglingLine(); a.setId(id).setP0(1).setQ0(2).setR(1).setX(2).setB(0).setG(0); at(a, nb, node, bus, connected); a.add(); break; }
        case 'X': { auto a = v.newVscConverterStation(); a.setId(id).setLossFactor(1).setVoltageRegulatorOn(false).setReactivePowerSetpoint(3); at(a, nb, node, bus, connected); a.add(); break; }
        case 'Y': { auto a = v.newLccConverterStation(); a.setId(id).setLossFactor(1).setPowerFactor(0.5); at(a, nb, node, bus, connected); a.add(); break; }
        default: throw std::logic_error("type");
    }
    m.eqs[id] = MEq{type, {vlId}, {node}};
    for (auto& s : m.variants) s.second.terms[topo::key(id, 1)] = TermState{nb ? "" : bus, connected, NAN, NAN};
    Terminal& t = terminal(id, 1);
    if (type != 'H') {
        // the active power of a static var compensator or of a shunt cannot be set
        double p = static_cast<double>(net::rangeSize(n->getConnectables()));
        mc::accepted([&] { t.setP(p); });
        mc::accepted([&] { t.setQ(2 * p); });
    }
    return true;
}

bool World::branch(char type, const std::string& id, const std::vector<std::string>& vls, const std::vector<std::string>& where) {
    if (m.eqs.count(id)) return false;
    MEq e{type, vls, {}};
    std::vector<TermState> ts;
    for (unsigned k = 0; k < vls.size(); ++k) {
        bool nb = m.vls[vls[k]].nb;
        if (nb) {
            e.node.push_back(std::stol(where[k]));
            for (auto& o : m.eqs) for (unsigned l = 0; l < o.second.vl.size(); ++l) if (o.second.vl[l] == vls[k] && o.second.node[l] == e.node[k]) return false;
            ts.push_back(TermState());
        } else {
            e.node.push_back(-1);
            bool connected = where[k][0] != '-';
            std::string b = connected ? where[k] : where[k].substr(1);
            if (!std::count(m.vls[vls[k]].buses.begin(), m.vls[vls[k]].buses.end(), b)) return false;
            ts.push_back(TermState{b, connected, NAN, NAN});
        }
    }
    auto put = [&](unsigned k, const std::function<void(unsigned long)>& node, const std::function<void(const std::string&)>& cbus, const std::function<void(const std::string&)>& b) {
        if (m.vls[vls[k]].nb) { node(static_cast<unsigned long>(e.node[k])); return; }
        cbus(ts[k].bus);
        if (ts[k].connected) b(ts[k].bus);
    };
    if (type == 'N') {
        auto a = n->newLine();
        a.setId(id).setR(1).setX(2).setG1(0).setG2(0).setB1(0).setB2(0).setVoltageLevel1(vls[0]).setVoltageLevel2(vls[1]);
        put(0, [&](unsigned long x) { a.setNode1(x); }, [&](const std::string& x) { a.setConnectableBus1(x); }, [&](const std::string& x) { a.setBus1(x); });
        put(1, [&](unsigned long x) { a.setNode2(x); }, [&](const std::string& x) { a.setConnectableBus2(x); }, [&](const std::string& x) { a.setBus2(x); });
        a.add();
    } else if (type == '2') {
        auto a = n->getSubstation(m.vls[vls[0]].sub).newTwoWindingsTransformer();
        a.setId(id).setR(1).setX(2).setG(0).setB(0).setRatedU1(400).setRatedU2(225).setVoltageLevel1(vls[0]).setVoltageLevel2(vls[1]);
        put(0, [&](unsigned long x) { a.setNode1(x); }, [&](const std::string& x) { a.setConnectableBus1(x); }, [&](const std::string& x) { a.setBus1(x); });
        put(1, [&](unsigned long x) { a.setNode2(x); }, [&](const std::string& x) { a.setConnectableBus2(x); }, [&](const std::string& x) { a.setBus2(x); });
        a.add();
    } else {
        auto a = n->getSubstation(m.vls[vls[0]].sub).newThreeWindingsTransformer();
        a.setId(id).setRatedU0(400);
        for (unsigned k = 0; k < 3; ++k) {
            auto l = k == 0 ? a.newLeg1() : k == 1 ? a.newLeg2() : a.newLeg3();
            l.setR(1).setX(2).setG(0).setB(0).setRatedU(400).setVoltageLevel(vls[k]);
            put(k, [&](unsigned long x) { l.setNode(x); }, [&](const std::string& x) { l.setConnectableBus(x); }, [&](const std::string& x) { l.setBus(x); });
            l.add();
        }
        a.add();
    }
    m.eqs[id] = e;
    for (auto& s : m.variants) for (unsigned k = 0; k < vls.size(); ++k) s.second.terms[topo::key(id, k + 1)] = ts[k];
    return true;
}

bool World::remove(const std::string& id) {
    auto it = m.eqs.find(id);
    if (it == m.eqs.end()) return false;
    for (auto& h : m.hvdcs) if (h.second.first == id || h.second.second == id) return false;
    n->get<Connectable>(id).remove();
    for (auto& s : m.variants) for (unsigned k = 0; k < it->second.vl.size(); ++k) s.second.terms.erase(topo::key(id, k + 1));
    m.eqs.erase(it);
    return true;
}

bool World::removeVl(const std::string& id) {
    if (!m.vls.count(id)) return false;
    for (auto& e : m.eqs) if (e.second.vl.size() > 1 && std::count(e.second.vl.begin(), e.second.vl.end(), id)) return false;
    for (auto& h : m.hvdcs) if (m.eqs[h.second.first].vl[0] == id || m.eqs[h.second.second].vl[0] == id) return false;
    level(id).remove();
    for (auto it = m.eqs.begin(); it != m.eqs.end();) {
        if (it->second.vl[0] == id) {
            for (auto& s : m.variants) s.second.terms.erase(topo::key(it->first, 1));
            it = m.eqs.erase(it);
        } else {
            ++it;
        }
    }
    for (auto it = m.sws.begin(); it != m.sws.end();) {
        if (it->second.vl == id) {
            for (auto& v : m.variants) v.second.sws.erase(it->first);
            it = m.sws.erase(it);
        } else {
            ++it;
        }
    }
    for (auto& v : m.variants) for (auto& b : m.vls[id].buses) v.second.buses.erase(b);
    m.vls.erase(id);
    return true;
}

Terminal& World::terminal(const std::string& eqId, unsigned k) { return n->get<Connectable>(eqId).getTerminals().at(k - 1).get(); }

bool World::connect(const std::string& eqId, unsigned k, mc::Run& run) {
    if (!m.eqs.count(eqId)) return false;
    TermState& t = st().terms.at(topo::key(eqId, k));
    bool r = terminal(eqId, k).connect();
    MC_CHECK(run, r == !t.connected, "connect of " << eqId << " returned " << r);
    t.connected = true;
    return true;
}

bool World::disconnect(const std::string& eqId, unsigned k, mc::Run& run) {
    if (!m.eqs.count(eqId)) return false;
    TermState& t = st().terms.at(topo::key(eqId, k));
    bool r = terminal(eqId, k).disconnect();
    MC_CHECK(run, r == t.connected, "disconnect of " << eqId << " returned " << r);
    t.connected = false;
    return true;
}

bool World::moveTo(const std::string& eqId, unsigned k, const std::string& busId) {
    if (!m.eqs.count(eqId)) return false;
    auto& buses = m.vls[m.eqs[eqId].vl[k - 1]].buses;
    if (!std::count(buses.begin(), buses.end(), busId)) return false;
    terminal(eqId, k).getBusBreakerView().setConnectableBus(busId);
    st().terms.at(topo::key(eqId, k)).bus = busId;
    return true;
}

bool World::hvdc(const std::string& id, const std::string& c1, const std::string& c2) {
    if (m.hvdcs.count(id) || !m.eqs.count(c1) || !m.eqs.count(c2)) return false;
    n->newHvdcLine().setId(id).setR(1).setNominalV(400).setMaxP(100).setActivePowerSetpoint(10).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER)
        .setConverterStationId1(c1).setConverterStationId2(c2).add();
    m.hvdcs[id] = {c1, c2};
    return true;
}

bool World::removeHvdc(const std::string& id) {
    if (!m.hvdcs.count(id)) return false;
    n->getHvdcLine(id).remove();
    m.hvdcs.erase(id);
    return true;
}

bool World::setV(const std::string& eqId, unsigned k, int lvl, double v) {
    if (!m.eqs.count(eqId)) return false;
    const std::string& vlId = m.eqs[eqId].vl[k - 1];
    std::string tk = topo::key(eqId, k);
    Terminal& t = terminal(eqId, k);
    auto b = lvl == 2 ? t.getBusView().getBus() : t.getBusBreakerView().getBus();
    for (auto& g : groups(m, st(), vlId, lvl)) {
        if (!g.terms.count(tk)) continue;
        if (!b) return true;   // reported by check
        b.get().setV(v);
        b.get().setAngle(v / 100);
        if (m.vls[vlId].nb) {
            for (auto& x : g.terms) { st().terms[x].v = v; st().terms[x].a = v / 100; }
        } else {
            for (auto& x : g.buses) st().buses[x] = BusState{v, v / 100};
        }
        return true;
    }
    return false;
}

bool World::setBusV(const std::string& vlId, const std::string& busId, double v) {
    auto& buses = m.vls[vlId].buses;
    if (!std::count(buses.begin(), buses.end(), busId)) return false;
    auto b = level(vlId).getBusBreakerView().getBus(busId);
    if (!b) return true;
    b.get().setV(v).setAngle(v / 100);
    st().buses[busId] = BusState{v, v / 100};
    return true;
}

bool World::clone(const std::string& src, const std::string& dst, bool overwrite, mc::Run& run) {
    bool ok = m.variants.count(src) && (overwrite || !m.variants.count(dst));
    bool accepted = mc::accepted([&] { n->getVariantManager().cloneVariant(src, dst, overwrite); });
    MC_CHECK(run, accepted == ok, "clone " << src << " to " << dst << (accepted ? " accepted" : " refused"));
    if (ok && src != dst) m.variants[dst] = VState(m.variants[src]);
    return true;
}

bool World::select(const std::string& v) {
    if (!m.variants.count(v) || v == m.working) return false;
    n->getVariantManager().setWorkingVariant(v);
    m.working = v;
    return true;
}

bool World::removeVariant(const std::string& v) {
    if (!m.variants.count(v) || v == VariantManager::getInitialVariantId() || v == m.working) return false;
    n->getVariantManager().removeVariant(v);
    m.variants.erase(v);
    return true;
}

bool World::move() {
    std::unique_ptr<Network> other(new Network(std::move(*n)));
    n = std::move(other);
    return true;
}

}  // namespace topo
