// C27: traversals started at terminals and nodes visit exactly what the decisions of the visitor make reachable, each
// terminal once; the visits of the equipment of buses and voltage levels present exactly the right equipment and sides.
#include <algorithm>

#include <powsybl/iidm/AbstractTerminalTopologyVisitor.hpp>
#include <powsybl/iidm/VoltageLevelTopologyTraverser.hpp>
#include <powsybl/iidm/util/Networks.hpp>

#include "topo.hpp"

using namespace powsybl::iidm;  // NOLINT
using topo::World;
using Op = World::Op;

namespace {

const char* INIT = "InitialVariant";

struct Decisions {
    std::set<std::string> refused;                 // terminals ("equipment/number")
    std::function<bool(const std::string&)> crossSwitch;
    bool connectedOnly = false;                    // refuse the terminals presented as disconnected
};

// what must be presented
struct Expected {
    std::set<std::string> terminals, switches;
};

Expected reach(const topo::Model& m, const topo::VState& s, const std::string& start, const Decisions& d) {
    Expected e;
    std::set<std::string> accepted;
    std::set<std::pair<std::string, std::string>> entered;     // places (voltage level, node or bus) that were crossed
    std::function<void(const std::string&, const std::string&)> cross;
    std::vector<std::string> nextTerminals;
    auto split = [](const std::string& t, std::string& eq, unsigned& k) { auto p = t.rfind('/'); eq = t.substr(0, p); k = static_cast<unsigned>(std::stoul(t.substr(p + 1))); };
    auto connected = [&](const std::string& t, bool nb) { return nb || s.terms.at(t).connected; };
    auto place = [&](const std::string& t) {
        std::string eq; unsigned k; split(t, eq, k);
        const auto& q = m.eqs.at(eq);
        bool nb = m.vls.at(q.vl[k - 1]).nb;
        return std::make_pair(q.vl[k - 1], nb ? std::to_string(q.node[k - 1]) : s.terms.at(t).bus);
    };
    auto at = [&](const std::string& vl, const std::string& where) {
        std::vector<std::string> r;
        for (auto& q : m.eqs) for (unsigned k = 1; k <= q.second.vl.size(); ++k) if (place(topo::key(q.first, k)) == std::make_pair(vl, where)) r.push_back(topo::key(q.first, k));
        return r;
    };
    // presents a terminal; true when accepted (now or before)
    auto present = [&](const std::string& t) {
        if (e.terminals.insert(t).second && !d.refused.count(t) && (!d.connectedOnly || connected(t, m.vls.at(place(t).first).nb))) {
            accepted.insert(t);
            std::string eq; unsigned k; split(t, eq, k);
            for (unsigned o = 1; o <= m.eqs.at(eq).vl.size(); ++o) if (o != k) nextTerminals.push_back(topo::key(eq, o));
        }
        return accepted.count(t) != 0;
    };
    cross = [&](const std::string& vl, const std::string& where) {
        if (!entered.insert({vl, where}).second) return;
        bool nb = m.vls.at(vl).nb;
        if (!nb) for (auto& t : at(vl, where)) present(t);
        auto go = [&](const std::string& other) {
            auto ts = at(vl, other);
            bool ok = ts.empty();
            for (auto& t : ts) ok = present(t) || ok;
            if (ok) cross(vl, other);
        };
        for (auto& w : m.sws) {
            if (w.second.vl != vl) continue;
            std::string a = nb ? std::to_string(w.second.n1) : w.second.b1, b = nb ? std::to_string(w.second.n2) : w.second.b2;
            if (a != where && b != where) continue;
            e.switches.insert(w.first);
            if (!d.crossSwitch(w.first)) continue;
            go(a == where ? b : a);
        }
        if (nb) for (auto& c : m.vls.at(vl).ics) {
            std::string a = std::to_string(c.first), b = std::to_string(c.second);
            if (a == where) go(b);
            else if (b == where) go(a);
        }
    };
    nextTerminals.push_back(start);
    while (!nextTerminals.empty()) {
        std::string t = nextTerminals.back();
        nextTerminals.pop_back();
        if (present(t)) { auto p = place(t); cross(p.first, p.second); }
    }
    return e;
}

class Traverser : public VoltageLevel::TopologyTraverser {
public:
    const World& w;
    const Decisions& d;
    std::vector<std::string> terminals;
    std::set<std::string> switches;
    std::string bad;
    Traverser(const World& world, const Decisions& decisions) : w(world), d(decisions) {}
    bool traverse(Terminal& t, bool connected) override {
        std::string k = net::term(t);
        terminals.push_back(k);
        bool nb = t.getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER;
        bool c = nb || w.m.variants.at(w.m.working).terms.at(k).connected;
        if (c != connected) bad = "terminal " + k + " presented with the wrong connection status";
        return d.refused.count(k) == 0 && (!d.connectedOnly || c);
    }
    bool traverse(Switch& s) override {
        switches.insert(s.getId());
        return d.crossSwitch(s.getId());
    }
};

std::string list(const std::set<std::string>& s) { std::string r; for (auto& x : s) r += x + " "; return r; }

void compare(World& w, const std::string& start, const Decisions& d, mc::Run& run, const std::string& what) {
    Expected e = reach(w.m, w.st(), start, d);
    Traverser t(w, d);
    std::string eq = start.substr(0, start.rfind('/'));
    w.terminal(eq, static_cast<unsigned>(std::stoul(start.substr(start.rfind('/') + 1)))).traverse(t);
    std::set<std::string> seen(t.terminals.begin(), t.terminals.end());
    run.count();
    if (!t.bad.empty()) run.fail(what + " from " + start + ": " + t.bad);
    if (seen != e.terminals) run.fail(what + " from " + start + " (refused: " + list(d.refused) + "): visited " + list(seen) + " expected " + list(e.terminals));
    if (seen.size() != t.terminals.size()) run.fail(what + " from " + start + " (refused: " + list(d.refused) + "): a terminal is visited several times");
    // a switch between two places already entered need not be presented
    if (!std::includes(e.switches.begin(), e.switches.end(), t.switches.begin(), t.switches.end())) run.fail(what + " from " + start + " (refused: " + list(d.refused) + "): switches " + list(t.switches) + " expected " + list(e.switches));
}

struct Seen : AbstractTerminalTopologyVisitor {
    std::vector<std::string> terminals;
    void visitTerminal(const Terminal& t) override { terminals.push_back(net::term(t)); }
};

std::vector<std::string> sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; }
std::string list(const std::vector<std::string>& s) { std::string r; for (auto& x : s) r += x + " "; return r; }

// node traversal of a node/breaker view; decisions by link or by node
void nodes(World& w, const std::string& vl, long start, const std::function<bool(const std::string&, long, long)>& cross, mc::Run& run) {
    const auto& mv = w.m.vls.at(vl);
    std::set<long> all;
    for (auto& s : w.m.sws) if (s.second.vl == vl) { all.insert(s.second.n1); all.insert(s.second.n2); }
    for (auto& c : mv.ics) { all.insert(c.first); all.insert(c.second); }
    for (auto& q : w.m.eqs) for (unsigned k = 0; k < q.second.vl.size(); ++k) if (q.second.vl[k] == vl) all.insert(q.second.node[k]);
    if (!all.count(start)) return;
    std::set<long> expected{start};
    std::vector<long> todo{start};
    std::set<std::string> presented;
    auto link = [](long a, long b, const std::string& s) { return std::to_string(a) + ">" + std::to_string(b) + ":" + s; };
    while (!todo.empty()) {
        long v = todo.back();
        todo.pop_back();
        auto go = [&](long o, const std::string& s) {
            presented.insert(link(v, o, s));
            if (cross(s, v, o) && expected.insert(o).second) todo.push_back(o);
        };
        for (auto& s : w.m.sws) if (s.second.vl == vl) {
            if (s.second.n1 == v) go(s.second.n2, s.first);
            else if (s.second.n2 == v) go(s.second.n1, s.first);
        }
        for (auto& c : mv.ics) {
            if (c.first == v) go(c.second, "-");
            else if (c.second == v) go(c.first, "-");
        }
    }
    std::vector<long> entered{start};
    std::string bad;
    w.level(vl).getNodeBreakerView().traverse(static_cast<unsigned long>(start), [&](unsigned long n1, const stdcxx::Reference<Switch>& s, unsigned long n2) {
        std::string id = s ? s.get().getId() : std::string("-");
        if (!presented.count(link(static_cast<long>(n1), static_cast<long>(n2), id))) bad = "unexpected link " + link(static_cast<long>(n1), static_cast<long>(n2), id);
        bool c = cross(id, static_cast<long>(n1), static_cast<long>(n2));
        if (c) entered.push_back(static_cast<long>(n2));
        return c;
    });
    run.count();
    MC_CHECK(run, bad.empty(), "nodes from " << start << ": " << bad);
    std::set<long> e(entered.begin(), entered.end());
    MC_CHECK(run, e == expected, "nodes from " << start << " of " << vl << ": " << e.size() << " nodes entered, expected " << expected.size());
    MC_CHECK(run, e.size() == entered.size(), "nodes from " << start << " of " << vl << ": a node is entered several times");
}

// Everything in the working variant
void checkWorking(World& w, mc::Run& run) {
    const auto& s = w.st();
    auto always = [](const std::string&) { return true; };
    auto never = [](const std::string&) { return false; };
    auto closed = [&s](const std::string& id) { return !s.sws.at(id).open; };
    std::vector<std::string> terms;
    for (auto& q : w.m.eqs) for (unsigned k = 1; k <= q.second.vl.size(); ++k) terms.push_back(topo::key(q.first, k));
    for (auto& t : terms) {
        Decisions d;
        d.crossSwitch = always;
        compare(w, t, d, run, "traversal of everything");
        d.crossSwitch = closed;
        compare(w, t, d, run, "traversal through closed switches");
        d.connectedOnly = true;
        compare(w, t, d, run, "traversal of what is connected");
        d.crossSwitch = never;
        compare(w, t, d, run, "traversal without switches");
        for (auto& o : terms) {
            if (o.find('/') == std::string::npos || w.m.eqs.at(o.substr(0, o.rfind('/'))).vl.size() < 2) continue;
            d.connectedOnly = false;
            d.crossSwitch = closed;
            d.refused = {o};
            compare(w, t, d, run, "traversal without " + o);
        }
    }
    // buses of both levels
    for (auto& v : w.m.vls) {
        VoltageLevel& level = w.level(v.first);
        std::vector<std::string> here;
        for (auto& q : w.m.eqs) for (unsigned k = 0; k < q.second.vl.size(); ++k) if (q.second.vl[k] == v.first) here.push_back(topo::key(q.first, k + 1));
        Seen all;
        level.visitEquipments(all);
        MC_CHECK(run, sorted(all.terminals) == sorted(here), "visit of " << v.first << ": " << list(all.terminals) << " expected " << list(here));
        for (int lvl : {1, 2}) {
            auto groups = topo::groups(w.m, s, v.first, lvl);
            unsigned found = 0;
            auto visit = [&](Bus& b) {
                ++found;
                Seen connected, any;
                b.visitConnectedEquipments(connected);
                b.visitConnectedOrConnectableEquipments(any);
                run.count();
                // the group of this bus
                const topo::Group* g = nullptr;
                for (auto& x : groups) {
                    if (v.second.nb) {
                        std::string id = b.getId();
                        if (std::to_string(*x.nodes.begin()) == id.substr(id.rfind('_') + 1)) g = &x;
                    } else if (lvl == 1) {
                        if (x.buses.count(b.getId())) g = &x;
                    } else {
                        for (auto& cb : x.buses) if (level.getBusView().getMergedBus(cb) && &level.getBusView().getMergedBus(cb).get() == &b) g = &x;
                    }
                }
                MC_CHECK(run, g != nullptr, "unexpected bus " << b.getId());
                std::vector<std::string> conn(g->terms.begin(), g->terms.end()), conb = conn;
                if (!v.second.nb) {
                    conb.clear();
                    for (auto& t : here) if (g->buses.count(s.terms.at(t).bus)) conb.push_back(t);
                }
                MC_CHECK(run, sorted(connected.terminals) == sorted(conn), "visit of the connected equipment of " << b.getId() << ": " << list(sorted(connected.terminals)) << " expected " << list(sorted(conn)));
                MC_CHECK(run, sorted(any.terminals) == sorted(conb), "visit of the connectable equipment of " << b.getId() << ": " << list(sorted(any.terminals)) << " expected " << list(sorted(conb)));
            };
            if (lvl == 1) { for (Bus& b : level.getBusBreakerView().getBuses()) visit(b); } else { for (Bus& b : level.getBusView().getBuses()) visit(b); }
            MC_CHECK(run, found == groups.size(), "number of buses of " << v.first);
        }
        if (!v.second.nb) continue;
        // node traversals
        std::set<long> ns;
        for (auto& x : w.m.sws) if (x.second.vl == v.first) { ns.insert(x.second.n1); ns.insert(x.second.n2); }
        for (auto& t : here) { auto p = t.rfind('/'); ns.insert(w.m.eqs.at(t.substr(0, p)).node[std::stoul(t.substr(p + 1)) - 1]); }
        for (long start : ns) {
            nodes(w, v.first, start, [](const std::string&, long, long) { return true; }, run);
            nodes(w, v.first, start, [&](const std::string& id, long, long) { return id == "-" || !s.sws.at(id).open; }, run);
            nodes(w, v.first, start, [&](const std::string& id, long, long) { return id != "-"; }, run);
            for (long n : ns) nodes(w, v.first, start, [n](const std::string&, long, long o) { return o != n; }, run);
        }
        // nodes of each bus, and a terminal equivalent to a node
        std::map<std::string, std::set<unsigned long>> expected;
        auto groups = topo::groups(w.m, s, v.first, 2);
        std::map<long, std::string> owner;
        for (auto& t : here) { auto p = t.rfind('/'); owner[w.m.eqs.at(t.substr(0, p)).node[std::stoul(t.substr(p + 1)) - 1]] = t; }
        for (auto& g : groups) {
            std::string id = v.first + "_" + std::to_string(*g.nodes.begin());
            for (long n : g.nodes) expected[id].insert(static_cast<unsigned long>(n));
        }
        auto actual = Networks::getNodesByBus(level);
        MC_CHECK(run, actual == expected, "nodes by bus of " << v.first);
        for (long n : ns) {
            auto t = Networks::getEquivalentTerminal(level, static_cast<unsigned long>(n));
            // terminals met first when walking through closed switches from n
            std::set<std::string> first;
            std::set<long> seen{n};
            std::vector<long> todo{n};
            while (!todo.empty()) {
                long x = todo.back();
                todo.pop_back();
                auto go = [&](long o) { if (!seen.insert(o).second) return; if (owner.count(o)) first.insert(owner[o]); else todo.push_back(o); };
                for (auto& q : w.m.sws) if (q.second.vl == v.first && !s.sws.at(q.first).open) { if (q.second.n1 == x) go(q.second.n2); else if (q.second.n2 == x) go(q.second.n1); }
                for (auto& c : v.second.ics) { if (c.first == x) go(c.second); else if (c.second == x) go(c.first); }
            }
            MC_CHECK(run, static_cast<bool>(t) == !first.empty(), "equivalent terminal of the node " << n << " of " << v.first);
            if (t) MC_CHECK(run, first.count(net::term(t)), "equivalent terminal of the node " << n << ": " << net::term(t));
        }
    }
}

struct World27 : World {
    void check(mc::Run& run) override {
        std::string working = m.working;
        std::vector<std::string> others;
        checkWorking(*this, run);
        for (auto& v : m.variants) if (v.first != working) others.push_back(v.first);
        for (auto& v : others) { select(v); checkWorking(*this, run); }
        if (!others.empty()) select(working);
    }
    void query(mc::Run& run) override { checkWorking(*this, run); }
};

// N: node/breaker; B: bus/breaker; C: bus/breaker. N and B linked twice, a line inside N, one inside B, a three windings transformer
void base(World& w) {
    w.substation("S");
    w.vl("N", "S", true);
    w.vl("B", "S", false);
    w.vl("C", "S", false, 225);
    w.bus("B", "B1");
    w.bus("B", "B2");
    w.bus("B", "B3");
    w.bus("C", "C1");
    w.bus("C", "C2");
    w.sw("B", "S12", "B1", "B2", false);
    w.sw("B", "S23", "B2", "B3", false);
    w.sw("C", "SC", "C1", "C2", true);
    w.sw("N", "W01", 'B', 0, 1, false, false);
    w.sw("N", "W02", 'D', 0, 2, false, true);
    w.sw("N", "W24", 'S', 2, 4, true, false);
    w.sw("N", "W13", 'B', 1, 3, false, false);
    w.ic("N", 3, 5);
    w.ic("N", 2, 6);
    w.eq('H', "BBS", "N", 0);
    w.eq('L', "LN", "N", 3);
    w.eq('G', "GB", "B", -1, "B1");
    w.eq('D', "DC", "C", -1, "C2");
}

void busy(World& w) {
    base(w);
    w.branch('N', "L1", {"N", "B"}, {"4", "B1"});
    w.branch('N', "L2", {"B", "N"}, {"B3", "5"});
    w.branch('N', "LB", {"B", "B"}, {"B1", "-B3"});
    w.branch('3', "T3", {"N", "B", "C"}, {"6", "B3", "C1"});
}

// every switch state x starting terminal; inside, every subset of refused terminals x three switch policies
mc::Space masks(bool thorough) {
    mc::Space s;
    unsigned nsw = 7;
    s.name = "every starting terminal, set of refused terminals and of closed switches";
    s.size = (thorough ? (1u << nsw) : (1u << 5)) * 13ull;
    s.describe = [](uint64_t i) { return "switches " + mc::str(i / 13) + " terminal " + mc::str(i % 13); };
    s.run = [thorough](uint64_t i, mc::Run& run) {
        World27 w;
        busy(w);
        std::vector<std::string> sws, terms;
        for (auto& x : w.m.sws) sws.push_back(x.first);
        for (auto& q : w.m.eqs) for (unsigned k = 1; k <= q.second.vl.size(); ++k) terms.push_back(topo::key(q.first, k));
        MC_CHECK(run, terms.size() == 13 && sws.size() == 7, "the network has " << terms.size() << " terminals and " << sws.size() << " switches");
        uint64_t states = i / 13;
        for (unsigned k = 0; k < sws.size(); ++k) w.setOpen(sws[k], (states >> k) & 1);
        const std::string& start = terms[i % 13];
        unsigned step = 1;
        for (unsigned mask = 0; mask < (1u << 13); mask += step) {
            if (mask >> (i % 13) & 1 && mask != (1u << (i % 13))) continue;   // a refused start is the end
            Decisions d;
            for (unsigned k = 0; k < 13; ++k) if (mask >> k & 1) d.refused.insert(terms[k]);
            d.crossSwitch = [&w](const std::string& id) { return !w.st().sws.at(id).open; };
            compare(w, start, d, run, "traversal through closed switches");
            if (mask % 16 == 0 || thorough) {
                d.connectedOnly = true;
                compare(w, start, d, run, "traversal of what is connected");
            }
        }
        run.trace();
        run.distinct(mc::str(i));
    };
    return s;
}

// every set of links between 5 nodes and every kind of link; node traversals from everywhere
mc::Space graphs(bool thorough) {
    // links 0-1 0-2 1-2 1-3 2-3 3-4: none, closed breaker, open breaker, internal connection, two breakers
    std::vector<unsigned> dims(thorough ? 7 : 6, 5);
    mc::Space s;
    s.name = "every small switch graph";
    s.size = mc::product(dims) * 4;
    s.describe = [dims](uint64_t i) { std::string r = mc::str(i % 4) + ": "; for (unsigned x : mc::decode(i / 4, dims)) r += mc::str(x) + " "; return r; };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i / 4, dims);
        World27 w;
        w.substation("S");
        w.vl("V", "S", true);
        const int L[7][2] = {{0, 1}, {0, 2}, {1, 2}, {1, 3}, {2, 3}, {3, 4}, {4, 0}};
        for (unsigned k = 0; k < d.size(); ++k) {
            std::string id = "W" + mc::str(k);
            if (d[k] == 1 || d[k] == 2 || d[k] == 4) w.sw("V", id, 'B', L[k][0], L[k][1], d[k] == 2, false);
            if (d[k] == 4) w.sw("V", id + "x", 'D', L[k][1], L[k][0], true, false);
            if (d[k] == 3) w.ic("V", L[k][1], L[k][0]);
        }
        // where the equipment is
        const char* at[4][5] = {{"H", "", "L", "", "G"}, {"", "L", "", "", "G"}, {"D", "", "", "H", ""}, {"", "", "D", "", "L"}};
        for (int k = 0; k < 5; ++k) if (at[i % 4][k][0]) w.eq(at[i % 4][k][0], "E" + mc::str(k), "V", k);
        w.check(run);
        run.trace();
        run.distinct(mc::str(i));
        run.state(w.key());
    };
    return s;
}

#define OP(name, expr) ops.push_back({name, [](World& w, mc::Run& run) -> bool { (void)run; return expr; }})

std::vector<Op> historyOps() {
    std::vector<Op> ops;
    OP("toggle(S12)", w.toggle("S12"));
    OP("toggle(S23)", w.toggle("S23"));
    OP("toggle(SC)", w.toggle("SC"));
    OP("toggle(W01)", w.toggle("W01"));
    OP("toggle(W24)", w.toggle("W24"));
    OP("disconnect(LB,1)", w.disconnect("LB", 1, run));
    OP("connect(LB,2)", w.connect("LB", 2, run));
    OP("moveTo(LB,2,B2)", w.moveTo("LB", 2, "B2"));
    OP("moveTo(L1,2,B3)", w.moveTo("L1", 2, "B3"));
    OP("remove(L1)", w.remove("L1"));
    OP("remove(GB)", w.remove("GB"));
    OP("remove(T3)", w.remove("T3"));
    OP("addLine(L3)", w.branch('N', "L3", {"C", "N"}, {"C2", "7"}));
    OP("addLine(L4)", w.branch('N', "L4", {"N", "N"}, {"9", "1"}));
    OP("addSwitch(W79)", w.sw("N", "W79", 'B', 7, 9, false, false));
    OP("addSwitch(W70)", w.sw("N", "W70", 'D', 7, 0, false, false));
    OP("addSwitch(S13)", w.sw("B", "S13", "B1", "B3", false));
    OP("removeSwitch(S12)", w.removeSw("S12"));
    OP("removeSwitch(W02)", w.removeSw("W02"));
    OP("removeConnection(2,6)", w.removeIc("N", 2, 6, run));
    OP("addConnection(4,1)", w.ic("N", 4, 1));
    OP("clone(Initial,v1)", w.clone(INIT, "v1", true, run));
    OP("select(v1)", w.select("v1"));
    OP("select(Initial)", w.select(INIT));
    return ops;
}

const std::vector<Op> HISTORY = historyOps();

mc::Space histories(const std::string& name, unsigned depth, mc::Queries q) {
    return mc::sequences(name, static_cast<unsigned>(HISTORY.size()), depth, q, [] {
        std::unique_ptr<World27> w(new World27());
        busy(*w);
        w->ops = &HISTORY;
        return std::unique_ptr<mc::System>(std::move(w));
    }, [](unsigned i) { return HISTORY[i].first; });
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C27";
    c.level = "model_checking";
    c.assumptions = {"decisions that depend on the terminal, the switch or the link only", "one network of three voltage levels of both kinds with 13 terminals, and switch graphs of 5 nodes"};
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        s.push_back(masks(thorough));
        s.push_back(graphs(thorough));
        s.push_back(histories("histories", thorough ? 3 : 2, mc::Queries::BOTH));
    });
}
