// C07: connecting and disconnecting terminals: what is reported is what was done, in the working variant only.
#include <algorithm>

#include "topo.hpp"

using namespace powsybl::iidm;  // NOLINT
using topo::World;
using Op = World::Op;

namespace {

#define OP(name, expr) ops.push_back({name, [](World& w, mc::Run& run) -> bool { (void)run; return expr; }})

const char* INIT = "InitialVariant";

// nodes reachable from a node by edges accepted by a rule, stopping at the busbar sections; whether one is reached
struct Edge { long a, b; std::string sw; char kind; bool open; };   // kind 'I' for internal connections

std::vector<Edge> edges(const topo::Model& m, const topo::VState& s, const std::string& vl) {
    std::vector<Edge> r;
    for (auto& i : m.vls.at(vl).ics) r.push_back({i.first, i.second, "", 'I', false});
    for (auto& w : m.sws) if (w.second.vl == vl) r.push_back({w.second.n1, w.second.n2, w.first, w.second.kind, s.sws.at(w.first).open});
    return r;
}

bool reachesBusbar(const topo::Model& m, const std::string& vl, const std::vector<Edge>& es, long from, const std::function<bool(const Edge&)>& rule) {
    std::set<long> bbs;
    for (auto& e : m.eqs) if (e.second.type == 'H' && e.second.vl[0] == vl) bbs.insert(e.second.node[0]);
    std::set<long> seen = {from};
    std::vector<long> todo = {from};
    while (!todo.empty()) {
        long x = todo.back();
        todo.pop_back();
        if (x != from && bbs.count(x)) return true;
        for (auto& e : es) {
            if (!rule(e)) continue;
            long y = e.a == x ? e.b : e.b == x ? e.a : -1;
            if (y >= 0 && seen.insert(y).second) todo.push_back(y);
        }
    }
    return false;
}

bool inBus(const topo::Model& m, const topo::VState& s, const std::string& vl, const std::string& t) {
    for (auto& g : topo::groups(m, s, vl, 2)) if (g.terms.count(t)) return true;
    return false;
}

std::map<std::string, bool> switches(World& w) {
    std::map<std::string, bool> r;
    for (const Switch& s : w.n->getSwitches()) r[s.getId()] = s.isOpen();
    return r;
}

// one request on a terminal of a node/breaker voltage level, judged by what it reports and by what it did
bool request(World& w, mc::Run& run, const std::string& eq, unsigned k, bool connect) {
    if (!w.m.eqs.count(eq)) return false;
    const topo::MEq& e = w.m.eqs.at(eq);
    const std::string vl = e.vl[k - 1];
    if (!w.m.vls.at(vl).nb) return connect ? w.connect(eq, k, run) : w.disconnect(eq, k, run);
    const long node = e.node[k - 1];
    Terminal& t = w.terminal(eq, k);
    const std::string tk = topo::key(eq, k);
    const bool isBbs = e.type == 'H';
    auto before = switches(w);
    auto es = edges(w.m, w.st(), vl);
    const bool was = inBus(w.m, w.st(), vl, tk);
    const bool reported = connect ? t.connect() : t.disconnect();
    auto after = switches(w);
    MC_CHECK(run, before.size() == after.size(), "switches appeared or disappeared");
    std::vector<std::string> changed;
    for (auto& s : after) if (before.at(s.first) != s.second) changed.push_back(s.first);
    const std::string what = std::string(connect ? "connect of " : "disconnect of ") + tk + (reported ? " (done)" : " (refused)");
    for (auto& c : changed) {
        MC_CHECK(run, w.m.sws.at(c).kind == 'B', what << ": " << c << " is not a breaker and was " << (after[c] ? "opened" : "closed"));
        MC_CHECK(run, after[c] == !connect, what << ": " << c << " was " << (after[c] ? "opened" : "closed"));
        MC_CHECK(run, w.m.sws.at(c).vl == vl, what << ": " << c << " is in another voltage level");
        w.st().sws.at(c).open = after[c];
    }
    if (!reported) MC_CHECK(run, changed.empty(), what << ": " << changed[0] << " was changed");
    auto es2 = edges(w.m, w.st(), vl);
    auto closed = [](const Edge& x) { return !x.open; };
    if (connect) {
        bool possible = reachesBusbar(w.m, vl, es, node, [](const Edge& x) { return x.kind == 'B' || !x.open; });
        bool already = reachesBusbar(w.m, vl, es, node, closed);
        MC_CHECK(run, reported == (!was && possible && !already), what << ": was " << (was ? "" : "not ") << "connected, " << (possible ? "a" : "no") << " path");
        if (reported) {
            MC_CHECK(run, reachesBusbar(w.m, vl, es2, node, closed), what << ": no busbar section is reached");
            MC_CHECK(run, isBbs || t.isConnected(), what << ": not connected");
            // no more breakers than the longest useful path
            MC_CHECK(run, !changed.empty(), what << ": nothing was closed");
        }
    } else {
        bool path = reachesBusbar(w.m, vl, es, node, [](const Edge& x) { return x.kind != 'D' || !x.open; });
        bool solid = reachesBusbar(w.m, vl, es, node, [](const Edge& x) { return x.kind != 'B' && !x.open; });
        bool maybe = reachesBusbar(w.m, vl, es, node, [](const Edge& x) { return x.kind != 'B' && (x.kind != 'D' || !x.open); });
        if (reported) {
            MC_CHECK(run, was && path && !solid, what << ": could not be done");
            MC_CHECK(run, !reachesBusbar(w.m, vl, es2, node, closed), what << ": a busbar section is still reached");
        } else {
            MC_CHECK(run, !was || !path || maybe, what << ": could be done");
        }
    }
    for (auto& q : w.m.eqs) for (unsigned j = 0; j < q.second.vl.size(); ++j) {
        if (!w.m.vls.at(q.second.vl[j]).nb) continue;
        MC_CHECK(run, w.terminal(q.first, j + 1).isConnected() == inBus(w.m, w.st(), q.second.vl[j], topo::key(q.first, j + 1)), what << ": connection state of " << q.first);
    }
    run.count();
    return true;
}

// ---- histories ---------------------------------------------------------------------------------------------------

// two busbar sections, a coupler, a load with two disconnectors (one closed), a generator behind a load break switch,
// a line without breaker, and a bus/breaker voltage level at the other end
void base(World& w) {
    w.substation("S");
    w.vl("V", "S", true);
    w.vl("W", "S", false, 225);
    w.bus("W", "C1");
    w.eq('H', "BBS1", "V", 0);
    w.eq('H', "BBS2", "V", 1);
    w.sw("V", "CPL", 'B', 0, 1, true, false);
    w.eq('L', "LD", "V", 2);
    w.sw("V", "LD_B", 'B', 2, 3, false, false);
    w.sw("V", "LD_D1", 'D', 3, 0, false, false);
    w.sw("V", "LD_D2", 'D', 3, 1, true, false);
    w.eq('G', "G", "V", 4);
    w.sw("V", "G_L", 'L', 4, 5, false, false);
    w.sw("V", "G_B", 'B', 5, 1, false, true);
    w.branch('N', "LINE", {"V", "W"}, {"6", "C1"});
    w.sw("V", "LINE_D", 'D', 6, 0, false, false);
    w.sw("V", "LINE_B", 'B', 6, 1, true, false);
    w.eq('D', "DAN", "V", 7);
    w.ic("V", 7, 8);
    w.sw("V", "DAN_B", 'B', 8, 1, false, false);
    w.eq('L', "LW", "W", -1, "C1");
}

std::vector<Op> operations() {
    std::vector<Op> ops;
    for (const char* eq : {"LD", "G", "LINE", "DAN", "BBS2", "LW"}) {
        for (bool c : {true, false}) {
            std::string id = eq;
            ops.push_back({std::string(c ? "connect(" : "disconnect(") + eq + ")", [=](World& w, mc::Run& run) { return request(w, run, id, 1, c); }});
        }
    }
    ops.push_back({"connect(LINE side 2)", [](World& w, mc::Run& run) { return request(w, run, "LINE", 2, true); }});
    ops.push_back({"disconnect(LINE side 2)", [](World& w, mc::Run& run) { return request(w, run, "LINE", 2, false); }});
    OP("toggle(CPL)", w.toggle("CPL"));
    OP("toggle(LD_D1)", w.toggle("LD_D1"));
    OP("toggle(LD_D2)", w.toggle("LD_D2"));
    OP("toggle(G_L)", w.toggle("G_L"));
    OP("toggle(LINE_D)", w.toggle("LINE_D"));
    OP("toggle(LINE_B)", w.toggle("LINE_B"));
    OP("remove(BBS2)", w.remove("BBS2"));
    OP("remove(DAN)", w.remove("DAN"));
    OP("clone(Initial,v1)", w.clone(INIT, "v1", true, run));
    OP("select(v1)", w.select("v1"));
    OP("select(Initial)", w.select(INIT));
    OP("addInternalConnection(2,3)", w.ic("V", 2, 3));
    OP("removeInternalConnections(2,3)", w.removeIc("V", 2, 3, run));
    return ops;
}

const std::vector<Op> OPS = operations();

mc::Space histories(const std::string& name, unsigned depth, mc::Queries q) {
    return mc::sequences(name, static_cast<unsigned>(OPS.size()), depth, q, [] {
        std::unique_ptr<World> w(new World());
        base(*w);
        w->ops = &OPS;
        w->checkComponents = false;
        return std::unique_ptr<mc::System>(std::move(w));
    }, [](unsigned i) { return OPS[i].first; });
}

// ---- every small switch graph ------------------------------------------------------------------------------------

// kinds of links: absent, breaker closed/open, disconnector closed/open, load break switch closed/open, internal connection
const char* LINKS[] = {"-", "B", "b", "D", "d", "L", "l", "I"};
struct Shape { const char* name; std::vector<std::pair<long, long>> links; const char* at; };
const Shape SHAPES[] = {
    // equipment at the nodes: H busbar section, L load, D dangling line, '-' nothing
    {"4 nodes, complete, one busbar section", {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {3, 1}, {2, 3}}, "H-L-"},
    {"4 nodes, complete, two busbar sections", {{0, 1}, {0, 2}, {3, 0}, {1, 2}, {1, 3}, {2, 3}}, "HHL-"},
    {"4 nodes, complete, feeders only but one busbar section", {{1, 0}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {3, 2}}, "HDLD"},
    {"ladder of 5 nodes", {{0, 3}, {3, 2}, {2, 4}, {4, 1}, {3, 4}, {0, 1}}, "HHL--"},
    {"parallel links", {{0, 1}, {0, 1}, {1, 2}, {2, 1}, {0, 2}, {2, 3}}, "H-LD"},
};

mc::Space graphs(const Shape& shape, unsigned kinds) {
    mc::Space s;
    s.name = std::string("every switch graph: ") + shape.name;
    std::vector<unsigned> dims(shape.links.size(), kinds);
    s.size = mc::product(dims);
    static const unsigned REDUCED[] = {0, 1, 2, 3, 4, 6, 5, 7};   // the first kinds are the ones explored by the quick tier
    s.describe = [=](uint64_t i) {
        std::string r;
        auto d = mc::decode(i, dims);
        for (size_t k = 0; k < d.size(); ++k) r += mc::str(shape.links[k].first) + LINKS[REDUCED[d[k]]] + mc::str(shape.links[k].second) + " ";
        return r;
    };
    s.run = [=](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        for (bool connect : {true, false}) {
            World w;
            w.substation("S");
            w.vl("V", "S", true);
            std::string eqs(shape.at);
            for (size_t k = 0; k < eqs.size(); ++k) if (eqs[k] != '-') w.eq(eqs[k], std::string(1, eqs[k]) + mc::str(k), "V", static_cast<long>(k));
            for (size_t k = 0; k < d.size(); ++k) {
                char c = LINKS[REDUCED[d[k]]][0];
                if (c == '-') continue;
                long a = shape.links[k].first, b = shape.links[k].second;
                if (c == 'I') w.ic("V", a, b);
                else w.sw("V", "S" + mc::str(k), static_cast<char>(toupper(c)), a, b, islower(c) != 0, false);
            }
            // the opposite request follows, then the same again
            request(w, run, "L2", 1, connect);
            request(w, run, "L2", 1, !connect);
            request(w, run, "L2", 1, connect);
            run.transition(3);
            run.trace();
            run.state(w.key());
        }
    };
    return s;
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C07";
    c.level = "model_checking";
    c.assumptions = {"switch graphs of 4 or 5 nodes with 6 links of any kind and state", "operation sequences up to the depth given in the space names"};
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        for (const Shape& shape : SHAPES) s.push_back(graphs(shape, thorough || shape.at == std::string("HHL--") ? 8 : 6));
        s.push_back(histories("requests, switch and variant operations, depth " + mc::str(thorough ? 4 : 3), thorough ? 4 : 3, mc::Queries::EACH));
        s.push_back(histories("the same without intermediate queries", thorough ? 4 : 3, mc::Queries::NONE));
    });
}
