// C13: powsybl::math::UndirectedGraph against a reference multigraph.
#include <algorithm>
#include <functional>
#include <map>
#include <set>

#include <powsybl/PowsyblException.hpp>
#include <powsybl/math/UndirectedGraph.hpp>

#include "mc.hpp"

using powsybl::math::TraverseResult;
using powsybl::math::UndirectedGraph;

namespace {

struct VObj { unsigned id; };
struct EObj { unsigned id; };
VObj g_v[8] = {{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}};
EObj g_e[16] = {{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}, {8}, {9}, {10}, {11}, {12}, {13}, {14}, {15}};
using Graph = UndirectedGraph<VObj, EObj>;

struct MEdge { unsigned v1, v2; int obj; };
struct Model {
    std::map<unsigned, int> vertices;   // object or -1
    std::map<unsigned, MEdge> edges;
};

const unsigned NV = 4;
const unsigned NE = 4;

struct Op { int kind; unsigned a, b; int obj; };
enum { ADD_V, ADD_VP, ADD_E, REM_E, REM_V, REM_ALL_E, REM_ALL_V, REM_ISO, SET_OBJ };

std::vector<Op> makeOps() {
    std::vector<Op> r;
    r.push_back({ADD_V, 0, 0, -1});
    for (unsigned v : {0U, 1U, 3U}) r.push_back({ADD_VP, v, 0, -1});
    r.push_back({ADD_E, 0, 1, 1});
    r.push_back({ADD_E, 1, 0, -1});
    r.push_back({ADD_E, 1, 2, 2});
    r.push_back({ADD_E, 3, 2, 1});
    r.push_back({ADD_E, 1, 1, 3});
    for (unsigned e = 0; e < 3; ++e) r.push_back({REM_E, e, 0, -1});
    for (unsigned v = 0; v < 4; ++v) r.push_back({REM_V, v, 0, -1});
    r.push_back({REM_ALL_E, 0, 0, -1});
    r.push_back({REM_ALL_V, 0, 0, -1});
    r.push_back({REM_ISO, 0, 0, -1});
    r.push_back({SET_OBJ, 0, 0, 5});
    r.push_back({SET_OBJ, 2, 0, 6});
    r.push_back({SET_OBJ, 2, 0, -1});
    return r;
}
const std::vector<Op> OPS = makeOps();

std::string opName(unsigned i) {
    const Op& o = OPS[i];
    static const char* names[] = {"addVertex", "addVertexIfNotPresent", "addEdge", "removeEdge", "removeVertex", "removeAllEdges", "removeAllVertices", "removeIsolatedVertices", "setVertexObject"};
    std::string s = names[o.kind];
    if (o.kind == ADD_E) return s + "(" + mc::str(o.a) + "," + mc::str(o.b) + "," + mc::str(o.obj) + ")";
    if (o.kind == SET_OBJ) return s + "(" + mc::str(o.a) + "," + mc::str(o.obj) + ")";
    if (o.kind == ADD_V || o.kind >= REM_ALL_E) return s;
    return s + "(" + mc::str(o.a) + ")";
}

stdcxx::Reference<EObj> eref(int o) { return o < 0 ? stdcxx::Reference<EObj>() : stdcxx::Reference<EObj>(g_e[o]); }
stdcxx::Reference<VObj> vref(int o) { return o < 0 ? stdcxx::Reference<VObj>() : stdcxx::Reference<VObj>(g_v[o]); }
template <typename R> int objId(const R& r) { return r ? static_cast<int>(r.get().id) : -1; }

// the part of the graph that is visible: model of reachability under decisions
struct Sys : mc::System {
    Graph graph;
    Model m;
    std::vector<int> init;
    explicit Sys(unsigned start) {
        auto vp = [&](unsigned v) { graph.addVertexIfNotPresent(v); m.vertices.insert({v, -1}); };
        auto ae = [&](unsigned a, unsigned b, int o) { unsigned e = graph.addEdge(a, b, eref(o)); m.edges[e] = {a, b, o}; };
        if (start == 1) { for (unsigned v = 0; v < 3; ++v) vp(v); ae(0, 1, 1); ae(1, 2, 2); ae(0, 2, 3); }
        if (start == 2) { for (unsigned v = 0; v < 4; ++v) vp(v); ae(0, 1, 1); ae(1, 0, 2); ae(1, 3, 3); graph.removeEdge(0); m.edges.erase(0); graph.removeVertex(2); m.vertices.erase(2); }
    }
    unsigned nextVertex() const { unsigned v = 0; while (m.vertices.count(v)) ++v; return v; }
    bool apply(unsigned i, mc::Run& run) override {
        const Op& o = OPS[i];
        bool valid = true;
        for (auto v : {o.a, o.b}) if (o.kind == ADD_E && !m.vertices.count(v)) valid = false;
        if (o.kind == REM_E) valid = m.edges.count(o.a) != 0;
        if (o.kind == REM_V) {
            valid = m.vertices.count(o.a) != 0;
            for (auto& e : m.edges) if (e.second.v1 == o.a || e.second.v2 == o.a) valid = false;
        }
        if (o.kind == REM_ALL_V) valid = m.edges.empty();
        if (o.kind == SET_OBJ) valid = m.vertices.count(o.a) != 0;
        try {
            switch (o.kind) {
                case ADD_V: {
                    unsigned long v = graph.addVertex();
                    MC_CHECK(run, m.vertices.count(v) == 0, "addVertex returned the existing vertex " << v);
                    MC_CHECK(run, v <= m.vertices.size() + 8, "addVertex returned " << v);
                    m.vertices[v] = -1;
                    break;
                }
                case ADD_VP: graph.addVertexIfNotPresent(o.a); m.vertices.insert({o.a, -1}); break;
                case ADD_E: {
                    unsigned long e = graph.addEdge(o.a, o.b, eref(o.obj));
                    MC_CHECK(run, valid, "accepted with a missing vertex");
                    MC_CHECK(run, m.edges.count(e) == 0, "addEdge returned the existing edge " << e);
                    m.edges[e] = {o.a, o.b, o.obj};
                    break;
                }
                case REM_E: {
                    int ob = objId(graph.removeEdge(o.a));
                    MC_CHECK(run, valid, "accepted but there is no such edge");
                    MC_CHECK(run, ob == m.edges[o.a].obj, "removeEdge returned object " << ob);
                    m.edges.erase(o.a);
                    break;
                }
                case REM_V: {
                    int ob = objId(graph.removeVertex(o.a));
                    MC_CHECK(run, valid, "accepted but the vertex is missing or has edges");
                    MC_CHECK(run, ob == m.vertices[o.a], "removeVertex returned object " << ob);
                    m.vertices.erase(o.a);
                    break;
                }
                case REM_ALL_E: graph.removeAllEdges(); m.edges.clear(); break;
                case REM_ALL_V:
                    graph.removeAllVertices();
                    MC_CHECK(run, valid, "accepted although the graph has edges");
                    m.vertices.clear();
                    break;
                case REM_ISO: {
                    graph.removeIsolatedVertices();
                    std::set<unsigned> used;
                    for (auto& e : m.edges) { used.insert(e.second.v1); used.insert(e.second.v2); }
                    for (auto it = m.vertices.begin(); it != m.vertices.end();) {
                        if (!used.count(it->first) && it->second < 0) it = m.vertices.erase(it); else ++it;
                    }
                    break;
                }
                case SET_OBJ:
                    graph.setVertexObject(o.a, vref(o.obj));
                    MC_CHECK(run, valid, "accepted but there is no such vertex");
                    m.vertices[o.a] = o.obj;
                    break;
            }
        } catch (const powsybl::PowsyblException& e) {
            MC_CHECK(run, !valid, "refused: " << e.what());
        }
        return true;
    }
    void check(mc::Run& run) override {
        const Graph& cg = graph;
        MC_CHECK(run, cg.getVertexCount() == m.vertices.size(), "getVertexCount=" << cg.getVertexCount() << " expected " << m.vertices.size());
        MC_CHECK(run, cg.getEdgeCount() == m.edges.size(), "getEdgeCount=" << cg.getEdgeCount() << " expected " << m.edges.size());
        std::vector<unsigned> vs, mvs, es, mes;
        for (const auto& v : cg.getVertices()) vs.push_back(v);
        for (auto& v : m.vertices) mvs.push_back(v.first);
        MC_CHECK(run, vs == mvs, "getVertices differs");
        for (const auto& e : cg.getEdges()) es.push_back(e);
        for (auto& e : m.edges) mes.push_back(e.first);
        MC_CHECK(run, es == mes, "getEdges differs");
        unsigned mx = m.vertices.empty() ? 0 : m.vertices.rbegin()->first + 1;
        MC_CHECK(run, cg.getMaxVertex() == mx, "getMaxVertex=" << cg.getMaxVertex() << " with vertices below " << mx);
        MC_CHECK(run, cg.getVertexCapacity() >= mx, "getVertexCapacity below the greatest vertex");
        std::vector<int> vo, mvo, eo, meo;
        for (const auto& o : cg.getVertexObjects()) vo.push_back(objId(o));
        for (auto& v : m.vertices) mvo.push_back(v.second);
        MC_CHECK(run, vo == mvo, "getVertexObjects differs");
        vo.clear();
        for (const auto& o : graph.getVertexObjects()) vo.push_back(objId(o));
        MC_CHECK(run, vo == mvo, "getVertexObjects differs");
        for (const auto& o : cg.getEdgeObjects()) eo.push_back(objId(o));
        for (auto& e : m.edges) meo.push_back(e.second.obj);
        MC_CHECK(run, eo == meo, "getEdgeObjects differs");
        eo.clear();
        for (const auto& o : graph.getEdgeObjects()) eo.push_back(objId(o));
        MC_CHECK(run, eo == meo, "getEdgeObjects differs");
        unsigned missing = nextVertex();   // refused accesses are slow: two missing elements are enough
        unsigned missingEdge = 0;
        while (m.edges.count(missingEdge)) ++missingEdge;
        for (unsigned v = 0; v < NV + 2; ++v) {
            MC_CHECK(run, cg.vertexExists(v) == (m.vertices.count(v) != 0), "vertexExists(" << v << ")");
            if (!m.vertices.count(v) && v != missing && v != NV + 1) continue;
            std::string w;
            int ob = -2;
            bool ok = mc::accepted([&]() { ob = objId(cg.getVertexObject(v)); }, &w);
            MC_CHECK(run, ok == (m.vertices.count(v) != 0) && (!ok || ob == m.vertices[v]), "getVertexObject(" << v << ") " << ok << " " << ob);
        }
        for (unsigned e = 0; e < NE + 2; ++e) {
            unsigned long a = 99, b = 99;
            int ob = -2;
            bool ex = m.edges.count(e) != 0;
            if (!ex && e != missingEdge) continue;
            bool ok1 = mc::accepted([&]() { a = cg.getVertex1(e); });
            bool ok2 = mc::accepted([&]() { b = cg.getVertex2(e); });
            bool ok3 = mc::accepted([&]() { ob = objId(cg.getEdgeObject(e)); });
            MC_CHECK(run, ok1 == ex && ok2 == ex && ok3 == ex, "edge " << e << " accessors accept=" << ok1 << ok2 << ok3 << " exists=" << ex);
            if (ex) MC_CHECK(run, a == m.edges[e].v1 && b == m.edges[e].v2 && ob == m.edges[e].obj, "edge " << e << " is " << a << "-" << b << " object " << ob);
        }
        // incidences: edges between two vertices
        for (unsigned a = 0; a < NV + 1; ++a) {
            for (unsigned b = 0; b < NV + 1; ++b) {
                bool ex = m.vertices.count(a) && m.vertices.count(b);
                if (!ex && (a != missing || b > missing)) continue;
                std::vector<int> got, exp;
                bool ok = mc::accepted([&]() { for (const auto& o : cg.getEdgeObjects(a, b)) got.push_back(objId(o)); });
                MC_CHECK(run, ok == ex, "getEdgeObjects(" << a << "," << b << ") accepted=" << ok);
                for (auto& e : m.edges) {
                    if ((e.second.v1 == a && e.second.v2 == b) || (e.second.v1 == b && e.second.v2 == a)) exp.push_back(e.second.obj);
                }
                std::sort(got.begin(), got.end());
                std::sort(exp.begin(), exp.end());
                MC_CHECK(run, !ok || got == exp, "getEdgeObjects(" << a << "," << b << ") returns " << got.size() << " objects, expected " << exp.size());
            }
        }
        // unrestricted traversal: connected part
        for (unsigned v = 0; v < NV + 1; ++v) {
            if (!m.vertices.count(v) && v != missing) continue;
            std::set<unsigned> reached{v};
            std::multiset<unsigned> asked;
            bool ok = mc::accepted([&]() {
                cg.traverse(v, [&](unsigned long v1, unsigned long e, unsigned long v2) {
                    if (!reached.count(v1) || reached.count(v2)) run.fail("traverser called with wrong ends");
                    asked.insert(e);
                    reached.insert(v2);
                    return TraverseResult::CONTINUE;
                });
            });
            MC_CHECK(run, ok == (m.vertices.count(v) != 0), "traverse(" << v << ") accepted=" << ok);
            if (!ok) continue;
            std::set<unsigned> exp{v};
            for (bool ch = true; ch;) {
                ch = false;
                for (auto& e : m.edges) {
                    if (exp.count(e.second.v1) != exp.count(e.second.v2)) { exp.insert(e.second.v1); exp.insert(e.second.v2); ch = true; }
                }
            }
            MC_CHECK(run, reached == exp, "traverse(" << v << ") reached " << reached.size() << " vertices, expected " << exp.size());
        }
    }
    std::string key() override {
        std::string r;
        for (auto& v : m.vertices) r += mc::str(v.first) + ":" + mc::str(v.second) + " ";
        r += "|";
        for (auto& e : m.edges) r += mc::str(e.first) + ":" + mc::str(e.second.v1) + "-" + mc::str(e.second.v2) + ":" + mc::str(e.second.obj) + " ";
        return r;
    }
};

// all multigraphs with nv vertices and ne edges (ordered list of ordered pairs), traversal decisions and path rules
void graphSpaces(bool thorough, std::vector<mc::Space>& spaces) {
    for (unsigned nv = 1; nv <= 4; ++nv) {
        unsigned maxE = nv <= 2 ? 4 : nv == 3 ? (thorough ? 5 : 4) : (thorough ? 5 : 4);
        for (unsigned ne = 0; ne <= maxE; ++ne) {
            // unordered pairs, plus orientation chosen by edge parity: pairs list
            std::vector<std::pair<unsigned, unsigned>> pairs;
            for (unsigned a = 0; a < nv; ++a) for (unsigned b = 0; b < nv; ++b) if (a <= b || ne <= 3) pairs.push_back({a, b});
            mc::Space sp;
            sp.name = "graphs with " + mc::str(nv) + " vertices and " + mc::str(ne) + " edges";
            sp.size = 1;
            for (unsigned i = 0; i < ne; ++i) sp.size *= pairs.size();
            auto edgesOf = [=](uint64_t idx) {
                std::vector<std::pair<unsigned, unsigned>> r;
                for (unsigned i = 0; i < ne; ++i) {
                    auto p = pairs[idx % pairs.size()];
                    idx /= pairs.size();
                    if (ne > 3 && i % 2 == 1) std::swap(p.first, p.second);
                    r.push_back(p);
                }
                return r;
            };
            sp.describe = [=](uint64_t idx) {
                std::string s;
                for (auto& p : edgesOf(idx)) s += mc::str(p.first) + "-" + mc::str(p.second) + " ";
                return s;
            };
            sp.run = [=](uint64_t idx, mc::Run& run) {
                auto ed = edgesOf(idx);
                Graph graph;
                for (unsigned v = 0; v < nv; ++v) { graph.addVertex(); graph.setVertexObject(v, vref(static_cast<int>(v))); }
                for (unsigned e = 0; e < ne; ++e) graph.addEdge(ed[e].first, ed[e].second, eref(static_cast<int>(e)));
                // traversal: the decision may depend on the edge and its direction
                unsigned dirs = ne <= 3 ? 2 * ne : ne;
                for (unsigned mask = 0; mask < (1U << dirs); ++mask) {
                    auto cont = [&](unsigned from, unsigned e) {
                        unsigned bit = dirs == ne ? e : (2 * e + (from == ed[e].first ? 0 : 1));
                        return ((mask >> bit) & 1) != 0;
                    };
                    for (unsigned pre = 0; pre < (1U << nv); ++pre) {
                        for (unsigned v = 0; v < nv; ++v) {
                            if ((pre >> v) & 1) continue;
                            std::set<unsigned> exp{v};
                            auto blocked = [&](unsigned w) { return ((pre >> w) & 1) != 0; };
                            for (bool ch = true; ch;) {
                                ch = false;
                                for (unsigned e = 0; e < ne; ++e) {
                                    for (int s = 0; s < 2; ++s) {
                                        unsigned a = s ? ed[e].second : ed[e].first, b = s ? ed[e].first : ed[e].second;
                                        if (exp.count(a) && !exp.count(b) && !blocked(b) && cont(a, e)) { exp.insert(b); ch = true; }
                                    }
                                }
                            }
                            std::set<unsigned> reached{v};
                            std::vector<unsigned> asked(ne, 0);
                            auto trav = [&](unsigned long v1, unsigned long e, unsigned long v2) {
                                MC_CHECK(run, e < ne && ((ed[e].first == v1 && ed[e].second == v2) || (ed[e].first == v2 && ed[e].second == v1)), "traverser called with " << v1 << "," << e << "," << v2);
                                MC_CHECK(run, reached.count(v1) && !reached.count(v2) && !blocked(v2), "traverser asked to go from " << v1 << " to " << v2);
                                MC_CHECK(run, ++asked[e] == 1, "edge " << e << " visited twice");
                                if (!cont(v1, e)) return TraverseResult::TERMINATE;
                                reached.insert(v2);
                                return TraverseResult::CONTINUE;
                            };
                            if (pre == 0) {
                                graph.traverse(v, trav);
                            } else {
                                std::vector<bool> enc(nv, false);
                                for (unsigned w = 0; w < nv; ++w) enc[w] = blocked(w);
                                graph.traverse(v, trav, enc);
                                for (unsigned w = 0; w < nv; ++w) MC_CHECK(run, enc[w] == (blocked(w) || exp.count(w) != 0), "encountered[" << w << "]=" << enc[w] << " from " << v << " mask " << mask);
                            }
                            MC_CHECK(run, reached == exp, "from vertex " << v << " with decisions " << mask << ": reached " << reached.size() << " vertices, expected " << exp.size());
                            // every edge leaving the reached part was asked
                            for (unsigned e = 0; e < ne; ++e) {
                                unsigned a = ed[e].first, b = ed[e].second;
                                if (exp.count(a) != exp.count(b)) {
                                    unsigned out = exp.count(a) ? b : a;
                                    if (!blocked(out)) MC_CHECK(run, asked[e] == 1, "edge " << e << " not visited from " << v);
                                }
                            }
                            run.count();
                        }
                    }
                }
                // path enumeration
                for (unsigned complete = 0; complete < (1U << nv); ++complete) {
                    for (unsigned cancel = 0; cancel < (1U << ne); ++cancel) {
                        for (unsigned v = 0; v < nv; ++v) {
                            std::vector<std::vector<unsigned long>> exp, got;
                            std::vector<unsigned long> cur;
                            std::set<unsigned> on{v};
                            std::function<void(unsigned)> rec = [&](unsigned u) {
                                for (unsigned e = 0; e < ne; ++e) {
                                    if ((cancel >> e) & 1) continue;
                                    unsigned w;
                                    if (ed[e].first == u) w = ed[e].second; else if (ed[e].second == u) w = ed[e].first; else continue;
                                    if (on.count(w)) continue;
                                    cur.push_back(e);
                                    if ((complete >> w) & 1) exp.push_back(cur);
                                    else { on.insert(w); rec(w); on.erase(w); }
                                    cur.pop_back();
                                }
                            };
                            rec(v);
                            got = graph.findAllPaths(v, [&](const stdcxx::Reference<VObj>& o) { return ((complete >> o.get().id) & 1) != 0; },
                                                     [&](const stdcxx::Reference<EObj>& o) { return ((cancel >> o.get().id) & 1) != 0; });
                            for (size_t i = 1; i < got.size(); ++i) MC_CHECK(run, got[i - 1].size() <= got[i].size(), "paths from " << v << " are not sorted by length");
                            std::sort(exp.begin(), exp.end());
                            std::sort(got.begin(), got.end());
                            MC_CHECK(run, exp == got, "findAllPaths from " << v << " targets " << complete << " cancelled " << cancel << ": " << got.size() << " paths, expected " << exp.size());
                            run.count();
                        }
                    }
                }
                run.trace();
                run.transition();
                run.state(sp.name + sp.describe(idx));
            };
            spaces.push_back(sp);
        }
    }
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C13";
    c.level = "model_checking";
    c.rule = "every sequence of graph operations up to the depth from each start graph, with and without intermediate queries; every multigraph of the stated sizes with every traversal decision, every start and every path rule";
    c.assumptions = {"up to 4 vertices and 5 edges in the enumerated graphs; traversal decisions are a function of edge and direction"};
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& spaces) {
        for (unsigned st = 0; st < 3; ++st) {
            spaces.push_back(mc::sequences("history from start graph " + mc::str(st), OPS.size(), thorough ? 5 : 4, mc::Queries::BOTH,
                                           [st]() { return std::unique_ptr<mc::System>(new Sys(st)); }, opName));
        }
        graphSpaces(thorough, spaces);
    });
}
