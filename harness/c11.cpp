// C11: refused modifications. Requests of creation over products of bounded values, sequences of modifications against
// the validity rules of every equipment, and refused requests of every other kind: the network observed before and after.
#include <cmath>
#include <limits>
#include <map>
#include <set>

#include "net.hpp"

using namespace powsybl::iidm;  // NOLINT

namespace {

const double NaN = std::numeric_limits<double>::quiet_NaN();
const std::string INITIAL = VariantManager::getInitialVariantId();

// ------------------------------------------------------------------------------------------------ network of creations

Network base(const std::string& id = "c11") {
    Network n(id, "verif");
    n.setCaseDate(stdcxx::DateTime::parse("2020-01-02T03:04:05.000Z"));
    Substation& s1 = n.newSubstation().setId("s1").add();
    Substation& s2 = n.newSubstation().setId("s2").add();
    VoltageLevel& bb1 = s1.newVoltageLevel().setId("bb1").setNominalV(400).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    VoltageLevel& bb2 = s2.newVoltageLevel().setId("bb2").setNominalV(400).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    VoltageLevel& nb1 = s1.newVoltageLevel().setId("nb1").setNominalV(225).setTopologyKind(TopologyKind::NODE_BREAKER).add();
    bb1.getBusBreakerView().newBus().setId("b1").add();
    bb1.getBusBreakerView().newBus().setId("b2").add();
    bb2.getBusBreakerView().newBus().setId("b3").add();
    nb1.getNodeBreakerView().newBusbarSection().setId("bar").setNode(0).add();
    nb1.getNodeBreakerView().newBreaker().setId("breaker").setNode1(0).setNode2(1).setOpen(false).setRetained(true).add();
    nb1.getNodeBreakerView().newInternalConnection().setNode1(0).setNode2(2).add();
    nb1.newLoad().setId("far").setNode(1).setP0(1).setQ0(1).add();
    bb1.newLoad().setId("used").setBus("b1").setConnectableBus("b1").setP0(1).setQ0(1).add().addAlias("aka");
    bb2.newLoad().setId("other").setBus("b3").setConnectableBus("b3").setP0(1).setQ0(1).add();
    bb1.newLccConverterStation().setId("lcc1").setBus("b1").setConnectableBus("b1").setLossFactor(1).setPowerFactor(0.5).add();
    bb2.newLccConverterStation().setId("lcc2").setBus("b3").setConnectableBus("b3").setLossFactor(1).setPowerFactor(0.5).add();
    n.newLine().setId("line").setVoltageLevel1("bb1").setBus1("b1").setConnectableBus1("b1").setVoltageLevel2("bb2").setBus2("b3").setConnectableBus2("b3").setR(1).setX(1).setG1(0).setG2(0).setB1(0).setB2(0).add();
    s1.newTwoWindingsTransformer().setId("two").setVoltageLevel1("bb1").setBus1("b1").setConnectableBus1("b1").setVoltageLevel2("nb1").setNode2(6).setR(1).setX(1).setG(0).setB(0).setRatedU1(400).setRatedU2(225).add();
    n.getVariantManager().cloneVariant(INITIAL, "v");
    return n;
}

// views: also the lists of the containers and the components
std::string observe(Network& n, bool views) {
    net::DumpOptions options;
    options.views = options.components = views;
    std::string r;
    for (const std::string& v : {std::string("v"), INITIAL}) {
        n.getVariantManager().setWorkingVariant(v);
        r += "## " + v + "\n" + net::flat(net::dump(n, options));
    }
    return r;
}
net::Snapshot snapshot(Network& n) {
    net::Snapshot all;
    for (const std::string& v : {std::string("v"), INITIAL}) {
        n.getVariantManager().setWorkingVariant(v);
        for (const auto& e : net::dump(n)) all[v + " " + e.first] = e.second;
    }
    return all;
}
std::set<std::string> identifiers(const Network& n) {
    std::set<std::string> r;
    for (const Identifiable& i : n.getIdentifiables()) r.insert(i.getId());
    return r;
}

// ------------------------------------------------------------------------------------------------ creations

struct World {
    Network network = base();
    Network other = base("another");
};

template <typename A>
struct Choice {
    std::string text;                        // what is read afterwards, "" when it is not compared
    bool ok;
    double v;                                // for joint rules
    std::function<void(A&, World&)> apply;
};
template <typename A>
struct Param {
    std::string name;
    std::vector<Choice<A>> choices;          // the first one is valid
    std::function<std::string(Network&, const std::string&)> get;
};
using Values = std::map<std::string, double>;

template <typename A>
struct Creation {
    std::string name;
    std::function<A(World&, unsigned place)> make;              // place: the choice of the parameter named "place"
    std::vector<Param<A>> params;
    std::function<bool(const Values&)> together = [](const Values&) { return true; };
    std::function<void(A&)> add = [](A& a) { a.add(); };
    std::vector<std::vector<std::string>> groups;               // parameters whose full product is explored
    bool named = true;                                          // has an identifier
};

struct V { double v; bool ok; };

template <typename A, typename S, typename G>
Param<A> number(const std::string& name, const std::vector<V>& values, S set, G get, const stdcxx::optional<V>& unset, const std::string& readUnset = "") {
    Param<A> p;
    p.name = name;
    for (const auto& v : values) p.choices.push_back({mc::str(v.v), v.ok, v.v, [set, v](A& a, World&) { set(a, v.v); }});
    if (unset) p.choices.push_back({readUnset, unset->ok, unset->v, [](A&, World&) {}});
    p.get = [get](Network& n, const std::string& id) { return mc::str(static_cast<double>(get(n, id))); };
    return p;
}

const char* const NEW = "new";
struct IdChoice { const char* id; bool taken; };
const IdChoice IDS[] = {{NEW, false}, {"used", true}, {"aka", true}, {"c11", true}, {"bb1", true}, {"b2", true}, {"", false}};

template <typename A>
Param<A> idParam() {
    Param<A> p;
    p.name = "id";
    for (const auto& i : IDS) {
        const std::string id = i.id;
        p.choices.push_back({id, !id.empty(), i.taken ? 1. : 0., [id](A& a, World&) { a.setId(id); }});
    }
    return p;
}
template <typename A>
Param<A> unicity() {
    Param<A> p;
    p.name = "unicity";
    p.choices.push_back({"no", true, 0, [](A&, World&) {}});
    p.choices.push_back({"yes", true, 1, [](A& a, World&) { a.setEnsureIdUnicity(true); }});
    return p;
}
template <typename A>
Param<A> naming() {
    Param<A> p;
    p.name = "name";
    p.choices.push_back({"id", true, 0, [](A&, World&) {}});
    p.choices.push_back({"Name true", true, 1, [](A& a, World&) { a.setName("Name"); a.setFictitious(true); }});
    p.get = [](Network& n, const std::string& id) {
        const auto& o = n.getIdentifiable(id);
        return o.getOptionalName().empty() && !o.isFictitious() ? std::string("id") : o.getOptionalName() + " " + mc::str(o.isFictitious());
    };
    return p;
}

struct Place { const char* name; bool ok; const char* level; const char* bus; const char* connectable; int node; const char* read; };
const Place PLACES[] = {
    {"bus", true, "bb1", "b1", "b1", -1, "b1 1"},
    {"only the connection bus", true, "bb1", "b2", "", -1, "b2 1"},
    {"only the connectable bus", true, "bb1", "", "b1", -1, "b1 0"},
    {"nothing", false, "bb1", "", "", -1, ""},
    {"two different buses", false, "bb1", "b1", "b2", -1, ""},
    {"unknown bus", false, "bb1", "nowhere", "nowhere", -1, ""},
    {"unknown connectable bus", false, "bb1", "", "nowhere", -1, ""},
    {"bus of another level", false, "bb1", "b3", "b3", -1, ""},
    {"an identifier which is not a bus", false, "bb1", "used", "used", -1, ""},
    {"node in a bus level", false, "bb1", "", "", 4, ""},
    {"bus and node", false, "bb1", "b1", "b1", 4, ""},
    {"free node", true, "nb1", "", "", 4, "4"},
    {"node of an internal connection", true, "nb1", "", "", 2, "2"},
    {"node of a load", false, "nb1", "", "", 1, ""},
    {"node of a busbar section", false, "nb1", "", "", 0, ""},
    {"node of a transformer", false, "nb1", "", "", 6, ""},
    {"nothing in a node level", false, "nb1", "", "", -1, ""},
    {"bus in a node level", false, "nb1", "b1", "b1", -1, ""},
    {"bus and node in a node level", false, "nb1", "b1", "b1", 4, ""},
};
const unsigned N_PLACES = sizeof(PLACES) / sizeof(PLACES[0]);

std::string whereIs(const Terminal& t) {
    if (t.getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) return mc::str(t.getNodeBreakerView().getNode());
    return t.getBusBreakerView().getConnectableBus().get().getId() + " " + mc::str(t.isConnected() ? 1 : 0);
}
const Terminal& terminalOf(Network& n, const std::string& id, unsigned i = 0) {
    auto all = dynamic_cast<Connectable&>(n.getIdentifiable(id)).getTerminals();
    auto it = all.begin();
    std::advance(it, i);
    return *it;
}

template <typename A>
Param<A> place() {
    Param<A> p;
    p.name = "place";
    for (const auto& l : PLACES)
        p.choices.push_back({l.read, l.ok, 0, [l](A& a, World&) {
            if (*l.bus != 0) a.setBus(l.bus);
            if (*l.connectable != 0) a.setConnectableBus(l.connectable);
            if (l.node >= 0) a.setNode(static_cast<unsigned long>(l.node));
        }});
    p.get = [](Network& n, const std::string& id) { return whereIs(terminalOf(n, id)); };
    return p;
}

// one side of a branch (or leg); side 0 for legs
template <typename A>
Param<A> sidePlace(unsigned side, const std::string& name, bool sameSubstation, bool otherNode) {
    Param<A> p;
    p.name = name;
    const auto level = [side](A& a, const std::string& id) { if (side == 1) a.setVoltageLevel1(id); else a.setVoltageLevel2(id); };
    const auto bus = [side](A& a, const std::string& id) { if (side == 1) a.setBus1(id); else a.setBus2(id); };
    const auto connectable = [side](A& a, const std::string& id) { if (side == 1) a.setConnectableBus1(id); else a.setConnectableBus2(id); };
    const auto node = [side](A& a, unsigned long i) { if (side == 1) a.setNode1(i); else a.setNode2(i); };
    for (const auto& l : PLACES) {
        Place q = l;
        if (std::string(q.name) == "free node" && otherNode) { q.node = 5; q.read = "5"; }
        p.choices.push_back({q.read, q.ok, q.ok && q.node >= 0 ? static_cast<double>(q.node) : -1., [=](A& a, World&) {
            level(a, q.level);
            if (*q.bus != 0) bus(a, q.bus);
            if (*q.connectable != 0) connectable(a, q.connectable);
            if (q.node >= 0) node(a, static_cast<unsigned long>(q.node));
        }});
    }
    // the node of the other side
    p.choices.push_back({otherNode ? "4" : "5", true, otherNode ? 4. : 5., [=](A& a, World&) { level(a, "nb1"); node(a, otherNode ? 4 : 5); }});
    p.choices.push_back({"b3 1", !sameSubstation, -1, [=](A& a, World&) { level(a, "bb2"); bus(a, "b3"); connectable(a, "b3"); }});
    p.choices.push_back({"", false, -1, [=](A& a, World&) { bus(a, "b1"); connectable(a, "b1"); }});
    p.choices.push_back({"", false, -1, [=](A& a, World&) { level(a, "nowhere"); bus(a, "b1"); connectable(a, "b1"); }});
    p.choices.push_back({"", false, -1, [=](A& a, World&) { level(a, "used"); bus(a, "b1"); connectable(a, "b1"); }});
    const unsigned i = side == 1 ? 0 : 1;
    p.get = [i](Network& n, const std::string& id) { return whereIs(terminalOf(n, id, i)); };
    return p;
}

template <typename A, typename G>
Param<A> regulating(G get) {
    Param<A> p;
    p.name = "regulating terminal";
    p.choices.push_back({"itself", true, 0, [](A&, World&) {}});
    p.choices.push_back({"far#1", true, 0, [](A& a, World& w) { a.setRegulatingTerminal(stdcxx::ref(w.network.getLoad("far").getTerminal())); }});
    p.choices.push_back({"", false, 0, [](A& a, World& w) { a.setRegulatingTerminal(stdcxx::ref(w.other.getLoad("far").getTerminal())); }});
    p.get = [get](Network& n, const std::string& id) {
        const Terminal& t = get(n, id);
        const std::string owner = t.getConnectable().get().getId();
        return owner == id ? std::string("itself") : owner + "#1";
    };
    return p;
}

// all the choices with at most `deviations` parameters off their first choice, and the full product of the groups
template <typename A>
std::vector<std::vector<unsigned>> cases(const Creation<A>& c, unsigned deviations) {
    std::set<std::vector<unsigned>> all;
    const size_t n = c.params.size();
    std::vector<unsigned> v(n, 0);
    const std::function<void(size_t, unsigned)> rec = [&](size_t from, unsigned left) {
        all.insert(v);
        if (left == 0) return;
        for (size_t i = from; i < n; ++i) {
            for (unsigned k = 1; k < c.params[i].choices.size(); ++k) {
                v[i] = k;
                rec(i + 1, left - 1);
            }
            v[i] = 0;
        }
    };
    rec(0, deviations);
    for (const auto& g : c.groups) {
        std::vector<size_t> at;
        for (const auto& name : g)
            for (size_t i = 0; i < n; ++i)
                if (c.params[i].name == name) at.push_back(i);
        const std::function<void(size_t)> product = [&](size_t k) {
            if (k == at.size()) { all.insert(v); return; }
            for (unsigned j = 0; j < c.params[at[k]].choices.size(); ++j) {
                v[at[k]] = j;
                product(k + 1);
            }
            v[at[k]] = 0;
        };
        product(0);
    }
    return {all.begin(), all.end()};
}

template <typename A>
unsigned placeOf(const Creation<A>& c, const std::vector<unsigned>& v) {
    for (size_t i = 0; i < c.params.size(); ++i)
        if (c.params[i].name == "place") return v[i];
    return 0;
}
template <typename A>
void request(const Creation<A>& c, World& w, const std::vector<unsigned>& v) {
    A a = c.make(w, placeOf(c, v));
    for (size_t i = 0; i < v.size(); ++i) c.params[i].choices[v[i]].apply(a, w);
    c.add(a);
}

const net::Snapshot& baseSnapshot() {
    static const net::Snapshot s = []() { Network n = base(); return snapshot(n); }();
    return s;
}

// known finding: a busbar section refused because of its node stays in the network. Anything else that changes is reported.
void leftSection(mc::Run& run, const std::set<std::string>& before, const std::set<std::string>& now, const net::Snapshot& after, std::map<std::string, double> values, const std::string& created) {
    if (values["node"] != 0 && values["node"] != 1 && values["node"] != 6) return;
    auto expected = before;
    expected.insert(created);
    if (now == before || now != expected) return;
    for (const auto& e : baseSnapshot()) {
        const auto it = after.find(e.first);
        const auto ends = [&](const std::string& end) { return e.first.size() > end.size() && e.first.compare(e.first.size() - end.size(), end.size(), end) == 0; };
        const bool listing = ends("network/connectables") || ends("network/identifiables") || ends("network/n.bbs") || ends("network/n.connectable");
        if (!listing && (it == after.end() || it->second != e.second)) return;
    }
    for (const auto& e : after)
        if (!baseSnapshot().count(e.first) && e.first.find("/" + created + "/") == std::string::npos) return;
    run.fail("busbar-section-on-used-node", "the busbar section refused because its node is used stays in the network");
}

template <typename A>
mc::Space creation(const Creation<A>& c, bool thorough) {
    mc::Space s;
    s.name = "creation of a " + c.name;
    const auto all = std::make_shared<std::vector<std::vector<unsigned>>>(cases(c, thorough ? 3 : 2));
    const auto after = std::make_shared<net::Snapshot>();       // the base network with the valid equipment
    s.size = all->size();
    const auto text = [c](const std::vector<unsigned>& v) {
        std::string r;
        for (size_t i = 0; i < v.size(); ++i)
            if (v[i] != 0) {
                const auto& p = c.params[i];
                r += (r.empty() ? "" : ", ") + p.name + " = " + (p.name == "place" ? PLACES[v[i]].name : "choice " + mc::str(v[i]) + " (" + p.choices[v[i]].text + ")");
            }
        return r.empty() ? std::string("valid") : r;
    };
    s.describe = [all, text](uint64_t i) { return text((*all)[i]); };
    s.run = [all, text, c, after](uint64_t index, mc::Run& run) {
        const auto& v = (*all)[index];
        run.count();
        run.step(text(v));
        World w;
        Values values;
        bool valid = true;
        std::string id, created = NEW;
        bool unique = false;
        for (size_t i = 0; i < v.size(); ++i) {
            const auto& p = c.params[i];
            const auto& choice = p.choices[v[i]];
            values[p.name] = choice.v;
            valid = valid && choice.ok;
            if (p.name == "id") created = choice.text;
            if (p.name == "unicity") unique = choice.v == 1;
        }
        if (c.named) {
            if (values["id"] == 1) {
                valid = valid && unique;
                created += "#0";
            }
        }
        valid = valid && c.together(values);
        run.distinct(c.name + (valid ? " accepted" : " refused"));
        const auto before = identifiers(w.network);
        std::string what;
        const bool ok = mc::accepted([&]() { request(c, w, v); }, &what);
        MC_CHECK(run, ok == valid, c.name << (ok ? " accepted" : " refused: " + what));
        const auto now = identifiers(w.network);
        if (!ok) {
            const auto s2 = snapshot(w.network);
            if (c.name == "busbar section") leftSection(run, before, now, s2, values, created);
            const std::string d = net::diff(baseSnapshot(), s2);
            MC_CHECK(run, d.empty(), "the refused " << c.name << " (" << what << ") changed the network: " << d);
            run.trace();
            // the same request, valid
            std::string why;
            MC_CHECK(run, mc::accepted([&]() { request(c, w, std::vector<unsigned>(v.size(), 0)); }, &why), "a valid " << c.name << " is refused after a refused one: " << why);
            if (after->empty()) {
                World fresh;
                request(c, fresh, std::vector<unsigned>(v.size(), 0));
                *after = snapshot(fresh.network);
            }
            const std::string e = net::diff(*after, snapshot(w.network));
            MC_CHECK(run, e.empty(), "after a refused " << c.name << " a valid one gives another network: " << e);
            return;
        }
        if (c.named) {
            std::set<std::string> expected = before;
            expected.insert(created);
            MC_CHECK(run, now == expected, "the identifiers are not those expected after the creation of " << created);
            for (const std::string& variant : {std::string("v"), INITIAL}) {
                w.network.getVariantManager().setWorkingVariant(variant);
                for (size_t i = 0; i < v.size(); ++i) {
                    const auto& p = c.params[i];
                    if (!p.get || p.choices[v[i]].text.empty()) continue;
                    const std::string got = p.get(w.network, created);
                    MC_CHECK(run, got == p.choices[v[i]].text, p.name << " of the new " << c.name << " is " << got << " instead of " << p.choices[v[i]].text);
                }
            }
        }
        // nothing else changed
        const auto s2 = snapshot(w.network);
        std::string d;
        for (const auto& e : baseSnapshot()) {
            const auto it = s2.find(e.first);
            // calculated buses and components may merge
            if (e.first.find("/bbv/") != std::string::npos || e.first.find("/bv/") != std::string::npos || e.first.find("network/cc") != std::string::npos || e.first.find("network/sc") != std::string::npos) continue;
            if (it == s2.end()) d += " " + e.first + " disappeared;";
        }
        MC_CHECK(run, d.empty(), "the creation of a " << c.name << " removed something: " << d);
        run.trace();
    };
    return s;
}

#define SET(A, Setter) [](A& a, double v) { a.Setter(v); }
#define GET(Find, Getter) [](Network& n, const std::string& id) { return n.Find(id).Getter(); }

const std::vector<V> DEFINED{{1, true}, {-2.5, true}, {0, true}, {NaN, false}};
const std::vector<V> SIGNED{{2, true}, {-1, true}, {6, true}, {NaN, false}};
const stdcxx::optional<V> MISSING = V{NaN, false};
const stdcxx::optional<V> FREE = V{NaN, true};

template <typename A>
A injection(A (VoltageLevel::*make)(), World& w, unsigned place) { return (w.network.getVoltageLevel(PLACES[place].level).*make)(); }

template <typename A, typename E>
Param<A> choices(const std::string& name, const std::vector<std::pair<E, bool>>& values, const std::function<void(A&, const E&)>& set, const std::function<E(Network&, const std::string&)>& get, bool unsetOk, const std::string& readUnset = "") {
    Param<A> p;
    p.name = name;
    for (const auto& v : values) {
        const E e = v.first;
        p.choices.push_back({mc::str(static_cast<int>(e)), v.second, static_cast<double>(static_cast<int>(e)), [set, e](A& a, World&) { set(a, e); }});
    }
    p.choices.push_back({readUnset, unsetOk, -1, [](A&, World&) {}});
    p.get = [get](Network& n, const std::string& id) { return mc::str(static_cast<int>(get(n, id))); };
    return p;
}

void creations(bool thorough, std::vector<mc::Space>& spaces) {
    {
        using A = LoadAdder;
        Creation<A> c;
        c.name = "load";
        c.make = [](World& w, unsigned p) { return injection(&VoltageLevel::newLoad, w, p); };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(), place<A>(),
                    number<A>("p0", DEFINED, SET(A, setP0), GET(getLoad, getP0), MISSING),
                    number<A>("q0", DEFINED, SET(A, setQ0), GET(getLoad, getQ0), MISSING),
                    choices<A, LoadType>("type", {{LoadType::UNDEFINED, true}, {LoadType::AUXILIARY, true}, {LoadType::FICTITIOUS, true}, {static_cast<LoadType>(9), false}},
                                         [](A& a, const LoadType& t) { a.setLoadType(t); }, [](Network& n, const std::string& id) { return n.getLoad(id).getLoadType(); }, true, mc::str(static_cast<int>(LoadType::UNDEFINED)))};
        c.groups = {{"p0", "q0", "type"}};
        spaces.push_back(creation(c, thorough));
    }
    {
        using A = BatteryAdder;
        Creation<A> c;
        c.name = "battery";
        c.make = [](World& w, unsigned p) { return injection(&VoltageLevel::newBattery, w, p); };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(), place<A>(),
                    number<A>("p0", DEFINED, SET(A, setP0), GET(getBattery, getP0), MISSING),
                    number<A>("q0", DEFINED, SET(A, setQ0), GET(getBattery, getQ0), MISSING),
                    number<A>("minP", SIGNED, SET(A, setMinP), GET(getBattery, getMinP), MISSING),
                    number<A>("maxP", {{5, true}, {-3, true}, {2, true}, {NaN, false}}, SET(A, setMaxP), GET(getBattery, getMaxP), MISSING)};
        c.together = [](const Values& v) { return !(v.at("minP") > v.at("maxP")); };
        c.groups = {{"p0", "q0", "minP", "maxP"}};
        spaces.push_back(creation(c, thorough));
    }
    {
        using A = GeneratorAdder;
        Creation<A> c;
        c.name = "generator";
        c.make = [](World& w, unsigned p) { return injection(&VoltageLevel::newGenerator, w, p); };
        const auto on = [](A& a, double v) { a.setVoltageRegulatorOn(v != 0); };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(), place<A>(),
                    number<A>("minP", SIGNED, SET(A, setMinP), GET(getGenerator, getMinP), MISSING),
                    number<A>("maxP", {{5, true}, {-3, true}, {2, true}, {NaN, false}}, SET(A, setMaxP), GET(getGenerator, getMaxP), MISSING),
                    number<A>("targetP", DEFINED, SET(A, setTargetP), GET(getGenerator, getTargetP), MISSING),
                    number<A>("targetQ", {{1, true}, {-2, true}, {NaN, true}}, SET(A, setTargetQ), GET(getGenerator, getTargetQ), FREE, "NaN"),
                    number<A>("targetV", {{400, true}, {0, true}, {-1, true}, {NaN, true}}, SET(A, setTargetV), GET(getGenerator, getTargetV), FREE, "NaN"),
                    number<A>("regulator", {{0, true}, {1, true}}, on, GET(getGenerator, isVoltageRegulatorOn), V{-1, false}),
                    number<A>("ratedS", {{7, true}, {0, false}, {-1, false}, {NaN, true}}, SET(A, setRatedS), GET(getGenerator, getRatedS), FREE, "NaN"),
                    regulating<A>([](Network& n, const std::string& id) -> const Terminal& { return n.getGenerator(id).getRegulatingTerminal(); })};
        c.together = [](const Values& v) {
            if (v.at("minP") > v.at("maxP")) return false;
            return v.at("regulator") == 1 ? v.at("targetV") > 0 : !std::isnan(v.at("targetQ"));
        };
        c.groups = {{"minP", "maxP", "targetP"}, {"regulator", "targetV", "targetQ", "ratedS"}};
        spaces.push_back(creation(c, thorough));
    }
    {
        using A = DanglingLineAdder;
        Creation<A> c;
        c.name = "dangling line";
        c.make = [](World& w, unsigned p) { return injection(&VoltageLevel::newDanglingLine, w, p); };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(), place<A>(),
                    number<A>("p0", DEFINED, SET(A, setP0), GET(getDanglingLine, getP0), MISSING),
                    number<A>("q0", DEFINED, SET(A, setQ0), GET(getDanglingLine, getQ0), MISSING),
                    number<A>("r", DEFINED, SET(A, setR), GET(getDanglingLine, getR), MISSING),
                    number<A>("x", DEFINED, SET(A, setX), GET(getDanglingLine, getX), MISSING),
                    number<A>("g", DEFINED, SET(A, setG), GET(getDanglingLine, getG), MISSING),
                    number<A>("b", DEFINED, SET(A, setB), GET(getDanglingLine, getB), MISSING)};
        spaces.push_back(creation(c, thorough));
    }
    {
        // the generation of a dangling line: all its values given at once
        using A = DanglingLineAdder;
        Creation<A> c;
        c.name = "dangling line with a generation";
        c.make = [](World& w, unsigned p) { return injection(&VoltageLevel::newDanglingLine, w, p); };
        struct G { double minP, maxP, p, q, v; bool on; };
        Param<A> p;
        p.name = "generation";
        p.get = [](Network& n, const std::string& id) {
            const auto g = n.getDanglingLine(id).getGeneration();
            if (!g) return std::string("none");
            const double big = std::numeric_limits<double>::max();
            const auto show = [big](double d) { return d == big || d == -big ? std::string("NaN") : mc::str(d); };
            return show(g.get().getMinP()) + " " + show(g.get().getMaxP()) + " " + mc::str(g.get().getTargetP()) + " " + mc::str(g.get().getTargetQ()) + " " + mc::str(g.get().getTargetV()) + " " + mc::str(g.get().isVoltageRegulationOn());
        };
        p.choices.push_back({"none", true, 0, [](A&, World&) {}});
        for (double minP : {-1., 6., NaN}) for (double maxP : {5., -3., NaN}) for (double tp : {1., NaN}) for (double tq : {1., NaN}) for (double tv : {400., 0., -1., NaN}) for (bool on : {false, true}) {
            const bool ok = !(minP > maxP) && !std::isnan(tp) && (on ? tv > 0 : !std::isnan(tq));
            p.choices.push_back({mc::str(minP) + " " + mc::str(maxP) + " " + mc::str(tp) + " " + mc::str(tq) + " " + mc::str(tv) + " " + mc::str(on), ok, 0, [=](A& a, World&) {
                a.newGeneration().setMinP(minP).setMaxP(maxP).setTargetP(tp).setTargetQ(tq).setTargetV(tv).setVoltageRegulationOn(on).add();
            }});
        }
        c.params = {idParam<A>(), p, number<A>("p0", {{1, true}, {NaN, false}}, SET(A, setP0), GET(getDanglingLine, getP0), MISSING)};
        c.add = [](A& a) { a.setBus("b1").setConnectableBus("b1").setQ0(1).setR(1).setX(1).setG(0).setB(0).add(); };
        spaces.push_back(creation(c, false));
    }
    {
        using A = StaticVarCompensatorAdder;
        using M = StaticVarCompensator::RegulationMode;
        Creation<A> c;
        c.name = "static var compensator";
        c.make = [](World& w, unsigned p) { return injection(&VoltageLevel::newStaticVarCompensator, w, p); };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(), place<A>(),
                    number<A>("bmin", DEFINED, SET(A, setBmin), GET(getStaticVarCompensator, getBmin), MISSING),
                    number<A>("bmax", DEFINED, SET(A, setBmax), GET(getStaticVarCompensator, getBmax), MISSING),
                    number<A>("voltage", {{400, true}, {0, true}, {NaN, true}}, SET(A, setVoltageSetpoint), GET(getStaticVarCompensator, getVoltageSetpoint), FREE, "NaN"),
                    number<A>("reactive", {{1, true}, {-2, true}, {NaN, true}}, SET(A, setReactivePowerSetpoint), GET(getStaticVarCompensator, getReactivePowerSetpoint), FREE, "NaN"),
                    choices<A, M>("mode", {{M::OFF, true}, {M::VOLTAGE, true}, {M::REACTIVE_POWER, true}, {static_cast<M>(9), false}}, [](A& a, const M& m) { a.setRegulationMode(m); },
                                  [](Network& n, const std::string& id) { return n.getStaticVarCompensator(id).getRegulationMode(); }, false),
                    regulating<A>([](Network& n, const std::string& id) -> const Terminal& { return n.getStaticVarCompensator(id).getRegulatingTerminal(); })};
        c.together = [](const Values& v) {
            if (v.at("mode") == static_cast<int>(M::VOLTAGE)) return !std::isnan(v.at("voltage"));
            if (v.at("mode") == static_cast<int>(M::REACTIVE_POWER)) return !std::isnan(v.at("reactive"));
            return true;
        };
        c.groups = {{"bmin", "bmax", "voltage", "reactive", "mode"}};
        spaces.push_back(creation(c, thorough));
    }
    {
        using A = LccConverterStationAdder;
        Creation<A> c;
        c.name = "LCC station";
        c.make = [](World& w, unsigned p) { return injection(&VoltageLevel::newLccConverterStation, w, p); };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(), place<A>(),
                    number<A>("loss", {{1, true}, {0, true}, {100, true}, {-0.1, false}, {100.1, false}, {NaN, false}}, SET(A, setLossFactor), GET(getLccConverterStation, getLossFactor), MISSING),
                    number<A>("power", {{0.5, true}, {-1, true}, {1, true}, {-1.1, false}, {1.1, false}, {NaN, false}}, SET(A, setPowerFactor), GET(getLccConverterStation, getPowerFactor), MISSING)};
        spaces.push_back(creation(c, thorough));
    }
    {
        using A = VscConverterStationAdder;
        Creation<A> c;
        c.name = "VSC station";
        c.make = [](World& w, unsigned p) { return injection(&VoltageLevel::newVscConverterStation, w, p); };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(), place<A>(),
                    number<A>("loss", {{1, true}, {0, true}, {100, true}, {-0.1, false}, {100.1, false}, {NaN, false}}, SET(A, setLossFactor), GET(getVscConverterStation, getLossFactor), MISSING),
                    number<A>("reactive", {{1, true}, {-2, true}, {NaN, true}}, SET(A, setReactivePowerSetpoint), GET(getVscConverterStation, getReactivePowerSetpoint), FREE, "NaN"),
                    number<A>("voltage", {{400, true}, {0, true}, {-1, true}, {NaN, true}}, SET(A, setVoltageSetpoint), GET(getVscConverterStation, getVoltageSetpoint), FREE, "NaN"),
                    number<A>("regulator", {{0, true}, {1, true}}, [](A& a, double v) { a.setVoltageRegulatorOn(v != 0); }, GET(getVscConverterStation, isVoltageRegulatorOn), V{-1, false})};
        c.together = [](const Values& v) { return v.at("regulator") == 1 ? v.at("voltage") > 0 : !std::isnan(v.at("reactive")); };
        c.groups = {{"loss", "reactive", "voltage", "regulator"}};
        spaces.push_back(creation(c, thorough));
    }
    {
        using A = ShuntCompensatorAdder;
        Creation<A> c;
        c.name = "shunt compensator";
        c.make = [](World& w, unsigned p) { return injection(&VoltageLevel::newShuntCompensator, w, p); };
        Param<A> model;
        model.name = "model";
        const auto linear = [](double b, double g, long max) { return [=](A& a, World&) { auto m = a.newLinearModel(); m.setBPerSection(b).setGPerSection(g); if (max >= 0) m.setMaximumSectionCount(static_cast<unsigned long>(max)); m.add(); }; };
        model.choices.push_back({"linear 2 1 NaN", true, 2, linear(1, NaN, 2)});
        model.choices.push_back({"linear 1 -1 3", true, 1, linear(-1, 3, 1)});
        model.choices.push_back({"", false, 0, linear(NaN, 3, 2)});
        model.choices.push_back({"", false, 0, linear(1, 3, 0)});
        model.choices.push_back({"", false, 0, linear(1, 3, -1)});
        model.choices.push_back({"", false, 0, [](A&, World&) {}});
        model.choices.push_back({"non linear 2", true, 2, [](A& a, World&) { auto m = a.newNonLinearModel(); m.beginSection().setB(1).setG(2).endSection().beginSection().setB(3).endSection(); m.add(); }});
        model.choices.push_back({"", false, 0, [](A& a, World&) { auto m = a.newNonLinearModel(); m.beginSection().setB(NaN).setG(2).endSection(); m.add(); }});
        model.choices.push_back({"", false, 0, [](A& a, World&) { a.newNonLinearModel().add(); }});
        // the last one given counts, and a refused one does not
        model.choices.push_back({"linear 1 -1 3", true, 1, [linear](A& a, World& w) { linear(1, NaN, 2)(a, w); linear(-1, 3, 1)(a, w); }});
        model.choices.push_back({"linear 2 1 NaN", true, 2, [linear](A& a, World& w) { linear(1, NaN, 2)(a, w); mc::accepted([&]() { linear(1, 3, 0)(a, w); }); }});
        model.get = [](Network& n, const std::string& id) {
            const auto& s = static_cast<const Network&>(n).getShuntCompensator(id);
            if (s.getModelType() == ShuntCompensatorModelType::NON_LINEAR) return "non linear " + mc::str(s.getMaximumSectionCount());
            const auto& m = s.getModel<ShuntCompensatorLinearModel>();
            return "linear " + mc::str(s.getMaximumSectionCount()) + " " + mc::str(m.getBPerSection()) + " " + mc::str(m.getGPerSection());
        };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(), place<A>(), model,
                    number<A>("count", {{1, true}, {0, true}, {2, true}, {3, true}}, [](A& a, double v) { a.setSectionCount(static_cast<unsigned long>(v)); }, GET(getShuntCompensator, getSectionCount), V{-1, false}),
                    number<A>("voltage", {{400, true}, {0, true}, {-1, true}, {NaN, true}}, SET(A, setTargetV), GET(getShuntCompensator, getTargetV), FREE, "NaN"),
                    number<A>("deadband", {{1, true}, {0, true}, {-1, false}, {NaN, true}}, SET(A, setTargetDeadband), GET(getShuntCompensator, getTargetDeadband), FREE, "NaN"),
                    number<A>("regulator", {{0, true}, {1, true}}, [](A& a, double v) { a.setVoltageRegulatorOn(v != 0); }, GET(getShuntCompensator, isVoltageRegulatorOn), V{0, true}, "0"),
                    regulating<A>([](Network& n, const std::string& id) -> const Terminal& { return n.getShuntCompensator(id).getRegulatingTerminal(); })};
        c.together = [](const Values& v) {
            if (v.at("count") > v.at("model")) return false;
            return v.at("regulator") != 1 || (v.at("voltage") > 0 && !std::isnan(v.at("deadband")));
        };
        c.groups = {{"model", "count"}, {"voltage", "deadband", "regulator"}};
        spaces.push_back(creation(c, thorough));
    }
    {
        using A = BusbarSectionAdder;
        Creation<A> c;
        c.name = "busbar section";
        c.make = [](World& w, unsigned) { return w.network.getVoltageLevel("nb1").getNodeBreakerView().newBusbarSection(); };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(),
                    number<A>("node", {{4, true}, {2, true}, {0, false}, {1, false}, {6, false}, {100, true}}, [](A& a, double v) { a.setNode(static_cast<unsigned long>(v)); },
                              [](Network& n, const std::string& id) { return n.getBusbarSection(id).getTerminal().getNodeBreakerView().getNode(); }, MISSING)};
        spaces.push_back(creation(c, true));
    }
    {
        using A = node_breaker_view::SwitchAdder;
        Creation<A> c;
        c.name = "switch between nodes";
        c.make = [](World& w, unsigned) { return w.network.getVoltageLevel("nb1").getNodeBreakerView().newSwitch(); };
        const auto node = [](unsigned side) {
            Param<A> p = number<A>("node" + mc::str(side), {{static_cast<double>(3 + side), true}, {0, true}, {1, true}, {2, true}, {100, true}},
                                   [side](A& a, double v) { if (side == 1) a.setNode1(static_cast<unsigned long>(v)); else a.setNode2(static_cast<unsigned long>(v)); },
                                   [side](Network& n, const std::string& id) { const auto& v = n.getVoltageLevel("nb1").getNodeBreakerView(); return side == 1 ? v.getNode1(id) : v.getNode2(id); }, MISSING);
            return p;
        };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(), node(1), node(2),
                    choices<A, SwitchKind>("kind", {{SwitchKind::BREAKER, true}, {SwitchKind::DISCONNECTOR, true}, {SwitchKind::LOAD_BREAK_SWITCH, true}}, [](A& a, const SwitchKind& k) { a.setKind(k); },
                                           [](Network& n, const std::string& id) { return n.getSwitch(id).getKind(); }, false),
                    number<A>("open", {{1, true}, {0, true}}, [](A& a, double v) { a.setOpen(v != 0); }, GET(getSwitch, isOpen), V{0, true}, "0"),
                    number<A>("retained", {{1, true}, {0, true}}, [](A& a, double v) { a.setRetained(v != 0); }, GET(getSwitch, isRetained), V{0, true}, "0")};
        spaces.push_back(creation(c, thorough));
    }
    {
        using A = bus_breaker_view::SwitchAdder;
        Creation<A> c;
        c.name = "switch between buses";
        c.make = [](World& w, unsigned) { return w.network.getVoltageLevel("bb1").getBusBreakerView().newSwitch(); };
        const auto bus = [](unsigned side) {
            Param<A> p;
            p.name = "bus" + mc::str(side);
            const auto set = [side](A& a, const std::string& b) { if (side == 1) a.setBus1(b); else a.setBus2(b); };
            for (const char* b : {"b1", "b2", "b3", "nowhere", "used", ""}) {
                const std::string id = side == 1 ? b : std::string(b) == "b1" ? "b2" : std::string(b) == "b2" ? "b1" : b;
                p.choices.push_back({id, id == "b1" || id == "b2", 0, [set, id](A& a, World&) { set(a, id); }});
            }
            p.get = [side](Network& n, const std::string& id) { const auto& v = n.getVoltageLevel("bb1").getBusBreakerView(); return side == 1 ? v.getBus1(id).get().getId() : v.getBus2(id).get().getId(); };
            return p;
        };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(), bus(1), bus(2),
                    number<A>("open", {{1, true}, {0, true}}, [](A& a, double v) { a.setOpen(v != 0); }, GET(getSwitch, isOpen), V{0, true}, "0")};
        spaces.push_back(creation(c, true));
    }
    {
        using A = node_breaker_view::InternalConnectionAdder;
        Creation<A> c;
        c.name = "internal connection";
        c.named = false;
        c.make = [](World& w, unsigned) { return w.network.getVoltageLevel("nb1").getNodeBreakerView().newInternalConnection(); };
        const auto node = [](unsigned side) {
            Param<A> p;
            p.name = "node" + mc::str(side);
            for (double v : {3. + side, 0., 1., 2., 100.}) p.choices.push_back({"", true, v, [side, v](A& a, World&) { if (side == 1) a.setNode1(static_cast<unsigned long>(v)); else a.setNode2(static_cast<unsigned long>(v)); }});
            p.choices.push_back({"", false, NaN, [](A&, World&) {}});
            return p;
        };
        c.params = {node(1), node(2)};
        spaces.push_back(creation(c, true));
    }
    {
        using A = BusAdder;
        Creation<A> c;
        c.name = "bus";
        c.make = [](World& w, unsigned) { return w.network.getVoltageLevel("bb1").getBusBreakerView().newBus(); };
        c.params = {idParam<A>(), unicity<A>(), naming<A>()};
        spaces.push_back(creation(c, true));
    }
    {
        using A = HvdcLineAdder;
        using M = HvdcLine::ConvertersMode;
        Creation<A> c;
        c.name = "HVDC line";
        c.make = [](World& w, unsigned) { return w.network.newHvdcLine(); };
        const auto station = [](unsigned side) {
            Param<A> p;
            p.name = "station" + mc::str(side);
            const std::string right = "lcc" + mc::str(side);
            for (const std::string& id : {right, std::string("nowhere"), std::string("used"), std::string("")})
                p.choices.push_back({id, id == right, 0, [side, id](A& a, World&) { if (side == 1) a.setConverterStationId1(id); else a.setConverterStationId2(id); }});
            p.get = [side](Network& n, const std::string& id) { const auto& h = n.getHvdcLine(id); return side == 1 ? h.getConverterStation1().get().getId() : h.getConverterStation2().get().getId(); };
            return p;
        };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(), station(1), station(2),
                    number<A>("r", DEFINED, SET(A, setR), GET(getHvdcLine, getR), MISSING),
                    number<A>("nominal", {{400, true}, {0, false}, {-1, false}, {NaN, false}}, SET(A, setNominalV), GET(getHvdcLine, getNominalV), MISSING),
                    number<A>("maxP", {{10, true}, {0, true}, {-1, false}, {NaN, false}}, SET(A, setMaxP), GET(getHvdcLine, getMaxP), MISSING),
                    number<A>("p", {{10, true}, {0, true}, {11, true}, {-1, false}, {NaN, false}}, SET(A, setActivePowerSetpoint), GET(getHvdcLine, getActivePowerSetpoint), MISSING),
                    choices<A, M>("mode", {{M::SIDE_1_INVERTER_SIDE_2_RECTIFIER, true}, {M::SIDE_1_RECTIFIER_SIDE_2_INVERTER, true}, {static_cast<M>(9), false}}, [](A& a, const M& m) { a.setConvertersMode(m); },
                                  [](Network& n, const std::string& id) { return n.getHvdcLine(id).getConvertersMode(); }, false)};
        spaces.push_back(creation(c, thorough));
    }
    {
        using A = LineAdder;
        Creation<A> c;
        c.name = "line";
        c.make = [](World& w, unsigned) { return w.network.newLine(); };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(), sidePlace<A>(1, "place1", false, false), sidePlace<A>(2, "place2", false, true)};
#define LINE_NUMBER(Name) c.params.push_back(number<A>(#Name, DEFINED, SET(A, set##Name), GET(getLine, get##Name), MISSING))
        LINE_NUMBER(R); LINE_NUMBER(X); LINE_NUMBER(G1); LINE_NUMBER(G2); LINE_NUMBER(B1); LINE_NUMBER(B2);
        c.together = [](const Values& v) { return v.at("place1") < 0 || v.at("place1") != v.at("place2"); };
        spaces.push_back(creation(c, thorough));
    }
    {
        using A = TwoWindingsTransformerAdder;
        Creation<A> c;
        c.name = "two windings transformer";
        c.make = [](World& w, unsigned) { return w.network.getSubstation("s1").newTwoWindingsTransformer(); };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(), sidePlace<A>(1, "place1", true, false), sidePlace<A>(2, "place2", true, true)};
#define TWO_NUMBER(Name) c.params.push_back(number<A>(#Name, DEFINED, SET(A, set##Name), GET(getTwoWindingsTransformer, get##Name), MISSING))
        TWO_NUMBER(R); TWO_NUMBER(X); TWO_NUMBER(G); TWO_NUMBER(B); TWO_NUMBER(RatedU1); TWO_NUMBER(RatedU2);
        c.params.push_back(number<A>("ratedS", {{7, true}, {0, false}, {-1, false}, {NaN, true}}, SET(A, setRatedS), GET(getTwoWindingsTransformer, getRatedS), FREE, "NaN"));
        c.together = [](const Values& v) { return v.at("place1") < 0 || v.at("place1") != v.at("place2"); };
        spaces.push_back(creation(c, thorough));
    }
    {
        using A = TieLineAdder;
        Creation<A> c;
        c.name = "tie line";
        c.make = [](World& w, unsigned) { return w.network.newTieLine(); };
        const auto half = [](unsigned side) {
            Param<A> p;
            p.name = "half" + mc::str(side);
            const auto make = [side](const std::string& id, unsigned missing) {
                return [=](A& a, World&) {
                    auto h = side == 1 ? a.newHalfLine1() : a.newHalfLine2();
                    h.setId(id).setName("name").setFictitious(true);
                    if (missing != 1) h.setR(1);
                    if (missing != 2) h.setX(2);
                    if (missing != 3) h.setG1(3);
                    if (missing != 4) h.setG2(4);
                    if (missing != 5) h.setB1(5);
                    if (missing != 6) h.setB2(6);
                    h.add();
                };
            };
            p.choices.push_back({"h" + mc::str(side) + " 1 2 3 4 5 6", true, 0, make("h" + mc::str(side), 0)});
            p.choices.push_back({"", false, 0, make("", 0)});
            for (unsigned m = 1; m <= 6; ++m) p.choices.push_back({"", false, 0, make("h", m)});
            p.choices.push_back({"", false, 0, [](A&, World&) {}});
            p.get = [side](Network& n, const std::string& id) {
                const auto& t = dynamic_cast<const TieLine&>(n.getLine(id));
                const auto& h = side == 1 ? t.getHalf1() : t.getHalf2();
                return h.getId() + " " + mc::str(h.getR()) + " " + mc::str(h.getX()) + " " + mc::str(h.getG1()) + " " + mc::str(h.getG2()) + " " + mc::str(h.getB1()) + " " + mc::str(h.getB2());
            };
            return p;
        };
        Param<A> code;
        code.name = "code";
        code.choices.push_back({"xnode", true, 0, [](A& a, World&) { a.setUcteXnodeCode("xnode"); }});
        code.choices.push_back({"", false, 0, [](A& a, World&) { a.setUcteXnodeCode(""); }});
        code.choices.push_back({"", false, 0, [](A&, World&) {}});
        code.get = [](Network& n, const std::string& id) { return dynamic_cast<const TieLine&>(n.getLine(id)).getUcteXnodeCode(); };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(), sidePlace<A>(1, "place1", false, false), sidePlace<A>(2, "place2", false, true), half(1), half(2), code};
        c.together = [](const Values& v) { return v.at("place1") < 0 || v.at("place1") != v.at("place2"); };
        spaces.push_back(creation(c, thorough));
    }
    {
        using A = ThreeWindingsTransformerAdder;
        Creation<A> c;
        c.name = "three windings transformer";
        c.make = [](World& w, unsigned) { return w.network.getSubstation("s1").newThreeWindingsTransformer(); };
        const auto leg = [](unsigned side) {
            Param<A> p;
            p.name = "leg" + mc::str(side);
            const auto make = [side](const Place& l, double bad, unsigned which, bool other, const char* level) {
                return [=](A& a, World&) {
                    auto g = side == 1 ? a.newLeg1() : side == 2 ? a.newLeg2() : a.newLeg3();
                    if (level != nullptr) g.setVoltageLevel(level);
                    else if (*l.level != 0) g.setVoltageLevel(l.level);
                    if (*l.bus != 0) g.setBus(l.bus);
                    if (*l.connectable != 0) g.setConnectableBus(l.connectable);
                    if (l.node >= 0) g.setNode(static_cast<unsigned long>(other ? l.node + 10 * static_cast<int>(side) : l.node));
                    if (which != 1 || !std::isnan(bad)) g.setR(1);
                    if (which != 2) g.setX(1);
                    if (which != 3) g.setG(1);
                    if (which != 4) g.setB(1);
                    if (which != 5) g.setRatedU(side);
                    if (which == 6) g.setRatedS(bad);
                    g.add();
                };
            };
            for (const auto& l : PLACES) {
                p.choices.push_back({l.ok ? mc::str(side) + " " + l.read : "", l.ok, l.ok && l.node >= 0 ? static_cast<double>(l.node) : -1. - side, make(l, NaN, 0, false, nullptr)});
            }
            for (unsigned which = 1; which <= 5; ++which) {
                // the legs 2 and 3 have no conductance nor susceptance unless they are given
                const bool byDefault = side != 1 && (which == 3 || which == 4);
                p.choices.push_back({byDefault ? mc::str(side) + " b1 1" : "", byDefault, -1. - side, make(PLACES[0], NaN, which, false, nullptr)});
            }
            for (double s : {0., -1.}) p.choices.push_back({"", false, -1. - side, make(PLACES[0], s, 6, false, nullptr)});
            p.choices.push_back({mc::str(side) + " b1 1", true, -1. - side, make(PLACES[0], 5, 6, false, nullptr)});
            p.choices.push_back({"", false, -1. - side, make(PLACES[0], 5, 6, false, "")});
            p.choices.push_back({"", false, -1. - side, make(PLACES[0], 5, 6, false, "nowhere")});
            p.choices.push_back({"", false, -1. - side, make(PLACES[0], 5, 6, false, "used")});
            Place far = PLACES[0];
            far.bus = far.connectable = "b3";
            far.level = "bb2";
            p.choices.push_back({"", false, -1. - side, make(far, 5, 6, false, nullptr)});
            p.choices.push_back({"", false, -1. - side, [](A&, World&) {}});
            p.get = [side](Network& n, const std::string& id) {
                const auto& t = n.getThreeWindingsTransformer(id);
                const auto& l = side == 1 ? t.getLeg1() : side == 2 ? t.getLeg2() : t.getLeg3();
                return mc::str(l.getRatedU()) + " " + whereIs(l.getTerminal());
            };
            return p;
        };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(), leg(1), leg(2), leg(3),
                    number<A>("ratedU0", {{7, true}, {NaN, true}}, SET(A, setRatedU0), GET(getThreeWindingsTransformer, getRatedU0), FREE, "1")};
        c.params.back().choices[1].text = "1";
        c.together = [](const Values& v) { return v.at("leg1") != v.at("leg2") && v.at("leg1") != v.at("leg3") && v.at("leg2") != v.at("leg3"); };
        spaces.push_back(creation(c, thorough));
    }
    {
        using A = VoltageLevelAdder;
        Creation<A> c;
        c.name = "voltage level";
        c.make = [](World& w, unsigned) { return w.network.getSubstation("s1").newVoltageLevel(); };
        c.params = {idParam<A>(), unicity<A>(), naming<A>(),
                    number<A>("nominal", {{400, true}, {0, false}, {-1, false}, {NaN, false}}, SET(A, setNominalV), GET(getVoltageLevel, getNominalV), MISSING),
                    number<A>("low", {{1, true}, {0, true}, {5, true}, {-1, false}, {NaN, true}}, SET(A, setLowVoltageLimit), GET(getVoltageLevel, getLowVoltageLimit), FREE, "NaN"),
                    number<A>("high", {{3, true}, {0, true}, {6, true}, {-1, false}, {NaN, true}}, SET(A, setHighVoltageLimit), GET(getVoltageLevel, getHighVoltageLimit), FREE, "NaN"),
                    choices<A, TopologyKind>("kind", {{TopologyKind::BUS_BREAKER, true}, {TopologyKind::NODE_BREAKER, true}, {static_cast<TopologyKind>(9), false}}, [](A& a, const TopologyKind& k) { a.setTopologyKind(k); },
                                             [](Network& n, const std::string& id) { return n.getVoltageLevel(id).getTopologyKind(); }, false)};
        c.together = [](const Values& v) { return !(v.at("low") > v.at("high")); };
        c.groups = {{"nominal", "low", "high", "kind"}};
        spaces.push_back(creation(c, thorough));
    }
    {
        using A = SubstationAdder;
        Creation<A> c;
        c.name = "substation";
        c.make = [](World& w, unsigned) { return w.network.newSubstation(); };
        c.params = {idParam<A>(), unicity<A>(), naming<A>()};
        spaces.push_back(creation(c, true));
    }
    // networks
    mc::Space s;
    s.name = "creation of a network";
    s.size = 16;
    const auto value = [](uint64_t i) { return std::string(i % 4 == 0 ? "" : i % 4 == 1 ? "a" : i % 4 == 2 ? " " : "bb1"); };
    s.describe = [value](uint64_t i) { return "network '" + value(i) + "' of format '" + value(i / 4) + "'"; };
    s.run = [value](uint64_t i, mc::Run& run) {
        run.count();
        const bool ok = mc::accepted([&]() {
            Network n(value(i), value(i / 4));
            MC_CHECK(run, n.getId() == value(i) && n.getSourceFormat() == value(i / 4), "the network has another id or format");
        });
        MC_CHECK(run, ok == (!value(i).empty() && !value(i / 4).empty()), "network " << (ok ? "accepted" : "refused"));
        run.distinct(mc::str(i));
        run.trace();
    };
    spaces.push_back(s);
}

// ------------------------------------------------------------------------------------------------ modifications

// every equipment that can be modified, with all the validity rules satisfied
Network modifiable(const std::string& id = "modified") {
    Network n(id, "verif");
    n.setCaseDate(stdcxx::DateTime::parse("2020-01-02T03:04:05.000Z"));
    Substation& s = n.newSubstation().setId("s").add();
    VoltageLevel& b = s.newVoltageLevel().setId("b").setNominalV(400).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    VoltageLevel& k = s.newVoltageLevel().setId("n").setNominalV(225).setTopologyKind(TopologyKind::NODE_BREAKER).add();
    b.getBusBreakerView().newBus().setId("b1").add();
    b.getBusBreakerView().newBus().setId("b2").add();
    b.getBusBreakerView().newSwitch().setId("bswitch").setBus1("b1").setBus2("b2").setOpen(false).add();
    k.getNodeBreakerView().newBusbarSection().setId("bar").setNode(0).add();
    k.getNodeBreakerView().newBreaker().setId("breaker").setNode1(0).setNode2(1).setOpen(false).setRetained(false).add();
    k.newLoad().setId("far").setNode(1).setP0(1).setQ0(1).add();
    b.newLoad().setId("load").setBus("b1").setConnectableBus("b1").setP0(1).setQ0(1).add();
    b.newBattery().setId("battery").setBus("b1").setConnectableBus("b1").setP0(1).setQ0(1).setMinP(2).setMaxP(5).add();
    b.newGenerator().setId("generator").setBus("b1").setConnectableBus("b1").setMinP(2).setMaxP(5).setTargetP(1).setTargetQ(1).setTargetV(400).setVoltageRegulatorOn(false).setRatedS(7).add();
    b.newDanglingLine().setId("dangling").setBus("b1").setConnectableBus("b1").setP0(1).setQ0(1).setR(1).setX(1).setG(1).setB(1)
        .newGeneration().setMinP(2).setMaxP(5).setTargetP(1).setTargetQ(1).setTargetV(400).setVoltageRegulationOn(false).add().add();
    b.newStaticVarCompensator().setId("svc").setBus("b1").setConnectableBus("b1").setBmin(1).setBmax(1).setVoltageSetpoint(400).setReactivePowerSetpoint(1).setRegulationMode(StaticVarCompensator::RegulationMode::OFF).add();
    b.newShuntCompensator().setId("shunt").setBus("b1").setConnectableBus("b1").setSectionCount(1).setTargetV(400).setTargetDeadband(1).setVoltageRegulatorOn(false).newLinearModel().setBPerSection(1).setMaximumSectionCount(2).add().add();
    for (const char* i : {"lcc", "lcc2"}) b.newLccConverterStation().setId(i).setBus("b1").setConnectableBus("b1").setLossFactor(1).setPowerFactor(0.5).add();
    b.newVscConverterStation().setId("vsc").setBus("b1").setConnectableBus("b1").setLossFactor(1).setVoltageSetpoint(400).setReactivePowerSetpoint(1).setVoltageRegulatorOn(false).add();
    n.newHvdcLine().setId("hvdc").setConverterStationId1("lcc").setConverterStationId2("lcc2").setR(1).setNominalV(400).setMaxP(10).setActivePowerSetpoint(10).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER).add();
    n.newLine().setId("line").setVoltageLevel1("b").setBus1("b1").setConnectableBus1("b1").setVoltageLevel2("b").setBus2("b2").setConnectableBus2("b2").setR(1).setX(1).setG1(1).setG2(1).setB1(1).setB2(1).add();
    auto tie = n.newTieLine();
    tie.setId("tie").setUcteXnodeCode("x").setVoltageLevel1("b").setBus1("b1").setConnectableBus1("b1").setVoltageLevel2("b").setBus2("b2").setConnectableBus2("b2");
    tie.newHalfLine1().setId("h1").setR(1).setX(1).setG1(1).setG2(1).setB1(1).setB2(1).add();
    tie.newHalfLine2().setId("h2").setR(1).setX(1).setG1(1).setG2(1).setB1(1).setB2(1).add();
    tie.add();
    s.newTwoWindingsTransformer().setId("two").setVoltageLevel1("b").setBus1("b1").setConnectableBus1("b1").setVoltageLevel2("b").setBus2("b2").setConnectableBus2("b2").setR(1).setX(1).setG(1).setB(1).setRatedU1(1).setRatedU2(1).setRatedS(7).add();
    auto t = s.newThreeWindingsTransformer();
    t.setId("three").setRatedU0(400);
    t.newLeg1().setVoltageLevel("b").setBus("b1").setConnectableBus("b1").setR(1).setX(1).setG(1).setB(1).setRatedU(1).setRatedS(7).add();
    t.newLeg2().setVoltageLevel("b").setBus("b1").setConnectableBus("b1").setR(1).setX(1).setG(1).setB(1).setRatedU(1).setRatedS(7).add();
    t.newLeg3().setVoltageLevel("b").setBus("b1").setConnectableBus("b1").setR(1).setX(1).setG(1).setB(1).setRatedU(1).setRatedS(7).add();
    t.add();
    n.getVariantManager().cloneVariant(INITIAL, "v");
    return n;
}
struct Mod {
    Network network = modifiable();
    Network other = modifiable("other");
};

struct Attribute {
    std::string name;
    bool perVariant;
    std::vector<std::string> texts;          // the first one is the initial value
    std::vector<double> v;
    std::vector<bool> ok;
    std::function<void(Mod&, unsigned)> set;
    std::function<std::string(Network&)> get;
};
using State = std::map<std::string, double>;
struct Object {
    std::string name;
    std::vector<Attribute> attributes;
    std::function<bool(const State&)> together;   // the rule between the attributes, if any
    bool valid(const State& s) const { return !together || together(s); }
};

template <typename S, typename G>
Attribute attribute(const std::string& name, bool perVariant, const std::vector<V>& values, S set, G get) {
    Attribute a;
    a.name = name;
    a.perVariant = perVariant;
    for (const auto& x : values) {
        a.texts.push_back(mc::str(x.v));
        a.v.push_back(x.v);
        a.ok.push_back(x.ok);
    }
    a.set = [set, values](Mod& m, unsigned c) { set(m.network, values[c].v); };
    a.get = [get](Network& n) { return mc::str(static_cast<double>(get(n))); };
    return a;
}
template <typename S, typename G>
Attribute regulatingAttribute(S set, G get) {
    Attribute a;
    a.name = "regulating terminal";
    a.perVariant = false;
    a.texts = {"itself", "far", "", "itself", "bar"};
    a.v = {0, 1, 2, 3, 4};
    a.ok = {true, true, false, true, true};
    a.set = [set](Mod& m, unsigned c) {
        switch (c) {
            case 0: set(m.network, stdcxx::Reference<Terminal>()); break;
            case 1: set(m.network, stdcxx::ref(m.network.getLoad("far").getTerminal())); break;
            case 2: set(m.network, stdcxx::ref(m.other.getLoad("far").getTerminal())); break;
            case 3: set(m.network, stdcxx::Reference<Terminal>()); break;
            default: set(m.network, stdcxx::ref(m.network.getBusbarSection("bar").getTerminal())); break;
        }
    };
    a.get = [get](Network& n) {
        const std::string id = get(n).getConnectable().get().getId();
        return id == "far" || id == "bar" ? id : std::string("itself");
    };
    return a;
}

#define ATTR(Variant, Values, Find, Name) attribute(#Name, Variant, Values, [](Network& n, double v) { n.Find.set##Name(v); }, [](Network& n) { return static_cast<const Network&>(n).Find.get##Name(); })
#define FLAG(Variant, Find, Name) attribute(#Name, Variant, {{0, true}, {1, true}}, [](Network& n, double v) { n.Find.set##Name(v != 0); }, [](Network& n) { return n.Find.is##Name(); })
#define ENUMERATION(Values, Find, Name, E) attribute(#Name, true, Values, [](Network& n, double v) { n.Find.set##Name(static_cast<E>(static_cast<int>(v))); }, [](Network& n) { return static_cast<int>(n.Find.get##Name()); })

TieLine& tie(Network& n) { return dynamic_cast<TieLine&>(n.getLine("tie")); }

std::vector<Object> objects() {
    std::vector<Object> all;
    const std::vector<V> real{{1, true}, {-2.5, true}, {NaN, false}};
    const std::vector<V> target{{1, true}, {-2, true}, {NaN, true}};
    const std::vector<V> voltage{{400, true}, {0, true}, {-1, true}, {225, true}, {NaN, true}};
    const std::vector<V> low{{2, true}, {-1, true}, {6, true}, {NaN, false}}, high{{5, true}, {-3, true}, {2, true}, {NaN, false}};
    const std::vector<V> rated{{7, true}, {0, false}, {-1, false}, {NaN, true}, {3, true}};
    const std::vector<V> deadband{{1, true}, {0, true}, {-1, false}, {NaN, true}};
    const std::vector<V> loss{{1, true}, {0, true}, {100, true}, {-0.1, false}, {100.1, false}, {NaN, false}};
    const std::vector<V> power{{0.5, true}, {-1, true}, {1, true}, {-1.1, false}, {1.1, false}, {NaN, false}};
    const std::vector<V> nominal{{400, true}, {1, true}, {0, false}, {-1, false}, {NaN, false}};
    const std::vector<V> refused{{1, false}, {2, false}};
    const std::vector<V> any{{NaN, true}, {1, true}, {-2, true}};
    const auto order = [](const std::string& a, const std::string& b) { return [a, b](const State& s) { return !(s.at(a) > s.at(b)); }; };
    const auto control = [](const std::string& on, const std::string& v, const std::string& q) { return [=](const State& s) { return s.at(on) == 1 ? s.at(v) > 0 : !std::isnan(s.at(q)); }; };
    Object o;

    o = Object{};
    o.name = "network";
    o.attributes = {attribute("forecast distance", false, {{0, true}, {5, true}, {-1, false}}, [](Network& n, double v) { n.setForecastDistance(static_cast<int>(v)); }, [](Network& n) { return n.getForecastDistance(); })};
    all.push_back(o);

    o = Object{};
    o.name = "voltage level";
    o.attributes = {ATTR(false, nominal, getVoltageLevel("b"), NominalV), ATTR(false, (std::vector<V>{{NaN, true}, {0, true}, {1, true}, {5, true}, {-1, false}}), getVoltageLevel("b"), LowVoltageLimit),
                    ATTR(false, (std::vector<V>{{NaN, true}, {0, true}, {3, true}, {6, true}, {-1, false}}), getVoltageLevel("b"), HighVoltageLimit)};
    o.together = order("LowVoltageLimit", "HighVoltageLimit");
    all.push_back(o);

    o = Object{};
    o.name = "load";
    o.attributes = {ATTR(true, real, getLoad("load"), P0), ATTR(true, real, getLoad("load"), Q0), ENUMERATION((std::vector<V>{{0, true}, {1, true}, {2, true}, {9, false}}), getLoad("load"), LoadType, LoadType),
                    ATTR(true, any, getLoad("load").getTerminal(), P), ATTR(true, any, getLoad("load").getTerminal(), Q)};
    o.attributes[2].perVariant = false;
    all.push_back(o);

    o = Object{};
    o.name = "busbar section and buses";
    o.attributes = {attribute("p of the section", true, {{NaN, false}, {1, false}}, [](Network& n, double v) { n.getBusbarSection("bar").getTerminal().setP(v); }, [](Network& n) { return n.getBusbarSection("bar").getTerminal().getP(); }),
                    attribute("q of the section", true, {{NaN, false}, {1, false}}, [](Network& n, double v) { n.getBusbarSection("bar").getTerminal().setQ(v); }, [](Network& n) { return n.getBusbarSection("bar").getTerminal().getQ(); }),
                    attribute("p of the shunt", true, {{NaN, true}, {1, false}}, [](Network& n, double v) { n.getShuntCompensator("shunt").getTerminal().setP(v); }, [](Network& n) { return n.getShuntCompensator("shunt").getTerminal().getP(); }),
                    attribute("q of the shunt", true, {{NaN, true}, {1, true}}, [](Network& n, double v) { n.getShuntCompensator("shunt").getTerminal().setQ(v); }, [](Network& n) { return n.getShuntCompensator("shunt").getTerminal().getQ(); }),
                    attribute("v of a bus", true, {{NaN, true}, {0, true}, {4, true}, {-1, false}}, [](Network& n, double v) { n.getVoltageLevel("b").getBusBreakerView().getBus("b1").get().setV(v); }, [](Network& n) { return n.getVoltageLevel("b").getBusBreakerView().getBus("b1").get().getV(); }),
                    attribute("angle of a bus", true, any, [](Network& n, double v) { n.getVoltageLevel("b").getBusBreakerView().getBus("b1").get().setAngle(v); }, [](Network& n) { return n.getVoltageLevel("b").getBusBreakerView().getBus("b1").get().getAngle(); }),
                    attribute("v of a calculated bus", true, {{NaN, true}, {0, true}, {4, true}, {-1, false}}, [](Network& n, double v) { n.getVoltageLevel("n").getBusView().getBuses().begin()->setV(v); }, [](Network& n) { return n.getVoltageLevel("n").getBusView().getBuses().begin()->getV(); }),
                    attribute("angle of a calculated bus", true, any, [](Network& n, double v) { n.getVoltageLevel("n").getBusView().getBuses().begin()->setAngle(v); }, [](Network& n) { return n.getVoltageLevel("n").getBusView().getBuses().begin()->getAngle(); })};
    all.push_back(o);

    o = Object{};
    o.name = "switches";
    o.attributes = {attribute("retained in a bus level", true, {{1, false}, {0, false}}, [](Network& n, double v) { n.getSwitch("bswitch").setRetained(v != 0); }, [](Network& n) { return n.getSwitch("bswitch").isRetained(); }),
                    attribute("open in a bus level", true, {{0, true}, {1, true}}, [](Network& n, double v) { n.getSwitch("bswitch").setOpen(v != 0); }, [](Network& n) { return n.getSwitch("bswitch").isOpen(); }),
                    FLAG(true, getSwitch("breaker"), Open), FLAG(true, getSwitch("breaker"), Retained), FLAG(false, getSwitch("breaker"), Fictitious)};
    all.push_back(o);

    o = Object{};
    o.name = "battery";
    o.attributes = {ATTR(true, real, getBattery("battery"), P0), ATTR(true, real, getBattery("battery"), Q0), ATTR(false, low, getBattery("battery"), MinP), ATTR(false, high, getBattery("battery"), MaxP)};
    o.together = order("MinP", "MaxP");
    all.push_back(o);

    o = Object{};
    o.name = "generator";
    o.attributes = {ATTR(false, low, getGenerator("generator"), MinP), ATTR(false, high, getGenerator("generator"), MaxP), ATTR(true, real, getGenerator("generator"), TargetP), ATTR(true, target, getGenerator("generator"), TargetQ),
                    ATTR(true, voltage, getGenerator("generator"), TargetV), FLAG(true, getGenerator("generator"), VoltageRegulatorOn), ATTR(false, rated, getGenerator("generator"), RatedS),
                    regulatingAttribute([](Network& n, const stdcxx::Reference<Terminal>& t) { n.getGenerator("generator").setRegulatingTerminal(t); }, [](Network& n) -> const Terminal& { return n.getGenerator("generator").getRegulatingTerminal(); })};
    o.together = [order, control](const State& s) { return order("MinP", "MaxP")(s) && control("VoltageRegulatorOn", "TargetV", "TargetQ")(s); };
    all.push_back(o);

    o.name = "generator under its other names";
    o.attributes = {ATTR(true, real, getGenerator("generator"), ActivePowerSetpoint), ATTR(true, target, getGenerator("generator"), ReactivePowerSetpoint), ATTR(true, voltage, getGenerator("generator"), VoltageSetpoint), FLAG(true, getGenerator("generator"), VoltageRegulatorOn)};
    o.together = control("VoltageRegulatorOn", "VoltageSetpoint", "ReactivePowerSetpoint");
    all.push_back(o);

    o = Object{};
    o.name = "dangling line";
    o.attributes = {ATTR(true, real, getDanglingLine("dangling"), P0), ATTR(true, real, getDanglingLine("dangling"), Q0), ATTR(false, real, getDanglingLine("dangling"), R), ATTR(false, real, getDanglingLine("dangling"), X),
                    ATTR(false, real, getDanglingLine("dangling"), G), ATTR(false, real, getDanglingLine("dangling"), B)};
    all.push_back(o);

    o = Object{};
    o.name = "generation of a dangling line";
    o.attributes = {ATTR(false, low, getDanglingLine("dangling").getGeneration().get(), MinP), ATTR(false, high, getDanglingLine("dangling").getGeneration().get(), MaxP), ATTR(true, real, getDanglingLine("dangling").getGeneration().get(), TargetP),
                    ATTR(true, target, getDanglingLine("dangling").getGeneration().get(), TargetQ), ATTR(true, voltage, getDanglingLine("dangling").getGeneration().get(), TargetV), FLAG(true, getDanglingLine("dangling").getGeneration().get(), VoltageRegulationOn)};
    o.together = [order, control](const State& s) { return order("MinP", "MaxP")(s) && control("VoltageRegulationOn", "TargetV", "TargetQ")(s); };
    all.push_back(o);

    o = Object{};
    o.name = "static var compensator";
    using M = StaticVarCompensator::RegulationMode;
    const double off = static_cast<int>(M::OFF), vm = static_cast<int>(M::VOLTAGE), qm = static_cast<int>(M::REACTIVE_POWER);
    o.attributes = {ATTR(false, real, getStaticVarCompensator("svc"), Bmin), ATTR(false, real, getStaticVarCompensator("svc"), Bmax), ATTR(true, (std::vector<V>{{400, true}, {0, true}, {NaN, true}}), getStaticVarCompensator("svc"), VoltageSetpoint),
                    ATTR(true, target, getStaticVarCompensator("svc"), ReactivePowerSetpoint), ENUMERATION((std::vector<V>{{off, true}, {vm, true}, {qm, true}, {9, false}}), getStaticVarCompensator("svc"), RegulationMode, M),
                    regulatingAttribute([](Network& n, const stdcxx::Reference<Terminal>& t) { n.getStaticVarCompensator("svc").setRegulatingTerminal(t); }, [](Network& n) -> const Terminal& { return n.getStaticVarCompensator("svc").getRegulatingTerminal(); })};
    o.together = [vm, qm](const State& s) { return s.at("RegulationMode") == vm ? !std::isnan(s.at("VoltageSetpoint")) : s.at("RegulationMode") != qm || !std::isnan(s.at("ReactivePowerSetpoint")); };
    all.push_back(o);

    o = Object{};
    o.name = "converter stations";
    o.attributes = {ATTR(false, loss, getLccConverterStation("lcc"), LossFactor), ATTR(false, power, getLccConverterStation("lcc"), PowerFactor), attribute("LossFactor of the VSC", false, loss, [](Network& n, double v) { n.getVscConverterStation("vsc").setLossFactor(v); }, [](Network& n) { return n.getVscConverterStation("vsc").getLossFactor(); }),
                    ATTR(true, target, getVscConverterStation("vsc"), ReactivePowerSetpoint), ATTR(true, voltage, getVscConverterStation("vsc"), VoltageSetpoint), FLAG(true, getVscConverterStation("vsc"), VoltageRegulatorOn)};
    o.together = control("VoltageRegulatorOn", "VoltageSetpoint", "ReactivePowerSetpoint");
    all.push_back(o);

    o = Object{};
    o.name = "HVDC line";
    o.attributes = {ATTR(false, real, getHvdcLine("hvdc"), R), ATTR(false, nominal, getHvdcLine("hvdc"), NominalV), ATTR(false, (std::vector<V>{{10, true}, {0, true}, {-1, false}, {NaN, false}}), getHvdcLine("hvdc"), MaxP),
                    ATTR(true, (std::vector<V>{{10, true}, {0, true}, {-1, false}, {NaN, false}}), getHvdcLine("hvdc"), ActivePowerSetpoint),
                    ENUMERATION((std::vector<V>{{static_cast<double>(HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER), true}, {static_cast<double>(HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER), true}, {9, false}}), getHvdcLine("hvdc"), ConvertersMode, HvdcLine::ConvertersMode)};
    all.push_back(o);

    o = Object{};
    o.name = "line";
    o.attributes = {ATTR(false, real, getLine("line"), R), ATTR(false, real, getLine("line"), X), ATTR(false, real, getLine("line"), G1), ATTR(false, real, getLine("line"), G2), ATTR(false, real, getLine("line"), B1), ATTR(false, real, getLine("line"), B2)};
    all.push_back(o);

    o = Object{};
    o.name = "tie line";
    for (const char* name : {"R", "X", "G1", "G2", "B1", "B2"}) {
        const std::string w = name;
        const auto value = [w](const Line& l) { return w == "R" ? l.getR() : w == "X" ? l.getX() : w == "G1" ? l.getG1() : w == "G2" ? l.getG2() : w == "B1" ? l.getB1() : l.getB2(); };
        o.attributes.push_back(attribute(w, false, {{value(modifiable().getLine("tie")), false}, {5, false}}, [w](Network& n, double v) {
            Line& l = tie(n);
            if (w == "R") l.setR(v); else if (w == "X") l.setX(v); else if (w == "G1") l.setG1(v); else if (w == "G2") l.setG2(v); else if (w == "B1") l.setB1(v); else l.setB2(v);
        }, [value](Network& n) { return value(tie(n)); }));
    }
    all.push_back(o);

    o = Object{};
    o.name = "half line";
#define HALF(Name) attribute(#Name " of the half line", false, real, [](Network& n, double v) { tie(n).getHalf2().set##Name(v); }, [](Network& n) { return tie(n).getHalf2().get##Name(); })
    o.attributes = {HALF(R), HALF(X), HALF(G1), HALF(G2), HALF(B1), HALF(B2)};
    all.push_back(o);

    o = Object{};
    o.name = "two windings transformer";
    o.attributes = {ATTR(false, real, getTwoWindingsTransformer("two"), R), ATTR(false, real, getTwoWindingsTransformer("two"), X), ATTR(false, real, getTwoWindingsTransformer("two"), G), ATTR(false, real, getTwoWindingsTransformer("two"), B),
                    ATTR(false, real, getTwoWindingsTransformer("two"), RatedU1), ATTR(false, real, getTwoWindingsTransformer("two"), RatedU2), ATTR(false, rated, getTwoWindingsTransformer("two"), RatedS)};
    all.push_back(o);

    o = Object{};
    for (unsigned leg = 1; leg <= 3; ++leg) {
        o.name = "leg " + mc::str(leg);
        const auto get = [leg](Network& n) -> ThreeWindingsTransformer::Leg& { auto& t = n.getThreeWindingsTransformer("three"); return leg == 1 ? t.getLeg1() : leg == 2 ? t.getLeg2() : t.getLeg3(); };
#define LEG(Values, Name) attribute(#Name, false, Values, [get](Network& n, double v) { get(n).set##Name(v); }, [get](Network& n) { return get(n).get##Name(); })
        o.attributes = {LEG(real, R), LEG(real, X), LEG(real, G), LEG(real, B), LEG(real, RatedU), LEG(rated, RatedS)};
        all.push_back(o);
    }

    o = Object{};
    o.name = "shunt compensator";
    o.attributes = {ATTR(true, (std::vector<V>{{1, true}, {0, true}, {2, true}, {3, false}}), getShuntCompensator("shunt"), SectionCount), ATTR(true, voltage, getShuntCompensator("shunt"), TargetV), ATTR(true, deadband, getShuntCompensator("shunt"), TargetDeadband),
                    FLAG(true, getShuntCompensator("shunt"), VoltageRegulatorOn),
                    regulatingAttribute([](Network& n, const stdcxx::Reference<Terminal>& t) { n.getShuntCompensator("shunt").setRegulatingTerminal(t); }, [](Network& n) -> const Terminal& { return n.getShuntCompensator("shunt").getRegulatingTerminal(); })};
    o.together = [](const State& s) { return s.at("VoltageRegulatorOn") != 1 || (s.at("TargetV") > 0 && !std::isnan(s.at("TargetDeadband"))); };
    all.push_back(o);
    return all;
}

class Modification : public mc::System {
public:
    explicit Modification(const Object& o) : m_object(o) {
        for (size_t i = 0; i < o.attributes.size(); ++i)
            for (unsigned c = 0; c < o.attributes[i].texts.size(); ++c) m_ops.push_back({i, c});
        for (auto& p : m_picks) p.assign(o.attributes.size(), 0);
    }
    static std::string opName(const Object& o, unsigned op) {
        for (const auto& a : o.attributes) {
            if (op < a.texts.size()) return a.name + " = " + (a.texts[op].empty() ? "refused" : a.texts[op]);
            op -= static_cast<unsigned>(a.texts.size());
        }
        return "switch variant";
    }
    static unsigned count(const Object& o) {
        unsigned n = 1;
        for (const auto& a : o.attributes) n += static_cast<unsigned>(a.texts.size());
        return n;
    }
    bool apply(unsigned op, mc::Run& run) override {
        run.transition();
        if (op == m_ops.size()) {
            m_working = 1 - m_working;
            m_world.network.getVariantManager().setWorkingVariant(m_working == 0 ? INITIAL : "v");
            return true;
        }
        const auto& a = m_object.attributes[m_ops[op].first];
        const unsigned c = m_ops[op].second;
        const auto stateIn = [&](unsigned variant) {
            State s;
            for (size_t i = 0; i < m_object.attributes.size(); ++i) {
                const auto& b = m_object.attributes[i];
                s[b.name] = b.v[&a == &b ? c : m_picks[variant][i]];
            }
            return s;
        };
        const bool valid = a.ok[c] && m_object.valid(stateIn(m_working)) && (a.perVariant || m_object.valid(stateIn(1 - m_working)));
        std::string before;
        if (!valid) before = observe();
        std::string what;
        const bool ok = mc::accepted([&]() { a.set(m_world, c); }, &what);
        MC_CHECK(run, ok == valid, a.name << " = " << a.texts[c] << (ok ? " accepted" : " refused: " + what));
        if (!ok) {
            const std::string after = observe();
            MC_CHECK(run, before == after, "the refused modification (" << what << ") changed the network");
            return true;
        }
        m_picks[m_working][m_ops[op].first] = c;
        if (!a.perVariant) m_picks[1 - m_working][m_ops[op].first] = c;
        return true;
    }
    void check(mc::Run& run) override {
        auto& vm = m_world.network.getVariantManager();
        for (unsigned variant : {1 - m_working, m_working}) {
            vm.setWorkingVariant(variant == 0 ? INITIAL : "v");
            for (size_t i = 0; i < m_object.attributes.size(); ++i) {
                const auto& a = m_object.attributes[i];
                const std::string got = a.get(m_world.network);
                MC_CHECK(run, got == a.texts[m_picks[variant][i]], a.name << " of the " << m_object.name << " is " << got << " instead of " << a.texts[m_picks[variant][i]] << " in variant " << variant);
            }
        }
    }
    std::string key() override {
        std::string r = mc::str(m_working);
        for (const auto& p : m_picks)
            for (unsigned c : p) r += static_cast<char>('a' + c);
        return r;
    }

private:
    std::string observe() {
        const std::string r = ::observe(m_world.network, m_object.name == "switches");
        m_world.network.getVariantManager().setWorkingVariant(m_working == 0 ? INITIAL : "v");
        return r;
    }
    Object m_object;
    std::vector<std::pair<size_t, unsigned>> m_ops;
    Mod m_world;
    unsigned m_working = 0;
    std::vector<unsigned> m_picks[2];
};

void modifications(bool thorough, std::vector<mc::Space>& spaces) {
    static const std::vector<Object> all = objects();
    for (const auto& o : all) {
        const unsigned n = Modification::count(o);
        unsigned depth = (thorough ? 4 : 3) - (o.together ? 0 : 1);
        while (depth > 2 && std::pow(n, depth) > (thorough ? 2000000 : 40000)) --depth;
        spaces.push_back(mc::sequences("modifications of the " + o.name, n, depth, mc::Queries::EACH, [&o]() { return std::unique_ptr<mc::System>(new Modification(o)); }, [&o](unsigned op) { return Modification::opName(o, op); }));
    }
}

// ------------------------------------------------------------------------------------------------ every other request

// requests that are refused or accepted depending on what precedes them: the only requirement is that a refused one changes
// nothing and that nothing accepted prevents the network from being read
struct Request {
    std::string name;
    std::function<void(Network&)> run;
};

template <typename F>
void overTapChangers(std::vector<Request>& r, const std::string& name, F find) {
    using Mode = PhaseTapChanger::RegulationMode;
    const auto add = [&](const std::string& what, const std::function<void(Network&)>& f) { r.push_back({name + ": " + what, f}); };
    for (long low : {0L, 1L}) for (long tap : {-1L, 0L, 1L, 2L, 3L}) for (unsigned steps : {0U, 2U}) for (int control : {0, 1, 2, 3, 4}) {
        add("new ratio " + mc::str(low) + " " + mc::str(tap) + " " + mc::str(steps) + " " + mc::str(control), [=](Network& n) {
            auto a = find(n).newRatioTapChanger();
            a.setLowTapPosition(low).setTapPosition(tap).setLoadTapChangingCapabilities(true).setRegulating(control > 0);
            if (control != 1) a.setTargetV(control == 4 ? -1 : 400);
            if (control != 2) a.setRegulationTerminal(stdcxx::ref(n.getLoads().begin()->getTerminal()));
            if (control != 3) a.setTargetDeadband(1);
            for (unsigned i = 0; i < steps; ++i) a.beginStep().setRho(1).setR(0).setX(0).setG(0).setB(0).endStep();
            a.add();
        });
        add("new phase " + mc::str(low) + " " + mc::str(tap) + " " + mc::str(steps) + " " + mc::str(control), [=](Network& n) {
            auto a = find(n).newPhaseTapChanger();
            a.setLowTapPosition(low).setTapPosition(tap).setRegulating(control > 0).setRegulationMode(control == 4 ? Mode::FIXED_TAP : Mode::CURRENT_LIMITER);
            if (control != 1) a.setRegulationValue(400);
            if (control != 2) a.setRegulationTerminal(stdcxx::ref(n.getLoads().begin()->getTerminal()));
            if (control != 3) a.setTargetDeadband(1);
            for (unsigned i = 0; i < steps; ++i) a.beginStep().setAlpha(1).setRho(1).setR(0).setX(0).setG(0).setB(0).endStep();
            a.add();
        });
    }
    for (unsigned missing = 1; missing <= 6; ++missing) {
        add("new ratio with a step without value " + mc::str(missing), [=](Network& n) {
            auto a = find(n).newRatioTapChanger();
            a.setLowTapPosition(0).setTapPosition(0).setLoadTapChangingCapabilities(false).setRegulating(false);
            auto s = a.beginStep();
            if (missing != 1) s.setRho(1);
            if (missing != 2) s.setR(1);
            if (missing != 3) s.setX(1);
            if (missing != 4) s.setG(1);
            if (missing != 5) s.setB(1);
            s.endStep();
            a.add();
        });
        add("new phase with a step without value " + mc::str(missing), [=](Network& n) {
            auto a = find(n).newPhaseTapChanger();
            a.setLowTapPosition(0).setTapPosition(0).setRegulating(false);
            auto s = a.beginStep();
            if (missing != 1) s.setRho(1);
            if (missing != 2) s.setR(1);
            if (missing != 3) s.setX(1);
            if (missing != 4) s.setG(1);
            if (missing != 5) s.setB(1);
            if (missing != 6) s.setAlpha(1);
            s.endStep();
            a.add();
        });
    }
    for (long tap : {-1L, 0L, 1L, 7L}) {
        add("ratio tap " + mc::str(tap), [=](Network& n) { find(n).getRatioTapChanger().setTapPosition(tap); });
        add("phase tap " + mc::str(tap), [=](Network& n) { find(n).getPhaseTapChanger().setTapPosition(tap); });
        add("ratio low " + mc::str(tap), [=](Network& n) { find(n).getRatioTapChanger().setLowTapPosition(tap); });
        add("phase low " + mc::str(tap), [=](Network& n) { find(n).getPhaseTapChanger().setLowTapPosition(tap); });
    }
    for (bool b : {false, true}) {
        add("ratio regulating " + mc::str(b), [=](Network& n) { find(n).getRatioTapChanger().setRegulating(b); });
        add("phase regulating " + mc::str(b), [=](Network& n) { find(n).getPhaseTapChanger().setRegulating(b); });
        add("ratio on load " + mc::str(b), [=](Network& n) { find(n).getRatioTapChanger().setLoadTapChangingCapabilities(b); });
    }
    for (double v : {400., 0., -1., NaN}) {
        add("ratio target " + mc::str(v), [=](Network& n) { find(n).getRatioTapChanger().setTargetV(v); });
        add("ratio deadband " + mc::str(v), [=](Network& n) { find(n).getRatioTapChanger().setTargetDeadband(v); });
        add("phase value " + mc::str(v), [=](Network& n) { find(n).getPhaseTapChanger().setRegulationValue(v); });
        add("phase deadband " + mc::str(v), [=](Network& n) { find(n).getPhaseTapChanger().setTargetDeadband(v); });
    }
    for (int m : {0, 1, 2}) add("phase mode " + mc::str(m), [=](Network& n) { find(n).getPhaseTapChanger().setRegulationMode(static_cast<Mode>(m)); });
    for (bool b : {false, true}) {
        add(std::string("ratio terminal ") + (b ? "none" : "foreign"), [=](Network& n) { static Network other = base("foreign"); find(n).getRatioTapChanger().setRegulationTerminal(b ? stdcxx::Reference<Terminal>() : stdcxx::ref(other.getLoad("far").getTerminal())); });
        add(std::string("phase terminal ") + (b ? "none" : "foreign"), [=](Network& n) { static Network other = base("foreign"); find(n).getPhaseTapChanger().setRegulationTerminal(b ? stdcxx::Reference<Terminal>() : stdcxx::ref(other.getLoad("far").getTerminal())); });
    }
    add("remove ratio", [=](Network& n) { find(n).getRatioTapChanger().remove(); });
    add("remove phase", [=](Network& n) { find(n).getPhaseTapChanger().remove(); });
}

template <typename F, typename N>
void overLimits(std::vector<Request>& r, const std::string& name, F find, N make) {
    (void)find;
    const auto add = [&](const std::string& what, const std::function<void(Network&)>& f) { r.push_back({name + ": " + what, f}); };
    for (double p : {100., 0., -1., NaN}) for (unsigned missing = 0; missing <= 6; ++missing) {
        add("limits " + mc::str(p) + " " + mc::str(missing), [=](Network& n) {
            auto a = make(n);
            a.setPermanentLimit(p);
            if (missing < 6) {
                auto t = a.beginTemporaryLimit();
                if (missing != 1) t.setName("t");
                if (missing != 2) t.setValue(missing == 5 ? -1 : 200);
                if (missing != 3) t.setAcceptableDuration(60);
                if (missing == 4) t.setName("");
                t.endTemporaryLimit();
            }
            a.add();
        });
    }
}

std::vector<Request> transformerRequests(bool leg) {
    std::vector<Request> r;
    if (leg) {
        const auto find = [](Network& n) -> ThreeWindingsTransformer::Leg& { return n.getThreeWindingsTransformer("three").getLeg2(); };
        overTapChangers(r, "leg 2", find);
    } else {
        const auto find = [](Network& n) -> TwoWindingsTransformer& { return n.getTwoWindingsTransformer("two"); };
        overTapChangers(r, "transformer", find);
    }
    return r;
}

template <typename H>
void overReactiveLimits(std::vector<Request>& r, const std::string& name, H holder) {
    for (double lo : {-1., 5., NaN}) for (double hi : {-2., 2., NaN})
        r.push_back({name + ": reactive limits " + mc::str(lo) + " " + mc::str(hi), [=](Network& n) { holder(n).newMinMaxReactiveLimits().setMinQ(lo).setMaxQ(hi).add(); }});
    for (unsigned points = 0; points <= 3; ++points)
        for (unsigned fault = 0; fault <= 4; ++fault)
            r.push_back({name + ": curve of " + mc::str(points) + " points, fault " + mc::str(fault), [=](Network& n) {
                auto a = holder(n).newReactiveCapabilityCurve();
                for (unsigned i = 0; i < points; ++i) {
                    auto p = a.beginPoint();
                    const bool last = i + 1 == points;
                    if (!last || fault != 1) p.setP(last && fault == 4 ? 0 : i);
                    if (!last || fault != 2) p.setMinQ(last && fault == 4 ? -9 : -1);
                    if (!last || fault != 3) p.setMaxQ(1);
                    p.endPoint();
                }
                a.add();
            }});
}

std::vector<Request> otherRequests() {
    std::vector<Request> r;
    const auto add = [&](const std::string& what, const std::function<void(Network&)>& f) { r.push_back({what, f}); };
    overLimits(r, "line, side 1, current", 0, [](Network& n) { return n.getLine("L1").newCurrentLimits1(); });
    overLimits(r, "line, side 2, active", 0, [](Network& n) { return n.getLine("L1").newActivePowerLimits2(); });
    overLimits(r, "dangling line, apparent", 0, [](Network& n) { return n.getDanglingLine("DL1").newApparentPowerLimits(); });
    overLimits(r, "leg 2, current", 0, [](Network& n) { return n.getThreeWindingsTransformer("T3").getLeg2().newCurrentLimits(); });
    overLimits(r, "transformer, side 1, current", 0, [](Network& n) { return n.getTwoWindingsTransformer("T1").newCurrentLimits1(); });
    for (double v : {100., 0., -1., NaN}) add("permanent limit of a line " + mc::str(v), [v](Network& n) { n.getLine("L1").getCurrentLimits1().get().setPermanentLimit(v); });
    overReactiveLimits(r, "generator", [](Network& n) -> ReactiveLimitsHolder& { return n.getGenerator("G1"); });
    overReactiveLimits(r, "battery", [](Network& n) -> ReactiveLimitsHolder& { return n.getBattery("BAT1"); });
    for (const char* a : {"", "L1", "S1", "fresh"}) {
        const std::string alias = a;
        for (const char* type : {"", "t"}) {
            const std::string t = type;
            add("alias '" + alias + "' of type '" + t + "'", [=](Network& n) { if (t.empty()) n.getLoad("LD1").addAlias(alias); else n.getLoad("LD1").addAlias(alias, t); });
        }
        add("remove alias '" + alias + "'", [=](Network& n) { n.getLoad("LD1").removeAlias(alias); });
    }
    std::vector<std::string> everything;
    {
        Network n = net::full();
        for (const auto& i : n.getIdentifiables()) everything.push_back(i.getId());
    }
    for (const auto& id : everything) {
        add("remove " + id, [id](Network& n) {
            Identifiable& i = n.getIdentifiable(id);
            if (auto* c = dynamic_cast<Connectable*>(&i)) c->remove();
            else if (auto* s = dynamic_cast<Substation*>(&i)) s->remove();
            else if (auto* v = dynamic_cast<VoltageLevel*>(&i)) v->remove();
            else if (auto* h = dynamic_cast<HvdcLine*>(&i)) h->remove();
            else if (auto* b = dynamic_cast<Bus*>(&i)) b->getVoltageLevel().getBusBreakerView().removeBus(id);
            else if (auto* w = dynamic_cast<Switch*>(&i)) { if (w->getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) w->getVoltageLevel().getNodeBreakerView().removeSwitch(id); else w->getVoltageLevel().getBusBreakerView().removeSwitch(id); }
        });
        add("alias of another type on " + id, [id](Network& n) { n.getIdentifiable(id).addAlias("LD1"); });
    }
    for (const char* v : {"VN1", "VB1"}) {
        const std::string level = v;
        for (const char* s : {"", "nothing", "L1", "CPL"}) {
            const std::string id = s;
            add(level + ": remove the switch '" + id + "' of the nodes", [=](Network& n) { n.getVoltageLevel(level).getNodeBreakerView().removeSwitch(id); });
            add(level + ": remove the switch '" + id + "' of the buses", [=](Network& n) { n.getVoltageLevel(level).getBusBreakerView().removeSwitch(id); });
            add(level + ": remove the bus '" + id + "'", [=](Network& n) { n.getVoltageLevel(level).getBusBreakerView().removeBus(id); });
        }
        add(level + ": remove an unknown internal connection", [=](Network& n) { n.getVoltageLevel(level).getNodeBreakerView().removeInternalConnections(77, 78); });
        add(level + ": remove all the buses", [=](Network& n) { n.getVoltageLevel(level).getBusBreakerView().removeAllBuses(); });
        add(level + ": remove all the switches", [=](Network& n) { n.getVoltageLevel(level).getBusBreakerView().removeAllSwitches(); });
        add(level + ": new bus", [=](Network& n) { n.getVoltageLevel(level).getBusBreakerView().newBus().setId("fresh").add(); });
        add(level + ": new switch of the buses", [=](Network& n) { n.getVoltageLevel(level).getBusBreakerView().newSwitch().setId("fresh").setBus1("BB1").setBus2("BB2").add(); });
        add(level + ": new switch of the nodes", [=](Network& n) { n.getVoltageLevel(level).getNodeBreakerView().newBreaker().setId("fresh").setNode1(70).setNode2(71).add(); });
        add(level + ": new busbar section", [=](Network& n) { n.getVoltageLevel(level).getNodeBreakerView().newBusbarSection().setId("fresh").setNode(72).add(); });
    }
    for (const char* a : {"", "InitialVariant", "nothing", "v"}) {
        const std::string v = a;
        add("remove the variant '" + v + "'", [v](Network& n) { n.getVariantManager().removeVariant(v); });
        add("select the variant '" + v + "'", [v](Network& n) { n.getVariantManager().setWorkingVariant(v); n.getVariantManager().setWorkingVariant("InitialVariant"); });
        for (const char* b : {"", "InitialVariant", "v", "w"}) {
            const std::string w = b;
            for (bool overwrite : {false, true}) add("clone the variant '" + v + "' to '" + w + "'" + (overwrite ? " overwriting" : ""), [=](Network& n) { n.getVariantManager().cloneVariant(v, w, overwrite); });
            add("clone the variant '" + v + "' to x and '" + w + "'", [=](Network& n) { n.getVariantManager().cloneVariant(v, {"x", w}); });
        }
    }
    for (const auto& id : everything)
        for (const char* key : {"", "k"}) {
            const std::string k = key;
            add("property '" + k + "' of " + id, [=](Network& n) { n.getIdentifiable(id).setProperty(k, "v"); });
        }
    return r;
}

// aliases with and without types, alone and after one another
std::vector<Request> aliasRequests() {
    std::vector<Request> r;
    for (const char* owner : {"LD1", "L1"})
        for (const char* a : {"", "L1", "S1", "a1", "a2"}) {
            const std::string id = owner, alias = a;
            for (const char* type : {"", "t", "u"}) {
                const std::string t = type;
                r.push_back({"alias '" + alias + "' of type '" + t + "' on " + id, [=](Network& n) { if (t.empty()) n.getIdentifiable(id).addAlias(alias); else n.getIdentifiable(id).addAlias(alias, t); }});
            }
            r.push_back({"no alias '" + alias + "' on " + id, [=](Network& n) { n.getIdentifiable(id).removeAlias(alias); }});
        }
    return r;
}

std::string fullText(Network& n) {
    std::string r;
    auto& vm = n.getVariantManager();
    std::vector<std::string> variants;
    for (const auto& v : vm.getVariantIds()) variants.push_back(v);
    std::sort(variants.begin(), variants.end());
    const std::string working = vm.getWorkingVariantId();
    for (const auto& v : variants) {
        vm.setWorkingVariant(v);
        r += "## " + v + "\n" + net::flat(net::dump(n));
    }
    vm.setWorkingVariant(working);
    return r + "working " + working;
}

mc::Space requests(const std::string& name, const std::vector<Request>& list, const std::function<Network()>& make, bool pairs) {
    mc::Space s;
    s.name = "requests on the " + name;
    s.size = list.size();
    s.describe = [list](uint64_t i) { return list[i].name; };
    s.run = [list, make, pairs](uint64_t i, mc::Run& run) {
        run.step(list[i].name);
        std::string before, what;
        {
            Network n = make();
            before = fullText(n);
            run.transition();
            const bool ok = mc::accepted([&]() { list[i].run(n); }, &what);
            const std::string after = fullText(n);
            run.state(after);
            run.trace();
            if (!ok) {
                MC_CHECK(run, before == after, "the refused request (" << what << ") changed the network");
                return;
            }
            before = after;
        }
        if (!pairs) return;
        for (const auto& second : list) {
            Network n = make();
            run.transition(2);
            mc::accepted([&]() { list[i].run(n); });
            if (mc::accepted([&]() { second.run(n); }, &what)) continue;
            run.step(list[i].name + ", then " + second.name);
            MC_CHECK(run, before == fullText(n), "the refused request (" << what << ") changed the network");
            run.trace();
        }
    };
    return s;
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C11";
    c.level = "model_checking";
    c.assumptions = {"a request may be refused with any exception derived from std::exception",
                     "the validity rules are those of ValidationUtils, applied to creations and modifications alike"};
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& spaces) {
        net::loadExtensions();
        creations(thorough, spaces);
        modifications(thorough, spaces);
        spaces.push_back(requests("two windings transformer", transformerRequests(false), []() { return modifiable(); }, true));
        spaces.push_back(requests("leg of a three windings transformer", transformerRequests(true), []() { return modifiable(); }, true));
        spaces.push_back(requests("aliases", aliasRequests(), []() { Network n = net::full(); n.getVariantManager().cloneVariant(INITIAL, "v"); return n; }, true));
        spaces.push_back(requests("whole network", otherRequests(), []() { Network n = net::full(); n.getVariantManager().cloneVariant(INITIAL, "v"); return n; }, thorough));
    });
}
