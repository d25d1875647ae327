// C16: a moved network is the same network. A history is executed on two networks, one of which is moved into another
// object (and the object it was moved from destroyed) at chosen points; both must show the same afterwards.
#include "state.hpp"
#include "topo.hpp"

using namespace powsybl::iidm;  // NOLINT
using topo::World;
using Op = World::Op;

namespace {

const char* INIT = "InitialVariant";

// an extension of the network itself
class Note : public Extension {
public:
    Note(Network& n, const std::string& text) : Extension(n), m_text(text) {}
    const std::string& getName() const override { static const std::string N = "note"; return N; }
    const std::type_index& getType() const override { static const std::type_index T = typeid(Note); return T; }
    const std::string& text() const { return m_text; }

private:
    void assertExtendable(const stdcxx::Reference<Extendable>& e) const override {
        if (e && !stdcxx::isInstanceOf<Network>(e.get())) throw powsybl::PowsyblException("a note belongs to a network");
    }
    std::string m_text;
};

const std::vector<std::string>& names() {
    static const std::vector<std::string> N = {
        "move", "write 1", "write 2", "clone(Initial,a)", "clone(Initial,b)", "overwrite(a,Initial)", "select(a)", "select(Initial)", "remove(a)", "remove(b)",
        "create equipment", "remove equipment", "thread local selection", "aliases", "remove aliases", "properties", "note", "remove note", "remove VB2"};
    return N;
}

struct Subject {
    std::unique_ptr<Network> n;
    explicit Subject() : n(new Network(net::full())) {}

    bool has(const std::string& v) const { return n->getVariantManager().getVariantIds().count(v) != 0; }

    // false when the request is not applicable
    bool apply(unsigned op) {
        VariantManager& vm = n->getVariantManager();
        switch (op) {
            case 0: { std::unique_ptr<Network> o(new Network(std::move(*n))); n = std::move(o); return true; }
            case 1: case 2: net::write(*n, static_cast<int>(op)); return true;
            case 3: vm.cloneVariant(INIT, "a", true); return true;
            case 4: vm.cloneVariant(INIT, "b", true); return true;
            case 5: if (!has("a")) return false; vm.cloneVariant("a", INIT, true); return true;
            case 6: if (!has("a")) return false; vm.setWorkingVariant("a"); return true;
            case 7: vm.setWorkingVariant(INIT); return true;
            case 8: if (!has("a")) return false; vm.removeVariant("a"); return true;
            case 9: if (!has("b")) return false; vm.removeVariant("b"); return true;
            case 10: if (n->find<Load>("NLD")) return false; net::create(*n); return true;
            case 11: if (!n->find<Load>("LD2")) return false; net::removeSome(*n); return true;
            case 12: vm.allowVariantMultiThreadAccess(!vm.isVariantMultiThreadAccessAllowed()); return true;
            case 13:
                n->addAlias("network alias");
                n->addAlias("typed network alias", "type");
                n->getSubstation("S1").addAlias("substation alias");
                n->getLoad("LD1").addAlias("load alias", "type");
                n->getHvdcLine("HVDC1").addAlias("hvdc alias");
                return true;
            case 14: if (!n->getLoad("LD1").hasAliases()) return false;
                for (const std::string& a : n->getLoad("LD1").getAliases()) { n->getLoad("LD1").removeAlias(std::string(a)); break; }
                for (const std::string& a : n->getAliases()) { n->removeAlias(std::string(a)); break; }
                return true;
            case 15: n->setProperty("p", n->hasProperty("p") ? "second" : "first"); n->getSubstation("S2").setProperty("q", "r"); n->setForecastDistance(n->getForecastDistance() + 5); return true;
            case 16: n->addExtension(std::unique_ptr<Extension>(new Note(*n, n->findExtension<Note>() ? "second" : "first"))); return true;
            case 17: if (!n->findExtension<Note>()) return false; n->removeExtension<Note>(); return true;
            case 18: {
                if (!n->find<VoltageLevel>("VB2")) return false;
                VoltageLevel& v = n->getVoltageLevel("VB2");
                std::vector<std::string> hv, ids;
                for (HvdcLine& h : n->getHvdcLines()) hv.push_back(h.getId());
                for (const auto& id : hv) n->getHvdcLine(id).remove();
                for (Connectable& c : v.getConnectables()) ids.push_back(c.getId());
                for (const auto& id : ids) dynamic_cast<Connectable&>(n->getIdentifiable(id)).remove();
                v.remove();
                return true;
            }
            default: return false;
        }
    }
};

struct Shown {
    std::map<std::string, net::Snapshot> variants;
    std::string working, xml, lookups;
};

// everything that refers to its owner refers to the network that is observed
std::string owners(Network& n) {
    std::ostringstream bad;
    for (Identifiable& i : n.getIdentifiables()) if (std::addressof(i.getNetwork()) != std::addressof(n)) bad << i.getId() << " belongs to another network; ";
    if (std::addressof(n.getNetwork()) != std::addressof(n)) bad << "the network belongs to another network; ";
    if (std::addressof(n.getIdentifiable(n.getId())) != static_cast<Identifiable*>(std::addressof(n))) bad << "the network is not found by its own id; ";
    if (n.findExtension<Note>() && std::addressof(n.getExtension<Note>().getExtendable<Network>().get()) != std::addressof(n)) bad << "the extension belongs to another network; ";
    for (Terminal& t : n.getLoad("LD1").getTerminals()) if (std::addressof(t.getVoltageLevel().getNetwork()) != std::addressof(n)) bad << "terminal of another network; ";
    for (Bus& b : n.getBusView().getBuses()) {
        if (std::addressof(b.getVoltageLevel().getNetwork()) != std::addressof(n)) bad << "bus of another network; ";
        for (auto c : {b.getConnectedComponent(), b.getSynchronousComponent()}) {
            if (!c) continue;
            bool found = false;
            for (Bus& x : c.get().getBuses()) found = found || std::addressof(x) == std::addressof(b);
            if (!found) bad << "bus " << b.getId() << " not in its component; ";
        }
    }
    return bad.str();
}

Shown show(Network& n) {
    Shown s;
    VariantManager& vm = n.getVariantManager();
    if (!mc::accepted([&] { s.working = vm.getWorkingVariantId(); })) s.working = "-";
    for (const std::string& v : vm.getVariantIds()) {
        vm.setWorkingVariant(v);
        s.variants[v] = net::dump(n);
        s.lookups += owners(n);
    }
    vm.setWorkingVariant(INIT);
    s.xml = net::writeXml(n);
    if (s.working != "-") vm.setWorkingVariant(s.working);
    for (const char* id : {"network alias", "typed network alias", "substation alias", "load alias", "hvdc alias", "LD1", "VN1", "HVDC1", "full"}) {
        auto i = n.find<Identifiable>(id);
        s.lookups += i ? i.get().getId() + ";" : std::string("-;");
    }
    auto note = n.findExtension<Note>();
    if (note) s.lookups += "note:" + note.get().text();
    s.lookups += std::string(vm.isVariantMultiThreadAccessAllowed() ? " mt" : " st");
    return s;
}

std::string compare(const Shown& a, const Shown& b) {
    if (a.working != b.working) return "the working variant is " + b.working + " instead of " + a.working;
    for (auto& v : a.variants) {
        auto it = b.variants.find(v.first);
        if (it == b.variants.end()) return "no variant " + v.first;
        std::string d = net::diff(v.second, it->second);
        if (!d.empty()) return "variant " + v.first + ": " + d;
    }
    if (a.variants.size() != b.variants.size()) return "more variants than expected";
    if (a.lookups != b.lookups) return "lookups " + b.lookups + " instead of " + a.lookups;
    if (a.xml != b.xml) return "the exported documents differ";
    return "";
}

// what a network that never moved shows; none when one of the requests is not applicable or refused
const Shown* reference(const std::vector<unsigned>& ops) {
    static std::map<std::vector<unsigned>, std::unique_ptr<Shown>> cache;
    auto it = cache.find(ops);
    if (it == cache.end()) {
        std::unique_ptr<Shown> r(new Shown());
        Subject s;
        for (unsigned op : ops) {
            bool ok = false;
            if (!mc::accepted([&] { ok = s.apply(op); }) || !ok) { r.reset(); break; }
        }
        if (r) *r = show(*s.n);
        if (cache.size() > 400) cache.clear();
        it = cache.emplace(ops, std::move(r)).first;
    }
    return it->second.get();
}

// all the histories of `depth` requests with at least one move, after a prefix; when `warm`, everything is observed
// before the first request too (caches of buses and components are filled)
mc::Space histories(const std::string& name, unsigned depth, const std::vector<unsigned>& prefix, bool warm) {
    mc::Space s;
    s.name = name;
    unsigned k = static_cast<unsigned>(names().size());
    std::vector<unsigned> dims(depth, k);
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { std::string r; for (unsigned o : mc::decode(i, dims)) r += names()[o] + ", "; return r; };
    s.run = [dims, prefix, warm](uint64_t i, mc::Run& run) {
        auto ops = mc::decode(i, dims);
        if (std::count(ops.begin(), ops.end(), 0u) == 0) return;
        std::vector<unsigned> still = prefix;
        for (unsigned o : ops) if (o) still.push_back(o);
        const Shown* expected = reference(still);
        if (!expected) return;
        Subject s;
        for (unsigned o : prefix) s.apply(o);
        if (warm) net::dump(*s.n);
        for (unsigned o : ops) {
            run.step(names()[o]);
            run.transition();
            s.apply(o);
        }
        Shown actual = show(*s.n);
        std::string bad = owners(*s.n);
        MC_CHECK(run, bad.empty(), bad);
        bad = compare(*expected, actual);
        MC_CHECK(run, bad.empty(), bad);
        run.trace();
        run.state(expected->xml + expected->working + expected->lookups);
    };
    return s;
}

// ---- topology in lock step with the reference model -------------------------------------------------------------------

#define OP(name, expr) ops.push_back({name, [](World& w, mc::Run& run) -> bool { (void)run; return expr; }})

void base(World& w) {
    w.substation("S1");
    w.vl("VA", "S1", false);
    w.vl("VC", "S1", true);
    w.bus("VA", "A1");
    w.bus("VA", "A2");
    w.sw("VA", "SA", "A1", "A2", false);
    w.eq('H', "BBS", "VC", 0);
    w.sw("VC", "SC1", 'B', 0, 1, false, true);
    w.sw("VC", "SC2", 'B', 0, 2, true, false);
    w.eq('L', "LC", "VC", 2);
    w.eq('X', "VSC1", "VA", -1, "A1");
    w.eq('X', "VSC2", "VC", 4);
    w.ic("VC", 4, 0);
    w.branch('N', "L1", {"VA", "VC"}, {"A2", "1"});
    w.hvdc("H1", "VSC1", "VSC2");
}

std::vector<Op> topologyOps() {
    std::vector<Op> ops;
    OP("move", w.move());
    OP("toggle(SA)", w.toggle("SA"));
    OP("toggle(SC1)", w.toggle("SC1"));
    OP("toggle(SC2)", w.toggle("SC2"));
    OP("toggleRetained(SC2)", w.toggleRetained("SC2"));
    OP("disconnect(L1,1)", w.disconnect("L1", 1, run));
    OP("connect(L1,1)", w.connect("L1", 1, run));
    OP("moveTo(L1,1,A1)", w.moveTo("L1", 1, "A1"));
    OP("setV(L1,2)", w.setV("L1", 2, 2, 401));
    OP("remove(L1)", w.remove("L1"));
    OP("removeHvdc(H1)", w.removeHvdc("H1"));
    OP("addDangling(D)", w.eq('D', "D", "VC", 5));
    OP("addSwitch(SC5)", w.sw("VC", "SC5", 'B', 5, 0, false, false));
    OP("removeSwitch(SC1)", w.removeSw("SC1"));
    OP("removeSwitch(SA)", w.removeSw("SA"));
    OP("addVoltageLevel(VE)", (w.m.vls.count("VE") ? false : (w.vl("VE", "S1", false), w.bus("VE", "E1"), w.eq('D', "DE", "VE", -1, "E1"))));
    OP("clone(Initial,v1)", w.clone(INIT, "v1", true, run));
    OP("clone(v1,Initial)", w.clone("v1", INIT, true, run));
    OP("select(v1)", w.select("v1"));
    OP("select(Initial)", w.select(INIT));
    OP("clone(Initial,v2)", w.clone(INIT, "v2", true, run));
    OP("removeVariant(v1)", w.removeVariant("v1"));
    return ops;
}

const std::vector<Op> TOPOLOGY = topologyOps();

mc::Space topologies(const std::string& name, unsigned depth, mc::Queries q) {
    return mc::sequences(name, static_cast<unsigned>(TOPOLOGY.size()), depth, q, [] {
        std::unique_ptr<World> w(new World());
        base(*w);
        w->ops = &TOPOLOGY;
        return std::unique_ptr<mc::System>(std::move(w));
    }, [](unsigned i) { return TOPOLOGY[i].first; });
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C16";
    c.level = "model_checking";
    c.assumptions = {"one network holding every kind of equipment in both topology kinds, and topologies of two voltage levels", "histories up to the depths given in the space names"};
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        unsigned d = thorough ? 4 : 3;
        s.push_back(histories("a move and a request", 2, {}, true));
        s.push_back(histories("histories with moves, three variants", d - 1, {3, 4, 6, 1}, true));
        s.push_back(histories("histories with moves, removed variant", d - 1, {3, 4, 8}, false));
        s.push_back(histories("histories with moves", d, {}, false));
        s.push_back(histories("histories with moves, aliases and extension", d - 1, {13, 16, 15, 10}, false));
        s.push_back(histories("histories with moves, working variant removed", d - 1, {3, 6, 8}, false));
        s.push_back(topologies("topology histories", d - 1, mc::Queries::ALL));
        s.push_back(topologies("topology histories, deeper", d, mc::Queries::BOTH));
    });
}
