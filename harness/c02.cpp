// C02: life cycle of the variants, against a model that holds a set of names, a working variant and a value each.
#include <algorithm>

#include "net.hpp"

using namespace powsybl::iidm;  // NOLINT

namespace {

const char* INIT = "InitialVariant";

Network fresh() {
    Network n("C02", "test");
    Substation& s = n.newSubstation().setId("S").add();
    VoltageLevel& v = s.newVoltageLevel().setId("V").setNominalV(400).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    v.getBusBreakerView().newBus().setId("B1").add();
    v.getBusBreakerView().newBus().setId("B2").add();
    v.getBusBreakerView().newSwitch().setId("SW").setBus1("B1").setBus2("B2").add();
    v.newLoad().setId("L").setBus("B1").setConnectableBus("B1").setP0(0).setQ0(0).add();
    v.newGenerator().setId("G").setBus("B1").setConnectableBus("B1").setMinP(-1000).setMaxP(1000).setTargetP(0).setTargetQ(0).setVoltageRegulatorOn(false).add();
    VoltageLevel& w = s.newVoltageLevel().setId("W").setNominalV(20).setTopologyKind(TopologyKind::NODE_BREAKER).add();
    w.getNodeBreakerView().newBusbarSection().setId("BBS").setNode(0).add();
    w.getNodeBreakerView().newBreaker().setId("BR").setNode1(0).setNode2(1).add();
    w.newLoad().setId("LW").setNode(1).setP0(0).setQ0(0).add();
    return n;
}

void write(Network& n, int k) {
    n.getLoad("L").setP0(k).getTerminal().setP(k + 0.5);
    n.getGenerator("G").setTargetP(k);
    n.getSwitch("SW").setOpen(k % 2 == 1);
    n.getSwitch("BR").setOpen(k % 2 == 0 && k > 0);
    n.getBusBreakerView().getBus("B2").get().setV(400 + k);
    if (n.getLoad("L").getTerminal().isConnected()) n.getLoad("L").getTerminal().disconnect();
    if (k % 2 == 0) n.getLoad("L").getTerminal().connect();
}

std::string text(Network& n) {
    std::string r = mc::str(n.getLoad("L").getP0()) + " " + mc::str(n.getLoad("L").getTerminal().getP()) + " " + mc::str(n.getGenerator("G").getTargetP());
    r += n.getSwitch("SW").isOpen() ? " open" : " closed";
    r += n.getSwitch("BR").isOpen() ? " open " : " closed ";
    r += n.getLoad("L").getTerminal().isConnected() ? "on " : "off ";
    r += mc::str(n.getBusBreakerView().getBus("B2").get().getV()) + " ";
    r += net::ids(n.getBusView().getBuses());
    return r;
}

const std::string& reference(int k) {
    static std::map<int, std::string> cache;
    auto it = cache.find(k);
    if (it == cache.end()) {
        Network n = fresh();
        if (k) write(n, k);
        it = cache.insert({k, text(n)}).first;
    }
    return it->second;
}

class Sys;
struct Op { std::string name; std::function<void(Sys&, mc::Run&)> f; };

class Sys : public mc::System {
public:
    Network n = fresh();
    std::map<std::string, int> variants{{INIT, 0}};
    std::string working = INIT;       // "" when no variant is selected
    bool threads = false;

    VariantManager& vm() { return n.getVariantManager(); }

    void attempt(mc::Run& run, bool expected, const std::function<void()>& f) {
        std::string what;
        bool ok = mc::accepted(f, &what);
        MC_CHECK(run, ok == expected, (ok ? std::string("accepted, expected to be refused") : "refused (" + what + "), expected to be accepted"));
    }
    void clone(mc::Run& run, const std::string& s, const std::vector<std::string>& t, bool overwrite) {
        bool ok = variants.count(s) && !t.empty();
        std::set<std::string> seen;
        for (auto& x : t) if (!overwrite && (!seen.insert(x).second || variants.count(x))) ok = false;
        attempt(run, ok, [&] {
            if (t.empty()) vm().cloneVariant(s, std::initializer_list<std::string>{}, overwrite);
            else if (t.size() == 1) vm().cloneVariant(s, t[0], overwrite);
            else if (t.size() == 2) vm().cloneVariant(s, {t[0], t[1]}, overwrite);
            else vm().cloneVariant(s, {t[0], t[1], t[2]}, overwrite);
        });
        if (ok) { int v = variants[s]; for (auto& x : t) variants[x] = v; }
    }
    void remove(mc::Run& run, const std::string& v) {
        bool ok = v != INIT && variants.count(v);
        attempt(run, ok, [&] { vm().removeVariant(v); });
        if (ok) { variants.erase(v); if (working == v) working.clear(); }
    }
    void select(mc::Run& run, const std::string& v) {
        bool ok = variants.count(v) != 0;
        attempt(run, ok, [&] { vm().setWorkingVariant(v); });
        if (ok) working = v;
    }
    void value(mc::Run& run, int k) {
        attempt(run, !working.empty(), [&] { write(n, k); });
        if (!working.empty()) variants[working] = k;
    }
    void allow(bool a) {
        vm().allowVariantMultiThreadAccess(a);
        if (threads && !a && working.empty()) working = INIT;
        threads = a;
    }
    void each(mc::Run& run, bool fails) {
        unsigned calls = 0;
        attempt(run, !fails, [&] {
            vm().forEachVariant([&] { if (fails) throw std::runtime_error("stop"); write(n, 7); ++calls; });
        });
        if (!fails) {
            MC_CHECK(run, calls == variants.size(), "forEachVariant made " << calls << " calls for " << variants.size() << " variants");
            for (auto& v : variants) v.second = 7;
        }
    }

    static const std::vector<Op>& ops() {
        static std::vector<Op> o;
        if (!o.empty()) return o;
        auto cl = [&](const std::string& s, const std::vector<std::string>& t, bool w) {
            std::string name = "clone(" + s + ",{";
            for (auto& x : t) name += x + " ";
            o.push_back({name + (w ? "},overwrite)" : "})"), [=](Sys& y, mc::Run& r) { y.clone(r, s, t, w); }});
        };
        cl(INIT, {"a"}, false);
        cl(INIT, {"b"}, false);
        cl("a", {"b"}, false);
        cl("b", {"a"}, true);
        cl("b", {INIT}, true);
        cl("a", {"a"}, true);
        cl("a", {"a", "c"}, true);
        cl("x", {"c"}, false);
        cl("x", {"a"}, true);
        cl(INIT, {"a", "c"}, false);
        cl(INIT, {"c", "a"}, false);
        cl("b", {"d", "d"}, false);
        cl("b", {"d", "d"}, true);
        cl("c", {"a", "b", INIT}, true);
        cl(INIT, {}, true);
        cl(INIT, {INIT}, false);
        for (std::string v : {std::string(INIT), std::string("a"), std::string("b"), std::string("c"), std::string("x")}) o.push_back({"remove(" + v + ")", [v](Sys& y, mc::Run& r) { y.remove(r, v); }});
        for (std::string v : {std::string(INIT), std::string("a"), std::string("b"), std::string("x"), std::string("")}) o.push_back({"select(" + v + ")", [v](Sys& y, mc::Run& r) { y.select(r, v); }});
        for (int k : {1, 2}) o.push_back({"write " + mc::str(k), [k](Sys& y, mc::Run& r) { y.value(r, k); }});
        o.push_back({"allow threads", [](Sys& y, mc::Run&) { y.allow(true); }});
        o.push_back({"disallow threads", [](Sys& y, mc::Run&) { y.allow(false); }});
        o.push_back({"write 7 in each variant", [](Sys& y, mc::Run& r) { y.each(r, false); }});
        o.push_back({"fail in each variant", [](Sys& y, mc::Run& r) { y.each(r, true); }});
        return o;
    }

    bool apply(unsigned op, mc::Run& run) override {
        run.transition();
        ops()[op].f(*this, run);
        light(run);
        return true;
    }
    // what can be seen without selecting a variant
    void light(mc::Run& run) {
        std::set<std::string> names;
        for (auto& v : variants) names.insert(v.first);
        MC_CHECK(run, vm().getVariantIds() == names, "the variants are not the expected ones");
        MC_CHECK(run, vm().isVariantMultiThreadAccessAllowed() == threads, "thread access");
        std::set<unsigned long> idx = vm().getVariantIndices();
        MC_CHECK(run, idx.size() == names.size(), idx.size() << " indexes for " << names.size() << " variants");
        MC_CHECK(run, *idx.rbegin() < vm().getVariantArraySize(), "index beyond the size of the array");
        if (working.empty()) {
            MC_CHECK(run, !mc::accepted([&] { (void)vm().getWorkingVariantId(); }), "the working variant has been removed but " << vm().getWorkingVariantId() << " is reported");
            MC_CHECK(run, !mc::accepted([&] { (void)vm().getVariantIndex(); }), "the working variant has been removed but has an index");
            MC_CHECK(run, !mc::accepted([&] { (void)n.getLoad("L").getP0(); }), "a value is read although no variant is selected");
        } else {
            std::string w;
            MC_CHECK(run, mc::accepted([&] { w = vm().getWorkingVariantId(); }, &w) && w == working, "working variant " << w << ", expected " << working);
            MC_CHECK(run, idx.count(vm().getVariantIndex()), "index of the working variant");
        }
    }
    void query(mc::Run& run) override {
        if (!working.empty()) { std::string t = text(n); MC_CHECK(run, t == reference(variants[working]), "variant " << working << " shows " << t << ", expected " << reference(variants[working])); }
    }
    void check(mc::Run& run) override {
        light(run);
        query(run);
        std::set<unsigned long> seen;
        for (auto& v : variants) {
            vm().setWorkingVariant(v.first);
            MC_CHECK(run, seen.insert(vm().getVariantIndex()).second, "two variants share an index");
            MC_CHECK(run, vm().getWorkingVariantId() == v.first, "working variant after its selection");
            std::string t = text(n);
            MC_CHECK(run, t == reference(v.second), "variant " << v.first << " shows " << t << ", expected " << reference(v.second));
            run.transition();
        }
    }
    std::string key() override {
        std::string r = working + (threads ? "|t|" : "|");
        for (auto& v : variants) r += v.first + "=" + mc::str(v.second) + ";";
        return r;
    }
};

mc::Space seq(const std::string& name, unsigned depth, mc::Queries q, const std::vector<std::string>& prefix) {
    return mc::sequences(name, static_cast<unsigned>(Sys::ops().size()), depth, q, [prefix] {
        std::unique_ptr<Sys> s(new Sys());
        mc::Run r;
        for (auto& p : prefix) {
            bool found = false;
            for (unsigned i = 0; i < Sys::ops().size(); ++i) if (Sys::ops()[i].name == p) { s->apply(i, r); found = true; }
            if (!found) throw std::logic_error("no operation " + p);
        }
        return std::unique_ptr<mc::System>(std::move(s));
    }, [](unsigned i) { return Sys::ops()[i].name; });
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C02";
    c.level = "model_checking";
    c.assumptions = {"the values are those of a load, a generator, two switches, a bus and a connection (C01 covers every attribute)", "at most 5 variant names"};
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        unsigned d = thorough ? 4 : 3;
        std::string A = "clone(InitialVariant,{a })", B = "clone(InitialVariant,{b })";
        s.push_back(seq("from a new network", d, mc::Queries::BOTH, {}));
        s.push_back(seq("from two other variants", d, mc::Queries::NONE, {A, B, "select(a)", "write 1", "select(b)", "write 2"}));
        s.push_back(seq("from a network with a hole", d, mc::Queries::NONE, {A, "clone(InitialVariant,{c a })", B, "clone(b,{d d },overwrite)", "select(b)", "write 1", "remove(a)"}));
        s.push_back(seq("from a selected variant and a hole", d, mc::Queries::NONE, {A, B, "select(b)", "write 1", "remove(a)"}));
        s.push_back(seq("with thread access from a removed working variant", d, mc::Queries::NONE, {"allow threads", A, B, "select(a)", "write 1", "remove(a)"}));
    });
}
