// C01: values are private to their variant, clones are faithful, whatever the history of variants.
// Every per-variant attribute of every equipment of a complete network is written at once with one of two sets of
// values; the observation of each variant must be the one that a network which never had variants shows.
#include <algorithm>

#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/LoadDetailAdder.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>

#include "state.hpp"

using namespace powsybl::iidm;  // NOLINT
namespace ext = powsybl::iidm::extensions;
using net::create;
using net::removeSome;
using net::write;

namespace {

const char* INIT = "InitialVariant";

// SlackTerminal::isEmpty speaks of all the variants together
net::Snapshot dump(const Network& n) {
    net::Snapshot s = net::dump(n);
    for (auto& e : s) if (e.first.find("slackTerminal") != std::string::npos) e.second = e.second.substr(e.second.find(';') + 1);
    return s;
}

Network fresh() {
    return net::full();
}

// what a network without variants shows after a list of operations: write 1, write 2, c(reate), r(emove);
// d: created while another variant was selected (the slack terminal is the one extension designated in a variant only)
const net::Snapshot& reference(const std::string& ops) {
    static std::map<std::string, net::Snapshot> cache;
    auto it = cache.find(ops);
    if (it == cache.end()) {
        Network n = fresh();
        for (char c : ops) {
            if (c == '1') write(n, 1);
            else if (c == '2') write(n, 2);
            else if (c == 'c' || c == 'd') { create(n); if (c == 'd') n.getVoltageLevel("VB2").getExtension<ext::SlackTerminal>().setTerminal(stdcxx::Reference<Terminal>()); }
            else if (c == 'r') removeSome(n);
        }
        it = cache.insert({ops, dump(n)}).first;
    }
    return it->second;
}

// the values written do not depend on what was there before: of consecutive writes only the last one counts
std::string canon(const std::string& ops) {
    std::string r;
    for (char c : ops) {
        bool w = c == '1' || c == '2';
        if (w && !r.empty() && (r.back() == '1' || r.back() == '2')) r.back() = c;
        else if (w && !r.empty() && r.back() == 'd') { r.back() = 'c'; r += c; }   // the write designates the slack terminals again
        else r += c;
    }
    return r;
}

class Sys : public mc::System {
public:
    Network n;
    std::map<std::string, std::string> variants;   // variant -> what was done to it
    std::string working;
    bool created = false, removed = false;
    explicit Sys(bool threads) : n(fresh()), variants{{INIT, ""}}, working(INIT) {
        if (threads) n.getVariantManager().allowVariantMultiThreadAccess(true);
    }
    VariantManager& vm() { return n.getVariantManager(); }
    void clone(const std::string& s, const std::string& d) { vm().cloneVariant(s, d, true); variants[d] = std::string(variants.at(s)); }
    bool select(const std::string& v) { if (!variants.count(v) || v == working) return false; vm().setWorkingVariant(v); working = v; return true; }
    bool remove(const std::string& v) {
        if (!variants.count(v)) return false;
        vm().removeVariant(v);
        variants.erase(v);
        if (v == working) { working = INIT; vm().setWorkingVariant(INIT); }
        return true;
    }
    static const std::vector<std::string>& names() {
        static const std::vector<std::string> N = {"write 1", "write 2", "clone(Initial,a)", "clone(Initial,b)", "clone(a,b)", "clone(b,a)", "clone(a,Initial)", "clone(b,{a,c})", "select(Initial)", "select(a)", "select(b)", "remove(a)", "remove(b)", "remove(c)", "create equipment", "remove equipment"};
        return N;
    }
    bool apply(unsigned op, mc::Run& run) override {
        run.transition();
        auto has = [&](const char* v) { return variants.count(v) != 0; };
        switch (op) {
            case 0: case 1: write(n, op + 1); variants[working] += op ? '2' : '1'; return true;
            case 2: clone(INIT, "a"); return true;
            case 3: clone(INIT, "b"); return true;
            case 4: if (!has("a")) return false; clone("a", "b"); return true;
            case 5: if (!has("b")) return false; clone("b", "a"); return true;
            case 6: if (!has("a")) return false; clone("a", INIT); return true;
            case 7: { if (!has("b")) return false; vm().cloneVariant("b", {"a", "c"}, true); std::string x = variants["b"]; variants["a"] = x; variants["c"] = x; return true; }
            case 8: return select(INIT);
            case 9: return select("a");
            case 10: return select("b");
            case 11: return remove("a");
            case 12: return remove("b");
            case 13: return remove("c");
            case 14: if (created) return false; created = true; create(n); for (auto& v : variants) v.second += v.first == working ? 'c' : 'd'; return true;
            case 15: if (removed) return false; removed = true; removeSome(n); for (auto& v : variants) v.second += 'r'; return true;
            default: return false;
        }
    }
    void check(mc::Run& run) override {
        std::set<std::string> ids;
        for (auto& v : variants) ids.insert(v.first);
        MC_CHECK(run, vm().getVariantIds() == ids, "the variants are not the expected ones");
        MC_CHECK(run, vm().getWorkingVariantId() == working, "working variant " << vm().getWorkingVariantId() << " expected " << working);
        for (auto& v : variants) {
            vm().setWorkingVariant(v.first);
            std::string d = net::diff(reference(canon(v.second)), dump(n));
            MC_CHECK(run, d.empty(), "variant " << v.first << " (" << v.second << "): " << d);
            run.transition();
        }
        vm().setWorkingVariant(working);
    }
    // look at the caches of the working variant only
    void query(mc::Run& run) override {
        std::string d = net::diff(reference(canon(variants.at(working))), dump(n));
        MC_CHECK(run, d.empty(), "variant " << working << " (" << variants.at(working) << "): " << d);
    }
    std::string key() override {
        std::string r = working + "|";
        for (auto& v : variants) r += v.first + "=" + canon(v.second) + ";";
        return r;
    }
};

mc::Space seq(const std::string& name, unsigned depth, mc::Queries q, bool threads, const std::vector<unsigned>& prefix) {
    return mc::sequences(name, static_cast<unsigned>(Sys::names().size()), depth, q, [threads, prefix] {
        std::unique_ptr<Sys> s(new Sys(threads));
        mc::Run r;
        for (unsigned op : prefix) s->apply(op, r);
        return std::unique_ptr<mc::System>(std::move(s));
    }, [](unsigned i) { return Sys::names()[i]; });
}

// the reference itself: each write changes every attribute, is repeatable, and equals a write over the other values
mc::Space self() {
    mc::Space s;
    s.name = "the two sets of values differ and overwrite each other";
    s.size = 4;
    s.describe = [](uint64_t i) { return mc::str(i); };
    s.run = [](uint64_t i, mc::Run& run) {
        const char* hist[4][2] = {{"21", "1"}, {"12", "2"}, {"c21", "c1"}, {"d12", "c2"}};
        std::string d = net::diff(reference(hist[i][1]), reference(hist[i][0]));
        MC_CHECK(run, d.empty(), hist[i][0] << " differs from " << hist[i][1] << ": " << d);
        unsigned long changed = 0;
        auto& a = reference("1");
        for (auto& e : reference("2")) { auto it = a.find(e.first); if (it == a.end() || it->second != e.second) ++changed; }
        MC_CHECK(run, changed > 250, "only " << changed << " values differ between the two sets");
        run.trace();
        run.state(mc::str(i));
    };
    return s;
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C01";
    c.level = "model_checking";
    c.assumptions = {"one network holding every kind of equipment in both topology kinds and the per-variant extensions", "at most 4 variants, histories up to the depth given in the space names from each start history"};
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        unsigned d = thorough ? 4 : 3;
        s.push_back(self());
        s.push_back(seq("from a network without variants", d + (thorough ? 1 : 0), mc::Queries::NONE, false, {}));
        s.push_back(seq("from a network without variants, observed at each step", d - 1, mc::Queries::EACH, false, {}));
        // Initial, a, b different; a is a hole
        s.push_back(seq("from three different variants", d, mc::Queries::NONE, false, {2, 3, 9, 0, 10, 1}));
        s.push_back(seq("from a network with a hole", d, mc::Queries::NONE, false, {2, 3, 10, 1, 11}));
        s.push_back(seq("from a shrunk network", d - 1, mc::Queries::BOTH, false, {2, 3, 7, 9, 0, 13, 12}));
        s.push_back(seq("with thread local selection", d - 1, mc::Queries::BOTH, true, {2, 3}));
    });
}
