// C04: identifiers and aliases designate exactly one object, for every kind of object.
#include <algorithm>

#include "kinds.hpp"

using namespace powsybl::iidm;  // NOLINT
using kinds::Kind;

namespace {

const std::vector<std::string> POOL = {"X", "Y", "A", "K", "host", "X#0", "Y#0", "A#0", "X#1", "A#1", "VB", "BR1", "unknown"};

struct Object {
    std::string kind;
    std::set<std::string> aliases;
    std::map<std::string, std::string> typed;
};

class Sys;
struct Op { std::string name; std::function<bool(Sys&, mc::Run&)> f; };

class Sys : public mc::System {
public:
    Network n = kinds::host();
    const Kind& kind;
    std::map<std::string, Object> objects;     // id -> object
    std::map<std::string, std::string> aliases;
    unsigned created = 0;
    explicit Sys(const Kind& k) : kind(k) {
        for (const Identifiable& i : n.getIdentifiables()) objects[i.getId()] = {"", {}, {}};
        objects["K"].kind = "load";
    }
    bool known(const std::string& name) const { return objects.count(name) || aliases.count(name); }
    std::string unique(const std::string& id) const {
        if (!known(id)) return id;
        for (unsigned i = 0;; ++i) if (!known(id + "#" + mc::str(i))) return id + "#" + mc::str(i);
    }
    void attempt(mc::Run& run, bool expected, const std::function<void()>& f) {
        std::string what;
        bool ok = mc::accepted(f, &what);
        MC_CHECK(run, ok == expected, (ok ? std::string("accepted, expected to be refused") : "refused (" + what + "), expected to be accepted"));
    }
    bool create(mc::Run& run, const Kind& k, const std::string& id, bool u) {
        for (auto& h : k.hosts) if (!objects.count(h)) return false;
        if (created > 1) return false;
        bool ok = !id.empty() && (u || !known(id));
        std::string expected = u ? unique(id) : id;
        std::string got;
        attempt(run, ok, [&] { got = k.create(n, id, u).getId(); });
        if (ok) {
            MC_CHECK(run, got == expected, "created with the identifier " << got << ", expected " << expected);
            objects[got] = {k.name, {}, {}};
            ++created;
        }
        return true;
    }
    void forget(const std::string& id) {
        for (auto& a : objects[id].aliases) aliases.erase(a);
        for (auto& a : objects[id].typed) aliases.erase(a.second);
        objects.erase(id);
    }
    bool remove(mc::Run& run, const std::string& id) {
        if (!objects.count(id)) return false;
        const std::string k = objects[id].kind;
        attempt(run, true, [&] { kinds::get(k).remove(n, id); });
        forget(id);
        if (id != "K") --created;
        return true;
    }
    bool addAlias(mc::Run& run, const std::string& id, const std::string& alias, const std::string& type, bool u) {
        if (!objects.count(id)) return false;
        std::string a = u ? unique(alias) : alias;
        Object& o = objects[id];
        bool ok = type.empty() || !o.typed.count(type);
        bool own = a == id || (aliases.count(a) && aliases[a] == id);
        if (!own && known(a)) ok = false;
        Identifiable& i = n.getIdentifiable(id);
        attempt(run, ok, [&] {
            if (type.empty()) { if (u) i.addAlias(alias, true); else i.addAlias(alias); }
            else { if (u) i.addAlias(alias, type, true); else i.addAlias(alias, type); }
        });
        if (ok && !own) {
            aliases[a] = id;
            if (type.empty()) o.aliases.insert(a); else o.typed[type] = a;
        }
        return true;
    }
    bool removeAlias(mc::Run& run, const std::string& id, const std::string& alias) {
        if (!objects.count(id)) return false;
        bool ok = aliases.count(alias) && aliases[alias] == id;
        attempt(run, ok, [&] { n.getIdentifiable(id).removeAlias(alias); });
        if (ok) {
            aliases.erase(alias);
            Object& o = objects[id];
            o.aliases.erase(alias);
            for (auto it = o.typed.begin(); it != o.typed.end();) { if (it->second == alias) it = o.typed.erase(it); else ++it; }
        }
        return true;
    }
    // remove a voltage level, with everything it holds
    bool removeContainer(mc::Run& run, const std::string& vl) {
        if (!objects.count(vl)) return false;
        bool ok = true;
        std::vector<std::string> gone = {vl};
        for (const char* c : {"BB1", "BB2", "CSB", "CSM"}) if (vl == "VB") gone.push_back(c);
        for (const char* c : {"BBS", "BRK"}) if (vl == "VN") gone.push_back(c);
        for (auto& o : objects) {
            if (o.second.kind.empty() || o.first == "K") continue;
            const Kind& k = kinds::get(o.second.kind);
            if (std::find(k.hosts.begin(), k.hosts.end(), vl) == k.hosts.end()) continue;
            if (k.branch || k.name == "HVDC line") ok = false;
            gone.push_back(o.first);
        }
        std::string what;
        bool done = true;
        try { n.getVoltageLevel(vl).remove(); } catch (const std::exception& e) { done = false; }
        MC_CHECK(run, done == ok, "removal of " << vl << (ok ? " refused" : " accepted"));
        if (ok) for (auto& g : gone) { if (!objects[g].kind.empty()) --created; forget(g); }
        return true;
    }
    // buses that are calculated are not part of the network: they cannot have an alias
    bool calculated(mc::Run& run, const std::string& alias) {
        if (!objects.count("VB") || !n.getVoltageLevel("VR").getBusView().getBus("VR_0")) return false;
        attempt(run, false, [&] { n.getVoltageLevel("VR").getBusView().getBus("VR_0").get().addAlias(alias); });
        return true;
    }

    static std::vector<Op> ops(const Kind& k) {
        std::vector<Op> o;
        auto add = [&](const std::string& name, std::function<bool(Sys&, mc::Run&)> f) { o.push_back({name, f}); };
        const std::string vl = k.hosts.empty() ? "VB" : k.hosts[0];
        add("create X", [](Sys& s, mc::Run& r) { return s.create(r, s.kind, "X", false); });
        add("create X uniquely", [](Sys& s, mc::Run& r) { return s.create(r, s.kind, "X", true); });
        add("create Y", [](Sys& s, mc::Run& r) { return s.create(r, s.kind, "Y", false); });
        if (k.name != "load") add("create load X", [](Sys& s, mc::Run& r) { return s.create(r, kinds::get("load"), "X", false); });
        add("create X with the id of the network", [](Sys& s, mc::Run& r) { return s.create(r, s.kind, "host", false); });
        add("create without id", [](Sys& s, mc::Run& r) { return s.create(r, s.kind, "", true); });
        add("K.addAlias(X)", [](Sys& s, mc::Run& r) { return s.addAlias(r, "K", "X", "", false); });
        add("K.addAlias(X,unique)", [](Sys& s, mc::Run& r) { return s.addAlias(r, "K", "X", "", true); });
        add("K.addAlias(Y,T)", [](Sys& s, mc::Run& r) { return s.addAlias(r, "K", "Y", "T", false); });
        add("X.addAlias(A)", [](Sys& s, mc::Run& r) { return s.addAlias(r, "X", "A", "", false); });
        add("X.addAlias(A,T)", [](Sys& s, mc::Run& r) { return s.addAlias(r, "X", "A", "T", false); });
        add("K.addAlias(K)", [](Sys& s, mc::Run& r) { return s.addAlias(r, "K", "K", "", false); });
        add("X.addAlias(Y,T)", [](Sys& s, mc::Run& r) { return s.addAlias(r, "X", "Y", "T", false); });
        add("X.addAlias(K)", [](Sys& s, mc::Run& r) { return s.addAlias(r, "X", "K", "", false); });
        add("X.addAlias(X)", [](Sys& s, mc::Run& r) { return s.addAlias(r, "X", "X", "", false); });
        add("Y.addAlias(A,T,unique)", [](Sys& s, mc::Run& r) { return s.addAlias(r, "Y", "A", "T", true); });
        add("network.addAlias(A,U)", [](Sys& s, mc::Run& r) { return s.addAlias(r, "host", "A", "U", false); });
        add("K.removeAlias(X)", [](Sys& s, mc::Run& r) { return s.removeAlias(r, "K", "X"); });
        add("X.removeAlias(A)", [](Sys& s, mc::Run& r) { return s.removeAlias(r, "X", "A"); });
        add("X.removeAlias(Y)", [](Sys& s, mc::Run& r) { return s.removeAlias(r, "X", "Y"); });
        add("remove X", [](Sys& s, mc::Run& r) { return s.remove(r, "X"); });
        add("remove Y", [](Sys& s, mc::Run& r) { return s.remove(r, "Y"); });
        add("remove K", [](Sys& s, mc::Run& r) { return s.remove(r, "K"); });
        add("remove " + vl, [vl](Sys& s, mc::Run& r) { return s.removeContainer(r, vl); });
        if (k.name == "load") add("calculated bus addAlias(A)", [](Sys& s, mc::Run& r) { return s.calculated(r, "A"); });
        return o;
    }
    std::vector<Op> table = ops(kind);

    bool apply(unsigned op, mc::Run& run) override {
        run.transition();
        return table[op].f(*this, run);
    }
    void check(mc::Run& run) override {
        // lookups
        for (auto& name : POOL) {
            std::string id = objects.count(name) ? name : aliases.count(name) ? aliases[name] : "";
            auto f = n.find(name);
            if (id.empty()) {
                MC_CHECK(run, !f, "'" << name << "' designates " << f.get().getId() << ", expected nothing");
                MC_CHECK(run, !mc::accepted([&] { (void)n.getIdentifiable(name); }), "'" << name << "' is found");
            } else {
                MC_CHECK(run, f && f.get().getId() == id, "'" << name << "' designates " << (f ? f.get().getId() : "nothing") << ", expected " << id);
                MC_CHECK(run, &f.get() == &n.getIdentifiable(id) && &n.getIdentifiable(name) == &f.get(), "'" << name << "' and '" << id << "' designate different objects");
            }
            // typed lookups: the kind of the object, and another one
            for (const Kind* k : {&kind, &kinds::get("load"), &kinds::get("substation")}) {
                bool expected = !id.empty() && (objects[id].kind == k->name || (k->name == "load" && objects[id].kind == "load in node/breaker") || (k->name == "load in node/breaker" && objects[id].kind == "load"));
                if (!expected && !id.empty() && objects[id].kind.empty()) continue;   // the objects of the host network: not classified here
                if (k->name.find("line") != std::string::npos || k->name.find("witch") != std::string::npos) { if (!expected) continue; }
                std::string got;
                bool ok = mc::accepted([&] { got = k->get(n, name).getId(); });
                MC_CHECK(run, ok == expected && (!ok || got == id), "lookup of '" << name << "' as a " << k->name << (ok ? " gives " + got : " fails") << ", expected " << (expected ? id : "a failure"));
            }
        }
        // the list of the objects
        std::multiset<std::string> ids;
        for (const Identifiable& i : n.getIdentifiables()) ids.insert(i.getId());
        std::multiset<std::string> expected;
        for (auto& o : objects) expected.insert(o.first);
        MC_CHECK(run, ids == expected, "the network lists " << ids.size() << " objects, expected " << expected.size());
        // aliases as the objects report them
        for (auto& o : objects) {
            const Identifiable& i = n.getIdentifiable(o.first);
            std::multiset<std::string> got, exp;
            for (const std::string& a : i.getAliases()) got.insert(a);
            exp.insert(o.second.aliases.begin(), o.second.aliases.end());
            for (auto& t : o.second.typed) exp.insert(t.second);
            MC_CHECK(run, got == exp, "aliases of " << o.first);
            MC_CHECK(run, i.hasAliases() == !exp.empty(), "hasAliases of " << o.first);
            for (const char* t : {"T", "U"}) {
                auto a = i.getAliasFromType(t);
                auto it = o.second.typed.find(t);
                MC_CHECK(run, static_cast<bool>(a) == (it != o.second.typed.end()) && (!a || *a == it->second), "alias of type " << t << " of " << o.first);
            }
            for (auto& name : POOL) {
                std::string t;
                for (auto& e : o.second.typed) if (e.second == name) t = e.first;
                MC_CHECK(run, i.getAliasType(name) == t, "type of the alias " << name << " of " << o.first);
            }
        }
    }
    std::string key() override {
        std::string r = kind.name + "|";
        for (auto& o : objects) {
            if (o.second.kind.empty() && o.second.aliases.empty() && o.second.typed.empty() && o.first != "VB" && o.first != "VN") continue;
            r += o.first + ":" + o.second.kind + "{";
            for (auto& a : o.second.aliases) r += a + ",";
            for (auto& a : o.second.typed) r += a.first + "=" + a.second + ",";
            r += "}";
        }
        return r;
    }
};

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C04";
    c.level = "model_checking";
    c.assumptions = {"at most two objects of the explored kind besides the objects of the host network", "the pool of names is X, Y, A, K, the network id and the names derived from them"};
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        for (const Kind& k : kinds::all()) {
            auto table = std::make_shared<std::vector<Op>>(Sys::ops(k));
            const Kind* kp = &k;
            bool deep = thorough || k.name == "load" || k.name == "bus";
            s.push_back(mc::sequences(k.name, static_cast<unsigned>(table->size()), deep ? 4 : 3, mc::Queries::NONE, [kp] { return std::unique_ptr<mc::System>(new Sys(*kp)); }, [table](unsigned i) { return (*table)[i].name; }));
            // from a state where aliases are in use
            s.push_back(mc::sequences(k.name + " with aliases", static_cast<unsigned>(table->size()), thorough ? 4 : 3, mc::Queries::NONE, [kp] {
                std::unique_ptr<Sys> y(new Sys(*kp));
                mc::Run r;
                y->create(r, *kp, "X", false);
                y->addAlias(r, "X", "A", "", false);
                y->addAlias(r, "X", "Y", "T", false);
                return std::unique_ptr<mc::System>(std::move(y));
            }, [table](unsigned i) { return (*table)[i].name; }));
        }
    });
}
