// C24: export to and import from the older versions of the format. For each version, an independent table says which attributes
// that version has no place for, and which of them make the export refuse; what is read back must be the network minus these.
#include <cmath>

#include "features.hpp"
#include "refs.hpp"
#include "state.hpp"

#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>

using namespace powsybl::iidm;  // NOLINT

namespace {

const char* const VERSIONS[] = {"1.0", "1.1", "1.2", "1.3", "1.4", "1.5"};
const char* const URIS[] = {"http://www.itesla_project.eu/schema/iidm/1_0", "http://www.powsybl.org/schema/iidm/1_1", "http://www.powsybl.org/schema/iidm/1_2",
                            "http://www.powsybl.org/schema/iidm/1_3", "http://www.powsybl.org/schema/iidm/1_4", "http://www.powsybl.org/schema/iidm/1_5"};

const std::string LINEAR = "#" + mc::str(static_cast<int>(ShuntCompensatorModelType::LINEAR));

struct Kept {
    net::Snapshot s;
    std::set<std::string> refused;   // the features the export must not lose silently
    bool impossible = false;         // refused whatever the requested behaviour
};

bool ends(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
bool starts(const std::string& s, const std::string& e) { return s.compare(0, e.size(), e) == 0; }
bool num(const std::string& s, double& d) { char* e = nullptr; d = std::strtod(s.c_str(), &e); return !s.empty() && *e == 0; }
double val(const net::Snapshot& s, const std::string& k) { double d = NAN; auto it = s.find(k); if (it == s.end() || !num(it->second, d)) return NAN; return d; }

void erasePrefix(net::Snapshot& s, const std::string& p) {
    for (auto it = s.lower_bound(p); it != s.end() && starts(it->first, p);) it = s.erase(it);
}

// the owner ("load/LD1") of a key: objects are listed as <kind>/<id>/id
std::vector<std::string> objects(const net::Snapshot& s, const std::string& kind) {
    std::vector<std::string> r;
    for (const auto& e : s) if (starts(e.first, kind + "/") && ends(e.first, "/id") && e.first == kind + "/" + e.second + "/id") r.push_back(kind + "/" + e.second);
    return r;
}

Kept keep(const net::Snapshot& full, int v) {
    Kept k;
    k.s = full;
    net::Snapshot& s = k.s;
    if (v < 5) {
        for (const auto& e : full) {
            for (const char* w : {"/activePowerLimits", "/apparentPowerLimits"}) {
                size_t p = e.first.find(w);
                if (p == std::string::npos) continue;
                size_t q = e.first.find('/', p + 1);
                if (q == std::string::npos) continue;      // no limits
                s.erase(e.first);
                s[e.first.substr(0, q)] = "-";
                k.refused.insert("power limits");
            }
        }
    }
    if (v < 4) {
        for (auto it = s.begin(); it != s.end();) {
            if (it->first.find("/aliasFromType/") != std::string::npos) { it = s.erase(it); continue; }
            if (it->first.find("/alias/") != std::string::npos) it->second = "";
            ++it;
        }
    }
    if (v < 3) {
        for (const auto& e : full) {
            if (e.first.find("/alias/") != std::string::npos) {
                s.erase(e.first);
                if (starts(e.first, "network/alias/")) k.refused.insert("aliases of the network");
            }
            if (ends(e.first, "/hasAliases")) s[e.first] = "false";
            if (starts(e.first, "line/") && e.first.find("/half") != std::string::npos && ends(e.first, "/fict")) s[e.first] = "false";
            if (e.first.find("/ext/slackTerminal") != std::string::npos) k.impossible = true;
        }
        for (const std::string& q : objects(full, "dl")) {
            if (full.at(q + "/hasGeneration") != "1") continue;
            k.refused.insert("generation of a dangling line");
            double p = val(full, q + "/gen/p");
            double r = val(full, q + "/gen/q");
            if (!std::isnan(p)) s[q + "/p0"] = mc::str(val(full, q + "/p0") - p);
            if (!std::isnan(r)) s[q + "/q0"] = mc::str(val(full, q + "/q0") - r);
            s[q + "/hasGeneration"] = "0";
            erasePrefix(s, q + "/gen/");
        }
        for (const std::string& q : objects(full, "shunt")) {
            if (full.at(q + "/modelType") == LINEAR) {
                s[q + "/model/g"] = "NaN";
                s[q + "/g"] = "0";
            } else {
                k.refused.insert("non linear model of a shunt");
                erasePrefix(s, q + "/model/");
                s[q + "/modelType"] = LINEAR;
                s[q + "/sections"] = s[q + "/maxSections"] = "1";
                s[q + "/model/b"] = full.at(q + "/b");
                s[q + "/model/g"] = "NaN";
                s[q + "/g"] = "0";
            }
        }
    }
    if (v < 2) {
        for (const auto& e : full) if (ends(e.first, "/fictitious") && !starts(e.first, "switch/")) s[e.first] = "false";
        for (const std::string& q : objects(full, "shunt")) {
            std::string own = full.at(q + "/id") + "#";
            if (full.at(q + "/regulating") == "true") k.refused.insert("regulation of a shunt");
            if (full.at(q + "/targetV") != "NaN") k.refused.insert("target voltage of a shunt");
            if (full.at(q + "/deadband") != "NaN") k.refused.insert("deadband of a shunt");
            s[q + "/regulating"] = "false";
            s[q + "/targetV"] = s[q + "/deadband"] = "NaN";
            // the regulated terminal is its own
            s[q + "/regTerminal"] = "own";
            if (full.at(q + "/regTerminal") != "own") k.refused.insert("regulated terminal of a shunt");
        }
        for (const std::string& q : objects(full, "2wt")) s[q + "/s"] = "NaN";
        for (const std::string& q : objects(full, "3wt")) for (int l = 1; l <= 3; ++l) s[q + "/leg" + mc::str(l) + "/s"] = "NaN";
        for (const auto& e : full) {
            if (!ends(e.first, "tc/deadband")) continue;
            if (val(full, e.first) == 0 && full.at(e.first.substr(0, e.first.size() - 8) + "regulating") == "false") s[e.first] = "NaN";
        }
    }
    if (v < 1) {
        for (const std::string& q : objects(full, "3wt")) {
            for (int l = 2; l <= 3; ++l) for (const char* a : {"g", "b"}) {
                std::string key = q + "/leg" + mc::str(l) + "/" + a;
                if (val(full, key) != 0) k.refused.insert("magnetising admittance of leg " + mc::str(l));
                s[key] = "0";
            }
            if (val(full, q + "/u0") != val(full, q + "/leg1/u")) k.refused.insert("rated voltage at the star point");
            s[q + "/u0"] = s[q + "/leg1/u"];
            for (int l = 1; l <= 3; ++l) {
                std::string leg = q + "/leg" + mc::str(l);
                for (const char* t : {"Rtc", "Ptc"}) {
                    if (l != 1 && std::string(t) == "Rtc") continue;
                    if (full.at(leg + "/has" + t) != "true") continue;
                    k.refused.insert(std::string("tap changer ") + t + " of leg " + mc::str(l));
                    s[leg + "/has" + t] = "false";
                    erasePrefix(s, leg + (t[0] == 'R' ? "/rtc/" : "/ptc/"));
                }
            }
        }
        for (const std::string& q : objects(full, "svc")) {
            if (full.at(q + "/regTerminal") != "own") k.refused.insert("regulated terminal of an SVC");
            s[q + "/regTerminal"] = "own";
        }
        // the voltage of the buses of node/breaker voltage levels is that of their busbar sections
        std::set<std::string> withSection, nodeBreaker;
        for (const auto& e : full) {
            if (starts(e.first, "bbs/") && ends(e.first, "/t1/bv.bus")) withSection.insert(e.second);
            if (starts(e.first, "vl/") && ends(e.first, "/nodes")) nodeBreaker.insert(e.first.substr(3, e.first.size() - 9));
        }
        for (const auto& e : full) {
            if (!ends(e.first, "/bv.bus")) continue;
            std::string t = e.first.substr(0, e.first.size() - 7);
            if (!full.count(t + "/bbv.bus") || !nodeBreaker.count(full.at(t + "/vl"))) continue;
            if (withSection.count(e.second)) continue;
            for (const char* a : {"/v", "/angle", "/i"}) if (s.count(t + a)) s[t + a] = "NaN";
        }
        for (const std::string& l : nodeBreaker) {
            for (const char* view : {"/bv/", "/bbv/"}) {
                std::string p = "vl/" + l + view;
                for (auto it = s.lower_bound(p); it != s.end() && starts(it->first, p); ++it) {
                    if (!ends(it->first, "/v") && !ends(it->first, "/angle")) continue;
                    std::string id = it->first.substr(p.size(), it->first.find_last_of('/') - p.size());
                    std::string bus = std::string(view) == "/bv/" ? id : full.at("busof/" + id);
                    if (!withSection.count(bus)) it->second = "NaN";
                }
            }
        }
    }
    return k;
}

const net::DumpOptions& options() {
    static const net::DumpOptions o = [] { net::DumpOptions d; d.views = false; d.components = false; return d; }();
    return o;
}

// the reference to the regulated terminal of shunts and SVC is rewritten as "own" when it is their own; the bus of every group of
// nodes of the bus/breaker view is added
net::Snapshot dump(const Network& n) {
    net::Snapshot s = net::dump(n, options());
    for (const auto& x : n.getShuntCompensators()) if (std::addressof(x.getRegulatingTerminal()) == std::addressof(x.getTerminal())) s["shunt/" + x.getId() + "/regTerminal"] = "own";
    for (const auto& x : n.getStaticVarCompensators()) if (std::addressof(x.getRegulatingTerminal()) == std::addressof(x.getTerminal())) s["svc/" + x.getId() + "/regTerminal"] = "own";
    for (const VoltageLevel& v : n.getVoltageLevels()) {
        if (v.getTopologyKind() != TopologyKind::NODE_BREAKER) continue;
        const auto& nb = v.getNodeBreakerView();
        std::map<unsigned long, unsigned long> root;
        std::function<unsigned long(unsigned long)> find = [&](unsigned long x) { auto it = root.find(x); return it == root.end() || it->second == x ? x : find(it->second); };
        auto join = [&](unsigned long a, unsigned long b) { a = find(a); b = find(b); root[std::max(a, b)] = std::min(a, b); };
        for (const Switch& w : nb.getSwitches()) if (!w.isOpen()) join(nb.getNode1(w.getId()), nb.getNode2(w.getId()));
        for (const auto& ic : nb.getInternalConnections()) join(ic.getNode1(), ic.getNode2());
        std::map<unsigned long, std::string> bus;
        for (unsigned long node : nb.getNodes()) {
            const auto& t = nb.getTerminal(node);
            if (t && t.get().getBusView().getBus()) bus[find(node)] = t.get().getBusView().getBus().get().getId();
        }
        for (const Bus& b : v.getBusBreakerView().getBuses()) {
            unsigned long node = std::strtoul(b.getId().c_str() + v.getId().size() + 1, nullptr, 10);
            s["busof/" + b.getId()] = bus[find(node)];
        }
    }
    return s;
}

std::string setNames(const std::set<std::string>& s) { std::string r; for (const auto& x : s) r += x + ", "; return r; }

void versioned(const Network& n, int v, mc::Run& run, const net::Snapshot& before) {
    Kept k = keep(before, v);
    converter::ExportOptions o;
    o.setVersion(VERSIONS[v]);
    o.setIidmVersionIncompatibilityBehavior(converter::ExportOptions::IidmVersionIncompatibilityBehavior::THROW_EXCEPTION);
    std::string xml;
    std::string what;
    run.count();
    bool ok = mc::accepted([&] { xml = net::writeXml(n, o); }, &what);
    if (k.impossible || !k.refused.empty()) {
        MC_CHECK(run, !ok, "version " << VERSIONS[v] << ": exported in spite of " << setNames(k.refused));
    } else {
        MC_CHECK(run, ok, "version " << VERSIONS[v] << ": the export fails: " << what);
    }
    o.setIidmVersionIncompatibilityBehavior(converter::ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR);
    std::string logged;
    bool ok2 = mc::accepted([&] { logged = net::writeXml(n, o); }, &what);
    MC_CHECK(run, ok2 != k.impossible, "version " << VERSIONS[v] << ", losses logged: " << (ok2 ? "exported" : "the export fails: " + what));
    run.trace();
    if (k.impossible) return;
    MC_CHECK(run, !ok || xml == logged, "version " << VERSIONS[v] << ": the documents differ although nothing is lost");
    MC_CHECK(run, logged.find(URIS[v]) != std::string::npos, "version " << VERSIONS[v] << ": the document does not declare " << URIS[v]);
    std::unique_ptr<Network> r;
    MC_CHECK(run, mc::accepted([&] { r.reset(new Network(net::readXml(logged))); }, &what), "version " << VERSIONS[v] << ": the document is not readable: " << what);
    std::string d = net::diff(k.s, dump(*r));
    MC_CHECK(run, d.empty(), "version " << VERSIONS[v] << ": read back different: " << d);
    run.distinct(logged);
}

void allVersions(const Network& n, mc::Run& run, const std::vector<int>& versions = {0, 1, 2, 3, 4}) {
    net::Snapshot before = dump(n);
    for (int v : versions) versioned(n, v, run, before);
    std::string d = net::diff(before, dump(n));
    MC_CHECK(run, d.empty(), "the exports changed the network: " << d);
}

mc::Space feature(const features::Feature& f, bool thorough) {
    bool large = mc::product(f.dims) > 3000;
    mc::Space s;
    s.name = "every combination of features: " + f.kind;
    features::D dims = f.dims;
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { std::string r; for (unsigned x : mc::decode(i, dims)) r += mc::str(x) + " "; return r; };
    s.run = [&f, dims, large, thorough](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        Network n = features::host();
        try {
            f.build(n, d);
        } catch (const std::exception&) {
            return;
        }
        if (large && !thorough) allVersions(n, run, {0, 1, 2});
        else allVersions(n, run);
    };
    return s;
}

// every reference to a terminal
mc::Space references() {
    mc::Space s;
    s.name = "references to terminals";
    s.size = refs::size();
    s.describe = [](uint64_t i) { return refs::describe(i); };
    s.run = [](uint64_t i, mc::Run& run) {
        Network n("refs", "verif");
        if (!refs::build(n, i)) return;
        allVersions(n, run);
    };
    return s;
}

mc::Space identities() {
    mc::Space s;
    s.name = "names, aliases and properties of every kind of object";
    features::D dims = {static_cast<unsigned>(features::minimal().size()), 2, 2};
    dims.insert(dims.end(), features::identityDims().begin(), features::identityDims().end());
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { auto d = mc::decode(i, dims); std::string r = features::minimal()[d[0]].kind + ": "; for (unsigned x : d) r += mc::str(x) + " "; return r; };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        Network n = features::host();
        const std::string name = "name of x";
        const auto& m = features::minimal()[d[0]];
        if (m.kind == "network" && (d[1] || d[2])) return;
        features::identity(m.build(n, d[1] ? &name : nullptr, d[2] == 1), {d[3], d[4]});
        allVersions(n, run);
    };
    return s;
}

mc::Space complete() {
    mc::Space s;
    s.name = "complete networks";
    features::D dims = {2, 2, 2, 2, 2, 2, 3};
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { std::string r; for (unsigned x : mc::decode(i, dims)) r += mc::str(x) + " "; return r; };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        net::FullOptions o;
        o.nodeBreaker = d[0];
        o.extensions = d[1];
        o.tapChangers = d[2];
        o.limits = d[3];
        o.aliases = d[4];
        o.hvdc = d[5];
        o.stateValues = true;
        Network n = net::full(o);
        if (d[6] && !(d[2] && d[5])) return;
        if (d[6]) {
            // voltages outside the buses and slack terminals have no place in any version
            net::write(n, static_cast<int>(d[6]));
            for (VoltageLevel& v : n.getVoltageLevels()) {
                if (v.getTopologyKind() != TopologyKind::NODE_BREAKER) continue;
                for (Bus& b : v.getBusBreakerView().getBuses()) {
                    bool inBus = false;
                    for (const Terminal& t : b.getConnectedTerminals()) inBus = inBus || static_cast<bool>(t.getBusView().getBus());
                    if (!inBus) b.setV(stdcxx::nan()).setAngle(stdcxx::nan());
                }
            }
            for (VoltageLevel& v : n.getVoltageLevels()) for (const Extension& e : v.getExtensions()) if (e.getName() == "slackTerminal") { v.removeExtension<extensions::SlackTerminal>(); break; }
        }
        allVersions(n, run);
    };
    return s;
}

// the version of an extension chosen by the user
mc::Space extensionVersions() {
    mc::Space s;
    s.name = "versions of an extension";
    const char* const* e = new const char*[5]{"1.0", "1.1", "1.2", "2.0", ""};
    s.size = 6 * 5;
    s.describe = [e](uint64_t i) { return std::string(VERSIONS[i / 5]) + " with slackTerminal " + e[i % 5]; };
    s.run = [e](uint64_t i, mc::Run& run) {
        uint64_t v = i / 5;
        uint64_t x = i % 5;
        Network n = features::host();
        n.getVoltageLevel("VB").newExtension<extensions::SlackTerminalAdder>().withTerminal(n.getLoad("K").getTerminal()).add();
        converter::ExportOptions o;
        o.setVersion(VERSIONS[v]);
        if (x < 4) o.addExtensionVersion("slackTerminal", e[x]);
        bool compatible = v >= 3 && (x == 4 || x == v - 3);
        std::string xml;
        run.count();
        bool ok = mc::accepted([&] { xml = net::writeXml(n, o); });
        MC_CHECK(run, ok == compatible, (ok ? "accepted" : "refused"));
        run.trace();
        if (!ok) return;
        MC_CHECK(run, xml.find(std::string("/slack_terminal/1_") + mc::str(v - 3) + "\"") != std::string::npos, "the document does not declare the version of the extension");
        std::string d = net::diff(dump(n), dump(net::readXml(xml)));
        MC_CHECK(run, d.empty(), "read back different: " << d);
        run.distinct(xml);
    };
    return s;
}

// documents: every namespace, supported or not
mc::Space namespaces() {
    mc::Space s;
    s.name = "namespaces of documents";
    static std::vector<std::string> uris;
    if (uris.empty()) {
        for (const char* domain : {"http://www.powsybl.org", "http://www.itesla_project.eu", "https://www.powsybl.org", "http://www.powsybl.com", ""}) {
            for (const char* path : {"/schema/iidm/", "/schema/iidm", "/schema/"}) {
                for (const char* v : {"1_0", "1_1", "1_2", "1_3", "1_4", "1_5", "1_6", "1_9", "1_10", "1_50", "2_0", "0_1", "1.0", "1.5", "1", "", "_", "1_", "_5", "1_05", "01_5", "1_5 ", "a_b", "1_5_0", "-1_5"}) uris.push_back(std::string(domain) + path + v);
            }
        }
    }
    s.size = uris.size() * 6;
    s.describe = [](uint64_t i) { return uris[i / 6] + " for a document of version " + VERSIONS[i % 6]; };
    s.run = [](uint64_t i, mc::Run& run) {
        static std::map<uint64_t, std::string> documents;
        std::string& xml = documents[i % 6];
        if (xml.empty()) { converter::ExportOptions o; o.setVersion(VERSIONS[i % 6]); xml = net::writeXml(features::host(), o); }
        const std::string& uri = uris[i / 6];
        std::string doc = xml;
        size_t p = doc.find(URIS[i % 6]);
        MC_CHECK(run, p != std::string::npos, "no namespace in the document");
        doc.replace(p, std::string(URIS[i % 6]).size(), uri);
        bool supported = std::find(std::begin(URIS), std::end(URIS), uri) != std::end(URIS);
        std::unique_ptr<Network> r;
        run.count();
        std::string what;
        bool ok = mc::accepted([&] { r.reset(new Network(net::readXml(doc))); }, &what);
        MC_CHECK(run, ok == supported, (ok ? "accepted" : "refused: " + what));
        run.trace();
        run.distinct(doc);
        if (ok) {
            std::string d = net::diff(dump(features::host()), dump(*r));
            MC_CHECK(run, d.empty(), "read different: " << d);
        }
    };
    return s;
}

// requested versions of an export
mc::Space requested() {
    mc::Space s;
    s.name = "requested versions";
    static const std::vector<std::string> v = {"", "1.0", "1.1", "1.2", "1.3", "1.4", "1.5", "1.6", "1.10", "1_5", "2.0", "0.9", "1", "1.", ".5", "1.5.0", " 1.5", "1.5 ", "v1.5", "current"};
    s.size = v.size();
    s.describe = [](uint64_t i) { return "'" + v[i] + "'"; };
    s.run = [](uint64_t i, mc::Run& run) {
        converter::ExportOptions o;
        o.setVersion(v[i]);
        std::string xml;
        run.count();
        run.trace();
        bool ok = mc::accepted([&] { xml = net::writeXml(features::host(), o); });
        MC_CHECK(run, ok == (i < 7), (ok ? "accepted" : "refused"));
        if (ok) MC_CHECK(run, xml.find(URIS[i == 0 ? 5 : i - 1]) != std::string::npos, "another version is written");
        run.distinct(xml);
    };
    return s;
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C24";
    c.level = "exploration";
    c.rule = "every accepted combination of optional features of each kind of equipment exported to every older version with both behaviours; distinct documents";
    c.assumptions = {"one equipment with varying features at a time in a small network, plus complete networks", "the table of what each version has no place for (harness/c24.cpp)"};
    c.workerInit = [] { net::loadExtensions(); };
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        for (const auto& f : features::all()) s.push_back(feature(f, thorough));
        s.push_back(identities());
        s.push_back(references());
        s.push_back(complete());
        s.push_back(extensionVersions());
        s.push_back(namespaces());
        s.push_back(requested());
    });
}
