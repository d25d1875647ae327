// C15: anonymised exports. The anonymised document is compared token by token with the plain one; the mapping is the one that the
// library reads from the file written beside it.
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <unistd.h>

#include "features.hpp"
#include "refs.hpp"
#include "state.hpp"

using namespace powsybl::iidm;  // NOLINT

namespace {

using Anonymizer = converter::SimpleAnonymizer;

std::string scratch;

struct Token { std::string element, attribute, value; };   // attribute "" : the start of the element, "#": text

std::string decodeEntities(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '&') { r += s[i]; continue; }
        size_t e = s.find(';', i);
        std::string n = s.substr(i + 1, e - i - 1);
        if (n == "lt") r += '<'; else if (n == "gt") r += '>'; else if (n == "amp") r += '&'; else if (n == "quot") r += '"'; else if (n == "apos") r += '\'';
        else if (n.substr(0, 2) == "#x") r += static_cast<char>(std::strtol(n.c_str() + 2, nullptr, 16)); else r += static_cast<char>(std::atoi(n.c_str() + 1));
        i = e;
    }
    return r;
}

std::vector<Token> tokens(const std::string& xml) {
    std::vector<Token> r;
    std::vector<std::string> open;
    size_t p = 0;
    while (p < xml.size()) {
        size_t q = xml.find('<', p);
        std::string text = xml.substr(p, q == std::string::npos ? q : q - p);
        if (!open.empty() && !text.empty() && (open.back() == "iidm:alias" || text.find_first_not_of(" \n") != std::string::npos)) r.push_back({open.back(), "#", decodeEntities(text)});
        if (q == std::string::npos) break;
        size_t e = q + 1;
        if (xml[e] == '?') { p = xml.find("?>", e) + 2; continue; }
        if (xml[e] == '/') { p = xml.find('>', e) + 1; if (!open.empty()) open.pop_back(); r.push_back({"/", "", ""}); continue; }
        size_t n = xml.find_first_of(" />\n", e);
        std::string name = xml.substr(e, n - e);
        open.push_back(name);
        r.push_back({name, "", ""});
        while (true) {
            n = xml.find_first_not_of(" \n", n);
            if (xml[n] == '>') { p = n + 1; break; }
            if (xml[n] == '/') { p = n + 2; open.pop_back(); r.push_back({"/", "", ""}); break; }
            size_t eq = xml.find('=', n);
            size_t end = xml.find('"', eq + 2);
            r.push_back({name, xml.substr(n, eq - n), decodeEntities(xml.substr(eq + 2, end - eq - 2))});
            n = end + 1;
        }
    }
    return r;
}

std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> r(1);
    for (char x : s) { if (x == c) r.emplace_back(); else r.back() += x; }
    return r;
}

const net::DumpOptions& options() {
    static const net::DumpOptions o = [] { net::DumpOptions d; d.views = false; d.components = false; return d; }();
    return o;
}

// the identifiers, names and aliases of the equipment (the network itself apart)
std::set<std::string> originals(const Network& n) {
    std::set<std::string> r;
    for (const Identifiable& i : n.getIdentifiables()) {
        if (i.getId() != n.getId()) { r.insert(i.getId()); if (!i.getOptionalName().empty()) r.insert(i.getOptionalName()); }
        for (const auto& a : i.getAliases()) r.insert(a);
    }
    for (const Line& l : n.getLines()) {
        if (!l.isTieLine()) continue;
        const auto& t = dynamic_cast<const TieLine&>(l);
        for (const auto* h : {&t.getHalf1(), &t.getHalf2()}) { r.insert(h->getId()); r.insert(h->getName()); }
    }
    r.erase("");
    return r;
}

void anonymous(const Network& n, mc::Run& run, const converter::ExportOptions& base = converter::ExportOptions(), bool sameTopology = true) {
    const std::string xmlName = scratch + "/" + mc::str(static_cast<int>(getpid())) + ".xml";
    const std::string csvName = scratch + "/" + mc::str(static_cast<int>(getpid())) + ".csv";
    std::remove(csvName.c_str());
    net::Snapshot before = net::dump(n, options());
    converter::ExportOptions plainOptions = base;
    converter::ExportOptions anonOptions = base;
    anonOptions.setAnonymized(true);
    std::string what;
    std::string plain;
    std::ostringstream os;
    run.count();
    if (!mc::accepted([&] { plain = net::writeXml(n, plainOptions); net::readXml(plain); })) return;   // not exportable at all (coarser topology)
    MC_CHECK(run, mc::accepted([&] { Network::writeXml(xmlName, os, n, anonOptions); }, &what), "the anonymised export fails: " << what);
    const std::string anon = os.str();
    std::string d = net::diff(before, net::dump(n, options()));
    MC_CHECK(run, d.empty(), "the export changed the network: " << d);
    run.distinct(anon);

    Anonymizer mapping;
    {
        std::ifstream csv(csvName);
        MC_CHECK(run, csv.good(), "no mapping file");
        MC_CHECK(run, mc::accepted([&] { mapping.read(csv); }, &what), "the mapping is not readable: " << what);
    }
    auto original = [&](const std::string& code, const std::string& expected) {
        std::string o;
        return mc::accepted([&] { o = mapping.deanonymizeString(code); }) && o == expected;
    };

    // token by token
    std::set<std::string> names = originals(n);
    std::vector<Token> a = tokens(plain);
    std::vector<Token> b = tokens(anon);
    MC_CHECK(run, a.size() == b.size(), "the documents have different structures: " << a.size() << " / " << b.size() << " tokens");
    std::map<std::string, std::string> codes;
    for (size_t i = 0; i < a.size(); ++i) {
        MC_CHECK(run, a[i].element == b[i].element && a[i].attribute == b[i].attribute, "different structures at " << a[i].element << "/" << a[i].attribute);
        std::string where = a[i].element + "/" + a[i].attribute + ": ";
        bool free = a[i].element == "iidm:network" || a[i].element == "iidm:property";
        bool list = a[i].attribute == "geographicalTags";
        bool named = list || a[i].attribute == "tso";
        auto v = list ? split(a[i].value, ',') : std::vector<std::string>(1, a[i].value);
        auto w = list ? split(b[i].value, ',') : std::vector<std::string>(1, b[i].value);
        MC_CHECK(run, v.size() == w.size(), where << a[i].value << " became " << b[i].value);
        if (list) {
            // the codes need not be in the order of the tags
            std::vector<std::string> back;
            for (const auto& x : w) { std::string o = x; mc::accepted([&] { o = mapping.deanonymizeString(x); }); back.push_back(o); }
            std::sort(back.begin(), back.end());
            std::vector<std::string> sorted = v;
            std::sort(sorted.begin(), sorted.end());
            MC_CHECK(run, back == sorted, where << a[i].value << " became " << b[i].value);
            continue;
        }
        for (size_t k = 0; k < v.size(); ++k) {
            if (v[k].empty()) { MC_CHECK(run, w[k].empty(), where << "empty text became " << w[k]); continue; }
            if (free) { MC_CHECK(run, v[k] == w[k], where << v[k] << " became " << w[k]); continue; }
            if (v[k] == w[k] && !names.count(v[k]) && !named) continue;
            MC_CHECK(run, original(w[k], v[k]), where << (v[k] == w[k] ? "the original '" + v[k] + "' is written" : "'" + v[k] + "' became '" + w[k] + "', which the mapping does not give back"));
            auto it = codes.insert({v[k], w[k]});
            MC_CHECK(run, it.first->second == w[k], where << "'" << v[k] << "' has the codes " << it.first->second << " and " << w[k]);
        }
    }
    std::set<std::string> distinctCodes;
    for (const auto& c : codes) MC_CHECK(run, distinctCodes.insert(c.second).second, "the code " << c.second << " stands for several names");
    // nor as a part of a text
    for (const auto& o : names) {
        if (o.size() < 6) continue;
        for (const auto& t : b) {
            if (t.attribute.empty() || t.element == "iidm:network" || t.element == "iidm:property") continue;
            MC_CHECK(run, t.value.find(o) == std::string::npos, "the original '" << o << "' can be read in " << t.element << "/" << t.attribute << ": " << t.value);
        }
    }

    // with the mapping
    std::unique_ptr<Network> r;
    std::istringstream is(anon);
    MC_CHECK(run, mc::accepted([&] { r.reset(new Network(Network::readXml(xmlName, is))); }, &what), "not readable with its mapping: " << what);
    if (sameTopology) {
        d = net::diff(before, net::dump(*r, options()));
    } else {
        d = net::diff(net::dump(net::readXml(plain), options()), net::dump(*r, options()));
    }
    MC_CHECK(run, d.empty(), "not restored: " << d);

    // without
    std::remove(csvName.c_str());
    std::istringstream is2(anon);
    r.reset();
    if (mc::accepted([&] { r.reset(new Network(Network::readXml(xmlName, is2))); })) {
        Network p = net::readXml(plain);
        std::set<std::string> expected, got;
        for (const Identifiable& i : p.getIdentifiables()) expected.insert(i.getId() == p.getId() ? i.getId() : codes.count(i.getId()) ? codes[i.getId()] : i.getId());
        for (const Identifiable& i : r->getIdentifiables()) got.insert(i.getId());
        // configured objects only: the identifiers of the calculated ones are derived
        MC_CHECK(run, got == expected, "read without its mapping: the network does not hold the anonymous objects");
    }
    run.trace();
}

mc::Space feature(const features::Feature& f) {
    mc::Space s;
    s.name = "every combination of features: " + f.kind;
    auto dims = f.dims;
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { std::string r; for (unsigned x : mc::decode(i, dims)) r += mc::str(x) + " "; return r; };
    s.run = [&f](uint64_t i, mc::Run& run) {
        Network n = features::host();
        try {
            f.build(n, mc::decode(i, f.dims));
        } catch (const std::exception&) {
            return;
        }
        anonymous(n, run);
    };
    return s;
}

// every reference to a terminal
mc::Space references() {
    mc::Space s;
    s.name = "references to terminals";
    s.size = refs::size();
    s.describe = [](uint64_t i) { return refs::describe(i); };
    s.run = [](uint64_t i, mc::Run& run) {
        Network n("refs", "verif");
        if (!refs::build(n, i)) return;
        anonymous(n, run);
    };
    return s;
}

mc::Space identities() {
    mc::Space s;
    s.name = "names, aliases and properties of every kind of object";
    features::D dims = {static_cast<unsigned>(features::minimal().size()), 3, 2};
    dims.insert(dims.end(), features::identityDims().begin(), features::identityDims().end());
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { auto d = mc::decode(i, dims); std::string r = features::minimal()[d[0]].kind + ": "; for (unsigned x : d) r += mc::str(x) + " "; return r; };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        Network n = features::host();
        const std::string names[2] = {"name of x", "X"};
        const auto& m = features::minimal()[d[0]];
        if (m.kind == "network" && (d[1] || d[2])) return;
        features::identity(m.build(n, d[1] ? &names[d[1] - 1] : nullptr, d[2] == 1), {d[3], d[4]});
        anonymous(n, run);
    };
    return s;
}

const char* const LEVELS[] = {"node/breaker", "bus/breaker", "bus"};

mc::Space complete() {
    mc::Space s;
    s.name = "complete networks";
    features::D dims = {2, 2, 2, 2, 2, 2, 2, 3};
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { std::string r; for (unsigned x : mc::decode(i, dims)) r += mc::str(x) + " "; return r + LEVELS[mc::decode(i, dims)[7]]; };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        net::FullOptions o;
        o.nodeBreaker = d[0];
        o.extensions = d[1];
        o.tapChangers = d[2];
        o.limits = d[3];
        o.aliases = d[4];
        o.hvdc = d[5];
        o.stateValues = true;
        Network n = net::full(o);
        converter::ExportOptions e;
        e.setIndent(d[6] == 1);
        e.setTopologyLevel(d[7] == 0 ? TopologyLevel::NODE_BREAKER : d[7] == 1 ? TopologyLevel::BUS_BREAKER : TopologyLevel::BUS_BRANCH);
        anonymous(n, run, e, d[7] == 0);
    };
    return s;
}

// ---- names --------------------------------------------------------------------------------------------------------

const std::vector<std::string>& letters() {
    static const std::vector<std::string> v = {"a", ";", "\"", "\n", ",", " ", "A", "B", "\r", "\xc3\xa9", "'", "<", "&", "\t", "\\"};
    return v;
}

std::string shown(const std::string& s) { std::string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t"; else r += c; } return "'" + r + "'"; }

// the strings of length 1..len
std::vector<std::string> strings(unsigned len) {
    std::vector<std::string> all, last(1);
    for (unsigned l = 1; l <= len; ++l) {
        std::vector<std::string> next;
        for (const auto& s : last) for (const auto& c : letters()) next.push_back(s + c);
        all.insert(all.end(), next.begin(), next.end());
        last.swap(next);
    }
    return all;
}

// one name in each position, and another name in another position
mc::Space named(unsigned len1, unsigned len2) {
    mc::Space s;
    s.name = "names of " + mc::str(len1) + " and " + mc::str(len2) + " characters";
    auto* v1 = new std::vector<std::string>(strings(len1));
    auto* v2 = new std::vector<std::string>(strings(len2));
    s.size = v1->size() * (v2->size() + 1) * 3;
    auto dec = [=](uint64_t i) { return mc::decode(i, {static_cast<unsigned>(v1->size()), static_cast<unsigned>(v2->size() + 1), 3}); };
    s.describe = [=](uint64_t i) { auto d = dec(i); static const char* const pos[] = {"identifier", "name", "alias"}; return std::string(pos[d[2]]) + " " + shown((*v1)[d[0]]) + (d[1] ? " and load " + shown((*v2)[d[1] - 1]) : ""); };
    s.run = [=](uint64_t i, mc::Run& run) {
        auto d = dec(i);
        const std::string& x = (*v1)[d[0]];
        const std::string* y = d[1] ? &(*v2)[d[1] - 1] : nullptr;
        if (y && *y == x && d[2] != 1) return;
        Network n("net", "test");
        n.setCaseDate(stdcxx::DateTime::parse("2020-02-29T12:34:56.000+01:00"));
        Substation& st = n.newSubstation().setId("S").add();
        VoltageLevel& vl = st.newVoltageLevel().setId("V").setTopologyKind(TopologyKind::BUS_BREAKER).setNominalV(1.0).add();
        vl.getBusBreakerView().newBus().setId("bus").add();
        Load* l = nullptr;
        try {
            auto adder = vl.newLoad();
            adder.setId(d[2] == 0 ? x : "load").setBus("bus").setConnectableBus("bus").setP0(1.0).setQ0(2.0);
            if (d[2] == 1) adder.setName(x);
            l = &adder.add();
            if (d[2] == 2) l->addAlias(x);
            if (y) vl.newLoad().setId(*y).setBus("bus").setConnectableBus("bus").setP0(1.0).setQ0(2.0).add();
        } catch (const std::exception&) {
            return;
        }
        anonymous(n, run);
    };
    return s;
}

// ---- codes --------------------------------------------------------------------------------------------------------

mc::Space sizes(bool thorough) {
    mc::Space s;
    s.name = "numbers of names";
    static std::vector<unsigned> counts;
    if (counts.empty()) {
        for (unsigned i = 0; i <= (thorough ? 800 : 40); ++i) counts.push_back(i);
        if (!thorough) for (unsigned i = 690; i <= 710; ++i) counts.push_back(i);
    }
    s.size = counts.size();
    s.describe = [](uint64_t i) { return mc::str(counts[i]) + " loads"; };
    s.run = [](uint64_t i, mc::Run& run) {
        Network n("net", "test");
        n.setCaseDate(stdcxx::DateTime::parse("2020-02-29T12:34:56.000+01:00"));
        Substation& st = n.newSubstation().setId("substation").add();
        VoltageLevel& vl = st.newVoltageLevel().setId("voltage level").setTopologyKind(TopologyKind::BUS_BREAKER).setNominalV(1.0).add();
        vl.getBusBreakerView().newBus().setId("bus").add();
        for (unsigned k = 0; k < counts[i]; ++k) vl.newLoad().setId("load number " + mc::str(k)).setBus("bus").setConnectableBus("bus").setP0(k).setQ0(2.0).add();
        anonymous(n, run);
    };
    return s;
}

mc::Space alphas(bool thorough) {
    mc::Space s;
    s.name = "codes";
    static const uint64_t BLOCK = 20000;
    s.size = thorough ? 60 : 26;
    s.describe = [](uint64_t i) { return "numbers " + mc::str(i * BLOCK) + " to " + mc::str((i + 1) * BLOCK) + " against their predecessors"; };
    s.run = [](uint64_t i, mc::Run& run) {
        // the codes of a block differ from one another and from those of all the numbers whose codes have the same length; a code
        // never gets shorter when the number grows, so that codes of different lengths are those of separated numbers
        std::set<std::string> seen;
        size_t length = i ? Anonymizer::getAlpha(i * BLOCK).size() : 1;
        uint64_t start = i * BLOCK;
        if (i) while (start > 0 && Anonymizer::getAlpha(start - 1).size() == length) --start;
        if (start == 0) start = 1;
        for (uint64_t n = start; n < (i + 1) * BLOCK; ++n) {
            run.count();
            std::string code = Anonymizer::getAlpha(n);
            MC_CHECK(run, !code.empty(), "the code of " << n << " is empty");
            MC_CHECK(run, code.size() >= length, "the code of " << n << " is shorter than a previous one");
            length = code.size();
            MC_CHECK(run, seen.insert(code).second, "the code " << code << " of " << n << " is repeated");
        }
        run.trace();
    };
    return s;
}

mc::Space many(bool thorough) {
    mc::Space s;
    s.name = "many strings in an anonymizer";
    static const unsigned N[] = {30, 800, 20000, 200000};
    s.size = thorough ? 4 : 3;
    s.describe = [](uint64_t i) { return mc::str(N[i]) + " strings"; };
    s.run = [](uint64_t i, mc::Run& run) {
        Anonymizer a;
        std::set<std::string> codes;
        for (unsigned k = 0; k < N[i]; ++k) {
            std::string name = "name " + mc::str(k);
            std::string code = a.anonymizeString(name);
            run.count();
            MC_CHECK(run, codes.insert(code).second, "the code " << code << " is given twice");
            MC_CHECK(run, a.getStringCount() == k + 1, "count " << a.getStringCount());
        }
        std::stringstream csv;
        a.write(csv);
        Anonymizer b;
        b.read(csv);
        for (unsigned k = 0; k < N[i]; ++k) {
            std::string name = "name " + mc::str(k);
            std::string code = a.anonymizeString(name);
            MC_CHECK(run, a.deanonymizeString(code) == name && b.deanonymizeString(code) == name && b.anonymizeString(name) == code, name << " is not given back");
        }
        run.trace();
    };
    return s;
}

// ---- histories of an anonymizer -------------------------------------------------------------------------------------

class History : public mc::System {
public:
    static const std::vector<std::string>& texts() { static const std::vector<std::string> v = {"a", "b", "A", "x", "B", "q;\"1\n2"}; return v; }
    static const std::vector<std::pair<std::string, std::map<std::string, std::string>>>& files() {
        static const std::vector<std::pair<std::string, std::map<std::string, std::string>>> v = {
            {"x;B\n", {{"x", "B"}}}, {"y;A\nz;C\n", {{"y", "A"}, {"z", "C"}}}, {"w;AB\nv;D\n", {{"w", "AB"}, {"v", "D"}}}, {"", {}}};
        return v;
    }
    static unsigned size() { return static_cast<unsigned>(texts().size() + files().size() + 4); }
    static std::string name(unsigned op) {
        if (op < texts().size()) return "anonymize " + shown(texts()[op]);
        op -= static_cast<unsigned>(texts().size());
        if (op < files().size()) return "read " + shown(files()[op].first);
        op -= static_cast<unsigned>(files().size());
        static const char* const n[] = {"write and read into a new anonymizer", "read its own file again", "copy", "anonymize ''"};
        return n[op];
    }
    bool apply(unsigned op, mc::Run& run) override {
        if (op < texts().size()) {
            const std::string& t = texts()[op];
            std::string code = m_a.anonymizeString(t);
            auto it = m_model.find(t);
            if (it != m_model.end()) {
                MC_CHECK(run, code == it->second, shown(t) << " becomes " << code << " instead of " << it->second);
            } else {
                MC_CHECK(run, !code.empty(), "empty code");
                for (const auto& e : m_model) MC_CHECK(run, e.second != code, "the code " << code << " of " << shown(e.first) << " is given to " << shown(t));
                m_model[t] = code;
            }
            return true;
        }
        op -= static_cast<unsigned>(texts().size());
        if (op < files().size()) {
            for (const auto& e : files()[op].second) {
                auto it = m_model.find(e.first);
                if (it != m_model.end() && it->second != e.second) return false;   // contradictory mappings
                for (const auto& m : m_model) if (m.second == e.second && m.first != e.first) return false;
            }
            std::istringstream is(files()[op].first);
            m_a.read(is);
            for (const auto& e : files()[op].second) m_model.insert(e);
            return true;
        }
        op -= static_cast<unsigned>(files().size());
        if (op == 0 || op == 1) {
            std::stringstream csv;
            m_a.write(csv);
            if (op == 0) { Anonymizer b; b.read(csv); m_a = b; } else m_a.read(csv);
            return true;
        }
        if (op == 2) { Anonymizer b = m_a; Anonymizer c; c = std::move(b); m_a = c; return true; }
        MC_CHECK(run, m_a.anonymizeString("").empty(), "empty text gets a code");
        return true;
    }
    void check(mc::Run& run) override {
        MC_CHECK(run, m_a.getStringCount() == m_model.size(), m_a.getStringCount() << " strings instead of " << m_model.size());
        std::set<std::string> used;
        for (const auto& e : m_model) {
            std::string s, what;
            MC_CHECK(run, mc::accepted([&] { s = m_a.deanonymizeString(e.second); }, &what), "the code " << e.second << " is lost: " << what);
            MC_CHECK(run, s == e.first, "the code " << e.second << " gives " << shown(s) << " instead of " << shown(e.first));
            used.insert(e.second);
        }
        for (const char* c : {"A", "B", "C", "D", "E", "F", "G", "H", "AA", "AB", "a", "b", "x"}) {
            if (used.count(c)) continue;
            MC_CHECK(run, !mc::accepted([&] { m_a.deanonymizeString(c); }), "the unknown code " << c << " is accepted");
        }
        MC_CHECK(run, m_a.deanonymizeString("").empty(), "the empty code gives a text");
    }
    std::string key() override { std::string r; for (const auto& e : m_model) r += e.first + "=" + e.second + "\n"; return r; }

private:
    Anonymizer m_a;
    std::map<std::string, std::string> m_model;
};

}  // namespace

int main(int argc, char** argv) {
    char dir[] = "/tmp/verif-c15-XXXXXX";
    if (!mkdtemp(dir)) return 2;
    scratch = dir;
    mc::Config c;
    c.property = "C15";
    c.level = "exploration";
    c.rule = "every accepted combination of optional features of each kind of equipment, and every name up to the bound, exported anonymised and read back with and without the mapping; every history of an anonymizer; distinct anonymised documents";
    c.assumptions = {"one equipment with varying features at a time in a small network, plus complete networks", "free texts (properties, extension attributes, the network's own identifier) are not anonymised by design"};
    c.workerInit = [] { net::loadExtensions(); };
    int r = mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        for (const auto& f : features::all()) s.push_back(feature(f));
        s.push_back(identities());
        s.push_back(references());
        s.push_back(complete());
        s.push_back(named(2, 1));
        s.push_back(named(3, 0));
        if (thorough) { s.push_back(named(2, 2)); s.push_back(named(3, 1)); }
        s.push_back(sizes(thorough));
        s.push_back(alphas(thorough));
        s.push_back(many(thorough));
        s.push_back(mc::sequences("histories of an anonymizer", History::size(), thorough ? 6 : 4, mc::Queries::BOTH, [] { return std::unique_ptr<mc::System>(new History()); }, History::name));
    });
    // only files made by the workers are in there
    std::string cmd = "rm -rf " + scratch;
    if (scratch.compare(0, 15, "/tmp/verif-c15-") == 0 && std::system(cmd.c_str()) != 0) return 2;
    return r;
}
