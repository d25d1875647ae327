// C28: the options of exports and imports. The documents written with every combination of options are predicted from the document
// written with none of them (decided by C09); the options themselves are compared with a table of what was asked.
#include <algorithm>
#include <fstream>
#include <unistd.h>

#include "features.hpp"
#include "state.hpp"
#include "xmltok.hpp"

#include <powsybl/iidm/converter/xml/ExtensionXmlSerializer.hpp>
#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/LoadDetailAdder.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControlAdder.hpp>
#include <powsybl/stdcxx/Properties.hpp>

using namespace powsybl::iidm;  // NOLINT
using converter::ExportOptions;
using converter::ImportOptions;
using Behavior = ExportOptions::IidmVersionIncompatibilityBehavior;
using stdcxx::Properties;
using xmltok::Token;

namespace {

std::string scratch;

// ---- what was asked -----------------------------------------------------------------------------------------------

struct Asked {
    bool anonymised = false, indent = true, onlyMainCc = false, throwNotFound = false, branchSV = true;
    TopologyLevel level = TopologyLevel::NODE_BREAKER;
    std::string version;          // "": the current one
    Behavior behavior = Behavior::THROW_EXCEPTION;
    std::set<std::string> extensions;
    std::map<std::string, std::string> versions;

    bool selected(const std::string& e) const { return extensions.empty() || extensions.count(e); }
};

const std::vector<std::string> NAMES = {"a", "b", "c", "aa", "slackTerminal"};

std::string current(const std::string& v) { return v.empty() ? "1.5" : v; }

void compare(const ExportOptions& o, const Asked& a, mc::Run& run) {
    run.count();
    MC_CHECK(run, o.isAnonymized() == a.anonymised, "anonymised: " << o.isAnonymized());
    MC_CHECK(run, o.isIndent() == a.indent, "indent: " << o.isIndent());
    MC_CHECK(run, o.isOnlyMainCc() == a.onlyMainCc, "only main component: " << o.isOnlyMainCc());
    MC_CHECK(run, o.isThrowExceptionIfExtensionNotFound() == a.throwNotFound, "throw if extension not found: " << o.isThrowExceptionIfExtensionNotFound());
    MC_CHECK(run, o.isWithBranchSV() == a.branchSV, "branch state variables: " << o.isWithBranchSV());
    MC_CHECK(run, o.getTopologyLevel() == a.level, "topology level: " << mc::str(static_cast<int>(o.getTopologyLevel())));
    MC_CHECK(run, current(o.getVersion()) == current(a.version), "version: " << o.getVersion());
    MC_CHECK(run, o.getIidmVersionIncompatibilityBehavior() == a.behavior, "behaviour: " << static_cast<int>(o.getIidmVersionIncompatibilityBehavior()));
    for (const auto& n : NAMES) {
        MC_CHECK(run, o.withExtension(n) == a.selected(n), "extension " << n << " selected: " << o.withExtension(n));
        auto it = a.versions.find(n);
        MC_CHECK(run, o.getExtensionVersion(n) == (it == a.versions.end() ? "" : it->second), "version of " << n << ": " << o.getExtensionVersion(n));
    }
}

struct Choice { const char* key; const char* value; };   // key nullptr: absent

const std::vector<Choice> ANONYMISED = {{nullptr, ""}, {ExportOptions::ANONYMISED, "true"}, {ExportOptions::ANONYMISED, "false"}, {ExportOptions::ANONYMISED, "True"}, {ExportOptions::ANONYMISED, "FALSE"}};
const std::vector<Choice> INDENT = {{nullptr, ""}, {ExportOptions::INDENT, "true"}, {ExportOptions::INDENT, "false"}, {ExportOptions::INDENT, "TRUE"}, {ExportOptions::INDENT, "False"}};
const std::vector<Choice> MAINCC = {{nullptr, ""}, {ExportOptions::ONLY_MAIN_CC, "true"}, {ExportOptions::ONLY_MAIN_CC, "false"}, {ExportOptions::ONLY_MAIN_CC, "tRUE"}, {ExportOptions::ONLY_MAIN_CC, "fALSE"}};
const std::vector<Choice> BRANCHSV = {{nullptr, ""}, {ExportOptions::WITH_BRANCH_STATE_VARIABLES, "true"}, {ExportOptions::WITH_BRANCH_STATE_VARIABLES, "false"}, {ExportOptions::WITH_BRANCH_STATE_VARIABLES, "TRUE"}, {ExportOptions::WITH_BRANCH_STATE_VARIABLES, "FALSE"}};
const std::vector<Choice> THROW = {{nullptr, ""}, {ExportOptions::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, "true"}, {ExportOptions::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, "false"}, {"throwExceptionIfExtensionNotFound", "true"}, {"throwExceptionIfExtensionNotFound", "false"}};
const std::vector<Choice> LEVEL = {{nullptr, ""}, {ExportOptions::TOPOLOGY_LEVEL, "NODE_BREAKER"}, {ExportOptions::TOPOLOGY_LEVEL, "BUS_BREAKER"}, {ExportOptions::TOPOLOGY_LEVEL, "BUS_BRANCH"}, {ExportOptions::TOPOLOGY_LEVEL, "BUS"}, {ExportOptions::TOPOLOGY_LEVEL, ""}};
const std::vector<Choice> VERSION = {{nullptr, ""}, {ExportOptions::VERSION, "1.3"}, {ExportOptions::VERSION, "1.5"}};
const std::vector<Choice> BEHAVIOR = {{nullptr, ""}, {ExportOptions::IIDM_VERSION_INCOMPATIBILITY_BEHAVIOR, "THROW_EXCEPTION"}, {ExportOptions::IIDM_VERSION_INCOMPATIBILITY_BEHAVIOR, "LOG_ERROR"}, {ExportOptions::IIDM_VERSION_INCOMPATIBILITY_BEHAVIOR, "LOG"}};
const std::vector<Choice> LIST = {{nullptr, ""}, {ExportOptions::EXTENSIONS_LIST, "a"}, {ExportOptions::EXTENSIONS_LIST, "a,b"}, {ExportOptions::EXTENSIONS_LIST, "b:slackTerminal"}, {ExportOptions::EXTENSIONS_LIST, "c,aa:b"}};
const std::vector<const std::vector<Choice>*> CHOICES = {&ANONYMISED, &INDENT, &MAINCC, &BRANCHSV, &THROW, &LEVEL, &VERSION, &BEHAVIOR, &LIST};

bool isTrue(const Choice& c, bool absent) { return c.key ? (c.value[0] == 't' || c.value[0] == 'T') : absent; }

std::set<std::string> split(const std::string& s) {
    std::set<std::string> r;
    std::string w;
    for (char c : s + ",") { if (c == ',' || c == ':') { r.insert(w); w.clear(); } else w += c; }
    return r;
}

// every combination of the values of the properties
mc::Space properties(bool thorough) {
    mc::Space s;
    s.name = "options read from properties";
    std::vector<unsigned> dims;
    for (const auto* c : CHOICES) dims.push_back(static_cast<unsigned>(c->size()));
    if (!thorough) for (unsigned k : {0u, 1u, 2u, 3u}) dims[k] = 3;
    s.size = mc::product(dims) / dims.back();
    s.describe = [dims](uint64_t i) {
        std::string r;
        auto d = mc::decode(i, dims);
        for (size_t k = 0; k + 1 < d.size(); ++k) if ((*CHOICES[k])[d[k]].key) r += std::string((*CHOICES[k])[d[k]].key) + "=" + (*CHOICES[k])[d[k]].value + " ";
        return r + "and each list of extensions";
    };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        for (const auto& list : LIST) {
            Properties p;
            p.set("iidm.export.xml.other", "true");
            std::string text;
            for (size_t k = 0; k < d.size(); ++k) {
                const Choice& c = k + 1 == d.size() ? list : (*CHOICES[k])[d[k]];
                if (c.key) { p.set(c.key, c.value); text += std::string(c.key) + "=" + c.value + " "; }
            }
            run.distinct(text);
            bool bad = d[5] >= 4 || d[7] == 3;
            std::unique_ptr<ExportOptions> o;
            std::string what;
            bool ok = mc::accepted([&] { o.reset(new ExportOptions(p)); }, &what);
            run.transition();
            MC_CHECK(run, ok == !bad, text << (ok ? "accepted" : "refused: " + what));
            if (!ok) continue;
            Asked a;
            a.anonymised = isTrue(ANONYMISED[d[0]], false);
            a.indent = isTrue(INDENT[d[1]], true);
            a.onlyMainCc = isTrue(MAINCC[d[2]], false);
            a.branchSV = isTrue(BRANCHSV[d[3]], true);
            a.throwNotFound = isTrue(THROW[d[4]], false);
            a.level = d[5] == 2 ? TopologyLevel::BUS_BREAKER : d[5] == 3 ? TopologyLevel::BUS_BRANCH : TopologyLevel::NODE_BREAKER;
            a.version = VERSION[d[6]].value;
            a.behavior = d[7] == 2 ? Behavior::LOG_ERROR : Behavior::THROW_EXCEPTION;
            if (list.key) a.extensions = split(list.value);
            try { compare(*o, a, run); } catch (mc::Fail& f) { f.msg = text + ": " + f.msg; throw; }
            ExportOptions copy(*o);
            compare(copy, a, run);
            run.trace();
        }
    };
    return s;
}

mc::Space importProperties() {
    mc::Space s;
    s.name = "import options read from properties";
    const std::vector<Choice> lists = {{nullptr, ""}, {ImportOptions::EXTENSIONS_LIST, "a"}, {ImportOptions::EXTENSIONS_LIST, "a,b"}, {ImportOptions::EXTENSIONS_LIST, "b:slackTerminal"}, {ImportOptions::EXTENSIONS_LIST, "c,aa:b"}, {ExportOptions::EXTENSIONS_LIST, "a"}};
    const std::vector<Choice> flags = {{nullptr, ""}, {ImportOptions::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, "true"}, {ImportOptions::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, "false"}, {ImportOptions::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, "TRUE"},
                                       {"throwExceptionIfExtensionNotFound", "true"}, {"throwExceptionIfExtensionNotFound", "FALSE"}, {ExportOptions::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, "true"}};
    std::vector<unsigned> dims = {static_cast<unsigned>(lists.size()), static_cast<unsigned>(flags.size()), 5};
    s.size = mc::product(dims);
    s.describe = [=](uint64_t i) { auto d = mc::decode(i, dims); return std::string(lists[d[0]].value) + " / " + flags[d[1]].value + " / " + mc::str(d[2]); };
    s.run = [=](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        Properties p;
        if (lists[d[0]].key) p.set(lists[d[0]].key, lists[d[0]].value);
        if (flags[d[1]].key) p.set(flags[d[1]].key, flags[d[1]].value);
        ImportOptions o(p);
        bool thrown = d[1] != 6 && isTrue(flags[d[1]], false);
        std::set<std::string> asked;
        if (lists[d[0]].key && d[0] != 5) asked = split(lists[d[0]].value);
        if (d[2] == 1) { o.addExtension("aa"); asked.insert("aa"); }
        if (d[2] == 2) { o.setExtensions({"c"}); asked = {"c"}; }
        if (d[2] == 3) { o.setThrowExceptionIfExtensionNotFound(!thrown); thrown = !thrown; }
        if (d[2] == 4) { o.setExtensions({}); asked.clear(); }
        run.transition(2);
        run.count();
        run.trace();
        run.distinct("import " + mc::str(i));
        MC_CHECK(run, o.isThrowExceptionIfExtensionNotFound() == thrown, "throw if extension not found: " << !thrown);
        for (const auto& n : NAMES) MC_CHECK(run, o.withExtension(n) == (asked.empty() || asked.count(n) > 0), "extension " << n << " selected: " << o.withExtension(n));
    };
    return s;
}

// every sequence of requests on the options
struct Requests : mc::System {
    ExportOptions o;
    Asked a;

    struct Op { std::string name; std::function<void(Requests&)> f; };
    static const std::vector<Op>& ops() {
        static const std::vector<Op> r = {
            {"anonymised", [](Requests& s) { s.o.setAnonymized(true); s.a.anonymised = true; }},
            {"not anonymised", [](Requests& s) { s.o.setAnonymized(false); s.a.anonymised = false; }},
            {"no indent", [](Requests& s) { s.o.setIndent(false); s.a.indent = false; }},
            {"indent", [](Requests& s) { s.o.setIndent(true); s.a.indent = true; }},
            {"only main", [](Requests& s) { s.o.setOnlyMainCc(true); s.a.onlyMainCc = true; }},
            {"throw", [](Requests& s) { s.o.setThrowExceptionIfExtensionNotFound(true); s.a.throwNotFound = true; }},
            {"no throw", [](Requests& s) { s.o.setThrowExceptionIfExtensionNotFound(false); s.a.throwNotFound = false; }},
            {"no branch", [](Requests& s) { s.o.setWithBranchSV(false); s.a.branchSV = false; }},
            {"branch", [](Requests& s) { s.o.setWithBranchSV(true); s.a.branchSV = true; }},
            {"bus/breaker", [](Requests& s) { s.o.setTopologyLevel(TopologyLevel::BUS_BREAKER); s.a.level = TopologyLevel::BUS_BREAKER; }},
            {"bus", [](Requests& s) { s.o.setTopologyLevel(TopologyLevel::BUS_BRANCH); s.a.level = TopologyLevel::BUS_BRANCH; }},
            {"1.2", [](Requests& s) { s.o.setVersion("1.2"); s.a.version = "1.2"; }},
            {"1.5", [](Requests& s) { s.o.setVersion("1.5"); s.a.version = "1.5"; }},
            {"log", [](Requests& s) { s.o.setIidmVersionIncompatibilityBehavior(Behavior::LOG_ERROR); s.a.behavior = Behavior::LOG_ERROR; }},
            {"refuse", [](Requests& s) { s.o.setIidmVersionIncompatibilityBehavior(Behavior::THROW_EXCEPTION); s.a.behavior = Behavior::THROW_EXCEPTION; }},
            {"add a", [](Requests& s) { s.o.addExtension("a"); s.a.extensions.insert("a"); }},
            {"add slackTerminal", [](Requests& s) { s.o.addExtension("slackTerminal"); s.a.extensions.insert("slackTerminal"); }},
            {"set b c", [](Requests& s) { s.o.setExtensions({"b", "c"}); s.a.extensions = {"b", "c"}; }},
            {"set all", [](Requests& s) { s.o.setExtensions({}); s.a.extensions.clear(); }},
            {"a 1.0", [](Requests& s) { s.version("a", "1.0"); }},
            {"a 1.1", [](Requests& s) { s.version("a", "1.1"); }},
            {"b 2", [](Requests& s) { s.version("b", "2"); }},
        };
        return r;
    }
    // the version of an extension that was given one already, or that is not selected, is refused
    void version(const std::string& e, const std::string& v) {
        bool ok = mc::accepted([&] { o.addExtensionVersion(e, v); });
        bool second = a.versions.count(e) > 0;
        if (second) { if (ok) bad = "a second version of " + e + " is accepted"; return; }
        if (!a.selected(e)) { if (ok && o.getExtensionVersion(e) == v) a.versions[e] = v; return; }   // refused or ignored
        if (!ok) bad = "the version of " + e + " is refused"; else a.versions[e] = v;
    }
    std::string bad;
    bool apply(unsigned op, mc::Run& run) override { ops()[op].f(*this); if (!bad.empty()) run.fail(bad); return true; }
    void check(mc::Run& run) override { compare(o, a, run); }
    std::string key() override {
        std::string r = mc::str(a.anonymised) + mc::str(a.indent) + mc::str(a.onlyMainCc) + mc::str(a.throwNotFound) + mc::str(a.branchSV) + mc::str(static_cast<int>(a.level)) + a.version + mc::str(static_cast<int>(a.behavior));
        for (const auto& e : a.extensions) r += e + ",";
        for (const auto& e : a.versions) r += e.first + "=" + e.second + ",";
        return r;
    }
};

mc::Space requests(unsigned depth) {
    return mc::sequences("requests on the options, depth " + mc::str(depth), static_cast<unsigned>(Requests::ops().size()), depth, mc::Queries::NONE,
                         [] { return std::unique_ptr<mc::System>(new Requests()); }, [](unsigned i) { return Requests::ops()[i].name; });
}

mc::Space constructor() {
    mc::Space s;
    s.name = "options given to the constructor";
    std::vector<unsigned> dims = {2, 2, 2, 3, 2, 2, 2};
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { std::string r; for (unsigned x : mc::decode(i, dims)) r += mc::str(x) + " "; return r; };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        Asked a;
        a.branchSV = d[0];
        a.indent = d[1];
        a.onlyMainCc = d[2];
        a.level = d[3] == 0 ? TopologyLevel::NODE_BREAKER : d[3] == 1 ? TopologyLevel::BUS_BREAKER : TopologyLevel::BUS_BRANCH;
        a.throwNotFound = d[4];
        a.version = d[5] ? "1.3" : "";
        a.behavior = d[6] ? Behavior::LOG_ERROR : Behavior::THROW_EXCEPTION;
        compare(ExportOptions(a.branchSV, a.indent, a.onlyMainCc, a.level, a.throwNotFound, a.version, a.behavior), a, run);
        if (i == 0) { compare(ExportOptions(), Asked(), run); compare(ExportOptions(Properties()), Asked(), run); }
        run.transition();
        run.trace();
        run.distinct("constructor " + mc::str(i));
    };
    return s;
}

// ---- documents ----------------------------------------------------------------------------------------------------

// prefix of each extension known to the library, in the documents
const std::map<std::string, std::string>& prefixes() {
    static const std::map<std::string, std::string> r = [] {
        std::map<std::string, std::string> m;
        for (const auto& p : ExtensionProviders<converter::xml::ExtensionXmlSerializer>::getInstance().getProviders()) m[p.getExtensionName()] = p.getNamespacePrefix();
        return m;
    }();
    return r;
}

std::string local(const std::string& name) { size_t p = name.find(':'); return p == std::string::npos ? name : name.substr(p + 1); }

// the document expected when only some extensions are selected and the flows of the branches may be left out
std::vector<Token> expected(const std::vector<Token>& all, const Asked& a) {
    std::vector<Token> r;
    static const std::set<std::string> BRANCHES = {"line", "tieLine", "twoWindingsTransformer", "threeWindingsTransformer"};
    static const std::set<std::string> FLOWS = {"p1", "q1", "p2", "q2", "p3", "q3"};
    std::set<std::string> dropped;                 // prefixes of the extensions that are not selected
    for (const auto& p : prefixes()) if (!a.selected(p.first)) dropped.insert("xmlns:" + p.second);
    std::vector<std::string> open;
    size_t start = 0;                              // where the current extension element starts in r
    bool kept = false;
    for (size_t i = 0; i < all.size(); ++i) {
        const Token& t = all[i];
        if (t.element == "/") {
            std::string name = open.back();
            open.pop_back();
            r.push_back(t);
            if (open.size() == 1 && local(name) == "extension" && !kept) r.resize(start);
            continue;
        }
        if (t.attribute.empty()) {
            if (open.size() == 2 && local(open.back()) == "extension") {
                if (!a.selected(local(t.element))) {
                    int depth = 0;
                    for (;; ++i) { if (all[i].element == "/") { if (--depth == 0) break; } else if (all[i].attribute.empty()) ++depth; }
                    continue;
                }
                kept = true;
            }
            if (open.size() == 1 && local(t.element) == "extension") { start = r.size(); kept = false; }
            open.push_back(t.element);
            r.push_back(t);
            continue;
        }
        if (open.size() == 1 && dropped.count(t.attribute)) continue;
        if (!a.branchSV && BRANCHES.count(local(t.element)) && FLOWS.count(t.attribute)) continue;
        r.push_back(t);
    }
    return r;
}

std::string firstDifference(const std::vector<Token>& a, const std::vector<Token>& b) {
    auto text = [](const std::vector<Token>& v, size_t i) { return i < v.size() ? v[i].element + "/" + v[i].attribute + "=" + v[i].value : std::string("the end"); };
    for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) if (i >= a.size() || i >= b.size() || !(a[i] == b[i])) return "expected " + text(a, i) + ", found " + text(b, i) + " (token " + mc::str(i) + ")";
    return "";
}

const std::vector<std::string>& extensionNames() {
    static const std::vector<std::string> r = [] {
        std::set<std::string> s;
        Network n = net::full();
        for (const Identifiable& i : n.getIdentifiables()) for (const auto& e : i.getExtensions()) s.insert(e.getName());
        return std::vector<std::string>(s.begin(), s.end());
    }();
    return r;
}

// all, each one, each pair, all but one, one the network does not have
const std::vector<std::set<std::string>>& selections() {
    static const std::vector<std::set<std::string>> r = [] {
        const auto& names = extensionNames();
        std::vector<std::set<std::string>> v = {{}, {"unknown"}};
        std::set<std::string> all(names.begin(), names.end());
        v.push_back(all);
        for (const auto& n : names) {
            v.push_back({n});
            auto x = all;
            x.erase(n);
            v.push_back(x);
            v.push_back({n, "unknown"});
            for (const auto& m : names) if (n < m) v.push_back({n, m});
        }
        return v;
    }();
    return r;
}

std::string join(const std::set<std::string>& s) { std::string r; for (const auto& x : s) r += (r.empty() ? "" : ",") + x; return r; }

// voltage levels, flows everywhere, no reference to a busbar section so that every topology level is accepted
Network subject(unsigned kind) {
    net::FullOptions o;
    o.nodeBreaker = kind != 1;
    Network n = net::full(o);
    if (kind == 2) net::write(n, 2);
    return n;
}

mc::Space documents(bool thorough) {
    mc::Space s;
    s.name = "documents under every combination of options";
    unsigned nsel = static_cast<unsigned>(selections().size());
    // network, topology level, version, anonymised; for each, every selection with: branch state variables, indent
    std::vector<unsigned> dims = {3, 3, 3, 2, nsel};
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { auto d = mc::decode(i, dims); return "network " + mc::str(d[0]) + " level " + mc::str(d[1]) + " version " + mc::str(d[2]) + " anonymised " + mc::str(d[3]) + " extensions " + join(selections()[d[4]]); };
    s.run = [dims, thorough](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        const char* const versions[] = {"", "1.5", "1.3"};
        if (!thorough && d[4] > 2 && (d[2] == 1 || (d[3] == 1 && d[1] > 0))) return;
        Asked a;
        a.anonymised = d[3];
        a.level = d[1] == 0 ? TopologyLevel::NODE_BREAKER : d[1] == 1 ? TopologyLevel::BUS_BREAKER : TopologyLevel::BUS_BRANCH;
        a.version = versions[d[2]];
        a.behavior = d[2] == 2 ? Behavior::LOG_ERROR : Behavior::THROW_EXCEPTION;
        Network n = subject(d[0]);
        auto direct = [&](const Asked& x, bool throwNotFound) {
            ExportOptions o;
            o.setAnonymized(x.anonymised).setTopologyLevel(x.level).setVersion(x.version).setIidmVersionIncompatibilityBehavior(x.behavior).setIndent(x.indent).setWithBranchSV(x.branchSV).setExtensions(x.extensions)
                .setThrowExceptionIfExtensionNotFound(throwNotFound);
            return o;
        };
        auto write = [&](const ExportOptions& o, std::string& doc) {
            run.transition();
            std::ostringstream os;
            bool ok = mc::accepted([&] { Network::writeXml(scratch + "/m" + mc::str(::getpid()) + ".xml", os, n, o); });
            ::unlink((scratch + "/m" + mc::str(::getpid()) + ".csv").c_str());
            doc = os.str();
            return ok;
        };
        std::string base;
        bool accepted = write(direct(a, false), base);
        auto all = accepted ? xmltok::tokens(base) : std::vector<Token>();
        a.extensions = selections()[d[4]];
        for (unsigned k = 0; k < 4; ++k) {
            a.branchSV = !(k & 1u);
            a.indent = !(k & 2u);
            std::string doc, again;
            bool ok = write(direct(a, k == 3), doc);
            // the refusal of something that is not selected may go away
            if (!accepted && ok && !a.extensions.empty()) continue;
            MC_CHECK(run, ok == accepted, (ok ? "accepted" : "refused") << " with branch state variables " << a.branchSV << ", indentation " << a.indent << ", extensions " << join(a.extensions));
            if (!ok) { run.trace(); continue; }
            auto e = expected(all, a);
            auto found = xmltok::tokens(doc);
            MC_CHECK(run, e == found, "branch state variables " << a.branchSV << ", indentation " << a.indent << ", extensions " << join(a.extensions) << ": " << firstDifference(e, found));
            MC_CHECK(run, (doc.find(">\n ") != std::string::npos) == a.indent, "indentation " << a.indent << " is not what the document has");
            run.distinct(doc);
            run.count();
            run.trace();
            if (d[4] > 2 && !thorough && k) continue;
            // the same options given as properties, the same network built again: the same document
            Properties p;
            p.set(ExportOptions::ANONYMISED, mc::str(a.anonymised));
            p.set(ExportOptions::INDENT, mc::str(a.indent));
            p.set(ExportOptions::WITH_BRANCH_STATE_VARIABLES, mc::str(a.branchSV));
            p.set(ExportOptions::TOPOLOGY_LEVEL, d[1] == 0 ? "NODE_BREAKER" : d[1] == 1 ? "BUS_BREAKER" : "BUS_BRANCH");
            if (!a.version.empty()) p.set(ExportOptions::VERSION, a.version);
            p.set(ExportOptions::IIDM_VERSION_INCOMPATIBILITY_BEHAVIOR, d[2] == 2 ? "LOG_ERROR" : "THROW_EXCEPTION");
            if (!a.extensions.empty()) p.set(ExportOptions::EXTENSIONS_LIST, join(a.extensions));
            Network m = subject(d[0]);
            std::ostringstream os;
            Network::writeXml(scratch + "/m" + mc::str(::getpid()) + ".xml", os, m, ExportOptions(p));
            ::unlink((scratch + "/m" + mc::str(::getpid()) + ".csv").c_str());
            MC_CHECK(run, os.str() == doc, "the document of the same options read from properties is different");
            // and the file
            std::string path = scratch + "/f" + mc::str(::getpid()) + ".xml";
            Network::writeXml(boost::filesystem::path(path), n, direct(a, false));
            std::ifstream f(path);
            std::string content((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
            ::unlink(path.c_str());
            ::unlink((path.substr(0, path.size() - 3) + "csv").c_str());
            MC_CHECK(run, content == doc, "the file differs from the stream");
            run.transition(2);
        }
    };
    return s;
}

// ---- versions of the extensions -------------------------------------------------------------------------------------

const std::vector<std::string> SLACK = {"", "1.0", "1.1", "1.2", "1.3", "x"};
const std::vector<std::string> DETAIL = {"", "1.0", "1.1"};
const std::vector<std::string> DOC = {"", "1.0", "1.1", "1.2", "1.3", "1.4", "1.5", "0.9", "1.6", "x"};

mc::Space versions() {
    mc::Space s;
    s.name = "versions of the extensions";
    // asked versions of two extensions, version of the document, selection, extensions held by the network, order of the requests
    std::vector<unsigned> dims = {static_cast<unsigned>(SLACK.size()), static_cast<unsigned>(DETAIL.size()), static_cast<unsigned>(DOC.size()), 4, 4, 2, 2};
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) {
        auto d = mc::decode(i, dims);
        return "slackTerminal " + SLACK[d[0]] + " detail " + DETAIL[d[1]] + " document " + DOC[d[2]] + " selection " + mc::str(d[3]) + " held " + mc::str(d[4]) + " " + mc::str(d[5]) + mc::str(d[6]);
    };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        Network n = features::host();
        bool slack = d[4] & 1u, detail = d[4] & 2u;
        if (slack) n.getVoltageLevel("VB").newExtension<extensions::SlackTerminalAdder>().withTerminal(n.getLoad("K").getTerminal()).add();
        if (detail) n.getLoad("K").newExtension<extensions::LoadDetailAdder>().withFixedActivePower(1).withFixedReactivePower(2).withVariableActivePower(3).withVariableReactivePower(4).add();
        const std::vector<std::set<std::string>> sel = {{}, {"slackTerminal"}, {"detail"}, {"slackTerminal", "detail"}};
        const auto& selection = sel[d[3]];
        auto selected = [&](const std::string& e) { return selection.empty() || selection.count(e); };
        ExportOptions o;
        o.setVersion(DOC[d[2]]).setThrowExceptionIfExtensionNotFound(d[6]);
        if (d[5]) o.setExtensions(selection);
        std::map<std::string, std::string> asked;
        for (const auto& x : {std::make_pair(std::string("slackTerminal"), SLACK[d[0]]), std::make_pair(std::string("detail"), DETAIL[d[1]])}) {
            if (x.second.empty()) continue;
            if (mc::accepted([&] { o.addExtensionVersion(x.first, x.second); })) asked[x.first] = x.second;
            else MC_CHECK(run, d[5] && !selected(x.first), "the version of " << x.first << " is refused");
            run.transition();
        }
        if (!d[5]) o.setExtensions(selection);
        std::string doc, what;
        bool ok = mc::accepted([&] { doc = net::writeXml(n, o); }, &what);
        run.transition();
        static const std::map<std::string, std::string> COMPATIBLE = {{"1.3", "1.0"}, {"1.4", "1.1"}, {"1.5", "1.2"}};
        std::string v = current(DOC[d[2]]);
        bool bad = d[2] >= 7;
        std::string slackVersion;
        if (!bad && slack && selected("slackTerminal")) {
            auto it = COMPATIBLE.find(v);
            if (it == COMPATIBLE.end()) bad = true;
            else if (asked.count("slackTerminal") && asked["slackTerminal"] != it->second) bad = true;
            else slackVersion = it->second;
        }
        if (detail && selected("detail") && asked.count("detail") && asked["detail"] != "1.0") bad = true;
        MC_CHECK(run, ok == !bad, (ok ? "accepted" : "refused: " + what));
        run.count();
        run.trace();
        if (!ok) return;
        run.distinct(doc);
        std::map<std::string, std::string> uris;
        for (const auto& t : xmltok::tokens(doc)) if (t.attribute.compare(0, 6, "xmlns:") == 0 && t.attribute != "xmlns:iidm") uris[t.attribute.substr(6)] = t.value;
        std::map<std::string, std::string> expectedUris;
        if (!slackVersion.empty()) expectedUris["slt"] = "http://www.powsybl.org/schema/iidm/ext/slack_terminal/" + std::string(slackVersion == "1.0" ? "1_0" : slackVersion == "1.1" ? "1_1" : "1_2");
        if (detail && selected("detail")) expectedUris["ld"] = "http://www.itesla_project.eu/schema/iidm/ext/load_detail/1_0";
        MC_CHECK(run, uris == expectedUris, "declared namespaces: " << [&] { std::string r; for (const auto& u : uris) r += u.first + "=" + u.second + " "; return r; }());
        Network m = net::readXml(doc);
        run.transition();
        auto got = m.getVoltageLevel("VB").findExtension<extensions::SlackTerminal>();
        MC_CHECK(run, static_cast<bool>(got) == !slackVersion.empty(), "slack terminal read back: " << static_cast<bool>(got));
        if (got) MC_CHECK(run, got.get().getTerminal() && net::term(got.get().getTerminal().get()) == net::term(n.getLoad("K").getTerminal()), "another slack terminal is read back");
        auto ld = m.getLoad("K").findExtension<extensions::LoadDetail>();
        MC_CHECK(run, static_cast<bool>(ld) == (detail && selected("detail")), "load detail read back: " << static_cast<bool>(ld));
        if (ld) MC_CHECK(run, ld.get().getFixedActivePower() == 1 && ld.get().getFixedReactivePower() == 2 && ld.get().getVariableActivePower() == 3 && ld.get().getVariableReactivePower() == 4, "other load details are read back");
    };
    return s;
}

// ---- imports --------------------------------------------------------------------------------------------------------

mc::Space imports() {
    mc::Space s;
    s.name = "imports of selected extensions";
    std::vector<unsigned> dims = {3, static_cast<unsigned>(selections().size()), 2, 2, 2};
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { auto d = mc::decode(i, dims); return "network " + mc::str(d[0]) + " extensions " + join(selections()[d[1]]) + (d[2] ? " throw" : "") + (d[3] ? " properties" : "") + (d[4] ? " legacy" : ""); };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        if (d[4] && !d[3]) return;
        static std::map<unsigned, std::pair<std::string, net::Snapshot>> cache;
        if (!cache.count(d[0])) {
            Network n = subject(d[0]);
            std::string doc = net::writeXml(n);
            cache[d[0]] = {doc, net::dump(net::readXml(doc))};
        }
        const auto& c = cache[d[0]];
        const auto& selection = selections()[d[1]];
        ImportOptions o;
        if (d[3]) {
            Properties p;
            if (!selection.empty()) p.set(ImportOptions::EXTENSIONS_LIST, join(selection));
            p.set(d[4] ? "throwExceptionIfExtensionNotFound" : ImportOptions::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, mc::str(d[2] == 1));
            o = ImportOptions(p);
        } else {
            for (const auto& e : selection) o.addExtension(e);
            o.setThrowExceptionIfExtensionNotFound(d[2]);
        }
        net::Snapshot e;
        for (const auto& x : c.second) {
            size_t p = x.first.find("/ext/");
            size_t q = x.first.find("/extowner/");
            std::string name = p != std::string::npos ? x.first.substr(p + 5) : q != std::string::npos ? x.first.substr(q + 10) : "";
            name = name.substr(0, name.find('/'));
            if (name.empty() || selection.empty() || selection.count(name)) e.insert(x);
        }
        std::string what;
        std::unique_ptr<net::Snapshot> got;
        bool ok = mc::accepted([&] { got.reset(new net::Snapshot(net::dump(net::readXml(c.first, o)))); }, &what);
        run.transition();
        MC_CHECK(run, ok, "refused: " << what);
        std::string diff = net::diff(e, *got);
        MC_CHECK(run, diff.empty(), "extensions " << join(selection) << ": " << diff);
        run.distinct(mc::str(i));
        run.count();
        run.trace();
    };
    return s;
}

// an extension of which nobody knows the format, in the document
const std::vector<std::string> STRANGE = {
    "<foo:strange/>",
    "<foo:strange a=\"1\"></foo:strange>",
    "<foo:strange>text</foo:strange>",
    "<foo:strange><foo:child x=\"1\"/><foo:child>t</foo:child></foo:strange>",
    "<foo:strange><foo:detail fixedActivePower=\"7\"/><foo:extension/><foo:load id=\"K\"/></foo:strange>",
    "<foo:strange/><foo:other><foo:strange/></foo:other>",
    "<!-- comment --><foo:strange/>",
};

mc::Space unknown() {
    mc::Space s;
    s.name = "unknown extensions in the document";
    // shape, place, selection, throw, owner of other extensions
    std::vector<unsigned> dims = {static_cast<unsigned>(STRANGE.size()), 4, 5, 2};
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { auto d = mc::decode(i, dims); return STRANGE[d[0]] + " place " + mc::str(d[1]) + " selection " + mc::str(d[2]) + " throw " + mc::str(d[3]); };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        Network n = features::host();
        n.getVoltageLevel("VB").newExtension<extensions::SlackTerminalAdder>().withTerminal(n.getLoad("K").getTerminal()).add();
        n.getLoad("K").newExtension<extensions::LoadDetailAdder>().withFixedActivePower(1).withFixedReactivePower(2).withVariableActivePower(3).withVariableReactivePower(4).add();
        std::string doc = net::writeXml(n);
        std::string strange = doc;
        size_t p = strange.find(" id=\"host\"");
        strange.insert(p, " xmlns:foo=\"http://foo/1_0\"");
        size_t before = strange.find("<ld:detail"), after = strange.find("/>", before) + 2, end = strange.find("</iidm:network>");
        switch (d[1]) {
            case 0: strange.insert(before, STRANGE[d[0]]); break;
            case 1: strange.insert(after, STRANGE[d[0]]); break;
            case 2: strange.insert(end, "<iidm:extension id=\"S2\">" + STRANGE[d[0]] + "</iidm:extension>"); break;
            default: strange.insert(strange.find("<iidm:extension"), "<iidm:extension id=\"VC\">" + STRANGE[d[0]] + "</iidm:extension>"); break;
        }
        const std::vector<std::set<std::string>> sel = {{}, {"detail"}, {"strange", "detail"}, {"slackTerminal", "detail", "strange", "other"}, {"none"}};
        ImportOptions o;
        o.setExtensions(sel[d[2]]).setThrowExceptionIfExtensionNotFound(d[3]);
        bool wanted = sel[d[2]].empty() || sel[d[2]].count("strange");
        std::string what;
        std::unique_ptr<net::Snapshot> got;
        bool ok = mc::accepted([&] { got.reset(new net::Snapshot(net::dump(net::readXml(strange, o)))); }, &what);
        run.transition();
        run.count();
        run.trace();
        run.distinct(mc::str(i));
        MC_CHECK(run, ok == !(d[3] && wanted), (ok ? "accepted" : "refused: " + what));
        if (!ok) return;
        ImportOptions plain;
        plain.setExtensions(sel[d[2]]);
        std::string diff = net::diff(net::dump(net::readXml(doc, plain)), *got);
        MC_CHECK(run, diff.empty(), "the unknown extension changes the network: " << diff);
    };
    return s;
}

// an extension that cannot be written
mc::Space unwritable() {
    mc::Space s;
    s.name = "extensions without serializer";
    // holders, selection, throw, by properties (documented and legacy name)
    std::vector<unsigned> dims = {4, 5, 2, 3};
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { auto d = mc::decode(i, dims); return "holders " + mc::str(d[0]) + " selection " + mc::str(d[1]) + " throw " + mc::str(d[2]) + " properties " + mc::str(d[3]); };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        Network n = features::host();
        for (const char* id : {"GA", "GB"}) n.getVoltageLevel("VB").newGenerator().setId(id).setBus("B2").setConnectableBus("B2").setMinP(0).setMaxP(10).setTargetP(1).setTargetQ(1).setVoltageRegulatorOn(false).add();
        n.getLoad("K").newExtension<extensions::LoadDetailAdder>().withFixedActivePower(1).withFixedReactivePower(2).withVariableActivePower(3).withVariableReactivePower(4).add();
        const std::vector<std::set<std::string>> sel = {{}, {"detail"}, {"generatorRemoteReactivePowerControl"}, {"generatorRemoteReactivePowerControl", "detail"}, {"none"}};
        const auto& selection = sel[d[1]];
        auto options = [&](bool thrown) {
            if (d[3] == 0) return ExportOptions().setExtensions(selection).setThrowExceptionIfExtensionNotFound(thrown);
            Properties p;
            p.set(d[3] == 1 ? ExportOptions::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND : "throwExceptionIfExtensionNotFound", mc::str(thrown));
            if (!selection.empty()) p.set(ExportOptions::EXTENSIONS_LIST, join(selection));
            return ExportOptions(p);
        };
        std::string without = net::writeXml(n, options(d[2]));
        std::string name;
        for (unsigned k : {0u, 1u}) {
            if (!(d[0] & (1u << k))) continue;
            Generator& g = n.getGenerator(k ? "GB" : "GA");
            g.newExtension<extensions::iidm::RemoteReactivePowerControlAdder>().withTargetQ(1).withRegulatingTerminal(n.getLoad("K").getTerminal()).withEnabled(true).add();
            for (const auto& e : g.getExtensions()) name = e.getName();
        }
        bool wanted = d[0] != 0 && (selection.empty() || selection.count(name));
        std::string doc, what;
        bool ok = mc::accepted([&] { doc = net::writeXml(n, options(d[2])); }, &what);
        run.transition();
        run.count();
        run.trace();
        run.distinct(mc::str(i));
        MC_CHECK(run, ok == !(wanted && d[2]), (ok ? "accepted" : "refused: " + what));
        if (!ok) return;
        MC_CHECK(run, doc == without, "the document differs from the one without the extension");
    };
    return s;
}

}  // namespace

int main(int argc, char** argv) {
    char dir[] = "/tmp/verif-c28-XXXXXX";
    if (!::mkdtemp(dir)) return 2;
    scratch = dir;
    mc::Config c;
    c.property = "C28";
    c.level = "model_checking";
    c.rule = "every combination of option values, every sequence of requests on the options, every combination of options applied to complete networks; distinct option sets and documents";
    c.assumptions = {"the document written without any option (decided by C09, C24 and C25)"};
    c.workerInit = [] { net::loadExtensions(); };
    int r = mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        s.push_back(properties(thorough));
        s.push_back(importProperties());
        s.push_back(requests(thorough ? 4 : 3));
        s.push_back(constructor());
        s.push_back(documents(thorough));
        s.push_back(versions());
        s.push_back(imports());
        s.push_back(unknown());
        s.push_back(unwritable());
    });
    ::rmdir(dir);
    return r;
}
