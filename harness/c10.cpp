// C10: every truncation, and every single damage of an element, an attribute, a value or a byte of reference documents.
#include <cstdlib>
#include <fstream>
#include <new>
#include <set>
#include <streambuf>
#include <unistd.h>

#include "features.hpp"

using namespace powsybl::iidm;  // NOLINT

// a request for an unreasonable amount of memory is refused, whatever the memory of the machine
void* operator new(std::size_t n) {
    if (n > (std::size_t(256) << 20)) throw std::bad_alloc();
    void* p = std::malloc(n == 0 ? 1 : n);
    if (p == nullptr) throw std::bad_alloc();
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

namespace {

std::string scratch;

// ---- documents --------------------------------------------------------------------------------------------------

struct Attribute { size_t begin, end, nameBegin, nameEnd, valueBegin, valueEnd; };       // begin: the space before the name
struct Element {
    size_t begin, end;            // the whole element
    size_t nameBegin, nameEnd;    // in the start tag
    size_t tagEnd;                // after the start tag
    size_t closeBegin;            // begin of the end tag, 0 for an empty element
    int parent;
    std::string name;
    std::vector<Attribute> attributes;
};

struct Document {
    std::string name;
    std::string text;
    std::vector<Element> elements;
    std::vector<unsigned> texts;          // elements holding a text only
    std::vector<unsigned> representative; // one element for each pair of names of an element and its parent not found in the previous documents
    std::vector<unsigned> names;          // one element for each name
    std::vector<std::pair<unsigned, unsigned>> attributes, representativeAttributes;
    std::vector<std::string> elementNames, attributeNames;
};

void parse(Document& d, std::set<std::string>& pairs, std::set<std::string>& attributePairs) {
    const std::string& t = d.text;
    std::vector<unsigned> open;
    size_t p = t.find("?>") + 2;
    while ((p = t.find('<', p)) != std::string::npos) {
        if (t[p + 1] == '/') {
            Element& e = d.elements[open.back()];
            open.pop_back();
            e.closeBegin = p;
            p = t.find('>', p) + 1;
            e.end = p;
            continue;
        }
        Element e{};
        e.begin = p;
        e.nameBegin = p + 1;
        e.nameEnd = t.find_first_of(" />", p);
        e.name = t.substr(e.nameBegin, e.nameEnd - e.nameBegin);
        e.parent = open.empty() ? -1 : static_cast<int>(open.back());
        p = e.nameEnd;
        while (t[p] == ' ') {
            Attribute a{};
            a.begin = p;
            a.nameBegin = p + 1;
            a.nameEnd = t.find('=', p);
            a.valueBegin = a.nameEnd + 2;
            a.valueEnd = t.find('"', a.valueBegin);
            a.end = a.valueEnd + 1;
            e.attributes.push_back(a);
            p = a.end;
        }
        bool empty = t[p] == '/';
        p = t.find('>', p) + 1;
        e.tagEnd = e.end = p;
        if (!empty) open.push_back(static_cast<unsigned>(d.elements.size()));
        d.elements.push_back(e);
    }
    std::set<std::string> elementNames, attributeNames;
    for (unsigned i = 0; i < d.elements.size(); ++i) {
        const Element& e = d.elements[i];
        if (elementNames.insert(e.name).second) d.names.push_back(i);
        if (e.closeBegin != 0 && t.find('<', e.tagEnd) == e.closeBegin) d.texts.push_back(i);
        if (pairs.insert((e.parent < 0 ? d.name : d.elements[e.parent].name) + " " + e.name).second) d.representative.push_back(i);
        for (unsigned k = 0; k < e.attributes.size(); ++k) {
            const Attribute& a = e.attributes[k];
            const std::string name = t.substr(a.nameBegin, a.nameEnd - a.nameBegin);
            if (name.compare(0, 5, "xmlns") != 0) attributeNames.insert(name);
            d.attributes.emplace_back(i, k);
            if (attributePairs.insert(e.name + " " + name).second) d.representativeAttributes.emplace_back(i, k);
        }
    }
    d.elementNames.assign(elementNames.begin(), elementNames.end());
    d.attributeNames.assign(attributeNames.begin(), attributeNames.end());
}

converter::ExportOptions compact() {
    converter::ExportOptions o;
    o.setIndent(false);
    return o;
}

Network small() {
    Network n = features::host();
    n.setProperty("k", "v");
    n.getVoltageLevel("VB").newLoad().setId("LD").setBus("B1").setConnectableBus("B1").setP0(1.0).setQ0(2.0).add().addAlias("ALD");
    return n;
}

const std::vector<Document>& documents() {
    static const std::vector<Document> docs = [] {
        std::vector<Document> r;
        std::set<std::string> pairs, attributePairs;
        const auto add = [&r, &pairs, &attributePairs](const std::string& name, const Network& n, const converter::ExportOptions& o) {
            Document d;
            d.name = name;
            d.text = net::writeXml(n, o);
            parse(d, pairs, attributePairs);
            r.push_back(d);
        };
        add("complete", net::full(), compact());
        net::FullOptions fo;
        fo.nodeBreaker = false;
        add("complete, bus/breaker", net::full(fo), compact());
        add("small", small(), compact());
        converter::ExportOptions bus = compact();
        bus.setTopologyLevel(TopologyLevel::BUS_BREAKER);
        add("complete, written at the bus/breaker level", net::full(), bus);
        converter::ExportOptions old = compact();
        old.setVersion("1.0").setIidmVersionIncompatibilityBehavior(converter::ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR);
        net::FullOptions without;
        without.extensions = false;
        add("complete, oldest version", net::full(without), old);
        return r;
    }();
    return docs;
}

// ---- oracle -----------------------------------------------------------------------------------------------------

std::string excerpt(const std::string& text, size_t at) {
    size_t b = at > 60 ? at - 60 : 0;
    std::string s = text.substr(b, 160);
    for (char& c : s) if (c == '\n' || c == '\0') c = ' ';
    return s;
}

void usable(Network& n, mc::Run& run, const std::string& what, bool writable = true) {
    // every name leads to its object, every container to its contents, and the other way round
    for (auto& i : n.getIdentifiables()) {
        MC_CHECK(run, &n.getIdentifiable(i.getId()) == &i, what << ": the identifier " << i.getId() << " does not lead to its object");
        for (const auto& a : i.getAliases()) MC_CHECK(run, &n.getIdentifiable(a) == &i, what << ": the alias " << a << " does not lead to its object");
    }
    for (auto& vl : n.getVoltageLevels()) {
        for (auto& c : vl.getConnectables()) {
            bool found = false;
            for (const Terminal& t : c.getTerminals()) found = found || &t.getVoltageLevel() == &vl;
            MC_CHECK(run, found, what << ": " << c.getId() << " is listed in " << vl.getId() << " and has no terminal there");
        }
        const auto checkBuses = [&](const Bus& b) {
            for (const Terminal& t : b.getConnectedTerminals()) MC_CHECK(run, &t.getVoltageLevel() == &vl, what << ": bus " << b.getId() << " holds a terminal of " << t.getVoltageLevel().getId());
        };
        for (const auto& b : vl.getBusView().getBuses()) checkBuses(b);
        for (const auto& b : vl.getBusBreakerView().getBuses()) checkBuses(b);
    }
    const net::Snapshot s = net::dump(n);
    for (const auto& kv : s) MC_CHECK(run, kv.second.empty() || kv.second[0] != '!' , what << ": cannot observe " << kv.first << ": " << kv.second);
    // it can be written and read back
    std::string xml, err;
    const bool written = mc::accepted([&] { xml = net::writeXml(n, compact()); }, &err);
    MC_CHECK(run, written || !writable, what << ": the network that was read cannot be written: " << err);
    const bool read = !written || mc::accepted([&] {
        Network again = net::readXml(xml);
        MC_CHECK(run, again.getId() == n.getId() && net::ids(again.getConnectables()) == net::ids(n.getConnectables()), what << ": the network that was read changes when it is written and read again");
    }, &err);
    MC_CHECK(run, read, what << ": the network that was read cannot be read again: " << err);
    // and it can be emptied
    std::vector<std::string> hvdc, connectables;
    for (const auto& l : n.getHvdcLines()) hvdc.push_back(l.getId());
    for (const auto& i : n.getIdentifiables()) if (dynamic_cast<const Connectable*>(&i) != nullptr) connectables.push_back(i.getId());
    const bool emptied = mc::accepted([&] {
        for (const auto& id : hvdc) n.getHvdcLine(id).remove();
        for (const auto& id : connectables) dynamic_cast<Connectable&>(n.getIdentifiable(id)).remove();
        for (const auto& vl : n.getVoltageLevels()) net::ids(vl.getBusView().getBuses());
    }, &err);
    MC_CHECK(run, emptied, what << ": the network that was read cannot be emptied: " << err);
}

// complete: the document still is one
void import(const std::string& xml, mc::Run& run, const std::string& what, bool complete = true) {
    run.transition();
    run.count();
    std::unique_ptr<Network> n;
    std::string err;
    const bool read = mc::accepted([&] { n = stdcxx::make_unique<Network>(net::readXml(xml)); }, &err);
    run.distinct(read ? "accepted " + what : err);
    if (!read) { run.trace(); return; }
    MC_CHECK(run, complete, what << ": accepted");
    usable(*n, run, what);
    run.trace();
}

// ---- truncation -------------------------------------------------------------------------------------------------

class Source : public std::streambuf {
public:
    enum Fault { END, EXCEPTION };
    Source(const std::string& text, size_t available, Fault fault) : m_text(text), m_available(available), m_fault(fault) {}

protected:
    std::streamsize xsgetn(char* s, std::streamsize n) override {
        size_t k = std::min<size_t>({static_cast<size_t>(n), m_available - m_position, 1000});
        if (k == 0 && m_available < m_text.size() && m_fault == EXCEPTION) throw std::runtime_error("read error");
        m_text.copy(s, k, m_position);
        m_position += k;
        return static_cast<std::streamsize>(k);
    }
    int_type underflow() override { return traits_type::eof(); }

private:
    const std::string& m_text;
    size_t m_available;
    size_t m_position = 0;
    Fault m_fault;
};

void addTruncations(const std::string& name, const std::string& text, std::vector<mc::Space>& spaces) {
    size_t complete = text.find_last_not_of(" \n") + 1;
    mc::Space s;
    s.name = "truncated: " + name;
    s.size = text.size() + 1;
    s.describe = [&text](uint64_t i) { return "after " + std::to_string(i) + " bytes: " + excerpt(text, i); };
    s.run = [&text, complete](uint64_t i, mc::Run& run) {
        import(text.substr(0, i), run, "document of " + std::to_string(text.size()) + " bytes truncated after " + std::to_string(i), i >= complete);
    };
    spaces.push_back(s);
}

void addReadErrors(const std::string& text, std::vector<mc::Space>& spaces) {
    mc::Space s;
    s.name = "read error of the source";
    s.size = text.size() * 2;
    s.describe = [](uint64_t i) { return std::string(i % 2 == 0 ? "end" : "error") + " after " + std::to_string(i / 2) + " bytes"; };
    s.run = [&text](uint64_t i, mc::Run& run) {
        run.count();
        Source source(text, i / 2, i % 2 == 0 ? Source::END : Source::EXCEPTION);
        std::istream is(&source);
        bool read = true;
        try { Network n = Network::readXml("mem.xml", is); } catch (...) { read = false; }
        MC_CHECK(run, !read || i / 2 >= text.find_last_not_of(" \n") + 1, "source that ends after " << i / 2 << " bytes: accepted");
        run.trace();
    };
    spaces.push_back(s);
}

// ---- elements ---------------------------------------------------------------------------------------------------

std::string cut(const std::string& t, size_t b, size_t e, const std::string& by = "") { return t.substr(0, b) + by + t.substr(e); }

std::string rename(const Document& d, const Element& e, const std::string& name) {
    std::string t = d.text;
    if (e.closeBegin != 0) t.replace(e.closeBegin + 2, e.name.size(), name);
    t.replace(e.nameBegin, e.name.size(), name);
    return t;
}

enum ElementDamage { DELETE, DUPLICATE, DUPLICATE_FIRST, DUPLICATE_LAST, MOVE_FIRST, MOVE_LAST, SWAP, UNWRAP, EMPTY, NEST, NO_END, NO_START, COMMENT, TEXT_BEFORE, TEXT_IN, CDATA, UNKNOWN, NO_PREFIX, NO_ATTRIBUTE, ELEMENT_DAMAGES };
const char* const ELEMENT_DAMAGE_NAMES[] = {"deleted", "duplicated", "copied at the beginning of its parent", "copied at the end of its parent", "moved to the beginning of its parent", "moved to the end of its parent",
    "swapped with the following one", "replaced by its contents", "without contents", "nested in itself", "without end tag", "without start tag", "preceded by a comment", "preceded by a text", "with a text inside",
    "with a CDATA section inside", "renamed to something unknown", "without namespace", "without attribute"};

std::string damageElement(const Document& d, unsigned index, unsigned damage) {
    const std::string& t = d.text;
    const Element& e = d.elements[index];
    const std::string whole = t.substr(e.begin, e.end - e.begin);
    const Element& parent = d.elements[e.parent < 0 ? 0 : e.parent];
    switch (damage) {
        case DELETE: return cut(t, e.begin, e.end);
        case DUPLICATE: return cut(t, e.end, e.end, whole);
        case DUPLICATE_FIRST: return e.parent < 0 ? "" : cut(t, parent.tagEnd, parent.tagEnd, whole);
        case DUPLICATE_LAST: return e.parent < 0 ? "" : cut(t, parent.closeBegin, parent.closeBegin, whole);
        case MOVE_FIRST: return e.parent < 0 ? "" : cut(cut(t, e.begin, e.end), parent.tagEnd, parent.tagEnd, whole);
        case MOVE_LAST: return e.parent < 0 ? "" : cut(cut(t, parent.closeBegin, parent.closeBegin, whole), e.begin, e.end);
        case SWAP: {
            for (unsigned k = index + 1; k < d.elements.size(); ++k) {
                const Element& f = d.elements[k];
                if (f.begin == e.end && f.parent == e.parent) return t.substr(0, e.begin) + t.substr(f.begin, f.end - f.begin) + whole + t.substr(f.end);
            }
            return "";
        }
        case UNWRAP: return e.closeBegin == 0 ? "" : cut(t, e.begin, e.end, t.substr(e.tagEnd, e.closeBegin - e.tagEnd));
        case EMPTY: return e.closeBegin == 0 ? "" : cut(t, e.tagEnd, e.closeBegin);
        case NEST: {
            if (e.closeBegin != 0) return cut(t, e.tagEnd, e.tagEnd, whole);
            return cut(t, e.begin, e.end, whole.substr(0, whole.size() - 2) + ">" + whole + "</" + e.name + ">");
        }
        case NO_END: return e.closeBegin == 0 ? cut(t, e.tagEnd - 2, e.tagEnd, ">") : cut(t, e.closeBegin, e.end);
        case NO_START: return e.closeBegin == 0 ? cut(t, e.begin, e.end, "</" + e.name + ">") : cut(t, e.begin, e.tagEnd);
        case COMMENT: return cut(t, e.begin, e.begin, "<!-- c --><?pi x?>");
        case TEXT_BEFORE: return cut(t, e.begin, e.begin, "text");
        case TEXT_IN: return e.closeBegin == 0 ? cut(t, e.end - 2, e.end, ">text</" + e.name + ">") : cut(t, e.closeBegin, e.closeBegin, "text");
        case CDATA: return e.closeBegin == 0 ? cut(t, e.end - 2, e.end, "><![CDATA[<x/>]]></" + e.name + ">") : cut(t, e.tagEnd, e.tagEnd, "<![CDATA[<x/>]]>");
        case UNKNOWN: return rename(d, e, e.name.substr(0, e.name.find(':') + 1) + "unknown");
        case NO_PREFIX: return rename(d, e, e.name.substr(e.name.find(':') + 1));
        default: {
            if (e.attributes.empty() || e.parent < 0) return "";
            return cut(t, e.attributes.front().begin, e.attributes.back().end);
        }
    }
}

std::string place(const Document& d, const Element& e) { return "<" + e.name + "> at byte " + std::to_string(e.begin) + " (" + excerpt(d.text, e.begin + 60) + ")"; }

void addElements(const Document& d, const std::vector<unsigned>& which, std::vector<mc::Space>& spaces) {
    mc::Space s;
    s.name = "elements: " + d.name;
    s.size = which.size() * ELEMENT_DAMAGES;
    s.describe = [&d, which](uint64_t i) { return place(d, d.elements[which[i / ELEMENT_DAMAGES]]) + " " + ELEMENT_DAMAGE_NAMES[i % ELEMENT_DAMAGES]; };
    s.run = [&d, which](uint64_t i, mc::Run& run) {
        const Element& e = d.elements[which[i / ELEMENT_DAMAGES]];
        const unsigned damage = i % ELEMENT_DAMAGES;
        const std::string xml = damageElement(d, which[i / ELEMENT_DAMAGES], damage);
        if (!xml.empty()) import(xml, run, place(d, e) + " " + ELEMENT_DAMAGE_NAMES[damage], damage != NO_END && damage != NO_START);
    };
    spaces.push_back(s);
}

void addRenamed(const Document& d, const std::vector<unsigned>& which, std::vector<mc::Space>& spaces) {
    mc::Space s;
    s.name = "renamed elements: " + d.name;
    const uint64_t n = d.elementNames.size();
    s.size = which.size() * n;
    s.describe = [&d, which, n](uint64_t i) { return place(d, d.elements[which[i / n]]) + " renamed to " + d.elementNames[i % n]; };
    s.run = [&d, which, n](uint64_t i, mc::Run& run) {
        const Element& e = d.elements[which[i / n]];
        if (e.name != d.elementNames[i % n]) import(rename(d, e, d.elementNames[i % n]), run, place(d, e) + " renamed to " + d.elementNames[i % n]);
    };
    spaces.push_back(s);
}

// an element moved (or copied) to the beginning or the end of another one
void addMoved(const Document& d, const std::vector<unsigned>& which, std::vector<mc::Space>& spaces) {
    mc::Space s;
    s.name = "moved elements: " + d.name;
    const uint64_t n = which.size();
    s.size = n * n;
    s.describe = [&d, which, n](uint64_t i) { return place(d, d.elements[which[i / n]]) + " moved into " + place(d, d.elements[which[i % n]]); };
    s.run = [&d, which, n](uint64_t i, mc::Run& run) {
        const Element& e = d.elements[which[i / n]];
        const Element& to = d.elements[which[i % n]];
        if (to.begin >= e.begin && to.end <= e.end) return;
        std::string t = d.text;
        const std::string whole = t.substr(e.begin, e.end - e.begin);
        const size_t at = to.closeBegin == 0 ? to.tagEnd - 2 : to.closeBegin;
        const std::string by = to.closeBegin == 0 ? ">" + whole + "</" + to.name + ">" : whole;
        const size_t until = to.closeBegin == 0 ? to.tagEnd : to.closeBegin;
        if (e.begin < to.begin) {
            t = cut(cut(t, at, until, by), e.begin, e.end);
        } else if (e.begin >= at) {
            t = cut(cut(t, e.begin, e.end), at, until, by);
        } else {
            t = cut(cut(t, at, until, by), e.begin, e.end);   // inside the destination: moved to its end
        }
        import(t, run, place(d, e) + " moved into " + place(d, to));
    };
    spaces.push_back(s);
}

// ---- attributes -------------------------------------------------------------------------------------------------

enum AttributeDamage { A_DELETE, A_DUPLICATE, A_UNKNOWN, A_CASE, A_UNQUOTED, ATTRIBUTE_DAMAGES };
const char* const ATTRIBUTE_DAMAGE_NAMES[] = {"deleted", "duplicated", "renamed to something unknown", "in upper case", "without quotes"};

// values of other kinds, and values at or over the limits of each kind
std::vector<std::string> hostile(bool thorough) {
    static const std::vector<std::string> v = {"", "abc", "true", "0", "1", "2", "-1", "99", "-0.5", "1e308", "nan", "inf", "2147483647", "18446744073709551615", "1,", "%1%", "&lt;", "VOLTAGE", "TWO", "99999999999999999999", "NODE_BREAKER",
        " ", "false", "TRUE", "-2", "3", "0.5", "-1e308", "1e309", "1e-320", "NaN", "-inf", "INF", "0x10", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "18446744073709551616", "1 2", "1,2", ",1", ",", "-1,2",
        "&#10;", "&#x10FFFF;", "\xc3\xa9", "BUS_BREAKER", "BREAKER", "CURRENT_LIMITER", "ONE", "THREE", "FR", "OTHER"};
    return thorough ? v : std::vector<std::string>(v.begin(), v.begin() + 16);
}

std::string value(const Document& d, const std::pair<unsigned, unsigned>& a) {
    const Attribute& x = d.elements[a.first].attributes[a.second];
    return d.text.substr(x.valueBegin, x.valueEnd - x.valueBegin);
}

std::string attributePlace(const Document& d, const std::pair<unsigned, unsigned>& a) {
    const Attribute& x = d.elements[a.first].attributes[a.second];
    return "attribute" + d.text.substr(x.begin, x.end - x.begin) + " of " + place(d, d.elements[a.first]);
}

void addAttributes(const Document& d, const std::vector<std::pair<unsigned, unsigned>>& which, bool thorough, std::vector<mc::Space>& spaces) {
    {
        mc::Space s;
        s.name = "attributes: " + d.name;
        s.size = which.size() * ATTRIBUTE_DAMAGES;
        s.describe = [&d, which](uint64_t i) { return attributePlace(d, which[i / ATTRIBUTE_DAMAGES]) + " " + ATTRIBUTE_DAMAGE_NAMES[i % ATTRIBUTE_DAMAGES]; };
        s.run = [&d, which](uint64_t i, mc::Run& run) {
            const auto& a = which[i / ATTRIBUTE_DAMAGES];
            const Attribute& x = d.elements[a.first].attributes[a.second];
            const std::string& t = d.text;
            std::string xml;
            switch (i % ATTRIBUTE_DAMAGES) {
                case A_DELETE: xml = cut(t, x.begin, x.end); break;
                case A_DUPLICATE: xml = cut(t, x.end, x.end, t.substr(x.begin, x.end - x.begin)); break;
                case A_UNKNOWN: xml = cut(t, x.nameBegin, x.nameEnd, "unknown"); break;
                case A_CASE: { xml = t; for (size_t k = x.nameBegin; k < x.nameEnd; ++k) xml[k] = static_cast<char>(std::toupper(xml[k])); break; }
                default: xml = cut(cut(t, x.valueEnd, x.end), x.valueBegin - 1, x.valueBegin); break;
            }
            import(xml, run, attributePlace(d, a) + " " + ATTRIBUTE_DAMAGE_NAMES[i % ATTRIBUTE_DAMAGES]);
        };
        spaces.push_back(s);
    }
    {
        mc::Space s;
        s.name = "attribute values: " + d.name;
        const std::vector<std::string> values = hostile(thorough);
        const uint64_t n = values.size();
        s.size = which.size() * n;
        s.describe = [&d, which, values, n](uint64_t i) { return attributePlace(d, which[i / n]) + " replaced by '" + values[i % n] + "'"; };
        s.run = [&d, which, values, n](uint64_t i, mc::Run& run) {
            const auto& a = which[i / n];
            const Attribute& x = d.elements[a.first].attributes[a.second];
            import(cut(d.text, x.valueBegin, x.valueEnd, values[i % n]), run, attributePlace(d, a) + " replaced by '" + values[i % n] + "'");
        };
        spaces.push_back(s);
    }
    {
        // the value of another attribute of the document: the references lead to objects of every kind
        std::set<std::string> set;
        for (const auto& a : d.attributes) {
            const Attribute& x = d.elements[a.first].attributes[a.second];
            const std::string name = d.text.substr(x.nameBegin, x.nameEnd - x.nameBegin);
            if (name == "id" && d.elements[a.first].name.find("extension") == std::string::npos) set.insert(value(d, a));
        }
        const std::vector<std::string> identifiers(set.begin(), set.end());
        std::vector<std::pair<unsigned, unsigned>> references;
        for (const auto& a : which) {
            const Attribute& x = d.elements[a.first].attributes[a.second];
            const std::string name = d.text.substr(x.nameBegin, x.nameEnd - x.nameBegin);
            if (set.count(value(d, a)) != 0 || name.compare(0, 3, "bus") == 0 || name.compare(0, 14, "connectableBus") == 0) references.push_back(a);
        }
        mc::Space s;
        s.name = "references: " + d.name;
        const uint64_t n = identifiers.size();
        s.size = references.size() * n;
        s.describe = [&d, references, identifiers, n](uint64_t i) { return attributePlace(d, references[i / n]) + " replaced by " + identifiers[i % n]; };
        s.run = [&d, references, identifiers, n](uint64_t i, mc::Run& run) {
            const auto& a = references[i / n];
            const Attribute& x = d.elements[a.first].attributes[a.second];
            import(cut(d.text, x.valueBegin, x.valueEnd, identifiers[i % n]), run, attributePlace(d, a) + " replaced by " + identifiers[i % n]);
        };
        spaces.push_back(s);
    }
    if (thorough || d.attributes.size() < 100) {
        // an attribute under the name of another one
        mc::Space s;
        s.name = "attribute names: " + d.name;
        const uint64_t n = d.attributeNames.size();
        s.size = which.size() * n;
        s.describe = [&d, which, n](uint64_t i) { return attributePlace(d, which[i / n]) + " renamed to " + d.attributeNames[i % n]; };
        s.run = [&d, which, n](uint64_t i, mc::Run& run) {
            const auto& a = which[i / n];
            const Attribute& x = d.elements[a.first].attributes[a.second];
            import(cut(d.text, x.nameBegin, x.nameEnd, d.attributeNames[i % n]), run, attributePlace(d, a) + " renamed to " + d.attributeNames[i % n]);
        };
        spaces.push_back(s);
    }
}

void addTexts(const Document& d, bool thorough, std::vector<mc::Space>& spaces) {
    mc::Space s;
    s.name = "texts of elements: " + d.name;
    const std::vector<std::string> values = hostile(thorough);
    const uint64_t n = values.size();
    s.size = d.texts.size() * n;
    s.describe = [&d, values, n](uint64_t i) { return place(d, d.elements[d.texts[i / n]]) + ": text replaced by '" + values[i % n] + "'"; };
    s.run = [&d, values, n](uint64_t i, mc::Run& run) {
        const Element& e = d.elements[d.texts[i / n]];
        import(cut(d.text, e.tagEnd, e.closeBegin, values[i % n]), run, place(d, e) + ": text replaced by '" + values[i % n] + "'");
    };
    spaces.push_back(s);
}

// ---- bytes ------------------------------------------------------------------------------------------------------

void addBytes(const Document& d, bool thorough, std::vector<mc::Space>& spaces) {
    static const std::vector<std::string> quick = {"", "<", "\"", "&", std::string(1, '\0'), "\xff", "9", "-"};
    static const std::vector<std::string> all = {"", "<", ">", "\"", "&", "/", "=", " ", ":", ";", "\n", std::string(1, '\0'), "\xff", "\xc0\x80", "9", "-", "e"};
    const std::vector<std::string>& bytes = thorough ? all : quick;
    mc::Space s;
    s.name = "bytes: " + d.name;
    const unsigned ways = thorough ? 2 : 1;
    const uint64_t n = bytes.size() * ways;
    s.size = d.text.size() * n;
    const auto what = [&d, &bytes, ways, n](uint64_t i) {
        return "byte " + std::to_string(i / n) + " (" + excerpt(d.text, i / n) + ") " + (i % n % ways == 0 ? "replaced by '" : "preceded by '") + bytes[i % n / ways] + "'";
    };
    s.describe = what;
    s.run = [&d, &bytes, ways, n, what](uint64_t i, mc::Run& run) { import(cut(d.text, i / n, i / n + (i % n % ways == 0 ? 1 : 0), bytes[i % n / ways]), run, what(i)); };
    spaces.push_back(s);
}

// ---- prologues, namespaces --------------------------------------------------------------------------------------

void addPrologues(const Document& d, std::vector<mc::Space>& spaces) {
    struct Case { std::string what, xml; bool complete; };
    static std::vector<Case> cases;
    if (cases.empty()) {
        const std::string& t = d.text;
        const size_t root = d.elements[0].begin;
        const std::string body = t.substr(root);
        const auto add = [](const std::string& what, const std::string& xml, bool complete = true) { cases.push_back({what, xml, complete}); };
        add("no declaration", body);
        add("leading space", " " + t);
        add("byte order mark", "\xef\xbb\xbf" + t);
        add("other declared encoding", "<?xml version=\"1.0\" encoding=\"UTF-16\"?>" + body);
        add("latin 1", "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>" + body);
        add("unknown encoding", "<?xml version=\"1.0\" encoding=\"NONE\"?>" + body);
        add("other xml version", "<?xml version=\"9.9\"?>" + body);
        std::string wide;
        for (char c : t) { wide += c; wide += '\0'; }
        add("two bytes per character", wide);
        add("two documents", t + t);
        add("text after the document", t + "text");
        add("element after the document", t + "<x/>");
        add("unfinished element after the document", t + "<x");
        add("empty root", "<iidm:network/>", true);
        add("nothing", "", false);
        add("blank", "  \n", false);
        add("declaration only", t.substr(0, root), false);
        add("comment only", t.substr(0, root) + "<!-- -->", false);
        add("comments before the root", t.substr(0, root) + "<!-- --><!-- -->" + body);
        add("processing instruction before the root", t.substr(0, root) + "<?a b?>" + body);
        add("document type", t.substr(0, root) + "<!DOCTYPE network>" + body);
        std::string entities = "<!DOCTYPE network [<!ENTITY a0 \"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\">";
        for (int i = 1; i < 12; ++i) {
            entities += "<!ENTITY a" + std::to_string(i) + " \"";
            for (int k = 0; k < 10; ++k) entities += "&a" + std::to_string(i - 1) + ";";
            entities += "\">";
        }
        entities += "]>";
        const size_t id = body.find(" id=\"") + 5;
        for (int i : {0, 2, 4, 11}) add("entities", t.substr(0, root) + entities + body.substr(0, id) + "&a" + std::to_string(i) + ";" + body.substr(id));
        add("recursive entity", t.substr(0, root) + "<!DOCTYPE network [<!ENTITY a \"&b;\"><!ENTITY b \"&a;\">]>" + body.substr(0, id) + "&a;" + body.substr(id));
        add("external entity", t.substr(0, root) + "<!DOCTYPE network [<!ENTITY a SYSTEM \"/nowhere/x\">]>" + body.substr(0, d.elements[0].tagEnd - root) + "&a;" + body.substr(d.elements[0].tagEnd - root));
        add("unknown entity", body.substr(0, id) + "&a;" + body.substr(id));
        std::string deep;
        for (int i = 0; i < 100000; ++i) deep += "<iidm:property>";
        add("deep nesting", cut(t, d.elements[0].tagEnd, d.elements[0].tagEnd, deep), false);
        add("very long name", cut(t, id + root, id + root, std::string(1 << 20, 'n')));
        add("very long attribute list", [&] { std::string s; for (int i = 0; i < 20000; ++i) s += " a" + std::to_string(i) + "=\"\""; return cut(t, d.elements[0].attributes.back().end, d.elements[0].attributes.back().end, s); }());
        add("many properties", [&] { std::string s; for (int i = 0; i < 20000; ++i) s += "<iidm:property name=\"p" + std::to_string(i) + "\" value=\"\"/>"; return cut(t, d.elements[0].tagEnd, d.elements[0].tagEnd, s); }());
        // versions and namespaces
        const size_t version = t.find("/1_5");
        for (const char* v : {"1_0", "1_1", "1_2", "1_3", "1_4", "1_6", "0_9", "x", "", "1", "1_", "_5", "99999999999_5", "-1_5"}) {
            if (version != std::string::npos) add(std::string("version ") + v, cut(t, version + 1, version + 4, v));
        }
        add("no namespace", [&] { std::string s = t; for (size_t p; (p = s.find("iidm:")) != std::string::npos;) s.erase(p, 5); return s; }());
        add("other prefix", [&] { std::string s = t; for (size_t p; (p = s.find("iidm:")) != std::string::npos;) s.replace(p, 5, "zz:"); for (size_t p; (p = s.find("xmlns:iidm")) != std::string::npos;) s.replace(p, 10, "xmlns:zz"); return s; }());
        add("default namespace", [&] { std::string s = t; for (size_t p; (p = s.find("iidm:")) != std::string::npos;) s.erase(p, 5); for (size_t p; (p = s.find("xmlns:iidm")) != std::string::npos;) s.replace(p, 10, "xmlns"); return s; }());
    }
    mc::Space s;
    s.name = "prologues, namespaces, sizes";
    s.size = cases.size();
    s.describe = [](uint64_t i) { return cases[i].what; };
    s.run = [](uint64_t i, mc::Run& run) { import(cases[i].xml, run, cases[i].what, cases[i].complete); };
    spaces.push_back(s);
}

// ---- damaged mapping of an anonymised document --------------------------------------------------------------------

void addMappings(std::vector<mc::Space>& spaces, bool thorough) {
    static std::string xml, csv;
    if (csv.empty()) {
        const Network n = small();
        converter::ExportOptions o = compact();
        o.setAnonymized(true);
        const std::string path = scratch + "/ref.xml";
        Network::writeXml(path, n, o);
        std::ifstream x(path), c(scratch + "/ref.csv");
        xml.assign(std::istreambuf_iterator<char>(x), {});
        csv.assign(std::istreambuf_iterator<char>(c), {});
    }
    mc::Space s;
    s.name = "mapping of an anonymised document";
    static const std::vector<std::string> by = {"", ";", "\"", "\n", ";;", "A", std::string(1, '\0'), "\xff", "\r\n", "\"\"", ";\n"};
    static std::vector<size_t> lines = [] { std::vector<size_t> v{0}; for (size_t i = 0; i < csv.size(); ++i) if (csv[i] == '\n') v.push_back(i + 1); return v; }();
    const uint64_t truncations = csv.size() + 1;
    const uint64_t replacements = csv.size() * by.size() * 2;
    const uint64_t perLine = 4;
    s.size = truncations + replacements + (lines.size() - 1) * perLine;
    (void)thorough;
    const auto damaged = [truncations, replacements](uint64_t i) {
        if (i < truncations) return csv.substr(0, i);
        i -= truncations;
        if (i < replacements) {
            const uint64_t n = by.size() * 2;
            return cut(csv, i / n, i / n + (i % 2 == 0 ? 1 : 0), by[i % n / 2]);
        }
        i -= replacements;
        const size_t b = lines[i / perLine], e = lines[i / perLine + 1];
        const std::string line = csv.substr(b, e - b);
        switch (i % perLine) {
            case 0: return cut(csv, b, e);
            case 1: return cut(csv, e, e, line);
            case 2: return line + cut(csv, b, e);
            default: return cut(csv, b, e, line.substr(line.find(';') + 1, line.size() - line.find(';') - 2) + ";" + line.substr(0, line.find(';')) + "\n");
        }
    };
    s.describe = [damaged](uint64_t i) { return "mapping: " + damaged(i); };
    s.run = [damaged](uint64_t i, mc::Run& run) {
        const std::string base = scratch + "/" + std::to_string(getpid());
        const std::string map = damaged(i);
        { std::ofstream(base + ".xml") << xml; std::ofstream(base + ".csv") << map; }
        run.count();
        run.transition();
        std::unique_ptr<Network> n;
        std::string err;
        const bool read = mc::accepted([&] { n = stdcxx::make_unique<Network>(Network::readXml(base + ".xml")); }, &err);
        run.distinct(read ? map : err);
        if (read) usable(*n, run, "mapping " + map, false);   // the names may be no text at all
        run.trace();
    };
    spaces.push_back(s);
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config config;
    config.property = "C10";
    config.level = "fault_enumeration";
    config.rule = "Every case is a damaged document imported by the real library under AddressSanitizer and UndefinedBehaviorSanitizer; distinct cases are those accepted and those refused with distinct messages.";
    config.assumptions = {"a request for more than 256 MB of memory at once is answered by std::bad_alloc, which counts as a reported error",
                          "a single damage at a time, other than the hostile prologues"};
    config.caseTimeout = 60;
    config.workerInit = [] { net::loadExtensions(); };
    char dir[] = "/tmp/verif-c10-XXXXXX";
    if (mkdtemp(dir) == nullptr) return 2;
    scratch = dir;
    const int rc = mc::main(argc, argv, config, [](bool thorough, std::vector<mc::Space>& spaces) {
        net::loadExtensions();
        const auto& docs = documents();
        for (unsigned i = 0; i < docs.size(); ++i) if (thorough || i == 0 || i == 2) addTruncations(docs[i].name, docs[i].text, spaces);
        static const std::string indented = net::writeXml(small());
        addTruncations("small, indented", indented, spaces);
        addReadErrors(docs[2].text, spaces);
        for (unsigned i = 0; i < docs.size(); ++i) {
            const Document& d = docs[i];
            std::vector<unsigned> all;
            for (unsigned k = 0; k < d.elements.size(); ++k) all.push_back(k);
            addElements(d, thorough ? all : d.representative, spaces);
            if (thorough || i == 0) {
                addRenamed(d, thorough ? (i == 0 ? all : d.representative) : d.names, spaces);
                addMoved(d, thorough ? (i == 0 ? all : d.representative) : d.names, spaces);
            }
            addAttributes(d, thorough ? d.attributes : d.representativeAttributes, thorough, spaces);
            if (thorough || i == 0 || i == 2) addTexts(d, thorough, spaces);
            if (thorough || i == 2) addBytes(d, thorough, spaces);
        }
        addPrologues(docs[2], spaces);
        addMappings(spaces, thorough);
    });
    std::string cmd = "rm -rf " + scratch;
    if (scratch.compare(0, 15, "/tmp/verif-c10-") == 0 && std::system(cmd.c_str()) != 0) return 2;
    return rc;
}
