// C18: a fault of the destination at every byte of an export, on the real streams and files.
#include <csignal>
#include <cstdio>
#include <fstream>
#include <streambuf>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include "features.hpp"

using namespace powsybl::iidm;  // NOLINT

namespace {

std::string scratch;

const net::DumpOptions& options() {
    static const net::DumpOptions o = [] { net::DumpOptions d; d.views = false; d.components = false; return d; }();
    return o;
}

// what happens once the destination has accepted its number of bytes
enum Fault {
    SHORT,        // writes accept fewer characters than asked
    EXCEPTION,    // writes throw
    BUFFERED,     // writes are accepted in a buffer and lost; flushing tells
    SHORT_MASK,   // short writes, on a stream that throws
    EXCEPTION_MASK,
    BUFFERED_MASK,
    FOREIGN,      // writes throw something that is not a std::exception
    FAULTS
};
const char* const FAULT_NAMES[] = {"short write", "exception", "lost at the flush", "short write on a throwing stream", "exception on a throwing stream", "lost at the flush of a throwing stream", "foreign exception"};

class Destination : public std::streambuf {
public:
    Destination(size_t capacity, Fault fault) : m_capacity(capacity), m_fault(fault) {}
    std::string received;
    bool failed = false;

protected:
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        size_t room = m_capacity - std::min(m_capacity, received.size());
        size_t k = std::min(room, static_cast<size_t>(n));
        received.append(s, k);
        if (k == static_cast<size_t>(n)) return n;
        return fault(n, static_cast<std::streamsize>(k));
    }
    int_type overflow(int_type c) override {
        if (received.size() < m_capacity) { received += static_cast<char>(c); return c; }
        return fault(1, 0) == 1 ? c : traits_type::eof();
    }
    int sync() override { return failed ? -1 : 0; }

private:
    std::streamsize fault(std::streamsize asked, std::streamsize accepted) {
        failed = true;
        switch (m_fault) {
            case EXCEPTION: case EXCEPTION_MASK: throw std::runtime_error("the destination is full");
            case FOREIGN: throw 42;
            case BUFFERED: case BUFFERED_MASK: return asked;
            default: return accepted;
        }
    }
    size_t m_capacity;
    Fault m_fault;
};

// true: reported by an error, whatever its type
bool exports(std::ostream& os, const std::string& name, const Network& n, const converter::ExportOptions& o) {
    try {
        Network::writeXml(name, os, n, o);
        return true;
    } catch (...) {
        return false;
    }
}

converter::ExportOptions exportOptions(unsigned variant) {
    converter::ExportOptions o;
    o.setIndent((variant & 1) != 0);
    o.setAnonymized((variant & 2) != 0);
    return o;
}
const char* const OPTION_NAMES[] = {"compact", "indented", "compact anonymised", "indented anonymised"};

Network network(unsigned which) {
    if (which == 0) {
        Network n("tiny", "verif");
        n.setCaseDate(stdcxx::DateTime::parse("2020-01-02T03:04:05.000Z"));
        return n;
    }
    if (which == 1) {
        Network n = features::host();
        n.getLoad("K").addAlias("alias");
        n.getLoad("K").setProperty("name", "value");
        return n;
    }
    if (which == 2) return net::full(net::FullOptions());
    // long texts: a single write is larger than the buffers
    Network n("long", "verif");
    n.setCaseDate(stdcxx::DateTime::parse("2020-01-02T03:04:05.000Z"));
    n.newSubstation().setId(std::string(9000, 's')).setName(std::string(5000, '<')).add().setProperty("p", std::string(20000, 'v'));
    return n;
}
const char* const NETWORK_NAMES[] = {"empty network", "small network", "complete network", "network with long texts"};

struct Reference {
    std::string xml, csv;
    net::Snapshot dump;
};

std::string baseName() { return scratch + "/" + mc::str(static_cast<int>(getpid())); }

std::string content(const std::string& path) {
    std::ifstream f(path, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}

// the network and its complete document, made once per worker
const Network& cached(unsigned which) {
    static std::unique_ptr<Network> n[4];
    if (!n[which]) n[which].reset(new Network(network(which)));
    return *n[which];
}
const Reference& reference(unsigned which, unsigned variant) {
    static std::unique_ptr<Reference> r[4][4];
    auto& x = r[which][variant];
    if (!x) {
        x.reset(new Reference());
        std::ostringstream o;
        Network::writeXml(baseName() + ".xml", o, cached(which), exportOptions(variant));
        x->xml = o.str();
        if (variant & 2) x->csv = content(baseName() + ".csv");
        std::remove((baseName() + ".csv").c_str());
        x->dump = net::dump(cached(which), options());
    }
    return *x;
}

void unchanged(unsigned which, unsigned variant, mc::Run& run) {
    const Reference& ref = reference(which, variant);
    std::string d = net::diff(ref.dump, net::dump(cached(which), options()));
    MC_CHECK(run, d.empty(), "the failed export changed the network: " << d);
    std::ostringstream again;
    std::string name = baseName();
    std::string what;
    MC_CHECK(run, mc::accepted([&] { Network::writeXml(name + ".xml", again, cached(which), exportOptions(variant)); }, &what), "the new export fails: " << what);
    MC_CHECK(run, again.str() == ref.xml, "the new export is different");
    if (variant & 2) MC_CHECK(run, content(name + ".csv") == ref.csv, "the mapping of the new export is different");
    std::remove((name + ".csv").c_str());
}

std::vector<size_t> offsets(size_t size, bool every) {
    std::set<size_t> r;
    for (size_t k = 0; k <= size + 1; ++k) {
        size_t m = k % 4000, q = k % 4096;
        if (every || k < 64 || k + 64 > size || m <= 1 || m == 3999 || q <= 1 || q == 4095 || k % 499 == 0) r.insert(k);
    }
    return std::vector<size_t>(r.begin(), r.end());
}

// the streams
mc::Space streams(unsigned which, unsigned variant, bool every) {
    mc::Space s;
    s.name = std::string("stream faults, ") + NETWORK_NAMES[which] + ", " + OPTION_NAMES[variant];
    auto at = std::make_shared<std::vector<size_t>>(offsets(reference(which, variant).xml.size(), every));
    s.size = at->size() * FAULTS;
    s.describe = [at](uint64_t i) { return std::string(FAULT_NAMES[i % FAULTS]) + " after " + mc::str((*at)[i / FAULTS]) + " bytes"; };
    s.run = [=](uint64_t i, mc::Run& run) {
        const Reference& ref = reference(which, variant);
        Fault f = static_cast<Fault>(i % FAULTS);
        size_t capacity = (*at)[i / FAULTS];
        Destination d(capacity, f);
        std::ostream os(&d);
        if (f == SHORT_MASK || f == EXCEPTION_MASK || f == BUFFERED_MASK) os.exceptions(std::ios::badbit | std::ios::failbit);
        run.count();
        bool done = exports(os, baseName() + ".xml", cached(which), exportOptions(variant));
        MC_CHECK(run, done == (capacity >= ref.xml.size()), (done ? "the export returned normally with " : "the export failed with ") << capacity << " bytes of " << ref.xml.size());
        MC_CHECK(run, ref.xml.compare(0, d.received.size(), d.received) == 0, "what was delivered is not the beginning of the document");
        if (done) MC_CHECK(run, d.received == ref.xml, "an export that returned normally did not deliver the document");
        if (done && (variant & 2)) MC_CHECK(run, content(baseName() + ".csv") == ref.csv, "an export that returned normally did not deliver the mapping");
        unchanged(which, variant, run);
        run.distinct(mc::str(which) + "/" + mc::str(variant) + "/" + mc::str(i));
        run.trace();
    };
    return s;
}

// streams that are already bad, closed or without buffer
mc::Space badStreams() {
    mc::Space s;
    s.name = "streams that are bad from the start";
    s.size = 6 * 4 * 4;
    s.describe = [](uint64_t i) { return mc::str(i % 6) + " " + NETWORK_NAMES[i / 24] + " " + OPTION_NAMES[i / 6 % 4]; };
    s.run = [](uint64_t i, mc::Run& run) {
        unsigned which = static_cast<unsigned>(i / 24), variant = static_cast<unsigned>(i / 6 % 4);
        reference(which, variant);
        run.count();
        bool done = false;
        const auto o = exportOptions(variant);
        const std::string name = baseName() + ".xml";
        std::ostringstream os;
        if (i % 6 == 0) { os.setstate(std::ios::failbit); done = exports(os, name, cached(which), o); }
        if (i % 6 == 1) { os.setstate(std::ios::badbit); done = exports(os, name, cached(which), o); }
        if (i % 6 == 2) { std::ostream none(nullptr); done = exports(none, name, cached(which), o); }
        if (i % 6 == 3) { std::ofstream closed; done = exports(closed, name, cached(which), o); }
        if (i % 6 == 4) { std::ofstream nowhere(scratch + "/missing/x.xml"); done = exports(nowhere, name, cached(which), o); }
        if (i % 6 == 5) { std::ifstream in("/dev/null"); std::ostream readOnly(in.rdbuf()); done = exports(readOnly, name, cached(which), o); }
        MC_CHECK(run, !done, "the export returned normally");
        unchanged(which, variant, run);
        run.distinct("bad" + mc::str(i));
        run.trace();
    };
    return s;
}

// files of a limited size
struct Limit {
    explicit Limit(size_t size) {
        rlimit l;
        getrlimit(RLIMIT_FSIZE, &l);
        old = l.rlim_cur;
        l.rlim_cur = size;
        setrlimit(RLIMIT_FSIZE, &l);
    }
    ~Limit() {
        rlimit l;
        getrlimit(RLIMIT_FSIZE, &l);
        l.rlim_cur = old;
        setrlimit(RLIMIT_FSIZE, &l);
    }
    rlim_t old;
};

mc::Space files(unsigned which, unsigned variant, bool every) {
    mc::Space s;
    s.name = std::string("files of limited size, ") + NETWORK_NAMES[which] + ", " + OPTION_NAMES[variant];
    auto at = std::make_shared<std::vector<size_t>>(offsets(reference(which, variant).xml.size(), every));
    s.size = at->size();
    s.describe = [at](uint64_t i) { return "files of at most " + mc::str((*at)[i]) + " bytes"; };
    s.run = [=](uint64_t i, mc::Run& run) {
        const Reference& ref = reference(which, variant);
        size_t capacity = (*at)[i];
        const std::string xmlName = baseName() + ".xml", csvName = baseName() + ".csv";
        std::remove(xmlName.c_str());
        std::remove(csvName.c_str());
        run.count();
        bool done = false;
        {
            Limit limit(capacity);
            try {
                Network::writeXml(xmlName, cached(which), exportOptions(variant));
                done = true;
            } catch (...) {
                done = false;
            }
        }
        MC_CHECK(run, done == (capacity >= ref.xml.size() && capacity >= ref.csv.size()), (done ? "the export returned normally with files of " : "the export failed with files of ") << capacity << " bytes, document of " << ref.xml.size() << ", mapping of " << ref.csv.size());
        std::string got = content(xmlName);
        MC_CHECK(run, ref.xml.compare(0, got.size(), got) == 0, "what was delivered is not the beginning of the document");
        if (done) MC_CHECK(run, got == ref.xml, "an export that returned normally did not deliver the document");
        if (done && (variant & 2)) MC_CHECK(run, content(csvName) == ref.csv, "an export that returned normally did not deliver the mapping");
        std::remove(xmlName.c_str());
        unchanged(which, variant, run);
        run.distinct("file" + mc::str(which) + mc::str(variant) + "/" + mc::str(capacity));
        run.trace();
    };
    return s;
}

// the mapping alone: the document goes to a good stream, the mapping file is limited at every byte
mc::Space mappings(unsigned which) {
    mc::Space s;
    s.name = std::string("mapping of limited size, ") + NETWORK_NAMES[which];
    s.size = reference(which, 2).csv.size() + 2;
    s.describe = [](uint64_t i) { return mc::str(i) + " bytes"; };
    s.run = [=](uint64_t i, mc::Run& run) {
        const Reference& ref = reference(which, 2);
        std::ostringstream os;
        run.count();
        bool done = false;
        {
            Limit limit(i);
            done = exports(os, baseName() + ".xml", cached(which), exportOptions(2));
        }
        MC_CHECK(run, done == (i >= ref.csv.size()), (done ? "the export returned normally with a mapping of " : "the export failed with a mapping of ") << i << " bytes of " << ref.csv.size());
        if (done) MC_CHECK(run, os.str() == ref.xml && content(baseName() + ".csv") == ref.csv, "an export that returned normally did not deliver the document and its mapping");
        unchanged(which, 2, run);
        run.distinct("mapping" + mc::str(which) + "/" + mc::str(i));
        run.trace();
    };
    return s;
}

// places where no file can be made
mc::Space places() {
    mc::Space s;
    s.name = "places where no file can be made";
    s.size = 5 * 4 * 2;
    s.describe = [](uint64_t i) { return mc::str(i % 5) + " " + OPTION_NAMES[i / 5 % 4]; };
    s.run = [](uint64_t i, mc::Run& run) {
        unsigned variant = static_cast<unsigned>(i / 5 % 4), which = static_cast<unsigned>(i / 20);
        const Reference& ref = reference(which, variant);
        const std::string dir = baseName() + ".dir";
        mkdir(dir.c_str(), 0700);
        run.count();
        std::string path;
        bool mustFail = true;
        if (i % 5 == 0) path = dir + "/missing/x.xml";
        if (i % 5 == 1) { path = dir + "/d.xml"; mkdir(path.c_str(), 0700); }
        if (i % 5 == 2) { path = dir + "/x.xml/y.xml"; std::ofstream(dir + "/x.xml") << "file"; }
        if (i % 5 == 3) { path = dir + "/m.xml"; mkdir((dir + "/m.csv").c_str(), 0700); mustFail = (variant & 2) != 0; }   // no place for the mapping
        if (i % 5 == 4) { path = dir + "/" + std::string(300, 'n') + ".xml"; }
        bool done = mc::accepted([&] { Network::writeXml(path, cached(which), exportOptions(variant)); });
        MC_CHECK(run, done != mustFail, (done ? "the export returned normally" : "the export failed"));
        if (done) MC_CHECK(run, content(path) == ref.xml, "an export that returned normally did not deliver the document");
        for (const char* x : {"/d.xml", "/x.xml", "/m.xml", "/m.csv", "/d.csv"}) std::remove((dir + x).c_str());
        rmdir(dir.c_str());
        unchanged(which, variant, run);
        run.distinct("place" + mc::str(i));
        run.trace();
    };
    return s;
}

}  // namespace

int main(int argc, char** argv) {
    char dir[] = "/tmp/verif-c18-XXXXXX";
    if (mkdtemp(dir) == nullptr) return 2;
    scratch = dir;
    signal(SIGXFSZ, SIG_IGN);
    mc::Config c;
    c.property = "C18";
    c.level = "fault_enumeration";
    c.rule = "a fault of every kind at every byte of the document of small networks (stated bytes of a large one), in streams, document files and mapping files; distinct (document, fault, byte)";
    c.assumptions = {"the destination keeps failing once it has failed", "file faults are produced by a limit of the size of the files"};
    int r = mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        net::loadExtensions();
        s.push_back(badStreams());
        s.push_back(places());
        for (unsigned which : {0U, 1U, 3U, 2U}) {
            for (unsigned variant = 0; variant < 4; ++variant) {
                bool every = which < 2 || thorough;
                s.push_back(streams(which, variant, every));
                s.push_back(files(which, variant, every));
            }
            s.push_back(mappings(which));
        }
    });
    std::string cmd = "rm -rf " + scratch;
    if (scratch.compare(0, 15, "/tmp/verif-c18-") == 0 && std::system(cmd.c_str()) != 0) return 2;
    return r;
}
