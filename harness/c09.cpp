// C09: what is exported as XML is read back identical, for every combination of the optional features of each kind of
// equipment, and for every export option that does not lose anything.
#include "features.hpp"
#include "refs.hpp"
#include "state.hpp"

using namespace powsybl::iidm;  // NOLINT

namespace {

const net::DumpOptions& options() {
    static const net::DumpOptions o = [] { net::DumpOptions d; d.views = false; d.components = false; return d; }();
    return o;
}

// The format has a place for the voltages of the buses only: those left on what is no part of a bus are cleared.
void clearVoltagesOutsideBuses(Network& n) {
    for (VoltageLevel& v : n.getVoltageLevels()) {
        if (v.getTopologyKind() != TopologyKind::NODE_BREAKER) continue;
        for (Bus& b : v.getBusBreakerView().getBuses()) {
            bool inBus = false;
            for (const Terminal& t : b.getConnectedTerminals()) inBus = inBus || static_cast<bool>(t.getBusView().getBus());
            if (!inBus) b.setV(stdcxx::nan()).setAngle(stdcxx::nan());
        }
    }
}

// A slack terminal extension that designates no terminal in the working variant is not written.
net::Snapshot written(net::Snapshot s) {
    std::vector<std::string> keys;
    for (const auto& e : s) if (e.first.find("/ext/slackTerminal") != std::string::npos && e.second.find("t=-") != std::string::npos) keys.push_back(e.first);
    for (std::string k : keys) {
        s.erase(k);
        s.erase(k.replace(k.find("/ext/"), 5, "/extowner/"));
    }
    return s;
}

// exports, reads back, compares, exports again
void roundTrip(const Network& n, mc::Run& run, const net::DumpOptions& dumpOptions, const converter::ExportOptions& exportOptions = converter::ExportOptions(), const std::vector<std::string>& notExported = {}) {
    net::Snapshot before = net::dump(n, dumpOptions);
    std::string xml;
    std::string what;
    run.count();
    MC_CHECK(run, mc::accepted([&] { xml = net::writeXml(n, exportOptions); }, &what), "the export fails: " << what);
    std::string d = net::diff(before, net::dump(n, dumpOptions));
    MC_CHECK(run, d.empty(), "the export changed the network: " << d);
    std::unique_ptr<Network> r;
    MC_CHECK(run, mc::accepted([&] { r.reset(new Network(net::readXml(xml))); }, &what), "the document is not readable: " << what);
    d = net::diff(net::without(written(before), notExported), net::without(net::dump(*r, dumpOptions), notExported));
    MC_CHECK(run, d.empty(), "read back different: " << d);
    std::string again;
    MC_CHECK(run, mc::accepted([&] { again = net::writeXml(*r, exportOptions); }, &what), "the second export fails: " << what);
    if (written(before) != before) {
        // something was left out of the first document, which may still declare its namespace
        std::string third;
        MC_CHECK(run, mc::accepted([&] { third = net::writeXml(net::readXml(again), exportOptions); }, &what), "the third export fails: " << what);
        xml = third;
    }
    if (again != xml) {
        size_t p = 0;
        while (p < xml.size() && p < again.size() && xml[p] == again[p]) ++p;
        run.fail("the second export differs: " + xml.substr(p > 60 ? p - 60 : 0, 160) + " <> " + again.substr(p > 60 ? p - 60 : 0, 160));
    }
    run.trace();
    run.distinct(xml);
}

mc::Space feature(const features::Feature& f) {
    mc::Space s;
    s.name = "every combination of features: " + f.kind;
    s.size = mc::product(f.dims);
    auto dims = f.dims;
    s.describe = [dims](uint64_t i) { std::string r; for (unsigned x : mc::decode(i, dims)) r += mc::str(x) + " "; return r; };
    s.run = [&f](uint64_t i, mc::Run& run) {
        Network n = features::host();
        try {
            f.build(n, mc::decode(i, f.dims));
        } catch (const std::exception&) {
            return;   // a combination that is refused
        }
        roundTrip(n, run, options());
    };
    return s;
}

mc::Space identities() {
    mc::Space s;
    s.name = "names, aliases and properties of every kind of object";
    features::D dims = {static_cast<unsigned>(features::minimal().size()), 4, 2};
    dims.insert(dims.end(), features::identityDims().begin(), features::identityDims().end());
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { auto d = mc::decode(i, dims); std::string r = features::minimal()[d[0]].kind + ": "; for (unsigned x : d) r += mc::str(x) + " "; return r; };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        Network n = features::host();
        const std::string names[3] = {"", "name of x", "X"};
        const auto& m = features::minimal()[d[0]];
        if (m.kind == "network" && (d[1] || d[2])) return;   // the format has no place for a name or a fictitious flag of the network
        Identifiable& x = m.build(n, d[1] ? &names[d[1] - 1] : nullptr, d[2] == 1);
        features::identity(x, {d[3], d[4]});
        roundTrip(n, run, options());
    };
    return s;
}

// every reference to a terminal
mc::Space references() {
    mc::Space s;
    s.name = "references to terminals";
    s.size = refs::size();
    s.describe = [](uint64_t i) { return refs::describe(i); };
    s.run = [](uint64_t i, mc::Run& run) {
        Network n("refs", "verif");
        n.setCaseDate(stdcxx::DateTime::parse("2020-01-02T03:04:05.000Z"));
        if (!refs::build(n, i)) return;
        roundTrip(n, run, net::DumpOptions());
    };
    return s;
}

// the complete network: options of the network x state values x export options
mc::Space complete(bool thorough) {
    mc::Space s;
    s.name = "complete networks";
    features::D dims = {2, 2, 2, 2, 2, 2, 2, 3, 2};
    (void)thorough;
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { std::string r; for (unsigned x : mc::decode(i, dims)) r += mc::str(x) + " "; return r; };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        net::FullOptions o;
        o.nodeBreaker = d[0];
        o.extensions = d[1];
        o.tapChangers = d[2];
        o.limits = d[3];
        o.aliases = d[4];
        o.stateValues = d[5];
        o.hvdc = d[6];
        Network n = net::full(o);
        bool writable = d[7] == 0 || (d[2] && d[6]);
        if (!writable) return;
        if (d[7]) net::write(n, static_cast<int>(d[7]));
        clearVoltagesOutsideBuses(n);
        converter::ExportOptions e;
        e.setIndent(d[8] == 1);
        roundTrip(n, run, net::DumpOptions(), e);
    };
    return s;
}

// every variant of a network with variants is exported as what it is; the variants are not modified by the export
mc::Space variants() {
    mc::Space s;
    s.name = "export of each variant";
    s.size = 3 * 3 * 3;
    s.describe = [](uint64_t i) { return mc::str(i); };
    s.run = [](uint64_t i, mc::Run& run) {
        Network n = net::full();
        auto& vm = n.getVariantManager();
        vm.cloneVariant("InitialVariant", {"a", "b"});
        const char* names[3] = {"InitialVariant", "a", "b"};
        for (uint64_t k = 0, x = i; k < 2; ++k, x /= 3) {
            vm.setWorkingVariant(names[k]);
            if (x % 3) net::write(n, static_cast<int>(x % 3));
            clearVoltagesOutsideBuses(n);
        }
        std::vector<net::Snapshot> before;
        for (const char* v : names) { vm.setWorkingVariant(v); before.push_back(net::dump(n)); }
        vm.setWorkingVariant(names[i / 9]);
        // SlackTerminal::isEmpty speaks of all the variants
        if (before[i / 9] != net::dump(n)) run.fail("the variants are not stable");
        roundTrip(n, run, net::DumpOptions(), converter::ExportOptions(), {"slackTerminal"});
        for (int k = 0; k < 3; ++k) {
            vm.setWorkingVariant(names[k]);
            std::string d = net::diff(before[static_cast<size_t>(k)], net::dump(n));
            MC_CHECK(run, d.empty(), "the export changed the variant " << names[k] << ": " << d);
        }
    };
    return s;
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C09";
    c.level = "exploration";
    c.rule = "every combination of the listed choices of the optional features of each kind of equipment that the library accepts; distinct documents";
    c.assumptions = {"one equipment with varying features at a time in a small network, plus complete networks", "the listed choices of each feature (harness/features.cpp)"};
    c.workerInit = [] { net::loadExtensions(); };
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        for (const auto& f : features::all()) s.push_back(feature(f));
        s.push_back(identities());
        s.push_back(references());
        s.push_back(complete(thorough));
        s.push_back(variants());
    });
}
