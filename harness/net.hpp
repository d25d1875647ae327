// Observation of a whole network through the public API, and networks used by several checks.
#ifndef VERIF_NET_HPP
#define VERIF_NET_HPP

#include <map>
#include <string>
#include <vector>

#include <powsybl/PowsyblException.hpp>
#include <powsybl/iidm/Battery.hpp>
#include <powsybl/iidm/BatteryAdder.hpp>
#include <powsybl/iidm/Bus.hpp>
#include <powsybl/iidm/BusAdder.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/BusbarSectionAdder.hpp>
#include <powsybl/iidm/Component.hpp>
#include <powsybl/iidm/DanglingLine.hpp>
#include <powsybl/iidm/DanglingLineAdder.hpp>
#include <powsybl/iidm/ExtensionProviders.hpp>
#include <powsybl/iidm/Generator.hpp>
#include <powsybl/iidm/GeneratorAdder.hpp>
#include <powsybl/iidm/HvdcLine.hpp>
#include <powsybl/iidm/HvdcLineAdder.hpp>
#include <powsybl/iidm/ActivePowerLimits.hpp>
#include <powsybl/iidm/ActivePowerLimitsAdder.hpp>
#include <powsybl/iidm/ApparentPowerLimits.hpp>
#include <powsybl/iidm/ApparentPowerLimitsAdder.hpp>
#include <powsybl/iidm/CurrentLimits.hpp>
#include <powsybl/iidm/CurrentLimitsAdder.hpp>
#include <powsybl/iidm/MinMaxReactiveLimits.hpp>
#include <powsybl/iidm/MinMaxReactiveLimitsAdder.hpp>
#include <powsybl/iidm/PhaseTapChangerAdder.hpp>
#include <powsybl/iidm/PhaseTapChangerStep.hpp>
#include <powsybl/iidm/RatioTapChangerAdder.hpp>
#include <powsybl/iidm/RatioTapChangerStep.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurve.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurveAdder.hpp>
#include <powsybl/iidm/ShuntCompensatorLinearModel.hpp>
#include <powsybl/iidm/ShuntCompensatorNonLinearModel.hpp>
#include <powsybl/iidm/SubstationAdder.hpp>
#include <powsybl/iidm/ValidationException.hpp>
#include <powsybl/iidm/VoltageLevelAdder.hpp>
#include <powsybl/iidm/SwitchAdder.hpp>
#include <powsybl/iidm/LccConverterStation.hpp>
#include <powsybl/iidm/LccConverterStationAdder.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/LineAdder.hpp>
#include <powsybl/iidm/Load.hpp>
#include <powsybl/iidm/LoadAdder.hpp>
#include <powsybl/iidm/Network.hpp>
#include <powsybl/iidm/PhaseTapChanger.hpp>
#include <powsybl/iidm/RatioTapChanger.hpp>
#include <powsybl/iidm/ShuntCompensator.hpp>
#include <powsybl/iidm/ShuntCompensatorAdder.hpp>
#include <powsybl/iidm/StaticVarCompensator.hpp>
#include <powsybl/iidm/StaticVarCompensatorAdder.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/ThreeWindingsTransformerAdder.hpp>
#include <powsybl/iidm/TieLine.hpp>
#include <powsybl/iidm/TieLineAdder.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/TwoWindingsTransformerAdder.hpp>
#include <powsybl/iidm/VariantManager.hpp>
#include <powsybl/iidm/VoltageLevel.hpp>
#include <powsybl/iidm/VscConverterStation.hpp>
#include <powsybl/iidm/VscConverterStationAdder.hpp>
#include <powsybl/iidm/converter/ExportOptions.hpp>
#include <powsybl/iidm/converter/ImportOptions.hpp>
#include <powsybl/iidm/converter/FakeAnonymizer.hpp>
#include <powsybl/iidm/converter/SimpleAnonymizer.hpp>
#include <powsybl/stdcxx/math.hpp>

#include "mc.hpp"

namespace net {

using namespace powsybl::iidm;  // NOLINT

// path -> value; a value starting with '!' is an exception message
using Snapshot = std::map<std::string, std::string>;

struct DumpOptions {
    bool topology = true;        // calculated buses, components, connection states
    bool components = true;      // connected / synchronous components (needs topology)
    bool extensions = true;
    bool views = true;           // inventory views of the containers (network, substation, voltage level, bus)
    bool stateVariables = true;  // p, q, v, angle
    bool sortedSteps = true;
};

Snapshot dump(const Network& network, const DumpOptions& options = DumpOptions());
void dumpExtensions(const Extendable& e, const std::string& prefix, Snapshot& s);
// extension description as text (without its owner)
std::string extensionText(const Extension& e);

// "" when equal, else the first differences
std::string diff(const Snapshot& expected, const Snapshot& actual, unsigned max = 6);
// remove all the entries whose path matches (substring)
Snapshot without(const Snapshot& s, const std::vector<std::string>& substrings);
std::string flat(const Snapshot& s);

// terminal designation: equipment id + terminal number, "-" for none
std::string term(const stdcxx::CReference<Terminal>& t);
std::string term(const Terminal& t);
std::string busId(const stdcxx::CReference<Bus>& b);

template <typename Range>
std::string ids(Range range) {
    std::vector<std::string> v;
    for (const auto& o : range) v.push_back(o.getId());
    std::sort(v.begin(), v.end());
    std::string r;
    for (const auto& s : v) r += s + " ";
    return r;
}

template <typename Range>
unsigned long rangeSize(Range range) {
    unsigned long n = 0;
    for (const auto& o : range) { (void)o; ++n; }
    return n;
}

// loads the serializers of the extension libraries (once)
void loadExtensions();

struct FullOptions {
    bool nodeBreaker = true;
    bool extensions = true;
    bool tapChangers = true;
    bool limits = true;
    bool aliases = true;
    bool stateValues = true;
    bool hvdc = true;
};

// a network holding every kind of equipment, in both topology kinds, with every optional feature in use
Network full(const FullOptions& options = FullOptions());
void addExtensions(Network& n);

std::string writeXml(const Network& n, const converter::ExportOptions& options = converter::ExportOptions());
Network readXml(const std::string& xml, const converter::ImportOptions& options = converter::ImportOptions());

}  // namespace net

#endif
