// Every combination of the optional features of each kind of equipment, built in a small network.
#ifndef VERIF_FEATURES_HPP
#define VERIF_FEATURES_HPP

#include <functional>
#include <string>
#include <vector>

#include "net.hpp"

namespace features {

using namespace powsybl::iidm;  // NOLINT

using D = std::vector<unsigned>;
struct Feature {
    std::string kind;
    D dims;                                            // number of choices of each feature
    std::function<void(Network&, const D&)> build;     // may throw (refused combinations)
};

// S1: VN (node/breaker: BBS 0, breaker BRK 0-1, free nodes 1 (behind the breaker), 2.. by internal connection), VB (buses B1, B2,
// switch SWB, load K on B1), VC (bus C1); S2: VR (bus R1)
Network host();
const std::vector<Feature>& all();
// the identity features of the object X: name, fictitious, aliases, properties
const D& identityDims();
void identity(Identifiable& i, const D& d);
// minimal object of each kind, with a name (choice 0: none) and fictitious
struct Minimal { std::string kind; std::function<Identifiable&(Network&, const std::string* name, bool fictitious)> build; };
const std::vector<Minimal>& minimal();
std::string& objectId();   // the identifier they are given ("X")

}  // namespace features

#endif
