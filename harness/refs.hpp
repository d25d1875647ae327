// Small networks in which an equipment refers to a terminal: every kind of reference to every terminal of every kind of
// equipment, the ends of which may be in the same voltage level.
#ifndef VERIF_REFS_HPP
#define VERIF_REFS_HPP

#include <string>

#include "net.hpp"

namespace refs {

uint64_t size();
std::string describe(uint64_t index);
bool toBusbarSection(uint64_t index);
bool nodeBreaker(uint64_t index);
// false when there is no such network
bool build(powsybl::iidm::Network& n, uint64_t index);

}  // namespace refs

#endif
