// The per-variant attributes of net::full(), written at once, and edits of its structure.
#ifndef VERIF_STATE_HPP
#define VERIF_STATE_HPP

#include "net.hpp"

namespace net {

// writes every per-variant attribute in the working variant; k = 1, 2
void write(powsybl::iidm::Network& n, int k);
// equipment of every kind, created in the middle of a history
void create(powsybl::iidm::Network& n);
// an equipment of each topology kind removed
void removeSome(powsybl::iidm::Network& n);

}  // namespace net

#endif
