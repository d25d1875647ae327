// One host network and, for every kind of object a network can hold, how to create, find and remove one there.
#ifndef VERIF_KINDS_HPP
#define VERIF_KINDS_HPP

#include "net.hpp"

namespace kinds {

using namespace powsybl::iidm;  // NOLINT

struct Kind {
    std::string name;
    std::vector<std::string> hosts;                      // the voltage levels it is attached to (empty: a substation)
    bool branch = false;                                 // lines and transformers
    std::function<Identifiable&(Network&, const std::string&, bool)> create;   // id, ensure unicity
    std::function<Identifiable&(Network&, const std::string&)> get;            // typed lookup
    std::function<void(Network&, const std::string&)> remove;
};

// S1: VN (node/breaker, nodes 0 busbar section BBS, 10..19 linked to it), VB (BB1, BB2), VC (225 kV, BC1), VD (20 kV, BD1)
// S2: VR (400 kV, BR1, load K), the stations CSB (in VB), CSR, CSL (in VR) have no HVDC line
Network host();
const std::vector<Kind>& all();
const Kind& get(const std::string& name);
// a node of VN, linked to the busbar section, to which nothing is attached
unsigned long freeNode(Network& n);

}  // namespace kinds

#endif
