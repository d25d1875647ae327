// Reference model of the topology of a network (voltage levels of both kinds, switches, internal connections, terminals,
// HVDC lines, variants), executed in lock step with the implementation, and the comparison of everything the
// implementation derives from it (calculated buses, components, connection states, lookups) with the model.
#ifndef VERIF_TOPO_HPP
#define VERIF_TOPO_HPP

#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "net.hpp"

namespace topo {

using namespace powsybl::iidm;  // NOLINT

struct TermState { std::string bus; bool connected = true; double v = NAN; double a = NAN; };
struct SwState { bool open = false; bool retained = false; };
struct BusState { double v = NAN; double a = NAN; };
struct VState {
    std::map<std::string, TermState> terms;
    std::map<std::string, SwState> sws;
    std::map<std::string, BusState> buses;
};
// type: H busbar section, L load, G generator, A battery, S shunt, V static var compensator, D dangling line, X VSC,
// Y LCC, N line, 2 and 3 transformers
struct MEq { char type; std::vector<std::string> vl; std::vector<long> node; };
struct MSw { std::string vl; char kind; long n1; long n2; std::string b1; std::string b2; };
struct MVl { bool nb; std::string sub; std::vector<std::pair<long, long>> ics; std::vector<std::string> buses; };
struct Model {
    std::map<std::string, MVl> vls;
    std::map<std::string, MEq> eqs;
    std::map<std::string, MSw> sws;
    std::map<std::string, std::pair<std::string, std::string>> hvdcs;
    std::map<std::string, VState> variants;
    std::string working;
    std::string text() const;
};

struct Group {
    std::set<long> nodes;
    std::set<std::string> buses;
    std::set<std::string> terms;
    bool valid = false;
    bool operator<(const Group& o) const { return std::tie(nodes, buses) < std::tie(o.nodes, o.buses); }
};

std::string key(const std::string& eq, unsigned k);
bool isBranchType(char t);
// level 1: bus/breaker level (node/breaker only); level 2: bus level. Only the valid groups
std::vector<Group> groups(const Model& m, const VState& s, const std::string& vl, int level);
// component index of each bus-level group, groups being numbered in the order of vls / groups()
struct Comps {
    std::vector<std::pair<std::string, Group>> groups;
    std::vector<unsigned> connected, synchronous;
    int find(const std::string& vl, const std::string& term) const;   // index of the bus-level group of a terminal, -1
};
Comps components(const Model& m, const VState& s);

class World : public mc::System {
public:
    using Op = std::pair<std::string, std::function<bool(World&, mc::Run&)>>;
    std::unique_ptr<Network> n;
    Model m;
    const std::vector<Op>* ops = nullptr;
    bool checkComponents = true;

    explicit World(const std::string& id = "topo");
    bool apply(unsigned op, mc::Run& run) override;
    void check(mc::Run& run) override { compare(run, true); }
    void query(mc::Run& run) override { compare(run, false); }
    void compare(mc::Run& run, bool everything);
    std::string key() override { return m.text(); }

    VState& st() { return m.variants.at(m.working); }
    // requests; each one executes the request on the network and on the model. They return false when not applicable
    void substation(const std::string& id);
    void vl(const std::string& id, const std::string& sub, bool nb, double nominalV = 400);
    bool removeVl(const std::string& id);
    void bus(const std::string& vl, const std::string& id);
    bool removeBus(const std::string& vl, const std::string& id, mc::Run& run);
    bool removeAllBuses(const std::string& vl, mc::Run& run);
    bool removeAllSwitches(const std::string& vl);
    bool sw(const std::string& vl, const std::string& id, char kind, long n1, long n2, bool open, bool retained);
    bool sw(const std::string& vl, const std::string& id, const std::string& b1, const std::string& b2, bool open);
    bool removeSw(const std::string& id);
    bool setOpen(const std::string& id, bool open);
    bool toggle(const std::string& id);
    bool toggleRetained(const std::string& id);
    bool ic(const std::string& vl, long n1, long n2);
    bool removeIc(const std::string& vl, long n1, long n2, mc::Run& run);
    // single terminal equipment; in a bus/breaker voltage level, bus is the connectable bus
    bool eq(char type, const std::string& id, const std::string& vl, long node, const std::string& bus = "", bool connected = true);
    // line, transformers: end k in vl[k] at node[k] or bus[k] (a leading '-' means disconnected)
    bool branch(char type, const std::string& id, const std::vector<std::string>& vls, const std::vector<std::string>& at);
    bool remove(const std::string& id);
    bool connect(const std::string& eq, unsigned k, mc::Run& run);      // bus/breaker only
    bool disconnect(const std::string& eq, unsigned k, mc::Run& run);   // bus/breaker only
    bool moveTo(const std::string& eq, unsigned k, const std::string& bus);
    bool hvdc(const std::string& id, const std::string& c1, const std::string& c2);
    bool removeHvdc(const std::string& id);
    bool setV(const std::string& eq, unsigned k, int level, double v);  // voltage and angle of the bus of a terminal
    bool setBusV(const std::string& vl, const std::string& bus, double v);
    bool clone(const std::string& src, const std::string& dst, bool overwrite, mc::Run& run);
    bool select(const std::string& v);
    bool removeVariant(const std::string& v);
    bool move();
    Terminal& terminal(const std::string& eq, unsigned k);
    VoltageLevel& level(const std::string& id) { return n->getVoltageLevel(id); }
    void forEachVariant(const std::function<void()>& f);
};

// compares everything derived in the working variant with the model
template <typename N> void checkVariant(N& n, const Model& m, const VState& s, bool comps, mc::Run& run);
extern template void checkVariant<Network>(Network&, const Model&, const VState&, bool, mc::Run&);
extern template void checkVariant<const Network>(const Network&, const Model&, const VState&, bool, mc::Run&);

}  // namespace topo

#endif
