// C06: node/breaker voltage levels, both calculated bus levels, in every variant, after every history.
#include "topo.hpp"

using topo::World;
using Op = World::Op;

namespace {

#define OP(name, expr) ops.push_back({name, [](World& w, mc::Run& run) -> bool { (void)run; return expr; }})

const char* INIT = "InitialVariant";

// BBS1@0 -CPL(B)- BBS2@1 ; BBS1 -DL1(D)- 4 -BL1(B, retained)- LD1@2 ; BBS2 -BD1(B)- DL1@3 -ic- G1@5 ; nodes 6, 7 free
void base(World& w) {
    w.substation("S");
    w.vl("V", "S", true);
    w.eq('H', "BBS1", "V", 0);
    w.eq('H', "BBS2", "V", 1);
    w.eq('L', "LD1", "V", 2);
    w.eq('D', "DAN1", "V", 3);
    w.eq('G', "G1", "V", 5);
    w.sw("V", "CPL", 'B', 0, 1, false, false);
    w.sw("V", "DL1", 'D', 0, 4, false, false);
    w.sw("V", "BL1", 'B', 4, 2, false, true);
    w.sw("V", "BD1", 'B', 1, 3, false, false);
    w.ic("V", 3, 5);
}

// two voltage levels linked by a line and a transformer; no busbar section in W: its buses need two feeders, one a branch
void base2(World& w) {
    base(w);
    w.vl("W", "S", true, 225);
    w.sw("W", "SW1", 'B', 0, 1, false, true);
    w.sw("W", "SW2", 'L', 1, 2, false, false);
    w.eq('L', "LD2", "W", 2);
    w.branch('2', "T1", {"V", "W"}, {"6", "0"});
    w.sw("V", "BT1", 'B', 1, 6, false, false);
}

std::vector<Op> editOps() {
    std::vector<Op> ops;
    OP("toggle(CPL)", w.toggle("CPL"));
    OP("toggle(BL1)", w.toggle("BL1"));
    OP("toggle(BD1)", w.toggle("BD1"));
    OP("toggleRetained(CPL)", w.toggleRetained("CPL"));
    OP("toggleRetained(BL1)", w.toggleRetained("BL1"));
    OP("removeSwitch(BL1)", w.removeSw("BL1"));
    OP("addSwitch(BL1,4,2)", w.sw("V", "BL1", 'B', 4, 2, true, false));
    OP("addSwitch(NEW,2,3)", w.sw("V", "NEW", 'B', 2, 3, false, false));
    OP("removeSwitch(NEW)", w.removeSw("NEW"));
    OP("addSwitch(FAR,9,5)", w.sw("V", "FAR", 'L', 9, 5, false, true));
    OP("addInternalConnection(2,5)", w.ic("V", 2, 5));
    OP("addInternalConnection(5,3)", w.ic("V", 5, 3));
    OP("removeInternalConnections(3,5)", w.removeIc("V", 3, 5, run));
    OP("removeInternalConnections(2,5)", w.removeIc("V", 2, 5, run));
    OP("remove(LD1)", w.remove("LD1"));
    OP("remove(DAN1)", w.remove("DAN1"));
    OP("remove(BBS1)", w.remove("BBS1"));
    OP("addLoad(LD1,2)", w.eq('L', "LD1", "V", 2));
    OP("addBattery(BAT,7)", w.eq('A', "BAT", "V", 7));
    OP("addSvc(SVC,4)", w.eq('V', "SVC", "V", 4));
    return ops;
}

std::vector<Op> variantOps() {
    std::vector<Op> ops;
    OP("clone(Initial,v1)", w.clone(INIT, "v1", false, run));
    OP("clone(Initial,v2)", w.clone(INIT, "v2", true, run));
    OP("clone(v1,Initial)", w.clone("v1", INIT, true, run));
    OP("select(Initial)", w.select(INIT));
    OP("select(v1)", w.select("v1"));
    OP("removeVariant(v1)", w.removeVariant("v1"));
    OP("toggle(CPL)", w.toggle("CPL"));
    OP("toggle(BL1)", w.toggle("BL1"));
    OP("toggleRetained(CPL)", w.toggleRetained("CPL"));
    OP("removeSwitch(BL1)", w.removeSw("BL1"));
    OP("addSwitch(NEW,2,3)", w.sw("V", "NEW", 'B', 2, 3, false, false));
    OP("addInternalConnection(2,5)", w.ic("V", 2, 5));
    OP("removeInternalConnections(3,5)", w.removeIc("V", 3, 5, run));
    OP("remove(LD1)", w.remove("LD1"));
    OP("addShunt(SH,7)", w.eq('S', "SH", "V", 7));
    OP("addSwitch(BSH,7,1)", w.sw("V", "BSH", 'B', 7, 1, false, false));
    OP("setV(bus of DAN1,401)", w.setV("DAN1", 1, 2, 401));
    OP("setV(bus/breaker bus of LD1,402)", w.setV("LD1", 1, 1, 402));
    return ops;
}

std::vector<Op> voltageOps() {
    std::vector<Op> ops;
    OP("setV(bus of DAN1,401)", w.setV("DAN1", 1, 2, 401));
    OP("setV(bus of LD1,402)", w.setV("LD1", 1, 2, 402));
    OP("setV(bus/breaker bus of LD1,403)", w.setV("LD1", 1, 1, 403));
    OP("setV(bus/breaker bus of BBS1,404)", w.setV("BBS1", 1, 1, 404));
    OP("setV(bus/breaker bus of T1 side 2,224)", w.setV("T1", 2, 1, 224));
    OP("setV(bus of LD2,223)", w.setV("LD2", 1, 2, 223));
    OP("toggle(CPL)", w.toggle("CPL"));
    OP("toggle(BL1)", w.toggle("BL1"));
    OP("toggle(SW1)", w.toggle("SW1"));
    OP("toggle(SW2)", w.toggle("SW2"));
    OP("toggle(BT1)", w.toggle("BT1"));
    OP("toggleRetained(SW1)", w.toggleRetained("SW1"));
    OP("remove(T1)", w.remove("T1"));
    OP("addTransformer(T1)", w.branch('2', "T1", {"V", "W"}, {"6", "0"}));
    OP("removeVoltageLevel(V)", w.removeVl("V"));
    OP("clone(Initial,v1)", w.clone(INIT, "v1", true, run));
    OP("select(v1)", w.select("v1"));
    OP("select(Initial)", w.select(INIT));
    return ops;
}

const std::vector<Op> EDIT = editOps(), VARIANT = variantOps(), VOLTAGE = voltageOps();

mc::Space seq(const std::string& name, const std::vector<Op>& ops, unsigned depth, mc::Queries q, void (*init)(World&)) {
    return mc::sequences(name, static_cast<unsigned>(ops.size()), depth, q, [&ops, init] {
        std::unique_ptr<World> w(new World());
        init(*w);
        w->ops = &ops;
        return std::unique_ptr<mc::System>(std::move(w));
    }, [&ops](unsigned i) { return ops[i].first; });
}

// every placement of equipment kinds on a 5 node graph, every state of the switches
// node 0: H, L, N(none); nodes 1..3: one of the kinds; switches 0-1 0-2 1-3 2-3 0-4 with the states closed, open, retained
const char KINDS[] = {'-', 'H', 'L', 'D', 'X', 'S'};
mc::Space patterns(bool thorough) {
    std::vector<unsigned> dims = {6, 6, 6, 6, 3, 3, 3, 3, 2};
    if (!thorough) dims = {4, 6, 6, 4, 2, 3, 2, 3, 2};
    mc::Space s;
    s.name = "every equipment pattern and switch state on a 5 node cycle";
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { std::string r; for (unsigned x : mc::decode(i, dims)) r += mc::str(x) + " "; return r; };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        World w;
        w.substation("S");
        w.vl("V", "S", true);
        for (long k = 0; k < 4; ++k) if (KINDS[d[static_cast<size_t>(k)]] != '-') w.eq(KINDS[d[static_cast<size_t>(k)]], "E" + mc::str(k), "V", k);
        const long ends[4][2] = {{0, 1}, {2, 0}, {1, 3}, {3, 2}};
        for (unsigned k = 0; k < 4; ++k) {
            w.sw("V", "S" + mc::str(k), k % 2 ? 'D' : 'B', ends[k][0], ends[k][1], d[4 + k] == 1, d[4 + k] == 2);
        }
        if (d[8]) w.ic("V", 0, 4);
        w.check(run);
        run.state(w.key());
        run.trace();
    };
    return s;
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C06";
    c.level = "model_checking";
    c.assumptions = {"networks of 1 or 2 node/breaker voltage levels with at most 10 nodes, 7 switches, 3 variants", "operation sequences up to the depth given in the space names"};
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        s.push_back(patterns(thorough));
        s.push_back(seq("edits, depth 3", EDIT, thorough ? 4 : 3, mc::Queries::BOTH, base));
        s.push_back(seq("variants and edits, depth 4", VARIANT, thorough ? 5 : 4, mc::Queries::EACH, base));
        s.push_back(seq("variants and edits, every query pattern", VARIANT, thorough ? 4 : 3, mc::Queries::ALL, base));
        s.push_back(seq("voltages, two voltage levels, depth 3", VOLTAGE, thorough ? 4 : 3, mc::Queries::BOTH, base2));
    });
}
