// C05: bus/breaker voltage levels: calculated buses, in every variant, after every history.
#include "topo.hpp"

using topo::World;
using Op = World::Op;

namespace {

#define OP(name, expr) ops.push_back({name, [](World& w, mc::Run& run) -> bool { (void)run; return expr; }})

const char* INIT = "InitialVariant";

void base(World& w) {
    w.substation("S");
    w.vl("V", "S", false);
    w.bus("V", "B1");
    w.bus("V", "B2");
    w.bus("V", "B3");
    w.sw("V", "S12", "B1", "B2", false);
    w.sw("V", "S23", "B2", "B3", true);
    w.eq('L', "LD1", "V", -1, "B1");
    w.eq('D', "DAN1", "V", -1, "B2");
    w.eq('G', "G1", "V", -1, "B3", false);
}

void base2(World& w) {
    base(w);
    w.vl("W", "S", false, 225);
    w.bus("W", "C1");
    w.bus("W", "C2");
    w.sw("W", "SC", "C1", "C2", true);
    w.branch('2', "T1", {"V", "W"}, {"B3", "C1"});
    w.branch('N', "L1", {"V", "V"}, {"B1", "-B3"});
    w.eq('X', "VSC1", "W", -1, "C2");
    w.eq('Y', "LCC1", "V", -1, "B2");
}

std::vector<Op> editOps() {
    std::vector<Op> ops;
    OP("toggle(S12)", w.toggle("S12"));
    OP("toggle(S23)", w.toggle("S23"));
    OP("removeSwitch(S12)", w.removeSw("S12"));
    OP("addSwitch(S12)", w.sw("V", "S12", "B1", "B2", false));
    OP("addSwitch(S13)", w.sw("V", "S13", "B3", "B1", false));
    OP("addSwitch(S4)", w.sw("V", "S4", "B4", "B2", false));
    OP("removeSwitch(S23)", w.removeSw("S23"));
    OP("removeAllSwitches", w.removeAllSwitches("V"));
    OP("addBus(B4)", !std::count(w.m.vls["V"].buses.begin(), w.m.vls["V"].buses.end(), "B4") && (w.bus("V", "B4"), true));
    OP("addBus(B1)", !std::count(w.m.vls["V"].buses.begin(), w.m.vls["V"].buses.end(), "B1") && (w.bus("V", "B1"), true));
    OP("removeBus(B1)", w.removeBus("V", "B1", run));
    OP("removeBus(B3)", w.removeBus("V", "B3", run));
    OP("removeBus(B4)", w.removeBus("V", "B4", run));
    OP("removeAllBuses", w.removeAllBuses("V", run));
    OP("disconnect(DAN1)", w.disconnect("DAN1", 1, run));
    OP("connect(DAN1)", w.connect("DAN1", 1, run));
    OP("connect(G1)", w.connect("G1", 1, run));
    OP("moveTo(LD1,B3)", w.moveTo("LD1", 1, "B3"));
    OP("moveTo(DAN1,B3)", w.moveTo("DAN1", 1, "B3"));
    OP("moveTo(DAN1,B4)", w.moveTo("DAN1", 1, "B4"));
    OP("remove(LD1)", w.remove("LD1"));
    OP("remove(DAN1)", w.remove("DAN1"));
    OP("remove(G1)", w.remove("G1"));
    OP("addDangling(DAN2,B4)", w.eq('D', "DAN2", "V", -1, "B4"));
    OP("addDangling(DAN1,B1)", w.eq('D', "DAN1", "V", -1, "B1"));
    return ops;
}

std::vector<Op> variantOps() {
    std::vector<Op> ops;
    OP("clone(Initial,v1)", w.clone(INIT, "v1", false, run));
    OP("clone(Initial,v2)", w.clone(INIT, "v2", true, run));
    OP("clone(v1,Initial)", w.clone("v1", INIT, true, run));
    OP("select(Initial)", w.select(INIT));
    OP("select(v1)", w.select("v1"));
    OP("removeVariant(v1)", w.removeVariant("v1"));
    OP("toggle(S12)", w.toggle("S12"));
    OP("toggle(S23)", w.toggle("S23"));
    OP("addSwitch(S13)", w.sw("V", "S13", "B3", "B1", false));
    OP("removeSwitch(S23)", w.removeSw("S23"));
    OP("disconnect(DAN1)", w.disconnect("DAN1", 1, run));
    OP("moveTo(DAN1,B3)", w.moveTo("DAN1", 1, "B3"));
    OP("moveTo(LD1,B2)", w.moveTo("LD1", 1, "B2"));
    OP("remove(DAN1)", w.remove("DAN1"));
    OP("remove(LD1)", w.remove("LD1"));
    OP("addDangling(DAN2,B3)", w.eq('D', "DAN2", "V", -1, "B3"));
    OP("removeBus(B1)", w.removeBus("V", "B1", run));
    OP("setBusV(B1)", w.setBusV("V", "B1", 401));
    OP("setV(calculated bus of DAN1)", w.setV("DAN1", 1, 2, 402));
    return ops;
}

std::vector<Op> twoOps() {
    std::vector<Op> ops;
    OP("setBusV(B1)", w.setBusV("V", "B1", 401));
    OP("setBusV(C2)", w.setBusV("W", "C2", 225));
    OP("setV(calculated bus of T1 side 1)", w.setV("T1", 1, 2, 402));
    OP("toggle(S12)", w.toggle("S12"));
    OP("toggle(S23)", w.toggle("S23"));
    OP("toggle(SC)", w.toggle("SC"));
    OP("disconnect(T1,1)", w.disconnect("T1", 1, run));
    OP("disconnect(T1,2)", w.disconnect("T1", 2, run));
    OP("connect(T1,2)", w.connect("T1", 2, run));
    OP("connect(L1,2)", w.connect("L1", 2, run));
    OP("moveTo(L1,1,B2)", w.moveTo("L1", 1, "B2"));
    OP("remove(T1)", w.remove("T1"));
    OP("remove(L1)", w.remove("L1"));
    OP("addTransformer(T1)", w.branch('2', "T1", {"V", "W"}, {"B2", "C2"}));
    OP("remove(VSC1)", w.remove("VSC1"));
    OP("removeVoltageLevel(W)", w.removeVl("W"));
    OP("clone(Initial,v1)", w.clone(INIT, "v1", true, run));
    OP("select(v1)", w.select("v1"));
    OP("select(Initial)", w.select(INIT));
    return ops;
}

const std::vector<Op> EDIT = editOps(), VARIANT = variantOps(), TWO = twoOps();

mc::Space seq(const std::string& name, const std::vector<Op>& ops, unsigned depth, mc::Queries q, void (*init)(World&)) {
    return mc::sequences(name, static_cast<unsigned>(ops.size()), depth, q, [&ops, init] {
        std::unique_ptr<World> w(new World());
        init(*w);
        w->ops = &ops;
        return std::unique_ptr<mc::System>(std::move(w));
    }, [&ops](unsigned i) { return ops[i].first; });
}

// 4 buses, every state of the 6 possible switches (absent, open, closed), every equipment on each bus
const char KINDS[] = {'-', 'L', 'D', 'd', 'Y'};   // d: disconnected dangling line
mc::Space patterns(bool thorough) {
    std::vector<unsigned> dims = {3, 3, 3, 3, 2, 1, 4, 4, 4, 3};
    if (thorough) dims = {3, 3, 3, 3, 3, 3, 5, 5, 5, 5};
    mc::Space s;
    s.name = "every equipment pattern and switch state on 4 buses";
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { std::string r; for (unsigned x : mc::decode(i, dims)) r += mc::str(x) + " "; return r; };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        World w;
        w.substation("S");
        w.vl("V", "S", false);
        for (int k = 1; k <= 4; ++k) w.bus("V", "B" + mc::str(k));
        const char* ends[6][2] = {{"B1", "B2"}, {"B3", "B2"}, {"B3", "B4"}, {"B1", "B4"}, {"B1", "B3"}, {"B4", "B2"}};
        for (unsigned k = 0; k < 6; ++k) if (d[k]) w.sw("V", "S" + mc::str(k), ends[k][0], ends[k][1], d[k] == 2);
        for (unsigned k = 0; k < 4; ++k) {
            char ty = KINDS[d[6 + k]];
            if (ty == '-') continue;
            w.eq(ty == 'd' ? 'D' : ty, "E" + mc::str(k), "V", -1, "B" + mc::str(k + 1), ty != 'd');
        }
        w.check(run);
        run.state(w.key());
        run.trace();
    };
    return s;
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C05";
    c.level = "model_checking";
    c.assumptions = {"networks of 1 or 2 bus/breaker voltage levels with at most 5 buses, 6 switches, 3 variants", "operation sequences up to the depth given in the space names"};
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        s.push_back(patterns(thorough));
        s.push_back(seq("edits, depth 3", EDIT, thorough ? 4 : 3, mc::Queries::BOTH, base));
        s.push_back(seq("variants and edits, depth 4", VARIANT, thorough ? 5 : 4, mc::Queries::EACH, base));
        s.push_back(seq("variants and edits, every query pattern", VARIANT, thorough ? 4 : 3, mc::Queries::ALL, base));
        s.push_back(seq("two voltage levels, depth 3", TWO, thorough ? 4 : 3, mc::Queries::BOTH, base2));
    });
}
