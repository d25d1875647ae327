// C08: connected and synchronous components, in every variant, after every history.
#include "topo.hpp"

using topo::World;
using Op = World::Op;

namespace {

#define OP(name, expr) ops.push_back({name, [](World& w, mc::Run& run) -> bool { (void)run; return expr; }})

const char* INIT = "InitialVariant";

// VA (bus/breaker), VB (bus/breaker), VC (node/breaker), VD (bus/breaker)
void base(World& w) {
    w.substation("S1");
    w.substation("S2");
    w.vl("VA", "S1", false);
    w.vl("VB", "S1", false, 225);
    w.vl("VC", "S1", true, 63);
    w.vl("VD", "S2", false);
    w.bus("VA", "A1");
    w.bus("VA", "A2");
    w.sw("VA", "SA", "A1", "A2", true);
    w.bus("VB", "B1");
    w.bus("VD", "D1");
    w.bus("VD", "D2");
    w.eq('H', "BBS", "VC", 0);
    w.sw("VC", "SC1", 'B', 0, 1, false, true);
    w.sw("VC", "SC2", 'B', 0, 2, true, false);
    w.eq('X', "VSC1", "VA", -1, "A1");
    w.eq('X', "VSC2", "VD", -1, "D1");
    w.eq('Y', "LCC2", "VD", -1, "D2");
    w.eq('Y', "LCC1", "VC", 2);
    w.branch('N', "L1", {"VA", "VD"}, {"A2", "D2"});
    w.branch('2', "T1", {"VA", "VB"}, {"A1", "B1"});
    w.branch('3', "T3", {"VA", "VB", "VC"}, {"A2", "-B1", "1"});
    w.hvdc("H1", "VSC1", "VSC2");
    w.eq('D', "DAN", "VD", -1, "D2");
}

std::vector<Op> editOps() {
    std::vector<Op> ops;
    OP("toggle(SA)", w.toggle("SA"));
    OP("toggle(SC1)", w.toggle("SC1"));
    OP("toggle(SC2)", w.toggle("SC2"));
    OP("disconnect(L1,1)", w.disconnect("L1", 1, run));
    OP("connect(L1,1)", w.connect("L1", 1, run));
    OP("disconnect(T1,2)", w.disconnect("T1", 2, run));
    OP("connect(T3,2)", w.connect("T3", 2, run));
    OP("disconnect(T3,1)", w.disconnect("T3", 1, run));
    OP("disconnect(VSC1)", w.disconnect("VSC1", 1, run));
    OP("connect(VSC1)", w.connect("VSC1", 1, run));
    OP("removeHvdc(H1)", w.removeHvdc("H1"));
    OP("addHvdc(H1)", w.hvdc("H1", "VSC1", "VSC2"));
    OP("addHvdc(H2)", w.hvdc("H2", "LCC1", "LCC2"));
    OP("remove(L1)", w.remove("L1"));
    OP("addLine(L1)", w.branch('N', "L1", {"VA", "VD"}, {"A2", "D2"}));
    OP("addLine(L2)", w.branch('N', "L2", {"VD", "VD"}, {"D1", "D2"}));
    OP("remove(T3)", w.remove("T3"));
    OP("remove(DAN)", w.remove("DAN"));
    OP("moveTo(L1,2,D1)", w.moveTo("L1", 2, "D1"));
    OP("addTransformer(T2)", w.branch('2', "T2", {"VC", "VB"}, {"5", "B1"}));
    OP("addSwitch(SC5)", w.sw("VC", "SC5", 'B', 5, 0, false, false));
    OP("removeSwitch(SC1)", w.removeSw("SC1"));
    OP("removeSwitch(SA)", w.removeSw("SA"));
    OP("removeVoltageLevel(VD)", w.removeVl("VD"));
    return ops;
}

std::vector<Op> variantOps() {
    std::vector<Op> ops;
    OP("clone(Initial,v1)", w.clone(INIT, "v1", false, run));
    OP("clone(v1,Initial)", w.clone("v1", INIT, true, run));
    OP("select(Initial)", w.select(INIT));
    OP("select(v1)", w.select("v1"));
    OP("removeVariant(v1)", w.removeVariant("v1"));
    OP("toggle(SA)", w.toggle("SA"));
    OP("toggle(SC1)", w.toggle("SC1"));
    OP("disconnect(L1,1)", w.disconnect("L1", 1, run));
    OP("disconnect(VSC2)", w.disconnect("VSC2", 1, run));
    OP("removeHvdc(H1)", w.removeHvdc("H1"));
    OP("addHvdc(H2)", w.hvdc("H2", "LCC1", "LCC2"));
    OP("remove(L1)", w.remove("L1"));
    OP("addLine(L2)", w.branch('N', "L2", {"VD", "VD"}, {"D1", "D2"}));
    OP("addSwitch(SC5)", w.sw("VC", "SC5", 'B', 2, 0, false, false));
    OP("removeSwitch(SC1)", w.removeSw("SC1"));
    OP("addDangling(DAN2)", w.eq('D', "DAN2", "VA", -1, "A1"));
    return ops;
}

const std::vector<Op> EDIT = editOps(), VARIANT = variantOps();

mc::Space seq(const std::string& name, const std::vector<Op>& ops, unsigned depth, mc::Queries q, void (*init)(World&)) {
    return mc::sequences(name, static_cast<unsigned>(ops.size()), depth, q, [&ops, init] {
        std::unique_ptr<World> w(new World());
        init(*w);
        w->ops = &ops;
        return std::unique_ptr<mc::System>(std::move(w));
    }, [&ops](unsigned i) { return ops[i].first; });
}

// six buses, each with a dangling line; every set of links: 5 lines, a transformer, 2 HVDC lines, 3 windings transformer
mc::Space patterns(bool thorough) {
    // line states: absent, connected, disconnected at one end
    std::vector<unsigned> dims = {3, 3, 2, 2, 2, 2, 3, 3, 4};
    if (thorough) dims = {4, 4, 4, 4, 3, 3, 4, 4, 8};
    mc::Space s;
    s.name = "every set of links between 6 buses";
    s.size = mc::product(dims);
    s.describe = [dims](uint64_t i) { std::string r; for (unsigned x : mc::decode(i, dims)) r += mc::str(x) + " "; return r; };
    s.run = [dims](uint64_t i, mc::Run& run) {
        auto d = mc::decode(i, dims);
        World w;
        w.substation("S");
        for (int k = 0; k < 6; ++k) {
            std::string vl = "V" + mc::str(k), b = "B" + mc::str(k);
            w.vl(vl, "S", false);
            w.bus(vl, b);
            w.eq('D', "DAN" + mc::str(k), vl, -1, b);
            w.eq('X', "VSC" + mc::str(k), vl, -1, b);
        }
        auto vl = [](int k) { return "V" + mc::str(k); };
        auto bus = [](int k, unsigned state, unsigned off) { return (state == off ? "-B" : "B") + mc::str(k); };
        const int lines[6][2] = {{0, 1}, {1, 2}, {3, 4}, {4, 5}, {5, 0}, {2, 3}};
        for (unsigned k = 0; k < 6; ++k) {
            if (!d[k]) continue;
            int a = lines[k][0], b = lines[k][1];
            w.branch(k == 3 ? '2' : 'N', "L" + mc::str(k), {vl(a), vl(b)}, {bus(a, d[k], 2), bus(b, d[k], 3)});
        }
        const int hv[2][2] = {{0, 3}, {2, 5}};
        for (unsigned k = 0; k < 2; ++k) {
            if (!d[6 + k]) continue;
            std::string a = "VSC" + mc::str(hv[k][0]), b = "VSC" + mc::str(hv[k][1]);
            w.hvdc("H" + mc::str(k), a, b);
            if (d[6 + k] == 2) w.disconnect(a, 1, run);
            if (d[6 + k] == 3) w.disconnect(b, 1, run);
        }
        if (d[8]) {
            unsigned mask = d[8] - 1;   // which legs are disconnected
            auto leg = [&](int k, unsigned bit) { return ((mask & bit) ? "-B" : "B") + mc::str(k); };
            w.branch('3', "T3", {vl(1), vl(3), vl(5)}, {leg(1, 1), leg(3, 2), leg(5, 4)});
        }
        w.check(run);
        run.state(w.key());
        run.trace();
    };
    return s;
}

}  // namespace

int main(int argc, char** argv) {
    mc::Config c;
    c.property = "C08";
    c.level = "model_checking";
    c.assumptions = {"networks of 4 voltage levels of both kinds (histories) or 6 single bus voltage levels (patterns)", "operation sequences up to the depth given in the space names"};
    return mc::main(argc, argv, c, [](bool thorough, std::vector<mc::Space>& s) {
        s.push_back(patterns(thorough));
        s.push_back(seq("edits, depth 3", EDIT, thorough ? 4 : 3, mc::Queries::BOTH, base));
        s.push_back(seq("variants and edits, depth 4", VARIANT, thorough ? 5 : 4, mc::Queries::EACH, base));
        s.push_back(seq("variants and edits, every query pattern", VARIANT, thorough ? 4 : 2, mc::Queries::ALL, base));
    });
}
