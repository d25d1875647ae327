// Explicit, exhaustive exploration of bounded spaces of executions of the real library.
//
// A check declares spaces. A space is a finite, indexable set of cases; running a case executes the real library
// from a fresh state and compares everything observed with an oracle (a reference model, or another view of the
// library itself). All the cases of all the spaces are executed, none is sampled. Cases run in forked worker
// processes, so a crash, a sanitizer report or a hang is attributed to its case and the exploration goes on.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <cstdint>
#include <functional>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc {

// thrown by oracles; key identifies the violation (known findings are matched on it)
struct Fail {
    std::string key;
    std::string msg;
};

class Run {
public:
    std::vector<std::string> steps;          // what was done so far, for the replay file
    bool verbose = false;
    void step(const std::string& s);
    void transition(uint64_t n = 1);         // one operation executed on the implementation
    void state(uint64_t hash);               // a (model) state reached
    void state(const std::string& s);
    void trace(uint64_t n = 1);              // a complete execution compared with the oracle
    void distinct(uint64_t hash);            // a distinct non-trivial case (input properties)
    void distinct(const std::string& s);
    void count(uint64_t n = 1);              // evaluations
    void sample(const std::string& s);
    [[noreturn]] void fail(const std::string& msg);
    [[noreturn]] void fail(const std::string& key, const std::string& msg);
};

uint64_t hash(const std::string& s, uint64_t seed = 1469598103934665603ULL);

struct Space {
    std::string name;
    uint64_t size = 0;
    std::function<void(uint64_t, Run&)> run;
    std::function<std::string(uint64_t)> describe;
    // optional: cases with index >= quickSize are only run in the thorough tier
};

struct Config {
    std::string property;
    std::string level;                       // model_checking, exploration or fault_enumeration
    std::string rule;                        // for exploration / fault_enumeration
    std::vector<std::string> assumptions;
    unsigned caseTimeout = 60;               // seconds
    uint64_t memoryLimitMB = 0;              // address space limit of a worker (0: none)
    std::function<void()> workerInit;        // run once in each worker
    unsigned workers = 0;                    // 0: one per core
};

// registry
using SpaceBuilder = std::function<void(bool thorough, std::vector<Space>& spaces)>;
int main(int argc, char** argv, Config config, const SpaceBuilder& builder);

// ---- histories ------------------------------------------------------------------------------------------------

class System {
public:
    virtual ~System() = default;
    // execute operation op on the implementation and on the model; false when the operation is not applicable here
    virtual bool apply(unsigned op, Run& run) = 0;
    // compare every observation of the implementation with the model
    virtual void check(Run& run) = 0;
    // the queries made at the intermediate points of a history; a lighter version of check
    virtual void query(Run& run) { check(run); }
    // canonical text of the model state
    virtual std::string key() = 0;
};

enum class Queries {
    ALL,      // every subset of the intermediate points is queried (2^length)
    BOTH,     // no intermediate query, and a query at every point
    EACH,     // a query at every point
    NONE      // a query at the end only (every prefix is itself a case)
};

// all the operation sequences of length 0..depth
Space sequences(const std::string& name, unsigned nOps, unsigned depth, Queries queries,
                const std::function<std::unique_ptr<System>()>& factory, const std::function<std::string(unsigned)>& opName);

// cartesian products: decode(idx, {n1, n2, ...})
std::vector<unsigned> decode(uint64_t idx, const std::vector<unsigned>& dims);
uint64_t product(const std::vector<unsigned>& dims);

template <typename T>
std::string str(const T& t) {
    std::ostringstream o;
    o.precision(17);
    o << t;
    return o.str();
}
std::string str(double d);
inline std::string str(bool b) { return b ? "true" : "false"; }
inline std::string str(const std::string& s) { return s; }
inline std::string str(const char* s) { return s; }

// run f: true if it completed, false if it threw a std::exception (message stored in what)
bool accepted(const std::function<void()>& f, std::string* what = nullptr);

const std::string& libDir();                 // where the built libraries are (extensions)

}  // namespace mc

#define MC_CHECK(run, cond, msg) do { if (!(cond)) { std::ostringstream mc_o_; mc_o_.precision(17); mc_o_ << msg; (run).fail(mc_o_.str()); } } while (0)

#endif
