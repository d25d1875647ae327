#include "mc.hpp"

#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <thread>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <typeinfo>
#include <cxxabi.h>

namespace mc {

namespace {

const unsigned MAX_WORKERS = 64;
const unsigned MAX_VIOL = 200;
const unsigned MAX_SAMPLES = 12;
const uint64_t TABLE = 1ULL << 23;

struct Violation {
    std::atomic<int> ready;
    unsigned space;
    uint64_t idx;
    char key[1024];
    char msg[6000];
    char steps[6000];
};

struct Slot {
    std::atomic<uint64_t> cur;
    std::atomic<uint64_t> end;
    std::atomic<int> active;
};

struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<int> stop;
    std::atomic<uint64_t> transitions, traces, evaluations, executed, states, distinct;
    std::atomic<unsigned> nViol;
    std::atomic<unsigned> nSamples;
    std::atomic<uint64_t> violTotal;
    Slot slots[MAX_WORKERS];
    Violation viol[MAX_VIOL];
    char samples[MAX_SAMPLES][1500];
    std::atomic<uint64_t> table[TABLE];
    std::atomic<uint64_t> table2[TABLE];
    std::atomic<int> tableFull;
};

Shared* g = nullptr;
std::string g_libDir;
std::string g_caseKey;
std::set<std::string> g_known;

bool insertHash(std::atomic<uint64_t>* table, uint64_t h) {
    if (h == 0) h = 1;
    uint64_t i = (h * 0x9E3779B97F4A7C15ULL) & (TABLE - 1);
    for (unsigned n = 0; n < 4096; ++n) {
        uint64_t cur = table[i].load(std::memory_order_relaxed);
        if (cur == h) return false;
        if (cur == 0) {
            uint64_t expected = 0;
            if (table[i].compare_exchange_strong(expected, h)) return true;
            if (expected == h) return false;
        }
        i = (i + 1) & (TABLE - 1);
    }
    g->tableFull = 1;
    return false;
}

void setStr(char* dst, size_t n, const std::string& s) {
    strncpy(dst, s.c_str(), n - 1);
    dst[n - 1] = 0;
}

std::string jsonEscape(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r;
}

std::string oneLine(const std::string& s) {
    std::string r;
    for (char c : s) r += (c == '\n' || c == '\r') ? ' ' : c;
    return r;
}

void addViolation(unsigned space, uint64_t idx, const std::string& key, const std::string& msg, const std::vector<std::string>& steps) {
    g->violTotal++;
    unsigned n = g->nViol++;
    if (n >= MAX_VIOL) { g->nViol = MAX_VIOL; return; }
    Violation& v = g->viol[n];
    v.space = space;
    v.idx = idx;
    setStr(v.key, sizeof v.key, key);
    setStr(v.msg, sizeof v.msg, msg);
    std::string st;
    for (const auto& s : steps) st += s + "\n";
    setStr(v.steps, sizeof v.steps, st);
    v.ready = 1;
}

std::string demangle(const char* n) {
    int st = 0;
    char* d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string r = d != nullptr ? d : n;
    free(d);
    return r;
}

void runCase(const Space& sp, unsigned si, uint64_t idx, Run& run) {
    std::string base = sp.name + ": " + (sp.describe ? sp.describe(idx) : str(idx));
    g_caseKey = base;
    try {
        sp.run(idx, run);
        return;
    } catch (const Fail& f) {
        addViolation(si, idx, f.key, f.msg, run.steps);
    } catch (const std::exception& e) {
        addViolation(si, idx, base, "unexpected exception " + demangle(typeid(e).name()) + ": " + e.what(), run.steps);
    }
}

unsigned unknownViolations() {
    unsigned n = g->nViol;
    unsigned r = 0;
    for (unsigned i = 0; i < n && i < MAX_VIOL; ++i) {
        if (g->viol[i].ready && g_known.count(g->viol[i].key) == 0) ++r;
    }
    return r;
}

}  // namespace

const std::string& libDir() { return g_libDir; }

uint64_t hash(const std::string& s, uint64_t h) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ULL; h ^= h >> 32;
    return h;
}

void Run::step(const std::string& s) { steps.push_back(s); if (verbose) std::cerr << "  " << s << std::endl; }
void Run::transition(uint64_t n) { g->transitions.fetch_add(n, std::memory_order_relaxed); }
void Run::state(uint64_t h) { if (insertHash(g->table, h)) g->states.fetch_add(1, std::memory_order_relaxed); }
void Run::state(const std::string& s) { state(hash(s)); }
void Run::trace(uint64_t n) { g->traces.fetch_add(n, std::memory_order_relaxed); }
void Run::distinct(uint64_t h) { if (insertHash(g->table2, h)) g->distinct.fetch_add(1, std::memory_order_relaxed); }
void Run::distinct(const std::string& s) { distinct(hash(s)); }
void Run::count(uint64_t n) { g->evaluations.fetch_add(n, std::memory_order_relaxed); }
void Run::sample(const std::string& s) {
    if (g->nSamples >= MAX_SAMPLES) return;
    unsigned n = g->nSamples++;
    if (n < MAX_SAMPLES) setStr(g->samples[n], sizeof g->samples[n], s);
}
void Run::fail(const std::string& msg) { throw Fail{g_caseKey, msg}; }
void Run::fail(const std::string& key, const std::string& msg) { throw Fail{key, msg}; }

std::string str(double d) {
    if (std::isnan(d)) return "NaN";
    char b[40];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}

bool accepted(const std::function<void()>& f, std::string* what) {
    try {
        f();
        return true;
    } catch (const std::exception& e) {
        if (what != nullptr) *what = e.what();
        return false;
    }
}

uint64_t product(const std::vector<unsigned>& dims) {
    uint64_t r = 1;
    for (unsigned d : dims) r *= d;
    return r;
}

std::vector<unsigned> decode(uint64_t idx, const std::vector<unsigned>& dims) {
    std::vector<unsigned> r;
    for (unsigned d : dims) { r.push_back(static_cast<unsigned>(idx % d)); idx /= d; }
    return r;
}

Space sequences(const std::string& name, unsigned nOps, unsigned depth, Queries queries,
                const std::function<std::unique_ptr<System>()>& factory, const std::function<std::string(unsigned)>& opName) {
    struct Seq { std::vector<unsigned> ops; uint64_t mask; };
    auto masks = [queries](unsigned len) -> uint64_t {
        if (len == 0) return 1;
        return queries == Queries::ALL ? (1ULL << len) : queries == Queries::BOTH ? 2 : 1;
    };
    auto pw = [nOps](unsigned l) { uint64_t r = 1; while (l-- > 0) r *= nOps; return r; };
    auto dec = [=](uint64_t idx) {
        Seq s;
        unsigned len = 0;
        for (;; ++len) {
            uint64_t n = pw(len) * masks(len);
            if (idx < n) break;
            idx -= n;
        }
        uint64_t m = idx % masks(len);
        idx /= masks(len);
        s.mask = queries == Queries::ALL ? m : queries == Queries::EACH ? ~0ULL : queries == Queries::NONE ? 0 : (m ? ~0ULL : 0);
        for (unsigned i = 0; i < len; ++i) { s.ops.push_back(static_cast<unsigned>(idx % nOps)); idx /= nOps; }
        return s;
    };
    Space sp;
    sp.name = name;
    for (unsigned l = 0; l <= depth; ++l) sp.size += pw(l) * masks(l);
    sp.describe = [=](uint64_t idx) {
        Seq s = dec(idx);
        std::string r;
        for (size_t i = 0; i < s.ops.size(); ++i) {
            if ((s.mask >> i) & 1) r += "? ";
            r += opName(s.ops[i]);
            if (i + 1 < s.ops.size()) r += "; ";
        }
        return r;
    };
    sp.run = [=](uint64_t idx, Run& run) {
        Seq s = dec(idx);
        std::unique_ptr<System> sys = factory();
        for (size_t i = 0; i < s.ops.size(); ++i) {
            if ((s.mask >> i) & 1) { run.step("query everything"); sys->query(run); }
            run.step(opName(s.ops[i]));
            if (!sys->apply(s.ops[i], run)) return;
            run.transition();
        }
        run.step("query everything");
        sys->check(run);
        run.state(sys->key());
        run.trace();
        run.distinct(hash(sys->key()));
        if (idx % 977 == 5) run.sample(sp.name + ": " + [&]() { std::string t; for (auto& x : run.steps) t += x + "; "; return t; }());
    };
    return sp;
}

int main(int argc, char** argv, Config config, const SpaceBuilder& builder) {
    std::string tier = "quick", evidence, replayDir, knownFile, replay, only;
    long replaySpace = -1;
    uint64_t replayIdx = 0;
    int seed = 1;
    double cap = 0;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = next();
        else if (a == "--evidence") evidence = next();
        else if (a == "--replay-dir") replayDir = next();
        else if (a == "--known") knownFile = next();
        else if (a == "--seed") seed = atoi(next().c_str());
        else if (a == "--libdir") g_libDir = next();
        else if (a == "--cap") cap = atof(next().c_str());
        else if (a == "--case") { replaySpace = atol(next().c_str()); replayIdx = strtoull(next().c_str(), nullptr, 10); }
        else if (a == "--list") list = true;
        else if (a == "--only") only = next();
    }
    bool thorough = tier == "thorough";
    auto t0 = time(nullptr);
    struct timeval tv0;
    gettimeofday(&tv0, nullptr);

    if (!knownFile.empty()) {
        std::ifstream in(knownFile);
        std::string line;
        std::string prefix = "known: property=" + config.property + " key=";
        while (std::getline(in, line)) {
            if (line.compare(0, prefix.size(), prefix) == 0) {
                std::string k = line.substr(prefix.size());
                size_t p = k.find(" ## ");
                if (p != std::string::npos) k = k.substr(0, p);
                g_known.insert(k);
            }
        }
    }

    void* mem = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (mem == MAP_FAILED) { perror("mmap"); return 2; }
    g = static_cast<Shared*>(mem);

    std::vector<Space> spaces;
    builder(thorough, spaces);
    if (!only.empty()) {
        std::vector<Space> f;
        for (auto& s : spaces) if (s.name.find(only) != std::string::npos) f.push_back(s);
        spaces.swap(f);
    }
    std::vector<uint64_t> start;
    uint64_t total = 0;
    for (const auto& s : spaces) { start.push_back(total); total += s.size; }
    if (list) {
        for (size_t i = 0; i < spaces.size(); ++i) std::cout << i << " " << spaces[i].name << " " << spaces[i].size << "\n";
        return 0;
    }
    if (replaySpace >= 0) {
        if (config.workerInit) config.workerInit();
        Run run;
        run.verbose = true;
        const Space& sp = spaces.at(static_cast<size_t>(replaySpace));
        std::cout << "replaying " << sp.name << " case " << replayIdx << ": " << (sp.describe ? sp.describe(replayIdx) : "") << std::endl;
        runCase(sp, static_cast<unsigned>(replaySpace), replayIdx, run);
        if (g->nViol > 0) { std::cout << "FAILED: " << g->viol[0].msg << std::endl; return 1; }
        std::cout << "no violation" << std::endl;
        return 0;
    }

    unsigned nw = config.workers != 0 ? config.workers : std::max(1u, std::thread::hardware_concurrency());
    if (nw > MAX_WORKERS) nw = MAX_WORKERS;
    uint64_t chunk = std::max<uint64_t>(1, std::min<uint64_t>(64, total / (nw * 64ULL)));
    std::string tmpl = "/tmp/mc_" + config.property + "_XXXXXX";
    std::vector<char> tmpd(tmpl.begin(), tmpl.end());
    tmpd.push_back(0);
    if (mkdtemp(tmpd.data()) == nullptr) { perror("mkdtemp"); return 2; }
    std::string dir = tmpd.data();

    auto locate = [&](uint64_t i, unsigned& si) {
        si = 0;
        while (si + 1 < start.size() && i >= start[si + 1]) ++si;
        return i - start[si];
    };

    auto workerMain = [&](unsigned w, uint64_t first, uint64_t last) {
        std::string err = dir + "/err" + str(w);
        int fd = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
        dup2(fd, 2);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        setpriority(PRIO_PROCESS, 0, 0);
        struct rlimit nocore = {0, 0};
        setrlimit(RLIMIT_CORE, &nocore);
        if (config.memoryLimitMB != 0) {
            struct rlimit rl = {config.memoryLimitMB << 20, config.memoryLimitMB << 20};
            setrlimit(RLIMIT_AS, &rl);
        }
        if (config.workerInit) config.workerInit();
        auto doRange = [&](uint64_t a, uint64_t b) {
            for (uint64_t i = a; i < b; ++i) {
                if (g->stop) return;
                g->slots[w].cur = i;
                g->slots[w].end = b;
                unsigned si;
                uint64_t idx = locate(i, si);
                alarm(config.caseTimeout);
                Run run;
                runCase(spaces[si], si, idx, run);
                alarm(0);
                g->executed.fetch_add(1, std::memory_order_relaxed);
                if (lseek(2, 0, SEEK_CUR) > (1 << 20)) { int rc = ftruncate(2, 0); (void)rc; }
            }
        };
        doRange(first, last);
        for (;;) {
            if (g->stop) break;
            uint64_t a = g->next.fetch_add(chunk);
            if (a >= total) break;
            doRange(a, std::min(total, a + chunk));
        }
        _exit(0);
    };

    std::map<pid_t, unsigned> pids;
    auto spawn = [&](unsigned w, uint64_t a, uint64_t b) {
        fflush(stdout);
        std::cout.flush();
        pid_t p = fork();
        if (p == 0) { workerMain(w, a, b); }
        if (p < 0) { perror("fork"); exit(2); }
        pids[p] = w;
    };
    for (unsigned w = 0; w < nw; ++w) { g->slots[w].cur = ~0ULL; spawn(w, 0, 0); }
    unsigned crashes = 0;
    bool capped = false;
    while (!pids.empty()) {
        int st = 0;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p == 0) {
            usleep(10000);
            if (cap > 0 && time(nullptr) - t0 > cap && !g->stop) { g->stop = 1; capped = true; }
            if (unknownViolations() >= 8 && !g->stop) g->stop = 1;
            continue;
        }
        if (p < 0) break;
        unsigned w = pids[p];
        pids.erase(p);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        uint64_t cur = g->slots[w].cur;
        if (cur == ~0ULL) { std::cerr << "worker died at start, status " << st << "\n"; return 2; }
        unsigned si;
        uint64_t idx = locate(cur, si);
        std::string how;
        if (WIFSIGNALED(st)) {
            int sg = WTERMSIG(st);
            if (sg == SIGKILL) { std::cerr << "worker was killed (memory?) at " << spaces[si].name << " " << idx << "\n"; }
            how = sg == SIGALRM ? "hang (no answer within the time limit)" : std::string("killed by signal ") + strsignal(sg);
        } else {
            how = "exited with status " + str(WEXITSTATUS(st));
        }
        std::ifstream in(dir + "/err" + str(w));
        std::string txt((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        size_t e = txt.find("ERROR: AddressSanitizer");
        if (e != std::string::npos) txt = txt.substr(e, 2500);
        else if (txt.size() > 1500) txt = txt.substr(txt.size() - 1500);
        addViolation(si, idx, spaces[si].name + ": " + (spaces[si].describe ? spaces[si].describe(idx) : str(idx)), "process " + how + "\n" + txt, {});
        ++crashes;
        if (crashes > 40 || unknownViolations() >= 8) g->stop = 1;
        if (!g->stop) spawn(w, cur + 1, g->slots[w].end);
    }
    std::string cmd = "rm -rf " + dir;
    int rc = system(cmd.c_str());
    (void)rc;

    // report
    struct timeval tv1;
    gettimeofday(&tv1, nullptr);
    double wall = (tv1.tv_sec - tv0.tv_sec) + (tv1.tv_usec - tv0.tv_usec) / 1e6;
    std::map<std::string, const Violation*> byKey;
    unsigned nv = std::min<unsigned>(g->nViol, MAX_VIOL);
    for (unsigned i = 0; i < nv; ++i) {
        const Violation& v = g->viol[i];
        if (!v.ready) continue;
        auto it = byKey.find(v.key);
        if (it == byKey.end() || v.idx < it->second->idx) byKey[v.key] = &v;
    }
    unsigned unknown = 0, known = 0;
    if (!replayDir.empty()) { mkdir(replayDir.c_str(), 0755); }
    for (const auto& kv : byKey) {
        if (g_known.count(kv.first) != 0) {
            ++known;
            std::cout << "KNOWN-FINDING: property=" << config.property << " " << oneLine(kv.first) << "\n";
            continue;
        }
        ++unknown;
        if (unknown > 8) continue;
        std::string path = replayDir + "/" + config.property + "-" + tier + "-" + str(unknown) + ".txt";
        std::ofstream o(path);
        o << "property: " << config.property << "\ntier: " << tier << "\nspace: " << kv.second->space << " (" << spaces[kv.second->space].name << ")\ncase: " << kv.second->idx
          << "\nkey: " << kv.first << "\nhow to run: python3 /verif/check.py " << config.property << " --tier " << tier << " --replay " << path
          << "\n\nmessage:\n" << kv.second->msg << "\n\nsteps:\n" << kv.second->steps << "\n";
        std::cout << "VIOLATION property=" << config.property << " replay=" << path << "\n";
        std::cout << "  " << oneLine(kv.first).substr(0, 600) << "\n  " << std::string(kv.second->msg).substr(0, 1200) << "\n";
    }
    bool exhaustive = !capped && !g->stop && only.empty();
    if (!evidence.empty()) {
        std::ofstream o(evidence);
        o << "{\n \"property\": \"" << config.property << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"" << config.level << "\",\n \"coverage\": {\n";
        if (config.level == "model_checking") {
            o << "  \"states\": " << g->states << ",\n  \"transitions\": " << g->transitions << ",\n  \"traces_validated_against_impl\": " << g->traces << ",\n";
        } else {
            o << "  \"evaluations\": " << g->evaluations << ",\n  \"distinct_nontrivial\": " << g->distinct << ",\n";
        }
        o << "  \"rule\": \"" << jsonEscape(config.rule) << "\",\n";
        o << "  \"cases_executed\": " << g->executed << ",\n  \"cases_in_bounds\": " << total << ",\n";
        o << "  \"spaces\": {";
        for (size_t i = 0; i < spaces.size(); ++i) o << (i ? ", " : "") << "\"" << jsonEscape(spaces[i].name) << "\": " << spaces[i].size;
        o << "},\n  \"exhaustive\": " << (exhaustive ? "true" : "false") << ",\n  \"known_findings\": " << known << ",\n  \"samples\": [";
        unsigned ns = std::min<unsigned>(g->nSamples, MAX_SAMPLES);
        for (unsigned i = 0; i < ns; ++i) o << (i ? ", " : "") << "\"" << jsonEscape(g->samples[i]) << "\"";
        if (ns == 0 && !spaces.empty()) {
            for (size_t i = 0; i < spaces.size() && i < 8; ++i)
                if (spaces[i].size > 0) o << (i ? ", " : "") << "\"" << jsonEscape(spaces[i].name + ": " + (spaces[i].describe ? spaces[i].describe(spaces[i].size / 2) : str(spaces[i].size / 2))) << "\"";
        }
        o << "]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < config.assumptions.size(); ++i) o << (i ? ", " : "") << "\"" << jsonEscape(config.assumptions[i]) << "\"";
        o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << unknown << "\n}\n";
    }
    std::cout << config.property << " " << tier << ": " << g->executed << " of " << total << " cases, states=" << g->states << " transitions=" << g->transitions
              << " traces=" << g->traces << " evaluations=" << g->evaluations << " distinct=" << g->distinct << " violations=" << unknown << " known=" << known
              << (exhaustive ? "" : " (not exhaustive)") << " in " << wall << " s" << (g->tableFull ? " [state table full]" : "") << std::endl;
    return unknown > 0 ? 1 : 0;
}

}  // namespace mc
