// See sched.hpp. This file is not instrumented, allocates nothing and uses no template of the standard library: nothing here
// may be shared with the instrumented code.
#include "sched.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace {

typedef uint32_t Clock;
const int N = sched::MAX_THREADS;

struct Vc { Clock c[N]; };
void join(Vc& a, const Vc& b) { for (int i = 0; i < N; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

enum State { IDLE, RUNNABLE, BLOCKED, DONE };
struct Thread {
    State state;
    sem_t go;
    Vc vc;
    const void* waits;                       // what it is blocked on
    const void* stack[256];
    int depth;
    uintptr_t low, high;                     // its stack
    uint64_t steps;                          // points passed since it was chosen
    bool fence;
};
Thread threads[N];
int nThreads = 0;
int running = -1;
sem_t finished;
__thread int me = -1;
__thread bool inside = false;                // in this runtime

unsigned preemptionBound = 0, preemptions = 0;
sched::Decision* decisions = nullptr;
int nDecisions = 0, nReplayed = 0, maxDecisions = 0;
bool tooMany = false;
uint64_t time_ = 0, nPoints = 0;
sched::Race found;
uint32_t generation = 0;
bool shadowFull = false;

// ---- synchronisation objects

struct Sync {
    const void* key;
    uint32_t generation;
    int owner, count, readers;
    bool done;
    Vc vc, vcReaders;
};
const unsigned SYNCS = 1 << 14;
Sync* syncs = nullptr;

Sync& sync(const void* key) {
    uint64_t h = (reinterpret_cast<uintptr_t>(key) >> 2) * 0x9E3779B97F4A7C15ULL >> 40;
    for (unsigned i = 0; i < SYNCS; ++i) {
        Sync& s = syncs[(h + i) % SYNCS];
        if (s.generation == generation && s.key == key) return s;
        if (s.generation != generation) {
            memset(&s, 0, sizeof(s));
            s.key = key;
            s.generation = generation;
            s.owner = -1;
            return s;
        }
    }
    static const char m[] = "sched: too many synchronisation objects\n";
    if (write(2, m, sizeof(m) - 1)) {}
    _exit(4);
}

// ---- scheduling

bool enabled(int t) { return threads[t].state == RUNNABLE; }

void give(int t) {
    running = t;
    threads[t].steps = 0;
    sem_post(&threads[t].go);
}
void await(int t) { while (sem_wait(&threads[t].go) != 0) {} }

// choose the next thread; the current one runs (can continue) or not
int choose(bool canContinue) {
    int alternatives[N];
    int count = 0;
    const bool tired = canContinue && threads[me].steps > 5000;   // waits for something that only another thread can do
    if (canContinue && !tired) alternatives[count++] = me;
    if (!canContinue || tired || preemptions < preemptionBound)
        for (int i = 1; i <= nThreads; ++i) {
            const int t = (me + i) % nThreads;
            if (t != me && enabled(t)) alternatives[count++] = t;
        }
    if (count == 0) return tired ? me : -1;
    if (count == 1) return alternatives[0];
    int pick = 0;
    if (nDecisions < maxDecisions) {
        if (nDecisions < nReplayed) pick = decisions[nDecisions].chosen;
        else decisions[nDecisions].chosen = 0;
        decisions[nDecisions].count = static_cast<uint8_t>(count);
        ++nDecisions;
        if (pick >= count) pick = 0;
    } else {
        tooMany = true;
    }
    const int t = alternatives[pick];
    if (canContinue && !tired && t != me) ++preemptions;
    return t;
}

void schedule() {
    ++time_;
    ++nPoints;
    ++threads[me].steps;
    const int t = choose(true);
    if (t != me) {
        give(t);
        await(me);
    }
}
void block(const void* on) {
    threads[me].state = BLOCKED;
    threads[me].waits = on;
    const int t = choose(false);
    if (t < 0) {
        sched::deadlock();
        _exit(4);
    }
    give(t);
    await(me);
}
void wake(const void* on) {
    for (int i = 0; i < nThreads; ++i)
        if (threads[i].state == BLOCKED && threads[i].waits == on) {
            threads[i].state = RUNNABLE;
            threads[i].waits = nullptr;
        }
}
void release(Vc& vc) {
    join(vc, threads[me].vc);
    ++threads[me].vc.c[me];
}

// ---- accesses

struct Slot {
    uintptr_t pc;
    Clock clock;
    uint8_t thread, offset, size, flags;     // flags: 1 write, 2 atomic
};
const int SLOTS = 7;
struct Cell {
    uintptr_t key;
    uint32_t generation;
    uint8_t count, next;
    Slot slots[SLOTS];
};
const unsigned CELLS = 1 << 18;
Cell* cells = nullptr;
unsigned used = 0;

Cell* cell(uintptr_t key, bool create) {
    const uint64_t h = ((key >> 5) * 0x9E3779B97F4A7C15ULL >> 40) * 32 + (key & 31);
    for (unsigned i = 0; i < 4096; ++i) {
        Cell& c = cells[(h + i) % CELLS];
        if (c.generation == generation && c.key == key) return &c;
        if (c.generation != generation) {
            if (!create) return nullptr;
            if (used > CELLS / 4 * 3) { shadowFull = true; return nullptr; }
            ++used;
            c.key = key;
            c.generation = generation;
            c.count = c.next = 0;
            return &c;
        }
    }
    shadowFull = true;
    return nullptr;
}

void report(const Slot& s, uintptr_t address, bool write, bool freed, uintptr_t pc) {
    if (found.found) return;
    found.found = true;
    found.address = reinterpret_cast<const void*>(address);
    found.thread1 = s.thread;
    found.write1 = (s.flags & 1) != 0;
    found.pc1 = reinterpret_cast<const void*>(s.pc);
    found.thread2 = me;
    found.write2 = write;
    found.freed = freed;
    found.depth2 = 0;
    found.stack2[found.depth2++] = reinterpret_cast<const void*>(pc);
    const Thread& t = threads[me];
    for (int i = t.depth - 1; i >= 0 && found.depth2 < 8; --i)
        if (i < 256) found.stack2[found.depth2++] = t.stack[i];
}

void access(uintptr_t a, size_t size, unsigned flags, uintptr_t pc, bool freed = false) {
    const Thread& t = threads[me];
    if (a >= t.low && a < t.high) return;
    while (size > 0) {
        const uintptr_t key = a >> 3;
        const uint8_t offset = a & 7;
        const uint8_t n = static_cast<uint8_t>(size < 8U - offset ? size : 8U - offset);
        Cell* c = cell(key, !freed);
        if (c) {
            int reuse = -1;
            for (int i = 0; i < c->count; ++i) {
                Slot& s = c->slots[i];
                if (s.thread == me) {
                    if (s.offset == offset && s.size == n && ((s.flags & 1) <= (flags & 1)) && (s.flags & 2) == (flags & 2)) reuse = i;
                    continue;
                }
                if (s.offset < offset + n && offset < s.offset + s.size && ((s.flags | flags) & 1) != 0 && (s.flags & flags & 2) == 0 && s.clock > t.vc.c[s.thread]) {
                    report(s, a, (flags & 1) != 0, freed, pc);
                }
            }
            if (freed) {
                c->count = 0;
            } else {
                if (reuse < 0) {
                    if (c->count < SLOTS) reuse = c->count++;
                    else { reuse = c->next; c->next = static_cast<uint8_t>((c->next + 1) % SLOTS); }
                }
                Slot& s = c->slots[reuse];
                s.pc = pc;
                s.clock = t.vc.c[me];
                s.thread = static_cast<uint8_t>(me);
                s.offset = offset;
                s.size = n;
                s.flags = static_cast<uint8_t>(flags);
            }
        }
        a += n;
        size -= n;
    }
}

// memory that appears: nothing is known of it
void appears(uintptr_t a, size_t size) {
    if (size > (1U << 20)) return;
    for (uintptr_t k = a >> 3; k <= (a + size - 1) >> 3; ++k) {
        Cell* c = cell(k, false);
        if (c) c->count = 0;
    }
}

struct In {
    bool active;
    In() : active(me >= 0 && !inside) { if (active) inside = true; }
    ~In() { if (active) inside = false; }
};

struct Start { void (*body)(void*); void* arg; int id; };
Start starts[N];

void* entry(void* p) {
    Start& s = *static_cast<Start*>(p);
    Thread& t = threads[s.id];
    pthread_attr_t attr;
    if (pthread_getattr_np(pthread_self(), &attr) == 0) {
        void* low = nullptr;
        size_t size = 0;
        pthread_attr_getstack(&attr, &low, &size);
        t.low = reinterpret_cast<uintptr_t>(low);
        t.high = t.low + size;
        pthread_attr_destroy(&attr);
    }
    await(s.id);
    me = s.id;
    s.body(s.arg);
    inside = true;
    t.state = DONE;
    ++time_;
    wake(&t);
    const int next = choose(false);
    me = -1;
    if (next >= 0) {
        give(next);
    } else {
        bool blocked = false;
        for (int i = 0; i < nThreads; ++i) blocked = blocked || threads[i].state == BLOCKED;
        if (blocked) { sched::deadlock(); _exit(4); }
        running = -1;
        sem_post(&finished);
    }
    return nullptr;
}

template <typename F>
F next(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

}  // namespace

namespace sched {

__attribute__((visibility("default"))) void (*deadlock)() = nullptr;

__attribute__((visibility("default"))) int run(int n, void (*const* bodies)(void*), void* const* args, unsigned bound, Decision* d, int replayed, int capacity) {
    if (!cells) {
        cells = static_cast<Cell*>(mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        syncs = static_cast<Sync*>(mmap(nullptr, SYNCS * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    }
    ++generation;
    used = 0;
    shadowFull = tooMany = false;
    time_ = nPoints = 0;
    memset(&found, 0, sizeof(found));
    nThreads = n;
    preemptionBound = bound;
    preemptions = 0;
    decisions = d;
    nDecisions = 0;
    nReplayed = replayed;
    maxDecisions = capacity;
    sem_init(&finished, 0, 0);
    pthread_t ids[N];
    for (int i = 0; i < n; ++i) {
        Thread& t = threads[i];
        memset(&t, 0, sizeof(t));
        sem_init(&t.go, 0, 0);
        t.state = RUNNABLE;
        t.vc.c[i] = 1;
        starts[i].body = bodies[i];
        starts[i].arg = args[i];
        starts[i].id = i;
        pthread_attr_t attr;
        pthread_attr_init(&attr);
        pthread_attr_setstacksize(&attr, 1 << 20);
        if (pthread_create(&ids[i], &attr, entry, &starts[i]) != 0) _exit(5);
        pthread_attr_destroy(&attr);
    }
    // the first choice is free
    {
        int first = 0;
        if (n > 1) {
            if (nReplayed > 0) first = d[0].chosen;
            else d[0].chosen = 0;
            d[0].count = static_cast<uint8_t>(n);
            nDecisions = 1;
        }
        give(first);
    }
    while (sem_wait(&finished) != 0) {}
    for (int i = 0; i < n; ++i) pthread_join(ids[i], nullptr);
    nThreads = 0;
    return tooMany ? -1 : nDecisions;
}

__attribute__((visibility("default"))) void point() {
    In in;
    if (in.active) schedule();
}
__attribute__((visibility("default"))) int self() { return me; }
__attribute__((visibility("default"))) uint64_t now() { return ++time_; }
__attribute__((visibility("default"))) const Race& race() { return found; }
__attribute__((visibility("default"))) uint64_t points() { return nPoints; }
__attribute__((visibility("default"))) bool overflow() { return shadowFull || tooMany; }

}  // namespace sched

// ------------------------------------------------------------------------------------------------ instrumentation

#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
#define ACCESS(Name, Size, Flags) EXPORT void Name(void* a) { In in; if (in.active) access(reinterpret_cast<uintptr_t>(a), Size, Flags, PC); }
#define ACCESSES(Size) \
    ACCESS(__tsan_read##Size, Size, 0) \
    ACCESS(__tsan_write##Size, Size, 1) \
    ACCESS(__tsan_unaligned_read##Size, Size, 0) \
    ACCESS(__tsan_unaligned_write##Size, Size, 1) \
    ACCESS(__tsan_volatile_read##Size, Size, 0) \
    ACCESS(__tsan_volatile_write##Size, Size, 1)
ACCESSES(1) ACCESSES(2) ACCESSES(4) ACCESSES(8) ACCESSES(16)

EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void* pc) {
    if (me < 0 || inside) return;
    Thread& t = threads[me];
    if (t.depth < 256) t.stack[t.depth] = pc;
    ++t.depth;
}
EXPORT void __tsan_func_exit() {
    if (me < 0 || inside) return;
    if (threads[me].depth > 0) --threads[me].depth;
}
EXPORT void __tsan_vptr_update(void** p, void* v) { In in; if (in.active && *p != v) access(reinterpret_cast<uintptr_t>(p), 8, 1, PC); }
EXPORT void __tsan_vptr_read(void** p) { In in; if (in.active) access(reinterpret_cast<uintptr_t>(p), 8, 0, PC); }
EXPORT void __tsan_read_range(void* a, size_t n) { In in; if (in.active) access(reinterpret_cast<uintptr_t>(a), n, 0, PC); }
EXPORT void __tsan_write_range(void* a, size_t n) { In in; if (in.active) access(reinterpret_cast<uintptr_t>(a), n, 1, PC); }

namespace {
bool acquires(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool releases(int mo) { return mo == 3 || mo == 4 || mo == 5; }
void atomic(const volatile void* a, size_t size, bool write, int mo, uintptr_t pc) {
    schedule();
    access(reinterpret_cast<uintptr_t>(a), size, write ? 3 : 2, pc);
    mo &= 0xff;
    if (threads[me].fence) mo = 5;
    Sync& s = sync(const_cast<const void*>(a));
    if (acquires(mo)) join(threads[me].vc, s.vc);
    if (write && releases(mo)) release(s.vc);
}
}  // namespace

#define RMW(Bits, T, Name, Builtin) \
    EXPORT T __tsan_atomic##Bits##_##Name(volatile T* a, T v, int mo) { In in; if (in.active) atomic(a, sizeof(T), true, mo, PC); return Builtin(a, v, __ATOMIC_SEQ_CST); }
#define ATOMIC(Bits, T) \
    EXPORT T __tsan_atomic##Bits##_load(const volatile T* a, int mo) { In in; if (in.active) atomic(a, sizeof(T), false, mo, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    EXPORT void __tsan_atomic##Bits##_store(volatile T* a, T v, int mo) { In in; if (in.active) atomic(a, sizeof(T), true, mo, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    RMW(Bits, T, exchange, __atomic_exchange_n) RMW(Bits, T, fetch_add, __atomic_fetch_add) RMW(Bits, T, fetch_sub, __atomic_fetch_sub) RMW(Bits, T, fetch_and, __atomic_fetch_and) \
    RMW(Bits, T, fetch_or, __atomic_fetch_or) RMW(Bits, T, fetch_xor, __atomic_fetch_xor) RMW(Bits, T, fetch_nand, __atomic_fetch_nand) \
    EXPORT int __tsan_atomic##Bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) { In in; if (in.active) atomic(a, sizeof(T), true, mo, PC); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    EXPORT int __tsan_atomic##Bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int) { In in; if (in.active) atomic(a, sizeof(T), true, mo, PC); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##Bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int) { In in; if (in.active) atomic(a, sizeof(T), true, mo, PC); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) { In in; if (in.active) threads[me].fence = true; }
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------------------------------ locks

namespace {
bool recursive(const pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
bool lock(pthread_mutex_t* m, bool wait) {
    schedule();
    for (;;) {
        Sync& s = sync(m);
        if (s.owner < 0 || (s.owner == me && recursive(m))) {
            s.owner = me;
            ++s.count;
            join(threads[me].vc, s.vc);
            return true;
        }
        if (!wait) return false;
        block(m);
    }
}
void unlock(pthread_mutex_t* m) {
    Sync& s = sync(m);
    if (--s.count > 0) return;
    s.count = 0;
    s.owner = -1;
    release(s.vc);
    wake(m);
}
}  // namespace

#define REAL(Ret, Name, ...) static Ret (*real)(__VA_ARGS__) = nullptr; if (!real) real = next<Ret (*)(__VA_ARGS__)>(#Name)

EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
    In in;
    if (in.active) { lock(m, true); return 0; }
    REAL(int, pthread_mutex_lock, pthread_mutex_t*);
    return real(m);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
    In in;
    if (in.active) return lock(m, false) ? 0 : EBUSY;
    REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
    return real(m);
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
    In in;
    if (in.active) { lock(m, true); return 0; }
    REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const struct timespec*);
    return real(m, t);
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) {
    In in;
    if (in.active) { lock(m, true); return 0; }
    REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const struct timespec*);
    return real(m, c, t);
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
    In in;
    if (in.active) { unlock(m); return 0; }
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
    return real(m);
}

namespace {
bool rwlock(pthread_rwlock_t* m, bool write, bool wait) {
    schedule();
    for (;;) {
        Sync& s = sync(m);
        if (s.owner < 0 && (!write || s.readers == 0)) {
            join(threads[me].vc, s.vc);
            if (write) { join(threads[me].vc, s.vcReaders); s.owner = me; } else ++s.readers;
            return true;
        }
        if (!wait) return false;
        block(m);
    }
}
}  // namespace
#define RW(Name, Write, Wait) EXPORT int Name(pthread_rwlock_t* m) { In in; if (in.active) return rwlock(m, Write, Wait) ? 0 : EBUSY; REAL(int, Name, pthread_rwlock_t*); return real(m); }
RW(pthread_rwlock_rdlock, false, true)
RW(pthread_rwlock_wrlock, true, true)
RW(pthread_rwlock_tryrdlock, false, false)
RW(pthread_rwlock_trywrlock, true, false)
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    In in;
    if (in.active) {
        Sync& s = sync(m);
        if (s.owner == me) { s.owner = -1; release(s.vc); } else { --s.readers; release(s.vcReaders); }
        wake(m);
        return 0;
    }
    REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
    return real(m);
}

EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    In in;
    if (in.active) {
        unlock(m);
        block(c);
        lock(m, true);
        return 0;
    }
    REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
    return real(c, m);
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
    In in;
    if (in.active) { schedule(); wake(c); return 0; }      // a spurious wake up is allowed
    REAL(int, pthread_cond_signal, pthread_cond_t*);
    return real(c);
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
    In in;
    if (in.active) { schedule(); wake(c); return 0; }
    REAL(int, pthread_cond_broadcast, pthread_cond_t*);
    return real(c);
}

EXPORT int sched_yield() {
    In in;
    if (in.active) { schedule(); return 0; }
    REAL(int, sched_yield, );
    return real();
}

// static variables of functions: byte 0 of the guard tells that it is initialised
EXPORT int __cxa_guard_acquire(uint64_t* g) {
    volatile unsigned char* done = reinterpret_cast<volatile unsigned char*>(g);
    In in;
    if (!in.active) return *done == 0;
    for (;;) {
        Sync& s = sync(g);
        if (*done != 0) { join(threads[me].vc, s.vc); return 0; }
        if (s.owner < 0) { s.owner = me; return 1; }
        block(g);
    }
}
EXPORT void __cxa_guard_release(uint64_t* g) {
    *reinterpret_cast<volatile unsigned char*>(g) = 1;
    In in;
    if (!in.active) return;
    Sync& s = sync(g);
    s.owner = -1;
    release(s.vc);
    wake(g);
}
EXPORT void __cxa_guard_abort(uint64_t* g) {
    In in;
    if (!in.active) return;
    Sync& s = sync(g);
    s.owner = -1;
    release(s.vc);
    wake(g);
}
EXPORT int pthread_once(pthread_once_t* o, void (*f)()) {
    {
        In in;
        if (in.active) {
            for (;;) {
                schedule();
                Sync& s = sync(o);
                if (s.done || *o == 2) { join(threads[me].vc, s.vc); return 0; }
                if (s.owner < 0) { s.owner = me; break; }
                block(o);
            }
        } else {
            REAL(int, pthread_once, pthread_once_t*, void (*)());
            return real(o, f);
        }
    }
    f();
    In in;
    Sync& s = sync(o);
    s.done = true;
    s.owner = -1;
    *o = 2;
    release(s.vc);
    wake(o);
    return 0;
}

// ------------------------------------------------------------------------------------------------ memory

EXPORT void* malloc(size_t n) {
    void* p = __libc_malloc(n);
    In in;
    if (in.active && p) appears(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p));
    return p;
}
EXPORT void* calloc(size_t a, size_t b) {
    void* p = __libc_calloc(a, b);
    In in;
    if (in.active && p) appears(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p));
    return p;
}
EXPORT void free(void* p) {
    In in;
    if (in.active && p) {
        const size_t n = malloc_usable_size(p);
        if (n <= (1U << 20)) access(reinterpret_cast<uintptr_t>(p), n, 1, PC, true);
    }
    __libc_free(p);
}
EXPORT void* realloc(void* p, size_t n) {
    In in;
    if (in.active && p) {
        const size_t old = malloc_usable_size(p);
        if (old <= (1U << 20)) access(reinterpret_cast<uintptr_t>(p), old, 1, PC, true);
    }
    void* q = __libc_realloc(p, n);
    if (in.active && q) appears(reinterpret_cast<uintptr_t>(q), malloc_usable_size(q));
    return q;
}
EXPORT void* memalign(size_t a, size_t n) { return __libc_memalign(a, n); }
EXPORT void* aligned_alloc(size_t a, size_t n) { return __libc_memalign(a, n); }
EXPORT int posix_memalign(void** p, size_t a, size_t n) { *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }

// copies made by uninstrumented code (strings)
EXPORT void* memcpy(void* to, const void* from, size_t n) {
    In in;
    if (in.active && n > 0) {
        access(reinterpret_cast<uintptr_t>(from), n, 0, PC);
        access(reinterpret_cast<uintptr_t>(to), n, 1, PC);
    }
    void* r = to;
    __asm__ volatile("rep movsb" : "+D"(to), "+S"(from), "+c"(n) : : "memory");
    return r;
}

// the nodes of trees and lists, linked by code of the standard library that is not instrumented
EXPORT void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, void* x, void* p, void* header) {
    {
        In in;
        if (in.active) {
            access(reinterpret_cast<uintptr_t>(p), 32, 1, PC);
            access(reinterpret_cast<uintptr_t>(header), 32, 1, PC);
        }
    }
    REAL(void, _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_, bool, void*, void*, void*);
    real(left, x, p, header);
}
EXPORT void* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* z, void* header) {
    {
        In in;
        if (in.active) {
            access(reinterpret_cast<uintptr_t>(z), 32, 1, PC);
            access(reinterpret_cast<uintptr_t>(header), 32, 1, PC);
        }
    }
    REAL(void*, _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_, void*, void*);
    return real(z, header);
}
EXPORT void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(void* self, void* position) {
    {
        In in;
        if (in.active) {
            access(reinterpret_cast<uintptr_t>(self), 16, 1, PC);
            access(reinterpret_cast<uintptr_t>(position), 16, 1, PC);
        }
    }
    REAL(void, _ZNSt8__detail15_List_node_base7_M_hookEPS0_, void*, void*);
    real(self, position);
}
EXPORT void _ZNSt8__detail15_List_node_base9_M_unhookEv(void* self) {
    {
        In in;
        if (in.active) access(reinterpret_cast<uintptr_t>(self), 16, 1, PC);
    }
    REAL(void, _ZNSt8__detail15_List_node_base9_M_unhookEv, void*);
    real(self);
}
