// Controlled execution of threads on the real library, compiled with memory access instrumentation (-fsanitize=thread,
// without its runtime): one thread runs at a time, every synchronisation operation is a scheduling point, and a
// happens-before detector looks for unsynchronised conflicting accesses in every schedule.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP

#include <cstdint>

namespace sched {

const int MAX_THREADS = 4;

struct Decision {
    uint8_t chosen;                          // index in the alternatives
    uint8_t count;                           // number of alternatives
};

// one execution: bodies[i](args[i]) in a thread each; decisions[0..replayed) are followed, then the first alternatives.
// Returns the number of decisions (the array is completed), -1 if there are too many.
int run(int threads, void (*const* bodies)(void*), void* const* args, unsigned preemptions, Decision* decisions, int replayed, int capacity);

// a scheduling point between the operations of a thread
void point();
// number of the running thread, -1 outside of an execution
int self();
// global time: order of the points passed
uint64_t now();

// failure of the last execution: 0 when there is none
struct Race {
    bool found;
    const void* address;
    int thread1, thread2;
    bool write1, write2, freed;
    const void* pc1;
    const void* stack2[8];
    int depth2;
};
const Race& race();
uint64_t points();
bool overflow();

// called on a deadlock; must not return
extern void (*deadlock)();

}  // namespace sched

#endif
