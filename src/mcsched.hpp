// A controlled scheduler for concurrent code: the interface for harnesses.  See mcsched.cpp.
#pragma once
#include <functional>
#include <set>
#include <vector>
#include "mc.hpp"
namespace sched {
// Explores one execution of body as thread 0.  Real threads are made and every one of their synchronising
// operations (mutexes, condition variables, atomics, thread creation and joining, sleeping, clocks) is a
// scheduling point, decided by c.choose: with at most `bound` switches away from a thread which could go on
// (a timeout or a spurious wakeup while another thread could go on counts as one).  A data race, a deadlock, a
// use of freed memory or a thread that never gets anywhere ends the execution as a violation.
void run(mc::Ctx &c, int bound, const std::function<void()> &body);
// A thread of the harness.  Its body must not throw.
void spawn(const std::function<void()> &f);
void joinAll();                                    // waits for all threads made by spawn
void point(const char *what = "next operation");   // a scheduling point of the harness
uint64_t tick();                                   // the place of the present moment in the order of events
long now();                                        // virtual time, ns
void clock(long ns);                               // what reading a clock adds to the time, in this execution (1000)
void readsMemory(const void *p, size_t n), writesMemory(void *p, size_t n);   // a C library function accesses memory
int self();                                        // number of the running thread
int finished();                                    // threads that have ended
void log(const std::string &s);                    // a line for the replay
void pause();                                      // the thread goes on when another one has done something
void calm(bool on);                                // while on, the running thread is not preempted (it can still block)
struct Quiet { Quiet(); ~Quiet(); };               // code of the harness which is not explored

// One call on a shared object: when it was made and when it returned.
struct Span { uint64_t inv = 0, res = 0; int thread = 0; };
// Is there an order of the calls, consistent with their times, in which each gives the result it gave?
// apply(state, i) performs call i on the model and tells whether its result is the one observed.
template<class M, class A> bool linearizable(const std::vector<Span> &op, const M &start, A apply) {
    int n = (int)op.size(); std::set<std::pair<unsigned, M>> seen;
    std::function<bool(unsigned, const M &)> go = [&](unsigned done, const M &m) {
        if (done == (1u << n) - 1) return true;
        if (!seen.insert({done, m}).second) return false;
        uint64_t first = ~0ull;
        for (int i = 0; i < n; i++) if (!(done >> i & 1) && op[i].res < first) first = op[i].res;
        for (int i = 0; i < n; i++) if (!(done >> i & 1) && op[i].inv < first) { M k = m; if (apply(k, i) && go(done | 1u << i, k)) return true; }
        return false;
    };
    return go(0, start);
}
}  // namespace sched
