#include <mutex>
#include <future>
#include <thread>
#include <condition_variable>
#include "mcsched.hpp"
SCENARIO(counter, "two threads add under a mutex", 0, 2, 3) {
    sched::run(c, depth, [&] { std::mutex m; int n = 0; for (int i = 0; i < 2; i++) sched::spawn([&] { for (int k = 0; k < 2; k++) { std::lock_guard<std::mutex> l(m); n++; } }); sched::joinAll(); c.eq(n, 4, "n"); c.outcome(n); });
}
SCENARIO(atomics, "two threads add to an atomic by load and store", 0, 2, 2) {
    sched::run(c, depth, [&] { std::atomic<int> n{0}; for (int i = 0; i < 2; i++) sched::spawn([&] { n.store(n.load() + 1); }); sched::joinAll(); c.outcome(n.load()); if (getenv("BUG1")) c.eq(n.load(), 2, "n"); });
}
SCENARIO(race, "race", 0, 2, 2) {
    sched::run(c, depth, [&] { int n = 0; std::atomic<int> a{0}; for (int i = 0; i < 2; i++) sched::spawn([&] { if (getenv("BUG2")) n++; else a++; }); sched::joinAll(); });
}
SCENARIO(cond, "handshake", 0, 2, 3) {
    sched::run(c, depth, [&] { std::mutex m; std::condition_variable v; bool r = false; std::thread t([&] { std::unique_lock<std::mutex> l(m); if (getenv("BUG3")) v.wait(l); else while (!r) v.wait(l); }); { std::unique_lock<std::mutex> l(m); r = true; } v.notify_one(); t.join(); });
}
SCENARIO(spin, "spin lock", 0, 2, 3) {
    sched::run(c, depth, [&] { std::atomic<bool> f{false}; int n = 0; for (int i = 0; i < 3; i++) sched::spawn([&] { while (f.exchange(true, std::memory_order_acquire)) {} n++; f.store(false, getenv("BUG4") ? std::memory_order_relaxed : std::memory_order_release); }); sched::joinAll(); c.eq(n, 3, "n"); });
}
SCENARIO(timed, "timed wait", 0, 2, 3) {
    sched::run(c, depth, [&] { std::mutex m; std::condition_variable v; bool r = false, t; long t0 = sched::now(); sched::spawn([&] { std::this_thread::sleep_for(std::chrono::milliseconds(50)); { std::lock_guard<std::mutex> l(m); r = true; } v.notify_all(); }); { std::unique_lock<std::mutex> l(m); t = v.wait_for(l, std::chrono::milliseconds(100), [&] { return r; }); } if (!t) c.check(sched::now() - t0 >= 100000000, "early"); c.outcome(t); sched::joinAll(); });
}
SCENARIO(future, "a future", 0, 2, 3) {
    sched::run(c, depth, [&] { std::promise<int> p; std::thread t([&] { p.set_value(7); }); c.eq(p.get_future().get(), 7, "value"); t.join(); });
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
