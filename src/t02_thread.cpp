// T02: a Thread runs its target once, and start, join, isAlive, getId and currentThread tell the truth about it.
#include "mcsched.hpp"
#include "jn.hpp"
#include "library/Java/Lang/Thread/Thread.hpp"
#include "library/Java/Lang/IllegalArgumentException/IllegalArgumentException.hpp"
using namespace jav;
using Java::Lang::Thread; using Java::Lang::Runnable;
static void nap(long ms) { struct timespec t = {ms / 1000, ms % 1000 * 1000000L}; nanosleep(&t, nullptr); }
// What the body of a thread sees and does.
struct Body {
    Thread *self = nullptr; int runs = 0, work = 0, slow = 0; bool ask = true; unsigned long id = 0, told = 0; Thread *current = nullptr; bool alive = false;
    std::atomic<bool> done{false}; mc::Ctx *c = nullptr;
    void go() {
        runs++; id = (unsigned long)pthread_self(); current = Thread::currentThread();
        if (ask) { alive = self->isAlive(); told = self->getId(); }
        if (slow == 1) sched::point(); else if (slow == 2) Thread::sleep(20); else if (slow == 3) Thread::sleep(80);
        work += 7; done.store(true);
    }
    void verify(bool started) {
        c->eq(runs, started ? 1 : 0, "times the target has run"); c->eq(work, started ? 7 : 0, "work of the target that is seen");
        if (started && self) { c->check(current == self, "currentThread() in the thread is another one"); if (ask) { c->check(alive, "isAlive() is false in the running thread"); c->check(told == id, "getId() in the thread itself is not its id"); } }
    }
};
struct Target : public virtual Runnable { Body *b; explicit Target(Body *b) : b(b) {} void run() override { b->go(); } };
struct Derived : public Thread { Body *b; explicit Derived(Body *b) : b(b) {} void run() override { b->go(); } };
static const char *const KINDS[] = {"function", "Runnable", "class derived from Thread"};
struct Rig {
    Body b; Target target{&b}; Thread *t = nullptr;
    Rig(mc::Ctx &c, int kind, int slow) { b.c = &c; b.slow = slow; t = kind == 0 ? new Thread([this] { b.go(); }) : kind == 1 ? new Thread(&target) : new Derived(&b); b.self = t; }
};

SCENARIO(histories, "one thread uses a Thread: every sequence of calls", 0, 2, 3) {
    int kind = c.choose(3), slow = c.choose(4), len = c.range(1, (depth < 2 ? 3 : 2) + c.thorough); std::vector<int> ops; bool hasStart = false;
    for (int i = 0; i < len; i++) { ops.push_back(c.choose(7)); hasStart = hasStart || ops.back() == 0; }
    if (slow && !hasStart) throw mc::Skip();
    static const char *const NAMES[] = {"start", "join", "join(50)", "isAlive", "getId", "detach", "pause"};
    c.note([&] { std::string s = std::string(KINDS[kind]) + ", body " + (slow == 0 ? "quick" : slow == 1 ? "with a pause" : slow == 2 ? "of 20 ms" : "of 80 ms") + ":"; for (int o : ops) s += std::string(" ") + NAMES[o]; return s; });
    sched::run(c, depth, [&] {
        Rig *r = new Rig(c, kind, slow); Thread &t = *r->t; bool started = false, joined = false, detached = false;
        for (int o : ops) {
            sched::point();
            if (o == 0) { t.start(); started = true; }
            else if (o == 1) { t.join(); if (started) { joined = true; r->b.verify(true); } }
            else if (o == 2) { long t0 = sched::now(); t.join(50); if (started && sched::now() - t0 < 50000000) { joined = true; r->b.verify(true); } else if (started) c.check(r->b.slow != 9, ""); }
            else if (o == 3) { bool was = r->b.done.load(), a = t.isAlive(); if (!started || joined) c.check(!a, started ? "isAlive() is true after join" : "isAlive() is true before start"); else if (!a) c.check(r->b.done.load(), "isAlive() is false after start and before the end"); (void)was; }
            else if (o == 4) { unsigned long id = t.getId(); if (joined) c.check(id == r->b.id, "getId() after join"); else if (started) c.check(id != 0, "getId() after start is 0"); }
            else if (o == 5) { if (!started) continue; bool threw = false; std::string m; try { t.detach(); } catch (Java::Lang::IllegalArgumentException &e) { threw = true; } c.eq(threw, detached, "detach throws IllegalArgumentException"); detached = true; }
            else nap(10);
        }
        if (kind == 2 && started && !joined) { t.join(); joined = true; }
        delete r->t; r->b.self = nullptr; r->b.verify(started); c.outcome(started + 2 * joined); delete r;
    });
}
SCENARIO(joiners, "several threads wait for the same Thread", 0, 1, 2) {
    int slow = c.pick({0, 2, 3}), n = c.range(2, depth < 2 && c.thorough ? 3 : 2), how[3]; bool late = c.flip(); for (int i = 0; i < n; i++) { how[i] = c.choose(3); if (i && how[i] < how[i - 1]) throw mc::Skip(); }
    c.note([&] { std::string s = slow == 0 ? "quick body" : slow == 2 ? "body of 20 ms" : "body of 80 ms"; for (int i = 0; i < n; i++) s += std::string("; thread: ") + (how[i] == 0 ? "join()" : how[i] == 1 ? "join(50)" : "join() twice"); return s + (late ? "; started last" : ""); });
    sched::run(c, depth, [&] {
        Rig *r = new Rig(c, 0, slow);
        if (!late) r->t->start();
        auto *started = new std::atomic<bool>(!late);
        for (int i = 0; i < n; i++) { int h = how[i]; sched::spawn([=, &c] {
            bool s = started->load(); long t0 = sched::now(); if (h == 1) r->t->join(50); else r->t->join(); if (h == 2) r->t->join();
            if (s && (h != 1 || sched::now() - t0 < 50000000)) { c.check(!r->t->isAlive(), "isAlive() is true after join"); r->b.verify(true); }
        }); }
        if (late) { r->t->start(); started->store(true); }
        sched::joinAll(); delete r->t; r->b.self = nullptr; r->b.verify(true); delete r; delete started;
    });
}
SCENARIO(starters, "several threads start the same Thread", 0, 2, 3) {
    int kind = c.choose(3), n = c.range(2, depth < 2 ? 3 : 2), then = c.choose(3);
    c.note([&] { return std::to_string(n) + " threads start a " + KINDS[kind] + (then == 1 ? " and join it" : then == 2 ? " and ask isAlive" : ""); });
    sched::run(c, depth, [&] {
        Rig *r = new Rig(c, kind, 0);
        for (int i = 0; i < n; i++) sched::spawn([=, &c] { r->t->start(); if (then == 1) { r->t->join(); r->b.verify(true); } if (then == 2 && !r->t->isAlive()) c.check(r->b.done.load(), "isAlive() is false after start and before the end"); });
        sched::joinAll(); r->t->join(); delete r->t; r->b.self = nullptr; r->b.verify(true); delete r;
    });
}
SCENARIO(observers, "threads ask about a Thread while it is started and runs", 0, 2, 4) {
    int slow = c.choose(3), q = c.choose(4);
    static const char *const Q[] = {"isAlive", "getId", "getName while another sets it", "isAlive twice"};
    c.note([&] { return Q[q]; });
    sched::run(c, depth, [&] {
        Rig *r = new Rig(c, 0, slow); r->t->setName("first"); auto *begun = new std::atomic<int>(0);
        sched::spawn([=, &c] {
            int b0 = begun->load();
            if (q == 0) { bool a = r->t->isAlive(); if (a) c.check(begun->load() >= 1, "isAlive() is true before start"); else if (b0 == 2) c.check(r->b.done.load(), "isAlive() is false after start and before the end"); }
            else if (q == 1) { unsigned long id = r->t->getId(); if (b0 == 2) { r->t->join(); c.check(id == r->b.id, "getId()"); } }
            else if (q == 2) { std::string n = S(r->t->getName()); c.check(n == "first" || n == "a second name", "getName() gives what was never set"); }
            else { bool a = r->t->isAlive(); sched::point(); bool b = r->t->isAlive(); c.check(!(a && !b) || r->b.done.load(), "isAlive() became false before the end"); c.check(!(b0 == 2 && !a && b), "isAlive() became true again"); }
        });
        begun->store(1); r->t->start(); begun->store(2); if (q == 2) r->t->setName("a second name");
        sched::joinAll(); r->t->join(); delete r->t; r->b.self = nullptr; r->b.verify(true); delete r; delete begun;
    });
}
SCENARIO(lifetimes, "the object of a Thread goes away", 0, 3, 5) {
    int how = c.choose(5), slow = c.choose(4), kind = c.choose(2);
    static const char *const HOW[] = {"start, destroy", "start, join, destroy", "start, detach, join, destroy", "destroy without start", "start, join(1), join(1), destroy"};
    c.note([&] { return std::string(KINDS[kind]) + ": " + HOW[how]; });
    sched::run(c, depth, [&] {
        Rig *r = new Rig(c, kind, slow);
        if (how != 3) r->t->start();
        if (how == 1) r->t->join();
        if (how == 2) { r->t->detach(); r->t->join(); }
        if (how == 4) { r->t->join(1); r->t->join(1); }
        delete r->t; r->b.self = nullptr; r->b.verify(how != 3); delete r;
    });
}
SCENARIO(several, "two Threads, one of which starts and joins the other", 0, 2, 3) {
    int shape = c.choose(3);
    c.note([&] { return shape == 0 ? "the first runs the second inside" : shape == 1 ? "both add under a semaphore" : "the second waits for the first"; });
    sched::run(c, depth, [&] {
        int *sum = new int(0); Thread *seen1 = nullptr, *seen2 = nullptr;
        if (shape == 0) {
            Thread *outer = new Thread([&] { seen1 = Thread::currentThread(); Thread inner([&] { seen2 = Thread::currentThread(); ++*sum; }); Thread *in = &inner; inner.start(); inner.join(); c.check(seen2 == in, "currentThread() of the inner thread"); c.check(Thread::currentThread() == seen1, "currentThread() changed"); ++*sum; });
            outer->start(); outer->join(); c.check(seen1 == outer, "currentThread() of the outer thread"); delete outer;
        } else if (shape == 1) {
            Java::Util::Concurrent::Semaphore *s = new Java::Util::Concurrent::Semaphore(1);
            Thread *a = new Thread([&] { seen1 = Thread::currentThread(); s->acquire(); ++*sum; s->release(); }), *b = new Thread([&] { seen2 = Thread::currentThread(); s->acquire(); ++*sum; s->release(); });
            a->start(); b->start(); a->join(); b->join(); c.check(seen1 == a && seen2 == b, "currentThread()"); c.check(a->getId() != 0 && b->getId() != 0, "getId()"); delete a; delete b; delete s;
        } else {
            Thread *a = new Thread([&] { seen1 = Thread::currentThread(); ++*sum; }); Thread *b = new Thread([&] { a->join(); seen2 = Thread::currentThread(); ++*sum; });
            a->start(); b->start(); b->join(); c.check(seen1 == a && seen2 == b, "currentThread()"); c.check(!a->isAlive() && !b->isAlive(), "isAlive()"); delete b; delete a;
        }
        c.eq(*sum, 2, "work done"); delete sum;
    });
}
SCENARIO(nothing, "a Thread without a target", 0, 2, 3) {
    int how = c.choose(3), ops = c.choose(4);
    c.note([&] { return std::string(how == 0 ? "Thread()" : how == 1 ? "Thread((Runnable *)nullptr)" : "Thread(std::function<void()>())") + (ops & 1 ? " start" : "") + (ops & 2 ? " join" : ""); });
    sched::run(c, depth, [&] {
        Thread *t = how == 0 ? new Thread() : how == 1 ? new Thread((Runnable *)nullptr) : new Thread(std::function<void()>());
        if (ops & 1) t->start();
        if (ops & 2) { t->join(); c.check(!t->isAlive(), "isAlive() is true after join"); }
        delete t;
    });
}
SCENARIO(sleeping, "Thread::sleep takes at least its time", 0, 2, 3) {
    long ms = c.pick({0, 1, 20, 1000, 100000});
    sched::run(c, depth, [&] {
        sched::spawn([&] { long t0 = sched::now(); Thread::sleep(ms); c.check(sched::now() - t0 >= ms * 1000000, "sleep ended early"); });
        sched::spawn([&] { Thread::sleep(5); }); sched::joinAll();
    });
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
