// Controlled scheduler for real threads: exactly one thread runs at a time; it can be preempted at every memory access
// of the instrumented code that may be shared, at every lock operation, atomic operation and system call.  All
// schedules with at most `budget` preemptions are enumerated by mc::Run (switches away from a blocked or finished thread
// are free and enumerated as well).
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "explore.hpp"

namespace sched
{
struct Thr
{
    int id = 0;
    int turn = 0;                       // futex: 1 when this thread holds the baton
    enum class St { idle, ready, blocked, done } st = St::idle;
    std::function<bool()> wake;         // blocked: can continue
    std::function<void()> body;
    bool atEpoll = false;
    int quiet = 0;                      // > 0: in harness or kernel code
    unsigned long steps = 0, alone = 0;
    std::uintptr_t stackLo = 0, stackHi = 0;
    unsigned long handle = 0;
    bool quit = false;
    std::string name;
};

class Sched
{
public:
    explicit Sched(mc::Run& r);
    ~Sched();
    // adds a thread; it starts when run() is called (or at once when already running)
    int spawn(std::string const& name, std::function<void()> body);
    // runs until no thread can continue; false on a deadlock (a thread that is neither done nor waiting for events)
    bool run();
    bool allDone() const;
    void finish();                      // lets everything end
    void point(char const* what);
    void block(std::function<bool()> wake, bool epoll = false);
    static Sched* cur;
    static Thr* me();
    mc::Run& r;
    int budget = 2;                     // remaining preemptions
    bool accesses = true;               // plain memory accesses are scheduling points
    bool free = false;                  // end phase: locks and waits do not block any more
    std::uint64_t points = 0, switches = 0;
    std::vector<Thr*> threads;
    void main_(Thr*);
private:
    void pass(Thr* to);
    void wait(Thr* self);
    Thr* pick(bool forced);
    void next(Thr* self);
    int mainTurn = 0;
};

// marks harness code inside of a thread
struct Quiet { Quiet(); ~Quiet(); };

} // namespace sched
