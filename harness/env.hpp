// Common environment of the component-level harnesses: one real Reactor (run as a fiber on the simulated kernel), the
// components under test registered on it, and a recording sender that plays all other components.
#pragma once
#include <cstring>
#include <new>
#include "sim.hpp"
#include "explore.hpp"
#include "Reactor.hpp"
#include "SenderInterface.hpp"
#include "MsgInterface.hpp"
#include "MsgStore.hpp"
#include "Logger.hpp"

struct RawMsg
{
    app::reactor::MsgId id;
    app::reactor::ComponentId comp;
    std::shared_ptr<void> mem;
    std::size_t size;
    std::int64_t at;
    template <class T> T const& as() const { return *reinterpret_cast<T const*>(mem.get()); }
    app::reactor::MsgInterface const& msg() const { return *reinterpret_cast<app::reactor::MsgInterface const*>(mem.get()); }
};

inline void setLogs(bool on)
{
    sim::logs = on;
    if (!on) return;
    for (int i = 0; i < (int)app::LogTask::NUM; ++i) app::Logger::getInst().setTaskLogLevel((app::LogTask)i, app::LogLevel::LD);
}

class Env : public app::reactor::SenderInterface
{
public:
    mc::Run& run;
    sim::Kernel k;
    std::unique_ptr<app::reactor::Reactor> reactor;
    std::unique_ptr<sim::Fiber> loop;
    std::set<app::reactor::ComponentId> local;      // components hosted on the reactor: messages to them are delivered
    std::vector<RawMsg> sent;                       // messages to components played by the harness
    std::function<void(RawMsg const&)> onMsg;
    unsigned waits = 0;                             // epoll_wait calls since the last harness action
    unsigned maxWaits = 4000;
    bool spinOk = false;
    std::function<void()> beforeWait;               // time may pass while the implementation is at work

    explicit Env(mc::Run& r, bool logs = false) : run(r)
    {
        setLogs(logs);
        k.anomaly = [this](std::string const& s) { run.note("kernel: " + s); run.fail(s); };
        k.onCall = [this](char const* c, int) {
            if (beforeWait && !k.closing && c[0] == 'e' && !std::strcmp(c, "epoll_wait")) beforeWait();
            if (c[0] == 'e' && !std::strcmp(c, "epoll_wait") && ++waits > maxWaits)
            {
                // an unaccepted connection at full capacity keeps the (level triggered) listener ready
                if (spinOk && sim::Fiber::current() && !k.closing) { waits = 0; sim::Fiber::yield(); return; }
                run.fail("the event loop spins without making progress");
                stop();
            }
        };
        app::reactor::Reactor::Init init{0, 1, 0};
        reactor = std::make_unique<app::reactor::Reactor>(init);
    }
    ~Env() { shutdown(); }

    void send(app::reactor::MsgInterface const& m) override
    {
        std::size_t n = m.size();
        RawMsg r{m.getMsgId(), m.getCompId(), nullptr, n, k.now};
        if (local.count(r.comp)) { reactor->send(m); if (!onMsg) return; }
        void* p = ::operator new(n, std::align_val_t(64));
        std::memcpy(p, (void const*)&m, n);
        r.mem = std::shared_ptr<void>(p, [](void* q) { ::operator delete(q, std::align_val_t(64)); });
        if (onMsg) onMsg(r);
        if (!local.count(r.comp)) sent.push_back(r);
    }
    template <class M> void post(app::reactor::MsgStore<M> const& s) { reactor->send(s.getMsg()); }

    void start() { loop = std::make_unique<sim::Fiber>([this] { reactor->run(); }); settle(); }
    // run the implementation until nothing is left to do at this instant
    void settle()
    {
        waits = 0;
        if (loop && !loop->done) loop->resume();
        run.step();
    }
    void stop() { k.closing = true; reactor->stop(); }
    void shutdown()
    {
        if (loop && !loop->done)
        {
            stop();
            for (int i = 0; i < 5 && !loop->done; ++i) loop->resume();
        }
    }
    bool alive() const { return loop && !loop->done; }
    bool stopped() const { return run.stopped(); }
    // advance the clock to the next expiry; false when no timer is armed
    bool tick()
    {
        if (!k.fireNextTimer()) return false;
        settle();
        return true;
    }
    void advance(std::int64_t ns)
    {
        std::int64_t const end = k.now + ns;
        std::int64_t d;
        while (!stopped() && k.nextDeadline(d) && d <= end) tick();
        if (k.now < end) k.advanceTo(end);
        settle();
    }
};

inline std::string be16(unsigned v) { return std::string{(char)(v >> 8), (char)v}; }
inline std::string bytes(std::initializer_list<int> l) { std::string s; for (int i : l) s += (char)i; return s; }
