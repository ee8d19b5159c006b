// C01: messages between components.  Real Reactor, MsgMemStorage, Event, Epoll and ReactorManager, real threads under the
// controlled scheduler of sched.hpp: every schedule with a bounded number of preemptions, at every memory access, lock
// operation, atomic operation and system call of the implementation.
#include <cstring>
#include <malloc.h>
#include <map>
#include <set>
#include "sim.hpp"
#include "sched.hpp"
#include "Reactor.hpp"
#include "ReactorManager.hpp"
#include "ComponentBase.hpp"
#include "MsgInterface.hpp"
#include "Logger.hpp"

using namespace app::reactor;

static constexpr unsigned SLOTS = 64;
static constexpr unsigned DATA = 4040;

// a message of any size; its content is a function of sender and number
struct TestMsg : public MsgInterface
{
    std::uint64_t msgId, comp;
    std::uint32_t len, sender, seq;
    unsigned char data[DATA];
    static unsigned char at(unsigned sender, unsigned seq, unsigned i) { return sender * 71 + seq * 13 + i * 7 + (i >> 8); }
    void fill(unsigned id, unsigned c, unsigned s, unsigned q, unsigned n)
    {
        msgId = id; comp = c; sender = s; seq = q; len = n;
        for (unsigned i = 0; i < n; ++i) data[i] = at(s, q, i);
    }
    bool intact() const
    {
        if (len > DATA) return false;
        for (unsigned i = 0; i < len; ++i) if (data[i] != at(sender, seq, i)) return false;
        return true;
    }
    MsgId getMsgId() const override { return msgId; }
    ComponentId getCompId() const override { return comp; }
    std::size_t size() const override { return offsetof(TestMsg, data) + len; }
};
#pragma GCC diagnostic ignored "-Winvalid-offsetof"

struct Post { unsigned sender, seq; unsigned id; std::size_t to; unsigned begun, ended; bool delivered = false; unsigned occ = 0; };

struct World
{
    mc::Run& r;
    sim::Kernel k;
    std::vector<std::unique_ptr<Reactor>> reactors;
    std::unique_ptr<sched::Sched> s;
    std::vector<Post> posts;
    std::map<std::pair<unsigned, unsigned>, unsigned> index;
    std::map<std::pair<std::size_t, unsigned>, unsigned> lastSeq;      // (receiver, sender) -> last number delivered
    std::vector<unsigned> handled;                                  // per receiver
    unsigned clock = 0;
    std::uint64_t trail = 0;
    bool open = false;                                              // the loops are running
    bool small = true;

    World(mc::Run& run, unsigned n, int budget, bool accesses) : r(run)
    {
        for (int i = 0; i < (int)app::LogTask::NUM; ++i) app::Logger::getInst().setTaskLogLevel((app::LogTask)i, app::LogLevel::NA);
        k.anomaly = [this](std::string const& w) { r.fail(w); };
        s = std::make_unique<sched::Sched>(r);
        s->budget = budget;
        s->accesses = accesses;
        k.onIdle = [this](sim::EpollFile& e) { sched::Quiet q; s->block([this, &e] { return !e.ready.empty() || k.closing; }, true); return !k.closing && !s->free; };
        k.onCall = [this](char const* c, int) { s->point(c); };
        for (unsigned i = 0; i < n; ++i)
        {
            Reactor::Init init{i, 1, 0};
            reactors.push_back(std::make_unique<Reactor>(init));
            for (unsigned id = 1; id <= 3; ++id) reactors[i]->registerHandler(100 + id, [this, i, id](MsgInterface const& m) { received(i, 100 + id, m); });
        }
        handled.resize(n);
    }
    ~World() { end(); }
    void end()
    {
        if (!s) return;
        k.closing = true;
        for (auto& x : reactors) x->stop();
        s.reset();
        k.onCall = nullptr;
        reactors.clear();
    }
    bool stop() const { return r.stopped(); }
    void loop(unsigned i) { s->spawn("loop" + std::to_string(i), [this, i] { reactors[i]->run(); }); }
    // ---- senders
    unsigned begin(unsigned sender, unsigned seq, unsigned id, std::size_t to)
    {
        Post p{sender, seq, id, to, ++clock, 0};
        unsigned pending = 0;
        for (auto& o : posts) if (o.to == to && !(o.delivered)) ++pending;
        p.occ = pending;
        posts.push_back(p);
        index[{sender, seq}] = posts.size() - 1;
        for (auto& o : posts) if (!o.ended && o.to == to && &o != &posts.back()) o.occ++;        // concurrent ones
        return posts.size() - 1;
    }
    void post(std::size_t to, unsigned sender, unsigned seq, unsigned len, unsigned id = 101, SenderInterface* via = nullptr)
    {
        TestMsg m;
        unsigned at;
        {
            sched::Quiet q;
            if (stop()) return;
            m.fill(id, to, sender, seq, len);
            at = begin(sender, seq, id, to);
        }
        if (via) via->send(m); else reactors[to]->send(m);
        sched::Quiet q;
        posts[at].ended = ++clock;
        // the sender's copy may be used again at once
        std::memset(m.data, 0xdd, sizeof m.data);
        m.sender = m.seq = 0xdddddddd;
    }
    std::function<void(std::size_t, TestMsg const&)> onMsg;
    void received(std::size_t at, unsigned id, MsgInterface const& mi)
    {
        auto const& m = static_cast<TestMsg const&>(mi);
        {
            sched::Quiet q;
            if (stop()) return;
            r.step();
            auto it = index.find({m.sender, m.seq});
            if (it == index.end()) { r.fail("a message arrives that was not sent"); return; }
            auto& p = posts[it->second];
            if (p.delivered) { r.fail("a message arrives twice"); return; }
            if (p.to != at) { r.fail("a message arrives at the wrong component"); return; }
            if (p.id != id || m.getMsgId() != id) { r.fail("a message is handed to the handler of another"); return; }
            if (!m.intact()) { r.fail("a message arrives with other content"); return; }
            auto& l = lastSeq[{at, m.sender}];
            if (m.seq < l) { r.fail("the messages of one sender arrive in another order"); return; }
            l = m.seq;
            p.delivered = true;
            handled[at]++;
            trail = mc::mix(trail, at * 1000003 + m.sender * 1009 + m.seq);
            r.state(trail);
            r.note("message " + std::to_string(m.sender) + "/" + std::to_string(m.seq) + " is handled");
        }
        if (onMsg) onMsg(at, m);
        // the content must not change while the handler runs
        sched::Quiet q;
        if (!stop() && !m.intact()) r.fail("a message changes while it is handled");
    }
    void run()
    {
        if (stop()) return;
        if (!s->run() && !stop()) { r.fail("threads block each other"); }
    }
    // nothing is pending any more
    void settled()
    {
        if (stop()) return;
        for (auto& p : posts)
            if (!p.delivered && p.occ < SLOTS) { r.fail("message " + std::to_string(p.sender) + "/" + std::to_string(p.seq) + " is lost"); return; }
        std::uint64_t h = 0;
        for (auto& p : posts) h = mc::mix(h, p.delivered);
        for (auto n : handled) h = mc::mix(h, n);
        r.state(h);
    }
    // a full backlog can be stored and is delivered again
    void capacity(std::size_t to)
    {
        if (stop()) return;
        s->budget = 0;
        static unsigned const gen = 1000;
        for (unsigned i = 0; i < SLOTS; ++i) post(to, 90, gen + i, 8);
        auto const first = posts.size() - SLOTS;
        for (auto i = first; i < posts.size(); ++i) posts[i].occ = 0;           // there is room for all of them
        run();
        settled();
    }
    void finish() { if (!stop()) { std::uint64_t h = 0; for (auto& p : posts) h = mc::mix(h, p.delivered * 2 + 1); r.outcome(mc::mix(h, trail)); } }
};

// n senders post m messages each while the loop runs
static void senders(mc::Run& r, int n, int m, int budget, bool accesses, unsigned fill)
{
    static unsigned const lens[] = {8, 40, 7, 1};
    World w(r, 1, budget, accesses);
    for (unsigned i = 0; i < fill; ++i) w.post(0, 50, i, 8);
    w.loop(0);
    for (int i = 0; i < n; ++i)
        w.s->spawn("sender" + std::to_string(i), [&w, i, m] { for (int q = 0; q < m; ++q) w.post(0, i, q, lens[(i + q) % 4], 101 + (i + q) % 3); });
    w.run();
    w.settled();
    w.capacity(0);
    w.finish();
}
// two loops whose handlers post to each other
static void pingPong(mc::Run& r, int budget, bool accesses, int hops)
{
    World w(r, 2, budget, accesses);
    std::map<unsigned, unsigned> next;
    w.onMsg = [&](std::size_t at, TestMsg const& m) {
        if (m.sender < 2 && m.seq + 1 < (unsigned)hops) w.post(1 - at, m.sender, m.seq + 1, 20 + m.seq, 101 + m.seq % 3);
    };
    w.loop(0);
    w.loop(1);
    w.post(0, 0, 0, 30);
    w.post(1, 1, 0, 17);
    w.run();
    w.settled();
    if (!w.stop() && w.posts.size() != 2u * hops) r.fail("a message is lost");
    w.capacity(0);
    w.finish();
}
// the receiver posts to itself while others post
static void selfPost(mc::Run& r, int budget, bool accesses)
{
    World w(r, 1, budget, accesses);
    w.onMsg = [&](std::size_t at, TestMsg const& m) { if (m.sender == 0) w.post(0, 7, m.seq, 12); };
    w.loop(0);
    for (unsigned i = 0; i < 2; ++i) w.s->spawn("sender" + std::to_string(i), [&w, i] { for (int q = 0; q < 2; ++q) w.post(0, i, q, 9); });
    w.run();
    w.settled();
    w.capacity(0);
    w.finish();
}
// components behind a ReactorManager, also unknown ones
template <std::size_t ID> struct Comp : ComponentBase<ID> { using ComponentBase<ID>::ComponentBase; };
static void routed(mc::Run& r, int budget, bool accesses)
{
    int const unknown = r.choose(4, "messages to unknown components");     // bit i: sender i posts one first
    World w(r, 2, budget, accesses);
    ReactorManager man;
    man.addComponent(std::make_unique<Comp<0>>(man, *w.reactors[0]));
    man.addComponent(std::make_unique<Comp<1>>(man, *w.reactors[1]));
    w.loop(0);
    w.loop(1);
    for (unsigned i = 0; i < 2; ++i)
        w.s->spawn("sender" + std::to_string(i), [&w, &man, i, unknown] {
            for (unsigned q = 0; q < 2; ++q)
            {
                if (q == 0 && (unknown >> i & 1)) { TestMsg m; { sched::Quiet z; m.fill(101, 5 + i, 60 + i, q, 4); } man.send(m); }
                w.post((i + q) % 2, i, q, 11 + i, 102, &man);
            }
        });
    w.run();
    w.settled();
    w.capacity(0);
    w.finish();
    w.end();
}

int main(int argc, char** argv)
{
    mallopt(M_MMAP_THRESHOLD, 64 << 20);
    mallopt(M_TRIM_THRESHOLD, 512 << 20);
    mallopt(M_ARENA_MAX, 1);
    return mc::main(argc, argv, [](std::string const&, bool th) {
        std::vector<mc::Scenario> v;
        auto add = [&](std::string n, std::string b, std::function<void(mc::Run&)> f) { v.push_back({n, b, f}); };
        std::string const every = " preemptions at every memory access, lock, atomic operation and system call";
        std::string const sync = " preemptions at every lock, atomic operation and system call";
        add("senders2", "2 senders x 1 message, 2" + every, [](mc::Run& r) { senders(r, 2, 1, 2, true, 0); });
        add("senders2x2", "2 senders x 2 messages, 2" + every, [](mc::Run& r) { senders(r, 2, 2, 2, true, 0); });
        add("senders3", "3 senders x 1 message, 1 (thorough 2)" + every, [th](mc::Run& r) { senders(r, 3, 1, th ? 2 : 1, true, 0); });
        add("senders2x2sync", "2 senders x 2 messages, 3 (thorough 4)" + sync, [th](mc::Run& r) { senders(r, 2, 2, th ? 4 : 3, false, 0); });
        add("senders3x2sync", "3 senders x 2 messages, 2 (thorough 3)" + sync, [th](mc::Run& r) { senders(r, 3, 2, th ? 3 : 2, false, 0); });
        for (unsigned f : {61u, 62u, 63u, 64u})
        {
            add("full" + std::to_string(f), "2 senders x 2 messages with " + std::to_string(f) + " messages waiting, 2 (thorough 3)" + sync, [f, th](mc::Run& r) { senders(r, 2, 2, th ? 3 : 2, false, f); });
            add("fullAccess" + std::to_string(f), "2 senders x 1 message with " + std::to_string(f) + " messages waiting, 1" + every, [f](mc::Run& r) { senders(r, 2, 1, 1, true, f); });
        }
        add("pingPong", "two loops posting to each other, 2" + every, [th](mc::Run& r) { pingPong(r, 2, true, th ? 3 : 2); });
        add("pingPongSync", "two loops posting to each other, 6 hops, 3 (thorough 4)" + sync, [th](mc::Run& r) { pingPong(r, th ? 4 : 3, false, 6); });
        add("selfPost", "a receiver that posts to itself, 2 senders x 2, 2 (thorough 3)" + sync, [th](mc::Run& r) { selfPost(r, th ? 3 : 2, false); });
        add("selfPostAccess", "the same, 1" + every, [](mc::Run& r) { selfPost(r, 1, true); });
        add("routed", "2 senders x 2 messages to 2 components and unknown ones through the manager, 1" + every, [](mc::Run& r) { routed(r, 1, true); });
        add("routedSync", "the same, 1 (thorough 2)" + sync, [th](mc::Run& r) { routed(r, th ? 2 : 1, false); });
        return v;
    });
}
