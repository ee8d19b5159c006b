// C02-C05: the event loop and its timers, connections and listeners (real Reactor, Epoll, Event, Timer, Link, Acceptor,
// EntityPool, MsgMemStorage) on the simulated kernel.
#include "env.hpp"
#include "MsgBase.hpp"
#include "LinkInterface.hpp"
#include "AcceptorInterface.hpp"
#include "TimerInterface.hpp"
#include <optional>
#include <algorithm>

using namespace app;
using namespace app::reactor;
static std::string g_prop;
static constexpr std::int64_t US = 1000, MS = 1000000, SEC = 1000 * MS;

template <unsigned ID> struct TestMsg : public MsgBase<TestMsg<ID>, 2, ID> { unsigned value; unsigned pad[3]; };

static LinkAddr mkAddr(int a, int b, int c, int d, unsigned port)
{
    LinkAddr r{};
    r.type = LinkAddr::Type::ipv4;
    r.data[0] = a; r.data[1] = b; r.data[2] = c; r.data[3] = d;
    r.data[4] = port >> 8; r.data[5] = port;
    for (int i = 6; i < 16; ++i) r.data[i] = (char)0xee;
    return r;
}

// ------------------------------------------------------------------ C02: dispatch
// A world of timers, connections, a listener and messages; a set of them becomes due in one wake-up, in any order, and
// each handler does one of several things to itself or to the others.
struct Res
{
    enum Kind { timer, link, acceptor } kind;
    int id;
    bool live = true;
    TimerPtr t;
    LinkPtr l;
    AcceptorPtr a;
    sim::PeerPtr peer;
    unsigned port = 0;
    bool due = false;           // must be called before the loop is idle again
    bool error = false;         // due as an error
    int calls = 0;
    bool released = false;
    std::string rx, sent;
};
using ResPtr = std::shared_ptr<Res>;

struct World
{
    Env env;
    mc::Run& run;
    std::vector<ResPtr> res;
    std::vector<unsigned> posted, handled;
    unsigned nextVal = 1;
    int nextId = 0;
    unsigned nextPort = 1000;
    int depth = 0, maxEffects = 0, effects = 0;
    bool inHandler = false;

    World(mc::Run& r) : env(r), run(r)
    {
        env.reactor->registerHandler(100, [this](MsgInterface const& m) { onMsg(static_cast<TestMsg<100> const&>(m).value); });
        env.reactor->registerHandlers({{101, [this](MsgInterface const& m) { onMsg(static_cast<TestMsg<101> const&>(m).value); }}});
        env.start();
    }
    ~World() { res.clear(); env.shutdown(); }
    bool stop() const { return run.stopped(); }

    template <unsigned ID> void postT()
    {
        MsgStore<TestMsg<ID>> m;
        m.getMsg().value = nextVal;
        m.getMsg().pad[0] = ~nextVal;
        if (ID < 102) posted.push_back(nextVal);
        ++nextVal;
        env.post(m);
    }
    void post(int kind) { if (kind == 0) postT<100>(); else if (kind == 1) postT<101>(); else postT<150>(); }

    ResPtr mkTimer()
    {
        auto r = std::make_shared<Res>();
        r->kind = Res::timer;
        r->id = nextId++;
        r->t = env.reactor->createTimer([this, w = r.get()] { called(w); });
        res.push_back(r);
        return r;
    }
    ResPtr mkAcceptor()
    {
        auto r = std::make_shared<Res>();
        r->kind = Res::acceptor;
        r->id = nextId++;
        r->port = nextPort++;
        r->a = env.reactor->createAcceptor([this, w = r.get()] { called(w); });
        r->a->listen(mkAddr(127, 0, 0, 1, r->port));
        res.push_back(r);
        return r;
    }
    ResPtr mkLink()     // connected link
    {
        auto r = std::make_shared<Res>();
        r->kind = Res::link;
        r->id = nextId++;
        r->l = env.reactor->createLink([this, w = r.get()](LinkEvent e) { linkCalled(w, e); });
        auto before = env.k.connecting();
        r->l->connect(mkAddr(127, 0, 0, 1, 7777));
        for (auto& c : env.k.connecting()) if (std::find(before.begin(), before.end(), c) == before.end()) r->peer = env.k.establish(c);
        r->due = true;
        res.push_back(r);
        return r;
    }
    void release(Res* r)
    {
        r->live = false;
        r->due = false;
        r->released = true;
        run.note("release " + name(r));
        r->t.reset();
        r->l.reset();
        r->a.reset();
    }
    static std::string name(Res* r) { return (r->kind == Res::timer ? "timer " : r->kind == Res::link ? "link " : "acceptor ") + std::to_string(r->id); }

    void linkCalled(Res* w, LinkEvent e)
    {
        run.note(name(w) + " event " + (e == LinkEvent::connected ? "connected" : e == LinkEvent::data ? "data" : "error"));
        if (w->live && e == LinkEvent::data)
        {
            std::uint8_t b[64];
            for (;;)
            {
                auto x = w->l->receive(b, sizeof b);
                if (x.status != LinkResult::ok) break;
                w->rx.append((char*)b, x.len);
            }
            if (w->rx != w->sent.substr(0, w->rx.size())) run.fail("a connection received bytes of another one");
        }
        called(w);
    }
    void called(Res* w)
    {
        w->calls++;
        run.note("handler of " + name(w));
        if (!w->live) { run.fail("the handler of a released resource is called"); return; }
        w->due = false;
        if (w->kind == Res::acceptor) takeConnection(w);
        effect(w);
    }
    std::vector<LinkPtr> accepted;
    void takeConnection(Res* w)
    {
        accepted.clear();       // at most one slot of the pool
        auto l = env.reactor->createLink([this](LinkEvent) {});
        w->a->accept(*l);
        accepted.push_back(std::move(l));
    }
    void onMsg(unsigned v)
    {
        run.note("message " + std::to_string(v));
        if (handled.size() >= posted.size() || posted[handled.size()] != v) { run.fail("a message is delivered twice, out of order or altered"); return; }
        handled.push_back(v);
        effect(nullptr);
    }
    int maxRes = 0;
    void effect(Res* self)
    {
        if (effects >= maxEffects || stop()) return;
        // 0 nothing, 1 throw, 2 release self, then for each other live resource: release / release+recreate
        std::vector<std::pair<int, ResPtr>> opt{{0, nullptr}, {1, nullptr}};
        if (self) { opt.push_back({2, nullptr}); opt.push_back({3, nullptr}); }
        for (auto& r : res) if (r->live && r.get() != self) { opt.push_back({4, r}); opt.push_back({5, r}); }
        opt.push_back({6, nullptr});
        auto [k, o] = opt[run.choose(opt.size(), "effect")];
        if (stop()) return;
        if (k) ++effects;
        switch (k)
        {
        case 1: run.note("throws"); throw std::runtime_error("handler");
        case 2: release(self); break;
        case 3: { auto kind = self->kind; release(self); recreate(kind); break; }
        case 4: release(o.get()); break;
        case 5: { auto kind = o->kind; release(o.get()); recreate(kind); break; }
        case 6: post(0); break;
        }
    }
    void recreate(Res::Kind k)
    {
        run.note("recreate");
        if (k == Res::timer) { auto t = mkTimer(); t->t->start(1000); }
        else if (k == Res::link) mkLink();
        else mkAcceptor();
    }
    void check()
    {
        if (stop()) return;
        if (env.loop->done) { run.fail("the event loop ended"); return; }
        for (auto& r : res)
            if (r->live && r->due) { run.fail("a due event is not delivered: " + name(r.get())); return; }
        if (handled != posted) { run.fail("a message is lost"); return; }
        for (auto& r : res)
            if (r->kind == Res::link && r->live && r->peer && r->peer->alive() && r->rx != r->sent) { run.fail("received data is lost"); return; }
        std::uint64_t h = effects;
        for (auto& r : res) h = mc::mix(h, r->kind * 16 + r->live * 8 + r->calls);
        run.state(mc::mix(h, handled.size()));
    }
};

static void dispatch(mc::Run& r, int nEvents, int maxEffects, int fill)
{
    World w(r);
    auto t1 = w.mkTimer(), t2 = w.mkTimer();
    auto l1 = w.mkLink(), l2 = w.mkLink();
    auto a1 = w.mkAcceptor();
    w.env.settle();
    for (auto& x : w.res) if (x->kind == Res::link && x->calls) x->due = false;
    w.check();
    if (w.stop()) return;
    // with full pools a re-created resource takes the slot that was just released
    std::vector<TimerPtr> ft;
    std::vector<LinkPtr> fl;
    std::vector<AcceptorPtr> fa;
    if (fill)
        for (;;)
        {
            bool any = false;
            try { ft.push_back(w.env.reactor->createTimer([] {})); any = true; } catch (std::exception const&) {}
            try { if (fl.size() < 28) { fl.push_back(w.env.reactor->createLink([](LinkEvent) {})); any = true; } } catch (std::exception const&) {}
            try { fa.push_back(w.env.reactor->createAcceptor([] {})); any = true; } catch (std::exception const&) {}
            if (!any) break;
        }
    if (fill) { fl.clear(); while (fl.size() < 29) fl.push_back(w.env.reactor->createLink([](LinkEvent) {})); }
    w.maxEffects = maxEffects;
    // which events, in which order
    std::vector<int> kinds{0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
    for (int i = 0; i < nEvents && !w.stop(); ++i)
    {
        int j = r.choose(kinds.size(), "event");
        if (w.stop()) break;
        int k = kinds[j];
        if (k != 5 && k != 6 && k != 9) kinds.erase(kinds.begin() + j);
        switch (k)
        {
        case 0: t1->t->start(0); t1->due = true; r.note("timer 0 due"); break;
        case 1: t2->t->start(0); t2->due = true; r.note("timer 1 due"); break;
        case 2: if (l1->peer->alive()) { l1->peer->send("abc"); l1->sent += "abc"; l1->due = true; r.note("data for link 2"); } break;
        case 3: if (l2->peer->alive()) { l2->peer->send("xyzw"); l2->sent += "xyzw"; l2->due = true; r.note("data for link 3"); } break;
        case 4: { auto p = w.env.k.dial(a1->port); a1->due = true; r.note("connection for acceptor 4"); break; }
        case 5: w.post(0); break;
        case 6: w.post(1); break;
        case 7: l1->peer->reset(); l1->due = true; r.note("link 2 reset"); break;
        case 8: l2->peer->close(); l2->due = true; r.note("link 3 closed"); break;
        case 9: w.post(2); r.note("message without handler"); break;
        }
        w.env.k.advanceTo(w.env.k.now);     // zero timers expire now
    }
    if (w.stop()) return;
    w.env.k.advanceTo(w.env.k.now + 1);
    w.env.settle();
    // re-created timers
    for (auto& x : w.res) if (x->live && x->kind == Res::timer && x->id >= 5 && !x->calls) x->due = true;
    for (int i = 0; i < 4; ++i) w.env.tick();
    w.env.settle();
    for (auto& x : w.res) if (x->kind == Res::link && x->released) x->due = false;
    w.check();
    if (w.stop()) return;
    // the loop still serves everything that is left
    w.maxEffects = 0;
    for (auto& x : w.res)
        if (x->live)
        {
            if (x->kind == Res::timer) { x->t->start(10); x->due = true; }
            if (x->kind == Res::link && x->peer->alive()) { x->peer->send("Q"); x->sent += "Q"; x->due = true; }
            if (x->kind == Res::acceptor) { if (!w.env.k.dial(x->port)) r.fail("a listener does not listen"); x->due = true; }
        }
    w.post(0);
    w.post(1);
    w.env.settle();
    w.env.tick();
    w.env.settle();
    w.check();
    r.outcome(mc::mix(w.effects, w.handled.size()));
}

// every handler of a burst of messages may throw
static void throwing(mc::Run& r)
{
    World w(r);
    int n = 1 + r.choose(7, "messages");
    w.maxEffects = 0;
    std::vector<int> plan;
    for (int i = 0; i < n; ++i) plan.push_back(r.choose(3, "message does"));
    auto t = w.mkTimer();
    unsigned at = 0;
    std::vector<unsigned> seen;
    auto fn = [&](unsigned v) { seen.push_back(v); int p = at < plan.size() ? plan[at] : 0; ++at; if (p == 1) throw std::runtime_error("x"); if (p == 2) throw std::logic_error("y"); };
    w.env.reactor->registerHandler(100, [&](MsgInterface const& m) { fn(static_cast<TestMsg<100> const&>(m).value); });
    std::vector<unsigned> want;
    for (int i = 0; i < n; ++i) { want.push_back(w.nextVal); w.postT<100>(); }
    bool pending = r.choose(2, "timer in the same wake-up");
    if (pending) { t->t->start(0); t->due = true; w.env.k.advanceTo(w.env.k.now + 1); }
    w.env.settle();
    if (!w.stop() && seen != want) r.fail("messages behind a failing handler are lost");
    if (!w.stop() && pending && t->due) r.fail("an event behind a failing handler is lost");
    want.push_back(w.nextVal);
    w.postT<100>();
    w.env.settle();
    if (!w.stop() && seen != want) r.fail("a message after a failing handler is lost");
    r.outcome(seen.size());
}

// more due events than one wake-up can report
static void crowd(mc::Run& r)
{
    World w(r);
    int nt = r.choose(2, "timers") ? 30 : 12;
    int nl = 5 * r.choose(5, "connections");
    int msgs = r.choose(3, "messages") * 30;
    int first = r.choose(3, "order");
    int kill = r.choose(4, "released by the first handler");
    std::vector<ResPtr> t, l;
    for (int i = 0; i < nt; ++i) t.push_back(w.mkTimer());
    for (int i = 0; i < nl; ++i) l.push_back(w.mkLink());
    w.env.settle();
    for (auto& x : l) x->due = false;
    bool did = false;
    auto act = [&](Res*) {
        if (did || !kill) return;
        did = true;
        for (std::size_t i = 0; i < t.size(); ++i) if (i % kill == 0 && t[i]->live) w.release(t[i].get());
        for (std::size_t i = 0; i < l.size(); ++i) if (i % kill == 0 && l[i]->live) w.release(l[i].get());
    };
    std::vector<TimerPtr> extra;
    extra.push_back(w.env.reactor->createTimer([&] { act(nullptr); }));
    extra[0]->start(0);
    w.env.k.advanceTo(w.env.k.now + 1);
    auto doT = [&] { for (auto& x : t) { x->t->start(0); x->due = true; } w.env.k.advanceTo(w.env.k.now + 1); };
    auto doL = [&] { for (auto& x : l) { x->peer->send("hello"); x->sent = "hello"; x->due = true; } };
    auto doM = [&] { for (int i = 0; i < msgs; ++i) w.post(i % 2); };
    if (first == 0) { doT(); doL(); doM(); } else if (first == 1) { doL(); doM(); doT(); } else { doM(); doT(); doL(); }
    w.env.settle();
    w.check();
    r.outcome(w.handled.size());
}

// ------------------------------------------------------------------ C03: failing calls, capacity
static void resources(mc::Run& r, int depth, int maxFaults)
{
    Env env(r);
    auto& R = *env.reactor;
    env.start();
    std::size_t const base = env.k.files.size();
    int left = maxFaults;
    bool on = true;
    env.k.fault = [&](char const* call, int fd) -> int {
        if (!on || !left || r.stopped()) return 0;
        if (!std::strcmp(call, "epoll_wait")) return 0;
        auto f = env.k.get(fd);
        if (f && (f->kind == sim::File::Kind::event)) return 0;
        if (!r.choose(2, call)) return 0;
        --left;
        r.note(std::string("fails: ") + call);
        if (!std::strcmp(call, "read") || !std::strcmp(call, "write")) return r.choose(2, "errno") ? EIO : EAGAIN;
        if (!std::strcmp(call, "close")) return EIO;
        return ENOMEM;
    };
    int tries = 0;
    struct Slot { int kind = -1; TimerPtr t; LinkPtr l; AcceptorPtr a; bool used = false; };
    std::vector<Slot> s(2);
    unsigned port = 4000;
    auto guard = [&](char const* what, auto&& f) {
        r.note(what);
        try { f(); } catch (std::exception const& e) { r.note(std::string("  refused: ") + e.what()); }
        env.settle();
    };
    for (int d = 0; d < depth && !r.stopped(); ++d)
    {
        int i = r.choose(2, "slot");
        auto& x = s[i];
        ++tries;
        if (x.kind < 0)
        {
            int k = r.choose(3, "create");
            if (k == 0) guard("create timer", [&] { x.t = R.createTimer([] {}); x.kind = 0; });
            if (k == 1) guard("create link", [&] { x.l = R.createLink([&x](LinkEvent) { if (x.l) { std::uint8_t b[8]; while (x.l->receive(b, 8).status == LinkResult::ok) {} } }); x.kind = 1; });
            if (k == 2) guard("create acceptor", [&] { x.a = R.createAcceptor([&] { auto l = R.createLink([](LinkEvent) {}); x.a->accept(*l); }); x.kind = 2; });
        }
        else if (x.kind == 0)
        {
            int k = r.choose(4, "timer op");
            if (k == 0) guard("timer start", [&] { x.t->start(1000); });
            if (k == 1) guard("timer stop", [&] { x.t->stop(); });
            if (k == 2) guard("timer release", [&] { x.t.reset(); x.kind = -1; });
            if (k == 3) { r.note("tick"); env.tick(); }
        }
        else if (x.kind == 1)
        {
            int k = r.choose(6, "link op");
            if (k == 0) guard("link connect", [&] { x.l->connect(mkAddr(1, 2, 3, 4, 99)); });
            if (k == 1) guard("link close", [&] { x.l->close(); });
            if (k == 2) guard("link release", [&] { x.l.reset(); x.kind = -1; });
            if (k == 3) { auto c = env.k.connecting(); if (!c.empty()) { env.k.establish(c.back()); r.note("established"); } env.settle(); }
            if (k == 4) { auto c = env.k.connecting(); if (!c.empty()) { env.k.refuse(c.back()); r.note("refused"); } for (auto& p : env.k.peers) if (p->alive()) { p->reset(); break; } env.settle(); }
            if (k == 5) { guard("link send", [&] { x.l->send("abc", 3); }); for (auto& p : env.k.peers) if (p->alive()) { p->send("hi"); break; } env.settle(); }
        }
        else
        {
            int k = r.choose(4, "acceptor op");
            if (k == 0) guard("listen", [&] { x.a->listen(mkAddr(127, 0, 0, 1, port++)); });
            if (k == 1) guard("acceptor close", [&] { x.a->close(); });
            if (k == 2) guard("acceptor release", [&] { x.a.reset(); x.kind = -1; });
            if (k == 3) { auto l = env.k.listeners(); env.maxWaits = 20; if (!l.empty()) { env.k.dial(l.back()->port); r.note("connection arrives"); } env.settle(); }
        }
    }
    if (r.stopped()) return;
    r.note("release everything");
    for (auto& x : s) { try { x.t.reset(); x.l.reset(); x.a.reset(); } catch (std::exception const&) {} x.kind = -1; }
    env.settle();
    on = false;
    if (r.stopped()) return;
    if (env.k.files.size() != base) { r.fail("descriptors are left open after everything was released"); return; }
    // full capacity, usable
    std::vector<TimerPtr> ts;
    std::vector<LinkPtr> ls;
    std::vector<AcceptorPtr> as;
    int fired = 0, conn = 0;
    try
    {
        for (int i = 0; i < 32; ++i) { ts.push_back(R.createTimer([&] { ++fired; })); ts.back()->start(5); }
        for (int i = 0; i < 32; ++i) { ls.push_back(R.createLink([&](LinkEvent e) { conn += e == LinkEvent::connected; })); ls.back()->connect(mkAddr(9, 9, 9, 9, 9)); }
        for (int i = 0; i < 32; ++i) { as.push_back(R.createAcceptor([] {})); as.back()->listen(mkAddr(127, 0, 0, 1, 9000 + i)); }
    }
    catch (std::exception const& e) { r.fail(std::string("capacity is lost: ") + e.what()); return; }
    for (auto& c : env.k.connecting()) env.k.establish(c);
    env.settle();
    env.tick();
    if (!r.stopped() && (fired != 32 || conn != 32)) r.fail("a re-used timer or connection does not work");
    ts.clear(); ls.clear(); as.clear();
    env.settle();
    if (!r.stopped() && env.k.files.size() != base) r.fail("descriptors are left open after everything was released");
    r.state(mc::mix(env.k.calls, fired));
}

// many generations without failure, every kind, and creation beyond the capacity
// handlers that release, replace or re-equip their own resource go on using what they captured
struct Ballast { std::uint64_t v[12]; explicit Ballast(std::uint64_t s) { for (auto& x : v) x = s++; } bool ok(std::uint64_t s) const { for (auto x : v) if (x != s++) return false; return true; } };
static void captures(mc::Run& r)
{
    Env env(r);
    auto& R = *env.reactor;
    TimerPtr timer, second;
    LinkPtr link;
    AcceptorPtr acceptor;
    int const kind = r.choose(5, "event"), act = r.choose(4, "the handler"), fill = r.choose(2, "full pool"), again = r.choose(2, "twice");
    int runs = 0;
    bool intact = true;
    // the replacement gets the slot and overwrites the stored handler
    auto other = [&](LinkEvent) { };
    std::string const text(100, 'q');
    Ballast const b(77);
    auto used = [&](std::string const& t, Ballast const& x) { ++runs; if (t != std::string(100, 'q') || !x.ok(77)) intact = false; };
    std::vector<TimerPtr> ts;
    std::vector<LinkPtr> ls;
    std::vector<AcceptorPtr> as;
    if (kind == 0) timer = R.createTimer([&, text, b] { if (act) timer.reset(); if (act == 2) timer = R.createTimer([] {}); if (act == 3) { second = R.createTimer([text] {}); second->start(1); } used(text, b); });
    auto onLink = [&, text, b](LinkEvent) {
        if (act == 1) link.reset();
        if (act == 2) { link.reset(); link = R.createLink(other); }
        if (act == 3) link->setHandler(other);
        used(text, b);
    };
    if (kind >= 1 && kind <= 3) link = R.createLink(onLink);
    auto accept = [&, text, b] {
        { auto l = R.createLink({}); acceptor->accept(*l); }
        if (act) acceptor.reset();
        if (act == 2) acceptor = R.createAcceptor([] {});
        used(text, b);
    };
    if (kind == 4) acceptor = R.createAcceptor(accept);
    if (fill)
    {
        if (kind == 0) try { for (;;) ts.push_back(R.createTimer([] {})); } catch (std::exception const&) {}
        if (kind >= 1 && kind <= 3) try { for (;;) ls.push_back(R.createLink({})); } catch (std::exception const&) {}
        if (kind == 4) try { for (;;) as.push_back(R.createAcceptor([] {})); } catch (std::exception const&) {}
    }
    env.start();
    std::size_t const base = env.k.files.size();
    if (kind == 0) { timer->start(5); env.advance(10 * US); }
    if (kind >= 1 && kind <= 3)
    {
        link->connect(mkAddr(10, 0, 0, 1, 99));
        env.settle();
        auto c = env.k.connecting();
        if (c.size() != 1) { r.fail("not connecting"); return; }
        if (kind == 1) { env.k.establish(c[0]); env.settle(); }
        if (kind == 2) { env.k.refuse(c[0]); env.settle(); }
        if (kind == 3) { auto p = env.k.establish(c[0]); p->send("abc"); env.settle(); if (again && link) { p->send("def"); env.settle(); } }
    }
    if (kind == 4)
    {
        acceptor->listen(mkAddr(127, 0, 0, 1, 88));
        env.settle();
        env.k.dialAny();
        env.settle();
        if (again && acceptor && !act) { env.k.dialAny(); env.settle(); }
    }
    if (r.stopped()) return;
    if (!runs) { r.fail("the handler did not run"); return; }
    if (!intact) { r.fail("what the handler captured was destroyed while it ran"); return; }
    if (act == 1 && env.k.files.size() > base) r.fail("a released resource is left open");
    r.outcome(runs * 100 + kind * 10 + act);
    env.shutdown();
    timer.reset(); second.reset(); link.reset(); acceptor.reset();
}

// accepting into a link that is connected, connecting or unused; nothing leaks and the link in use is not disturbed
static void acceptInto(mc::Run& r)
{
    Env env(r);
    auto& R = *env.reactor;
    AcceptorPtr acceptor;
    LinkPtr link = R.createLink([](LinkEvent) {});
    int const before = r.choose(4, "link"), n = 1 + r.choose(3, "connections");
    int threw = 0, tried = 0;
    acceptor = R.createAcceptor([&] {
        ++tried;
        try { acceptor->accept(*link); } catch (std::exception const&) { ++threw; }
    });
    acceptor->listen(mkAddr(127, 0, 0, 1, 88));
    env.start();
    std::size_t const base = env.k.files.size();
    sim::PeerPtr used;
    if (before) { link->connect(mkAddr(10, 0, 0, 1, 99)); env.settle(); }
    if (before >= 2) { used = env.k.establish(env.k.connecting()[0]); env.settle(); }
    if (before == 3) { link->close(); used = nullptr; env.settle(); }
    std::vector<sim::PeerPtr> ps;
    for (int i = 0; i < n && !r.stopped(); ++i)
    {
        if (i == 2) { link->close(); used = nullptr; env.settle(); }
        auto p = env.k.dialAny();
        env.settle();
        if (r.stopped()) return;
        bool const taken = !(before == 1 || used) || i == 2;
        if (i == 0 && taken) { used = p; if (p->sutClosed) { r.fail("an accepted connection is closed"); return; } }
        else if (i == 2) { used = p; if (p->sutClosed) { r.fail("an accepted connection is closed"); return; } }
        else if (p != used && !p->sutClosed) { r.fail("a connection nobody took is left open"); return; }
        if (used && used->sutClosed) { r.fail("the link in use was closed"); return; }
        std::size_t const want = base + (used || (before == 1 && i < 2) ? 1 : 0);
        if (env.k.files.size() != want) { r.fail("descriptors leak: " + std::to_string(env.k.files.size()) + " instead of " + std::to_string(want)); return; }
    }
    if (used)
    {
        used->send("xyz");
        std::uint8_t b[8];
        auto const res = link->receive(b, sizeof b);
        if (res.status != LinkResult::ok || res.len != 3) r.fail("the link in use lost its connection");
    }
    r.outcome(threw * 10 + tried);
    env.shutdown();
    link.reset();
    acceptor.reset();
    if (env.k.files.size() > base - 1) r.fail("descriptors are left open");
}

static void churn(mc::Run& r, int rounds)
{
    Env env(r);
    env.maxWaits = 100000000;
    auto& R = *env.reactor;
    env.start();
    std::size_t const base = env.k.files.size();
    int kind = r.choose(3, "kind");
    int hold = rounds > 40 ? 1 : 8 * r.choose(5, "held"), over = rounds > 40 ? 0 : r.choose(2, "exceed");
    int order = rounds > 40 ? 0 : r.choose(3, "release order");
    int step = 0;
    auto make = [&](std::vector<std::function<void()>>& v) {
        if (kind == 0) { auto p = std::make_shared<TimerPtr>(R.createTimer([] {})); if (step++ % 2) (*p)->start(100); v.push_back([p] { p->reset(); }); }
        if (kind == 1) { auto p = std::make_shared<LinkPtr>(R.createLink([](LinkEvent) {})); int m = step++ % 3; if (m) (*p)->connect(mkAddr(5, 5, 5, 5, 5)); if (m == 2) (*p)->close(); v.push_back([p] { p->reset(); }); }
        if (kind == 2) { auto p = std::make_shared<AcceptorPtr>(R.createAcceptor([] {})); if (step++ % 2) (*p)->listen(mkAddr(127, 0, 0, 1, 5000 + step)); v.push_back([p] { p->reset(); }); }
    };
    for (int round = 0; round < rounds && !r.stopped(); ++round)
    {
        std::vector<std::function<void()>> v;
        try { for (int i = 0; i < std::max(hold, 1); ++i) make(v); }
        catch (std::exception const& e) { r.fail(std::string("capacity is lost: ") + e.what()); return; }
        if (over && hold == 32)
        {
            bool refused = false;
            try { std::vector<std::function<void()>> z; make(z); for (auto& f : z) f(); } catch (std::exception const&) { refused = true; }
            (void)refused;
        }
        env.settle();
        if (order == 1) std::reverse(v.begin(), v.end());
        if (order == 2) std::rotate(v.begin(), v.begin() + v.size() / 2, v.end());
        for (auto& f : v) f();
        env.settle();
        if (env.k.files.size() != base) { r.fail("descriptors are left open after everything was released"); return; }
    }
    r.state(step);
}

// ------------------------------------------------------------------ C04: timers
static std::int64_t const PROMPT = MS;      // the resolution of a timer is nobody's business
struct Tm
{
    TimerPtr p;
    bool live = true;
    std::int64_t deadline = -1; // armed when >= 0
    int fired = 0, expect = 0;
};
static void timers(mc::Run& r, int depth, int n, bool effects)
{
    Env env(r);
    auto& R = *env.reactor;
    env.start();
    std::vector<Tm> t(n);
    int budget = effects ? 2 : 0;
    static long const iv[] = {0, 1000, 2000, 1000000};
    std::function<void(int)> onFire = [&](int i) {
        auto& x = t[i];
        r.note("timer " + std::to_string(i) + " fires at " + std::to_string(env.k.now));
        ++x.fired;
        if (!x.live) { r.fail("a released timer fires"); return; }
        if (x.deadline < 0) { r.fail("a timer fires that is not started, was stopped, or has fired already"); return; }
        if (env.k.now < x.deadline) { r.fail("a timer fires early"); return; }
        x.deadline = -1;
        if (!budget || r.stopped()) return;
        int k = r.choose(1 + 2 + (n - 1) * 3, "in handler");
        if (!k) return;
        --budget;
        if (k == 1) { x.p->start(1000); x.deadline = env.k.now + 1000 * US; return; }
        if (k == 2) { x.p.reset(); x.live = false; return; }
        int o = (k - 3) / 3;
        if (o >= i) ++o;
        auto& y = t[o];
        if (!y.live) return;
        switch ((k - 3) % 3)
        {
        case 0: y.p->stop(); y.deadline = -1; r.note("  stops " + std::to_string(o)); break;
        case 1: y.p.reset(); y.live = false; y.deadline = -1; r.note("  releases " + std::to_string(o)); break;
        case 2: y.p->start(2000); y.deadline = env.k.now + 2000 * US; r.note("  restarts " + std::to_string(o)); break;
        }
    };
    for (int i = 0; i < n; ++i) t[i].p = R.createTimer([&onFire, i] { onFire(i); });
    env.settle();
    bool lazy = false;
    auto check = [&] {
        if (r.stopped()) return;
        for (int i = 0; i < n; ++i)
            if (t[i].live && t[i].deadline >= 0 && env.k.now >= t[i].deadline + PROMPT) { r.fail("a timer does not fire promptly"); return; }
        std::uint64_t h = 0;
        for (auto& x : t) h = mc::mix(h, (x.deadline >= 0 ? x.deadline - env.k.now : -1) * 4 + x.live);
        r.state(h);
    };
    for (int d = 0; d < depth && !r.stopped(); ++d)
    {
        // alphabet: per timer 4 starts, stop, release/re-create; time: next expiry, half way, just before
        int k = r.choose(n * 6 + 4, "action");
        if (r.stopped()) break;
        if (k < n * 6)
        {
            auto& x = t[k / 6];
            int i = k / 6, op = k % 6;
            if (op < 4)
            {
                if (!x.live) continue;
                x.p->start(iv[op]);
                x.deadline = env.k.now + iv[op] * US;
                r.note("start " + std::to_string(i) + " " + std::to_string(iv[op]));
            }
            else if (op == 4) { if (!x.live) continue; x.p->stop(); x.deadline = -1; r.note("stop " + std::to_string(i)); }
            else
            {
                if (x.live) { x.p.reset(); x.live = false; x.deadline = -1; r.note("release " + std::to_string(i)); }
                else { x.p = R.createTimer([&onFire, i] { onFire(i); }); x.live = true; x.deadline = -1; r.note("create " + std::to_string(i)); }
            }
        }
        else
        {
            std::int64_t dl;
            bool any = env.k.nextDeadline(dl);
            int m = k - n * 6;
            if (m == 3) { lazy = true; if (any) env.k.advanceTo(std::max(env.k.now, dl)); r.note("expiry pending"); continue; }   // the loop does not run yet
            if (!any) continue;
            if (m == 0) env.k.advanceTo(std::max(env.k.now, dl));
            if (m == 1) env.k.advanceTo(env.k.now + std::max<std::int64_t>(0, (dl - env.k.now) / 2));
            if (m == 2) env.k.advanceTo(std::max(env.k.now, dl - 1));
            r.note("time " + std::to_string(env.k.now));
        }
        if (lazy && k < n * 6 && r.choose(2, "loop runs") == 0) continue;
        lazy = false;
        env.k.advanceTo(env.k.now);
        env.settle();
        check();
    }
    if (r.stopped()) return;
    env.k.advanceTo(env.k.now);
    env.settle();
    check();
    budget = 0;
    for (int i = 0; i < 8 && !r.stopped(); ++i) { if (!env.tick()) break; check(); }
    for (auto& x : t) if (!r.stopped() && x.live && x.deadline >= 0) r.fail("a started timer never fires");
    env.advance(7200 * SEC);
    check();
    r.outcome(t[0].fired * 8 + (n > 1 ? t[1].fired : 0));
}
// exact deadlines for all interval magnitudes at all clock positions
static void intervals(mc::Run& r)
{
    Env env(r);
    auto& R = *env.reactor;
    env.start();
    static std::int64_t const frac[] = {0, 1, 999, 1000, 499999999, 500000000, 999998999, 999999000, 999999999};
    static long const iv[] = {0, 1, 2, 999, 1000, 1001, 10000, 499999, 500000, 999999, 1000000, 1000001, 1999999, 3000000, 5000000, 30000000, 59999999, 2147483, 2147484, 4294967, 4294968, 2147483647L, 2147483648L, 4294967295L, 4294967296L, 86400000000L};
    env.k.now = (1000 + r.choose(2, "sec") * 2147482648LL) * SEC + frac[r.choose(9, "ns")];
    long i1 = iv[r.choose(26, "interval")];
    int again = r.choose(3, "second");
    std::int64_t at = -1;
    int fired = 0;
    auto t = R.createTimer([&] { ++fired; at = env.k.now; });
    t->start(i1);
    std::int64_t dl = env.k.now + i1 * US;
    if (again)
    {
        long i2 = again == 1 ? i1 / 2 : i1 + 5;
        t->start(i2);
        dl = env.k.now + i2 * US;
    }
    env.settle();
    if (dl > env.k.now)
    {
        if (fired) { r.fail("a timer fires early"); return; }
        env.k.advanceTo(dl - 1);
        env.settle();
        if (fired) { r.fail("a timer fires early"); return; }
    }
    env.k.advanceTo(dl);
    env.settle();
    int tries = 4;
    for (std::int64_t d; tries-- && !fired && env.k.nextDeadline(d) && d <= dl + PROMPT && !r.stopped();) { env.k.advanceTo(std::max(d, env.k.now)); env.settle(); }
    if (!r.stopped() && (fired != 1 || at < dl || at > dl + PROMPT)) { r.fail("a timer does not fire at its deadline"); return; }
    env.k.advanceTo(dl + 1000000 * SEC);
    env.settle();
    if (!r.stopped() && fired != 1) r.fail("a timer fires again");
    r.state(mc::mix(i1, again));
}

// a call fails while a timer is created, started or stopped: that is reported, or the timer works all the same
static void timerFaults(mc::Run& r)
{
    Env env(r);
    auto& R = *env.reactor;
    env.start();
    int left = 2;
    bool on = false;
    env.k.fault = [&](char const* call, int) -> int {
        if (!on || !left || (std::strcmp(call, "clock_gettime") && std::strcmp(call, "timerfd_settime") && std::strcmp(call, "timerfd_create") && std::strcmp(call, "epoll_ctl"))) return 0;
        if (!r.choose(2, call)) return 0;
        --left;
        return ENOMEM;
    };
    int fired = 0;
    TimerPtr t;
    for (int i = 0; i < 4 && !r.stopped(); ++i)
    {
        bool sure = true;       // nothing failed: what is due is known
        fired = 0;
        on = i < 3;
        try
        {
            if (!t) t = R.createTimer([&] { ++fired; });
            int const what = r.choose(4, "start / start twice / start and stop / stop");
            std::int64_t dl = -1;
            auto start = [&](long us) { t->start(us); dl = env.k.now + us * US; };
            if (what < 3) start(1000 * (i + 1));
            if (what == 1) start(500);
            if (what >= 2) { t->stop(); dl = -1; }
            on = false;
            env.settle();
            if (fired) { r.fail("a timer fires early"); return; }
            if (dl >= 0) { env.k.advanceTo(dl - 1); env.settle(); if (fired) { r.fail("a timer fires early"); return; } env.k.advanceTo(dl); env.settle(); }
            env.k.advanceTo(env.k.now + 10 * SEC);
            env.settle();
            if (!r.stopped() && fired != (dl >= 0)) r.fail(dl >= 0 ? "a timer that was started fires " + std::to_string(fired) + " times" : "a stopped timer fires");
        }
        catch (std::exception const&)
        {
            on = false;
            if (left == 2 || i == 3) { r.fail("a timer can not be used"); return; }
            sure = false;
        }
        if (!sure)
        {
            // whatever it does now, it ends with its release
            if (r.choose(2, "released")) { t.reset(); fired = 0; env.k.advanceTo(env.k.now + 10 * SEC); env.settle(); if (fired) { r.fail("a released timer fires"); return; } }
            else if (t) t->stop();
            fired = 0;
            env.k.advanceTo(env.k.now + 10 * SEC);
            env.settle();
            if (fired) { r.fail("a stopped timer fires"); return; }
        }
        r.state(mc::mix(i, fired * 4 + left));
    }
    t.reset();
    env.settle();
    if (!r.stopped() && env.k.countOpen(sim::File::Kind::timer)) r.fail("a descriptor is left open");
}

// ------------------------------------------------------------------ C05: connections
static void addresses(mc::Run& r)
{
    Env env(r);
    auto& R = *env.reactor;
    env.start();
    static int const by[] = {0, 1, 127, 128, 200, 255};
    int a = by[r.choose(6, "a")], b = by[r.choose(6, "b")], c = by[r.choose(6, "c")], d = by[r.choose(6, "d")];
    static unsigned const ports[] = {1, 80, 127, 128, 255, 256, 502, 4840, 32767, 32768, 65280, 65535};
    bool listenSide = r.choose(2, "side");
    unsigned port = ports[r.choose(12, "port")];
    std::uint32_t ip = (std::uint32_t)a << 24 | b << 16 | c << 8 | d;
    LinkPtr l;
    AcceptorPtr ac;
    if (listenSide)
    {
        ac = R.createAcceptor([] {});
        ac->listen(mkAddr(a, b, c, d, port));
        auto ls = env.k.listeners();
        if (ls.size() != 1 || ls[0]->addr != ip || ls[0]->port != port) r.fail("listening at a wrong address");
    }
    else
    {
        l = R.createLink([](LinkEvent) {});
        l->connect(mkAddr(a, b, c, d, port));
        auto cs = env.k.connecting();
        if (cs.size() != 1 || cs[0]->addr != ip || cs[0]->port != port) r.fail("connecting to a wrong address");
    }
    r.state(mc::mix(ip, port));
}

struct Lk
{
    LinkPtr l;
    sim::PeerPtr p;
    std::shared_ptr<sim::SocketFile> pendingSock;
    std::string sent, got;          // peer -> us
    std::string ours;               // successfully sent
    std::string partial;            // bytes of a send() reported as failed
    bool connected = false, err = false, eof = false, open = false;
    bool peerClosed = false, peerReset = false, refused = false;
    int connEvents = 0;
};
static void links(mc::Run& r, int depth, bool outgoing, int rdsize, bool races, int maxLinks)
{
    Env env(r);
    auto& R = *env.reactor;
    env.start();
    env.maxWaits = 300;
    std::vector<std::shared_ptr<Lk>> L;
    std::deque<Lk*> queue;
    std::uint8_t buf[8192];
    std::function<void(Lk*, LinkEvent)> on = [&](Lk* x, LinkEvent e) {
        r.note(std::string("event ") + (e == LinkEvent::connected ? "connected" : e == LinkEvent::data ? "data" : "error"));
        if (!x->open) { r.fail("an event of a closed connection"); return; }
        switch (e)
        {
        case LinkEvent::connected:
            if (!outgoing || ++x->connEvents > 1) { r.fail("an unexpected connected event"); return; }
            if (x->refused || !x->p) { r.fail("a refused or unfinished connection is reported as established"); return; }
            x->connected = true;
            break;
        case LinkEvent::error:
            if (!x->refused && !x->peerReset && !x->peerClosed) { r.fail("an error is reported on a healthy connection"); return; }
            x->err = true;
            x->open = false;
            break;
        case LinkEvent::data:
            if (!x->connected) { r.fail("data is reported before the connection"); return; }
            for (;;)
            {
                auto y = x->l->receive(buf, rdsize);
                if (y.status == LinkResult::ok)
                {
                    if (y.len <= 0 || y.len > rdsize) { r.fail("a receive reports a wrong length"); return; }
                    x->got.append((char*)buf, y.len);
                    if (x->got != x->sent.substr(0, x->got.size())) { r.fail("received bytes differ from those sent"); return; }
                    continue;
                }
                if (y.status == LinkResult::closed)
                {
                    if (!x->peerClosed && !x->peerReset) { r.fail("end of stream is reported on an open connection"); return; }
                    if (!x->peerReset && x->got != x->sent) { r.fail("end of stream is reported before all data"); return; }
                    x->eof = true;
                }
                else if (y.status == LinkResult::error)
                {
                    if (!x->peerReset && !x->peerClosed) { r.fail("a receive error on a healthy connection"); return; }
                    x->err = true;
                }
                if (x->eof || x->err) { x->l->close(); x->open = false; }
                break;
            }
            break;
        }
    };
    AcceptorPtr ac;
    unsigned const P = 50000;
    if (!outgoing)
    {
        ac = R.createAcceptor([&] {
            if (queue.empty()) { r.fail("a connection is reported that nobody made"); return; }
            Lk* x = queue.front();
            queue.pop_front();
            x->l = R.createLink([&on, x](LinkEvent e) { on(x, e); });
            ac->accept(*x->l);
            if (!x->p->accepted) { r.fail("connections are accepted out of order"); return; }
            x->open = x->connected = true;
        });
        ac->listen(mkAddr(127, 0, 0, 1, P));
    }
    int counter = 0;
    bool dirty = false;
    auto check = [&] {
        env.settle();
        if (r.stopped()) return;
        std::uint64_t h = 0;
        if (!queue.empty()) { r.fail("a connection is not accepted"); return; }
        for (auto& x : L)
        {
            if (x->open && x->connected && !x->peerReset && x->got != x->sent) { r.fail("received bytes are not reported"); return; }
            if (x->open && x->connected && x->peerClosed) { r.fail("end of stream is not reported"); return; }
            if (x->open && x->connected && x->peerReset) { r.fail("a reset is not reported"); return; }
            if (x->open && x->refused) { r.fail("a refused connection is not reported"); return; }
            if (x->open && outgoing && x->p && !x->connected) { r.fail("an established connection is not reported"); return; }
            if (x->p && !x->open && !x->p->sutClosed) { r.fail("a connection stays open after it was closed"); return; }
            if (x->p && x->p->alive())
            {
                auto& g = x->p->got;
                bool ok = g.size() >= x->ours.size() && g.compare(0, x->ours.size(), x->ours) == 0 && x->partial.compare(0, g.size() - x->ours.size(), g, x->ours.size(), std::string::npos) == 0;
                if (!ok) { r.fail("bytes reported as sent did not reach the peer unchanged"); return; }
            }
            h = mc::mix(h, x->open + 2 * x->connected + 4 * x->peerClosed + 8 * x->peerReset + 16 * x->err + 32 * x->eof + 64 * x->got.size());
        }
        r.state(h);
        dirty = false;
    };
    env.settle();
    for (int d = 0; d < depth && !r.stopped(); ++d)
    {
        struct A { int k; Lk* x; };
        std::vector<A> en;
        unsigned open = 0;
        for (auto& x : L) open += x->open || (!outgoing && !x->l);
        if ((int)open < maxLinks && (int)L.size() < maxLinks + 2) en.push_back({0, nullptr});
        for (auto& x : L)
        {
            if (outgoing && !x->open) en.push_back({1, x.get()});                              // reconnect with the same object
            if (outgoing && x->open && !x->p && !x->refused) { en.push_back({2, x.get()}); en.push_back({3, x.get()}); }
            bool alive = x->p && x->p->alive();
            if (alive) for (int k : {4, 5, 6, 7}) en.push_back({k, x.get()});
            if (x->l && x->open && x->connected) for (int k : {8, 9}) en.push_back({k, x.get()});
            if (x->l && x->open) en.push_back({10, x.get()});
        }
        if (en.empty()) break;
        auto [k, x] = en[r.choose(en.size(), "action")];
        if (r.stopped()) return;
        ++counter;
        auto conn = [&](Lk* y) {
            auto before = env.k.connecting();
            y->l->connect(mkAddr(10, 0, 0, 1, P));
            y->open = true;
            for (auto& c : env.k.connecting()) if (std::find(before.begin(), before.end(), c) == before.end()) y->pendingSock = c;
        };
        switch (k)
        {
        case 0:
        {
            L.push_back(std::make_shared<Lk>());
            Lk* y = L.back().get();
            if (outgoing)
            {
                y->l = R.createLink([&on, y](LinkEvent e) { on(y, e); });
                conn(y);
                r.note("connect");
            }
            else { y->p = env.k.dial(P); queue.push_back(y); r.note("peer connects"); }
            break;
        }
        case 1:
        {
            LinkPtr keep = std::move(x->l);
            *x = Lk{};
            x->l = std::move(keep);
            conn(x);
            r.note("reconnect");
            break;
        }
        case 2: x->p = env.k.establish(x->pendingSock); x->pendingSock.reset(); r.note("established"); break;
        case 3: env.k.refuse(x->pendingSock); x->pendingSock.reset(); x->refused = true; r.note("refused"); break;
        case 4: { std::string b = "d" + std::to_string(counter); x->p->send(b); x->sent += b; r.note("peer sends " + b); break; }
        case 5: { std::string b; for (int i = 0; i < 3000; ++i) b += (char)(i * counter + (i >> 8)); x->p->send(b); x->sent += b; r.note("peer sends 3000 bytes"); break; }
        case 6: x->p->close(); x->peerClosed = true; r.note("peer closes"); break;
        case 7: x->p->reset(); x->peerReset = true; r.note("peer resets"); break;
        case 8: case 9:
        {
            std::string b = "s" + std::to_string(counter) + "-payload";
            if (k == 9 && x->p->alive()) x->p->limitTx(r.choose(3, "kernel accepts") * 4);
            int rc = x->l->send(b.data(), b.size());
            r.note("send -> " + std::to_string(rc));
            if (rc > 0)
            {
                if (x->p->alive() && !x->partial.empty()) {}
                else x->ours += b;
                if (k == 9 && x->p->alive()) { r.fail("an incomplete send is reported as success"); return; }
            }
            else
            {
                if (k == 8 && x->p->alive() && !x->peerClosed && !x->peerReset) { r.fail("a send on a healthy connection is reported as failed"); return; }
                if (x->partial.empty()) x->partial = b;
            }
            if (k == 9 && x->p && x->p->alive()) { x->p->limitTx(-1); if (rc <= 0) { x->l->close(); x->open = false; } }   // the owner gives up on failure
            break;
        }
        case 10: x->l->close(); x->open = false; r.note("owner closes"); break;
        }
        if (races && d + 1 < depth && r.choose(2, "simultaneous")) { dirty = true; continue; }
        check();
    }
    if (dirty) check();
    if (r.stopped()) return;
    for (auto& x : L) { x->l.reset(); x->open = false; }
    ac.reset();
    env.settle();
    if (!r.stopped() && env.k.countOpen(sim::File::Kind::socket)) r.fail("a connection stays open after its release");
    r.outcome(counter);
}
// how connect() itself ends
static void connects(mc::Run& r)
{
    Env env(r);
    auto& R = *env.reactor;
    env.start();
    std::vector<int> ev;
    auto l = R.createLink([&](LinkEvent e) { ev.push_back((int)e); });
    for (int i = 0; i < 3 && !r.stopped(); ++i)
    {
        static int const res[] = {0, 1, -ECONNREFUSED, -ENETUNREACH, -EADDRNOTAVAIL, -EACCES};
        int k = r.choose(6, "connect");
        env.k.connectResult = [&] { return res[k]; };
        ev.clear();
        bool threw = false;
        try { l->connect(mkAddr(10, 0, 0, 1, 77)); } catch (std::exception const&) { threw = true; }
        if (k >= 2)
        {
            if (!threw) { env.settle(); if (ev != std::vector<int>{(int)LinkEvent::error}) { r.fail("a failed connect is not reported"); return; } }
            if (env.k.countOpen(sim::File::Kind::socket)) { r.fail("a failed connect leaves a descriptor"); return; }
        }
        else
        {
            if (threw) { r.fail("a connect in progress is reported as failed"); return; }
            if (k == 0)
            {
                env.settle();
                if (!ev.empty()) { r.fail("an event before the connection is decided"); return; }
                int how = r.choose(3, "then");
                auto c = env.k.connecting();
                if (how == 0) env.k.establish(c[0]); else if (how == 1) env.k.refuse(c[0]); else { auto p = env.k.establish(c[0]); p->send("x"); }
                env.settle();
                if (how == 1 ? ev != std::vector<int>{(int)LinkEvent::error} : ev.empty() || ev[0] != (int)LinkEvent::connected) { r.fail("the outcome of a connect is reported wrongly"); return; }
            }
            else { env.settle(); if (ev.empty() || ev[0] != (int)LinkEvent::connected) { r.fail("the outcome of a connect is reported wrongly"); return; } }
            l->close();
        }
        env.settle();
        r.state(mc::mix(i, k));
    }
}

// a call fails while a connection is made, listened for or accepted: that is reported, or the connection works all the same
static void setupFaults(mc::Run& r)
{
    Env env(r);
    auto& R = *env.reactor;
    env.start();
    static int const errs[] = {EMFILE, ENOMEM, EINTR, EAGAIN, EINVAL};
    int const side = r.choose(3, "connect / listen / accept");
    int const err = errs[r.choose(5, "errno")];
    int left = 1 + r.choose(2, "failures");
    bool on = false;
    int faults = 0;
    env.k.fault = [&](char const* call, int) -> int {
        if (!on || !left || !std::strcmp(call, "close") || !std::strcmp(call, "epoll_wait")) return 0;
        if (!r.choose(2, call)) return 0;
        --left;
        ++faults;
        return !std::strcmp(call, "connect") ? (err == EAGAIN ? ENETUNREACH : err == EINTR ? ECONNREFUSED : err) : err;
    };
    std::vector<int> ev;
    LinkPtr l;
    std::string got;
    // the owner reads until there is nothing left
    auto onEvent = [&](LinkEvent e) {
        ev.push_back((int)e);
        if (e != LinkEvent::data || !l) return;
        for (int i = 0; i < 9; ++i)
        {
            std::uint8_t buf[64];
            auto x = l->receive(buf, sizeof buf);
            if (x.status != LinkResult::ok) break;
            got.append((char*)buf, x.len);
        }
    };
    auto works = [&](sim::PeerPtr const& p) {
        if (!p) { r.fail("a connection is neither made nor reported as failed"); return; }
        p->send("first");
        env.settle();
        p->send("second");
        env.settle();
        if (r.stopped()) return;
        if (got != "firstsecond") { r.fail("data is not delivered on a connection that was not reported as failed"); return; }
        if (l->send("out", 3) <= 0 || p->got != "out") r.fail("data can not be sent on a connection that was not reported as failed");
    };
    for (int i = 0; i < 2 && !r.stopped(); ++i)     // with failures, then without
    {
        ev.clear();
        got.clear();
        on = i == 0;
        bool threw = false;
        if (side == 0)
        {
            if (!l) l = R.createLink(onEvent);
            try { l->connect(mkAddr(10, 0, 0, 1, 77)); } catch (std::exception const&) { threw = true; }
            bool const hit = faults > 0;
            on = false;
            if (threw)
            {
                if (!hit || i) { r.fail("a connect in progress is reported as failed"); return; }
                continue;
            }
            env.settle();
            if (!ev.empty()) { if (ev != std::vector<int>{(int)LinkEvent::error} || !hit || i) { r.fail("the outcome of a connect is reported wrongly"); return; } continue; }
            auto c = env.k.connecting();
            if (c.size() != 1) { r.fail("a failed connect is not reported"); return; }
            auto p = env.k.establish(c[0]);
            on = i == 0;        // what is done when the connection is established may fail, too
            env.settle();
            on = false;
            if (ev == std::vector<int>{(int)LinkEvent::error} && faults && !i) { l->close(); continue; }
            if (ev.empty() || ev[0] != (int)LinkEvent::connected) { r.fail("the outcome of a connect is reported wrongly"); return; }
            works(p);
            l->close();
            env.settle();
            continue;
        }
        bool accepted = false, acceptThrew = false;
        AcceptorPtr* cur = nullptr;
        AcceptorPtr ac = R.createAcceptor([&] {
            on = side == 2 && i == 0;
                        try
            {
                if (!l) l = R.createLink(onEvent);
                (*cur)->accept(*l);
                accepted = true;
            }
            catch (std::exception const&) { acceptThrew = true; l.reset(); }
            on = false;
        });
        cur = &ac;
        on = side == 1 && i == 0;
        try { ac->listen(mkAddr(127, 0, 0, 1, 78)); } catch (std::exception const&) { threw = true; }
        on = false;
        if (threw)
        {
            if (!faults || i) { r.fail("listening fails"); return; }
            continue;
        }
        auto p = env.k.dial(78);
        if (!p) { r.fail("failing to listen is not reported"); return; }
        env.settle();
        if (r.stopped()) return;
        if (!accepted && !acceptThrew) { r.fail("an incoming connection is not reported"); return; }
        if (acceptThrew && (!faults || i)) { r.fail("accepting fails"); return; }
        if (accepted) works(p);
        l.reset();
        ac.reset();
        env.settle();
    }
    if (!r.stopped()) { l.reset(); env.settle(); if (env.k.countOpen(sim::File::Kind::socket)) r.fail("a descriptor is left open"); }
    r.state(mc::mix(side * 8 + faults, err));
}

// ------------------------------------------------------------------ C01: sizes and fill levels of the message store
// (schedules of concurrent senders are explored by h_threads)
struct SizedMsg : public MsgInterface
{
    std::size_t id, len;
    unsigned char data[16384];
    MsgId getMsgId() const override { return id; }
    ComponentId getCompId() const override { return 2; }
    std::size_t size() const override { return len; }
    static constexpr std::size_t head() { return sizeof(MsgInterface) + 2 * sizeof(std::size_t); }
    static unsigned char at(unsigned n, unsigned i) { return n * 31 + i * 7 + (i >> 8); }
};
struct Store
{
    Env env;
    mc::Run& r;
    struct P { unsigned n; std::size_t len; bool may; };
    std::deque<P> expect;
    unsigned next = 1, delivered = 0;
    bool same = false;          // all messages have the same content
    explicit Store(mc::Run& run) : env(run), r(run)
    {
        for (unsigned id = 200; id < 203; ++id)
            env.reactor->registerHandler(id, [this, id](MsgInterface const& mi) {
                auto const& m = static_cast<SizedMsg const&>(mi);
                if (r.stopped()) return;
                ++delivered;
                while (!expect.empty() && expect.front().may && !(expect.front().len == m.len && matches(m, expect.front().n))) expect.pop_front();
                if (expect.empty()) { r.fail("a message arrives that is not expected"); return; }
                auto p = expect.front();
                expect.pop_front();
                if (m.len != p.len || m.getMsgId() != id || id != 200 + p.n % 3) { r.fail("a message of " + std::to_string(p.len) + " bytes is lost or arrives in another order"); return; }
                if (!matches(m, p.n)) r.fail("a message of " + std::to_string(p.len) + " bytes arrives with other content");
            });
    }
    static bool matches(SizedMsg const& m, unsigned n)
    {
        for (std::size_t i = 0; i + SizedMsg::head() < m.len; ++i) if (m.data[i] != SizedMsg::at(n, i)) return false;
        return true;
    }
    // the message lies in a block of exactly its size
    void post(std::size_t len, unsigned waiting)
    {
        if (r.stopped()) return;
        unsigned const n = same ? 6 : next;
        ++next;
        auto* mem = static_cast<SizedMsg*>(::operator new(std::max(len, sizeof(SizedMsg))));
        auto* m = new (mem) SizedMsg;
        m->id = 200 + n % 3;
        m->len = len;
        for (std::size_t i = 0; i + SizedMsg::head() < len; ++i) m->data[i] = SizedMsg::at(n, i);
        // one that does not fit into a slot, or finds no free slot, must be dropped; close to the size of a slot either is right
        bool const fits = len <= 4080 && waiting < 64, drop = len > 4096 || waiting >= 64;
        if (!drop) expect.push_back({n, len, !fits});
        env.reactor->send(*m);
        m->~SizedMsg();
        ::operator delete(mem);
    }
    void drain()
    {
        env.settle();
        while (!expect.empty() && expect.front().may) expect.pop_front();
        if (!r.stopped() && !expect.empty()) r.fail("a message of " + std::to_string(expect.front().len) + " bytes is lost");
        r.state(mc::mix(next, delivered));
    }
};
static void msgSizes(mc::Run& r)
{
    int const block = r.choose(84, "block of sizes");
    int const with = r.choose(3, "alone / between others / many");
    Store s(r);
    s.env.start();
    std::vector<std::size_t> lens;
    for (int i = 0; i < 50; ++i) { std::size_t n = SizedMsg::head() + block * 50 + i; lens.push_back(n); }
    if (block == 83) for (std::size_t n : {4200, 5000, 8192, 16000}) lens.push_back(n);
    unsigned waiting = 0;
    for (auto n : lens)
    {
        if (with) { s.post(40, waiting); ++waiting; }
        s.post(n, waiting);
        if (n <= 4096) ++waiting;
        if (with) { s.post(1000, waiting); ++waiting; }
        if (with < 2 || waiting > 50) { s.drain(); waiting = 0; }
        if (r.stopped()) return;
    }
    s.drain();
    r.outcome(s.delivered);
}
// every sequence of bursts: what fits is delivered, what does not is dropped, and all slots are available again
static void msgBursts(mc::Run& r, int depth)
{
    static unsigned const sizes[] = {1, 2, 31, 33, 62, 63, 64, 65, 70, 128};
    Store s(r);
    s.env.start();
    for (int i = 0; i < depth && !r.stopped(); ++i)
    {
        unsigned n = sizes[r.choose(10, "burst")];
        for (unsigned k = 0; k < n; ++k) s.post(48 + k % 7, k);
        s.drain();
    }
    for (int i = 0; i < 3 && !r.stopped(); ++i) { for (unsigned k = 0; k < 64; ++k) s.post(64, k); s.drain(); }
    r.outcome(s.delivered);
}
// the same message again and again
static void msgRepeated(mc::Run& r)
{
    static unsigned const counts[] = {2, 3, 5, 64};
    unsigned const n = counts[r.choose(4, "messages")];
    int const len = r.choose(3, "length"), apart = r.choose(3, "together / apart / with time in between");
    Store s(r);
    s.same = true;
    s.env.start();
    for (int round = 0; round < 3 && !r.stopped(); ++round)
    {
        for (unsigned k = 0; k < n && !r.stopped(); ++k)
        {
            s.post(len == 0 ? SizedMsg::head() : len == 1 ? 100 : 4000, apart ? 0 : k);
            if (apart) s.drain();
            if (apart == 2) s.env.k.advanceTo(s.env.k.now + 1000000000);
        }
        s.drain();
    }
    r.outcome(s.delivered);
}
// so many messages that every counter has wrapped
static void msgMany(mc::Run& r)
{
    static unsigned const sizes[] = {1, 3, 61, 64, 65};
    unsigned const n = sizes[r.choose(5, "burst")];
    Store s(r);
    s.env.maxWaits = 100000000;
    s.env.start();
    for (unsigned total = 0; total < 70000 && !r.stopped(); total += n)
    {
        for (unsigned k = 0; k < n; ++k) s.post(48 + k % 7, k);
        s.drain();
    }
    r.outcome(s.delivered);
}
// bursts from handlers: a handler posts while the backlog it is working off is (nearly) full
static void msgNested(mc::Run& r)
{
    static unsigned const fill[] = {1, 2, 32, 62, 63, 64};
    unsigned const n = fill[r.choose(6, "waiting")];
    unsigned const each = 1 + r.choose(3, "posted by the first handlers");
    unsigned const who = r.choose(5, "handlers that post");
    Store s(r);
    unsigned calls = 0, pending = 0;
    s.env.reactor->registerHandler(300, [&](MsgInterface const&) {
        --pending;
        if (calls++ > who) return;
        for (unsigned i = 0; i < each; ++i) { s.post(50 + i, pending); if (pending < 64) ++pending; }
    });
    for (unsigned id = 200; id < 203; ++id) (void)id;
    s.env.start();
    SizedMsg m;
    m.id = 300;
    m.len = SizedMsg::head();
    for (unsigned i = 0; i < n; ++i) { s.env.reactor->send(m); ++pending; }
    s.drain();
    for (int i = 0; i < 2 && !r.stopped(); ++i) { for (unsigned k = 0; k < 64; ++k) s.post(64, k); s.drain(); }
    r.outcome(mc::mix(s.delivered, calls));
}

int main(int argc, char** argv)
{
    return mc::main(argc, argv, [](std::string const& prop, bool th) {
        g_prop = prop;
        std::vector<mc::Scenario> v;
        if (prop == "C01")
        {
            v.push_back({"sizes", "messages of every size up to 4.2 KB and some larger ones, alone and between others", msgSizes});
            v.push_back({"bursts", "all sequences of " + std::string(th ? "4" : "3") + " bursts of 10 sizes around the capacity", [th](mc::Run& r) { msgBursts(r, th ? 4 : 3); }});
            v.push_back({"many", "70000 messages in one life, in bursts of 5 sizes", msgMany});
            v.push_back({"repeated", "2-64 equal messages of 3 lengths, together or apart", msgRepeated});
            v.push_back({"nested", "handlers posting at 6 fill levels", msgNested});
        }
        if (prop == "C02")
        {
            int n = th ? 4 : 3;
            v.push_back({"dispatch", "every ordered selection of " + std::to_string(n) + " of 10 kinds of events due in one wake-up x up to 2 effects (throw, release self/other, re-create, post) in the handlers", [n](mc::Run& r) { dispatch(r, n, 2, 0); }});
            v.push_back({"dispatchFull", "the same with 2 (thorough 3) events and exhausted pools, so that re-created resources take over slots and descriptors", [th](mc::Run& r) { dispatch(r, th ? 3 : 2, 2, 1); }});
            v.push_back({"throwing", "bursts of 1-7 messages, each handler returning or throwing", throwing});
            v.push_back({"captures", "5 kinds of events x handlers that keep, release, replace or re-equip their resource x full pools", captures});
            v.push_back({"crowd", "12-30 timers, 0-20 connections, 0-60 messages due at once; some released by the first handler", crowd});
        }
        if (prop == "C03")
        {
            int n = th ? 6 : 5;
            v.push_back({"resources1", "all sequences of " + std::to_string(n) + " operations on 2 resources with one failing call anywhere", [n](mc::Run& r) { resources(r, n, 1); }});
            v.push_back({"resources2", "all sequences of " + std::to_string(n - 1) + " operations with up to two failing calls", [n](mc::Run& r) { resources(r, n - 1, 2); }});
            v.push_back({"acceptInto", "links in 4 states taking up to 3 accepted connections", acceptInto});
            v.push_back({"churn", "40 rounds of creating up to the capacity of each kind and releasing in 3 orders", [](mc::Run& r) { churn(r, 40); }});
            v.push_back({"churnLong", "70000 rounds of creating and releasing one of each kind", [](mc::Run& r) { churn(r, 70000); }});
        }
        if (prop == "C04")
        {
            int n = th ? 5 : 4;
            v.push_back({"intervals", "26 intervals x 18 clock positions x replaced deadlines", intervals});
            v.push_back({"timerFaults", "4 rounds of creating, starting, stopping with up to 2 failing calls", timerFaults});
            v.push_back({"timers", "all sequences of " + std::to_string(n) + " operations on 2 timers (start, stop, release, re-create, time, pending expiry)", [n](mc::Run& r) { timers(r, n, 2, false); }});
            v.push_back({"handlers", "all sequences of " + std::to_string(n) + " operations on 2 timers with up to 2 effects in handlers", [n](mc::Run& r) { timers(r, n, 2, true); }});
            v.push_back({"three", "all sequences of " + std::to_string(n - 1) + " operations on 3 timers with up to 2 effects in handlers", [n](mc::Run& r) { timers(r, n - 1, 3, true); }});
        }
        if (prop == "C05")
        {
            int n = th ? 8 : 7;
            v.push_back({"addresses", "6 values per address byte x 12 ports, connecting and listening", addresses});
            v.push_back({"connects", "all triples of connect outcomes", connects});
            v.push_back({"setupFaults", "up to 2 failing calls anywhere while connecting, listening or accepting, 5 errors", setupFaults});
            v.push_back({"outgoing", "all sequences of " + std::to_string(n) + " actions on an outgoing connection", [n](mc::Run& r) { links(r, n, true, 4096, false, 1); }});
            v.push_back({"outgoingSmall", "the same read in 7-byte pieces", [n](mc::Run& r) { links(r, n - 1, true, 7, false, 1); }});
            v.push_back({"incoming", "all sequences of " + std::to_string(n) + " actions on up to two accepted connections", [n](mc::Run& r) { links(r, n, false, 4096, false, 2); }});
            v.push_back({"races", "all sequences of " + std::to_string(n - 1) + " actions, any of them simultaneous", [n](mc::Run& r) { links(r, n - 1, true, 4096, true, 2); }});
            v.push_back({"incomingRaces", "all sequences of " + std::to_string(n - 1) + " actions on accepted connections, any of them simultaneous", [n](mc::Run& r) { links(r, n - 1, false, 1000, true, 2); }});
        }
        return v;
    });
}
