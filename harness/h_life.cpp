// C22: the whole application as deployed (real Deployer, ReactorManager, four real Reactors with their components) on the
// simulated kernel.  Every reactor thread is a fiber; the schedule, the moments of the start and stop requests, the
// clients and failing calls are chosen exhaustively within the bounds.
#include <array>
#include <cstring>
#include "env.hpp"
#include "ua.hpp"
#include "mbus.hpp"
#include "Deployer.hpp"
#include "ReactorManager.hpp"
#include "ComponentInterface.hpp"
#include "MsgControllerStartReq.hpp"
#include "MsgControllerStopReq.hpp"
#include "ModbusComponent.hpp"
#include "ControllerComponent.hpp"
#include "UaTransportComponent.hpp"
#include "UaSecureChannelComponent.hpp"
#include "UaServiceComponent.hpp"
#include "MsgModbusInitReq.hpp"
#include "MsgUaServiceConfigRsp.hpp"
#include "MsgUaServiceReleaseRsp.hpp"
#include "MsgUaServiceInitRsp.hpp"
#include "MsgUaSecureChannelConfigRsp.hpp"
#include "MsgUaSecureChannelReleaseRsp.hpp"
#include "MsgUaSecureChannelInitRsp.hpp"
#include "MsgUaTransportConfigRsp.hpp"
#include "MsgUaTransportReleaseRsp.hpp"
#include "MsgUaTransportInitRsp.hpp"
#include "MsgModbusInitRsp.hpp"
#include "MsgModbusReleaseReq.hpp"
#include "MsgModbusReleaseRsp.hpp"
#include "MsgModbusConfigReq.hpp"
#include "MsgModbusConfigRsp.hpp"
#include "MsgModbusClientAduReq.hpp"
#include "MsgModbusClientAduRsp.hpp"
#include "MsgModbusAduReq.hpp"
#include "MsgModbusAduRsp.hpp"

using namespace app;
using uasrv::SEC;
using uasrv::MS;

static constexpr std::uint16_t MODBUS = 0x2f71, UA = 0x1111;

struct Life
{
    mc::Run& r;
    sim::Kernel k;
    std::unique_ptr<reactor::ReactorManager> mgr;
    struct Thr { std::unique_ptr<sim::Fiber> f; std::int64_t wake = -1; };
    std::vector<std::unique_ptr<Thr>> thr;
    std::map<int, unsigned> baseline;
    // scheduling
    int budget = 0;                 // deviations from the round robin schedule still allowed
    bool fine = false;              // reactors may be interrupted after every message they post
    unsigned last = 0, points = 0;
    unsigned waits = 0;
    // loop-back network: the client of the application connects to its own server
    struct Pair { sim::PeerPtr a, b; std::size_t ab = 0, ba = 0; };
    std::vector<Pair> net;
    std::uint64_t trail = 0;

    explicit Life(mc::Run& run) : r(run)
    {
        setLogs(r.tracing() && std::getenv("VERIF_LOGS"));
        k.anomaly = [this](std::string const& s) { r.fail(s); };
        k.onCall = [this](char const* c, int fd) {
            if (c[0] == 'e' && !std::strcmp(c, "epoll_wait") && ++waits > 20000) 
            {
                // a connection that can not be accepted keeps the listener ready: the shortage ends now
                if (k.fault) { waits = 0; k.fault = nullptr; return; }
                if (!stopped()) r.fail("an event loop spins without making progress");
                while (sim::Fiber::current() && !k.closing) sim::Fiber::yield();
            }
            if (fine && budget > 0 && !k.closing && c[0] == 'w' && sim::Fiber::current() && std::dynamic_pointer_cast<sim::EventFile>(k.get(fd))) sim::Fiber::yield();
        };
        sim::onThreadCreate = [this](void* (*fn)(void*), void* arg, unsigned long* id) {
            if (createFails && ++created == createFails) return EAGAIN;
            thr.push_back(std::make_unique<Thr>());
            thr.back()->f = std::make_unique<sim::Fiber>([fn, arg] { fn(arg); });
            *id = thr.size();
            return 0;
        };
        sim::onThreadJoin = [this](unsigned long id) {
            if (stopped() || hopeless) return 0;
            if (id == 0 || id > thr.size()) { r.fail("a thread is joined that was never created"); return ESRCH; }
            auto* t = thr[id - 1].get();
            // at most a minute: a loop that was asked to stop notices it within its own time-out
            std::int64_t const end = k.now + 60 * SEC;
            while (!t->f->done && k.now < end)
            {
                if (step()) continue;
                std::int64_t d = k.now + SEC;       // time-out of epoll_wait
                for (auto& o : thr) if (o->wake >= 0) d = std::min(d, o->wake);
                std::int64_t td;
                if (k.nextDeadline(td)) d = std::min(d, std::max(td, k.now + 1));
                k.advanceTo(d);
                pollTimeouts = true;
            }
            if (!t->f->done) { r.fail("a thread never ends"); abandon(); }
            return 0;
        };
        sim::onSleep = [this](std::int64_t ns) {
            if (auto* f = sim::Fiber::current())
            {
                for (auto& t : thr) if (t->f.get() == f) { t->wake = k.now + ns; while (k.now < t->wake && !k.closing) sim::Fiber::yield(); t->wake = -1; }
            }
            else runUntil(k.now + ns);
        };
    }
    bool pollTimeouts = false;
    bool hopeless = false;          // a failure was found: the threads are not run any more
    unsigned createFails = 0, created = 0;
    ~Life()
    {
        end();
        sim::onThreadCreate = nullptr;
        sim::onThreadJoin = nullptr;
        sim::onSleep = nullptr;
    }
    // give up on the threads after a failure
    void abandon()
    {
        hopeless = true;    }
    void end()
    {
        if (!mgr) return;
        fine = false;
        mgr.reset();
        for (auto& t : thr) if (!t->f->done) { if (!stopped()) r.fail("a thread runs on after the application has ended"); break; }
        if (!stopped() && !k.files.empty()) r.fail("descriptors are left open after the end of the application");
    }
    bool stopped() const { return r.stopped(); }

    // ---- schedule ------------------------------------------------------------------------------------------------
    bool runnable(unsigned i)
    {
        if (i == thr.size()) return netReady();
        auto& t = *thr[i];
        if (t.f->done) return false;
        if (t.wake >= 0) return k.now >= t.wake;
        if (t.f->idle) return k.hasEvents(t.f->epfd) || pollTimeouts;
        return true;
    }
    bool step()
    {
        std::vector<unsigned> c;
        unsigned const n = thr.size() + 1;
        for (unsigned i = 0; i < n; ++i) { unsigned j = (last + i) % n; if (runnable(j)) c.push_back(j); }
        if (c.empty()) return false;
        unsigned pick = 0;
        if (c.size() > 1 && budget > 0 && fine) { pick = r.choose(c.size(), "schedule"); if (pick) --budget; }
        unsigned const i = c[pick];
        last = i;
        ++points;
        r.step();
        trail = mc::mix(trail, i);
        if (i == thr.size()) pump();
        else
        {
            bool const poll = pollTimeouts && thr[i]->f->idle && !k.hasEvents(thr[i]->f->epfd);
            thr[i]->f->expire = poll;
            thr[i]->f->resume();
        }
        if (i == thr.size() - 1 || n == 1) pollTimeouts = false;
        return true;
    }
    bool netReady()
    {
        for (auto& s : k.connecting()) { (void)s; return true; }
        for (auto& p : net)
        {
            if (p.a->got.size() > p.ab && !p.b->sutClosed) return true;
            if (p.b->got.size() > p.ba && !p.a->sutClosed) return true;
            if (p.a->sutClosed && !p.b->closed) return true;
            if (p.b->sutClosed && !p.a->closed) return true;
        }
        return false;
    }
    void pump()
    {
        for (auto& s : k.connecting())
        {
            auto b = k.dial(s->port);
            if (!b) k.refuse(s);
            else net.push_back({k.establish(s), b});
        }
        for (auto& p : net)
        {
            if (p.a->got.size() > p.ab) { p.b->send(p.a->got.substr(p.ab)); p.ab = p.a->got.size(); }
            if (p.b->got.size() > p.ba) { p.a->send(p.b->got.substr(p.ba)); p.ba = p.b->got.size(); }
            if (p.a->sutClosed && !p.b->closed) p.b->close();
            if (p.b->sutClosed && !p.a->closed) p.a->close();
        }
    }
    bool nextTime(std::int64_t& d)
    {
        bool any = k.nextDeadline(d);
        for (auto& t : thr) if (t->wake >= 0 && (!any || t->wake < d)) { d = t->wake; any = true; }
        return any;
    }
    // run everything up to the given moment
    void runUntil(std::int64_t end)
    {
        waits = 0;
        while (!stopped())
        {
            if (step()) continue;
            std::int64_t d;
            if (!nextTime(d) || d > end) break;
            if (d > k.now) waits = 0;
            k.advanceTo(std::max(d, k.now));
        }
        if (k.now < end && !stopped()) k.advanceTo(end);
    }
    // run a chosen number of scheduling points (at most max), then at chosen moments up to `end`
    void runSome(unsigned max, std::int64_t end, char const* label)
    {
        unsigned const n = r.choose(max + 1, label);
        r.note(std::string(label) + " after " + std::to_string(n) + " steps");
        waits = 0;
        for (unsigned i = 0; i < n && !stopped(); ++i)
        {
            if (step()) continue;
            std::int64_t d;
            if (!nextTime(d) || d > end) break;
            k.advanceTo(std::max(d, k.now));
        }
    }

    // ---- actions ---------------------------------------------------------------------------------------------------
    void launch()
    {
        mgr = std::make_unique<reactor::ReactorManager>();
        Deployer().apply(*mgr, DeploymentType::cpu3);
        mgr->start();
        runUntil(k.now + 10 * MS);
        for (auto& f : k.files) ++baseline[(int)f.second->kind];
    }
    void startReq() { r.note("start request"); MsgControllerStartReq m; mgr->send(m); }
    void stopReq() { r.note("stop request"); MsgControllerStopReq m; mgr->send(m); }
    void cmd(bool start) { if (start) startReq(); else stopReq(); }

    // ---- rules -----------------------------------------------------------------------------------------------------
    static std::string list(std::map<int, unsigned> const& m)
    {
        static char const* n[] = {"epoll", "event", "timer", "socket"};
        std::string s;
        for (auto& p : m) s += " " + std::to_string(p.second) + " " + n[p.first];
        return s;
    }
    void checkDown(char const* when)
    {
        if (stopped()) return;
        std::map<int, unsigned> m;
        for (auto& f : k.files) ++m[(int)f.second->kind];
        if (m != baseline) r.fail(std::string(when) + ": not everything was released, open:" + list(m) + ", before the start:" + list(baseline));
        for (auto& p : k.peers) if (!p->sutClosed && !stopped()) r.fail(std::string(when) + ": a connection is left open");
    }
    bool listens(std::uint16_t port) { for (auto& l : k.listeners()) if (l->port == port) return true; return false; }
    void checkUp(char const* when, bool modbus = true, bool ua = true)
    {
        if (stopped()) return;
        if (modbus && !listens(MODBUS)) { r.fail(std::string(when) + ": the modbus server does not listen"); return; }
        if (ua && !listens(UA)) { r.fail(std::string(when) + ": the OPC UA server does not listen"); return; }
        if (k.listeners().size() > 2) { r.fail(std::string(when) + ": more listeners than configured"); return; }
        if (modbus)
        {
            unsigned live = 0;
            for (auto& p : net) live += !p.a->sutClosed && p.b->accepted && !p.b->sutClosed;
            if (live != 1) { r.fail(std::string(when) + ": the modbus client has " + std::to_string(live) + " connections to the server"); return; }
        }
        if (ua) converse(when);
    }
    // a complete conversation with the OPC UA server
    void converse(char const* when)
    {
        using namespace uasrv;
        auto p = k.dial(UA);
        auto ask = [&](std::string const& what, std::string const& m) -> std::string {
            std::size_t const at = p->got.size();
            p->send(m);
            runUntil(k.now + MS);
            if (!stopped() && p->got.size() == at) r.fail(std::string(when) + ": no response to " + what);
            return p->got.substr(at);
        };
        ask("Hello", hello());
        if (stopped()) return;
        std::string o = ask("OpenSecureChannel", opn(51, 1, 0x1000));
        if (stopped()) return;
        auto u32at = [&](std::string const& s, std::size_t i) { std::uint32_t v = 0; if (s.size() >= i + 4) std::memcpy(&v, s.data() + i, 4); return v; };
        std::uint32_t const chan = u32at(o, 8);
        // token id: type id, response header, server protocol version, channel id, token id
        std::size_t pos = 12 + 4 + u32at(o, 12) + 8 + 8;
        std::size_t const bodyAt = pos;
        (void)bodyAt;
        std::size_t const hdr = uaref::nodeId(0, 449).size() + 8 + 4 + 4 + 1 + 4 + 3;
        std::uint32_t const tok = u32at(o, pos + hdr + 4 + 4);
        std::string g = ask("GetEndpoints", secured("MSG", chan, tok, 52, 2, body(GetEndpoints, uaref::nodeId(0, 0), 0x1001)));
        if (stopped()) return;
        if (g.substr(0, 4) != "MSGF") r.fail(std::string(when) + ": GetEndpoints is answered with something else");
        p->close();
        runUntil(k.now + MS);
        if (!stopped() && !p->sutClosed) r.fail(std::string(when) + ": the connection of a client that left stays open");
    }
    void cycle(char const* what)
    {
        if (stopped()) return;
        fine = false;
        startReq();
        runUntil(k.now + 4 * SEC);
        checkUp((std::string(what) + ", started").c_str());
        if (stopped()) return;
        stopReq();
        runUntil(k.now + SEC);
        checkDown((std::string(what) + ", stopped").c_str());
    }
    void finish()
    {
        if (stopped()) return;
        mgr->stop();
        for (auto& t : thr) if (!t->f->done && !stopped()) r.fail("a thread runs on after the application was stopped");
        r.outcome(mc::mix(trail, k.calls));
        r.state(trail);
    }
};

// sequences of requests at all moments -------------------------------------------------------------------------------------
static int g_th = 0;

static void sequence(mc::Run& r, int len, unsigned window, int budget, int secs = 4)
{
    Life w(r);
    w.launch();
    w.budget = budget;
    w.fine = budget > 0;
    bool up = false;
    for (int i = 0; i < len && !w.stopped(); ++i)
    {
        up = r.choose(2, "request") == 0;
        w.cmd(up);
        if (i + 1 < len) w.runSome(window, w.k.now + secs * SEC, "next request");
    }
    w.runUntil(w.k.now + (up ? 6 : 3) * SEC);
    if (up) w.checkUp("after the start"); else w.checkDown("after the stop");
    if (!up) w.cycle("new start");
    else if (!w.stopped()) { w.stopReq(); w.runUntil(w.k.now + SEC); w.checkDown("after the last stop"); w.cycle("new start"); }
    w.finish();
}
static void seq2(mc::Run& r) { sequence(r, 2, g_th ? 1200 : 600, 0, 20); }
static void seq2d(mc::Run& r) { sequence(r, 2, g_th ? 60 : 40, g_th ? 2 : 1); }
static void seq3(mc::Run& r) { sequence(r, 3, g_th ? 120 : 50, 0); }
static void seq4(mc::Run& r) { sequence(r, 4, g_th ? 24 : 8, 0); }
static void startOnly(mc::Run& r) { sequence(r, 1, 0, g_th ? 3 : 2); }

// the application is ended at any moment ------------------------------------------------------------------------------------
static void shutdownAny(mc::Run& r)
{
    Life w(r);
    int const pre = r.choose(4, "requests");
    int const how = r.choose(2, "stop the manager first");
    w.launch();
    w.budget = 1;
    w.fine = true;
    if (pre > 0) w.startReq();
    if (pre == 2) { w.runUntil(w.k.now + 4 * SEC); w.stopReq(); }
    if (pre == 3) { w.runUntil(w.k.now + 4 * SEC); w.k.dial(UA); w.k.dial(MODBUS); }
    w.runSome(g_th ? 250 : 80, w.k.now + 4 * SEC, "end");
    if (w.stopped()) return;
    if (how) w.mgr->stop();
    w.end();
    r.outcome(mc::mix(w.trail, w.k.calls));
}
static void brokenSetup(mc::Run& r)
{
    Life w(r);
    int const what = r.choose(4, "call");
    unsigned n = 1 + r.choose(5, "which");
    static char const* calls[] = {"epoll_create", "eventfd", "epoll_ctl"};
    if (what < 3) w.k.fault = [&, what](char const* c, int) { return !std::strncmp(c, calls[what], std::strlen(calls[what])) && n && !--n ? what == 2 ? ENOSPC : EMFILE : 0; };
    else w.createFails = n;
    bool reported = false;
    try { w.launch(); } catch (std::exception const&) { reported = true; }
    if (!w.mgr) return;
    w.k.fault = nullptr;
    if (!reported && !w.createFails && !w.stopped()) // nothing was reported, so everything works
    {
        w.startReq();
        w.runUntil(w.k.now + 4 * SEC);
        w.checkUp("after a setup that reported no failure");
        if (!w.stopped()) { w.stopReq(); w.runUntil(w.k.now + SEC); w.checkDown("after the stop"); }
    }
    w.end();
}

// clients connected while the application is stopped and started again ------------------------------------------------------
static void clients(mc::Run& r)
{
    using namespace uasrv;
    Life w(r);
    int const stage = r.choose(5, "UA client"), mb = r.choose(4, "modbus client"), back = r.choose(3, "restart");
    w.launch();
    w.startReq();
    w.runUntil(w.k.now + 4 * SEC);
    if (w.stopped()) return;
    auto p = w.k.dial(UA), q = w.k.dial(MODBUS);
    w.runUntil(w.k.now + MS);
    if (stage > 0) p->send(hello());
    if (stage > 1) { w.runUntil(w.k.now + MS); p->send(opn(51, 1, 0x1000)); }
    if (stage > 2) { w.runUntil(w.k.now + MS); p->send(secured("MSG", 1, 1, 52, 2, body(GetEndpoints, uaref::nodeId(0, 0), 0x1001))); }
    if (stage > 3) { p->send(hello().substr(0, 9)); }
    std::string const req = mbref::frame(3, 1, bytes({4}) + be16(10) + be16(2));
    if (mb == 1) q->send(req.substr(0, 7));
    if (mb == 2) q->send(req);
    if (mb == 3) { q->send(req); w.k.dial(MODBUS)->send(req); w.k.dial(UA); }
    w.budget = g_th ? (back == 2 ? 1 : 2) : back == 2 || (stage != 3 && mb != 2) ? 0 : 1;
    w.fine = true;
    w.runSome(g_th ? 60 : 20, w.k.now + SEC, "stop");
    w.stopReq();
    if (back) { w.runSome(back == 1 ? 0 : g_th ? 40 : 6, w.k.now + SEC, "start"); w.startReq(); w.runUntil(w.k.now + 5 * SEC); w.checkUp("after the restart"); if (!w.stopped()) w.stopReq(); }
    w.runUntil(w.k.now + SEC);
    w.checkDown("after the stop");
    w.cycle("new start");
    w.finish();
}

// failing calls during the start ----------------------------------------------------------------------------------------------
static void failures(mc::Run& r)
{
    Life w(r);
    w.launch();
    static char const* calls[] = {"socket", "bind", "listen", "epoll_ctl", "timerfd_create", "connect", "fcntl", "setsockopt", "accept"};
    int const what = r.choose(9, "call");
    unsigned left = r.choose(g_th ? 12 : 6, "which");
    bool const once = r.choose(2, "times") == 0;
    bool done = false;
    w.k.fault = [&, what](char const* c, int) {
        if (done || std::strcmp(c, calls[what])) return 0;
        if (left) { --left; return 0; }
        done = once;
        return what == 1 ? EADDRINUSE : what == 3 ? ENOSPC : EMFILE;
    };
    w.startReq();
    w.runUntil(w.k.now + 4 * SEC);
    w.k.fault = nullptr;
    w.runUntil(w.k.now + SEC);
    if (w.stopped()) return;
    w.stopReq();
    w.runUntil(w.k.now + SEC);
    w.checkDown("after the stop");
    w.cycle("new start");
    w.finish();
}
// a port is taken: the other server works nevertheless and a new start succeeds when the port is free
static void portTaken(mc::Run& r)
{
    Life w(r);
    int const which = r.choose(2, "port");
    w.launch();
    // somebody else listens there
    auto foreign = std::make_shared<sim::SocketFile>();
    foreign->kind = sim::File::Kind::socket;
    foreign->st = sim::SocketFile::St::listening;
    foreign->port = which ? UA : MODBUS;
    int const fd = w.k.alloc(foreign);
    w.startReq();
    w.runUntil(w.k.now + 4 * SEC);
    bool up = false;
    for (auto& l : w.k.listeners()) up |= l->port == (which ? MODBUS : UA);
    if (!w.stopped() && !up && which) r.fail("the modbus server does not listen although only the other port is taken");
    if (!w.stopped() && !up && !which) r.fail("the OPC UA server does not listen although only the other port is taken");
    if (w.stopped()) return;
    if (!which)
    {
        // the client is configured nevertheless: it talks to whoever listens there
        std::size_t n = 0;
        for (auto& p : w.net) n += p.a->got.size();
        if (!n) r.fail("the modbus client does not work although only the port of the server is taken");
    }
    int const order = r.choose(2, "port becomes free");
    if (order) w.k.files.erase(fd);
    w.stopReq();
    w.runUntil(w.k.now + SEC);
    if (!order) w.k.files.erase(fd);
    for (auto& p : w.k.peers) p->sutClosed = true;
    w.checkDown("after the stop");
    w.cycle("new start");
    w.finish();
}

// requests of foreign modbus clients --------------------------------------------------------------------------------------------
static void requests(mc::Run& r)
{
    Life w(r);
    static unsigned const tids[] = {0, 1, 2, 3, 12, 14, 15, 16, 17, 255, 256, 0x7fff, 0x8000, 0xffff};
    static unsigned const funcs[] = {3, 4, 5, 6, 16, 1, 2, 7, 0x2b};
    static unsigned const starts[] = {0, 1, 889, 890, 1000, 1022, 1023, 1024, 1025, 0x7fff, 0x8000, 0xffff};
    static unsigned const nums[] = {0, 1, 2, 100, 123, 125, 126, 1000, 0xffff};
    unsigned const tid = tids[r.choose(14, "transaction")], func = funcs[r.choose(9, "function")], start = starts[r.choose(12, "start")], num = nums[r.choose(9, "number")];
    if (!g_th && tid > 3 && tid != 14 && num != 0 && num != 1 && num != 125 && num != 0xffff) return;
    w.launch();
    w.startReq();
    w.runUntil(w.k.now + 2500 * MS);
    if (w.stopped()) return;
    auto q = w.k.dial(MODBUS);
    if (!q) { r.fail("the modbus server does not listen"); return; }
    w.runUntil(w.k.now + MS);
    std::string pdu = std::string(1, (char)func) + be16(start);
    if (func == 5 || func == 6) pdu += be16(num);
    else pdu += be16(num);
    if (func == 16) { unsigned const n = std::min(num, 123u); pdu = std::string(1, (char)func) + be16(start) + be16(num) + std::string(1, (char)(n * 2)) + std::string(n * 2, 'x'); }
    q->send(mbref::frame(tid, 1, pdu));
    w.runUntil(w.k.now + 100 * MS);
    if (!w.stopped() && !q->got.empty())
    {
        if (q->got.size() < 9 || q->got.substr(0, 2) != be16(tid)) r.fail("the response belongs to another request");
    }
    w.checkUp("after the request");
    if (!w.stopped()) { w.stopReq(); w.runUntil(w.k.now + SEC); w.checkDown("after the stop"); }
    w.finish();
    r.outcome(mc::mixs(1, q->got));
}
// the application's own exchange goes on for a long time, through several rounds
static void longRun(mc::Run& r)
{
    Life w(r);
    w.launch();
    w.budget = g_th ? 2 : 1;
    w.startReq();
    w.runUntil(w.k.now + 2100 * MS);
    w.fine = true;
    for (int i = 0; i < 8 && !w.stopped(); ++i)
    {
        w.runUntil(w.k.now + 7 * SEC);
        w.fine = false;
        w.checkUp("while running");
    }
    if (!w.stopped()) { w.stopReq(); w.runUntil(w.k.now + SEC); w.checkDown("after the stop"); }
    w.finish();
}

// one component at a time: every order of its requests -------------------------------------------------------------------------
struct Comp
{
    mc::Run& r;
    Env env;
    std::size_t base = 0, at = 0;
    explicit Comp(mc::Run& run) : r(run), env(run, run.tracing() && std::getenv("VERIF_LOGS")) {}
    unsigned count(std::size_t id) { unsigned n = 0; for (std::size_t i = at; i < env.sent.size(); ++i) n += env.sent[i].id == id && env.sent[i].comp == compController; return n; }
    template <class M> void post() { reactor::MsgStore<M> s; env.post(s); }
    void begin() { at = env.sent.size(); }
    void expect(std::size_t id, char const* what)
    {
        if (r.stopped()) return;
        unsigned const n = count(id);
        if (n != 1) { r.fail(std::string(what) + ": " + std::to_string(n) + " responses to the controller"); return; }
        if (env.sent.size() - at != 1) r.fail(std::string(what) + ": more than the response is sent");
    }
    void released(char const* what)
    {
        if (!r.stopped() && env.k.files.size() != base) r.fail(std::string(what) + ": " + std::to_string(env.k.files.size() - base) + " descriptors are left");
    }
};

static void modbusProtocol(mc::Run& r)
{
    Comp c(r);
    c.env.local = {compModbus};
    std::unique_ptr<reactor::ComponentInterface> comp(new modbus::ModbusComponent(c.env, *c.env.reactor));
    c.env.start();
    c.base = c.env.k.files.size();
    bool inited = false;
    unsigned nServers = 0, nClients = 0;
    std::set<unsigned> listening, dialled;
    int const depth = g_th ? 6 : 5;
    for (int d = 0; d < depth && !r.stopped(); ++d)
    {
        int const op = r.choose(8, "operation");
        c.begin();
        if (op < 2)
        {
            reactor::MsgStore<MsgModbusInitReq> s;
            s.getMsg().maxNumServers = nServers = op ? 2 : 1;
            s.getMsg().maxNumClients = nClients = op ? 2 : 1;
            c.env.post(s);
            c.env.settle();
            r.note("init");
            c.expect(MsgModbusInitRsp::msgId(), "init");
            c.released("init");
            inited = true;
            listening.clear();
            dialled.clear();
        }
        else if (op == 2)
        {
            c.post<MsgModbusReleaseReq>();
            c.env.settle();
            r.note("release");
            c.expect(MsgModbusReleaseRsp::msgId(), "release");
            c.released("release");
            inited = false;
            listening.clear();
            dialled.clear();
        }
        else if (op < 6)
        {
            // items: (server or client, id)
            static std::vector<std::pair<bool, unsigned>> const sets[] = {{{false, 0}, {true, 0}}, {{true, 1}, {true, 0}, {false, 1}}, {{true, 2}, {false, 7}, {true, 0xffffffffu}, {false, 0}}};
            auto const& items = sets[op - 3];
            reactor::MsgStore<MsgModbusConfigReq> s;
            auto& m = s.getMsg();
            m.numItems = 0;
            for (auto& it : items)
            {
                auto& x = m.items[m.numItems++];
                x.id = it.second;
                x.mode = it.first ? ModbusConfig::Mode::server : ModbusConfig::Mode::client;
                unsigned char const a[] = {127, 0, 0, 1, (unsigned char)(it.first ? 0x10 : 0x20), (unsigned char)it.second};
                for (int i = 0; i < 6; ++i) x.addr.data[i] = a[i];
            }
            c.env.post(s);
            c.env.settle();
            r.note("config " + std::to_string(op - 3));
            if (!inited) { if (c.env.k.files.size() != c.base) r.fail("something is set up although the component is not initialised"); continue; }
            c.expect(MsgModbusConfigRsp::msgId(), "config");
            if (r.stopped()) return;
            auto const& rsp = c.env.sent[c.at].as<MsgModbusConfigRsp>();
            if (rsp.numItems != items.size()) { r.fail("config: a status is missing"); return; }
            for (unsigned i = 0; i < items.size(); ++i)
            {
                bool const ok = items[i].second < (items[i].first ? nServers : nClients);
                if (rsp.items[i].id != items[i].second) r.fail("config: the status belongs to another item");
                else if ((rsp.items[i].status == MsgStatus::success) != ok) r.fail(ok ? "config: a valid item is refused" : "config: an invalid item is accepted");
                if (ok && items[i].first) listening.insert(items[i].second);
                if (ok && !items[i].first) dialled.insert(items[i].second);
            }
        }
        else if (op == 6)
        {
            reactor::MsgStore<MsgModbusClientAduReq> s;
            auto& m = s.getMsg();
            m.numItems = 1;
            auto& it = m.item(0);
            it.clientId = 2;
            it.transactId = 77;
            it.addr = 1;
            it.func = ModbusFunction::readInputRegisters;
            it.startItem = 0;
            it.numItems = 1;
            it.numBytes = 0;
            c.env.post(s);
            c.env.settle();
            if (inited) c.expect(MsgModbusClientAduRsp::msgId(), "request to an unknown client");
        }
        else
        {
            reactor::MsgStore<MsgModbusAduRsp> s;
            auto& m = s.getMsg();
            m.serverId = 2;
            m.sessionId = 3;
            m.transactId = 4;
            m.error = ModbusError::noerror;
            m.status = MsgStatus::success;
            m.numBytes = 0;
            c.env.post(s);
            c.env.settle();
        }
        if (r.stopped()) return;
        std::set<unsigned> l;
        for (auto& x : c.env.k.listeners()) l.insert(x->port & 0xff);
        if (l != listening) r.fail("the servers that listen are not the ones configured");
        std::set<unsigned> k;
        for (auto& x : c.env.k.connecting()) k.insert(x->port & 0xff);
        if (k != dialled) r.fail("the clients that connect are not the ones configured");
        r.state(mc::mix(c.env.k.files.size() * 64 + l.size() * 8 + k.size(), inited * 4 + nServers));
    }
    r.outcome(c.env.k.calls);
}

template <class C, class InitReq, class InitRsp, class ConfigReq, class RelReq, class RelRsp> static void uaProtocol(mc::Run& r, reactor::ComponentId id, bool listens)
{
    Comp c(r);
    c.env.local = {id};
    std::unique_ptr<reactor::ComponentInterface> comp(new C(c.env, *c.env.reactor));
    c.env.start();
    c.base = c.env.k.files.size();
    bool inited = false, up = false;
    int const depth = g_th ? 7 : 5;
    for (int d = 0; d < depth && !r.stopped(); ++d)
    {
        int const op = r.choose(3, "operation");
        c.begin();
        if (op == 0) { c.post<InitReq>(); c.env.settle(); c.expect(InitRsp::msgId(), "init"); inited = true; up = false; }
        if (op == 1)
        {
            reactor::MsgStore<ConfigReq> s;
            if constexpr (requires { s.getMsg().addr; }) { unsigned char const a[] = {127, 0, 0, 1, 0x11, 0x11}; for (int i = 0; i < 6; ++i) s.getMsg().addr.data[i] = a[i]; }
            c.env.post(s);
            c.env.settle();
            up = inited;
        }
        if (op == 2) { c.post<RelReq>(); c.env.settle(); c.expect(RelRsp::msgId(), "release"); c.released("release"); inited = up = false; }
        if (r.stopped()) return;
        if (listens && (c.env.k.listeners().size() == 1) != up) r.fail(up ? "the server does not listen although it is configured" : "the server listens although it is not configured");
        r.state(inited * 2 + up);
    }
}
static void uaProtocols(mc::Run& r)
{
    int const which = r.choose(3, "component");
    if (which == 0) uaProtocol<ua::transport::UaTransportComponent, MsgUaTransportInitReq, MsgUaTransportInitRsp, MsgUaTransportConfigReq, MsgUaTransportReleaseReq, MsgUaTransportReleaseRsp>(r, compUaTransport, true);
    if (which == 1) uaProtocol<ua::securechannel::UaSecureChannelComponent, MsgUaSecureChannelInitReq, MsgUaSecureChannelInitRsp, MsgUaSecureChannelConfigReq, MsgUaSecureChannelReleaseReq, MsgUaSecureChannelReleaseRsp>(r, compUaSecChannel, false);
    if (which == 2) uaProtocol<ua::service::UaServiceComponent, MsgUaServiceInitReq, MsgUaServiceInitRsp, MsgUaServiceConfigReq, MsgUaServiceReleaseReq, MsgUaServiceReleaseRsp>(r, compUaService, false);
}

// the controller alone: requests and responses (late, repeated, missing) in every order ------------------------------------------
static void controllerAlone(mc::Run& r)
{
    Comp c(r);
    c.env.local = {compController};
    sim::onSleep = [&](std::int64_t ns) { c.env.k.advanceTo(c.env.k.now + ns); };
    struct Reset { ~Reset() { sim::onSleep = nullptr; } } reset;
    std::unique_ptr<reactor::ComponentInterface> comp(new controller::ControllerComponent(c.env, *c.env.reactor));
    c.env.start();
    c.base = c.env.k.files.size();
    static std::size_t const init[] = {MsgModbusInitReq::msgId(), MsgUaTransportInitReq::msgId(), MsgUaSecureChannelInitReq::msgId(), MsgUaServiceInitReq::msgId()};
    static std::size_t const conf[] = {MsgModbusConfigReq::msgId(), MsgUaTransportConfigReq::msgId(), MsgUaSecureChannelConfigReq::msgId(), MsgUaServiceConfigReq::msgId()};
    static std::size_t const rel[] = {MsgModbusReleaseReq::msgId(), MsgUaTransportReleaseReq::msgId(), MsgUaSecureChannelReleaseReq::msgId(), MsgUaServiceReleaseReq::msgId()};
    static char const* names[] = {"modbus", "UA transport", "UA secure channel", "UA service"};
    bool running = false, waiting[4] = {}, configuring = false;
    auto n = [&](std::size_t id) { unsigned k = 0; for (std::size_t i = c.at; i < c.env.sent.size(); ++i) k += c.env.sent[i].id == id; return k; };
    auto adu = [&](unsigned from, unsigned to, bool good) {
        for (unsigned i = from; i < to; ++i)
        {
            reactor::MsgStore<MsgModbusClientAduRsp> s;
            auto& m = s.getMsg();
            m.clientId = good ? (i == 12 ? 99 : 0) : 5;
            m.transactId = i;
            m.error = ModbusError::noerror;
            m.status = MsgStatus::error;
            m.numBytes = 0;
            c.env.post(s);
        }
    };
    int const depth = g_th ? 6 : 5;
    for (int d = 0; d < depth && !r.stopped(); ++d)
    {
        static int const first[] = {0, 1, 2, 10};
        int const op = d ? r.choose(13, "event") : first[r.choose(4, "first event")];
        c.begin();
        if (op == 0) c.post<MsgControllerStartReq>();
        if (op == 1) c.post<MsgControllerStopReq>();
        if (op == 2) c.post<MsgModbusInitRsp>();
        if (op == 3) c.post<MsgUaTransportInitRsp>();
        if (op == 4) c.post<MsgUaSecureChannelInitRsp>();
        if (op == 5) c.post<MsgUaServiceInitRsp>();
        if (op == 6) { reactor::MsgStore<MsgModbusConfigRsp> s; s.getMsg().numItems = 0; c.env.post(s); }
        if (op == 7) { c.post<MsgModbusReleaseRsp>(); c.post<MsgUaTransportReleaseRsp>(); c.post<MsgUaSecureChannelReleaseRsp>(); c.post<MsgUaServiceReleaseRsp>(); }
        if (op == 8) adu(0, 1, false);
        if (op == 9) adu(1, 2, true);
        if (op == 10) { reactor::MsgStore<MsgModbusAduReq> s; auto& m = s.getMsg(); m.serverId = 0; m.sessionId = 0; m.transactId = 3; m.func = ModbusFunction::readInputRegisters; m.startItem = 10; m.numItems = 2; m.numBytes = 0; c.env.post(s); }
        if (op == 11 && !c.env.tick()) continue;
        if (op == 12) { c.post<MsgUaTransportConfigRsp>(); c.post<MsgUaSecureChannelConfigRsp>(); c.post<MsgUaServiceConfigRsp>(); }
        c.env.settle();
        if (r.stopped()) return;
        r.note("event " + std::to_string(op) + ": " + std::to_string(c.env.sent.size() - c.at) + " messages");
        if (op == 0)
        {
            running = true;
            configuring = false;
            for (int i = 0; i < 4; ++i) { waiting[i] = true; if (n(init[i]) != 1) { r.fail(std::string("the start does not initialise ") + names[i]); return; } }
        }
        else if (op == 1)
        {
            for (int i = 0; i < 4; ++i)
            {
                if (running && !n(rel[i])) { r.fail(std::string("the stop does not release ") + names[i]); return; }
                if (n(init[i]) || n(conf[i])) { r.fail("something is set up by the stop"); return; }
                waiting[i] = false;
            }
            running = configuring = false;
            c.released("stop");
        }
        else if (op >= 2 && op <= 5 && running && waiting[op - 2])
        {
            waiting[op - 2] = false;
            if (n(conf[op - 2]) != 1) { r.fail(std::string(names[op - 2]) + " is not configured after its initialisation"); return; }
            if (op == 2) configuring = true;
        }
        else if (op == 6 && running && configuring)
        {
            configuring = false;
            if (!n(MsgModbusClientAduReq::msgId())) { r.fail("the exchange does not begin after the configuration"); return; }
        }
        else if (!running && c.env.sent.size() != c.at) { r.fail("messages are sent after the stop"); return; }
        r.state(mc::mix(running + 2 * configuring, c.env.sent.size() * 16 + waiting[0] + 2 * waiting[1] + 4 * waiting[2] + 8 * waiting[3]));
    }
}

int main(int argc, char** argv)
{
    return mc::main(argc, argv, [](std::string const& prop, bool th) {
        g_th = th;
        std::vector<mc::Scenario> v;
        v.push_back({"startOnly", "one request, all schedules with at most 2 (thorough 3) deviations from round robin", startOnly});
        v.push_back({"seq2", "2 requests, the second after any of the first 600 (thorough 1200) steps", seq2});
        v.push_back({"seq2d", "2 requests, the second after any of the first 40 (60) steps, 1 (2) deviations", seq2d});
        v.push_back({"seq3", "3 requests, each after any of the first 50 (120) steps", seq3});
        v.push_back({"seq4", "4 requests, each after any of the first 8 (24) steps", seq4});
        v.push_back({"shutdownAny", "the application is ended after any of the first 80 (250) steps of start, operation and stop, 1 deviation", shutdownAny});
        v.push_back({"brokenSetup", "each epoll, eventfd or thread creation of the deployment fails", brokenSetup});
        v.push_back({"clients", "UA client at 5 stages x Modbus client at 4, stop (and restart) after any of the first 20 (60) steps, 0-1 (2) deviations", clients});
        v.push_back({"failures", "each of the first 6 (12) calls of 9 kinds fails, once or persistently", failures});
        v.push_back({"portTaken", "a port is in use", portTaken});
        v.push_back({"requests", "foreign Modbus requests: 14 transaction ids x 9 functions x 12 addresses x 9 counts", requests});
        v.push_back({"longRun", "8 x 7 s of operation, 1 (2) deviations in the first", longRun});
        v.push_back({"modbusProtocol", "Modbus component: all sequences of 5 (thorough 6) of 8 operations", modbusProtocol});
        v.push_back({"uaProtocols", "each UA component: all sequences of 5 (thorough 7) init, config and release requests", uaProtocols});
        v.push_back({"controllerAlone", "controller: all sequences of 5 (thorough 6) of 13 requests and responses", controllerAlone});
        return v;
    });
}
