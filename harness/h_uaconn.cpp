// C20: connection objects of the OPC UA protocol library (real ClientConnection, ServerConnection on a real Reactor) against
// a scripted peer, and against each other.  C21: the server secure channel of the library (OpcUaServerSecureChannel).
// A reference model decides after every event which handler events are due.
#include <algorithm>
#include <cstdlib>
#include "env.hpp"
#include "uaref.hpp"
#include "ClientConnection.hpp"
#include "ServerConnection.hpp"
#include "OpcUaServerSecureChannel.hpp"
#include "AcceptorInterface.hpp"
#include "LinkInterface.hpp"

using namespace app;
using uaref::Bytes;
using uaref::u32;
using uaref::str;
static constexpr std::int64_t US = 1000, MS = 1000 * US, SEC = 1000 * MS;
static int g_th = 0;

static Bytes chunk(Bytes const& type, Bytes const& rest, char fin = 'F') { return type + fin + u32(8 + rest.size()) + rest; }
static Bytes pat(std::size_t n, unsigned salt) { Bytes b; for (std::size_t i = 0; i < n; ++i) b += (char)(i * 7 + i / 251 + salt * 31); return b; }
static Bytes hello(Bytes const& url = "opc.tcp://h:1") { return chunk("HEL", u32(0) + u32(65536) + u32(65536) + u32(0) + u32(0) + str(url)); }
static Bytes ack() { return chunk("ACK", u32(0) + u32(65536) + u32(65536) + u32(0) + u32(0)); }
static std::uint32_t rd32(Bytes const& s, std::size_t i) { std::uint32_t v = 0; if (i + 4 <= s.size()) std::memcpy(&v, s.data() + i, 4); return v; }
static reactor::LinkAddr address(unsigned port = 0x2222)
{
    reactor::LinkAddr a{};
    a.type = reactor::LinkAddr::Type::ipv4;
    unsigned char const d[] = {127, 0, 0, 1, (unsigned char)(port >> 8), (unsigned char)port};
    for (int i = 0; i < 6; ++i) a.data[i] = d[i];
    return a;
}

// links and timers that can still be created
static std::pair<int, int> slots(Env& env)
{
    std::vector<reactor::LinkPtr> l;
    std::vector<reactor::TimerPtr> t;
    for (int i = 0; i < 1000; ++i) { try { l.push_back(env.reactor->createLink({})); } catch (std::exception const&) { break; } }
    for (int i = 0; i < 1000; ++i) { try { t.push_back(env.reactor->createTimer({})); } catch (std::exception const&) { break; } }
    return {(int)l.size(), (int)t.size()};
}

enum Kind { connected, data, failure };
struct Ev { Kind k; Bytes b; bool operator==(Ev const& o) const { return k == o.k && b == o.b; } };
static std::string show(std::vector<Ev> const& v)
{
    std::string s;
    for (auto& e : v) s += e.k == connected ? " connected" : e.k == data ? " data(" + std::to_string(e.b.size()) + ")" : " failure";
    return s.empty() ? " nothing" : s;
}

enum Mode { accepting, reversing, calling };

// one connection object with its handler
struct Conn : ua::OpcUaConnectionHandler
{
    Mode mode;
    std::unique_ptr<ua::ServerConnection> s;
    std::unique_ptr<ua::ClientConnection> c;
    std::vector<Ev> got;
    std::function<void(Kind)> react;
    unsigned port = 0x2222;
    Conn(Mode m, reactor::ReactorInterface& r) : mode(m)
    {
        if (m == calling) c = std::make_unique<ua::ClientConnection>(r, *this);
        else s = std::make_unique<ua::ServerConnection>(r, *this);
    }
    void connect() { auto a = address(port); if (c) c->connect(a); else s->connect(a); }
    void close() { if (c) c->close(); else s->close(); }
    ua::OpcUaConnection& base() { return c ? static_cast<ua::OpcUaConnection&>(*c) : *s; }
    bool send(Bytes const& b)
    {
        ua::OpcUaSduBuffer tx;
        std::memcpy(tx.end(), b.data(), b.size());
        tx.seek(b.size());
        return base().send(tx) == ua::OpcUaConnection::Result::done;
    }
    void add(Kind k, Bytes const& b = {}) { got.push_back({k, b}); if (react) react(k); }
    void onConnectionConnectedEvent() override { add(connected); }
    void onConnectionDataReceivedEvent() override { auto& rx = base().getRxBuffer(); add(data, Bytes((char const*)rx.begin(), rx.size())); }
    void onConnectionErrorEvent() override { add(failure); }
    void onConnectionClosedEvent() override { add(failure); }
};

enum Policy { none, closeOnConnected, closeOnData, reopen, answer, closeOnFailure, policies };

struct World
{
    mc::Run& r;
    std::unique_ptr<Env> own;
    Env& env;
    World* other = nullptr;                     // a second object in the same event loop
    unsigned port = 0x2222;
    Mode mode;
    Policy policy;
    reactor::AcceptorPtr acceptor;
    std::unique_ptr<Conn> conn;
    std::vector<reactor::LinkPtr> refused;      // links the connection did not take
    std::size_t base = 0;
    std::pair<int, int> free;
    // reference model
    enum Phase { idle, connecting, shaking, up } phase = idle;
    sim::PeerPtr p;
    Bytes stream;                               // sent by the peer, not yet consumed
    Bytes answers;                              // expected from the connection object besides the handshake
    std::int64_t deadline = 0;
    std::vector<Ev> due;
    std::size_t seen = 0;
    bool sendsFail = false, cutShort = false;

    World(mc::Run& run, Mode m, Policy pol, World* o = nullptr)
        : r(run), own(o ? nullptr : new Env(run, run.tracing() && std::getenv("VERIF_LOGS"))), env(o ? o->env : *own), other(o), mode(m), policy(pol)
    {
        if (o) { port = o->port + 1; o->other = this; }
        conn = std::make_unique<Conn>(m, *env.reactor);
        conn->port = port;
        conn->react = [this](Kind k) {
            if (policy == closeOnConnected && k == connected) conn->close();
            if (policy == closeOnData && k == data) conn->close();
            if (policy == closeOnFailure && k == failure) conn->close();
            if (policy == reopen && k == failure && mode != accepting) conn->connect();
            if (policy == answer && k != failure) conn->send(chunk("MSG", "answer"));
        };
        if (m == accepting)
        {
            acceptor = env.reactor->createAcceptor([this] {
                auto l = env.reactor->createLink({});
                acceptor->accept(*l);
                conn->s->accept(l);
                if (l) refused.push_back(std::move(l));
            });
            acceptor->listen(address(port));
        }
        if (own) env.start();
        base = env.k.files.size();
        free = slots(env);
        if (o) { o->base = base; o->free = free; }
    }
    ~World() { if (other) other->other = nullptr; if (own) env.shutdown(); refused.clear(); conn.reset(); acceptor.reset(); }
    bool stop() const { return r.stopped(); }

    // ---- model -------------------------------------------------------------------------------------------------------
    void fails()
    {
        phase = idle;
        due.push_back({failure, {}});
        if (policy == reopen && mode != accepting) begin();
    }
    void begin() { phase = connecting; deadline = env.k.now + 3 * SEC; p = nullptr; }
    void shake() { phase = shaking; deadline = env.k.now + SEC; stream.clear(); answers.clear(); }
    static bool validHandshake(Mode m, Bytes const& msg)
    {
        if (msg.substr(0, 4) != (m == calling ? "ACKF" : "HELF")) return false;
        if (msg.size() < 28) return false;
        if (m == calling) return true;
        if (msg.size() < 32) return false;
        std::int32_t const n = rd32(msg, 28);
        return n == -1 || (n >= 0 && (std::size_t)n <= msg.size() - 32);
    }
    void consume()
    {
        while ((phase == shaking || phase == up) && stream.size() >= 8)
        {
            std::uint32_t const n = rd32(stream, 4);
            if (n < 8 || n > 4096) { fails(); return; }
            if (stream.size() < n) return;
            Bytes const msg = stream.substr(0, n);
            stream.erase(0, n);
            if (phase == shaking)
            {
                if (!validHandshake(mode, msg) || (sendsFail && mode != calling)) { fails(); return; }
                phase = up;
                deadline = env.k.now + 10 * SEC;
                due.push_back({connected, {}});
                if (policy == closeOnConnected) phase = idle;
                if (policy == answer) answers += chunk("MSG", "answer");
            }
            else
            {
                due.push_back({data, msg});
                if (policy == closeOnData) phase = idle;
                if (policy == answer) answers += chunk("MSG", "answer");
            }
        }
    }
    // ---- events ------------------------------------------------------------------------------------------------------
    void open()
    {
        if (mode == accepting)
        {
            auto q = env.k.dial(port);
            if (!q) { r.fail("nobody listens"); return; }
            if (phase == idle) { p = q; shake(); }
        }
        else
        {
            conn->connect();
            if (phase == idle) begin();
        }
    }
    void close() { conn->close(); phase = idle; }
    auto attempts()
    {
        auto v = env.k.connecting();
        v.erase(std::remove_if(v.begin(), v.end(), [this](auto& s) { return s->port != port; }), v.end());
        return v;
    }
    bool establish(std::int64_t limit)
    {
        if (phase != connecting || attempts().empty()) return false;
        p = env.k.establish(attempts()[0]);
        sendsFail = limit >= 0;
        if (limit >= 0) p->limitTx(limit);
        if (sendsFail) fails(); else shake();
        return true;
    }
    bool refuse()
    {
        if (phase != connecting || attempts().empty()) return false;
        env.k.refuse(attempts()[0]);
        fails();
        return true;
    }
    bool talking() const { return p && (phase == shaking || phase == up) && p->alive(); }
    bool send(Bytes const& b)
    {
        if (!talking()) return false;
        p->send(b);
        stream += b;
        consume();
        return true;
    }
    bool hangUp(bool reset)
    {
        if (!talking()) return false;
        if (reset) p->reset(); else p->close();
        fails();
        return true;
    }
    void toDeadline(bool past)
    {
        if (phase == idle) return;
        std::int64_t const d = deadline;
        if (!past) { if (d - 50 * US > env.k.now) env.advance(d - 50 * US - env.k.now); return; }
        env.advance(d - env.k.now);
        fails();
        if (other && other->phase != idle && other->deadline <= env.k.now + 200 * US)
        {
            if (other->deadline > env.k.now) env.advance(other->deadline - env.k.now);
            other->fails();
        }
    }
    // ---- rules -------------------------------------------------------------------------------------------------------
    void check()
    {
        if (stop()) return;
        env.settle();
        // input behind the handshake may be taken a moment later
        env.advance(5 * US);
        if (stop()) return;
        std::vector<Ev> const now(conn->got.begin() + seen, conn->got.end());
        seen = conn->got.size();
        // input with an end right behind it may be lost
        if (cutShort && !now.empty() && now.size() < due.size() && now.back().k == failure && std::equal(now.begin(), now.end() - 1, due.begin())) due = now;
        cutShort = false;
        if (now != due) { r.fail("expected" + show(due) + ", reported" + show(now)); return; }
        due.clear();
        for (auto& q : env.k.peers) if (q->accepted && q->port == port && q != p && !q->sutClosed && refused.empty()) { r.fail("an old link is left open"); return; }
        std::size_t const extra = env.k.files.size() - base - refused.size() - (other ? other->refused.size() : 0);
        std::size_t const want = (phase == idle ? 0 : 2) + (other && other->phase != idle ? 2 : 0);
        if (extra != want) { r.fail(phase == idle ? "the link or timer of a finished connection is left open" : "the connection lost its link or timer"); return; }
        if (phase == connecting && attempts().size() != 1) r.fail("the link is not connecting");
        if ((phase == shaking || phase == up) && p->sutClosed) r.fail("the link was closed");
        if (phase == idle && p && !p->sutClosed) r.fail("the link is left open");
        if (stop() || !p || phase == idle || phase == connecting) return;
        // what was sent: a handshake message, then the answers
        Bytes g = p->got;
        auto take = [&](char const* type, bool url) {
            std::uint32_t const n = rd32(g, 4);
            std::size_t const need = type[0] == 'R' ? 16 : url ? 32 : 28;
            if (g.size() < 8 || g.substr(0, 4) != Bytes(type) + "F" || n > g.size() || n < need) { r.fail(std::string(type) + " is missing or malformed"); return; }
            g.erase(0, n);
        };
        if (mode == calling) take("HEL", true);
        if (mode == reversing) take("RHE", true);
        if (!stop() && mode != calling && phase == up) take("ACK", false);
        if (!stop() && g != answers) r.fail("sent " + std::to_string(g.size()) + " bytes besides the handshake instead of " + std::to_string(answers.size()));
        r.state(mc::mix(phase * 16 + mode * 4 + policy, mc::mixs(conn->got.size(), stream)));
    }
    void finish()
    {
        if (stop()) return;
        // afterwards the object works like a new one
        policy = none;
        close();
        check();
        if (stop()) return;
        {
            auto f = slots(env);
            f.first += refused.size();
            if (f != free) { r.fail("a closed connection keeps a link or timer"); return; }
        }
        open();
        check();
        if (mode != accepting) { establish(-1); check(); }
        send(mode == calling ? ack() : hello());
        check();
        send(chunk("MSG", "abcd"));
        check();
        if (!stop() && phase != up) r.fail("a new connection is not established");
        if (stop()) return;
        conn.reset();
        env.settle();
        if (!stop() && !p->sutClosed) r.fail("the link of a destroyed connection is left open");
        r.outcome(env.k.calls);
    }
    Bytes greeting() const { return mode == calling ? ack() : hello(); }
};

// every sequence of events ---------------------------------------------------------------------------------------------------
static void sequences(mc::Run& r)
{
    Mode const mode = (Mode)r.choose(3, "mode");
    Policy const pol = (Policy)r.choose(policies, "handler");
    World w(r, mode, pol);
    w.open();
    w.check();
    int const depth = g_th ? 6 : 5;
    for (int i = 0; i < depth && !w.stop(); ++i)
    {
        Bytes const g = w.greeting(), m = chunk("MSG", "0123456789");
        int const op = r.choose(17, "event");
        bool did = true;
        switch (op)
        {
        case 0: w.open(); break;
        case 1: w.close(); break;
        case 2: did = w.establish(-1); break;
        case 3: did = w.refuse(); break;
        case 4: did = w.send(g); break;
        case 5: did = w.send(g.substr(0, 11)); break;
        case 6: did = w.send(g.substr(11)); break;
        case 7: did = w.send(m); break;
        case 8: did = w.send(m + m.substr(0, 5)); break;
        case 9: did = w.send(m.substr(5)); break;
        case 10: did = w.hangUp(false); break;
        case 11: did = w.hangUp(true); break;
        case 12: w.toDeadline(true); break;
        case 13: w.toDeadline(false); break;
        case 14: did = w.send(g + m + m); break;
        case 15: did = w.send(chunk(mode == calling ? "HEL" : "ACK", Bytes(40, 0))); break;
        case 16: did = w.establish(3); break;
        }
        if (!did) return;       // not possible here
        r.note("event " + std::to_string(op));
        w.check();
    }
    w.finish();
}

// two objects in one event loop do not notice each other
static void two(mc::Run& r)
{
    static Mode const modes[][2] = {{accepting, accepting}, {calling, calling}, {reversing, reversing}, {accepting, calling}, {accepting, reversing}, {calling, reversing}};
    auto& ms = modes[r.choose(6, "modes")];
    int const pol = r.choose(3, "handlers"), start = r.choose(4, "start"), depth = g_th ? 4 : 3;
    static Policy const pols[] = {none, answer, closeOnFailure};
    World a(r, ms[0], pols[pol]), b(r, ms[1], pols[pol], &a);
    World* ws[] = {&a, &b};
    auto check = [&] { a.check(); b.check(); };
    auto greet = [&](World& w) { w.open(); check(); if (w.mode != accepting) { w.establish(-1); check(); } };
    if (start) for (auto* w : ws) greet(*w);
    if (start == 1) for (auto* w : ws) { w->send(w->greeting().substr(0, 11)); check(); }
    if (start >= 2) for (auto* w : ws) { w->send(w->greeting()); check(); }
    if (start == 3) for (auto* w : ws) { w->send(chunk("MSG", pat(700, w->port)).substr(0, 300)); check(); }
    for (int i = 0; i < depth && !a.stop(); ++i)
    {
        World& w = *ws[r.choose(2, "object")];
        Bytes const g = w.greeting(), m = chunk("MSG", pat(60 + (w.port & 1) * 20, w.port));
        int const op = r.choose(12, "event");
        bool did = true;
        switch (op)
        {
        case 0: if (w.phase != World::idle) return; w.open(); break;
        case 1: w.close(); break;
        case 2: did = w.establish(-1); break;
        case 3: did = w.refuse(); break;
        case 4: did = w.phase == World::shaking && w.send(w.stream.empty() ? g : g.substr(11)); break;
        case 5: did = w.phase == World::up && w.stream.empty() && w.send(m); break;
        case 6: did = w.phase == World::up && w.stream.empty() && w.send(m + m.substr(0, 21)); break;
        case 7: did = w.phase == World::up && !w.stream.empty() && w.send(rd32(w.stream, 4) > 700 ? chunk("MSG", pat(700, w.port)).substr(w.stream.size()) : m.substr(w.stream.size())); break;
        case 8: did = w.hangUp(false); break;
        case 9: did = w.phase != World::idle; w.toDeadline(true); break;
        case 10: did = w.phase == World::shaking && w.stream.empty() && w.send(g + m + m); break;
        case 11: did = w.send(w.phase == World::up && !w.stream.empty() ? "" : Bytes("MSGF\0\0\0\x7f", 8)); break;
        }
        if (!did || a.stop()) return;
        check();
    }
    // the second goes, the first works on
    if (a.stop()) return;
    b.close();
    check();
    if (a.phase == World::up && a.stream.empty()) { a.send(chunk("MSG", "still here")); check(); }
    if (a.stop()) return;
    for (auto* w : ws) { w->policy = none; w->close(); w->check(); w->refused.clear(); }
    for (auto* w : ws) { greet(*w); w->send(w->greeting() + chunk("MSG", pat(90, w->port))); check(); }
    if (!a.stop() && (a.phase != World::up || b.phase != World::up)) r.fail("a new connection is not established");
    r.outcome(a.env.k.calls);
}

// every segmentation of a handshake followed by chunks -------------------------------------------------------------------------
static void segments(mc::Run& r)
{
    Mode const mode = (Mode)r.choose(3, "mode");
    Policy const pol = (Policy)r.choose(policies, "handler");
    World w(r, mode, pol);
    w.open();
    w.check();
    if (mode != accepting) w.establish(-1);
    w.check();
    Bytes const all = w.greeting() + chunk("MSG", "12345678") + chunk("OPN", "") + chunk("MSG", pat(20, 3));
    std::size_t a = r.choose(all.size() + 1, "cut"), b = a;
    if (g_th || pol == none) b = a + r.choose(all.size() + 1 - a, "second cut");
    int const how = r.choose(3, "pauses");
    auto part = [&](std::size_t i, std::size_t j, bool pause) {
        if (i == j || w.stop()) return;
        if (!w.talking()) return;
        w.send(all.substr(i, j - i));
        if (pause) w.check();
    };
    part(0, a, how > 0);
    part(a, b, how == 1);
    part(b, all.size(), false);
    if (how == 2 && w.talking()) { w.cutShort = true; w.hangUp(false); }
    w.check();
    w.finish();
}

// chunks of all sizes and malformed messages -------------------------------------------------------------------------------------
static void sizes(mc::Run& r)
{
    static std::uint32_t const ns[] = {0, 1, 7, 8, 9, 12, 16, 24, 255, 256, 1016, 1023, 1024, 1025, 1032, 2048, 4000, 4088, 4095, 4096, 4097, 5000, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffff8u};
    Mode const mode = (Mode)r.choose(3, "mode");
    std::uint32_t const n = ns[r.choose(27, "size")];
    int const second = r.choose(3, "behind");
    int const cut = r.choose(6, "segments");
    World w(r, mode, none);
    w.open();
    w.check();
    if (mode != accepting) { w.establish(-1); w.check(); }
    w.send(w.greeting());
    if (cut & 1) w.check();
    Bytes m = "MSGF" + u32(n) + pat(n > 8 && n < 5000 ? n - 8 : 4, 1);
    if (second) m += chunk("MSG", pat(second == 1 ? 4 : 1500, 2));
    std::size_t const cuts[] = {m.size(), 1, 8};
    std::size_t const c = std::min(cuts[cut / 2], m.size());
    w.send(m.substr(0, c));
    if (c < m.size()) { w.check(); if (w.talking()) w.send(m.substr(c)); }
    w.check();
    w.finish();
}
// every bit of the announced size counts
static void sizeBits(mc::Run& r)
{
    Mode const mode = (Mode)r.choose(3, "mode");
    bool const first = r.choose(2, "handshake message");
    int const bit = r.choose(32, "bit");
    int const more = r.choose(2, "behind");
    World w(r, mode, none);
    w.open();
    w.check();
    if (mode != accepting) { w.establish(-1); w.check(); }
    Bytes m = first ? w.greeting() : chunk("MSG", pat(37, bit));
    m.replace(4, 4, u32(m.size() ^ 1u << bit));
    if (!first) { w.send(w.greeting()); w.check(); }
    w.send(m);
    w.check();
    if (more && w.talking()) { w.send(pat(5000, bit)); w.check(); }
    w.finish();
}
// messages of all lengths are sent as they are
static void sends(mc::Run& r)
{
    static std::size_t const lens[] = {1, 2, 7, 8, 9, 100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 2047, 2048, 4000, 4087, 4088, 4089, 4095, 4096};
    Mode const mode = (Mode)r.choose(3, "mode");
    std::size_t const a = lens[r.choose(23, "length")], b = lens[r.choose(23, "second length")];
    int const fails = r.choose(3, "second one can not be sent");
    World w(r, mode, none);
    if (w.conn->send(pat(a, 1))) { r.fail("a message is sent without a link"); return; }
    w.open();
    w.check();
    if (mode != accepting) { w.establish(-1); w.check(); }
    w.send(w.greeting());
    w.check();
    if (w.stop()) return;
    if (!w.conn->send(pat(a, 1))) { r.fail("a message can not be sent"); return; }
    w.answers += pat(a, 1);
    w.check();
    if (w.stop()) return;
    if (fails)
    {
        if (fails == 1) w.p->limitTx(b - 1);
        else { w.hangUp(true); w.check(); if (w.stop()) return; }
        if (w.conn->send(pat(b, 2))) { r.fail("a message that can not be sent is taken as sent"); return; }
        if (w.phase != World::idle) { w.close(); }
        w.check();
    }
    else
    {
        if (!w.conn->send(pat(b, 2))) { r.fail("a second message can not be sent"); return; }
        w.answers += pat(b, 2);
        w.check();
    }
    w.finish();
}
// one object, many connections with many chunks each
static void longRun(mc::Run& r)
{
    Mode const mode = (Mode)r.choose(3, "mode");
    int const ends = r.choose(5, "end");
    int const rounds = g_th ? 3000 : 150;
    World w(r, mode, none);
    for (int i = 0; i < rounds && !w.stop(); ++i)
    {
        w.open();
        w.check();
        if (mode != accepting) { w.establish(-1); w.check(); }
        int const end = ends < 4 ? ends : i % 4;
        if (i % 5 == 4) w.send(w.greeting().substr(0, 9 + i % 15));
        else
        {
            w.send(w.greeting());
            w.check();
            for (int k = 0; k < (i == 7 ? 400 : 3) && !w.stop(); ++k) { w.send(chunk("MSG", pat((i * 13 + k * 57) % 3000, i + k))); w.check(); }
            if (i % 3 == 0) w.send(chunk("MSG", pat(50, i)).substr(0, 1 + i % 57));
        }
        w.check();
        switch (end)
        {
        case 0: w.close(); break;
        case 1: w.hangUp(false); break;
        case 2: w.hangUp(true); break;
        case 3: w.toDeadline(true); break;
        }
        w.check();
        w.conn->got.clear();
        w.seen = 0;
    }
    w.finish();
}
// the same chunk again and again
static void repeated(mc::Run& r)
{
    Mode const mode = (Mode)r.choose(3, "mode");
    static std::size_t const lens[] = {0, 1, 37, 3000};
    std::size_t const len = lens[r.choose(4, "length")];
    int const n = 2 + r.choose(4, "chunks"), how = r.choose(4, "together / apart / in halves / with time in between"), zero = r.choose(2, "zeros");
    World w(r, mode, none);
    for (int round = 0; round < 2 && !w.stop(); ++round)
    {
        w.open();
        w.check();
        if (mode != accepting) { w.establish(-1); w.check(); }
        w.send(w.greeting());
        w.check();
        Bytes const m = chunk("MSG", zero ? Bytes(len, '\0') : pat(len, 1));
        Bytes all;
        for (int i = 0; i < n; ++i) all += m;
        if (how == 0) { w.send(all); w.check(); }
        else for (int i = 0; i < n && !w.stop(); ++i)
        {
            if (how == 2) { w.send(m.substr(0, 5)); w.check(); w.send(m.substr(5)); }
            else w.send(m);
            w.check();
            if (how == 3) w.env.advance(1000 * US);
        }
        w.close();
        w.check();
    }
    w.finish();
}
// valid handshake messages of all contents
static void greetings(mc::Run& r)
{
    Mode const mode = (Mode)r.choose(3, "mode");
    static std::uint32_t const vs[] = {0, 1, 255, 8192, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu};
    std::uint32_t f[5] = {0, 65536, 65536, 0, 0};
    int const which = r.choose(5, "field");
    f[which] = vs[(which == 1 || which == 2 ? 3 : 0) + r.choose(which == 1 || which == 2 ? 6 : 9, "value")];
    Bytes m;
    for (auto v : f) m += u32(v);
    if (mode == calling) m = chunk("ACK", m);
    else
    {
        static int const lens[] = {-1, 0, 1, 13, 255, 256, 1000, 4064};
        int const n = lens[r.choose(8, "url")];
        m = chunk("HEL", m + (n < 0 ? u32(0xffffffffu) : str(Bytes(n, 'u'))));
    }
    World w(r, mode, (Policy)(r.choose(2, "handler") ? answer : none));
    w.open();
    w.check();
    if (mode != accepting) { w.establish(-1); w.check(); }
    if (r.choose(2, "in two pieces")) { w.send(m.substr(0, 10)); w.check(); w.send(m.substr(10)); }
    else w.send(m);
    w.check();
    if (!w.stop() && w.phase != World::up) { r.fail("a valid handshake is refused"); return; }
    w.send(chunk("MSG", pat(100, 3)));
    w.check();
    w.finish();
}
// handshake messages of all shapes
static void handshakes(mc::Run& r)
{
    Mode const mode = (Mode)r.choose(3, "mode");
    Bytes const g = mode == calling ? ack() : hello();
    static char const* types[] = {"HEL", "ACK", "MSG", "OPN", "CLO", "ERR", "RHE", "hel", "HEM", "AEL", "HCL"};
    int const what = r.choose(4, "shape");
    Bytes m;
    if (what == 0) m = chunk(types[r.choose(11, "type")], g.substr(8));
    if (what == 1) m = chunk(g.substr(0, 3), g.substr(8), "FCAfX\0"[r.choose(6, "chunk type")]);
    if (what == 2) { std::size_t const n = r.choose(g.size() - 7 + 12, "length"); m = chunk(g.substr(0, 3), (g + Bytes(20, 'z')).substr(8, n)); }
    if (what == 3)
    {
        static std::uint32_t const lens[] = {0, 1, 12, 13, 14, 255, 4096, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
        m = g;
        if (mode != calling) m.replace(28, 4, u32(lens[r.choose(11, "url")]));
    }
    World w(r, mode, none);
    w.open();
    w.check();
    if (mode != accepting) { w.establish(-1); w.check(); }
    w.send(m);
    w.check();
    if (w.talking()) { w.send(chunk("MSG", "1234")); w.check(); }
    w.finish();
}
// the acknowledge or the hello can not be sent; calls fail -------------------------------------------------------------------------
static void faults(mc::Run& r)
{
    Mode const mode = (Mode)r.choose(3, "mode");
    Policy const pol = (Policy)r.choose(policies, "handler");
    World w(r, mode, pol);
    if (r.choose(2, "what") == 0)
    {
        std::int64_t const limit = r.choose(40, "accepted bytes");
        w.open();
        w.check();
        if (mode != accepting)
        {
            if (limit == 0) return;     // a fresh link takes something
            if (mode == calling && limit >= 32) return;
            if (mode == reversing && limit >= 16) return;
            w.establish(limit);
            w.check();
            w.finish();
            return;
        }
        if (limit >= 28 || !w.p) return;
        w.p->limitTx(limit);
        w.sendsFail = true;
        w.send(w.greeting());
        w.check();
        w.sendsFail = false;
        w.finish();
        return;
    }
    if (mode == accepting || pol == reopen) return;
    static char const* calls[] = {"socket", "fcntl", "connect", "epoll_ctl", "timerfd_create", "timerfd_settime"};
    int const what = r.choose(6, "call");
    unsigned left = r.choose(2, "which");
    bool hit = false, threw = false;
    w.env.k.fault = [&, what](char const* c, int) {
        if (hit || std::strcmp(c, calls[what])) return 0;
        if (left) { --left; return 0; }
        hit = true;
        return what == 2 ? ENETUNREACH : EMFILE;
    };
    try { w.conn->connect(); } catch (std::exception const&) { threw = true; }
    w.env.k.fault = nullptr;
    if (!hit) return;
    w.env.settle();
    if (w.stop()) return;
    // either the call or the handler reports it
    if (!threw && w.conn->got.empty()) { r.fail(std::string("the failing ") + calls[what] + " is not reported"); return; }
    if (w.conn->got.size() > 1 || (w.conn->got.size() == 1 && w.conn->got[0].k != failure)) { r.fail("a failed connect is reported wrongly"); return; }
    w.seen = w.conn->got.size();
    // a resource may be kept for the next attempt
    w.conn->connect();
    w.begin();
    w.env.settle();
    if (w.env.k.connecting().size() != 1) { r.fail("the connection can not be opened again"); return; }
    w.finish();
}

// a client connection and a server connection talk to each other -------------------------------------------------------------------
static void pairs(mc::Run& r)
{
    Env env(r, r.tracing() && std::getenv("VERIF_LOGS"));
    Conn client(calling, *env.reactor), server(accepting, *env.reactor);
    reactor::AcceptorPtr acceptor;
    acceptor = env.reactor->createAcceptor([&] { auto l = env.reactor->createLink({}); acceptor->accept(*l); server.s->accept(l); });
    acceptor->listen(address());
    env.start();
    std::size_t const base = env.k.files.size();
    int const who = r.choose(4, "end"), seg = r.choose(5, "segments"), n = 1 + r.choose(4, "chunks"), reply = r.choose(2, "replies");
    static std::size_t const segs[] = {1, 7, 8, 13, 100000};
    static std::size_t const lens[] = {0, 4, 1100, 3000};
    Bytes toServer, toClient;
    auto m = [&](char c, int i) { return chunk("MSG", Bytes(lens[i], c)); };
    client.react = [&](Kind k) { if (k == connected) for (int i = 0; i < n; ++i) client.send(m('c', i)); };
    server.react = [&](Kind k) { if (k == data && reply) { int const i = server.got.size() - 2; server.send(m('s', i % 4)); } };
    client.connect();
    env.settle();
    if (env.k.connecting().empty()) { r.fail("the client does not connect"); return; }
    auto b = env.k.dial(0x2222);
    auto a = env.k.establish(env.k.connecting()[0]);
    std::size_t ab = 0, ba = 0;
    int idle = 0;
    for (int i = 0; i < 20000 && idle < 2 && !r.stopped(); ++i)
    {
        env.settle();
        env.advance(2 * US);
        bool moved = false;
        if (a->got.size() > ab && !b->sutClosed) { auto x = a->got.substr(ab, segs[seg]); ab += x.size(); b->send(x); moved = true; }
        if (b->got.size() > ba && !a->sutClosed) { auto x = b->got.substr(ba, segs[seg]); ba += x.size(); a->send(x); moved = true; }
        idle = moved ? 0 : idle + 1;
    }
    if (r.stopped()) return;
    std::vector<Ev> es{{connected, {}}}, ec{{connected, {}}};
    for (int i = 0; i < n; ++i) es.push_back({data, m('c', i)});
    if (reply) for (int i = 0; i < n; ++i) ec.push_back({data, m('s', i)});
    if (server.got != es) { r.fail("the server reports" + show(server.got) + " instead of" + show(es)); return; }
    if (client.got != ec) { r.fail("the client reports" + show(client.got) + " instead of" + show(ec)); return; }
    // one end goes
    if (who == 0) client.close();
    if (who == 1) server.close();
    if (who == 2) client.c.reset();
    if (who == 3) env.advance(11 * SEC);
    env.settle();
    if (a->sutClosed && !b->sutClosed) b->close();
    if (b->sutClosed && !a->sutClosed) a->close();
    env.settle();
    bool const c = who == 1 || who == 3, s = who != 1;
    if (r.stopped()) return;
    if (c != (client.got.size() == ec.size() + 1 && client.got.back().k == failure) || client.got.size() > ec.size() + 1) r.fail("the end of the connection is not reported exactly once by the client");
    else if (s != (server.got.size() == es.size() + 1 && server.got.back().k == failure) || server.got.size() > es.size() + 1) r.fail("the end of the connection is not reported exactly once by the server");
    else if (env.k.files.size() != base) r.fail("descriptors are left open");
    r.outcome(mc::mix(env.k.calls, env.k.files.size()));
    env.shutdown();
}

// C21 ------------------------------------------------------------------------------------------------------------------------------
namespace sc
{
enum Type { established, request, failed, ended, lost };     // lost: failed or ended
struct Ev { Type t; Bytes b; bool operator==(Ev const& o) const { return t == o.t && b == o.b; } };
static std::string show(std::vector<Ev> const& v)
{
    static char const* n[] = {" established", " request", " failure", " closed", " failure or closed"};
    std::string s;
    for (auto& e : v) s += n[e.t];
    return s.empty() ? " nothing" : s;
}
static Bytes body(std::uint32_t id, std::uint32_t life)
{
    using namespace uaref;
    Bytes b = nodeId(0, id) + nodeId(0, 0) + u64(1) + u32(5) + u32(0) + str("") + u32(5000) + noExt();
    return id == 446 ? b + u32(0) + u32(0) + u32(1) + str("") + u32(life) : b;
}
static Bytes opn(std::uint32_t chan, std::uint32_t seq, std::uint32_t req, std::uint32_t life = 1000)
{
    return chunk("OPN", u32(chan) + str("http://opcfoundation.org/UA/SecurityPolicy#None") + str("") + str("") + u32(seq) + u32(req) + body(446, life));
}
static Bytes sec(char const* t, std::uint32_t chan, std::uint32_t token, std::uint32_t seq, std::uint32_t req, Bytes const& b) { return chunk(t, u32(chan) + u32(token) + u32(seq) + u32(req) + b); }

struct World
{
    mc::Run& r;
    std::unique_ptr<Env> own;
    Env& env;
    World* other = nullptr;     // a second channel in the same event loop
    unsigned port = 0x2222;
    reactor::AcceptorPtr acceptor;
    std::unique_ptr<ua::OpcUaServerSecureChannel> ch;
    std::vector<reactor::LinkPtr> refused;
    std::vector<Ev> got, due;
    std::size_t seen = 0, base = 0;
    std::pair<int, int> free;
    int policy;                 // 0 none, 1 answer requests, 2 close on request, 3 close when established, 4 close on failure
    enum Phase { idle, shaking, opening, up } phase = idle;
    sim::PeerPtr p;
    std::size_t rd = 0;
    std::int64_t deadline = 0;
    std::uint32_t chan = 0, token = 0, oldToken = 0, seq = 0, rxSeq = 0, req = 7, lastReq = 0, wantLife = 0;
    bool haveSeq = false;
    std::uint32_t reqStep = 1;
    unsigned opnDue = 0;
    struct Out { std::uint32_t req; Bytes b; };
    std::deque<Out> out;        // messages the channel must send
    bool ackDue = false;
    bool vague = false;         // an ignored message may also end the connection

    World(mc::Run& run, int pol, World* o = nullptr)
        : r(run), own(o ? nullptr : new Env(run, run.tracing() && std::getenv("VERIF_LOGS"))), env(o ? o->env : *own), other(o), policy(pol)
    {
        if (o) { port = o->port + 1; o->other = this; }
        ch = std::make_unique<ua::OpcUaServerSecureChannel>(0, *env.reactor);
        ch->setHandler([this](ua::OpcUaSecureChannelEvent const& e) {
            using E = ua::OpcUaSecureChannelEvent;
            if (&e.channel != static_cast<ua::OpcUaSecureChannel*>(ch.get())) r.fail("the event names another channel");
            Type const t = e.type == E::established ? established : e.type == E::request ? request : e.type == E::error ? failed : ended;
            Bytes b;
            if (t == request) { auto& rx = ch->getRxBuffer(); b = Bytes((char const*)rx.begin(), rx.size()); }
            got.push_back({t, b});
            if (t == request && policy == 1) user("re:" + b);
            if ((t == request && policy == 2) || (t == established && policy == 3) || (t >= failed && policy == 4)) ch->close();
        });
        acceptor = env.reactor->createAcceptor([this] {
            auto l = env.reactor->createLink({});
            acceptor->accept(*l);
            ch->open(l);
            if (l) refused.push_back(std::move(l));
        });
        acceptor->listen(address(port));
        if (own) env.start();
        base = env.k.files.size();
        free = slots(env);
        if (o) { o->base = base; o->free = free; }
    }
    ~World() { if (other) other->other = nullptr; if (own) env.shutdown(); refused.clear(); ch.reset(); acceptor.reset(); }
    bool stop() const { return r.stopped(); }
    void user(Bytes const& b)
    {
        ua::OpcUaSduBuffer tx;
        std::memcpy(tx.end(), b.data(), b.size());
        tx.seek(b.size());
        ch->send(tx);
    }
    void open()
    {
        auto q = env.k.dial(port);
        if (!q) { r.fail("nobody listens"); return; }
        if (phase != idle) return;
        p = q;
        phase = shaking;
        deadline = env.k.now + SEC;
        rd = 0;
        chan = token = oldToken = seq = 0;
        haveSeq = false;
        out.clear();
        opnDue = 0;
        ackDue = false;
        vague = false;
    }
    void down(Type t) { phase = idle; due.push_back({t, {}}); }
    bool talking() const { return p && phase != idle && p->alive(); }
    bool helloMsg() { if (!talking() || phase != shaking) return false; p->send(hello()); phase = opening; ackDue = true; deadline = env.k.now + 10 * SEC; return true; }
    bool openMsg(std::uint32_t life) { return openAs(50 + req, life); }
    bool openAs(std::uint32_t first, std::uint32_t life)
    {
        if (!talking() || phase < opening) return false;
        seq = first;
        lastReq = req += reqStep;
        wantLife = life;
        p->send(opn(phase == up ? chan : 0, seq, lastReq, life));
        ++opnDue;
        if (phase == opening)
        {
            phase = up;
            due.push_back({established, {}});
            if (policy == 3) { phase = idle; }
        }
        return true;
    }
    // variants: 0 valid, 1 other token, 2 old sequence number, 3 gap, 4 other channel, 5 truncated, 6 the token before the renewal
    bool msg(char const* type, int variant, Bytes const& b)
    {
        if (!talking() || phase < opening) return false;
        if (phase == up && !token) return false;
        if (variant == 6 && (phase != up || !oldToken)) return false;
        std::uint32_t const s = variant == 2 ? seq : variant == 3 ? seq + 2 : seq + 1;
        Bytes m = sec(type, variant == 4 ? chan + 1 : chan, variant == 1 ? token + 1 : variant == 6 ? oldToken : token, s, req + reqStep, b);
        if (variant == 5) m = chunk(type, m.substr(8, 9));
        p->send(m);
        if (phase == opening) { vague = true; return true; }        // not before the channel is open
        if (variant) { down(failed); return true; }
        seq = s;
        lastReq = req += reqStep;
        if (type[0] == 'C') { down(ended); return true; }
        due.push_back({request, b});
        if (policy == 1) out.push_back({lastReq, "re:" + b});
        if (policy == 2) phase = idle;
        return true;
    }
    // a message with one bit of channel, token or sequence number inverted
    void flipped(char const* type, int field, std::uint32_t bit)
    {
        p->send(sec(type, chan ^ (field == 0 ? bit : 0), token ^ (field == 1 ? bit : 0), (seq + 1) ^ (field == 2 ? bit : 0), req + 1, type[0] == 'C' ? body(452, 0) : "body"));
        down(failed);
    }
    bool badOpen(std::size_t n)
    {
        if (!talking() || phase < opening) return false;
        Bytes const m = opn(0, 9, 9);
        if (n + 8 >= m.size()) return false;
        p->send(chunk("OPN", m.substr(8, n)));
        down(failed);
        return true;
    }
    bool answerNow(std::size_t n)
    {
        Bytes const b = pat(n, 5);
        user(b);
        if (phase == up && n <= 4096 - 24) out.push_back({lastReq, b});
        return phase == up || phase == idle;
    }
    void check()
    {
        if (stop()) return;
        env.settle();
        env.advance(5 * US);
        if (stop()) return;
        std::vector<Ev> now(got.begin() + seen, got.end());
        seen = got.size();
        if (vague && now.size() == due.size() + 1 && now.back().t >= failed) { due.push_back(now.back()); phase = idle; }
        // how a lost connection is called is not settled
        bool same = now.size() == due.size();
        for (std::size_t i = 0; same && i < now.size(); ++i) same = now[i] == due[i] || (now[i].t >= failed && due[i].t == lost);
        if (!same) { r.fail("expected" + show(due) + ", reported" + show(now)); return; }
        due.clear();
        // what was sent
        while (p && p->got.size() - rd >= 8)
        {
            std::uint32_t const n = rd32(p->got, rd + 4);
            if (n < 8 || n > p->got.size() - rd) { r.fail("a malformed message is sent"); return; }
            Bytes const m = p->got.substr(rd, n);
            rd += n;
            uaref::In in{m};
            in.p = 8;
            if (m.substr(0, 4) == "ACKF" && ackDue) { ackDue = false; continue; }
            std::uint32_t const c = in.u32();
            std::uint32_t s = 0, q = 0;
            if (m.substr(0, 4) == "OPNF" && opnDue)
            {
                --opnDue;
                if (in.str().value_or("") != "http://opcfoundation.org/UA/SecurityPolicy#None") r.fail("another security policy");
                in.str(); in.str();
                s = in.u32(); q = in.u32();
                if (in.nodeId().second != 449) r.fail("the response to the open request is another message");
                in.u64(); in.u32(); in.u32(); in.diag(); in.arr(); in.ext();
                in.u32();
                std::uint32_t const c2 = in.u32();
                std::uint32_t const fresh = in.u32();
                if (haveSeq && fresh == token) r.fail("a renewed channel keeps its token");
                if (haveSeq) oldToken = token;
                token = fresh;
                in.u64();
                std::uint32_t const granted = in.u32();
                in.str();
                if (!stop() && !opnDue && granted != wantLife) r.fail("another lifetime is granted");
                if (!stop() && !in.done()) r.fail("the response to the open request is malformed");
                if (!stop() && (c2 != c || (chan && c != chan))) r.fail("the channel changes its id");
                if (!stop() && q != lastReq && !opnDue) r.fail("the open response belongs to another request");
                chan = c;
            }
            else if (m.substr(0, 4) == "MSGF" && !out.empty())
            {
                std::uint32_t const t = in.u32();
                s = in.u32(); q = in.u32();
                if (c != chan || t != token) r.fail("a message carries another channel or token");
                else if (q != out.front().req) r.fail("a message answers another request");
                else if (m.substr(24) != out.front().b) r.fail("a message is changed");
                out.pop_front();
            }
            else { r.fail("an unexpected " + m.substr(0, 3) + " is sent"); }
            if (stop()) return;
            if (haveSeq && s != rxSeq + 1) { r.fail("the sequence numbers are not consecutive"); return; }
            rxSeq = s;
            haveSeq = true;
        }
        if (phase != idle && (ackDue || opnDue || !out.empty())) { r.fail("a response is missing"); return; }
        std::size_t const extra = env.k.files.size() - base - refused.size() - (other ? other->refused.size() : 0);
        if (extra != (phase == idle ? 0u : 2u) + (other && other->phase != idle ? 2u : 0u)) { r.fail(phase == idle ? "the link or timer of a finished channel is left open" : "the channel lost its link or timer"); return; }
        if (phase == idle && p && !p->sutClosed) r.fail("the link is left open");
        if (phase != idle && p->sutClosed) r.fail("the link was closed");
        r.state(mc::mix(phase * 8 + policy, got.size() * 64 + (seq & 63)));
    }
    void finish()
    {
        if (stop()) return;
        policy = 1;
        ch->close();
        phase = idle;
        check();
        if (stop()) return;
        {
            auto f = slots(env);
            f.first += refused.size();
            if (f != free) { r.fail("a closed channel keeps a link or timer"); return; }
        }
        open(); check();
        helloMsg(); check();
        openMsg(77); check();
        msg("MSG", 0, "again"); check();
        if (!stop() && phase != up) r.fail("a new channel is not established");
        if (stop()) return;
        ch.reset();
        env.settle();
        if (!p->sutClosed) r.fail("the link of a destroyed channel is left open");
        r.outcome(env.k.calls);
    }
};

static void sequences(mc::Run& r)
{
    World w(r, r.choose(5, "handler"));
    w.open();
    w.check();
    int const depth = g_th ? 6 : 5;
    for (int i = 0; i < depth && !w.stop(); ++i)
    {
        int const op = r.choose(20, "event");
        bool did = true;
        switch (op)
        {
        case 17: did = w.msg("MSG", 3, "body"); break;
        case 18: did = w.msg("MSG", 6, "body"); break;
        case 19: did = w.msg("CLO", 2, body(452, 0)); break;
        case 0: w.open(); break;
        case 1: w.ch->close(); w.phase = World::idle; break;
        case 2: did = w.helloMsg(); break;
        case 3: did = w.openMsg(5000); break;
        case 4: did = w.msg("MSG", 0, "body"); break;
        case 5: did = w.msg("MSG", 1, "body"); break;
        case 6: did = w.msg("MSG", 2, "body"); break;
        case 7: did = w.msg("MSG", 4, "body"); break;
        case 8: did = w.msg("MSG", 5, "body"); break;
        case 9: did = w.msg("CLO", 0, body(452, 0)); break;
        case 10: did = w.msg("CLO", 1, body(452, 0)); break;
        case 11: did = w.talking(); if (did) { w.p->close(); w.down(lost); } break;
        case 12: did = w.talking(); if (did) { w.p->reset(); w.down(lost); } break;
        case 13: did = w.phase != World::idle; if (did) { w.env.advance(w.deadline - w.env.k.now); w.down(lost); } break;
        case 14: did = w.answerNow(10); break;
        case 15: did = w.badOpen(20); break;
        case 16: did = w.msg("MSG", 0, "one"); if (did && w.phase == World::up) did = w.msg("MSG", 0, "two"); break;
        }
        if (w.stop()) return;
        if (!did) return;
        r.note("event " + std::to_string(op));
        w.check();
    }
    w.finish();
}
// open requests cut off anywhere, messages of all lengths in both directions
static void shapes(mc::Run& r)
{
    World w(r, r.choose(2, "handler"));
    w.open(); w.check();
    w.helloMsg(); w.check();
    int const what = r.choose(4, "what");
    if (what == 0)
    {
        bool const later = r.choose(2, "renewal");
        std::size_t const n = r.choose(140, "length");
        if (later) { w.openMsg(1); w.check(); }
        if (!w.badOpen(n)) return;
        w.check();
        w.finish();
        return;
    }
    w.openMsg(60000);
    w.check();
    static std::size_t const lens[] = {0, 1, 100, 1000, 1001, 1024, 2000, 4000, 4068, 4069, 4070, 4071, 4072, 4073, 4080, 4095, 4096};
    if (what == 1)
    {
        std::size_t const n = lens[r.choose(17, "length")];
        if (n > 4072) return;
        if (w.policy == 1 && n > 4069) return;      // the answer is longer
        w.msg("MSG", 0, pat(n, 4));
        w.check();
    }
    if (what == 2) { w.msg("MSG", 0, "x"); w.check(); w.answerNow(lens[r.choose(17, "length")]); w.check(); w.answerNow(3); w.check(); }
    if (what == 3)
    {
        // the answer can not be sent completely
        if (w.policy != 1) return;
        w.p->limitTx(r.choose(31, "accepted bytes"));
        w.msg("MSG", 0, "1234");        // answer: 24 + 3 + 4 bytes
        w.out.clear();
        w.down(failed);
        w.env.settle();
        w.rd = w.p->got.size();
        w.check();
    }
    w.finish();
}
// every bit of channel, token and sequence number counts
static void bits(mc::Run& r)
{
    bool const clo = r.choose(2, "message");
    int const field = r.choose(3, "field");
    std::uint32_t const bit = 1u << r.choose(32, "bit");
    int const before = r.choose(3, "before");
    World w(r, 1);
    w.open(); w.check();
    w.helloMsg(); w.check();
    w.openMsg(60000); w.check();
    if (before >= 1) { w.msg("MSG", 0, "valid"); w.check(); }
    if (before >= 2) { w.openMsg(60000); w.check(); }
    if (w.stop()) return;
    w.flipped(clo ? "CLO" : "MSG", field, bit);
    w.check();
    w.finish();
}
// sequence numbers, request ids and lifetimes of any value
static void values(mc::Run& r)
{
    static std::uint32_t const v[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000u, 0xfffffff0u};
    std::uint32_t const first = v[r.choose(15, "sequence number")], req = v[r.choose(15, "request id")], life = v[r.choose(15, "lifetime")];
    World w(r, 1);
    w.open(); w.check();
    w.helloMsg(); w.check();
    w.req = req;
    w.openAs(first, life); w.check();
    for (int i = 0; i < 3; ++i) { w.msg("MSG", 0, pat(10 + i, i)); w.check(); }
    w.openAs(w.seq + 1, ~life); w.check();
    w.msg("MSG", 0, pat(200, 9)); w.check();
    w.finish();
}
// request ids and contents need not be distinct
static void repeated(mc::Run& r)
{
    static std::uint32_t const steps[] = {0, 0xffffffffu, 0x10000, 0x80000000u};
    std::uint32_t const step = steps[r.choose(4, "step of the request id")];
    int const n = 2 + r.choose(3, "requests"), same = r.choose(2, "same content"), together = r.choose(2, "together"), renew = r.choose(2, "renewed"), open = r.choose(2, "id of the open request counts");
    World w(r, r.choose(2, "handler"));
    if (open) w.reqStep = step;
    for (int round = 0; round < 2 && !w.stop(); ++round)
    {
        w.open(); w.check();
        w.helloMsg(); w.check();
        w.openMsg(1000); w.check();
        w.reqStep = step;
        for (int i = 0; i < n && !w.stop(); ++i)
        {
            if (renew && i == 1) { w.check(); w.openMsg(2000); w.check(); }
            w.msg("MSG", 0, pat(50, same ? 0 : i));
            if (!together) w.check();
        }
        w.check();
        w.msg("CLO", 0, body(452, 0));
        w.check();
    }
    w.finish();
}
// two channels in one event loop do not notice each other
static void two(mc::Run& r)
{
    int const pa = r.choose(2, "handler"), start = r.choose(4, "start"), depth = g_th ? 5 : 4;
    World a(r, pa), b(r, 1, &a);
    World* ws[] = {&a, &b};
    auto check = [&] { a.check(); b.check(); };
    if (start >= 1) for (auto* w : ws) { w->open(); check(); w->helloMsg(); check(); }
    if (start >= 2) for (auto* w : ws) { w->openMsg(1000 + w->port); check(); }
    if (start == 3) for (auto* w : {&b, &a, &b}) { w->msg("MSG", 0, pat(30, w->port)); check(); }
    for (int i = 0; i < depth && !a.stop(); ++i)
    {
        World& w = *ws[r.choose(2, "channel")];
        World& o = *w.other;
        int const op = r.choose(9, "event");
        bool did = true;
        switch (op)
        {
        case 0: if (w.phase != World::idle) return; w.open(); break;
        case 1: did = w.helloMsg(); break;
        case 2: did = w.openMsg(2000 + w.port); break;
        case 3: did = w.phase == World::up && w.msg("MSG", 0, pat(40 + i, w.port)); break;
        case 4: did = w.phase == World::up && w.msg("CLO", 0, body(452, 0)); break;
        case 5: did = w.phase == World::up && w.msg("MSG", 3, "gap"); break;
        case 6: did = w.talking(); if (did) { w.p->close(); w.down(lost); } break;
        case 7: did = w.phase != World::idle; w.ch->close(); w.phase = World::idle; break;
        case 8:                         // with the other channel's id and token
            did = w.phase == World::up && w.token && o.phase == World::up && o.token && (o.chan != w.chan || o.token != w.token);
            if (did) { w.p->send(sec("MSG", o.chan, o.token, w.seq + 1, w.req + 1, "foreign")); w.down(failed); }
            break;
        }
        if (!did || a.stop()) return;
        check();
    }
    if (a.stop()) return;
    for (auto* w : ws) { w->policy = 1; if (w->phase != World::idle) { w->ch->close(); w->phase = World::idle; } check(); }
    for (auto* w : ws) { w->open(); check(); w->helloMsg(); check(); w->openMsg(3000); check(); }
    for (auto* w : {&a, &b, &a}) { w->msg("MSG", 0, pat(33, w->port)); check(); }
    if (!a.stop() && (a.phase != World::up || b.phase != World::up)) r.fail("a new channel is not established");
    r.outcome(a.env.k.calls);
}
// one object, many channels with many requests
static void longRun(mc::Run& r)
{
    int const ends = r.choose(6, "end");
    int const rounds = g_th ? 2000 : 100;
    World w(r, 1);
    for (int i = 0; i < rounds && !w.stop(); ++i)
    {
        w.open(); w.check();
        w.helloMsg(); w.check();
        w.openMsg(1000 + i); w.check();
        for (int k = 0; k < (i == 5 ? 400 : 3) && !w.stop(); ++k)
        {
            if (k % 7 == 6) w.openMsg(7 * i); else w.msg("MSG", 0, pat((i * 13 + k * 57) % 3000, i + k));
            w.check();
        }
        switch (ends < 5 ? ends : i % 5)
        {
        case 0: w.ch->close(); w.phase = World::idle; break;
        case 1: w.msg("CLO", 0, body(452, 0)); break;
        case 2: w.p->close(); w.down(lost); break;
        case 3: w.p->reset(); w.down(lost); break;
        case 4: w.msg("MSG", 1 + i % 5, "wrong"); break;
        }
        w.check();
        w.got.clear();
        w.seen = 0;
    }
    w.finish();
}
// all segmentations of a conversation
static void segments(mc::Run& r)
{
    World w(r, 1);
    w.open(); w.check();
    w.helloMsg(); w.check();
    w.openMsg(60000); w.check();
    Bytes const m1 = sec("MSG", w.chan, w.token, w.seq + 1, 100, "first"), m2 = sec("MSG", w.chan, w.token, w.seq + 2, 101, "second one"), cl = sec("CLO", w.chan, w.token, w.seq + 3, 102, body(452, 0));
    Bytes const all = m1 + m2 + cl;
    std::size_t const a = r.choose(all.size() + 1, "cut"), b = a + r.choose(all.size() + 1 - a, "second cut");
    std::size_t sent = 0, done = 0;
    auto part = [&](std::size_t to) {
        w.p->send(all.substr(sent, to - sent));
        sent = to;
        if (sent >= m1.size() && done < 1) { done = 1; w.due.push_back({request, "first"}); w.out.push_back({100, "re:first"}); }
        if (sent >= m1.size() + m2.size() && done < 2) { done = 2; w.due.push_back({request, "second one"}); w.out.push_back({101, "re:second one"}); }
        if (sent == all.size() && done < 3) { done = 3; w.down(ended); }
        w.check();
    };
    if (a && !w.stop()) part(a);
    if (b > a && !w.stop()) part(b);
    if (b < all.size() && !w.stop()) part(all.size());
    w.finish();
}
} // namespace sc

int main(int argc, char** argv)
{
    return mc::main(argc, argv, [](std::string const& prop, bool th) {
        g_th = th;
        std::vector<mc::Scenario> v;
        if (prop == "C20")
        {
            v.push_back({"sequences", "3 modes x 6 handlers, all sequences of 5 (thorough 6) of 17 link, timer and user events", sequences});
            v.push_back({"segments", "handshake and 3 chunks cut anywhere, once or twice, with and without a close behind", segments});
            v.push_back({"sizes", "27 announced sizes x segmentation x another chunk behind", sizes});
            v.push_back({"sizeBits", "handshake message and chunk x every bit of the announced size", sizeBits});
            v.push_back({"sends", "23 x 23 lengths, the second message possible, cut off or behind a reset", sends});
            v.push_back({"two", "two objects of 6 pairs of modes from 4 stages, all sequences of 3 (thorough 4) of 12 events of either", two});
            v.push_back({"repeated", "2-5 equal chunks of 4 lengths, together, apart, in halves, on two connections", repeated});
            v.push_back({"longRun", "150 (thorough 3000) connections of one object, 4 ends and their mix, some in the middle of a message", longRun});
            v.push_back({"greetings", "valid Hellos and Acknowledges: all field values x 8 urls", greetings});
            v.push_back({"handshakes", "handshake messages of all types, chunk types, lengths and string lengths", handshakes});
            v.push_back({"faults", "the handshake can be sent only in part, each failing call of connect", faults});
            v.push_back({"pairs", "client and server connection against each other, 5 segmentations x 4 ends", pairs});
        }
        if (prop == "C21")
        {
            v.push_back({"sequences", "5 handlers, all sequences of 5 (thorough 6) of 20 events", sc::sequences});
            v.push_back({"shapes", "open requests cut off anywhere, messages of all lengths in both directions, partial writes", sc::shapes});
            v.push_back({"bits", "request and close x every bit of channel, token, sequence number, 3 histories", sc::bits});
            v.push_back({"values", "15 sequence numbers x 15 request ids x 15 lifetimes", sc::values});
            v.push_back({"two", "two channel objects from 4 stages, all sequences of 4 (thorough 5) of 9 events of either, among them messages of the other's channel", sc::two});
            v.push_back({"repeated", "2-4 requests with equal, descending or distant ids, equal or different content, together or apart, renewals between", sc::repeated});
            v.push_back({"longRun", "100 (thorough 2000) channels of one object, 5 ends and their mix", sc::longRun});
            v.push_back({"segments", "two requests and a close cut anywhere, twice", sc::segments});
        }
        return v;
    });
}
