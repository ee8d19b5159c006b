// C09, C10, C11: Modbus server (real ModbusComponent, Reactor, Acceptor, Link, Timer) against every behaviour of its
// clients, the network and the application within the bound.
#include <algorithm>
#include "mbus.hpp"
#include "ModbusComponent.hpp"
#include "MsgModbusInitReq.hpp"
#include "MsgModbusInitRsp.hpp"
#include "MsgModbusConfigReq.hpp"
#include "MsgModbusConfigRsp.hpp"
#include "MsgModbusAduReq.hpp"
#include "MsgModbusAduRsp.hpp"
#include "MsgModbusReleaseReq.hpp"
#include "MsgModbusReleaseRsp.hpp"
#include "Modbus.hpp"

using namespace app;
using mbref::Req;

static std::string g_prop;
enum { C09 = 1, C10 = 2, C11 = 4, ALL = 7 };
static bool mine(int mask)
{
    return (g_prop == "C09" && (mask & C09)) || (g_prop == "C10" && (mask & C10)) || (g_prop == "C11" && (mask & C11));
}
static constexpr std::int64_t MS = 1000000, SEC = 1000 * MS;

enum Verdict { never, may, must };
// reference decoder of a complete request frame
static Verdict decodeReq(std::string const& s, Req& q)
{
    auto b = [&](std::size_t i) -> unsigned { return (unsigned char)s[i]; };
    if (s.size() < 12 || b(2) || b(3)) return never;
    unsigned len = b(4) << 8 | b(5);
    if (len + 6 != s.size() || s.size() >= 260) return never;
    q = Req{b(0) << 8 | b(1), b(6), b(7), b(8) << 8 | b(9), 0, ""};
    if (q.unit > 247) return never;
    unsigned v = b(10) << 8 | b(11);
    switch (q.func)
    {
    case 1: case 2:
        if (len != 6 || v > 2008) return never;
        q.num = v;
        return v && v <= 2000 ? must : may;
    case 3: case 4:
        if (len != 6 || v > 125) return never;
        q.num = v;
        return v ? must : may;
    case 5: case 6:
        if (len != 6) return never;
        q.data = mbref::swap16(s.substr(10, 2));
        return q.func == 6 || v == 0 || v == 0xff00 ? must : may;
    case 0x10:
        if (s.size() < 13 || b(12) != v * 2 || len != 7 + b(12)) return never;
        q.num = v;
        q.data = mbref::swap16(s.substr(13));
        return v && v <= 123 ? must : may;
    }
    return never;
}

struct Conn
{
    sim::PeerPtr p;
    unsigned server = 0;
    bool waiting = false;
    std::string buf;            // received so far of the current frame
    Req q{};
    std::int64_t since = 0;     // entered the present state
    std::int64_t lastByte = 0;
    bool peerGone = false;      // we closed or reset it
    bool mayClose = false;      // the server is entitled to close it
    bool vague = false;         // left the specified behaviour: only safety is checked
    long sid = -1;              // session id the server uses for it
    std::string out;            // what the client must have received
    bool outMay = false;        // a response raced with the end of the connection
    int forwarded = 0;
};

struct Srv
{
    Env env;
    modbus::ModbusComponent comp;
    mc::Run& run;
    std::vector<std::shared_ptr<Conn>> conns;
    struct Exp { std::shared_ptr<Conn> c; Req q; Verdict v; };
    std::vector<Exp> expected;
    unsigned nextTid = 0x0a01;
    std::uint64_t h = 0;
    bool backlogOk = false;

    Srv(mc::Run& r) : env(r), comp(env, *env.reactor), run(r)
    {
        env.onMsg = [this](RawMsg const& m) { if (m.id == MsgIds::modbusAduReq) onReq(m.as<MsgModbusAduReq>()); };
        env.start();
    }
    ~Srv() { env.shutdown(); }
    void rule(int mask, std::string const& w) { if (mine(mask)) run.fail(w); else if (!run.stopped()) { run.note("(other property) " + w); run.aborting = true; } }
    bool stop() const { return run.stopped(); }

    void init(unsigned servers)
    {
        reactor::MsgStore<MsgModbusInitReq> m;
        m.getMsg().maxNumServers = servers;
        m.getMsg().maxNumClients = 0;
        env.post(m);
        reactor::MsgStore<MsgModbusConfigReq> c;
        c.getMsg().numItems = servers;
        for (unsigned i = 0; i < servers; ++i)
        {
            auto& it = c.getMsg().items[i];
            it.id = i;
            it.mode = ModbusConfig::Mode::server;
            it.addr = reactor::LinkAddr{};
            it.addr.type = reactor::LinkAddr::Type::ipv4;
            it.addr.data[0] = 127; it.addr.data[3] = 1;
            it.addr.data[4] = 2; it.addr.data[5] = (char)(0xf0 + i);
        }
        env.post(c);
        env.settle();
        if (env.k.listeners().size() != servers) rule(ALL, "a configured server does not listen");
    }
    static unsigned port(unsigned s) { return 0x2f0 + s; }

    void onReq(MsgModbusAduReq const& m)
    {
        Req q{m.transactId, m.addr, (unsigned)toUint8(m.func), m.startItem, m.numItems, std::string((char const*)m.data, m.numBytes)};
        run.note("forwarded server=" + std::to_string(m.serverId) + " session=" + std::to_string(m.sessionId) + " tid=" + std::to_string(q.tid) + " func=" + std::to_string(q.func) + " start=" + std::to_string(q.start) + " num=" + std::to_string(q.num) + " data=" + mc::hex(q.data));
        h = mc::mix(h, q.tid);
        for (std::size_t i = 0; i < expected.size(); ++i)
        {
            auto& e = expected[i];
            if (e.q.tid != q.tid || e.c->server != m.serverId) continue;
            if (e.c->sid >= 0 && e.c->sid != (long)m.sessionId) continue;
            if (e.q.unit != q.unit || e.q.func != q.func || e.q.start != q.start || e.q.num != q.num || e.q.data != q.data)
            {
                rule(C09, "a request is forwarded with wrong content");
                return;
            }
            if (e.c->sid < 0)
            {
                for (auto& o : conns)
                    if (o != e.c && o->server == e.c->server && o->sid == (long)m.sessionId && !o->p->sutClosed) { rule(C09 | C10, "two live sessions have the same id"); return; }
                e.c->sid = m.sessionId;
            }
            e.c->waiting = true;
            e.c->q = e.q;
            e.c->since = env.k.now;
            e.c->forwarded++;
            expected.erase(expected.begin() + i);
            return;
        }
        for (auto& c : conns) if (c->vague) return;
        rule(C09, "a request is forwarded that no client sent, or a second time");
    }

    // model of a chunk arriving on an idle or waiting session
    void feed(std::shared_ptr<Conn> const& c, std::string const& b)
    {
        if (b.empty()) return;
        run.note("client " + std::to_string(c->p->id) + " sends " + mc::hex(b));
        c->p->send(b);
        c->lastByte = env.k.now;
        if (c->waiting || c->vague || c->peerGone) return;
        c->buf += b;
        while (true)
        {
            if (c->buf.size() < 6) return;
            unsigned len = (unsigned char)c->buf[4] << 8 | (unsigned char)c->buf[5];
            if (len + 6 >= 260) { c->mayClose = true; c->vague = true; return; }
            if (c->buf.size() < len + 6) return;
            if (c->buf.size() > len + 6) { c->vague = true; return; }
            Req q{};
            Verdict v = decodeReq(c->buf, q);
            c->buf.clear();
            if (v != never) expected.push_back({c, q, v});
            return;
        }
    }
    std::shared_ptr<Conn> dial(unsigned server = 0)
    {
        auto p = env.k.dial(port(server));
        if (!p) { rule(C11, "the server does not listen any more"); return nullptr; }
        auto c = std::make_shared<Conn>();
        c->p = p;
        c->server = server;
        c->since = c->lastByte = env.k.now;
        conns.push_back(c);
        run.note("client " + std::to_string(p->id) + " connects");
        return c;
    }
    void settle()
    {
        env.settle();
        if (stop()) return;
        for (auto& e : expected)
            if (e.v == must && !e.c->outMay) { rule(C09 | C11, "a well-formed request is not forwarded (tid " + std::to_string(e.q.tid) + ")"); return; }
        expected.clear();
        std::uint64_t s = h;
        for (auto& c : conns)
        {
            // time-outs of the model
            bool closeDue = false;
            if (c->waiting && env.k.now - c->since >= 5 * SEC) { c->waiting = false; c->buf.clear(); c->since = env.k.now; }
            if (!c->waiting && env.k.now - std::max(c->since, c->lastByte) >= 30 * SEC + 50 * MS) closeDue = true;
            bool mayInact = !c->waiting && env.k.now - c->since >= 30 * SEC - 50 * MS;
            if (c->p->sutClosed)
            {
                if (!c->peerGone && !c->mayClose && !c->vague && !mayInact) { rule(C11 | C10 | C09, "the server closes a healthy connection"); return; }
            }
            else
            {
                if (c->peerGone && c->p->accepted) { rule(C11, "the server keeps a connection that its client has ended"); return; }
                if (closeDue && !c->vague) { rule(C11, "the server keeps an inactive connection"); return; }
                if (!c->p->accepted && !backlogOk) { rule(C11, "a connection is not accepted although there is capacity"); return; }
            }
            if (!c->vague && c->p->got != c->out && !c->outMay) { rule(C10, "client " + std::to_string(c->p->id) + " received " + mc::hex(c->p->got) + " instead of " + mc::hex(c->out)); return; }
            s = mc::mix(s, c->waiting * 4 + c->p->sutClosed * 2 + c->peerGone + (c->buf.size() << 4));
        }
        s = mc::mix(s, env.k.countOpen(sim::File::Kind::socket) * 64 + env.k.armedTimers().size());
        run.state(s);
    }
    bool tick()
    {
        if (!env.k.fireNextTimer()) return false;
        run.note("t=" + std::to_string(env.k.now / MS) + "ms timer");
        settle();
        return true;
    }
    // time passes; whatever is due happens
    void pass(std::int64_t ns)
    {
        std::int64_t const end = env.k.now + ns;
        for (std::int64_t d; !stop() && env.k.nextDeadline(d) && d <= end;) tick();
        if (!stop() && env.k.now < end) { env.k.advanceTo(end); settle(); }
    }
    void post(unsigned server, unsigned sid, unsigned tid, ModbusError err, MsgStatus st, std::string const& data)
    {
        reactor::MsgStore<MsgModbusAduRsp> m;
        auto& r = m.getMsg();
        r.serverId = server;
        r.sessionId = sid;
        r.transactId = tid;
        r.error = err;
        r.status = st;
        r.numBytes = data.size();
        std::memcpy(r.data, data.data(), data.size());
        run.note("application responds session=" + std::to_string(sid) + " tid=" + std::to_string(tid) + " err=" + std::to_string((int)err) + " status=" + std::to_string(st == MsgStatus::success) + " bytes=" + std::to_string(data.size()));
        env.post(m);
    }
    static bool replies(unsigned func) { return func == 3 || func == 4 || func == 5 || func == 6 || func == 0x10; }
    static std::string dataFor(Req const& q)
    {
        std::string d;
        if (q.func == 3 || q.func == 4) for (unsigned i = 0; i < q.num * 2; ++i) d += (char)(q.tid + i * 5 + 1);
        if (q.func == 5 || q.func == 6) d = q.data;
        return d;
    }
    // the application's right response to the outstanding request
    void respond(std::shared_ptr<Conn> const& c)
    {
        std::string d = dataFor(c->q);
        if (!mbref::encode(c->q))       // forwarded, but not a value the protocol knows: refused by the application
        {
            c->out += mbref::exception(c->q, 3);
            post(c->server, c->sid, c->q.tid, ModbusError::illegalDataValue, MsgStatus::success, "");
            answered(c);
            return;
        }
        if (replies(c->q.func)) c->out += mbref::reply(c->q, d);
        post(c->server, c->sid, c->q.tid, ModbusError::noerror, MsgStatus::success, d);
        answered(c);
    }
    void answered(std::shared_ptr<Conn> const& c)
    {
        c->waiting = false;
        c->since = env.k.now;
        c->lastByte = env.k.now;
        c->buf.clear();
    }
    Req mk(unsigned func, unsigned start = 0x0102, unsigned num = 2, std::string data = "", unsigned unit = 5)
    {
        return Req{nextTid++, unit, func, start, num, data};
    }
    Req next(int k)
    {
        switch (k % 4)
        {
        case 0: return mk(0x10, 0x1122, 3, "abcdef", 9);
        case 1: return mk(3, 0x0304, 4, "", 1);
        case 2: return mk(6, 0x0506, 0, "xy", 0);
        default: return mk(5, 0xfffe, 0, std::string("\0\xff", 2), 247);
        }
    }
    // one complete exchange; the session must serve it
    void exchange(std::shared_ptr<Conn> const& c, int k)
    {
        if (stop() || c->vague || c->peerGone || c->p->sutClosed) return;
        if (c->waiting) { for (int i = 0; i < 70 && c->waiting && !stop(); ++i) tick(); }
        if (stop()) return;
        if (c->p->sutClosed) return;
        if (!c->buf.empty()) return;
        int n = c->forwarded;
        feed(c, *mbref::encode(next(k)));
        settle();
        if (stop()) return;
        if (c->forwarded != n + 1) { rule(C09 | C11, "a request is not served"); return; }
        respond(c);
        settle();
    }
    // a new client must be served
    void probe(unsigned server = 0)
    {
        if (stop()) return;
        auto c = dial(server);
        if (!c) return;
        settle();
        exchange(c, 1);
        exchange(c, 2);
        exchange(c, 0);
        if (stop()) return;
        c->p->close();
        c->peerGone = true;
        settle();
    }
    void finish()
    {
        if (stop()) return;
        for (auto& c : conns) exchange(c, 0);
        probe();
        if (stop()) return;
        // everything goes away
        for (auto& c : conns) if (!c->peerGone && !c->p->sutClosed) { c->p->close(); c->peerGone = true; }
        settle();
        if (stop()) return;
        if (env.k.countOpen(sim::File::Kind::socket) != env.k.listeners().size()) { rule(C11, "connections stay open after all clients have left"); return; }
        if (env.k.countOpen(sim::File::Kind::timer)) { rule(C11, "timers stay after all sessions have ended"); return; }
        run.outcome(h);
    }
};

// ------------------------------------------------------------------ requests: content x previous history x cut
static void content(mc::Run& r)
{
    static unsigned const funcs[] = {1, 2, 3, 4, 5, 6, 0x10};
    unsigned func = funcs[r.choose(7, "func")];
    int before = r.choose(4, "before");
    int vary = r.choose(4, "vary");
    Srv s(r);
    s.init(1);
    Req q = s.mk(func);
    bool const w1 = func == 5 || func == 6, w2 = func == 0x10;
    q.num = w1 ? 0 : 2;
    q.data = w1 ? std::string(func == 5 ? "\x00\xff" : "\xa1\xb2", 2) : w2 ? "wxyz" : "";
    static unsigned const units[] = {0, 1, 127, 128, 246, 247};
    static unsigned const starts[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0xff00, 0xffff};
    static unsigned const tids[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0x8000, 0xffff};
    if (vary == 0) q.unit = units[r.choose(6, "unit")];
    if (vary == 1) q.start = starts[r.choose(9, "start")];
    if (vary == 2) q.tid = tids[r.choose(9, "tid")];
    if (vary == 3)
    {
        if (w1)
        {
            static char const vals[][2] = {{0, 0}, {0, (char)0xff}, {0, 1}, {1, 0}, {(char)0x80, 0x7f}, {(char)0xff, (char)0xff}};
            q.data = std::string(vals[func == 5 ? r.choose(2, "value") : r.choose(6, "value")], 2);
        }
        else if (w2)
        {
            static unsigned const ns[] = {1, 2, 3, 60, 63, 64, 65, 122, 123};
            q.num = ns[r.choose(9, "num")];
            q.data.clear();
            for (unsigned i = 0; i < q.num * 2; ++i) q.data += (char)(i * 7 + 3);
        }
        else
        {
            static unsigned const ns[] = {1, 8, 9, 63, 64, 124, 125, 126, 256, 1999, 2000};
            q.num = ns[r.choose(func <= 2 ? 11 : 7, "num")];
        }
    }
    auto c = s.dial();
    auto other = s.dial();
    s.settle();
    s.exchange(other, 0);
    switch (before)
    {
    case 0: break;
    case 1: s.exchange(c, 0); s.exchange(c, 0); break;
    case 2: s.exchange(c, 3); break;
    case 3: s.feed(c, mbref::frame(9, 9, bytes({0x10, 0, 1, 0, 2, 4, 'a', 'b', 'c'}))); s.settle(); break;
    }
    if (s.stop()) return;
    auto f = mbref::encode(q);
    if (!f) return;
    int nseg = f->size() > 40 ? 24 : (int)f->size();
    int cut = r.choose(nseg + 1, "cut");
    std::vector<std::string> segs;
    if (cut == 0) segs = {*f};
    else if (cut == nseg) for (char ch : *f) segs.push_back(std::string(1, ch));
    else
    {
        std::size_t at = f->size() > 40 ? (cut < 14 ? cut : f->size() - (24 - cut)) : cut;
        segs = {f->substr(0, at), f->substr(at)};
    }
    int n = c->forwarded;
    for (std::size_t i = 0; i < segs.size() && !s.stop(); ++i)
    {
        s.feed(c, segs[i]);
        s.settle();
        if (!s.stop() && i + 1 < segs.size() && c->forwarded != n) s.rule(C09, "a request is forwarded before it is complete");
    }
    if (s.stop()) return;
    if (c->forwarded != n + 1) { s.rule(C09, "a well-formed request is not forwarded exactly once"); return; }
    s.respond(c);
    s.settle();
    s.exchange(c, 1);
    s.exchange(other, 2);
    s.finish();
}

// ------------------------------------------------------------------ two cuts, another session's bytes in between
static void segments(mc::Run& r)
{
    Srv s(r);
    s.init(1);
    int kind = r.choose(5, "request");
    auto c = s.dial();
    auto o = s.dial();
    s.settle();
    Req q = kind == 4 ? s.mk(1, 7, 9) : s.next(kind);
    std::string f = *mbref::encode(q);
    int a = r.choose(f.size(), "cut1"), b = a + r.choose(f.size() - a, "cut2");
    int inter = r.choose(3, "other session");
    Req q2 = s.next(kind + 1);
    std::string g = *mbref::encode(q2);
    std::string seg[3] = {f.substr(0, a), f.substr(a, b - a), f.substr(b)};
    std::string og[3] = {inter == 0 ? "" : g.substr(0, 7), inter == 0 ? "" : inter == 1 ? g.substr(7) : "", inter == 2 ? g.substr(7) : ""};
    for (int i = 0; i < 3 && !s.stop(); ++i)
    {
        s.feed(c, seg[i]);
        if (inter == 2) { s.feed(o, og[i]); s.settle(); }
        else { s.settle(); s.feed(o, og[i]); s.settle(); }
    }
    if (s.stop()) return;
    if (c->forwarded != 1) { s.rule(C09, "a request is not forwarded exactly once"); return; }
    if (o->waiting) { s.respond(o); s.settle(); }
    s.respond(c);
    s.settle();
    s.finish();
}

// ------------------------------------------------------------------ malformed input
static void malformed(mc::Run& r)
{
    Srv s(r);
    s.init(1);
    auto c = s.dial();
    auto o = s.dial();
    s.settle();
    int prev = r.choose(2, "earlier exchange");
    if (prev) s.exchange(c, 0);
    Req base = s.next(r.choose(4, "base"));
    std::string f = *mbref::encode(base);
    int what = r.choose(6, "kind");
    std::string m = f;
    switch (what)
    {
    case 0:     // any single byte of the frame replaced
    {
        int at = r.choose(f.size(), "byte");
        static int const vals[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 0x0f, 0x10, 0x11, 0x7f, 0x80, 0x81, 0x8f, 0xf7, 0xf8, 0xfe, 0xff};
        m[at] = (char)vals[r.choose(20, "value")];
        break;
    }
    case 1: m = f.substr(0, r.choose(f.size(), "truncated")); break;
    case 2: { int n = r.choose(16, "length"); m = mbref::frame(1, 5, std::string(n, (char)3)); break; }      // every short length
    case 3: m = mbref::frame(1, 5, f.substr(7), 0, r.choose(2, "long") ? 254 : 253); break;                 // longest admissible / first inadmissible length
    case 4: { static int const n[] = {1, 259, 260, 261, 511, 512, 513, 600, 1100}; m = std::string(n[r.choose(9, "bytes")], r.choose(2, "fill") ? '\0' : '\xff'); break; }
    case 5: m = f + f.substr(0, 1 + r.choose(f.size(), "extra")); break;
    }
    int cut = m.size() > 1 ? r.choose(3, "cut") : 0;
    if (cut == 0) { s.feed(c, m); s.settle(); }
    else
    {
        std::size_t at = cut == 1 ? 1 : m.size() / 2;
        s.feed(c, m.substr(0, at));
        s.settle();
        s.feed(c, m.substr(at));
        s.settle();
    }
    if (s.stop()) return;
    s.exchange(o, 1);
    if (c->waiting && !c->vague) s.respond(c), s.settle();
    s.exchange(c, 2);           // when the frame was complete, the session must go on
    s.exchange(c, 0);
    s.exchange(o, 3);
    if (!s.stop() && r.choose(2, "end"))
    {
        // silence: an unfinished frame must not keep the session for ever
        for (int i = 0; i < 80 && !s.stop() && !(c->p->sutClosed && o->p->sutClosed); ++i) if (!s.tick()) break;
        if (!s.stop() && !(c->p->sutClosed && o->p->sutClosed)) s.rule(C11, "the server keeps an inactive connection");
    }
    s.finish();
}

// ------------------------------------------------------------------ application responses
static void responses(mc::Run& r)
{
    Srv s(r);
    s.init(2);
    static unsigned const funcs[] = {1, 2, 3, 4, 5, 6, 0x10};
    unsigned func = funcs[r.choose(7, "func")];
    auto c = s.dial();
    auto o = s.dial();
    auto z = s.dial(1);
    s.settle();
    s.feed(o, *mbref::encode(s.next(1)));
    s.feed(z, *mbref::encode(s.next(1)));
    s.settle();
    bool const w1 = func == 5 || func == 6;
    Req q = s.mk(func, 0x1001, w1 ? 0 : 2, w1 ? std::string("\x00\xff", 2) : func == 0x10 ? "abcd" : "", 77);
    s.feed(c, *mbref::encode(q));
    s.settle();
    if (s.stop() || c->sid < 0) return;
    int kind = r.choose(8, "kind");
    std::string good = Srv::dataFor(q);
    bool exactly = true;        // the session must still be waiting afterwards
    switch (kind)
    {
    case 0:                     // success, any length
    {
        static int const lens[] = {0, 1, 2, 3, 4, 6, 120, 248, 250, 251, 252, 253, 254, 256, 260, 262, 300, 512, 514, 1000, 3000};
        int n = lens[r.choose(21, "length")];
        std::string d;
        for (int i = 0; i < n; ++i) d += (char)(i * 3 + 1);
        if (w1 && func == 5 && n == 2) d = std::string("\0\0", 2);
        bool fine = func == 0x10 ? true : w1 ? n == 2 : (func == 3 || func == 4) && n % 2 == 0 && n <= 250;
        bool maybe = (func == 3 || func == 4) && n % 2 == 0 && n > 250 && n <= 254;
        if (func <= 2) maybe = n <= 250;
        if (func == 0x10 && n) maybe = true;
        s.post(0, c->sid, q.tid, ModbusError::noerror, MsgStatus::success, d);
        if (maybe) { c->outMay = true; s.settle(); c->outMay = false; if (c->p->got != "" && c->p->got != mbref::reply(q, d)) { s.rule(C10, "a response is sent wrongly"); return; } c->out = c->p->got; s.answered(c); c->vague = false; exactly = false; break; }
        if (fine) { c->out += mbref::reply(q, d); s.answered(c); }
        else s.answered(c);     // cannot be sent: nothing goes out, the request is over
        exactly = false;
        break;
    }
    case 1:                     // exceptions
    {
        static ModbusError const errs[] = {ModbusError::illegalFunction, ModbusError::illegalDataAddress, ModbusError::illegalDataValue, ModbusError::serverDeviceFailure, ModbusError::acknowledge, ModbusError::serverDeviceBusy, ModbusError::negativeAcknowledge, ModbusError::memoryParityError, ModbusError::gatewayPathUnavailable, ModbusError::gatewayTargetDeviceFailed};
        auto e = errs[r.choose(10, "error")];
        s.post(0, c->sid, q.tid, e, MsgStatus::success, r.choose(2, "with data") ? good : "");
        c->out += mbref::exception(q, (unsigned)e);
        s.answered(c);
        exactly = false;
        break;
    }
    case 2: s.post(0, c->sid, q.tid, ModbusError::noerror, MsgStatus::error, good); s.answered(c); exactly = false; break;
    case 3:                     // wrong transaction id
    {
        int const bit = r.choose(17, "bit of the id");
        s.post(0, c->sid, q.tid ^ (bit == 16 ? 0xffff : 1u << bit), ModbusError::noerror, r.choose(2, "status") ? MsgStatus::error : MsgStatus::success, good);
        break;
    }
    case 4:                     // other or absent session
    {
        static unsigned const sids[] = {0, 1, 2, 3, 31, 32, 255, 256, 257, 0x7fffffff, 0x80000000, 0xffffffff};
        unsigned sid = sids[r.choose(12, "session")];
        if (sid == (unsigned)c->sid) return;
        s.post(0, sid, q.tid, ModbusError::noerror, MsgStatus::success, good);
        break;
    }
    case 5:                     // other or absent server
    {
        static unsigned const sv[] = {1, 2, 3, 255, 0x7fffffff, 0x80000000, 0xffffffff};
        s.post(sv[r.choose(7, "server")], c->sid, q.tid, ModbusError::noerror, MsgStatus::success, good);
        break;
    }
    case 6:                     // twice
        s.respond(c);
        s.post(0, c->sid, q.tid, ModbusError::noerror, MsgStatus::success, good);
        if (r.choose(2, "third")) { s.settle(); s.post(0, c->sid, q.tid, ModbusError::noerror, MsgStatus::success, good); }
        exactly = false;
        break;
    case 7:                     // late: after the time-out, perhaps with another request outstanding
    {
        for (int i = 0; i < 10 && c->waiting && !s.stop(); ++i) s.tick();
        Req q2{};
        bool second = r.choose(2, "second request");
        if (second) { q2 = s.next(1); s.feed(c, *mbref::encode(q2)); s.settle(); }
        if (s.stop()) return;
        s.post(0, c->sid, q.tid, ModbusError::noerror, MsgStatus::success, good);
        s.settle();
        exactly = false;
        break;
    }
    }
    s.settle();
    if (s.stop()) return;
    if (exactly && !c->waiting) return;
    // the right responses still reach their clients
    for (auto& x : {c, o, z}) if (x->waiting) { s.respond(x); s.settle(); if (s.stop()) return; }
    s.exchange(c, 1);
    s.exchange(o, 2);
    s.exchange(z, 0);
    s.finish();
}

// ------------------------------------------------------------------ transaction ids need not be distinct
static void sameIds(mc::Run& r, int depth)
{
    Srv s(r);
    s.init(2);
    std::vector<std::shared_ptr<Conn>> v{s.dial(0), s.dial(0), s.dial(1)};
    s.settle();
    for (int i = 0; i < 3 && !s.stop(); ++i) s.exchange(v[i], i);
    static unsigned const ids[] = {0x0a0a, 0, 0xffff};
    unsigned const tid = ids[r.choose(3, "transaction id")];
    int const same = r.choose(2, "same content");
    for (int d = 0; d < depth && !s.stop(); ++d)
    {
        auto& c = v[r.choose(3, "client")];
        if (c->p->sutClosed) return;
        switch (r.choose(c->waiting ? 4 : 3, c->waiting ? "respond/fail/exception/time out" : "request/stray response/stray failure"))
        {
        case 0:
            if (c->waiting) { s.respond(c); break; }
            s.nextTid = tid;
            {
                int const n = c->forwarded;
                s.feed(c, *mbref::encode(s.next(same ? 0 : d)));
                s.settle();
                if (!s.stop() && c->forwarded != n + 1) s.rule(C09 | C11, "a request is not served");
            }
            break;
        case 1:
            s.post(c->server, c->sid, tid, ModbusError::noerror, c->waiting ? MsgStatus::error : MsgStatus::success, "ab");
            if (c->waiting) s.answered(c);
            break;
        case 2:
            if (c->waiting) { c->out += mbref::exception(c->q, 2); s.post(c->server, c->sid, tid, ModbusError::illegalDataAddress, MsgStatus::success, ""); s.answered(c); }
            else s.post(c->server, c->sid, tid, ModbusError::noerror, MsgStatus::error, "");
            break;
        case 3: s.pass(5050 * MS); break;
        }
        s.settle();
    }
    for (auto& c : v) if (!s.stop() && c->waiting) { s.respond(c); s.settle(); }
    s.finish();
}

// ------------------------------------------------------------------ all sequences of actions
enum Act { aDial, aReq, aPart, aRest, aBad, aClose, aReset, aResp, aWrongTid, aFailed, aExc, aDup, aTick, aPipe, aDialReq, aReqClose, aWriteFail };
static char const* actName[] = {"dial", "request", "part", "rest", "malformed", "close", "reset", "respond", "wrongTid", "failed", "exception", "duplicate", "tick", "pipelined", "dial+request", "request+close", "writeFail"};

static void seq(mc::Run& r, std::vector<Act> const& alphabet, int depth, unsigned maxConns, unsigned initial, bool races)
{
    Srv s(r);
    s.init(1);
    std::vector<std::shared_ptr<Conn>>& C = s.conns;
    std::map<Conn*, std::string> rest;
    struct Last { unsigned sid, tid; std::string d; };
    std::map<Conn*, Last> last;
    for (unsigned i = 0; i < initial; ++i) s.dial();
    s.settle();
    int nreq = 0;
    int writeFault = 0;
    s.env.k.fault = [&](char const* call, int fd) -> int {
        if (writeFault && !std::strcmp(call, "write") && s.env.k.as<sim::SocketFile>(fd)) { writeFault = 0; return EAGAIN; }
        return 0;
    };
    std::set<Conn*> touched;    // by actions not settled yet
    for (int d = 0; d < depth && !s.stop(); ++d)
    {
        std::vector<std::pair<Act, std::shared_ptr<Conn>>> en;
        unsigned live = 0;
        for (auto& c : C) live += !c->peerGone && !c->p->sutClosed;
        for (Act a : alphabet)
        {
            if (a == aDial || a == aDialReq) { if (live < maxConns && C.size() < maxConns + 2) en.push_back({a, nullptr}); continue; }
            if (a == aTick) { std::int64_t t; if (touched.empty() && s.env.k.nextDeadline(t)) en.push_back({a, nullptr}); continue; }
            for (auto& c : C)
            {
                bool ok = false;
                bool up = !c->peerGone && !c->p->sutClosed && !c->vague;
                if (touched.count(c.get())) continue;
                switch (a)
                {
                case aReq: ok = up && !c->waiting && rest[c.get()].empty(); break;
                case aPart: ok = up && !c->waiting && rest[c.get()].empty(); break;
                case aRest: ok = up && !c->waiting && !rest[c.get()].empty(); break;
                case aBad: ok = up && !c->waiting && rest[c.get()].empty(); break;
                case aPipe: ok = up && c->waiting; break;
                case aClose: case aReset: ok = up; break;
                case aReqClose: ok = up && !c->waiting && rest[c.get()].empty(); break;
                case aResp: case aWrongTid: case aFailed: case aExc: ok = c->waiting && c->sid >= 0 && up; break;
                case aWriteFail: ok = c->waiting && c->sid >= 0 && up && !writeFault && touched.empty(); break;
                case aDup: ok = last.count(c.get()) > 0; break;
                default: break;
                }
                if (ok) en.push_back({a, c});
            }
        }
        if (en.empty()) break;
        auto [a, c] = en[r.choose(en.size(), "action")];
        if (s.stop()) break;
        r.note(std::string("-- ") + actName[a] + (c ? " " + std::to_string(c->p->id) : ""));
        switch (a)
        {
        case aDial: c = s.dial(); break;
        case aDialReq: c = s.dial(); if (c) s.feed(c, *mbref::encode(s.next(nreq++))); break;
        case aReq: s.feed(c, *mbref::encode(s.next(nreq++))); break;
        case aPart: { std::string f = *mbref::encode(s.next(nreq++)); rest[c.get()] = f.substr(7); s.feed(c, f.substr(0, 7)); break; }
        case aRest: { std::string f = rest[c.get()]; rest[c.get()].clear(); s.feed(c, f); break; }
        case aBad: s.feed(c, mbref::frame(0x4242, 3, bytes({0x10, 0, 1, 0, 2, 4, 'q', 'r'}))); break;
        case aPipe: { std::string f = *mbref::encode(s.next(nreq++)); s.feed(c, f); break; }
        case aClose: c->p->close(); c->peerGone = true; r.note("client closes"); break;
        case aReset: c->p->reset(); c->peerGone = true; r.note("client resets"); break;
        case aReqClose: s.feed(c, *mbref::encode(s.next(nreq++))); c->p->close(); c->peerGone = true; break;
        case aResp: last[c.get()] = {(unsigned)c->sid, c->q.tid, Srv::dataFor(c->q)}; s.respond(c); break;
        case aWriteFail:
            writeFault = 1;
            c->mayClose = true;
            s.post(0, c->sid, c->q.tid, ModbusError::noerror, MsgStatus::success, Srv::dataFor(c->q));
            s.answered(c);
            s.settle();
            if (!s.stop() && !c->p->sutClosed) c->vague = true;
            break;
        case aWrongTid: s.post(0, c->sid, c->q.tid ^ 0x55, ModbusError::noerror, MsgStatus::success, Srv::dataFor(c->q)); break;
        case aFailed: last[c.get()] = {(unsigned)c->sid, c->q.tid, Srv::dataFor(c->q)}; s.post(0, c->sid, c->q.tid, ModbusError::noerror, MsgStatus::error, ""); s.answered(c); break;
        case aExc:
            c->out += mbref::exception(c->q, 2);
            last[c.get()] = {(unsigned)c->sid, c->q.tid, ""};
            s.post(0, c->sid, c->q.tid, ModbusError::illegalDataAddress, MsgStatus::success, "");
            s.answered(c);
            break;
        case aDup: { auto& l = last[c.get()]; s.post(0, l.sid, l.tid, ModbusError::noerror, MsgStatus::success, l.d); break; }
        case aTick:
            s.tick();
            for (auto& x : C) if (rest.count(x.get()) && x->p->sutClosed) rest[x.get()].clear();
            break;
        }
        if (s.stop()) break;
        bool together = races && a != aTick && a != aWriteFail && d + 1 < depth && r.choose(2, "simultaneous");
        if (together) { if (c) touched.insert(c.get()); continue; }
        touched.clear();
        s.settle();
    }
    s.settle();
    // complete what was begun
    for (auto& c : C)
        if (!s.stop() && !rest[c.get()].empty() && !c->peerGone && !c->p->sutClosed && !c->vague && !c->waiting) { s.feed(c, rest[c.get()]); s.settle(); }
    for (auto& c : C)
        if (!s.stop() && c->waiting && !c->peerGone && !c->p->sutClosed && !c->vague) { s.respond(c); s.settle(); }
    s.finish();
}

// ------------------------------------------------------------------ capacity and generations
static unsigned capacity(Srv& s, std::vector<std::shared_ptr<Conn>>& got)
{
    s.backlogOk = true;
    s.env.spinOk = true;
    s.env.maxWaits = 40;
    while (!s.stop())
    {
        auto c = s.dial();
        if (!c) return 0;
        s.settle();
        if (!c->p->accepted || c->p->sutClosed) { c->peerGone = true; c->p->close(); if (c->p->sutClosed) c->mayClose = true; break; }
        got.push_back(c);
        if (got.size() > 300) break;
    }
    return got.size();
}
static void endConn(Srv& s, std::shared_ptr<Conn> const& c, int how, int k)
{
    switch (how)
    {
    case 0: c->p->close(); c->peerGone = true; break;
    case 1: c->p->reset(); c->peerGone = true; break;
    case 2: s.exchange(c, k); c->p->close(); c->peerGone = true; break;
    case 3: s.feed(c, *mbref::encode(s.next(k))); s.settle(); c->p->close(); c->peerGone = true; break;
    case 4: s.feed(c, "\x01\x02\x00"); s.settle(); c->p->reset(); c->peerGone = true; break;
    case 5: s.feed(c, mbref::frame(1, 1, "", 0, 0x2000)); break;     // closed by the server
    case 6: s.feed(c, *mbref::encode(s.next(k))); c->p->close(); c->peerGone = true; break;
    }
}
static void generations(mc::Run& r)
{
    Srv s(r);
    s.init(1);
    int how = r.choose(9, "how sessions end");
    int over = r.choose(3, "capacity");
    std::vector<std::shared_ptr<Conn>> first;
    unsigned cap = 0;
    if (over)
    {
        cap = capacity(s, first);
        if (s.stop()) return;
        // at capacity the accepted ones are still served; over it, for a while, nothing is lost
        if (over == 2) for (int i = 0; i < 40 && !s.stop(); ++i) s.settle();
        s.exchange(first[0], 1);
        s.exchange(first.back(), 2);
        if (how == 7 || how == 8)
        {
            for (int i = 0; i < 400 && !s.stop(); ++i) { bool all = true; for (auto& c : first) all &= c->p->sutClosed; if (all || !s.tick()) break; }
            for (auto& c : first) if (!s.stop() && !c->p->sutClosed) s.rule(C11, "the server keeps an inactive connection");
        }
        else for (auto& c : first) { endConn(s, c, how, 1); if (how == 5) c->mayClose = true; s.settle(); if (s.stop()) return; }
        s.settle();
    }
    s.conns.clear();
    int gens = r.thorough() ? 600 : 290;
    if (!over)
        for (int g = 0; g < gens && !s.stop(); ++g)
        {
            auto c = s.dial();
            if (!c) return;
            s.settle();
            if (how == 7) { s.exchange(c, g); for (int i = 0; i < 3 && !s.stop() && !c->p->sutClosed; ++i) s.tick(); }
            else endConn(s, c, how == 8 ? g % 7 : how, g);
            s.settle();
            s.conns.clear();
        }
    if (s.stop()) return;
    if (!over)
    {
        s.probe();
        s.conns.clear();
    }
    std::vector<std::shared_ptr<Conn>> again;
    unsigned cap2 = capacity(s, again);
    if (s.stop()) return;
    if (over && cap2 != cap) { s.rule(C11, "capacity was lost: " + std::to_string(cap2) + " of " + std::to_string(cap)); return; }
    if (cap2 < 30) { s.rule(C11, "capacity was lost: only " + std::to_string(cap2) + " sessions"); return; }
    for (unsigned i = 0; i < again.size() && !s.stop(); ++i) s.exchange(again[i], i);
    for (auto& c : again) { c->p->close(); c->peerGone = true; }
    s.backlogOk = false;
    s.settle();
    if (s.stop()) return;
    s.probe();
    if (!s.stop() && s.env.k.countOpen(sim::File::Kind::socket) != 1) s.rule(C11, "connections stay open after all clients have left");
    if (!s.stop() && s.env.k.countOpen(sim::File::Kind::timer)) s.rule(C11, "timers stay after all sessions have ended");
    r.outcome(s.h);
}

// ------------------------------------------------------------------ slow clients and applications
static void pace(mc::Run& r, int rounds)
{
    static std::int64_t const idle[] = {0, 4900 * MS, 5100 * MS, 29900 * MS};
    static std::int64_t const slow[] = {0, 4900 * MS, -1};
    static std::int64_t const part[] = {-1, 0, 12 * SEC};
    Srv s(r);
    s.init(1);
    auto o = s.dial();
    s.settle();
    s.exchange(o, 2);
    auto c = s.dial();
    s.settle();
    for (int i = 0; i < rounds && !s.stop(); ++i)
    {
        int const k = r.choose(4, "idle");
        int const cut = r.choose(k == 3 ? 2 : 3, "in parts");
        s.pass(idle[k]);
        if (s.stop()) return;
        std::string const f = *mbref::encode(s.next(i));
        int const n = c->forwarded;
        if (cut) { s.feed(c, f.substr(0, 7)); s.settle(); s.pass(part[cut]); if (s.stop()) return; }
        s.feed(c, cut ? f.substr(7) : f);
        s.settle();
        if (s.stop()) return;
        if (c->p->sutClosed || c->forwarded != n + 1) { s.rule(C09 | C11, "a request is not served"); return; }
        int const a = r.choose(3, "application");
        if (slow[a] < 0)
        {
            s.pass(5050 * MS);          // the request is given up; a late response is nobody's
            if (s.stop()) return;
            s.post(0, c->sid, c->q.tid, ModbusError::noerror, MsgStatus::success, Srv::dataFor(c->q));
        }
        else
        {
            s.pass(slow[a]);
            if (s.stop()) return;
            if (c->p->sutClosed || !c->waiting) { s.rule(C10 | C11, "a request is given up early"); return; }
            s.respond(c);
        }
        s.settle();
    }
    if (s.stop()) return;
    s.exchange(c, 1);
    s.pass(29900 * MS);
    if (s.stop()) return;
    if (c->p->sutClosed) { s.rule(C11, "the server closes a connection that was not inactive"); return; }
    s.exchange(c, 2);
    s.pass(30200 * MS);
    if (!s.stop() && !c->p->sutClosed) s.rule(C11, "the server keeps an inactive connection");
    s.finish();
}
// ------------------------------------------------------------------ long lives
static void longRun(mc::Run& r, unsigned total)
{
    static unsigned const counts[] = {1, 2, 15};
    unsigned const n = counts[r.choose(3, "clients")];
    int const app = r.choose(4, "application");
    Srv s(r);
    s.env.maxWaits = 100000000;
    s.init(1);
    if (app == 3) s.nextTid = 0xff00;
    std::vector<std::shared_ptr<Conn>> v;
    for (unsigned i = 0; i < n; ++i) v.push_back(s.dial());
    s.settle();
    for (unsigned k = 0; k < total / n && !s.stop(); ++k)
    {
        s.nextTid &= 0xffff;
        std::vector<std::shared_ptr<Conn>> order;
        for (unsigned i = 0; i < n && !s.stop(); ++i)
        {
            auto& c = v[(i + k) % n];
            std::string const f = *mbref::encode(s.next(k + i));
            s.nextTid &= 0xffff;
            if ((k + i) % 5 == 4) { s.feed(c, f.substr(0, 3 + k % 8)); s.settle(); s.feed(c, f.substr(3 + k % 8)); }
            else s.feed(c, f);
            if (app != 1) s.settle();
            order.push_back(c);
        }
        s.settle();
        if (s.stop()) return;
        if (k % 2) std::reverse(order.begin(), order.end());
        for (auto& c : order)
        {
            if (!c->waiting) { s.rule(C09 | C11, "a request is not served"); return; }
            if (app == 2 && (k + c->p->id) % 7 == 3)
            {
                if (k % 3 == 0) { s.post(0, c->sid, c->q.tid, ModbusError::noerror, MsgStatus::error, ""); s.answered(c); }
                else if (k % 3 == 1) { c->out += mbref::exception(c->q, 2); s.post(0, c->sid, c->q.tid, ModbusError::illegalDataAddress, MsgStatus::success, ""); s.answered(c); }
                else { s.post(0, c->sid, c->q.tid ^ 1, ModbusError::noerror, MsgStatus::success, Srv::dataFor(c->q)); s.respond(c); }
            }
            else s.respond(c);
            if (app != 1) s.settle();
        }
        s.settle();
        if (s.stop()) return;
        for (auto& c : v) if (c->p->got == c->out) { c->p->got.clear(); c->out.clear(); }
        if (app == 3 && k % (total / n / 30 + 1) == 2)
        {
            // another client takes over
            v[k % n]->p->close();
            v[k % n]->peerGone = true;
            s.settle();
            s.conns.erase(std::remove(s.conns.begin(), s.conns.end(), v[k % n]), s.conns.end());
            v[k % n] = s.dial();
            s.settle();
        }
    }
    s.finish();
}

// ------------------------------------------------------------------ failing calls while accepting, repeatedly
static void acceptFaults(mc::Run& r, int maxFaults)
{
    Srv s(r);
    s.init(1);
    int left = maxFaults;
    bool on = true;
    int repeat = r.choose(2, "repeat") ? 40 : 1;
    char const* which = nullptr;
    int burst = 0;
    s.env.k.fault = [&](char const* call, int fd) -> int {
        if (!on || s.stop()) return 0;
        static char const* const calls[] = {"accept", "fcntl", "epoll_ctl", "timerfd_create", "timerfd_settime"};
        bool rel = false;
        for (auto c : calls) rel |= !std::strcmp(c, call);
        if (!rel) return 0;
        if (burst > 0) { if (!std::strcmp(which, call)) { --burst; return EMFILE; } return 0; }
        if (!left) return 0;
        if (!r.choose(2, call)) return 0;
        --left;
        which = call;
        burst = repeat - 1;
        return !std::strcmp(call, "accept") ? (r.choose(2, "errno") ? ECONNABORTED : EMFILE) : ENOMEM;
    };
    s.env.maxWaits = 2000;
    s.backlogOk = true;
    std::vector<std::shared_ptr<Conn>> cs;
    for (int i = 0; i < 2 && !s.stop(); ++i)
    {
        auto c = s.dial();
        if (!c) return;
        c->mayClose = true;
        c->vague = true;        // it may have been dropped by the fault
        s.settle();
        cs.push_back(c);
    }
    on = false;
    for (auto& c : cs)
        if (!s.stop() && !c->p->sutClosed)
        {
            c->p->close();
            c->peerGone = true;
            s.settle();
        }
    s.backlogOk = false;
    s.settle();
    s.conns.clear();
    if (s.stop()) return;
    for (int i = 0; i < 3 && !s.stop(); ++i) s.probe();
    if (s.stop()) return;
    if (s.env.k.countOpen(sim::File::Kind::socket) != 1) { s.rule(C11, "connections stay open after all clients have left"); return; }
    if (s.env.k.countOpen(sim::File::Kind::timer)) { s.rule(C11, "timers stay after all sessions have ended"); return; }
    s.conns.clear();
    std::vector<std::shared_ptr<Conn>> again;
    unsigned cap = capacity(s, again);
    if (!s.stop() && cap < 30) s.rule(C11, "capacity was lost: only " + std::to_string(cap) + " sessions");
    if (!s.stop()) for (auto& c : again) { s.exchange(c, 0); if (s.stop()) break; }
    r.outcome(s.h);
}

int main(int argc, char** argv)
{
    return mc::main(argc, argv, [](std::string const& prop, bool th) {
        g_prop = prop;
        std::vector<mc::Scenario> v;
        int d = th ? 2 : 1;
        std::vector<Act> data{aReq, aPart, aRest, aBad, aResp, aClose, aReqClose, aPipe, aTick};
        std::vector<Act> resp{aReq, aResp, aWrongTid, aFailed, aExc, aDup, aTick, aClose, aDial};
        std::vector<Act> conn{aDial, aDialReq, aReq, aResp, aClose, aReset, aTick, aReqClose, aWriteFail, aPart};
        bool c09 = prop == "C09", c10 = prop == "C10", c11 = prop == "C11";
        if (c09 || th) v.push_back({"content", "7 functions x boundary values of unit, start, id, count, data x 4 histories x every cut (frames <= 40 bytes) or 23 cuts and byte by byte", content});
        if (c09 || th) v.push_back({"segments", "5 requests x every two-cut segmentation x another session's request interleaved in 3 ways", segments});
        v.push_back({"malformed", "every byte of 4 frames replaced by 20 values, every truncation, short and limit lengths, oversized input, trailing bytes; 3 cuts; with and without earlier exchange", malformed});
        if (!c11 || th) v.push_back({"responses", "7 functions x 21 lengths, 10 exceptions, failed, wrong ids, absent sessions and servers, repeated and late responses", responses});
        v.push_back({"sameIds", "two clients of one server and one of another using the same transaction id again and again: all sequences of " + std::to_string(th ? 5 : 4) + " requests, responses, failures, time-outs", [th](mc::Run& r) { sameIds(r, th ? 5 : 4); }});
        v.push_back({"data", "all sequences of " + std::to_string(5 + d) + " actions on 2 sessions: requests in parts, malformed, pipelined, closes", [=](mc::Run& r) { seq(r, data, 5 + d, 2, 2, false); }});
        v.push_back({"answers", "all sequences of " + std::to_string(5 + d) + " actions on 2 sessions: requests and every kind of response", [=](mc::Run& r) { seq(r, resp, 5 + d, 2, 2, false); }});
        v.push_back({"connections", "all sequences of " + std::to_string(5 + d) + " actions with up to 2 concurrent connections, closing, resetting, reusing", [=](mc::Run& r) { seq(r, conn, 5 + d, 2, 1, false); }});
        v.push_back({"races", "all sequences of " + std::to_string(4 + d) + " actions on 2 sessions, any of them simultaneous", [=](mc::Run& r) { seq(r, conn, 4 + d, 2, 1, true); }});
        v.push_back({"pace", std::string(th ? "4" : "3") + " requests, 4 idle times x whole or in parts with pauses x application prompt, slow or late", [th](mc::Run& r) { pace(r, th ? 4 : 3); }});
        v.push_back({"longRun", std::string(th ? "140000" : "1400") + " requests of 1, 2 or 15 clients in one life x 4 applications", [th](mc::Run& r) { longRun(r, th ? 140000 : 1400); }});
        if (c11 || th) v.push_back({"generations", "290 session generations ended in 9 ways, or filled to and over capacity, then capacity measured again", generations});
        if (c11 || th) v.push_back({"acceptFaults", "every placement of up to " + std::to_string(th ? 3 : 2) + " failing calls (single or persistent) while accepting", [th](mc::Run& r) { acceptFaults(r, th ? 3 : 2); }});
        return v;
    });
}
