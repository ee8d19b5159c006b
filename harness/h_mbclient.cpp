// C06, C07, C08: Modbus client component (real ModbusComponent, Reactor, Link, Timer) against every behaviour of the
// server, the network and the requester within the bound.
#include <algorithm>
#include "mbus.hpp"
#include "ModbusComponent.hpp"
#include "MsgModbusInitReq.hpp"
#include "MsgModbusInitRsp.hpp"
#include "MsgModbusConfigReq.hpp"
#include "MsgModbusConfigRsp.hpp"
#include "MsgModbusClientAduReq.hpp"
#include "MsgModbusClientAduRsp.hpp"
#include "MsgModbusReleaseReq.hpp"
#include "MsgModbusReleaseRsp.hpp"
#include "Modbus.hpp"

using namespace app;
using mbref::Req;

static std::string g_prop;
enum { C06 = 1, C07 = 2, C08 = 4, ALL = 7 };
static bool mine(int mask)
{
    return (g_prop == "C06" && (mask & C06)) || (g_prop == "C07" && (mask & C07)) || (g_prop == "C08" && (mask & C08));
}

static constexpr std::int64_t MS = 1000000, SEC = 1000 * MS;

struct Tracked
{
    unsigned client;
    Req q;
    int answers = 0;
    std::int64_t posted = 0, wired = -1, answered = -1;
    int conn = -1;              // peer id it was written to
    bool accepted = false;      // was posted while connected
    bool ahead = false;
    // reply the harness is sending for it: nothing else was sent on that connection since it was written
    bool clean = true;
    std::string replied;        // bytes sent by the server since it was written
    std::string expectData;
    int expectExc = -1;
    bool mustSucceed = false;   // a right reply has been delivered completely and in time
    bool ok = false;
};

struct Cl
{
    Env env;
    modbus::ModbusComponent comp;
    std::vector<Tracked> reqs;
    std::map<std::pair<unsigned, unsigned>, unsigned> byTid;
    std::map<unsigned, reactor::LinkAddr> addrs;
    std::map<int, std::size_t> parsed;      // peer id -> bytes of its stream already matched
    std::vector<std::int64_t> attempts;     // times of connect() calls
    unsigned nclients = 0;
    bool released = false;
    bool sameIds = false;       // several requests may carry the same transaction id
    unsigned nextTid = 0x101;
    mc::Run& run;
    std::uint64_t h = 0;

    Cl(mc::Run& r, bool logs = false) : env(r, logs), comp(env, *env.reactor), run(r)
    {
        env.onMsg = [this](RawMsg const& m) { onMsg(m); };
        auto prev = env.k.onCall;
        env.k.onCall = [this, prev](char const* c, int fd) {
            prev(c, fd);
            if (!std::strcmp(c, "connect")) onConnect(fd);
            if (!std::strcmp(c, "write")) onWrite(fd);
        };
        env.start();
    }
    ~Cl() { env.shutdown(); }

    void rule(int mask, std::string const& w) { if (mine(mask)) run.fail(w); else if (!run.stopped()) { run.note("(other property) " + w); run.aborting = true; } }
    bool stop() const { return run.stopped(); }

    void onConnect(int fd)
    {
        (void)fd;
        if (nclients == 1)
        {
            if (!attempts.empty() && env.k.now - attempts.back() < 500 * MS) rule(C08, "connection attempts are not separated by the back-off time");
            if (env.k.countOpen(sim::File::Kind::socket) > 1) rule(C08, "more than one connection at a time");
        }
        attempts.push_back(env.k.now);
    }

    void onWrite(int fd)
    {
        auto s = env.k.as<sim::SocketFile>(fd);
        if (!s || !s->peer) return;
        // one outstanding request at a time on a connection
        for (auto& t : reqs)
            if (t.conn == s->peer->id && !t.answers) rule(C07, "a request is written while another one is outstanding on the connection");
        // detected on the wire after the write
    }

    void onMsg(RawMsg const& m)
    {
        if (m.id == MsgIds::modbusClientAduRsp) onRsp(m.as<MsgModbusClientAduRsp>());
    }

    void onRsp(MsgModbusClientAduRsp const& r)
    {
        match();
        run.note("response client=" + std::to_string(r.clientId) + " tid=" + std::to_string(r.transactId) + " status=" + (r.status == MsgStatus::success ? "success" : "error") + " err=" + std::to_string((int)r.error) + " bytes=" + std::to_string(r.numBytes));
        h = mc::mix(h, r.transactId * 4 + (r.status == MsgStatus::success) * 2 + (r.error != ModbusError::noerror));
        auto it = byTid.find({r.clientId, r.transactId});
        if (it == byTid.end()) { rule(C06, "a response for a request that was never made"); return; }
        std::size_t which = it->second;
        if (sameIds)            // the oldest one without an answer
            for (std::size_t i = 0; i < reqs.size(); ++i)
                if (reqs[i].client == r.clientId && reqs[i].q.tid == r.transactId && !reqs[i].answers) { which = i; break; }
        Tracked& t = reqs[which];
        if (t.answers++) { rule(C06, "a request is answered twice"); return; }
        t.answered = env.k.now;
        if (released) rule(C06 | C08, "a response after the component was released");
        if (r.status == MsgStatus::success)
        {
            t.ok = true;
            if (t.conn < 0) { rule(C07, "success reported for a request that was not sent"); return; }
            // some complete frame the server sent on that connection since must match
            bool found = false;
            for (std::size_t off = 0; off <= t.replied.size() && !found; ++off)
            {
                if (t.clean && off) break;
                for (std::size_t end = t.replied.size(); end > off && !found; --end)
                {
                    auto d = mbref::decodeReply(t.replied.substr(off, end - off));
                    if (!d || d->tid != (t.q.tid & 0xffff) || d->unit != t.q.unit) continue;
                    if (d->func == 0x8f) found = (unsigned)r.error == d->exc && r.numBytes == 0;
                    else if (d->func == t.q.func) found = r.error == ModbusError::noerror && std::string((char const*)r.data, r.numBytes) == d->data;
                }
            }
            if (!found) rule(C07, "success reported although the server did not return a matching well-formed reply with that data");
        }
        else if (t.mustSucceed) rule(C07, "a complete matching reply was reported as a failure");
        else if (t.conn < 0 && t.accepted && mbref::encode(t.q) && !connLost && tainted.empty()) rule(C07 | C06 | C08, "a valid request on a healthy connection was refused without being sent");
        else if (t.conn >= 0 && t.replied.empty() && !connLost && !tainted.count(t.conn) && env.k.now - t.wired < 4 * SEC
            && (!lastSend.count(t.conn) || lastSend[t.conn] < t.wired)) rule(C08 | C07, "a request on a healthy connection is given up before the server had its time to answer");
    }

    bool connLost = false;      // the current connection was closed/reset/write-failed since the last establish
    std::map<int, std::int64_t> lastSend;   // connection -> when the server sent bytes last
    std::set<int> tainted;      // connections where a short write or write error was injected

    // match new bytes at the servers against the requests
    void match()
    {
        for (auto& p : env.k.peers)
        {
            std::size_t& pos = parsed[p->id];
            while (pos < p->got.size())
            {
                // the oldest accepted, unanswered, unsent valid request of this client must be next
                Tracked* next = nullptr;
                for (auto& t : reqs)
                    if (t.conn < 0 && !t.answers && mbref::encode(t.q) && clientOf(p) == t.client) { next = &t; break; }
                if (!next)
                {
                    if (g_prop == "C06") tainted.insert(p->id);     // C06 is about the answers
                    if (tainted.count(p->id)) { pos = p->got.size(); break; }
                    rule(C07, "bytes on the wire that belong to no pending request: " + mc::hex(p->got.substr(pos)));
                    return;
                }
                std::string f = *mbref::encode(next->q);
                std::string g = p->got.substr(pos, f.size());
                if (g != f)
                {
                    if (g_prop == "C06") tainted.insert(p->id);
                    if (tainted.count(p->id)) { pos = p->got.size(); break; }
                    rule(C07, "wrong bytes on the wire: " + mc::hex(p->got.substr(pos)) + " instead of " + mc::hex(f));
                    return;
                }
                run.note("wire: " + mc::hex(f));
                next->conn = p->id;
                next->wired = env.k.now;
                pos += f.size();
                h = mc::mix(h, 77 + next->q.tid);
            }
        }
    }
    unsigned clientOf(sim::PeerPtr const& p)
    {
        for (auto& a : addrs) if (portOf(a.second) == p->port) return a.first;
        return ~0u;
    }
    static unsigned portOf(reactor::LinkAddr const& a) { return (unsigned char)a.data[4] << 8 | (unsigned char)a.data[5]; }

    void settle()
    {
        env.settle();
        match();
        if (nclients <= 1 && env.k.countOpen(sim::File::Kind::socket) > 1) rule(C08, "more than one connection at a time");
        for (auto& p : env.k.peers)
        {
            auto it = addrs.find(clientOf(p));
            bool good = it != addrs.end();
            if (good)
            {
                auto& a = it->second;
                std::uint32_t ip = (std::uint32_t)(unsigned char)a.data[0] << 24 | (unsigned char)a.data[1] << 16 | (unsigned char)a.data[2] << 8 | (unsigned char)a.data[3];
                good = ip == p->addr;
            }
            if (!good) rule(C08, "connected to an address that is not configured");
        }
        std::uint64_t s = h;
        for (auto& t : reqs) s = mc::mix(s, t.answers * 8 + (t.conn >= 0) * 4 + t.accepted * 2 + t.ok);
        s = mc::mix(s, env.k.countOpen(sim::File::Kind::socket) * 16 + env.k.armedTimers().size());
        run.state(s);
    }
    bool tick()
    {
        if (!env.k.fireNextTimer()) return false;
        run.note("t=" + std::to_string(env.k.now / MS) + "ms timer");
        settle();
        return true;
    }

    static reactor::LinkAddr addr(int a, int b, int c, int d, unsigned port)
    {
        reactor::LinkAddr r{};
        r.type = reactor::LinkAddr::Type::ipv4;
        r.data[0] = a; r.data[1] = b; r.data[2] = c; r.data[3] = d;
        r.data[4] = port >> 8; r.data[5] = port;
        return r;
    }
    void init(unsigned servers, unsigned clients)
    {
        reactor::MsgStore<MsgModbusInitReq> m;
        m.getMsg().maxNumServers = servers;
        m.getMsg().maxNumClients = clients;
        env.post(m);
        settle();
    }
    void config(std::vector<reactor::LinkAddr> const& a, bool doSettle = true)
    {
        reactor::MsgStore<MsgModbusConfigReq> m;
        m.getMsg().numItems = a.size();
        for (unsigned i = 0; i < a.size(); ++i)
        {
            m.getMsg().items[i].id = i;
            m.getMsg().items[i].mode = ModbusConfig::Mode::client;
            m.getMsg().items[i].addr = a[i];
            addrs[i] = a[i];
        }
        nclients = a.size();
        env.post(m);
        if (doSettle) settle();
    }
    void release(bool doSettle = true)
    {
        reactor::MsgStore<MsgModbusReleaseReq> m;
        env.post(m);
        run.note("release");
        if (doSettle) settle();
    }
    // established connection of a client, if any
    sim::PeerPtr conn(unsigned client = 0)
    {
        for (auto it = env.k.peers.rbegin(); it != env.k.peers.rend(); ++it)
            if ((*it)->alive() && clientOf(*it) == client) return *it;
        return nullptr;
    }
    bool connectedCli(unsigned client) { return conn(client) != nullptr; }

    // post requests in one message
    std::vector<unsigned> post(std::vector<Tracked> items)
    {
        reactor::MsgStore<MsgModbusClientAduReq> m;
        m.getMsg().numItems = items.size();
        std::vector<unsigned> ids;
        for (unsigned i = 0; i < items.size(); ++i)
        {
            auto& t = items[i];
            auto& it = m.getMsg().item(i);
            it.clientId = t.client;
            it.transactId = t.q.tid;
            it.func = static_cast<ModbusFunction>(t.q.func);
            it.addr = t.q.unit;
            it.startItem = t.q.start;
            it.numItems = t.q.num;
            it.numBytes = t.q.data.size();
            std::memcpy(it.data, t.q.data.data(), t.q.data.size());
            t.posted = env.k.now;
            t.accepted = connectedCli(t.client) && established && settled == 0;
            unsigned pend = 0;
            for (auto& o : reqs) pend += o.client == t.client && !o.answers;
            if (pend >= 64) t.accepted = false;     // the queue holds 64 requests, further ones may be refused
            byTid[{t.client, t.q.tid}] = reqs.size();
            ids.push_back(reqs.size());
            reqs.push_back(t);
            run.note("request tid=" + std::to_string(t.q.tid) + " func=" + std::to_string(t.q.func));
        }
        env.post(m);
        return ids;
    }
    int settled = 0;            // -1: something is already pending at this instant
    bool established = false;   // the implementation has been told (settled) that the connection is up

    Tracked mk(unsigned func = 3, unsigned start = 0x1234, unsigned num = 2, std::string data = "", unsigned unit = 7, unsigned client = 0)
    {
        Tracked t;
        t.client = client;
        t.q = Req{nextTid++, unit, func, start, num, data};
        return t;
    }
    Tracked* onWire(unsigned client = 0)
    {
        for (auto& t : reqs) if (t.client == client && t.conn >= 0 && !t.answers && conn(client) && conn(client)->id == t.conn) return &t;
        return nullptr;
    }
    void serverSend(sim::PeerPtr const& p, std::string const& b)
    {
        run.note("server sends " + mc::hex(b));
        for (auto& t : reqs)
            if (t.conn == p->id && !t.answers)
            {
                t.replied += b;
                if (settled < 0) t.mustSucceed = false;     // not the only thing that happens at this instant
            }
        lastSend[p->id] = env.k.now;
        p->send(b);
    }
    // time passes; whatever is due happens
    void pass(std::int64_t ns)
    {
        std::int64_t const end = env.k.now + ns;
        for (std::int64_t d; !stop() && env.k.nextDeadline(d) && d <= end;) tick();
        if (!stop() && env.k.now < end) { env.k.advanceTo(end); settle(); }
    }
    // forget what is over
    void trim()
    {
        for (auto& t : reqs) if (!t.answers) return;
        reqs.clear();
        byTid.clear();
    }
    static bool decodable(unsigned f) { return f == 3 || f == 4 || f == 5 || f == 6 || f == 0x10; }

    void doEstablish(unsigned idx = 0)
    {
        auto c = env.k.connecting();
        if (c.empty()) return;
        env.k.establish(c[idx]);
        run.note("connection established");
        connLost = false;
    }
    unsigned unanswered() const { unsigned n = 0; for (auto& t : reqs) n += !t.answers; return n; }

    // let everything that is due happen; every request must get answered
    void drain()
    {
        if (stop()) return;
        std::int64_t const limit = env.k.now + (std::int64_t)(unanswered() + 1) * 5100 * MS + 1 * SEC;
        while (!stop() && unanswered())
        {
            std::int64_t d;
            if (!env.k.nextDeadline(d) || d > limit) break;
            tick();
        }
        for (auto& t : reqs)
            if (!t.answers) { rule(C06, "a request is never answered (tid " + std::to_string(t.q.tid) + ")"); return; }
        for (int i = 0; i < 3 && !stop(); ++i) tick();
    }
    // make the server reachable; the client must come back and serve a request
    void recover()
    {
        if (stop()) return;
        drain();
        std::int64_t const limit = env.k.now + 9 * SEC;
        while (!stop() && !(connectedCli(0) && established))
        {
            if (!env.k.connecting().empty()) { doEstablish(); settle(); established = true; continue; }
            std::int64_t d;
            if (!env.k.nextDeadline(d) || d > limit) { rule(C08, "the client does not reconnect"); return; }
            tick();
        }
        if (stop()) return;
        serveOne(3, "\x12\x34\x56\x78");
    }
    void serveOne(unsigned func, std::string const& data)
    {
        post({mk(func)});
        settle();
        unsigned idx = reqs.size() - 1;
        for (int i = 0; i < 3 && !stop() && reqs[idx].conn < 0 && !reqs[idx].answers; ++i) tick();
        if (stop()) return;
        if (reqs[idx].conn < 0) { rule(C08 | C06, "after recovery a request is not sent"); return; }
        reqs[idx].mustSucceed = true;
        serverSend(conn(), mbref::reply(reqs[idx].q, data));
        settle();
        if (!stop() && !reqs[idx].ok) rule(C08 | C07, "after recovery a request is not served");
    }
    void checkReleased()
    {
        if (stop()) return;
        released = true;
        if (env.k.countOpen(sim::File::Kind::socket)) rule(C08, "a connection stays open after release");
        if (env.k.countOpen(sim::File::Kind::timer)) rule(C08, "a timer stays after release");
    }
};

static reactor::LinkAddr A0() { return Cl::addr(10, 200, 3, 129, 0xC3F1); }

// ------------------------------------------------------------------ scenario: free exploration of the life cycle
enum Act { aReq, aReq2, aEst, aRefuse, aTick, aGood, aFirstHalf, aRest, aBadTid, aException, aGarbage, aStale, aClose, aReset, aReqAndTick, aRelease, aWriteFail, aShort, NACT };
static char const* actName[] = {"req", "req2", "establish", "refuse", "tick", "goodReply", "firstHalf", "rest", "badTid", "exception", "garbage", "stale", "close", "reset", "req+tick", "release", "writeFail", "shortWrite"};

static void life(mc::Run& r, std::vector<Act> const& alphabet, int depth, bool connected, int prefill, int maxReq, bool races)
{
    Cl c(r);
    c.init(1, 2);
    c.config({A0()});
    if (connected)
    {
        c.doEstablish();
        c.settle();
        c.established = true;
    }
    int nreq = 0;
    for (; nreq < prefill; ++nreq) { c.post({c.mk(nreq % 2 ? 4 : 3)}); }
    c.settle();
    std::string rest;
    unsigned half = 0;
    int raced = races ? 1 : 0;
    bool dirty = false;         // actions since the last settle
    int writeFault = 0;
    c.env.k.fault = [&](char const* call, int fd) -> int {
        if (writeFault == 1 && !std::strcmp(call, "write") && c.env.k.as<sim::SocketFile>(fd)) { writeFault = 0; c.connLost = true; return EAGAIN; }
        return 0;
    };
    for (int d = 0; d < depth && !c.stop(); ++d)
    {
        auto p = c.conn();
        auto w = c.onWire();
        std::vector<Act> en;
        for (Act a : alphabet)
        {
            bool ok = false;
            switch (a)
            {
            case aReq: case aReq2: ok = nreq < maxReq; break;
            case aEst: case aRefuse: ok = !c.env.k.connecting().empty(); break;
            case aTick: { std::int64_t t; ok = c.env.k.nextDeadline(t); break; }
            case aGood: case aFirstHalf: case aBadTid: case aException: ok = p && w && rest.empty(); break;
            case aRest: ok = p && w && !rest.empty(); break;
            case aGarbage: ok = p && true; break;
            case aStale: ok = p && !c.reqs.empty() && (!w || w->q.tid != c.reqs[0].q.tid); break;
            case aClose: case aReset: ok = p != nullptr; break;
            case aWriteFail: case aShort: ok = p && !writeFault; break;
            default: break;
            }
            if (ok) en.push_back(a);
        }
        if (en.empty()) break;
        Act a = en[r.choose(en.size(), "action")];
        if (c.stop()) break;
        r.note(std::string("-- ") + actName[a]);
        switch (a)
        {
        case aReq: ++nreq; c.post({c.mk(nreq % 2 ? 3 : 6, 0x10 + nreq, nreq % 2 ? 2 : 0, nreq % 2 ? "" : "\x01\x02")}); break;
        case aReq2:
            nreq += 2;
            c.post({c.mk(0x10, 5, 1, "ab"), c.mk(4, 9, 3)});
            break;
        case aEst: c.doEstablish(); break;
        case aRefuse: c.env.k.refuse(c.env.k.connecting()[0]); r.note("refused"); break;
        case aTick: if (w) w->mustSucceed = false; c.env.k.fireNextTimer(); r.note("t=" + std::to_string(c.env.k.now / MS) + "ms timer"); break;
        case aGood:
        {
            // simultaneous expiry of the reply timer may win: only demanded when nothing else is pending
            if (!dirty && w->clean && Cl::decodable(w->q.func) && w->replied.empty()) w->mustSucceed = true;
            c.serverSend(p, mbref::reply(w->q, std::string("\x11\x22\x33\x44").substr(0, w->q.func == 6 ? 2 : 4)));
            break;
        }
        case aFirstHalf:
        {
            std::string f = mbref::reply(w->q, std::string("\x55\x66\x77\x88").substr(0, w->q.func == 6 ? 2 : 4));
            half = w->q.tid;
            rest = f.substr(f.size() / 2);
            if (!w->replied.empty()) w->clean = false;
            c.serverSend(p, f.substr(0, f.size() / 2));
            break;
        }
        case aRest:
            if (!dirty && w->q.tid == half && w->clean && Cl::decodable(w->q.func)) w->mustSucceed = true;
            if (w->q.tid != half) w->clean = false;
            c.serverSend(p, rest);
            rest.clear();
            break;
        case aBadTid:
        {
            auto q = w->q;
            q.tid ^= 0x8000;
            w->clean = false;
            c.serverSend(p, mbref::reply(q, std::string("\x11\x22\x33\x44").substr(0, w->q.func == 6 ? 2 : 4)));
            break;
        }
        case aException:
            if (!dirty && w->clean && w->replied.empty()) w->mustSucceed = true;
            c.serverSend(p, mbref::exception(w->q, 2));
            break;
        case aGarbage: if (w) w->clean = false; c.serverSend(p, std::string("\x00\x01\x00\x00\xff\xff\x07\x03", 8)); break;
        case aStale: if (w) w->clean = false; c.serverSend(p, mbref::reply(c.reqs[0].q, "zzzz")); break;
        case aClose: if (w) w->mustSucceed = false; p->close(); c.connLost = true; r.note("server closes"); break;
        case aReset: if (w) w->mustSucceed = false; p->reset(); c.connLost = true; r.note("server resets"); break;
        case aWriteFail: writeFault = 1; break;
        case aShort: p->limitTx(3); c.tainted.insert(p->id); c.connLost = true; writeFault = 2; break;
        default: break;
        }
        dirty = true;
        c.settled = -1;
        bool settle = true;
        if (raced > 0 && r.choose(2, "simultaneous with next")) { settle = false; --raced; }
        if (settle)
        {
            bool notConnected = !c.env.k.countOpen(sim::File::Kind::socket) || !c.env.k.connecting().empty();
            c.settle();
            dirty = false;
            c.settled = 0;
            c.established = c.connectedCli(0);
            if (!c.connectedCli(0)) rest.clear();
            if (notConnected && a == aReq && !c.stop() && !c.reqs.back().answers) c.rule(C08, "a request made while not connected is not refused immediately");
            // a lost connection must be replaced after the back-off, without any further request
        }
    }
    if (dirty) c.settle();
    c.established = c.connectedCli(0);
    c.env.k.fault = nullptr;
    if (writeFault == 2 && c.conn()) c.conn()->reset(), c.connLost = true, c.settle();
    int end = r.choose(2, "end");
    if (end == 0) c.recover();
    else
    {
        c.release();
        if (!c.stop())
        {
            c.checkReleased();
            for (int i = 0; i < 3; ++i) c.tick();
            // a second life behaves like the first
            c.released = false;
            c.attempts.clear();
            for (auto& t : c.reqs) { t.answers = t.answers ? t.answers : 1; t.conn = t.conn < 0 ? -2 : t.conn; }
            c.init(1, 2);
            c.config({A0()});
            if (!c.stop() && c.env.k.connecting().empty()) c.rule(C08, "no connection attempt after re-configuration");
            c.established = false;
            c.recover();
        }
    }
    r.outcome(c.h);
}

// ------------------------------------------------------------------ scenario: back-off and reconnect timing
static void timing(mc::Run& r, int depth)
{
    Cl c(r);
    c.init(0, 1);
    c.config({A0()});
    bool failWrite = false;
    c.env.k.fault = [&](char const* call, int) { return failWrite && !std::strcmp(call, "write") ? ECONNRESET : 0; };
    for (int d = 0; d < depth && !c.stop(); ++d)
    {
        // what happens to this connection attempt
        int what = r.choose(8, "attempt");
        std::size_t n = c.attempts.size();
        if (c.env.k.connecting().empty()) { c.rule(C08, "no connection attempt is under way"); break; }
        std::int64_t lost;
        switch (what)
        {
        case 0: c.env.k.refuse(c.env.k.connecting()[0]); c.settle(); lost = c.env.k.now; break;
        case 1:                             // never answered: given up after the connect timeout
        {
            std::int64_t t0 = c.env.k.now;
            c.tick();
            lost = c.env.k.now;
            if (lost - t0 > 3100 * MS) c.rule(C08, "a hanging connection attempt is not given up in time");
            break;
        }
        default:
            c.doEstablish();
            c.settle();
            c.established = true;
            if (what >= 4) { c.post({c.mk()}); c.settle(); }     // in the send delay
            if (what == 5) c.tick();                               // request on the wire
            if (c.stop() || !c.conn()) { if (!c.stop()) c.rule(C08, "an established connection was dropped"); return; }
            if (what >= 6)                  // sending the request fails or falls short
            {
                if (what == 6) failWrite = true; else { c.conn()->limitTx(3); c.tainted.insert(c.conn()->id); }
                c.connLost = true;
                c.tick();
                failWrite = false;
                if (!c.stop() && !c.reqs.back().answers) c.rule(C06, "a request that could not be sent is not answered");
            }
            else if (what == 2) c.conn()->close(); else if (what == 3) c.conn()->reset();
            else if (r.choose(2, "close/reset")) c.conn()->reset(); else c.conn()->close();
            c.connLost = true;
            c.settle();
            lost = c.env.k.now;
            c.established = false;
            break;
        }
        if (c.stop()) return;
        if (what != 1 && c.env.k.countOpen(sim::File::Kind::socket) && c.attempts.size() == n) c.rule(C08, "a dead connection is kept");
        // a request in the meantime fails at once
        if (r.choose(2, "request while down"))
        {
            c.post({c.mk()});
            c.settle();
            if (!c.stop() && !c.reqs.back().answers) c.rule(C08 | C06, "a request made while not connected is not refused immediately");
        }
        while (!c.stop() && c.attempts.size() == n)
        {
            std::int64_t t;
            if (!c.env.k.nextDeadline(t) || t - lost > 600 * MS) { c.rule(C08, "the client does not reconnect after its back-off"); break; }
            c.tick();
        }
        if (!c.stop() && c.attempts.back() - lost < 400 * MS) c.rule(C08, "reconnects without back-off");
    }
    c.recover();
    r.outcome(c.h);
}

// ------------------------------------------------------------------ scenario: clients recover independently of each other
static void neighbours(mc::Run& r, int depth)
{
    Cl c(r);
    c.init(0, 3);
    c.config({A0(), Cl::addr(127, 0, 0, 1, 0x0502), Cl::addr(127, 0, 0, 2, 0x0503)});
    auto pending = [&](unsigned port) -> std::shared_ptr<sim::SocketFile> { for (auto& s : c.env.k.connecting()) if (s->port == port) return s; return nullptr; };
    unsigned const pa = Cl::portOf(A0()), pb = 0x0502;
    if (auto s = pending(pb)) c.env.k.establish(s); else { c.rule(C08, "no connection attempt is under way"); return; }
    c.settle();
    c.established = true;
    unsigned failWrite = 0;
    c.env.k.fault = [&](char const* call, int fd) {
        if (std::strcmp(call, "write") || !failWrite) return 0;
        auto s = c.env.k.as<sim::SocketFile>(fd);
        return s && s->peer && s->peer->port == failWrite ? ECONNRESET : 0;
    };
    // a request of the second client is served whatever the first one goes through
    auto serve = [&] {
        if (c.stop()) return;
        if (!c.connectedCli(1)) { c.rule(C08, "a client loses its connection when another one does"); return; }
        auto* w = c.onWire(1);
        if (!w)
        {
            c.post({c.mk(3, 7, 1, "", 9, 1)});
            c.settle();
            for (int i = 0; i < 3 && !c.stop() && !c.onWire(1) && c.unanswered(); ++i) c.pass(11 * MS);
            w = c.onWire(1);
        }
        if (c.stop()) return;
        if (!w) { c.rule(C08 | C06, "a request is not sent while another client is not connected"); return; }
        w->mustSucceed = true;
        std::size_t const at = w - c.reqs.data();
        c.serverSend(c.conn(1), mbref::reply(w->q, "\x11\x22"));
        c.settle();
        if (!c.stop() && !c.reqs[at].ok) c.rule(C08 | C07, "a request is not served while another client is not connected");
    };
    for (int d = 0; d < depth && !c.stop(); ++d)
    {
        int const busy = r.choose(3, "second client idle / in the send delay / waiting");
        std::size_t const mine = c.reqs.size();
        if (busy) { c.post({c.mk(3, 5, 1, "", 9, 1)}); c.settle(); }
        if (busy == 2) { c.pass(11 * MS); if (!c.stop() && !c.onWire(1)) { c.rule(C06 | C08, "a request is not sent while another client is not connected"); return; } }
        int const what = r.choose(6, "attempt of the first client");
        auto s = pending(pa);
        if (!s) { c.rule(C08, "no connection attempt is under way"); return; }
        std::int64_t const t0 = c.env.k.now;
        if (what == 0) { c.env.k.refuse(s); c.settle(); }
        else if (what == 1)
        {
            s.reset();
            // given up after its time; the waiting request of the other client is answered before
            if (busy == 1) { c.pass(11 * MS); }
            if (busy) serve();
            for (int i = 0; i < 40 && !c.stop() && pending(pa) && c.env.k.now - t0 < 3100 * MS; ++i) c.pass(100 * MS);
            if (!c.stop() && pending(pa) && c.env.k.now - t0 >= 3100 * MS) { c.rule(C08, "a hanging connection attempt is not given up in time"); return; }
        }
        else
        {
            c.env.k.establish(s);
            c.settle();
            if (what >= 4) { c.post({c.mk(3, 3, 1, "", 4, 0)}); c.settle(); }
            if (c.stop() || !c.conn(0)) { if (!c.stop()) c.rule(C08, "an established connection was dropped"); return; }
            auto p = c.conn(0);
            c.connLost = true;
            if (what == 2) p->close();
            if (what == 3) p->reset();
            if (what == 4) p->close();
            if (what == 5) { failWrite = pa; c.pass(11 * MS); failWrite = 0; }
            c.settle();
            c.connLost = false;
            if (!c.stop() && !p->sutClosed) { c.rule(C08, "a dead connection is kept"); return; }
            for (auto& t : c.reqs) if (t.client == 0 && !t.answers && !c.stop()) { c.rule(C06 | C08, "a request on a lost connection is not answered"); return; }
        }
        std::int64_t const lost = c.env.k.now;
        if (what != 1) serve();
        while (!c.stop() && !pending(pa))
        {
            if (c.env.k.now - lost > 700 * MS) { c.rule(C08, "the client does not reconnect after its back-off"); return; }
            c.pass(50 * MS);
        }
        if (!c.stop() && what != 1 && c.env.k.now - lost < 400 * MS) c.rule(C08, "reconnects without back-off");
        (void)mine;
    }
    if (c.stop()) return;
    if (auto s = pending(pa)) { c.env.k.establish(s); c.settle(); }
    c.connLost = false;
    serve();
    c.post({c.mk(3, 1, 1, "", 1, 0), c.mk(3, 2, 1, "", 1, 1)});
    c.settle();
    c.pass(11 * MS);
    for (unsigned cl = 0; cl < 2 && !c.stop(); ++cl)
    {
        auto w = c.onWire(cl);
        if (!w) { c.rule(C08 | C06, "after recovery a request is not sent"); return; }
        w->mustSucceed = true;
        std::size_t const at = w - c.reqs.data();
        c.serverSend(c.conn(cl), mbref::reply(w->q, "xy"));
        c.settle();
        if (!c.stop() && !c.reqs[at].ok) c.rule(C08 | C07, "after recovery a request is not served");
    }
    c.drain();
    if (c.stop()) return;
    c.release();
    c.checkReleased();
    r.outcome(c.h);
}

// ------------------------------------------------------------------ scenario: content of requests and replies
static void content(mc::Run& r)
{
    static unsigned const funcs[] = {1, 2, 3, 4, 5, 6, 0x10, 0, 7, 0x0f, 0x17, 0x8f, 0xff};
    unsigned func = funcs[r.choose(13, "func")];
    static unsigned const units[] = {0, 1, 7, 127, 128, 247, 248, 255, 256, 0xffff};
    static unsigned const starts[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0xfffe, 0xffff};
    static unsigned const tids[] = {0, 1, 0xff, 0x100, 0x1234, 0x8000, 0xffff};
    int vary = r.choose(4, "vary");
    Cl c(r);
    Tracked t = c.mk(func);
    bool const w1 = func == 5 || func == 6, w2 = func == 0x10;
    t.q.num = w1 ? 0 : 2;
    t.q.data = w1 ? std::string(func == 5 ? "\x00\xff" : "\xa1\xb2", 2) : w2 ? "wxyz" : "";
    if (vary == 0) t.q.unit = units[r.choose(10, "unit")];
    if (vary == 1) t.q.start = starts[r.choose(9, "start")];
    if (vary == 2) t.q.tid = tids[r.choose(7, "tid")];
    if (vary == 3)
    {
        if (w1)
        {
            static char const vals[][2] = {{0, 0}, {(char)0xff, 0}, {0, (char)0xff}, {1, 0}, {0, 1}, {(char)0x80, 0}, {(char)0xff, (char)0xff}};
            int k = r.choose(11, "value");
            if (k < 7) t.q.data = std::string(vals[k], 2);
            else if (k == 7) t.q.num = 1;
            else if (k == 8) t.q.data = "";
            else if (k == 9) t.q.data = "x";
            else t.q.data = "xyz";
        }
        else if (w2)
        {
            static int const ns[] = {0, 1, 2, 60, 122, 123, 124, 127, 128, 130, 131, 150, 256, 260, 1000, 1900};
            t.q.num = ns[r.choose(16, "num")];
            int off = r.choose(3, "bytes") - 1;
            int nb = (int)t.q.num * 2 + off;
            if (nb < 0) nb = 0;
            t.q.data.clear();
            for (int i = 0; i < nb; ++i) t.q.data += (char)(i * 7 + 3);
        }
        else
        {
            static unsigned const ns[] = {0, 1, 8, 124, 125, 126, 127, 128, 255, 256, 1999, 2000, 2001, 2008, 2009, 0x8000, 0xffff};
            t.q.num = ns[r.choose(17, "num")];
        }
    }
    c.init(1, 1);
    c.config({A0()});
    c.doEstablish();
    c.settle();
    c.established = true;
    c.post({t});
    c.settle();
    c.tick();
    auto enc = mbref::encode(t.q);
    if (c.stop()) return;
    if (!enc)
    {
        c.drain();
        if (!c.stop() && c.reqs[0].ok) c.rule(C07, "an invalid request is reported as successful");
        for (int i = 0; i < 3; ++i) if (!c.stop()) c.serveOne(4, "\x09\x08\x07\x06");
        c.drain();
        return;
    }
    if (c.reqs[0].conn < 0) { c.rule(C07, "a valid request is not put on the wire"); return; }
    // reply
    auto& q = c.reqs[0].q;
    std::string data;
    unsigned n = func <= 2 ? (q.num + 7) / 8 : (func <= 4 ? q.num * 2 : func <= 6 ? 2 : 0);
    for (unsigned i = 0; i < n; ++i) data += (char)(0x80 + i * 3);
    if (func == 5 || func == 6) data = q.data;
    std::string good = mbref::reply(q, data), f = good;
    bool must = Cl::decodable(func) && good.size() < 260;
    bool const exc = r.choose(2, "exception");
    if (exc) { f = good = mbref::exception(q, 1 + r.choose(11, "code")); must = true; }
    // unaltered, one altered byte, or altered as a whole
    int const head = std::min<int>(f.size(), 13);
    int kind = r.choose(1 + head * 3 + 9 + head * 6, "reply");
    if (kind) must = false;
    bool const whole = kind > head * 3 + 9;
    if (kind == 0) {}
    else if (whole) f[(kind - head * 3 - 10) / 6] ^= 2 << (kind - head * 3 - 10) % 6;
    else if (kind <= head * 3)
    {
        char& ch = f[(kind - 1) / 3];
        switch ((kind - 1) % 3) { case 0: ch ^= 1; break; case 1: ch ^= 0x80; break; case 2: ch -= 1; break; }
    }
    else switch (kind - head * 3)
    {
    case 1: f[7] = 3 + 4 - (f[7] == 3 ? 3 : 4); break;
    case 2: f += 'x'; break;
    case 3: f[4] = 1; f[5] = 0; break;
    case 4: if (f.size() > 8) { f[8] = f[8] + 2; } break;
    case 5: f = mbref::frame(q.tid, q.unit, ""); break;
    case 6: f = mbref::frame(q.tid, q.unit, std::string(1, (char)func)); break;
    case 7: f = good + good; break;
    case 8: f = std::string(300, '\0'); break;
    case 9: f = mbref::frame(q.tid, q.unit, std::string(1, (char)func) + std::string("\x04" "abc", 4)); break;
    }
    // an altered frame that is still a matching reply is fine either way
    if (kind) c.reqs[0].clean = false;
    // segmentation: whole, one cut anywhere, or byte by byte
    std::vector<std::string> segs;
    int nseg = f.size() > 40 ? 16 : (int)f.size();
    int cut = whole ? 0 : r.choose(nseg + 1, "cut");
    if (cut == 0) segs = {f};
    else if (cut == nseg) for (char ch : f) segs.push_back(std::string(1, ch));
    else
    {
        std::size_t at = f.size() > 40 ? (cut < 12 ? cut : f.size() - (16 - cut)) : cut;
        segs = {f.substr(0, at), f.substr(at)};
    }
    auto p = c.conn();
    for (std::size_t i = 0; i < segs.size() && !c.stop(); ++i)
    {
        if (c.reqs[0].answers && !p->alive()) break;
        if (i + 1 == segs.size() && must) c.reqs[0].mustSucceed = true;
        c.serverSend(p, segs[i]);
        c.settle();
    }
    if (!c.stop() && must)
    {
        if (!c.reqs[0].ok) c.rule(C07, "a complete matching reply is not reported as success");
    }
    c.drain();
    if (!c.stop() && !kind) c.serveOne(4, "\x09\x08\x07\x06");
    else c.recover();
    r.outcome(c.h);
}

// all two-cut segmentations of a short reply, for each decodable function
static void segments(mc::Run& r)
{
    static unsigned const funcs[] = {3, 4, 5, 6, 0x10, 0x8f};
    unsigned func = funcs[r.choose(6, "func")];
    bool exc = func == 0x8f;
    if (exc) func = 3;
    Cl c(r);
    c.init(1, 1);
    c.config({A0()});
    c.doEstablish();
    c.settle();
    c.established = true;
    bool const w1 = func == 5 || func == 6;
    c.post({c.mk(func, 2, w1 ? 0 : 2, w1 ? std::string("\0\0", 2) : func == 0x10 ? "abcd" : "")});
    c.settle();
    c.tick();
    if (c.stop() || c.reqs[0].conn < 0) return;
    std::string f = exc ? mbref::exception(c.reqs[0].q, 3) : mbref::reply(c.reqs[0].q, w1 ? std::string("\0\0", 2) : "\x01\x02\x03\x04");
    int a = r.choose(f.size(), "cut1"), b = a + r.choose(f.size() - a, "cut2");
    int delay = r.choose(3, "second request between");
    std::vector<std::string> segs = {f.substr(0, a), f.substr(a, b - a), f.substr(b)};
    c.reqs.reserve(8);
    for (int i = 0; i < 3 && !c.stop(); ++i)
    {
        if (i == delay && i) { c.post({c.mk()}); c.settle(); }
        if (segs[i].empty()) continue;
        if (i == 2) c.reqs[0].mustSucceed = true;
        c.serverSend(c.conn(), segs[i]);
        c.settle();
    }
    if (!c.stop() && !c.reqs[0].ok) c.rule(C07, "a complete matching reply is not reported as success");
    c.drain();
    c.recover();
    r.outcome(c.h);
}

// ------------------------------------------------------------------ scenario: queue limits, several clients, ids
static void queue(mc::Run& r)
{
    Cl c(r);
    c.init(0, 2);
    c.config({A0(), Cl::addr(127, 0, 0, 1, 0x0502)});
    c.env.maxWaits = 100000;
    int downs = r.choose(3, "which connections are up");
    auto conns = c.env.k.connecting();
    for (auto& s : conns)
    {
        if (downs == 1 && s->port == 0x0502) continue;
        if (downs == 2 && s->port != 0x0502) continue;
        c.env.k.establish(s);
    }
    c.settle();
    c.established = true;
    static int const sizes[] = {0, 1, 5, 63, 64, 65, 66, 130};
    int n = sizes[r.choose(8, "queued")];
    int per = 1 + r.choose(3, "items per message");
    int ids = r.choose(4, "client ids");
    int bigat = r.choose(3, "data");
    for (int i = 0; i < n; i += per)
    {
        std::vector<Tracked> v;
        for (int j = 0; j < per && i + j < n; ++j)
        {
            auto t = c.mk(3, i + j, 1, "", 1, ids == 0 ? 0 : ids == 1 ? (i + j) % 2 : ids == 2 ? (i + j) % 3 : 0xffffffffu - (i + j) % 2);
            if (bigat == 1) { t.q.func = 0x10; t.q.num = 1 + (i + j) % 60; for (unsigned b = 0; b < t.q.num * 2; ++b) t.q.data += (char)(b + i + j); }
            if (bigat == 2 && (i + j) % 3 == 1) { t.q.func = 6; t.q.num = 0; t.q.data = "pq"; }
            v.push_back(t);
        }
        c.post(v);
        c.settle();
    }
    // serve some, then let the rest time out / be served
    int mode = r.choose(4, "server");
    int guard = 0;
    while (!c.stop() && c.unanswered() && guard++ < 400)
    {
        bool progress = false;
        for (unsigned cl = 0; cl < 2; ++cl)
            if (auto w = c.onWire(cl))
                if (mode == 0 || (mode == 1 && guard % 3))
                {
                    w->mustSucceed = Cl::decodable(w->q.func);
                    c.serverSend(c.conn(cl), mbref::reply(w->q, "\x0a\x0b"));
                    c.settle();
                    progress = true;
                }
        if (mode == 3 && guard == 5) { for (auto& p : c.env.k.peers) p->close(); c.connLost = true; c.settle(); }
        if (!progress && !c.tick()) break;
        if (mode == 2 && guard > 3) break;
    }
    // (the storage of a client holds 64 requests; more are refused at once)
    c.drain();
    r.outcome(c.h);
}

// ------------------------------------------------------------------ scenario: slow servers and idle times
static void pace(mc::Run& r, int n, bool all)
{
    Cl c(r);
    c.init(0, 1);
    c.config({A0()});
    static std::int64_t const before[] = {0, 400 * MS, 2900 * MS};
    c.pass(before[r.choose(3, "server accepts after")]);
    c.doEstablish();
    c.settle();
    c.established = true;
    static std::int64_t const idle[] = {0, 450 * MS, 4950 * MS, 31 * SEC, 5 * MS, 2950 * MS, 3600 * SEC};
    static std::int64_t const late[] = {0, 480 * MS, 4900 * MS, 20 * MS, 2900 * MS};
    int const nIdle = all ? 7 : 4, nLate = all ? 5 : 3;
    for (int i = 0; i < n && !c.stop(); ++i)
    {
        c.pass(idle[r.choose(nIdle, "idle")]);
        if (c.stop()) return;
        if (!c.conn()) { c.rule(C08, "an idle connection was dropped"); return; }
        int const two = r.choose(2, "queued");
        c.post({c.mk(3 + i % 2)});
        if (two) c.post({c.mk(6, 0x77, 0, "ab")});
        c.settle();
        for (int k = 0; k <= two && !c.stop(); ++k)
        {
            unsigned const idx = c.reqs.size() - 1 - two + k;
            for (int j = 0; j < 3 && !c.stop() && c.reqs[idx].conn < 0 && !c.reqs[idx].answers; ++j) c.tick();
            if (c.stop()) return;
            if (c.reqs[idx].conn < 0) { c.rule(C07 | C08, "a valid request is not put on the wire"); return; }
            int const l = r.choose(nLate, "reply after");
            int const pieces = k == 0 && late[l] < 4 * SEC ? r.choose(2, "in pieces") : 0;
            c.pass(late[l]);
            if (c.stop() || !c.conn()) { if (!c.stop()) c.rule(C08, "a healthy connection was dropped"); return; }
            std::string const f = mbref::reply(c.reqs[idx].q, c.reqs[idx].q.func == 6 ? "ab" : "\x01\x02\x03\x04");
            if (pieces)
            {
                c.serverSend(c.conn(), f.substr(0, 5));
                c.settle();
                c.pass(4950 * MS - late[l] - 30 * MS);
                if (c.stop() || !c.conn()) { if (!c.stop()) c.rule(C08, "a healthy connection was dropped"); return; }
            }
            c.reqs[idx].mustSucceed = true;
            c.serverSend(c.conn(), pieces ? f.substr(5) : f);
            c.settle();
            if (!c.stop() && !c.reqs[idx].ok) c.rule(C07 | C08, "a complete matching reply within the time for it is not reported as success");
        }
    }
    if (!c.stop() && c.conn()) { c.conn()->close(); c.connLost = true; c.settle(); c.established = false; }
    c.recover();
    r.outcome(c.h);
}

// ------------------------------------------------------------------ scenario: long lives
static void longRun(mc::Run& r, unsigned total)
{
    int const level = r.choose(4, "queue level");
    int const mix = r.choose(4, "server");
    Cl c(r);
    c.env.maxWaits = 100000000;
    c.init(0, 2);
    c.config({A0(), Cl::addr(127, 0, 0, 1, 0x0502)});
    for (auto& s : c.env.k.connecting()) c.env.k.establish(s);
    c.settle();
    c.established = true;
    static unsigned const levels[] = {1, 3, 64, 70};
    unsigned posted = 0, served = 0;
    unsigned const start = mix == 3 ? 0xff80 : 0x101;
    unsigned const n = level < 2 ? total : total / 2;
    while (posted < n && !c.stop())
    {
        c.trim();
        for (unsigned i = 0; i < levels[level]; ++i, ++posted)
        {
            auto t = c.mk(3, posted, 1 + posted % 3, "", 1 + posted % 247, mix == 1 ? posted % 2 : 0);
            t.q.tid = (start + posted) & 0xffff;
            switch (posted % 7)
            {
            case 1: t.q.func = 4; break;
            case 3: t.q.func = 6; t.q.num = 0; t.q.data = std::string(1, (char)posted) + "k"; break;
            case 4: t.q.func = 0x10; t.q.num = 1 + posted % 123; for (unsigned b = 0; b < t.q.num * 2; ++b) t.q.data += (char)(b + posted); break;
            case 5: if (mix == 2) { t.q.func = 0x10; t.q.num = 9; t.q.data = "short"; } break;
            default: break;
            }
            c.post({t});
            if (i % 16 == 15) c.settle();
        }
        c.settle();
        for (int guard = 0; !c.stop() && c.unanswered() && guard < 2000; ++guard)
        {
            bool progress = false;
            for (unsigned cl = 0; cl < 2 && !c.stop(); ++cl)
                if (auto w = c.onWire(cl))
                {
                    ++served;
                    if (mix == 2 && served % 11 == 5) continue;     // no answer
                    std::string const d = w->q.func == 6 ? w->q.data : std::string("0123456789").substr(0, w->q.num * 2 % 10);
                    bool const exc = served % 13 == 7;
                    w->mustSucceed = true;
                    c.serverSend(c.conn(cl), exc ? mbref::exception(w->q, 1 + served % 4) : mbref::reply(w->q, d));
                    if (mix == 1 && served % 17 == 3) { auto q = w->q; q.tid ^= 1; c.settle(); if (!c.stop() && c.conn(cl)) { c.serverSend(c.conn(cl), mbref::reply(q, d)); c.settle(); } }
                    else c.settle();
                    progress = true;
                }
            if (!progress && !c.tick()) break;
        }
        for (auto& t : c.reqs) if (!t.answers && !c.stop()) c.rule(C06, "a request is never answered");
        // the connection is lost now and then
        if (mix == 3 && posted % (n / 40) < levels[level] && !c.stop() && c.conn())
        {
            c.conn()->close();
            c.connLost = true;
            c.settle();
            c.established = false;
            for (int i = 0; i < 3 && c.env.k.connecting().empty() && !c.stop(); ++i) c.tick();
            if (!c.stop() && c.env.k.connecting().empty()) { c.rule(C08, "the client does not reconnect"); return; }
            c.doEstablish();
            c.settle();
            c.established = true;
        }
    }
    c.trim();
    c.drain();
    r.outcome(c.h);
}

// ------------------------------------------------------------------ scenario: good and bad requests mixed
static void mixed(mc::Run& r, int n)
{
    Cl c(r);
    c.init(0, 2);
    c.config({A0(), Cl::addr(127, 0, 0, 1, 0x0502)});
    for (auto& s : c.env.k.connecting()) c.env.k.establish(s);
    c.settle();
    c.established = true;
    bool one = r.choose(2, "in one message");
    std::vector<Tracked> v;
    for (int i = 0; i < n; ++i)
    {
        auto t = c.mk(3, 16 * i, 1 + i, "", 1 + i, 0);
        switch (r.choose(10, "request"))
        {
        case 0: break;
        case 1: t.client = 1; break;
        case 2: t.client = 2; break;                                                        // no such client
        case 3: t.q.func = 0x10; t.q.num = 123; t.q.data = std::string(246, 'a' + i); break;
        case 4: t.q.func = 0x10; t.q.num = 150; t.q.data = std::string(300, 'A' + i); break; // longer than any frame
        case 5: t.q.func = 0x10; t.q.num = 3; t.q.data = "abcd"; break;                      // inconsistent
        case 6: t.q.func = 6; t.q.num = 0; t.q.data = "pq"; break;
        case 7: t.q.unit = 248; break;
        case 8: t.q.func = 0x2b; break;
        case 9: t.q.num = 126; break;
        }
        v.push_back(t);
        if (!one) { c.post({t}); if (r.choose(2, "at once")) c.settle(); }
    }
    if (one) c.post(v);
    c.settle();
    int miss = r.choose(n + 1, "unanswered");
    for (int g = 0, k = 0; g < 200 && !c.stop() && c.unanswered(); ++g)
    {
        bool progress = false;
        for (unsigned cl = 0; cl < 2 && !c.stop(); ++cl)
            if (auto w = c.onWire(cl))
            {
                if (k++ == miss) continue;
                w->mustSucceed = Cl::decodable(w->q.func);
                c.serverSend(c.conn(cl), mbref::reply(w->q, (w->q.func == 3 ? std::string("0123456789", 10).substr(0, w->q.num * 2) : std::string("pq"))));
                c.settle();
                progress = true;
            }
        if (!progress && !c.tick()) break;
    }
    c.drain();
    if (!c.stop()) c.serveOne(4, "\x09\x08\x07\x06");
    c.drain();
    r.outcome(c.h);
}

// ------------------------------------------------------------------ scenario: every system call failing once
// requests need not carry distinct transaction ids
static void sameIds(mc::Run& r, int rounds)
{
    Cl c(r);
    c.sameIds = true;
    c.init(0, 2);
    c.config({A0(), Cl::addr(127, 0, 0, 1, 0x0502)});
    for (auto& s : c.env.k.connecting()) c.env.k.establish(s);
    c.settle();
    c.established = true;
    static unsigned const ids[] = {0x0101, 0, 0xffff};
    unsigned const tid = ids[r.choose(3, "transaction id")];
    for (int i = 0; i < rounds && !c.stop(); ++i)
    {
        int const n = 1 + r.choose(3, "requests"), split = r.choose(2, "to both clients"), apart = n > 1 ? r.choose(2, "apart") : 0;
        std::vector<Tracked> v;
        for (int k = 0; k < n; ++k)
        {
            c.nextTid = tid;
            v.push_back(c.mk(3 + k % 2, 0x10 * i + k, 1 + k, "", 1 + k, split ? k % 2 : 0));
            if (apart) { c.post(v); c.settle(); v.clear(); }
        }
        if (!v.empty()) { c.post(v); c.settle(); }
        int const mode = r.choose(3, "server");
        for (int g = 0; g < 60 && !c.stop() && c.unanswered(); ++g)
        {
            bool progress = false;
            for (unsigned cl = 0; cl < 2; ++cl)
                if (auto w = c.onWire(cl))
                    if (mode == 0 || (mode == 1 && w->q.func == 3))
                    {
                        w->mustSucceed = true;
                        std::string d;
                        for (unsigned b = 0; b < w->q.num * 2; ++b) d += (char)(0x40 + b + w->q.start * 3 + cl * 16);
                        c.serverSend(c.conn(cl), mbref::reply(w->q, d));
                        c.settle();
                        progress = true;
                    }
            if (!progress && !c.tick()) break;
        }
        if (!c.stop() && c.unanswered()) c.rule(C06, "a request is never answered (tid " + std::to_string(tid) + ")");
    }
    c.drain();
    r.outcome(c.h);
}

static void faults(mc::Run& r, int nfaults)
{
    // run a fixed script; at each of up to N system calls choose to fail it
    Cl c(r);
    int left = nfaults;
    bool on = false;
    bool failedWrite = false;
    c.env.k.fault = [&](char const* call, int fd) -> int {
        if (!on || !left || c.stop()) return 0;
        if (!std::strcmp(call, "epoll_wait") || !std::strcmp(call, "clock_gettime")) return 0;
        auto f = c.env.k.get(fd);
        bool sock = f && f->kind == sim::File::Kind::socket;
        bool relevant = sock || !std::strcmp(call, "socket");
        if (!relevant) return 0;
        if (!std::strcmp(call, "close")) return 0;
        if (!r.choose(2, call)) return 0;
        --left;
        c.connLost = true;
        if (!std::strcmp(call, "write")) { failedWrite = true; return r.choose(2, "errno") ? EAGAIN : ECONNRESET; }
        if (!std::strcmp(call, "read")) return r.choose(2, "errno") ? EINTR : ECONNRESET;
        if (!std::strcmp(call, "connect")) return ENETUNREACH;
        return EMFILE;
    };
    c.init(0, 1);
    on = true;
    c.config({A0()});
    auto bring = [&] {
        int g = 0;
        while (!c.stop() && g++ < 12 && !(c.connectedCli(0)))
        {
            if (!c.env.k.connecting().empty()) { c.doEstablish(); c.settle(); continue; }
            if (!c.tick()) { c.rule(C08, "the client gives up connecting"); return; }
        }
        if (!c.stop() && !c.connectedCli(0)) c.rule(C08, "the client does not reconnect");
        c.established = true;
    };
    bring();
    for (int i = 0; i < 2 && !c.stop(); ++i)
    {
        c.post({c.mk()});
        c.settle();
        c.tick();
        if (auto w = c.onWire()) { c.serverSend(c.conn(), mbref::reply(w->q, "\x01\x02\x03\x04")); c.settle(); }
        c.established = c.connectedCli(0);
        if (!c.connectedCli(0)) bring();
    }
    c.drain();
    on = false;
    c.established = c.connectedCli(0);
    c.recover();
    c.release();
    c.checkReleased();
    r.outcome(c.h);
}

int main(int argc, char** argv)
{
    return mc::main(argc, argv, [](std::string const& prop, bool th) {
        g_prop = prop;
        std::vector<mc::Scenario> v;
        std::vector<Act> core{aReq, aEst, aRefuse, aTick, aGood, aBadTid, aStale, aClose, aReset};
        std::vector<Act> conn{aReq, aEst, aTick, aGood, aFirstHalf, aRest, aException, aGarbage, aStale, aClose};
        std::vector<Act> wr{aReq, aReq2, aEst, aTick, aGood, aWriteFail, aShort, aReset};
        int d = th ? 4 : 2;
        v.push_back({"content", "13 functions x boundary values of unit, start, id, count, data x good and exception replies, every bit of the head inverted, each byte decreased and 9 other alterations x every cut (frames <= 40 bytes) or 15 cuts", content});
        v.push_back({"segments", "every two-cut segmentation of a reply, with a second request in between", segments});
        v.push_back({"queue", "0..130 queued requests, 1-3 per message, valid and invalid clients, server answering all/some/none/closing", queue});
        v.push_back({"mixed", "all sequences of " + std::to_string(th ? 4 : 3) + " requests of 10 kinds (two clients, oversized, inconsistent, unsupported), together or apart, one of them unanswered", [th](mc::Run& r) { mixed(r, th ? 4 : 3); }});
        v.push_back({"sameIds", "2 clients using one transaction id again and again: " + std::to_string(th ? 3 : 2) + " rounds of 1-3 requests, server answering all, some or none", [th](mc::Run& r) { sameIds(r, th ? 3 : 2); }});
        v.push_back({"pace", std::string("2 rounds of 1-2 requests, ") + (th ? "7" : "4") + " idle times up to an hour x replies at once, late, or late in pieces", [th](mc::Run& r) { pace(r, 2, th); }});
        v.push_back({"longRun", std::string(th ? "140000" : "1400") + " requests in one life x 4 queue levels x 4 servers", [th](mc::Run& r) { longRun(r, th ? 140000 : 1400); }});
        v.push_back({"timing", "every sequence of " + std::to_string(th ? 6 : 4) + " connection attempts ending in refusal, timeout, close, reset, failing or short write, with or without request", [th](mc::Run& r) { timing(r, th ? 6 : 4); }});
        v.push_back({"neighbours", "3 clients: all sequences of " + std::to_string(th ? 4 : 3) + " failing attempts of one, another idle or busy, the third never connected", [th](mc::Run& r) { neighbours(r, th ? 4 : 3); }});
        v.push_back({"faults", "every placement of up to " + std::to_string(th ? 4 : 3) + " failing socket calls in connect-request-reply", [th](mc::Run& r) { faults(r, th ? 4 : 3); }});
        v.push_back({"life", "all sequences of " + std::to_string(6 + d) + " actions from configuration, <=2 requests", [=](mc::Run& r) { life(r, core, 6 + d, false, 0, 2, false); }});
        v.push_back({"traffic", "all sequences of " + std::to_string(5 + d) + " actions from connected with 2 queued requests", [=](mc::Run& r) { life(r, conn, 5 + d, true, 2, 3, false); }});
        v.push_back({"races", "all sequences of " + std::to_string(4 + d) + " actions, any two of them simultaneous", [=](mc::Run& r) { life(r, conn, 4 + d, true, 2, 3, true); }});
        v.push_back({"writes", "all sequences of " + std::to_string(5 + d) + " actions with failing and short writes", [=](mc::Run& r) { life(r, wr, 5 + d, true, 1, 4, false); }});
        return v;
    });
}
