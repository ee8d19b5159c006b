// OPC UA server (real UaTransportComponent, UaSecureChannelComponent, UaServiceComponent on one real Reactor, as deployed)
// against scripted clients.  The clients speak through harness/uaref.hpp only; a reference model of the server decides
// for every chunk a client has completed which response must, may or must not come back.
#pragma once
#include <algorithm>
#include "env.hpp"
#include "uaref.hpp"
#include "UaTransportComponent.hpp"
#include "UaTransport.hpp"
#include "UaSecureChannelComponent.hpp"
#include "UaSecureChannel.hpp"
#include "UaServiceComponent.hpp"
#include "UaService.hpp"
#include "MsgUaTransportInitReq.hpp"
#include "MsgUaTransportConfigReq.hpp"
#include "MsgUaSecureChannelInitReq.hpp"
#include "MsgUaServiceInitReq.hpp"

namespace uasrv
{
using namespace app;
using uaref::Bytes;
using uaref::In;
static constexpr std::int64_t US = 1000, MS = 1000000, SEC = 1000 * MS;
static constexpr unsigned CAPACITY = 32;

inline std::string g_prop;
enum { C14 = 1, C15 = 2, C16 = 4, C17 = 8, C18 = 16, C19 = 32, ALL = 63 };
inline int propBit() { return 1 << (std::atoi(g_prop.c_str() + 1) - 14); }

// ---- messages --------------------------------------------------------------------------------------------------------
enum Service : std::uint32_t { GetEndpoints = 428, OpenChannel = 446, CloseChannel = 452, CreateSession = 461, ActivateSession = 467, CloseSession = 473, Read = 631 };
inline std::uint32_t rspOf(std::uint32_t s) { return s + 3; }

inline Bytes chunk(Bytes const& type, Bytes const& rest, char fin = 'F') { return type + fin + uaref::u32(8 + rest.size()) + rest; }
inline Bytes hello() { using namespace uaref; return chunk("HEL", u32(0) + u32(65536) + u32(65536) + u32(0) + u32(0) + str("opc.tcp://h:1")); }
inline Bytes reqHdr(Bytes const& token, std::uint32_t handle) { using namespace uaref; return token + u64(0x01d9123456789abcull) + u32(handle) + u32(0) + str("") + u32(5000) + noExt(); }
inline Bytes body(std::uint32_t service, Bytes const& token, std::uint32_t handle, unsigned pad = 0)
{
    using namespace uaref;
    Bytes b = nodeId(0, service) + reqHdr(token, handle);
    Bytes const app = str("urn:c") + str("urn:p") + u8(2) + str("client") + u32(1) + str("") + str("") + u32(0);
    switch (service)
    {
    case OpenChannel: return b + u32(0) + u32(0) + u32(1) + str("") + u32(3600000);
    case CloseChannel: return b;
    case GetEndpoints: return b + str("opc.tcp://h:1" + Bytes(pad, 'x')) + u32(0) + u32(0);
    case CreateSession: return b + app + str("") + str("opc.tcp://h:1") + str("s" + Bytes(pad, 'x')) + str("") + str("") + dbl(60000) + u32(0);
    case ActivateSession: return b + str("") + str("") + u32(0) + u32(0) + noExt() + str("") + str("");
    case CloseSession: return b + u8(handle & 1);       // deleteSubscriptions
    case Read: return b + dbl(0) + u32(2) + u32(1) + nodeId(0, 2256) + u32(13) + str(Bytes(pad, 'x')) + u16(0) + str("");
    }
    return b;
}
inline Bytes opn(std::uint32_t seq, std::uint32_t reqId, std::uint32_t handle, std::uint32_t chan = 0)
{
    using namespace uaref;
    return chunk("OPN", u32(chan) + str("http://opcfoundation.org/UA/SecurityPolicy#None") + str("") + str("") + u32(seq) + u32(reqId) + body(OpenChannel, nodeId(0, 0), handle));
}
inline Bytes secured(char const* type, std::uint32_t chan, std::uint32_t token, std::uint32_t seq, std::uint32_t reqId, Bytes const& b, char fin = 'F')
{
    using namespace uaref;
    return chunk(type, u32(chan) + u32(token) + u32(seq) + u32(reqId) + b, fin);
}
inline Bytes sessionToken(std::uint32_t t) { return uaref::nodeId(0, t); }

// ---- one client --------------------------------------------------------------------------------------------------------
enum Want { must, may, mustNot };
struct Pend { std::uint32_t service, handle; Want want; std::uint32_t sess = 0; };

struct Client
{
    sim::PeerPtr p;
    int idx = 0;
    // what was sent
    Bytes buf;                      // incomplete chunk
    bool helloOk = false;
    int acksDue = 0;
    bool open = false;              // channel known to us
    std::uint32_t chan = 0, token = 0, txSeq = 51, nextReq = 7, nextHandle = 0x1000;
    std::uint32_t lastSeq = 0;      // last accepted by the server, in the model
    std::map<std::uint32_t, Pend> pend;
    int opnDue = 0;
    std::uint32_t opnReq = 0, opnHandle = 0;
    bool cloSent = false;
    // what was received
    std::size_t rd = 0;
    std::uint32_t rxSeq = 0;        // last sequence number of the server
    bool peerGone = false, mayClose = false, mustClose = false, vague = false;
    bool firstBad = false, maybeHello = false;      // the first message was not a valid Hello; a valid one came later
    std::int64_t lastComplete = 0, lastByte = 0;
    std::vector<std::uint32_t> sessions;    // live, created here
    std::set<std::uint32_t> activated;
    std::uint32_t session() const { return sessions.empty() ? 0 : sessions.back(); }
    bool strict() const { return !vague && !peerGone && !mayClose; }
    bool up() const { return p && !p->sutClosed && !peerGone; }
};

struct Server
{
    Env env;
    ua::transport::UaTransportComponent transport;
    ua::securechannel::UaSecureChannelComponent channel;
    ua::service::UaServiceComponent service;
    mc::Run& run;
    std::vector<std::unique_ptr<Client>> cl;
    std::map<std::uint32_t, Client*> liveTokens, liveChannels;
    std::map<std::uint32_t, std::pair<unsigned, std::uint64_t>> sessionIds;    // by token
    std::uint32_t firstSeq = 0;     // sequence number of the first message of the first channel
    bool backlogOk = false, faulty = false;
    bool keepAll = false;
    std::uint64_t h = 0;

    explicit Server(mc::Run& r) : env(r), transport(env, *env.reactor), channel(env, *env.reactor), service(env, *env.reactor), run(r)
    {
        env.local = {CompIds::compUaTransport, CompIds::compUaSecChannel, CompIds::compUaService};
        env.start();
        reactor::MsgStore<MsgUaSecureChannelInitReq> a; env.post(a);
        reactor::MsgStore<MsgUaTransportInitReq> b; env.post(b);
        reactor::MsgStore<MsgUaServiceInitReq> c; env.post(c);
        env.settle();
        reactor::MsgStore<MsgUaTransportConfigReq> d;
        auto& ad = d.getMsg().addr;
        ad = reactor::LinkAddr{};
        ad.type = reactor::LinkAddr::Type::ipv4;
        ad.data[0] = 127; ad.data[3] = 1; ad.data[4] = 0x11; ad.data[5] = 0x11;
        env.post(d);
        env.settle();
        if (!stop() && env.k.listeners().size() != 1) rule(ALL, "the OPC UA server does not listen");
    }
    ~Server() { env.shutdown(); }
    bool stop() const { return run.stopped(); }
    void rule(int mask, std::string const& w) { static bool const strict = std::getenv("VERIF_STRICT"); if (strict || (mask & propBit())) run.fail(w); else if (!run.stopped()) { run.note("(other property) " + w); run.aborting = true; } }
    static std::string name(Client const& c) { return "client " + std::to_string(c.idx); }

    // How time passes while the server is at work: 0 not at all (an infinitely fast machine), 1 short timers have always
    // expired by the next wait (a slow one), 2 either, explored for the first occasions.
    static constexpr int PACES = 3;
    void pace(int p, int occasions = 6)
    {
        auto left = std::make_shared<int>(occasions);
        if (p == 0) env.beforeWait = nullptr;
        else env.beforeWait = [this, p, left] {
            std::int64_t d;
            if (stop() || !env.k.nextDeadline(d) || d > env.k.now + MS) return;
            if (p == 2) { if (*left <= 0) return; --*left; if (!run.choose(2, "a short timer has expired")) return; }
            if (d > env.k.now) env.k.advanceTo(d);
        };
    }

    // ---- actions --------------------------------------------------------------------------------------------------
    Client* dial()
    {
        auto p = env.k.dialAny();
        if (!p) { rule(C19 | C15, "the server does not listen any more"); return nullptr; }
        cl.push_back(std::make_unique<Client>());
        auto* c = cl.back().get();
        c->p = p;
        c->idx = cl.size();
        c->lastComplete = c->lastByte = env.k.now;
        run.note(name(*c) + " connects");
        return c;
    }
    void fin(Client* c) { if (c->peerGone) return; run.note(name(*c) + " closes"); c->peerGone = true; c->p->close(); gone(c); }
    void rst(Client* c) { if (c->peerGone) return; run.note(name(*c) + " resets"); c->peerGone = true; c->p->reset(); gone(c); }
    void gone(Client* c) { for (auto& p : c->pend) if (p.second.want == must) p.second.want = may; dropSessions(c); }
    void dropSessions(Client* c)
    {
        for (auto t : c->sessions) liveTokens.erase(t);
        c->sessions.clear();
        c->activated.clear();
    }
    void send(Client* c, Bytes const& b)
    {
        if (b.empty() || c->peerGone || c->p->sutClosed) return;
        run.note(name(*c) + " sends " + std::to_string(b.size()) + ": " + mc::hex(b.substr(0, 48)));
        c->p->send(b);
        c->lastByte = env.k.now;
        if (c->vague && !c->helloOk && b.find(hello()) != Bytes::npos) c->maybeHello = true;
        c->buf += b;
        while (!c->vague && c->buf.size() >= 8)
        {
            In in{c->buf, 4};
            std::uint32_t n = in.u32();
            if (n < 8 || n > 65536) { refuse(c); break; }
            if (n > 3900) { c->vague = true; c->mayClose = true; break; }       // see the known finding on long messages
            if (c->buf.size() < n) break;
            Bytes m = c->buf.substr(0, n);
            c->buf.erase(0, n);
            c->lastComplete = env.k.now;
            complete(c, m);
        }
    }
    // the last message must not be taken for valid; the server may end this connection (and only this one)
    void refuse(Client* c)
    {
        if (!c->helloOk) { c->firstBad = true; if (c->buf.find(hello()) != Bytes::npos) c->maybeHello = true; }
        c->mayClose = true;
        c->vague = true;
        for (auto& p : c->pend) if (p.second.want == must) p.second.want = may;
        if (c->chan && liveChannels.count(c->chan) && liveChannels[c->chan] == c) liveChannels.erase(c->chan);
        dropSessions(c);
    }

    void complete(Client* c, Bytes const& m)
    {
        Bytes type = m.substr(0, 3);
        char fin = m[3];
        if (!c->helloOk)
        {
            In in{m, 8};
            for (int i = 0; i < 5; ++i) in.u32();
            in.str();
            if (type != "HEL" || fin != 'F' || in.bad) { refuse(c); return; }
            c->helloOk = true;
            c->acksDue++;
            return;
        }
        if (fin != 'F') { refuse(c); return; }
        In in{m, 8};
        std::uint32_t ch = in.u32();
        if (type == "OPN")
        {
            in.str(); in.str(); in.str();
            std::uint32_t seq = in.u32(), req = in.u32();
            std::uint32_t handle = 0;
            if (!request(in, OpenChannel, handle)) { refuse(c); return; }
            if (c->opnDue) { refuse(c); return; }
            for (auto& p : c->pend) if (p.second.want == must) { refuse(c); return; }
            if (c->open && liveChannels.size() >= CAPACITY) { refuse(c); return; }         // no room for a second one
            if (c->open) { c->pend.clear(); closeChannel(c); }
            c->opnDue++;
            c->opnReq = req;
            c->opnHandle = handle;
            c->lastSeq = seq;
            return;
        }
        if (type != "MSG" && type != "CLO") { refuse(c); return; }
        std::uint32_t token = in.u32(), seq = in.u32(), req = in.u32();
        if (in.bad || !c->open || ch != c->chan || token != c->token || seq != c->lastSeq + 1) { refuse(c); return; }
        c->lastSeq = seq;
        std::uint32_t handle = 0;
        if (type == "CLO")
        {
            if (!request(in, CloseChannel, handle)) { refuse(c); return; }
            c->pend[req] = {CloseChannel, handle, must};
            c->cloSent = true;
            c->mustClose = true;
            c->mayClose = true;
            closeChannel(c);
            return;
        }
        In t = in;
        auto id = t.nodeId();
        bool known = !t.bad && id.first == 0 && (id.second == GetEndpoints || id.second == CreateSession || id.second == ActivateSession || id.second == CloseSession || id.second == Read);
        std::uint32_t sess = 0;
        if (c->pend.count(req)) { refuse(c); return; }
        if (!known) { c->pend[req] = {0, 0, mustNot}; return; }
        if (!request(in, id.second, handle, &sess)) { c->pend[req] = {(std::uint32_t)id.second, 0, mustNot}; c->vague = c->mayClose = true; return; }
        bool own = std::find(c->sessions.begin(), c->sessions.end(), sess) != c->sessions.end();
        Want w = must;
        switch (id.second)
        {
        case GetEndpoints: break;
        case CreateSession: if (liveTokens.size() + creating >= CAPACITY) w = may; else creating++; break;
        case ActivateSession: if (own) c->activated.insert(sess); else w = mustNot; break;
        case CloseSession:
            if (own) { c->sessions.erase(std::find(c->sessions.begin(), c->sessions.end(), sess)); c->activated.erase(sess); liveTokens.erase(sess); }
            else w = mustNot;
            break;
        case Read: if (!own || !c->activated.count(sess)) w = mustNot; break;
        }
        c->pend[req] = {(std::uint32_t)id.second, handle, w, sess};
    }
    unsigned creating = 0;
    void closeChannel(Client* c)
    {
        dropSessions(c);
        liveChannels.erase(c->chan);
        c->open = false;
    }
    // body of a request: type id, header and content; false when malformed
    static bool request(In& in, std::uint32_t service, std::uint32_t& handle, std::uint32_t* session = nullptr)
    {
        auto id = in.nodeId();
        if (in.bad || id.first != 0 || id.second != service) return false;
        auto tok = in.nodeId();
        if (session) *session = tok.first == 0 && tok.second <= 0xffffffffull ? tok.second : 0;
        in.u64();
        handle = in.u32();
        in.u32(); in.str(); in.u32(); in.ext();
        auto strs = [&] { int n = in.arr(); while (n-- > 0 && !in.bad) in.str(); };
        switch (service)
        {
        case OpenChannel: in.u32(); in.u32(); in.u32(); in.str(); in.u32(); break;
        case GetEndpoints: in.str(); strs(); strs(); break;
        case CreateSession: in.str(); in.str(); in.text(); in.u32(); in.str(); in.str(); strs(); in.str(); in.str(); in.str(); in.str(); in.str(); in.u64(); in.u32(); break;
        case ActivateSession: in.str(); in.str(); if (in.arr()) return true; strs(); in.ext(); in.str(); in.str(); break;
        case CloseSession: in.u8(); break;
        case Read:
        {
            in.u64(); in.u32();
            int n = in.arr();
            while (n-- > 0 && !in.bad) { in.nodeId(); in.u32(); in.str(); in.u16(); in.str(); }
            break;
        }
        }
        return !in.bad;
    }
    // ---- requests -------------------------------------------------------------------------------------------------
    void sendHello(Client* c) { send(c, hello()); }
    void sendOpen(Client* c) { send(c, opn(c->txSeq++, c->nextReq++, c->nextHandle++)); }
    Bytes make(Client* c, std::uint32_t service, std::uint32_t session = 0, unsigned pad = 0)
    {
        return secured("MSG", c->chan, c->token, c->txSeq++, c->nextReq++, body(service, sessionToken(session), c->nextHandle++, pad));
    }
    void request(Client* c, std::uint32_t service, std::uint32_t session = 0) { send(c, make(c, service, session)); }
    void sendClo(Client* c) { send(c, secured("CLO", c->chan, c->token, c->txSeq++, c->nextReq++, body(CloseChannel, sessionToken(0), c->nextHandle++))); }
    // brings a client to a stage: 0 connected, 1 hello, 2 channel, 3 session created, 4 activated
    Client* client(int stage)
    {
        auto* c = dial();
        if (!c) return nullptr;
        settle();
        for (int s = 1; s <= stage && !stop(); ++s) next(c, s);
        return c;
    }
    void next(Client* c, int s)
    {
        switch (s)
        {
        case 1: sendHello(c); break;
        case 2: sendOpen(c); break;
        case 3: request(c, CreateSession); break;
        case 4: request(c, ActivateSession, c->session()); break;
        }
        settle();
    }

    // ---- observation -----------------------------------------------------------------------------------------------
    void drain(Client* c)
    {
        Bytes const& g = c->p->got;
        while (!stop())
        {
            if (g.size() - c->rd < 8) break;
            In sz{g, c->rd + 4};
            std::uint32_t n = sz.u32();
            if (n < 8 || n > 65536) { rule(ALL, name(*c) + " receives a chunk with an invalid length " + std::to_string(n)); return; }
            if (g.size() - c->rd < n) break;
            Bytes m = g.substr(c->rd, n);
            c->rd += n;
            response(c, m);
        }
        if (!stop() && c->rd != g.size() && !c->vague && !faulty) rule(ALL, name(*c) + " receives an incomplete chunk");
    }
    void response(Client* c, Bytes const& m)
    {
        Bytes type = m.substr(0, 3);
        run.note(name(*c) + " receives " + type + " " + std::to_string(m.size()));
        h = mc::mix(h, c->idx * 256 + (unsigned char)type[0]);
        In in{m, 8};
        if (type == "ERR") { if (c->strict() && !c->mustClose) rule(ALL, name(*c) + " gets an error for a valid message"); return; }
        if (m[3] != 'F') { rule(ALL, name(*c) + " gets a chunk that is not final"); return; }
        if (type == "ACK")
        {
            if (c->firstBad && !c->maybeHello) { rule(C15 | C14, name(*c) + " gets an Acknowledge without a valid Hello"); return; }
            if (!c->acksDue && c->vague) return;
            if (!c->acksDue) { rule(C15 | C14, c->helloOk ? name(*c) + " gets a second Acknowledge" : name(*c) + " gets an Acknowledge without a valid Hello"); return; }
            c->acksDue--;
            std::uint32_t ver = in.u32(), rb = in.u32(), sb = in.u32();
            in.u32(); in.u32();
            if (!in.done() || ver != 0 || rb < 8192 || sb < 8192) rule(C15, name(*c) + " gets a malformed Acknowledge");
            return;
        }
        if (!c->helloOk && !c->maybeHello) { rule(C15 | C14, name(*c) + " gets a response without a valid Hello"); return; }
        std::uint32_t ch = in.u32(), token = 0, seq = 0, req = 0;
        if (type == "OPN")
        {
            auto pol = in.str();
            in.str(); in.str();
            seq = in.u32();
            req = in.u32();
            auto id = in.nodeId();
            in.u64();
            std::uint32_t handle = in.u32(), res = in.u32();
            in.diag();
            int n = in.arr();
            while (n-- > 0) in.str();
            in.ext();
            if (res) { if (c->opnDue && c->strict()) rule(C15 | C17, name(*c) + " can not open a channel"); return; }
            if (!c->opnDue)
            {
                if (!c->vague) rule(C15 | C16 | C17, name(*c) + " gets an open response it has not asked for");
                return;
            }
            c->opnDue--;
            std::uint32_t ver = in.u32(), ch2 = in.u32(), tok = in.u32();
            in.u64();
            std::uint32_t life = in.u32();
            in.str();
            if (!in.done() || id.first || id.second != rspOf(OpenChannel) || ver != 0 || !pol || *pol != "http://opcfoundation.org/UA/SecurityPolicy#None" || !life) { rule(C17 | C16, name(*c) + " gets a malformed open response"); return; }
            if (c->vague && (req != c->opnReq || handle != c->opnHandle)) return;
            if (req != c->opnReq || handle != c->opnHandle) { rule(C17, name(*c) + " gets an open response for another request"); return; }
            if (ch != ch2 || ch == 0) { rule(C16, name(*c) + " gets an open response with different channel ids"); return; }
            if (liveChannels.count(ch) && liveChannels[ch] != c) { rule(C16 | C19, "two live channels have the same id"); return; }
            if (!firstSeq) firstSeq = seq;
            if (seq != firstSeq) { rule(C16 | C19, name(*c) + " gets a channel whose first sequence number is " + std::to_string(seq) + " instead of " + std::to_string(firstSeq)); return; }
            if (c->peerGone) return;
            c->chan = ch;
            c->token = tok;
            c->rxSeq = seq;
            c->open = true;
            liveChannels[ch] = c;
            return;
        }
        if (type != "MSG" && type != "CLO") { rule(ALL, name(*c) + " gets an unknown chunk"); return; }
        token = in.u32();
        seq = in.u32();
        req = in.u32();
        if (in.bad) { rule(ALL, name(*c) + " gets a truncated message"); return; }
        if (c->chan && ch != c->chan) { rule(C16 | C17, name(*c) + " gets a message of channel " + std::to_string(ch) + " instead of " + std::to_string(c->chan)); return; }
        if (!c->chan) { rule(C16 | C17, name(*c) + " gets a message without a channel"); return; }
        if (token != c->token) { rule(C16 | C17, name(*c) + " gets a message with a wrong token"); return; }
        if (seq != c->rxSeq + 1) { rule(C16, name(*c) + " gets sequence number " + std::to_string(seq) + " after " + std::to_string(c->rxSeq)); return; }
        c->rxSeq = seq;
        auto id = in.nodeId();
        in.u64();
        std::uint32_t handle = in.u32(), res = in.u32();
        in.diag();
        int n = in.arr();
        while (n-- > 0) in.str();
        in.ext();
        if (in.bad || id.first) { rule(C17, name(*c) + " gets a malformed response"); return; }
        auto it = c->pend.find(req);
        if (it == c->pend.end())
        {
            if (!c->vague) rule(C17 | C16, name(*c) + " gets a response to a request it has not sent, or a second one (request " + std::to_string(req) + ", type " + std::to_string(id.second) + ")");
            return;
        }
        Pend q = it->second;
        c->pend.erase(it);
        bool const good = !(res & 0x80000000u) && id.second != 397;
        if (q.want == mustNot && good && q.sess && (q.service == Read || q.service == ActivateSession || q.service == CloseSession))
        {
            // a session created by a request sent along before it may have got the token of one closed by a still earlier request
            auto own = std::find(c->sessions.begin(), c->sessions.end(), q.sess);
            if (own != c->sessions.end() && (q.service != Read || c->activated.count(q.sess)))
            {
                q.want = may;
                if (q.service == ActivateSession) c->activated.insert(q.sess);
                if (q.service == CloseSession) { c->sessions.erase(own); c->activated.erase(q.sess); liveTokens.erase(q.sess); }
            }
        }
        if (q.want == mustNot)
        {
            if (!good) return;
            if (q.service == Read || q.service == ActivateSession || q.service == CloseSession) rule(C18 | C16 | C17, name(*c) + ": a session service is granted without the right to it (type " + std::to_string(id.second) + ")");
            else rule(C17 | C14, name(*c) + ": an unsupported or malformed request is answered (type " + std::to_string(id.second) + ")");
            return;
        }
        if (!good) { if (q.want == must) rule(C17 | C18, name(*c) + ": a valid request is refused"); return; }
        if (id.second != rspOf(q.service)) { rule(C17, name(*c) + ": the response is of type " + std::to_string(id.second) + " instead of " + std::to_string(rspOf(q.service))); return; }
        if (handle != q.handle) { rule(C17, name(*c) + ": the response carries another request handle"); return; }
        if ((type == "CLO") != (q.service == CloseChannel)) { rule(C17, name(*c) + ": wrong kind of chunk"); return; }
        switch (q.service)
        {
        case GetEndpoints:
        {
            int k = in.arr();
            if (k < 1) { rule(C17, name(*c) + ": no endpoints"); return; }
            for (int i = 0; i < k; ++i) endpoint(in);
            if (!in.done()) { rule(C17, name(*c) + ": malformed endpoints"); return; }
            break;
        }
        case CreateSession:
        {
            auto sid = in.nodeId(), tok = in.nodeId();
            in.u64();
            in.str(); in.str();
            int k = in.arr();
            for (int i = 0; i < k; ++i) endpoint(in);
            in.arr();
            in.str(); in.str();
            in.u32();
            if (!in.done()) { rule(C17, name(*c) + ": malformed session response"); return; }
            if (creating) creating--;
            if (sid.second == ~0ull || tok.second == ~0ull) break;
            if (liveTokens.count(tok.second)) { rule(C18, "two live sessions have the same token"); return; }
            for (auto& l : liveTokens) if (sessionIds[l.first] == sid) { rule(C18, "two live sessions have the same id"); return; }
            sessionIds[tok.second] = sid;
            if (c->peerGone || !c->open) break;
            c->sessions.push_back(tok.second);
            liveTokens[tok.second] = c;
            break;
        }
        case ActivateSession: in.str(); for (int i = in.arr(); i > 0; --i) in.u32(); for (int i = in.arr(); i > 0; --i) in.diag(); if (!in.done()) rule(C17, name(*c) + ": malformed activate response"); break;
        case CloseSession: case CloseChannel: if (!in.done()) rule(C17, name(*c) + ": malformed response"); break;
        case Read: in.arr(); break;
        }
    }
    static void endpoint(In& in)
    {
        in.str();
        in.str(); in.str(); in.text(); in.u32(); in.str(); in.str();
        for (int i = in.arr(); i > 0; --i) in.str();
        in.str(); in.u32(); in.str();
        for (int i = in.arr(); i > 0; --i) { in.str(); in.u32(); in.str(); in.str(); in.str(); }
        in.str(); in.u8();
    }
    // everything that happens without (noticeable) time passing
    void quiesce()
    {
        env.settle();
        std::int64_t d;
        std::int64_t const end = env.k.now + MS;
        for (int i = 0; i < 4000 && !stop() && env.k.nextDeadline(d) && d <= end; ++i) env.tick();
    }
    void settle()
    {
        quiesce();
        check();
    }
    void check()
    {
        if (stop()) return;
        std::uint64_t s = h;
        unsigned live = 0;
        for (auto& u : cl)
        {
            auto* c = u.get();
            drain(c);
            if (stop()) return;
            bool const silent = env.k.now - c->lastComplete >= 30 * SEC - 50 * MS;
            if (c->p->sutClosed && !c->peerGone && !c->vague && !faulty && !silent)
                for (auto& p : c->pend) if (p.second.service == CloseChannel && p.second.want == must) { rule(C17 | C16, name(*c) + " gets no response to its request to close the channel"); return; }
            if (c->p->sutClosed && !c->peerGone) { gone(c); }
            if (c->p->sutClosed)
            {
                if (c->strict() && !silent && !faulty) { rule(ALL, "the server closes the healthy connection of " + name(*c)); return; }
                if (c->open) closeChannel(c);
            }
            else
            {
                if (!c->p->accepted && !backlogOk && !c->peerGone) { rule(C19 | C15, "a connection is not accepted although there is capacity"); return; }
                if (c->peerGone && c->p->accepted) { rule(C19, "the server keeps a connection that its client has ended"); return; }
                if (c->p->accepted && env.k.now - c->lastByte >= 30 * SEC + 50 * MS) { rule(C15 | C19, "the server keeps a silent connection"); return; }
                if (c->mustClose) { rule(C19 | C15, "the server keeps a connection whose channel was closed"); return; }
                if (c->p->accepted) ++live;
            }
            if (c->peerGone && c->open) closeChannel(c);
            if (!c->peerGone && !c->vague && !faulty)
            {
                if (c->acksDue && !(silent && c->p->sutClosed) && c->p->accepted) { rule(ALL, name(*c) + " gets no Acknowledge"); return; }
                if (c->opnDue && liveChannels.size() < CAPACITY && c->p->accepted && !c->p->sutClosed) { rule(ALL, name(*c) + " gets no response to its open request"); return; }
                for (auto& p : c->pend) if (p.second.want == must) { rule(ALL, name(*c) + " gets no response to its request " + std::to_string(p.first) + " (service " + std::to_string(p.second.service) + ")"); return; }
            }
            s = mc::mix(s, c->p->sutClosed + c->peerGone * 2 + c->open * 4 + c->helloOk * 8 + c->vague * 16 + c->sessions.size() * 32 + c->activated.size() * 256 + (c->buf.size() << 12));
        }
        creating = 0;
        unsigned const socks = env.k.countOpen(sim::File::Kind::socket);
        if (!faulty && socks != live + 1) { rule(C19, "the server has " + std::to_string(socks) + " open sockets for " + std::to_string(live) + " connections and the listener"); return; }
        if (env.k.armedTimers().size() > live) { rule(C19, "a timer is armed for an ended connection"); return; }
        run.state(mc::mix(s, socks * 64 + env.k.armedTimers().size()));
    }
    void pass(std::int64_t ns)
    {
        std::int64_t const end = env.k.now + ns;
        std::int64_t d;
        while (!stop() && env.k.nextDeadline(d) && d <= end) { env.tick(); check(); }
        if (env.k.now < end) env.k.advanceTo(end);
        settle();
    }
    unsigned accepted() const { unsigned n = 0; for (auto& c : cl) n += c->p->accepted && !c->p->sutClosed; return n; }
    // all capacity that is not in use must be available to new clients
    void probe(unsigned n = CAPACITY, int stage = 3)
    {
        if (stop()) return;
        faulty = false;
        unsigned have = accepted();
        for (unsigned i = have; i < n && !stop(); ++i) client(stage);
        if (!stop()) for (auto& c : cl) if (c->strict() && c->open && !c->p->sutClosed) { request(c.get(), GetEndpoints); if (i_++ % 8 == 7) settle(); }
        settle();
    }
    unsigned i_ = 0;
    void end() { if (!stop()) { run.outcome(h); } }
};
} // namespace uasrv
