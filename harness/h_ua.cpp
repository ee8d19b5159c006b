// C14-C19: the OPC UA server, all behaviours of clients, network and kernel within the bounds given with each scenario.
#include "ua.hpp"

using namespace uasrv;
static bool g_full = false;

// ---- C15: framing ---------------------------------------------------------------------------------------------------
// the same conversation with its byte stream cut at all pairs of positions
static void conversation(mc::Run& r, int part, bool ends)
{
    int const pace = r.choose(2, "pace");
    Server s(r);
    s.pace(pace);
    auto* v = part == 3 ? s.client(4) : nullptr;         // another client in the middle of its own message
    Bytes held;
    if (v) { held = s.make(v, Read, v->session()); s.send(v, held.substr(0, 20)); s.settle(); }
    auto* c = s.dial();
    if (!c || s.stop()) return;
    Bytes b;
    if (part == 0) b = hello() + opn(c->txSeq++, c->nextReq++, c->nextHandle++);
    else
    {
        s.settle();
        s.next(c, 1);
        s.next(c, 2);
        if (s.stop()) return;
        if (part == 1) b = s.make(c, GetEndpoints) + s.make(c, CreateSession, 0, 10) + s.make(c, GetEndpoints);
        else if (part == 2)
        {
            s.next(c, 3);
            if (s.stop()) return;
            b = s.make(c, ActivateSession, c->session()) + s.make(c, Read, c->session()) + s.make(c, CloseSession, c->session());
            b += secured("CLO", c->chan, c->token, c->txSeq++, c->nextReq++, body(CloseChannel, sessionToken(0), c->nextHandle++));
        }
        else b = s.make(c, GetEndpoints, 0, 1500) + s.make(c, GetEndpoints, 0, 2500);
    }
    int const n = b.size();
    int a, z;
    if (part == 3 || (n > 260 && !g_full))
    {
        // coarser: first cut anywhere, second near a boundary of a message or header
        std::set<int> near{n};
        for (int p = 0; p < n;) { In in{b, (std::size_t)p + 4}; for (int d : {0, 1, 4, 7, 8, 9, 12, 24}) if (p + d <= n) near.insert(p + d); int len = in.u32(); for (int d : {-1, 0, 1}) if (p + len + d <= n) near.insert(p + len + d); p += len; }
        std::vector<int> nv(near.begin(), near.end());
        int const steps = part == 3 ? 200 : n;
        a = r.choose(steps, "first cut") * n / steps;
        z = nv[r.choose(nv.size(), "second cut")];
        if (z < a) std::swap(a, z);
    }
    else
    {
        a = r.choose(n, "first cut");
        z = a + r.choose(n - a + 1, "second cut");
    }
    s.send(c, b.substr(0, a));
    s.settle();
    s.send(c, b.substr(a, z - a));
    if (ends && z == n) s.fin(c);
    s.settle();
    s.send(c, b.substr(z));
    if (ends) s.fin(c);
    s.settle();
    if (v) { s.send(v, held.substr(20)); s.settle(); }
    if (part == 0 && !ends) { s.request(c, GetEndpoints); s.settle(); }
    if (part == 1 && !ends) { s.request(c, ActivateSession, c->session()); s.settle(); }
    s.probe(s.accepted() + 1, 2);
    s.end();
}
static void framing0(mc::Run& r) { conversation(r, 0, r.choose(2, "closed behind")); }
static void framing1(mc::Run& r) { conversation(r, 1, r.choose(2, "closed behind")); }
static void framing2(mc::Run& r) { conversation(r, 2, r.choose(2, "closed behind")); }
static void framing3(mc::Run& r) { conversation(r, 3, false); }
// whole conversation in pieces of k bytes
static void pieces(mc::Run& r)
{
    int const k = 1 + r.choose(40, "size of pieces");
    int const every = 1 + r.choose(3, "settle every");
    Server s(r);
    auto* c = s.dial();
    if (!c) return;
    auto put = [&](Bytes const& b) { int i = 0; for (std::size_t p = 0; p < b.size() && !s.stop(); p += k) { s.send(c, b.substr(p, k)); if (++i % every == 0) s.settle(); } s.settle(); };
    put(hello());
    put(opn(c->txSeq++, c->nextReq++, c->nextHandle++));
    put(s.make(c, GetEndpoints));
    put(s.make(c, CreateSession));
    put(s.make(c, ActivateSession, c->session()) + s.make(c, Read, c->session()));
    put(s.make(c, CloseSession, c->session()));
    s.end();
}
// messages of every length, alone and together
static void lengths(mc::Run& r)
{
    int const block = r.choose(38, "length block");
    int const how = r.choose(3, "alone / with a following message / behind one");
    int const pace = how ? r.choose(2, "pace") : 0;
    Server s(r);
    s.pace(pace);
    auto* c = s.client(2);
    for (int i = 0; i < 100 && !s.stop(); i += g_full ? 1 : 7)
    {
        int pad = block * 100 + i;
        if (pad > 3780) break;
        Bytes b = s.make(c, GetEndpoints, 0, pad);
        if (how == 1) b += s.make(c, GetEndpoints);
        if (how == 2) b = b + s.make(c, GetEndpoints, 0, 3780 - pad);
        s.send(c, b);
        s.settle();
    }
    s.end();
}
// messages between what the server can store and what its Acknowledge allows (known finding)
static void longMessages(mc::Run& r)
{
    static int const pads[] = {4100, 5000, 8000, 16000, 40000, 65300};
    int const pad = pads[r.choose(6, "length")];
    Server s(r);
    auto* v = s.client(4);
    auto* c = s.client(2);
    if (s.stop()) return;
    Bytes b = s.make(c, GetEndpoints, 0, pad);
    for (std::size_t p = 0; p < b.size(); p += 1400) { s.send(c, b.substr(p, 1400)); s.quiesce(); }
    s.settle();
    if (s.stop()) return;
    if (c->p->sutClosed || c->p->got.size() < c->rd + 100)
    {
        bool answered = c->rd > 0 && c->rxSeq > s.firstSeq;
        if (!answered && propBit() == C15) r.failKnown("chunk-over-4k", "a message of " + std::to_string(b.size()) + " bytes is refused although the Acknowledge allows 65536");
    }
    s.request(v, Read, v->session());
    s.settle();
    s.probe(s.accepted() + 1, 2);
    s.end();
}
// messages of every length around what the server can store, whatever their kind
static void limitLengths(mc::Run& r)
{
    int const kind = r.choose(6, "message");
    int const block = r.choose(30, "length block");
    int const cut = r.choose(3, "arrives");
    Server s(r);
    auto* v = s.client(4);
    for (int i = 0; i < 10 && !s.stop(); ++i)
    {
        std::size_t const len = 3860 + block * 10 + i;
        auto* c = s.client(kind == 0 ? 0 : kind == 1 ? 1 : 4);
        if (s.stop()) return;
        using namespace uaref;
        Bytes b;
        auto fill = [&](std::function<Bytes(std::size_t)> const& f) { std::size_t const n = f(0).size(); return f(len - n); };
        switch (kind)
        {
        case 0: b = fill([&](std::size_t n) { return chunk("HEL", u32(0) + u32(65536) + u32(65536) + u32(0) + u32(0) + u32(n) + Bytes(n, 'u')); }); break;
        case 1: b = fill([&](std::size_t n) { return chunk("OPN", u32(0) + str("http://opcfoundation.org/UA/SecurityPolicy#None") + nul() + nul() + u32(51) + u32(7) + nodeId(0, OpenChannel) + reqHdr(nodeId(0, 0), 9) + u32(0) + u32(0) + u32(1) + u32(n) + Bytes(n, 'n') + u32(3600000)); }); break;
        case 2: b = fill([&](std::size_t n) { return secured("MSG", c->chan, c->token, c->txSeq, 77, nodeId(0, GetEndpoints) + reqHdr(nodeId(0, 0), 9) + u32(n) + Bytes(n, 'x') + u32(0) + u32(0)); }); break;
        case 3: b = fill([&](std::size_t n) { return secured("CLO", c->chan, c->token, c->txSeq, 77, body(CloseChannel, sessionToken(0), 9) + Bytes(n, 'z')); }); break;
        case 4: b = fill([&](std::size_t n) { return secured("MSG", c->chan, c->token, c->txSeq, 77, nodeId(0, 500) + Bytes(n, 'z')); }); break;
        case 5: b = fill([&](std::size_t n) { return secured("MSG", c->chan, c->token, c->txSeq, 77, nodeId(0, Read) + reqHdr(sessionToken(c->session()), 9) + dbl(0) + u32(2) + u32(1) + nodeId(0, 2256) + u32(13) + u32(n) + Bytes(n, 'i') + u16(0) + nul()); }); break;
        }
        c->txSeq++;
        std::size_t const at = cut == 0 ? b.size() : cut == 1 ? 1460 : b.size() - 1;
        s.send(c, b.substr(0, at));
        s.settle();
        s.send(c, b.substr(at));
        s.settle();
        if (s.stop()) return;
        // served like any other, or refused: the connection is closed
        if (!c->p->sutClosed && b.size() <= 3900 && kind >= 2 && kind != 3) { s.request(c, GetEndpoints); s.settle(); }
        if (!s.stop()) { s.fin(c); s.settle(); }
    }
    if (s.stop()) return;
    s.request(v, Read, v->session());
    s.settle();
    s.probe(CAPACITY, 3);
    s.end();
}
// first bytes: all header fields
static Bytes mutateHeader(mc::Run& r, Bytes m)
{
    int const at = r.choose(10, "field");
    if (at == 9) m.replace(4, 4, uaref::u32(m.size() ^ 1u << r.choose(32, "bit of the size")));
    else if (at < 4) m[at] = (char)r.choose(256, "value");
    else if (at == 4)
    {
        static std::uint32_t const sizes[] = {0, 1, 7, 8, 9, 11, 12, 13, 23, 24, 25, 4000, 4088, 4095, 4096, 4097, 65535, 65536, 65537, 0x7fffffff, 0x80000000u, 0xffffffffu};
        m.replace(4, 4, uaref::u32(sizes[r.choose(22, "size")]));
    }
    else if (at == 5) m.replace(4, 4, uaref::u32(m.size() - 12 + r.choose(25, "size")));
    else if (at == 6) m = m.substr(0, r.choose(m.size(), "length")), m = m.size() >= 8 ? m.replace(4, 4, uaref::u32(m.size())) : m;
    else if (at == 7) { static char const* ty[] = {"HEL", "ACK", "ERR", "RHE", "OPN", "MSG", "CLO", "hel", "msg"}; m.replace(0, 3, ty[r.choose(9, "type")]); }
    else m.replace(4, 4, uaref::u32(r.choose(64, "size")));
    return m;
}
static void headers(mc::Run& r)
{
    int const stage = r.choose(3, "stage");
    Server s(r);
    auto* v = s.client(4);
    auto* c = s.client(stage);
    if (s.stop()) return;
    Bytes m;
    switch (stage)
    {
    case 0: m = hello(); break;
    case 1: m = opn(c->txSeq++, c->nextReq++, c->nextHandle++); break;
    case 2: m = s.make(c, GetEndpoints); break;
    }
    s.send(c, mutateHeader(r, m));
    s.settle();
    // a valid continuation must not revive a refused connection into answering twice
    s.send(c, hello());
    s.settle();
    s.request(v, Read, v->session());
    s.settle();
    s.pass(31 * SEC);
    s.probe(2, 2);
    s.end();
}
// everything a client may send before, or instead of, its Hello
static void noHello(mc::Run& r)
{
    int const n = g_full ? 4 : 3;
    Server s(r);
    auto* v = s.client(4);
    auto* c = s.dial();
    if (!c) return;
    s.settle();
    int const together = r.choose(2, "at once");
    Bytes all;
    for (int i = 0; i < n && !s.stop(); ++i)
    {
        Bytes b;
        Bytes const ge = body(GetEndpoints, sessionToken(0), 1);
        switch (r.choose(14, "message"))
        {
        case 0: b = hello(); break;
        case 1: b = opn(51 + i, 7 + i, 0x1000 + i); break;
        case 2: b = secured("MSG", v->chan, v->token, v->txSeq, 7 + i, ge); break;
        case 3: b = secured("CLO", v->chan, v->token, v->txSeq, 7 + i, body(CloseChannel, sessionToken(0), 1)); break;
        case 4: b = hello(); b[3] = 'C'; break;
        case 5: b = hello(); b[3] = 'A'; break;
        case 6: b = hello().substr(0, 28); b.replace(4, 4, uaref::u32(b.size())); break;
        case 7: b = hello(); b.replace(28, 4, uaref::u32(1000)); break;
        case 8: b = chunk("ACK", uaref::u32(0) + uaref::u32(65536) + uaref::u32(65536) + uaref::u32(0) + uaref::u32(0)); break;
        case 9: b = chunk("ERR", uaref::u32(0x80010000u) + uaref::str("x")); break;
        case 10: b = chunk("RHE", uaref::str("urn:s") + uaref::str("opc.tcp://h:1")); break;
        case 11: b = chunk("HEL", ""); break;
        case 12: b = secured("MSG", 1, 0, 51 + i, 7 + i, ge); break;
        case 13: b = hello(); b.replace(0, 3, "OPN"); break;
        }
        if (together) all += b;
        else { s.send(c, b); s.settle(); }
    }
    if (together) { s.send(c, all); s.settle(); }
    s.request(v, Read, v->session());
    s.settle();
    s.probe(s.accepted() + 1, 3);
    s.end();
}
// silence at any point of the conversation
static void silence(mc::Run& r)
{
    int const stage = r.choose(5, "stage");
    int const part = r.choose(4, "bytes of the next message");
    int const late = r.choose(4, "activity");
    Server s(r);
    auto* c = s.client(stage);
    if (s.stop()) return;
    Bytes m = stage == 0 ? hello() : stage == 1 ? opn(c->txSeq++, c->nextReq++, c->nextHandle++) : s.make(c, GetEndpoints);
    std::size_t const cut = part == 0 ? 0 : part == 1 ? 1 : part == 2 ? 8 : m.size() - 1;
    s.send(c, m.substr(0, cut));
    s.settle();
    static std::int64_t const when[] = {0, 1 * SEC, 15 * SEC, 29900 * MS};
    s.pass(when[late]);
    if (late && !s.stop() && !c->p->sutClosed) { s.send(c, m.substr(cut)); s.settle(); }
    s.pass(29 * SEC);
    if (late && !s.stop() && c->p->sutClosed) { s.rule(C15, "a connection is closed 29 s after its last message"); return; }
    s.pass(2 * SEC);
    if (!s.stop() && !c->p->sutClosed) { s.rule(C15 | C19, "a silent connection is not closed"); return; }
    s.pass(40 * SEC);
    s.probe(CAPACITY, 2);
    s.end();
}

// ---- C14: malformed content -------------------------------------------------------------------------------------------
static Bytes seedMessage(Server& s, Client* c, int kind)
{
    switch (kind)
    {
    case 0: return hello();
    case 1: return opn(c->txSeq++, c->nextReq++, c->nextHandle++);
    case 2: return s.make(c, GetEndpoints);
    case 3: return s.make(c, CreateSession);
    case 4: return s.make(c, ActivateSession, c->session());
    case 5: return s.make(c, Read, c->session());
    case 6: return s.make(c, CloseSession, c->session());
    case 7: return secured("CLO", c->chan, c->token, c->txSeq++, c->nextReq++, body(CloseChannel, sessionToken(0), c->nextHandle++));
    }
    return "";
}
static int stageFor(int kind) { static int const st[] = {0, 1, 2, 2, 3, 4, 4, 2}; return st[kind]; }
// several malformed variants of one message are tried in one execution, each on a connection of its own
static void malformed(mc::Run& r)
{
    int const kind = r.choose(8, "message");
    int const how = r.choose(4, "truncated / altered byte / altered length / extended");
    int const block = r.choose(how == 3 ? 4 : 40, "block");
    int const way = how == 1 ? r.choose(g_full ? 16 : 2, "values") : 0;
    Server s(r);
    auto* v = s.client(4);
    if (s.stop()) return;
    static unsigned char const vals[] = {0, 1, 2, 3, 4, 5, 7, 8, 0x0f, 0x10, 0x40, 0x7f, 0x80, 0xc0, 0xfe, 0xff};
    auto attack = [&](std::function<bool(Bytes&)> const& f) {
        auto* c = s.client(stageFor(kind));
        if (s.stop()) return false;
        Bytes m = seedMessage(s, c, kind);
        bool more = f(m);
        if (more)
        {
            // truncated messages must not be answered; what comes back otherwise is not judged here, except for its form
            if (how != 0) c->vague = c->mayClose = true;
            s.send(c, m);
            c->vague = c->mayClose = true;
            s.settle();
        }
        s.fin(c);
        s.settle();
        return more && !s.stop();
    };
    int const step = 10;
    for (int i = block * step; i < (block + 1) * step && !s.stop(); ++i)
    {
        bool go = true;
        switch (how)
        {
        case 0: go = attack([&](Bytes& m) { if (8 + i >= (int)m.size()) return false; m.resize(8 + i); m.replace(4, 4, uaref::u32(m.size())); return true; }); break;
        case 1:
            for (int k = 0; k < (g_full ? 16 : 8) && go; ++k)
                go = attack([&](Bytes& m) { if (8 + i >= (int)m.size()) return false; m[8 + i] = g_full ? (char)(way * 16 + k) : (char)vals[way * 8 + k]; return true; });
            break;
        case 2:
            for (std::uint32_t len : {0u, 1u, 0x7fu, 4096u, 0x10000u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu})
                if (go) go = attack([&](Bytes& m) { if (12 + i > (int)m.size()) return false; m.replace(8 + i, 4, uaref::u32(len)); return true; });
            break;
        case 3: go = attack([&](Bytes& m) { m += Bytes(1 + i * 37, i & 1 ? '\xff' : '\0'); m.replace(4, 4, uaref::u32(m.size())); return true; }); break;
        }
        if (!go) break;
    }
    if (s.stop()) return;
    s.request(v, Read, v->session());
    s.request(v, GetEndpoints);
    s.settle();
    s.probe(CAPACITY, 3);
    s.end();
}
// one client sends as much as it can at once
static void flood(mc::Run& r)
{
    int const kind = r.choose(9, "message");
    static int const counts[] = {2, 8, 40, 63, 64, 65, 100, 200};
    int const n = counts[r.choose(8, "number")];
    int const how = r.choose(3, "then");
    int const pace = r.choose(2, "pace");
    Server s(r);
    s.pace(pace);
    auto* v = s.client(4);
    auto* c = s.client(kind == 0 ? 0 : kind == 1 ? 1 : 4);
    if (s.stop()) return;
    Bytes b;
    for (int i = 0; i < n; ++i)
        switch (kind)
        {
        case 0: b += hello(); break;
        case 1: b += opn(c->txSeq++, c->nextReq++, c->nextHandle++); break;
        case 2: b += s.make(c, GetEndpoints); break;
        case 3: b += s.make(c, CreateSession); break;
        case 4: b += s.make(c, Read, c->session()); break;
        case 5: b += secured("MSG", c->chan, c->token, c->txSeq++, c->nextReq++, ""); break;
        case 6: b += chunk("MSG", uaref::u32(c->chan)); break;
        case 7: b += secured("CLO", c->chan, c->token, c->txSeq++, c->nextReq++, ""); break;
        case 8: b += chunk("MSG", uaref::u32(c->chan) + uaref::u32(c->token)); break;
        }
    bool const valid = kind == 2 || kind == 4;
    if (!valid) { c->vague = true; c->mayClose = true; }
    s.send(c, b);
    if (how == 1) s.fin(c);
    if (how == 2) s.rst(c);
    // the other client is served at the same time
    s.request(v, Read, v->session());
    s.settle();
    s.request(v, GetEndpoints);
    s.settle();
    if (!c->peerGone && !s.stop()) { s.fin(c); s.settle(); }
    s.probe(CAPACITY, 3);
    s.end();
}

// ---- C16: tokens, channels, sequence numbers ------------------------------------------------------------------------------
static void refusedMessages(mc::Run& r)
{
    int const kind = r.choose(6, "request");                // services and CLO
    int const field = r.choose(4, "field");
    int const val = r.choose(field == 3 ? 5 : 12, "value");
    int const who = r.choose(2, "sender has a session");
    int const again = r.choose(3, "then");
    Server s(r);
    auto* gone = s.client(4);
    if (s.stop()) return;
    std::uint32_t const oldChan = gone->chan, oldTok = gone->token;
    s.sendClo(gone);
    s.settle();
    auto* v = s.client(4);
    auto* c = s.client(who ? 4 : 2);
    if (s.stop()) return;
    std::uint32_t ch = c->chan, tok = c->token, seq = c->txSeq;
    switch (field)
    {
    case 0:
    {
        std::uint32_t const x[] = {0, ch + 1, ch - 1, v->chan, oldChan, 33, 0x7fffffff, 0xffffffffu, ch + 256, ch + 32, ch + 65536, ch | 0x80000000u};
        ch = x[val];
        break;
    }
    case 1:
    {
        std::uint32_t const x[] = {0, tok + 1, tok - 1, v->token, oldTok, tok ^ 0x100, tok ^ 0x10000, tok ^ 0x1000000, tok | 0x80000000u, __builtin_bswap32(tok), 0xffffffffu, tok >> 1};
        tok = x[val];
        if (tok == c->token) return;
        break;
    }
    case 2:
    {
        std::uint32_t const x[] = {0, 1, seq - 1, seq - 2, seq + 1, seq + 2, seq + 256, seq + 65536, seq ^ 0x80000000u, 0xffffffffu, v->txSeq + 7, seq + 1024};
        seq = x[val];
        if (seq == c->txSeq) return;
        break;
    }
    case 3:     // another client's channel and token
        ch = v->chan;
        tok = v->token;
        seq = val == 0 ? seq : val == 1 ? v->txSeq : val == 2 ? v->txSeq + 1 : val == 3 ? v->txSeq - 1 : 0;
        break;
    }
    static std::uint32_t const svc[] = {GetEndpoints, CreateSession, ActivateSession, CloseSession, Read, CloseChannel};
    std::uint32_t const sess = kind == 2 || kind == 3 || kind == 4 ? (field == 3 ? v->session() : c->session()) : 0;
    if (ch == c->chan && tok == c->token && seq == c->txSeq) return;
    unsigned const before = c->p->got.size();
    s.send(c, secured(kind == 5 ? "CLO" : "MSG", ch, tok, seq, 0x77, body(svc[kind], sessionToken(sess), 0x99)));
    if (again == 1) s.send(c, secured("MSG", ch, tok, seq + 1, 0x78, body(GetEndpoints, sessionToken(0), 0x9a)));
    s.settle();
    if (s.stop()) return;
    Bytes const got = c->p->got.substr(before);
    if (!got.empty() && got.substr(0, 3) != "ERR") { s.rule(C16, "a message with a wrong channel, token or sequence number is answered"); return; }
    // neither this nor another channel or session is affected
    if (again == 2 && !c->p->sutClosed) { s.fin(c); s.settle(); }
    s.request(v, Read, v->session());
    s.settle();
    s.request(v, CloseSession, v->session());
    s.settle();
    s.request(v, CreateSession);
    s.settle();
    s.sendClo(v);
    s.settle();
    s.probe(CAPACITY, 3);
    s.end();
}
// every bit of the channel id, the token and the sequence number counts
static void refusedBits(mc::Run& r)
{
    static std::uint32_t const svc[] = {GetEndpoints, CreateSession, Read, CloseChannel};
    std::uint32_t const sv = svc[r.choose(4, "request")];
    int const field = r.choose(3, "field");
    std::uint32_t const flip = 1u << r.choose(32, "bit");
    Server s(r);
    auto* v = s.client(4);
    auto* c = s.client(4);
    if (s.stop()) return;
    unsigned const before = c->p->got.size();
    s.send(c, secured(sv == CloseChannel ? "CLO" : "MSG", c->chan ^ (field == 0 ? flip : 0), c->token ^ (field == 1 ? flip : 0), c->txSeq ^ (field == 2 ? flip : 0), 0x77, body(sv, sessionToken(sv == Read ? c->session() : 0), 0x99)));
    s.settle();
    if (s.stop()) return;
    Bytes const got = c->p->got.substr(before);
    if (!got.empty() && got.substr(0, 3) != "ERR") { s.rule(C16, "a message with a wrong channel, token or sequence number is answered"); return; }
    if (!c->p->sutClosed) { s.fin(c); s.settle(); }
    s.request(v, Read, v->session());
    s.settle();
    s.probe(4, 3);
    s.end();
}
// the sequence number may start anywhere
static void sequenceStart(mc::Run& r)
{
    static std::uint32_t const st[] = {0, 1, 2, 51, 255, 256, 65535, 65536, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0xfffff000u, 0xffffff00u};
    std::uint32_t const first = st[r.choose(13, "first sequence number")];
    static std::uint32_t const rq[] = {0, 1, 0xff, 0x100, 0xffff, 0x7fffffff, 0xfffffff0u};
    std::uint32_t const req = rq[r.choose(7, "first request id")];
    std::uint32_t const hd = rq[r.choose(7, "first handle")];
    Server s(r);
    auto* c = s.client(1);
    if (s.stop()) return;
    c->txSeq = first;
    c->nextReq = req;
    c->nextHandle = hd;
    for (int i = 2; i <= 4; ++i) s.next(c, i);
    for (int i = 0; i < 6 && !s.stop(); ++i) { s.request(c, i & 1 ? (std::uint32_t)Read : (std::uint32_t)GetEndpoints, c->session()); s.settle(); }
    s.request(c, CloseSession, c->session());
    s.settle();
    s.sendClo(c);
    s.settle();
    s.end();
}

// request ids and handles need not be distinct, nor ascending
static void sameIds(mc::Run& r)
{
    static int const steps[] = {0, -1, -0x10001, 2};
    int const rs = r.choose(4, "step of the request id");
    int const hs = r.choose(4, "step of the handle");
    int const with = r.choose(3, "another client");
    Server s(r);
    auto* v = with ? s.client(1) : nullptr;
    auto* c = s.client(1);
    if (s.stop()) return;
    int n = 0;
    auto both = [&](std::uint32_t sv) {
        for (Client* x : {c, v})
        {
            if (!x || s.stop() || !x->up()) continue;
            x->nextReq = 0x20 + (unsigned)(steps[rs] * (rs == 3 ? n % 2 : n));
            x->nextHandle = 0x30 + (unsigned)(steps[hs] * (hs == 3 ? n % 2 : n));
            if (sv == OpenChannel) s.sendOpen(x);
            else if (sv == CloseChannel) s.sendClo(x);
            else s.request(x, sv, x->session());
            if (with == 2) s.settle();
        }
        s.settle();
        ++n;
    };
    for (auto sv : {OpenChannel, CreateSession, ActivateSession, Read, Read, GetEndpoints, GetEndpoints, CreateSession, ActivateSession, Read}) both(sv);
    if (r.choose(2, "renew")) { both(OpenChannel); both(CreateSession); both(ActivateSession); both(Read); both(Read); }
    if (!s.stop() && rs && rs != 3)
    {
        // several at once
        Bytes b;
        for (int i = 0; i < 4; ++i)
        {
            c->nextReq = 0x20 + (unsigned)(steps[rs] * n);
            c->nextHandle = 0x30 + (unsigned)(steps[hs] * n++);
            b += s.make(c, i & 1 ? (std::uint32_t)Read : (std::uint32_t)GetEndpoints, c->session());
        }
        s.send(c, b);
        s.settle();
    }
    both(CloseSession);
    both(CloseChannel);
    s.probe(4, 4);
    s.end();
}

// ---- operation sequences of two clients --------------------------------------------------------------------------------------
enum Op { oHello, oOpen, oEnd, oCreate, oActivate, oActivateOther, oRead, oReadOther, oReadNone, oCloseS, oCloseOther, oClo, oFin, oRst, oBadToken, oBadSeq, oForeign, oUnknown, oNew, oSilence, OPS };
static char const* const opNames[] = {"hello", "open", "getEndpoints", "createSession", "activate", "activate other's", "read", "read other's", "read without session", "closeSession", "close other's", "CLO", "FIN", "RST", "bad token", "bad sequence", "foreign channel", "unknown service", "new connection", "31 s"};
static void apply(Server& s, Client*& c, Client* o, Op op)
{
    bool const can = c->up() && c->open && !c->vague;
    switch (op)
    {
    case oHello: if (c->up() && !c->helloOk) s.sendHello(c); break;
    case oOpen: if (c->up() && c->helloOk && !c->vague && s.liveChannels.size() < CAPACITY) s.sendOpen(c); break;
    case oEnd: if (can) s.request(c, GetEndpoints); break;
    case oCreate: if (can) s.request(c, CreateSession); break;
    case oActivate: if (can) s.request(c, ActivateSession, c->session()); break;
    case oActivateOther: if (can && o->session()) s.request(c, ActivateSession, o->session()); break;
    case oRead: if (can) s.request(c, Read, c->session()); break;
    case oReadOther: if (can && o->session()) s.request(c, Read, o->session()); break;
    case oReadNone: if (can) s.request(c, Read, 0); break;
    case oCloseS: if (can) s.request(c, CloseSession, c->session()); break;
    case oCloseOther: if (can && o->session()) s.request(c, CloseSession, o->session()); break;
    case oClo: if (can) s.sendClo(c); break;
    case oFin: if (c->up()) s.fin(c); break;
    case oRst: if (c->up()) s.rst(c); break;
    case oBadToken: if (can) s.send(c, secured("MSG", c->chan, c->token ^ 1, c->txSeq++, c->nextReq++, body(GetEndpoints, sessionToken(0), 1))); break;
    case oBadSeq: if (can) { c->txSeq++; s.request(c, CreateSession); } break;
    case oForeign: if (can && o->open) s.send(c, secured("CLO", o->chan, o->token, o->txSeq, c->nextReq++, body(CloseChannel, sessionToken(0), 1))); break;
    case oUnknown: if (can) s.send(c, secured("MSG", c->chan, c->token, c->txSeq++, c->nextReq++, body(500, sessionToken(c->session()), 5))); break;
    case oNew: if (!c->up()) { c = s.client(2); } break;
    case oSilence: s.pass(31 * SEC); break;
    default: break;
    }
}
static bool sensible(Client* c, Client* o, Op op)
{
    bool const can = c->up() && c->open && !c->vague;
    switch (op)
    {
    case oHello: return c->up() && !c->helloOk;
    case oOpen: return c->up() && c->helloOk && !c->vague;
    case oActivateOther: case oReadOther: case oCloseOther: return can && o->session();
    case oForeign: return can && o->open;
    case oFin: case oRst: return c->up();
    case oNew: return !c->up();
    case oSilence: return true;
    default: return can;
    }
}
static void sequences(mc::Run& r, int depth, int stages)
{
    int const pace = stages < 0 ? 0 : r.choose(2, "pace");
    Server s(r);
    s.pace(pace);
    int const sa = stages < 0 ? 4 : r.choose(stages, "stage of a"), sb = stages < 0 ? 4 : r.choose(stages, "stage of b");
    int const off = 5 - (stages < 0 ? 5 : stages);
    Client* c[2];
    c[0] = s.client(std::min(4, sa + off));
    c[1] = s.client(std::min(4, sb + off));
    for (int i = 0; i < depth && !s.stop(); ++i)
    {
        std::vector<std::pair<int, Op>> can;
        for (int k = 0; k < 2; ++k)
            for (int o = 0; o < OPS; ++o)
                if (sensible(c[k], c[!k], (Op)o) && (o != oSilence || k == 0)) can.push_back({k, (Op)o});
        // operations may follow each other without the server having run
        auto [k, op] = can[r.choose(can.size(), "operation")];
        r.note(std::string(k ? "b " : "a ") + opNames[op]);
        apply(s, c[k], c[!k], op);
        s.settle();
    }
    for (int k = 0; k < 2 && !s.stop(); ++k)
        if (c[k]->strict() && c[k]->open && c[k]->up()) { s.request(c[k], Read, c[k]->session()); s.settle(); }
    s.probe(propBit() == C19 ? CAPACITY : 6, 3);
    s.end();
}
static void seq2(mc::Run& r) { sequences(r, 2, 5); }
static void seq3(mc::Run& r) { sequences(r, 3, g_full ? 3 : -1); }
static void seq4(mc::Run& r) { sequences(r, 4, -1); }

// ---- C17: several requests at once ----------------------------------------------------------------------------------------
static void together(mc::Run& r)
{
    int const n = g_full ? 4 : 3;
    static std::uint32_t const svc[] = {GetEndpoints, CreateSession, ActivateSession, Read, CloseSession, 500, CloseChannel};
    Server s(r);
    int const st = r.choose(3, "stage") + 2;
    auto* v = s.client(4);
    auto* c = s.client(st);
    if (s.stop()) return;
    Bytes b, w;
    for (int i = 0; i < n; ++i)
    {
        int k = r.choose(7, "request");
        std::uint32_t sess = c->session();
        if (svc[k] == CloseChannel) { b += secured("CLO", c->chan, c->token, c->txSeq++, c->nextReq++, body(CloseChannel, sessionToken(0), c->nextHandle++)); break; }
        b += s.make(c, svc[k], sess);
        if (i < 2) w += s.make(v, i ? (std::uint32_t)GetEndpoints : (std::uint32_t)Read, v->session());
    }
    int const order = r.choose(3, "arrival");
    int const pace = r.choose(Server::PACES, "pace");
    s.pace(pace, g_full ? 5 : 3);
    if (order == 0) s.send(v, w), s.send(c, b);
    else if (order == 1) s.send(c, b), s.send(v, w);
    else { s.send(c, b.substr(0, b.size() / 2)); s.send(v, w); s.env.settle(); s.send(c, b.substr(b.size() / 2)); }
    s.settle();
    if (pace == 2) s.pace(0);
    s.request(v, Read, v->session());
    s.settle();
    if (c->up() && c->open && c->strict()) { s.request(c, GetEndpoints); s.settle(); }
    s.probe(4, 4);
    s.end();
}
// every type id in every numeric form, known or not
static void serviceIds(mc::Run& r)
{
    int const block = r.choose(260, "block of ids");
    int const form = r.choose(4, "form");
    Server s(r);
    auto* c = s.client(4);
    if (s.stop()) return;
    using namespace uaref;
    for (int i = 0; i < 256 && !s.stop(); i += 1)
    {
        std::uint32_t id = block * 256 + i;
        if (block >= 256) { static std::uint32_t const hi[] = {0x10000, 0x80000000u, 0xffff0000u, 0x01000000}; id = hi[block - 256] + (i < 128 ? 400 + i : 560 + i); }
        if (form != 2 && id > 0xffff) break;
        if (form == 0 && block > 0) break;
        bool const known = id == GetEndpoints || id == CreateSession || id == ActivateSession || id == CloseSession || id == Read;
        if (known && id == CloseSession && form != 3) continue;
        if (known && id == CreateSession && form != 3) continue;
        Bytes t = form == 0 ? u8(0) + u8(id) : form == 1 ? u8(1) + u8(0) + u16(id) : form == 2 ? u8(2) + u16(0) + u32(id) : u8(1) + u8(1 + (i & 3)) + u16(id);
        Bytes full = body(known ? id : (std::uint32_t)GetEndpoints, sessionToken(c->session()), c->nextHandle++);
        Bytes rest = full.substr(nodeId(0, known ? id : (std::uint32_t)GetEndpoints).size());
        s.send(c, secured("MSG", c->chan, c->token, c->txSeq++, c->nextReq++, t + rest));
        if (i % 4 == 3 || known) s.settle();
    }
    s.settle();
    if (!s.stop() && !c->vague) { s.request(c, Read, c->session()); s.settle(); }
    s.probe(2, 3);
    s.end();
}
// valid Hello messages of all contents
static void hellos(mc::Run& r)
{
    using namespace uaref;
    static std::uint32_t const vers[] = {0, 1, 0x7fffffff}, bufs[] = {8192, 8193, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu}, maxs[] = {0, 1, 8192, 65536, 0xffffffffu};
    Bytes const urls[] = {nul(), str(""), str("o"), str("opc.tcp://h:1"), str(Bytes(255, 'u')), str(Bytes(256, 'v')), str(Bytes(1000, 'w')), str(Bytes(3000, 'x')), str(Bytes("\0\xff\n", 3))};
    int const url = r.choose(9, "url");
    int const which = r.choose(5, "field");
    std::uint32_t f[5] = {0, 65536, 65536, 0, 0};
    f[which] = which == 0 ? vers[r.choose(3, "version")] : which <= 2 ? bufs[r.choose(7, "buffer size")] : maxs[r.choose(5, "maximum")];
    if (which == 1 && r.choose(2, "both")) f[2] = f[1];
    int const cut = r.choose(4, "whole / two pieces / byte by byte / with the open request");
    Bytes m;
    for (auto v : f) m += u32(v);
    m = chunk("HEL", m + urls[url]);
    Server s(r);
    auto* v = s.client(3);
    auto* c = s.client(0);
    if (s.stop()) return;
    if (cut == 2) for (char x : m) { s.send(c, Bytes(1, x)); if (!s.stop()) s.settle(); }
    else if (cut == 1) { s.send(c, m.substr(0, m.size() / 2)); s.settle(); s.send(c, m.substr(m.size() / 2)); }
    else if (cut == 3) s.send(c, m + opn(c->txSeq++, c->nextReq++, c->nextHandle++));
    else s.send(c, m);
    s.settle();
    if (s.stop()) return;
    if (cut != 3) s.next(c, 2);
    s.next(c, 3);
    s.next(c, 4);
    for (auto* x : {c, v}) if (!s.stop()) { s.request(x, GetEndpoints); s.settle(); }
    if (!s.stop()) { s.request(c, Read, c->session()); s.settle(); s.sendClo(c); s.settle(); }
    s.probe(3, 3);
    s.end();
}
// well-formed requests in all the shapes the protocol allows
static void shapes(mc::Run& r)
{
    using namespace uaref;
    static std::uint32_t const svc[] = {GetEndpoints, CreateSession, ActivateSession, Read, CloseSession, CloseChannel, OpenChannel};
    std::uint32_t const sv = svc[r.choose(7, "service")];
    Bytes const strings[] = {nul(), u32(0), str("x"), str(Bytes(200, 'y')), str(Bytes("\0\xc3\xa4", 3))};
    Bytes const exts[] = {noExt(), nodeId(0, 321) + u8(0), nodeId(0, 321) + u8(1) + u32(4) + "abcd", u8(2) + u16(300) + u32(70000) + u8(1) + u32(0), u8(3) + u16(1) + str("id") + u8(0), u8(4) + u16(0) + Bytes(16, 'g') + u8(1) + nul(), u8(5) + u16(2) + str("op") + u8(0)};
    Bytes const texts[] = {u8(0), u8(1) + str("en"), u8(2) + str("text"), u8(3) + str("de") + str("Text"), u8(3) + nul() + u32(0)};
    auto strs = [&](int k) { if (k == 0) return nul(); Bytes b = u32(k - 1); for (int i = 1; i < k; ++i) b += strings[i % 5]; return b; };
    auto S = [&](char const* w) { return strings[r.choose(5, w)]; };
    static std::uint32_t const lifes[] = {1, 1000, 3600000, 0xffff, 0x10000, 0x7fffffff, 0xffffffffu};
    Server s(r);
    auto* c = s.client(sv == OpenChannel ? 1 : 4);
    if (s.stop()) return;
    std::uint32_t const handle = c->nextHandle++;
    Bytes tok = sessionToken(sv == Read || sv == ActivateSession || sv == CloseSession ? c->session() : 0);
    Bytes const type[] = {nodeId(0, sv), u8(2) + u16(0) + u32(sv)};
    // either the header or the content varies
    int const which = r.choose(2, "header / content");
    Bytes h = type[0] + tok;
    if (which == 0)
    {
        h = type[r.choose(2, "form of the type id")] + tok;
        std::uint64_t const times[] = {0, 1, 0x01d9123456789abcull, 0x7fffffffffffffffull};
        h += u64(times[r.choose(4, "timestamp")]) + u32(handle) + u32(r.choose(2, "diagnostics") ? 0x3ff : 0) + S("audit entry") + u32(r.choose(2, "timeout hint") ? 0xffffffffu : 0) + exts[r.choose(7, "additional header")];
    }
    else h = type[0] + reqHdr(tok, handle);
    Bytes b;
    if (which == 0) b = body(sv, tok, handle).substr((type[0] + reqHdr(tok, handle)).size());
    else
        switch (sv)
        {
        case GetEndpoints: b = S("url"); b += strs(r.choose(5, "locales")); b += strs(r.choose(5, "profiles")); break;
        case CreateSession:
            b = S("uri"); b += str("urn:p"); b += texts[r.choose(5, "name")]; b += u32(r.choose(4, "application type")); b += str(""); b += str(""); b += strs(r.choose(4, "discovery urls"));
            b += nul() + str("opc.tcp://h:1"); b += S("session name"); b += r.choose(2, "nonce") ? str(Bytes(32, '\xfe')) : nul(); b += r.choose(2, "certificate") ? str(Bytes(1200, '\x30')) : nul(); b += dbl(r.choose(2, "timeout") ? 1.2e6 : 0) + u32(0);
            break;
        case ActivateSession: b = S("algorithm"); b += S("signature"); b += r.choose(2, "certificates") ? nul() : u32(0); b += strs(r.choose(5, "locales")); b += exts[r.choose(7, "identity")]; b += S("user algorithm"); b += nul(); break;
        case Read:
        {
            static int const counts[] = {-1, 0, 1, 2, 7, 40};
            int const k = counts[r.choose(6, "nodes")];
            Bytes const ids[] = {nodeId(0, 2256), nodeId(0, 5), nodeId(3, 70000), u8(3) + u16(1) + str("name"), u8(4) + u16(0) + Bytes(16, 'g'), u8(5) + u16(2) + str("op")};
            int const first = r.choose(6, "first node");
            b = dbl(0) + u32(r.choose(4, "timestamps")) + u32(k);
            Bytes const range = S("range");
            int const enc = r.choose(3, "encoding");
            for (int i = 0; i < k; ++i) b += ids[(first + i) % 6] + u32(13) + (i % 3 ? nul() : range) + u16(enc == 2 ? 7 : 0) + (enc ? str("Default Binary") : nul());
            break;
        }
        case CloseSession: b = u8(r.choose(2, "delete subscriptions")); break;
        case CloseChannel: break;
        case OpenChannel: b = u32(0) + u32(0) + u32(1) + (r.choose(2, "nonce") ? str(Bytes(32, 'n')) : nul()) + u32(lifes[r.choose(7, "lifetime")]); break;
        }
    Bytes const rest = u32(c->txSeq++) + u32(c->nextReq++) + h + b;
    if (sv == OpenChannel)
    {
        int const certs = r.choose(2, "certificate fields");
        s.send(c, chunk("OPN", u32(0) + str("http://opcfoundation.org/UA/SecurityPolicy#None") + (certs ? u32(0) : nul()) + (certs ? u32(0) : nul()) + rest));
    }
    else s.send(c, chunk(sv == CloseChannel ? "CLO" : "MSG", u32(c->chan) + u32(c->token) + rest));
    s.settle();
    if (sv != CloseChannel && !s.stop()) { s.request(c, GetEndpoints); s.settle(); }
    s.end();
}
// n clients send a request each at the same instant
static void manyClients(mc::Run& r)
{
    static int const ns[] = {2, 9, 10, 11, 20, 31, 32};
    int const n = ns[r.choose(7, "clients")];
    static std::uint32_t const svc[] = {GetEndpoints, CreateSession, ActivateSession, Read, CloseSession};
    int const a = r.choose(5, "request of even"), b = r.choose(5, "request of odd");
    int const rev = r.choose(2, "order");
    int const st = r.choose(2, "stage");
    int const pace = r.choose(2, "pace");
    Server s(r);
    s.pace(pace);
    std::vector<Client*> v;
    for (int i = 0; i < n && !s.stop(); ++i) v.push_back(s.client(st ? 4 : 3));
    if (s.stop()) return;
    for (int round = 0; round < 2 && !s.stop(); ++round)
    {
        for (int i = 0; i < n; ++i) { auto* c = v[rev ? n - 1 - i : i]; s.request(c, svc[(c->idx & 1) ? b : a], c->session()); }
        s.settle();
    }
    s.end();
}

// ---- C18: session tokens ------------------------------------------------------------------------------------------------------
static void tokens(mc::Run& r)
{
    int const stage = r.choose(3, "own stage") + 2;
    static std::uint32_t const svc[] = {ActivateSession, Read, CloseSession};
    std::uint32_t const sv = svc[r.choose(3, "service")];
    int const form = r.choose(7, "form of the token");
    int const val = r.choose(12, "value");
    Server s(r);
    auto* old = s.client(4);
    if (s.stop()) return;
    std::uint32_t const closed = old->session();
    s.request(old, CloseSession, closed);
    s.settle();
    auto* dead = s.client(4);
    if (s.stop()) return;
    std::uint32_t const orphan = dead->session();
    s.fin(dead);
    s.settle();
    auto* v = s.client(4);
    auto* w = s.client(3);
    auto* c = s.client(stage);
    if (s.stop()) return;
    std::uint32_t const own = c->session();
    std::uint32_t const x[] = {0, own, v->session(), w->session(), closed, orphan, 33, 0x7fffffff, 0xffffffffu, own + 256, v->session() + 0x10000, v->session() | 0x80000000u};
    std::uint32_t const t = x[val];
    using namespace uaref;
    Bytes tok;
    switch (form)
    {
    case 0: tok = nodeId(0, t); break;
    case 1: tok = u8(2) + u16(0) + u32(t); break;
    case 2: tok = u8(2) + u16(1) + u32(t); break;
    case 3: tok = u8(3) + u16(0) + str(std::to_string(t)); break;
    case 4: tok = u8(5) + u16(0) + str(u32(t)); break;
    case 5: tok = u8(4) + u16(0) + u32(t) + Bytes(12, '\0'); break;
    case 6: tok = u8(1) + u8(0) + u16(t); break;
    }
    // for the model the token names a session only as numeric id of namespace 0
    s.send(c, secured("MSG", c->chan, c->token, c->txSeq++, c->nextReq++, body(sv, tok, c->nextHandle++)));
    s.settle();
    if (!s.stop()) { s.request(c, Read, x[val]); s.settle(); }
    // all others keep what they have
    s.request(v, Read, v->session());
    s.settle();
    s.request(w, Read, w->session());
    s.settle();
    s.request(w, ActivateSession, w->session());
    s.settle();
    s.request(w, Read, w->session());
    s.settle();
    s.request(old, Read, closed);
    s.settle();
    s.probe(CAPACITY, 4);
    s.end();
}
// every bit of the namespace and the identifier of a token counts
static void tokenBits(mc::Run& r)
{
    static std::uint32_t const svc[] = {ActivateSession, Read, CloseSession};
    std::uint32_t const sv = svc[r.choose(3, "service")];
    int const whose = r.choose(2, "session");
    int const bit = r.choose(48, "bit");
    Server s(r);
    auto* v = s.client(4);
    auto* c = s.client(4);
    if (s.stop()) return;
    std::uint32_t const id = (whose ? v : c)->session() ^ (bit < 32 ? 1u << bit : 0);
    using namespace uaref;
    s.send(c, secured("MSG", c->chan, c->token, c->txSeq++, c->nextReq++, body(sv, u8(2) + u16(bit >= 32 ? 1u << (bit - 32) : 0) + u32(id), c->nextHandle++)));
    s.settle();
    for (auto* x : {v, c}) if (!s.stop() && !x->p->sutClosed) { s.request(x, Read, x->session()); s.settle(); }
    s.probe(4, 4);
    s.end();
}
// sessions of one channel: all sequences of session services on up to two sessions
static void sessionLife(mc::Run& r)
{
    int const depth = g_full ? 6 : 5;
    Server s(r);
    auto* v = s.client(4);
    auto* c = s.client(2);
    std::vector<std::uint32_t> known;
    for (int i = 0; i < depth && !s.stop(); ++i)
    {
        int n = 1 + known.size() * 4;
        int k = r.choose(n, "service");
        if (k == 0)
        {
            if (known.size() >= 2) break;
            auto before = c->sessions;
            s.request(c, CreateSession);
            s.settle();
            if (c->sessions.size() > before.size()) known.push_back(c->session());
        }
        else
        {
            static std::uint32_t const svc[] = {ActivateSession, Read, CloseSession, CloseSession};
            int const o = (k - 1) % 4;
            if (o >= 2 && (c->nextHandle & 1) != (o == 3)) c->nextHandle++;        // with and without deleteSubscriptions
            s.request(c, svc[o], known[(k - 1) / 4]);
            s.settle();
        }
    }
    for (auto t : known) if (!s.stop()) { s.request(c, Read, t); s.settle(); }
    if (!s.stop()) { s.request(v, Read, v->session()); s.settle(); }
    s.probe(4, 4);
    s.end();
}
// more sessions than fit
static void manySessions(mc::Run& r)
{
    int const per = 1 + r.choose(3, "sessions per client");
    int const end = r.choose(5, "end");
    int const n = 30 + r.choose(6, "sessions");
    Server s(r);
    std::vector<Client*> v;
    for (int i = 0; i < n && !s.stop(); ++i)
    {
        if (i % per == 0) { if (v.size() == CAPACITY) break; v.push_back(s.client(2)); }
        if (s.stop()) return;
        s.request(v.back(), CreateSession);
        s.settle();
    }
    for (auto* c : v)
    {
        if (s.stop()) return;
        for (auto t : std::vector<std::uint32_t>(c->sessions)) { s.request(c, ActivateSession, t); s.settle(); if (!s.stop()) { s.request(c, Read, t); s.settle(); } }
    }
    for (auto* c : v)
    {
        if (s.stop()) return;
        switch (end)
        {
        case 0: for (auto t : std::vector<std::uint32_t>(c->sessions)) { s.request(c, CloseSession, t); s.settle(); } s.fin(c); break;
        case 1: s.fin(c); break;
        case 2: s.rst(c); break;
        case 3: s.sendClo(c); break;
        case 4: s.send(c, secured("MSG", c->chan, c->token + 1, c->txSeq, 1, body(GetEndpoints, sessionToken(0), 1))); break;
        }
        s.settle();
    }
    s.probe(CAPACITY, 4);
    s.end();
}

// ---- C19: slots --------------------------------------------------------------------------------------------------------------
// ways in which a connection can end
static int const WAYS = 16;
static void endBy(Server& s, Client* c, int way)
{
    auto msg = [&](char const* ty, std::uint32_t ch, std::uint32_t tok, std::uint32_t seq, Bytes const& b) { s.send(c, secured(ty, ch, tok, seq, c->nextReq++, b)); };
    Bytes const ge = body(GetEndpoints, sessionToken(0), 1);
    switch (way)
    {
    case 0: s.fin(c); break;
    case 1: s.rst(c); break;
    case 2: if (c->open) s.sendClo(c); else s.fin(c); break;
    case 3: if (c->open) { s.sendClo(c); s.fin(c); } else s.rst(c); break;
    case 4: if (c->open) msg("MSG", c->chan, c->token + 1, c->txSeq++, ge); else s.send(c, chunk("MSG", uaref::u32(1))); break;
    case 5: if (c->open) msg("MSG", c->chan, c->token, c->txSeq + 1, ge); else s.send(c, "HELX" + uaref::u32(8)); break;
    case 6: if (c->open) msg("MSG", c->chan + 1, c->token, c->txSeq++, ge); else s.send(c, chunk("HEL", "abc")); break;
    case 7: if (c->open) msg("CLO", c->chan, c->token + 1, c->txSeq++, body(CloseChannel, sessionToken(0), 1)); else s.send(c, chunk("OPN", uaref::u32(0) + "abc")); break;
    case 8: if (c->open) { msg("MSG", c->chan, c->token, c->txSeq++, ge); s.fin(c); } else { if (c->helloOk) s.sendOpen(c); else s.sendHello(c); s.fin(c); } break;
    case 9: if (c->open) { msg("MSG", c->chan, c->token, c->txSeq++, ge); s.rst(c); } else { if (c->helloOk) s.sendOpen(c); else s.sendHello(c); s.rst(c); } break;
    case 10: if (c->helloOk && !c->vague) { s.sendOpen(c); s.settle(); } s.fin(c); break;             // a second channel
    case 11: if (c->helloOk) s.send(c, chunk("OPN", uaref::u32(0) + uaref::str("x") + uaref::u32(0x7fffffff))); else s.send(c, hello() + chunk("OPN", uaref::u32(0) + uaref::u32(0x7fffffff))); s.settle(); s.fin(c); break;
    case 12: s.send(c, Bytes("\x00\x01", 2)); s.settle(); s.fin(c); break;
    case 13: if (c->helloOk) { s.sendOpen(c); s.env.settle(); s.fin(c); } else { s.send(c, hello().substr(0, 9)); s.rst(c); } break;
    case 14: if (c->open) { s.sendClo(c); s.env.settle(); s.rst(c); } else s.fin(c); break;
    case 15: s.send(c, "CLOF" + uaref::u32(8)); break;
    }
}
// the same end 40 times, then everything must still be there
static void cycles(mc::Run& r)
{
    int const stage = r.choose(5, "stage");
    int const way = r.choose(WAYS, "end");
    int const other = r.choose(WAYS, "every second end");
    Server s(r);
    auto* v = s.client(4);
    for (int i = 0; i < 40 && !s.stop(); ++i)
    {
        auto* c = s.client(stage);
        if (s.stop()) return;
        endBy(s, c, i & 1 ? other : way);
        s.settle();
        if (!s.stop() && !c->p->sutClosed && !c->peerGone) { s.fin(c); s.settle(); }
    }
    if (s.stop()) return;
    s.request(v, Read, v->session());
    s.settle();
    s.probe(CAPACITY, 4);
    s.end();
}
// full house: ends and new connections at the same time, in all orders of the events reported together
static void fullHouse(mc::Run& r)
{
    int const way = r.choose(WAYS, "end");
    int const st = r.choose(4, "stage") + 1;
    int const early = r.choose(3, "what the next client sends at once");
    Server s(r);
    for (int i = 0; i < (int)CAPACITY - 1 && !s.stop(); ++i) s.client(2);
    auto* c = s.client(st);
    if (s.stop()) return;
    s.backlogOk = true;
    s.env.spinOk = true;
    s.env.maxWaits = 400;
    auto* n = s.dial();
    if (!n) return;
    if (early) s.sendHello(n);
    s.env.settle();
    // from here on the order of events reported together is explored
    int left = 4;
    s.env.k.onBatch = [&](sim::EpollFile&, std::vector<epoll_event>& ev) {
        if (ev.size() < 2 || left <= 0 || s.stop()) return;
        --left;
        int k = r.choose(ev.size() == 2 ? 2 : 3, "order");
        if (k == 1) std::rotate(ev.begin(), ev.begin() + 1, ev.end());
        else if (k == 2) std::reverse(ev.begin(), ev.end());
    };
    endBy(s, c, way);
    s.settle();
    left = 0;
    if (s.stop()) return;
    if (!c->p->sutClosed && !c->peerGone) { s.fin(c); s.settle(); }
    s.backlogOk = false;
    s.settle();
    if (s.stop()) return;
    if (early == 0) s.next(n, 1);
    for (int i = 2; i <= 4 && !s.stop(); ++i) s.next(n, i);
    if (!s.stop()) { s.request(n, Read, n->session()); s.settle(); }
    s.probe(CAPACITY, 3);
    s.end();
}
// all channels are in use; one ends while other clients renew theirs: nobody may get or lose what belongs to another
static void renewAtFull(mc::Run& r)
{
    static int const ways[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 14, 15};       // those without a new channel
    int const way = ways[r.choose(14, "end")];
    int const who = r.choose(3, "who renews");
    int const first = r.choose(2, "who is first");
    int const pace = r.choose(2, "pace");
    int const renewals = 1 + r.choose(2, "renewals");
    Server s(r);
    std::vector<Client*> v;
    for (int i = 0; i < (int)CAPACITY && !s.stop(); ++i) v.push_back(s.client(i % 4 == 0 ? 4 : 2));
    if (s.stop()) return;
    auto* c = v[16];
    auto* b = v[who == 0 ? 0 : who == 1 ? 17 : 31];
    s.pace(pace);
    int left = 5;
    s.env.k.onBatch = [&](sim::EpollFile&, std::vector<epoll_event>& ev) {
        if (ev.size() < 2 || left <= 0 || s.stop()) return;
        --left;
        int k = r.choose(2, "order");
        if (k == 1) std::rotate(ev.begin(), ev.begin() + 1, ev.end());
    };
    // a renewal is refused or not, depending on whether there is room by then
    auto renew = [&] { b->mayClose = true; for (int i = 0; i < renewals; ++i) s.send(b, opn(b->txSeq++, b->nextReq++, b->nextHandle++)); };
    s.backlogOk = true;
    if (first == 0) renew();
    endBy(s, c, way);
    if (first == 1) renew();
    s.quiesce();
    left = 0;
    if (s.stop()) return;
    if (!c->p->sutClosed && !c->peerGone) { s.fin(c); s.quiesce(); }
    // whatever became of it: a response tells which channel is valid now
    s.drain(b);
    if (s.stop()) return;
    if (b->opnDue) { b->opnDue = 0; b->vague = true; }
    s.check();
    if (s.stop()) return;
    s.backlogOk = false;
    for (auto* x : v)
        if (x != b && x != c && !s.stop()) { s.request(x, GetEndpoints); s.settle(); }
    if (!b->p->sutClosed && b->open && !b->vague && !s.stop()) { b->mayClose = false; s.request(b, GetEndpoints); s.settle(); s.request(b, CreateSession); s.settle(); }
    s.fin(b);
    s.settle();
    s.probe(CAPACITY, 4);
    s.end();
}
// a failing call at any point of accepting or talking to a client
static void faults(mc::Run& r)
{
    int const at = r.choose(24, "failing call");
    static int const errs[] = {EMFILE, ECONNABORTED, ENOMEM};
    int const err = errs[r.choose(3, "error")];
    int const twice = r.choose(2, "number of failures");
    Server s(r);
    auto* v = s.client(4);
    if (s.stop()) return;
    int n = 0;
    bool hit = false;
    s.faulty = true;
    s.env.k.fault = [&](char const* call, int) -> int {
        if (!std::strcmp(call, "epoll_wait") || !std::strcmp(call, "close") || !std::strcmp(call, "eventfd_write") || !std::strcmp(call, "read_event") || !std::strcmp(call, "clock_gettime") || !std::strcmp(call, "timerfd_settime")) return 0;    // the last two can not fail
        if (n++ == at || (twice && n == at + 4)) { hit = true; r.note(std::string("fails: ") + call); return err; }
        return 0;
    };
    auto* c = s.dial();
    if (!c) return;
    c->vague = c->mayClose = true;
    s.backlogOk = true;
    s.env.settle();
    c->vague = false;
    s.send(c, hello());
    c->vague = true;
    s.env.settle();
    s.env.k.fault = nullptr;
    s.quiesce();
    if (s.stop()) return;
    if (!hit) { r.outcome(1); }
    // whoever was affected leaves; a healthy server has everything back
    v->vague = v->mayClose = true;
    s.fin(c);
    s.fin(v);
    s.quiesce();
    s.pass(31 * SEC);
    s.backlogOk = false;
    if (s.stop()) return;
    s.faulty = false;
    if (s.env.k.listeners().size() != 1) { s.rule(C19, "the listener is lost"); return; }
    s.probe(CAPACITY, 4);
    s.end();
}
// a client that does not read: the kernel accepts only so many bytes of the responses
static void stuckReader(mc::Run& r)
{
    static int const lim[] = {0, 1, 8, 27, 28, 29, 60, 100, 130, 160, 200, 300, 400};
    int const l = lim[r.choose(13, "bytes accepted")];
    int const stage = r.choose(3, "limit set at stage");
    int const pace = r.choose(2, "pace");
    Server s(r);
    s.pace(pace);
    auto* v = s.client(4);
    auto* c = s.client(stage);
    if (s.stop()) return;
    c->p->limitTx(l);
    c->mayClose = true;
    Bytes b;
    if (stage == 0) b += hello();
    if (stage <= 1) b += opn(c->txSeq++, c->nextReq++, c->nextHandle++);
    if (stage == 2) b += s.make(c, GetEndpoints) + s.make(c, CreateSession) + s.make(c, GetEndpoints);
    s.faulty = true;
    if (stage == 0) { s.send(c, b.substr(0, hello().size())); s.send(c, b.substr(hello().size())); } else s.send(c, b);
    s.settle();
    if (s.stop()) return;
    if (!c->p->sutClosed)
    {
        // a response that can not be delivered must not just disappear
        bool open = c->acksDue || c->opnDue || c->rd != c->p->got.size();
        for (auto& p : c->pend) open |= p.second.want == must;
        if (open) { s.rule(C19 | C17 | C15, "a response is lost, or cut off, on a connection that stays open"); return; }
    }
    c->vague = true;
    s.request(v, Read, v->session());
    s.settle();
    s.fin(c);
    s.settle();
    s.faulty = false;
    s.probe(CAPACITY, 3);
    s.end();
}
// connecting clients beyond the capacity are served when others leave
static void beyond(mc::Run& r)
{
    int const extra = 1 + r.choose(3, "clients too many");
    int const way = r.choose(4, "end of others");
    int const first = r.choose(3, "who leaves");
    Server s(r);
    std::vector<Client*> v;
    for (int i = 0; i < (int)CAPACITY && !s.stop(); ++i) v.push_back(s.client(i % 3 + 1));
    s.backlogOk = true;
    s.env.spinOk = true;
    s.env.maxWaits = 400;
    std::vector<Client*> w;
    for (int i = 0; i < extra && !s.stop(); ++i) { w.push_back(s.dial()); s.settle(); }
    for (int i = 0; i < extra && !s.stop(); ++i)
    {
        auto* c = v[first == 0 ? i : first == 1 ? 31 - i : 10 + 3 * i];
        static int const ways[] = {0, 1, 4, 8};
        endBy(s, c, ways[way]);
        s.settle();
        if (!s.stop() && !c->p->sutClosed && !c->peerGone) { s.fin(c); s.settle(); }
    }
    s.backlogOk = false;
    s.settle();
    for (auto* c : w) for (int i = 1; i <= 4 && !s.stop(); ++i) s.next(c, i);
    s.end();
}

// long lives: many requests, sessions and channels of the same clients
static void longRun(mc::Run& r)
{
    int const n = g_full ? 40000 : 900;
    int const mix = r.choose(5, "mix");
    int const others = r.choose(3, "other clients");
    int const pace = r.choose(2, "pace");
    Server s(r);
    s.env.maxWaits = 100000000;
    s.pace(pace);
    std::vector<Client*> v;
    static int const cnt[] = {1, 3, 31};
    for (int i = 0; i < cnt[others] && !s.stop(); ++i)
    {
        auto* c = s.dial();
        if (!c) return;
        s.settle();
        if (mix == 1) { c->nextReq = 0xffffff00u; c->nextHandle = 0xffffff80u; }
        for (int k = 1; k <= 4 && !s.stop(); ++k) s.next(c, k);
        v.push_back(c);
    }
    for (int k = 0; k < n && !s.stop(); ++k)
    {
        auto* c = v[k % v.size()];
        int const t = k / v.size();
        switch (mix)
        {
        case 0: s.request(c, t % 3 ? Read : GetEndpoints, c->session()); break;
        case 1: s.request(c, t % 2 ? Read : ActivateSession, c->session()); break;
        case 2:         // sessions
            if (t % 4 == 0) s.request(c, CloseSession, c->session());
            else if (t % 4 == 1) s.request(c, CreateSession);
            else if (t % 4 == 2) s.request(c, ActivateSession, c->session());
            else s.request(c, Read, c->session());
            break;
        case 3:         // channels
            if (t % 5 == 0) s.sendOpen(c);
            else if (t % 5 == 1) s.request(c, CreateSession);
            else if (t % 5 == 2) s.request(c, ActivateSession, c->session());
            else s.request(c, Read, c->session());
            break;
        case 4:         // several at once
        {
            Bytes b = s.make(c, GetEndpoints);
            for (int i = 0; i < t % 4; ++i) b += s.make(c, Read, c->session());
            s.send(c, b.substr(0, b.size() - t % 9));
            if (t % 9) { s.settle(); s.send(c, b.substr(b.size() - t % 9)); }
            break;
        }
        }
        s.settle();
        if (k % 97 == 50 && !s.stop()) s.pass((std::int64_t)(others == 2 ? 1 : 9) * SEC);
    }
    if (s.stop()) return;
    for (auto* c : v) if (!s.stop()) { s.request(c, GetEndpoints); s.settle(); }
    s.probe(CAPACITY, 4);
    s.end();
}

int main(int argc, char** argv)
{
    return mc::main(argc, argv, [](std::string const& prop, bool th) {
        g_full = th;
        g_prop = prop;
        std::vector<mc::Scenario> v;
        auto on = [&](char const* ps, char const* name, char const* bound, void (*f)(mc::Run&)) { if (std::strstr(ps, prop.c_str())) v.push_back({name, bound, f}); };
        on("C15", "framing0", "Hello and open request cut at all pairs of positions, with and without a close behind", framing0);
        on("C15", "framing1", "three requests cut at all first positions and near all boundaries (thorough: all pairs)", framing1);
        on("C15", "framing2", "activate, read, close session, close channel, cut the same way", framing2);
        on("C15", "framing3", "long messages, cut at 200 positions and near all boundaries, beside another client's partial message", framing3);
        on("C15", "pieces", "a whole conversation in pieces of 1-40 bytes", pieces);
        on("C15 C17", "lengths", "requests of every 7th (thorough: every) length up to 3900 bytes, alone and with others", lengths);
        on("C14 C15", "longMessages", "messages of 4-65 KB", longMessages);
        on("C14", "limitLengths", "6 messages of every length from 3860 to 4159 bytes, in one piece or two", limitLengths);
        on("C14 C15", "headers", "every value of every header field at each stage", headers);
        on("C14 C15", "noHello", "all sequences of 3 (thorough 4) of 14 messages of a new client, at once or one by one", noHello);
        on("C14 C15", "hellos", "valid Hellos: 9 urls x all field values, 4 segmentations", hellos);
        on("C17", "shapes", "all services x all forms of header or content fields", shapes);
        on("C15 C19", "silence", "5 stages x 4 partial messages x 4 moments", silence);
        on("C14", "malformed", "8 messages: every truncation, every byte x 16 (thorough 256) values, every position x 9 lengths, extensions", malformed);
        on("C14 C17", "flood", "up to 200 messages at once beside another client", flood);
        on("C16", "refusedMessages", "6 messages x 41 wrong combinations of channel, token, sequence number", refusedMessages);
        on("C16", "refusedBits", "4 messages x every bit of channel, token, sequence number", refusedBits);
        on("C16 C17", "sequenceStart", "13 first sequence numbers x 7 request ids x 7 handles", sequenceStart);
        on("C16 C17 C18", "sameIds", "request ids and handles repeated, descending, alternating, far apart, with and without another client using the same", sameIds);
        on("C16 C17 C18 C19", "seq2", "all pairs of 20 operations by two clients from all 25 pairs of stages", seq2);
        on("C16 C17 C18 C19", "seq3", "all sequences of 3 operations from activated sessions (thorough: from 9 pairs of stages)", seq3);
        if (th) on("C16 C18 C19", "seq4", "all sequences of 4 operations from activated sessions", seq4);
        on("C17 C18", "together", "all 3 (thorough 4) requests of 7 kinds sent at once, 3 arrival orders, beside another client", together);
        on("C17", "serviceIds", "all 65536 type ids and 1024 larger ones in 4 forms", serviceIds);
        on("C17", "manyClients", "up to 32 clients with a request each at once", manyClients);
        on("C18", "tokens", "12 tokens x 7 forms x 3 services x 3 stages", tokens);
        on("C18", "tokenBits", "3 services x own or another's session x every bit of namespace and identifier", tokenBits);
        on("C18", "sessionLife", "all sequences of 5 (thorough 6) session services on two sessions", sessionLife);
        on("C18 C19", "manySessions", "30-35 sessions, 1-3 per client, 5 ways to end", manySessions);
        on("C19 C16", "cycles", "40 connections ending in all pairs of 16 ways at 5 stages", cycles);
        on("C19 C16 C17", "fullHouse", "32 connections, one ends in 16 ways while another waits, all orders of up to 4 event batches", fullHouse);
        on("C16 C17 C19", "renewAtFull", "32 channels in use, one ends in 14 ways while another is renewed once or twice, all orders of up to 5 event batches", renewAtFull);
        on("C19", "faults", "one or two failing calls at every position of an accept and handshake, 3 errors", faults);
        on("C19 C14 C15 C17", "stuckReader", "responses cut off by a full send buffer at 13 positions", stuckReader);
        on("C15 C16 C17 C18 C19", "longRun", "900 (thorough 40000) requests of 1, 3 or 31 clients in one life: reading, sessions, channels, pipelines", longRun);
        on("C19", "beyond", "33-35 clients", beyond);
        return v;
    });
}
