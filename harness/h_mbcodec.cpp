// C12: the Modbus frame codec (real ModbusCodec, PduBuffer) over enumerated field values and frames, against an
// independent reference codec.
#include "mbus.hpp"
#include "ModbusCodec.hpp"

using namespace app;
using namespace app::modbus;
using mbref::Req;
using mbref::Rsp;

static ModbusFunction fn(unsigned f) { return static_cast<ModbusFunction>(f); }

struct Quiet { Quiet() { setLogs(false); } } static quiet;

static std::string out(PduBuffer& b) { return std::string((char const*)b.begin(), b.size()); }

// a buffer with leftovers of an earlier, longer frame
static void dirty(PduBuffer& b, int how)
{
    if (how == 0) { std::memset(b.begin(), 0, 512); b.reset(); return; }
    for (int i = 0; i < 512; ++i) b.begin()[i] = how == 1 ? 0xff : (unsigned char)(i * 29 + 7);
    b.reset();
    if (how == 2) { b.seek(300); for (int i = 0; i < 20; ++i) b.read(); b.reset(); }
}
static void fill(PduBuffer& b, std::string const& f)
{
    std::memcpy(b.end(), f.data(), f.size());
    b.seek(f.size());
}

static std::string show(Req const& q) { return "tid=" + std::to_string(q.tid) + " unit=" + std::to_string(q.unit) + " func=" + std::to_string(q.func) + " start=" + std::to_string(q.start) + " num=" + std::to_string(q.num) + " bytes=" + std::to_string(q.data.size()); }

// reference decoder of a complete request frame: -1 refused, 0 either, 1 accepted
static int refDecode(std::string const& s, Req& q)
{
    auto b = [&](std::size_t i) -> unsigned { return (unsigned char)s[i]; };
    if (s.size() < 12 || b(2) || b(3)) return -1;
    unsigned len = b(4) << 8 | b(5);
    if (len + 6 != s.size()) return -1;
    q = Req{b(0) << 8 | b(1), b(6), b(7), b(8) << 8 | b(9), 0, ""};
    if (q.unit > 247) return -1;
    unsigned v = b(10) << 8 | b(11);
    switch (q.func)
    {
    case 1: case 2: if (len != 6 || v > 2008) return -1; q.num = v; return v && v <= 2000;
    case 3: case 4: if (len != 6 || v > 125) return -1; q.num = v; return v > 0;
    case 5: case 6: if (len != 6) return -1; q.data = mbref::swap16(s.substr(10, 2)); return q.func == 6 || v == 0 || v == 0xff00;
    case 0x10: if (s.size() < 13 || b(12) != v * 2 || len != 7 + b(12)) return -1; q.num = v; q.data = mbref::swap16(s.substr(13)); return v && v <= 123;
    }
    return -1;
}

static bool same(AduRequest const& a, Req const& q)
{
    return a.transactId == (q.tid & 0xffff) && a.addr == q.unit && (unsigned)a.func == q.func && a.startItem == q.start && a.numItems == q.num
        && a.numBytes == q.data.size() && !std::memcmp(a.data, q.data.data(), q.data.size());
}

static bool checkDecodeReq(mc::Run& r, std::string const& f, int how)
{
    r.step();
    PduBuffer b;
    dirty(b, how);
    fill(b, f);
    ModbusCodec c(b);
    std::vector<std::uint8_t> mem(260, 0x5a);
    AduRequest a(mem.data());
    a.numItems = 0x7777;
    a.numBytes = 0x33;
    a.startItem = 0x5555;
    bool ok = c.decode(a);
    Req q{};
    int want = refDecode(f, q);
    if (ok ? want < 0 : want > 0) { r.fail(std::string(ok ? "a malformed request frame is accepted: " : "a well-formed request frame is refused: ") + mc::hex(f)); return false; }
    if (ok && !same(a, q)) { r.fail("a request frame is decoded wrongly: " + mc::hex(f)); return false; }
    return true;
}
static bool checkDecodeRsp(mc::Run& r, std::string const& f, int how)
{
    r.step();
    PduBuffer b;
    dirty(b, how);
    fill(b, f);
    ModbusCodec c(b);
    AduRespond a;
    std::memset((void*)&a, 0x5a, sizeof a);
    a.numBytes = 0;
    bool ok = c.decode(a);
    auto d = mbref::decodeReply(f);
    // replies the client has no use for may be refused or not
    if (ok && !d) { r.fail("a malformed reply frame is accepted: " + mc::hex(f)); return false; }
    if (!ok && d) { r.fail("a well-formed reply frame is refused: " + mc::hex(f)); return false; }
    if (ok)
    {
        bool e = a.transactId == d->tid && a.addr == d->unit && (unsigned)a.func == d->func;
        if (d->func == 0x8f) e = e && (unsigned)a.error == d->exc;
        else e = e && a.numBytes == d->data.size() && !std::memcmp(a.data, d->data.data(), d->data.size());
        auto u = [&](std::size_t i) { return (unsigned)(unsigned char)f[i] << 8 | (unsigned char)f[i + 1]; };
        if (d->func == 5 || d->func == 6 || d->func == 0x10) e = e && a.startItem == u(8);
        if (d->func == 0x10) e = e && a.numItems == u(10);
        if (!e) { r.fail("a reply frame is decoded wrongly: " + mc::hex(f)); return false; }
    }
    return true;
}

static bool checkEncode(mc::Run& r, Req const& q, std::uint8_t* data)
{
    r.step();
    PduBuffer b;
    AduRequest a;
    a.clientId = 3;
    a.transactId = q.tid;
    a.func = fn(q.func);
    a.addr = q.unit;
    a.startItem = q.start;
    a.numItems = q.num;
    a.numBytes = q.data.size();
    a.data = data;
    bool ok = ModbusCodec(b).encode(a);
    auto w = mbref::encode(q);
    if (w && w->size() == 260) w = {};      // no register frame has this length
    if (ok != !!w) { r.fail(std::string(ok ? "an invalid request is encoded: " : "a valid request is refused: ") + show(q)); return false; }
    if (ok && out(b) != *w) { r.fail("a request is encoded wrongly: " + show(q) + " -> " + mc::hex(out(b))); return false; }
    if (ok)
    {
        // and back
        PduBuffer b2;
        dirty(b2, 2);
        fill(b2, out(b));
        std::vector<std::uint8_t> mem(260, 0xa5);
        AduRequest back(mem.data());
        bool ok2 = ModbusCodec(b2).decode(back);
        if (!ok2 || !same(back, Req{q.tid & 0xffff, q.unit, q.func, q.start, q.num, q.data})) { r.fail("a request does not survive encoding and decoding: " + show(q)); return false; }
    }
    return true;
}
static bool enc(mc::Run& r, Req const& q)
{
    std::vector<std::uint8_t> d(q.data.begin(), q.data.end());
    if (d.empty()) return checkEncode(r, q, nullptr);
    return checkEncode(r, q, d.data());
}

static void dflt(Req& q)
{
    q.num = q.func == 5 || q.func == 6 ? 0 : 2;
    q.data = q.func == 5 ? std::string("\0\xff", 2) : q.func == 6 ? "\xa1\xb2" : q.func == 0x10 ? "wxyz" : "";
}
static std::string pattern(std::size_t n, unsigned seed = 3) { std::string s; for (std::size_t i = 0; i < n; ++i) s += (char)(i * 7 + seed); return s; }

static bool g_full;
static bool supported(unsigned f) { return (f >= 1 && f <= 6) || f == 0x10 || f == 0x8f; }
// values of a 16-bit field: all for the supported functions, boundary values for the others (thorough: all for all)
static std::vector<unsigned> const& values(unsigned func)
{
    static std::vector<unsigned> all, some;
    if (all.empty())
    {
        for (unsigned i = 0; i < 65536; ++i) all.push_back(i);
        for (unsigned i = 0; i < 65536; i += i < 270 ? 1 : i < 2100 ? 61 : 4093) some.push_back(i);
        for (unsigned b = 8; b < 16; ++b) for (int d : {-1, 0, 1}) some.push_back((1u << b) + d);
        some.push_back(65535);
    }
    return g_full || supported(func) ? all : some;
}

static void encodeFields(mc::Run& r)
{
    unsigned func = r.choose(256, "func");
    Req q{0x1234, 7, func, 0x0102, 0, ""};
    dflt(q);
    switch (r.choose(4, "field"))
    {
    case 0: for (unsigned v : values(func)) { q.unit = v; if (!enc(r, q)) return; } break;
    case 1: for (unsigned v : values(func)) { q.start = v; if (!enc(r, q)) return; } break;
    case 2: for (unsigned v : values(func)) { q.tid = v; if (!enc(r, q)) return; } break;
    case 3: for (unsigned v : values(func)) { q.num = v; if (!enc(r, q)) return; } break;
    }
    r.state(func);
}
static void encodeData(mc::Run& r)
{
    static unsigned const funcs[] = {5, 6, 0x10};
    unsigned func = funcs[r.choose(3, "func")];
    Req q{0x1234, 7, func, 0x0102, 0, ""};
    dflt(q);
    if (func != 0x10)
    {
        int nb = r.choose(5, "bytes");
        unsigned num = r.choose(3, "count");
        q.num = num;
        if (nb != 2) { q.data = pattern(nb); enc(r, q); return; }
        for (unsigned v = 0; v < 65536; ++v) { q.data = std::string{(char)v, (char)(v >> 8)}; if (!enc(r, q)) return; }
        return;
    }
    int off = r.choose(5, "bytes") - 2;
    int lo = r.choose(64, "count") * 64;
    for (int n = lo; n < lo + 64; ++n)
    {
        q.num = n;
        int nb = std::max(0, n * 2 + off);
        q.data = pattern(nb, n);
        if (!enc(r, q)) return;
    }
    // the largest counts
    if (!lo) for (unsigned n : {32767u, 32768u, 32769u, 65535u}) { q.num = n; q.data = pattern((n * 2 + off) & 0xffff); if (!enc(r, q)) return; }
    r.state(lo);
}
static void encodeReplies(mc::Run& r)
{
    unsigned func = r.choose(256, "func");
    int vary = r.choose(5, "field");
    auto one = [&](unsigned tid, unsigned unit, unsigned start, unsigned num, unsigned nb, unsigned err) {
        r.step();
        auto a = std::make_unique<AduRespond>();
        std::memset((void*)a.get(), 0, sizeof *a);
        a->transactId = tid;
        a->func = fn(func);
        a->addr = unit;
        a->error = static_cast<ModbusError>(err);
        a->startItem = start;
        a->numItems = num;
        a->numBytes = nb;
        std::string d = pattern(std::min(nb, 260u), tid);
        if (func == 5) d = std::string("\0\xff\0\0\0\0", 6).substr(0, std::min(nb, 6u));
        std::memcpy(a->data, d.data(), d.size());
        PduBuffer b;
        bool ok = ModbusCodec(b).encode(*a);
        Req q{tid, unit, func, start, num, ""};
        std::optional<std::string> w;
        bool may = false;
        if (func == 0x8f) w = mbref::exception(q, err <= 8 || err == 10 || err == 11 ? err : 255);
        else if (func == 3 || func == 4) { if (nb % 2 == 0 && nb <= 250) w = mbref::reply(q, d); }
        else if (func == 5 || func == 6) { if (nb == 2) w = mbref::reply(q, d); }
        else if (func == 0x10) w = mbref::reply(q, "");
        else if (func == 1 || func == 2) { may = true; if (nb <= 250) w = mbref::reply(q, d); }     // not supported yet
        if (ok && !w) { r.fail("an invalid response is encoded, func " + std::to_string(func) + " bytes " + std::to_string(nb)); return false; }
        if (!ok && w && !may) { r.fail("a valid response is refused, func " + std::to_string(func) + " bytes " + std::to_string(nb)); return false; }
        if (ok && out(b) != *w) { r.fail("a response is encoded wrongly, func " + std::to_string(func) + ": " + mc::hex(out(b)) + " instead of " + mc::hex(*w)); return false; }
        if (ok && out(b).size() < 260 && !may) return checkDecodeRsp(r, out(b), 2);
        return true;
    };
    unsigned nb = func == 5 || func == 6 ? 2 : 4;
    switch (vary)
    {
    case 0: for (unsigned v : values(func)) if (!one(v, 9, 0x0203, 2, nb, 2)) return; break;
    case 1: for (unsigned v = 0; v < 256; ++v) for (unsigned e : {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 255}) if (!one(0x1234, v, 0x0203, 2, nb, e)) return; break;
    case 2: for (unsigned v : values(func)) if (!one(0x1234, 9, v, 2, nb, 2)) return; break;
    case 3: for (unsigned v : values(func)) if (!one(0x1234, 9, 0x0203, v, nb, 2)) return; break;
    case 4: for (unsigned v : values(func)) if (!one(0x1234, 9, 0x0203, 2, v, 2)) return; break;
    }
    r.state(func);
}
// requests: all functions x all counts; base frames with every byte set to every value, and every pair of header bytes
static void decodeCounts(mc::Run& r)
{
    unsigned func = r.choose(256, "func");
    int how = r.choose(3, "leftovers");
    for (unsigned v : values(func))
        if (!checkDecodeReq(r, mbref::frame(0x4321, 17, std::string(1, (char)func) + be16(0x0a0b) + be16(v)), how)) return;
    r.state(func);
}
static std::vector<std::string> bases()
{
    std::vector<std::string> v;
    for (unsigned f : {1, 2, 3, 4, 5, 6, 0x10}) { Req q{0x0102, 5, f, 0x0304, 0, ""}; dflt(q); v.push_back(*mbref::encode(q)); }
    for (unsigned n : {1u, 64u, 123u}) v.push_back(*mbref::encode(Req{0x0102, 5, 0x10, 0x0304, n, pattern(n * 2)}));
    return v;
}
static std::vector<std::string> replyBases()
{
    std::vector<std::string> v;
    for (unsigned f : {3, 4, 5, 6, 0x10}) { Req q{0x0102, 5, f, 0x0304, 0, ""}; dflt(q); v.push_back(mbref::reply(q, f < 5 ? "wxyz" : f == 0x10 ? "" : q.data)); }
    v.push_back(mbref::exception(Req{0x0102, 5, 3, 0, 0, ""}, 2));
    for (unsigned n : {1u, 64u, 125u}) v.push_back(mbref::reply(Req{0x0102, 5, 3, 0x0304, n, ""}, pattern(n * 2)));
    return v;
}
static void corrupt(mc::Run& r, bool reply, bool pairs)
{
    auto v = reply ? replyBases() : bases();
    std::string f = v[r.choose(v.size(), "frame")];
    int how = r.choose(3, "leftovers");
    int i = r.choose(f.size(), "byte");
    auto chk = [&](std::string const& g) { return reply ? checkDecodeRsp(r, g, how) : checkDecodeReq(r, g, how); };
    if (!pairs)
    {
        for (int x = 0; x < 256; ++x)
        {
            std::string g = f;
            g[i] = (char)x;
            if (!chk(g)) return;
            // with the frame cut or extended so that the length field fits again
            unsigned len = (unsigned)(unsigned char)g[4] << 8 | (unsigned char)g[5];
            if (len + 6 != g.size() && len + 6 >= 8 && len + 6 < 260) { std::string h = g; h.resize(len + 6, 'z'); if (!chk(h)) return; }
        }
        return;
    }
    if (i < 4 || i > 12) return;
    int const last = std::min<int>(f.size(), 13);
    for (int j = i + 1; j < last; ++j)
        for (int x = 0; x < 256; ++x)
            for (int y = 0; y < 256; ++y)
            {
                std::string g = f;
                g[i] = (char)x;
                g[j] = (char)y;
                if (!chk(g)) return;
            }
    r.state(i);
}
// every frame length with a consistent header
static void lengths(mc::Run& r)
{
    int how = r.choose(3, "leftovers");
    bool reply = r.choose(2, "reply");
    unsigned func = r.choose(256, "func");
    for (unsigned n = 1; n < 254; ++n)      // bytes behind the length field
    {
        std::string pdu = std::string(1, (char)func) + pattern(n, 9);
        for (unsigned cnt : {n, n - 2, (n - 6) / 2, 3u})
        {
            std::string p = pdu;
            if (p.size() > 1) p[1] = (char)cnt;
            p.resize(n - 1);
            std::string f = mbref::frame(0x7788, 9, p);
            if (!(reply ? checkDecodeRsp(r, f, how) : checkDecodeReq(r, f, how))) return;
            if (p.size() > 5) { p[3] = 0; p[4] = (char)cnt; p[5] = (char)(cnt * 2); }
            f = mbref::frame(0x7788, 9, p);
            if (!(reply ? checkDecodeRsp(r, f, how) : checkDecodeReq(r, f, how))) return;
        }
    }
    r.state(func);
}
// reassembly predicates
static void predicates(mc::Run& r)
{
    int hi = r.choose(256, "length high byte");
    for (int lo = 0; lo < 256; ++lo)
        for (unsigned size = 0; size <= 512; size += hi < 3 || g_full ? 1 : 37)
        {
            r.step();
            PduBuffer b;
            dirty(b, 0);
            b.begin()[4] = hi;
            b.begin()[5] = lo;
            b.seek(size);
            ModbusCodec c(b);
            unsigned len = hi << 8 | lo;
            if (c.isAduHdrReceived() != (size >= 6)) { r.fail("the header is recognised wrongly at size " + std::to_string(size)); return; }
            if (size < 6) continue;
            if (len + 6 != 260 && c.isAduDataLenValid() != (len + 6 < 260)) { r.fail("a frame length is judged wrongly: " + std::to_string(len)); return; }
            if (c.isAduReceived() != (size >= len + 6)) { r.fail("completeness of a frame is judged wrongly: " + std::to_string(size) + " of " + std::to_string(len + 6)); return; }
            if (size != 260 && c.isAduValid() != (size == len + 6 && size < 260)) { r.fail("validity of a frame is judged wrongly: " + std::to_string(size) + " of " + std::to_string(len + 6)); return; }
        }
    r.state(hi);
}

int main(int argc, char** argv)
{
    return mc::main(argc, argv, [](std::string const&, bool th) {
        g_full = th;
        std::vector<mc::Scenario> v;
        v.push_back({"encodeFields", "all 256 function codes x all 65536 values (of unsupported functions: 420 values, thorough all) of unit, start, transaction id, count", encodeFields});
        v.push_back({"encodeData", "single writes: all 65536 values, 0-4 bytes, counts 0-2; multiple writes: counts 0-4095 and largest x 5 byte counts", encodeData});
        v.push_back({"encodeReplies", "all 256 function codes x all 65536 (unsupported: 420, thorough all) transaction ids, starts, counts, byte counts, all units and errors; decoded back", encodeReplies});
        v.push_back({"decodeCounts", "all 256 function codes x all 65536 (unsupported: 420, thorough all) values of the count/value field x 3 buffer histories", decodeCounts});
        v.push_back({"corruptRequests", "10 request frames, every byte set to every value, length consistent or not, x 3 buffer histories", [](mc::Run& r) { corrupt(r, false, false); }});
        v.push_back({"corruptReplies", "9 reply frames likewise", [](mc::Run& r) { corrupt(r, true, false); }});
        v.push_back({"lengths", "all 256 functions x all lengths 7-259 x 8 contents x 3 buffer histories, requests and replies", lengths});
        v.push_back({"predicates", "all 65536 length fields x all 513 buffer sizes (lengths above 767: 14 sizes, thorough all)", predicates});
        if (th)
        {
            v.push_back({"pairRequests", "10 request frames, every pair of bytes 4-12 set to every pair of values", [](mc::Run& r) { corrupt(r, false, true); }});
            v.push_back({"pairReplies", "9 reply frames likewise", [](mc::Run& r) { corrupt(r, true, true); }});
        }
        return v;
    });
}
