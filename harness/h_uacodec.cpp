#include "uacodec.hpp"

static std::vector<TypeOps> const& types()
{
    static std::vector<TypeOps> v = [] {
        std::vector<TypeOps> v;
        uaTypes1(v);
        uaTypes2(v);
        uaTypes3(v);
        uaTypes4(v);
        uaTypes5(v);
        return v;
    }();
    return v;
}

static void values(mc::Run& r)
{
    auto& t = types()[r.choose(types().size(), "type")];
    int pre = r.choose(4, "position");
    int held = r.choose(3, "target held");
    for (int k = 0; k < t.n; ++k) if (!t.value(r, k, pre, held)) return;
}
static void malformed(mc::Run& r)
{
    auto& t = types()[r.choose(types().size(), "type")];
    int const most = g_full ? 400 : 12;
    int n = std::min(t.n, most);
    int i = r.choose(n, "value");
    int k = t.n <= most ? i : i < 8 ? i : (int)((long)i * t.n / most);
    t.bad(r, k, true);
}
// complete value ranges of the simple types
template <class T, class I> static bool range(mc::Run& r, char const* name, std::uint64_t lo, std::uint64_t hi)
{
    for (std::uint64_t v = lo; v < hi; ++v) { T t; t = (I)v; if (!checkValue<T>(r, name, t, 1, 2)) return false; }
    return true;
}
template <class T, class I> static bool bytePatterns(mc::Run& r, char const* name, int first, int second)
{
    static unsigned char const b5[] = {0, 1, 0x7f, 0x80, 0xff}, b3[] = {0, 0x7f, 0x80};
    int const n = sizeof(I) == 4 || g_full ? 5 : 3;
    unsigned char const* b = n == 5 ? b5 : b3;
    if (first >= n || second >= n) return true;
    std::vector<int> d(sizeof(I), 0);
    d[0] = first;
    d[1] = second;
    for (;;)
    {
        I v = 0;
        for (unsigned i = 0; i < sizeof(I); ++i) v |= (I)((std::uint64_t)b[d[i]] << 8 * i);
        if constexpr (std::is_same_v<T, Float> || std::is_same_v<T, Double>)
        {
            using F = std::conditional_t<sizeof(I) == 4, float, double>;
            F f;
            std::memcpy(&f, &v, sizeof f);
            T t;
            t = f;
            if (!checkValue<T>(r, name, t, 1, 2)) return false;
        }
        else { T t; t = v; if (!checkValue<T>(r, name, t, 1, 2)) return false; }
        unsigned i = 2;
        while (i < d.size() && ++d[i] == n) d[i++] = 0;
        if (i == d.size()) return true;
    }
}
static void ranges(mc::Run& r)
{
    int t = r.choose(12, "type"), p = r.choose(5, "part"), q = r.choose(5, "part");
    int pq = p * 5 + q;
    std::uint64_t lo = 65536ull * pq / 25, hi = 65536ull * (pq + 1) / 25;
    switch (t)
    {
    case 0: if (!pq) range<SByte, std::int8_t>(r, "SByte", 0, 256); break;
    case 1: if (!pq) range<Byte, std::uint8_t>(r, "Byte", 0, 256); break;
    case 2: range<Int16, std::int16_t>(r, "Int16", lo, hi); break;
    case 3: range<UInt16, std::uint16_t>(r, "UInt16", lo, hi); break;
    case 4: bytePatterns<Int32, std::int32_t>(r, "Int32", p, q); break;
    case 5: bytePatterns<UInt32, std::uint32_t>(r, "UInt32", p, q); break;
    case 6: bytePatterns<StatusCode, std::uint32_t>(r, "StatusCode", p, q); break;
    case 7: bytePatterns<Float, std::uint32_t>(r, "Float", p, q); break;
    case 8: bytePatterns<Int64, std::int64_t>(r, "Int64", p, q); break;
    case 9: bytePatterns<UInt64, std::uint64_t>(r, "UInt64", p, q); break;
    case 10: bytePatterns<DateTime, std::int64_t>(r, "DateTime", p, q); break;
    case 11: bytePatterns<Double, std::uint64_t>(r, "Double", p, q); break;
    }
}
// strings and arrays of every length up to and beyond the buffer
template <class S> static bool strLen(mc::Run& r, char const* name, int n)
{
    S s;
    s.val = longStr(n, n);
    return checkValue<S>(r, name, s, 0, n % 3) && checkValue<S>(r, name, s, 3, 0);
}
static void lengths(mc::Run& r)
{
    int t = r.choose(4, "type"), part = r.choose(42, "length");
    for (int n = part * 100; n < part * 100 + 100; ++n)
    {
        if (t == 0 && !strLen<String>(r, "String", n)) return;
        if (t == 1 && !strLen<ByteString>(r, "ByteString", n)) return;
        if (t == 2) { std::vector<Byte> v(n); for (int i = 0; i < n; ++i) v[i] = i * 5 + 1; if (!checkValue(r, "Byte[]", v, n % 4, n % 3)) return; }
        if (t == 3) { std::vector<UInt32> v(n); for (int i = 0; i < n; ++i) v[i] = i * 0x01030507 + 1; if (!checkValue(r, "UInt32[]", v, n % 4, n % 3)) return; }
    }
}
// encodings this server never produces but must understand: null and empty strings and arrays, longer node id forms
template <class T> static bool reads(mc::Run& r, char const* name, Bytes const& in, T const& want)
{
    r.step();
    OpcUaSduBuffer rx;
    load(rx, in + "\x42");
    OpcUaBinaryCodec c(rx);
    auto t = std::make_unique<T>(D<T>::get(1));
    if (refuses([&] { c >> *t; })) { r.fail(std::string("a valid encoding is refused: ") + name + " " + shorten(in)); return false; }
    if (!R<T>::eq(*t, want) || content(rx) != "\x42") { r.fail(std::string("a valid encoding is decoded wrongly: ") + name + " " + shorten(in)); return false; }
    return true;
}
static void otherForms(mc::Run& r)
{
    using namespace uaref;
    String e;
    ByteString eb;
    bool ok = reads(r, "String", u32(0), e) && reads(r, "String", nul(), e) && reads(r, "ByteString", u32(0), eb) && reads(r, "ByteString", nul(), eb);
    auto arr = [&]<class T>(std::vector<T> const& v, char const* n) { return reads(r, n, u32(0), v) && reads(r, n, nul(), v); };
    ok = ok && arr(std::vector<UInt32>{}, "UInt32[]") && arr(std::vector<String>{}, "String[]") && arr(std::vector<NodeId>{}, "NodeId[]") && arr(std::vector<DataValue>{}, "DataValue[]") && arr(std::vector<Byte>{}, "Byte[]");
    for (std::uint32_t id : {0u, 1u, 255u, 256u, 65535u})
    {
        NodeId n;
        UInt32 u;
        u = id;
        n.value.emplace<UInt32>() = u;
        ok = ok && reads(r, "NodeId", u8(2) + u16(0) + u32(id), n) && reads(r, "NodeId", u8(1) + u8(0) + u16(id), n) && (id > 255 || reads(r, "NodeId", u8(0) + u8(id), n));
        n.namespaceIndex = 3;
        ok = ok && reads(r, "NodeId", u8(2) + u16(3) + u32(id), n) && reads(r, "NodeId", u8(1) + u8(3) + u16(id), n);
        ExpandedNodeId x;
        x.nodeId = n;
        ok = ok && reads(r, "ExpandedNodeId", u8(2) + u16(3) + u32(id), x);
        x.serverIndex = u;
        ok = ok && reads(r, "ExpandedNodeId", u8(0x42) + u16(3) + u32(id) + u32(id), x);
        x.namespaceUri = "uri";
        ok = ok && reads(r, "ExpandedNodeId", u8(0xc1) + u8(3) + u16(id) + uaref::str("uri") + u32(id), x);
    }
    for (int b = 0; b < 256; ++b) { Boolean t; t = b != 0; ok = ok && reads(r, "Boolean", u8(b), t); }
    LocalizedText lt;
    ok = ok && reads(r, "LocalizedText", u8(0), lt) && reads(r, "LocalizedText", u8(3) + nul() + u32(0), lt);
    lt.text = "t";
    ok = ok && reads(r, "LocalizedText", u8(2) + uaref::str("t"), lt) && reads(r, "LocalizedText", u8(3) + nul() + uaref::str("t"), lt);
    ExtensionObject xo;
    ok = ok && reads(r, "ExtensionObject", nodeId(0, 0) + u8(0), xo) && reads(r, "ExtensionObject", nodeId(0, 0) + u8(1) + nul(), xo) && reads(r, "ExtensionObject", nodeId(0, 0) + u8(1) + u32(0), xo);
    xo.byteString = "<x/>";
    ok = ok && reads(r, "ExtensionObject", nodeId(0, 0) + u8(2) + uaref::str("<x/>"), xo);
    (void)ok;
}
// the type ids of the services
static void containers(mc::Run& r)
{
    auto one = [&]<class C>(C*, unsigned id) {
        r.step();
        C c;
        OpcUaSduBuffer b;
        OpcUaBinaryCodec s(b);
        UInt16 before;
        before = 0xabcd;
        s << before << c;
        Bytes want = uaref::u16(0xabcd) + uaref::u8(1) + uaref::u8(0) + uaref::u16(id) + R<decltype(c.msg)>::enc(c.msg);
        if (content(b) != want) { r.fail("a service message is encoded wrongly, type " + std::to_string(id) + ": " + shorten(content(b))); return false; }
        C d;
        d.msg = D<decltype(c.msg)>::get(1);
        s >> before >> d;
        if (!R<decltype(c.msg)>::eq(c.msg, d.msg) || b.begin() != b.end()) { r.fail("a service message is decoded wrongly, type " + std::to_string(id)); return false; }
        return true;
    };
    one((UaGetEndpointsReqCont*)0, 428) && one((UaGetEndpointsRspCont*)0, 431) && one((UaOpenSecureChannelReqCont*)0, 446) && one((UaOpenSecureChannelRspCont*)0, 449)
        && one((UaCloseSecureChannelReqCont*)0, 452) && one((UaCloseSecureChannelRspCont*)0, 455) && one((UaCreateSessionReqCont*)0, 461) && one((UaCreateSessionRspCont*)0, 464)
        && one((UaActivateSessionReqCont*)0, 467) && one((UaActivateSessionRspCont*)0, 470) && one((UaCloseSessionReqCont*)0, 473) && one((UaCloseSessionRspCont*)0, 476)
        && one((UaReadReqCont*)0, 631) && one((UaReadRspCont*)0, 634);
}
// sequences of three values in one buffer: every ordered pair of types
static void sequences(mc::Run& r)
{
    auto const& ts = types();
    auto const& a = ts[r.choose(ts.size(), "first")];
    for (auto const& b : ts)
    {
        r.step();
        OpcUaSduBuffer buf;
        OpcUaBinaryCodec c(buf);
        try
        {
            Bytes want = a.put(c, 1);
            want += b.put(c, 1);
            want += b.put(c, 0);
            if (content(buf) != want) { r.fail(std::string("values in sequence are encoded wrongly: ") + a.name + ", " + b.name); return; }
            if (!a.get(c, 1) || !b.get(c, 1) || !b.get(c, 0)) { r.fail(std::string("values in sequence are decoded wrongly: ") + a.name + ", " + b.name); return; }
            if (content(buf) != "") { r.fail(std::string("decoding leaves data behind: ") + a.name + ", " + b.name); return; }
        }
        catch (std::exception const& e) { r.fail(std::string("values in sequence are refused: ") + a.name + ", " + b.name + ": " + e.what()); return; }
    }
}
// C14: nested diagnostics and large declared lengths
static void hostile(mc::Run& r)
{
    using namespace uaref;
    int kind = r.choose(8, "kind");
    auto rejects = [&]<class T>(T*, Bytes const& s, char const* what) {
        r.step();
        OpcUaSduBuffer rx;
        pollute(rx);
        load(rx, s);
        OpcUaBinaryCodec c(rx);
        auto t = std::make_unique<T>();
        if (!refuses([&] { c >> *t; })) { r.fail(std::string("accepted: ") + what); return false; }
        return true;
    };
    switch (kind)
    {
    case 0: rejects((DiagnosticInfo*)0, Bytes(4096, '\x40'), "a diagnostic info nested without end"); break;
    case 1: for (int n = 0; n < 4096; ++n) if (!rejects((DiagnosticInfo*)0, Bytes(n, '\x40'), "a truncated nested diagnostic info")) return; break;
    case 2: for (std::uint32_t n : {5u, 100u, 65536u, 0x7fffffffu, 0x80000000u, 0xfffffffeu}) if (!rejects((String*)0, u32(n) + "abcd", "a string longer than its message") || !rejects((ByteString*)0, u32(n) + "abcd", "a byte string longer than its message")) return; break;
    case 3: for (std::uint32_t n : {5u, 100u, 65536u, 0x7fffffffu, 0x80000000u, 0xfffffffeu}) if (!rejects((std::vector<UInt32>*)0, u32(n) + Bytes(16, 'a'), "an array longer than its message") || !rejects((std::vector<DataValue>*)0, u32(n) + Bytes(4, '\0'), "an array longer than its message")) return; break;
    case 4: for (int e = 6; e < 16; ++e) if (!rejects((NodeId*)0, u8(e) + Bytes(40, '\0'), "a node id of unknown kind") || !rejects((ExpandedNodeId*)0, u8(e | 0xc0) + Bytes(40, '\0'), "an expanded node id of unknown kind")) return; break;
    case 5: for (int e = 0; e < 256; ++e) if ((e & 0x3f) > 25 && !rejects((Variant*)0, u8(e) + Bytes(64, '\0'), "a variant of unknown type")) return; break;
    case 6: for (int e = 3; e < 256; ++e) if (!rejects((ExtensionObject*)0, nodeId(0, 1) + u8(e) + Bytes(40, '\0'), "an extension object of unknown encoding")) return; break;
    case 7:     // the buffer itself
    {
        r.step();
        OpcUaSduBuffer b;
        OpcUaBinaryCodec c(b);
        if (!refuses([&] { c.read(); })) { r.fail("reading from an empty buffer"); return; }
        for (std::size_t i = 0; i < CAP; ++i) c.write(i);
        if (!refuses([&] { c.write(1); })) { r.fail("writing behind a full buffer"); return; }
        if (b.capacity() != 0 || b.end() - b.begin() != (long)CAP) { r.fail("size of a full buffer"); return; }
        for (std::size_t i = 0; i < CAP; ++i) if (c.read() != (unsigned char)i) { r.fail("content of a full buffer"); return; }
        if (!refuses([&] { c.read(); })) { r.fail("reading behind the data of a buffer"); return; }
        b.reset();
        if (b.begin() != b.end() || b.capacity() != CAP) { r.fail("a buffer is not empty after reset"); return; }
        for (int n : {0, 1, 8, 4095})
        {
            b.reset();
            b.seek(n);
            for (int i = 0; i < n; ++i) c.read();
            if (!refuses([&] { c.read(); })) { r.fail("reading behind the data of a buffer"); return; }
        }
        b.reset();
        b.seek(4000);
        if (!refuses([&] { b.seek(97); })) { r.fail("a buffer grows beyond its capacity"); return; }
        break;
    }
    }
}

int main(int argc, char** argv)
{
    return mc::main(argc, argv, [](std::string const& prop, bool th) {
        g_full = th;
        g_prop = prop;
        std::vector<mc::Scenario> v;
        if (prop == "C13")
        {
            v.push_back({"values", "69 types and messages x their value domains (optional parts in every combination, each message field with every value of its domain, the others null or full) x 4 positions x 3 targets", values});
            v.push_back({"ranges", "all 8 and 16 bit values; 32 and 64 bit values with every byte of 5 (64 bit: 3, thorough 5) patterns", ranges});
            v.push_back({"lengths", "strings, byte strings and arrays of every length 0-4199", lengths});
            v.push_back({"otherForms", "null and zero lengths, all node id forms, both extension object bodies", otherForms});
            v.push_back({"containers", "the 14 service messages with their type ids", containers});
            v.push_back({"sequences", "all ordered pairs of types in one buffer", sequences});
        }
        else
        {
            v.push_back({"codecMalformed", "69 types x 12 (thorough 400) values: every truncation, every byte set to 20-256 values, 15 lengths at every position", malformed});
            v.push_back({"codecHostile", "lengths beyond the message, nesting, unknown encodings, buffer limits", hostile});
        }
        return v;
    });
}
