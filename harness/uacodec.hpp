#pragma once
// C13 and the codec part of C14: the OPC UA binary codec (real OpcUaBinaryCodec, OpcUaSduBuffer and value types) over
// enumerated values, against an independent reference encoding, at every kind of position and with every kind of target.
#include "env.hpp"
#include "uaref.hpp"
#include "OpcUaBinaryCodec.hpp"

using namespace app::ua;
using uaref::Bytes;

struct Quiet { Quiet() { setLogs(false); } } static quiet;
inline bool g_full = false;
inline std::string g_prop;

// ---- domains -------------------------------------------------------------------------------------------------------
// D<T>::n() values, get(0) is the null value, get(1) one with every part present
// R<T>::enc reference encoding, R<T>::eq equality of what the protocol can express
template <class T> struct D;
template <class T> struct R;

static Bytes longStr(int n, int seed = 3) { Bytes s; for (int i = 0; i < n; ++i) s += (char)(i * 37 + seed); return s; }

template <class T, class I> struct DInt
{
    static std::vector<I> const& vals()
    {
        static std::vector<I> v = [] {
            std::vector<I> v{0, (I)0x5122334455667788ull, (I)1, (I)0x7f, (I)0x80, (I)0xff, (I)-1, (I)-2, (I)0x100, (I)0x7fff, (I)0x8000, (I)0xffff, (I)0x10000,
                (I)0x7fffffff, (I)0x80000000u, (I)0xffffffffu, (I)0x100000000ull, (I)0x7fffffffffffffffull, (I)0x8000000000000000ull, (I)0x0102030405060708ull, (I)0xf1e2d3c4b5a69788ull};
            std::vector<I> u;
            for (I x : v) { bool d = false; for (I y : u) d |= x == y; if (!d) u.push_back(x); }
            return u;
        }();
        return v;
    }
    static int n() { return vals().size(); }
    static T get(int k) { return T{vals()[k]}; }
};
template <class T, class I> struct RInt
{
    static Bytes enc(T const& v) { I i = v; Bytes s; for (unsigned b = 0; b < sizeof(I); ++b) s += (char)((std::uint64_t)i >> 8 * b); return s; }
    static bool eq(T const& a, T const& b) { I x = a, y = b; return x == y; }
};
#define INT(T, I) template <> struct D<T> : DInt<T, I> {}; template <> struct R<T> : RInt<T, I> {};
INT(SByte, std::int8_t) INT(Byte, std::uint8_t) INT(Int16, std::int16_t) INT(UInt16, std::uint16_t) INT(Int32, std::int32_t) INT(UInt32, std::uint32_t)
INT(Int64, std::int64_t) INT(UInt64, std::uint64_t) INT(DateTime, std::int64_t) INT(StatusCode, std::uint32_t)
template <> struct D<Boolean> { static int n() { return 2; } static Boolean get(int k) { return Boolean{k == 1}; } };
template <> struct R<Boolean>
{
    static Bytes enc(Boolean const& v) { bool b = v; return uaref::u8(b); }
    static bool eq(Boolean const& a, Boolean const& b) { bool x = a, y = b; return x == y; }
};
template <class T, class F, class I> struct DFlt
{
    static std::vector<F> const& vals()
    {
        static std::vector<F> v = [] {
            std::vector<F> v{0, (F)1.5, (F)-0.0, (F)1, (F)-1, (F)0.1, (F)1e30, (F)-1e-30, std::numeric_limits<F>::infinity(), -std::numeric_limits<F>::infinity(), std::numeric_limits<F>::denorm_min(), std::numeric_limits<F>::max()};
            F nan;
            I q = std::numeric_limits<I>::max();
            std::memcpy(&nan, &q, sizeof nan);
            v.push_back(nan);
            return v;
        }();
        return v;
    }
    static int n() { return vals().size(); }
    static T get(int k) { T t; t = vals()[k]; return t; }
};
template <class T, class F, class I> struct RFlt
{
    static I bits(T const& v) { F f = v; I i; std::memcpy(&i, &f, sizeof i); return i; }
    static Bytes enc(T const& v) { Bytes s; for (unsigned b = 0; b < sizeof(I); ++b) s += (char)(bits(v) >> 8 * b); return s; }
    static bool eq(T const& a, T const& b) { return bits(a) == bits(b); }
};
template <> struct D<Float> : DFlt<Float, float, std::uint32_t> {};
template <> struct R<Float> : RFlt<Float, float, std::uint32_t> {};
template <> struct D<Double> : DFlt<Double, double, std::uint64_t> {};
template <> struct R<Double> : RFlt<Double, double, std::uint64_t> {};

template <class T> struct DStr
{
    static int n() { return 6; }
    static T get(int k)
    {
        T t;
        t.val = k == 0 ? "" : k == 1 ? "one" : k == 2 ? Bytes(1, '\0') : k == 3 ? Bytes("\xff\xff\xff\xff", 4) : k == 4 ? longStr(200) : longStr(256);
        return t;
    }
};
template <class T> struct RStr
{
    static Bytes enc(T const& v) { return uaref::str(v.val); }
    static bool eq(T const& a, T const& b) { return a.val == b.val; }
};
template <> struct D<String> : DStr<String> {};
template <> struct R<String> : RStr<String> {};
template <> struct D<ByteString> : DStr<ByteString> {};
template <> struct R<ByteString> : RStr<ByteString> {};

template <> struct D<Guid>
{
    static int n() { return 4; }
    static Guid get(int k)
    {
        Guid g;
        g.data1 = k == 0 ? 0 : k == 1 ? 0x01020304 : k == 2 ? 0xffffffffu : 0x80000000u;
        g.data2 = k == 0 ? 0 : k == 1 ? 0x0506 : k == 2 ? 0xffff : 0x8001;
        g.data3 = k == 0 ? 0 : k == 1 ? 0x0708 : k == 2 ? 0xffff : 0x7ffe;
        for (int i = 0; i < 8; ++i) g.data4[i] = k == 0 ? 0 : k == 2 ? 0xff : 9 + i + k;
        return g;
    }
};
template <> struct R<Guid>
{
    static Bytes enc(Guid const& g)
    {
        Bytes s = R<UInt32>::enc(g.data1) + R<UInt16>::enc(g.data2) + R<UInt16>::enc(g.data3);
        for (int i = 0; i < 8; ++i) s += R<Byte>::enc(g.data4[i]);
        return s;
    }
    static bool eq(Guid const& a, Guid const& b) { return enc(a) == enc(b); }
};
static unsigned const nsv[] = {0, 7, 255, 256, 65535};
static std::uint32_t const idv[] = {0, 0x01020304, 1, 255, 256, 65535, 65536, 0xffffffffu};
template <> struct D<NodeId>
{
    static int n() { return 5 * 8 + 5 * 6 + 5 * 3 + 5 * 4; }
    static NodeId get(int k)
    {
        NodeId v;
        auto ns = [&](int i) { v.namespaceIndex = nsv[i]; };
        if (k == 1) k = 8 + 1; else if (k == 9) k = 1;      // get(1): namespace and identifier both set
        if (k < 40) { ns(k / 8); UInt32 u; u = idv[k % 8]; v.value.emplace<UInt32>() = u; return v; }
        k -= 40;
        if (k < 30) { ns(k / 6); v.value.emplace<String>() = D<String>::get(k % 6); return v; }
        k -= 30;
        if (k < 15) { ns(k / 3); v.value.emplace<Guid>() = D<Guid>::get(k % 3); return v; }
        k -= 15;
        ns(k / 4);
        v.value.emplace<Opaque>() = D<ByteString>::get(k % 4);
        return v;
    }
};
template <> struct R<NodeId>
{
    static Bytes enc(NodeId const& v, unsigned flags = 0)
    {
        unsigned ns = v.namespaceIndex;
        Bytes s;
        if (auto* u = std::get_if<UInt32>(&v.value)) { std::uint32_t i = *u; s = uaref::nodeId(ns, i); }
        else if (auto* t = std::get_if<String>(&v.value)) s = uaref::u8(3) + uaref::u16(ns) + uaref::str(t->val);
        else if (auto* g = std::get_if<Guid>(&v.value)) s = uaref::u8(4) + uaref::u16(ns) + R<Guid>::enc(*g);
        else s = uaref::u8(5) + uaref::u16(ns) + uaref::str(std::get<Opaque>(v.value).val);
        s[0] = (char)(s[0] | flags);
        return s;
    }
    static bool eq(NodeId const& a, NodeId const& b) { return a.value.index() == b.value.index() && enc(a) == enc(b); }
};
template <> struct D<QualifiedName>
{
    static int n() { return 30; }
    static QualifiedName get(int k) { QualifiedName q; int a = k == 0 ? 0 : k == 1 ? 1 : k % 5, b = k == 0 ? 0 : k == 1 ? 1 : k / 5; q.namespaceIndex = nsv[a]; q.name = D<String>::get(b); return q; }
};
template <> struct R<QualifiedName>
{
    static Bytes enc(QualifiedName const& q) { return R<UInt16>::enc(q.namespaceIndex) + R<String>::enc(q.name); }
    static bool eq(QualifiedName const& a, QualifiedName const& b) { return enc(a) == enc(b); }
};
// optional string: 0 absent, 1 "one", 2 present but empty, ...
template <class S> static void optStr(Opt<S>& o, int k) { if (k == 0) return; o.emplace(); *o = D<S>::get(k == 2 ? 0 : k == 1 ? 1 : k); }
template <class S> static Bytes sv(Opt<S> const& o) { return o ? o->val : Bytes(); }
template <> struct D<LocalizedText>
{
    static int n() { return 36; }
    static LocalizedText get(int k) { LocalizedText t; if (k == 1) k = 7; else if (k == 7) k = 1; optStr(t.locale, k % 6); optStr(t.text, k / 6); return t; }
};
template <> struct R<LocalizedText>
{
    static Bytes enc(LocalizedText const& t)
    {
        Bytes l = sv(t.locale), x = sv(t.text);
        return uaref::u8((l.empty() ? 0 : 1) | (x.empty() ? 0 : 2)) + (l.empty() ? "" : uaref::str(l)) + (x.empty() ? "" : uaref::str(x));
    }
    static bool eq(LocalizedText const& a, LocalizedText const& b) { return enc(a) == enc(b); }
};
template <> struct D<ExpandedNodeId>
{
    static int n() { return D<NodeId>::n() * 12; }
    static ExpandedNodeId get(int k)
    {
        ExpandedNodeId e;
        int f = k % 12;
        if (k == 1) f = 5; else if (k == 5) f = 1;
        e.nodeId = D<NodeId>::get(k == 1 ? 1 : k / 12);
        optStr(e.namespaceUri, f % 3);
        static std::uint32_t const sx[] = {0, 0x0a0b0c0d, 0, 0xffffffffu};
        if (f / 3) { UInt32 u; u = sx[f / 3]; e.serverIndex = u; }
        return e;
    }
};
template <> struct R<ExpandedNodeId>
{
    static Bytes enc(ExpandedNodeId const& e)
    {
        Bytes u = sv(e.namespaceUri);
        return R<NodeId>::enc(e.nodeId, (u.empty() ? 0 : 0x80) | (e.serverIndex ? 0x40 : 0)) + (u.empty() ? "" : uaref::str(u)) + (e.serverIndex ? R<UInt32>::enc(*e.serverIndex) : "");
    }
    static bool eq(ExpandedNodeId const& a, ExpandedNodeId const& b) { return a.nodeId.value.index() == b.nodeId.value.index() && enc(a) == enc(b); }
};
template <> struct D<ExtensionObject>
{
    static int n() { return D<NodeId>::n() * 4; }
    static ExtensionObject get(int k) { ExtensionObject e; e.nodeId = D<NodeId>::get(k == 1 ? 1 : k / 4); optStr(e.byteString, k % 4); return e; }
};
template <> struct R<ExtensionObject>
{
    static Bytes enc(ExtensionObject const& e) { Bytes b = sv(e.byteString); return R<NodeId>::enc(e.nodeId) + uaref::u8(b.empty() ? 0 : 1) + (b.empty() ? "" : uaref::str(b)); }
    static bool eq(ExtensionObject const& a, ExtensionObject const& b) { return a.nodeId.value.index() == b.nodeId.value.index() && enc(a) == enc(b); }
};
template <> struct D<DiagnosticInfo>
{
    static int n() { return 64 * 4 + 4; }
    static DiagnosticInfo get(int k)
    {
        if (k == 1) k = 64 + 63; else if (k == 64 + 63) k = 1;
        DiagnosticInfo d;
        if (k >= 256)       // deep nesting
        {
            static int const depth[] = {2, 5, 50, 99};
            DiagnosticInfo* p = &d;
            for (int i = 0; i < depth[k - 256]; ++i) { Int32 x; x = i; p->symbolicId = x; p->innerDiagnosticInfo = std::make_unique<DiagnosticInfo>(); p = p->innerDiagnosticInfo.get(); }
            return d;
        }
        int m = k % 64, in = k / 64;
        auto i32 = [](int v) { Int32 x; x = v; return x; };
        if (m & 1) d.symbolicId = i32(-5);
        if (m & 2) d.namespaceUri = i32(0x01020304);
        if (m & 4) d.locale = i32(0x11121314);
        if (m & 8) d.localizedText = i32(0x7fffffff);
        if (m & 16) { d.additionalInfo.emplace(); if (in != 1) d.additionalInfo->val = "info"; }
        if (m & 32) { StatusCode c; c = 0x80010000u; d.innerStatusCode = c; }
        if (in == 1) { d.innerDiagnosticInfo = std::make_unique<DiagnosticInfo>(); d.innerDiagnosticInfo->locale = i32(9); }
        if (in == 2) d.innerDiagnosticInfo = std::make_unique<DiagnosticInfo>();
        if (in == 3) { d.innerDiagnosticInfo = std::make_unique<DiagnosticInfo>(get(m)); d.innerDiagnosticInfo->innerDiagnosticInfo = std::make_unique<DiagnosticInfo>(get(63 - m)); }
        return d;
    }
};
template <> struct R<DiagnosticInfo>
{
    static Bytes enc(DiagnosticInfo const& d)
    {
        unsigned m = (d.symbolicId ? 1 : 0) | (d.namespaceUri ? 2 : 0) | (d.localizedText ? 4 : 0) | (d.locale ? 8 : 0) | (d.additionalInfo ? 0x10 : 0) | (d.innerStatusCode ? 0x20 : 0) | (d.innerDiagnosticInfo ? 0x40 : 0);
        Bytes s = uaref::u8(m);
        if (d.symbolicId) s += R<Int32>::enc(*d.symbolicId);
        if (d.namespaceUri) s += R<Int32>::enc(*d.namespaceUri);
        if (d.locale) s += R<Int32>::enc(*d.locale);
        if (d.localizedText) s += R<Int32>::enc(*d.localizedText);
        if (d.additionalInfo) s += R<String>::enc(*d.additionalInfo);
        if (d.innerStatusCode) s += R<StatusCode>::enc(*d.innerStatusCode);
        if (d.innerDiagnosticInfo) s += enc(*d.innerDiagnosticInfo);
        return s;
    }
    static bool eq(DiagnosticInfo const& a, DiagnosticInfo const& b) { return enc(a) == enc(b); }
};
// arrays: empty, one full, one null, three different, 40 elements
template <class T> struct D<std::vector<T>>
{
    static int n() { return 5; }
    static std::vector<T> get(int k)
    {
        std::vector<T> v;
        int m = D<T>::n();
        if (k == 1) v.push_back(D<T>::get(1));
        if (k == 2) v.push_back(D<T>::get(0));
        if (k == 3) for (int i : {1, 0, m - 1}) v.push_back(D<T>::get(i));
        if (k == 4) for (int i = 0; i < 40; ++i) v.push_back(D<T>::get(i % 3 == 2 ? 0 : i % 2));
        return v;
    }
};
template <class T> struct R<std::vector<T>>
{
    static Bytes enc(std::vector<T> const& v) { Bytes s = uaref::u32(v.size()); for (auto& x : v) s += R<T>::enc(x); return s; }
    static bool eq(std::vector<T> const& a, std::vector<T> const& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!R<T>::eq(a[i], b[i])) return false; return true; }
};
// variants: null, every scalar type, arrays of every type, with and without dimensions
template <class... T> struct Types {};
using Scalars = Types<Boolean, SByte, Byte, Int16, UInt16, Int32, UInt32, Int64, UInt64, Float, Double, String, DateTime, Guid, ByteString, XmlElement, NodeId, ExpandedNodeId, StatusCode, QualifiedName, LocalizedText, ExtensionObject>;
template <> struct D<XmlElement> { static int n() { return 0; } static XmlElement get(int) { return {}; } };
template <> struct R<XmlElement> { static Bytes enc(XmlElement const&) { return {}; } static bool eq(XmlElement const&, XmlElement const&) { return true; } };
struct VarDom
{
    int type;           // 0 null, 1-25
    bool array;
    int value, dims;
};
template <class F> static void eachType(F&& f)
{
    auto go = [&]<class... T>(Types<T...>) { int i = 0; (f(++i, (T*)nullptr), ...); };
    go(Scalars{});
}
static std::vector<VarDom> const& varDoms()
{
    static std::vector<VarDom> v = [] {
        std::vector<VarDom> v{{0, false, 0, 0}, {12, true, 3, 4}};
        eachType([&](int i, auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            if constexpr (!std::is_same_v<T, XmlElement>)
            {
                int n = D<T>::n();
                for (int k = 0; k < n; ++k) if (n < 64 || k < 40 || k % 7 == 0) v.push_back({i, false, k, 0});
                for (int k = 0; k < 5; ++k) for (int d = 0; d < 5; ++d) v.push_back({i, true, k, d});
            }
        });
        return v;
    }();
    return v;
}
template <> struct D<Variant>
{
    static int n() { return varDoms().size(); }
    static Variant get(int k)
    {
        auto d = varDoms()[k];
        Variant v;
        if (!d.type) return v;
        eachType([&](int i, auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            if (i != d.type) return;
            if constexpr (!std::is_same_v<T, XmlElement>)
            {
                v.value = std::make_unique<Variant::Value>();
                if (d.array) v.value->template emplace<std::vector<T>>(D<std::vector<T>>::get(d.value));
                else v.value->template emplace<T>(D<T>::get(d.value));
            }
        });
        auto i32 = [](int x) { Int32 r; r = x; return r; };
        if (d.dims == 1) v.arrayDimensions.emplace();
        if (d.dims == 2) { v.arrayDimensions.emplace(); v.arrayDimensions->push_back(i32(1)); }
        if (d.dims == 3) { v.arrayDimensions.emplace(); v.arrayDimensions->push_back(i32(2)); v.arrayDimensions->push_back(i32(0x01020304)); }
        if (d.dims == 4) { v.arrayDimensions.emplace(); for (int i = 0; i < 30; ++i) v.arrayDimensions->push_back(i32(i)); }
        return v;
    }
};
template <> struct R<Variant>
{
    static Bytes enc(Variant const& v)
    {
        if (!v.value) return uaref::u8(0);
        Bytes s;
        eachType([&](int i, auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            if (auto* p = std::get_if<T>(v.value.get())) s = uaref::u8(i) + R<T>::enc(*p);
            if (auto* p = std::get_if<std::vector<T>>(v.value.get())) s = uaref::u8(i | 0x80 | (v.arrayDimensions ? 0x40 : 0)) + R<std::vector<T>>::enc(*p) + (v.arrayDimensions ? R<std::vector<Int32>>::enc(*v.arrayDimensions) : "");
        });
        return s;
    }
    static bool eq(Variant const& a, Variant const& b) { return !a.value == !b.value && (!a.value || a.value->index() == b.value->index()) && a.arrayDimensions.has_value() == b.arrayDimensions.has_value() && enc(a) == enc(b); }
};
template <> struct D<DataValue>
{
    static int n() { return 2 + 32 * 6 + (int)varDoms().size(); }
    static DataValue get(int k)
    {
        DataValue d;
        int m = 0, var = 0;
        int const nv = varDoms().size();
        if (k == 1) { m = 31; var = 1; }
        else if (k >= 2 + 32 * 6) { m = k % 32; var = k - 2 - 32 * 6; }
        else if (k >= 2) { m = (k - 2) % 32; int f = (k - 2) / 32; var = f == 0 ? 0 : f * 97 % nv; }
        d.value = D<Variant>::get(var);
        auto u16 = [](int x) { UInt16 r; r = x; return r; };
        auto dt = [](std::int64_t x) { DateTime r; r = x; return r; };
        if (m & 1) { StatusCode c; c = 0x80020001u; d.status = c; }
        if (m & 2) d.sourceTimestampt = dt(0x0102030405060708);
        if (m & 4) d.sourcePicoSeconds = u16(0x1112);
        if (m & 8) d.serverTimeStampt = dt(-0x2122232425262728);
        if (m & 16) d.serverPicoSeconds = u16(0xf132);
        return d;
    }
};
template <> struct R<DataValue>
{
    static Bytes enc(DataValue const& d)
    {
        unsigned m = (d.value.value ? 1 : 0) | (d.status ? 2 : 0) | (d.sourceTimestampt ? 4 : 0) | (d.serverTimeStampt ? 8 : 0) | (d.sourcePicoSeconds ? 0x10 : 0) | (d.serverPicoSeconds ? 0x20 : 0);
        Bytes s = uaref::u8(m);
        if (d.value.value) s += R<Variant>::enc(d.value);
        if (d.status) s += R<StatusCode>::enc(*d.status);
        if (d.sourceTimestampt) s += R<DateTime>::enc(*d.sourceTimestampt);
        if (d.sourcePicoSeconds) s += R<UInt16>::enc(*d.sourcePicoSeconds);
        if (d.serverTimeStampt) s += R<DateTime>::enc(*d.serverTimeStampt);
        if (d.serverPicoSeconds) s += R<UInt16>::enc(*d.serverPicoSeconds);
        return s;
    }
    static bool eq(DataValue const& a, DataValue const& b) { return R<Variant>::eq(a.value, b.value) && enc(a) == enc(b); }
};

// ---- messages: fields in the order of the specification ------------------------------------------------------------
template <class M, class F> concept Msg = requires(M& m, F f) { fields(m, f); };
#define FIELDS(M, ...) template <class F> static void fields(M& m, F&& f) { auto all = [&](auto&... x) { (f(x), ...); }; all(__VA_ARGS__); }
struct Ignore { template <class T> void operator()(T&) {} };
FIELDS(HelloMessage, m.protocolVersion, m.receiveBufferSize, m.sendBufferSize, m.maxMessageSize, m.maxChunkCount, m.endpointUrl)
FIELDS(AcknowledgeMessage, m.protocolVersion, m.receiveBufferSize, m.sendBufferSize, m.maxMessageSize, m.maxChunkCount)
FIELDS(ErrorMessage, m.error, m.reason)
FIELDS(ReverseHelloMessage, m.serverUri, m.endpointUrl)
FIELDS(MessageHeader, m.messageType[0], m.messageType[1], m.messageType[2], m.isFinal, m.messageSize)
FIELDS(UaMessageHeader, m.messageType[0], m.messageType[1], m.messageType[2], m.isFinal, m.messageSize, m.secureChannelId)
FIELDS(UaSecurityHeader, m.securityPolicyUri, m.senderCertificate, m.receiverCertificateThumbprint)
FIELDS(UaSecurityTokenHeader, m.tokenId)
FIELDS(UaSequenceHeader, m.sequenceNumber, m.requestId)
FIELDS(UaRequestHeader, m.authentificationToken, m.timestamp, m.requestHandle, m.returnDignostics, m.auditEntityId, m.timeoutHint, m.additionalHeader)
FIELDS(UaResponseHeader, m.timestamp, m.requestHandle, m.serviceResult, m.serviceDiagnostics, m.stringTable, m.additionalHeader)
FIELDS(UaOpenSecureChannelReq, m.requestHdr, m.clientProtocolVer, m.securityTokenRequestType, m.securityMode, m.clientNonce, m.requestLifetime)
FIELDS(UaChannelSecurityToken, m.secureChannelId, m.tokenId, m.createdAt, m.revisedLifetime)
FIELDS(UaOpenSecureChannelRsp, m.responseHdr, m.serverProtocolVer, m.securityToken, m.serverNonce)
FIELDS(UaCloseSecureChannelReq, m.requestHdr)
FIELDS(UaCloseSecureChannelRsp, m.responseHdr)
FIELDS(UaApplicationDescription, m.applicationUri, m.productUri, m.applicationName, m.applicationType, m.gatewayServerUri, m.discoveryProfileUri, m.discoveryUrls)
FIELDS(UaUserTokenPolicy, m.policyId, m.tokenType, m.issuedTokenType, m.issuerEndpointUrl, m.securityPolicyUri)
FIELDS(UaEndpointDescription, m.endpointUrl, m.server, m.serverCertificate, m.securityMode, m.securityPolicyUri, m.userIdentityTokens, m.transportProfileUri, m.securityLevel)
FIELDS(UaGetEndpointsReq, m.requestHdr, m.endpointUrl, m.localeIds, m.profileUris)
FIELDS(UaGetEndpointsRsp, m.responseHdr, m.endpointDescription)
FIELDS(UaSignatureData, m.algorithm, m.signature)
FIELDS(UaCreateSessionReq, m.requestHdr, m.clientDescription, m.serverUri, m.endpointUrl, m.sessionName, m.clientNonce, m.clientCertificate, m.requestedSessionTimeout, m.maxResponseMessageSize)
FIELDS(UaCreateSessionRsp, m.responseHdr, m.sessionId, m.authenticationToken, m.revisedSessionTimeout, m.serverNonce, m.serverCertificate, m.serverEndpoints, m.signedSoftwareCertificate, m.serverSignature, m.maxRequestMessageSize)
FIELDS(UaActivateSessionReq, m.requestHdr, m.clientSignature, m.clientSoftwareCertificates, m.localeIds, m.userIdentityToken, m.userTokenSignature)
FIELDS(UaActivateSessionRsp, m.responseHdr, m.serverNonce, m.results, m.diagnosticInfos)
FIELDS(UaCloseSessionReq, m.requestHdr, m.deleteSubscriptions)
FIELDS(UaCloseSessionRsp, m.responseHdr)
FIELDS(ReadValueId, m.nodeId, m.attributeId, m.indexRange, m.dataEncoding)
FIELDS(UaReadReq, m.requestHdr, m.maxAge, m.timestampsToReturn, m.nodesToRead)
FIELDS(UaReadRsp, m.responseHdr, m.results, m.diagnosticInfos)

template <class T> concept Leaf = requires { D<T>::n(); };
template <class T> static void leaves(T& t, std::function<void(void*, int, std::function<void(int)>)> const& f)
{
    if constexpr (Msg<T, Ignore>) fields(t, [&](auto& x) { leaves(x, f); });
    else f(&t, D<T>::n(), [&t](int k) { t = D<T>::get(k); });
}
template <class M> requires Msg<M, Ignore> struct R<M>
{
    static Bytes enc(M const& m) { Bytes s; fields(const_cast<M&>(m), [&](auto& x) { s += R<std::remove_reference_t<decltype(x)>>::enc(x); }); return s; }
    static bool eq(M const& a, M const& b)
    {
        std::vector<Bytes> u, v;
        fields(const_cast<M&>(a), [&](auto& x) { u.push_back(R<std::remove_reference_t<decltype(x)>>::enc(x)); });
        fields(const_cast<M&>(b), [&](auto& x) { v.push_back(R<std::remove_reference_t<decltype(x)>>::enc(x)); });
        return u == v;
    }
};
// values of a message: leaf i takes every value of its domain while the others are null or full
template <class M> struct DMsg
{
    static std::vector<int> const& sizes()
    {
        static std::vector<int> v = [] { std::vector<int> v; auto m = std::make_unique<M>(); leaves(*m, [&](void*, int n, auto) { v.push_back(n); }); return v; }();
        return v;
    }
    static void set(M& m, int leaf, int k, int others)
    {
        int i = 0;
        leaves(m, [&](void*, int n, std::function<void(int)> s) { s(i == leaf ? k : others); ++i; });
    }
};
template <class M> requires Msg<M, Ignore> struct D<M>
{
    static int n() { int s = 2; for (int k : DMsg<M>::sizes()) s += 2 * std::min(k, 24); return s; }
    static M get(int k)
    {
        M m;
        if (k < 2) { DMsg<M>::set(m, -1, 0, k); return m; }
        k -= 2;
        int leaf = 0;
        for (int sz : DMsg<M>::sizes())
        {
            int c = 2 * std::min(sz, 24);
            if (k < c) { int v = k / 2; if (sz > 24 && v >= 8) v = (int)((long)v * sz / 24); DMsg<M>::set(m, leaf, v, k % 2); return m; }
            k -= c;
            ++leaf;
        }
        return m;
    }
};

// ---- checks --------------------------------------------------------------------------------------------------------
static Bytes content(OpcUaSduBuffer& b) { return Bytes((char const*)b.begin(), b.end() - b.begin()); }
static void load(OpcUaSduBuffer& b, Bytes const& s) { std::memcpy(b.end(), s.data(), s.size()); b.seek(s.size()); }
static void pollute(OpcUaSduBuffer& b) { std::memset(b.begin(), 0xff, 4096); b.reset(); }
static constexpr std::size_t CAP = 4096;
template <class F> static bool refuses(F&& f) { try { f(); } catch (...) { return true; } return false; }
static std::string shorten(Bytes const& s) { return s.size() > 60 ? mc::hex(s.substr(0, 60)) + ".. (" + std::to_string(s.size()) + " bytes)" : mc::hex(s); }

static Bytes const prefixes[] = {"", Bytes("\0", 1), Bytes("\xff\xff\xff", 3), longStr(77)};

template <class T> static bool checkValue(mc::Run& r, char const* name, T const& v, int pre, int held)
{
    r.step();
    Bytes const want = R<T>::enc(v); Bytes const p = prefixes[pre];
    r.state(mc::mixs(pre * 3 + held, want));
    std::string id = std::string(name) + " " + shorten(want);
    OpcUaSduBuffer tx;
    if (held) pollute(tx);
    OpcUaBinaryCodec out(tx);
    for (unsigned char c : p) out.write(c);
    if (p.size() + want.size() > CAP) { if (!refuses([&] { out << v; })) { r.fail("a value too large for the buffer is encoded: " + id); return false; } return true; }
    if (refuses([&] { out << v; })) { r.fail("a value is not encoded: " + id); return false; }
    Bytes got = content(tx);
    if (got != p + want) { r.fail("a value is encoded wrongly: " + id + " as " + shorten(got.substr(std::min(got.size(), p.size())))); return false; }
    // decode it from between other data, into a target that held another value
    if (got.size() + 5 > CAP) return true;
    OpcUaSduBuffer rx;
    load(rx, got + "\x01\x02\xfe\xff\x55");
    OpcUaBinaryCodec in(rx);
    for (std::size_t i = 0; i < p.size(); ++i) in.read();
    auto t = std::make_unique<T>();
    if (held == 1) *t = D<T>::get(1);
    if (held == 2) *t = D<T>::get(D<T>::n() - 1);
    if (refuses([&] { in >> *t; })) { r.fail("an encoded value can not be decoded: " + id); return false; }
    if (!R<T>::eq(*t, v)) { r.fail("a value is decoded wrongly: " + id + " as " + shorten(R<T>::enc(*t))); return false; }
    if (content(rx) != "\x01\x02\xfe\xff\x55") { r.fail("decoding does not consume exactly the encoded value: " + id); return false; }
    return true;
}
// types that may hold NaN, or an optional string that is present but empty (which the encoding does not distinguish)
template <class T> struct Exact { static constexpr bool value = !(std::is_same_v<T, Float> || std::is_same_v<T, Double> || std::is_same_v<T, Variant> || std::is_same_v<T, DataValue> || std::is_same_v<T, ExpandedNodeId> || std::is_same_v<T, ExtensionObject>); };
template <class T> struct Exact<std::vector<T>> : Exact<T> {};
template <class T> static bool checkEq(mc::Run& r, char const* name, T const& v)
{
    if constexpr (requires { v == v; })
    {
        OpcUaSduBuffer b;
        OpcUaBinaryCodec c(b);
        auto t = std::make_unique<T>();
        if (R<T>::enc(v).size() > CAP) return true;
        c << v;
        c >> *t;
        if constexpr (Exact<T>::value)
            if (!(*t == v)) { r.fail(std::string("a decoded value does not compare equal to the original: ") + name + " " + shorten(R<T>::enc(v))); return false; }
    }
    return true;
}
// the rest of a value that is cut off anywhere, or whose bytes are altered, must be refused or decode to something that was there
template <class T> static bool checkMalformed(mc::Run& r, char const* name, T const& v, bool alter)
{
    Bytes w = R<T>::enc(v);
    if (w.size() > CAP) return true;
    auto t = std::make_unique<T>();
    for (std::size_t n = 0; n < w.size(); ++n)
    {
        r.step();
        OpcUaSduBuffer rx;
        pollute(rx);
        load(rx, w.substr(0, n));
        OpcUaBinaryCodec in(rx);
        *t = D<T>::get(n % 2);
        r.state(mc::mixs(n, w));
        if (!refuses([&] { in >> *t; })) { r.fail(std::string("a truncated value is accepted: ") + name + " " + shorten(w.substr(0, n)) + " of " + shorten(w)); return false; }
    }
    if (!alter) return true;
    static unsigned char const odd[] = {0, 1, 2, 3, 4, 5, 6, 7, 0x0f, 0x10, 0x40, 0x7f, 0x80, 0x81, 0x8c, 0x98, 0xc1, 0xcc, 0xfe, 0xff};
    auto one = [&](Bytes const& g) {
        r.step();
        OpcUaSduBuffer rx;
        pollute(rx);
        load(rx, g);
        OpcUaBinaryCodec in(rx);
        *t = D<T>::get(0);
        if (refuses([&] { in >> *t; })) return true;
        std::size_t used = g.size() - content(rx).size();
        Bytes e = R<T>::enc(*t);
        if (used > g.size() || e.size() > used) { r.fail(std::string("a malformed value is decoded to more than was received: ") + name + " " + shorten(g)); return false; }
        return true;
    };
    for (std::size_t i = 0; i < w.size() && i < 400; ++i)
    {
        int lim = w.size() < 64 || g_full ? 256 : 20;
        for (int x = 0; x < lim; ++x)
        {
            Bytes g = w;
            g[i] = lim == 256 ? (char)x : (char)odd[x];
            if (!one(g)) return false;
        }
        // a length of any magnitude here
        if (i + 4 <= w.size())
            for (std::uint32_t len : {0u, 1u, 0x7fu, 0x80u, (unsigned)w.size(), (unsigned)w.size() - (unsigned)i, (unsigned)w.size() - (unsigned)i - 4, (unsigned)w.size() - (unsigned)i - 3, 4096u, 65536u, 0x10000000u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu})
                if (!one(w.substr(0, i) + uaref::u32(len) + w.substr(i + 4))) return false;
    }
    return true;
}

struct TypeOps { char const* name; int n; std::function<bool(mc::Run&, int k, int pre, int held)> value; std::function<bool(mc::Run&, int k, bool alter)> bad; std::function<Bytes(OpcUaBinaryCodec&, int k)> put; std::function<bool(OpcUaBinaryCodec&, int k)> get; };
// the types are spread over several translation units, which compile in parallel
void uaTypes1(std::vector<TypeOps>& v);
void uaTypes2(std::vector<TypeOps>& v);
void uaTypes3(std::vector<TypeOps>& v);
void uaTypes4(std::vector<TypeOps>& v);
void uaTypes5(std::vector<TypeOps>& v);
#define UA_TYPE(T) v.push_back({#T, D<T>::n(), [](mc::Run& r, int k, int pre, int held) { auto x = std::make_unique<T>(D<T>::get(k)); return checkValue<T>(r, #T, *x, pre, held) && (pre || held || checkEq<T>(r, #T, *x)); }, \
    [](mc::Run& r, int k, bool alter) { auto x = std::make_unique<T>(D<T>::get(k)); return checkMalformed<T>(r, #T, *x, alter); }, \
    [](OpcUaBinaryCodec& c, int k) { auto x = std::make_unique<T>(D<T>::get(k)); c << *x; return R<T>::enc(*x); }, \
    [](OpcUaBinaryCodec& c, int k) { auto x = std::make_unique<T>(D<T>::get(k)); auto y = std::make_unique<T>(); c >> *y; return R<T>::eq(*x, *y); }});
