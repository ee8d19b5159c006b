// Independent OPC UA binary encoding (Part 6): plain byte strings, no code of the repository.
#pragma once
#include <cstdint>
#include <cstring>
#include <optional>
#include <string>
#include <vector>

namespace uaref
{
using Bytes = std::string;

inline Bytes u8(unsigned v) { return Bytes(1, (char)v); }
inline Bytes u16(unsigned v) { return {(char)v, (char)(v >> 8)}; }
inline Bytes u32(std::uint32_t v) { Bytes s; for (int i = 0; i < 4; ++i) s += (char)(v >> 8 * i); return s; }
inline Bytes u64(std::uint64_t v) { Bytes s; for (int i = 0; i < 8; ++i) s += (char)(v >> 8 * i); return s; }
inline Bytes dbl(double d) { std::uint64_t v; std::memcpy(&v, &d, 8); return u64(v); }
inline Bytes flt(float d) { std::uint32_t v; std::memcpy(&v, &d, 4); return u32(v); }
inline Bytes nul() { return u32(0xffffffffu); }
// empty strings are sent as null strings
inline Bytes str(Bytes const& s) { return s.empty() ? nul() : u32(s.size()) + s; }
inline Bytes nodeId(unsigned ns, std::uint32_t id)
{
    if (!ns && id < 256) return u8(0) + u8(id);
    if (ns < 256 && id < 65536) return u8(1) + u8(ns) + u16(id);
    return u8(2) + u16(ns) + u32(id);
}
inline Bytes noExt() { return nodeId(0, 0) + u8(0); }

// reader for what the server sends
struct In
{
    Bytes const& s;
    std::size_t p = 0;
    bool bad = false;
    std::uint64_t n(int k) { std::uint64_t v = 0; for (int i = 0; i < k; ++i) { if (p >= s.size()) { bad = true; return 0; } v |= (std::uint64_t)(unsigned char)s[p++] << 8 * i; } return v; }
    std::uint32_t u32() { return n(4); }
    std::uint64_t u64() { return n(8); }
    unsigned u16() { return n(2); }
    unsigned u8() { return n(1); }
    std::optional<Bytes> str()
    {
        std::int32_t len = u32();
        if (len == -1) return {};
        if (len < 0 || (std::size_t)len > s.size() - p) { bad = true; return {}; }
        Bytes r = s.substr(p, len);
        p += len;
        return r;
    }
    // namespace and numeric identifier; other kinds are skipped
    std::pair<unsigned, std::uint64_t> nodeId(unsigned* flags = nullptr)
    {
        unsigned e = u8(), ns = 0;
        if (flags) *flags = e & 0xf0; else if (e & 0xf0) bad = true;
        switch (e & 15)
        {
        case 0: return {0, u8()};
        case 1: ns = u8(); return {ns, u16()};
        case 2: ns = u16(); return {ns, u32()};
        case 3: case 5: ns = u16(); str(); return {ns, ~0ull};
        case 4: ns = u16(); u64(); u64(); return {ns, ~0ull};
        }
        bad = true;
        return {0, ~0ull};
    }
    std::int32_t arr() { std::int32_t v = u32(); if (v < -1 || v > (std::int64_t)(s.size() - p)) { bad = true; return 0; } return v < 0 ? 0 : v; }
    void ext() { nodeId(); unsigned m = u8(); if (m > 2) bad = true; else if (m) str(); }
    void diag()
    {
        unsigned m = u8();
        for (int i = 0; i < 4; ++i) if (m & 1 << i) u32();
        if (m & 0x10) str();
        if (m & 0x20) u32();
        if (m & 0x40 && !bad) diag();
        if (m & 0x80) bad = true;
    }
    void text() { unsigned m = u8(); if (m & 1) str(); if (m & 2) str(); if (m & ~3u) bad = true; }
    bool done() const { return !bad && p == s.size(); }
};
} // namespace uaref
