// Independent Modbus/TCP reference codec (the oracle side).
#pragma once
#include <optional>
#include <string>
#include "env.hpp"

namespace mbref
{
struct Req { unsigned tid, unit, func, start, num; std::string data; };

inline std::string frame(unsigned tid, unsigned unit, std::string const& pdu, unsigned proto = 0, int len = -1)
{
    return be16(tid) + be16(proto) + be16(len < 0 ? pdu.size() + 1 : len) + std::string(1, (char)unit) + pdu;
}
inline std::string swap16(std::string const& d)
{
    std::string r;
    for (std::size_t i = 0; i + 1 < d.size(); i += 2) { r += d[i + 1]; r += d[i]; }
    return r;
}
// the frame of a request, or nothing if the request is not a valid one
inline std::optional<std::string> encode(Req const& q)
{
    if (q.unit > 247) return {};
    std::string f(1, (char)q.func);
    switch (q.func)
    {
    case 1: case 2:
        if ((q.num + 7) / 8 + 2 > 253) return {};
        return frame(q.tid, q.unit, f + be16(q.start) + be16(q.num));
    case 3: case 4:
        if (q.num * 2 + 2 > 253) return {};
        return frame(q.tid, q.unit, f + be16(q.start) + be16(q.num));
    case 5: case 6:
        if (q.num != 0 || q.data.size() != 2) return {};
        if (q.func == 5 && !(q.data[0] == 0 && (q.data[1] == 0 || (unsigned char)q.data[1] == 0xff))) return {};   // 0xFF00 or 0x0000
        return frame(q.tid, q.unit, f + be16(q.start) + swap16(q.data));
    case 0x10:
        if (q.data.size() != q.num * 2 || 13 + q.data.size() > 260) return {};
        return frame(q.tid, q.unit, f + be16(q.start) + be16(q.num) + std::string(1, (char)q.data.size()) + swap16(q.data));
    }
    return {};
}
// a well-formed reply to q carrying `data` (host order, as the requester sees it)
inline std::string reply(Req const& q, std::string const& data)
{
    std::string f(1, (char)q.func);
    switch (q.func)
    {
    case 1: case 2: return frame(q.tid, q.unit, f + std::string(1, (char)data.size()) + data);
    case 3: case 4: return frame(q.tid, q.unit, f + std::string(1, (char)data.size()) + swap16(data));
    case 5: case 6: return frame(q.tid, q.unit, f + be16(q.start) + swap16(data));
    case 0x10: return frame(q.tid, q.unit, f + be16(q.start) + be16(q.num));
    }
    return "";
}
inline std::string exception(Req const& q, unsigned code) { return frame(q.tid, q.unit, std::string(1, (char)0x8f) + std::string(1, (char)code)); }

// reference decoder of a reply; nothing if it is not well-formed
struct Rsp { unsigned tid, unit, func; std::string data; unsigned exc; };
inline std::optional<Rsp> decodeReply(std::string const& s)
{
    auto b = [&](std::size_t i) -> unsigned { return (unsigned char)s[i]; };
    if (s.size() < 9) return {};
    Rsp r{};
    r.tid = b(0) << 8 | b(1);
    if (b(2) || b(3)) return {};
    unsigned len = b(4) << 8 | b(5);
    if (len + 6 != s.size()) return {};
    r.unit = b(6);
    r.func = b(7);
    switch (r.func)
    {
    case 0x8f: if (len != 3) return {}; r.exc = b(8); return r;
    case 3: case 4: if (len != b(8) + 3 || b(8) % 2) return {}; r.data = swap16(s.substr(9)); return r;
    case 5: case 6: if (len != 6) return {}; r.data = swap16(s.substr(10)); return r;
    case 0x10: if (len != 6) return {}; return r;
    }
    return {};
}
} // namespace mbref
