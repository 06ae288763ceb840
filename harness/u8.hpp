// Independent Unicode helpers: encoders, strict decoders (Unicode table 3-7) and the property table.
#pragma once
#include <cstdint>
#include <lexy/code_point.hpp>
#include <string>
#include <vector>
namespace u8
{
struct Row
{
    std::uint32_t                        first;
    lexy::code_point::general_category_t cat;
    unsigned                             props; // White_Space, Join_Control, Alphabetic, Uppercase, Lowercase, XID_Start, XID_Continue
    int                                  fold;
};
extern const std::vector<Row> table;
const Row& row(std::uint32_t cp); // cp <= 0x10FFFF
enum
{
    ws,
    join,
    alphabetic,
    uppercase,
    lowercase,
    xid_start,
    xid_continue
};
inline bool prop(std::uint32_t cp, int p)
{
    return (row(cp).props >> p) & 1;
}
inline auto cat(std::uint32_t cp)
{
    return row(cp).cat;
}
inline std::uint32_t fold(std::uint32_t cp)
{
    return cp > 0x10FFFF ? cp : std::uint32_t(int(cp) + row(cp).fold);
}
inline bool scalar(std::uint32_t cp)
{
    return cp <= 0x10FFFF && !(cp >= 0xD800 && cp < 0xE000);
}
// encoders (any value below 2^21 for UTF-8)
inline void put8(std::basic_string<unsigned char>& s, std::uint32_t cp) // generalized
{
    auto add = [&](unsigned v) { s.push_back((unsigned char)v); };
    if (cp < 0x80)
        add(cp);
    else if (cp < 0x800)
        add(0xC0 + cp / 64), add(0x80 + cp % 64);
    else if (cp < 0x10000)
        add(0xE0 + cp / 4096), add(0x80 + cp / 64 % 64), add(0x80 + cp % 64);
    else
        add(0xF0 + cp / 262144), add(0x80 + cp / 4096 % 64), add(0x80 + cp / 64 % 64), add(0x80 + cp % 64);
}
inline void put16(std::u16string& s, std::uint32_t cp)
{
    if (cp < 0x10000)
        s.push_back(char16_t(cp));
    else
    {
        auto v = cp - 0x10000;
        s.push_back(char16_t(0xD800 + v / 1024));
        s.push_back(char16_t(0xDC00 + v % 1024));
    }
}
template <class C>
std::basic_string<C> enc(std::uint32_t cp)
{
    std::basic_string<C> r;
    if constexpr (sizeof(C) == 1)
    {
        std::basic_string<unsigned char> t;
        put8(t, cp);
        for (auto c : t)
            r.push_back(C(c));
    }
    else if constexpr (sizeof(C) == 2)
    {
        std::u16string t;
        put16(t, cp);
        for (auto c : t)
            r.push_back(C(c));
    }
    else
        r.push_back(C(cp));
    return r;
}
struct Dec
{
    std::size_t   len; // 0: not a well-formed code point here
    std::uint32_t cp;
};
template <class C>
Dec dec(const C* p, std::size_t n)
{
    if (n == 0)
        return {0, 0};
    if constexpr (sizeof(C) == 4)
    {
        auto v = std::uint32_t(p[0]);
        return scalar(v) ? Dec{1, v} : Dec{0, v};
    }
    else if constexpr (sizeof(C) == 2)
    {
        auto a = std::uint16_t(p[0]);
        if (a < 0xD800 || a > 0xDFFF)
            return {1, a};
        if (a > 0xDBFF || n < 2)
            return {0, 0};
        auto b = std::uint16_t(p[1]);
        if (b < 0xDC00 || b > 0xDFFF)
            return {0, 0};
        return {2, 0x10000u + (std::uint32_t(a) - 0xD800) * 1024 + (std::uint32_t(b) - 0xDC00)};
    }
    else
    {
        auto u = [&](std::size_t i) { return i < n ? unsigned((unsigned char)p[i]) : 0u; };
        auto in = [](unsigned v, unsigned lo, unsigned hi) { return lo <= v && v <= hi; };
        auto a = u(0), b = u(1), c = u(2), d = u(3);
        if (a <= 0x7F)
            return {1, a};
        if (in(a, 0xC2, 0xDF) && in(b, 0x80, 0xBF))
            return {2, (a - 0xC0) * 64 + (b - 0x80)};
        bool b3 = (a == 0xE0 && in(b, 0xA0, 0xBF)) || (in(a, 0xE1, 0xEC) && in(b, 0x80, 0xBF)) || (a == 0xED && in(b, 0x80, 0x9F))
                  || (in(a, 0xEE, 0xEF) && in(b, 0x80, 0xBF));
        if (b3 && in(c, 0x80, 0xBF))
            return {3, (a - 0xE0) * 4096 + (b - 0x80) * 64 + (c - 0x80)};
        bool b4 = (a == 0xF0 && in(b, 0x90, 0xBF)) || (in(a, 0xF1, 0xF3) && in(b, 0x80, 0xBF)) || (a == 0xF4 && in(b, 0x80, 0x8F));
        if (b4 && in(c, 0x80, 0xBF) && in(d, 0x80, 0xBF))
            return {4, (a - 0xF0) * 262144 + (b - 0x80) * 4096 + (c - 0x80) * 64 + (d - 0x80)};
        return {0, 0};
    }
}
} // namespace u8
