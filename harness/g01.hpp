// Generated grammars on hostile inputs; nothing is expected but to survive.
#pragma once
#include "gdrive.hpp"
#include "h01.hpp"
namespace gd
{
template <class P>
std::string hostile_run(int seed, const void* p)
{
    auto&   s = *static_cast<const std::string*>(p);
    vh::Rng r(std::uint64_t(seed) + 1);
    using E8 = lexy::utf8_char_encoding;
    gobs::with_string<E8>(s, [&](const auto& in) {
        hostile::report<P>(in, r);
        gobs::run_parse<P>(in);
        lexy::match<P>(in);
        return 0;
    });
    gobs::with_buffer<lexy::utf8_encoding>(s, [&](const auto& in) {
        hostile::tree<P>(in, r);
        gobs::run_parse<P>(in);
        return 0;
    });
    gobs::with_range<E8>(s, [&](const auto& in) {
        hostile::trace<P>(in, r);
        return 0;
    });
    // the bytes as code units of the others
    std::string wide;
    for (unsigned char c : s)
        if (r.chance(1, 40)) // anything: surrogates, out of range
        {
            wide += char(c), wide += char(r.below(256));
        }
        else
            wide += char(c), wide += '\0';
    hostile::string<lexy::utf16_encoding>(wide, [&](const auto& in) {
        lexy::parse_tree_for<std::decay_t<decltype(in)>> t;
        lexy::parse_as_tree<P>(t, in, lexy::noop);
        if (r.chance(1, 2))
            hostile::report<P>(in, r);
    });
    std::string wider;
    for (unsigned char c : s)
    {
        std::uint32_t u = r.chance(1, 40) ? std::uint32_t(r.next() >> r.below(64)) : c;
        wider.append(reinterpret_cast<const char*>(&u), 4);
    }
    hostile::buffer<lexy::utf32_encoding>(wider, [&](const auto& in) { hostile::report<P>(in, r), lexy::match<P>(in); });
    return "";
}
template <class P>
Entry make(const char* name, const char* model)
{
    Entry e{name, model};
    e.job = &hostile_run<P>;
    return e;
}
} // namespace gd
