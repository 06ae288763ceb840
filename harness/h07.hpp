// Character classes against the independent property table.
#pragma once
#include "u8.hpp"
#include "vh.hpp"
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/string_input.hpp>
namespace dsl = lexy::dsl;
namespace h07
{
using cp_t = std::uint32_t;
struct Entry
{
    const char* name;
    bool (*in)(cp_t);
    int  level; // 2: checked for every code point in UTF-32
    bool (*m32)(const char32_t*, std::size_t);
    bool (*m16)(const char16_t*, std::size_t);
    bool (*m8)(const char*, std::size_t);
    bool (*ma)(const char*, std::size_t);      // ASCII
    bool (*md)(const char*, std::size_t);      // default encoding, or null
    // length of the longest run of members
    std::size_t (*r32)(const char32_t*, std::size_t);
    std::size_t (*r16)(const char16_t*, std::size_t);
    std::size_t (*r8)(const char*, std::size_t);
};
std::vector<Entry>& registry();

template <class G>
struct single
{
    static constexpr auto rule = G::cls + dsl::eof;
};
// The first code unit is consumed by any; the rest by the identifier loop, which has its own fast path
template <class G>
struct run
{
    static constexpr auto rule  = dsl::identifier(dsl::lit_c<'#'> / dsl::lit_c<'#'>, G::cls);
    static constexpr auto value = lexy::callback<std::size_t>([](auto lex) { return lex.size(); });
};
template <class G, class Enc, class C>
bool match_single(const C* p, std::size_t n)
{
    return lexy::match<single<G>>(lexy::string_input<Enc>(reinterpret_cast<const typename Enc::char_type*>(p), n));
}
template <class G, class Enc, class C>
std::size_t match_run(const C* p, std::size_t n)
{
    lexy::buffer<Enc> b(reinterpret_cast<const typename Enc::char_type*>(p), n);
    auto              r = lexy::parse<run<G>>(b, lexy::noop);
    return r.has_value() ? r.value() : std::size_t(-1);
}
template <class G, bool Default>
Entry make(const char* name, int level)
{
    Entry e{name, &G::in, level};
    e.m32 = &match_single<G, lexy::utf32_encoding, char32_t>;
    e.m16 = &match_single<G, lexy::utf16_encoding, char16_t>;
    e.m8  = &match_single<G, lexy::utf8_char_encoding, char>;
    e.ma  = &match_single<G, lexy::ascii_encoding, char>;
    if constexpr (Default)
        e.md = &match_single<G, lexy::default_encoding, char>;
    e.r32 = &match_run<G, lexy::utf32_encoding, char32_t>;
    e.r16 = &match_run<G, lexy::utf16_encoding, char16_t>;
    e.r8  = &match_run<G, lexy::utf8_char_encoding, char>;
    return e;
}
struct Reg
{
    explicit Reg(Entry e)
    {
        registry().push_back(e);
    }
};
// base predicates of the oracle
inline bool isin(cp_t c, const char* set)
{
    for (; *set; ++set)
        if (c == cp_t(*set))
            return true;
    return false;
}
inline bool a_control(cp_t c) { return c < 0x20 || c == 0x7F; }
inline bool a_blank(cp_t c) { return c == ' ' || c == '\t'; }
inline bool a_newline(cp_t c) { return c == '\n' || c == '\r'; }
inline bool a_other_space(cp_t c) { return c == '\f' || c == '\v'; }
inline bool a_space(cp_t c) { return a_blank(c) || a_newline(c) || a_other_space(c); }
inline bool a_digit(cp_t c) { return c >= '0' && c <= '9'; }
inline bool a_lower(cp_t c) { return c >= 'a' && c <= 'z'; }
inline bool a_upper(cp_t c) { return c >= 'A' && c <= 'Z'; }
inline bool a_alpha(cp_t c) { return a_lower(c) || a_upper(c); }
inline bool a_alpha_underscore(cp_t c) { return a_alpha(c) || c == '_'; }
inline bool a_alpha_digit(cp_t c) { return a_alpha(c) || a_digit(c); }
inline bool a_word(cp_t c) { return a_alpha_digit(c) || c == '_'; }
inline bool a_punct(cp_t c) { return isin(c, "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"); }
inline bool a_graph(cp_t c) { return a_alpha_digit(c) || a_punct(c); }
inline bool a_print(cp_t c) { return a_graph(c) || c == ' '; }
inline bool a_character(cp_t c) { return c < 0x80; }
inline bool u_control(cp_t c) { return u8::cat(c) == lexy::code_point::Cc; }
inline bool u_blank(cp_t c) { return u8::cat(c) == lexy::code_point::Zs || c == '\t'; }
inline bool u_newline(cp_t c) { return c == '\r' || c == '\n' || c == 0x85 || c == 0x2028 || c == 0x2029; }
inline bool u_other_space(cp_t c) { return c == '\f' || c == '\v'; }
inline bool u_space(cp_t c) { return u8::prop(c, u8::ws); }
inline bool u_digit(cp_t c) { return u8::cat(c) == lexy::code_point::Nd; }
inline bool u_lower(cp_t c) { return u8::prop(c, u8::lowercase); }
inline bool u_upper(cp_t c) { return u8::prop(c, u8::uppercase); }
inline bool u_alpha(cp_t c) { return u8::prop(c, u8::alphabetic); }
inline bool u_alpha_digit(cp_t c) { return u_alpha(c) || u_digit(c); }
inline bool mark(cp_t c)
{
    auto k = u8::cat(c);
    return k == lexy::code_point::Mn || k == lexy::code_point::Mc || k == lexy::code_point::Me;
}
inline bool u_word(cp_t c) { return u_alpha_digit(c) || mark(c) || u8::cat(c) == lexy::code_point::Pc || u8::prop(c, u8::join); }
inline bool u_graph(cp_t c)
{
    auto k = u8::cat(c);
    return !u_space(c) && k != lexy::code_point::Cc && k != lexy::code_point::Cs && k != lexy::code_point::Cn;
}
inline bool u_print(cp_t c) { return (u_graph(c) || u_blank(c)) && !u_control(c); }
inline bool u_character(cp_t c) { return u8::cat(c) != lexy::code_point::Cn; }
inline bool u_xid_start(cp_t c) { return u8::prop(c, u8::xid_start); }
inline bool u_xid_start_underscore(cp_t c) { return u_xid_start(c) || c == '_'; }
inline bool u_xid_continue(cp_t c) { return u8::prop(c, u8::xid_continue); }
template <lexy::code_point::general_category_t... Cs>
bool cats(cp_t c)
{
    auto k = u8::cat(c);
    return ((k == Cs) || ...);
}
struct odd
{
    static constexpr auto name = "odd";
    constexpr bool operator()(lexy::code_point cp) const
    {
        return cp.value() % 2 == 1;
    }
};
} // namespace h07
#define H07_CLASS(N, EXPR, ORACLE, LEVEL, DEFAULT)                                                                                                             \
    struct G##N                                                                                                                                                \
    {                                                                                                                                                          \
        static constexpr auto cls = EXPR;                                                                                                                      \
        static bool           in(h07::cp_t c)                                                                                                                  \
        {                                                                                                                                                      \
            using namespace h07;                                                                                                                               \
            return ORACLE;                                                                                                                                     \
        }                                                                                                                                                      \
    };                                                                                                                                                         \
    static h07::Reg reg##N{h07::make<G##N, DEFAULT>(#EXPR, LEVEL)};
