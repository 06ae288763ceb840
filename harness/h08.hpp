// Numbers: every entry is one integer rule, together with what it is supposed to do.
#pragma once
#include "obs.hpp"
namespace h08
{
using u128 = unsigned __int128;
enum Form
{
    f_digits,
    f_nlz,
    f_n,     // exactly n digits
    f_token, // class run of digits, '.' and 'u'
};
struct Spec
{
    const char* digits; // the digits in order; upper case hex digits follow as "ABCDEF"
    int         radix;
    int         upper; // 0: only lower case hex digits, 1: only upper, 2: both
    const char* cls;   // class name of the error
    Form        form;
    int         n;
    const char* sep; // or nullptr
    bool        bounded;
    u128        max; // or 2^bits - 1 for unbounded (wrapping) types
    const char* overflow;
};
struct Entry
{
    const char* name;
    Spec        spec;
    // whether as branch, string in the three encodings, as buffer or as string
    obs::Out (*run)(bool branch, int enc, bool buffer, const std::string& s);
};
std::vector<Entry>& registry();

inline std::string dec(u128 v)
{
    std::string r;
    do
        r.insert(r.begin(), char('0' + int(v % 10))), v /= 10;
    while (v);
    return r;
}
template <class T>
std::string show(T v)
{
    if constexpr (std::is_same_v<T, lexy::code_point>)
        return dec(v.value());
    else
    {
        if (v < T(0))
            return "-" + dec(u128(0) - u128(v));
        return dec(u128(v));
    }
}
template <class G>
struct as_rule
{
    static constexpr auto rule  = G::r + dsl::position;
    static constexpr auto value = lexy::callback<std::string>([](auto v, auto) { return show(v); });
};
// the position the rule ended at is seen by what follows it
template <class It>
std::string at(It begin, It pos)
{
    return "@" + std::to_string(pos - begin);
}
template <class G>
struct full
{
    static constexpr auto rule  = dsl::position + G::r + dsl::position;
    static constexpr auto value = lexy::callback<std::string>([](auto b, auto v, auto e) { return show(v) + at(b, e); });
};
template <class G>
struct branch
{
    static constexpr auto rule  = dsl::position + (G::r >> dsl::position | dsl::else_ >> dsl::position);
    static constexpr auto value = lexy::callback<std::string>([](auto b, auto v, auto e) { return show(v) + at(b, e); }, [](auto b, auto e) { return "none" + at(b, e); });
};
template <class P, class Enc>
obs::Out run_enc(bool buffer, const std::string& s)
{
    auto w = obs::widen<Enc>(s);
    if (buffer)
        return obs::parse<P>(lexy::buffer<Enc>(w.data(), w.size()));
    vh::Exact<typename Enc::char_type> ex(w.data(), w.size());
    return obs::parse<P>(lexy::string_input<Enc>(ex.data, ex.size));
}
template <class G>
obs::Out run(bool br, int enc, bool buffer, const std::string& s)
{
    if (br)
        return enc == 0 ? run_enc<branch<G>, lexy::utf8_encoding>(buffer, s) : run_enc<branch<G>, lexy::utf32_encoding>(buffer, s);
    return enc == 0 ? run_enc<full<G>, lexy::ascii_encoding>(buffer, s) : enc == 1 ? run_enc<full<G>, lexy::utf16_encoding>(buffer, s) : run_enc<full<G>, lexy::utf32_encoding>(buffer, s);
}
struct Reg
{
    explicit Reg(Entry e)
    {
        registry().push_back(e);
    }
};
template <class T>
constexpr u128 max_of = std::is_signed_v<T> ? (u128(1) << (8 * sizeof(T) - 1)) - 1 : u128(0) - 1 >> (128 - 8 * sizeof(T));
template <>
inline constexpr u128 max_of<__int128> = (u128(1) << 127) - 1;
template <>
inline constexpr u128 max_of<unsigned __int128> = ~u128(0);
} // namespace h08
#define H08(N, RULE, ...)                                                                                                                                      \
    struct G##N                                                                                                                                                \
    {                                                                                                                                                          \
        static constexpr auto r = RULE;                                                                                                                        \
    };                                                                                                                                                         \
    static h08::Reg reg##N{{#RULE, {__VA_ARGS__}, &h08::run<G##N>}};
