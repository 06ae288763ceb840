// Literals, literal sets, symbols, keywords and identifiers with a description of what they match.
#pragma once
#include "h07.hpp"
#include "obs.hpp"
namespace h09
{
using text = std::u32string;
enum Kind
{
    k_lit,
    k_set,
    k_kw,
    k_sym,    // symbol table directly
    k_symtok, // symbol in a token: run of the trailing class
    k_symid,  // symbol in an identifier
    k_id,
};
struct Text
{
    text s;
    bool kw = false;
};
struct Reserved
{
    char              how; // 'e'xact, 'p'refix, 'c'ontaining, 's'uffix
    int               fold;
    std::vector<text> texts;
};
struct Spec
{
    Kind              kind;
    int               fold; // 0 none, 1 ASCII, 2 simple Unicode
    std::vector<Text> texts;
    bool (*lead)(h07::cp_t)  = nullptr;
    bool (*trail)(h07::cp_t) = nullptr;
    std::vector<Reserved> reserved = {};
    bool                  ascii = true; // texts can be written in every encoding
};
struct Entry
{
    const char* name;
    Spec        spec;
    obs::Out (*r8)(bool branch, bool buffer, const std::u8string&);
    obs::Out (*r16)(bool branch, bool buffer, const std::u16string&);
    obs::Out (*r32)(bool branch, bool buffer, const std::u32string&);
};
std::vector<Entry>& registry();
template <class It>
std::string at(It b, It e)
{
    return "@" + std::to_string(e - b);
}
struct to_string
{
    using return_type = std::string;
    template <class It>
    std::string operator()(It b, It e) const
    {
        return at(b, e);
    }
    template <class It>
    std::string operator()(It b, int v, It e) const
    {
        return "=" + std::to_string(v) + at(b, e);
    }
    template <class It, class Reader>
    std::string operator()(It b, lexy::lexeme<Reader> l, It e) const
    {
        return "[" + std::to_string(l.begin() - b) + "," + std::to_string(l.end() - b) + ")" + at(b, e);
    }
    template <class It>
    std::string operator()(It, It, lexy::nullopt) const
    {
        return "none";
    }
};
template <class G>
struct full
{
    static constexpr auto rule  = dsl::position + G::r + dsl::position;
    static constexpr auto value = to_string{};
};
template <class G>
struct branch
{
    static constexpr auto rule  = dsl::position + (G::r >> dsl::position | dsl::else_ >> dsl::position + dsl::nullopt);
    static constexpr auto value = to_string{};
};
template <class G, class Enc>
obs::Out run(bool br, bool buffer, const std::basic_string<typename Enc::char_type>& s)
{
    if (buffer)
    {
        lexy::buffer<Enc> b(s.data(), s.size());
        return br ? obs::parse<branch<G>>(b) : obs::parse<full<G>>(b);
    }
    vh::Exact<typename Enc::char_type> ex(s.data(), s.size());
    auto                               in = lexy::string_input<Enc>(ex.data, ex.size);
    return br ? obs::parse<branch<G>>(in) : obs::parse<full<G>>(in);
}
struct Reg
{
    explicit Reg(Entry e)
    {
        registry().push_back(e);
    }
};
} // namespace h09
#define H09(N, RULE, ...)                                                                                                                                      \
    struct G##N                                                                                                                                                \
    {                                                                                                                                                          \
        static constexpr auto r = RULE;                                                                                                                        \
    };                                                                                                                                                         \
    static h09::Reg reg##N{{#RULE, {__VA_ARGS__}, &h09::run<G##N, lexy::utf8_encoding>, &h09::run<G##N, lexy::utf16_encoding>, &h09::run<G##N, lexy::utf32_encoding>}};
