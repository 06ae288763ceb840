// Delimited rules with a description of what they match.
#pragma once
#include "h07.hpp"
#include "obs.hpp"
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/parse_tree.hpp>
namespace h10
{
using text = std::u32string;
struct Toks // a token that is one of some texts
{
    std::vector<text> texts;
    int               fold = 0;
    bool              eof  = false; // also matches at the end of the input
};
enum BKind
{
    b_sym,    // longest of texts, value = index
    b_symtok, // maximal run of cls that is one of texts
    b_cap,    // one character of cls, captured
    b_cap2,   // two characters of cls, captured
    b_cp,     // texts[0] then n hex digits: code point
    b_int,    // texts[0] then n decimal digits: integer
    b_two,    // texts[0] then two integers of two digits
    b_none,   // one of texts, no value
    b_else,   // anything, no value
};
struct Branch
{
    BKind             kind;
    std::vector<text> texts = {};
    int               n     = 0;
    bool (*cls)(h07::cp_t) = nullptr;
};
struct Escape
{
    Toks                token;
    std::vector<Branch> branches;
};
struct Spec
{
    Toks open, close;
    bool (*cls)(h07::cp_t);
    bool unicode; // the class can contain characters that are not ASCII
    bool (*limit)(h07::cp_t);
    std::string         error;
    std::vector<Escape> escapes = {};
};
struct Tok
{
    std::size_t b, e;
    bool        err;
    bool        operator==(const Tok&) const = default;
};
struct Res
{
    obs::Out         out;
    std::vector<Tok> toks;
    bool             has_text = false;
    text             str; // what as_string made, as code units
};
enum Variant
{
    v_full,
    v_branch,
    v_space,
};
struct Entry
{
    const char* name;
    Spec        spec;
    bool        as_string;
    Res (*r8)(Variant, bool buffer, const std::string&);
    Res (*r16)(Variant, bool buffer, const std::u16string&);
    Res (*r32)(Variant, bool buffer, const std::u32string&);
};
std::vector<Entry>& registry();
inline const void* base;
// records the calls
struct rec_sink
{
    struct impl
    {
        std::string s;
        using return_type = std::string;
        template <class Reader>
        void operator()(lexy::lexeme<Reader> l)
        {
            auto b = static_cast<const typename Reader::encoding::char_type*>(base);
            s += "L" + std::to_string(l.begin() - b) + "-" + std::to_string(l.end() - b) + " ";
        }
        void operator()(lexy::code_point c)
        {
            s += "C" + std::to_string(c.value()) + " ";
        }
        void operator()(char c)
        {
            s += "S" + std::to_string(c - '0') + " ";
        }
        void operator()(int i)
        {
            s += "I" + std::to_string(i) + " ";
        }
        void operator()(int i, int j)
        {
            s += "T" + std::to_string(i) + "," + std::to_string(j) + " ";
        }
        std::string finish() &&
        {
            return std::move(s);
        }
    };
    constexpr auto sink() const
    {
        return impl{};
    }
};
struct finish
{
    using return_type = std::string;
    template <class It>
    std::string operator()(It b, std::string s, It e) const
    {
        auto p = static_cast<const std::remove_cv_t<std::remove_pointer_t<It>>*>(base);
        return std::to_string(b - p) + ":" + s + "@" + std::to_string(e - p);
    }
    template <class It>
    std::string operator()(It, It, lexy::nullopt) const
    {
        return "none";
    }
};
struct rec : rec_sink, finish
{};
template <class G>
struct full
{
    static constexpr auto rule  = dsl::position + G::r + dsl::position;
    static constexpr auto value = rec{};
};
template <class G>
struct branch
{
    static constexpr auto rule  = dsl::position + (G::r >> dsl::position | dsl::else_ >> dsl::position + dsl::nullopt);
    static constexpr auto value = rec{};
};
template <class G>
struct space
{
    static constexpr auto whitespace = dsl::ascii::blank;
    static constexpr auto rule       = dsl::position + G::r + dsl::position;
    static constexpr auto value      = rec{};
};
template <class G, class Enc>
struct str
{
    static constexpr auto rule  = G::r;
    static constexpr auto value = lexy::as_string<std::basic_string<typename Enc::char_type>, Enc>;
};
template <class G, class Enc, bool AS, class Input>
Res run_in(Variant v, const Input& in)
{
    base = in.data();
    Res r;
    r.out = v == v_full ? obs::parse<full<G>>(in) : v == v_branch ? obs::parse<branch<G>>(in) : obs::parse<space<G>>(in);
    if (v == v_full)
    {
        lexy::parse_tree_for<Input> tree;
        auto                        res = lexy::parse_as_tree<full<G>>(tree, in, lexy::noop);
        if (res.is_success() != (r.out.status == obs::success))
            vh::violation("tree-agreement", "parse_as_tree disagrees with " + r.out.str());
        if (!tree.empty())
            for (auto [ev, node] : tree.traverse())
                if (ev == lexy::traverse_event::leaf)
                {
                    auto lex = node.lexeme();
                    if (!lex.empty())
                        r.toks.push_back({std::size_t(lex.begin() - in.data()), std::size_t(lex.end() - in.data()), node.kind() == lexy::error_token_kind});
                }
        if constexpr (AS)
        {
            auto sr = lexy::parse<str<G, Enc>>(in, lexy::noop);
            if (sr.has_value())
            {
                r.has_text = true;
                for (auto c : sr.value())
                    r.str += char32_t(std::make_unsigned_t<decltype(c)>(c));
            }
        }
    }
    return r;
}
template <class G, class Enc, bool AS>
Res run(Variant v, bool buffer, const std::basic_string<typename Enc::char_type>& s)
{
    if (buffer)
        return run_in<G, Enc, AS>(v, lexy::buffer<Enc>(s.data(), s.size()));
    vh::Exact<typename Enc::char_type> ex(s.data(), s.size());
    return run_in<G, Enc, AS>(v, lexy::string_input<Enc>(ex.data, ex.size));
}
struct Reg
{
    explicit Reg(Entry e)
    {
        registry().push_back(e);
    }
};
struct my_tag
{
    static constexpr auto name = "my tag";
};
} // namespace h10
#define H10(N, AS, RULE, ...)                                                                                                                                  \
    struct G##N                                                                                                                                                \
    {                                                                                                                                                          \
        static constexpr auto r = RULE;                                                                                                                        \
    };                                                                                                                                                         \
    static h10::Reg reg##N{{#RULE, {__VA_ARGS__}, AS, &h10::run<G##N, lexy::utf8_char_encoding, AS>, &h10::run<G##N, lexy::utf16_encoding, AS>,               \
                            &h10::run<G##N, lexy::utf32_encoding, AS>}};
