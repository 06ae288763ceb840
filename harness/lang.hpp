// A language that uses most of the library, and a generator for it.
#pragma once
#include "vh.hpp"
#include <map>
#include <memory>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/argv_input.hpp>
namespace dsl = lexy::dsl;
namespace g
{
//=== a language ===//
struct Value
{
    std::string text;
};
constexpr auto escapes = lexy::symbol_table<char>.map<'n'>('\n').map<'t'>('\t').map<'\\'>('\\').map<'"'>('"').map<'/'>('/');
constexpr auto colors  = lexy::symbol_table<int>.case_folding(dsl::ascii::case_folding).map<LEXY_SYMBOL("red")>(1).map<LEXY_SYMBOL("redder")>(2).map<LEXY_SYMBOL("green")>(3);
constexpr auto names   = lexy::symbol_table<int>.map<LEXY_SYMBOL("one")>(1).map<LEXY_SYMBOL("only")>(2).map<LEXY_SYMBOL("two")>(3);
struct invalid
{
    static constexpr auto name = "invalid thing";
};
constexpr auto str_of = [](auto&& x) {
    if constexpr (std::is_convertible_v<decltype(x), std::string>)
        return std::string(x);
    else
        return std::to_string(x);
};
struct Item;
struct String
{
    static constexpr auto rule = dsl::delimited(dsl::lit_c<'"'>)(
        dsl::unicode::character,
        dsl::backslash_escape.symbol<escapes>().rule(dsl::lit_c<'u'> >> dsl::code_point_id<4>).rule(dsl::lit_c<'x'> >> dsl::code_unit_id<lexy::utf8_char_encoding, 2>));
    static constexpr auto value = lexy::as_string<std::string, lexy::utf8_char_encoding>;
};
struct Number
{
    static constexpr auto rule  = LEXY_LIT("0x") >> dsl::integer<unsigned>(dsl::digits<dsl::hex>) | dsl::else_ >> dsl::sign + dsl::integer<long long>(dsl::digits<>.sep(dsl::digit_sep_tick));
    static constexpr auto value = lexy::callback<std::string>([](unsigned u) { return "u" + std::to_string(u); }, [](lexy::plus_sign, long long i) { return std::to_string(i); },
                                                              [](lexy::minus_sign, long long i) { return std::to_string(-i); }, [](long long i) { return std::to_string(i); });
};
struct Name
{
    static constexpr auto rule  = dsl::identifier(dsl::unicode::xid_start_underscore, dsl::unicode::xid_continue).reserve(LEXY_LIT("let"), dsl::literal_set(LEXY_LIT("if"), LEXY_LIT("of")));
    static constexpr auto value = lexy::as_string<std::string, lexy::utf8_char_encoding>;
};
struct Color
{
    static constexpr auto rule  = dsl::lit_c<'@'> >> dsl::symbol<colors>.error<invalid>;
    static constexpr auto value = lexy::callback<std::string>([](int i) { return "color" + std::to_string(i); });
};
struct Known
{
    static constexpr auto rule  = dsl::lit_c<'!'> >> dsl::symbol<names>(dsl::identifier(dsl::ascii::alpha));
    static constexpr auto value = lexy::callback<std::string>([](int i) { return "name" + std::to_string(i); });
};
struct List
{
    static constexpr auto rule  = dsl::square_bracketed.opt_list(dsl::recurse<Item>, dsl::trailing_sep(dsl::comma));
    static constexpr auto value = lexy::as_list<std::vector<std::string>> >> lexy::callback<std::string>([](lexy::nullopt) { return std::string("[]"); },
                                                                                                          [](std::vector<std::string>&& v) {
                                                                                                              std::string r = "[";
                                                                                                              for (auto& x : v)
                                                                                                                  r += x + ",";
                                                                                                              return r + "]";
                                                                                                          });
};
struct Field
{
    static constexpr auto rule  = dsl::p<Name> >> dsl::colon >> dsl::recurse<Item>;
    static constexpr auto value = lexy::construct<std::pair<std::string, std::string>>;
};
struct Object
{
    static constexpr auto rule  = dsl::curly_bracketed.opt_list(dsl::try_(dsl::p<Field>), dsl::sep(dsl::comma));
    static constexpr auto value = lexy::as_collection<std::map<std::string, std::string>> >> lexy::callback<std::string>([](lexy::nullopt) { return std::string("{}"); },
                                                                                                                          [](std::map<std::string, std::string>&& v) {
                                                                                                                              std::string r = "{";
                                                                                                                              for (auto& [k, x] : v)
                                                                                                                                  r += k + "=" + x + ",";
                                                                                                                              return r + "}";
                                                                                                                          });
};
constexpr auto op_times = dsl::op(dsl::lit_c<'*'>);
constexpr auto op_over  = dsl::op(dsl::lit_c<'/'>);
struct Expr : lexy::expression_production
{
    static constexpr auto atom = dsl::parenthesized(dsl::p<Expr>) | dsl::else_ >> dsl::p<Number>;
    struct pow : dsl::infix_op_right
    {
        static constexpr auto op = dsl::op(dsl::lit_c<'^'>);
        using operand            = dsl::atom;
    };
    struct neg : dsl::prefix_op
    {
        static constexpr auto op = dsl::op(dsl::lit_c<'~'>);
        using operand            = pow;
    };
    struct mul : dsl::infix_op_left
    {
        static constexpr auto op = op_times / op_over;
        using operand            = neg;
    };
    struct cmp : dsl::infix_op_list
    {
        static constexpr auto op = dsl::op(dsl::lit_c<'&'>);
        using operand            = mul;
    };
    using operation            = cmp;
    static constexpr auto value = lexy::fold_inplace<std::string>("", [](std::string& r, const std::string& s) { r += "(" + s + ")"; }, [](std::string& r, lexy::op<cmp::op>) { r += "&"; })
                                  >> lexy::callback<std::string>([](std::string s) { return s; },
                                                                 [](lexy::op<neg::op>, std::string s) { return "~" + s; },
                                                                 [](std::string a, lexy::op<pow::op>, std::string b) { return "(" + a + "^" + b + ")"; },
                                                                 [](std::string a, lexy::op<op_times>, std::string b) { return "(" + a + "*" + b + ")"; },
                                                                 [](std::string a, lexy::op<op_over>, std::string b) { return "(" + a + "/" + b + ")"; });
};
struct Raw
{
    static constexpr auto rule = [] {
        auto id = dsl::context_identifier<Raw>(dsl::identifier(dsl::ascii::alpha));
        return dsl::lit_c<'<'> >> id.create() + id.capture() + dsl::lit_c<'>'> + dsl::capture(dsl::until(dsl::lit_c<'<'>)) + dsl::lit_c<'/'> + id.rematch() + dsl::lit_c<'>'>;
    }();
    static constexpr auto value = lexy::callback<std::string>([](auto id, auto text) { return std::string(id.begin(), id.end()) + ":" + std::string(text.begin(), text.end()); });
};
struct Count
{
    static constexpr auto rule = [] {
        auto c = dsl::context_counter<Count>;
        return dsl::lit_c<'#'> >> c.create() + dsl::while_(dsl::lit_c<'a'> >> c.inc()) + dsl::while_(dsl::lit_c<'b'> >> c.dec()) + dsl::must(c.is_zero()).error<invalid>;
    }();
    static constexpr auto value = lexy::callback<std::string>([] { return std::string("count"); });
};
struct Scanned : lexy::scan_production<std::string>
{
    template <class Reader, class Context>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& s)
    {
        auto        lex = s.capture(dsl::digits<>);
        std::string r;
        if (!s)
            return lexy::scan_failed;
        r = std::string(lex.value().begin(), lex.value().end());
        while (s.branch(dsl::lit_c<'%'>))
        {
            lexy::scan_result<std::string> n;
            s.parse(n, dsl::p<Name>);
            if (!n)
                return lexy::scan_failed;
            r += "%" + n.value();
        }
        return r;
    }
};
struct Item
{
    static constexpr auto max_recursion_depth = 40;
    struct missing
    {
        static constexpr auto name = "expected an item";
    };
    static constexpr auto rule = dsl::p<String> | dsl::p<List> | dsl::p<Object> | dsl::p<Color> | dsl::p<Known> | dsl::p<Raw> | dsl::p<Count> | dsl::lit_c<'$'> >> dsl::p<Scanned>
                                 | dsl::lit_c<'='> >> dsl::p<Expr> | dsl::p<Name> | dsl::peek(dsl::digit<> / dsl::lit_c<'-'> / dsl::lit_c<'+'>) >> dsl::p<Number> | dsl::error<missing>;
    static constexpr auto value = lexy::forward<std::string>;
};
struct Root
{
    static constexpr auto whitespace = dsl::ascii::space | LEXY_LIT("//") >> dsl::until(dsl::newline).or_eof() | LEXY_LIT("/*") >> dsl::until(LEXY_LIT("*/"));
    static constexpr auto rule       = dsl::terminator(dsl::eof).opt_list(dsl::p<Item>, dsl::sep(dsl::semicolon));
    static constexpr auto value      = List::value;
};
//=== binary ===//
struct Bytes
{
    static constexpr auto rule  = dsl::list(dsl::lit_b<1> >> dsl::little_bint16 | dsl::lit_b<2> >> dsl::big_bint32 | dsl::lit_b<3> >> dsl::bint64) + dsl::eof;
    static constexpr auto value = lexy::fold_inplace<std::string>("", [](std::string& s, std::uint64_t v) { s += std::to_string(v) + ","; });
};
//=== arguments ===//
struct Control
{
    static constexpr auto whitespace = dsl::ascii::space;
};
struct Args
{
    static constexpr auto whitespace = dsl::argv_separator | dsl::ascii::blank;
    struct Word
    {
        static constexpr auto rule  = dsl::identifier(dsl::ascii::alpha_digit_underscore / dsl::hyphen);
        static constexpr auto value = lexy::callback<std::string>([](auto l) {
            std::string s;
            for (auto c : l)
                s += c;
            return s;
        });
    };
    static constexpr auto rule  = dsl::terminator(dsl::eof).opt_list(dsl::p<Word>);
    static constexpr auto value = lexy::as_list<std::vector<std::string>> >> lexy::callback<std::string>([](lexy::nullopt) { return std::string("none"); },
                                                                                                          [](std::vector<std::string>&& v) {
                                                                                                              std::string r;
                                                                                                              for (auto& x : v)
                                                                                                                  r += x + " ";
                                                                                                              return r;
                                                                                                          });
};
} // namespace g
static std::string item(vh::Rng& r, int d)
{
    auto sp = [&]() -> std::string { return r.chance(1, 3) ? (r.chance(1, 2) ? " " : r.chance(1, 2) ? "\n" : "/* c */") : ""; };
    auto word = [&] {
        static const char* ws[] = {"abc", "x1", "\xC3\xA9t\xC3\xA9", "let", "of", "\xCE\xB1\xCE\xB2", "_"};
        return std::string(ws[r.below(7)]);
    };
    std::string s;
    switch (r.below(d > 0 ? 13 : 9))
    {
    case 0: return "\"" + word() + (r.chance(1, 2) ? "\\n" : r.chance(1, 2) ? "\\u20AC" : "\\q") + word() + (r.chance(9, 10) ? "\"" : "");
    case 1: return std::string(r.chance(1, 2) ? "0x" : r.chance(1, 2) ? "-" : "") + std::to_string(r.below(100000)) + (r.chance(1, 20) ? "999999999999999999999" : "");
    case 2: return word();
    case 3: return std::string("@") + (r.chance(1, 3) ? "Redder" : r.chance(1, 2) ? "GREEN" : r.chance(1, 2) ? "red" : "re");
    case 4: return std::string("!") + (r.chance(1, 3) ? "one" : r.chance(1, 2) ? "only" : r.chance(1, 2) ? "two" : "twox");
    case 5: return "<ab>" + word() + "</" + (r.chance(5, 6) ? "ab" : "ba") + ">";
    case 6: return "$" + std::to_string(r.below(1000)) + (r.chance(1, 2) ? "%" + word() : "");
    case 7:
        s = "=";
        for (int n = r.range(0, 6); n > 0; --n)
            s += sp() + (r.chance(1, 5) ? "~" : "") + std::to_string(r.below(50)) + sp() + "^*/&"[r.below(4)];
        return s + std::to_string(r.below(9)) + (r.chance(1, 10) ? "&" : "");
    case 8: return "#aab" + std::string(r.chance(2, 3) ? "b" : "");
    case 9:
    case 10:
        s = "[";
        for (int n = r.range(0, 5); n > 0; --n)
            s += sp() + item(r, d - 1) + sp() + ",";
        return s + (r.chance(9, 10) ? "]" : ")");
    default:
        s = "{";
        for (int n = r.range(0, 5); n > 0; --n)
            s += sp() + word() + sp() + (r.chance(9, 10) ? ":" : "") + sp() + item(r, d - 1) + (n > 1 ? "," : "");
        return s + (r.chance(9, 10) ? "}" : "");
    }
}
