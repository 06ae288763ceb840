// Whitespace inserted between the tokens of a text changes nothing; anywhere else it does.
#include "vh.hpp"
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/match.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/input/range_input.hpp>
#include <forward_list>
namespace dsl = lexy::dsl;
namespace w
{
template <class T>
std::string txt(T&& x)
{
    using U = std::decay_t<T>;
    if constexpr (std::is_same_v<U, std::string>)
        return x;
    else if constexpr (std::is_integral_v<U>)
        return std::to_string(x);
    else if constexpr (std::is_same_v<U, lexy::nullopt>)
        return "none";
    else if constexpr (std::is_same_v<U, lexy::minus_sign>)
        return "-";
    else if constexpr (std::is_same_v<U, lexy::plus_sign>)
        return "+";
    else
        return std::string(x.begin(), x.end()); // lexeme
}
// the value of a production is what it is made of
struct Show
{
    using return_type = std::string;
    const char* name;
    template <class... A>
    std::string operator()(A&&... a) const
    {
        std::string r = std::string(name) + "(";
        ((r += txt(LEXY_FWD(a)) + ","), ...);
        return r + ")";
    }
};
constexpr auto items = lexy::fold_inplace<std::string>("", [](std::string& s, auto&& x) { s += txt(LEXY_FWD(x)) + ";"; });
constexpr auto colors = lexy::symbol_table<int>.map<LEXY_SYMBOL("red")>(1).map<LEXY_SYMBOL("redder")>(2).map<LEXY_SYMBOL("green")>(3);
constexpr auto id     = dsl::identifier(dsl::ascii::alpha, dsl::ascii::alpha_digit_underscore);
constexpr auto kw_let = LEXY_KEYWORD("let", id);
constexpr auto name_  = id.reserve(kw_let);
struct Stmt;
// 1.5: nothing inside
struct Num : lexy::token_production
{
    static constexpr auto rule  = dsl::integer<int>(dsl::digits<>.sep(dsl::digit_sep_tick)) + dsl::opt(dsl::period >> dsl::capture(dsl::digits<>));
    static constexpr auto value = Show{"num"};
};
struct Dir
{
    static constexpr auto rule  = dsl::sign + dsl::integer<long>;
    static constexpr auto value = Show{"signed"};
};
// only blanks between its tokens
struct Line
{
    static constexpr auto whitespace = dsl::ascii::blank;
    static constexpr auto rule       = dsl::list(name_, dsl::sep(dsl::hyphen)) + dsl::lit_c<'!'>;
    static constexpr auto value      = items >> Show{"line"};
};
struct Inner // has the whitespace of whoever uses it
{
    static constexpr auto rule  = LEXY_LIT("in") + dsl::capture(dsl::digit<>) + dsl::lit_c<'.'>;
    static constexpr auto value = Show{"inner"};
};
struct Tight : lexy::token_production // uses a production
{
    static constexpr auto rule  = dsl::lit_c<'('> + dsl::p<Inner> + dsl::lit_c<')'>;
    static constexpr auto value = Show{"tight"};
};
struct Under : lexy::token_production // inside a token production there may be other whitespace
{
    static constexpr auto whitespace = dsl::lit_c<'_'>;
    static constexpr auto rule       = dsl::lit_c<'['> + dsl::p<Inner> + dsl::capture(dsl::digits<>) + dsl::lit_c<']'>;
    static constexpr auto value      = Show{"under"};
};
struct Nested // another definition, which a production below it changes again
{
    static constexpr auto whitespace = dsl::lit_c<'_'>;
    static constexpr auto rule       = dsl::lit_c<'['> + dsl::p<Line> + dsl::p<Inner> + dsl::lit_c<']'>;
    static constexpr auto value      = Show{"nested"};
};
struct Raw
{
    static constexpr auto rule  = dsl::lit_c<'['> >> dsl::no_whitespace(name_ + dsl::colon + dsl::p<Num> + dsl::p<Inner>) + dsl::lit_c<']'>;
    static constexpr auto value = Show{"raw"};
};
struct Raw2 // whole branch, with a list
{
    static constexpr auto rule  = dsl::no_whitespace(LEXY_LIT("[[") >> dsl::list(dsl::capture(dsl::digit<>), dsl::sep(dsl::comma)) + LEXY_LIT("]]"));
    static constexpr auto value = items >> Show{"raw2"};
};
struct String
{
    static constexpr auto rule  = dsl::delimited(dsl::lit_c<'"'>)(dsl::ascii::print, dsl::backslash_escape.capture(dsl::ascii::alpha));
    static constexpr auto value = lexy::fold_inplace<std::string>("", [](std::string& s, auto l) { s.append(l.begin(), l.end()); }) >> Show{"string"};
};
struct Color
{
    static constexpr auto rule  = dsl::at_sign >> dsl::symbol<colors>;
    static constexpr auto value = Show{"color"};
};
struct List
{
    static constexpr auto rule  = dsl::curly_bracketed.opt_list(dsl::recurse<Stmt>, dsl::sep(dsl::comma));
    static constexpr auto value = items >> Show{"list"};
};
struct Quote
{
    static constexpr auto rule  = dsl::capture(dsl::token(dsl::lit_c<'`'> + dsl::while_(dsl::ascii::alpha) + dsl::lit_c<'`'>)) + dsl::twice(dsl::lit_c<'.'>) + dsl::capture(dsl::lit_c<'x'>);
    static constexpr auto value = Show{"quote"};
};
struct Until
{
    static constexpr auto rule  = LEXY_LIT("<<") >> dsl::capture(dsl::until(LEXY_LIT(">>"))) + dsl::capture(dsl::n_digits<2>);
    static constexpr auto value = Show{"until"};
};
struct Tag
{
    static constexpr auto rule = [] {
        auto v = dsl::context_identifier<Tag>(dsl::identifier(dsl::ascii::lower));
        auto f = dsl::context_flag<Tag>;
        auto c = dsl::context_counter<Tag>;
        return v.create() + f.create() + c.create() + v.capture() + dsl::while_(dsl::lit_c<'+'> >> c.inc() + f.toggle()) + dsl::lit_c<'~'> + v.rematch()
               + (f.is_set() >> dsl::lit_c<'1'> | dsl::else_ >> dsl::lit_c<'0'>) + dsl::while_(dsl::lit_c<'-'> >> c.dec()) + c.is_zero();
    }();
    static constexpr auto value = Show{"tag"};
};
struct Scanned : lexy::scan_production<std::string>
{
    template <class Reader, class Context>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& s)
    {
        std::string r;
        while (s.branch(LEXY_LIT("->")))
        {
            lexy::scan_result<lexy::lexeme<Reader>> l;
            s.parse(l, name_);
            if (!s)
                return lexy::scan_failed;
            r += txt(l.value()) + ">";
            if (s.peek(dsl::lit_c<'='>))
            {
                s.parse(dsl::lit_c<'='>);
                lexy::scan_result<std::string> n;
                s.parse(n, dsl::p<Num>);
                if (!n)
                    return lexy::scan_failed;
                r += n.value();
            }
        }
        s.parse(dsl::lit_c<'|'>);
        return r;
    }
};
constexpr auto op_minus = dsl::op(dsl::lit_c<'-'>);
constexpr auto op_eq    = dsl::op(LEXY_LIT("=="));
constexpr auto op_inc   = dsl::op(LEXY_LIT("++"));
constexpr auto op_index = dsl::op(dsl::lit_c<'['> >> dsl::p<Num> + dsl::lit_c<']'>);
template <class T>
std::string part(T&& x)
{
    using U = std::decay_t<T>;
    if constexpr (std::is_same_v<U, std::string> || std::is_integral_v<U>)
        return txt(LEXY_FWD(x));
    else
        return std::is_same_v<U, lexy::op<op_minus>> ? "-" : std::is_same_v<U, lexy::op<op_eq>> ? "==" : std::is_same_v<U, lexy::op<op_inc>> ? "++" : "[]";
}
struct Expr : lexy::expression_production
{
    static constexpr auto atom = dsl::parenthesized(dsl::p<Expr>) | dsl::p<String> | dsl::else_ >> dsl::p<Num>;
    struct post : dsl::postfix_op
    {
        static constexpr auto op = op_inc / op_index;
        using operand            = dsl::atom;
    };
    struct pre : dsl::prefix_op
    {
        static constexpr auto op = op_minus;
        using operand            = post;
    };
    struct sum : dsl::infix_op_left
    {
        static constexpr auto op = dsl::op<1>(LEXY_LIT("+")) / dsl::op<1>(LEXY_LIT("plus")) / op_minus;
        using operand            = pre;
    };
    struct cmp : dsl::infix_op_single
    {
        static constexpr auto op = op_eq;
        using operand            = sum;
    };
    struct cond : dsl::infix_op_right
    {
        static constexpr auto op = dsl::op<2>(dsl::lit_c<'?'> >> dsl::p<Expr> + dsl::colon);
        using operand            = cmp;
    };
    using operation = cond;
    static constexpr auto value = lexy::callback<std::string>([](std::string s) { return s; }, [](auto&&... a) {
        std::string r = "(";
        ((r += part(LEXY_FWD(a)) + " "), ...);
        return r + ")";
    });
};
struct Let
{
    static constexpr auto rule  = kw_let >> name_ + dsl::equal_sign + dsl::p<Expr>;
    static constexpr auto value = Show{"let"};
};
struct Angle
{
    static constexpr auto rule  = dsl::lit_c<'<'> >> dsl::p<Line> + dsl::lit_c<'>'>;
    static constexpr auto value = Show{"angle"};
};
struct Comb
{
    static constexpr auto rule  = dsl::combination(dsl::lit_c<'a'> >> dsl::capture(dsl::digit<>), dsl::lit_c<'b'> >> dsl::lit_c<'b'>, dsl::capture(LEXY_LIT("cc")));
    static constexpr auto value = items >> Show{"comb"};
};
struct PComb
{
    static constexpr auto rule  = dsl::partial_combination(dsl::lit_c<'a'> >> dsl::capture(dsl::digit<>), dsl::lit_c<'b'> >> dsl::lit_c<'b'>);
    static constexpr auto value = items >> Show{"partial"};
};
struct Stmt
{
    struct expected
    {
        static constexpr auto name = "a statement";
    };
    static constexpr auto max_recursion_depth = 60;
    static constexpr auto rule = dsl::p<Until> | dsl::p<Let> | dsl::p<String> | dsl::p<Color> | dsl::p<List> | dsl::lit_c<'%'> >> dsl::p<Nested> | LEXY_LIT("&t") >> dsl::p<Tight> | LEXY_LIT("&u") >> dsl::p<Under>
                                 | dsl::p<Raw2> | dsl::p<Raw> | LEXY_LIT("^q") >> dsl::p<Quote> | LEXY_LIT("^t") >> dsl::p<Tag> | LEXY_LIT("^s") >> dsl::p<Scanned> | LEXY_LIT("^i") >> dsl::p<Inner> | dsl::p<Angle>
                                 | LEXY_LIT("^d") >> dsl::p<Dir> | LEXY_LIT("^c") >> dsl::p<Comb>
                                 | LEXY_LIT("^p") >> dsl::p<PComb> + dsl::lit_c<'.'>
                                 | LEXY_LIT("^=") >> dsl::p<Expr> | dsl::error<expected>;
    static constexpr auto value = Show{"stmt"};
};
template <int W>
constexpr auto space = [] {
    if constexpr (W == 0)
        return dsl::ascii::space;
    else if constexpr (W == 1)
        return dsl::ascii::blank | dsl::newline | dsl::hash_sign >> dsl::until(dsl::newline).or_eof() | LEXY_LIT("/*") >> dsl::until(LEXY_LIT("*/"));
    else if constexpr (W == 2)
        return dsl::lit_c<' '>;
    else if constexpr (W == 3)
        return dsl::literal_set(LEXY_LIT(" "), LEXY_LIT("\\\n"), LEXY_LIT("\n"));
    else
        return dsl::whitespace(dsl::ascii::space / dsl::unicode::space);
}();
template <int W>
struct Root
{
    static constexpr auto whitespace = space<W>;
    static constexpr auto rule       = dsl::terminator(dsl::eof).opt_list(dsl::try_(dsl::p<Stmt>, dsl::nullopt), dsl::sep(dsl::semicolon));
    static constexpr auto value      = items >> Show{"root"};
};
} // namespace w

//=== texts ===//
enum Gap
{
    none,
    outer, // whitespace of Root
    blank,
    under,
};
struct Doc
{
    struct Piece
    {
        std::string text;
        Gap         gap; // what may come after it
    };
    std::vector<Piece> pieces; // the first one is empty: the beginning
    Gap                now = outer;
    vh::Rng&           r;
    explicit Doc(vh::Rng& r) : r(r)
    {
        pieces.push_back({"", outer});
    }
    void tok(const std::string& s)
    {
        pieces.push_back({s, now});
    }
    // a production with other whitespace
    template <class F>
    void with(Gap g, bool token, F f)
    {
        auto before = now;
        now         = g;
        if (g != none) // skips at its beginning
            pieces.push_back({"", g});
        f();
        now = before;
        if (token)
            pieces.push_back({"", now}); // whitespace is skipped after it
    }
    std::string word()
    {
        std::string s;
        for (int n = r.range(1, 12); n > 0; --n)
            s += char('a' + r.below(26));
        return s == "let" ? "lex" : s;
    }
    void name()
    {
        tok(word());
    }
    void num()
    {
        with(none, true, [&] {
            tok(std::to_string(r.below(10000)) + (r.chance(1, 3) ? "'5" : ""));
            if (r.chance(1, 3))
                tok("."), tok(std::to_string(r.below(100)));
        });
    }
    void inner()
    {
        tok("in"), tok(std::string(1, char('0' + r.below(10)))), tok(".");
    }
    void line()
    {
        with(blank, false, [&] {
            name();
            for (int n = r.range(0, 4); n > 0; --n)
                tok("-"), name();
            tok("!");
        });
    }
    void string()
    {
        auto g = now;
        now    = none;
        tok("\"");
        for (int n = r.range(1, 4); n > 0; --n)
            tok(r.chance(1, 3) ? "a b" : r.chance(1, 4) ? "\\n" : word());
        now = g;
        tok("\"");
    }
    void expr(int d)
    {
        if (d > 0 && r.chance(1, 8)) // comparisons do not chain
        {
            sum(d - 1), tok("=="), sum(d - 1);
        }
        else
            sum(d);
        if (d > 0 && r.chance(1, 6))
        {
            tok("?"), expr(d - 1), tok(":"), expr(d - 1);
        }
    }
    void sum(int d)
    {
        for (int n = r.range(0, 3);; --n)
        {
            for (int k = r.chance(1, 3) ? 1 + int(r.below(2)) : 0; k > 0; --k)
                tok("-");
            if (d > 0 && r.chance(1, 4))
                tok("("), expr(d - 1), tok(")");
            else if (r.chance(1, 5))
                string();
            else
                num();
            for (int k = r.chance(1, 4) ? 1 + int(r.below(2)) : 0; k > 0; --k)
                if (r.chance(1, 2))
                    tok("++");
                else
                    tok("["), num(), tok("]");
            if (n == 0)
                break;
            tok(r.chance(1, 2) ? "+" : r.chance(1, 2) ? "plus" : "-");
        }
    }
    void stmt(int d)
    {
        switch (r.below(d > 0 ? 20 : 18))
        {
        case 0:
            tok("let"), must_space(), name(), tok("="), expr(2);
            break;
        case 1: string(); break;
        case 2: tok("@"), tok(r.chance(1, 2) ? "red" : r.chance(1, 2) ? "redder" : "green"); break;
        case 3:
            tok("%");
            with(under, false, [&] { tok("["), line(), inner(), tok("]"); });
            break;
        case 4:
            tok("&t");
            with(none, true, [&] { tok("("), inner(), tok(")"); });
            break;
        case 5:
            tok("&u");
            with(under, true, [&] { tok("["), inner(), tok(std::to_string(r.below(100))), tok("]"); });
            break;
        case 6:
            with(none, true, [&] {
                tok("[["), tok("1");
                for (int n = r.range(0, 3); n > 0; --n)
                    tok(","), tok("2");
                tok("]]");
            });
            break;
        case 7:
            tok("[");
            with(none, true, [&] { name(), tok(":"), tok("12"), r.chance(1, 2) ? (tok("."), tok("5")) : void(), inner(); });
            tok("]");
            break;
        case 8: tok("^q"), tok("`" + word() + "`"), tok("."), tok("."), tok("x"); break;
        case 9: {
            tok("^t");
            auto t = word();
            int  n = r.range(0, 3);
            tok(t);
            for (int k = n; k > 0; --k)
                tok("+");
            tok("~"), tok(t), tok(n % 2 ? "1" : "0");
            for (int k = n; k > 0; --k)
                tok("-");
            break;
        }
        case 10:
            tok("^s");
            for (int n = r.range(0, 3); n > 0; --n)
            {
                tok("->"), name();
                if (r.chance(1, 2))
                    tok("="), num();
            }
            tok("|");
            break;
        case 11: tok("^i"), inner(); break;
        case 12: tok("<"), line(), tok(">"); break;
        case 13:
            tok("^d");
            if (r.chance(2, 3))
                tok(r.chance(1, 2) ? "-" : "+");
            tok(std::to_string(r.below(1000)));
            break;
        case 14: {
            tok("^c");
            int p = int(r.below(3));
            for (int k = 0; k < 3; ++k)
                switch ((k + p) % 3)
                {
                case 0: tok("a"), tok("7"); break;
                case 1: tok("b"), tok("b"); break;
                default: tok("cc");
                }
            break;
        }
        case 15:
            tok("^p");
            if (r.chance(1, 2))
                tok("a"), tok("7");
            if (r.chance(1, 2))
                tok("b"), tok("b");
            tok(".");
            break;
        case 16: tok("<<"), tok(word() + " " + word() + ">>"), tok("42"); break;
        case 17: tok("^="), expr(3); break;
        default:
            tok("{");
            for (int n = r.range(0, 3); n > 0; --n)
            {
                stmt(d - 1);
                if (n > 1)
                    tok(",");
            }
            tok("}");
        }
    }
    std::vector<std::size_t> needs; // there must be whitespace after this piece
    void                     must_space()
    {
        needs.push_back(pieces.size() - 1);
    }
    void root()
    {
        for (int n = r.range(0, 4); n > 0; --n)
        {
            stmt(3);
            if (n > 1)
                tok(";");
        }
    }
    bool needed(std::size_t i) const
    {
        for (auto n : needs)
            if (n == i)
                return true;
        return false;
    }
};
static std::string space_of(Gap g, int W, vh::Rng& r, bool more)
{
    std::string s;
    auto        n = more && r.chance(1, 10) ? r.range(5, 40) : r.range(1, 3);
    if (g == none)
        return s;
    if (g == blank || g == under)
    {
        for (; n > 0; --n)
            s += g == under ? '_' : r.chance(3, 4) ? ' ' : '\t';
        return s;
    }
    bool run = r.chance(1, 3); // of spaces
    for (; n > 0; --n)
        if (run || W == 2)
            s += ' ';
        else if (W == 0)
            s += " \t\n\r\v\f"[r.below(6)];
        else if (W == 1)
            s += r.chance(1, 3) ? "# comment" + std::string(r.below(20), 'c') + (r.chance(1, 2) ? "\n" : "\r\n") : r.chance(1, 2) ? "/* c\n */" : r.chance(1, 2) ? "\n" : "\t";
        else if (W == 3)
            s += r.chance(1, 3) ? "\\\n" : r.chance(1, 2) ? "\n" : " ";
        else
            s += " \t\n\r"[r.below(4)];
    return s;
}
struct Text
{
    std::string              s;
    std::vector<std::size_t> base;   // offset without the inserted whitespace, one more than the text
    std::vector<bool>        inserted;
    void                     add(const std::string& x, bool ins)
    {
        for (char c : x)
        {
            base.push_back(at);
            inserted.push_back(ins);
            s += c;
            at += !ins;
        }
    }
    std::size_t at = 0;
};
struct Result
{
    std::string              status, value;
    std::vector<std::string> errors, tokens;
    bool                     operator==(const Result&) const = default;
    std::string              str() const
    {
        auto r = status + " " + value;
        for (auto& e : errors)
            r += "\n    " + e;
        r += "\n   ";
        for (auto& t : tokens)
            r += " <" + vh::esc(t) + ">";
        return r;
    }
};
template <class P, class In>
Result observe(const In& in, const Text& t, const std::string& what)
{
    Result res;
    auto   begin = in.reader().position();
    auto   off   = [&](auto it) {
        auto p = std::size_t(std::distance(begin, it));
        return p < t.base.size() ? t.base[p] : t.at;
    };
    auto errors = [&](std::vector<std::string>& v) {
        return lexy::callback([&v, off](const auto& ctx, const auto& e) {
            std::string k = ctx.production();
            if constexpr (requires { e.string(); })
                k += " expected " + std::string(e.string(), e.string() + e.length());
            else if constexpr (requires { e.name(); })
                k += " expected " + std::string(e.name());
            else
                k += std::string(" ") + e.message() + ".." + std::to_string(off(e.end()));
            v.push_back(k + " at " + std::to_string(off(e.position())));
        });
    };
    auto r     = lexy::parse<P>(in, errors(res.errors));
    res.status = r.is_success() ? "success" : r.is_recovered_error() ? "recovered" : "fatal";
    if (r.has_value())
        res.value = r.value();
    lexy::parse_tree_for<In> tree;
    std::vector<std::string> errs;
    lexy::parse_as_tree<P>(tree, in, errors(errs));
    if (errs != res.errors)
        vh::violation("tree-errors", "parse and parse_as_tree report different errors of " + what);
    if (!tree.empty())
    {
        std::vector<bool> ws(t.s.size());
        for (auto [ev, node] : tree.traverse())
        {
            if (ev != lexy::traverse_event::leaf)
                continue;
            auto l = node.lexeme();
            auto b = std::size_t(std::distance(begin, l.begin())), e = std::size_t(std::distance(begin, l.end()));
            if (node.kind() == lexy::whitespace_token_kind)
                for (auto p = b; p < e; ++p)
                    ws[p] = true;
            else if (node.kind() != lexy::eof_token_kind)
            {
                std::string text;
                for (auto p = b; p < e; ++p)
                    if (node.kind() != lexy::error_token_kind || !t.inserted[p])
                        text += t.s[p];
                res.tokens.push_back(text);
            }
        }
        if (res.errors.empty() && !what.empty())
            for (std::size_t p = 0; p < ws.size(); ++p)
                if (ws[p] != t.inserted[p])
                {
                    vh::violation("whitespace-token", std::string(ws[p] ? "no whitespace was" : "whitespace was") + " inserted at " + std::to_string(p) + ", the tree says otherwise; " + what);
                    break;
                }
        vh::count("token_lexemes", res.tokens.size());
    }
    return res;
}
template <class E, class P>
Result run_as(int how, const Text& t, const std::string& what)
{
    using C = typename E::char_type;
    std::basic_string<C> u;
    for (unsigned char c : t.s)
        u += C(c);
    switch (how)
    {
    case 0: {
        vh::Exact<C> ex(u.data(), u.size());
        return observe<P>(lexy::string_input<E>(ex.data, ex.size), t, what);
    }
    case 1: return observe<P>(lexy::buffer<E>(u.data(), u.size()), t, what);
    default: {
        std::forward_list<C> l(u.begin(), u.end());
        return observe<P>(lexy::range_input<E, typename std::forward_list<C>::const_iterator>(l.cbegin(), l.cend()), t, what);
    }
    }
}
template <int W>
Result run(int how, const Text& t, const std::string& what)
{
    using P = w::Root<W>;
    switch (how)
    {
    case 0: return run_as<lexy::utf8_char_encoding, P>(0, t, what);
    case 1: return run_as<lexy::utf8_char_encoding, P>(1, t, what);
    case 2: return run_as<std::conditional_t<W % 2, lexy::utf16_encoding, lexy::utf32_encoding>, P>(1, t, what);
    default: return run_as<lexy::utf8_char_encoding, P>(2, t, what);
    }
}
static const char* hows[] = {"string", "buffer", "wide buffer", "range"};
template <int W>
void one(vh::Rng& r)
{
    Doc d(r);
    d.root();
    bool damaged = r.chance(1, 4) && d.pieces.size() > 2;
    if (damaged) // one token is something else
    {
        auto i = 1 + r.below(d.pieces.size() - 1);
        if (d.pieces[i].text.empty() || d.pieces[i].gap != outer || d.pieces[i].text.find(">>") != std::string::npos || std::string("\"%<[[&t&u").find(d.pieces[i].text) != std::string::npos) // these change what whitespace is
            damaged = false;
        else
            d.pieces[i].text = r.chance(1, 2) ? "$" : r.chance(1, 2) ? "}" : ",";
    }
    auto render = [&](int density, int skip = -1) {
        Text t;
        for (std::size_t i = 0; i < d.pieces.size(); ++i)
        {
            auto& p = d.pieces[i];
            t.add(p.text, false);
            if (int(i) == skip)
                t.add(p.gap == blank ? "\n" : " ", true);
            else if (density && (d.needed(i) || r.chance(density, 4)))
                t.add(space_of(p.gap, W, r, true), true);
            else if (d.needed(i))
                t.add(" ", true);
        }
        t.base.push_back(t.at);
        return t;
    };
    Text a = render(0);
    vh::begin_case("whitespace " + std::to_string(W) + ": " + vh::esc(a.s));
    auto base = run<W>(0, a, vh::esc(a.s));
    vh::count("documents");
    if (damaged)
        vh::count(base.errors.empty() ? "damage_without_effect" : "documents_with_errors");
    else if (base.status != "success")
    {
        vh::violation("document", "not accepted: " + vh::esc(a.s) + "\n  " + base.str());
        return;
    }
    for (int k = 0; k < 5; ++k)
    {
        Text t   = render(1 + int(r.below(4)));
        auto how = int(r.below(4));
        vh::begin_case("whitespace " + std::to_string(W) + ": " + vh::esc(t.s));
        auto got = run<W>(how, t, std::string(hows[how]) + " " + vh::esc(t.s));
        if (damaged ? got.errors != base.errors || got.status != base.status || got.value != base.value : !(got == base))
            vh::violation(damaged ? "inserted-errors" : "inserted",
                          std::string("as ") + hows[how] + " whitespace " + std::to_string(W) + " changes the result of " + vh::esc(a.s) + "\n  to " + vh::esc(t.s) + "\n  from " + base.str() + "\n  to   " + got.str());
        vh::count("insertions");
        vh::observe(t.s);
    }
    // where there is none
    if (!damaged)
        for (int k = 0; k < 3; ++k)
        {
            auto i = r.below(d.pieces.size());
            if (d.pieces[i].gap == outer || d.needed(i))
                continue;
            if (d.pieces[i].text.empty())
                continue;
            if (i + 1 < d.pieces.size() && d.pieces[i + 1].text.empty()) // the whitespace of the next production
                continue;
            Text t   = render(0, int(i));
            auto how = int(r.below(4));
            vh::begin_case("whitespace " + std::to_string(W) + ": " + vh::esc(t.s));
            auto got = run<W>(how, t, "");
            if (got == base)
                vh::violation("elsewhere", std::string("as ") + hows[how] + " whitespace is skipped inside of " + vh::esc(a.s) + "\n  as " + vh::esc(t.s) + "\n  " + got.str());
            vh::count("insertions_elsewhere");
        }
    if (r.chance(1, 500))
        vh::sample(vh::esc(a.s));
}
int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        vh::Rng r((vh::opt.seed * 5 + H15_SPACE) * 7919 + std::uint64_t(vh::opt.shard) * 263);
        auto    n = vh::cases(H15_CASES, H15_CASES * 100);
        for (std::uint64_t i = 0; i < n && !vh::too_many_violations(); ++i)
        {
            one<H15_SPACE>(r);
        }
    });
}
