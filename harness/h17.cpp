// Visualization, traces and error reports against the renderer in diag.hpp.
#include "diag.hpp"
#include <forward_list>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/trace.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy_ext/report_error.hpp>
namespace dsl = lexy::dsl;
using diag::Opts;
using diag::Units;
static std::string show(const Units& u)
{
    std::string s;
    for (auto c : u)
        s += c > ' ' && c < 0x7F ? std::string(1, char(c)) : "{" + diag::hex(c, 2) + "}";
    return s;
}
//=== texts ===//
static const std::uint32_t points[] = {0x00, 0x07, 0x1B, 0x7F, 0x80, 0x85, 0x9F, 0xA0, 0xE9, 0x7FF, 0x800, 0x2028, 0x27E8, 0x23CE, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0x10000, 0x1F600, 0x10FFFF};
static void put(Units& u, std::uint32_t cp, diag::Enc enc)
{
    if (enc == diag::utf8)
        for (unsigned char c : u8::enc<char>(cp))
            u.push_back(c);
    else if (enc == diag::utf16)
        for (auto c : u8::enc<char16_t>(cp))
            u.push_back(c);
    else if (enc == diag::utf32)
        u.push_back(cp);
    else
        u.push_back(cp % 0xFF);
}
static std::uint32_t bad_unit(vh::Rng& r, diag::Enc enc) // never the unit that stands for the end of the input
{
    switch (enc)
    {
    case diag::utf8: return std::uint32_t(0x80 + r.below(0x7F));
    case diag::utf16: return std::uint32_t(0xD800 + r.below(0x800));
    case diag::utf32: return r.chance(1, 3) ? std::uint32_t(0xD800 + r.below(0x800)) : std::uint32_t(0x110000 + r.below(r.chance(1, 2) ? 0x10000 : 0xFF000000));
    default: return std::uint32_t(r.below(enc == diag::byte ? 256 : 255));
    }
}
static void piece(Units& u, vh::Rng& r, diag::Enc enc)
{
    switch (r.below(14))
    {
    case 0: u.push_back('\n'); break;
    case 1: u.push_back('\r'), u.push_back('\n'); break;
    case 2: u.push_back('\r'); break;
    case 3: u.push_back('\t'); break;
    case 4: u.push_back(' '); break;
    case 5: u.push_back('\\'); break;
    case 6:
    case 7: put(u, points[r.below(sizeof(points) / 4)], enc); break;
    case 8: u.push_back(bad_unit(r, enc)); break;
    case 9: u.push_back(std::uint32_t(r.below(32))); break;
    default: u.push_back(std::uint32_t('!' + r.below(94)));
    }
}
static Units text(vh::Rng& r, diag::Enc enc, std::uint64_t n)
{
    Units u;
    for (; n > 0; --n)
        piece(u, r, enc);
    return u;
}
template <class E, class F>
void with(const Units& u, vh::Rng& r, F f) // as some kind of input
{
    using C = typename E::char_type;
    std::vector<C> v;
    for (auto c : u)
        v.push_back(C(c));
    switch (r.below(3))
    {
    case 0: {
        vh::Exact<C> ex(v.data(), v.size());
        f(lexy::string_input<E>(ex.data, ex.size));
        break;
    }
    case 1: {
        lexy::buffer<E> b(v.data(), v.size());
        f(b);
        break;
    }
    default: {
        std::forward_list<C> l(v.begin(), v.end());
        f(lexy::range_input<E, typename std::forward_list<C>::const_iterator>(l.cbegin(), l.cend()));
    }
    }
}
//=== code points and lexemes ===//
static void code_points(vh::Rng& r)
{
    auto one = [&](std::uint32_t cp) {
        auto        o = Opts::random(r);
        std::string out;
        lexy::visualize_to(std::back_inserter(out), lexy::code_point(cp), o.real());
        if (diag::same(out, diag::code_point(cp, o), o, "code-point", "visualization of code point " + diag::hex(cp, 4)))
            if (auto w = lexy::visualization_display_width(lexy::code_point(cp), o.real()); w != diag::width(diag::code_point(cp, o)))
                vh::violation("display-width", "display width of code point " + diag::hex(cp, 4) + " is " + std::to_string(w));
    };
    auto shards = std::uint32_t(vh::opt.shards) * (vh::opt.thorough ? 1 : 8);
    for (auto cp = std::uint32_t((vh::opt.seed + std::uint64_t(vh::opt.shard) * 8) % shards); cp <= 0x10FFFF; cp += shards)
        one(cp);
    for (std::uint32_t cp = 0; cp < 0x180; ++cp)
        for (int k = 0; k < 20; ++k)
            one(cp);
    one(0x110000), one(0xFFFFFFFF), one(0xD800), one(0xDFFF);
    vh::count("code_points_shown", 0x110000 / shards);
}
template <class E>
void lexemes(vh::Rng& r, const char* name)
{
    constexpr auto enc = diag::enc_of<E>();
    auto           u   = text(r, enc, r.below(r.chance(1, 10) ? 60 : 12));
    auto           o   = Opts::random(r);
    vh::begin_case(std::string("lexeme ") + name + " " + show(u) + " " + o.str());
    with<E>(u, r, [&](const auto& in) {
        using In  = std::decay_t<decltype(in)>;
        auto b    = r.below(u.size() + 1);
        auto e    = b + r.below(u.size() - b + 1);
        auto base = in.reader().position();
        auto l    = lexy::lexeme_for<In>(std::next(base, long(b)), std::next(base, long(e)));
        bool mal  = false;
        auto want = diag::lexeme(u, b, e, enc, o, &mal);
        if (mal && o.width)
            o.width = 0, want = diag::lexeme(u, b, e, enc, o);
        std::string out;
        lexy::visualize_to(std::back_inserter(out), l, o.real());
        if (o.width && diag::characters(u, b, e, enc, o).size() == o.width)
        { // with or without ellipsis
            auto p  = o;
            p.width = 0;
            if (auto w = diag::lexeme(u, b, e, enc, p); (o.color ? diag::uncolor(out) : out) == w)
                want = w;
        }
        if (!diag::same(out, want, o, "lexeme", std::string("visualization of a lexeme (") + name + ")"))
            return;
        if (auto w = lexy::visualization_display_width(l, o.real()); w != diag::width(want))
            vh::violation("display-width", "display width is " + std::to_string(w) + ", expected " + std::to_string(diag::width(want)));
        // without options the code units can be read off
        std::string plain;
        lexy::visualize_to(std::back_inserter(plain), l, lexy::visualization_options{lexy::visualize_space});
        Units back;
        if (enc != diag::byte && enc != diag::utf32)
            if (!diag::unescape(plain, enc, back) || back != Units(u.begin() + long(b), u.begin() + long(e)))
                vh::violation("lexeme-read-back", "the code units cannot be read off: " + plain);
        if (r.chance(1, 40))
        {
            char*       mem = nullptr;
            std::size_t n   = 0;
            auto        f   = open_memstream(&mem, &n);
            lexy::visualize(f, l, o.real());
            std::fclose(f);
            if (std::string(mem, n) != out)
                vh::violation("visualize-file", "visualize() to a file differs from visualize_to()");
            std::free(mem);
        }
        vh::count("lexemes_shown");
        vh::observe(std::string(name) + out);
    });
}
//=== diagnostics ===//
template <class E>
void diagnostics(vh::Rng& r, const char* name)
{
    constexpr auto enc = diag::enc_of<E>();
    auto           u   = text(r, enc, r.below(r.chance(1, 10) ? 120 : 24));
    if (r.chance(1, 200))
        u.insert(u.begin(), std::size_t(r.range(1, 12000)), '\n');
    auto       o = Opts::random(r);
    diag::Text t{u, enc};
    auto       b = u.size() > 1000 ? u.size() - r.below(100) : r.below(u.size() + 1);
    auto       e = b + (r.chance(1, 2) ? r.below(std::min<std::size_t>(u.size() - b, 5) + 1) : r.below(u.size() - b + 1));
    bool       sized = r.chance(1, 2);
    if (sized && r.chance(1, 4))
        e += r.below(30);
    if (sized && e == b)
        ++e;
    vh::begin_case(std::string("annotation ") + name + " " + std::to_string(b) + ".." + std::to_string(e) + (sized ? " (size) " : " ")
                   + (u.size() < 1000 ? show(u) : std::to_string(u.size()) + " units") + " " + o.str());
    with<E>(u, r, [&](const auto& in) {
        using In                              = std::decay_t<decltype(in)>;
        auto                             base = in.reader().position();
        lexy_ext::diagnostic_writer<In>  w(in, o.real());
        auto                             loc  = lexy::get_input_location(in, std::next(base, long(b)));
        bool                             prim = r.chance(1, 2), judge = true;
        std::string                      out, want;
        auto                             it  = std::back_inserter(out);
        int                              called = 0;
        auto msg = [&](auto out, lexy::visualization_options) {
            ++called;
            for (char c : std::string("Message"))
                *out++ = c;
            return out;
        };
        static const std::pair<lexy_ext::diagnostic_kind, const char*> kinds[]
            = {{lexy_ext::diagnostic_kind::error, "error: "}, {lexy_ext::diagnostic_kind::warning, " warn: "}, {lexy_ext::diagnostic_kind::note, " note: "},
               {lexy_ext::diagnostic_kind::info, " info: "},  {lexy_ext::diagnostic_kind::debug, "debug: "},   {lexy_ext::diagnostic_kind::fixit, "fixit: "},
               {lexy_ext::diagnostic_kind::help, " help: "}};
        auto k = kinds[r.below(7)];
        it     = w.write_message(it, k.first, msg);
        want += std::string(k.second) + "Message\n";
        it = w.write_path(it, "some/path.txt");
        want += "some/path.txt\n";
        it = w.write_empty_annotation(it);
        want += diag::empty(o);
        auto kind = prim ? lexy_ext::annotation_kind::primary : lexy_ext::annotation_kind::secondary;
        it        = sized ? w.write_annotation(it, kind, loc, e - b, msg) : w.write_annotation(it, kind, loc, std::next(base, long(e)), msg);
        auto ann  = diag::annotation(t, b, e, prim ? "^" : "~", "Message", o, judge);
        want += ann;
        if (judge && (o.width == 0 || diag::uncolor(out) == want))
        {
            diag::same(out, want, o, "annotation", std::string("diagnostic in ") + name);
            if (called != 2)
                vh::violation("annotation-message", "the message was written " + std::to_string(called - 1) + " times");
            vh::count("annotations_shown");
        }
        vh::observe(std::string(name) + want);
    });
}
//=== a grammar with everything that is traced and reported ===//
namespace g
{
struct tag_range
{
    static constexpr auto name = "strange thing";
};
struct tag_missing
{
    static constexpr auto name = "missing =>";
};
constexpr auto ws = dsl::ascii::space / dsl::ascii::newline | LEXY_LIT("#") >> dsl::until(dsl::newline).or_eof();
struct Name
{
    static constexpr auto name = "a name";
    static constexpr auto rule = dsl::identifier(dsl::ascii::alpha).reserve(LEXY_KEYWORD("let", dsl::identifier(dsl::ascii::alpha)));
};
struct Number : lexy::token_production
{
    static constexpr auto rule = dsl::peek(dsl::digit<>) >> dsl::digits<>.sep(dsl::digit_sep_tick) + dsl::opt(dsl::lit_c<'.'> >> dsl::digits<>);
};
struct String : lexy::token_production
{
    static constexpr auto rule = dsl::delimited(dsl::lit_c<'"'>)(dsl::ascii::print, dsl::backslash_escape.rule(dsl::lit_c<'"'>).rule(dsl::lit_c<'n'>));
};
struct Item;
struct Nested
{
    static constexpr auto name           = "Nested";
    static constexpr auto rule           = dsl::parenthesized.limit(dsl::lit_c<';'>).try_(dsl::recurse<Item>);
};
struct Pair : lexy::transparent_production
{
    static constexpr auto rule = dsl::lit_c<'<'> >> dsl::p<Name> + LEXY_LIT("=>") + dsl::p<Number> + dsl::lit_c<'>'>;
};
struct Expr : lexy::expression_production
{
    static constexpr auto name = "Expr";
    static constexpr auto atom = dsl::p<Number> | dsl::lit_c<'x'> | dsl::error<tag_missing>;
    struct times : dsl::infix_op_left
    {
        static constexpr auto name = "times";
        static constexpr auto op   = dsl::op(dsl::lit_c<'*'>) / dsl::op(LEXY_LIT("\\\\"));
        using operand              = dsl::atom;
    };
    struct minus : dsl::prefix_op
    {
        static constexpr auto op = dsl::op(dsl::lit_c<'-'>);
        using operand            = times;
    };
    struct plus : dsl::infix_op_right
    {
        static constexpr auto op = dsl::op(LEXY_LIT("++"));
        using operand            = minus;
    };
    using operation = plus;
};
struct List
{
    static constexpr auto name = "list of things";
    static constexpr auto rule = dsl::square_bracketed.opt_list(dsl::recurse_branch<Item>, dsl::trailing_sep(dsl::comma));
};
struct Item
{
    static constexpr auto max_recursion_depth = 60;
    static constexpr auto rule
        = dsl::p<Nested> | dsl::p<List> | dsl::p<Pair> | dsl::p<String>
          | LEXY_KEYWORD("let", dsl::identifier(dsl::ascii::alpha)) >> dsl::p<Name> + LEXY_LIT("=>") + dsl::p<Number> | dsl::lit_c<'$'> >> dsl::p<Expr>
          | dsl::peek(dsl::lit_c<'%'>) >> dsl::error<tag_range>(dsl::lit_c<'%'> + dsl::until(dsl::lit_c<'%'>))
          | dsl::lit_c<'?'> >> LEXY_DEBUG("question") + LEXY_KEYWORD("maybe", dsl::identifier(dsl::ascii::alpha))
          | LEXY_LIT("\t\\x") >> dsl::lit_c<'!'> | dsl::lit_cp<0x20AC> >> dsl::lit_cp<0x1F600> | dsl::lit_c<'&'> >> dsl::code_point;
};
struct Root
{
    static constexpr auto whitespace = ws;
    static constexpr auto rule       = dsl::terminator(dsl::eof).opt_list(dsl::p<Item>, dsl::sep(dsl::semicolon));
};
} // namespace g
static std::string item(vh::Rng& r, int d)
{
    auto sp = [&] { return r.chance(1, 4) ? (r.chance(1, 2) ? "\n" : r.chance(1, 2) ? " " : "\r\n\t") : ""; };
    auto num = [&] { return std::to_string(r.below(3000)) + (r.chance(1, 5) ? ".5" : ""); };
    auto word = [&] {
        std::string w;
        for (int n = r.range(1, 5); n > 0; --n)
            w += char('a' + r.below(26));
        return w;
    };
    switch (r.below(d > 0 ? 16 : 11))
    {
    case 0: return std::string("let") + (r.chance(9, 10) ? " " : "") + word() + sp() + "=>" + sp() + num();
    case 1: return "<" + word() + sp() + "=>" + num() + sp() + ">";
    case 2: {
        std::string t = "\"" + word();
        if (r.chance(1, 2))
            t += r.chance(1, 2) ? "\\n" : r.chance(1, 2) ? "\\q" : "\t";
        return t + (r.chance(5, 6) ? "\"" : "");
    }
    case 3:
    case 4: {
        std::string t = "$";
        for (int n = r.range(0, 5); n > 0; --n)
            t += sp() + std::string(r.chance(1, 4) ? "-" : "") + num() + sp() + (r.chance(1, 3) ? "*" : r.chance(1, 2) ? "++" : "\\\\");
        return t + "x";
    }
    case 5: return "%" + word() + sp() + word() + (r.chance(4, 5) ? "%" : "");
    case 6: return "?" + std::string(sp()) + (r.chance(1, 2) ? "maybe" : word());
    case 7: return "\t\\x" + std::string(r.chance(1, 2) ? "!" : r.chance(1, 2) ? "" : "?");
    case 8: return "\xE2\x82\xAC" + std::string(r.chance(1, 2) ? "\xF0\x9F\x98\x80" : r.chance(1, 2) ? "\xF0\x9F\x98\x81" : "z");
    case 9: return std::string("&") + (r.chance(1, 2) ? "\xC3\xA9" : "q");
    case 10: return "#" + word() + "\n" + word();
    case 11:
    case 12:
    case 13: {
        std::string t = "[";
        for (int n = r.range(0, 4); n > 0; --n)
            t += sp() + item(r, d - 1) + sp() + (r.chance(9, 10) ? "," : ";");
        return t + (r.chance(9, 10) ? "]" : "");
    }
    default: return "(" + std::string(sp()) + item(r, d - 1) + sp() + (r.chance(5, 6) ? ")" : r.chance(1, 2) ? ";" : "");
    }
}
static Units program(vh::Rng& r, diag::Enc enc)
{
    std::string s;
    if (r.chance(1, 30))
    {
        auto n = r.below(80);
        s      = std::string(n, '(') + item(r, 1) + std::string(r.below(n + 1), ')');
    }
    for (int n = r.range(0, 4); n > 0; --n)
        s += item(r, r.range(0, 5)) + (r.chance(1, 4) ? "\n" : "") + ";";
    if (r.chance(1, 2) && !s.empty())
        s.pop_back();
    Units u;
    for (std::size_t p = 0; p < s.size();)
    {
        if (r.chance(1, 150))
        {
            piece(u, r, enc);
            if (enc == diag::utf32 && u.back() > 0x10FFFF)
                u.back() = 0xD800 + u.back() % 0x800; // whose bytes can be told apart in a trace
        }
        auto d = u8::dec(s.data() + p, s.size() - p);
        put(u, d.cp, enc);
        p += d.len ? d.len : 1; // an item may end in part of a character
        if (r.chance(1, 150))
            u.pop_back();
    }
    return u;
}
template <class E>
void grammar(vh::Rng& r, const char* name)
{
    constexpr auto enc = diag::enc_of<E>();
    auto           u   = program(r, enc);
    vh::begin_case(std::string("grammar ") + name + " " + show(u));
    diag::Text t{u, enc};
    with<E>(u, r, [&](const auto& in) {
        using In  = std::decay_t<decltype(in)>;
        auto base = in.reader().position();
        auto off  = [&](auto it) { return std::size_t(std::distance(base, it)); };
        auto what = std::string(" of ") + name + " " + show(u);
        // tree
        {
            lexy::parse_tree_for<In> tree;
            lexy::parse_as_tree<g::Root>(tree, in, lexy::noop);
            auto              o = Opts::random(r);
            std::string       out, want;
            std::vector<bool> last;
            if (!tree.empty())
            {
                bool judge = true;
                diag::tree(tree.root(), t, off, o, last, true, want);
                if (o.width)
                    diag::characters(u, 0, u.size(), enc, o, &(judge = false));
                lexy::visualize_to(std::back_inserter(out), tree, o.real());
                if (o.width == 0 || (o.color ? diag::uncolor(out) : out) == want)
                    diag::same(out, want, o, "tree", "visualization of the tree" + what);
                vh::count("trees_shown");
            }
        }
        // trace
        std::string plain;
        lexy::trace_to<g::Root>(std::back_inserter(plain), in);
        std::vector<diag::Event> evs;
        if (!diag::parse_trace(plain, enc, evs))
        {
            vh::violation("trace-read", "the trace cannot be read back" + what + "\n" + plain);
            return;
        }
        std::vector<std::size_t> lines;
        lines.push_back(0);
        for (std::size_t p = 0; p < u.size();)
            if (auto n = t.newline(p))
                p += n, lines.push_back(p);
            else
                ++p;
        for (auto& e : evs)
        {
            if (e.line > lines.size())
                vh::violation("trace-line", "line " + std::to_string(e.line) + " does not exist" + what);
            else if (e.kind == diag::Event::token || e.kind == diag::Event::backtrack)
            {
                auto p = lines[e.line - 1] + e.column - 1;
                if (!e.text.empty() && e.text[0] == '\n' && t.newline(p) == 2)
                    ++p; // the middle of a newline has the location of the newline
                if (p + e.text.size() > u.size() || !std::equal(e.text.begin(), e.text.end(), u.begin() + long(p)))
                    vh::violation("trace-text", "the text of " + e.name + " at " + std::to_string(e.line) + ":" + std::to_string(e.column) + " is not in the input there" + what + "\n" + plain);
            }
            vh::count("trace_events");
        }
        for (int k = 0; k < 2; ++k)
        {
            auto        o     = Opts::random(r);
            bool        judge = true;
            auto        want  = diag::trace(evs, enc, o, judge);
            std::string out;
            lexy::trace_to<g::Root>(std::back_inserter(out), in, o.real());
            if (judge && (o.width == 0 || (o.color ? diag::uncolor(out) : out) == want))
                diag::same(out, want, o, "trace", "trace" + what);
        }
        // report
        std::vector<diag::Error> errs;
        lexy::validate<g::Root>(in, diag::Recorder{&errs});
        auto        o     = Opts::random(r);
        auto        path  = r.chance(1, 2) ? "dir/file" : nullptr;
        bool        judge = true;
        std::string out, want;
        for (auto& e : errs)
            want += diag::report(t, e, path, o, judge);
        if (!errs.empty())
            want += "\n";
        auto cb  = lexy_ext::report_error.to(std::back_inserter(out)).opts(o.real()).path(path);
        auto res = lexy::validate<g::Root>(in, cb);
        if (res.errors() != errs.size())
            vh::violation("report-count", "report_error counts " + std::to_string(res.errors()) + " errors" + what);
        if (judge && (o.width == 0 || diag::uncolor(out) == want))
            diag::same(out, want, o, "report", "report" + what);
        // the trace shows the same errors
        std::size_t n    = 0;
        bool        deep = false;
        for (auto& e : evs)
            deep |= e.depth == 32;
        for (auto& e : evs)
            if (!deep && e.kind == diag::Event::error && n++ < errs.size())
            {
                auto& x = errs[n - 1];
                auto  p = e.line <= lines.size() ? lines[e.line - 1] + e.column - 1 : 0;
                Opts  d;
                auto  l = diag::lexeme(x.expected, 0, x.expected.size(), enc, d);
                auto  m = x.kind == diag::Error::literal ? "expected '" + l + "'" : x.kind == diag::Error::keyword ? "expected keyword '" + l + "'" : x.kind == diag::Error::char_class ? "expected " + x.text : x.text;
                if (p + 1 == x.begin && t.newline(p) == 2)
                    ++p;
                if (p != x.begin || m != e.name)
                    vh::violation("trace-error", "the trace has the error " + e.name + " at " + std::to_string(p) + ", reported is " + m + " at " + std::to_string(x.begin) + what);
            }
        if (!deep && n != errs.size())
            vh::violation("trace-error", "the trace has " + std::to_string(n) + " errors, reported are " + std::to_string(errs.size()) + what);
        vh::count("errors_shown", errs.size());
        vh::observe(std::string(name) + plain);
        if (r.chance(1, 300))
            vh::sample(show(u));
    });
}
//=== names of token kinds; big locations ===//
namespace k
{
enum class kind
{
    word,
    number,
    other
};
const char* token_kind_name(kind x)
{
    return x == kind::word ? "Word" : x == kind::number ? "Number" : "Other";
}
constexpr auto word = dsl::identifier(dsl::ascii::alpha);
struct Root
{
    static constexpr auto name = "root";
    static constexpr auto rule = dsl::while_(word.pattern().kind<kind::word> | dsl::digits<>.kind<kind::number> | LEXY_LIT("<>").kind<kind::other> | dsl::lit_c<0x7C>.kind<kind::other>
                                             | dsl::lit_c<'.'>)
                                 + dsl::eof;
};
struct Far
{
    static constexpr auto name = "far";
    static constexpr auto rule = dsl::token(dsl::until(dsl::lit_c<'!'>)) + dsl::lit_c<'a'> + dsl::eof;
};
} // namespace k
static void kinds(vh::Rng& r)
{
    static const std::pair<const char*, const char*> pieces[]
        = {{"abc", "Word"}, {"12", "Number"}, {"<>", "Other"}, {"|", "Other"}, {".", "literal"}};
    std::string s, want = " 1:  1: root:\n", tree = "root:\n";
    int         before = -1;
    for (int n = r.range(0, 6); n > 0; --n)
    {
        int p = int(r.below(5));
        if (p == before && p < 2)
            continue;
        before = p;
        char buf[32];
        std::snprintf(buf, sizeof buf, "%2u:%3u: - ", 1u, unsigned(s.size() + 1));
        want += std::string(buf) + pieces[p].second + ": " + pieces[p].first + "\n";
        tree += std::string("- ") + pieces[p].second + ": " + pieces[p].first + "\n";
        s += pieces[p].first;
    }
    char buf[64];
    std::snprintf(buf, sizeof buf, " 1:%3u: - EOF\n 1:%3u: - finish\n", unsigned(s.size() + 1), unsigned(s.size() + 1));
    want += buf;
    tree += "- EOF\n";
    vh::begin_case("token kinds " + s);
    vh::Exact<char> ex(s.data(), s.size());
    auto            in = lexy::string_input<lexy::utf8_char_encoding>(ex.data, ex.size);
    std::string     out;
    lexy::trace_to<k::Root, k::kind>(std::back_inserter(out), in);
    diag::same(out, want, Opts{}, "token-kinds", "trace with token kinds of " + s);
    lexy::parse_tree_for<decltype(in), k::kind> t;
    if (!lexy::parse_as_tree<k::Root>(t, in, lexy::noop))
        vh::violation("token-kinds", "cannot parse " + s);
    out.clear();
    lexy::visualize_to(std::back_inserter(out), t);
    diag::same(out, tree, Opts{}, "token-kinds", "tree with token kinds of " + s);
    // the same in a file
    char*       mem = nullptr;
    std::size_t n   = 0;
    auto        f   = open_memstream(&mem, &n);
    lexy::visualize(f, t);
    lexy::trace<k::Root, k::kind>(f, in);
    std::fclose(f);
    if (std::string(mem, n) != tree + want)
        vh::violation("visualize-file", "the tree and trace in a file are\n" + std::string(mem, n));
    std::free(mem);
    vh::count("kind_traces");
}
static void far(vh::Rng& r)
{
    auto lines = std::size_t(10000000 + r.below(1000)), cols = std::size_t(1000000 + r.below(1000));
    vh::begin_case("a token at " + std::to_string(lines) + ":" + std::to_string(cols));
    auto s = std::string(lines - 1, '\n') + std::string(cols - 2, 'x') + "!b";
    auto in = lexy::string_input<lexy::utf8_char_encoding>(s.data(), s.size());
    Opts o;
    o.width = 3;
    std::string out;
    lexy::trace_to<k::Far>(std::back_inserter(out), in, o.real());
    auto loc  = std::to_string(lines) + ":" + std::to_string(cols) + ": ";
    auto want = " 1:  1: far:\n 1:  1: - any: \\n\\n\\n...\n" + loc + "- error: expected 'a'\n" + loc + "-x\n";
    for (auto name : {"any", "token"})
        if (out.find(std::string(" - ") + name + ": ") != out.npos)
            want.replace(want.find("any"), 3, name);
    diag::same(out, want, o, "trace-far", "trace at " + loc);
    out.clear();
    auto cut = in;
    std::string report;
    lexy::validate<k::Far>(cut, lexy_ext::report_error.to(std::back_inserter(report)).opts(o.real()));
    if (report.find("\n" + std::to_string(lines) + " | xxx...b\n") == report.npos)
        vh::violation("report-far", "the report of an error at " + loc + " is\n" + report);
    vh::count("far_locations");
}
int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        vh::Rng r(vh::opt.seed * 4099 + std::uint64_t(vh::opt.shard) * 31337);
        vh::begin_case("code points");
        code_points(r);
        if (vh::opt.shard == 0)
            far(r);
        auto n = vh::cases(28000, 3000000);
        for (std::uint64_t i = 0; i < n && !vh::too_many_violations(); ++i)
        {
            lexemes<lexy::utf8_char_encoding>(r, "utf8_char");
            lexemes<lexy::utf8_encoding>(r, "utf8");
            lexemes<lexy::utf16_encoding>(r, "utf16");
            lexemes<lexy::utf32_encoding>(r, "utf32");
            lexemes<lexy::default_encoding>(r, "default");
            lexemes<lexy::ascii_encoding>(r, "ascii");
            lexemes<lexy::byte_encoding>(r, "byte");
            diagnostics<lexy::utf8_char_encoding>(r, "utf8_char");
            diagnostics<lexy::utf16_encoding>(r, "utf16");
            diagnostics<lexy::utf32_encoding>(r, "utf32");
            diagnostics<lexy::default_encoding>(r, "default");
            diagnostics<lexy::byte_encoding>(r, "byte");
            kinds(r);
            switch (i % 3)
            {
            case 0: grammar<lexy::utf8_char_encoding>(r, "utf8_char"); break;
            case 1: grammar<lexy::utf16_encoding>(r, "utf16"); break;
            case 2: grammar<lexy::utf32_encoding>(r, "utf32"); break;
            }
        }
    });
}
