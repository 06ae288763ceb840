// What visualization, traces and error reports should look like, written from scratch.
#pragma once
#include "u8.hpp"
#include "vh.hpp"
#include <lexy/visualize.hpp>
#include <string>
#include <vector>
namespace diag
{
enum Enc
{
    utf8,
    utf16,
    utf32,
    ascii,
    text, // one byte characters that are not Unicode
    byte
};
template <class E>
constexpr Enc enc_of()
{
    if constexpr (std::is_same_v<E, lexy::ascii_encoding>)
        return ascii;
    else if constexpr (lexy::is_byte_encoding<E>)
        return byte;
    else if constexpr (!lexy::is_unicode_encoding<E>)
        return text;
    else
        return sizeof(typename E::char_type) == 1 ? utf8 : sizeof(typename E::char_type) == 2 ? utf16 : utf32;
}
using Units = std::vector<std::uint32_t>; // code units of any encoding
struct Opts
{
    bool     unicode = false, color = false, symbols = false, space = false;
    unsigned depth = 32, width = 0, tab = 0;
    lexy::visualization_options real() const
    {
        lexy::visualization_options o;
        o.flags            = lexy::visualization_flags((unicode ? lexy::visualize_use_unicode : 0) | (color ? lexy::visualize_use_color : 0)
                                                       | (symbols ? lexy::visualize_use_symbols : 0) | (space ? lexy::visualize_space : 0));
        o.max_tree_depth   = (unsigned char)depth;
        o.max_lexeme_width = (unsigned char)width;
        o.tab_width        = (unsigned char)tab;
        return o;
    }
    std::string str() const
    {
        return std::string("[") + (unicode ? "unicode " : "") + (color ? "color " : "") + (symbols ? "symbols " : "") + (space ? "space " : "") + "depth="
               + std::to_string(depth) + " width=" + std::to_string(width) + " tab=" + std::to_string(tab) + "]";
    }
    static Opts random(vh::Rng& r, bool limits = true)
    {
        Opts o;
        o.unicode = r.chance(1, 2), o.color = r.chance(1, 2), o.symbols = r.chance(1, 2), o.space = r.chance(1, 2);
        if (r.chance(1, 3))
            o.tab = unsigned(r.range(1, 9));
        if (limits && r.chance(1, 3))
            o.depth = unsigned(r.below(33));
        if (limits && r.chance(1, 4))
            o.width = unsigned(r.range(1, 12));
        return o;
    }
};
inline std::string hex(std::uint32_t v, int n)
{
    std::string s;
    for (; n > 0 || v; --n, v /= 16)
        s.insert(s.begin(), "0123456789ABCDEF"[v % 16]);
    return s;
}
inline std::string special(const std::string& u, const std::string& plain, const Opts& o)
{
    return o.unicode ? "\u27E8" + u + "\u27E9" : "\\" + plain;
}
inline std::string code_point(std::uint32_t c, const Opts& o)
{
    if (c > 0x10FFFF)
        return special("U+????", "u????", o);
    if (c == ' ')
        return !o.space ? " " : o.symbols ? "\u2423" : special("SP", "u0020", o);
    if (c == '\t' && o.tab)
    {
        std::string r;
        for (unsigned i = 0; i < o.tab; ++i)
            r += code_point(' ', o);
        return r;
    }
    if (c == '\\')
        return o.unicode ? "\\" : "\\\\";
    if (c > ' ' && c < 0x7F)
        return std::string(1, char(c));
    if (c == 0)
        return special("NUL", "0", o);
    if (c == '\r')
        return special("CR", "r", o);
    if (c == '\n')
        return o.symbols ? "\u23CE" : special("LF", "n", o);
    if (c == '\t')
        return o.symbols ? "\u21E8" : special("HT", "t", o);
    return special("U+" + hex(c, 4), c < 0x10000 ? "u" + hex(c, 4) : "U" + hex(c, 8), o);
}
inline std::string raw_byte(unsigned b, const Opts& o)
{
    return special("0x" + hex(b, 2), "x" + hex(b, 2), o);
}
// every code unit is shown; characters that cannot be decoded as their bytes
inline std::vector<std::string> characters(const Units& s, std::size_t b, std::size_t e, Enc enc, const Opts& o, bool* malformed = nullptr)
{
    std::vector<std::string> r;
    for (auto p = b; p < e;)
    {
        if (enc == byte)
        {
            r.push_back(special(hex(s[p], 2), hex(s[p], 2), o));
            ++p;
            continue;
        }
        u8::Dec d{0, 0};
        if (enc == text || enc == ascii)
            d = s[p] < 0x80 ? u8::Dec{1, s[p]} : u8::Dec{0, 0};
        else if (enc == utf8)
        {
            std::string t;
            for (auto i = p; i < e && i < p + 4; ++i)
                t += char(s[i]);
            d = u8::dec(t.data(), t.size());
        }
        else if (enc == utf16)
        {
            std::u16string t;
            for (auto i = p; i < e && i < p + 2; ++i)
                t += char16_t(s[i]);
            d = u8::dec(t.data(), t.size());
        }
        else
            d = u8::scalar(s[p]) ? u8::Dec{1, s[p]} : u8::Dec{0, 0};
        if (d.len)
        {
            r.push_back(code_point(d.cp, o));
            p += d.len;
            continue;
        }
        if (malformed && enc != text)
            *malformed = true;
        std::string t;
        bool        seen = false;
        for (int shift = 24; shift >= 0; shift -= 8)
        {
            auto x = (s[p] >> shift) & 0xFF;
            seen |= x != 0 || shift == 0;
            if (seen)
                t += raw_byte(x, o);
        }
        r.push_back(t);
        ++p;
    }
    return r;
}
// shortened to the maximal width; whether a text of exactly the maximal width is followed by an ellipsis is not specified
inline std::string lexeme(const Units& s, std::size_t b, std::size_t e, Enc enc, const Opts& o, bool* malformed = nullptr)
{
    auto        c = characters(s, b, e, enc, o, malformed);
    std::string r;
    for (std::size_t i = 0; i < c.size(); ++i)
    {
        r += c[i];
        if (o.width && i + 1 == o.width)
            return r + (o.unicode ? "\u2026" : "...");
    }
    return r;
}
inline std::size_t width(const std::string& s) // cells
{
    std::size_t n = 0;
    for (unsigned char c : s)
        n += c < 0x80 || c >= 0xC0;
    return n;
}
// removes color sequences; reports malformed ones
inline std::string uncolor(const std::string& s, bool* bad = nullptr)
{
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] != '\033')
        {
            r += s[i];
            continue;
        }
        auto j = i + 1;
        if (j < s.size() && s[j] == '[')
            for (++j; j < s.size() && ((s[j] >= '0' && s[j] <= '9') || s[j] == ';');)
                ++j;
        if (bad && (j >= s.size() || s[j] != 'm'))
            *bad = true;
        i = j;
    }
    return r;
}
// compares the output with the expected one under the given options
inline bool same(const std::string& got, const std::string& want, const Opts& o, const char* key, const std::string& what)
{
    bool bad  = false;
    auto text = o.color ? uncolor(got, &bad) : got;
    vh::count("outputs_compared");
    if (text == want && !bad)
        return true;
    vh::violation(key, what + " with " + o.str() + ":\n" + text + "\n--- expected:\n" + want + (bad ? "\n(malformed color sequence)" : ""));
    return false;
}
//=== locations and annotations in an input ===//
struct Text
{
    Units s;
    Enc   enc;
    std::size_t newline(std::size_t p) const
    {
        if (p >= s.size())
            return 0;
        if (s[p] == '\n')
            return 1;
        return s[p] == '\r' && p + 1 < s.size() && s[p + 1] == '\n' ? 2 : 0;
    }
    struct Line
    {
        std::size_t nr, begin, end, next; // end before the newline, next after it
    };
    Line line(std::size_t pos) const
    {
        if (enc == byte)
        {
            // the last byte of a line is its newline
            auto b = pos / 16 * 16, e = std::min(b + 16, s.size());
            return {pos / 16 + 1, b, e == b + 16 ? e - 1 : e, e};
        }
        Line l{1, 0, 0, 0};
        while (true)
        {
            l.end = l.begin;
            while (l.end < s.size() && !newline(l.end))
                ++l.end;
            l.next = l.end + newline(l.end);
            if (pos < l.next || l.next == l.end)
                return l;
            l = {l.nr + 1, l.next, 0, 0};
        }
    }
    bool inside(std::size_t p) const
    {
        if (p >= s.size())
            return false;
        return enc == utf8 ? (s[p] & 0xC0) == 0x80 : enc == utf16 ? s[p] >= 0xDC00 && s[p] < 0xE000 : false;
    }
};
// the line with the range [begin, end) marked; begin + size for sized ranges may be beyond the end
inline std::string annotation(const Text& t, std::size_t begin, std::size_t end, const char* mark, const std::string& message, const Opts& o, bool& judge)
{
    auto l = t.line(begin);
    // a position inside of a newline belongs to it
    if (begin > l.end)
        begin = l.end;
    auto want = end;
    if (end <= begin)
        want = end = begin == l.end ? l.next : begin + 1;
    end = std::min(end, l.next);
    while (end < l.next && t.inside(end))
        ++end;
    if (end > l.end)
        end = l.next;
    std::string r  = std::to_string(l.nr);
    while (r.size() < 4)
        r = " " + r;
    std::string col = o.unicode ? "\u2502" : "|";
    r += " " + col + " ";
    bool mal    = false;
    auto before = lexeme(t.s, l.begin, begin, t.enc, o, &mal), marked = lexeme(t.s, begin, end, t.enc, o, &mal);
    r += before + marked + lexeme(t.s, end, std::max(l.end, end), t.enc, o, &mal) + "\n     " + col + " ";
    r += std::string(width(before), ' ');
    auto n = width(marked);
    if (n == 0 || (want > l.next && l.next == l.end)) // the end of the input is marked as well
        ++n;
    for (; n > 0; --n)
        r += mark;
    r += " " + message + "\n";
    if (mal && o.width)
        judge = false; // how malformed units are counted is not specified
    return r;
}
inline std::string empty(const Opts& o)
{
    return std::string("     ") + (o.unicode ? "\u2502" : "|") + "\n";
}
struct Error
{
    std::string production;
    std::size_t context, begin, end;
    enum Kind
    {
        literal,
        keyword,
        char_class,
        message
    } kind;
    Units       expected; // literal or keyword
    std::size_t index = 0;
    std::string text;
};
inline std::string report(const Text& t, const Error& e, const char* path, const Opts& o, bool& judge)
{
    auto r = "error: while parsing " + e.production + "\n";
    if (path)
        r += std::string(path) + "\n";
    r += empty(o);
    if (t.line(e.context).nr != t.line(e.begin).nr)
        r += annotation(t, e.context, e.context + 1, "~", "beginning here", o, judge) + empty(o);
    auto msg = e.text;
    auto end = e.end;
    auto lit = lexeme(e.expected, 0, e.expected.size(), t.enc, o);
    if (e.kind == Error::literal)
        msg = "expected '" + lit + "'", end = e.begin + e.index + 1;
    else if (e.kind == Error::keyword)
        msg = "expected keyword '" + lit + "'";
    else if (e.kind == Error::char_class)
        msg = "expected " + e.text, end = e.begin + 1;
    return r + annotation(t, e.begin, end, "^", msg, o, judge);
}
// records errors in the form above
template <class C>
Units units(const C* p, std::size_t n)
{
    Units r;
    for (std::size_t i = 0; i < n; ++i)
        r.push_back(sizeof(C) == 1 ? std::uint32_t((unsigned char)p[i]) : std::uint32_t(p[i]));
    return r;
}
struct Recorder
{
    std::vector<Error>* out;
    struct Sink
    {
        std::vector<Error>* out;
        using return_type = std::size_t;
        template <class Ctx, class Reader, class Tag>
        void operator()(const Ctx& ctx, const lexy::error<Reader, Tag>& e)
        {
            auto  first = ctx.input().reader().position();
            auto  off   = [&](auto it) { return std::size_t(std::distance(first, it)); };
            Error r;
            r.production = ctx.production();
            r.context    = off(ctx.position());
            r.begin = r.end = off(e.position());
            if constexpr (std::is_same_v<Tag, lexy::expected_literal>)
            {
                r.kind     = Error::literal;
                r.expected = units(e.string(), e.length());
                r.index    = e.index();
            }
            else if constexpr (std::is_same_v<Tag, lexy::expected_keyword>)
            {
                r.kind     = Error::keyword;
                r.expected = units(e.string(), e.length());
                r.end      = off(e.end());
            }
            else if constexpr (std::is_same_v<Tag, lexy::expected_char_class>)
            {
                r.kind = Error::char_class;
                r.text = e.name();
            }
            else
            {
                r.kind = Error::message;
                r.text = e.message();
                r.end  = off(e.end());
            }
            out->push_back(r);
        }
        std::size_t finish() &&
        {
            return out->size();
        }
    };
    Sink sink() const
    {
        return Sink{out};
    }
};
//=== trees ===//
template <class Node, class Off>
void tree(const Node& n, const Text& t, Off off, const Opts& o, std::vector<bool>& last, bool is_last, std::string& r)
{
    auto depth = last.size();
    if (depth > o.depth)
        return;
    if (depth > 0)
    {
        for (std::size_t i = 1; i < depth; ++i)
            r += !o.unicode ? "  " : last[i] ? "   " : "\u2502  ";
        r += !o.unicode ? "- " : is_last ? "\u2514\u2500\u2500" : "\u251C\u2500\u2500";
    }
    r += n.kind().name();
    if (n.kind().is_token())
    {
        auto l = n.lexeme();
        auto p = o;
        p.space = true;
        if (l.begin() != l.end())
            r += ": " + lexeme(t.s, off(l.begin()), off(l.end()), t.enc, p);
        r += "\n";
        return;
    }
    r += ":";
    if (depth == o.depth)
        r += o.unicode ? " \u2026" : " ...";
    r += "\n";
    last.push_back(is_last);
    auto kids = n.children();
    for (auto it = kids.begin(); it != kids.end();)
    {
        auto k = *it;
        ++it;
        tree(k, t, off, o, last, it == kids.end(), r);
    }
    last.pop_back();
}
//=== traces ===//
struct Event
{
    std::size_t line, column, depth;
    enum Kind
    {
        start,
        finish,
        cancel,
        token,
        backtrack,
        error,
        recovery,
        operation,
        debug
    } kind;
    std::string name; // or message
    Units       text;
};
// reads back what was written without color, Unicode, symbols and limits
inline bool unescape(const std::string& s, Enc enc, Units& out)
{
    auto put = [&](std::uint32_t cp) {
        if (enc == utf8)
        {
            for (unsigned char c : u8::enc<char>(cp))
                out.push_back(c);
        }
        else if (enc == utf16)
            for (auto c : u8::enc<char16_t>(cp))
                out.push_back(c);
        else
            out.push_back(cp);
    };
    auto number = [&](std::size_t& i, int n, std::uint32_t& v) {
        v = 0;
        for (; n > 0; --n, ++i)
        {
            auto p = i < s.size() ? std::strchr("0123456789ABCDEF", s[i]) : nullptr;
            if (!p || !*p)
                return false;
            v = v * 16 + std::uint32_t(p - "0123456789ABCDEF" < 16 ? (*p <= '9' ? *p - '0' : *p - 'A' + 10) : 0);
        }
        return true;
    };
    for (std::size_t i = 0; i < s.size();)
    {
        if (s[i] != '\\')
        {
            if (s[i] <= ' ' || s[i] > 0x7E)
                return false;
            put((unsigned char)s[i++]);
            continue;
        }
        if (++i == s.size())
            return false;
        std::uint32_t v;
        switch (s[i++])
        {
        case '0': put(0); break;
        case 'n': put('\n'); break;
        case 'r': put('\r'); break;
        case 't': put('\t'); break;
        case '\\': put('\\'); break;
        case 'u':
            if (!number(i, 4, v))
                return false;
            put(v);
            break;
        case 'U':
            if (!number(i, 8, v))
                return false;
            put(v);
            break;
        case 'x':
            if (!number(i, 2, v))
                return false;
            if (enc == utf16 || enc == utf32) // malformed units are surrogates: two bytes
            {
                std::uint32_t w;
                if (i + 2 > s.size() || s[i] != '\\' || s[i + 1] != 'x' || (i += 2, !number(i, 2, w)))
                    return false;
                v = v * 256 + w;
            }
            out.push_back(v);
            break;
        default:
            return false;
        }
    }
    return true;
}
inline bool parse_trace(const std::string& out, Enc enc, std::vector<Event>& evs)
{
    std::size_t i = 0;
    while (i < out.size())
    {
        auto e = out.find('\n', i);
        if (e == out.npos)
            return false;
        auto l = out.substr(i, e - i);
        i      = e + 1;
        unsigned line, col;
        int      n = 0;
        if (std::sscanf(l.c_str(), "%u:%u: %n", &line, &col, &n) != 2 || n == 0)
            return false;
        // %n skips all white space; the prefix is exactly one space
        n = int(l.find(": ", l.find_first_of("0123456789", l.find(':'))) + 2);
        Event ev{line, col, 0, Event::start, "", {}};
        auto  p = std::size_t(n);
        while (l.compare(p, 2, "  ") == 0)
            p += 2, ++ev.depth;
        auto rest = l.substr(p);
        if (rest == "-x")
            ev.kind = Event::cancel, ++ev.depth;
        else
        {
            if (rest.compare(0, 2, "- ") == 0)
                ++ev.depth, rest = rest.substr(2);
            else if (ev.depth != 0)
                return false;
            // productions at the maximal depth have an ellipsis instead of children
            if (ev.depth == 32 && rest.size() > 5 && rest.compare(rest.size() - 5, 5, ": ...") == 0)
            {
                auto name = rest.substr(0, rest.size() - 5);
                bool tok  = false;
                for (auto n : {"error token", "any", "backtracked", "literal", "whitespace", "token", "EOF", "identifier", "digits"})
                    tok |= name == n;
                if (!tok)
                    rest = name + ":";
            }
            if (rest == "finish" && ev.depth > 0)
                ev.kind = Event::finish;
            else if (rest == "error recovery:")
                ev.kind = Event::recovery;
            else if (rest.compare(0, 7, "error: ") == 0)
                ev.kind = Event::error, ev.name = rest.substr(7);
            else if (rest.compare(0, 7, "debug: ") == 0)
                ev.kind = Event::debug, ev.name = rest.substr(7);
            else if (rest.compare(0, 11, "operation: ") == 0)
                ev.kind = Event::operation, ev.name = rest.substr(11);
            else if (!rest.empty() && rest.back() == ':' && rest.find(": ") == rest.npos)
                ev.name = rest.substr(0, rest.size() - 1);
            else
            {
                auto c = rest.find(": ");
                ev.name = rest.substr(0, c);
                ev.kind = ev.name == "backtracked" ? Event::backtrack : Event::token;
                if (c != rest.npos && !unescape(rest.substr(c + 2), enc, ev.text))
                    return false;
            }
        }
        evs.push_back(ev);
    }
    return true;
}
// the same events under other options; error messages are given as they are without options
inline std::string trace(const std::vector<Event>& evs, Enc enc, const Opts& o, bool& judge)
{
    std::string r;
    for (auto& e : evs)
    {
        if (e.depth > o.depth)
            continue;
        char buf[64];
        std::snprintf(buf, sizeof buf, "%2zu:%3zu: ", e.line, e.column);
        r += buf;
        for (std::size_t i = 1; i < e.depth; ++i)
            r += o.unicode ? "\u2502  " : "  ";
        if (e.kind == Event::cancel)
            r += o.unicode ? "\u2514\u2573" : "-x";
        else if (e.kind == Event::finish)
            r += o.unicode ? "\u2534" : "- finish";
        else if (e.depth > 0)
            r += o.unicode ? "\u251C\u2500\u2500" : "- ";
        auto dots = e.depth == o.depth ? (o.unicode ? " \u2026" : " ...") : "";
        auto p    = o;
        p.space   = true;
        bool mal  = false;
        switch (e.kind)
        {
        case Event::start: r += e.name + ":" + dots; break;
        case Event::recovery: r += std::string("error recovery:") + dots; break;
        case Event::token:
        case Event::backtrack:
            r += e.name;
            if (!e.text.empty())
                r += ": " + lexeme(e.text, 0, e.text.size(), enc, p, &mal);
            break;
        case Event::error: {
            // the literal in the message follows the options
            auto m = e.name;
            for (const char* lead : {"expected '", "expected keyword '"})
            {
                Units u;
                auto  k = std::strlen(lead);
                if (m.compare(0, k, lead) == 0 && m.size() > k && m.back() == '\'')
                {
                    std::string t; // literal spaces are not escaped in messages
                    for (char c : m.substr(k, m.size() - k - 1))
                        t += c == ' ' ? "\\u0020" : std::string(1, c);
                    if (unescape(t, enc, u))
                        m = lead + lexeme(u, 0, u.size(), enc, o, &mal) + "'";
                }
            }
            r += "error: " + m;
            break;
        }
        case Event::debug: r += "debug: " + e.name; break;
        case Event::operation: r += "operation: " + e.name; break;
        default: break;
        }
        if (mal && o.width)
            judge = false;
        r += "\n";
    }
    return r;
}
} // namespace diag
