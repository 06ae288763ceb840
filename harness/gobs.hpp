// Observers of the real parser: run a grammar on an input through the public API and record what
// can be seen (errors, values, tree, trace) in the same form as the reference model.
#pragma once
#include "gm.hpp"
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/scan.hpp>
#include <lexy/action/trace.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/dsl/subgrammar.hpp>
#include <lexy/input/argv_input.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/lexeme_input.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <iterator>
#include <type_traits>

namespace gobs
{
namespace dsl = lexy::dsl;
using gm::Obs;

//=== checked forward iterator ===//
// Knows its whole range; moving or reading outside of it is reported as a violation.
template <class CharT>
struct Fwd
{
    using value_type        = CharT;
    using reference         = const CharT&;
    using pointer           = const CharT*;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;

    const CharT* first = nullptr;
    const CharT* last  = nullptr;
    std::size_t  i     = 0;

    reference operator*() const
    {
        if (first + i >= last)
        {
            vh::violation("range-iterator-read-past-end", "dereferenced the end iterator of a range input");
            std::abort();
        }
        return first[i];
    }
    Fwd& operator++()
    {
        if (first + i >= last)
        {
            vh::violation("range-iterator-advanced-past-end", "incremented the end iterator of a range input");
            std::abort();
        }
        ++i;
        return *this;
    }
    Fwd operator++(int)
    {
        auto c = *this;
        ++*this;
        return c;
    }
    friend bool operator==(const Fwd& a, const Fwd& b)
    {
        return a.i == b.i;
    }
    friend bool operator!=(const Fwd& a, const Fwd& b)
    {
        return a.i != b.i;
    }
};

//=== offsets ===//
inline thread_local const void* base = nullptr; // begin of the input being parsed
inline thread_local std::vector<std::string>* value_log = nullptr;

template <class CharT>
std::size_t off(const CharT* p)
{
    return std::size_t(p - static_cast<const CharT*>(base));
}
template <class CharT>
std::size_t off(const Fwd<CharT>& f)
{
    return f.i;
}
template <class It>
auto off(const It& it) -> decltype(it.gobs_index())
{
    return it.gobs_index();
}

inline thread_local const lexy::argv_iterator* argv_base = nullptr;
inline std::size_t off(lexy::argv_iterator it)
{
    std::size_t n = 0;
    for (auto p = *argv_base; !(p == it); ++p)
        ++n;
    return n;
}

template <class It>
std::string text_of(It b, It e)
{
    std::string r;
    for (; b != e; ++b)
        r += char(*b);
    return r;
}

//=== values ===//
template <class Reader>
std::string show(const lexy::lexeme<Reader>& l)
{
    return "'" + vh::esc(text_of(l.begin(), l.end())) + "'@" + std::to_string(off(l.begin()));
}
inline std::string show(const std::string& s)
{
    return s;
}
inline std::string show(lexy::nullopt)
{
    return "~";
}
inline std::string show(bool b)
{
    return b ? "true" : "false";
}
inline std::string show(int i)
{
    return std::to_string(i);
}
template <class CharT>
std::string show(const CharT* p)
{
    return "@" + std::to_string(off(p));
}
template <class CharT>
std::string show(const Fwd<CharT>& p)
{
    return "@" + std::to_string(off(p));
}
inline std::string show(lexy::argv_iterator p)
{
    return "@" + std::to_string(off(p));
}
enum Flag : int
{
};
inline std::string show(Flag f)
{
    return "F" + std::to_string(int(f));
}
#ifdef GOBS_TRACKED
// A value whose whole life is watched: constructed once, moved but never copied, delivered to one
// callback or sink, destroyed once.
struct Str
{
    struct Payload
    {
        std::string s;
        int         delivered;
    };
    static inline long    live = 0, made = 0, delivered = 0, throw_at = 0;
    static inline Payload gone; // payload of a moved-from object
    Payload*              p;
    Str*                  self; // detects objects that are moved bytewise or never constructed
    Str(std::string s) : p(nullptr), self(this)
    {
        if (++made == throw_at)
            throw made;
        p = new Payload{std::move(s), 0};
        ++live;
    }
    Str(const char* s) : Str(std::string(s)) {}
    Str(Str&& o) noexcept : p(o.p), self(this)
    {
        o.check("moved from");
        o.p = &gone;
    }
    Str& operator=(Str&& o) noexcept
    {
        check("assigned to");
        o.check("moved from");
        auto q = o.p;
        o.p    = &gone;
        drop();
        p = q;
        return *this;
    }
    ~Str()
    {
        check("destroyed");
        drop();
        self = nullptr;
        p    = nullptr;
    }
    void drop()
    {
        if (p != &gone)
        {
            delete p;
            --live;
        }
        p = &gone;
    }
    void check(const char* what) const
    {
        if (self != this || !p)
        {
            vh::violation("value-corrupt", std::string("a value that is not alive (destroyed, never constructed, or copied bytewise) is ") + what);
            std::abort();
        }
    }
    const std::string& get() const
    {
        check("read");
        if (p == &gone)
            vh::violation("value-used-after-move", "a callback was given a value that had already been moved from");
        else if (++p->delivered > 1)
            vh::violation("value-delivered-twice", "the value " + p->s + " was delivered more than once");
        ++delivered;
        return p->s;
    }
};
inline std::string show(const Str& s)
{
    return s.get();
}
#else
using Str = std::string;
#endif
struct As
{
    Str s;
    As() : s("as()") {}
#ifndef GOBS_TRACKED
    As(const As&) = default;
    As& operator=(const As&) = default;
#endif
    As(As&&)      = default;
    As& operator=(As&&)      = default;
    template <class H, class... T, class = std::enable_if_t<!std::is_same_v<std::decay_t<H>, As>>>
    As(H&& h, T&&... t) : s(text(h, t...))
    {}
    template <class H, class... T>
    static std::string text(const H& h, const T&... t)
    {
        auto s = "as(" + show(h);
        ((s += "," + show(t)), ...);
        return s + ")";
    }
};
inline std::string show(const As& a)
{
    return show(a.s);
}

struct ListSink
{
    using return_type = Str;
    std::string s     = "[";
    template <class... A>
    void operator()(A&&... a)
    {
        s += "<";
        bool first = true;
        ((s += (first ? "" : ","), s += show(a), first = false), ...);
        s += ">";
    }
    Str finish() &&
    {
        return s + "]";
    }
};
struct Val
{
    const char* name;
    using return_type = Str;
    template <class... A>
    Str operator()(A&&... a) const
    {
        std::string s = name;
        s += "(";
        bool first = true;
        ((s += (first ? "" : ","), s += show(a), first = false), ...);
        s += ")";
        if (value_log)
            value_log->push_back(s);
        return s;
    }
    ListSink sink() const
    {
        return {};
    }
};

//=== errors ===//
template <class CharT>
std::string narrow(const CharT* s, std::size_t n)
{
    std::string r;
    for (std::size_t i = 0; i < n; ++i)
        r += char(s[i]);
    return r;
}
inline std::string at(std::size_t b, std::size_t e)
{
    return "@" + std::to_string(b) + "-" + std::to_string(e);
}
template <class Reader>
std::string describe(const lexy::error<Reader, lexy::expected_literal>& e)
{
    auto p = off(e.position());
    return "lit:" + vh::esc(narrow(e.string(), e.length())) + ":" + std::to_string(e.index()) + at(p, p);
}
template <class Reader>
std::string describe(const lexy::error<Reader, lexy::expected_keyword>& e)
{
    return "kw:" + vh::esc(narrow(e.string(), e.length())) + at(off(e.begin()), off(e.end()));
}
template <class Reader>
std::string describe(const lexy::error<Reader, lexy::expected_char_class>& e)
{
    auto p = off(e.position());
    return std::string("cc:") + e.name() + at(p, p);
}
template <class Reader, class Tag>
std::string describe(const lexy::error<Reader, Tag>& e)
{
    return std::string(e.message()) + at(off(e.begin()), off(e.end()));
}
// position() and the range must agree for generic errors
template <class Reader, class Tag>
std::string consistent(const lexy::error<Reader, Tag>& e)
{
    if constexpr (!std::is_same_v<Tag, lexy::expected_literal> && !std::is_same_v<Tag, lexy::expected_char_class>
                  && !std::is_same_v<Tag, lexy::expected_keyword>)
        if (!(e.position() == e.begin()))
            return " (position() differs from begin())";
    return "";
}

struct ErrLog
{
    std::vector<std::string>* out;
    struct Sink
    {
        std::vector<std::string>* out;
        std::size_t               n = 0;
        using return_type         = std::size_t;
        template <class Ctx, class Err>
        void operator()(const Ctx& ctx, const Err& err)
        {
            ++n;
            out->push_back(describe(err) + " in " + ctx.production() + "@" + std::to_string(off(ctx.position()))
                           + consistent(err));
        }
        std::size_t finish() &&
        {
            return n;
        }
    };
    Sink sink() const
    {
        return Sink{out};
    }
};

template <class Result>
int status_of(const Result& r)
{
    int s = r.is_success() ? 0 : r.is_recovered_error() ? 1 : r.is_fatal_error() ? 2 : 3;
    int n = int(r.is_success()) + int(r.is_recovered_error()) + int(r.is_fatal_error());
    if (n != 1 || bool(r) != r.is_success() || r.is_error() == r.is_success())
        return 4;
    return s;
}

//=== actions ===//
template <class G, class In>
Obs run_parse(const In& in)
{
    Obs o;
    value_log = &o.log;
    auto r    = lexy::parse<G>(in, ErrLog{&o.errors});
    value_log = nullptr;
    o.status  = status_of(r);
    o.has_value = r.has_value();
    if (r.has_value())
        o.value = show(r.value());
    if (r.errors() != o.errors.size())
        o.errors.push_back("(error count mismatch)");
    return o;
}
template <class G, class In>
Obs run_validate(const In& in)
{
    Obs  o;
    auto r   = lexy::validate<G>(in, ErrLog{&o.errors});
    o.status = status_of(r);
    if (r.errors() != o.errors.size())
        o.errors.push_back("(error count mismatch)");
    return o;
}
template <class Node>
void walk(const Node& n, std::string& out, std::string& text, Obs& o)
{
    if (n.kind().is_token())
    {
        auto l = n.lexeme();
        ++o.token_count;
        auto t = text_of(l.begin(), l.end());
        auto b = off(l.begin());
        text += t;
        out += std::string(n.kind().name()) + "[" + std::to_string(b) + "-" + std::to_string(b + t.size()) + " " + vh::esc(t) + "]";
        return;
    }
    ++o.prod_count;
    out += std::string(n.kind().name()) + "{";
    for (auto c : n.children())
    {
        walk(c, out, text, o);
        out += " ";
    }
    out += "}";
}
template <class Tree>
void read_tree(const Tree& t, Obs& o)
{
    o.has_tree = !t.empty();
    if (t.empty())
        return;
    std::string text;
    walk(t.root(), o.tree, text, o);
    auto rem   = t.remaining_input();
    o.consumed = off(rem.begin());
    o.lossless = text + text_of(rem.begin(), rem.end());
}
template <class G, class In>
Obs run_tree(const In& in)
{
    Obs                      o;
    lexy::parse_tree_for<In> t;
    auto                     r = lexy::parse_as_tree<G>(t, in, ErrLog{&o.errors});
    o.status                   = status_of(r);
    read_tree(t, o);
    if (r.errors() != o.errors.size())
        o.errors.push_back("(error count mismatch)");
    return o;
}
template <class G, class In>
bool run_match(const In& in)
{
    return lexy::match<G>(in);
}

//=== things used by the generated grammars ===//
constexpr auto vowel = LEXY_CHAR_CLASS("vowel", dsl::lit_c<'a'> / dsl::lit_c<'e'> / dsl::lit_c<'i'> / dsl::lit_c<'o'> / dsl::lit_c<'u'>);
enum class Kind
{
    k
};
struct tag0
{
    static constexpr auto name = "tag0";
};
struct tag1
{
    static constexpr auto name = "tag1";
};
struct tag2
{
    static constexpr auto name = "tag2";
};
struct c0;
struct c1;
struct c2;
struct f0;
struct i0;
template <int N>
Str eff()
{
    return "E" + std::to_string(N);
}

// Exactly sized heap copy as string_input: reads beyond the end hit a redzone.
template <class Encoding, class F>
auto with_string(const std::string& s, F f)
{
    using C = typename Encoding::char_type;
    std::vector<C> tmp;
    for (unsigned char c : s)
        tmp.push_back(C(c));
    vh::Exact<C> ex(tmp.data(), tmp.size());
    base = ex.data;
    return f(lexy::string_input<Encoding>(ex.data, ex.size));
}
template <class Encoding, class F>
auto with_buffer(const std::string& s, F f)
{
    using C = typename Encoding::char_type;
    std::vector<C> tmp;
    for (unsigned char c : s)
        tmp.push_back(C(c));
    lexy::buffer<Encoding> buf(tmp.data(), tmp.size());
    base = buf.data();
    return f(buf);
}
template <class Encoding, class F>
auto with_range(const std::string& s, F f)
{
    using C = typename Encoding::char_type;
    std::vector<C> tmp;
    for (unsigned char c : s)
        tmp.push_back(C(c));
    vh::Exact<C> ex(tmp.data(), tmp.size());
    Fwd<C>       b{ex.data, ex.data + ex.size, 0}, e{ex.data, ex.data + ex.size, ex.size};
    return f(lexy::range_input<Encoding, Fwd<C>>(b, e));
}
// command line arguments, which are separated by \0
template <class Encoding, class F>
auto with_argv(const std::string& s, F f)
{
    std::vector<std::string> args{"program"};
    if (!s.empty() || (vh::hash(s) & 1))
    {
        args.emplace_back();
        for (char c : s)
            if (c == '\0')
                args.emplace_back();
            else
                args.back() += c;
    }
    std::vector<char*> argv; // each in an exactly sized allocation of its own
    for (auto& a : args)
    {
        auto p = static_cast<char*>(std::malloc(a.size() + 1));
        std::memcpy(p, a.c_str(), a.size() + 1);
        argv.push_back(p);
    }
    argv.push_back(nullptr);
    auto begin = lexy::argv_begin(int(args.size()), argv.data());
    argv_base  = &begin;
    struct Free
    {
        std::vector<char*>& v;
        ~Free()
        {
            for (auto p : v)
                std::free(p);
        }
    } guard{argv};
    return f(lexy::argv_input<Encoding>(int(args.size()), argv.data()));
}
template <class Encoding, class F>
auto with_zstring(const std::string& s, F f)
{
    using C = typename Encoding::char_type;
    std::vector<C> tmp;
    for (unsigned char c : s)
        tmp.push_back(C(c));
    tmp.push_back(C());
    vh::Exact<C> ex(tmp.data(), tmp.size());
    base = ex.data;
    return f(lexy::zstring_input<Encoding>(ex.data));
}
// not aligned, not at the beginning of an allocation
template <class Encoding, class F>
auto with_unaligned(const std::string& s, F f)
{
    using C = typename Encoding::char_type;
    std::vector<C> tmp;
    auto           k = vh::hash(s) % 8;
    for (std::size_t i = 0; i < k; ++i)
        tmp.push_back(C("a1 \n()x,"[i]));
    for (unsigned char c : s)
        tmp.push_back(C(c));
    vh::Exact<C> ex(tmp.data(), tmp.size());
    base = ex.data + k;
    return f(lexy::string_input<Encoding>(ex.data + k, ex.size - k));
}
// the input is embedded in a larger buffer with hostile surroundings
template <class Encoding, class F>
auto with_lexeme(const std::string& s, F f)
{
    using C = typename Encoding::char_type;
    std::vector<C> tmp;
    for (char c : {'a', '(', ' '})
        tmp.push_back(C(c));
    auto n0 = tmp.size();
    for (unsigned char c : s)
        tmp.push_back(C(c));
    auto n1 = tmp.size();
    // what follows would continue most tokens
    for (char c : s.substr(s.size() > 4 ? s.size() - 4 : 0))
        tmp.push_back(C(c));
    for (char c : {'a', '1', ',', ')', ' ', '*', '/', '\n'})
        tmp.push_back(C(c));
    lexy::buffer<Encoding> buf(tmp.data(), tmp.size());
    base = buf.data() + n0;
    using L = lexy::lexeme_for<lexy::buffer<Encoding>>;
    lexy::lexeme_input<lexy::buffer<Encoding>> in(buf, L(buf.data() + n0, buf.data() + n1));
    return f(in);
}
} // namespace gobs
