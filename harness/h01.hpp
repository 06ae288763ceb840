// Hostile inputs for a grammar, through every action and kind of input; nothing is expected but to survive.
#pragma once
#include "vh.hpp"
#include <forward_list>
#include <iterator>
#include <pthread.h>
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/trace.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/argv_input.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/file.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/visualize.hpp>
#include <lexy_ext/report_error.hpp>
namespace hostile
{
inline lexy::visualization_options options(vh::Rng& r)
{
    lexy::visualization_options o;
    o.flags            = lexy::visualization_flags(r.below(16));
    o.max_tree_depth   = (unsigned char)r.below(33);
    o.max_lexeme_width = (unsigned char)(r.chance(1, 2) ? 0 : r.below(30));
    o.tab_width        = (unsigned char)r.below(9);
    return o;
}
template <class P, class In>
void report(const In& in, vh::Rng& r)
{
    std::string out;
    auto        cb  = lexy_ext::report_error.to(std::back_inserter(out)).opts(options(r));
    auto        res = r.chance(1, 2) ? lexy::validate<P>(in, cb) : lexy::validate<P>(in, cb.path("p"));
    vh::count(res.is_success() ? "accepted" : res.is_recovered_error() ? "recovered" : "rejected");
    vh::count("errors_reported", res.errors());
    vh::observe(out.substr(0, 400));
}
template <class P, class In>
void parse(const In& in)
{
    auto res = lexy::parse<P>(in, lexy::noop);
    vh::count(res.has_value() ? "values" : "no_values");
}
template <class P, class State, class In>
void parse_with(State& state, const In& in)
{
    auto res = lexy::parse<P>(in, state, lexy::noop);
    vh::count(res.has_value() ? "values" : "no_values");
}
template <class P, class In>
void tree(const In& in, vh::Rng& r)
{
    lexy::parse_tree_for<In> t;
    lexy::parse_as_tree<P>(t, in, lexy::noop);
    std::string out;
    lexy::visualize_to(std::back_inserter(out), t, options(r));
    std::size_t n = 0, depth = 0;
    if (!t.empty())
        for (auto [ev, node] : t.traverse())
        {
            if (ev == lexy::traverse_event::enter)
                ++depth;
            else if (ev == lexy::traverse_event::exit)
                --depth;
            else
                n += std::size_t(std::distance(node.lexeme().begin(), node.lexeme().end()));
        }
    vh::count("tree_bytes", n);
    // another one in the same memory
    lexy::parse_as_tree<P>(t, in, lexy::noop);
    vh::count("trees");
}
template <class P, class In>
void trace(const In& in, vh::Rng& r)
{
    std::string out;
    lexy::trace_to<P>(std::back_inserter(out), in, options(r));
    vh::count("trace_bytes", out.size());
}
template <class E, class Fn>
void string(const std::string& s, Fn f)
{
    using C = typename E::char_type;
    auto n  = s.size() / sizeof(C);
    vh::Exact<C> ex(reinterpret_cast<const C*>(s.data()), n);
    f(lexy::string_input<E>(ex.data, ex.size));
}
template <class E, class Fn>
void buffer(const std::string& s, Fn f)
{
    using C = typename E::char_type;
    lexy::buffer<E> b(reinterpret_cast<const C*>(s.data()), s.size() / sizeof(C));
    f(b);
}
template <class E, class Fn>
void range(const std::string& s, Fn f)
{
    using C = typename E::char_type;
    auto                 p = reinterpret_cast<const C*>(s.data());
    std::forward_list<C> l(p, p + s.size() / sizeof(C));
    f(lexy::range_input<E, typename std::forward_list<C>::const_iterator>(l.cbegin(), l.cend()));
}
// all of it; E must have characters of one byte
// (the location of every error is counted from the beginning: reports of long inputs take quadratic time)
constexpr std::size_t long_input = 3000;
template <class P, class E, bool Range = true>
void run(const std::string& s, vh::Rng& r)
{
    bool l = s.size() > long_input;
    string<E>(s, [&](const auto& in) { l ? (void)0 : report<P>(in, r), parse<P>(in), lexy::match<P>(in); });
    buffer<E>(s, [&](const auto& in) { l ? (void)0 : report<P>(in, r), tree<P>(in, r), parse<P>(in); });
    if (l)
        vh::count("long_inputs");
    else if constexpr (Range)
        range<E>(s, [&](const auto& in) { trace<P>(in, r); });
    else
        buffer<E>(s, [&](const auto& in) { trace<P>(in, r); });
}
struct Doc
{
    std::vector<std::string> samples, tokens;
};
inline std::string chunk(const Doc& d, vh::Rng& r)
{
    auto& s = d.samples[r.below(d.samples.size())];
    if (s.empty())
        return "";
    auto b = r.below(s.size());
    return s.substr(b, 1 + r.below(r.chance(1, 2) ? 6 : s.size()));
}
inline std::string bad(vh::Rng& r)
{
    static const std::string bs[] = {std::string(1, '\0'), "\xFF", "\xC0\x80", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xE2\x82", "\xF0\x9F", "\x80", "\xEF\xBB\xBF", "\xFE\xFF", "\r", "\r\n", "\n", "\t", "\x7F", "\x1B[31m",
                                     "\xE2\x80\xA8", "\xF0\x9F\x98\x80", "99999999999999999999999", "\\", "\\u", "\\uD800", "\\u0000", "%s%n", "\xC3\xA9"};
    return bs[r.below(sizeof bs / sizeof *bs)];
}
inline std::string make(const Doc& d, vh::Rng& r, std::size_t limit)
{
    std::string s;
    auto tok = [&] { return d.tokens[r.below(d.tokens.size())]; };
    switch (r.below(10))
    {
    case 0: // bytes
        for (int n = r.range(0, 40); n > 0; --n)
            s += char(r.below(256));
        break;
    case 1: // tokens
    case 2:
        for (int n = r.range(1, 40); n > 0; --n)
            s += tok() + (r.chance(1, 4) ? " " : "");
        break;
    case 3: { // nesting
        auto a = tok() + (r.chance(1, 3) ? tok() : ""), b = tok();
        auto n = r.chance(1, 30) ? r.below(3000) : r.below(60);
        for (auto i = n; i > 0; --i)
            s += a;
        s += chunk(d, r);
        for (auto i = n; i > 0 && r.chance(99, 100); --i)
            s += b;
        break;
    }
    default:
        s = d.samples[r.below(d.samples.size())];
    }
    for (int n = int(r.below(r.chance(1, 5) ? 12 : 4)); n > 0; --n)
    {
        auto p = r.below(s.size() + 1);
        switch (r.below(8))
        {
        case 0: s.insert(p, chunk(d, r)); break;
        case 1: s.insert(p, tok()); break;
        case 2: s.insert(p, bad(r)); break;
        case 3: s.resize(p); break; // truncated
        case 4: s.erase(p, 1 + r.below(r.chance(1, 2) ? 3 : 20)); break;
        case 5:
            if (!s.empty())
                s[p % s.size()] = char(r.below(256));
            break;
        case 6: s.erase(0, p); break;
        default:
            if (r.chance(1, limit > 3000 ? 3 : 30) && !s.empty()) // repeated until it is long
            {
                auto c = s.substr(p % s.size(), 1 + r.below(30));
                while (s.size() < limit / (1 + r.below(20)))
                    s.insert(p, c + c), c = c + c;
            }
            else
                s.insert(p, std::string(r.below(40), r.chance(1, 2) ? ' ' : char(r.below(256))));
        }
    }
    if (s.size() > limit)
        s.resize(limit);
    vh::count("bytes", s.size());
    return s;
}
// a big stack: the frames of sanitized code without optimization are large
inline int main(int argc, char** argv, void (*body)(vh::Rng&))
{
    static void (*fn)(vh::Rng&);
    fn = body;
    return vh::run(argc, argv, [] {
        pthread_attr_t attr;
        pthread_attr_init(&attr);
        pthread_attr_setstacksize(&attr, std::size_t(1) << 30);
        pthread_t t;
        auto      f = [](void*) -> void* {
            vh::Rng r(vh::opt.seed * 6151 + std::uint64_t(vh::opt.shard) * 331);
            fn(r);
            return nullptr;
        };
        if (pthread_create(&t, &attr, f, nullptr) != 0)
            std::abort();
        pthread_join(t, nullptr);
    });
}
} // namespace hostile
