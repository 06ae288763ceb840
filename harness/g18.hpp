// Generated grammars on inputs shared by all threads.
#pragma once
#include "gdrive.hpp"
#include <lexy/action/scan.hpp>
#include <lexy/action/trace.hpp>
#include <lexy/visualize.hpp>
#include <lexy_ext/report_error.hpp>
namespace gd
{
using Text   = lexy::string_input<lexy::utf8_char_encoding>;
using Buffer = lexy::buffer<lexy::utf8_char_encoding>;
struct Shared
{
    std::string s;
    Text        text;
    Buffer      buffer;
    explicit Shared(std::string x) : s(std::move(x)), text(s.data(), s.size()), buffer(s.data(), s.size()) {}
    Shared(const char* p, std::size_t n) : text(p, n), buffer(p, n) {} // memory of the caller
    Shared(const Shared&) = delete;
};
inline std::string digest(const Obs& o)
{
    std::string r = std::to_string(o.status) + "\n" + o.value + "\n" + o.tree;
    for (auto& e : o.errors)
        r += "\n" + e;
    for (auto& l : o.log)
        r += "\n" + l;
    return r;
}
constexpr int kinds = 7;
inline constexpr const char* kind_names[] = {"parse", "parse_as_tree", "validate", "match", "trace", "report_error", "parse of a buffer"};
template <class P>
std::string job(int kind, const void* p)
{
    auto& in   = *static_cast<const Shared*>(p);
    gobs::base = in.text.data();
    switch (kind)
    {
    case 0: return digest(gobs::run_parse<P>(in.text));
    case 1: {
        Obs                        o;
        lexy::parse_tree_for<Text> t;
        auto                       r = lexy::parse_as_tree<P>(t, in.text, gobs::ErrLog{&o.errors});
        o.status                     = gobs::status_of(r);
        gobs::read_tree(t, o);
        std::string out;
        lexy::visualize_to(std::back_inserter(out), t, {lexy::visualize_fancy});
        return digest(o) + out;
    }
    case 2: return digest(gobs::run_validate<P>(in.text));
    case 3: return lexy::match<P>(in.text) ? "matches" : "does not match";
    case 4: {
        std::string out;
        lexy::trace_to<P>(std::back_inserter(out), in.text);
        return out;
    }
    case 5: {
        std::string out;
        auto        r = lexy::validate<P>(in.text, lexy_ext::report_error.to(std::back_inserter(out)).path("path"));
        return std::to_string(r.errors()) + out;
    }
    default: gobs::base = in.buffer.data(); return digest(gobs::run_parse<P>(in.buffer));
    }
}
template <class P>
Entry make(const char* name, const char* model)
{
    Entry e{name, model};
    e.job = &job<P>;
    return e;
}
} // namespace gd
