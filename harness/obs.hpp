// Runs a production through lexy::parse and records status, errors and value as plain data.
#pragma once
#include "vh.hpp"
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/string_input.hpp>
#include <string>
#include <type_traits>
namespace dsl = lexy::dsl;
namespace obs
{
struct Err
{
    std::string kind;
    std::size_t b, e;
    bool        operator==(const Err&) const = default;
};
enum Status
{
    success,
    recovered,
    fatal
};
struct Out
{
    Status           status = fatal;
    std::vector<Err> errs;
    std::string      value;
    std::string      str() const
    {
        std::string r = status == success ? "success" : status == recovered ? "recovered" : "fatal";
        for (auto& e : errs)
            r += " {" + e.kind + " " + std::to_string(e.b) + ".." + std::to_string(e.e) + "}";
        return r + (status == fatal ? "" : " value " + value);
    }
    bool operator==(const Out&) const = default;
};
template <class Enc, class C>
std::string narrow(const C* p, std::size_t n)
{
    std::string r;
    for (std::size_t i = 0; i < n; ++i)
        if (auto v = std::uint32_t(std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>(p[i])); v < 0x100)
            r += char(v);
        else
            r += "\\x{" + std::to_string(v) + "}";
    return r;
}
template <class Reader, class Tag>
std::string kind(const lexy::error<Reader, Tag>& e)
{
    return std::string(e.message());
}
template <class Reader>
std::string kind(const lexy::error<Reader, lexy::expected_literal>& e)
{
    return "expected literal " + narrow<typename Reader::encoding>(e.string(), e.length()) + " at " + std::to_string(e.index());
}
template <class Reader>
std::string kind(const lexy::error<Reader, lexy::expected_keyword>& e)
{
    return "expected keyword " + narrow<typename Reader::encoding>(e.string(), e.length());
}
template <class Reader>
std::string kind(const lexy::error<Reader, lexy::expected_char_class>& e)
{
    return "expected class " + std::string(e.name());
}
template <class Reader, class Tag>
std::size_t err_end_len(const lexy::error<Reader, Tag>& e)
{
    if constexpr (std::is_same_v<Tag, lexy::expected_literal> || std::is_same_v<Tag, lexy::expected_char_class>)
        return 0;
    else
        return std::size_t(std::distance(e.begin(), e.end()));
}
template <class Begin>
auto collector(std::vector<Err>& errs, Begin begin)
{
    return lexy::callback([&errs, begin](const auto&, const auto& e) {
        auto b = std::size_t(std::distance(begin, e.position()));
        errs.push_back({kind(e), b, b + err_end_len(e)});
    });
}
// P's value is convertible to std::string
template <class P, class Input>
Out parse(const Input& in)
{
    Out  o;
    auto r   = lexy::parse<P>(in, collector(o.errs, in.reader().position()));
    o.status = r.is_success() ? success : r.is_recovered_error() ? recovered : fatal;
    if (r.has_value())
        o.value = r.value();
    if (bool(r.has_value()) != (o.status != fatal) || r.error_count() != o.errs.size() || r.is_error() == (o.status == success))
        vh::violation("result-consistency", "the result object is inconsistent: " + o.str());
    if ((o.status == success) != o.errs.empty())
        vh::violation("status-errors", "success is not the absence of errors: " + o.str());
    if (lexy::match<P>(in) != (o.status == success))
        vh::violation("match-agreement", "match disagrees with " + o.str());
    return o;
}
template <class Enc, class C>
std::basic_string<typename Enc::char_type> widen(const std::basic_string<C>& s)
{
    return {s.begin(), s.end()};
}
} // namespace obs
