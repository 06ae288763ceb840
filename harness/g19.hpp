// Scanner programs: each helper performs one documented scanner operation and checks the scanner's state around it.
#pragma once
#include "gdrive.hpp"
namespace g19
{
struct V // the values, in order
{
    std::string s;
    bool        first = true;
    void        add(const std::string& x)
    {
        s += (first ? "" : ",") + x;
        first = false;
    }
};
inline void bad(const char* key, const char* what)
{
    vh::violation(std::string("scanner-") + key, what);
}
template <class S>
void state(S& s)
{
    auto r = s.remaining_input().reader();
    if (!(r.position() == s.position()))
        bad("remaining-position", "remaining_input() does not begin at position()");
    if ((r.peek() == decltype(r)::encoding::eof()) != s.is_at_eof())
        bad("eof", "is_at_eof() disagrees with the remaining input");
    if (!(s.current().position() == s.position()))
        bad("current", "current() disagrees with position()");
    vh::count("scanner_steps");
}
// Runs op and checks that a failed scanner does nothing, and that ok = op() tells whether it succeeded.
template <class S, class F>
void step(S& s, F op)
{
    auto was = bool(s);
    auto pos = s.position();
    auto ok  = op();
    if (!was)
    {
        vh::count("refused_steps");
        if (bool(s) || ok || !(s.position() == pos))
            bad("works-after-error", "the scanner did something although it failed earlier");
    }
    else if (ok != bool(s))
        bad("state-result", "the scanner's state disagrees with the presence of a result");
    state(s);
}
template <class S, class R>
void none(S& s, V&, R rule)
{
    step(s, [&] {
        s.parse(rule);
        return bool(s);
    });
}
template <class S, class R>
void one(S& s, V& v, R rule)
{
    step(s, [&] {
        lexy::scan_result<gobs::As> r;
        s.parse(r, rule);
        if (r)
            v.add(r.value().s);
        return r.has_value();
    });
}
template <class S, class R>
void one2(S& s, V& v, R rule)
{
    step(s, [&] {
        auto r = s.template parse<gobs::As>(rule);
        if (r.has_value() != bool(r))
            bad("result-bool", "has_value() differs from the conversion to bool");
        auto had = r.has_value();
        auto x   = std::move(r).value_or(gobs::As(std::string("fallback"))).s;
        if (had)
            v.add(x);
        else if (x != "as(fallback)")
            bad("value-or", "value_or() did not return the fallback");
        return had;
    });
}
template <class P, class S>
void prod(S& s, V& v)
{
    step(s, [&] {
        auto r = s.parse(P{});
        if (r)
            v.add(r.value());
        return r.has_value();
    });
}
template <class P, class S>
void prod2(S& s, V& v)
{
    step(s, [&] {
        auto r = s.template parse<P>();
        if (r)
            v.add(std::move(r).value());
        return r.has_value();
    });
}
template <class P, class S>
void prodr(S& s, V& v)
{
    step(s, [&] {
        lexy::scan_result<std::string> r;
        s.parse(r, dsl::recurse<P>);
        if (r)
            v.add(r.value());
        return r.has_value();
    });
}
// scanner.integer<T>(digits) of the remaining input is dsl::integer<T>(digits)
template <class D>
struct IntP
{
    static constexpr auto name  = "int";
    static constexpr auto rule  = dsl::integer<int>(D{});
    static constexpr auto value = lexy::forward<int>;
};
template <class D, class S>
void integers(S& s)
{
    auto                     in = s.remaining_input();
    std::vector<std::string> e1, e2;
    auto                     r1 = lexy::parse<IntP<D>>(in, gobs::ErrLog{&e1});
    auto                     sc = lexy::scan(in, gobs::ErrLog{&e2});
    auto                     r2 = sc.template integer<int>(D{});
    auto                     end = sc.position();
    auto                     sub = std::move(sc).finish();
    for (auto* e : {&e1, &e2})
        for (auto& x : *e)
            x = x.substr(0, x.rfind(" in "));
    if (r1.has_value() != r2.has_value() || (r2.has_value() && r1.value() != r2.value()) || e1 != e2 || sub.is_success() != r1.is_success()
        || sub.is_recovered_error() != r1.is_recovered_error() || gobs::off(end) < gobs::off(s.position()))
        bad("integer", "integer<T>(digits) differs from the rule dsl::integer<T>(digits)");
    vh::count("integers");
}
template <class S>
void integer(S& s, V& v)
{
    step(s, [&] {
        integers<decltype(dsl::digits<>)>(s);
        integers<decltype(dsl::n_digits<3>)>(s);
        integers<decltype(dsl::digits<dsl::hex>.no_leading_zero())>(s);
        auto r = s.template integer<int, dsl::decimal, std::decay_t<decltype(dsl::digit<>)>>(dsl::digit<>);
        if (r)
            v.add(std::to_string(r.value()));
        return r.has_value();
    });
}
template <class S, class R>
void capture(S& s, V& v, R rule)
{
    step(s, [&] {
        auto r = s.capture(rule);
        if (r)
            v.add(gobs::show(r.value()));
        return r.has_value();
    });
}
template <class S, class F>
bool taken(S& s, F op)
{
    auto was = bool(s);
    auto pos = s.position();
    auto t   = op();
    if (!was)
    {
        vh::count("refused_steps");
        if (t || bool(s) || !(s.position() == pos))
            bad("works-after-error", "a branch did something although the scanner failed earlier");
    }
    else if (!t && (!bool(s) || !(s.position() == pos)))
        bad("untaken-branch", "a branch that was not taken changed the scanner");
    vh::count(t ? "branches_taken" : "branches_not_taken");
    state(s);
    return t;
}
template <class S, class R>
bool branch(S& s, R rule)
{
    return taken(s, [&] { return s.branch(rule); });
}
template <class S, class R>
bool peek(S& s, R rule)
{
    auto pos = s.position();
    auto was = bool(s);
    auto r   = taken(s, [&] { return s.peek(rule); });
    if (!(s.position() == pos) || bool(s) != was)
        bad("peek", "peek() changed the scanner");
    return r;
}
template <class S, class R>
void maybe(S& s, V& v, R rule)
{
    lexy::scan_result<gobs::As> r;
    auto                        was = bool(s);
    if (taken(s, [&] { return s.branch(r, rule); }))
    {
        if (r.has_value() != bool(s))
            bad("branch-result", "the result of a taken branch disagrees with the scanner's state");
        if (r)
            v.add(r.value().s);
    }
    else
    {
        if (r)
            bad("branch-result", "a branch that was not taken has a result");
        if (was)
            v.add("~");
    }
}
template <class P, class S>
void maybe_prod(S& s, V& v)
{
    lexy::scan_result<std::string> r;
    auto                           was = bool(s);
    if (taken(s, [&] { return s.template branch<P>(r); }))
    {
        if (r.has_value() != bool(s))
            bad("branch-result", "the result of a taken branch disagrees with the scanner's state");
        if (r)
            v.add(r.value());
    }
    else
    {
        if (r)
            bad("branch-result", "a branch that was not taken has a result");
        if (was)
            v.add("~");
    }
}
template <class S, class Tag>
void error(S& s, Tag tag)
{
    if (!s)
        return;
    auto pos = s.position();
    s.error(tag, s.position());
    if (!s || !(pos == s.position()))
        bad("error", "error() changed the scanner");
    state(s);
}
template <class S, class Tag>
void fatal(S& s, Tag tag)
{
    if (!s)
        return;
    auto pos = s.position();
    s.fatal_error(tag, s.position());
    if (s || !(pos == s.position()))
        bad("fatal-error", "fatal_error() did not make the scanner fail in place");
    state(s);
}
struct nothing
{};
template <class S, class L>
bool limited(S& s, L lim)
{
    if (s.is_at_eof())
        return true;
    if constexpr (std::is_same_v<L, nothing>)
        return false;
    else
        return s.peek(lim);
}
template <class S>
bool discard(S& s)
{
    auto pos = s.position();
    auto r   = s.discard(dsl::ascii::character);
    auto eof = s.remaining_input().reader();
    if (s || !r || s.position() == pos || !(++pos == s.position()))
        bad("discard", "discard() did not skip exactly one character");
    if (s.discard(LEXY_LIT("\x01\x02")) || !(s.position() == pos))
        bad("discard-mismatch", "discard() of a token that does not match succeeded or skipped input");
    vh::count("discarded");
    return r;
}
// refused until recovery is started
template <class S>
void refused(S& s)
{
    auto pos = s.position();
    lexy::scan_result<gobs::As> r;
    s.parse(dsl::any);
    s.parse(r, dsl::capture(dsl::any));
    if (s.branch(dsl::any) || s.branch(r, dsl::capture(dsl::any)) || s.peek(dsl::any) || s.discard(dsl::any) || s.capture(dsl::any) || bool(s) || r
        || !(pos == s.position()))
        bad("works-after-error", "the scanner did something although it failed earlier");
    vh::count("refused_steps", 7);
}
template <class S, class T, class L>
void find(S& s, T tok, L lim)
{
    refused(s);
    auto g = s.error_recovery();
    if (s)
        bad("recovery-state", "the scanner is ok during recovery");
    vh::count("recoveries");
    while (true)
    {
        if (s.peek(tok))
        {
            std::move(g).finish();
            if (!s)
                bad("recovery-finish", "the scanner isn't ok after recovery was finished");
            break;
        }
        if (limited(s, lim) || !discard(s))
        {
            std::move(g).cancel();
            if (s)
                bad("recovery-cancel", "the scanner is ok after recovery was cancelled");
            break;
        }
    }
    state(s);
}
template <class S, class T, class L>
void recover(S& s, T tok, L lim)
{
    refused(s);
    auto g = s.error_recovery();
    if (s)
        bad("recovery-state", "the scanner is ok during recovery");
    vh::count("recoveries");
    while (true)
    {
        if (s.branch(tok))
        {
            // only a scanner that did not fail takes an unconditional branch
            if (!s.branch(dsl::peek_not(LEXY_LIT("\x01\x02"))))
            {
                std::move(g).cancel();
                if (s)
                    bad("recovery-cancel", "the scanner is ok after recovery was cancelled");
                break;
            }
            std::move(g).finish();
            if (!s)
                bad("recovery-finish", "the scanner isn't ok after recovery was finished");
            break;
        }
        if (limited(s, lim) || !discard(s))
        {
            std::move(g).cancel();
            if (s)
                bad("recovery-cancel", "the scanner is ok after recovery was cancelled");
            break;
        }
    }
    state(s);
}
template <class P>
inline thread_local int active = 0;
template <class P, class S, class... A>
lexy::scan_result<std::string> run(S& s, A&... a)
{
    struct Enter
    {
        Enter()
        {
            ++active<P>;
        }
        ~Enter()
        {
            --active<P>;
        }
    } enter;
    if (!(s.begin() == s.position()) || !s)
        bad("begin", "the scanner doesn't begin at begin() in the ok state");
    if (active<P> != 1 && s.recursion_depth() != std::size_t(active<P> - 1))
        bad("depth", "recursion_depth() is wrong");
    auto begin = s.begin();
    V    v;
    (v.add(gobs::show(a)), ...);
    P::program(s, v);
    if (!(s.begin() == begin))
        bad("begin", "begin() changed");
    if (!s)
        return lexy::scan_failed;
    return v.s;
}
template <class P, class = void>
constexpr bool has_program = false;
template <class P>
constexpr bool has_program<P, std::void_t<typename P::scan_result>> = !P::sinks; // the control production has no sink
template <class P, class = void>
struct CtlWs
{};
template <class P>
struct CtlWs<P, std::void_t<decltype(P::whitespace)>>
{
    static constexpr auto whitespace = P::whitespace;
};
template <class P, class = void>
struct CtlDepth
{};
template <class P>
struct CtlDepth<P, std::void_t<decltype(P::max_recursion_depth)>>
{
    static constexpr auto max_recursion_depth = P::max_recursion_depth;
};
template <class P>
struct Ctl : CtlWs<P>, CtlDepth<P>
{};
template <class P, class In>
gobs::Obs run_action(const In& in)
{
    gobs::Obs o;
    gobs::value_log = &o.log;
    auto s          = lexy::scan<Ctl<P>>(in, gobs::ErrLog{&o.errors});
    V    v;
    if (!s || !(s.position() == in.reader().position()))
        bad("initial", "the scanner doesn't start at the beginning in the ok state");
    if constexpr (has_program<P> && lexy::_production_defines_whitespace<P>)
        none(s, v, dsl::whitespace(P::whitespace));
    if constexpr (has_program<P>)
    {
        P::prefix(s, v);
        P::program(s, v);
        if (s)
            o.value = gobs::Val{P::name}(v.s);
    }
    else
    {
        auto r = s.template parse<P>();
        if (r)
            o.value = r.value();
        if (r.has_value() != bool(s))
            bad("state-result", "the scanner's state disagrees with the presence of a result");
    }
    o.has_value     = bool(s);
    gobs::value_log = nullptr;
    o.consumed      = gobs::off(s.position());
    auto r          = std::move(s).finish();
    o.status        = gobs::status_of(r);
    if (r.errors() != o.errors.size())
        bad("error-count", "finish() returned the wrong number of errors");
    return o;
}
// errors without the name of the root production, which isn't the scanner's
inline std::vector<std::string> anonymous(const std::vector<std::string>& v, const std::vector<std::string>& model, bool root = true)
{
    if (!root)
        return v;
    std::vector<std::string> r;
    for (std::size_t i = 0; i < v.size(); ++i)
    {
        auto p = v[i].rfind(" in ");
        auto m = i < model.size() ? model[i].rfind(" in P0@") : std::string::npos;
        r.push_back(m != std::string::npos ? v[i].substr(0, p) : v[i]);
    }
    return r;
}
} // namespace g19
#ifndef G19_NO_MAKE
namespace gd
{
template <class P>
void extra(const Entry& e, const std::string& s, const Obs& m)
{
    gobs::with_string<lexy::utf8_char_encoding>(s, [&](const auto& in) {
        auto v = gobs::run_validate<P>(in);
        auto x = m;
        vh::expect(v.status == m.status && v.errors == m.errors, "validate-differs",
                   std::string("validate() of a scanning production differs on \"") + vh::esc(s) + "\"\n  grammar: " + e.model);
        auto a   = g19::run_action<P>(in);
        auto got = a;
        a.errors = g19::anonymous(got.errors, m.errors);
        x.errors = g19::anonymous(m.errors, m.errors);
        gd::compare("scan", e, s, x, a, false);
        return 0;
    });
}
template <class P>
Entry make(const char* name, const char* model)
{
    Entry e{name, model};
    e.parse = [](const std::string& s) {
        return gobs::with_string<lexy::utf8_char_encoding>(s, [](const auto& in) { return gobs::run_parse<P>(in); });
    };
    e.tree = [](const std::string& s) {
        return gobs::with_string<lexy::utf8_char_encoding>(s, [](const auto& in) { return gobs::run_tree<P>(in); });
    };
    e.extra = &extra<P>;
    return e;
}
} // namespace gd
#endif
