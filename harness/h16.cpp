// The parse state, context variables and the recursion depth, compared with plain variables.
#include "vh.hpp"
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/scan.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/dsl/subgrammar.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/string_input.hpp>
namespace dsl = lexy::dsl;
// must be the very object that is passed to the action
struct State
{
    mutable std::vector<std::string> log;
    State()             = default;
    State(const State&) = delete;
    State& operator=(const State&) = delete;
    void   note(std::string what) const
    {
        if (this != expected)
            vh::violation("state-identity", "the state is another object when it is accessed by " + what);
        else
            log.push_back(std::move(what));
        vh::count("state_accesses");
    }
    static const State* expected;
};
const State* State::expected = nullptr;
struct Other // what the state is mapped to
{
    const State* s;
};
namespace g
{
struct Node;
struct Block;
struct Sub;
} // namespace g
LEXY_DECLARE_SUBGRAMMAR(g::Sub)
namespace g
{
constexpr auto cnt  = dsl::context_counter<struct cnt_id>;
constexpr auto flag = dsl::context_flag<struct flag_id>;
struct too_deep
{
    static constexpr auto name = "too deep";
};
template <char C>
constexpr auto c = dsl::lit_c<C>;
void effect_a(const State& s)
{
    s.note("a");
}
void effect_g(const State& s)
{
    s.note("g");
}
struct B
{
    static constexpr auto rule  = c<'b'>;
    static constexpr auto value = lexy::callback_with_state<void>([](const State& s) { s.note("b"); });
};
struct C : lexy::scan_production<void>
{
    template <class Reader, class Context>
    static bool scan(lexy::rule_scanner<Context, Reader>& sc, const State& s)
    {
        s.note("c" + std::to_string(sc.recursion_depth()));
        if (sc.branch(c<':'>))
            sc.parse(dsl::recurse<Node>);
        return bool(sc);
    }
};
struct D
{
    static constexpr auto rule  = c<'d'> >> dsl::capture(dsl::ascii::digit);
    static constexpr auto value = lexy::bind(lexy::callback<void>([](const State& s, const Other& o, auto l) {
                                                 if (o.s != &s)
                                                     vh::violation("state-map", "parse_state.map() is given another object");
                                                 s.note(std::string("d") + char(*l.begin()));
                                             }),
                                             lexy::parse_state, lexy::parse_state.map([](const State& s) { return Other{&s}; }), lexy::values);
};
struct ESink
{
    struct cb
    {
        using return_type = void;
        const State* s;
        void         operator()() { s->note("e"); }
        template <class L>
        void operator()(L) { s->note("e"); }
        void finish() && { s->note("end"); }
    };
    auto sink(const State& s) const
    {
        return cb{&s};
    }
};
struct E
{
    static constexpr auto rule  = c<'e'> >> dsl::list(dsl::capture(c<','>));
    static constexpr auto value = lexy::bind_sink(ESink{}, lexy::parse_state);
};
struct tag
{
    template <class It>
    tag(const State& s, It)
    {
        s.note("f");
    }
};
struct F : lexy::expression_production
{
    static constexpr auto atom = dsl::capture(dsl::ascii::digit);
    struct sum : dsl::infix_op_left
    {
        static constexpr auto op = dsl::op<tag>(c<'+'>);
        using operand            = dsl::atom;
    };
    using operation             = sum;
    static constexpr auto value = lexy::callback<int>([](int, tag, int) { return 0; }, [](auto) { return 0; });
};
struct H
{
    static constexpr auto rule  = c<'h'> >> dsl::p<F>;
    static constexpr auto value = lexy::callback_with_state<void>([](const State& s, int) { s.note("h"); });
};
struct V
{
    static constexpr auto rule  = c<'v'> >> cnt.value();
    static constexpr auto value = lexy::callback_with_state<void>([](const State& s, int i) { s.note("v" + std::to_string(i)); });
};
struct W
{
    static constexpr auto rule  = c<'w'> >> flag.value();
    static constexpr auto value = lexy::callback_with_state<void>([](const State& s, bool i) { s.note(i ? "w1" : "w0"); });
};
struct Sub
{
    static constexpr auto rule  = c<'='> + dsl::effect<effect_g> + dsl::if_(c<'{'> >> dsl::recurse<Block>);
    static constexpr auto value = lexy::noop;
};
struct Mid
{
    static constexpr auto rule  = dsl::recurse<Node>.max_depth_error<too_deep>;
    static constexpr auto value = lexy::noop;
};
struct Elem
{
    static constexpr auto rule = [] {
        auto id = dsl::context_identifier<struct elem_id>(dsl::identifier(dsl::ascii::lower));
        return id.create() + id.capture() + c<'>'> + dsl::while_(dsl::recurse_branch<Node>) + c<'/'> + id.rematch() + c<'>'>;
    }();
    static constexpr auto value = lexy::callback_with_state<void>([](const State& s, auto l) {
        s.note("elem " + std::string(l.begin(), l.end()));
    });
};
struct Block
{
    static constexpr auto rule  = cnt.create<5>() + flag.create() + dsl::try_(dsl::while_(dsl::recurse_branch<Node>) + c<'}'>, dsl::until(c<'}'>).or_eof());
    static constexpr auto value = lexy::noop;
};
struct Node
{
    static constexpr auto rule = c<'('> >> dsl::while_(dsl::recurse_branch<Node>) + c<')'> | c<'['> >> dsl::p<Mid> + c<']'> | c<'{'> >> dsl::p<Block> | c<'<'> >> dsl::p<Elem>
                                 | c<'p'> >> cnt.inc() | c<'q'> >> cnt.dec() | dsl::p<V> | c<'t'> >> flag.toggle() | c<'s'> >> flag.set() | c<'r'> >> flag.reset() | dsl::p<W>
                                 | c<'a'> >> dsl::effect<effect_a> | dsl::p<B> | c<'c'> >> dsl::p<C> | dsl::p<D> | dsl::p<E> | dsl::p<H> | c<'g'> >> dsl::subgrammar<Sub, void> | c<'i'> >> dsl::try_(dsl::subgrammar<Sub, void>, dsl::until(c<';'>).or_eof())
                                 | c<'z'> >> (cnt.is_zero() >> c<'0'> | dsl::else_ >> c<'n'>) | c<'x'> >> (flag.is_set() >> c<'y'> | flag.is_reset() >> c<'n'>)
                                 | c<'m'> >> dsl::if_(LEXY_LIT("p!") >> cnt.inc()) | c<'j'> >> cnt.push(dsl::while_(c<'.'>)) | c<'k'> >> cnt.pop(dsl::while_(c<'.'>));
    static constexpr auto value = lexy::noop;
};
template <int N>
struct Root
{
    static constexpr auto max_recursion_depth = N;
    static constexpr auto rule                = cnt.create() + flag.create<true>() + dsl::while_(dsl::p<Node>) + cnt.value() + flag.value() + dsl::eof;
    static constexpr auto value               = lexy::callback_with_state<int>([](const State& s, int i, bool b) {
        s.note("end " + std::to_string(i) + (b ? " 1" : " 0"));
        return 0;
    });
};
template <int N>
struct Control
{
    static constexpr auto max_recursion_depth = N;
};
struct Top
{
    static constexpr auto rule  = c<'{'> >> dsl::p<Block>;
    static constexpr auto value = lexy::noop;
};
} // namespace g
LEXY_DEFINE_SUBGRAMMAR(g::Sub)

struct Model
{
    const std::string&       s;
    int                      max;
    std::size_t              p = 0;
    std::vector<std::string> log{}, errs{};
    struct Vars
    {
        int  c;
        bool f;
    };
    std::vector<Vars> vars{};
    int               deepest = 0;
    char at() const
    {
        return p < s.size() ? s[p] : '\0';
    }
    bool error(const std::string& e, std::size_t b, std::size_t x)
    {
        errs.push_back(e + " " + std::to_string(b) + ".." + std::to_string(x));
        return false;
    }
    bool lit(char c)
    {
        if (p < s.size() && s[p] == c)
            return ++p, true;
        return error(std::string("expected ") + c, p, p);
    }
    bool starts() const
    {
        return p < s.size() && std::string("([{<pqvtsrwabcdehgizxmjk").find(s[p]) != std::string::npos;
    }
    bool cls(const char* name, bool (*f)(char))
    {
        if (p < s.size() && f(s[p]))
            return ++p, true;
        return error(std::string("expected ") + name, p, p);
    }
    static bool digit(char c)
    {
        return c >= '0' && c <= '9';
    }
    static bool lower(char c)
    {
        return c >= 'a' && c <= 'z';
    }
    bool deeper(int d, const char* what, bool& ok)
    {
        deepest = std::max(deepest, d + 1);
        ok      = d < max || error(what, p, p);
        return ok;
    }
    bool nodes(int d)
    {
        while (starts())
        {
            bool ok;
            if (!deeper(d, "maximum recursion depth exceeded", ok) || !node(d + 1))
                return false;
        }
        return true;
    }
    bool block(int d)
    {
        vars.push_back({5, false});
        auto n = vars.size();
        if (!(nodes(d) && lit('}')))
        {
            vars.resize(n);
            while (p < s.size() && s[p] != '}')
                ++p;
            p += p < s.size();
        }
        vars.pop_back();
        return true;
    }
    std::size_t dots()
    {
        auto b = p;
        while (at() == '.')
            ++p;
        return p - b;
    }
    bool sub(int d)
    {
        bool ok;
        if (!lit('='))
            return false;
        log.push_back("g");
        if (at() != '{')
            return true;
        ++p;
        if (!deeper(d, "maximum recursion depth exceeded", ok))
            return false;
        auto saved = std::move(vars); // the variables of the grammar around it
        vars.clear();
        ok   = block(d + 1);
        vars = std::move(saved);
        return ok;
    }
    bool node(int d) // the branch has been taken
    {
        bool ok;
        auto n = vars.size();
        switch (s[p++])
        {
        case '(': return nodes(d) && lit(')');
        case '[':
            if (!deeper(d, "too deep", ok))
                return false;
            if (!starts())
                return error("exhausted choice", p, p);
            return node(d + 1) && lit(']');
        case '{': return block(d);
        case '<': {
            auto b = p;
            if (!cls("ASCII.lower", lower))
                return false;
            while (lower(at()))
                ++p;
            auto name = s.substr(b, p - b);
            if (!lit('>') || !nodes(d) || !lit('/'))
                return false;
            b = p;
            if (!cls("ASCII.lower", lower))
                return false;
            while (lower(at()))
                ++p;
            if (s.substr(b, p - b) != name)
                error("different identifier", b, p);
            if (!lit('>'))
                return false;
            log.push_back("elem " + name);
            return true;
        }
        case 'p': ++vars.back().c; return true;
        case 'q': --vars.back().c; return true;
        case 'v': log.push_back("v" + std::to_string(vars.back().c)); return true;
        case 't': vars.back().f = !vars.back().f; return true;
        case 's': vars.back().f = true; return true;
        case 'r': vars.back().f = false; return true;
        case 'w': log.push_back(vars.back().f ? "w1" : "w0"); return true;
        case 'a': log.push_back("a"); return true;
        case 'b': log.push_back("b"); return true;
        case 'c':
            log.push_back("c" + std::to_string(d));
            if (at() != ':')
                return true;
            ++p;
            if (!deeper(d, "maximum recursion depth exceeded", ok))
                return false;
            if (!starts())
                return error("exhausted choice", p, p);
            return node(d + 1);
        case 'd':
            if (!cls("ASCII.digit", digit))
                return false;
            log.push_back(std::string("d") + s[p - 1]);
            return true;
        case 'e':
            if (!lit(','))
                return false;
            log.push_back("e");
            while (at() == ',')
                ++p, log.push_back("e");
            log.push_back("end");
            return true;
        case 'h': {
            if (!cls("ASCII.digit", digit))
                return false;
            while (at() == '+')
            {
                ++p;
                log.push_back("f");
                if (!cls("ASCII.digit", digit))
                    break; // recovers: the operand is left out
            }
            log.push_back("h");
            return true;
        }
        case 'g': return sub(d);
        case 'i':
            if (!sub(d))
            {
                vars.resize(n);
                while (p < s.size() && s[p] != ';')
                    ++p;
                p += p < s.size();
            }
            return true;
        case 'z': return lit(vars.back().c == 0 ? '0' : 'n');
        case 'x': return lit(vars.back().f ? 'y' : 'n');
        case 'm':
            if (s.compare(p, 2, "p!") == 0)
                p += 2, ++vars.back().c;
            return true;
        case 'j': vars.back().c += int(dots()); return true;
        case 'k': vars.back().c -= int(dots()); return true;
        }
        (void)n;
        std::abort();
    }
    // 0 success, 1 recovered, 2 fatal
    int root()
    {
        vars.push_back({0, true});
        while (starts())
            if (!node(0))
                return 2;
        auto end = vars.back();
        if (p < s.size())
            error("expected EOF", p, p); // recovers
        log.push_back("end " + std::to_string(end.c) + (end.f ? " 1" : " 0"));
        return errs.empty() ? 0 : 1;
    }
    int blocks()
    {
        while (p < s.size())
        {
            if (!lit('{') || !block(0))
                return 2;
        }
        return errs.empty() ? 0 : 1;
    }
};
static std::string derive(vh::Rng& r, int d)
{
    std::string s;
    auto        word = [&] {
        std::string w;
        for (int n = r.range(1, 3); n > 0; --n)
            w += char('a' + r.below(3));
        return w;
    };
    auto many = [&](int k) {
        std::string x;
        for (int n = r.range(0, k); n > 0; --n)
            x += derive(r, d - 1);
        return x;
    };
    switch (r.below(d > 0 ? 30 : 20))
    {
    case 0: return "p";
    case 1: return "q";
    case 2: return "v";
    case 3: return "t";
    case 4: return r.chance(1, 2) ? "s" : "r";
    case 5: return "w";
    case 6: return "a";
    case 7: return "b";
    case 8: return "c";
    case 9: return "d" + std::to_string(r.below(10));
    case 10: return "e" + std::string(1 + r.below(3), ',');
    case 11:
        s = "h1";
        for (int n = r.range(0, 3); n > 0; --n)
            s += "+2";
        return s;
    case 12: return "g=";
    case 13: return r.chance(1, 2) ? "z0" : "zn";
    case 14: return r.chance(1, 2) ? "xy" : "xn";
    case 15: return r.chance(1, 2) ? "mp!" : "m";
    case 16: return "j" + std::string(r.below(4), '.');
    case 17: return "k" + std::string(r.below(4), '.');
    case 18: return "v";
    case 19: return "c";
    case 20:
    case 21: return "(" + many(4) + ")";
    case 22:
    case 23: return "[" + derive(r, d - 1) + "]";
    case 24:
    case 25:
    case 26: return "{" + many(5) + (r.chance(9, 10) ? "}" : r.chance(1, 2) ? ")}" : "");
    case 27: {
        auto w = word();
        return "<" + w + ">" + many(4) + "/" + (r.chance(5, 6) ? w : word()) + ">";
    }
    case 28: return "c:" + derive(r, d - 1);
    default: return "g={" + many(4) + "}";
    }
}
struct Got
{
    int                      status;
    std::vector<std::string> errs;
};
template <class It>
auto collect(std::vector<std::string>& errs, It begin)
{
    return lexy::callback([&errs, begin](const auto&, const auto& e) {
        auto        b = std::size_t(e.position() - begin), x = b;
        std::string k;
        if constexpr (requires { e.character(); })
            k = std::string("expected ") + char(e.character());
        else if constexpr (requires { e.string(); })
            k = "expected " + std::string(e.string(), e.string() + e.length());
        else if constexpr (requires { e.name(); })
            k = "expected " + std::string(e.name());
        else
            k = e.message(), x = std::size_t(e.end() - begin);
        errs.push_back(k + " " + std::to_string(b) + ".." + std::to_string(x));
    });
}
template <class R>
int status_of(const R& r)
{
    return r.is_success() ? 0 : r.is_recovered_error() ? 1 : 2;
}
static std::string join(const std::vector<std::string>& v)
{
    std::string r;
    for (auto& x : v)
        r += "\n    " + x;
    return r;
}
static void compare(const char* what, const std::string& in, int max, int status, const std::vector<std::string>& errs, const std::vector<std::string>* log, const Model& m, int want)
{
    static const char* names[] = {"success", "recovered", "fatal"};
    auto               of      = std::string(what) + " of " + in + " with maximum depth " + std::to_string(max);
    if (errs != m.errs)
        vh::violation("errors", of + " reports" + join(errs) + "\n  expected" + join(m.errs));
    else if (status != want)
        vh::violation("status", of + " is " + names[status] + ", expected " + names[want]);
    else if (log && *log != m.log)
        vh::violation("accesses", of + " has the accesses" + join(*log) + "\n  expected" + join(m.log));
}
template <int N>
void one(vh::Rng& r, const std::string& s, bool blocks)
{
    vh::begin_case("depth " + std::to_string(N) + ": " + vh::esc(s));
    Model           m{s, N};
    int             want = blocks ? m.blocks() : m.root();
    vh::Exact<char> ex(s.data(), s.size());
    lexy::string_input<lexy::utf8_char_encoding> in(ex.data, ex.size);
    lexy::buffer<lexy::utf8_char_encoding>       buf(s.data(), s.size());
    if (blocks)
    {
        State                    st;
        std::vector<std::string> errs;
        State::expected = &st;
        auto sc         = lexy::scan<g::Control<N>>(in, st, collect(errs, in.data()));
        if (&sc.parse_state() != &st)
            vh::violation("state-identity", "scanner.parse_state() is another object");
        while (sc && !sc.is_at_eof())
            sc.parse(dsl::p<g::Top>);
        auto res = std::move(sc).finish();
        compare("lexy::scan", s, N, status_of(res), errs, &st.log, m, want);
        vh::count("scans");
        return;
    }
    using R = g::Root<N>;
    {
        State                    st;
        std::vector<std::string> errs;
        State::expected = &st;
        auto res        = lexy::parse<R>(in, st, collect(errs, in.data()));
        compare("parse", s, N, status_of(res), errs, &st.log, m, want);
    }
    switch (r.below(5))
    {
    case 0: {
        const State              st;
        std::vector<std::string> errs;
        State::expected = &st;
        auto res        = lexy::parse<R>(buf, st, collect(errs, buf.data()));
        compare("parse with constant state", s, N, status_of(res), errs, &st.log, m, want);
        break;
    }
    case 1: {
        State                    st;
        std::vector<std::string> errs;
        State::expected = &st;
        auto res        = lexy::validate<R>(buf, st, collect(errs, buf.data()));
        compare("validate", s, N, status_of(res), errs, nullptr, m, want);
        break;
    }
    case 2: {
        State                    st;
        std::vector<std::string> errs;
        State::expected = &st;
        lexy::parse_tree_for<lexy::buffer<lexy::utf8_char_encoding>> tree;
        auto res = lexy::parse_as_tree<R>(tree, buf, st, collect(errs, buf.data()));
        compare("parse_as_tree", s, N, status_of(res), errs, nullptr, m, want);
        break;
    }
    case 3: {
        State st;
        State::expected = &st;
        if (lexy::match<R>(in, st) != m.errs.empty())
            vh::violation("match", "match of " + s + " with maximum depth " + std::to_string(N) + " disagrees; errors expected" + join(m.errs));
        break;
    }
    default: break;
    }
    vh::count(want == 0 ? "status_success" : want == 1 ? "status_recovered" : "status_fatal");
    vh::count("errors_compared", m.errs.size());
    if (m.deepest > N)
        vh::count("depth_exceeded");
    else if (m.deepest == N)
        vh::count("depth_reached");
    vh::observe(std::to_string(N) + s);
    if (r.chance(1, 4000))
        vh::sample(s);
}
int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        vh::Rng r(vh::opt.seed * 6007 + std::uint64_t(vh::opt.shard) * 131);
        auto    n = vh::cases(H16_CASES, H16_CASES * 100);
        for (std::uint64_t i = 0; i < n && !vh::too_many_violations(); ++i)
        {
            bool        blocks = r.chance(1, 4);
            std::string s;
            for (int k = r.range(1, 6); k > 0; --k)
            {
                auto x = derive(r, r.range(1, 9));
                s += blocks ? "{" + x + "}" : x;
            }
            if (s.size() > 400)
                continue;
            for (int k = r.chance(1, 2) ? r.range(1, 3) : 0; k > 0; --k)
            {
                static const std::string alphabet = "([{<)]}>/pqvtsrwabcdehgizxmjk0ny!.,=:+1;";
                auto                     at       = r.below(s.size() + 1);
                if (r.chance(1, 2))
                    s.insert(at, 1, alphabet[r.below(alphabet.size())]);
                else if (at < s.size())
                    s.erase(at, 1);
            }
            switch (r.below(5))
            {
            case 0: one<1>(r, s, blocks); break;
            case 1: one<2>(r, s, blocks); break;
            case 2: one<3>(r, s, blocks); break;
            case 3: one<5>(r, s, blocks); break;
            default: one<8>(r, s, blocks);
            }
        }
    });
}
