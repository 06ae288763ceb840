// Integers, code point ids, bytes, bits and signs against exact arithmetic.
#include "h08.hpp"
#include <algorithm>
#include <limits>
#include <set>
namespace h08
{
std::vector<Entry>& registry()
{
    static std::vector<Entry> r;
    return r;
}
} // namespace h08
using namespace h08;
using obs::Out;

static int digit(const Spec& s, char c)
{
    int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' && s.upper != 1 ? c - 'a' + 10 : c >= 'A' && c <= 'F' && s.upper != 0 ? c - 'A' + 10 : 99;
    return v < s.radix ? v : -1;
}
// Exact value of the digits in the text, saturated far above every type
struct Value
{
    u128 v        = 0;
    bool overflow = false;
};
static Value value_of(const Spec& s, const std::string& text)
{
    Value r;
    u128  wrap = 0;
    bool  big  = false;
    for (char c : text)
    {
        auto d = digit(s, c);
        if (d < 0)
            continue;
        wrap = wrap * unsigned(s.radix) + unsigned(d);
        if (big)
            continue;
        if (r.v > (~u128(0) - unsigned(d)) / unsigned(s.radix))
            big = true;
        else
            r.v = r.v * unsigned(s.radix) + unsigned(d);
    }
    if (!s.bounded)
        return {wrap & s.max, false};
    r.overflow = big || r.v > s.max;
    return r;
}
struct Want
{
    std::vector<Out> any; // acceptable outcomes; "?" as value of an overflowed integer
};
static std::string at(std::size_t n)
{
    return "@" + std::to_string(n);
}
static void add(Want& w, const Spec& s, std::vector<obs::Err> errs, const std::string& in, std::size_t end)
{
    auto v = value_of(s, in.substr(0, end));
    Out  o;
    o.errs = errs;
    if (v.overflow)
        o.errs.push_back({s.overflow, 0, end});
    o.status = o.errs.empty() ? obs::success : obs::recovered;
    o.value  = (v.overflow ? "?" : dec(v.v)) + at(end);
    w.any.push_back(o);
}
static Want want(const Spec& s, const std::string& in, bool branch)
{
    std::size_t p = 0;
    auto        is_digit = [&](std::size_t i) { return i < in.size() && digit(s, in[i]) >= 0; };
    auto        sep_at   = [&](std::size_t i) -> std::size_t { return s.sep && in.compare(i, std::strlen(s.sep), s.sep) == 0 && i < in.size() ? std::strlen(s.sep) : 0; };
    Want        w;
    auto        cls = std::string("expected class ") + s.cls;
    auto        malformed = [&](std::vector<obs::Err> errs, std::size_t end) {
        // recovery skips further digits; whether it also skips separators is not pinned down
        auto e1 = end;
        while (is_digit(e1))
            ++e1;
        auto e2 = end;
        while (is_digit(e2) || sep_at(e2))
            e2 += is_digit(e2) ? 1 : sep_at(e2);
        if (e1 == 0)
            w.any.push_back({obs::fatal, errs, ""});
        else
        {
            add(w, s, errs, in, e1);
            if (e2 != e1)
                add(w, s, errs, in, e2);
        }
    };
    bool ok = true;
    if (s.form == f_token)
    {
        while (is_digit(p) || (p < in.size() && (in[p] == '.' || in[p] == 'u')))
            ++p;
        ok = p > 0;
        if (!ok && !branch)
            w.any.push_back({obs::fatal, {{"missing token", 0, 0}}, ""});
    }
    else if (s.form == f_n)
    {
        for (int i = 0; i < s.n && ok; ++i)
        {
            if (i > 0)
                p += sep_at(p);
            if (is_digit(p))
                ++p;
            else
                ok = false;
        }
        if (!ok && !branch)
            malformed({{cls, p, p}}, p);
    }
    else
    {
        bool trailing = false;
        if (!is_digit(0))
            ok = false;
        else
        {
            ++p;
            while (true)
            {
                if (auto l = sep_at(p))
                {
                    p += l;
                    if (!is_digit(p))
                    {
                        trailing = true;
                        break;
                    }
                    ++p;
                }
                else if (is_digit(p))
                    ++p;
                else
                    break;
            }
        }
        bool zero = s.form == f_nlz && ok && in[0] == '0' && p > 1;
        if (!branch)
        {
            if (!ok)
                malformed({{cls, 0, 0}}, 0);
            if (trailing)
                malformed({{cls, p, p}}, p);
            if (zero)
                malformed({{"forbidden leading zero", 0, 1}}, 1);
        }
        ok = ok && !trailing && !zero;
    }
    if (ok)
        add(w, s, {}, in, p);
    else if (branch)
        w.any.push_back({obs::success, {}, "none@0"});
    return w;
}
static bool matches(const Out& want, const Out& got)
{
    if (want.status != got.status || want.errs != got.errs)
        return false;
    if (want.status == obs::fatal)
        return true;
    if (want.value[0] == '?')
        return got.value.substr(got.value.find('@')) == want.value.substr(1);
    return want.value == got.value;
}
static std::string in_radix(const Spec& s, u128 v, vh::Rng& rng)
{
    std::string r;
    do
    {
        char c = s.digits[int(v % unsigned(s.radix))];
        if (s.upper == 2 && c >= 'a' && rng.chance(1, 2))
            c = char(c - 32);
        r.insert(r.begin(), c), v /= unsigned(s.radix);
    } while (v);
    return r;
}
static std::string make_input(const Spec& s, vh::Rng& rng)
{
    std::string d;
    auto        k = rng.below(12);
    if (k < 4)
    {
        // around the maximum
        u128 v = s.max;
        auto j = rng.below(12);
        if (rng.chance(1, 2) && v > 40)
            v -= j;
        else if (v < ~u128(0) - 40)
            v += j;
        d = in_radix(s, v, rng);
    }
    else if (k < 6)
    {
        // same digit count as the maximum, larger or with an additional digit
        d = in_radix(s, s.max, rng);
        if (rng.chance(1, 2))
            d[rng.below(d.size())] = s.digits[rng.below(s.radix)];
        else
            d += s.digits[rng.below(s.radix)];
    }
    else if (k < 8)
        d = in_radix(s, u128(rng.next()) >> rng.below(64), rng);
    else
        for (auto n = rng.below(rng.chance(1, 3) ? 50 : 12); n > 0; --n)
            d += s.digits[rng.below(s.radix)];
    if (s.form == f_n && rng.chance(3, 4))
    {
        while (int(d.size()) > s.n)
            d.erase(d.begin());
        while (int(d.size()) < s.n)
            d.insert(d.begin(), rng.chance(1, 2) ? '0' : s.digits[rng.below(s.radix)]);
    }
    else if (rng.chance(1, 4))
        d.insert(0, rng.below(24), '0');
    if (s.sep || s.form == f_token)
    {
        std::string r;
        auto        rate = int(rng.below(6));
        for (std::size_t i = 0; i < d.size(); ++i)
        {
            if (i > 0 && rng.chance(rate, 10))
                r += s.form == f_token ? (rng.chance(1, 2) ? "." : "u") : s.sep;
            if (s.sep && rng.chance(1, 120))
                r += s.sep;
            r += d[i];
        }
        d = r;
        if (rng.chance(1, 5))
            d += s.form == f_token ? "u" : s.sep;
    }
    // what follows, or replaces a digit
    static const char hostile[] = "0129abfgABFG/:@`G'_.-ux \x7F~";
    if (rng.chance(1, 2))
        d += hostile[rng.below(sizeof hostile - 1)];
    if (rng.chance(1, 8) && !d.empty())
        d[rng.below(d.size())] = hostile[rng.below(sizeof hostile - 1)];
    if (rng.chance(1, 6))
        d += s.digits[rng.below(s.radix)];
    return d;
}
static void integers(vh::Rng& rng)
{
    auto& reg = registry();
    auto  n   = vh::cases(500000, 20000000);
    for (std::uint64_t i = 0; i < n && !vh::too_many_violations(); ++i)
    {
        auto& e  = reg[i % reg.size()];
        auto  in = make_input(e.spec, rng);
        bool  br = rng.chance(1, 3), buf = rng.chance(1, 2);
        int   enc = int(rng.below(br ? 2 : 3));
        vh::begin_case(std::string(e.name) + (br ? " as branch" : "") + (buf ? " in a buffer" : "") + " encoding " + std::to_string(enc) + " on " + vh::esc(in));
        auto got = e.run(br, enc, buf, in);
        auto w   = want(e.spec, in, br);
        bool ok  = false;
        for (auto& o : w.any)
            ok = ok || matches(o, got);
        if (!ok)
            vh::violation("integer", "got " + got.str() + ", expected " + w.any[0].str());
        vh::count(got.status == obs::success ? (got.value[0] == 'n' ? "integers_backtracked" : "integers_exact") : got.status == obs::fatal ? "integers_rejected" : got.errs.back().kind == e.spec.overflow ? "integers_overflow" : "integers_recovered");
        vh::observe(std::string(e.name) + "|" + in);
    }
}

//=== signs ===//
template <class T, class U, int Kind>
struct signed_int
{
    static constexpr auto rule = [] {
        if constexpr (Kind == 0)
            return dsl::sign + dsl::integer<U> + dsl::eof;
        else if constexpr (Kind == 1)
            return dsl::minus_sign + dsl::integer<U> + dsl::eof;
        else
            return dsl::plus_sign + dsl::integer<U> + dsl::eof;
    }();
    static constexpr auto value = lexy::as_integer<T>;
};
template <class T, class U, int Kind>
static void check_signed(vh::Rng& rng)
{
    int         sg  = int(rng.below(3)); // none + -
    u128        lim = u128(std::numeric_limits<T>::max()) + (sg == 2 && std::is_unsigned_v<U> ? 1 : 0);
    u128        m   = rng.chance(1, 3) ? lim - rng.below(2) : u128(rng.next() >> rng.below(64));
    U           mag = U(m > lim ? lim : m);
    std::string s   = (sg == 1 ? "+" : sg == 2 ? "-" : "") + dec(u128(mag));
    if (rng.chance(1, 12))
        s.insert(0, 1, "+- "[rng.below(3)]);
    vh::begin_case("signed integer " + vh::esc(s) + " kind " + std::to_string(Kind));
    bool minus = s[0] == '-', plus = s[0] == '+';
    bool ok    = (minus ? Kind != 2 : plus ? Kind != 1 : true) && s.find_first_not_of("0123456789", minus || plus) == std::string::npos;
    auto r     = lexy::parse<signed_int<T, U, Kind>>(lexy::string_input<lexy::utf8_char_encoding>(s.data(), s.size()), lexy::noop);
    if (r.is_success() != ok)
        vh::violation("sign-match", std::string("a signed integer was ") + (ok ? "rejected" : "accepted"));
    else if (ok)
    {
        auto want = minus ? T(-__int128(mag)) : T(mag);
        if (r.value() != want)
            vh::violation("sign-value", "got " + std::to_string(r.value()) + ", expected " + std::to_string(want));
    }
    vh::count("signed_integers");
}

//=== bytes ===//
struct odd_byte
{
    static LEXY_CONSTEVAL auto name()
    {
        return "odd byte";
    }
    constexpr bool operator()(unsigned char c) const
    {
        return c % 2 == 1;
    }
};
template <class G>
struct bytes_rule
{
    static constexpr auto rule  = dsl::position + G::r + dsl::position;
    static constexpr auto value = lexy::callback<std::string>([](auto b, auto v, auto e) { return dec(u128(v)) + "/" + std::to_string(sizeof(v)) + h08::at(b, e); },
                                                              [](auto b, auto e) { return h08::at(b, e); });
};
template <class G>
struct bytes_branch
{
    static constexpr auto rule  = dsl::position + (G::r >> dsl::position | dsl::else_ >> dsl::position + dsl::nullopt);
    static constexpr auto value = lexy::callback<std::string>([](auto, auto, lexy::nullopt) { return std::string("none"); },
                                                              [](auto b, auto v, auto e) { return dec(u128(v)) + "/" + std::to_string(sizeof(v)) + h08::at(b, e); },
                                                              [](auto b, auto e) { return h08::at(b, e); });
};
struct ByteSpec
{
    int size;                          // bytes consumed
    int endian;                        // 0: no value, 1: little, 2: big
    bool (*ok)(unsigned char);         // or nullptr
    const char* name;                  // class name in the error
    int         pad       = -1;        // padding value
    int         tokensize = 0;         // size of the token if different
};
template <class G, class Input>
static void byte_case(const Input& in, const std::string& s, const ByteSpec& sp, const char* name)
{
    std::size_t n = 0;
    auto        want_size = std::size_t(sp.tokensize ? sp.tokensize : sp.size);
    while (n < want_size && n < s.size() && (!sp.ok || sp.ok((unsigned char)s[n])))
        ++n;
    bool matched = n == want_size;
    Out  w;
    if (!matched)
        w.errs.push_back({std::string("expected class ") + sp.name, n, n});
    else if (sp.tokensize)
        w.errs.push_back({"mismatched byte count", 0, n});
    else
    {
        w.status = obs::success;
        u128 v   = 0;
        for (std::size_t i = 0; i < n; ++i)
        {
            auto b = (unsigned char)s[sp.endian == 2 ? i : n - 1 - i];
            v      = v << 8 | b;
        }
        if (sp.endian)
            w.value = dec(v) + "/" + std::to_string(sp.size);
        w.value += at(n);
        if (sp.pad >= 0)
            for (std::size_t i = 0; i < n; ++i)
                if ((unsigned char)s[i] != sp.pad)
                    w.status = obs::recovered, w.errs.push_back({std::string("expected literal ") + char(sp.pad) + " at 0", i, i});
    }
    auto got = obs::parse<bytes_rule<G>>(in);
    if (!(got == w))
        vh::violation("bytes", std::string(name) + " on " + vh::esc(s) + ": got " + got.str() + ", expected " + w.str());
    auto g2 = obs::parse<bytes_branch<G>>(in);
    Out  w2 = matched ? w : Out{obs::success, {}, "none"};
    if (!(g2 == w2))
        vh::violation("bytes-branch", std::string(name) + " as branch on " + vh::esc(s) + ": got " + g2.str() + ", expected " + w2.str());
    vh::count(matched ? "bytes_matched" : "bytes_rejected");
    vh::observe(std::string(name) + s);
}
#define H08_BYTES(RULE, ...)                                                                                                                                   \
    {                                                                                                                                                          \
        struct G                                                                                                                                               \
        {                                                                                                                                                      \
            static constexpr auto rr()                                                                                                                         \
            {                                                                                                                                                  \
                return RULE;                                                                                                                                   \
            }                                                                                                                                                  \
        };                                                                                                                                                     \
        static const ByteSpec sp{__VA_ARGS__};                                                                                                                 \
        if (rng.chance(1, 2))                                                                                                                                  \
            byte_case<wrap<G>>(lexy::buffer<lexy::byte_encoding>((const unsigned char*)s.data(), s.size()), s, sp, #RULE);                                     \
        else                                                                                                                                                   \
        {                                                                                                                                                      \
            vh::Exact<unsigned char> ex((const unsigned char*)s.data(), s.size());                                                                             \
            byte_case<wrap<G>>(lexy::string_input<lexy::byte_encoding>(ex.data, ex.size), s, sp, #RULE);                                                       \
        }                                                                                                                                                      \
    }
template <class F>
struct wrap
{
    static constexpr auto r = F::rr();
};
static bool pat(unsigned char c, const char* p)
{
    for (int i = 0; i < 8; ++i)
        if (p[i] != '_' && ((c >> (7 - i)) & 1) != p[i] - '0')
            return false;
    return true;
}
static void bytes(vh::Rng& rng)
{
    namespace bit = lexy::dsl::bit;
    auto n        = vh::cases(60000, 2000000);
    for (std::uint64_t i = 0; i < n && !vh::too_many_violations(); ++i)
    {
        std::string s;
        int         style = int(rng.below(4));
        for (auto l = rng.below(11); l > 0; --l)
            s += char(style == 0 ? rng.below(256) : style == 1 ? (rng.chance(1, 2) ? 0xFF : 0) : style == 2 ? 0x41 + rng.below(3) : rng.below(128));
        vh::begin_case("bytes of " + vh::esc(s));
        switch (i % 8)
        {
        case 0:
            H08_BYTES(dsl::bint8, 1, 1, nullptr, "byte")
            H08_BYTES(dsl::bint16, 2, 1, nullptr, "byte")
            H08_BYTES(dsl::little_bint16, 2, 1, nullptr, "byte")
            break;
        case 1:
            H08_BYTES(dsl::big_bint16, 2, 2, nullptr, "byte")
            H08_BYTES(dsl::bint32, 4, 1, nullptr, "byte")
            break;
        case 2:
            H08_BYTES(dsl::little_bint32, 4, 1, nullptr, "byte")
            H08_BYTES(dsl::big_bint32, 4, 2, nullptr, "byte")
            break;
        case 3:
            H08_BYTES(dsl::bint64, 8, 1, nullptr, "byte")
            H08_BYTES(dsl::little_bint64, 8, 1, nullptr, "byte")
            H08_BYTES(dsl::big_bint64, 8, 2, nullptr, "byte")
            break;
        case 4:
            H08_BYTES(dsl::big_bint16(dsl::bytes<2>.ascii()), 2, 2, [](unsigned char c) { return c < 0x80; }, "byte.ASCII")
            H08_BYTES(dsl::little_bint32(dsl::bytes<4>.if_<odd_byte>()), 4, 1, [](unsigned char c) { return c % 2 == 1; }, "odd byte")
            H08_BYTES(dsl::big_bint32(dsl::bytes<3>), 4, 2, nullptr, "byte", -1, 3)
            break;
        case 5:
            H08_BYTES(dsl::byte, 1, 0, nullptr, "byte")
            H08_BYTES(dsl::bytes<5>, 5, 0, nullptr, "byte")
            H08_BYTES((dsl::bytes<3>.range<0x41, 0x43>()), 3, 0, [](unsigned char c) { return c >= 0x41 && c <= 0x43; }, "byte.range")
            H08_BYTES((dsl::bytes<2>.set<0x00, 0xFF, 0x42>()), 2, 0, [](unsigned char c) { return c == 0 || c == 0xFF || c == 0x42; }, "byte.set")
            break;
        case 6:
            H08_BYTES(dsl::padding_bytes<3>, 3, 0, nullptr, "byte", 0)
            H08_BYTES((dsl::padding_bytes<4, 0x41>), 4, 0, nullptr, "byte", 0x41)
            H08_BYTES((dsl::padding_bytes<1, 0xFF>), 1, 0, nullptr, "byte", 0xFF)
            break;
        case 7:
            H08_BYTES((dsl::bits(bit::_0, bit::_1, bit::any<2>, bit::_0, bit::_, bit::_1, bit::_)), 1, 0, [](unsigned char c) { return pat(c, "01__0_1_"); }, "bits")
            H08_BYTES((dsl::bits(bit::nibble<0x4>, bit::any<3>, bit::_1)), 1, 0, [](unsigned char c) { return pat(c, "0100___1"); }, "bits")
            H08_BYTES((dsl::bits(bit::_1, bit::any<3>, bit::nibble<0xF>)), 1, 0, [](unsigned char c) { return pat(c, "1___1111"); }, "bits")
            H08_BYTES((dsl::bits(bit::any<8>)), 1, 0, nullptr, "bits")
            break;
        }
    }
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        vh::Rng rng(vh::opt.seed * 64 + std::uint64_t(vh::opt.shard));
        integers(rng);
        for (std::uint64_t i = 0, n = vh::cases(60000, 1000000); i < n && !vh::too_many_violations(); ++i)
            switch (i % 5)
            {
            case 0:
                check_signed<int, unsigned, 0>(rng);
                break;
            case 1:
                check_signed<long long, unsigned long long, 0>(rng);
                break;
            case 2:
                check_signed<long long, unsigned long long, 1>(rng);
                break;
            case 3:
                check_signed<long long, long long, 2>(rng);
                break;
            default:
                check_signed<int, int, 0>(rng);
            }
        bytes(rng);
    });
}
