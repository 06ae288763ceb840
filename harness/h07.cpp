// Unicode: decoding, encoding, classification and case folding against independent tables.
#include "h07.hpp"
#include <lexy/action/validate.hpp>
#include <lexy/callback/string.hpp>
#include <type_traits>
namespace h07
{
std::vector<Entry>& registry()
{
    static std::vector<Entry> r;
    return r;
}
} // namespace h07
using namespace h07;
static std::string hex(std::uint32_t v)
{
    char b[16];
    std::snprintf(b, sizeof b, "%X", v);
    return b;
}
template <class C>
static std::string units(const std::basic_string<C>& s)
{
    std::string r;
    for (auto c : s)
        r += hex(std::uint32_t(std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>(c))) + " ";
    return r;
}
template <class C>
struct exact : vh::Exact<C>
{
    exact(const std::basic_string<C>& s) : vh::Exact<C>(s.data(), s.size()) {}
};

//=== decoding ===//
static thread_local std::uint32_t last_cp;
struct record
{
    static constexpr auto name = "record";
    constexpr bool operator()(lexy::code_point cp) const
    {
        if (!std::is_constant_evaluated())
            last_cp = cp.value();
        return cp.value() > 0x7F;
    }
};
struct one_cp
{
    static constexpr auto rule  = dsl::capture(dsl::code_point);
    static constexpr auto value = lexy::callback<std::size_t>([](auto lex) { return lex.size(); });
};
struct rec_cp
{
    static constexpr auto rule  = dsl::capture(dsl::code_point.if_<record>());
    static constexpr auto value = lexy::callback<std::size_t>([](auto lex) { return lex.size(); });
};
struct all_cp
{
    static constexpr auto rule  = dsl::capture(dsl::token(dsl::while_(dsl::code_point)));
    static constexpr auto value = lexy::callback<std::size_t>([](auto lex) { return lex.size(); });
};
template <class Enc>
struct decoder
{
    using C = typename Enc::char_type;
    static constexpr bool ascii = std::is_same_v<Enc, lexy::ascii_encoding>;
    static u8::Dec want(const C* p, std::size_t n)
    {
        if constexpr (ascii)
            return n > 0 && (unsigned char)p[0] < 0x80 ? u8::Dec{1, (unsigned char)p[0]} : u8::Dec{0, 0};
        else
            return u8::dec(p, n);
    }
    static void check(const std::basic_string<C>& s)
    {
        exact<C> ex(s);
        auto     in = lexy::string_input<Enc>(ex.data, ex.size);
        auto     w  = want(ex.data, ex.size);
        std::ptrdiff_t errpos = -1;
        std::size_t    errors = 0;
        auto cb = lexy::callback([&](const auto&, const auto& e) { errpos = e.position() - ex.data, ++errors; });
        auto     r  = lexy::parse<one_cp>(in, cb);
        auto     got = r.has_value() ? r.value() : 0;
        if (got != w.len)
            vh::violation("decode-length", std::string("decoding ") + units(s) + "consumed " + std::to_string(got) + " code units, expected " + std::to_string(w.len));
        if (w.len == 0 && (errors != 1 || errpos != 0))
            vh::violation("decode-error", "malformed " + units(s) + "must be one error at position 0");
        if (w.len != 0 && errors != 0)
            vh::violation("decode-error", "well-formed " + units(s) + "reported an error");
        last_cp  = 0xAAAAAAAA;
        auto r2  = lexy::parse<rec_cp>(in, lexy::noop);
        if (w.len != 0 && !(ascii) && last_cp != w.cp)
            vh::violation("decode-value", "decoding " + units(s) + "gave " + hex(last_cp) + ", expected " + hex(w.cp));
        if (w.len == 0 && last_cp != 0xAAAAAAAA)
            vh::violation("decode-malformed", "malformed " + units(s) + "decoded as " + hex(last_cp));
        if (r2.has_value() != (w.len != 0 && w.cp > 0x7F))
            vh::violation("decode-class", "class match of " + units(s));
        vh::count("sequences_decoded");
    }
    static void check_all(const std::basic_string<C>& s)
    {
        exact<C>    ex(s);
        std::size_t n = 0;
        while (true)
        {
            auto d = want(ex.data + n, ex.size - n);
            if (d.len == 0)
                break;
            n += d.len;
        }
        auto r = lexy::parse<all_cp>(lexy::string_input<Enc>(ex.data, ex.size), lexy::noop);
        if (!r.has_value() || r.value() != n)
            vh::violation("decode-run", "the well-formed prefix of " + units(s) + "has " + std::to_string(n) + " code units, got "
                                            + std::to_string(r.has_value() ? r.value() : std::size_t(-1)));
        lexy::buffer<Enc> b(s.data(), s.size());
        auto              r2 = lexy::parse<all_cp>(b, lexy::noop);
        if (!r2.has_value() || r2.value() != n)
            vh::violation("decode-run-buffer", "the well-formed prefix of " + units(s) + "in a buffer has " + std::to_string(n) + " code units");
        if (n < s.size() && n > 0)
            vh::observe(units(s));
        vh::count("runs_decoded");
    }
};
static const unsigned char edge8[] = {0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFE, 0xFF};
static void decoding(vh::Rng& rng)
{
    using D8  = decoder<lexy::utf8_char_encoding>;
    using D8b = decoder<lexy::utf8_encoding>;
    auto mine = [](std::uint64_t i) { return i % std::uint64_t(vh::opt.shards) == std::uint64_t(vh::opt.shard); };
    // all sequences of one and two bytes, three bytes of edge values (all of them if thorough), four bytes of edge values
    for (unsigned a = 0; a < 256; ++a)
    {
        if (!mine(a))
            continue;
        vh::begin_case("UTF-8 sequences beginning with " + hex(a));
        D8::check({char(a)});
        decoder<lexy::ascii_encoding>::check({char(a)});
        for (unsigned b = 0; b < 256; ++b)
        {
            D8::check({char(a), char(b)});
            if (vh::opt.thorough && a >= 0xC0)
                for (unsigned c = 0; c < 256; ++c)
                    D8::check({char(a), char(b), char(c)});
        }
        if (a >= 0xC0)
            for (auto b : edge8)
                for (auto c : edge8)
                {
                    D8b::check({char8_t(a), char8_t(b), char8_t(c)});
                    if (a >= 0xF0)
                        for (auto d : edge8)
                            D8::check({char(a), char(b), char(c), char(d)});
                }
    }
    D8::check({});
    decoder<lexy::utf16_encoding>::check({});
    decoder<lexy::utf32_encoding>::check({});
    static const char16_t edge16[] = {0, 0x41, 0x7F, 0x80, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF};
    for (unsigned a = 0; a < 0x10000; ++a)
    {
        if (!mine(a))
            continue;
        if (a % 1024 == 0)
            vh::begin_case("UTF-16 from " + hex(a));
        decoder<lexy::utf16_encoding>::check({char16_t(a)});
        if (a >= 0xD7FE && a <= 0xE001)
            for (auto b : edge16)
                decoder<lexy::utf16_encoding>::check({char16_t(a), b});
    }
    for (int i = 0; i < 3000; ++i)
    {
        auto v = rng.chance(1, 2) ? std::uint32_t(rng.next()) : std::uint32_t(rng.below(0x120000));
        decoder<lexy::utf32_encoding>::check({char32_t(v)});
    }
    for (auto v : {0x10FFFFu, 0x110000u, 0xD7FFu, 0xD800u, 0xDFFFu, 0xE000u, 0xFFFFFFFEu, 0x7FFFFFFFu, 0x80000000u, 0x110061u})
        decoder<lexy::utf32_encoding>::check({char32_t(v)});
    // random hostile strings
    auto n = vh::cases(60000, 3000000);
    for (std::uint64_t i = 0; i < n && !vh::too_many_violations(); ++i)
    {
        std::string    s;
        std::u16string s16;
        std::u32string s32;
        int            len = rng.range(1, 12);
        for (int k = 0; k < len; ++k)
        {
            std::uint32_t cp = rng.chance(1, 4) ? rng.below(0x80) : rng.chance(1, 3) ? rng.below(0x800) : rng.chance(1, 2) ? rng.below(0x10000) : rng.below(0x110000);
            if (rng.chance(1, 12))
                cp = 0xD800 + std::uint32_t(rng.below(0x800));
            if (rng.chance(1, 14))
            {
                s += char(edge8[rng.below(sizeof edge8 / sizeof *edge8)]);
                s16 += char16_t(0xD800 + rng.below(0x800));
                s32 += char32_t(rng.next());
            }
            else
                s += u8::enc<char>(cp), s16 += u8::enc<char16_t>(cp), s32 += u8::enc<char32_t>(cp);
        }
        if (rng.chance(1, 4))
            s.resize(s.size() - rng.below(s.size()));
        vh::begin_case("decoding " + units(s));
        D8::check_all(s);
        decoder<lexy::utf16_encoding>::check_all(s16);
        decoder<lexy::utf32_encoding>::check_all(s32);
    }
}

//=== encoding, categories, folding ===//
template <class String, class Enc>
static void encode(std::uint32_t cp)
{
    using C  = typename String::value_type;
    auto got = lexy::as_string<String, Enc>(lexy::code_point(cp));
    auto w8  = u8::enc<C>(cp);
    if (got.size() != w8.size() || !std::equal(got.begin(), got.end(), w8.begin()))
        vh::violation("encode", "encoding U+" + hex(cp) + " gave " + units(std::basic_string<C>(got.begin(), got.end())));
    auto sink = lexy::as_string<String, Enc>.sink();
    sink(lexy::code_point(cp));
    if (auto r = std::move(sink).finish(); r != got)
        vh::violation("encode-sink", "sink encodes U+" + hex(cp) + " differently");
    auto folded = lexy::as_string<String, Enc>.case_folding(dsl::unicode::simple_case_folding)(String(got));
    auto wf     = u8::enc<C>(u8::fold(cp));
    if (folded.size() != wf.size() || !std::equal(folded.begin(), folded.end(), wf.begin()))
        vh::violation("fold-string", "case folded string of U+" + hex(cp));
    auto af = lexy::as_string<String, Enc>.case_folding(dsl::ascii::case_folding)(String(got));
    auto wa = u8::enc<C>(a_upper(cp) ? cp + 32 : cp);
    if (af.size() != wa.size() || !std::equal(af.begin(), af.end(), wa.begin()))
        vh::violation("ascii-fold-string", "ASCII case folded string of U+" + hex(cp));
}
template <class Enc>
static void fold_string(vh::Rng& rng)
{
    using C = typename Enc::char_type;
    std::basic_string<C> s, w, wa;
    auto raw = [&](std::uint32_t unit) {
        s += C(unit), w += C(unit), wa += C(unit);
    };
    bool ill = false;
    for (int n = rng.range(0, 12); n > 0; --n)
    {
        std::uint32_t cp = rng.chance(1, 3) ? rng.below(0x80) : rng.chance(1, 2) ? rng.below(0x600) : rng.chance(1, 2) ? u8::table[rng.below(u8::table.size())].first : rng.below(0x110000);
        if (!u8::scalar(cp))
            cp = 'Q';
        if (rng.chance(1, 12))
        {
            // an isolated code unit that cannot be part of a code point stays as it is
            ill = true;
            raw(sizeof(C) == 1 ? (rng.chance(1, 2) ? 0x80 + rng.below(0x40) : 0xF8 + rng.below(7)) // 0xFF is the documented EOF value of UTF-8
                : sizeof(C) == 2 ? 0xDC00 + rng.below(0x400) : 0x110000 + rng.below(1000));
            cp = 'R';
        }
        s += u8::enc<C>(cp);
        w += u8::enc<C>(u8::fold(cp));
        wa += u8::enc<C>(a_upper(cp) ? cp + 32 : cp);
    }
    vh::begin_case("case folding of " + units(s));
    auto f = lexy::as_string<std::basic_string<C>, Enc>.case_folding(dsl::unicode::simple_case_folding);
    auto got = f(s.data(), s.data() + s.size());
    if (got != w)
        vh::violation("fold-text", "simple case folding of " + units(s) + "gave " + units(got) + "expected " + units(w));
    auto a = lexy::as_string<std::basic_string<C>, Enc>.case_folding(dsl::ascii::case_folding);
    if (auto g2 = a(s.data(), s.data() + s.size()); g2 != wa)
        vh::violation("ascii-fold-text", "ASCII case folding of " + units(s) + "gave " + units(g2));
    auto sink = f.sink();
    for (auto c : s)
        sink(c);
    if (auto g3 = std::move(sink).finish(); g3 != w)
        vh::violation("fold-sink", "case folding sink of " + units(s));
    vh::count(ill ? "fold_strings_malformed" : "fold_strings");
}
// literals with case folding: exactly the code points that fold to them
template <char32_t... CP>
struct fold_list
{};
template <char32_t CP>
struct fold_lit
{
    static constexpr auto rule = dsl::unicode::simple_case_folding(dsl::lit_cp<CP>) + dsl::eof;
};
template <char32_t CP>
struct plain_lit
{
    static constexpr auto rule = dsl::lit_cp<CP> + dsl::eof;
};
template <class P, class Enc>
static bool lit_match(std::uint32_t cp)
{
    auto s = u8::enc<typename Enc::char_type>(cp);
    return lexy::match<P>(lexy::string_input<Enc>(s.data(), s.size()));
}
template <char32_t CP>
static void lit_check(std::uint32_t cp)
{
    bool want = u8::scalar(cp) && u8::fold(cp) == CP;
    if (lit_match<fold_lit<CP>, lexy::utf8_encoding>(cp) != want || lit_match<fold_lit<CP>, lexy::utf16_encoding>(cp) != want
        || lit_match<fold_lit<CP>, lexy::utf32_encoding>(cp) != want)
        vh::violation("fold-literal", "case folded literal U+" + hex(CP) + " on U+" + hex(cp));
    bool eq = cp == CP;
    if (lit_match<plain_lit<CP>, lexy::utf8_char_encoding>(cp) != eq || lit_match<plain_lit<CP>, lexy::utf16_encoding>(cp) != eq
        || lit_match<plain_lit<CP>, lexy::utf32_encoding>(cp) != eq)
        vh::violation("cp-literal", "literal U+" + hex(CP) + " on U+" + hex(cp));
}
template <char32_t... CP>
static void lits(fold_list<CP...>, std::uint32_t cp)
{
    (lit_check<CP>(cp), ...);
}
using Lits = fold_list<'k', 's', 0xE5, 0x3C3, 0x3C9, 0x1E61, 0xDF, 0x131, 0x2CB1, 0x13A0, 0x10FFFF, 0x10428, 0x1E943, 0xFFFF, 0x10000, 0x7FF, 0x800, 0x7F, 0x80>;

static void code_points(vh::Rng& rng)
{
    auto step = std::uint32_t(vh::opt.shards);
    for (std::uint32_t cp = std::uint32_t(vh::opt.shard); cp < 0x110000; cp += step)
    {
        if ((cp / step) % 4096 == 0)
            vh::begin_case("code points from U+" + hex(cp));
        lexy::code_point c(cp);
        auto&            row = u8::row(cp);
        if (c.general_category() != row.cat)
            vh::violation("category", "general category of U+" + hex(cp));
        if (lexy::simple_case_fold(c).value() != u8::fold(cp))
            vh::violation("case-fold", "simple_case_fold of U+" + hex(cp) + " is U+" + hex(lexy::simple_case_fold(c).value()) + ", expected U+" + hex(u8::fold(cp)));
        bool priv = row.cat == lexy::code_point::Co;
        if (c.is_ascii() != (cp < 0x80) || c.is_bmp() != (cp < 0x10000) || !c.is_valid() || c.is_control() != (row.cat == lexy::code_point::Cc)
            || c.is_surrogate() != (row.cat == lexy::code_point::Cs) || c.is_private_use() != priv || c.is_scalar() != u8::scalar(cp)
            || c.is_noncharacter() != ((cp & 0xFFFE) == 0xFFFE || (cp >= 0xFDD0 && cp <= 0xFDEF)))
            vh::violation("cp-predicates", "predicate of U+" + hex(cp));
        if (u8::scalar(cp) && (vh::opt.thorough || cp < 0x3000 || cp % 16 == std::uint32_t(vh::opt.seed % 16) || (cp >= 0xFFF0 && cp < 0x10010)))
        {
            encode<std::string, lexy::utf8_char_encoding>(cp);
            encode<std::u8string, lexy::utf8_encoding>(cp);
            encode<std::u16string, lexy::utf16_encoding>(cp);
            encode<std::u32string, lexy::utf32_encoding>(cp);
            vh::count("code_points_encoded");
        }
        if (vh::opt.thorough || cp < 0x250 || (row.fold != 0) || cp % 1024 == 7 || cp == 0x10FFFF)
            lits(Lits{}, cp);
        vh::count("code_points_classified");
    }
    for (std::uint32_t cp : {0x110000u, 0xFFFFFFFFu, 0x80000000u, 0x110041u})
    {
        lexy::code_point c(cp);
        if (c.is_valid() || c.is_scalar() || c.general_category() != lexy::code_point::Cn || lexy::simple_case_fold(c).value() != cp)
            vh::violation("cp-invalid", "invalid code point " + hex(cp));
    }
    auto n = vh::cases(40000, 1000000);
    for (std::uint64_t i = 0; i < n && !vh::too_many_violations(); ++i)
    {
        fold_string<lexy::utf8_char_encoding>(rng);
        fold_string<lexy::utf16_encoding>(rng);
        fold_string<lexy::utf32_encoding>(rng);
    }
}

//=== classes ===//
static void classes(vh::Rng& rng)
{
    auto shards = std::uint32_t(vh::opt.shards);
    // code points of interest: all ASCII and Latin, the ends of all table ranges, some of the rest
    std::vector<std::uint32_t> cps;
    for (std::uint32_t c = 0; c < 0x110; ++c)
        cps.push_back(c);
    for (auto& r : u8::table)
    {
        cps.push_back(r.first);
        if (r.first)
            cps.push_back(r.first - 1);
    }
    for (int i = 0; i < 4000; ++i)
        cps.push_back(std::uint32_t(rng.below(0x110000)));
    cps.push_back(0x10FFFF);
    for (auto& e : registry())
    {
        if (vh::too_many_violations())
            return;
        vh::begin_case(std::string("class ") + e.name);
        std::vector<std::uint32_t> members, others;
        auto one = [&](std::uint32_t cp, bool utf32_only) {
            bool want = u8::scalar(cp) && e.in(cp);
            if (!utf32_only && members.size() + others.size() < 3000 && u8::scalar(cp))
                (want ? members : others).push_back(cp);
            char32_t c32 = cp;
            auto     bad = [&](const char* enc, bool got) {
                vh::violation("class-membership", std::string("class ") + e.name + (got ? " contains " : " does not contain ") + "U+" + hex(cp) + " in " + enc);
            };
            if (auto got = e.m32(&c32, 1); got != want)
                bad("UTF-32", got);
            if (utf32_only)
                return;
            auto s16 = u8::enc<char16_t>(cp);
            if (auto got = e.m16(s16.data(), s16.size()); got != want)
                bad("UTF-16", got);
            auto s8 = u8::enc<char>(cp);
            if (auto got = e.m8(s8.data(), s8.size()); got != want)
                bad("UTF-8", got);
            if (cp < 0x100)
            {
                char c  = char(cp);
                bool wa = cp < 0x80 && e.in(cp);
                if (auto got = e.ma(&c, 1); got != wa)
                    bad("ASCII", got);
                if (e.md)
                    if (auto got = e.md(&c, 1); got != wa)
                        bad("the default encoding", got);
            }
            vh::count("class_membership");
        };
        std::uint32_t idx = 0;
        for (auto cp : cps)
            if (cp < 0x80 || (idx++ % shards) == std::uint32_t(vh::opt.shard))
                one(cp, false);
        if (e.level == 2 || vh::opt.thorough)
            for (std::uint32_t cp = std::uint32_t(vh::opt.shard); cp < 0x110000; cp += shards)
                one(cp, true);
        // runs of members in text
        if (members.empty())
            members.push_back('a');
        if (others.empty())
            others.push_back('a');
        for (int k = 0, n = int(vh::cases(300, 3000)) + 8; k < n; ++k)
        {
            std::string    s8  = "#";
            std::u16string s16 = u"#";
            std::u32string s32 = U"#";
            std::size_t    l8 = 1, l16 = 1, l32 = 1;
            bool           in = true;
            int            len = rng.range(0, 40);
            int            brk = rng.range(0, 60);
            bool           asc = rng.chance(1, 2);
            for (int i = 0; i < len; ++i)
            {
                auto& from = i == brk ? others : members;
                auto  cp   = from[rng.below(asc ? std::min<std::size_t>(from.size(), 128) : from.size())];
                in         = in && e.in(cp);
                s8 += u8::enc<char>(cp), s16 += u8::enc<char16_t>(cp), s32 += u8::enc<char32_t>(cp);
                if (in)
                    l8 = s8.size(), l16 = s16.size(), l32 = s32.size();
            }
            if (e.r8(s8.data(), s8.size()) != l8 || e.r16(s16.data(), s16.size()) != l16 || e.r32(s32.data(), s32.size()) != l32)
                vh::violation("class-run", std::string("the run of ") + e.name + " in " + units(s8) + "has the wrong length: UTF-8 " + std::to_string(e.r8(s8.data(), s8.size())) + "/"
                                               + std::to_string(l8) + " UTF-16 " + std::to_string(e.r16(s16.data(), s16.size())) + "/" + std::to_string(l16) + " UTF-32 "
                                               + std::to_string(e.r32(s32.data(), s32.size())) + "/" + std::to_string(l32));
            vh::count("class_runs");
            vh::observe(std::string(e.name) + s8);
        }
    }
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        vh::Rng rng(vh::opt.seed * 64 + std::uint64_t(vh::opt.shard));
        decoding(rng);
        code_points(rng);
        classes(rng);
    });
}
