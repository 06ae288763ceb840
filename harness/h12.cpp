// Locations and line annotations against counting from the beginning of the input.
#include "u8.hpp"
#include "vh.hpp"
#include <lexy/input/buffer.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/input_location.hpp>
#include <forward_list>
enum Count
{
    c_unit,
    c_point,
    c_byte
};
struct Loc
{
    std::size_t line_begin, column_begin;
    unsigned    line, column;
};
template <class C>
struct Text
{
    std::basic_string<C> s;
    Count                how;
    std::size_t          width;
    std::size_t          newline(std::size_t p) const // length of the newline at p
    {
        if (how == c_byte || p >= s.size())
            return 0;
        if (s[p] == '\n')
            return 1;
        return s[p] == '\r' && p + 1 < s.size() && s[p + 1] == '\n' ? 2 : 0;
    }
    std::size_t column(std::size_t p) const
    {
        if (how == c_point)
            if (auto d = u8::dec(s.data() + p, s.size() - p); d.len)
                return d.len;
        return 1;
    }
    Loc at(std::size_t pos) const
    {
        if (how == c_byte)
            return {pos / width * width, pos, unsigned(pos / width + 1), unsigned(pos % width + 1)};
        Loc         l{0, 0, 1, 1};
        std::size_t p = 0;
        while (p < pos)
        {
            auto n = newline(p);
            if (n ? p + n > pos : p + column(p) > pos)
                break; // inside
            if (n)
            {
                p += n;
                l = {p, p, l.line + 1, 1};
            }
            else
            {
                p += column(p);
                l.column_begin = p;
                ++l.column;
            }
        }
        return l;
    }
    bool valid() const
    {
        for (std::size_t p = 0; p < s.size();)
        {
            auto d = u8::dec(s.data() + p, s.size() - p);
            if (!d.len)
                return false;
            p += d.len;
        }
        return true;
    }
    bool inside(std::size_t p) const // of a code point; in valid text
    {
        if (p >= s.size())
            return false;
        if constexpr (sizeof(C) == 1)
            return (s[p] & 0xC0) == 0x80;
        else if constexpr (sizeof(C) == 2)
            return s[p] >= 0xDC00 && s[p] < 0xE000;
        return false;
    }
};
static std::string show(const Loc& l)
{
    return std::to_string(l.line) + ":" + std::to_string(l.column) + " at " + std::to_string(l.column_begin) + " in line from " + std::to_string(l.line_begin);
}
template <class Enc, class Counting, class C, class Input>
void check(const Text<C>& t, const Input& in, vh::Rng& rng, bool unicode)
{
    auto base = in.reader().position();
    auto at   = [&](std::size_t k) { return std::next(base, long(k)); };
    auto n    = t.s.size();
    bool ok   = t.valid();
    auto off  = [&](auto it) { return std::size_t(std::distance(base, it)); };
    auto get  = [&](auto loc) { return Loc{off(lexy::get_input_line_annotation(in, loc, std::size_t(1)).before.begin()), off(loc.position()), loc.line_nr(), loc.column_nr()}; };
    auto same = [&](const Loc& a, const Loc& b) { return a.line_begin == b.line_begin && a.column_begin == b.column_begin && a.line == b.line && a.column == b.column; };
    auto all  = n <= 12;
    auto reps = all ? n + 1 : 6;
    for (std::size_t i = 0; i < reps; ++i)
    {
        auto pos  = all ? i : rng.below(n + 1);
        auto loc  = lexy::get_input_location<Counting>(in, at(pos));
        auto got  = get(loc);
        auto want = t.at(pos);
        if (!same(got, want))
            vh::violation("location", "position " + std::to_string(pos) + ": got " + show(got) + ", expected " + show(want));
        vh::count("locations");
        if constexpr (std::is_same_v<Counting, lexy::code_unit_location_counting> || std::is_same_v<Counting, lexy::byte_location_counting<>>)
        {
            auto def = lexy::get_input_location(in, at(pos));
            static_assert(std::is_same_v<decltype(def), decltype(loc)>);
            if (def != loc || !same(get(def), want) || !same(get(lexy::get_input_location(in, at(pos), def.anchor())), want))
                vh::violation("location-default", "position " + std::to_string(pos) + ": default counting gives " + show(get(def)) + ", expected " + show(want));
        }
        if (pos == 0)
            if (lexy::input_location<Input, Counting> first(in); first != loc || !same(get(first), want))
                vh::violation("location-first", "input_location(input) is not the beginning");
        // from an anchor of an earlier location
        auto before = rng.below(pos + 1);
        auto anchor = lexy::get_input_location<Counting>(in, at(before)).anchor();
        got         = get(lexy::get_input_location<Counting>(in, at(pos), anchor));
        if (!same(got, want))
            vh::violation("location-anchor", "position " + std::to_string(pos) + " from " + std::to_string(before) + ": got " + show(got) + ", expected " + show(want));
        // comparison
        auto other = lexy::get_input_location<Counting>(in, at(before));
        auto ow    = t.at(before);
        auto less  = std::pair(ow.line, ow.column) < std::pair(want.line, want.column);
        auto eq    = std::pair(ow.line, ow.column) == std::pair(want.line, want.column);
        if ((other < loc) != less || (other == loc) != eq || (other != loc) != !eq || (other <= loc) != (less || eq) || (loc > other) != less || (loc >= other) != (less || eq)
            || (other > loc) || (loc < other) || (other >= loc) != eq || (loc <= other) != eq)
            vh::violation("location-compare", "locations " + show(ow) + " and " + show(want) + " compare wrongly");
        // annotations
        auto lb = want.line_begin, b = want.column_begin;
        std::size_t le = lb, ne;
        if (t.how == c_byte)
            le = ne = std::min(n, lb + t.width);
        else
        {
            while (le < n && t.newline(le) == 0)
                le += t.column(le);
            ne = le + t.newline(le);
        }
        for (int k = 0; k < 3; ++k)
        {
            auto e    = rng.chance(1, 4) ? b : b + rng.below(std::min<std::size_t>(n - b, rng.chance(1, 2) ? 4 : 40) + 1);
            bool size = rng.chance(1, 2);
            auto want_e = e;
            // sizes may exceed the input
            auto len = e - b + (size && rng.chance(1, 8) ? rng.below(100) : 0);
            auto ann = size ? lexy::get_input_line_annotation(in, loc, len) : lexy::get_input_line_annotation(in, loc, at(e));
            want_e   = b + len;
            auto desc = "annotation of " + std::to_string(b) + ".." + std::to_string(want_e) + (size ? " (size)" : "") + " with line " + std::to_string(lb) + ".." + std::to_string(le) + ".."
                        + std::to_string(ne) + ": before " + std::to_string(off(ann.before.begin())) + ".." + std::to_string(off(ann.before.end())) + " annotated "
                        + std::to_string(off(ann.annotated.begin())) + ".." + std::to_string(off(ann.annotated.end())) + " after " + std::to_string(off(ann.after.begin())) + ".."
                        + std::to_string(off(ann.after.end())) + (ann.truncated_multiline ? " truncated" : "") + (ann.annotated_newline ? " newline" : "") + (ann.rounded_end ? " rounded" : "");
            vh::count("annotations");
            auto ae = off(ann.annotated.end()), af = off(ann.after.end());
            if (off(ann.before.begin()) != lb || off(ann.before.end()) != b || off(ann.annotated.begin()) != b || off(ann.after.begin()) != ae || ae < b || af < ae || af > ne)
                vh::violation("annotation-parts", desc);
            else if (ann.annotated_newline && !ann.after.empty())
                vh::violation("annotation-newline", desc);
            else if (t.how == c_byte)
            {
                // every line has the same width, the last byte of a line counts as newline
                if (ae < std::min(want_e, ne) || (want_e > ne) != ann.truncated_multiline || (ae == b && b != ne) || ann.rounded_end)
                    vh::violation("annotation-bytes", desc);
            }
            else if (af != (ae > le ? ne : le))
                vh::violation("annotation-after", desc);
            else if (ann.truncated_multiline != (want_e > ne))
                vh::violation("annotation-truncated", desc);
            else if (ann.annotated_newline != (ae > le))
                vh::violation("annotation-newline", desc);
            else if (ae < std::min(want_e, ne) || (ae == b && b != ne))
                vh::violation("annotation-too-short", desc);
            else if (ok)
            {
                auto we = want_e == b ? (b == le ? ne : b + 1) : std::min(want_e, ne);
                auto re = we;
                while (unicode && re < ne && t.inside(re))
                    ++re;
                if (we > le || re > le)
                    re = ne;
                if (ae != re)
                    vh::violation("annotation-end", desc + ", expected to end at " + std::to_string(re));
                if (want_e != b && ann.rounded_end != (unicode && want_e < ne && t.inside(want_e)))
                    vh::violation("annotation-rounded", desc);
                vh::count("annotations_exact");
            }
        }
    }
}
template <class C>
std::basic_string<C> make(vh::Rng& rng)
{
    std::basic_string<C>        s;
    static const std::u32string strange = U"\u00e9\u20ac\U0001F600\u0085\u2028\f\v"
                                             // The code points at which the code units take their extreme values.
                                             U"\x7F\x80\xBF\xFF\x7FF\x800\xFFF\xD7FF\xE000\xFEFF\xFFFD\xFFFF\x10000\x103FF\x10400\x3FFFF\x40000\xFFFFF\x10FC00\x10FFFF";
    auto                        n       = rng.chance(1, 10) ? rng.below(200) : rng.below(20);
    if (rng.chance(1, 10000))
        s.assign(66000, C('x')), n = 5; // columns of more than 16 bits
    for (std::uint64_t i = 0; i < n; ++i)
        switch (rng.below(10))
        {
        case 0:
            s += C('\n');
            break;
        case 1:
            s += C('\r');
            s += C('\n');
            break;
        case 2:
            s += C('\r');
            break;
        case 3:
        case 4:
            if (rng.chance(1, 4))
            {
                auto cp = char32_t(rng.below(0x10F800));
                s += u8::enc<C>(cp < 0xD800 ? cp : cp + 0x800);
            }
            else
                s += u8::enc<C>(strange[rng.below(strange.size())]);
            break;
        default:
            s += C('a' + rng.below(26));
        }
    if (rng.chance(1, 4))
        for (int k = rng.range(1, 2); k > 0; --k)
            if (rng.chance(1, 2) && !s.empty())
                s.erase(s.begin() + long(rng.below(s.size())));
            else
                s.insert(s.begin() + long(rng.below(s.size() + 1)), C(sizeof(C) == 1 ? 0x80 + rng.below(0x7F) : sizeof(C) == 2 ? 0xD800 + rng.below(0x800) : 0x110000 + rng.below(0x1000)));
    return s;
}
template <class Enc, class Counting, class C>
void run(Text<C> t, vh::Rng& rng, const char* name, bool unicode)
{
    using char_type = typename Enc::char_type;
    auto buf        = rng.below(3);
    std::string d;
    for (auto c : t.s)
        d += sizeof(C) == 1 ? vh::esc(std::string(1, char(c))) : c < 0x80 ? vh::esc(std::string(1, char(c))) : "{" + std::to_string(std::uint32_t(c)) + "}";
    vh::begin_case(std::string(name) + (buf == 2 ? " list " : buf ? " buffer " : " string ") + d);
    if (buf == 2)
    {
        auto                       p = reinterpret_cast<const char_type*>(t.s.data());
        std::forward_list<char_type> l(p, p + t.s.size());
        auto in = lexy::range_input<Enc, decltype(l.cbegin())>(l.cbegin(), l.cend());
        check<Enc, Counting>(t, in, rng, unicode);
    }
    else if (buf)
    {
        lexy::buffer<Enc> b(reinterpret_cast<const char_type*>(t.s.data()), t.s.size());
        check<Enc, Counting>(t, b, rng, unicode);
    }
    else
    {
        vh::Exact<char_type> ex(reinterpret_cast<const char_type*>(t.s.data()), t.s.size());
        check<Enc, Counting>(t, lexy::string_input<Enc>(ex.data, ex.size), rng, unicode);
    }
    vh::observe(std::string(name) + d);
    if (rng.chance(1, 500))
        vh::sample(std::string(name) + " " + d);
}
int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        vh::Rng rng(vh::opt.seed * 64 + std::uint64_t(vh::opt.shard));
        auto    n = vh::cases(200000, 8000000);
        using unit  = lexy::code_unit_location_counting;
        using point = lexy::code_point_location_counting;
        for (std::uint64_t i = 0; i < n && !vh::too_many_violations(); ++i)
            switch (i % 10)
            {
            case 0:
                run<lexy::utf8_char_encoding, unit>(Text<char>{make<char>(rng), c_unit, 0}, rng, "utf8 unit", true);
                break;
            case 1:
                run<lexy::utf8_char_encoding, point>(Text<char>{make<char>(rng), c_point, 0}, rng, "utf8 point", true);
                break;
            case 2:
                run<lexy::utf16_encoding, unit>(Text<char16_t>{make<char16_t>(rng), c_unit, 0}, rng, "utf16 unit", true);
                break;
            case 3:
                run<lexy::utf16_encoding, point>(Text<char16_t>{make<char16_t>(rng), c_point, 0}, rng, "utf16 point", true);
                break;
            case 4:
                run<lexy::utf32_encoding, point>(Text<char32_t>{make<char32_t>(rng), c_point, 0}, rng, "utf32 point", true);
                break;
            case 5: {
                auto s = make<char>(rng);
                for (auto& c : s)
                    c = char(c & 0x7F);
                run<lexy::ascii_encoding, unit>(Text<char>{s, c_unit, 0}, rng, "ascii unit", false);
                break;
            }
            case 6:
                run<lexy::byte_encoding, lexy::byte_location_counting<>>(Text<char>{make<char>(rng), c_byte, 16}, rng, "byte 16", false);
                break;
            case 7:
                run<lexy::byte_encoding, lexy::byte_location_counting<3>>(Text<char>{make<char>(rng), c_byte, 3}, rng, "byte 3", false);
                break;
            case 8:
                run<lexy::default_encoding, unit>(Text<char>{make<char>(rng), c_unit, 0}, rng, "default unit", false);
                break;
            default:
                run<lexy::byte_encoding, lexy::byte_location_counting<1>>(Text<char>{make<char>(rng), c_byte, 1}, rng, "byte 1", false);
            }
    });
}
