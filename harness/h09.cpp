// Literals, symbols, keywords and identifiers against a search over code points.
#include "h09.hpp"
#include <algorithm>
#include <map>
namespace h07
{
std::vector<Entry>& registry()
{
    static std::vector<Entry> r;
    return r;
}
} // namespace h07
namespace h09
{
std::vector<Entry>& registry()
{
    static std::vector<Entry> r;
    return r;
}
} // namespace h09
using namespace h09;
using obs::Out;
constexpr std::uint32_t bad = 0xFFFFFFFF;
struct Cell
{
    std::uint32_t cp; // bad: a code unit that is not part of a code point
    std::size_t   pos;
};
static std::uint32_t fold(int f, std::uint32_t cp)
{
    if (cp == bad)
        return cp;
    return f == 1 ? (cp >= 'A' && cp <= 'Z' ? cp + 32 : cp) : f == 2 ? u8::fold(cp) : cp;
}
static std::map<std::uint32_t, std::vector<std::uint32_t>> unfold;
template <class C>
struct Model
{
    std::basic_string<C> in;
    std::vector<Cell>    cells;
    explicit Model(std::basic_string<C> s) : in(std::move(s))
    {
        for (std::size_t p = 0; p < in.size();)
        {
            auto d = u8::dec(in.data() + p, in.size() - p);
            cells.push_back({d.len ? d.cp : bad, p});
            p += d.len ? d.len : 1;
        }
    }
    std::size_t pos(std::size_t c) const
    {
        return c < cells.size() ? cells[c].pos : in.size();
    }
    // number of cells matched or -1; in [from, to)
    int match(const text& t, int f, std::size_t from, std::size_t to) const
    {
        for (std::size_t i = 0; i < t.size(); ++i)
            if (from + i >= to || fold(f, cells[from + i].cp) != t[i])
                return -1;
        return int(t.size());
    }
    bool is(bool (*cls)(h07::cp_t), std::size_t c, int f = 0) const
    {
        return c < cells.size() && cells[c].cp != bad && cls(fold(f, cells[c].cp));
    }
    std::size_t run(const Spec& s, std::size_t c, int f = 0) const // identifier pattern
    {
        if (!is(s.lead, c, f))
            return c;
        ++c;
        while (is(s.trail, c, f))
            ++c;
        return c;
    }
    // longest text of a set; index or -1
    int longest(const Spec& s, std::size_t to, std::size_t& end) const
    {
        int best = -1;
        for (std::size_t i = 0; i < s.texts.size(); ++i)
        {
            auto n = match(s.texts[i].s, s.fold, 0, to);
            if (n < 0 || (s.texts[i].kw && is(s.trail, std::size_t(n), s.fold)))
                continue;
            if (best < 0 || std::size_t(n) > end)
                best = int(i), end = std::size_t(n);
        }
        return best;
    }
    std::string units_of(const text& t) const
    {
        std::basic_string<C> u;
        for (auto c : t)
            u += u8::enc<C>(c);
        return obs::narrow<void>(u.data(), u.size());
    }
    Out want(const Spec& s) const
    {
        Out  o;
        auto done = [&](std::string v, std::size_t end) {
            o.status = o.errs.empty() ? obs::success : obs::recovered;
            o.value  = v + "@" + std::to_string(pos(end));
        };
        auto fail = [&](std::string k, std::size_t b, std::size_t e) { o.errs.push_back({k, b, e}); };
        std::size_t end = 0;
        switch (s.kind)
        {
        case k_lit: {
            auto n = match(s.texts[0].s, s.fold, 0, cells.size());
            if (n >= 0)
                done("", std::size_t(n));
            else
            {
                // how much of the literal was there, in code units
                std::basic_string<C> u;
                for (auto c : s.texts[0].s)
                    u += u8::enc<C>(c);
                std::size_t i = 0;
                auto        unit = [&](std::size_t k) { return s.fold && in[k] >= 'A' && in[k] <= 'Z' ? C(in[k] + 32) : in[k]; };
                while (i < u.size() && i < in.size() && unit(i) == u[i])
                    ++i;
                fail("expected literal " + units_of(s.texts[0].s) + " at " + (s.fold == 2 ? "?" : std::to_string(i)), 0, 0);
            }
            break;
        }
        case k_set:
            if (longest(s, cells.size(), end) >= 0)
                done("", end);
            else
                fail("expected literal set", 0, 0);
            break;
        case k_kw: {
            auto n = match(s.texts[0].s, s.fold, 0, cells.size());
            if (n >= 0 && !is(s.trail, std::size_t(n), s.fold))
                done("", std::size_t(n));
            else
                fail("expected keyword " + units_of(s.texts[0].s), 0, pos(run(s, 0, s.fold)));
            break;
        }
        case k_sym: {
            auto i = longest(s, cells.size(), end);
            if (i >= 0)
                done("=" + std::to_string(i * 3 + 1), end);
            else
                fail("unknown symbol", 0, 0);
            break;
        }
        case k_symtok:
        case k_symid: {
            std::size_t to = 0;
            if (s.kind == k_symid)
                to = run(s, 0);
            else
                while (is(s.trail, to))
                    ++to;
            if (to == 0)
            {
                fail(s.kind == k_symid ? "expected class ?" : "missing token", 0, 0);
                break;
            }
            auto i = -1;
            for (std::size_t k = 0; k < s.texts.size(); ++k)
                if (s.texts[k].s.size() == to && match(s.texts[k].s, s.fold, 0, to) >= 0)
                    i = int(k);
            if (i >= 0)
                done("=" + std::to_string(i * 3 + 1), to);
            else
                fail("unknown symbol", 0, pos(to));
            break;
        }
        case k_id: {
            auto to = run(s, 0);
            if (to == 0)
            {
                fail("expected class ?", 0, 0);
                break;
            }
            bool res = false;
            for (auto& r : s.reserved)
                for (auto& t : r.texts)
                {
                    auto n = t.size();
                    if (n > to)
                        continue;
                    if (r.how == 'e')
                        res = res || (n == to && match(t, r.fold, 0, to) >= 0);
                    else if (r.how == 'p')
                        res = res || match(t, r.fold, 0, to) >= 0;
                    else if (r.how == 's')
                        res = res || match(t, r.fold, to - n, to) >= 0;
                    else
                        for (std::size_t k = 0; k + n <= to; ++k)
                            res = res || match(t, r.fold, k, to) >= 0;
                }
            if (res)
                fail("reserved identifier", 0, pos(to));
            done("[0," + std::to_string(pos(to)) + ")", to);
            break;
        }
        }
        return o;
    }
};
static bool same(const Out& want, const Out& got)
{
    if (want.status != got.status || want.errs.size() != got.errs.size() || (want.status != obs::fatal && want.value != got.value))
        return false;
    for (std::size_t i = 0; i < want.errs.size(); ++i)
    {
        auto &w = want.errs[i], &g = got.errs[i];
        if (w.b != g.b || w.e != g.e)
            return false;
        if (w.kind == "expected class ?")
        {
            if (g.kind.rfind("expected class", 0) != 0 && g.kind.rfind("expected literal", 0) != 0)
                return false;
        }
        else if (w.kind.back() == '?')
        {
            if (g.kind.compare(0, w.kind.size() - 1, w.kind, 0, w.kind.size() - 1) != 0)
                return false;
        }
        else if (w.kind != g.kind)
            return false;
    }
    return true;
}
static text make_input(const Spec& s, vh::Rng& rng)
{
    static const std::u32string alphabet = U"abkSs_1-+=<>$ A\u00e9\u00c9\u03c3\u03c2\u03a3\u212a\u017f\u00df\u1e9e\U00010428\U00010400\u20ac\u0345\u0300.z";
    text                        r;
    std::vector<const text*>    all;
    for (auto& t : s.texts)
        all.push_back(&t.s);
    for (auto& q : s.reserved)
        for (auto& t : q.texts)
            all.push_back(&t);
    for (int n = rng.range(1, 4); n > 0; --n)
    {
        if (!all.empty() && rng.chance(3, 4))
        {
            auto t = *all[rng.below(all.size())];
            if (rng.chance(1, 5))
                t.resize(rng.below(t.size() + 1));
            for (auto& c : t)
            {
                // another character with the same folding
                if (rng.chance(1, 3))
                    if (auto it = unfold.find(c); it != unfold.end())
                        c = char32_t(it->second[rng.below(it->second.size())]);
                if (rng.chance(1, 40))
                    c = rng.pick(alphabet);
            }
            r += t;
        }
        else
            for (auto k = rng.below(4); k > 0; --k)
                r += rng.pick(alphabet);
        if (rng.chance(1, 3))
            break;
    }
    return r;
}
template <class C>
static void check(const Entry& e, const text& t, vh::Rng& rng, Out (*run)(bool, bool, const std::basic_string<C>&))
{
    std::basic_string<C> s;
    for (auto c : t)
        s += u8::enc<C>(c);
    if (rng.chance(1, 10))
    {
        // damage: truncate or insert a code unit that cannot be there
        if (rng.chance(1, 2) && !s.empty())
            s.resize(s.size() - 1);
        else
            s.insert(s.begin() + long(rng.below(s.size() + 1)), C(sizeof(C) == 1 ? 0x80 + rng.below(0x7F) : sizeof(C) == 2 ? 0xD800 + rng.below(0x800) : 0x110000 + rng.below(0x1000)));
    }
    bool br = rng.chance(1, 3), buf = rng.chance(1, 2);
    vh::begin_case(std::string(e.name) + (br ? " as branch" : "") + (buf ? " in a buffer" : "") + " with " + std::to_string(sizeof(C)) + " byte units on "
                   + vh::esc(obs::narrow<void>(s.data(), s.size())));
    Model<C> m(s);
    auto     w = m.want(e.spec);
    if (br && !w.errs.empty())
        w = {obs::success, {}, "none"};
    auto got = run(br, buf, s);
    if (!same(w, got))
        vh::violation("literal", "got " + got.str() + ", expected " + w.str());
    static const char* kinds[] = {"literals", "literal_sets", "keywords", "symbols", "symbols_in_tokens", "symbols_in_identifiers", "identifiers"};
    vh::count(kinds[e.spec.kind]);
    vh::count(w.status == obs::success && w.value != "none" ? "matched" : w.status == obs::recovered ? "reserved" : "not_matched");
    vh::observe(std::string(e.name) + obs::narrow<void>(s.data(), s.size()));
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        for (std::uint32_t i = 0; i + 1 < u8::table.size(); ++i)
            if (u8::table[i].fold != 0)
                for (auto cp = u8::table[i].first; cp < u8::table[i + 1].first; ++cp)
                    unfold[u8::fold(cp)].push_back(cp);
        vh::Rng rng(vh::opt.seed * 64 + std::uint64_t(vh::opt.shard));
        auto&   reg = registry();
        auto    n   = vh::cases(500000, 15000000);
        for (std::uint64_t i = 0; i < n && !vh::too_many_violations(); ++i)
        {
            auto& e = reg[i % reg.size()];
            auto  t = make_input(e.spec, rng);
            switch (rng.below(4))
            {
            case 0:
                check<char16_t>(e, t, rng, e.r16);
                break;
            case 1:
                check<char32_t>(e, t, rng, e.r32);
                break;
            default:
                check<char8_t>(e, t, rng, e.r8);
            }
        }
    });
}
