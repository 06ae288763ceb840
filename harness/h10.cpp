// Delimited rules against a loop over the decoded text.
#include "h10.hpp"
#include <algorithm>
#include <map>
#include <sstream>
namespace h07
{
std::vector<Entry>& registry()
{
    static std::vector<Entry> r;
    return r;
}
} // namespace h07
namespace h10
{
std::vector<Entry>& registry()
{
    static std::vector<Entry> r;
    return r;
}
} // namespace h10
using namespace h10;
using obs::Out;
constexpr auto npos = std::size_t(-1);
static std::uint32_t fold(int f, std::uint32_t cp)
{
    return f == 1 ? (cp >= 'A' && cp <= 'Z' ? cp + 32 : cp) : f == 2 ? u8::fold(cp) : cp;
}
static std::map<std::uint32_t, std::vector<std::uint32_t>> unfold;
static int hexval(std::uint32_t c)
{
    return c >= '0' && c <= '9' ? int(c - '0') : c >= 'a' && c <= 'f' ? int(c - 'a' + 10) : c >= 'A' && c <= 'F' ? int(c - 'A' + 10) : 99;
}
template <class C>
struct Model
{
    std::basic_string<C> in;
    std::vector<Tok>     toks;
    Out                  o;
    std::string          calls;
    text                 str;
    bool                 str_ok = true;
    std::size_t          p = 0, chars = 0; // current position, start of the current run

    u8::Dec at(std::size_t q) const
    {
        return u8::dec(in.data() + q, in.size() - q);
    }
    std::size_t match(const text& t, int f, std::size_t q) const
    {
        for (auto c : t)
        {
            auto d = at(q);
            if (d.len == 0 || fold(f, d.cp) != c)
                return npos;
            q += d.len;
        }
        return q;
    }
    int longest(const std::vector<text>& ts, int f, std::size_t q, std::size_t& end) const
    {
        int best = -1;
        end      = npos;
        for (std::size_t i = 0; i < ts.size(); ++i)
            if (auto e = match(ts[i], f, q); e != npos && (end == npos || e > end))
                end = e, best = int(i);
        return best;
    }
    std::size_t tok(const Toks& t, std::size_t q) const
    {
        std::size_t end;
        if (longest(t.texts, t.fold, q, end) >= 0)
            return end;
        return t.eof && q == in.size() ? q : npos;
    }
    bool is(bool (*cls)(h07::cp_t), std::size_t q) const
    {
        auto d = at(q);
        return d.len != 0 && cls(d.cp);
    }
    void token(std::size_t b, std::size_t e, bool err = false)
    {
        if (b == e)
            return;
        if (err && !toks.empty() && toks.back().err && toks.back().e == b)
            toks.back().e = e; // adjacent error tokens are merged
        else
            toks.push_back({b, e, err});
    }
    void error(std::string k, std::size_t b, std::size_t e)
    {
        o.errs.push_back({k, b, e});
    }
    void call(std::string s)
    {
        calls += s + " ";
    }
    void add_text(std::size_t b, std::size_t e)
    {
        for (; b < e; ++b)
            str += char32_t(std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, C>>(in[b]));
    }
    void lexeme(std::size_t b, std::size_t e)
    {
        call("L" + std::to_string(b) + "-" + std::to_string(e));
        add_text(b, e);
    }
    void end_run()
    {
        if (chars != p)
        {
            token(chars, p);
            lexeme(chars, p);
        }
    }
    // digits in [p, ...), up to n; false if none
    bool digits(int n, unsigned radix, long& v)
    {
        auto b = p;
        v      = 0;
        int k  = 0;
        for (; k < n && p < in.size(); ++k, ++p)
        {
            auto h = in[p] < 0x80 ? hexval(std::uint32_t(in[p])) : 99;
            if (h >= int(radix))
                break;
            v = v * long(radix) + h;
        }
        if (k < n)
            error("expected class ?", p, p);
        token(b, p);
        return k > 0;
    }
    bool branch(const Branch& b)
    {
        std::size_t e;
        switch (b.kind)
        {
        case b_sym: {
            auto i = longest(b.texts, 0, p, e);
            if (i < 0)
                return false;
            token(p, e);
            p = e;
            call("S" + std::to_string(i));
            str += char32_t('0' + i);
            return true;
        }
        case b_symtok: {
            e = p;
            while (is(b.cls, e))
                e += at(e).len;
            int i = -1;
            for (std::size_t k = 0; k < b.texts.size(); ++k)
                if (e != p && match(b.texts[k], 0, p) == e)
                    i = int(k);
            if (i < 0)
                return false;
            token(p, e);
            p = e;
            call("S" + std::to_string(i));
            str += char32_t('0' + i);
            return true;
        }
        case b_cap:
        case b_cap2: {
            e = p;
            for (int k = 0; k < (b.kind == b_cap ? 1 : 2); ++k)
                if (is(b.cls, e))
                    e += at(e).len;
                else
                    return false;
            token(p, e);
            lexeme(p, e);
            p = e;
            return true;
        }
        case b_none:
            if (longest(b.texts, 0, p, e) < 0)
                return false;
            token(p, e);
            p = e;
            return true;
        case b_else:
            if (longest(b.texts, 0, p, e) >= 0)
            {
                token(p, e);
                p = e;
            }
            return true;
        case b_cp:
        case b_int:
        case b_two: {
            if (longest(b.texts, 0, p, e) < 0)
                return false;
            token(p, e);
            p      = e;
            long v = 0, w = 0;
            if (b.kind == b_two)
            {
                if (digits(2, 10, v) && digits(2, 10, w))
                    call("T" + std::to_string(v) + "," + std::to_string(w));
            }
            else if (digits(b.n, b.kind == b_cp ? 16 : 10, v))
            {
                if (b.kind == b_int)
                    call("I" + std::to_string(v));
                else if (v > 0x10FFFF)
                {
                    error("invalid code point", e, p);
                    call("C?");
                    str_ok = false;
                }
                else
                {
                    call("C" + std::to_string(v));
                    if (!u8::scalar(std::uint32_t(v)))
                        str_ok = false;
                    else
                        for (auto c : u8::enc<C>(std::uint32_t(v)))
                            str += char32_t(std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, C>>(c));
                }
            }
            return true;
        }
        }
        return false;
    }
    // how many units a character that is not allowed takes
    std::size_t bad_length(bool unicode) const
    {
        if (!unicode)
            return 1;
        if (auto d = at(p); d.len)
            return d.len;
        if constexpr (sizeof(C) == 1)
        {
            auto        a = (unsigned char)in[p];
            std::size_t n = a >= 0xC0 && a < 0xE0 ? 2 : a >= 0xE0 && a < 0xF0 ? 3 : a >= 0xF0 && a < 0xF8 ? 4 : 1;
            std::size_t k = 1;
            while (k < n && p + k < in.size() && ((unsigned char)in[p + k] & 0xC0) == 0x80)
                ++k;
            return k;
        }
        return 1;
    }
    void body(const Spec& s)
    {
        auto e = tok(s.open, p);
        if (e == npos)
        {
            error("?", p, p);
            return;
        }
        token(p, e);
        p = chars  = e;
        auto begin = e;
        while (true)
        {
            if ((e = tok(s.close, p)) != npos)
                break;
            if (p == in.size() || (s.limit && is(s.limit, p)))
            {
                end_run();
                error(s.error, begin, p);
                return;
            }
            bool esc = false;
            for (auto& x : s.escapes)
            {
                if ((e = tok(x.token, p)) == npos)
                    continue;
                end_run();
                auto b = p;
                token(p, e);
                p          = e;
                bool found = false;
                for (auto& y : x.branches)
                    if (branch(y))
                    {
                        found = true;
                        break;
                    }
                if (!found)
                    error("invalid escape sequence", b, e);
                chars = p;
                esc   = true;
                vh::count(found ? "escapes" : "invalid_escapes");
                break;
            }
            if (esc)
                continue;
            auto d = at(p);
            if (d.len && s.cls(d.cp))
                p += d.len;
            else
            {
                end_run();
                auto n = bad_length(s.unicode);
                error("expected class ?", p, p);
                token(p, p + n, true);
                p += n;
                chars = p;
                vh::count("bad_characters");
            }
        }
        end_run();
        token(p, e);
        p        = e;
        o.status = o.errs.empty() ? obs::success : obs::recovered;
    }
};
static bool same(const Out& want, const Out& got)
{
    if (want.status != got.status || want.errs.size() != got.errs.size())
        return false;
    if (want.status != obs::fatal && want.value != got.value)
    {
        std::istringstream a(want.value), b(got.value);
        std::string        x, y;
        while (true)
        {
            bool m = bool(a >> x), n = bool(b >> y);
            if (m != n)
                return false;
            if (!m)
                break;
            auto wild = x.find("C?");
            if (x != y && (wild == std::string::npos || y.size() <= wild || y[wild] != 'C'))
                return false;
        }
    }
    for (std::size_t i = 0; i < want.errs.size(); ++i)
    {
        auto &w = want.errs[i], &g = got.errs[i];
        if (w.b != g.b || w.e != g.e)
            return false;
        if (w.kind == "expected class ?")
        {
            if (g.kind.rfind("expected class", 0) != 0 && g.kind.rfind("expected literal", 0) != 0)
                return false;
        }
        else if (w.kind != "?" && w.kind != g.kind)
            return false;
    }
    return true;
}
static text variation(text t, int f, vh::Rng& rng)
{
    if (f)
        for (auto& c : t)
            if (auto it = unfold.find(c); it != unfold.end() && rng.chance(1, 2))
                if (f == 2 || it->second[0] < 0x80)
                    c = char32_t(it->second[f == 2 ? rng.below(it->second.size()) : 0]);
    return t;
}
static text pick_tok(const Toks& t, vh::Rng& rng)
{
    auto x = t.texts[rng.below(t.texts.size())];
    if (rng.chance(1, 12))
        x.resize(rng.below(x.size() + 1));
    return variation(x, t.fold, rng);
}
static text make_input(const Spec& s, vh::Rng& rng)
{
    static const std::u32string ascii    = U"abcefknqstuwxzEKSU0123456789 !\"#$%&'()*+,-./;<=>?[\\]^_`{|}~\t";
    static const std::u32string strange  = U"\n\r\u0085\u2028\u00e9\u03c3\u20ac\U0001F600\U00010428\u0300\u0378\x7f\x01\u212a\u017f\u00a0\uFFFD\U0010FFFF";
    text                        r;
    if (rng.chance(1, 12))
        r += U" \t";
    r += pick_tok(s.open, rng);
    int pieces = rng.range(0, 6);
    for (int i = 0; i < pieces; ++i)
        switch (rng.below(9))
        {
        case 0:
        case 1: { // a run of plain content, long enough for several words
            auto n = rng.below(rng.chance(1, 4) ? 40 : 12);
            for (; n > 0; --n)
            {
                auto c = rng.pick(ascii);
                if (s.cls(c) || rng.chance(1, 50))
                    r += c;
                else
                    r += U'a';
            }
            break;
        }
        case 2:
            for (auto n = rng.below(4); n > 0; --n)
                r += rng.pick(strange);
            break;
        case 3:
            r += rng.chance(1, 3) ? pick_tok(s.close, rng) : pick_tok(s.open, rng);
            break;
        case 4: { // the beginning of the closing delimiter
            auto t = pick_tok(s.close, rng);
            t.resize(t.size() ? t.size() - 1 : 0);
            r += t;
            break;
        }
        case 5:
            r += rng.pick(ascii);
            break;
        default: {
            if (s.escapes.empty())
            {
                r += U"\\";
                break;
            }
            auto& e = s.escapes[rng.below(s.escapes.size())];
            r += pick_tok(e.token, rng);
            auto& b = e.branches[rng.below(e.branches.size())];
            if (!b.texts.empty())
                r += b.texts[rng.below(b.texts.size())];
            if (b.kind >= b_cap && b.kind <= b_two && rng.chance(7, 8))
                for (int n = rng.range(0, std::max(b.n, 2)) + (rng.chance(1, 2) ? b.n : 0); n > 0; --n)
                    r += b.kind == b_cp ? U"0123456789abcdefABCDEFd"[rng.below(23)] : char32_t('0' + rng.below(10));
            if (rng.chance(1, 3))
                r += rng.chance(1, 2) ? rng.pick(ascii) : rng.pick(strange);
        }
        }
    if (rng.chance(9, 10))
        r += pick_tok(s.close, rng);
    for (auto n = rng.below(6); n > 0; --n)
        r += rng.chance(1, 3) ? U' ' : rng.pick(ascii);
    return r;
}
template <class C>
static void check(const Entry& e, const text& t, vh::Rng& rng, Res (*run)(Variant, bool, const std::basic_string<C>&))
{
    std::basic_string<C> s;
    for (auto c : t)
        s += u8::enc<C>(c);
    if (rng.chance(1, 6))
        for (int k = rng.range(1, 2); k > 0; --k)
        {
            // damage: remove a code unit or insert one that cannot be there
            if (rng.chance(1, 2) && !s.empty())
                s.erase(s.begin() + long(rng.below(s.size())));
            else
                s.insert(s.begin() + long(rng.below(s.size() + 1)), C(sizeof(C) == 1 ? 0x80 + rng.below(0x7F) : sizeof(C) == 2 ? 0xD800 + rng.below(0x800) : 0x110000 + rng.below(0x1000)));
        }
    auto v   = Variant(rng.chance(2, 3) ? 0 : rng.range(1, 2));
    bool buf = rng.chance(2, 3);
    vh::begin_case(std::string(e.name) + (v == v_branch ? " as branch" : v == v_space ? " with whitespace" : "") + (buf ? " in a buffer" : "") + " with " + std::to_string(sizeof(C))
                   + " byte units on " + vh::esc(obs::narrow<void>(s.data(), s.size())));
    Model<C> m;
    m.in      = s;
    auto skip = [&] {
        while (v == v_space && m.p < s.size() && (s[m.p] == ' ' || s[m.p] == '\t'))
            ++m.p;
    };
    skip();
    auto start = m.p;
    m.body(e.spec);
    auto w = m.o;
    if (w.status != obs::fatal)
    {
        skip();
        w.value = std::to_string(start) + ":" + m.calls + "@" + std::to_string(m.p);
    }
    else if (v == v_branch && w.errs[0].kind == "?")
        w = {obs::success, {}, "none"};
    auto got = run(v, buf, s);
    if (!same(w, got.out))
        vh::violation("delimited", "got " + got.out.str() + ", expected " + w.str());
    else if (v == v_full)
    {
        if (w.status != obs::fatal && got.toks != m.toks)
        {
            std::string msg = "tokens differ, got";
            for (auto& k : got.toks)
                msg += " " + std::to_string(k.b) + "-" + std::to_string(k.e) + (k.err ? "!" : "");
            msg += ", expected";
            for (auto& k : m.toks)
                msg += " " + std::to_string(k.b) + "-" + std::to_string(k.e) + (k.err ? "!" : "");
            vh::violation("delimited-tokens", msg);
        }
        if (e.as_string && m.str_ok && (got.has_text != (w.status != obs::fatal) || (got.has_text && got.str != m.str)))
            vh::violation("delimited-string", "as_string produced " + std::string(got.has_text ? obs::narrow<void>(got.str.data(), got.str.size()) : "nothing") + ", expected "
                                                  + (w.status != obs::fatal ? obs::narrow<void>(m.str.data(), m.str.size()) : "nothing"));
        if (e.as_string && got.has_text && m.str_ok)
            vh::count("strings_built");
    }
    vh::count(w.status == obs::success ? "delimited" : w.status == obs::recovered ? "delimited_recovered" : w.errs[0].kind == "?" ? "not_opened" : "missing_delimiter");
    vh::observe(std::string(e.name) + obs::narrow<void>(s.data(), s.size()));
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        for (std::uint32_t i = 0; i + 1 < u8::table.size(); ++i)
            if (u8::table[i].fold != 0)
                for (auto cp = u8::table[i].first; cp < u8::table[i + 1].first; ++cp)
                    unfold[u8::fold(cp)].push_back(cp);
        vh::Rng rng(vh::opt.seed * 64 + std::uint64_t(vh::opt.shard));
        auto&   reg = registry();
        auto    n   = vh::cases(400000, 12000000);
        for (std::uint64_t i = 0; i < n && !vh::too_many_violations(); ++i)
        {
            auto& e = reg[i % reg.size()];
            auto  t = make_input(e.spec, rng);
            switch (rng.below(5))
            {
            case 0:
                check<char16_t>(e, t, rng, e.r16);
                break;
            case 1:
                check<char32_t>(e, t, rng, e.r32);
                break;
            default:
                check<char>(e, t, rng, e.r8);
            }
        }
    });
}
