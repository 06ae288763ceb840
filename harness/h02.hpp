#pragma once
#include "gobs.hpp"
namespace h02
{
using namespace gobs;
using Units = std::vector<std::uint32_t>;
struct Concat
{
    using return_type = std::string;
    std::string s;
    template <class Reader>
    void operator()(const lexy::lexeme<Reader>& l)
    {
        for (auto c : l)
            s += std::to_string(static_cast<unsigned long>(static_cast<typename Reader::encoding::char_type>(c)) & 0xFFFFFFFF) + ".";
    }
    void operator()(lexy::code_point cp)
    {
        s += "U" + std::to_string(cp.value()) + ".";
    }
    template <class T>
    auto operator()(T t) -> std::enable_if_t<std::is_arithmetic_v<T>>
    {
        s += "V" + std::to_string(t) + ".";
    }
    std::string finish() &&
    {
        return s;
    }
};
struct SinkOnly
{
    Concat sink() const
    {
        return {};
    }
};
struct V
{
    using return_type = std::string;
    template <class Reader>
    static std::string sh(const lexy::lexeme<Reader>& l)
    {
        Concat c;
        c(l);
        return std::to_string(off(l.begin())) + ":" + c.s;
    }
    static std::string sh(const std::string& s)
    {
        return s;
    }
    template <class It>
    static auto sh(It it) -> decltype(off(it), std::string())
    {
        return "@" + std::to_string(off(it));
    }
    template <class... A>
    std::string operator()(A&&... a) const
    {
        std::string r;
        ((r += sh(a) + "|"), ...);
        return r;
    }
};
struct Entry
{
    const char *name, *run, *special;
    void (*fn)(const Entry&, const Units&, int encoding);
};
std::vector<Entry>& registry();

inline std::string text(const Obs& o)
{
    std::string r = "status " + std::to_string(o.status) + " value " + (o.has_value ? o.value : "-");
    for (auto& e : o.errors)
        r += "; " + e;
    return r;
}
inline std::string hex(const Units& u)
{
    std::string r;
    char        b[16];
    for (auto c : u)
    {
        if (c >= 0x20 && c < 0x7f)
            std::snprintf(b, sizeof b, "%c", char(c));
        else
            std::snprintf(b, sizeof b, "\\{%x}", c);
        r += b;
    }
    return r;
}
extern const char* encoding_names[5];
// results of the same ASCII text in earlier encodings
extern std::string ascii_reference;

template <class G, class E>
void run_encoding(const Entry& e, const Units& u, int encoding)
{
    using C = typename E::char_type;
    std::vector<C> v;
    for (auto c : u)
        v.push_back(C(c));
    auto parse = [](const auto& in) { return run_parse<G>(in); };

    vh::Exact<C> ex(v.data(), v.size());
    Fwd<C>       b{ex.data, ex.data + ex.size, 0}, en{ex.data, ex.data + ex.size, ex.size};
    auto         ref = text(parse(lexy::range_input<E, Fwd<C>>(b, en)));
    auto         cmp = [&](const char* what, const Obs& o) {
        auto got = text(o);
        if (got != ref)
            vh::violation(std::string("representation-") + what + "-" + e.name,
                          std::string("grammar ") + e.name + ", " + encoding_names[encoding] + ", text \"" + hex(u) + "\": " + what
                              + " gives " + got + " but a forward range gives " + ref);
    };
    base = ex.data;
    cmp("string_input", parse(lexy::string_input<E>(ex.data, ex.size)));
    {
        lexy::buffer<E> buf(v.data(), v.size());
        base = buf.data();
        cmp("buffer", parse(buf));
        auto copy = buf;
        base      = copy.data();
        cmp("copied buffer", parse(copy));
    }
    {
        std::vector<C> w;
        auto           k = v.size() % 5;
        for (std::size_t i = 0; i < k; ++i)
            w.push_back(C('a'));
        for (auto c : v)
            w.push_back(c);
        for (auto c : v) // what follows continues the text
            w.push_back(c);
        for (int i = 0; i < 9; ++i)
            w.push_back(C('"'));
        lexy::buffer<E> buf(w.data(), w.size());
        base = buf.data() + k;
        using L = lexy::lexeme_for<lexy::buffer<E>>;
        cmp("lexeme_input", parse(lexy::lexeme_input<lexy::buffer<E>>(buf, L(buf.data() + k, buf.data() + k + v.size()))));
    }
    bool ascii = true;
    for (auto c : u)
        ascii &= c < 0x80;
    if (ascii)
    {
        if (ascii_reference.empty())
            ascii_reference = ref;
        else if (ascii_reference != ref)
            vh::violation(std::string("encoding-") + e.name, std::string("grammar ") + e.name + ", text \"" + hex(u) + "\": " + encoding_names[encoding]
                                                                 + " gives " + ref + " but " + encoding_names[0] + " gives "
                                                                 + ascii_reference);
    }
    vh::observe(std::string(e.name) + encoding_names[encoding] + ref);
    vh::count("representations_compared", 4);
}
template <class G>
void run_all(const Entry& e, const Units& u, int encoding)
{
    switch (encoding)
    {
    case 0: return run_encoding<G, lexy::utf8_char_encoding>(e, u, 0);
    case 1: return run_encoding<G, lexy::utf16_encoding>(e, u, 1);
    case 2: return run_encoding<G, lexy::utf32_encoding>(e, u, 2);
    case 3: return run_encoding<G, lexy::ascii_encoding>(e, u, 3);
    case 4: return run_encoding<G, lexy::default_encoding>(e, u, 4);
    }
}
} // namespace h02
