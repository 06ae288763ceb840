// Tracked values: every value is delivered exactly once, in order, and destroyed, whatever happens.
#ifndef GOBS_TRACKED
#    define GOBS_TRACKED
#endif
#include "gdrive.hpp"
namespace gd
{
template <class P>
void track(const Entry& e, const std::string& s, const Obs& m)
{
    using gobs::Str;
    auto where = [&] { return std::string(" of grammar ") + e.name + " on \"" + vh::esc(s) + "\"\n  grammar: " + e.model; };
    auto run   = [](const auto& in) { return gobs::run_parse<P>(in); };
    Str::made = Str::delivered = 0;
    auto r    = gobs::with_buffer<lexy::utf8_char_encoding>(s, run);
    auto n    = Str::made;
    vh::count("values_made", std::uint64_t(n));
    vh::count("values_delivered", std::uint64_t(Str::delivered));
    if (Str::live != 0)
    {
        vh::violation("value-leak", std::to_string(Str::live) + " values were never destroyed by parse()" + where());
        Str::live = 0;
    }
    compare("parse", e, s, m, r, false);
    // a callback that throws: everything is cleaned up on the way out
    if (n > 0)
    {
        auto k        = 1 + long(vh::hash(s) % std::uint64_t(n));
        Str::made     = 0;
        Str::throw_at = k;
        bool thrown   = false;
        try
        {
            gobs::with_buffer<lexy::utf8_char_encoding>(s, run);
        }
        catch (long)
        {
            thrown = true;
        }
        Str::throw_at   = 0;
        gobs::value_log = nullptr;
        if (!thrown)
            vh::violation("value-throw", "an exception thrown by a callback did not leave parse()" + where());
        if (Str::live != 0)
        {
            vh::violation("value-leak-throw", std::to_string(Str::live) + " values were never destroyed after a callback threw" + where());
            Str::live = 0;
        }
        vh::count("callbacks_thrown");
    }
}
template <class P>
Entry make(const char* name, const char* model)
{
    Entry e{name, model};
    e.parse = [](const std::string& s) {
        return gobs::with_string<lexy::utf8_char_encoding>(s, [](const auto& in) { return gobs::run_parse<P>(in); });
    };
    e.extra = &track<P>;
    return e;
}
} // namespace gd
