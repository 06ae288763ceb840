// All actions on the same grammar and input must agree (with each other via the model).
#define G19_NO_MAKE
#include "g19.hpp"
#include "gdrive.hpp"
#include "gtrace.hpp"
namespace gd
{
// no production produces a value
struct Valueless
{
    template <class P>
    constexpr auto value_of(P) const
    {
        return lexy::noop;
    }
};
template <class P>
void actions(const Entry& e, const std::string& s, const Obs& m)
{
    auto where = [&] { return std::string(" of grammar ") + e.name + " on \"" + vh::esc(s) + "\"\n  grammar: " + e.model; };
    gobs::with_string<lexy::utf8_char_encoding>(s, [&](const auto& in) {
        auto match = lexy::match<P>(in);
        vh::expect(match == (m.status == 0), "match-differs",
                   std::string("match() is ") + (match ? "true" : "false") + " but parsing "
                       + (m.status == 0 ? "succeeds" : "reports errors") + where());
        auto v = gobs::run_validate<P>(in);
        vh::expect(v.status == m.status, "validate-status", "validate() status " + std::to_string(v.status) + ", expected "
                                                               + std::to_string(m.status) + where());
        vh::expect(v.errors == m.errors, "validate-errors", "validate() errors differ from parse()" + where());
        // lexy::noop as error callback: only the status
        auto n = lexy::validate<P>(in, lexy::noop);
        vh::expect(gobs::status_of(n) == (m.status), "validate-noop-status", "validate(noop) status" + where());
        // without values
        std::vector<std::string> errs;
        Valueless                state;
        auto                     w = lexy::parse<P>(in, state, gobs::ErrLog{&errs});
        vh::expect(gobs::status_of(w) == m.status, "parse-noop-status", "parse() without values has another status" + where());
        vh::expect(errs == m.errors, "parse-noop-errors", "parse() without values reports other errors" + where());
        // scanning the production
        {
            auto a = g19::run_action<P>(in);
            auto x = m;
            a.errors = g19::anonymous(a.errors, m.errors, false);
            x.errors = g19::anonymous(m.errors, m.errors, false);
            gd::compare("scan", e, s, x, a, false);
        }
        std::string out;
        lexy::trace_to<P>(std::back_inserter(out), in);
        auto got = gtrace::normalize(out);
        auto exp = gtrace::expected(m, s);
        if (got != exp)
            vh::violation("trace-differs", "trace() reports\n" + got + "expected\n" + exp + where());
        vh::count("trace_events", m.trace.size());
        return 0;
    });
}
template <class P>
Entry make(const char* name, const char* model)
{
    Entry e{name, model};
    e.parse = [](const std::string& s) {
        return gobs::with_string<lexy::utf8_char_encoding>(s, [](const auto& in) { return gobs::run_parse<P>(in); });
    };
    e.tree = [](const std::string& s) {
        return gobs::with_string<lexy::utf8_char_encoding>(s, [](const auto& in) { return gobs::run_tree<P>(in); });
    };
    e.extra = &actions<P>;
    return e;
}
} // namespace gd
