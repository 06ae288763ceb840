// Diagnostics for the generated grammars: reports, traces and trees against the model's errors, events and nodes.
#include "diag.hpp"
#include "gdrive.hpp"
#include "gtrace.hpp"
#include <lexy_ext/report_error.hpp>
namespace gd
{
inline std::string described(const diag::Error& e)
{
    std::string lit;
    for (auto c : e.expected)
        lit += char(c);
    auto at = [&](std::size_t b, std::size_t x) { return gobs::at(b, x); };
    std::string r;
    switch (e.kind)
    {
    case diag::Error::literal: r = "lit:" + vh::esc(lit) + ":" + std::to_string(e.index) + at(e.begin, e.begin); break;
    case diag::Error::keyword: r = "kw:" + vh::esc(lit) + at(e.begin, e.end); break;
    case diag::Error::char_class: r = "cc:" + e.text + at(e.begin, e.begin); break;
    default: r = e.text + at(e.begin, e.end);
    }
    return r + " in " + e.production + "@" + std::to_string(e.context);
}
template <class P>
void diagnostics(const Entry& e, const std::string& s, const Obs& m)
{
    auto where = [&] { return std::string(" of grammar ") + e.name + " on \"" + vh::esc(s) + "\"\n  grammar: " + e.model; };
    static vh::Rng rng(vh::opt.seed + 1717);
    diag::Text     t{diag::units(s.data(), s.size()), diag::utf8};
    gobs::with_string<lexy::utf8_char_encoding>(s, [&](const auto& in) {
        auto base = in.reader().position();
        auto off  = [&](auto it) { return std::size_t(std::distance(base, it)); };
        auto uncolored = [](const std::string& x, const diag::Opts& o) { return o.color ? diag::uncolor(x) : x; };
        // the trace has the events of the model
        std::string plain;
        lexy::trace_to<P>(std::back_inserter(plain), in);
        std::vector<diag::Event> evs;
        if (plain.find(": ...\n") == plain.npos)
        {
            auto got = gtrace::normalize(plain), exp = gtrace::expected(m, s);
            if (got != exp)
                vh::violation("trace-events", "trace() reports\n" + got + "expected\n" + exp + where());
            vh::count("trace_events", m.trace.size());
            if (!diag::parse_trace(plain, diag::utf8, evs))
                vh::violation("trace-read", "the trace cannot be read back\n" + plain + where());
            else
            {
                auto o     = diag::Opts::random(rng);
                bool judge = true;
                auto want  = diag::trace(evs, diag::utf8, o, judge);
                std::string out;
                lexy::trace_to<P>(std::back_inserter(out), in, o.real());
                if (judge && (o.width == 0 || uncolored(out, o) == want))
                    diag::same(out, want, o, "trace", "trace" + where());
            }
        }
        // the report has the errors of the model
        std::vector<diag::Error> errs;
        lexy::validate<P>(in, diag::Recorder{&errs});
        std::vector<std::string> names;
        for (auto& x : errs)
            names.push_back(described(x));
        if (names != m.errors)
        {
            std::string d = "errors are";
            for (auto& x : names)
                d += "\n  " + x;
            d += "\nexpected";
            for (auto& x : m.errors)
                d += "\n  " + x;
            vh::violation("errors", d + where());
        }
        auto        o     = diag::Opts::random(rng);
        auto        path  = rng.chance(1, 2) ? "a path" : nullptr;
        bool        judge = true;
        std::string out, want;
        for (auto& x : errs)
            want += diag::report(t, x, path, o, judge);
        if (!errs.empty())
            want += "\n";
        auto res = lexy::validate<P>(in, lexy_ext::report_error.opts(o.real()).to(std::back_inserter(out)).path(path));
        vh::expect(res.errors() == errs.size(), "report-count", "report_error counts " + std::to_string(res.errors()) + " errors" + where());
        if (judge && (o.width == 0 || uncolored(out, o) == want))
            diag::same(out, want, o, "report", "report" + where());
        vh::count("reports", errs.size());
        // the tree has the nodes
        lexy::parse_tree_for<std::decay_t<decltype(in)>> tree;
        lexy::parse_as_tree<P>(tree, in, lexy::noop);
        if (!tree.empty())
        {
            out.clear(), want.clear();
            std::vector<bool> last;
            o = diag::Opts::random(rng);
            diag::tree(tree.root(), t, off, o, last, true, want);
            lexy::visualize_to(std::back_inserter(out), tree, o.real());
            if (o.width == 0 || uncolored(out, o) == want)
                diag::same(out, want, o, "tree", "visualization of the tree" + where());
            vh::count("trees_shown");
        }
        return 0;
    });
}
template <class P>
Entry make(const char* name, const char* model)
{
    Entry e{name, model};
    e.extra = &diagnostics<P>;
    return e;
}
} // namespace gd
