// Everything that may be shared between threads: inputs, callbacks, symbol tables, trees, anchors, options, files.
#include "conc.hpp"
#include <forward_list>
#include <map>
#include <memory>
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/scan.hpp>
#include <lexy/action/trace.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/argv_input.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/file.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/input_location.hpp>
#include <lexy/visualize.hpp>
#include <lexy_ext/report_error.hpp>
#include "lang.hpp"
template <class Out>
std::string outcome(const Out& r)
{
    return std::string(r.is_success() ? "success" : r.is_recovered_error() ? "recovered" : "fatal") + std::to_string(r.errors().size());
}
int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        vh::Rng r(vh::opt.seed * 8191 + std::uint64_t(vh::opt.shard) * 17);
        using Text  = lexy::string_input<lexy::utf8_char_encoding>;
        using Buf   = lexy::buffer<lexy::utf8_char_encoding>;
        using List  = lexy::range_input<lexy::utf8_char_encoding, std::forward_list<char>::const_iterator>;
        // shared and constant from here on
        static const auto describe = lexy::callback<std::string>([](auto ctx, auto err) {
            std::string s = ctx.production();
            auto        l = lexy::get_input_location(ctx.input(), err.position());
            s += " " + std::to_string(l.line_nr()) + ":" + std::to_string(l.column_nr());
            return s;
        });
        static const auto collect = lexy::collect<std::vector<std::string>>(describe);
        static const auto show    = [](const std::vector<std::string>& v) {
            std::string s;
            for (auto& x : v)
                s += "\n" + x;
            return s;
        };
        struct Data
        {
            std::string                                     s;
            std::unique_ptr<Text>                           text;
            Buf                                             buffer;
            std::forward_list<char>                         list;
            std::unique_ptr<List>                           range;
            lexy::parse_tree_for<Text>                      tree;
            std::string                                     path;
            lexy::buffer<lexy::byte_encoding>               bytes;
        };
        static std::vector<std::unique_ptr<Data>> data;
        std::vector<conc::Job>                    jobs;
        auto add = [&](const char* name, const Data& d, std::function<std::string()> f) { jobs.push_back({std::string(name) + " on " + vh::esc(d.s).substr(0, 300), std::move(f)}); };
        for (int k = 0; k < 14; ++k)
        {
            data.push_back(std::make_unique<Data>());
            auto& d = *data.back();
            if (k == 0)
                d.s = std::string(60, '[');
            for (int n = r.range(1, 5); n > 0; --n)
                d.s += item(r, 4) + (r.chance(1, 3) ? "\n" : "") + (n > 1 ? ";" : "");
            d.text   = std::make_unique<Text>(d.s.data(), d.s.size());
            d.buffer = Buf(d.s.data(), d.s.size());
            d.list.assign(d.s.begin(), d.s.end());
            d.range = std::make_unique<List>(d.list.cbegin(), d.list.cend());
            d.path  = vh::opt.scratch + "/in" + std::to_string(k);
            auto f  = std::fopen(d.path.c_str(), "wb");
            std::fwrite(d.s.data(), 1, d.s.size(), f);
            std::fclose(f);
            const Data& c = d;
            add("parse", c, [&c] {
                auto x = lexy::parse<g::Root>(*c.text, collect);
                return outcome(x) + (x.has_value() ? x.value() : "") + show(x.errors());
            });
            add("parse of a buffer", c, [&c] {
                auto x = lexy::parse<g::Root>(c.buffer, collect);
                return outcome(x) + (x.has_value() ? x.value() : "") + show(x.errors());
            });
            add("validate of a range", c, [&c] {
                auto x = lexy::validate<g::Root>(*c.range, collect);
                return outcome(x) + show(x.errors());
            });
            add("match", c, [&c] { return std::to_string(lexy::match<g::Root>(*c.text)) + std::to_string(lexy::match<g::Root>(c.buffer)); });
            add("parse_as_tree", c, [&c] {
                lexy::parse_tree_for<Buf> t;
                auto                      x = lexy::parse_as_tree<g::Root>(t, c.buffer, collect);
                std::string               s = outcome(x) + show(x.errors());
                lexy::visualize_to(std::back_inserter(s), t);
                // again into the same tree
                lexy::parse_as_tree<g::Root>(t, c.buffer, lexy::noop);
                lexy::visualize_to(std::back_inserter(s), t, {lexy::visualize_fancy});
                return s;
            });
            // memory and trees that were used for something else before
            add("parse in reused memory", c, [&c] {
                static thread_local char                       mem[8192];
                static thread_local lexy::parse_tree_for<Text> tree;
                static thread_local std::vector<std::string>   errors;
                auto                                           n = std::min(sizeof mem, c.s.size());
                std::memset(mem, '?', sizeof mem);
                std::memcpy(mem, c.s.data(), n);
                Text        in(mem, n);
                auto        x = lexy::parse<g::Root>(in, collect);
                std::string s = outcome(x) + (x.has_value() ? x.value() : "") + show(x.errors());
                auto        y = lexy::parse_as_tree<g::Root>(tree, in, collect);
                s += outcome(y) + show(y.errors());
                lexy::visualize_to(std::back_inserter(s), tree);
                lexy::validate<g::Root>(in, lexy_ext::report_error.to(std::back_inserter(s)));
                auto l = lexy::get_input_location(in, mem + n / 2);
                return s + std::to_string(l.line_nr()) + ":" + std::to_string(l.column_nr());
            });
            add("trace", c, [&c] {
                std::string s;
                lexy::trace_to<g::Root>(std::back_inserter(s), *c.text, {lexy::visualize_use_unicode | lexy::visualize_use_color});
                return s;
            });
            add("report_error", c, [&c] {
                std::string s;
                static constexpr auto rep = lexy_ext::report_error.path("shared");
                auto x = lexy::validate<g::Root>(c.buffer, rep.to(std::back_inserter(s)));
                return std::to_string(x.errors()) + s;
            });
            // a finished tree
            lexy::parse_as_tree<g::Root>(d.tree, *d.text, lexy::noop);
            add("walking a shared tree", c, [&c] {
                std::string s;
                if (c.tree.empty())
                    return s;
                for (auto [ev, n] : c.tree.traverse())
                    s += std::to_string(int(ev)) + n.kind().name() + (n.kind().is_token() ? std::string(n.lexeme().begin(), n.lexeme().end()) : std::to_string(n.covering_lexeme().size()));
                for (auto x : c.tree.root().children())
                    s += std::to_string(x.is_last_child()) + std::to_string(std::distance(x.children().begin(), x.children().end())) + x.parent().kind().name();
                return s + std::to_string(c.tree.size()) + std::to_string(c.tree.depth());
            });
            add("showing a shared tree", c, [&c] {
                std::string s;
                lexy::visualize_to(std::back_inserter(s), c.tree, {lexy::visualize_fancy});
                char*       mem = nullptr;
                std::size_t n   = 0;
                auto        f   = open_memstream(&mem, &n);
                lexy::visualize(f, c.tree);
                std::fclose(f);
                s += std::string(mem, n);
                std::free(mem);
                return s;
            });
            add("locations", c, [&c] {
                std::string s;
                lexy::input_location_anchor<Text> anchor(*c.text);
                for (std::size_t i = 0; i <= c.s.size(); i += 3)
                {
                    auto l = lexy::get_input_location(*c.text, c.text->data() + i, anchor);
                    anchor = l.anchor();
                    s += std::to_string(l.line_nr()) + ":" + std::to_string(l.column_nr()) + " ";
                    auto a = lexy::get_input_line_annotation(*c.text, l, 2);
                    s += std::to_string(a.before.size()) + "," + std::to_string(a.annotated.size()) + "," + std::to_string(a.after.size()) + " ";
                }
                return s;
            });
            add("showing lexemes", c, [&c] {
                std::string s;
                for (unsigned f = 0; f < 16; ++f)
                    lexy::visualize_to(std::back_inserter(s), lexy::lexeme_for<Text>(c.text->data(), c.text->data() + c.s.size()), {lexy::visualization_flags(f), 1, 32, (unsigned char)(f * 3)});
                return s + std::to_string(lexy::visualization_display_width(lexy::lexeme_for<Text>(c.text->data(), c.text->data() + c.s.size())));
            });
            add("reading a file", c, [&c] {
                auto f = lexy::read_file<lexy::utf8_char_encoding>(c.path.c_str());
                if (!f)
                    return std::string("cannot read");
                auto x = lexy::validate<g::Root>(f.buffer(), collect);
                return std::string(f.buffer().data(), f.buffer().size()) + outcome(x) + show(x.errors()) + (lexy::read_file("/does/not/exist") ? "?" : "missing");
            });
            add("making buffers", c, [&c] {
                auto b = lexy::make_buffer_from_raw<lexy::utf16_encoding, lexy::encoding_endianness::big>(c.s.data(), c.s.size() / 2 * 2);
                auto u = lexy::make_buffer_from_raw<lexy::utf8_char_encoding, lexy::encoding_endianness::bom>(c.s.data(), c.s.size());
                Buf  copy(c.buffer);
                Buf  moved(std::move(copy));
                std::string s;
                for (std::size_t i = 0; i < b.size(); ++i)
                    s += std::to_string(unsigned(b.data()[i])) + " ";
                return s + std::string(u.data(), u.size()) + std::string(moved.data(), moved.size());
            });
            add("scan", c, [&c] {
                auto        s = lexy::scan<g::Control>(*c.text, collect);
                std::string out;
                while (s && !s.is_at_eof())
                {
                    lexy::scan_result<std::string> v;
                    if (!s.branch(v, dsl::p<g::Name>))
                    {
                        auto l = s.capture(dsl::code_point);
                        if (!l)
                            break;
                        out += std::to_string(l.value().size());
                    }
                    else
                        out += v.has_value() ? v.value() : "?";
                }
                return out + std::to_string(s.position() - c.text->data()) + outcome(std::move(s).finish());
            });
        }
        // binary data
        for (int k = 0; k < 4; ++k)
        {
            data.push_back(std::make_unique<Data>());
            auto& d = *data.back();
            for (int n = r.range(1, 30); n > 0; --n)
            {
                int t = r.range(1, r.chance(1, 40) ? 4 : 3);
                d.s += char(t);
                for (int b = t == 1 ? 2 : t == 2 ? 4 : 8; b > 0; --b)
                    d.s += char(r.below(256));
            }
            d.bytes       = lexy::buffer<lexy::byte_encoding>(reinterpret_cast<const unsigned char*>(d.s.data()), d.s.size());
            const Data& c = d;
            add("parse of bytes", c, [&c] {
                auto x = lexy::parse<g::Bytes>(c.bytes, collect);
                std::string s;
                lexy::validate<g::Bytes>(c.bytes, lexy_ext::report_error.to(std::back_inserter(s)));
                return outcome(x) + (x.has_value() ? x.value() : "") + show(x.errors()) + s;
            });
        }
        // arguments
        static char  a0[] = "prog", a1[] = "one two", a2[] = "", a3[] = "three-3", a4[] = "fo\xFFur";
        static char* args[6][6];
        for (int n = 1; n <= 5; ++n)
        {
            static std::vector<std::unique_ptr<lexy::argv_input<>>> inputs;
            char*                                                   all[] = {a0, a1, a2, a3, a4};
            std::copy(all, all + n, args[n]);
            inputs.push_back(std::make_unique<lexy::argv_input<>>(n, args[n]));
            auto& in = *inputs.back();
            jobs.push_back({"parse of " + std::to_string(n) + " arguments", [&in] {
                                auto x = lexy::parse<g::Args>(in, collect);
                                std::string s;
                                lexy::trace_to<g::Args>(std::back_inserter(s), in);
                                return outcome(x) + (x.has_value() ? x.value() : "") + show(x.errors()) + s;
                            }});
        }
        // shared callbacks
        static const auto twice  = lexy::mem_fn(&std::string::size) | lexy::callback<std::size_t>([](std::size_t n) { return 2 * n; });
        static const auto concat = lexy::concat<std::vector<std::string>>;
        static const auto folded = lexy::fold<int>(5, [](int a, int b) { return a * 3 + b; });
        static const auto bound  = lexy::bind(lexy::callback<int>([](int a, int b, int c) { return a + 10 * b + 100 * c; }), lexy::_2, 7, lexy::_1);
        for (int k = 0; k < 5; ++k)
            jobs.push_back({"callbacks with " + std::to_string(k), [k] {
                                auto f = folded.sink();
                                auto l = concat.sink();
                                auto a = lexy::as_string<std::string, lexy::utf8_char_encoding>.sink();
                                for (int i = 0; i < 20 + k; ++i)
                                {
                                    f(i);
                                    l(std::vector<std::string>(std::size_t(i % 3), std::to_string(i)));
                                    a(lexy::code_point(char32_t(0x20 + i * 311)));
                                }
                                std::string s = std::to_string(std::move(f).finish());
                                for (auto& x : std::move(l).finish())
                                    s += x;
                                return s + std::move(a).finish() + std::to_string(twice(s)) + std::to_string(bound(k, 3));
                            }});
        // the Unicode database
        for (char32_t base : {0u, 0x370u, 0x3040u, 0x10400u, 0x1F300u})
            jobs.push_back({"code points at " + std::to_string(base), [base] {
                                std::string s, t;
                                for (char32_t c = base; c < base + 200; ++c)
                                {
                                    lexy::code_point cp(c);
                                    s += char('A' + int(cp.general_category()));
                                    lexy::visualize_to(std::back_inserter(t), cp, {lexy::visualize_use_unicode});
                                }
                                return s + t;
                            }});
        conc::all(jobs, r, vh::cases(300, 30000), 60);
    });
}
