// The shell against parsing the same text from memory, with a reader that records how far it looks.
#include "vh.hpp"
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/scan.hpp>
#include <lexy/action/trace.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy_ext/report_error.hpp>
#include <lexy_ext/shell.hpp>
#include <fcntl.h>
#include <stdio_ext.h>
#include <unistd.h>
namespace dsl = lexy::dsl;
template <class C>
std::string show(const std::basic_string<C>& s)
{
    std::string r;
    for (auto c : s)
        r += std::uint32_t(c) < 0x80 ? vh::esc(std::string(1, char(c))) : "{" + std::to_string(std::uint32_t(c)) + "}";
    return r;
}
// What the shell is told to do and what it reports.
template <class C>
struct Script
{
    std::basic_string<C> text;
    std::size_t          pos   = 0;
    bool                 eager = false; // closes with the last character instead of after it
    bool                 open  = true;
    std::string          log;           // P primary, C continuation, E eof, <n> characters of a line, W message
    std::vector<std::basic_string<C>> messages;
    int                  unfinished = 0;
};
template <class Enc>
struct Prompt
{
    using encoding  = Enc;
    using char_type = typename Enc::char_type;
    Script<char_type>* s;
    void primary_prompt()
    {
        s->log += 'P';
    }
    void continuation_prompt()
    {
        s->log += 'C';
    }
    void eof_prompt()
    {
        s->log += 'E';
    }
    bool is_open() const
    {
        return s->open;
    }
    struct read_line_callback
    {
        Script<char_type>* s;
        std::size_t        n = 0;
        std::size_t        operator()(char_type* buffer, std::size_t size)
        {
            if (size == 0)
                vh::violation("no-space", "the shell asks for no characters");
            std::size_t k = 0;
            while (k < size && s->pos < s->text.size())
            {
                auto c      = s->text[s->pos++];
                buffer[k++] = c;
                if (c == '\n')
                    break;
            }
            if (s->eager && s->pos == s->text.size())
                s->open = false;
            if (k < size && (k == 0 || buffer[k - 1] != '\n'))
                s->open = false;
            n += k;
            if (k < size || buffer[k - 1] == '\n')
                s->log += "<" + std::to_string(n) + ">";
            return k;
        }
        void done() && {}
    };
    auto read_line()
    {
        return read_line_callback{s};
    }
    struct write_message_callback
    {
        Script<char_type>* s;
        void               operator()(const char_type* p, std::size_t n)
        {
            s->messages.back().append(p, n);
        }
        void done() &&
        {
            --s->unfinished;
        }
    };
    auto write_message(int = 0)
    {
        s->messages.emplace_back();
        ++s->unfinished;
        return write_message_callback{s};
    }
};
// The model: what is logged by an input that looks at characters up to (not including) index end.
template <class C>
struct Model
{
    std::basic_string<C> text;
    bool                 eager;
    std::size_t          pos  = 0;
    bool                 open = true;
    std::string          log;
    std::size_t          start = 0; // of the current input
    bool                 line()
    {
        auto e = text.find(C('\n'), pos);
        auto n = (e == std::basic_string<C>::npos ? text.size() : e + 1) - pos;
        pos += n;
        log += "<" + std::to_string(n) + ">";
        if ((eager && pos == text.size()) || e == std::basic_string<C>::npos)
            open = false;
        return n > 0;
    }
    void prompt()
    {
        start = pos;
        log += 'P';
        if (!line())
            log += 'E';
    }
    void look(std::size_t index) // relative to the start of the input
    {
        while (index >= pos - start && open)
        {
            log += 'C';
            if (!line())
                log += 'E';
        }
    }
};
// The text from memory; remembers the last character that was looked at.
template <class Enc>
struct Probe
{
    using char_type = typename Enc::char_type;
    const char_type *b, *e;
    std::size_t*     seen;
    class reader_t
    {
    public:
        using encoding = Enc;
        using iterator = const char_type*;
        struct marker
        {
            iterator _it;
            iterator position() const
            {
                return _it;
            }
        };
        reader_t(const Probe& p) : _p(p), _cur(p.b) {}
        auto peek() const
        {
            *_p.seen = std::max(*_p.seen, std::size_t(_cur - _p.b) + 1);
            return _cur == _p.e ? Enc::eof() : Enc::to_int_type(*_cur);
        }
        void bump()
        {
            ++_cur;
        }
        iterator position() const
        {
            return _cur;
        }
        marker current() const
        {
            return {_cur};
        }
        void reset(marker m)
        {
            _cur = m._it;
        }

    private:
        Probe    _p;
        iterator _cur;
    };
    auto reader() const&
    {
        return reader_t(*this);
    }
};
//=== grammars ===//
template <class C>
using strings = std::vector<std::basic_string<C>>;
namespace g
{
struct word
{
    static constexpr auto rule  = dsl::identifier(dsl::ascii::alpha);
    static constexpr auto value = lexy::callback<std::string>([](auto lex) { return std::string(lex.begin(), lex.end()); });
};
struct str
{
    static constexpr auto rule  = dsl::delimited(dsl::lit_c<'"'>)(dsl::ascii::character, dsl::backslash_escape.rule(dsl::capture(dsl::ascii::character)));
    static constexpr auto value = lexy::fold_inplace<std::string>([] { return std::string("s:"); }, [](std::string& s, auto lex) { s.append(lex.begin(), lex.end()); });
};
struct nested
{
    static constexpr auto rule  = dsl::square_bracketed.opt_list(dsl::recurse_branch<struct item>, dsl::sep(dsl::comma));
    static constexpr auto value = lexy::fold_inplace<std::string>([] { return std::string("["); }, [](std::string& s, std::string x) { s += x + ";"; })
                                  >> lexy::callback<std::string>([](std::string s) { return s; }, [](lexy::nullopt) { return std::string("[]"); });
};
struct item
{
    static constexpr auto rule  = dsl::p<word> | dsl::p<str> | dsl::p<nested>;
    static constexpr auto value = lexy::forward<std::string>;
};
struct list
{
    static constexpr auto whitespace = dsl::ascii::space;
    static constexpr auto rule       = dsl::terminator(dsl::semicolon).list(dsl::p<item>, dsl::sep(dsl::comma));
    static constexpr auto value      = nested::value;
};
struct line
{
    static constexpr auto rule  = dsl::capture(dsl::token(dsl::until(dsl::newline).or_eof()));
    static constexpr auto value = word::value;
};
struct all
{
    static constexpr auto rule  = dsl::capture(dsl::token(dsl::while_(dsl::ascii::character))) + dsl::eof;
    static constexpr auto value = word::value;
};
struct command
{
    static constexpr auto whitespace = dsl::ascii::blank | dsl::backslash >> dsl::newline;
    static constexpr auto rule       = dsl::p<item> + dsl::while_(dsl::comma) + dsl::if_(dsl::p<item>) + dsl::eol;
    static constexpr auto value      = lexy::callback<std::string>([](std::string a) { return a; }, [](std::string a, std::string b) { return a + "+" + b; });
};
struct prefix
{
    static constexpr auto rule  = dsl::opt(dsl::colon >> dsl::p<word>);
    static constexpr auto value = lexy::callback<std::string>([](std::string s) { return s; }, [](lexy::nullopt) { return std::string("none"); });
};
} // namespace g
//=== actions ===//
template <class P, class Input>
std::string act(const Input& in, int action)
{
    std::string out;
    auto        begin = in.reader().position();
    auto        off   = [&](auto it) { return std::to_string(std::distance(begin, it)); };
    auto        cb    = lexy::callback([&](const auto& ctx, const auto& e) { out += std::string("{") + ctx.production() + " " + off(ctx.position()) + " " + off(e.position()) + "}"; });
    switch (action)
    {
    case 0: {
        auto r = lexy::parse<P>(in, cb);
        out += r.has_value() ? "value " + r.value() : "fatal";
        break;
    }
    case 1:
        out += lexy::match<P>(in) ? "match" : "no match";
        break;
    case 2: {
        auto r = lexy::validate<P>(in, lexy_ext::report_error.to(std::back_inserter(out)));
        out += " errors " + std::to_string(r.error_count());
        break;
    }
    case 3: {
        lexy::parse_tree_for<Input> tree;
        auto                        r = lexy::parse_as_tree<P>(tree, in, cb);
        for (auto [event, node] : tree.traverse())
            if (event == lexy::traverse_event::leaf)
                out += "(" + std::string(node.lexeme().begin(), node.lexeme().end()) + ")";
            else
                out += std::string(event == lexy::traverse_event::enter ? "<" : ">") + node.kind().name();
        if (!tree.empty())
            out += "rest " + off(tree.remaining_input().begin()) + " " + off(tree.remaining_input().end());
        break;
    }
    case 4:
        lexy::trace_to<P>(std::back_inserter(out), in);
        break;
    default: {
        auto scanner = lexy::scan(in, cb);
        auto first   = scanner.template parse<g::prefix>();
        out += first ? first.value() : "failed";
        if (scanner)
        {
            auto r = lexy::parse<P>(scanner.remaining_input(), lexy_ext::report_error.to(std::back_inserter(out)));
            out += r.has_value() ? "value " + r.value() : "fatal";
        }
        out += off(scanner.position());
    }
    }
    return out;
}
template <class Input>
std::string act(const Input& in, int grammar, int action)
{
    switch (grammar)
    {
    case 0:
        return act<g::list>(in, action);
    case 1:
        return act<g::line>(in, action);
    case 2:
        return act<g::all>(in, action);
    case 3:
        return act<g::command>(in, action);
    default:
        return act<g::item>(in, action);
    }
}
template <class C>
std::basic_string<C> random_text(vh::Rng& rng)
{
    std::basic_string<C> s;
    auto                 lines = rng.below(12);
    auto                 word  = [&](std::uint64_t n) {
        for (; n > 0; --n)
            s += C('a' + rng.below(26));
    };
    std::size_t begin = 0; // of the line
    auto edge = [&](std::size_t n) { return n > s.size() - begin ? n - (s.size() - begin) : n; };
    for (std::uint64_t i = 0; i < lines; ++i)
    {
        if (rng.chance(1, 2))
            begin = s.size();
        for (auto k = rng.below(6); k > 0; --k)
            switch (rng.below(9))
            {
            case 0:
                s += C('[');
                break;
            case 1:
                s += C(']');
                break;
            case 2:
            case 3:
                s += C(',');
                break;
            case 4:
                s += C(';');
                break;
            case 5:
                s += C('"');
                word(rng.below(4));
                if (rng.chance(1, 4))
                    s += C('\\'), s += C(rng.chance(1, 2) ? '"' : '\n');
                if (rng.chance(3, 4))
                    s += C('"');
                break;
            case 6:
                s += C(" \t:\\\r"[rng.below(5)]);
                break;
            default:
                word(1 + rng.below(5));
            }
        // lines around the sizes at which the buffer grows
        if (rng.chance(1, 8))
            word(rng.chance(1, 2) ? rng.below(300) : rng.chance(1, 2) ? edge(1000 / sizeof(C) * (1 + rng.below(4)) + rng.below(5) - 2) : rng.below(5000));
        if (rng.chance(1, 30))
            s += C(0);
        if (i + 1 < lines || rng.chance(1, 2))
            s += C('\n');
    }
    return s;
}
// one character at a time
template <class Enc>
void walk(vh::Rng& rng)
{
    using C       = typename Enc::char_type;
    auto     text = random_text<C>(rng);
    bool     eager = rng.chance(1, 3);
    Script<C> script;
    script.text = text, script.eager = eager;
    vh::begin_case("walk " + show(text).substr(0, 3000));
    Model<C>                      m{text, eager};
    lexy_ext::shell<Prompt<Enc>> shell(Prompt<Enc>{&script});
    for (int inputs = 0; inputs < 8 && (shell.is_open() || rng.chance(1, 3)); ++inputs)
    {
        if (shell.is_open() != m.open)
            return vh::violation("open", "is_open() is wrong");
        auto in = shell.prompt_for_input();
        m.prompt();
        auto        r   = in.reader();
        auto        lag = in.reader();
        auto        b   = r.position();
        auto        marker = r.current();
        std::size_t mark = 0;
        std::size_t lagged = 0, i = 0;
        auto        stop  = rng.chance(1, 2) ? rng.below(m.pos - m.start + 1) + rng.below(20) : rng.below(6000);
        auto        check = [&](auto& rd, std::size_t k) {
            m.look(k);
            auto got  = rd.peek();
            auto want = m.start + k < text.size() && m.start + k < m.pos ? Enc::to_int_type(text[m.start + k]) : Enc::eof();
            if (got != want)
                vh::violation("character", "character " + std::to_string(k) + " of the input is " + std::to_string(long(got)) + ", expected " + std::to_string(long(want)));
            if (script.log != m.log)
                vh::violation("prompts", "prompts " + script.log + ", expected " + m.log);
            vh::count("characters");
            return want == Enc::eof() && m.start + k >= m.pos;
        };
        for (; i < stop && !vh::too_many_violations(); ++i)
        {
            if (check(r, i))
                break;
            r.bump();
            if (lagged < i && rng.chance(1, 3))
            {
                check(lag, lagged++);
                lag.bump();
            }
            if (rng.chance(1, 20))
                marker = r.current(), mark = i + 1;
            if (rng.chance(1, 60))
                r.reset(marker), i = mark - 1;
        }
        // a message with some of what has been read
        if (rng.chance(1, 2))
        {
            auto from = rng.below(i + 1), to = from + rng.below(i - from + 1);
            auto first = std::next(b, long(from)), last = std::next(first, long(to - from));
            std::basic_string<C> want;
            {
                auto w = shell.write_message();
                for (auto k = rng.below(4); k > 0; --k)
                    switch (rng.below(4))
                    {
                    case 0:
                        w(lexy::lexeme<std::decay_t<decltype(r)>>(first, last));
                        want += text.substr(m.start + from, to - from);
                        break;
                    case 1:
                        w(C('x'));
                        want += C('x');
                        break;
                    case 2: {
                        static const C str[] = {'h', 'i', 0, 'z', '\n', 0};
                        w(str);
                        w(str, 5);
                        want += str;
                        want.append(str, 5);
                        break;
                    }
                    default: {
                        auto out = w.output_iterator();
                        *out++   = 'o';
                        *out++   = '\n';
                        want += C('o'), want += C('\n');
                    }
                    }
            }
            if (script.messages.back() != want)
                vh::violation("message", "message " + show(script.messages.back()) + ", expected " + show(want));
            if (script.unfinished != 0)
                vh::violation("message-done", "done() is not called exactly once");
            vh::count("messages");
        }
    }
    vh::observe(script.log);
    vh::count("inputs_walked");
    if (rng.chance(1, 400))
        vh::sample(script.log);
}
// parses with the real actions
template <class Enc>
void parses(vh::Rng& rng)
{
    using C        = typename Enc::char_type;
    auto      text = random_text<C>(rng);
    bool      eager = rng.chance(1, 3);
    Script<C> script;
    script.text = text, script.eager = eager;
    Model<C>                     m{text, eager};
    lexy_ext::shell<Prompt<Enc>> shell(Prompt<Enc>{&script});
    for (int inputs = 0; inputs < 8 && (shell.is_open() || rng.chance(1, 4)); ++inputs)
    {
        int grammar = rng.range(0, 4), action = rng.range(0, 5);
        vh::begin_case("grammar " + std::to_string(grammar) + " action " + std::to_string(action) + " at " + std::to_string(m.pos) + " of " + show(text).substr(0, 3000));
        m.prompt();
        // a closed shell has nothing but the line read already
        std::size_t seen = 0;
        vh::Exact<C> rest(text.data() + m.start, text.size() - m.start);
        auto want = act(Probe<Enc>{rest.data, rest.data + rest.size, &seen}, grammar, action);
        if (seen > 0)
            m.look(seen - 1);
        auto got = act(shell.prompt_for_input(), grammar, action);
        if (got != want)
            return vh::violation("result", "got " + got + ", expected " + want);
        if (script.log != m.log)
            return vh::violation("prompts", "prompts " + script.log + ", expected " + m.log);
        vh::count("parses");
        vh::observe(want + std::to_string(grammar * 10 + action));
    }
}
//=== the default prompt ===//
struct Redirect
{
    int         fd, saved;
    Redirect(int fd, const std::string& path, int flags) : fd(fd), saved(::dup(fd))
    {
        auto f = ::open(path.c_str(), flags, 0600);
        ::dup2(f, fd);
        ::close(f);
    }
    ~Redirect()
    {
        ::dup2(saved, fd);
        ::close(saved);
    }
};
template <class Enc>
void standard(vh::Rng& rng)
{
    auto text = random_text<char>(rng);
    auto in_path = vh::opt.scratch + "/in" + std::to_string(::getpid()), out_path = vh::opt.scratch + "/out" + std::to_string(::getpid());
    auto f = std::fopen(in_path.c_str(), "wb");
    std::fwrite(text.data(), 1, text.size(), f);
    std::fclose(f);
    std::fflush(stdout);
    std::string want, problem;
    std::string log;
    vh::begin_case("default prompt " + show(text).substr(0, 3000));
    {
        Redirect  i(0, in_path, O_RDONLY), o(1, out_path, O_RDWR | O_CREAT | O_TRUNC);
        __fpurge(stdin);
        std::clearerr(stdin);
        // feof() is only set after reading past the end
        Model<char>                                     m{text, false};
        lexy_ext::shell<lexy_ext::default_prompt<Enc>> shell;
        for (int inputs = 0; inputs < 6 && shell.is_open(); ++inputs)
        {
            int         grammar = rng.range(0, 4), action = rng.range(0, 5);
            std::size_t seen = 0;
            m.prompt();
            std::basic_string<typename Enc::char_type> rest(text.begin() + long(m.start), text.end());
            auto expected = act(Probe<Enc>{rest.data(), rest.data() + rest.size(), &seen}, grammar, action);
            if (seen > 0)
                m.look(seen - 1);
            auto got = act(shell.prompt_for_input(), grammar, action);
            if (got != expected && problem.empty())
                problem = "got " + got + ", expected " + expected;
            if (shell.is_open() != m.open && problem.empty())
                problem = "is_open() is wrong";
            std::string msg;
            for (auto k = rng.below(30); k > 0; --k)
                msg += "ab\0 %s\n\xC3"[rng.below(8)];
            {
                auto w = shell.write_message();
                auto n = rng.below(msg.size() + 1);
                w(reinterpret_cast<const typename Enc::char_type*>(msg.data()), n);
                w(reinterpret_cast<const typename Enc::char_type*>(msg.data()) + n, msg.size() - n);
            }
            if (!msg.empty() && msg.back() != '\n')
                msg += '\n';
            for (std::size_t k = 0; k < m.log.size(); ++k)
                if (m.log[k] == 'P')
                    want += "> ";
                else if (m.log[k] == 'C')
                    want += ". ";
                else if (m.log[k] == 'E')
                    want += "\n";
            log += m.log;
            m.log.clear();
            want += msg;
        }
        std::fflush(stdout);
    }
    std::string out;
    f = std::fopen(out_path.c_str(), "rb");
    for (int c; (c = std::fgetc(f)) != EOF;)
        out += char(c);
    std::fclose(f);
    ::unlink(in_path.c_str());
    ::unlink(out_path.c_str());
    if (!problem.empty())
        vh::violation("default-prompt", problem);
    if (out != want)
        vh::violation("default-output", "output " + vh::esc(out) + ", expected " + vh::esc(want));
    vh::count("standard_sessions");
    vh::observe("std" + log);
}
int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        vh::Rng rng(vh::opt.seed * 64 + std::uint64_t(vh::opt.shard) + 20);
        auto    n = vh::cases(40000, 2000000);
        for (std::uint64_t i = 0; i < n && !vh::too_many_violations(); ++i)
            switch (i % 12)
            {
            case 0:
                walk<lexy::default_encoding>(rng);
                break;
            case 1:
                walk<lexy::utf8_encoding>(rng);
                break;
            case 2:
                walk<lexy::utf16_encoding>(rng);
                break;
            case 3:
                walk<lexy::utf32_encoding>(rng);
                break;
            case 4:
                standard<lexy::default_encoding>(rng);
                break;
            case 5:
                standard<lexy::utf8_char_encoding>(rng);
                break;
            case 6:
            case 7:
                parses<lexy::utf8_char_encoding>(rng);
                break;
            default:
                parses<lexy::default_encoding>(rng);
            }
    });
}
