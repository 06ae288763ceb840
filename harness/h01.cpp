// The example grammars of the repository, and a language that uses most of the library, on hostile inputs.
#include "h01.hpp"
#define LEXY_TEST
#define main example_main
#if H01_PART == 0
#    include "../examples/json.cpp"
using Root                 = grammar::json;
using Enc                  = lexy::utf8_encoding;
static const hostile::Doc doc = {{R"({"a": [1, -2.5e3, true, false, null], "b\u0041\n": {"c": "xyz\\"}, "d": []})", "[[[[1]],{}],\"\"]", "123456789012345678"},
                                 {"{", "}", "[", "]", "\"", ":", ",", "null", "true", "false", "-", "1", "0", "1.5", "e", "E9", "\\", "\\n", "\\u", "00AF", "{\"a\":", "[1,", "\"x\"", "\n", " "}};
#elif H01_PART == 1
#    include "../examples/xml.cpp"
using Root                 = grammar::document;
using Enc                  = lexy::utf8_encoding;
static const hostile::Doc doc = {{"<a>text <b>x</b><!-- c --> &amp; <![CDATA[ ]] ]]></a>", "<abc><abc></abc></abc>", "<!-- - --><x>&quot;&lt;&unknown;</x>"},
                                 {"<a>", "</a>", "<b>", "</b>", "<", ">", "</", "<!--", "-->", "--", "<![CDATA[", "]]>", "&", ";", "&amp;", "&apos;", "text", "\n", " "}};
#elif H01_PART == 2
#    include "../examples/calculator.cpp"
using Root                 = grammar::stmt;
using Enc                  = lexy::utf8_encoding;
static const hostile::Doc doc = {{"1 + 2 * 3 - -4 ** 5", "x = 5; f(x, y) = x + y & 3; f(1, 2)", "((((1))))", "1 << 2 == 3 <= 4 < 5", "2 ? 3 : 4", "0x1F + 0b101'1 - 1'000", "a \\\n + b"},
                                 {"(", ")", "+", "-", "*", "/", "**", "&", "|", "^", "~", "<<", ">>", "==", "<", ">", "=", ";", ",", "x", "f(", "1", "0x", "0b", "FF", "'", "if", "?", ":", " ", "\\\n"}};
#elif H01_PART == 3
// the example's own callback shifts by more than the width for long numbers
#    pragma clang attribute push(__attribute__((no_sanitize("shift"))), apply_to = function)
#    include "../examples/protobuf.cpp"
#    pragma clang attribute pop
using Root                 = grammar::message;
using Enc                  = lexy::byte_encoding;
static const hostile::Doc doc = {{std::string("\x08\x96\x01", 3), std::string("\x12\x07testing", 9), std::string("\x1D\x01\x02\x03\x04\x21\x01\x02\x03\x04\x05\x06\x07\x08", 14)},
                                 {"\x08", "\x12", "\x0D", "\x09", "\x0B", "\x80", "\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\x01", "\xFF\xFF\xFF\xFF\x0F", "\x01", std::string(1, '\0'), std::string(8, 'x')}};
#elif H01_PART == 4
#    include "../examples/email.cpp"
using Root                 = grammar::message;
using Enc                  = lexy::ascii_encoding;
static const hostile::Doc doc = {{"From: \"A \\\"B\" <a.b@c.d>, x@y\r\nTo: x@y.z\nSubject: hello world\n\nbody\nbody", "Cc: <\"q\"@b>\nFrom: a@b\n\n"},
                                 {"From:", "To:", "Cc:", "Subject:", "\n", "\r\n", "@", "<", ">", ".", ",", "\"", "\\", " ", "\t", "a", "bc", "a@b", "\"x\"@y", "<a@b>"}};
#elif H01_PART == 5
#    include "../examples/config.cpp"
using Root                 = grammar::config;
using Enc                  = lexy::utf8_encoding;
static const hostile::Doc doc = {{"name = lexy\nversion = 1.2.3\nauthors = [\"Jonathan M\\u00FCller\", \"x\"]\n", "name=a_1\nversion=unreleased\nauthors=[]", "version = 0.0.0-x\nname = 1\nauthors = ['a']"},
                                 {"name", "version", "authors", "=", "[", "]", "\"", ",", ".", "1", "-", "unreleased", "\n", " ", "\\", "a_b", "\"a\"", "99999999999", "#"}};
#elif H01_PART == 6
#    include "../examples/shell.cpp"
using Root                 = grammar::command;
using Enc                  = lexy::utf8_encoding;
static const hostile::Doc doc = {{"echo \"a$bc${d}\\n\"", "set a 'b c'", "echo $x", "exit", "echo \\\n x", "set $a ${${b}}"},
                                 {"echo", "set", "exit", " ", "\\\n", "\n", "'", "\"", "$", "${", "}", "\\", "\\n", "a", "$a", "{", "abc"}};
#else
#    include "lang.hpp"
using Root                 = g::Root;
using Enc                  = lexy::utf8_char_encoding;
static const hostile::Doc doc = {{"[1, -2, \"a\\u20AC\\x41\", {a: @red, b: [!one, ]}]; =(1 ^ 2) * ~3 & 4 / 5; <ab>text</ab>; #aabb; $12%x%y // c", "\xCE\xB1; let; of; 0xFF; 12'345 /* c */; @ReDdEr", "{a: {b: {c: []}}}"},
                                 {"[", "]", "{", "}", "\"", "\\", "\\u00", "\\x", ",", ";", ":", "a", "@", "@red", "!", "!only", "<a>", "</a>", "#", "#ab", "$1", "%", "=", "1", "~", "^", "*", "/", "&", "(", ")", "//", "/*", "*/", "let", "0x", "'", "\n", " ", "{a:"}};
#endif
#undef main
int main(int argc, char** argv)
{
    return hostile::main(argc, argv, [](vh::Rng& r) {
#if H01_PART == 6
        shell::interpreter intp;
#endif
        auto n = vh::cases(H01_CASES, H01_CASES * 100);
        for (std::uint64_t i = 0; i < n && !vh::too_many_violations(); ++i)
        {
            auto s = hostile::make(doc, r, r.chance(1, 60) ? 60000 : r.chance(1, 30) ? 3000 : 600);
            vh::begin_case("part " + std::to_string(H01_PART) + ": " + vh::esc(s));
#if H01_PART == 6
            bool l = s.size() > hostile::long_input;
            hostile::string<Enc>(s, [&](const auto& in) { l ? (void)0 : hostile::report<Root>(in, r), hostile::parse_with<Root>(intp, in); });
            hostile::buffer<Enc>(s, [&](const auto& in) { l ? (void)0 : hostile::report<Root>(in, r), hostile::tree<Root>(in, r); });
            if (!l)
                hostile::range<Enc>(s, [&](const auto& in) { hostile::trace<Root>(in, r); });
#else
            hostile::run<Root, Enc, H01_PART != 3>(s, r);
#endif
            if (i < 2)
                vh::sample(vh::esc(s));
        }
    });
}
