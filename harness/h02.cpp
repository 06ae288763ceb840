// Differential monitor: the same code units in every representation and encoding.
// The checked forward-iterator range (no vectorised path, traps on over-read) is the reference.
// Compiled once per H02_PART.
#include "h02.hpp"
using namespace gobs;
namespace
{
#define GRAMMAR(NAME, ...)                                                                                             \
    struct NAME                                                                                                        \
    {                                                                                                                  \
        static constexpr auto name  = #NAME;                                                                           \
        static constexpr auto rule  = [] { return __VA_ARGS__ + dsl::position; }();                                    \
        static constexpr auto value = h02::V{};                                                                        \
    };
#define DGRAMMAR(NAME, ...)                                                                                            \
    struct NAME##_                                                                                                     \
    {                                                                                                                  \
        static constexpr auto name  = #NAME "_";                                                                       \
        static constexpr auto rule  = [] { return __VA_ARGS__; }();                                                    \
        static constexpr auto value = h02::SinkOnly{};                                                                 \
    };                                                                                                                 \
    struct NAME                                                                                                        \
    {                                                                                                                  \
        static constexpr auto name  = #NAME;                                                                           \
        static constexpr auto rule  = dsl::p<NAME##_> + dsl::position;                                                 \
        static constexpr auto value = h02::V{};                                                                        \
    };
#define WGRAMMAR(NAME, WS, ...)                                                                                        \
    struct NAME                                                                                                        \
    {                                                                                                                  \
        static constexpr auto name       = #NAME;                                                                      \
        static constexpr auto whitespace = WS;                                                                         \
        static constexpr auto rule       = [] { return __VA_ARGS__ + dsl::position; }();                               \
        static constexpr auto value      = h02::V{};                                                                   \
    };
#define ID(NAME, CLASS) GRAMMAR(NAME, dsl::identifier(CLASS))
#define ALPHA "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
#define DIGIT "0123456789"
constexpr auto esc_syms = lexy::symbol_table<char>.map<'n'>('\n').map<'"'>('"').map<'\\'>('\\');
constexpr auto c_esc    = dsl::backslash_escape.symbol<esc_syms>();
constexpr auto u_esc    = dsl::backslash_escape.symbol<esc_syms>().rule(dsl::lit_c<'u'> >> dsl::code_point_id<4>);

#if H02_PART == 0
ID(id_alpha, dsl::ascii::alpha)
ID(id_alnum, dsl::ascii::alnum)
ID(id_lower, dsl::ascii::lower)
ID(id_upper, dsl::ascii::upper)
ID(id_word, dsl::ascii::word)
GRAMMAR(id_c, dsl::identifier(dsl::ascii::alpha_underscore, dsl::ascii::word))
GRAMMAR(id_reserved, dsl::identifier(dsl::ascii::lower).reserve(LEXY_LIT("internal"), LEXY_LIT("int")).reserve_prefix(LEXY_LIT("__")).reserve_suffix(LEXY_LIT("suffixsuffix")))
#    define LIST                                                                                                       \
        X(id_alpha, ALPHA, "@[`{_09 ")                                                                                 \
        X(id_alnum, ALPHA DIGIT, "@[`{_/: ") X(id_lower, "abcdefghijklmnopqrstuvwxyz", "`{A")                          \
            X(id_upper, "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "@[a") X(id_word, ALPHA DIGIT "_", "@[`{/:^ ")                   \
                X(id_c, ALPHA DIGIT "_", "@[`{/:^ ") X(id_reserved, "internalsufix", "`{A ")
#elif H02_PART == 1
ID(id_digit, dsl::ascii::digit)
ID(id_punct, dsl::ascii::punct)
ID(id_print, dsl::ascii::print)
ID(id_graph, dsl::ascii::graph)
ID(id_char, dsl::ascii::character)
ID(id_space, dsl::ascii::space)
ID(id_control, dsl::ascii::control)
#    define LIST                                                                                                       \
        X(id_digit, DIGIT, "/:a ") X(id_punct, "!#%&()*+,-./:;<=>?@[]^_`{|}~", "a0 ") X(id_print, ALPHA " ~!@#", "\x1f\x7f\t")  \
            X(id_graph, ALPHA DIGIT "~!", " \x1f\x7f\t") X(id_char, ALPHA "\t\n\x7f\x01", "\x80\xff")                  \
                X(id_space, " \t\n\r\v\f", "\x08\x0e!a") X(id_control, "\x01\x02\t\n\x1f\x7f", " ~a")
#elif H02_PART == 2
GRAMMAR(dig_dec, dsl::capture(dsl::digits<>))
GRAMMAR(dig_hex, dsl::capture(dsl::digits<dsl::hex>))
GRAMMAR(dig_hexl, dsl::capture(dsl::digits<dsl::hex_lower>))
GRAMMAR(dig_oct, dsl::capture(dsl::digits<dsl::octal>))
GRAMMAR(dig_bin, dsl::capture(dsl::digits<dsl::binary>))
GRAMMAR(dig_sep, dsl::capture(dsl::digits<>.sep(dsl::lit_c<'_'>)))
GRAMMAR(dig_zero, dsl::capture(dsl::digits<>.no_leading_zero()))
GRAMMAR(dig_sep_zero, dsl::capture(dsl::digits<dsl::hex>.sep(dsl::lit_c<'\''>).no_leading_zero()))
#    define LIST                                                                                                       \
        X(dig_dec, DIGIT, "/:a_") X(dig_hex, DIGIT "abcdefABCDEF", "/:gG@`_") X(dig_hexl, DIGIT "abcdef", "/:gA`_")    \
            X(dig_oct, "01234567", "/89:") X(dig_bin, "01", "/2:") X(dig_sep, DIGIT "_", "_/:") X(dig_zero, DIGIT, "0/:")  \
                X(dig_sep_zero, DIGIT "abcdefABCDEF'", "'0/:g")
#elif H02_PART == 3
GRAMMAR(until_nl, dsl::capture(dsl::token(dsl::until(dsl::newline))))
GRAMMAR(until_nl_eof, dsl::capture(dsl::token(dsl::until(dsl::newline).or_eof())))
GRAMMAR(until_lit, dsl::capture(dsl::token(dsl::until(LEXY_LIT("*/")))))
GRAMMAR(until_set, dsl::capture(dsl::token(dsl::until(dsl::literal_set(LEXY_LIT("end"), LEXY_LIT("endif"), LEXY_LIT(";"))).or_eof())))
GRAMMAR(any_tok, dsl::capture(dsl::any))
GRAMMAR(find_nl, dsl::try_(LEXY_LIT("never"), dsl::find(dsl::newline, LEXY_LIT("--")).limit(LEXY_LIT("limit"))))
#    define LIST                                                                                                       \
        X(until_nl, ALPHA " \t.", "\r\n\r\n\x0b\x0e\x0f") X(until_nl_eof, ALPHA " \t\x0e\x0f", "\r\n\r\n\x0b")         \
            X(until_lit, ALPHA " *", "*/*/") X(until_set, "endif ;xyzfi", "endif;")                                    \
                X(any_tok, ALPHA DIGIT "\n", "\x7f") X(find_nl, "abc-lim.limit", "\r\n\n-")
#elif H02_PART == 4
GRAMMAR(lit8, dsl::capture(LEXY_LIT("abcdefgh")))
GRAMMAR(lit9, dsl::capture(LEXY_LIT("abcdefghi")))
GRAMMAR(lit17, dsl::capture(LEXY_LIT("abcdefghijklmnopq")))
GRAMMAR(lit24, dsl::capture(LEXY_LIT("aaaaaaaaaaaaaaaaaaaaaaaa")))
GRAMMAR(lit_fold, dsl::capture(dsl::ascii::case_folding(LEXY_LIT("abcdefghijkl"))))
GRAMMAR(kw_long, dsl::capture(LEXY_KEYWORD("abcdefghij", dsl::identifier(dsl::ascii::alpha))))
GRAMMAR(lit_set, dsl::capture(dsl::literal_set(LEXY_LIT("abc"), LEXY_LIT("abcdefghi"), LEXY_LIT("abcdefghijklmno"), LEXY_LIT("b"))))
#    define LIST                                                                                                       \
        X(lit8, "=abcdefghi", "abx") X(lit9, "=abcdefghij", "x") X(lit17, "=abcdefghijklmnopqr", "xa")                 \
            X(lit24, "a", "b") X(lit_fold, "=aBcDeFgHiJkL", "[@`") X(kw_long, "=abcdefghijk", "_9") X(lit_set, "=abcdefghijklmno", "xb")
#elif H02_PART == 5
DGRAMMAR(del_print, dsl::quoted(dsl::ascii::print))
DGRAMMAR(del_esc, dsl::quoted(dsl::ascii::print, c_esc))
DGRAMMAR(del_uesc, dsl::quoted(dsl::ascii::character - dsl::ascii::control, u_esc))
DGRAMMAR(del_char, dsl::single_quoted.limit(dsl::ascii::newline)(dsl::ascii::character))
DGRAMMAR(del_triple, dsl::triple_quoted(dsl::ascii::character))
DGRAMMAR(del_alpha, dsl::delimited(LEXY_LIT("<<"), LEXY_LIT(">>"))(dsl::ascii::alpha, dsl::dollar_escape.capture(dsl::ascii::digit)))
#    define LIST                                                                                                       \
        X(del_print, "\"" ALPHA DIGIT, "\"\n\t\x7f") X(del_esc, "\"" ALPHA " ", "\\\"n\n\\") X(del_uesc, "\"" ALPHA "u0123", "\\u\"\\\n") \
            X(del_char, "'" ALPHA " \t", "'\n\r") X(del_triple, "\"\"\"" ALPHA "\n", "\"\"")                           \
                X(del_alpha, "<<" ALPHA, ">>$0>$")
#elif H02_PART == 6
WGRAMMAR(ws_space, dsl::ascii::space, dsl::capture(LEXY_LIT("x")) + dsl::capture(LEXY_LIT("y")))
WGRAMMAR(ws_sp, dsl::lit_c<' '>, dsl::capture(LEXY_LIT("x")) + dsl::capture(LEXY_LIT("y")))
WGRAMMAR(ws_blank_comment, (dsl::ascii::blank | LEXY_LIT("//") >> dsl::until(dsl::newline).or_eof()), dsl::capture(LEXY_LIT("x")) + dsl::capture(LEXY_LIT("y")))

GRAMMAR(ws_manual, dsl::whitespace(dsl::ascii::space) + dsl::capture(LEXY_LIT("y")))
GRAMMAR(loop_cls, dsl::while_(dsl::ascii::alpha / dsl::lit_c<'-'>) + dsl::while_(dsl::ascii::character - dsl::ascii::alpha) + dsl::position + dsl::capture(dsl::token(dsl::loop(dsl::ascii::digit | dsl::else_ >> dsl::break_))))
#    define LIST                                                                                                       \
        X(ws_space, "=x        y", "\t\n xy") X(ws_sp, "=x          y        ", "\ty ") X(ws_blank_comment, "=x  //abc\n   y", "/\n")    \
            X(ws_manual, " \t\n ", "y") X(loop_cls, "abcde-0123.#", "019az")
#endif

template <class G>
void reg(const char* run, const char* special)
{
    h02::registry().push_back({G::name, run, special, &h02::run_all<G>});
}
struct Init
{
    Init()
    {
#define X(G, RUN, SPECIAL) reg<G>(RUN, SPECIAL);
        LIST
    }
} init;
} // namespace
