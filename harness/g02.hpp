// The same text in every representation must give the model's result.
#include "gdrive.hpp"
namespace gd
{
template <class P>
void inputs(const Entry& e, const std::string& s, const Obs& m)
{
    auto parse = [](const auto& in) { return gobs::run_parse<P>(in); };
    auto tree  = [](const auto& in) { return gobs::run_tree<P>(in); };
    compare("string_input<default_encoding>", e, s, m, gobs::with_unaligned<lexy::default_encoding>(s, parse), false);
    compare("string_input<utf16_encoding>", e, s, m, gobs::with_unaligned<lexy::utf16_encoding>(s, parse), false);
    compare("buffer<default_encoding>", e, s, m, gobs::with_buffer<lexy::default_encoding>(s, parse), false);
    compare("buffer<ascii_encoding>", e, s, m, gobs::with_buffer<lexy::ascii_encoding>(s, parse), false);
    compare("buffer<utf8_encoding>", e, s, m, gobs::with_buffer<lexy::utf8_encoding>(s, tree), true);
    compare("buffer<utf16_encoding>", e, s, m, gobs::with_buffer<lexy::utf16_encoding>(s, parse), false);
    compare("buffer<utf32_encoding>", e, s, m, gobs::with_buffer<lexy::utf32_encoding>(s, parse), false);
    compare("range_input", e, s, m, gobs::with_range<lexy::utf8_char_encoding>(s, parse), false);
    compare("argv_input", e, s, m, gobs::with_argv<lexy::utf8_char_encoding>(s, parse), false);
    compare("lexeme_input", e, s, m, gobs::with_lexeme<lexy::utf8_char_encoding>(s, parse), false);
    if (s.find('\0') == s.npos)
        compare("zstring_input", e, s, m, gobs::with_zstring<lexy::utf8_char_encoding>(s, parse), false);
    vh::count("representations_compared", 12);
}
template <class P>
Entry make(const char* name, const char* model)
{
    Entry e{name, model};
    e.parse = [](const std::string& s) {
        return gobs::with_string<lexy::utf8_char_encoding>(s, [](const auto& in) { return gobs::run_parse<P>(in); });
    };
    e.tree = [](const std::string& s) {
        return gobs::with_range<lexy::utf8_char_encoding>(s, [](const auto& in) { return gobs::run_tree<P>(in); });
    };
    e.extra = &inputs<P>;
    return e;
}
} // namespace gd
