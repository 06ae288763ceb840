// Parse values, errors and trees against the model.
#include "gdrive.hpp"
namespace gd
{
template <class P>
Entry make(const char* name, const char* model)
{
    Entry e{name, model};
    e.parse = [](const std::string& s) {
        return gobs::with_string<lexy::utf8_char_encoding>(s, [](const auto& in) { return gobs::run_parse<P>(in); });
    };
    e.tree = [](const std::string& s) {
        return gobs::with_buffer<lexy::utf8_char_encoding>(s, [](const auto& in) { return gobs::run_tree<P>(in); });
    };
    return e;
}
} // namespace gd
