#include "u8.hpp"
#include <algorithm>
namespace u8
{
const std::vector<Row> table = {
#include "ucd15.inc"
};
const Row& row(std::uint32_t cp)
{
    auto it = std::upper_bound(table.begin(), table.end(), cp, [](std::uint32_t c, const Row& r) { return c < r.first; });
    return *(it - 1);
}
} // namespace u8
