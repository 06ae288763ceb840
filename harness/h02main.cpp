#include "h02.hpp"
#include <algorithm>
namespace h02
{
std::vector<Entry>& registry()
{
    static std::vector<Entry> r;
    return r;
}
const char* encoding_names[5] = {"UTF-8 (char)", "UTF-16", "UTF-32", "ASCII", "default encoding"};
std::string ascii_reference;
} // namespace h02
using namespace h02;
enum
{
    E_8,
    E_16,
    E_32,
    E_ASCII,
    E_DEFAULT
};
int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        auto reg = registry();
        std::sort(reg.begin(), reg.end(), [](auto& a, auto& b) { return std::string(a.name) < b.name; });
        auto per = vh::cases(160000, 6000000) / reg.size() + 1;
        for (auto& e : reg)
        {
            vh::Rng rng(vh::opt.seed * 7919 + vh::hash(e.name) + std::uint64_t(vh::opt.shard) * 131);
            for (std::uint64_t i = 0; i < per && !vh::too_many_violations(); ++i)
            {
                // runs of members with lengths around multiples of the word size
                Units       u;
                std::string run = e.run, special = e.special;
                bool        exact = run[0] == '=';
                if (exact)
                    run.erase(0, 1);
                auto nseg = rng.range(0, 3);
                if (rng.chance(1, 2) && !exact)
                    for (char c : run.substr(0, rng.range(0, 3)))
                        u.push_back((unsigned char)c);
                for (int s = 0; s <= nseg; ++s)
                {
                    int len = rng.chance(1, 2) ? rng.range(0, 10) : 8 * rng.range(0, 4) + rng.range(-1, 1);
                    if (exact && rng.chance(2, 3))
                        for (char c : run)
                            u.push_back((unsigned char)c);
                    else
                    {
                        auto lim = rng.chance(1, 3) ? rng.range(1, int(run.size())) : int(run.size());
                        for (int k = 0; k < len; ++k)
                            u.push_back((unsigned char)run[rng.below(lim)]);
                    }
                    if (rng.chance(1, 2) && !special.empty())
                        for (int k = rng.range(1, 2); k > 0; --k)
                            u.push_back((unsigned char)special[rng.below(special.size())]);
                }
                if (u.size() > 60)
                    u.resize(60);
                if (rng.chance(1, 3) && !u.empty())
                    u.resize(rng.below(u.size() + 1));
                if (rng.chance(1, 4) && !u.empty())
                    u[rng.below(u.size())] = std::uint32_t(rng.below(128));
                bool foreign = rng.chance(1, 3) && !u.empty();
                auto enc     = int(rng.below(5));
                if (foreign)
                {
                    // one encoding, code units that are not ASCII
                    for (int k = rng.range(1, 2); k > 0; --k)
                    {
                        auto& c = u[rng.below(u.size())];
                        auto  f = c & 0x7F;
                        switch (rng.below(6))
                        {
                        case 0: c = 0x80 | f; break;
                        case 1: c = 0xFF; break;
                        case 2: c = enc == E_16 ? 0xFFFF : enc == E_32 ? 0xFFFFFFFF : 0xC3; break;
                        case 3: c = f << 8 | (rng.chance(1, 2) ? f : 0); break;
                        case 4: c = enc == E_32 ? 0x80000000u | f : enc == E_16 ? 0xD800 | f : 0xF0 | (f & 15); break;
                        case 5: c = enc == E_32 ? f << 16 | f : enc == E_16 ? 0x100 | f : 0x80 | f; break;
                        }
                        if (enc == E_16)
                            c &= 0xFFFF;
                        else if (enc != E_32)
                            c &= 0xFF;
                        // the ASCII encoding requires ASCII, except for its end of file marker
                        if (enc == E_ASCII)
                            c &= 0x7F;
                    }
                }
                ascii_reference.clear();
                for (int k = foreign ? enc : 0; k < (foreign ? enc + 1 : 5); ++k)
                {
                    vh::begin_case(std::string("grammar ") + e.name + ", " + encoding_names[k] + ", text \"" + hex(u) + "\"");
                    e.fn(e, u, k);
                }
                if (i == 7)
                    vh::sample(std::string(e.name) + " \"" + hex(u) + "\"");
            }
            vh::count("grammars");
        }
    });
}
