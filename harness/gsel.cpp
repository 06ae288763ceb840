// Development tool: reads "seed<TAB>model" lines, prints seed, success count and the behaviours the model reached.
#include "gm.hpp"
#include <iostream>
int main(int, char** argv)
{
    int         n = std::atoi(argv[1]);
    std::string line;
    while (std::getline(std::cin, line))
    {
        auto        tab = line.find('\t');
        auto        g   = gm::parse_grammar(line.c_str() + tab + 1);
        vh::Rng     rng(12345);
        std::unordered_set<std::uint64_t> feat, shapes;
        int         ok = 0, rec = 0;
        for (int i = 0; i < n; ++i)
        {
            auto in = gm::derive(g, rng, rng.range(4, 40));
            if (i % 2)
                in = gm::mutate(g, rng, in);
            gm::Obs m;
            if (!gm::run_model(g, in, m))
                continue;
            ok += m.status == 0;
            rec += m.status == 1;
            feat.insert(m.feat.begin(), m.feat.end());
        }
        std::cout << line.substr(0, tab) << ' ' << ok << ' ' << rec;
        for (auto f : feat)
            std::cout << ' ' << f;
        std::cout << '\n';
    }
}
