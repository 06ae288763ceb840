// Generated grammars on hostile inputs.
#include "h01.hpp"
#include "gdrive.hpp"
std::vector<gd::Entry>& gd::registry()
{
    static std::vector<Entry> r;
    return r;
}
int main(int argc, char** argv)
{
    return hostile::main(argc, argv, [](vh::Rng& r) {
        auto per = vh::cases(GD_CASES_QUICK, GD_CASES_THOROUGH) / gd::registry().size() + 1;
        for (auto& e : gd::registry())
        {
            auto         g = gm::parse_grammar(e.model);
            hostile::Doc d;
            for (int i = 0; i < 60; ++i)
                d.samples.push_back(gm::derive(g, r, r.range(2, 60)));
            for (unsigned i = 0; i < g.alphabet.size(); ++i)
                d.tokens.push_back(g.alphabet.substr(i, 1));
            for (int i = 0; i < 20; ++i)
                d.tokens.push_back(hostile::chunk(d, r));
            for (std::uint64_t i = 0; i < per && !vh::too_many_violations(); ++i)
            {
                auto    s = hostile::make(d, r, 400);
                gm::Obs m;
                if (!gm::run_model(g, s, m))
                {
                    vh::count("skipped_long_runs");
                    continue;
                }
                vh::begin_case(std::string("grammar ") + e.name + " on " + vh::esc(s) + "\n  grammar: " + e.model);
                e.job(int(r.below(1 << 30)), &s);
                vh::count("generated_grammar_inputs");
            }
        }
    });
}
