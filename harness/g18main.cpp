// Generated grammars in several threads.
#include "conc.hpp"
#include "g18.hpp"
#include <memory>
std::vector<gd::Entry>& gd::registry()
{
    static std::vector<Entry> r;
    return r;
}
int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        vh::Rng                                  r(vh::opt.seed * 31 + std::uint64_t(vh::opt.shard) * 977);
        std::vector<conc::Job>                   jobs;
        std::vector<std::unique_ptr<gd::Shared>> inputs;
        for (auto& e : gd::registry())
        {
            auto g = gm::parse_grammar(e.model);
            for (int i = 0; i < 12; ++i)
            {
                std::string s;
                for (int k = 0; k < 10; ++k) // prefer long inputs
                {
                    auto x = i % 3 == 0 ? gm::mutate(g, r, gm::derive(g, r, r.range(10, 60))) : gm::derive(g, r, r.range(10, 80));
                    if (x.size() > s.size() && x.size() < 400)
                        s = x;
                }
                gm::Obs m;
                if (!gm::run_model(g, s, m))
                    continue;
                inputs.push_back(std::make_unique<gd::Shared>(s));
                auto p = inputs.back().get();
                for (int k = 0; k < gd::kinds; ++k)
                    jobs.push_back({std::string(gd::kind_names[k]) + " of grammar " + e.name + " on " + vh::esc(s), [job = e.job, k, p] { return job(k, p); }});
                jobs.push_back({std::string("parses of reused memory, grammar ") + e.name + " on " + vh::esc(s), [job = e.job, p] {
                                    static thread_local char mem[512];
                                    std::memset(mem, '?', sizeof mem);
                                    std::memcpy(mem, p->s.data(), p->s.size());
                                    gd::Shared  in(mem, p->s.size());
                                    std::string r;
                                    for (int k = 0; k < 6; ++k)
                                        r += job(k, &in);
                                    return r;
                                }});
                vh::count("shared_inputs");
                vh::sample(jobs.back().name);
            }
        }
        conc::all(jobs, r, vh::cases(240, 20000), 60);
    });
}
