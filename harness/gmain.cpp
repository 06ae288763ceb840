// Runs the registered grammars on derived, mutated and random inputs and compares with the model.
#include "gdrive.hpp"
namespace gd
{
std::vector<Entry>& registry()
{
    static std::vector<Entry> r;
    return r;
}
} // namespace gd
using gm::Obs;
static std::string join(const std::vector<std::string>& v)
{
    std::string r;
    for (auto& s : v)
        r += "\n    " + s;
    return r;
}
static const char* st(int s)
{
    return s == 0 ? "success" : s == 1 ? "recovered" : s == 2 ? "fatal" : "inconsistent result";
}

bool gd::compare(const char* what, const gd::Entry& e, const std::string& in, const Obs& m, const Obs& r, bool tree)
{
    auto fail = [&](const char* key, const std::string& detail) {
        vh::violation(std::string(what) + "-" + key,
                      std::string(what) + " of grammar " + e.name + " on \"" + vh::esc(in) + "\": " + detail
                          + "\n  grammar: " + e.model);
        return false;
    };
    if (m.status != r.status)
        return fail("status", std::string("got ") + st(r.status) + ", expected " + st(m.status) + "; errors got:" + join(r.errors)
                                  + "\n  expected:" + join(m.errors));
    if (m.errors != r.errors)
        return fail("errors", "errors got:" + join(r.errors) + "\n  expected:" + join(m.errors));
    if (!tree)
    {
        if (r.has_value != m.has_value || r.value != m.value)
            return fail("value", "got " + r.value + "\n  expected " + m.value);
        if (r.log != m.log)
            return fail("callbacks", "production callbacks got:" + join(r.log) + "\n  expected:" + join(m.log));
    }
    else
    {
        if (r.has_tree != m.has_tree)
            return fail("tree", r.has_tree ? "tree not expected" : "no tree");
        if (r.has_tree)
        {
            if (r.lossless != in)
                return fail("lossless", "tokens + remaining input are " + vh::esc(r.lossless));
            if (r.tree != m.tree)
                return fail("tree", "got " + r.tree + "\n  expected " + m.tree);
            if (r.consumed != m.consumed)
                return fail("consumed", "got " + std::to_string(r.consumed) + ", expected " + std::to_string(m.consumed));
        }
    }
    return true;
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        auto& reg = gd::registry();
        std::vector<gm::Grammar> gs;
        for (auto& e : reg)
            gs.push_back(gm::parse_grammar(e.model));
        auto     total = vh::cases(GD_CASES_QUICK, GD_CASES_THOROUGH);
        auto     per   = total / reg.size() + 1;
        for (std::size_t gi = 0; gi < reg.size(); ++gi)
        {
            auto&   e = reg[gi];
            auto&   g = gs[gi];
            vh::Rng rng(vh::opt.seed * 1315423911u + vh::hash(e.name, std::strlen(e.name)) + std::uint64_t(vh::opt.shard) * 77777);
            std::vector<std::string> pool;
            std::unordered_set<std::uint64_t> shapes;
            bool st_seen[3] = {};
            for (std::uint64_t i = 0; i < per && !vh::too_many_violations(); ++i)
            {
                std::string in;
                auto        k = rng.below(12);
                if (i == 0)
                    in = "";
                else if (k < 4 || pool.empty())
                    in = gm::derive(g, rng, rng.range(4, 40));
                else if (k < 7)
                    in = gm::mutate(g, rng, gm::derive(g, rng, rng.range(4, 30)));
                else if (k < 11)
                {
                    in = gm::mutate(g, rng, pool[rng.below(pool.size())]);
                    if (in.size() > 300)
                        in.resize(300);
                }
                else
                {
                    for (int n = rng.range(0, 14); n > 0; --n)
                        in += g.alphabet[rng.below(g.alphabet.size())];
                }
                if (rng.chance(1, 60) && !in.empty())
                    in[rng.below(in.size())] = '\0';
                Obs m;
                vh::begin_case(std::string("grammar ") + e.name + " input \"" + vh::esc(in) + "\"\n" + e.model);
                if (!gm::run_model(g, in, m))
                {
                    vh::count("skipped_too_long");
                    continue;
                }
                // keep inputs that reach new behaviour for mutation
                std::string shape = std::to_string(m.status);
                for (auto& t : m.trace)
                    shape += t.substr(0, t.rfind(' ')) + ";";
                auto h = vh::hash(shape);
                if (shapes.insert(h).second && pool.size() < 400)
                    pool.push_back(in);
                bool ok = true;
                if (e.parse)
                    ok &= gd::compare("parse", e, in, m, e.parse(in), false);
                if (e.tree)
                    ok &= gd::compare("parse_as_tree", e, in, m, e.tree(in), true);
                if (e.extra)
                    e.extra(e, in, m);
                if (m.trace.size() > 3)
                    vh::observe(h ^ vh::hash(e.name, std::strlen(e.name)));
                st_seen[m.status] = true;
                vh::count(m.status == 0 ? "status_success" : m.status == 1 ? "status_recovered" : "status_fatal");
                vh::count("errors_compared", m.errors.size());
                for (auto& [op, c] : m.ops)
                    vh::count(("op." + op).c_str(), c);
                if (i == 40)
                    vh::sample(std::string(e.name) + " \"" + vh::esc(in) + "\" -> " + st(m.status) + " " + m.value);
            }
            if (st_seen[0])
                vh::count("grammars_with_success");
            vh::count("grammars");
        }
    });
}
