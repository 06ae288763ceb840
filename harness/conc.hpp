// Runs pure jobs on shared constant data in many threads, and compares every result with the one of a single thread.
#pragma once
#include "vh.hpp"
#include <atomic>
#include <set>
#include <thread>
namespace conc
{
struct Job
{
    std::string                  name;
    std::function<std::string()> run;
    std::string                  expected;
    bool                         known = false;
};
struct Seen
{
    std::size_t job;
    std::string result;
    const char* when;
};
constexpr int threads = 6;
// Only relaxed operations: the monitor must not order the threads it watches.
inline std::atomic<int> running[threads];
inline void round(std::vector<Job>& jobs, vh::Rng& r, int per_thread, const char* when, const std::vector<std::size_t>* only = nullptr)
{
    std::vector<std::size_t> order[threads];
    for (int t = 0; t < threads; ++t)
    {
        running[t].store(-1, std::memory_order_relaxed);
        auto common = r.below(jobs.size());
        for (int i = 0; i < per_thread; ++i)
        {
            auto j = only ? (*only)[r.below(only->size())] : r.chance(1, 3) ? common : r.below(jobs.size());
            order[t].push_back(j);
            if (r.chance(1, 3)) // the same job everywhere
                for (int k = 0; k < t; ++k)
                    if (order[k].size() > std::size_t(i))
                        order[k][std::size_t(i)] = j;
        }
    }
    std::vector<Seen>                          odd[threads];
    std::vector<Seen>                          first[threads];
    std::set<std::pair<std::size_t, std::size_t>> overlap[threads];
    std::atomic<int>                           ready{0};
    std::vector<std::thread>                   ts;
    for (int t = 0; t < threads; ++t)
        ts.emplace_back([&, t] {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < threads)
                std::this_thread::yield();
            for (auto j : order[t])
            {
                running[t].store(int(j), std::memory_order_relaxed);
                auto res = jobs[j].run();
                for (int o = 0; o < threads; ++o)
                    if (auto k = running[o].load(std::memory_order_relaxed); o != t && k >= 0)
                        overlap[t].insert({j, std::size_t(k)});
                running[t].store(-1, std::memory_order_relaxed);
                if (!jobs[j].known)
                    first[t].push_back({j, std::move(res), when});
                else if (res != jobs[j].expected)
                    odd[t].push_back({j, std::move(res), when});
            }
        });
    for (auto& t : ts)
        t.join();
    for (int t = 0; t < threads; ++t)
    {
        for (auto& f : first[t]) // cold start: the results are known only now
        {
            auto& j = jobs[f.job];
            if (!j.known)
                j.known = true, j.expected = j.run();
            if (f.result != j.expected)
                odd[t].push_back(f);
        }
        for (auto& o : odd[t])
            vh::violation("result-differs", std::string("the result of ") + jobs[o.job].name + " " + o.when + " is\n" + o.result + "\nalone it is\n" + jobs[o.job].expected);
        for (auto& [a, b] : overlap[t])
        {
            vh::observe(vh::hash(jobs[a].name + "|" + jobs[b].name));
            vh::count("overlapping_pairs");
        }
        vh::count("concurrent_jobs", order[t].size());
    }
}
inline void all(std::vector<Job>& jobs, vh::Rng& r, std::uint64_t rounds, int per_thread)
{
    // the first use of everything is concurrent
    std::vector<std::size_t> cold(jobs.size());
    for (std::size_t i = 0; i < cold.size(); ++i)
        cold[i] = i;
    for (std::size_t i = cold.size(); i > 1; --i)
        std::swap(cold[i - 1], cold[r.below(i)]);
    for (std::size_t i = 0; i < cold.size(); i += 4)
    {
        std::vector<std::size_t> some(cold.begin() + long(i), cold.begin() + long(std::min(i + 4, cold.size())));
        vh::begin_case("first use of " + jobs[some[0]].name + " and others");
        round(jobs, r, 6, "when used for the first time in several threads", &some);
    }
    for (auto& j : jobs)
        if (!j.known)
            j.known = true, j.expected = j.run();
    // again and again in another order
    for (std::uint64_t k = 0; k < rounds && !vh::too_many_violations(); ++k)
    {
        vh::begin_case("history " + std::to_string(k));
        std::string before;
        for (int i = 0; i < per_thread; ++i)
        {
            auto& j   = jobs[r.below(jobs.size())];
            auto  res = j.run();
            if (res != j.expected)
                vh::violation("history", "the result of " + j.name + " after " + before + " is\n" + res + "\nbefore it was\n" + j.expected);
            before = j.name;
            vh::count("repeated_jobs");
        }
        vh::begin_case("round " + std::to_string(k));
        round(jobs, r, per_thread, "while other threads run");
    }
}
} // namespace conc
