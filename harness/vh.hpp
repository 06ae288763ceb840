// Common harness support: RNG, case bookkeeping, violation recording, crash reporting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh
{
struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(0x1234567ull)
    {
        // the state must not be a multiple of the increment, or seeds would be shifts of one another
        s = seed;
        s = next() ^ 0xA0761D6478BD642Full;
        s = next() * 0xE7037ED1A0B428DBull;
        next();
    }
    std::uint64_t next()
    {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z               = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z               = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0, n)
    std::uint64_t below(std::uint64_t n)
    {
        return n == 0 ? 0 : next() % n;
    }
    int range(int lo, int hi) // inclusive
    {
        return lo + int(below(std::uint64_t(hi - lo + 1)));
    }
    bool chance(int num, int den)
    {
        return int(below(std::uint64_t(den))) < num;
    }
    template <class C>
    auto& pick(C& c)
    {
        return c[below(c.size())];
    }
};

inline std::uint64_t hash(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull)
{
    auto b = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < n; ++i)
        h = (h ^ b[i]) * 1099511628211ull;
    return h;
}
inline std::uint64_t hash(const std::string& s, std::uint64_t h = 1469598103934665603ull)
{
    return hash(s.data(), s.size(), h);
}

// C-style escaped text of arbitrary bytes.
std::string esc(const std::string& s);

// Parsed command line.
struct Options
{
    std::uint64_t seed  = 1;
    bool          thorough = false;
    int           shard = 0, shards = 1;
    int           scale = 100; // percentage of the normal number of cases
    std::string   out, scratch;
};
extern Options opt;

// Number of cases to run in this shard, from the quick number in total.
inline std::uint64_t cases(std::uint64_t quick, std::uint64_t thorough)
{
    auto n = (opt.thorough ? thorough : quick) * std::uint64_t(opt.scale) / 100;
    n      = n / std::uint64_t(opt.shards);
    return n == 0 ? 1 : n;
}

// Starts a new case; the description is what a crash/violation report shows.
void begin_case(const std::string& description);
// Adds an observed, non-trivial case (deduplicated by hash).
void observe(std::uint64_t h);
void observe(const std::string& s);
// Increments a named counter of the evidence.
void count(const char* name, std::uint64_t n = 1);
// Records an example for the evidence.
void sample(const std::string& s);
// Records a violation. key identifies the kind of failure (for deduplication).
void violation(const std::string& key, const std::string& message);
bool too_many_violations();

inline bool expect(bool cond, const char* key, const std::string& message)
{
    if (!cond)
        violation(key, message);
    return cond;
}
template <class A, class B>
bool expect_eq(const A& got, const B& want, const char* key, const std::string& what);

// Runs the harness: parses options, installs crash handlers, calls fn, writes the report.
int run(int argc, char** argv, const std::function<void()>& fn);

inline std::string str(const std::string& s)
{
    return s;
}
inline std::string str(const char* s)
{
    return s;
}
template <class T>
std::string str(const T& t)
{
    return std::to_string(t);
}
template <class A, class B>
bool expect_eq(const A& got, const B& want, const char* key, const std::string& what)
{
    if (got == want)
        return true;
    violation(key, what + ": got " + str(got) + ", expected " + str(want));
    return false;
}

// Heap copy of exactly the given size, so that any over-read hits a redzone.
template <class T>
struct Exact
{
    T*          data;
    std::size_t size;
    Exact(const T* p, std::size_t n) : data(static_cast<T*>(std::malloc(n ? n * sizeof(T) : 1))), size(n)
    {
        if (n)
            std::memcpy(data, p, n * sizeof(T));
    }
    Exact(const Exact&)            = delete;
    Exact& operator=(const Exact&) = delete;
    ~Exact()
    {
        std::free(data);
    }
};
} // namespace vh
