#include "vh.hpp"
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__has_feature)
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
#endif

namespace vh
{
Options opt;

namespace
{
    constexpr std::size_t case_size = 1 << 16;
    char                  g_case[case_size];
    std::size_t           g_case_len = 0;
    std::uint64_t         g_cases = 0;
    std::unordered_set<std::uint64_t> g_distinct;
    std::map<std::string, std::uint64_t> g_counts;
    std::vector<std::string> g_samples;
    struct Violation
    {
        std::string key, message, where;
        std::uint64_t count;
    };
    std::vector<Violation> g_violations;
    std::uint64_t          g_violation_count = 0;
    bool                   g_done = false;
    char                   g_crash_path[4096];

    std::string json(const std::string& s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            char buf[8];
            if (c == '"' || c == '\\')
                r += '\\', r += char(c);
            else if (c < 0x20 || c >= 0x7f)
            {
                std::snprintf(buf, sizeof buf, "\\u%04x", c);
                r += buf;
            }
            else
                r += char(c);
        }
        return r + "\"";
    }

    void dump_crash(const char* why)
    {
        if (g_done)
            return;
        g_done  = true;
        auto fd = ::open(g_crash_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd < 0)
            return;
        (void)!::write(fd, why, std::strlen(why));
        (void)!::write(fd, "\n", 1);
        (void)!::write(fd, g_case, g_case_len);
        (void)!::write(fd, "\n", 1);
        ::close(fd);
    }
    void on_death()
    {
        dump_crash("sanitizer");
    }
    void on_signal(int sig)
    {
        dump_crash(sig == SIGABRT ? "abort" : sig == SIGXCPU ? "timeout" : "signal");
        std::signal(sig, SIG_DFL);
        ::raise(sig);
    }

    // Watchdog on consumed CPU time: a case that runs for this long does not terminate.
    std::uint64_t g_watch_case  = 0;
    int           g_watch_ticks = 0;
    void on_tick(int)
    {
        if (g_cases != g_watch_case)
            g_watch_case = g_cases, g_watch_ticks = 0;
        else if (++g_watch_ticks >= 15 && !g_done)
        {
            dump_crash("does not terminate");
            ::_exit(98);
        }
    }

    void write_report()
    {
        auto f = std::fopen(opt.out.c_str(), "w");
        if (!f)
            std::abort();
        std::string r = "{\"cases\":" + std::to_string(g_cases)
                        + ",\"violation_count\":" + std::to_string(g_violation_count)
                        + ",\"counts\":{";
        bool first = true;
        for (auto& [k, v] : g_counts)
        {
            r += (first ? "" : ",") + json(k) + ":" + std::to_string(v);
            first = false;
        }
        r += "},\"samples\":[";
        first = true;
        for (auto& s : g_samples)
        {
            r += (first ? "" : ",") + json(s);
            first = false;
        }
        r += "],\"violations\":[";
        first = true;
        for (auto& v : g_violations)
        {
            r += std::string(first ? "" : ",") + "{\"key\":" + json(v.key) + ",\"message\":" + json(v.message)
                 + ",\"case\":" + json(v.where) + ",\"count\":" + std::to_string(v.count) + "}";
            first = false;
        }
        r += "],\"distinct\":[";
        first = true;
        for (auto h : g_distinct)
        {
            r += (first ? "" : ",") + std::to_string(h & 0xFFFFFFFFFFFFull);
            first = false;
        }
        r += "]}\n";
        std::fwrite(r.data(), 1, r.size(), f);
        std::fclose(f);
    }
} // namespace

std::string esc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        char buf[8];
        if (c == '\n')
            r += "\\n";
        else if (c == '\r')
            r += "\\r";
        else if (c == '\t')
            r += "\\t";
        else if (c == '\\')
            r += "\\\\";
        else if (c == '"')
            r += "\\\"";
        else if (c < 0x20 || c >= 0x7f)
        {
            std::snprintf(buf, sizeof buf, "\\x%02X", c);
            r += buf;
        }
        else
            r += char(c);
    }
    return r;
}

void begin_case(const std::string& d)
{
    ++g_cases;
    auto n = d.size() < case_size ? d.size() : case_size;
    std::memcpy(g_case, d.data(), n);
    g_case_len = n;
}
void observe(std::uint64_t h)
{
    if (g_distinct.size() < 400000)
        g_distinct.insert(h);
}
void observe(const std::string& s)
{
    observe(hash(s));
}
void count(const char* name, std::uint64_t n)
{
    g_counts[name] += n;
}
void sample(const std::string& s)
{
    if (g_samples.size() < 6)
        g_samples.push_back(s.substr(0, 600));
}
void violation(const std::string& key, const std::string& message)
{
    ++g_violation_count;
    for (auto& v : g_violations)
        if (v.key == key)
        {
            ++v.count;
            return;
        }
    if (g_violations.size() < 50)
        g_violations.push_back({key, message.substr(0, 8000), std::string(g_case, g_case_len), 1});
}
bool too_many_violations()
{
    return g_violation_count > 2000;
}

int run(int argc, char** argv, const std::function<void()>& fn)
{
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed")
            opt.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--tier")
            opt.thorough = v == "thorough";
        else if (a == "--shard")
            opt.shard = std::atoi(v.c_str());
        else if (a == "--shards")
            opt.shards = std::atoi(v.c_str());
        else if (a == "--scale")
            opt.scale = std::atoi(v.c_str());
        else if (a == "--out")
            opt.out = v;
        else if (a == "--scratch")
            opt.scratch = v;
    }
    if (opt.out.empty())
        opt.out = "/dev/stdout";
    std::snprintf(g_crash_path, sizeof g_crash_path, "%s.crash", opt.out.c_str());
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGXCPU, SIGTERM})
    {
        // leave memory faults to the sanitizer, which calls the death callback
        if (s == SIGSEGV || s == SIGBUS || s == SIGFPE || s == SIGILL)
            continue;
        std::signal(s, on_signal);
    }
    if (__sanitizer_set_death_callback)
        __sanitizer_set_death_callback(on_death);
    std::signal(SIGPROF, on_tick);
    itimerval tv{};
    tv.it_interval.tv_sec = tv.it_value.tv_sec = 2;
    ::setitimer(ITIMER_PROF, &tv, nullptr);
    fn();
    tv = {};
    ::setitimer(ITIMER_PROF, &tv, nullptr);
    write_report();
    begin_case("(after the last case: leak check at exit)");
    return 0;
}
} // namespace vh
