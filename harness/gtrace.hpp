// The text written by lexy::trace(), reduced to (line, column, nesting, event), and what the model expects of it.
#pragma once
#include "gm.hpp"
#include <sstream>
namespace gtrace
{
inline void location(const std::string& s, std::size_t pos, unsigned& line, unsigned& col)
{
    line = col = 1;
    for (std::size_t i = 0; i < pos;)
    {
        if (s[i] == '\n')
            ++line, col = 1, ++i;
        else if (s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n' && i + 1 == pos)
            break; // inside of a newline
        else if (s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n')
            ++line, col = 1, i += 2;
        else
            ++col, ++i;
    }
}
// A production (or recovery) that was started and cancelled without any event is an alternative that was not taken.
inline std::string drop_untaken(const std::string& text)
{
    std::vector<std::string> lines;
    std::istringstream       is(text);
    std::string              l, r;
    while (std::getline(is, l))
    {
        auto cancel = l.size() >= 2 && l.compare(l.size() - 2, 2, "-x") == 0;
        if (cancel && !lines.empty() && lines.back().back() == ':')
            lines.pop_back();
        else
            lines.push_back(l);
    }
    for (auto& x : lines)
        r += x + "\n";
    return r;
}
// keeps prefix and event name, removes lexeme texts and branches that were not taken
inline std::string normalize(const std::string& out)
{
    std::string        r, l;
    std::istringstream is(out);
    while (std::getline(is, l))
    {
        auto p = l.find("- ");
        if (p == l.npos)
            p = 6;
        auto name = l.substr(p + 2);
        if (name.compare(0, 11, "backtracked") == 0)
            continue;
        auto c = name.find(": ");
        if (c != name.npos)
        {
            auto rest = name.substr(c + 2);
            name      = name.substr(0, c);
            if (name == "error" && rest.compare(0, 9, "expected ") != 0)
                name += ": " + rest;
        }
        else if (name == "finish")
            name = "finish";
        r += l.substr(0, p + 2) + name + "\n";
    }
    return drop_untaken(r);
}
inline std::string expected(const gm::Obs& m, const std::string& in)
{
    std::string r;
    int         depth = 0;
    auto        line  = [&](std::size_t pos, const char* lead, const std::string& text) {
        unsigned l, c;
        location(in, pos, l, c);
        char buf[64];
        std::snprintf(buf, sizeof buf, "%2u:%3u: ", l, c);
        r += buf;
        if (depth > 0)
        {
            for (int i = 0; i < depth - 1; ++i)
                r += "  ";
            r += lead;
        }
        r += text + "\n";
    };
    for (auto& t : m.trace)
    {
        auto sp    = t.rfind(' ');
        auto tail  = t.substr(sp + 1);
        auto dash  = tail.find('-');
        auto b     = std::stoul(tail);
        auto e     = dash == tail.npos ? b : std::stoul(tail.substr(dash + 1));
        auto first = t.substr(0, t.find(' '));
        auto mid   = sp > first.size() ? t.substr(first.size() + 1, sp - first.size() - 1) : std::string();
        if (first == "start")
            line(b, "- ", mid + ":"), ++depth;
        else if (first == "finish")
            line(b, "- ", "finish"), --depth;
        else if (first == "cancel")
            line(b, "-x", ""), --depth;
        else if (first == "recovery_start")
            line(b, "- ", "error recovery:"), ++depth;
        else if (first == "recovery_finish")
            line(b, "- ", "finish"), --depth;
        else if (first == "recovery_cancel")
            line(b, "-x", ""), --depth;
        else if (first == "token")
        {
            bool ignore = mid == "token" || mid == "error token" || mid == "whitespace";
            if (ignore && b == e)
                continue;
            line(b, "- ", mid);
        }
        else if (first == "error")
        {
            bool lit = mid.compare(0, 4, "lit:") == 0 || mid.compare(0, 3, "cc:") == 0 || mid.compare(0, 3, "kw:") == 0
                       || mid.compare(0, 9, "expected ") == 0;
            line(b, "- ", lit ? "error" : "error: " + mid);
        }
    }
    return drop_untaken(r);
}
} // namespace gtrace
