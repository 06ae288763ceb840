// Expressions against a recursive descent over the precedence levels.
#include "h11.hpp"
namespace h11
{
std::vector<Entry>& registry()
{
    static std::vector<Entry> r;
    return r;
}
} // namespace h11
using namespace h11;
using obs::Out;
struct Fail
{};
struct TooDeep // for this model
{};
struct Mixed // the first mix of two groups: everything after it is not judged
{
    bool exact;
};
struct Node
{
    std::string val, tree;
};
struct Model
{
    const Spec&           s;
    std::string           in;
    std::size_t           p = 0;
    std::vector<obs::Err> errs;
    // per expression
    std::size_t                   nops = 0;
    bool                          any_atom = false, used_group = false;
    std::vector<const Operation*> levels;
    std::size_t                   group = 0; // of the current attempt
    int                           depth = 0;

    void skip()
    {
        while (s.ws && p < in.size() && (in[p] == ' ' || in[p] == '\t'))
            ++p;
    }
    static char lower(char c)
    {
        return c >= 'A' && c <= 'Z' ? char(c + 32) : c;
    }
    bool match(const Op& o) const
    {
        if (in.size() - p < o.text.size())
            return false;
        for (std::size_t i = 0; i < o.text.size(); ++i)
            if ((o.fold ? lower(in[p + i]) : in[p + i]) != o.text[i])
                return false;
        if (o.nf && p + o.text.size() < in.size())
        {
            auto c = in[p + o.text.size()];
            auto l = lower(c);
            if (o.nf == 'a' ? (l >= 'a' && l <= 'z') : c == o.nf)
                return false;
        }
        return true;
    }
    const Op* match(const Operation& x) const
    {
        const Op* best = nullptr;
        for (auto& o : x.ops)
            if (match(o) && (!best || o.text.size() > best->text.size()))
                best = &o;
        return best;
    }
    const Op* foreign(bool prefix) const
    {
        for (std::size_t g = 0; g < s.groups.size(); ++g)
            if (g != group)
                for (auto& x : s.groups[g])
                    if ((x.kind == k_prefix) == prefix)
                        if (auto o = match(x))
                            return o;
        return nullptr;
    }
    void literal(const std::string& t, Node& n)
    {
        if (in.compare(p, t.size(), t) != 0)
        {
            errs.push_back({"expected literal " + t + " at 0", p, p});
            throw Fail{};
        }
        p += t.size();
        n.tree += t + " ";
        skip();
    }
    // values of the operator, each with a space before and after as needed
    Node consume(const Op& o, std::size_t level, bool counted)
    {
        auto b = p;
        if (level >= s.chain.size())
            used_group = true;
        if (counted && nops++ >= s.max)
        {
            errs.push_back({"maximum operator nesting level exceeded", b, b + o.text.size()});
            throw Fail{};
        }
        Node r;
        r.val = o.tag == t_void ? "" : o.tag == t_unique ? "op " : o.tag == t_value ? "#" + std::to_string(o.id) + " " : "@" + std::to_string(o.id) + ":" + std::to_string(b) + " ";
        r.tree = in.substr(p, o.text.size()) + " ";
        p += o.text.size();
        skip();
        if (!o.close.empty())
        {
            auto n = nested();
            r.val += n.val + " ";
            r.tree += n.tree;
            literal(o.close, r);
        }
        return r;
    }
    Node nested()
    {
        auto saved = std::tie(nops, any_atom, used_group, levels, group);
        auto copy  = std::make_tuple(nops, any_atom, used_group, levels, group);
        Node n;
        try
        {
            n = expression(0, "E");
        }
        catch (Fail&)
        {
            saved = copy;
            throw;
        }
        saved = copy;
        return n;
    }
    Node atom()
    {
        Node n;
        if (p < in.size() && in[p] == '(')
        {
            literal("(", n);
            auto x = nested();
            n.val  = "(" + x.val + ")";
            n.tree += x.tree;
            literal(")", n);
        }
        else
        {
            auto b = p;
            while (p < in.size() && in[p] >= '0' && in[p] <= '9')
                ++p;
            if (b == p)
            {
                if (used_group && foreign(true))
                    throw Mixed{false};
                errs.push_back({"expected class digit.decimal", p, p});
                throw Fail{};
            }
            n.val  = std::to_string(std::stoi(in.substr(b, p - b)));
            n.tree = in.substr(b, p - b) + " ";
            skip();
        }
        any_atom = true;
        return n;
    }
    Node make(const Operation& x, const std::string& vals, const std::string& tree)
    {
        auto v = vals;
        while (!v.empty() && v.back() == ' ')
            v.pop_back();
        return {"(" + v + ")", x.name + "{" + tree + "}"};
    }
    Node parse(std::size_t k)
    {
        if (k == levels.size())
            return atom();
        auto& x = *levels[k];
        if (x.kind == k_prefix)
        {
            auto o = match(x);
            if (!o)
                return parse(k + 1);
            auto a = consume(*o, k, true);
            auto r = parse(k);
            return make(x, a.val + r.val, a.tree + r.tree);
        }
        return apply(k, parse(k + 1));
    }
    // operators of level k and above after an operand
    Node after(std::size_t k, Node n)
    {
        if (k == levels.size())
            return n;
        return apply(k, after(k + 1, n));
    }
    Node apply(std::size_t k, Node n)
    {
        auto& x = *levels[k];
        if (x.kind == k_prefix)
            return n;
        if (x.kind == k_list)
        {
            auto o = match(x);
            if (!o)
                return n;
            Node r{"[," + n.val, n.tree};
            bool first = true;
            for (; o; o = match(x))
            {
                auto a = consume(*o, k, first);
                first  = false;
                if (!a.val.empty())
                {
                    a.val.pop_back();
                    r.val += "," + a.val;
                }
                auto b = parse(k + 1);
                r.val += "," + b.val;
                r.tree += a.tree + b.tree;
            }
            return {r.val + "]", x.name + "{" + r.tree + "}"};
        }
        if (x.kind == k_right)
        {
            auto o = match(x);
            if (!o)
                return n;
            auto a = consume(*o, k, true);
            auto r = parse(k);
            return make(x, n.val + " " + a.val + r.val, n.tree + a.tree + r.tree);
        }
        bool first = true;
        while (auto o = match(x))
        {
            if (x.kind == k_single && !first)
                errs.push_back({"operator cannot be chained", p, p + o->text.size()});
            first  = false;
            auto a = consume(*o, k, true);
            // an operator that binds tighter can still follow and has everything so far as its operand
            if (x.kind == k_postfix)
                n = after(k + 1, make(x, n.val + " " + a.val, n.tree + a.tree));
            else
            {
                auto r = parse(k + 1);
                n      = make(x, n.val + " " + a.val + r.val, n.tree + a.tree + r.tree);
            }
        }
        return n;
    }
    bool failed = false; // some expression failed and recovered
    Node attempt(std::size_t root, const char* name)
    {
        nops     = 0;
        any_atom = used_group = false;
        levels.clear();
        for (auto& x : s.chain)
            levels.push_back(&x);
        if (!s.groups.empty())
            for (auto& x : s.groups[group])
                levels.push_back(&x);
        Node n;
        try
        {
            n = parse(root);
        }
        catch (Fail&)
        {
            failed = true;
            if (!any_atom)
                throw;
            n = {"?", "?"};
            return n;
        }
        if (used_group)
            if (auto o = foreign(false))
            {
                if (nops >= s.max)
                    throw Mixed{false};
                errs.push_back({"operator cannot be mixed with previous operators", p, p + o->text.size()});
                throw Mixed{true};
            }
        n.tree = std::string(name) + "{" + n.tree + "}";
        return n;
    }
    Node expression(std::size_t root, const char* name)
    {
        if (++depth > (s.groups.empty() ? 300 : 8))
            throw TooDeep{};
        if (s.groups.empty())
        {
            auto n = attempt(root, name);
            --depth;
            return n;
        }
        // try the groups: at most one of them has its operators used
        auto p0 = p;
        auto e0 = errs;
        auto f0 = failed;
        auto d0 = depth;
        for (std::size_t g = 0;; ++g)
        {
            p      = p0;
            errs   = e0;
            failed = f0;
            depth  = d0;
            group  = g;
            bool last = g + 1 == s.groups.size();
            try
            {
                auto n = attempt(root, name);
                if (used_group || last)
                {
                    depth = d0 - 1;
                    return n;
                }
            }
            catch (Fail&)
            {
                if (used_group || last)
                {
                    depth = d0 - 1;
                    throw;
                }
            }
            // what a nested expression found out cannot depend on the attempt
        }
    }
};
static std::string gen_expr(const Spec& s, vh::Rng& rng, int budget)
{
    std::string r;
    auto        sp = [&] {
        if (rng.chance(1, s.ws ? 3 : 60))
            r += rng.chance(1, 2) ? " " : "\t";
    };
    std::vector<const Operation*> pre, post;
    auto                          add = [&](const Operation& x) { (x.kind == k_prefix ? pre : post).push_back(&x); };
    for (auto& x : s.chain)
        add(x);
    std::size_t g = s.groups.empty() ? 0 : rng.below(s.groups.size());
    for (std::size_t i = 0; i < s.groups.size(); ++i)
        if (i == g || rng.chance(1, 8))
            for (auto& x : s.groups[i])
                add(x);
    // often a few operators only, so that chains are frequent
    while (post.size() > 1 && rng.chance(1, 3))
        post.erase(post.begin() + long(rng.below(post.size())));
    auto put = [&](const Operation& x) {
        auto& o = x.ops[rng.below(x.ops.size())];
        auto  t = o.text;
        if (o.fold)
            for (auto& c : t)
                if (rng.chance(1, 2))
                    c = char(c - 32);
        r += t;
        sp();
        if (!o.close.empty())
        {
            r += gen_expr(s, rng, budget / 3);
            if (!rng.chance(1, 30))
                r += o.close;
            sp();
        }
    };
    sp();
    while (true)
    {
        while (!pre.empty() && rng.chance(1, 3))
            put(*pre[rng.below(pre.size())]);
        if (budget > 3 && rng.chance(1, 6))
        {
            r += "(";
            r += gen_expr(s, rng, budget / 3);
            if (!rng.chance(1, 30))
                r += ")";
        }
        else if (!rng.chance(1, 40))
            r += std::to_string(rng.below(rng.chance(1, 8) ? 1000 : 10));
        sp();
        bool infix = false;
        while (!post.empty() && budget-- > 0 && rng.chance(9, 10))
        {
            auto& x = *post[rng.below(post.size())];
            put(x);
            if (x.kind != k_postfix)
            {
                infix = true;
                break;
            }
        }
        if (!infix)
            break;
    }
    if (rng.chance(1, 40))
        r += "+-*=<!)( x"[rng.below(10)];
    return r;
}
static void check(const Entry& e, vh::Rng& rng)
{
    auto& s = e.spec;
    auto  t = gen_expr(s, rng, rng.chance(1, 300) ? 300 : rng.range(0, 12));
    if (rng.chance(1, 30) && !t.empty())
        t.erase(rng.below(t.size()), 1);
    if (rng.chance(1, 20))
    {
        // a long chain of one operation, around the nesting limit
        auto& x = s.chain.empty() ? s.groups[0][0] : s.chain[rng.below(s.chain.size())];
        auto& o = x.ops[rng.below(x.ops.size())];
        auto  n = s.max + rng.below(3) - (rng.chance(1, 4) ? 1 : 0);
        auto  u = o.text + (o.close.empty() ? "" : "1" + o.close);
        t       = x.kind == k_prefix ? "" : "1";
        for (std::size_t i = 0; i < n; ++i)
            t += u + (x.kind == k_postfix || x.kind == k_prefix ? "" : "2");
        if (x.kind == k_prefix)
            t += "3";
    }
    bool sub = rng.chance(1, 4) && s.root < s.chain.size(), buf = rng.chance(1, 2);
    vh::begin_case(std::string(e.name) + (sub ? " subexpression" : "") + (s.ws ? " with whitespace" : "") + " max " + std::to_string(s.max) + " on " + vh::esc(t));
    Model m{s, t};
    m.skip();
    Out  w;
    Node n;
    bool mixed = false, exact = true;
    try
    {
        n        = m.expression(sub ? s.root : 0, sub ? "S" : "E");
        w.status = m.errs.empty() ? obs::success : obs::recovered;
        w.value  = n.val + " end " + std::to_string(m.p);
    }
    catch (Fail&)
    {
        w.status = obs::fatal;
    }
    catch (TooDeep&)
    {
        return;
    }
    catch (Mixed& x)
    {
        mixed = true;
        exact = x.exact;
    }
    w.errs   = m.errs;
    auto got = e.run(sub, buf, t);
    bool ok;
    if (mixed)
    {
        // errors so far, and then one at this place
        ok = got.out.errs.size() > w.errs.size() - (exact ? 1 : 0);
        for (std::size_t i = 0; ok && i < w.errs.size(); ++i)
            ok = got.out.errs[i] == w.errs[i];
        if (ok && !exact)
            ok = got.out.errs[w.errs.size()].b == m.p;
        vh::count("mixed_groups");
    }
    else
    {
        ok = w.status == got.out.status && w.errs == got.out.errs && (w.status == obs::fatal || m.failed || w.value == got.out.value);
        if (ok && w.status != obs::fatal && m.failed)
        {
            auto end = " end " + std::to_string(m.p);
            ok       = got.out.value.size() > end.size() && got.out.value.compare(got.out.value.size() - end.size(), end.size(), end) == 0;
        }
    }
    if (!ok)
        vh::violation("expression", "got " + got.out.str() + ", expected " + (mixed ? "errors up to position " + std::to_string(m.p) + " of " : "") + w.str());
    else if (!mixed && !m.failed && w.status != obs::fatal)
    {
        auto tree = std::string(s.ws ? "" : "") + n.tree;
        auto open = got.tree.find('{');
        if (got.tree.substr(open + 1, got.tree.size() - open - 2) != tree)
            vh::violation("expression-tree", "got " + got.tree + ", expected " + tree);
        vh::count("trees_compared");
    }
    vh::count(mixed ? "status_mixed" : w.status == obs::success ? "expressions" : w.status == obs::recovered ? "recovered" : "fatal");
    for (auto& x : w.errs)
        vh::count(x.kind.rfind("operator cannot be chained", 0) == 0 ? "chain_errors" : x.kind.rfind("maximum", 0) == 0 ? "nesting_errors" : "other_errors");
    if (m.nops > 1)
        vh::observe(std::string(e.name) + (sub ? "!" : "") + t);
}
int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        vh::Rng rng(vh::opt.seed * 64 + std::uint64_t(vh::opt.shard));
        auto&   reg = registry();
        auto    n   = vh::cases(200000, 8000000);
        for (std::uint64_t i = 0; i < n && !vh::too_many_violations(); ++i)
            check(reg[i % reg.size()], rng);
    });
}
