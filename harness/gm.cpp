#include "gm.hpp"
#include <cctype>
#include <stdexcept>

namespace gm
{
//=== reading the textual form ===//
namespace
{
    struct Rd
    {
        const char* p;
        void        ws()
        {
            while (*p == ' ' || *p == '\n')
                ++p;
        }
        std::string atom()
        {
            ws();
            std::string r;
            if (*p == '"')
            {
                ++p;
                while (*p != '"')
                {
                    if (*p == '\\')
                    {
                        ++p;
                        if (*p == 'x')
                        {
                            r += char(std::stoi(std::string(p + 1, p + 3), nullptr, 16));
                            p += 3;
                            continue;
                        }
                        r += *p == 'n' ? '\n' : *p == 'r' ? '\r' : *p == 't' ? '\t' : *p;
                        ++p;
                        continue;
                    }
                    r += *p++;
                }
                ++p;
                return r;
            }
            while (*p && *p != ' ' && *p != '\n' && *p != '(' && *p != ')')
                r += *p++;
            return r;
        }
        std::unique_ptr<N> node()
        {
            ws();
            if (*p != '(')
                throw std::runtime_error(std::string("gm: expected ( at ") + std::string(p).substr(0, 40));
            ++p;
            auto n = std::make_unique<N>();
            n->op  = atom();
            while (true)
            {
                ws();
                if (*p == ')')
                {
                    ++p;
                    return n;
                }
                if (*p == '(')
                    n->k.push_back(node());
                else
                    n->s.push_back(atom());
            }
        }
    };
} // namespace

const Production& Grammar::get(const std::string& name) const
{
    for (auto& p : prods)
        if (p.name == name)
            return p;
    throw std::runtime_error("gm: no production " + name);
}

Grammar parse_grammar(const char* text)
{
    Rd      r{text};
    Grammar g;
    auto    root = r.node();
    g.alphabet   = root->s.at(0);
    for (auto& pn : root->k)
    {
        Production p;
        p.name = pn->s.at(0);
        for (std::size_t i = 1; i < pn->s.size(); ++i)
        {
            auto& a = pn->s[i];
            if (a == "token")
                p.token = true;
            else if (a == "transparent")
                p.transparent = true;
            else if (a == "void")
                p.is_void = true;
            else if (a.compare(0, 6, "depth=") == 0)
                p.max_depth = std::stoi(a.substr(6));
        }
        p.rule = std::move(pn->k.at(0));
        if (pn->k.size() > 1)
            p.ws = std::move(pn->k.at(1));
        g.prods.push_back(std::move(p));
    }
    return g;
}

std::string tree_string(const TreeNode& n, const std::string& in)
{
    if (!n.prod)
        return n.kind + "[" + std::to_string(n.begin) + "-" + std::to_string(n.end) + " "
               + vh::esc(in.substr(n.begin, n.end - n.begin)) + "]";
    std::string r = n.kind + "{";
    for (auto& c : n.children)
        r += tree_string(c, in) + " ";
    return r + "}";
}

//=== interpreter ===//
namespace
{
    enum St
    {
        OK,
        FAIL,
        BRK,
        RET
    };
    using Vals = std::vector<std::string>;
    struct StepLimit
    {};

    struct Interp
    {
        const Grammar&     g;
        const std::string& in;
        Obs&               out;
        bool               silent = false; // match mode (no events)
        bool               failed = false; // an error was reported (match mode)
        std::size_t        pos    = 0;
        const N*           ws     = nullptr;
        bool               ws_on  = true;
        int                depth = 0, max_depth = 1024;
        struct PF
        {
            std::string name;
            std::size_t begin;
        };
        std::vector<PF>       pstack;
        std::vector<TreeNode> tstack; // open productions
        struct Mark
        {
            std::size_t child_count;
        };
        struct Var
        {
            std::string id;
            int         value;
            std::string text;
        };
        std::vector<Var> vars;

        Interp(const Grammar& g, const std::string& in, Obs& out) : g(g), in(in), out(out) {}

        void step()
        {
            if (++out.steps > 300000)
                throw StepLimit{};
        }

        //--- events
        void token(const char* kind, std::size_t b, std::size_t e)
        {
            if (silent)
                return;
            std::string k = kind;
            out.trace.push_back("token " + k + " " + std::to_string(b) + "-" + std::to_string(e));
            bool ignore = k == "token" || k == "error token" || k == "whitespace";
            if (ignore && b == e)
                return;
            auto& top = tstack.back();
            if (k == "error token" && !top.children.empty() && !top.children.back().prod
                && top.children.back().kind == "error token")
            {
                top.children.back().end = e;
                return;
            }
            TreeNode n;
            n.kind = k, n.begin = b, n.end = e;
            top.children.push_back(n);
        }
        void error(const std::string& what, std::size_t b, std::size_t e)
        {
            failed = true;
            if (silent)
                return;
            // transparent productions are reported as their next non-transparent parent
            auto top = pstack.size() - 1;
            while (top > 0 && g.get(pstack[top].name).transparent)
                --top;
            std::string s = what + "@" + std::to_string(b) + "-" + std::to_string(e) + " in "
                            + pstack[top].name + "@" + std::to_string(pstack.back().begin);
            out.errors.push_back(s);
            out.trace.push_back("error " + what + " " + std::to_string(b) + "-" + std::to_string(e));
        }
        void ev(const char* what, std::size_t p)
        {
            if (!silent)
                out.trace.push_back(std::string(what) + " " + std::to_string(p));
        }

        //--- token matching: returns success, sets end (also on failure: partial end)
        static bool in_class(const std::string& cls, unsigned char c)
        {
            if (c >= 0x80)
                return false;
            if (cls == "digit")
                return c >= '0' && c <= '9';
            if (cls == "lower")
                return c >= 'a' && c <= 'z';
            if (cls == "upper")
                return c >= 'A' && c <= 'Z';
            if (cls == "alpha")
                return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
            if (cls == "alnum")
                return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9');
            if (cls == "space")
                return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f';
            if (cls == "blank")
                return c == ' ' || c == '\t';
            if (cls == "punct")
                return c < 0x7f && c > 0x20 && !std::isalnum(c);
            if (cls == "vowel")
                return c == 'a' || c == 'e' || c == 'i' || c == 'o' || c == 'u';
            throw std::runtime_error("gm: class " + cls);
        }
        bool at(std::size_t p, const std::string& s) const
        {
            return in.compare(p, s.size(), s) == 0;
        }
        static char lower(char c)
        {
            return c >= 'A' && c <= 'Z' ? char(c + 32) : c;
        }

        bool tokm(const N* n, std::size_t p, std::size_t& end)
        {
            step();
            auto& op = n->op;
            if (op == "lit" || op == "litcf")
            {
                auto&       s = n->s[0];
                std::size_t i = 0;
                while (i < s.size() && p + i < in.size()
                       && (op == "lit" ? in[p + i] == s[i] : lower(in[p + i]) == s[i]))
                    ++i;
                end = p + i;
                return i == s.size();
            }
            if (op == "cc")
            {
                end = p;
                if (p < in.size() && in_class(n->s[0], static_cast<unsigned char>(in[p])))
                {
                    end = p + 1;
                    return true;
                }
                return false;
            }
            if (op == "ccnot") // any single character except those of a class (ASCII input)
            {
                end = p;
                if (p < in.size() && static_cast<unsigned char>(in[p]) < 0x80
                    && !in_class(n->s[0], static_cast<unsigned char>(in[p])))
                {
                    end = p + 1;
                    return true;
                }
                return false;
            }
            if (op == "lset" || op == "nl")
            {
                static const std::vector<std::string> nls = {"\n", "\r\n"};
                const auto&                           set = op == "nl" ? nls : n->s;
                std::size_t                           best = 0;
                bool                                  found = false;
                for (auto& s : set)
                    if (at(p, s) && (!found || s.size() > best))
                        found = true, best = s.size();
                end = p + (found ? best : 0);
                return found;
            }
            if (op == "kw") // s[0]: keyword; identifier alpha (alnum)*
            {
                end = p;
                if (!at(p, n->s[0]))
                    return false;
                end = p + n->s[0].size();
                return !(end < in.size() && in_class("alnum", static_cast<unsigned char>(in[end])));
            }
            if (op == "nf") // not_followed_by(lit, class)
            {
                end = p;
                if (!at(p, n->s[0]))
                    return false;
                end = p + n->s[0].size();
                return !(end < in.size() && in_class(n->s[1], static_cast<unsigned char>(in[end])));
            }
            if (op == "idpat")
            {
                end = p;
                if (!(p < in.size() && in_class("alpha", static_cast<unsigned char>(in[p]))))
                    return false;
                ++p;
                while (p < in.size() && in_class("alnum", static_cast<unsigned char>(in[p])))
                    ++p;
                end = p;
                return true;
            }
            if (op == "digits")
            {
                auto b = p;
                while (p < in.size() && in_class("digit", static_cast<unsigned char>(in[p])))
                    ++p;
                end = p;
                return p > b;
            }
            if (op == "digit1")
            {
                end = p;
                if (p < in.size() && in_class("digit", static_cast<unsigned char>(in[p])))
                {
                    ++end;
                    return true;
                }
                return false;
            }
            if (op == "any")
            {
                end = in.size();
                return true;
            }
            if (op == "until" || op == "untileof")
            {
                while (true)
                {
                    std::size_t e;
                    if (op == "untileof" && p >= in.size())
                    {
                        end = p;
                        return true;
                    }
                    if (tokm(n->k[0].get(), p, e))
                    {
                        end = e;
                        return true;
                    }
                    if (p >= in.size())
                    {
                        end = p;
                        return false;
                    }
                    ++p;
                }
            }
            if (op == "toke" || op == "tokk") // error tag / kind override
                return tokm(n->k[0].get(), p, end);
            if (op == "tok") // token(rule)
                return match_rule(n->k[0].get(), p, end);
            throw std::runtime_error("gm: not a token: " + op);
        }
        bool is_tok(const N* n) const
        {
            static const char* ops[] = {"lit", "litcf", "cc",  "ccnot", "lset",  "nl",     "kw",       "nf",
                                        "idpat", "digits", "digit1", "any", "until", "untileof", "toke", "tokk", "tok"};
            for (auto o : ops)
                if (n->op == o)
                    return true;
            return false;
        }
        // silently matches a rule (token(rule), peek): no whitespace, no events
        bool match_rule(const N* n, std::size_t p, std::size_t& end)
        {
            if (is_tok(n))
                return tokm(n, p, end);
            Obs    dummy;
            Interp sub(g, in, dummy);
            sub.silent     = true;
            sub.pos        = p;
            dummy.steps    = out.steps;
            sub.max_depth  = 0;
            Vals vals;
            auto st   = sub.parse(n, vals);
            out.steps = dummy.steps;
            end       = sub.pos;
            return st != FAIL && !sub.failed;
        }
        const char* tok_kind(const N* n)
        {
            auto& op = n->op;
            if (op == "lit" || op == "litcf" || op == "lset" || op == "nl" || op == "kw" || op == "nf")
                return "literal";
            if (op == "idpat")
                return "identifier";
            if (op == "digits" || op == "digit1")
                return "digits";
            if (op == "any" || op == "until" || op == "untileof")
                return "any";
            if (op == "toke")
                return tok_kind(n->k[0].get());
            return "token";
        }
        void tok_error(const N* n, std::size_t p, std::size_t end)
        {
            auto& op = n->op;
            if (op == "lit" || op == "litcf")
                error("lit:" + vh::esc(n->s[0]) + ":" + std::to_string(end - p), p, p);
            else if (op == "cc")
                error("cc:" + n->s[1], p, p);
            else if (op == "ccnot")
                error("cc:" + n->s[1], p, p);
            else if (op == "lset")
                error("expected literal set", p, p);
            else if (op == "nl")
                error("expected newline", p, end);
            else if (op == "kw")
            {
                std::size_t e;
                N           id;
                id.op = "idpat";
                tokm(&id, p, e);
                error("kw:" + n->s[0], p, e);
            }
            else if (op == "nf")
            {
                if (at(p, n->s[0]))
                    error("follow restriction", end, end);
                else
                {
                    std::size_t i = 0;
                    while (i < n->s[0].size() && p + i < in.size() && in[p + i] == n->s[0][i])
                        ++i;
                    error("lit:" + vh::esc(n->s[0]) + ":" + std::to_string(i), p, p);
                }
            }
            else if (op == "idpat")
                error("cc:ASCII.alpha", p, p);
            else if (op == "digits" || op == "digit1")
                error("cc:digit.decimal", p, p);
            else if (op == "until")
            {
                std::size_t e;
                tokm(n->k[0].get(), end, e);
                tok_error(n->k[0].get(), end, e);
            }
            else if (op == "toke")
                error(n->s[0], p, end);
            else if (op == "tokk")
                tok_error(n->k[0].get(), p, end);
            else if (op == "tok")
                error("missing token", p, end);
            else
                throw std::runtime_error("gm: tok_error " + op);
        }
        // token_parse: consumes the token without skipping whitespace
        bool tok_parse(const N* n)
        {
            std::size_t end, b = pos;
            if (!tokm(n, pos, end))
            {
                token("error token", b, end);
                tok_error(n, b, end);
                pos = end;
                return false;
            }
            token(tok_kind(n), b, end);
            pos = end;
            return true;
        }

        //--- whitespace
        bool skip_ws_rule(const N* w)
        {
            auto b = pos;
            if (is_tok(w))
            {
                std::size_t e;
                while (tokm(w, pos, e))
                    pos = e;
                token("whitespace", b, pos);
                return true;
            }
            // A choice of branches, parsed as often as possible; errors are forwarded.
            auto        old_ws = ws;
            auto        old_on = ws_on;
            bool        ok     = true;
            auto        real   = silent;
            ws                 = nullptr;
            while (true)
            {
                // errors are visible, tokens are not
                if (!cond(w, pos))
                    break;
                Vals   v;
                Obs    tmp;
                Interp sub(g, in, tmp);
                sub.silent = false;
                sub.pos    = pos;
                sub.pstack = pstack;
                sub.tstack.resize(1);
                tmp.steps = out.steps;
                auto st   = sub.parse(w, v);
                out.steps = tmp.steps;
                pos       = sub.pos;
                failed |= sub.failed;
                if (!real)
                    for (auto& e : tmp.errors)
                    {
                        out.errors.push_back(e);
                        auto cut = e.substr(0, e.find(" in "));
                        auto a   = cut.rfind('@');
                        out.trace.push_back("error " + cut.substr(0, a) + " " + cut.substr(a + 1));
                    }
                if (st == FAIL)
                {
                    ok = false;
                    break;
                }
            }
            ws    = old_ws;
            ws_on = old_on;
            token(ok ? "whitespace" : "error token", b, pos);
            return ok;
        }
        bool skip_ws()
        {
            if (!ws || !ws_on)
                return true;
            return skip_ws_rule(ws);
        }

        //--- variables
        Var& var(const std::string& id)
        {
            for (auto i = vars.size(); i-- > 0;)
                if (vars[i].id == id)
                    return vars[i];
            throw std::runtime_error("gm: variable " + id);
        }

        //--- branch conditions (no effects)
        bool cond(const N* n, std::size_t p)
        {
            step();
            auto& op = n->op;
            if (is_tok(n))
            {
                std::size_t e;
                return tokm(n, p, e);
            }
            if (op == "cap")
            {
                std::size_t e;
                return tokm(n->k[0].get(), p, e);
            }
            if (op == "br" || op == "bseq" || op == "posr" || op == "list" || op == "try" || op == "nows" || op == "must"
                || op == "pas" || op == "push" || op == "pop" || op == "term" || op == "brackets" || op == "whileone"
                || op == "dowhile" || op == "capp" || op == "mem")
                return cond(n->k[0].get(), p);
            if (op == "repeat" || op == "int1")
            {
                std::size_t e;
                N           d;
                d.op = "digit1";
                return tokm(&d, p, e);
            }
            if (op == "choice")
            {
                for (auto& c : n->k)
                    if (cond(c.get(), p))
                        return true;
                return false;
            }
            if (op == "else" || op == "break" || op == "error")
                return true;
            if (op == "ident")
            {
                std::size_t e;
                N           id;
                id.op = "idpat";
                if (!tokm(&id, p, e))
                    return false;
                return !reserved(n, in.substr(p, e - p));
            }
            if (op == "eof")
                return p >= in.size();
            if (op == "eol")
            {
                std::size_t e;
                N           nl;
                nl.op = "nl";
                return p >= in.size() || tokm(&nl, p, e);
            }
            if (op == "peek" || op == "peeknot")
            {
                std::size_t e;
                auto        r = match_rule(n->k[0].get(), p, e);
                return op == "peek" ? r : !r;
            }
            if (op == "look")
            {
                std::size_t e;
                return look(n, p, e);
            }
            if (op == "p" || op == "recb" || op == "inline")
                return cond(g.get(n->s[0]).rule.get(), p);
            if (op == "cis")
                return var(n->s[0]).value == std::stoi(n->s[1]);
            if (op == "ceq")
            {
                for (auto& id : n->s)
                    if (var(id).value != var(n->s[0]).value)
                        return false;
                return true;
            }
            if (op == "icap")
            {
                N id;
                id.op = "ident";
                return cond(&id, p);
            }
            if (op == "irem")
            {
                std::size_t e;
                N           id;
                id.op = "idpat";
                return tokm(&id, p, e) && in.substr(p, e - p) == var(n->s[0]).text;
            }
            if (op == "sym")
            {
                std::size_t e;
                N           l;
                l.op = "lset", l.s = n->s;
                return tokm(&l, p, e);
            }
            throw std::runtime_error("gm: cond " + op);
        }
        // lookahead(needle, end): longest match at each position decides
        bool look(const N* n, std::size_t p, std::size_t& e)
        {
            std::size_t na = n->k[0]->s.size();
            (void)na;
            while (true)
            {
                step();
                std::size_t e1 = p, e2 = p;
                bool        a = tokm_set(n->k[0].get(), p, e1), b = tokm_set(n->k[1].get(), p, e2);
                if (a && (!b || e1 > e2))
                {
                    e = e1;
                    return true;
                }
                if (b)
                {
                    e = e2;
                    return false;
                }
                if (p >= in.size())
                {
                    e = p;
                    return false;
                }
                ++p;
            }
        }
        bool tokm_set(const N* n, std::size_t p, std::size_t& e)
        {
            return tokm(n, p, e);
        }
        bool reserved(const N* n, const std::string& id)
        {
            for (auto& r : n->s)
                if (r == id)
                    return true;
            return false;
        }

        //--- productions
        St parse_prod(const Production& pr, Vals& vals, bool final_ws = true)
        {
            step();
            auto old_ws = ws;
            auto begin  = pos;
            if (!silent)
            {
                out.trace.push_back("start " + pr.name + " " + std::to_string(begin));
                pstack.push_back({pr.name, begin});
                if (!pr.transparent)
                {
                    TreeNode t;
                    t.kind = pr.name, t.prod = true, t.begin = begin;
                    tstack.push_back(t);
                }
            }
            // For cancelling transparent productions.
            TreeNode backup;
            if (!silent && pr.transparent)
                backup = tstack.back();

            if (pr.ws)
                ws = pr.ws.get();
            else if (pr.token)
                ws = nullptr;
            auto nvars = vars.size();
            St   st    = OK;
            if (pr.ws && !skip_ws())
                st = FAIL;
            Vals sub;
            if (st == OK)
                st = parse(pr.rule.get(), sub);
            if (st == RET)
                st = OK;
            vars.resize(nvars);
            ws = old_ws;
            if (st == OK)
            {
                if (!pr.is_void)
                {
                    std::string v = pr.name + "(";
                    for (std::size_t i = 0; i < sub.size(); ++i)
                        v += (i ? "," : "") + sub[i];
                    v += ")";
                    if (!silent)
                        out.log.push_back(v);
                    vals.push_back(v);
                }
                if (!silent)
                {
                    // position token for empty productions
                    if (tstack.back().children.empty())
                    {
                        TreeNode t;
                        t.kind = "position", t.begin = t.end = begin;
                        tstack.back().children.push_back(t);
                    }
                    if (!pr.transparent)
                    {
                        auto t = std::move(tstack.back());
                        tstack.pop_back();
                        tstack.back().children.push_back(std::move(t));
                    }
                    pstack.pop_back();
                    out.trace.push_back("finish " + pr.name + " " + std::to_string(pos));
                }
                if (pr.token && final_ws && !skip_ws())
                    return FAIL;
                return OK;
            }
            if (!silent)
            {
                out.trace.push_back("cancel " + pr.name + " " + std::to_string(pos));
                if (!pr.transparent)
                    tstack.pop_back();
                else
                    tstack.back() = std::move(backup);
                pstack.pop_back();
                auto& top = tstack.back();
                if (pos != begin)
                {
                    if (!top.children.empty() && !top.children.back().prod
                        && top.children.back().kind == "error token")
                        top.children.back().end = pos;
                    else
                    {
                        TreeNode t;
                        t.kind = "error token", t.begin = begin, t.end = pos;
                        top.children.push_back(t);
                    }
                }
            }
            return FAIL;
        }
        // Events of a production used as branch that is not taken.
        void cancel(const N* n)
        {
            (void)n;
        }

        std::string lexeme(std::size_t b, std::size_t e)
        {
            return "'" + vh::esc(in.substr(b, e - b)) + "'@" + std::to_string(b);
        }
        static std::string sink_add(const Vals& v)
        {
            if (v.empty())
                return "";
            std::string r = "<";
            for (std::size_t i = 0; i < v.size(); ++i)
                r += (i ? "," : "") + v[i];
            return r + ">";
        }

        St seq(const N* n, std::size_t from, Vals& vals)
        {
            for (std::size_t i = from; i < n->k.size(); ++i)
            {
                auto st = parse(n->k[i].get(), vals);
                if (st != OK)
                    return st;
            }
            return OK;
        }
        // list item / separator into the sink
        St into_sink(const N* n, std::string& sink)
        {
            Vals v;
            auto st = parse(n, v);
            if (st == OK)
                sink += sink_add(v);
            return st;
        }

        // limit: node "lset" with literals, possibly empty
        bool at_limit(const N* lim, std::size_t p)
        {
            std::size_t e;
            if (lim->s.empty())
                return false;
            return tokm(lim, p, e);
        }

        void trailing_error(const N* sep, std::size_t b, std::size_t e)
        {
            if (sep->s[0] == "sep")
                error(sep->s.size() > 1 ? sep->s[1] : "unexpected trailing separator", b, e);
        }

        // list with terminator and recovery; on OK the terminator is the next thing to parse
        St list_term(const N* term, const N* item, bool item_branch, const N* sep, const N* limit, std::string& sink)
        {
            enum S
            {
                TERM,
                SEP,
                TRAIL,
                ITEM,
                REC
            } state;
            state        = into_sink(item, sink) == OK ? TERM : REC;
            auto sep_pos = pos;
            while (true)
            {
                step();
                switch (state)
                {
                case TERM:
                    if (cond(term, pos))
                        return OK;
                    state = SEP;
                    break;
                case SEP:
                    if (!sep)
                    {
                        state = ITEM;
                        break;
                    }
                    sep_pos = pos;
                    if (into_sink(sep->k[0].get(), sink) == OK)
                        state = TRAIL;
                    else if (pos == sep_pos && item_branch && cond(item, pos))
                        state = into_sink(item, sink) == OK ? TERM : REC;
                    else
                        state = REC;
                    break;
                case TRAIL:
                    if (cond(term, pos))
                    {
                        trailing_error(sep, sep_pos, pos);
                        return OK;
                    }
                    state = ITEM;
                    break;
                case ITEM:
                    state = into_sink(item, sink) == OK ? TERM : REC;
                    break;
                case REC: {
                    auto b = pos;
                    ev("recovery_start", b);
                    while (true)
                    {
                        step();
                        if (sep)
                        {
                            sep_pos = pos;
                            if (cond(sep->k[0].get(), pos))
                            {
                                token("error token", b, pos);
                                ev("recovery_finish", pos);
                                state = into_sink(sep->k[0].get(), sink) == OK ? TRAIL : REC;
                                break;
                            }
                        }
                        else if (item_branch && cond(item, pos))
                        {
                            token("error token", b, pos);
                            ev("recovery_finish", pos);
                            state = into_sink(item, sink) == OK ? TERM : REC;
                            break;
                        }
                        if (cond(term, pos))
                        {
                            token("error token", b, pos);
                            ev("recovery_finish", pos);
                            return OK;
                        }
                        if (at_limit(limit, pos) || pos >= in.size())
                        {
                            token("error token", b, pos);
                            ev("recovery_cancel", pos);
                            return FAIL;
                        }
                        ++pos;
                    }
                    break;
                }
                }
            }
        }

        // skip until one of the branches matches, then parse it
        St recover(const std::vector<const N*>& branches, const N* limit, Vals& vals)
        {
            auto b = pos;
            ev("recovery_start", b);
            while (true)
            {
                step();
                for (auto br : branches)
                    if (cond(br, pos))
                    {
                        token("error token", b, pos);
                        ev("recovery_finish", pos);
                        return parse(br, vals);
                    }
                if (at_limit(limit, pos) || pos >= in.size())
                {
                    token("error token", b, pos);
                    ev("recovery_cancel", pos);
                    return FAIL;
                }
                ++pos;
            }
        }
        St find(const N* n, Vals&)
        {
            auto b = pos;
            ev("recovery_start", b);
            while (true)
            {
                step();
                std::size_t e1 = pos, e2 = pos;
                bool        a = tokm(n->k[0].get(), pos, e1);
                bool        l = !n->k[1]->s.empty() && tokm(n->k[1].get(), pos, e2);
                if (a && (!l || e1 > e2))
                {
                    token("error token", b, pos);
                    ev("recovery_finish", pos);
                    return OK;
                }
                if (l || pos >= in.size())
                {
                    token("error token", b, pos);
                    ev("recovery_cancel", pos);
                    return FAIL;
                }
                ++pos;
            }
        }

        // terminator forms. kind: call, try, opt, list, optlist
        // children: [0]=rule/item [1]=terminator [2]=limit lset [3]=sep (optional)
        St term_rule(const N* n, const std::string& kind, const N* rule, const N* term, const N* limit,
                     const N* sep, bool item_branch, Vals& vals)
        {
            (void)n;
            if (kind == "call")
            {
                auto st = parse(rule, vals);
                if (st != OK)
                    return st;
                return parse(term, vals);
            }
            if ((kind == "opt" || kind == "optlist") && cond(term, pos))
            {
                // the terminator produces its values after the nullopt has been... passed along
                vals.push_back("~");
                return parse(term, vals);
            }
            if (kind == "try" || kind == "opt")
            {
                auto n0    = vals.size();
                auto vars0 = vars.size();
                auto on0   = ws_on;
                auto d0    = depth;
                auto st    = parse(rule, vals);
                if (st == OK)
                    return parse(term, vals);
                if (st != FAIL)
                    return st;
                vals.resize(n0), vars.resize(vars0), ws_on = on0, depth = d0;
                return recover({term}, limit, vals);
            }
            // list, optlist
            std::string sink = "[";
            if (list_term(term, rule, item_branch, sep, limit, sink) != OK)
                return FAIL;
            vals.push_back(sink + "]");
            return parse(term, vals);
        }

        const N* parent = nullptr;
        St       parse(const N* n, Vals& vals)
        {
            auto old = parent;
            parent   = n;
            auto ec  = out.errors.size();
            auto b   = pos;
            auto st  = parse_(n, vals);
            parent   = old;
            if (!silent)
            {
                auto h = vh::hash(n->op + (n->op == "term" || n->op == "brackets" || n->op == "try" || n->op == "repeat" ? n->s[0] : ""));
                out.feat.insert(h * 31 + std::uint64_t(st) * 4 + (out.errors.size() > ec) * 2 + (pos > b));
                if (old)
                    out.feat.insert(vh::hash(old->op, h) * 31 + std::uint64_t(st));
            }
            return st;
        }
        St parse_(const N* n, Vals& vals)
        {
            step();
            auto& op = n->op;
            if (!silent)
                ++out.ops[op == "term" || op == "brackets" ? op + "." + n->s[0] : op];
            if (is_tok(n))
            {
                if (!tok_parse(n))
                    return FAIL;
                return skip_ws() ? OK : FAIL;
            }
            if (op == "cap")
            {
                auto b = pos;
                if (!tok_parse(n->k[0].get()))
                    return FAIL;
                auto e = pos;
                if (!skip_ws())
                    return FAIL;
                vals.push_back(lexeme(b, e));
                return OK;
            }
            if (op == "capp") // capture(p<token production>)
            {
                auto b = pos;
                Vals v;
                if (parse_prod(g.get(n->k[0]->s[0]), v, false) != OK)
                    return FAIL;
                vals.push_back(lexeme(b, pos));
                for (auto& x : v)
                    vals.push_back(x);
                return skip_ws() ? OK : FAIL;
            }
            if (op == "pos")
            {
                token("position", pos, pos);
                vals.push_back("@" + std::to_string(pos));
                return OK;
            }
            if (op == "posr")
            {
                token("position", pos, pos);
                vals.push_back("@" + std::to_string(pos));
                return parse(n->k[0].get(), vals);
            }
            if (op == "ident")
            {
                N id;
                id.op  = "idpat";
                auto b = pos;
                if (!tok_parse(&id))
                    return FAIL;
                auto e = pos;
                if (reserved(n, in.substr(b, e - b)))
                    error("reserved identifier", b, e);
                if (!skip_ws())
                    return FAIL;
                vals.push_back(lexeme(b, e));
                return OK;
            }
            if (op == "int1")
            {
                N d;
                d.op   = "digit1";
                auto        b = pos;
                std::size_t e;
                if (!tokm(&d, pos, e))
                {
                    tok_error(&d, pos, e);
                    return FAIL;
                }
                token("digits", b, e);
                pos = e;
                if (!skip_ws())
                    return FAIL;
                vals.push_back(std::to_string(in[b] - '0'));
                return OK;
            }
            if (op == "seq" || op == "br" || op == "bseq")
                return seq(n, 0, vals);
            if (op == "choice")
            {
                for (auto& c : n->k)
                {
                    if (cond(c.get(), pos))
                        return parse(c.get(), vals);
                    cancel(c.get());
                }
                error("exhausted choice", pos, pos);
                return FAIL;
            }
            if (op == "else")
                return OK;
            if (op == "nullopt")
            {
                vals.push_back("~");
                return OK;
            }
            if (op == "opt")
            {
                if (cond(n->k[0].get(), pos))
                    return parse(n->k[0].get(), vals);
                vals.push_back("~");
                return OK;
            }
            if (op == "if")
            {
                if (cond(n->k[0].get(), pos))
                    return parse(n->k[0].get(), vals);
                return OK;
            }
            if (op == "break")
                return BRK;
            if (op == "return")
                return RET;
            if (op == "loop")
            {
                while (true)
                {
                    Vals v;
                    auto st = parse(n->k[0].get(), v);
                    if (st == BRK)
                        return OK;
                    if (st != OK)
                        return st;
                }
            }
            if (op == "while")
            {
                while (cond(n->k[0].get(), pos))
                {
                    Vals v;
                    auto st = parse(n->k[0].get(), v);
                    if (st != OK)
                        return st;
                }
                return OK;
            }
            if (op == "whileone")
            {
                Vals v0;
                auto st = parse(n->k[0].get(), v0);
                if (st != OK)
                    return st;
                while (cond(n->k[0].get(), pos))
                {
                    Vals v;
                    st = parse(n->k[0].get(), v);
                    if (st != OK)
                        return st;
                }
                return OK;
            }
            if (op == "dowhile")
            {
                Vals v0;
                auto st = parse(n->k[0].get(), v0);
                if (st != OK)
                    return st;
                while (cond(n->k[1].get(), pos))
                {
                    Vals v;
                    st = parse(n->k[1].get(), v);
                    if (st != OK)
                        return st;
                    st = parse(n->k[0].get(), v);
                    if (st != OK)
                        return st;
                }
                return OK;
            }
            if (op == "times") // s[0]=N, k[0]=rule, k[1]=sep
            {
                int         cnt = std::stoi(n->s[0]);
                const N*    sep = n->k.size() > 1 ? n->k[1].get() : nullptr;
                for (int i = 0; i < cnt; ++i)
                {
                    auto st = parse(n->k[0].get(), vals);
                    if (st != OK)
                        return st;
                    if (sep && i + 1 < cnt)
                    {
                        st = parse(sep->k[0].get(), vals);
                        if (st != OK)
                            return st;
                    }
                }
                return sep ? trailing(sep, vals) : OK;
            }
            if (op == "repeat") // s[0]=discard|list|capture, count = int1
            {
                Vals cv;
                N    c;
                c.op    = "int1";
                auto st = parse(&c, cv);
                if (st != OK)
                    return st;
                int         cnt = std::stoi(cv[0]);
                auto        b   = pos;
                const N*    sep = n->k.size() > 1 ? n->k[1].get() : nullptr;
                std::string sink = "[";
                for (int i = 0; i < cnt; ++i)
                {
                    Vals v;
                    st = parse(n->k[0].get(), v);
                    if (st != OK)
                        return st;
                    sink += sink_add(v);
                    if (sep && i + 1 < cnt)
                    {
                        Vals v2;
                        st = parse(sep->k[0].get(), v2);
                        if (st != OK)
                            return st;
                        sink += sink_add(v2);
                    }
                }
                if (sep && cnt > 0)
                {
                    Vals v;
                    st = trailing(sep, v);
                    if (st != OK)
                        return st;
                    sink += sink_add(v);
                }
                if (n->s[0] == "list")
                    vals.push_back(sink + "]");
                else if (n->s[0] == "capture")
                    vals.push_back(lexeme(b, pos));
                return OK;
            }
            if (op == "list") // s[0]=branch|rule; k[0]=item, k[1]=sep node
            {
                bool        br   = n->s[0] == "branch";
                const N*    item = n->k[0].get();
                const N*    sep  = n->k.size() > 1 ? n->k[1].get() : nullptr;
                std::string sink = "[";
                auto        st   = into_sink(item, sink);
                if (st != OK)
                    return st;
                while (true)
                {
                    auto sb = pos;
                    if (sep)
                    {
                        if (!cond(sep->k[0].get(), pos))
                            break;
                        st = into_sink(sep->k[0].get(), sink);
                        if (st != OK)
                            return st;
                    }
                    auto se = pos;
                    if (br && !cond(item, pos))
                    {
                        if (sep)
                            trailing_error(sep, sb, se);
                        break;
                    }
                    st = into_sink(item, sink);
                    if (st != OK)
                        return st;
                }
                vals.push_back(sink + "]");
                return OK;
            }
            if (op == "optlist")
            {
                if (!cond(n->k[0]->k[0].get(), pos))
                {
                    vals.push_back("~");
                    return OK;
                }
                return parse(n->k[0].get(), vals);
            }
            if (op == "term") // s: kind, branch|rule ; k: rule term limit [sep]
                return term_rule(n, n->s[0], n->k[0].get(), n->k[1].get(), n->k[2].get(),
                                 n->k.size() > 3 ? n->k[3].get() : nullptr, n->s[1] == "branch", vals);
            if (op == "brackets") // s: kind, branch|rule ; k: open rule close limit [sep]
            {
                auto st = parse(n->k[0].get(), vals);
                if (st != OK)
                    return st;
                return term_rule(n, n->s[0], n->k[1].get(), n->k[2].get(), n->k[3].get(),
                                 n->k.size() > 4 ? n->k[4].get() : nullptr, n->s[1] == "branch", vals);
            }
            if (op == "try") // s[0]: none|find|recover|rule; k[0]=rule k[1]=recovery
            {
                auto n0 = vals.size();
                auto vars0 = vars.size();
                auto on0   = ws_on;
                auto d0    = depth;
                auto st    = parse(n->k[0].get(), vals);
                if (st != FAIL)
                    return st;
                vals.resize(n0), vars.resize(vars0), ws_on = on0, depth = d0;
                auto& kind = n->s[0];
                if (kind == "find" || kind == "recover")
                    return parse(n->k[1].get(), vals);
                ev("recovery_start", pos);
                if (kind == "rule")
                {
                    st = parse(n->k[1].get(), vals);
                    if (st != OK)
                    {
                        ev("recovery_cancel", pos);
                        return st;
                    }
                }
                if (!skip_ws())
                {
                    ev("recovery_cancel", pos);
                    return FAIL;
                }
                ev("recovery_finish", pos);
                return OK;
            }
            if (op == "find")
                return find(n, vals);
            if (op == "recover") // k[0]=limit, k[1..]=branches
            {
                std::vector<const N*> brs;
                for (std::size_t i = 1; i < n->k.size(); ++i)
                    brs.push_back(n->k[i].get());
                return recover(brs, n->k[0].get(), vals);
            }
            if (op == "comb" || op == "pcomb") // s[0]=duplicate tag, s[1]=missing tag or -
            {
                auto              cnt = n->k.size();
                std::vector<bool> handled(cnt);
                std::string       sink = "[";
                for (std::size_t c = 0; c < cnt;)
                {
                    step();
                    auto        b   = pos;
                    std::size_t idx = cnt;
                    for (std::size_t i = 0; i < cnt; ++i)
                        if (cond(n->k[i].get(), pos))
                        {
                            idx = i;
                            break;
                        }
                    if (idx == cnt)
                    {
                        if (op == "pcomb")
                            break;
                        error(n->s[1] == "-" ? "exhausted choice" : n->s[1], pos, pos);
                        return FAIL;
                    }
                    Vals v;
                    auto st = parse(n->k[idx].get(), v);
                    if (st != OK)
                        return st;
                    if (handled[idx])
                        error(n->s[0], b, pos);
                    else
                    {
                        sink += sink_add(v);
                        handled[idx] = true;
                        ++c;
                    }
                }
                vals.push_back(sink + "]");
                return OK;
            }
            if (op == "flags") // s: pairs name value
            {
                int  result = 0;
                N    l;
                l.op = "lset";
                for (std::size_t i = 0; i < n->s.size(); i += 2)
                    l.s.push_back(n->s[i]);
                while (true)
                {
                    step();
                    std::size_t e, b = pos;
                    if (!tokm(&l, pos, e))
                        break;
                    token("identifier", b, e);
                    auto name = in.substr(b, e - b);
                    pos       = e;
                    if (!skip_ws())
                        return FAIL;
                    int flag = 0;
                    for (std::size_t i = 0; i < n->s.size(); i += 2)
                        if (n->s[i] == name)
                            flag = std::stoi(n->s[i + 1]);
                    if ((result & flag) == flag)
                        error("duplicate flag", b, pos);
                    result |= flag;
                }
                vals.push_back("F" + std::to_string(result));
                return OK;
            }
            if (op == "flag")
            {
                if (cond(n->k[0].get(), pos))
                {
                    vals.push_back("true");
                    return parse(n->k[0].get(), vals);
                }
                vals.push_back("false");
                return OK;
            }
            if (op == "peek")
            {
                std::size_t e;
                if (!match_rule(n->k[0].get(), pos, e))
                    error(n->s.empty() ? "peek failure" : n->s[0], pos, e);
                return OK;
            }
            if (op == "peeknot")
            {
                std::size_t e;
                if (match_rule(n->k[0].get(), pos, e))
                {
                    error(n->s.empty() ? "unexpected" : n->s[0], pos, e);
                    ev("recovery_start", pos);
                    token("error token", pos, e);
                    ev("recovery_finish", e);
                    pos = e;
                }
                return OK;
            }
            if (op == "look")
            {
                std::size_t e;
                if (!look(n, pos, e))
                    error(n->s.empty() ? "lookahead failure" : n->s[0], pos, e);
                return OK;
            }
            if (op == "error") // s[0]=tag, k[0]=rule optional
            {
                std::size_t e = pos;
                if (!n->k.empty())
                    match_rule(n->k[0].get(), pos, e);
                error(n->s[0], pos, e);
                return FAIL;
            }
            if (op == "must") // k[0]=branch k[1]=error
            {
                if (cond(n->k[0].get(), pos))
                    return parse(n->k[0].get(), vals);
                parse(n->k[1].get(), vals);
                return FAIL;
            }
            if (op == "eof")
            {
                if (pos < in.size())
                    error("expected EOF", pos, pos);
                else
                    token("EOF", pos, pos);
                return OK;
            }
            if (op == "eol")
            {
                if (pos >= in.size())
                {
                    token("EOF", pos, pos);
                    return OK;
                }
                N nl;
                nl.op = "nl";
                if (!tok_parse(&nl))
                    return FAIL;
                return skip_ws() ? OK : FAIL;
            }
            if (op == "p")
                return parse_prod(g.get(n->s[0]), vals);
            if (op == "inline")
            {
                auto st = parse(g.get(n->s[0]).rule.get(), vals);
                return st;
            }
            if (op == "rec" || op == "recb") // s[0]=production, s[1]=tag optional
            {
                if (depth >= max_depth)
                {
                    error(n->s.size() > 1 ? n->s[1] : "maximum recursion depth exceeded", pos, pos);
                    return FAIL;
                }
                auto old = depth;
                ++depth;
                auto st = parse_prod(g.get(n->s[0]), vals);
                depth   = old;
                return st;
            }
            if (op == "nows")
            {
                if (!ws)
                    return parse(n->k[0].get(), vals);
                auto old = ws_on;
                ws_on    = false;
                auto st  = parse(n->k[0].get(), vals);
                ws_on    = st == OK ? true : old;
                if (st != OK)
                    return st;
                return skip_ws() ? OK : FAIL;
            }
            if (op == "wsr") // explicit whitespace(rule)
                return skip_ws_rule(n->k[0].get()) ? OK : FAIL;
            if (op == "pas") // parse_as<std::string>: all values become one
            {
                Vals v;
                auto st = parse(n->k[0].get(), v);
                if (st != OK)
                    return st;
                std::string r = "as(";
                for (std::size_t i = 0; i < v.size(); ++i)
                    r += (i ? "," : "") + v[i];
                vals.push_back(r + ")");
                return OK;
            }
            if (op == "eff") // effect producing a value
            {
                vals.push_back("E" + n->s[0]);
                return OK;
            }
            //--- context
            if (op == "cnew" || op == "fnew")
            {
                vars.push_back({n->s[0], std::stoi(n->s[1]), ""});
                return OK;
            }
            if (op == "inew")
            {
                vars.push_back({n->s[0], 0, ""});
                return OK;
            }
            if (op == "cadd")
            {
                var(n->s[0]).value += std::stoi(n->s[1]);
                return OK;
            }
            if (op == "push" || op == "pop")
            {
                auto b  = pos;
                auto st = parse(n->k[0].get(), vals);
                if (st != OK)
                    return st;
                var(n->s[0]).value += (op == "push" ? 1 : -1) * int(pos - b);
                return OK;
            }
            if (op == "cis")
                return OK;
            if (op == "cval")
            {
                vals.push_back(std::to_string(var(n->s[0]).value));
                return OK;
            }
            if (op == "fval")
            {
                vals.push_back(var(n->s[0]).value ? "true" : "false");
                return OK;
            }
            if (op == "ceq")
            {
                bool eq = true;
                for (auto& id : n->s)
                    eq &= var(id).value == var(n->s[0]).value;
                if (!eq)
                    error("unequal counts", pos, pos);
                return OK;
            }
            if (op == "fset")
            {
                var(n->s[0]).value = std::stoi(n->s[1]);
                return OK;
            }
            if (op == "ftog")
            {
                var(n->s[0]).value = !var(n->s[0]).value;
                return OK;
            }
            if (op == "icap")
            {
                N id;
                id.op = "ident";
                auto b  = pos;
                auto st = parse(&id, vals);
                if (st != OK)
                    return st;
                N           pat;
                std::size_t e;
                pat.op = "idpat";
                tokm(&pat, b, e);
                var(n->s[0]).text = in.substr(b, e - b);
                return OK;
            }
            if (op == "irem")
            {
                N id;
                id.op  = "idpat";
                auto b = pos;
                if (!tok_parse(&id))
                    return FAIL;
                auto e = pos;
                if (!skip_ws())
                    return FAIL;
                if (in.substr(b, e - b) != var(n->s[0]).text)
                    error("different identifier", b, e);
                return OK;
            }
            throw std::runtime_error("gm: parse " + op);
        }
        // trailing rule of a separator in times/repeat
        St trailing(const N* sep, Vals& vals)
        {
            auto& kind = sep->s[0];
            if (kind == "isep")
                return OK;
            if (!cond(sep->k[0].get(), pos))
                return OK;
            auto b  = pos;
            auto st = parse(sep->k[0].get(), vals);
            if (st != OK)
                return st;
            if (kind == "sep")
                error(sep->s.size() > 1 ? sep->s[1] : "unexpected trailing separator", b, pos);
            return OK;
        }
    };

    std::size_t flatten(const TreeNode& n, const std::string& in, std::string& text, std::size_t& toks, std::size_t& prods)
    {
        if (!n.prod)
        {
            ++toks;
            text += in.substr(n.begin, n.end - n.begin);
            return 0;
        }
        ++prods;
        for (auto& c : n.children)
            flatten(c, in, text, toks, prods);
        return 0;
    }
} // namespace

bool run_model(const Grammar& g, const std::string& input, Obs& out)
{
    Interp i(g, input, out);
    auto&  root = g.prods[0];
    i.max_depth = root.max_depth ? root.max_depth : 1024;
    TreeNode super;
    super.prod = true;
    i.tstack.push_back(super);
    try
    {
        // The root production is parsed like any other, except that whitespace is skipped by it.
        Vals vals;
        auto& pr   = root;
        i.pstack.push_back({pr.name, 0});
        out.trace.push_back("start " + pr.name + " 0");
        TreeNode t;
        t.kind = pr.name, t.prod = true;
        i.tstack.push_back(t);
        if (pr.ws)
            i.ws = pr.ws.get();
        Vals sub;
        St   st = OK;
        if (!i.skip_ws())
            st = FAIL;
        if (st == OK)
            st = i.parse(pr.rule.get(), sub);
        if (st == RET)
            st = OK;
        out.trace.push_back((st == OK ? "finish " : "cancel ") + pr.name + " " + std::to_string(i.pos));
        if (st == OK)
        {
            std::string v = pr.name + "(";
            for (std::size_t k = 0; k < sub.size(); ++k)
                v += (k ? "," : "") + sub[k];
            v += ")";
            out.log.push_back(v);
            out.has_value = true;
            out.value     = v;
            out.status    = out.errors.empty() ? 0 : 1;
            out.has_tree  = true;
            out.tree      = tree_string(i.tstack.back(), input);
            out.consumed  = i.pos;
            std::string text;
            flatten(i.tstack.back(), input, text, out.token_count, out.prod_count);
            out.lossless = text + input.substr(i.pos);
        }
        else
        {
            out.status = 2;
        }
        return true;
    }
    catch (StepLimit)
    {
        return false;
    }
}

//=== derivation ===//
namespace
{
    struct Deriver
    {
        const Grammar& g;
        vh::Rng&       rng;
        int            budget;
        const N*       ws = nullptr;
        std::string    out;
        std::map<std::string, std::string> ids;
        std::map<std::string, int>         ctrs;

        void put(const std::string& s)
        {
            out += s;
        }
        void maybe_ws()
        {
            if (ws && rng.chance(2, 5))
                der_ws(ws);
        }
        void der_ws(const N* w)
        {
            int n = rng.range(1, 3);
            if (rng.chance(1, 20))
                n = rng.range(8, 24);
            for (int i = 0; i < n; ++i)
            {
                auto old = ws;
                ws       = nullptr;
                der(w);
                ws = old;
            }
        }
        char cls(const std::string& c)
        {
            static const char* lower = "abcdefghijklmnopqrstuvwxyz";
            if (c == "digit")
                return char('0' + rng.below(10));
            if (c == "lower")
                return lower[rng.below(26)];
            if (c == "upper")
                return char(lower[rng.below(26)] - 32);
            if (c == "alpha")
                return rng.chance(1, 2) ? cls("lower") : cls("upper");
            if (c == "alnum")
                return rng.chance(1, 3) ? cls("digit") : cls("alpha");
            if (c == "space")
                return " \t\n\r\v\f"[rng.below(6)];
            if (c == "blank")
                return " \t"[rng.below(2)];
            if (c == "punct")
                return "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"[rng.below(32)];
            if (c == "vowel")
                return "aeiou"[rng.below(5)];
            return '?';
        }
        // length of a random run
        int run()
        {
            if (rng.chance(1, 8))
                return rng.range(7, 20);
            return rng.range(1, 3);
        }
        void der(const N* n)
        {
            --budget;
            auto& op = n->op;
            if (op == "lit" || op == "nf" || op == "kw")
            {
                put(n->s[0]);
                maybe_ws();
            }
            else if (op == "litcf")
            {
                auto s = n->s[0];
                for (auto& c : s)
                    if (rng.chance(1, 2))
                        c = char(std::toupper(c));
                put(s);
                maybe_ws();
            }
            else if (op == "cc")
            {
                put(std::string(1, cls(n->s[0])));
                maybe_ws();
            }
            else if (op == "ccnot")
            {
                put(std::string(1, g.alphabet[rng.below(g.alphabet.size())]));
                maybe_ws();
            }
            else if (op == "lset")
            {
                if (!n->s.empty())
                    put(n->s[rng.below(n->s.size())]);
                maybe_ws();
            }
            else if (op == "nl" || op == "eol")
            {
                put(rng.chance(1, 2) ? "\n" : "\r\n");
                maybe_ws();
            }
            else if (op == "idpat" || op == "ident" || op == "icap")
            {
                std::string s(1, cls("alpha"));
                for (int i = run(); i > 1; --i)
                    s += cls("alnum");
                if (op == "ident" && !n->s.empty() && rng.chance(1, 8))
                    s = n->s[rng.below(n->s.size())];
                if (op == "icap")
                    ids[n->s[0]] = s;
                put(s);
                maybe_ws();
            }
            else if (op == "irem")
            {
                put(ids[n->s[0]]);
                if (rng.chance(1, 8))
                    put("x");
                maybe_ws();
            }
            else if (op == "digits")
            {
                for (int i = run(); i > 0; --i)
                    put(std::string(1, cls("digit")));
                maybe_ws();
            }
            else if (op == "digit1" || op == "int1")
            {
                put(std::string(1, cls("digit")));
                maybe_ws();
            }
            else if (op == "any")
            {
                for (int i = run() - 1; i > 0; --i)
                    put(std::string(1, g.alphabet[rng.below(g.alphabet.size())]));
            }
            else if (op == "until" || op == "untileof")
            {
                for (int i = run() - 1; i > 0; --i)
                    put(std::string(1, g.alphabet[rng.below(g.alphabet.size())]));
                der(n->k[0].get());
            }
            else if (op == "tok")
            {
                auto old = ws;
                ws       = nullptr;
                der(n->k[0].get());
                ws = old;
                maybe_ws();
            }
            else if (op == "toke" || op == "tokk" || op == "cap" || op == "posr" || op == "pas" || op == "capp" || op == "must"
                     || op == "push" || op == "pop" || op == "mem")
                der(n->k[0].get());
            else if (op == "seq" || op == "br" || op == "bseq")
                for (auto& c : n->k)
                    der(c.get());
            else if (op == "choice")
            {
                if (budget < 0)
                    der(n->k.back().get());
                else
                    der(n->k[rng.below(n->k.size())].get());
            }
            else if (op == "opt" || op == "if" || op == "flag" || op == "optlist")
            {
                if (budget > 0 && rng.chance(3, 5))
                    der(n->k[0].get());
            }
            else if (op == "while" || op == "loop")
            {
                int c = budget > 0 ? rng.range(0, 3) : 0;
                for (int i = 0; i < c; ++i)
                    der(n->k[0].get());
            }
            else if (op == "whileone")
            {
                int c = budget > 0 ? rng.range(1, 3) : 1;
                for (int i = 0; i < c; ++i)
                    der(n->k[0].get());
            }
            else if (op == "dowhile")
            {
                int c = budget > 0 ? rng.range(1, 3) : 1;
                for (int i = 0; i < c; ++i)
                {
                    if (i)
                        der(n->k[1].get());
                    der(n->k[0].get());
                }
            }
            else if (op == "times")
            {
                int c = std::stoi(n->s[0]);
                items(n->k[0].get(), n->k.size() > 1 ? n->k[1].get() : nullptr, c);
            }
            else if (op == "repeat")
            {
                int c = rng.range(0, 4);
                put(std::to_string(c));
                maybe_ws();
                items(n->k[0].get(), n->k.size() > 1 ? n->k[1].get() : nullptr, c);
            }
            else if (op == "list")
                items(n->k[0].get(), n->k.size() > 1 ? n->k[1].get() : nullptr, budget > 0 ? rng.range(1, 4) : 1);
            else if (op == "term" || op == "brackets")
            {
                std::size_t o = op == "term" ? 0 : 1;
                if (o)
                    der(n->k[0].get());
                auto& kind = n->s[0];
                auto  rule = n->k[o].get();
                auto  sep  = n->k.size() > o + 3 ? n->k[o + 3].get() : nullptr;
                if (kind == "list")
                    items(rule, sep, budget > 0 ? rng.range(1, 4) : 1);
                else if (kind == "optlist")
                    items(rule, sep, budget > 0 ? rng.range(0, 3) : 0);
                else if (kind == "opt")
                {
                    if (budget > 0 && rng.chance(1, 2))
                        der(rule);
                }
                else
                    der(rule);
                der(n->k[o + 1].get());
            }
            else if (op == "try")
            {
                if (rng.chance(1, 6) && n->k.size() > 1)
                {
                    garbage();
                    der(n->k[1].get());
                }
                else
                    der(n->k[0].get());
            }
            else if (op == "find")
                garbage();
            else if (op == "recover")
                der(n->k[1 + rng.below(n->k.size() - 1)].get());
            else if (op == "comb" || op == "pcomb")
            {
                std::vector<std::size_t> idx;
                for (std::size_t i = 0; i < n->k.size(); ++i)
                    idx.push_back(i);
                for (std::size_t i = idx.size(); i > 1; --i)
                    std::swap(idx[i - 1], idx[rng.below(i)]);
                if (rng.chance(1, 5))
                    idx.insert(idx.begin() + long(rng.below(idx.size())), idx[rng.below(idx.size())]);
                if (op == "pcomb" || rng.chance(1, 6))
                    idx.resize(rng.below(idx.size() + 1));
                for (auto i : idx)
                    der(n->k[i].get());
            }
            else if (op == "flags")
            {
                int c = rng.range(0, 3);
                for (int i = 0; i < c; ++i)
                {
                    put(n->s[2 * rng.below(n->s.size() / 2)]);
                    maybe_ws();
                }
            }
            else if (op == "p" || op == "inline" || op == "rec" || op == "recb")
            {
                if (budget < -200)
                    return;
                if (budget < -40 && op[0] == 'r')
                    return;
                auto& pr  = g.get(n->s[0]);
                auto  old = ws;
                if (pr.ws)
                {
                    ws = pr.ws.get();
                    maybe_ws();
                }
                else if (pr.token)
                    ws = nullptr;
                der(pr.rule.get());
                ws = old;
                if (pr.token)
                    maybe_ws();
            }
            else if (op == "nows")
            {
                auto old = ws;
                ws       = nullptr;
                der(n->k[0].get());
                ws = old;
                maybe_ws();
            }
            else if (op == "wsr")
                der_ws(n->k[0].get());
        }
        void garbage()
        {
            for (int i = rng.range(0, 4); i > 0; --i)
                put(std::string(1, g.alphabet[rng.below(g.alphabet.size())]));
        }
        void items(const N* item, const N* sep, int c)
        {
            for (int i = 0; i < c; ++i)
            {
                if (i && sep)
                    der(sep->k[0].get());
                der(item);
            }
            if (sep && rng.chance(1, 5))
                der(sep->k[0].get());
        }
    };
} // namespace

std::string derive(const Grammar& g, vh::Rng& rng, int budget)
{
    Deriver d{g, rng, budget, nullptr, {}, {}, {}};
    auto&   root = g.prods[0];
    d.ws         = root.ws.get();
    d.maybe_ws();
    d.der(root.rule.get());
    if (d.out.size() > 400)
        d.out.resize(400);
    return d.out;
}

std::string mutate(const Grammar& g, vh::Rng& rng, std::string s)
{
    int n = rng.range(1, 3);
    for (int i = 0; i < n; ++i)
    {
        auto at = rng.below(s.size() + 1);
        switch (rng.below(9))
        {
        case 0:
        case 1:
            if (!s.empty())
                s.erase(at % s.size(), 1);
            break;
        case 2:
        case 3:
            s.insert(at, 1, g.alphabet[rng.below(g.alphabet.size())]);
            break;
        case 4:
            if (!s.empty())
                s[at % s.size()] = g.alphabet[rng.below(g.alphabet.size())];
            break;
        case 5:
            s.resize(at);
            break;
        case 6: {
            auto to = rng.below(s.size() + 1);
            auto a = at < to ? at : to, b = at < to ? to : at;
            if (b - a < 20)
                s.insert(b, s.substr(a, b - a));
            break;
        }
        case 7: {
            auto to = rng.below(s.size() + 1);
            auto a = at < to ? at : to, b = at < to ? to : at;
            if (b - a < 12)
                s.erase(a, b - a);
            break;
        }
        case 8:
            if (s.size() > 1)
                std::swap(s[at % s.size()], s[rng.below(s.size())]);
            break;
        }
    }
    return s;
}
} // namespace gm
