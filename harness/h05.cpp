// Parse trees built by hand: random histories of builder operations against an explicit mirror, at every offset of the
// allocation blocks; trees as input of another parse.
#include "treecheck.hpp"
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/dsl/parse_tree_node.hpp>
#include <lexy/input/parse_tree_input.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <list>
#include <memory>
namespace dsl = lexy::dsl;

enum class K
{
    a,
    b,
    c
};
constexpr const char* token_kind_name(K k)
{
    return k == K::a ? "a" : k == K::b ? "b" : "c";
}
struct P0
{
    static constexpr auto name = "P0";
    static constexpr auto rule = dsl::any;
};
struct P1 : lexy::token_production
{
    static constexpr auto name = "P1";
    static constexpr auto rule = dsl::any;
};
struct P2
{
    static constexpr auto name = "P2";
    static constexpr auto rule = dsl::any;
};
struct P3
{
    static constexpr auto name = "P2"; // same name, different production
    static constexpr auto rule = dsl::any;
};
struct T : lexy::transparent_production
{
    static constexpr auto name = "T";
    static constexpr auto rule = dsl::any;
};
static lexy::production_info infos[] = {P0{}, P1{}, P2{}, P3{}, T{}};

struct Mir
{
    int                prod = -1; // or token if -1
    int                kind = 0;  // index in kinds
    std::size_t        b = 0, e = 0;
    std::vector<Mir>   kids;
};
static std::string show(const Mir& m)
{
    if (m.prod < 0)
        return "t" + std::to_string(m.kind) + "[" + std::to_string(m.b) + "," + std::to_string(m.e) + ")";
    std::string r = "p" + std::to_string(m.prod) + "(";
    for (auto& k : m.kids)
        r += show(k) + " ";
    return r + ")";
}
static int error_kind = 4;

template <class TK>
lexy::token_kind<TK> kind_of(int i)
{
    // 0-2 own kinds, 3 unknown, 4 error, 5 whitespace, 6 position, 7 eof, 8 identifier, 9 digits
    if constexpr (std::is_same_v<TK, K>)
    {
        if (i < 3)
            return K(i);
    }
    else
    {
        if (i < 3)
            return i * 7;
    }
    switch (i)
    {
    case 3:
        return lexy::unknown_token_kind;
    case 4:
        return lexy::error_token_kind;
    case 5:
        return lexy::whitespace_token_kind;
    case 6:
        return lexy::position_token_kind;
    case 7:
        return lexy::eof_token_kind;
    case 8:
        return lexy::identifier_token_kind;
    default:
        return lexy::digits_token_kind;
    }
}

// structural comparison
template <class TK, class Node, class At>
bool same(const Mir& m, Node n, At at, std::string& why)
{
    if (m.prod < 0)
    {
        if (!n.kind().is_token())
            return why = "production instead of token", false;
        if (!(n.kind() == kind_of<TK>(m.kind)) || n.kind() != kind_of<TK>(m.kind))
            return why = std::string("token kind is ") + n.kind().name(), false;
        if (n.lexeme().begin() != at(m.b) || n.lexeme().end() != at(m.e))
            return why = "token lexeme of " + show(m), false;
        return true;
    }
    if (!n.kind().is_production())
        return why = "token instead of production", false;
    for (int i = 0; i < 4; ++i)
        if ((n.kind() == infos[i]) != (i == m.prod) || (infos[i] != n.kind()) != (i != m.prod))
            return why = "production kind differs", false;
    if (std::strcmp(n.kind().name(), m.prod == 0 ? "P0" : m.prod == 1 ? "P1" : "P2") != 0 || n.kind().is_token_production() != (m.prod == 1))
        return why = "production name or token flag", false;
    std::size_t i = 0;
    for (auto c : n.children())
    {
        if (i >= m.kids.size())
            return why = "additional child in " + show(m).substr(0, 60), false;
        if (!same<TK>(m.kids[i], c, at, why))
            return false;
        ++i;
    }
    if (i != m.kids.size())
        return why = "missing child", false;
    return true;
}

template <class TK, class Res, class Input, class MakeInput>
void history(vh::Rng& rng, MakeInput make)
{
    using Tree = lexy::parse_tree_for<Input, TK, Res>;
    std::vector<char> text(16000, 'x');
    auto              holder = make(text);
    auto              at     = holder.at;
    tc::Resource      resource;
    {
        auto mk = [&] {
            if constexpr (std::is_void_v<Res>)
                return Tree();
            else
                return Tree(&resource);
        };
        Tree tree = mk();
        int  rounds = rng.range(1, 4);
        std::string log;
        for (int round = 0; round < rounds; ++round)
        {
            struct Frame
            {
                int                            type; // 0 production, 1 transparent, 2 container
                int                            prod;
                typename Tree::builder::marker m;
                std::vector<Mir>               kids;   // own list (0, 2)
                std::vector<Mir>               saved;  // list of the owner when started (1)
            };
            if (rng.chance(1, 6))
                tree.clear();
            if (rng.chance(1, 6))
            {
                Tree other = mk();
                other      = std::move(tree);
                tree       = std::move(other);
            }
            log += "build;";
            vh::begin_case("builder history " + log);
            auto root = rng.range(0, 3);
            typename Tree::builder b(std::move(tree), infos[root]);
            std::vector<Frame>     st;
            st.push_back({0, root, {}, {}, {}});
            auto owner = [&]() -> std::vector<Mir>& {
                auto i = st.size() - 1;
                while (st[i].type == 1)
                    --i;
                return st[i].kids;
            };
            std::size_t pos = 0;
            auto        token = [&](int kind, std::size_t len) {
                if (pos + len > text.size())
                    len = 0;
                b.token(kind_of<TK>(kind), at(pos), at(pos + len));
                auto& k = owner();
                if (len == 0 && (kind == 3 || kind == 4 || kind == 5))
                    ;
                else if (kind == error_kind && !k.empty() && k.back().prod < 0 && k.back().kind == error_kind)
                    k.back().e = pos + len;
                else
                    k.push_back({-1, kind, pos, pos + len, {}});
                pos += len;
            };
            // shift the allocation position, then a random history
            int pad = rng.chance(1, 3) ? 0 : rng.chance(1, 2) ? rng.range(95, 135) : rng.range(0, 400);
            int pad_kind = rng.range(0, 2);
            for (int i = 0; i < pad; ++i)
                token(pad_kind, 1);
            int ops = rng.chance(1, 3) ? rng.range(0, 12) : rng.chance(1, 3) ? rng.range(200, 1500) : rng.range(10, 120);
            // weights of this history
            int wtok = rng.range(1, 12), wstart = rng.range(1, 8), wfin = rng.range(1, 8), wcancel = rng.range(0, 4), wcont = rng.range(0, 6), wset = rng.range(0, 6),
                wtrans = rng.range(0, 3);
            auto finish_top = [&](bool cancel) {
                auto f = std::move(st.back());
                st.pop_back();
                if (f.type == 2)
                {
                    if (cancel)
                        b.cancel_container(std::move(f.m));
                    else
                    {
                        b.finish_container(std::move(f.m));
                        auto& k = owner();
                        for (auto& c : f.kids)
                            k.push_back(std::move(c));
                    }
                }
                else if (f.type == 1)
                {
                    if (cancel)
                    {
                        b.cancel_production(std::move(f.m));
                        owner() = std::move(f.saved);
                    }
                    else
                        b.finish_production(std::move(f.m));
                }
                else
                {
                    if (cancel)
                        b.cancel_production(std::move(f.m));
                    else
                    {
                        b.finish_production(std::move(f.m));
                        owner().push_back({f.prod, 0, 0, 0, std::move(f.kids)});
                    }
                }
            };
            for (int i = 0; i < ops; ++i)
            {
                auto w = int(rng.below(std::uint64_t(wtok + wstart + wfin + wcancel + wcont + wset + wtrans)));
                if ((w -= wtok) < 0)
                    token(rng.range(0, 9), rng.chance(1, 4) ? 0 : rng.below(4));
                else if ((w -= wstart) < 0)
                {
                    auto p = rng.range(0, 3);
                    auto m = b.start_production(infos[p]);
                    st.push_back({0, p, std::move(m), {}, {}});
                }
                else if ((w -= wtrans) < 0)
                {
                    auto saved = owner();
                    if (saved.size() > 60)
                        continue;
                    auto m = b.start_production(infos[4]);
                    st.push_back({1, 4, std::move(m), {}, std::move(saved)});
                }
                else if ((w -= wcont) < 0)
                {
                    auto m = b.start_container();
                    st.push_back({2, 0, std::move(m), {}, {}});
                }
                else if ((w -= wset) < 0)
                {
                    if (st.back().type != 2)
                        continue;
                    auto p = rng.chance(1, 10) ? 4 : rng.range(0, 3);
                    b.set_container_production(infos[p]);
                    if (p != 4)
                    {
                        std::vector<Mir> kids;
                        kids.swap(st.back().kids);
                        st.back().kids.push_back({p, 0, 0, 0, std::move(kids)});
                    }
                }
                else if (st.size() > 1)
                    finish_top((w -= wfin) >= 0);
                vh::expect_eq(b.current_child_count(), owner().size(), "builder-child-count", "current_child_count() during " + log);
            }
            while (st.size() > 1)
                finish_top(rng.chance(1, 6));
            auto rem = std::min(text.size(), pos + rng.below(5));
            tree     = std::move(b).finish({at(pos), at(rem)});
            Mir  want{root, 0, 0, 0, std::move(st[0].kids)};
            std::string why;
            auto        text_form = show(want);
            if (!same<TK>(want, tree.root(), at, why))
                vh::violation("builder-structure", "tree built by hand differs: " + why + "; expected " + text_form.substr(0, 2000));
            vh::expect(tree.remaining_input().begin() == at(pos) && tree.remaining_input().end() == at(rem), "builder-remaining", "remaining_input() of " + text_form.substr(0, 300));
            tc::check_tree(tree, at(0), at(text.size()), " of " + text_form.substr(0, 1500), rng.next());
            if (text_form.size() > 40)
                vh::observe(text_form);
            vh::count("built_trees");
            if (tree.size() > 130)
                vh::count("built_trees_over_one_block");
        }
    }
    vh::expect(resource.errors.empty() && resource.live.empty(), "builder-memory", "memory resource: " + resource.errors + std::to_string(resource.live.size()) + " blocks leaked");
}

struct Ptr
{
    const char* data;
    const char* at_(std::size_t i) const
    {
        return data + i;
    }
};
struct PtrHolder
{
    std::function<const char*(std::size_t)> at;
};
struct ListHolder
{
    std::shared_ptr<std::list<char>>                              l;
    std::function<std::list<char>::const_iterator(std::size_t)> at;
};

//=== trees as input ===//
struct Num : lexy::token_production
{
    static constexpr auto name = "Num";
    static constexpr auto rule = dsl::digits<>.kind<K::a>;
};
struct Expr;
struct Group
{
    static constexpr auto name = "Group";
    static constexpr auto rule = dsl::lit_c<'('>.kind<K::b> + dsl::recurse<Expr> + dsl::lit_c<')'>.kind<K::b>;
};
struct Expr
{
    static constexpr auto name = "Expr";
    static constexpr auto rule = [] {
        auto item = (dsl::peek(dsl::lit_c<'('>) >> dsl::p<Group>) | (dsl::peek(dsl::digit<>) >> dsl::p<Num>);
        return dsl::list(item, dsl::sep(dsl::lit_c<'+'>.kind<K::c>));
    }();
};
// the same language over trees
struct TNum : lexy::transparent_production
{
    static constexpr auto name  = "TNum";
    static constexpr auto rule  = dsl::tnode<K::a>(dsl::integer<long>);
    static constexpr auto value = lexy::forward<long>;
};
struct TExpr;
struct TNumP
{
    static constexpr auto rule  = dsl::pnode<Num>(dsl::p<TNum>);
    static constexpr auto value = lexy::forward<long>;
};
struct TGroup
{
    static constexpr auto rule  = dsl::pnode<Group>(dsl::tnode<K::b> + dsl::recurse<TExpr> + dsl::tnode<K::b>);
    static constexpr auto value = lexy::forward<long>;
};
struct TExprBody
{
    static constexpr auto rule = [] {
        auto item = (dsl::peek(dsl::pnode<Group>) >> dsl::p<TGroup>) | (dsl::else_ >> dsl::p<TNumP>);
        return dsl::list(item, dsl::sep(dsl::tnode<K::c>));
    }();
    static constexpr auto value = lexy::fold_inplace<long>(0l, [](long& r, long v) { r += v; });
};
struct TExpr
{
    static constexpr auto rule  = dsl::pnode<Expr>(dsl::p<TExprBody>);
    static constexpr auto value = lexy::forward<long>;
};
struct TRoot // children of the root production
{
    static constexpr auto rule  = dsl::p<TExprBody> + dsl::eof;
    static constexpr auto value = lexy::forward<long>;
};
static void tree_input(vh::Rng& rng)
{
    long        sum = 0;
    std::string text;
    std::function<void(int)> expr = [&](int depth) {
        int n = text.empty() && rng.chance(1, 20) ? rng.range(50, 400) : rng.range(1, 4);
        for (int i = 0; i < n; ++i)
        {
            if (i)
                text += '+';
            if (depth > 0 && rng.chance(1, 3))
            {
                text += '(';
                expr(depth - 1);
                text += ')';
            }
            else
            {
                long v = long(rng.below(100));
                sum += v;
                text += std::to_string(v);
            }
        }
    };
    expr(rng.range(0, 6));
    vh::begin_case("tree of " + text);
    auto                                           in = lexy::string_input(text.data(), text.size());
    lexy::parse_tree_for<lexy::string_input<>, K> tree;
    auto                                           r = lexy::parse_as_tree<Expr>(tree, in, lexy::noop);
    vh::expect(r.is_success(), "tree-input-parse", "text not parsed: " + text);
    tc::check_tree(tree, in.data(), in.data() + in.size(), " of " + text, rng.next());
    lexy::parse_tree_input ti(tree);
    std::vector<std::string> errs;
    auto cb = lexy::callback([&](const auto& ctx, const auto& e) { errs.push_back(std::to_string(e.position() - text.data()) + (void(ctx), "")); });
    auto v  = lexy::parse<TRoot>(ti, cb);
    vh::expect(v.is_success() && v.has_value() && v.value() == sum, "tree-input-value",
               "parsing the tree of " + text + " yields " + (v.has_value() ? std::to_string(v.value()) : std::string("nothing")) + ", expected " + std::to_string(sum));
    // the reader walks the children of the root
    auto        rd = ti.reader();
    std::size_t k  = 0;
    auto        root = tree.root();
    for (auto c : root.children())
    {
        vh::expect(rd.peek() == c && rd.position() == c.position(), "tree-input-reader", "reader is not at child #" + std::to_string(k) + " of " + text);
        auto child = rd.child_reader();
        if (c.kind().is_token())
        {
            vh::expect(child.peek() == lexy::_parse_tree_eof{}, "tree-input-leaf", "token has children in " + text);
            auto lr = rd.lexeme_reader();
            for (auto ch : std::string(c.lexeme().begin(), c.lexeme().end()))
            {
                vh::expect(lr.peek() == ch, "tree-input-lexeme", "lexeme reader of " + text);
                lr.bump();
            }
            vh::expect(lr.peek() == lexy::default_encoding::eof(), "tree-input-lexeme", "lexeme reader of " + text + " does not end");
        }
        else
            vh::expect(child.peek() == *c.children().begin(), "tree-input-child", "child reader of " + text);
        rd.bump();
        ++k;
    }
    vh::expect(rd.peek() == lexy::_parse_tree_eof{} && rd.position() == text.data() + text.size(), "tree-input-end", "reader does not end with the children of " + text);
    vh::observe("in:" + text);
    vh::count("tree_inputs");
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        vh::Rng rng(vh::opt.seed * 1000003 + std::uint64_t(vh::opt.shard));
        auto    n   = vh::cases(6000, 200000);
        auto    ptr = [](const std::vector<char>& text) { return PtrHolder{[p = text.data()](std::size_t i) { return p + i; }}; };
        auto    lst = [](const std::vector<char>& text) {
            auto l  = std::make_shared<std::list<char>>(text.begin(), text.end());
            auto is = std::make_shared<std::vector<std::list<char>::const_iterator>>();
            for (auto it = l->cbegin(); it != l->cend(); ++it)
                is->push_back(it);
            is->push_back(l->cend());
            return ListHolder{l, [is](std::size_t i) { return (*is)[i]; }};
        };
        for (std::uint64_t i = 0; i < n && !vh::too_many_violations(); ++i)
        {
            switch (rng.below(8))
            {
            case 0:
                history<K, void, lexy::string_input<>>(rng, ptr);
                break;
            case 1:
                history<void, void, lexy::string_input<>>(rng, ptr);
                break;
            case 2:
                if (rng.chance(1, 4))
                    history<K, tc::Resource, lexy::range_input<lexy::default_encoding, std::list<char>::const_iterator>>(rng, lst);
                break;
            case 3:
                for (int k = 0; k < 4; ++k)
                    tree_input(rng);
                break;
            default:
                history<K, tc::Resource, lexy::string_input<>>(rng, ptr);
            }
        }
    });
}
