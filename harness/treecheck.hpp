// Monitor for one parse tree: reads it through children() and checks that every other way of looking at the tree
// (traversal, siblings, parents, sizes, positions, kinds, the algorithms of lexy_ext) agrees with that reading.
#pragma once
#include "vh.hpp"
#include <lexy/parse_tree.hpp>
#include <lexy_ext/parse_tree_algorithm.hpp>
#include <optional>

namespace tc
{
template <class Node>
struct M
{
    Node             node;
    std::size_t      parent = 0, index = 0, depth = 0; // index among the children of the parent
    std::vector<std::size_t> kids;
    std::size_t      subtree_end = 0; // one past the last descendant (preorder)
};

template <class Tree, class It>
struct Checker
{
    using Node = typename Tree::node;
    const Tree&        t;
    It                 begin, end; // of the complete input
    std::string        where;
    std::vector<M<Node>> n; // preorder
    std::vector<bool>  no_tokens; // no token below
    vh::Rng            rng;
    std::size_t        limit = 400; // nodes for which the expensive checks are done

    bool fail(const char* key, const std::string& msg)
    {
        vh::violation(std::string("tree-") + key, msg + where);
        return false;
    }

    void collect(Node root)
    {
        struct F
        {
            Node node;
            std::size_t parent, index, depth;
        };
        std::vector<F> todo{{root, 0, 0, 0}};
        while (!todo.empty())
        {
            auto f = todo.back();
            todo.pop_back();
            auto id = n.size();
            n.push_back({f.node, f.parent, f.index, f.depth, {}, 0});
            if (id != 0)
                n[f.parent].kids.push_back(id);
            std::vector<Node> kids;
            for (auto c : f.node.children())
            {
                kids.push_back(c);
                if (kids.size() > 10000000)
                {
                    fail("children", "the children do not end");
                    return;
                }
            }
            vh::expect(kids.size() == f.node.children().size(), "tree-child-count",
                       "children().size() is " + std::to_string(f.node.children().size()) + ", but there are " + std::to_string(kids.size()) + where);
            vh::expect(kids.empty() == f.node.children().empty(), "tree-child-empty", "children().empty() wrong" + where);
            for (auto i = kids.size(); i-- > 0;)
                todo.push_back({kids[i], id, i, f.depth + 1});
        }
        // subtree ends, tokens below
        no_tokens.assign(n.size(), true);
        for (auto i = n.size(); i-- > 0;)
        {
            if (n[i].subtree_end == 0)
                n[i].subtree_end = i + 1;
            if (n[i].node.kind().is_token())
                no_tokens[i] = false;
            if (i != 0)
            {
                auto& p = n[n[i].parent];
                p.subtree_end = std::max(p.subtree_end, n[i].subtree_end);
                if (!no_tokens[i])
                    no_tokens[n[i].parent] = false;
            }
        }
    }

    bool traverse_range_ok(const char* what, typename Tree::traverse_range r, std::size_t first)
    {
        // expected events of the subtree at first, in order
        std::vector<std::size_t> open;
        auto it = r.begin();
        auto last = n[first].subtree_end;
        auto next = [&](lexy::traverse_event ev, std::size_t id) {
            if (it == r.end())
                return fail("traverse", std::string(what) + " ends early at node #" + std::to_string(id));
            auto v = *it;
            if (v.event != ev || v.node != n[id].node)
                return fail("traverse", std::string(what) + " visits the wrong node or event at #" + std::to_string(id));
            ++it;
            return true;
        };
        auto cur = first;
        while (true)
        {
            while (!open.empty() && (cur == last || n[open.back()].subtree_end <= cur))
            {
                if (!next(lexy::traverse_event::exit, open.back()))
                    return false;
                open.pop_back();
            }
            if (cur == last)
                break;
            if (n[cur].node.kind().is_token())
            {
                if (!next(lexy::traverse_event::leaf, cur))
                    return false;
            }
            else
            {
                if (!next(lexy::traverse_event::enter, cur))
                    return false;
                open.push_back(cur);
            }
            ++cur;
        }
        if (it != r.end())
            return fail("traverse", std::string(what) + " does not end where the subtree ends");
        if (r.empty())
            return fail("traverse", std::string(what) + " is empty()");
        return true;
    }

    // first token at or below id, or none
    std::optional<std::size_t> first_token(std::size_t id)
    {
        for (auto i = id; i < n[id].subtree_end; ++i)
            if (n[i].node.kind().is_token())
                return i;
        return std::nullopt;
    }
    // position() may be called: following first children reaches a token
    bool has_position(std::size_t id)
    {
        while (!n[id].node.kind().is_token())
        {
            if (n[id].kids.empty())
                return false;
            id = n[id].kids[0];
        }
        return true;
    }

    void node_checks(std::size_t id)
    {
        auto  node = n[id].node;
        auto  kind = node.kind();
        auto  at   = " for node #" + std::to_string(id);
        auto& par  = n[n[id].parent];
        vh::expect(kind.is_token() != kind.is_production(), "tree-kind", "node must be either a token or a production" + where);
        vh::expect(kind.is_root() == (id == 0), "tree-is-root", "is_root() wrong" + at + where);
        vh::expect(node.parent() == par.node, "tree-parent", "parent() wrong" + at + where);
        vh::expect(node == node && !(node != node), "tree-node-eq", "node not equal to itself" + where);
        vh::expect(node.kind() == kind && !(node.kind() != kind), "tree-kind-eq", "kind not equal to itself" + where);
        if (id != 0)
        {
            vh::expect(node.is_last_child() == (n[id].index + 1 == par.kids.size()), "tree-last-child", "is_last_child() wrong" + at + where);
            // siblings: the ones after, then the ones before
            auto   r = node.siblings();
            auto   it = r.begin();
            bool   ok = r.empty() == (par.kids.size() == 1);
            auto   count = par.kids.size();
            for (std::size_t k = 1; ok && k < count; ++k)
            {
                if (it == r.end() || *it != n[par.kids[(n[id].index + k) % count]].node)
                    ok = false;
                else
                    ++it;
            }
            vh::expect(ok && it == r.end(), "tree-siblings", "siblings() wrong" + at + where);
        }
        else
            vh::expect(node.siblings().empty() && node.siblings().begin() == node.siblings().end(), "tree-siblings", "the root has siblings" + where);
        if (kind.is_token())
        {
            auto lex = node.lexeme();
            auto tok = node.token();
            vh::expect(node.children().empty(), "tree-token-children", "token has children" + where);
            vh::expect(!kind.is_token_production(), "tree-token-production", "token is token production" + where);
            vh::expect(tok.lexeme().begin() == lex.begin() && tok.lexeme().end() == lex.end() && tok.position() == lex.begin(), "tree-token",
                       "token() differs from lexeme()" + at + where);
            vh::expect(kind == tok.kind() && tok.kind() == kind && !(kind != tok.kind()), "tree-token-kind", "kind() differs from token().kind()" + at + where);
            vh::expect(std::strcmp(kind.name(), tok.name()) == 0, "tree-token-name", "name() differs from token().name()" + at + where);
            vh::expect(node.position() == lex.begin(), "tree-position", "position() of a token" + at + where);
            auto cov = node.covering_lexeme();
            vh::expect(cov.begin() == lex.begin() && cov.end() == lex.end(), "tree-covering", "covering_lexeme() of a token" + at + where);
        }
        else
        {
            auto lex = node.lexeme();
            vh::expect(lex.begin() == It() && lex.empty(), "tree-lexeme", "production has a lexeme" + at + where);
            // covering lexeme: from the first token to the begin of what follows
            auto ft = first_token(id);
            if (has_position(id))
            {
                vh::expect(node.position() == n[*ft].node.lexeme().begin(), "tree-position", "position() wrong" + at + where);
                auto next = n[id].subtree_end;
                if (next == n.size() || has_position(next))
                {
                    auto cov = node.covering_lexeme();
                    auto e   = next == n.size() ? t.remaining_input().begin() : n[*first_token(next)].node.lexeme().begin();
                    vh::expect(cov.begin() == n[*ft].node.lexeme().begin() && cov.end() == e, "tree-covering", "covering_lexeme() wrong" + at + where);
                }
            }
            // node_position
            auto want = ft ? n[*ft].node.lexeme().begin() : It();
            for (auto k : n[id].kids)
                if (n[k].node.kind() == lexy::position_token_kind)
                {
                    want = n[k].node.lexeme().begin();
                    break;
                }
            vh::expect(lexy_ext::node_position(t, node) == want, "tree-node-position", "node_position() wrong" + at + where);
            // predicate children: those at even index
            if (!n[id].kids.empty())
            {
                auto pick = rng.below(n[id].kids.size());
                auto pk   = n[n[id].kids[pick]].node.kind();
                auto same = [&](auto c) { return c.kind() == pk; };
                std::vector<std::size_t> want_kids;
                for (auto k : n[id].kids)
                    if (n[k].node.kind() == pk)
                        want_kids.push_back(k);
                std::size_t i  = 0;
                bool        ok = true;
                auto        range = lexy_ext::children(t, node, same);
                for (auto c : range)
                {
                    if (i >= want_kids.size() || n[want_kids[i]].node != c)
                    {
                        ok = false;
                        break;
                    }
                    ++i;
                }
                vh::expect(ok && i == want_kids.size() && !range.empty(), "tree-children-pred", "children(predicate) wrong" + at + where);
                auto first = lexy_ext::child(t, node, same);
                vh::expect(first && *first == n[want_kids[0]].node, "tree-child-pred", "child(predicate) wrong" + at + where);
            }
            vh::expect(!lexy_ext::child(t, node, [](auto) { return false; }), "tree-child-none", "child() of nothing" + at + where);
        }
    }

    void tokens_ok(std::size_t id)
    {
        auto r  = lexy_ext::tokens(t, n[id].node);
        auto it = r.begin();
        bool ok = r.empty() == no_tokens[id];
        for (auto i = id; ok && i < n[id].subtree_end; ++i)
            if (n[i].node.kind().is_token())
            {
                if (it == r.end() || *it != n[i].node)
                    ok = false;
                else
                    ++it;
            }
        vh::expect(ok && it == r.end(), "tree-tokens", "tokens() wrong for node #" + std::to_string(id) + where);
    }

    void run()
    {
        if (t.empty())
        {
            vh::expect(t.size() == 0, "tree-size", "empty tree has size " + std::to_string(t.size()) + where);
            vh::expect(t.traverse().empty() && t.traverse().begin() == t.traverse().end(), "tree-traverse", "empty tree has nodes" + where);
            vh::expect(t.remaining_input().empty(), "tree-remaining", "empty tree has remaining input" + where);
            return;
        }
        collect(t.root());
        vh::expect_eq(t.size(), n.size(), "tree-size", "size()" + where);
        std::size_t depth = 0;
        for (auto& x : n)
            depth = std::max(depth, x.depth);
        vh::expect_eq(t.depth(), depth, "tree-depth", "depth()" + where);
        traverse_range_ok("traverse()", t.traverse(), 0);
        traverse_range_ok("traverse(root)", t.traverse(t.root()), 0);
        vh::count("tree_nodes_checked", n.size());
        std::unordered_set<const void*> addr;
        for (auto& x : n)
            if (!addr.insert(x.node.address()).second)
                fail("address", "two nodes have the same address");
        if (n.size() <= limit)
        {
            for (std::size_t i = 0; i < n.size(); ++i)
            {
                node_checks(i);
                traverse_range_ok("traverse(node)", t.traverse(n[i].node), i);
                tokens_ok(i);
            }
        }
        else
            for (std::size_t k = 0; k < 60; ++k)
            {
                auto i = k == 0 ? 0 : k == 1 ? n.size() - 1 : rng.below(n.size());
                node_checks(i);
                traverse_range_ok("traverse(node)", t.traverse(n[i].node), i);
                tokens_ok(i);
            }
        tokens_ok(0);
        if constexpr (std::is_pointer_v<It>)
            find_ok();
    }
    void find_ok()
    {
        // covering node of positions within the tokens (tokens in input order)
        std::size_t tries = 0;
        for (std::size_t i = 0; i < n.size() && tries < 12; ++i)
        {
            auto id = rng.below(n.size());
            if (!n[id].node.kind().is_token() || n[id].node.lexeme().empty() || !ordered())
                continue;
            ++tries;
            auto lex = n[id].node.lexeme();
            auto pos = lex.begin() + std::ptrdiff_t(rng.below(std::size_t(lex.end() - lex.begin())));
            vh::expect(lexy_ext::find_covering_node(t, pos) == n[id].node, "tree-find", "find_covering_node() wrong for node #" + std::to_string(id) + where);
        }
    }
    int  is_ordered = -1;
    bool ordered() // tokens partition the input in order
    {
        if (is_ordered < 0)
        {
            is_ordered = 1;
            It cur     = begin;
            for (auto& x : n)
                if (x.node.kind().is_token())
                {
                    if (x.node.lexeme().begin() != cur)
                        is_ordered = 0;
                    cur = x.node.lexeme().end();
                }
        }
        return is_ordered == 1;
    }
};

template <class Tree, class It>
void check_tree(const Tree& t, It begin, It end, const std::string& where, std::uint64_t seed)
{
    Checker<Tree, It> c{t, begin, end, where, {}, {}, vh::Rng(seed)};
    c.run();
}

// Memory resource that knows what it handed out.
struct Resource
{
    std::map<void*, std::pair<std::size_t, std::size_t>> live;
    std::size_t allocations = 0;
    std::string errors;
    void*       allocate(std::size_t bytes, std::size_t alignment)
    {
        ++allocations;
        void* p = nullptr;
        if (posix_memalign(&p, alignment < sizeof(void*) ? sizeof(void*) : alignment, bytes ? bytes : 1) != 0)
            std::abort();
        live[p] = {bytes, alignment};
        return p;
    }
    void deallocate(void* p, std::size_t bytes, std::size_t alignment)
    {
        auto it = live.find(p);
        if (it == live.end())
            errors += "deallocate of memory not allocated here; ";
        else
        {
            if (it->second != std::make_pair(bytes, alignment))
                errors += "deallocate with wrong size or alignment; ";
            live.erase(it);
            std::free(p);
        }
    }
    friend bool operator==(const Resource& a, const Resource& b)
    {
        return &a == &b;
    }
};
} // namespace tc
