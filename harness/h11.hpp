// Expression productions with a description of their operators.
#pragma once
#include "obs.hpp"
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/parse_tree.hpp>
namespace h11
{
enum Kind
{
    k_left,
    k_right,
    k_list,
    k_single,
    k_prefix,
    k_postfix
};
enum TagKind
{
    t_void,
    t_unique, // lexy::op<...>
    t_value,
    t_pos
};
struct Op
{
    std::string text;
    int         fold  = 0;
    char        nf    = 0; // must not be followed by: 'a' for a letter, another char
    TagKind     tag   = t_void;
    int         id    = 0;
    std::string close = ""; // followed by a nested expression and this
};
struct Operation
{
    std::string     name;
    Kind            kind;
    std::vector<Op> ops;
};
struct Spec
{
    bool                                ws;
    std::size_t                         max;
    std::size_t                         root; // index of the root operation of the subexpression
    std::vector<Operation>              chain;
    std::vector<std::vector<Operation>> groups = {};
};
struct Res
{
    obs::Out    out;
    std::string tree;
};
struct Entry
{
    const char* name;
    Spec        spec;
    Res (*run)(bool sub, bool buffer, const std::string&);
};
std::vector<Entry>& registry();
inline const char* base;
struct Val
{
    std::string s;
};
template <int Id>
struct Pos
{
    const char* p;
    constexpr explicit Pos(const char* p) : p(p) {}
};
inline std::string show(const Val& v)
{
    return v.s;
}
inline std::string show(int i)
{
    return std::to_string(i);
}
template <int Id>
std::string show(Pos<Id> p)
{
    return "@" + std::to_string(Id) + ":" + std::to_string(p.p - base);
}
template <class L>
std::string show(lexy::_op<L>)
{
    return "op";
}
template <auto V>
std::string show(lexy::_opv<int, V>)
{
    return "#" + std::to_string(V);
}
template <class... Args>
std::string show_all(const Args&... args)
{
    std::string r;
    ((r += show(args) + " "), ...);
    if (!r.empty())
        r.pop_back();
    return r;
}
struct value
{
    using return_type = Val;
    template <class... Args>
    Val operator()(const Args&... args) const
    {
        if constexpr (sizeof...(Args) == 1 && (std::is_same_v<Args, int> && ...))
            return {show_all(args...)};
        else
            return {"(" + show_all(args...) + ")"};
    }
    struct impl
    {
        std::string s;
        using return_type = Val;
        template <class... Args>
        void operator()(const Args&... args)
        {
            s += "," + show_all(args...);
        }
        Val finish() &&
        {
            return {"[" + s + "]"};
        }
    };
    constexpr auto sink() const
    {
        return impl{};
    }
};
struct with_end
{
    using return_type = std::string;
    std::string operator()(const Val& v, const char* p) const
    {
        return v.s + " end " + std::to_string(p - base);
    }
};
template <class E>
struct full
{
    static constexpr auto rule  = dsl::p<E> + dsl::position;
    static constexpr auto value = with_end{};
};
template <class E>
struct full_ws : full<E>
{
    static constexpr auto whitespace = dsl::ascii::blank;
};
template <class P, class Input>
Res run_in(const Input& in)
{
    base = in.data();
    Res r;
    r.out = obs::parse<P>(in);
    lexy::parse_tree_for<Input> tree;
    auto                        res = lexy::parse_as_tree<P>(tree, in, lexy::noop);
    if (res.is_success() != (r.out.status == obs::success))
        vh::violation("tree-agreement", "parse_as_tree disagrees with " + r.out.str());
    if (!tree.empty())
        for (auto [ev, node] : tree.traverse())
            if (ev == lexy::traverse_event::enter)
                r.tree += std::string(node.kind().name()) + "{";
            else if (ev == lexy::traverse_event::exit)
                r.tree += "}";
            else if (node.kind() == lexy::whitespace_token_kind || node.lexeme().empty())
                continue;
            else
                r.tree += std::string(node.lexeme().begin(), node.lexeme().end()) + " ";
    return r;
}
template <class E, class S, bool WS>
Res run(bool sub, bool buffer, const std::string& s)
{
    using P = std::conditional_t<WS, full_ws<E>, full<E>>;
    using Q = std::conditional_t<WS, full_ws<S>, full<S>>;
    if (buffer)
    {
        lexy::buffer<lexy::default_encoding> b(s.data(), s.size());
        return sub ? run_in<Q>(b) : run_in<P>(b);
    }
    vh::Exact<char> ex(s.data(), s.size());
    auto            in = lexy::string_input(ex.data, ex.size);
    return sub ? run_in<Q>(in) : run_in<P>(in);
}
struct Reg
{
    explicit Reg(Entry e)
    {
        registry().push_back(e);
    }
};
template <class E>
constexpr auto atom_of = dsl::lit_c<'('> >> dsl::recurse<E> + dsl::lit_c<')'> | dsl::else_ >> dsl::integer<int>;
} // namespace h11
