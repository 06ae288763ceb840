// Reference interpreter for lexy grammars: direct-style semantics of the DSL rules as documented,
// over a plain string, with an explicit event/tree/error/value log. Knows nothing of lexy's code.
#pragma once
#include "vh.hpp"
#include <bitset>
#include <memory>

namespace gm
{
struct N
{
    std::string                     op;
    std::vector<std::string>        s; // atoms
    std::vector<std::unique_ptr<N>> k; // children
};

struct Production
{
    std::string        name;
    std::unique_ptr<N> rule, ws; // ws: null if not defined
    bool               token = false, transparent = false, is_void = false;
    int                max_depth = 0; // root only
};

struct Grammar
{
    std::vector<Production> prods; // [0] is the root
    std::string             alphabet;
    const Production&       get(const std::string& name) const;
};

// Parses the textual form emitted by the generator.
Grammar parse_grammar(const char* text);

struct TreeNode
{
    std::string           kind; // token kind name or production name
    bool                  prod  = false;
    std::size_t           begin = 0, end = 0;
    std::vector<TreeNode> children;
};
std::string tree_string(const TreeNode& n, const std::string& input);

// What one execution produced; filled by the model and by the observers of the real parser.
struct Obs
{
    int                      status = 0; // 0 success, 1 recovered, 2 fatal
    std::vector<std::string> errors;
    bool                     has_value = false;
    std::string              value;
    bool                     has_tree = false;
    std::string              tree;      // string form
    std::size_t              consumed = 0; // begin of the remaining input (if not fatal)
    std::string              lossless;  // concatenation of token lexemes + remaining
    std::size_t              token_count = 0, prod_count = 0;
    std::vector<std::string> log; // value delivery log (callbacks in order)
    std::vector<std::string> trace; // production/token/error/recovery events in order
    unsigned long            steps = 0;
    std::map<std::string, unsigned long> ops; // rule kinds exercised
    std::unordered_set<std::uint64_t>    feat; // (rule, parent, outcome) combinations
};

struct Limits
{
    unsigned long max_steps = 200000;
};

// Runs the model. Returns false if the step limit was exceeded (case is skipped).
bool run_model(const Grammar& g, const std::string& input, Obs& out);

// Generates an input that follows the grammar (mostly); budget limits its size.
std::string derive(const Grammar& g, vh::Rng& rng, int budget);
// Applies random mutations.
std::string mutate(const Grammar& g, vh::Rng& rng, std::string s);
} // namespace gm
