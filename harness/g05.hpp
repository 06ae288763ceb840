// Parse trees of generated grammars: model structure plus the tree monitor, over a history of reuse.
#include "gdrive.hpp"
#include "treecheck.hpp"
namespace gd
{
template <class P>
void trees(const Entry& e, const std::string& s, const Obs& m)
{
    using Input = lexy::string_input<lexy::utf8_char_encoding>;
    using Tree  = lexy::parse_tree_for<Input, void, tc::Resource>;
    auto where  = [&] { return std::string(" of grammar ") + e.name + " on \"" + vh::esc(s) + "\"\n  grammar: " + e.model; };
    // one tree lives across all inputs of a grammar (with another to move to and from)
    static tc::Resource resource, other_resource;
    static auto         tree  = new Tree(&resource);
    static auto         spare = new Tree(&other_resource);
    static vh::Rng      rng(vh::opt.seed + 77);
    static unsigned     round = 0;
    ++round;
    gobs::with_string<lexy::utf8_char_encoding>(s, [&](const auto& in) {
        switch (rng.below(8))
        {
        case 0:
            tree->clear();
            tc::check_tree(*tree, in.data(), in.data() + in.size(), " (cleared tree)" + where(), round);
            vh::count("trees_cleared");
            break;
        case 1: {
            Tree moved(std::move(*tree));
            *tree = std::move(*spare);
            *spare = std::move(moved);
            vh::count("trees_moved");
            break;
        }
        case 2:
            delete tree;
            delete spare;
            vh::expect(resource.live.empty() && other_resource.live.empty(), "tree-memory-leak", "destroyed trees still own memory" + where());
            tree  = new Tree(&resource);
            spare = new Tree(&other_resource);
            break;
        default:
            break;
        }
        Obs  o;
        auto r   = lexy::parse_as_tree<P>(*tree, in, gobs::ErrLog{&o.errors});
        o.status = gobs::status_of(r);
        gobs::read_tree(*tree, o);
        gd::compare("reused tree", e, s, m, o, true);
        tc::check_tree(*tree, in.data(), in.data() + in.size(), where(), round);
        // moved away and back
        if (round % 5 == 0)
        {
            Tree a(std::move(*tree));
            Obs  o2 = o;
            o2.tree.clear(), o2.lossless.clear();
            gobs::read_tree(a, o2);
            gd::compare("moved tree", e, s, m, o2, true);
            tc::check_tree(a, in.data(), in.data() + in.size(), " (moved tree)" + where(), round);
            *tree = std::move(a);
        }
        if (!resource.errors.empty() || !other_resource.errors.empty())
        {
            vh::violation("tree-memory-resource", resource.errors + other_resource.errors + where());
            resource.errors.clear(), other_resource.errors.clear();
        }
        vh::count("trees_checked");
        return 0;
    });
}
template <class P>
Entry make(const char* name, const char* model)
{
    Entry e{name, model};
    e.tree = [](const std::string& s) {
        return gobs::with_buffer<lexy::utf8_char_encoding>(s, [](const auto& in) { return gobs::run_tree<P>(in); });
    };
    e.extra = &trees<P>;
    return e;
}
} // namespace gd
