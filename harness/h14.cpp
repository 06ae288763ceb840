// Callbacks, sinks and their adapters against their definitions, with values whose life is watched.
#include "u8.hpp"
#include "vh.hpp"
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <unordered_map>
#include <utility>
namespace dsl = lexy::dsl;

//=== watched values ===//
static long live = 0, copies = 0;
template <bool Copy, int Tag = 0>
struct W
{
    int   v;
    bool  gone = false;
    void* self;
    int*  heap; // makes leaks and double frees visible to the sanitizer
    W() : W(0) {}
    W(int i) : v(i), self(this), heap(new int(i))
    {
        ++live;
    }
    W(const W& o) requires Copy : v(o.get()), self(this), heap(new int(o.v))
    {
        ++live;
        ++copies;
    }
    W(W&& o) noexcept : v(o.get()), self(this), heap(o.heap)
    {
        o.heap = nullptr;
        o.gone = true;
        ++live;
    }
    W& operator=(const W& o) requires Copy
    {
        get_any();
        ++copies;
        auto h = new int(o.get());
        delete heap;
        heap = h;
        v    = o.v;
        gone = false;
        return *this;
    }
    W& operator=(W&& o) noexcept
    {
        get_any();
        auto nv = o.get();
        auto h  = o.heap;
        o.heap  = nullptr;
        o.gone  = true;
        delete heap;
        heap = h;
        v    = nv;
        gone = false;
        return *this;
    }
    ~W()
    {
        get_any();
        delete heap;
        self = nullptr;
        --live;
    }
    void get_any() const
    {
        if (self != this)
        {
            vh::violation("value-corrupt", "a value that is not alive is used");
            std::abort();
        }
    }
    int get() const
    {
        get_any();
        if (gone)
            vh::violation("value-used-after-move", "the value " + std::to_string(v) + " is used after it was moved from");
        else if (*heap != v)
            vh::violation("value-corrupt", "a value has changed");
        return v;
    }
    friend bool operator<(const W& a, const W& b)
    {
        return a.get() < b.get();
    }
    friend bool operator==(const W& a, const W& b)
    {
        return a.get() == b.get();
    }
};
using Mo = W<false>;
using Co = W<true>;
struct HashW
{
    std::size_t operator()(const Mo& m) const
    {
        return std::size_t(m.get() % 4);
    }
};

//=== watched allocator ===//
static std::map<void*, int> blocks;
template <class T>
struct Al
{
    using value_type = T;
    int id;
    Al() : id(0) {}
    explicit Al(int i) : id(i) {}
    template <class U>
    Al(const Al<U>& o) : id(o.id)
    {}
    T* allocate(std::size_t n)
    {
        auto p    = static_cast<T*>(std::malloc(n * sizeof(T)));
        blocks[p] = id;
        return p;
    }
    void deallocate(T* p, std::size_t)
    {
        auto it = blocks.find(p);
        if (it == blocks.end() || it->second != id)
            vh::violation("allocator", "memory is returned to another allocator than the one it is from");
        else
            blocks.erase(it);
        std::free(p);
    }
    friend bool operator==(const Al& a, const Al& b)
    {
        return a.id == b.id;
    }
    friend bool operator!=(const Al& a, const Al& b)
    {
        return a.id != b.id;
    }
};

//=== comparisons ===//
template <class T>
std::string show(const T& t);
inline std::string show(int i)
{
    return std::to_string(i);
}
template <bool C, int T>
std::string show(const W<C, T>& w)
{
    return std::to_string(w.get());
}
template <class A, class B>
std::string show(const std::pair<A, B>& p)
{
    return show(p.first) + ":" + show(p.second);
}
template <class T>
std::string show(const T& t)
{
    if constexpr (std::is_integral_v<T>)
        return std::to_string(t);
    else
    {
        std::string s = "[";
        for (auto& e : t)
            s += show(e) + ",";
        return s + "]";
    }
}
static std::string current;
template <class T>
void is(const char* what, const T& got, const std::string& want)
{
    auto g = show(got);
    if (g != want)
        vh::violation(std::string("callback-") + what, std::string(what) + " returns " + g + ", expected " + want);
    vh::count("results_compared");
    current += std::string(what) + "=" + g + ";";
}
inline void is(const char* what, const std::string& got, const std::string& want)
{
    if (got != want)
        vh::violation(std::string("callback-") + what, std::string(what) + " returns " + vh::esc(got) + ", expected " + vh::esc(want));
    vh::count("results_compared");
    current += std::string(what) + "=" + got + ";";
}
static void that(const char* what, bool ok, const std::string& detail)
{
    if (!ok)
        vh::violation(std::string("callback-") + what, std::string(what) + ": " + detail);
    vh::count("results_compared");
}
static std::string list(std::initializer_list<int> l)
{
    return show(std::vector<int>(l));
}
struct NoCopy // checks that nothing given as rvalue is copied in this scope
{
    const char* what;
    long        before = copies;
    ~NoCopy()
    {
        that(what, copies == before, "a value passed as rvalue is copied");
    }
};
using lexy::nullopt;
struct State
{
    int                      id;
    std::vector<std::string> log;
};

//=== adapters ===//
static void adapters(vh::Rng& r)
{
    int a = r.range(0, 999), b = r.range(0, 999), c = r.range(0, 999);
    {
        NoCopy n{"callback"};
        auto   cb = lexy::callback<Mo>([](Mo&& x) { return std::move(x); }, [](int x, Mo&& y) { return Mo(x * 1000 + y.get()); },
                                     [](nullopt) { return Mo(-1); }, [](Mo&& x, Mo&& y, Mo&& z) { return Mo(x.get() * 1000000 + y.get() * 1000 + z.get()); });
        is("callback", cb(Mo(a)), show(a));
        is("callback", cb(b, Mo(a)), show(b * 1000 + a));
        is("callback", cb(nullopt{}), "-1");
        is("callback", cb(Mo(a), Mo(b), Mo(c)), show(a * 1000000 + b * 1000 + c));
        auto both = lexy::callback(lexy::construct<Mo>, lexy::callback<Mo>([](Mo&& x, const char*) { return Mo(x.get() + 1); }));
        static_assert(std::is_same_v<decltype(both)::return_type, Mo>);
        is("callback-of-callbacks", both(Mo(a)), show(a));
        is("callback-of-callbacks", both(Mo(a), "x"), show(a + 1));
    }
    {
        NoCopy n{"callback_with_state"};
        State  st{c, {}};
        auto   cb = lexy::callback_with_state<Mo>(
            [&](State& s, Mo&& x, Mo&& y) {
                that("callback_with_state", &s == &st, "another state object");
                s.log.push_back("two");
                return Mo(x.get() * 1000 + y.get() + s.id);
            },
            [&](State& s, nullopt) {
                that("callback_with_state", &s == &st, "another state object");
                return Mo(s.id);
            });
        is("callback_with_state", cb[st](Mo(a), Mo(b)), show(a * 1000 + b + c));
        is("callback_with_state", cb[st](nullopt{}), show(c));
        const State cst{a, {}};
        auto        ccb = lexy::callback_with_state<int>([&](const State& s, int x) { return &s == &cst ? s.id * 1000 + x : -1; });
        is("callback_with_state", ccb[cst](b), show(a * 1000 + b));
        that("callback_with_state", st.log.size() == 1, "the callback was called more than once");
    }
    {
        NoCopy n{"callback(sink)"};
        auto   cb = lexy::callback(lexy::as_list<std::vector<Mo>>);
        is("callback(sink)", cb(Mo(a), Mo(b), Mo(c)), list({a, b, c}));
        is("callback(sink)", cb(), list({}));
        auto f = lexy::callback(lexy::fold<int>(a, [](int x, int y) { return x * 3 + y; }));
        is("callback(sink)", f(b, c), show((a * 3 + b) * 3 + c));
    }
    {
        struct S
        {
            Mo  m{0};
            int i = 0;
            int plus(int x) const
            {
                return i + x;
            }
            int set(int x) noexcept
            {
                return std::exchange(i, x);
            }
            int eat(int x) &&
            {
                return m.get() * 1000 + x;
            }
            Mo take(Mo&& o, int k)
            {
                return Mo(o.get() * 1000 + k + i);
            }
        };
        S s;
        s.i = a;
        s.m = Mo(c);
        is("mem_fn", lexy::mem_fn(&S::i)(s), show(a));
        is("mem_fn", lexy::mem_fn(&S::i)(&s), show(a));
        is("mem_fn", lexy::mem_fn(&S::plus)(s, b), show(a + b));
        is("mem_fn", lexy::mem_fn(&S::plus)(std::as_const(s), b), show(a + b));
        is("mem_fn", lexy::mem_fn(&S::set)(&s, b), show(a));
        is("mem_fn", lexy::mem_fn(&S::i)(s), show(b));
        is("mem_fn", lexy::mem_fn(&S::take)(s, Mo(a), c), show(a * 1000 + c + b));
        is("mem_fn", lexy::mem_fn(&S::eat)(std::move(s), a), show(c * 1000 + a));
        static_assert(std::is_same_v<decltype(lexy::mem_fn(&S::i))::return_type, int>);
        static_assert(std::is_same_v<decltype(lexy::mem_fn(&S::take))::return_type, Mo>);
    }
    {
        is("constant", lexy::constant(42)(), "42");
        is("forward", lexy::forward<Co>(Co(a)), show(a));
        Co  co(b);
        is("forward", lexy::forward<Co>(std::as_const(co)), show(b));
        is("forward", co, show(b));
        is("forward", lexy::forward<Mo>(Mo(a)), show(a));
        lexy::forward<void>();
        lexy::forward<void>(nullopt{});
        auto vs = lexy::forward<void>.sink();
        vs();
        std::move(vs).finish();
        auto u = std::uint32_t(r.next());
        auto f = lexy::bit_cast<float>(u);
        std::uint32_t back;
        std::memcpy(&back, &f, 4);
        that("bit_cast", back == u, "bytes differ");
        struct P
        {
            std::uint16_t x, y;
        };
        auto p = lexy::bit_cast<P>(u);
        std::memcpy(&back, &p, 4);
        that("bit_cast", back == u, "bytes differ");
    }
    {
        auto v = std::int64_t(r.next() >> r.range(2, 60));
        is("as_integer", lexy::as_integer<std::int64_t>(v), show(v));
        is("as_integer", lexy::as_integer<std::int64_t>(lexy::plus_sign{}, v), show(v));
        is("as_integer", lexy::as_integer<std::int64_t>(lexy::minus_sign{}, v), show(-v));
    }
}
static void objects(vh::Rng& r)
{
    int a = r.range(0, 99), b = r.range(0, 99), c = r.range(0, 99);
    struct Agg
    {
        Mo  x;
        int y;
        Mo  z;
    };
    struct Ctor
    {
        int how;
        Ctor(Mo&& m, int k) : how(m.get() * 1000 + k) {}
        Ctor(nullopt) : how(-1) {}
        Ctor(std::initializer_list<int> l) : how(int(l.size())) {}
    };
    {
        NoCopy n{"construct"};
        auto   g = lexy::construct<Agg>(Mo(a), b, Mo(c));
        is("construct", std::vector<int>{g.x.get(), g.y, g.z.get()}, list({a, b, c}));
        auto h = lexy::construct<Agg>(std::move(g));
        is("construct", std::vector<int>{h.x.get(), h.y, h.z.get()}, list({a, b, c}));
        is("construct", lexy::construct<Ctor>(Mo(a), b).how, show(a * 1000 + b));
        is("construct", lexy::construct<Ctor>(nullopt{}).how, "-1");
        is("construct", lexy::construct<Mo>(Mo(a)), show(a));
        is("construct", lexy::construct<Mo>(a), show(a));
        is("construct", lexy::construct<Mo>(), "0");
        lexy::construct<void>();
        // parentheses are preferred
        is("construct", lexy::construct<std::vector<int>>(a, b), show(std::vector<int>(std::size_t(a), b)));
        is("construct", lexy::construct<std::string>(a + 1, 'x'), std::string(std::size_t(a + 1), 'x'));
        is("construct", lexy::construct<std::vector<int>>(a, b, c), list({a, b, c}));
    }
    {
        Co co(a);
        is("construct", lexy::construct<Co>(std::as_const(co)), show(a));
        is("construct", co, show(a));
        auto p = lexy::new_<Co, std::unique_ptr<Co>>(std::as_const(co));
        is("new_", *p, show(a));
        is("new_", co, show(a));
    }
    {
        NoCopy n{"new_"};
        auto   p = lexy::new_<Agg, std::unique_ptr<Agg>>(Mo(a), b, Mo(c));
        is("new_", std::vector<int>{p->x.get(), p->y, p->z.get()}, list({a, b, c}));
        auto q = lexy::new_<Mo>(Mo(a));
        static_assert(std::is_same_v<decltype(q), Mo*>);
        is("new_", *q, show(a));
        delete q;
        auto s = lexy::new_<Ctor, std::shared_ptr<Ctor>>(Mo(a), c);
        is("new_", s->how, show(a * 1000 + c));
        auto v = lexy::new_<std::vector<int>, std::unique_ptr<std::vector<int>>>(a, b);
        is("new_", *v, show(std::vector<int>(std::size_t(a), b)));
    }
}

//=== bind ===//
struct Join
{
    using return_type = std::string;
    static std::string s(int i)
    {
        return std::to_string(i);
    }
    static std::string s(const Mo& m)
    {
        return "m" + std::to_string(m.get());
    }
    static std::string s(Mo&& m)
    {
        Mo x(std::move(m)); // consumes
        return "M" + std::to_string(x.get());
    }
    static std::string s(nullopt)
    {
        return "~";
    }
    static std::string s(const std::string& t)
    {
        return t;
    }
    static std::string s(const char* t)
    {
        return t;
    }
    static std::string s(State& st)
    {
        return "S" + std::to_string(st.id);
    }
    template <class... A>
    std::string operator()(A&&... args) const
    {
        std::string t = "(";
        ((t += s(std::forward<A>(args)) + ","), ...);
        return t + ")";
    }
};
struct IntJoin // every argument converted to int, to exercise default values
{
    using return_type = std::string;
    std::string operator()(int a, int b, int c) const
    {
        return Join{}(a, b, c);
    }
};
struct StSink
{
    struct S
    {
        std::string init;
        using return_type = std::string;
        template <class... A>
        void operator()(A&&... a)
        {
            init += Join{}(std::forward<A>(a)...);
        }
        std::string finish() &&
        {
            return std::move(init) + "]";
        }
    };
    template <class... A>
    S sink(A&&... a) const
    {
        return S{Join{}(std::forward<A>(a)...) + "["};
    }
};
static void bind(vh::Rng& r)
{
    using namespace lexy::placeholders;
    int  a = r.range(0, 99), b = r.range(0, 99), c = r.range(0, 99), d = r.range(0, 99);
    auto A = show(a), B = show(b), C = show(c), D = show(d);
    auto inc = [](int x) { return x + 1; };
    State st{d, {}};
    Join  j;
    is("bind", lexy::bind(j, _2, _1)(a, b), "(" + B + "," + A + ",)");
    is("bind", lexy::bind(j, _2, 7, _1, _2)(a, b), "(" + B + ",7," + A + "," + B + ",)");
    is("bind", lexy::bind(j)(a, b), "()");
    is("bind", lexy::bind(j, d)(a, b), "(" + D + ",)");
    is("bind", lexy::bind(j, _1, _3, _2)(Mo(a), Mo(b), Mo(c)), "(M" + A + ",M" + C + ",M" + B + ",)");
    is("bind", lexy::bind(j, _3 || d, _1)(a, b), "(" + D + "," + A + ",)");
    is("bind", lexy::bind(j, _2 || d, _1.or_(c))(a, b), "(" + B + "," + A + ",)");
    is("bind", lexy::bind(j, _2 || d, _1.or_(c))(nullopt{}, b), "(" + B + "," + C + ",)");
    is("bind", lexy::bind(j, _2 || d, _1.or_(c))(nullopt{}, nullopt{}), "(" + D + "," + C + ",)");
    is("bind", lexy::bind(j, _2 || d, _1)(nullopt{}, b), "(" + B + ",~,)");
    is("bind", lexy::bind(IntJoin{}, _1.or_default(), _2.or_default(), _3.or_default())(a, nullopt{}), "(" + A + ",0,0,)");
    is("bind", lexy::bind(j, _1.map(inc), _2.map(inc))(a, b), "(" + show(a + 1) + "," + show(b + 1) + ",)");
    is("bind", lexy::bind(j, _1.map(inc) || d, _2.or_(d).map(inc), _3.map(inc).or_(c))(a, nullopt{}), "(" + show(a + 1) + "," + D + "," + C + ",)");
    is("bind", lexy::bind(j, _1.map(inc) || d, _2.or_(d).map(inc), _3.map(inc).or_(c))(nullopt{}, b, c), "(" + D + "," + show(b + 1) + "," + show(c + 1) + ",)");
    is("bind", lexy::bind(IntJoin{}, _1.map(inc).or_default(), _2.map(inc).or_default(), _3.map(inc).or_default())(nullopt{}, b), "(0," + show(b + 1) + ",0,)");
    is("bind", lexy::bind(j, lexy::values)(a, b, c), "(" + A + "," + B + "," + C + ",)");
    is("bind", lexy::bind(j, 1, lexy::values, 2)(Mo(a), b, Mo(c)), "(1,M" + A + "," + B + ",M" + C + ",2,)");
    is("bind", lexy::bind(j, lexy::values, _2, lexy::values)(a, b), "(" + A + "," + B + "," + B + "," + A + "," + B + ",)");
    is("bind", lexy::bind(j, lexy::values)(), "()");
    is("bind", lexy::bind(j, "x", std::string("y"), _1)(Mo(a)), "(x,y,M" + A + ",)");
    is("bind-state", lexy::bind(j, lexy::parse_state, _2)[st](a, b), "(S" + D + "," + B + ",)");
    is("bind-state", lexy::bind(j, _1, lexy::parse_state.map(&State::id), lexy::values, lexy::parse_state)[st](a, Mo(b)),
       "(" + A + "," + D + "," + A + ",M" + B + ",S" + D + ",)");
    is("bind-state", lexy::bind(j, _1)[st](a), "(" + A + ",)");
    is("bind-state", lexy::bind(j, lexy::parse_state.map([&](State& s) { return &s == &st ? 1 : 0; }))[st](a), "(1,)");
    {
        struct M
        {
            int v;
            int twice() const
            {
                return 2 * v;
            }
        };
        is("bind-map", lexy::bind(j, _1.map(&M::v), _1.map(&M::twice))(M{a}), "(" + A + "," + show(2 * a) + ",)");
    }
    is("bind-nth", lexy::bind(j, lexy::nth_value<1>, lexy::nth_value<8>)(1, 2, 3, 4, 5, 6, 7, a), "(1," + A + ",)");
    {
        auto bs = lexy::bind_sink(StSink{}, a, "x");
        auto s  = bs.sink();
        s(Mo(b), c);
        s(d);
        is("bind_sink", std::move(s).finish(), "(" + A + ",x,)[(M" + B + "," + C + ",)(" + D + ",)]");
        auto t = lexy::bind_sink(StSink{}, lexy::parse_state, b, lexy::parse_state.map(&State::id)).sink(st);
        t();
        is("bind_sink", std::move(t).finish(), "(S" + D + "," + B + "," + D + ",)[()]");
        auto e = lexy::bind_sink(StSink{}).sink();
        is("bind_sink", std::move(e).finish(), "()[]");
        auto vs = lexy::bind_sink(lexy::as_list<std::vector<Mo, Al<Mo>>>, lexy::parse_state.map([](State& s) { return Al<Mo>(s.id); })).sink(st);
        vs(Mo(a));
        vs(b);
        auto v = std::move(vs).finish();
        is("bind_sink", v, list({a, b}));
        that("bind_sink", v.get_allocator().id == d, "another allocator");
    }
}

//=== composition ===//
static void compose(vh::Rng& r)
{
    int   a = r.range(0, 99), b = r.range(0, 99), c = r.range(0, 99);
    State st{c, {}};
    NoCopy n{"composition"};
    auto  add  = lexy::callback<Mo>([](Mo&& x, Mo&& y) { return Mo(x.get() * 100 + y.get()); });
    auto  neg  = lexy::callback<Mo>([](Mo&& x) { return Mo(-x.get()); });
    auto  wst  = lexy::callback_with_state<Mo>([](State& s, Mo&& x) {
        s.log.push_back("wst");
        return Mo(x.get() * 100 + s.id);
    });
    auto  wst2 = lexy::callback_with_state<Mo>([](State& s, Mo&& x) {
        s.log.push_back("wst2");
        return Mo(x.get() + 1000 * s.id);
    });
    is("composition", (add | neg)(Mo(a), Mo(b)), show(-(a * 100 + b)));
    is("composition", (add | neg | lexy::forward<Mo>)(Mo(a), Mo(b)), show(-(a * 100 + b)));
    is("composition", (add | (neg | neg))(Mo(a), Mo(b)), show(a * 100 + b));
    is("composition-state", (add | wst)[st](Mo(a), Mo(b)), show((a * 100 + b) * 100 + c));
    is("composition-state", (wst | neg)[st](Mo(a)), show(-(a * 100 + c)));
    is("composition-state", (wst | neg | wst2)[st](Mo(a)), show(-(a * 100 + c) + 1000 * c));
    is("composition-state", (neg | (wst2 | wst))[st](Mo(a)), show((-a + 1000 * c) * 100 + c));
    is("composition-calls", [&] {
        std::string s;
        for (auto& l : st.log)
            s += l + ",";
        return s;
    }(), "wst,wst,wst,wst2,wst2,wst,");
    // sinks
    auto feed = [&](auto sink) {
        int  k = r.range(0, 5);
        std::vector<int> v;
        for (int i = 0; i < k; ++i)
        {
            v.push_back(r.range(0, 99));
            sink(Mo(v.back()));
        }
        return std::pair(std::move(sink).finish(), v);
    };
    auto sum  = lexy::callback<Mo>([](std::vector<Mo>&& v) {
        long s = 7;
        for (auto& m : v)
            s = (s * 31 + m.get()) % 1000003;
        return Mo(int(s));
    });
    auto want = [](const std::vector<int>& v) {
        long s = 7;
        for (auto m : v)
            s = (s * 31 + m) % 1000003;
        return int(s);
    };
    auto cs       = lexy::as_list<std::vector<Mo>> >> sum;
    auto [got, v] = feed(cs.sink());
    is("sink>>callback", got, show(v));
    is("sink>>callback", cs(std::move(got)), show(want(v)));
    auto cs2        = lexy::as_list<std::vector<Mo>> >> sum | neg | wst;
    auto [got2, v2] = feed(cs2.sink());
    is("sink>>callback", cs2[st](std::move(got2)), show(-want(v2) * 100 + c));
    auto cs3        = lexy::as_list<std::vector<Mo>> >> (sum | neg);
    auto [got3, v3] = feed(cs3.sink());
    is("sink>>callback", cs3(std::move(got3)), show(-want(v3)));
    auto cs4 = StSink{} >> lexy::callback<std::string>([](std::string&& s) { return s + "!"; });
    auto s4  = cs4.sink(a, "k");
    s4(b);
    is("sink>>callback", cs4(std::move(s4).finish()), "(" + show(a) + ",k,)[(" + show(b) + ",)]!");
}

//=== containers ===//
template <class Cont>
std::vector<int> ints(const Cont& c)
{
    std::vector<int> r;
    for (auto& e : c)
        r.push_back(e.get());
    return r;
}
template <class Cont>
void lists(const char* what, vh::Rng& r)
{
    NoCopy n{what};
    int    a = r.range(0, 99), b = r.range(0, 99), c = r.range(0, 99);
    constexpr auto cb = lexy::as_list<Cont>;
    is(what, cb(), list({}));
    is(what, cb(nullopt{}), list({}));
    is(what, cb(Mo(a)), list({a}));
    is(what, cb(Mo(a), Mo(b), Mo(c)), list({a, b, c}));
    is(what, cb(a, Mo(b), c), list({a, b, c}));
    is(what, cb(cb(Mo(a), Mo(b))), list({a, b}));
    auto             s = cb.sink();
    std::vector<int> v;
    for (auto k = r.below(20); k > 0; --k)
    {
        v.push_back(r.range(0, 99));
        if (r.chance(1, 2))
            s(Mo(v.back()));
        else
            s(v.back()); // emplace
    }
    is(what, std::move(s).finish(), show(v));
}
template <template <class, class> class Cont>
void alloc_lists(const char* what, vh::Rng& r)
{
    using L  = Cont<Mo, Al<Mo>>;
    int a = r.range(0, 99), b = r.range(0, 99), id = r.range(1, 9), id2 = r.range(10, 19);
    constexpr auto cb = lexy::as_list<L>;
    auto check = [&](L&& l, std::vector<int> v, int i) {
        is(what, l, show(v));
        that(what, l.get_allocator().id == i, "allocator " + show(l.get_allocator().id) + ", expected " + show(i));
    };
    check(cb(Al<Mo>(id), Mo(a), Mo(b)), {a, b}, id);
    check(cb(Al<Mo>(id)), {}, id);
    check(cb(Mo(a)), {a}, 0);
    auto feed = [&](auto s, int i) {
        std::vector<int> v;
        for (auto k = r.below(9); k > 0; --k)
        {
            v.push_back(r.range(0, 99));
            s(Mo(v.back()));
        }
        check(std::move(s).finish(), v, i);
    };
    feed(cb.sink(), 0);
    feed(cb.sink(Al<Mo>(id)), id);
    State st{id2, {}};
    auto  by_state = cb.allocator([](State& s) { return Al<Mo>(s.id); });
    feed(by_state.sink(st), id2);
    check(by_state[st](Mo(a), Mo(b)), {a, b}, id2);
    check(by_state[st](nullopt{}), {}, id2);
    check(by_state[st](L(Al<Mo>(id))), {}, id);
    auto mem = cb.allocator([](const State& s) { return Al<Mo>(s.id + 1); });
    feed(mem.sink(st), id2 + 1);
    auto   direct = cb.allocator();
    Al<Mo> al(id);
    feed(direct.sink(al), id);
    check(direct[al](Mo(b)), {b}, id);
}
template <class Cont, bool Pairs>
void collections(const char* what, vh::Rng& r)
{
    NoCopy         n{what};
    constexpr auto cb = lexy::as_collection<Cont>;
    // the same insertions by hand
    auto same = [&](const Cont& got, const std::vector<std::pair<int, int>>& ins) {
        Cont want;
        for (auto [k, v] : ins)
            if constexpr (Pairs)
                want.emplace(Mo(k), Mo(v));
            else
                want.emplace(Mo(k));
        auto g = show(got), w = show(want);
        if constexpr (requires { want.hash_function(); })
        { // order is unspecified
            std::multiset<std::string> gs, ws;
            for (auto& e : got)
                gs.insert(show(e));
            for (auto& e : want)
                ws.insert(show(e));
            g = w = "";
            for (auto& e : gs)
                g += e + ",";
            for (auto& e : ws)
                w += e + ",";
        }
        is(what, g, w);
    };
    std::vector<std::pair<int, int>> ins;
    auto                             make = [&](int& k, int& v) {
        k = r.range(0, 12), v = r.range(0, 99);
        ins.push_back({k, v});
    };
    same(cb(), {});
    same(cb(nullopt{}), {});
    int k, v, k2, v2;
    make(k, v), make(k2, v2);
    if constexpr (Pairs)
    {
        using P = std::pair<const Mo, Mo>;
        same(cb(std::pair<Mo, Mo>(Mo(k), Mo(v)), std::pair<Mo, Mo>(Mo(k2), Mo(v2))), ins);
        (void)sizeof(P);
        same(cb(cb(std::pair<Mo, Mo>(Mo(k), Mo(v)), std::pair<Mo, Mo>(Mo(k2), Mo(v2)))), ins);
    }
    else
    {
        same(cb(Mo(k), Mo(k2)), ins);
        same(cb(cb(Mo(k), Mo(k2))), ins);
    }
    ins.clear();
    auto s = cb.sink();
    for (auto i = r.below(20); i > 0; --i)
    {
        make(k, v);
        if constexpr (Pairs)
        {
            if (r.chance(1, 2))
                s(std::pair<Mo, Mo>(Mo(k), Mo(v)));
            else
                s(Mo(k), Mo(v));
        }
        else if (r.chance(1, 2))
            s(Mo(k));
        else
            s(k);
    }
    same(std::move(s).finish(), ins);
}
static void alloc_sets(vh::Rng& r)
{
    using S = std::multiset<Mo, std::less<Mo>, Al<Mo>>;
    int  a = r.range(0, 99), b = r.range(0, 99), id = r.range(1, 9);
    auto srt   = [&] { return list({std::min(a, b), std::max(a, b)}); };
    auto check = [&](S&& l, const std::string& v, int i) {
        is("as_collection-allocator", l, v);
        that("as_collection-allocator", l.get_allocator().id == i, "another allocator");
    };
    constexpr auto cb = lexy::as_collection<S>;
    check(cb(Al<Mo>(id), Mo(a), Mo(b)), srt(), id);
    State st{id + 10, {}};
    auto  bs = cb.allocator([](State& s) { return Al<Mo>(s.id); });
    check(bs[st](Mo(a), Mo(b)), srt(), id + 10);
    check(bs[st](nullopt{}), list({}), id + 10);
    auto s = bs.sink(st);
    s(Mo(a)), s(Mo(b));
    check(std::move(s).finish(), srt(), id + 10);
    auto t = cb.sink(Al<Mo>(id));
    t(Mo(b)), t(a);
    check(std::move(t).finish(), srt(), id);
    Al<Mo> al(id);
    auto   u = cb.allocator().sink(al);
    u(Mo(b)), u(a);
    check(std::move(u).finish(), srt(), id);
}
template <class Cont>
Cont make(const std::vector<int>& v, std::size_t extra)
{
    Cont c;
    if constexpr (requires { c.reserve(1); })
        c.reserve(v.size() + extra);
    for (auto i : v)
        c.push_back(typename Cont::value_type(i));
    return c;
}
template <class Cont>
void concat(const char* what, vh::Rng& r)
{
    NoCopy n{what};
    auto   gen = [&] {
        std::vector<int> v(r.below(r.chance(1, 3) ? 20 : 4));
        for (auto& i : v)
            i = r.range(40, 99);
        return v;
    };
    auto a = gen(), b = gen(), c = gen();
    auto all = [](std::initializer_list<std::vector<int>> l) {
        std::vector<int> r;
        for (auto& v : l)
            r.insert(r.end(), v.begin(), v.end());
        auto c = make<Cont>(r, 0);
        if constexpr (std::is_same_v<Cont, std::string>)
            return c;
        else
            return show(c);
    };
    auto           m  = [&](const std::vector<int>& v) { return make<Cont>(v, r.below(9)); };
    constexpr auto cb = lexy::concat<Cont>;
    is(what, cb(nullopt{}), all({}));
    is(what, cb(m(a)), all({a}));
    is(what, cb(m(a), m(b)), all({a, b}));
    is(what, cb(m(a), m(b), m(c)), all({a, b, c}));
    auto             s = cb.sink();
    std::vector<int> total;
    for (auto k = r.below(6); k > 0; --k)
    {
        auto v = gen();
        total.insert(total.end(), v.begin(), v.end());
        s(m(v));
    }
    is(what, std::move(s).finish(), all({total}));
}
static void collect_fold(vh::Rng& r)
{
    std::vector<int> v;
    for (auto k = r.below(12); k > 0; --k)
        v.push_back(r.range(0, 99));
    std::vector<int> called;
    {
        NoCopy n{"collect"};
        auto   s = lexy::collect(lexy::callback([&](Mo&& m) { called.push_back(m.get()); }, [&](int i, int) { called.push_back(-i); })).sink();
        std::vector<int> want;
        for (auto i : v)
            if (i % 3)
                s(Mo(i)), want.push_back(i);
            else
                s(i, 0), want.push_back(-i);
        is("collect", std::move(s).finish(), show(int(v.size())));
        is("collect", called, show(want));
        using L = std::vector<Mo, Al<Mo>>;
        auto neg = lexy::callback<Mo>([](Mo&& m) { return Mo(-m.get()); }, [](int i, int k) { return Mo(i + k); });
        auto fill = [&](auto t, int id) {
            std::vector<int> w;
            for (auto i : v)
                if (i % 3)
                    t(Mo(i)), w.push_back(-i);
                else
                    t(i, 5), w.push_back(i + 5);
            L l = std::move(t).finish();
            is("collect", l, show(w));
            that("collect", l.get_allocator().id == id, "another allocator");
        };
        fill(lexy::collect<L>(neg).sink(), 0);
        fill(lexy::collect<L>(neg).sink(Al<Mo>(4)), 4);
    }
    {
        NoCopy n{"fold"};
        auto   init = r.range(0, 99);
        auto   op   = [](Mo&& acc, Mo&& x) { return Mo(int((acc.get() * 31L + x.get()) % 100003)); };
        auto   op2  = [](Mo&& acc, int x, int y) { return Mo(int((acc.get() * 7L + x - y) % 100003)); };
        auto   ip   = [](Mo& acc, Mo&& x) { acc = Mo(int((acc.get() * 31L + x.get()) % 100003)); };
        auto   ip2  = [](Mo& acc, int x, int y) { acc.v = *acc.heap = int((acc.get() * 7L + x - y) % 100003); };
        long   want = init;
        auto   feed = [&](auto s) {
            want = init;
            for (auto i : v)
                if (i % 2)
                    s(Mo(i)), want = (want * 31 + i) % 100003;
                else
                    s(i, 3), want = (want * 7 + i - 3) % 100003;
            return std::move(s).finish();
        };
        // initial value from a value, from a function
        auto x1 = feed(lexy::fold<Mo>(init, op, op2).sink());
        is("fold", x1, show(int(want)));
        auto x2 = feed(lexy::fold<Mo>([&] { return Mo(init); }, op, op2).sink());
        is("fold", x2, show(int(want)));
        auto x3 = feed(lexy::fold_inplace<Mo>(init, ip, ip2).sink());
        is("fold_inplace", x3, show(int(want)));
        auto f4 = lexy::fold_inplace<Mo>([&] { return Mo(init); }, ip, ip2);
        auto x4 = feed(f4.sink());
        is("fold_inplace", x4, show(int(want)));
        auto x5 = feed(f4.sink()); // again from the initial value
        is("fold_inplace", x5, show(int(want)));
        auto c = lexy::count.sink();
        for (auto i : v)
            if (i % 2)
                c(Mo(i));
            else if (i % 3)
                c();
            else
                c(1, 2, "x");
        is("count", std::move(c).finish(), show(v.size()));
    }
    {
        lexy::noop();
        lexy::noop(Mo(1), 2, nullopt{});
        auto s = lexy::noop.sink();
        s(Mo(1));
        s();
        std::move(s).finish();
    }
}

//=== strings ===//
template <class C>
std::string bytes(const std::basic_string<C>& s)
{
    std::string r;
    for (auto c : s)
        r += show(int(std::uint32_t(std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>(c)))) + " ";
    return r;
}
template <class C, class Enc>
void strings(const char* what, vh::Rng& r, bool ascii_only)
{
    using S  = std::basic_string<C>;
    using SA = std::basic_string<C, std::char_traits<C>, Al<C>>;
    using EC = typename Enc::char_type;
    auto cp = [&]() -> std::uint32_t {
        if (ascii_only || r.chance(1, 2))
            return std::uint32_t(r.below(128));
        static const std::uint32_t some[] = {0x80, 0xC4, 0xE4, 0x3A9, 0x7FF, 0x800, 0x1E9E, 0x2126, 0x212A, 0xFFFF, 0x10000, 0x10400, 0x1F600, 0x10FFFF};
        return r.chance(1, 2) ? some[r.below(sizeof(some) / 4)] : std::uint32_t(r.below(0xD800));
    };
    std::vector<std::uint32_t> cps(r.below(8));
    for (auto& c : cps)
        c = cp();
    auto enc = [](const std::vector<std::uint32_t>& v) {
        S s;
        for (auto c : v)
            s += u8::enc<C>(c);
        return s;
    };
    auto whole = enc(cps);
    auto cmp   = [&](const auto& got, const S& want) { is(what, bytes(S(got.begin(), got.end())), bytes(want)); };
    constexpr auto cb = lexy::as_string<S, Enc>;
    constexpr auto ca = lexy::as_string<SA, Enc>;
    std::basic_string<EC> units;
    for (auto c : whole)
        units.push_back(EC(c));
    vh::Exact<EC> ex(units.data(), units.size());
    constexpr bool points = !std::is_same_v<Enc, lexy::default_encoding>; // it cannot encode code points
    auto          in = lexy::string_input<Enc>(ex.data, ex.size);
    using L          = lexy::lexeme<lexy::input_reader<decltype(in)>>;
    auto          cut = r.below(units.size() + 1);
    L             head(ex.data, ex.data + cut), tail(ex.data + cut, ex.data + ex.size), all(ex.data, ex.data + ex.size);
    std::forward_list<EC> fl(units.begin(), units.end());
    auto          rin = lexy::range_input<Enc, typename std::forward_list<EC>::iterator>(fl.begin(), fl.end());
    using RL          = lexy::lexeme<lexy::input_reader<decltype(rin)>>;
    RL   rall(fl.begin(), fl.end());
    int  id = r.range(1, 9);
    cmp(cb(nullopt{}), S());
    cmp(cb(S(whole)), whole);
    cmp(cb(all), whole);
    cmp(cb(head), whole.substr(0, cut));
    cmp(cb(rall), whole);
    cmp(cb(ex.data, ex.data + ex.size), whole);
    cmp(cb(fl.begin(), fl.end()), whole);
    auto one = cp();
    if constexpr (points)
        cmp(cb(lexy::code_point(one)), enc({one}));
    auto alloc = [&](const SA& s, const S& want, int i) {
        cmp(s, want);
        that(what, s.get_allocator().id == i, "another allocator");
    };
    alloc(ca(Al<C>(id), all), whole, id);
    alloc(ca(Al<C>(id), rall), whole, id);
    alloc(ca(Al<C>(id), ex.data, ex.data + ex.size), whole, id);
    if constexpr (points)
        alloc(ca(Al<C>(id), lexy::code_point(one)), enc({one}), id);
    alloc(ca(all), whole, 0);
    // sink
    auto feed = [&](auto s) {
        S    want;
        for (auto k = r.below(7); k > 0; --k)
            switch (r.below(6))
            {
            case 0: {
                auto c = C(r.below(128));
                s(c);
                want += c;
                break;
            }
            case 1: {
                using X = typename decltype(s)::return_type;
                s(X(whole.begin(), whole.end()));
                want += whole;
                break;
            }
            case 2:
                s(ex.data, ex.data + ex.size);
                want += whole;
                break;
            case 3:
                s(tail);
                want += whole.substr(cut);
                break;
            case 4:
                s(rall);
                want += whole;
                break;
            case 5: {
                auto c = cp();
                if constexpr (points)
                    s(lexy::code_point(c)), want += enc({c});
                break;
            }
            }
        return std::pair(std::move(s).finish(), want);
    };
    auto [g1, w1] = feed(cb.sink());
    cmp(g1, w1);
    auto [g2, w2] = feed(ca.sink(Al<C>(id)));
    alloc(g2, w2, id);
    // case folding
    auto lower = [](S s) {
        for (auto& c : s)
            if (c >= 'A' && c <= 'Z')
                c = C(c + 32);
        return s;
    };
    constexpr auto fa = cb.case_folding(dsl::ascii::case_folding);
    cmp(fa(all), lower(whole));
    cmp(fa(S(whole)), lower(whole));
    cmp(fa(fl.begin(), fl.end()), lower(whole));
    if constexpr (points)
        cmp(fa(lexy::code_point(one)), lower(enc({one})));
    auto [g3, w3] = feed(fa.sink());
    cmp(g3, lower(w3));
    if constexpr (!std::is_same_v<Enc, lexy::default_encoding> && !std::is_same_v<Enc, lexy::ascii_encoding>)
    {
        auto folded = [&](std::vector<std::uint32_t> v) {
            for (auto& c : v)
                c = u8::fold(c);
            return enc(v);
        };
        constexpr auto fu = cb.case_folding(dsl::unicode::simple_case_folding);
        cmp(fu(all), folded(cps));
        cmp(fu(rall), folded(cps));
        cmp(fu(S(whole)), folded(cps));
        cmp(fu(lexy::code_point(one)), folded({one}));
        constexpr auto fua = ca.case_folding(dsl::unicode::simple_case_folding);
        cmp(fua(Al<C>(id), all), folded(cps));
        auto s = fu.sink();
        s(head);
        s(tail);
        cmp(std::move(s).finish(), folded(cps));
    }
}

//=== through a parse ===//
namespace grammar
{
struct Digit
{
    static constexpr auto rule  = dsl::capture(dsl::digit<>);
    static constexpr auto value = lexy::callback<Mo>([](auto lex) { return Mo(int(*lex.begin() - '0')); });
};
struct Agg
{
    Mo  a{-1};
    int n = -1;
    Mo  b{-2};
};
struct Order1 // members in another order than declared
{
    static constexpr auto rule  = (dsl::member<&Agg::b> = dsl::p<Digit>) + (LEXY_MEM(n) = dsl::integer<int>(dsl::n_digits<2>)) + (LEXY_MEM(a) = dsl::p<Digit>);
    static constexpr auto value = lexy::as_aggregate<Agg>;
};
struct Sink
{
    static constexpr auto rule = dsl::list((dsl::lit_c<'a'> >> (LEXY_MEM(a) = dsl::p<Digit>)) | (dsl::lit_c<'b'> >> (dsl::member<&Agg::b> = dsl::p<Digit>))
                                           | (dsl::lit_c<'n'> >> (LEXY_MEM(n) = dsl::integer<int>(dsl::n_digits<2>))));
    static constexpr auto value = lexy::as_aggregate<Agg>;
};
struct Comb
{
    static constexpr auto rule = dsl::combination(dsl::lit_c<'a'> >> (LEXY_MEM(a) = dsl::p<Digit>), dsl::lit_c<'b'> >> (LEXY_MEM(b) = dsl::p<Digit>),
                                                  dsl::lit_c<'n'> >> (LEXY_MEM(n) = dsl::integer<int>(dsl::n_digits<2>)));
    static constexpr auto value = lexy::as_aggregate<Agg>;
};
struct Extend // an aggregate, then further members
{
    static constexpr auto rule  = dsl::p<Sink> + dsl::lit_c<';'> + (LEXY_MEM(a) = dsl::p<Digit>) + dsl::opt(dsl::lit_c<'!'> >> dsl::nullopt);
    static constexpr auto value = lexy::callback<Agg>([](Agg&& g, auto m, Mo&& x, nullopt) { return lexy::as_aggregate<Agg>(std::move(g), m, std::move(x)); });
};
struct Opt
{
    static constexpr auto rule  = dsl::opt(dsl::lit_c<'o'> >> dsl::p<Order1>);
    static constexpr auto value = lexy::as_aggregate<Agg>;
};
struct ListThenCb
{
    static constexpr auto rule  = dsl::p<Digit> + dsl::opt(dsl::list(dsl::p<Digit>, dsl::sep(dsl::comma))) + dsl::lit_c<'.'> + dsl::p<Digit>;
    static constexpr auto value = lexy::as_list<std::vector<Mo>> >> lexy::callback<std::vector<Mo>>(
                                      [](Mo&& first, std::vector<Mo>&& l, Mo&& last) {
                                          l.insert(l.begin(), std::move(first));
                                          l.push_back(std::move(last));
                                          return std::move(l);
                                      },
                                      [](Mo&& first, nullopt, Mo&& last) {
                                          std::vector<Mo> l;
                                          l.push_back(Mo(-1));
                                          l.push_back(std::move(first));
                                          l.push_back(std::move(last));
                                          return l;
                                      });
};
} // namespace grammar
static std::string agg(const grammar::Agg& g)
{
    return show(std::vector<int>{g.a.get(), g.n, g.b.get()});
}
template <class P>
std::optional<typename decltype(P::value)::return_type> run(const std::string& s, bool& success)
{
    auto in  = lexy::string_input<lexy::utf8_char_encoding>(s.data(), s.size());
    auto res = lexy::parse<P>(in, lexy::noop);
    success  = res.is_success();
    if (!res.has_value())
        return std::nullopt;
    if (s.size() % 2)
        return std::move(res).value();
    auto moved = std::move(res);
    return std::move(moved).value();
}
static void parsed(vh::Rng& r)
{
    NoCopy n{"parse"};
    bool   ok;
    int    x = r.range(0, 9), y = r.range(10, 99), z = r.range(0, 9);
    auto   text  = show(x) + show(y) + show(z);
    auto   cutat = r.chance(1, 3) ? r.below(text.size()) : text.size();
    auto   g1    = run<grammar::Order1>(text.substr(0, cutat), ok);
    that("as_aggregate", ok == (cutat == text.size()) && g1.has_value() == ok, "unexpected status");
    if (g1)
        is("as_aggregate", agg(*g1), list({z, y, x}));
    if (auto g = run<grammar::Opt>(r.chance(1, 2) ? "o" + text : "", ok))
        is("as_aggregate", agg(*g), g->n == -1 ? list({-1, -1, -2}) : list({z, y, x}));
    // sink: the last value of each member remains
    int         a = -1, nn = -1, b = -2;
    std::string s;
    for (auto k = r.range(1, 6); k > 0; --k)
        switch (r.below(3))
        {
        case 0: a = r.range(0, 9), s += "a" + show(a); break;
        case 1: b = r.range(0, 9), s += "b" + show(b); break;
        case 2: nn = r.range(10, 99), s += "n" + show(nn); break;
        }
    if (auto g = run<grammar::Sink>(s, ok))
        is("as_aggregate.sink", agg(*g), list({a, nn, b}));
    else
        that("as_aggregate.sink", false, "no value for " + s);
    if (auto g = run<grammar::Extend>(s + ";" + show(x), ok))
        is("as_aggregate(aggregate, member)", agg(*g), list({x, nn, b}));
    else
        that("as_aggregate(aggregate, member)", false, "no value for " + s);
    std::vector<std::string> parts{"a" + show(x), "b" + show(z), "n" + show(y)};
    for (int i = 2; i > 0; --i)
        std::swap(parts[std::size_t(i)], parts[r.below(std::uint64_t(i + 1))]);
    if (auto g = run<grammar::Comb>(parts[0] + parts[1] + parts[2], ok))
        is("as_aggregate combination", agg(*g), list({x, y, z}));
    else
        that("as_aggregate combination", false, "no value");
    // list and callback
    std::vector<int> v;
    std::string      t = show(x);
    v.push_back(x);
    int k = r.range(0, 5);
    for (int i = 0; i < k; ++i)
    {
        v.push_back(r.range(0, 9));
        t += (i ? "," : "") + show(v.back());
    }
    v.push_back(z);
    if (!k)
        v.insert(v.begin(), -1);
    t += "." + show(z);
    auto cutl = r.chance(1, 4) ? r.below(t.size()) : t.size();
    if (auto g = run<grammar::ListThenCb>(t.substr(0, cutl), ok))
        is("sink>>callback", *g, show(v));
    else
        that("sink>>callback", cutl < t.size(), "no value for " + t);
}
// parse results
struct CoP
{
    static constexpr auto rule  = dsl::integer<int>(dsl::digits<>) + dsl::try_(dsl::lit_c<'.'>);
    static constexpr auto value = lexy::construct<Co>;
};
struct VoidP
{
    static constexpr auto rule  = dsl::digits<> + dsl::try_(dsl::lit_c<'.'>);
    static constexpr auto value = lexy::noop;
};
static void results(vh::Rng& r)
{
    int  x     = r.range(0, 999);
    auto how   = r.below(3);
    auto s     = how == 0 ? show(x) + "." : how == 1 ? show(x) : std::string("z");
    auto errs  = lexy::collect<std::vector<int>>(lexy::callback<int>([&](auto& ctx, auto& e) { return int(e.position() - ctx.input().reader().position()); }));
    auto in    = lexy::string_input<lexy::utf8_char_encoding>(s.data(), s.size());
    auto check = [&](const auto& res, const char* what) {
        that(what, bool(res) == (how == 0) && res.is_success() == (how == 0) && res.is_error() == (how != 0) && res.is_recovered_error() == (how == 1)
                       && res.is_fatal_error() == (how == 2) && res.error_count() == (how ? 1u : 0u),
             "wrong status for " + s);
        is(what, res.errors(), how == 0 ? list({}) : how == 1 ? list({int(s.size())}) : list({0}));
    };
    auto val = [&](const auto& res, const char* what) {
        that(what, res.has_value() == (how != 2), "has_value");
        if (res.has_value())
            is(what, res.value(), show(x));
    };
    auto res = lexy::parse<CoP>(in, errs);
    check(res, "result");
    val(res, "result");
    auto moved = std::move(res);
    check(moved, "result move");
    val(moved, "result move");
    if (moved.has_value())
    {
        NoCopy n{"result move"};
        auto   v = std::move(moved).value();
        is("result move", v, show(x));
    }
    auto e = std::move(moved).errors();
    is("result errors", e, how == 0 ? list({}) : how == 1 ? list({int(s.size())}) : list({0}));
    auto vres = lexy::parse<VoidP>(in, errs);
    check(vres, "void result");
    auto vvres = lexy::validate<VoidP>(in, errs);
    check(vvres, "validate result");
    auto vm = std::move(vvres);
    check(vm, "validate result move");
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        vh::Rng r(vh::opt.seed * 7919 + std::uint64_t(vh::opt.shard) * 104729);
        auto    total = vh::cases(14000, 800000);
        for (std::uint64_t i = 0; i < total && !vh::too_many_violations(); ++i)
        {
            current.clear();
            auto group = [&](const char* name, auto f) {
                vh::begin_case(std::string("callbacks: ") + name + " iteration " + std::to_string(i));
                f(r);
                that(name, live == 0, std::to_string(live) + " values are leaked");
                live = 0;
                that(name, blocks.empty(), "memory of an allocator is leaked");
            };
            group("adapters", adapters);
            group("objects", objects);
            group("bind", bind);
            group("composition", compose);
            group("as_list", [](vh::Rng& r) {
                lists<std::vector<Mo>>("as_list<vector>", r);
                lists<std::list<Mo>>("as_list<list>", r);
                lists<std::deque<Mo>>("as_list<deque>", r);
                alloc_lists<std::vector>("as_list<vector> with allocator", r);
                alloc_lists<std::list>("as_list<list> with allocator", r);
                alloc_lists<std::deque>("as_list<deque> with allocator", r);
            });
            group("as_collection", [](vh::Rng& r) {
                collections<std::set<Mo>, false>("as_collection<set>", r);
                collections<std::multiset<Mo>, false>("as_collection<multiset>", r);
                collections<std::map<Mo, Mo>, true>("as_collection<map>", r);
                collections<std::multimap<Mo, Mo>, true>("as_collection<multimap>", r);
                collections<std::unordered_map<Mo, Mo, HashW>, true>("as_collection<unordered_map>", r);
                alloc_sets(r);
            });
            group("concat", [](vh::Rng& r) {
                concat<std::vector<Mo>>("concat<vector>", r);
                concat<std::list<Mo>>("concat<list>", r);
                concat<std::string>("concat<string>", r);
                concat<std::deque<Mo>>("concat<deque>", r);
            });
            group("collect and fold", collect_fold);
            group("as_string", [](vh::Rng& r) {
                strings<char, lexy::default_encoding>("as_string<string, default>", r, true);
                strings<char, lexy::ascii_encoding>("as_string<string, ascii>", r, true);
                strings<char, lexy::utf8_char_encoding>("as_string<string, utf8>", r, false);
                strings<char8_t, lexy::utf8_encoding>("as_string<u8string>", r, false);
                strings<char16_t, lexy::utf16_encoding>("as_string<u16string>", r, false);
                strings<char32_t, lexy::utf32_encoding>("as_string<u32string>", r, false);
            });
            group("parse", parsed);
            group("results", results);
            vh::observe(current);
        }
    });
}
