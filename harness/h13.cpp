// Buffers, files, stdin, argv and memory resources against plain vectors of code units.
#include "vh.hpp"
#include <lexy/action/match.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/argv_input.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/file.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <algorithm>
#include <array>
#include <fcntl.h>
#include <forward_list>
#include <list>
#include <memory>
#include <optional>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
namespace dsl = lexy::dsl;
//=== fault injection: file.cpp is linked with --wrap ===//
static int     fault_kind  = 0; // 1 open 2 lseek 3 read 4 short read 5 mmap 6 interrupted read
static int     fault_after = 0; // calls of that kind before it happens
static long    mapped      = 0;
static long    opened      = 0;
static bool    injected    = false;
static bool    inject(int k)
{
    if (fault_kind != k || fault_after-- != 0)
        return false;
    return injected = true;
}
extern "C"
{
    int     __real_open(const char*, int, ...);
    int     __real_close(int);
    off_t   __real_lseek(int, off_t, int);
    ssize_t __real_read(int, void*, size_t);
    void*   __real_mmap(void*, size_t, int, int, int, off_t);
    int     __real_munmap(void*, size_t);
    int     __wrap_open(const char* p, int f, ...)
    {
        if (inject(1))
            return errno = EIO, -1;
        auto r = __real_open(p, f, 0600);
        opened += r >= 0;
        return r;
    }
    int __wrap_close(int fd)
    {
        auto r = __real_close(fd);
        opened -= r == 0;
        return r;
    }
    off_t __wrap_lseek(int fd, off_t o, int w)
    {
        if (inject(2))
            return errno = EIO, off_t(-1);
        return __real_lseek(fd, o, w);
    }
    ssize_t __wrap_read(int fd, void* p, size_t n)
    {
        if (inject(3))
            return errno = EIO, -1;
        if (n > 1 && inject(4))
            return __real_read(fd, p, n / 2);
        if (inject(6))
            return errno = EINTR, -1;
        return __real_read(fd, p, n);
    }
    void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o)
    {
        if (inject(5))
            return errno = ENOMEM, MAP_FAILED;
        auto r = __real_mmap(a, n, p, f, fd, o);
        mapped += r != MAP_FAILED;
        return r;
    }
    int __wrap_munmap(void* a, size_t n)
    {
        --mapped;
        return __real_munmap(a, n);
    }
}
//=== memory resources ===//
struct Block
{
    std::size_t bytes, align;
    int         group;
    char*       base;
};
static std::map<void*, Block> blocks;
static std::uint64_t          n_alloc, n_dealloc;
static int                    last_resource = -1; // the resource that allocated last
static void* track_alloc(int group, int id, std::size_t bytes, std::size_t align)
{
    if (align == 0 || (align & (align - 1)))
        vh::violation("resource-alignment", "allocate() with alignment " + std::to_string(align));
    // aligned as requested and not more, and ends with the allocation
    auto base = static_cast<char*>(std::malloc(bytes + align));
    auto p    = base + align;
    if (!blocks.insert({p, {bytes, align, group, base}}).second)
        vh::violation("resource", "allocator bookkeeping");
    ++n_alloc;
    last_resource = id;
    std::memset(p, 0xA5, bytes);
    return p;
}
static void track_free(int group, void* p, std::size_t bytes, std::size_t align)
{
    auto it = blocks.find(p);
    if (it == blocks.end())
        return vh::violation("resource-unknown", "deallocate() of a pointer that is not (or no longer) allocated");
    auto& b = it->second;
    if (b.bytes != bytes || b.align != align)
        vh::violation("resource-size", "deallocate(" + std::to_string(bytes) + ", " + std::to_string(align) + ") of memory allocated as (" + std::to_string(b.bytes) + ", " + std::to_string(b.align) + ")");
    if (b.group != group)
        vh::violation("resource-mismatch", "memory is returned to a different resource");
    std::free(b.base);
    blocks.erase(it);
    ++n_dealloc;
}
struct Res
{
    int   group, id;
    void* allocate(std::size_t n, std::size_t a)
    {
        return track_alloc(group, id, n, a);
    }
    void deallocate(void* p, std::size_t n, std::size_t a)
    {
        track_free(group, p, n, a);
    }
    friend bool operator==(const Res& a, const Res& b)
    {
        return a.group == b.group;
    }
};
struct EmptyRes
{
    void* allocate(std::size_t n, std::size_t a)
    {
        return track_alloc(100, 100, n, a);
    }
    void deallocate(void* p, std::size_t n, std::size_t a)
    {
        track_free(100, p, n, a);
    }
    friend bool operator==(EmptyRes, EmptyRes)
    {
        return true;
    }
};
static Res resources[4] = {{0, 0}, {0, 1}, {1, 2}, {2, 3}}; // the first two are interchangeable
static void no_blocks(const char* what)
{
    if (!blocks.empty())
    {
        vh::violation("resource-leak", std::string(what) + ": " + std::to_string(blocks.size()) + " blocks were never returned");
        blocks.clear();
    }
}
//=== contents ===//
template <class C>
std::basic_string<C> random_units(vh::Rng& rng, std::size_t n)
{
    std::basic_string<C> s(n, C());
    for (auto& c : s)
        c = rng.chance(1, 3) ? C('a' + rng.below(26)) : rng.chance(1, 20) ? C(0) : rng.chance(1, 30) ? C(-1) : C(rng.next());
    return s;
}
static std::size_t random_size(vh::Rng& rng)
{
    return rng.chance(1, 6) ? rng.below(200) : rng.below(26);
}
template <class Enc, class Input, class C>
void check_reader(const char* what, const Input& in, const std::basic_string<C>& want)
{
    auto        r    = in.reader();
    auto        mark = r.current();
    std::size_t i    = 0;
    for (int round = 0; round < 2; ++round)
    {
        i = 0;
        while (r.peek() != Enc::eof() && i <= want.size())
        {
            if (i == want.size() || r.peek() != Enc::to_int_type(typename Enc::char_type(want[i])))
                return vh::violation("reader", std::string(what) + ": the reader gives the wrong code unit at " + std::to_string(i) + " of " + std::to_string(want.size()));
            r.bump();
            ++i;
        }
        if (i < want.size() && Enc::to_int_type(typename Enc::char_type(want[i])) != Enc::eof())
            return vh::violation("reader", std::string(what) + ": the reader ends after " + std::to_string(i) + " of " + std::to_string(want.size()));
        r.reset(mark);
    }
    vh::count("readers");
}
template <class Enc, class M, class C>
void check_buffer(const char* what, const lexy::buffer<Enc, M>& b, const std::basic_string<C>& want)
{
    if (b.size() != want.size())
        return vh::violation("buffer-size", std::string(what) + ": size " + std::to_string(b.size()) + ", expected " + std::to_string(want.size()));
    if (b.size() && std::memcmp(b.data(), want.data(), want.size() * sizeof(C)) != 0)
        return vh::violation("buffer-contents", std::string(what) + ": the contents of the " + std::to_string(want.size()) + " code units differ");
    check_reader<Enc>(what, b, want);
}
struct Many
{
    static constexpr auto rule = dsl::while_(dsl::ascii::alpha_digit / dsl::ascii::space) + dsl::until(dsl::lit_c<'!'>).or_eof();
};
//=== programs over a pool of buffers ===//
template <class Enc, class M>
struct Pool
{
    using C = typename Enc::char_type;
    using S = std::basic_string<C>;
    using B = lexy::buffer<Enc, M>;
    static constexpr bool stateful = std::is_same_v<M, Res>;
    struct Slot
    {
        std::optional<B> b;
        S                s;
        bool             known = true;
        int              res   = -1;
    };
    std::array<Slot, 5> slots;
    vh::Rng&            rng;
    std::string         log;
    explicit Pool(vh::Rng& r) : rng(r) {}
    M* pick(int& id)
    {
        if constexpr (stateful)
        {
            id = int(rng.below(4));
            return &resources[id];
        }
        else
        {
            id = std::is_void_v<M> ? -1 : 100;
            return nullptr;
        }
    }
    void make(Slot& t)
    {
        t.b.reset();
        int  id;
        auto r  = pick(id);
        t.s     = random_units<C>(rng, random_size(rng));
        t.known = true;
        t.res   = id;
        auto  p = t.s.data();
        auto  n = t.s.size();
        auto  k = rng.below(10);
        log += "make" + std::to_string(k) + "(" + std::to_string(n) + ") ";
        last_resource = -1;
        bool                 allocates = true;
        std::unique_ptr<char[]> raw(new char[n * sizeof(C) + 1]); // exactly as large, and unaligned
        std::memcpy(raw.get() + 1, p, n * sizeof(C));
        vh::Exact<C> ex(p, n);
        switch (k)
        {
        case 0:
            t.b.emplace(ex.data, n, r);
            break;
        case 1:
            t.b.emplace(ex.data, ex.data + n, r);
            break;
        case 2:
            t.b.emplace(t.s, r);
            break;
        case 3: {
            typename B::builder bld(n, r);
            if (bld.size() != n)
                vh::violation("builder", "builder of " + std::to_string(n) + " has size " + std::to_string(bld.size()));
            // filled backwards: every position can be written before finish
            for (auto i = n; i-- > 0;)
                bld.data()[i] = p[i];
            t.b.emplace(std::move(bld).finish());
            break;
        }
        case 4: {
            constexpr auto e = LEXY_IS_LITTLE_ENDIAN ? lexy::encoding_endianness::little : lexy::encoding_endianness::big;
            if constexpr (std::is_void_v<M>)
                t.b.emplace(lexy::make_buffer_from_raw<Enc, e>(raw.get() + 1, n * sizeof(C)));
            else
                t.b.emplace(lexy::make_buffer_from_raw<Enc, e>(raw.get() + 1, n * sizeof(C), r));
            break;
        }
        case 5: {
            std::forward_list<C> l(t.s.begin(), t.s.end());
            // stops at the end of the input, which the input may contain
            while (t.s.find(C(-1)) != S::npos && Enc::to_int_type(C(-1)) == Enc::eof())
                t.s.resize(t.s.find(C(-1)));
            if constexpr (std::is_void_v<M>)
                t.b.emplace(lexy::make_buffer_from_input(lexy::range_input<Enc, decltype(l.cbegin())>(l.cbegin(), l.cend())));
            else
                t.b.emplace(lexy::make_buffer_from_input(lexy::range_input<Enc, decltype(l.cbegin())>(l.cbegin(), l.cend()), r));
            break;
        }
        case 6:
            if constexpr (std::is_void_v<M>)
                t.b.emplace(lexy::make_buffer_from_input(lexy::string_input<Enc>(ex.data, n)));
            else
                t.b.emplace(lexy::make_buffer_from_input(lexy::string_input<Enc>(ex.data, n), r));
            break;
        case 7:
            if constexpr (Enc::template is_secondary_char_type<char>() || Enc::template is_secondary_char_type<unsigned char>())
            {
                using Sec = std::conditional_t<Enc::template is_secondary_char_type<char>(), char, unsigned char>;
                if (rng.chance(1, 2))
                    t.b.emplace(reinterpret_cast<const Sec*>(ex.data), n, r);
                else
                    t.b.emplace(reinterpret_cast<const Sec*>(ex.data), reinterpret_cast<const Sec*>(ex.data) + n, r);
                break;
            }
            [[fallthrough]];
        case 8:
            t.b.emplace(r);
            t.s.clear();
            allocates = false;
            break;
        default: {
            B tmp(ex.data, n, r);
            t.b.emplace(tmp);
        }
        }
        if (stateful && allocates && last_resource != id)
            vh::violation("resource-wrong", "construction uses resource " + std::to_string(last_resource) + " instead of " + std::to_string(id));
    }
    void step()
    {
        auto  i = rng.below(slots.size()), j = rng.below(slots.size());
        auto &a = slots[i], &b = slots[j];
        auto  names = std::to_string(i) + "," + std::to_string(j) + " ";
        auto  op    = rng.below(12);
        auto  pre   = log.size();
        if (!a.b || op == 0)
        {
            log += std::to_string(i) + "=";
            make(a);
        }
        else
            switch (op)
            {
            case 1: // copy construction
                if (i == j)
                    break;
                log += "copy" + names;
                b.b.emplace(*a.b);
                b.s = a.s, b.known = a.known, b.res = a.res;
                break;
            case 2: { // copy with another resource
                if (i == j)
                    break;
                int  id;
                auto r = pick(id);
                log += "copyres" + names;
                last_resource = -1;
                b.b.emplace(*a.b, r);
                if (stateful && last_resource != id)
                    vh::violation("resource-wrong", "copying with a resource uses " + std::to_string(last_resource) + " instead of " + std::to_string(id));
                b.s = a.s, b.known = a.known, b.res = id;
                break;
            }
            case 3: // move construction
                if (i == j)
                    break;
                log += "move" + names;
                b.b.emplace(std::move(*a.b));
                b.s = a.s, b.known = a.known, b.res = a.res;
                a.known = false;
                break;
            case 4: // copy assignment, maybe to itself
                if (!b.b)
                    break;
                log += "assign" + names;
                last_resource = -1;
                *b.b          = *a.b;
                if (stateful && last_resource != -1 && resources[last_resource].group != resources[b.res].group)
                    vh::violation("resource-propagated", "copy assignment allocates from resource " + std::to_string(last_resource) + " instead of " + std::to_string(b.res));
                b.s = a.s, b.known = a.known;
                break;
            case 5: // move assignment
                if (!b.b || i == j)
                    break;
                log += "massign" + names;
                last_resource = -1;
                *b.b          = std::move(*a.b);
                if (stateful && last_resource != -1 && resources[last_resource].group != resources[b.res].group)
                    vh::violation("resource-propagated", "move assignment allocates from resource " + std::to_string(last_resource) + " instead of " + std::to_string(b.res));
                b.s = a.s, b.known = a.known;
                a.known = false;
                break;
            case 6: // swap
                if (!b.b || i == j)
                    break;
                log += "swap" + names;
                std::swap(*a.b, *b.b);
                std::swap(a.s, b.s);
                std::swap(a.known, b.known);
                break;
            case 7: { // release and adopt
                if (!a.known)
                    break;
                log += "adopt" + names;
                auto size = a.b->size();
                auto data = std::move(*a.b).release();
                if constexpr (stateful)
                    a.b.emplace(B::adopt(data, size, &resources[a.res]));
                else
                    a.b.emplace(B::adopt(data, size));
                break;
            }
            case 8:
                log += "destroy" + names;
                a.b.reset();
                break;
            case 9: // into a new buffer through the generic input interface
                if (i == j)
                    break;
                if constexpr (std::is_void_v<M>)
                    b.b.emplace(lexy::make_buffer_from_input(*a.b));
                else
                {
                    int  id;
                    auto r = pick(id);
                    b.b.emplace(lexy::make_buffer_from_input(*a.b, r));
                    b.res = id;
                }
                log += "input" + names;
                b.s = a.s, b.known = a.known;
                break;
            default: // parse something with it
                lexy::match<Many>(*a.b);
            }
        if (log.size() != pre)
            for (auto& s : slots)
                if (s.b)
                {
                    if (!s.known) // moved from: only has to be usable
                        s.s.assign(s.b->data() ? s.b->data() : nullptr, s.b->size());
                    check_buffer<Enc>("buffer", *s.b, s.s);
                }
        vh::count("buffer_operations");
    }
};
template <class Enc, class M>
void pool(vh::Rng& rng, const char* name)
{
    auto steps = 5 + rng.below(30);
    auto na = n_alloc, nd = n_dealloc;
    {
        Pool<Enc, M> p(rng);
        vh::begin_case(std::string("buffers ") + name);
        for (std::uint64_t i = 0; i < steps && !vh::too_many_violations(); ++i)
        {
            p.step();
            vh::begin_case(std::string("buffers ") + name + ": " + p.log);
        }
        vh::observe(std::string(name) + p.log);
        if (rng.chance(1, 300))
            vh::sample(std::string(name) + ": " + p.log);
    }
    no_blocks(name);
    vh::count("resource_allocations", n_alloc - na);
    vh::count("resource_deallocations", n_dealloc - nd);
}
//=== bytes to code units ===//
template <class C>
std::basic_string<C> assemble(const std::string& bytes, bool little)
{
    std::basic_string<C> r;
    for (std::size_t i = 0; i + sizeof(C) <= bytes.size(); i += sizeof(C))
    {
        std::uint64_t v = 0;
        for (std::size_t k = 0; k < sizeof(C); ++k)
            v |= std::uint64_t((unsigned char)bytes[i + k]) << 8 * (little ? k : sizeof(C) - 1 - k);
        r += C(v);
    }
    return r;
}
template <class Enc, lexy::encoding_endianness E>
std::basic_string<typename Enc::char_type> expected(const std::string& bytes)
{
    using C               = typename Enc::char_type;
    constexpr bool utf8   = std::is_same_v<Enc, lexy::utf8_encoding> || std::is_same_v<Enc, lexy::utf8_char_encoding>;
    constexpr bool utf16  = std::is_same_v<Enc, lexy::utf16_encoding>, utf32 = std::is_same_v<Enc, lexy::utf32_encoding>;
    if (E != lexy::encoding_endianness::bom || !(utf8 || utf16 || utf32))
        return assemble<C>(bytes, E == lexy::encoding_endianness::little);
    auto starts = [&](const char* p, std::size_t n) { return bytes.substr(0, n) == std::string(p, n); };
    if (utf8)
        return assemble<C>(bytes.substr(starts("\xEF\xBB\xBF", 3) ? 3 : 0), false);
    if (utf16)
        return starts("\xFF\xFE", 2) ? assemble<C>(bytes.substr(2), true) : assemble<C>(bytes.substr(starts("\xFE\xFF", 2) ? 2 : 0), false);
    return starts("\xFF\xFE\0\0", 4) ? assemble<C>(bytes.substr(4), true) : assemble<C>(bytes.substr(starts("\0\0\xFE\xFF", 4) ? 4 : 0), false);
}
static std::string random_bytes(vh::Rng& rng, std::size_t n)
{
    static const std::string boms[] = {"\xEF\xBB\xBF", "\xFF\xFE", "\xFE\xFF", std::string("\xFF\xFE\0\0", 4), std::string("\0\0\xFE\xFF", 4)};
    std::string              s;
    if (rng.chance(2, 3))
        for (auto k = rng.range(1, 2); k > 0; --k)
        {
            auto b = boms[rng.below(5)];
            if (rng.chance(1, 4))
                b[rng.below(b.size())] = char(rng.next());
            if (rng.chance(1, 8))
                b.resize(rng.below(b.size()));
            s += b;
        }
    while (s.size() < n)
        s += rng.chance(1, 4) ? "\xFF\xFE\0\xEF\xBB\xBF"[rng.below(6)] : char(rng.next());
    s.resize(n);
    return s;
}
template <class Enc, lexy::encoding_endianness E>
struct From
{
    using C = typename Enc::char_type;
    static void raw(vh::Rng& rng)
    {
        auto size = (rng.chance(1, 10) ? rng.below(300) : rng.below(14)) * sizeof(C);
        auto data = random_bytes(rng, size);
        vh::begin_case("make_buffer_from_raw " + vh::esc(data));
        auto                    off = rng.below(4);
        std::unique_ptr<char[]> mem(new char[size + off]);
        std::memcpy(mem.get() + off, data.data(), size);
        auto want = expected<Enc, E>(data);
        check_buffer<Enc>("make_buffer_from_raw", lexy::make_buffer_from_raw<Enc, E>(mem.get() + off, size), want);
        auto& r = resources[rng.below(4)];
        {
            auto b = lexy::make_buffer_from_raw<Enc, E>(mem.get() + off, size, &r);
            check_buffer<Enc>("make_buffer_from_raw with resource", b, want);
            if (last_resource != r.id)
                vh::violation("resource-wrong", "make_buffer_from_raw does not use the given resource");
        }
        no_blocks("make_buffer_from_raw");
        vh::observe(data + char(sizeof(C)) + char(E));
        vh::count("raw_buffers");
    }
    // returns whether the file could be read
    static bool file(const std::string& path, const std::string& data, bool may_fail, vh::Rng& rng)
    {
        auto want = expected<Enc, E>(data);
        if (rng.chance(1, 2))
        {
            auto r = lexy::read_file<Enc, E>(path.c_str());
            if (!r)
            {
                if (!may_fail)
                    vh::violation("file-error", "reading an existing file of " + std::to_string(data.size()) + " bytes fails with " + std::to_string(int(r.error())));
                return false;
            }
            check_buffer<Enc>("read_file", r.buffer(), want);
            auto moved = std::move(r).buffer();
            check_buffer<Enc>("moved file buffer", moved, want);
        }
        else
        {
            auto& res = resources[rng.below(4)];
            auto  r   = lexy::read_file<Enc, E>(path.c_str(), &res);
            if (!r)
            {
                if (!may_fail)
                    vh::violation("file-error", "reading an existing file of " + std::to_string(data.size()) + " bytes fails with " + std::to_string(int(r.error())));
                return false;
            }
            if (!data.empty() && last_resource != res.id)
                vh::violation("resource-wrong", "read_file does not use the given resource");
            check_buffer<Enc>("read_file with resource", r.buffer(), want);
        }
        return true;
    }
    static int standard_input(const std::string& data, vh::Rng& rng)
    {
        auto want = expected<Enc, E>(data);
        if (rng.chance(1, 2))
        {
            auto r = lexy::read_stdin<Enc, E>();
            if (!r)
                return int(r.error());
            check_buffer<Enc>("read_stdin", r.buffer(), want);
        }
        else
        {
            auto& res = resources[rng.below(4)];
            auto  r   = lexy::read_stdin<Enc, E>(&res);
            if (!r)
                return int(r.error());
            if (!data.empty() && last_resource != res.id)
                vh::violation("resource-wrong", "read_stdin does not use the given resource");
            check_buffer<Enc>("read_stdin with resource", r.buffer(), want);
        }
        return 0;
    }
};
template <class F>
void with_encoding(std::uint64_t k, const F& f)
{
    using enum lexy::encoding_endianness;
    switch (k % 15)
    {
    case 0:
        return f(From<lexy::utf8_encoding, bom>{});
    case 1:
        return f(From<lexy::utf8_char_encoding, bom>{});
    case 2:
        return f(From<lexy::utf16_encoding, bom>{});
    case 3:
        return f(From<lexy::utf32_encoding, bom>{});
    case 4:
        return f(From<lexy::utf8_encoding, little>{});
    case 5:
        return f(From<lexy::utf16_encoding, little>{});
    case 6:
        return f(From<lexy::utf32_encoding, little>{});
    case 7:
        return f(From<lexy::utf16_encoding, big>{});
    case 8:
        return f(From<lexy::utf32_encoding, big>{});
    case 9:
        return f(From<lexy::utf8_char_encoding, big>{});
    case 10:
        return f(From<lexy::default_encoding, bom>{});
    case 11:
        return f(From<lexy::ascii_encoding, bom>{});
    case 12:
        return f(From<lexy::byte_encoding, bom>{});
    case 13:
        return f(From<lexy::byte_encoding, little>{});
    default:
        return f(From<lexy::default_encoding, big>{});
    }
}
//=== files ===//
static std::string dir;
static void        write_file(const std::string& path, const std::string& data)
{
    auto f = std::fopen(path.c_str(), "wb");
    if (!f || std::fwrite(data.data(), 1, data.size(), f) != data.size() || std::fclose(f) != 0)
        std::abort();
}
static std::size_t file_size(vh::Rng& rng)
{
    static const std::size_t edges[] = {0, 1000, 1024, 2000, 4000, 4096, 8000, 8192, 16000, 32000, 32768, 64000, 65536, 100000};
    if (rng.chance(1, 2))
        return rng.below(60);
    auto e = edges[rng.below(14)];
    auto d = rng.below(9);
    return e + d < 4 ? 0 : e + d - 4;
}
static void files(vh::Rng& rng)
{
    auto size = file_size(rng) / 4 * 4;
    auto path = dir + "/file";
    with_encoding(rng.next(), [&](auto from) {
        using From    = decltype(from);
        auto data     = random_bytes(rng, sizeof(typename From::C) == 1 ? size + rng.below(4) : size);
        vh::begin_case("read_file of " + std::to_string(data.size()) + " bytes " + vh::esc(data.substr(0, 20)));
        write_file(path, data);
        auto fds  = opened;
        auto maps = mapped;
        bool ok   = From::file(path, data, false, rng);
        vh::count("files_read", ok);
        // the same again with a failing system call
        injected    = false;
        fault_kind  = rng.range(1, 6);
        fault_after = rng.chance(1, 3) ? 1 : 0;
        vh::begin_case("read_file of " + std::to_string(data.size()) + " bytes with fault " + std::to_string(fault_kind) + "/" + std::to_string(fault_after));
        ok         = From::file(path, data, true, rng);
        fault_kind = 0;
        if (injected)
            vh::count(ok ? "faults_survived" : "faults_reported");
        else if (!ok)
            vh::violation("file-error", "reading the file fails without a reason");
        if (opened != fds)
            vh::violation("file-descriptor", "read_file does not close the file");
        if (mapped != maps)
            vh::violation("file-mapping", "read_file does not unmap the file");
        vh::observe("file" + std::to_string(data.size()) + "." + std::to_string(injected));
    });
    no_blocks("read_file");
}
static void bad_files(vh::Rng& rng)
{
    auto err = [&](const std::string& path) {
        vh::begin_case("read_file of " + path);
        auto r = lexy::read_file<lexy::utf8_encoding>(path.c_str());
        if (r)
        {
            vh::violation("file-error-missing", "reading " + path + " succeeds");
            return lexy::file_error::_success;
        }
        vh::count("file_errors");
        return r.error();
    };
    auto want = [&](const std::string& path, lexy::file_error e) {
        if (auto got = err(path); got != e)
            vh::violation("file-error-kind", "reading " + path + " gives error " + std::to_string(int(got)) + ", expected " + std::to_string(int(e)));
    };
    auto fds = opened;
    want(dir + "/missing", lexy::file_error::file_not_found);
    want(dir + "/missing/dir/file", lexy::file_error::file_not_found);
    want(dir + "/plain/file", lexy::file_error::file_not_found);
    want(dir + "/loop", lexy::file_error::file_not_found);
    want(dir + "/dangling", lexy::file_error::file_not_found);
    want("", lexy::file_error::file_not_found);
    want(dir + "/" + std::string(300 + rng.below(5000), 'x'), lexy::file_error::os_error);
    err(dir); // a directory: some error
    if (!lexy::read_file((dir + "/link").c_str()))
        vh::violation("file-error", "reading through a symbolic link fails");
    if (opened != fds)
        vh::violation("file-descriptor", "read_file does not close the file after an error");
    // as another user
    auto pid = ::fork();
    if (pid == 0)
    {
        int r = 2;
        if (::chdir(dir.c_str()) == 0 && (::setgid(65534), ::setuid(65534) == 0) && ::access("plain", R_OK) != 0)
        {
            auto f = lexy::read_file("plain");
            r      = f ? 3 : f.error() == lexy::file_error::permission_denied ? 0 : 4;
        }
        ::_exit(r);
    }
    int st = 0;
    ::waitpid(pid, &st, 0);
    vh::begin_case("read_file without permission");
    if (WIFEXITED(st) && WEXITSTATUS(st) >= 3)
        vh::violation("file-permission", WEXITSTATUS(st) == 3 ? "a file without permission is read" : "missing permission is not reported as such");
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        vh::count("permission_errors");
}
//=== stdin ===//
static void standard_input(vh::Rng& rng)
{
    auto size = file_size(rng) / 4 * 4;
    auto mode = rng.below(8);
    with_encoding(rng.next(), [&](auto from) {
        auto data = random_bytes(rng, size);
        vh::begin_case("read_stdin of " + std::to_string(size) + " bytes, mode " + std::to_string(mode));
        int  fd[2];
        int  err = 0;
        bool may_fail = false;
        if (mode < 5)
        {
            if (::pipe(fd) != 0)
                std::abort();
            ::dup2(fd[0], 0);
            ::close(fd[0]);
            std::clearerr(stdin);
            auto        s = rng.next();
            std::thread writer([&, s] {
                vh::Rng     r(s);
                std::size_t done = 0;
                while (done < data.size())
                {
                    auto n = std::min<std::size_t>(data.size() - done, r.chance(1, 2) ? 1 + r.below(40) : 1 + r.below(5000));
                    auto k = ::write(fd[1], data.data() + done, n);
                    if (k <= 0)
                        break;
                    done += std::size_t(k);
                    if (r.chance(1, 20))
                        std::this_thread::yield();
                }
                ::close(fd[1]);
            });
            err = from.standard_input(data, rng);
            writer.join();
        }
        else if (mode == 5)
        {
            write_file(dir + "/stdin", data);
            auto f = ::open((dir + "/stdin").c_str(), O_RDONLY);
            ::dup2(f, 0);
            ::close(f);
            std::clearerr(stdin);
            err = from.standard_input(data, rng);
        }
        else if (mode == 6)
        {
            // the data, and then an error instead of the end
            if (::pipe(fd) != 0)
                std::abort();
            data.resize(std::min<std::size_t>(data.size(), 60000));
            if (::write(fd[1], data.data(), data.size()) != ssize_t(data.size()))
                std::abort();
            ::fcntl(fd[0], F_SETFL, O_NONBLOCK);
            ::dup2(fd[0], 0);
            ::close(fd[0]);
            std::clearerr(stdin);
            may_fail = true;
            err      = from.standard_input(data, rng);
            ::close(fd[1]);
        }
        else
        {
            auto f = ::open(dir.c_str(), O_RDONLY);
            ::dup2(f, 0);
            ::close(f);
            std::clearerr(stdin);
            may_fail = true;
            err      = from.standard_input("", rng);
        }
        if (may_fail && err != int(lexy::file_error::os_error))
            vh::violation("stdin-error", "an error of stdin is reported as " + std::to_string(err));
        else if (!may_fail && err != 0)
            vh::violation("stdin-error", "reading stdin fails with " + std::to_string(err));
        vh::count(may_fail ? "stdin_errors" : "stdin_read");
        vh::observe("stdin" + std::to_string(size) + "." + std::to_string(mode));
        auto null = ::open("/dev/null", O_RDONLY);
        ::dup2(null, 0);
        ::close(null);
        std::clearerr(stdin);
    });
    no_blocks("read_stdin");
}
//=== argv ===//
struct ArgvSplit // any characters and separators
{
    static constexpr auto rule = dsl::while_(dsl::argv_separator | dsl::ascii::character) + dsl::eof;
};
struct ArgvFirst // up to the first separator
{
    static constexpr auto rule = dsl::while_(dsl::ascii::character - dsl::lit_c<'\0'>) + dsl::argv_separator;
};
template <class Enc>
void argv_inputs(vh::Rng& rng)
{
    auto                           argc = 1 + int(rng.below(6));
    std::vector<std::unique_ptr<char[]>> store;
    std::vector<char*>             argv;
    std::basic_string<typename Enc::char_type> want;
    std::string                    d;
    for (int i = 0; i < argc; ++i)
    {
        std::string s;
        for (auto k = rng.chance(1, 4) ? 0 : rng.below(8); k > 0; --k)
            s += char(1 + rng.below(127));
        store.emplace_back(new char[s.size() + 1]);
        std::memcpy(store.back().get(), s.c_str(), s.size() + 1);
        argv.push_back(store.back().get());
        if (i > 1)
            want += typename Enc::char_type(0);
        if (i > 0)
            want.append(s.begin(), s.end());
        d += "[" + vh::esc(s) + "]";
    }
    if (rng.chance(1, 10))
        argc = 0, argv.clear(), want.clear(), d = "none";
    argv.push_back(nullptr);
    vh::begin_case("argv " + d);
    vh::observe(d);
    auto              av = argv.data();
    auto              in = lexy::argv_input<Enc>(argc, av);
    check_reader<Enc>("argv", in, want);
    check_reader<Enc>("default argv", lexy::argv_input<Enc>(), decltype(want)());
    auto b = lexy::argv_begin(argc, av), e = lexy::argv_end(argc, av);
    if (std::basic_string<typename Enc::char_type>(b, e) != want)
        vh::violation("argv-range", "iterating from argv_begin to argv_end gives different characters");
    std::basic_string<typename Enc::char_type> back;
    for (auto it = e; it != b;)
        back += typename Enc::char_type(*--it);
    std::reverse(back.begin(), back.end());
    if (back != want)
        vh::violation("argv-backward", "iterating backwards gives different characters");
    std::size_t n = 0;
    for (auto it = b; it != lexy::argv_sentinel{}; ++it, ++n)
        if (n >= want.size())
            break;
    if (n != want.size())
        vh::violation("argv-sentinel", "the sentinel is reached after " + std::to_string(n) + " of " + std::to_string(want.size()));
    check_buffer<Enc>("buffer of argv", lexy::make_buffer_from_input(in), want);
    if (!lexy::match<ArgvSplit>(in))
        vh::violation("argv-match", "arguments and separators are not matched");
    if (lexy::match<ArgvFirst>(in) != (argc > 2))
        vh::violation("argv-separator", "argv_separator matches wrongly");
    if (argc > 2)
    {
        // part of the range
        auto k    = rng.below(want.size() + 1);
        auto part = lexy::argv_input<Enc>(std::next(b, long(k)), e);
        check_reader<Enc>("part of argv", part, want.substr(k));
    }
    vh::count("argv_inputs");
}
//=== trees and byte order marks ===//
struct Item
{
    static constexpr auto rule = dsl::recurse_branch<struct Nested> | dsl::token(dsl::while_one(dsl::ascii::alpha));
};
struct Nested
{
    static constexpr auto rule = dsl::square_bracketed.opt_list(dsl::recurse_branch<Item>, dsl::sep(dsl::comma));
};
struct TreeRoot
{
    static constexpr auto whitespace = dsl::ascii::space;
    static constexpr auto rule       = dsl::p<Nested> + dsl::eof;
};
static void trees(vh::Rng& rng)
{
    using In   = lexy::buffer<lexy::utf8_encoding>;
    using Tree = lexy::parse_tree_for<In, void, Res>;
    std::array<std::optional<Tree>, 3> t;
    std::vector<std::unique_ptr<In>>   ins;
    std::string                        log;
    for (int step = 0; step < 8; ++step)
    {
        auto  i = rng.below(3), j = rng.below(3);
        auto  op = rng.below(6);
        log += std::to_string(op) + "." + std::to_string(i) + std::to_string(j) + " ";
        vh::begin_case("trees with a memory resource: " + log);
        if (!t[i])
            t[i].emplace(&resources[rng.below(4)]);
        switch (op)
        {
        case 0:
            t[i]->clear();
            break;
        case 1:
            t[i].reset();
            break;
        case 2:
            if (i != j)
                t[j].emplace(std::move(*t[i]));
            break;
        case 3:
            if (i != j && t[j])
                *t[j] = std::move(*t[i]);
            break;
        default: {
            std::string s = "[";
            for (auto k = rng.chance(1, 4) ? rng.below(400) : rng.below(20); k > 0; --k)
                s += "[],,ab  "[rng.below(8)];
            if (rng.chance(1, 2))
                for (auto d = std::count(s.begin(), s.end(), '[') - std::count(s.begin(), s.end(), ']'); d > 0; --d)
                    s += ']';
            ins.emplace_back(new In(s.data(), s.size()));
            (void)lexy::parse_as_tree<TreeRoot>(*t[i], *ins.back(), lexy::noop);
            vh::count("resource_trees");
        }
        }
    }
    for (auto& x : t)
        x.reset();
    no_blocks("parse tree");
}
template <class R>
struct BomRule
{
    static constexpr auto rule = R{};
};
template <class Enc, lexy::encoding_endianness E>
void bom_rule(const std::string& data, const std::string& bom)
{
    vh::Exact<unsigned char> ex(reinterpret_cast<const unsigned char*>(data.data()), data.size());
    lexy::string_input<lexy::byte_encoding> in(ex.data, ex.size);
    if (lexy::match<BomRule<std::decay_t<decltype(dsl::bom<Enc, E>)>>>(in) != (data.substr(0, bom.size()) == bom))
        vh::violation("bom-rule", "bom matches wrongly");
    vh::count("bom_rules");
}
static void boms(vh::Rng& rng)
{
    auto data = random_bytes(rng, rng.below(6));
    vh::begin_case("bom " + vh::esc(data));
    using enum lexy::encoding_endianness;
    bom_rule<lexy::utf8_encoding, little>(data, "\xEF\xBB\xBF");
    bom_rule<lexy::utf8_encoding, big>(data, "\xEF\xBB\xBF");
    bom_rule<lexy::utf8_char_encoding, bom>(data, "\xEF\xBB\xBF");
    bom_rule<lexy::utf16_encoding, little>(data, "\xFF\xFE");
    bom_rule<lexy::utf16_encoding, big>(data, "\xFE\xFF");
    bom_rule<lexy::utf32_encoding, little>(data, std::string("\xFF\xFE\0\0", 4));
    bom_rule<lexy::utf32_encoding, big>(data, std::string("\0\0\xFE\xFF", 4));
    bom_rule<lexy::ascii_encoding, big>(data, "");
}
template <class Enc>
void pools(std::uint64_t k, vh::Rng& rng, const char* name)
{
    if (k % 4 == 0)
        pool<Enc, void>(rng, name);
    else if (k % 4 == 1)
        pool<Enc, EmptyRes>(rng, name);
    else
        pool<Enc, Res>(rng, name);
}
int main(int argc, char** argv)
{
    return vh::run(argc, argv, [] {
        vh::Rng rng(vh::opt.seed * 64 + std::uint64_t(vh::opt.shard) + 13);
        dir = vh::opt.scratch + "/files" + std::to_string(::getpid());
        ::mkdir(dir.c_str(), 0755);
        write_file(dir + "/plain", "abc");
        ::chmod((dir + "/plain").c_str(), 0600);
        if (::symlink("loop", (dir + "/loop").c_str()) || ::symlink("nothing", (dir + "/dangling").c_str()) || ::symlink("plain", (dir + "/link").c_str()))
            std::abort();
        auto n = vh::cases(120000, 4000000);
        for (std::uint64_t i = 0; i < n && !vh::too_many_violations(); ++i)
        {
            switch (i % 8)
            {
            case 0:
                pools<lexy::utf8_encoding>(rng.next(), rng, "utf8");
                break;
            case 1:
                pools<lexy::default_encoding>(rng.next(), rng, "default");
                break;
            case 2:
                switch (rng.below(5))
                {
                case 0:
                    pools<lexy::utf16_encoding>(rng.next(), rng, "utf16");
                    break;
                case 1:
                    pools<lexy::utf32_encoding>(rng.next(), rng, "utf32");
                    break;
                case 2:
                    pools<lexy::ascii_encoding>(rng.next(), rng, "ascii");
                    break;
                case 3:
                    pools<lexy::byte_encoding>(rng.next(), rng, "byte");
                    break;
                default:
                    pools<lexy::utf8_char_encoding>(rng.next(), rng, "utf8char");
                }
                break;
            case 3:
            case 4:
                with_encoding(rng.next(), [&](auto from) { from.raw(rng); });
                boms(rng);
                break;
            case 5:
                switch (rng.below(3))
                {
                case 0:
                    argv_inputs<lexy::default_encoding>(rng);
                    break;
                case 1:
                    argv_inputs<lexy::utf8_encoding>(rng);
                    break;
                default:
                    argv_inputs<lexy::utf8_char_encoding>(rng);
                }
                break;
            case 6:
                if (rng.chance(1, 3))
                    files(rng);
                else if (rng.chance(1, 6))
                    standard_input(rng);
                else if (i % 1000 == 6)
                    bad_files(rng);
                break;
            default:
                trees(rng);
            }
        }
        for (auto f : {"/plain", "/loop", "/dangling", "/link", "/file", "/stdin"})
            ::unlink((dir + f).c_str());
        ::rmdir(dir.c_str());
    });
}
