// Slot management shared by all drivers: placement in the arena, canaries, relocation.
#pragma once
#include "../core.hpp"
#include "../elem.hpp"

#include <cstring>
#include <iterator>

namespace sim
{
// A size or index beyond a limit below 2^31, often far beyond it: what narrowing or wrapping arithmetic mistakes
// for a small one
inline std::size_t extreme(std::size_t v, u32 sel)
{
    const std::size_t one = 1;
    switch (sel % 16)
    {
    case 0: return ~std::size_t{0};
    case 1: return ~std::size_t{0} - v % 4;
    case 2: return (one << 32) + v;
    case 3: return (one << 31) + v;
    case 4: return (one << 16) + v;
    case 5: return (one << 8) + v;
    case 6: return one << 63;
    case 7: return (one << 63) + v;
    case 8: return one << 32;
    case 9: return (one << 32) + v % 3;
    default: return v;
    }
}

enum class G : u8
{
    Strong,  // no effect
    Basic,   // valid container, every element live
};

template <class C>
struct Slot
{
    int id = 0;
    int half = 0;
    bool live = false;
    char* base() const { return block_base(id, half) + GUARD; }
    C* ptr() const { return std::launder(reinterpret_cast<C*>(base())); }
    C& operator*() const { return *ptr(); }
    C* operator->() const { return ptr(); }

    static_assert(sizeof(C) + 2 * GUARD + 64 < BLOCK, "container does not fit the arena block");

    void prepare()  // fresh memory with arbitrary content, canaries around it
    {
        char* b = block_base(id, half);
        std::memset(b, 0xC7, GUARD);
        fill_garbage(b + GUARD, sizeof(C));
        std::memset(b + GUARD + sizeof(C), 0xC7, GUARD);
    }
    void check_canary() const
    {
        const unsigned char* b = reinterpret_cast<const unsigned char*>(block_base(id, half));
        for (std::size_t i = 0; i < GUARD; ++i)
        {
            if (b[i] != 0xC7 || b[GUARD + sizeof(C) + i] != 0xC7)
            {
                fail("memory", "memory outside the container object was overwritten");
            }
        }
    }
    void relocate()  // crash/restart: only the bytes of the object survive, at another address
    {
        char* from = base();
        char* oldb = block_base(id, half);
        half ^= 1;
        prepare();
        std::memcpy(base(), from, sizeof(C));
        carry_image(base(), sizeof(C));
        std::memset(oldb, 0xEE, sizeof(C) + 2 * GUARD);
        SIM_COUNT("fault.crash_restart_relocation");
        W.faults_fired++;
    }
};

// Looking at a container (const members, and those which [container.requirements.dataraces] counts as const) does not
// write to it.
struct ReadOnly
{
    const char* at;
    std::size_t n;
    u64 h;
    ReadOnly(const char* p, std::size_t len)
      : at(watch_on ? p : nullptr)
      , n(len)
      , h(at != nullptr ? hash_bytes(at, n) : 0)
    {
    }
    ~ReadOnly()
    {
        if (at != nullptr && hash_bytes(at, n) != h)
        {
            fail("shared", "reading the container, after %s, writes to it", W.cur->info != nullptr ? W.cur->info->name : "start");
        }
    }
    ReadOnly(const ReadOnly&) = delete;
};

// an element, read from inside the object's bytes
template <class T, class C>
MV read_image(const Slot<C>& s, const std::byte* at)
{
    const char* p = reinterpret_cast<const char*>(at);
    if (p < s.base() || p + sizeof(T) > s.base() + sizeof(C))
    {
        fail("image", "the raw view points outside the object");
    }
    if (reinterpret_cast<std::uintptr_t>(p) % alignof(T) != 0)
    {
        fail("image", "the raw view points to a misaligned element");
    }
    T t{};
    std::memcpy(static_cast<void*>(std::addressof(t)), p, sizeof(T));
    return ET<T>::get(t);
}

// Random walk of one iterator over [b, e), which denotes n elements: every step form the iterator offers
// (pre/post increment and decrement, jumps, offsets, differences, orderings, conversions) lands where the
// reference index says. same(it, i) tells whether it designates element i.
template <class It, class CIt, class Same>
void iter_walk(It b, It e, CIt cb, CIt ce, std::size_t n, u64 seed, const char* what, Same&& same)
{
    Rng r(seed);
    It it = b;
    std::size_t pos = 0;
    const auto at = [&](const auto& x, std::size_t i) -> bool
    {
        if (i == n)
        {
            return x == e && !(x != e);
        }
        return x != e && !(x == e) && same(x, i);
    };
    const u32 steps = 4 + r.below(12);
    for (u32 k = 0; k < steps; ++k)
    {
        const char* form = "?";
        bool ok = true;
        switch (r.below(12))
        {
        case 0:
            form = "++it";
            if (pos < n)
            {
                It& ref = ++it;
                ++pos;
                ok = std::addressof(ref) == std::addressof(it);
            }
            break;
        case 1:
            form = "it++";
            if (pos < n)
            {
                const It old = it++;
                ok = at(old, pos) && !(old == it);
                ++pos;
            }
            break;
        case 2:
            form = "--it";
            if constexpr (requires { --it; })
            {
                if (pos > 0)
                {
                    It& ref = --it;
                    --pos;
                    ok = std::addressof(ref) == std::addressof(it);
                }
            }
            break;
        case 3:
            form = "it--";
            if constexpr (requires { it--; })
            {
                if (pos > 0)
                {
                    const It old = it--;
                    ok = at(old, pos) && !(old == it);
                    --pos;
                }
            }
            break;
        case 4:
            form = "it += d";
            if constexpr (requires { it += 1; })
            {
                const std::size_t to = r.below(static_cast<u32>(n + 1));
                it += static_cast<std::ptrdiff_t>(to) - static_cast<std::ptrdiff_t>(pos);
                pos = to;
            }
            break;
        case 5:
            form = "it -= d";
            if constexpr (requires { it -= 1; })
            {
                const std::size_t to = r.below(static_cast<u32>(n + 1));
                it -= static_cast<std::ptrdiff_t>(pos) - static_cast<std::ptrdiff_t>(to);
                pos = to;
            }
            break;
        case 6:
            form = "it + d, d + it, it - d, it[d]";
            if constexpr (requires { it + 1; })
            {
                const std::size_t to = r.below(static_cast<u32>(n + 1));
                const std::ptrdiff_t d = static_cast<std::ptrdiff_t>(to) - static_cast<std::ptrdiff_t>(pos);
                ok = at(it + d, to) && at(d + it, to) && at(it - (-d), to);
                if constexpr (std::is_lvalue_reference_v<decltype(it[d])>)
                {
                    if (to < n)
                    {
                        ok = ok && std::addressof(it[d]) == std::addressof(*(it + d));
                    }
                }
            }
            break;
        case 7:
            form = "differences and order";
            if constexpr (requires { it - it; it < it; })
            {
                const std::size_t to = r.below(static_cast<u32>(n + 1));
                const It o = b + static_cast<std::ptrdiff_t>(to);
                const CIt co = cb + static_cast<std::ptrdiff_t>(to);
                const std::ptrdiff_t d = static_cast<std::ptrdiff_t>(to) - static_cast<std::ptrdiff_t>(pos);
                ok = (o - it) == d && (it - o) == -d && (it < o) == (0 < d) && (it <= o) == (0 <= d) &&
                     (it > o) == (d < 0) && (it >= o) == (d <= 0) && (it == o) == (d == 0) && (it != o) == (d != 0) &&
                     (co - it) == d && (it - co) == -d && (it < co) == (0 < d) && (it <= co) == (0 <= d) &&
                     (it > co) == (d < 0) && (co > it) == (0 < d) && (it == co) == (d == 0);
            }
            break;
        case 8:
            form = "conversion to const_iterator";
            {
                const CIt ci = it;
                CIt cj{};
                cj = it;
                ok = ci == it && it == ci && cj == ci && (ci == ce) == (pos == n) && (it == cb) == (pos == 0);
                if (pos < n)
                {
                    ok = ok && same(ci, pos);
                }
            }
            break;
        case 9:
            form = "copy and assignment";
            {
                It cpy = it;
                It asg{};
                asg = cpy;
                It mv = std::move(cpy);
                ok = at(asg, pos) && at(mv, pos) && asg == it;
                if (pos < n)
                {
                    ++asg;
                    ok = ok && asg != it && at(asg, pos + 1) && at(it, pos);
                }
            }
            break;
        case 10:
            form = "std::next / std::distance";
            {
                const std::size_t to = pos + r.below(static_cast<u32>(n - pos + 1));
                const It o = std::next(it, static_cast<std::ptrdiff_t>(to - pos));
                ok = at(o, to) && std::distance(it, o) == static_cast<std::ptrdiff_t>(to - pos);
                if constexpr (requires { --it; })
                {
                    ok = ok && at(std::prev(o, static_cast<std::ptrdiff_t>(to - pos)), pos);
                }
            }
            break;
        default:
            form = "operator->";
            if constexpr (requires { it.operator->(); })
            {
                if constexpr (std::is_pointer_v<decltype(it.operator->())> &&
                              std::is_lvalue_reference_v<decltype(*it)>)
                {
                    if (pos < n)
                    {
                        ok = it.operator->() == std::addressof(*it);
                    }
                }
            }
            break;
        }
        if (!ok || !at(it, pos))
        {
            fail("content", "%s: after the step '%s' the iterator is not at position %zu of %zu", what, form, pos, n);
        }
        tr(pos);
    }
    SIM_COUNT("probe.iterator_walks");
}

// mutable/const x forward/reverse iterators of a container
template <class C, class Same>
void iter_walk_all(C& c, std::size_t n, u32 pick, u64 seed, Same&& same)
{
    const C& cc = c;
    switch (pick % 4)
    {
    case 0: iter_walk(c.begin(), c.end(), cc.begin(), cc.end(), n, seed, "iterator", same); break;
    case 1: iter_walk(cc.begin(), cc.end(), cc.cbegin(), cc.cend(), n, seed, "const_iterator", same); break;
    default:
        if constexpr (requires { c.rbegin(); })
        {
            const auto rsame = [&](const auto& it, std::size_t i)
            {
                if (!same(it, n - 1 - i))
                {
                    return false;
                }
                const auto base = it.base();  // one past the designated element
                if (i == 0)
                {
                    return base == cc.end();
                }
                return base != cc.end() && same(base, n - i);
            };
            if (pick % 4 == 2)
            {
                iter_walk(c.rbegin(), c.rend(), cc.rbegin(), cc.rend(), n, seed, "reverse_iterator", rsame);
            }
            else
            {
                iter_walk(cc.rbegin(), cc.rend(), cc.crbegin(), cc.crend(), n, seed, "const_reverse_iterator", rsame);
            }
        }
        else
        {
            iter_walk(c.begin(), c.end(), cc.cbegin(), cc.cend(), n, seed, "iterator", same);
        }
        break;
    }
}
// Whatever an operation does, the constructions, assignments and destructions of elements it performs stay linear
// in the number of elements involved.
inline void linear_work(std::size_t involved)
{
    const OpCtx* c = W.cur;
    if (c->threw || c->unwound)
    {
        return;
    }
    u32 work = 0;
    for (Ev e : {Ev::Copy, Ev::CopyAssign, Ev::Move, Ev::MoveAssign, Ev::Default, Ev::Value, Ev::Destroy})
    {
        work += c->evc[static_cast<int>(e)];
    }
    if (work > 8 * involved + 64)
    {
        fail("progress", "%s performed %u element operations on %zu elements", c->info->name, work, involved);
    }
    SIM_COUNT("probe.linear_work_checked");
}
}  // namespace sim
