// Work done inside the library, counted in executed basic blocks (the unit is compiled with
// -fsanitize-coverage=trace-pc; block copies count by their length). Large containers, so that a step too many per
// element shows: an operation of constant or logarithmic cost stays under a bound far below the number of elements,
// every other operation under a multiple of the elements it involves.
#pragma once
#include "../core.hpp"

#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"

#include <deque>
#include <map>
#include <optional>

namespace sim
{
namespace fc = fixed_containers;
extern u64 work_done;
extern u64 work_limit;
extern bool work_on;
extern const char* work_what;

// elements: a number, and one with operations of its own
template <int TAG>
struct WNum
{
    int v;
    auto operator<=>(const WNum&) const = default;
};
template <int TAG>
struct WObj
{
    int v;
    WObj()
      : v(0)
    {
    }
    WObj(int x)
      : v(x)
    {
    }
    WObj(const WObj& o)
      : v(o.v)
    {
    }
    WObj(WObj&& o) noexcept
      : v(o.v)
    {
    }
    WObj& operator=(const WObj& o)
    {
        v = o.v;
        return *this;
    }
    WObj& operator=(WObj&& o) noexcept
    {
        v = o.v;
        return *this;
    }
    ~WObj() { v = -1; }
    bool operator==(const WObj& o) const { return v == o.v; }
    auto operator<=>(const WObj& o) const { return v <=> o.v; }
};
template <class T>
T wmake(int v)
{
    if constexpr (std::is_same_v<T, char>)
    {
        return static_cast<char>('a' + static_cast<unsigned>(v) % 26);
    }
    else
    {
        return T{v};
    }
}
template <class T>
int wval(const T& t)
{
    if constexpr (std::is_same_v<T, char>)
    {
        return t;
    }
    else
    {
        return t.v;
    }
}
struct WHash
{
    template <class T>
    u64 operator()(const T& t) const
    {
        return mix64(static_cast<u64>(static_cast<u32>(wval(t))));
    }
};

enum class WK
{
    VEC,
    DEQ,
    CIRC,
    LIST,
    STR,
    STACK,
    QUEUE,
    CQUEUE,
    OMAP,
    OSET,
    UMAP,
    USET
};

#define WORK_OPS(X)        \
    X(step, 40, OF_S1_W)   \
    X(grow, 3, OF_S1_W)    \
    X(shrink, 2, OF_S1_W)  \
    X(whole, 3, OF_S1_W)
enum WorkOp
{
#define X(n, w, f) WK_##n,
    WORK_OPS(X)
#undef X
        WK_COUNT
};
inline constexpr OpInfo WORK_INFO[] = {
#define X(n, w, f) OpInfo{#n, w, f},
    WORK_OPS(X)
#undef X
};

template <WK KIND, class C, class T, std::size_t CAP>
struct WorkDriver : Driver
{
    static constexpr bool MAPPED = KIND == WK::OMAP || KIND == WK::UMAP;
    static constexpr bool ORDERED = KIND == WK::OMAP || KIND == WK::OSET;
    static constexpr bool ASSOC = MAPPED || KIND == WK::OSET || KIND == WK::USET;
    static constexpr bool ADAPTER = KIND == WK::STACK || KIND == WK::QUEUE || KIND == WK::CQUEUE;
    static constexpr bool FRONT = KIND == WK::DEQ || KIND == WK::CIRC || KIND == WK::LIST;
    static constexpr bool RANDOM = KIND == WK::VEC || KIND == WK::DEQ || KIND == WK::CIRC || KIND == WK::STR;
    static constexpr bool WRAPS = KIND == WK::CIRC || KIND == WK::CQUEUE;
    static constexpr u64 FEW = 1500;  // well below CAP, well above what a look at a tree path or a probe sequence takes
    static constexpr u64 EACH = 400;  // per element, for operations on many of them
    static_assert(CAP >= 4096);

    alignas(64) static inline unsigned char mem[2][sizeof(C)];
    C* c = nullptr;
    std::deque<int> seq;       // reference of the sequences
    std::map<int, int> ref;    // reference of the associative containers
    int next = 0;

    explicit WorkDriver(const Knobs&) { W.abort_policy = true; }

    std::size_t size() const { return ASSOC ? ref.size() : seq.size(); }

    template <class F>
    void measured(const char* what, u64 bound, F f)
    {
        work_done = 0;
        work_limit = bound;
        work_what = what;
        lib(
            [&]
            {
                work_on = CAP < 60000;  // the giants are about indices, not about steps
                f();
                work_on = false;
            });
        tr(work_done > 0 ? 1 : 0);
        SIM_COUNT("probe.work_measured");
    }
    template <class F>
    void few(const char* what, F f)
    {
        measured(what, FEW, f);
    }
    template <class F>
    void many(const char* what, std::size_t k, F f)
    {
        measured(what, FEW + EACH * k, f);
    }

    void start() override
    {
        fill_garbage(mem[0], sizeof(C));
        many("construct", CAP, [&] { c = ::new (static_cast<void*>(mem[0])) C(); });
        const u64 r = mix64(W.k.extra * 7919u + W.k.garbage * 31u + W.k.hash_mode);
        const std::size_t n = r % 4 == 0 ? r / 4 % (CAP + 1) : CAP - r / 4 % 3;
        grow(n);
    }
    int key() { return static_cast<int>(mix64(static_cast<u64>(next++)) % (4 * CAP)); }
    void grow(std::size_t k)
    {
        many("fill", k * 3,
             [&]
             {
                 const std::size_t target = std::min(CAP, size() + k);
                 for (std::size_t i = 0; i < 2 * k && (WRAPS ? i < k : size() < target); ++i)
                 {
                     add(false);
                 }
             });
    }
    // one element more, at the back (front) of a sequence
    void add(bool at_front)
    {
        if constexpr (ASSOC)
        {
            const int k = key();
            if (size() >= CAP && ref.count(k) == 0)
            {
                return;
            }
            if constexpr (MAPPED)
            {
                c->try_emplace(wmake<T>(k), k);
            }
            else
            {
                c->insert(wmake<T>(k));
            }
            harness([&] { ref.try_emplace(k, k); });
        }
        else
        {
            if (!WRAPS && size() >= CAP)
            {
                return;
            }
            const int v = next++;
            const T x = wmake<T>(v);
            if constexpr (ADAPTER)
            {
                c->push(x);
            }
            else if constexpr (FRONT)
            {
                if (at_front)
                {
                    c->push_front(x);
                }
                else
                {
                    c->push_back(x);
                }
            }
            else
            {
                c->push_back(x);
            }
            harness(
                [&]
                {
                    if (FRONT && at_front)
                    {
                        seq.push_front(wval(x));
                        if (seq.size() > CAP)
                        {
                            seq.pop_back();
                        }
                    }
                    else
                    {
                        seq.push_back(wval(x));
                        if (seq.size() > CAP)
                        {
                            seq.pop_front();
                        }
                    }
                });
        }
    }
    // the reference's own work is not the library's
    template <class F>
    static void harness(F f)
    {
        const bool w = work_on;
        work_on = false;
        const bool l = W.cur->in_lib;
        W.cur->in_lib = false;
        f();
        W.cur->in_lib = l;
        work_on = w;
    }
    void drop(bool at_front)
    {
        if (size() == 0)
        {
            return;
        }
        if constexpr (ASSOC)
        {
            const int k = ref.lower_bound(key() % std::max(1, ref.rbegin()->first))->first;
            if (c->erase(wmake<T>(k)) != 1)
            {
                fail("content", "erase of a key that is there erased nothing");
            }
            harness([&] { ref.erase(k); });
        }
        else if constexpr (ADAPTER)
        {
            c->pop();
            harness(
                [&]
                {
                    if (KIND == WK::STACK)
                    {
                        seq.pop_back();
                    }
                    else
                    {
                        seq.pop_front();
                    }
                });
        }
        else
        {
            if constexpr (FRONT)
            {
                if (at_front)
                {
                    c->pop_front();
                    harness([&] { seq.pop_front(); });
                    return;
                }
            }
            c->pop_back();
            harness([&] { seq.pop_back(); });
        }
    }

    void step_seq(const Op& op)
    {
        const std::size_t n = size();
        const std::size_t i = n == 0 ? 0 : (op.b % 4 == 0 ? n - 1 : op.b / 4 % n);
        long got = 0;
        switch (op.a % 12)
        {
        case 0: few("push", [&] { add(false); }); break;
        case 1: few("push_front", [&] { add(true); }); break;
        case 2: few("pop", [&] { drop(false); }); break;
        case 3: few("pop_front", [&] { drop(true); }); break;
        case 4:
            few("size", [&] { got = static_cast<long>(c->size()) + (c->empty() ? 1L << 40 : 0); });
            want(got == static_cast<long>(n) + (n == 0 ? 1L << 40 : 0), "size");
            break;
        case 5:
            if (n > 0)
            {
                int f = 0;
                int b = 0;
                few("ends",
                    [&]
                    {
                        if constexpr (KIND == WK::STACK)
                        {
                            b = wval(c->top());
                            harness([&] { f = seq.front(); });
                        }
                        else
                        {
                            f = wval(c->front());
                            b = wval(c->back());
                        }
                    });
                want(f == seq.front() && b == seq.back(), "the ends");
            }
            break;
        case 6:
        case 7:
            if constexpr (RANDOM)
            {
                if (n > 0)
                {
                    few("at",
                        [&]
                        {
                            got = wval(c->at(i)) + wval((*c)[i]);
                            const auto it = c->begin() + static_cast<std::ptrdiff_t>(i);
                            got += wval(*it);
                            got += (c->cend() - it) == static_cast<std::ptrdiff_t>(n - i) ? 0 : 1L << 40;
                            got += (c->end() > it) ? 0 : 1L << 41;
                        });
                    want(got == 3L * seq[i], "an element by index");
                }
            }
            break;
        case 8:
            if constexpr (RANDOM)
            {
                if (n < CAP)  // at the end nothing has to move
                {
                    const int v = next++;
                    const T x = wmake<T>(v);
                    few("insert at the end", [&] { c->insert(c->cend(), x); });
                    seq.push_back(wval(x));
                }
            }
            break;
        case 9:
            if constexpr (RANDOM)
            {
                if (n > 0)
                {
                    few("erase the last", [&] { c->erase(c->cend() - 1); });
                    seq.pop_back();
                }
            }
            break;
        default:
            if constexpr (KIND == WK::LIST)
            {
                list_step(op);
            }
            else if constexpr (!ADAPTER)
            {
                if (n > 0)
                {
                    few("iterate", [&] { got = wval(*c->begin()) + wval(*c->rbegin()) + wval(*std::prev(c->end())); });
                    want(got == static_cast<long>(seq.front()) + 2L * seq.back(), "an element through an iterator");
                }
            }
            break;
        }
    }
    void list_step(const Op& op)
    {
        if constexpr (KIND == WK::LIST)
        {
            const std::size_t k = op.b % 6;  // close to either end; how far in says how many steps
            const bool tail = op.c % 2 == 0;
            const std::size_t n = size();
            if (n <= 8)
            {
                return;
            }
            const T x = wmake<T>(next++);
            const std::size_t at = tail ? n - 1 - k : k;
            int got = 0;
            switch (op.c / 2 % 3)
            {
            case 0:
                if (n < CAP)
                {
                    few("insert",
                        [&]
                        {
                            auto it = tail ? std::prev(c->end(), static_cast<std::ptrdiff_t>(k) + 1)
                                           : std::next(c->begin(), static_cast<std::ptrdiff_t>(k));
                            got = wval(*c->insert(it, x));
                        });
                    want(got == wval(x), "the inserted element");
                    seq.insert(seq.begin() + static_cast<std::ptrdiff_t>(at), wval(x));
                }
                break;
            case 1:
                few("erase",
                    [&]
                    {
                        auto it = tail ? std::prev(c->end(), static_cast<std::ptrdiff_t>(k) + 1)
                                       : std::next(c->begin(), static_cast<std::ptrdiff_t>(k));
                        c->erase(it);
                    });
                seq.erase(seq.begin() + static_cast<std::ptrdiff_t>(at));
                break;
            default:
                few("iterate",
                    [&]
                    {
                        auto it = tail ? std::prev(c->end(), static_cast<std::ptrdiff_t>(k) + 1)
                                       : std::next(c->begin(), static_cast<std::ptrdiff_t>(k));
                        got = wval(*it);
                    });
                want(got == seq[at], "an element through an iterator");
                break;
            }
        }
    }

    template <class It>
    static int key_at(const It& it)
    {
        if constexpr (MAPPED)
        {
            return wval(it->first);
        }
        else
        {
            return wval(*it);
        }
    }
    void step_assoc(const Op& op)
    {
        if constexpr (ASSOC)
        {
            const std::size_t n = size();
            int k = static_cast<int>(op.b % (4 * CAP));
            if (op.c % 2 == 0 && n > 0)
            {
                auto it = ref.lower_bound(k);
                k = it == ref.end() ? ref.rbegin()->first : it->first;
            }
            const bool there = ref.count(k) != 0;
            const T kk = wmake<T>(k);
            bool ok = true;
            switch (op.a % 14)
            {
            case 0:
            case 1: few("insert", [&] { add(false); }); break;
            case 2: few("erase", [&] { drop(false); }); break;
            case 3:
                few("find",
                    [&]
                    {
                        const auto it = c->find(kk);
                        ok = (it != c->end()) == there && (!there || key_at(it) == k);
                    });
                break;
            case 4: few("contains", [&] { ok = c->contains(kk) == there && c->count(kk) == (there ? 1u : 0u); }); break;
            case 5:
                if constexpr (MAPPED)
                {
                    if (there)
                    {
                        few("at", [&] { ok = c->at(kk) == k && (*c)[kk] == k; });
                    }
                }
                break;
            case 6:
                if (there || n < CAP)
                {
                    few("emplace",
                        [&]
                        {
                            if constexpr (MAPPED)
                            {
                                ok = c->emplace(kk, k).second == !there && c->insert_or_assign(kk, k).second == false;
                            }
                            else
                            {
                                ok = c->emplace(kk).second == !there;
                            }
                        });
                    ref.try_emplace(k, k);
                }
                break;
            case 7:
                if (there)
                {
                    few("erase at", [&] { c->erase(c->find(kk)); });
                    ref.erase(k);
                }
                break;
            case 8: few("size", [&] { ok = c->size() == n && c->empty() == (n == 0); }); break;
            case 9:
                if (n > 0)
                {
                    few("begin",
                        [&]
                        {
                            const int f = key_at(c->begin());
                            harness([&] { ok = ORDERED ? f == ref.begin()->first : ref.count(f) == 1; });
                        });
                }
                break;
            case 10:
                if (there)
                {
                    few("iterate",
                        [&]
                        {
                            auto it = c->find(kk);
                            int steps = 0;
                            for (; steps < 3 && it != c->end(); ++steps)
                            {
                                ++it;
                            }
                            if constexpr (ORDERED)
                            {
                                for (; steps > 0; --steps)
                                {
                                    --it;
                                }
                                ok = key_at(it) == k;
                            }
                        });
                }
                break;
            case 11:
                if constexpr (ORDERED)
                {
                    few("bounds",
                        [&]
                        {
                            const auto lo = c->lower_bound(kk);
                            const auto up = c->upper_bound(kk);
                            const auto er = c->equal_range(kk);
                            ok = er.first == lo && er.second == up && (lo == up) == !there;
                        });
                }
                break;
            case 12:
                if constexpr (ORDERED)
                {
                    if (n > 0)
                    {
                        few("last",
                            [&]
                            {
                                const int l = key_at(std::prev(c->end()));
                                const int r = key_at(c->rbegin());
                                harness([&] { ok = l == ref.rbegin()->first && r == l; });
                            });
                    }
                }
                break;
            default:
                if (n < CAP || there)
                {
                    few("insert with hint",
                        [&]
                        {
                            if constexpr (MAPPED)
                            {
                                c->try_emplace(c->cend(), kk, k);
                            }
                            else
                            {
                                c->insert(c->cend(), kk);
                            }
                        });
                    ref.try_emplace(k, k);
                }
                break;
            }
            want(ok, "the result");
        }
    }
    void whole(const Op& op)
    {
        const std::size_t n = size();
        C* d = reinterpret_cast<C*>(mem[1]);
        bool ok = true;
        switch (op.a % 8)
        {
        case 0:
            many("copy", CAP + n,
                 [&]
                 {
                     ::new (static_cast<void*>(mem[1])) C(*c);
                     ok = d->size() == n;
                     d->~C();
                 });
            break;
        case 1:
            if constexpr (!ADAPTER)
            {
                many("compare", CAP + 4 * n,
                     [&]
                     {
                         ::new (static_cast<void*>(mem[1])) C(*c);
                         ok = *d == *c;
                         d->~C();
                     });
            }
            break;
        case 2:
            many("assign", 2 * CAP + 2 * n,
                 [&]
                 {
                     ::new (static_cast<void*>(mem[1])) C();
                     *d = *c;
                     *c = std::move(*d);
                     d->~C();
                 });
            break;
        case 3:
            if constexpr (!ADAPTER)
            {
                std::size_t m = 0;
                many("iterate over all", 2 * n,
                     [&]
                     {
                         for (auto it = c->begin(); it != c->end(); ++it)
                         {
                             ++m;
                         }
                         if constexpr (!ASSOC || ORDERED)
                         {
                             for (auto it = c->crbegin(); it != c->crend(); ++it)
                             {
                                 ++m;
                             }
                         }
                         else
                         {
                             m *= 2;
                         }
                     });
                ok = m == 2 * n;
            }
            break;
        case 4:
            if constexpr (!ADAPTER && KIND != WK::STR)
            {
                const int q = static_cast<int>(2 + op.b % 5);
                std::size_t removed = 0;
                const auto drop_it = [q](int v) { return v % q == 0; };
                many("erase_if", 2 * n + 16,
                     [&]
                     {
                         removed = fc::erase_if(*c,
                                                [&](const auto& e)
                                                {
                                                    if constexpr (MAPPED)
                                                    {
                                                        return drop_it(wval(e.first));
                                                    }
                                                    else
                                                    {
                                                        return drop_it(wval(e));
                                                    }
                                                });
                     });
                const std::size_t before = size();
                if constexpr (ASSOC)
                {
                    std::erase_if(ref, [&](const auto& e) { return drop_it(e.first); });
                }
                else
                {
                    std::erase_if(seq, drop_it);
                }
                ok = removed == before - size();
            }
            break;
        case 5:
            if constexpr (!ADAPTER)
            {
                // a part of it, from the middle
                const std::size_t from = n == 0 ? 0 : op.b % n;
                const std::size_t k = n == 0 ? 0 : op.c % (n - from + 1);
                if constexpr (!ASSOC || ORDERED)
                {
                    many("erase a range", 3 * n + 16,
                         [&]
                         {
                             const auto a = std::next(c->cbegin(), static_cast<std::ptrdiff_t>(from));
                             const auto b = std::next(a, static_cast<std::ptrdiff_t>(k));
                             c->erase(a, b);
                         });
                    if constexpr (ASSOC)
                    {
                        const auto a = std::next(ref.begin(), static_cast<std::ptrdiff_t>(from));
                        ref.erase(a, std::next(a, static_cast<std::ptrdiff_t>(k)));
                    }
                    else
                    {
                        const auto a = seq.begin() + static_cast<std::ptrdiff_t>(from);
                        seq.erase(a, a + static_cast<std::ptrdiff_t>(k));
                    }
                }
            }
            break;
        case 6:
            if constexpr (!ADAPTER && !ASSOC)
            {
                const std::size_t from = n == 0 ? 0 : op.b % n;
                const std::size_t k = std::min<std::size_t>(CAP - n, op.c % 1000);
                static T src[1000];
                for (std::size_t i = 0; i < k; ++i)
                {
                    src[i] = wmake<T>(next++);
                }
                many("insert a range", 3 * n + 3 * k + 16,
                     [&]
                     {
                         const auto a = std::next(c->cbegin(), static_cast<std::ptrdiff_t>(from));
                         c->insert(a, src + 0, src + k);
                     });
                for (std::size_t i = k; i-- > 0;)
                {
                    seq.insert(seq.begin() + static_cast<std::ptrdiff_t>(from), wval(src[i]));
                }
            }
            else if constexpr (ASSOC)
            {
                const std::size_t k = std::min<std::size_t>(CAP - n, op.c % 1000);
                static T src[1000];
                for (std::size_t i = 0; i < k; ++i)
                {
                    src[i] = wmake<T>(key());
                }
                if constexpr (!MAPPED)
                {
                    many("insert a range", 8 * k + 16, [&] { c->insert(src + 0, src + k); });
                    for (std::size_t i = 0; i < k; ++i)
                    {
                        ref.try_emplace(wval(src[i]), wval(src[i]));
                    }
                }
            }
            break;
        default:
            if constexpr (!ADAPTER)
            {
                if (op.b % 4 == 0)
                {
                    many("clear", CAP, [&] { c->clear(); });
                    ref.clear();
                    seq.clear();
                    grow(CAP - op.c % 3);
                }
            }
            break;
        }
        want(ok, "the result");
        check();
    }
    void want(bool ok, const char* what)
    {
        if (!ok)
        {
            fail("content", "%s of a large container disagrees with the reference", what);
        }
    }
    void check()
    {
        bool ok = c->size() == size();
        if constexpr (ASSOC)
        {
            if constexpr (ORDERED)
            {
                auto it = c->begin();
                for (auto& e : ref)
                {
                    ok = ok && it != c->end() && key_at(it) == e.first;
                    if (!ok)
                    {
                        break;
                    }
                    ++it;
                }
            }
            else
            {
                for (auto& e : ref)
                {
                    ok = ok && c->contains(wmake<T>(e.first));
                }
            }
        }
        else if constexpr (!ADAPTER)
        {
            auto it = c->begin();
            for (int v : seq)
            {
                ok = ok && it != c->end() && wval(*it) == v;
                if (!ok)
                {
                    break;
                }
                ++it;
            }
        }
        want(ok, "the content");
        tr(size());
    }
    void exec(const Op& op) override
    {
        switch (op.kind)
        {
        case WK_step:
            if constexpr (ASSOC)
            {
                step_assoc(op);
            }
            else
            {
                step_seq(op);
            }
            break;
        case WK_grow: grow(op.a % 64); break;
        case WK_shrink:
            many("drain", 3 * 64,
                 [&]
                 {
                     for (u32 i = 0; i < op.a % 64; ++i)
                     {
                         drop(op.b % 2 == 0);
                     }
                 });
            break;
        default: whole(op); break;
        }
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + op.a % 14 * 7 + size() * 64 / CAP));
    }
    void after_abandon(const Op&, int) override {}
    void finish() override { check(); }
};

template <WK KIND, class C, class T, std::size_t CAP>
Driver* make_work(const Knobs& k)
{
    return new WorkDriver<KIND, C, T, CAP>(k);
}
}  // namespace sim

#define WORK_SCENARIO(ID, KIND, T, CAP, ...)                                                                     \
    namespace sim                                                                                                \
    {                                                                                                            \
    using WC_##ID = __VA_ARGS__;                                                                                 \
    static RegisterScenario reg_##ID(                                                                            \
        Scenario{#ID, "work", WORK_INFO, WK_COUNT, 40, &make_work<WK::KIND, WC_##ID, T, CAP>, 0u});             \
    }
