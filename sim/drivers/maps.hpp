// Associative containers: FixedMap, FixedSet, FixedUnorderedMap, FixedUnorderedSet against a reference
// association (a vector of unique entries, sorted by the comparator for the ordered kinds).
#pragma once
#include "common.hpp"

#include "fixed_containers/fixed_index_based_storage.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_map_raw_view.hpp"
#include "fixed_containers/fixed_red_black_tree_types.hpp"
#include "fixed_containers/fixed_red_black_tree_view.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_map_raw_view.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_unordered_set_raw_view.hpp"

#include <algorithm>
#include <array>
#include <optional>
#include <tuple>

namespace sim
{
enum class MK
{
    OM,
    OS,
    UM,
    US
};

#define MAP_OPS(X)                                                               \
    X(insert_copy, 10, OF_S1_W | OF_GROW)                                        \
    X(insert_move, 8, OF_S1_W | OF_GROW)                                         \
    X(insert_hint, 4, OF_S1_W | OF_GROW)                                         \
    X(emplace, 8, OF_S1_W | OF_GROW)                                             \
    X(emplace_hint, 3, OF_S1_W | OF_GROW)                                        \
    X(try_emplace, 8, OF_S1_W | OF_GROW)                                         \
    X(insert_or_assign, 8, OF_S1_W | OF_GROW)                                    \
    X(index_op, 8, OF_S1_W | OF_GROW)                                            \
    X(at_write, 4, OF_S1_W)                                                      \
    X(insert_range, 4, OF_S1_W | OF_GROW)                                        \
    X(insert_input, 5, OF_S1_W | OF_GROW | OF_SRC)                               \
    X(insert_ilist, 2, OF_S1_W | OF_GROW)                                        \
    X(insert_moving, 3, OF_S1_W | OF_GROW)                                       \
    X(insert_conv, 2, OF_S1_W | OF_GROW)                                         \
    X(erase_key, 10, OF_S1_W | OF_SHRINK)                                        \
    X(erase_it, 8, OF_S1_W | OF_SHRINK)                                          \
    X(erase_range, 5, OF_S1_W | OF_SHRINK)                                       \
    X(clear, 1, OF_S1_W | OF_SHRINK)                                             \
    X(erase_pred, 3, OF_S1_W | OF_THROW | OF_SHRINK)                             \
    X(lookup, 10, OF_S1_R)                                                       \
    X(bounds, 6, OF_S1_R)                                                        \
    X(read_walk, 4, OF_S1_R)                                                     \
    X(iter_steps, 4, OF_S1_R)                                                    \
    X(write_walk, 3, OF_S1_W)                                                    \
    X(copy_construct, 3, OF_S1_R | OF_S2_W | OF_COPY | OF_THROW)                 \
    X(copy_assign, 4, OF_S1_R | OF_S2_W | OF_COPY | OF_THROW)                    \
    X(move_construct, 3, OF_S1_W | OF_S2_W | OF_COPY)                            \
    X(move_assign, 3, OF_S1_W | OF_S2_W | OF_COPY)                               \
    X(swap_objects, 2, OF_S1_W | OF_S2_W | OF_COPY)                              \
    X(self_assign, 1, OF_S1_W | OF_COPY)                                         \
    X(compare, 4, OF_S1_R | OF_S2_R | OF_COPY | OF_THROW)                        \
    X(compare_other_cap, 2, OF_S1_R | OF_COPY)                                   \
    X(construct_range, 2, OF_S1_W | OF_GROW)                                     \
    X(construct_input, 1, OF_S1_W | OF_SRC)                                      \
    X(construct_ilist, 1, OF_S1_W)                                               \
    X(construct_fresh, 1, OF_S1_W)                                               \
    X(construct_make, 2, OF_S1_W)                                                \
    X(overflow_insert, 3, OF_S1_W | OF_REJ)                                      \
    X(overflow_range, 2, OF_S1_W | OF_REJ)                                       \
    X(bad_at, 3, OF_S1_R | OF_REJ)                                               \
    X(bad_erase, 1, OF_S1_W | OF_REJ)                                            \
    X(alias_erase_key, 4, OF_S1_W | OF_ALIAS | OF_SHRINK)                        \
    X(alias_insert, 3, OF_S1_W | OF_ALIAS)                                       \
    X(alias_assign, 4, OF_S1_W | OF_ALIAS | OF_GROW)                             \
    X(take_handle, 8, OF_S1_W | OF_HANDLE)                                       \
    X(relocate, 4, OF_S1_W | OF_RELOC)                                           \
    X(view, 3, OF_S1_R | OF_VIEW)                                                \
    X(churn, 2, OF_S1_W)

enum MapOp
{
#define X(n, w, f) MK_##n,
    MAP_OPS(X)
#undef X
        MK_COUNT
};
inline constexpr OpInfo MAP_INFO[] = {
#define X(n, w, f) OpInfo{#n, w, f},
    MAP_OPS(X)
#undef X
};

// a key of another type, for transparent lookups
struct Probe
{
    int v;
};

// ... and one that is equivalent to every key whose rank lies in a range
struct Span
{
    long lo, hi;
};

template <class K>
int kv(const K& k)
{
    if constexpr (std::is_same_v<K, int>)
    {
        return k;
    }
    else if constexpr (std::is_trivially_copy_constructible_v<K>)
    {
        return static_cast<int>(k.v);
    }
    else
    {
        reg_use(std::addressof(k), "compare");
        return k.v;
    }
}

// equivalence class / rank of a key under a comparator state
inline long rank_of(u32 mode, int v)
{
    switch (mode)
    {
    case 1: return -static_cast<long>(v);
    case 2: return v / 2;
    case 3: return -static_cast<long>(v / 3);
    default: return v;
    }
}

template <bool TRANSPARENT>
struct TransparentTag
{
};
template <>
struct TransparentTag<true>
{
    using is_transparent = void;
};

template <bool TRANSPARENT>
struct Cmp : TransparentTag<TRANSPARENT>  // stateful comparator
{
    u32 mode = 0;
    template <class A, class B>
    bool operator()(const A& a, const B& b) const
    {
        long x, y;
        if constexpr (std::is_same_v<A, Span>)
        {
            x = a.hi;
        }
        else
        {
            x = rank_of(mode, kv(a));
        }
        if constexpr (std::is_same_v<B, Span>)
        {
            y = b.lo;
        }
        else
        {
            y = rank_of(mode, kv(b));
        }
        on_event(Ev::Compare, false);
        return x < y;
    }
};

template <std::size_t COUNT>
struct HashF  // stateful hash
{
    static constexpr u64 BUCKETS = COUNT == 0 ? 1 : COUNT;
    u32 mode = 0;  // low nibble: hash quality; high: equivalence
    template <class A>
    u64 operator()(const A& a) const
    {
        const long r = rank_of(mode >> 4, kv(a));
        on_event(Ev::Hash, false);
        const u64 x = static_cast<u64>(r);
        switch (mode & 15)
        {
        case 0: return mix64(x);
        case 1: return 0;
        case 2: return ~u64{0};
        case 3: return x & 255;                                   // one bucket, fingerprints differ
        case 4: return (x % BUCKETS) << 8;                        // one fingerprint, buckets differ
        case 5: return (BUCKETS - 1 - (x % 2)) << 8 | (x & 3);    // clusters around the wrap
        case 6: return (x % 3) << 8 | (x & 1);                    // a few buckets, weak fingerprints
        default: return (mix64(x) % 4) << 8 | 0xff;
        }
    }
};
struct EqF
{
    u32 mode = 0;
    template <class A, class B>
    bool operator()(const A& a, const B& b) const
    {
        const long x = rank_of(mode, kv(a));
        const long y = rank_of(mode, kv(b));
        on_event(Ev::Equal, false);
        return x == y;
    }
};

template <class T, std::size_t N>
using PoolSt = fixed_containers::FixedIndexBasedPoolStorage<T, N>;
template <class T, std::size_t N>
using ContSt = fixed_containers::FixedIndexBasedContiguousStorage<T, N>;

struct CfgBase
{
    static constexpr bool contiguous = false;
    static constexpr bool compact = true;
    static constexpr bool transparent = false;
    static constexpr bool defaults = false;  // std::less / wyhash / std::equal_to
    static constexpr int spare_buckets = -1;  // -1: default bucket count
    static constexpr bool abort = false;      // the library's checking policy
};
struct CfgDef : CfgBase
{
    static constexpr bool defaults = true;
};
struct CfgAbort : CfgBase  // everything as a user gets it who names no template argument
{
    static constexpr bool defaults = true;
    static constexpr bool abort = true;
};
struct CfgContA : CfgBase
{
    static constexpr bool contiguous = true;
    static constexpr bool abort = true;
};
struct CfgPool : CfgBase
{
};
struct CfgPoolT : CfgBase
{
    static constexpr bool transparent = true;
    static constexpr bool compact = false;
};
struct CfgCont : CfgBase
{
    static constexpr bool contiguous = true;
};
struct CfgContD : CfgBase
{
    static constexpr bool contiguous = true;
    static constexpr bool compact = false;
    static constexpr bool transparent = true;
};
struct CfgTight : CfgBase
{
    static constexpr int spare_buckets = 0;
};
struct CfgOne : CfgBase
{
    static constexpr int spare_buckets = 1;
};

template <class Cfg>
struct CfgOther : Cfg
{
    static constexpr bool contiguous = !Cfg::contiguous;
    static constexpr bool abort = false;
    static constexpr int spare_buckets = Cfg::spare_buckets < 0 ? 3 : Cfg::spare_buckets + 1;
};

template <MK KIND, class K, class V, std::size_t N, class Cfg>
struct MapType
{
    static constexpr bool ORD = KIND == MK::OM || KIND == MK::OS;
    static constexpr auto COMPACT =
        Cfg::compact
            ? fixed_containers::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR
            : fixed_containers::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR;
    static constexpr std::size_t BUCKETS =
        Cfg::spare_buckets < 0 ? fixed_containers::fixed_robinhood_hashtable_detail::default_bucket_count(N)
                               : N + static_cast<std::size_t>(Cfg::spare_buckets);
    using Compare = std::conditional_t<Cfg::defaults, std::less<K>, Cmp<Cfg::transparent>>;
    using Hash = std::conditional_t<Cfg::defaults, fixed_containers::wyhash::hash<K>, HashF<BUCKETS>>;
    using Equal = std::conditional_t<Cfg::defaults, std::equal_to<K>, EqF>;
    using AbortPol = std::conditional_t<KIND == MK::OM || KIND == MK::UM,
                                        fixed_containers::customize::MapAbortChecking<K, V, N>,
                                        fixed_containers::customize::SetAbortChecking<K, N>>;
    using Pol = std::conditional_t<Cfg::abort, AbortPol, MapPolicy<K>>;

    static auto sel()
    {
        if constexpr (KIND == MK::OM && Cfg::contiguous)
        {
            return std::type_identity<fixed_containers::FixedMap<K, V, N, Compare, COMPACT, ContSt, Pol>>{};
        }
        else if constexpr (KIND == MK::OM)
        {
            return std::type_identity<fixed_containers::FixedMap<K, V, N, Compare, COMPACT, PoolSt, Pol>>{};
        }
        else if constexpr (KIND == MK::OS && Cfg::contiguous)
        {
            return std::type_identity<fixed_containers::FixedSet<K, N, Compare, COMPACT, ContSt, Pol>>{};
        }
        else if constexpr (KIND == MK::OS)
        {
            return std::type_identity<fixed_containers::FixedSet<K, N, Compare, COMPACT, PoolSt, Pol>>{};
        }
        else if constexpr (KIND == MK::UM)
        {
            return std::type_identity<
                fixed_containers::FixedUnorderedMap<K, V, N, Hash, Equal, BUCKETS, Pol>>{};
        }
        else
        {
            return std::type_identity<fixed_containers::FixedUnorderedSet<K, N, Hash, Equal, BUCKETS, Pol>>{};
        }
    }
    using type = typename decltype(sel())::type;
};

template <MK KIND, class K, class V, std::size_t N, class Cfg>
struct MapDriver : Driver
{
    using MT = MapType<KIND, K, V, N, Cfg>;
    using MT2 = MapType<KIND, K, V, N + 3, Cfg>;
    using C = typename MT::type;
    using C2 = typename MT2::type;
    // the same capacity in another layout
    using MT3 = MapType<KIND, K, V, N, CfgOther<Cfg>>;
    using C3 = typename MT3::type;
    static constexpr bool ORD = MT::ORD;
    static constexpr bool MAP = KIND == MK::OM || KIND == MK::UM;
    static constexpr bool COPY = ET<K>::copyable && (!MAP || ET<V>::copyable);
    static constexpr bool BYTEWISE = MAP ? BYTEWISE_ASSIGN<K, V> : BYTEWISE_ASSIGN<K>;
    static constexpr bool ERASE_KEEPS = !(ORD && Cfg::contiguous);
    static constexpr std::size_t SRC = N + 6;
    static constexpr bool HAS_VIEW = std::is_trivially_copyable_v<C> && N > 0;
    using KE = ET<K>;
    using VE = ET<V>;
    using iterator = typename C::iterator;
    using const_iterator = typename C::const_iterator;

    struct Ent
    {
        MV k, v;
        u32 uid = 0;
    };
    struct Handle
    {
        u32 uid;
        const K* kref;
        V* vref;
        iterator it;
    };
    struct Spec
    {
        u32 cmode = 0;  // ordering / equivalence
        u32 hmode = 0;  // hash quality
    };
    struct St
    {
        Slot<C> s;
        std::vector<Ent> m;
        std::vector<Handle> h;
        Spec sp;
        bool rej_basic = false;
    };
    St st[NSLOTS];
    std::vector<Ent> scratch[NTASKS];
    int next_p = 1;
    u32 next_uid = 1;
    u32 opno = 0;

    explicit MapDriver(const Knobs& kn)
    {
        W.abort_policy = Cfg::abort;
        if constexpr (requires { KE::domain; })
        {
            W.k.key_range = std::min<u32>(W.k.key_range, KE::domain);
        }
        for (int i = 0; i < NSLOTS; ++i)
        {
            st[i].s.id = i;
            st[i].m.reserve(N + 8);
            st[i].h.reserve(16);
            st[i].sp = pick_spec(kn.cmp_mode + (kn.extra % 3 == 0 ? static_cast<u32>(i) : 0),
                                 kn.hash_mode + (kn.extra % 5 == 0 ? static_cast<u32>(i) * 3 : 0));
        }
        for (auto& s : scratch)
        {
            s.reserve(N + 8);
        }
    }
    static Spec pick_spec(u32 c, u32 h)
    {
        Spec r;
        if (!Cfg::defaults)
        {
            r.cmode = c % 4;
            r.hmode = h % 8;
        }
        return r;
    }

    // ---------------------------------------------------------------- construction helpers
    template <class Type, class Traits, class... A>
    static Type* make_at(void* p, Spec sp, A&&... a)
    {
        if constexpr (ORD)
        {
            typename Traits::Compare cmp{};
            if constexpr (!Cfg::defaults)
            {
                cmp.mode = sp.cmode;
            }
            return ::new (p) Type(std::forward<A>(a)..., cmp);
        }
        else
        {
            typename Traits::Hash h{};
            typename Traits::Equal e{};
            if constexpr (!Cfg::defaults)
            {
                h.mode = (sp.cmode << 4) | sp.hmode;
                e.mode = sp.cmode;
            }
            return ::new (p) Type(std::forward<A>(a)..., h, e);
        }
    }

    static auto functors(Spec sp)
    {
        if constexpr (ORD)
        {
            typename MT::Compare cmp{};
            if constexpr (!Cfg::defaults)
            {
                cmp.mode = sp.cmode;
            }
            return std::tuple(cmp);
        }
        else
        {
            typename MT::Hash h{};
            typename MT::Equal e{};
            if constexpr (!Cfg::defaults)
            {
                h.mode = (sp.cmode << 4) | sp.hmode;
                e.mode = sp.cmode;
            }
            return std::tuple(h, e);
        }
    }
    template <class List>
    static auto make_fixed(const List& arr, Spec sp)
    {
        using namespace fixed_containers;
        const auto fn = functors(sp);
        using Pol = typename MT::Pol;
        if constexpr (KIND == MK::OM)
        {
            using Cp = typename MT::Compare;
            if constexpr (Cfg::contiguous && Cfg::abort)
            {
                return make_fixed_map<K, V, Cp, MT::COMPACT, ContSt>(arr, std::get<0>(fn));
            }
            else if constexpr (Cfg::contiguous)
            {
                return make_fixed_map<K, V, Cp, MT::COMPACT, ContSt, Pol>(arr, std::get<0>(fn));
            }
            else if constexpr (Cfg::abort)
            {
                return make_fixed_map<K, V, Cp, MT::COMPACT, PoolSt>(arr, std::get<0>(fn));
            }
            else
            {
                return make_fixed_map<K, V, Cp, MT::COMPACT, PoolSt, Pol>(arr, std::get<0>(fn));
            }
        }
        else if constexpr (KIND == MK::OS)
        {
            using Cp = typename MT::Compare;
            if constexpr (Cfg::contiguous)
            {
                return make_fixed_set<K, Cp, MT::COMPACT, ContSt, Pol>(arr, std::get<0>(fn));
            }
            else if constexpr (Cfg::abort)
            {
                return make_fixed_set<K, Cp, MT::COMPACT, PoolSt>(arr, std::get<0>(fn));
            }
            else
            {
                return make_fixed_set<K, Cp, MT::COMPACT, PoolSt, Pol>(arr, std::get<0>(fn));
            }
        }
        else if constexpr (KIND == MK::UM)
        {
            using H = typename MT::Hash;
            using E = typename MT::Equal;
            if constexpr (Cfg::abort)
            {
                return make_fixed_unordered_map<K, V, H, E>(arr, std::get<0>(fn), std::get<1>(fn));
            }
            else if constexpr (std::is_array_v<List>)
            {
                return make_fixed_unordered_map<K, V, H, E, Pol, N, MT::BUCKETS>(arr, std::get<0>(fn), std::get<1>(fn));
            }
            else
            {
                return make_fixed_unordered_map<K, V, H, E, Pol>(arr, std::get<0>(fn), std::get<1>(fn));
            }
        }
        else
        {
            using H = typename MT::Hash;
            using E = typename MT::Equal;
            if constexpr (Cfg::abort)
            {
                return make_fixed_unordered_set<K, H, E>(arr, std::get<0>(fn), std::get<1>(fn));
            }
            else if constexpr (std::is_array_v<List>)
            {
                return make_fixed_unordered_set<K, H, E, Pol, N, MT::BUCKETS>(arr, std::get<0>(fn), std::get<1>(fn));
            }
            else
            {
                return make_fixed_unordered_set<K, H, E, Pol>(arr, std::get<0>(fn), std::get<1>(fn));
            }
        }
    }
    // a container of capacity 0 is empty and full
    void check_empty_make(int slot)
    {
        const Spec sp = st[slot].sp;
        SrcBuf<K, 1> kb;
        kb.add(3, 1);
        const K& k = kb.data()[0];
        lib(
            [&]
            {
                auto e = make_fixed(std::array<Src, 0>{}, sp);
                const auto& ce = e;
                bool bad = ce.size() != 0 || !ce.empty() || ce.max_size() != 0 || ce.begin() != ce.end() ||
                           ce.contains(k) || ce.count(k) != 0 || ce.find(k) != ce.end() || e.erase(k) != 0 ||
                           !fixed_containers::is_full(ce);
                if constexpr (ORD)
                {
                    bad = bad || ce.lower_bound(k) != ce.end() || ce.upper_bound(k) != ce.end();
                }
                e.clear();
                auto copy = ce;
                copy = ce;
                bad = bad || !(copy == ce) || copy.size() != 0;
                if (bad)
                {
                    fail("content", "a container of capacity 0 is not empty");
                }
            });
        SIM_COUNT("probe.capacity_zero");
        if (rejects_stripped())
        {
            return;
        }
        expect_length(1);
        lib(
            [&]
            {
                auto e = make_fixed(std::array<Src, 0>{}, sp);
                if constexpr (MAP)
                {
                    e.try_emplace(k);
                }
                else
                {
                    e.insert(k);
                }
            });
    }

    // ---------------------------------------------------------------- reference model
    long rk(const Spec& sp, int v) const { return rank_of(sp.cmode, v); }
    std::size_t m_find(const std::vector<Ent>& m, const Spec& sp, int v) const
    {
        for (std::size_t i = 0; i < m.size(); ++i)
        {
            if (rk(sp, m[i].k.v) == rk(sp, v))
            {
                return i;
            }
        }
        return m.size();
    }
    // a transparent lookup of something that several keys are equivalent to
    void check_span(int slot, C& c, const Span& span, std::size_t sl, std::size_t su)
    {
        const St& S = st[slot];
        const std::size_t n = S.m.size();
        const C& cc = c;
        auto at = [&](const const_iterator& it)
        {
            Quiet qq;
            if (it == cc.end())
            {
                return n;
            }
            std::size_t i = 0;
            while (i < n && !(key_of(*it) == S.m[i].k))
            {
                ++i;
            }
            return i;
        };
        auto bounds = [&](auto& x, const char* what)
        {
            const const_iterator lo = one(n, 2, "lower_bound", [&] { return x.lower_bound(span); });
            const const_iterator up = one(n, 2, "upper_bound", [&] { return x.upper_bound(span); });
            auto er = one(n, 4, "equal_range", [&] { return x.equal_range(span); });
            if (at(lo) != sl || at(up) != su || at(er.first) != sl || at(er.second) != su)
            {
                fail("content", "%s bounds of the keys ranked %ld to %ld are at %zu, %zu, %zu and %zu, reference %zu and %zu",
                     what, span.lo, span.hi, at(lo), at(up), at(er.first), at(er.second), sl, su);
            }
        };
        bounds(cc, "transparent");
        bounds(c, "mutable transparent");
        const bool in = one(n, 2, "contains", [&] { return cc.contains(span); });
        const std::size_t cnt = one(n, 4, "count", [&] { return cc.count(span); });
        const std::size_t f = at(one(n, 2, "find", [&] { return cc.find(span); }));
        if (in != (su > sl) || cnt != su - sl || (in ? f < sl || f >= su : f != n))
        {
            fail("content", "contains/count/find of the keys ranked %ld to %ld = %d/%zu/entry %zu, reference entries %zu up to %zu",
                 span.lo, span.hi, in, cnt, f, sl, su);
        }
    }
    std::size_t m_lower(int slot, int v) const
    {
        const St& S = st[slot];
        std::size_t i = 0;
        while (i < S.m.size() && rk(S.sp, S.m[i].k.v) < rk(S.sp, v))
        {
            ++i;
        }
        return i;
    }
    std::size_t m_upper(int slot, int v) const
    {
        const St& S = st[slot];
        std::size_t i = 0;
        while (i < S.m.size() && rk(S.sp, S.m[i].k.v) <= rk(S.sp, v))
        {
            ++i;
        }
        return i;
    }
    std::size_t m_insert(int slot, MV k, MV v)
    {
        St& S = st[slot];
        const std::size_t i = ORD ? m_lower(slot, k.v) : S.m.size();
        S.m.insert(S.m.begin() + static_cast<long>(i), Ent{k, v, next_uid++});
        return i;
    }
    bool has(int slot, int v) const { return m_find(st[slot].m, st[slot].sp, v) != st[slot].m.size(); }

    // ---------------------------------------------------------------- observation
    template <class Ref>
    static MV key_of(Ref&& r)
    {
        if constexpr (MAP)
        {
            return KE::get(r.first);
        }
        else
        {
            return KE::get(r);
        }
    }
    template <class Ref>
    static MV val_of(Ref&& r)
    {
        if constexpr (MAP)
        {
            return VE::get(r.second);
        }
        else
        {
            return MV{};
        }
    }
    template <class Ref>
    static const K* key_addr(Ref&& r)
    {
        if constexpr (MAP)
        {
            return std::addressof(r.first);
        }
        else
        {
            return std::addressof(r);
        }
    }

    struct Quiet
    {
        OpCtx* oc;
        u8 es;
        bool il;
        bool q;
        Quiet()
          : oc(W.cur)
          , es(oc->expect)
          , il(oc->in_lib)
          , q(W.quiet_callbacks)
        {
            oc->expect = R_NONE;
            oc->in_lib = true;
            W.quiet_callbacks = true;
        }
        ~Quiet()
        {
            oc->expect = es;
            oc->in_lib = il;
            W.quiet_callbacks = q;
        }
    };

    u32 live_per_entry() const
    {
        return (KE::tracked ? 1u : 0u) + (MAP && VE::tracked ? 1u : 0u);
    }

    void check(int slot, const char* cls = "content")
    {
        St& S = st[slot];
        const ReadOnly ro(S.s.base(), sizeof(*S.s));
        {
            Quiet qq;
            C& mc = *S.s;
            const C& c = mc;
            S.s.check_canary();
            const std::size_t n = S.m.size();
            if (c.size() != n)
            {
                fail(cls, "size() is %zu, reference has %zu", static_cast<std::size_t>(c.size()), n);
            }
            if (c.empty() != (n == 0))
            {
                fail(cls, "empty() disagrees with size %zu", n);
            }
            if (c.max_size() != N || C::static_max_size() != N)
            {
                fail(cls, "max_size() is not %zu", N);
            }
            if (fixed_containers::is_full(c) != (n >= N))
            {
                fail(cls, "is_full() disagrees with size %zu", n);
            }
            std::size_t i = 0;
            u64 seen[N / 64 + 1] = {};
            for (auto it = c.begin(); it != c.end(); ++it, ++i)
            {
                if (i >= n)
                {
                    fail(cls, "iteration runs past the %zu reference entries", n);
                }
                decltype(auto) r = *it;
                const MV k = key_of(r);
                const MV v = val_of(r);
                std::size_t j = i;
                if (!ORD)
                {
                    j = m_find(S.m, S.sp, k.v);
                    if (j == n)
                    {
                        fail(cls, "iteration visits key %d which the reference does not contain", k.v);
                    }
                    if ((seen[j / 64] >> (j % 64) & 1) != 0)
                    {
                        fail(cls, "iteration visits key %d twice", k.v);
                    }
                    seen[j / 64] |= u64{1} << (j % 64);
                }
                if (!(k == S.m[j].k) || (MAP && !(v == S.m[j].v)))
                {
                    fail(cls, "entry %zu is (%d,%d)->(%d,%d), reference (%d,%d)->(%d,%d)", i, k.v, k.p, v.v, v.p,
                         S.m[j].k.v, S.m[j].k.p, S.m[j].v.v, S.m[j].v.p);
                }
                const auto a = reinterpret_cast<const char*>(key_addr(r));
                if (a < S.s.base() || a + sizeof(K) > S.s.base() + sizeof(C))
                {
                    fail("alloc", "an element is stored outside the container object");
                }
            }
            if (i != n)
            {
                fail(cls, "iteration visits %zu of %zu entries", i, n);
            }
            if constexpr (ORD)
            {
                i = n;
                for (auto it = c.crbegin(); it != c.crend(); ++it)
                {
                    if (i == 0)
                    {
                        fail(cls, "reverse iteration runs past the first entry");
                    }
                    --i;
                    if (!(key_of(*it) == S.m[i].k))
                    {
                        fail(cls, "reverse iteration disagrees at entry %zu", i);
                    }
                }
                if (i != 0)
                {
                    fail(cls, "reverse iteration stops %zu entries early", i);
                }
                if (n > 0)
                {
                    // conversion and round trips of reverse iterators
                    typename C::const_reverse_iterator cr = mc.rbegin();
                    if (!(key_of(*cr) == S.m[n - 1].k))
                    {
                        fail(cls, "a reverse_iterator converted to const_reverse_iterator designates another entry");
                    }
                    if (!(mc.rbegin().base() == mc.end()) || !(mc.rend().base() == mc.begin()))
                    {
                        fail(cls, "base() of rbegin()/rend() does not round-trip");
                    }
                    i = n;
                    for (auto it = c.end(); it != c.begin();)
                    {
                        --it;
                        --i;
                        if (!(key_of(*it) == S.m[i].k))
                        {
                            fail(cls, "backward iteration disagrees at entry %zu", i);
                        }
                    }
                }
            }
            for (std::size_t j = 0; j < n; ++j)
            {
                lookup_check(c, S, S.m[j].k.v, cls);
            }
            lookup_check(c, S, static_cast<int>(opno % W.k.key_range), cls);
            lookup_check(c, S, -5, cls);
            if (const u32 per = live_per_entry(); per != 0)
            {
                const u32 live = reg_block_count(slot, S.s.half);
                if (live != per * n)
                {
                    fail("lifetime", "%u live objects inside a container with %zu entries of %u", live, n, per);
                }
            }
        }
        check_handles(slot);
        tr(S.s->size() * 7919 + 3);
    }
    void lookup_check(const C& c, const St& S, int v, const char* cls)
    {
        SrcBuf<K, 1> key;
        key.add(v, 0);
        const K& k = key.data()[0];
        const std::size_t j = m_find(S.m, S.sp, v);
        const bool in = j != S.m.size();
        if (c.contains(k) != in)
        {
            fail(cls, "contains(%d) is %d, reference %d", v, c.contains(k), in);
        }
        auto it = c.find(k);
        if ((it != c.end()) != in)
        {
            fail(cls, "find(%d) %s end(), reference %s", v, it != c.end() ? "!=" : "==", in ? "has it" : "does not");
        }
        if (in && (!(key_of(*it) == S.m[j].k) || !(val_of(*it) == (MAP ? S.m[j].v : MV{}))))
        {
            fail(cls, "find(%d) designates another entry", v);
        }
    }

    void check_handles(int slot)
    {
        St& S = st[slot];
        if (S.h.empty())
        {
            return;
        }
        Quiet qq;
        for (std::size_t x = 0; x < S.h.size();)
        {
            Handle& h = S.h[x];
            std::size_t idx = S.m.size();
            for (std::size_t i = 0; i < S.m.size(); ++i)
            {
                if (S.m[i].uid == h.uid)
                {
                    idx = i;
                }
            }
            if (idx == S.m.size())
            {
                S.h.erase(S.h.begin() + static_cast<long>(x));
                continue;
            }
            const Ent& e = S.m[idx];
            if constexpr (KE::tracked)
            {
                if (!reg_alive(h.kref))
                {
                    fail("stability", "a key reference that must stay valid refers to a dead object");
                }
            }
            if (!(KE::get(*h.kref) == e.k))
            {
                fail("stability", "a key reference that must stay valid reads %d, its entry has key %d",
                     KE::get(*h.kref).v, e.k.v);
            }
            if constexpr (MAP)
            {
                if constexpr (VE::tracked)
                {
                    if (!reg_alive(h.vref))
                    {
                        fail("stability", "a value reference that must stay valid refers to a dead object");
                    }
                }
                if (!(VE::get(*h.vref) == e.v))
                {
                    fail("stability", "a value reference that must stay valid reads (%d,%d), its entry has (%d,%d)",
                         VE::get(*h.vref).v, VE::get(*h.vref).p, e.v.v, e.v.p);
                }
            }
            if (!(key_of(*h.it) == e.k))
            {
                fail("stability", "an iterator that must stay valid designates another entry");
            }
            if constexpr (ORD)
            {
                iterator nx = h.it;
                ++nx;
                if (idx + 1 == S.m.size() ? nx != S.s->end() : !(key_of(*nx) == S.m[idx + 1].k))
                {
                    fail("stability", "advancing an iterator that stayed valid does not reach the next entry");
                }
            }
            else
            {
                SrcBuf<K, 1> key;
                key.add(e.k.v, 0);
                if (S.s->find(key.data()[0]) != h.it)
                {
                    fail("stability", "an iterator that must stay valid is not the one find() returns");
                }
            }
            SIM_COUNT("probe.live_handle_checked");
            ++x;
        }
    }
    void drop_handles(int slot) { st[slot].h.clear(); }
    void inval_erase(int slot)
    {
        if constexpr (!ERASE_KEEPS)
        {
            drop_handles(slot);
        }
    }

    void adopt(int slot, const char* cls)
    {
        St& S = st[slot];
        {
            Quiet qq;
            const C& c = *S.s;
            const std::size_t n = c.size();
            if (n > N)
            {
                fail(cls, "size() %zu exceeds the capacity after a failed operation", n);
            }
            if (const u32 per = live_per_entry(); per != 0)
            {
                const u32 live = reg_block_count(slot, S.s.half);
                if (live != per * n)
                {
                    fail("lifetime", "%u live objects but %zu entries of %u after a failed operation", live, n, per);
                }
            }
            S.m.clear();
            for (auto it = c.begin(); it != c.end(); ++it)
            {
                if (S.m.size() >= n)
                {
                    fail(cls, "iteration does not stop at size() after a failed operation");
                }
                decltype(auto) r = *it;
                if constexpr (KE::tracked)
                {
                    if (!reg_alive(key_addr(r)))
                    {
                        fail(cls, "the container exposes a dead element after a failed operation");
                    }
                }
                const MV k = key_of(r);
                if (m_find(S.m, S.sp, k.v) != S.m.size())
                {
                    fail(cls, "key %d appears twice after a failed operation", k.v);
                }
                S.m.push_back(Ent{k, val_of(r), next_uid++});
            }
            if (S.m.size() != n)
            {
                fail(cls, "iteration visits %zu entries, size() is %zu after a failed operation", S.m.size(), n);
            }
            if (ORD)
            {
                for (std::size_t i = 1; i < n; ++i)
                {
                    if (rk(S.sp, S.m[i - 1].k.v) >= rk(S.sp, S.m[i].k.v))
                    {
                        fail(cls, "entries are out of order after a failed operation");
                    }
                }
            }
        }
        drop_handles(slot);
        check(slot, cls);
    }

    void others()
    {
        if (++opno % 4 != 0)
        {
            return;
        }
        for (int i = 0; i < NSLOTS; ++i)
        {
            if (!slot_busy(i))
            {
                check(i, "isolation");
            }
        }
    }

    // ---------------------------------------------------------------- complexity bounds
    static u32 log2up(std::size_t n)
    {
        u32 r = 0;
        while ((std::size_t{1} << r) < n + 1)
        {
            ++r;
        }
        return r;
    }
    // `keys` independent searches, plus `extra` comparisons
    void search_bound(std::size_t n, std::size_t keys, const char* what)
    {
        const OpCtx* c = W.cur;
        if (ORD)
        {
            const u32 cmp = c->evc[static_cast<int>(Ev::Compare)];
            const u32 bound = static_cast<u32>(keys) * (2 * 2 * (log2up(n) + 1) + 4);
            if (cmp > bound)
            {
                fail("progress", "%s used %u comparisons with %zu entries, logarithmic bound %u", what, cmp, n, bound);
            }
        }
        else
        {
            const u32 h = c->evc[static_cast<int>(Ev::Hash)];
            const u32 e = c->evc[static_cast<int>(Ev::Equal)];
            if (h > keys * 4 + 2 || e > keys * (2 * n + 4))
            {
                fail("progress", "%s used %u hash and %u equality evaluations with %zu entries", what, h, e, n);
            }
        }
        SIM_COUNT("probe.work_bound_checked");
    }
    // One lookup inside a library section, measured by itself: at most `searches` descents or probes
    template <class Fn>
    decltype(auto) one(std::size_t n, u32 searches, const char* what, Fn&& fn)
    {
        struct Meter
        {
            const OpCtx* c = W.cur;
            std::size_t n;
            u32 searches;
            const char* what;
            u32 cmp = c->evc[static_cast<int>(Ev::Compare)];
            u32 h = c->evc[static_cast<int>(Ev::Hash)];
            u32 e = c->evc[static_cast<int>(Ev::Equal)];
            void done() const
            {
                const u32 dc = c->evc[static_cast<int>(Ev::Compare)] - cmp;
                const u32 dh = c->evc[static_cast<int>(Ev::Hash)] - h;
                const u32 de = c->evc[static_cast<int>(Ev::Equal)] - e;
                if (ORD && dc > searches * (2 * 2 * (log2up(n) + 1) + 4))
                {
                    fail("progress", "%s used %u comparisons with %zu entries, logarithmic bound %u", what, dc, n,
                         searches * (2 * 2 * (log2up(n) + 1) + 4));
                }
                if (!ORD && (dh > 4 * searches || de > searches * (n + 4)))
                {
                    fail("progress", "%s used %u hash and %u equality evaluations with %zu entries", what, dh, de, n);
                }
            }
        };
        const Meter m{.n = n, .searches = searches, .what = what};
        decltype(auto) r = fn();
        m.done();
        return r;
    }
    void elem_bound(u32 bound, const char* what)
    {
        const OpCtx* c = W.cur;
        const u32 work = c->evc[static_cast<int>(Ev::Copy)] + c->evc[static_cast<int>(Ev::CopyAssign)] +
                         c->evc[static_cast<int>(Ev::Move)] + c->evc[static_cast<int>(Ev::MoveAssign)] +
                         c->evc[static_cast<int>(Ev::Default)] + c->evc[static_cast<int>(Ev::Value)] +
                         c->evc[static_cast<int>(Ev::Destroy)];
        if (work > bound)
        {
            fail("progress", "%s performed %u element operations, bound %u", what, work, bound);
        }
    }

    // ---------------------------------------------------------------- lifecycle
    template <class Fn>
    void construct(int slot, Fn&& fn)
    {
        St& S = st[slot];
        S.s.prepare();
        fn(static_cast<void*>(S.s.base()));
        S.s.live = true;
    }
    void destroy(int slot)
    {
        St& S = st[slot];
        {
            Quiet qq;
            S.s->~C();
        }
        S.s.live = false;
        S.m.clear();
        S.h.clear();
        if (live_per_entry() != 0 && reg_block_count(slot, S.s.half) != 0)
        {
            fail("lifetime", "destroying the container left %u live elements", reg_block_count(slot, S.s.half));
        }
    }
    void fresh_at(int slot)
    {
        Quiet qq;
        construct(slot, [&](void* p) { make_at<C, MT>(p, st[slot].sp); });
        st[slot].m.clear();
        st[slot].h.clear();
    }
    void start() override
    {
        for (int i = 0; i < NSLOTS; ++i)
        {
            fresh_at(i);
            check(i);
        }
    }
    void finish() override
    {
        for (int i = 0; i < NSLOTS; ++i)
        {
            check(i, "isolation");
        }
        for (int i = 0; i < NSLOTS; ++i)
        {
            destroy(i);
        }
    }
    void after_abandon(const Op& op, int reason) override
    {
        const int slot = op.slot;
        const char* cls = reason == A_REJECT ? "reject-effect" : "isolation";
        St& S = st[slot];
        if (!S.s.live)
        {
            if (reason == A_REJECT && W.cur->unwound && reg_block_count(slot, S.s.half) != 0)
            {
                fail("lifetime", "a rejected constructor left %u live elements", reg_block_count(slot, S.s.half));
            }
            reg_drop_range(S.s.base(), S.s.base() + sizeof(C));
            fresh_at(slot);
        }
        if (reason == A_REJECT && S.rej_basic)
        {
            S.rej_basic = false;
            if (!slot_busy(slot) && !W.cur->unwound)
            {
                // the policy ended the caller in the middle of the operation: nobody looks again
                reg_drop_range(S.s.base(), S.s.base() + sizeof(C));
                fresh_at(slot);
            }
            else if (!slot_busy(slot))
            {
                std::vector<Ent>& old = scratch[op.task % NTASKS];
                old = S.m;
                adopt(slot, cls);
                for (auto& e : old)  // inserting never removes or changes what was there
                {
                    const std::size_t j = m_find(S.m, S.sp, e.k.v);
                    if (j == S.m.size() || !(S.m[j].k == e.k) || !(S.m[j].v == e.v))
                    {
                        fail(cls, "a rejected range insertion lost or changed the entry with key %d", e.k.v);
                    }
                }
            }
            return;
        }
        S.rej_basic = false;
        if (!slot_busy(slot))
        {
            check(slot, cls);
        }
        if (op.slot2 != op.slot && !slot_busy(op.slot2) && (W.cur->info->flags & (OF_S2_R | OF_S2_W)) != 0)
        {
            check(op.slot2, cls);
        }
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + S.m.size() * 7 + 5));
    }
    std::pair<const char*, std::size_t> bytes(int slot) override
    {
        auto& s = st[slot].s;
        return s.live ? std::pair<const char*, std::size_t>{s.base(), sizeof(*s)} : std::pair<const char*, std::size_t>{nullptr, 0};
    }
    void exec(const Op& op) override
    {
        const std::size_t before = st[op.slot].m.size() + st[op.slot2].m.size();
        do_exec(op);
        const St& S = st[op.slot];
        if (op.kind != MK_churn)
        {
            const std::size_t involved = before + S.m.size() + st[op.slot2].m.size() + N + 32;  // sources may be that long
            linear_work(2 * involved);  // keys and values
            const OpCtx* c = W.cur;
            const u32 hashes = c->evc[static_cast<int>(Ev::Hash)];
            if (!c->threw && !c->unwound && hashes > 8 * involved)
            {
                fail("progress", "%s evaluated the hash %u times with %zu entries involved", c->info->name, hashes, involved);
            }
            const u32 compares = c->evc[static_cast<int>(Ev::Compare)];
            if (!c->threw && !c->unwound && compares > involved * static_cast<u32>(16 + 6 * std::bit_width(N)))
            {
                fail("progress", "%s compared keys %u times with %zu entries involved", c->info->name, compares, involved);
            }
        }
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + S.m.size() * 7 + (W.cur->threw ? 3 : 0) +
                    (W.preempts != 0 ? 1 : 0)));
        others();
    }

    // ---------------------------------------------------------------- operations
    MV fresh_key(u32 a) { return mk<K>(static_cast<int>(a % W.k.key_range), next_p++); }
    MV fresh_val(u32 a) { return mk<V>(static_cast<int>(a % 5), next_p++); }
    bool guard_full(int slot, bool is_new)
    {
        if (!is_new || st[slot].m.size() < N)
        {
            return false;
        }
        if (rejects_stripped())
        {
            return true;
        }
        expect_length(N + 1);
        return false;
    }
    const_iterator cit(int slot, std::size_t i)
    {
        const C& c = *st[slot].s;
        return std::next(c.begin(), static_cast<long>(i));
    }
    // position of model entry i in container order (they coincide for ordered containers)
    iterator it_of(int slot, const Ent& e)
    {
        Quiet qq;
        SrcBuf<K, 1> key;
        key.add(e.k.v, 0);
        return st[slot].s->find(key.data()[0]);
    }
    void check_ins(int slot, std::optional<iterator>& r, const int* inserted, bool want_new, int v, const char* what)
    {
        Quiet qq;
        if (inserted != nullptr && (*inserted != 0) != want_new)
        {
            fail("content", "%s reports inserted=%d, reference %d", what, *inserted, want_new);
        }
        if (r.has_value())
        {
            const St& S = st[slot];
            const std::size_t j = m_find(S.m, S.sp, v);
            if (*r == st[slot].s->end() || j == S.m.size() || !(key_of(**r) == S.m[j].k))
            {
                fail("content", "%s returned an iterator that does not designate the entry with key %d", what, v);
            }
        }
    }
    template <class Fn, class Mo>
    void mutate(int slot, G g, Fn&& fn, Mo&& model)
    {
        if (lib(fn))
        {
            st[slot].rej_basic = false;
            model();
            check(slot);
        }
        else
        {
            st[slot].rej_basic = false;
            if (g == G::Strong)
            {
                check(slot, "exc-strong");
            }
            else
            {
                adopt(slot, "exc-basic");
            }
        }
    }
    using Src = std::conditional_t<MAP, std::pair<K, V>, K>;
    template <std::size_t M>
    struct SBuf
    {
        alignas(Src) unsigned char raw[sizeof(Src) * M];
        std::size_t n = 0;
        SBuf() {}
        SBuf(const SBuf&) = delete;
        SBuf& operator=(const SBuf&) = delete;
        Src* data() { return std::launder(reinterpret_cast<Src*>(raw)); }
        void add(MV k, MV v)
        {
            NoEvents q;
            if constexpr (MAP)
            {
                ::new (static_cast<void*>(raw + n * sizeof(Src))) Src(KE::make(k.v, k.p), VE::make(v.v, v.p));
            }
            else
            {
                ::new (static_cast<void*>(raw + n * sizeof(Src))) Src(KE::make(k.v, k.p));
            }
            ++n;
        }
        ~SBuf()
        {
            NoEvents q;
            for (std::size_t i = 0; i < n; ++i)
            {
                data()[i].~Src();
            }
        }
    };
    template <std::size_t M>
    std::size_t fill(SBuf<M>& src, MV* ks, MV* vs, std::size_t k, u32 a)
    {
        for (std::size_t i = 0; i < k; ++i)
        {
            ks[i] = fresh_key(a + static_cast<u32>(i) * 5 + (a >> 7) * static_cast<u32>(i));
            vs[i] = fresh_val(a + static_cast<u32>(i));
            src.add(ks[i], vs[i]);
        }
        return k;
    }
    // how many distinct new keys a sequence adds
    std::size_t new_keys(int slot, const MV* ks, std::size_t k)
    {
        const St& S = st[slot];
        std::size_t r = 0;
        for (std::size_t i = 0; i < k; ++i)
        {
            bool dup = has(slot, ks[i].v);
            for (std::size_t j = 0; j < i && !dup; ++j)
            {
                dup = rk(S.sp, ks[j].v) == rk(S.sp, ks[i].v);
            }
            r += dup ? 0 : 1;
        }
        return r;
    }
    void m_insert_all(int slot, const MV* ks, const MV* vs, std::size_t k)
    {
        for (std::size_t i = 0; i < k; ++i)
        {
            if (!has(slot, ks[i].v))
            {
                m_insert(slot, ks[i], MAP ? vs[i] : MV{});
            }
        }
    }
    bool unmoved(const K& k, MV want)
    {
        Quiet qq;
        return KE::get(k) == want;
    }
    bool unmovedv(const V& v, MV want)
    {
        Quiet qq;
        return VE::get(v) == want;
    }

    void do_exec(const Op& op)
    {
        const int slot = op.slot;
        St& S = st[slot];
        C& c = *S.s;
        const std::size_t n = S.m.size();
        switch (op.kind)
        {
        case MK_insert_copy:
        case MK_insert_move:
        case MK_insert_hint:
        case MK_emplace:
        case MK_emplace_hint:
        case MK_try_emplace:
        {
            const MV k = fresh_key(op.a);
            const MV v = fresh_val(op.c);
            const bool is_new = !has(slot, k.v);
            if (guard_full(slot, is_new))
            {
                return;
            }
            SrcBuf<K, 1> kb;
            kb.add(k.v, k.p);
            SrcBuf<V, 1> vb;
            vb.add(v.v, v.p);
            K& ks = kb.data()[0];
            V& vs = vb.data()[0];
            const K& kc = ks;
            std::optional<iterator> ret;
            int ins = -1;
            bool val_given = true;
            bool lvalue_key = false;
            bool lvalue_val = false;
            u32 copies = 2;
            if (op.kind == MK_try_emplace || !MAP && op.kind == MK_insert_move)
            {
                watch_arg<0>(ks, k);
                watch_arg<1>(vs, v);
            }
            mutate(
                slot,
                G::Strong,
                [&]
                {
                    auto take = [&](auto pr)
                    {
                        ret.emplace(pr.first);
                        ins = pr.second ? 1 : 0;
                    };
                    const_iterator hint = cit(slot, op.b % (n + 1));
                    if constexpr (MAP)
                    {
                        using VT = typename C::value_type;
                        if (op.kind == MK_insert_copy || op.kind == MK_insert_hint)
                        {
                            if constexpr (COPY)
                            {
                                lvalue_key = lvalue_val = true;
                                W.quiet_callbacks = true;
                                const VT value(kc, static_cast<const V&>(vs));
                                W.quiet_callbacks = false;
                                take(c.insert(value));
                            }
                            else
                            {
                                take(c.insert(VT(kc, std::move(vs))));
                            }
                        }
                        else if (op.kind == MK_insert_move)
                        {
                            take(c.insert(VT(kc, std::move(vs))));
                        }
                        else if (op.kind == MK_emplace || op.kind == MK_emplace_hint)
                        {
                            const bool hinted = op.kind == MK_emplace_hint;
                            switch (op.c % 4)
                            {
                            case 3:
                                copies = 0;
                                take(hinted ? c.emplace_hint(hint, std::move(ks), std::move(vs))
                                            : c.emplace(std::move(ks), std::move(vs)));
                                break;
                            case 0:
                                take(hinted ? c.emplace_hint(hint, kc, std::move(vs)) : c.emplace(kc, std::move(vs)));
                                break;
                            case 1:
                                if constexpr (requires { K(1, 2); V(1, 2); })
                                {
                                    take(hinted ? c.emplace_hint(hint, std::piecewise_construct,
                                                                 std::forward_as_tuple(kc),
                                                                 std::forward_as_tuple(v.v, v.p))
                                                : c.emplace(std::piecewise_construct, std::forward_as_tuple(kc),
                                                            std::forward_as_tuple(v.v, v.p)));
                                }
                                else
                                {
                                    copies = 0;
                                    take(c.emplace(std::move(ks), std::move(vs)));
                                }
                                break;
                            default:
                                copies = 0;
                                take(hinted ? c.emplace_hint(hint, std::pair<K, V>(std::move(ks), std::move(vs)))
                                            : c.emplace(std::pair<K, V>(std::move(ks), std::move(vs))));
                                break;
                            }
                        }
                        else
                        {
                            switch (op.c % 5)
                            {
                            case 0: take(c.try_emplace(kc, std::move(vs))); break;
                            case 1: (copies = 0), take(c.try_emplace(std::move(ks), std::move(vs))); break;
                            case 2: take(c.try_emplace(hint, kc, std::move(vs))); break;
                            case 3: (copies = 0), take(c.try_emplace(hint, std::move(ks), std::move(vs))); break;
                            default:
                                take(c.try_emplace(kc));
                                val_given = false;
                                break;
                            }
                            if (!is_new && op.c % 5 < 4 && (!unmoved(ks, k) || !unmovedv(vs, v)))
                            {
                                fail("content", "try_emplace of an existing key consumed its arguments");
                            }
                        }
                    }
                    else
                    {
                        switch (op.kind)
                        {
                        case MK_insert_copy:
                            lvalue_key = true;
                            take(c.insert(kc));
                            break;
                        case MK_insert_move: (copies = 0), take(c.insert(std::move(ks))); break;
                        case MK_insert_hint:
                            if (op.c % 2 == 0)
                            {
                                lvalue_key = true;
                                ret.emplace(c.insert(hint, kc));
                            }
                            else
                            {
                                copies = 0;
                                ret.emplace(c.insert(hint, std::move(ks)));
                            }
                            break;
                        case MK_try_emplace:
                            if constexpr (ORD)
                            {
                                take(c.emplace(kc));
                            }
                            else
                            {
                                switch (op.c % 4)
                                {
                                case 0: (copies = 1), take(c.try_emplace(kc)); break;
                                case 1: (copies = 0), take(c.try_emplace(std::move(ks))); break;
                                case 2: (copies = 1), take(c.try_emplace(hint, kc)); break;
                                default: (copies = 0), take(c.try_emplace(hint, std::move(ks))); break;
                                }
                                if ((!is_new || op.c % 2 == 0) && !unmoved(ks, k))
                                {
                                    fail("content", "try_emplace consumed an argument it did not need");
                                }
                            }
                            break;
                        case MK_emplace_hint:
                            if constexpr (ORD)
                            {
                                ret.emplace(c.emplace_hint(hint, kc));
                            }
                            else
                            {
                                take(c.emplace_hint(hint, kc));
                            }
                            break;
                        default:
                            if constexpr (requires { K(1, 2); })
                            {
                                copies = 0;
                                if (op.c % 3 == 0)
                                {
                                    take(c.emplace(std::move(ks)));
                                }
                                else
                                {
                                    take(c.emplace(k.v, k.p));
                                }
                            }
                            else
                            {
                                copies = 0;
                                take(c.emplace(std::move(ks)));
                            }
                            break;
                        }
                    }
                },
                [&]
                {
                    search_bound(n, 2, "inserting one key");
                    elem_bound(24, "inserting one key");
                    copies_at_most(copies, "inserting one key");
                    if (is_new)
                    {
                        m_insert(slot, k, MAP ? (val_given ? v : VE::def()) : MV{});
                    }
                    if (lvalue_key && !unmoved(ks, k))
                    {
                        fail("content", "insert of an lvalue changed its argument");
                    }
                    if (lvalue_val && !unmovedv(vs, v))
                    {
                        fail("content", "insert of an lvalue changed its argument");
                    }
                    check_ins(slot, ret, ins < 0 ? nullptr : &ins, is_new, k.v, "insert/emplace");
                });
            return;
        }
        case MK_insert_or_assign:
        {
            if constexpr (MAP)
            {
                const MV k = fresh_key(op.a);
                const MV v = fresh_val(op.c);
                const std::size_t j = m_find(S.m, S.sp, k.v);
                const bool is_new = j == n;
                if (guard_full(slot, is_new))
                {
                    return;
                }
                SrcBuf<K, 1> kb;
                kb.add(k.v, k.p);
                SrcBuf<V, 1> vb;
                vb.add(v.v, v.p);
                K& ks = kb.data()[0];
                V& vs = vb.data()[0];
                std::optional<iterator> ret;
                int ins = -1;
                mutate(
                    slot,
                    G::Strong,
                    [&]
                    {
                        auto take = [&](auto pr)
                        {
                            ret.emplace(pr.first);
                            ins = pr.second ? 1 : 0;
                        };
                        const K& kc = ks;
                        const_iterator hint = cit(slot, op.b % (n + 1));
                        switch (op.c % 4)
                        {
                        case 0:
                            if constexpr (COPY)
                            {
                                take(c.insert_or_assign(kc, static_cast<const V&>(vs)));
                                break;
                            }
                            [[fallthrough]];
                        case 1: take(c.insert_or_assign(std::move(ks), std::move(vs))); break;
                        case 2: ret.emplace(c.insert_or_assign(hint, kc, std::move(vs))); break;
                        default: ret.emplace(c.insert_or_assign(hint, std::move(ks), std::move(vs))); break;
                        }
                    },
                    [&]
                    {
                        search_bound(n, 2, "insert_or_assign");
                        copies_at_most(op.c % 4 == 1 || op.c % 4 == 3 ? 0 : 2, "insert_or_assign");
                        if (is_new)
                        {
                            m_insert(slot, k, v);
                        }
                        else
                        {
                            S.m[j].v = v;
                        }
                        check_ins(slot, ret, ins < 0 ? nullptr : &ins, is_new, k.v, "insert_or_assign");
                    });
            }
            return;
        }
        case MK_index_op:
        case MK_at_write:
        {
            if constexpr (MAP)
            {
                MV k = fresh_key(op.a);
                if (op.kind == MK_at_write)
                {
                    if (n == 0)
                    {
                        return;
                    }
                    k = S.m[op.b % n].k;
                }
                const MV v = fresh_val(op.c);
                const std::size_t j = m_find(S.m, S.sp, k.v);
                const bool is_new = j == n;
                if (guard_full(slot, is_new))
                {
                    return;
                }
                SrcBuf<K, 1> kb;
                kb.add(k.v, k.p);
                SrcBuf<V, 1> vb;
                vb.add(v.v, v.p);
                K& ks = kb.data()[0];
                const bool write = op.c % 3 != 0;
                MV got{};
                mutate(
                    slot,
                    G::Strong,
                    [&]
                    {
                        const K& kc = ks;
                        V* p = nullptr;
                        if (op.kind == MK_at_write)
                        {
                            p = std::addressof(c.at(kc));
                        }
                        else if (op.b % 2 == 0)
                        {
                            p = std::addressof(c[kc]);
                        }
                        else
                        {
                            p = std::addressof(c[std::move(ks)]);
                        }
                        {
                            Quiet qq;
                            got = VE::get(*p);
                        }
                        if (write)
                        {
                            *p = std::move(vb.data()[0]);
                        }
                    },
                    [&]
                    {
                        search_bound(n, 2, "operator[]/at");
                        copies_at_most(op.kind == MK_index_op && op.b % 2 == 0 ? 1 : 0, "operator[]/at");
                        const MV before = is_new ? VE::def() : S.m[j].v;
                        if (!(got == before))
                        {
                            fail("content", "operator[]/at(%d) yields (%d,%d), reference (%d,%d)", k.v, got.v, got.p,
                                 before.v, before.p);
                        }
                        if (is_new)
                        {
                            m_insert(slot, k, write ? v : VE::def());
                        }
                        else if (write)
                        {
                            S.m[j].v = v;
                        }
                    });
            }
            return;
        }
        case MK_insert_range:
        case MK_insert_input:
        case MK_overflow_range:
        {
            if constexpr (COPY)
            {
                SBuf<SRC> src;
                MV ks[SRC];
                MV vs[SRC];
                std::size_t k = 1 + op.c % 8;
                if (op.kind == MK_overflow_range)
                {
                    k = std::min<std::size_t>(N - n + 1 + op.c % 4, SRC);
                }
                k = std::min(k, SRC);
                fill(src, ks, vs, k, op.a);
                std::size_t avail = k;
                SourceState<Src> ss;
                ss.data = src.data();
                if (op.kind == MK_insert_input && (op.fault == F_SRC_END || op.fault == F_SRC_THROW) &&
                    (W.strip & ST_SRCFAULT) == 0)
                {
                    avail = std::min<std::size_t>(k, op.fault_at);
                    if (avail < k)
                    {
                        W.faults_fired++;
                        SIM_COUNT("fault.source_short");
                    }
                }
                ss.n = avail;
                if (n + new_keys(slot, ks, avail) > N)
                {
                    if (rejects_stripped())
                    {
                        return;
                    }
                    expect_length(N + 1);
                    S.rej_basic = true;
                }
                mutate(
                    slot,
                    G::Basic,
                    [&]
                    {
                        if (op.kind == MK_insert_input)
                        {
                            c.insert(InputIt<Src>{&ss}, InputIt<Src>{});
                        }
                        else
                        {
                            const Src* f = src.data();
                            c.insert(f, f + k);
                        }
                    },
                    [&]
                    {
                        if (op.kind == MK_insert_input && ss.pos != avail)
                        {
                            fail("source", "the single-pass source was consumed up to %zu of %zu elements", ss.pos,
                                 avail);
                        }
                        search_bound(n + k, 2 * k, "inserting a range");
                        m_insert_all(slot, ks, vs, avail);
                    });
            }
            return;
        }
        case MK_insert_moving:  // a range of rvalues: its elements are moved from
        {
            SBuf<SRC> src;
            MV ks[SRC];
            MV vs[SRC];
            const std::size_t k = op.c % std::min<std::size_t>(SRC, 6);
            fill(src, ks, vs, k, op.a);
            const std::size_t fresh_keys = new_keys(slot, ks, k);
            if (n + fresh_keys > N)
            {
                if (rejects_stripped())
                {
                    return;
                }
                expect_length(N + 1);
                S.rej_basic = true;
            }
            mutate(
                slot,
                G::Basic,
                [&] { c.insert(std::make_move_iterator(src.data()), std::make_move_iterator(src.data() + k)); },
                [&]
                {
                    // a map's key is const in what it is given, and copied once
                    copies_at_most(MAP ? static_cast<u32>(fresh_keys) : 0, "inserting a range of rvalues");
                    m_insert_all(slot, ks, vs, k);
                });
            return;
        }
        case MK_insert_conv:  // a range of another type, from which entries are made
        {
            if constexpr (HAS_CONV<K> && (!MAP || HAS_CONV<V>))
            {
                using KF = typename ConvSrc<K>::type;
                using VF = typename ConvSrc<V>::type;
                using From = std::conditional_t<MAP, std::pair<KF, VF>, KF>;
                From from[6]{};
                MV ks[6];
                MV vs[6];
                const std::size_t k = op.c % 6;
                for (std::size_t i = 0; i < k; ++i)
                {
                    ks[i] = fresh_key(op.a + static_cast<u32>(i) * 7);
                    vs[i] = fresh_val(op.a + static_cast<u32>(i));
                    if constexpr (MAP)
                    {
                        ConvSrc<K>::set(from[i].first, ks[i]);
                        ConvSrc<V>::set(from[i].second, vs[i]);
                    }
                    else
                    {
                        ConvSrc<K>::set(from[i], ks[i]);
                    }
                }
                if (n + new_keys(slot, ks, k) > N)
                {
                    if (rejects_stripped())
                    {
                        return;
                    }
                    expect_length(N + 1);
                    S.rej_basic = true;
                }
                const From* const f = from;
                mutate(slot, G::Basic, [&] { c.insert(f, f + k); }, [&] { m_insert_all(slot, ks, vs, k); });
            }
            return;
        }
        case MK_insert_ilist:
        case MK_construct_ilist:
        {
            if constexpr (COPY && N >= 3)
            {
                using VT = typename C::value_type;
                MV ks[3];
                MV vs[3];
                SBuf<3> src;
                fill(src, ks, vs, 3, op.a);
                const bool cons = op.kind == MK_construct_ilist;
                if (!cons && n + new_keys(slot, ks, 3) > N)
                {
                    if (rejects_stripped())
                    {
                        return;
                    }
                    expect_length(N + 1);
                    S.rej_basic = true;
                }
                if (cons)
                {
                    destroy(slot);
                }
                W.quiet_callbacks = true;
                std::initializer_list<VT> il{VT(src.data()[0]), VT(src.data()[1]), VT(src.data()[2])};
                W.quiet_callbacks = false;
                mutate(
                    slot,
                    G::Basic,
                    [&]
                    {
                        if (cons)
                        {
                            construct(slot, [&](void* p) { make_at<C, MT>(p, S.sp, il); });
                        }
                        else
                        {
                            c.insert(il);
                        }
                    },
                    [&] { m_insert_all(slot, ks, vs, 3); });
            }
            return;
        }
        case MK_construct_range:
        case MK_construct_input:
        {
            if constexpr (COPY)
            {
                SBuf<SRC> src;
                MV ks[SRC];
                MV vs[SRC];
                const std::size_t k = op.c % (N + 1);
                fill(src, ks, vs, k, op.a);
                SourceState<Src> ss;
                ss.data = src.data();
                ss.n = k;
                destroy(slot);
                lib(
                    [&]
                    {
                        construct(slot,
                                  [&](void* p)
                                  {
                                      if (op.kind == MK_construct_range)
                                      {
                                          const Src* f = src.data();
                                          const Src* l = f + k;
                                          make_at<C, MT>(p, S.sp, f, l);
                                      }
                                      else
                                      {
                                          make_at<C, MT>(p, S.sp, InputIt<Src>{&ss}, InputIt<Src>{});
                                      }
                                  });
                    });
                if (op.kind == MK_construct_input && ss.pos != k)
                {
                    fail("source", "the single-pass source was consumed up to %zu of %zu elements", ss.pos, k);
                }
                m_insert_all(slot, ks, vs, k);
                check(slot);
            }
            return;
        }
        case MK_construct_make:  // make_fixed_*: the capacity is the length of the array
        {
            if constexpr (COPY)
            {
                if (op.b % 4 == 0 || N == 0)
                {
                    check_empty_make(slot);
                    return;
                }
                SBuf<N == 0 ? 1 : N> src;
                MV ks[N == 0 ? 1 : N];
                MV vs[N == 0 ? 1 : N];
                fill(src, ks, vs, N, op.a);
                if constexpr (N > 0)
                {
                    const Src(&arr)[N] = *std::launder(reinterpret_cast<const Src(*)[N]>(src.raw));
                    destroy(slot);
                    lib([&] { construct(slot, [&](void* p) { ::new (p) C(make_fixed(arr, S.sp)); }); });
                    m_insert_all(slot, ks, vs, N);
                    check(slot);
                }
            }
            return;
        }
        case MK_construct_fresh:
        {
            destroy(slot);
            S.sp = pick_spec(op.b, op.c);
            lib([&] { construct(slot, [&](void* p) { make_at<C, MT>(p, S.sp); }); });
            check(slot);
            return;
        }
        case MK_erase_key:
        case MK_alias_erase_key:
        {
            int v = static_cast<int>(op.a % W.k.key_range);
            const bool alias = op.kind == MK_alias_erase_key;
            if ((alias || op.b % 2 == 0) && n > 0)
            {
                v = S.m[op.c % n].k.v;
            }
            if (alias && n == 0)
            {
                return;
            }
            const std::size_t j = m_find(S.m, S.sp, v);
            const bool in = j != n;
            SrcBuf<K, 1> kb;
            kb.add(v, 0);
            std::size_t ret = 99;
            std::optional<iterator> own;
            if (alias)
            {
                own.emplace(it_of(slot, S.m[j]));
            }
            if (in)
            {
                inval_erase(slot);
            }
            mutate(
                slot,
                G::Strong,
                [&]
                {
                    if (alias)
                    {
                        if constexpr (MAP)
                        {
                            ret = c.erase((**own).first);
                        }
                        else
                        {
                            ret = c.erase(**own);
                        }
                    }
                    else
                    {
                        ret = c.erase(static_cast<const K&>(kb.data()[0]));
                    }
                },
                [&]
                {
                    search_bound(n, 2, "erasing one key");
                    copies_at_most(0, "erasing one key");
                    if (ret != (in ? 1u : 0u))
                    {
                        fail("content", "erase(%d) returned %zu, reference %d", v, ret, in);
                    }
                    if (in)
                    {
                        S.m.erase(S.m.begin() + static_cast<long>(j));
                    }
                });
            return;
        }
        case MK_erase_it:
        {
            if (n == 0)
            {
                return;
            }
            const std::size_t i = op.b % n;
            std::optional<iterator> ret;
            MV gone{};
            MV next{};
            bool next_is_end = false;
            {
                Quiet qq;
                auto it = cit(slot, i);
                gone = key_of(*it);
                ++it;
                next_is_end = it == static_cast<const C&>(c).end();
                if (!next_is_end)
                {
                    next = key_of(*it);
                }
            }
            inval_erase(slot);
            mutate(
                slot,
                G::Strong,
                [&]
                {
                    if constexpr (KIND == MK::OM)
                    {
                        if (op.c % 2 == 0)
                        {
                            iterator it = std::next(c.begin(), static_cast<long>(i));
                            ret.emplace(c.erase(it));
                            return;
                        }
                    }
                    ret.emplace(c.erase(cit(slot, i)));
                },
                [&]
                {
                    search_bound(n, 2, "erasing one position");
                    copies_at_most(0, "erasing one position");
                    elem_bound(16, "erasing one position");
                    S.m.erase(S.m.begin() + static_cast<long>(m_find(S.m, S.sp, gone.v)));
                    Quiet qq;
                    if (next_is_end ? *ret != c.end() : (*ret == c.end() || !(key_of(**ret) == next)))
                    {
                        fail("content", "erase(iterator) does not return the entry that followed key %d", gone.v);
                    }
                });
            return;
        }
        case MK_erase_range:
        {
            const std::size_t f = op.b % (n + 1);
            const std::size_t l = op.c % 5 == 0 ? n : f + op.c % (n - f + 1);
            MV gone[N + 1];
            MV next{};
            {
                Quiet qq;
                auto it = cit(slot, f);
                for (std::size_t i = f; i < l; ++i, ++it)
                {
                    gone[i - f] = key_of(*it);
                }
                if (l < n)
                {
                    next = key_of(*it);
                }
            }
            if (f != l)
            {
                inval_erase(slot);
            }
            std::optional<iterator> ret;
            mutate(
                slot,
                G::Strong,
                [&] { ret.emplace(c.erase(cit(slot, f), cit(slot, l))); },
                [&]
                {
                    search_bound(n, 2 * (l - f) + 2, "erasing a range");
                    copies_at_most(0, "erasing a range");
                    for (std::size_t i = 0; i < l - f; ++i)
                    {
                        S.m.erase(S.m.begin() + static_cast<long>(m_find(S.m, S.sp, gone[i].v)));
                    }
                    Quiet qq;
                    if (l == n ? *ret != c.end() : (*ret == c.end() || !(key_of(**ret) == next)))
                    {
                        fail("content", "erase(first,last) does not return the entry that follows the range");
                    }
                });
            return;
        }
        case MK_clear:
        {
            drop_handles(slot);
            mutate(slot, G::Strong, [&] { c.clear(); }, [&] { S.m.clear(); });
            return;
        }
        case MK_erase_pred:
        {
            const int modn = 2 + static_cast<int>(op.c % 3);
            std::size_t ret = 0;
            auto gone = [&](const Ent& e) { return e.k.v % modn == 0; };
            inval_erase(slot);
            std::vector<Ent>& old = scratch[op.task % NTASKS];
            old = S.m;
            mutate(
                slot,
                G::Basic,
                [&]
                {
                    ret = fixed_containers::erase_if(c,
                                                     [&](const auto& e)
                                                     {
                                                         on_event(Ev::Pred, true);
                                                         NoEvents q;
                                                         return key_of(e).v % modn == 0;
                                                     });
                },
                [&]
                {
                    if (W.cur->evc[static_cast<int>(Ev::Pred)] > n + 1)
                    {
                        fail("progress", "erase_if examined %u entries of %zu",
                             W.cur->evc[static_cast<int>(Ev::Pred)], n);
                    }
                    std::erase_if(S.m, gone);
                    if (ret != n - S.m.size())
                    {
                        fail("content", "erase_if returned %zu, reference %zu", ret, n - S.m.size());
                    }
                });
            if (W.cur->threw)
            {
                for (auto& e : old)
                {
                    const std::size_t j = m_find(S.m, S.sp, e.k.v);
                    if ((j == S.m.size() && !gone(e)) || (j != S.m.size() && !(S.m[j].v == e.v)))
                    {
                        fail("exc-basic", "an interrupted erase_if lost or changed the unmatched entry with key %d",
                             e.k.v);
                    }
                }
            }
            return;
        }
        case MK_lookup:
        {
            int v = static_cast<int>(op.a % W.k.key_range);
            if (op.b % 2 == 0 && n > 0)
            {
                v = S.m[op.c % n].k.v;
            }
            SrcBuf<K, 1> kb;
            kb.add(v, 0);
            const K& k = kb.data()[0];
            const C& cc = c;
            const std::size_t j = m_find(S.m, S.sp, v);
            const bool in = j != n;
            bool cont = false;
            std::size_t cnt = 9;
            std::optional<const_iterator> fi;
            bool fm_end = false;
            MV atv{};
            lib(
                [&]
                {
                    cont = one(n, 2, "contains", [&] { return cc.contains(k); });
                    cnt = one(n, 2, "count", [&] { return cc.count(k); });
                    fi.emplace(one(n, 2, "find", [&] { return cc.find(k); }));
                    fm_end = one(n, 2, "find", [&] { return c.find(k); }) == c.end();
                    if constexpr (ORD && Cfg::transparent)
                    {
                        const Probe pr{v};
                        if (one(n, 2, "contains", [&] { return cc.contains(pr); }) != cont ||
                            one(n, 2, "count", [&] { return cc.count(pr); }) != cnt ||
                            one(n, 2, "find", [&] { return cc.find(pr); }) != *fi ||
                            one(n, 2, "find", [&] { return c.find(pr); }) != *fi)
                        {
                            fail("content", "transparent lookup of %d disagrees with the plain lookup", v);
                        }
                    }
                    if constexpr (MAP)
                    {
                        if (in)
                        {
                            const V& r = cc.at(k);
                            Quiet qq;
                            atv = VE::get(r);
                        }
                    }
                });
            search_bound(n, 12, "lookups of one key");
            if (cont != in || cnt != (in ? 1u : 0u) || fm_end == in)
            {
                fail("content", "contains/count/find(%d) = %d/%zu/%d, reference %d", v, cont, cnt, !fm_end, in);
            }
            {
                Quiet qq;
                if ((*fi != cc.end()) != in || (in && !(key_of(**fi) == S.m[j].k)))
                {
                    fail("content", "find(%d) designates another entry", v);
                }
            }
            if (MAP && in && !(atv == S.m[j].v))
            {
                fail("content", "at(%d) yields (%d,%d), reference (%d,%d)", v, atv.v, atv.p, S.m[j].v.v, S.m[j].v.p);
            }
            return;
        }
        case MK_bounds:
        {
            if constexpr (ORD)
            {
                const int v = op.b % 2 == 0 && n > 0 ? S.m[op.c % n].k.v + static_cast<int>(op.c % 3) - 1
                                                     : static_cast<int>(op.a % W.k.key_range);
                SrcBuf<K, 1> kb;
                kb.add(v, 0);
                const K& k = kb.data()[0];
                const C& cc = c;
                std::optional<const_iterator> lo, up, e1, e2;
                // the entries whose rank lies in the span
                const Span span{rk(S.sp, v), rk(S.sp, v) + static_cast<long>((op.a >> 8) % 7)};
                std::size_t sl = 0, su = 0;
                for (const auto& e : S.m)
                {
                    sl += rk(S.sp, e.k.v) < span.lo;
                    su += rk(S.sp, e.k.v) <= span.hi;
                }
                lib(
                    [&]
                    {
                        lo.emplace(one(n, 2, "lower_bound", [&] { return cc.lower_bound(k); }));
                        up.emplace(one(n, 2, "upper_bound", [&] { return cc.upper_bound(k); }));
                        auto er = one(n, 4, "equal_range", [&] { return cc.equal_range(k); });
                        e1.emplace(er.first);
                        e2.emplace(er.second);
                        if constexpr (MAP)
                        {
                            auto er2 = one(n, 4, "equal_range", [&] { return c.equal_range(k); });
                            if (one(n, 2, "lower_bound", [&] { return c.lower_bound(k); }) != *lo ||
                                one(n, 2, "upper_bound", [&] { return c.upper_bound(k); }) != *up || er2.first != *e1 ||
                                er2.second != *e2)
                            {
                                fail("content", "mutable and const bounds of %d disagree", v);
                            }
                        }
                        if constexpr (Cfg::transparent)
                        {
                            const Probe pr{v};
                            auto ert = one(n, 4, "equal_range", [&] { return cc.equal_range(pr); });
                            if (one(n, 2, "lower_bound", [&] { return cc.lower_bound(pr); }) != *lo ||
                                one(n, 2, "upper_bound", [&] { return cc.upper_bound(pr); }) != *up || ert.first != *e1 ||
                                ert.second != *e2)
                            {
                                fail("content", "transparent bounds of %d disagree with the plain ones", v);
                            }
                            if constexpr (MAP)
                            {
                                auto erm = one(n, 4, "equal_range", [&] { return c.equal_range(pr); });
                                if (one(n, 2, "lower_bound", [&] { return c.lower_bound(pr); }) != *lo ||
                                    one(n, 2, "upper_bound", [&] { return c.upper_bound(pr); }) != *up ||
                                    erm.first != *e1 || erm.second != *e2)
                                {
                                    fail("content", "mutable transparent bounds of %d disagree with the plain ones", v);
                                }
                            }
                            check_span(slot, c, span, sl, su);
                        }
                    });
                search_bound(n, 40, "bounds of one key");
                const std::size_t li = m_lower(slot, v);
                const std::size_t ui = m_upper(slot, v);
                Quiet qq;
                auto desig = [&](const const_iterator& it, std::size_t i)
                { return i == n ? it == cc.end() : (it != cc.end() && key_of(*it) == S.m[i].k); };
                if (!desig(*lo, li) || !desig(*up, ui) || !desig(*e1, li) || !desig(*e2, ui))
                {
                    fail("content", "lower_bound/upper_bound/equal_range(%d) disagree with the reference", v);
                }
            }
            return;
        }
        case MK_read_walk:
        {
            const C& cc = c;
            std::size_t cnt = 0;
            lib(
                [&]
                {
                    for (auto&& e : cc)
                    {
                        on_event(Ev::Pred, false);
                        NoEvents q;
                        tr(static_cast<u64>(key_of(e).v));
                        if (++cnt > N)
                        {
                            fail("content", "range-for visits more than %zu entries", N);
                        }
                    }
                });
            if (cnt != n)
            {
                fail("content", "range-for visits %zu of %zu entries", cnt, n);
            }
            check(slot);
            return;
        }
        case MK_iter_steps:
        {
            lib(
                [&]
                {
                    NoEvents q;
                    MV order[N + 1];
                    std::size_t cnt = 0;
                    for (const auto& e : c)
                    {
                        if (cnt >= n)
                        {
                            fail("content", "range-for visits more than %zu entries", n);
                        }
                        order[cnt++] = key_of(e);
                    }
                    iter_walk_all(c, n, op.b, op.c,
                                  [&](const auto& it, std::size_t i)
                                  {
                                      if (i >= n || !(key_of(*it) == order[i]))
                                      {
                                          return false;
                                      }
                                      if constexpr (MAP)
                                      {
                                          const std::size_t j = m_find(S.m, S.sp, order[i].v);
                                          return j < n && ET<K>::get(it->first) == order[i] &&
                                                 ET<V>::get(it->second) == S.m[j].v;
                                      }
                                      else
                                      {
                                          return ET<K>::get(*it.operator->()) == order[i];
                                      }
                                  });
                });
            return;
        }
        case MK_write_walk:
        {
            if constexpr (MAP)
            {
                // structured-binding iteration with writes through the proxy references
                std::size_t i = 0;
                MV nv[N + 1];
                MV kk[N + 1];
                for (std::size_t x = 0; x < n; ++x)
                {
                    nv[x] = fresh_val(op.c + static_cast<u32>(x));
                }
                mutate(
                    slot,
                    G::Strong,
                    [&]
                    {
                        for (auto it = c.begin(); it != c.end() && i < n; ++it, ++i)
                        {
                            SrcBuf<V, 1> vb;
                            vb.add(nv[i].v, nv[i].p);
                            {
                                Quiet qq;
                                kk[i] = key_of(*it);
                            }
                            if (op.b % 2 == 0)
                            {
                                it->second = std::move(vb.data()[0]);
                            }
                            else
                            {
                                auto&& [key, value] = *it;
                                value = std::move(vb.data()[0]);
                            }
                        }
                    },
                    [&]
                    {
                        for (std::size_t x = 0; x < i; ++x)
                        {
                            const std::size_t j = m_find(S.m, S.sp, kk[x].v);
                            if (j == n)
                            {
                                fail("content", "iteration visits an unknown key %d", kk[x].v);
                            }
                            S.m[j].v = nv[x];
                        }
                    });
            }
            return;
        }
        case MK_copy_construct:
        {
            if constexpr (COPY)
            {
                const int d = op.slot2;
                if (d == slot)
                {
                    return;
                }
                if constexpr (ORD)
                {
                    W.cur->throw_allowed = false;  // insertion is noexcept
                }
                destroy(d);
                if (!lib([&] { construct(d, [&](void* p) { ::new (p) C(static_cast<const C&>(c)); }); }))
                {
                    if (live_per_entry() != 0 && reg_block_count(d, st[d].s.half) != 0)
                    {
                        fail("lifetime", "a failed copy construction left %u live elements",
                             reg_block_count(d, st[d].s.half));
                    }
                    fresh_at(d);
                    check(slot, "exc-strong");
                    return;
                }
                copy_model(d, slot);
                check(d);
                check(slot);
            }
            return;
        }
        case MK_copy_assign:
        {
            if constexpr (COPY)
            {
                const int d = op.slot2;
                if (d == slot || BYTEWISE && !probe_known)
                {
                    return;
                }
                if constexpr (ORD)
                {
                    W.cur->throw_allowed = false;
                }
                drop_handles(d);
                if (lib([&] { *st[d].s = static_cast<const C&>(c); }))
                {
                    copy_model(d, slot);
                    check(d);
                }
                else
                {
                    // basic guarantee: the target may hold the old or the new functors
                    after_failed_assign(d, slot);
                }
                check(slot);
            }
            return;
        }
        case MK_move_construct:
        case MK_move_assign:
        {
            const int d = op.slot2;
            if (d == slot || BYTEWISE && !probe_known && op.kind == MK_move_assign)
            {
                return;
            }
            if (op.kind == MK_move_construct)
            {
                destroy(d);
                lib([&] { construct(d, [&](void* p) { ::new (p) C(std::move(c)); }); });
            }
            else
            {
                drop_handles(d);
                lib([&] { *st[d].s = std::move(c); });
            }
            copies_at_most(0, "moving the container");
            copy_model(d, slot);
            drop_handles(slot);
            if (op.b % 2 == 0 || BYTEWISE && !probe_known)
            {
                destroy(slot);
                fresh_at(slot);
            }
            else
            {
                lib(
                    [&]
                    {
                        alignas(C) unsigned char buf[sizeof(C)];
                        C* tmp = make_at<C, MT>(buf, S.sp);
                        *S.s = std::move(*tmp);
                        tmp->~C();
                    });
                S.m.clear();
            }
            check(d);
            check(slot);
            return;
        }
        case MK_swap_objects:
        {
            const int d = op.slot2;
            if (d == slot || BYTEWISE && !probe_known)
            {
                return;
            }
            drop_handles(d);
            drop_handles(slot);
            lib(
                [&]
                {
                    using std::swap;
                    swap(c, *st[d].s);
                });
            std::swap(S.m, st[d].m);
            std::swap(S.sp, st[d].sp);
            check(d);
            check(slot);
            return;
        }
        case MK_self_assign:
        {
            if constexpr (COPY)
            {
                drop_handles(slot);
                lib(
                    [&]
                    {
                        C& same = c;
                        if (op.b % 3 == 0)
                        {
                            c = std::move(same);
                        }
                        else
                        {
                            c = static_cast<const C&>(same);
                        }
                    });
                check(slot);
            }
            return;
        }
        case MK_compare:
        {
            const int d = op.slot2;
            const C& a = c;
            const C& b = *st[d].s;
            bool eq = false;
            std::strong_ordering o = std::strong_ordering::equal;
            if (!lib(
                    [&]
                    {
                        eq = a == b;
                        if constexpr (KIND == MK::OS)
                        {
                            o = a <=> b;
                        }
                    }))
            {
                check(slot);
                check(d);
                return;
            }
            check_cmp(S.m, st[d].m, st[d].sp, eq, o);
            check(slot);
            return;
        }
        case MK_compare_other_cap:
        {
            if constexpr (COPY)
            {
                std::vector<Ent>& other = scratch[op.task % NTASKS];
                other = S.m;
                if (op.b % 4 == 1 && !other.empty())
                {
                    other.erase(other.begin() + static_cast<long>(op.c % other.size()));
                }
                if (op.b % 4 == 2 && !other.empty())
                {
                    other[op.c % other.size()].v.v += 1;
                }
                if (op.b % 4 == 3 && !other.empty())  // equal, but not identical
                {
                    Ent& e = other[op.c % other.size()];
                    e.v = mk<V>(e.v.v, e.v.p + 1);
                    e.k = mk<K>(e.k.v, e.k.p + 1);
                }
                if (op.c / 2 % 2 == 0)
                {
                    compare_with<C2, MT2>(slot, other, op.c);
                }
                else
                {
                    compare_with<C3, MT3>(slot, other, op.c);
                }
            }
            return;
        }
        case MK_overflow_insert:
        {
            if (n < N)
            {
                return;
            }
            int v = static_cast<int>(op.a % W.k.key_range);
            for (int t = 0; t < 400 && has(slot, v); ++t)
            {
                v += 1;
            }
            if (has(slot, v))
            {
                return;
            }
            SrcBuf<K, 1> kb;
            kb.add(v, 1);
            SrcBuf<V, 1> vb;
            vb.add(1, 1);
            K& ks = kb.data()[0];
            expect_length(N + 1);
            lib(
                [&]
                {
                    if constexpr (MAP)
                    {
                        switch (op.b % 5)
                        {
                        case 0: c.insert(typename C::value_type(ks, std::move(vb.data()[0]))); break;
                        case 1: c.try_emplace(ks, std::move(vb.data()[0])); break;
                        case 2: c.insert_or_assign(ks, std::move(vb.data()[0])); break;
                        case 3: c.emplace(ks, std::move(vb.data()[0])); break;
                        default: c[ks]; break;
                        }
                    }
                    else
                    {
                        switch (op.b % 3)
                        {
                        case 0: c.insert(static_cast<const K&>(ks)); break;
                        case 1: c.insert(std::move(ks)); break;
                        default: c.emplace(static_cast<const K&>(ks)); break;
                        }
                    }
                });
            return;
        }
        case MK_bad_at:
        {
            if constexpr (MAP)
            {
                int v = static_cast<int>(op.a % W.k.key_range);
                for (int t = 0; t < 400 && has(slot, v); ++t)
                {
                    v += 1;
                }
                if (has(slot, v))
                {
                    return;
                }
                SrcBuf<K, 1> kb;
                kb.add(v, 1);
                const K& k = kb.data()[0];
                const C& cc = c;
                expect_range(static_cast<u64>(static_cast<u32>(v)), S.m.size());
                lib(
                    [&]
                    {
                        const V* p = op.b % 2 == 0 ? std::addressof(c.at(k)) : std::addressof(cc.at(k));
                        tr(p != nullptr);
                    });
            }
            return;
        }
        case MK_bad_erase:
        {
            expect(R_ABORT);
            if constexpr (ORD)
            {
                if (n >= 2 && op.a % 2 == 0)
                {
                    const std::size_t f = 1 + op.b % (n - 1);
                    const_iterator last = it_of(slot, S.m[op.c % f]);
                    const_iterator first = it_of(slot, S.m[f]);
                    lib([&] { c.erase(first, last); });  // a range that ends before it starts
                    return;
                }
            }
            lib([&] { c.erase(static_cast<const C&>(c).end()); });
            return;
        }
        case MK_alias_insert:
        {
            if (n == 0)
            {
                return;
            }
            const Ent e = S.m[op.b % n];
            iterator it = it_of(slot, e);
            std::optional<iterator> ret;
            int ins = -1;
            mutate(
                slot,
                G::Strong,
                [&]
                {
                    if constexpr (MAP)
                    {
                        auto r = c.try_emplace((*it).first);
                        ret.emplace(r.first);
                        ins = r.second ? 1 : 0;
                    }
                    else
                    {
                        auto r = c.insert(*it);
                        ret.emplace(r.first);
                        ins = r.second ? 1 : 0;
                    }
                },
                [&] { check_ins(slot, ret, &ins, false, e.k.v, "insert(own key)"); });
            return;
        }
        case MK_alias_assign:
        {
            if constexpr (MAP && COPY)
            {
                if (n == 0)
                {
                    return;
                }
                const Ent e = S.m[op.b % n];  // value argument refers to this entry
                const MV k = op.c % 3 == 0 ? S.m[op.c % n].k : fresh_key(op.a);
                const std::size_t j = m_find(S.m, S.sp, k.v);
                const bool is_new = j == n;
                if (guard_full(slot, is_new))
                {
                    return;
                }
                SrcBuf<K, 1> kb;
                kb.add(k.v, k.p);
                iterator it = it_of(slot, e);
                std::optional<iterator> ret;
                int ins = -1;
                const bool assign = op.c % 2 == 0;
                mutate(
                    slot,
                    G::Strong,
                    [&]
                    {
                        const V& own = (*it).second;
                        const K& kc = kb.data()[0];
                        auto r = assign ? c.insert_or_assign(kc, own) : c.try_emplace(kc, own);
                        ret.emplace(r.first);
                        ins = r.second ? 1 : 0;
                    },
                    [&]
                    {
                        if (is_new)
                        {
                            m_insert(slot, k, e.v);
                        }
                        else if (assign)
                        {
                            S.m[j].v = e.v;
                        }
                        check_ins(slot, ret, &ins, is_new, k.v, "insert_or_assign(own value)");
                    });
            }
            return;
        }
        case MK_take_handle:
        {
            if (n == 0 || S.h.size() >= 6)
            {
                return;
            }
            const Ent& e = S.m[op.b % n];
            {
                Quiet qq;
                iterator it = it_of(slot, e);
                if (it == c.end())
                {
                    fail("content", "find(%d) == end() for a present key", e.k.v);
                }
                if constexpr (MAP)
                {
                    S.h.push_back(Handle{e.uid, std::addressof((*it).first), std::addressof((*it).second), it});
                }
                else
                {
                    S.h.push_back(Handle{e.uid, std::addressof(*it), nullptr, it});
                }
            }
            check_handles(slot);
            return;
        }
        case MK_relocate:
        {
            if constexpr (std::is_trivially_copyable_v<C>)
            {
                drop_handles(slot);
                S.s.relocate();
                check(slot, "image");
            }
            return;
        }
        case MK_view: check_view(slot); return;
        case MK_churn: churn(op); return;
        default: return;
        }
    }

    // a long stretch of plain insertions and erasures in one of several patterns, so that histories of
    // thousands of updates occur; afterwards every key must still be found within its bound
    void churn(const Op& op)
    {
        const int slot = op.slot;
        St& S = st[slot];
        C& c = *S.s;
        if (N == 0)
        {
            return;
        }
        drop_handles(slot);
        const std::size_t steps = op.c % 499 == 3 ? 4000 : 16 + op.c % 256;
        const int span = static_cast<int>(std::min<std::size_t>(6 * N + 8, 4000));
        u64 x = mix64(op.a * 77u + op.b);
        bool filling = true;
        lib(
            [&]
            {
                Quiet qq;
                for (std::size_t i = 0; i < steps; ++i)
                {
                    x = mix64(x + i + 1);
                    const std::size_t n = S.m.size();
                    int v = static_cast<int>(x % static_cast<u64>(span));
                    bool erase_end = false;
                    std::size_t at = 0;
                    switch (op.b % 6)
                    {
                    case 0: v = static_cast<int>((op.a + i) % static_cast<u64>(span)); break;
                    case 1: v = span - 1 - static_cast<int>((op.a + i) % static_cast<u64>(span)); break;
                    case 2: v = span - 1 - static_cast<int>((x >> 20) % (1 + v)); break;
                    case 3: v = static_cast<int>((x >> 20) % (1 + v)); break;
                    default: break;
                    }
                    filling = n == 0 || (filling && n < N);
                    const bool take = n >= N || (op.b % 6 >= 4 && n > 0 && !filling);
                    if (take)
                    {
                        // both ends, then anywhere
                        at = op.b % 6 == 0 ? 0 : op.b % 6 == 1 ? n - 1 : static_cast<std::size_t>((x >> 33) % n);
                        erase_end = true;
                        v = S.m[at].k.v;
                    }
                    const std::size_t j = m_find(S.m, S.sp, v);
                    if (j != n && (erase_end || op.b % 6 >= 2))
                    {
                        if ((x >> 50) % 3 == 0)
                        {
                            (void)c.erase(c.find(KE::make(v, 0)));
                        }
                        else if (c.erase(KE::make(v, 0)) != 1)
                        {
                            fail("content", "erase(%d) does not erase the present key", v);
                        }
                        S.m.erase(S.m.begin() + static_cast<long>(j));
                    }
                    else if (j == n && n < N)
                    {
                        const MV k = mk<K>(v, next_p++);
                        const MV w = mk<V>(static_cast<int>(x % 5), next_p++);
                        bool ok = false;
                        if constexpr (MAP)
                        {
                            ok = c.try_emplace(KE::make(k.v, k.p), VE::make(w.v, w.p)).second;
                        }
                        else
                        {
                            ok = c.insert(KE::make(k.v, k.p)).second;
                        }
                        if (!ok)
                        {
                            fail("content", "insert(%d) does not insert the new key", v);
                        }
                        m_insert(slot, k, MAP ? w : MV{});
                    }
                }
            });
        check(slot);
        probe_depth(slot);
    }
    void probe_depth(int slot)
    {
        if constexpr (ORD && !Cfg::defaults)
        {
            St& S = st[slot];
            const C& c = *S.s;
            const std::size_t n = S.m.size();
            u32 h = 0;  // a red-black tree of n nodes is at most 2*log2(n+1) high
            while ((std::size_t{2} << h) <= (n + 1) * (n + 1))
            {
                ++h;
            }
            lib(
                [&]
                {
                    for (const Ent& e : S.m)
                    {
                        alignas(K) unsigned char raw[sizeof(K)];
                        K* key = nullptr;
                        {
                            NoEvents q;
                            key = ::new (static_cast<void*>(raw)) K(KE::make(e.k.v, 0));
                        }
                        const u32 before = W.cur->evc[static_cast<int>(Ev::Compare)];
                        const bool found = c.contains(*key);
                        const u32 used = W.cur->evc[static_cast<int>(Ev::Compare)] - before;
                        {
                            NoEvents q;
                            key->~K();
                        }
                        if (!found)
                        {
                            fail("content", "contains(%d) is false, the reference has the key", e.k.v);
                        }
                        if (used > 2 * h + 2)
                        {
                            fail("progress", "finding one of %zu keys took %u comparisons, bound %u", n, used, 2 * h + 2);
                        }
                    }
                });
            SIM_COUNT("probe.depth_walk");
        }
    }

    // the entries as a type-erased reader of the object's bytes sees them
    void check_view(int slot)
    {
        if constexpr (HAS_VIEW)
        {
            St& S = st[slot];
            const auto walk = [&](const auto& view)
            {
                SIM_COUNT("probe.raw_view");
                if (view.size() != S.m.size())
                {
                    fail("image", "the raw view shows %zu entries, reference %zu",
                         static_cast<std::size_t>(view.size()), S.m.size());
                }
                std::size_t i = 0;
                const auto e = view.end();
                const C& own = *S.s;
                auto mine = own.begin();
                for (auto it = view.begin(); it != e; ++i)
                {
                    if (i >= S.m.size())
                    {
                        fail("image", "the raw view walks past %zu entries", S.m.size());
                    }
                    MV k;
                    MV v = S.m[i].v;
                    if constexpr (MAP)
                    {
                        k = read_image<K>(S.s, (*it).key());
                        v = read_image<V>(S.s, (*it).value());
                        if constexpr (requires { it->key(); })
                        {
                            if (it->key() != (*it).key() || it->value() != (*it).value())
                            {
                                fail("image", "operator-> of the raw view's iterator designates another entry");
                            }
                        }
                    }
                    else
                    {
                        k = read_image<K>(S.s, *it);
                        if constexpr (requires { *it.operator->(); })
                        {
                            if (*it.operator->() != *it)
                            {
                                fail("image", "operator-> of the raw view's iterator designates another entry");
                            }
                        }
                    }
                    // the order of an unordered container is its own, but its reader must see the same one
                    const std::size_t j = ORD ? i : m_find(S.m, S.sp, k.v);
                    if (j == S.m.size() || k != S.m[j].k || v != S.m[j].v)
                    {
                        fail("image", "the raw view shows (%d,%d)->(%d,%d) at %zu, which is not in the reference", k.v,
                             k.p, v.v, v.p, i);
                    }
                    if (mine == own.end() || key_of(*mine) != k)
                    {
                        fail("image", "the raw view shows key %d at %zu, where the container itself has another entry", k.v, i);
                    }
                    ++mine;
                    if constexpr (requires { it++; })
                    {
                        if (i % 2 == 1)
                        {
                            auto old = it++;
                            const void* at = nullptr;
                            if constexpr (MAP)
                            {
                                at = (*old).key();
                            }
                            else
                            {
                                at = *old;
                            }
                            if (read_image<K>(S.s, static_cast<const std::byte*>(at)) != k)
                            {
                                fail("image", "post-increment of the raw view's iterator does not yield its old position");
                            }
                            continue;
                        }
                    }
                    ++it;
                }
                if (i != S.m.size())
                {
                    fail("image", "the raw view walks %zu of %zu entries", i, S.m.size());
                }
            };
            using ST = fixed_containers::fixed_red_black_tree_detail::RedBlackTreeStorageType;
            constexpr auto STORE = Cfg::contiguous ? ST::FIXED_INDEX_CONTIGUOUS : ST::FIXED_INDEX_POOL;
            lib(
                [&]
                {
                    const void* p = S.s.base();
                    if constexpr (KIND == MK::OM)
                    {
                        walk(fixed_containers::FixedMapRawView(p, sizeof(K), alignof(K), sizeof(V), alignof(V), N,
                                                               MT::COMPACT, STORE));
                    }
                    else if constexpr (KIND == MK::OS)
                    {
                        walk(fixed_containers::FixedRedBlackTreeRawView(p, sizeof(K), N, MT::COMPACT, STORE));
                    }
                    else if constexpr (KIND == MK::UM)
                    {
                        walk(fixed_containers::FixedUnorderedMapRawView(p, sizeof(K), alignof(K), sizeof(V),
                                                                        alignof(V), N));
                    }
                    else
                    {
                        walk(fixed_containers::FixedUnorderedSetRawView(p, sizeof(K), alignof(K), N));
                    }
                });
        }
    }

    void after_failed_assign(int d, int s)
    {
        St& D = st[d];
        // which functors the target ended up with is not specified: both are acceptable if consistent
        if (D.sp.cmode != st[s].sp.cmode || D.sp.hmode != st[s].sp.hmode)
        {
            Quiet qq;
            if (D.s->size() != 0)
            {
                // a non-empty target must work under the source's functors (its elements are copies)
                D.sp = st[s].sp;
            }
            else
            {
                const u32 live = reg_block_count(d, D.s.half);
                if (live != 0)
                {
                    fail("lifetime", "%u live elements in an empty container after a failed assignment", live);
                }
                D.s->~C();
                construct(d, [&](void* p) { make_at<C, MT>(p, D.sp); });
                D.m.clear();
                return;
            }
        }
        adopt(d, "exc-basic");
    }
    void copy_model(int d, int s)
    {
        st[d].m = st[s].m;
        st[d].sp = st[s].sp;
        for (auto& e : st[d].m)
        {
            e.uid = next_uid++;
        }
        st[d].h.clear();
    }
    template <class CX, class MTX>
    void compare_with(int slot, const std::vector<Ent>& other, u64 how)
    {
        const C& cc = *st[slot].s;
        const Spec& sp = st[slot].sp;
        bool eq = false;
        bool eq_r = false;
        std::strong_ordering o = std::strong_ordering::equal;
        {
            alignas(CX) unsigned char buf[sizeof(CX)];
            fill_garbage(buf, sizeof buf);
            CX* c2 = nullptr;
            {
                NoEvents q;
                c2 = make_at<CX, MTX>(static_cast<void*>(buf), sp);
                for (std::size_t i = 0; i < other.size(); ++i)  // another insertion order
                {
                    const Ent& e = other[how % 2 == 0 ? i : other.size() - 1 - i];
                    if constexpr (MAP)
                    {
                        c2->try_emplace(KE::make(e.k.v, e.k.p), VE::make(e.v.v, e.v.p));
                    }
                    else
                    {
                        c2->insert(KE::make(e.k.v, e.k.p));
                    }
                }
            }
            const CX& rc2 = *c2;
            lib(
                [&]
                {
                    eq = cc == rc2;
                    eq_r = rc2 == cc;
                    if constexpr (KIND == MK::OS)
                    {
                        o = cc <=> rc2;
                    }
                });
            {
                NoEvents q;
                c2->~CX();
            }
        }
        check_cmp(st[slot].m, other, sp, eq, o);
        if (eq != eq_r)
        {
            fail("content", "operator== is not symmetric between container types");
        }
        check(slot);
    }
    void check_cmp(const std::vector<Ent>& a, const std::vector<Ent>& b, const Spec& bsp, bool eq, std::strong_ordering o)
    {
        bool weq = a.size() == b.size();
        if (ORD)
        {
            for (std::size_t i = 0; weq && i < a.size(); ++i)
            {
                weq = a[i].k.v == b[i].k.v && (!MAP || a[i].v.v == b[i].v.v);
            }
        }
        else
        {
            for (std::size_t i = 0; weq && i < a.size(); ++i)
            {
                const std::size_t j = m_find(b, bsp, a[i].k.v);
                weq = j != b.size() && (!MAP || a[i].v.v == b[j].v.v);
            }
        }
        if (eq != weq)
        {
            fail("content", "operator== gives %d, reference %d", eq, weq);
        }
        if constexpr (KIND == MK::OS)
        {
            const auto wo =
                std::lexicographical_compare_three_way(a.begin(), a.end(), b.begin(), b.end(),
                                                       [](const Ent& x, const Ent& y) { return x.k.v <=> y.k.v; });
            if (o != wo)
            {
                fail("content", "operator<=> disagrees with the reference");
            }
        }
    }
};

template <MK KIND, class K, class V, std::size_t N, class Cfg>
Driver* make_map(const Knobs& k)
{
    return new MapDriver<KIND, K, V, N, Cfg>(k);
}
}  // namespace sim

#define MAP_SCENARIO(ID, KIND, KK, VV, NN, CFG)                                                                   \
    static ::sim::RegisterScenario reg_##ID(::sim::Scenario{                                                     \
        #ID, "map", ::sim::MAP_INFO, ::sim::MK_COUNT, NN,                                                         \
        &::sim::make_map<::sim::MK::KIND, ::sim::KK, ::sim::VV, NN, ::sim::CFG>,                                  \
        std::is_trivially_copyable_v<                                                                             \
            typename ::sim::MapType<::sim::MK::KIND, ::sim::KK, ::sim::VV, NN, ::sim::CFG>::type>                 \
            ? 0u                                                                                                  \
            : static_cast<::sim::u32>(::sim::OF_RELOC | ::sim::OF_VIEW)});
