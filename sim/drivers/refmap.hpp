// Maps whose values are references: the entries designate objects outside the container.
#pragma once
#include "enums.hpp"
#include "maps.hpp"

namespace sim
{
#define RM_OPS(X)                                                     \
    X(emplace, 8, OF_S1_W | OF_GROW)                                  \
    X(try_emplace, 8, OF_S1_W | OF_GROW)                              \
    X(insert, 8, OF_S1_W | OF_GROW)                                   \
    X(insert_range, 4, OF_S1_W | OF_GROW)                             \
    X(insert_ilist, 3, OF_S1_W | OF_GROW)                             \
    X(construct_range, 2, OF_S1_W | OF_GROW)                          \
    X(erase_key, 8, OF_S1_W | OF_SHRINK)                              \
    X(erase_it, 5, OF_S1_W | OF_SHRINK)                               \
    X(erase_range, 3, OF_S1_W | OF_SHRINK)                            \
    X(erase_pred, 3, OF_S1_W | OF_SHRINK)                             \
    X(clear, 1, OF_S1_W | OF_SHRINK)                                  \
    X(copy_construct, 4, OF_S1_R | OF_S2_W | OF_COPY)                 \
    X(copy_assign, 5, OF_S1_R | OF_S2_W | OF_COPY)                    \
    X(move_construct, 4, OF_S1_W | OF_S2_W | OF_COPY)                 \
    X(move_assign, 4, OF_S1_W | OF_S2_W | OF_COPY)                    \
    X(swap_objects, 2, OF_S1_W | OF_S2_W | OF_COPY)                   \
    X(self_assign, 1, OF_S1_W | OF_COPY)                              \
    X(compare, 4, OF_S1_R | OF_S2_R | OF_COPY)                        \
    X(lookup, 6, OF_S1_R)                                             \
    X(write_through, 4, OF_S1_R)                                      \
    X(write_referent, 4, OF_S1_R)                                     \
    X(overflow, 3, OF_S1_W | OF_REJ)                                  \
    X(bad_at, 3, OF_S1_R | OF_REJ)                                    \
    X(bad_erase, 1, OF_S1_W | OF_REJ)

enum RmOp
{
#define X(n, w, f) RMK_##n,
    RM_OPS(X)
#undef X
        RMK_COUNT
};
inline constexpr OpInfo RM_INFO[] = {
#define X(n, w, f) OpInfo{#n, w, f},
    RM_OPS(X)
#undef X
};

enum class RK
{
    POOL,
    CONT,
    HASH,
    ENUM
};

template <RK KIND, class T, std::size_t N>
struct RefMapDriver : Driver
{
    using V = T&;
    using U = std::remove_const_t<T>;
    static constexpr bool CONST = std::is_const_v<T>;
    static constexpr bool ENUM = KIND == RK::ENUM;
    static constexpr bool HASH = KIND == RK::HASH;
    static constexpr bool ORD = !HASH;
    using K = std::conditional_t<ENUM, EGap, int>;
    static constexpr std::size_t BUCKETS = N + 2;
    static constexpr auto COMPACT =
        fixed_containers::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR;
    static auto sel()
    {
        if constexpr (KIND == RK::POOL)
        {
            return std::type_identity<fixed_containers::FixedMap<K, V, N, Cmp<false>, COMPACT, PoolSt, MapPolicy<K>>>{};
        }
        else if constexpr (KIND == RK::CONT)
        {
            return std::type_identity<fixed_containers::FixedMap<K, V, N, Cmp<false>, COMPACT, ContSt, MapPolicy<K>>>{};
        }
        else if constexpr (KIND == RK::HASH)
        {
            return std::type_identity<
                fixed_containers::FixedUnorderedMap<K, V, N, HashF<BUCKETS>, EqF, BUCKETS, MapPolicy<K>>>{};
        }
        else
        {
            return std::type_identity<fixed_containers::EnumMap<K, V, EnumPolicy<K>>>{};
        }
    }
    using C = typename decltype(sel())::type;
    static constexpr std::size_t CAP = ENUM ? KeysOf<EGap>::N : N;
    using VT = std::pair<const K, V>;

    static constexpr int POOL = 7;
    struct Ent
    {
        int k;
        int to;
    };
    struct St
    {
        Slot<C> s;
        std::vector<Ent> m;
        u32 cmode = 0;
        u32 hmode = 0;
    };
    St st[NSLOTS];
    SrcBuf<U, POOL> pool;
    MV pm[POOL];
    u32 version = 0;
    int next_p = 1;
    u32 opno = 0;

    explicit RefMapDriver(const Knobs& k)
    {
        W.abort_policy = false;
        for (int i = 0; i < NSLOTS; ++i)
        {
            st[i].s.id = i;
            st[i].m.reserve(CAP + 4);
            st[i].cmode = ENUM ? 0 : static_cast<u32>(mix64(k.garbage + static_cast<u32>(i)) % 2);
            st[i].hmode = static_cast<u32>(mix64(k.key_range * 31 + static_cast<u32>(i)) % 8);
        }
    }
    T* obj(int i) { return pool.data() + i; }
    int keys() const { return ENUM ? static_cast<int>(CAP) : static_cast<int>(std::max<u32>(2, std::min<u32>(W.k.key_range, N * 2))); }
    K key(int k) const
    {
        if constexpr (ENUM)
        {
            return KeysOf<EGap>::at(static_cast<std::size_t>(k));
        }
        else
        {
            return k;
        }
    }
    long rk(const St& S, int k) const { return rank_of(S.cmode, k); }
    std::size_t find(const St& S, int k) const
    {
        std::size_t i = 0;
        while (i < S.m.size() && S.m[i].k != k)
        {
            ++i;
        }
        return i;
    }
    bool has(const St& S, int k) const { return find(S, k) != S.m.size(); }
    void m_insert(St& S, int k, int to)
    {
        if (has(S, k))
        {
            return;
        }
        auto it = S.m.begin();
        while (it != S.m.end() && (!ORD || rk(S, it->k) < rk(S, k)))
        {
            ++it;
        }
        S.m.insert(it, Ent{k, to});
    }

    void check(int slot, const char* cls = "content")
    {
        St& S = st[slot];
        const ReadOnly ro(S.s.base(), sizeof(*S.s));
        C& mc = *S.s;
        const C& c = mc;
        OpCtx* oc = W.cur;
        const u8 es = oc->expect;
        oc->expect = R_NONE;
        const bool il = oc->in_lib;
        oc->in_lib = true;
        NoEvents q;
        S.s.check_canary();
        if (c.size() != S.m.size() || c.empty() != S.m.empty())
        {
            fail(cls, "size() is %zu, reference %zu", c.size(), S.m.size());
        }
        std::size_t i = 0;
        for (auto it = c.cbegin(); it != c.cend(); ++it, ++i)
        {
            if (i >= S.m.size())
            {
                fail(cls, "iteration goes past the entries");
            }
            const auto e = *it;
            std::size_t j = i;
            if (!ORD)
            {
                for (j = 0; j < S.m.size() && key(S.m[j].k) != e.first; ++j)
                {
                }
                if (j == S.m.size())
                {
                    fail(cls, "iteration visits an entry the reference does not hold");
                }
            }
            if (e.first != key(S.m[j].k) || std::addressof(e.second) != obj(S.m[j].to))
            {
                fail(cls, "entry %zu does not designate the object it was bound to", i);
            }
            tr(static_cast<u64>(S.m[j].k) * 31 + static_cast<u64>(S.m[j].to));
        }
        if (i != S.m.size())
        {
            fail(cls, "iteration visits %zu entries, reference %zu", i, S.m.size());
        }
        for (int k = 0; k < keys(); ++k)
        {
            const std::size_t j = find(S, k);
            const bool want = j != S.m.size();
            const K kk = key(k);
            if (c.contains(kk) != want || (mc.find(kk) != mc.end()) != want || c.count(kk) != (want ? 1 : 0))
            {
                fail(cls, "key %d: presence disagrees with the reference (%d)", k, want);
            }
            if (want && (std::addressof(mc.at(kk)) != obj(S.m[j].to) ||
                         std::addressof(mc.find(kk)->second) != obj(S.m[j].to)))
            {
                fail(cls, "key %d does not designate the object it was bound to", k);
            }
        }
        for (int k = 0; k < POOL; ++k)
        {
            if (!(ET<U>::get(*obj(k)) == pm[k]))
            {
                fail(cls, "object %d changed although nothing wrote to it", k);
            }
        }
        oc->in_lib = il;
        oc->expect = es;
    }
    void others()
    {
        if (++opno % 3 != 0)
        {
            return;
        }
        for (int i = 0; i < NSLOTS; ++i)
        {
            if (!slot_busy(i))
            {
                check(i, "isolation");
            }
        }
    }
    template <class... A>
    static void make_at(void* p, const St& S, A&&... a)
    {
        if constexpr (ENUM)
        {
            ::new (p) C(std::forward<A>(a)...);
        }
        else if constexpr (HASH)
        {
            HashF<BUCKETS> h{};
            h.mode = (S.cmode << 4) | S.hmode;
            EqF e{};
            e.mode = S.cmode;
            ::new (p) C(std::forward<A>(a)..., h, e);
        }
        else
        {
            Cmp<false> cmp{};
            cmp.mode = S.cmode;
            ::new (p) C(std::forward<A>(a)..., cmp);
        }
    }
    template <class Fn>
    void construct(int slot, Fn&& fn)
    {
        St& S = st[slot];
        if (S.s.live)
        {
            lib([&] { S.s->~C(); });
            S.s.live = false;
        }
        S.s.prepare();
        lib([&] { fn(static_cast<void*>(S.s.base())); });
        S.s.live = true;
    }
    void fresh_at(int slot)
    {
        construct(slot, [&](void* p) { make_at(p, st[slot]); });
        st[slot].m.clear();
    }
    void start() override
    {
        for (int i = 0; i < POOL; ++i)
        {
            pm[i] = mk<U>(i / 2, next_p++);
            pool.add(pm[i].v, pm[i].p);
        }
        for (int i = 0; i < NSLOTS; ++i)
        {
            fresh_at(i);
            check(i);
        }
    }
    void finish() override
    {
        for (int i = 0; i < NSLOTS; ++i)
        {
            check(i, "isolation");
            lib([&] { st[i].s->~C(); });
            st[i].s.live = false;
        }
        for (int i = 0; i < POOL; ++i)
        {
            NoEvents q;
            if (!(ET<U>::get(*obj(i)) == pm[i]))
            {
                fail("lifetime", "object %d did not survive the references to it", i);
            }
        }
    }
    void after_abandon(const Op& op, int reason) override
    {
        const char* cls = reason == A_REJECT ? "reject-effect" : "isolation";
        if (!slot_busy(op.slot))
        {
            check(op.slot, cls);
        }
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + static_cast<u32>(st[op.slot].m.size()) * 7 + 5));
    }
    u32 pattern(int slot) const
    {
        u32 r = 1;
        for (const Ent& e : st[slot].m)
        {
            r = r * 31 + static_cast<u32>(e.k) * 7 + static_cast<u32>(e.to);
        }
        return r;
    }
    std::pair<const char*, std::size_t> bytes(int slot) override
    {
        auto& s = st[slot].s;
        return s.live ? std::pair<const char*, std::size_t>{s.base(), sizeof(*s)} : std::pair<const char*, std::size_t>{nullptr, 0};
    }
    void exec(const Op& op) override
    {
        do_exec(op);
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + pattern(op.slot) * 8191));
        others();
    }
    void no_touch(const char* what)
    {
        OpCtx* c = W.cur;
        u32 work = 0;
        for (Ev e : {Ev::Copy, Ev::CopyAssign, Ev::Move, Ev::MoveAssign, Ev::Default, Ev::Value, Ev::Destroy})
        {
            work += c->evc[static_cast<int>(e)];
        }
        if (work != 0)
        {
            fail("content", "%s touched an object instead of the reference", what);
        }
    }
    bool full_for(const St& S, int k) const { return !ENUM && !has(S, k) && S.m.size() == CAP; }

    void do_exec(const Op& op)
    {
        const int slot = op.slot;
        const int slot2 = op.slot2;
        St& S = st[slot];
        St& D = st[slot2];
        C& c = *S.s;
        const C& cc = c;
        const int k = static_cast<int>(op.a % static_cast<u32>(keys()));
        const K kk = key(k);
        const int to = static_cast<int>(op.b % POOL);
        const std::size_t n = S.m.size();
        switch (op.kind)
        {
        case RMK_emplace:
        case RMK_try_emplace:
        case RMK_insert:
        {
            if (full_for(S, k))
            {
                if (rejects_stripped())
                {
                    return;
                }
                expect_length(CAP + 1);
            }
            const bool was = has(S, k);
            const T* got = nullptr;
            bool ins = false;
            lib(
                [&]
                {
                    T& r = *obj(to);
                    auto take = [&](auto&& p)
                    {
                        got = std::addressof(p.first->second);
                        ins = p.second;
                    };
                    if (op.kind == RMK_emplace)
                    {
                        take(c.emplace(kk, r));
                    }
                    else if (op.kind == RMK_try_emplace)
                    {
                        take(c.try_emplace(kk, r));
                    }
                    else
                    {
                        const VT p(kk, r);
                        if constexpr (CONST)
                        {
                            if (op.c % 2 == 0)
                            {
                                take(c.insert(VT(kk, r)));
                                return;
                            }
                        }
                        take(c.insert(p));
                    }
                });
            m_insert(S, k, to);
            if (ins == was || got != obj(S.m[find(S, k)].to))
            {
                fail("content", "insertion reports %d and the wrong entry", ins);
            }
            break;
        }
        case RMK_insert_range:
        case RMK_insert_ilist:
        case RMK_construct_range:
        {
            const bool cons = op.kind == RMK_construct_range;
            const int k2 = static_cast<int>((op.a / 64) % static_cast<u32>(keys()));
            const int k3 = static_cast<int>((op.a / 4096) % static_cast<u32>(keys()));
            const VT arr[3] = {VT(kk, *obj(to)),
                               VT(key(k2), *obj(static_cast<int>(op.c % POOL))),
                               VT(key(k3), *obj(static_cast<int>(op.c / 8 % POOL)))};
            St t;
            t.cmode = S.cmode;
            t.m.reserve(CAP + 4);
            if (!cons)
            {
                for (const Ent& e : S.m)
                {
                    t.m.push_back(e);
                }
            }
            m_insert(t, k, to);
            m_insert(t, k2, static_cast<int>(op.c % POOL));
            m_insert(t, k3, static_cast<int>(op.c / 8 % POOL));
            if (t.m.size() > CAP)
            {
                return;
            }
            if (cons)
            {
                construct(slot, [&](void* p) { make_at(p, S, arr + 0, arr + 3); });
            }
            else if (op.kind == RMK_insert_range)
            {
                lib([&] { c.insert(arr + 0, arr + 3); });
            }
            else
            {
                lib([&] { c.insert({arr[0], arr[1], arr[2]}); });
            }
            S.m = t.m;
            break;
        }
        case RMK_erase_key:
        {
            std::size_t r = 0;
            lib([&] { r = c.erase(kk); });
            const std::size_t i = find(S, k);
            if (r != (i != n ? 1U : 0U))
            {
                fail("content", "erase returns %zu", r);
            }
            if (i != n)
            {
                S.m.erase(S.m.begin() + static_cast<long>(i));
            }
            break;
        }
        case RMK_erase_it:
        case RMK_erase_range:
        {
            if (n == 0)
            {
                return;
            }
            std::size_t f = op.b % n;
            std::size_t l = op.kind == RMK_erase_it ? f + 1 : f + op.c % (n - f + 1);
            // positions are those of the container's own iteration order
            std::vector<int> order;
            {
                NoEvents q;
                for (auto it = cc.cbegin(); it != cc.cend(); ++it)
                {
                    for (const Ent& e : S.m)
                    {
                        if (key(e.k) == it->first)
                        {
                            order.push_back(e.k);
                        }
                    }
                }
            }
            bool at_end = false;
            K nk{};
            lib(
                [&]
                {
                    auto first = std::next(cc.cbegin(), static_cast<long>(f));
                    auto last = std::next(cc.cbegin(), static_cast<long>(l));
                    auto r = op.kind == RMK_erase_it ? c.erase(first) : c.erase(first, last);
                    at_end = r == c.end();
                    if (!at_end)
                    {
                        nk = r->first;
                    }
                });
            if (at_end != (l == n) || (!at_end && nk != key(order[l])))
            {
                fail("content", "erase does not return the entry after the erased ones");
            }
            for (std::size_t i = f; i < l; ++i)
            {
                S.m.erase(S.m.begin() + static_cast<long>(find(S, order[i])));
            }
            break;
        }
        case RMK_erase_pred:
        {
            const T* gone = obj(to);
            std::size_t r = 0;
            lib([&] { r = fixed_containers::erase_if(c, [&](const auto& e) { return std::addressof(e.second) == gone; }); });
            const std::size_t want = std::erase_if(S.m, [&](const Ent& e) { return e.to == to; });
            if (r != want)
            {
                fail("content", "erase_if returns %zu, reference %zu", r, want);
            }
            break;
        }
        case RMK_clear:
            lib([&] { c.clear(); });
            S.m.clear();
            break;
        case RMK_copy_construct:
            if (slot == slot2)
            {
                return;
            }
            construct(slot2, [&](void* p) { ::new (p) C(cc); });
            copy_model(S, D);
            check(slot2);
            break;
        case RMK_copy_assign:
            lib([&] { *D.s = cc; });
            copy_model(S, D);
            check(slot2);
            break;
        case RMK_move_construct:
            if (slot == slot2)
            {
                return;
            }
            construct(slot2, [&](void* p) { ::new (p) C(std::move(c)); });
            copy_model(S, D);
            check(slot2);
            fresh_at(slot);
            break;
        case RMK_move_assign:
            if (slot == slot2)
            {
                return;
            }
            lib([&] { *D.s = std::move(c); });
            copy_model(S, D);
            check(slot2);
            fresh_at(slot);
            break;
        case RMK_swap_objects:
            if (slot == slot2)
            {
                return;
            }
            lib(
                [&]
                {
                    using std::swap;
                    swap(c, *D.s);
                });
            std::swap(S.m, D.m);
            std::swap(S.cmode, D.cmode);
            std::swap(S.hmode, D.hmode);
            check(slot2);
            break;
        case RMK_self_assign:
            lib(
                [&]
                {
                    C& alias = c;
                    c = alias;
                });
            break;
        case RMK_compare:
        {
            if constexpr (ENUM && !CONST)
            {
                return;
            }
            else
            {
                const u32 v0 = version;
                const C& d = *D.s;
                bool eq = false;
                lib([&] { eq = cc == d; });
                if (v0 != version)
                {
                    break;
                }
                bool want = n == D.m.size();
                for (std::size_t i = 0; want && i < n; ++i)
                {
                    const std::size_t j = ORD ? i : find(D, S.m[i].k);
                    want = j < D.m.size() && D.m[j].k == S.m[i].k && pm[D.m[j].to].v == pm[S.m[i].to].v;
                }
                if (eq != want)
                {
                    fail("content", "operator== gives %d, reference %d", eq, want);
                }
            }
            break;
        }
        case RMK_lookup:
        {
            const T* a = nullptr;
            const T* b = nullptr;
            const std::size_t i = find(S, k);
            lib(
                [&]
                {
                    if constexpr (!(ENUM && !CONST))
                    {
                        auto it = cc.find(kk);
                        a = it == cc.end() ? nullptr : std::addressof(it->second);
                    }
                    else
                    {
                        a = i == n ? nullptr : obj(S.m[i].to);
                    }
                    auto it = c.find(kk);
                    b = it == c.end() ? nullptr : std::addressof((*it).second);
                });
            const T* want = i == n ? nullptr : obj(S.m[i].to);
            if (a != want || b != want)
            {
                fail("content", "find does not designate the object");
            }
            break;
        }
        case RMK_write_through:
            if constexpr (!CONST)
            {
                const std::size_t i = find(S, k);
                if (i == n)
                {
                    return;
                }
                const MV x = mk<U>(static_cast<int>(op.b % 5), next_p++);
                {
                    NoEvents q;
                    lib(
                        [&]
                        {
                            switch (op.c % 2)
                            {
                            case 0: c.at(kk) = ET<U>::make(x.v, x.p); break;
                            default: c.find(kk)->second = ET<U>::make(x.v, x.p); break;
                            }
                        });
                }
                pm[S.m[i].to] = x;
                ++version;
                check(slot);
                return;
            }
            break;
        case RMK_write_referent:
        {
            const MV x = mk<U>(static_cast<int>(op.c % 5), next_p++);
            {
                NoEvents q;
                pool.data()[to] = ET<U>::make(x.v, x.p);
            }
            pm[to] = x;
            ++version;
            check(slot);
            return;
        }
        case RMK_overflow:
        {
            if (ENUM || n < CAP || has(S, k))
            {
                return;
            }
            expect_length(CAP + 1);
            lib([&] { c.emplace(kk, *obj(to)); });
            return;
        }
        case RMK_bad_at:
        {
            if (has(S, k))
            {
                return;
            }
            if constexpr (ENUM)
            {
                expect(R_RANGE);
            }
            else
            {
                expect_range(static_cast<u64>(static_cast<u32>(k)), n);
            }
            lib([&] { tr(std::addressof(c.at(kk)) != nullptr); });
            return;
        }
        case RMK_bad_erase:
            expect(R_ABORT);
            lib([&] { c.erase(cc.cend()); });
            return;
        default: return;
        }
        no_touch(W.cur->info->name);
        check(slot);
    }
    void copy_model(const St& from, St& to)
    {
        to.m = from.m;
        to.cmode = from.cmode;
        to.hmode = from.hmode;
    }
};

template <RK KIND, class T, std::size_t N>
Driver* make_refmap(const Knobs& k)
{
    return new RefMapDriver<KIND, T, N>(k);
}
}  // namespace sim

#define RM_SCENARIO(ID, KIND, TY, NN)                                                                \
    static ::sim::RegisterScenario reg_##ID(::sim::Scenario{                                        \
        #ID, "refmap", ::sim::RM_INFO, ::sim::RMK_COUNT, NN, &::sim::make_refmap<::sim::RK::KIND, TY, NN>, 0u});
