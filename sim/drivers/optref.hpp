// OptionalReference against a reference "nothing, or this object" over a pool of referents.
#pragma once
#include "common.hpp"

#include "fixed_containers/optional_reference.hpp"

#include <compare>
#include <memory>
#include <optional>

namespace sim
{
// Partially ordered: some values (as NaN) compare with nothing, not even themselves
struct Flo
{
    int v = 0;
    static constexpr bool none(int v) { return v % 3 == 1; }
    friend bool operator==(const Flo& a, const Flo& b)
    {
        on_event(Ev::Compare, false);
        return !none(a.v) && !none(b.v) && a.v == b.v;
    }
    friend std::partial_ordering operator<=>(const Flo& a, const Flo& b)
    {
        on_event(Ev::Compare, false);
        return none(a.v) || none(b.v) ? std::partial_ordering::unordered : a.v <=> b.v;
    }
};
template <>
struct ET<Flo>
{
    static constexpr bool tracked = false;
    static constexpr bool copyable = true;
    static constexpr bool has_payload = false;
    static Flo make(int v, int) { return Flo{v}; }
    static MV get(const Flo& t) { return {t.v, 0}; }
    static MV def() { return {0, 0}; }
};
#define OR_OPS(X)                                                     \
    X(bind_ref, 8, OF_S1_W)                                           \
    X(bind_ptr, 6, OF_S1_W)                                           \
    X(bind_unique, 4, OF_S1_W)                                        \
    X(bind_nullopt, 3, OF_S1_W)                                       \
    X(assign_nullopt, 3, OF_S1_W)                                     \
    X(reset, 3, OF_S1_W)                                              \
    X(emplace, 8, OF_S1_W)                                            \
    X(assign_new, 6, OF_S1_W)                                         \
    X(copy_construct, 5, OF_S1_R | OF_S2_W | OF_COPY)                 \
    X(copy_assign, 6, OF_S1_R | OF_S2_W | OF_COPY)                    \
    X(move_construct, 4, OF_S1_W | OF_S2_W | OF_COPY)                 \
    X(move_assign, 5, OF_S1_W | OF_S2_W | OF_COPY)                    \
    X(swap_objects, 3, OF_S1_W | OF_S2_W | OF_COPY)                   \
    X(self_assign, 1, OF_S1_W | OF_COPY)                              \
    X(write_through, 6, OF_S1_R)                                      \
    X(write_referent, 4, OF_S1_R)                                     \
    X(read, 8, OF_S1_R)                                               \
    X(compare, 8, OF_S1_R | OF_S2_R | OF_COPY | OF_THROW)             \
    X(compare_nullopt, 4, OF_S1_R | OF_COPY)                          \
    X(compare_value, 6, OF_S1_R | OF_COPY | OF_THROW)                 \
    X(bad_access, 8, OF_S1_R | OF_REJ)                                \
    X(relocate, 3, OF_S1_W | OF_RELOC)

enum OrOp
{
#define X(n, w, f) ORK_##n,
    OR_OPS(X)
#undef X
        ORK_COUNT
};
inline constexpr OpInfo OR_INFO[] = {
#define X(n, w, f) OpInfo{#n, w, f},
    OR_OPS(X)
#undef X
};

struct OrPolicy
{
    [[noreturn]] static void bad_optional_access_error(const fixed_containers::std_transition::source_location&)
    {
        on_rejection(R_EMPTY, 0, 0, false);
    }
};

template <class T, bool DEFPOL>
struct OrDriver : Driver
{
    using U = std::remove_const_t<T>;
    static constexpr bool CONST = std::is_const_v<T>;
    using Pol = std::conditional_t<DEFPOL, fixed_containers::customize::OptionalReferenceAbortChecking<T>, OrPolicy>;
    using C = fixed_containers::OptionalReference<T, Pol>;
    using CO = fixed_containers::OptionalReference<const U, OrPolicy>;  // the other constness, for comparisons
    static_assert(std::is_trivially_copyable_v<C>);
    static_assert(sizeof(C) == sizeof(T*));

    static constexpr int POOL = 6;
    static constexpr int NONE = -1;
    struct St
    {
        Slot<C> s;
        int m = NONE;  // index of the referent
    };
    St st[NSLOTS];
    SrcBuf<U, POOL> pool;
    std::unique_ptr<T> owned;
    MV pm[POOL];
    u32 version = 0;  // of the pool contents
    int next_p = 1;
    u32 opno = 0;

    explicit OrDriver(const Knobs&)
    {
        W.abort_policy = DEFPOL;
        for (int i = 0; i < NSLOTS; ++i)
        {
            st[i].s.id = i;
        }
    }
    T* obj(int i)
    {
        if (i == NONE)
        {
            return nullptr;
        }
        return i == POOL - 1 ? owned.get() : pool.data() + i;
    }
    MV val(int i) const { return pm[i]; }
    int pick(u32 a) const { return static_cast<int>(a % POOL); }

    void check(int slot, const char* cls = "content")
    {
        St& S = st[slot];
        const ReadOnly ro(S.s.base(), sizeof(*S.s));
        C& mc = *S.s;
        const C& c = mc;
        OpCtx* oc = W.cur;
        const u8 es = oc->expect;
        oc->expect = R_NONE;
        const bool il = oc->in_lib;
        oc->in_lib = true;
        NoEvents q;
        S.s.check_canary();
        const bool has = S.m != NONE;
        if (c.has_value() != has || static_cast<bool>(c) != has || (c == std::nullopt) == has)
        {
            fail(cls, "has_value()/operator bool/== nullopt disagree with the reference (%d)", has);
        }
        U fallback = ET<U>::make(3, 3);
        T& fb = fallback;
        if (std::addressof(c.value_or(fb)) != (has ? obj(S.m) : std::addressof(fb)))
        {
            fail(cls, "value_or() does not designate the %s", has ? "referent" : "alternative");
        }
        if (has)
        {
            T* want = obj(S.m);
            if (std::addressof(*mc) != want || std::addressof(*c) != want || mc.operator->() != want ||
                c.operator->() != want || std::addressof(mc.value()) != want || std::addressof(c.value()) != want)
            {
                fail(cls, "it does not designate the object it was bound to");
            }
            if (!(ET<U>::get(*c) == val(S.m)))
            {
                fail(cls, "the referent was changed");
            }
        }
        for (int i = 0; i < POOL; ++i)
        {
            if (!(ET<U>::get(*obj(i)) == val(i)))
            {
                fail(cls, "object %d changed although nothing wrote to it", i);
            }
        }
        oc->in_lib = il;
        oc->expect = es;
        tr(static_cast<u64>(S.m) * 7919 + 3);
    }
    void others()
    {
        if (++opno % 3 != 0)
        {
            return;
        }
        for (int i = 0; i < NSLOTS; ++i)
        {
            if (!slot_busy(i))
            {
                check(i, "isolation");
            }
        }
    }
    template <class Fn>
    void construct(int slot, Fn&& fn)
    {
        St& S = st[slot];
        S.s.prepare();
        lib([&] { fn(static_cast<void*>(S.s.base())); });
        S.s.live = true;
    }
    void start() override
    {
        for (int i = 0; i < POOL - 1; ++i)
        {
            pm[i] = mk<U>(static_cast<int>(static_cast<u32>(i) % W.k.key_range) / 2, next_p++);
            pool.add(pm[i].v, pm[i].p);
        }
        {
            NoEvents q;
            pm[POOL - 1] = mk<U>(1, next_p++);
            owned.reset(new U(ET<U>::make(pm[POOL - 1].v, pm[POOL - 1].p)));
        }
        for (int i = 0; i < NSLOTS; ++i)
        {
            construct(i, [](void* p) { ::new (p) C(); });
            st[i].m = NONE;
            check(i);
        }
    }
    void finish() override
    {
        for (int i = 0; i < NSLOTS; ++i)
        {
            check(i, "isolation");
            lib([&] { st[i].s->~C(); });
        }
        for (int i = 0; i < POOL; ++i)
        {
            NoEvents q;
            if (!(ET<U>::get(*obj(i)) == val(i)))
            {
                fail("lifetime", "object %d did not survive the references to it", i);
            }
        }
        NoEvents q;
        owned.reset();
    }
    void after_abandon(const Op& op, int reason) override
    {
        const char* cls = reason == A_REJECT ? "reject-effect" : "isolation";
        if (!slot_busy(op.slot))
        {
            check(op.slot, cls);
        }
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + static_cast<u32>(st[op.slot].m + 1) * 7 + 5));
    }
    u32 pattern() const
    {
        return static_cast<u32>((st[0].m + 1) * 49 + (st[1].m + 1) * 7 + st[2].m + 1);
    }
    std::pair<const char*, std::size_t> bytes(int slot) override
    {
        auto& s = st[slot].s;
        return s.live ? std::pair<const char*, std::size_t>{s.base(), sizeof(*s)} : std::pair<const char*, std::size_t>{nullptr, 0};
    }
    void exec(const Op& op) override
    {
        do_exec(op);
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + pattern() * 8191 + (W.cur->threw ? 3 : 0)));
        others();
    }

    void no_copies(const char* what)
    {
        OpCtx* c = W.cur;
        u32 work = 0;
        for (Ev e : {Ev::Copy, Ev::CopyAssign, Ev::Move, Ev::MoveAssign, Ev::Default, Ev::Value, Ev::Destroy})
        {
            work += c->evc[static_cast<int>(e)];
        }
        if (work != 0)
        {
            fail("content", "%s touched an object instead of the reference", what);
        }
    }
    static std::partial_ordering order(int x, int y)
    {
        if constexpr (std::is_same_v<U, Flo>)
        {
            if (Flo::none(x) || Flo::none(y))
            {
                return std::partial_ordering::unordered;
            }
        }
        return x <=> y;
    }
    void check_cmp(int a, int b, const bool (&r)[6], std::partial_ordering o)  // == != < <= > >=
    {
        const std::partial_ordering want = a != NONE && b != NONE ? order(val(a).v, val(b).v)
                                          : a == b               ? std::partial_ordering::equivalent
                                          : a == NONE            ? std::partial_ordering::less
                                                                 : std::partial_ordering::greater;
        check_ops(want, r, o);
    }
    void check_ops(std::partial_ordering want, const bool (&r)[6], std::partial_ordering o)
    {
        const bool w[6] = {want == 0, want != 0, want < 0, want <= 0, want > 0, want >= 0};
        static const char* nm[] = {"==", "!=", "<", "<=", ">", ">="};
        for (int i = 0; i < 6; ++i)
        {
            if (r[i] != w[i])
            {
                fail("content", "operator%s gives %d, reference %d", nm[i], r[i], w[i]);
            }
        }
        if (o != want)
        {
            fail("content", "operator<=> disagrees with the reference");
        }
    }

    void do_exec(const Op& op)
    {
        const int slot = op.slot;
        const int slot2 = op.slot2;
        St& S = st[slot];
        St& D = st[slot2];
        C& c = *S.s;
        const C& cc = c;
        const int to = pick(op.a);
        const bool has = S.m != NONE;
        switch (op.kind)
        {
        case ORK_bind_ref:
            construct(slot, [&](void* p) { ::new (p) C(*obj(to)); });
            S.m = to;
            break;
        case ORK_bind_ptr:
        {
            const int t = op.b % 3 == 0 ? NONE : to;
            T* ptr = obj(t);
            construct(slot, [&](void* p) { ::new (p) C(ptr); });
            S.m = t;
            break;
        }
        case ORK_bind_unique:
        {
            const std::unique_ptr<T> none;
            const bool e = op.b % 3 == 0;
            construct(slot, [&](void* p) { ::new (p) C(e ? none : owned); });
            S.m = e ? NONE : POOL - 1;
            break;
        }
        case ORK_bind_nullopt:
            construct(slot, [&](void* p) { ::new (p) C(std::nullopt); });
            S.m = NONE;
            break;
        case ORK_assign_nullopt:
        {
            C* r = nullptr;
            lib([&] { r = std::addressof(c = std::nullopt); });
            if (r != std::addressof(c))
            {
                fail("content", "assignment does not return the object");
            }
            S.m = NONE;
            break;
        }
        case ORK_reset:
            lib([&] { c.reset(); });
            S.m = NONE;
            break;
        case ORK_emplace:
        {
            T* r = nullptr;
            lib([&] { r = std::addressof(c.emplace(*obj(to))); });
            if (r != obj(to))
            {
                fail("content", "emplace does not return the new referent");
            }
            S.m = to;
            break;
        }
        case ORK_assign_new:
        {
            const int t = op.b % 4 == 0 ? NONE : to;
            lib(
                [&]
                {
                    C* r = nullptr;
                    if (t == NONE)
                    {
                        r = std::addressof(c = C());
                    }
                    else if (op.b % 2 == 0)
                    {
                        r = std::addressof(c = C(*obj(t)));
                    }
                    else
                    {
                        const C tmp(obj(t));
                        r = std::addressof(c = tmp);
                    }
                    if (r != std::addressof(c))
                    {
                        fail("content", "assignment does not return the object");
                    }
                });
            S.m = t;
            break;
        }
        case ORK_copy_construct:
            if (slot == slot2)
            {
                return;
            }
            construct(slot2, [&](void* p) { ::new (p) C(cc); });
            D.m = S.m;
            check(slot2);
            break;
        case ORK_copy_assign:
            lib([&] { *D.s = cc; });
            D.m = S.m;
            check(slot2);
            break;
        case ORK_move_construct:
            if (slot == slot2)
            {
                return;
            }
            construct(slot2, [&](void* p) { ::new (p) C(std::move(c)); });
            D.m = S.m;
            check(slot2);
            break;
        case ORK_move_assign:
            lib([&] { *D.s = std::move(c); });
            D.m = S.m;
            check(slot2);
            break;
        case ORK_swap_objects:
            if (slot == slot2)
            {
                return;
            }
            lib(
                [&]
                {
                    using std::swap;
                    swap(c, *D.s);
                });
            std::swap(S.m, D.m);
            check(slot2);
            break;
        case ORK_self_assign:
            lib(
                [&]
                {
                    C& alias = c;
                    c = alias;
                });
            break;
        case ORK_write_through:
            if constexpr (!CONST)
            {
                if (!has)
                {
                    return;
                }
                const MV x = mk<U>(static_cast<int>(op.b % W.k.key_range), next_p++);
                {
                    NoEvents q;
                    lib(
                        [&]
                        {
                            switch (op.c % 3)
                            {
                            case 0: *c = ET<U>::make(x.v, x.p); break;
                            case 1: c.value() = ET<U>::make(x.v, x.p); break;
                            default: *c.operator->() = ET<U>::make(x.v, x.p); break;
                            }
                        });
                }
                pm[S.m] = x;
                ++version;
            }
            break;
        case ORK_write_referent:
            if constexpr (!CONST)
            {
                const MV x = mk<U>(static_cast<int>(op.b % W.k.key_range), next_p++);
                NoEvents q;
                *obj(to) = ET<U>::make(x.v, x.p);
                pm[to] = x;
                ++version;
            }
            break;
        case ORK_read:
        {
            if (!has)
            {
                T* r = nullptr;
                T& alt = *obj(to);
                lib([&] { r = std::addressof(cc.value_or(alt)); });
                if (r != obj(to))
                {
                    fail("content", "value_or() of an empty reference is not the alternative");
                }
                break;
            }
            const T* r[5];
            T& alt = *obj(to);
            lib(
                [&]
                {
                    r[0] = std::addressof(cc.value());
                    r[1] = std::addressof(*cc);
                    r[2] = cc.operator->();
                    r[3] = std::addressof(cc.value_or(alt));
                    r[4] = std::addressof(c.value());
                });
            for (const T* x : r)
            {
                if (x != obj(S.m))
                {
                    fail("content", "a read designates another object");
                }
            }
            break;
        }
        case ORK_compare:
        {
            const u32 v0 = version;
            const int b = D.m;
            const C& d = *D.s;
            bool r[6] = {};
            std::partial_ordering o = std::partial_ordering::equivalent;
            const bool ok = lib(
                [&]
                {
                    const auto all = [&](const auto& x, const auto& y)
                    {
                        r[0] = x == y;
                        r[1] = x != y;
                        r[2] = x < y;
                        r[3] = x <= y;
                        r[4] = x > y;
                        r[5] = x >= y;
                        o = x <=> y;
                    };
                    if (op.b % 2 == 0)
                    {
                        all(cc, d);
                    }
                    else
                    {
                        const CO y(static_cast<const U*>(obj(b)));
                        all(cc, y);
                    }
                });
            if (ok && v0 == version)
            {
                check_cmp(S.m, b, r, o);
            }
            break;
        }
        case ORK_compare_nullopt:
        {
            bool r[6] = {};
            bool s[6] = {};
            std::partial_ordering o = std::partial_ordering::equivalent;
            std::partial_ordering o2 = std::partial_ordering::equivalent;
            lib(
                [&]
                {
                    r[0] = cc == std::nullopt;
                    r[1] = cc != std::nullopt;
                    r[2] = cc < std::nullopt;
                    r[3] = cc <= std::nullopt;
                    r[4] = cc > std::nullopt;
                    r[5] = cc >= std::nullopt;
                    o = cc <=> std::nullopt;
                    s[0] = std::nullopt == cc;
                    s[1] = std::nullopt != cc;
                    s[2] = std::nullopt < cc;
                    s[3] = std::nullopt <= cc;
                    s[4] = std::nullopt > cc;
                    s[5] = std::nullopt >= cc;
                    o2 = std::nullopt <=> cc;
                });
            check_ops(has ? std::partial_ordering::greater : std::partial_ordering::equivalent, r, o);
            check_ops(has ? std::partial_ordering::less : std::partial_ordering::equivalent, s, o2);
            break;
        }
        case ORK_compare_value:
        {
            const u32 v0 = version;
            const T& y = *obj(to);
            bool r[6] = {};
            bool s[2] = {};
            std::partial_ordering o = std::partial_ordering::equivalent;
            const bool ok = lib(
                [&]
                {
                    r[0] = cc == y;
                    r[1] = cc != y;
                    r[2] = cc < y;
                    r[3] = cc <= y;
                    r[4] = cc > y;
                    r[5] = cc >= y;
                    o = cc <=> y;
                    s[0] = y == cc;
                    s[1] = y > cc;
                });
            if (ok && v0 == version)
            {
                check_cmp(S.m, to, r, o);
                if (s[0] != r[0] || s[1] != r[2])
                {
                    fail("content", "comparing in the other order disagrees");
                }
            }
            if constexpr (std::is_same_v<U, int>)
            {
                // a value, and a referent, of a wider type
                const long long wide = static_cast<long long>(ET<U>::get(y).v) + (op.b % 3 == 0 ? 0 : op.b % 3 == 1 ? 1LL << 32 : -(1LL << 32));
                const fixed_containers::OptionalReference<const long long, OrPolicy> wr(wide);
                bool q[6] = {};
                bool g[6] = {};
                std::partial_ordering oq = std::partial_ordering::equivalent;
                std::partial_ordering og = std::partial_ordering::equivalent;
                lib(
                    [&]
                    {
                        const auto all = [&](const auto& x, const auto& z, bool* w)
                        {
                            w[0] = x == z;
                            w[1] = x != z;
                            w[2] = x < z;
                            w[3] = x <= z;
                            w[4] = x > z;
                            w[5] = x >= z;
                            return x <=> z;
                        };
                        oq = all(cc, wide, q);
                        og = all(cc, wr, g);
                    });
                const std::partial_ordering want =
                    has ? static_cast<long long>(val(S.m).v) <=> wide : std::partial_ordering::less;
                check_ops(want, q, oq);
                check_ops(want, g, og);
            }
            break;
        }
        case ORK_bad_access:
        {
            if (has || rejects_stripped())
            {
                return;
            }
            expect(R_EMPTY);
            const void* r = nullptr;
            lib(
                [&]
                {
                    switch (op.b % 6)
                    {
                    case 0: r = std::addressof(cc.value()); break;
                    case 1: r = std::addressof(c.value()); break;
                    case 2: r = std::addressof(*cc); break;
                    case 3: r = std::addressof(*c); break;
                    case 4: r = cc.operator->(); break;
                    default: r = c.operator->(); break;
                    }
                });
            tr(r != nullptr);
            return;
        }
        case ORK_relocate:
            S.s.relocate();
            check(slot, "image");
            return;
        default: return;
        }
        if (op.kind != ORK_write_through && op.kind != ORK_write_referent)
        {
            no_copies(W.cur->info->name);
        }
        check(slot);
    }
};

template <class T, bool DEFPOL>
Driver* make_optref(const Knobs& k)
{
    return new OrDriver<T, DEFPOL>(k);
}
}  // namespace sim

#define OR_SCENARIO(ID, TY, DEFPOL)                                                      \
    static ::sim::RegisterScenario reg_##ID(::sim::Scenario{                            \
        #ID, "optref", ::sim::OR_INFO, ::sim::ORK_COUNT, 6, &::sim::make_optref<TY, DEFPOL>, 0u});
