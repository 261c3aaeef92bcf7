// Adapters: FixedStack, FixedQueue, FixedCircularQueue against a reference sequence.
#pragma once
#include "common.hpp"

#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_stack.hpp"

#include <algorithm>
#include <optional>

namespace sim
{
enum class Ad
{
    STACK,
    QUEUE,
    CQUEUE
};

#define AD_OPS(X)                                                       \
    X(push_copy, 12, OF_S1_W | OF_THROW | OF_GROW)                      \
    X(push_move, 10, OF_S1_W | OF_THROW | OF_GROW)                      \
    X(emplace, 10, OF_S1_W | OF_THROW | OF_GROW)                        \
    X(alias_push, 4, OF_S1_W | OF_THROW | OF_GROW | OF_ALIAS)           \
    X(alias_emplace, 3, OF_S1_W | OF_THROW | OF_GROW | OF_ALIAS)        \
    X(pop, 14, OF_S1_W | OF_SHRINK)                                     \
    X(drain, 1, OF_S1_W | OF_SHRINK)                                    \
    X(write_end, 4, OF_S1_W)                                            \
    X(read, 4, OF_S1_R)                                                 \
    X(construct_range, 2, OF_S1_W)                                      \
    X(construct_input, 2, OF_S1_W | OF_SRC)                             \
    X(copy_construct, 3, OF_S1_R | OF_S2_W | OF_COPY | OF_THROW)        \
    X(copy_assign, 3, OF_S1_R | OF_S2_W | OF_COPY | OF_THROW)           \
    X(move_construct, 2, OF_S1_W | OF_S2_W | OF_COPY)                   \
    X(move_assign, 2, OF_S1_W | OF_S2_W | OF_COPY)                      \
    X(swap_objects, 2, OF_S1_W | OF_S2_W | OF_COPY)                     \
    X(compare, 4, OF_S1_R | OF_S2_R | OF_COPY | OF_THROW)               \
    X(compare_other_cap, 2, OF_S1_R | OF_COPY)                          \
    X(bad_access, 2, OF_S1_R | OF_REJ)                                  \
    X(bad_pop, 2, OF_S1_W | OF_REJ)                                     \
    X(overflow_construct, 1, OF_S1_W | OF_REJ)                          \
    X(take_handle, 5, OF_S1_W | OF_HANDLE)                              \
    X(relocate, 3, OF_S1_W | OF_RELOC)

enum AdOp
{
#define X(n, w, f) ADK_##n,
    AD_OPS(X)
#undef X
        ADK_COUNT
};
inline constexpr OpInfo AD_INFO[] = {
#define X(n, w, f) OpInfo{#n, w, f},
    AD_OPS(X)
#undef X
};

template <Ad A, class T, std::size_t N, class P>
struct AdType;
template <class T, std::size_t N, class P>
struct AdType<Ad::STACK, T, N, P>
{
    using type = fixed_containers::FixedStack<T, N, P>;
};
template <class T, std::size_t N, class P>
struct AdType<Ad::QUEUE, T, N, P>
{
    using type = fixed_containers::FixedQueue<T, N, P>;
};
template <class T, std::size_t N, class P>
struct AdType<Ad::CQUEUE, T, N, P>
{
    using type = fixed_containers::FixedCircularQueue<T, N, P>;
};

template <Ad A, class T, std::size_t N, bool DEFPOL>
struct AdDriver : Driver
{
    template <std::size_t NN>
    using Pol = std::conditional_t<DEFPOL,
                                   fixed_containers::customize::SequenceContainerAbortChecking<T, NN>,
                                   SeqPolicy<0>>;
    using C = typename AdType<A, T, N, Pol<N>>::type;
    using C2 = typename AdType<A, T, N + 2, Pol<N + 2>>::type;
    static constexpr bool STACK = A == Ad::STACK;
    static constexpr bool CIRC = A == Ad::CQUEUE;
    static constexpr bool COPY = ET<T>::copyable;

    struct ME
    {
        MV x;
        u32 uid = 0;
    };
    struct Handle
    {
        u32 uid;
        T* ref;
    };
    struct St
    {
        Slot<C> s;
        std::vector<ME> m;  // oldest first
        std::vector<Handle> h;
    };
    St st[NSLOTS];
    int next_p = 1;
    u32 next_uid = 1;
    u32 opno = 0;

    explicit AdDriver(const Knobs&)
    {
        W.abort_policy = DEFPOL;
        for (int i = 0; i < NSLOTS; ++i)
        {
            st[i].s.id = i;
            st[i].m.reserve(N + 8);
            st[i].h.reserve(16);
        }
    }

    MV fresh(u32 a) { return mk<T>(static_cast<int>(a % W.k.key_range), next_p++); }
    ME mme(MV x) { return ME{x, next_uid++}; }
    void m_push(int slot, MV x)
    {
        auto& m = st[slot].m;
        m.push_back(mme(x));
        if (CIRC && m.size() > N)
        {
            m.erase(m.begin());
        }
    }
    void m_pop(int slot)
    {
        auto& m = st[slot].m;
        if (STACK)
        {
            m.pop_back();
        }
        else
        {
            m.erase(m.begin());
        }
    }
    const ME& m_next(int slot) { return STACK ? st[slot].m.back() : st[slot].m.front(); }

    template <class CC>
    static auto& next_of(CC& c)
    {
        if constexpr (STACK)
        {
            return c.top();
        }
        else
        {
            return c.front();
        }
    }

    void drain_check(int slot, C& c, const char* cls)  // consumes c
    {
        const auto& m = st[slot].m;
        for (std::size_t i = 0; i < m.size(); ++i)
        {
            if (c.size() != m.size() - i || c.empty())
            {
                fail(cls, "size() is %zu after removing %zu of %zu elements", static_cast<std::size_t>(c.size()), i,
                     m.size());
            }
            const ME& e = STACK ? m[m.size() - 1 - i] : m[i];
            const MV got = ET<T>::get(next_of(c));
            if (!(got == e.x))
            {
                fail(cls, "removal %zu yields (%d,%d), reference (%d,%d)", i, got.v, got.p, e.x.v, e.x.p);
            }
            c.pop();
        }
        if (!c.empty())
        {
            fail(cls, "elements left after removing all %zu", m.size());
        }
    }

    void check(int slot, const char* cls = "content")
    {
        St& S = st[slot];
        const ReadOnly ro(S.s.base(), sizeof(*S.s));
        C& mc = *S.s;
        const C& c = mc;
        OpCtx* oc = W.cur;
        const u8 es = oc->expect;
        oc->expect = R_NONE;
        const bool il = oc->in_lib;
        oc->in_lib = true;
        W.quiet_callbacks = true;
        S.s.check_canary();
        const std::size_t n = S.m.size();
        if (c.size() != n || c.empty() != (n == 0))
        {
            fail(cls, "size() is %zu, reference has %zu", static_cast<std::size_t>(c.size()), n);
        }
        if (c.max_size() != N || C::static_max_size() != N || fixed_containers::is_full(c) != (n >= N))
        {
            fail(cls, "max_size()/is_full() disagree with the reference");
        }
        if (n > 0)
        {
            if (std::addressof(next_of(c)) != std::addressof(next_of(mc)))
            {
                fail(cls, "const and non-const access designate different elements");
            }
            if (!(ET<T>::get(next_of(c)) == m_next(slot).x))
            {
                fail(cls, "the next element disagrees with the reference");
            }
            const auto a = reinterpret_cast<const char*>(std::addressof(next_of(c)));
            if (a < S.s.base() || a + sizeof(T) > S.s.base() + sizeof(C))
            {
                fail("alloc", "an element is stored outside the container object");
            }
            if constexpr (!STACK)
            {
                if (!(ET<T>::get(c.back()) == S.m.back().x) || std::addressof(c.back()) != std::addressof(mc.back()))
                {
                    fail(cls, "back() disagrees with the reference");
                }
            }
        }
        if constexpr (ET<T>::tracked)
        {
            const u32 live = reg_block_count(slot, S.s.half);
            if (live != n)
            {
                fail("lifetime", "%u live elements inside a container of size %zu", live, n);
            }
        }
        if constexpr (COPY)
        {
            C tmp(c);
            drain_check(slot, tmp, cls);
        }
        W.quiet_callbacks = false;
        oc->in_lib = il;
        oc->expect = es;
        for (std::size_t k = 0; k < S.h.size();)
        {
            const Handle& h = S.h[k];
            const ME* e = nullptr;
            for (auto& x : S.m)
            {
                if (x.uid == h.uid)
                {
                    e = &x;
                }
            }
            if (e == nullptr)
            {
                S.h.erase(S.h.begin() + static_cast<long>(k));
                continue;
            }
            if constexpr (ET<T>::tracked)
            {
                if (!reg_alive(h.ref))
                {
                    fail("stability", "a reference that must stay valid refers to a dead object");
                }
            }
            NoEvents q;
            if (!(ET<T>::get(*h.ref) == e->x))
            {
                fail("stability", "a reference that must stay valid reads another value");
            }
            SIM_COUNT("probe.live_reference_checked");
            ++k;
        }
        tr(n * 7919 + 3);
    }

    void adopt_empty_or(int slot, const char* cls)  // failed copy assignment: any valid content
    {
        St& S = st[slot];
        OpCtx* oc = W.cur;
        oc->in_lib = true;
        W.quiet_callbacks = true;
        C& c = *S.s;
        const std::size_t n = c.size();
        if (n > N)
        {
            fail(cls, "size() %zu exceeds the capacity after a failed operation", n);
        }
        if constexpr (ET<T>::tracked)
        {
            if (reg_block_count(slot, S.s.half) != n)
            {
                fail("lifetime", "%u live elements but size() %zu after a failed operation", reg_block_count(slot, S.s.half), n);
            }
        }
        for (std::size_t i = 0; i < n; ++i)
        {
            if constexpr (ET<T>::tracked)
            {
                if (!reg_alive(std::addressof(next_of(c))))
                {
                    fail(cls, "the container exposes a dead element after a failed operation");
                }
            }
            c.pop();
        }
        W.quiet_callbacks = false;
        oc->in_lib = false;
        S.m.clear();
        S.h.clear();
        check(slot, cls);
    }

    void others()
    {
        if (++opno % 4 != 0)
        {
            return;
        }
        for (int i = 0; i < NSLOTS; ++i)
        {
            if (!slot_busy(i))
            {
                check(i, "isolation");
            }
        }
    }

    template <class Fn>
    void construct(int slot, Fn&& fn)
    {
        St& S = st[slot];
        S.s.prepare();
        fn(static_cast<void*>(S.s.base()));
        S.s.live = true;
    }
    void construct_default(int slot)
    {
        W.cur->in_lib = true;
        construct(slot, [](void* p) { ::new (p) C(); });
        W.cur->in_lib = false;
        st[slot].m.clear();
        st[slot].h.clear();
    }
    void destroy(int slot)
    {
        St& S = st[slot];
        OpCtx* oc = W.cur;
        const u8 es = oc->expect;
        oc->expect = R_NONE;
        const bool il = oc->in_lib;
        oc->in_lib = true;
        {
            NoEvents q;
            S.s->~C();
        }
        oc->in_lib = il;
        oc->expect = es;
        S.s.live = false;
        S.m.clear();
        S.h.clear();
        if constexpr (ET<T>::tracked)
        {
            if (reg_block_count(slot, S.s.half) != 0)
            {
                fail("lifetime", "destroying the container left %u live elements", reg_block_count(slot, S.s.half));
            }
        }
    }
    void start() override
    {
        for (int i = 0; i < NSLOTS; ++i)
        {
            construct_default(i);
            check(i);
        }
    }
    void finish() override
    {
        for (int i = 0; i < NSLOTS; ++i)
        {
            check(i, "isolation");
        }
        for (int i = 0; i < NSLOTS; ++i)
        {
            if (i == 0)
            {
                OpCtx* oc = W.cur;
                oc->in_lib = true;
                W.quiet_callbacks = true;
                drain_check(i, *st[i].s, "content");
                W.quiet_callbacks = false;
                oc->in_lib = false;
                st[i].m.clear();
            }
            destroy(i);
        }
    }
    void after_abandon(const Op& op, int reason) override
    {
        const char* cls = reason == A_REJECT ? "reject-effect" : "isolation";
        St& S = st[op.slot];
        if (!S.s.live)
        {
            if (reason == A_REJECT && W.cur->unwound && reg_block_count(op.slot, S.s.half) != 0)
            {
                fail("lifetime", "a rejected constructor left %u live elements", reg_block_count(op.slot, S.s.half));
            }
            reg_drop_range(S.s.base(), S.s.base() + sizeof(C));
            construct_default(op.slot);
        }
        if (!slot_busy(op.slot))
        {
            check(op.slot, cls);
        }
        if (op.slot2 != op.slot && !slot_busy(op.slot2) && (W.cur->info->flags & (OF_S2_R | OF_S2_W)) != 0)
        {
            check(op.slot2, cls);
        }
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + S.m.size() * 7 + 5));
    }
    std::pair<const char*, std::size_t> bytes(int slot) override
    {
        auto& s = st[slot].s;
        return s.live ? std::pair<const char*, std::size_t>{s.base(), sizeof(*s)} : std::pair<const char*, std::size_t>{nullptr, 0};
    }
    void exec(const Op& op) override
    {
        do_exec(op);
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + st[op.slot].m.size() * 7 + (W.cur->threw ? 3 : 0)));
        others();
    }
    void copy_model(int d, int s)
    {
        st[d].m = st[s].m;
        for (auto& e : st[d].m)
        {
            e.uid = next_uid++;
        }
        st[d].h.clear();
    }
    void budget(u32 bound, const char* what)
    {
        OpCtx* c = W.cur;
        u32 work = 0;
        for (Ev e : {Ev::Copy, Ev::CopyAssign, Ev::Move, Ev::MoveAssign, Ev::Default, Ev::Value, Ev::Destroy})
        {
            work += c->evc[static_cast<int>(e)];
        }
        if (work > bound)
        {
            fail("progress", "%s performed %u element operations, bound %u", what, work, bound);
        }
        SIM_COUNT("probe.work_bound_checked");
    }
    void check_cmp(const std::vector<ME>& a, const std::vector<ME>& b, bool eq, std::strong_ordering o)
    {
        const bool weq =
            std::equal(a.begin(), a.end(), b.begin(), b.end(), [](const ME& x, const ME& y) { return x.x.v == y.x.v; });
        const auto wo = std::lexicographical_compare_three_way(
            a.begin(), a.end(), b.begin(), b.end(), [](const ME& x, const ME& y) { return x.x.v <=> y.x.v; });
        if (eq != weq)
        {
            fail("content", "operator== gives %d, reference %d", eq, weq);
        }
        if (o != wo)
        {
            fail("content", "operator<=> disagrees with the reference");
        }
    }

    void do_exec(const Op& op)
    {
        const int slot = op.slot;
        St& S = st[slot];
        C& c = *S.s;
        const std::size_t n = S.m.size();
        switch (op.kind)
        {
        case ADK_push_copy:
        case ADK_push_move:
        case ADK_emplace:
        case ADK_alias_push:
        case ADK_alias_emplace:
        {
            const bool alias = op.kind == ADK_alias_push || op.kind == ADK_alias_emplace;
            if ((op.kind == ADK_push_copy || alias) && !COPY)
            {
                return;
            }
            if (alias && n == 0)
            {
                return;
            }
            const bool full = n >= N;
            if (full && !CIRC)
            {
                if (rejects_stripped())
                {
                    return;
                }
                expect_length(N + 1);
            }
            const MV x = alias ? m_next(slot).x : fresh(op.a);
            SrcBuf<T, 1> src;
            src.add(x.v, x.p);
            if (op.kind == ADK_push_move)
            {
                watch_arg(src.data()[0], x);
            }
            T* r = nullptr;
            const bool ok = lib(
                [&]
                {
                    if constexpr (COPY)
                    {
                        switch (op.kind)
                        {
                        case ADK_push_copy: c.push(static_cast<const T&>(src.data()[0])); return;
                        case ADK_alias_push: c.push(next_of(static_cast<const C&>(c))); return;
                        case ADK_alias_emplace: r = std::addressof(c.emplace(next_of(static_cast<const C&>(c)))); return;
                        default: break;
                        }
                    }
                    if (op.kind == ADK_push_move)
                    {
                        c.push(std::move(src.data()[0]));
                    }
                    else if constexpr (std::is_same_v<T, int>)
                    {
                        r = std::addressof(c.emplace(x.v));
                    }
                    else if constexpr (std::is_aggregate_v<T>)
                    {
                        r = std::addressof(c.emplace(T{x.v, x.p}));
                    }
                    else
                    {
                        r = op.c % 3 == 0 ? std::addressof(c.emplace(std::move(src.data()[0])))
                                          : std::addressof(c.emplace(x.v, x.p));
                    }
                });
            if (!ok)
            {
                if (full)
                {
                    // the circular queue may have dropped the oldest element before the failure
                    adopt_empty_or(slot, "exc-basic");
                }
                else
                {
                    check(slot, "exc-strong");
                }
                return;
            }
            budget(12, "push/emplace");
            copies_at_most(alias || op.kind == ADK_push_copy ? 2 : 0, "push/emplace");
            m_push(slot, x);
            check(slot);
            if (r != nullptr)
            {
                T* want = nullptr;
                if constexpr (STACK)
                {
                    want = std::addressof(c.top());
                }
                else
                {
                    want = std::addressof(c.back());
                }
                if (r != want)
                {
                    fail("content", "emplace returned a reference to another element");
                }
            }
            return;
        }
        case ADK_pop:
            if (n == 0)
            {
                if (rejects_stripped())
                {
                    return;
                }
                expect(R_EMPTY);
            }
            lib([&] { c.pop(); });
            budget(8, "pop");
            copies_at_most(0, "pop");
            m_pop(slot);
            check(slot);
            return;
        case ADK_drain:
        {
            lib(
                [&]
                {
                    W.quiet_callbacks = true;
                    drain_check(slot, c, "content");
                    W.quiet_callbacks = false;
                });
            S.m.clear();
            check(slot);
            return;
        }
        case ADK_write_end:
        {
            if (n == 0)
            {
                return;
            }
            const MV x = fresh(op.a);
            SrcBuf<T, 1> src;
            src.add(x.v, x.p);
            const bool back = !STACK && op.b % 2 == 1;
            lib(
                [&]
                {
                    if constexpr (!STACK)
                    {
                        if (back)
                        {
                            c.back() = std::move(src.data()[0]);
                            return;
                        }
                    }
                    next_of(c) = std::move(src.data()[0]);
                });
            (STACK || back ? S.m.back() : S.m.front()).x = x;
            check(slot);
            return;
        }
        case ADK_read:
        {
            const C& cc = c;
            MV a{};
            MV b{};
            std::size_t sz = 0;
            lib(
                [&]
                {
                    sz = cc.size();
                    on_event(Ev::Pred, false);
                    if (!cc.empty())
                    {
                        a = ET<T>::get(next_of(cc));
                        on_event(Ev::Pred, false);
                        b = ET<T>::get(next_of(cc));
                    }
                });
            if (sz != n || (n > 0 && (!(a == m_next(slot).x) || !(b == a))))
            {
                fail("content", "reading the next element disagrees with the reference");
            }
            return;
        }
        case ADK_construct_range:
        case ADK_construct_input:
        case ADK_overflow_construct:
        {
            if constexpr (COPY)
            {
                const bool over = op.kind == ADK_overflow_construct;
                if (over && CIRC)
                {
                    return;
                }
                const std::size_t k = over ? N + 1 + op.b % 3 : op.b % (CIRC ? N + 4 : N + 1);
                SrcBuf<T, N + 6> src;
                MV xs[N + 6];
                for (std::size_t i = 0; i < k; ++i)
                {
                    xs[i] = fresh(op.a + static_cast<u32>(i) * 3);
                    src.add(xs[i].v, xs[i].p);
                }
                SourceState<T> ss;
                ss.data = src.data();
                ss.n = k;
                destroy(slot);
                if (over)
                {
                    expect_length(k);
                }
                lib(
                    [&]
                    {
                        construct(slot,
                                  [&](void* p)
                                  {
                                      if (op.kind != ADK_construct_input)
                                      {
                                          const T* f = src.begin();
                                          const T* l = src.end();
                                          ::new (p) C(f, l);
                                      }
                                      else
                                      {
                                          ::new (p) C(InputIt<T>{&ss}, InputIt<T>{});
                                      }
                                  });
                    });
                if (op.kind == ADK_construct_input && ss.pos != k)
                {
                    fail("source", "the single-pass source was consumed up to %zu of %zu elements", ss.pos, k);
                }
                for (std::size_t i = 0; i < k; ++i)
                {
                    m_push(slot, xs[i]);
                }
                check(slot);
            }
            return;
        }
        case ADK_copy_construct:
        {
            if constexpr (COPY)
            {
                const int d = op.slot2;
                if (d == slot)
                {
                    return;
                }
                destroy(d);
                if (!lib([&] { construct(d, [&](void* p) { ::new (p) C(static_cast<const C&>(c)); }); }))
                {
                    if constexpr (ET<T>::tracked)
                    {
                        if (reg_block_count(d, st[d].s.half) != 0)
                        {
                            fail("exc-basic", "a failed copy construction leaked elements");
                        }
                    }
                    construct_default(d);
                    check(d);
                    check(slot, "exc-strong");
                    return;
                }
                copy_model(d, slot);
                check(d);
                check(slot);
            }
            return;
        }
        case ADK_copy_assign:
        {
            if constexpr (COPY)
            {
                const int d = op.slot2;
                if (BYTEWISE_ASSIGN<T> && !probe_known)
                {
                    return;
                }
                if (lib([&] { *st[d].s = static_cast<const C&>(c); }))
                {
                    if (d != slot)
                    {
                        copy_model(d, slot);
                    }
                    S.h.clear();
                    check(d);
                }
                else if (d != slot)
                {
                    adopt_empty_or(d, "exc-basic");
                }
                check(slot);
            }
            return;
        }
        case ADK_move_construct:
        case ADK_move_assign:
        {
            const int d = op.slot2;
            if (BYTEWISE_ASSIGN<T> && !probe_known && op.kind == ADK_move_assign)
            {
                return;
            }
            if (d == slot)
            {
                if (op.kind == ADK_move_assign)
                {
                    S.h.clear();
                    lib([&] { *st[d].s = std::move(c); });
                    check(slot);
                }
                return;
            }
            if (op.kind == ADK_move_construct)
            {
                destroy(d);
                lib([&] { construct(d, [&](void* p) { ::new (p) C(std::move(c)); }); });
            }
            else
            {
                lib([&] { *st[d].s = std::move(c); });
            }
            copies_at_most(0, "moving the container");
            copy_model(d, slot);
            if (op.b % 2 == 0 || BYTEWISE_ASSIGN<T> && !probe_known)
            {
                destroy(slot);
                construct_default(slot);
            }
            else
            {
                lib(
                    [&]
                    {
                        C tmp;
                        *S.s = std::move(tmp);
                    });
                S.m.clear();
                S.h.clear();
            }
            check(d);
            check(slot);
            return;
        }
        case ADK_swap_objects:
        {
            const int d = op.slot2;
            if (d == slot || BYTEWISE_ASSIGN<T> && !probe_known)
            {
                return;
            }
            S.h.clear();
            st[d].h.clear();
            lib(
                [&]
                {
                    using std::swap;
                    swap(c, *st[d].s);
                });
            std::swap(S.m, st[d].m);
            check(d);
            check(slot);
            return;
        }
        case ADK_compare:
        {
            const int d = op.slot2;
            const C& a = c;
            const C& b = *st[d].s;
            bool eq = false;
            std::strong_ordering o = std::strong_ordering::equal;
            if (!lib(
                    [&]
                    {
                        eq = a == b;
                        o = a <=> b;
                    }))
            {
                check(slot, "exc-strong");
                check(d, "exc-strong");
                return;
            }
            check_cmp(S.m, st[d].m, eq, o);
            return;
        }
        case ADK_compare_other_cap:
        {
            if constexpr (COPY)
            {
                std::vector<ME> other = S.m;
                if (op.b % 3 == 1 && !other.empty())
                {
                    other.pop_back();
                }
                if (op.b % 3 == 2)
                {
                    other.push_back(ME{mk<T>(1, 1), 0});
                }
                bool eq = false;
                std::strong_ordering o = std::strong_ordering::equal;
                SrcBuf<T, N + 6> src;
                for (auto& e : other)
                {
                    src.add(e.x.v, e.x.p);
                }
                lib(
                    [&]
                    {
                        NoEvents q;
                        const T* f = src.begin();
                        const T* l = src.end();
                        const C2 c2(f, l);
                        eq = static_cast<const C&>(c) == c2;
                        o = static_cast<const C&>(c) <=> c2;
                    });
                check_cmp(S.m, other, eq, o);
            }
            return;
        }
        case ADK_bad_access:
        case ADK_bad_pop:
        {
            if (n != 0)
            {
                return;
            }
            const C& cc = c;
            expect(R_EMPTY);
            lib(
                [&]
                {
                    if (op.kind == ADK_bad_pop)
                    {
                        c.pop();
                        return;
                    }
                    if constexpr (!STACK)
                    {
                        if (op.b % 4 == 1)
                        {
                            tr(std::addressof(cc.back()) != nullptr);
                            return;
                        }
                        if (op.b % 4 == 2)
                        {
                            tr(std::addressof(c.back()) != nullptr);
                            return;
                        }
                    }
                    tr((op.b % 4 == 0 ? std::addressof(next_of(cc)) : std::addressof(next_of(c))) != nullptr);
                });
            return;
        }
        case ADK_take_handle:
            if (n > 0 && S.h.size() < 8)
            {
                S.h.push_back(Handle{m_next(slot).uid, std::addressof(next_of(c))});
                if constexpr (!STACK)
                {
                    S.h.push_back(Handle{S.m.back().uid, std::addressof(c.back())});
                }
            }
            return;
        case ADK_relocate:
            if constexpr (std::is_trivially_copyable_v<C>)
            {
                S.h.clear();
                S.s.relocate();
                check(slot, "image");
            }
            return;
        default: return;
        }
    }
};

template <Ad A, class T, std::size_t N, bool DEFPOL>
Driver* make_adapter(const Knobs& k)
{
    return new AdDriver<A, T, N, DEFPOL>(k);
}
}  // namespace sim

#define AD_SCENARIO(ID, AD, TY, NN, DEFPOL)                                                                     \
    static ::sim::RegisterScenario reg_##ID(::sim::Scenario{                                                   \
        #ID, "adapt", ::sim::AD_INFO, ::sim::ADK_COUNT, NN,                                                     \
        &::sim::make_adapter<::sim::Ad::AD, ::sim::TY, NN, DEFPOL>,                                             \
        std::is_trivially_copyable_v<typename ::sim::AdType<::sim::Ad::AD, ::sim::TY, NN, ::sim::SeqPolicy<0>>::type> \
            ? 0u                                                                                                \
            : static_cast<::sim::u32>(::sim::OF_RELOC)});
