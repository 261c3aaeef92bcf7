// Sequence containers: FixedVector, FixedDeque, FixedCircularDeque, FixedList against a reference
// sequence (std::vector of unique elements).
#pragma once
#include "common.hpp"

#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_deque_raw_view.hpp"
#include "fixed_containers/fixed_doubly_linked_list_raw_view.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_vector.hpp"

#include <algorithm>
#include <array>
#include <optional>

namespace sim
{
enum class Fam
{
    VEC,
    DEQ,
    CIRC,
    LIST
};

#define SEQ_OPS(X)                                                               \
    X(push_back_copy, 10, OF_S1_W | OF_THROW | OF_GROW)                          \
    X(push_back_move, 8, OF_S1_W | OF_THROW | OF_GROW)                           \
    X(emplace_back, 8, OF_S1_W | OF_THROW | OF_GROW)                             \
    X(pop_back, 6, OF_S1_W | OF_SHRINK)                                          \
    X(push_front_copy, 10, OF_S1_W | OF_THROW | OF_GROW)                         \
    X(push_front_move, 8, OF_S1_W | OF_THROW | OF_GROW)                          \
    X(emplace_front, 8, OF_S1_W | OF_THROW | OF_GROW)                            \
    X(pop_front, 8, OF_S1_W | OF_SHRINK)                                         \
    X(insert_copy, 8, OF_S1_W | OF_THROW | OF_GROW)                              \
    X(insert_move, 6, OF_S1_W | OF_THROW | OF_GROW)                              \
    X(emplace_mid, 6, OF_S1_W | OF_THROW | OF_GROW)                              \
    X(insert_range, 6, OF_S1_W | OF_THROW | OF_GROW)                             \
    X(insert_input, 6, OF_S1_W | OF_THROW | OF_GROW | OF_SRC)                    \
    X(insert_ilist, 3, OF_S1_W | OF_THROW | OF_GROW)                             \
    X(insert_bidir, 3, OF_S1_W | OF_THROW | OF_GROW)                             \
    X(erase_one, 8, OF_S1_W | OF_SHRINK)                                         \
    X(erase_range, 5, OF_S1_W | OF_SHRINK)                                       \
    X(clear, 1, OF_S1_W | OF_SHRINK)                                             \
    X(resize_default, 2, OF_S1_W | OF_THROW)                                     \
    X(resize_value, 3, OF_S1_W | OF_THROW)                                       \
    X(assign_count, 2, OF_S1_W | OF_THROW)                                       \
    X(assign_range, 2, OF_S1_W | OF_THROW)                                       \
    X(insert_moving, 3, OF_S1_W | OF_GROW)                                       \
    X(insert_conv, 2, OF_S1_W | OF_GROW)                                         \
    X(assign_conv, 1, OF_S1_W)                                                   \
    X(construct_conv, 1, OF_S1_W | OF_GROW)                                      \
    X(assign_moving, 1, OF_S1_W)                                                 \
    X(construct_moving, 1, OF_S1_W)                                              \
    X(assign_input, 2, OF_S1_W | OF_THROW | OF_SRC)                              \
    X(assign_ilist, 1, OF_S1_W | OF_THROW)                                       \
    X(write_at, 4, OF_S1_W)                                                      \
    X(write_ends, 3, OF_S1_W)                                                    \
    X(write_all, 2, OF_S1_W)                                                     \
    X(permute, 2, OF_S1_W)                                                       \
    X(erase_value, 2, OF_S1_W | OF_THROW | OF_SHRINK)                            \
    X(erase_pred, 3, OF_S1_W | OF_THROW | OF_SHRINK)                             \
    X(remove_member, 3, OF_S1_W | OF_THROW | OF_SHRINK)                          \
    X(copy_construct, 3, OF_S1_R | OF_S2_W | OF_COPY | OF_THROW)                            \
    X(copy_assign, 4, OF_S1_R | OF_S2_W | OF_THROW | OF_COPY)                    \
    X(move_construct, 3, OF_S1_W | OF_S2_W | OF_COPY)                            \
    X(move_assign, 3, OF_S1_W | OF_S2_W | OF_COPY)                               \
    X(swap_objects, 2, OF_S1_W | OF_S2_W | OF_COPY)                              \
    X(self_assign, 1, OF_S1_W | OF_COPY)                                         \
    X(compare, 4, OF_S1_R | OF_S2_R | OF_COPY | OF_THROW)                        \
    X(compare_other_cap, 2, OF_S1_R | OF_COPY)                                   \
    X(construct_count, 1, OF_S1_W)                                               \
    X(construct_range, 2, OF_S1_W | OF_GROW)                                     \
    X(construct_input, 1, OF_S1_W | OF_SRC)                                      \
    X(construct_ilist, 1, OF_S1_W)                                               \
    X(construct_array, 1, OF_S1_W)                                               \
    X(construct_builder, 1, OF_S1_W)                                             \
    X(read_walk, 4, OF_S1_R)                                                     \
    X(iter_steps, 4, OF_S1_R)                                                    \
    X(read_arith, 3, OF_S1_R)                                                    \
    X(bad_index, 2, OF_S1_R | OF_REJ)                                            \
    X(bad_front_back, 1, OF_S1_R)                                                \
    X(bad_erase, 2, OF_S1_W | OF_REJ)                                            \
    X(bad_iter, 2, OF_S1_R | OF_S2_R | OF_REJ)                                   \
    X(bad_reserve, 1, OF_S1_W)                                                   \
    X(overflow_range, 2, OF_S1_W | OF_REJ)                                       \
    X(overflow_resize, 2, OF_S1_W | OF_REJ)                                      \
    X(overflow_assign, 2, OF_S1_W | OF_REJ)                                      \
    X(overflow_construct, 1, OF_S1_W | OF_REJ)                                   \
    X(alias_push_back, 3, OF_S1_W | OF_THROW | OF_GROW | OF_ALIAS)               \
    X(alias_push_front, 3, OF_S1_W | OF_THROW | OF_GROW | OF_ALIAS)              \
    X(alias_insert, 4, OF_S1_W | OF_THROW | OF_GROW | OF_ALIAS)                  \
    X(alias_emplace, 3, OF_S1_W | OF_THROW | OF_GROW | OF_ALIAS)                 \
    X(alias_resize, 1, OF_S1_W | OF_THROW | OF_ALIAS)                            \
    X(alias_remove, 2, OF_S1_W | OF_ALIAS)                                       \
    X(take_handle, 8, OF_S1_W | OF_HANDLE)                                       \
    X(relocate, 4, OF_S1_W | OF_RELOC)                                           \
    X(view, 3, OF_S1_R | OF_VIEW)                                                \
    X(drift, 2, OF_S1_W)

enum SeqOp
{
#define X(n, w, f) K_##n,
    SEQ_OPS(X)
#undef X
        K_COUNT
};
inline constexpr OpInfo SEQ_INFO[] = {
#define X(n, w, f) OpInfo{#n, w, f},
    SEQ_OPS(X)
#undef X
};

template <Fam F, class T, std::size_t N, class Pol>
struct SeqType;
template <class T, std::size_t N, class Pol>
struct SeqType<Fam::VEC, T, N, Pol>
{
    using type = fixed_containers::FixedVector<T, N, Pol>;
};
template <class T, std::size_t N, class Pol>
struct SeqType<Fam::DEQ, T, N, Pol>
{
    using type = fixed_containers::FixedDeque<T, N, Pol>;
};
template <class T, std::size_t N, class Pol>
struct SeqType<Fam::CIRC, T, N, Pol>
{
    using type = fixed_containers::FixedCircularDeque<T, N, Pol>;
};
template <class T, std::size_t N, class Pol>
struct SeqType<Fam::LIST, T, N, Pol>
{
    using type = fixed_containers::FixedList<T, N, Pol>;
};

struct ME
{
    MV x;
    u32 uid = 0;
};

// forward-only (multi-pass, non random access) source
template <class T>
struct FwdIt
{
    using iterator_category = std::bidirectional_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    const T* p = nullptr;
    reference operator*() const { return *p; }
    pointer operator->() const { return p; }
    FwdIt& operator++()
    {
        ++p;
        return *this;
    }
    FwdIt operator++(int)
    {
        FwdIt t = *this;
        ++p;
        return t;
    }
    FwdIt& operator--()
    {
        --p;
        return *this;
    }
    FwdIt operator--(int)
    {
        FwdIt t = *this;
        --p;
        return t;
    }
    bool operator==(const FwdIt&) const = default;
};

template <Fam F, class T, std::size_t N, bool DEFPOL = false>
struct SeqDriver : Driver
{
    template <std::size_t NN>
    using Pol = std::conditional_t<DEFPOL,
                                   fixed_containers::customize::SequenceContainerAbortChecking<T, NN>,
                                   SeqPolicy<0>>;
    using C = typename SeqType<F, T, N, Pol<N>>::type;
    using C2 = typename SeqType<F, T, N + 3, Pol<N + 3>>::type;  // another capacity
    using C3 = typename SeqType<F, T, N, SeqPolicy<1>>::type;         // another policy
    static constexpr bool DEFAULT = std::is_default_constructible_v<T>;
    static constexpr bool RA = F != Fam::LIST;
    static constexpr bool FRONT = F != Fam::VEC;
    static constexpr bool CIRC = F == Fam::CIRC;
    static constexpr bool COPY = ET<T>::copyable;
    static constexpr bool HAS_VIEW =
        (F == Fam::DEQ || F == Fam::LIST) && N > 0 && std::is_trivially_copyable_v<typename SeqType<F, T, N, SeqPolicy<0>>::type>;
    static constexpr std::size_t SRC = N + 8;

    struct Handle
    {
        u32 uid;
        T* ref;
        typename C::iterator it;
        bool it_ok;
        bool ref_ok;
    };
    struct St
    {
        Slot<C> s;
        std::vector<ME> m;

        std::vector<Handle> h;
        bool rej_basic = false;
        u32 max_hint = 0;
    };
    St st[NSLOTS];
    std::vector<ME> scratch[NTASKS];
    int next_p = 1;
    u32 next_uid = 1;
    u32 opno = 0;

    explicit SeqDriver(const Knobs&)
    {
        W.abort_policy = DEFPOL;
        for (int i = 0; i < NSLOTS; ++i)
        {
            st[i].s.id = i;
            st[i].m.reserve(N + 8);

            st[i].h.reserve(16);
        }
    }

    // ---------------------------------------------------------------- helpers
    MV fresh(u32 a)
    {
        return mk<T>(static_cast<int>(a % W.k.key_range), next_p++);
    }
    ME mme(MV x) { return ME{x, next_uid++}; }

    std::size_t content(const C& c, MV* out, std::size_t max, const char* cls)
    {
        std::size_t n = 0;
        for (auto it = c.begin(); it != c.end(); ++it)
        {
            if (n >= max)
            {
                fail(cls, "iteration visits more than %zu elements", max);
            }
            out[n++] = ET<T>::get(*it);
        }
        return n;
    }

    static void digest(const C& c) { tr(c.size() * 7919 + 3); }

    // every observer of the container agrees with the reference
    void check(int slot, const char* cls = "content")
    {
        St& S = st[slot];
        const ReadOnly ro(S.s.base(), sizeof(*S.s));
        const C& c = *S.s;
        OpCtx* oc = W.cur;
        const u8 exp_save = oc->expect;
        oc->expect = R_NONE;
        const bool il = oc->in_lib;
        oc->in_lib = true;
        W.quiet_callbacks = true;
        S.s.check_canary();
        const std::size_t n = S.m.size();
        if (c.size() != n)
        {
            fail(cls, "size() is %zu, reference has %zu", static_cast<std::size_t>(c.size()), n);
        }
        if (c.empty() != (n == 0))
        {
            fail(cls, "empty() disagrees with size %zu", n);
        }
        if (c.max_size() != N || C::static_max_size() != N)
        {
            fail(cls, "max_size() is not %zu", N);
        }
        if (fixed_containers::is_full(c) != (n >= N))
        {
            fail(cls, "is_full() disagrees with size %zu", n);
        }
        std::size_t i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i)
        {
            if (i >= n)
            {
                fail(cls, "forward iteration runs past the %zu reference elements", n);
            }
            const MV got = ET<T>::get(*it);
            if (!(got == S.m[i].x))
            {
                fail(cls, "element %zu is (%d,%d), reference (%d,%d)", i, got.v, got.p, S.m[i].x.v, S.m[i].x.p);
            }
        }
        if (i != n)
        {
            fail(cls, "forward iteration visits %zu of %zu elements", i, n);
        }
        i = n;
        for (auto it = c.rbegin(); it != c.rend(); ++it)
        {
            if (i == 0)
            {
                fail(cls, "reverse iteration runs past the beginning");
            }
            --i;
            if (!(ET<T>::get(*it) == S.m[i].x))
            {
                fail(cls, "reverse iteration disagrees at element %zu", i);
            }
        }
        if (i != 0)
        {
            fail(cls, "reverse iteration stops %zu elements early", i);
        }
        if (n > 0)
        {
            C& mc = *S.s;
            typename C::const_reverse_iterator cr = mc.rbegin();
            if (!(ET<T>::get(*cr) == S.m.back().x))
            {
                fail(cls, "a reverse_iterator converted to const_reverse_iterator designates another element");
            }
            if (!(mc.rbegin().base() == mc.end()) || !(mc.rend().base() == mc.begin()))
            {
                fail(cls, "base() of rbegin()/rend() does not round-trip");
            }
            if (!(ET<T>::get(c.front()) == S.m.front().x) || !(ET<T>::get(c.back()) == S.m.back().x))
            {
                fail(cls, "front()/back() disagree with the reference");
            }
        }
        if constexpr (RA)
        {
            for (std::size_t j = 0; j < n; ++j)
            {
                if (!(ET<T>::get(c[j]) == S.m[j].x))
                {
                    fail(cls, "operator[](%zu) disagrees with the reference", j);
                }
            }
        }
        if constexpr (F == Fam::VEC)
        {
            for (std::size_t j = 0; j < n; ++j)
            {
                if (c.data() + j != std::addressof(c[j]))
                {
                    fail(cls, "data()+%zu does not address element %zu", j, j);
                }
            }
            if (c.capacity() != N)
            {
                fail(cls, "capacity() is not %zu", N);
            }
        }
        for (auto it = c.begin(); it != c.end(); ++it)
        {
            const auto a = reinterpret_cast<const char*>(std::addressof(*it));
            if (a < S.s.base() || a + sizeof(T) > S.s.base() + sizeof(C))
            {
                fail("alloc", "an element is stored outside the container object");
            }
            break;
        }
        if constexpr (ET<T>::tracked)
        {
            const u32 live = reg_block_count(slot, S.s.half);
            if (live != n)
            {
                fail("lifetime", "%u live elements inside a container of size %zu", live, n);
            }
        }
        W.quiet_callbacks = false;
        oc->in_lib = il;
        oc->expect = exp_save;
        check_handles(slot);
        digest(c);
    }

    void check_handles(int slot)
    {
        St& S = st[slot];
        for (std::size_t k = 0; k < S.h.size();)
        {
            Handle& h = S.h[k];
            std::size_t idx = S.m.size();
            for (std::size_t i = 0; i < S.m.size(); ++i)
            {
                if (S.m[i].uid == h.uid)
                {
                    idx = i;
                }
            }
            if (idx == S.m.size())
            {
                S.h.erase(S.h.begin() + static_cast<long>(k));
                continue;
            }
            if (h.ref_ok)
            {
                if constexpr (ET<T>::tracked)
                {
                    if (!reg_alive(h.ref))
                    {
                        fail("stability", "a reference that must stay valid refers to a dead object");
                    }
                }
                W.quiet_callbacks = true;
                const MV got = ET<T>::get(*h.ref);
                W.quiet_callbacks = false;
                if (!(got == S.m[idx].x))
                {
                    fail("stability", "a reference that must stay valid reads (%d,%d), its element is (%d,%d)",
                         got.v, got.p, S.m[idx].x.v, S.m[idx].x.p);
                }
                SIM_COUNT("probe.live_reference_checked");
            }
            if (h.it_ok)
            {
                OpCtx* oc = W.cur;
                oc->in_lib = true;
                const u8 es = oc->expect;
                oc->expect = R_NONE;
                W.quiet_callbacks = true;
                const MV got = ET<T>::get(*h.it);
                const auto d = static_cast<std::size_t>(std::distance(S.s->begin(), h.it));
                W.quiet_callbacks = false;
                oc->expect = es;
                oc->in_lib = false;
                if (!(got == S.m[idx].x) || d != idx)
                {
                    fail("stability", "an iterator that must stay valid reads (%d,%d) at %zu, its element is (%d,%d) at %zu",
                         got.v, got.p, d, S.m[idx].x.v, S.m[idx].x.p, idx);
                }
                SIM_COUNT("probe.live_iterator_checked");
            }
            ++k;
        }
    }
    void drop_handles(int slot) { st[slot].h.clear(); }
    void keep_before(int slot, std::size_t pos)  // handles to elements at index >= pos die
    {
        St& S = st[slot];
        std::erase_if(S.h,
                      [&](const Handle& h)
                      {
                          for (std::size_t i = 0; i < S.m.size(); ++i)
                          {
                              if (S.m[i].uid == h.uid)
                              {
                                  return i >= pos;
                              }
                          }
                          return true;
                      });
    }
    void drop_iterators(int slot)
    {
        for (auto& h : st[slot].h)
        {
            h.it_ok = false;
        }
    }
    // std invalidation rules
    void inval_push(int slot)
    {
        if constexpr (F == Fam::DEQ || F == Fam::CIRC)
        {
            drop_iterators(slot);
        }
    }
    void inval_insert(int slot, std::size_t pos)
    {
        if constexpr (F == Fam::VEC)
        {
            keep_before(slot, pos);
        }
        else if constexpr (F != Fam::LIST)
        {
            // unlike std::deque, inserting at begin() may shift the elements: only push_front keeps
            // references
            if (pos == st[slot].m.size())
            {
                drop_iterators(slot);
            }
            else
            {
                drop_handles(slot);
            }
            if (CIRC)
            {
                drop_handles(slot);
            }
        }
    }
    void inval_erase(int slot, std::size_t pos, std::size_t cnt)
    {
        if constexpr (F == Fam::VEC)
        {
            keep_before(slot, pos);
        }
        else if constexpr (F != Fam::LIST)
        {
            // erasing a prefix or suffix only invalidates the erased elements (std::deque); that is
            // guaranteed for references here only if nothing has to be shifted: keep suffix case
            if (pos + cnt != st[slot].m.size())
            {
                drop_handles(slot);
            }
        }
    }

    // after an exception or a rejection that may leave partial work: the container must be valid
    void adopt(int slot, const char* cls)
    {
        St& S = st[slot];
        OpCtx* oc = W.cur;
        const u8 es = oc->expect;
        oc->expect = R_NONE;
        const bool il = oc->in_lib;
        oc->in_lib = true;
        W.quiet_callbacks = true;
        const C& c = *S.s;
        const std::size_t n = c.size();
        if (n > N)
        {
            fail(cls, "size() %zu exceeds the capacity after a failed operation", n);
        }
        if constexpr (ET<T>::tracked)
        {
            const u32 live = reg_block_count(slot, S.s.half);
            if (live != n)
            {
                fail("lifetime", "%u live elements but size() %zu after a failed operation", live, n);
            }
        }
        std::vector<ME>& m = S.m;
        m.clear();
        for (auto it = c.begin(); it != c.end(); ++it)
        {
            if (m.size() >= n)
            {
                fail(cls, "iteration does not stop at size() after a failed operation");
            }
            if constexpr (ET<T>::tracked)
            {
                if (!reg_alive(std::addressof(*it)))
                {
                    fail(cls, "the container exposes a dead element after a failed operation");
                }
            }
            m.push_back(ME{ET<T>::get(*it), 0});
        }
        W.quiet_callbacks = false;
        oc->in_lib = il;
        oc->expect = es;
        if (m.size() != n)
        {
            fail(cls, "iteration visits %zu elements, size() is %zu after a failed operation", m.size(), n);
        }
        for (auto& e : m)
        {
            e.uid = next_uid++;
        }
        drop_handles(slot);
        check(slot, cls);
    }

    void others()
    {
        if (++opno % 4 != 0)
        {
            return;
        }
        for (int i = 0; i < NSLOTS; ++i)
        {
            if (!slot_busy(i))
            {
                check(i, "isolation");
            }
        }
    }

    void budget(u32 n, const char* what)
    {
        OpCtx* c = W.cur;
        const u32 work = c->evc[static_cast<int>(Ev::Copy)] + c->evc[static_cast<int>(Ev::CopyAssign)] +
                         c->evc[static_cast<int>(Ev::Move)] + c->evc[static_cast<int>(Ev::MoveAssign)] +
                         c->evc[static_cast<int>(Ev::Default)] + c->evc[static_cast<int>(Ev::Value)] +
                         c->evc[static_cast<int>(Ev::Destroy)];
        if (work > n)
        {
            fail("progress", "%s performed %u element operations, bound %u", what, work, n);
        }
        SIM_COUNT("probe.work_bound_checked");
    }

    // ---------------------------------------------------------------- lifecycle
    template <class Fn>
    void construct(int slot, Fn&& fn)
    {
        St& S = st[slot];
        S.s.prepare();
        fn(static_cast<void*>(S.s.base()));
        S.s.live = true;
    }
    void destroy(int slot)
    {
        St& S = st[slot];
        OpCtx* oc = W.cur;
        const u8 es = oc->expect;
        oc->expect = R_NONE;
        const bool il = oc->in_lib;
        oc->in_lib = true;
        {
            NoEvents q;
            S.s->~C();
        }
        oc->in_lib = il;
        oc->expect = es;
        S.s.live = false;
        S.m.clear();
        S.h.clear();
        if constexpr (ET<T>::tracked)
        {
            if (reg_block_count(slot, S.s.half) != 0)
            {
                fail("lifetime", "destroying the container left %u live elements",
                     reg_block_count(slot, S.s.half));
            }
        }
    }
    void start() override
    {
        for (int i = 0; i < NSLOTS; ++i)
        {
            W.cur->in_lib = true;
            construct(i, [](void* p) { ::new (p) C(); });
            W.cur->in_lib = false;
            check(i);
        }
    }
    void finish() override
    {
        for (int i = 0; i < NSLOTS; ++i)
        {
            check(i, "isolation");
        }
        for (int i = 0; i < NSLOTS; ++i)
        {
            destroy(i);
        }
    }
    void recreate(int slot)
    {
        St& S = st[slot];
        W.cur->in_lib = true;
        reg_drop_range(S.s.base(), S.s.base() + sizeof(C));
        construct(slot, [](void* p) { ::new (p) C(); });
        W.cur->in_lib = false;
        S.m.clear();
        S.h.clear();
    }
    void after_abandon(const Op& op, int reason) override
    {
        const int slot = op.slot;
        const char* cls = reason == A_REJECT ? "reject-effect" : "isolation";
        St& S = st[slot];
        if (!S.s.live)  // the constructor itself was rejected: re-create
        {
            if (reason == A_REJECT && W.cur->unwound && reg_block_count(slot, S.s.half) != 0)
            {
                fail("lifetime", "a rejected constructor left %u live elements", reg_block_count(slot, S.s.half));
            }
            recreate(slot);
        }
        if (reason == A_REJECT && S.rej_basic)
        {
            S.rej_basic = false;
            if (!slot_busy(slot))
            {
                if (W.cur->unwound)
                {
                    adopt(slot, cls);
                }
                else  // the policy ended the caller in the middle of the operation: nobody looks again
                {
                    recreate(slot);
                }
            }
            return;
        }
        S.rej_basic = false;
        if (!slot_busy(slot))
        {
            check(slot, cls);
        }
        if (op.slot2 != op.slot && !slot_busy(op.slot2) && (W.cur->info->flags & (OF_S2_R | OF_S2_W)) != 0)
        {
            check(op.slot2, cls);
        }
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + S.m.size() * 7 + 5));
    }

    // ---------------------------------------------------------------- model operations
    // "same as if we had infinite size, and trimming to size" for the circular deque
    std::size_t m_insert(std::vector<ME>& m, std::size_t pos, const MV* xs, std::size_t k)
    {
        std::size_t ret = pos;
        std::vector<ME>& t = m;
        for (std::size_t i = 0; i < k; ++i)
        {
            t.insert(t.begin() + static_cast<long>(pos + i), mme(xs[i]));
        }
        if (t.size() > N)
        {
            const std::size_t ex = t.size() - N;
            t.erase(t.begin(), t.begin() + static_cast<long>(ex));
            ret = pos > ex ? pos - ex : 0;
        }
        return ret;
    }
    bool full(int slot) { return st[slot].m.size() >= N; }

    // returns true when the operation should not be performed (rejection stripped)
    bool guard_length(std::size_t target, bool cond)
    {
        if (!cond)
        {
            return false;
        }
        if (rejects_stripped())
        {
            return true;
        }
        expect_length(target);
        return false;
    }

    template <class Fn, class Mo>
    void mutate(int slot, G g, Fn&& fn, Mo&& model)
    {
        if (lib(fn))
        {
            model();
            st[slot].rej_basic = false;
            check(slot);
        }
        else
        {
            st[slot].rej_basic = false;
            if (g == G::Strong)
            {
                check(slot, "exc-strong");
            }
            else
            {
                adopt(slot, "exc-basic");
            }
        }
    }

    auto cit(int slot, std::size_t i) { return std::next(st[slot].s->cbegin(), static_cast<long>(i)); }
    std::size_t index_of(int slot, typename C::iterator it)
    {
        W.quiet_callbacks = true;
        const auto d = static_cast<std::size_t>(std::distance(st[slot].s->begin(), it));
        W.quiet_callbacks = false;
        return d;
    }
    void check_ret(int slot, std::optional<typename C::iterator>& r, std::size_t want, const char* what)
    {
        if (!r.has_value())
        {
            return;
        }
        W.cur->in_lib = true;
        W.quiet_callbacks = true;
        const bool ok = *r == std::next(st[slot].s->begin(), static_cast<long>(want));
        W.quiet_callbacks = false;
        W.cur->in_lib = false;
        if (!ok)
        {
            fail("content", "%s returned an iterator that does not designate element %zu", what, want);
        }
    }

    // long use: many elements pass through, in at one end and out at the other
    void drift(const Op& op)
    {
        if constexpr (N > 0)
        {
            const int slot = op.slot;
            St& S = st[slot];
            C& c = *S.s;
            drop_handles(slot);
            const std::size_t steps = op.c % 997 == 5 ? 70000 : op.c % 101 == 7 ? 3000 : 8 + op.c % 200;
            const bool back_in = !FRONT || op.b % 2 == 0;
            const bool back_out = !FRONT || (op.b / 2 % 4 == 0 ? back_in : !back_in);
            const std::size_t level = op.a % (N + 1);
            lib(
                [&]
                {
                    NoEvents q;
                    for (std::size_t i = 0; i < steps; ++i)
                    {
                        if (S.m.size() > level || S.m.size() == N)
                        {
                            const MV want = back_out ? S.m.back().x : S.m.front().x;
                            const MV got = ET<T>::get(back_out ? c.back() : c.front());
                            if (!(got == want))
                            {
                                fail("content", "the element at the %s is (%d,%d), reference (%d,%d)",
                                     back_out ? "back" : "front", got.v, got.p, want.v, want.p);
                            }
                            if (back_out)
                            {
                                c.pop_back();
                                S.m.pop_back();
                            }
                            else if constexpr (FRONT)
                            {
                                c.pop_front();
                                S.m.erase(S.m.begin());
                            }
                        }
                        const MV x = fresh(op.a + static_cast<u32>(i));
                        if (back_in)
                        {
                            c.push_back(ET<T>::make(x.v, x.p));
                            S.m.push_back(mme(x));
                        }
                        else if constexpr (FRONT)
                        {
                            c.push_front(ET<T>::make(x.v, x.p));
                            S.m.insert(S.m.begin(), mme(x));
                        }
                    }
                });
            SIM_COUNT("probe.drift");
            check(slot);
        }
    }

    // make_fixed_* with the policy it chooses itself
    template <class List>
    void check_default_make(const List& arr, const MV* xs, std::size_t n)
    {
        lib(
            [&]
            {
                using namespace fixed_containers;
                auto made = [&]
                {
                    if constexpr (F == Fam::VEC)
                    {
                        return make_fixed_vector<T>(arr);
                    }
                    else if constexpr (F == Fam::DEQ)
                    {
                        return make_fixed_deque<T>(arr);
                    }
                    else if constexpr (F == Fam::CIRC)
                    {
                        return make_fixed_circular_deque<T>(arr);
                    }
                    else
                    {
                        return make_fixed_list<T>(arr);
                    }
                }();
                NoEvents q;
                std::size_t i = 0;
                bool bad = made.size() != n || made.max_size() != n || made.empty() != (n == 0) || !is_full(made);
                for (const T& x : made)
                {
                    if (i < n && !(ET<T>::get(x) == xs[i]))
                    {
                        bad = true;
                    }
                    ++i;
                }
                if (bad || i != n)
                {
                    fail("content", "make_fixed_* of %zu elements holds other elements", n);
                }
            });
    }

    std::pair<const char*, std::size_t> bytes(int slot) override
    {
        auto& s = st[slot].s;
        return s.live ? std::pair<const char*, std::size_t>{s.base(), sizeof(*s)} : std::pair<const char*, std::size_t>{nullptr, 0};
    }
    void exec(const Op& op) override
    {
        const std::size_t before = st[op.slot].m.size() + st[op.slot2].m.size();
        do_exec(op);
        const St& S = st[op.slot];
        if (op.kind != K_drift)
        {
            linear_work((before + S.m.size() + st[op.slot2].m.size() + N + 16) * (CIRC ? 2 : 1));
        }
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + S.m.size() * 7 + (W.cur->threw ? 3 : 0) +
                    (W.preempts != 0 ? 1 : 0)));
        others();
    }

    template <class T0, std::size_t NN>
    void fill(SrcBuf<T0, NN>& src, MV* xs, std::size_t k, u32 a)
    {
        for (std::size_t i = 0; i < k; ++i)
        {
            xs[i] = fresh(a + static_cast<u32>(i) * 3);
            src.add(xs[i].v, xs[i].p);
        }
    }

    void do_exec(const Op& op)
    {
        const int slot = op.slot;
        St& S = st[slot];
        C& c = *S.s;
        const std::size_t n = S.m.size();
        switch (op.kind)
        {
        case K_push_back_copy:
        case K_push_back_move:
        case K_emplace_back:
        {
            const MV x = fresh(op.a);
            SrcBuf<T, 1> src;
            src.add(x.v, x.p);
            if (guard_length(N + 1, !CIRC && n >= N))
            {
                return;
            }
            inval_push(slot);
            if (op.kind != K_emplace_back)
            {
                watch_arg(src.data()[0], x);
            }
            std::optional<T*> ret;
            mutate(
                slot,
                CIRC ? G::Basic : G::Strong,
                [&]
                {
                    if (op.kind == K_push_back_copy)
                    {
                        if constexpr (COPY)
                        {
                            c.push_back(static_cast<const T&>(src.data()[0]));
                        }
                        else
                        {
                            c.push_back(std::move(src.data()[0]));
                        }
                    }
                    else if (op.kind == K_push_back_move)
                    {
                        c.push_back(std::move(src.data()[0]));
                    }
                    else if constexpr (requires { T(1, 2); })
                    {
                        ret = op.c % 3 == 0 ? std::addressof(c.emplace_back(std::move(src.data()[0]))) : std::addressof(c.emplace_back(x.v, x.p));
                    }
                    else
                    {
                        ret = std::addressof(c.emplace_back(std::move(src.data()[0])));
                    }
                },
                [&]
                {
                    budget(12, "appending one element");
                    copies_at_most(op.kind == K_push_back_copy ? 2 : 0, "appending one element");
                    m_insert(S.m, n, &x, 1);
                    if (ret.has_value() && *ret != std::addressof(c.back()))
                    {
                        fail("content", "emplace_back does not return the new element");
                    }
                });
            return;
        }
        case K_push_front_copy:
        case K_push_front_move:
        case K_emplace_front:
        {
            if constexpr (FRONT)
            {
                const MV x = fresh(op.a);
                SrcBuf<T, 1> src;
                src.add(x.v, x.p);
                if (guard_length(N + 1, !CIRC && n >= N))
                {
                    return;
                }
                inval_push(slot);
                if (op.kind != K_emplace_front)
                {
                    watch_arg(src.data()[0], x);
                }
                std::optional<T*> ret;
                mutate(
                    slot,
                    CIRC ? G::Basic : G::Strong,
                    [&]
                    {
                        if (op.kind == K_push_front_copy)
                        {
                            if constexpr (COPY)
                            {
                                c.push_front(static_cast<const T&>(src.data()[0]));
                            }
                            else
                            {
                                c.push_front(std::move(src.data()[0]));
                            }
                        }
                        else if (op.kind == K_push_front_move)
                        {
                            c.push_front(std::move(src.data()[0]));
                        }
                        else if constexpr (requires { T(1, 2); })
                        {
                            ret = op.c % 3 == 0 ? std::addressof(c.emplace_front(std::move(src.data()[0]))) : std::addressof(c.emplace_front(x.v, x.p));
                        }
                        else
                        {
                            ret = std::addressof(c.emplace_front(std::move(src.data()[0])));
                        }
                    },
                    [&]
                    {
                        budget(12, "prepending one element");
                        copies_at_most(op.kind == K_push_front_copy ? 2 : 0, "prepending one element");
                        if (CIRC && n >= N)
                        {
                            S.m.pop_back();
                        }
                        S.m.insert(S.m.begin(), mme(x));
                        if (ret.has_value() && *ret != std::addressof(c.front()))
                        {
                            fail("content", "emplace_front does not return the new element");
                        }
                    });
            }
            return;
        }
        case K_pop_back:
        case K_pop_front:
        {
            if (op.kind == K_pop_front && !FRONT)
            {
                return;
            }
            if (n == 0)
            {
                if (rejects_stripped())
                {
                    return;
                }
                expect(R_EMPTY);
            }
            mutate(
                slot,
                G::Strong,
                [&]
                {
                    if (op.kind == K_pop_back)
                    {
                        c.pop_back();
                    }
                    else if constexpr (FRONT)
                    {
                        c.pop_front();
                    }
                },
                [&]
                {
                    budget(8, "removing an end element");
                    copies_at_most(0, "removing an end element");
                    if (op.kind == K_pop_back)
                    {
                        S.m.pop_back();
                    }
                    else
                    {
                        S.m.erase(S.m.begin());
                    }
                });
            return;
        }
        case K_insert_copy:
        case K_insert_move:
        case K_emplace_mid:
        {
            const MV x = fresh(op.a);
            SrcBuf<T, 1> src;
            src.add(x.v, x.p);
            if (guard_length(N + 1, !CIRC && n >= N))
            {
                return;
            }
            const std::size_t pos = pick_pos(op.b, n);
            inval_insert(slot, pos);
            if (op.kind != K_emplace_mid)
            {
                watch_arg(src.data()[0], x);
            }
            std::optional<typename C::iterator> ret;
            mutate(
                slot,
                (F == Fam::LIST || (pos == n && !CIRC)) ? G::Strong : G::Basic,
                [&]
                {
                    auto at = cit(slot, pos);
                    if (op.kind == K_insert_copy)
                    {
                        if constexpr (COPY)
                        {
                            ret.emplace(c.insert(at, static_cast<const T&>(src.data()[0])));
                        }
                        else
                        {
                            ret.emplace(c.insert(at, std::move(src.data()[0])));
                        }
                    }
                    else if (op.kind == K_insert_move)
                    {
                        ret.emplace(c.insert(at, std::move(src.data()[0])));
                    }
                    else if constexpr (requires { T(1, 2); })
                    {
                        ret.emplace(op.c % 3 == 0 ? c.emplace(at, std::move(src.data()[0])) : c.emplace(at, x.v, x.p));
                    }
                    else
                    {
                        ret.emplace(c.emplace(at, std::move(src.data()[0])));
                    }
                },
                [&]
                {
                    budget(F == Fam::LIST ? 16 : static_cast<u32>(5 * (F == Fam::VEC ? n - pos : n) + 20), "inserting one element");
                    copies_at_most(op.kind == K_insert_copy ? 2 : 0, "inserting one element");
                    const std::size_t w = m_insert(S.m, pos, &x, 1);
                    check_ret(slot, ret, w, "insert");
                });
            return;
        }
        case K_insert_range:
        case K_insert_bidir:
        {
            if constexpr (COPY)
            {
                const std::size_t room = CIRC ? N + 4 : N - n;
                const std::size_t k = room == 0 ? 0 : op.c % (std::min<std::size_t>(room, op.c / 16 % 6 == 0 ? room : 7 + op.c % 5) + 1);
                SrcBuf<T, SRC> src;
                MV xs[SRC];
                fill(src, xs, k, op.a);
                const bool rev = op.kind == K_insert_range && op.a / 5 % 3 == 2;  // random access, not contiguous
                if (rev)
                {
                    std::reverse(xs, xs + k);
                }
                const std::size_t pos = pick_pos(op.b, n);
                inval_insert(slot, pos);
                std::optional<typename C::iterator> ret;
                mutate(
                    slot,
                    G::Basic,
                    [&]
                    {
                        if (op.kind == K_insert_range)
                        {
                            const T* f = src.begin();
                            const T* l = src.end();
                            if (rev)
                            {
                                ret.emplace(c.insert(cit(slot, pos), std::make_reverse_iterator(l),
                                                     std::make_reverse_iterator(f)));
                                return;
                            }
                            ret.emplace(c.insert(cit(slot, pos), f, l));
                        }
                        else
                        {
                            ret.emplace(
                                c.insert(cit(slot, pos), FwdIt<T>{src.begin()}, FwdIt<T>{src.end()}));
                        }
                    },
                    [&]
                    {
                        const std::size_t w = m_insert(S.m, pos, xs, k);
                        check_ret(slot, ret, w, "insert(range)");
                    });
            }
            return;
        }
        case K_insert_input:
        case K_assign_input:
        {
            if constexpr (COPY)
            {
                const bool asg = op.kind == K_assign_input;
                const std::size_t room = CIRC ? N + 4 : (asg ? N : N - n);
                std::size_t k = op.c % (std::min<std::size_t>(room, op.c / 16 % 6 == 0 ? room : 9) + 1);
                if (!CIRC && op.c % 11 == 0 && !rejects_stripped())
                {
                    k = room + 1 + op.c % 2;  // overflow
                }
                SrcBuf<T, SRC> src;
                MV xs[SRC];
                fill(src, xs, k, op.a);
                SourceState<T> ss;
                ss.data = src.data();
                ss.n = k;
                std::size_t avail = k;
                if (op.fault == F_SRC_END && (W.strip & ST_SRCFAULT) == 0)
                {
                    avail = std::min<std::size_t>(k, op.fault_at);
                    if (avail < k)
                    {
                        W.faults_fired++;
                        SIM_COUNT("fault.source_short");
                    }
                    ss.n = avail;
                }
                else if (op.fault == F_SRC_THROW && (W.strip & ST_SRCFAULT) == 0)
                {
                    ss.fail_at = op.fault_at;
                }
                const bool over = avail > room;
                if (over && !CIRC)
                {
                    if (rejects_stripped())
                    {
                        return;
                    }
                    expect_length(N + (avail - room));
                    S.rej_basic = true;
                }
                const std::size_t pos = pick_pos(op.b, n);
                if (asg)
                {
                    drop_handles(slot);
                }
                else
                {
                    inval_insert(slot, pos);
                    if (F == Fam::VEC)
                    {
                        keep_before(slot, pos);
                    }
                }
                std::optional<typename C::iterator> ret;
                mutate(
                    slot,
                    G::Basic,
                    [&]
                    {
                        if (asg)
                        {
                            c.assign(InputIt<T>{&ss}, InputIt<T>{});
                        }
                        else
                        {
                            ret.emplace(c.insert(cit(slot, pos), InputIt<T>{&ss}, InputIt<T>{}));
                        }
                    },
                    [&]
                    {
                        if (ss.pos != avail)
                        {
                            fail("source", "the single-pass source was consumed up to %zu of %zu elements", ss.pos,
                                 avail);
                        }
                        if (asg)
                        {
                            S.m.clear();
                            m_insert(S.m, 0, xs, avail);
                        }
                        else
                        {
                            const std::size_t w = m_insert(S.m, pos, xs, avail);
                            check_ret(slot, ret, w, "insert(input range)");
                        }
                    });
            }
            return;
        }
        case K_insert_ilist:
        case K_assign_ilist:
        {
            if constexpr (COPY)
            {
                const bool asg = op.kind == K_assign_ilist;
                if (!CIRC && (asg ? N : N - n) < 3)
                {
                    return;
                }
                MV xs[3] = {fresh(op.a), fresh(op.a + 1), fresh(op.a + 2)};
                SrcBuf<T, 3> src;
                for (auto& x : xs)
                {
                    src.add(x.v, x.p);
                }
                const std::size_t pos = pick_pos(op.b, n);
                if (asg)
                {
                    drop_handles(slot);
                }
                else
                {
                    inval_insert(slot, pos);
                }
                std::optional<typename C::iterator> ret;
                W.quiet_callbacks = true;
                std::initializer_list<T> il{src.data()[0], src.data()[1], src.data()[2]};
                W.quiet_callbacks = false;
                mutate(
                    slot,
                    G::Basic,
                    [&]
                    {
                        if (asg)
                        {
                            c.assign(il);
                        }
                        else
                        {
                            ret.emplace(c.insert(cit(slot, pos), il));
                        }
                    },
                    [&]
                    {
                        if (asg)
                        {
                            S.m.clear();
                            m_insert(S.m, 0, xs, 3);
                        }
                        else
                        {
                            const std::size_t w = m_insert(S.m, pos, xs, 3);
                            check_ret(slot, ret, w, "insert(initializer_list)");
                        }
                    });
            }
            return;
        }
        case K_erase_one:
        {
            if (n == 0)
            {
                return;
            }
            const std::size_t pos = op.b % n;
            inval_erase(slot, pos, 1);
            std::optional<typename C::iterator> ret;
            mutate(
                slot,
                G::Strong,
                [&] { ret.emplace(c.erase(cit(slot, pos))); },
                [&]
                {
                    budget(F == Fam::LIST ? 8 : static_cast<u32>(5 * (F == Fam::VEC ? n - pos : n) + 20), "erasing one element");
                    copies_at_most(0, "erasing one element");
                    S.m.erase(S.m.begin() + static_cast<long>(pos));
                    check_ret(slot, ret, pos, "erase");
                });
            return;
        }
        case K_erase_range:
        {
            const std::size_t f = op.b % (n + 1);
            const std::size_t l = f + op.c % (n - f + 1);
            inval_erase(slot, f, l - f);
            std::optional<typename C::iterator> ret;
            mutate(
                slot,
                G::Strong,
                [&] { ret.emplace(c.erase(cit(slot, f), cit(slot, l))); },
                [&]
                {
                    S.m.erase(S.m.begin() + static_cast<long>(f), S.m.begin() + static_cast<long>(l));
                    check_ret(slot, ret, f, "erase(range)");
                });
            return;
        }
        case K_clear:
            drop_handles(slot);
            mutate(slot, G::Strong, [&] { c.clear(); }, [&] { S.m.clear(); });
            return;
        case K_resize_default:
        case K_resize_value:
        {
            if constexpr (COPY)
            {
                const std::size_t k = op.b % (N + 1);
                if (!DEFAULT && op.kind == K_resize_default)
                {
                    return;
                }
                const MV x = op.kind == K_resize_value ? fresh(op.a) : ET<T>::def();
                SrcBuf<T, 1> src;
                src.add(x.v, x.p);
                inval_push(slot);
                mutate(
                    slot,
                    G::Basic,
                    [&]
                    {
                        if (op.kind == K_resize_value)
                        {
                            c.resize(k, src.data()[0]);
                        }
                        else if constexpr (DEFAULT)
                        {
                            c.resize(k);
                        }
                    },
                    [&]
                    {
                        while (S.m.size() > k)
                        {
                            S.m.pop_back();
                        }
                        while (S.m.size() < k)
                        {
                            S.m.push_back(mme(x));
                        }
                    });
            }
            return;
        }
        case K_assign_count:
        {
            if constexpr (COPY)
            {
                const std::size_t k = CIRC ? op.b % (N + 4) : op.b % (N + 1);
                const MV x = fresh(op.a);
                SrcBuf<T, 1> src;
                src.add(x.v, x.p);
                drop_handles(slot);
                mutate(
                    slot,
                    G::Basic,
                    [&] { c.assign(k, static_cast<const T&>(src.data()[0])); },
                    [&]
                    {
                        S.m.clear();
                        for (std::size_t i = 0; i < std::min(k, N); ++i)
                        {
                            S.m.push_back(mme(x));
                        }
                    });
            }
            return;
        }
        case K_assign_range:
        {
            if constexpr (COPY)
            {
                const std::size_t k = CIRC ? op.c % (N + 5) : op.c % (N + 1);
                SrcBuf<T, SRC> src;
                MV xs[SRC];
                fill(src, xs, k, op.a);
                const bool rev = op.b % 2 == 0 && op.a / 5 % 3 == 2;
                if (rev)
                {
                    std::reverse(xs, xs + k);
                }
                drop_handles(slot);
                mutate(
                    slot,
                    G::Basic,
                    [&]
                    {
                        if (op.b % 2 == 0)
                        {
                            const T* f = src.begin();
                            const T* l = src.end();
                            if (rev)
                            {
                                c.assign(std::make_reverse_iterator(l), std::make_reverse_iterator(f));
                                return;
                            }
                            c.assign(f, l);
                        }
                        else
                        {
                            c.assign(FwdIt<T>{src.begin()}, FwdIt<T>{src.end()});
                        }
                    },
                    [&]
                    {
                        S.m.clear();
                        m_insert(S.m, 0, xs, k);
                    });
            }
            return;
        }
        case K_insert_moving:  // a range of rvalues: its elements are moved from
        case K_assign_moving:
        case K_construct_moving:
        {
            const bool ins = op.kind == K_insert_moving;
            const std::size_t room = CIRC ? N + 4 : (ins ? N - n : N);
            const std::size_t k = op.c % (std::min<std::size_t>(room, op.c / 16 % 6 == 0 ? room : 9) + 1);
            SrcBuf<T, SRC> src;
            MV xs[SRC];
            fill(src, xs, k, op.a);
            const std::size_t pos = ins ? pick_pos(op.b, n) : 0;
            if (ins)
            {
                inval_insert(slot, pos);
            }
            else
            {
                drop_handles(slot);
            }
            if (op.kind == K_construct_moving)
            {
                destroy(slot);
            }
            const auto f = std::make_move_iterator(src.begin());
            const auto l = std::make_move_iterator(src.end());
            std::optional<typename C::iterator> ret;
            mutate(
                slot,
                G::Basic,
                [&]
                {
                    switch (op.kind)
                    {
                    case K_insert_moving: ret.emplace(c.insert(cit(slot, pos), f, l)); break;
                    case K_assign_moving: c.assign(f, l); break;
                    default: construct(slot, [&](void* p) { ::new (p) C(f, l); }); break;
                    }
                },
                [&]
                {
                    copies_at_most(0, "taking over a range of rvalues");
                    if (!ins)
                    {
                        S.m.clear();
                    }
                    const std::size_t w = m_insert(S.m, pos, xs, k);
                    if (ins)
                    {
                        check_ret(slot, ret, w, "insert(range)");
                    }
                });
            return;
        }
        case K_insert_conv:  // a contiguous range of another type, from which elements are made
        case K_assign_conv:
        case K_construct_conv:
        {
            if constexpr (HAS_CONV<T>)
            {
                const bool ins = op.kind == K_insert_conv;
                const std::size_t room = CIRC ? N + 4 : (ins ? N - n : N);
                const std::size_t k = op.c % (std::min<std::size_t>(room, op.c / 16 % 6 == 0 ? room : 9) + 1);
                typename ConvSrc<T>::type from[SRC];
                MV xs[SRC];
                for (std::size_t i = 0; i < k; ++i)
                {
                    xs[i] = fresh(op.a + static_cast<u32>(i) * 3);
                    ConvSrc<T>::set(from[i], xs[i]);
                }
                const std::size_t pos = ins ? pick_pos(op.b, n) : 0;
                if (ins)
                {
                    inval_insert(slot, pos);
                }
                else
                {
                    drop_handles(slot);
                }
                if (op.kind == K_construct_conv)
                {
                    destroy(slot);
                }
                const typename ConvSrc<T>::type* const f = from;
                std::optional<typename C::iterator> ret;
                mutate(
                    slot,
                    G::Basic,
                    [&]
                    {
                        switch (op.kind)
                        {
                        case K_insert_conv: ret.emplace(c.insert(cit(slot, pos), f, f + k)); break;
                        case K_assign_conv: c.assign(f, f + k); break;
                        default: construct(slot, [&](void* p) { ::new (p) C(f, f + k); }); break;
                        }
                    },
                    [&]
                    {
                        if (!ins)
                        {
                            S.m.clear();
                        }
                        const std::size_t w = m_insert(S.m, pos, xs, k);
                        if (ins)
                        {
                            check_ret(slot, ret, w, "insert(range)");
                        }
                    });
            }
            return;
        }
        case K_write_at:
        {
            if constexpr (RA)
            {
                if (n == 0)
                {
                    return;
                }
                const std::size_t i = op.b % n;
                const MV x = fresh(op.a);
                SrcBuf<T, 1> src;
                src.add(x.v, x.p);
                mutate(
                    slot,
                    G::Strong,
                    [&]
                    {
                        T& r = op.c % 3 == 0 ? c[i] : (op.c % 3 == 1 ? c.at(i) : *(c.begin() + static_cast<long>(i)));
                        NoEvents q;
                        r = std::move(src.data()[0]);
                    },
                    [&] { S.m[i].x = x; });
            }
            return;
        }
        case K_write_ends:
        {
            if (n == 0)
            {
                return;
            }
            const MV x = fresh(op.a);
            SrcBuf<T, 1> src;
            src.add(x.v, x.p);
            const bool front = op.b % 2 == 0;
            mutate(
                slot,
                G::Strong,
                [&]
                {
                    T& r = front ? c.front() : c.back();
                    NoEvents q;
                    r = std::move(src.data()[0]);
                },
                [&] { (front ? S.m.front() : S.m.back()).x = x; });
            return;
        }
        case K_write_all:
        {
            std::size_t i = 0;
            mutate(
                slot,
                G::Strong,
                [&]
                {
                    NoEvents q;
                    if (op.b % 2 == 0)
                    {
                        for (T& r : c)
                        {
                            r = ET<T>::make(static_cast<int>(i + op.a % 5), static_cast<int>(i));
                            ++i;
                        }
                    }
                    else
                    {
                        for (auto it = c.rbegin(); it != c.rend(); ++it)
                        {
                            const std::size_t j = n - 1 - i;
                            *it = ET<T>::make(static_cast<int>(j + op.a % 5), static_cast<int>(j));
                            ++i;
                        }
                    }
                },
                [&]
                {
                    if (i != n)
                    {
                        fail("content", "mutable iteration visits %zu of %zu elements", i, n);
                    }
                    for (std::size_t j = 0; j < n; ++j)
                    {
                        S.m[j].x = mk<T>(static_cast<int>(j + op.a % 5), static_cast<int>(j));
                    }
                });
            return;
        }
        case K_permute:
        {
            drop_handles(slot);
            if constexpr (RA)
            {
                if (op.b % 3 == 0)
                {
                    mutate(
                        slot,
                        G::Basic,
                        [&]
                        {
                            NoEvents q;
                            sort_by_value(c.begin(), c.end());
                        },
                        [&] { sort_by_value_m(S.m); });
                    return;
                }
                if (op.b % 3 == 1 && n > 0)
                {
                    const long mid = static_cast<long>(op.c % n);
                    mutate(
                        slot,
                        G::Basic,
                        [&]
                        {
                            NoEvents q;
                            std::rotate(c.begin(), c.begin() + mid, c.end());
                        },
                        [&] { std::rotate(S.m.begin(), S.m.begin() + mid, S.m.end()); });
                    return;
                }
            }
            mutate(
                slot,
                G::Basic,
                [&]
                {
                    NoEvents q;
                    std::reverse(c.begin(), c.end());
                },
                [&] { std::reverse(S.m.begin(), S.m.end()); });
            return;
        }
        case K_erase_value:
        case K_erase_pred:
        case K_remove_member:
        {
            const int key = n == 0 ? 0 : S.m[op.b % n].x.v;
            const int modn = 2 + static_cast<int>(op.c % 3);
            auto pred = [&](const T& e)
            {
                on_event(Ev::Pred, true);
                NoEvents q;
                return ET<T>::get(e).v % modn == 0;
            };
            SrcBuf<T, 1> src;
            src.add(key, 0);
            std::size_t ret = 0;
            const bool by_value = op.kind == K_erase_value || (op.kind == K_remove_member && op.c % 2 == 0);
            // a value of another type, which can only be compared with elements; for numbers, one none of them equals
            const bool other = op.kind == K_erase_value && op.c % 5 >= 3 && HAS_CONV<T>;
            const bool none = other && std::is_same_v<T, int> && op.c % 2 == 0;
            auto gone = [&](const ME& e) { return by_value ? e.x.v == key && !none : e.x.v % modn == 0; };
            std::size_t first_gone = n;
            for (std::size_t i = 0; i < n; ++i)
            {
                if (gone(S.m[i]))
                {
                    first_gone = i;
                    break;
                }
            }
            if (F == Fam::LIST)
            {
                // erased handles vanish with their uid
            }
            else if (F == Fam::VEC)
            {
                keep_before(slot, first_gone);
            }
            else if (first_gone != n)
            {
                drop_handles(slot);
            }
            mutate(
                slot,
                G::Basic,
                [&]
                {
                    if (op.kind == K_remove_member)
                    {
                        if constexpr (F == Fam::LIST)
                        {
                            ret = by_value ? c.remove(src.data()[0]) : c.remove_if(pred);
                            return;
                        }
                    }
                    if (by_value && other)
                    {
                        if constexpr (std::is_same_v<T, int>)
                        {
                            if (op.c % 3 == 0)
                            {
                                ret = fixed_containers::erase(c, key + (none ? 0.5 : 0.0));
                            }
                            else
                            {
                                ret = fixed_containers::erase(c, key + (none ? 1LL << 32 : 0LL));
                            }
                        }
                        else if constexpr (HAS_CONV<T>)
                        {
                            const Alike<T> value{key};
                            ret = fixed_containers::erase(c, value);
                        }
                        return;
                    }
                    if (by_value)
                    {
                        ret = fixed_containers::erase(c, src.data()[0]);
                    }
                    else
                    {
                        ret = fixed_containers::erase_if(c, pred);
                    }
                },
                [&]
                {
                    const u32 cmps = W.cur->evc[static_cast<int>(Ev::Equal)] + W.cur->evc[static_cast<int>(Ev::Pred)];
                    if (cmps > n + 1)
                    {
                        fail("progress", "removal examined %u elements of %zu", cmps, n);
                    }
                    std::erase_if(S.m, gone);
                    if (ret != n - S.m.size())
                    {
                        fail("content", "erase reported %zu removed elements, reference %zu", ret, n - S.m.size());
                    }
                });
            return;
        }
        case K_copy_construct:
        {
            if constexpr (COPY)
            {
                const int d = op.slot2;
                if (d == slot)
                {
                    return;
                }
                destroy(d);
                if (!lib([&] { construct(d, [&](void* p) { ::new (p) C(static_cast<const C&>(c)); }); }))
                {
                    if constexpr (ET<T>::tracked)
                    {
                        if (reg_block_count(d, st[d].s.half) != 0)
                        {
                            fail("lifetime", "a failed copy construction left %u live elements",
                                 reg_block_count(d, st[d].s.half));
                        }
                    }
                    NoEvents q;
                    W.cur->in_lib = true;
                    construct(d, [](void* p) { ::new (p) C(); });
                    W.cur->in_lib = false;
                    check(slot, "exc-strong");
                    return;
                }
                copy_model(d, slot);
                check(d);
                check(slot);
            }
            return;
        }
        case K_copy_assign:
        {
            if constexpr (COPY)
            {
                const int d = op.slot2;
                if (d == slot || BYTEWISE_ASSIGN<T> && !probe_known)
                {
                    return;
                }
                drop_handles(d);
                if (lib([&] { *st[d].s = static_cast<const C&>(c); }))
                {
                    copy_model(d, slot);
                    check(d);
                }
                else
                {
                    adopt(d, "exc-basic");
                }
                check(slot);
            }
            return;
        }
        case K_move_construct:
        case K_move_assign:
        {
            const int d = op.slot2;
            if (d == slot || BYTEWISE_ASSIGN<T> && !probe_known && op.kind == K_move_assign)
            {
                return;
            }
            if (op.kind == K_move_construct)
            {
                destroy(d);
                lib([&] { construct(d, [&](void* p) { ::new (p) C(std::move(c)); }); });
            }
            else
            {
                drop_handles(d);
                lib([&] { *st[d].s = std::move(c); });
            }
            copies_at_most(0, "moving the container");
            copy_model(d, slot);
            // the source is only destroyed or assigned afterwards
            drop_handles(slot);
            if (op.b % 2 == 0 || BYTEWISE_ASSIGN<T> && !probe_known)
            {
                destroy_moved_from(slot);
                W.cur->in_lib = true;
                construct(slot, [](void* p) { ::new (p) C(); });
                W.cur->in_lib = false;
                S.m.clear();
            }
            else
            {
                // give the moved-from object a value by move assignment
                lib(
                    [&]
                    {
                        C tmp;
                        *S.s = std::move(tmp);
                    });
                S.m.clear();
            }
            check(d);
            check(slot);
            return;
        }
        case K_swap_objects:
        {
            const int d = op.slot2;
            if (d == slot || BYTEWISE_ASSIGN<T> && !probe_known)
            {
                return;
            }
            drop_handles(d);
            drop_handles(slot);
            lib(
                [&]
                {
                    using std::swap;
                    swap(c, *st[d].s);
                });
            std::swap(S.m, st[d].m);
            check(d);
            check(slot);
            return;
        }
        case K_self_assign:
        {
            if constexpr (COPY)
            {
                drop_handles(slot);
                lib(
                    [&]
                    {
                        C& same = c;
                        if (op.b % 3 == 0)
                        {
                            c = std::move(same);
                        }
                        else
                        {
                            c = static_cast<const C&>(same);
                        }
                    });
                check(slot);
            }
            return;
        }
        case K_compare:
        {
            const int d = op.slot2;
            const C& a = c;
            const C& b = *st[d].s;
            bool eq = false;
            std::strong_ordering o = std::strong_ordering::equal;
            if (!lib(
                    [&]
                    {
                        eq = a == b;
                        o = a <=> b;
                    }))
            {
                check(slot);
                check(d);
                return;
            }
            check_cmp(S.m, st[d].m, eq, o);
            check(slot);
            return;
        }
        case K_compare_other_cap:
        {
            if constexpr (COPY)
            {
                // a container with a different capacity (or policy) and the same (or a perturbed) content
                std::vector<ME>& other = scratch[op.task % NTASKS];  // readers may overlap
                other = S.m;
                if (op.b % 3 == 1 && !other.empty())
                {
                    other.pop_back();
                }
                if (op.b % 3 == 2 && (op.c % 3 == 0 || other.size() < N))
                {
                    other.push_back(mme(mk<T>(1, 1)));
                }
                if (op.a % 3 != 0 && !other.empty())  // one element differs, or is equal but not identical
                {
                    MV& y = other[op.a / 3 % other.size()].x;
                    y = mk<T>(op.a % 3 == 1 ? y.v + 1 : y.v, y.p + 1);
                }
                switch (op.c % 3)
                {
                case 0: compare_with<C2>(slot, other); break;
                case 1: compare_with<C3>(slot, other); break;
                default:
                    if (other.size() <= N)
                    {
                        compare_with<C>(slot, other);
                    }
                    break;
                }
            }
            return;
        }
        case K_construct_count:
        {
            if constexpr (COPY)
            {
                const std::size_t k = op.b % (CIRC ? N + 4 : N + 1);
                const bool def = DEFAULT && op.c % 2 == 0;
                const MV x = def ? ET<T>::def() : fresh(op.a);
                SrcBuf<T, 1> src;
                src.add(x.v, x.p);
                destroy(slot);
                lib(
                    [&]
                    {
                        construct(slot,
                                  [&](void* p)
                                  {
                                      if (def)
                                      {
                                          if constexpr (DEFAULT)
                                          {
                                              ::new (p) C(k);
                                          }
                                      }
                                      else
                                      {
                                          ::new (p) C(k, static_cast<const T&>(src.data()[0]));
                                      }
                                  });
                    });
                for (std::size_t i = 0; i < std::min(k, N); ++i)
                {
                    S.m.push_back(mme(x));
                }
                check(slot);
            }
            return;
        }
        case K_construct_range:
        case K_construct_input:
        {
            if constexpr (COPY)
            {
                const std::size_t k = op.c % (CIRC ? N + 5 : N + 1);
                SrcBuf<T, SRC> src;
                MV xs[SRC];
                fill(src, xs, k, op.a);
                SourceState<T> ss;
                ss.data = src.data();
                ss.n = k;
                const bool rev = op.kind == K_construct_range && op.a / 5 % 3 == 2;
                if (rev)
                {
                    std::reverse(xs, xs + k);
                }
                destroy(slot);
                lib(
                    [&]
                    {
                        construct(slot,
                                  [&](void* p)
                                  {
                                      if (op.kind == K_construct_range)
                                      {
                                          const T* f = src.begin();
                                          const T* l = src.end();
                                          if (rev)
                                          {
                                              ::new (p) C(std::make_reverse_iterator(l), std::make_reverse_iterator(f));
                                              return;
                                          }
                                          ::new (p) C(f, l);
                                      }
                                      else
                                      {
                                          ::new (p) C(InputIt<T>{&ss}, InputIt<T>{});
                                      }
                                  });
                    });
                if (op.kind == K_construct_input && ss.pos != k)
                {
                    fail("source", "the single-pass source was consumed up to %zu of %zu elements", ss.pos, k);
                }
                m_insert(S.m, 0, xs, k);
                check(slot);
            }
            return;
        }
        case K_construct_ilist:
        {
            if constexpr (COPY && (N >= 3 || CIRC))
            {
                MV xs[3] = {fresh(op.a), fresh(op.a + 1), fresh(op.a + 2)};
                SrcBuf<T, 3> src;
                for (auto& x : xs)
                {
                    src.add(x.v, x.p);
                }
                destroy(slot);
                W.quiet_callbacks = true;
                std::initializer_list<T> il{src.data()[0], src.data()[1], src.data()[2]};
                W.quiet_callbacks = false;
                lib([&] { construct(slot, [&](void* p) { ::new (p) C(il); }); });
                m_insert(S.m, 0, xs, 3);
                check(slot);
            }
            return;
        }
        case K_construct_array:  // make_fixed_*: the capacity is that of the array
        {
            if constexpr (COPY && N > 0)
            {
                SrcBuf<T, N> src;
                MV xs[N];
                fill(src, xs, N, op.a);
                const T(&arr)[N] = *std::launder(reinterpret_cast<const T(*)[N]>(src.raw));
                if (op.b % 4 == 0)
                {
                    check_default_make(arr, xs, N);
                    check_default_make(std::array<T, 0>{}, xs, 0);
                    return;
                }
                destroy(slot);
                lib(
                    [&]
                    {
                        construct(slot,
                                  [&](void* p)
                                  {
                                      using namespace fixed_containers;
                                      if constexpr (F == Fam::VEC)
                                      {
                                          ::new (p) C(make_fixed_vector<T, Pol<N>>(arr));
                                      }
                                      else if constexpr (F == Fam::DEQ)
                                      {
                                          ::new (p) C(make_fixed_deque<T, Pol<N>>(arr));
                                      }
                                      else if constexpr (F == Fam::CIRC)
                                      {
                                          ::new (p) C(make_fixed_circular_deque<T, Pol<N>>(arr));
                                      }
                                      else
                                      {
                                          ::new (p) C(make_fixed_list<T, Pol<N>>(arr));
                                      }
                                  });
                    });
                m_insert(S.m, 0, xs, N);
                check(slot);
            }
            return;
        }
        case K_construct_builder:
        {
            if constexpr (F == Fam::VEC && COPY && N >= 4)
            {
                SrcBuf<T, N> src;
                MV xs[N];
                const std::size_t k = op.b % (N - 1);  // k + 2 elements in the end
                fill(src, xs, k + 2, op.a);
                W.quiet_callbacks = true;
                std::initializer_list<T> il{src.data()[k], src.data()[k + 1]};
                W.quiet_callbacks = false;
                const T* f = src.begin();
                destroy(slot);
                lib(
                    [&]
                    {
                        construct(slot,
                                  [&](void* p)
                                  {
                                      if (op.c % 2 == 0)
                                      {
                                          typename C::Builder b{};
                                          struct Rng
                                          {
                                              const T* b;
                                              const T* e;
                                              const T* cbegin() const { return b; }
                                              const T* cend() const { return e; }
                                          };
                                          if (k > 0 && op.c % 4 == 2)
                                          {
                                              const Rng rng{f, f + k};
                                              b.push_back_all(rng);
                                          }
                                          else if (k > 0)
                                          {
                                              b.push_back(*f);
                                              b.push_back_all(f + 1, f + k);
                                          }
                                          b.push_back_all(il);
                                          ::new (p) C(b.build());
                                      }
                                      else
                                      {
                                          if (op.c % 4 == 3)
                                          {
                                              ::new (p) C(typename C::Builder{}
                                                              .push_back_all(f, f + k)
                                                              .push_back_all(il)
                                                              .build());
                                              return;
                                          }
                                          const std::array<const T*, 2> r{f, f + k};
                                          struct Rng
                                          {
                                              const T* b;
                                              const T* e;
                                              const T* cbegin() const { return b; }
                                              const T* cend() const { return e; }
                                          };
                                          ::new (p) C(typename C::Builder{}
                                                          .push_back_all(Rng{r[0], r[1]})
                                                          .push_back(src.data()[k])
                                                          .push_back(src.data()[k + 1])
                                                          .build());
                                      }
                                  });
                    });
                m_insert(S.m, 0, xs, k + 2);
                check(slot);
            }
            return;
        }
        case K_read_walk:
        {
            const C& cc = c;
            std::size_t i = 0;
            u64 sum = 0;
            lib(
                [&]
                {
                    if (op.b % 2 == 0)
                    {
                        for (auto it = cc.cbegin(); it != cc.cend(); it++)
                        {
                            on_event(Ev::Pred, false);
                            sum = mix64(sum ^ static_cast<u64>(static_cast<u32>(ET<T>::get(*it).v)));
                            ++i;
                        }
                    }
                    else
                    {
                        for (auto it = cc.end(); it != cc.begin();)
                        {
                            --it;
                            on_event(Ev::Pred, false);
                            sum = mix64(sum ^ static_cast<u64>(static_cast<u32>(ET<T>::get(*it).v)));
                            ++i;
                        }
                    }
                });
            u64 want = 0;
            for (std::size_t j = 0; j < n; ++j)
            {
                const auto& e = op.b % 2 == 0 ? S.m[j] : S.m[n - 1 - j];
                want = mix64(want ^ static_cast<u64>(static_cast<u32>(e.x.v)));
            }
            if (i != n || sum != want)
            {
                fail("content", "a walk interleaved with other tasks saw a different sequence (%zu of %zu elements)", i,
                     n);
            }
            return;
        }
        case K_iter_steps:
            lib(
                [&]
                {
                    NoEvents q;
                    iter_walk_all(c, n, op.b, op.c,
                                  [&](const auto& it, std::size_t i)
                                  { return i < n && ET<T>::get(*it) == S.m[i].x && ET<T>::get(*it.operator->()) == S.m[i].x; });
                });
            return;
        case K_read_arith:
        {
            if constexpr (RA)
            {
                const C& cc = c;
                const long i = static_cast<long>(op.b % (n + 1));
                const long j = static_cast<long>(op.c % (n + 1));
                bool ok = true;
                lib(
                    [&]
                    {
                        NoEvents q;
                        auto b = cc.begin();
                        auto e = cc.end();
                        ok = ok && (e - b) == static_cast<long>(n);
                        auto x = b + i;
                        auto y = e - (static_cast<long>(n) - j);
                        ok = ok && (y - x) == j - i;
                        ok = ok && ((x < y) == (i < j)) && ((x <= y) == (i <= j)) && ((x == y) == (i == j)) &&
                             ((x > y) == (i > j)) && ((x >= y) == (i >= j));
                        auto z = x;
                        z += j - i;
                        ok = ok && z == y;
                        z -= j - i;
                        ok = ok && z == x;
                        if (i < static_cast<long>(n))
                        {
                            ok = ok && ET<T>::get(*x) == S.m[static_cast<std::size_t>(i)].x;
                            ok = ok && ET<T>::get(b[i]) == S.m[static_cast<std::size_t>(i)].x;
                            ok = ok && ET<T>::get(cc.at(static_cast<std::size_t>(i))) ==
                                           S.m[static_cast<std::size_t>(i)].x;
                        }
                        auto rb = cc.rbegin();
                        if (i < static_cast<long>(n))
                        {
                            ok = ok && ET<T>::get(*(rb + i)) == S.m[n - 1 - static_cast<std::size_t>(i)].x;
                        }
                        ok = ok && (cc.rend() - rb) == static_cast<long>(n);
                        auto rx = rb + i;
                        auto ry = cc.rend() - (static_cast<long>(n) - j);
                        ok = ok && (ry - rx) == j - i;
                        ok = ok && ((rx < ry) == (i < j)) && ((rx <= ry) == (i <= j)) && ((rx == ry) == (i == j)) &&
                             ((rx > ry) == (i > j)) && ((rx >= ry) == (i >= j));
                        ok = ok && rx.base() == e - i;
                        typename C::const_iterator conv = c.begin();
                        ok = ok && conv == b;
                    });
                if (!ok)
                {
                    fail("content", "iterator arithmetic disagrees with the reference at offsets %ld, %ld of %zu", i, j,
                         n);
                }
            }
            return;
        }
        case K_bad_index:
        {
            if constexpr (RA)
            {
                const std::size_t i = extreme(n + (op.b % 2 == 0 ? op.c % 3 : op.c), op.b / 2);
                expect_range(i, n);
                const C& cc = c;
                lib(
                    [&]
                    {
                        const T* p = nullptr;
                        switch (op.a % 4)
                        {
                        case 0: p = std::addressof(c.at(i)); break;
                        case 1: p = std::addressof(cc.at(i)); break;
                        case 2: p = std::addressof(c[i]); break;
                        default: p = std::addressof(cc[i]); break;
                        }
                        tr(reinterpret_cast<u64>(p) != 0);
                    });
            }
            return;
        }
        case K_bad_front_back:
        {
            if (n != 0 || rejects_stripped())
            {
                return;
            }
            expect(R_EMPTY);
            const C& cc = c;
            lib(
                [&]
                {
                    const T* p = nullptr;
                    switch (op.a % 4)
                    {
                    case 0: p = std::addressof(c.front()); break;
                    case 1: p = std::addressof(cc.front()); break;
                    case 2: p = std::addressof(c.back()); break;
                    default: p = std::addressof(cc.back()); break;
                    }
                    tr(reinterpret_cast<u64>(p) != 0);
                });
            return;
        }
        case K_bad_erase:
        {
            if constexpr (RA)
            {
                if (op.a % 2 == 0 && n > 0)
                {
                    const std::size_t f = 1 + op.b % n;
                    const std::size_t l = op.c % f;
                    expect(R_ARG);
                    lib([&] { c.erase(cit(slot, f), cit(slot, l)); });
                    return;
                }
                expect(R_ARG);
                lib([&] { c.erase(c.cend()); });
            }
            else
            {
                expect(R_ARG);
                lib([&] { c.erase(c.cend()); });
            }
            return;
        }
        case K_bad_iter:
        {
            // the iterators of these containers know their container
            if constexpr (F != Fam::VEC)
            {
                const int d = op.slot2;
                const C& a = c;
                const C& b = *st[d].s;
                if (op.a % 3 == 0 || d == slot)
                {
                    expect(R_ABORT);  // nothing there to refer to
                    lib(
                        [&]
                        {
                            const T* p = nullptr;
                            switch (op.b % 4)
                            {
                            case 0: p = std::addressof(*a.cend()); break;
                            case 1: p = std::addressof(*c.end()); break;
                            case 2: p = std::addressof(*a.crend()); break;
                            default: p = std::addressof(*c.rend()); break;
                            }
                            tr(p != nullptr);
                        });
                    return;
                }
                expect(R_ABORT);  // iterators of two containers have no relation
                lib(
                    [&]
                    {
                        bool r = false;
                        if constexpr (RA)
                        {
                            switch (op.b % 3)
                            {
                            case 0: r = a.cbegin() == b.cbegin(); break;
                            case 1: r = a.cbegin() < b.cend(); break;
                            default: r = (a.cend() - b.cbegin()) > 0; break;
                            }
                        }
                        else
                        {
                            r = a.cbegin() == b.cbegin();
                        }
                        tr(r);
                    });
            }
            return;
        }
        case K_bad_reserve:
        {
            if constexpr (F == Fam::VEC)
            {
                std::size_t k = op.b % (2 * N + 2);
                if (k > N)
                {
                    k = extreme(k, op.c);
                }
                if (guard_length(k, k > N))
                {
                    return;
                }
                mutate(slot, G::Strong, [&] { c.reserve(k); }, [&] {});
            }
            return;
        }
        case K_overflow_range:
        {
            if constexpr (COPY && !CIRC)
            {
                const std::size_t k = (N - n) + 1 + op.c % 3;
                if (k > SRC)
                {
                    return;
                }
                SrcBuf<T, SRC> src;
                MV xs[SRC];
                fill(src, xs, k, op.a);
                expect_length(n + k);
                const std::size_t pos = pick_pos(op.b, n);
                lib(
                    [&]
                    {
                        const T* f = src.begin();
                        const T* l = src.end();
                        c.insert(cit(slot, pos), f, l);
                    });
            }
            return;
        }
        case K_overflow_resize:
        {
            if constexpr (COPY)
            {
                const std::size_t k = extreme(N + 1 + op.c % 5, op.b / 2);
                SrcBuf<T, 1> src;
                src.add(1, 1);
                expect_length(k);
                lib(
                    [&]
                    {
                        if (DEFAULT && op.b % 2 == 0)
                        {
                            if constexpr (DEFAULT)
                            {
                                c.resize(k);
                            }
                        }
                        else
                        {
                            c.resize(k, src.data()[0]);
                        }
                    });
            }
            return;
        }
        case K_overflow_assign:
        {
            if constexpr (COPY && !CIRC)
            {
                std::size_t k = N + 1 + op.c % 3;
                SrcBuf<T, SRC> src;
                MV xs[SRC];
                fill(src, xs, k, op.a);
                if (op.b % 2 == 0)
                {
                    k = extreme(k, op.b / 2);
                }
                expect_length(k);
                S.rej_basic = op.b % 2 != 0;  // assign(range) may already have cleared
                lib(
                    [&]
                    {
                        if (op.b % 2 == 0)
                        {
                            c.assign(k, static_cast<const T&>(src.data()[0]));
                        }
                        else
                        {
                            const T* f = src.begin();
                            const T* l = src.end();
                            c.assign(f, l);
                        }
                    });
            }
            return;
        }
        case K_overflow_construct:
        {
            if constexpr (COPY && !CIRC)
            {
                std::size_t k = N + 1 + op.c % 3;
                SrcBuf<T, SRC> src;
                MV xs[SRC];
                fill(src, xs, k, op.a);
                destroy(slot);
                if (op.b % 2 == 0)
                {
                    k = extreme(k, op.b / 2);
                }
                expect_length(k);
                lib(
                    [&]
                    {
                        construct(slot,
                                  [&](void* p)
                                  {
                                      if (op.b % 2 == 0)
                                      {
                                          ::new (p) C(k, static_cast<const T&>(src.data()[0]));
                                      }
                                      else
                                      {
                                          const T* f = src.begin();
                                          const T* l = src.end();
                                          ::new (p) C(f, l);
                                      }
                                  });
                    });
            }
            return;
        }
        case K_alias_push_back:
        case K_alias_push_front:
        {
            if constexpr (COPY)
            {
                if (n == 0 || (op.kind == K_alias_push_front && !FRONT))
                {
                    return;
                }
                if (guard_length(N + 1, !CIRC && n >= N))
                {
                    return;
                }
                const std::size_t i = op.b % n;
                const MV x = S.m[i].x;
                inval_push(slot);
                mutate(
                    slot,
                    CIRC ? G::Basic : G::Strong,
                    [&]
                    {
                        const T& ref = *cit(slot, i);
                        if (op.kind == K_alias_push_back)
                        {
                            if (op.c % 2 == 0)
                            {
                                c.push_back(ref);
                            }
                            else
                            {
                                c.emplace_back(ref);
                            }
                        }
                        else if constexpr (FRONT)
                        {
                            if (op.c % 2 == 0)
                            {
                                c.push_front(ref);
                            }
                            else
                            {
                                c.emplace_front(ref);
                            }
                        }
                    },
                    [&]
                    {
                        if (op.kind == K_alias_push_back)
                        {
                            m_insert(S.m, n, &x, 1);
                        }
                        else
                        {
                            if (CIRC && n >= N)
                            {
                                S.m.pop_back();
                            }
                            S.m.insert(S.m.begin(), mme(x));
                        }
                    });
            }
            return;
        }
        case K_alias_insert:
        case K_alias_emplace:
        {
            if constexpr (COPY)
            {
                if (n == 0)
                {
                    return;
                }
                if (guard_length(N + 1, !CIRC && n >= N))
                {
                    return;
                }
                const std::size_t i = op.c % n;
                const std::size_t pos = pick_pos(op.b, n);
                const MV x = S.m[i].x;
                inval_insert(slot, pos);
                std::optional<typename C::iterator> ret;
                mutate(
                    slot,
                    (F == Fam::LIST || (pos == n && !CIRC)) ? G::Strong : G::Basic,
                    [&]
                    {
                        const T& ref = *cit(slot, i);
                        if (op.kind == K_alias_insert)
                        {
                            ret.emplace(c.insert(cit(slot, pos), ref));
                        }
                        else
                        {
                            ret.emplace(c.emplace(cit(slot, pos), ref));
                        }
                    },
                    [&]
                    {
                        const std::size_t w = m_insert(S.m, pos, &x, 1);
                        check_ret(slot, ret, w, "insert(own element)");
                    });
            }
            return;
        }
        case K_alias_resize:
        {
            if constexpr (COPY)
            {
                if (n == 0)
                {
                    return;
                }
                const std::size_t k = n + op.b % (N - n + 1);
                const std::size_t i = op.c % n;
                const MV x = S.m[i].x;
                inval_push(slot);
                mutate(
                    slot,
                    G::Basic,
                    [&] { c.resize(k, *cit(slot, i)); },
                    [&]
                    {
                        while (S.m.size() < k)
                        {
                            S.m.push_back(mme(x));
                        }
                    });
            }
            return;
        }
        case K_alias_remove:
        {
            if constexpr (F == Fam::LIST)
            {
                if (n == 0)
                {
                    return;
                }
                const std::size_t i = op.b % n;
                const int key = S.m[i].x.v;
                std::size_t ret = 0;
                mutate(
                    slot,
                    G::Basic,
                    [&] { ret = c.remove(*cit(slot, i)); },
                    [&]
                    {
                        std::erase_if(S.m, [&](const ME& e) { return e.x.v == key; });
                        if (ret != n - S.m.size())
                        {
                            fail("content", "remove reported %zu removed elements, reference %zu", ret,
                                 n - S.m.size());
                        }
                    });
            }
            return;
        }
        case K_take_handle:
        {
            if (n == 0 || S.h.size() >= 6)
            {
                return;
            }
            const std::size_t i = op.b % n;
            W.quiet_callbacks = true;
            auto it = std::next(c.begin(), static_cast<long>(i));
            S.h.push_back(Handle{S.m[i].uid, std::addressof(*it), it, true, true});
            W.quiet_callbacks = false;
            check_handles(slot);
            return;
        }
        case K_drift: drift(op); return;
        case K_relocate:
        {
            if constexpr (std::is_trivially_copyable_v<C>)
            {
                drop_handles(slot);
                S.s.relocate();
                check(slot, "image");
            }
            return;
        }
        case K_view: check_view(slot); return;
        default: return;
        }
    }

    // the elements as a type-erased reader of the object's bytes sees them
    void check_view(int slot)
    {
        if constexpr (HAS_VIEW)
        {
            St& S = st[slot];
            const auto walk = [&](const auto& view)
            {
                SIM_COUNT("probe.raw_view");
                if (view.size() != S.m.size())
                {
                    fail("image", "the raw view shows %zu elements, reference %zu",
                         static_cast<std::size_t>(view.size()), S.m.size());
                }
                std::size_t i = 0;
                const auto e = view.end();
                for (auto it = view.begin(); it != e; ++it, ++i)
                {
                    if (i >= S.m.size())
                    {
                        fail("image", "the raw view walks past %zu elements", S.m.size());
                    }
                    const MV got = read_image<T>(S.s, *it);
                    if (got != S.m[i].x)
                    {
                        fail("image", "the raw view shows (%d,%d) at %zu, reference (%d,%d)", got.v, got.p, i,
                             S.m[i].x.v, S.m[i].x.p);
                    }
                }
                if (i != S.m.size())
                {
                    fail("image", "the raw view walks %zu of %zu elements", i, S.m.size());
                }
            };
            lib(
                [&]
                {
                    const void* p = S.s.base();
                    if constexpr (F == Fam::DEQ)
                    {
                        walk(fixed_containers::FixedDequeRawView<>(p, sizeof(T), alignof(T), N));
                    }
                    else
                    {
                        walk(fixed_containers::fixed_doubly_linked_list_detail::FixedDoublyLinkedListRawView<
                             std::size_t>(p, sizeof(T), alignof(T), N));
                    }
                });
        }
    }

    static std::size_t pick_pos(u32 b, std::size_t n)
    {
        if (b % 8 == 0)
        {
            return 0;
        }
        if (b % 8 == 1)
        {
            return n;
        }
        return (b / 8 + b) % (n + 1);
    }
    // a deterministic permutation through iterator swaps (insertion sort on value, then payload)
    template <class It>
    static void sort_by_value(It b, It e)
    {
        for (It i = b; i != e; ++i)
        {
            for (It j = i; j != b; --j)
            {
                const MV y = ET<T>::get(*j);
                const MV x = ET<T>::get(*(j - 1));
                if (x.v < y.v || (x.v == y.v && x.p <= y.p))
                {
                    break;
                }
                std::iter_swap(j, j - 1);
            }
        }
    }
    static void sort_by_value_m(std::vector<ME>& m)
    {
        std::stable_sort(m.begin(),
                         m.end(),
                         [](const ME& a, const ME& b)
                         { return a.x.v < b.x.v || (a.x.v == b.x.v && a.x.p < b.x.p); });
    }
    void copy_model(int d, int s)
    {
        st[d].m = st[s].m;
        for (auto& e : st[d].m)
        {
            e.uid = next_uid++;
        }
        st[d].h.clear();
    }
    void destroy_moved_from(int slot)
    {
        destroy(slot);
    }
    template <class CX>
    void compare_with(int slot, const std::vector<ME>& other)
    {
        const C& c = *st[slot].s;
        bool eq = false;
        bool eq_r = false;
        std::strong_ordering o = std::strong_ordering::equal;
        {
            SrcBuf<T, SRC> src;
            for (auto& e : other)
            {
                src.add(e.x.v, e.x.p);
            }
            alignas(CX) unsigned char buf[sizeof(CX)];
            fill_garbage(buf, sizeof buf);
            CX* c2 = nullptr;
            {
                NoEvents q;
                const T* f = src.begin();
                const T* l = src.end();
                c2 = ::new (static_cast<void*>(buf)) CX(f, l);
            }
            const CX& cx = *c2;
            lib(
                [&]
                {
                    eq = c == cx;
                    o = c <=> cx;
                    eq_r = cx == c;
                });
            {
                NoEvents q;
                c2->~CX();
            }
        }
        check_cmp(st[slot].m, other, eq, o);
        if (eq != eq_r)
        {
            fail("content", "operator== is not symmetric between container types");
        }
        check(slot);
    }
    void check_cmp(const std::vector<ME>& a, const std::vector<ME>& b, bool eq, std::strong_ordering o)
    {
        const bool weq =
            std::equal(a.begin(), a.end(), b.begin(), b.end(), [](const ME& x, const ME& y) { return x.x.v == y.x.v; });
        const auto wo = std::lexicographical_compare_three_way(
            a.begin(), a.end(), b.begin(), b.end(), [](const ME& x, const ME& y) { return x.x.v <=> y.x.v; });
        if (eq != weq)
        {
            fail("content", "operator== gives %d, reference %d", eq, weq);
        }
        if (o != wo)
        {
            fail("content", "operator<=> disagrees with the reference");
        }
    }
};

template <Fam F, class T, std::size_t N, bool DEFPOL>
Driver* make_seq(const Knobs& k)
{
    return new SeqDriver<F, T, N, DEFPOL>(k);
}
}  // namespace sim

#define SEQ_SCENARIO_P(ID, FAM, TY, NN, DEFPOL)                                                             \
    static ::sim::RegisterScenario reg_##ID(::sim::Scenario{                                               \
        #ID, "seq", ::sim::SEQ_INFO, ::sim::K_COUNT, NN,                                                    \
        &::sim::make_seq<::sim::Fam::FAM, ::sim::TY, NN, DEFPOL>,                                           \
        std::is_trivially_copyable_v<                                                                       \
            typename ::sim::SeqType<::sim::Fam::FAM, ::sim::TY, NN, ::sim::SeqPolicy<0>>::type>             \
            ? (::sim::Fam::FAM == ::sim::Fam::DEQ || ::sim::Fam::FAM == ::sim::Fam::LIST                    \
                   ? 0u                                                                                     \
                   : static_cast<::sim::u32>(::sim::OF_VIEW))                                               \
            : static_cast<::sim::u32>(::sim::OF_RELOC | ::sim::OF_VIEW)});
#define SEQ_SCENARIO(ID, FAM, TY, NN) SEQ_SCENARIO_P(ID, FAM, TY, NN, false)
