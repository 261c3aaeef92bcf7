// EnumMap, EnumSet, EnumArray against arrays indexed by the enumerators' rank.
#pragma once
#include "common.hpp"

#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"

#include <algorithm>
#include <array>
#include <initializer_list>
#include <optional>

namespace sim
{
// gaps, negative values, declared out of order
enum class EGap : int
{
    E5 = 5,
    Em3 = -3,
    E100 = 100,
    E0 = 0,
    E7 = 7,
    Em100 = -100,
    E42 = 42,
    E1 = 1,
    Em1 = -1
};
inline constexpr EGap EGAP_KEYS[] = {EGap::Em100, EGap::Em3, EGap::Em1, EGap::E0, EGap::E1,
                                     EGap::E5,    EGap::E7,  EGap::E42, EGap::E100};
enum class ETwo : unsigned char
{
    X = 1,
    Y = 2
};
inline constexpr ETwo ETWO_KEYS[] = {ETwo::X, ETwo::Y};
enum class EBig : short
{
    A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, B0, B1, B2, B3, B4, B5, B6, B7, B8, B9
};
// more enumerators than a machine word has bits
enum class EWide : short
{
    // clang-format off
    W00, W01, W02, W03, W04, W05, W06, W07, W08, W09, W10, W11, W12, W13,
    W14, W15, W16, W17, W18, W19, W20, W21, W22, W23, W24, W25, W26, W27,
    W28, W29, W30, W31, W32, W33, W34, W35, W36, W37, W38, W39, W40, W41,
    W42, W43, W44, W45, W46, W47, W48, W49, W50, W51, W52, W53, W54, W55,
    W56, W57, W58, W59, W60, W61, W62, W63, W64, W65, W66, W67, W68, W69
    // clang-format on
};
namespace rich_detail
{
enum class RBacking
{
    P,
    Q,
    R,
    S,
    T
};
}
class ERich : public fixed_containers::rich_enums::SkeletalRichEnum<ERich, rich_detail::RBacking>
{
    friend SkeletalRichEnum::ValuesFriend;
    using SkeletalRichEnum::SkeletalRichEnum;

public:
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(ERich, P)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(ERich, Q)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(ERich, R)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(ERich, S)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(ERich, T)
};

template <class K>
struct KeysOf;
template <>
struct KeysOf<EGap>
{
    static constexpr std::size_t N = 9;
    static EGap at(std::size_t i) { return EGAP_KEYS[i]; }
};
template <>
struct KeysOf<ETwo>
{
    static constexpr std::size_t N = 2;
    static ETwo at(std::size_t i) { return ETWO_KEYS[i]; }
};
template <>
struct KeysOf<EBig>
{
    static constexpr std::size_t N = 20;
    static EBig at(std::size_t i) { return static_cast<EBig>(i); }
};
template <>
struct KeysOf<EWide>
{
    static constexpr std::size_t N = 70;
    static EWide at(std::size_t i) { return static_cast<EWide>(i); }
};
template <>
struct KeysOf<ERich>
{
    static constexpr std::size_t N = 5;
    static ERich at(std::size_t i)
    {
        switch (i)
        {
        case 0: return ERich::P();
        case 1: return ERich::Q();
        case 2: return ERich::R();
        case 3: return ERich::S();
        default: return ERich::T();
        }
    }
};
template <class K>
std::size_t rank_of(const K& k)
{
    for (std::size_t i = 0; i < KeysOf<K>::N; ++i)
    {
        if (KeysOf<K>::at(i) == k)
        {
            return i;
        }
    }
    return 999;
}

template <class K>
struct EnumPolicy
{
    [[noreturn]] static void out_of_range(const K& key,
                                          std::size_t size,
                                          const fixed_containers::std_transition::source_location&)
    {
        on_rejection(R_RANGE, rank_of(key), size, true);
    }
    [[noreturn]] static void missing_enum_entries(const fixed_containers::std_transition::source_location&)
    {
        on_rejection(R_MISSING, 0, 0, false);
    }
    [[noreturn]] static void duplicate_enum_entries(const fixed_containers::std_transition::source_location&)
    {
        on_rejection(R_DUP, 0, 0, false);
    }
};

// single-pass source of generated items
template <class T>
struct GenSource
{
    const T* data = nullptr;
    std::size_t n = 0;
    std::size_t pos = 0;
    // the item just passed is gone: it now shows what the following one shows
    void retire()
    {
        T& old = const_cast<T&>(data[pos - 1]);
        if constexpr (requires { old.first; })
        {
            go_stale(old.second);
        }
        else if constexpr (std::is_copy_assignable_v<T>)
        {
            if (pos < n)
            {
                old = data[pos];
            }
        }
    }
};
template <class T>
struct GenIt
{
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    GenSource<T>* s = nullptr;
    reference operator*() const
    {
        if (s == nullptr || s->pos >= s->n)
        {
            fail("source", "the single-pass source was dereferenced past its end");
        }
        on_event(Ev::SrcRead, false);
        return s->data[s->pos];
    }
    pointer operator->() const { return &**this; }
    GenIt& operator++()
    {
        if (s == nullptr || s->pos >= s->n)
        {
            fail("source", "the single-pass source was advanced past its end");
        }
        s->pos++;
        s->retire();
        return *this;
    }
    void operator++(int) { ++*this; }
    bool at_end() const { return s == nullptr || s->pos >= s->n; }
    bool operator==(const GenIt& o) const { return at_end() == o.at_end(); }
};

// storage for n objects of any type on the fiber stack, constructed without events
template <class T, std::size_t N>
struct ObjBuf
{
    alignas(T) unsigned char raw[sizeof(T) * N];
    std::size_t n = 0;
    ObjBuf() {}
    ObjBuf(const ObjBuf&) = delete;
    T* data() { return std::launder(reinterpret_cast<T*>(raw)); }
    template <class... A>
    void add(A&&... a)
    {
        NoEvents q;
        ::new (static_cast<void*>(raw + n * sizeof(T))) T(std::forward<A>(a)...);
        ++n;
    }
    T* begin() { return data(); }
    T* end() { return data() + n; }
    const T* begin() const { return std::launder(reinterpret_cast<const T*>(raw)); }
    const T* end() const { return begin() + n; }
    ~ObjBuf()
    {
        NoEvents q;
        for (std::size_t i = 0; i < n; ++i)
        {
            data()[i].~T();
        }
    }
};

// common slot handling
template <class Derived, class C, bool TRACKED>
struct EnumDriverBase : Driver
{
    u32 opno = 0;
    Derived& self() { return static_cast<Derived&>(*this); }

    void others()
    {
        if (++opno % 4 != 0)
        {
            return;
        }
        for (int i = 0; i < NSLOTS; ++i)
        {
            if (!slot_busy(i))
            {
                self().check(i, "isolation");
            }
        }
    }
    template <class Fn>
    void construct(int slot, Fn&& fn)
    {
        auto& S = self().st[slot];
        S.s.prepare();
        fn(static_cast<void*>(S.s.base()));
        S.s.live = true;
    }
    void destroy(int slot)
    {
        auto& S = self().st[slot];
        OpCtx* oc = W.cur;
        const u8 es = oc->expect;
        oc->expect = R_NONE;
        const bool il = oc->in_lib;
        oc->in_lib = true;
        {
            NoEvents q;
            S.s->~C();
        }
        oc->in_lib = il;
        oc->expect = es;
        S.s.live = false;
        S.reset();
        if constexpr (TRACKED)
        {
            if (reg_block_count(slot, S.s.half) != 0)
            {
                fail("lifetime", "destroying the container left %u live elements", reg_block_count(slot, S.s.half));
            }
        }
    }
    void start() override
    {
        for (int i = 0; i < NSLOTS; ++i)
        {
            W.cur->in_lib = true;
            self().construct_default(i);
            W.cur->in_lib = false;
            self().check(i, "content");
        }
    }
    void finish() override
    {
        for (int i = 0; i < NSLOTS; ++i)
        {
            self().check(i, "isolation");
        }
        for (int i = 0; i < NSLOTS; ++i)
        {
            destroy(i);
        }
    }
    void after_abandon(const Op& op, int reason) override
    {
        const int slot = op.slot;
        const char* cls = reason == A_REJECT ? "reject-effect" : "isolation";
        auto& S = self().st[slot];
        if (!S.s.live)
        {
            if (reason == A_REJECT && W.cur->unwound && reg_block_count(slot, S.s.half) != 0)
            {
                fail("lifetime", "a rejected constructor left %u live elements", reg_block_count(slot, S.s.half));
            }
            W.cur->in_lib = true;
            reg_drop_range(S.s.base(), S.s.base() + sizeof(C));
            self().construct_default(slot);
            W.cur->in_lib = false;
        }
        if (!slot_busy(slot))
        {
            self().check(slot, cls);
        }
        if (op.slot2 != op.slot && !slot_busy(op.slot2) && (W.cur->info->flags & (OF_S2_R | OF_S2_W)) != 0)
        {
            self().check(op.slot2, cls);
        }
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + S.state() * 7 + 5));
    }
    std::pair<const char*, std::size_t> bytes(int slot) override
    {
        auto& s = self().st[slot].s;
        return s.live ? std::pair<const char*, std::size_t>{s.base(), sizeof(*s)} : std::pair<const char*, std::size_t>{nullptr, 0};
    }
    void exec(const Op& op) override
    {
        self().do_exec(op);
        linear_work(4 * Derived::N + 16);
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + self().st[op.slot].state() * 7 +
                    (W.cur->threw ? 3 : 0) + (W.preempts != 0 ? 1 : 0)));
        others();
    }
    template <class Fn, class Model>
    void mutate(int slot, Fn&& fn, Model&& model)
    {
        if (lib(fn))
        {
            model();
            self().check(slot, "content");
        }
        else
        {
            self().adopt(slot, "exc-basic");
        }
    }
};

// ==================================================================== EnumMap
#define EM_OPS(X)                                                          \
    X(insert_copy, 8, OF_S1_W | OF_GROW)                                   \
    X(insert_move, 6, OF_S1_W | OF_GROW)                                   \
    X(insert_range, 4, OF_S1_W | OF_GROW)                                  \
    X(insert_input, 4, OF_S1_W | OF_GROW | OF_SRC)                         \
    X(insert_ilist, 2, OF_S1_W | OF_GROW)                                  \
    X(insert_or_assign, 4, OF_S1_W | OF_GROW)                              \
    X(try_emplace, 6, OF_S1_W | OF_GROW)                                   \
    X(emplace, 5, OF_S1_W | OF_GROW)                                       \
    X(index_write, 6, OF_S1_W | OF_GROW)                                   \
    X(at_write, 4, OF_S1_W)                                                \
    X(write_all, 2, OF_S1_W)                                               \
    X(erase_key, 8, OF_S1_W | OF_SHRINK)                                   \
    X(erase_iter, 6, OF_S1_W | OF_SHRINK)                                  \
    X(erase_range, 4, OF_S1_W | OF_SHRINK)                                 \
    X(erase_if, 3, OF_S1_W | OF_SHRINK | OF_THROW)                         \
    X(clear, 1, OF_S1_W | OF_SHRINK)                                       \
    X(lookup, 5, OF_S1_R)                                                  \
    X(walk, 3, OF_S1_R)                                                    \
    X(iter_steps, 3, OF_S1_R)                                              \
    X(bad_at, 2, OF_S1_R | OF_REJ)                                         \
    X(bad_erase, 1, OF_S1_W | OF_REJ)                                      \
    X(copy_construct, 3, OF_S1_R | OF_S2_W | OF_COPY | OF_THROW)           \
    X(copy_assign, 4, OF_S1_R | OF_S2_W | OF_COPY | OF_THROW)              \
    X(move_construct, 3, OF_S1_W | OF_S2_W | OF_COPY)                      \
    X(move_assign, 3, OF_S1_W | OF_S2_W | OF_COPY)                         \
    X(swap_objects, 2, OF_S1_W | OF_S2_W | OF_COPY)                        \
    X(self_assign, 1, OF_S1_W | OF_COPY)                                   \
    X(compare, 4, OF_S1_R | OF_S2_R | OF_COPY | OF_THROW)                  \
    X(compare_near, 3, OF_S1_R | OF_COPY)                                  \
    X(construct_range, 2, OF_S1_W)                                         \
    X(construct_input, 2, OF_S1_W | OF_SRC)                                \
    X(create_with_keys, 2, OF_S1_W)                                        \
    X(create_all, 2, OF_S1_W)                                              \
    X(create_all_missing, 1, OF_S1_W | OF_REJ)                             \
    X(create_all_dup, 1, OF_S1_W | OF_REJ)                                 \
    X(builder, 2, OF_S1_W)                                                 \
    X(take_handle, 8, OF_S1_W | OF_HANDLE)                                 \
    X(relocate, 4, OF_S1_W | OF_RELOC)
enum EmOp
{
#define X(n, w, f) EMK_##n,
    EM_OPS(X)
#undef X
        EMK_COUNT
};
inline constexpr OpInfo EM_INFO[] = {
#define X(n, w, f) OpInfo{#n, w, f},
    EM_OPS(X)
#undef X
};

template <class K, class V, bool DEFPOL>
struct EnumMapType
{
    using type = fixed_containers::EnumMap<K, V, EnumPolicy<K>>;
};
template <class K, class V>
struct EnumMapType<K, V, true>
{
    using type = fixed_containers::EnumMap<K, V>;
};

template <class K, class V, bool DEFPOL>
struct EnumMapDriver
  : EnumDriverBase<EnumMapDriver<K, V, DEFPOL>, typename EnumMapType<K, V, DEFPOL>::type, ET<V>::tracked>
{
    using C = typename EnumMapType<K, V, DEFPOL>::type;
    using Base = EnumDriverBase<EnumMapDriver<K, V, DEFPOL>, C, ET<V>::tracked>;
    using Base::construct;
    using Base::destroy;
    using Base::mutate;
    using KS = KeysOf<K>;
    static constexpr std::size_t N = KS::N;
    static constexpr bool COPY = ET<V>::copyable;
    static constexpr bool DEF = std::is_default_constructible_v<V>;
    using VT = typename C::value_type;

    struct Handle
    {
        std::size_t key;
        V* ref;
        typename C::iterator it;
    };
    struct St
    {
        Slot<C> s;
        std::optional<MV> m[N];
        std::vector<Handle> h;
        void reset()
        {
            for (auto& x : m)
            {
                x.reset();
            }
            h.clear();
        }
        std::size_t count() const
        {
            return static_cast<std::size_t>(std::count_if(m, m + N, [](auto& x) { return x.has_value(); }));
        }
        u64 state() const
        {
            u64 x = 0;
            for (std::size_t i = 0; i < N; ++i)
            {
                x = x * 2 + m[i].has_value();
            }
            return x;
        }
    };
    St st[NSLOTS];
    int next_p = 1;

    explicit EnumMapDriver(const Knobs&)
    {
        W.abort_policy = DEFPOL;
        for (int i = 0; i < NSLOTS; ++i)
        {
            st[i].s.id = i;
            st[i].h.reserve(8);
        }
    }
    MV fresh(u32 a) { return mk<V>(static_cast<int>(a % W.k.key_range), next_p++); }
    void construct_default(int slot)
    {
        construct(slot, [](void* p) { ::new (p) C(); });
        st[slot].reset();
    }
    void drop_key(int slot, std::size_t k)
    {
        std::erase_if(st[slot].h, [&](const Handle& h) { return h.key == k; });
    }

    void check(int slot, const char* cls)
    {
        St& S = st[slot];
        const ReadOnly ro(S.s.base(), sizeof(*S.s));
        C& mc = *S.s;
        const C& c = mc;
        OpCtx* oc = W.cur;
        const u8 es = oc->expect;
        oc->expect = R_NONE;
        const bool il = oc->in_lib;
        oc->in_lib = true;
        const bool q = W.quiet_callbacks;
        W.quiet_callbacks = true;
        S.s.check_canary();
        const std::size_t n = S.count();
        if (c.size() != n || c.empty() != (n == 0))
        {
            fail(cls, "size() is %zu, reference has %zu", static_cast<std::size_t>(c.size()), n);
        }
        if (c.max_size() != N || C::static_max_size() != N || fixed_containers::is_full(c) != (n >= N))
        {
            fail(cls, "max_size()/is_full() disagree with size %zu", n);
        }
        for (std::size_t i = 0; i < N; ++i)
        {
            const K k = KS::at(i);
            const bool has = S.m[i].has_value();
            if (c.contains(k) != has || c.count(k) != (has ? 1u : 0u))
            {
                fail(cls, "contains/count of enumerator %zu disagree with the reference", i);
            }
            if ((c.find(k) != c.end()) != has || (mc.find(k) != mc.end()) != has)
            {
                fail(cls, "find of enumerator %zu disagrees with the reference", i);
            }
            if (has)
            {
                if (!(ET<V>::get(c.at(k)) == *S.m[i]) || !(ET<V>::get(c.find(k)->second) == *S.m[i]) ||
                    !(ET<V>::get(mc.at(k)) == *S.m[i]) || !(mc.find(k)->first == k))
                {
                    fail(cls, "the value at enumerator %zu disagrees with the reference", i);
                }
                const char* a = reinterpret_cast<const char*>(std::addressof(c.at(k)));
                if (a < S.s.base() || a + sizeof(V) > S.s.base() + sizeof(C))
                {
                    fail("alloc", "an element is stored outside the container object");
                }
            }
        }
        std::size_t i = 0;
        std::size_t steps = 0;
        auto skip = [&]
        {
            while (i < N && !S.m[i].has_value())
            {
                ++i;
            }
        };
        skip();
        for (auto it = c.begin(); it != c.end(); ++it)
        {
            if (++steps > N || i >= N || !(it->first == KS::at(i)) || !(ET<V>::get(it->second) == *S.m[i]))
            {
                fail(cls, "forward iteration disagrees with the reference at entry %zu", steps);
            }
            ++i;
            skip();
        }
        if (steps != n)
        {
            fail(cls, "forward iteration visits %zu of %zu entries", steps, n);
        }
        i = N;
        steps = 0;
        auto rskip = [&]
        {
            while (i > 0 && !S.m[i - 1].has_value())
            {
                --i;
            }
        };
        rskip();
        for (auto it = mc.rbegin(); it != mc.rend(); ++it)
        {
            if (++steps > N || i == 0 || !((*it).first == KS::at(i - 1)) || !(ET<V>::get((*it).second) == *S.m[i - 1]))
            {
                fail(cls, "reverse iteration disagrees with the reference at entry %zu", steps);
            }
            --i;
            rskip();
        }
        if (steps != n)
        {
            fail(cls, "reverse iteration visits %zu of %zu entries", steps, n);
        }
        if (n > 0)
        {
            typename C::const_reverse_iterator cr = mc.rbegin();
            auto last = std::prev(c.end());
            if (!((*cr).first == last->first) || !(c.crbegin() == cr))
            {
                fail(cls, "a reverse_iterator converted to const_reverse_iterator designates another element");
            }
            typename C::const_iterator cf = mc.begin();
            if (!(cf == c.begin()))
            {
                fail(cls, "an iterator converted to const_iterator designates another element");
            }
        }
        if constexpr (ET<V>::tracked)
        {
            const u32 live = reg_block_count(slot, S.s.half);
            if (live != n)
            {
                fail("lifetime", "%u live elements inside a container of size %zu", live, n);
            }
        }
        for (Handle& h : S.h)
        {
            if constexpr (ET<V>::tracked)
            {
                if (!reg_alive(h.ref))
                {
                    fail("stability", "a reference that must stay valid refers to a dead object");
                }
            }
            if (!(ET<V>::get(*h.ref) == *S.m[h.key]) || std::addressof(h.it->second) != h.ref ||
                !(h.it->first == KS::at(h.key)) || !(h.it == mc.find(KS::at(h.key))))
            {
                fail("stability", "a reference or iterator that must stay valid no longer designates its entry");
            }
            auto nx = std::next(h.it);
            std::size_t j = h.key + 1;
            while (j < N && !S.m[j].has_value())
            {
                ++j;
            }
            if (j == N ? nx != mc.end() : !(nx != mc.end() && nx->first == KS::at(j)))
            {
                fail("stability", "advancing an iterator that must stay valid goes to the wrong entry");
            }
            SIM_COUNT("probe.live_iterator_checked");
        }
        W.quiet_callbacks = q;
        oc->in_lib = il;
        oc->expect = es;
        tr(S.state() * 7919 + 3);
    }
    void adopt(int slot, const char* cls)
    {
        St& S = st[slot];
        const C& c = *S.s;
        {
            NoEvents q;
            const bool il = W.cur->in_lib;
            W.cur->in_lib = true;
            if constexpr (ET<V>::tracked)
            {
                const u32 live = reg_block_count(slot, S.s.half);
                if (live != c.size())
                {
                    fail("lifetime", "%u live elements but size() %zu after a failed operation", live,
                         static_cast<std::size_t>(c.size()));
                }
            }
            S.reset();
            std::size_t steps = 0;
            for (auto it = c.begin(); it != c.end(); ++it)
            {
                if (++steps > N)
                {
                    fail(cls, "iteration does not end after a failed operation");
                }
                if constexpr (ET<V>::tracked)
                {
                    if (!reg_alive(std::addressof(it->second)))
                    {
                        fail(cls, "the container exposes a dead element after a failed operation");
                    }
                }
                S.m[rank_of(it->first)] = ET<V>::get(it->second);
            }
            W.cur->in_lib = il;
        }
        check(slot, cls);
    }
    void check_it(int slot, typename C::iterator it, std::size_t key, const char* what)
    {
        NoEvents q;
        if (it == st[slot].s->end() || !(it->first == KS::at(key)) || !(it == st[slot].s->find(KS::at(key))))
        {
            fail("content", "%s does not return an iterator to the entry", what);
        }
    }
    std::size_t next_present(int slot, std::size_t from) const
    {
        while (from < N && !st[slot].m[from].has_value())
        {
            ++from;
        }
        return from;
    }
    void check_next(int slot, typename C::iterator it, std::size_t from, const char* what)
    {
        NoEvents q;
        const std::size_t j = next_present(slot, from);
        const bool ok = j == N ? it == st[slot].s->end() : (it != st[slot].s->end() && it->first == KS::at(j));
        if (!ok)
        {
            fail("content", "%s does not return an iterator to the next entry", what);
        }
    }
    typename C::iterator it_at(int slot, std::size_t k) { return st[slot].s->find(KS::at(k)); }
    template <class Buf, std::size_t... I, class Fn>
    static void with_ilist(Buf& b, std::index_sequence<I...>, Fn&& fn)
    {
        W.quiet_callbacks = true;
        std::initializer_list<VT> il{VT(std::as_const(b.data()[I]))...};
        W.quiet_callbacks = false;
        fn(il);
    }
    void check_self(int slot, const C* r)
    {
        if (r != st[slot].s.ptr())
        {
            fail("content", "assignment does not return the container itself");
        }
    }
    template <class Buf>
    void fill_pairs(Buf& b, std::size_t* ks, MV* xs, std::size_t k, u32 a)
    {
        for (std::size_t i = 0; i < k; ++i)
        {
            ks[i] = mix64(a + i * 7) % N;
            xs[i] = fresh(a + static_cast<u32>(i));
            NoEvents q;
            b.add(KS::at(ks[i]), ET<V>::make(xs[i].v, xs[i].p));
        }
    }
    void m_insert(int slot, std::size_t k, MV x)
    {
        if (!st[slot].m[k].has_value())
        {
            st[slot].m[k] = x;
        }
    }

    void do_exec(const Op& op)
    {
        const int slot = op.slot;
        St& S = st[slot];
        C& c = *S.s;
        const std::size_t key = op.a % N;
        const K k = KS::at(key);
        const bool has = S.m[key].has_value();
        const MV x = fresh(op.a + op.c);
        switch (op.kind)
        {
        case EMK_insert_copy:
        case EMK_insert_move:
        {
            ObjBuf<VT, 1> b;
            {
                NoEvents q;
                b.add(k, ET<V>::make(x.v, x.p));
            }
            std::optional<std::pair<typename C::iterator, bool>> r;
            mutate(
                slot,
                [&]
                {
                    if constexpr (COPY)
                    {
                        if (op.kind == EMK_insert_copy)
                        {
                            r.emplace(c.insert(static_cast<const VT&>(*b.data())));
                            return;
                        }
                    }
                    r.emplace(c.insert(std::move(*b.data())));
                },
                [&]
                {
                    m_insert(slot, key, x);
                    copies_at_most(op.kind == EMK_insert_copy ? 2 : 0, "insert");
                    check_it(slot, r->first, key, "insert");
                    if (r->second == has)
                    {
                        fail("content", "insert reports %d for a %s entry", r->second, has ? "present" : "absent");
                    }
                    if (has && ET<V>::tracked && op.kind == EMK_insert_move && COPY)
                    {
                        // a value that was not inserted is not moved from
                        if (!(ET<V>::get(b.data()->second) == x))
                        {
                            fail("content", "insert of an already present key consumed its argument");
                        }
                    }
                });
            return;
        }
        case EMK_insert_range:
        case EMK_insert_input:
        case EMK_insert_ilist:
        case EMK_construct_range:
        case EMK_construct_input:
        {
            if constexpr (COPY)
            {
                const bool ctor = op.kind == EMK_construct_range || op.kind == EMK_construct_input;
                const std::size_t kk = op.kind == EMK_insert_ilist ? 3 : op.c % 8;
                ObjBuf<VT, 8> b;
                std::size_t ks[8];
                MV xs[8];
                fill_pairs(b, ks, xs, kk, op.a);
                GenSource<VT> gs{b.begin(), kk};
                std::size_t avail = kk;
                if (op.fault == F_SRC_END && (W.strip & ST_SRCFAULT) == 0)
                {
                    avail = std::min<std::size_t>(kk, op.fault_at);
                    gs.n = avail;
                    if (avail < kk)
                    {
                        W.faults_fired++;
                        SIM_COUNT("fault.source_short");
                    }
                }
                const bool input = op.kind == EMK_insert_input || op.kind == EMK_construct_input;
                if (!input)
                {
                    avail = kk;
                }
                if (ctor)
                {
                    destroy(slot);
                }
                auto model = [&]
                {
                    if (input && gs.pos != avail)
                    {
                        fail("source", "the single-pass source was consumed up to %zu of %zu elements", gs.pos, avail);
                    }
                    for (std::size_t i = 0; i < avail; ++i)
                    {
                        m_insert(slot, ks[i], xs[i]);
                    }
                };
                if (op.kind == EMK_insert_ilist)
                {
                    W.quiet_callbacks = true;
                    const std::initializer_list<VT> il{b.data()[0], b.data()[1], b.data()[2]};
                    W.quiet_callbacks = false;
                    mutate(
                        slot,
                        [&]
                        {
                            if (op.b % 2 == 0)
                            {
                                c.insert(il);
                            }
                            else
                            {
                                c.insert(il.begin(), il.end());
                            }
                        },
                        model);
                    return;
                }
                mutate(
                    slot,
                    [&]
                    {
                        switch (op.kind)
                        {
                        case EMK_insert_range: c.insert(std::as_const(b).begin(), std::as_const(b).end()); break;
                        case EMK_insert_input: c.insert(GenIt<VT>{&gs}, GenIt<VT>{}); break;
                        case EMK_construct_range:
                            construct(slot, [&](void* p) { ::new (p) C(std::as_const(b).begin(), std::as_const(b).end()); });
                            break;
                        default: construct(slot, [&](void* p) { ::new (p) C(GenIt<VT>{&gs}, GenIt<VT>{}); }); break;
                        }
                    },
                    model);
            }
            return;
        }
        case EMK_insert_or_assign:
        {
            SrcBuf<V, 1> b;
            b.add(x.v, x.p);
            std::optional<typename C::iterator> r;
            bool ins = !has;
            mutate(
                slot,
                [&]
                {
                    auto put = [&](auto&& v)
                    {
                        if (op.b % 2 == 0)
                        {
                            auto p = c.insert_or_assign(k, std::forward<decltype(v)>(v));
                            r.emplace(p.first);
                            ins = p.second;
                        }
                        else
                        {
                            r.emplace(c.insert_or_assign(c.cbegin(), k, std::forward<decltype(v)>(v)));
                        }
                    };
                    if constexpr (COPY)
                    {
                        if (op.b / 2 % 2 == 0)
                        {
                            put(std::as_const(b.data()[0]));
                            return;
                        }
                    }
                    put(std::move(b.data()[0]));
                },
                [&]
                {
                    S.m[key] = x;
                    copies_at_most(op.b / 2 % 2 == 0 ? 2 : 0, "insert_or_assign");
                    check_it(slot, *r, key, "insert_or_assign");
                    if (ins == has)
                    {
                        fail("content", "insert_or_assign reports %d for a %s entry", ins, has ? "present" : "absent");
                    }
                });
            return;
        }
        case EMK_try_emplace:
        case EMK_emplace:
        {
            SrcBuf<V, 1> b;
            b.add(x.v, x.p);
            std::optional<typename C::iterator> r;
            bool ins = !has;
            mutate(
                slot,
                [&]
                {
                    const bool hint = op.b % 2 == 1;
                    if (op.kind == EMK_try_emplace)
                    {
                        if constexpr (requires { V(1, 2); })
                        {
                            if (op.b % 4 >= 2)
                            {
                                auto p = hint ? c.try_emplace(c.cbegin(), k, std::move(*b.data()))
                                              : c.try_emplace(k, std::move(*b.data()));
                                r.emplace(p.first);
                                ins = p.second;
                            }
                            else if (hint)
                            {
                                auto p = c.try_emplace(c.cbegin(), k, x.v, x.p);
                                r.emplace(p.first);
                                ins = p.second;
                            }
                            else
                            {
                                auto p = c.try_emplace(k, x.v, x.p);
                                r.emplace(p.first);
                                ins = p.second;
                            }
                        }
                        else
                        {
                            auto p = c.try_emplace(k, std::move(*b.data()));
                            r.emplace(p.first);
                            ins = p.second;
                        }
                    }
                    else if (hint)
                    {
                        auto p = c.emplace_hint(c.cbegin(), k, std::move(*b.data()));
                        ins = p.second;
                        r.emplace(p.first);
                    }
                    else
                    {
                        auto p = c.emplace(k, std::move(*b.data()));
                        r.emplace(p.first);
                        ins = p.second;
                    }
                },
                [&]
                {
                    m_insert(slot, key, x);
                    copies_at_most(0, "emplace");
                    check_it(slot, *r, key, "emplace");
                    if (ins == has)
                    {
                        fail("content", "emplace reports %d for a %s entry", ins, has ? "present" : "absent");
                    }
                });
            return;
        }
        case EMK_index_write:
        {
            if constexpr (DEF)
            {
                bool was_default = true;
                mutate(
                    slot,
                    [&]
                    {
                        V& r = op.c % 2 == 0 ? c[k] : c[K(k)];
                        {
                            NoEvents q;
                            was_default = has || ET<V>::get(r) == ET<V>::def();
                        }
                        if (op.b % 2 == 0)
                        {
                            NoEvents q;
                            r = ET<V>::make(x.v, x.p);
                        }
                    },
                    [&]
                    {
                        if (!was_default)
                        {
                            fail("content", "operator[] of an absent enumerator does not give a value-initialised entry");
                        }
                        if (op.b % 2 == 0)
                        {
                            S.m[key] = x;
                        }
                        else if (!has)
                        {
                            S.m[key] = ET<V>::def();
                        }
                    });
            }
            return;
        }
        case EMK_at_write:
        {
            if (!has)
            {
                return;
            }
            mutate(
                slot,
                [&]
                {
                    V& r = op.b % 2 == 0 ? c.at(k) : c.find(k)->second;
                    NoEvents q;
                    r = ET<V>::make(x.v, x.p);
                },
                [&] { S.m[key] = x; });
            return;
        }
        case EMK_write_all:
        {
            mutate(
                slot,
                [&]
                {
                    for (auto&& [kk, v] : c)
                    {
                        v.v += 1;
                    }
                },
                [&]
                {
                    for (auto& y : S.m)
                    {
                        if (y.has_value())
                        {
                            y->v += 1;
                        }
                    }
                });
            return;
        }
        case EMK_erase_key:
        {
            std::size_t r = 0;
            drop_key(slot, key);
            mutate(
                slot,
                [&] { r = c.erase(k); },
                [&]
                {
                    S.m[key].reset();
                    if (r != (has ? 1u : 0u))
                    {
                        fail("content", "erase reported %zu erased entries for a %s one", r, has ? "present" : "absent");
                    }
                });
            return;
        }
        case EMK_erase_iter:
        {
            if (!has)
            {
                return;
            }
            std::optional<typename C::iterator> r;
            drop_key(slot, key);
            mutate(
                slot,
                [&]
                {
                    if (op.b % 2 == 0)
                    {
                        r.emplace(c.erase(c.find(k)));
                    }
                    else
                    {
                        r.emplace(c.erase(static_cast<const C&>(c).find(k)));
                    }
                },
                [&]
                {
                    S.m[key].reset();
                    check_next(slot, *r, key, "erase");
                });
            return;
        }
        case EMK_erase_range:
        {
            std::size_t a = next_present(slot, op.b % (N + 1));
            std::size_t b = next_present(slot, op.c % (N + 1));
            if (a > b)
            {
                std::swap(a, b);
            }
            std::optional<typename C::iterator> r;
            for (std::size_t i = a; i < b; ++i)
            {
                drop_key(slot, i);
            }
            mutate(
                slot,
                [&]
                {
                    const C& cc = c;
                    r.emplace(c.erase(a == N ? cc.end() : cc.find(KS::at(a)), b == N ? cc.end() : cc.find(KS::at(b))));
                },
                [&]
                {
                    for (std::size_t i = a; i < b; ++i)
                    {
                        S.m[i].reset();
                    }
                    check_next(slot, *r, b, "erase(range)");
                });
            return;
        }
        case EMK_erase_if:
        {
            const u32 mod = 2 + op.b % 3;
            std::size_t r = 0;
            const std::size_t before = S.count();
            S.h.clear();
            mutate(
                slot,
                [&]
                {
                    r = fixed_containers::erase_if(c,
                                                   [&](const auto& e)
                                                   {
                                                       on_event(Ev::Pred, true);
                                                       return rank_of(e.first) % mod == 0;
                                                   });
                },
                [&]
                {
                    for (std::size_t i = 0; i < N; i += mod)
                    {
                        S.m[i].reset();
                    }
                    if (r != before - S.count())
                    {
                        fail("content", "erase_if reported %zu erased entries, reference %zu", r, before - S.count());
                    }
                });
            return;
        }
        case EMK_clear:
            S.h.clear();
            mutate(slot, [&] { c.clear(); }, [&] { S.reset(); });
            return;
        case EMK_lookup:
        {
            const C& cc = c;
            bool a = false;
            bool b = false;
            std::size_t cnt = 0;
            lib(
                [&]
                {
                    a = cc.contains(k);
                    b = cc.find(k) != cc.cend();
                    cnt = cc.count(k);
                    if (has)
                    {
                        on_event(Ev::Pred, false);
                        NoEvents q;
                        if (!(ET<V>::get(cc.at(k)) == *S.m[key]))
                        {
                            fail("content", "at disagrees with the reference");
                        }
                    }
                });
            if (a != has || b != has || cnt != (has ? 1u : 0u))
            {
                fail("content", "lookup of enumerator %zu disagrees with the reference", key);
            }
            return;
        }
        case EMK_iter_steps:
        {
            std::size_t present[N + 1];
            std::size_t cnt = 0;
            for (std::size_t i = next_present(slot, 0); i < N; i = next_present(slot, i + 1))
            {
                present[cnt++] = i;
            }
            lib(
                [&]
                {
                    NoEvents q;
                    iter_walk_all(c, cnt, op.b, op.c,
                                  [&](const auto& it, std::size_t i)
                                  {
                                      return i < cnt && it->first == KS::at(present[i]) &&
                                             (*it).first == KS::at(present[i]) &&
                                             ET<V>::get(it->second) == *S.m[present[i]];
                                  });
                });
            return;
        }
        case EMK_walk:
        {
            const C& cc = c;
            std::size_t i = 0;
            lib(
                [&]
                {
                    for (auto it = cc.begin(); it != cc.end(); ++it)
                    {
                        on_event(Ev::Pred, false);
                        i = next_present(slot, i);
                        NoEvents q;
                        if (i >= N || !(it->first == KS::at(i)) || !(ET<V>::get(it->second) == *S.m[i]))
                        {
                            fail("content", "a walk over the map disagrees with the reference at enumerator %zu", i);
                        }
                        ++i;
                    }
                });
            if (next_present(slot, i) != N)
            {
                fail("content", "a walk over the map ended early");
            }
            return;
        }
        case EMK_bad_at:
        {
            if (has)
            {
                return;
            }
            const C& cc = c;
            expect_range(key, S.count());
            lib(
                [&]
                {
                    const V* p = op.b % 2 == 0 ? std::addressof(c.at(k)) : std::addressof(cc.at(k));
                    tr(p != nullptr);
                });
            return;
        }
        case EMK_bad_erase:
            if (op.b % 2 == 0 && c.size() > 1)
            {
                expect(R_ABORT);  // a range that ends before it starts
                lib([&] { c.erase(std::next(c.cbegin(), 1 + static_cast<long>(op.c % (c.size() - 1))), c.cbegin()); });
                return;
            }
            expect(R_ABORT);
            if (op.b % 8 == 1 || op.b % 8 == 3)
            {
                lib(
                    [&]
                    {
                        auto it = c.cend();
                        if (op.b % 8 == 1)
                        {
                            ++it;  // there is nothing after the end
                        }
                        else
                        {
                            tr(it->first == KS::at(0));
                        }
                    });
                return;
            }
            lib([&] { c.erase(static_cast<const C&>(c).end()); });
            return;
        case EMK_copy_construct:
        {
            if constexpr (COPY)
            {
                const int d = op.slot2;
                if (d == slot)
                {
                    return;
                }
                destroy(d);
                const bool ok =
                    lib([&] { construct(d, [&](void* p) { ::new (p) C(static_cast<const C&>(c)); }); });
                if (ok)
                {
                    std::copy(S.m, S.m + N, st[d].m);
                }
                else
                {
                    if constexpr (ET<V>::tracked)
                    {
                        if (reg_block_count(d, st[d].s.half) != 0)
                        {
                            fail("lifetime", "a failed copy construction left live elements behind");
                        }
                    }
                    W.cur->in_lib = true;
                    construct_default(d);
                    W.cur->in_lib = false;
                }
                check(d, ok ? "content" : "exc-basic");
                check(slot, ok ? "content" : "exc-strong");
            }
            return;
        }
        case EMK_copy_assign:
        {
            if constexpr (COPY && requires(C & a, const C& b) { a = b; })
            {
                const int d = op.slot2;
                if (d == slot || BYTEWISE_ASSIGN<V> && !probe_known)
                {
                    return;
                }
                C& dc = *st[d].s;
                st[d].h.clear();
                const C* self = &dc;
                if (lib([&] { self = &(dc = static_cast<const C&>(c)); }))
                {
                    std::copy(S.m, S.m + N, st[d].m);
                    check_self(d, self);
                    check(d, "content");
                    check(slot, "content");
                }
                else
                {
                    adopt(d, "exc-basic");
                    check(slot, "exc-strong");
                }
            }
            return;
        }
        case EMK_move_construct:
        case EMK_move_assign:
        {
            const int d = op.slot2;
            if (d == slot || BYTEWISE_ASSIGN<V> && !probe_known && op.kind == EMK_move_assign)
            {
                return;
            }
            if (op.kind == EMK_move_construct)
            {
                destroy(d);
                lib([&] { construct(d, [&](void* p) { ::new (p) C(std::move(c)); }); });
            }
            else
            {
                C& dc = *st[d].s;
                st[d].h.clear();
                const C* self = nullptr;
                lib([&] { self = &(dc = std::move(c)); });
                check_self(d, self);
            }
            copies_at_most(0, "moving the container");
            std::copy(S.m, S.m + N, st[d].m);
            S.h.clear();
            // the moved-from object can be destroyed, cleared or assigned
            if (op.b % 3 == 0)
            {
                destroy(slot);
                W.cur->in_lib = true;
                construct_default(slot);
                W.cur->in_lib = false;
            }
            else
            {
                lib([&] { c.clear(); });
            }
            S.reset();
            check(d, "content");
            check(slot, "content");
            return;
        }
        case EMK_swap_objects:
        {
            const int d = op.slot2;
            if (d == slot || BYTEWISE_ASSIGN<V> && !probe_known)
            {
                return;
            }
            S.h.clear();
            st[d].h.clear();
            lib([&] { std::swap(c, *st[d].s); });
            for (std::size_t i = 0; i < N; ++i)
            {
                std::swap(S.m[i], st[d].m[i]);
            }
            check(slot, "content");
            check(d, "content");
            return;
        }
        case EMK_self_assign:
        {
            if constexpr (COPY && requires(C & a, const C& b) { a = b; })
            {
                lib(
                    [&]
                    {
                        C& al = c;
                        if (op.b % 3 == 0)
                        {
                            c = std::move(al);
                        }
                        else
                        {
                            c = al;
                        }
                    });
                check(slot, "content");
            }
            return;
        }
        case EMK_compare:
        {
            const C& a = c;
            const C& b = *st[op.slot2].s;
            bool eq = false;
            bool ne = false;
            bool done = lib([&] { eq = a == b; });
            if (done)
            {
                done = lib([&] { ne = a != b; });
            }
            if (!done)
            {
                check(slot, "exc-strong");
                return;
            }
            bool w = true;
            for (std::size_t i = 0; i < N; ++i)
            {
                const auto& p = S.m[i];
                const auto& q = st[op.slot2].m[i];
                w = w && p.has_value() == q.has_value() && (!p.has_value() || p->v == q->v);
            }
            if (eq != w || ne == w)
            {
                fail("content", "operator== gives %d, reference %d", eq, w);
            }
            return;
        }
        case EMK_compare_near:
        {
            if constexpr (COPY)
            {
                // a copy in which one entry differs, is missing, or is equal but not identical
                alignas(C) unsigned char buf[sizeof(C)];
                fill_garbage(buf, sizeof buf);
                C* t = nullptr;
                bool w = true;
                {
                    NoEvents q;
                    W.cur->in_lib = true;
                    t = ::new (static_cast<void*>(buf)) C(static_cast<const C&>(c));
                    if (S.m[key].has_value())
                    {
                        const MV y = *S.m[key];
                        switch (op.b % 3)
                        {
                        case 0: t->at(k) = ET<V>::make(y.v, y.p + 1); break;
                        case 1:
                            t->at(k) = ET<V>::make(y.v + 1, y.p);
                            w = false;
                            break;
                        default:
                            t->erase(k);
                            w = false;
                            break;
                        }
                    }
                    W.cur->in_lib = false;
                }
                bool eq = false;
                bool eq_r = false;
                lib(
                    [&]
                    {
                        eq = c == std::as_const(*t);
                        eq_r = std::as_const(*t) == c;
                    });
                {
                    NoEvents q;
                    W.cur->in_lib = true;
                    t->~C();
                    W.cur->in_lib = false;
                }
                if (eq != w || eq_r != w)
                {
                    fail("content", "operator== with a near copy gives %d and %d, reference %d", eq, eq_r, w);
                }
            }
            return;
        }
        case EMK_create_with_keys:
        {
            if constexpr (COPY)
            {
                SrcBuf<V, 1> b;
                b.add(x.v, x.p);
                ObjBuf<K, 8> ks;
                const std::size_t kk = op.c % 8;
                std::size_t idx[8];
                for (std::size_t i = 0; i < kk; ++i)
                {
                    idx[i] = mix64(op.a + i) % N;
                    ks.add(KS::at(idx[i]));
                }
                destroy(slot);
                mutate(
                    slot,
                    [&]
                    {
                        construct(slot,
                                  [&](void* p)
                                  { ::new (p) C(C::create_with_keys(std::as_const(ks), std::as_const(*b.data()))); });
                    },
                    [&]
                    {
                        for (std::size_t i = 0; i < kk; ++i)
                        {
                            S.m[idx[i]] = x;
                        }
                    });
            }
            return;
        }
        case EMK_create_all:
        case EMK_create_all_missing:
        case EMK_create_all_dup:
        {
            if constexpr (COPY)
            {
                ObjBuf<VT, N + 1> b;
                MV xs[N];
                const std::size_t rot = op.a % N;
                for (std::size_t j = 0; j < N; ++j)
                {
                    const std::size_t i = (j + rot) % N;
                    xs[i] = fresh(op.c + static_cast<u32>(j));
                    if (op.kind == EMK_create_all_missing && j == 0)
                    {
                        continue;
                    }
                    NoEvents q;
                    b.add(KS::at(i), ET<V>::make(xs[i].v, xs[i].p));
                }
                if (op.kind == EMK_create_all_dup)
                {
                    NoEvents q;
                    b.add(KS::at(op.b % N), ET<V>::make(1, 1));
                    expect(R_DUP);
                }
                else if (op.kind == EMK_create_all_missing)
                {
                    expect(R_MISSING);
                }
                destroy(slot);
                mutate(
                    slot,
                    [&]
                    {
                        if (op.b % 3 != 0)
                        {
                            construct(slot, [&](void* p) { ::new (p) C(C::create_with_all_entries(std::as_const(b))); });
                        }
                        else if (op.kind == EMK_create_all_missing)
                        {
                            with_ilist(b, std::make_index_sequence<N - 1>{}, [&](std::initializer_list<VT> il)
                                       { construct(slot, [&](void* p) { ::new (p) C(C::create_with_all_entries(il)); }); });
                        }
                        else if (op.kind == EMK_create_all_dup)
                        {
                            with_ilist(b, std::make_index_sequence<N + 1>{}, [&](std::initializer_list<VT> il)
                                       { construct(slot, [&](void* p) { ::new (p) C(C::create_with_all_entries(il)); }); });
                        }
                        else
                        {
                            with_ilist(b, std::make_index_sequence<N>{}, [&](std::initializer_list<VT> il)
                                       { construct(slot, [&](void* p) { ::new (p) C(C::create_with_all_entries(il)); }); });
                        }
                    },
                    [&]
                    {
                        for (std::size_t i = 0; i < N; ++i)
                        {
                            S.m[i] = xs[i];
                        }
                    });
            }
            return;
        }
        case EMK_builder:
        {
            if (!COPY || op.b % 5 == 4)
            {
                // Entries given as rvalues to a builder that is itself consumed: nothing is copied
                ObjBuf<VT, 8> b;
                std::size_t ks[8];
                MV xs[8];
                const std::size_t kk = op.b / 5 % 5;
                fill_pairs(b, ks, xs, kk, op.a);
                destroy(slot);
                mutate(
                    slot,
                    [&]
                    {
                        typename C::Builder bl{};
                        for (std::size_t i = 0; i < kk; ++i)
                        {
                            if ((op.c >> i) % 2 == 0 || BYTEWISE_ASSIGN<V> && !probe_known)
                            {
                                bl.insert(std::move(b.data()[i]));
                            }
                            else
                            {
                                typename C::Builder next(std::move(bl).insert(std::move(b.data()[i])));
                                bl = std::move(next);
                            }
                        }
                        construct(slot, [&](void* p) { ::new (p) C(std::move(bl).build()); });
                    },
                    [&]
                    {
                        copies_at_most(0, "a builder given rvalues");
                        for (std::size_t i = 0; i < kk; ++i)
                        {
                            m_insert(slot, ks[i], xs[i]);
                        }
                    });
                return;
            }
            if constexpr (COPY)
            {
                ObjBuf<VT, 8> b;
                std::size_t ks[8];
                MV xs[8];
                fill_pairs(b, ks, xs, 5, op.a);
                destroy(slot);
                mutate(
                    slot,
                    [&]
                    {
                        if (op.b % 4 == 3)
                        {
                            with_ilist(b, std::make_index_sequence<4>{}, [&](std::initializer_list<VT> il)
                                       { construct(slot, [&](void* p) { ::new (p) C(il); }); });
                            return;
                        }
                        if (op.b % 3 == 2)
                        {
                            construct(slot,
                                      [&](void* p)
                                      {
                                          ::new (p) C(typename C::Builder{}
                                                          .insert(std::as_const(b.data()[0]))
                                                          .insert(std::as_const(b).begin() + 1, std::as_const(b).begin() + 2)
                                                          .insert(VT(std::as_const(b.data()[2])))
                                                          .insert({std::as_const(b.data()[3])})
                                                          .build());
                                      });
                            return;
                        }
                        typename C::Builder bl{};
                        bl.insert(std::as_const(b.data()[0]));
                        bl.insert(std::as_const(b).begin() + 1, std::as_const(b).begin() + 3);
                        if (op.c % 2 == 0)
                        {
                            bl.insert({std::as_const(b.data()[3])});
                        }
                        else
                        {
                            bl.insert(VT(std::as_const(b.data()[3])));
                        }
                        if (op.b % 2 == 0)
                        {
                            construct(slot, [&](void* p) { ::new (p) C(std::as_const(bl).build()); });
                        }
                        else
                        {
                            construct(slot, [&](void* p) { ::new (p) C(std::move(bl).build()); });
                        }
                    },
                    [&]
                    {
                        for (std::size_t i = 0; i < 4; ++i)
                        {
                            m_insert(slot, ks[i], xs[i]);
                        }
                    });
            }
            return;
        }
        case EMK_take_handle:
        {
            if (!has || S.h.size() >= 6)
            {
                return;
            }
            NoEvents q;
            auto it = c.find(k);
            S.h.push_back(Handle{key, std::addressof(it->second), it});
            return;
        }
        case EMK_relocate:
        {
            if constexpr (std::is_trivially_copyable_v<C>)
            {
                S.h.clear();
                S.s.relocate();
                check(slot, "image");
            }
            return;
        }
        default: return;
        }
    }
};

// ==================================================================== EnumSet
#define ES_OPS(X)                                                \
    X(insert, 8, OF_S1_W | OF_GROW)                              \
    X(insert_hint, 3, OF_S1_W | OF_GROW)                         \
    X(emplace, 4, OF_S1_W | OF_GROW)                             \
    X(insert_range, 4, OF_S1_W | OF_GROW)                        \
    X(insert_input, 4, OF_S1_W | OF_GROW | OF_SRC)               \
    X(insert_ilist, 2, OF_S1_W | OF_GROW)                        \
    X(erase_key, 8, OF_S1_W | OF_SHRINK)                         \
    X(erase_iter, 6, OF_S1_W | OF_SHRINK)                        \
    X(erase_range, 4, OF_S1_W | OF_SHRINK)                       \
    X(erase_if, 3, OF_S1_W | OF_SHRINK | OF_THROW)               \
    X(clear, 1, OF_S1_W | OF_SHRINK)                             \
    X(walk, 3, OF_S1_R)                                          \
    X(iter_steps, 3, OF_S1_R)                                    \
    X(bad_erase, 1, OF_S1_W | OF_REJ)                            \
    X(copy_construct, 3, OF_S1_R | OF_S2_W | OF_COPY)            \
    X(copy_assign, 3, OF_S1_R | OF_S2_W | OF_COPY)               \
    X(move_construct, 2, OF_S1_W | OF_S2_W | OF_COPY)            \
    X(swap_objects, 2, OF_S1_W | OF_S2_W | OF_COPY)              \
    X(self_assign, 1, OF_S1_W | OF_COPY)                         \
    X(compare, 5, OF_S1_R | OF_S2_R | OF_COPY)                   \
    X(construct_range, 2, OF_S1_W)                               \
    X(construct_input, 2, OF_S1_W | OF_SRC)                      \
    X(all_none, 2, OF_S1_W)                                      \
    X(complement_of, 3, OF_S1_R | OF_S2_W)                       \
    X(copy_of, 2, OF_S1_R | OF_S2_W)                             \
    X(builder, 2, OF_S1_W)                                       \
    X(take_handle, 6, OF_S1_W | OF_HANDLE)                       \
    X(relocate, 4, OF_S1_W | OF_RELOC)
enum EsOp
{
#define X(n, w, f) ESK_##n,
    ES_OPS(X)
#undef X
        ESK_COUNT
};
inline constexpr OpInfo ES_INFO[] = {
#define X(n, w, f) OpInfo{#n, w, f},
    ES_OPS(X)
#undef X
};

template <class K>
struct EnumSetDriver : EnumDriverBase<EnumSetDriver<K>, fixed_containers::EnumSet<K>, false>
{
    using C = fixed_containers::EnumSet<K>;
    using Base = EnumDriverBase<EnumSetDriver<K>, C, false>;
    using Base::construct;
    using Base::destroy;
    using Base::mutate;
    using KS = KeysOf<K>;
    static constexpr std::size_t N = KS::N;
    using It = typename C::const_iterator;
    struct Handle
    {
        std::size_t key;
        It it;
    };
    struct St
    {
        Slot<C> s;
        bool m[N] = {};
        std::vector<Handle> h;
        void reset()
        {
            std::fill(m, m + N, false);
            h.clear();
        }
        std::size_t count() const { return static_cast<std::size_t>(std::count(m, m + N, true)); }
        u64 state() const
        {
            u64 x = 0;
            for (bool b : m)
            {
                x = x * 2 + b;
            }
            return x;
        }
    };
    St st[NSLOTS];
    explicit EnumSetDriver(const Knobs&)
    {
        for (int i = 0; i < NSLOTS; ++i)
        {
            st[i].s.id = i;
            st[i].h.reserve(8);
        }
    }
    void construct_default(int slot)
    {
        construct(slot, [](void* p) { ::new (p) C(); });
        st[slot].reset();
    }
    std::size_t next_present(int slot, std::size_t i) const
    {
        while (i < N && !st[slot].m[i])
        {
            ++i;
        }
        return i;
    }
    void check(int slot, const char* cls)
    {
        St& S = st[slot];
        const ReadOnly ro(S.s.base(), sizeof(*S.s));
        const C& c = *S.s;
        OpCtx* oc = W.cur;
        const u8 es = oc->expect;
        oc->expect = R_NONE;
        const bool il = oc->in_lib;
        oc->in_lib = true;
        const bool q = W.quiet_callbacks;
        W.quiet_callbacks = true;
        S.s.check_canary();
        const std::size_t n = S.count();
        if (c.size() != n || c.empty() != (n == 0) || c.max_size() != N || C::static_max_size() != N ||
            fixed_containers::is_full(c) != (n >= N))
        {
            fail(cls, "size() is %zu, reference has %zu", static_cast<std::size_t>(c.size()), n);
        }
        for (std::size_t i = 0; i < N; ++i)
        {
            const K k = KS::at(i);
            if (c.contains(k) != S.m[i] || (c.find(k) != c.end()) != S.m[i] || (S.m[i] && !(*c.find(k) == k)))
            {
                fail(cls, "contains/find of enumerator %zu disagree with the reference", i);
            }
        }
        std::size_t i = 0;
        std::size_t steps = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i)
        {
            i = next_present(slot, i);
            if (++steps > n || i >= N || !(*it == KS::at(i)))
            {
                fail(cls, "forward iteration disagrees with the reference at entry %zu", steps);
            }
        }
        if (steps != n)
        {
            fail(cls, "forward iteration visits %zu of %zu entries", steps, n);
        }
        steps = 0;
        i = N;
        for (auto it = c.rbegin(); it != c.rend(); ++it)
        {
            while (i > 0 && !S.m[i - 1])
            {
                --i;
            }
            if (++steps > n || i == 0 || !(*it == KS::at(i - 1)))
            {
                fail(cls, "reverse iteration disagrees with the reference at entry %zu", steps);
            }
            --i;
        }
        if (steps != n)
        {
            fail(cls, "reverse iteration visits %zu of %zu entries", steps, n);
        }
        for (Handle& h : S.h)
        {
            auto nx = std::next(h.it);
            const std::size_t j = next_present(slot, h.key + 1);
            if (!(*h.it == KS::at(h.key)) || !(h.it == c.find(KS::at(h.key))) ||
                (j == N ? nx != c.end() : !(nx != c.end() && *nx == KS::at(j))))
            {
                fail("stability", "an iterator that must stay valid no longer designates its entry");
            }
            SIM_COUNT("probe.live_iterator_checked");
        }
        W.quiet_callbacks = q;
        oc->in_lib = il;
        oc->expect = es;
        tr(S.state() * 7919 + 3);
    }
    void adopt(int slot, const char* cls)
    {
        St& S = st[slot];
        S.reset();
        std::size_t steps = 0;
        for (const K& k : static_cast<const C&>(*S.s))
        {
            if (++steps > N)
            {
                fail(cls, "iteration does not end after a failed operation");
            }
            S.m[rank_of(k)] = true;
        }
        check(slot, cls);
    }
    void check_at(int slot, It it, std::size_t key, const char* what)
    {
        const C& c = *st[slot].s;
        if (it == c.end() || !(*it == KS::at(key)) || !(it == c.find(KS::at(key))))
        {
            fail("content", "%s does not return an iterator to the entry", what);
        }
    }
    void check_next(int slot, It it, std::size_t from, const char* what)
    {
        const C& c = *st[slot].s;
        const std::size_t j = next_present(slot, from);
        if (j == N ? it != c.end() : !(it != c.end() && *it == KS::at(j)))
        {
            fail("content", "%s does not return an iterator to the next entry", what);
        }
    }
    void drop_key(int slot, std::size_t k)
    {
        std::erase_if(st[slot].h, [&](const Handle& h) { return h.key == k; });
    }

    void do_exec(const Op& op)
    {
        const int slot = op.slot;
        St& S = st[slot];
        C& c = *S.s;
        const C& cc = c;
        const std::size_t key = op.a % N;
        const K k = KS::at(key);
        const bool has = S.m[key];
        switch (op.kind)
        {
        case ESK_insert:
        case ESK_emplace:
        case ESK_insert_hint:
        {
            std::optional<It> r;
            bool ins = !has;
            mutate(
                slot,
                [&]
                {
                    if (op.kind == ESK_insert)
                    {
                        auto p = c.insert(k);
                        r.emplace(p.first);
                        ins = p.second;
                    }
                    else if (op.kind == ESK_emplace && op.b % 2 == 0)
                    {
                        auto p = c.emplace(k);
                        r.emplace(p.first);
                        ins = p.second;
                    }
                    else if (op.kind == ESK_emplace)
                    {
                        r.emplace(c.emplace_hint(c.cend(), k));
                    }
                    else
                    {
                        r.emplace(c.insert(op.b % 2 == 0 ? c.cbegin() : c.cend(), k));
                    }
                },
                [&]
                {
                    S.m[key] = true;
                    check_at(slot, *r, key, "insert");
                    if (ins == has)
                    {
                        fail("content", "insert reports %d for a %s enumerator", ins, has ? "present" : "absent");
                    }
                });
            return;
        }
        case ESK_insert_range:
        case ESK_insert_input:
        case ESK_insert_ilist:
        case ESK_construct_range:
        case ESK_construct_input:
        case ESK_builder:
        {
            ObjBuf<K, 8> b;
            const std::size_t kk = op.kind == ESK_insert_ilist || op.kind == ESK_builder ? 5 : op.c % 8;
            std::size_t idx[8];
            for (std::size_t i = 0; i < kk; ++i)
            {
                idx[i] = mix64(op.a + i * 3) % N;
                b.add(KS::at(idx[i]));
            }
            bool built[N] = {};
            const bool input = op.kind == ESK_insert_input || op.kind == ESK_construct_input;
            const bool ctor = op.kind == ESK_construct_range || op.kind == ESK_construct_input || op.kind == ESK_builder;
            GenSource<K> gs{b.begin(), kk};
            std::size_t avail = kk;
            if (input && op.fault == F_SRC_END && (W.strip & ST_SRCFAULT) == 0)
            {
                avail = std::min<std::size_t>(kk, op.fault_at);
                gs.n = avail;
                if (avail < kk)
                {
                    W.faults_fired++;
                    SIM_COUNT("fault.source_short");
                }
            }
            if (ctor)
            {
                destroy(slot);
            }
            mutate(
                slot,
                [&]
                {
                    switch (op.kind)
                    {
                    case ESK_insert_range: c.insert(std::as_const(b).begin(), std::as_const(b).end()); break;
                    case ESK_insert_input: c.insert(GenIt<K>{&gs}, GenIt<K>{}); break;
                    case ESK_insert_ilist:
                        c.insert({b.data()[0], b.data()[1], b.data()[2], b.data()[3], b.data()[4]});
                        break;
                    case ESK_construct_range:
                        construct(slot,
                                  [&](void* p)
                                  {
                                      if (kk == 3)
                                      {
                                          ::new (p) C{b.data()[0], b.data()[1], b.data()[2]};
                                      }
                                      else
                                      {
                                          ::new (p) C(std::as_const(b).begin(), std::as_const(b).end());
                                      }
                                  });
                        break;
                    case ESK_construct_input:
                        construct(slot, [&](void* p) { ::new (p) C(GenIt<K>{&gs}, GenIt<K>{}); });
                        break;
                    default:
                    {
                        // A random sequence of builder steps, each on the builder as an lvalue or as an rvalue
                        typename C::Builder bl{};
                        u64 r = mix64(op.a ^ (u64{op.b} << 20) ^ (u64{op.c} << 40));
                        for (std::size_t i = 0; i < 1 + op.c % 5; ++i, r = mix64(r))
                        {
                            const std::size_t x = (r >> 8) % 5;
                            const std::size_t y = (r >> 16) % 5;
                            const std::size_t lo = std::min(x, y);
                            const std::size_t hi = std::max(x, y);
                            const auto put = [&](std::size_t at, bool v) { built[idx[at]] = v; };
                            typename C::Builder* same = &bl;
                            const auto then = [&](typename C::Builder&& next)
                            {
                                typename C::Builder tmp(std::move(next));
                                bl = std::move(tmp);
                            };
                            switch (r % 10)
                            {
                            case 0: same = std::addressof(bl.insert(b.data()[x])); break;
                            case 1: then(std::move(bl).insert(b.data()[x])); break;
                            case 2: same = std::addressof(bl.insert({b.data()[x], b.data()[y]})); break;
                            case 3: then(std::move(bl).insert({b.data()[x], b.data()[y]})); break;
                            case 4:
                                same = std::addressof(bl.insert(std::as_const(b).begin() + lo, std::as_const(b).begin() + hi));
                                break;
                            case 5:
                                then(std::move(bl).insert(std::as_const(b).begin() + lo, std::as_const(b).begin() + hi));
                                break;
                            case 6: same = std::addressof(bl.insert(C{b.data()[x], b.data()[y]})); break;
                            case 7: then(std::move(bl).insert(C{b.data()[x], b.data()[y]})); break;
                            case 8: same = std::addressof(bl.erase(b.data()[x])); break;
                            default: then(std::move(bl).erase(b.data()[x])); break;
                            }
                            switch (r % 10 / 2)
                            {
                            case 0: put(x, true); break;
                            case 1:
                            case 3:
                                put(x, true);
                                put(y, true);
                                break;
                            case 2:
                                for (std::size_t q = lo; q < hi; ++q)
                                {
                                    put(q, true);
                                }
                                break;
                            default: put(x, false); break;
                            }
                            if (same != &bl)
                            {
                                fail("result", "a builder step did not return the builder itself");
                            }
                        }
                        if (op.b % 2 == 0)
                        {
                            construct(slot, [&](void* p) { ::new (p) C(std::as_const(bl).build()); });
                        }
                        else
                        {
                            construct(slot, [&](void* p) { ::new (p) C(std::move(bl).build()); });
                        }
                        break;
                    }
                    }
                },
                [&]
                {
                    if (input && gs.pos != avail)
                    {
                        fail("source", "the single-pass source was consumed up to %zu of %zu elements", gs.pos, avail);
                    }
                    if (op.kind == ESK_builder)
                    {
                        for (std::size_t i = 0; i < N; ++i)
                        {
                            S.m[i] = built[i];
                        }
                        return;
                    }
                    for (std::size_t i = 0; i < avail; ++i)
                    {
                        S.m[idx[i]] = true;
                    }
                });
            return;
        }
        case ESK_erase_key:
        {
            std::size_t r = 0;
            drop_key(slot, key);
            mutate(
                slot,
                [&] { r = c.erase(k); },
                [&]
                {
                    S.m[key] = false;
                    if (r != (has ? 1u : 0u))
                    {
                        fail("content", "erase reported %zu erased entries", r);
                    }
                });
            return;
        }
        case ESK_erase_iter:
        {
            if (!has)
            {
                return;
            }
            std::optional<It> r;
            drop_key(slot, key);
            mutate(
                slot,
                [&] { r.emplace(c.erase(c.find(k))); },
                [&]
                {
                    S.m[key] = false;
                    check_next(slot, *r, key, "erase");
                });
            return;
        }
        case ESK_erase_range:
        {
            std::size_t a = next_present(slot, op.b % (N + 1));
            std::size_t b = next_present(slot, op.c % (N + 1));
            if (a > b)
            {
                std::swap(a, b);
            }
            for (std::size_t i = a; i < b; ++i)
            {
                drop_key(slot, i);
            }
            std::optional<It> r;
            mutate(
                slot,
                [&] { r.emplace(c.erase(a == N ? c.end() : c.find(KS::at(a)), b == N ? c.end() : c.find(KS::at(b)))); },
                [&]
                {
                    std::fill(S.m + a, S.m + b, false);
                    check_next(slot, *r, b, "erase(range)");
                });
            return;
        }
        case ESK_erase_if:
        {
            const u32 mod = 2 + op.b % 3;
            const std::size_t before = S.count();
            std::size_t r = 0;
            S.h.clear();
            mutate(
                slot,
                [&]
                {
                    r = fixed_containers::erase_if(c,
                                                   [&](const K& e)
                                                   {
                                                       on_event(Ev::Pred, true);
                                                       return rank_of(e) % mod == 0;
                                                   });
                },
                [&]
                {
                    for (std::size_t i = 0; i < N; i += mod)
                    {
                        S.m[i] = false;
                    }
                    if (r != before - S.count())
                    {
                        fail("content", "erase_if reported %zu erased entries, reference %zu", r, before - S.count());
                    }
                });
            return;
        }
        case ESK_clear:
            S.h.clear();
            mutate(slot, [&] { c.clear(); }, [&] { S.reset(); });
            return;
        case ESK_iter_steps:
        {
            std::size_t present[N + 1];
            std::size_t cnt = 0;
            for (std::size_t i = next_present(slot, 0); i < N; i = next_present(slot, i + 1))
            {
                present[cnt++] = i;
            }
            lib(
                [&]
                {
                    iter_walk_all(c, cnt, op.b, op.c,
                                  [&](const auto& it, std::size_t i) { return i < cnt && *it == KS::at(present[i]); });
                });
            return;
        }
        case ESK_walk:
        {
            std::size_t i = 0;
            lib(
                [&]
                {
                    for (auto it = cc.begin(); it != cc.end(); ++it)
                    {
                        on_event(Ev::Pred, false);
                        i = next_present(slot, i);
                        if (i >= N || !(*it == KS::at(i)))
                        {
                            fail("content", "a walk over the set disagrees with the reference at enumerator %zu", i);
                        }
                        ++i;
                    }
                });
            if (next_present(slot, i) != N)
            {
                fail("content", "a walk over the set ended early");
            }
            return;
        }
        case ESK_bad_erase:
            if (op.b % 2 == 0 && c.size() > 1)
            {
                expect(R_ABORT);  // a range that ends before it starts
                lib([&] { c.erase(std::next(c.cbegin(), 1 + static_cast<long>(op.c % (c.size() - 1))), c.cbegin()); });
                return;
            }
            expect(R_ABORT);
            if (op.b % 8 == 1 || op.b % 8 == 3)
            {
                lib(
                    [&]
                    {
                        auto it = c.cend();
                        if (op.b % 8 == 1)
                        {
                            ++it;  // there is nothing after the end
                        }
                        else
                        {
                            tr(*it == KS::at(0));
                        }
                    });
                return;
            }
            lib([&] { c.erase(c.end()); });
            return;
        case ESK_copy_construct:
        case ESK_move_construct:
        case ESK_complement_of:
        case ESK_copy_of:
        {
            const int d = op.slot2;
            if (d == slot)
            {
                return;
            }
            destroy(d);
            if ((op.kind == ESK_complement_of || op.kind == ESK_copy_of) && op.c % 2 == 1)
            {
                // of any collection: in any order, with repetitions
                ObjBuf<K, 8> b;
                bool in[N] = {};
                for (std::size_t i = 0; i < op.c / 2 % 9; ++i)
                {
                    const std::size_t at = mix64(op.a + i * 5) % std::min<std::size_t>(N, 1 + op.b % 7);
                    b.add(KS::at(N - 1 - at));
                    in[N - 1 - at] = true;
                }
                lib(
                    [&]
                    {
                        construct(d,
                                  [&](void* p)
                                  {
                                      if (op.kind == ESK_complement_of)
                                      {
                                          ::new (p) C(C::complement_of(std::as_const(b)));
                                      }
                                      else
                                      {
                                          ::new (p) C(C::copy_of(std::as_const(b)));
                                      }
                                  });
                    });
                for (std::size_t i = 0; i < N; ++i)
                {
                    st[d].m[i] = op.kind == ESK_complement_of ? !in[i] : in[i];
                }
                check(d, "content");
                return;
            }
            lib(
                [&]
                {
                    construct(d,
                              [&](void* p)
                              {
                                  switch (op.kind)
                                  {
                                  case ESK_copy_construct: ::new (p) C(cc); break;
                                  case ESK_move_construct: ::new (p) C(std::move(c)); break;
                                  case ESK_complement_of: ::new (p) C(C::complement_of(cc)); break;
                                  default: ::new (p) C(C::copy_of(cc)); break;
                                  }
                              });
                });
            for (std::size_t i = 0; i < N; ++i)
            {
                st[d].m[i] = op.kind == ESK_complement_of ? !S.m[i] : S.m[i];
            }
            if (op.kind == ESK_move_construct)
            {
                S.h.clear();
                lib([&] { c.clear(); });
                S.reset();
            }
            check(d, "content");
            check(slot, "content");
            return;
        }
        case ESK_copy_assign:
        {
            const int d = op.slot2;
            if (d == slot)
            {
                return;
            }
            st[d].h.clear();
            lib(
                [&]
                {
                    if (op.b % 2 == 0)
                    {
                        *st[d].s = cc;
                    }
                    else
                    {
                        *st[d].s = C(cc);
                    }
                });
            std::copy(S.m, S.m + N, st[d].m);
            check(d, "content");
            check(slot, "content");
            return;
        }
        case ESK_swap_objects:
        {
            const int d = op.slot2;
            if (d == slot)
            {
                return;
            }
            S.h.clear();
            st[d].h.clear();
            lib([&] { std::swap(c, *st[d].s); });
            std::swap_ranges(S.m, S.m + N, st[d].m);
            check(d, "content");
            check(slot, "content");
            return;
        }
        case ESK_self_assign:
            lib(
                [&]
                {
                    if (op.b % 3 == 0)
                    {
                        C& same = c;
                        c = std::move(same);
                    }
                    else
                    {
                        c = cc;
                    }
                });
            check(slot, "content");
            return;
        case ESK_compare:
        {
            const C& b = *st[op.slot2].s;
            bool eq = false;
            bool ne = false;
            lib(
                [&]
                {
                    eq = cc == b;
                    ne = cc != b;
                });
            const bool w = std::equal(S.m, S.m + N, st[op.slot2].m);
            if (eq != w || ne == w)
            {
                fail("content", "operator== gives %d, reference %d", eq, w);
            }
            if constexpr (requires(const K& x, const K& y) { x <=> y; })
            {
                std::strong_ordering o = std::strong_ordering::equal;
                lib([&] { o = cc <=> b; });
                std::size_t i = next_present(slot, 0);
                std::size_t j = next_present(op.slot2, 0);
                std::strong_ordering wo = std::strong_ordering::equal;
                while (true)
                {
                    if (i == N || j == N)
                    {
                        wo = i == N && j == N ? std::strong_ordering::equal
                                              : (i == N ? std::strong_ordering::less : std::strong_ordering::greater);
                        break;
                    }
                    if (i != j)
                    {
                        wo = i < j ? std::strong_ordering::less : std::strong_ordering::greater;
                        break;
                    }
                    i = next_present(slot, i + 1);
                    j = next_present(op.slot2, j + 1);
                }
                if (o != wo)
                {
                    fail("content", "operator<=> disagrees with the reference");
                }
            }
            return;
        }
        case ESK_all_none:
        {
            destroy(slot);
            const bool all = op.b % 2 == 0;
            lib(
                [&]
                {
                    construct(slot,
                              [&](void* p)
                              {
                                  if (all)
                                  {
                                      ::new (p) C(C::all());
                                  }
                                  else
                                  {
                                      ::new (p) C(C::none());
                                  }
                              });
                });
            std::fill(S.m, S.m + N, all);
            check(slot, "content");
            return;
        }
        case ESK_take_handle:
        {
            if (!has || S.h.size() >= 6)
            {
                return;
            }
            S.h.push_back(Handle{key, cc.find(k)});
            return;
        }
        case ESK_relocate:
        {
            S.h.clear();
            S.s.relocate();
            check(slot, "image");
            return;
        }
        default: return;
        }
    }
};

// ==================================================================== EnumArray
#define EA_OPS(X)                                                  \
    X(write, 8, OF_S1_W)                                           \
    X(write_all, 3, OF_S1_W)                                       \
    X(fill, 3, OF_S1_W | OF_THROW)                                 \
    X(swap, 3, OF_S1_W | OF_S2_W | OF_COPY)                        \
    X(copy_construct, 3, OF_S1_R | OF_S2_W | OF_COPY | OF_THROW)   \
    X(copy_assign, 3, OF_S1_R | OF_S2_W | OF_COPY | OF_THROW)      \
    X(move_assign, 2, OF_S1_W | OF_S2_W | OF_COPY)                 \
    X(compare, 4, OF_S1_R | OF_S2_R | OF_COPY | OF_THROW)          \
    X(compare_near, 3, OF_S1_R | OF_COPY)                          \
    X(construct_ilist, 3, OF_S1_W)                                 \
    X(construct_range, 3, OF_S1_W)                                 \
    X(construct_strict, 2, OF_S1_W)                                \
    X(bad_strict, 1, OF_S1_W | OF_REJ)                             \
    X(take_handle, 4, OF_S1_W | OF_HANDLE)                         \
    X(relocate, 3, OF_S1_W | OF_RELOC)                             \
    X(iter_steps, 2, OF_S1_R)
enum EaOp
{
#define X(n, w, f) EAK_##n,
    EA_OPS(X)
#undef X
        EAK_COUNT
};
inline constexpr OpInfo EA_INFO[] = {
#define X(n, w, f) OpInfo{#n, w, f},
    EA_OPS(X)
#undef X
};

template <class K, class V>
struct EnumArrayDriver : EnumDriverBase<EnumArrayDriver<K, V>, fixed_containers::EnumArray<K, V>, ET<V>::tracked>
{
    using C = fixed_containers::EnumArray<K, V>;
    using Base = EnumDriverBase<EnumArrayDriver<K, V>, C, ET<V>::tracked>;
    using Base::construct;
    using Base::destroy;
    using Base::mutate;
    using KS = KeysOf<K>;
    static constexpr std::size_t N = KS::N;
    static constexpr bool DEF = std::is_default_constructible_v<V>;
    using PT = std::pair<const K, V>;
    struct St
    {
        Slot<C> s;
        MV m[N];
        std::vector<std::pair<std::size_t, V*>> h;
        void reset()
        {
            std::fill(m, m + N, MV{});
            h.clear();
        }
        u64 state() const
        {
            u64 x = 0;
            for (auto& y : m)
            {
                x = x * 3 + static_cast<u64>(y.v % 3);
            }
            return x;
        }
    };
    St st[NSLOTS];
    int next_p = 1;
    explicit EnumArrayDriver(const Knobs&)
    {
        for (int i = 0; i < NSLOTS; ++i)
        {
            st[i].s.id = i;
            st[i].h.reserve(8);
        }
    }
    MV fresh(u32 a) { return mk<V>(static_cast<int>(a % W.k.key_range), next_p++); }
    struct Pairs  // exactly N pairs, in rank order (optionally with two swapped)
    {
        alignas(PT) unsigned char raw[sizeof(PT) * N];
        using Arr = PT[N];
        const Arr& arr() const { return *std::launder(reinterpret_cast<const Arr*>(raw)); }
        Pairs(const MV* xs, bool swapped)
        {
            NoEvents q;
            for (std::size_t i = 0; i < N; ++i)
            {
                const std::size_t j = swapped && i < 2 ? 1 - i : i;
                ::new (static_cast<void*>(raw + i * sizeof(PT))) PT(KS::at(j), ET<V>::make(xs[j].v, xs[j].p));
            }
        }
        ~Pairs()
        {
            NoEvents q;
            for (std::size_t i = 0; i < N; ++i)
            {
                std::launder(reinterpret_cast<PT*>(raw + i * sizeof(PT)))->~PT();
            }
        }
    };
    void construct_default(int slot)
    {
        st[slot].reset();
        if constexpr (DEF)
        {
            construct(slot, [](void* p) { ::new (p) C(); });
            std::fill(st[slot].m, st[slot].m + N, ET<V>::def());
        }
        else
        {
            MV xs[N];
            for (std::size_t i = 0; i < N; ++i)
            {
                xs[i] = mk<V>(1, static_cast<int>(i));
                st[slot].m[i] = xs[i];
            }
            const bool il = W.cur->in_lib;
            W.cur->in_lib = false;
            Pairs ps(xs, false);
            W.cur->in_lib = il;
            NoEvents q;
            construct(slot, [&](void* p) { ::new (p) C(ps.arr()); });
        }
    }
    void check(int slot, const char* cls)
    {
        St& S = st[slot];
        const ReadOnly ro(S.s.base(), sizeof(*S.s));
        C& mc = *S.s;
        const C& c = mc;
        OpCtx* oc = W.cur;
        const u8 es = oc->expect;
        oc->expect = R_NONE;
        const bool il = oc->in_lib;
        oc->in_lib = true;
        const bool q = W.quiet_callbacks;
        W.quiet_callbacks = true;
        S.s.check_canary();
        if (c.size() != N || c.max_size() != N || c.empty())
        {
            fail(cls, "size() is not %zu", N);
        }
        for (std::size_t i = 0; i < N; ++i)
        {
            const K k = KS::at(i);
            if (!(ET<V>::get(c.at(k)) == S.m[i]) || !(ET<V>::get(c[k]) == S.m[i]) || !(ET<V>::get(mc[k]) == S.m[i]) ||
                !(ET<V>::get(c.data()[i]) == S.m[i]) || !(c.labels()[i] == k))
            {
                fail(cls, "the value for enumerator %zu disagrees with the reference", i);
            }
        }
        std::size_t i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i)
        {
            if (i >= N || !(ET<V>::get(*it) == S.m[i]))
            {
                fail(cls, "forward iteration disagrees with the reference at %zu", i);
            }
        }
        for (auto it = c.rbegin(); it != c.rend(); ++it, --i)
        {
            if (i == 0 || !(ET<V>::get(*it) == S.m[i - 1]))
            {
                fail(cls, "reverse iteration disagrees with the reference at %zu", i);
            }
        }
        if (!(ET<V>::get(c.front()) == S.m[0]) || !(ET<V>::get(c.back()) == S.m[N - 1]))
        {
            fail(cls, "front()/back() disagree with the reference");
        }
        for (auto& h : S.h)
        {
            if (std::addressof(mc.at(KS::at(h.first))) != h.second)
            {
                fail("stability", "a reference into the array no longer designates its entry");
            }
        }
        const char* a = reinterpret_cast<const char*>(c.data());
        if (a < S.s.base() || a + N * sizeof(V) > S.s.base() + sizeof(C))
        {
            fail("alloc", "an element is stored outside the container object");
        }
        if constexpr (ET<V>::tracked)
        {
            const u32 live = reg_block_count(slot, S.s.half);
            if (live != N)
            {
                fail("lifetime", "%u live elements inside an array of %zu", live, N);
            }
        }
        W.quiet_callbacks = q;
        oc->in_lib = il;
        oc->expect = es;
        tr(S.state() * 7919 + 3);
    }
    void adopt(int slot, const char* cls)
    {
        St& S = st[slot];
        NoEvents q;
        for (std::size_t i = 0; i < N; ++i)
        {
            S.m[i] = ET<V>::get(S.s->data()[i]);
        }
        W.quiet_callbacks = false;
        check(slot, cls);
    }
    void do_exec(const Op& op)
    {
        const int slot = op.slot;
        St& S = st[slot];
        C& c = *S.s;
        const C& cc = c;
        const std::size_t key = op.a % N;
        const K k = KS::at(key);
        const MV x = fresh(op.a + op.c);
        switch (op.kind)
        {
        case EAK_write:
        {
            std::size_t where = key;
            mutate(
                slot,
                [&]
                {
                    V* r = nullptr;
                    switch (op.b % 5)
                    {
                    case 0: r = std::addressof(c.at(k)); break;
                    case 1: r = std::addressof(c[k]); break;
                    case 2: r = std::addressof(c.data()[key]); break;
                    case 3:
                        r = std::addressof(c.front());
                        where = 0;
                        break;
                    default:
                        r = std::addressof(c.back());
                        where = N - 1;
                        break;
                    }
                    NoEvents q;
                    *r = ET<V>::make(x.v, x.p);
                },
                [&] { S.m[where] = x; });
            return;
        }
        case EAK_write_all:
            mutate(
                slot,
                [&]
                {
                    for (V& v : c)
                    {
                        v.v += 1;
                    }
                },
                [&]
                {
                    for (MV& y : S.m)
                    {
                        y.v += 1;
                    }
                });
            return;
        case EAK_iter_steps:
            lib(
                [&]
                {
                    NoEvents q;
                    iter_walk_all(c, N, op.b, op.c,
                                  [&](const auto& it, std::size_t i) { return i < N && ET<V>::get(*it) == S.m[i]; });
                });
            return;
        case EAK_fill:
        {
            if (op.b % 3 == 0)  // with one of its own elements
            {
                const MV y = S.m[key];
                SIM_COUNT("probe.enum_array_fill_own");
                mutate(slot, [&] { c.fill(cc.at(k)); }, [&] { std::fill(S.m, S.m + N, y); });
                return;
            }
            SrcBuf<V, 1> b;
            b.add(x.v, x.p);
            mutate(slot, [&] { c.fill(std::as_const(*b.data())); }, [&] { std::fill(S.m, S.m + N, x); });
            return;
        }
        case EAK_swap:
        {
            const int d = op.slot2;
            lib(
                [&]
                {
                    if (op.b % 2 == 0)
                    {
                        c.swap(*st[d].s);
                    }
                    else
                    {
                        std::swap(c, *st[d].s);
                    }
                });
            if (d != slot)
            {
                std::swap_ranges(S.m, S.m + N, st[d].m);
            }
            check(slot, "content");
            check(d, "content");
            return;
        }
        case EAK_copy_construct:
        {
            const int d = op.slot2;
            if (d == slot)
            {
                return;
            }
            destroy(d);
            const bool ok = lib([&] { construct(d, [&](void* p) { ::new (p) C(cc); }); });
            if (ok)
            {
                std::copy(S.m, S.m + N, st[d].m);
            }
            else
            {
                W.cur->in_lib = true;
                construct_default(d);
                W.cur->in_lib = false;
            }
            check(d, "content");
            check(slot, "content");
            return;
        }
        case EAK_copy_assign:
        case EAK_move_assign:
        {
            const int d = op.slot2;
            if (d == slot)
            {
                return;
            }
            const bool ok = lib(
                [&]
                {
                    if (op.kind == EAK_copy_assign)
                    {
                        *st[d].s = cc;
                    }
                    else
                    {
                        *st[d].s = std::move(c);
                    }
                });
            if (!ok)
            {
                adopt(d, "exc-basic");
                check(slot, "exc-strong");
                return;
            }
            std::copy(S.m, S.m + N, st[d].m);
            if (op.kind == EAK_move_assign)
            {
                lib([&] { c = *st[d].s; });
                std::copy(st[d].m, st[d].m + N, S.m);
            }
            check(d, "content");
            check(slot, "content");
            return;
        }
        case EAK_compare:
        {
            const C& b = *st[op.slot2].s;
            bool eq = false;
            std::strong_ordering o = std::strong_ordering::equal;
            if (!lib(
                    [&]
                    {
                        eq = cc == b;
                        o = cc <=> b;
                    }))
            {
                check(slot, "exc-strong");
                return;
            }
            const MV* p = S.m;
            const MV* q = st[op.slot2].m;
            const auto wo = std::lexicographical_compare_three_way(
                p, p + N, q, q + N, [](const MV& y, const MV& z) { return y.v <=> z.v; });
            if (o != wo || eq != (wo == 0))
            {
                fail("content", "comparison disagrees with the reference");
            }
            return;
        }
        case EAK_compare_near:
        {
            if constexpr (std::is_copy_constructible_v<V>)
            {
                alignas(C) unsigned char buf[sizeof(C)];
                fill_garbage(buf, sizeof buf);
                C* t = nullptr;
                const MV y = S.m[key];
                const bool w = op.b % 2 == 0;
                {
                    NoEvents q;
                    W.cur->in_lib = true;
                    t = ::new (static_cast<void*>(buf)) C(cc);
                    t->at(k) = ET<V>::make(w ? y.v : y.v + 1, y.p + 1);
                    W.cur->in_lib = false;
                }
                bool eq = false;
                std::strong_ordering o = std::strong_ordering::equal;
                lib(
                    [&]
                    {
                        eq = cc == std::as_const(*t);
                        o = cc <=> std::as_const(*t);
                    });
                {
                    NoEvents q;
                    W.cur->in_lib = true;
                    t->~C();
                    W.cur->in_lib = false;
                }
                if (eq != w || o != (w ? std::strong_ordering::equal : std::strong_ordering::less))
                {
                    fail("content", "comparison with a near copy disagrees with the reference");
                }
            }
            return;
        }
        case EAK_construct_ilist:
        case EAK_construct_range:
        {
            if constexpr (DEF)
            {
                ObjBuf<PT, 8> b;
                std::size_t idx[8];
                MV xs[8];
                const std::size_t kk = op.kind == EAK_construct_ilist ? 3 : op.c % 8;
                for (std::size_t i = 0; i < kk; ++i)
                {
                    idx[i] = mix64(op.a + i * 5) % N;
                    xs[i] = fresh(op.a + static_cast<u32>(i));
                    NoEvents q;
                    b.add(KS::at(idx[i]), ET<V>::make(xs[i].v, xs[i].p));
                }
                destroy(slot);
                W.quiet_callbacks = true;
                mutate(
                    slot,
                    [&]
                    {
                        construct(slot,
                                  [&](void* p)
                                  {
                                      if (op.kind == EAK_construct_ilist)
                                      {
                                          ::new (p) C{b.data()[0], b.data()[1], b.data()[2]};
                                      }
                                      else
                                      {
                                          ::new (p) C(fixed_containers::std_transition::from_range, std::as_const(b));
                                      }
                                  });
                        W.quiet_callbacks = false;
                    },
                    [&]
                    {
                        std::fill(S.m, S.m + N, ET<V>::def());
                        for (std::size_t i = 0; i < kk; ++i)
                        {
                            S.m[idx[i]] = xs[i];
                        }
                    });
            }
            return;
        }
        case EAK_construct_strict:
        case EAK_bad_strict:
        {
            if constexpr (!DEF)
            {
                MV xs[N];
                for (std::size_t i = 0; i < N; ++i)
                {
                    xs[i] = fresh(op.a + static_cast<u32>(i));
                }
                Pairs ps(xs, op.kind == EAK_bad_strict);
                destroy(slot);
                if (op.kind == EAK_bad_strict)
                {
                    expect(R_ABORT);
                }
                mutate(
                    slot,
                    [&] { construct(slot, [&](void* p) { ::new (p) C(ps.arr()); }); },
                    [&] { std::copy(xs, xs + N, S.m); });
            }
            return;
        }
        case EAK_take_handle:
            if (S.h.size() < 6)
            {
                S.h.emplace_back(key, std::addressof(c.at(k)));
            }
            return;
        case EAK_relocate:
        {
            if constexpr (std::is_trivially_copyable_v<C>)
            {
                S.h.clear();
                S.s.relocate();
                check(slot, "image");
            }
            return;
        }
        default: return;
        }
    }
};

template <class D>
Driver* make_enum(const Knobs& k)
{
    return new D(k);
}
}  // namespace sim

#define EM_SCENARIO(ID, K, V, DEFPOL)                                                                           \
    static ::sim::RegisterScenario reg_##ID(::sim::Scenario{                                                   \
        #ID, "enum", ::sim::EM_INFO, ::sim::EMK_COUNT, ::sim::KeysOf<::sim::K>::N,                              \
        &::sim::make_enum<::sim::EnumMapDriver<::sim::K, ::sim::V, DEFPOL>>,                                    \
        std::is_trivially_copyable_v<::sim::V> ? 0u : static_cast<::sim::u32>(::sim::OF_RELOC)});
#define ES_SCENARIO(ID, K)                                                                                      \
    static ::sim::RegisterScenario reg_##ID(::sim::Scenario{                                                   \
        #ID, "enum", ::sim::ES_INFO, ::sim::ESK_COUNT, ::sim::KeysOf<::sim::K>::N,                              \
        &::sim::make_enum<::sim::EnumSetDriver<::sim::K>>, 0u});
#define EA_SCENARIO(ID, K, V)                                                                                   \
    static ::sim::RegisterScenario reg_##ID(::sim::Scenario{                                                   \
        #ID, "enum", ::sim::EA_INFO, ::sim::EAK_COUNT, ::sim::KeysOf<::sim::K>::N,                              \
        &::sim::make_enum<::sim::EnumArrayDriver<::sim::K, ::sim::V>>,                                          \
        std::is_trivially_copyable_v<::sim::V> ? 0u : static_cast<::sim::u32>(::sim::OF_RELOC)});
