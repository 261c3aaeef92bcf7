// FixedString against std::string, including stream input/output over a simulated (chunked, short,
// failing) stream.
#pragma once
#include "common.hpp"

#include "fixed_containers/fixed_string.hpp"

#include <algorithm>
#include <compare>
#include <istream>
#include <iterator>
#include <optional>
#include <ostream>
#include <streambuf>
#include <string>
#include <string_view>

namespace sim
{
#define STR_OPS(X)                                              \
    X(push_back, 8, OF_S1_W | OF_GROW)                          \
    X(pop_back, 4, OF_S1_W | OF_SHRINK)                         \
    X(insert_char, 5, OF_S1_W | OF_GROW)                        \
    X(insert_view, 5, OF_S1_W | OF_GROW)                        \
    X(insert_range, 3, OF_S1_W | OF_GROW)                       \
    X(insert_ilist, 2, OF_S1_W | OF_GROW)                       \
    X(insert_input, 4, OF_S1_W | OF_GROW | OF_SRC | OF_THROW)   \
    X(erase_one, 4, OF_S1_W | OF_SHRINK)                        \
    X(erase_range, 4, OF_S1_W | OF_SHRINK)                      \
    X(clear, 1, OF_S1_W | OF_SHRINK)                            \
    X(resize_default, 2, OF_S1_W)                               \
    X(resize_char, 3, OF_S1_W)                                  \
    X(assign_count, 2, OF_S1_W)                                 \
    X(assign_view, 3, OF_S1_W)                                  \
    X(assign_range, 2, OF_S1_W)                                 \
    X(assign_input, 3, OF_S1_W | OF_SRC | OF_THROW)             \
    X(assign_ilist, 1, OF_S1_W)                                 \
    X(assign_self_view, 3, OF_S1_W | OF_ALIAS)                  \
    X(append_view, 5, OF_S1_W | OF_GROW)                        \
    X(append_cstr, 3, OF_S1_W | OF_GROW)                        \
    X(append_range, 3, OF_S1_W | OF_GROW)                       \
    X(append_input, 3, OF_S1_W | OF_GROW | OF_SRC | OF_THROW)   \
    X(append_ilist, 1, OF_S1_W | OF_GROW)                       \
    X(append_self_view, 3, OF_S1_W | OF_ALIAS | OF_GROW)        \
    X(plus_eq_char, 3, OF_S1_W | OF_GROW)                       \
    X(plus_eq_view, 3, OF_S1_W | OF_GROW)                       \
    X(plus_eq_cstr, 2, OF_S1_W | OF_GROW)                       \
    X(plus_eq_ilist, 1, OF_S1_W | OF_GROW)                      \
    X(plus_eq_string, 2, OF_S1_W | OF_S2_R | OF_GROW)           \
    X(write_at, 3, OF_S1_W)                                     \
    X(write_ends, 2, OF_S1_W)                                   \
    X(write_all, 2, OF_S1_W)                                    \
    X(copy_construct, 3, OF_S1_R | OF_S2_W | OF_COPY)           \
    X(copy_assign, 3, OF_S1_R | OF_S2_W | OF_COPY)              \
    X(move_construct, 2, OF_S1_W | OF_S2_W | OF_COPY)           \
    X(move_assign, 2, OF_S1_W | OF_S2_W | OF_COPY)              \
    X(swap_objects, 2, OF_S1_W | OF_S2_W | OF_COPY)             \
    X(self_assign, 1, OF_S1_W | OF_COPY)                        \
    X(assign_from_view, 2, OF_S1_W | OF_COPY)                   \
    X(compare, 4, OF_S1_R | OF_S2_R | OF_COPY)                  \
    X(compare_view, 3, OF_S1_R | OF_COPY)                       \
    X(construct_count, 1, OF_S1_W)                              \
    X(construct_view, 2, OF_S1_W)                               \
    X(construct_cstr, 1, OF_S1_W)                               \
    X(construct_ilist, 1, OF_S1_W)                              \
    X(find_family, 5, OF_S1_R)                                  \
    X(affixes, 3, OF_S1_R)                                      \
    X(substr, 3, OF_S1_R)                                       \
    X(bad_index, 2, OF_S1_R | OF_REJ)                           \
    X(bad_front_back, 1, OF_S1_R | OF_REJ)                      \
    X(bad_substr, 1, OF_S1_R | OF_REJ)                          \
    X(bad_reserve, 1, OF_S1_W | OF_REJ)                         \
    X(overflow_insert, 2, OF_S1_W | OF_REJ)                     \
    X(overflow_append, 2, OF_S1_W | OF_REJ)                     \
    X(overflow_assign, 2, OF_S1_W | OF_REJ)                     \
    X(overflow_resize, 1, OF_S1_W | OF_REJ)                     \
    X(overflow_construct, 1, OF_S1_W | OF_REJ)                  \
    X(stream_read, 4, OF_S1_W | OF_STREAM)                      \
    X(stream_read_two, 2, OF_S1_W | OF_S2_W | OF_STREAM)        \
    X(stream_write, 3, OF_S1_R | OF_STREAM)                     \
    X(stream_round_trip, 2, OF_S1_R | OF_S2_W | OF_STREAM)      \
    X(relocate, 4, OF_S1_W | OF_RELOC)                          \
    X(iter_steps, 3, OF_S1_R)

enum StrOp
{
#define X(n, w, f) TK_##n,
    STR_OPS(X)
#undef X
        TK_COUNT
};
inline constexpr OpInfo STR_INFO[] = {
#define X(n, w, f) OpInfo{#n, w, f},
    STR_OPS(X)
#undef X
};

// multi-pass, not random access
struct CharFwd
{
    using iterator_category = std::bidirectional_iterator_tag;
    using value_type = char;
    using difference_type = std::ptrdiff_t;
    using pointer = const char*;
    using reference = const char&;
    const char* p = nullptr;
    reference operator*() const { return *p; }
    pointer operator->() const { return p; }
    CharFwd& operator++()
    {
        ++p;
        return *this;
    }
    CharFwd operator++(int)
    {
        CharFwd t = *this;
        ++p;
        return t;
    }
    CharFwd& operator--()
    {
        --p;
        return *this;
    }
    CharFwd operator--(int)
    {
        CharFwd t = *this;
        --p;
        return t;
    }
    bool operator==(const CharFwd&) const = default;
};

// ---- simulated stream device
struct InPlan
{
    const char* text = nullptr;
    std::size_t n = 0;
    u32 chunk_seed = 0;                      // how the text is split into reads
    std::size_t fail_at = ~std::size_t{0};   // the device throws when asked for this character
    bool unbuffered = false;                 // uflow only, no get area
};
class SimInBuf : public std::streambuf
{
public:
    SimInBuf(const InPlan& p, bool events)
      : p_(p)
      , ev_(events)
    {
    }
    std::size_t consumed() const { return pos_ - static_cast<std::size_t>(egptr() - gptr()); }
    u32 reads = 0;

protected:
    int_type underflow() override
    {
        if (gptr() != nullptr && gptr() < egptr())
        {
            return traits_type::to_int_type(*gptr());
        }
        if (ev_)
        {
            on_event(Ev::SrcRead, false);
        }
        reads++;
        if (pos_ >= p_.fail_at)
        {
            if (ev_)
            {
                W.faults_fired++;
                SIM_COUNT("fault.stream_read_error");
                W.cur->throwing = true;
            }
            throw SimThrow{3};
        }
        if (pos_ >= p_.n)
        {
            return traits_type::eof();
        }
        const u32 mode = p_.chunk_seed / 4 % 5;
        std::size_t k = mode == 0 ? sizeof buf_ : (mode == 1 ? 1 : 1 + mix64(p_.chunk_seed + pos_) % 7);
        k = std::min({k, p_.n - pos_, p_.fail_at - pos_, sizeof buf_});
        if (ev_ && pos_ + k < p_.n)
        {
            SIM_COUNT("fault.stream_short_read");
        }
        std::memcpy(buf_, p_.text + pos_, k);
        pos_ += k;
        setg(buf_, buf_, buf_ + k);
        return traits_type::to_int_type(buf_[0]);
    }

private:
    InPlan p_;
    std::size_t pos_ = 0;
    bool ev_;
    char buf_[1024] = {};
};

struct OutPlan
{
    std::size_t space = ~std::size_t{0};    // device full after that many characters
    std::size_t fail_at = ~std::size_t{0};  // device throws
    u32 chunk_seed = 0;
};
class SimOutBuf : public std::streambuf
{
public:
    SimOutBuf(const OutPlan& p, bool events)
      : p_(p)
      , ev_(events)
    {
        got.reserve(2048);
    }
    std::string got;

protected:
    bool put(char c)
    {
        if (got.size() >= p_.fail_at)
        {
            if (ev_)
            {
                W.faults_fired++;
                SIM_COUNT("fault.stream_write_error");
                W.cur->throwing = true;
            }
            throw SimThrow{4};
        }
        if (got.size() >= p_.space)
        {
            if (ev_)
            {
                W.faults_fired++;
                SIM_COUNT("fault.stream_device_full");
            }
            return false;
        }
        got.push_back(c);
        return true;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        std::streamsize i = 0;
        for (; i < n; ++i)
        {
            if (ev_ && (i % 3) == 0)
            {
                on_event(Ev::SrcRead, false);
            }
            if (!put(s[i]))
            {
                break;
            }
        }
        return i;
    }
    int_type overflow(int_type c) override
    {
        if (traits_type::eq_int_type(c, traits_type::eof()))
        {
            return traits_type::not_eof(c);
        }
        return put(traits_type::to_char_type(c)) ? c : traits_type::eof();
    }

private:
    OutPlan p_;
    bool ev_;
};

template <std::size_t N, bool DEFPOL>
struct StrType
{
    using type = fixed_containers::FixedString<N, SeqPolicy<1>>;
};
template <std::size_t N>
struct StrType<N, true>
{
    using type = fixed_containers::FixedString<N>;
};

template <std::size_t N, bool DEFPOL>
struct StrDriver : Driver
{
    using C = typename StrType<N, DEFPOL>::type;
    using C2 = typename StrType<N + 5, DEFPOL>::type;
    static constexpr std::size_t BUF = N + 24;

    struct St
    {
        Slot<C> s;
        std::string m;
        bool rej_basic = false;
    };
    St st[NSLOTS];
    u32 opno = 0;

    explicit StrDriver(const Knobs&)
    {
        W.abort_policy = DEFPOL;
        for (int i = 0; i < NSLOTS; ++i)
        {
            st[i].s.id = i;
            st[i].m.reserve(2 * BUF);
        }
    }

    // ---------------------------------------------------------------- helpers
    static char mkchar(u32 x)
    {
        static const char alpha[] = "ab \tcA.\n0zb~ab\x80\xff";
        if (x % 23 == 22)
        {
            return '\0';
        }
        return alpha[x % (sizeof(alpha) - 1)];
    }
    static char mkcharz(u32 x)  // never a null character
    {
        const char c = mkchar(x);
        return c == '\0' ? 'q' : c;
    }
    static void text(char* out, std::size_t k, u32 a, bool zero_free = false)
    {
        for (std::size_t i = 0; i < k; ++i)
        {
            const u32 x = static_cast<u32>(mix64(a * 131u + static_cast<u32>(i)));
            out[i] = zero_free ? mkcharz(x) : mkchar(x);
        }
    }

    void check(int slot, const char* cls = "content")
    {
        St& S = st[slot];
        const ReadOnly ro(S.s.base(), sizeof(*S.s));
        const C& c = *S.s;
        OpCtx* oc = W.cur;
        const u8 es = oc->expect;
        oc->expect = R_NONE;
        const bool il = oc->in_lib;
        oc->in_lib = true;
        const bool q = W.quiet_callbacks;
        W.quiet_callbacks = true;
        S.s.check_canary();
        const std::size_t n = S.m.size();
        if (c.size() != n || c.length() != n)
        {
            fail(cls, "size() is %zu, reference has %zu characters", static_cast<std::size_t>(c.size()), n);
        }
        if (c.empty() != (n == 0) || fixed_containers::is_full(c) != (n >= N))
        {
            fail(cls, "empty()/is_full() disagree with size %zu", n);
        }
        if (c.max_size() != N || C::static_max_size() != N || c.capacity() != N)
        {
            fail(cls, "max_size()/capacity() is not %zu", N);
        }
        if (c.data()[n] != '\0' || c.c_str()[n] != '\0')
        {
            fail(cls, "the string of size %zu is not null-terminated", n);
        }
        if (c.c_str() != c.data() || std::char_traits<char>::compare(c.data(), S.m.data(), n) != 0)
        {
            fail(cls, "data() does not hold the reference characters");
        }
        const char* lo = S.s.base();
        if (c.data() < lo || c.data() + n + 1 > lo + sizeof(C))
        {
            fail("alloc", "the characters are stored outside the string object");
        }
        const std::string_view v = c;
        if (v.data() != c.data() || v.size() != n)
        {
            fail(cls, "the string_view conversion does not view the string");
        }
        std::size_t i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i)
        {
            if (i >= n || *it != S.m[i])
            {
                fail(cls, "forward iteration disagrees with the reference at %zu", i);
            }
        }
        if (i != n)
        {
            fail(cls, "forward iteration visits %zu of %zu characters", i, n);
        }
        for (auto it = c.rbegin(); it != c.rend(); ++it)
        {
            if (i == 0 || *it != S.m[i - 1])
            {
                fail(cls, "reverse iteration disagrees with the reference at %zu", i);
            }
            --i;
        }
        if (i != 0)
        {
            fail(cls, "reverse iteration stops %zu characters early", i);
        }
        for (std::size_t j = 0; j < n; ++j)
        {
            if (c[j] != S.m[j] || c.at(j) != S.m[j])
            {
                fail(cls, "operator[](%zu) disagrees with the reference", j);
            }
        }
        if (n != 0 && (c.front() != S.m.front() || c.back() != S.m.back()))
        {
            fail(cls, "front()/back() disagree with the reference");
        }
        W.quiet_callbacks = q;
        oc->in_lib = il;
        oc->expect = es;
        tr(n * 7919 + mix64(std::hash<std::string_view>{}(std::string_view(S.m))));
    }
    void adopt(int slot, const char* cls)
    {
        St& S = st[slot];
        const C& c = *S.s;
        const std::size_t n = c.size();
        if (n > N)
        {
            fail(cls, "size() %zu exceeds the capacity after a failed operation", n);
        }
        S.m.assign(c.data(), n);
        check(slot, cls);
    }
    void others()
    {
        if (++opno % 4 != 0)
        {
            return;
        }
        for (int i = 0; i < NSLOTS; ++i)
        {
            if (!slot_busy(i))
            {
                check(i, "isolation");
            }
        }
    }
    template <class Fn>
    void construct(int slot, Fn&& fn)
    {
        St& S = st[slot];
        S.s.prepare();
        fn(static_cast<void*>(S.s.base()));
        S.s.live = true;
    }
    void destroy(int slot)
    {
        St& S = st[slot];
        S.s->~C();
        S.s.live = false;
        S.m.clear();
    }
    void start() override
    {
        for (int i = 0; i < NSLOTS; ++i)
        {
            W.cur->in_lib = true;
            construct(i, [](void* p) { ::new (p) C(); });
            W.cur->in_lib = false;
            check(i);
        }
    }
    void finish() override
    {
        for (int i = 0; i < NSLOTS; ++i)
        {
            check(i, "isolation");
        }
        for (int i = 0; i < NSLOTS; ++i)
        {
            destroy(i);
        }
    }
    void after_abandon(const Op& op, int reason) override
    {
        const int slot = op.slot;
        const char* cls = reason == A_REJECT ? "reject-effect" : "isolation";
        St& S = st[slot];
        if (!S.s.live)
        {
            W.cur->in_lib = true;
            construct(slot, [](void* p) { ::new (p) C(); });
            W.cur->in_lib = false;
            S.m.clear();
        }
        for (int s : {static_cast<int>(op.slot), static_cast<int>(op.slot2)})
        {
            if (slot_busy(s))
            {
                continue;
            }
            if (reason == A_REJECT && st[s].rej_basic)
            {
                adopt(s, cls);
            }
            else if (s == slot || (W.cur->info->flags & (OF_S2_R | OF_S2_W)) != 0)
            {
                check(s, cls);
            }
            st[s].rej_basic = false;
        }
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + S.m.size() * 7 + 5));
    }
    template <class Fn, class Model>
    void mutate(int slot, Fn&& fn, Model&& model)
    {
        if (lib(fn))
        {
            model();
            st[slot].rej_basic = false;
            check(slot);
        }
        else
        {
            st[slot].rej_basic = false;
            adopt(slot, "exc-basic");
        }
    }
    auto cit(int slot, std::size_t i) { return st[slot].s->cbegin() + static_cast<std::ptrdiff_t>(i); }
    void check_ret(int slot, typename C::iterator it, std::size_t want, const char* what)
    {
        if (it != st[slot].s->begin() + static_cast<std::ptrdiff_t>(want))
        {
            fail("content", "%s returned an iterator that does not designate position %zu", what, want);
        }
    }
    void check_self(int slot, const C* r, const char* what)
    {
        if (r != st[slot].s.ptr())
        {
            fail("content", "%s does not return the string itself", what);
        }
    }
    static std::size_t pick_pos(u32 b, std::size_t n)
    {
        if (b % 8 == 0)
        {
            return 0;
        }
        if (b % 8 == 1)
        {
            return n;
        }
        return (b / 8 + b) % (n + 1);
    }
    static std::size_t pick_len(u32 c, std::size_t room)
    {
        if (c % 5 == 0)
        {
            return room;  // exactly full
        }
        if (c % 7 == 0)
        {
            return 0;
        }
        return (c / 16) % (std::min<std::size_t>(room, c % 11 == 0 ? room : 9 + c % 16) + 1);
    }

    std::pair<const char*, std::size_t> bytes(int slot) override
    {
        auto& s = st[slot].s;
        return s.live ? std::pair<const char*, std::size_t>{s.base(), sizeof(*s)} : std::pair<const char*, std::size_t>{nullptr, 0};
    }
    void exec(const Op& op) override
    {
        do_exec(op);
        const St& S = st[op.slot];
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + S.m.size() * 7 + (W.cur->threw ? 3 : 0) +
                    (W.preempts != 0 ? 1 : 0)));
        others();
    }

    // ---------------------------------------------------------------- sources
    struct Src
    {
        SourceState<char> ss;
        char buf[BUF];
        char feed[BUF];  // what the library reads (goes stale as it is consumed)
        std::size_t avail = 0;
    };
    // false: not to be performed
    bool setup_source(Src& s, const Op& op, std::size_t room, std::size_t base)
    {
        std::size_t k = pick_len(op.c, room);
        if (op.c % 11 == 0 && !rejects_stripped())
        {
            k = room + 1 + op.c % 3;
        }
        text(s.buf, k, op.a);
        std::copy(s.buf, s.buf + k, s.feed);
        s.ss.data = s.feed;
        s.ss.n = k;
        s.avail = k;
        if (op.fault == F_SRC_END && (W.strip & ST_SRCFAULT) == 0)
        {
            s.avail = std::min<std::size_t>(k, op.fault_at);
            if (s.avail < k)
            {
                W.faults_fired++;
                SIM_COUNT("fault.source_short");
            }
            s.ss.n = s.avail;
        }
        else if (op.fault == F_SRC_THROW && (W.strip & ST_SRCFAULT) == 0)
        {
            s.ss.fail_at = op.fault_at;
        }
        if (s.avail > room)
        {
            if (rejects_stripped())
            {
                return false;
            }
            expect_length(base, ~0ULL);
        }
        return true;
    }
    void check_consumed(const Src& s)
    {
        if (s.ss.pos != s.avail)
        {
            fail("source", "the single-pass source was consumed up to %zu of %zu elements", s.ss.pos, s.avail);
        }
    }

    // the same characters through iterators of several kinds: forward only, pointers, pointers to another type
    template <class Fn>
    static void ranged(const char* b, std::size_t k, u32 sel, Fn fn)
    {
        switch (sel / 3 % 4)
        {
        case 0: fn(CharFwd{b}, CharFwd{b + k}); break;
        case 1: fn(b, b + k); break;
        case 2:
        {
            char back[BUF + 1];
            std::reverse_copy(b, b + k, back);
            fn(std::make_reverse_iterator(static_cast<const char*>(back) + k), std::make_reverse_iterator(static_cast<const char*>(back)));
            break;
        }
        default:
        {
            int wide[BUF + 1];
            std::copy_n(b, k, wide);
            fn(static_cast<const int*>(wide), static_cast<const int*>(wide) + k);
            break;
        }
        }
    }

    void do_exec(const Op& op)
    {
        const int slot = op.slot;
        St& S = st[slot];
        C& c = *S.s;
        const std::size_t n = S.m.size();
        char buf[BUF + 1];
        switch (op.kind)
        {
        case TK_push_back:
        case TK_plus_eq_char:
        {
            if (n >= N)
            {
                if (rejects_stripped())
                {
                    return;
                }
                expect_length(N + 1, ~0ULL);
            }
            const char x = mkchar(op.a);
            const C* r = &c;
            mutate(
                slot,
                [&]
                {
                    if (op.kind == TK_push_back)
                    {
                        c.push_back(x);
                    }
                    else
                    {
                        r = &(c += x);
                    }
                },
                [&]
                {
                    S.m.push_back(x);
                    check_self(slot, r, "operator+=");
                });
            return;
        }
        case TK_pop_back:
        {
            if (n == 0)
            {
                if (rejects_stripped())
                {
                    return;
                }
                expect(R_EMPTY);
            }
            mutate(slot, [&] { c.pop_back(); }, [&] { S.m.pop_back(); });
            return;
        }
        case TK_insert_char:
        {
            if (n >= N)
            {
                if (rejects_stripped())
                {
                    return;
                }
                expect_length(N + 1, ~0ULL);
            }
            const std::size_t pos = pick_pos(op.b, n);
            const char x = mkchar(op.a);
            std::optional<typename C::iterator> r;
            mutate(
                slot,
                [&] { r.emplace(c.insert(cit(slot, pos), x)); },
                [&]
                {
                    S.m.insert(S.m.begin() + static_cast<long>(pos), x);
                    check_ret(slot, *r, pos, "insert");
                });
            return;
        }
        case TK_insert_view:
        case TK_insert_range:
        {
            const std::size_t k = pick_len(op.c, N - n);
            text(buf, k, op.a);
            const std::size_t pos = pick_pos(op.b, n);
            std::optional<typename C::iterator> r;
            mutate(
                slot,
                [&]
                {
                    if (op.kind == TK_insert_view)
                    {
                        r.emplace(c.insert(cit(slot, pos), std::string_view(buf, k)));
                    }
                    else
                    {
                        ranged(buf, k, op.a, [&](auto f, auto l) { r.emplace(c.insert(cit(slot, pos), f, l)); });
                    }
                },
                [&]
                {
                    S.m.insert(pos, buf, k);
                    check_ret(slot, *r, pos, "insert");
                });
            return;
        }
        case TK_insert_ilist:
        case TK_append_ilist:
        case TK_plus_eq_ilist:
        {
            if (N - n < 3)
            {
                return;
            }
            text(buf, 3, op.a);
            const std::initializer_list<char> il{buf[0], buf[1], buf[2]};
            const std::size_t pos = op.kind == TK_insert_ilist ? pick_pos(op.b, n) : n;
            std::optional<typename C::iterator> r;
            const C* self = &c;
            mutate(
                slot,
                [&]
                {
                    if (op.kind == TK_insert_ilist)
                    {
                        r.emplace(c.insert(cit(slot, pos), il));
                    }
                    else if (op.kind == TK_append_ilist)
                    {
                        self = &c.append(il);
                    }
                    else
                    {
                        self = &(c += il);
                    }
                },
                [&]
                {
                    S.m.insert(pos, buf, 3);
                    if (r.has_value())
                    {
                        check_ret(slot, *r, pos, "insert");
                    }
                    check_self(slot, self, "append");
                });
            return;
        }
        case TK_insert_input:
        case TK_append_input:
        case TK_assign_input:
        {
            const bool asg = op.kind == TK_assign_input;
            Src s;
            if (!setup_source(s, op, asg ? N : N - n, N + 1))
            {
                return;
            }
            S.rej_basic = true;
            const std::size_t pos = op.kind == TK_insert_input ? pick_pos(op.b, n) : (asg ? 0 : n);
            std::optional<typename C::iterator> r;
            const C* self = &c;
            mutate(
                slot,
                [&]
                {
                    if (asg)
                    {
                        self = &c.assign(InputIt<char>{&s.ss}, InputIt<char>{});
                    }
                    else if (op.kind == TK_append_input)
                    {
                        self = &c.append(InputIt<char>{&s.ss}, InputIt<char>{});
                    }
                    else
                    {
                        r.emplace(c.insert(cit(slot, pos), InputIt<char>{&s.ss}, InputIt<char>{}));
                    }
                },
                [&]
                {
                    check_consumed(s);
                    if (asg)
                    {
                        S.m.clear();
                    }
                    S.m.insert(pos, s.buf, s.avail);
                    if (r.has_value())
                    {
                        check_ret(slot, *r, pos, "insert(input range)");
                    }
                    check_self(slot, self, "assign/append");
                });
            return;
        }
        case TK_erase_one:
        {
            if (n == 0)
            {
                return;
            }
            const std::size_t pos = op.b % n;
            std::optional<typename C::iterator> r;
            mutate(
                slot,
                [&] { r.emplace(c.erase(cit(slot, pos))); },
                [&]
                {
                    S.m.erase(pos, 1);
                    check_ret(slot, *r, pos, "erase");
                });
            return;
        }
        case TK_erase_range:
        {
            const std::size_t pos = pick_pos(op.b, n);
            const std::size_t k = (n - pos) == 0 ? 0 : (op.c % 4 == 0 ? n - pos : op.c % (n - pos + 1));
            std::optional<typename C::iterator> r;
            mutate(
                slot,
                [&] { r.emplace(c.erase(cit(slot, pos), cit(slot, pos + k))); },
                [&]
                {
                    S.m.erase(pos, k);
                    check_ret(slot, *r, pos, "erase(range)");
                });
            return;
        }
        case TK_clear:
            mutate(slot, [&] { c.clear(); }, [&] { S.m.clear(); });
            return;
        case TK_resize_default:
        case TK_resize_char:
        {
            const std::size_t k = op.c % 5 == 0 ? N : op.c % (N + 1);
            const char x = mkchar(op.a);
            mutate(
                slot,
                [&]
                {
                    if (op.kind == TK_resize_char)
                    {
                        c.resize(k, x);
                    }
                    else
                    {
                        c.resize(k);
                    }
                },
                [&] { S.m.resize(k, op.kind == TK_resize_char ? x : '\0'); });
            return;
        }
        case TK_assign_count:
        {
            const std::size_t k = op.c % 5 == 0 ? N : op.c % (N + 1);
            const char x = mkchar(op.a);
            const C* self = &c;
            mutate(
                slot,
                [&] { self = &c.assign(k, x); },
                [&]
                {
                    S.m.assign(k, x);
                    check_self(slot, self, "assign");
                });
            return;
        }
        case TK_assign_view:
        case TK_assign_range:
        case TK_assign_from_view:
        {
            const std::size_t k = pick_len(op.c, N);
            text(buf, k, op.a);
            const C* self = &c;
            mutate(
                slot,
                [&]
                {
                    if (op.kind == TK_assign_view)
                    {
                        self = &c.assign(std::string_view(buf, k));
                    }
                    else if (op.kind == TK_assign_range)
                    {
                        ranged(buf, k, op.a, [&](auto f, auto l) { self = &c.assign(f, l); });
                    }
                    else
                    {
                        self = &(c = std::string_view(buf, k));
                    }
                },
                [&]
                {
                    S.m.assign(buf, k);
                    check_self(slot, self, "assign");
                });
            return;
        }
        case TK_assign_ilist:
        {
            if (N < 3)
            {
                return;
            }
            text(buf, 3, op.a);
            const C* self = &c;
            mutate(
                slot,
                [&] { self = &c.assign({buf[0], buf[1], buf[2]}); },
                [&]
                {
                    S.m.assign(buf, 3);
                    check_self(slot, self, "assign");
                });
            return;
        }
        case TK_assign_self_view:
        {
            const std::size_t pos = pick_pos(op.b, n);
            const std::size_t k = op.c % (n - pos + 1);
            mutate(
                slot,
                [&] { c.assign(std::string_view(c).substr(pos, k)); },
                [&] { S.m = S.m.substr(pos, k); });
            return;
        }
        case TK_append_self_view:
        {
            const std::size_t pos = pick_pos(op.b, n);
            const std::size_t k = std::min<std::size_t>(N - n, op.c % (n - pos + 1));
            mutate(
                slot,
                [&]
                {
                    if (op.a % 2 == 0)
                    {
                        c.append(std::string_view(c).substr(pos, k));
                    }
                    else
                    {
                        c += std::string_view(c).substr(pos, k);
                    }
                },
                [&] { S.m += std::string(S.m.substr(pos, k)); });
            return;
        }
        case TK_append_view:
        case TK_append_cstr:
        case TK_append_range:
        case TK_plus_eq_view:
        case TK_plus_eq_cstr:
        {
            const bool z = op.kind == TK_append_cstr || op.kind == TK_plus_eq_cstr;
            const std::size_t k = pick_len(op.c, N - n);
            text(buf, k, op.a, z);
            buf[k] = '\0';
            const C* self = &c;
            mutate(
                slot,
                [&]
                {
                    switch (op.kind)
                    {
                    case TK_append_view: self = &c.append(std::string_view(buf, k)); break;
                    case TK_append_cstr: self = &c.append(static_cast<const char*>(buf)); break;
                    case TK_append_range: ranged(buf, k, op.a, [&](auto f, auto l) { self = &c.append(f, l); }); break;
                    case TK_plus_eq_view: self = &(c += std::string_view(buf, k)); break;
                    default: self = &(c += static_cast<const char*>(buf)); break;
                    }
                },
                [&]
                {
                    S.m.append(buf, k);
                    check_self(slot, self, "append");
                });
            return;
        }
        case TK_plus_eq_string:
        {
            const int o = op.slot2;
            if (o == slot)
            {
                return;
            }
            const std::size_t k = st[o].m.size();
            if (n + k > N)
            {
                if (rejects_stripped())
                {
                    return;
                }
                expect_length(N + 1, ~0ULL);
            }
            mutate(
                slot, [&] { c += *st[o].s; }, [&] { S.m += st[o].m; });
            check(o);
            return;
        }
        case TK_write_at:
        {
            if (n == 0)
            {
                return;
            }
            const std::size_t i = op.b % n;
            const char x = mkchar(op.a);
            mutate(
                slot,
                [&]
                {
                    switch (op.c % 3)
                    {
                    case 0: c[i] = x; break;
                    case 1: c.at(i) = x; break;
                    default: c.data()[i] = x; break;
                    }
                },
                [&] { S.m[i] = x; });
            return;
        }
        case TK_write_ends:
        {
            if (n == 0)
            {
                return;
            }
            const char x = mkchar(op.a);
            mutate(
                slot,
                [&] { (op.b % 2 == 0 ? c.front() : c.back()) = x; },
                [&] { (op.b % 2 == 0 ? S.m.front() : S.m.back()) = x; });
            return;
        }
        case TK_write_all:
        {
            mutate(
                slot,
                [&]
                {
                    if (op.b % 2 == 0)
                    {
                        for (auto& x : c)
                        {
                            x = static_cast<char>(x ^ 1);
                        }
                    }
                    else
                    {
                        std::reverse(c.begin(), c.end());
                    }
                },
                [&]
                {
                    if (op.b % 2 == 0)
                    {
                        for (auto& x : S.m)
                        {
                            x = static_cast<char>(x ^ 1);
                        }
                    }
                    else
                    {
                        std::reverse(S.m.begin(), S.m.end());
                    }
                });
            return;
        }
        case TK_copy_construct:
        case TK_move_construct:
        {
            const int d = op.slot2;
            if (d == slot)
            {
                return;
            }
            destroy(d);
            lib(
                [&]
                {
                    construct(d,
                              [&](void* p)
                              {
                                  if (op.kind == TK_copy_construct)
                                  {
                                      ::new (p) C(static_cast<const C&>(c));
                                  }
                                  else
                                  {
                                      ::new (p) C(std::move(c));
                                  }
                              });
                });
            st[d].m = S.m;
            check(d);
            if (op.kind == TK_copy_construct)
            {
                check(slot);
            }
            else
            {
                lib([&] { c.clear(); });
                S.m.clear();
                check(slot);
            }
            return;
        }
        case TK_copy_assign:
        case TK_move_assign:
        {
            const int d = op.slot2;
            if (d == slot)
            {
                return;
            }
            C& dc = *st[d].s;
            const C* self = nullptr;
            lib(
                [&]
                {
                    if (op.kind == TK_copy_assign)
                    {
                        self = &(dc = static_cast<const C&>(c));
                    }
                    else
                    {
                        self = &(dc = std::move(c));
                    }
                });
            st[d].m = S.m;
            check_self(d, self, "operator=");
            check(d);
            if (op.kind == TK_copy_assign)
            {
                check(slot);
            }
            else
            {
                lib([&] { c = C(); });
                S.m.clear();
                check(slot);
            }
            return;
        }
        case TK_swap_objects:
        {
            const int d = op.slot2;
            if (d == slot)
            {
                return;
            }
            lib([&] { std::swap(c, *st[d].s); });
            std::swap(S.m, st[d].m);
            check(slot);
            check(d);
            return;
        }
        case TK_self_assign:
        {
            lib(
                [&]
                {
                    C& alias = c;
                    if (op.b % 3 == 0)
                    {
                        c = std::move(alias);
                    }
                    else
                    {
                        c = alias;
                    }
                });
            check(slot);
            return;
        }
        case TK_compare:
        {
            const C& d = *st[op.slot2].s;
            const C& cc = c;
            const std::string& a = S.m;
            const std::string& b = st[op.slot2].m;
            bool eq = false;
            bool ne = false;
            bool lt = false;
            bool eq2 = false;
            std::strong_ordering o = std::strong_ordering::equal;
            std::strong_ordering o2 = std::strong_ordering::equal;
            lib(
                [&]
                {
                    eq = cc == d;
                    ne = cc != d;
                    lt = cc < d;
                    o = cc <=> d;
                    const C2 wide{std::string_view(d)};
                    eq2 = cc == wide;
                    o2 = cc <=> wide;
                });
            // comparison is by character_traits<char>
            const std::strong_ordering w = std::string_view(a) <=> std::string_view(b);
            if (eq != (a == b) || ne == eq || lt != (w < 0) || o != w || eq2 != eq || o2 != w)
            {
                fail("content", "comparison of two strings disagrees with the reference");
            }
            return;
        }
        case TK_compare_view:
        {
            const C& cc = c;
            std::size_t k = n;
            std::copy(S.m.begin(), S.m.end(), buf);
            switch (op.b % 4)
            {
            case 0: k = n == 0 ? 0 : op.c % n; break;
            case 1: buf[k++] = mkcharz(op.a); break;
            case 2:
                if (n != 0)
                {
                    buf[op.c % n] = mkcharz(op.a);
                }
                break;
            default: break;
            }
            buf[k] = '\0';
            const std::string_view v(buf, k);
            bool eq = false;
            bool eqc = false;
            int cmp = 0;
            std::strong_ordering o = std::strong_ordering::equal;
            std::strong_ordering oc = std::strong_ordering::equal;
            lib(
                [&]
                {
                    eq = cc == v;
                    o = cc <=> v;
                    cmp = cc.compare(v);
                    eqc = cc == static_cast<const char*>(buf);
                    oc = cc <=> static_cast<const char*>(buf);
                });
            const std::string_view a(S.m);
            const std::string_view vc(buf);
            if (eq != (a == v) || o != (a <=> v) || (cmp < 0) != (a < v) || (cmp > 0) != (a > v) || eqc != (a == vc) ||
                oc != (a <=> vc))
            {
                fail("content", "comparison with a view or C string disagrees with the reference");
            }
            return;
        }
        case TK_construct_count:
        case TK_construct_view:
        case TK_construct_cstr:
        case TK_construct_ilist:
        {
            std::size_t k = pick_len(op.c, N);
            if (op.kind == TK_construct_ilist)
            {
                if (N < 3)
                {
                    return;
                }
                k = 3;
            }
            text(buf, k, op.a, op.kind == TK_construct_cstr);
            buf[k] = '\0';
            if (op.kind == TK_construct_view && k == N)
            {
                // the capacity is that of the array
                char arr[N + 1];
                std::copy_n(buf, N + 1, arr);
                const char(&lit)[N + 1] = arr;
                destroy(slot);
                std::size_t made_max = N;
                lib(
                    [&]
                    {
                        construct(slot,
                                  [&](void* p)
                                  {
                                      if constexpr (DEFPOL)
                                      {
                                          auto made = fixed_containers::make_fixed_string(lit);
                                          made_max = made.max_size();
                                          ::new (p) C(made);
                                      }
                                      else
                                      {
                                          auto made = fixed_containers::make_fixed_string<SeqPolicy<1>>(lit);
                                          made_max = made.max_size();
                                          ::new (p) C(made);
                                      }
                                  });
                    });
                if (made_max != N)
                {
                    fail("content", "make_fixed_string of %zu characters has room for %zu", N, made_max);
                }
                S.m.assign(buf, k);
                check(slot);
                return;
            }
            destroy(slot);
            lib(
                [&]
                {
                    construct(slot,
                              [&](void* p)
                              {
                                  switch (op.kind)
                                  {
                                  case TK_construct_count: ::new (p) C(k, mkchar(op.a)); break;
                                  case TK_construct_view: ::new (p) C(std::string_view(buf, k)); break;
                                  case TK_construct_cstr: ::new (p) C(static_cast<const char*>(buf)); break;
                                  default: ::new (p) C{buf[0], buf[1], buf[2]}; break;
                                  }
                              });
                });
            if (op.kind == TK_construct_count)
            {
                S.m.assign(k, mkchar(op.a));
            }
            else
            {
                S.m.assign(buf, k);
            }
            check(slot);
            return;
        }
        case TK_find_family:
        {
            const C& cc = c;
            // a needle that often occurs
            std::size_t k = 0;
            if (n != 0 && op.b % 4 != 0)
            {
                const std::size_t p = op.c % n;
                k = std::min<std::size_t>(n - p, 1 + op.a % 3);
                std::copy_n(S.m.begin() + static_cast<long>(p), k, buf);
            }
            else
            {
                k = op.a % 3;
                text(buf, k, op.a);
            }
            buf[k] = '\0';
            const std::string_view v(buf, k);
            const std::string_view z(buf);
            const std::size_t pos = op.a % 5 == 0 ? C::npos : (op.c >> 3) % (n + 3);
            const char ch = k != 0 ? buf[0] : 'b';
            const std::size_t kc = op.b % 3 == 0 ? op.b / 3 % (k + 1) : k;  // a part of the text
            std::size_t got[30] = {};
            lib(
                [&]
                {
                    std::size_t i = 0;
                    const C2 fs{v};
                    const char* p = buf;
#define FIND(f)                     \
    got[i++] = cc.f(v, pos);        \
    got[i++] = cc.f(p, pos, kc);    \
    got[i++] = cc.f(ch, pos);       \
    got[i++] = cc.f(fs, pos);       \
    got[i++] = cc.f(p, pos);
                    FIND(find)
                    FIND(rfind)
                    FIND(find_first_of)
                    FIND(find_first_not_of)
                    FIND(find_last_of)
                    FIND(find_last_not_of)
#undef FIND
                });
            const std::string& m = S.m;
            std::size_t i = 0;
#define FIND(f)                                                                                               \
    {                                                                                                         \
        const std::size_t w[5] = {m.f(v, pos), m.f(buf, pos, kc), m.f(ch, pos), m.f(v, pos), m.f(z, pos)};    \
        for (std::size_t x : w)                                                                               \
        {                                                                                                     \
            if (got[i] != x)                                                                                  \
            {                                                                                                 \
                fail("content", #f " (variant %zu) returned %zu, reference %zu", i % 5, got[i], x);           \
            }                                                                                                 \
            ++i;                                                                                              \
        }                                                                                                     \
    }
            FIND(find)
            FIND(rfind)
            FIND(find_first_of)
            FIND(find_first_not_of)
            FIND(find_last_of)
            FIND(find_last_not_of)
#undef FIND
            std::size_t d[24] = {};
            lib(
                [&]
                {
                    std::size_t j = 0;
                    const C2 fs{v};
                    const char* p = buf;
#define FIND(f)            \
    d[j++] = cc.f(v);      \
    d[j++] = cc.f(ch);     \
    d[j++] = cc.f(fs);     \
    d[j++] = cc.f(p);
                    FIND(find)
                    FIND(rfind)
                    FIND(find_first_of)
                    FIND(find_first_not_of)
                    FIND(find_last_of)
                    FIND(find_last_not_of)
#undef FIND
                });
            const std::size_t* q = d;
#define FIND(f) ok = ok && q[0] == m.f(v) && q[1] == m.f(ch) && q[2] == m.f(v) && q[3] == m.f(z), q += 4;
            bool ok = true;
            FIND(find)
            FIND(rfind)
            FIND(find_first_of)
            FIND(find_first_not_of)
            FIND(find_last_of)
            FIND(find_last_not_of)
#undef FIND
            if (!ok)
            {
                fail("content", "a find function without position disagrees with the reference");
            }
            return;
        }
        case TK_affixes:
        {
            const C& cc = c;
            const std::size_t k = op.c % (n + 1);
            const bool pre = op.b % 2 == 0;
            std::copy_n(S.m.begin() + static_cast<long>(pre ? 0 : n - k), k, buf);
            std::size_t kk = k;
            if (op.a % 3 == 0)
            {
                if (k != 0)
                {
                    buf[op.a % k] = static_cast<char>(buf[op.a % k] ^ 1);
                }
                else
                {
                    buf[kk++] = 'b';
                }
            }
            buf[kk] = '\0';
            const std::string_view v(buf, kk);
            const char ch = mkchar(op.a);
            bool g[6] = {};
            lib(
                [&]
                {
                    g[0] = cc.starts_with(v);
                    g[1] = cc.ends_with(v);
                    g[2] = cc.starts_with(ch);
                    g[3] = cc.ends_with(ch);
                    g[4] = cc.starts_with(static_cast<const char*>(buf));
                    g[5] = cc.ends_with(static_cast<const char*>(buf));
                });
            const std::string_view m(S.m);
            const std::string_view z(buf);
            if (g[0] != m.starts_with(v) || g[1] != m.ends_with(v) || g[2] != m.starts_with(ch) ||
                g[3] != m.ends_with(ch) || g[4] != m.starts_with(z) || g[5] != m.ends_with(z))
            {
                fail("content", "starts_with/ends_with disagree with the reference");
            }
            return;
        }
        case TK_substr:
        {
            const C& cc = c;
            const std::size_t pos = pick_pos(op.b, n);
            const std::size_t k = op.c % 4 == 0 ? C::npos : op.c % (n + 3);
            std::string_view r1;
            std::string_view r2;
            std::string_view r3;
            lib(
                [&]
                {
                    r1 = cc.substr(pos, k);
                    r2 = cc.substr(pos);
                    r3 = cc.substr();
                });
            const std::string_view m(S.m);
            if (r1 != m.substr(pos, k) || r2 != m.substr(pos) || r3 != m)
            {
                fail("content", "substr disagrees with the reference");
            }
            return;
        }
        case TK_bad_index:
        {
            const std::size_t i = extreme(n + (op.b % 3 == 0 ? 0 : op.c % 5), op.a);
            const C& cc = c;
            expect_range(i, n);
            lib(
                [&]
                {
                    switch (op.b % 4)
                    {
                    case 0: tr(static_cast<u64>(cc[i])); break;
                    case 1: tr(static_cast<u64>(cc.at(i))); break;
                    case 2: tr(static_cast<u64>(c[i])); break;
                    default: tr(static_cast<u64>(c.at(i))); break;
                    }
                });
            return;
        }
        case TK_bad_front_back:
        {
            if (n != 0)
            {
                return;
            }
            const C& cc = c;
            expect(R_EMPTY);
            lib(
                [&]
                {
                    switch (op.b % 4)
                    {
                    case 0: tr(static_cast<u64>(cc.front())); break;
                    case 1: tr(static_cast<u64>(cc.back())); break;
                    case 2: tr(static_cast<u64>(c.front())); break;
                    default: tr(static_cast<u64>(c.back())); break;
                    }
                });
            return;
        }
        case TK_bad_substr:
        {
            const C& cc = c;
            const std::size_t i = extreme(n + 1 + op.c % 3, op.a);
            expect_range(i, n);
            lib([&] { tr(cc.substr(i, op.b % 4).size()); });
            return;
        }
        case TK_bad_reserve:
        {
            if (op.b % 2 == 0)
            {
                lib([&] { c.reserve(op.c % (N + 1)); });
                check(slot);
                return;
            }
            const std::size_t k = extreme(N + 1 + op.c % 3, op.a);
            expect_length(N + 1 + op.c % 3, ~0ULL);
            lib([&] { c.reserve(k); });
            return;
        }
        case TK_overflow_insert:
        {
            const std::size_t k = N - n + 1 + op.c % 3;
            text(buf, k, op.a);
            const std::size_t pos = pick_pos(op.b, n);
            expect_length(N + 1, ~0ULL);
            lib(
                [&]
                {
                    if (op.a % 2 == 0)
                    {
                        c.insert(cit(slot, pos), std::string_view(buf, k));
                    }
                    else
                    {
                        c.insert(cit(slot, pos), CharFwd{buf}, CharFwd{buf + k});
                    }
                });
            return;
        }
        case TK_overflow_append:
        {
            const std::size_t k = N - n + 1 + op.c % 3;
            text(buf, k, op.a, true);
            buf[k] = '\0';
            expect_length(N + 1, ~0ULL);
            lib(
                [&]
                {
                    switch (op.b % 5)
                    {
                    case 0: c.append(std::string_view(buf, k)); break;
                    case 1: c.append(CharFwd{buf}, CharFwd{buf + k}); break;
                    case 2: c += std::string_view(buf, k); break;
                    case 3: c.append(static_cast<const char*>(buf)); break;
                    default: c += static_cast<const char*>(buf); break;
                    }
                });
            return;
        }
        case TK_overflow_assign:
        {
            const std::size_t k = N + 1 + op.c % 3;
            text(buf, k, op.a, true);
            buf[k] = '\0';
            S.rej_basic = true;
            expect_length(N + 1, ~0ULL);
            lib(
                [&]
                {
                    switch (op.b % 4)
                    {
                    case 0: c.assign(extreme(k, op.a), 'x'); break;
                    case 1: c.assign(CharFwd{buf}, CharFwd{buf + k}); break;
                    case 2: c.assign(std::string_view(buf, k)); break;
                    default: c = std::string_view(buf, k); break;
                    }
                });
            return;
        }
        case TK_overflow_resize:
        {
            const std::size_t k = extreme(N + 1 + op.c % 3, op.a);
            expect_length(N + 1, ~0ULL);
            lib(
                [&]
                {
                    if (op.b % 2 == 0)
                    {
                        c.resize(k);
                    }
                    else
                    {
                        c.resize(k, 'y');
                    }
                });
            return;
        }
        case TK_overflow_construct:
        {
            const std::size_t k = N + 1 + op.c % 3;
            text(buf, k, op.a, true);
            buf[k] = '\0';
            destroy(slot);
            expect_length(N + 1, ~0ULL);
            lib(
                [&]
                {
                    S.s.prepare();
                    void* p = S.s.base();
                    switch (op.b % 3)
                    {
                    case 0: ::new (p) C(extreme(k, op.a), 'x'); break;
                    case 1: ::new (p) C(std::string_view(buf, k)); break;
                    default: ::new (p) C(static_cast<const char*>(buf)); break;
                    }
                });
            return;
        }
        case TK_stream_read:
        case TK_stream_read_two: do_stream_read(op); return;
        case TK_stream_write: do_stream_write(op); return;
        case TK_stream_round_trip:
        {
            const int d = op.slot2;
            if (d == slot)
            {
                return;
            }
            // what is written is read back if it is a single non-empty word
            const bool word = n != 0 && std::none_of(S.m.begin(), S.m.end(),
                                                     [](char x) { return std::isspace(static_cast<unsigned char>(x)) != 0; });
            if (!word)
            {
                return;
            }
            SimOutBuf ob(OutPlan{}, true);
            std::ostream os(&ob);
            lib([&] { os << static_cast<const C&>(c); });
            check(slot);
            InPlan ip;
            ip.text = ob.got.data();
            ip.n = ob.got.size();
            ip.chunk_seed = op.c;
            SimInBuf ib(ip, true);
            std::istream is(&ib);
            lib([&] { is >> *st[d].s; });
            st[d].m = S.m;
            check(d);
            return;
        }
        case TK_iter_steps:
            lib(
                [&]
                {
                    NoEvents q;
                    iter_walk_all(c, S.m.size(), op.b, op.c,
                                  [&](const auto& it, std::size_t i) { return i < S.m.size() && *it == S.m[i]; });
                });
            return;
        case TK_relocate:
        {
            S.s.relocate();
            check(slot, "image");
            return;
        }
        default: return;
        }
    }

    void do_stream_read(const Op& op)
    {
        const int slot = op.slot;
        const bool two = op.kind == TK_stream_read_two && op.slot2 != slot;
        // a text of whitespace and words
        char buf[3 * BUF];
        std::size_t k = 0;
        Rng r(op.a * 977u + op.c);
        const u32 words = r.below(4);
        auto ws = [&](u32 m)
        {
            for (u32 i = r.below(m); i != 0; --i)
            {
                buf[k++] = " \t\n\r\v\f"[r.below(6)];
            }
        };
        ws(3);
        for (u32 w = 0; w < words; ++w)
        {
            const u32 mode = r.below(4);
            std::size_t len = mode == 0 ? N : (mode == 1 ? (r.chance(1, 2) ? N + 1 + r.below(2) : 1) : 1 + r.below(N));
            if (rejects_stripped())
            {
                len = std::min(len, N);
            }
            for (std::size_t i = 0; i < len && k < sizeof(buf) - 8; ++i)
            {
                const char cands[] = {'a', 'Z', '9', '\0', '\x7f', '\x80', '\xff', '\xa0', '-'};
                buf[k++] = cands[r.below(sizeof cands)];
            }
            if (w + 1 < words)
            {
                buf[k++] = " \n\t"[r.below(3)];
            }
            ws(4);
        }
        InPlan p;
        p.text = buf;
        p.n = k;
        p.chunk_seed = op.b;
        const bool faulty = (W.strip & ST_SRCFAULT) == 0;
        if (faulty && op.c % 3 == 0)
        {
            p.fail_at = r.below(static_cast<u32>(k) + 1);
        }
        const bool thrower = faulty && op.c % 9 == 0;  // badbit is turned into an exception
        const std::ios_base::iostate pre =
            faulty && op.c % 13 == 1 ? (op.b % 2 == 0 ? std::ios_base::failbit : std::ios_base::eofbit) : std::ios_base::goodbit;
        SimInBuf ib(p, true);
        SimInBuf rb(p, false);
        std::istream is(&ib);
        std::istream rs(&rb);
        if (thrower)
        {
            is.exceptions(std::ios_base::badbit);
        }
        is.setstate(pre);
        rs.setstate(pre);
        const int order[2] = {slot, op.slot2};
        for (int i = 0; i < (two ? 2 : 1); ++i)
        {
            const int s = order[i];
            St& S = st[s];
            C& c = *S.s;
            std::string ref = "@unchanged@";
            rs >> ref;
            const bool ref_bad = rs.bad();
            W.cur->throwing = false;
            if (!ref_bad && !rs.fail() && ref.size() > N)
            {
                expect_length(N + 1, ~0ULL);
                st[s].rej_basic = true;
            }
            // the device fails somewhere, but the word is too long before that
            if (ref_bad && prefix_too_long(p, ib.consumed()))
            {
                if (rejects_stripped())
                {
                    return;
                }
                expect_length(N + 1, ~0ULL);
                st[s].rej_basic = true;
            }
            const bool ok = lib([&] { is >> c; });
            const bool threw = !ok;
            st[s].rej_basic = false;
            if (threw && !(thrower && ref_bad))
            {
                fail("content", "reading from the stream threw although the stream does not ask for exceptions");
            }
            if (is.bad() != ref_bad)
            {
                fail("content", "badbit is %d after reading, std::string gives %d", is.bad(), ref_bad);
            }
            if (ref_bad)
            {
                // valid and terminated; what was read so far is a prefix of what the device delivered
                adopt(s, "content");
                if (thrower)
                {
                    return;
                }
                SIM_COUNT("probe.stream_failed_midway");
                continue;
            }
            if (is.fail() != rs.fail() || is.eof() != rs.eof())
            {
                fail("content", "stream state after reading is fail=%d eof=%d, std::string gives fail=%d eof=%d", is.fail(),
                     is.eof(), rs.fail(), rs.eof());
            }
            if (rs.fail())
            {
                // nothing extracted: empty or unchanged
                if (c.empty())
                {
                    S.m.clear();
                }
                check(s);
            }
            else
            {
                S.m = ref;
                check(s);
                if (ib.consumed() != rb.consumed())
                {
                    fail("content", "reading consumed %zu characters of the stream, std::string consumes %zu", ib.consumed(),
                         rb.consumed());
                }
                SIM_COUNT("probe.stream_word_read");
            }
        }
        // what follows is still in the stream
        if (!is.bad() && !rs.bad())
        {
            is.exceptions(std::ios_base::goodbit);
            is.clear();
            rs.clear();
            for (int i = 0; i < 6; ++i)
            {
                const int a = is.get();
                const int b = rs.get();
                if (a != b)
                {
                    fail("content", "after reading, the next character in the stream is %d, std::string leaves %d", a, b);
                }
                if (b == std::char_traits<char>::eof())
                {
                    break;
                }
            }
        }
    }
    // would the word starting at or after `from` exceed the capacity before the device fails?
    bool prefix_too_long(const InPlan& p, std::size_t from)
    {
        const std::size_t end = std::min(p.n, p.fail_at);
        std::size_t i = from;
        while (i < end && std::isspace(static_cast<unsigned char>(p.text[i])) != 0)
        {
            ++i;
        }
        std::size_t len = 0;
        while (i < end && std::isspace(static_cast<unsigned char>(p.text[i])) == 0)
        {
            ++i;
            ++len;
        }
        return len > N;
    }

    void do_stream_write(const Op& op)
    {
        const int slot = op.slot;
        St& S = st[slot];
        const C& c = *S.s;
        const std::size_t n = S.m.size();
        OutPlan p;
        p.chunk_seed = op.b;
        const bool faulty = (W.strip & ST_SRCFAULT) == 0;
        if (faulty && op.c % 4 == 0)
        {
            p.space = op.b % (n + 3);
        }
        else if (faulty && op.c % 4 == 1)
        {
            p.fail_at = op.b % (n + 3);
        }
        SimOutBuf ob(p, true);
        SimOutBuf rb(p, false);
        std::ostream os(&ob);
        std::ostream rs(&rb);
        for (std::ostream* s : {&os, &rs})
        {
            s->width(static_cast<std::streamsize>(op.a % 3 == 0 ? (op.a % (N + 6)) : 0));
            s->fill(op.a % 2 == 0 ? ' ' : '*');
            s->setf(op.a % 5 < 2 ? std::ios_base::left : std::ios_base::right, std::ios_base::adjustfield);
        }
        std::ostream* ret = nullptr;
        lib([&] { ret = &(os << c); });
        rs << S.m;
        if (ret != &os)
        {
            fail("content", "operator<< does not return the stream");
        }
        if (ob.got != rb.got || os.rdstate() != rs.rdstate() || os.width() != rs.width())
        {
            fail("content", "operator<< wrote %zu characters (state %d), std::string writes %zu (state %d)", ob.got.size(),
                 static_cast<int>(os.rdstate()), rb.got.size(), static_cast<int>(rs.rdstate()));
        }
        check(slot);
    }
};

template <std::size_t N, bool DEFPOL>
Driver* make_str(const Knobs& k)
{
    return new StrDriver<N, DEFPOL>(k);
}
}  // namespace sim

#define STR_SCENARIO(ID, NN, DEFPOL)                                              \
    static ::sim::RegisterScenario reg_##ID(::sim::Scenario{                     \
        #ID, "str", ::sim::STR_INFO, ::sim::TK_COUNT, NN, &::sim::make_str<NN, DEFPOL>, 0u});
