// Element types: the seam through which the simulator sees and disturbs the containers.
#pragma once
#include "core.hpp"

#include "fixed_containers/source_location.hpp"
#include "fixed_containers/string_literal.hpp"

#include <cmath>
#include <compare>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <string_view>

namespace sim
{
static constexpr int MOVED = -777777;
// what a constructor that fails midway leaves in its storage
static constexpr int SCRIBBLE = 0x3b3b3b3b;

struct MV
{
    int v = 0;
    int p = 0;
    bool operator==(const MV&) const = default;
};

// Trivially copyable element with observable comparisons
struct Pod
{
    int v = 0;
    int p = 0;
    bool operator==(const Pod& o) const
    {
        on_event(Ev::Equal, true);
        return v == o.v;
    }
    std::strong_ordering operator<=>(const Pod& o) const
    {
        on_event(Ev::Compare, true);
        return v <=> o.v;
    }
};

// Tracked element: every construction, use and destruction goes through the registry
struct Tr
{
    int v;
    int p;
    Tr()
      : v(SCRIBBLE)
      , p(SCRIBBLE)
    {
        on_event(Ev::Default, true);
        v = p = 0;
        reg_construct(this, sizeof *this);
    }
    Tr(int v_, int p_)
      : v(SCRIBBLE)
      , p(SCRIBBLE)
    {
        on_event(Ev::Value, true);
        v = v_;
        p = p_;
        reg_construct(this, sizeof *this);
    }
    Tr(const Tr& o)
      : v(SCRIBBLE)
      , p(SCRIBBLE)
    {
        reg_use(&o, "copy-construct from");
        on_event(Ev::Copy, true);
        v = o.v;
        p = o.p;
        reg_construct(this, sizeof *this);
    }
    Tr(Tr&& o) noexcept
    {
        reg_use(&o, "move-construct from");
        count_event(Ev::Move);
        v = o.v;
        p = o.p;
        o.v = o.p = MOVED;
        reg_construct(this, sizeof *this);
    }
    Tr& operator=(const Tr& o)
    {
        reg_use(this, "copy-assign to");
        reg_use(&o, "copy-assign from");
        on_event(Ev::CopyAssign, true);
        v = o.v;
        p = o.p;
        return *this;
    }
    Tr& operator=(Tr&& o) noexcept
    {
        reg_use(this, "move-assign to");
        reg_use(&o, "move-assign from");
        count_event(Ev::MoveAssign);
        const int nv = o.v;
        const int np = o.p;
        o.v = o.p = MOVED;
        if (this != &o)
        {
            v = nv;
            p = np;
        }
        return *this;
    }
    ~Tr()
    {
        reg_destroy(this);
        count_event(Ev::Destroy);
        v = p = -555555;
    }
    bool operator==(const Tr& o) const
    {
        reg_use(this, "compare");
        reg_use(&o, "compare");
        on_event(Ev::Equal, true);
        return v == o.v;
    }
    std::strong_ordering operator<=>(const Tr& o) const
    {
        reg_use(this, "compare");
        reg_use(&o, "compare");
        on_event(Ev::Compare, true);
        return v <=> o.v;
    }
};

// Tracked move-only element
struct Mo
{
    int v;
    int p;
    Mo()
      : v(SCRIBBLE)
      , p(SCRIBBLE)
    {
        on_event(Ev::Default, true);
        v = p = 0;
        reg_construct(this, sizeof *this);
    }
    Mo(int v_, int p_)
      : v(SCRIBBLE)
      , p(SCRIBBLE)
    {
        on_event(Ev::Value, true);
        v = v_;
        p = p_;
        reg_construct(this, sizeof *this);
    }
    Mo(const Mo&) = delete;
    Mo& operator=(const Mo&) = delete;
    Mo(Mo&& o) noexcept
    {
        reg_use(&o, "move-construct from");
        count_event(Ev::Move);
        v = o.v;
        p = o.p;
        o.v = o.p = MOVED;
        reg_construct(this, sizeof *this);
    }
    Mo& operator=(Mo&& o) noexcept
    {
        reg_use(this, "move-assign to");
        reg_use(&o, "move-assign from");
        count_event(Ev::MoveAssign);
        const int nv = o.v;
        const int np = o.p;
        o.v = o.p = MOVED;
        if (this != &o)
        {
            v = nv;
            p = np;
        }
        return *this;
    }
    ~Mo()
    {
        reg_destroy(this);
        count_event(Ev::Destroy);
        v = p = -555555;
    }
    bool operator==(const Mo& o) const
    {
        reg_use(this, "compare");
        reg_use(&o, "compare");
        on_event(Ev::Equal, true);
        return v == o.v;
    }
    std::strong_ordering operator<=>(const Mo& o) const
    {
        reg_use(this, "compare");
        reg_use(&o, "compare");
        on_event(Ev::Compare, true);
        return v <=> o.v;
    }
};

// Tracked element whose assignment, and only that, is trivial (it only counts its instances)
struct Ta
{
    int v;
    int p;
    Ta()
      : v(SCRIBBLE)
      , p(SCRIBBLE)
    {
        on_event(Ev::Default, true);
        v = p = 0;
        reg_construct(this, sizeof *this);
    }
    Ta(int v_, int p_)
      : v(SCRIBBLE)
      , p(SCRIBBLE)
    {
        on_event(Ev::Value, true);
        v = v_;
        p = p_;
        reg_construct(this, sizeof *this);
    }
    Ta(const Ta& o)
      : v(SCRIBBLE)
      , p(SCRIBBLE)
    {
        reg_use(&o, "copy-construct from");
        on_event(Ev::Copy, true);
        v = o.v;
        p = o.p;
        reg_construct(this, sizeof *this);
    }
    Ta(Ta&& o) noexcept
    {
        reg_use(&o, "move-construct from");
        count_event(Ev::Move);
        v = o.v;
        p = o.p;
        o.v = o.p = MOVED;
        reg_construct(this, sizeof *this);
    }
    Ta& operator=(const Ta&) = default;
    Ta& operator=(Ta&&) = default;
    ~Ta()
    {
        reg_destroy(this);
        count_event(Ev::Destroy);
        v = p = -555555;
    }
    bool operator==(const Ta& o) const
    {
        reg_use(this, "compare");
        reg_use(&o, "compare");
        on_event(Ev::Equal, true);
        return v == o.v;
    }
    std::strong_ordering operator<=>(const Ta& o) const
    {
        reg_use(this, "compare");
        reg_use(&o, "compare");
        on_event(Ev::Compare, true);
        return v <=> o.v;
    }
};
static_assert(std::is_trivially_copy_assignable_v<Ta> && !std::is_trivially_copy_constructible_v<Ta>);

// Constructed trivially, assigned by a function of its own, as std::pair is
struct Pa
{
    int v = 0;
    int p = 0;
    Pa() = default;
    Pa(int v_, int p_)
      : v(v_)
      , p(p_)
    {
    }
    Pa(const Pa&) = default;
    Pa(Pa&&) = default;
    Pa& operator=(const Pa& o)
    {
        on_event(Ev::CopyAssign, true);
        v = o.v;
        p = o.p;
        return *this;
    }
    Pa& operator=(Pa&& o) noexcept
    {
        count_event(Ev::MoveAssign);
        v = o.v;
        p = o.p;
        return *this;
    }
    ~Pa() = default;
    bool operator==(const Pa& o) const
    {
        on_event(Ev::Equal, true);
        return v == o.v;
    }
    std::strong_ordering operator<=>(const Pa& o) const
    {
        on_event(Ev::Compare, true);
        return v <=> o.v;
    }
};
static_assert(!std::is_trivially_copy_assignable_v<Pa> && std::is_trivially_copy_constructible_v<Pa>);

// The library assigns containers of such elements bytewise: a known finding, only probed by its own replay files
template <class... T>
inline constexpr bool BYTEWISE_ASSIGN =
    (std::is_trivially_copy_assignable_v<T> && ...) && !(std::is_trivially_copy_constructible_v<T> && ...);

// Over-aligned tracked element (alignment of the inline storage)
struct alignas(32) Al : Tr
{
    using Tr::Tr;
};

// tracked value without a default constructor
struct Nd : Tr
{
    Nd() = delete;
    Nd(int v_, int p_)
      : Tr(v_, p_)
    {
    }
};

// Tracked value with every operator a container must not rely on: & hides the address, comma and
// class-level placement new are traps, and T{a, b} is not T(a, b).
struct Odd : Tr
{
    Odd() = default;
    Odd(int v_, int p_)
      : Tr(v_, p_)
    {
    }
    Odd(std::initializer_list<int> l)
      : Tr(-777, static_cast<int>(l.size()))
    {
    }
    Odd(std::initializer_list<Odd> l)  // T{t} nests, as for a list of std::any
      : Tr(-778, static_cast<int>(l.size()))
    {
    }
    Odd(const Odd&) = default;
    Odd(Odd&&) = default;
    Odd& operator=(const Odd&) = default;
    Odd& operator=(Odd&&) = default;
    ~Odd() = default;
#ifdef ODD_DELETED  // to find uses of & and comma in the harness itself
    Odd* operator&() const = delete;
    template <class U>
    void operator,(U&&) const = delete;
#else
    Odd* operator&() const { return nullptr; }
    template <class U>
    decltype(auto) operator,(U&& u) const
    {
        fail("element", "the element's own comma operator was called");
        return static_cast<U&&>(u);
    }
#endif
    static void* operator new(std::size_t, void* p)
    {
        fail("element", "the element's own operator new was called to construct it in place");
        return p;
    }
    static void* operator new(std::size_t n) { return ::operator new(n); }
    static void operator delete(void* p) { ::operator delete(p); }
    static void operator delete(void*, void*) {}
};
struct OddAny : Odd  // and it converts from anything, as std::any does
{
    using Odd::Odd;
    template <class U>
        requires(!std::is_base_of_v<Tr, std::remove_cvref_t<U>>)
    OddAny(U&&)
      : Odd(-779, 0)
    {
    }
};
struct OddPod  // the same for the trivially copyable case
{
    int v = 0;
    int p = 0;
    OddPod() = default;
    OddPod(int v_, int p_)
      : v(v_)
      , p(p_)
    {
    }
    OddPod(std::initializer_list<int> l)
      : v(-777)
      , p(static_cast<int>(l.size()))
    {
    }
#ifdef ODD_DELETED
    OddPod* operator&() const = delete;
#else
    OddPod* operator&() const { return nullptr; }
#endif
    bool operator==(const OddPod& o) const
    {
        on_event(Ev::Equal, true);
        return v == o.v;
    }
    std::strong_ordering operator<=>(const OddPod& o) const
    {
        on_event(Ev::Compare, true);
        return v <=> o.v;
    }
};

// Trivially copyable elements of other sizes and alignments (layout of the inline storage)
struct I24  // a small integer in three bytes, alignment 1
{
    unsigned char b[3] = {0, 0, 0};
    I24() = default;
    I24(int x) { *this = x; }
    I24& operator=(int x)
    {
        b[0] = static_cast<unsigned char>(x);
        b[1] = static_cast<unsigned char>(x >> 8);
        b[2] = static_cast<unsigned char>(x >> 16);
        return *this;
    }
    operator int() const
    {
        const unsigned u = b[0] | (unsigned{b[1]} << 8) | (unsigned{b[2]} << 16);
        return static_cast<int>(u << 8) >> 8;
    }
};
template <class I, int PAD>
struct Lay
{
    I v{};
    I p{};
    char pad[PAD] = {};
    Lay() = default;
    Lay(int v_, int p_)
      : v(static_cast<I>(v_))
      , p(static_cast<I>(p_))
    {
    }
    bool operator==(const Lay& o) const
    {
        on_event(Ev::Equal, true);
        return static_cast<int>(v) == static_cast<int>(o.v);
    }
    std::strong_ordering operator<=>(const Lay& o) const
    {
        on_event(Ev::Compare, true);
        return static_cast<int>(v) <=> static_cast<int>(o.v);
    }
};
using Lay7 = Lay<I24, 1>;              // size 7, alignment 1
struct alignas(2) Lay10 : Lay<I24, 4>  // size 10, alignment 2
{
    using Lay<I24, 4>::Lay;
};
struct Lay3  // size 3, alignment 1
{
    I24 v{};
    Lay3() = default;
    Lay3(int v_, int)
      : v(v_)
    {
    }
    bool operator==(const Lay3& o) const
    {
        on_event(Ev::Equal, true);
        return static_cast<int>(v) == static_cast<int>(o.v);
    }
    std::strong_ordering operator<=>(const Lay3& o) const
    {
        on_event(Ev::Compare, true);
        return static_cast<int>(v) <=> static_cast<int>(o.v);
    }
};
using Lay12 = Lay<int, 1>;             // size 12, alignment 4
using Lay24 = Lay<long, 3>;            // size 24, alignment 8
struct alignas(16) Lay16 : Lay<int, 1>  // size 16, alignment 16
{
    using Lay<int, 1>::Lay;
};
static_assert(sizeof(Lay16) == 16 && std::is_trivially_copyable_v<Lay16>);
static_assert(sizeof(Lay7) == 7 && sizeof(Lay10) == 10 && sizeof(Lay12) == 12 && sizeof(Lay24) == 24);
static_assert(std::is_trivially_copyable_v<Lay7> && std::is_trivially_copyable_v<Lay24>);

template <class T>
struct ET
{
    static constexpr bool tracked = true;
    static constexpr bool copyable = std::is_copy_constructible_v<T>;
    static constexpr bool has_payload = true;
    static T make(int v, int p) { return T(v, p); }
    static MV get(const T& t)
    {
        if (!reg_alive(std::addressof(t)))
        {
            fail("lifetime", "an element of the container is not a live object");
        }
        if (reinterpret_cast<std::uintptr_t>(std::addressof(t)) % alignof(T) != 0)
        {
            fail("lifetime", "an element of the container is misaligned");
        }
        return {t.v, t.p};
    }
    static MV def() { return {0, 0}; }
};
template <>
struct ET<int>
{
    static constexpr bool tracked = false;
    static constexpr bool copyable = true;
    static constexpr bool has_payload = false;
    static int make(int v, int) { return v; }
    static MV get(const int& t) { return {t, 0}; }
    static MV def() { return {0, 0}; }
};
// Keys that are views of characters stored elsewhere: equal keys come from different buffers, at different
// alignments and with different characters after their end.
inline constexpr int VIEW_MIN = -8;
inline constexpr int VIEW_MAX = 2600;
struct ViewPool
{
    static constexpr std::size_t STRIDE = 85;
    char text[2][static_cast<std::size_t>(VIEW_MAX - VIEW_MIN) * STRIDE] = {};
    unsigned char len[static_cast<std::size_t>(VIEW_MAX - VIEW_MIN)] = {};
    ViewPool()
    {
        for (int v = VIEW_MIN; v < VIEW_MAX; ++v)
        {
            const auto i = static_cast<std::size_t>(v - VIEW_MIN);
            // 0 to 3 characters for the first few, then every length up to 80
            const std::size_t n = v >= 0 && v < 4 ? static_cast<std::size_t>(v) : 4 + (i * 7) % 77;
            len[i] = static_cast<unsigned char>(n);
            for (int w = 0; w < 2; ++w)
            {
                char* p = text[w] + i * STRIDE + w * 3;
                for (std::size_t j = 0; j < 82; ++j)
                {
                    p[j] = j < n ? 'x' : static_cast<char>(w == 0 ? 'x' : 0x80 + v % 100);
                }
                int u = v - VIEW_MIN;
                for (std::size_t j = 0; n >= 4 && j < 4; ++j)
                {
                    p[(v % 2 == 0 ? n - 1 : 3) - j] = static_cast<char>('0' + u % 10);
                    u /= 10;
                }
            }
        }
    }
};
inline const ViewPool VIEW_POOL;
template <>
struct ET<std::string_view>
{
    static constexpr bool tracked = false;
    static constexpr bool copyable = true;
    static constexpr bool has_payload = false;
    static constexpr int domain = 2000;
    static std::string_view make(int v, int p)
    {
        const auto i = static_cast<std::size_t>(v - VIEW_MIN);
        const int w = p & 1;
        return {VIEW_POOL.text[w] + i * ViewPool::STRIDE + w * 3, VIEW_POOL.len[i]};
    }
    static MV get(const std::string_view& t)
    {
        for (int w = 0; w < 2; ++w)
        {
            const auto off = reinterpret_cast<std::uintptr_t>(t.data()) - reinterpret_cast<std::uintptr_t>(VIEW_POOL.text[w]);
            if (off < sizeof VIEW_POOL.text[w])
            {
                const std::size_t i = off / ViewPool::STRIDE;
                if (off == i * ViewPool::STRIDE + static_cast<std::size_t>(w) * 3 && t.size() == VIEW_POOL.len[i])
                {
                    return {static_cast<int>(i) + VIEW_MIN, 0};
                }
            }
        }
        return {-1000000, 0};  // no key that was ever made
    }
    static MV def() { return {0, 0}; }
};
// Keys that are addresses, never dereferenced
struct Spot;
using SpotPtr = const Spot*;
template <>
struct ET<SpotPtr>
{
    static constexpr bool tracked = false;
    static constexpr bool copyable = true;
    static constexpr bool has_payload = false;
    static SpotPtr make(int v, int)
    {
        return reinterpret_cast<SpotPtr>(static_cast<std::uintptr_t>(0x10000000u + static_cast<unsigned>(v + 8) * 16u));
    }
    static MV get(const SpotPtr& t)
    {
        return {static_cast<int>((reinterpret_cast<std::uintptr_t>(t) - 0x10000000u) / 16u) - 8, 0};
    }
    static MV def() { return {0, 0}; }
};
enum class EKey : std::int16_t
{
};
enum UKey : std::int32_t
{
};
template <class E>
struct EnumET
{
    static constexpr bool tracked = false;
    static constexpr bool copyable = true;
    static constexpr bool has_payload = false;
    static constexpr int domain = 2000;
    static E make(int v, int) { return static_cast<E>(v); }
    static MV get(const E& t) { return {static_cast<int>(t), 0}; }
    static MV def() { return {0, 0}; }
};
template <>
struct ET<EKey> : EnumET<EKey>
{
};
template <>
struct ET<UKey> : EnumET<UKey>
{
};
// Floating-point keys of both signs, far outside every integer type, and both zeros (which are equal)
template <class F>
struct FloatET
{
    static constexpr bool tracked = false;
    static constexpr bool copyable = true;
    static constexpr bool has_payload = false;
    static F make(int v, int p)
    {
        if (v > 0 && v % 5 == 0)
        {
            return static_cast<F>(((v / 5) & 1) ? -1 : 1) * static_cast<F>(v) * static_cast<F>(1e22);
        }
        if (v == 8)
        {
            return (p & 1) ? -static_cast<F>(0) : static_cast<F>(0);
        }
        return static_cast<F>(v - 8) * static_cast<F>(0.75);
    }
    static MV get(const F& t)
    {
        double d = static_cast<double>(t), a = d < 0 ? -d : d;
        if (a > 1e15)
        {
            return {static_cast<int>(a / 1e22 + 0.5), 0};
        }
        return {static_cast<int>(std::floor(d / 0.75 + 0.5)) + 8, 0};
    }
    static MV def() { return {8, 0}; }
};
template <>
struct ET<double> : FloatET<double>
{
};
template <>
struct ET<float> : FloatET<float>
{
};
template <>
struct ET<Pod>
{
    static constexpr bool tracked = false;
    static constexpr bool copyable = true;
    static constexpr bool has_payload = true;
    static Pod make(int v, int p) { return Pod{v, p}; }
    static MV get(const Pod& t) { return {t.v, t.p}; }
    static MV def() { return {0, 0}; }
};
template <>
struct ET<Pa>
{
    static constexpr bool tracked = false;
    static constexpr bool copyable = true;
    static constexpr bool has_payload = true;
    static Pa make(int v, int p) { return Pa(v, p); }
    static MV get(const Pa& t) { return {t.v, t.p}; }
    static MV def() { return {0, 0}; }
};
template <>
struct ET<OddPod>
{
    static constexpr bool tracked = false;
    static constexpr bool copyable = true;
    static constexpr bool has_payload = true;
    static OddPod make(int v, int p) { return OddPod(v, p); }
    static MV get(const OddPod& t) { return {t.v, t.p}; }
    static MV def() { return {0, 0}; }
};
template <class T>
struct LayET
{
    static constexpr bool tracked = false;
    static constexpr bool copyable = true;
    static constexpr bool has_payload = sizeof(T) > 3;
    static T make(int v, int p) { return T(v, p); }
    static MV get(const T& t)
    {
        if constexpr (has_payload)
        {
            return {static_cast<int>(t.v), static_cast<int>(t.p)};
        }
        else
        {
            return {static_cast<int>(t.v), 0};
        }
    }
    static MV def() { return {0, 0}; }
};
template <>
struct ET<Lay3> : LayET<Lay3>
{
};
template <>
struct ET<Lay7> : LayET<Lay7>
{
};
template <>
struct ET<Lay10> : LayET<Lay10>
{
};
template <>
struct ET<Lay12> : LayET<Lay12>
{
};
template <>
struct ET<Lay24> : LayET<Lay24>
{
};
template <>
struct ET<Lay16> : LayET<Lay16>
{
};
template <class T>
MV mk(int v, int p)
{
    return {v, ET<T>::has_payload ? p : 0};
}

// Inline source buffer for operation arguments; lives on the (abandonable) fiber stack
template <class T, std::size_t N>
struct SrcBuf
{
    alignas(T) unsigned char raw[sizeof(T) * (N ? N : 1)];
    std::size_t n = 0;
    SrcBuf() {}
    SrcBuf(const SrcBuf&) = delete;
    SrcBuf& operator=(const SrcBuf&) = delete;
    T* data() { return std::launder(reinterpret_cast<T*>(raw)); }
    void add(int v, int p)
    {
        NoEvents q;
        ::new (static_cast<void*>(raw + n * sizeof(T))) T(ET<T>::make(v, p));
        ++n;
    }
    T* begin() { return data(); }
    T* end() { return data() + n; }
    ~SrcBuf()
    {
        NoEvents q;
        for (std::size_t i = 0; i < n; ++i)
        {
            data()[i].~T();
        }
    }
};

// what elements can be made from without being one: another layout, another representation
template <class T>
struct ConvFrom
{
    signed char pad = -1;
    int p = 0;
    int v = 0;
    operator T() const { return ET<T>::make(v, p); }
};
template <class T>
struct ConvSrc
{
    using type = ConvFrom<T>;
    static void set(type& f, MV x)
    {
        f.v = x.v;
        f.p = x.p;
    }
};
template <>
struct ConvSrc<int>
{
    using type = float;
    static void set(float& f, MV x) { f = static_cast<float>(x.v); }
};
// comparable with elements, but not one
template <class T>
struct Alike
{
    int v;
    friend bool operator==(const T& e, const Alike& a)
    {
        NoEvents q;
        return ET<T>::get(e).v == a.v;
    }
};
struct NoConv
{
};
template <class T>
inline constexpr bool HAS_CONV = std::is_constructible_v<T, const typename ConvSrc<T>::type&> && !std::is_constructible_v<T, NoConv>;

// an operation that is rejected has not consumed what it was given as an rvalue
template <int I = 0, class T>
void watch_arg(const T& x, MV want)
{
    if (W.cur->expect == R_NONE)
    {
        return;
    }
    W.cur->arg[I] = std::addressof(x);
    W.cur->arg_v[I] = want.v;
    W.cur->arg_p[I] = want.p;
    W.cur->arg_same[I] = [](const void* q, int v, int p)
    {
        const bool before = W.quiet_callbacks;
        W.quiet_callbacks = true;
        const bool same = ET<T>::get(*static_cast<const T*>(q)) == MV{v, p};
        W.quiet_callbacks = before;
        SIM_COUNT("probe.argument_watched");
        return same;
    };
}

// ---- customisable checking policies: report to the simulator and abandon the calling task
template <int TAG>
struct SeqPolicy
{
    [[noreturn]] static void out_of_range(std::size_t index,
                                          std::size_t size,
                                          const fixed_containers::std_transition::source_location&)
    {
        on_rejection(R_RANGE, index, size, true);
    }
    [[noreturn]] static void length_error(std::size_t target,
                                          const fixed_containers::std_transition::source_location&)
    {
        on_rejection(R_LENGTH, target, 0, true);
    }
    [[noreturn]] static void empty_container_access(
        const fixed_containers::std_transition::source_location&)
    {
        on_rejection(R_EMPTY, 0, 0, false);
    }
    [[noreturn]] static void invalid_argument(
        const fixed_containers::StringLiteral&,
        const fixed_containers::std_transition::source_location&)
    {
        on_rejection(R_ARG, 0, 0, false);
    }
};

template <class K>
u64 key_code(const K& k)
{
    if constexpr (requires { ET<K>::get(k); })
    {
        return static_cast<u64>(static_cast<u32>(ET<K>::get(k).v));
    }
    else
    {
        return static_cast<u64>(k);
    }
}

template <class K>
struct MapPolicy
{
    template <class Q>
    [[noreturn]] static void out_of_range(const Q& key,
                                          std::size_t size,
                                          const fixed_containers::std_transition::source_location&)
    {
        u64 code = 0;
        {
            NoEvents q;
            code = key_code(key);
        }
        on_rejection(R_RANGE, code, size, true);
    }
    [[noreturn]] static void length_error(std::size_t target,
                                          const fixed_containers::std_transition::source_location&)
    {
        on_rejection(R_LENGTH, target, 0, true);
    }
};

// ---- single-pass source: shared cursor, may end early or fail (throw) at an arbitrary element.
// It is a stashing source, as std::istream_iterator is: what it yielded before is gone once it advances.
static constexpr int STALE = 0x57a1e;
template <class T>
void go_stale(T& t)
{
    if constexpr (requires { t.first; })
    {
        go_stale(const_cast<std::remove_const_t<decltype(t.first)>&>(t.first));
        go_stale(const_cast<std::remove_const_t<decltype(t.second)>&>(t.second));
    }
    else if constexpr (requires { t.v = t.p = 0; })
    {
        t.v = t.p = STALE;
    }
    else if constexpr (requires { t.v = 0; })
    {
        t.v = STALE;
    }
    else if constexpr (std::is_same_v<T, char>)
    {
        t = '~';
    }
    else if constexpr (std::is_integral_v<T>)
    {
        t = static_cast<T>(STALE);
    }
}

template <class T>
struct SourceState
{
    std::size_t stale = 0;      // elements that were yielded and are gone
    void retire(std::size_t upto)
    {
        for (; stale < upto && stale < n; ++stale)
        {
            go_stale(data[stale]);
        }
    }
    T* data = nullptr;
    std::size_t n = 0;
    std::size_t pos = 0;        // elements consumed
    std::size_t fail_at = ~std::size_t{0};
};

template <class T>
struct InputIt
{
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    SourceState<T>* s = nullptr;

    reference operator*() const
    {
        if (s == nullptr || s->pos >= s->n)
        {
            fail("source", "the single-pass source was dereferenced past its end");
        }
        s->retire(s->pos);
        on_event(Ev::SrcRead, false);
        return s->data[s->pos];
    }
    pointer operator->() const { return &**this; }
    InputIt& operator++()
    {
        advance();
        s->retire(s->pos);
        return *this;
    }
    void advance() const
    {
        if (s == nullptr || s->pos >= s->n)
        {
            fail("source", "the single-pass source was advanced past its end");
        }
        s->pos++;
        if (s->pos >= s->fail_at)
        {
            if (W.cur->throw_allowed)
            {
                W.faults_fired++;
                SIM_COUNT("fault.source_throw");
                W.cur->throwing = true;
                throw SimThrow{2};
            }
        }
    }
    struct Proxy
    {
        const T* ptr;
        const T& operator*() const { return *ptr; }
    };
    Proxy operator++(int)
    {
        // the proxy stays good until the source is next touched
        Proxy pr{&**this};
        advance();
        return pr;
    }
    bool at_end() const { return s == nullptr || s->pos >= s->n; }
    bool operator==(const InputIt& o) const { return at_end() == o.at_end(); }
};
}  // namespace sim
