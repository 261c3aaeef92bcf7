// StructView / sub_struct_view_of / ContiguousRangeSubStructView: after any history of the super struct the view
// names exactly the super struct's current fields and elements.
#pragma once
#include "common.hpp"

#include "fixed_containers/fixed_vector.hpp"
#include "fixed_containers/struct_view.hpp"

#include <array>
#include <bitset>
#include <chrono>
#include <optional>
#include <string_view>

namespace sim
{
namespace sv
{
namespace fc = fixed_containers;
namespace fsv = fixed_containers::struct_view;

enum class Col : u8
{
    RED = 1,
    GREEN,
    BLUE = 7
};
inline Col col_at(u32 i)
{
    static constexpr Col c[] = {Col::RED, Col::GREEN, Col::BLUE};
    return c[i % 3];
}
inline std::string_view col_name(Col c)
{
    return c == Col::RED ? "RED" : c == Col::GREEN ? "GREEN" : "BLUE";
}

struct Hash  // logical content
{
    u64 h = 1;
    void add(u64 x) { h = mix64(h ^ x); }
    template <class T>
    void num(T x)
    {
        add(static_cast<u64>(static_cast<long>(x)));
    }
};
// one pointer of the view against the field it must name
struct Want
{
    const char* bad = nullptr;
    template <class P, class F>
    void ptr(const P& got, const F& field, const char* what)
    {
        if (static_cast<const void*>(got) != static_cast<const void*>(std::addressof(field)) && bad == nullptr)
        {
            bad = what;
        }
    }
    void is(bool ok, const char* what)
    {
        if (!ok && bad == nullptr)
        {
            bad = what;
        }
    }
};

// ------------------------------------------------------------------ 1: flat, alignment holes, every primitive kind
struct Flat
{
    std::int8_t a{};
    std::int64_t b{};
    std::int16_t c{};
    Col e{Col::GREEN};
    float f{};
    bool g{};
    double h{};
    std::chrono::milliseconds d{};
    std::bitset<20> bs{};
    Col e2{Col::RED};
    char tail{};
};
struct FlatView
{
    const double* h{};
    const std::int8_t* a{};
    std::string_view e2{};
    const std::int16_t* c{};
    std::string_view e{};
    const bool* g{};
    std::chrono::milliseconds* d{};
    std::bitset<20>* bs{};
    const float* f{};
    const char* tail{};
};
struct FlatWrongType
{
    const double* f{};
};
struct FlatNoField
{
    const float* ff{};
};
struct P1
{
    using WrongType = FlatWrongType;
    using NoField = FlatNoField;
    using Super = Flat;
    using Sub = FlatView;
    static constexpr bool RANGE = false;
    static void mutate(Super& s, Rng& r)
    {
        switch (r.below(6))
        {
        case 0: s.a = static_cast<std::int8_t>(r.below(100)); break;
        case 1: s.b = static_cast<long>(r.next() >> 8); break;
        case 2: s.e = col_at(r.below(3)); break;
        case 3: s.e2 = col_at(r.below(3)); break;
        case 4: s.bs.flip(r.below(20)); break;
        default:
            s.h += 1;
            s.d += std::chrono::milliseconds(1);
            s.g = !s.g;
            break;
        }
    }
    static u64 digest(const Super& s)
    {
        Hash h;
        h.num(s.a);
        h.num(s.b);
        h.num(s.c);
        h.num(static_cast<u8>(s.e));
        h.num(s.f);
        h.num(s.g);
        h.num(s.h);
        h.num(s.d.count());
        h.num(s.bs.to_ulong());
        h.num(static_cast<u8>(s.e2));
        h.num(s.tail);
        return h.h;
    }
    static void expect(const Super& s, const Sub& v, Want& w)
    {
        w.ptr(v.a, s.a, "a");
        w.ptr(v.c, s.c, "c");
        w.ptr(v.f, s.f, "f");
        w.ptr(v.g, s.g, "g");
        w.ptr(v.h, s.h, "h");
        w.ptr(v.d, s.d, "d");
        w.ptr(v.bs, s.bs, "bs");
        w.ptr(v.tail, s.tail, "tail");
        w.is(v.e == col_name(s.e), "e");
        w.is(v.e2 == col_name(s.e2), "e2");
    }
    static u64 pointers(const Sub& v)
    {
        Hash h;
        h.add(reinterpret_cast<u64>(v.a));
        h.add(reinterpret_cast<u64>(v.c));
        h.add(reinterpret_cast<u64>(v.h));
        h.add(v.e.size());
        h.add(v.e2.size());
        return h.h;
    }
    // a path of the super struct: where its element (i, j) must be
    static constexpr int PATHS = 4;
    static const char* path(int k)
    {
        static const char* p[] = {"a", "h", "bs", "e2"};
        return p[k];
    }
    static const void* where(const Super& s, int k, std::size_t, std::size_t)
    {
        const void* p[] = {&s.a, &s.h, &s.bs, &s.e2};
        return p[k];
    }
    static std::size_t dim(int, std::size_t) { return 0; }
};

// ------------------------------------------------------------------ 2: nested structs, arrays, a matrix
struct Leaf
{
    std::int16_t r1{};
    std::int64_t r2{};
    std::int8_t z{};
};
struct Nest
{
    std::int8_t al{};
    Leaf n1{};
    std::int32_t ig{};
    Leaf n2{};
    std::array<Leaf, 3> arr{};
    std::array<std::array<std::int64_t, 3>, 2> mat{};
    std::array<Col, 2> cols{};
};
struct LeafZ
{
    const std::int8_t* z{};
    const std::int16_t* r1{};
};
struct LeafR
{
    const std::int64_t* r2{};
};
struct NestView
{
    std::array<std::array<const std::int64_t*, 3>, 2> mat{};
    LeafR n2{};
    LeafZ n1{};
    std::array<LeafZ, 3> arr{};
    std::array<std::string_view, 2> cols{};
};
struct P2
{
    using Super = Nest;
    using Sub = NestView;
    static constexpr bool RANGE = true;
    using RangeSub = LeafZ;
    static auto& range(Super& s) { return s.arr; }
    static void expect_at(const Super& s, std::size_t i, const RangeSub& v, Want& w)
    {
        w.ptr(v.z, s.arr[i].z, "arr[].z");
        w.ptr(v.r1, s.arr[i].r1, "arr[].r1");
    }
    static void mutate(Super& s, Rng& r)
    {
        switch (r.below(4))
        {
        case 0: s.n1.r1++; break;
        case 1: s.arr[r.below(3)].r2 = static_cast<long>(r.below(1000)); break;
        case 2: s.cols[r.below(2)] = col_at(r.below(3)); break;
        default: s.mat[r.below(2)][r.below(3)] = static_cast<long>(r.below(1000)); break;
        }
    }
    static u64 digest(const Super& s)
    {
        Hash h;
        h.num(s.al);
        h.num(s.ig);
        for (const Leaf* l : {&s.n1, &s.n2, &s.arr[0], &s.arr[1], &s.arr[2]})
        {
            h.num(l->r1);
            h.num(l->r2);
            h.num(l->z);
        }
        for (auto& row : s.mat)
        {
            for (auto x : row)
            {
                h.num(x);
            }
        }
        h.num(static_cast<u8>(s.cols[0]));
        h.num(static_cast<u8>(s.cols[1]));
        return h.h;
    }
    static void expect(const Super& s, const Sub& v, Want& w)
    {
        w.ptr(v.n2.r2, s.n2.r2, "n2.r2");
        w.ptr(v.n1.z, s.n1.z, "n1.z");
        w.ptr(v.n1.r1, s.n1.r1, "n1.r1");
        for (std::size_t i = 0; i < 3; ++i)
        {
            w.ptr(v.arr[i].z, s.arr[i].z, "arr[].z");
            w.ptr(v.arr[i].r1, s.arr[i].r1, "arr[].r1");
        }
        for (std::size_t i = 0; i < 2; ++i)
        {
            for (std::size_t j = 0; j < 3; ++j)
            {
                w.ptr(v.mat[i][j], s.mat[i][j], "mat[][]");
            }
            const bool named = s.cols[i] == Col::RED || s.cols[i] == Col::GREEN || s.cols[i] == Col::BLUE;
            w.is(v.cols[i] == (named ? col_name(s.cols[i]) : std::string_view{}), "cols[]");
        }
    }
    static u64 pointers(const Sub& v)
    {
        Hash h;
        h.add(reinterpret_cast<u64>(v.n2.r2));
        for (auto& l : v.arr)
        {
            h.add(reinterpret_cast<u64>(l.z));
        }
        for (auto& row : v.mat)
        {
            for (auto x : row)
            {
                h.add(reinterpret_cast<u64>(x));
            }
        }
        h.add(v.cols[0].size() * 8 + v.cols[1].size());
        return h.h;
    }
    static constexpr int PATHS = 5;
    static const char* path(int k)
    {
        static const char* p[] = {"n2.r2", "arr.data[:].z", "mat.data[:].data[:]", "mat.data[:]", "n1"};
        return p[k];
    }
    static const void* where(const Super& s, int k, std::size_t i, std::size_t j)
    {
        switch (k)
        {
        case 0: return &s.n2.r2;
        case 1: return &s.arr[i].z;
        case 2: return &s.mat[i][j];
        case 3: return &s.mat[i];
        default: return nullptr;  // a struct has no properties of its own
        }
    }
    static std::size_t dim(int k, std::size_t d)
    {
        static constexpr std::size_t dims[5][2] = {{0, 0}, {3, 0}, {2, 3}, {2, 0}, {0, 0}};
        return dims[k][d];
    }
};

// ------------------------------------------------------------------ 3: resizable and optional parts, nested
struct Item
{
    std::int32_t x{};
    fc::FixedVector<std::int64_t, 3> vec{};
    std::optional<std::int32_t> o{};
};
struct Dyn
{
    std::int8_t al{};
    fc::FixedVector<std::int32_t, 4> v{};
    fc::FixedVector<Item, 3> vv{};
    std::optional<std::int64_t> o{};
    std::optional<std::optional<std::int32_t>> oo{};
    std::optional<Leaf> os{};
    std::array<fc::FixedVector<std::int16_t, 2>, 2> av{};
    std::optional<fc::FixedVector<std::int32_t, 2>> ov{};
    fc::FixedVector<std::optional<std::int64_t>, 3> vo{};
    fc::FixedVector<Leaf, 4> pts{};
    Col e{Col::BLUE};
};
struct ItemView
{
    std::optional<const std::int32_t*> o{};
    fc::FixedVector<const std::int64_t*, 3> vec{};
    const std::int32_t* x{};
};
struct DynView
{
    fc::FixedVector<std::optional<const std::int64_t*>, 3> vo{};
    std::optional<std::optional<const std::int32_t*>> oo{};
    fc::FixedVector<ItemView, 5> vv{};  // more room than the super struct has
    std::array<fc::FixedVector<const std::int16_t*, 3>, 2> av{};
    std::optional<fc::FixedVector<const std::int32_t*, 2>> ov{};
    fc::FixedVector<const std::int32_t*, 4> v{};
    std::optional<LeafZ> os{};
    std::optional<const std::int64_t*> o{};
    std::string_view e{};
};
struct P3
{
    using Super = Dyn;
    using Sub = DynView;
    static constexpr bool RANGE = true;
    using RangeSub = LeafZ;
    static auto& range(Super& s) { return s.pts; }
    static void expect_at(const Super& s, std::size_t i, const RangeSub& v, Want& w)
    {
        w.ptr(v.z, s.pts[i].z, "pts[].z");
        w.ptr(v.r1, s.pts[i].r1, "pts[].r1");
    }
    static void mutate(Super& s, Rng& r)
    {
        const int x = static_cast<int>(r.below(1000));
        switch (r.below(14))
        {
        case 0: s.v.resize(r.below(5), x); break;
        case 1: s.vv.resize(r.below(4)); break;
        case 2:
        case 3:
            for (auto& it : s.vv)
            {
                it.x = x;
                it.vec.resize(r.below(4), x);
                if (r.below(2) != 0)
                {
                    it.o = x;
                }
                else
                {
                    it.o.reset();
                }
            }
            break;
        case 4: s.o = x; break;
        case 5: s.o.reset(); break;
        case 6: s.oo = std::optional<std::int32_t>(x); break;
        case 7:
            if (r.below(2) != 0)
            {
                s.oo.reset();
            }
            else
            {
                s.oo = std::optional<std::optional<std::int32_t>>(std::in_place);
            }
            break;
        case 8:
            if (s.os.has_value())
            {
                s.os.reset();
            }
            else
            {
                s.os.emplace();
            }
            break;
        case 9: s.av[r.below(2)].resize(r.below(3)); break;
        case 10:
            if (r.below(3) == 0)
            {
                s.ov.reset();
            }
            else
            {
                s.ov.emplace(r.below(3), x);
            }
            break;
        case 11:
            s.vo.resize(r.below(4));
            for (auto& q : s.vo)
            {
                if (r.below(2) != 0)
                {
                    q = x;
                }
                else
                {
                    q.reset();
                }
            }
            break;
        case 12: s.pts.resize(r.below(5)); break;
        default:
            s.e = col_at(r.below(3));
            if (!s.vv.empty())
            {
                s.vv.erase(s.vv.begin());
            }
            break;
        }
    }
    static u64 digest(const Super& s)
    {
        Hash h;
        h.num(s.al);
        h.num(s.v.size());
        for (auto x : s.v)
        {
            h.num(x);
        }
        h.num(s.vv.size());
        for (auto& it : s.vv)
        {
            h.num(it.x);
            h.num(it.vec.size());
            for (auto x : it.vec)
            {
                h.num(x);
            }
            h.num(it.o.has_value() ? *it.o : -5);
        }
        h.num(s.o.has_value() ? *s.o : -5);
        h.num(!s.oo.has_value() ? -6 : s.oo->has_value() ? **s.oo : -5);
        h.num(s.os.has_value() ? s.os->r2 + 1 : -5);
        for (auto& q : s.av)
        {
            h.num(q.size());
        }
        h.num(s.ov.has_value() ? static_cast<long>(s.ov->size()) : -1);
        h.num(s.vo.size());
        for (auto& q : s.vo)
        {
            h.num(q.has_value() ? *q : -5);
        }
        h.num(s.pts.size());
        h.num(static_cast<u8>(s.e));
        return h.h;
    }
    template <class O, class VO>
    static void opt(const O& o, const VO& v, Want& w, const char* what)
    {
        w.is(o.has_value() == v.has_value(), what);
        if (o.has_value() && v.has_value())
        {
            w.ptr(*v, *o, what);
        }
    }
    template <class A, class B>
    static void vec(const A& a, const B& b, Want& w, const char* what)
    {
        w.is(a.size() == b.size(), what);
        for (std::size_t i = 0; i < a.size() && i < b.size(); ++i)
        {
            w.ptr(b[i], a[i], what);
        }
    }
    static void expect(const Super& s, const Sub& v, Want& w)
    {
        vec(s.v, v.v, w, "v");
        w.is(s.vv.size() == v.vv.size(), "vv");
        for (std::size_t i = 0; i < s.vv.size() && i < v.vv.size(); ++i)
        {
            w.ptr(v.vv[i].x, s.vv[i].x, "vv[].x");
            vec(s.vv[i].vec, v.vv[i].vec, w, "vv[].vec");
            opt(s.vv[i].o, v.vv[i].o, w, "vv[].o");
        }
        opt(s.o, v.o, w, "o");
        w.is(s.oo.has_value() == v.oo.has_value(), "oo");
        if (s.oo.has_value() && v.oo.has_value())
        {
            opt(*s.oo, *v.oo, w, "oo.value()");
        }
        w.is(s.os.has_value() == v.os.has_value(), "os");
        if (s.os.has_value() && v.os.has_value())
        {
            w.ptr(v.os->z, s.os->z, "os.value().z");
            w.ptr(v.os->r1, s.os->r1, "os.value().r1");
        }
        for (std::size_t i = 0; i < 2; ++i)
        {
            vec(s.av[i], v.av[i], w, "av[]");
        }
        w.is(s.ov.has_value() == v.ov.has_value(), "ov");
        if (s.ov.has_value() && v.ov.has_value())
        {
            vec(*s.ov, *v.ov, w, "ov.value()");
        }
        w.is(s.vo.size() == v.vo.size(), "vo");
        for (std::size_t i = 0; i < s.vo.size() && i < v.vo.size(); ++i)
        {
            opt(s.vo[i], v.vo[i], w, "vo[]");
        }
        w.is(v.e == col_name(s.e), "e");
    }
    static u64 pointers(const Sub& v)
    {
        Hash h;
        h.add(v.v.size());
        for (auto x : v.v)
        {
            h.add(reinterpret_cast<u64>(x));
        }
        h.add(v.vv.size());
        for (auto& it : v.vv)
        {
            h.add(reinterpret_cast<u64>(it.x));
            h.add(it.vec.size());
            for (auto x : it.vec)
            {
                h.add(reinterpret_cast<u64>(x));
            }
            h.add(it.o.has_value() ? reinterpret_cast<u64>(*it.o) : 5u);
        }
        h.add(v.o.has_value() ? reinterpret_cast<u64>(*v.o) : 5u);
        h.add(v.vo.size());
        h.add(v.e.size());
        return h.h;
    }
    static constexpr int PATHS = 7;
    static const char* path(int k)
    {
        static const char* p[] = {"v.data[:]", "vv.data[:].vec.data[:]", "vv.data[:].vec", "vv.data[:].o",
                                  "o",         "av.data[:].data[:]",     "e"};
        return p[k];
    }
    static const void* where(const Super& s, int k, std::size_t i, std::size_t j)
    {
        // offsets into storage, whether or not an element is there
        const char* base = reinterpret_cast<const char*>(&s);
        const auto off = [&](const void* p) { return static_cast<std::size_t>(static_cast<const char*>(p) - base); };
        static const Super ref = []
        {
            Super r{};
            r.vv.resize(1);
            return r;
        }();
        const char* rb = reinterpret_cast<const char*>(&ref);
        const auto roff = [&](const void* p) { return static_cast<std::size_t>(static_cast<const char*>(p) - rb); };
        switch (k)
        {
        case 0: return base + off(s.v.data()) + i * sizeof(std::int32_t);
        case 1: return base + roff(ref.vv[0].vec.data()) + i * sizeof(Item) + j * sizeof(std::int64_t);
        case 2: return base + roff(&ref.vv[0].vec) + i * sizeof(Item);
        case 3: return base + roff(&ref.vv[0].o) + i * sizeof(Item);
        case 4: return &s.o;
        case 5: return base + off(s.av[i].data()) + j * sizeof(std::int16_t);
        default: return &s.e;
        }
    }
    static std::size_t dim(int k, std::size_t d)
    {
        static constexpr std::size_t dims[7][2] = {{4, 0}, {3, 3}, {3, 0}, {3, 0}, {0, 0}, {2, 2}, {0, 0}};
        return dims[k][d];
    }
};
// ------------------------------------------------------------------ 4: large offsets, five dimensions, deep nesting
struct DeepLeaf
{
    std::int8_t pad{};
    std::int16_t x{};
};
struct D3
{
    std::int8_t pad{};
    DeepLeaf d{};
};
struct D2
{
    std::int32_t pad{};
    D3 c{};
};
struct D1
{
    std::int8_t pad{};
    D2 b{};
};
template <class T>
inline constexpr bool is_arr = false;
template <class T, std::size_t N>
inline constexpr bool is_arr<std::array<T, N>> = true;
template <class T>
using Cube = std::array<std::array<std::array<std::array<std::array<T, 2>, 1>, 2>, 1>, 2>;
struct Big
{
    std::int8_t first{};
    std::bitset<300000> gap{};
    std::array<D1, 3> da{};
    std::bitset<300000> gap2{};
    Cube<std::int16_t> cube{};
    Cube<fc::FixedVector<std::int8_t, 2>>::value_type vecs{};
    D1 deep{};
    std::int64_t last{};
};
struct DeepLeafV
{
    const std::int16_t* x{};
};
struct D3V
{
    DeepLeafV d{};
};
struct D2V
{
    D3V c{};
};
struct D1V
{
    D2V b{};
};
struct BigView
{
    const std::int64_t* last{};
    D1V deep{};
    Cube<const std::int16_t*> cube{};
    Cube<fc::FixedVector<const std::int8_t*, 2>>::value_type vecs{};
    std::array<D1V, 3> da{};
    const std::int8_t* first{};
};
struct P4
{
    using Super = Big;
    using Sub = BigView;
    static constexpr bool RANGE = false;
    template <class C, class F>
    static void each(C& c, F f)  // every innermost element of a nest of arrays
    {
        for (auto& x : c)
        {
            if constexpr (is_arr<std::remove_cvref_t<decltype(x)>>)
            {
                each(x, f);
            }
            else
            {
                f(x);
            }
        }
    }
    static void mutate(Super& s, Rng& r)
    {
        const auto x = static_cast<std::int16_t>(r.below(1000));
        switch (r.below(5))
        {
        case 0: s.first++; break;
        case 1: s.last += x; break;
        case 2: s.da[r.below(3)].b.c.d.x = x; break;
        case 3:
            s.cube[r.below(2)][0][r.below(2)][0][r.below(2)] = x;
            s.deep.b.c.d.x = x;
            break;
        default: s.vecs[0][r.below(2)][0][r.below(2)].resize(r.below(3), static_cast<std::int8_t>(x & 63)); break;
        }
    }
    static u64 digest(const Super& s)
    {
        Hash h;
        h.num(s.first);
        h.num(s.last);
        h.num(s.deep.b.c.d.x);
        for (auto& d : s.da)
        {
            h.num(d.b.c.d.x);
        }
        each(s.cube, [&](auto& x) { h.num(x); });
        each(s.vecs,
             [&](auto& v)
             {
                 h.num(v.size());
                 for (auto x : v)
                 {
                     h.num(x);
                 }
             });
        return h.h;
    }
    static void expect(const Super& s, const Sub& v, Want& w)
    {
        w.ptr(v.last, s.last, "last");
        w.ptr(v.first, s.first, "first");
        w.ptr(v.deep.b.c.d.x, s.deep.b.c.d.x, "deep.b.c.d.x");
        for (std::size_t i = 0; i < 3; ++i)
        {
            w.ptr(v.da[i].b.c.d.x, s.da[i].b.c.d.x, "da[].b.c.d.x");
        }
        for (std::size_t a = 0; a < 2; ++a)
        {
            for (std::size_t b = 0; b < 1; ++b)
            {
                for (std::size_t c = 0; c < 2; ++c)
                {
                    for (std::size_t e = 0; e < 2; ++e)
                    {
                        w.ptr(v.cube[a][b][c][0][e], s.cube[a][b][c][0][e], "cube[][][][][]");
                    }
                }
            }
        }
        for (std::size_t b = 0; b < 1; ++b)
        {
            for (std::size_t c = 0; c < 2; ++c)
            {
                for (std::size_t e = 0; e < 2; ++e)
                {
                    const auto& sv_ = s.vecs[b][c][0][e];
                    const auto& vv = v.vecs[b][c][0][e];
                    w.is(vv.size() == sv_.size(), "vecs[][][][].size()");
                    for (std::size_t i = 0; i < sv_.size() && i < vv.size(); ++i)
                    {
                        w.ptr(vv[i], sv_[i], "vecs[][][][][]");
                    }
                }
            }
        }
    }
    static u64 pointers(const Sub& v)
    {
        Hash h;
        h.add(reinterpret_cast<u64>(v.last));
        h.add(reinterpret_cast<u64>(v.first));
        h.add(reinterpret_cast<u64>(v.deep.b.c.d.x));
        each(v.cube, [&](auto& x) { h.add(reinterpret_cast<u64>(x)); });
        each(v.vecs,
             [&](auto& l)
             {
                 h.num(l.size());
                 for (auto x : l)
                 {
                     h.add(reinterpret_cast<u64>(x));
                 }
             });
        return h.h;
    }
    static constexpr int PATHS = 6;
    static const char* path(int k)
    {
        static const char* p[] = {"last", "da.data[:].b.c.d.x", "deep.b.c.d.x", "cube.data[:].data[:]", "gap2", "deep.b"};
        return p[k];
    }
    static const void* where(const Super& s, int k, std::size_t i, std::size_t j)
    {
        switch (k)
        {
        case 0: return &s.last;
        case 1: return &s.da[i].b.c.d.x;
        case 2: return &s.deep.b.c.d.x;
        case 3: return &s.cube[i][j];
        case 4: return &s.gap2;
        default: return nullptr;
        }
    }
    static std::size_t dim(int k, std::size_t d)
    {
        static constexpr std::size_t dims[6][2] = {{0, 0}, {3, 0}, {0, 0}, {2, 1}, {0, 0}, {0, 0}};
        return dims[k][d];
    }
};

}  // namespace sv

#define SV_OPS(X)                                          \
    X(mutate, 14, OF_S1_W)                                 \
    X(view, 12, OF_S1_R | OF_S2_W | OF_VIEW)               \
    X(view_fresh, 4, OF_S1_R | OF_S2_W | OF_VIEW)          \
    X(view_filtered, 3, OF_S1_R | OF_S2_W | OF_VIEW)       \
    X(rebuild, 3, OF_S1_W)                                 \
    X(visit, 4, OF_S1_R)                                   \
    X(field, 6, OF_S1_R)                                   \
    X(add_paths, 3, OF_S1_W)                               \
    X(range, 5, OF_S1_R)                                   \
    X(bad_range, 2, OF_S1_R | OF_REJ)                      \
    X(bad_sub, 2, OF_S1_R | OF_REJ)                        \
    X(relocate, 4, OF_S1_W | OF_RELOC)

enum SvOp
{
#define X(n, w, f) SVK_##n,
    SV_OPS(X)
#undef X
        SVK_COUNT
};
inline constexpr OpInfo SV_INFO[] = {
#define X(n, w, f) OpInfo{#n, w, f},
    SV_OPS(X)
#undef X
};

template <class P>
struct SvDriver : Driver
{
    using Super = typename P::Super;
    using Sub = typename P::Sub;
    struct Both
    {
        Super sup{};
        Sub sub{};
    };
    using View = sv::fsv::StructView<>;
    static_assert(std::is_trivially_copyable_v<Super>);
    struct St
    {
        Slot<Both> s;
        u64 dg = 0;   // the super struct's logical content
        u64 pts = 0;  // what the sub struct points at
    };
    St st[NSLOTS];
    u32 opno = 0;

    static const View& super_view()
    {
        static const View* v = [] { return new View(Super{}); }();
        return *v;
    }
    static const View& sub_view()
    {
        static const View* v = [] { return new View(Sub{}); }();
        return *v;
    }
    static View& scratch()
    {
        static View* v = new View();
        return *v;
    }
    static View& scratch2()
    {
        static View* v = new View();
        return *v;
    }

    explicit SvDriver(const Knobs&)
    {
        W.abort_policy = true;
        W.k.alloc_fail = 0;  // views are built of std::function and std::any
        super_view();
        sub_view();
        scratch();
        scratch2();
        for (int i = 0; i < NSLOTS; ++i)
        {
            st[i].s.id = i;
        }
    }

    void check(int slot, const char* cls = "content")
    {
        St& S = st[slot];
        S.s.check_canary();
        if (P::digest(S.s->sup) != S.dg)
        {
            fail(cls, "the super struct changed although nothing wrote to it");
        }
        if (P::pointers(S.s->sub) != S.pts)
        {
            fail(cls, "the sub struct changed although it was not viewed again");
        }
        tr(S.dg);
    }
    void others()
    {
        if (++opno % 3 != 0)
        {
            return;
        }
        for (int i = 0; i < NSLOTS; ++i)
        {
            if (!slot_busy(i))
            {
                check(i, "isolation");
            }
        }
    }
    void start() override
    {
        for (int i = 0; i < NSLOTS; ++i)
        {
            St& S = st[i];
            S.s.prepare();
            ::new (static_cast<void*>(S.s.base())) Both;
            S.s.live = true;
            S.dg = P::digest(S.s->sup);
            S.pts = P::pointers(S.s->sub);
        }
    }
    void finish() override
    {
        for (int i = 0; i < NSLOTS; ++i)
        {
            check(i, "isolation");
        }
    }
    void after_abandon(const Op& op, int reason) override
    {
        if (!slot_busy(op.slot))
        {
            check(op.slot, reason == A_REJECT ? "reject-effect" : "isolation");
        }
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + 5));
    }
    void exec(const Op& op) override
    {
        do_exec(op);
        cover(mix64(W.k.scenario * 1000003u + op.kind * 131u + st[op.slot].dg % 512));
        others();
    }
    void viewed(int sup, int sub, const char* what)
    {
        sv::Want w;
        P::expect(st[sup].s->sup, st[sub].s->sub, w);
        if (w.bad != nullptr)
        {
            fail("content", "after %s, %s does not reflect the super struct", what, w.bad);
        }
        st[sub].pts = P::pointers(st[sub].s->sub);
        check(sup);
        check(sub);
    }
    static sv::fsv::Indices indices(std::size_t n, std::size_t i, std::size_t j)
    {
        sv::fsv::Indices ix;
        if (n > 0)
        {
            ix.push_back(i);
        }
        if (n > 1)
        {
            ix.push_back(j);
        }
        return ix;
    }

    void do_exec(const Op& op)
    {
        const int slot = op.slot;
        const int slot2 = op.slot2;
        St& S = st[slot];
        St& D = st[slot2];
        switch (op.kind)
        {
        case SVK_mutate:
        {
            Rng r(op.a);
            const u32 k = 1 + r.below(4);
            lib(
                [&]
                {
                    for (u32 i = 0; i < k; ++i)
                    {
                        P::mutate(S.s->sup, r);
                    }
                });
            S.dg = P::digest(S.s->sup);
            break;
        }
        case SVK_view_fresh:  // the sub struct starts over, on memory with arbitrary content
            if (slot == slot2)
            {
                return;
            }
            fill_garbage(&D.s->sub, sizeof(Sub));
            ::new (static_cast<void*>(&D.s->sub)) Sub{};
            [[fallthrough]];
        case SVK_view:
            lib([&] { sv::fsv::sub_struct_view_of(S.s->sup, super_view(), sv::fc::out<Sub>{D.s->sub}, sub_view()); });
            viewed(slot, slot2, "sub_struct_view_of");
            break;
        case SVK_view_filtered:
        {
            // the super struct's view restricted to the sub struct's paths, built from the objects as they are
            View& v = scratch();
            lib([&] { v = View(S.s->sup, D.s->sub); });
            check(slot);
            lib([&] { sv::fsv::sub_struct_view_of(S.s->sup, v, sv::fc::out<Sub>{D.s->sub}, sub_view()); });
            viewed(slot, slot2, "sub_struct_view_of over a filtered view");
            break;
        }
        case SVK_rebuild:  // what a view says of a type does not depend on the instance it was made from
        {
            View& v = scratch();
            lib([&] { v = View(S.s->sup); });
            check(slot);
            same_map(v, super_view());
            break;
        }
        case SVK_visit:
        {
            std::size_t count = 0;
            std::size_t want = 0;
            const char* base = reinterpret_cast<const char*>(&S.s->sup);
            lib(
                [&]
                {
                    sv::fsv::for_each_field(
                        super_view(),
                        &S.s->sup,
                        [&](const auto& path, const auto& props, const auto& ix, void* field)
                        {
                            on_event(Ev::Pred, false);
                            ++count;
                            if (props.offset.dim != ix.size())
                            {
                                fail("content", "%zu indices for a path of dimension %zu", ix.size(), props.offset.dim);
                            }
                            std::size_t off = props.offset.base_offset;
                            for (std::size_t d = 0; d < ix.size(); ++d)
                            {
                                off += ix[d] * props.offset.strides[d];
                                if (ix[d] >= props.offset.capacity[d])
                                {
                                    fail("content", "an index past the capacity is visited");
                                }
                            }
                            if (field != base + off || off >= sizeof(Super) || path.empty())
                            {
                                fail("content", "a field is visited at the wrong place");
                            }
                        });
                });
            for (const auto& [path, props] : super_view().get_path_map_ref())
            {
                std::size_t k = 1;
                for (std::size_t d = 0; d < props.offset.dim; ++d)
                {
                    k *= props.offset.capacity[d];
                }
                want += k;
            }
            if (count != want)
            {
                fail("content", "for_each_field visits %zu of %zu fields", count, want);
            }
            break;
        }
        case SVK_field:
        {
            const int k = static_cast<int>(op.a % P::PATHS);
            const std::size_t i = P::dim(k, 0) == 0 ? 0 : op.b % P::dim(k, 0);
            const std::size_t j = P::dim(k, 1) == 0 ? 0 : op.c % P::dim(k, 1);
            const std::size_t n = P::dim(k, 1) != 0 ? 2 : P::dim(k, 0) != 0 ? 1 : 0;
            const void* want = P::where(S.s->sup, k, i, j);
            const void* got = nullptr;
            bool has = false;
            lib(
                [&]
                {
                    const auto path = sv::fsv::path_from_string(P::path(k));
                    has = super_view().contains(path);
                    if (has)
                    {
                        got = super_view().get_field(&S.s->sup, path, indices(n, i, j));
                    }
                });
            if (has != (want != nullptr) || got != want)
            {
                fail("content", "get_field(%s) does not designate the field", P::path(k));
            }
            if (has)
            {
                const auto props = super_view().at(sv::fsv::path_from_string(P::path(k)));
                if (props.offset.dim != n || (n > 0 && props.offset.capacity[0] != P::dim(k, 0)) ||
                    (n > 1 && props.offset.capacity[1] != P::dim(k, 1)))
                {
                    fail("content", "the dimensions of %s are wrong", P::path(k));
                }
            }
            break;
        }
        case SVK_add_paths:
        {
            View& v = scratch();
            View& w = scratch2();
            v = View();
            const int k = static_cast<int>(op.a % P::PATHS);
            const auto path = sv::fsv::path_from_string(P::path(k));
            const bool known = P::where(S.s->sup, k, 0, 0) != nullptr;
            bool a = false;
            bool b = true;
            bool c = false;
            bool d = true;
            lib(
                [&]
                {
                    a = v.try_add_path(S.s->sup, path);
                    b = v.template try_add_path<Super>(sv::fsv::path_from_string("no_such_field"));
                    sv::fsv::PathSet<> set{};
                    set.insert(sv::fsv::path_from_string(P::path(0)));
                    set.insert(sv::fsv::path_from_string(P::path(1)));
                    w = View();
                    c = op.b % 2 == 0 ? w.try_add_paths(S.s->sup, set) : w.template try_add_paths<Super>(set);
                    set.insert(sv::fsv::path_from_string("nor.this"));
                    d = v.try_add_paths(S.s->sup, set);
                });
            if (!c || d)
            {
                fail("content", "try_add_paths reports %d for existing paths, %d for a set with an unknown one", c, d);
            }
            for (int q = 0; q < P::PATHS; ++q)
            {
                const auto pq = sv::fsv::path_from_string(P::path(q));
                if (w.contains(pq) != (q < 2) || v.contains(pq) != (known && q == k))
                {
                    fail("content", "a view holds other paths than the ones added (%s)", P::path(q));
                }
            }
            check(slot);
            if (a != known || b)
            {
                fail("content", "try_add_path(%s) reports %d and a path that does not exist %d", P::path(k), a, b);
            }
            if (known)
            {
                const auto got = v.at(path);
                const auto want = super_view().at(path);
                if (!(got.offset == want.offset) || got.metadata.metadata_type != want.metadata.metadata_type)
                {
                    fail("content", "try_add_path(%s) records something else", P::path(k));
                }
            }
            break;
        }
        case SVK_range:
        case SVK_bad_range:
            if constexpr (P::RANGE)
            {
                using R = sv::fsv::ContiguousRangeSubStructView<typename P::RangeSub>;
                static R* rp = new R();
                R& rv = *rp;
                auto& rng = P::range(S.s->sup);
                if (rng.size() == 0)
                {
                    return;
                }
                lib([&] { rv = R(rng); });
                check(slot);
                if (op.kind == SVK_bad_range)
                {
                    if (rejects_stripped())
                    {
                        return;
                    }
                    expect(R_ABORT);
                    lib([&] { tr(rv.at(rng.size() + op.b % 3).z != nullptr); });
                    return;
                }
                if (rv.size() != rng.size())
                {
                    fail("content", "the range view has size %zu, the range %zu", rv.size(), rng.size());
                }
                sv::Want w;
                lib(
                    [&]
                    {
                        std::size_t i = 0;
                        for (auto&& e : rv)
                        {
                            P::expect_at(S.s->sup, i, e, w);
                            P::expect_at(S.s->sup, i, rv.at(i), w);
                            ++i;
                        }
                        w.is(i == rng.size(), "the number of elements");
                        iter_walk(rv.begin(), rv.end(), rv.cbegin(), rv.cend(), rng.size(), op.c, "range view iterator",
                                  [&](const auto& it, std::size_t i2)
                                  {
                                      sv::Want w2;
                                      P::expect_at(S.s->sup, i2, *it, w2);
                                      return w2.bad == nullptr && it->z == (*it).z;
                                  });
                    });
                if (w.bad != nullptr)
                {
                    fail("content", "the range view's %s does not reflect the range", w.bad);
                }
            }
            break;
        case SVK_bad_sub:  // a sub struct that asks for another type, or for a field that does not exist
            if constexpr (requires { typename P::WrongType; })
            {
                if (rejects_stripped())
                {
                    return;
                }
                const auto attempt = [&](auto sub)
                {
                    using X = decltype(sub);
                    static const View* xv = new View(X{});
                    expect(R_ABORT);
                    lib([&] { sv::fsv::sub_struct_view_of(S.s->sup, super_view(), sv::fc::out<X>{sub}, *xv); });
                };
                if (op.b % 2 == 0)
                {
                    attempt(typename P::WrongType{});
                }
                else
                {
                    attempt(typename P::NoField{});
                }
            }
            return;
        case SVK_relocate:
            S.s.relocate();
            check(slot, "image");
            lib([&] { sv::fsv::sub_struct_view_of(S.s->sup, super_view(), sv::fc::out<Sub>{S.s->sub}, sub_view()); });
            viewed(slot, slot, "relocation and sub_struct_view_of");
            return;
        default: return;
        }
    }
    static void same_map(const View& a, const View& b)
    {
        if (a.get_path_map_ref().size() != b.get_path_map_ref().size())
        {
            fail("content", "a view built from this instance has %zu paths instead of %zu", a.get_path_map_ref().size(),
                 b.get_path_map_ref().size());
        }
        for (const auto& [path, props] : a.get_path_map_ref())
        {
            if (!b.contains(path))
            {
                fail("content", "a view built from this instance has a path of its own");
            }
            const auto other = b.at(path);
            if (!(other.offset == props.offset) || other.metadata.metadata_type != props.metadata.metadata_type ||
                other.metadata.detail_type != props.metadata.detail_type)
            {
                fail("content", "a view built from this instance places a field differently");
            }
        }
    }
};

template <class P>
Driver* make_sview(const Knobs& k)
{
    return new SvDriver<P>(k);
}
}  // namespace sim

#define SV_SCENARIO(ID, PAIR)                                                                                        \
    static ::sim::RegisterScenario reg_##ID(                                                                         \
        ::sim::Scenario{#ID, "sview", ::sim::SV_INFO, ::sim::SVK_COUNT, 4, &::sim::make_sview<::sim::sv::PAIR>, 0u});
