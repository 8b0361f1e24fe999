// Families of variants. FAM selects one; each defines
//   V        the variant type
//   Types    TL<content types>  (position i has tag i+1)
//   COPYABLE 1 if all bounded types are copyable
//   BLANK_AT position of boost::blank, or -1
#ifndef FAM_H
#define FAM_H
#include "sx.h"
#include <boost/variant.hpp>
#include <boost/variant/recursive_wrapper.hpp>

#ifndef FAM
#define FAM 1
#endif
using namespace sx;
#define COPYABLE 1
#define BLANK_AT -1

#if FAM == 1      // everything nothrow
typedef E<1, ALLN> T1; typedef E<2, ALLN, 20> T2; typedef E<3, ALLN, 1> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 2    // everything may throw, no default constructors: heap backup
typedef N<1> T1; typedef N<2, 0, 12> T2; typedef C<3> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 3    // blank present
#undef BLANK_AT
#define BLANK_AT 1
typedef N<1> T1; typedef boost::blank T2; typedef C<3, 0, 12> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 4    // a nothrow-default-constructible alternative in the middle
typedef N<1> T1; typedef E<2, DN, 12> T2; typedef N<3> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 5    // throwing copy, nothrow move
typedef N<1, MN | BN> T1; typedef N<2, MN | BN, 12> T2; typedef N<3, MN> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 6    // mixed, no fallback type
typedef N<1, CN | MN | AN | BN> T1; typedef N<2, 0, 12> T2; typedef N<3, MN | BN> T3; typedef C<4, CN> T4;
typedef TL<T1, T2, T3, T4> Types; typedef boost::variant<T1, T2, T3, T4> V;
#elif FAM == 7    // move only, may throw; the library needs a fallback type for these
#undef COPYABLE
#define COPYABLE 0
typedef M<1> T1; typedef M<2, MN | BN, 12> T2; typedef MD<3, DN> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 8    // nothrow copy, throwing move
typedef N<1, CN | AN> T1; typedef N<2, CN | AN, 12> T2; typedef N<3> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 9    // copy only
typedef C<1> T1; typedef C<2, CN | AN, 12> T2; typedef CD<3> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 10   // recursive wrappers
typedef N<1> T1; typedef N<2, 0, 12> T2; typedef C<3> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<boost::recursive_wrapper<T1>, T2, boost::recursive_wrapper<T3> > V;
#elif FAM == 11   // blank and another nothrow-default type: blank is preferred
#undef BLANK_AT
#define BLANK_AT 2
typedef E<1, DN> T1; typedef N<2, 0, 12> T2; typedef boost::blank T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 12   // throwing default constructor only: not a fallback
typedef E<1> T1; typedef E<2, MN, 12> T2; typedef CD<3> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 13   // recursive wrappers with a fallback
typedef N<1> T1; typedef E<2, DN, 12> T2; typedef C<3> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<boost::recursive_wrapper<T1>, T2, boost::recursive_wrapper<T3> > V;
#elif FAM == 14   // move only, nothrow
#undef COPYABLE
#define COPYABLE 0
typedef M<1, MN | BN> T1; typedef M<2, MN | BN, 12> T2; typedef MD<3, MN | BN | DN> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 15   // move only with blank, throwing
#undef COPYABLE
#define COPYABLE 0
#undef BLANK_AT
#define BLANK_AT 0
typedef boost::blank T1; typedef M<2, 0, 12> T2; typedef MD<3> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 16   // single alternative
typedef N<1> T1;
typedef TL<T1> Types; typedef boost::variant<T1> V;
#elif FAM == 17   // strongly aligned and odd-sized content
typedef N<1, 0, 1, 8> T1; typedef N<2, CN | MN | AN | BN, 40, 64> T2; typedef C<3, 0, 3, 16> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 18   // two alternatives
typedef N<1> T1; typedef C<2, 0, 12> T2;
typedef TL<T1, T2> Types; typedef boost::variant<T1, boost::recursive_wrapper<T2> > V;
#elif FAM == 19   // contents smaller than a pointer, heap backup
typedef Sm<1> T1; typedef Sm<2> T2; typedef Sm<3, MN | BN> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 20   // contents that overload operator&
typedef Ov<1> T1; typedef Ov<2, 0, 12> T2; typedef Ov<3, MN | BN> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 21   // a built-in type is the fallback
#define SCALARS (1 << 2)
typedef N<1> T1; typedef uint32_t T2; typedef C<3, 0, 12> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 22   // built-in types of several sizes
#define SCALARS (1 << 1 | 1 << 2 | 1 << 3 | 1 << 4)
enum Wide : uint64_t { wide0 };
typedef uint32_t T1; typedef char* T2; typedef Wide T3; typedef unsigned short T4;
typedef TL<T1, T2, T3, T4> Types; typedef boost::variant<T1, T2, T3, T4> V;
#elif FAM == 23   // a large, a polymorphic and a final class
typedef N<1, 0, 300> T1; typedef Po<2> T2; typedef Fi<3, MN | BN, 12> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 25   // recursive wrappers of nothrow-movable classes
typedef N<1, MN | BN> T1; typedef N<2, MN | BN, 12> T2; typedef E<3, ALLN> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<boost::recursive_wrapper<T1>, T2, boost::recursive_wrapper<T3> > V;
#elif FAM == 24   // trivial classes of several sizes, and one that throws
#define SCALARS (1 << 1 | 1 << 3)
template <int ID, int W> struct Pod { uint32_t w[W]; };
template <int I, int W> inline bool operator==(Pod<I, W> const& a, Pod<I, W> const& b) { return a.w[0] == b.w[0]; }
template <int I, int W> inline bool operator<(Pod<I, W> const& a, Pod<I, W> const& b) { return a.w[0] < b.w[0]; }
template <int I, int W> inline std::size_t hash_value(Pod<I, W> const& a) { return a.w[0]; }
typedef Pod<1, 3> T1; typedef N<2> T2; typedef Pod<3, 18> T3;
typedef TL<T1, T2, T3> Types; typedef boost::variant<T1, T2, T3> V;
#elif FAM == 26   // contents with a swap of their own
typedef Sw<1, SN> T1; typedef Sw<2, SN | MN | BN, 12> T2; typedef Sw<3> T3; typedef Sw<4, SN> T4;
typedef TL<T1, T2, T3, T4> Types; typedef boost::variant<T1, T2, T3, boost::recursive_wrapper<T4> > V;
#else
#error FAM
#endif
#ifndef SCALARS
#define SCALARS 0
#endif
inline bool scalar_id(int id) { return (SCALARS >> id) & 1; }
inline uint32_t default_of(int id) { return scalar_id(id) ? 0 : def_val(id); }

enum { NT = len<Types>::value };
template <int I> struct TypeAt { typedef typename at<Types, I>::type type; };

namespace sx {
template <> struct Info<boost::blank, false> {
    static int id() { return BLANK_AT + 1; }
    static uint32_t val(boost::blank const&) { return 0; }
    static bool live(boost::blank const&) { return true; }
    static boost::blank make(uint32_t) { return boost::blank(); }
};
}

#if SCALARS
namespace sx {
// built-in contents: the value fills the whole object
template <class T> struct ScalarInfo {
    static int id() { return FAM == 21 ? 2 : sizeof(T) == 4 ? 1 : sizeof(T) == 2 ? 4 : std::is_pointer<T>::value ? 2 : 3; }
    static uint64_t raw(T t) { return (uint64_t)t; }
    static uint32_t val(T const& t) {
        uint64_t r = (uint64_t)t;
        if (sizeof(T) == 8) sx_assert((uint32_t)r == (uint32_t)(r >> 32), "the whole value is there");
        return (uint32_t)r;
    }
    static bool live(T const&) { return true; }
    static T make(uint32_t v) { if (sizeof(T) == 2) sx_assume(v < 0x10000u); return (T)(sizeof(T) == 8 ? ((uint64_t)v << 32 | v) : (uint64_t)v); }
};
#if FAM == 24
template <int I, int W> struct Info<Pod<I, W>, false> {
    static int id() { return I; }
    static uint32_t val(Pod<I, W> const& t) { for (int k = 1; k < W; ++k) sx_assert(t.w[k] == t.w[0], "the whole value is there"); return t.w[0]; }
    static bool live(Pod<I, W> const&) { return true; }
    static Pod<I, W> make(uint32_t v) { Pod<I, W> p; for (int k = 0; k < W; ++k) p.w[k] = v; return p; }
};
template <int I, int W> struct has_move<Pod<I, W> > : std::false_type {};
#endif
template <> struct Info<uint32_t, false> : ScalarInfo<uint32_t> {};
template <> struct has_move<uint32_t> : std::false_type {};
#if FAM == 22
template <> struct Info<char*, false> : ScalarInfo<char*> {};
template <> struct Info<Wide, false> : ScalarInfo<Wide> {};
template <> struct Info<unsigned short, false> : ScalarInfo<unsigned short> {};
template <> struct has_move<char*> : std::false_type {};
template <> struct has_move<Wide> : std::false_type {};
template <> struct has_move<unsigned short> : std::false_type {};
#endif
}
#endif

// does the library have a fallback type here (by the documented rule)?
template <class L> struct any_nd;
template <> struct any_nd<TL<> > { enum { value = 0 }; };
template <class H, class... T> struct any_nd<TL<H, T...> > { enum { value = std::is_nothrow_default_constructible<H>::value || any_nd<TL<T...> >::value }; };

struct nd_at { bool r; template <class T, int I> void run() { r = std::is_nothrow_default_constructible<T>::value; } };
inline bool is_nd(uint32_t i) { nd_at f; f.r = false; pick<Types>(i, f); return f.r; }

// ---- what a variant holds, found out by visitation -----------------------
struct Snap { int id; uint32_t val; const void* addr; };
struct Probe : boost::static_visitor<void> {
    Snap* s;
    explicit Probe(Snap* p) : s(p) {}
    template <class T> void operator()(T const& t) const {
        sx_assert(Info<T>::live(t), "the variant holds a live object of the visited type");
        s->id = Info<T>::id(); s->val = Info<T>::val(t); s->addr = std::addressof(t);
    }
};
template <class VV> inline Snap snap(VV const& v) {
    Quiet q;
    Snap s; s.id = -1; s.val = 0; s.addr = 0;
    boost::apply_visitor(Probe(&s), v);
    return s;
}
#ifdef CHECK_TYPE
#include <boost/type_index.hpp>
template <class VV> struct TypeEq { VV const* v; bool r; template <class T, int I> void run() { r = boost::typeindex::type_index(v->type()) == boost::typeindex::type_id<T>(); } };
template <class VV> inline void check_type(VV const& v, int id) {
    for (uint32_t k = 0; k < (uint32_t)NT; ++k) {
        TypeEq<VV> f; f.v = &v; f.r = false;
        pick<Types>(k, f);
        sx_assert(f.r == (id == (int)k + 1), "type() identifies the type held and no other");
    }
}
#endif
// which() names the type held
template <class VV> inline Snap check(VV const& v) {
    Snap s = snap(v);
    sx_assert(v.which() >= 0 && v.which() < (int)NT, "which() is in range");
    sx_assert(s.id == v.which() + 1, "which() names the type of the live content");
    sx_assert(!v.empty(), "empty() is false");
#ifdef CHECK_TYPE
    check_type(v, s.id);
#endif
    return s;
}

// ---- building and assigning ------------------------------------------------
struct Builder {
    void* p; uint32_t val;
    template <class T, int I> void run() { T t(Info<T>::make(val)); ::new (p) V(std::move(t)); }
};
template <class VV> struct Holder {  // raw storage for a variant: the harness controls its lifetime
    alignas(VV) unsigned char buf[sizeof(VV)];
    VV& v() { return *reinterpret_cast<VV*>(buf); }
};
// construct, without faults, a variant holding alternative i
inline void build(Holder<V>& h, uint32_t i, uint32_t val) {
    Quiet q;
    Builder b; b.p = h.buf; b.val = val;
    pick<Types>(i, b);
}
#endif
