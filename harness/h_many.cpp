// C22: every alternative of a variant with many bounded types is reachable and distinct.
#define SX_DEFINE
#ifdef BIGLIST
#define BOOST_MPL_CFG_NO_PREPROCESSED_HEADERS
#define BOOST_MPL_LIMIT_LIST_SIZE BIGLIST
#define BOOST_MPL_LIMIT_VECTOR_SIZE BIGLIST
#endif
#if KIND == 8
#define MAXID 64
#endif
#ifdef HASHES
#define SX_HASH(a) ((void)(a), (std::size_t)HASHES)
#endif
#include "sx.h"
#include <boost/variant.hpp>
#include <boost/variant/get.hpp>
#include <boost/functional/hash.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/joint_view.hpp>
using namespace sx;
#ifndef BUDGET
#define BUDGET 1
#endif
// alternatives of different character by position
#ifdef NOTHROW
template <int I, int K = I % 4> struct Alt { typedef E<I, ALLN, 4 + I> type; };
#else
template <int I, int K = I % 4> struct Alt { typedef N<I, 0, 4> type; };
template <int I> struct Alt<I, 1> { typedef N<I, MN | BN, 12> type; };
template <int I> struct Alt<I, 2> { typedef C<I, 0, 4 + I> type; };
template <int I> struct Alt<I, 3> { typedef N<I, CN | AN, 20> type; };
#endif
#define T(i) Alt<i>::type
#define L5(a) T(a), T(a + 1), T(a + 2), T(a + 3), T(a + 4)
#if KIND == 0
typedef TL<L5(1), L5(6), L5(11), L5(16)> Types;
typedef boost::variant<L5(1), L5(6), L5(11), L5(16)> V;
#elif KIND == 1
typedef TL<L5(1), L5(6), L5(11), L5(16)> Types;
typedef boost::make_variant_over<boost::mpl::vector<L5(1), L5(6), L5(11), L5(16)> >::type V;
#elif KIND == 2
typedef TL<L5(1), L5(6), T(11), T(12), L5(13), L5(18), T(23)> Types;
typedef boost::make_variant_over<boost::mpl::joint_view<boost::mpl::list<L5(1), L5(6), T(11), T(12)>, boost::mpl::list<L5(13), L5(18), T(23)> > >::type V;
#elif KIND == 3
typedef TL<L5(1)> Types;
typedef boost::variant<L5(1)> V;
#elif KIND == 4
typedef TL<L5(1), T(6), T(7)> Types;
typedef boost::variant<T(1), T(2)> P1; typedef boost::variant<T(3), T(4), T(5)> P2; typedef boost::mpl::vector<T(6), T(7)> P3;
typedef boost::make_variant_over<boost::mpl::joint_view<boost::mpl::joint_view<P1::types, P2::types>, P3> >::type V;
#elif KIND == 5
typedef TL<L5(1), L5(6), L5(11), L5(16), L5(21), T(26), T(27)> Types;
typedef boost::variant<L5(1), L5(6), L5(11), L5(16), L5(21), T(26), T(27)> V;
#elif KIND == 6
typedef TL<T(1), T(2)> Types;
typedef boost::make_variant_over<boost::mpl::list<T(1), T(2)> >::type V;
#elif KIND == 7
typedef TL<L5(1), L5(6), L5(11)> Types;
typedef boost::variant<L5(1), L5(6), L5(11)> V;
#elif KIND == 8
typedef TL<L5(1), L5(6), L5(11), L5(16), L5(21), L5(26), L5(31), L5(36), L5(41), T(46), T(47)> Types;
typedef boost::make_variant_over<boost::mpl::joint_view<boost::mpl::joint_view<boost::mpl::vector<L5(1), L5(6), L5(11), L5(16)>, boost::mpl::list<L5(21), L5(26), L5(31), L5(36)> >, boost::mpl::vector<L5(41), T(46), T(47)> > >::type V;
#endif
enum { NT = len<Types>::value };
struct HV { alignas(V) unsigned char buf[sizeof(V)]; V& v() { return *reinterpret_cast<V*>(buf); } };

struct Snap { int id; uint32_t val; const void* addr; int n; };
struct Probe : boost::static_visitor<int> {
    Snap* s; explicit Probe(Snap* p) : s(p) {}
    template <class U> int operator()(U const& t) const { sx_assert(Info<U>::live(t), "live content of the visited type"); s->id = U::id; s->val = t.val; s->addr = &t; ++s->n; return U::id * 3; }
};
static Snap snap(V const& v) {
    Quiet q; Snap s = Snap();
    int r = boost::apply_visitor(Probe(&s), v);
    sx_assert(s.n == 1 && r == s.id * 3, "visited once, with the visitor's result");
    sx_assert(v.which() == s.id - 1, "the index is the position of the alternative");
    sx_assert((const char*)s.addr >= (const char*)&v || sx_heap_live(), "content in place unless backed up");
    return s;
}
struct Build { void* p; uint32_t val; template <class U, int I> void run() { U t(Info<U>::make(val)); ::new (p) V(std::move(t)); } };
struct Put { V* v; uint32_t val; template <class U, int I> void run() { U t(Info<U>::make(val)); U const& r = t; *v = r; } };
struct PutM { V* v; uint32_t val; template <class U, int I> void run() { U t(Info<U>::make(val)); *v = std::move(t); } };
struct Get { V* v; const void* r; const void* c; template <class U, int I> void run() { r = boost::get<U>(v); c = boost::get<U>(static_cast<V const*>(v)); } };

#ifdef HASHES
// C14: all contents have the same hash; hashes of variants are then equal exactly for equal indexes
extern "C" void sx_main() {
    HV a, b;
    uint32_t i = sx_below(NT, "i"), j = sx_below(NT, "j"), x = sx_u32("x"), y = sx_u32("y");
    { Quiet q; Build f; f.p = a.buf; f.val = x; pick<Types>(i, f); f.p = b.buf; f.val = y; pick<Types>(j, f); }
    std::size_t h = hash_value(static_cast<V const&>(a.v())), g = hash_value(static_cast<V const&>(b.v()));
    sx_assert((h == g) == (i == j), "contents with equal hashes: the variants' hashes are equal exactly if the indexes are");
    sx_assert(std::hash<V>()(a.v()) == h && boost::hash<V>()(b.v()) == g, "the forms of hashing agree");
    sx_obs(h); sx_obs(g);
    Snap s = snap(a.v());
    sx_assert(s.id == (int)i + 1 && s.val == x, "hashing changes nothing");
    a.v().~V(); b.v().~V();
    sx_cover("end");
}
#else
extern "C" void sx_main() {
    HV a, b, c;
    uint32_t op = (uint32_t)sx_concretize(sx_below(9, "op"));
    uint32_t i = sx_below(NT, "i"), x = sx_u32("x"), y = sx_u32("y"), j = sx_below(NT, "j");
#ifdef FEW_J
    sx_assume(j == 0 || j == 19 || j == 20 || j == 39 || j == 40 || j == NT - 1);
#endif
    bool two = op >= 2 && op <= 5;
    { Quiet q; Build f; f.p = a.buf; f.val = x; pick<Types>(i, f); if (two) { f.p = b.buf; f.val = y; pick<Types>(j, f); } }
    Snap s = snap(a.v()), t = s;
    sx_assert(s.id == (int)i + 1 && s.val == x, "constructed as the alternative of the operand's type");
    if (two) { t = snap(b.v()); sx_assert(t.id == (int)j + 1 && t.val == y, "constructed as the alternative of the operand's type"); }
    budget = BUDGET; alloc_faults = true; raised = 0;
    bool threw = false, made = false;
    try {
        switch (op) {
            case 0: ::new ((void*)c.buf) V(static_cast<V const&>(a.v())); made = true; break;
            case 1: ::new ((void*)c.buf) V(std::move(a.v())); made = true; break;
            case 2: a.v() = static_cast<V const&>(b.v()); break;
            case 3: a.v() = std::move(b.v()); break;
            case 4: a.v().swap(b.v()); break;
            case 5: { bool e = a.v() == b.v(), l = a.v() < b.v(); sx_assert(e == (i == j && x == y) && l == (i == j ? x < y : i < j), "comparison by index, then content"); break; }
            case 6: { Put f; f.v = &a.v(); f.val = y; pick<Types>(j, f); break; }
            case 7: { PutM f; f.v = &a.v(); f.val = y; pick<Types>(j, f); break; }
            default: { Get f; f.v = &a.v(); f.r = f.c = 0; pick<Types>(j, f); sx_assert(f.r == f.c && f.r == (i == j ? s.addr : 0), "get finds exactly the held alternative"); break; }
        }
    } catch (boom const& e) { threw = true; same_exception(e); } catch (std::bad_alloc const&) { threw = true; }
    budget = 0;
    sx_assert(threw == (raised > 0), "throws exactly when the contents do");
    Snap s2 = snap(a.v()), t2 = two ? snap(b.v()) : t;
    sx_obs(op); sx_obs(threw); sx_obs(s2.id); sx_obs(t2.id);
    if (!threw) {
        if (made) { Snap u = snap(c.v()); sx_assert(u.id == s.id && u.val == s.val, "the copy holds the same alternative and value"); c.v().~V(); }
        if (op == 2 || op == 3) sx_assert(s2.id == t.id && s2.val == t.val, "assigned the same alternative and value");
        if (op == 4) sx_assert(s2.id == t.id && s2.val == t.val && t2.id == s.id && t2.val == s.val, "swapped");
        if (op == 6 || op == 7) sx_assert(s2.id == (int)j + 1 && s2.val == y, "assigned the alternative of the operand's type");
        if (op == 5 || op == 8 || op == 0) sx_assert(s2.id == s.id && s2.val == s.val && s2.addr == s.addr, "unchanged");
        sx_cover("done");
    } else {
        sx_cover("failed");
        if (i != j || op < 2) sx_assert(s2.id == s.id, "a failed operation keeps the alternative");
        if (op == 2 || op == 6) if (i != j) sx_assert(s2.val == s.val, "and its value");
    }
    a.v().~V(); if (two) b.v().~V();
    sx_assert(sx_reg_count() == 0, "every object was destroyed");
    sx_cover("end");
}
#endif
