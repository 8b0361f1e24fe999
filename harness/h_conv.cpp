// C16 C17: converting construction and assignment, from values and from other variants.
#define SX_DEFINE
#include "sx.h"
#include <boost/variant.hpp>
#include <boost/variant/get.hpp>
using namespace sx;

// Instrumented contents with conversions between them.
typedef E<1, ELF> Y0; typedef N<2, ELF, 12> Z0;
struct Y : E<1, ELF> { explicit Y(val_t v) : E<1, ELF>(v) {} Y() {} Y(const char* s) : E<1, ELF>(val_t((uint32_t)(unsigned char)*s)) { maybe_throw(8 + K_CONV); } };
struct Z : N<2, ELF, 12> { explicit Z(val_t v) : N<2, ELF, 12>(v) {} };
struct ZD : Z { uint32_t more; explicit ZD(val_t v) : Z(v), more(v.v + 1) {} };             // derived: converts to Z
struct ToY { uint32_t u; operator Y() const { maybe_throw(8 + K_CONV); return Y(val_t(u + 5)); } };  // conversion function
struct P0 : N<4, ELF> { explicit P0(val_t v) : N<4, ELF>(v) {} };                                // a pair of types for rvalue/lvalue choice
enum Col { RED = 1, GREEN = 0x7000 };

static uint32_t key(int v) { return (uint32_t)v; }
static uint32_t key(unsigned v) { return v; }
static uint32_t key(short v) { return (uint32_t)v; }
static uint32_t key(unsigned char v) { return v; }
static uint32_t key(bool v) { return v; }
static uint32_t key(Col v) { return (uint32_t)v; }
static uint32_t key(long long v) { return (uint32_t)v ^ (uint32_t)((unsigned long long)v >> 32) * 31u; }
static uint32_t key(Y const& y) { y.use(); return y.val; }
static uint32_t key(Z const& y) { y.use(); return y.val; }
static uint32_t key(P0 const& y) { y.use(); return y.val; }
static uint32_t key(ToY const& y) { return y.u; }
static uint32_t key(const char* s) { return (uint32_t)(unsigned char)*s; }

#if PROP == 16
typedef boost::variant<int, long long, unsigned, Y, Z, boost::recursive_wrapper<P0> > V;
typedef TL<int, long long, unsigned, Y, Z, P0> Types;
// the reference: overload resolution over the bounded types
template <int I> using Ix = std::integral_constant<int, I>;
Ix<0> ov(int const&); Ix<0> ov(int&&); Ix<1> ov(long long const&); Ix<1> ov(long long&&); Ix<2> ov(unsigned const&); Ix<2> ov(unsigned&&);
Ix<3> ov(Y const&); Ix<3> ov(Y&&); Ix<4> ov(Z const&); Ix<4> ov(Z&&); Ix<5> ov(P0 const&); Ix<5> ov(P0&&);
#else
// C17: source variant S, destinations W (foreign) and H (holds S whole)
#ifdef WRAPSRC
typedef boost::variant<short, Y, boost::recursive_wrapper<Z>, long long, ToY> S;
typedef boost::variant<int, long long, Y, boost::recursive_wrapper<Z> > V;
#else
typedef boost::variant<short, Y, Z, ZD, ToY> S;
typedef boost::variant<int, long long, Y, Z> V;
#endif
typedef TL<short, Y, Z, ZD, ToY> STypes;
typedef TL<int, long long, Y, Z> Types;
template <int I> using Ix = std::integral_constant<int, I>;
Ix<0> ov(int const&); Ix<0> ov(int&&); Ix<1> ov(long long const&); Ix<1> ov(long long&&);
Ix<2> ov(Y const&); Ix<2> ov(Y&&); Ix<3> ov(Z const&); Ix<3> ov(Z&&);
// no fallback type: sources that may be in a heap backup
typedef boost::variant<Z, P0> SB;
typedef boost::variant<boost::recursive_wrapper<P0>, Z> VB;
typedef boost::variant<S, int> H;
typedef boost::variant<int, boost::recursive_wrapper<S>, Y, Z> HW;
#endif

struct Seen { int which; uint32_t k; const void* addr; };
struct Look : boost::static_visitor<void> { Seen* s; explicit Look(Seen* p) : s(p) {} template <class T> void operator()(T const& t) const { s->k = key(t); s->addr = std::addressof(t); } };
struct TypeIs : boost::static_visitor<int> {
    template <class T> int operator()(T const&) const { return idx((T*)0); }
#if PROP == 16
    int idx(int*) const { return 0; } int idx(long long*) const { return 1; } int idx(unsigned*) const { return 2; } int idx(Y*) const { return 3; } int idx(Z*) const { return 4; } int idx(P0*) const { return 5; }
#else
    int idx(int*) const { return 0; } int idx(long long*) const { return 1; } int idx(Y*) const { return 2; } int idx(Z*) const { return 3; }
#endif
};
template <class VV> Seen look(VV const& v) { Quiet q; Seen s; s.which = v.which(); s.k = 0; s.addr = 0; boost::apply_visitor(Look(&s), v); return s; }
static Seen lookv(V const& v) { Quiet q; sx_assert(boost::apply_visitor(TypeIs(), v) == v.which(), "which() names the type of the content"); return look(v); }
template <class VV> struct Raw { alignas(VV) unsigned char buf[sizeof(VV)]; VV& v() { return *reinterpret_cast<VV*>(buf); } };

#if PROP == 16
static void put(Raw<V>& h, uint32_t i, uint32_t x) {
    Quiet q;
    switch (i) {
        case 0: ::new ((void*)h.buf) V((int)x); break;
        case 1: ::new ((void*)h.buf) V((long long)x << 20); break;
        case 2: ::new ((void*)h.buf) V((unsigned)x); break;
        case 3: { Y y((val_t(x))); ::new ((void*)h.buf) V(y); break; }
        case 4: { Z z((val_t(x))); ::new ((void*)h.buf) V(z); break; }
        default: { P0 p((val_t(x))); ::new ((void*)h.buf) V(p); break; }
    }
    sx_assert(h.v().which() == (int)i, "construction from a value of a bounded type holds that type");
}
// what C++ gives for converting the operand to the selected type
template <class T, class OP> uint32_t converted(OP const& op) { Quiet q; T t(op); return key(t); }
static uint32_t pre_i;
template <class OP> void form(Raw<V>& h, OP& op, uint32_t f) {
    OP const& cop = op;
    typedef decltype(ov(std::declval<OP const&>())) SelC;
    typedef decltype(ov(std::declval<OP&>())) SelL;
    typedef decltype(ov(std::declval<OP&&>())) SelR;
    uint32_t want = 0; int wi = 0;
    { typedef typename at<Types, SelC::value>::type T; want = converted<T>(cop); }
    wi = f % 3 == 0 ? (int)SelC::value : f % 3 == 1 ? (int)SelL::value : (int)SelR::value;
    uint32_t before = key(op);
    bool constructs = f < 3, exact = false;
    Seen s0; s0.which = -1; s0.k = 0; s0.addr = 0;
    if (!constructs) {
        pre_i = sx_below(6, "pre"); uint32_t pv = sx_u32("pre_val");
        put(h, (uint32_t)sx_concretize(pre_i), pv);
        s0 = lookv(h.v());
        exact = std::is_same<OP, typename at<Types, SelC::value>::type>::value && s0.which == wi;
    }
    reset_stats(); raised = 0; budget = BUDGET; alloc_faults = true;
    bool threw = false;
    V* ret = 0;
    try {
        switch (f) {
            case 0: ::new ((void*)h.buf) V(cop); break;
            case 1: ::new ((void*)h.buf) V(op); break;
            case 2: ::new ((void*)h.buf) V(std::move(op)); break;
            case 3: ret = &(h.v() = cop); break;
            case 4: ret = &(h.v() = op); break;
            default: ret = &(h.v() = std::move(op)); break;
        }
    } catch (boom const&) { threw = true; } catch (std::bad_alloc const&) { threw = true; }
    budget = 0;
    Stat st = total();
    sx_obs(threw); sx_obs(wi);
    sx_assert(threw == (raised > 0), "throws exactly when a conversion, an element operation or an allocation does");
    if (f % 3 != 2) sx_assert(key(op) == before, "an lvalue operand is not modified");
    if (threw) {
        sx_cover("failed");
        if (constructs) return;
        Seen s = lookv(h.v());
        sx_assert(s.which == s0.which ? true : s.which == 0, "after a failed assignment: the old type or the fallback type");
    } else {
        Seen s = lookv(h.v());
        sx_obs(s.which); sx_obs(s.k);
        sx_assert(s.which == wi, "the bounded type overload resolution selects is held");
        sx_assert(s.k == want, "the converted value is stored");
        sx_assert(constructs || ret == &h.v(), "assignment returns the assigned variant");
        if (exact) {
            sx_cover("in place");
            sx_assert(s.addr == s0.addr, "the existing object is assigned in place");
            sx_assert(st.dtor == 0 && st.copy == 0 && st.move == 0 && st.def == 0, "assignment in place constructs and destroys nothing");
        }
    }
    h.v().~V();
}
static void body() {
    Raw<V> h;
    uint32_t o = (uint32_t)sx_concretize(sx_below(16, "operand"));
    uint32_t f = (uint32_t)sx_concretize(sx_below(6, "form"));
    uint32_t x = sx_u32("x");
    switch (o) {
        case 0: { int v = (int)x; form(h, v, f); break; }
        case 1: { short v = (short)x; form(h, v, f); break; }
        case 2: { unsigned char v = (unsigned char)x; form(h, v, f); break; }
        case 3: { bool v = (x & 1) != 0; form(h, v, f); break; }
        case 4: { unsigned v = x; form(h, v, f); break; }
        case 5: { long long v = ((long long)x << 17) - 3; form(h, v, f); break; }
        case 6: { const char* v = x & 1 ? "abc" : "xyz"; form(h, v, f); break; }
        case 7: { Y v((val_t(x))); form(h, v, f); break; }
        case 8: { Z v((val_t(x))); form(h, v, f); break; }
        case 9: { ZD v((val_t(x))); form(h, v, f); break; }
        case 10: { ToY v; v.u = x; form(h, v, f); break; }
        case 11: { P0 v((val_t(x))); form(h, v, f); break; }
        case 12: { Col v = x & 1 ? RED : GREEN; form(h, v, f); break; }
        case 13: {  // default construction
            reset_stats();
            V v;
            sx_assert(v.which() == 0 && boost::get<int>(v) == 0, "default construction holds the default value of the first type");
            budget = BUDGET; raised = 0;
            bool threw = false;
            try { boost::variant<Y, int> w; sx_assert(w.which() == 0 && boost::get<Y>(w).val == def_val(1), "default construction holds the default value of the first type"); } catch (boom const&) { threw = true; }
            sx_assert(threw == (raised > 0), "default construction throws exactly when the first type's does");
            raised = 0; threw = false;
            try { boost::variant<boost::recursive_wrapper<Y>, int> w; sx_assert(w.which() == 0 && boost::get<Y>(w).val == def_val(1), "default construction holds the default value of the first type"); } catch (boom const&) { threw = true; } catch (std::bad_alloc const&) { threw = true; }
            sx_assert(threw == (raised > 0), "default construction throws exactly when the first type's does");
            budget = 0;
            break;
        }
        case 14: {  // chars in an array convert like pointers
            char arr[3] = {(char)(x & 0x7f), 0, 0};
            { V v(arr); Seen s = lookv(v); sx_assert(s.which == 3 && s.k == (x & 0x7f), "array operand converts like a pointer"); }
            { V v((unsigned)7); v = "q"; Seen s = lookv(v); sx_assert(s.which == 3 && s.k == 'q', "string literal converts like a pointer"); }
            break;
        }
        default: {  // const rvalue
            const Z z((val_t(x)));
            V v(std::move(z)); Seen s = lookv(v);
            sx_assert(s.which == 4 && s.k == x && key(z) == x, "a const rvalue is copied");
            V w(3u); w = std::move(z); s = lookv(w);
            sx_assert(s.which == 4 && s.k == x && key(z) == x, "a const rvalue is copied");
            break;
        }
    }
}
#else
// ------------------------------------------------------------------ C17
static void putS(Raw<S>& h, uint32_t i, uint32_t x) {
    Quiet q;
    switch (i) {
        case 0: ::new ((void*)h.buf) S((short)x); break;
        case 1: { Y y((val_t(x))); ::new ((void*)h.buf) S(y); break; }
        case 2: { Z z((val_t(x))); ::new ((void*)h.buf) S(z); break; }
        #ifdef WRAPSRC
        case 3: ::new ((void*)h.buf) S((long long)x << 9); break;
#else
        case 3: { ZD z((val_t(x))); ::new ((void*)h.buf) S(z); break; }
#endif
        default: { ToY t; t.u = x; ::new ((void*)h.buf) S(t); break; }
    }
    sx_assert(h.v().which() == (int)i, "construction from a bounded type");
}
static void putV(Raw<V>& h, uint32_t i, uint32_t x) {
    Quiet q;
    switch (i) {
        case 0: ::new ((void*)h.buf) V((int)x); break;
        case 1: ::new ((void*)h.buf) V((long long)x); break;
        case 2: { Y y((val_t(x))); ::new ((void*)h.buf) V(y); break; }
        default: { Z z((val_t(x))); ::new ((void*)h.buf) V(z); break; }
    }
}
struct Want : boost::static_visitor<void> {  // the best conversion of the source's content
    mutable int which; mutable uint32_t k;
    template <class T> void operator()(T const& t) const {
        Quiet q; typedef typename at<Types, decltype(ov(t))::value>::type U; U u(t); which = decltype(ov(t))::value; k = key(u);
    }
};
static void foreign() {
    Raw<S> hs; Raw<V> hv;
    uint32_t i = (uint32_t)sx_concretize(sx_below(5, "i")), x = sx_u32("x");
    putS(hs, i, x);
    uint32_t f = (uint32_t)sx_concretize(sx_below(6, "form"));
    Want w; boost::apply_visitor(w, static_cast<S const&>(hs.v()));
    Seen before = look(hs.v());
    Seen s0; s0.which = -1;
    if (f >= 3) { uint32_t j = (uint32_t)sx_concretize(sx_below(4, "pre")); uint32_t pv = sx_u32("pre_val"); putV(hv, j, pv); s0 = lookv(hv.v()); }
    reset_stats();
    budget = BUDGET; alloc_faults = true; raised = 0;
    bool threw = false;
    V* ret = 0;
    try {
        switch (f) {
            case 0: ::new ((void*)hv.buf) V(static_cast<S const&>(hs.v())); break;
            case 1: ::new ((void*)hv.buf) V(hs.v()); break;
            case 2: ::new ((void*)hv.buf) V(std::move(hs.v())); break;
            case 3: ret = &(hv.v() = static_cast<S const&>(hs.v())); break;
            case 4: ret = &(hv.v() = hs.v()); break;
            default: ret = &(hv.v() = std::move(hs.v())); break;
        }
    } catch (boom const&) { threw = true; } catch (std::bad_alloc const&) { threw = true; }
    budget = 0;
    Stat st = total();
    sx_obs(threw);
    if (f >= 3 && !threw) sx_assert(ret == &hv.v(), "assignment returns the assigned variant");
    if (f == 2 || (f == 5 && (ELF & MN))) sx_assert(st.copy == 0 && st.casg == 0, "the content of a moved-from source is moved, not copied");
    sx_assert(threw == (raised > 0), "throws exactly when an element operation or an allocation does");
    Seen after = look(hs.v());
    sx_assert(after.which == before.which && after.addr == before.addr, "the source keeps its type");
    if (f % 3 != 2) sx_assert(after.k == before.k, "a copied-from source is unchanged");
    if (!threw) {
        Seen s = lookv(hv.v());
        sx_obs(s.which); sx_obs(s.k);
        sx_assert(s.which == w.which, "the best conversion of the source's content is held");
        sx_assert(s.k == w.k, "with the converted value");
        hv.v().~V();
    } else {
        sx_cover("failed");
        if (f >= 3) { Seen s = lookv(hv.v()); sx_assert(s.which == s0.which || s.which == 0, "after a failed assignment: the old type or the fallback type"); hv.v().~V(); }
    }
    hs.v().~S();
}
// source whose content may be a heap backup left by a failed assignment
static void backup() {
    Raw<SB> hs; Raw<VB> hv;
    uint32_t x = sx_u32("x");
    bool z = sx_bool("z") != 0;
    { Quiet q; if (z) { Z t((val_t(x))); ::new ((void*)hs.buf) SB(t); } else { P0 t((val_t(x))); ::new ((void*)hs.buf) SB(t); } }
    {
        bool threw = false;
        raised = 0; budget = 1; alloc_faults = false;
        try { if (z) { P0 t((val_t(9))); hs.v() = t; } else { Z t((val_t(9))); hs.v() = t; } } catch (boom const&) { threw = true; }
        budget = 0;
        sx_assume(threw);
        if (sx_heap_live()) sx_cover("source in a heap backup");
    }
    Seen before = look(hs.v());
    sx_assert(before.which == (z ? 0 : 1) && before.k == x, "failed assignment keeps the value");
    uint32_t f = (uint32_t)sx_concretize(sx_below(4, "form"));
    if (f >= 2) { Quiet q; if (sx_bool("pre")) { Z t((val_t(3))); ::new ((void*)hv.buf) VB(t); } else { P0 t((val_t(3))); ::new ((void*)hv.buf) VB(t); } }
    reset_stats();
    switch (f) {
        case 0: ::new ((void*)hv.buf) VB(static_cast<SB const&>(hs.v())); break;
        case 1: ::new ((void*)hv.buf) VB(std::move(hs.v())); break;
        case 2: hv.v() = static_cast<SB const&>(hs.v()); break;
        default: hv.v() = std::move(hs.v()); break;
    }
    Stat st = total();
    if (f == 1 || (f == 3 && (ELF & MN) && z)) sx_assert(st.copy == 0 && st.casg == 0, "the content of a moved-from source is moved, not copied");
    Seen s = look(hv.v()), after = look(hs.v());
    sx_obs(s.which); sx_obs(s.k);
    sx_assert(s.which == (z ? 1 : 0) && s.k == x, "the content of the source is converted, wherever it is stored");
    sx_assert(after.which == before.which && (f % 2 || after.k == before.k), "a copied-from source is unchanged");
    hv.v().~VB(); hs.v().~SB();
}
#ifdef MOVEONLY
// move-only contents convert too, from rvalue variants
typedef M<5, ELF, 12> Q1; typedef MD<6, ELF | DN> Q2; typedef M<7, ELF> Q3;
typedef boost::variant<Q1, Q2> SM;
typedef boost::variant<Q2, boost::recursive_wrapper<Q3>, Q1> VM;
struct Tag : boost::static_visitor<int> { template <class T> int operator()(T const& t) const { t.use(); return T::id; } };
struct ValOf : boost::static_visitor<uint32_t> { template <class T> uint32_t operator()(T const& t) const { t.use(); return t.val; } };
static void move_only() {
    Raw<SM> hs; Raw<VM> hv;
    uint32_t x = sx_u32("x");
    bool one = sx_bool("one") != 0, asg = sx_bool("asg") != 0;
    { Quiet q; if (one) { Q1 t((val_t(x))); ::new ((void*)hs.buf) SM(std::move(t)); } else { Q2 t((val_t(x))); ::new ((void*)hs.buf) SM(std::move(t)); } }
    int pre = -1;
    if (asg) {
        Quiet q;
        pre = (int)sx_concretize(sx_below(3, "pre"));
        switch (pre) { case 0: { Q2 t((val_t(3))); ::new ((void*)hv.buf) VM(std::move(t)); break; } case 1: { Q3 t((val_t(3))); ::new ((void*)hv.buf) VM(std::move(t)); break; } default: { Q1 t((val_t(3))); ::new ((void*)hv.buf) VM(std::move(t)); } }
    }
    raised = 0; budget = BUDGET; alloc_faults = true;
    bool threw = false;
    try { if (asg) hv.v() = std::move(hs.v()); else ::new ((void*)hv.buf) VM(std::move(hs.v())); } catch (boom const&) { threw = true; } catch (std::bad_alloc const&) { threw = true; }
    budget = 0;
    sx_obs(threw);
    sx_assert(threw == (raised > 0), "throws exactly when an element operation or an allocation does");
    sx_assert(hs.v().which() == (one ? 0 : 1) && boost::apply_visitor(Tag(), hs.v()) == (one ? 5 : 6), "the source keeps its type");
    if (!threw) {
        sx_cover("move-only");
        sx_assert(hv.v().which() == (one ? 2 : 0) && boost::apply_visitor(Tag(), hv.v()) == (one ? 5 : 6), "the best conversion of the source's content is held");
        sx_assert(boost::apply_visitor(ValOf(), hv.v()) == x, "with the converted value");
        sx_assert(boost::apply_visitor(ValOf(), hs.v()) == moved_val(one ? 5 : 6), "the source was moved from");
    } else if (asg) {
        int w = hv.v().which();
        sx_assert(w == pre || w == 0, "after a failed assignment: the old type or the fallback type");
        boost::apply_visitor(Tag(), hv.v());
    }
    if (!threw || asg) hv.v().~VM();
    hs.v().~SM();
}
#endif
struct Inner : boost::static_visitor<S const*> { S const* operator()(S const& s) const { return &s; } template <class T> S const* operator()(T const&) const { return 0; } };
template <class HH, int AT> static void whole_in() {
    Raw<S> hs; Raw<HH> hh;
    uint32_t i = (uint32_t)sx_concretize(sx_below(5, "i")), x = sx_u32("x");
    putS(hs, i, x);
    uint32_t f = (uint32_t)sx_concretize(sx_below(7, "form"));
    Seen before = look(hs.v());
    if (f >= 3) { Quiet q; if (sx_bool("pre_s")) { S t((short)1); ::new ((void*)hh.buf) HH(t); } else ::new ((void*)hh.buf) HH(7); }
    reset_stats();
    switch (f) {
        case 0: ::new ((void*)hh.buf) HH(static_cast<S const&>(hs.v())); break;
        case 1: ::new ((void*)hh.buf) HH(hs.v()); break;
        case 2: ::new ((void*)hh.buf) HH(std::move(hs.v())); break;
        case 3: hh.v() = static_cast<S const&>(hs.v()); break;
        case 4: hh.v() = hs.v(); break;
        case 5: hh.v() = std::move(hs.v()); break;
        default: hh.v() = 5; break;
    }
    Stat st = total();
    if (f == 2 || (f == 5 && (ELF & MN) && AT == 0)) sx_assert(st.copy == 0 && st.casg == 0, "the content of a moved-from source is moved, not copied");
    if (f == 6) sx_assert(hh.v().which() != AT && boost::get<int>(hh.v()) == 5, "a value of another bounded type is held as that");
    else {
        sx_assert(hh.v().which() == AT, "a variant that is itself a bounded type is stored as that alternative");
        S const* in = boost::apply_visitor(Inner(), static_cast<HH const&>(hh.v()));
        sx_assert(in != 0, "the whole source is held");
        Seen got = look(*in);
        sx_obs(got.which); sx_obs(got.k);
        sx_assert(got.which == before.which && got.k == before.k, "with the source's type and value");
        sx_assert(in != &hs.v(), "a copy of its own");
#ifndef WRAPSRC
        if (i == 3) sx_assert(boost::get<ZD>(*in).more == x + 1, "the derived part too");
#endif
    }
    Seen after = look(hs.v());
    sx_assert(after.which == before.which && (f == 2 || f == 5 || after.k == before.k), "a copied-from source is unchanged");
    hh.v().~HH(); hs.v().~S();
}
static void body() {
#ifdef MOVEONLY
    move_only();
    return;
#endif
    uint32_t m = (uint32_t)sx_concretize(sx_below(4, "mode"));
    switch (m) {
        case 0: foreign(); break;
        case 1: backup(); break;
        case 2: whole_in<H, 0>(); break;
#ifndef WRAPSRC
        case 3: whole_in<HW, 1>(); break;
#endif
        default: sx_assume(0);
    }
}
#endif
extern "C" void sx_main() {
    body();
    sx_assert(sx_reg_count() == 0, "every contained object was destroyed");
    sx_cover("end");
}
