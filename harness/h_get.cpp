// C08 C09: get / polymorphic_get in every form, on every held alternative and pre-state.
#define SX_DEFINE
#if PROP == 8
#include "pre.h"
#else
#include "sx.h"
#include <boost/variant.hpp>
using namespace sx;
#endif
#include <boost/variant/get.hpp>
#include <boost/variant/polymorphic_get.hpp>

// One call of a get-like function, in every form. R: result address and whether it threw.
struct R { const void* addr; int thrown; };  // thrown: 0 no, 1 bad_get, 2 bad_polymorphic_get, 3 something else
#define FORMS(NAME, FN, BAD, CODE)                                                                            \
    struct NAME {                                                                                             \
        template <class U, class VV> static R ptr(VV* v) {                                                    \
            static_assert(std::is_same<decltype(FN<U>(v)), U*>::value, "pointer form type");                  \
            static_assert(noexcept(FN<U>(v)), "pointer form is noexcept");                                    \
            R r = {FN<U>(v), 0}; return r; }                                                                  \
        template <class U, class VV> static R cptr(VV const* v) {                                             \
            static_assert(std::is_same<decltype(FN<U>(v)), U const*>::value, "const pointer form type");      \
            static_assert(noexcept(FN<U>(v)), "pointer form is noexcept");                                    \
            R r = {FN<U>(v), 0}; return r; }                                                                  \
        template <class U, class VV> static R ref(VV& v) {                                                    \
            static_assert(std::is_same<decltype(FN<U>(v)), U&>::value, "reference form type");                \
            R r = {0, 0};                                                                                     \
            try { U& x = FN<U>(v); r.addr = std::addressof(x); } catch (BAD const& e) { r.thrown = CODE; (void)static_cast<std::exception const&>(e).what(); } \
            return r; }                                                                                       \
        template <class U, class VV> static R cref(VV const& v) {                                             \
            static_assert(std::is_same<decltype(FN<U>(v)), U const&>::value, "const reference form type");    \
            R r = {0, 0};                                                                                     \
            try { U const& x = FN<U>(v); r.addr = std::addressof(x); } catch (BAD const&) { r.thrown = CODE; } \
            return r; }                                                                                       \
    };
FORMS(FGet, boost::get, boost::bad_get, 1)
FORMS(FStrict, boost::strict_get, boost::bad_get, 1)
FORMS(FRelaxed, boost::relaxed_get, boost::bad_get, 1)
FORMS(PGet, boost::polymorphic_get, boost::bad_polymorphic_get, 2)
FORMS(PStrict, boost::polymorphic_strict_get, boost::bad_polymorphic_get, 2)
FORMS(PRelaxed, boost::polymorphic_relaxed_get, boost::bad_polymorphic_get, 2)

#define RV(NAME, FN)                                                                                          \
    template <class U, class VV> static R NAME(VV& v) {                                                       \
        static_assert(std::is_same<decltype(FN<U>(std::move(v))), U&&>::value, "rvalue form type");           \
        R r = {0, 0};                                                                                         \
        try { U&& x = FN<U>(std::move(v)); r.addr = std::addressof(x); } catch (boost::bad_get const&) { r.thrown = 1; } \
        return r; }
RV(rv_get, boost::get) RV(rv_strict, boost::strict_get) RV(rv_relaxed, boost::relaxed_get)

// expect: address of the content when ok, else null / exception of code bad
static void judge(R const& r, bool is_ref, bool ok, const void* addr, int bad) {
    sx_obs(r.thrown);
    if (ok) {
        sx_assert(r.thrown == 0, "get of the held type does not throw");
        sx_assert(r.addr == addr, "get of the held type yields the contained object itself");
        sx_cover("hit");
    } else {
        sx_assert(r.addr == 0, "get of another type yields nothing");
        sx_assert(r.thrown == (is_ref ? bad : 0), is_ref ? "get by reference of another type throws the documented exception" : "get by pointer does not throw");
        sx_cover("miss");
    }
}

#if PROP == 8
template <class VV> struct AskT {
    VV* v; uint32_t fn, form; Snap s;
    template <class F, class U> R call() {
        switch (form) {
            case 0: return F::template ptr<U>(v);
            case 1: return F::template cptr<U>(static_cast<VV const*>(v));
            case 2: return F::template ref<U>(*v);
            case 3: return F::template cref<U>(static_cast<VV const&>(*v));
            case 4: return F::template ptr<U>(static_cast<VV*>(0));
            default: return F::template cptr<U>(static_cast<VV const*>(0));
        }
    }
    template <class U> void strict(int id) {
        R r;
        if (form == 6) r = fn == 0 ? rv_get<U>(*v) : fn == 1 ? rv_strict<U>(*v) : rv_relaxed<U>(*v);
        else r = fn == 0 ? call<FGet, U>() : fn == 1 ? call<FStrict, U>() : call<FRelaxed, U>();
        judge(r, form == 2 || form == 3 || form == 6, form != 4 && form != 5 && s.id == id, s.addr, 1);
    }
    template <class U> void relaxed(int id) {
        R r;
        if (form == 6) r = rv_relaxed<U>(*v); else r = call<FRelaxed, U>();
        judge(r, form == 2 || form == 3 || form == 6, form != 4 && form != 5 && s.id == id, s.addr, 1);
    }
    template <class T, int I> void run() { strict<T>(I + 1); }
};
#ifndef HIER
typedef AskT<V> Ask;
extern "C" void sx_main() {
    Holder<V> h;
    Pre p = make_pre(h, "i", "val", true);
    Ask a; a.v = &h.v(); a.s = p.s;
    a.fn = (uint32_t)sx_concretize(sx_below(3, "fn"));
    a.form = (uint32_t)sx_concretize(sx_below(7, "form"));
    uint32_t j = sx_below(NT + 1, "j");
    unsigned n0 = news; reset_stats();
    if (j == NT) { a.relaxed<int>(-1); a.relaxed<E<30> >(-1); a.relaxed<boost::recursive_wrapper<E<30> > >(-1); }
    else pick<Types>(j, a);
    Stat st = total();
    sx_assert(st.copy + st.move + st.casg + st.masg + st.def + st.dtor == 0 && news == n0, "get copies, moves and allocates nothing");
    Snap s = check(h.v());
    sx_assert(s.id == p.s.id && s.val == p.s.val && s.addr == p.s.addr, "get does not modify the variant");
    h.v().~V();
    finish();
}
#else
// content related by inheritance and conversion, and content with an overloaded operator&
struct Base { uint32_t b; explicit Base(uint32_t x) : b(x) {} };
struct Derived : Base { uint32_t d; explicit Derived(uint32_t x) : Base(x), d(x + 1) {} };
struct Amp { uint32_t a; explicit Amp(uint32_t x) : a(x) {} Amp* operator&() { return 0; } const Amp* operator&() const { return 0; } };
struct Conv { uint32_t c; explicit Conv(uint32_t x) : c(x) {} operator int() const { return 1; } operator Base() const { return Base(2); } };
typedef boost::variant<int, unsigned, Base, Derived, Amp, Conv, const char*, boost::recursive_wrapper<long> > W;
struct PA : boost::static_visitor<const void*> { template <class T> const void* operator()(T const& t) const { return std::addressof(t); } };
extern "C" void sx_main() {
    uint32_t i = (uint32_t)sx_concretize(sx_below(8, "i")), x = sx_u32("x");
    {
        W w;
        switch (i) {
            case 0: w = (int)x; break; case 1: w = (unsigned)x; break; case 2: w = Base(x); break; case 3: w = Derived(x); break;
            case 4: w = Amp(x); break; case 5: w = Conv(x); break; case 6: w = (const char*)"s"; break; default: w = (long)x; break;
        }
        sx_assert(w.which() == (int)i, "which");
        AskT<W> a; a.v = &w; a.s.id = (int)i + 1; a.s.val = 0; a.s.addr = boost::apply_visitor(PA(), w);
        a.fn = (uint32_t)sx_concretize(sx_below(3, "fn"));
        a.form = (uint32_t)sx_concretize(sx_below(7, "form"));
        uint32_t j = (uint32_t)sx_concretize(sx_below(14, "j"));
        switch (j) {
            case 0: a.strict<int>(1); break; case 1: a.strict<unsigned>(2); break; case 2: a.strict<Base>(3); break; case 3: a.strict<Derived>(4); break;
            case 4: a.strict<Amp>(5); break; case 5: a.strict<Conv>(6); break; case 6: a.strict<const char*>(7); break; case 7: a.strict<long>(8); break;
            case 8: a.relaxed<short>(-1); break; case 9: a.relaxed<long long>(-1); break; case 10: a.relaxed<char*>(-1); break;
            case 11: a.relaxed<bool>(-1); break; case 12: a.relaxed<const void*>(-1); break; default: a.relaxed<W>(-1); break;
        }
        sx_assert(w.which() == (int)i && boost::apply_visitor(PA(), w) == a.s.addr, "get does not modify the variant");
        if (i == 0) sx_assert(boost::get<int>(w) == (int)x, "value kept");
        if (i == 3) sx_assert(boost::get<Derived>(w).b == x && boost::get<Derived>(w).d == x + 1, "value kept");
        if (i == 7) sx_assert(boost::get<long>(w) == (long)x, "value kept");
        // const-qualified requests and const-qualified alternatives
        if (i == 0 && a.fn == 0 && a.form == 0 && j == 0) {
        typedef boost::variant<const Base, int, unsigned> K;
        K k(sx_bool("kbase") ? K(Base(x)) : K((int)x));
        const void* ka = boost::apply_visitor(PA(), k);
        bool kb = k.which() == 0;
        sx_assert(boost::relaxed_get<Base>(&k) == 0, "non-const get of a const alternative yields nothing");
        sx_assert((const void*)boost::get<const Base>(&k) == (kb ? ka : 0), "const get of a const alternative");
        sx_assert((const void*)boost::get<const int>(&k) == (kb ? 0 : ka), "const get of a non-const alternative");
        sx_assert((const void*)boost::get<const Base>(&static_cast<K const&>(k)) == (kb ? ka : 0), "const get of a const variant");
        sx_assert((const void*)boost::get<int>(&static_cast<K const&>(k)) == (kb ? 0 : ka), "get of a const variant");
        sx_cover("const alternative");
        }
        // writing through get changes the content
        uint32_t y = sx_u32("y");
        if (i == 1) { boost::get<unsigned>(w) = y; sx_assert(*boost::get<unsigned>(&w) == y, "get gives write access"); }
        if (i == 3) { boost::get<Derived>(&w)->b = y; sx_assert(boost::get<Derived>(static_cast<W const&>(w)).b == y, "get gives write access"); }
    }
    sx_assert(sx_reg_count() == 0, "end"); sx_cover("end");
}
#endif
#elif defined(BACKUP)
// C09 on contents that may throw, so also in a heap backup, and on reference alternatives
struct T0 { uint32_t t; T0() : t(11) {} virtual ~T0() {} };
struct XB : N<2, ELF, 12> { explicit XB(val_t v) : N<2, ELF, 12>(v) {} };
struct XD : T0, XB { uint32_t m; explicit XD(val_t v) : XB(v), m(v.v + 1) {} };       // XB at a positive offset
struct XE : XD { uint32_t e; explicit XE(val_t v) : XD(v), e(v.v + 2) {} };
struct XU : N<4, ELF, 40> { explicit XU(val_t v) : N<4, ELF, 40>(v) {} };
typedef boost::variant<XB, boost::recursive_wrapper<XD>, XU, XE> W;
template <class U> struct Expect : boost::static_visitor<const void*> {
    template <class T> const void* operator()(T const& t) const { return go(std::addressof(t), std::integral_constant<bool, std::is_base_of<U, T>::value || std::is_same<U, T>::value>()); }
    const void* go(U const* p, std::true_type) const { return p; }
    template <class T> const void* go(T const*, std::false_type) const { return 0; }
};
template <class W, bool STRICT> struct AskW {
    W* v; uint32_t fn, form;
    template <class F, class U> R call() {
        switch (form) {
            case 0: return F::template ptr<U>(v);
            case 1: return F::template cptr<U>(static_cast<W const*>(v));
            case 2: return F::template ref<U>(*v);
            default: return F::template cref<U>(static_cast<W const&>(*v));
        }
    }
    template <class U> void ask() {
        R r = pickfn<U>(std::integral_constant<bool, STRICT>());
        const void* want = boost::apply_visitor(Expect<U>(), static_cast<W const&>(*v));
        judge(r, form >= 2, want != 0, want, 2);
    }
    template <class U> R pickfn(std::true_type) { return fn == 0 ? call<PGet, U>() : fn == 1 ? call<PStrict, U>() : call<PRelaxed, U>(); }
    template <class U> R pickfn(std::false_type) { return call<PRelaxed, U>(); }
    void any(uint32_t j) { switch (j) { case 0: ask<XB>(); break; case 1: ask<XD>(); break; case 2: ask<XU>(); break; case 3: ask<XE>(); break; default: ask<T0>(); } }
};
extern "C" void sx_main() {
    uint32_t i = (uint32_t)sx_concretize(sx_below(4, "i")), k = (uint32_t)sx_concretize(sx_below(3, "kind")), x = sx_u32("x");
    uint32_t fn = (uint32_t)sx_concretize(sx_below(3, "fn")), form = (uint32_t)sx_concretize(sx_below(4, "form")), j = (uint32_t)sx_concretize(sx_below(5, "j"));
    if (k == 2) {  // reference alternatives
        typedef boost::variant<XB&, XU&, XE&> RW;
        XB b((val_t(x))); XU u((val_t(x))); XE e((val_t(x)));
        RW w(i == 0 ? RW(b) : i == 1 ? RW(u) : RW(e));
        AskW<RW, false> a; a.v = &w; a.fn = fn; a.form = form; a.any(j);
        sx_cover("reference");
    } else {
        Quiet* q = new Quiet;
        W w((XU(val_t(x))));
        switch (i) { case 0: w = XB(val_t(x)); break; case 1: w = XD(val_t(x)); break; case 2: w = XU(val_t(x)); break; default: w = XE(val_t(x)); break; }
        if (k == 1) {  // after a failed assignment
            XU u((val_t(7))); XB b((val_t(8)));
            delete q; q = 0;
            budget = 1; bool threw = false;
            try { if (i == 2) w = static_cast<XB const&>(b); else w = static_cast<XU const&>(u); } catch (boom const&) { threw = true; }
            budget = 0;
            sx_assume(threw);
            if (sx_heap_live() > (i == 1 ? 1u : 0u)) sx_cover("in a backup");
        }
        unsigned n0 = news; reset_stats();
        AskW<W, true> a; a.v = &w; a.fn = fn; a.form = form; a.any(j);
        Stat st = total();
        sx_assert(st.copy + st.move + st.casg + st.masg + st.def + st.dtor == 0 && news == n0, "polymorphic_get copies, moves and allocates nothing");
        sx_assert(w.which() == (int)i, "polymorphic_get does not modify the variant");
        delete q;
    }
    sx_assert(sx_reg_count() == 0, "every contained object was destroyed");
    sx_cover("end");
}
#else
// ------------------------------------------------------------------ C09
struct A { uint32_t a; A() : a(1) {} };
struct B { uint32_t b; B() : b(2) {} virtual ~B() {} };
struct C1 : A { uint32_t c; C1() : c(3) {} };                    // A at offset 0
struct D1 : B, A { uint32_t d; D1() : d(4) {} };                 // A at a positive offset
struct F1 : D1 { uint32_t f; F1() : f(5) {} };                   // two levels
struct VB { uint32_t vb; VB() : vb(6) {} virtual ~VB() {} };
struct G1 : virtual VB { uint32_t g; G1() : g(7) {} };           // virtual base
struct H1 { uint32_t h; H1() : h(8) {} };                        // unrelated
struct I1 { uint32_t i; I1() : i(9) {} operator A() const { return A(); } };  // convertible only
struct S1 : A { uint32_t s; S1() : s(10) {} S1* operator&() { return 0; } const S1* operator&() const { return 0; } };
typedef boost::variant<A, C1, boost::recursive_wrapper<D1>, F1, G1, H1, I1, S1, int> W;
enum { NW = 9 };

struct AddrAs : boost::static_visitor<const void*> {};  // expected address: implicit pointer conversion of the content
template <class U> struct Expect : boost::static_visitor<const void*> {
    template <class T> const void* operator()(T const& t) const { return go(std::addressof(t), std::integral_constant<bool, std::is_base_of<U, T>::value || std::is_same<U, T>::value>()); }
    const void* go(U const* p, std::true_type) const { return p; }
    template <class T> const void* go(T const*, std::false_type) const { return 0; }
};
struct Ask {
    W* v; uint32_t fn, form;
    template <class F, class U> R call() {
        switch (form) {
            case 0: return F::template ptr<U>(v);
            case 1: return F::template cptr<U>(static_cast<W const*>(v));
            case 2: return F::template ref<U>(*v);
            case 3: return F::template cref<U>(static_cast<W const&>(*v));
            case 4: return F::template ptr<U>(static_cast<W*>(0));
            case 5: return F::template cptr<U>(static_cast<W const*>(0));
            case 6: { R r = {0, 0}; const U* p = F::template ptr<const U>(v).addr ? boost::polymorphic_relaxed_get<const U>(v) : 0; r.addr = p; return r; }
            default: return F::template ref<const U>(*v);
        }
    }
    template <class U, bool STRICT> void ask() {
        R r = pickfn<U>(std::integral_constant<bool, STRICT>());
        const void* want = form == 4 || form == 5 ? 0 : boost::apply_visitor(Expect<U>(), static_cast<W const&>(*v));
        judge(r, form == 2 || form == 3 || form == 7, want != 0, want, 2);
    }
    template <class U> R pickfn(std::true_type) { return fn == 0 ? call<PGet, U>() : fn == 1 ? call<PStrict, U>() : call<PRelaxed, U>(); }
    template <class U> R pickfn(std::false_type) { return call<PRelaxed, U>(); }
};
extern "C" void sx_main() {
    uint32_t i = (uint32_t)sx_concretize(sx_below(NW, "i"));
    {
        Quiet q;
        W w;
        switch (i) {
            case 0: w = A(); break; case 1: w = C1(); break; case 2: w = D1(); break; case 3: w = F1(); break;
            case 4: w = G1(); break; case 5: w = H1(); break; case 6: w = I1(); break; case 7: w = S1(); break; default: w = 5; break;
        }
        sx_assert(w.which() == (int)i, "which");
        Ask a; a.v = &w;
        a.fn = (uint32_t)sx_concretize(sx_below(3, "fn"));
        a.form = (uint32_t)sx_concretize(sx_below(8, "form"));
        uint32_t j = (uint32_t)sx_concretize(sx_below(13, "j"));
        switch (j) {
            case 0: a.ask<A, true>(); break; case 1: a.ask<B, true>(); break; case 2: a.ask<C1, true>(); break; case 3: a.ask<D1, true>(); break;
            case 4: a.ask<F1, true>(); break; case 5: a.ask<VB, true>(); break; case 6: a.ask<G1, true>(); break; case 7: a.ask<H1, true>(); break;
            case 8: a.ask<I1, true>(); break; case 9: a.ask<S1, true>(); break; case 10: a.ask<int, true>(); break;
            case 11: a.ask<long, false>(); break; default: a.ask<E<30> , false>(); break;
        }
        sx_assert(w.which() == (int)i, "polymorphic_get does not modify the variant");
        // const-qualified alternatives
        if (i == 8 && a.fn == 0 && a.form == 0 && j == 0) {
        typedef boost::variant<const D1, int, C1> K;
        uint32_t ki = (uint32_t)sx_concretize(sx_below(3, "ki"));
        K k(ki == 0 ? K(D1()) : ki == 1 ? K(3) : K(C1()));
        const void* want = boost::apply_visitor(Expect<A>(), k);
        sx_assert(boost::polymorphic_relaxed_get<B>(&k) == 0, "a non-const base of a const alternative is not given out");
        sx_assert((const void*)boost::polymorphic_relaxed_get<A>(&k) == (ki == 2 ? want : 0), "constness of the alternative is respected");
        sx_assert((const void*)boost::polymorphic_get<const A>(&k) == want, "a const base of a const alternative");
        sx_assert((const void*)boost::polymorphic_get<const A>(&static_cast<K const&>(k)) == want, "a const base in a const variant");
        sx_assert((const void*)boost::polymorphic_relaxed_get<A>(&static_cast<K const&>(k)) == want, "a base in a const variant");
        sx_cover("const alternative");
        }
    }
    sx_cover("end");
}
#endif
