// C26: make_recursive_variant: the placeholder stands for the variant itself wherever it is written.
#define SX_DEFINE
#include "sx.h"
#include <boost/variant.hpp>
#include <boost/variant/get.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/joint_view.hpp>
using namespace sx;
#ifndef ELF
#define ELF 0
#endif
template <class A> struct Bx { A in; explicit Bx(A const& a) : in(a) {} };
template <class A, class B, class P> struct Nd {
    N<2, ELF> tag; A a; B b; P p;
    Nd(uint32_t t, A const& x, A const& y, P q) : tag(val_t(t)), a(x), b(y), p(q) {}
};
template <class A, class B, class C, class D> struct Rf { uint32_t v; explicit Rf(uint32_t x) : v(x) {} };
typedef E<1, ELF, 12> L0;
typedef N<3, ELF> L1;
typedef boost::recursive_variant_ rv;
#define FORMS L0, Nd<rv, Bx<rv>, rv*>, rv*, L1, rv (*)(rv const&, rv*), boost::variant<L0, rv>, const rv*, Bx<Bx<rv> >, boost::variant<rv, L0>, Rf<rv&, rv* const, rv const, rv* volatile>
#if KIND == 0
typedef boost::make_recursive_variant<FORMS>::type V;
#elif KIND == 1
typedef boost::make_recursive_variant_over<boost::mpl::vector<FORMS> >::type V;
#else
typedef boost::make_recursive_variant_over<boost::mpl::list<FORMS> >::type V;
#endif
typedef Nd<V, Bx<V>, V*> D;
typedef V (*F)(V const&, V*);
typedef boost::variant<L0, V> U;
typedef Bx<Bx<V> > BB;
typedef boost::variant<V, L0> T;
typedef Rf<V&, V* const, V const, V* volatile> R;
enum { NF = 10 };

static V fn0(V const& v, V*) { return v; }
static V fn1(V const&, V* p) { return *p; }

struct Img { int n; uint64_t k[40]; };
struct Walk : boost::static_visitor<void> {
    Img* m;
    explicit Walk(Img* p) : m(p) {}
    void put(uint64_t k) const { if (m->n < 40) m->k[m->n] = k; ++m->n; }
    void sub(V const& v) const { sx_assert(v.which() >= 0 && v.which() < NF, "which of a part"); boost::apply_visitor(*this, v); }
    void head(int i, const void* a) const { put(i); (void)a; }
    void operator()(L0 const& x) const { x.use(); put(0); put(x.val); }
    void operator()(D const& x) const { x.tag.use(); put(1); put(x.tag.val); put((uint64_t)(uintptr_t)x.p); sub(x.a); sub(x.b.in); }
    void operator()(V* const& p) const { put(2); put((uint64_t)(uintptr_t)p); }
    void operator()(L1 const& x) const { x.use(); put(3); put(x.val); }
    void operator()(F const& f) const { put(4); put(f == &fn0 ? 0 : f == &fn1 ? 1 : 2); }
    void operator()(U const& u) const {
        put(5); put(u.which());
        if (u.which() == 0) { boost::get<L0 >(u).use(); put(boost::get<L0 >(u).val); } else sub(boost::get<V>(u));
    }
    void operator()(const V* const& p) const { put(6); put((uint64_t)(uintptr_t)p); }
    void operator()(BB const& x) const { put(7); sub(x.in.in); }
    void operator()(R const& x) const { put(9); put(x.v); }
    void operator()(T const& t) const {
        put(8); put(t.which());
        if (t.which() == 0) sub(boost::get<V>(t)); else put(boost::get<L0>(t).val);
    }
};
static Img image(V const& v) {
    Quiet q; Img m; m.n = 0; boost::apply_visitor(Walk(&m), v); sx_assert(m.n <= 40, "harness: image size");
    sx_assert(m.k[0] == (uint64_t)v.which(), "each form is at its place in the list");
    sx_assert((boost::get<L0>(&v) != 0) == (v.which() == 0) && (boost::get<D>(&v) != 0) == (v.which() == 1) && (boost::get<V*>(&v) != 0) == (v.which() == 2) &&
              (boost::get<L1>(&v) != 0) == (v.which() == 3) && (boost::get<F>(&v) != 0) == (v.which() == 4) && (boost::get<U>(&v) != 0) == (v.which() == 5) &&
              (boost::get<const V*>(&v) != 0) == (v.which() == 6) && (boost::get<BB>(&v) != 0) == (v.which() == 7) && (boost::get<T>(&v) != 0) == (v.which() == 8) && (boost::get<R>(&v) != 0) == (v.which() == 9), "get names each form with the variant in the placeholder's place");
    return m;
}
static bool eq(Img const& a, Img const& b) { if (a.n != b.n) return false; bool r = true; for (int i = 0; i < a.n; ++i) r = r & (a.k[i] == b.k[i]); return r; }

static V* target;  // what pointers point to
template <class VV> struct Raw { alignas(VV) unsigned char buf[sizeof(VV)]; VV& v() { return *reinterpret_cast<VV*>(buf); } };
static V small(uint32_t x, bool ptr) { if (ptr) return V(target); return V(L1(val_t(x))); }
static void build(void* at, uint32_t i, uint32_t x, bool s) {
    switch (i) {
        case 0: ::new (at) V(L0(val_t(x))); break;
        case 1: ::new (at) V(D(x, small(x + 1, s), small(x + 2, !s), target)); break;
        case 2: ::new (at) V(s ? target : target + 1); break;
        case 3: ::new (at) V(L1(val_t(x))); break;
        case 4: ::new (at) V(s ? &fn0 : &fn1); break;
        case 5: { U u((L0(val_t(x)))); if (s) { V t((L0(val_t(x)))); u = static_cast<V const&>(t); } ::new (at) V(static_cast<U const&>(u)); break; }
        case 6: ::new (at) V(static_cast<const V*>(s ? target : target + 1)); break;
        case 7: ::new (at) V(BB(Bx<V>(small(x, s)))); break;
        case 9: ::new (at) V(R(x)); break;
        default: { T t((L0(val_t(x)))); if (s) { V u((L0(val_t(x)))); t = static_cast<V const&>(u); } ::new (at) V(static_cast<T const&>(t)); break; }
    }
}
static Img expect(uint32_t i, uint32_t x, bool s) {
    Img m; m.n = 0; Walk w(&m); uint64_t t = (uint64_t)(uintptr_t)target, t1 = (uint64_t)(uintptr_t)(target + 1);
    w.put(i);
    switch (i) {
        case 0: case 3: case 9: w.put(x); break;
        case 1: w.put(x); w.put(t); if (s) { w.put(2); w.put(t); w.put(3); w.put((uint32_t)(x + 2)); } else { w.put(3); w.put((uint32_t)(x + 1)); w.put(2); w.put(t); } break;
        case 2: case 6: w.put(s ? t : t1); break;
        case 4: w.put(s ? 0 : 1); break;
        case 5: w.put(s); if (s) w.put(0); w.put(x); break;
        case 7: if (s) { w.put(2); w.put(t); } else { w.put(3); w.put(x); } break;
        default: w.put(!s); if (s) w.put(0); w.put(x); break;
    }
    return m;
}
static bool plain(uint32_t i) { return i != 1 && i != 5 && i != 7 && i != 8 && i != 9; }

extern "C" void sx_main() {
    {
        Raw<V[2]> tg; target = reinterpret_cast<V*>(tg.buf);
        Raw<V> ha, hb;
        uint32_t op = (uint32_t)sx_concretize(sx_below(6, "op"));
        uint32_t i = (uint32_t)sx_concretize(sx_below(NF, "i")), x = sx_u32("x");
        bool s = sx_bool("s") != 0;
        { Quiet q; build(hb.buf, i, x, s); }
        Img b0 = image(hb.v());
        sx_assert(eq(b0, expect(i, x, s)), "a value of each form is stored as it is");
        Img a0 = b0; uint32_t j = 0;
        if (op >= 2) { Quiet q; j = (uint32_t)sx_concretize(sx_below(NF, "j")); uint32_t y = sx_u32("y"); bool r = sx_bool("r") != 0; build(ha.buf, j, y, r); a0 = image(ha.v()); sx_assert(eq(a0, expect(j, y, r)), "a value of each form is stored as it is"); }
        unsigned n0 = news; raised = 0; budget = BUDGET; alloc_faults = true; bool threw = false;
        try {
            switch (op) {
                case 0: ::new ((void*)ha.buf) V(static_cast<V const&>(hb.v())); break;
                case 1: ::new ((void*)ha.buf) V(std::move(hb.v())); break;
                case 2: ha.v() = static_cast<V const&>(hb.v()); break;
                case 3: ha.v() = std::move(hb.v()); break;
                case 4: ha.v().swap(hb.v()); break;
                default:
                    switch (i) {
                        case 0: ha.v() = boost::get<L0>(static_cast<V const&>(hb.v())); break; case 1: ha.v() = boost::get<D>(static_cast<V const&>(hb.v())); break;
                        case 2: ha.v() = boost::get<V*>(static_cast<V const&>(hb.v())); break; case 3: ha.v() = boost::get<L1>(static_cast<V const&>(hb.v())); break;
                        case 4: ha.v() = boost::get<F>(static_cast<V const&>(hb.v())); break; case 5: ha.v() = boost::get<U>(static_cast<V const&>(hb.v())); break;
                        case 6: ha.v() = boost::get<const V*>(static_cast<V const&>(hb.v())); break; case 7: ha.v() = boost::get<BB>(static_cast<V const&>(hb.v())); break; case 9: ha.v() = boost::get<R>(static_cast<V const&>(hb.v())); break; default: ha.v() = boost::get<T>(static_cast<V const&>(hb.v())); break;
                    }
            }
        } catch (boom const&) { threw = true; } catch (std::bad_alloc const&) { threw = true; }
        budget = 0;
        sx_assert(threw == (raised > 0), "throws exactly when a part or an allocation does");
        sx_obs(op); sx_obs(threw);
        Img b1 = image(hb.v());
        if (op == 0 || op == 2 || op == 5) sx_assert(eq(b1, b0), "the source keeps its value");
        if (threw) { sx_cover("failed"); if (op >= 2) { image(ha.v()); ha.v().~V(); } }
        else {
            Img a1 = image(ha.v());
            sx_assert(eq(a1, b0), "the value reaches the destination");
            if (op == 4) sx_assert(eq(b1, a0), "swap exchanges");
            if (op < 2 && plain(i)) { sx_assert(news == n0, "forms without the placeholder, and pointers, are held without memory of their own"); sx_cover("plain"); }
            if (op < 2 && !plain(i)) { sx_assert(news > n0, "forms that contain the variant own their value"); sx_cover("owned"); }
            ha.v().~V();
        }
        hb.v().~V();
    }
    sx_assert(sx_reg_count() == 0, "every part was destroyed");
    sx_cover("end");
}
