// C18: recursive variants and recursive_wrapper: deep value semantics, also when something fails.
#define SX_DEFINE
#include "sx.h"
#include <boost/variant.hpp>
#include <boost/variant/get.hpp>
using namespace sx;
#ifndef ELF
#define ELF 0
#endif
#ifndef DEPTH
#define DEPTH 2
#endif

typedef E<1, ELF, 12> Leaf;
#if KIND == 0        // recursive_wrapper by hand
struct Bin;
typedef boost::variant<Leaf, boost::recursive_wrapper<Bin> > V;
struct Bin {
    N<2, ELF> tag; V l, r;
    Bin(uint32_t t, V const& a, V const& b) : tag(val_t(t)), l(a), r(b) {}
#ifdef NO_IMPLICIT
    Bin(Bin const& o) : tag(o.tag), l(o.l), r(o.r) {}
    Bin& operator=(Bin const& o) { tag = o.tag; l = o.l; r = o.r; return *this; }
#endif
};
#else                // make_recursive_variant: the placeholder is substituted in a template
template <class A, class B> struct BinT {
    N<2, ELF> tag; A l; B r;
    BinT(uint32_t t, A const& a, B const& b) : tag(val_t(t)), l(a), r(b) {}
};
typedef boost::make_recursive_variant<Leaf, BinT<boost::recursive_variant_, boost::recursive_variant_> >::type V;
typedef BinT<V, V> Bin;
#endif

// ---- flat image of a tree
struct Img { int n; uint32_t k[32]; const void* a[32]; };
struct Walk : boost::static_visitor<void> {
    Img* m;
    explicit Walk(Img* p) : m(p) {}
    void put(uint32_t k, const void* a) const { if (m->n < 32) { m->k[m->n] = k; m->a[m->n] = a; } ++m->n; }
    void operator()(Leaf const& l) const { sx_assert(sx_reg_has(&l, 1), "live leaf"); put(1, 0); put(l.val, &l); }
    void operator()(Bin const& b) const {
        sx_assert(sx_reg_has(&b.tag, 2), "live node");
        put(2, 0); put(b.tag.val, &b.tag);
        sx_assert(b.l.which() == 0 || b.l.which() == 1, "which of the left part"); sx_assert(b.r.which() == 0 || b.r.which() == 1, "which of the right part");
        boost::apply_visitor(*this, b.l); boost::apply_visitor(*this, b.r);
    }
};
static Img image(V const& v) { Quiet q; Img m; m.n = 0; boost::apply_visitor(Walk(&m), v); sx_assert(m.n <= 32, "harness: image size"); return m; }
static bool eq(Img const& a, Img const& b) {
    if (a.n != b.n) return false;
    bool r = true;
    for (int i = 0; i < a.n; ++i) r = r & (a.k[i] == b.k[i]);
    return r;
}
static bool same_shape(Img const& a, Img const& b) {
    if (a.n != b.n) return false;
    bool r = true;
    for (int i = 0; i < a.n; i += 2) r = r & (a.k[i] == b.k[i]);
    return r;
}
static void disjoint(Img const& a, Img const& b) {
    bool r = true;
    for (int i = 1; i < a.n; i += 2) for (int j = 1; j < b.n; j += 2) if (a.a[i] == b.a[j]) r = false;
    sx_assert(r, "the parts of the two trees are never shared");
}

template <class VV> struct Raw { alignas(VV) unsigned char buf[sizeof(VV)]; VV& v() { return *reinterpret_cast<VV*>(buf); } };
static V grow(int d) {
    if (d == 0 || !sx_bool("bin")) { uint32_t x = sx_u32("leaf"); return V(Leaf(val_t(x))); }
    uint32_t t = sx_u32("tag");
    V l(grow(d - 1)); V r(grow(d - 1));
    return V(Bin(t, l, r));
}
static void plant(Raw<V>& h, int d) { Quiet q; ::new ((void*)h.buf) V(grow(d)); }
// change every value in a tree
struct Stamp : boost::static_visitor<void> {
    uint32_t x; explicit Stamp(uint32_t v) : x(v) {}
    void operator()(Leaf& l) const { l.val = x; }
    void operator()(Bin& b) const { b.tag.val = x; boost::apply_visitor(*this, b.l); boost::apply_visitor(*this, b.r); }
};
static bool stamped(Img const& m, uint32_t x) { bool r = true; for (int i = 1; i < m.n; i += 2) r = r & (m.k[i] == x); return r; }

static void trees() {
    Raw<V> ha, hb;
    uint32_t op = (uint32_t)sx_concretize(sx_below(8, "op"));
    plant(hb, DEPTH);
    bool ctor = op == 0 || op == 2;
    if (!ctor) plant(ha, DEPTH - (op >= 5));
    Img b0 = image(hb.v()), a0 = b0;
    if (!ctor) a0 = image(ha.v());
    raised = 0; budget = BUDGET; alloc_faults = true; reset_stats();
    bool threw = false;
    try {
        switch (op) {
            case 0: ::new ((void*)ha.buf) V(static_cast<V const&>(hb.v())); break;
            case 1: ha.v() = static_cast<V const&>(hb.v()); break;
            case 2: ::new ((void*)ha.buf) V(std::move(hb.v())); break;
            case 3: ha.v() = std::move(hb.v()); break;
            case 4: ha.v().swap(hb.v()); break;
            case 5: { Bin* p = boost::get<Bin>(&ha.v()); sx_assume(p != 0); p->l = static_cast<V const&>(hb.v()); break; }
            case 6: { Bin* p = boost::get<Bin>(&hb.v()); sx_assume(p != 0); ha.v() = static_cast<V const&>(p->r); break; }
            default: { Bin* p = boost::get<Bin>(&hb.v()); sx_assume(p != 0); ha.v() = static_cast<Bin const&>(*p); break; }
        }
    } catch (boom const& e) { threw = true; sx_assert(e.site == last_site, "the exception reaches the caller"); }
    catch (std::bad_alloc const&) { threw = true; sx_assert(last_site == -1, "the exception reaches the caller"); }
    budget = 0;
    Stat st = total();
    sx_assert(threw == (raised > 0), "throws exactly when a part or an allocation does");
    sx_obs(op); sx_obs(threw);
    Img b1 = image(hb.v());
    sx_obs(b1.n);
    if (op <= 1 || op >= 5) sx_assert(eq(b1, b0), "copying leaves the source tree as it was");
    if (op == 2 || op == 3) sx_assert(b1.k[0] == b0.k[0], "a moved-from tree keeps its type");
    if (threw) {
        sx_cover("failed");
        if (!ctor) {
            Img a1 = image(ha.v());
            disjoint(a1, b1);
            if ((op == 1 || op == 3 || op >= 6) && a0.k[0] != (op == 6 ? a1.k[0] + 99 : b0.k[0]) && !(ELF & DN)) {
                if (op != 6) sx_assert(eq(a1, a0), "a failed assignment of another type keeps the whole old tree");
            }
            // still usable
            Raw<V> hc; ::new ((void*)hc.buf) V(static_cast<V const&>(ha.v()));
            Img c = image(hc.v()); sx_assert(eq(c, a1), "the tree can be copied after a failure");
            hc.v().~V();
            ha.v().~V();
        }
        hb.v().~V();
        return;
    }
    Img a1 = image(ha.v());
    sx_obs(a1.n);
    disjoint(a1, b1);
    if (op <= 3) sx_assert(eq(a1, b0), "the destination has the whole tree of the source");
    if (op == 2 && (ELF & MN)) sx_assert(st.copy == 0, "moving a tree copies no part of it");
    if (op == 4) sx_assert(eq(a1, b0) && eq(b1, a0), "swap exchanges the trees");
    if (op == 5) { Quiet q; sx_assert(a1.k[1] == a0.k[1], "the node keeps its tag"); Img l = image(boost::get<Bin>(ha.v()).l); sx_assert(eq(l, b0), "the part has the whole tree of the source"); }
    if (op == 6) { Img r = image(boost::get<Bin>(hb.v()).r); sx_assert(eq(a1, r), "a copied part is the whole part"); }
    if (op == 7) sx_assert(eq(a1, b0), "assigning a node gives the whole tree");
    // independence in both directions
    bool left = sx_bool("stamp_left") != 0;
    boost::apply_visitor(Stamp(0xABCD), left ? ha.v() : hb.v());
    Img a2 = image(ha.v()), b2 = image(hb.v());
    if (left) { sx_assert(stamped(a2, 0xABCD) && same_shape(a2, a1) && eq(b2, b1), "changing the copy does not change the source"); hb.v().~V(); a2 = image(ha.v()); sx_assert(stamped(a2, 0xABCD), "destroying the source leaves the copy"); ha.v().~V(); }
    else { sx_assert(stamped(b2, 0xABCD) && eq(a2, a1), "changing the source does not change the copy"); ha.v().~V(); b2 = image(hb.v()); sx_assert(stamped(b2, 0xABCD), "destroying the copy leaves the source"); hb.v().~V(); }
    sx_cover("done");
}

// recursive_wrapper by itself
typedef E<3, ELF, 8> T;
typedef boost::recursive_wrapper<T> W;
static void wrapper() {
    Raw<W> ha, hb;
    uint32_t x = sx_u32("x"), y = sx_u32("y");
    { Quiet q; ::new ((void*)ha.buf) W(T(val_t(x))); ::new ((void*)hb.buf) W(T(val_t(y))); }
    T* pa = ha.v().get_pointer(); T* pb = hb.v().get_pointer();
    sx_assert(pa != 0 && pb != 0 && pa != pb && pa == &ha.v().get() && pa->val == x && pb->val == y, "a wrapper owns a value of its own");
    uint32_t op = (uint32_t)sx_concretize(sx_below(13, "wop"));
    raised = 0; budget = BUDGET; alloc_faults = true; reset_stats();
    bool threw = false, made = false;
    Raw<W> hc;
    T t((val_t(77)));
    try {
        switch (op) {
            case 0: ::new ((void*)hc.buf) W(static_cast<W const&>(ha.v())); made = true; break;
            case 1: ::new ((void*)hc.buf) W(std::move(ha.v())); made = true; break;
            case 2: ::new ((void*)hc.buf) W(static_cast<T const&>(t)); made = true; break;
            case 3: ::new ((void*)hc.buf) W(std::move(t)); made = true; break;
            case 4: ::new ((void*)hc.buf) W(); made = true; break;
            case 5: ha.v() = static_cast<W const&>(hb.v()); break;
            case 6: ha.v() = std::move(hb.v()); break;
            case 7: ha.v() = static_cast<T const&>(t); break;
            case 8: ha.v() = std::move(t); break;
            case 9: ha.v().swap(hb.v()); break;
            case 10: swap(ha.v(), hb.v()); break;
            case 11: { W& r = ha.v(); ha.v() = static_cast<W const&>(r); break; }
            default: { W& r = ha.v(); ha.v() = std::move(r); break; }
        }
    } catch (boom const&) { threw = true; } catch (std::bad_alloc const&) { threw = true; }
    budget = 0;
    sx_obs(op); sx_obs(threw);
    sx_assert(threw == (raised > 0), "throws exactly when the value's operation or an allocation does");
    if (op == 6 || op == 9 || op == 10 || op == 12) sx_assert(!threw, "wrapper swap and move assignment never throw");
    T *qa = ha.v().get_pointer(), *qb = hb.v().get_pointer();
    sx_assert(qa != 0 && qb != 0 && qa != qb && sx_reg_has(qa, 3) && sx_reg_has(qb, 3), "no wrapper becomes empty and none share");
    if (threw) { sx_cover("failed"); if (op != 1) sx_assert(qb->val == y && (qa->val == x || ((op == 5 || op == 7 || op == 8 || op == 11) && qa->val == torn_val(3))), "a failed operation leaves the values, but for what a failed assignment of the value itself does"); if (op == 2 || op == 7) sx_assert(t.val == 77, "the operand of a failed operation is not modified"); }
    else {
        uint32_t ax = x, bx = y, cx = 0;
        switch (op) {
            case 0: cx = x; break; case 1: cx = x; break; case 2: case 3: cx = 77; break; case 4: cx = def_val(3); break;
            case 5: ax = y; break; case 6: ax = y; break; case 7: case 8: ax = 77; break;
            case 9: case 10: ax = y; bx = x; break; default: break;
        }
        if (op != 1) sx_assert(qa->val == ax, "the wrapper has the assigned value");
        if (op != 6) sx_assert(qb->val == bx, "the other operand is as specified");
        if (made) { T* qc = hc.v().get_pointer(); sx_assert(qc != 0 && qc != qa && qc != qb && sx_reg_has(qc, 3) && qc->val == cx, "a new wrapper owns a value of its own"); hc.v().~W(); }
        if (op == 2 || op == 7) sx_assert(t.val == 77, "the operand is not modified");
        Stat st = total();
        if (op == 1 || op == 3 || op == 6 || op == 8 || op == 9 || op == 10 || op == 12) sx_assert(st.copy == 0 && st.casg == 0, "moving and swapping copy nothing");
        if (op == 3 || op == 8) sx_assert(t.val == moved_val(3), "the operand was moved from");
    }
    ha.v().~W(); hb.v().~W();
}
extern "C" void sx_main() {
#ifdef WRAPPER
    wrapper();
#else
    trees();
#endif
    sx_assert(sx_reg_count() == 0, "every part was destroyed");
    sx_cover("end");
}
