// C19: reference alternatives designate the object they were bound to.
#define SX_DEFINE
#include "sx.h"
#include <boost/variant.hpp>
#include <boost/variant/get.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <boost/variant/multivisitors.hpp>
using namespace sx;

typedef E<1> A; typedef N<2, 0, 12> B; typedef C<3> D;
struct Base { uint32_t tag; virtual ~Base() {} Base() : tag(0) {} };
#if KIND == 3
typedef boost::variant<A&, D&> V;      // conversions
enum { NT = 2 };
typedef boost::variant<A, D> VV2;
typedef boost::variant<D const&, A const&> VC;
typedef boost::variant<D&, A&> VR;
struct Der : Base { uint32_t v; uint32_t pad; };
struct Two { uint32_t x; };
struct Der2 : Two, Base { uint32_t v; };
#elif KIND == 0
typedef boost::variant<A&> V;
enum { NT = 1 };
#elif KIND == 1
typedef boost::variant<A&, B, D&> V;   // mixed
enum { NT = 3 };
#elif KIND == 2
typedef boost::variant<B, A&, D const&> V;  // const reference
enum { NT = 3 };
#endif

struct Seen { int id; const void* addr; uint32_t val; bool cst; int n; };
struct Look : boost::static_visitor<void> {
    Seen* s; explicit Look(Seen* p) : s(p) {}
    template <class T> void operator()(T& t) const { s->id = std::remove_const<T>::type::id; s->addr = &t; s->val = t.val; s->cst = std::is_const<T>::value; ++s->n; sx_assert(sx_reg_has(&t, std::remove_const<T>::type::id), "the content is a live object"); }
};
struct Look2 : boost::static_visitor<void> {
    Seen *s, *r; Look2(Seen* p, Seen* q) : s(p), r(q) {}
    template <class T, class U> void operator()(T& t, U& u) const { Look a(s); a(t); Look b(r); b(u); }
};
template <class VV> static Seen look(VV& v) { Quiet q; Seen s = Seen(); boost::apply_visitor(Look(&s), v); sx_assert(s.n == 1, "visited once"); return s; }
struct Write : boost::static_visitor<void> {
    uint32_t x; explicit Write(uint32_t v) : x(v) {}
    template <class T> void operator()(T& t) const { t.val = x; }
    template <class T> void operator()(T const&) const {}
};
struct HV { alignas(V) unsigned char buf[sizeof(V)]; V& v() { return *reinterpret_cast<V*>(buf); } };

#if KIND == 3
extern "C" void sx_main() {
    uint32_t xa = sx_u32("xa"), xd = sx_u32("xd"), nv = sx_u32("nv");
    {
        A a((val_t(xa))); D d((val_t(xd)));
        A a2((val_t(nv))); D d2((val_t(nv)));
        HV h, g;
        bool first = sx_bool("first") != 0, gfirst = sx_bool("gfirst") != 0;
        if (first) ::new ((void*)h.buf) V(a); else ::new ((void*)h.buf) V(d);
        if (gfirst) ::new ((void*)g.buf) V(a2); else ::new ((void*)g.buf) V(d2);
        const void* addr = first ? (const void*)&a : (const void*)&d;
        uint32_t val = first ? xa : xd;
        sx_assert(h.v().which() == (first ? 0 : 1) && look(h.v()).addr == addr, "bound to the object");
        // comparison is by index, then by the objects' values
        V const &x = h.v(), &y = g.v();
        bool eq = x == y, lt = x < y;
        sx_assert(eq == (first == gfirst && val == nv), "comparison compares the objects");
        sx_assert(lt == (first == gfirst ? val < nv : first), "ordering compares the objects");
        // conversion to a variant of values copies
        raised = 0; budget = 1; alloc_faults = true;
        bool threw = false;
        uint64_t live0 = sx_reg_count();
        try {
            uint32_t mode = (uint32_t)sx_concretize(sx_below(8, "mode"));
            if (mode < 4) {
                VV2 v = mode == 0 ? VV2(x) : mode == 1 ? VV2(h.v()) : VV2(D(val_t(0)));
                if (mode == 2) v = x;
                if (mode == 3) v = h.v();
                budget = 0;
                Seen s = look(v);
                sx_assert(s.id == (first ? 1 : 3) && s.val == val && s.addr != addr, "converted to a value of its own");
                sx_assert(a.val == xa && d.val == xd && look(h.v()).addr == addr, "the object and the reference to it are as they were");
                boost::apply_visitor(Write(nv + 1), v);
                sx_assert(a.val == xa && d.val == xd, "which is independent of the object");
                sx_cover("value");
            } else if (mode == 4) {
                VR c(h.v());
                budget = 0;
                Seen s = look(c);
                sx_assert(c.which() == (first ? 1 : 0) && s.addr == addr && !s.cst && raised == 0, "converted to a reference to the same object");
                VR c2(c);
                boost::apply_visitor(Write(nv), c2);
                sx_assert((first ? a.val : d.val) == nv && (first ? d.val == xd : a.val == xa), "writing through it changes that object and nothing else");
                sx_assert(sx_reg_count() == live0, "without making an object");
            } else {
                VC c = mode == 5 ? VC(x) : mode == 6 ? VC(h.v()) : VC(std::move(h.v()));
                budget = 0;
                Seen s = look(c);
                sx_assert(c.which() == (first ? 1 : 0) && s.addr == addr && s.cst && raised == 0, "converted to a reference to the same object");
                sx_assert(sx_reg_count() == live0, "without making an object");
                VC c2(c);
                boost::apply_visitor(Write(nv), h.v());
                sx_assert(look(c2).addr == addr && look(c2).val == nv, "and sees its changes");
                sx_cover("reference");
            }
        } catch (boom const& e) { threw = true; same_exception(e); sx_cover("failed"); } catch (std::bad_alloc const&) { threw = true; }
        budget = 0;
        sx_assert(threw == (raised > 0) && sx_reg_count() == live0, "a failed conversion leaves nothing");
        sx_obs(first); sx_obs(threw); sx_obs(eq); sx_obs(lt);
        h.v().~V(); g.v().~V();
        sx_assert(sx_reg_count() == live0, "destroying the variants leaves the objects");
        // base references
        Der e; Der2 e2; Base* pe = &e; Base* pe2 = &e2; e.tag = xa; e2.tag = xd;
        boost::variant<Base&> b1(e), b2(e2);
        boost::variant<Base&> b3(b2);
        sx_assert(&boost::get<Base>(b1) == pe && &boost::get<Base>(b2) == pe2 && &boost::get<Base>(b3) == pe2, "a base reference designates the base of the object");
        boost::get<Base>(b3).tag = nv;
        sx_assert(e2.tag == nv && e.tag == xa, "and writes to it");
    }
    sx_assert(sx_reg_count() == 0, "all gone");
    sx_cover("end");
}
#else
// the objects outside, and what is expected
static A* pa; static B* pb; static D* pd;
struct Want { int id; const void* addr; uint32_t val; };

static Want make(HV& h, uint32_t i) {
    Quiet q;
    Want w;
#if KIND == 0
    ::new ((void*)h.buf) V(*pa); w.id = 1; w.addr = pa; w.val = pa->val;
#elif KIND == 1
    if (i == 0) { ::new ((void*)h.buf) V(*pa); w.id = 1; w.addr = pa; w.val = pa->val; }
    else if (i == 1) { B const& c = *pb; ::new ((void*)h.buf) V(c); w.id = 2; w.addr = 0; w.val = pb->val; }
    else { ::new ((void*)h.buf) V(*pd); w.id = 3; w.addr = pd; w.val = pd->val; }
#else
    if (i == 1) { ::new ((void*)h.buf) V(*pa); w.id = 1; w.addr = pa; w.val = pa->val; }
    else if (i == 0) { B const& c = *pb; ::new ((void*)h.buf) V(c); w.id = 2; w.addr = 0; w.val = pb->val; }
    else { D const& d = *pd; ::new ((void*)h.buf) V(d); w.id = 3; w.addr = pd; w.val = pd->val; }
#endif
    return w;
}
static int position(int id) {
#if KIND == 0
    return 0;
#elif KIND == 1
    return id - 1;
#else
    return id == 2 ? 0 : id == 1 ? 1 : 2;
#endif
}
static void verify(V& v, Want const& w, bool moved = false) {
    V const& c = v;
    sx_assert(v.which() == position(w.id), "which() names the alternative");
    sx_assert(!v.empty(), "never empty");
    Seen s = look(v), k = look(c);
    sx_assert(s.id == w.id && k.id == w.id && s.addr == k.addr, "visitation reaches the alternative");
    if (!moved) sx_assert(s.val == w.val, "and its value");
    if (w.addr) sx_assert(s.addr == w.addr, "a reference alternative designates the object it was bound to");
    else sx_assert((const char*)s.addr >= (const char*)&v && (const char*)s.addr < (const char*)&v + sizeof(V), "a value alternative is stored in the variant");
    { Seen x = Seen(), y = Seen(); Quiet q; boost::apply_visitor(Look2(&x, &y), v, v); sx_assert(x.addr == s.addr && y.addr == s.addr && x.n == 1 && y.n == 1, "visiting two variants reaches the same object"); }
    // get in all its forms
    const void *ga, *gb = 0, *gd = 0;
    ga = boost::get<A>(&v);
    sx_assert(ga == boost::relaxed_get<A>(&v) && ga == boost::strict_get<A>(&v), "the forms of get agree");
    sx_assert(ga == (const void*)boost::get<A>(&c) && ga == (const void*)boost::relaxed_get<A>(&c), "const get agrees");
    if (w.id == 1) { sx_assert(&boost::get<A>(v) == ga && &boost::get<A>(c) == ga, "get by reference designates the same object"); }
    else { bool t = false; try { boost::get<A>(v); } catch (boost::bad_get const&) { t = true; } sx_assert(t, "get of another type throws"); }
#if KIND != 0
    gb = boost::get<B>(&v);
#if KIND == 1
    gd = boost::get<D>(&v);
    sx_assert(gd == (const void*)boost::get<D>(&c), "const get agrees");
#else
    gd = boost::get<D const>(&v);
    sx_assert(gd == (const void*)boost::get<D const>(&c), "const get agrees");
#endif
#endif
    sx_assert(ga == (w.id == 1 ? s.addr : 0), "get yields the bound object exactly when the reference alternative is held");
    sx_assert(gb == (w.id == 2 ? s.addr : 0), "get yields the value alternative exactly when it is held");
    sx_assert(gd == (w.id == 3 ? s.addr : 0), "get yields the second reference exactly when it is held");
    sx_assert(boost::polymorphic_get<A>(&v) == ga, "polymorphic_get yields the same object");
    sx_obs(s.id); if (!moved) sx_obs(s.val);
}

extern "C" void sx_main() {
    uint32_t xa = sx_u32("xa"), xb = sx_u32("xb"), xd = sx_u32("xd"), xo = sx_u32("xo"), nv = sx_u32("nv");
    {
        A a((val_t(xa))); B b((val_t(xb))); D d((val_t(xd))); A other((val_t(xo)));
        pa = &a; pb = &b; pd = &d;
        HV h1, h2;
        uint32_t i = (uint32_t)sx_concretize(sx_below(NT, "i"));
        uint64_t live0 = sx_reg_count();
        Want w = make(h1, i);
        sx_assert(sx_reg_count() == live0 + (w.addr == 0), "binding a reference makes no object");
        verify(h1.v(), w);
        uint32_t op = (uint32_t)sx_concretize(sx_below(6, "op"));
        raised = 0; budget = 1; alloc_faults = true; news = 0;
        reset_stats();
        bool threw = false, made = false;
        try {
            switch (op) {
                case 0: ::new ((void*)h2.buf) V(static_cast<V const&>(h1.v())); made = true; break;
                case 1: ::new ((void*)h2.buf) V(std::move(h1.v())); made = true; break;
                case 2: ::new ((void*)h2.buf) V(h1.v()); made = true; break;  // non-const lvalue
                case 3: break;
                case 4: a.val = nv; if (w.addr == &a) w.val = nv; break;  // changing the object outside shows inside
                default: { V t(static_cast<V const&>(h1.v())); verify(t, w); break; }  // a copy made and destroyed
            }
        } catch (boom const& e) { threw = true; same_exception(e); } catch (std::bad_alloc const&) { threw = true; }
        budget = 0;
        sx_obs(op); sx_obs(threw);
        sx_assert(threw == (raised > 0), "throws exactly when the content does");
        if (w.addr) { Stat t = total(); sx_assert(!threw && t.copy + t.move + t.casg + t.masg + t.def + t.dtor == 0 && news == 0, "copying and destroying a reference alternative never touches the object"); sx_cover("reference"); }
        if (threw) sx_cover("failed"); else made = op <= 2;
        if (threw) made = false;
        verify(h1.v(), w, op == 1);
        if (made) {
            verify(h2.v(), w);
            if (w.addr) sx_assert(look(h2.v()).addr == look(h1.v()).addr, "copies designate the same object");
        }
        // write through the copy (or the original)
        V& target = made ? h2.v() : h1.v();
        uint32_t was = w.val;
        Seen before = look(target);
        boost::apply_visitor(Write(nv), target);
        bool cst = before.cst;
        w.val = cst ? was : nv;
        if (op != 1 || made) verify(target, w);
        if (w.addr == 0) w.val = made ? was : nv;
        if (w.addr == &a) sx_assert(a.val == nv, "writing through the reference changes the object"); else sx_assert(a.val == (op == 4 ? nv : xa), "and nothing else");
        if (w.addr == &d && !cst) sx_assert(d.val == nv, "writing through the reference changes the object"); else sx_assert(d.val == xd, "and nothing else");
        sx_assert(b.val == xb && other.val == xo, "and nothing else");
        verify(h1.v(), w, op == 1 && w.addr == 0);
        // destroying leaves the objects
        uint32_t fa = a.val, fd = d.val;
        bool first = sx_bool("first") != 0;
        if (made && !first) { h2.v().~V(); verify(h1.v(), w, op == 1 && w.addr == 0); h1.v().~V(); }
        else { h1.v().~V(); if (made) { if (w.addr) verify(h2.v(), w); h2.v().~V(); } }
        sx_assert(sx_reg_count() == live0, "destroying the variants leaves the objects");
        a.use(); d.use();
        sx_assert(a.val == fa && d.val == fd && b.val == xb, "and their values");
    }
    sx_assert(sx_reg_count() == 0, "all gone");
    sx_cover("end");
}
#endif
