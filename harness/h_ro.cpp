// C27: reading one variant from several threads, and using different variants in different threads, never races:
// nothing that existed before is written, on any path.
#define SX_DEFINE
#define SX_PLAIN
#include <cstdint>
#include <cstddef>
#define SX_HASH(a) ((std::size_t)((a).val & 255))
#include "pre.h"
#include <boost/functional/hash.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <boost/variant/multivisitors.hpp>

template <class L> struct Wider;
template <class... T> struct Wider<TL<T...> > { typedef boost::variant<N<39, 0, 20>, T...> type; };
typedef Wider<Types>::type WV;

struct Ctx { V const* a; V const* b; Snap sa, sb; uint32_t op, j, x; };
struct GetOne {
    Ctx* c; int op;
    template <class T, int I> void run() {
        bool hit = c->sa.id == I + 1;
        V const& v = *c->a;
        sx_assert((boost::get<T>(&v) != 0) == hit && (boost::strict_get<T>(&v) != 0) == hit && (boost::relaxed_get<T>(&v) != 0) == hit, "get");
        bool threw = false;
        try { (void)boost::get<T>(v); } catch (boost::bad_get const&) { threw = true; }
        sx_assert(threw == !hit, "get");
        sx_assert((boost::polymorphic_relaxed_get<T>(&v) != 0) == hit, "polymorphic_get");
    }
};
struct SetOne {  // thread-local variants, one after the other through the assignment forms
    Ctx* c;
    template <class T, int I> void run() {
        V l(*c->a), m(*c->b);
        T t(Info<T>::make(c->x));
        l = static_cast<T const&>(t);
        sx_assert(l.which() == I, "a thread's own variant");
        l.swap(m);
        sx_assert(m.which() == I && l.which() == c->sb.id - 1, "a thread's own variants");
        m = std::move(l);
        sx_assert(m.which() == c->sb.id - 1, "a thread's own variants");
        V n(std::move(t));
        sx_assert(n.which() == I, "a thread's own variants");
        n = *c->a;
        sx_assert(n.which() == c->sa.id - 1, "a thread's own variants");
    }
};
struct Two : boost::static_visitor<int> { template <class T, class U> int operator()(T const&, U const&) const { return Info<T>::id() * 64 + Info<U>::id(); } };
struct One : boost::static_visitor<int> { template <class T> int operator()(T const&) const { return Info<T>::id(); } };
struct Three : boost::static_visitor<int> { template <class T, class U, class W> int operator()(T const&, U const&, W const&) const { return Info<T>::id() * 64 + Info<U>::id() + Info<W>::id() * 4096; } };
struct WOne : boost::static_visitor<int> { template <class T> int operator()(T const& t) const { return (int)Info<T>::id(); } };

static void work(void* p) {
    Ctx* c = static_cast<Ctx*>(p);
    V const &a = *c->a, &b = *c->b;
    switch (c->op) {
        case 0: {
            Snap s = check(a);
            sx_assert(s.id == c->sa.id && s.val == c->sa.val && s.addr == c->sa.addr, "every thread sees the same content");
            One o; (void)a.type();
            sx_assert(a.apply_visitor(o) == s.id && boost::apply_visitor(o)(a) == s.id, "visitation");
            break;
        }
        case 1: { GetOne g; g.c = c; pick<Types>(c->j, g); break; }
        case 2: { V l(a); Snap s = check(l); sx_assert(s.id == c->sa.id && s.val == c->sa.val, "a thread's own copy"); break; }
        case 3: {
            bool eq = c->sa.id == c->sb.id && (c->sa.val == c->sb.val || c->sa.id == BLANK_AT + 1);
            sx_assert((a == b) == eq && (a != b) == !eq, "comparison");
            bool lt = a < b, gt = a > b, le = a <= b, ge = a >= b;
            sx_assert(lt == !ge && gt == !le, "comparison");
            break;
        }
#if BLANK_AT < 0
        case 4: { std::size_t h = boost::hash<V>()(a), k = boost::hash<V>()(a); sx_assert(h == k, "hash"); break; }
#endif
        case 5: { SetOne g; g.c = c; pick<Types>(c->j, g); break; }
        case 6: sx_assert(boost::apply_visitor(Two(), a, b) == c->sa.id * 64 + c->sb.id, "visitation of two"); break;
        case 7: sx_assert(boost::apply_visitor(Three(), a, b, a) == c->sa.id * 64 + c->sb.id + c->sa.id * 4096, "visitation of three"); break;
#if FAM != 10 && FAM != 13 && FAM != 25
        default: { WV w(a); sx_assert(w.which() == c->sa.id, "conversion"); w = b; sx_assert(w.which() == c->sb.id && boost::apply_visitor(WOne(), w) == c->sb.id, "conversion"); }
#else
        default: break;
#endif
    }
}
extern "C" void sx_main() {
    Holder<V> ha, hb;
    Ctx c;
    c.op = (uint32_t)sx_concretize(sx_below(9, "op"));
    Pre a = make_pre(ha, "ia", "va", true), b = a;
    bool self = sx_bool("self") != 0;
    if (!self) b = make_pre(hb, "ib", "vb", true);
    c.a = &ha.v(); c.b = self ? &ha.v() : &hb.v(); c.sa = a.s; c.sb = b.s;
    c.j = sx_below(NT, "j"); c.x = sx_u32("x");
    in_parallel(&work, &c);
    Snap s = check(ha.v()), t = check(*c.b);
    sx_assert(s.id == a.s.id && s.val == a.s.val && s.addr == a.s.addr && t.id == b.s.id && t.val == b.s.val && t.addr == b.s.addr, "reading changes nothing");
    sx_obs(s.id); sx_obs(t.id);
    if (!self) hb.v().~V();
    ha.v().~V();
    sx_cover("end");
}
