// C10 C11 C12: visitors that declare no result type and whose result differs from alternative to alternative.
// Every result must arrive with its value (arithmetic results of different ranks), as the object it designates
// (references to a base and to classes derived from it) or as the same pointer (converted to a base's).
#define SX_DEFINE
#include "sx.h"
#include <boost/variant.hpp>
#include <boost/variant/apply_visitor.hpp>
#include <boost/variant/multivisitors.hpp>
using namespace sx;
typedef E<1> A; typedef N<2, 0, 12> B; typedef C<3, ALLN> Cc; typedef E<4, ALLN, 20> D;
#if ORDER == 0
typedef boost::variant<A, B, Cc, D> V; typedef TL<A, B, Cc, D> Types;
#elif ORDER == 1
typedef boost::variant<B, boost::recursive_wrapper<D>, A, Cc> V; typedef TL<B, D, A, Cc> Types;
#elif ORDER == 2
typedef boost::variant<D, A, Cc, boost::recursive_wrapper<B> > V; typedef TL<D, A, Cc, B> Types;
#else
typedef boost::variant<Cc, B> V; typedef TL<Cc, B> Types;
#endif
enum { NT = len<Types>::value };
struct Pad { uint32_t p; }; struct Base { uint32_t b; }; struct Der : Pad, Base { uint32_t d; }; struct Der2 : Der { uint32_t e; };
static Base g_b; static Der g_d; static Der2 g_d2; static uint32_t g_u;
template <int K> struct R;
#if RESULT == 0  // numbers
template <> struct R<0> { typedef uint8_t type; static type get(uint64_t v) { return (uint8_t)v; } };
template <> struct R<1> { typedef uint64_t type; static type get(uint64_t v) { return v * 0x100000001ull; } };
template <> struct R<2> { typedef uint16_t type; static type get(uint64_t v) { return (uint16_t)v; } };
template <> struct R<3> { typedef uint32_t type; static type get(uint64_t v) { return (uint32_t)v; } };
template <class T> static bool same(T got, int k, uint64_t v) { uint64_t w = k == 0 ? R<0>::get(v) : k == 1 ? R<1>::get(v) : k == 2 ? R<2>::get(v) : R<3>::get(v); return (uint64_t)got == w; }
#elif RESULT == 1  // references
template <> struct R<0> { typedef Base& type; static type get(uint64_t) { return g_b; } };
template <> struct R<1> { typedef Der& type; static type get(uint64_t) { return g_d; } };
template <> struct R<2> { typedef Base& type; static type get(uint64_t) { return g_d; } };
template <> struct R<3> { typedef Base& type; static type get(uint64_t) { return g_d2; } };
static bool same(Base& got, int k, uint64_t) { return &got == (k == 0 ? &g_b : k == 3 ? static_cast<Base*>(&g_d2) : static_cast<Base*>(&g_d)); }
#elif RESULT == 2  // pointers
template <> struct R<0> { typedef Der* type; static type get(uint64_t v) { return v & 1 ? &g_d : 0; } };
template <> struct R<1> { typedef Base* type; static type get(uint64_t) { return &g_b; } };
template <> struct R<2> { typedef Der2* type; static type get(uint64_t) { return &g_d2; } };
template <> struct R<3> { typedef const Base* type; static type get(uint64_t v) { return v & 1 ? &g_b : 0; } };
static bool same(const Base* got, int k, uint64_t v) { return got == (k == 0 ? (v & 1 ? static_cast<Base*>(&g_d) : 0) : k == 1 ? &g_b : k == 2 ? static_cast<Base*>(&g_d2) : v & 1 ? &g_b : 0); }
#else  // a value from one, a reference from another, of the same type or wider
template <> struct R<0> { typedef uint32_t& type; static type get(uint64_t v) { g_u = (uint32_t)v; return g_u; } };
template <> struct R<1> { typedef uint32_t type; static type get(uint64_t v) { return (uint32_t)v + 1; } };
template <> struct R<2> { typedef uint32_t const& type; static type get(uint64_t v) { g_u = (uint32_t)v + 2; return g_u; } };
template <> struct R<3> { typedef uint64_t type; static type get(uint64_t v) { return v + 0x500000000ull; } };
template <class T> static bool same(T got, int k, uint64_t v) { uint64_t w = k == 0 ? (uint32_t)v : k == 1 ? (uint32_t)v + 1 : k == 2 ? (uint32_t)v + 2 : v + 0x500000000ull; return (uint64_t)got == w; }
#endif
template <class T> struct Id { enum { value = std::remove_reference<T>::type::id - 1 }; };
static int calls;
template <class... T> uint64_t mixv(T const&... t) { uint64_t r = 0; int d[] = {(t.use(), r = r * 3 + t.val, 0)...}; (void)d; return r; }
template <class... T> struct Sum;
template <class T> struct Sum<T> { enum { value = Id<T>::value }; };
template <class T, class U, class... W> struct Sum<T, U, W...> { enum { value = Id<T>::value + Sum<U, W...>::value }; };

struct Vis { template <class... T> typename R<Sum<T...>::value % 4>::type operator()(T&&... t) const { ++calls; return R<Sum<T...>::value % 4>::get(mixv(t...)); } };
template <class VV> struct Raw { alignas(VV) unsigned char buf[sizeof(VV)]; VV& v() { return *reinterpret_cast<VV*>(buf); } };
struct Put { void* p; uint32_t x; template <class T, int I> void run() { ::new (p) V(T(val_t(x))); } };
struct Who : boost::static_visitor<int> { template <class T> int operator()(T const&) const { return T::id - 1; } };

static void body() {
    uint32_t x[NARGS]; int k = 0; uint64_t mv = 0;
    Raw<V> h[NARGS];
    for (int i = 0; i < NARGS; ++i) {
        Quiet q;
        x[i] = sx_u32("x");
        Put p; p.p = (void*)h[i].buf; p.x = x[i];
        pick<Types>((uint32_t)sx_concretize(sx_below(NT, "alt")), p);
        k += boost::apply_visitor(Who(), static_cast<V const&>(h[i].v())); mv = mv * 3 + x[i];
    }
    k %= 4;
    auto lam = [](auto&&... t) -> typename R<Sum<decltype(t)...>::value % 4>::type { ++calls; return R<Sum<decltype(t)...>::value % 4>::get(mixv(t...)); };
    Vis vis; Vis const cvis = Vis(); (void)vis; (void)cvis; (void)lam;
    calls = 0;
    uint32_t f = (uint32_t)sx_concretize(sx_below(9, "form"));
    bool ok = false;
#if NARGS == 1
#define L h[0].v()
#define CL static_cast<V const&>(h[0].v())
#define RV std::move(h[0].v())
#elif NARGS == 2
#define L h[0].v(), h[1].v()
#define CL static_cast<V const&>(h[0].v()), h[1].v()
#define RV std::move(h[0].v()), std::move(h[1].v())
#else
#define L h[0].v(), h[1].v(), h[2].v()
#define CL static_cast<V const&>(h[0].v()), h[1].v(), h[2].v()
#define RV std::move(h[0].v()), h[1].v(), std::move(h[2].v())
#endif
    switch (f) {
        case 0: ok = same(boost::apply_visitor(vis, L), k, mv); break;
        case 1: ok = same(boost::apply_visitor(cvis, L), k, mv); break;
        case 2: ok = same(boost::apply_visitor(Vis(), L), k, mv); break;
        case 3: ok = same(boost::apply_visitor(lam, CL), k, mv); break;
        case 4: ok = same(boost::apply_visitor(lam, L), k, mv); break;
        case 5: ok = same(boost::apply_visitor(vis, RV), k, mv); break;
        case 6: ok = same(boost::apply_visitor(vis, CL), k, mv); break;
#if NARGS == 1
        case 7: ok = same(boost::apply_visitor(vis)(L), k, mv); break;
        default: ok = same(boost::apply_visitor(lam)(CL), k, mv); break;
#else
        default: ok = same(boost::apply_visitor(Vis(), CL), k, mv); break;
#endif
    }
    sx_assert(calls == 1, "the visitor is called once");
    sx_assert(ok, "the visitor's result arrives with its value");
    for (int i = 0; i < NARGS; ++i) h[i].v().~V();
}
extern "C" void sx_main() { body(); sx_assert(sx_reg_count() == 0, "every contained object was destroyed"); sx_cover("end"); }
