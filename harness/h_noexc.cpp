// C20: noexcept operations never fail, and noexcept follows the bounded types.
#define SX_DEFINE
#include "sx.h"
#include <boost/variant.hpp>
#include <boost/variant/get.hpp>
#include <boost/variant/polymorphic_get.hpp>
using namespace sx;
#ifndef LO
#define LO 0
#endif
#ifndef HI
#define HI 32
#endif

// SHAPE: how the variant is made of the alternative X with flags F
template <int F> struct Make {
#if SHAPE == 0
    typedef E<1, F> A; typedef E<2, ALLN, 12> B; enum { NT = 2 };
    typedef boost::variant<A, B> V; typedef TL<A, B> Types; typedef TL<A, B> Bounded;
#elif SHAPE == 1
    typedef E<1, ALLN> A; typedef E<2, F, 12> B; enum { NT = 2 };
    typedef boost::variant<A, B> V; typedef TL<A, B> Types; typedef TL<A, B> Bounded;
#elif SHAPE == 2
    typedef E<1, F> A; enum { NT = 1 };
    typedef boost::variant<A> V; typedef TL<A> Types; typedef TL<A> Bounded;
#elif SHAPE == 3   // no declared move operations
    typedef CD<1, F> A; typedef E<2, ALLN, 12> B; enum { NT = 2 };
    typedef boost::variant<A, B> V; typedef TL<A, B> Types; typedef TL<A, B> Bounded;
#elif SHAPE == 4   // move only
    typedef MD<1, ALLN> A; typedef MD<2, F, 12> B; enum { NT = 2 };
    typedef boost::variant<A, B> V; typedef TL<A, B> Types; typedef TL<A, B> Bounded;
#elif SHAPE == 5   // wrapped: the bounded type allocates
    typedef E<1, ALLN> A; typedef E<2, F, 12> B; enum { NT = 2 };
    typedef boost::variant<A, boost::recursive_wrapper<B> > V; typedef TL<A, B> Types; typedef TL<A, boost::recursive_wrapper<B> > Bounded;
#elif SHAPE == 7   // wrapped first
    typedef E<1, F> A; typedef E<2, ALLN, 12> B; enum { NT = 2 };
    typedef boost::variant<boost::recursive_wrapper<A>, B> V; typedef TL<A, B> Types; typedef TL<boost::recursive_wrapper<A>, B> Bounded;
#elif SHAPE == 6   // last of three
    typedef E<1, ALLN> A; typedef E<2, ALLN, 12> B; typedef N<3, F> D; enum { NT = 3 };
    typedef boost::variant<A, B, D> V; typedef TL<A, B, D> Types; typedef TL<A, B, D> Bounded;
#endif
};
template <class L> struct nmc_all; template <> struct nmc_all<TL<> > { enum { value = 1 }; };
template <class H, class... T> struct nmc_all<TL<H, T...> > { enum { value = std::is_nothrow_move_constructible<H>::value && nmc_all<TL<T...> >::value }; };
template <class L> struct nma_all; template <> struct nma_all<TL<> > { enum { value = 1 }; };
template <class H, class... T> struct nma_all<TL<H, T...> > { enum { value = std::is_nothrow_move_assignable<H>::value && nma_all<TL<T...> >::value }; };

template <class V> struct Ctor { void* p; uint32_t val; template <class T, int I> void run() { T t(Info<T>::make(val)); ::new (p) V(std::move(t)); } };
struct Ident : boost::static_visitor<int> { template <class T> int operator()(T const& t) const { sx_assert(Info<T>::live(t), "live content"); return T::id; } };

template <int F> struct Run {
    typedef Make<F> M_; typedef typename M_::V V; typedef typename M_::Types Types; typedef typename M_::Bounded Bounded;
    struct H { alignas(V) unsigned char buf[sizeof(V)]; V& v() { return *reinterpret_cast<V*>(buf); } };
    static int id(V const& v) { Quiet q; int r = boost::apply_visitor(Ident(), v); sx_assert(r == v.which() + 1, "which() names the content"); return r; }
    static void go() {
        typedef typename at<Types, 0>::type T0; typedef typename at<Bounded, 0>::type B0;
        const bool mc = nmc_all<Bounded>::value, ma = mc && nma_all<Bounded>::value, dc = std::is_nothrow_default_constructible<B0>::value;
        sx_assert(std::is_nothrow_move_constructible<V>::value == mc, "move construction is noexcept exactly when every bounded type is nothrow move constructible");
        sx_assert(noexcept(V(std::declval<V&&>())) == mc, "move construction is noexcept exactly when every bounded type is nothrow move constructible");
        sx_assert(std::is_nothrow_move_assignable<V>::value == ma, "move assignment is noexcept exactly when every bounded type is nothrow move constructible and assignable");
        sx_assert(std::is_nothrow_default_constructible<V>::value == dc, "default construction is noexcept exactly when the first bounded type's is");
        sx_assert(std::is_nothrow_destructible<V>::value, "the destructor is noexcept");
        sx_assert(noexcept(std::declval<V const&>().which()) && noexcept(std::declval<V const&>().empty()), "the queries are noexcept");
        sx_assert(noexcept(boost::get<T0>((V*)0)) && noexcept(boost::get<T0>((V const*)0)) && noexcept(boost::relaxed_get<T0>((V*)0)) && noexcept(boost::strict_get<T0>((V*)0)), "pointer get is noexcept");
        if (mc) sx_cover("noexcept move");
        // with everything that may throw throwing: nothing declared noexcept fails
        H a, b, c;
        uint32_t i = sx_below(M_::NT, "i"), j = sx_below(M_::NT, "j"), x = sx_u32("x"), y = sx_u32("y");
        { Quiet q; Ctor<V> f; f.p = a.buf; f.val = x; pick<Types>(i, f); f.p = b.buf; f.val = y; pick<Types>(j, f); }
        if (sx_bool("pre")) {  // the state after an assignment that may have failed
            budget = 1; alloc_faults = true;
            try { a.v() = std::move(b.v()); } catch (boom const&) {} catch (std::bad_alloc const&) {}
            budget = 0;
        }
        uint32_t op = (uint32_t)sx_concretize(sx_below(6, "op"));
        raised = 0; budget = 2; alloc_faults = true;
        bool threw = false, made = false, declared = false;
        try {
            switch (op) {
                case 0: declared = std::is_nothrow_default_constructible<V>::value; ::new ((void*)c.buf) V(); made = true; break;
                case 1: declared = std::is_nothrow_move_constructible<V>::value; ::new ((void*)c.buf) V(std::move(a.v())); made = true; break;
                case 2: declared = std::is_nothrow_move_assignable<V>::value; a.v() = std::move(b.v()); break;
                case 3: declared = true; { bool e = a.v().empty(); int w = a.v().which(); sx_assert(!e && w >= 0 && w < M_::NT, "the queries answer"); } break;
                case 4: declared = true; { T0* p = boost::get<T0>(&a.v()); T0 const* q = boost::get<T0>(static_cast<V const*>(&a.v())); T0* r = boost::polymorphic_get<T0>(&a.v()); sx_assert(p == q && p == r && (p != 0) == (a.v().which() == 0), "pointer get answers"); } break;
                default: a.v().swap(b.v()); break;  // not declared noexcept, but must not terminate either
            }
        } catch (boom const& e) { threw = true; same_exception(e); } catch (std::bad_alloc const&) { threw = true; sx_assert(last_site == -1, "allocation"); }
        sx_obs(F); sx_obs(op); sx_obs(threw);
        sx_assert(threw == (raised > 0), "throws exactly when something it invoked threw");
        if (declared) sx_assert(!threw && raised == 0, "an operation declared noexcept does not fail");
        if (threw) { sx_cover("failed"); made = false; }
        id(a.v()); id(b.v());
        // destruction never fails
        if (made) { id(c.v()); c.v().~V(); }
        a.v().~V(); b.v().~V();
        budget = 0;
    }
};
template <int F, int N> struct Each { static void go(uint32_t f) { if (f == (uint32_t)F) Run<F>::go(); else Each<F + 1, N>::go(f); } };
template <int N> struct Each<N, N> { static void go(uint32_t) { sx_assert(0, "harness"); } };
extern "C" void sx_main() {
    uint32_t f = (uint32_t)sx_concretize(sx_below(HI - LO, "flags"));
    Each<LO, HI>::go(f + LO);
    sx_assert(sx_reg_count() == 0, "every object was destroyed");
    sx_cover("end");
}
